//! P06: a read-only session never changes token objects.
use crate::api::*;
use crate::engine::*;
use crate::env::*;
use crate::keys::*;
use kryoptic_lib::pkcs11::*;
use std::collections::BTreeMap;

/// how the template says where the object goes
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Tok {
    True,
    False,
    Absent,
    FalseTrue,
    TrueFalse,
}
use Tok::*;
impl Tok {
    fn put(self, t: T) -> T {
        let t = t.without(CKA_TOKEN);
        match self {
            True => t.b(CKA_TOKEN, true),
            False => t.b(CKA_TOKEN, false),
            Absent => t,
            FalseTrue => t.b(CKA_TOKEN, false).b(CKA_TOKEN, true),
            TrueFalse => t.b(CKA_TOKEN, true).b(CKA_TOKEN, false),
        }
    }
}
const TOKS: [Tok; 5] = [True, False, Absent, FalseTrue, TrueFalse];
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Op {
    Create(Kind, Tok),
    /// source is the token object of that kind
    CopyTok(Kind, Tok),
    CopySes(Kind, Tok),
    SetTok(Kind),
    SetTokEmpty(Kind),
    SetSes(Kind),
    SetSesToken(Kind),
    DestroyTok(Kind),
    DestroySes(Kind),
    GenKey(CK_MECHANISM_TYPE, Tok),
    GenPair(CK_MECHANISM_TYPE, Tok, Tok),
    Unwrap(Tok),
    /// mechanism number, token, token of the additional key
    Derive(u8, Tok, Tok),
}
fn kdf(m: u8, extra: &T) -> (Mech, bool) {
    match m {
        0 => (str_mech(CKM_CONCATENATE_BASE_AND_DATA, &[7u8; 12]), false),
        1 => (str_mech(CKM_XOR_BASE_AND_DATA, &[7u8; 20]), false),
        2 => {
            let p = CK_HKDF_PARAMS {
                bExtract: CK_TRUE,
                bExpand: CK_TRUE,
                prfHashMechanism: CKM_SHA256,
                ulSaltType: CKF_HKDF_SALT_NULL,
                pSalt: std::ptr::null_mut(),
                ulSaltLen: 0,
                hSaltKey: 0,
                pInfo: std::ptr::null_mut(),
                ulInfoLen: 0,
            };
            (Mech::st(CKM_HKDF_DERIVE, p).named("HKDF"), false)
        }
        _ => {
            // SP 800-108 counter / feedback KDF with one additional derived key
            let cnt = Box::new(CK_SP800_108_COUNTER_FORMAT { bLittleEndian: CK_FALSE, ulWidthInBits: 32 });
            let typ = if m == 3 { CK_SP800_108_ITERATION_VARIABLE } else { CK_SP800_108_ITERATION_VARIABLE };
            let (vp, vl): (CK_VOID_PTR, usize) = if m == 3 {
                (&*cnt as *const _ as CK_VOID_PTR, std::mem::size_of::<CK_SP800_108_COUNTER_FORMAT>())
            } else {
                (std::ptr::null_mut(), 0)
            };
            let dp = Box::new([
                CK_PRF_DATA_PARAM { type_: typ, pValue: vp, ulValueLen: vl as CK_ULONG },
            ]);
            let et = extra.clone();
            let raw = et.raw().into_boxed_slice();
            let h: Box<CK_OBJECT_HANDLE> = Box::new(0);
            let dk = Box::new([CK_DERIVED_KEY {
                pTemplate: raw.as_ptr() as *mut _,
                ulAttributeCount: raw.len() as CK_ULONG,
                phKey: &*h as *const _ as *mut _,
            }]);
            let mech = if m == 3 {
                Mech::st(
                    CKM_SP800_108_COUNTER_KDF,
                    CK_SP800_108_KDF_PARAMS {
                        prfType: CKM_SHA256_HMAC,
                        ulNumberOfDataParams: 1,
                        pDataParams: dp.as_ptr() as *mut _,
                        ulAdditionalDerivedKeys: 1,
                        pAdditionalDerivedKeys: dk.as_ptr() as *mut _,
                    },
                )
            } else {
                Mech::st(
                    CKM_SP800_108_FEEDBACK_KDF,
                    CK_SP800_108_FEEDBACK_KDF_PARAMS {
                        prfType: CKM_SHA256_HMAC,
                        ulNumberOfDataParams: 1,
                        pDataParams: dp.as_ptr() as *mut _,
                        ulIVLen: 0,
                        pIV: std::ptr::null_mut(),
                        ulAdditionalDerivedKeys: 1,
                        pAdditionalDerivedKeys: dk.as_ptr() as *mut _,
                    },
                )
            };
            let nm = if m == 3 { "SP800-108 counter" } else { "SP800-108 feedback" };
            (mech.hold(cnt).hold(dp).hold(et).hold(raw).hold(h).hold(dk).named(nm), true)
        }
    }
}
fn ops(db: Db) -> Vec<Op> {
    let mut v = vec![];
    for k in KINDS {
        if db == Db::Nss && matches!(k, Kind::Hotp | Kind::Data) {
            continue;
        }
        for t in TOKS {
            v.push(Op::Create(k, t));
            v.push(Op::CopyTok(k, t));
            v.push(Op::CopySes(k, t));
        }
        v.extend([Op::SetTok(k), Op::SetTokEmpty(k), Op::SetSes(k), Op::SetSesToken(k), Op::DestroyTok(k), Op::DestroySes(k)]);
    }
    for t in TOKS {
        for m in [CKM_AES_KEY_GEN, CKM_GENERIC_SECRET_KEY_GEN] {
            v.push(Op::GenKey(m, t));
        }
        for u in TOKS {
            v.push(Op::GenPair(CKM_EC_KEY_PAIR_GEN, t, u));
            v.push(Op::Derive(3, t, u));
            v.push(Op::Derive(4, t, u));
        }
        v.push(Op::GenPair(CKM_EC_MONTGOMERY_KEY_PAIR_GEN, t, False));
        v.push(Op::Unwrap(t));
        for m in 0..3 {
            v.push(Op::Derive(m, t, Absent));
        }
    }
    v
}
const WK: [u8; 16] = [0x31; 16];
fn population(db: Db) {
    let s = user_session(1);
    for k in KINDS {
        if db == Db::Nss && matches!(k, Kind::Hotp | Kind::Data) {
            continue;
        }
        let private = matches!(k, Kind::Generic | Kind::EcPriv);
        let mut t = k.tmpl(true, private).set(CKA_LABEL, format!("tok-{:?}", k).as_bytes());
        if db == Db::Nss {
            t = t.d(CKA_ID, format!("id-{:?}", k).as_bytes());
        }
        okr(create(s, &t), "token object");
    }
}
const PUB_ATTRS: &[CK_ATTRIBUTE_TYPE] = &[
    CKA_CLASS, CKA_TOKEN, CKA_PRIVATE, CKA_LABEL, CKA_UNIQUE_ID, CKA_KEY_TYPE, CKA_ID, CKA_SENSITIVE, CKA_EXTRACTABLE, CKA_ENCRYPT,
    CKA_DECRYPT, CKA_SIGN, CKA_VERIFY, CKA_DERIVE, CKA_WRAP, CKA_UNWRAP, CKA_LOCAL, CKA_MODIFIABLE, CKA_COPYABLE, CKA_DESTROYABLE,
    CKA_MODULUS, CKA_PUBLIC_EXPONENT, CKA_EC_PARAMS, CKA_PRIME, CKA_BASE,
];
type All = BTreeMap<Vec<u8>, Snap>;
fn tokens(s: H) -> Result<All, String> {
    let q = QUIET.replace(true);
    let r = (|| {
        let mut m = All::new();
        for h in find(s, &T::new().b(CKA_TOKEN, true)).map_err(rvs)? {
            // key values of public token objects are only readable after a login
            let sn = match snap(s, h) {
                Err(CKR_GENERAL_ERROR) => {
                    let (rv, v) = get_many(s, h, PUB_ATTRS);
                    match rv {
                        CKR_OK | CKR_ATTRIBUTE_SENSITIVE | CKR_ATTRIBUTE_TYPE_INVALID => (),
                        e => return Err(format!("reading a token object: {}", rvs(e))),
                    }
                    PUB_ATTRS.iter().zip(v).filter_map(|(t, x)| if let AV::V(b) = x { Some((*t, b)) } else { None }).collect()
                }
                r => r.map_err(|e| format!("reading a token object: {}", rvs(e)))?,
            };
            if sn.get(&CKA_CLASS).map(|c| c == &CKO_PROFILE.to_ne_bytes().to_vec() || c == &CKO_MECHANISM.to_ne_bytes().to_vec()) == Some(true) {
                continue;
            }
            let key = match sn.get(&CKA_UNIQUE_ID) {
                Some(u) => u.clone(),
                None => format!("h{}", h).into_bytes(),
            };
            m.insert(key, sn);
        }
        Ok(m)
    })();
    QUIET.set(q);
    r
}
fn diff(a: &All, b: &All) -> Option<String> {
    for (u, s) in a {
        match b.get(u) {
            None => return Some(format!("token object {} is gone", String::from_utf8_lossy(s.get(&CKA_LABEL).map(|x| &x[..]).unwrap_or(b"?")))),
            Some(x) if x != s => return Some(format!("a token object changed: {}", snapdiff(s, x))),
            _ => (),
        }
    }
    for (u, s) in b {
        if !a.contains_key(u) {
            return Some(format!("a new token object appeared (class {:?})", s.get(&CKA_CLASS).map(|x| x[0])));
        }
    }
    None
}
struct Ctx {
    s: H,
    user: bool,
    /// session object of each kind
    ses: BTreeMap<String, H>,
}
fn tokobj(s: H, k: Kind) -> Option<H> {
    let q = QUIET.replace(true);
    let r = find(s, &T::new().b(CKA_TOKEN, true).s(CKA_LABEL, &format!("tok-{:?}", k))).ok().and_then(|v| v.first().copied());
    QUIET.set(q);
    r
}
fn sesobj(c: &mut Ctx, k: Kind) -> H {
    let n = format!("{:?}", k);
    if let Some(h) = c.ses.get(&n) {
        return *h;
    }
    let q = QUIET.replace(true);
    let h = okr(create(c.s, &k.tmpl(false, false)), "session object in a read-only session");
    QUIET.set(q);
    c.ses.insert(n, h);
    h
}
/// runs the operation; returns (rv, must it be refused, must it be allowed)
fn exec(c: &mut Ctx, op: &Op) -> Option<(Rv, bool, bool)> {
    let s = c.s;
    let gt = |t: Tok| t.put(T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET).ul(CKA_VALUE_LEN, 16).b(CKA_PRIVATE, false));
    let cls = |t: Tok| (t == True, t == False || t == Absent);
    Some(match op {
        Op::Create(k, t) => {
            let (bad, good) = cls(*t);
            (rvr(&create(s, &t.put(k.tmpl(false, false)))), bad, good)
        }
        Op::CopyTok(k, t) => {
            let o = tokobj(s, *k)?;
            // without a token attribute the copy would be a token object as well
            (rvr(&copy(s, o, &t.put(T::new()))), *t == True || *t == Absent, *t == False && (c.user || !k.secret()))
        }
        Op::CopySes(k, t) => {
            let o = sesobj(c, *k);
            let (bad, good) = cls(*t);
            (rvr(&copy(s, o, &t.put(T::new()))), bad, good)
        }
        Op::SetTok(k) => (set(s, tokobj(s, *k)?, &T::new().s(CKA_LABEL, "changed")), true, false),
        Op::SetTokEmpty(k) => (set(s, tokobj(s, *k)?, &T::new()), false, false),
        Op::SetSes(k) => {
            let o = sesobj(c, *k);
            (set(s, o, &T::new().s(CKA_LABEL, "changed")), false, true)
        }
        Op::SetSesToken(k) => {
            let o = sesobj(c, *k);
            (set(s, o, &T::new().b(CKA_TOKEN, true)), true, false)
        }
        Op::DestroyTok(k) => (destroy(s, tokobj(s, *k)?), true, false),
        Op::DestroySes(k) => {
            let o = sesobj(c, *k);
            c.ses.remove(&format!("{:?}", k));
            (destroy(s, o), false, true)
        }
        Op::GenKey(m, t) => {
            let (bad, good) = cls(*t);
            let tm = t.put(T::new().ul(CKA_VALUE_LEN, 16).b(CKA_PRIVATE, false));
            (rvr(&gen_key(s, &Mech::new(*m), &tm)), bad, good)
        }
        Op::GenPair(m, t, u) => {
            let par: &[u8] = if *m == CKM_EC_KEY_PAIR_GEN { &P256 } else { &X25519 };
            let pt = t.put(T::new().d(CKA_EC_PARAMS, par).b(CKA_PRIVATE, false));
            let kt = u.put(T::new().b(CKA_PRIVATE, false));
            let (b1, g1) = cls(*t);
            let (b2, g2) = cls(*u);
            (rvr(&gen_pair(s, &Mech::new(*m), &pt, &kt)), b1 || b2, g1 && g2)
        }
        Op::Unwrap(t) => {
            let q = QUIET.replace(true);
            let wk = okr(create(s, &seckey(CKK_AES, false, false, "wk", &WK).b(CKA_WRAP, true).b(CKA_UNWRAP, true)), "wk");
            let k = okr(create(s, &aeskey(false, false, "k", &[9u8; 16]).b(CKA_EXTRACTABLE, true)), "k");
            let m = Mech::new(CKM_AES_KEY_WRAP).named("AES_KEY_WRAP");
            let blob = okr(wrap(s, &m, wk, k, Some(64)).ok(), "wrap");
            QUIET.set(q);
            let (bad, good) = cls(*t);
            let tm = t.put(T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_AES).b(CKA_PRIVATE, false));
            let r = rvr(&unwrap(s, &m, wk, &blob, &tm));
            (r, bad, good)
        }
        Op::Derive(m, t, u) => {
            let q = QUIET.replace(true);
            let b = okr(create(s, &seckey(CKK_GENERIC_SECRET, false, false, "base", &GENV).b(CKA_DERIVE, true)), "base");
            QUIET.set(q);
            let (mech, two) = kdf(*m, &gt(*u));
            let (b1, g1) = cls(*t);
            let (b2, g2) = cls(*u);
            (rvr(&derive(s, &mech, b, &gt(*t))), b1 || (two && b2), g1 && (g2 || !two))
        }
    })
    .map(|x| {
        let _ = c.user;
        x
    })
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Login {
    None,
    /// logged in through this read-only session
    Own,
    /// through another read-write session
    Other,
    /// the SO was logged in and out again
    AfterSo,
}
const LOGINS: [Login; 4] = [Login::None, Login::Own, Login::Other, Login::AfterSo];

fn one(w: &mut W, tm: &Tmpl, db: Db, lg: Login, seq: &[Op]) {
    let name = format!("{}/{:?}/{:?}", db.name(), lg, seq);
    w.begin(&name);
    w.add(TRACES, 1);
    w.eval();
    w.distinct(&(db, lg, seq));
    let q = QUIET.replace(true);
    close_all(1);
    // a dirty token (only after a violation) is replaced
    let other = if matches!(lg, Login::Other | Login::AfterSo) { Some(okr(open(1, true), "rw session")) } else { None };
    QUIET.set(q);
    if lg == Login::AfterSo {
        login(other.unwrap(), CKU_SO, SO);
        logout(other.unwrap());
    }
    let s = okr(open(1, false), "ro session");
    match lg {
        Login::Own => ok(login(s, CKU_USER, UP), "login"),
        Login::Other => ok(login(other.unwrap(), CKU_USER, UP), "login"),
        _ => (),
    }
    let before = match tokens(s) {
        Ok(b) => b,
        Err(e) => panic!("harness: {}", e),
    };
    let mut c = Ctx { s, user: matches!(lg, Login::Own | Login::Other), ses: BTreeMap::new() };
    let mut dirty = false;
    for (i, op) in seq.iter().enumerate() {
        w.add(TRANS, 1);
        let Some((rv, bad, good)) = exec(&mut c, op) else { continue };
        let key = format!("{}/{:?}/{:?}", db.name(), lg, &seq[..=i]);
        if bad && rv == CKR_OK {
            w.viol(&key, "a read-only session's call on a token object succeeded");
            dirty = true;
            break;
        }
        if good && rv != CKR_OK {
            w.viol(&key, &format!("the call on session objects is refused: {}", rvs(rv)));
            break;
        }
        match tokens(s) {
            Err(e) => {
                w.viol(&key, &e);
                dirty = true;
                break;
            }
            Ok(a) => {
                if let Some(d) = diff(&before, &a) {
                    w.viol(&key, &format!("{} (the call returned {})", d, rvs(rv)));
                    dirty = true;
                    break;
                }
            }
        }
    }
    w.sample_trace();
    if dirty {
        tm.fresh(&w.dir);
    }
}

pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    let th = o.tier.thorough();
    let tms = Tmpl::std_with(sc, "p06", Db::Sqlite, || population(Db::Sqlite));
    let tmn = Tmpl::std_with(sc, "p06", Db::Nss, || population(Db::Nss));
    let mut it = vec![];
    for db in DBS {
        let all = ops(db);
        for lg in LOGINS {
            for ch in all.chunks(8) {
                it.push((db, lg, ch.to_vec()));
            }
        }
    }
    let (itr, tsr, tnr) = (&it, &tms, &tmn);
    let s1 = Stage::new("single", it.len(), move |w, i| {
        let (db, lg, opsv) = &itr[i];
        let tm = if *db == Db::Sqlite { tsr } else { tnr };
        tm.fresh(&w.dir);
        w.add(STATES, opsv.len() as u64);
        let q = QUIET.replace(true);
        let s = user_session(1);
        let t0 = tokens(s);
        QUIET.set(q);
        for op in opsv {
            one(w, tm, *db, *lg, &[*op]);
        }
        // and after a restart with a login, everything is as it was
        restart(&w.dir);
        let s = user_session(1);
        match (t0, tokens(s)) {
            (Ok(a), Ok(b)) => {
                let strip = |m: All| -> Vec<Snap> { let mut v: Vec<Snap> = m.into_values().collect(); v.sort(); v };
                if strip(a) != strip(b) {
                    w.viol(&format!("{}/{:?}/{:?}/restart", db.name(), lg, opsv), "token objects differ after a restart");
                }
            }
            (a, b) => w.viol(&format!("{}/{:?}/{:?}/restart", db.name(), lg, opsv), &format!("{:?} {:?}", a.err(), b.err())),
        }
    });
    // pairs (quick) or triples (thorough) of a reduced set: what an earlier call leaves must not open a way
    let red: Vec<Op> = ops(Db::Sqlite)
        .into_iter()
        .filter(|op| match op {
            Op::Create(k, t) => matches!(k, Kind::Aes | Kind::Data) && (th || *t != TrueFalse),
            Op::CopyTok(k, t) | Op::CopySes(k, t) => matches!(k, Kind::Aes | Kind::EcPub) && (th || *t != TrueFalse),
            Op::SetTok(k) | Op::SetSes(k) | Op::SetSesToken(k) | Op::DestroyTok(k) | Op::DestroySes(k) => matches!(k, Kind::Aes | Kind::Data),
            Op::SetTokEmpty(k) => *k == Kind::Aes,
            Op::GenKey(m, t) => *m == CKM_AES_KEY_GEN && matches!(t, True | False | Absent),
            Op::GenPair(m, t, u) => *m == CKM_EC_KEY_PAIR_GEN && matches!((t, u), (True, False) | (False, True) | (Absent, Absent)),
            Op::Unwrap(t) => matches!(t, True | False),
            Op::Derive(m, t, u) => matches!((m, t, u), (0, True, _) | (0, False, _) | (3, False, True) | (3, True, False) | (3, False, False)),
        })
        .collect();
    let nred = red.len();
    let redr = &red;
    let s2 = Stage::new("seq", nred * LOGINS.len(), move |w, i| {
        let (lg, a) = (LOGINS[i % LOGINS.len()], redr[i / LOGINS.len()]);
        tsr.fresh(&w.dir);
        w.add(STATES, 1);
        for b in redr {
            if th {
                for c in redr {
                    one(w, tsr, Db::Sqlite, lg, &[a, *b, *c]);
                }
            } else {
                one(w, tsr, Db::Sqlite, lg, &[a, *b]);
            }
        }
    });
    crate::engine::run(
        Check {
            prop: "P06",
            level: "exploration",
            rule: "every object-creating, copying, changing and destroying call with every way of giving CKA_TOKEN (true, false, absent, given twice) for every object kind, alone and in sequences, through a read-only session in every login situation on both storages; all token objects are read back after every call and after a restart",
            assumptions: vec!["HOTP counters are state kept by the token itself and not covered here".into()],
            extra: vec![],
        },
        sc,
        o,
        vec![s1, s2],
    )
}
