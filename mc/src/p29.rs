//! P29: key history attributes tell the truth
use crate::api::*;
use crate::engine::*;
use crate::env::*;
use crate::kdf::{self, Dp, Mode108, Salt};
use crate::keys::*;
use crate::p13::case;
use kryoptic_lib::pkcs11::vendor::*;
use kryoptic_lib::pkcs11::*;
use std::cell::RefCell;
use std::collections::HashSet;

/// sensitive, extractable as asked for
type SE = (Option<bool>, Option<bool>);
const SES: [SE; 9] = {
    let (n, t, f) = (None, Some(true), Some(false));
    [(n, n), (n, f), (n, t), (f, n), (f, f), (f, t), (t, n), (t, f), (t, t)]
};
const FEW: [SE; 5] = [(None, None), (Some(false), Some(false)), (Some(false), Some(true)), (Some(true), Some(false)), (Some(true), Some(true))];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Root {
    Gen(CK_MECHANISM_TYPE, CK_KEY_TYPE),
    /// the private or the public key
    Pair(CK_MECHANISM_TYPE, CK_KEY_TYPE, bool),
    Create(Kind),
    Pbkdf2(CK_KEY_TYPE),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Op {
    Copy(SE, Option<bool>),
    SetSens,
    SetNoExtr,
    Label,
    Derive(usize, SE),
    /// wrapped and unwrapped
    Wrap(usize, SE),
    /// closed and opened again
    Reopen,
    /// try to set a history attribute in that way
    Forge(Via, usize),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Via {
    Copy,
    Set,
    Derive(usize),
    Unwrap,
}
const VIAS: [Via; 9] = [Via::Copy, Via::Set, Via::Derive(0), Via::Derive(1), Via::Derive(5), Via::Derive(6), Via::Derive(7), Via::Derive(20), Via::Unwrap];
const FORGES: usize = 8;
fn forge(t: T, i: usize) -> T {
    match i {
        0 => t.b(CKA_LOCAL, true),
        1 => t.b(CKA_LOCAL, false),
        2 => t.b(CKA_ALWAYS_SENSITIVE, true),
        3 => t.b(CKA_ALWAYS_SENSITIVE, false),
        4 => t.b(CKA_NEVER_EXTRACTABLE, true),
        5 => t.b(CKA_NEVER_EXTRACTABLE, false),
        6 => t.ul(CKA_KEY_GEN_MECHANISM, CKM_AES_KEY_GEN),
        _ => t.ul(CKA_KEY_GEN_MECHANISM, CK_UNAVAILABLE_INFORMATION),
    }
}

/// what the attributes of a key say
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
struct Hist {
    local: Option<bool>,
    gm: Option<CK_ULONG>,
    always: Option<bool>,
    never: Option<bool>,
    sens: Option<bool>,
    extr: Option<bool>,
}
#[derive(Clone, Copy, Debug)]
struct K {
    h: H,
    class: CK_ULONG,
    kt: CK_ULONG,
    token: bool,
    m: Hist,
}
impl K {
    fn state(&self) -> (CK_ULONG, CK_ULONG, bool, Hist) {
        (self.class, self.kt, self.token, self.m)
    }
}
/// the truth
#[derive(Clone, Copy)]
struct Want {
    /// generated by the token itself with that mechanism
    local: Option<bool>,
    gm: [CK_ULONG; 2],
    always: bool,
    never: bool,
    /// the attributes may as well say less
    less: bool,
}
const NOGEN: [CK_ULONG; 2] = [CK_UNAVAILABLE_INFORMATION; 2];

fn read(s: H, h: H) -> Result<K, String> {
    let a = [CKA_CLASS, CKA_KEY_TYPE, CKA_TOKEN, CKA_LOCAL, CKA_KEY_GEN_MECHANISM, CKA_ALWAYS_SENSITIVE, CKA_NEVER_EXTRACTABLE, CKA_SENSITIVE, CKA_EXTRACTABLE];
    let (_, v) = get_many(s, h, &a);
    let val = |i: usize| match &v[i] {
        AV::V(x) => Some(x.clone()),
        _ => None,
    };
    let u = |i| val(i).filter(|x: &Vec<u8>| x.len() == 8).map(|x| CK_ULONG::from_ne_bytes(x.try_into().unwrap()));
    let b = |i| val(i).filter(|x: &Vec<u8>| x.len() == 1).map(|x| x[0] != 0);
    let (Some(class), Some(kt), Some(token)) = (u(0), u(1), b(2)) else {
        return Err("cannot be read".into());
    };
    if !QUIET.get() {
        note(&format!("  LOCAL {:?} KEY_GEN_MECHANISM {:x?} ALWAYS_SENSITIVE {:?} NEVER_EXTRACTABLE {:?} SENSITIVE {:?} EXTRACTABLE {:?}", b(3), u(4), b(5), b(6), b(7), b(8)));
    }
    Ok(K { h, class, kt, token, m: Hist { local: b(3), gm: u(4), always: b(5), never: b(6), sens: b(7), extr: b(8) } })
}
fn judge(k: &K, w: &Want) -> Result<(), String> {
    let m = &k.m;
    let local = m.local == Some(true);
    if let Some(l) = w.local {
        if l != local {
            return Err(format!("CKA_LOCAL is {:?}", m.local));
        }
    }
    let gm = m.gm.unwrap_or(CK_UNAVAILABLE_INFORMATION);
    if !w.gm.contains(&gm) {
        return Err(format!("CKA_KEY_GEN_MECHANISM is {:#x}, expected {:#x}", gm, w.gm[0]));
    }
    if k.class == CKO_PUBLIC_KEY {
        return Ok(());
    }
    let a = m.always == Some(true);
    let n = m.never == Some(true);
    if a != w.always && (a || !w.less) {
        return Err(format!("CKA_ALWAYS_SENSITIVE is {:?}, the truth is {}", m.always, w.always));
    }
    if n != w.never && (n || !w.less) {
        return Err(format!("CKA_NEVER_EXTRACTABLE is {:?}, the truth is {}", m.never, w.never));
    }
    Ok(())
}
fn se(mut t: T, x: SE) -> T {
    if let Some(b) = x.0 {
        t = t.b(CKA_SENSITIVE, b);
    }
    if let Some(b) = x.1 {
        t = t.b(CKA_EXTRACTABLE, b);
    }
    t
}
struct Env<'a> {
    dir: &'a std::path::Path,
    s: H,
    wk: H,
    rsa: H,
    rsapriv: H,
    /// other keys to concatenate with: whether they were always sensitive, never extractable
    others: [(H, bool, bool); 3],
}
fn env(dir: &std::path::Path) -> Env<'_> {
    let q = QUIET.replace(true);
    let s = user_session(1);
    let wk = okr(create(s, &aeskey(false, false, "wk", &[7; 32]).b(CKA_WRAP, true).b(CKA_UNWRAP, true)), "wrapping key");
    let rsa = okr(create(s, &rsa_pub(false, false).set(CKA_LABEL, b"wk").setb(CKA_WRAP, true)), "RSA");
    let rsapriv = okr(create(s, &rsa_priv(false, false).set(CKA_LABEL, b"wk").setb(CKA_UNWRAP, true)), "RSA");
    let g = |a, b| okr(gen_key(s, &Mech::new(CKM_GENERIC_SECRET_KEY_GEN), &kt(CKK_GENERIC_SECRET, (Some(a), Some(b))).set(CKA_LABEL, b"wk").ul(CKA_VALUE_LEN, 16)), "other key");
    let c = okr(create(s, &se(seckey(CKK_GENERIC_SECRET, false, false, "wk", &[9; 16]), (Some(true), Some(false)))), "other key");
    let e = Env { dir, s, wk, rsa, rsapriv, others: [(g(true, false), true, true), (g(false, true), false, false), (c, false, false)] };
    QUIET.set(q);
    e
}
fn kt(kt: CK_KEY_TYPE, x: SE) -> T {
    se(T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, kt).b(CKA_TOKEN, false).b(CKA_PRIVATE, false).b(CKA_DERIVE, true).s(CKA_LABEL, "k"), x)
}
fn make(e: &Env, r: Root, x: SE, token: bool, f: Option<usize>) -> Result<Option<(K, Want)>, String> {
    let s = e.s;
    let fg = |t: T| match f {
        Some(i) => forge(t, i),
        None => t,
    };
    let (h, local, gm): (R<H>, Option<bool>, CK_ULONG) = match r {
        Root::Gen(m, t) => {
            let mut tm = kt(t, x).setb(CKA_TOKEN, token);
            if t == CKK_HOTP {
                tm = tm.set(CKA_CLASS, &CKO_OTP_KEY.to_ne_bytes()).without(CKA_DERIVE).ul(CKA_OTP_LENGTH, 6).d(CKA_OTP_COUNTER, &[0; 8]).b(CKA_SIGN, true);
            }
            if ![CKK_HOTP].contains(&t) || m == CKM_HOTP_KEY_GEN {
                tm = tm.ul(CKA_VALUE_LEN, 32);
            }
            (gen_key(s, &Mech::new(m), &fg(tm)), Some(true), m)
        }
        Root::Pair(m, t, public) => {
            let mut pt = T::new().ul(CKA_CLASS, CKO_PUBLIC_KEY).ul(CKA_KEY_TYPE, t).b(CKA_TOKEN, token).b(CKA_PRIVATE, false).s(CKA_LABEL, "k");
            pt = match t {
                CKK_RSA => pt.ul(CKA_MODULUS_BITS, 2048).d(CKA_PUBLIC_EXPONENT, &[1, 0, 1]),
                CKK_DH => pt.d(CKA_PRIME, &hx(FFDHE2048)).d(CKA_BASE, &[2]),
                CKK_EC_MONTGOMERY => pt.d(CKA_EC_PARAMS, &X25519),
                _ => pt.d(CKA_EC_PARAMS, &P256),
            };
            let mut vt = se(T::new().ul(CKA_CLASS, CKO_PRIVATE_KEY).ul(CKA_KEY_TYPE, t).b(CKA_TOKEN, token).b(CKA_PRIVATE, false).s(CKA_LABEL, "k"), x);
            if t != CKK_RSA {
                vt = vt.b(CKA_DERIVE, true);
            }
            let (pt, vt) = if public { (fg(pt), vt) } else { (pt, fg(vt)) };
            let r = gen_pair(s, &Mech::new(m), &pt, &vt);
            (
                r.map(|(a, b)| {
                    let (keep, drop) = if public { (a, b) } else { (b, a) };
                    destroy(s, drop);
                    keep
                }),
                Some(true),
                m,
            )
        }
        Root::Create(k) => {
            let mut t = k.tmpl(token, false).set(CKA_LABEL, b"k").without(CKA_SENSITIVE).without(CKA_EXTRACTABLE);
            if k.secret() {
                t = se(t, x);
            }
            if matches!(k, Kind::Aes | Kind::Generic) {
                t = t.setb(CKA_DERIVE, true);
            }
            (create(s, &fg(t)), Some(false), CK_UNAVAILABLE_INFORMATION)
        }
        Root::Pbkdf2(t) => {
            let (pw, salt) = (b"password".to_vec(), b"salt".to_vec());
            let st = CK_PKCS5_PBKD2_PARAMS2 {
                saltSource: CKZ_SALT_SPECIFIED,
                pSaltSourceData: salt.as_ptr() as CK_VOID_PTR,
                ulSaltSourceDataLen: salt.len() as CK_ULONG,
                iterations: 2,
                prf: CKP_PKCS5_PBKD2_HMAC_SHA256,
                pPrfData: std::ptr::null_mut(),
                ulPrfDataLen: 0,
                pPassword: pw.as_ptr() as *mut _,
                ulPasswordLen: pw.len() as CK_ULONG,
            };
            let m = Mech::st(CKM_PKCS5_PBKD2, st).hold(pw).hold(salt).named("PBKDF2");
            (gen_key(s, &m, &fg(kt(t, x).setb(CKA_TOKEN, token).ul(CKA_VALUE_LEN, 32))), None, CKM_PKCS5_PBKD2)
        }
    };
    let Ok(h) = h else {
        return Ok(None);
    };
    let k = read(s, h)?;
    let made = !matches!(r, Root::Create(_));
    let w = Want {
        local,
        gm: if local.is_none() { [if k.m.local == Some(true) { gm } else { CK_UNAVAILABLE_INFORMATION }; 2] } else { [gm; 2] },
        always: made && k.m.sens == Some(true),
        never: made && k.m.extr == Some(false),
        less: matches!(r, Root::Pbkdf2(_)),
    };
    Ok(Some((k, w)))
}
const DERIVES: usize = 21;
/// how many there are for one key
fn applies(k: &K, i: usize) -> bool {
    match (k.class, k.kt) {
        (CKO_SECRET_KEY, CKK_GENERIC_SECRET) => i < 13 || (14..=16).contains(&i),
        (CKO_SECRET_KEY, CKK_AES) => i <= 8 || i == 13,
        (CKO_SECRET_KEY, _) => [3, 6, 7].contains(&i),
        (CKO_PRIVATE_KEY, CKK_EC | CKK_EC_MONTGOMERY) => [17, 18, 20].contains(&i),
        (CKO_PRIVATE_KEY, CKK_DH) => [19, 20].contains(&i),
        (CKO_PRIVATE_KEY, CKK_RSA) => i == 20,
        _ => false,
    }
}
/// the keys made and whether the other key spoils the history
fn derive_op(e: &Env, k: &K, i: usize, x: SE, f: Option<usize>) -> (R<Vec<H>>, bool, bool) {
    let s = e.s;
    let fg = |t: T| match f {
        Some(i) => forge(t, i),
        None => t,
    };
    let t = fg(kt(CKK_GENERIC_SECRET, x).ul(CKA_VALUE_LEN, 16));
    let mut oth = (0, true, true);
    let one = |r: R<H>| r.map(|h| vec![h]);
    let r = match i {
        0..=2 => {
            oth = e.others[i];
            one(derive(s, &kdf::concat_key(oth.0), k.h, &t))
        }
        3 => one(derive(s, &str_mech(CKM_CONCATENATE_BASE_AND_DATA, b"some data"), k.h, &t)),
        4 => one(derive(s, &str_mech(CKM_CONCATENATE_DATA_AND_BASE, b"some data"), k.h, &t)),
        5 => one(derive(s, &str_mech(CKM_XOR_BASE_AND_DATA, &[3; 16]), k.h, &t)),
        6 => one(derive(s, &Mech::new(CKM_SHA256_KEY_DERIVATION), k.h, &t)),
        7 => one(derive(s, &kdf::hkdf(CKM_HKDF_DERIVE, CKM_SHA256, true, true, &Salt::Null, b"i"), k.h, &t)),
        8 => {
            // two keys at once
            let extra = [t.clone()];
            let (m, hs) = kdf::sp800(&Mode108::Counter, if k.kt == CKK_AES { CKM_AES_CMAC } else { CKM_SHA256_HMAC }, &[Dp::Iter(Some((false, 32)))], &extra);
            derive(s, &m, k.h, &t).map(|h| vec![hs[0], h])
        }
        9 => {
            let (m, hs) = kdf::sp800(&Mode108::Feedback(vec![]), CKM_SHA256_HMAC, &[Dp::Iter(None)], &[]);
            drop(hs);
            one(derive(s, &m, k.h, &t))
        }
        10 => one(derive(s, &kdf::extract(0), k.h, &t)),
        11 => one(derive(s, &kdf::sshkdf(CKM_SHA256, b'C', b"x", b"s"), k.h, &t)),
        12 => one(derive(s, &kdf::tls_kdf(CKM_TLS12_KDF, CKM_SHA256, b"label", &[1; 32], &[2; 32], b""), k.h, &t)),
        13 => one(derive(s, &kdf::aes_data(false, &[0; 16], &[5; 16]), k.h, &t)),
        14 => {
            let (m, ver) = kdf::tls_master(CKM_TLS12_MASTER_KEY_DERIVE_DH, CKM_SHA256, &[1; 32], &[2; 32]);
            let r = one(derive(s, &m, k.h, &fg(kt(CKK_GENERIC_SECRET, x).ul(CKA_VALUE_LEN, 48))));
            drop(ver);
            r
        }
        15 => {
            let (m, ver) = kdf::tls_ems(CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE_DH, CKM_SHA256, &[1; 32]);
            let r = one(derive(s, &m, k.h, &fg(kt(CKK_GENERIC_SECRET, x).ul(CKA_VALUE_LEN, 48))));
            drop(ver);
            r
        }
        16 => {
            let (m, mat) = kdf::tls_keymat(CKM_TLS12_KEY_AND_MAC_DERIVE, CKM_SHA256, &[1; 32], &[2; 32], 20, 16, 0);
            derive(s, &m, k.h, &fg(kt(CKK_AES, x))).map(|_| vec![mat.out.hClientMacSecret, mat.out.hServerMacSecret, mat.out.hServerKey, mat.out.hClientKey])
        }
        17 | 18 => {
            let p = if k.kt == CKK_EC { hx(crate::agree::AGREE[0].2) } else { vec![9; 32] };
            let kd = if i == 17 { CKD_NULL } else { CKD_SHA256_KDF };
            one(derive(s, &kdf::ecdh(CKM_ECDH1_DERIVE, kd, &[], &p), k.h, &t))
        }
        19 => one(derive(s, &kdf::dh(&[4]), k.h, &t)),
        _ => one(derive(s, &Mech::new(CKM_PUB_KEY_FROM_PRIV_KEY), k.h, &fg(T::new().s(CKA_LABEL, "k").b(CKA_DESTROYABLE, true)))),
    };
    (r, oth.1, oth.2)
}
const WRAPS: usize = 5;
fn wrap_op(e: &Env, k: &K, i: usize, x: SE, f: Option<usize>) -> Option<R<H>> {
    let s = e.s;
    let (m, w, u) = match i {
        0 => (Mech::new(CKM_AES_KEY_WRAP_KWP), e.wk, e.wk),
        1 => (Mech::new(CKM_AES_KEY_WRAP), e.wk, e.wk),
        2 => (Mech::bytes(CKM_AES_CBC_PAD, &[0; 16]), e.wk, e.wk),
        3 => (Mech::new(CKM_RSA_PKCS), e.rsa, e.rsapriv),
        _ => (crate::cry::oaep(b""), e.rsa, e.rsapriv),
    };
    let o = wrap(s, &m, w, k.h, Some(4096));
    if o.rv != CKR_OK {
        return None;
    }
    let mut t = se(T::new().ul(CKA_CLASS, k.class).ul(CKA_KEY_TYPE, k.kt).b(CKA_TOKEN, false).b(CKA_PRIVATE, false).s(CKA_LABEL, "k"), x);
    if k.kt != CKK_RSA {
        t = t.b(CKA_DERIVE, true);
    }
    if let Some(i) = f {
        t = forge(t, i);
    }
    Some(unwrap(s, &m, u, &o.data, &t))
}
fn derived(k: &K, n: &K, a: bool, b: bool) -> Want {
    Want {
        local: Some(false),
        gm: NOGEN,
        always: a && k.m.always == Some(true) && n.m.sens == Some(true),
        never: b && k.m.never == Some(true) && n.m.extr == Some(false),
        less: false,
    }
}
fn changed(k: &K, n: &K) -> Want {
    Want {
        local: Some(k.m.local == Some(true)),
        gm: [k.m.gm.unwrap_or(CK_UNAVAILABLE_INFORMATION); 2],
        always: k.m.always == Some(true) && n.m.sens == Some(true),
        never: k.m.never == Some(true) && n.m.extr == Some(false),
        less: false,
    }
}
fn mutates(o: Op) -> bool {
    matches!(o, Op::SetSens | Op::SetNoExtr | Op::Label | Op::Reopen | Op::Forge(Via::Set, _))
}
/// None: refused. Otherwise the key and what is wrong with it
fn apply(e: &mut Env, k: &K, o: Op) -> Option<(K, Result<(), String>)> {
    let s = e.s;
    let rd = |h: H| match read(s, h) {
        Ok(n) => Ok(n),
        Err(m) => Err((K { h, ..*k }, Err(m))),
    };
    macro_rules! rd {
        ($h:expr) => {
            match rd($h) {
                Ok(n) => n,
                Err(x) => return Some(x),
            }
        };
    }
    let made = |n: K, w: Want| Some((n, judge(&n, &w)));
    match o {
        Op::Copy(x, tok) => {
            let mut t = se(T::new().s(CKA_LABEL, "k"), x);
            if let Some(b) = tok {
                t = t.b(CKA_TOKEN, b);
            }
            let n = rd!(copy(s, k.h, &t).ok()?);
            made(n, changed(k, &n))
        }
        Op::SetSens | Op::SetNoExtr | Op::Label => {
            let t = match o {
                Op::SetSens => T::new().b(CKA_SENSITIVE, true),
                Op::SetNoExtr => T::new().b(CKA_EXTRACTABLE, false),
                _ => T::new().s(CKA_LABEL, "k"),
            };
            set(s, k.h, &t);
            let n = rd!(k.h);
            made(n, changed(k, &n))
        }
        Op::Reopen => {
            if !k.token {
                return None;
            }
            ok(restart(e.dir), "restart");
            *e = env_again(e);
            let v = okr(find(e.s, &T::new().s(CKA_LABEL, "k")), "find");
            if v.len() != 1 {
                return Some((*k, Err(format!("{} keys are found after reopening", v.len()))));
            }
            match read(e.s, v[0]) {
                Err(m) => Some((*k, Err(m))),
                Ok(n) => {
                    let r = judge(&n, &changed(k, &n));
                    Some((n, r))
                }
            }
        }
        Op::Derive(i, x) => {
            if !applies(k, i) {
                return None;
            }
            let (r, a, b) = derive_op(e, k, i, x, None);
            from_derive(s, k, i, r.ok()?, a, b)
        }
        Op::Wrap(i, x) => {
            let n = rd!(wrap_op(e, k, i, x, None)?.ok()?);
            made(n, Want { local: Some(false), gm: NOGEN, always: false, never: false, less: false })
        }
        Op::Forge(v, f) => match v {
            Via::Copy => {
                let n = rd!(copy(s, k.h, &forge(T::new().s(CKA_LABEL, "k"), f)).ok()?);
                made(n, changed(k, &n))
            }
            Via::Set => {
                set(s, k.h, &forge(T::new(), f));
                let n = rd!(k.h);
                made(n, changed(k, &n))
            }
            Via::Derive(i) => {
                if !applies(k, i) {
                    return None;
                }
                let (r, a, b) = derive_op(e, k, i, (None, None), Some(f));
                from_derive(s, k, i, r.ok()?, a, b)
            }
            Via::Unwrap => {
                let n = rd!(wrap_op(e, k, if k.kt == CKK_RSA || k.class == CKO_PRIVATE_KEY { 0 } else { 1 }, (None, None), Some(f))?.ok()?);
                made(n, Want { local: Some(false), gm: NOGEN, always: false, never: false, less: false })
            }
        },
    }
}
fn env_again<'a>(e: &Env<'a>) -> Env<'a> {
    env(e.dir)
}
fn from_derive(s: H, k: &K, i: usize, hs: Vec<H>, a: bool, b: bool) -> Option<(K, Result<(), String>)> {
    let mut last = None;
    let n = hs.len();
    for (j, h) in hs.into_iter().enumerate() {
        let x = match read(s, h) {
            Err(m) => (K { h, ..*k }, Err(m)),
            Ok(n) => {
                let mut w = derived(k, &n, a, b);
                if i == 20 {
                    // the public key of a key that may have been made here
                    w.gm = [CK_UNAVAILABLE_INFORMATION, k.m.gm.unwrap_or(CK_UNAVAILABLE_INFORMATION)];
                }
                (n, judge(&n, &w))
            }
        };
        let bad = x.1.is_err();
        if j + 1 < n && !bad {
            destroy(s, h);
        }
        last = Some(x);
        if bad {
            break;
        }
    }
    last
}
fn sess_ops(k: &K, forges: bool) -> Vec<Op> {
    let mut v = vec![];
    let has = k.class != CKO_PUBLIC_KEY;
    for x in SES {
        if has || x == (None, None) {
            v.push(Op::Copy(x, None));
        }
    }
    for i in 0..DERIVES {
        if applies(k, i) {
            for x in FEW {
                if i < 20 || x == (None, None) {
                    v.push(Op::Derive(i, x));
                }
            }
        }
    }
    for i in 0..WRAPS {
        if has && (k.class == CKO_SECRET_KEY || i == 0 || i == 2) {
            for x in FEW {
                v.push(Op::Wrap(i, x));
            }
        }
    }
    if forges {
        for a in VIAS {
            for f in 0..FORGES {
                v.push(Op::Forge(a, f));
            }
        }
    }
    v.extend([Op::SetSens, Op::SetNoExtr, Op::Label]);
    v
}
fn tok_ops() -> Vec<Op> {
    let mut v = vec![Op::Reopen, Op::SetSens, Op::SetNoExtr, Op::Label];
    for x in SES {
        for t in [None, Some(false), Some(true)] {
            v.push(Op::Copy(x, t));
        }
    }
    v
}
/// from the very beginning; the last step is judged
fn replay(e: &mut Env, r: Root, x: SE, token: bool, path: &[Op]) -> Result<Option<K>, String> {
    let Some((mut k, w)) = make(e, r, x, token, None)? else {
        return Ok(None);
    };
    let mut res = judge(&k, &w);
    for o in path {
        let Some((n, r)) = apply(e, &k, *o) else {
            destroy(e.s, k.h);
            return Ok(None);
        };
        // the copy on the token must be the only one with the label
        if n.h != k.h && !matches!(o, Op::Reopen) {
            destroy(e.s, k.h);
        }
        k = n;
        res = r;
    }
    match res {
        Ok(()) => Ok(Some(k)),
        Err(m) => {
            destroy(e.s, k.h);
            Err(m)
        }
    }
}
type Seen = HashSet<(CK_ULONG, CK_ULONG, bool, Hist)>;
struct Walk<'a, 'b> {
    e: Env<'a>,
    w: &'b mut W,
    r: Root,
    x: SE,
    token: bool,
    full: usize,
    max: usize,
    seen: Seen,
}
impl Walk<'_, '_> {
    fn report(&mut self, path: &[Op]) {
        let (r, x, t) = (self.r, self.x, self.token);
        let e = RefCell::new(&mut self.e);
        case(self.w, &format!("{:?}", r), || format!("{:?} {:?}", x, path), || {
            let mut e = e.borrow_mut();
            let k = replay(&mut e, r, x, t, path)?;
            if let Some(k) = k {
                destroy(e.s, k.h);
            }
            Ok(())
        });
    }
    fn walk(&mut self, k: K, path: &mut Vec<Op>) {
        let d = path.len();
        let new = self.seen.insert(k.state());
        if new {
            self.w.distinct(&(self.token, k.state()));
        }
        if d >= self.max || d >= self.full && !new {
            return;
        }
        let ops = if self.token { tok_ops() } else { sess_ops(&k, d < self.full) };
        for o in ops {
            path.push(o);
            // what changes the key, or the library, begins with a key of its own
            let own = if self.token || mutates(o) { replay(&mut self.e, self.r, self.x, self.token, &path[..d]).ok().flatten() } else { Some(k) };
            if let Some(b) = own {
                self.w.eval();
                match apply(&mut self.e, &b, o) {
                    None => (),
                    Some((n, Err(_))) => {
                        destroy(self.e.s, n.h);
                        self.report(path);
                    }
                    Some((n, Ok(()))) => {
                        if self.token {
                            for h in find(self.e.s, &T::new().s(CKA_LABEL, "k")).unwrap_or_default() {
                                destroy(self.e.s, h);
                            }
                            self.walk(n, path);
                        } else {
                            if !matches!(o, Op::Forge(..)) {
                                self.walk(n, path);
                            }
                            if n.h != b.h {
                                destroy(self.e.s, n.h);
                            }
                        }
                    }
                }
                if own.is_some() && (self.token || mutates(o)) {
                    if self.token {
                        // handles change with a new start
                        for h in find(self.e.s, &T::new().s(CKA_LABEL, "k")).unwrap_or_default() {
                            destroy(self.e.s, h);
                        }
                    } else {
                        destroy(self.e.s, b.h);
                    }
                }
            }
            path.pop();
        }
    }
}
fn roots() -> Vec<Root> {
    let mut v = vec![
        Root::Gen(CKM_GENERIC_SECRET_KEY_GEN, CKK_GENERIC_SECRET),
        Root::Gen(CKM_AES_KEY_GEN, CKK_AES),
        Root::Gen(CKM_HOTP_KEY_GEN, CKK_HOTP),
        Root::Gen(CKM_HKDF_KEY_GEN, CKK_HKDF),
    ];
    for (m, t) in [(CKM_SHA_1_KEY_GEN, CKK_SHA_1_HMAC), (CKM_SHA256_KEY_GEN, CKK_SHA256_HMAC), (CKM_SHA512_KEY_GEN, CKK_SHA512_HMAC), (CKM_SHA3_256_KEY_GEN, CKK_SHA3_256_HMAC)] {
        v.push(Root::Gen(m, t));
    }
    for p in [false, true] {
        for (m, t) in [(CKM_EC_KEY_PAIR_GEN, CKK_EC), (CKM_EC_MONTGOMERY_KEY_PAIR_GEN, CKK_EC_MONTGOMERY), (CKM_DH_PKCS_KEY_PAIR_GEN, CKK_DH), (CKM_RSA_PKCS_KEY_PAIR_GEN, CKK_RSA)] {
            v.push(Root::Pair(m, t, p));
        }
    }
    for k in KINDS {
        if k.is_key() {
            v.push(Root::Create(k));
        }
    }
    v.extend([Root::Pbkdf2(CKK_GENERIC_SECRET), Root::Pbkdf2(CKK_AES)]);
    v
}
fn has_se(r: Root) -> bool {
    match r {
        Root::Pair(_, _, p) => !p,
        Root::Create(k) => k.secret(),
        _ => true,
    }
}
fn heavy(r: Root) -> bool {
    matches!(r, Root::Pair(_, CKK_RSA | CKK_DH, _))
}
pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    let th = o.tier.thorough();
    let tm = Tmpl::std(sc, Db::Sqlite);
    let tn = Tmpl::std(sc, Db::Nss);
    let mut items = vec![];
    for r in roots() {
        for x in SES {
            if has_se(r) || x == (None, None) {
                items.push((r, x));
            }
        }
    }
    items.sort_by_key(|i| !heavy(i.0));
    let mut toks = vec![];
    for nss in [true, false] {
        for (r, x) in &items {
            if nss && matches!(r, Root::Gen(_, CKK_HOTP) | Root::Create(Kind::Hotp)) || !th && (nss || heavy(*r)) && !(*x == (None, None) || *x == (Some(true), Some(false)) && (!nss || !matches!(r, Root::Create(_)))) || !th && nss && heavy(*r) {
                continue;
            }
            toks.push((nss, *r, *x));
        }
    }
    let (it, tk, tm, tn) = (&items, &toks, &tm, &tn);
    let stages = vec![
        Stage::new("session", items.len(), move |w: &mut W, i| {
            let (r, x) = it[i];
            w.begin(&format!("{:?} {:?}", r, x));
            tm.fresh(&w.dir);
            let dir = w.dir.clone();
            let mut e = env(&dir);
            // no history can be claimed when a key is made
            for f in 0..FORGES {
                case(w, &format!("{:?}", r), || format!("{:?} forge {}", x, f), || match make(&e, r, x, false, Some(f))? {
                    None => Ok(()),
                    Some((k, want)) => {
                        let j = judge(&k, &want);
                        destroy(e.s, k.h);
                        j
                    }
                });
            }
            let er = RefCell::new(&mut e);
            let first = case(w, &format!("{:?}", r), || format!("{:?}", x), || replay(&mut er.borrow_mut(), r, x, false, &[]));
            if let Some(Some(k)) = first {
                let q = QUIET.replace(true);
                let full = if th { 2 } else { 1 };
                let mut wk = Walk { e, w, r, x, token: false, full, max: full + if th { 3 } else { 2 }, seen: HashSet::new() };
                wk.walk(k, &mut vec![]);
                QUIET.set(q);
            }
            w.sample(&format!("{:?} {:?}", r, x));
        }),
        Stage::new("token", toks.len(), move |w: &mut W, i| {
            let (nss, r, x) = tk[i];
            let label = format!("{} {:?} {:?}", if nss { "nss" } else { "sqlite" }, r, x);
            w.begin(&label);
            (if nss { tn } else { tm }).fresh(&w.dir);
            let dir = w.dir.clone();
            let mut e = env(&dir);
            let er = RefCell::new(&mut e);
            let first = case(w, &label, || "new".to_string(), || replay(&mut er.borrow_mut(), r, x, true, &[]));
            if let Some(Some(k)) = first {
                let q = QUIET.replace(true);
                destroy(e.s, k.h);
                let max = if heavy(r) { 1 } else if nss { if th { 2 } else { 1 } } else if th { 3 } else { 2 };
                let mut wk = Walk { e, w, r, x, token: true, full: 1, max, seen: HashSet::new() };
                wk.walk(k, &mut vec![]);
                QUIET.set(q);
            }
        }),
    ];
    crate::engine::run(
        Check {
            prop: "P29",
            level: "exploration",
            rule: "exhaustive exploration on the real library of histories of keys: every way a key is made (generated by every kind of mechanism, imported, from a password) with every combination of sensitive and extractable, then every sequence of copies, changes, derivations by every mechanism, wrapping and unwrapping, and reopening of the token, up to the bound; beyond the bound from every new state of the attributes. After each step the history attributes are compared with the ghost truth. At each step of the bound every attempt to set a history attribute",
            assumptions: vec![
                "a history attribute that is absent counts as saying nothing (not local, unknown mechanism, not always sensitive, not never extractable)".into(),
                "keys made from passwords may be called local or not, the standard makes them with C_GenerateKey".into(),
            ],
            extra: vec![],
        },
        sc,
        o,
        stages,
    )
}
