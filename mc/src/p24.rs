//! P24: slots are independent.
use crate::api::*;
use crate::c;
use crate::calls::*;
use crate::engine::*;
use crate::env::*;
use crate::keys::*;
use crate::p13::case;
use kryoptic_lib::pkcs11::*;
use std::collections::HashMap;
use std::path::Path;

fn slot_info(slot: H) -> Result<Vec<u8>, Rv> {
    let mut i: CK_SLOT_INFO = unsafe { std::mem::zeroed() };
    let rv = c!(C_GetSlotInfo, slot, &mut i);
    if rv != 0 { Err(rv) } else { Ok([i.slotDescription.as_slice(), &i.manufacturerID, &i.flags.to_ne_bytes()].concat()) }
}
fn tinfo(slot: H) -> String {
    match token_info(slot) {
        Err(e) => rvs(e),
        Ok(i) => format!(
            "{:?} {:?} flags {:#x} sessions {} {} rw {} {}",
            String::from_utf8_lossy(&i.label).trim_end(),
            String::from_utf8_lossy(&i.serialNumber),
            i.flags,
            i.ulSessionCount,
            i.ulMaxSessionCount,
            i.ulRwSessionCount,
            i.ulMaxRwSessionCount
        ),
    }
}
fn mechs(slot: H) -> Vec<CK_ULONG> {
    let mut n: CK_ULONG = 1000;
    let mut v = vec![0; 1000];
    let rv = c!(C_GetMechanismList, slot, v.as_mut_ptr(), &mut n);
    v.truncate(if rv == 0 { n as usize } else { 0 });
    v.sort();
    v
}
/// all that can be seen of a slot, without changing it
#[derive(PartialEq, Eq, Debug, Clone)]
struct Seen {
    slot: Result<Vec<u8>, Rv>,
    token: String,
    mechs: usize,
    sessions: Vec<Result<(CK_SLOT_ID, CK_ULONG, CK_ULONG), Rv>>,
    objects: Vec<(H, Result<Snap, Rv>)>,
}
fn see(slot: H, sess: &[H], probe: Option<H>) -> Seen {
    let objects = match probe {
        None => vec![],
        Some(p) => match find(p, &T::new()) {
            Ok(mut v) => {
                v.sort();
                v.into_iter().map(|h| (h, snap(p, h))).collect()
            }
            Err(e) => vec![(0, Err(e))],
        },
    };
    Seen { slot: slot_info(slot), token: tinfo(slot), mechs: mechs(slot).len(), sessions: sess.iter().map(|s| session_info(*s).map(|i| (i.slotID, i.state, i.flags))).collect(), objects }
}
fn diff(a: &Seen, b: &Seen) -> String {
    if a.slot != b.slot {
        return format!("slot information {:?} / {:?}", a.slot, b.slot);
    }
    if a.token != b.token {
        return format!("token information {} / {}", a.token, b.token);
    }
    if a.sessions != b.sessions {
        return format!("sessions {:?} / {:?}", a.sessions, b.sessions);
    }
    if a.mechs != b.mechs {
        return format!("mechanisms {} / {}", a.mechs, b.mechs);
    }
    let (x, y): (Vec<_>, Vec<_>) = (a.objects.iter().map(|o| o.0).collect(), b.objects.iter().map(|o| o.0).collect());
    if x != y {
        return format!("objects {:?} / {:?}", x, y);
    }
    for (p, q) in a.objects.iter().zip(&b.objects) {
        if p != q {
            return match (&p.1, &q.1) {
                (Ok(m), Ok(n)) => format!("object {}: {}", p.0, snapdiff(m, n)),
                (m, n) => format!("object {}: {:?} / {:?}", p.0, m.as_ref().err(), n.as_ref().err()),
            };
        }
    }
    "nothing".into()
}
/// a state of a slot
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    /// no session
    Idle,
    Public,
    User,
    So,
    /// logged in, every operation active
    Busy,
}
const STS: [St; 5] = [St::Idle, St::Public, St::User, St::So, St::Busy];
struct Slot {
    n: H,
    /// the sessions; the last one is for looking
    s: Vec<H>,
    k: Keys,
}
fn bring(n: H, st: St, db: Db) -> Slot {
    if st == St::Idle {
        return Slot { n, s: vec![], k: Keys::default() };
    }
    let s = okr(open(n, true), "open");
    let x = okr(open(n, true), "open");
    match st {
        St::User | St::Busy => ok(login(s, CKU_USER, UP), "login"),
        St::So if db == Db::Sqlite => ok(login(s, CKU_SO, SO), "so login"),
        _ => (),
    }
    let k = Keys::make(s);
    if st == St::Busy {
        ok(digest_init(s, &Mech::new(CKM_SHA256)), "digest");
        ok(digest_update(s, b"abc"), "digest");
        ok(sign_init(s, &Mech::new(CKM_SHA256_HMAC), k.gen_), "sign");
        ok(sign_update(s, b"abc"), "sign");
        ok(encrypt_init(s, &cbc_pad(), k.aes), "encrypt");
        ok(verify_init(s, &Mech::new(CKM_SHA256_HMAC), k.gen_), "verify");
        ok(decrypt_init(s, &cbc_pad(), k.aes), "decrypt");
        ok(find_init(s, &T::new().ul(CKA_CLASS, CKO_SECRET_KEY)), "find");
    }
    Slot { n, s: vec![s, x], k }
}
/// the operations of a busy slot end as they would have
fn finish(b: &Slot) -> Vec<String> {
    let s = b.s[0];
    let mut v = vec![];
    let o = digest_final(s, Some(64));
    v.push(format!("digest {} {}", rvs(o.rv), hex(&o.data)));
    let o = sign_final(s, Some(64));
    v.push(format!("sign {} {}", rvs(o.rv), hex(&o.data)));
    let o = encrypt(s, b"0123456789", Some(64));
    v.push(format!("encrypt {} {}", rvs(o.rv), hex(&o.data)));
    let ct = o.data;
    let o = decrypt(s, &ct, Some(64));
    v.push(format!("decrypt {} {}", rvs(o.rv), hex(&o.data)));
    v.push(format!("verify {}", rvs(verify(s, b"abc", &crate::refc::Ha::S256.hmac(b"x", b"abc")))));
    v.push(format!("find {:?}", find_next(s, 50).map(|f| f.len())));
    v.push(format!("end {}", rvs(find_final(s))));
    v
}
/// every call on slot 1, in every pair of states: slot 2 stays as it was
fn calls(w: &mut W, tm: &Tmpl, db: [Db; 2], sa: St, sb: St) {
    let n = {
        let mut v = session_calls(1, &Keys::default());
        v.extend(other_calls(1));
        v.len() + 12
    };
    let mut base: Option<(Slot, Slot, Seen)> = None;
    let mut want_end = vec![];
    for i in 0..=n {
        w.begin(&format!("{:?} {:?} {:?} call {}", db, sa, sb, i));
        let q = QUIET.replace(true);
        // a fresh pair when the last call may have changed slot 1 for good: always, where cheap
        if base.is_none() || sa != St::Idle {
            tm.fresh(&w.dir);
            let a = bring(1, sa, db[0]);
            let b = bring(2, sb, db[1]);
            let seen = see(2, &b.s, b.s.get(1).copied());
            base = Some((a, b, seen));
        }
        let (a, b, seen) = base.as_ref().unwrap();
        QUIET.set(q);
        let s = a.s.first().copied().unwrap_or(0);
        let mut v = session_calls(s, &a.k);
        v.extend(other_calls(1));
        let name;
        if i < v.len() {
            name = v[i].name.to_string();
            let rv = v[i].run();
            note(&format!("{} -> {}", name, rvs(rv)));
        } else {
            let j = i - v.len();
            name = [
                "C_CloseAllSessions, C_InitToken",
                "C_Login (wrong PINs)",
                "C_Login as SO, C_InitPIN",
                "C_SetPIN",
                "token key, then destroyed",
                "C_CloseSession of both",
                "C_CloseAllSessions",
                "sessions until the end",
                "objects of slot 2 by number",
                "C_Logout",
                "a key generated, used and closed",
                "the slots looked at",
                "nothing",
            ][j]
            .to_string();
            match j {
                0 => {
                    close_all(1);
                    init_token(1, SO, "again");
                }
                1 => {
                    let s = if s == 0 { open(1, false).unwrap_or(0) } else { s };
                    logout(s);
                    for _ in 0..11 {
                        login(s, CKU_USER, BAD);
                        login(s, CKU_SO, BAD);
                    }
                }
                2 => {
                    logout(s);
                    let t = if s == 0 { open(1, true).unwrap_or(0) } else { s };
                    login(t, CKU_SO, SO);
                    init_pin(t, "another-user-pin");
                }
                3 => {
                    set_pin(s, UP, "another-user-pin");
                    set_pin(s, SO, "another-so-pin");
                }
                4 => {
                    if let Ok(k) = create(s, &aeskey(true, true, "mine", &[3; 16])) {
                        set(s, k, &T::new().s(CKA_LABEL, "other"));
                        destroy(s, k);
                    }
                }
                5 => {
                    for s in &a.s {
                        close(*s);
                    }
                }
                6 => {
                    close_all(1);
                }
                7 => {
                    for _ in 0..20 {
                        let _ = open(1, false);
                    }
                    close_all(1);
                }
                8 => {
                    for (h, _) in &seen.objects {
                        destroy(s, *h);
                        set(s, *h, &T::new().s(CKA_LABEL, "mine now"));
                    }
                }
                9 => {
                    logout(s);
                }
                10 => {
                    if let Ok(k) = gen_key(s, &Mech::new(CKM_AES_KEY_GEN), &T::new().ul(CKA_VALUE_LEN, 16).b(CKA_TOKEN, false)) {
                        encrypt_init(s, &cbc_pad(), k);
                        encrypt(s, b"x", Some(32));
                        destroy(s, k);
                    }
                }
                11 => {
                    tinfo(1);
                    let _ = slot_info(1);
                    mechs(1);
                }
                _ => (),
            }
        }
        w.add(TRANS, 1);
        w.eval();
        w.distinct(&(db[0] as u8, db[1] as u8, sa as u8, sb as u8, i));
        let q = QUIET.replace(true);
        let now = see(2, &b.s, b.s.get(1).copied());
        QUIET.set(q);
        if now != *seen {
            w.viol(&format!("call:{:?}:{:?}:{:?}:{}", db, sa, sb, name), &format!("slot 1 {:?}, slot 2 {:?}: {} on slot 1 changes slot 2, before / after: {}", sa, sb, name, diff(seen, &now)));
            base = None;
            continue;
        }
        if sb == St::Busy {
            let q = QUIET.replace(true);
            let e = finish(b);
            QUIET.set(q);
            base = None;
            // the last round does nothing on slot 1: it says what is right
            want_end.push((name, e));
        }
    }
    if let Some((_, right)) = want_end.pop() {
        for (name, e) in want_end {
            for (x, y) in e.iter().zip(&right) {
                if x != y {
                    w.viol(&format!("end:{:?}:{:?}:{}", db, sa, name), &format!("slot 1 {:?}: {} on slot 1 changes an operation on slot 2: {} instead of {}", sa, name, x, y));
                }
            }
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Op {
    Open,
    OpenRo,
    User,
    So,
    Bad,
    Logout,
    Token,
    Session,
    Rename,
    Destroy,
    Digest,
    Search,
    Close,
    CloseAll,
    Pin,
    Init,
}
use Op::*;
const OPS: [Op; 16] = [Open, OpenRo, User, So, Bad, Logout, Token, Session, Rename, Destroy, Digest, Search, Close, CloseAll, Pin, Init];
#[derive(Default)]
struct Half {
    s: Vec<H>,
    n: usize,
    dig: bool,
}
fn do_op(slot: H, h: &mut Half, op: Op) -> String {
    let s = h.s.last().copied().unwrap_or(0);
    let out = match op {
        Open | OpenRo => match open(slot, op == Open) {
            Ok(x) => {
                h.s.push(x);
                "ok".into()
            }
            Err(e) => rvs(e),
        },
        User => rvs(login(s, CKU_USER, UP)),
        So => rvs(login(s, CKU_SO, SO)),
        Bad => rvs(login(s, CKU_USER, BAD)),
        Logout => rvs(logout(s)),
        Token | Session => {
            h.n += 1;
            rvr_s(create(s, &aeskey(op == Token, op == Token, &format!("k{}", h.n), &[h.n as u8; 16])))
        }
        Rename | Destroy => match find(s, &T::new().ul(CKA_CLASS, CKO_SECRET_KEY)) {
            Ok(mut v) if !v.is_empty() => {
                v.sort();
                rvs(if op == Rename { set(s, v[0], &T::new().s(CKA_LABEL, "renamed")) } else { destroy(s, v[0]) })
            }
            r => format!("{:?}", r),
        },
        Digest => {
            if !h.dig {
                let r = digest_init(s, &Mech::new(CKM_SHA256));
                h.dig = r == 0;
                rvs(r)
            } else {
                h.dig = false;
                let o = digest(s, b"abc", Some(64));
                format!("{} {}", rvs(o.rv), hex(&o.data))
            }
        }
        Search => match find_init(s, &T::new()) {
            0 => {
                let v = find_next(s, 1).map(|v| v.len());
                format!("{:?} {}", v, rvs(find_final(s)))
            }
            e => rvs(e),
        },
        Close => {
            h.s.pop();
            h.dig = false;
            rvs(close(s))
        }
        CloseAll => {
            h.s.clear();
            h.dig = false;
            rvs(close_all(slot))
        }
        Pin => rvs(set_pin(s, UP, UP)),
        Init => rvs(init_token(slot, SO, "tok")),
    };
    format!("{:?}: {} {}", op, out, shape(slot, h))
}
fn rvr_s(r: R<H>) -> String {
    match r {
        Ok(_) => "ok".into(),
        Err(e) => rvs(e),
    }
}
/// what is seen of the slot now, without handles
fn shape(slot: H, h: &Half) -> String {
    let mut s = tinfo(slot);
    // the serial number changes with each initialisation
    if let Ok(i) = token_info(slot) {
        s = s.replace(&*String::from_utf8_lossy(&i.serialNumber), "");
    }
    for x in &h.s {
        s.push_str(&match session_info(*x) {
            Ok(i) => format!(" [{} {}]", if i.slotID == slot { "own" } else { "OTHER" }, i.state),
            Err(e) => format!(" [{}]", rvs(e)),
        });
    }
    if let Some(x) = h.s.first() {
        let mut v: Vec<String> = match find(*x, &T::new().ul(CKA_CLASS, CKO_SECRET_KEY)) {
            Ok(v) => v.iter().map(|o| format!("{:?}", get(*x, *o, CKA_LABEL).map(|l| String::from_utf8_lossy(&l).to_string()))).collect(),
            Err(e) => vec![rvs(e)],
        };
        v.sort();
        s.push_str(&v.join(","));
    }
    s
}
/// the prefix both slots start with
const PRE: [&[Op]; 3] = [&[], &[Open, User, Token, Session], &[Open, OpenRo]];
fn play(tm: &Tmpl, dir: &Path, pre: usize, both: bool, seq: &[(usize, Op)]) -> [Vec<String>; 2] {
    tm.fresh(dir);
    let mut h = [Half::default(), Half::default()];
    let mut out = [vec![], vec![]];
    for op in PRE[pre] {
        for i in 0..2 {
            if both || seq.iter().any(|x| x.0 == i) {
                do_op(i as H + 1, &mut h[i], *op);
            }
        }
    }
    for (i, op) in seq {
        out[*i].push(do_op(*i as H + 1, &mut h[*i], *op));
    }
    for i in 0..2 {
        out[i].push(format!("at the end: {}", shape(i as H + 1, &h[i])));
    }
    out
}
fn histories(w: &mut W, tm: &Tmpl, db: [Db; 2], pre: usize, first: usize, depth: usize, ops: &[Op]) {
    let n = 2 * ops.len();
    let mut alone: HashMap<(usize, Vec<Op>), Vec<String>> = HashMap::new();
    for code in 0..n.pow(depth as u32 - 1) {
        let at = |x: usize| (x / ops.len(), ops[x % ops.len()]);
        let mut seq = vec![at(first)];
        let mut c = code;
        for _ in 1..depth {
            seq.push(at(c % n));
            c /= n;
        }
        if PRE[pre].is_empty() && (seq.iter().all(|x| x.0 == 0) || seq.iter().all(|x| x.0 == 1)) {
            continue;
        }
        let q = QUIET.replace(true);
        for i in 0..2 {
            let mine: Vec<(usize, Op)> = seq.iter().copied().filter(|x| x.0 == i).collect();
            if mine.is_empty() {
                continue;
            }
            let key = (i, mine.iter().map(|x| x.1).collect::<Vec<_>>());
            if !alone.contains_key(&key) {
                let r = play(tm, &w.dir, pre, false, &mine);
                alone.insert(key, r[i].clone());
            }
        }
        QUIET.set(q);
        w.add(TRANS, 2 * depth as u64);
        w.distinct(&(db[0] as u8, db[1] as u8, pre, &seq));
        let dir = w.dir.clone();
        case(
            w,
            "history",
            || format!("{:?} {:?} {:?}", db, PRE[pre], seq),
            || {
                let r = play(tm, &dir, pre, true, &seq);
                for i in 0..2 {
                    let mine: Vec<Op> = seq.iter().filter(|x| x.0 == i).map(|x| x.1).collect();
                    if mine.is_empty() {
                        continue;
                    }
                    let want = &alone[&(i, mine)];
                    for (a, b) in r[i].iter().zip(want) {
                        if a != b {
                            return Err(format!("slot {}: {} when alone: {}", i + 1, a, b));
                        }
                    }
                }
                Ok(())
            },
        );
    }
}
pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    let th = o.tier.thorough();
    let pairs = [[Db::Sqlite, Db::Sqlite], [Db::Sqlite, Db::Nss], [Db::Nss, Db::Sqlite], [Db::Nss, Db::Nss]];
    let tms: Vec<Tmpl> = pairs
        .iter()
        .map(|p| {
            Tmpl::make(sc, &format!("two-{}-{}", p[0].name(), p[1].name()), &[(1, p[0]), (2, p[1])], || {
                for i in 0..2 {
                    std_init(i as H + 1, true);
                    let s = user_session(i as H + 1);
                    for k in [Kind::Aes, Kind::RsaPriv, Kind::Cert] {
                        okr(create(s, &k.tmpl(true, true).set(CKA_LABEL, format!("of slot {}", i + 1).as_bytes())), "create");
                    }
                    ok(logout(s), "logout");
                    ok(close(s), "close");
                }
            })
        })
        .collect();
    let t = &tms;
    let ns = STS.len();
    // the fast pair in full; PBKDF2 makes the NSS ones slow
    const FEW: [Op; 10] = [Open, User, Bad, Logout, Token, Destroy, Digest, Close, CloseAll, Init];
    let depth = if th { 4 } else { 3 };
    let n = 2 * OPS.len();
    let f = 2 * FEW.len();
    let stages = vec![
        Stage::new("calls", 4 * ns * ns, move |w: &mut W, i| {
            let (p, a, b) = (i / (ns * ns), STS[i / ns % ns], STS[i % ns]);
            // logging in to an NSS token takes its time
            let (sa, sb) = (a, b);
            let few = match p {
                0 => true,
                1 => matches!(sa, St::User | St::So) && sb == St::Busy,
                2 => matches!(sa, St::Idle | St::User) && sb == St::Busy,
                _ => sa == St::User && sb == St::User,
            };
            if !th && !few {
                return;
            }
            calls(w, &t[p], pairs[p], a, b)
        }),
        Stage::new("histories", 3 * n, move |w: &mut W, i| {
            // in quick runs the full list of calls only from the start
            let ops: &[Op] = if th || i / n == 0 { &OPS } else { &FEW };
            if i % n < 2 * ops.len() {
                histories(w, &t[0], pairs[0], i / n, i % n, if i / n == 1 { 3 } else { depth }, ops)
            }
        }),
        Stage::new("histories with NSS", 3 * f, move |w: &mut W, i| {
            let p = 1 + i / f;
            histories(w, &t[p], pairs[p], if p == 1 { 0 } else { 2 }, i % f, if th { 3 } else { 2 }, &FEW)
        }),
    ];
    crate::engine::run(
        Check {
            prop: "P24",
            level: "exploration",
            rule: "exhaustive enumeration on the real library with two slots (every pairing of the back ends): every call of the interface and a dozen larger actions (initialisation, lock-out by wrong PINs, PIN changes, closing everything, objects of the other slot by number) on one slot in each of five states, with the other slot in each of five states; everything visible of the other slot (slot, token, sessions, every object and attribute) compared before and after, and its active digests, signatures, ciphers, verifications and searches carried to their end; every history, to the stated depth, interleaving calls on the two slots, each slot's results compared with those of its calls alone",
            assumptions: vec!["no time-dependent token information".into()],
            extra: vec![],
        },
        sc,
        o,
        stages,
    )
}
