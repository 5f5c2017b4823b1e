//! P25: an OTP counter only moves forward and no code is accepted twice.
use crate::api::*;
use crate::engine::*;
use crate::env::*;
use crate::keys::*;
use crate::p13::case;
use crate::refc::Ha;
use crate::vfs;
use kryoptic_lib::pkcs11::*;

/// RFC 4226
fn code(key: &[u8], c: u64, digits: usize) -> Vec<u8> {
    let h = match key.len() {
        20 => Ha::S1,
        32 => Ha::S256,
        _ => Ha::S512,
    };
    let m = h.hmac(key, &c.to_be_bytes());
    let o = (m[m.len() - 1] & 15) as usize;
    let v = u32::from_be_bytes(m[o..o + 4].try_into().unwrap()) & 0x7fff_ffff;
    format!("{:0w$}", v % 10u32.pow(digits as u32), w = digits).into_bytes()
}
const RFC: &[u8] = b"12345678901234567890";
fn counter(s: H, k: H) -> Result<u64, String> {
    match get(s, k, CKA_OTP_COUNTER) {
        Ok(v) if v.len() == 8 => Ok(u64::from_be_bytes(v.try_into().unwrap())),
        r => Err(format!("CKA_OTP_COUNTER: {:?}", r.map_err(rvs))),
    }
}
/// the code at the end of the structure C_Sign returns
fn out_code(o: &Out, digits: usize) -> Vec<u8> {
    o.data[o.data.len().saturating_sub(digits)..].to_vec()
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    SignInit(u8),
    Sign(u8),
    SignFinal(u8),
    /// size query, then a buffer that is too small
    Query(u8),
    VerifyInit(u8),
    /// the code this far from the counter
    Verify(u8, i64),
    VerifyFinal(u8, i64),
    Garbage(u8),
    Short(u8),
    Restart,
}
use Op::*;
const D: usize = 8;
/// operations that are possible where they stand (others belong to P09)
fn menu(sg: &[bool; 2], vf: &[bool; 2], token: bool, th: bool) -> Vec<Op> {
    let mut v = vec![];
    for i in 0..2u8 {
        let j = i as usize;
        if sg[j] {
            v.push(Sign(i));
            if i == 0 || th {
                v.push(SignFinal(i));
                v.push(Query(i));
            }
        } else {
            v.push(SignInit(i));
        }
        if vf[j] {
            v.extend([Verify(i, -1), Verify(i, 0)]);
            if i == 0 || th {
                v.extend([Verify(i, 3), VerifyFinal(i, 0), Garbage(i)]);
            }
            if th {
                v.extend([Verify(i, -2), Verify(i, 1), Verify(i, 4), Verify(i, 5), VerifyFinal(i, -1), Short(i)]);
            }
        } else {
            v.push(VerifyInit(i));
        }
    }
    if token {
        v.push(Restart);
    }
    v
}
struct Run {
    s: [H; 2],
    k: H,
    c: u64,
    /// counter at the start of the operation
    sg: [Option<u64>; 2],
    vf: [Option<u64>; 2],
}
const MAX: u64 = u64::MAX;
fn exec(dir: &std::path::Path, r: &mut Run, op: Op) -> Result<(), String> {
    let hotp = Mech::new(CKM_HOTP);
    let at = |c: u64, off: i64| if off < 0 { c.checked_sub(-off as u64) } else { c.checked_add(off as u64) };
    match op {
        SignInit(i) => {
            let i = i as usize;
            let rv = sign_init(r.s[i], &hotp, r.k);
            if rv != 0 {
                return Err(format!("C_SignInit: {}", rvs(rv)));
            }
            r.sg[i] = Some(r.c);
        }
        VerifyInit(i) => {
            let i = i as usize;
            let rv = verify_init(r.s[i], &hotp, r.k);
            if rv != 0 {
                return Err(format!("C_VerifyInit: {}", rvs(rv)));
            }
            r.vf[i] = Some(r.c);
        }
        Query(i) => {
            let s = r.s[i as usize];
            for cap in [None, Some(10)] {
                let o = sign(s, b"", cap);
                let want = if cap.is_none() { 0 } else { CKR_BUFFER_TOO_SMALL };
                if o.rv != want {
                    return Err(format!("C_Sign with {:?} bytes: {}", cap, rvs(o.rv)));
                }
            }
        }
        Sign(i) | SignFinal(i) => {
            let i = i as usize;
            let from = r.sg[i].take().unwrap();
            let o = if matches!(op, Sign(_)) { sign(r.s[i], b"", Some(100)) } else { sign_final(r.s[i], Some(100)) };
            if o.rv == 0 {
                let got = out_code(&o, D);
                if r.c == MAX {
                    return Err("a code for the last counter, which has no next".into());
                }
                if got != code(RFC, r.c, D) {
                    let which = (0..20).find(|n| got == code(RFC, r.c.wrapping_sub(10).wrapping_add(*n), D));
                    return Err(match which {
                        Some(n) => format!("the counter is {}, the code is the one for {}", r.c, r.c as i128 - 10 + n as i128),
                        None => format!("the counter is {}, the code {:?} is of none near it", r.c, String::from_utf8_lossy(&got)),
                    });
                }
                r.c += 1;
            } else {
                // refused: only since another operation came between, or no counter is left
                if from == r.c && r.c != MAX {
                    return Err(format!("C_Sign: {}", rvs(o.rv)));
                }
                session_cancel(r.s[i], CKF_SIGN);
            }
        }
        Verify(..) | VerifyFinal(..) | Garbage(_) | Short(_) => {
            let (i, off) = match op {
                Verify(i, o) | VerifyFinal(i, o) => (i as usize, Some(o)),
                Garbage(i) | Short(i) => (i as usize, None),
                _ => unreachable!(),
            };
            let from = r.vf[i].take().unwrap();
            let sig = match off {
                Some(o) => match at(r.c, o) {
                    Some(x) => code(RFC, x, D),
                    None => b"00000000".to_vec(),
                },
                None if matches!(op, Short(_)) => code(RFC, r.c, D)[1..].to_vec(),
                None => b"99999999".to_vec(),
            };
            let rv = if matches!(op, VerifyFinal(..)) { verify_final(r.s[i], &sig) } else { verify(r.s[i], b"", &sig) };
            let off = off.filter(|o| at(r.c, *o).is_some());
            if rv == 0 {
                match off {
                    Some(o) if o >= 0 => {
                        let x = at(r.c, o).unwrap();
                        if x == MAX {
                            return Err("a code for the last counter, which has no next".into());
                        }
                        r.c = x + 1;
                    }
                    Some(o) => return Err(format!("the counter is {}, the code for {} was accepted", r.c, r.c as i128 + o as i128)),
                    None => return Err(format!("the counter is {}, {:?} was accepted", r.c, String::from_utf8_lossy(&sig))),
                }
            } else {
                if off == Some(0) && from == r.c && r.c != MAX {
                    return Err(format!("the code for the counter is refused: {}", rvs(rv)));
                }
                if from == r.c && rv != CKR_SIGNATURE_INVALID && !matches!(op, Short(_)) && off.and_then(|o| at(r.c, o)) != Some(MAX) {
                    return Err(format!("C_Verify: {}", rvs(rv)));
                }
                session_cancel(r.s[i], CKF_VERIFY);
            }
        }
        Restart => {
            let rv = restart(dir);
            if rv != 0 {
                return Err(format!("restart: {}", rvs(rv)));
            }
            r.s = [user_session(1), okr(open(1, true), "open")];
            r.k = okr(find(r.s[0], &T::new().ul(CKA_CLASS, CKO_OTP_KEY).b(CKA_TOKEN, true).s(CKA_LABEL, "h")), "find").first().copied().unwrap_or(0);
            r.sg = [None; 2];
            r.vf = [None; 2];
        }
    }
    let c = counter(r.s[0], r.k)?;
    if c != r.c {
        return Err(format!("the counter is {}, expected {}", c, r.c));
    }
    Ok(())
}
fn menu_of(r: &Run, token: bool, th: bool) -> Vec<Op> {
    menu(&[r.sg[0].is_some(), r.sg[1].is_some()], &[r.vf[0].is_some(), r.vf[1].is_some()], token, th)
}
/// every history of operations on one key in two sessions
fn history(w: &mut W, tm: &Tmpl, token: bool, start: u64, first: usize, depth: usize, th: bool) {
    let q = QUIET.replace(true);
    tm.fresh(&w.dir);
    let mut s = [user_session(1), okr(open(1, true), "open")];
    QUIET.set(q);
    // depth-first over the choices; a history is executed from a new key
    let mut path = vec![first];
    let dir = w.dir.clone();
    loop {
        w.eval();
        let q = QUIET.replace(true);
        let mut names = vec![];
        let mut widths = vec![];
        let run = |path: &[usize], s: &mut [H; 2], names: &mut Vec<String>, widths: &mut Vec<usize>| -> Result<(), String> {
            let t = hotp_key(token, true, start, D as CK_ULONG).set(CKA_LABEL, b"h");
            let k = create(s[0], &t).map_err(|r| format!("C_CreateObject: {}", rvs(r)))?;
            let mut r = Run { s: *s, k, c: start, sg: [None; 2], vf: [None; 2] };
            let mut res = Ok(());
            for p in 0..depth {
                let m = menu_of(&r, token, th);
                let i = path.get(p).copied().unwrap_or(0);
                if i >= m.len() {
                    break;
                }
                names.push(format!("{:?}", m[i]));
                widths.push(m.len());
                res = exec(&dir, &mut r, m[i]);
                if res.is_err() {
                    break;
                }
            }
            *s = r.s;
            for x in *s {
                session_cancel(x, CKF_SIGN | CKF_VERIFY);
            }
            let rv = destroy(s[0], r.k);
            if rv != 0 && res.is_ok() {
                res = Err(format!("C_DestroyObject: {}", rvs(rv)));
            }
            res
        };
        let res = run(&path, &mut s, &mut names, &mut widths);
        QUIET.set(q);
        w.add(TRANS, names.len() as u64);
        w.distinct(&(token, start, &names));
        if widths.is_empty() {
            return;
        }
        if res.is_err() {
            let name = format!("{} key, counter {}: {}", if token { "token" } else { "session" }, start, names.join(" "));
            w.begin(&name);
            let (mut n2, mut w2) = (vec![], vec![]);
            if let Err(e) = run(&path, &mut s, &mut n2, &mut w2) {
                w.viol(&format!("history:{}", name), &format!("{}: {}", name, e));
            }
            QUIET.replace(true);
            tm.fresh(&w.dir);
            s = [user_session(1), okr(open(1, true), "open")];
            QUIET.set(q);
        }
        // next history: where this one ended, the last choice that has another
        path.resize(widths.len(), 0);
        loop {
            if path.len() <= 1 {
                return;
            }
            let l = path.len() - 1;
            path[l] += 1;
            if path[l] < widths[l] {
                break;
            }
            path.pop();
        }
    }
}
/// codes and counters of many keys
fn values(w: &mut W, tm: &Tmpl, part: usize, parts: usize, th: bool) {
    let q = QUIET.replace(true);
    tm.fresh(&w.dir);
    let s = user_session(1);
    QUIET.set(q);
    let mut cs: Vec<u64> = (0..if th { 3000 } else { 400 }).collect();
    for k in 1..64 {
        for d in [-2i64, -1, 0, 1] {
            cs.push((1u64 << k).wrapping_add(d as u64));
        }
    }
    cs.extend([u64::MAX - 6, u64::MAX - 5, u64::MAX - 4, u64::MAX - 3, u64::MAX - 2, u64::MAX - 1, u64::MAX]);
    cs.sort();
    cs.dedup();
    let hotp = Mech::new(CKM_HOTP);
    for (ci, c) in cs.into_iter().enumerate() {
        if ci % parts != part {
            continue;
        }
        for kl in [20usize, 32, 64] {
            for digits in 6..=8usize {
                let key: Vec<u8> = RFC.iter().copied().cycle().take(kl).collect();
                let t = hotp_key(false, true, c, digits as CK_ULONG).set(CKA_VALUE, &key);
                w.distinct(&(c, kl, digits));
                w.add(TRANS, 8);
                let name = format!("counter {}, key of {} bytes, {} digits", c, kl, digits);
                case(
                    w,
                    "values",
                    || name.clone(),
                    || {
                        let k = create(s, &t).map_err(|r| format!("C_CreateObject: {}", rvs(r)))?;
                        let mut c = c;
                        let r = (|| {
                            // generate, then offer that code, then the next, then that again
                            let rv = sign_init(s, &hotp, k);
                            let o = sign(s, b"", Some(100));
                            session_cancel(s, CKF_SIGN);
                            if rv == 0 && o.rv == 0 {
                                let got = out_code(&o, digits);
                                if got != code(&key, c, digits) {
                                    return Err(format!("the code is {:?}, not {:?}", String::from_utf8_lossy(&got), String::from_utf8_lossy(&code(&key, c, digits))));
                                }
                                if c == MAX {
                                    return Err("a code for the last counter, which has no next".into());
                                }
                                c += 1;
                            } else if c != MAX {
                                return Err(format!("C_SignInit, C_Sign: {}, {}", rvs(rv), rvs(o.rv)));
                            }
                            if counter(s, k)? != c {
                                return Err(format!("the counter is {} after C_Sign, expected {}", counter(s, k)?, c));
                            }
                            for off in [-1i64, 0, -1, 2, -1, -2, -3, 6, 1000] {
                                if off < 0 && c < -off as u64 {
                                    continue;
                                }
                                let Some(x) = c.checked_add_signed(off) else { continue };
                                let v = code(&key, x, digits);
                                // not one of the codes ahead by coincidence
                                let near = (0..5).any(|i| c.checked_add(i).is_some_and(|y| y != x && code(&key, y, digits) == v));
                                if near {
                                    continue;
                                }
                                let rv = verify_init(s, &hotp, k);
                                if rv != 0 && c != MAX {
                                    return Err(format!("C_VerifyInit: {}", rvs(rv)));
                                }
                                let rv = verify(s, b"", &v);
                                session_cancel(s, CKF_VERIFY);
                                if rv == 0 && (off < 0 || off > 100 || x == MAX) {
                                    return Err(format!("the counter is {}, the code for {} was accepted", c, x));
                                }
                                if rv != 0 && off == 0 && x != MAX {
                                    return Err(format!("the code for the counter {} is refused: {}", c, rvs(rv)));
                                }
                                if rv == 0 {
                                    c = x + 1;
                                }
                                if counter(s, k)? != c {
                                    return Err(format!("the counter is {} after C_Verify of the code for {}, expected {}", counter(s, k)?, x, c));
                                }
                            }
                            Ok(())
                        })();
                        destroy(s, k);
                        r
                    },
                );
            }
        }
    }
}
/// keys that need not be changeable, and callers who are not logged in: no code without progress
fn rights(w: &mut W, tm: &Tmpl, item: usize) {
    let (token, private, modifiable, ro) = (item & 1 == 1, item & 2 == 2, item & 4 == 4, item & 8 == 8);
    let name = format!("{} {} key, modifiable {}, {} session", if token { "token" } else { "session" }, if private { "private" } else { "public" }, modifiable, if ro { "read-only" } else { "read-write" });
    for login in [true, false] {
        for made in [false, true] {
            let dir = w.dir.clone();
            case(
                w,
                "rights",
                || format!("{}, logged in {}, generated {}", name, login, made),
                || {
                    tm.fresh(&dir);
                    let s = user_session(1);
                    let u = okr(open(1, !ro), "open");
                    let t = hotp_key(token, private, 3, D as CK_ULONG).b(CKA_MODIFIABLE, modifiable).set(CKA_LABEL, b"h");
                    let k = if made {
                        gen_key(s, &Mech::new(CKM_HOTP_KEY_GEN), &t.without(CKA_VALUE).without(CKA_KEY_TYPE).setb(CKA_SENSITIVE, false).setb(CKA_EXTRACTABLE, true))
                    } else {
                        create(s, &t)
                    }
                    .map_err(|r| format!("the key: {}", rvs(r)))?;
                    let mut key = RFC.to_vec();
                    if made {
                        key = get(s, k, CKA_VALUE).map_err(|r| format!("CKA_VALUE: {}", rvs(r)))?;
                    }
                    if !login {
                        ok(logout(s), "logout");
                    }
                    let mut c = 3u64;
                    let hotp = Mech::new(CKM_HOTP);
                    for step in 0..6 {
                        let mut fine = 0;
                        if step % 2 == 0 {
                            let rv = sign_init(u, &hotp, k);
                            let o = sign(u, b"", Some(100));
                            session_cancel(u, CKF_SIGN);
                            if rv == 0 && o.rv == 0 {
                                if out_code(&o, D) != code(&key, c, D) {
                                    return Err(format!("step {}: not the code for counter {}", step, c));
                                }
                                c += 1;
                                fine = 1;
                            }
                        } else {
                            for (off, acc) in [(-1i64, false), (0, true), (-1, false)] {
                                let x = c.checked_add_signed(off).unwrap();
                                verify_init(u, &hotp, k);
                                let rv = verify(u, b"", &code(&key, x, D));
                                session_cancel(u, CKF_VERIFY);
                                if rv == 0 && !acc {
                                    return Err(format!("step {}: the counter is {}, the code for {} was accepted", step, c, x));
                                }
                                if rv == 0 {
                                    c += 1;
                                    fine = 1;
                                }
                            }
                        }
                        // the plain case has to work
                        if login && modifiable && !ro && fine == 0 {
                            return Err(format!("step {}: nothing was generated or accepted", step));
                        }
                        if let Ok(x) = counter(u, k) {
                            if x != c {
                                return Err(format!("step {}: the counter is {}, expected {}", step, x, c));
                            }
                        }
                    }
                    let _ = finalize();
                    Ok(())
                },
            );
            w.add(TRANS, 12);
        }
    }
    w.distinct(&item);
}
/// crashes and failing storage while a counter moves
fn storage(w: &mut W, tm: &Tmpl, item: usize, th: bool) {
    let verifies = item & 1 == 1;
    let fresh = |dir: &std::path::Path| -> Result<(H, H), String> {
        let rv = initialize(&init_args(dir));
        if rv != 0 {
            return Err(format!("C_Initialize: {}", rvs(rv)));
        }
        let s = user_session(1);
        let k = find(s, &T::new().ul(CKA_CLASS, CKO_OTP_KEY)).map_err(|r| format!("C_FindObjects: {}", rvs(r)))?.first().copied().ok_or("the key is gone")?;
        Ok((s, k))
    };
    let off = if item & 2 == 2 { 3 } else { 0 };
    // a call that takes a code: result, what it says and the counter there would be
    let go = |s: H, k: H, c: u64| -> Rv {
        let hotp = Mech::new(CKM_HOTP);
        if verifies {
            verify_init(s, &hotp, k);
            verify(s, b"", &code(RFC, c + off, D))
        } else {
            sign_init(s, &hotp, k);
            sign(s, b"", Some(100)).rv
        }
    };
    let to = |c: u64| if verifies { c + off + 1 } else { c + 1 };
    let q = QUIET.replace(true);
    let _ = finalize();
    tm.restore(&w.dir);
    let base = vfs::image(&w.dir);
    let log = {
        let (s, k) = fresh(&w.dir).expect("the key");
        vfs::begin(None);
        let rv = go(s, k, 5);
        let log = vfs::end();
        ok(rv, "the undisturbed call");
        let _ = finalize();
        log
    };
    QUIET.set(q);
    let dir = w.dir.clone();
    let label = format!("storage {}", item);
    // a crash after each operation, in the middle of each write
    for n in 0..=log.ops.len() {
        for half in [false, true] {
            let mut m = base.clone();
            for op in &log.ops[..n] {
                vfs::apply(&mut m, op);
            }
            if half {
                match log.ops.get(n) {
                    Some(vfs::FsOp::Write(f, o, d)) if d.len() > 1 => vfs::apply(&mut m, &vfs::FsOp::Write(f.clone(), *o, d[..d.len() / 2].to_vec())),
                    _ => continue,
                }
            }
            w.distinct(&(item, n, half));
            w.add(TRANS, 4);
            case(
                w,
                &label,
                || format!("crash after {} file operations{}", n, if half { " and half a write" } else { "" }),
                || {
                    let _ = finalize();
                    vfs::materialise(&dir, &m);
                    let (s, k) = fresh(&dir)?;
                    let c = counter(s, k)?;
                    if c != to(5) && (c != 5 || n == log.ops.len()) {
                        return Err(format!("the counter is {}", c));
                    }
                    let rv = go(s, k, c);
                    if rv != 0 {
                        return Err(format!("the next call: {}", rvs(rv)));
                    }
                    let x = counter(s, k)?;
                    if x != to(c) {
                        return Err(format!("the next call moves the counter from {} to {}", c, x));
                    }
                    Ok(())
                },
            );
        }
    }
    // each operation fails, in each way
    for n in 0..log.calls.len() {
        for mode in vfs::MODES {
            if !th && mode == vfs::Mode::Kind {
                continue;
            }
            w.distinct(&(item, n, mode));
            w.add(TRANS, 6);
            case(
                w,
                &label,
                || format!("{:?} from operation {} ({:?})", mode, n, log.calls[n]),
                || {
                    let _ = finalize();
                    vfs::materialise(&dir, &base);
                    let (s, k) = fresh(&dir)?;
                    vfs::begin(Some((n, mode)));
                    let rv = go(s, k, 5);
                    vfs::end();
                    let hotp = Mech::new(CKM_HOTP);
                    session_cancel(s, CKF_SIGN | CKF_VERIFY);
                    let live = counter(s, k).ok();
                    if rv == 0 && live.is_some_and(|c| c != to(5)) {
                        return Err(format!("success, and the counter is {:?}", live));
                    }
                    // what was used successfully is not used again, now or after a restart
                    for after in [false, true] {
                        let (s, k) = if after {
                            let _ = finalize();
                            fresh(&dir)?
                        } else {
                            (s, k)
                        };
                        let c = counter(s, k)?;
                        if c != 5 && c != to(5) || (rv == 0 && c != to(5)) || live.is_some_and(|l| l != c) {
                            return Err(format!("the call said {}, the counter was {:?}, {} {}", rvs(rv), live, if after { "after a restart" } else { "now" }, c));
                        }
                        if rv == 0 {
                            verify_init(s, &hotp, k);
                            let v = verify(s, b"", &code(RFC, c - 1, D));
                            session_cancel(s, CKF_VERIFY);
                            if v == 0 {
                                return Err("a used code is accepted".into());
                            }
                        }
                    }
                    let _ = finalize();
                    Ok(())
                },
            );
        }
    }
}
pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    vfs::install();
    let th = o.tier.thorough();
    let tm = Tmpl::std(sc, Db::Sqlite);
    let nss = Tmpl::std(sc, Db::Nss);
    let key = Tmpl::std_with(sc, "otp", Db::Sqlite, || {
        let s = user_session(1);
        okr(create(s, &hotp_key(true, true, 5, D as CK_ULONG)), "key");
        ok(logout(s), "logout");
    });
    let (t, n, k) = (&tm, &nss, &key);
    let starts = [7u64, 0, MAX - 4, MAX - 1];
    let parts = 16;
    let (ds, dt) = if th { (7, 5) } else { (6, 4) };
    let stages = vec![
        Stage::new("session keys", starts.len() * 5, move |w: &mut W, i| {
            let st = i % starts.len();
            history(w, if st == 1 { n } else { t }, false, starts[st], i / starts.len(), if st == 0 { ds } else { ds - 1 }, false)
        }),
        Stage::new("token keys", 6 * 2, move |w: &mut W, i| history(w, t, true, [7, MAX - 3][i % 2], i / 2, if i % 2 == 0 { dt + 1 } else { dt }, false)),
        Stage::new("all operations", 6 * 2, move |w: &mut W, i| history(w, t, i % 2 == 1, 7, i / 2, if i % 2 == 1 { dt } else { ds - 1 }, true)),
        Stage::new("values", parts, move |w: &mut W, i| values(w, t, i, parts, th)),
        Stage::new("rights", 16, move |w: &mut W, i| rights(w, t, i)),
        Stage::new("storage", 4, move |w: &mut W, i| storage(w, k, i, th)),
    ];
    crate::engine::run(
        Check {
            prop: "P25",
            level: "exploration",
            rule: "exhaustive enumeration on the real library: every history, to the stated depth, of generating and verifying (the current code, codes ahead, used codes, wrong codes, single-part and multi-part, size queries) in two sessions with one key, interleaved with restarts, from several counters up to the last, for token and session keys; every code and the counter after every step compared with an own implementation of RFC 4226 and a model that only knows the counter; the codes of many counters, key lengths and digits; keys that cannot be changed and users not logged in; every crash point of a call that moves the counter, every file operation of it failing",
            assumptions: vec![
                "an operation may be refused when another one moved the counter between its start and its end".into(),
                "keys whose CKA_OTP_COUNTER_REQUIREMENT lets the caller choose the counter are outside the property; copies of a key are keys of their own".into(),
            ],
            extra: vec![],
        },
        sc,
        o,
        stages,
    )
}
