//! P28: output buffers are never overrun and a queried size always suffices.
use crate::api::*;
use crate::c;
use crate::cry::*;
use crate::engine::*;
use crate::env::*;
use crate::keys::*;
use crate::mesg::*;
use crate::p13::{case, msg};
use crate::p14::{e, eq, z};
use crate::p19::{TGS, Tg, WMS};
use kryoptic_lib::pkcs11::*;
use std::collections::BTreeSet;

type Res<X> = Result<X, String>;
/// a call that produces output
struct Prod<'a> {
    /// bring the session to where the call is made
    setup: Box<dyn Fn() -> Res<()> + 'a>,
    call: Box<dyn Fn(Option<usize>) -> Out + 'a>,
    /// what follows; more output to be compared
    rest: Box<dyn Fn() -> Res<Vec<u8>> + 'a>,
    /// end whatever is active
    clean: Box<dyn Fn() + 'a>,
    /// is the second output as good as the first (the reference)?
    same: Option<Box<dyn Fn(&[u8]) -> Res<()> + 'a>>,
}
const AMPLE: usize = 4096;
fn drive(w: &mut W, label: &str, name: &str, p: &Prod) {
    let q = QUIET.replace(true);
    let r = (|| -> Res<(Out, Vec<u8>)> {
        (p.setup)()?;
        let o = (p.call)(Some(AMPLE));
        if o.rv != 0 {
            return Err(rvs(o.rv));
        }
        let r = (p.rest)()?;
        Ok((o, r))
    })();
    (p.clean)();
    QUIET.set(q);
    let Ok((o, rest)) = r else {
        return;
    };
    let want = o.data;
    let need = want.len();
    let mut query = 0;
    let good = |o: &Out, how: &str| -> Res<()> {
        if o.rv != 0 {
            return Err(format!("{}: {}", how, rvs(o.rv)));
        }
        if o.overrun {
            return Err(format!("{}: reports {} bytes", how, o.len));
        }
        match &p.same {
            Some(f) => f(&o.data).map_err(|x| format!("{}: {}", how, x)),
            None => eq(&o.data, &want, how),
        }
    };
    let fin = |how: &str| -> Res<()> {
        let r = (p.rest)().map_err(|x| format!("{}: {}", how, x))?;
        if p.same.is_none() { eq(&r, &rest, &format!("{}: what follows", how)) } else { Ok(()) }
    };
    let r = case(
        w,
        label,
        || format!("{}, size query", name),
        || {
            let r = (|| {
                (p.setup)()?;
                let a = (p.call)(None);
                if a.rv != 0 {
                    return Err(e("the query", a.rv));
                }
                let b = (p.call)(None);
                if b.rv != 0 || b.len != a.len {
                    return Err(format!("a second query: {} {} instead of {}", rvs(b.rv), b.len, a.len));
                }
                if a.len < need {
                    return Err(format!("the query says {}, the output has {} bytes", a.len, need));
                }
                good(&(p.call)(Some(a.len)), &format!("the call with a buffer of the queried size {}", a.len))?;
                fin("after it")?;
                Ok(a.len)
            })();
            (p.clean)();
            r
        },
    );
    let Some(l) = r else {
        return;
    };
    query = query.max(l);
    let mut caps: BTreeSet<usize> = (0..=(query + 1).min(70)).collect();
    for x in [need, query] {
        caps.extend(x.saturating_sub(17)..=x + 1);
    }
    if query > 70 {
        caps.extend((70..query).step_by(13));
    }
    for c in caps {
        for style in 0..3 {
            if style > 0 && (c >= need || !(c == 0 || c == 1 || c + 1 == need || c == need / 2)) {
                continue;
            }
            case(
                w,
                label,
                || format!("{}, {} byte buffer{}", name, c, ["", ", twice", ", then a query"][style]),
                || {
                    let r = (|| {
                        (p.setup)()?;
                        let o = (p.call)(Some(c));
                        if o.rv == CKR_BUFFER_TOO_SMALL && c < query {
                            match style {
                                1 => {
                                    let o = (p.call)(Some(c));
                                    if o.rv != CKR_BUFFER_TOO_SMALL {
                                        return Err(e("the same once more", o.rv));
                                    }
                                }
                                2 => {
                                    let o = (p.call)(None);
                                    if o.rv != 0 || o.len < need {
                                        return Err(format!("the query says {} {}, the output has {} bytes", rvs(o.rv), o.len, need));
                                    }
                                }
                                _ => (),
                            }
                            good(&(p.call)(Some(query)), "CKR_BUFFER_TOO_SMALL, then with the queried size")?;
                        } else if c < need {
                            return Err(format!("a buffer of {} bytes for {} bytes of output: {} {}", c, need, rvs(o.rv), o.len));
                        } else {
                            good(&o, "the call")?;
                        }
                        fin("after it")
                    })();
                    (p.clean)();
                    r
                },
            );
        }
        w.distinct(&(label, name, c));
    }
}
fn none() -> Res<Vec<u8>> {
    Ok(vec![])
}
struct X {
    s: H,
    ks: Ks,
}
fn ready(w: &W, tm: &Tmpl) -> X {
    let q = QUIET.replace(true);
    tm.fresh(&w.dir);
    let s = user_session(1);
    let ks = Ks::make(s);
    QUIET.set(q);
    X { s, ks }
}
const LENS: [usize; 13] = [0, 1, 7, 15, 16, 17, 31, 32, 33, 47, 48, 64, 100];
const PARTS: [usize; 9] = [1, 15, 16, 17, 31, 32, 33, 48, 64];
const PRE: [usize; 6] = [0, 1, 15, 16, 17, 33];

fn rfor(x: &X, cm: &'static Cm, kd: Kd, m: &[u8]) -> Option<Box<dyn Fn(&[u8]) -> Res<()>>> {
    if cm.det || kd == Kd::Dec {
        return None;
    }
    let (s, ks, m) = (x.s, x.ks, m.to_vec());
    Some(Box::new(move |o: &[u8]| {
        let mech = cm.mech(m.len());
        if kd == Kd::Enc {
            z(decrypt_init(s, &mech, cm.key(&ks, Kd::Dec)), "C_DecryptInit")?;
            let d = decrypt(s, o, Some(600)).ok().map_err(|r| e("C_Decrypt", r))?;
            eq(&d, &m, "decrypted")
        } else {
            z(verify_init(s, &mech, cm.key(&ks, Kd::Ver)), "C_VerifyInit")?;
            z(verify(s, &m, o), "C_Verify")
        }
    }))
}
/// what decryption starts from
fn cipher(x: &X, cm: &'static Cm, m: &[u8]) -> Option<Vec<u8>> {
    let q = QUIET.replace(true);
    let mut r = None;
    if encrypt_init(x.s, &cm.mech(m.len()), cm.key(&x.ks, Kd::Enc)) == 0 {
        r = encrypt(x.s, m, Some(600)).ok().ok();
        Kd::Enc.null_init(x.s);
    }
    QUIET.set(q);
    r
}
fn one_shot(w: &mut W, x: &X, cm: &'static Cm, kd: Kd) {
    let mut lens: Vec<usize> = LENS.to_vec();
    if cm.one > 0 {
        lens = vec![cm.one, 1];
    }
    for n in lens {
        let m = msg(n);
        let input = if kd == Kd::Dec {
            match cipher(x, cm, &m) {
                Some(c) => c,
                None => continue,
            }
        } else {
            m.clone()
        };
        let (s, inp) = (x.s, &input);
        let key = cm.key(&x.ks, kd);
        let p = Prod {
            setup: Box::new(move || z(kd.init(s, &cm.mech(n), key, &[]), "init")),
            call: Box::new(move |c| kd.one(s, inp, &[], c)),
            rest: Box::new(none),
            clean: Box::new(move || {
                kd.null_init(s);
            }),
            same: rfor(x, cm, kd, &m),
        };
        drive(w, &format!("{}/{:?}/one-shot", cm.name, kd), &format!("{} bytes", n), &p);
    }
}
fn parts(w: &mut W, x: &X, cm: &'static Cm, kd: Kd, th: bool) {
    if !cm.multi {
        return;
    }
    let s = x.s;
    let key = cm.key(&x.ks, kd);
    for pre in PRE {
        for part in PARTS {
            if !th && pre > 17 && part > 33 {
                continue;
            }
            for last in [0usize, 5] {
                let mut n = pre + part + last;
                n += (cm.block - n % cm.block) % cm.block;
                let m = msg(n);
                let input = if kd == Kd::Dec {
                    match cipher(x, cm, &m) {
                        Some(c) => c,
                        None => continue,
                    }
                } else {
                    m.clone()
                };
                let inp = &input;
                let run = move |a: usize, b: usize| -> Res<Vec<u8>> {
                    if a < b { kd.update(s, &inp[a..b], Some(AMPLE)).ok().map_err(|r| e("an update", r)) } else { Ok(vec![]) }
                };
                let init = move || z(kd.init(s, &cm.mech(n), key, &[]), "init");
                if matches!(kd, Kd::Enc | Kd::Dec) {
                    let p = Prod {
                        setup: Box::new(move || {
                            init()?;
                            run(0, pre).map(|_| ())
                        }),
                        call: Box::new(move |c| kd.update(s, &inp[pre..pre + part], c)),
                        rest: Box::new(move || {
                            let mut v = run(pre + part, inp.len())?;
                            v.extend(kd.fin(s, &[], Some(AMPLE)).ok().map_err(|r| e("the end", r))?);
                            Ok(v)
                        }),
                        clean: Box::new(move || {
                            kd.null_init(s);
                        }),
                        same: None,
                    };
                    drive(w, &format!("{}/{:?}/update", cm.name, kd), &format!("{} bytes, then {}, then {}", pre, part, inp.len() - pre - part), &p);
                }
                if last == 0 || th {
                    let p = Prod {
                        setup: Box::new(move || {
                            init()?;
                            run(0, pre)?;
                            run(pre, inp.len()).map(|_| ())
                        }),
                        call: Box::new(move |c| kd.fin(s, &[], c)),
                        rest: Box::new(none),
                        clean: Box::new(move || {
                            kd.null_init(s);
                        }),
                        same: rfor(x, cm, kd, &m),
                    };
                    drive(w, &format!("{}/{:?}/final", cm.name, kd), &format!("{} bytes, then {}", pre, inp.len() - pre), &p);
                }
            }
        }
    }
}
fn messages(w: &mut W, x: &X, ccm: bool, enc: bool) {
    let s = x.s;
    let k = x.ks.aes;
    let t = if ccm { CKM_AES_CCM } else { CKM_AES_GCM };
    let iv = [7u8; 12];
    for n in [1, 15, 16, 17, 33, 64] {
        let m = msg(n);
        let q = QUIET.replace(true);
        minit(s, true, t, k);
        let mut p = Mp::new(ccm, &iv, 16, n);
        let ct = mone(s, true, &mut p, b"aad", &m, Some(AMPLE)).ok().unwrap_or_default();
        mfinal(s, true);
        QUIET.set(q);
        let tag = p.tag;
        let (input, tagr) = (if enc { m.clone() } else { ct.clone() }, &tag);
        let inp = &input;
        let mp = move || {
            let mut p = Mp::new(ccm, &iv, 16, n);
            if !enc {
                p.tag = tagr.clone();
            }
            p
        };
        let cur = std::cell::RefCell::new(mp());
        let cr = &cur;
        let lab = |x: &str| format!("{}/{}/{}", if ccm { "CCM" } else { "GCM" }, if enc { "message-encrypt" } else { "message-decrypt" }, x);
        let clean = move || {
            mcancel(s, enc);
        };
        let p = Prod {
            setup: Box::new(move || {
                *cr.borrow_mut() = mp();
                z(minit(s, enc, t, k), "init")
            }),
            call: Box::new(move |c| mone(s, enc, &mut cr.borrow_mut(), b"aad", inp, c)),
            rest: Box::new(move || Ok(cr.borrow().tag.clone())),
            clean: Box::new(clean),
            same: None,
        };
        drive(w, &lab("one-shot"), &format!("{} bytes", n), &p);
        for cut in [1, 15, 16, 17, 32] {
            if cut >= n {
                continue;
            }
            for second in [false, true] {
                let begin = move || -> Res<()> {
                    *cr.borrow_mut() = mp();
                    z(minit(s, enc, t, k), "init")?;
                    z(mbegin(s, enc, &mut cr.borrow_mut(), b"aad"), "begin")
                };
                let next = move |a: usize, b: usize, c: Option<usize>| mnext(s, enc, &mut cr.borrow_mut(), &inp[a..b], c, b == inp.len());
                let p = Prod {
                    setup: Box::new(move || {
                        begin()?;
                        if second { next(0, cut, Some(AMPLE)).ok().map(|_| ()).map_err(|r| e("first part", r)) } else { Ok(()) }
                    }),
                    call: Box::new(move |c| if second { next(cut, n, c) } else { next(0, cut, c) }),
                    rest: Box::new(move || {
                        let mut v = if second { vec![] } else { next(cut, n, Some(AMPLE)).ok().map_err(|r| e("last part", r))? };
                        v.extend(cr.borrow().tag.iter());
                        Ok(v)
                    }),
                    clean: Box::new(clean),
                    same: None,
                };
                drive(w, &lab("part"), &format!("{} and {} bytes, {} part", cut, n - cut, if second { "second" } else { "first" }), &p);
            }
        }
    }
}
fn wraps(w: &mut W, x: &X, i: usize) {
    let m = WMS[i];
    let s = x.s;
    let wk = if m.rsa() { x.ks.rsap } else { x.ks.aes };
    let uk = if m.rsa() { x.ks.rsa } else { x.ks.aes };
    let mut tg: Vec<(String, T, usize)> = TGS.iter().map(|t| (format!("{:?}", t), t.tmpl(false, false).b(CKA_EXTRACTABLE, true), t.len().unwrap_or(0))).collect();
    for n in [1, 7, 8, 9, 15, 16, 17, 31, 33, 40, 100, 256] {
        tg.push((format!("{} byte secret", n), seckey(CKK_GENERIC_SECRET, false, false, "", &[&[0][..], &msg(n - 1)].concat()).b(CKA_EXTRACTABLE, true), n));
    }
    for (name, t, n) in tg {
        let q = QUIET.replace(true);
        let k = okr(create(s, &t), "key");
        QUIET.set(q);
        let same: Option<Box<dyn Fn(&[u8]) -> Res<()>>> = if m.rsa() && n > 0 {
            let v = t.get(CKA_VALUE).unwrap().to_vec();
            Some(Box::new(move |o| {
                let t = T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET).b(CKA_TOKEN, false).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
                let h = unwrap(s, &m.mech(n, false), uk, o, &t).map_err(|r| e("C_UnwrapKey", r))?;
                let g = get(s, h, CKA_VALUE).map_err(|r| e("CKA_VALUE", r))?;
                z(destroy(s, h), "C_DestroyObject")?;
                eq(&g, &v, "unwrapped")
            }))
        } else if m.rsa() {
            Some(Box::new(|o| if o.len() == 256 { Ok(()) } else { Err(format!("{} bytes", o.len())) }))
        } else {
            None
        };
        let p = Prod {
            setup: Box::new(|| Ok(())),
            call: Box::new(move |c| wrap(s, &m.mech(n, false), wk, k, c)),
            rest: Box::new(none),
            clean: Box::new(|| ()),
            same,
        };
        drive(w, &format!("{:?}/wrap", m), &name, &p);
        let q = QUIET.replace(true);
        destroy(s, k);
        QUIET.set(q);
    }
}
fn hotp(w: &mut W, x: &X) {
    let s = x.s;
    for len in 6..=8 {
        for token in [false, true] {
            let cur = std::cell::Cell::new(0);
            let cr = &cur;
            let p = Prod {
                setup: Box::new(move || {
                    cr.set(create(s, &hotp_key(token, false, 5, len)).map_err(|r| e("C_CreateObject", r))?);
                    z(sign_init(s, &Mech::new(CKM_HOTP), cr.get()), "C_SignInit")
                }),
                // the output holds pointers into the buffer
                call: Box::new(move |c| {
                    let mut o = sign(s, b"", c);
                    for i in (0..8).chain(24..32) {
                        if i < o.data.len() {
                            o.data[i] = 0;
                        }
                    }
                    o
                }),
                // the counter has moved by one
                rest: Box::new(move || get(s, cr.get(), CKA_OTP_COUNTER).map_err(|r| e("CKA_OTP_COUNTER", r))),
                clean: Box::new(move || {
                    Kd::Sign.null_init(s);
                    destroy(s, cr.get());
                }),
                same: None,
            };
            drive(w, "HOTP/sign", &format!("{} digits, token {}", len, token), &p);
        }
    }
}
/// attributes with every buffer size, and pairs of them
fn attributes(w: &mut W, x: &X, kind: Kind) {
    let s = x.s;
    let q = QUIET.replace(true);
    let t = kind.tmpl(false, false);
    let mut t = if t.get(CKA_CLASS).is_some_and(|c| *c == CKO_SECRET_KEY.to_ne_bytes() || *c == CKO_PRIVATE_KEY.to_ne_bytes()) {
        t.setb(CKA_SENSITIVE, false).setb(CKA_EXTRACTABLE, true)
    } else {
        t
    };
    t = t.set(CKA_LABEL, b"a label");
    if kind.is_key() && kind != Kind::Hotp {
        let v: Vec<u8> = [CKM_AES_ECB, CKM_AES_CBC, CKM_AES_CTR].iter().flat_map(|m| m.to_ne_bytes()).collect();
        t = t.d(CKA_ALLOWED_MECHANISMS, &v);
    }
    let h = okr(create(s, &t), "object");
    let m = okr(snap(s, h), "attributes");
    QUIET.set(q);
    let all: Vec<(CK_ATTRIBUTE_TYPE, Vec<u8>)> = m.into_iter().collect();
    let label = format!("{:?}/attributes", kind);
    let judge = |req: &[(CK_ATTRIBUTE_TYPE, Option<usize>)]| -> Res<()> {
        let (rv, lens, mem) = get_caps(s, h, req);
        let mut small = false;
        for (i, (t, cap)) in req.iter().enumerate() {
            let v = all.iter().find(|a| a.0 == *t).map(|a| &a.1);
            let (l, b) = (lens[i], &mem[i]);
            match (v, cap) {
                (None, _) => {
                    if l != CK_UNAVAILABLE_INFORMATION {
                        return Err(format!("the object has no {}, length {}", aname(*t), l));
                    }
                }
                (Some(v), None) => {
                    if l as usize != v.len() {
                        return Err(format!("query of {}: {} instead of {}", aname(*t), l, v.len()));
                    }
                }
                (Some(v), Some(c)) if *c < v.len() => {
                    small = true;
                    if l != CK_UNAVAILABLE_INFORMATION {
                        return Err(format!("{} with {} of {} bytes: length {}", aname(*t), c, v.len(), l));
                    }
                }
                (Some(v), Some(_)) => {
                    if l as usize != v.len() || b[..v.len()] != v[..] {
                        return Err(format!("{}: {} {}, expected {}", aname(*t), l, hex(&b[..(l as usize).min(b.len())]), hex(v)));
                    }
                }
            }
        }
        let missing = req.iter().any(|r| !all.iter().any(|a| a.0 == r.0));
        let ok = match (small, missing) {
            (false, false) => rv == 0,
            (true, false) => rv == CKR_BUFFER_TOO_SMALL,
            (false, true) => rv == CKR_ATTRIBUTE_TYPE_INVALID,
            (true, true) => rv == CKR_BUFFER_TOO_SMALL || rv == CKR_ATTRIBUTE_TYPE_INVALID,
        };
        if ok { Ok(()) } else { Err(format!("too small {} missing {}: {}", small, missing, rvs(rv))) }
    };
    for (t, v) in &all {
        for c in std::iter::once(None).chain((0..=v.len() + 2).map(Some)) {
            case(w, &label, || format!("{} with {:?}", aname(*t), c), || judge(&[(*t, c)]));
            w.distinct(&(kind, t, c));
        }
    }
    let mut types: Vec<CK_ATTRIBUTE_TYPE> = all.iter().map(|a| a.0).collect();
    types.push(CKA_OWNER);
    for a in &types {
        for b in &types {
            let caps = |t: &CK_ATTRIBUTE_TYPE| -> Vec<Option<usize>> {
                let n = all.iter().find(|x| x.0 == *t).map(|x| x.1.len()).unwrap_or(4);
                let mut v = vec![None, Some(n)];
                if n > 0 {
                    v.push(Some(n - 1));
                }
                v
            };
            for ca in caps(a) {
                for cb in caps(b) {
                    case(w, &label, || format!("{} with {:?} and {} with {:?}", aname(*a), ca, aname(*b), cb), || judge(&[(*a, ca), (*b, cb)]));
                    w.distinct(&(kind, a, b, ca, cb));
                }
            }
        }
    }
    let q = QUIET.replace(true);
    destroy(s, h);
    QUIET.set(q);
}
/// the calls that return lists
fn lists(w: &mut W, x: &X) {
    let s = x.s;
    /// room for n entries, the guard after it
    fn list<E: Copy + PartialEq + std::fmt::Debug>(w: &mut W, name: &str, guard: E, f: &dyn Fn(*mut E, CK_ULONG_PTR) -> Rv) {
        let mut n: CK_ULONG = 0;
        let rv = f(std::ptr::null_mut(), &mut n);
        let mut all = vec![guard; n as usize];
        let mut m = n;
        let rv2 = f(all.as_mut_ptr(), &mut m);
        case(w, name, || "query".into(), || if rv == 0 && rv2 == 0 && n == m { Ok(()) } else { Err(format!("{} {}, {} {}", rvs(rv), n, rvs(rv2), m)) });
        let caps: Vec<usize> = (0..=n as usize + 3).collect();
        for c in caps {
            case(
                w,
                name,
                || format!("room for {} of {}", c, n),
                || {
                    let mut v = vec![guard; c + 4];
                    let mut l = c as CK_ULONG;
                    let rv = f(v.as_mut_ptr(), &mut l);
                    if v[c..].iter().any(|x| *x != guard) {
                        return Err("wrote past the end of the list".into());
                    }
                    if c < n as usize {
                        return if rv == CKR_BUFFER_TOO_SMALL { Ok(()) } else { Err(e(name, rv)) };
                    }
                    if rv != 0 || l != n || v[..n as usize] != all[..] {
                        return Err(format!("{} {} {:?}", rvs(rv), l, &v[..c]));
                    }
                    Ok(())
                },
            );
            w.distinct(&(name, c));
        }
    }
    list(w, "C_GetMechanismList", 0xdead as CK_MECHANISM_TYPE, &|p, l| c!(C_GetMechanismList, 1, p, l));
    for present in [CK_FALSE, CK_TRUE] {
        list(w, "C_GetSlotList", 0xdead as CK_SLOT_ID, &|p, l| c!(C_GetSlotList, present as CK_BBOOL, p, l));
    }
    list(w, "C_GetInterfaceList", [0xdeadu64; 3], &|p, l| c!(C_GetInterfaceList, p as *mut _, l));
    // searches
    let q = QUIET.replace(true);
    let mut hs: Vec<H> = (0..5).map(|i| okr(create(s, &data(false, false, &format!("found {}", i), b"x").s(CKA_APPLICATION, "p28")), "object")).collect();
    hs.sort();
    QUIET.set(q);
    let t = T::new().s(CKA_APPLICATION, "p28");
    for seq in 0..7usize.pow(3) {
        let sizes = [seq % 7, seq / 7 % 7, seq / 49];
        case(
            w,
            "C_FindObjects",
            || format!("batches of {:?}", sizes),
            || {
                z(find_init(s, &t), "C_FindObjectsInit")?;
                let mut got: Vec<H> = vec![];
                for (i, n) in sizes.iter().chain(&[9]).enumerate() {
                    let mut v = vec![0xdead as H; n + 4];
                    let mut l: CK_ULONG = 0xdead;
                    let rv = c!(C_FindObjects, s, v.as_mut_ptr(), *n as CK_ULONG, &mut l);
                    if rv != 0 && *n == 0 {
                        // asking for nothing may be refused
                        continue;
                    }
                    if rv != 0 || l as usize != (*n).min(5 - got.len()) || v[*n..].iter().any(|x| *x != 0xdead) {
                        return Err(format!("call {}: {} {} {:?}", i + 1, rvs(rv), l, v));
                    }
                    got.extend(&v[..l as usize]);
                }
                z(find_final(s), "C_FindObjectsFinal")?;
                got.sort();
                if got != hs {
                    return Err(format!("found {:?} instead of {:?}", got, hs));
                }
                Ok(())
            },
        );
        w.distinct(&("find", seq));
    }
    for n in (0..70).chain([255, 256, 1000, 4096]) {
        case(
            w,
            "C_GenerateRandom",
            || format!("{} bytes", n),
            || {
                let mut v = vec![0u8; n + 16];
                let rv = c!(C_GenerateRandom, s, v.as_mut_ptr(), n as CK_ULONG);
                if v[n..].iter().any(|b| *b != 0) {
                    return Err("wrote past the end of the buffer".into());
                }
                if n > 0 && rv != 0 {
                    return Err(rvs(rv));
                }
                if n > 31 && v[n - 16..n].iter().all(|b| *b == 0) {
                    return Err("the end of the buffer was not filled".into());
                }
                Ok(())
            },
        );
    }
    let q = QUIET.replace(true);
    for h in hs {
        destroy(s, h);
    }
    QUIET.set(q);
}
pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    let th = o.tier.thorough();
    let tm = Tmpl::std(sc, Db::Sqlite);
    let tm = &tm;
    let mut ms: Vec<(&'static Cm, Kd, bool)> = vec![];
    for cm in CMS {
        for kd in cm.kinds() {
            if kd.has_out() {
                ms.push((cm, kd, false));
                ms.push((cm, kd, true));
            }
        }
    }
    ms.sort_by_key(|m| !m.2);
    let mr = &ms;
    let stages = vec![
        Stage::new("operations", ms.len(), move |w: &mut W, i| {
            let (cm, kd, multi) = mr[i];
            w.begin(&format!("{} {:?}", cm.name, kd));
            let x = ready(w, tm);
            if multi {
                parts(w, &x, cm, kd, th);
            } else {
                one_shot(w, &x, cm, kd);
            }
            w.sample(&format!("{} {:?} {}", cm.name, kd, if multi { "in parts" } else { "one-shot" }));
        }),
        Stage::new("messages", 4, move |w: &mut W, i| {
            w.begin("messages");
            let x = ready(w, tm);
            messages(w, &x, i & 1 == 1, i & 2 == 2);
        }),
        Stage::new("wrap", WMS.len() + 1, move |w: &mut W, i| {
            w.begin("wrap");
            let x = ready(w, tm);
            if i == WMS.len() {
                hotp(w, &x);
            } else {
                wraps(w, &x, i);
            }
        }),
        Stage::new("attributes", KINDS.len(), move |w: &mut W, i| {
            w.begin(&format!("{:?}", KINDS[i]));
            let x = ready(w, tm);
            attributes(w, &x, KINDS[i]);
        }),
        Stage::new("lists", 1, move |w: &mut W, _| {
            w.begin("lists");
            let x = ready(w, tm);
            lists(w, &x);
        }),
    ];
    let _ = Tg::Hotp;
    crate::engine::run(
        Check {
            prop: "P28",
            level: "exploration",
            rule: "exhaustive enumeration on the real library: every call that returns data of variable length, in every mechanism and at every point of an operation, with a size query and with every buffer size from nothing to more than enough (large outputs: every size around the bounds); the bytes after the buffer are watched; a too small buffer must be reported and the call repeated with the queried size, and everything after it, must give what the undisturbed operation gives",
            assumptions: vec!["the length stored with CKR_BUFFER_TOO_SMALL is not judged".into()],
            extra: vec![],
        },
        sc,
        o,
        stages,
    )
}
