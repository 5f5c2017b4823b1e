//! P05: which attributes C_SetAttributeValue and C_CopyObject may change.
use crate::api::*;
use crate::tr;
use crate::engine::*;
use crate::env::*;
use crate::keys::*;
use kryoptic_lib::pkcs11::*;

const FLAGS: [CK_ATTRIBUTE_TYPE; 6] = [CKA_SENSITIVE, CKA_EXTRACTABLE, CKA_WRAP_WITH_TRUSTED, CKA_MODIFIABLE, CKA_COPYABLE, CKA_DESTROYABLE];
const PROV: [CK_ATTRIBUTE_TYPE; 6] = [CKA_UNIQUE_ID, CKA_TRUSTED, CKA_LOCAL, CKA_KEY_GEN_MECHANISM, CKA_ALWAYS_SENSITIVE, CKA_NEVER_EXTRACTABLE];
const BOOLS: &[CK_ATTRIBUTE_TYPE] = &[
    CKA_TOKEN, CKA_PRIVATE, CKA_TRUSTED, CKA_SENSITIVE, CKA_ENCRYPT, CKA_DECRYPT, CKA_WRAP, CKA_UNWRAP, CKA_SIGN, CKA_SIGN_RECOVER, CKA_VERIFY,
    CKA_VERIFY_RECOVER, CKA_DERIVE, CKA_EXTRACTABLE, CKA_LOCAL, CKA_NEVER_EXTRACTABLE, CKA_ALWAYS_SENSITIVE, CKA_MODIFIABLE, CKA_COPYABLE,
    CKA_DESTROYABLE, CKA_ALWAYS_AUTHENTICATE, CKA_WRAP_WITH_TRUSTED, CKA_ENCAPSULATE, CKA_DECAPSULATE,
];
const ULONGS: &[CK_ATTRIBUTE_TYPE] = &[
    CKA_CLASS, CKA_KEY_TYPE, CKA_CERTIFICATE_TYPE, CKA_CERTIFICATE_CATEGORY, CKA_MODULUS_BITS, CKA_VALUE_LEN, CKA_KEY_GEN_MECHANISM, CKA_OTP_LENGTH, CKA_OTP_FORMAT,
];

pub fn norm(a: CK_ATTRIBUTE_TYPE, v: &[u8]) -> Vec<u8> {
    // the empty date is kept as 0000-00-00
    if (a == CKA_START_DATE || a == CKA_END_DATE) && v.is_empty() {
        return b"00000000".to_vec();
    }
    if BOOLS.contains(&a) && v.len() == 1 { vec![(v[0] != 0) as u8] } else { v.to_vec() }
}
/// candidate values for one attribute
fn values(k: Kind, a: CK_ATTRIBUTE_TYPE) -> Vec<Vec<u8>> {
    if BOOLS.contains(&a) {
        return vec![vec![0], vec![1], vec![2], vec![0xff], vec![], vec![1, 0], vec![0, 0, 0, 0, 0, 0, 0, 0]];
    }
    let ul = |x: CK_ULONG| x.to_ne_bytes().to_vec();
    if a == CKA_CLASS {
        let mut v: Vec<Vec<u8>> =
            [CKO_DATA, CKO_CERTIFICATE, CKO_PUBLIC_KEY, CKO_PRIVATE_KEY, CKO_SECRET_KEY, CKO_OTP_KEY].iter().map(|c| ul(*c)).collect();
        v.push(vec![0]);
        return v;
    }
    if a == CKA_KEY_TYPE {
        let mut v: Vec<Vec<u8>> =
            [CKK_GENERIC_SECRET, CKK_AES, CKK_RSA, CKK_EC, CKK_HOTP, CKK_SHA256_HMAC].iter().map(|c| ul(*c)).collect();
        v.push(vec![0]);
        return v;
    }
    if ULONGS.contains(&a) {
        return vec![ul(0), ul(1), ul(8), vec![1, 2]];
    }
    if a == CKA_START_DATE || a == CKA_END_DATE {
        return vec![b"20260102".to_vec(), b"2026".to_vec(), vec![]];
    }
    let mut v = vec![b"changed".to_vec(), vec![], vec![0u8; 16], vec![0xff, 0xfe]];
    if let Some(o) = k.tmpl(false, false).get(a) {
        // same length, one bit different
        let mut x = o.to_vec();
        if let Some(l) = x.last_mut() {
            *l ^= 1;
        }
        v.push(x);
    }
    if a == CKA_EC_PARAMS {
        v.push(P256.to_vec());
    }
    v
}
/// Is the change of `a` from `old` to `new` permitted?
fn permitted(k: Kind, copied: bool, a: CK_ATTRIBUTE_TYPE, old: Option<&[u8]>, new: Option<&[u8]>) -> bool {
    let t = new == Some(&[1]);
    let f = new == Some(&[0]);
    if k.value_attrs().contains(&a) {
        return false;
    }
    match a {
        CKA_SENSITIVE | CKA_WRAP_WITH_TRUSTED => t,
        CKA_EXTRACTABLE => f,
        CKA_COPYABLE => f,
        CKA_CLASS | CKA_KEY_TYPE | CKA_LOCAL | CKA_KEY_GEN_MECHANISM => false,
        CKA_TRUSTED => f && !k.is_key(),
        CKA_TOKEN | CKA_PRIVATE | CKA_MODIFIABLE => copied,
        CKA_UNIQUE_ID => copied,
        // a copy may lose the history claims, never gain them
        CKA_ALWAYS_SENSITIVE | CKA_NEVER_EXTRACTABLE => copied && (f || (t && old.is_none())),
        _ => true,
    }
}
/// a fingerprint of the value of keys that cannot be read
fn finger(s: H, k: Kind, o: H) -> Option<Vec<u8>> {
    match k {
        Kind::Aes => {
            if encrypt_init(s, &Mech::new(CKM_AES_ECB), o) != CKR_OK {
                return None;
            }
            encrypt(s, &[0u8; 16], Some(64)).ok().ok()
        }
        Kind::Generic => {
            if sign_init(s, &Mech::new(CKM_SHA256_HMAC), o) != CKR_OK {
                return None;
            }
            sign(s, b"x", Some(64)).ok().ok()
        }
        Kind::RsaPriv => {
            if sign_init(s, &Mech::new(CKM_RSA_PKCS), o) != CKR_OK {
                return None;
            }
            sign(s, b"x", Some(1024)).ok().ok()
        }
        Kind::EcPriv | Kind::DhPriv | Kind::MontPriv => {
            let m = match k {
                Kind::EcPriv => ecdh_mech(&EC2_POINT),
                Kind::MontPriv => ecdh_mech(&[9u8; 32]),
                _ => Mech::bytes(CKM_DH_PKCS_DERIVE, &hx(DH_Y)),
            };
            let t = seckey(CKK_GENERIC_SECRET, false, false, "", b"").without(CKA_VALUE).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true).ul(CKA_VALUE_LEN, 32);
            let d = derive(s, &m, o, &t).ok()?;
            let v = get(s, d, CKA_VALUE).ok();
            destroy(s, d);
            v
        }
        _ => None,
    }
}
fn all(s: H) -> Vec<H> {
    let mut v = find(s, &T::new()).unwrap_or_default();
    v.sort();
    v
}
fn flagset(t: T, k: Kind, bits: u32) -> T {
    let mut t = t;
    for (i, f) in FLAGS.iter().enumerate() {
        if i < 3 && !k.secret() {
            continue;
        }
        t = t.setb(*f, bits >> i & 1 == 1);
    }
    t
}
fn is_t(sn: &Snap, a: CK_ATTRIBUTE_TYPE, default: bool) -> bool {
    sn.get(&a).map(|v| v.as_slice() == [1]).unwrap_or(default)
}

/// C_SetAttributeValue of `t` on `o`; Ok(new state)
fn do_set(s: H, k: Kind, o: H, before: &Snap, t: &T, fing: bool) -> Result<(Rv, Snap), String> {
    let fp = if fing { finger(s, k, o) } else { None };
    let rv = set(s, o, t);
    let after = snap(s, o).map_err(|e| format!("object unreadable after C_SetAttributeValue: {}", rvs(e)))?;
    let names: Vec<CK_ATTRIBUTE_TYPE> = before.keys().chain(after.keys()).copied().collect();
    for a in names {
        let (x, y) = (before.get(&a).map(|v| v.as_slice()), after.get(&a).map(|v| v.as_slice()));
        // CKA_CHECK_VALUE is ignored on input by design
        if x == y || a == CKA_CHECK_VALUE {
            continue;
        }
        let d = format!("{} changed from {:?} to {:?}", aname(a), x.map(hex), y.map(hex));
        if rv != CKR_OK {
            return Err(format!("call failed with {} yet {}", rvs(rv), d));
        }
        // values hidden or shown because the protection changed
        if k.secret_attrs().contains(&a) && y.is_none() && (t.get(CKA_SENSITIVE).is_some() || t.get(CKA_EXTRACTABLE).is_some()) {
            continue;
        }
        if !is_t(before, CKA_MODIFIABLE, true) {
            return Err(format!("object is not modifiable yet {}", d));
        }
        let want = t.0.iter().rev().find(|z| z.0 == a).map(|z| norm(a, &z.1));
        if want.is_none() {
            return Err(format!("{} though it is not in the template", d));
        }
        if want.as_deref() != y.map(|y| norm(a, y)).as_deref() {
            return Err(format!("{}, which is not the value asked for", d));
        }
        if !permitted(k, false, a, x, y) {
            return Err(format!("forbidden change accepted: {}", d));
        }
    }
    if rv == CKR_OK {
        for (a, v) in &t.0 {
            if *a == CKA_CHECK_VALUE {
                continue;
            }
            if k.value_attrs().contains(a) && k.is_key() && k.tmpl(false, false).get(*a) != Some(v.as_slice()) {
                return Err(format!("a change of the key value attribute {} was accepted", aname(*a)));
            }
            let last = t.0.iter().rev().find(|z| z.0 == *a).unwrap();
            if let Some(y) = after.get(a) {
                if norm(*a, y) != norm(*a, &last.1) {
                    return Err(format!("C_SetAttributeValue succeeded but {} is {} instead of {}", aname(*a), hex(y), hex(v)));
                }
            }
        }
    }
    if fing {
        let f2 = finger(s, k, o);
        if fp.is_some() && f2.is_some() && fp != f2 {
            return Err("the key value changed".into());
        }
    }
    Ok((rv, after))
}
/// C_CopyObject; Ok(new handle and its state)
fn do_copy(s: H, k: Kind, o: H, before: &Snap, t: &T, fing: bool) -> Result<Result<(H, Snap), Rv>, String> {
    let pop = all(s);
    let fp = if fing { finger(s, k, o) } else { None };
    let r = copy(s, o, t);
    let src = snap(s, o).map_err(|e| format!("source unreadable after C_CopyObject: {}", rvs(e)))?;
    let d = snapdiff(before, &src);
    if !d.is_empty() {
        return Err(format!("C_CopyObject changed its source: {}", d));
    }
    let mut pop2 = all(s);
    match r {
        Err(e) => {
            if pop2 != pop {
                return Err(format!("C_CopyObject failed with {} but the set of objects changed", rvs(e)));
            }
            Ok(Err(e))
        }
        Ok(h) => {
            if h == o || pop.contains(&h) {
                return Err("C_CopyObject returned a handle already in use".into());
            }
            pop2.retain(|x| *x != h);
            if pop2 != pop {
                return Err("C_CopyObject did not add exactly one object".into());
            }
            if !is_t(before, CKA_COPYABLE, true) {
                return Err("a non-copyable object was copied".into());
            }
            let n = snap(s, h).map_err(|e| format!("copy unreadable: {}", rvs(e)))?;
            let names: Vec<CK_ATTRIBUTE_TYPE> = before.keys().chain(n.keys()).copied().collect();
            for a in names {
                let (x, y) = (before.get(&a).map(|v| v.as_slice()), n.get(&a).map(|v| v.as_slice()));
                if x == y || a == CKA_CHECK_VALUE {
                    if a == CKA_UNIQUE_ID {
                        return Err("the copy has the unique id of its source".into());
                    }
                    continue;
                }
                let d = format!("{} is {:?} in the copy, {:?} in the source", aname(a), y.map(hex), x.map(hex));
                let want = t.0.iter().rev().find(|z| z.0 == a).map(|z| norm(a, &z.1));
                if k.secret_attrs().contains(&a) && y.is_none() && (t.get(CKA_SENSITIVE).is_some() || t.get(CKA_EXTRACTABLE).is_some()) {
                    continue;
                }
                if !permitted(k, true, a, x, y) {
                    return Err(format!("forbidden difference: {}", d));
                }
                if want.is_none() && ![CKA_UNIQUE_ID, CKA_ALWAYS_SENSITIVE, CKA_NEVER_EXTRACTABLE].contains(&a) {
                    return Err(format!("{} though it is not in the template", d));
                }
                if want.is_some() && want.as_deref() != y.map(|y| norm(a, y)).as_deref() {
                    return Err(format!("{}, which is not the value asked for", d));
                }
            }
            for (a, v) in &t.0 {
                if (k.value_attrs().contains(a) && k.tmpl(false, false).get(*a) != Some(v.as_slice())) || (k.is_key() && PROV.contains(a)) {
                    return Err(format!("C_CopyObject accepted a new {}", aname(*a)));
                }
            }
            if fing {
                let f2 = finger(s, k, h);
                if fp.is_some() && f2.is_some() && fp != f2 {
                    return Err("the copy has a different key value".into());
                }
            }
            Ok(Ok((h, n)))
        }
    }
}

fn core_singles(k: Kind) -> Vec<T> {
    let mut v = vec![];
    let mut fl = vec![CKA_MODIFIABLE, CKA_COPYABLE, CKA_DESTROYABLE, CKA_TOKEN, CKA_PRIVATE, CKA_TRUSTED];
    if k.secret() {
        fl.extend([CKA_SENSITIVE, CKA_EXTRACTABLE, CKA_WRAP_WITH_TRUSTED, CKA_ALWAYS_SENSITIVE, CKA_NEVER_EXTRACTABLE]);
    }
    if k.is_key() {
        fl.extend([CKA_LOCAL, CKA_DERIVE]);
    }
    for f in fl {
        v.push(T::new().b(f, false));
        v.push(T::new().b(f, true));
    }
    v.push(T::new().s(CKA_LABEL, "new"));
    v.push(T::new().ul(CKA_CLASS, CKO_DATA));
    v.push(T::new().ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET));
    v.push(T::new().d(CKA_VALUE, &[0u8; 16]));
    v.push(T::new().d(CKA_UNIQUE_ID, b"chosen"));
    v.push(T::new().d(0x8765_4321, b"unknown attribute"));
    v
}
fn wide(k: Kind) -> Vec<T> {
    let mut v = vec![T::new()];
    let mut at = ALL_ATTRS.to_vec();
    at.extend([CKA_WRAP_TEMPLATE, CKA_OBJECT_VALIDATION_FLAGS, CKA_HASH_OF_SUBJECT_PUBLIC_KEY, CKA_PARAMETER_SET]);
    for a in at {
        for x in values(k, a) {
            let t = T::new().d(a, &x);
            let l = T::new().s(CKA_LABEL, "new");
            v.push(l.clone().plus(&t));
            v.push(t.clone().plus(&l));
            v.push(t);
        }
    }
    v
}

struct Obj {
    h: H,
    sn: Snap,
}
/// Run every template on objects with the given flags.
fn sweep(w: &mut W, name: &str, tm: &Tmpl, k: Kind, tok: bool, bits: u32, templates: &[T], nss: bool) {
    tm.fresh(&w.dir);
    let mut s = user_session(1);
    let base = flagset(k.tmpl(tok, true), k, bits);
    let mk = |s: H| -> Option<Obj> {
        match create(s, &base) {
            Ok(h) => snap(s, h).ok().map(|sn| Obj { h, sn }),
            Err(_) => None,
        }
    };
    w.begin(&format!("{} {:?} token={} bits={:06b}", name, k, tok, bits));
    let Some(mut o) = mk(s) else {
        if nss {
            return;
        }
        panic!("harness: cannot create {:?}: {}", k, base.0.len());
    };
    w.add(STATES, 1);
    let needs = |t: &T| t.0.iter().any(|(a, _)| k.value_attrs().contains(a) || *a == CKA_CLASS || *a == CKA_KEY_TYPE);
    for t in templates {
        let fing = needs(t);
        // objects cannot be removed from an NSS database: start over before they pile up
        if nss && all(s).len() > 24 {
            let q = QUIET.replace(true);
            tm.fresh(&w.dir);
            s = user_session(1);
            o = mk(s).expect("harness: create");
            QUIET.set(q);
        }
        w.begin(&format!("{} {:?} token={} bits={:06b} set {:?}", name, k, tok, bits, t));
        w.add(TRANS, 2);
        w.eval();
        w.distinct(&(name, k, tok, bits, t));
        tr!("object: {:?} {:?}", k, base.0.iter().map(|x| (aname(x.0), hex(&x.1))).collect::<Vec<_>>());
        let key = |f: &str| format!("{}/{:?}/{}/{}/{:?}", name, k, if tok { "token" } else { "session" }, f, t.0.iter().map(|x| format!("{}={}", aname(x.0), hex(&x.1))).collect::<Vec<_>>());
        match do_set(s, k, o.h, &o.sn, t, fing) {
            Err(e) => {
                w.viol(&key("set"), &e);
                destroy(s, o.h);
                match mk(s) {
                    Some(n) => o = n,
                    None => return,
                }
            }
            Ok((_, after)) => {
                w.sample_trace();
                if after != o.sn {
                    if is_t(&after, CKA_DESTROYABLE, true) || set(s, o.h, &T::new().b(CKA_DESTROYABLE, true)) == CKR_OK {
                        if destroy(s, o.h) != CKR_OK && !nss {
                            w.viol(&key("destroy"), "destroyable object not destroyed");
                        }
                    } else if destroy(s, o.h) == CKR_OK {
                        w.viol(&key("destroy"), "an object that is not destroyable was destroyed");
                    }
                    match mk(s) {
                        Some(n) => o = n,
                        None => return,
                    }
                }
            }
        }
        let r = do_copy(s, k, o.h, &o.sn, t, fing);
        match r {
            Err(e) => {
                w.viol(&key("copy"), &e);
            }
            Ok(Err(_)) => (),
            Ok(Ok((h, n))) => {
                if is_t(&n, CKA_DESTROYABLE, true) {
                    destroy(s, h);
                } else {
                    let rv = destroy(s, h);
                    if rv == CKR_OK || rvr(&snap(s, h)) != CKR_OK {
                        w.viol(&key("destroy"), "a copy that is not destroyable was destroyed");
                    }
                    if set(s, h, &T::new().b(CKA_DESTROYABLE, true)) == CKR_OK {
                        destroy(s, h);
                    }
                }
            }
        }
    }
    // destroy rule
    w.begin(&format!("{} {:?} token={} bits={:06b} destroy", name, k, tok, bits));
    let rv = destroy(s, o.h);
    let there = snap(s, o.h).is_ok();
    if !is_t(&o.sn, CKA_DESTROYABLE, true) && (rv == CKR_OK || !there) {
        w.viol(&format!("{}/{:?}/destroy", name, k), "an object that is not destroyable was destroyed");
    }
    if rv != CKR_OK && !there {
        w.viol(&format!("{}/{:?}/destroy-err", name, k), "C_DestroyObject failed yet the object is gone");
    }
}
/// All sequences of flag changes and copies.
fn sequences(w: &mut W, s: H, k: Kind, tok: bool, depth: usize, first: usize) {
    let mut steps: Vec<(bool, T)> = vec![];
    for f in FLAGS {
        if !k.secret() && [CKA_SENSITIVE, CKA_EXTRACTABLE, CKA_WRAP_WITH_TRUSTED].contains(&f) {
            continue;
        }
        for v in [false, true] {
            steps.push((false, T::new().b(f, v)));
            steps.push((true, T::new().b(f, v)));
        }
    }
    steps.push((true, T::new()));
    steps.push((false, T::new().s(CKA_LABEL, "new")));
    if first >= steps.len() {
        return;
    }
    let n = steps.len();
    let total = n.pow(depth as u32 - 1);
    let base = flagset(k.tmpl(tok, true), k, 0b111010);
    for i in 0..total {
        let mut idx = vec![first];
        let mut r = i;
        for _ in 1..depth {
            idx.push(r % n);
            r /= n;
        }
        w.begin(&format!("seq {:?} token={} {:?}", k, tok, idx));
        w.add(TRACES, 1);
        w.distinct(&("seq", k, tok, &idx));
        let mut o = okr(create(s, &base), "create");
        let mut sn = okr(snap(s, o), "snap");
        let mut made = vec![o];
        for (p, j) in idx.iter().enumerate() {
            let (c, t) = &steps[*j];
            w.add(TRANS, 1);
            let e = if *c {
                match do_copy(s, k, o, &sn, t, false) {
                    Err(e) => Err(e),
                    Ok(Err(_)) => Ok(()),
                    Ok(Ok((h, n))) => {
                        o = h;
                        sn = n;
                        made.push(h);
                        Ok(())
                    }
                }
            } else {
                do_set(s, k, o, &sn, t, false).map(|(_, n)| sn = n)
            };
            if let Err(e) = e {
                w.viol(
                    &format!("seq/{:?}/{}/{:?}", k, if tok { "token" } else { "session" }, idx[..=p].iter().map(|j| format!("{:?}", steps[*j])).collect::<Vec<_>>()),
                    &e,
                );
                break;
            }
        }
        w.eval();
        let q = QUIET.replace(true);
        for h in made {
            let d = get(s, h, CKA_DESTROYABLE).map(|v| v == [1]).unwrap_or(true);
            if !d {
                if destroy(s, h) == CKR_OK {
                    w.viol(&format!("seq/{:?}/destroy", k), "an object that is not destroyable was destroyed");
                }
                set(s, h, &T::new().b(CKA_DESTROYABLE, true));
            }
            destroy(s, h);
        }
        QUIET.set(q);
    }
}

pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    let th = o.tier.thorough();
    let ts = Tmpl::std(sc, Db::Sqlite);
    let tn = Tmpl::std(sc, Db::Nss);
    // (kind, token, bits, wide)
    let mut it: Vec<(Kind, bool, u32, bool)> = vec![];
    for k in KINDS {
        for tok in [false, true] {
            let confs: Vec<u32> = (0..64).filter(|b| k.secret() || b & 7 == 2).collect();
            let perm = if k.secret() { 0b111010 } else { 0b111010 };
            for b in confs {
                // sensitive/extractable/wwt x modifiable/copyable/destroyable
                let widec = th || b == perm || b == 0b111001 || b == 0b110010 || b == 0b101010 || b == 0b011011;
                if widec && (!tok || th || b == perm || b == 0b110010 || b == 0b111001) {
                    it.push((k, tok, b, true));
                }
                if th || !tok || b >> 3 == 7 || b & 7 == 2 {
                    it.push((k, tok, b, false));
                }
            }
        }
    }
    let itr = &it;
    let tsr = &ts;
    let tnr = &tn;
    let single = |k: Kind, pairs: bool| -> Vec<T> {
        let c = core_singles(k);
        let mut v = c.clone();
        if pairs {
            for a in &c {
                for b in &c {
                    v.push(a.clone().plus(b));
                }
            }
        }
        v
    };
    let main = Stage::new("sweep", it.len(), move |w, i| {
        let (k, tok, b, wd) = itr[i];
        // pairs of the core attributes for session objects, and for token objects on the permissive object
        let ts = if wd { wide(k) } else { single(k, !tok || th || b == 0b111010) };
        sweep(w, if wd { "wide" } else { "core" }, tsr, k, tok, b, &ts, false);
    });
    let nk = [Kind::Aes, Kind::Generic, Kind::EcPriv, Kind::RsaPriv, Kind::Cert, Kind::RsaPub];
    const CH: usize = 12;
    let nss = Stage::new("nss", nk.len() * 4 * CH, move |w, i| {
        let (i, c) = (i / CH, i % CH);
        let k = nk[i / 4];
        let b = [0b111010, 0b111001, 0b110010, 0b111011][i % 4];
        let mut t = single(k, false);
        if th || i % 4 == 0 {
            // every attribute write costs thousands of PBKDF2 rounds here
            t.extend(wide(k).into_iter().filter(|t| th || (t.0.len() == 1 && k != Kind::RsaPriv)));
        }
        let t: Vec<T> = t.into_iter().enumerate().filter(|(n, _)| n % CH == c).map(|x| x.1).collect();
        sweep(w, "nss", tnr, k, true, b, &t, true);
    });
    let sk: Vec<(Kind, bool, usize)> = KINDS
        .iter()
        .flat_map(|k| [(*k, false, if th { 4 } else { 2 }), (*k, true, if th { 3 } else { 2 })])
        .chain([Kind::Aes, Kind::EcPriv, Kind::Data].iter().filter(|_| !th).map(|k| (*k, false, 3)))
        .collect();
    let skr = sk.clone();
    let seq = Stage::new("seq", sk.len() * 26, move |w, i| {
        let (k, tok, d) = skr[i / 26];
        tsr.fresh(&w.dir);
        let s = user_session(1);
        sequences(w, s, k, tok, d, i % 26);
    });
    crate::engine::run(
        Check {
            prop: "P05",
            level: "exploration",
            rule: "every template of one attribute (every attribute, several valid and malformed values, alone and before/after a permitted change), every pair of core attributes, and every sequence of flag changes and copies up to the depth, on objects of every kind with every combination of protection flags; each call is judged by comparing full attribute snapshots, key-value fingerprints and the set of objects before and after",
            assumptions: vec!["values per attribute: boolean false/true/non-canonical/malformed, other types a few representatives".into(), "one session, user logged in".into()],
            extra: vec![],
        },
        sc,
        o,
        vec![main, nss, seq],
    )
}
