//! P04: protected key values never leave the token.
use crate::api::*;
use crate::engine::*;
use crate::env::*;
use crate::keys::*;
use crate::tr;
use kryoptic_lib::pkcs11::*;
use std::path::PathBuf;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Where {
    Session,
    Sqlite,
    Nss,
}
#[derive(Clone, Debug)]
enum St {
    Set(T),
    Copy(T),
    /// copy with the token flag inverted, plus this
    CopyFlip(T),
    Relogin,
    Restart,
}
fn steps() -> Vec<St> {
    let t = T::new;
    vec![
        St::Set(t().b(CKA_SENSITIVE, false)),
        St::Set(t().b(CKA_EXTRACTABLE, true)),
        St::Set(t().b(CKA_SENSITIVE, true)),
        St::Set(t().b(CKA_EXTRACTABLE, false)),
        St::Set(t().ul(CKA_CLASS, CKO_DATA)),
        St::Set(t().ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET)),
        St::Set(t().b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true)),
        St::Copy(t()),
        St::Copy(t().b(CKA_SENSITIVE, false)),
        St::Copy(t().b(CKA_EXTRACTABLE, true)),
        St::Copy(t().b(CKA_SENSITIVE, true)),
        St::Copy(t().b(CKA_EXTRACTABLE, false)),
        St::Copy(t().ul(CKA_CLASS, CKO_DATA)),
        St::Copy(t().b(CKA_PRIVATE, false)),
        St::CopyFlip(t()),
        St::CopyFlip(t().b(CKA_PRIVATE, false)),
        St::CopyFlip(t().b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true)),
        St::Relogin,
        St::Restart,
    ]
}

struct Obs {
    sens: bool,
    ext: bool,
}
fn flags(s: H, o: H) -> Result<Obs, String> {
    let b = |a| match get(s, o, a) {
        Ok(v) => Ok(v == [1]),
        Err(e) => Err(format!("{} of the key unreadable: {}", aname(a), rvs(e))),
    };
    Ok(Obs { sens: b(CKA_SENSITIVE)?, ext: b(CKA_EXTRACTABLE)? })
}
/// everything a caller can try to get the value out; the object must be unharmed
fn leakcheck(s: H, k: Kind, o: H, deep: bool) -> Result<Obs, String> {
    let obs = flags(s, o)?;
    let prot = obs.sens || !obs.ext;
    let secrets = k.secret_vals();
    watch_secrets(if prot { secrets.iter().map(|x| x.1.clone()).collect() } else { vec![] });
    if !prot {
        for (a, v) in &secrets {
            match get(s, o, *a) {
                Ok(x) if x == *v => (),
                r => return Err(format!("an unprotected key's {} reads as {:?}", aname(*a), r.map(|x| hex(&x)).map_err(rvs))),
            }
        }
        return Ok(obs);
    }
    let label = get(s, o, CKA_LABEL).map_err(rvs)?;
    for (a, v) in &secrets {
        for cap in [None, Some(0), Some(1), Some(v.len() - 1), Some(v.len()), Some(v.len() + 16), Some(4096)] {
            let (rv, l, _) = get_caps(s, o, &[(*a, cap)]);
            if rv != CKR_ATTRIBUTE_SENSITIVE || l[0] != CK_UNAVAILABLE_INFORMATION {
                return Err(format!("{} with buffer {:?}: {} length {}", aname(*a), cap, rvs(rv), l[0] as i64));
            }
        }
        // mixed with others, in every position
        let others = [(CKA_LABEL, Some(64)), (CKA_CLASS, Some(8)), (CKA_KEY_TYPE, None), (CKA_MODULUS_BITS, Some(64)), (CKA_ID, Some(64))];
        let n = if deep { others.len() } else { 2 };
        for pos in 0..=n {
            let mut req: Vec<(CK_ATTRIBUTE_TYPE, Option<usize>)> = others[..n].to_vec();
            req.insert(pos, (*a, Some(4096)));
            let (rv, l, mem) = get_caps(s, o, &req);
            if rv == CKR_OK {
                return Err(format!("mixed template with {} succeeded", aname(*a)));
            }
            for (i, r) in req.iter().enumerate() {
                if r.0 == *a && l[i] != CK_UNAVAILABLE_INFORMATION {
                    return Err(format!("{} in a mixed template has length {}", aname(*a), l[i]));
                }
                if r.0 == CKA_LABEL && (l[i] as usize != label.len() || !mem[i].starts_with(&label)) {
                    return Err(format!("label not returned next to {} ({})", aname(*a), rvs(rv)));
                }
                if r.0 == CKA_CLASS && (l[i] != 8 || mem[i][..8] == [GUARD; 8]) {
                    return Err(format!("class not returned next to {}", aname(*a)));
                }
            }
        }
        // twice the same, all secrets at once
        get_caps(s, o, &[(*a, Some(4096)), (*a, Some(4096))]);
        // searching
        let mut wrong = v.clone();
        wrong[0] ^= 1;
        for (what, val) in [("true", v.clone()), ("wrong", wrong), ("empty", vec![]), ("prefix", v[..v.len() - 1].to_vec())] {
            let q = T::new().d(*a, &val);
            let lab = T::new().d(CKA_LABEL, &label);
            let cls = T::new().ul(CKA_CLASS, if matches!(k, Kind::Aes | Kind::Generic) { CKO_SECRET_KEY } else { CKO_PRIVATE_KEY });
            for t in [q.clone(), q.clone().plus(&lab), lab.clone().plus(&q), cls.clone().plus(&q), q.clone().plus(&cls).plus(&lab)] {
                match find(s, &t) {
                    Ok(f) if f.contains(&o) => return Err(format!("a search with the {} value of {} finds the key", what, aname(*a))),
                    Ok(_) => (),
                    Err(e) if what == "empty" || what == "prefix" || e == CKR_ATTRIBUTE_SENSITIVE => {
                        let _ = e;
                    }
                    Err(e) => return Err(format!("search with the {} value fails: {}", what, rvs(e))),
                }
            }
        }
    }
    get_caps(s, o, &secrets.iter().map(|x| (x.0, Some(4096))).collect::<Vec<_>>());
    get_many(s, o, ALL_ATTRS);
    size(s, o).ok();
    // wrapping
    let wk = okr(create(s, &aeskey(false, false, "w", &[1u8; 16]).b(CKA_WRAP, true).b(CKA_UNWRAP, true)), "wrap key");
    for m in [Mech::new(CKM_AES_KEY_WRAP), Mech::new(CKM_AES_KEY_WRAP_KWP), Mech::bytes(CKM_AES_CBC_PAD, &[0u8; 16]), Mech::new(CKM_AES_ECB), Mech::bytes(CKM_AES_CBC, &[0u8; 16])] {
        for cap in [None, Some(8), Some(4096)] {
            let w = wrap(s, &m, wk, o, cap);
            if w.rv == CKR_OK && !obs.ext {
                return Err(format!("{:?} wrapped an unextractable key (buffer {:?})", m, cap));
            }
        }
    }
    destroy(s, wk);
    // derivations that reveal the value
    if k == Kind::Generic || k == Kind::Aes {
        let n = secrets[0].1.len();
        let zero = vec![0u8; n];
        let off: CK_ULONG = 0;
        for (m, len) in [
            (str_mech(CKM_XOR_BASE_AND_DATA, &zero), n),
            (str_mech(CKM_CONCATENATE_BASE_AND_DATA, &zero), 2 * n),
            (str_mech(CKM_CONCATENATE_BASE_AND_DATA, &zero), n),
            (str_mech(CKM_CONCATENATE_DATA_AND_BASE, &zero), 2 * n),
            (Mech::st(CKM_EXTRACT_KEY_FROM_KEY, off), n),
        ] {
            for (x, y) in [(false, true), (true, true), (false, false)] {
                let t = T::new()
                    .ul(CKA_CLASS, CKO_SECRET_KEY)
                    .ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET)
                    .b(CKA_TOKEN, false)
                    .b(CKA_PRIVATE, false)
                    .b(CKA_SENSITIVE, x)
                    .b(CKA_EXTRACTABLE, y)
                    .ul(CKA_VALUE_LEN, len as CK_ULONG);
                if let Ok(d) = derive(s, &m, o, &t) {
                    let (_, v) = get_many(s, d, &[CKA_VALUE]);
                    let ds = get(s, d, CKA_SENSITIVE).map(|v| v == [1]);
                    let de = get(s, d, CKA_EXTRACTABLE).map(|v| v == [1]);
                    destroy(s, d);
                    if matches!(&v[0], AV::V(_)) && (ds == Ok(true) || de == Ok(false)) {
                        return Err("value of a protected derived key returned".into());
                    }
                    if obs.sens && ds != Ok(true) {
                        return Err(format!("{:?} derives an insensitive key from a sensitive one", m));
                    }
                    if !obs.ext && de != Ok(false) {
                        return Err(format!("{:?} derives an extractable key from an unextractable one", m));
                    }
                }
            }
        }
    }
    if let Some(l) = take_leak() {
        return Err(format!("secret value found in {}", l));
    }
    Ok(obs)
}

fn run_seq(w: &mut W, dir: &PathBuf, k: Kind, wh: Where, prot: (bool, bool), idx: &[usize]) {
    let all = steps();
    let name = format!("{:?}/{:?}/sens={} ext={}/{:?}", k, wh, prot.0 as u8, prot.1 as u8, idx.iter().map(|i| format!("{:?}", all[*i])).collect::<Vec<_>>());
    w.begin(&name);
    w.add(TRACES, 1);
    w.eval();
    w.distinct(&(k, wh, prot, idx));
    watch_secrets(vec![]);
    let q = QUIET.replace(true);
    close_all(1);
    let mut s = user_session(1);
    QUIET.set(q);
    let tok = wh != Where::Session;
    let t = k.tmpl(tok, tok).b(CKA_SENSITIVE, prot.0).b(CKA_EXTRACTABLE, prot.1).setb(CKA_DERIVE, true).without(CKA_WRAP);
    let mut o = okr(create(s, &t), "create");
    let mut made: Vec<H> = vec![o];
    let (mut ever_s, mut ever_u) = (prot.0, !prot.1);
    let mut token = tok;
    let fail = |w: &mut W, p: usize, e: String| {
        let key = format!("{:?}/{:?}/{}{}/{:?}", k, wh, prot.0 as u8, prot.1 as u8, idx[..p].iter().map(|i| format!("{:?}", all[*i])).collect::<Vec<_>>());
        w.viol(&key, &e);
    };
    let full = |p: usize| p == idx.len();
    match if full(0) { leakcheck(s, k, o, true) } else { flags(s, o) } {
        Ok(b) => {
            if b.sens != prot.0 || b.ext != prot.1 {
                fail(w, 0, "created with other protection flags than asked for".into());
            }
        }
        Err(e) => {
            fail(w, 0, e);
        }
    }
    for (p, i) in idx.iter().enumerate() {
        w.add(TRANS, 1);
        match &all[*i] {
            St::Set(t) => {
                set(s, o, t);
            }
            St::Copy(_) | St::CopyFlip(_) => {
                let (t, flip) = match &all[*i] {
                    St::Copy(t) => (t.clone(), false),
                    St::CopyFlip(t) => (t.clone().b(CKA_TOKEN, !token), true),
                    _ => unreachable!(),
                };
                if let Ok(h) = copy(s, o, &t) {
                    // the source stays as protected as it was
                    if let Err(e) = if full(p + 1) { leakcheck(s, k, o, false) } else { flags(s, o) } {
                        fail(w, p + 1, format!("source after copying: {}", e));
                        break;
                    }
                    o = h;
                    made.push(h);
                    if flip {
                        token = !token;
                    }
                }
            }
            St::Relogin => {
                logout(s);
                // out of reach or protected, never in the clear
                watch_secrets(if ever_s || ever_u { k.secret_vals().into_iter().map(|x| x.1).collect() } else { vec![] });
                get_many(s, o, &k.secret_attrs());
                for (a, v) in k.secret_vals() {
                    if find(s, &T::new().d(a, &v)).unwrap_or_default().contains(&o) && (ever_s || ever_u) {
                        fail(w, p + 1, "search by value finds the key after logout".into());
                    }
                }
                if let Some(l) = take_leak() {
                    fail(w, p + 1, format!("secret in {} after logout", l));
                }
                login(s, CKU_USER, UP);
                if get(s, o, CKA_LABEL).is_err() {
                    break;
                }
            }
            St::Restart => {
                let uid = get(s, o, CKA_UNIQUE_ID).unwrap_or_default();
                restart(dir);
                s = user_session(1);
                made.clear();
                let f = find(s, &T::new().s(CKA_LABEL, "obj")).unwrap_or_default();
                let hit: Vec<H> = f.iter().copied().filter(|h| get(s, *h, CKA_UNIQUE_ID) == Ok(uid.clone())).collect();
                made.extend(f);
                if !token || (wh == Where::Nss && hit.is_empty()) {
                    break;
                }
                if hit.len() != 1 {
                    fail(w, p + 1, format!("{} objects with the unique id after the restart", hit.len()));
                    break;
                }
                o = hit[0];
            }
        }
        match if full(p + 1) { leakcheck(s, k, o, true) } else { flags(s, o) } {
            Err(e) => {
                fail(w, p + 1, e);
                break;
            }
            Ok(b) => {
                if ever_s && !b.sens {
                    fail(w, p + 1, "a key that was sensitive is not any more".into());
                    break;
                }
                if ever_u && b.ext {
                    fail(w, p + 1, "a key that was unextractable is not any more".into());
                    break;
                }
                ever_s |= b.sens;
                ever_u |= !b.ext;
            }
        }
    }
    w.sample_trace();
    watch_secrets(vec![]);
    tr!("end");
    let q = QUIET.replace(true);
    for h in made {
        destroy(s, h);
    }
    QUIET.set(q);
}

pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    let th = o.tier.thorough();
    let ts = Tmpl::std(sc, Db::Sqlite);
    let tn = Tmpl::std(sc, Db::Nss);
    let kinds = [Kind::Aes, Kind::Generic, Kind::EcPriv, Kind::RsaPriv, Kind::DhPriv, Kind::MontPriv, Kind::Hotp];
    let prots = [(true, true), (true, false), (false, false), (false, true)];
    let n = steps().len();
    // (kind, where, protection, depth, first step)
    let mut it = vec![];
    for k in kinds {
        for p in prots {
            for f in 0..n {
                let deep = matches!(k, Kind::Aes | Kind::EcPriv | Kind::Generic);
                it.push((k, Where::Session, p, if th { if deep { 4 } else { 3 } } else if deep { 3 } else { 2 }, f));
                it.push((k, Where::Sqlite, p, if th { 3 } else { 2 }, f));
                if (deep || k == Kind::RsaPriv) && (th || deep) {
                    it.push((k, Where::Nss, p, if th { 2 } else { 1 }, f));
                }
            }
        }
    }
    let (itr, tsr, tnr) = (&it, &ts, &tn);
    let st = Stage::new("seq", it.len(), move |w, i| {
        let (k, wh, p, d, first) = itr[i];
        let tm = if wh == Where::Nss { tnr } else { tsr };
        w.add(STATES, 1);
        tm.fresh(&w.dir);
        let dir = w.dir.clone();
        if first == 0 {
            run_seq(w, &dir, k, wh, p, &[]);
        }
        for len in 1..=d {
            for j in 0..n.pow(len as u32 - 1) {
                if wh == Where::Nss {
                    tm.fresh(&w.dir);
                }
                let mut idx = vec![first];
                let mut r = j;
                for _ in 1..len {
                    idx.push(r % n);
                    r /= n;
                }
                run_seq(w, &dir, k, wh, p, &idx);
            }
        }
    });
    crate::engine::run(
        Check {
            prop: "P04",
            level: "exploration",
            rule: "every sequence up to the depth of attribute changes, copies, relogins and restarts on secret and private keys of every kind, storage and protection; after every step every way to read the value (all attributes, buffer sizes and mixed templates, searches by true and wrong values, wrapping, value-revealing derivations) is tried and all returned memory is scanned for the secret",
            assumptions: vec!["secrets are recognised by their first or last 8 bytes".into()],
            extra: vec![],
        },
        sc,
        o,
        vec![st],
    )
}
