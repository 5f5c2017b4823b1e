//! P08: a search returns exactly the visible objects that match the template.
use crate::api::*;
use crate::engine::*;
use crate::env::*;
use crate::keys::*;
use kryoptic_lib::pkcs11::*;
use std::collections::{BTreeMap, BTreeSet};

/// objects of the population: kind, token, private, variant
type Spec = (Kind, bool, bool, usize);
const LABELS: [&[u8]; 7] = [b"obj", b"", b"OBJ", b"ob%", b"obj ", b"ob_", b"ob"];
const IDS: [&[u8]; 5] = [b"", b"\0", b"\0\0", b"id", b"\xff\x00\x27"];
fn tmpl(db: Db, sp: &Spec) -> T {
    let (k, token, private, v) = *sp;
    let mut t = k.tmpl(token, private).set(CKA_LABEL, LABELS[v % LABELS.len()]);
    if k.is_key() || k == Kind::Cert {
        t = t.set(CKA_ID, IDS[v % IDS.len()]);
    }
    if k.secret() && k != Kind::Hotp {
        t = t.setb(CKA_SENSITIVE, v % 2 == 0).setb(CKA_EXTRACTABLE, v % 3 != 0);
        if v % 4 == 1 && db == Db::Sqlite {
            t = t.set(CKA_START_DATE, b"20240131").set(CKA_END_DATE, b"20301231");
        }
        if v % 4 == 2 && db == Db::Sqlite {
            let m: Vec<u8> = [CKM_AES_ECB, CKM_AES_CBC].iter().flat_map(|x| x.to_ne_bytes()).collect();
            t = t.set(CKA_ALLOWED_MECHANISMS, &m);
        }
    }
    t
}
fn specs(db: Db, token: bool) -> Vec<Spec> {
    let mut v = vec![];
    let mut n = if token { 0 } else { 3 };
    for k in KINDS {
        if db == Db::Nss && token && matches!(k, Kind::Data | Kind::Hotp | Kind::MontPriv) {
            continue;
        }
        for private in [true, false] {
            for _ in 0..if private && k != Kind::Aes { 1 } else { 2 } {
                v.push((k, token, private, n));
                n += 1;
            }
        }
    }
    v
}
struct Pop {
    s: H,
    /// snapshot of every object as its owner sees it
    all: BTreeMap<H, Snap>,
    tok: BTreeSet<H>,
}
fn f1(b: &Snap, t: CK_ATTRIBUTE_TYPE) -> bool {
    b.get(&t).is_some_and(|v| v == &[1])
}
/// library on the template token with session objects besides; everything known about each object
fn populate(w: &mut W, tm: &Tmpl, db: Db) -> Option<Pop> {
    let q = QUIET.replace(true);
    tm.fresh(&w.dir);
    let s = user_session(1);
    let mut made = BTreeSet::new();
    for sp in specs(db, false) {
        if let Ok(h) = create(s, &tmpl(db, &sp)) {
            made.insert(h);
        }
    }
    let hs = okr(find(s, &T::new()), "find all");
    QUIET.set(q);
    let mut all = BTreeMap::new();
    let mut tok = BTreeSet::new();
    let mut ntok = 0;
    for h in &hs {
        let sn = match snap(s, *h) {
            Ok(x) => x,
            Err(e) => {
                w.viol("unusable", &format!("handle {} found by an empty template cannot be read: {}", h, rvs(e)));
                return None;
            }
        };
        let class = sn.get(&CKA_CLASS).map_or(0, |v| CK_ULONG::from_ne_bytes(v[..8].try_into().unwrap()));
        if f1(&sn, CKA_TOKEN) && ![CKO_PROFILE, CKO_MECHANISM].contains(&class) {
            ntok += 1;
        }
        if f1(&sn, CKA_TOKEN) {
            tok.insert(*h);
        } else if !made.contains(h) && ![CKO_PROFILE, CKO_MECHANISM].contains(&class) {
            w.viol("unknown", &format!("an object nobody created was found: {:?}", sn));
        }
        if all.insert(*h, sn).is_some() {
            w.viol("twice", &format!("handle {} returned twice by an empty template", h));
        }
    }
    for h in &made {
        if !all.contains_key(h) {
            w.viol("missing", &format!("session object {} not found by an empty template", h));
        }
    }
    if ntok != specs(db, true).len() {
        w.viol("count", &format!("{} token objects found, {} were created", ntok, specs(db, true).len()));
    }
    Some(Pop { s, all, tok })
}
/// not searchable: values that are kept secret in some objects, and error instead of an answer is fine
const SECRETS: [CK_ATTRIBUTE_TYPE; 7] = [CKA_VALUE, CKA_PRIVATE_EXPONENT, CKA_PRIME_1, CKA_PRIME_2, CKA_EXPONENT_1, CKA_EXPONENT_2, CKA_COEFFICIENT];
/// who is asking
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Who {
    User,
    /// a second, read-only session of the logged-in user
    Other,
    Nobody,
    So,
}
const WHO: [Who; 4] = [Who::User, Who::Other, Who::Nobody, Who::So];
fn show(b: &BTreeMap<H, Snap>, v: &[H]) -> String {
    v.iter()
        .take(4)
        .map(|h| match b.get(h) {
            None => format!("{} (unknown)", h),
            Some(s) => format!(
                "{} (class {:?}, token {}, private {}, label {:?})",
                h,
                s.get(&CKA_CLASS).map(|v| v[0]),
                f1(s, CKA_TOKEN),
                f1(s, CKA_PRIVATE),
                s.get(&CKA_LABEL).map(|l| String::from_utf8_lossy(l).to_string())
            ),
        })
        .collect::<Vec<_>>()
        .join(", ")
}
fn one(w: &mut W, db: Db, p: &Pop, s: H, vis: &BTreeMap<H, Snap>, who: Who, t: &T) {
    w.add(TRANS, 1);
    w.eval();
    trace_clear();
    let want: BTreeSet<H> = vis.iter().filter(|(_, sn)| t.0.iter().all(|(a, v)| sn.get(a) == Some(v))).map(|(h, _)| *h).collect();
    let got = match find(s, t) {
        Ok(v) => v,
        Err(e) => {
            let secret = t.0.iter().any(|x| SECRETS.contains(&x.0));
            if !(secret && e == CKR_ATTRIBUTE_SENSITIVE) {
                w.viol(&format!("error:{:?}:{:?}:{:?}", db, who, t), &format!("search for {:?} fails: {}", t, rvs(e)));
            }
            return;
        }
    };
    let set: BTreeSet<H> = got.iter().copied().collect();
    if set.len() != got.len() {
        w.viol(&format!("dup:{:?}:{:?}:{:?}", db, who, t), &format!("search for {:?} returns an object twice: {:?}", t, got));
    }
    let secret = t.0.iter().any(|x| SECRETS.contains(&x.0));
    let extra: Vec<H> = set.difference(&want).copied().collect();
    if !extra.is_empty() {
        w.viol(&format!("extra:{:?}:{:?}:{:?}", db, who, t), &format!("search for {:?} by {:?} returns {}", t, who, show(&p.all, &extra)));
    }
    let mut gone: Vec<H> = want.difference(&set).copied().collect();
    if secret && (who == Who::Nobody || who == Who::So) {
        // without login the values of stored keys need not be available, even of those not protected
        gone.retain(|h| !p.tok.contains(h) || vis[h].get(&CKA_CLASS) == Some(&CKO_CERTIFICATE.to_ne_bytes().to_vec()));
    }
    if !gone.is_empty() {
        w.viol(&format!("gone:{:?}:{:?}:{:?}", db, who, t), &format!("search for {:?} by {:?} misses {}", t, who, show(&p.all, &gone)));
    }
}
/// every template over one attribute, over pairs of attributes, over triples of the common ones
fn templates(w: &mut W, tm: &Tmpl, db: Db, part: usize, parts: usize, th: bool) {
    w.begin(&format!("{:?} population", db));
    let Some(mut p) = populate(w, tm, db) else { return };
    // domain of each attribute: the values in use, and some that are not
    let mut dom: BTreeMap<CK_ATTRIBUTE_TYPE, BTreeSet<Vec<u8>>> = BTreeMap::new();
    for sn in p.all.values() {
        for (a, v) in sn {
            dom.entry(*a).or_default().insert(v.clone());
        }
    }
    for (a, d) in dom.iter_mut() {
        let v0 = d.iter().next().unwrap().clone();
        match v0.len() {
            1 if d.iter().all(|v| v.len() == 1) => {
                d.insert(vec![0]);
                d.insert(vec![1]);
            }
            8 if ![CKA_START_DATE, CKA_END_DATE, CKA_OTP_COUNTER].contains(a) && d.iter().all(|v| v.len() == 8) => {
                d.insert(77u64.to_ne_bytes().to_vec());
            }
            _ => (),
        }
        if [CKA_LABEL, CKA_ID, CKA_SUBJECT, CKA_ISSUER, CKA_SERIAL_NUMBER].contains(a) {
            d.insert(b"none of them".to_vec());
            for v in LABELS {
                d.insert(v.to_vec());
            }
        }
    }
    let mut list: Vec<T> = vec![T::new()];
    let singles: Vec<(CK_ATTRIBUTE_TYPE, Vec<u8>)> = dom.iter().flat_map(|(a, d)| d.iter().map(|v| (*a, v.clone()))).collect();
    let common = [CKA_CLASS, CKA_KEY_TYPE, CKA_TOKEN, CKA_PRIVATE, CKA_LABEL, CKA_ID];
    for (i, (a, v)) in singles.iter().enumerate() {
        list.push(T::new().d(*a, v));
        for (b, u) in &singles[i + 1..] {
            if b == a {
                continue;
            }
            if th || common.contains(a) || common.contains(b) {
                list.push(T::new().d(*a, v).d(*b, u));
            }
            if common.contains(a) && common.contains(b) {
                // the other order too
                list.push(T::new().d(*b, u).d(*a, v));
                for (c, x) in &singles {
                    if c > b && (th || common.contains(c)) {
                        list.push(T::new().d(*a, v).d(*b, u).d(*c, x));
                    }
                }
            }
        }
    }
    let s2 = okr(open(1, false), "open");
    for who in WHO {
        let s = match who {
            Who::User => p.s,
            Who::Other => s2,
            Who::Nobody => {
                ok(logout(p.s), "logout");
                // session objects do not all survive the logout: learn which do
                let left: BTreeSet<H> = p.all.keys().copied().filter(|h| p.tok.contains(h) || snap(p.s, *h).is_ok()).collect();
                for (h, sn) in &p.all {
                    if f1(sn, CKA_PRIVATE) && left.contains(h) && !p.tok.contains(h) {
                        w.viol("logout", &format!("private session object {} lives on after logout", h));
                    }
                    if !f1(sn, CKA_PRIVATE) && !left.contains(h) {
                        w.viol("logout", &format!("public object {} is gone after logout", h));
                    }
                }
                p.all.retain(|h, sn| left.contains(h) && !f1(sn, CKA_PRIVATE));
                p.s
            }
            Who::So => {
                if db == Db::Nss {
                    continue;
                }
                ok(close(s2), "close");
                ok(login(p.s, CKU_SO, SO), "so login");
                p.s
            }
        };
        let vis = p.all.clone();
        let n = list.len();
        for (i, t) in list.iter().enumerate() {
            // the second session and the SO see what the first and nobody see: a part of the templates
            if i % parts != part || ((who == Who::Other || who == Who::So) && t.0.len() > 1 && !th) {
                continue;
            }
            w.distinct(&(db as u8, who as u8, i, n));
            one(w, db, &p, s, &vis, who, t);
        }
    }
}
/// C_FindObjects with every sequence of batch sizes
fn batches(w: &mut W, tm: &Tmpl, db: Db, th: bool) {
    let q = QUIET.replace(true);
    tm.fresh(&w.dir);
    let s = user_session(1);
    QUIET.set(q);
    let sizes = [0usize, 1, 2, 3, 5, 100];
    let depth = if th { 5 } else { 4 };
    let mut made: BTreeSet<H> = BTreeSet::new();
    for n in 0..=5usize {
        if n > 0 {
            // on the NSS token data objects can only be session objects
            made.insert(okr(create(s, &data(n % 2 == 0 && db == Db::Sqlite, n % 3 == 0, "batch", &[n as u8])), "create"));
        }
        let t = T::new().s(CKA_LABEL, "batch");
        let total = sizes.len().pow(depth);
        for code in 0..total {
            w.begin(&format!("{} objects, batches {}", n, code));
            w.eval();
            w.add(TRANS, depth as u64);
            let rv = find_init(s, &t);
            if rv != 0 {
                w.viol(&format!("batch-init:{:?}:{}", db, n), &format!("C_FindObjectsInit: {}", rvs(rv)));
                return;
            }
            let (mut c, mut left, mut got) = (code, n, BTreeSet::new());
            for _ in 0..depth {
                let max = sizes[c % sizes.len()];
                c /= sizes.len();
                let want = max.min(left);
                match find_next(s, max) {
                    Ok(v) => {
                        left -= v.len().min(left);
                        let mut bad = v.len() != want;
                        for h in &v {
                            bad |= !made.contains(h) || !got.insert(*h);
                        }
                        if bad {
                            w.viol(&format!("batch:{:?}:{}:{}", db, n, code), &format!("{} objects match, {} left; asked for {}, got {:?}", n, left, max, v));
                        }
                    }
                    Err(e) => w.viol(&format!("batch:{:?}:{}:{}", db, n, code), &format!("C_FindObjects({}): {}", max, rvs(e))),
                }
            }
            w.distinct(&(db as u8, n, code));
            let rv = find_final(s);
            if rv != 0 {
                w.viol(&format!("batch-final:{:?}:{}", db, n), &format!("C_FindObjectsFinal: {}", rvs(rv)));
            }
            if find_next(s, 1).err() != Some(CKR_OPERATION_NOT_INITIALIZED) {
                w.viol(&format!("batch-after:{:?}:{}", db, n), "C_FindObjects works after C_FindObjectsFinal");
            }
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    /// session, template
    Init(u8, u8),
    Next(u8, usize),
    Final(u8),
    Create(bool),
    Destroy,
    Rename,
    Close(u8),
}
use Op::*;
const OPS: [Op; 14] =
    [Init(0, 0), Init(0, 1), Init(1, 0), Init(1, 2), Next(0, 1), Next(0, 9), Next(1, 1), Next(1, 9), Final(0), Final(1), Create(false), Destroy, Rename, Close(1)];
struct Search {
    /// must be returned, unless destroyed or changed on the way
    must: BTreeSet<H>,
    /// may be returned
    may: BTreeSet<H>,
    got: BTreeSet<H>,
}
/// every history of searches in two sessions with objects coming, going and changing meanwhile
fn history(w: &mut W, tm: &Tmpl, db: Db, first: usize, depth: usize) {
    let q = QUIET.replace(true);
    tm.fresh(&w.dir);
    let base = user_session(1);
    QUIET.set(q);
    let n = OPS.len();
    let total = n.pow(depth as u32 - 1);
    'hist: for code in 0..total {
        let mut seq = vec![OPS[first]];
        let mut c = code;
        for _ in 1..depth {
            seq.push(OPS[c % n]);
            c /= n;
        }
        // histories that start without a search are covered by shorter ones
        if !matches!(seq[0], Init(..)) {
            return;
        }
        let name = format!("{:?} {:?}", db, seq);
        w.begin(&name);
        w.eval();
        let mut s = [okr(open(1, true), "open"), okr(open(1, false), "open")];
        let mut objs: BTreeMap<H, (bool, String)> = BTreeMap::new();
        for (l, _) in [("m", 0), ("m", 1), ("x", 2)] {
            objs.insert(okr(create(s[0], &data(false, false, l, b"v")), "create"), (false, l.to_string()));
        }
        let mut act: [Option<Search>; 2] = [None, None];
        let mut open2 = true;
        let mut bad: Option<String> = None;
        for op in &seq {
            w.add(TRANS, 1);
            match op {
                Init(i, k) => {
                    let i = *i as usize;
                    let t = match k {
                        0 => T::new().s(CKA_LABEL, "m"),
                        1 => T::new().ul(CKA_CLASS, CKO_DATA).b(CKA_TOKEN, false),
                        _ => T::new().s(CKA_LABEL, "nothing"),
                    };
                    let rv = find_init(s[i], &t);
                    let want = if i == 1 && !open2 {
                        CKR_SESSION_HANDLE_INVALID
                    } else if act[i].is_some() {
                        CKR_OPERATION_ACTIVE
                    } else {
                        0
                    };
                    if rv != want {
                        bad = Some(format!("C_FindObjectsInit: {}, expected {}", rvs(rv), rvs(want)));
                    }
                    if want == 0 {
                        let m: BTreeSet<H> = objs.iter().filter(|(_, o)| *k == 1 || (*k == 0 && o.1 == "m")).map(|x| *x.0).collect();
                        act[i] = Some(Search { must: m.clone(), may: m, got: BTreeSet::new() });
                    }
                }
                Next(i, k) => {
                    let i = *i as usize;
                    let r = find_next(s[i], *k);
                    let dead = i == 1 && !open2;
                    match (&mut act[i], r) {
                        (_, Err(_)) if dead => (),
                        (None, Err(CKR_OPERATION_NOT_INITIALIZED)) if !dead => (),
                        (Some(a), Ok(v)) => {
                            for h in &v {
                                if !a.may.contains(h) {
                                    bad = Some(format!("returned {}, which never matched", h));
                                }
                                if !a.got.insert(*h) {
                                    bad = Some(format!("returned {} twice", h));
                                }
                            }
                            if v.len() < *k && !a.must.is_subset(&a.got) {
                                bad = Some(format!("ended without {:?}", a.must.difference(&a.got).collect::<Vec<_>>()));
                            }
                        }
                        (a, r) => bad = Some(format!("C_FindObjects: {:?} with {} search", r, if a.is_some() { "a" } else { "no" })),
                    }
                }
                Final(i) => {
                    let i = *i as usize;
                    let rv = find_final(s[i]);
                    let want = if i == 1 && !open2 {
                        CKR_SESSION_HANDLE_INVALID
                    } else if act[i].is_some() {
                        0
                    } else {
                        CKR_OPERATION_NOT_INITIALIZED
                    };
                    if rv != want {
                        bad = Some(format!("C_FindObjectsFinal: {}, expected {}", rvs(rv), rvs(want)));
                    }
                    act[i] = None;
                }
                Create(t) => {
                    let h = okr(create(s[0], &data(*t, false, "m", b"w")), "create");
                    objs.insert(h, (*t, "m".into()));
                    for a in act.iter_mut().flatten() {
                        a.may.insert(h);
                    }
                }
                Destroy => {
                    let Some((h, _)) = objs.iter().next().map(|x| (*x.0, ())) else { continue };
                    if destroy(s[0], h) != 0 {
                        bad = Some("C_DestroyObject failed".into());
                    }
                    objs.remove(&h);
                    for a in act.iter_mut().flatten() {
                        a.must.remove(&h);
                    }
                }
                Rename => {
                    // the last object changes its label between matching and not
                    let Some((h, o)) = objs.iter_mut().last() else { continue };
                    o.1 = if o.1 == "m" { "x".into() } else { "m".into() };
                    if set(s[0], *h, &T::new().s(CKA_LABEL, &o.1)) != 0 {
                        bad = Some("C_SetAttributeValue failed".into());
                    }
                    for a in act.iter_mut().flatten() {
                        a.may.insert(*h);
                        a.must.remove(h);
                    }
                }
                Close(_) => {
                    if open2 {
                        ok(close(s[1]), "close");
                        open2 = false;
                        act[1] = None;
                    } else {
                        s[1] = okr(open(1, false), "open");
                        open2 = true;
                    }
                }
            }
            if bad.is_some() {
                break;
            }
        }
        w.distinct(&name);
        // what a new search finds now
        if bad.is_none() {
            let want: BTreeSet<H> = objs.iter().filter(|(_, o)| o.1 == "m").map(|x| *x.0).collect();
            match find(base, &T::new().s(CKA_LABEL, "m")) {
                Ok(v) if v.len() == want.len() && v.iter().all(|h| want.contains(h)) => (),
                r => bad = Some(format!("a new search finds {:?}, expected {:?}", r, want)),
            }
        }
        if let Some(b) = bad {
            w.viol(&format!("history:{}", name), &format!("{}: {}", name, b));
            tm.fresh(&w.dir);
            let _ = user_session(1);
            continue 'hist;
        }
        for h in objs.keys() {
            destroy(s[0], *h);
        }
        close(s[0]);
        if open2 {
            close(s[1]);
        }
    }
}
pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    let th = o.tier.thorough();
    let mk = |db: Db| {
        Tmpl::std_with(sc, "find", db, || {
            let s = user_session(1);
            for sp in specs(db, true) {
                okr(create(s, &tmpl(db, &sp)), &format!("create {:?}", sp));
            }
            ok(logout(s), "logout");
        })
    };
    let tms = [mk(Db::Sqlite), mk(Db::Nss)];
    let plain = [Tmpl::std(sc, Db::Sqlite), Tmpl::std(sc, Db::Nss)];
    let (tr, pr) = (&tms, &plain);
    let parts = 16;
    let depth = if th { 5 } else { 4 };
    let stages = vec![
        Stage::new("templates", 2 * parts, move |w: &mut W, i| templates(w, &tr[i % 2], DBS[i % 2], i / 2, parts, th)),
        Stage::new("batches", 2, move |w: &mut W, i| batches(w, &pr[i], DBS[i], th)),
        Stage::new("histories", OPS.len(), move |w: &mut W, i| history(w, &pr[0], Db::Sqlite, i, depth)),
    ];
    crate::engine::run(
        Check {
            prop: "P08",
            level: "exploration",
            rule: "exhaustive enumeration on the real library: a population of every kind of object, token and session, public and private, with labels and ids that differ by case, by wildcard characters, by padding; every template of one attribute with every value in use and values not in use, every pair with a common attribute (thorough: all pairs), triples of the common attributes, as user, in a second session, without login and as SO, compared with the attribute values read by C_GetAttributeValue; every sequence of batch sizes; every history of searches in two sessions with objects created, destroyed and renamed meanwhile",
            assumptions: vec![
                "an object created, destroyed or changed while a search is active may or may not be part of its results".into(),
                "a search by a secret value may be refused with CKR_ATTRIBUTE_SENSITIVE".into(),
            ],
            extra: vec![],
        },
        sc,
        o,
        stages,
    )
}
