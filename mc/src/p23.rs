//! P23: stored secrets are encrypted, bound to their place and tamper-evident
use crate::api::*;
use crate::engine::*;
use crate::env::*;

use crate::keys::*;
use crate::p01::{SO2, UP2};
use crate::store::{self, Call};
use crate::vfs::{self, FsOp};
use kryoptic_lib::pkcs11::*;
use rusqlite::types::Value;
use rusqlite::{Connection, params};
use std::collections::HashSet;
use std::path::Path;

// ---------------------------------------------------------------- nothing in clear
const WIN: usize = 8;
struct Secrets {
    wins: HashSet<[u8; WIN]>,
    pins: Vec<&'static [u8]>,
}
impl Secrets {
    fn new() -> Secrets {
        let mut s = Secrets { wins: HashSet::new(), pins: [UP, SO, UP2, SO2].iter().map(|p| p.as_bytes()).collect() };
        for k in KINDS.iter().filter(|k| k.secret()) {
            for (_, v) in k.secret_vals() {
                s.add(&v);
            }
        }
        s
    }
    fn add(&mut self, v: &[u8]) {
        for w in v.windows(WIN) {
            // windows that may be anywhere by chance
            if w.iter().collect::<HashSet<_>>().len() >= 5 {
                self.wins.insert(w.try_into().unwrap());
            }
        }
    }
    fn scan(&self, b: &[u8]) -> Option<String> {
        for (i, w) in b.windows(WIN).enumerate() {
            if self.wins.contains(w) {
                return Some(format!("8 bytes of a key's secret value in clear at offset {}", i));
            }
            for p in &self.pins {
                if b[i..].starts_with(p) {
                    return Some(format!("the PIN {} in clear at offset {}", String::from_utf8_lossy(p), i));
                }
            }
        }
        None
    }
    /// the operations of a call and the files it leaves
    fn judge(&self, w: &mut W, label: &str, log: &vfs::Log) {
        for op in &log.ops {
            w.eval();
            if let FsOp::Write(f, _, d) = op
                && let Some(m) = self.scan(d)
            {
                w.viol(&format!("{}/write", label), &format!("{}: {} of what is written to {}", op.show(), m, f.rsplit('/').next().unwrap_or("")));
                return;
            }
        }
        for (f, d) in vfs::image(&w.dir) {
            w.eval();
            w.distinct(&(label, &f, d.len()));
            if let Some(m) = self.scan(&d) {
                w.viol(&format!("{}/file", label), &format!("{}: {}", f.rsplit('/').next().unwrap_or(""), m));
                return;
            }
        }
    }
    /// values of keys made on the way
    fn learn(&mut self, s: H, v: &[H]) {
        let q = QUIET.replace(true);
        for &h in v {
            for a in [CKA_VALUE, CKA_PRIVATE_EXPONENT, CKA_PRIME_1, CKA_PRIME_2, CKA_EXPONENT_1, CKA_EXPONENT_2, CKA_COEFFICIENT] {
                if ![Ok(CKO_SECRET_KEY.to_ne_bytes().to_vec()), Ok(CKO_PRIVATE_KEY.to_ne_bytes().to_vec())].contains(&get(s, h, CKA_CLASS)) {
                    continue;
                }
                if let Ok(v) = get(s, h, a) {
                    self.add(&v);
                }
            }
        }
        QUIET.set(q);
    }
}
fn clear_call(w: &mut W, label: &str, tm: &Tmpl, c: &Call) {
    if !w.case() {
        return;
    }
    w.begin(label);
    let mut sec = Secrets::new();
    let mut x = store::prepare(tm, &w.dir, c);
    vfs::begin(None);
    let _ = (c.run)(&mut x);
    let log = vfs::end();
    sec.learn(x.s, &x.made.clone());
    sec.judge(w, label, &log);
}
/// one kind of key through its life
fn clear_kind(w: &mut W, db: Db, tm: &Tmpl, k: Kind, private: bool, sens: bool) {
    let label = format!("clear/{}/{:?}/{}{}", db.name(), k, if private { "private" } else { "public" }, if sens { "-sensitive" } else { "" });
    if !w.case() {
        return;
    }
    w.begin(&label);
    tm.fresh(&w.dir);
    let s = user_session(1);
    let mut sec = Secrets::new();
    let t = |l: &str| k.tmpl(true, private).set(CKA_LABEL, l.as_bytes()).setb(CKA_SENSITIVE, sens).setb(CKA_EXTRACTABLE, !sens);
    let mut objs = vec![];
    vfs::begin(None);
    match create(s, &t("one")) {
        Ok(h) => objs.push(h),
        Err(e) => {
            vfs::end();
            w.sample(&format!("{}: {}", label, rvs(e)));
            return;
        }
    }
    let so = okr(create(s, &t("s").setb(CKA_TOKEN, false)), "session object");
    if let Ok(h) = copy(s, so, &T::new().b(CKA_TOKEN, true).s(CKA_LABEL, "two")) {
        objs.push(h);
    }
    if let Ok(h) = copy(s, objs[0], &T::new().s(CKA_LABEL, "three")) {
        objs.push(h);
    }
    for &h in &objs {
        set(s, h, &T::new().s(CKA_LABEL, "four"));
        set(s, h, &T::new().d(CKA_ID, b"id"));
    }
    // generated, derived and unwrapped
    if k == Kind::Generic {
        let tok = |l: &str| T::new().b(CKA_TOKEN, true).b(CKA_PRIVATE, private).s(CKA_LABEL, l).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
        let sk = |kt: CK_KEY_TYPE| tok("made").ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, kt);
        let mut made = vec![gen_key(s, &Mech::new(CKM_AES_KEY_GEN), &tok("gen").ul(CKA_VALUE_LEN, 32)), gen_key(s, &Mech::new(CKM_GENERIC_SECRET_KEY_GEN), &tok("gen").ul(CKA_VALUE_LEN, 40))];
        made.push(derive(s, &str_mech(CKM_CONCATENATE_BASE_AND_DATA, b"abc"), so, &sk(CKK_GENERIC_SECRET)));
        made.push(derive(s, &Mech::new(CKM_SHA256_KEY_DERIVATION), so, &sk(CKK_GENERIC_SECRET)));
        for r in [
            gen_pair(s, &Mech::new(CKM_EC_KEY_PAIR_GEN), &tok_pub(private).d(CKA_EC_PARAMS, &P256), &tok("gen")),
            gen_pair(s, &Mech::new(CKM_RSA_PKCS_KEY_PAIR_GEN), &tok_pub(private).ul(CKA_MODULUS_BITS, 1024), &tok("gen")),
        ] {
            made.push(r.map(|(_, p)| p));
        }
        let wk = okr(create(s, &Kind::Aes.tmpl(false, true).b(CKA_UNWRAP, true)), "wrapping key");
        // (the value of a private key unwrapped as a secret key has public parts)
        for h in made[..4].to_vec().into_iter().flatten() {
            for (m, kt) in [(CKM_AES_KEY_WRAP_KWP, CKK_GENERIC_SECRET)] {
                if let Ok(b) = wrap(s, &Mech::new(m), wk, h, Some(4000)).ok() {
                    made.push(unwrap(s, &Mech::new(m), wk, &b, &sk(kt)));
                }
            }
        }
        objs.extend(made.into_iter().flatten());
    }
    sec.learn(s, &objs);
    let log = vfs::end();
    sec.judge(w, &label, &log);
    // what else touches the database
    vfs::begin(None);
    ok(set_pin(s, UP, UP2), "C_SetPIN");
    logout(s);
    login(s, CKU_USER, BAD);
    ok(login(s, CKU_USER, UP2), "login");
    for &h in &objs {
        destroy(s, h);
    }
    let log = vfs::end();
    sec.judge(w, &format!("{}/end", label), &log);
}
fn tok_pub(private: bool) -> T {
    T::new().b(CKA_TOKEN, true).b(CKA_PRIVATE, private).s(CKA_LABEL, "pub")
}

// ---------------------------------------------------------------- altered values
/// the database of the slot, opened behind the library's back
fn db(dir: &Path, name: &str) -> Connection {
    let f = vfs::image(dir).into_keys().find(|f| f.ends_with(name)).unwrap_or_else(|| panic!("no {}", name));
    let c = Connection::open(f).unwrap();
    c.execute_batch("PRAGMA synchronous=OFF; PRAGMA journal_mode=MEMORY;").unwrap();
    c
}
const KS: [Kind; 7] = [Kind::Aes, Kind::Generic, Kind::Hotp, Kind::EcPriv, Kind::RsaPriv, Kind::DhPriv, Kind::MontPriv];
fn klabel(i: usize) -> String {
    format!("k{:02}", i)
}
/// keys 0..7 are private, the others are public
fn ktmpl(i: usize) -> T {
    KS[i % KS.len()].tmpl(true, i < KS.len()).set(CKA_LABEL, klabel(i).as_bytes()).setb(CKA_SENSITIVE, false).setb(CKA_EXTRACTABLE, true)
}
/// (key, attribute, true value)
fn blobs() -> Vec<(usize, CK_ATTRIBUTE_TYPE, Vec<u8>)> {
    (0..KS.len() * 2).flat_map(|i| KS[i % KS.len()].secret_vals().into_iter().map(move |(a, v)| (i, a, v))).collect()
}
struct Al {
    c: Connection,
    ids: Vec<i64>,
    hs: Vec<H>,
    s: H,
}
fn ready(w: &W, tm: &Tmpl) -> Al {
    let q = QUIET.replace(true);
    tm.fresh(&w.dir);
    let c = db(&w.dir, ".sql");
    let s = user_session(1);
    let n = KS.len() * 2;
    let ids = (0..n).map(|i| c.query_row("SELECT id FROM objects WHERE attr=? AND val=?", params![CKA_LABEL as i64, klabel(i)], |r| r.get(0)).unwrap()).collect();
    let hs = (0..n).map(|i| okr(find(s, &T::new().s(CKA_LABEL, &klabel(i))), "find")[0]).collect();
    QUIET.set(q);
    Al { c, ids, hs, s }
}
impl Al {
    fn read(&self, k: usize, a: CK_ATTRIBUTE_TYPE) -> Value {
        self.c.query_row("SELECT val FROM objects WHERE id=? AND attr=?", params![self.ids[k], a as i64], |r| r.get(0)).unwrap()
    }
    fn write(&self, k: usize, a: CK_ATTRIBUTE_TYPE, v: &Value) {
        assert_eq!(self.c.execute("UPDATE objects SET val=? WHERE id=? AND attr=?", params![v, self.ids[k], a as i64]).unwrap(), 1);
    }
    /// what the token makes of the value
    fn wrong(&self, k: usize, a: CK_ATTRIBUTE_TYPE, truth: &[u8]) -> Option<String> {
        match get(self.s, self.hs[k], a) {
            Ok(v) if v != truth => return Some(format!("C_GetAttributeValue gives {} bytes that are not the value stored", v.len())),
            _ => (),
        }
        if KS[k % KS.len()] == Kind::Generic {
            // the key in use
            let mut m = vec![];
            if sign_init(self.s, &Mech::new(CKM_SHA256_HMAC), self.hs[k]) == 0 {
                m = sign(self.s, b"abc", Some(64)).data;
                if m != crate::refc::Ha::S256.hmac(&GENV, b"abc") {
                    return Some("the key signs with another value".into());
                }
            }
            drop(m);
        }
        None
    }
}
fn blob(v: &Value) -> Vec<u8> {
    match v {
        Value::Blob(b) => b.clone(),
        v => panic!("not a blob: {:?}", v),
    }
}
/// all the ways to alter a blob; every value of the bytes from th on
fn alter(v: &[u8], truth: &[u8], th: usize, f: &mut dyn FnMut(String, Value)) {
    for i in 0..v.len() {
        for m in 1..=255u8 {
            if i >= th || m.count_ones() == 1 || m == 0xff {
                let mut x = v.to_vec();
                x[i] ^= m;
                f(format!("byte {} of {} xor {:02x}", i, v.len(), m), Value::Blob(x));
            }
        }
    }
    for n in 0..v.len() {
        f(format!("cut to {} bytes", n), Value::Blob(v[..n].to_vec()));
        let mut x = v.to_vec();
        x.remove(n);
        f(format!("byte {} removed", n), Value::Blob(x));
        let mut x = v.to_vec();
        x.insert(n, 0);
        f(format!("zero inserted at {}", n), Value::Blob(x));
    }
    for (n, t) in [("a zero", vec![0u8]), ("another byte", vec![0xff]), ("itself", v.to_vec()), ("the plain value", truth.to_vec())] {
        f(format!("followed by {}", n), Value::Blob([v, &t].concat()));
    }
    let mut other = truth.to_vec();
    other[0] ^= 1;
    for (n, t) in [("the plain value", truth), ("a plain value", &other)] {
        f(format!("replaced by {}", n), Value::Blob(t.to_vec()));
    }
    f("replaced by NULL".into(), Value::Null);
    f("replaced by a number".into(), Value::Integer(5));
    f("replaced by a text".into(), Value::Text("text".into()));
}
fn all(th: bool) -> usize {
    if th { 0 } else { usize::MAX }
}
fn alter_item(w: &mut W, tm: &Tmpl, b: &(usize, CK_ATTRIBUTE_TYPE, Vec<u8>), th: bool) {
    let (k, a, truth) = b;
    let label = format!("alter/{:?}{}/{}", KS[k % KS.len()], if *k < KS.len() { "" } else { "-public" }, aname(*a));
    if !w.case() {
        return;
    }
    w.begin(&label);
    let al = ready(w, tm);
    let v = al.read(*k, *a);
    if get(al.s, al.hs[*k], *a).as_ref() != Ok(truth) {
        panic!("{}: not the true value", label);
    }
    let q = QUIET.replace(true);
    let mut n = 0;
    alter(&blob(&v), truth, all(th), &mut |what, x| {
        al.write(*k, *a, &x);
        w.eval();
        n += 1;
        if let Some(m) = al.wrong(*k, *a, truth) {
            note(&format!("stored value altered: {}", what));
            w.viol(&format!("{}/{}", label, what.split(' ').next().unwrap_or("")), &format!("{}: {}", what, m));
        }
    });
    w.add(TRANS, n);
    al.write(*k, *a, &v);
    if let Some(m) = al.wrong(*k, *a, truth) {
        w.viol(&format!("{}/restored", label), &m);
    }
    if get(al.s, al.hs[*k], *a).as_ref() != Ok(truth) {
        panic!("{}: no longer the true value", label);
    }
    QUIET.set(q);
}
fn move_item(w: &mut W, tm: &Tmpl, bs: &[(usize, CK_ATTRIBUTE_TYPE, Vec<u8>)], i: usize) {
    let (k, a, truth) = &bs[i];
    let name = |k: usize, a: CK_ATTRIBUTE_TYPE| format!("{:?}{}.{}", KS[k % KS.len()], if k < KS.len() { "" } else { "-public" }, aname(a));
    w.begin(&format!("move/{}", name(*k, *a)));
    let al = ready(w, tm);
    let v = al.read(*k, *a);
    let q = QUIET.replace(true);
    for (k2, a2, t2) in bs.iter().filter(|x| (x.0, x.1) != (*k, *a)) {
        if !w.case() {
            continue;
        }
        let v2 = al.read(*k2, *a2);
        al.write(*k, *a, &v2);
        w.eval();
        w.add(TRANS, 1);
        w.distinct(&(k, a, k2, a2));
        // equal values give nothing away
        if t2 != truth
            && let Some(m) = al.wrong(*k, *a, truth)
        {
            note(&format!("stored value of {} copied over that of {}", name(*k2, *a2), name(*k, *a)));
            w.viol(&format!("move/{}/{}", name(*k, *a), name(*k2, *a2)), &format!("the stored {} in place of the {}: {}", name(*k2, *a2), name(*k, *a), m));
        }
        // both ways
        al.write(*k2, *a2, &v);
        w.eval();
        if t2 != truth
            && let Some(m) = al.wrong(*k, *a, truth).or_else(|| al.wrong(*k2, *a2, t2))
        {
            w.viol(&format!("swap/{}/{}", name(*k, *a), name(*k2, *a2)), &format!("{} and {} swapped: {}", name(*k, *a), name(*k2, *a2), m));
        }
        al.write(*k, *a, &v);
        al.write(*k2, *a2, &v2);
    }
    QUIET.set(q);
}

// ---------------------------------------------------------------- the PINs' data
type Row = (String, Value, Value, Value);
fn meta(c: &Connection) -> Vec<Row> {
    let mut s = c.prepare("SELECT name, id, value, data FROM meta").unwrap();
    s.query_map([], |r| Ok((r.get(0)?, r.get(1)?, r.get(2)?, r.get(3)?))).unwrap().map(|r| r.unwrap()).collect()
}
fn set_meta(c: &mut Connection, v: &[Row]) {
    let t = c.transaction().unwrap();
    t.execute("DELETE FROM meta", []).unwrap();
    for r in v {
        t.execute("INSERT INTO meta VALUES (?,?,?,?)", params![r.0, r.1, r.2, r.3]).unwrap();
    }
    t.commit().unwrap();
}
/// log in in every way; the values of a private and a public key
fn pins_wrong(al: &Al, so: bool) -> Option<String> {
    logout(al.s);
    let mut why = None;
    for (ut, pin, good) in [(CKU_USER, BAD, false), (CKU_USER, SO, false), (CKU_SO, BAD, false), (CKU_SO, UP, false), (CKU_USER, UP, true), (CKU_SO, SO, true)] {
        let side = (ut == CKU_SO) == so;
        // the other user's data was not touched; wrong PINs there say nothing new
        if !side {
            continue;
        }
        let rv = login(al.s, ut, pin);
        if rv != 0 {
            continue;
        }
        if !good {
            why = Some(format!("{} logs in as {}", pin, if so { "SO" } else { "user" }));
        }
        for k in [1, 1 + KS.len()] {
            if let Ok(v) = get(al.s, al.hs[k], CKA_VALUE)
                && v != GENV
            {
                why = Some("a key's value reads as another one after login".into());
            }
        }
        logout(al.s);
    }
    why
}
const PIN_PARTS: usize = 16;
fn pin_item(w: &mut W, tm: &Tmpl, so: bool, part: usize, th: bool) {
    let who = if so { "SO" } else { "user" };
    let label = format!("pin/{}", who);
    if !w.case() {
        return;
    }
    w.begin(&format!("{}/{}", label, part));
    let mut al = ready(w, tm);
    let rows = meta(&al.c);
    let ix: Vec<usize> = (0..rows.len()).filter(|&i| rows[i].0 == "USER DATA").collect();
    if ix.len() != 2 {
        panic!("{:?}", rows);
    }
    let n = *ix.iter().find(|&&i| matches!(&rows[i].2, Value::Text(t) if t.to_lowercase().contains("so") == so)).unwrap_or_else(|| panic!("{:?}", rows));
    let o = ix[1] + ix[0] - n;
    let q = QUIET.replace(true);
    let mut vs = vec![];
    let v = blob(&rows[n].3);
    // (before, there is the number of iterations: some values take forever)
    alter(&v, b"NO ENCRYPTION", if th { v.len() - 75 } else { usize::MAX }, &mut |what, x| vs.push((what, x)));
    vs.push(("the other user's".into(), rows[o].3.clone()));
    let mut c = Connection::open_in_memory().unwrap();
    std::mem::swap(&mut c, &mut al.c);
    for (what, x) in vs.into_iter().skip(part).step_by(PIN_PARTS) {
        let mut r = rows.clone();
        r[n].3 = x;
        set_meta(&mut c, &r);
        w.eval();
        w.add(TRANS, 1);
        if let Some(m) = pins_wrong(&al, so) {
            note(&format!("stored data of the {} PIN altered: {}", who, what));
            w.viol(&format!("{}/{}", label, what.split(' ').next().unwrap_or("")), &format!("{}: {}", what, m));
        }
    }
    set_meta(&mut c, &rows);
    ok(login(al.s, if so { CKU_SO } else { CKU_USER }, if so { SO } else { UP }), "login with the restored data");
    QUIET.set(q);
}

// ---------------------------------------------------------------- NSS
const NPARTS: usize = 8;
fn nss_item(w: &mut W, tm: &Tmpl, which: usize, part: usize, th: bool) {
    let (public, a) = [(false, CKA_MODULUS), (false, CKA_PUBLIC_EXPONENT), (true, CKA_MODULUS), (true, CKA_PUBLIC_EXPONENT)][which];
    let label = format!("nss/{}/{}", if public { "public" } else { "private" }, aname(a));
    if !w.case() {
        return;
    }
    w.begin(&format!("{}/{}", label, part));
    let q = QUIET.replace(true);
    tm.fresh(&w.dir);
    let kc = db(&w.dir, "key4.db");
    let oc = if public { db(&w.dir, "cert9.db") } else { db(&w.dir, "key4.db") };
    let (tab, dbt) = if public { ("nssPublic", "cert") } else { ("nssPrivate", "key") };
    let s = user_session(1);
    let h = okr(find(s, &T::new().s(CKA_LABEL, if public { "rsapub" } else { "rsa" }).ul(CKA_CLASS, if public { CKO_PUBLIC_KEY } else { CKO_PRIVATE_KEY })), "find")[0];
    let truth = okr(get(s, h, a), "true value");
    let col = format!("a{:x}", a);
    let id: i64 = oc.query_row(&format!("SELECT id FROM {} WHERE a3=?", tab), params![if public { b"rsapub".to_vec() } else { b"rsa".to_vec() }], |r| r.get(0)).unwrap();
    let name = format!("sig_{}_{:08x}_{:08x}", dbt, id, a);
    let sig: Vec<u8> = kc.query_row("SELECT item1 FROM metaData WHERE id=?", params![name], |r| r.get(0)).unwrap();
    let mut vs: Vec<(bool, String, Value)> = vec![];
    alter(&truth, &truth, all(th), &mut |n, x| {
        if x != Value::Blob(truth.clone()) {
            vs.push((false, n, x))
        }
    });
    alter(&sig, &truth, if th { sig.len() - 34 } else { usize::MAX }, &mut |n, x| vs.push((true, n, x)));
    // signatures of other lengths, correctly framed
    for n in 0..32 {
        vs.push((true, format!("framed signature of {} bytes", n), Value::Blob(reframe(&sig, &sig[sig.len() - 32..][..n]))));
    }
    // one byte can be guessed
    for b in 0..=255u8 {
        vs.push((true, format!("guessed signature of one byte {:02x}", b), Value::Blob(reframe(&sig, &[b]))));
    }
    let sets = |v: &Value| kc.execute("UPDATE metaData SET item1=? WHERE id=?", params![v, name]).map(|n| assert_eq!(n, 1)).unwrap();
    let setv = |v: &Value| oc.execute(&format!("UPDATE {} SET {}=? WHERE id=?", tab, col), params![v, id]).map(|n| assert_eq!(n, 1)).unwrap();
    sets(&Value::Blob(reframe(&sig, &sig[sig.len() - 32..])));
    if get(s, h, a).as_ref() != Ok(&truth) {
        panic!("{}: the signature is not what it was thought to be", label);
    }
    sets(&Value::Blob(sig.clone()));
    let mut forged = truth.clone();
    *forged.last_mut().unwrap() ^= 2;
    for (is_sig, what, x) in vs.into_iter().skip(part).step_by(NPARTS) {
        // an altered signature comes with an altered value
        if is_sig {
            sets(&x);
            setv(&Value::Blob(forged.clone()));
        } else {
            setv(&x);
        }
        w.eval();
        w.add(TRANS, 1);
        if let Ok(v) = get(s, h, a)
            && v != truth
        {
            note(&format!("{} altered: {}", if is_sig { "signature and value" } else { "value" }, what));
            w.viol(&format!("{}/{}{}", label, if is_sig { "signature-" } else { "" }, what.split(' ').next().unwrap_or("")), &format!("{} {}: a value of {} bytes that is not the one stored is given", if is_sig { "signature" } else { "value" }, what, v.len()));
        }
        if is_sig {
            sets(&Value::Blob(sig.clone()));
        }
        setv(&Value::Blob(truth.clone()));
    }
    if get(s, h, a).as_ref() != Ok(&truth) {
        panic!("{}: no longer the true value", label);
    }
    QUIET.set(q);
}
/// the structure with another last octet string
fn reframe(v: &[u8], mac: &[u8]) -> Vec<u8> {
    // SEQUENCE { algorithm, OCTET STRING (32) }
    let body = match v[1] {
        0x81 => &v[3..],
        0x82 => &v[4..],
        _ => &v[2..],
    };
    let alg = &body[..body.len() - 34];
    assert_eq!(&body[body.len() - 34..body.len() - 32], [4, 32]);
    let mut b = alg.to_vec();
    b.extend([4, mac.len() as u8]);
    b.extend(mac);
    let mut r = vec![0x30];
    if b.len() >= 256 {
        r.extend([0x82, (b.len() >> 8) as u8, b.len() as u8]);
    } else if b.len() >= 128 {
        r.extend([0x81, b.len() as u8]);
    } else {
        r.push(b.len() as u8);
    }
    r.extend(b);
    r
}
/// signed values moved: each signed attribute with the value and signature of another
fn nss_move(w: &mut W, tm: &Tmpl) {
    w.begin("nss/move");
    let q = QUIET.replace(true);
    tm.fresh(&w.dir);
    let kc = db(&w.dir, "key4.db");
    let s = user_session(1);
    let all: Vec<(i64, i64)> = {
        let mut st = kc.prepare("SELECT id, a120 FROM nssPrivate WHERE a120 IS NOT NULL").unwrap();
        st.query_map([], |r| Ok((r.get(0)?, 0))).unwrap().map(|r| r.unwrap()).collect()
    };
    let hs: Vec<(H, i64)> = {
        let mut v = vec![];
        for l in ["rsa", "rsa2"] {
            let h = okr(find(s, &T::new().s(CKA_LABEL, l).ul(CKA_CLASS, CKO_PRIVATE_KEY)), "find")[0];
            let id: i64 = kc.query_row("SELECT id FROM nssPrivate WHERE a3=?", params![l.as_bytes().to_vec()], |r| r.get(0)).unwrap();
            v.push((h, id));
        }
        v
    };
    assert!(all.len() >= 2);
    let mut places = vec![];
    for &(h, id) in &hs {
        for a in [CKA_MODULUS, CKA_PUBLIC_EXPONENT] {
            let v = okr(get(s, h, a), "value");
            let sig: Vec<u8> = kc.query_row("SELECT item1 FROM metaData WHERE id=?", params![format!("sig_key_{:08x}_{:08x}", id, a)], |r| r.get(0)).unwrap();
            places.push((h, id, a, v, sig));
        }
    }
    let put = |id: i64, a: CK_ATTRIBUTE_TYPE, v: &[u8], sig: &[u8]| {
        kc.execute(&format!("UPDATE nssPrivate SET a{:x}=? WHERE id=?", a), params![v, id]).unwrap();
        kc.execute("UPDATE metaData SET item1=? WHERE id=?", params![sig, format!("sig_key_{:08x}_{:08x}", id, a)]).unwrap();
    };
    for i in 0..places.len() {
        for j in 0..places.len() {
            if i == j || places[i].3 == places[j].3 {
                continue;
            }
            let (h, id, a, v, sig) = &places[i];
            put(*id, *a, &places[j].3, &places[j].4);
            w.eval();
            w.add(TRANS, 1);
            if let Ok(x) = get(s, *h, *a)
                && x != *v
            {
                w.viol(&format!("nss/move/{}-{}", i, j), "a value and its signature moved to another place are accepted there");
            }
            put(*id, *a, v, sig);
        }
    }
    QUIET.set(q);
}
/// the PIN's data
fn nss_pin(w: &mut W, tm: &Tmpl, part: usize) {
    if !w.case() {
        return;
    }
    w.begin(&format!("nss/pin/{}", part));
    let q = QUIET.replace(true);
    tm.fresh(&w.dir);
    let kc = db(&w.dir, "key4.db");
    let s = user_session(1);
    let h = okr(find(s, &T::new().s(CKA_LABEL, "generic")), "find")[0];
    let truth = okr(get(s, h, CKA_VALUE), "value");
    let (i1, i2): (Vec<u8>, Vec<u8>) = kc.query_row("SELECT item1, item2 FROM metaData WHERE id='password'", [], |r| Ok((r.get(0)?, r.get(1)?))).unwrap();
    let mut vs = vec![];
    alter(&i1, b"password-check", usize::MAX, &mut |n, x| vs.push((1, n, x)));
    alter(&i2, b"password-check", usize::MAX, &mut |n, x| vs.push((2, n, x)));
    for (c, what, x) in vs.into_iter().skip(part).step_by(NPARTS * 2) {
        logout(s);
        kc.execute(&format!("UPDATE metaData SET item{}=? WHERE id='password'", c), params![x]).unwrap();
        w.eval();
        w.add(TRANS, 1);
        if login(s, CKU_USER, BAD) == 0 {
            w.viol(&format!("nss/pin/{}-wrong", c), &format!("item {} {}: a wrong PIN logs in", c, what));
            logout(s);
        }
        if login(s, CKU_USER, UP) == 0
            && let Ok(v) = get(s, h, CKA_VALUE)
            && v != truth
        {
            w.viol(&format!("nss/pin/{}-value", c), &format!("item {} {}: a key's value reads as another one after login", c, what));
        }
        kc.execute("UPDATE metaData SET item1=?, item2=? WHERE id='password'", params![i1, i2]).unwrap();
    }
    logout(s);
    ok(login(s, CKU_USER, UP), "login with the restored data");
    QUIET.set(q);
}

pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    vfs::install();
    let th = o.tier.thorough();
    let tms = crate::p10::tmpls(sc);
    let empty = [Tmpl::std(sc, Db::Sqlite), Tmpl::std(sc, Db::Nss)];
    let cs = store::calls();
    let keys = Tmpl::std_with(sc, "p23-keys", Db::Sqlite, || {
        let s = user_session(1);
        for i in 0..KS.len() * 2 {
            okr(create(s, &ktmpl(i)), "key");
        }
    });
    let nss = Tmpl::std_with(sc, "p23-nss", Db::Nss, || {
        let s = user_session(1);
        okr(create(s, &Kind::RsaPriv.tmpl(true, true).set(CKA_LABEL, b"rsa")), "rsa");
        okr(create(s, &Kind::RsaPriv.tmpl(true, true).set(CKA_LABEL, b"rsa2")), "rsa2");
        okr(create(s, &Kind::RsaPub.tmpl(true, false).set(CKA_LABEL, b"rsapub")), "rsapub");
        okr(create(s, &Kind::Generic.tmpl(true, true).set(CKA_LABEL, b"generic").setb(CKA_SENSITIVE, false).setb(CKA_EXTRACTABLE, true)), "generic");
    });
    let bs = blobs();
    let mut calls = vec![];
    for t in 0..tms.len() {
        for c in 0..cs.len() {
            if if tms[t].1 == Db::Nss { cs[c].nss } else { cs[c].sqlite } {
                calls.push((t, c));
            }
        }
    }
    let mut kinds = vec![];
    for d in 0..2 {
        for k in KINDS.iter().filter(|k| k.secret()) {
            for f in 0..4 {
                kinds.push((d, *k, f & 1 != 0, f & 2 != 0));
            }
        }
    }
    let (tr, cr, clr, er, kr, kdr, nr, br) = (&tms, &cs, &calls, &empty, &keys, &kinds, &nss, &bs);
    let stages = vec![
        Stage::new("clear", calls.len(), move |w: &mut W, i| {
            let (name, _, tm) = &tr[clr[i].0];
            let c = &cr[clr[i].1];
            clear_call(w, &format!("clear/{}/{}", name, c.name), tm, c);
        }),
        Stage::new("clear-kinds", kinds.len(), move |w: &mut W, i| {
            let (d, k, p, s) = kdr[i];
            clear_kind(w, [Db::Sqlite, Db::Nss][d], &er[d], k, p, s);
        }),
        Stage::new("alter", bs.len(), move |w: &mut W, i| alter_item(w, kr, &br[i], th)),
        Stage::new("move", bs.len(), move |w: &mut W, i| move_item(w, kr, br, i)),
        Stage::new("pin", 2 * PIN_PARTS, move |w: &mut W, i| pin_item(w, kr, i % 2 == 1, i / 2, th)),
        Stage::new("nss-signed", 4 * NPARTS, move |w: &mut W, i| nss_item(w, nr, i % 4, i / 4, th)),
        Stage::new("nss-move", 1, move |w: &mut W, _| nss_move(w, nr)),
        Stage::new("nss-pin", NPARTS * 2, move |w: &mut W, i| nss_pin(w, nr, i)),
    ];
    crate::engine::run(
        Check {
            prop: "P23",
            level: "exploration",
            rule: "exhaustive enumeration on the real library and its real database files: every file operation of every storage call and of the life of every kind of key on both back ends is scanned for every 8-byte window of every secret value and for every PIN; every byte of every stored encrypted value and of the PINs' data is altered (every bit; every value in the thorough tier), cut, removed, inserted, and every ordered pair of stored values moved and swapped, and the values the token then gives are compared with the true ones; on NSS databases the same with the signed attributes and their signatures",
            assumptions: vec![
                "values of private CKO_DATA objects are stored in clear by design and not judged".into(),
                "NSS databases encrypt secret values with AES-CBC without authentication: only signed attributes are tamper-evident there".into(),
                "putting back an older stored value of the same attribute is not judged".into(),
            ],
            extra: vec![],
        },
        sc,
        o,
        stages,
    )
}
