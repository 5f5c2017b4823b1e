//! P03: private token objects are out of reach unless the user is logged in.
use crate::api::*;
use crate::bfs::*;
use crate::engine::*;
use crate::env::*;
use crate::keys::*;
use kryoptic_lib::pkcs11::*;
use std::path::PathBuf;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Lg {
    None,
    User,
    So,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct M {
    sess: Vec<Option<bool>>,
    login: Lg,
    /// session objects: owner session
    privs: Option<usize>,
    pubs: Option<usize>,
    nss: bool,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Op {
    Open(usize, bool),
    Close(usize),
    CloseAll,
    Login(usize),
    LoginSo(usize),
    BadLogin(usize),
    Logout(usize),
    /// private / public session object
    NewS(usize, bool),
    /// try to make a private token object, and destroy it again if that works
    NewPrivTok(usize),
    Restart,
}
impl M {
    fn drop_priv(&mut self) {
        self.privs = None;
    }
    fn closed(&mut self, i: usize) {
        self.sess[i] = None;
        if self.privs == Some(i) {
            self.privs = None;
        }
        if self.pubs == Some(i) {
            self.pubs = None;
        }
        if self.sess.iter().all(|s| s.is_none()) {
            self.login = Lg::None;
        }
    }
}
impl Model for M {
    type Op = Op;
    fn ops(&self) -> Vec<Op> {
        let mut v = vec![];
        for i in 0..self.sess.len() {
            if self.sess[i].is_none() {
                if self.login != Lg::So {
                    v.push(Op::Open(i, false));
                }
                v.push(Op::Open(i, true));
                continue;
            }
            v.push(Op::Close(i));
            if self.login == Lg::None {
                v.push(Op::Login(i));
                v.push(Op::BadLogin(i));
                if !self.nss && !self.sess.contains(&Some(false)) {
                    v.push(Op::LoginSo(i));
                }
            } else {
                v.push(Op::Logout(i));
            }
            if self.login == Lg::User && self.privs.is_none() {
                v.push(Op::NewS(i, true));
            }
            if self.pubs.is_none() {
                v.push(Op::NewS(i, false));
            }
            if self.sess[i] == Some(true) {
                v.push(Op::NewPrivTok(i));
            }
        }
        v.push(Op::CloseAll);
        v.push(Op::Restart);
        v
    }
    fn step(&self, op: &Op) -> (Exp, M) {
        let mut n = self.clone();
        let e = match *op {
            Op::Open(i, rw) => {
                n.sess[i] = Some(rw);
                Exp::Ok
            }
            Op::Close(i) => {
                n.closed(i);
                Exp::Ok
            }
            Op::CloseAll | Op::Restart => {
                for i in 0..n.sess.len() {
                    n.closed(i);
                }
                Exp::Ok
            }
            Op::Login(_) => {
                n.login = Lg::User;
                Exp::Ok
            }
            Op::LoginSo(_) => {
                n.login = Lg::So;
                Exp::Ok
            }
            Op::BadLogin(_) => Exp::Rv(CKR_PIN_INCORRECT),
            Op::Logout(_) => {
                n.login = Lg::None;
                n.drop_priv();
                Exp::Ok
            }
            Op::NewS(i, p) => {
                if p {
                    n.privs = Some(i)
                } else {
                    n.pubs = Some(i)
                }
                Exp::Ok
            }
            Op::NewPrivTok(_) => {
                if self.login == Lg::User {
                    Exp::Ok
                } else {
                    Exp::Err
                }
            }
        };
        (e, n)
    }
    fn dirty(&self, op: &Op) -> bool {
        matches!(op, Op::Restart | Op::CloseAll)
    }
}

struct S<'a> {
    dir: PathBuf,
    tm: &'a Tmpl,
    nss: bool,
    h: Vec<H>,
    /// token objects: label, private, handle learnt while logged in (0: not known since the restart)
    known: Vec<(String, bool, H)>,
    baseline: Vec<(String, Snap)>,
    privs: Vec<H>,
    pubs: H,
    gone: Vec<H>,
}
fn lab(i: usize) -> String {
    format!("o{}", i)
}
/// private and public population: the same set of objects twice
fn population(nss: bool) -> Vec<T> {
    let mut v = vec![];
    for p in [true, false] {
        if !nss {
            v.push(data(true, p, "", b"some data"));
        }
        v.push(aeskey(true, p, "", &[7u8; 16]).b(CKA_WRAP, true).b(CKA_UNWRAP, true).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true));
        v.push(
            seckey(CKK_GENERIC_SECRET, true, p, "", &[9u8; 32])
                .b(CKA_SIGN, true)
                .b(CKA_VERIFY, true)
                .b(CKA_DERIVE, true)
                .b(CKA_SENSITIVE, true),
        );
        v.push(ec_priv(true, p).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true));
        v.push(rsa_priv(true, p));
        if !nss {
            v.push(rsa_pub(true, p));
        }
    }
    for (i, t) in v.iter_mut().enumerate() {
        *t = std::mem::take(t).set(CKA_LABEL, lab(i).as_bytes()).set(CKA_ID, &[i as u8 + 1]);
        if t.get(CKA_CLASS) == Some(&CKO_DATA.to_ne_bytes()) {
            *t = std::mem::take(t).without(CKA_ID);
        }
    }
    v
}
impl<'a> S<'a> {
    fn learn(&mut self, s: H) -> Result<(), String> {
        for k in self.known.iter_mut() {
            let f = find(s, &T::new().s(CKA_LABEL, &k.0)).map_err(rvs)?;
            if f.len() != 1 {
                return Err(format!("logged in user finds {} objects labelled {}", f.len(), k.0));
            }
            if k.2 != 0 && k.2 != f[0] {
                return Err(format!("object {} changed its handle {} -> {}", k.0, k.2, f[0]));
            }
            k.2 = f[0];
        }
        Ok(())
    }
    fn check_all(&mut self, s: H) -> Result<(), String> {
        for (k, b) in self.known.iter().zip(&self.baseline) {
            let sn = snap(s, k.2).map_err(|e| format!("reading {}: {}", k.0, rvs(e)))?;
            let d = snapdiff(&b.1, &sn);
            if !d.is_empty() {
                return Err(format!("object {} changed: {}", k.0, d));
            }
        }
        Ok(())
    }
    /// every call that takes an object handle must refuse `o`
    fn hidden(&self, s: H, rw: bool, o: H, what: &str) -> Result<(), String> {
        let bad = |f: &str| Err(format!("{} worked on {} (handle {})", f, what, o));
        macro_rules! no {
            ($f:expr, $e:expr) => {
                if $e == CKR_OK {
                    return bad($f);
                }
            };
        }
        for a in [CKA_CLASS, CKA_LABEL, CKA_VALUE, CKA_TOKEN, CKA_PRIVATE, CKA_UNIQUE_ID, CKA_MODULUS, CKA_EC_PARAMS] {
            let (rv, v) = get_many(s, o, &[a]);
            if rv == CKR_OK || rv == CKR_ATTRIBUTE_SENSITIVE || rv == CKR_ATTRIBUTE_TYPE_INVALID {
                return bad(&format!("C_GetAttributeValue({}) = {}", aname(a), rvs(rv)));
            }
            if matches!(&v[0], AV::V(x) if !x.is_empty() && x.iter().any(|b| *b != GUARD)) {
                return bad("C_GetAttributeValue (bytes returned with an error)");
            }
        }
        no!("C_GetAttributeValue", get_many(s, o, ALL_ATTRS).0);
        no!("C_GetObjectSize", rvr(&size(s, o)));
        no!("C_CopyObject", rvr(&copy(s, o, &T::new().b(CKA_TOKEN, false))));
        no!("C_CopyObject public", rvr(&copy(s, o, &T::new().b(CKA_TOKEN, false).b(CKA_PRIVATE, false))));
        if rw {
            no!("C_CopyObject token", rvr(&copy(s, o, &T::new().b(CKA_TOKEN, true).b(CKA_PRIVATE, false))));
        }
        no!("C_SetAttributeValue", set(s, o, &T::new().s(CKA_LABEL, "stolen")));
        no!("C_SetAttributeValue", set(s, o, &T::new()));
        no!("C_DestroyObject", destroy(s, o));
        let iv = [0u8; 16];
        let cbc = Mech::bytes(CKM_AES_CBC_PAD, &iv);
        let oaep = Mech::new(CKM_RSA_PKCS);
        no!("C_EncryptInit", encrypt_init(s, &cbc, o));
        no!("C_DecryptInit", decrypt_init(s, &cbc, o));
        no!("C_EncryptInit", encrypt_init(s, &oaep, o));
        no!("C_DecryptInit", decrypt_init(s, &oaep, o));
        for m in [CKM_SHA256_HMAC, CKM_ECDSA_SHA256, CKM_SHA256_RSA_PKCS, CKM_AES_CMAC] {
            let m = Mech::new(m);
            no!("C_SignInit", sign_init(s, &m, o));
            no!("C_VerifyInit", verify_init(s, &m, o));
            no!("C_VerifySignatureInit", vsig_init(s, &m, o, &[0u8; 32]));
        }
        no!("C_MessageEncryptInit", msg_encrypt_init(s, &Mech::new(CKM_AES_GCM), o));
        no!("C_MessageDecryptInit", msg_decrypt_init(s, &Mech::new(CKM_AES_GCM), o));
        if digest_init(s, &Mech::new(CKM_SHA256)) == CKR_OK {
            let r = digest_key(s, o);
            let st = get_opstate(s, Some(1024));
            session_cancel(s, CKF_DIGEST);
            no!("C_DigestKey", r);
            let _ = st;
        }
        // as wrapping key, as wrapped key, as unwrapping key, as base key, as second key
        let wk = okr(create(s, &aeskey(false, false, "w", &[1u8; 16]).b(CKA_WRAP, true).b(CKA_UNWRAP, true)), "key");
        let gk = okr(
            create(s, &seckey(CKK_GENERIC_SECRET, false, false, "g", &[2u8; 32]).b(CKA_DERIVE, true).b(CKA_EXTRACTABLE, true).b(CKA_SENSITIVE, false)),
            "key",
        );
        let kw = Mech::new(CKM_AES_KEY_WRAP);
        let kwp = Mech::new(CKM_AES_KEY_WRAP_KWP);
        no!("C_WrapKey (wrapping key)", wrap(s, &kw, o, gk, Some(4096)).rv);
        no!("C_WrapKey (target)", wrap(s, &kwp, wk, o, Some(4096)).rv);
        no!("C_WrapKey (target, query)", wrap(s, &kwp, wk, o, None).rv);
        let w = wrap(s, &kw, wk, gk, Some(4096)).ok().unwrap_or(vec![0; 40]);
        let kt = seckey(CKK_GENERIC_SECRET, false, false, "u", b"").without(CKA_VALUE);
        no!("C_UnwrapKey", rvr(&unwrap(s, &kw, o, &w, &kt)));
        let kt = kt.ul(CKA_VALUE_LEN, 16);
        no!(
            "C_DeriveKey",
            rvr(&derive(s, &str_mech(CKM_CONCATENATE_BASE_AND_DATA, b"abcdefghabcdefgh"), o, &kt.clone().set(CKA_VALUE_LEN, &16u64.to_ne_bytes())))
        );
        let other = Mech::st(CKM_CONCATENATE_BASE_AND_KEY, o);
        no!("C_DeriveKey (second key)", rvr(&derive(s, &other, gk, &kt)));
        no!("C_DeriveKey (ecdh)", rvr(&derive(s, &ecdh_mech(&EC_POINT), o, &kt)));
        destroy(s, wk);
        destroy(s, gk);
        Ok(())
    }
}
impl<'a> Sys<M> for S<'a> {
    fn reset(&mut self) {
        self.tm.fresh(&self.dir);
        self.h = vec![0; 4];
        self.gone.clear();
        let q = QUIET.replace(true);
        let s = user_session(1);
        for k in self.known.iter_mut() {
            k.2 = 0;
        }
        let r = self.learn(s);
        if self.baseline.is_empty() {
            if let Err(e) = r {
                panic!("harness: population: {}", e);
            }
            self.baseline = self.known.iter().map(|k| (k.0.clone(), okr(snap(s, k.2), "snap"))).collect();
        }
        ok(close(s), "close");
        QUIET.set(q);
        self.privs.clear();
        self.pubs = 0;
    }
    fn exec(&mut self, op: &Op, m: &M) -> Rv {
        // what will be gone
        let (_, n) = m.step(op);
        if m.privs.is_some() && n.privs.is_none() {
            self.gone.append(&mut self.privs);
        }
        match *op {
            Op::Open(i, rw) => match open(1, rw) {
                Ok(h) => {
                    self.h[i] = h;
                    0
                }
                Err(e) => e,
            },
            Op::Close(i) => close(self.h[i]),
            Op::CloseAll => close_all(1),
            Op::Login(i) => login(self.h[i], CKU_USER, UP),
            Op::LoginSo(i) => login(self.h[i], CKU_SO, SO),
            Op::BadLogin(i) => login(self.h[i], CKU_USER, BAD),
            Op::Logout(i) => logout(self.h[i]),
            Op::NewS(i, p) => {
                let r = create(self.h[i], &aeskey(false, p, if p { "sp" } else { "su" }, &[3u8; 16]));
                if let Ok(h) = r {
                    if p {
                        // one private session object of every kind, and a copy
                        self.privs = vec![h];
                        for k in KINDS {
                            match create(self.h[i], &k.tmpl(false, true).set(CKA_LABEL, b"sp")) {
                                Ok(h) => self.privs.push(h),
                                Err(e) => return e,
                            }
                        }
                        match copy(self.h[i], self.privs[1], &T::new()) {
                            Ok(h) => self.privs.push(h),
                            Err(e) => return e,
                        }
                    } else {
                        self.pubs = h
                    }
                }
                rvr(&r)
            }
            Op::NewPrivTok(i) => {
                let s = self.h[i];
                let mut last = CKR_OK;
                let mut made = vec![];
                let mut res = vec![];
                // creation, generation, unwrap and copy to a private token object
                if !self.nss {
                    res.push(create(s, &data(true, true, "n", b"x")));
                }
                res.push(create(s, &aeskey(true, true, "n", &[4u8; 16]).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true)));
                // private by default
                res.push(create(s, &aeskey(true, true, "n", &[4u8; 16]).without(CKA_PRIVATE).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true)));
                res.push(gen_key(s, &Mech::new(CKM_AES_KEY_GEN), &T::new().b(CKA_TOKEN, true).b(CKA_PRIVATE, true).ul(CKA_VALUE_LEN, 16)));
                if m.login != Lg::User {
                    // a public one as source
                    let f = find(s, &T::new().s(CKA_LABEL, &self.known.iter().find(|k| !k.1).unwrap().0)).unwrap_or_default();
                    if let Some(o) = f.first() {
                        res.push(copy(s, *o, &T::new().b(CKA_PRIVATE, true)));
                    }
                    let r = gen_pair(s, &Mech::new(CKM_EC_KEY_PAIR_GEN), &T::new().b(CKA_TOKEN, false).d(CKA_EC_PARAMS, &P256), &T::new().b(CKA_TOKEN, true).b(CKA_PRIVATE, true));
                    res.push(r.map(|x| x.1));
                    if let Ok(wk) = create(s, &aeskey(false, false, "w", &[1u8; 16]).b(CKA_WRAP, true).b(CKA_UNWRAP, true)) {
                        let w = wrap(s, &Mech::new(CKM_AES_KEY_WRAP), wk, wk, Some(256)).data;
                        res.push(unwrap(s, &Mech::new(CKM_AES_KEY_WRAP), wk, &w, &seckey(CKK_AES, true, true, "n", b"").without(CKA_VALUE)));
                        destroy(s, wk);
                    }
                }
                for r in res {
                    match r {
                        Ok(h) => {
                            made.push(h);
                            if m.login != Lg::User {
                                last = CKR_OK;
                                break;
                            }
                        }
                        Err(e) => last = e,
                    }
                }
                if !made.is_empty() && m.login != Lg::User {
                    return CKR_OK;
                }
                if !self.nss {
                    for h in made {
                        destroy(s, h);
                    }
                }
                last
            }
            Op::Restart => {
                let r = restart(&self.dir);
                for k in self.known.iter_mut() {
                    k.2 = 0;
                }
                self.gone.clear();
                r
            }
        }
    }
    fn probe(&mut self, m: &M) -> Result<(), String> {
        let live: Vec<usize> = (0..m.sess.len()).filter(|i| m.sess[*i].is_some()).collect();
        for &i in &live {
            let s = self.h[i];
            let rw = m.sess[i] == Some(true);
            if m.login == Lg::User {
                self.learn(s)?;
                self.check_all(s)?;
                if m.privs.is_some() && self.privs.iter().any(|h| rvr(&get(s, *h, CKA_LABEL)) != CKR_OK) {
                    return Err("private session object not readable by the user".into());
                }
            } else {
                // searches, by nothing, by label, by class, by privacy
                let all = find(s, &T::new()).map_err(rvs)?;
                for (l, p, h) in self.known.iter() {
                    let f = find(s, &T::new().s(CKA_LABEL, l)).map_err(rvs)?;
                    if f.is_empty() != *p || (!*p && f.len() != 1) {
                        return Err(format!("search for {} (private {}) returned {:?} while login is {:?}", l, p, f, m.login));
                    }
                    if *p && *h != 0 && all.contains(h) {
                        return Err(format!("full search returned private object {}", l));
                    }
                }
                for t in [T::new().b(CKA_PRIVATE, true).b(CKA_TOKEN, true), T::new().b(CKA_PRIVATE, true).ul(CKA_CLASS, CKO_SECRET_KEY)] {
                    let f = find(s, &t).map_err(rvs)?;
                    if !f.is_empty() {
                        return Err(format!("search {:?} returned {:?} while login is {:?}", t, f, m.login));
                    }
                }
                let npriv = self.known.iter().filter(|k| k.1).count();
                let hs: Vec<(String, bool, H)> = self.known.clone();
                let mut pubseen = 0;
                for (l, p, h) in &hs {
                    if *p && *h != 0 {
                        self.hidden(s, rw, *h, &format!("{} private object {} (login {:?})", if rw { "RW" } else { "RO" }, l, m.login))?;
                    }
                    if !*p {
                        let f = find(s, &T::new().s(CKA_LABEL, l)).map_err(rvs)?;
                        if *h != 0 && f != vec![*h] {
                            return Err(format!("public object {} has handle {:?}, was {}", l, f, h));
                        }
                        // values of sensitive attributes are stored encrypted and need the login
                        let ats: Vec<CK_ATTRIBUTE_TYPE> = ALL_ATTRS
                            .iter()
                            .filter(|a| {
                                !matches!(**a, CKA_VALUE | CKA_PRIVATE_EXPONENT | CKA_PRIME_1 | CKA_PRIME_2 | CKA_EXPONENT_1 | CKA_EXPONENT_2 | CKA_COEFFICIENT)
                                    || (!self.nss && l == "o6")
                            })
                            .cloned()
                            .collect();
                        let (rv, v) = get_many(s, f[0], &ats);
                        if !matches!(rv, CKR_OK | CKR_ATTRIBUTE_SENSITIVE | CKR_ATTRIBUTE_TYPE_INVALID) {
                            return Err(format!("public object {} not readable: {}", l, rvs(rv)));
                        }
                        let b = &self.baseline.iter().find(|b| b.0 == *l).unwrap().1;
                        for (a, x) in ats.iter().zip(v) {
                            let x = if let AV::V(x) = x { Some(x) } else { None };
                            if b.get(a) != x.as_ref() {
                                return Err(format!("public object {} attribute {} is {:?}, was {:?}", l, aname(*a), x, b.get(a)));
                            }
                        }
                        pubseen += 1;
                    }
                }
                if pubseen + npriv != hs.len() {
                    return Err("harness: population".into());
                }
                // handles not known (restart): guess every small number
                if self.known.iter().any(|k| k.1 && k.2 == 0) {
                    for g in 0..400 {
                        if let Ok(l) = get(s, g, CKA_LABEL) {
                            if let Some(k) = self.known.iter().find(|k| k.0.as_bytes() == l.as_slice() && k.1) {
                                return Err(format!("guessed handle {} reads private object {}", g, k.0));
                            }
                        }
                    }
                }
            }
            for g in &self.gone {
                if rvr(&get(s, *g, CKA_LABEL)) == CKR_OK || rvr(&size(s, *g)) == CKR_OK {
                    return Err(format!("private session object {} survived the logout", g));
                }
                if encrypt_init(s, &Mech::bytes(CKM_AES_CBC_PAD, &[0u8; 16]), *g) == CKR_OK {
                    return Err("private session key usable after logout".into());
                }
            }
            let f = find(s, &T::new().s(CKA_LABEL, "sp")).map_err(rvs)?;
            if f.len() != if m.privs.is_some() { self.privs.len() } else { 0 } {
                return Err(format!("search finds {} private session objects", f.len()));
            }
            if m.pubs.is_some() && rvr(&get(s, self.pubs, CKA_LABEL)) != CKR_OK {
                return Err("public session object not readable".into());
            }
        }
        Ok(())
    }
    fn deep(&mut self, m: &M) -> Result<bool, String> {
        if m.sess.iter().any(|s| s.is_some()) {
            return Ok(false);
        }
        self.h[0] = open(1, true).map_err(rvs)?;
        let mut m = m.clone();
        m.sess[0] = Some(true);
        self.probe(&m).map_err(|e| format!("(in a session opened afterwards) {}", e))?;
        Ok(true)
    }
}

pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    let mk = |db: Db| {
        Tmpl::std_with(sc, "p03", db, || {
            let s = user_session(1);
            for t in population(db == Db::Nss) {
                okr(create(s, &t), "population");
            }
        })
    };
    let ts = mk(Db::Sqlite);
    let tn = mk(Db::Nss);
    let init = |n: usize, nss| M { sess: vec![None; n], login: Lg::None, privs: None, pubs: None, nss };
    let mut roots: Vec<(&str, M, &Tmpl, usize)> = vec![("sqlite1", init(1, false), &ts, 0), ("sqlite", init(2, false), &ts, 0), ("nss", init(1, true), &tn, 0)];
    if o.tier.thorough() {
        roots.push(("sqlite-h1", init(2, false), &ts, 1));
        roots.push(("sqlite3", init(3, false), &ts, 0));
        roots.push(("nss2", init(2, true), &tn, 0));
        roots.push(("sqlite-h2", init(1, false), &ts, 2));
    }
    let gs: Vec<_> = roots.iter().map(|(n, m, t, h)| (*n, m.clone(), *t, explore(m.clone(), *h, 14, 60000))).collect();
    let extra = gs.iter().map(|(n, _, _, g)| (format!("model_{}", n), format!("{{\"nodes\":{},\"edges\":{},\"closed\":{}}}", g.nodes.len(), g.edges, g.closed))).collect();
    let stages = gs
        .iter()
        .map(|(n, m, tm, g)| {
            let nss = m.nss;
            Stage::new(n, g.nodes.len(), move |w, i| {
                let known = population(nss)
                    .iter()
                    .enumerate()
                    .map(|(i, t)| (lab(i), t.get(CKA_PRIVATE) == Some(&[1]), 0))
                    .collect();
                let mut s = S { dir: w.dir.clone(), tm, nss, h: vec![], known, baseline: vec![], privs: vec![], pubs: 0, gone: vec![] };
                check_node(w, g, i, m, &mut s, n);
            })
        })
        .collect();
    crate::engine::run(
        Check {
            prop: "P03",
            level: "model_checking",
            rule: "breadth-first search of the login/session/session-object model; in every reachable state every call that takes an object handle is tried on every private token object of the population (data, AES, generic secret, EC and RSA private, RSA public key), and after every login the objects are compared with their original snapshot",
            assumptions: vec!["one to three sessions; handles learnt while logged in, or guessed up to 400 after a restart".into()],
            extra,
        },
        sc,
        o,
        stages,
    )
}
