//! The calls that use the storage, and the view of a token they are judged by (P10, P11).
use crate::api::*;
use crate::cry::*;
use crate::env::*;
use crate::keys::*;
use crate::p01::{SO2, UP2};
use kryoptic_lib::pkcs11::*;
use std::path::Path;

/// objects, PINs and token information as any user of the token sees them
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct View {
    pub label: Vec<u8>,
    pub flags: CK_FLAGS,
    pub upin: Option<u8>,
    pub sopin: Option<u8>,
    pub objs: Vec<Snap>,
}
const RANDOM: [CK_ATTRIBUTE_TYPE; 6] = [CKA_VALUE, CKA_CHECK_VALUE, CKA_MODULUS, CKA_EC_POINT, CKA_PUBLIC_KEY_INFO, CKA_ID];
impl View {
    /// without what is random in each run
    pub fn norm(&self) -> View {
        let mut v = self.clone();
        for o in &mut v.objs {
            o.remove(&CKA_UNIQUE_ID);
            if o.get(&CKA_LABEL).is_some_and(|l| l.starts_with(b"rnd")) {
                for a in RANDOM {
                    o.remove(&a);
                }
            }
        }
        v.objs.sort_by_key(|o| format!("{:?}", o));
        v
    }
    pub fn diff(&self, o: &View) -> String {
        let mut s = String::new();
        if self.label != o.label {
            s += &format!("label {:?} / {:?}; ", String::from_utf8_lossy(&self.label).trim_end(), String::from_utf8_lossy(&o.label).trim_end());
        }
        if self.flags != o.flags {
            s += &format!("token flags {:#x} / {:#x}; ", self.flags, o.flags);
        }
        if self.upin != o.upin {
            s += &format!("user PIN {:?} / {:?}; ", self.upin, o.upin);
        }
        if self.sopin != o.sopin {
            s += &format!("SO PIN {:?} / {:?}; ", self.sopin, o.sopin);
        }
        let name = |x: &Snap| String::from_utf8_lossy(x.get(&CKA_LABEL).map_or(&b"?"[..], |v| v)).into_owned();
        for x in &self.objs {
            if !o.objs.contains(x) {
                match o.objs.iter().find(|y| y.get(&CKA_UNIQUE_ID) == x.get(&CKA_UNIQUE_ID) && name(y) == name(x)) {
                    Some(y) => s += &format!("object {}: {}; ", name(x), snapdiff(x, y)),
                    None => s += &format!("object {} only in the first; ", name(x)),
                }
            }
        }
        for y in &o.objs {
            if !self.objs.contains(y) && !self.objs.iter().any(|x| y.get(&CKA_UNIQUE_ID) == x.get(&CKA_UNIQUE_ID) && name(y) == name(x)) {
                s += &format!("object {} only in the second; ", name(y));
            }
        }
        if s.is_empty() && self != o {
            s = "objects differ in number".into();
        }
        s
    }
}
fn er<X>(r: R<X>, what: &str) -> Result<X, String> {
    r.map_err(|e| format!("{}: {}", what, rvs(e)))
}
pub const UNREADABLE: &[u8] = b"unreadable";
/// every token object, sorted
pub fn objects(s: H) -> Result<Vec<Snap>, String> {
    let mut v = vec![];
    for h in er(find(s, &T::new().b(CKA_TOKEN, true)), "find")? {
        match snap(s, h) {
            // after a PIN change on the NSS back end
            Err(CKR_ENCRYPTED_DATA_INVALID) => v.push(Snap::from([(CKA_LABEL, UNREADABLE.to_vec())])),
            r => v.push(er(r, "C_GetAttributeValue")?),
        }
    }
    v.sort_by_key(|o| format!("{:?}", o));
    Ok(v)
}
/// the view; nobody may be logged in
pub fn view(db: Db) -> Result<View, String> {
    let ti = er(token_info(1), "C_GetTokenInfo")?;
    let s = er(open(1, true), "C_OpenSession")?;
    let mut v = View { label: ti.label.to_vec(), flags: ti.flags, upin: None, sopin: None, objs: vec![] };
    if db == Db::Sqlite {
        for (i, p) in [SO, SO2].iter().enumerate() {
            if login(s, CKU_SO, p) == 0 {
                v.sopin = Some(i as u8);
                logout(s);
                break;
            }
        }
    }
    let mut rv = 0;
    for (i, p) in [UP, UP2].iter().enumerate() {
        rv = login(s, CKU_USER, p);
        if rv == 0 {
            v.upin = Some(i as u8);
            break;
        }
    }
    if rv != 0 && rv != CKR_USER_PIN_NOT_INITIALIZED {
        return Err(format!("neither user PIN works: {}", rvs(rv)));
    }
    v.objs = objects(s)?;
    // what a wrong key makes of an object is a matter of luck
    let lost = |o: &Snap| o.get(&CKA_LABEL).is_some_and(|l| l == UNREADABLE);
    if v.objs.iter().any(lost) {
        for o in v.objs.iter_mut() {
            if o.get(&CKA_CLASS).is_none_or(|c| *c == CKO_PRIVATE_KEY.to_ne_bytes() || *c == CKO_SECRET_KEY.to_ne_bytes()) {
                *o = Snap::from([(CKA_LABEL, UNREADABLE.to_vec())]);
            }
        }
        v.objs.sort_by_key(|o| format!("{:?}", o));
    }
    // the token takes changes
    if v.upin.is_some() {
        let t = cert(true, false).set(CKA_LABEL, b"probe").set(CKA_SUBJECT, b"probe");
        let h = er(create(s, &t), "a new object")?;
        let r = destroy(s, h);
        if r != 0 {
            return Err(format!("destroying a new object: {}", rvs(r)));
        }
        logout(s);
    }
    close(s);
    Ok(v)
}

/// a call under test
pub struct Call {
    pub name: &'static str,
    /// does it change what is stored?
    pub changes: bool,
    pub nss: bool,
    pub sqlite: bool,
    pub pre: fn(&mut Cx),
    pub run: fn(&mut Cx) -> Rv,
    /// outcome of the undisturbed call
    pub rv: Rv,
}
#[derive(Default)]
pub struct Cx {
    pub s: H,
    pub a: H,
    pub b: H,
    pub blob: Vec<u8>,
    pub dir: std::path::PathBuf,
    /// what the call made
    pub made: Vec<H>,
}
impl Cx {
    pub fn obj(&self, label: &str) -> H {
        let v = okr(find(self.s, &T::new().s(CKA_LABEL, label)), "find");
        if v.len() != 1 {
            panic!("{} objects {}", v.len(), label);
        }
        v[0]
    }
    fn mk(&mut self, r: R<H>) -> Rv {
        match r {
            Ok(h) => {
                self.made.push(h);
                0
            }
            Err(e) => e,
        }
    }
}
fn user(x: &mut Cx) {
    x.s = user_session(1);
}
fn so(x: &mut Cx) {
    x.s = okr(open(1, true), "open");
    ok(login(x.s, CKU_SO, SO), "so login");
}
fn public(x: &mut Cx) {
    x.s = okr(open(1, true), "open");
}
fn big(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 7 % 251) as u8).collect()
}
fn lab(t: T, l: &str) -> T {
    t.set(CKA_LABEL, l.as_bytes())
}
/// the objects of the token
pub fn populate(s: H, db: Db, n: usize) {
    okr(create(s, &lab(cert(true, false), "cert")), "cert");
    okr(create(s, &lab(Kind::Aes.tmpl(true, true), "aes").b(CKA_UNWRAP, true).b(CKA_EXTRACTABLE, true).b(CKA_DERIVE, true)), "aes");
    okr(create(s, &lab(Kind::Generic.tmpl(true, true), "generic").b(CKA_EXTRACTABLE, true).b(CKA_SENSITIVE, false)), "generic");
    okr(create(s, &lab(ec_priv(true, true), "ecpriv")), "ecpriv");
    okr(create(s, &lab(ec_pub(true, false), "ecpub")), "ecpub");
    if db == Db::Sqlite {
        okr(create(s, &lab(data(true, true, "", b"some data"), "data")), "data");
        okr(create(s, &lab(hotp_key(true, true, 5, 6), "hotp")), "hotp");
    }
    for i in 0..n {
        let t = cert(true, i % 2 == 1 && db == Db::Sqlite).set(CKA_SUBJECT, format!("subject {}", i).as_bytes()).set(CKA_VALUE, &big(300 + 700 * i));
        okr(create(s, &lab(t, &format!("more{}", i))), "more");
    }
}
macro_rules! calls {
    ($($n:literal $ch:literal $db:literal $pre:expr, $run:expr;)*) => {
        vec![$(Call { name: $n, changes: $ch, sqlite: $db.contains('s'), nss: $db.contains('n'), pre: $pre, run: $run, rv: 0 }),*]
    };
}
pub fn calls() -> Vec<Call> {
    let mut v = calls! {
        "create-data" true "s" user, |x| { let r = create(x.s, &lab(data(true, true, "", b"value"), "new")); x.mk(r) };
        "create-public-data" true "s" user, |x| { let r = create(x.s, &lab(data(true, false, "", &big(100)), "new")); x.mk(r) };
        "create-big-data" true "s" user, |x| { let r = create(x.s, &lab(data(true, true, "", &big(9000)), "new")); x.mk(r) };
        "create-cert" true "sn" user, |x| { let r = create(x.s, &lab(cert(true, false), "new").set(CKA_SUBJECT, b"s9")); x.mk(r) };
        "create-aes" true "sn" user, |x| { let r = create(x.s, &lab(Kind::Aes.tmpl(true, true), "new")); x.mk(r) };
        "create-rsa" true "sn" user, |x| { let r = create(x.s, &lab(rsa_priv(true, true), "new")); x.mk(r) };
        "create-rsa-pub" true "sn" user, |x| { let r = create(x.s, &lab(rsa_pub(true, false), "new")); x.mk(r) };
        "create-session-object" false "sn" user, |x| { let r = create(x.s, &lab(Kind::Aes.tmpl(false, true), "new")); x.mk(r) };
        "copy" true "sn" |x| { user(x); x.a = x.obj("generic"); }, |x| { let r = copy(x.s, x.a, &T::new().s(CKA_LABEL, "new")); x.mk(r) };
        "copy-to-token" true "sn" |x| { user(x); x.a = okr(create(x.s, &lab(Kind::Generic.tmpl(false, true), "session")), "session object"); },
            |x| { let r = copy(x.s, x.a, &T::new().s(CKA_LABEL, "new").b(CKA_TOKEN, true)); x.mk(r) };
        "generate-key" true "sn" user, |x| { let r = gen_key(x.s, &Mech::new(CKM_AES_KEY_GEN), &T::new().b(CKA_TOKEN, true).s(CKA_LABEL, "rnd").ul(CKA_VALUE_LEN, 32)); x.mk(r) };
        "generate-key-pair" true "sn" user, |x| {
            let r = gen_pair(x.s, &Mech::new(CKM_EC_KEY_PAIR_GEN), &T::new().b(CKA_TOKEN, true).s(CKA_LABEL, "rnd pub").d(CKA_EC_PARAMS, &P256), &T::new().b(CKA_TOKEN, true).s(CKA_LABEL, "rnd priv"));
            match r { Ok((a, b)) => { x.made.extend([a, b]); 0 } Err(e) => e }
        };
        "derive" true "sn" |x| { user(x); x.a = x.obj("generic"); }, |x| {
            let r = derive(x.s, &str_mech(CKM_CONCATENATE_BASE_AND_DATA, b"abc"), x.a, &T::new().b(CKA_TOKEN, true).s(CKA_LABEL, "new").ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET)); x.mk(r) };
        "unwrap" true "sn" |x| { user(x); x.a = x.obj("aes"); let g = x.obj("generic"); x.blob = wrap(x.s, &Mech::new(CKM_AES_KEY_WRAP_KWP), x.a, g, Some(100)).ok().unwrap(); }, |x| {
            let r = unwrap(x.s, &Mech::new(CKM_AES_KEY_WRAP_KWP), x.a, &x.blob.clone(), &T::new().b(CKA_TOKEN, true).s(CKA_LABEL, "new").ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET)); x.mk(r) };
        "set-label" true "sn" |x| { user(x); x.a = x.obj("aes"); }, |x| set(x.s, x.a, &T::new().s(CKA_LABEL, "other"));
        "set-several" true "sn" |x| { user(x); x.a = x.obj("cert"); }, |x| set(x.s, x.a, &T::new().s(CKA_LABEL, "other").d(CKA_ID, b"id"));
        "set-usage" true "sn" |x| { user(x); x.a = x.obj("generic"); }, |x| set(x.s, x.a, &T::new().b(CKA_SIGN, false).s(CKA_LABEL, "other").d(CKA_ID, b"id"));
        "set-sensitive" true "sn" |x| { user(x); x.a = x.obj("generic"); }, |x| set(x.s, x.a, &T::new().b(CKA_SENSITIVE, true).b(CKA_EXTRACTABLE, false));
        "set-big" true "s" |x| { user(x); x.a = x.obj("data"); }, |x| set(x.s, x.a, &T::new().d(CKA_VALUE, &big(7000)));
        "destroy-aes" true "sn" |x| { user(x); x.a = x.obj("aes"); }, |x| destroy(x.s, x.a);
        "destroy-cert" true "sn" |x| { user(x); x.a = x.obj("cert"); }, |x| destroy(x.s, x.a);
        "destroy-ec" true "sn" |x| { user(x); x.a = x.obj("ecpriv"); }, |x| destroy(x.s, x.a);
        "destroy-more" true "sn" |x| { user(x); x.a = x.obj("more2"); }, |x| destroy(x.s, x.a);
        "set-pin" true "sn" user, |x| set_pin(x.s, UP, UP2);
        "set-pin-public" true "sn" public, |x| set_pin(x.s, UP, UP2);
        "set-so-pin" true "s" so, |x| set_pin(x.s, SO, SO2);
        "init-pin" true "s" so, |x| init_pin(x.s, UP2);
        "hotp" true "s" |x| { user(x); x.a = x.obj("hotp"); ok(sign_init(x.s, &Mech::new(CKM_HOTP), x.a), "HOTP"); }, |x| sign(x.s, b"", Some(100)).rv;
        // calls that change no object
        "login" false "sn" public, |x| login(x.s, CKU_USER, UP);
        "login-so" false "s" public, |x| login(x.s, CKU_SO, SO);
        "logout" false "sn" user, |x| logout(x.s);
        "close-all" false "sn" user, |_| close_all(1);
        "open" false "sn" |_| (), |x| { match open(1, true) { Ok(h) => { x.s = h; 0 } Err(e) => e } };
        "find" false "sn" user, |x| match find(x.s, &T::new().ul(CKA_CLASS, CKO_SECRET_KEY)) { Ok(v) => if v.len() == 2 { 0 } else { 0xbad }, Err(e) => { c_final(x.s); e } };
        "get-value" false "sn" |x| { user(x); x.a = x.obj("generic"); }, |x| match get(x.s, x.a, CKA_VALUE) { Ok(v) => if v == GENV { 0 } else { 0xbad }, Err(e) => e };
        "get-size" false "s" |x| { user(x); x.a = x.obj("generic"); }, |x| { let mut n: CK_ULONG = 0; crate::c!(C_GetObjectSize, x.s, x.a, &mut n) };
        "sign" false "sn" |x| { user(x); x.a = x.obj("generic"); }, |x| { let r = sign_init(x.s, &Mech::new(CKM_SHA256_HMAC), x.a); if r == 0 { sign(x.s, b"abc", Some(100)).rv } else { r } };
        "encrypt-init" false "sn" |x| { user(x); x.a = x.obj("aes"); }, |x| { let r = encrypt_init(x.s, &Mech::new(CKM_AES_ECB), x.a); if r == 0 { Kd::Enc.null_init(x.s); } r };
        "wrap" false "sn" |x| { user(x); x.a = x.obj("aes"); x.b = x.obj("generic"); }, |x| wrap(x.s, &Mech::new(CKM_AES_KEY_WRAP_KWP), x.a, x.b, Some(100)).rv;
        "initialize" false "sn" |_| (), |x| { let q = finalize(); if q != 0 { return q; } initialize(&init_args(&x.dir)) };
    };
    // calls to be refused
    let bad = calls! {
        "login-wrong" true "s" public, |x| login(x.s, CKU_USER, BAD);
        "login-so-wrong" true "s" public, |x| login(x.s, CKU_SO, BAD);
        "login-wrong-again" true "s" |x| { public(x); for _ in 0..6 { login(x.s, CKU_USER, BAD); } }, |x| login(x.s, CKU_USER, BAD);
        "set-pin-wrong" true "s" user, |x| set_pin(x.s, BAD, UP2);
    };
    v.extend(bad.into_iter().map(|c| Call { rv: CKR_PIN_INCORRECT, ..c }));
    // after failed logins, a login changes the stored count
    v.extend(calls! {
        "login-after-wrong" true "s" |x| { public(x); for _ in 0..6 { login(x.s, CKU_USER, BAD); } }, |x| login(x.s, CKU_USER, UP);
    });
    v
}
fn c_final(s: H) {
    crate::c!(C_FindObjectsFinal, s);
}
/// prepare a call on a fresh copy of the token
pub fn prepare(tm: &Tmpl, dir: &Path, c: &Call) -> Cx {
    let q = QUIET.replace(true);
    tm.fresh(dir);
    let mut x = Cx { dir: dir.to_path_buf(), ..Cx::default() };
    (c.pre)(&mut x);
    QUIET.set(q);
    x
}
