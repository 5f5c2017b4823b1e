//! P20: always-authenticate keys need a fresh context-specific login for every use
use crate::api::*;
use crate::c;
use crate::bfs::*;
use crate::engine::*;
use crate::env::*;
use crate::keys::*;
use kryoptic_lib::pkcs11::*;
use std::path::PathBuf;

/// state of a sign or decrypt operation
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum St {
    None,
    /// with a key that needs no login
    Plain,
    /// waits for the login
    Req,
    /// login done
    Auth,
    /// waited for the login when the user logged out: must stay unusable
    Stale,
    /// was usable when the user logged out: may have ended or not
    Loose,
}
impl St {
    fn old(self) -> bool {
        matches!(self, St::Stale | St::Loose)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Se {
    /// sign, decrypt
    op: [St; 2],
    enc: bool,
    /// which of the two was initialised last with a key that needs the login
    pend: Option<usize>,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct M {
    se: Vec<Se>,
    full: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Init(usize, usize, bool),
    Ctx(usize, bool),
    One(usize, usize),
    SignUpdFin(usize),
    SignUpd(usize),
    SignEnc(usize),
    Query(usize, usize),
    Cancel(usize, usize),
    NullInit(usize, usize),
    EncInit(usize),
    EncCancel(usize),
    Unrel(usize, u8),
    UserLogin(usize),
    Relogin,
}
const UNREL: u8 = 11;
impl Model for M {
    type Op = Op;
    fn ops(&self) -> Vec<Op> {
        let mut v = vec![];
        for (i, s) in self.se.iter().enumerate() {
            for k in 0..2 {
                if i == 1 && k == 1 && !self.full {
                    continue;
                }
                if !s.op[k].old() {
                    v.push(Op::Init(i, k, true));
                    if i == 0 || self.full {
                        v.push(Op::Init(i, k, false));
                    }
                }
                if s.op[k] != St::Loose {
                    v.push(Op::One(i, k));
                }
                if s.op[k] != St::None && !s.op[k].old() {
                    v.push(Op::Query(i, k));
                }
                if s.op[k] != St::None {
                    v.push(Op::Cancel(i, k));
                    v.push(Op::NullInit(i, k));
                }
            }
            if s.op[0] != St::Loose {
                v.push(Op::SignUpdFin(i));
            }
            if !s.op[0].old() {
                v.push(Op::SignUpd(i));
            }
            if !s.op.iter().any(|x| x.old()) {
                v.push(Op::Ctx(i, true));
                v.push(Op::Ctx(i, false));
            }
            if self.se.len() == 1 || self.full {
                if s.enc {
                    if !s.op[0].old() {
                        v.push(Op::SignEnc(i));
                    }
                    v.push(Op::EncCancel(i));
                } else {
                    v.push(Op::EncInit(i));
                }
            }
            for k in 0..UNREL {
                v.push(Op::Unrel(i, k));
            }
            v.push(Op::UserLogin(i));
        }
        v.push(Op::Relogin);
        v
    }
    fn step(&self, op: &Op) -> (Exp, M) {
        let mut m = self.clone();
        let e = match *op {
            Op::Init(i, k, aa) => {
                if m.se[i].op[k] != St::None {
                    Exp::Rv(CKR_OPERATION_ACTIVE)
                } else {
                    m.se[i].op[k] = if aa { St::Req } else { St::Plain };
                    if aa {
                        m.se[i].pend = Some(k);
                    }
                    Exp::Ok
                }
            }
            Op::Ctx(i, good) => match m.se[i].pend {
                Some(k) if m.se[i].op[k] == St::Req => {
                    if good {
                        m.se[i].op[k] = St::Auth;
                        m.se[i].pend = None;
                        Exp::Ok
                    } else {
                        Exp::Rv(CKR_PIN_INCORRECT)
                    }
                }
                _ => Exp::Err,
            },
            Op::One(i, k) => m.usedop(i, k, true),
            Op::SignUpdFin(i) => m.usedop(i, 0, true),
            Op::SignUpd(i) => match m.se[i].op[0] {
                St::Plain | St::Auth => {
                    // the operation stays active, one-shot use of it is now refused: cancel it at once
                    m.se[i].op[0] = St::None;
                    m.fix(i);
                    Exp::Ok
                }
                St::Req => Exp::Rv(CKR_USER_NOT_LOGGED_IN),
                _ => Exp::Err,
            },
            Op::SignEnc(i) => match m.se[i].op[0] {
                St::Plain | St::Auth => {
                    m.se[i].op[0] = St::None;
                    m.fix(i);
                    Exp::Ok
                }
                _ => Exp::Err,
            },
            Op::Query(i, k) => match m.se[i].op[k] {
                St::Req => Exp::Any(vec![CKR_OK, CKR_USER_NOT_LOGGED_IN]),
                _ => Exp::Ok,
            },
            Op::Cancel(i, k) | Op::NullInit(i, k) => {
                let stale = m.se[i].op[k].old();
                m.se[i].op[k] = St::None;
                m.fix(i);
                if stale { Exp::Any(vec![CKR_OK, CKR_OPERATION_NOT_INITIALIZED]) } else { Exp::Ok }
            }
            Op::EncInit(i) => {
                m.se[i].enc = true;
                Exp::Ok
            }
            Op::EncCancel(i) => {
                m.se[i].enc = false;
                Exp::Ok
            }
            Op::Unrel(_, _) => Exp::Ok,
            Op::UserLogin(_) => Exp::Rv(CKR_USER_ALREADY_LOGGED_IN),
            Op::Relogin => {
                for s in &mut m.se {
                    for k in 0..2 {
                        s.op[k] = match s.op[k] {
                            St::None => St::None,
                            St::Req | St::Stale => St::Stale,
                            _ => St::Loose,
                        };
                    }
                    s.enc = false;
                    s.pend = None;
                }
                Exp::Ok
            }
        };
        (e, m)
    }
    fn dirty(&self, op: &Op) -> bool {
        // a stale operation may end when it is used, an update leaves partial input behind
        match *op {
            Op::One(i, k) => self.se[i].op[k] == St::Stale,
            Op::SignUpdFin(i) => self.se[i].op[0] == St::Stale,
            Op::Relogin => true,
            _ => false,
        }
    }
}
impl M {
    fn fix(&mut self, i: usize) {
        if let Some(k) = self.se[i].pend {
            if self.se[i].op[k] != St::Req {
                self.se[i].pend = None;
            }
        }
    }
    fn usedop(&mut self, i: usize, k: usize, ends: bool) -> Exp {
        match self.se[i].op[k] {
            St::None => Exp::Rv(CKR_OPERATION_NOT_INITIALIZED),
            St::Plain | St::Auth => {
                if ends {
                    self.se[i].op[k] = St::None;
                    self.fix(i);
                }
                Exp::Ok
            }
            St::Req => Exp::Rv(CKR_USER_NOT_LOGGED_IN),
            _ => Exp::Err,
        }
    }
}
const MSG: &[u8] = b"message to sign or to encrypt";
// the library stays initialised in a worker: the ciphertext is made once
thread_local!(static PREP: std::cell::RefCell<(bool, Vec<u8>)> = const { std::cell::RefCell::new((false, vec![])) });
struct S<'a> {
    dir: PathBuf,
    tm: &'a Tmpl,
    k: H,
    s: Vec<H>,
    /// sign/decrypt x needs login/plain
    key: [[H; 2]; 2],
    pubk: [H; 2],
    aes: H,
    ct: Vec<u8>,
}
fn smech() -> Mech {
    Mech::new(CKM_ECDSA_SHA256).named("ECDSA_SHA256")
}
fn dmech() -> Mech {
    Mech::new(CKM_RSA_PKCS).named("RSA_PKCS")
}
impl<'a> S<'a> {
    fn keys(&mut self) {
        let q = QUIET.replace(true);
        for (j, aa) in [true, false].iter().enumerate() {
            let f = |t: T| t.b(CKA_ALWAYS_AUTHENTICATE, *aa);
            self.key[0][j] = okr(create(self.k, &f(ec_priv(false, true))), "ec");
            self.key[1][j] = okr(create(self.k, &f(rsa_priv(false, true))), "rsa");
        }
        self.pubk = [
            okr(create(self.k, &ec_pub(false, false)), "ecpub"),
            okr(create(self.k, &rsa_pub(false, false)), "rsapub"),
        ];
        self.aes = okr(create(self.k, &aeskey(false, false, "k", &[7; 16])), "aes");
        QUIET.set(q);
        note("-- fresh session keys: EC sign and RSA decrypt keys, always-authenticate and plain");
    }
    fn one(&mut self, i: usize, k: usize) -> Rv {
        if k == 0 { sign(self.s[i], MSG, Some(100)).rv } else { decrypt(self.s[i], &self.ct.clone(), Some(256)).rv }
    }
}
impl<'a> Sys<M> for S<'a> {
    fn reset(&mut self) {
        if !PREP.with(|p| p.borrow().0) {
            self.tm.fresh(&self.dir);
            let s = user_session(1);
            let p = okr(create(s, &rsa_pub(false, false)), "rsapub");
            ok(encrypt_init(s, &dmech(), p), "encrypt");
            self.ct = encrypt(s, MSG, Some(256)).ok().unwrap();
            PREP.with(|p| *p.borrow_mut() = (true, self.ct.clone()));
        }
        PREP.with(|p| self.ct = p.borrow().1.clone());
        let q = QUIET.replace(true);
        close_all(1);
        self.k = user_session(1);
        self.s = (0..2).map(|_| okr(open(1, true), "open")).collect();
        QUIET.set(q);
        note(&format!("-- reset: user logged in, sessions {:?}, key holder {}", self.s, self.k));
        self.keys();
    }
    fn exec(&mut self, op: &Op, _m: &M) -> Rv {
        match *op {
            Op::Init(i, k, aa) => {
                let key = self.key[k][if aa { 0 } else { 1 }];
                if k == 0 { sign_init(self.s[i], &smech(), key) } else { decrypt_init(self.s[i], &dmech(), key) }
            }
            Op::Ctx(i, good) => login(self.s[i], CKU_CONTEXT_SPECIFIC, if good { UP } else { BAD }),
            Op::One(i, k) => self.one(i, k),
            Op::SignUpdFin(i) => {
                let s = self.s[i];
                match sign_update(s, MSG) {
                    0 => sign_final(s, Some(100)).rv,
                    e => e,
                }
            }
            Op::SignUpd(i) => {
                let s = self.s[i];
                let rv = sign_update(s, MSG);
                if rv == 0 {
                    return session_cancel(s, CKF_SIGN);
                }
                rv
            }
            Op::SignEnc(i) => {
                let s = self.s[i];
                let rv = sign_encrypt_update(s, &[5; 16], Some(32)).rv;
                if rv == 0 {
                    return session_cancel(s, CKF_SIGN);
                }
                // what is left of the encryption is not this property's concern
                if session_cancel(s, CKF_ENCRYPT) == 0 {
                    let m = Mech::bytes(CKM_AES_CBC, &[0; 16]);
                    ok(encrypt_init(s, &m, self.aes), "encrypt init");
                }
                rv
            }
            Op::Query(i, k) => {
                let s = self.s[i];
                if k == 0 { sign(s, MSG, None).rv } else { decrypt(s, &self.ct, None).rv }
            }
            Op::Cancel(i, k) => session_cancel(self.s[i], if k == 0 { CKF_SIGN } else { CKF_DECRYPT }),
            Op::NullInit(i, k) => {
                let s = self.s[i];
                let rv = if k == 0 {
                    c!(C_SignInit, s, std::ptr::null_mut(), 0)
                } else {
                    c!(C_DecryptInit, s, std::ptr::null_mut(), 0)
                };
                note(&format!("init with a null mechanism -> {}", rvs(rv)));
                rv
            }
            Op::EncInit(i) => encrypt_init(self.s[i], &Mech::bytes(CKM_AES_CBC, &[0; 16]), self.aes),
            Op::EncCancel(i) => session_cancel(self.s[i], CKF_ENCRYPT),
            Op::UserLogin(i) => login(self.s[i], CKU_USER, UP),
            Op::Unrel(i, k) => self.unrelated(i, k),
            Op::Relogin => {
                let rv = logout(self.k);
                if rv != 0 {
                    return rv;
                }
                let rv = login(self.k, CKU_USER, UP);
                if rv != 0 {
                    return rv;
                }
                let q = QUIET.replace(true);
                for h in self.pubk.iter().chain([&self.aes]) {
                    destroy(self.k, *h);
                }
                for s in &self.s {
                    session_cancel(*s, CKF_ENCRYPT);
                }
                QUIET.set(q);
                self.keys();
                0
            }
        }
    }
    fn probe(&mut self, _m: &M) -> Result<(), String> {
        Ok(())
    }
    fn deep(&mut self, m: &M) -> Result<bool, String> {
        let mut did = false;
        for i in 0..m.se.len() {
            for k in 0..2 {
                let st = m.se[i].op[k];
                if st == St::None || st == St::Loose {
                    continue;
                }
                did = true;
                let rv = self.one(i, k);
                let good = match st {
                    St::Req | St::Stale => rv != 0,
                    _ => rv == 0,
                };
                if !good {
                    return Err(format!("using operation {} of session {} in state {:?} returned {}", k, i, st, rvs(rv)));
                }
                if rv == 0 {
                    // one login, one operation
                    let rv = self.one(i, k);
                    if rv == 0 {
                        return Err(format!("operation {} of session {} could be used twice", k, i));
                    }
                }
            }
        }
        Ok(did)
    }
}
impl<'a> S<'a> {
    fn unrelated(&mut self, i: usize, k: u8) -> Rv {
        let s = self.s[i];
        let sha = Mech::new(CKM_SHA256).named("SHA256");
        let want = |rv: Rv, e: Rv| if rv == e { 0 } else if rv == 0 { CKR_FUNCTION_FAILED } else { rv };
        match k {
            0 => {
                let rv = digest_init(s, &sha);
                if rv != 0 { rv } else { digest(s, MSG, Some(32)).rv }
            }
            1 => rvr(&find(s, &T::new())),
            2 => {
                let rv = verify_init(s, &smech(), self.pubk[0]);
                if rv != 0 { rv } else { session_cancel(s, CKF_VERIFY) }
            }
            3 => {
                // nothing can be saved with this OpenSSL, nor can anything made up be restored
                get_opstate(s, Some(4096));
                if set_opstate(s, &[0x30; 64], 0, 0) == 0 { CKR_FUNCTION_FAILED } else { 0 }
            }
            4 => match open(1, false) {
                Ok(h) => close(h),
                Err(e) => e,
            },
            // failed initialisations
            5 => want(decrypt_init(s, &Mech::bytes(CKM_AES_CBC, &[0; 16]), 0x7777), CKR_KEY_HANDLE_INVALID)
                .min(1)
                .saturating_sub(1),
            6 => {
                digest_init(s, &Mech::new(CKM_AES_CBC));
                0
            }
            7 => {
                let sig = vec![1u8; 64];
                let rv = vsig_init(s, &smech(), self.pubk[0], &sig);
                if rv != 0 { rv } else { vsig(s, MSG).min(0) }
            }
            8 => {
                let h = match create(s, &data(false, false, "x", b"y")) {
                    Ok(h) => h,
                    Err(e) => return e,
                };
                destroy(s, h)
            }
            9 => {
                let g = Mech::new(CKM_AES_GCM);
                let rv = msg_encrypt_init(s, &g, self.aes);
                if rv != 0 { rv } else { c!(C_MessageEncryptFinal, s) }
            }
            _ => {
                // digest left active, then cancelled
                let rv = digest_init(s, &sha);
                if rv != 0 {
                    return rv;
                }
                digest_update(s, MSG);
                session_cancel(s, CKF_DIGEST)
            }
        }
    }
}
pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    let t = o.tier;
    let tm = Tmpl::std(sc, Db::Sqlite);
    let e = Se { op: [St::None; 2], enc: false, pend: None };
    let mut roots: Vec<(&str, M, usize, usize)> = vec![("two-sessions", M { se: vec![e.clone(), e.clone()], full: false }, 0, 30_000)];
    roots.push(("one-session-h1", M { se: vec![e.clone()], full: false }, 1, 30_000));
    if t.thorough() {
        roots.push(("two-sessions-full", M { se: vec![e.clone(), e.clone()], full: true }, 0, 60_000));
        roots.push(("one-session-h2", M { se: vec![e.clone()], full: false }, 2, 60_000));
    }
    let gs: Vec<_> = roots.iter().map(|(n, m, h, mx)| (*n, m.clone(), explore(m.clone(), *h, 14, *mx))).collect();
    let mut extra = vec![];
    for (n, _, g) in &gs {
        extra.push((
            format!("model_{}", n),
            format!("{{\"nodes\":{},\"edges\":{},\"depth\":{},\"closed\":{}}}", g.nodes.len(), g.edges, g.depth, g.closed),
        ));
    }
    let tr = &tm;
    let stages = gs
        .iter()
        .map(|(n, m, g)| {
            Stage::new(n, g.nodes.len(), move |w: &mut W, i| {
                let mut s = S {
                    dir: w.dir.clone(),
                    tm: tr,
                    k: 0,
                    s: vec![],
                    key: [[0; 2]; 2],
                    pubk: [0; 2],
                    aes: 0,
                    ct: vec![],
                };
                check_node(w, g, i, m, &mut s, n);
            })
        })
        .collect();
    crate::engine::run(
        Check {
            prop: "P20",
            level: "model_checking",
            rule: "explicit-state BFS of a model of sign/decrypt operations with always-authenticate and plain keys in two sessions, right and wrong context logins, one-shot, multi-part and dual use, size queries, cancels and 11 unrelated operations; every transition of every reachable state is replayed on the real library and every active operation is then used twice",
            assumptions: vec!["what remains of an operation after logout is not specified, only that it gives no result".into()],
            extra,
        },
        sc,
        o,
        stages,
    )
}
