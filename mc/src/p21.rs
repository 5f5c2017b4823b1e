//! P21: token initialisation wipes everything and needs the SO PIN
use crate::api::*;
use crate::bfs::*;
use crate::engine::*;
use crate::env::*;
use crate::keys::*;
use crate::p01::{Lg, SO2, UP2};
use kryoptic_lib::pkcs11::*;
use std::collections::BTreeMap;
use std::path::PathBuf;

const PINS: [&str; 2] = [SO, SO2];
const UPS: [&str; 2] = [UP, UP2];
const LABELS: [&str; 2] = ["first", "second token, 32 characters long"];

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct M {
    init: bool,
    so: u8,
    up: Option<u8>,
    label: u8,
    /// a public, a private token object, a session object exist
    pb: bool,
    pv: bool,
    se: bool,
    /// sessions: none, read-write, read-only
    open: u8,
    login: Lg,
    bad: u8,
    nss: bool,
    maxbad: u8,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Pin {
    So(u8),
    User,
    Empty,
    Prefix,
    Longer,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Op {
    InitTok(Pin, u8),
    Open(bool),
    CloseAll,
    User,
    So,
    Logout,
    InitPin(u8),
    SetSoPin,
    SetUserPin,
    Pub,
    Priv,
    Sess,
    Other,
    Restart,
}
impl M {
    fn wiped(&self) -> M {
        M { init: true, up: None, pb: false, pv: false, se: false, open: 0, login: Lg::None, bad: 0, ..self.clone() }
    }
}
impl Model for M {
    type Op = Op;
    fn ops(&self) -> Vec<Op> {
        let mut v = vec![];
        for l in 0..2 {
            v.push(Op::InitTok(Pin::So(self.so), l));
        }
        if !self.init {
            v.push(Op::InitTok(Pin::So(1 - self.so), 0));
        } else if self.bad < self.maxbad {
            for p in [Pin::So(1 - self.so), Pin::User, Pin::Empty, Pin::Prefix, Pin::Longer] {
                v.push(Op::InitTok(p, 1 - self.label));
            }
        }
        v.push(Op::Other);
        v.push(Op::Restart);
        if !self.init {
            return v;
        }
        if self.open == 0 {
            v.push(Op::Open(true));
            v.push(Op::Open(false));
            return v;
        }
        v.push(Op::CloseAll);
        if self.login == Lg::None {
            if self.up.is_some() || !self.nss {
                v.push(Op::User);
            }
            if self.open == 1 && !self.nss {
                v.push(Op::So);
            }
        } else {
            v.push(Op::Logout);
        }
        if self.open == 1 {
            if self.login == Lg::So {
                v.extend([Op::InitPin(0), Op::InitPin(1), Op::SetSoPin]);
            }
            if self.login == Lg::User {
                v.push(Op::SetUserPin);
            }
            if !self.pb && self.login == Lg::User {
                v.push(Op::Pub);
            }
            if !self.pv && self.login == Lg::User {
                v.push(Op::Priv);
            }
        }
        if !self.se {
            v.push(Op::Sess);
        }
        v
    }
    fn step(&self, op: &Op) -> (Exp, M) {
        let mut n = self.clone();
        let e = match op {
            Op::InitTok(p, l) => {
                if self.open != 0 {
                    Exp::Rv(CKR_SESSION_EXISTS)
                } else if !self.init {
                    n = self.wiped();
                    if let Pin::So(k) = p {
                        n.so = *k;
                    }
                    n.label = *l;
                    Exp::Ok
                } else if *p == Pin::So(self.so) {
                    n = self.wiped();
                    n.label = *l;
                    Exp::Ok
                } else {
                    n.bad += 1;
                    Exp::Any(vec![CKR_PIN_INCORRECT, CKR_PIN_INVALID, CKR_PIN_LEN_RANGE, CKR_ARGUMENTS_BAD])
                }
            }
            Op::Open(rw) => {
                n.open = if *rw { 1 } else { 2 };
                Exp::Ok
            }
            Op::CloseAll | Op::Restart => {
                n.open = 0;
                n.login = Lg::None;
                n.se = false;
                Exp::Ok
            }
            Op::User => {
                if self.up.is_some() {
                    n.login = Lg::User;
                    Exp::Ok
                } else {
                    Exp::Rv(CKR_USER_PIN_NOT_INITIALIZED)
                }
            }
            Op::So => {
                n.login = Lg::So;
                n.bad = 0;
                Exp::Ok
            }
            Op::Logout => {
                n.login = Lg::None;
                Exp::Ok
            }
            Op::InitPin(k) => {
                n.up = Some(*k);
                Exp::Ok
            }
            Op::SetSoPin => {
                n.so ^= 1;
                n.bad = 0;
                Exp::Ok
            }
            Op::SetUserPin => {
                n.up = n.up.map(|k| 1 - k);
                Exp::Ok
            }
            Op::Pub => {
                n.pb = true;
                Exp::Ok
            }
            Op::Priv => {
                n.pv = true;
                Exp::Ok
            }
            Op::Sess => {
                n.se = true;
                Exp::Ok
            }
            Op::Other => Exp::Ok,
        };
        (e, n)
    }
}
struct S<'a> {
    dir: PathBuf,
    tm: &'a Tmpl,
    nss: bool,
    s: H,
    /// handles given out and what they stood for, since the last initialisation and before it
    old: BTreeMap<H, u8>,
    serial: u8,
}
impl<'a> S<'a> {
    fn obj(&mut self, token: bool, private: bool, label: &str) -> Rv {
        // the value tells the objects of one generation from those of another
        self.serial += 1;
        let t = if token && self.nss {
            if private {
                seckey(CKK_AES, token, private, label, &[self.serial; 16])
            } else {
                rsa_pub(token, private).set(CKA_LABEL, label.as_bytes())
            }
        } else {
            data(token, private, label, &[self.serial; 16])
        };
        match create(self.s, &t) {
            Ok(h) => {
                self.old.insert(h, self.serial);
                0
            }
            Err(e) => e,
        }
    }
}
impl<'a> Sys<M> for S<'a> {
    fn reset(&mut self) {
        self.tm.fresh(&self.dir);
        self.s = 0;
        self.old.clear();
        self.serial = 0;
    }
    fn exec(&mut self, op: &Op, m: &M) -> Rv {
        match op {
            Op::InitTok(p, l) => {
                let so = PINS[m.so as usize];
                let pin: String = match p {
                    Pin::So(k) => PINS[*k as usize].into(),
                    Pin::User => UPS[m.up.unwrap_or(0) as usize].into(),
                    Pin::Empty => "".into(),
                    Pin::Prefix => so[..so.len() - 1].into(),
                    Pin::Longer => format!("{}1", so),
                };
                init_token(1, &pin, LABELS[*l as usize])
            }
            Op::Open(rw) => match open(1, *rw) {
                Ok(h) => {
                    self.s = h;
                    0
                }
                Err(e) => e,
            },
            Op::CloseAll => close_all(1),
            Op::User => login(self.s, CKU_USER, UPS[m.up.unwrap_or(0) as usize]),
            Op::So => login(self.s, CKU_SO, PINS[m.so as usize]),
            Op::Logout => logout(self.s),
            Op::InitPin(k) => init_pin(self.s, UPS[*k as usize]),
            Op::SetSoPin => set_pin(self.s, PINS[m.so as usize], PINS[1 - m.so as usize]),
            Op::SetUserPin => {
                let k = m.up.unwrap_or(0) as usize;
                set_pin(self.s, UPS[k], UPS[1 - k])
            }
            Op::Pub => self.obj(true, false, "public"),
            Op::Priv => self.obj(true, true, "private"),
            Op::Sess => self.obj(false, false, "session"),
            // a session and an object of another token must not matter
            Op::Other => {
                let s = match open(2, true) {
                    Ok(s) => s,
                    Err(e) => return e,
                };
                let r = create(s, &data(false, false, "other", b"other"));
                if m.open == 0 && m.init {
                    // refused or not, what it does must not depend on this session
                    let rv = init_token(1, "no such pin", "label");
                    if rv == CKR_SESSION_EXISTS || rv == CKR_OK {
                        return rv | 0x100000;
                    }
                    // one more failure: make it up
                    let x = okr(open(1, true), "open");
                    if !m.nss {
                        ok(login(x, CKU_SO, PINS[m.so as usize]), "so login");
                    }
                    ok(close(x), "close");
                }
                match r {
                    Ok(_) => close(s),
                    Err(e) => e,
                }
            }
            Op::Restart => {
                self.s = 0;
                self.old.clear();
                restart(&self.dir)
            }
        }
    }
    fn probe(&mut self, m: &M) -> Result<(), String> {
        let i = token_info(1).map_err(rvs)?;
        let bit = |b: CK_FLAGS| i.flags & b != 0;
        if bit(CKF_TOKEN_INITIALIZED) != m.init {
            return Err(format!("CKF_TOKEN_INITIALIZED is {}", bit(CKF_TOKEN_INITIALIZED)));
        }
        if !m.init {
            return match open(1, true) {
                Ok(s) => {
                    // the library lets one open a session with a token that is not initialised
                    close(s);
                    Ok(())
                }
                Err(_) => Ok(()),
            };
        }
        let mut l = LABELS[m.label as usize].as_bytes().to_vec();
        l.resize(32, b' ');
        if m.label < 2 && i.label[..] != l[..] && !m.nss {
            return Err(format!("label {:?}", String::from_utf8_lossy(&i.label)));
        }
        if !m.nss && bit(CKF_USER_PIN_INITIALIZED) != m.up.is_some() {
            return Err(format!("CKF_USER_PIN_INITIALIZED is {} with user PIN {:?}", bit(CKF_USER_PIN_INITIALIZED), m.up));
        }
        if !m.nss && bit(CKF_SO_PIN_LOCKED) {
            return Err("the SO PIN is locked".into());
        }
        // what can be seen
        let t = if m.open == 0 { okr(open(1, false), "open") } else { self.s };
        let mut seen = BTreeMap::new();
        let r = find(t, &T::new());
        if let Ok(hs) = &r {
            for h in hs {
                if let Ok(b) = get(t, *h, CKA_LABEL) {
                    *seen.entry(String::from_utf8_lossy(&b).into_owned()).or_insert(0) += 1;
                }
            }
        }
        if m.open == 0 {
            ok(close(t), "close");
        }
        if let Err(e) = r {
            return Err(format!("search {}", rvs(e)));
        }
        seen.retain(|k, _| ["public", "private", "session"].contains(&k.as_str()));
        let mut want = BTreeMap::new();
        for (b, n) in [(m.pb, "public"), (m.pv && m.login == Lg::User, "private"), (m.se, "session")] {
            if b {
                want.insert(n.to_string(), 1);
            }
        }
        if seen != want {
            return Err(format!("objects {:?} expected {:?}", seen, want));
        }
        Ok(())
    }
    /// which PIN works; what do handles of before stand for; is anything left
    fn deep(&mut self, m: &M) -> Result<bool, String> {
        if !m.init {
            return Ok(false);
        }
        for again in [false, true] {
            if again {
                ok(restart(&self.dir), "restart");
            } else if m.open != 0 {
                ok(close_all(1), "close all");
            }
            let s = okr(open(1, true), "open");
            // everybody's objects are gone, or are still as they were
            for (k, u) in UPS.iter().enumerate() {
                let rv = login(s, CKU_USER, u);
                let want = match m.up {
                    None => CKR_USER_PIN_NOT_INITIALIZED,
                    Some(x) if x as usize == k => CKR_OK,
                    _ => CKR_PIN_INCORRECT,
                };
                if rv != want {
                    return Err(format!("login with user PIN {} returned {}, expected {} (restarted: {})", k, rvs(rv), rvs(want), again));
                }
                if rv == CKR_OK {
                    let n = find(s, &T::new().s(CKA_LABEL, "private")).map_err(rvs)?.len();
                    if n != m.pv as usize {
                        return Err(format!("{} private objects, expected {}", n, m.pv as usize));
                    }
                    if m.pv && !m.nss {
                        let h = find(s, &T::new().s(CKA_LABEL, "private")).map_err(rvs)?[0];
                        let v = get(s, h, CKA_VALUE).map_err(rvs)?;
                        if v.len() != 16 || v.iter().any(|b| *b != v[0]) {
                            return Err(format!("the private object's value is {:?}", v));
                        }
                    }
                    ok(logout(s), "logout");
                }
            }
            if !m.nss {
                for (k, p) in PINS.iter().enumerate() {
                    let rv = login(s, CKU_SO, p);
                    let want = if m.so as usize == k { CKR_OK } else { CKR_PIN_INCORRECT };
                    if rv != want {
                        return Err(format!("login with SO PIN {} returned {}, expected {} (restarted: {})", k, rvs(rv), rvs(want), again));
                    }
                    if rv == CKR_OK {
                        if m.up.is_none() && again {
                            // the new user sees nothing of the old one
                            ok(init_pin(s, UP2), "init pin");
                            ok(logout(s), "logout");
                            ok(login(s, CKU_USER, UP2), "login");
                            let n = find(s, &T::new()).map_err(rvs)?;
                            let l: Vec<String> = n.iter().filter_map(|h| get(s, *h, CKA_LABEL).ok()).map(|b| String::from_utf8_lossy(&b).into_owned()).collect();
                            for x in l.iter().filter(|x| ["public", "private", "session"].contains(&x.as_str())) {
                                if !(x == "public" && m.pb || x == "private" && m.pv) {
                                    return Err(format!("an object {:?} appears once there is a user PIN again", x));
                                }
                            }
                        }
                        ok(logout(s), "logout");
                    }
                }
            }
            // handles of before the initialisation
            if !again {
                for (h, n) in &self.old {
                    if let Ok(v) = get(s, *h, CKA_VALUE) {
                        if v == [*n; 16] && !m.pb && !m.pv {
                            return Err(format!("handle {} still gives the object of before", h));
                        }
                    }
                }
            }
            ok(close(s), "close");
        }
        Ok(true)
    }
}

pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    let th = o.tier.thorough();
    let mk = |db: Db, n: &str| {
        Tmpl::make(sc, &format!("p21-{}", n), &[(1, db), (2, Db::Sqlite)], || {
            ok(init_token(2, SO, "other"), "init");
        })
    };
    let (tu, tn) = (mk(Db::Sqlite, "sqlite"), mk(Db::Nss, "nss"));
    let init = |nss: bool| M {
        init: false,
        so: 0,
        up: None,
        label: 0,
        pb: false,
        pv: false,
        se: false,
        open: 0,
        login: Lg::None,
        bad: 0,
        nss,
        maxbad: if th { 2 } else { 1 },
    };
    let g = explore(init(false), 0, 60, 60000);
    let extra = vec![("model_sqlite".to_string(), format!("{{\"nodes\":{},\"edges\":{},\"closed\":{}}}", g.nodes.len(), g.edges, g.closed))];
    let (gr, tr) = (&g, &tu);
    let m0 = init(false);
    let mr = &m0;
    let mut stages = vec![];
    stages.push(Stage::new("sqlite", g.nodes.len(), move |w, i| {
        let mut s = S { dir: w.dir.clone(), tm: tr, nss: false, s: 0, old: BTreeMap::new(), serial: 0 };
        check_node(w, gr, i, mr, &mut s, "sqlite");
    }));
    // NSS: there is no SO PIN once the user has one
    let tnr = &tn;
    const PREP: usize = 4;
    const PN: [&str; 6] = [SO, SO2, UP, UP2, "", "x"];
    stages.push(Stage::new("nss", PREP * PN.len() * 2, move |w, i| {
        let (prep, pin, rest) = (i % PREP, PN[i / PREP % PN.len()], i / PREP / PN.len() == 1);
        let key = format!("nss/{}/{:?}/{}", ["new", "initialised", "user PIN", "populated"][prep], pin, rest);
        w.begin(&key);
        w.eval();
        tnr.fresh(&w.dir);
        if prep > 0 {
            ok(init_token(1, SO, "before"), "init");
        }
        if prep > 1 {
            let s = okr(open(1, true), "open");
            ok(login(s, CKU_SO, SO), "so");
            ok(init_pin(s, UP), "pin");
            ok(logout(s), "logout");
            if prep > 2 {
                ok(login(s, CKU_USER, UP), "user");
                okr(create(s, &seckey(CKK_AES, true, true, "private", &[7; 16])), "key");
                okr(create(s, &rsa_pub(true, false)), "key");
            }
            // with a session open, never
            let rv = init_token(1, pin, "again");
            if rv != CKR_SESSION_EXISTS {
                w.viol(&format!("{}/session", key), &format!("with a session open C_InitToken returned {}", rvs(rv)));
            }
            ok(close_all(1), "close all");
        }
        if rest {
            ok(restart(&w.dir), "restart");
        }
        let rv = init_token(1, pin, "again");
        if prep > 1 && rv == CKR_OK && pin != SO {
            w.viol(&format!("{}/accepted", key), "the token is initialised again without the SO PIN");
        }
        let kept = rv != CKR_OK;
        for again in [false, true] {
            if again {
                ok(restart(&w.dir), "restart");
            }
            let s = okr(open(1, true), "open");
            let f = token_info(1).map(|i| i.flags).unwrap_or(0);
            let upin = f & CKF_USER_PIN_INITIALIZED != 0;
            if upin != (kept && prep > 1) {
                w.viol(&format!("{}/flag/{}", key, again), &format!("C_InitToken returned {}; CKF_USER_PIN_INITIALIZED is {}", rvs(rv), upin));
            }
            if prep > 0 || !kept {
                let li = login(s, CKU_USER, UP);
                if (li == CKR_OK) != (kept && prep > 1) {
                    w.viol(&format!("{}/login/{}", key, again), &format!("C_InitToken returned {}; then a login with the user PIN of before {}", rvs(rv), rvs(li)));
                }
                let n = [T::new().s(CKA_LABEL, "private"), rsa_pub(true, false)].iter().map(|t| find(s, t).map(|v| v.len()).unwrap_or(99)).collect::<Vec<_>>();
                let want = if kept && prep == 3 { vec![1, 1] } else { vec![0, 0] };
                if n != want {
                    w.viol(&format!("{}/objects/{}", key, again), &format!("C_InitToken returned {}; then {:?} private and public objects, expected {:?}", rvs(rv), n, want));
                }
            }
            ok(close_all(1), "close all");
        }
    }));
    crate::engine::run(
        Check {
            prop: "P21",
            level: "model_checking",
            rule: "explicit-state BFS of the token's life (not initialised / initialised, SO and user PIN values, label, public, private and session objects, sessions, logins, failed attempts, restarts, a second token); every transition is replayed on the real library; after it every PIN that was ever used is tried, objects and old handles are looked for, and so again after a restart",
            assumptions: vec!["two SO PINs, two user PINs, two labels; five kinds of wrong PIN".into()],
            extra,
        },
        sc,
        o,
        stages,
    )
}
