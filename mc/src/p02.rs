//! P02: PIN authentication and the attempt limit
use crate::api::*;
use crate::bfs::*;
use crate::engine::*;
use crate::env::*;
use crate::keys::*;
use crate::p01::{Lg, SO2, UP2};
use kryoptic_lib::pkcs11::*;
use std::path::PathBuf;

const MAX: u8 = 10;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct M {
    login: Lg,
    up: Option<u8>,
    sp: u8,
    uf: u8,
    sf: u8,
    /// a read-only session is open as well
    ro: bool,
    nss: bool,
    /// (user failures, SO failures) may both pass this only if thorough
    both: u8,
    toggles: bool,
}
/// ways to be wrong
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Wr {
    Other,
    Prefix,
    Longer,
    Empty,
    Case,
    Swap,
}
const WR: [Wr; 6] = [Wr::Other, Wr::Prefix, Wr::Longer, Wr::Empty, Wr::Case, Wr::Swap];
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Op {
    User(bool, Option<Wr>),
    So(Option<Wr>),
    /// context specific login for a pending always-authenticate operation
    Ctx(Option<Wr>),
    Logout,
    SetPin(Option<Wr>),
    SetPinRo,
    InitPin(u8),
    InitTokBad,
    Ro(bool),
    CloseAll,
    Restart,
}
fn up(k: u8) -> &'static str {
    if k == 0 { UP } else { UP2 }
}
fn sp(k: u8) -> &'static str {
    if k == 0 { SO } else { SO2 }
}
fn wrong(good: &str, other: &str, third: &str, w: Wr) -> String {
    match w {
        Wr::Other => other.into(),
        Wr::Prefix => good[..good.len() - 1].into(),
        Wr::Longer => format!("{}1", good),
        Wr::Empty => "".into(),
        Wr::Case => {
            let mut b = good.as_bytes().to_vec();
            b[0] ^= 0x80;
            // not UTF-8 any more; pass it as is
            unsafe { String::from_utf8_unchecked(b) }
        }
        Wr::Swap => third.into(),
    }
}
fn edge(f: u8) -> bool {
    matches!(f, 0 | 1 | 9 | 10)
}
impl M {
    fn ufail(&mut self) -> Exp {
        if self.nss {
            return Exp::Rv(CKR_PIN_INCORRECT);
        }
        self.uf = (self.uf + 1).min(MAX);
        if self.uf == MAX { Exp::Any(vec![CKR_PIN_INCORRECT, CKR_PIN_LOCKED]) } else { Exp::Rv(CKR_PIN_INCORRECT) }
    }
    fn sfail(&mut self) -> Exp {
        self.sf = (self.sf + 1).min(MAX);
        if self.sf == MAX { Exp::Any(vec![CKR_PIN_INCORRECT, CKR_PIN_LOCKED]) } else { Exp::Rv(CKR_PIN_INCORRECT) }
    }
}
impl Model for M {
    type Op = Op;
    fn ops(&self) -> Vec<Op> {
        let mut v = vec![];
        let umay = self.uf < self.both || self.sf <= self.both || self.uf == MAX;
        let smay = !self.nss && (self.sf < self.both || self.uf <= self.both || self.sf == MAX);
        for i in [false, true] {
            if i && !self.ro {
                continue;
            }
            v.push(Op::User(i, None));
            if umay {
                v.extend(WR.iter().filter(|w| **w == Wr::Other || (!i && edge(self.uf))).map(|w| Op::User(i, Some(*w))));
            }
        }
        if !self.nss {
            v.push(Op::So(None));
        }
        if smay {
            v.extend(WR.iter().filter(|w| **w == Wr::Other || edge(self.sf)).map(|w| Op::So(Some(*w))));
            v.push(Op::InitTokBad);
        }
        v.push(Op::SetPinRo);
        if self.toggles && (!self.nss || self.login == Lg::User) {
            v.push(Op::SetPin(None));
        }
        let may = if self.login == Lg::So { smay } else { umay };
        if may && !(self.nss && self.login == Lg::None) {
            v.extend(WR.iter().filter(|w| **w == Wr::Other || edge(self.uf)).map(|w| Op::SetPin(Some(*w))));
        }
        if self.login == Lg::User && !self.nss {
            v.push(Op::Ctx(None));
            if umay {
                v.extend([Wr::Other, Wr::Longer].iter().map(|w| Op::Ctx(Some(*w))));
            }
        }
        if self.login != Lg::None {
            v.push(Op::Logout);
        }
        if !self.nss {
            v.push(Op::InitPin(0));
            if self.toggles {
                v.push(Op::InitPin(1));
            }
        }
        if self.login != Lg::So || self.ro {
            v.push(Op::Ro(!self.ro));
        }
        v.push(Op::CloseAll);
        v.push(Op::Restart);
        v
    }
    fn step(&self, op: &Op) -> (Exp, M) {
        let mut n = self.clone();
        let e = match op {
            Op::User(_, w) => match (self.login, self.up) {
                (Lg::User, _) => Exp::Rv(CKR_USER_ALREADY_LOGGED_IN),
                (Lg::So, _) => Exp::Rv(CKR_USER_ANOTHER_ALREADY_LOGGED_IN),
                (_, None) => Exp::Rv(CKR_USER_PIN_NOT_INITIALIZED),
                _ if self.uf == MAX => Exp::Rv(CKR_PIN_LOCKED),
                _ if w.is_some() => n.ufail(),
                _ => {
                    n.uf = 0;
                    n.login = Lg::User;
                    Exp::Ok
                }
            },
            Op::So(w) => {
                if self.ro {
                    Exp::Err
                } else if self.login != Lg::None {
                    Exp::Err
                } else if self.sf == MAX {
                    Exp::Rv(CKR_PIN_LOCKED)
                } else if w.is_some() {
                    n.sfail()
                } else {
                    n.sf = 0;
                    n.login = Lg::So;
                    Exp::Ok
                }
            }
            Op::InitTokBad => {
                // needs all sessions closed: the harness does so
                n.ro = false;
                n.login = Lg::None;
                if self.sf == MAX { Exp::Any(vec![CKR_PIN_LOCKED, CKR_PIN_INCORRECT]) } else { n.sfail() }
            }
            Op::Ctx(w) => {
                if self.uf == MAX {
                    // a locked PIN ends the login
                    n.login = Lg::None;
                    Exp::Rv(CKR_PIN_LOCKED)
                } else if w.is_some() {
                    let e = n.ufail();
                    if n.uf == MAX {
                        n.login = Lg::None;
                    }
                    e
                } else {
                    n.uf = 0;
                    Exp::Ok
                }
            }
            Op::Logout => {
                n.login = Lg::None;
                Exp::Ok
            }
            Op::SetPin(w) => {
                if self.login == Lg::So {
                    if self.sf == MAX {
                        Exp::Err
                    } else {
                        match w {
                            Some(Wr::Empty) => Exp::Err,
                            Some(_) => n.sfail(),
                            None => {
                                n.sf = 0;
                                n.sp ^= 1;
                                Exp::Ok
                            }
                        }
                    }
                } else {
                    match (self.up, w) {
                        (_, Some(Wr::Empty)) => Exp::Err,
                        (None, _) => Exp::Err,
                        _ if self.uf == MAX => Exp::Rv(CKR_PIN_LOCKED),
                        (_, Some(_)) => n.ufail(),
                        (Some(k), None) => {
                            n.uf = 0;
                            n.up = Some(1 - k);
                            Exp::Ok
                        }
                    }
                }
            }
            Op::SetPinRo => Exp::Err,
            Op::InitPin(k) => {
                if self.login == Lg::So {
                    n.up = Some(*k);
                    n.uf = 0;
                    Exp::Ok
                } else {
                    Exp::Rv(CKR_USER_NOT_LOGGED_IN)
                }
            }
            Op::Ro(b) => {
                n.ro = *b;
                Exp::Ok
            }
            Op::CloseAll | Op::Restart => {
                n.ro = false;
                n.login = Lg::None;
                Exp::Ok
            }
        };
        (e, n)
    }
}
struct S<'a> {
    dir: PathBuf,
    tm: &'a Tmpl,
    s: H,
    r: H,
}
impl<'a> S<'a> {
    fn upin(&self, m: &M, w: &Option<Wr>) -> String {
        let k = m.up.unwrap_or(0);
        match w {
            None => up(k).into(),
            Some(w) => wrong(up(k), up(1 - k), sp(m.sp), *w),
        }
    }
    fn spin(&self, m: &M, w: &Option<Wr>) -> String {
        match w {
            None => sp(m.sp).into(),
            Some(w) => wrong(sp(m.sp), sp(1 - m.sp), up(m.up.unwrap_or(0)), *w),
        }
    }
}
impl<'a> Sys<M> for S<'a> {
    fn reset(&mut self) {
        self.tm.fresh(&self.dir);
        self.s = okr(open(1, true), "open");
    }
    fn exec(&mut self, op: &Op, m: &M) -> Rv {
        match op {
            Op::User(ro, w) => login(if *ro { self.r } else { self.s }, CKU_USER, &self.upin(m, w)),
            Op::So(w) => login(self.s, CKU_SO, &self.spin(m, w)),
            Op::Ctx(w) => {
                // the key is looked up each time: its handle changes over restarts
                let k = match find(self.s, &T::new().s(CKA_LABEL, "aa").ul(CKA_CLASS, CKO_PRIVATE_KEY)) {
                    Ok(v) if v.len() == 1 => v[0],
                    Ok(_) => okr(create(self.s, &ec_priv(false, true).set(CKA_LABEL, b"aa").setb(CKA_ALWAYS_AUTHENTICATE, true)), "key"),
                    r => panic!("harness: always-authenticate key: {:?}", r),
                };
                let rv = sign_init(self.s, &Mech::new(CKM_ECDSA), k);
                if rv != CKR_OK {
                    return rv;
                }
                let rv = login(self.s, CKU_CONTEXT_SPECIFIC, &self.upin(m, w));
                session_cancel(self.s, CKF_SIGN);
                rv
            }
            Op::Logout => logout(self.s),
            Op::SetPin(w) => {
                let (old, new) = if m.login == Lg::So {
                    (self.spin(m, w), sp(1 - m.sp))
                } else {
                    (self.upin(m, w), up(1 - m.up.unwrap_or(0)))
                };
                set_pin(self.s, &old, new)
            }
            Op::SetPinRo => {
                if m.login == Lg::So {
                    // no read-only session can exist; an empty new PIN must not do either
                    return if m.ro { 0 } else { set_pin(self.s, sp(m.sp), "") };
                }
                let r = if m.ro { self.r } else { okr(open(1, false), "open") };
                let rv = set_pin(r, &self.upin(m, &None), up(1 - m.up.unwrap_or(0)));
                if !m.ro {
                    ok(close(r), "close");
                }
                rv
            }
            Op::InitPin(k) => init_pin(self.s, up(*k)),
            Op::InitTokBad => {
                ok(close_all(1), "close all");
                let rv = init_token(1, sp(1 - m.sp), "again");
                self.s = okr(open(1, true), "open");
                rv
            }
            Op::Ro(true) => match open(1, false) {
                Ok(h) => {
                    self.r = h;
                    0
                }
                Err(e) => e,
            },
            Op::Ro(false) => close(self.r),
            Op::CloseAll => {
                let rv = close_all(1);
                self.s = okr(open(1, true), "open");
                rv
            }
            Op::Restart => {
                let rv = restart(&self.dir);
                self.s = okr(open(1, true), "open");
                rv
            }
        }
    }
    fn probe(&mut self, m: &M) -> Result<(), String> {
        let inf = session_info(self.s).map_err(rvs)?;
        let st = match m.login {
            Lg::None => CKS_RW_PUBLIC_SESSION,
            Lg::User => CKS_RW_USER_FUNCTIONS,
            Lg::So => CKS_RW_SO_FUNCTIONS,
        };
        if inf.state != st {
            return Err(format!("session state {} expected {}", inf.state, st));
        }
        let f = token_info(1).map_err(rvs)?.flags;
        let bit = |b: CK_FLAGS| f & b != 0;
        if bit(CKF_USER_PIN_INITIALIZED) != m.up.is_some() {
            return Err(format!("CKF_USER_PIN_INITIALIZED is {} with user PIN {:?}", bit(CKF_USER_PIN_INITIALIZED), m.up));
        }
        if m.nss {
            return Ok(());
        }
        for (n, b, want) in [
            ("USER_PIN_LOCKED", CKF_USER_PIN_LOCKED, m.uf == MAX),
            ("USER_PIN_FINAL_TRY", CKF_USER_PIN_FINAL_TRY, m.uf == MAX - 1),
            ("SO_PIN_LOCKED", CKF_SO_PIN_LOCKED, m.sf == MAX),
            ("SO_PIN_FINAL_TRY", CKF_SO_PIN_FINAL_TRY, m.sf == MAX - 1),
        ] {
            if bit(b) != want {
                return Err(format!("CKF_{} is {} after {} user and {} SO failures", n, bit(b), m.uf, m.sf));
            }
        }
        Ok(())
    }
    /// which PIN works, and how many tries are left
    fn deep(&mut self, m: &M) -> Result<bool, String> {
        if m.login != Lg::None {
            ok(close_all(1), "close all");
            self.s = okr(open(1, true), "open");
        }
        let s = self.s;
        let bad = |n: &str, rv: Rv, want: &str| Err(format!("{} returned {}, expected {} with {} user and {} SO failures before", n, rvs(rv), want, m.uf, m.sf));
        if let Some(k) = m.up {
            if m.nss {
                let rv = login(s, CKU_USER, up(1 - k));
                if rv != CKR_PIN_INCORRECT {
                    return bad("a login with the other PIN", rv, "CKR_PIN_INCORRECT");
                }
                let rv = login(s, CKU_USER, up(k));
                return if rv != CKR_OK { bad("a login with the PIN", rv, "CKR_OK") } else { Ok(true) };
            }
            // use up the rest of the tries but one, with the PIN of before
            let left = MAX - m.uf;
            for i in 1..left {
                let rv = login(s, CKU_USER, up(1 - k));
                if rv != CKR_PIN_INCORRECT {
                    return bad(&format!("wrong PIN {} of {} left", i, left), rv, "CKR_PIN_INCORRECT");
                }
            }
            if left == 0 || m.uf % 2 == 0 {
                if left > 0 {
                    let rv = login(s, CKU_USER, up(1 - k));
                    if rv == CKR_OK {
                        return bad("the last wrong PIN", rv, "an error");
                    }
                }
                let rv = login(s, CKU_USER, up(k));
                if rv != CKR_PIN_LOCKED {
                    return bad("the right PIN after the last try", rv, "CKR_PIN_LOCKED");
                }
            } else {
                let rv = login(s, CKU_USER, up(k));
                if rv != CKR_OK {
                    return bad("the right PIN at the last try", rv, "CKR_OK");
                }
                ok(logout(s), "logout");
            }
        } else {
            let rv = login(s, CKU_USER, UP);
            if rv != CKR_USER_PIN_NOT_INITIALIZED {
                return bad("a login without any PIN", rv, "CKR_USER_PIN_NOT_INITIALIZED");
            }
        }
        if !m.nss {
            ok(close_all(1), "close all");
            let s = okr(open(1, true), "open");
            let left = MAX - m.sf;
            for i in 1..left {
                let rv = login(s, CKU_SO, sp(1 - m.sp));
                if rv != CKR_PIN_INCORRECT {
                    return bad(&format!("wrong SO PIN {} of {} left", i, left), rv, "CKR_PIN_INCORRECT");
                }
            }
            let rv = login(s, CKU_SO, sp(m.sp));
            let want = if left == 0 { CKR_PIN_LOCKED } else { CKR_OK };
            if rv != want {
                return bad("the right SO PIN", rv, &rvs(want));
            }
        }
        Ok(true)
    }
}

pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    let th = o.tier.thorough();
    let mk = |db: Db, user: bool| {
        Tmpl::make(sc, &format!("p02-{}-{}", db.name(), user), &[(1, db)], || {
            std_init(1, user);
            if user && db == Db::Sqlite {
                let s = user_session(1);
                okr(create(s, &ec_priv(true, true).set(CKA_LABEL, b"aa").setb(CKA_ALWAYS_AUTHENTICATE, true)), "key");
            }
        })
    };
    let (tu, tn, nu, nn) = (mk(Db::Sqlite, true), mk(Db::Sqlite, false), mk(Db::Nss, true), mk(Db::Nss, false));
    let init = |user: bool, nss: bool, both: u8, toggles: bool| M {
        login: Lg::None,
        up: if user { Some(0) } else { None },
        sp: 0,
        uf: 0,
        sf: 0,
        ro: false,
        nss,
        both,
        toggles,
    };
    let roots: Vec<(&str, M, &Tmpl)> = vec![
        ("sqlite", init(true, false, if th { MAX } else { 1 }, th), &tu),
        ("sqlite-pins", init(true, false, 0, true), &tu),
        ("sqlite-nopin", init(false, false, 0, false), &tn),
        ("nss", init(true, true, 1, true), &nu),
        ("nss-nopin", init(false, true, 1, false), &nn),
    ];
    let gs: Vec<_> = roots.iter().map(|(n, m, t)| (*n, m.clone(), *t, explore(m.clone(), 0, 60, 60000))).collect();
    let extra = gs.iter().map(|(n, _, _, g)| (format!("model_{}", n), format!("{{\"nodes\":{},\"edges\":{},\"closed\":{}}}", g.nodes.len(), g.edges, g.closed))).collect();
    let mut stages: Vec<Stage> = gs
        .iter()
        .map(|(n, m, tm, g)| {
            Stage::new(n, g.nodes.len(), move |w, i| {
                let mut s = S { dir: w.dir.clone(), tm, s: 0, r: 0 };
                check_node(w, g, i, m, &mut s, n);
            })
        })
        .collect();
    let tur = &tu;
    stages.push(Stage::new("nul", 3, move |w, i| {
        w.begin(&format!("nul{}", i));
        w.eval();
        tur.fresh(&w.dir);
        let s = okr(open(1, true), "open");
        let pin = format!("{}{}", UP, &"\0\0\0"[..i + 1]);
        let rv = login(s, CKU_USER, &pin);
        if rv == CKR_OK {
            w.viol("sqlite/trailing-nul", "the PIN followed by NUL bytes is accepted as well");
        }
    }));
    crate::engine::run(
        Check {
            prop: "P02",
            level: "model_checking",
            rule: "explicit-state BFS of the PIN model (PIN values, failure counters 0..10 for USER and SO, logins, sessions, PIN changes, SO resets, context-specific logins, token initialisation attempts, restarts; six kinds of wrong PIN); every transition is replayed on the real library, the PIN flags are compared, and after it the remaining tries are used up to count them and to see which PIN works",
            assumptions: vec!["the attempt limit of this token is ten; the NSS database keeps no counter".into(), "quick: user and SO counters are not both run up in one history".into()],
            extra,
        },
        sc,
        o,
        stages,
    )
}
