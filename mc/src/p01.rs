//! P01: session / login state machine
use crate::api::*;
use crate::bfs::*;
use crate::engine::*;
use crate::env::*;
use kryoptic_lib::pkcs11::*;
use std::path::PathBuf;

pub const UP2: &str = "user-pin-second";
pub const SO2: &str = "so-pin-second-1";
const MARK: &str = "p01-private";

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Lg {
    None,
    User,
    So,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct M {
    sess: Vec<Option<bool>>, // Some(rw)
    login: Lg,
    upin: Option<u8>,
    sopin: u8,
    nss: bool,
    marker: bool,
    pins: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Open(usize, bool),
    Close(usize),
    CloseAll,
    LoginUser(usize, bool),
    LoginSo(usize, bool),
    LoginCtx(usize),
    LoginBadType(usize),
    Logout(usize),
    InitPin(usize, u8),
    SetPin(usize, bool),
}
fn upin(k: u8) -> &'static str {
    if k == 0 { UP } else { UP2 }
}
fn sopin(k: u8) -> &'static str {
    if k == 0 { SO } else { SO2 }
}
impl M {
    fn live(&self) -> Vec<usize> {
        (0..self.sess.len()).filter(|i| self.sess[*i].is_some()).collect()
    }
    fn has_ro(&self) -> bool {
        self.sess.iter().any(|s| *s == Some(false))
    }
}
impl Model for M {
    type Op = Op;
    fn ops(&self) -> Vec<Op> {
        let mut v = vec![];
        if let Some(i) = self.sess.iter().position(|s| s.is_none()) {
            v.push(Op::Open(i, true));
            v.push(Op::Open(i, false));
        }
        let live = self.live();
        for &i in &live {
            v.push(Op::Close(i));
        }
        v.push(Op::CloseAll);
        for &i in &live {
            v.extend([
                Op::LoginUser(i, true),
                Op::LoginUser(i, false),
                Op::LoginSo(i, true),
                Op::LoginSo(i, false),
                Op::Logout(i),
                Op::LoginCtx(i),
                Op::LoginBadType(i),
            ]);
        }
        if self.pins {
            for &i in live.iter() {
                v.push(Op::InitPin(i, 0));
                v.push(Op::InitPin(i, 1));
                v.push(Op::SetPin(i, true));
                v.push(Op::SetPin(i, false));
            }
        }
        v
    }
    fn dirty(&self, op: &Op) -> bool {
        matches!(op, Op::LoginUser(_, false) | Op::LoginSo(_, false) | Op::SetPin(_, false))
    }
    fn step(&self, op: &Op) -> (Exp, M) {
        let mut n = self.clone();
        let e = match *op {
            Op::Open(i, rw) => {
                if !rw && self.login == Lg::So {
                    Exp::Rv(CKR_SESSION_READ_WRITE_SO_EXISTS)
                } else {
                    n.sess[i] = Some(rw);
                    Exp::Ok
                }
            }
            Op::Close(i) => {
                n.sess[i] = None;
                if n.live().is_empty() {
                    n.login = Lg::None;
                }
                Exp::Ok
            }
            Op::CloseAll => {
                n.sess.iter_mut().for_each(|s| *s = None);
                n.login = Lg::None;
                Exp::Ok
            }
            Op::LoginUser(_, good) => match self.login {
                Lg::User => Exp::Rv(CKR_USER_ALREADY_LOGGED_IN),
                Lg::So => Exp::Rv(CKR_USER_ANOTHER_ALREADY_LOGGED_IN),
                Lg::None => match self.upin {
                    None => Exp::Rv(CKR_USER_PIN_NOT_INITIALIZED),
                    Some(_) if good => {
                        n.login = Lg::User;
                        Exp::Ok
                    }
                    _ => Exp::Rv(CKR_PIN_INCORRECT),
                },
            },
            Op::LoginSo(_, good) => {
                let mut errs = vec![];
                if self.has_ro() {
                    errs.push(CKR_SESSION_READ_ONLY_EXISTS);
                }
                match self.login {
                    Lg::So => errs.push(CKR_USER_ALREADY_LOGGED_IN),
                    Lg::User => errs.push(CKR_USER_ANOTHER_ALREADY_LOGGED_IN),
                    Lg::None => {
                        if self.nss {
                            if self.upin.is_some() {
                                errs.push(CKR_USER_TYPE_INVALID);
                            }
                        } else if !good {
                            errs.push(CKR_PIN_INCORRECT);
                        }
                    }
                }
                if errs.is_empty() {
                    n.login = Lg::So;
                    Exp::Ok
                } else {
                    Exp::Any(errs)
                }
            }
            Op::LoginCtx(_) => Exp::Any(vec![CKR_OPERATION_NOT_INITIALIZED, CKR_USER_NOT_LOGGED_IN]),
            Op::LoginBadType(_) => Exp::Any(vec![
                CKR_USER_TYPE_INVALID,
                CKR_USER_ANOTHER_ALREADY_LOGGED_IN,
            ]),
            Op::Logout(_) => {
                if self.login == Lg::None {
                    Exp::Rv(CKR_USER_NOT_LOGGED_IN)
                } else {
                    n.login = Lg::None;
                    Exp::Ok
                }
            }
            Op::InitPin(_, k) => {
                if self.login != Lg::So {
                    Exp::Rv(CKR_USER_NOT_LOGGED_IN)
                } else {
                    n.upin = Some(k);
                    Exp::Ok
                }
            }
            Op::SetPin(i, good) => {
                if self.sess[i] == Some(false) {
                    Exp::Rv(CKR_SESSION_READ_ONLY)
                } else {
                    match self.login {
                        Lg::So if self.nss => Exp::Rv(CKR_USER_TYPE_INVALID),
                        Lg::So if good => {
                            n.sopin = 1 - self.sopin;
                            Exp::Ok
                        }
                        Lg::So => Exp::Rv(CKR_PIN_INCORRECT),
                        _ => match self.upin {
                            None => Exp::Any(vec![CKR_USER_PIN_NOT_INITIALIZED]),
                            Some(k) if good => {
                                n.upin = Some(1 - k);
                                Exp::Ok
                            }
                            _ => Exp::Rv(CKR_PIN_INCORRECT),
                        },
                    }
                }
            }
        };
        (e, n)
    }
}

pub struct S<'a> {
    dir: PathBuf,
    tm: &'a Tmpl,
    h: Vec<H>,
    dead: Vec<H>,
}
impl<'a> Sys<M> for S<'a> {
    fn reset(&mut self) {
        self.tm.fresh(&self.dir);
        self.h = vec![0; 8];
        self.dead.clear();
    }
    fn exec(&mut self, op: &Op, m: &M) -> Rv {
        match *op {
            Op::Open(i, rw) => match open(1, rw) {
                Ok(h) => {
                    self.h[i] = h;
                    0
                }
                Err(e) => e,
            },
            Op::Close(i) => {
                self.dead.push(self.h[i]);
                close(self.h[i])
            }
            Op::CloseAll => {
                for i in m.live() {
                    self.dead.push(self.h[i]);
                }
                close_all(1)
            }
            Op::LoginUser(i, good) => login(
                self.h[i],
                CKU_USER,
                match (good, m.upin) {
                    (true, Some(k)) => upin(k),
                    (true, None) => UP,
                    // the other user PIN, or the SO PIN: plausible but wrong
                    (false, Some(k)) => upin(1 - k),
                    (false, None) => sopin(m.sopin),
                },
            ),
            Op::LoginSo(i, good) => {
                login(self.h[i], CKU_SO, if good { sopin(m.sopin) } else { sopin(1 - m.sopin) })
            }
            Op::LoginCtx(i) => login(self.h[i], CKU_CONTEXT_SPECIFIC, UP),
            Op::LoginBadType(i) => login(self.h[i], 77, UP),
            Op::Logout(i) => logout(self.h[i]),
            Op::InitPin(i, k) => init_pin(self.h[i], upin(k)),
            Op::SetPin(i, good) => {
                let so = m.login == Lg::So;
                let (old, new) = if so {
                    (sopin(m.sopin), sopin(1 - m.sopin))
                } else {
                    let k = m.upin.unwrap_or(0);
                    (upin(k), upin(1 - k))
                };
                if good { set_pin(self.h[i], old, new) } else { set_pin(self.h[i], new, new) }
            }
        }
    }
    fn probe(&mut self, m: &M) -> Result<(), String> {
        for i in m.live() {
            let rw = m.sess[i].unwrap();
            let inf = session_info(self.h[i]).map_err(|e| format!("session {} info: {}", i, rvs(e)))?;
            let st = match (rw, m.login) {
                (false, Lg::None) => CKS_RO_PUBLIC_SESSION,
                (false, _) => CKS_RO_USER_FUNCTIONS,
                (true, Lg::None) => CKS_RW_PUBLIC_SESSION,
                (true, Lg::User) => CKS_RW_USER_FUNCTIONS,
                (true, Lg::So) => CKS_RW_SO_FUNCTIONS,
            };
            if inf.state != st {
                return Err(format!("session {} reports state {}, expected {}", i, inf.state, st));
            }
            let fl = CKF_SERIAL_SESSION | if rw { CKF_RW_SESSION } else { 0 };
            if inf.flags != fl || inf.slotID != 1 {
                return Err(format!("session {} flags {:#x} slot {}", i, inf.flags, inf.slotID));
            }
            // functional meaning of the login
            let f = find(self.h[i], &T::new().s(CKA_LABEL, MARK)).map_err(|e| format!("find: {}", rvs(e)))?;
            let want = (m.marker && m.login == Lg::User) as usize;
            if !m.nss && f.len() != want {
                return Err(format!(
                    "session {} sees {} private objects, expected {} (login {:?})",
                    i, f.len(), want, m.login
                ));
            }
        }
        for d in &self.dead {
            if session_info(*d).err() != Some(CKR_SESSION_HANDLE_INVALID) {
                return Err(format!("closed session {} still answers", d));
            }
        }
        let ti = token_info(1).map_err(rvs)?;
        let (n, nrw) = (
            m.live().len() as u64,
            m.sess.iter().filter(|s| **s == Some(true)).count() as u64,
        );
        if ti.ulSessionCount != n || ti.ulRwSessionCount != nrw {
            return Err(format!(
                "token info counts {}/{} sessions, open are {}/{}",
                ti.ulSessionCount, ti.ulRwSessionCount, n, nrw
            ));
        }
        if (ti.flags & CKF_USER_PIN_INITIALIZED != 0) != m.upin.is_some() {
            return Err(format!("USER_PIN_INITIALIZED flag wrong: {:#x}", ti.flags));
        }
        Ok(())
    }
    fn deep(&mut self, m: &M) -> Result<bool, String> {
        // the state as a session opened only now sees it
        let mut m = m.clone();
        let i = m.sess.iter().position(|s| s.is_none());
        if let Some(i) = i {
            self.h[i] = open(1, true).map_err(|e| format!("C_OpenSession: {}", rvs(e)))?;
            m.sess[i] = Some(true);
            self.probe(&m).map_err(|e| format!("(with one more session) {}", e))?;
        }
        // and which PINs work
        if m.login != Lg::None {
            return Ok(i.is_some());
        }
        let s = self.h[m.live()[0]];
        if let Some(k) = m.upin {
            for (p, want) in [(upin(1 - k), CKR_PIN_INCORRECT), (upin(k), CKR_OK)] {
                let rv = login(s, CKU_USER, p);
                if rv != want {
                    return Err(format!("login with {} returned {}, expected {}", p, rvs(rv), rvs(want)));
                }
            }
            ok(logout(s), "logout");
        }
        if !m.nss && !m.has_ro() {
            for (p, want) in [(sopin(1 - m.sopin), CKR_PIN_INCORRECT), (sopin(m.sopin), CKR_OK)] {
                let rv = login(s, CKU_SO, p);
                if rv != want {
                    return Err(format!("SO login with {} returned {}, expected {}", p, rvs(rv), rvs(want)));
                }
            }
        }
        Ok(true)
    }
}

pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    let t = o.tier;
    let mk = |db: Db, user: bool| {
        Tmpl::make(sc, &format!("p01-{}-{}", db.name(), user), &[(1, db)], || {
            std_init(1, user);
            if user && db == Db::Sqlite {
                let s = user_session(1);
                okr(create(s, &data(true, true, MARK, b"x")), "marker");
            }
        })
    };
    let tu = mk(Db::Sqlite, true);
    let tn = mk(Db::Sqlite, false);
    let nu = mk(Db::Nss, true);
    let nn = mk(Db::Nss, false);
    let init = |n: usize, user: bool, nss: bool, pins: bool| M {
        sess: vec![None; n],
        login: Lg::None,
        upin: user.then_some(0),
        sopin: 0,
        nss,
        marker: user && !nss,
        pins,
    };
    let mut roots: Vec<(&str, M, &Tmpl, usize)> = vec![
        ("sqlite", init(3, true, false, false), &tu, 0),
        ("sqlite-pins", init(2, true, false, true), &tu, 0),
        ("sqlite-nopin", init(2, false, false, true), &tn, 0),
        ("nss", init(2, true, true, false), &nu, 0),
        ("nss-nopin", init(2, false, true, false), &nn, 0),
        ("sqlite-h1", init(2, true, false, false), &tu, 1),
    ];
    if t.thorough() {
        roots.push(("sqlite4", init(4, true, false, false), &tu, 0));
        roots.push(("sqlite3-h1", init(3, true, false, false), &tu, 1));
        roots.push(("sqlite-pins3-h1", init(2, true, false, true), &tu, 1));
        roots.push(("sqlite-h2", init(2, true, false, false), &tu, 2));
        roots.push(("nss-h1", init(2, true, true, false), &nu, 1));
    }
    let gs: Vec<_> = roots
        .iter()
        .map(|(n, m, tm, h)| (*n, m.clone(), *tm, explore(m.clone(), *h, 14, 60_000)))
        .collect();
    let mut extra = vec![];
    for (n, _, _, g) in &gs {
        extra.push((
            format!("model_{}", n),
            format!("{{\"nodes\":{},\"edges\":{},\"depth\":{},\"closed\":{}}}", g.nodes.len(), g.edges, g.depth, g.closed),
        ));
    }
    let stages = gs
        .iter()
        .map(|(n, m, tm, g)| {
            Stage::new(n, g.nodes.len(), move |w, i| {
                let mut s = S { dir: w.dir.clone(), tm, h: vec![], dead: vec![] };
                check_node(w, g, i, m, &mut s, n);
            })
        })
        .collect();
    run_check(
        Check {
            prop: "P01",
            level: "model_checking",
            rule: "explicit-state BFS of the session/login model (up to 3-4 sessions, USER/SO, two values per PIN); every transition of every reachable state is replayed on the real library on a fresh token and all session states, session counts and the visibility of a private object are compared",
            assumptions: vec!["PIN attempt limit not reached (P02)".into()],
            extra,
        },
        sc,
        o,
        stages,
    )
}
fn run_check(c: Check, sc: &Scratch, o: &Opts, st: Vec<Stage>) -> i32 {
    crate::engine::run(c, sc, o, st)
}
