//! P07: objects stay as created until changed or destroyed.  P09: handles are unique, stale ones refused.
use crate::api::*;
use crate::bfs::*;
use crate::calls::*;
use crate::engine::*;
use crate::env::*;
use crate::keys::*;
use kryoptic_lib::pkcs11::*;
use std::collections::BTreeSet;
use std::path::PathBuf;

/// kinds of objects in the model
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum K {
    DataSes,
    AesSesPriv,
    DataTok,
    AesTokPriv,
    PubTok,
    CertTokPriv,
}
impl K {
    fn tok(self) -> bool {
        matches!(self, K::DataTok | K::AesTokPriv | K::PubTok | K::CertTokPriv)
    }
    fn tmpl(self) -> T {
        match self {
            K::DataSes => Kind::Data.tmpl(false, false),
            K::AesSesPriv => Kind::Aes.tmpl(false, true).b(CKA_EXTRACTABLE, true).b(CKA_SENSITIVE, false),
            K::DataTok => Kind::Data.tmpl(true, false),
            K::AesTokPriv => Kind::Aes.tmpl(true, true).b(CKA_EXTRACTABLE, true).b(CKA_SENSITIVE, false),
            K::PubTok => Kind::EcPub.tmpl(true, false),
            K::CertTokPriv => Kind::Cert.tmpl(true, true),
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
struct Obj {
    k: K,
    tok: bool,
    private: bool,
    owner: u8,
    label: u8,
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
struct M {
    sess: [bool; 2],
    login: bool,
    objs: Vec<Option<Obj>>,
    nss: bool,
    kinds: u8,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Op {
    Create(u8, K),
    /// keep the token flag, or invert it
    Copy(u8, u8, bool),
    Set(u8, u8),
    SetFail(u8, u8),
    Destroy(u8, u8),
    Close(u8),
    Open(u8),
    CloseAll,
    Login,
    Logout,
    Restart,
    Fail(u8, u8),
}
const NFAIL: u8 = 6;
fn kindset(n: u8) -> Vec<K> {
    match n {
        0 => vec![K::DataSes, K::AesSesPriv, K::DataTok, K::AesTokPriv],
        1 => vec![K::DataSes, K::PubTok, K::CertTokPriv],
        _ => vec![K::AesSesPriv, K::PubTok, K::AesTokPriv],
    }
}
impl M {
    fn vis(&self, o: &Obj) -> bool {
        !o.tok || !o.private || self.login
    }
    fn drop_session(&mut self, s: u8) {
        self.sess[s as usize] = false;
        for o in self.objs.iter_mut() {
            if o.map(|o| !o.tok && o.owner == s) == Some(true) {
                *o = None;
            }
        }
        if self.sess == [false, false] {
            self.logout();
        }
    }
    fn logout(&mut self) {
        self.login = false;
        for o in self.objs.iter_mut() {
            if o.map(|o| !o.tok && o.private) == Some(true) {
                *o = None;
            }
        }
    }
}
impl Model for M {
    type Op = Op;
    fn ops(&self) -> Vec<Op> {
        let mut v = vec![];
        let any = self.sess.iter().position(|x| *x).map(|x| x as u8);
        let free = self.objs.iter().any(|o| o.is_none());
        for s in 0..2u8 {
            if !self.sess[s as usize] {
                v.push(Op::Open(s));
                continue;
            }
            v.push(Op::Close(s));
            if free {
                for k in kindset(self.kinds) {
                    // token objects are the same whichever session makes them
                    if !k.tok() || Some(s) == any {
                        v.push(Op::Create(s, k));
                    }
                }
            }
            for (i, o) in self.objs.iter().enumerate() {
                let Some(o) = o else { continue };
                if free && Some(s) == any {
                    v.push(Op::Copy(s, i as u8, false));
                    v.push(Op::Copy(s, i as u8, true));
                }
                if Some(s) == any || o.owner != s {
                    v.push(Op::Set(s, i as u8));
                    v.push(Op::Destroy(s, i as u8));
                }
                if Some(s) == any {
                    v.push(Op::SetFail(s, i as u8));
                }
            }
            if Some(s) == any {
                for n in 0..NFAIL {
                    v.push(Op::Fail(s, n));
                }
            }
        }
        if any.is_some() {
            v.push(Op::CloseAll);
            v.push(if self.login { Op::Logout } else { Op::Login });
        }
        v.push(Op::Restart);
        v
    }
    fn step(&self, op: &Op) -> (Exp, M) {
        let mut m = self.clone();
        let put = |m: &mut M, o: Obj| {
            let i = m.objs.iter().position(|x| x.is_none()).unwrap();
            m.objs[i] = Some(o);
        };
        let e = match *op {
            Op::Create(s, k) => {
                let private = k.tmpl().get(CKA_PRIVATE) == Some(&[1]);
                if k.tok() && !self.login {
                    Exp::Rv(CKR_USER_NOT_LOGGED_IN)
                } else {
                    put(&mut m, Obj { k, tok: k.tok(), private, owner: s, label: 0 });
                    Exp::Ok
                }
            }
            Op::Copy(s, i, flip) => {
                let o = self.objs[i as usize].unwrap();
                let tok = o.tok != flip;
                if !self.vis(&o) || (tok && !self.login) {
                    Exp::Err
                } else {
                    put(&mut m, Obj { tok, owner: s, ..o });
                    Exp::Ok
                }
            }
            Op::Set(_, i) => {
                let o = m.objs[i as usize].as_mut().unwrap();
                if o.tok && !self.login {
                    Exp::Err
                } else {
                    o.label ^= 1;
                    Exp::Ok
                }
            }
            Op::SetFail(..) | Op::Fail(..) => Exp::Err,
            Op::Destroy(_, i) => {
                if !self.vis(&self.objs[i as usize].unwrap()) {
                    Exp::Err
                } else {
                    m.objs[i as usize] = None;
                    Exp::Ok
                }
            }
            Op::Close(s) => {
                m.drop_session(s);
                Exp::Ok
            }
            Op::Open(s) => {
                m.sess[s as usize] = true;
                Exp::Ok
            }
            Op::CloseAll => {
                m.drop_session(0);
                m.drop_session(1);
                Exp::Ok
            }
            Op::Login => {
                m.login = true;
                Exp::Ok
            }
            Op::Logout => {
                m.logout();
                Exp::Ok
            }
            Op::Restart => {
                m.drop_session(0);
                m.drop_session(1);
                Exp::Ok
            }
        };
        // owners of token objects do not matter
        for o in m.objs.iter_mut().flatten() {
            if o.tok {
                o.owner = 0;
            }
        }
        (e, m)
    }
    fn dirty(&self, op: &Op) -> bool {
        // failing calls must leave nothing behind: check from a clean state next
        matches!(op, Op::Restart)
    }
}
#[derive(Clone)]
struct Live {
    h: H,
    snap: Snap,
}
struct Sys7<'a> {
    dir: PathBuf,
    tm: &'a Tmpl,
    s: [H; 2],
    objs: Vec<Option<Live>>,
    base: BTreeSet<H>,
    base_known: bool,
    dead: Vec<H>,
    dead_s: Vec<H>,
    /// every handle ever given out
    issued: BTreeSet<H>,
    issued_s: BTreeSet<H>,
    handles: bool,
    err: Option<String>,
}
fn lbl(n: u8) -> &'static [u8] {
    if n == 0 { b"obj" } else { b"another label" }
}
impl<'a> Sys7<'a> {
    fn any(&self, m: &M) -> H {
        self.s[m.sess.iter().position(|x| *x).unwrap()]
    }
    fn bad(&mut self, e: String) {
        if self.err.is_none() {
            self.err = Some(e);
        }
    }
    fn take(&mut self, h: H) {
        if h == CK_INVALID_HANDLE {
            self.bad("a zero object handle was returned".into());
        }
        if self.objs.iter().flatten().any(|o| o.h == h) {
            self.bad(format!("object handle {} given to two live objects", h));
        }
        if self.dead.contains(&h) {
            self.bad(format!("object handle {} of a destroyed object given out again", h));
        }
        self.issued.insert(h);
    }
    fn baseline(&mut self, s: H) {
        if !self.base_known {
            let q = QUIET.replace(true);
            let live: Vec<H> = self.objs.iter().flatten().map(|o| o.h).collect();
            self.base = find(s, &T::new()).unwrap_or_default().into_iter().filter(|h| !live.contains(h)).collect();
            self.base_known = true;
            QUIET.set(q);
        }
    }
    fn kill(&mut self, i: usize) {
        if let Some(o) = self.objs[i].take() {
            self.dead.push(o.h);
        }
    }
    fn sync(&mut self, before: &M, after: &M) {
        for i in 0..before.objs.len() {
            if before.objs[i].is_some() && after.objs[i].is_none() {
                self.kill(i);
            }
        }
        for i in 0..2 {
            if before.sess[i] && !after.sess[i] {
                self.dead_s.push(self.s[i]);
            }
        }
    }
}
impl<'a> Sys<M> for Sys7<'a> {
    fn reset(&mut self) {
        self.tm.fresh(&self.dir);
        let n = self.objs.len();
        self.objs = vec![None; n];
        self.base_known = false;
        self.dead.clear();
        self.dead_s.clear();
        self.issued.clear();
        self.issued_s.clear();
        self.err = None;
        self.s[0] = okr(open(1, true), "open");
        self.issued_s.insert(self.s[0]);
        ok(login(self.s[0], CKU_USER, UP), "login");
        let s = self.s[0];
        self.baseline(s);
    }
    fn exec(&mut self, op: &Op, before: &M) -> Rv {
        let free = before.objs.iter().position(|o| o.is_none());
        let (_, after) = before.step(op);
        let rv = match *op {
            Op::Create(s, k) => {
                let t = k.tmpl();
                match create(self.s[s as usize], &t) {
                    Err(e) => e,
                    Ok(h) => {
                        self.take(h);
                        let sn = snap(self.s[s as usize], h);
                        match sn {
                            Err(e) => self.bad(format!("a new object cannot be read: {}", rvs(e))),
                            Ok(sn) => {
                                for (a, v) in &t.0 {
                                    if sn.get(a) != Some(v) {
                                        self.bad(format!("created with {}={} but it reads {:?}", aname(*a), hex(v), sn.get(a).map(|x| hex(x))));
                                    }
                                }
                                for (a, v) in [(CKA_MODIFIABLE, 1u8), (CKA_COPYABLE, 1), (CKA_DESTROYABLE, 1)] {
                                    if sn.get(&a) != Some(&vec![v]) {
                                        self.bad(format!("default {} is {:?}", aname(a), sn.get(&a)));
                                    }
                                }
                                if let Some(i) = free {
                                    self.objs[i] = Some(Live { h, snap: sn });
                                }
                            }
                        }
                        CKR_OK
                    }
                }
            }
            Op::Copy(s, i, flip) => {
                let src = self.objs[i as usize].clone().unwrap();
                let o = before.objs[i as usize].unwrap();
                let t = if flip { T::new().b(CKA_TOKEN, !o.tok) } else { T::new() };
                match copy(self.s[s as usize], src.h, &t) {
                    Err(e) => e,
                    Ok(h) => {
                        self.take(h);
                        match snap(self.s[s as usize], h) {
                            Err(e) => self.bad(format!("a copy cannot be read: {}", rvs(e))),
                            Ok(sn) => {
                                let mut x = src.snap.clone();
                                x.insert(CKA_TOKEN, vec![(o.tok != flip) as u8]);
                                let mut y = sn.clone();
                                if x.remove(&CKA_UNIQUE_ID) == y.remove(&CKA_UNIQUE_ID) {
                                    self.bad("a copy has the unique id of its original".into());
                                }
                                if x != y {
                                    self.bad(format!("copy differs: {}", snapdiff(&x, &y)));
                                }
                                if let Some(k) = free {
                                    self.objs[k] = Some(Live { h, snap: sn });
                                }
                            }
                        }
                        CKR_OK
                    }
                }
            }
            Op::Set(s, i) => {
                let l = lbl(before.objs[i as usize].unwrap().label ^ 1);
                let h = self.objs[i as usize].as_ref().unwrap().h;
                let rv = set(self.s[s as usize], h, &T::new().d(CKA_LABEL, l));
                if rv == CKR_OK {
                    self.objs[i as usize].as_mut().unwrap().snap.insert(CKA_LABEL, l.to_vec());
                }
                rv
            }
            Op::SetFail(s, i) => {
                let h = self.objs[i as usize].as_ref().unwrap().h;
                set(self.s[s as usize], h, &T::new().d(CKA_LABEL, b"refused").ul(CKA_CLASS, 77).d(CKA_ID, b"x"))
            }
            Op::Destroy(s, i) => destroy(self.s[s as usize], self.objs[i as usize].as_ref().unwrap().h),
            Op::Close(s) => close(self.s[s as usize]),
            Op::Open(s) => match open(1, true) {
                Ok(h) => {
                    if self.issued_s.contains(&h) || h == 0 {
                        self.bad(format!("session handle {} given out twice", h));
                    }
                    self.issued_s.insert(h);
                    self.s[s as usize] = h;
                    CKR_OK
                }
                Err(e) => e,
            },
            Op::CloseAll => close_all(1),
            Op::Login => login(self.any(before), CKU_USER, UP),
            Op::Logout => logout(self.any(before)),
            Op::Restart => {
                let rv = restart(&self.dir);
                self.issued.clear();
                self.issued_s.clear();
                self.dead.clear();
                self.dead_s.clear();
                // the new handles are looked up by unique id
                let s = okr(open(1, true), "open");
                let l = login(s, CKU_USER, UP);
                for i in 0..self.objs.len() {
                    if before.objs[i].map(|o| o.tok) != Some(true) {
                        self.objs[i] = None;
                        continue;
                    }
                    let uid = self.objs[i].as_ref().unwrap().snap.get(&CKA_UNIQUE_ID).cloned().unwrap_or_default();
                    match find(s, &T::new().d(CKA_UNIQUE_ID, &uid)) {
                        Ok(v) if v.len() == 1 => self.objs[i].as_mut().unwrap().h = v[0],
                        r => self.bad(format!("search by unique id after the restart: {:?}", r)),
                    }
                }
                self.base_known = false;
                self.baseline(s);
                if before.objs.iter().flatten().filter(|o| o.tok).count() > 0 || l == CKR_OK {
                    let hs: BTreeSet<H> = self.objs.iter().flatten().map(|o| o.h).collect();
                    if hs.len() != self.objs.iter().flatten().count() {
                        self.bad("two objects share a handle after the restart".into());
                    }
                }
                close(s);
                self.issued_s.insert(s);
                return rv;
            }
            Op::Fail(s, n) => {
                let s = self.s[s as usize];
                match n {
                    0 => rvr(&create(s, &T::new().ul(CKA_CLASS, CKO_DATA).s(CKA_LABEL, "bad").ul(CKA_KEY_TYPE, CKK_AES))),
                    1 => rvr(&create(s, &seckey(CKK_AES, true, false, "bad", &[1, 2, 3]))),
                    2 => rvr(&gen_key(s, &Mech::new(CKM_AES_KEY_GEN), &T::new().ul(CKA_VALUE_LEN, 17).b(CKA_TOKEN, true).s(CKA_LABEL, "bad"))),
                    3 => rvr(&gen_pair(
                        s,
                        &Mech::new(CKM_EC_KEY_PAIR_GEN),
                        &T::new().d(CKA_EC_PARAMS, &P256).b(CKA_TOKEN, false).s(CKA_LABEL, "bad"),
                        &T::new().b(CKA_TOKEN, true).d(CKA_LABEL, b"bad").ul(CKA_CLASS, 9),
                    )),
                    4 => rvr(&unwrap(s, &Mech::new(CKM_AES_KEY_WRAP), 999999, &[0; 24], &gkey(16))),
                    _ => rvr(&copy(s, 999999, &T::new())),
                }
            }
        };
        if rv == CKR_OK {
            self.sync(before, &after);
        }
        rv
    }
    fn probe(&mut self, m: &M) -> Result<(), String> {
        if let Some(e) = self.err.take() {
            return Err(e);
        }
        if m.sess == [false, false] {
            return Ok(());
        }
        let s = self.any(m);
        let q = QUIET.replace(true);
        let r = self.probe2(m, s);
        QUIET.set(q);
        r
    }
    /// log in, look again, add and remove further objects, look again
    fn deep(&mut self, m: &M) -> Result<bool, String> {
        let mut m = m.clone();
        if m.sess == [false, false] {
            self.s[0] = open(1, true).map_err(|e| format!("C_OpenSession: {}", rvs(e)))?;
            if !self.issued_s.insert(self.s[0]) {
                return Err(format!("session handle {} given out twice", self.s[0]));
            }
            m.sess[0] = true;
        }
        let s = self.any(&m);
        if !m.login {
            let rv = login(s, CKU_USER, UP);
            if rv != CKR_OK {
                return Err(format!("C_Login: {}", rvs(rv)));
            }
            m.login = true;
        }
        let q = QUIET.replace(true);
        let r = self.perturb(&m, s);
        QUIET.set(q);
        r.map(|_| true).map_err(|e| format!("(after a login) {}", e))
    }
}
impl<'a> Sys7<'a> {
    fn perturb(&mut self, m: &M, s: H) -> Result<(), String> {
        self.baseline(s);
        self.probe2(m, s)?;
        let mut mine = vec![];
        for (tok, private) in [(false, false), (true, true), (false, true), (true, false)] {
            if m.nss && tok {
                continue;
            }
            let h = create(s, &data(tok, private, "extra", b"extra value")).map_err(|e| format!("C_CreateObject: {}", rvs(e)))?;
            if self.issued.contains(&h) || self.dead.contains(&h) || self.objs.iter().flatten().any(|o| o.h == h) || mine.contains(&h) {
                return Err(format!("object handle {} given out twice", h));
            }
            mine.push(h);
            self.base.insert(h);
        }
        self.probe2(m, s)?;
        for h in mine {
            let rv = destroy(s, h);
            if rv != CKR_OK {
                return Err(format!("C_DestroyObject of a new object: {}", rvs(rv)));
            }
            self.base.remove(&h);
            self.issued.insert(h);
        }
        let hd = std::mem::replace(&mut self.handles, false);
        let r = self.probe2(m, s);
        self.handles = hd;
        r.map_err(|e| format!("(after other objects were destroyed) {}", e))
    }
    fn probe2(&mut self, m: &M, s: H) -> Result<(), String> {
        let mut want = self.base.clone();
        let mut uids = BTreeSet::new();
        for (i, o) in m.objs.iter().enumerate() {
            let Some(o) = o else { continue };
            let Some(l) = self.objs[i].clone() else { return Err(format!("object {} missing in the harness", i)) };
            if let Some(u) = l.snap.get(&CKA_UNIQUE_ID) {
                if !uids.insert(u.clone()) {
                    return Err("two objects share a unique id".into());
                }
            }
            if !m.vis(o) {
                continue;
            }
            want.insert(l.h);
            // values of public token secret keys need a login, there are none here
            match snap(s, l.h) {
                Err(e) => return Err(format!("object {} ({:?}) cannot be read: {}", i, o, rvs(e))),
                Ok(x) if x != l.snap => return Err(format!("object {} ({:?}) changed: {}", i, o, snapdiff(&l.snap, &x))),
                _ => (),
            }
        }
        match find(s, &T::new()) {
            Err(e) => return Err(format!("search fails: {}", rvs(e))),
            Ok(v) => {
                let got: BTreeSet<H> = v.iter().copied().collect();
                if got.len() != v.len() {
                    return Err("a search returns a handle twice".into());
                }
                if got != want {
                    let extra: Vec<_> = got.difference(&want).collect();
                    let miss: Vec<_> = want.difference(&got).collect();
                    // the built-in objects are in the baseline
                    return Err(format!("objects that should not exist: {:?}; objects missing: {:?}", extra, miss));
                }
            }
        }
        for h in self.dead.iter().rev().take(3) {
            for (n, rv) in [("get", get_many(s, *h, &[CKA_CLASS]).0), ("set", set(s, *h, &T::new().s(CKA_LABEL, "x"))), ("destroy", destroy(s, *h))] {
                if rv != CKR_OBJECT_HANDLE_INVALID {
                    return Err(format!("{} with the handle of a dead object: {}", n, rvs(rv)));
                }
            }
        }
        if self.handles {
            self.stale(m, s)?;
        }
        Ok(())
    }
    /// every call that takes an object or session handle, given a stale or never issued one
    fn stale(&mut self, m: &M, s: H) -> Result<(), String> {
        let maxo = self.issued.iter().chain(self.base.iter()).chain(self.objs.iter().flatten().map(|o| &o.h)).max().copied().unwrap_or(0);
        let mut bad: Vec<H> = self.dead.iter().rev().take(2).copied().collect();
        bad.extend([0, maxo + 40, CK_ULONG::MAX, CK_ULONG::MAX - 1, 1 << 32, 1 << 63]);
        let live: Vec<H> = self.objs.iter().flatten().map(|o| o.h).collect();
        bad.retain(|h| !live.contains(h) && !self.base.contains(h));
        let k = Keys::make(s);
        let ks = k.list();
        self.issued.extend(ks.iter());
        let mut res = Ok(());
        'o: for h in &bad {
            for c in session_calls(s, &k) {
                for p in c.pos(RK::Obj) {
                    // a digest has to be running for C_DigestKey
                    if c.name == "C_DigestKey" {
                        digest_init(s, &Mech::new(CKM_SHA256));
                    }
                    // operation state needs no keys
                    if c.name == "C_SetOperationState" {
                        continue;
                    }
                    let mut a: Vec<usize> = c.args.iter().map(|a| a.v).collect();
                    a[p] = *h as usize;
                    let q = QUIET.replace(false);
                    let rv = c.run_with(&a);
                    QUIET.set(q);
                    if c.name == "C_DigestKey" {
                        session_cancel(s, CKF_DIGEST);
                    }
                    let fit = match rv {
                        CKR_OBJECT_HANDLE_INVALID | CKR_KEY_HANDLE_INVALID | CKR_WRAPPING_KEY_HANDLE_INVALID | CKR_UNWRAPPING_KEY_HANDLE_INVALID => true,
                        CKR_FUNCTION_NOT_SUPPORTED => c.name.contains("Recover") || c.name.contains("Authenticated") || c.name.contains("Message"),
                        // mechanism checks may come first in the encapsulation calls
                        CKR_MECHANISM_INVALID => c.name.contains("capsulate"),
                        _ => false,
                    };
                    if !fit {
                        res = Err(format!("{} with the invalid object handle {:#x} as argument {}: {}", c.what, h, p, rvs(rv)));
                        break 'o;
                    }
                }
            }
        }
        for h in ks {
            if destroy(s, h) == CKR_OK {
                self.dead.insert(0, h);
            }
        }
        res?;
        // sessions
        let maxs = self.issued_s.iter().max().copied().unwrap_or(0);
        let mut bad: Vec<H> = self.dead_s.iter().rev().take(2).copied().collect();
        bad.extend([0, maxs + 1, CK_ULONG::MAX, 1 << 32, s ^ (1 << 32), s ^ (1 << 63)]);
        let open: Vec<H> = (0..2).filter(|i| m.sess[*i]).map(|i| self.s[i]).collect();
        bad.retain(|h| !open.contains(h));
        let k = Keys { aes: live.first().copied().unwrap_or(1), gen_: 1, ecpriv: 1, ecpub: 1, rsapriv: 1, rsapub: 1, data: live.first().copied().unwrap_or(1), dh: 1 };
        for h in bad {
            for c in session_calls(h, &k) {
                let q = QUIET.replace(false);
                let mut a: Vec<usize> = c.args.iter().map(|x| x.v).collect();
                if c.name == "C_SetOperationState" {
                    // no state of this token takes keys, which may be said first
                    for p in c.pos(RK::Obj) {
                        a[p] = 0;
                    }
                }
                let rv = c.run_with(&a);
                QUIET.set(q);
                if rv == CKR_FUNCTION_NOT_PARALLEL && (c.name == "C_GetFunctionStatus" || c.name == "C_CancelFunction") {
                    continue;
                }
                if rv == CKR_SESSION_HANDLE_INVALID || (rv == CKR_FUNCTION_NOT_SUPPORTED && unsupported(c.name)) {
                    continue;
                }
                return Err(format!("{} with the invalid session handle {:#x}: {}", c.what, h, rvs(rv)));
            }
        }
        Ok(())
    }
}
/// functions this token does not implement at all
pub fn unsupported(n: &str) -> bool {
    n.contains("Recover")
        || n.contains("Authenticated")
        || n.contains("Async")
        || n.contains("SignMessage")
        || n.contains("VerifyMessage")
        || n.starts_with("C_MessageSign")
        || n.starts_with("C_MessageVerify")
        || n == "C_LoginUser"
        || n == "C_GetFunctionStatus"
        || n == "C_CancelFunction"
        || n == "C_WaitForSlotEvent"
}

/// every kind, storage, privacy and optional attribute: created, closed, restarted
fn keep(w: &mut W, tm: &Tmpl, db: Db, k: Kind, private: bool, opt: &T) {
    w.add(TRACES, 1);
    w.eval();
    let name = format!("keep/{}/{:?}/priv={}/{:?}", db.name(), k, private as u8, opt);
    w.begin(&name);
    w.distinct(&name);
    let s = user_session(1);
    let mut t = k.tmpl(true, private);
    for (a, v) in &opt.0 {
        t = t.set(*a, v);
    }
    let mut ts = t.clone().set(CKA_TOKEN, &[0]);
    let o = match create(s, &t) {
        Ok(o) => o,
        Err(e) => {
            // the template must then be refused for a session object as well (storage may support less)
            ts = ts.set(CKA_LABEL, b"obj");
            if db == Db::Sqlite && create(s, &ts).is_ok() {
                w.viol(&name, &format!("refused only as token object: {}", rvs(e)));
            }
            close_all(1);
            return;
        }
    };
    let so = create(s, &ts);
    let check = |sn: &Snap| -> Option<String> {
        for (a, v) in &t.0 {
            // given empty dates are kept as zeros, the check value is the token's own
            let norm = matches!(*a, CKA_START_DATE | CKA_END_DATE | CKA_CHECK_VALUE);
            let secret = k.secret_attrs().contains(a) && (t.get(CKA_SENSITIVE) != Some(&[0]) || t.get(CKA_EXTRACTABLE) != Some(&[1]));
            if *a == CKA_TOKEN || norm || secret {
                continue;
            }
            if sn.get(a) != Some(v) {
                return Some(format!("{} given as {} reads {:?}", aname(*a), hex(v), sn.get(a).map(|x| hex(x))));
            }
        }
        None
    };
    let before = match snap(s, o) {
        Ok(b) => b,
        Err(e) => {
            w.viol(&name, &format!("a new token object cannot be read: {}", rvs(e)));
            close_all(1);
            return;
        }
    };
    // the one attribute the NSS database has no column for
    let lost = db == Db::Nss && t.get(CKA_ALLOWED_MECHANISMS).map_or(false, |v| !v.is_empty() && before.get(&CKA_ALLOWED_MECHANISMS).map_or(true, |x| x.is_empty()));
    if lost {
        w.viol("keep/nss/allowed-mechanisms", "CKA_ALLOWED_MECHANISMS of a token object is dropped without an error");
    } else if let Some(e) = check(&before) {
        w.viol(&name, &e);
    }
    if let Ok(so) = so {
        let mut a = snap(s, so).unwrap_or_default();
        let mut b = before.clone();
        for m in [&mut a, &mut b] {
            m.remove(&CKA_TOKEN);
            m.remove(&CKA_UNIQUE_ID);
            if lost {
                m.remove(&CKA_ALLOWED_MECHANISMS);
            }
        }
        if a != b {
            w.viol(&name, &format!("session and token object of the same template differ: {}", snapdiff(&a, &b)));
        }
    }
    close_all(1);
    let s = user_session(1);
    match snap(s, o) {
        Ok(x) if x == before => (),
        r => w.viol(&name, &format!("after closing all sessions: {}", r.map(|x| snapdiff(&before, &x)).unwrap_or_else(|e| rvs(e)))),
    }
    restart(&w.dir);
    let s = user_session(1);
    let uid = before.get(&CKA_UNIQUE_ID).cloned().unwrap_or_default();
    match find(s, &T::new().d(CKA_UNIQUE_ID, &uid)) {
        Ok(v) if v.len() == 1 => match snap(s, v[0]) {
            Ok(x) if x == before => (),
            r => w.viol(&name, &format!("after a restart: {}", r.map(|x| snapdiff(&before, &x)).unwrap_or_else(|e| rvs(e)))),
        },
        r => w.viol(&name, &format!("search by unique id after a restart: {:?}", r)),
    }
    w.sample_trace();
    tm.fresh(&w.dir);
}
fn opts_for(k: Kind) -> Vec<T> {
    let t = T::new;
    let mut v = vec![
        t(),
        t().s(CKA_LABEL, ""),
        t().d(CKA_LABEL, &[0u8; 3]),
        t().d(CKA_LABEL, &[0x41; 300]),
        t().b(CKA_MODIFIABLE, false),
        t().b(CKA_COPYABLE, false),
        t().b(CKA_DESTROYABLE, false),
        t().b(CKA_MODIFIABLE, false).b(CKA_COPYABLE, false).b(CKA_DESTROYABLE, false),
    ];
    if k.is_key() {
        v.extend([
            t().s(CKA_ID, "id"),
            t().d(CKA_ID, &[]),
            t().d(CKA_START_DATE, b"20240102").d(CKA_END_DATE, b"20300102"),
        ]);
        if k != Kind::Hotp {
            // HOTP keys get their own list whatever is given
            v.push(t().d(CKA_ALLOWED_MECHANISMS, &[CKM_AES_CBC.to_ne_bytes(), CKM_SHA256_HMAC.to_ne_bytes()].concat()));
        }
    }
    if k.secret() {
        v.extend([
            t().b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true),
            t().b(CKA_SENSITIVE, true).b(CKA_EXTRACTABLE, true),
            t().b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, false),
            t().b(CKA_SENSITIVE, true).b(CKA_EXTRACTABLE, false),
            t().b(CKA_WRAP_WITH_TRUSTED, true).b(CKA_EXTRACTABLE, true),
        ]);
    }
    if matches!(k, Kind::Aes | Kind::Generic) {
        for a in [CKA_ENCRYPT, CKA_DECRYPT, CKA_SIGN, CKA_VERIFY, CKA_WRAP, CKA_UNWRAP, CKA_DERIVE] {
            for b in [true, false] {
                v.push(t().b(a, b));
            }
        }
    }
    if matches!(k, Kind::EcPriv | Kind::RsaPriv) {
        v.push(t().b(CKA_ALWAYS_AUTHENTICATE, true));
        for a in [CKA_SIGN, CKA_DECRYPT, CKA_UNWRAP, CKA_DERIVE] {
            for b in [true, false] {
                v.push(t().b(a, b));
            }
        }
        v.push(t().d(CKA_SUBJECT, b"subj"));
    }
    if matches!(k, Kind::EcPub | Kind::RsaPub) {
        for a in [CKA_VERIFY, CKA_ENCRYPT, CKA_WRAP, CKA_DERIVE] {
            for b in [true, false] {
                v.push(t().b(a, b));
            }
        }
        v.push(t().d(CKA_SUBJECT, b"subj"));
    }
    if k == Kind::Data {
        v.extend([t().d(CKA_VALUE, &[]), t().d(CKA_VALUE, &[0u8; 900]), t().d(CKA_OBJECT_ID, &[6, 3, 1, 2, 3]), t().s(CKA_APPLICATION, "")]);
    }
    if k == Kind::Cert {
        v.extend([t().s(CKA_ISSUER, "iss").d(CKA_SERIAL_NUMBER, &[2, 1, 5]), t().ul(CKA_CERTIFICATE_CATEGORY, 2), t().s(CKA_ID, "cid"), t().d(CKA_START_DATE, b"20240102")]);
    }
    if k == Kind::Generic {
        v.extend([t().d(CKA_VALUE, &[0x11]), t().d(CKA_VALUE, &[0u8; 700])]);
    }
    v
}
/// calls that create two objects, the second of which is refused
fn halves(w: &mut W, tm: &Tmpl, i: usize) {
    let pubs = [
        T::new(),
        T::new().b(CKA_DESTROYABLE, false),
        T::new().b(CKA_TOKEN, true),
        T::new().b(CKA_TOKEN, true).b(CKA_DESTROYABLE, false),
    ];
    let privs = [T::new().b(CKA_TOKEN, true).b(CKA_PRIVATE, true), T::new().b(CKA_TOKEN, true).b(CKA_PRIVATE, false), T::new().ul(CKA_CLASS, 77)];
    let (pi, ki, lg) = (i % 4, i / 4 % 3, i / 12);
    tm.fresh(&w.dir);
    let name = format!("halves/{:?}/{:?}/login={}", pubs[pi], privs[ki], lg);
    w.begin(&name);
    w.eval();
    w.add(TRACES, 1);
    w.distinct(&name);
    let s = okr(open(1, true), "open");
    match lg {
        1 => ok(login(s, CKU_USER, UP), "login"),
        2 => ok(login(s, CKU_SO, SO), "login"),
        _ => (),
    }
    let before: BTreeSet<H> = find(s, &T::new()).unwrap_or_default().into_iter().collect();
    let pt = T::new().d(CKA_EC_PARAMS, &P256).b(CKA_PRIVATE, false).plus(&pubs[pi]);
    let r = gen_pair(s, &Mech::new(CKM_EC_KEY_PAIR_GEN).named("EC_KEY_PAIR_GEN"), &pt, &privs[ki]);
    let after: BTreeSet<H> = find(s, &T::new()).unwrap_or_default().into_iter().collect();
    match r {
        Err(e) if after != before => w.viol(&name, &format!("C_GenerateKeyPair failed with {} and left an object behind", rvs(e))),
        Ok((a, b)) => {
            let mut x = before.clone();
            x.insert(a);
            x.insert(b);
            if x != after && lg == 1 {
                w.viol(&name, "C_GenerateKeyPair succeeded but the objects do not match");
            }
        }
        _ => (),
    }
    w.sample_trace();
}

pub fn run(sc: &Scratch, o: &Opts, prop: &'static str) -> i32 {
    let th = o.tier.thorough();
    let ts = Tmpl::std(sc, Db::Sqlite);
    let tn = Tmpl::std(sc, Db::Nss);
    let handles = prop == "P09";
    let init = |n: usize, nss: bool, kinds: u8| M { sess: [true, false], login: true, objs: vec![None; n], nss, kinds };
    // name, initial state, template, history, depth
    let mut roots: Vec<(&str, M, &Tmpl, usize, usize)> = if handles {
        vec![("sqlite2", init(2, false, 0), &ts, 0, 4), ("sqlite1", init(1, false, 1), &ts, 1, 4), ("nss1", init(1, true, 2), &tn, 0, 3)]
    } else {
        vec![("sqlite2", init(2, false, 0), &ts, 0, 9), ("sqlite3", init(3, false, 1), &ts, 0, 4), ("sqlite1", init(1, false, 0), &ts, 1, 5), ("nss1", init(1, true, 2), &tn, 0, 3)]
    };
    if th {
        roots = if handles {
            vec![("sqlite2", init(2, false, 0), &ts, 0, 9), ("sqlite1", init(1, false, 1), &ts, 2, 5), ("nss2", init(2, true, 2), &tn, 0, 3)]
        } else {
            vec![
                ("sqlite2", init(2, false, 0), &ts, 1, 6),
                ("sqlite3", init(3, false, 0), &ts, 0, 6),
                ("sqlite3b", init(3, false, 1), &ts, 0, 6),
                ("sqlite1", init(1, false, 0), &ts, 2, 5),
                ("nss2", init(2, true, 2), &tn, 0, 4),
            ]
        };
    }
    let gs: Vec<_> = roots.iter().map(|(n, m, t, h, d)| (*n, m.clone(), *t, explore(m.clone(), *h, *d, if th { 40000 } else { 6000 }))).collect();
    let extra = gs.iter().map(|(n, _, _, g)| (format!("model_{}", n), format!("{{\"nodes\":{},\"edges\":{},\"closed\":{}}}", g.nodes.len(), g.edges, g.closed))).collect();
    let mut it = vec![];
    for db in DBS {
        for k in KINDS {
            if db == Db::Nss && (matches!(k, Kind::Hotp | Kind::Data) || k == Kind::MontPriv) {
                continue;
            }
            for p in [false, true] {
                for t in opts_for(k) {
                    if db == Db::Nss && !th && (t.0.len() == 1 && t.0[0].1.len() == 1 && t.0[0].0 != CKA_SENSITIVE) {
                        continue;
                    }
                    it.push((db, k, p, t));
                }
            }
        }
    }
    let mut stages: Vec<Stage> = gs
        .iter()
        .map(|(n, m, tm, g)| {
            Stage::new(n, g.nodes.len(), move |w, i| {
                let mut s = Sys7 {
                    dir: w.dir.clone(),
                    tm,
                    s: [0; 2],
                    objs: vec![None; m.objs.len()],
                    base: BTreeSet::new(),
                    base_known: false,
                    dead: vec![],
                    dead_s: vec![],
                    issued: BTreeSet::new(),
                    issued_s: BTreeSet::new(),
                    handles,
                    err: None,
                };
                check_node(w, g, i, m, &mut s, n);
            })
        })
        .collect();
    let (itr, tsr, tnr) = (&it, &ts, &tn);
    if !handles {
        stages.push(Stage::new("keep", it.len(), move |w, i| {
            let (db, k, p, t) = &itr[i];
            let tm = if *db == Db::Sqlite { tsr } else { tnr };
            tm.fresh(&w.dir);
            keep(w, tm, *db, *k, *p, t);
        }));
        stages.push(Stage::new("halves", 36, move |w, i| halves(w, tsr, i)));
    }
    crate::engine::run(
        Check {
            prop,
            level: "model_checking",
            rule: if handles {
                "breadth-first search of the object-map model (sessions, login, up to two objects of several kinds); in every reachable state every call that takes an object or session handle is given handles of destroyed objects, closed sessions and never issued ones, all live handles are compared, and searches are compared with the live set"
            } else {
                "breadth-first search of the object-map model (two sessions, login, up to three objects of several kinds, create, copy, change, destroy, close, restart, failing calls); after every step all attributes of all live objects are compared with what they must be and searches with the live set; plus every object kind with every optional attribute over close and restart on both storages"
            },
            assumptions: vec!["objects of six kinds with two label values in the model; built-in profile and mechanism objects are taken as a baseline".into()],
            extra,
        },
        sc,
        o,
        stages,
    )
}
