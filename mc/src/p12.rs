//! P12: operation life cycle
use crate::api::*;
use crate::bfs::*;
use crate::c;
use crate::cry::*;
use crate::engine::*;
use crate::env::*;
use kryoptic_lib::pkcs11::*;

// ------------------------------------------------------------------ one operation, all its calls
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct M {
    /// pieces taken in so far
    n: Option<u8>,
    pieces: u8,
    out: bool,
    updout: bool,
    single: bool,
    stage: u8,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Init,
    InitBadKey,
    InitBadMech,
    Upd,
    UpdQ,
    UpdShort(bool),
    One,
    OneQ,
    OneShort(bool),
    Fin,
    FinQ,
    FinShort(bool),
    NullArg,
    Cancel,
    NullInit,
    CancelOther,
}
impl Model for M {
    type Op = Op;
    fn ops(&self) -> Vec<Op> {
        let mut v = vec![Op::Init, Op::InitBadKey, Op::InitBadMech, Op::Upd, Op::One, Op::Fin, Op::Cancel, Op::NullInit, Op::NullArg, Op::CancelOther];
        if self.n.is_some() {
            if self.out {
                if self.n == Some(0) {
                    v.extend([Op::OneQ, Op::OneShort(false), Op::OneShort(true)]);
                }
                v.extend([Op::FinQ, Op::FinShort(false), Op::FinShort(true)]);
            }
            if self.updout && !self.single && self.n.unwrap() < self.pieces {
                v.extend([Op::UpdQ, Op::UpdShort(false), Op::UpdShort(true)]);
            }
        } else if self.out {
            v.extend([Op::OneQ, Op::FinQ]);
        }
        v
    }
    fn step(&self, op: &Op) -> (Exp, M) {
        let mut m = self.clone();
        match *op {
            Op::Init => m.n = Some(m.n.unwrap_or(0)),
            Op::Upd => {
                m.n = match m.n {
                    Some(n) if n < m.pieces && !m.single => Some(n + 1),
                    _ => None, // refused, what is left is examined and cancelled
                }
            }
            Op::One | Op::Fin | Op::Cancel | Op::NullInit => m.n = None,
            _ => (),
        }
        (Exp::Ok, m)
    }
}
pub struct Setup {
    cm: &'static Cm,
    kd: Kd,
    ks: Ks,
    msg: Vec<u8>,
    /// cut points in the input
    cuts: Vec<usize>,
    input: Vec<u8>,
    sig: Vec<u8>,
    /// output of the one-shot call on the first n pieces
    refs: Vec<R<Vec<u8>>>,
    /// output lengths of each update, and of final after n pieces
    ulen: Vec<usize>,
    flen: Vec<Option<usize>>,
    helper: H,
}
fn message(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 7 + 3) as u8).collect()
}
impl Setup {
    pub fn new(cm: &'static Cm, kd: Kd, helper: H, ks: Ks) -> Setup {
        let total = if cm.name == "AES_CTS" { 40 } else if cm.multi { 48 } else { cm.one };
        let msg = message(total);
        let m = cm.mech(total);
        let mut sig = vec![];
        let mut input = msg.clone();
        let q = QUIET.replace(true);
        match kd {
            Kd::Dec => {
                ok(Kd::Enc.init(helper, &m, cm.key(&ks, Kd::Enc), &[]), "reference encrypt init");
                input = okr(encrypt(helper, &msg, Some(4096)).ok(), "reference encrypt");
            }
            Kd::Ver | Kd::Vsig => {
                ok(Kd::Sign.init(helper, &m, cm.key(&ks, Kd::Sign), &[]), "reference sign init");
                sig = okr(sign(helper, &msg, Some(4096)).ok(), "reference sign");
            }
            _ => (),
        }
        let l = input.len();
        let cuts = if cm.name == "AES_CTS" || !cm.multi { vec![l] } else { vec![16, 21, l] };
        let mut s = Setup { cm, kd, ks, msg, cuts, input, sig, refs: vec![], ulen: vec![], flen: vec![], helper };
        for n in 0..=s.cuts.len() {
            ok(s.init(helper), "reference init");
            let o = kd.one(helper, s.upto(n), &s.sig, Some(4096));
            s.refs.push(o.ok());
            kd.null_init(helper);
            ok(s.init(helper), "reference init");
            let mut good = true;
            for i in 0..n {
                let o = kd.update(helper, s.piece(i), Some(4096));
                good = o.rv == 0;
                if !good {
                    break;
                }
                if s.ulen.len() == i {
                    s.ulen.push(o.len);
                }
            }
            let o = kd.fin(helper, &s.sig, Some(4096));
            s.flen.push(if good && o.rv == 0 { Some(o.len) } else { None });
            kd.null_init(helper);
        }
        QUIET.set(q);
        s
    }
    fn upto(&self, n: usize) -> &[u8] {
        &self.input[..if n == 0 { 0 } else { self.cuts[n - 1] }]
    }
    fn piece(&self, i: usize) -> &[u8] {
        &self.input[if i == 0 { 0 } else { self.cuts[i - 1] }..self.cuts[i]]
    }
    fn init(&self, s: H) -> Rv {
        self.kd.init(s, &self.cm.mech(self.msg.len()), self.cm.key(&self.ks, self.kd), &self.sig)
    }
    /// is this the right complete output for the first n pieces?
    fn right(&self, n: usize, out: &[u8]) -> Result<(), String> {
        let m = self.cm.mech(self.msg.len());
        match self.kd {
            Kd::Dec => {
                if n == self.cuts.len() {
                    if out != self.msg {
                        return Err(format!("wrong plaintext {}", hex(out)));
                    }
                } else if self.cm.aead {
                    return Err("incomplete authenticated ciphertext accepted".into());
                }
            }
            Kd::Ver | Kd::Vsig => {
                if n != self.cuts.len() {
                    return Err("a signature over other data was accepted".into());
                }
            }
            _ if self.cm.det => match &self.refs[n] {
                Ok(r) if r == out => (),
                r => return Err(format!("output {} instead of {:?}", hex(out), r.as_ref().map(|x| hex(x)).map_err(|e| rvs(*e)))),
            },
            Kd::Enc => {
                let q = QUIET.replace(true);
                ok(decrypt_init(self.helper, &m, self.cm.key(&self.ks, Kd::Dec)), "inverse");
                let r = decrypt(self.helper, out, Some(4096)).ok();
                QUIET.set(q);
                if r != Ok(self.upto(n).to_vec()) {
                    return Err(format!("the output does not decrypt to the input: {:?}", r.map_err(rvs)));
                }
            }
            _ => {
                let q = QUIET.replace(true);
                ok(verify_init(self.helper, &m, self.cm.key(&self.ks, Kd::Ver)), "inverse");
                let r = verify(self.helper, self.upto(n), out);
                QUIET.set(q);
                if r != 0 {
                    return Err(format!("the signature does not verify: {}", rvs(r)));
                }
            }
        }
        Ok(())
    }
}
pub struct S<'a> {
    set: &'a Setup,
    s: H,
    acc: Vec<u8>,
    why: String,
}
impl<'a> S<'a> {
    fn bad(&mut self, t: String) -> Rv {
        note(&format!("  !! {}", t));
        self.why = t;
        CKR_GENERAL_ERROR
    }
    /// a call failed: the operation must have ended, or go on as if the call had not been made
    fn resolve(&mut self, n: usize, fedmore: bool) -> Rv {
        let st = self.set;
        let rv = st.init(self.s);
        if rv == 0 {
            st.kd.null_init(self.s);
            return 0;
        }
        if rv != CKR_OPERATION_ACTIVE {
            return self.bad(format!("after a failed call init returned {}", rvs(rv)));
        }
        let mut out = self.acc.clone();
        if !fedmore {
            for i in n..st.cuts.len() {
                let o = st.kd.update(self.s, st.piece(i), Some(4096));
                if o.rv != 0 {
                    st.kd.null_init(self.s);
                    return 0;
                }
                out.extend(&o.data);
            }
        }
        let n = if fedmore { n } else { st.cuts.len() };
        let o = st.kd.fin(self.s, &st.sig, Some(4096));
        st.kd.null_init(self.s);
        if o.rv == 0 {
            out.extend(&o.data);
            if let Err(e) = st.right(n, &out) {
                return self.bad(format!("the operation went on after a failed call with {}", e));
            }
        } else if n == st.cuts.len() && matches!(st.kd, Kd::Ver | Kd::Vsig) && false {
            return self.bad("".into());
        }
        0
    }
    fn finish(&mut self, n: usize) -> Rv {
        let st = self.set;
        if n == 0 && st.cuts.len() == 1 || n == 0 && st.cm.name.starts_with("RSA") {
            let o = st.kd.one(self.s, &st.input, &st.sig, Some(4096));
            if o.rv != 0 {
                return self.bad(format!("the one-shot call returned {}", rvs(o.rv)));
            }
            return match st.right(st.cuts.len(), &o.data) {
                Ok(()) => 0,
                Err(e) => self.bad(e),
            };
        }
        let mut out = self.acc.clone();
        for i in n..st.cuts.len() {
            let o = st.kd.update(self.s, st.piece(i), Some(4096));
            if o.rv != 0 {
                return self.bad(format!("update {} returned {}", i, rvs(o.rv)));
            }
            out.extend(&o.data);
        }
        let o = st.kd.fin(self.s, &st.sig, Some(4096));
        if o.rv != 0 {
            return self.bad(format!("final returned {}", rvs(o.rv)));
        }
        out.extend(&o.data);
        match st.right(st.cuts.len(), &out) {
            Ok(()) => 0,
            Err(e) => self.bad(e),
        }
    }
    fn go(&mut self, op: &Op, m: &M) -> Rv {
        let st = self.set;
        let (s, kd) = (self.s, st.kd);
        let act = m.n.is_some();
        let n = m.n.unwrap_or(0) as usize;
        let notinit = |me: &mut Self, rv: Rv| if rv == CKR_OPERATION_NOT_INITIALIZED { 0 } else { me.bad(format!("without an operation: {}", rvs(rv))) };
        match *op {
            Op::Init => {
                let rv = st.init(s);
                if act {
                    if rv != CKR_OPERATION_ACTIVE {
                        return self.bad(format!("second init returned {}", rvs(rv)));
                    }
                } else {
                    self.acc.clear();
                    if rv != 0 {
                        return self.bad(format!("init returned {}", rvs(rv)));
                    }
                }
                0
            }
            Op::InitBadKey | Op::InitBadMech => {
                let me = if *op == Op::InitBadMech { Mech::new(CKM_AES_KEY_GEN) } else { st.cm.mech(48) };
                let k = if *op == Op::InitBadKey { 0x77777 } else { st.cm.key(&st.ks, kd) };
                if kd == Kd::Dig && *op == Op::InitBadKey {
                    return 0;
                }
                if kd.init(s, &me, k, &st.sig) == 0 { self.bad("bad init accepted".into()) } else { 0 }
            }
            Op::Upd => {
                if !act {
                    let rv = kd.update(s, st.piece(0), Some(4096)).rv;
                    return notinit(self, rv);
                }
                if m.single || n >= m.pieces as usize {
                    // one piece too many
                    if !m.single {
                        let o = kd.update(s, &[1; 16], Some(4096));
                        kd.null_init(s);
                        let _ = o;
                        return 0;
                    }
                    let o = kd.update(s, st.piece(0), Some(4096));
                    if o.rv == 0 {
                        return self.bad("single-part mechanism took an update".into());
                    }
                    return self.resolve(n, false);
                }
                let o = kd.update(s, st.piece(n), Some(4096));
                if o.rv != 0 {
                    return self.bad(format!("update returned {}", rvs(o.rv)));
                }
                self.acc.extend(&o.data);
                0
            }
            Op::UpdQ | Op::UpdShort(_) => {
                let need = st.ulen.get(n).copied().unwrap_or(0);
                let cap = match op {
                    Op::UpdQ => None,
                    Op::UpdShort(true) => Some(0),
                    _ => Some(need.saturating_sub(1)),
                };
                if cap.is_some() && need == 0 {
                    return 0;
                }
                let o = kd.update(s, st.piece(n), cap);
                if cap.is_none() {
                    if o.rv != 0 || o.len < need {
                        return self.bad(format!("update size query returned {} {} (needs {})", rvs(o.rv), o.len, need));
                    }
                } else if o.rv != CKR_BUFFER_TOO_SMALL {
                    return self.bad(format!("update with {} of {} bytes returned {}", cap.unwrap(), need, rvs(o.rv)));
                }
                0
            }
            Op::One => {
                let o = kd.one(s, &st.input, &st.sig, Some(4096));
                if !act {
                    return notinit(self, o.rv);
                }
                if n > 0 {
                    if o.rv == 0 {
                        return self.bad("one-shot call accepted in the middle of a multi-part operation".into());
                    }
                    return self.resolve(n, false);
                }
                if o.rv != 0 {
                    return self.bad(format!("one-shot returned {}", rvs(o.rv)));
                }
                match st.right(st.cuts.len(), &o.data) {
                    Ok(()) => 0,
                    Err(e) => self.bad(e),
                }
            }
            Op::OneQ | Op::OneShort(_) => {
                let need = st.refs[st.cuts.len()].as_ref().map(|x| x.len()).unwrap_or(0);
                let cap = match op {
                    Op::OneQ => None,
                    Op::OneShort(true) => Some(0),
                    _ => Some(need.saturating_sub(1)),
                };
                let o = kd.one(s, &st.input, &st.sig, cap);
                if !act {
                    return notinit(self, o.rv);
                }
                if cap.is_none() {
                    if o.rv != 0 || o.len < need {
                        return self.bad(format!("size query returned {} {} (needs {})", rvs(o.rv), o.len, need));
                    }
                } else if o.rv != CKR_BUFFER_TOO_SMALL {
                    return self.bad(format!("call with {} of {} bytes returned {}", cap.unwrap(), need, rvs(o.rv)));
                }
                0
            }
            Op::Fin => {
                let o = kd.fin(s, &st.sig, Some(4096));
                if !act {
                    return notinit(self, o.rv);
                }
                if o.rv == 0 {
                    let mut out = self.acc.clone();
                    out.extend(&o.data);
                    return match st.right(n, &out) {
                        Ok(()) => 0,
                        Err(e) => self.bad(format!("final after {} pieces: {}", n, e)),
                    };
                }
                if n == st.cuts.len() && !m.single {
                    return self.bad(format!("final returned {}", rvs(o.rv)));
                }
                self.resolve(n, false)
            }
            Op::FinQ | Op::FinShort(_) => {
                if !act {
                    let o = kd.fin(s, &st.sig, None);
                    return notinit(self, o.rv);
                }
                // only where final would succeed and gives something
                let Some(need) = st.flen.get(n).copied().flatten() else { return 0 };
                let cap = match op {
                    Op::FinQ => None,
                    Op::FinShort(true) => Some(0),
                    _ => Some(need.saturating_sub(1)),
                };
                if cap.is_some() && need == 0 {
                    return 0;
                }
                let o = kd.fin(s, &st.sig, cap);
                if cap.is_none() {
                    if o.rv != 0 || o.len < need {
                        return self.bad(format!("final size query returned {} {} (needs {})", rvs(o.rv), o.len, need));
                    }
                } else if o.rv != CKR_BUFFER_TOO_SMALL {
                    return self.bad(format!("final with {} of {} bytes returned {}", cap.unwrap(), need, rvs(o.rv)));
                }
                0
            }
            Op::NullArg => {
                let z = std::ptr::null_mut();
                let rv = match kd {
                    Kd::Enc => c!(C_EncryptUpdate, s, z, 5, z, std::ptr::null_mut()),
                    Kd::Dec => c!(C_DecryptUpdate, s, z, 5, z, std::ptr::null_mut()),
                    Kd::Dig => c!(C_DigestUpdate, s, z, 5),
                    Kd::Sign => c!(C_SignUpdate, s, z, 5),
                    Kd::Ver => c!(C_VerifyUpdate, s, z, 5),
                    Kd::Vsig => c!(C_VerifySignatureUpdate, s, z, 5),
                };
                crate::tr!("update with a null pointer -> {}", rvs(rv));
                if rv == 0 { self.bad("null data accepted".into()) } else { 0 }
            }
            Op::Cancel => {
                if kd == Kd::Vsig {
                    kd.null_init(s);
                    return 0;
                }
                let rv = session_cancel(s, kd.flag());
                if rv != 0 { self.bad(format!("cancel returned {}", rvs(rv))) } else { 0 }
            }
            Op::NullInit => {
                let rv = kd.null_init(s);
                if rv != 0 { self.bad(format!("init with a null mechanism returned {}", rvs(rv))) } else { 0 }
            }
            Op::CancelOther => {
                let all = [Kd::Enc, Kd::Dec, Kd::Dig, Kd::Sign, Kd::Ver];
                let mut f = CKF_FIND_OBJECTS | CKF_MESSAGE_ENCRYPT | CKF_MESSAGE_DECRYPT;
                for k in all {
                    if k.flag() != kd.flag() {
                        f |= k.flag();
                    }
                }
                let rv = session_cancel(s, f);
                if rv != 0 { self.bad(format!("cancel of the other kinds returned {}", rvs(rv))) } else { 0 }
            }
        }
    }
}
impl<'a> Sys<M> for S<'a> {
    fn reset(&mut self) {
        let q = QUIET.replace(true);
        if self.s != 0 {
            close(self.s);
        }
        self.s = okr(open(1, true), "open");
        QUIET.set(q);
        note(&format!("-- new session {}", self.s));
        self.acc.clear();
    }
    fn exec(&mut self, op: &Op, m: &M) -> Rv {
        self.go(op, m)
    }
    fn probe(&mut self, m: &M) -> Result<(), String> {
        let rv = self.set.init(self.s);
        match (m.n, rv) {
            (None, 0) => {
                self.set.kd.null_init(self.s);
                Ok(())
            }
            (Some(_), CKR_OPERATION_ACTIVE) => Ok(()),
            _ => Err(format!("init returned {}", rvs(rv))),
        }
    }
    fn deep(&mut self, m: &M) -> Result<bool, String> {
        let Some(n) = m.n else { return Ok(false) };
        if m.single && n > 0 {
            return Ok(false);
        }
        if self.finish(n as usize) != 0 {
            return Err(format!("finishing the operation: {}", self.why));
        }
        let rv = self.set.init(self.s);
        if rv != 0 {
            return Err(format!("init after the operation finished returned {}", rvs(rv)));
        }
        self.set.kd.null_init(self.s);
        Ok(true)
    }
}

// ------------------------------------------------------------------ kinds and sessions side by side
const KINDS: [(&str, Kd); 6] =
    [("AES_CBC", Kd::Enc), ("AES_CTR", Kd::Dec), ("SHA256", Kd::Dig), ("SHA256_HMAC", Kd::Sign), ("AES_CMAC", Kd::Ver), ("ECDSA_SHA256", Kd::Vsig)];
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct X {
    /// session A: pieces per kind; session B: encryption and signature
    a: [Option<u8>; 6],
    find: bool,
    b: [Option<u8>; 6],
    bkinds: usize,
    amax: u8,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum XOp {
    Init(usize, usize),
    Upd(usize, usize),
    Finish(usize, usize),
    Cancel(usize, usize),
    CancelMany(u8),
    Dual(u8),
    FindInit,
    FindNext,
    FindFinal,
    OtherSession,
}
fn bk(i: usize) -> usize {
    [0, 3][i]
}
// dual calls: which two kinds advance
const DUAL: [(usize, usize); 4] = [(0, 2), (1, 2), (0, 3), (1, 4)];
impl Model for X {
    type Op = XOp;
    fn ops(&self) -> Vec<XOp> {
        let mut v = vec![];
        for (si, se) in [&self.a, &self.b].into_iter().enumerate() {
            let ks: Vec<usize> = if si == 0 { (0..6).collect() } else { (0..self.bkinds).map(bk).collect() };
            for k in ks {
                v.push(XOp::Init(si, k));
                if se[k].map(|n| n < self.amax).unwrap_or(true) {
                    v.push(XOp::Upd(si, k));
                }
                if se[k].is_some() {
                    v.push(XOp::Finish(si, k));
                    v.push(XOp::Cancel(si, k));
                }
            }
        }
        for (d, (x, y)) in DUAL.iter().enumerate() {
            // both fresh, or one of them missing: then the call is refused
            if self.a[*x].is_none() || self.a[*y].is_none() || (self.a[*x] == Some(0) && self.a[*y] == Some(0)) {
                v.push(XOp::Dual(d as u8));
            }
        }
        v.extend([XOp::CancelMany(0), XOp::CancelMany(1), XOp::FindInit, XOp::FindNext, XOp::FindFinal, XOp::OtherSession]);
        v
    }
    fn step(&self, op: &XOp) -> (Exp, X) {
        let mut m = self.clone();
        let e = match *op {
            XOp::Init(s, k) => {
                let c = if s == 0 { &mut m.a[k] } else { &mut m.b[k] };
                if c.is_some() {
                    Exp::Rv(CKR_OPERATION_ACTIVE)
                } else {
                    *c = Some(0);
                    Exp::Ok
                }
            }
            XOp::Upd(s, k) => {
                let c = if s == 0 { &mut m.a[k] } else { &mut m.b[k] };
                match c {
                    Some(n) => {
                        *n += 1;
                        Exp::Ok
                    }
                    None => Exp::Rv(CKR_OPERATION_NOT_INITIALIZED),
                }
            }
            XOp::Finish(s, k) | XOp::Cancel(s, k) => {
                if s == 0 {
                    m.a[k] = None
                } else {
                    m.b[k] = None
                }
                Exp::Ok
            }
            XOp::CancelMany(w) => {
                let ks: &[usize] = if w == 0 { &[0, 2, 4] } else { &[1, 3] };
                for k in ks {
                    m.a[*k] = None;
                }
                if w == 1 {
                    m.find = false;
                }
                Exp::Ok
            }
            XOp::Dual(d) => {
                let (x, y) = DUAL[d as usize];
                if m.a[x].is_none() || m.a[y].is_none() {
                    Exp::Rv(CKR_OPERATION_NOT_INITIALIZED)
                } else {
                    m.a[x] = Some(1);
                    m.a[y] = Some(1);
                    Exp::Ok
                }
            }
            XOp::FindInit => {
                if m.find {
                    Exp::Rv(CKR_OPERATION_ACTIVE)
                } else {
                    m.find = true;
                    Exp::Ok
                }
            }
            XOp::FindNext => {
                if m.find { Exp::Ok } else { Exp::Rv(CKR_OPERATION_NOT_INITIALIZED) }
            }
            XOp::FindFinal => {
                if m.find {
                    m.find = false;
                    Exp::Ok
                } else {
                    Exp::Rv(CKR_OPERATION_NOT_INITIALIZED)
                }
            }
            XOp::OtherSession => Exp::Ok,
        };
        (e, m)
    }
    fn dirty(&self, op: &XOp) -> bool {
        // a refused dual call may have ended the operation that was there
        matches!(op, XOp::Dual(_))
    }
}
struct XS<'a> {
    set: &'a [Setup],
    s: [H; 2],
    acc: [[Vec<u8>; 6]; 2],
    why: String,
}
impl<'a> XS<'a> {
    fn finish(&mut self, s: usize, k: usize, n: usize) -> Rv {
        let mut t = S { set: &self.set[k], s: self.s[s], acc: std::mem::take(&mut self.acc[s][k]), why: String::new() };
        let rv = t.finish(n);
        self.why = t.why;
        rv
    }
}
impl<'a> Sys<X> for XS<'a> {
    fn reset(&mut self) {
        let q = QUIET.replace(true);
        for i in 0..2 {
            if self.s[i] != 0 {
                close(self.s[i]);
            }
            self.s[i] = okr(open(1, true), "open");
        }
        QUIET.set(q);
        note(&format!("-- new sessions {:?}", self.s));
        self.acc = Default::default();
    }
    fn exec(&mut self, op: &XOp, m: &X) -> Rv {
        match *op {
            XOp::Init(s, k) => {
                let rv = self.set[k].init(self.s[s]);
                if rv == 0 {
                    self.acc[s][k].clear();
                }
                rv
            }
            XOp::Upd(s, k) => {
                let n = (if s == 0 { m.a[k] } else { m.b[k] }).unwrap_or(0) as usize;
                let o = self.set[k].kd.update(self.s[s], self.set[k].piece(n), Some(256));
                if o.rv == 0 {
                    self.acc[s][k].extend(&o.data);
                }
                o.rv
            }
            XOp::Finish(s, k) => {
                let n = if s == 0 { m.a[k] } else { m.b[k] }.unwrap() as usize;
                self.finish(s, k, n)
            }
            XOp::Cancel(s, k) => {
                if KINDS[k].1 == Kd::Vsig {
                    self.set[k].kd.null_init(self.s[s])
                } else if KINDS[k].1 == Kd::Ver {
                    self.set[k].kd.null_init(self.s[s])
                } else {
                    session_cancel(self.s[s], KINDS[k].1.flag())
                }
            }
            XOp::CancelMany(w) => {
                if w == 0 {
                    // the verify flag is shared with the verify-signature kind: cancelled by a null init
                    self.set[4].kd.null_init(self.s[0]);
                    session_cancel(self.s[0], CKF_ENCRYPT | CKF_DIGEST)
                } else {
                    session_cancel(self.s[0], CKF_DECRYPT | CKF_SIGN | CKF_FIND_OBJECTS)
                }
            }
            XOp::Dual(d) => {
                let (x, y) = DUAL[d as usize];
                let p = self.set[x].piece(0);
                let s = self.s[0];
                let o = match d {
                    0 => digest_encrypt_update(s, p, Some(64)),
                    1 => decrypt_digest_update(s, p, Some(64)),
                    2 => sign_encrypt_update(s, p, Some(64)),
                    _ => decrypt_verify_update(s, p, Some(64)),
                };
                if o.rv == 0 {
                    self.acc[0][x].extend(&o.data);
                    let _ = y;
                } else {
                    // what the call left of the operation that was active is checked to be either intact or gone
                    for k in [x, y] {
                        if m.a[k].is_some() {
                            let n = m.a[k].unwrap() as usize;
                            let mut t = S { set: &self.set[k], s, acc: self.acc[0][k].clone(), why: String::new() };
                            if t.resolve(n, false) != 0 {
                                self.why = t.why;
                                return CKR_GENERAL_ERROR;
                            }
                            // put it back to where the model has it
                            let rv = self.set[k].init(s);
                            if rv != 0 {
                                return CKR_GENERAL_ERROR;
                            }
                            self.acc[0][k].clear();
                            for i in 0..n {
                                let o = self.set[k].kd.update(s, self.set[k].piece(i), Some(256));
                                self.acc[0][k].extend(&o.data);
                            }
                        }
                    }
                }
                o.rv
            }
            XOp::FindInit => find_init(self.s[0], &T::new().ul(CKA_CLASS, CKO_SECRET_KEY)),
            XOp::FindNext => rvr(&find_next(self.s[0], 1)),
            XOp::FindFinal => find_final(self.s[0]),
            XOp::OtherSession => match open(1, false) {
                Ok(h) => {
                    self.set[2].init(h);
                    close(h)
                }
                Err(e) => e,
            },
        }
    }
    fn probe(&mut self, m: &X) -> Result<(), String> {
        for s in 0..2 {
            for k in 0..6 {
                let n = if s == 0 { m.a[k] } else { m.b[k] };
                let rv = self.set[k].init(self.s[s]);
                match (n, rv) {
                    (None, 0) => {
                        self.set[k].kd.null_init(self.s[s]);
                    }
                    (Some(_), CKR_OPERATION_ACTIVE) => (),
                    _ => return Err(format!("session {} {:?}: init returned {} but {:?} pieces are in", s, KINDS[k].1, rvs(rv), n)),
                }
            }
        }
        Ok(())
    }
    fn deep(&mut self, m: &X) -> Result<bool, String> {
        let mut did = false;
        for s in 0..2 {
            for k in 0..6 {
                if let Some(n) = if s == 0 { m.a[k] } else { m.b[k] } {
                    did = true;
                    if KINDS[k].1 == Kd::Dig || KINDS[k].1 == Kd::Sign || KINDS[k].1 == Kd::Ver || KINDS[k].1 == Kd::Vsig {
                        // a dual call fed the cipher's piece: same bytes as this kind's first piece or not
                        if self.finish(s, k, n as usize) != 0 {
                            return Err(format!("finishing {:?} of session {}: {}", KINDS[k].1, s, self.why));
                        }
                    } else if self.finish(s, k, n as usize) != 0 {
                        return Err(format!("finishing {:?} of session {}: {}", KINDS[k].1, s, self.why));
                    }
                }
            }
        }
        Ok(did)
    }
}

thread_local!(static READY: std::cell::RefCell<Option<(H, Ks)>> = const { std::cell::RefCell::new(None) });
/// the library stays initialised in a worker; keys belong to a helper session
pub fn ready(w: &W, tm: &Tmpl) -> (H, Ks) {
    READY.with(|r| {
        if r.borrow().is_none() {
            tm.fresh(&w.dir);
            let h = user_session(1);
            *r.borrow_mut() = Some((h, Ks::make(h)));
        }
        r.borrow().unwrap()
    })
}
pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    let t = o.tier;
    let tm = Tmpl::std(sc, Db::Sqlite);
    let hist = if t.thorough() { 2 } else { 1 };
    let mut pairs: Vec<(&'static Cm, Kd)> = vec![];
    for c in CMS {
        if !t.thorough() && ["SHA_1", "SHA224", "SHA384", "SHA512_224", "SHA512_256", "SHA3_224", "SHA3_384", "SHA3_512", "SHA_1_HMAC", "ECDSA_SHA512"].contains(&c.name) {
            continue;
        }
        for k in c.kinds() {
            pairs.push((c, k));
        }
    }
    let graphs: Vec<(usize, M, Graph<M>)> = pairs
        .iter()
        .enumerate()
        .map(|(i, (c, k))| {
            let m = M {
                n: None,
                pieces: if c.multi && c.name != "AES_CTS" { 3 } else { 1 },
                out: k.has_out(),
                updout: c.cls == Cls::Ciph,
                single: !c.multi && c.name != "AES_CTS",
                stage: i as u8,
            };
            let h = if c.key == Ky::Rsa { hist.min(1) } else { hist };
            let g = explore(m.clone(), h, 20, 100_000);
            (i, m, g)
        })
        .collect();
    let items: Vec<(usize, usize)> = graphs.iter().flat_map(|(i, _, g)| (0..g.nodes.len()).map(move |n| (*i, n))).collect();
    let x = X { a: [None; 6], find: false, b: [None; 6], bkinds: if t.thorough() { 2 } else { 1 }, amax: 1 };
    let xg = explore(x.clone(), 0, 24, if t.thorough() { 20_000 } else { 3_000 });
    let extra = vec![
        ("mechanisms_and_kinds".to_string(), format!("{}", pairs.len())),
        ("single_nodes".to_string(), format!("{}", items.len())),
        ("cross_model".to_string(), format!("{{\"nodes\":{},\"edges\":{},\"depth\":{},\"closed\":{}}}", xg.nodes.len(), xg.edges, xg.depth, xg.closed)),
    ];
    let (tr, pr, gr, ir, xr, x0) = (&tm, &pairs, &graphs, &items, &xg, &x);
    let stages = vec![
        Stage::new("single", items.len(), move |w: &mut W, i| {
            let (g, n) = ir[i];
            let (c, k) = pr[g];
            let (h, ks) = ready(w, tr);
            let set = Setup::new(c, k, h, ks);
            let mut s = S { set: &set, s: 0, acc: vec![], why: String::new() };
            check_node(w, &gr[g].2, n, &gr[g].1, &mut s, &format!("{}/{:?}", c.name, k));
            if s.s != 0 {
                close(s.s);
            }
        }),
        Stage::new("cross", xg.nodes.len(), move |w: &mut W, i| {
            let (h, ks) = ready(w, tr);
            let set: Vec<Setup> = KINDS
                .iter()
                .map(|(c, k)| {
                    let mut s = Setup::new(cm(c), *k, h, ks);
                    // dual calls feed 16-byte pieces to both operations
                    s.cuts = vec![16, 32, s.input.len()];
                    s
                })
                .collect();
            let mut s = XS { set: &set, s: [0; 2], acc: Default::default(), why: String::new() };
            check_node(w, xr, i, x0, &mut s, "cross");
            for h in s.s {
                if h != 0 {
                    close(h);
                }
            }
        }),
    ];
    crate::engine::run(
        Check {
            prop: "P12",
            level: "model_checking",
            rule: "explicit-state BFS of the life cycle of one operation (init, second init, update, final, one-shot, size queries, short buffers, null arguments, cancels) for every mechanism and kind of operation, and of six kinds of operation plus search side by side in two sessions with dual-function calls; every transition is replayed on the real library, activity is probed with a further init, and every active operation is then finished and its result compared",
            assumptions: vec!["after a call fails with anything but CKR_BUFFER_TOO_SMALL the operation may have ended or continue unharmed".into()],
            extra,
        },
        sc,
        o,
        stages,
    )
}
