//! P27: bad pointers, lengths and handles never crash the caller.
use crate::api::*;
use crate::c;
use crate::calls::*;
use crate::cry::*;
use crate::engine::*;
use crate::env::*;
use crate::keys::*;
use crate::mesg::*;
use crate::p18;
use crate::tr;
use kryoptic_lib::pkcs11::*;

/// keep allocations that follow a bad size from taking the machine's memory
fn limit() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
}
/// state of the session a call is made in
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum S {
    NoLogin,
    So,
    Fresh,
    Enc,
    EncFed,
    EncGcm,
    Dec,
    DecFed,
    DecGcm,
    Dig,
    DigFed,
    Sign,
    SignFed,
    Ver,
    VerFed,
    Vsig,
    MEnc,
    MEncBegun,
    MDec,
    MDecBegun,
    Find,
    DigEnc,
    SignEnc,
    DigDec,
    VerDec,
    RsaSign,
    Off,
}
use S::*;
const ST: [S; 27] = [
    NoLogin, So, Fresh, Enc, EncFed, EncGcm, Dec, DecFed, DecGcm, Dig, DigFed, Sign, SignFed, Ver, VerFed, Vsig, MEnc, MEncBegun, MDec, MDecBegun, Find, DigEnc, SignEnc,
    DigDec, VerDec, RsaSign, Off,
];
struct Cx {
    st: S,
    base: H,
    s: H,
    k: Keys,
}
fn hm() -> Mech {
    Mech::new(CKM_SHA256_HMAC).named("SHA256_HMAC")
}
impl Cx {
    fn new(w: &W, tm: &Tmpl, st: S) -> Cx {
        let q = QUIET.replace(true);
        tm.fresh(&w.dir);
        let base = match st {
            NoLogin => okr(open(1, true), "open"),
            So => {
                let s = okr(open(1, true), "open");
                ok(login(s, CKU_SO, SO), "login");
                s
            }
            _ => user_session(1),
        };
        let k = Keys::make(base);
        let mut cx = Cx { st, base, s: 0, k };
        if st == Off {
            cx.s = okr(open(1, true), "open");
            ok(finalize(), "finalize");
        }
        QUIET.set(q);
        cx
    }
    /// a session in the state
    fn ready(&mut self) -> bool {
        if self.st == Off {
            return true;
        }
        let q = QUIET.replace(true);
        if self.s != 0 {
            close(self.s);
        }
        let r = self.ready2();
        QUIET.set(q);
        r
    }
    fn ready2(&mut self) -> bool {
        let Ok(s) = open(1, true) else { return false };
        self.s = s;
        let k = &self.k;
        let d = [0x31u8; 21];
        let g = || gcm(&[4; 12], b"aad", 128);
        let m = || Mp::new(false, &[1; 12], 16, 16);
        let rv = match self.st {
            NoLogin | So | Fresh | Off => 0,
            Enc => encrypt_init(s, &cbc_pad(), k.aes),
            EncFed => encrypt_init(s, &cbc_pad(), k.aes) + encrypt_update(s, &d, Some(64)).rv,
            EncGcm => encrypt_init(s, &g(), k.aes) + encrypt_update(s, &d, Some(64)).rv,
            Dec => decrypt_init(s, &cbc_pad(), k.aes),
            DecFed => decrypt_init(s, &cbc_pad(), k.aes) + decrypt_update(s, &d, Some(64)).rv,
            DecGcm => decrypt_init(s, &g(), k.aes) + decrypt_update(s, &d, Some(64)).rv,
            Dig => digest_init(s, &Mech::new(CKM_SHA256)),
            DigFed => digest_init(s, &Mech::new(CKM_SHA256)) + digest_update(s, &d),
            Sign => sign_init(s, &hm(), k.gen_),
            SignFed => sign_init(s, &hm(), k.gen_) + sign_update(s, &d),
            Ver => verify_init(s, &hm(), k.gen_),
            VerFed => verify_init(s, &hm(), k.gen_) + verify_update(s, &d),
            Vsig => vsig_init(s, &hm(), k.gen_, &[0; 32]),
            MEnc => minit(s, true, CKM_AES_GCM, k.aes),
            MEncBegun => minit(s, true, CKM_AES_GCM, k.aes) + mbegin(s, true, &mut m(), b"aad"),
            MDec => minit(s, false, CKM_AES_GCM, k.aes),
            MDecBegun => minit(s, false, CKM_AES_GCM, k.aes) + mbegin(s, false, &mut m(), b"aad"),
            Find => find_init(s, &T::new()),
            DigEnc => digest_init(s, &Mech::new(CKM_SHA256)) + encrypt_init(s, &cbc_pad(), k.aes),
            SignEnc => sign_init(s, &hm(), k.gen_) + encrypt_init(s, &cbc_pad(), k.aes),
            DigDec => digest_init(s, &Mech::new(CKM_SHA256)) + decrypt_init(s, &cbc_pad(), k.aes),
            VerDec => verify_init(s, &hm(), k.gen_) + decrypt_init(s, &cbc_pad(), k.aes),
            RsaSign => sign_init(s, &Mech::new(CKM_RSA_PKCS), k.rsapriv),
        };
        if rv != 0 {
            tr!("state {:?} could not be made: {}", self.st, rvs(rv));
        }
        rv == 0
    }
    /// the library still works
    fn usable(&self) -> bool {
        if self.st == Off {
            return true;
        }
        let q = QUIET.replace(true);
        let s = self.base;
        let mut ok = digest_init(s, &Mech::new(CKM_SHA_1)) == 0;
        ok &= digest(s, b"abc", Some(20)).data.get(..4) == Some(&[0xa9, 0x99, 0x3e, 0x36]);
        ok &= get_size(s, self.k.gen_) && get_size(s, self.k.data) && get_size(s, self.k.aes);
        QUIET.set(q);
        ok
    }
}
fn get_size(s: H, o: H) -> bool {
    let mut n = 0;
    c!(C_GetObjectSize, s, o, &mut n) == 0
}
/// storage for bad arguments
#[derive(Default)]
struct Bag {
    mechs: Vec<Box<CK_MECHANISM>>,
    attrs: Vec<Vec<CK_ATTRIBUTE>>,
    cells: Vec<Box<[usize; 2]>>,
    buf: Vec<u8>,
}
/// the bad values of an argument
fn bad(c: &Call, i: usize, cx: &Cx, bag: &mut Bag) -> Vec<(usize, String)> {
    let a = c.args[i];
    let v = |x: &[usize]| -> Vec<(usize, String)> { x.iter().map(|x| (*x, format!("{:?}#{}={:#x}", a.k, i, x))).collect() };
    let null = || vec![(0usize, format!("{:?}#{}=null", a.k, i))];
    match a.k {
        RK::Sess => vec![(0, "session=0".into()), (usize::MAX, "session=-1".into()), (cx.k.aes as usize + 100_000, "session=unknown".into())],
        RK::Obj => [
            (0, "object=0"),
            (CK_ULONG::MAX, "object=-1"),
            (cx.s, "object=session"),
            (cx.k.data, "object=data"),
            (cx.k.gen_, "object=generic"),
            (cx.k.aes, "object=aes"),
            (cx.k.ecpriv, "object=ecpriv"),
            (cx.k.ecpub, "object=ecpub"),
            (cx.k.rsapriv, "object=rsapriv"),
            (cx.k.rsapub, "object=rsapub"),
        ]
        .into_iter()
        .filter(|x| x.0 as usize != a.v)
        .map(|(x, n)| (x as usize, format!("{}#{}", n, i)))
        .collect(),
        RK::Slot => v(&[0, 77, usize::MAX]),
        RK::InPtr | RK::OutPtr | RK::HandleOut | RK::StructOut => null(),
        RK::InLen => {
            let mut l = vec![0];
            if a.v > 1 {
                l.push(1);
                l.push(a.v - 1);
            }
            v(&l)
        }
        RK::ParamLen => v(&[0, 1, 7, a.v - 1, a.v.saturating_sub(8)]),
        RK::ParamPtr => null(),
        RK::OutLenPtr => {
            let mut r = null();
            for n in [0, 1, 15] {
                let b = Box::new([n, n]);
                r.push((&*b as *const _ as usize, format!("length of the buffer={}", n)));
                bag.cells.push(b);
            }
            r
        }
        RK::OutLen => v(&[0]),
        RK::Mech => {
            let m = unsafe { *(a.v as *const CK_MECHANISM) };
            let mut r = null();
            bag.buf.resize(512, 0);
            let bp = bag.buf.as_mut_ptr() as CK_VOID_PTR;
            let mut add = |mm: CK_MECHANISM, n: &str| {
                let b = Box::new(mm);
                r.push((&*b as *const _ as usize, format!("mechanism: {}", n)));
                bag.mechs.push(b);
            };
            add(CK_MECHANISM { mechanism: CK_ULONG::MAX, pParameter: std::ptr::null_mut(), ulParameterLen: 0 }, "type -1");
            add(CK_MECHANISM { mechanism: 0x8000_1234, ..m }, "unknown type");
            add(CK_MECHANISM { pParameter: std::ptr::null_mut(), ulParameterLen: 16, ..m }, "null parameter of 16");
            add(CK_MECHANISM { pParameter: std::ptr::null_mut(), ulParameterLen: CK_ULONG::MAX, ..m }, "null parameter of -1");
            add(CK_MECHANISM { pParameter: std::ptr::null_mut(), ulParameterLen: 0, ..m }, "no parameter");
            add(CK_MECHANISM { pParameter: bp, ulParameterLen: 0, ..m }, "parameter of length 0");
            add(CK_MECHANISM { pParameter: bp, ulParameterLen: 1, ..m }, "parameter of length 1");
            add(CK_MECHANISM { pParameter: bp, ulParameterLen: 512, ..m }, "parameter of 512 zeros");
            r
        }
        RK::TmplPtr => {
            let n = c.args[i + 1].v;
            let t: Vec<CK_ATTRIBUTE> = unsafe { std::slice::from_raw_parts(a.v as *const CK_ATTRIBUTE, n) }.to_vec();
            let mut r = null();
            let mut add = |t: Vec<CK_ATTRIBUTE>, s: String| {
                r.push((t.as_ptr() as usize, s));
                bag.attrs.push(t);
            };
            for j in 0..n {
                let mut x = t.clone();
                x[j].pValue = std::ptr::null_mut();
                add(x, format!("null value of attribute {}", aname(t[j].type_)));
                let mut x = t.clone();
                x[j].type_ = 0x7fff_0000;
                add(x, format!("attribute {} of an unknown type", aname(t[j].type_)));
                let mut x = t.clone();
                x[j].ulValueLen = 0;
                add(x, format!("empty attribute {}", aname(t[j].type_)));
            }
            r
        }
        RK::TmplCnt => {
            let mut l = vec![0];
            if a.v > 1 {
                l.push(1);
            }
            v(&l)
        }
        RK::Flags => v(&[0, usize::MAX, 0x1234_5600]),
        RK::UserType => v(&[CKU_SO as usize, CKU_CONTEXT_SPECIFIC as usize, 9, usize::MAX]),
        RK::Val => v(&[0, 1, usize::MAX]),
        RK::Reserved => {
            bag.cells.push(Box::new([0, 0]));
            vec![(&**bag.cells.last().unwrap() as *const _ as usize, format!("reserved#{} not null", i))]
        }
    }
}
fn args(w: &mut W, tm: &Tmpl, st: S, idx: usize, depth: usize) {
    limit();
    let mut cx = Cx::new(w, tm, st);
    let mk = |cx: &Cx| {
        let mut v = session_calls(cx.s, &cx.k);
        v.extend(other_calls(1));
        v.swap_remove(idx)
    };
    if !cx.ready() {
        w.begin("state");
        panic!("harness: no state {:?}", st);
    }
    let mut call = mk(&cx);
    let mut bag = Bag::default();
    let mut bads: Vec<Vec<(usize, String)>> = (0..call.args.len()).map(|i| bad(&call, i, &cx, &mut bag)).collect();
    let n = call.args.len();
    // sets of positions to be bad at the same time
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..n {
        sets.push(vec![i]);
        for j in i + 1..n {
            sets.push(vec![i, j]);
            if depth > 2 {
                for k in j + 1..n {
                    sets.push(vec![i, j, k]);
                }
            }
        }
    }
    let mut cells: Vec<(usize, usize)> = vec![];
    let save = |call: &Call, bag: &Bag, cells: &mut Vec<(usize, usize)>| {
        cells.clear();
        for i in call.pos(RK::OutLenPtr) {
            let p = call.args[i].v;
            cells.push((p, unsafe { *(p as *const usize) }));
        }
        for b in &bag.cells {
            let p = &**b as *const _ as usize;
            cells.push((p, unsafe { *(p as *const usize) }));
        }
    };
    save(&call, &bag, &mut cells);
    for set in &sets {
        let mut ix = vec![0usize; set.len()];
        'vals: loop {
            // one case
            if w.case() {
                if !cx.ready() || !cx.usable() {
                    // an earlier call closed the session or logged out
                    cx = Cx::new(w, tm, st);
                    if !cx.ready() {
                        w.viol(&format!("{}:{:?}", call.name, st), "the library is not usable any more after a fresh start");
                        return;
                    }
                    call = mk(&cx);
                    bag = Bag::default();
                    bads = (0..n).map(|i| bad(&call, i, &cx, &mut bag)).collect();
                    save(&call, &bag, &mut cells);
                }
                for (p, v) in &cells {
                    unsafe { *(*p as *mut usize) = *v }
                }
                call.refill();
                let mut v: Vec<usize> = call.args.iter().map(|a| if a.k == RK::Sess { cx.s as usize } else { a.v }).collect();
                let mut what = vec![];
                for (a, b) in set.iter().zip(&ix) {
                    let (x, t) = &bads[*a][*b];
                    v[*a] = *x;
                    what.push(t.as_str());
                }
                w.begin(&format!("{:?}: {}", st, what.join(", ")));
                // destructive when it succeeds, and slow
                let skip = (call.name == "C_InitToken" || call.name == "C_CloseAllSessions") && set.is_empty();
                if !skip {
                    // capacity when the length is made smaller
                    let cap = call.pos(RK::OutLenPtr).first().map(|i| v[*i]).filter(|p| *p != 0).map(|p| unsafe { *(p as *const usize) });
                    note(&format!("state {:?}, {}", st, what.join(", ")));
                    let rv = call.run_with(&v);
                    w.eval();
                    w.add(TRANS, 1);
                    if !call.guards_ok(if call.pos(RK::OutPtr).len() == 1 { cap } else { None }) {
                        w.viol(&format!("{}:{}", call.what, what.join(",")), &format!("wrote past a buffer, {} with {}", rvs(rv), what.join(", ")));
                    }
                    if rvname(rv).is_none() && rv != CKR_FUNCTION_NOT_PARALLEL && rv != CKR_NO_EVENT {
                        w.viol(&format!("{}:rv{:#x}", call.what, rv), &format!("an undefined return value {:#x} with {}", rv, what.join(", ")));
                    }
                    w.distinct(&(call.what.as_str(), st, rv));
                }
            }
            let mut p = 0;
            loop {
                if p == ix.len() {
                    break 'vals;
                }
                ix[p] += 1;
                if ix[p] < bads[set[p]].len() {
                    break;
                }
                ix[p] = 0;
                p += 1;
            }
        }
    }
    if st != Off {
        w.begin(&format!("{:?}: {} afterwards", st, call.what));
        if !cx.usable() {
            Cx::new(w, tm, st);
        }
        let q = QUIET.replace(true);
        let _ = c!(C_CloseAllSessions, 1);
        let r = (|| -> R<()> {
            let s = open(1, true)?;
            if st == Fresh {
                if login(s, CKU_USER, UP) != 0 {
                    return Err(1);
                }
                let k = create(s, &seckey(CKK_AES, true, true, "left", &AESV).b(CKA_ENCRYPT, true))?;
                if destroy(s, k) != 0 {
                    return Err(2);
                }
            }
            Ok(())
        })();
        QUIET.set(q);
        // the PIN may have been changed or blocked by the calls themselves
        if r.is_err() && !["C_Login", "C_LoginUser", "C_SetPIN", "C_InitPIN", "C_InitToken"].contains(&call.name) {
            w.viol(&format!("{}:unusable", call.what), &format!("the library is not usable afterwards: {}", rvs(r.unwrap_err())));
        }
    }
}

// ------------------------------------------------------------------ mechanism parameters
/// changed copies of a mechanism's parameter
fn variants(m: &Mech, pairs: bool) -> Vec<(CK_MECHANISM, String, Option<Vec<u8>>)> {
    let mm = m.m;
    let n = mm.ulParameterLen as usize;
    let mut out: Vec<(CK_MECHANISM, String, Option<Vec<u8>>)> = vec![];
    let null = std::ptr::null_mut();
    let orig: Vec<u8> = if n > 0 { unsafe { std::slice::from_raw_parts(mm.pParameter as *const u8, n) }.to_vec() } else { vec![] };
    let mut whole = |p: Option<Vec<u8>>, n: usize, t: &str| {
        out.push((CK_MECHANISM { mechanism: mm.mechanism, pParameter: null, ulParameterLen: n as CK_ULONG }, t.to_string(), p));
    };
    whole(None, n.max(16), "null parameter with a length");
    whole(None, usize::MAX, "null parameter of -1 bytes");
    whole(None, 0, "no parameter");
    whole(Some(orig.clone()), 0, "parameter of length 0");
    for l in [1usize, 2, 3, 4, 7, 8, 12, 15, 16, 17, 24, 31, 32, 33, 40, 48, 64, 100, 1000] {
        let mut b = orig.clone();
        b.resize(l, 0);
        whole(Some(b), l, &format!("parameter cut or filled to {} bytes", l));
    }
    if n < 8 || n % 8 != 0 || n > 120 {
        // not a structure
        return out;
    }
    let words: Vec<usize> = orig.chunks(8).map(|c| usize::from_ne_bytes(c.try_into().unwrap())).collect();
    let isp = |i: usize| words.get(i).is_some_and(|v| (0x4000_0000_0000..0x8000_0000_0000).contains(v));
    let nullp: &[usize] = match mm.mechanism {
        CKM_RSA_PKCS_OAEP | CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE_DH => &[3],
        CKM_SP800_108_COUNTER_KDF | CKM_TLS12_MASTER_KEY_DERIVE_DH => &[4],
        CKM_SP800_108_FEEDBACK_KDF => &[4, 6],
        CKM_TLS12_KDF | CKM_TLS_KDF => &[7],
        CKM_ECDH1_DERIVE | CKM_ECDH1_COFACTOR_DERIVE => &[2],
        CKM_HKDF_DERIVE | CKM_HKDF_DATA => &[3],
        _ => &[],
    };
    let vals = |i: usize| -> Vec<usize> {
        let v = words[i];
        if nullp.contains(&i) {
            return vec![];
        }
        let mut r = if isp(i) {
            vec![0]
        } else if i == 2 && matches!(mm.mechanism, CKM_TLS12_KEY_AND_MAC_DERIVE | CKM_TLS12_KEY_SAFE_DERIVE) {
            // size of the IV output buffers: never more than they have
            vec![0, 1, 8, v.saturating_sub(8)]
        } else if isp(i + 1) || (i > 0 && isp(i - 1)) {
            // may be the length of the buffer: never more than it has
            vec![0, 1, v.saturating_sub(1), v / 2]
        } else {
            vec![0, 1, 2, 7, 8, 255, v.wrapping_add(1), v.wrapping_sub(1), v ^ 0xff00, 1 << 40, usize::MAX / 8 + 1, isize::MAX as usize, usize::MAX - 7, usize::MAX]
        };
        r.retain(|x| *x != v);
        r.sort();
        r.dedup();
        r
    };
    let mut put = |w: &[(usize, usize)]| {
        let mut x = words.clone();
        for (i, v) in w {
            x[*i] = *v;
        }
        let b: Vec<u8> = x.iter().flat_map(|x| x.to_ne_bytes()).collect();
        let t = w.iter().map(|(i, v)| format!("word {} = {:#x}", i, v)).collect::<Vec<_>>().join(", ");
        out.push((CK_MECHANISM { mechanism: mm.mechanism, pParameter: null, ulParameterLen: n as CK_ULONG }, t, Some(b)));
    };
    for i in 0..words.len() {
        for v in vals(i) {
            put(&[(i, v)]);
            if pairs {
                for j in i + 1..words.len() {
                    for u in vals(j) {
                        put(&[(i, v), (j, u)]);
                    }
                }
            }
        }
    }
    out
}
/// run an operation with a given mechanism to its end, in one part and in several
fn drive(env: &p18::Env, mi: &p18::Mi, op: p18::Op, m: &CK_MECHANISM, k: H, ky: p18::Ky, blob: &[u8], data: &[u8]) {
    use p18::Op::*;
    let s = env.s;
    let mech = Mech::new(0);
    let mech = {
        let mut x = mech;
        x.m = *m;
        x
    };
    let sig = [9u8; 256];
    let sig = &sig[..p18::siglen(mi)];
    let kd = match op {
        Enc => Kd::Enc,
        Dec => Kd::Dec,
        Sign => Kd::Sign,
        Ver => Kd::Ver,
        Vsig => Kd::Vsig,
        Wrap => {
            for cap in [None, Some(0), Some(512)] {
                wrap(s, &mech, k, if mi.t == CKM_RSA_X_509 { env.long } else { env.target }, cap);
            }
            return;
        }
        Unwrap => {
            if let Ok(h) = unwrap(s, &mech, k, blob, &p18::unwrapped()) {
                destroy(s, h);
            }
            return;
        }
        Derive => {
            if let Ok(h) = derive(s, &mech, k, &mi.derived(ky)) {
                destroy(s, h);
            }
            return;
        }
        MEnc | MDec => {
            let e = op == MEnc;
            let rv = if e { c!(C_MessageEncryptInit, s, mech.p(), k) } else { c!(C_MessageDecryptInit, s, mech.p(), k) };
            if rv == 0 {
                mcancel(s, e);
            }
            return;
        }
        SignRecover => {
            c!(C_SignRecoverInit, s, mech.p(), k);
            return;
        }
        VerRecover => {
            c!(C_VerifyRecoverInit, s, mech.p(), k);
            return;
        }
        MSign => {
            c!(C_MessageSignInit, s, mech.p(), k);
            return;
        }
        MVer => {
            c!(C_MessageVerifyInit, s, mech.p(), k);
            return;
        }
    };
    for multi in [false, true] {
        if kd.init(s, &mech, k, sig) != 0 {
            return;
        }
        if multi {
            let h = data.len() / 3;
            kd.update(s, &data[..h], Some(600));
            kd.update(s, &data[h..], Some(600));
            if kd.has_out() {
                kd.fin(s, sig, None);
            }
            kd.fin(s, sig, Some(600));
        } else {
            if kd.has_out() {
                kd.one(s, data, sig, None);
            }
            kd.one(s, data, sig, Some(600));
        }
        kd.null_init(s);
    }
}
fn blank_keys(env: &p18::Env, mi: &p18::Mi) -> Vec<(p18::Op, p18::Ky, H)> {
    let mut v = vec![];
    for op in p18::OPS {
        for ky in p18::kinds() {
            if mi.fits(op, ky) == Some(true) {
                if let Ok(k) = env.make(&ky.tmpl(false, mi.master(), &|_| true, None)) {
                    v.push((op, ky, k));
                    break;
                }
            }
        }
    }
    v
}
fn alive(env: &p18::Env) -> bool {
    let q = QUIET.replace(true);
    let s = env.s;
    let mut ok = digest_init(s, &Mech::new(CKM_SHA_1)) == 0;
    ok &= digest(s, b"abc", Some(20)).data.get(..4) == Some(&[0xa9, 0x99, 0x3e, 0x36]);
    ok &= get_size(s, env.target) && get_size(s, env.long);
    QUIET.set(q);
    ok
}
/// a case on a session; afterwards nothing was overrun and the library works
fn one(w: &mut W, env: &p18::Env, label: &str, f: impl FnOnce()) {
    if !w.case() {
        return;
    }
    w.begin(label);
    note(label);
    f();
    w.eval();
    w.add(TRANS, 1);
    if take_overrun() {
        w.viol(&format!("overrun:{}", label), &format!("wrote past a buffer: {}", label));
    }
    if !alive(env) {
        w.viol(&format!("unusable:{}", label), &format!("the library does not work after: {}", label));
    }
}
fn params(w: &mut W, tm: &Tmpl, mi: &p18::Mi, pairs: bool) {
    limit();
    let env = p18::Env::new(w, tm);
    let q = QUIET.replace(true);
    let blob = env.blob(mi);
    let keys = blank_keys(&env, mi);
    QUIET.set(q);
    let d = [0x33u8; 32];
    for (op, ky, k) in &keys {
        let m = mi.mech_for(*ky, env.target);
        for (mut v, t, keep) in variants(&m, pairs) {
            let keep = keep.map(|b| Edge::new(&b));
            if let Some(e) = &keep {
                v.pParameter = e.p as CK_VOID_PTR;
            }
            let label = format!("{} {:?} {}", mi.name, op, t);
            one(w, &env, &label, || drive(&env, mi, *op, &v, *k, *ky, &blob, &d));
            w.distinct(&label);
            drop(keep);
        }
    }
}
/// parameters that hold further structures
fn nested(w: &mut W, tm: &Tmpl) {
    limit();
    let env = p18::Env::new(w, tm);
    let q = QUIET.replace(true);
    let key = okr(create(env.s, &seckey(CKK_GENERIC_SECRET, false, false, "", &[0x5c; 48]).b(CKA_DERIVE, true)), "key");
    QUIET.set(q);
    let null = std::ptr::null_mut();
    // SP 800-108: every data parameter null, empty, short, of an unknown type
    for fb in [false, true] {
        let cf = CK_SP800_108_COUNTER_FORMAT { bLittleEndian: 0, ulWidthInBits: 16 };
        let df = CK_SP800_108_DKM_LENGTH_FORMAT { dkmLengthMethod: CK_SP800_108_DKM_LENGTH_SUM_OF_KEYS, bLittleEndian: 0, ulWidthInBits: 16 };
        let iv = [1u8; 32];
        let tmpl = T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET).ul(CKA_VALUE_LEN, 16).b(CKA_TOKEN, false);
        let raw = tmpl.raw();
        let types = [CK_SP800_108_ITERATION_VARIABLE, CK_SP800_108_COUNTER, CK_SP800_108_DKM_LENGTH, CK_SP800_108_BYTE_ARRAY, 99];
        let widths = [0, 1, 7, 8, 9, 12, 16, 24, 32, 33, 40, 48, 56, 64, 65, 72, 128, 1 << 20, CK_ULONG::MAX];
        let mut lists: Vec<(String, Vec<CK_PRF_DATA_PARAM>, Vec<Box<[u8]>>)> = vec![];
        let good = CK_PRF_DATA_PARAM { type_: CK_SP800_108_ITERATION_VARIABLE, pValue: if fb { null } else { &cf as *const _ as CK_VOID_PTR }, ulValueLen: if fb { 0 } else { 16 } };
        for t in types {
            for l in [0, 1, 8, 16, 24, CK_ULONG::MAX] {
                let bad = CK_PRF_DATA_PARAM { type_: t, pValue: null, ulValueLen: l };
                lists.push((format!("null {} of {}", t, l), vec![good, bad], vec![]));
                lists.push((format!("only null {} of {}", t, l), vec![bad], vec![]));
                if l <= 24 {
                    let e = vec![0x20u8; l as usize].into_boxed_slice();
                    let bad = CK_PRF_DATA_PARAM { type_: t, pValue: e.as_ptr() as CK_VOID_PTR, ulValueLen: l };
                    lists.push((format!("{} of {} bytes", t, l), vec![good, bad], vec![e]));
                }
            }
        }
        for width in widths {
            for t in [CK_SP800_108_ITERATION_VARIABLE, CK_SP800_108_COUNTER] {
                let x: Box<[u8]> = unsafe { std::slice::from_raw_parts(&CK_SP800_108_COUNTER_FORMAT { ulWidthInBits: width, ..cf } as *const _ as *const u8, 16) }.into();
                let p = CK_PRF_DATA_PARAM { type_: t, pValue: x.as_ptr() as CK_VOID_PTR, ulValueLen: 16 };
                lists.push((format!("{} of width {}", t, width), if t == CK_SP800_108_COUNTER { vec![good, p] } else { vec![p] }, vec![x]));
            }
            for meth in [0, CK_SP800_108_DKM_LENGTH_SUM_OF_KEYS, CK_SP800_108_DKM_LENGTH_SUM_OF_SEGMENTS, 77] {
                let x: Box<[u8]> = unsafe { std::slice::from_raw_parts(&CK_SP800_108_DKM_LENGTH_FORMAT { ulWidthInBits: width, dkmLengthMethod: meth, ..df } as *const _ as *const u8, 24) }.into();
                let p = CK_PRF_DATA_PARAM { type_: CK_SP800_108_DKM_LENGTH, pValue: x.as_ptr() as CK_VOID_PTR, ulValueLen: 24 };
                lists.push((format!("length method {} of width {}", meth, width), vec![good, p], vec![x]));
            }
        }
        lists.push(("none".into(), vec![], vec![]));
        let mut h1: CK_OBJECT_HANDLE = 0;
        let dk = |p: *mut CK_ATTRIBUTE, n: usize, h: *mut CK_OBJECT_HANDLE| CK_DERIVED_KEY { pTemplate: p, ulAttributeCount: n as CK_ULONG, phKey: h };
        let hp = &mut h1 as *mut _;
        let tp = raw.as_ptr() as *mut CK_ATTRIBUTE;
        let mut nv = raw.clone();
        nv[2].pValue = null;
        let huge = tmpl.clone().set(CKA_VALUE_LEN, &usize::MAX.to_ne_bytes());
        let huger = huge.raw();
        let big = tmpl.clone().set(CKA_VALUE_LEN, &(1usize << 40).to_ne_bytes());
        let bigr = big.raw();
        let extras = vec![
            ("no more keys", vec![]),
            ("one more", vec![dk(tp, raw.len(), hp)]),
            ("null template", vec![dk(null as *mut _, raw.len(), hp)]),
            ("null template, no attributes", vec![dk(null as *mut _, 0, hp)]),
            ("empty template", vec![dk(tp, 0, hp)]),
            ("null handle", vec![dk(tp, raw.len(), null as *mut _)]),
            ("null value", vec![dk(nv.as_ptr() as *mut _, nv.len(), hp)]),
            ("value length -1", vec![dk(huger.as_ptr() as *mut _, huger.len(), hp)]),
            ("value length 2^40", vec![dk(bigr.as_ptr() as *mut _, bigr.len(), hp)]),
            ("good and null handle", vec![dk(tp, raw.len(), hp), dk(tp, raw.len(), null as *mut _)]),
        ];
        for (lt, l, _keep) in &lists {
            for (et, e) in &extras {
                if *et != "no more keys" && !(lt.starts_with("none") || lt.contains("of width 16")) {
                    continue;
                }
                for (np, ne) in [(l.len(), e.len()), (0, e.len()), (l.len(), 0)] {
                    for (dnull, enull) in [(false, false), (true, false), (false, true)] {
                        let pd = if dnull || l.is_empty() { null } else { l.as_ptr() as CK_VOID_PTR };
                        let pe = if enull || e.is_empty() { null } else { e.as_ptr() as CK_VOID_PTR };
                        let m = if fb {
                            Mech::st(
                                CKM_SP800_108_FEEDBACK_KDF,
                                CK_SP800_108_FEEDBACK_KDF_PARAMS {
                                    prfType: CKM_SHA256_HMAC,
                                    ulNumberOfDataParams: np as CK_ULONG,
                                    pDataParams: pd as *mut _,
                                    ulIVLen: 32,
                                    pIV: iv.as_ptr() as *mut _,
                                    ulAdditionalDerivedKeys: ne as CK_ULONG,
                                    pAdditionalDerivedKeys: pe as *mut _,
                                },
                            )
                        } else {
                            Mech::st(
                                CKM_SP800_108_COUNTER_KDF,
                                CK_SP800_108_KDF_PARAMS {
                                    prfType: CKM_SHA256_HMAC,
                                    ulNumberOfDataParams: np as CK_ULONG,
                                    pDataParams: pd as *mut _,
                                    ulAdditionalDerivedKeys: ne as CK_ULONG,
                                    pAdditionalDerivedKeys: pe as *mut _,
                                },
                            )
                        };
                        let label = format!("SP800-108 {} {} / {} ({} {} {} {})", fb, lt, et, np, ne, dnull, enull);
                        one(w, &env, &label, || {
                            if let Ok(h) = derive(env.s, &m, key, &tmpl) {
                                destroy(env.s, h);
                            }
                            h1 = 0;
                        });
                        w.distinct(&label);
                    }
                }
            }
        }
    }
    // TLS key material
    let rnd = [7u8; 32];
    for t in [CKM_TLS12_KEY_AND_MAC_DERIVE, CKM_TLS12_KEY_SAFE_DERIVE] {
        for (mac, ke, iv) in [(32, 16, 16), (0, 16, 16), (32, 0, 16), (0, 0, 0), (0, 0, 16), (1, 1, 1), (4096, 4096, 4096), (1 << 57, 16, 16), (32, 1 << 57, 16), (32, 16, 1 << 57), (1 << 60, 1 << 60, 0), (1 << 36, 16, 0)] {
            for nulls in 0..16u32 {
                // the IV buffers hold what is asked for
                let big = vec![0u8; if iv <= 4096 { iv } else { 16 }];
                let pick = |b: u32, p: *const u8| if nulls >> b & 1 == 1 { null } else { p as CK_VOID_PTR };
                if iv > 4096 && nulls & 3 != 3 {
                    continue;
                }
                let out = CK_SSL3_KEY_MAT_OUT {
                    hClientMacSecret: 0,
                    hServerMacSecret: 0,
                    hClientKey: 0,
                    hServerKey: 0,
                    pIVClient: pick(0, big.as_ptr()) as *mut _,
                    pIVServer: pick(1, big.as_ptr()) as *mut _,
                };
                let p = CK_TLS12_KEY_MAT_PARAMS {
                    ulMacSizeInBits: 8usize.wrapping_mul(mac) as CK_ULONG,
                    ulKeySizeInBits: 8usize.wrapping_mul(ke) as CK_ULONG,
                    ulIVSizeInBits: 8usize.wrapping_mul(iv) as CK_ULONG,
                    bIsExport: 0,
                    RandomInfo: CK_SSL3_RANDOM_DATA { pClientRandom: rnd.as_ptr() as *mut _, ulClientRandomLen: 32, pServerRandom: pick(3, rnd.as_ptr()) as *mut _, ulServerRandomLen: 32 },
                    pReturnedKeyMaterial: pick(2, &out as *const _ as *const u8) as *mut _,
                    prfHashMechanism: CKM_SHA256,
                };
                let m = Mech::st(t, p);
                let label = format!("TLS key material {:#x} mac={} key={} iv={} nulls={:04b}", t, mac, ke, iv, nulls);
                one(w, &env, &label, || {
                    let _ = derive(env.s, &m, key, &T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET).b(CKA_TOKEN, false).s(CKA_LABEL, "km"));
                    let q = QUIET.replace(true);
                    for h in find(env.s, &T::new().s(CKA_LABEL, "km")).unwrap_or_default() {
                        destroy(env.s, h);
                    }
                    QUIET.set(q);
                });
                w.distinct(&label);
            }
        }
    }
    // parameters of single messages
    for ccm_ in [false, true] {
        let t = if ccm_ { CKM_AES_CCM } else { CKM_AES_GCM };
        let q = QUIET.replace(true);
        let aes = okr(create(env.s, &seckey(CKK_AES, false, false, "", &AESV).b(CKA_ENCRYPT, true).b(CKA_DECRYPT, true)), "key");
        QUIET.set(q);
        let iv = [1u8; 16];
        let tag = [2u8; 16];
        let ns = [0, 1, 7, 12, 16];
        for enc in [true, false] {
            for ivl in ns {
                for fixed in [0, 1, 64, 96, 97, 128, CK_ULONG::MAX] {
                    for gen_ in [CKG_NO_GENERATE, CKG_GENERATE, CKG_GENERATE_COUNTER, CKG_GENERATE_RANDOM, CKG_GENERATE_COUNTER_XOR, 77, CK_ULONG::MAX] {
                        for tl in [0, 1, 4, 12, 15, 16, 17, CK_ULONG::MAX / 8, CK_ULONG::MAX] {
                            for nulls in 0..3 {
                                if tl > 16 && tl < 100 && nulls != 2 {
                                    continue;
                                }
                                let pi = if nulls == 1 { null } else { iv.as_ptr() as CK_VOID_PTR } as *mut CK_BYTE;
                                let pt = if nulls == 2 { null } else { tag.as_ptr() as CK_VOID_PTR } as *mut CK_BYTE;
                                let g = CK_GCM_MESSAGE_PARAMS { pIv: pi, ulIvLen: ivl, ulIvFixedBits: fixed, ivGenerator: gen_, pTag: pt, ulTagBits: tl.wrapping_mul(8) };
                                let cc = CK_CCM_MESSAGE_PARAMS { ulDataLen: 16, pNonce: pi, ulNonceLen: ivl, ulNonceFixedBits: fixed, nonceGenerator: gen_, pMAC: pt, ulMACLen: tl };
                                let (pp, pl) = if ccm_ { (&cc as *const _ as CK_VOID_PTR, 56) } else { (&g as *const _ as CK_VOID_PTR, 48) };
                                let label = format!("message {} {} iv={} fixed={:#x} gen={:#x} tag={:#x} nulls={}", t, enc, ivl, fixed, gen_, tl, nulls);
                                one(w, &env, &label, || {
                                    let q = QUIET.replace(true);
                                    minit(env.s, enc, t, aes);
                                    let d = [3u8; 16];
                                    let mut o = [0u8; 64];
                                    let mut ol: CK_ULONG = 64;
                                    if enc {
                                        c!(C_EncryptMessage, env.s, pp, pl, bp(b"aad"), 3, bp(&d), 16, o.as_mut_ptr(), &mut ol);
                                        c!(C_EncryptMessageBegin, env.s, pp, pl, bp(b"aad"), 3);
                                        c!(C_EncryptMessageNext, env.s, pp, pl, bp(&d), 8, o.as_mut_ptr(), &mut ol, 0);
                                        ol = 64;
                                        c!(C_EncryptMessageNext, env.s, pp, pl, bp(&d), 8, o.as_mut_ptr(), &mut ol, CKF_END_OF_MESSAGE);
                                    } else {
                                        c!(C_DecryptMessage, env.s, pp, pl, bp(b"aad"), 3, bp(&d), 16, o.as_mut_ptr(), &mut ol);
                                        c!(C_DecryptMessageBegin, env.s, pp, pl, bp(b"aad"), 3);
                                        c!(C_DecryptMessageNext, env.s, pp, pl, bp(&d), 8, o.as_mut_ptr(), &mut ol, 0);
                                        ol = 64;
                                        c!(C_DecryptMessageNext, env.s, pp, pl, bp(&d), 8, o.as_mut_ptr(), &mut ol, CKF_END_OF_MESSAGE);
                                    }
                                    mcancel(env.s, enc);
                                    QUIET.set(q);
                                });
                                w.distinct(&label);
                            }
                        }
                    }
                }
            }
        }
    }
}
/// data of every small length
fn lengths(w: &mut W, tm: &Tmpl, mi: &p18::Mi, th: bool) {
    limit();
    let env = p18::Env::new(w, tm);
    let q = QUIET.replace(true);
    let blob = env.blob(mi);
    let keys = blank_keys(&env, mi);
    QUIET.set(q);
    let mut ls: Vec<usize> = (0..=if th { 80 } else { 34 }).collect();
    ls.extend([47, 48, 49, 63, 64, 65, 127, 128, 129, 245, 246, 255, 256, 257, 511, 512, 513]);
    for (op, ky, k) in &keys {
        let m = mi.mech_for(*ky, env.target);
        for fill in [0u8, 0xff, 0x61] {
            for l in &ls {
                let d = vec![fill; *l];
                let blob: &[u8] = if *op == p18::Op::Unwrap { &d } else { &blob };
                let label = format!("{} {:?} {} bytes {:#x}", mi.name, op, l, fill);
                one(w, &env, &label, || drive(&env, mi, *op, &m.m, *k, *ky, blob, &d));
                w.distinct(&label);
            }
        }
    }
}

// ------------------------------------------------------------------ attributes
/// changed copies of one attribute
fn attr_variants(v: &[u8]) -> Vec<(&'static str, Option<Vec<u8>>, usize)> {
    let n = v.len();
    let mut r: Vec<(&'static str, Option<Vec<u8>>, usize)> = vec![
        ("null", None, n.max(8)),
        ("null of 1", None, 1),
        ("null of 0", None, 0),
        ("null of -1", None, usize::MAX),
        ("null of CKA-1", None, isize::MAX as usize),
        ("empty", Some(v.to_vec()), 0),
    ];
    let mut add = |t, x: Vec<u8>| {
        let l = x.len();
        if x != v {
            r.push((t, Some(x), l));
        }
    };
    add("one byte", vec![1]);
    add("short by one", v[..n.saturating_sub(1)].to_vec());
    add("long by one", [v, &[0]].concat());
    add("half", v[..n / 2].to_vec());
    add("zeros", vec![0; n]);
    add("ones", vec![0xff; n]);
    add("top bit", [&vec![0; n.saturating_sub(1)][..], &[0x80]].concat());
    add("leading zero", [&[0], v].concat());
    add("eight zeros", vec![0; 8]);
    add("eight ones", vec![0xff; 8]);
    add("2^40", (1u64 << 40).to_ne_bytes().to_vec());
    add("three", 3u64.to_ne_bytes().to_vec());
    add("100 bytes", vec![0x41; 100]);
    r
}
/// raw template with one attribute changed or added
struct Raw {
    a: Vec<CK_ATTRIBUTE>,
    _e: Edge,
    _t: T,
    label: String,
}
fn tmpl_variants(t: &T, extra: &[CK_ATTRIBUTE_TYPE]) -> Vec<Raw> {
    let mut out = vec![];
    let mut put = |base: &T, pos: Option<usize>, ty: CK_ATTRIBUTE_TYPE, v: &(&'static str, Option<Vec<u8>>, usize), what: &str| {
        let base = base.clone();
        let mut a = base.raw();
        let e = Edge::new(v.1.as_deref().unwrap_or(&[]));
        let x = CK_ATTRIBUTE { type_: ty, pValue: if v.1.is_some() { e.p as CK_VOID_PTR } else { std::ptr::null_mut() }, ulValueLen: v.2 as CK_ULONG };
        match pos {
            Some(p) => a[p] = x,
            None => a.push(x),
        }
        out.push(Raw { a, _e: e, _t: base, label: format!("{} {} {}", what, aname(ty), v.0) });
    };
    for i in 0..t.0.len() {
        let (ty, v) = &t.0[i];
        for x in attr_variants(v) {
            put(t, Some(i), *ty, &x, "changed");
        }
        put(t, Some(i), 0x7fff_1234, &("as it was", Some(v.clone()), v.len()), "unknown");
        put(t, None, *ty, &("again", Some(v.clone()), v.len()), "twice");
    }
    for ty in extra {
        if t.get(*ty).is_some() {
            continue;
        }
        for x in attr_variants(&[]) {
            put(t, None, *ty, &x, "added");
        }
    }
    out
}
fn extra_attrs() -> Vec<CK_ATTRIBUTE_TYPE> {
    let mut v = ALL_ATTRS.to_vec();
    v.extend([
        CKA_WRAP_TEMPLATE,
        CKA_UNWRAP_TEMPLATE,
        CKA_DERIVE_TEMPLATE,
        CKA_URL,
        CKA_HASH_OF_SUBJECT_PUBLIC_KEY,
        CKA_NAME_HASH_ALGORITHM,
        CKA_JAVA_MIDP_SECURITY_DOMAIN,
        CKA_AC_ISSUER,
        CKA_OWNER,
        CKA_ATTR_TYPES,
        CKA_SUBPRIME,
        CKA_PRIME_BITS,
        CKA_PARAMETER_SET,
        CKA_SEED,
        CKA_OTP_TIME,
        CKA_VENDOR_DEFINED,
        CK_ULONG::MAX,
    ]);
    v.sort();
    v.dedup();
    v
}
fn craw(s: H, a: &[CK_ATTRIBUTE]) -> R<H> {
    let mut h = 0;
    let rv = c!(C_CreateObject, s, a.as_ptr() as *mut _, a.len() as CK_ULONG, &mut h);
    tr!("C_CreateObject({} attributes) -> {}", a.len(), rvs(rv));
    if rv == 0 { Ok(h) } else { Err(rv) }
}
/// use an oddly made object in every way its kind has
fn exercise(env: &p18::Env, tab: &[p18::Mi], h: H, ky: Option<p18::Ky>, blob: &[u8]) {
    let s = env.s;
    let q = QUIET.replace(true);
    for a in ALL_ATTRS {
        let _ = get(s, h, *a);
    }
    get_size(s, h);
    if let Ok(c) = copy(s, h, &T::new().s(CKA_LABEL, "copy")) {
        destroy(s, c);
    }
    QUIET.set(q);
    let Some(ky) = ky else { return };
    for mi in tab {
        for op in p18::OPS {
            if mi.fits(op, ky) == Some(true) {
                let m = mi.mech_for(ky, env.target);
                note(&format!("{} {:?}", mi.name, op));
                let q = QUIET.replace(true);
                drive(env, mi, op, &m.m, h, ky, blob, &[0x33; 32]);
                QUIET.set(q);
                // one mechanism of a kind is enough for the many hashes
            }
        }
    }
    let q = QUIET.replace(true);
    for w in [CKM_AES_KEY_WRAP_KWP] {
        let _ = wrap(s, &Mech::new(w), env.target, h, Some(4000));
    }
    let k = okr(create(s, &seckey(CKK_AES, false, false, "", &AESV).b(CKA_WRAP, true)), "wrapping key");
    wrap(s, &Mech::new(CKM_AES_KEY_WRAP_KWP), k, h, Some(4000));
    destroy(s, k);
    if digest_init(s, &Mech::new(CKM_SHA256)) == 0 {
        digest_key(s, h);
        digest_final(s, Some(32));
    }
    QUIET.set(q);
}
fn ky_of(k: Kind) -> Option<p18::Ky> {
    use p18::Ky::*;
    Some(match k {
        Kind::Aes => Sec(CKK_AES),
        Kind::Generic => Sec(CKK_GENERIC_SECRET),
        Kind::Hotp => Hotp,
        Kind::EcPriv => EcPriv,
        Kind::EcPub => EcPub,
        Kind::RsaPriv => RsaPriv,
        Kind::RsaPub => RsaPub,
        Kind::DhPriv => DhPriv,
        Kind::DhPub => DhPub,
        Kind::MontPriv => MontPriv,
        _ => return None,
    })
}
/// few mechanisms that stand for all that touch a key's value in another way
fn short_table() -> Vec<p18::Mi> {
    let seen = std::cell::RefCell::new(vec![]);
    p18::table()
        .into_iter()
        .filter(|m| {
            let k = match m.need {
                p18::Need::Aes | p18::Need::Rsa | p18::Need::Dh | p18::Need::Ecdh | p18::Need::Hotp | p18::Need::PubFromPriv => return !m.name.starts_with("RSA_S") && !m.name.starts_with("PSS_S"),
                p18::Need::Hmac(_) => "hmac".to_string(),
                x => format!("{:?}", x).split('(').next().unwrap().to_string(),
            };
            let mut v = seen.borrow_mut();
            let n = v.iter().filter(|x| **x == k).count();
            v.push(k);
            n < 2
        })
        .collect()
}
const NTM: usize = 8;
fn attributes(w: &mut W, tm: &Tmpl, i: usize) {
    limit();
    let (kind, part) = (KINDS[i / NTM], i % NTM);
    let env = p18::Env::new(w, tm);
    let tab = short_table();
    let s = env.s;
    let mut t = kind.tmpl(false, false);
    if let Some(ky) = ky_of(kind) {
        t = ky.tmpl(false, false, &|_| true, None);
    }
    if kind.secret() {
        t = t.setb(CKA_SENSITIVE, false).setb(CKA_EXTRACTABLE, true);
    }
    if kind == Kind::Hotp {
        t = t.setb(CKA_SENSITIVE, true).setb(CKA_EXTRACTABLE, false);
    }
    let extra = extra_attrs();
    let vs = tmpl_variants(&t, &extra);
    let blob = vec![7u8; 40];
    // creation
    for (n, r) in vs.iter().enumerate() {
        if n % NTM != part {
            continue;
        }
        let label = format!("create {:?}: {}", kind, r.label);
        one(w, &env, &label, || {
            if let Ok(h) = craw(s, &r.a) {
                exercise(&env, &tab, h, ky_of(kind), &blob);
                let q = QUIET.replace(true);
                if destroy(s, h) != 0 {
                    // not destroyable: gone with the session
                }
                QUIET.set(q);
            }
        });
        w.distinct(&label);
    }
    // changes, copies, searches with single odd attributes
    let q = QUIET.replace(true);
    let h = okr(create(s, &t), "object");
    QUIET.set(q);
    for (n, ty) in extra.iter().enumerate() {
        if n % NTM != part {
            continue;
        }
        let v0 = t.get(*ty).unwrap_or(&[]).to_vec();
        for x in attr_variants(&v0) {
            let e = Edge::new(x.1.as_deref().unwrap_or(&[]));
            let a = [CK_ATTRIBUTE { type_: *ty, pValue: if x.1.is_some() { e.p as CK_VOID_PTR } else { std::ptr::null_mut() }, ulValueLen: x.2 as CK_ULONG }];
            let ap = a.as_ptr() as *mut CK_ATTRIBUTE;
            let label = format!("{:?} {} {}", kind, aname(*ty), x.0);
            one(w, &env, &format!("find {}", label), || {
                if c!(C_FindObjectsInit, s, ap, 1) == 0 {
                    let mut hs = [0 as CK_OBJECT_HANDLE; 8];
                    let mut n = 0;
                    c!(C_FindObjects, s, hs.as_mut_ptr(), 8, &mut n);
                    c!(C_FindObjectsFinal, s);
                }
            });
            one(w, &env, &format!("copy {}", label), || {
                let mut c2 = 0;
                if c!(C_CopyObject, s, h, ap, 1, &mut c2) == 0 {
                    exercise(&env, &[], c2, None, &blob);
                    destroy(s, c2);
                }
            });
            one(w, &env, &format!("set {}", label), || {
                let q = QUIET.replace(true);
                if let Ok(c2) = copy(s, h, &T::new()) {
                    QUIET.set(q);
                    let rv = c!(C_SetAttributeValue, s, c2, ap, 1);
                    tr!("C_SetAttributeValue({}) -> {}", label, rvs(rv));
                    if rv == 0 {
                        exercise(&env, &tab, c2, ky_of(kind), &blob);
                    }
                    let _ = QUIET.replace(true);
                    destroy(s, c2);
                }
                QUIET.set(q);
            });
            w.distinct(&label);
        }
        // reading with odd lengths
        for (p, l) in [(false, 0usize), (false, 8), (false, usize::MAX), (true, 0), (true, 1), (true, 3), (true, 7), (true, 9), (true, 600)] {
            let label = format!("get {:?} {} {} {:#x}", kind, aname(*ty), p, l);
            one(w, &env, &label, || {
                let mut b = vec![GUARD; 700];
                let mut a = [CK_ATTRIBUTE { type_: *ty, pValue: if p { b.as_mut_ptr() as CK_VOID_PTR } else { std::ptr::null_mut() }, ulValueLen: l as CK_ULONG }];
                let rv = c!(C_GetAttributeValue, s, h, a.as_mut_ptr(), 1);
                tr!("C_GetAttributeValue -> {}", rvs(rv));
                if b[if p { l } else { 0 }..].iter().any(|x| *x != GUARD) {
                    flag_overrun();
                }
            });
        }
    }
}
/// generation, unwrapping and derivation with odd templates
fn generation(w: &mut W, tm: &Tmpl, i: usize) {
    limit();
    let env = p18::Env::new(w, tm);
    let s = env.s;
    let (name, part) = (["aes", "generic", "ec", "rsa", "dh", "mont", "unwrap", "derive", "pubfrompriv", "dhparam"][i / NTM], i % NTM);
    let q = QUIET.replace(true);
    let aes = okr(create(s, &seckey(CKK_AES, false, false, "", &AESV).b(CKA_UNWRAP, true).b(CKA_WRAP, true)), "aes");
    let rsa = okr(create(s, &rsa_priv(false, false)), "rsa");
    let blob = wrap(s, &Mech::new(CKM_AES_KEY_WRAP), aes, env.long, Some(512)).data;
    let base = okr(create(s, &seckey(CKK_GENERIC_SECRET, false, false, "", &GENV).b(CKA_DERIVE, true)), "base");
    QUIET.set(q);
    let extra = extra_attrs();
    let sk = || T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET).b(CKA_TOKEN, false);
    let pubp = |t: T| (t.b(CKA_TOKEN, false).b(CKA_PRIVATE, false), T::new().b(CKA_TOKEN, false).b(CKA_PRIVATE, false));
    let rsa_only = [CKA_MODULUS_BITS, CKA_PUBLIC_EXPONENT, CKA_MODULUS];
    let (t1, t2): (T, Option<T>) = match name {
        "aes" => (T::new().ul(CKA_VALUE_LEN, 16).b(CKA_TOKEN, false), None),
        "generic" => (T::new().ul(CKA_VALUE_LEN, 16).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET).b(CKA_TOKEN, false), None),
        "ec" => {
            let p = pubp(T::new().d(CKA_EC_PARAMS, &P256));
            (p.0, Some(p.1))
        }
        "mont" => {
            let p = pubp(T::new().d(CKA_EC_PARAMS, &X25519));
            (p.0, Some(p.1))
        }
        "rsa" => {
            let p = pubp(T::new().ul(CKA_MODULUS_BITS, 1024).d(CKA_PUBLIC_EXPONENT, &[1, 0, 1]));
            (p.0, Some(p.1))
        }
        "dh" => {
            let p = pubp(T::new().d(CKA_PRIME, &hx(FFDHE2048)).d(CKA_BASE, &[2]));
            (p.0, Some(p.1))
        }
        "unwrap" => (sk().ul(CKA_VALUE_LEN, 256), None),
        "derive" => (sk().ul(CKA_VALUE_LEN, 16), None),
        "pubfrompriv" => (T::new().ul(CKA_CLASS, CKO_PUBLIC_KEY).ul(CKA_KEY_TYPE, CKK_RSA).b(CKA_TOKEN, false), None),
        _ => (T::new().ul(CKA_PRIME_BITS, 2048), None),
    };
    let gm = match name {
        "aes" => CKM_AES_KEY_GEN,
        "generic" => CKM_GENERIC_SECRET_KEY_GEN,
        "ec" => CKM_EC_KEY_PAIR_GEN,
        "mont" => CKM_EC_MONTGOMERY_KEY_PAIR_GEN,
        "rsa" => CKM_RSA_PKCS_KEY_PAIR_GEN,
        "dh" => CKM_DH_PKCS_KEY_PAIR_GEN,
        _ => CKM_DH_PKCS_PARAMETER_GEN,
    };
    let mut run1 = |w: &mut W, a: &[CK_ATTRIBUTE], b: Option<&[CK_ATTRIBUTE]>, label: &str| {
        one(w, &env, label, || {
            let ap = a.as_ptr() as *mut CK_ATTRIBUTE;
            let n = a.len() as CK_ULONG;
            let mut hs = [0 as CK_OBJECT_HANDLE; 2];
            let rv = match name {
                "unwrap" => c!(C_UnwrapKey, s, Mech::new(CKM_AES_KEY_WRAP).p(), aes, bp(&blob), blob.len() as CK_ULONG, ap, n, &mut hs[0]),
                "derive" => {
                    let mut rv = 0;
                    for m in [
                        crate::kdf::hkdf(CKM_HKDF_DERIVE, CKM_SHA256, true, true, &crate::kdf::Salt::Null, b"i"),
                        str_mech(CKM_CONCATENATE_BASE_AND_DATA, &[1, 2, 3]),
                        str_mech(CKM_XOR_BASE_AND_DATA, &[1; 20]),
                        crate::kdf::extract(3),
                        Mech::new(CKM_SHA256_KEY_DERIVATION),
                        crate::kdf::sp800(&crate::kdf::Mode108::Counter, CKM_SHA256_HMAC, &[crate::kdf::Dp::Iter(Some((false, 32)))], &[]).0,
                        crate::kdf::sshkdf(CKM_SHA256, b'C', &[3; 32], &[4; 32]),
                        crate::kdf::tls_kdf(CKM_TLS_KDF, CKM_SHA256, b"label", &[1; 32], &[2; 32], b""),
                    ] {
                        rv = c!(C_DeriveKey, s, m.p(), base, ap, n, &mut hs[0]);
                        tr!("{} -> {}", m.name, rvs(rv));
                        if rv == 0 {
                            destroy(s, hs[0]);
                            hs[0] = 0;
                        }
                    }
                    rv
                }
                "pubfrompriv" => c!(C_DeriveKey, s, Mech::new(CKM_PUB_KEY_FROM_PRIV_KEY).p(), rsa, ap, n, &mut hs[0]),
                _ => match b {
                    Some(b) => c!(C_GenerateKeyPair, s, Mech::new(gm).p(), ap, n, b.as_ptr() as *mut _, b.len() as CK_ULONG, &mut hs[0], &mut hs[1]),
                    None => c!(C_GenerateKey, s, Mech::new(gm).p(), ap, n, &mut hs[0]),
                },
            };
            tr!("{} -> {}", name, rvs(rv));
            let q = QUIET.replace(true);
            for h in hs {
                if h != 0 {
                    for a in [CKA_VALUE, CKA_MODULUS, CKA_EC_POINT, CKA_KEY_TYPE] {
                        let _ = get(s, h, a);
                    }
                    destroy(s, h);
                }
            }
            QUIET.set(q);
        });
        w.distinct(&label);
    };
    let some = |t: &T| -> Vec<Raw> {
        if name == "rsa" || name == "dhparam" {
            // slow when it succeeds
            tmpl_variants(t, &[]).into_iter().filter(|r| rsa_only.iter().any(|a| r.label.contains(&aname(*a))) || r.label.contains("null")).collect()
        } else {
            tmpl_variants(t, &extra)
        }
    };
    for (n, r) in some(&t1).iter().enumerate() {
        if n % NTM == part {
            let b = t2.as_ref().map(|t| t.raw());
            run1(w, &r.a, b.as_deref(), &format!("{}: {}", name, r.label));
        }
    }
    if let Some(t2) = &t2 {
        let a = t1.raw();
        for (n, r) in some(t2).iter().enumerate() {
            if n % NTM == part {
                run1(w, &a, Some(&r.a), &format!("{} second template: {}", name, r.label));
            }
        }
    }
    // sizes
    if part == 0 && name != "dhparam" {
        for bits in [0u64, 1, 2, 7, 8, 15, 16, 64, 511, 512, 513, 1000, 1023, 1025, 16385, 32768, 65536,  u64::MAX / 8, u64::MAX] {
            for a in [CKA_MODULUS_BITS, CKA_VALUE_LEN, CKA_VALUE_BITS] {
                if name == "rsa" && (1000..=1025).contains(&bits) && a != CKA_MODULUS_BITS {
                    continue;
                }
                let t = t1.clone().set(a, &bits.to_ne_bytes());
                let b = t2.as_ref().map(|t| t.raw());
                run1(w, &t.raw(), b.as_deref(), &format!("{}: {} = {:#x}", name, aname(a), bits));
            }
        }
    }
}
/// functions without a session, and the life cycle with odd arguments
fn general(w: &mut W, tm: &Tmpl) {
    let q = QUIET.replace(true);
    tm.restore(&w.dir);
    QUIET.set(q);
    let good = init_args(&w.dir);
    let cs = std::ffi::CString::new(good.clone()).unwrap();
    extern "C" fn m1(_: CK_VOID_PTR_PTR) -> CK_RV {
        0
    }
    extern "C" fn m2(_: CK_VOID_PTR) -> CK_RV {
        0
    }
    let strs: Vec<Vec<u8>> = vec![
        b"\0".to_vec(),
        b" \0".to_vec(),
        b"=\0".to_vec(),
        b"kryoptic_conf=\0".to_vec(),
        b"kryoptic_conf=/nonexistent/x\0".to_vec(),
        b"kryoptic_conf=/dev/null\0".to_vec(),
        b"configDir='\0".to_vec(),
        b"configDir=\0".to_vec(),
        b"configDir='/nonexistent' certPrefix='\xff\xfe'\0".to_vec(),
        b"\xff\xfe\0".to_vec(),
        b"flags=readOnly,noCertDB\0".to_vec(),
        b"parameters=\0".to_vec(),
        b"a=b=c\0".to_vec(),
        vec![b'x'; 5000].into_iter().chain([0]).collect(),
    ];
    for mask in 0..16u32 {
        for flags in [0, CKF_OS_LOCKING_OK, CKF_LIBRARY_CANT_CREATE_OS_THREADS, 3, 4, CK_ULONG::MAX] {
            for ri in 0..strs.len() + 2 {
                if ri > 1 && (mask != 0 || flags != CKF_OS_LOCKING_OK) {
                    continue;
                }
                let r = match ri {
                    0 => std::ptr::null(),
                    1 => cs.as_ptr() as *const u8,
                    n => strs[n - 2].as_ptr(),
                };
                if !w.case() {
                    continue;
                }
                let label = format!("C_Initialize mask={:04b} flags={:#x} reserved={}", mask, flags, ri);
                w.begin(&label);
                let mut a = CK_C_INITIALIZE_ARGS {
                    CreateMutex: if mask & 1 != 0 { Some(m1) } else { None },
                    DestroyMutex: if mask & 2 != 0 { Some(m2) } else { None },
                    LockMutex: if mask & 4 != 0 { Some(m2) } else { None },
                    UnlockMutex: if mask & 8 != 0 { Some(m2) } else { None },
                    flags,
                    pReserved: r as CK_VOID_PTR,
                };
                let rv = c!(C_Initialize, &mut a as *mut _ as CK_VOID_PTR);
                tr!("{} -> {}", label, rvs(rv));
                if rv == 0 {
                    let mut n: CK_ULONG = 0;
                    c!(C_GetSlotList, 0, std::ptr::null_mut(), &mut n);
                    tr!("{} slots", n);
                }
                let f = c!(C_Finalize, std::ptr::null_mut());
                w.eval();
                w.add(TRANS, 2);
                if (rv == 0) != (f == 0) {
                    w.viol(&label, &format!("C_Initialize gave {} and C_Finalize then {}", rvs(rv), rvs(f)));
                }
                let rv = initialize(&good);
                let s = open(1, false);
                if rv != 0 || s.is_err() {
                    w.viol(&label, &format!("a proper C_Initialize afterwards gives {}, C_OpenSession {}", rvs(rv), rvs(rvr(&s))));
                }
                finalize();
                w.distinct(&label);
            }
        }
    }
    // with and without the library initialised
    for on in [false, true] {
        if on {
            ok(initialize(&good), "initialize");
        }
        let x = 5usize;
        let mut fl: *mut CK_FUNCTION_LIST = std::ptr::null_mut();
        let mut n: CK_ULONG = 0;
        let names: [Option<&[u8]>; 5] = [None, Some(b"PKCS 11\0"), Some(b"\0"), Some(b"unknown\0"), Some(b"\xff\xfe\0")];
        let vers = [None, Some((3, 0)), Some((3, 2)), Some((2, 40)), Some((0, 0)), Some((255, 255))];
        for nm in names {
            for v in vers {
                for f in [0, 1, CK_FLAGS::MAX] {
                    for out in [false, true] {
                        if !w.case() {
                            continue;
                        }
                        let label = format!("C_GetInterface {:?} {:?} {:#x} {} {}", nm, v, f, out, on);
                        w.begin(&label);
                        let mut ver = v.map(|(a, b)| CK_VERSION { major: a, minor: b });
                        let mut ip: CK_INTERFACE_PTR = std::ptr::null_mut();
                        let rv = c!(
                            C_GetInterface,
                            nm.map_or(std::ptr::null_mut(), |x| x.as_ptr() as *mut _),
                            ver.as_mut().map_or(std::ptr::null_mut(), |x| x as *mut _),
                            if out { &mut ip as *mut _ as *mut _ } else { std::ptr::null_mut() },
                            f,
                        );
                        w.eval();
                        if rv == 0 && (!out || ip.is_null()) {
                            w.viol(&label, "CKR_OK without an interface");
                        }
                        w.distinct(&label);
                    }
                }
            }
        }
        for (i, f) in [0, 1, 2, 3].iter().enumerate() {
            if !w.case() {
                continue;
            }
            w.begin(&format!("general functions {} {}", i, on));
            let null = std::ptr::null_mut();
            match f {
                0 => {
                    assert_ne!(c!(C_GetFunctionList, null as *mut _), 0);
                    assert_eq!(c!(C_GetFunctionList, &mut fl as *mut _ as *mut _), 0);
                }
                1 => {
                    c!(C_GetInterfaceList, null as *mut _, null as *mut _);
                    c!(C_GetInterfaceList, null as *mut _, &mut n);
                    let mut b: [CK_INTERFACE; 8] = unsafe { std::mem::zeroed() };
                    for k in 0..n {
                        let mut m = k;
                        let rv = c!(C_GetInterfaceList, b.as_mut_ptr(), &mut m);
                        if rv == 0 || !b[k as usize].pInterfaceName.is_null() {
                            w.viol("C_GetInterfaceList", &format!("room for {} of {} interfaces: {}", k, n, rvs(rv)));
                        }
                    }
                }
                2 => {
                    // the answer is not judged: it only has to be safe
                    c!(C_Finalize, &x as *const _ as CK_VOID_PTR);
                }
                _ => {
                    c!(C_Initialize, null);
                    let mut m: CK_ULONG = 0;
                    c!(C_GetSlotList, 1, null as *mut _, &mut m);
                    for k in 0..m {
                        let mut b = vec![0xabab as CK_SLOT_ID; 20];
                        let mut j = k;
                        c!(C_GetSlotList, 1, b.as_mut_ptr(), &mut j);
                        if b[k as usize..].iter().any(|x| *x != 0xabab) {
                            w.viol("C_GetSlotList", "wrote past the buffer");
                        }
                    }
                    let mut m: CK_ULONG = 0;
                    let rv = c!(C_GetMechanismList, 1, null as *mut _, &mut m);
                    if rv == 0 {
                        for k in 0..m {
                            let mut b = vec![0xabab as CK_MECHANISM_TYPE; m as usize];
                            let mut j = k;
                            let rv = c!(C_GetMechanismList, 1, b.as_mut_ptr(), &mut j);
                            if rv == 0 || b[k as usize..].iter().any(|x| *x != 0xabab) {
                                w.viol("C_GetMechanismList", &format!("room for {} of {}: {}", k, m, rvs(rv)));
                            }
                        }
                    }
                }
            }
            w.eval();
        }
        let _ = finalize();
    }
}

pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    let th = o.tier.thorough();
    let tm = Tmpl::std(sc, Db::Sqlite);
    let tr = &tm;
    let tab = p18::table();
    let tabr = &tab;
    let ncalls = session_calls(1, &Keys::default()).len() + other_calls(1).len();
    let dev = std::env::var("P27_ST").is_ok();
    let depth = if th { 3 } else { 2 };
    let stages = vec![
        Stage::new("arguments", ncalls * ST.len(), move |w: &mut W, i| {
            if dev && ST[i % ST.len()] != Fresh {
                return;
            }
            args(w, tr, ST[i % ST.len()], i / ST.len(), depth)
        }),
        Stage::new("parameters", tab.len(), move |w: &mut W, i| params(w, tr, &tabr[i], true)),
        Stage::new("nested", 1, move |w: &mut W, _| nested(w, tr)),
        Stage::new("lengths", tab.len(), move |w: &mut W, i| lengths(w, tr, &tabr[i], th)),
        Stage::new("attributes", KINDS.len() * NTM, move |w: &mut W, i| attributes(w, tr, i)),
        Stage::new("generation", 10 * NTM, move |w: &mut W, i| generation(w, tr, i)),
        Stage::new("general", 1, move |w: &mut W, _| general(w, tr)),
    ];
    crate::engine::run(
        Check {
            prop: "P27",
            level: "exploration",
            rule: "every call of the API with every argument replaced by null, wild handles, zero, tiny and extreme lengths, singly and in pairs (thorough: triples), in 27 session states; every mechanism parameter cut, filled, nulled and with every word (and pair of words) set to extreme values; nested parameter structures; declared lengths against guard pages; malformed attributes in templates and on keys that are then used; key sizes; initialisation arguments. A crash, a write past a declared buffer, or a library that no longer works is a violation",
            assumptions: vec![
                "a non-null pointer points to memory of the declared length: lengths above the real buffer, which no library could detect, are not tried".into(),
                "workers run under a 6 GB address-space limit; sizes between 2^20 and 2^32 bytes, which are legitimate requests for memory, are not tried".into(),
            ],
            extra: vec![],
        },
        sc,
        o,
        stages,
    )
}
