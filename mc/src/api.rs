//! Thin typed wrapper over the PKCS#11 3.2 function table of the real library.
//! Every call is written to the trace of the current execution.
#![allow(dead_code)]
use kryoptic_lib::pkcs11::*;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::ptr::null_mut;
use std::sync::OnceLock;

pub type Rv = CK_RV;
pub type H = CK_ULONG;
pub type R<T> = Result<T, Rv>;
pub const GUARD: u8 = 0xA7;
pub const GUARD_LEN: usize = 32;

struct FnPtr(*mut CK_FUNCTION_LIST_3_2);
unsafe impl Send for FnPtr {}
unsafe impl Sync for FnPtr {}
static FNS: OnceLock<FnPtr> = OnceLock::new();

pub fn fl() -> &'static CK_FUNCTION_LIST_3_2 {
    let p = FNS.get_or_init(|| {
        let mut ver = CK_VERSION { major: 3, minor: 2 };
        let mut iface: CK_INTERFACE_PTR = null_mut();
        let name = b"PKCS 11\0";
        let rv = kryoptic_lib::fns::general::fn_get_interface(
            name.as_ptr() as *mut _,
            &mut ver,
            &mut iface as *mut _ as *mut _,
            0,
        );
        assert_eq!(rv, CKR_OK, "no 3.2 interface");
        unsafe { FnPtr((*iface).pFunctionList as *mut CK_FUNCTION_LIST_3_2) }
    });
    unsafe { &*p.0 }
}

thread_local!(pub static SECRETS: std::cell::RefCell<Vec<Vec<u8>>> = const { std::cell::RefCell::new(Vec::new()) });
thread_local!(pub static LEAK: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) });
/// values that must never show up in memory handed to the library (their first and last 8 bytes are looked for)
pub fn watch_secrets(v: Vec<Vec<u8>>) {
    SECRETS.with(|s| *s.borrow_mut() = v);
    LEAK.with(|l| *l.borrow_mut() = None);
}
pub fn take_leak() -> Option<String> {
    LEAK.with(|l| l.borrow_mut().take())
}
fn leak_scan(mem: &[u8], what: &str) {
    SECRETS.with(|s| {
        for x in s.borrow().iter() {
            let k = x.len().min(8);
            if k < 4 {
                continue;
            }
            for n in [&x[..k], &x[x.len() - k..]] {
                if mem.windows(k).any(|w| w == n) {
                    crate::engine::trace_push(&format!("  !! secret bytes in the output of {}", what));
                    LEAK.with(|l| *l.borrow_mut() = Some(what.to_string()));
                }
            }
        }
    });
}
thread_local!(pub static QUIET: Cell<bool> = const { Cell::new(false) });

pub fn rvs(rv: Rv) -> String {
    rvname(rv).map(|s| s.to_string()).unwrap_or(format!("rv:{:#x}", rv))
}
pub fn rvr<T>(r: &R<T>) -> Rv {
    match r {
        Ok(_) => CKR_OK,
        Err(e) => *e,
    }
}

macro_rules! names {
    ($($n:ident),* $(,)?) => {
        pub fn rvname(rv: Rv) -> Option<&'static str> {
            $( if rv == $n { return Some(stringify!($n)); } )*
            None
        }
    }
}
names!(
    CKR_OK, CKR_CANCEL, CKR_HOST_MEMORY, CKR_SLOT_ID_INVALID, CKR_GENERAL_ERROR,
    CKR_FUNCTION_FAILED, CKR_ARGUMENTS_BAD, CKR_ATTRIBUTE_READ_ONLY,
    CKR_ATTRIBUTE_SENSITIVE, CKR_ATTRIBUTE_TYPE_INVALID, CKR_ATTRIBUTE_VALUE_INVALID,
    CKR_ACTION_PROHIBITED, CKR_DATA_INVALID, CKR_DATA_LEN_RANGE, CKR_DEVICE_ERROR,
    CKR_DEVICE_MEMORY, CKR_ENCRYPTED_DATA_INVALID, CKR_ENCRYPTED_DATA_LEN_RANGE,
    CKR_AEAD_DECRYPT_FAILED, CKR_FUNCTION_NOT_SUPPORTED, CKR_KEY_HANDLE_INVALID,
    CKR_KEY_SIZE_RANGE, CKR_KEY_TYPE_INCONSISTENT, CKR_KEY_NOT_WRAPPABLE,
    CKR_KEY_UNEXTRACTABLE, CKR_KEY_FUNCTION_NOT_PERMITTED, CKR_KEY_CHANGED, CKR_KEY_NEEDED,
    CKR_KEY_INDIGESTIBLE, CKR_MECHANISM_INVALID, CKR_MECHANISM_PARAM_INVALID,
    CKR_OBJECT_HANDLE_INVALID, CKR_OPERATION_ACTIVE, CKR_OPERATION_NOT_INITIALIZED,
    CKR_PIN_INCORRECT, CKR_PIN_INVALID, CKR_PIN_LEN_RANGE, CKR_PIN_EXPIRED, CKR_PIN_LOCKED,
    CKR_SESSION_CLOSED, CKR_SESSION_COUNT, CKR_SESSION_HANDLE_INVALID,
    CKR_SESSION_PARALLEL_NOT_SUPPORTED, CKR_SESSION_READ_ONLY, CKR_SESSION_EXISTS,
    CKR_SESSION_READ_ONLY_EXISTS, CKR_SESSION_READ_WRITE_SO_EXISTS, CKR_SIGNATURE_INVALID,
    CKR_SIGNATURE_LEN_RANGE, CKR_TEMPLATE_INCOMPLETE, CKR_TEMPLATE_INCONSISTENT,
    CKR_TOKEN_NOT_PRESENT, CKR_TOKEN_NOT_RECOGNIZED, CKR_TOKEN_WRITE_PROTECTED,
    CKR_UNWRAPPING_KEY_HANDLE_INVALID, CKR_UNWRAPPING_KEY_SIZE_RANGE,
    CKR_UNWRAPPING_KEY_TYPE_INCONSISTENT, CKR_USER_ALREADY_LOGGED_IN, CKR_USER_NOT_LOGGED_IN,
    CKR_USER_PIN_NOT_INITIALIZED, CKR_USER_TYPE_INVALID,
    CKR_USER_ANOTHER_ALREADY_LOGGED_IN, CKR_USER_TOO_MANY_TYPES,
    CKR_WRAPPED_KEY_INVALID, CKR_WRAPPED_KEY_LEN_RANGE, CKR_WRAPPING_KEY_HANDLE_INVALID,
    CKR_WRAPPING_KEY_SIZE_RANGE, CKR_WRAPPING_KEY_TYPE_INCONSISTENT,
    CKR_BUFFER_TOO_SMALL, CKR_SAVED_STATE_INVALID, CKR_STATE_UNSAVEABLE,
    CKR_CRYPTOKI_NOT_INITIALIZED, CKR_CRYPTOKI_ALREADY_INITIALIZED,
    CKR_KEY_NOT_NEEDED, CKR_RANDOM_SEED_NOT_SUPPORTED, CKR_RANDOM_NO_RNG,
    CKR_OPERATION_NOT_VALIDATED, CKR_TOKEN_NOT_INITIALIZED, CKR_OPERATION_CANCEL_FAILED, CKR_CURVE_NOT_SUPPORTED, CKR_DOMAIN_PARAMS_INVALID
);

/// Attribute types used anywhere in the harness, dumped in snapshots
pub const ALL_ATTRS: &[CK_ATTRIBUTE_TYPE] = &[
    CKA_CLASS, CKA_TOKEN, CKA_PRIVATE, CKA_LABEL, CKA_UNIQUE_ID, CKA_APPLICATION, CKA_VALUE,
    CKA_OBJECT_ID, CKA_CERTIFICATE_TYPE, CKA_ISSUER, CKA_SERIAL_NUMBER, CKA_TRUSTED,
    CKA_CERTIFICATE_CATEGORY, CKA_CHECK_VALUE, CKA_KEY_TYPE, CKA_SUBJECT, CKA_ID,
    CKA_SENSITIVE, CKA_ENCRYPT, CKA_DECRYPT, CKA_WRAP, CKA_UNWRAP, CKA_SIGN,
    CKA_SIGN_RECOVER, CKA_VERIFY, CKA_VERIFY_RECOVER, CKA_DERIVE, CKA_START_DATE,
    CKA_END_DATE, CKA_MODULUS, CKA_MODULUS_BITS, CKA_PUBLIC_EXPONENT, CKA_PRIVATE_EXPONENT,
    CKA_PRIME_1, CKA_PRIME_2, CKA_EXPONENT_1, CKA_EXPONENT_2, CKA_COEFFICIENT,
    CKA_PUBLIC_KEY_INFO, CKA_PRIME, CKA_BASE, CKA_VALUE_LEN, CKA_EXTRACTABLE, CKA_LOCAL,
    CKA_NEVER_EXTRACTABLE, CKA_ALWAYS_SENSITIVE, CKA_KEY_GEN_MECHANISM, CKA_MODIFIABLE,
    CKA_COPYABLE, CKA_DESTROYABLE, CKA_EC_PARAMS, CKA_EC_POINT, CKA_ALWAYS_AUTHENTICATE,
    CKA_WRAP_WITH_TRUSTED, CKA_ALLOWED_MECHANISMS, CKA_OTP_COUNTER, CKA_OTP_LENGTH,
    CKA_OTP_FORMAT, CKA_ENCAPSULATE, CKA_DECAPSULATE,
];
macro_rules! anames {
    ($($n:ident),* $(,)?) => {
        pub fn aname(t: CK_ATTRIBUTE_TYPE) -> String {
            $( if t == $n { return stringify!($n).trim_start_matches("CKA_").to_string(); } )*
            format!("attr:{:#x}", t)
        }
    }
}
anames!(
    CKA_CLASS, CKA_TOKEN, CKA_PRIVATE, CKA_LABEL, CKA_UNIQUE_ID, CKA_APPLICATION, CKA_VALUE,
    CKA_OBJECT_ID, CKA_CERTIFICATE_TYPE, CKA_ISSUER, CKA_SERIAL_NUMBER, CKA_TRUSTED,
    CKA_CERTIFICATE_CATEGORY, CKA_CHECK_VALUE, CKA_KEY_TYPE, CKA_SUBJECT, CKA_ID,
    CKA_SENSITIVE, CKA_ENCRYPT, CKA_DECRYPT, CKA_WRAP, CKA_UNWRAP, CKA_SIGN,
    CKA_SIGN_RECOVER, CKA_VERIFY, CKA_VERIFY_RECOVER, CKA_DERIVE, CKA_START_DATE,
    CKA_END_DATE, CKA_MODULUS, CKA_MODULUS_BITS, CKA_PUBLIC_EXPONENT, CKA_PRIVATE_EXPONENT,
    CKA_PRIME_1, CKA_PRIME_2, CKA_EXPONENT_1, CKA_EXPONENT_2, CKA_COEFFICIENT,
    CKA_PUBLIC_KEY_INFO, CKA_PRIME, CKA_BASE, CKA_VALUE_LEN, CKA_EXTRACTABLE, CKA_LOCAL,
    CKA_NEVER_EXTRACTABLE, CKA_ALWAYS_SENSITIVE, CKA_KEY_GEN_MECHANISM, CKA_MODIFIABLE,
    CKA_COPYABLE, CKA_DESTROYABLE, CKA_EC_PARAMS, CKA_EC_POINT, CKA_ALWAYS_AUTHENTICATE,
    CKA_WRAP_WITH_TRUSTED, CKA_ALLOWED_MECHANISMS, CKA_OTP_COUNTER, CKA_OTP_LENGTH,
    CKA_OTP_FORMAT, CKA_ENCAPSULATE, CKA_DECAPSULATE,
);

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i >= 48 {
            s.push_str(&format!("..({})", b.len()));
            break;
        }
        s.push_str(&format!("{:02x}", x));
    }
    s
}

/// Owned attribute template
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct T(pub Vec<(CK_ATTRIBUTE_TYPE, Vec<u8>)>);
impl std::fmt::Debug for T {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{{")?;
        for (i, (t, v)) in self.0.iter().enumerate() {
            write!(f, "{}{}={}", if i > 0 { "," } else { "" }, aname(*t), hex(v))?;
        }
        write!(f, "}}")
    }
}
impl T {
    pub fn new() -> T {
        T(Vec::new())
    }
    pub fn ul(mut self, t: CK_ATTRIBUTE_TYPE, v: CK_ULONG) -> T {
        self.0.push((t, v.to_ne_bytes().to_vec()));
        self
    }
    pub fn b(mut self, t: CK_ATTRIBUTE_TYPE, v: bool) -> T {
        self.0.push((t, vec![v as u8]));
        self
    }
    pub fn d(mut self, t: CK_ATTRIBUTE_TYPE, v: &[u8]) -> T {
        self.0.push((t, v.to_vec()));
        self
    }
    pub fn s(self, t: CK_ATTRIBUTE_TYPE, v: &str) -> T {
        self.d(t, v.as_bytes())
    }
    pub fn plus(mut self, o: &T) -> T {
        self.0.extend(o.0.iter().cloned());
        self
    }
    /// replace or add
    pub fn set(mut self, t: CK_ATTRIBUTE_TYPE, v: &[u8]) -> T {
        self.0.retain(|x| x.0 != t);
        self.0.push((t, v.to_vec()));
        self
    }
    pub fn setb(self, t: CK_ATTRIBUTE_TYPE, v: bool) -> T {
        self.set(t, &[v as u8])
    }
    pub fn without(mut self, t: CK_ATTRIBUTE_TYPE) -> T {
        self.0.retain(|x| x.0 != t);
        self
    }
    pub fn get(&self, t: CK_ATTRIBUTE_TYPE) -> Option<&[u8]> {
        self.0.iter().find(|x| x.0 == t).map(|x| x.1.as_slice())
    }
    pub fn raw(&self) -> Vec<CK_ATTRIBUTE> {
        self.0
            .iter()
            .map(|(t, v)| CK_ATTRIBUTE {
                type_: *t,
                pValue: v.as_ptr() as CK_VOID_PTR,
                ulValueLen: v.len() as CK_ULONG,
            })
            .collect()
    }
}

/// memory that ends at an inaccessible page: reads past the end do not go unnoticed
pub struct Edge {
    map: usize,
    size: usize,
    pub p: usize,
}
impl Edge {
    pub fn new(d: &[u8]) -> Edge {
        unsafe {
            let pages = d.len().div_ceil(4096).max(1);
            let size = (pages + 1) * 4096;
            let m = libc::mmap(null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as usize;
            assert!(m as isize != -1);
            assert_eq!(libc::mprotect((m + pages * 4096) as *mut _, 4096, libc::PROT_NONE), 0);
            let p = m + pages * 4096 - d.len();
            std::ptr::copy_nonoverlapping(d.as_ptr(), p as *mut u8, d.len());
            Edge { map: m, size, p }
        }
    }
}
impl Drop for Edge {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.map as *mut _, self.size);
        }
    }
}
/// Mechanism with owned parameter memory
pub struct Mech {
    pub m: CK_MECHANISM,
    keep: Vec<Box<dyn Any>>,
    pub name: String,
}
impl std::fmt::Debug for Mech {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.name)
    }
}
impl Mech {
    pub fn new(t: CK_MECHANISM_TYPE) -> Mech {
        Mech {
            m: CK_MECHANISM { mechanism: t, pParameter: null_mut(), ulParameterLen: 0 },
            keep: vec![],
            name: format!("{:#x}", t),
        }
    }
    pub fn bytes(t: CK_MECHANISM_TYPE, p: &[u8]) -> Mech {
        let mut m = Mech::new(t);
        let b = p.to_vec();
        m.m.pParameter = b.as_ptr() as CK_VOID_PTR;
        m.m.ulParameterLen = b.len() as CK_ULONG;
        m.name = format!("{:#x}[{}]", t, hex(p));
        m.keep.push(Box::new(b));
        m
    }
    pub fn st<S: 'static>(t: CK_MECHANISM_TYPE, p: S) -> Mech {
        let mut m = Mech::new(t);
        let b = Box::new(p);
        m.m.pParameter = &*b as *const S as CK_VOID_PTR;
        m.m.ulParameterLen = std::mem::size_of::<S>() as CK_ULONG;
        m.keep.push(b);
        m
    }
    pub fn hold<S: 'static>(mut self, s: S) -> Mech {
        self.keep.push(Box::new(s));
        self
    }
    pub fn p(&self) -> CK_MECHANISM_PTR {
        &self.m as *const _ as CK_MECHANISM_PTR
    }
    pub fn named(mut self, s: &str) -> Mech {
        self.name = s.to_string();
        self
    }
}

pub fn note(s: &str) {
    if !QUIET.with(|q| q.get()) {
        crate::engine::trace_push(s);
    }
}
#[macro_export]
macro_rules! tr { ($($a:tt)*) => { if !$crate::api::QUIET.with(|q| q.get()) { $crate::engine::trace_push(&format!($($a)*)) } } }
#[macro_export]
macro_rules! c {
    ($n:ident $(, $a:expr)* $(,)?) => {{
        $crate::engine::beat(stringify!($n));
        #[allow(unused_unsafe)]
        let rv = unsafe { ($crate::api::fl().$n.unwrap())($($a),*) };
        rv
    }}
}
fn done<V>(rv: Rv, v: V) -> R<V> {
    if rv == CKR_OK { Ok(v) } else { Err(rv) }
}
pub fn bp(b: &[u8]) -> CK_BYTE_PTR {
    if b.is_empty() { null_mut() } else { b.as_ptr() as CK_BYTE_PTR }
}
/// non-null pointer even for empty data
pub fn bpn(b: &[u8]) -> CK_BYTE_PTR {
    b.as_ptr() as CK_BYTE_PTR
}

/// What an output call did with a caller buffer
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Out {
    pub rv: Rv,
    pub len: usize,
    pub data: Vec<u8>,
    /// bytes past the given length, or past the reported length, were changed
    pub overrun: bool,
}
impl Out {
    pub fn ok(self) -> R<Vec<u8>> {
        if self.rv == CKR_OK { Ok(self.data) } else { Err(self.rv) }
    }
}
thread_local! { pub static LASTBUF: RefCell<Vec<u8>> = const { RefCell::new(vec![]) } }
/// does the buffer of the last output call show this data (from its start on)?
pub fn lastbuf_shows(d: &[u8]) -> bool {
    LASTBUF.with(|l| l.borrow().windows(d.len()).any(|w| w == d))
}
/// cap None: null buffer query. The pre-fill pattern detects writes past `cap`.
pub fn outcall(cap: Option<usize>, f: impl FnOnce(CK_BYTE_PTR, CK_ULONG_PTR) -> Rv) -> Out {
    match cap {
        None => {
            let mut l: CK_ULONG = 0;
            let rv = f(null_mut(), &mut l);
            Out { rv, len: l as usize, data: vec![], overrun: false }
        }
        Some(n) => {
            let mut buf = vec![GUARD; n + GUARD_LEN];
            let mut l: CK_ULONG = n as CK_ULONG;
            let rv = f(buf.as_mut_ptr(), &mut l);
            let over = buf[n..].iter().any(|b| *b != GUARD);
            leak_scan(&buf, "an output buffer");
            let len = l as usize;
            if over {
                crate::engine::trace_push("  !! wrote past the given buffer length");
                crate::engine::flag_overrun();
            }
            let data = if rv == CKR_OK && len <= n { buf[..len].to_vec() } else { vec![] };
            LASTBUF.with(|l| *l.borrow_mut() = buf);
            Out { rv, len, data, overrun: over || (rv == CKR_OK && len > n) }
        }
    }
}

// ---------------------------------------------------------------- general
pub fn initialize(args: &str) -> Rv {
    let cs = std::ffi::CString::new(args).unwrap();
    let mut a = CK_C_INITIALIZE_ARGS {
        CreateMutex: None,
        DestroyMutex: None,
        LockMutex: None,
        UnlockMutex: None,
        flags: CKF_OS_LOCKING_OK,
        pReserved: cs.as_ptr() as CK_VOID_PTR,
    };
    let rv = c!(C_Initialize, &mut a as *mut _ as CK_VOID_PTR);
    tr!("C_Initialize({}) -> {}", args.rsplit('/').next().unwrap_or(""), rvs(rv));
    rv
}
pub fn finalize() -> Rv {
    let rv = c!(C_Finalize, null_mut());
    tr!("C_Finalize() -> {}", rvs(rv));
    rv
}
pub fn token_info(slot: H) -> R<CK_TOKEN_INFO> {
    let mut i: CK_TOKEN_INFO = unsafe { std::mem::zeroed() };
    let rv = c!(C_GetTokenInfo, slot, &mut i);
    tr!("C_GetTokenInfo({}) -> {} flags={:#x}", slot, rvs(rv), i.flags);
    done(rv, i)
}
pub fn session_info(s: H) -> R<CK_SESSION_INFO> {
    let mut i: CK_SESSION_INFO = unsafe { std::mem::zeroed() };
    let rv = c!(C_GetSessionInfo, s, &mut i);
    tr!("C_GetSessionInfo({}) -> {} state={} flags={:#x}", s, rvs(rv), i.state, i.flags);
    done(rv, i)
}
pub fn open(slot: H, rw: bool) -> R<H> {
    let mut h: H = 0xdead;
    let fl = CKF_SERIAL_SESSION | if rw { CKF_RW_SESSION } else { 0 };
    let rv = c!(C_OpenSession, slot, fl, null_mut(), None, &mut h);
    tr!("C_OpenSession(slot={}, {}) -> {} h={}", slot, if rw { "RW" } else { "RO" }, rvs(rv), h);
    done(rv, h)
}
pub fn close(s: H) -> Rv {
    let rv = c!(C_CloseSession, s);
    tr!("C_CloseSession({}) -> {}", s, rvs(rv));
    rv
}
pub fn close_all(slot: H) -> Rv {
    let rv = c!(C_CloseAllSessions, slot);
    tr!("C_CloseAllSessions({}) -> {}", slot, rvs(rv));
    rv
}
pub fn login(s: H, user: CK_USER_TYPE, pin: &str) -> Rv {
    let rv = c!(C_Login, s, user, bpn(pin.as_bytes()), pin.len() as CK_ULONG);
    tr!("C_Login({}, {}, \"{}\") -> {}", s, user, pin, rvs(rv));
    rv
}
pub fn logout(s: H) -> Rv {
    let rv = c!(C_Logout, s);
    tr!("C_Logout({}) -> {}", s, rvs(rv));
    rv
}
pub fn init_pin(s: H, pin: &str) -> Rv {
    let rv = c!(C_InitPIN, s, bpn(pin.as_bytes()), pin.len() as CK_ULONG);
    tr!("C_InitPIN({}, \"{}\") -> {}", s, pin, rvs(rv));
    rv
}
pub fn set_pin(s: H, old: &str, new: &str) -> Rv {
    let rv = c!(
        C_SetPIN, s, bpn(old.as_bytes()), old.len() as CK_ULONG,
        bpn(new.as_bytes()), new.len() as CK_ULONG
    );
    tr!("C_SetPIN({}, \"{}\", \"{}\") -> {}", s, old, new, rvs(rv));
    rv
}
pub fn init_token(slot: H, pin: &str, label: &str) -> Rv {
    let mut l = [b' '; 32];
    l[..label.len()].copy_from_slice(label.as_bytes());
    let rv = c!(C_InitToken, slot, bpn(pin.as_bytes()), pin.len() as CK_ULONG, l.as_mut_ptr());
    tr!("C_InitToken({}, \"{}\", \"{}\") -> {}", slot, pin, label, rvs(rv));
    rv
}
// ---------------------------------------------------------------- objects
pub fn create(s: H, t: &T) -> R<H> {
    let mut h: H = 0xdead;
    let mut a = t.raw();
    let rv = c!(C_CreateObject, s, a.as_mut_ptr(), a.len() as CK_ULONG, &mut h);
    tr!("C_CreateObject({}, {:?}) -> {} o={}", s, t, rvs(rv), h);
    done(rv, h)
}
pub fn copy(s: H, o: H, t: &T) -> R<H> {
    let mut h: H = 0xdead;
    let mut a = t.raw();
    let p = if a.is_empty() { null_mut() } else { a.as_mut_ptr() };
    let rv = c!(C_CopyObject, s, o, p, a.len() as CK_ULONG, &mut h);
    tr!("C_CopyObject({}, {}, {:?}) -> {} o={}", s, o, t, rvs(rv), h);
    done(rv, h)
}
pub fn destroy(s: H, o: H) -> Rv {
    let rv = c!(C_DestroyObject, s, o);
    tr!("C_DestroyObject({}, {}) -> {}", s, o, rvs(rv));
    rv
}
pub fn size(s: H, o: H) -> R<usize> {
    let mut n: CK_ULONG = 0;
    let rv = c!(C_GetObjectSize, s, o, &mut n);
    tr!("C_GetObjectSize({}, {}) -> {} {}", s, o, rvs(rv), n);
    done(rv, n as usize)
}
pub fn set(s: H, o: H, t: &T) -> Rv {
    let mut a = t.raw();
    let rv = c!(C_SetAttributeValue, s, o, a.as_mut_ptr(), a.len() as CK_ULONG);
    tr!("C_SetAttributeValue({}, {}, {:?}) -> {}", s, o, t, rvs(rv));
    rv
}
pub fn find_init(s: H, t: &T) -> Rv {
    let mut a = t.raw();
    let p = if a.is_empty() { null_mut() } else { a.as_mut_ptr() };
    let rv = c!(C_FindObjectsInit, s, p, a.len() as CK_ULONG);
    tr!("C_FindObjectsInit({}, {:?}) -> {}", s, t, rvs(rv));
    rv
}
pub fn find_next(s: H, max: usize) -> R<Vec<H>> {
    let mut v: Vec<H> = vec![0xA7A7; max + 4];
    let mut n: CK_ULONG = 0;
    let rv = c!(C_FindObjects, s, v.as_mut_ptr(), max as CK_ULONG, &mut n);
    let over = v[max..].iter().any(|x| *x != 0xA7A7) || (rv == CKR_OK && n as usize > max);
    if over {
        crate::engine::trace_push("  !! C_FindObjects wrote past the given array");
        crate::engine::flag_overrun();
        return Err(rv);
    }
    v.truncate(n as usize);
    tr!("C_FindObjects({}, max={}) -> {} {:?}", s, max, rvs(rv), v);
    done(rv, v)
}
pub fn find_final(s: H) -> Rv {
    let rv = c!(C_FindObjectsFinal, s);
    tr!("C_FindObjectsFinal({}) -> {}", s, rvs(rv));
    rv
}
pub fn find(s: H, t: &T) -> R<Vec<H>> {
    let rv = find_init(s, t);
    if rv != CKR_OK {
        return Err(rv);
    }
    let mut all = vec![];
    loop {
        match find_next(s, 64) {
            Ok(v) if v.is_empty() => break,
            Ok(v) => all.extend(v),
            Err(e) => {
                find_final(s);
                return Err(e);
            }
        }
        if all.len() > 10000 {
            break;
        }
    }
    let rv = find_final(s);
    if rv != CKR_OK {
        return Err(rv);
    }
    Ok(all)
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum AV {
    V(Vec<u8>),
    Unavail,
}
impl std::fmt::Debug for AV {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            AV::V(v) => write!(f, "{}", hex(v)),
            AV::Unavail => write!(f, "-"),
        }
    }
}
/// one C_GetAttributeValue call with ample guarded buffers
pub fn get_many(s: H, o: H, types: &[CK_ATTRIBUTE_TYPE]) -> (Rv, Vec<AV>) {
    const N: usize = 1024;
    let mut mem = vec![GUARD; types.len() * (N + 16)];
    let mut a: Vec<CK_ATTRIBUTE> = types
        .iter()
        .enumerate()
        .map(|(i, t)| CK_ATTRIBUTE {
            type_: *t,
            pValue: unsafe { mem.as_mut_ptr().add(i * (N + 16)) } as CK_VOID_PTR,
            ulValueLen: N as CK_ULONG,
        })
        .collect();
    let rv = c!(C_GetAttributeValue, s, o, a.as_mut_ptr(), a.len() as CK_ULONG);
    leak_scan(&mem, "C_GetAttributeValue");
    let mut out = vec![];
    for (i, x) in a.iter().enumerate() {
        let base = i * (N + 16);
        if mem[base + N..base + N + 16].iter().any(|b| *b != GUARD) {
            crate::engine::trace_push("  !! C_GetAttributeValue overran");
            crate::engine::flag_overrun();
        }
        if x.ulValueLen == CK_UNAVAILABLE_INFORMATION {
            out.push(AV::Unavail);
        } else {
            let l = (x.ulValueLen as usize).min(N);
            // untouched entries (call failed outright) are reported as unavailable
            if rv != CKR_OK && x.ulValueLen as usize == N {
                out.push(AV::Unavail);
            } else {
                out.push(AV::V(mem[base..base + l].to_vec()));
            }
        }
    }
    if types.len() <= 4 {
        tr!(
            "C_GetAttributeValue({}, {}, [{}]) -> {} {:?}",
            s, o, types.iter().map(|t| aname(*t)).collect::<Vec<_>>().join(","), rvs(rv), out
        );
    } else {
        tr!("C_GetAttributeValue({}, {}, {} attrs) -> {}", s, o, types.len(), rvs(rv));
    }
    (rv, out)
}
pub fn get(s: H, o: H, t: CK_ATTRIBUTE_TYPE) -> R<Vec<u8>> {
    let (rv, mut v) = get_many(s, o, &[t]);
    match (rv, v.remove(0)) {
        (CKR_OK, AV::V(x)) => Ok(x),
        (CKR_OK, AV::Unavail) => Err(CKR_GENERAL_ERROR),
        (e, _) => Err(e),
    }
}
/// C_GetAttributeValue with a chosen buffer size per attribute (None: null pointer)
pub fn get_caps(s: H, o: H, req: &[(CK_ATTRIBUTE_TYPE, Option<usize>)]) -> (Rv, Vec<CK_ULONG>, Vec<Vec<u8>>) {
    let mut mem: Vec<Vec<u8>> = req.iter().map(|r| vec![GUARD; r.1.unwrap_or(0) + GUARD_LEN]).collect();
    let mut a: Vec<CK_ATTRIBUTE> = req
        .iter()
        .zip(mem.iter_mut())
        .map(|(r, m)| CK_ATTRIBUTE {
            type_: r.0,
            pValue: if r.1.is_some() { m.as_mut_ptr() as CK_VOID_PTR } else { null_mut() },
            ulValueLen: r.1.unwrap_or(0) as CK_ULONG,
        })
        .collect();
    let rv = c!(C_GetAttributeValue, s, o, a.as_mut_ptr(), a.len() as CK_ULONG);
    for (r, m) in req.iter().zip(&mem) {
        if m[r.1.unwrap_or(0)..].iter().any(|b| *b != GUARD) {
            crate::engine::trace_push("  !! C_GetAttributeValue overran");
            crate::engine::flag_overrun();
        }
        leak_scan(m, "C_GetAttributeValue");
    }
    let lens: Vec<CK_ULONG> = a.iter().map(|x| x.ulValueLen).collect();
    tr!("C_GetAttributeValue({}, {}, {:?}) -> {} lens {:?}", s, o, req.iter().map(|r| (aname(r.0), r.1)).collect::<Vec<_>>(), rvs(rv),
        lens.iter().map(|l| *l as i64).collect::<Vec<_>>());
    (rv, lens, mem)
}
pub type Snap = std::collections::BTreeMap<CK_ATTRIBUTE_TYPE, Vec<u8>>;
/// every readable attribute of an object
pub fn snap(s: H, o: H) -> R<Snap> {
    let (rv, v) = get_many(s, o, ALL_ATTRS);
    match rv {
        CKR_OK | CKR_ATTRIBUTE_SENSITIVE | CKR_ATTRIBUTE_TYPE_INVALID | CKR_BUFFER_TOO_SMALL => (),
        e => return Err(e),
    }
    let mut m = Snap::new();
    if rv == CKR_BUFFER_TOO_SMALL {
        let (rv, l, mut v) = get_caps(s, o, &[(CKA_VALUE, Some(20_000))]);
        if rv != 0 {
            return Err(rv);
        }
        v[0].truncate(l[0] as usize);
        m.insert(CKA_VALUE, v.remove(0));
    }
    for (t, x) in ALL_ATTRS.iter().zip(v) {
        if let AV::V(b) = x {
            m.insert(*t, b);
        }
    }
    Ok(m)
}
pub fn snapdiff(a: &Snap, b: &Snap) -> String {
    let mut s = String::new();
    for (t, v) in a {
        match b.get(t) {
            None => s.push_str(&format!("{}: {} -> gone; ", aname(*t), hex(v))),
            Some(w) if w != v => {
                s.push_str(&format!("{}: {} -> {}; ", aname(*t), hex(v), hex(w)))
            }
            _ => (),
        }
    }
    for (t, w) in b {
        if !a.contains_key(t) {
            s.push_str(&format!("{}: new {}; ", aname(*t), hex(w)));
        }
    }
    s
}
// ---------------------------------------------------------------- crypto
macro_rules! initfn {
    ($f:ident, $c:ident) => {
        pub fn $f(s: H, m: &Mech, k: H) -> Rv {
            let rv = c!($c, s, m.p(), k);
            tr!("{}({}, {}, key={}) -> {}", stringify!($c), s, m.name, k, rvs(rv));
            rv
        }
    };
}
initfn!(encrypt_init, C_EncryptInit);
initfn!(decrypt_init, C_DecryptInit);
initfn!(sign_init, C_SignInit);
initfn!(verify_init, C_VerifyInit);
initfn!(msg_encrypt_init, C_MessageEncryptInit);
initfn!(msg_decrypt_init, C_MessageDecryptInit);
pub fn digest_init(s: H, m: &Mech) -> Rv {
    let rv = c!(C_DigestInit, s, m.p());
    tr!("C_DigestInit({}, {}) -> {}", s, m.name, rvs(rv));
    rv
}
macro_rules! inout {
    ($f:ident, $c:ident) => {
        pub fn $f(s: H, d: &[u8], cap: Option<usize>) -> Out {
            let o = outcall(cap, |p, l| c!($c, s, bpn(d), d.len() as CK_ULONG, p, l));
            tr!(
                "{}({}, in={}b {}, cap={:?}) -> {} len={} {}",
                stringify!($c), s, d.len(), hex(&d[..d.len().min(8)]), cap, rvs(o.rv), o.len, hex(&o.data)
            );
            o
        }
    };
}
inout!(encrypt, C_Encrypt);
inout!(encrypt_update, C_EncryptUpdate);
inout!(decrypt, C_Decrypt);
inout!(decrypt_update, C_DecryptUpdate);
inout!(digest, C_Digest);
inout!(sign, C_Sign);
inout!(digest_encrypt_update, C_DigestEncryptUpdate);
inout!(decrypt_digest_update, C_DecryptDigestUpdate);
inout!(sign_encrypt_update, C_SignEncryptUpdate);
inout!(decrypt_verify_update, C_DecryptVerifyUpdate);
macro_rules! fin {
    ($f:ident, $c:ident) => {
        pub fn $f(s: H, cap: Option<usize>) -> Out {
            let o = outcall(cap, |p, l| c!($c, s, p, l));
            tr!("{}({}, cap={:?}) -> {} len={} {}", stringify!($c), s, cap, rvs(o.rv), o.len, hex(&o.data));
            o
        }
    };
}
fin!(encrypt_final, C_EncryptFinal);
fin!(decrypt_final, C_DecryptFinal);
fin!(digest_final, C_DigestFinal);
fin!(sign_final, C_SignFinal);
fin!(get_opstate, C_GetOperationState);
macro_rules! upd {
    ($f:ident, $c:ident) => {
        pub fn $f(s: H, d: &[u8]) -> Rv {
            let rv = c!($c, s, bpn(d), d.len() as CK_ULONG);
            tr!("{}({}, {}b {}) -> {}", stringify!($c), s, d.len(), hex(&d[..d.len().min(8)]), rvs(rv));
            rv
        }
    };
}
upd!(digest_update, C_DigestUpdate);
upd!(sign_update, C_SignUpdate);
upd!(verify_update, C_VerifyUpdate);
upd!(verify_final, C_VerifyFinal);
upd!(vsig_update, C_VerifySignatureUpdate);
upd!(vsig, C_VerifySignature);
upd!(seed_random, C_SeedRandom);
pub fn vsig_final(s: H) -> Rv {
    let rv = c!(C_VerifySignatureFinal, s);
    tr!("C_VerifySignatureFinal({}) -> {}", s, rvs(rv));
    rv
}
pub fn vsig_init(s: H, m: &Mech, k: H, sig: &[u8]) -> Rv {
    let rv = c!(C_VerifySignatureInit, s, m.p(), k, bpn(sig), sig.len() as CK_ULONG);
    tr!("C_VerifySignatureInit({}, {}, {}, sig={}) -> {}", s, m.name, k, hex(sig), rvs(rv));
    rv
}
pub fn verify(s: H, d: &[u8], sig: &[u8]) -> Rv {
    let rv = c!(C_Verify, s, bpn(d), d.len() as CK_ULONG, bpn(sig), sig.len() as CK_ULONG);
    tr!("C_Verify({}, {}b, sig={}) -> {}", s, d.len(), hex(sig), rvs(rv));
    rv
}
pub fn digest_key(s: H, k: H) -> Rv {
    let rv = c!(C_DigestKey, s, k);
    tr!("C_DigestKey({}, {}) -> {}", s, k, rvs(rv));
    rv
}
pub fn set_opstate(s: H, st: &[u8], ek: H, ak: H) -> Rv {
    let rv = c!(C_SetOperationState, s, bpn(st), st.len() as CK_ULONG, ek, ak);
    tr!("C_SetOperationState({}, {}b, {}, {}) -> {}", s, st.len(), ek, ak, rvs(rv));
    rv
}
pub fn session_cancel(s: H, flags: CK_FLAGS) -> Rv {
    let rv = c!(C_SessionCancel, s, flags);
    tr!("C_SessionCancel({}, {:#x}) -> {}", s, flags, rvs(rv));
    rv
}
pub fn gen_key(s: H, m: &Mech, t: &T) -> R<H> {
    let mut h: H = 0xdead;
    let mut a = t.raw();
    let rv = c!(C_GenerateKey, s, m.p(), a.as_mut_ptr(), a.len() as CK_ULONG, &mut h);
    tr!("C_GenerateKey({}, {}, {:?}) -> {} o={}", s, m.name, t, rvs(rv), h);
    done(rv, h)
}
pub fn gen_pair(s: H, m: &Mech, pt: &T, kt: &T) -> R<(H, H)> {
    let mut h: H = 0xdead;
    let mut k: H = 0xdead;
    let (mut a, mut b) = (pt.raw(), kt.raw());
    let rv = c!(
        C_GenerateKeyPair, s, m.p(), a.as_mut_ptr(), a.len() as CK_ULONG,
        b.as_mut_ptr(), b.len() as CK_ULONG, &mut h, &mut k
    );
    tr!("C_GenerateKeyPair({}, {}, {:?}, {:?}) -> {} {} {}", s, m.name, pt, kt, rvs(rv), h, k);
    done(rv, (h, k))
}
pub fn wrap(s: H, m: &Mech, wk: H, k: H, cap: Option<usize>) -> Out {
    let o = outcall(cap, |p, l| c!(C_WrapKey, s, m.p(), wk, k, p, l));
    tr!("C_WrapKey({}, {}, wk={}, k={}, cap={:?}) -> {} len={}", s, m.name, wk, k, cap, rvs(o.rv), o.len);
    o
}
pub fn unwrap(s: H, m: &Mech, wk: H, w: &[u8], t: &T) -> R<H> {
    let mut h: H = 0xdead;
    let mut a = t.raw();
    let rv = c!(
        C_UnwrapKey, s, m.p(), wk, bpn(w), w.len() as CK_ULONG,
        a.as_mut_ptr(), a.len() as CK_ULONG, &mut h
    );
    tr!("C_UnwrapKey({}, {}, wk={}, {}, {:?}) -> {} o={}", s, m.name, wk, hex(w), t, rvs(rv), h);
    done(rv, h)
}
pub fn derive(s: H, m: &Mech, k: H, t: &T) -> R<H> {
    let mut h: H = 0xdead;
    let mut a = t.raw();
    let p = if a.is_empty() { null_mut() } else { a.as_mut_ptr() };
    let rv = c!(C_DeriveKey, s, m.p(), k, p, a.len() as CK_ULONG, &mut h);
    tr!("C_DeriveKey({}, {}, k={}, {:?}) -> {} o={}", s, m.name, k, t, rvs(rv), h);
    done(rv, h)
}
pub fn random(s: H, n: usize) -> R<Vec<u8>> {
    let mut b = vec![0u8; n];
    let rv = c!(C_GenerateRandom, s, b.as_mut_ptr(), n as CK_ULONG);
    done(rv, b)
}

// ---------------------------------------------------------------- common templates
pub fn data(token: bool, private: bool, label: &str, val: &[u8]) -> T {
    T::new()
        .ul(CKA_CLASS, CKO_DATA)
        .b(CKA_TOKEN, token)
        .b(CKA_PRIVATE, private)
        .s(CKA_LABEL, label)
        .d(CKA_VALUE, val)
}
pub fn seckey(kt: CK_KEY_TYPE, token: bool, private: bool, label: &str, val: &[u8]) -> T {
    T::new()
        .ul(CKA_CLASS, CKO_SECRET_KEY)
        .ul(CKA_KEY_TYPE, kt)
        .b(CKA_TOKEN, token)
        .b(CKA_PRIVATE, private)
        .s(CKA_LABEL, label)
        .d(CKA_VALUE, val)
}
pub fn aeskey(token: bool, private: bool, label: &str, val: &[u8]) -> T {
    seckey(CKK_AES, token, private, label, val).b(CKA_ENCRYPT, true).b(CKA_DECRYPT, true)
}
