//! Every function of the 3.2 interface as a generic call: a list of word-sized arguments of known roles.
#![allow(dead_code)]
use crate::api::*;
use crate::keys::*;
use crate::tr;
use kryoptic_lib::pkcs11::*;
use std::any::Any;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum RK {
    Sess,
    Obj,
    Slot,
    InPtr,
    InLen,
    OutPtr,
    /// pointer to the buffer length
    OutLenPtr,
    /// buffer length by value
    OutLen,
    Mech,
    TmplPtr,
    TmplCnt,
    HandleOut,
    StructOut,
    /// pointer whose meaning the function may ignore
    Reserved,
    Flags,
    UserType,
    Val,
    ParamPtr,
    ParamLen,
}
#[derive(Clone, Copy, Debug)]
pub struct Arg {
    pub k: RK,
    pub v: usize,
}
pub struct Call {
    pub name: &'static str,
    pub what: String,
    f: usize,
    pub args: Vec<Arg>,
    keep: Vec<Box<dyn Any>>,
    /// (start of buffer, usable bytes)
    outs: Vec<(usize, usize)>,
}
impl Call {
    pub fn new(name: &'static str, f: usize) -> Call {
        Call { name, what: name.to_string(), f, args: vec![], keep: vec![], outs: vec![] }
    }
    pub fn a(mut self, k: RK, v: usize) -> Call {
        self.args.push(Arg { k, v });
        self
    }
    pub fn s(self, h: H) -> Call {
        self.a(RK::Sess, h as usize)
    }
    pub fn o(self, h: H) -> Call {
        self.a(RK::Obj, h as usize)
    }
    pub fn slot(self, h: H) -> Call {
        self.a(RK::Slot, h as usize)
    }
    pub fn mech(mut self, m: Mech) -> Call {
        let b = Box::new(m);
        let p = b.p() as usize;
        self.what = format!("{}[{}]", self.name, b.name);
        self.keep.push(b);
        self.a(RK::Mech, p)
    }
    pub fn inb(mut self, d: &[u8]) -> Call {
        let b = Edge::new(d);
        let p = b.p;
        self.keep.push(Box::new(b));
        self.a(RK::InPtr, p).a(RK::InLen, d.len())
    }
    fn guarded(&mut self, n: usize) -> usize {
        let b = vec![GUARD; n + GUARD_LEN];
        let p = b.as_ptr() as usize;
        self.keep.push(Box::new(b));
        self.outs.push((p, n));
        p
    }
    fn word(&mut self, v: usize) -> usize {
        let b = Box::new([v, 0x5151_5151usize]);
        let p = &*b as *const _ as usize;
        self.keep.push(b);
        p
    }
    /// output buffer and pointer to its length
    pub fn out(mut self, n: usize) -> Call {
        let p = self.guarded(n);
        let l = self.word(n);
        self.a(RK::OutPtr, p).a(RK::OutLenPtr, l)
    }
    /// buffer and length by value
    pub fn outv(mut self, n: usize) -> Call {
        let p = self.guarded(n);
        self.a(RK::OutPtr, p).a(RK::OutLen, n)
    }
    pub fn st(mut self, n: usize) -> Call {
        let p = self.guarded(n);
        self.a(RK::StructOut, p)
    }
    pub fn hout(mut self) -> Call {
        let p = self.word(0);
        self.a(RK::HandleOut, p)
    }
    pub fn tm(mut self, t: T) -> Call {
        let t = Box::new(t);
        let r = t.raw();
        let (p, n) = (r.as_ptr() as usize, r.len());
        self.keep.push(t);
        self.keep.push(Box::new(r));
        self.a(RK::TmplPtr, p).a(RK::TmplCnt, n)
    }
    /// attributes with room for values
    pub fn tmout(mut self, types: &[CK_ATTRIBUTE_TYPE]) -> Call {
        let mut v = vec![];
        for t in types {
            let p = self.guarded(64);
            v.push(CK_ATTRIBUTE { type_: *t, pValue: p as CK_VOID_PTR, ulValueLen: 64 });
        }
        let p = v.as_ptr() as usize;
        self.keep.push(Box::new(v));
        self.a(RK::TmplPtr, p).a(RK::TmplCnt, types.len())
    }
    pub fn param<S: 'static>(mut self, x: S) -> Call {
        let n = std::mem::size_of::<S>();
        let e = Edge::new(unsafe { std::slice::from_raw_parts(&x as *const S as *const u8, n) });
        let p = e.p;
        self.keep.push(Box::new(e));
        self.keep.push(Box::new(x));
        self.a(RK::ParamPtr, p).a(RK::ParamLen, std::mem::size_of::<S>())
    }
    pub fn hold<S: 'static>(mut self, s: S) -> Call {
        self.keep.push(Box::new(s));
        self
    }
    pub fn run(&self) -> Rv {
        let v: Vec<usize> = self.args.iter().map(|a| a.v).collect();
        self.run_with(&v)
    }
    pub fn run_with(&self, v: &[usize]) -> Rv {
        crate::engine::beat(self.name);
        macro_rules! go {
            ($($i:expr),*) => {{
                let f: extern "C" fn($(go!(@ $i)),*) -> CK_RV = unsafe { std::mem::transmute(self.f) };
                f($(v[$i]),*)
            }};
            (@ $i:expr) => { usize };
        }
        let rv = match v.len() {
            0 => go!(),
            1 => go!(0),
            2 => go!(0, 1),
            3 => go!(0, 1, 2),
            4 => go!(0, 1, 2, 3),
            5 => go!(0, 1, 2, 3, 4),
            6 => go!(0, 1, 2, 3, 4, 5),
            7 => go!(0, 1, 2, 3, 4, 5, 6),
            8 => go!(0, 1, 2, 3, 4, 5, 6, 7),
            9 => go!(0, 1, 2, 3, 4, 5, 6, 7, 8),
            10 => go!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9),
            _ => panic!("harness: too many arguments"),
        };
        tr!(
            "{}({}) -> {}",
            self.what,
            self.args
                .iter()
                .zip(v)
                .map(|(a, x)| match a.k {
                    RK::Sess | RK::Obj | RK::Slot | RK::InLen | RK::OutLen | RK::TmplCnt | RK::Flags | RK::Val | RK::UserType | RK::ParamLen =>
                        format!("{:?}={:#x}", a.k, x),
                    _ if *x == 0 => format!("{:?}=NULL", a.k),
                    _ => format!("{:?}", a.k),
                })
                .collect::<Vec<_>>()
                .join(", "),
            rvs(rv)
        );
        rv
    }
    /// no write past any buffer; `cap`: effective capacity by buffer index when lowered
    pub fn guards_ok(&self, cap: Option<usize>) -> bool {
        self.outs.iter().all(|(p, n)| {
            let n2 = cap.map(|c| c.min(*n)).unwrap_or(*n);
            let m = unsafe { std::slice::from_raw_parts(*p as *const u8, n + GUARD_LEN) };
            m[n2..].iter().all(|b| *b == GUARD)
        })
    }
    /// output buffers back to the guard pattern
    pub fn refill(&self) {
        for (p, n) in &self.outs {
            let m = unsafe { std::slice::from_raw_parts_mut(*p as *mut u8, n + GUARD_LEN) };
            m.fill(GUARD);
        }
    }
    pub fn pos(&self, k: RK) -> Vec<usize> {
        self.args.iter().enumerate().filter(|(_, a)| a.k == k).map(|(i, _)| i).collect()
    }
}
macro_rules! f {
    ($n:ident) => {
        Call::new(stringify!($n), fl().$n.unwrap() as usize)
    };
}
/// handles of a standard set of session objects
#[derive(Clone, Copy, Debug, Default)]
pub struct Keys {
    pub aes: H,
    pub gen_: H,
    pub ecpriv: H,
    pub ecpub: H,
    pub rsapriv: H,
    pub rsapub: H,
    pub data: H,
    pub dh: H,
}
impl Keys {
    pub fn make(s: H) -> Keys {
        let q = QUIET.replace(true);
        let mk = |t: T| create(s, &t).unwrap_or(0);
        let k = Keys {
            aes: mk(seckey(CKK_AES, false, false, "kaes", &AESV)
                .b(CKA_ENCRYPT, true)
                .b(CKA_DECRYPT, true)
                .b(CKA_WRAP, true)
                .b(CKA_UNWRAP, true)
                .b(CKA_SIGN, true)
                .b(CKA_VERIFY, true)
                .b(CKA_DERIVE, true)
                .b(CKA_SENSITIVE, false)
                .b(CKA_EXTRACTABLE, true)),
            gen_: mk(seckey(CKK_GENERIC_SECRET, false, false, "kgen", &GENV)
                .b(CKA_SIGN, true)
                .b(CKA_VERIFY, true)
                .b(CKA_DERIVE, true)
                .b(CKA_SENSITIVE, false)
                .b(CKA_EXTRACTABLE, true)),
            ecpriv: mk(ec_priv(false, false)),
            ecpub: mk(ec_pub(false, false)),
            rsapriv: mk(rsa_priv(false, false)),
            rsapub: mk(rsa_pub(false, false)),
            data: mk(data(false, false, "kdata", b"data")),
            dh: mk(dh_priv(false, false)),
        };
        QUIET.set(q);
        k
    }
    pub fn list(&self) -> Vec<H> {
        vec![self.aes, self.gen_, self.ecpriv, self.ecpub, self.rsapriv, self.rsapub, self.data, self.dh]
    }
}
pub fn cbc_pad() -> Mech {
    Mech::bytes(CKM_AES_CBC_PAD, &[3u8; 16]).named("AES_CBC_PAD")
}
pub struct GcmBufs {
    pub iv: Vec<u8>,
    pub tag: Vec<u8>,
}
pub fn gcm_msg(iv: &GcmBufs) -> CK_GCM_MESSAGE_PARAMS {
    CK_GCM_MESSAGE_PARAMS {
        pIv: iv.iv.as_ptr() as *mut _,
        ulIvLen: iv.iv.len() as CK_ULONG,
        ulIvFixedBits: 0,
        ivGenerator: CKG_NO_GENERATE,
        pTag: iv.tag.as_ptr() as *mut _,
        ulTagBits: 128,
    }
}
pub fn gkey(n: CK_ULONG) -> T {
    T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET).ul(CKA_VALUE_LEN, n).b(CKA_TOKEN, false).b(CKA_PRIVATE, false)
}
/// calls that take a session handle
pub fn session_calls(s: H, k: &Keys) -> Vec<Call> {
    let hmac = || Mech::new(CKM_SHA256_HMAC).named("SHA256_HMAC");
    let sha = || Mech::new(CKM_SHA256).named("SHA256");
    let kw = || Mech::new(CKM_AES_KEY_WRAP).named("AES_KEY_WRAP");
    let d16 = [0x42u8; 16];
    let m = || {
        let b = GcmBufs { iv: vec![1; 12], tag: vec![0; 16] };
        let p = gcm_msg(&b);
        (p, b)
    };
    let gm = |c: Call| {
        let (p, b) = m();
        c.param(p).hold(b)
    };
    let mut v = vec![
        f!(C_InitPIN).s(s).inb(b"some-user-pin"),
        f!(C_SetPIN).s(s).inb(b"old-pin-000").inb(b"new-pin-000"),
        f!(C_GetSessionInfo).s(s).st(std::mem::size_of::<CK_SESSION_INFO>()),
        f!(C_GetOperationState).s(s).out(4096),
        f!(C_SetOperationState).s(s).inb(&[7u8; 64]).o(k.aes).o(k.gen_),
        f!(C_Login).s(s).a(RK::UserType, CKU_USER as usize).inb(b"wrong-pin-1"),
        f!(C_Logout).s(s),
        f!(C_CreateObject).s(s).tm(data(false, false, "made", b"made")).hout(),
        f!(C_CopyObject).s(s).o(k.data).tm(T::new().s(CKA_LABEL, "copied")).hout(),
        f!(C_GetObjectSize).s(s).o(k.data).st(8),
        f!(C_GetAttributeValue).s(s).o(k.data).tmout(&[CKA_LABEL, CKA_CLASS]),
        f!(C_SetAttributeValue).s(s).o(k.data).tm(T::new().s(CKA_LABEL, "kdata")),
        f!(C_FindObjectsInit).s(s).tm(T::new().s(CKA_LABEL, "kdata")),
        f!(C_FindObjects).s(s).a(RK::OutPtr, 0).a(RK::OutLen, 4).hout(),
        f!(C_FindObjectsFinal).s(s),
        f!(C_EncryptInit).s(s).mech(cbc_pad()).o(k.aes),
        f!(C_Encrypt).s(s).inb(&d16).out(64),
        f!(C_EncryptUpdate).s(s).inb(&d16).out(64),
        f!(C_EncryptFinal).s(s).out(64),
        f!(C_DecryptInit).s(s).mech(cbc_pad()).o(k.aes),
        f!(C_Decrypt).s(s).inb(&d16).out(64),
        f!(C_DecryptUpdate).s(s).inb(&d16).out(64),
        f!(C_DecryptFinal).s(s).out(64),
        f!(C_DigestInit).s(s).mech(sha()),
        f!(C_Digest).s(s).inb(&d16).out(64),
        f!(C_DigestUpdate).s(s).inb(&d16),
        f!(C_DigestKey).s(s).o(k.gen_),
        f!(C_DigestFinal).s(s).out(64),
        f!(C_SignInit).s(s).mech(hmac()).o(k.gen_),
        f!(C_Sign).s(s).inb(&d16).out(64),
        f!(C_SignUpdate).s(s).inb(&d16),
        f!(C_SignFinal).s(s).out(64),
        f!(C_SignRecoverInit).s(s).mech(hmac()).o(k.gen_),
        f!(C_SignRecover).s(s).inb(&d16).out(64),
        f!(C_VerifyInit).s(s).mech(hmac()).o(k.gen_),
        f!(C_Verify).s(s).inb(&d16).inb(&[0u8; 32]),
        f!(C_VerifyUpdate).s(s).inb(&d16),
        f!(C_VerifyFinal).s(s).inb(&[0u8; 32]),
        f!(C_VerifyRecoverInit).s(s).mech(hmac()).o(k.gen_),
        f!(C_VerifyRecover).s(s).inb(&d16).out(64),
        f!(C_DigestEncryptUpdate).s(s).inb(&d16).out(64),
        f!(C_DecryptDigestUpdate).s(s).inb(&d16).out(64),
        f!(C_SignEncryptUpdate).s(s).inb(&d16).out(64),
        f!(C_DecryptVerifyUpdate).s(s).inb(&d16).out(64),
        f!(C_GenerateKey).s(s).mech(Mech::new(CKM_AES_KEY_GEN).named("AES_KEY_GEN")).tm(T::new().ul(CKA_VALUE_LEN, 16).b(CKA_TOKEN, false)).hout(),
        f!(C_GenerateKeyPair)
            .s(s)
            .mech(Mech::new(CKM_EC_KEY_PAIR_GEN).named("EC_KEY_PAIR_GEN"))
            .tm(T::new().d(CKA_EC_PARAMS, &P256).b(CKA_TOKEN, false))
            .tm(T::new().b(CKA_TOKEN, false).b(CKA_PRIVATE, false))
            .hout()
            .hout(),
        f!(C_WrapKey).s(s).mech(kw()).o(k.aes).o(k.gen_).out(128),
        f!(C_WrapKey).s(s).mech(Mech::new(CKM_AES_KEY_WRAP_KWP).named("AES_KEY_WRAP_KWP")).o(k.aes).o(k.gen_).out(128),
        f!(C_UnwrapKey).s(s).mech(kw()).o(k.aes).inb(&[5u8; 24]).tm(gkey(16).without(CKA_VALUE_LEN)).hout(),
        f!(C_DeriveKey).s(s).mech(str_mech(CKM_CONCATENATE_BASE_AND_DATA, &[1, 2, 3]).named("CONCATENATE_BASE_AND_DATA")).o(k.gen_).tm(gkey(23)).hout(),
        f!(C_DeriveKey).s(s).mech(Mech::st(CKM_CONCATENATE_BASE_AND_KEY, k.aes).named("CONCATENATE_BASE_AND_KEY")).o(k.gen_).tm(gkey(36)).hout(),
        {
            let mut pt = vec![0x04u8, 65];
            pt.extend(&EC2_POINT);
            f!(C_DeriveKey).s(s).mech(ecdh_mech(&EC2_POINT)).o(k.ecpriv).tm(gkey(32)).hout()
        },
        f!(C_SeedRandom).s(s).inb(&d16),
        f!(C_GenerateRandom).s(s).outv(16),
        f!(C_GetFunctionStatus).s(s),
        f!(C_CancelFunction).s(s),
        f!(C_LoginUser).s(s).a(RK::UserType, CKU_USER as usize).inb(b"wrong-pin-1").inb(b"name"),
        f!(C_SessionCancel).s(s).a(RK::Flags, CKF_ENCRYPT as usize),
        f!(C_MessageEncryptInit).s(s).mech(Mech::new(CKM_AES_GCM).named("AES_GCM")).o(k.aes),
        gm(f!(C_EncryptMessage).s(s)).inb(&[9u8; 4]).inb(&d16).out(64),
        gm(f!(C_EncryptMessageBegin).s(s)).inb(&[9u8; 4]),
        gm(f!(C_EncryptMessageNext).s(s)).inb(&d16).out(64).a(RK::Flags, 0),
        f!(C_MessageEncryptFinal).s(s),
        f!(C_MessageDecryptInit).s(s).mech(Mech::new(CKM_AES_GCM).named("AES_GCM")).o(k.aes),
        gm(f!(C_DecryptMessage).s(s)).inb(&[9u8; 4]).inb(&d16).out(64),
        gm(f!(C_DecryptMessageBegin).s(s)).inb(&[9u8; 4]),
        gm(f!(C_DecryptMessageNext).s(s)).inb(&d16).out(64).a(RK::Flags, 0),
        f!(C_MessageDecryptFinal).s(s),
        f!(C_MessageSignInit).s(s).mech(hmac()).o(k.gen_),
        f!(C_SignMessage).s(s).param(0usize).inb(&d16).out(64),
        f!(C_SignMessageBegin).s(s).param(0usize),
        f!(C_SignMessageNext).s(s).param(0usize).inb(&d16).out(64),
        f!(C_MessageSignFinal).s(s),
        f!(C_MessageVerifyInit).s(s).mech(hmac()).o(k.gen_),
        f!(C_VerifyMessage).s(s).param(0usize).inb(&d16).inb(&[0u8; 32]),
        f!(C_VerifyMessageBegin).s(s).param(0usize),
        f!(C_VerifyMessageNext).s(s).param(0usize).inb(&d16).inb(&[0u8; 32]),
        f!(C_MessageVerifyFinal).s(s),
        f!(C_EncapsulateKey).s(s).mech(Mech::new(CKM_RSA_PKCS).named("RSA_PKCS")).o(k.rsapub).tm(gkey(16)).out(512).hout(),
        f!(C_DecapsulateKey).s(s).mech(Mech::new(CKM_RSA_PKCS).named("RSA_PKCS")).o(k.rsapriv).tm(gkey(16)).inb(&[1u8; 256]).hout(),
        f!(C_VerifySignatureInit).s(s).mech(hmac()).o(k.gen_).inb(&[0u8; 32]),
        f!(C_VerifySignature).s(s).inb(&d16),
        f!(C_VerifySignatureUpdate).s(s).inb(&d16),
        f!(C_VerifySignatureFinal).s(s),
        f!(C_GetSessionValidationFlags).s(s).a(RK::Flags, 1).st(8),
        f!(C_AsyncComplete).s(s).a(RK::Reserved, 0).a(RK::Reserved, 0),
        f!(C_AsyncGetID).s(s).a(RK::Reserved, 0).hout(),
        f!(C_AsyncJoin).s(s).a(RK::Reserved, 0).a(RK::Val, 0).a(RK::Reserved, 0).a(RK::Val, 0),
        f!(C_WrapKeyAuthenticated).s(s).mech(Mech::new(CKM_AES_GCM).named("AES_GCM")).o(k.aes).o(k.gen_).inb(&[1u8; 4]).out(128),
        f!(C_UnwrapKeyAuthenticated).s(s).mech(Mech::new(CKM_AES_GCM).named("AES_GCM")).o(k.aes).inb(&[5u8; 32]).tm(gkey(16)).inb(&[1u8; 4]).hout(),
        // the destructive ones last
        f!(C_DestroyObject).s(s).o(k.data),
        f!(C_CloseSession).s(s),
    ];
    for c in v.iter_mut() {
        if c.name == "C_FindObjects" {
            let p = c.guarded(32);
            c.args[1].v = p;
        }
    }
    v
}
/// calls that take no session
pub fn other_calls(slot: H) -> Vec<Call> {
    vec![
        f!(C_GetInfo).st(std::mem::size_of::<CK_INFO>()),
        f!(C_GetSlotList).a(RK::Flags, 1).a(RK::OutPtr, 0).hout(),
        f!(C_GetSlotInfo).slot(slot).st(std::mem::size_of::<CK_SLOT_INFO>()),
        f!(C_GetTokenInfo).slot(slot).st(std::mem::size_of::<CK_TOKEN_INFO>()),
        f!(C_GetMechanismList).slot(slot).a(RK::OutPtr, 0).hout(),
        f!(C_GetMechanismInfo).slot(slot).a(RK::Val, CKM_AES_CBC as usize).st(std::mem::size_of::<CK_MECHANISM_INFO>()),
        f!(C_InitToken).slot(slot).inb(b"wrong-so-pin").a(RK::InPtr, LABEL.as_ptr() as usize),
        f!(C_OpenSession).slot(slot).a(RK::Flags, (CKF_SERIAL_SESSION | CKF_RW_SESSION) as usize).a(RK::Reserved, 0).a(RK::Reserved, 0).hout(),
        f!(C_CloseAllSessions).slot(slot),
        f!(C_WaitForSlotEvent).a(RK::Flags, CKF_DONT_BLOCK as usize).hout().a(RK::Reserved, 0),
    ]
}
pub static LABEL: [u8; 32] = [b'L'; 32];
