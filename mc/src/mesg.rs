//! The message based encryption functions (C_EncryptMessage and friends) for AES-GCM and AES-CCM
use crate::api::*;
use crate::{c, tr};
use kryoptic_lib::pkcs11::*;

/// parameters of one message; the token writes the IV and the tag
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Mp {
    pub ccm: bool,
    pub iv: Vec<u8>,
    pub fixed: usize,
    pub generator: CK_ULONG,
    pub tag: Vec<u8>,
    pub datalen: usize,
}
impl Mp {
    pub fn new(ccm: bool, iv: &[u8], tl: usize, datalen: usize) -> Mp {
        Mp { ccm, iv: iv.to_vec(), fixed: 0, generator: CKG_NO_GENERATE, tag: vec![0; tl], datalen }
    }
    fn with<X>(&mut self, f: impl FnOnce(CK_VOID_PTR, CK_ULONG) -> X) -> X {
        if self.ccm {
            let mut p = CK_CCM_MESSAGE_PARAMS {
                ulDataLen: self.datalen as CK_ULONG,
                pNonce: self.iv.as_mut_ptr(),
                ulNonceLen: self.iv.len() as CK_ULONG,
                ulNonceFixedBits: self.fixed as CK_ULONG,
                nonceGenerator: self.generator,
                pMAC: self.tag.as_mut_ptr(),
                ulMACLen: self.tag.len() as CK_ULONG,
            };
            f(&mut p as *mut _ as CK_VOID_PTR, std::mem::size_of_val(&p) as CK_ULONG)
        } else {
            let mut p = CK_GCM_MESSAGE_PARAMS {
                pIv: self.iv.as_mut_ptr(),
                ulIvLen: self.iv.len() as CK_ULONG,
                ulIvFixedBits: self.fixed as CK_ULONG,
                ivGenerator: self.generator,
                pTag: self.tag.as_mut_ptr(),
                ulTagBits: 8 * self.tag.len() as CK_ULONG,
            };
            f(&mut p as *mut _ as CK_VOID_PTR, std::mem::size_of_val(&p) as CK_ULONG)
        }
    }
    pub fn t(&self) -> CK_MECHANISM_TYPE {
        if self.ccm { CKM_AES_CCM } else { CKM_AES_GCM }
    }
    fn show(&self) -> String {
        format!("{}(iv={} fixed={} gen={} tag={})", if self.ccm { "CCM" } else { "GCM" }, hex(&self.iv), self.fixed, self.generator, hex(&self.tag))
    }
}
pub fn minit(s: H, enc: bool, t: CK_MECHANISM_TYPE, k: H) -> Rv {
    let m = Mech::new(t);
    let rv = if enc { c!(C_MessageEncryptInit, s, m.p(), k) } else { c!(C_MessageDecryptInit, s, m.p(), k) };
    tr!("C_Message{}Init({}, {:#x}, {}) -> {}", name(enc), s, t, k, rvs(rv));
    rv
}
pub fn mcancel(s: H, enc: bool) -> Rv {
    let n = std::ptr::null_mut();
    let rv = if enc { c!(C_MessageEncryptInit, s, n, 0) } else { c!(C_MessageDecryptInit, s, n, 0) };
    tr!("C_Message{}Init({}, null) -> {}", name(enc), s, rvs(rv));
    rv
}
pub fn mfinal(s: H, enc: bool) -> Rv {
    let rv = if enc { c!(C_MessageEncryptFinal, s) } else { c!(C_MessageDecryptFinal, s) };
    tr!("C_Message{}Final({}) -> {}", name(enc), s, rvs(rv));
    rv
}
fn name(enc: bool) -> &'static str {
    if enc { "Encrypt" } else { "Decrypt" }
}
pub fn mone(s: H, enc: bool, p: &mut Mp, aad: &[u8], d: &[u8], cap: Option<usize>) -> Out {
    let b = p.show();
    let o = p.with(|pp, pl| {
        outcall(cap, |o, l| {
            if enc {
                c!(C_EncryptMessage, s, pp, pl, bp(aad), aad.len() as CK_ULONG, bpn(d), d.len() as CK_ULONG, o, l)
            } else {
                c!(C_DecryptMessage, s, pp, pl, bp(aad), aad.len() as CK_ULONG, bpn(d), d.len() as CK_ULONG, o, l)
            }
        })
    });
    tr!("C_{}Message({}, {}, aad={}b, {}b, cap={:?}) -> {} {} iv={} tag={}", name(enc), s, b, aad.len(), d.len(), cap, rvs(o.rv), hex(&o.data), hex(&p.iv), hex(&p.tag));
    o
}
pub fn mbegin(s: H, enc: bool, p: &mut Mp, aad: &[u8]) -> Rv {
    let b = p.show();
    let rv = p.with(|pp, pl| {
        if enc {
            c!(C_EncryptMessageBegin, s, pp, pl, bp(aad), aad.len() as CK_ULONG)
        } else {
            c!(C_DecryptMessageBegin, s, pp, pl, bp(aad), aad.len() as CK_ULONG)
        }
    });
    tr!("C_{}MessageBegin({}, {}, aad={}b) -> {} iv={}", name(enc), s, b, aad.len(), rvs(rv), hex(&p.iv));
    rv
}
pub fn mnext(s: H, enc: bool, p: &mut Mp, d: &[u8], cap: Option<usize>, end: bool) -> Out {
    let f: CK_FLAGS = if end { CKF_END_OF_MESSAGE } else { 0 };
    let o = p.with(|pp, pl| {
        outcall(cap, |o, l| {
            if enc {
                c!(C_EncryptMessageNext, s, pp, pl, bpn(d), d.len() as CK_ULONG, o, l, f)
            } else {
                c!(C_DecryptMessageNext, s, pp, pl, bpn(d), d.len() as CK_ULONG, o, l, f)
            }
        })
    });
    tr!("C_{}MessageNext({}, {}b, cap={:?}, end={}) -> {} {} tag={}", name(enc), s, d.len(), cap, end, rvs(o.rv), hex(&o.data), hex(&p.tag));
    o
}
