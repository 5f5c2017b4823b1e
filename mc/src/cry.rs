//! Table of mechanisms with fixed keys and parameters, shared by the checks of cryptographic operations.
#![allow(dead_code)]
use crate::api::*;
use crate::env::*;
use crate::keys::*;
use kryoptic_lib::pkcs11::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Kd {
    Enc,
    Dec,
    Dig,
    Sign,
    Ver,
    Vsig,
}
#[derive(Clone, Copy, Default)]
pub struct Ks {
    pub aes: H,
    pub gen_: H,
    pub rsa: H,
    pub rsap: H,
    pub ec: H,
    pub ecp: H,
    pub hotp: H,
}
pub const AESK: [u8; 16] = [0x2b, 0x7e, 0x15, 0x16, 0x28, 0xae, 0xd2, 0xa6, 0xab, 0xf7, 0x15, 0x88, 0x09, 0xcf, 0x4f, 0x3c];
pub const GENK: [u8; 32] = [0x0b; 32];
impl Ks {
    pub fn make(s: H) -> Ks {
        let q = QUIET.replace(true);
        let k = Ks {
            aes: okr(
                create(s, &aeskey(false, false, "aes", &AESK).b(CKA_SIGN, true).b(CKA_VERIFY, true).b(CKA_WRAP, true).b(CKA_UNWRAP, true)),
                "aes",
            ),
            gen_: okr(create(s, &seckey(CKK_GENERIC_SECRET, false, false, "gen", &GENK).b(CKA_SIGN, true).b(CKA_VERIFY, true)), "gen"),
            rsa: okr(create(s, &rsa_priv(false, false)), "rsa"),
            rsap: okr(create(s, &rsa_pub(false, false)), "rsap"),
            ec: okr(create(s, &ec_priv(false, false)), "ec"),
            ecp: okr(create(s, &ec_pub(false, false)), "ecp"),
            hotp: okr(create(s, &hotp_key(false, false, 0, 6)), "hotp"),
        };
        QUIET.set(q);
        k
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ky {
    Aes,
    Gen,
    Rsa,
    Ec,
    None,
}
#[derive(Clone, Copy)]
pub struct Cm {
    pub name: &'static str,
    pub t: CK_MECHANISM_TYPE,
    pub key: Ky,
    /// cipher, mac/signature or digest
    pub cls: Cls,
    /// more than one part allowed
    pub multi: bool,
    /// same input, same output
    pub det: bool,
    /// data length must be a multiple of this
    pub block: usize,
    /// fixed or largest data length for single-part mechanisms
    pub one: usize,
    pub aead: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cls {
    Ciph,
    Sig,
    Dig,
}
pub const IV: [u8; 16] = [0xf0, 0xf1, 0xf2, 0xf3, 0xf4, 0xf5, 0xf6, 0xf7, 0xf8, 0xf9, 0xfa, 0xfb, 0xfc, 0xfd, 0xfe, 0xff];
pub const AAD: [u8; 20] = [0xad; 20];

pub fn gcm(iv: &[u8], aad: &[u8], tagbits: CK_ULONG) -> Mech {
    let (i, a) = (iv.to_vec(), aad.to_vec());
    let p = CK_GCM_PARAMS {
        pIv: i.as_ptr() as *mut _,
        ulIvLen: i.len() as CK_ULONG,
        ulIvBits: 8 * i.len() as CK_ULONG,
        pAAD: if a.is_empty() { std::ptr::null_mut() } else { a.as_ptr() as *mut _ },
        ulAADLen: a.len() as CK_ULONG,
        ulTagBits: tagbits,
    };
    Mech::st(CKM_AES_GCM, p).hold(i).hold(a).named(&format!("GCM(iv={}b,aad={}b,tag={})", iv.len(), aad.len(), tagbits))
}
pub fn ccm(datalen: usize, nonce: &[u8], aad: &[u8], mac: usize) -> Mech {
    let (i, a) = (nonce.to_vec(), aad.to_vec());
    let p = CK_CCM_PARAMS {
        ulDataLen: datalen as CK_ULONG,
        pNonce: i.as_ptr() as *mut _,
        ulNonceLen: i.len() as CK_ULONG,
        pAAD: if a.is_empty() { std::ptr::null_mut() } else { a.as_ptr() as *mut _ },
        ulAADLen: a.len() as CK_ULONG,
        ulMACLen: mac as CK_ULONG,
    };
    Mech::st(CKM_AES_CCM, p).hold(i).hold(a).named(&format!("CCM(len={},nonce={}b,aad={}b,mac={})", datalen, nonce.len(), aad.len(), mac))
}
pub fn ctr(bits: CK_ULONG, cb: &[u8; 16]) -> Mech {
    Mech::st(CKM_AES_CTR, CK_AES_CTR_PARAMS { ulCounterBits: bits, cb: *cb }).named(&format!("CTR(bits={},cb={})", bits, hex(cb)))
}
pub fn oaep(label: &[u8]) -> Mech {
    let l = label.to_vec();
    let p = CK_RSA_PKCS_OAEP_PARAMS {
        hashAlg: CKM_SHA256,
        mgf: CKG_MGF1_SHA256,
        source: CKZ_DATA_SPECIFIED,
        pSourceData: if l.is_empty() { std::ptr::null_mut() } else { l.as_ptr() as *mut _ },
        ulSourceDataLen: l.len() as CK_ULONG,
    };
    Mech::st(CKM_RSA_PKCS_OAEP, p).hold(l).named("OAEP")
}
pub fn pss(t: CK_MECHANISM_TYPE) -> Mech {
    Mech::st(t, CK_RSA_PKCS_PSS_PARAMS { hashAlg: CKM_SHA256, mgf: CKG_MGF1_SHA256, sLen: 32 }).named("PSS")
}
const fn ci(name: &'static str, t: CK_MECHANISM_TYPE, block: usize) -> Cm {
    Cm { name, t, key: Ky::Aes, cls: Cls::Ciph, multi: true, det: true, block, one: 0, aead: false }
}
const fn mac(name: &'static str, t: CK_MECHANISM_TYPE, key: Ky) -> Cm {
    Cm { name, t, key, cls: Cls::Sig, multi: true, det: true, block: 1, one: 0, aead: false }
}
const fn dg(name: &'static str, t: CK_MECHANISM_TYPE) -> Cm {
    Cm { name, t, key: Ky::None, cls: Cls::Dig, multi: true, det: true, block: 1, one: 0, aead: false }
}
pub const CMS: &[Cm] = &[
    ci("AES_ECB", CKM_AES_ECB, 16),
    ci("AES_CBC", CKM_AES_CBC, 16),
    ci("AES_CBC_PAD", CKM_AES_CBC_PAD, 1),
    ci("AES_CTR", CKM_AES_CTR, 1),
    Cm { multi: false, ..ci("AES_CTS", CKM_AES_CTS, 1) },
    ci("AES_OFB", CKM_AES_OFB, 1),
    ci("AES_CFB8", CKM_AES_CFB8, 1),
    ci("AES_CFB128", CKM_AES_CFB128, 1),
    ci("AES_CFB1", CKM_AES_CFB1, 1),
    Cm { aead: true, ..ci("AES_GCM", CKM_AES_GCM, 1) },
    Cm { aead: true, ..ci("AES_CCM", CKM_AES_CCM, 1) },
    Cm { name: "RSA_PKCS", t: CKM_RSA_PKCS, key: Ky::Rsa, cls: Cls::Ciph, multi: false, det: false, block: 1, one: 100, aead: true },
    Cm { name: "RSA_OAEP", t: CKM_RSA_PKCS_OAEP, key: Ky::Rsa, cls: Cls::Ciph, multi: false, det: false, block: 1, one: 100, aead: true },
    dg("SHA_1", CKM_SHA_1),
    dg("SHA224", CKM_SHA224),
    dg("SHA256", CKM_SHA256),
    dg("SHA384", CKM_SHA384),
    dg("SHA512", CKM_SHA512),
    dg("SHA512_224", CKM_SHA512_224),
    dg("SHA512_256", CKM_SHA512_256),
    dg("SHA3_224", CKM_SHA3_224),
    dg("SHA3_256", CKM_SHA3_256),
    dg("SHA3_384", CKM_SHA3_384),
    dg("SHA3_512", CKM_SHA3_512),
    mac("SHA_1_HMAC", CKM_SHA_1_HMAC, Ky::Gen),
    mac("SHA256_HMAC", CKM_SHA256_HMAC, Ky::Gen),
    mac("SHA256_HMAC_GENERAL", CKM_SHA256_HMAC_GENERAL, Ky::Gen),
    mac("SHA3_512_HMAC", CKM_SHA3_512_HMAC, Ky::Gen),
    mac("AES_CMAC", CKM_AES_CMAC, Ky::Aes),
    mac("AES_CMAC_GENERAL", CKM_AES_CMAC_GENERAL, Ky::Aes),
    mac("AES_MAC", CKM_AES_MAC, Ky::Aes),
    mac("AES_MAC_GENERAL", CKM_AES_MAC_GENERAL, Ky::Aes),
    Cm { name: "RSA_PKCS_SIG", t: CKM_RSA_PKCS, key: Ky::Rsa, cls: Cls::Sig, multi: false, det: true, block: 1, one: 100, aead: false },
    mac("SHA256_RSA_PKCS", CKM_SHA256_RSA_PKCS, Ky::Rsa),
    Cm { det: false, ..mac("SHA256_RSA_PSS", CKM_SHA256_RSA_PKCS_PSS, Ky::Rsa) },
    Cm { name: "RSA_PSS", t: CKM_RSA_PKCS_PSS, key: Ky::Rsa, cls: Cls::Sig, multi: false, det: false, block: 1, one: 32, aead: false },
    Cm { name: "ECDSA", t: CKM_ECDSA, key: Ky::Ec, cls: Cls::Sig, multi: false, det: false, block: 1, one: 32, aead: false },
    Cm { det: false, ..mac("ECDSA_SHA256", CKM_ECDSA_SHA256, Ky::Ec) },
    Cm { det: false, ..mac("ECDSA_SHA512", CKM_ECDSA_SHA512, Ky::Ec) },
];
pub fn cm(name: &str) -> &'static Cm {
    CMS.iter().find(|c| c.name == name).expect("mechanism")
}
impl Cm {
    /// mechanism for data of a total length
    pub fn mech(&self, total: usize) -> Mech {
        match self.t {
            CKM_AES_CBC | CKM_AES_CBC_PAD | CKM_AES_CTS | CKM_AES_OFB | CKM_AES_CFB8 | CKM_AES_CFB128 | CKM_AES_CFB1 => {
                Mech::bytes(self.t, &IV).named(self.name)
            }
            CKM_AES_CTR => ctr(32, &IV),
            CKM_AES_GCM => gcm(&IV[..12], &AAD, 128),
            CKM_AES_CCM => ccm(total, &IV[..12], &AAD, 16),
            CKM_RSA_PKCS_OAEP => oaep(b"label"),
            CKM_SHA256_RSA_PKCS_PSS | CKM_RSA_PKCS_PSS => pss(self.t),
            CKM_SHA256_HMAC_GENERAL => Mech::bytes(self.t, &(20 as CK_ULONG).to_ne_bytes()).named(self.name),
            CKM_AES_CMAC_GENERAL | CKM_AES_MAC_GENERAL => Mech::bytes(self.t, &(7 as CK_ULONG).to_ne_bytes()).named(self.name),
            _ => Mech::new(self.t).named(self.name),
        }
    }
    pub fn kinds(&self) -> Vec<Kd> {
        match self.cls {
            Cls::Ciph => vec![Kd::Enc, Kd::Dec],
            Cls::Dig => vec![Kd::Dig],
            Cls::Sig => {
                if self.key == Ky::Rsa || self.key == Ky::Ec {
                    vec![Kd::Sign, Kd::Ver, Kd::Vsig]
                } else {
                    vec![Kd::Sign, Kd::Ver]
                }
            }
        }
    }
    /// key handle for a kind of operation
    pub fn key(&self, k: &Ks, kd: Kd) -> H {
        let public = matches!(kd, Kd::Enc | Kd::Ver | Kd::Vsig);
        match self.key {
            Ky::Aes => k.aes,
            Ky::Gen => k.gen_,
            Ky::Rsa if public => k.rsap,
            Ky::Rsa => k.rsa,
            Ky::Ec if public => k.ecp,
            Ky::Ec => k.ec,
            Ky::None => 0,
        }
    }
}
impl Kd {
    pub fn flag(self) -> CK_FLAGS {
        match self {
            Kd::Enc => CKF_ENCRYPT,
            Kd::Dec => CKF_DECRYPT,
            Kd::Dig => CKF_DIGEST,
            Kd::Sign => CKF_SIGN,
            Kd::Ver | Kd::Vsig => CKF_VERIFY,
        }
    }
    pub fn init(self, s: H, m: &Mech, k: H, sig: &[u8]) -> Rv {
        match self {
            Kd::Enc => encrypt_init(s, m, k),
            Kd::Dec => decrypt_init(s, m, k),
            Kd::Dig => digest_init(s, m),
            Kd::Sign => sign_init(s, m, k),
            Kd::Ver => verify_init(s, m, k),
            Kd::Vsig => vsig_init(s, m, k, sig),
        }
    }
    pub fn null_init(self, s: H) -> Rv {
        use crate::c;
        let n = std::ptr::null_mut();
        let rv = match self {
            Kd::Enc => c!(C_EncryptInit, s, n, 0),
            Kd::Dec => c!(C_DecryptInit, s, n, 0),
            Kd::Dig => c!(C_DigestInit, s, n),
            Kd::Sign => c!(C_SignInit, s, n, 0),
            Kd::Ver => c!(C_VerifyInit, s, n, 0),
            Kd::Vsig => c!(C_VerifySignatureInit, s, n, 0, n as *mut _, 0),
        };
        crate::tr!("init {:?} with a null mechanism -> {}", self, rvs(rv));
        rv
    }
    /// output of update calls: only ciphers have any
    pub fn update(self, s: H, d: &[u8], cap: Option<usize>) -> Out {
        let o = |rv| Out { rv, len: 0, data: vec![], overrun: false };
        match self {
            Kd::Enc => encrypt_update(s, d, cap),
            Kd::Dec => decrypt_update(s, d, cap),
            Kd::Dig => o(digest_update(s, d)),
            Kd::Sign => o(sign_update(s, d)),
            Kd::Ver => o(verify_update(s, d)),
            Kd::Vsig => o(vsig_update(s, d)),
        }
    }
    pub fn fin(self, s: H, sig: &[u8], cap: Option<usize>) -> Out {
        let o = |rv| Out { rv, len: 0, data: vec![], overrun: false };
        match self {
            Kd::Enc => encrypt_final(s, cap),
            Kd::Dec => decrypt_final(s, cap),
            Kd::Dig => digest_final(s, cap),
            Kd::Sign => sign_final(s, cap),
            Kd::Ver => o(verify_final(s, sig)),
            Kd::Vsig => o(vsig_final(s)),
        }
    }
    pub fn one(self, s: H, d: &[u8], sig: &[u8], cap: Option<usize>) -> Out {
        let o = |rv| Out { rv, len: 0, data: vec![], overrun: false };
        match self {
            Kd::Enc => encrypt(s, d, cap),
            Kd::Dec => decrypt(s, d, cap),
            Kd::Dig => digest(s, d, cap),
            Kd::Sign => sign(s, d, cap),
            Kd::Ver => o(verify(s, d, sig)),
            Kd::Vsig => o(vsig(s, d)),
        }
    }
    pub fn has_out(self) -> bool {
        !matches!(self, Kd::Ver | Kd::Vsig)
    }
}
