//! P18: keys are used only as their attributes permit.
use crate::api::*;
use crate::c;
use crate::cry::*;
use crate::engine::*;
use crate::env::*;
use crate::kdf;
use crate::keys::*;
use crate::mesg::*;
use crate::p13::case;
use crate::p14::{RSAS, dg_t, hmac_t};
use crate::refc::{HASHES, Ha};
use kryoptic_lib::pkcs11::vendor::*;
use kryoptic_lib::pkcs11::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Enc,
    Dec,
    Sign,
    Ver,
    Vsig,
    MEnc,
    MDec,
    Wrap,
    Unwrap,
    Derive,
    SignRecover,
    VerRecover,
    MSign,
    MVer,
}
use Op::*;
pub const OPS: [Op; 14] = [Enc, Dec, Sign, Ver, Vsig, MEnc, MDec, Wrap, Unwrap, Derive, SignRecover, VerRecover, MSign, MVer];
impl Op {
    fn usage(self) -> CK_ATTRIBUTE_TYPE {
        match self {
            Enc | MEnc => CKA_ENCRYPT,
            Dec | MDec => CKA_DECRYPT,
            Sign | MSign => CKA_SIGN,
            Ver | Vsig | MVer => CKA_VERIFY,
            Wrap => CKA_WRAP,
            Unwrap => CKA_UNWRAP,
            Derive => CKA_DERIVE,
            SignRecover => CKA_SIGN_RECOVER,
            VerRecover => CKA_VERIFY_RECOVER,
        }
    }
    fn flag(self) -> CK_FLAGS {
        match self {
            Enc => CKF_ENCRYPT,
            Dec => CKF_DECRYPT,
            MEnc => CKF_MESSAGE_ENCRYPT,
            MDec => CKF_MESSAGE_DECRYPT,
            Sign => CKF_SIGN,
            MSign => CKF_MESSAGE_SIGN,
            Ver | Vsig => CKF_VERIFY,
            MVer => CKF_MESSAGE_VERIFY,
            Wrap => CKF_WRAP,
            Unwrap => CKF_UNWRAP,
            Derive => CKF_DERIVE,
            SignRecover => CKF_SIGN_RECOVER,
            VerRecover => CKF_VERIFY_RECOVER,
        }
    }
}
/// class and type of a key
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Ky {
    Sec(CK_KEY_TYPE),
    Hotp,
    EcPriv,
    EcPub,
    RsaPriv,
    RsaPub,
    DhPriv,
    DhPub,
    MontPriv,
    Data,
    Cert,
}
const HM: [(Ha, CK_KEY_TYPE); 11] = [
    (Ha::S1, CKK_SHA_1_HMAC),
    (Ha::S224, CKK_SHA224_HMAC),
    (Ha::S256, CKK_SHA256_HMAC),
    (Ha::S384, CKK_SHA384_HMAC),
    (Ha::S512, CKK_SHA512_HMAC),
    (Ha::S512_224, CKK_SHA512_224_HMAC),
    (Ha::S512_256, CKK_SHA512_256_HMAC),
    (Ha::K224, CKK_SHA3_224_HMAC),
    (Ha::K256, CKK_SHA3_256_HMAC),
    (Ha::K384, CKK_SHA3_384_HMAC),
    (Ha::K512, CKK_SHA3_512_HMAC),
];
pub fn kinds() -> Vec<Ky> {
    let mut v = vec![Ky::Sec(CKK_AES), Ky::Sec(CKK_GENERIC_SECRET), Ky::Sec(CKK_HKDF)];
    v.extend(HM.iter().map(|x| Ky::Sec(x.1)));
    v.extend([Ky::Hotp, Ky::EcPriv, Ky::EcPub, Ky::RsaPriv, Ky::RsaPub, Ky::DhPriv, Ky::DhPub, Ky::MontPriv, Ky::Data, Ky::Cert]);
    v
}
const SECU: [CK_ATTRIBUTE_TYPE; 7] = [CKA_ENCRYPT, CKA_DECRYPT, CKA_SIGN, CKA_VERIFY, CKA_WRAP, CKA_UNWRAP, CKA_DERIVE];
const PRIVU: [CK_ATTRIBUTE_TYPE; 5] = [CKA_DECRYPT, CKA_SIGN, CKA_SIGN_RECOVER, CKA_UNWRAP, CKA_DERIVE];
const PUBU: [CK_ATTRIBUTE_TYPE; 5] = [CKA_ENCRYPT, CKA_VERIFY, CKA_VERIFY_RECOVER, CKA_WRAP, CKA_DERIVE];
impl Ky {
    fn class(self) -> CK_OBJECT_CLASS {
        match self {
            Ky::Sec(_) => CKO_SECRET_KEY,
            Ky::Hotp => CKO_OTP_KEY,
            Ky::EcPriv | Ky::RsaPriv | Ky::DhPriv | Ky::MontPriv => CKO_PRIVATE_KEY,
            Ky::EcPub | Ky::RsaPub | Ky::DhPub => CKO_PUBLIC_KEY,
            Ky::Data => CKO_DATA,
            Ky::Cert => CKO_CERTIFICATE,
        }
    }
    fn usages(self) -> &'static [CK_ATTRIBUTE_TYPE] {
        match self.class() {
            CKO_SECRET_KEY => &SECU,
            CKO_OTP_KEY => &[CKA_SIGN, CKA_VERIFY],
            CKO_PRIVATE_KEY => &PRIVU,
            CKO_PUBLIC_KEY => &PUBU,
            _ => &[],
        }
    }
    fn base(self, token: bool, master: bool) -> T {
        let mut t = match self {
            Ky::Sec(kt) => {
                let v: &[u8] = match HM.iter().find(|x| x.1 == kt) {
                    Some(x) => &LONGK[..x.0.len()],
                    None if kt == CKK_AES || !master => &crate::p13::KEY32,
                    None => &MASTER,
                };
                seckey(kt, token, false, "", v).b(CKA_EXTRACTABLE, true)
            }
            Ky::Hotp => hotp_key(token, false, 5, 6),
            Ky::EcPriv => ec_priv(token, false),
            Ky::EcPub => ec_pub(token, false),
            Ky::RsaPriv => rsa_priv(token, false),
            Ky::RsaPub => rsa_pub(token, false),
            Ky::DhPriv => dh_priv(token, false),
            Ky::DhPub => dh_pub(token, false),
            Ky::MontPriv => mont_priv(token, false),
            Ky::Data => data(token, false, "", b"some data"),
            Ky::Cert => cert(token, false),
        };
        for u in SECU.iter().chain(&PRIVU).chain(&PUBU) {
            t = t.without(*u);
        }
        t.set(CKA_LABEL, b"p18")
    }
    pub fn tmpl(self, token: bool, master: bool, on: &dyn Fn(CK_ATTRIBUTE_TYPE) -> bool, allowed: Option<&[CK_MECHANISM_TYPE]>) -> T {
        let mut t = self.base(token, master);
        for u in self.usages() {
            t = t.b(*u, on(*u));
        }
        if let Some(a) = allowed {
            let v: Vec<u8> = a.iter().flat_map(|x| x.to_ne_bytes()).collect();
            t = t.d(CKA_ALLOWED_MECHANISMS, &v);
        }
        t
    }
}
const LONGK: [u8; 64] = [0x6d; 64];
const MASTER: [u8; 48] = [0x5c; 48];

/// what the key must be for a mechanism
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Need {
    Aes,
    Rsa,
    Ecdsa,
    Hmac(Ha),
    Hotp,
    TlsMac,
    /// a pre-master secret, a master secret, any
    Generic(bool),
    Dh,
    Ecdh,
    AnySecret,
    Hkdf(bool),
    Sp108,
    PubFromPriv,
}
pub struct Mi {
    pub t: CK_MECHANISM_TYPE,
    pub name: String,
    pub need: Need,
    pub ops: &'static [Op],
}
const ALL6: &[Op] = &[Enc, Dec, Sign, Ver, Wrap, Unwrap];
const CIPH: &[Op] = &[Enc, Dec, Wrap, Unwrap];
const AEAD: &[Op] = &[Enc, Dec, Wrap, Unwrap, MEnc, MDec];
const ED: &[Op] = &[Enc, Dec];
const SV: &[Op] = &[Sign, Ver];
const DER: &[Op] = &[Derive];

pub fn table() -> Vec<Mi> {
    let mut v: Vec<Mi> = vec![];
    let mut a = |t: CK_MECHANISM_TYPE, n: &str, need: Need, ops: &'static [Op]| v.push(Mi { t, name: n.to_string(), need, ops });
    a(CKM_RSA_PKCS, "RSA_PKCS", Need::Rsa, ALL6);
    a(CKM_RSA_X_509, "RSA_X_509", Need::Rsa, ALL6);
    a(CKM_RSA_PKCS_OAEP, "OAEP", Need::Rsa, CIPH);
    a(CKM_RSA_PKCS_PSS, "PSS", Need::Rsa, SV);
    for (t, n) in [
        (CKM_AES_ECB, "ECB"),
        (CKM_AES_CBC, "CBC"),
        (CKM_AES_CBC_PAD, "CBC_PAD"),
        (CKM_AES_CTR, "CTR"),
        (CKM_AES_CTS, "CTS"),
        (CKM_AES_KEY_WRAP, "KW"),
        (CKM_AES_KEY_WRAP_KWP, "KWP"),
    ] {
        a(t, n, Need::Aes, CIPH);
    }
    a(CKM_AES_GCM, "GCM", Need::Aes, AEAD);
    a(CKM_AES_CCM, "CCM", Need::Aes, AEAD);
    for (t, n) in [(CKM_AES_OFB, "OFB"), (CKM_AES_CFB8, "CFB8"), (CKM_AES_CFB128, "CFB128"), (CKM_AES_CFB1, "CFB1")] {
        a(t, n, Need::Aes, ED);
    }
    for (t, n) in [(CKM_AES_MAC, "MAC"), (CKM_AES_MAC_GENERAL, "MACG"), (CKM_AES_CMAC, "CMAC"), (CKM_AES_CMAC_GENERAL, "CMACG")] {
        a(t, n, Need::Aes, SV);
    }
    for (t, n) in [
        (CKM_ECDSA, "ECDSA"),
        (CKM_ECDSA_SHA1, "ECDSA_SHA1"),
        (CKM_ECDSA_SHA224, "ECDSA_SHA224"),
        (CKM_ECDSA_SHA256, "ECDSA_SHA256"),
        (CKM_ECDSA_SHA384, "ECDSA_SHA384"),
        (CKM_ECDSA_SHA512, "ECDSA_SHA512"),
        (CKM_ECDSA_SHA3_224, "ECDSA_SHA3_224"),
        (CKM_ECDSA_SHA3_256, "ECDSA_SHA3_256"),
        (CKM_ECDSA_SHA3_384, "ECDSA_SHA3_384"),
        (CKM_ECDSA_SHA3_512, "ECDSA_SHA3_512"),
    ] {
        a(t, n, Need::Ecdsa, SV);
    }
    for h in HASHES {
        a(hmac_t(h).0, &format!("HMAC_{:?}", h), Need::Hmac(h), SV);
        a(hmac_t(h).1, &format!("HMACG_{:?}", h), Need::Hmac(h), SV);
        if let Some((p, s)) = rsa_t(h).zip(pss_t(h)) {
            a(p, &format!("RSA_{:?}", h), Need::Rsa, SV);
            a(s, &format!("PSS_{:?}", h), Need::Rsa, SV);
        }
        a(kdf::hderive(h), &format!("{:?}_KEY_DERIVATION", h), Need::AnySecret, DER);
    }
    a(CKM_HOTP, "HOTP", Need::Hotp, SV);
    a(CKM_TLS12_MAC, "TLS12_MAC", Need::TlsMac, SV);
    a(CKM_TLS_MAC, "TLS_MAC", Need::TlsMac, SV);
    a(CKM_DH_PKCS_DERIVE, "DH", Need::Dh, DER);
    a(CKM_ECDH1_DERIVE, "ECDH1", Need::Ecdh, DER);
    a(CKM_ECDH1_COFACTOR_DERIVE, "ECDH1_COFACTOR", Need::Ecdh, DER);
    a(CKM_CONCATENATE_BASE_AND_KEY, "BASE_AND_KEY", Need::AnySecret, DER);
    a(CKM_CONCATENATE_BASE_AND_DATA, "BASE_AND_DATA", Need::AnySecret, DER);
    a(CKM_CONCATENATE_DATA_AND_BASE, "DATA_AND_BASE", Need::AnySecret, DER);
    a(CKM_XOR_BASE_AND_DATA, "XOR", Need::AnySecret, DER);
    a(CKM_EXTRACT_KEY_FROM_KEY, "EXTRACT", Need::AnySecret, DER);
    a(CKM_SP800_108_COUNTER_KDF, "SP108C", Need::Sp108, DER);
    a(CKM_SP800_108_FEEDBACK_KDF, "SP108F", Need::Sp108, DER);
    a(CKM_AES_ECB_ENCRYPT_DATA, "ECB_DATA", Need::Aes, DER);
    a(CKM_AES_CBC_ENCRYPT_DATA, "CBC_DATA", Need::Aes, DER);
    a(CKM_HKDF_DERIVE, "HKDF", Need::Hkdf(false), DER);
    a(CKM_HKDF_DATA, "HKDF_DATA", Need::Hkdf(true), DER);
    a(CKM_PUB_KEY_FROM_PRIV_KEY, "PUB_FROM_PRIV", Need::PubFromPriv, DER);
    for (t, n) in [
        (CKM_TLS12_MASTER_KEY_DERIVE, "TLS12_MASTER"),
        (CKM_TLS12_MASTER_KEY_DERIVE_DH, "TLS12_MASTER_DH"),
        (CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE, "TLS12_EMS"),
        (CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE_DH, "TLS12_EMS_DH"),
        (CKM_TLS12_KEY_AND_MAC_DERIVE, "TLS12_KM"),
        (CKM_TLS12_KEY_SAFE_DERIVE, "TLS12_KS"),
        (CKM_TLS12_KDF, "TLS12_KDF"),
        (CKM_TLS_KDF, "TLS_KDF"),
    ] {
        a(t, n, Need::Generic(true), DER);
    }
    a(KRM_SSHKDF_DERIVE, "SSHKDF", Need::Generic(false), DER);
    v
}
impl Mi {
    pub fn mech(&self, other: H) -> Mech {
        let t = self.t;
        let iv16 = || Mech::bytes(t, &IV);
        let m = match t {
            CKM_RSA_PKCS | CKM_RSA_X_509 | CKM_AES_ECB | CKM_AES_MAC | CKM_AES_CMAC | CKM_HOTP | CKM_AES_KEY_WRAP | CKM_AES_KEY_WRAP_KWP => Mech::new(t),
            CKM_RSA_PKCS_OAEP => oaep(b""),
            CKM_RSA_PKCS_PSS => pss(t),
            CKM_AES_CBC | CKM_AES_CBC_PAD | CKM_AES_CTS | CKM_AES_OFB | CKM_AES_CFB8 | CKM_AES_CFB128 | CKM_AES_CFB1 => iv16(),
            CKM_AES_CTR => ctr(64, &IV),
            CKM_AES_GCM => gcm(&IV[..12], b"aad", 128),
            CKM_AES_CCM => ccm(32, &IV[..12], b"aad", 16),
            CKM_AES_MAC_GENERAL | CKM_AES_CMAC_GENERAL => Mech::bytes(t, &(8 as CK_ULONG).to_ne_bytes()),
            CKM_TLS12_MAC | CKM_TLS_MAC => {
                Mech::st(t, CK_TLS_MAC_PARAMS { prfHashMechanism: CKM_SHA256, ulMacLength: 12, ulServerOrClient: 1 })
            }
            CKM_DH_PKCS_DERIVE => kdf::dh(&hx(DH_Y)),
            CKM_ECDH1_DERIVE | CKM_ECDH1_COFACTOR_DERIVE => kdf::ecdh(t, CKD_NULL, &[], &EC_POINT),
            CKM_CONCATENATE_BASE_AND_KEY => kdf::concat_key(other),
            CKM_CONCATENATE_BASE_AND_DATA | CKM_CONCATENATE_DATA_AND_BASE => str_mech(t, b"0123456789abcdef"),
            CKM_XOR_BASE_AND_DATA => str_mech(t, &[0x77; 32]),
            CKM_EXTRACT_KEY_FROM_KEY => kdf::extract(8),
            CKM_SP800_108_COUNTER_KDF => kdf::sp800(&kdf::Mode108::Counter, CKM_SHA256_HMAC, &[kdf::Dp::Iter(Some((false, 32)))], &[]).0,
            CKM_SP800_108_FEEDBACK_KDF => kdf::sp800(&kdf::Mode108::Feedback(vec![]), CKM_SHA256_HMAC, &[kdf::Dp::Iter(None)], &[]).0,
            CKM_AES_ECB_ENCRYPT_DATA => kdf::aes_data(false, &IV, &[5; 16]),
            CKM_AES_CBC_ENCRYPT_DATA => kdf::aes_data(true, &IV, &[5; 16]),
            CKM_HKDF_DERIVE | CKM_HKDF_DATA => kdf::hkdf(t, CKM_SHA256, true, true, &kdf::Salt::Null, b"info"),
            CKM_TLS12_MASTER_KEY_DERIVE | CKM_TLS12_MASTER_KEY_DERIVE_DH => {
                let (m, v) = kdf::tls_master(t, CKM_SHA256, &[1; 32], &[2; 32]);
                m.hold(v)
            }
            CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE | CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE_DH => {
                let (m, v) = kdf::tls_ems(t, CKM_SHA256, &[1; 32]);
                m.hold(v)
            }
            CKM_TLS12_KEY_AND_MAC_DERIVE | CKM_TLS12_KEY_SAFE_DERIVE => {
                let (m, o) = kdf::tls_keymat(t, CKM_SHA256, &[1; 32], &[2; 32], 32, 16, if t == CKM_TLS12_KEY_AND_MAC_DERIVE { 16 } else { 0 });
                m.hold(o.out).hold(o.ivc).hold(o.ivs)
            }
            CKM_TLS12_KDF | CKM_TLS_KDF => kdf::tls_kdf(t, CKM_SHA256, b"label", &[1; 32], &[2; 32], b""),
            KRM_SSHKDF_DERIVE => kdf::sshkdf(CKM_SHA256, b'C', &[3; 32], &[4; 32]),
            _ => match self.need {
                Need::Hmac(h) if hmac_t(h).1 == t => Mech::bytes(t, &(8 as CK_ULONG).to_ne_bytes()),
                Need::Rsa => match HASHES.iter().find(|h| pss_t(**h) == Some(t)) {
                    Some(h) => Mech::st(t, CK_RSA_PKCS_PSS_PARAMS { hashAlg: dg_t(*h), mgf: crate::p14::mgf(*h), sLen: 20 }),
                    None => Mech::new(t),
                },
                _ => Mech::new(t),
            },
        };
        m.named(&self.name)
    }
    pub fn mech_for(&self, ky: Ky, other: H) -> Mech {
        match (self.need, ky) {
            (Need::Ecdh, Ky::MontPriv) => kdf::ecdh(self.t, CKD_NULL, &[], &[9; 32]).named(&self.name),
            (Need::Sp108, _) => {
                let prf = match ky {
                    Ky::Sec(CKK_AES) => CKM_AES_CMAC,
                    Ky::Sec(kt) => HM.iter().find(|x| x.1 == kt).map_or(CKM_SHA256_HMAC, |x| hmac_t(x.0).0),
                    _ => CKM_SHA256_HMAC,
                };
                if self.t == CKM_SP800_108_COUNTER_KDF {
                    kdf::sp800(&kdf::Mode108::Counter, prf, &[kdf::Dp::Iter(Some((false, 32)))], &[]).0
                } else {
                    kdf::sp800(&kdf::Mode108::Feedback(vec![]), prf, &[kdf::Dp::Iter(None)], &[]).0
                }
            }
            _ => self.mech(other),
        }
    }
    /// does the mechanism take a TLS secret of 48 bytes?
    pub fn master(&self) -> bool {
        matches!(self.need, Need::Generic(true))
    }
    pub fn fits(&self, op: Op, ky: Ky) -> Option<bool> {
        if !self.ops.contains(&op) && !(op == Vsig && self.ops.contains(&Ver)) {
            return Some(false);
        }
        let sec = matches!(ky, Ky::Sec(_));
        Some(match self.need {
            // the project's tests wrap with generic secret keys
            Need::Aes if matches!(op, Wrap | Unwrap) && ky == Ky::Sec(CKK_GENERIC_SECRET) => return None,
            Need::Aes => ky == Ky::Sec(CKK_AES),
            Need::Rsa => ky == if matches!(op, Enc | Ver | Vsig | Wrap) { Ky::RsaPub } else { Ky::RsaPriv },
            Need::Ecdsa => ky == if op == Sign { Ky::EcPriv } else { Ky::EcPub },
            Need::Hmac(h) => ky == Ky::Sec(CKK_GENERIC_SECRET) || HM.iter().any(|x| x.0 == h && ky == Ky::Sec(x.1)),
            Need::Hotp => ky == Ky::Hotp,
            Need::TlsMac | Need::Generic(_) => match ky {
                Ky::Sec(CKK_GENERIC_SECRET) => true,
                // an HMAC key of the very hash of the PRF
                Ky::Sec(CKK_SHA256_HMAC) if self.need == Need::TlsMac => return None,
                _ => false,
            },
            Need::Dh => ky == Ky::DhPriv,
            // not defined for Montgomery keys
            Need::Ecdh if self.t == CKM_ECDH1_COFACTOR_DERIVE && ky == Ky::MontPriv => return None,
            Need::Ecdh => ky == Ky::EcPriv || ky == Ky::MontPriv,
            Need::AnySecret => sec,
            Need::Hkdf(data) => match ky {
                Ky::Sec(CKK_GENERIC_SECRET | CKK_HKDF) => true,
                Ky::Data if !data => return None,
                _ => false,
            },
            Need::Sp108 => ky == Ky::Sec(CKK_GENERIC_SECRET) || ky == Ky::Sec(CKK_AES) || HM.iter().any(|x| ky == Ky::Sec(x.1)),
            // the others' imported private keys do not hold the public value
            Need::PubFromPriv if matches!(ky, Ky::EcPriv | Ky::DhPriv | Ky::MontPriv) => return None,
            Need::PubFromPriv => ky == Ky::RsaPriv,
        })
    }
    /// the usage attribute the operation needs; none: needs no permission
    fn usage(&self, op: Op) -> Option<CK_ATTRIBUTE_TYPE> {
        if self.need == Need::PubFromPriv { None } else { Some(op.usage()) }
    }
    pub fn derived(&self, ky: Ky) -> T {
        let sk = || T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET).b(CKA_TOKEN, false).s(CKA_LABEL, "made");
        match self.t {
            CKM_PUB_KEY_FROM_PRIV_KEY => T::new()
                .ul(CKA_CLASS, CKO_PUBLIC_KEY)
                .ul(
                    CKA_KEY_TYPE,
                    match ky {
                        Ky::RsaPriv => CKK_RSA,
                        Ky::DhPriv => CKK_DH,
                        Ky::MontPriv => CKK_EC_MONTGOMERY,
                        _ => CKK_EC,
                    },
                )
                .b(CKA_TOKEN, false)
                .b(CKA_DESTROYABLE, true)
                .s(CKA_LABEL, "made"),
            CKM_TLS12_MASTER_KEY_DERIVE | CKM_TLS12_MASTER_KEY_DERIVE_DH | CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE | CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE_DH => {
                sk().ul(CKA_VALUE_LEN, 48)
            }
            CKM_HKDF_DATA => T::new().ul(CKA_CLASS, CKO_DATA).b(CKA_TOKEN, false).s(CKA_LABEL, "made").ul(CKA_VALUE_LEN, 16),
            _ => sk().ul(CKA_VALUE_LEN, 16),
        }
    }
}
/// fixed helpers of one item
pub struct Env {
    pub s: H,
    /// key to be wrapped, and the second key of a concatenation
    pub target: H,
    /// key of the length of an RSA modulus
    pub long: H,
}
fn long() -> [u8; 256] {
    let mut v = [0x0b; 256];
    v[0] = 0;
    v
}
pub fn unwrapped() -> T {
    T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET).b(CKA_TOKEN, false).s(CKA_LABEL, "made")
}
impl Env {
    pub fn new(w: &W, tm: &Tmpl) -> Env {
        let q = QUIET.replace(true);
        tm.fresh(&w.dir);
        let s = user_session(1);
        let target = okr(create(s, &seckey(CKK_GENERIC_SECRET, false, false, "target", &GENK).b(CKA_EXTRACTABLE, true).b(CKA_DERIVE, true)), "target");
        let long = okr(create(s, &seckey(CKK_GENERIC_SECRET, false, false, "long", &long()).b(CKA_EXTRACTABLE, true)), "long");
        QUIET.set(q);
        Env { s, target, long }
    }
    /// what the mechanism makes of the target, for unwrapping
    pub fn blob(&self, mi: &Mi) -> Vec<u8> {
        let q = QUIET.replace(true);
        let ky = if mi.need == Need::Rsa { Ky::RsaPub } else { Ky::Sec(CKK_AES) };
        let k = okr(create(self.s, &ky.tmpl(false, false, &|_| true, None)), "wrapping key");
        let b = wrap(self.s, &mi.mech(0), k, if mi.t == CKM_RSA_X_509 { self.long } else { self.target }, Some(512)).ok();
        destroy(self.s, k);
        QUIET.set(q);
        b.unwrap_or(vec![7; 40])
    }
    /// start the operation; whether it did, after making sure that a refusal leaves nothing
    fn attempt(&self, mi: &Mi, op: Op, m: &Mech, k: H, ky: Ky, blob: &[u8]) -> Result<(bool, Rv), String> {
        let s = self.s;
        let sig = [9u8; 256];
        let mut made = None;
        let rv = match op {
            Enc => encrypt_init(s, m, k),
            Dec => decrypt_init(s, m, k),
            Sign => sign_init(s, m, k),
            Ver => verify_init(s, m, k),
            Vsig => vsig_init(s, m, k, &sig[..siglen(mi)]),
            MEnc => minit(s, true, mi.t, k),
            MDec => minit(s, false, mi.t, k),
            Wrap => {
                let o = wrap(s, m, k, if mi.t == CKM_RSA_X_509 { self.long } else { self.target }, Some(512));
                if o.rv != 0 && lastbuf_shows(&GENK[..8]) {
                    return Err("the refused call delivered the key".into());
                }
                o.rv
            }
            Unwrap => {
                let r = unwrap(s, m, k, blob, &unwrapped());
                made = r.as_ref().ok().copied();
                rvr(&r)
            }
            Derive => {
                let r = derive(s, m, k, &mi.derived(ky));
                made = r.as_ref().ok().copied();
                rvr(&r)
            }
            SignRecover | VerRecover | MSign | MVer => {
                match op {
                    SignRecover => c!(C_SignRecoverInit, s, m.p(), k),
                    VerRecover => c!(C_VerifyRecoverInit, s, m.p(), k),
                    MSign => c!(C_MessageSignInit, s, m.p(), k),
                    _ => c!(C_MessageVerifyInit, s, m.p(), k),
                }
            }
        };
        if rv == 0 {
            match op {
                Enc => Kd::Enc.null_init(s),
                Dec => Kd::Dec.null_init(s),
                Sign => Kd::Sign.null_init(s),
                Ver => Kd::Ver.null_init(s),
                Vsig => Kd::Vsig.null_init(s),
                MEnc => mcancel(s, true),
                MDec => mcancel(s, false),
                _ => 0,
            };
            if let Some(h) = made {
                destroy(s, h);
                if mi.t == CKM_TLS12_KEY_AND_MAC_DERIVE || mi.t == CKM_TLS12_KEY_SAFE_DERIVE {
                    for h in find(s, &T::new().s(CKA_LABEL, "made")).unwrap_or_default() {
                        destroy(s, h);
                    }
                }
            }
            return Ok((true, rv));
        }
        let ni = |r: Rv, x: &str| if r == CKR_OPERATION_NOT_INITIALIZED { Ok(()) } else { Err(format!("the init was refused with {} but {} says {}", rvs(rv), x, rvs(r))) };
        match op {
            Enc => ni(encrypt_update(s, &[1; 16], Some(64)).rv, "C_EncryptUpdate")?,
            Dec => ni(decrypt_update(s, &[1; 16], Some(64)).rv, "C_DecryptUpdate")?,
            Sign => ni(sign(s, &[1; 16], Some(512)).rv, "C_Sign")?,
            Ver => ni(verify(s, &[1; 16], &sig), "C_Verify")?,
            Vsig => ni(vsig(s, &[1; 16]), "C_VerifySignature")?,
            Unwrap | Derive => {
                let v = find(s, &T::new().s(CKA_LABEL, "made")).unwrap_or(vec![]);
                if !v.is_empty() {
                    return Err(format!("refused with {} but there is a new object", rvs(rv)));
                }
            }
            _ => (),
        }
        Ok((false, rv))
    }
    pub fn make(&self, t: &T) -> R<H> {
        let q = QUIET.replace(true);
        let r = create(self.s, t);
        QUIET.set(q);
        r
    }
}
pub fn siglen(mi: &Mi) -> usize {
    match mi.need {
        Need::Aes => match mi.t {
            CKM_AES_MAC | CKM_AES_MAC_GENERAL | CKM_AES_CMAC_GENERAL => 8,
            _ => 16,
        },
        Need::Hmac(h) => {
            if hmac_t(h).1 == mi.t {
                8
            } else {
                h.len()
            }
        }
        Need::Ecdsa => 64,
        Need::Rsa => 256,
        _ => 12,
    }
}
fn judge(w: &mut W, env: &Env, mi: &Mi, op: Op, ky: Ky, t: &T, want: bool, blob: &[u8], what: &str) {
    let k = match env.make(t) {
        Ok(k) => k,
        Err(r) => panic!("{:?} {:?} {}", ky, t, rvs(r)),
    };
    let m = mi.mech_for(ky, env.target);
    let label = format!("{}/{:?}/{:?}", mi.name, op, ky);
    case(
        w,
        &label,
        || what.to_string(),
        || {
            if !QUIET.get() {
                note(&format!("key: {:?}", t));
            }
            let (got, rv) = env.attempt(mi, op, &m, k, ky, blob)?;
            if got && !want {
                return Err("the operation started".into());
            }
            if !got && want {
                return Err(format!("the operation was refused with {}", rvs(rv)));
            }
            Ok(())
        },
    );
    w.distinct(&(&label, what, want));
    let q = QUIET.replace(true);
    destroy(env.s, k);
    QUIET.set(q);
}

fn rsa_t(h: Ha) -> Option<CK_MECHANISM_TYPE> {
    RSAS.iter().find(|x| x.1 == h).map(|x| x.2)
}
fn pss_t(h: Ha) -> Option<CK_MECHANISM_TYPE> {
    RSAS.iter().find(|x| x.1 == h).map(|x| x.3)
}
pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    let th = o.tier.thorough();
    let tm = Tmpl::std(sc, Db::Sqlite);
    let tr = &tm;
    let tab = table();
    let tabr = &tab;
    let ks = kinds();
    let ksr = &ks;
    let stages = vec![
        // everything permitted but the wrong key or the wrong operation
        Stage::new("misfit", tab.len(), move |w: &mut W, i| {
            let mi = &tabr[i];
            let env = Env::new(w, tr);
            w.begin(&mi.name);
            let q = QUIET.replace(true);
            let blob = env.blob(mi);
            let mut info: CK_MECHANISM_INFO = unsafe { std::mem::zeroed() };
            c!(C_GetMechanismInfo, 1, mi.t, &mut info);
            QUIET.set(q);
            for op in OPS {
                for ky in ksr {
                    if mi.fits(op, *ky) != Some(false) {
                        continue;
                    }
                    // an operation the table does not know but the token offers is not judged
                    if !mi.ops.contains(&op) && op != Vsig && info.flags & op.flag() != 0 {
                        continue;
                    }
                    let t = ky.tmpl(false, mi.master(), &|_| true, None);
                    judge(w, &env, mi, op, *ky, &t, false, &blob, "wrong key");
                    let t = t.setb(CKA_PRIVATE, true);
                    judge(w, &env, mi, op, *ky, &t, false, &blob, "wrong private key");
                }
            }
        }),
        // every pattern of usage attributes, allowed lists
        Stage::new("usage", tab.len(), move |w: &mut W, i| {
            let mi = &tabr[i];
            let env = Env::new(w, tr);
            w.begin(&mi.name);
            let blob = env.blob(mi);
            let mut fitted = 0;
            for op in OPS {
                for ky in ksr {
                    if mi.fits(op, *ky) != Some(true) {
                        continue;
                    }
                    // C_VerifySignatureInit is offered by part of the mechanisms
                    let q = QUIET.replace(true);
                    if op == Vsig {
                        let k = okr(env.make(&ky.tmpl(false, mi.master(), &|_| true, None)), "key");
                        let ok = env.attempt(mi, op, &mi.mech_for(*ky, env.target), k, *ky, &blob).map_or(true, |x| x.0);
                        destroy(env.s, k);
                        if !ok {
                            QUIET.set(q);
                            continue;
                        }
                    }
                    QUIET.set(q);
                    fitted += 1;
                    let us = ky.usages();
                    let need = mi.usage(op);
                    for m in 0..1u32 << us.len() {
                        let on = |u: CK_ATTRIBUTE_TYPE| us.iter().position(|x| *x == u).is_some_and(|p| m >> p & 1 == 1);
                        let t = ky.tmpl(false, mi.master(), &on, None);
                        let want = need.is_none_or(|u| on(u));
                        judge(w, &env, mi, op, *ky, &t, want, &blob, &format!("usages {:b}", m));
                    }
                    if *ky == Ky::Hotp {
                        continue;
                    }
                    let mut lists: Vec<(Vec<CK_MECHANISM_TYPE>, bool)> = vec![];
                    let own = mi.t;
                    let others: Vec<_> = tabr.iter().map(|x| x.t).filter(|x| *x != own).collect();
                    lists.push((vec![own], true));
                    lists.push((others.clone(), false));
                    lists.push(([&others[..], &[own]].concat(), true));
                    for x in &others {
                        lists.push((vec![*x], false));
                        if th {
                            lists.push((vec![*x, own], true));
                            lists.push((vec![own, *x], true));
                            lists.push((vec![*x, *x], false));
                        }
                    }
                    // neighbours of the mechanism's number
                    for b in 0..32 {
                        lists.push((vec![own ^ 1 << b], false));
                    }
                    lists.push((vec![others[0], own, others[1]], true));
                    for (l, inl) in &lists {
                        for off in [false, true] {
                            let t = ky.tmpl(false, mi.master(), &|u| !(off && Some(u) == need), Some(l));
                            let want = *inl && (need.is_none() || !off);
                            if off && (!inl || need.is_none()) && l.len() == 1 {
                                continue;
                            }
                            judge(w, &env, mi, op, *ky, &t, want, &blob, &format!("allowed {:x?} usage {}", &l[..l.len().min(3)], !off));
                        }
                    }
                }
            }
            if fitted == 0 {
                w.viol(&format!("{}/no key", mi.name), "no key fits the mechanism");
            }
        }),
        // the attributes in force are the present ones
        Stage::new("history", tab.len() * 2, move |w: &mut W, i| {
            let (mi, token) = (&tabr[i / 2], i % 2 == 1);
            let mut env = Env::new(w, tr);
            w.begin(&mi.name);
            let blob = env.blob(mi);
            for op in OPS {
                for ky in ksr {
                    let Some(need) = mi.usage(op) else { continue };
                    if mi.fits(op, *ky) != Some(true) || op == Vsig || *ky == Ky::Hotp {
                        continue;
                    }
                    for first in [true, false] {
                        for allowed in [None, Some(mi.t), Some(CKM_SHA256)] {
                            let inl = allowed != Some(CKM_SHA256);
                            let al = allowed.map(|x| vec![x]);
                            let t = ky.tmpl(token, mi.master(), &|u| (u == need) == first, al.as_deref());
                            let mut k = okr(env.make(&t), "key");
                            let label = format!("{}/{:?}/{:?}", mi.name, op, ky);
                            let mut now = first;
                            let mut cur = k;
                            let mut gone = vec![k];
                            for step in 0..8 {
                                let q = QUIET.replace(true);
                                match step {
                                    1 | 4 | 6 => {
                                        if set(env.s, cur, &T::new().b(need, !now)) == 0 {
                                            now = !now;
                                        }
                                    }
                                    2 | 5 => {
                                        if let Ok(h) = copy(env.s, cur, &if step == 2 { T::new() } else { T::new().b(need, !now) }) {
                                            gone.push(h);
                                            cur = h;
                                            if step == 5 {
                                                now = !now;
                                            }
                                        }
                                    }
                                    3 if token => {
                                        if th || op == Sign || op == Unwrap {
                                            set(env.s, cur, &T::new().s(CKA_LABEL, "current"));
                                            ok(restart(&w.dir), "restart");
                                            env.s = user_session(1);
                                            env.target = okr(create(env.s, &seckey(CKK_GENERIC_SECRET, false, false, "target", &GENK).b(CKA_EXTRACTABLE, true).b(CKA_DERIVE, true)), "target");
                                            env.long = okr(create(env.s, &seckey(CKK_GENERIC_SECRET, false, false, "long", &long()).b(CKA_EXTRACTABLE, true)), "long");
                                            let v = okr(find(env.s, &T::new().s(CKA_LABEL, "current")), "find");
                                            gone = okr(find(env.s, &T::new().s(CKA_LABEL, "p18")), "find");
                                            gone.extend(&v);
                                            if let [h] = v[..] {
                                                cur = h;
                                            } else {
                                                panic!("{} keys after the restart", v.len());
                                            }
                                            k = cur;
                                        }
                                    }
                                    _ => (),
                                }
                                QUIET.set(q);
                                let m = mi.mech_for(*ky, env.target);
                                let want = now && inl;
                                case(
                                    w,
                                    &label,
                                    || format!("token {} first {} allowed {:x?} step {}", token, first, allowed, step),
                                    || {
                                        if !QUIET.get() {
                                            note(&format!("key {} (first {}): {:?}", cur, k, t));
                                        }
                                        let (got, rv) = env.attempt(mi, op, &m, cur, *ky, &blob)?;
                                        if got != want {
                                            return Err(format!("{} is now {} and the operation says {}", aname(need), now, rvs(rv)));
                                        }
                                        Ok(())
                                    },
                                );
                                w.distinct(&(&label, token, first, allowed, step));
                            }
                            let q = QUIET.replace(true);
                            for h in gone {
                                destroy(env.s, h);
                            }
                            QUIET.set(q);
                        }
                    }
                }
            }
        }),
        // no mechanism is left out
        Stage::new("all", 1, move |w: &mut W, _| {
            let _ = Env::new(w, tr);
            w.begin("all");
            let mut n: CK_ULONG = 0;
            c!(C_GetMechanismList, 1, std::ptr::null_mut(), &mut n);
            let mut v = vec![0 as CK_MECHANISM_TYPE; n as usize];
            c!(C_GetMechanismList, 1, v.as_mut_ptr(), &mut n);
            w.eval();
            let lost: Vec<String> = v
                .iter()
                .filter(|t| {
                    let mut i: CK_MECHANISM_INFO = unsafe { std::mem::zeroed() };
                    c!(C_GetMechanismInfo, 1, **t, &mut i);
                    i.flags & (CKF_DIGEST | CKF_GENERATE | CKF_GENERATE_KEY_PAIR) == 0 && !tabr.iter().any(|m| m.t == **t)
                })
                .map(|t| format!("{:#x}", t))
                .collect();
            w.sample(&format!("{} mechanisms, {} in the table, not covered: {:?}", n, tabr.len(), lost));
        }),
    ];
    crate::engine::run(
        Check {
            prop: "P18",
            level: "exploration",
            rule: "exhaustive enumeration on the real library: every mechanism taking a key x every operation (encrypt, decrypt, sign, verify, verify-signature, message encrypt and decrypt, wrap, unwrap, derive, recover and message-sign variants) x every class and type of key with all usages permitted: only the fitting ones start; for the fitting ones every combination of the key's usage attributes, and allowed-mechanism lists with every other single mechanism, every one-bit neighbour of the mechanism's number and several longer lists; and the same after every change of the usage attribute, copies and restarts; a refusal leaves no active operation and no object",
            assumptions: vec!["which key fits which mechanism is a table written from the PKCS#11 text; HKDF with a data object as base is not judged; HOTP keys carry a fixed allowed list".into()],
            extra: vec![],
        },
        sc,
        o,
        stages,
    )
}
