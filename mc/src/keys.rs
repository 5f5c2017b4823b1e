//! Fixed key material and mechanism parameters.
#![allow(dead_code)]
use crate::api::*;
use kryoptic_lib::pkcs11::*;

pub const P256: [u8; 10] = [0x06, 0x08, 0x2a, 0x86, 0x48, 0xce, 0x3d, 0x03, 0x01, 0x07];
pub fn hx(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
include!("keymat.rs");

pub fn key_head(class: CK_OBJECT_CLASS, kt: CK_KEY_TYPE, token: bool, private: bool) -> T {
    T::new().ul(CKA_CLASS, class).ul(CKA_KEY_TYPE, kt).b(CKA_TOKEN, token).b(CKA_PRIVATE, private)
}
pub fn ec_priv(token: bool, private: bool) -> T {
    key_head(CKO_PRIVATE_KEY, CKK_EC, token, private)
        .d(CKA_EC_PARAMS, &P256)
        .d(CKA_VALUE, &hx(EC_D))
        .b(CKA_SIGN, true)
        .b(CKA_DERIVE, true)
}
pub fn ec_pub(token: bool, private: bool) -> T {
    let mut pt = vec![0x04, 65];
    pt.extend(&EC_POINT);
    key_head(CKO_PUBLIC_KEY, CKK_EC, token, private).d(CKA_EC_PARAMS, &P256).d(CKA_EC_POINT, &pt).b(CKA_VERIFY, true).b(CKA_DERIVE, true)
}
pub fn rsa_priv(token: bool, private: bool) -> T {
    key_head(CKO_PRIVATE_KEY, CKK_RSA, token, private)
        .d(CKA_MODULUS, &hx(RSA_N))
        .d(CKA_PUBLIC_EXPONENT, &[1, 0, 1])
        .d(CKA_PRIVATE_EXPONENT, &hx(RSA_D))
        .d(CKA_PRIME_1, &hx(RSA_P))
        .d(CKA_PRIME_2, &hx(RSA_Q))
        .d(CKA_EXPONENT_1, &hx(RSA_DP))
        .d(CKA_EXPONENT_2, &hx(RSA_DQ))
        .d(CKA_COEFFICIENT, &hx(RSA_QI))
        .b(CKA_SIGN, true)
        .b(CKA_DECRYPT, true)
        .b(CKA_UNWRAP, true)
}
pub fn rsa_pub(token: bool, private: bool) -> T {
    key_head(CKO_PUBLIC_KEY, CKK_RSA, token, private)
        .d(CKA_MODULUS, &hx(RSA_N))
        .d(CKA_PUBLIC_EXPONENT, &[1, 0, 1])
        .b(CKA_VERIFY, true)
        .b(CKA_ENCRYPT, true)
        .b(CKA_WRAP, true)
}
pub fn ed_priv(token: bool, private: bool) -> T {
    key_head(CKO_PRIVATE_KEY, CKK_EC_EDWARDS, token, private).d(CKA_EC_PARAMS, &ED25519).d(CKA_VALUE, &hx(ED_D)).b(CKA_SIGN, true)
}
pub fn ed_pub(token: bool, private: bool) -> T {
    key_head(CKO_PUBLIC_KEY, CKK_EC_EDWARDS, token, private).d(CKA_EC_PARAMS, &ED25519).d(CKA_EC_POINT, &hx(ED_Q)).b(CKA_VERIFY, true)
}
pub fn hotp_key(token: bool, private: bool, counter: u64, len: CK_ULONG) -> T {
    key_head(CKO_OTP_KEY, CKK_HOTP, token, private)
        .d(CKA_VALUE, b"12345678901234567890")
        .ul(CKA_OTP_LENGTH, len)
        .d(CKA_OTP_COUNTER, &counter.to_be_bytes())
        .b(CKA_SIGN, true)
        .b(CKA_VERIFY, true)
}
pub fn str_mech(t: CK_MECHANISM_TYPE, d: &[u8]) -> Mech {
    let v = d.to_vec();
    let p = CK_KEY_DERIVATION_STRING_DATA { pData: v.as_ptr() as *mut _, ulLen: v.len() as CK_ULONG };
    Mech::st(t, p).hold(v).named(&format!("{:#x}:{}", t, hex(d)))
}
pub fn ecdh_mech(point: &[u8]) -> Mech {
    let v = point.to_vec();
    let p = CK_ECDH1_DERIVE_PARAMS {
        kdf: CKD_NULL,
        ulSharedDataLen: 0,
        pSharedData: std::ptr::null_mut(),
        ulPublicDataLen: v.len() as CK_ULONG,
        pPublicData: v.as_ptr() as *mut _,
    };
    Mech::st(CKM_ECDH1_DERIVE, p).hold(v).named("ECDH1")
}
pub fn dh_priv(token: bool, private: bool) -> T {
    key_head(CKO_PRIVATE_KEY, CKK_DH, token, private).d(CKA_PRIME, &hx(FFDHE2048)).d(CKA_BASE, &[2]).d(CKA_VALUE, &hx(DH_X)).b(CKA_DERIVE, true)
}
pub fn dh_pub(token: bool, private: bool) -> T {
    key_head(CKO_PUBLIC_KEY, CKK_DH, token, private).d(CKA_PRIME, &hx(FFDHE2048)).d(CKA_BASE, &[2]).d(CKA_VALUE, &hx(DH_Y)).b(CKA_DERIVE, true)
}
pub const X25519: [u8; 5] = [0x06, 0x03, 0x2b, 0x65, 0x6e];
pub fn mont_priv(token: bool, private: bool) -> T {
    key_head(CKO_PRIVATE_KEY, CKK_EC_MONTGOMERY, token, private).d(CKA_EC_PARAMS, &X25519).d(CKA_VALUE, &hx(ED_D)).b(CKA_DERIVE, true)
}
pub fn cert(token: bool, private: bool) -> T {
    T::new()
        .ul(CKA_CLASS, CKO_CERTIFICATE)
        .ul(CKA_CERTIFICATE_TYPE, CKC_X_509)
        .b(CKA_TOKEN, token)
        .b(CKA_PRIVATE, private)
        .s(CKA_SUBJECT, "subject")
        .s(CKA_VALUE, "certificate value")
}
/// every kind of object the tests of attribute rules use
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Data,
    Cert,
    Aes,
    Generic,
    Hotp,
    EcPriv,
    EcPub,
    RsaPriv,
    RsaPub,
    DhPriv,
    DhPub,
    MontPriv,
}
pub const KINDS: [Kind; 12] = [
    Kind::Data,
    Kind::Cert,
    Kind::Aes,
    Kind::Generic,
    Kind::Hotp,
    Kind::EcPriv,
    Kind::EcPub,
    Kind::RsaPriv,
    Kind::RsaPub,
    Kind::DhPriv,
    Kind::DhPub,
    Kind::MontPriv,
];
impl Kind {
    pub fn tmpl(self, token: bool, private: bool) -> T {
        match self {
            Kind::Data => data(token, private, "", b"some data").s(CKA_APPLICATION, "app"),
            Kind::Cert => cert(token, private),
            Kind::Aes => seckey(CKK_AES, token, private, "", &AESV).b(CKA_ENCRYPT, true).b(CKA_WRAP, true),
            Kind::Generic => seckey(CKK_GENERIC_SECRET, token, private, "", &GENV).b(CKA_SIGN, true).b(CKA_DERIVE, true),
            Kind::Hotp => hotp_key(token, private, 5, 6),
            Kind::EcPriv => ec_priv(token, private),
            Kind::EcPub => ec_pub(token, private),
            Kind::RsaPriv => rsa_priv(token, private),
            Kind::RsaPub => rsa_pub(token, private),
            Kind::DhPriv => dh_priv(token, private),
            Kind::DhPub => dh_pub(token, private),
            Kind::MontPriv => mont_priv(token, private),
        }
        .set(CKA_LABEL, b"obj")
    }
    /// has CKA_SENSITIVE and friends
    pub fn secret(self) -> bool {
        !matches!(self, Kind::Data | Kind::Cert | Kind::EcPub | Kind::RsaPub | Kind::DhPub)
    }
    pub fn is_key(self) -> bool {
        !matches!(self, Kind::Data | Kind::Cert)
    }
    /// attributes that make up the key value
    pub fn value_attrs(self) -> &'static [CK_ATTRIBUTE_TYPE] {
        match self {
            Kind::Data | Kind::Cert => &[],
            Kind::Aes | Kind::Generic | Kind::Hotp => &[CKA_VALUE],
            Kind::EcPriv | Kind::MontPriv => &[CKA_VALUE, CKA_EC_PARAMS],
            Kind::EcPub => &[CKA_EC_POINT, CKA_EC_PARAMS],
            Kind::RsaPriv => &[
                CKA_PRIVATE_EXPONENT,
                CKA_PRIME_1,
                CKA_PRIME_2,
                CKA_EXPONENT_1,
                CKA_EXPONENT_2,
                CKA_COEFFICIENT,
                CKA_MODULUS,
                CKA_PUBLIC_EXPONENT,
            ],
            Kind::RsaPub => &[CKA_MODULUS, CKA_PUBLIC_EXPONENT],
            Kind::DhPriv | Kind::DhPub => &[CKA_VALUE, CKA_PRIME, CKA_BASE],
        }
    }
    /// of those, the secret ones
    pub fn secret_attrs(self) -> Vec<CK_ATTRIBUTE_TYPE> {
        if !self.secret() {
            return vec![];
        }
        self.value_attrs()
            .iter()
            .copied()
            .filter(|a| ![CKA_EC_PARAMS, CKA_MODULUS, CKA_PUBLIC_EXPONENT, CKA_PRIME, CKA_BASE].contains(a))
            .collect()
    }
    pub fn secret_vals(self) -> Vec<(CK_ATTRIBUTE_TYPE, Vec<u8>)> {
        let t = self.tmpl(false, false);
        self.secret_attrs().into_iter().filter_map(|a| t.get(a).map(|v| (a, v.to_vec()))).collect()
    }
}
pub const AESV: [u8; 16] = [0xa5, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88, 0x99, 0xaa, 0xbb, 0xcc, 0xdd, 0xee, 0xf1];
pub const GENV: [u8; 20] = [0xc5, 0x12, 0x23, 0x34, 0x45, 0x56, 0x67, 0x78, 0x89, 0x9a, 0xab, 0xbc, 0xcd, 0xde, 0xef, 0xf2, 0x31, 0x42, 0x53, 0x64];
