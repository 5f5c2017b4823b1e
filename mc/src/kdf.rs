//! Parameters of the key derivation mechanisms.
#![allow(dead_code)]
use crate::api::*;
use crate::keys::*;
use crate::refc::Ha;
use kryoptic_lib::pkcs11::vendor::*;
use kryoptic_lib::pkcs11::*;
use std::ptr::null_mut;

pub fn hmech(h: Ha) -> CK_MECHANISM_TYPE {
    match h {
        Ha::S1 => CKM_SHA_1,
        Ha::S224 => CKM_SHA224,
        Ha::S256 => CKM_SHA256,
        Ha::S384 => CKM_SHA384,
        Ha::S512 => CKM_SHA512,
        Ha::S512_224 => CKM_SHA512_224,
        Ha::S512_256 => CKM_SHA512_256,
        Ha::K224 => CKM_SHA3_224,
        Ha::K256 => CKM_SHA3_256,
        Ha::K384 => CKM_SHA3_384,
        Ha::K512 => CKM_SHA3_512,
    }
}
pub fn hmac_mech(h: Ha) -> CK_MECHANISM_TYPE {
    match h {
        Ha::S1 => CKM_SHA_1_HMAC,
        Ha::S224 => CKM_SHA224_HMAC,
        Ha::S256 => CKM_SHA256_HMAC,
        Ha::S384 => CKM_SHA384_HMAC,
        Ha::S512 => CKM_SHA512_HMAC,
        Ha::S512_224 => CKM_SHA512_224_HMAC,
        Ha::S512_256 => CKM_SHA512_256_HMAC,
        Ha::K224 => CKM_SHA3_224_HMAC,
        Ha::K256 => CKM_SHA3_256_HMAC,
        Ha::K384 => CKM_SHA3_384_HMAC,
        Ha::K512 => CKM_SHA3_512_HMAC,
    }
}
pub fn hderive(h: Ha) -> CK_MECHANISM_TYPE {
    match h {
        Ha::S1 => CKM_SHA1_KEY_DERIVATION,
        Ha::S224 => CKM_SHA224_KEY_DERIVATION,
        Ha::S256 => CKM_SHA256_KEY_DERIVATION,
        Ha::S384 => CKM_SHA384_KEY_DERIVATION,
        Ha::S512 => CKM_SHA512_KEY_DERIVATION,
        Ha::S512_224 => CKM_SHA512_224_KEY_DERIVATION,
        Ha::S512_256 => CKM_SHA512_256_KEY_DERIVATION,
        Ha::K224 => CKM_SHA3_224_KEY_DERIVATION,
        Ha::K256 => CKM_SHA3_256_KEY_DERIVATION,
        Ha::K384 => CKM_SHA3_384_KEY_DERIVATION,
        Ha::K512 => CKM_SHA3_512_KEY_DERIVATION,
    }
}
fn hold(v: &[u8]) -> (Vec<u8>, *mut CK_BYTE) {
    let v = v.to_vec();
    let p = if v.is_empty() { null_mut() } else { v.as_ptr() as *mut CK_BYTE };
    (v, p)
}
#[derive(Clone, Debug)]
pub enum Salt {
    Null,
    Data(Vec<u8>),
    Key(H),
}
pub fn hkdf(t: CK_MECHANISM_TYPE, h: CK_MECHANISM_TYPE, extract: bool, expand: bool, salt: &Salt, info: &[u8]) -> Mech {
    let (s, sp) = hold(if let Salt::Data(d) = salt { d } else { &[] });
    let (i, ip) = hold(info);
    let p = CK_HKDF_PARAMS {
        bExtract: extract as CK_BBOOL,
        bExpand: expand as CK_BBOOL,
        prfHashMechanism: h,
        ulSaltType: match salt {
            Salt::Null => CKF_HKDF_SALT_NULL,
            Salt::Data(_) => CKF_HKDF_SALT_DATA,
            Salt::Key(_) => CKF_HKDF_SALT_KEY,
        },
        pSalt: sp,
        ulSaltLen: s.len() as CK_ULONG,
        hSaltKey: if let Salt::Key(k) = salt { *k } else { 0 },
        pInfo: ip,
        ulInfoLen: i.len() as CK_ULONG,
    };
    Mech::st(t, p).hold(s).hold(i).named(&format!("HKDF({:#x} {}{} salt={:?} info={}b)", h, extract as u8, expand as u8, salt, info.len()))
}
/// one element of the SP 800-108 data
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Dp {
    /// little endian, width; none: the feedback value without a counter
    Iter(Option<(bool, usize)>),
    Counter(bool, usize),
    Bytes(Vec<u8>),
    /// sum of segments, little endian, width
    Len(bool, bool, usize),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Mode108 {
    Counter,
    Feedback(Vec<u8>),
}
/// `extra`: templates of the additional keys; the handles can be read from the second value
pub fn sp800(mode: &Mode108, prf: CK_MECHANISM_TYPE, dps: &[Dp], extra: &[T]) -> (Mech, Box<[CK_OBJECT_HANDLE]>) {
    let mut fmts: Vec<Box<CK_SP800_108_COUNTER_FORMAT>> = vec![];
    let mut lens: Vec<Box<CK_SP800_108_DKM_LENGTH_FORMAT>> = vec![];
    let mut bufs: Vec<Vec<u8>> = vec![];
    let mut ps = vec![];
    for d in dps {
        let (t, p, l) = match d {
            Dp::Iter(None) => (CK_SP800_108_ITERATION_VARIABLE, null_mut(), 0),
            Dp::Iter(Some((le, w))) | Dp::Counter(le, w) => {
                let f = Box::new(CK_SP800_108_COUNTER_FORMAT { bLittleEndian: *le as CK_BBOOL, ulWidthInBits: *w as CK_ULONG });
                let p = &*f as *const _ as CK_VOID_PTR;
                fmts.push(f);
                (if let Dp::Iter(_) = d { CK_SP800_108_ITERATION_VARIABLE } else { CK_SP800_108_COUNTER }, p, std::mem::size_of::<CK_SP800_108_COUNTER_FORMAT>())
            }
            Dp::Bytes(b) => {
                let (b, p) = hold(b);
                let l = b.len();
                bufs.push(b);
                (CK_SP800_108_BYTE_ARRAY, p as CK_VOID_PTR, l)
            }
            Dp::Len(seg, le, w) => {
                let f = Box::new(CK_SP800_108_DKM_LENGTH_FORMAT {
                    dkmLengthMethod: if *seg { CK_SP800_108_DKM_LENGTH_SUM_OF_SEGMENTS } else { CK_SP800_108_DKM_LENGTH_SUM_OF_KEYS },
                    bLittleEndian: *le as CK_BBOOL,
                    ulWidthInBits: *w as CK_ULONG,
                });
                let p = &*f as *const _ as CK_VOID_PTR;
                lens.push(f);
                (CK_SP800_108_DKM_LENGTH, p, std::mem::size_of::<CK_SP800_108_DKM_LENGTH_FORMAT>())
            }
        };
        ps.push(CK_PRF_DATA_PARAM { type_: t, pValue: p, ulValueLen: l as CK_ULONG });
    }
    let hs: Box<[CK_OBJECT_HANDLE]> = vec![0; extra.len()].into_boxed_slice();
    let ts: Vec<T> = extra.to_vec();
    let mut raws: Vec<_> = vec![];
    let mut dks = vec![];
    for (i, t) in ts.iter().enumerate() {
        let r = t.raw().into_boxed_slice();
        dks.push(CK_DERIVED_KEY { pTemplate: r.as_ptr() as *mut _, ulAttributeCount: r.len() as CK_ULONG, phKey: &hs[i] as *const _ as *mut _ });
        raws.push(r);
    }
    let dk = if dks.is_empty() { null_mut() } else { dks.as_ptr() as *mut _ };
    let pp = if ps.is_empty() { null_mut() } else { ps.as_ptr() as *mut _ };
    let name = format!("SP800-108 {:?} prf={:#x} {:?} +{}", mode, prf, dps, extra.len());
    let m = match mode {
        Mode108::Counter => Mech::st(
            CKM_SP800_108_COUNTER_KDF,
            CK_SP800_108_KDF_PARAMS { prfType: prf, ulNumberOfDataParams: ps.len() as CK_ULONG, pDataParams: pp, ulAdditionalDerivedKeys: dks.len() as CK_ULONG, pAdditionalDerivedKeys: dk },
        ),
        Mode108::Feedback(iv) => {
            let (iv, ip) = hold(iv);
            Mech::st(
                CKM_SP800_108_FEEDBACK_KDF,
                CK_SP800_108_FEEDBACK_KDF_PARAMS {
                    prfType: prf,
                    ulNumberOfDataParams: ps.len() as CK_ULONG,
                    pDataParams: pp,
                    ulIVLen: iv.len() as CK_ULONG,
                    pIV: ip,
                    ulAdditionalDerivedKeys: dks.len() as CK_ULONG,
                    pAdditionalDerivedKeys: dk,
                },
            )
            .hold(iv)
        }
    };
    (m.hold(fmts).hold(lens).hold(bufs).hold(ps).hold(ts).hold(raws).hold(dks).named(&name), hs)
}
pub fn ecdh(t: CK_MECHANISM_TYPE, kdf: CK_ULONG, shared: &[u8], point: &[u8]) -> Mech {
    let (s, sp) = hold(shared);
    let (q, qp) = hold(point);
    let p = CK_ECDH1_DERIVE_PARAMS { kdf, ulSharedDataLen: s.len() as CK_ULONG, pSharedData: sp, ulPublicDataLen: q.len() as CK_ULONG, pPublicData: qp };
    Mech::st(t, p).hold(s).hold(q).named(&format!("ECDH(kdf={} shared={}b point={}b)", kdf, shared.len(), point.len()))
}
pub fn dh(y: &[u8]) -> Mech {
    Mech::bytes(CKM_DH_PKCS_DERIVE, y).named("DH")
}
pub fn concat_key(k: H) -> Mech {
    Mech::bytes(CKM_CONCATENATE_BASE_AND_KEY, &k.to_ne_bytes()).named(&format!("CONCATENATE_BASE_AND_KEY({})", k))
}
pub fn extract(bit: CK_ULONG) -> Mech {
    Mech::bytes(CKM_EXTRACT_KEY_FROM_KEY, &bit.to_ne_bytes()).named(&format!("EXTRACT_KEY_FROM_KEY({})", bit))
}
pub fn aes_data(cbc: bool, iv: &[u8; 16], d: &[u8]) -> Mech {
    let (v, p) = hold(d);
    if cbc {
        Mech::st(CKM_AES_CBC_ENCRYPT_DATA, CK_AES_CBC_ENCRYPT_DATA_PARAMS { iv: *iv, pData: p, length: v.len() as CK_ULONG }).hold(v).named("AES_CBC_ENCRYPT_DATA")
    } else {
        str_mech(CKM_AES_ECB_ENCRYPT_DATA, d)
    }
}
fn rnd(c: &[u8], s: &[u8]) -> (CK_SSL3_RANDOM_DATA, (Vec<u8>, Vec<u8>)) {
    let (c, cp) = hold(c);
    let (s, sp) = hold(s);
    (CK_SSL3_RANDOM_DATA { pClientRandom: cp, ulClientRandomLen: c.len() as CK_ULONG, pServerRandom: sp, ulServerRandomLen: s.len() as CK_ULONG }, (c, s))
}
pub fn tls_master(t: CK_MECHANISM_TYPE, h: CK_MECHANISM_TYPE, c: &[u8], s: &[u8]) -> (Mech, Box<CK_VERSION>) {
    let (r, k) = rnd(c, s);
    let v = Box::new(CK_VERSION { major: 0xee, minor: 0xee });
    let p = CK_TLS12_MASTER_KEY_DERIVE_PARAMS {
        RandomInfo: r,
        pVersion: if t == CKM_TLS12_MASTER_KEY_DERIVE { &*v as *const _ as *mut _ } else { null_mut() },
        prfHashMechanism: h,
    };
    (Mech::st(t, p).hold(k).named("TLS12_MASTER"), v)
}
pub fn tls_ems(t: CK_MECHANISM_TYPE, h: CK_MECHANISM_TYPE, sh: &[u8]) -> (Mech, Box<CK_VERSION>) {
    let (s, sp) = hold(sh);
    let v = Box::new(CK_VERSION { major: 0xee, minor: 0xee });
    let p = CK_TLS12_EXTENDED_MASTER_KEY_DERIVE_PARAMS {
        prfHashMechanism: h,
        pSessionHash: sp,
        ulSessionHashLen: s.len() as CK_ULONG,
        pVersion: if t == CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE { &*v as *const _ as *mut _ } else { null_mut() },
    };
    (Mech::st(t, p).hold(s).named("TLS12_EMS"), v)
}
pub fn tls_kdf(t: CK_MECHANISM_TYPE, h: CK_MECHANISM_TYPE, label: &[u8], c: &[u8], s: &[u8], ctx: &[u8]) -> Mech {
    let (r, k) = rnd(c, s);
    let (l, lp) = hold(label);
    let (x, xp) = hold(ctx);
    let p = CK_TLS_KDF_PARAMS { prfMechanism: h, pLabel: lp, ulLabelLength: l.len() as CK_ULONG, RandomInfo: r, pContextData: xp, ulContextDataLength: x.len() as CK_ULONG };
    Mech::st(t, p).hold(k).hold(l).hold(x).named("TLS_KDF")
}
/// results of TLS12_KEY_AND_MAC_DERIVE
pub struct Mat {
    pub out: Box<CK_SSL3_KEY_MAT_OUT>,
    pub ivc: Box<[u8]>,
    pub ivs: Box<[u8]>,
}
pub fn tls_keymat(t: CK_MECHANISM_TYPE, h: CK_MECHANISM_TYPE, c: &[u8], s: &[u8], mac: usize, key: usize, iv: usize) -> (Mech, Mat) {
    let (r, k) = rnd(c, s);
    let ivc = vec![0xcdu8; iv + 8].into_boxed_slice();
    let ivs = ivc.clone();
    let out = Box::new(CK_SSL3_KEY_MAT_OUT { hClientMacSecret: 0, hServerMacSecret: 0, hClientKey: 0, hServerKey: 0, pIVClient: ivc.as_ptr() as *mut _, pIVServer: ivs.as_ptr() as *mut _ });
    let p = CK_TLS12_KEY_MAT_PARAMS {
        ulMacSizeInBits: 8 * mac as CK_ULONG,
        ulKeySizeInBits: 8 * key as CK_ULONG,
        ulIVSizeInBits: 8 * iv as CK_ULONG,
        bIsExport: CK_FALSE,
        RandomInfo: r,
        pReturnedKeyMaterial: &*out as *const _ as *mut _,
        prfHashMechanism: h,
    };
    (Mech::st(t, p).hold(k).named(&format!("TLS12_KEY_MAT(mac={} key={} iv={})", mac, key, iv)), Mat { out, ivc, ivs })
}
pub fn sshkdf(h: CK_MECHANISM_TYPE, ty: u8, xh: &[u8], sid: &[u8]) -> Mech {
    let (a, ap) = hold(xh);
    let (b, bp) = hold(sid);
    let p = KR_SSHKDF_PARAMS { prfHashMechanism: h, derivedKeyType: ty, pExchangeHash: ap, ulExchangeHashLen: a.len() as CK_ULONG, pSessionId: bp, ulSessionIdLen: b.len() as CK_ULONG };
    Mech::st(KRM_SSHKDF_DERIVE, p).hold(a).hold(b).named(&format!("SSHKDF({})", ty as char))
}
