//! P19: key wrapping respects extractability and round-trips.
use crate::api::*;
use crate::cry::*;
use crate::engine::*;
use crate::env::*;
use crate::keys::*;
use crate::p13::{KEY32, case, msg};
use crate::p14::{e, eq, z};
use crate::refc;
use kryoptic_lib::pkcs11::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Wm {
    Ecb,
    Cbc,
    Pad,
    Ctr,
    Cts,
    Kw,
    Kwp,
    Gcm,
    Ccm,
    Pkcs,
    Oaep,
    X509,
}
use Wm::*;
pub const WMS: [Wm; 12] = [Ecb, Cbc, Pad, Ctr, Cts, Kw, Kwp, Gcm, Ccm, Pkcs, Oaep, X509];
impl Wm {
    pub fn rsa(self) -> bool {
        matches!(self, Pkcs | Oaep | X509)
    }
    /// for a wrapped value of n bytes; alt: other parameters, as far as there are any
    pub fn mech(self, n: usize, alt: bool) -> Mech {
        let iv = [if alt { 0x31 } else { 0x30 }; 16];
        let aad: &[u8] = if alt { b"other" } else { b"aad" };
        match self {
            Ecb => Mech::new(CKM_AES_ECB),
            Cbc => Mech::bytes(CKM_AES_CBC, &iv),
            Pad => Mech::bytes(CKM_AES_CBC_PAD, &iv),
            Ctr => ctr(64, &iv),
            Cts => Mech::bytes(CKM_AES_CTS, &iv),
            Kw => Mech::new(CKM_AES_KEY_WRAP),
            Kwp => Mech::new(CKM_AES_KEY_WRAP_KWP),
            Gcm => gcm(&iv[..12], aad, 128),
            Ccm => ccm(n, &iv[..12], aad, 16),
            Pkcs => Mech::new(CKM_RSA_PKCS),
            Oaep => oaep(if alt { b"other" } else { b"" }),
            X509 => Mech::new(CKM_RSA_X_509),
        }
        .named(&format!("{:?}", self))
    }
    /// does it protect what it wraps?
    fn sealed(self) -> bool {
        matches!(self, Kw | Kwp | Gcm | Ccm | Oaep)
    }
    /// the parameters are part of that
    fn params(self) -> bool {
        matches!(self, Gcm | Ccm | Oaep)
    }
    pub fn takes(self, n: usize) -> bool {
        match self {
            Cts => n >= 16,
            Kw => n >= 16 && n % 8 == 0,
            Pkcs => n <= 245,
            Oaep => n <= 190,
            X509 => n == 256,
            _ => true,
        }
    }
    fn reference(self, k: &[u8], v: &[u8]) -> Option<Vec<u8>> {
        let iv = [0x30; 16];
        let mut pad = v.to_vec();
        pad.resize(v.len().div_ceil(16) * 16, 0);
        Some(match self {
            Ecb => refc::ecb(k, &pad),
            Cbc => refc::cbc(k, &iv, &pad),
            Pad => refc::cbc_pad(k, &iv, v),
            Ctr => refc::ctr(k, &iv, 64, v),
            Cts => refc::cts1(k, &iv, v),
            Kw => refc::kw(k, v, [0xa6; 8]),
            Kwp => refc::kwp(k, v),
            Gcm => {
                let (mut c, g) = refc::gcm(k, &iv[..12], b"aad", v);
                c.extend(g);
                c
            }
            Ccm => {
                let (mut c, g) = refc::ccm(k, &iv[..12], b"aad", v, 16);
                c.extend(g);
                c
            }
            _ => return None,
        })
    }
}
/// what is wrapped
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Tg {
    Sec(CK_KEY_TYPE, usize),
    Hotp,
    Ec,
    Rsa,
    Mont,
}
pub const TGS: [Tg; 9] = [
    Tg::Sec(CKK_GENERIC_SECRET, 24),
    Tg::Sec(CKK_AES, 16),
    Tg::Sec(CKK_AES, 32),
    Tg::Sec(CKK_HKDF, 32),
    Tg::Sec(CKK_SHA256_HMAC, 32),
    Tg::Hotp,
    Tg::Ec,
    Tg::Rsa,
    Tg::Mont,
];
impl Tg {
    pub fn tmpl(self, token: bool, private: bool) -> T {
        match self {
            Tg::Sec(kt, n) => seckey(kt, token, private, "", &val(n)),
            Tg::Hotp => hotp_key(token, private, 7, 6),
            Tg::Ec => ec_priv(token, private),
            Tg::Rsa => rsa_priv(token, private),
            Tg::Mont => mont_priv(token, private),
        }
        .without(CKA_SENSITIVE)
        .without(CKA_EXTRACTABLE)
    }
    /// what the caller says about the unwrapped key
    fn back(self, token: bool) -> T {
        let (c, k) = match self {
            Tg::Sec(kt, _) => (CKO_SECRET_KEY, kt),
            Tg::Hotp => (CKO_OTP_KEY, CKK_HOTP),
            Tg::Ec => (CKO_PRIVATE_KEY, CKK_EC),
            Tg::Rsa => (CKO_PRIVATE_KEY, CKK_RSA),
            Tg::Mont => (CKO_PRIVATE_KEY, CKK_EC_MONTGOMERY),
        };
        let t = T::new().ul(CKA_CLASS, c).ul(CKA_KEY_TYPE, k).b(CKA_TOKEN, token).s(CKA_LABEL, "back");
        match self {
            Tg::Hotp => t.ul(CKA_OTP_LENGTH, 6).d(CKA_OTP_COUNTER, &7u64.to_be_bytes()),
            _ => t,
        }
    }
    /// length of what is wrapped, if it is the value itself
    pub fn len(self) -> Option<usize> {
        match self {
            Tg::Sec(_, n) => Some(n),
            Tg::Hotp => Some(20),
            _ => None,
        }
    }
}
fn val(n: usize) -> Vec<u8> {
    msg(n).iter().map(|x| x ^ 0x5a).collect()
}
/// the attributes that make the key
const MATERIAL: [CK_ATTRIBUTE_TYPE; 12] = [
    CKA_CLASS, CKA_KEY_TYPE, CKA_VALUE, CKA_EC_PARAMS, CKA_MODULUS, CKA_PUBLIC_EXPONENT, CKA_PRIVATE_EXPONENT, CKA_PRIME_1, CKA_PRIME_2, CKA_EXPONENT_1, CKA_EXPONENT_2,
    CKA_COEFFICIENT,
];
fn material(s: H, h: H) -> Result<Vec<(CK_ATTRIBUTE_TYPE, Vec<u8>)>, String> {
    let m = snap(s, h).map_err(|r| e("C_GetAttributeValue", r))?;
    Ok(MATERIAL.iter().filter_map(|t| m.get(t).map(|v| (*t, v.clone()))).collect())
}
fn count(s: H) -> Result<usize, String> {
    find(s, &T::new()).map(|v| v.len()).map_err(|r| e("find", r))
}
struct Ws {
    s: H,
    aes: [H; 3],
    other: H,
    rpub: H,
    rpriv: H,
}
fn ready(w: &W, tm: &Tmpl) -> Ws {
    let q = QUIET.replace(true);
    tm.fresh(&w.dir);
    let s = user_session(1);
    let on = |t: T| t.b(CKA_WRAP, true).b(CKA_UNWRAP, true);
    let aes = [16, 24, 32].map(|n| okr(create(s, &on(aeskey(false, false, "aes", &KEY32[..n]))), "aes key"));
    let other = okr(create(s, &on(aeskey(false, false, "other", &[0x77; 16]))), "other key");
    let rpub = okr(create(s, &rsa_pub(false, false)), "rsa public");
    let rpriv = okr(create(s, &rsa_priv(false, false)), "rsa private");
    QUIET.set(q);
    Ws { s, aes, other, rpub, rpriv }
}
impl Ws {
    fn keys(&self, m: Wm, kl: usize) -> (H, H) {
        if m.rsa() { (self.rpub, self.rpriv) } else { (self.aes[kl], self.aes[kl]) }
    }
    fn new(&self, t: &T) -> Result<H, String> {
        create(self.s, t).map_err(|r| e("C_CreateObject", r))
    }
    fn drop(&self, h: H) -> Result<(), String> {
        z(destroy(self.s, h), "C_DestroyObject")
    }
}
/// secret values of every length
fn lengths(w: &mut W, x: &Ws, m: Wm, kl: usize, n: usize) {
    case(
        w,
        &format!("value/{:?}", m),
        || format!("{} byte AES key, {} byte secret", 16 + 8 * kl, n),
        || {
            let (wk, uk) = x.keys(m, kl);
            let v = val(n);
            let mut v = v;
            if m == X509 {
                v[0] = 0;
            }
            let k = x.new(&seckey(CKK_GENERIC_SECRET, false, false, "", &v).b(CKA_EXTRACTABLE, true))?;
            let mech = m.mech(n, false);
            let o = wrap(x.s, &mech, wk, k, Some(600));
            x.drop(k)?;
            if o.rv != 0 {
                return if m.takes(n) { Err(e("C_WrapKey", o.rv)) } else { Ok(()) };
            }
            if !m.takes(n) {
                return Err(format!("a secret of {} bytes was wrapped", n));
            }
            let b = o.ok().unwrap();
            if let Some(r) = m.reference(&KEY32[..16 + 8 * kl], &v) {
                eq(&b, &r, "wrapped key")?;
            }
            let back = Tg::Sec(CKK_GENERIC_SECRET, n).back(false).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
            let padded = matches!(m, Ecb | Cbc) && n % 16 != 0;
            for len in [false, true] {
                let t = if len { back.clone().ul(CKA_VALUE_LEN, n as CK_ULONG) } else { back.clone() };
                let h = unwrap(x.s, &mech, uk, &b, &t).map_err(|r| e("C_UnwrapKey", r))?;
                let g = get(x.s, h, CKA_VALUE).map_err(|r| e("C_GetAttributeValue", r))?;
                if padded && !len {
                    eq(&g[..n.min(g.len())], &v, "unwrapped value")?;
                } else {
                    eq(&g, &v, "unwrapped value")?;
                    let l = get(x.s, h, CKA_VALUE_LEN).map_err(|r| e("CKA_VALUE_LEN", r))?;
                    eq(&l, &(n as CK_ULONG).to_ne_bytes(), "CKA_VALUE_LEN")?;
                }
                x.drop(h)?;
            }
            // the length asked for is the length made, or none is
            if !padded {
                for l in [1, n / 2, n.saturating_sub(1), n + 1, n + 16] {
                    if l == 0 || l == n {
                        continue;
                    }
                    if let Ok(h) = unwrap(x.s, &mech, uk, &b, &back.clone().ul(CKA_VALUE_LEN, l as CK_ULONG)) {
                        let g = get(x.s, h, CKA_VALUE).map_err(|r| e("C_GetAttributeValue", r))?;
                        if g.len() != l || l > n || g != v[..l] {
                            return Err(format!("CKA_VALUE_LEN {} gave {}", l, hex(&g)));
                        }
                        x.drop(h)?;
                    }
                }
            }
            Ok(())
        },
    );
    w.distinct(&(m, kl, n));
}
/// every kind of key; sensitivity of source and result
fn kinds(w: &mut W, x: &Ws, m: Wm, tg: Tg, flags: usize) {
    let bit = |i: usize| flags >> i & 1 == 1;
    case(
        w,
        &format!("kind/{:?}/{:?}", m, tg),
        || format!("source sensitive {}, result sensitive {} extractable {} given {} token {}", bit(0), bit(1), bit(2), bit(3), bit(4)),
        || {
            let (wk, uk) = x.keys(m, 0);
            let src = tg.tmpl(false, false).b(CKA_SENSITIVE, bit(0)).b(CKA_EXTRACTABLE, true);
            let k = x.new(&src)?;
            let n = tg.len().unwrap_or(0);
            let mut mech = m.mech(n, false);
            let mut o = wrap(x.s, &mech, wk, k, Some(4000));
            if m == Ccm && tg.len().is_none() {
                // the length of the encoding is not known beforehand
                let l = wrap(x.s, &Mech::new(CKM_AES_KEY_WRAP_KWP), wk, k, Some(4000)).len;
                for n in (l as usize).saturating_sub(24)..l as usize {
                    mech = m.mech(n, false);
                    o = wrap(x.s, &mech, wk, k, Some(4000));
                    if o.rv == 0 {
                        break;
                    }
                }
            }
            if o.rv != 0 {
                x.drop(k)?;
                let fits = match (m, tg.len()) {
                    (_, Some(n)) => m.takes(n),
                    (Kw | Cts, None) => false,
                    (_, None) => !m.rsa() || (tg != Tg::Rsa && m != X509),
                };
                return if fits { Err(e("C_WrapKey", o.rv)) } else { Ok(()) };
            }
            let b = o.ok().unwrap();
            let mut t = tg.back(bit(4));
            if bit(3) {
                t = t.b(CKA_SENSITIVE, bit(1)).b(CKA_EXTRACTABLE, bit(2));
            }
            if matches!(m, Ecb | Cbc) {
                match tg.len() {
                    Some(n) => t = t.ul(CKA_VALUE_LEN, n as CK_ULONG),
                    // zeros after the encoding
                    None => {
                        if let Ok(h) = unwrap(x.s, &mech, uk, &b, &t) {
                            x.drop(h)?;
                        }
                        return x.drop(k);
                    }
                }
            }
            if tg == Tg::Hotp {
                t = t.without(CKA_VALUE_LEN);
                if matches!(m, Ecb | Cbc) {
                    return x.drop(k);
                }
            }
            let h = unwrap(x.s, &mech, uk, &b, &t).map_err(|r| e("C_UnwrapKey", r))?;
            for (a, want) in [(CKA_LOCAL, false), (CKA_ALWAYS_SENSITIVE, false), (CKA_NEVER_EXTRACTABLE, false), (CKA_TOKEN, bit(4))] {
                match get(x.s, h, a) {
                    Ok(g) => eq(&g, &[want as u8], &aname(a))?,
                    Err(CKR_ATTRIBUTE_TYPE_INVALID) if !want => (),
                    Err(r) => return Err(e(&aname(a), r)),
                }
            }
            if let Ok(g) = get(x.s, h, CKA_KEY_GEN_MECHANISM) {
                eq(&g, &CK_UNAVAILABLE_INFORMATION.to_ne_bytes(), "CKA_KEY_GEN_MECHANISM")?;
            }
            if bit(3) {
                eq(&get(x.s, h, CKA_SENSITIVE).map_err(|r| e("CKA_SENSITIVE", r))?, &[bit(1) as u8], "CKA_SENSITIVE")?;
                eq(&get(x.s, h, CKA_EXTRACTABLE).map_err(|r| e("CKA_EXTRACTABLE", r))?, &[bit(2) as u8], "CKA_EXTRACTABLE")?;
            }
            let open = |h: H| -> Result<bool, String> {
                Ok(get(x.s, h, CKA_SENSITIVE).map_err(|r| e("CKA_SENSITIVE", r))? == [0] && get(x.s, h, CKA_EXTRACTABLE).map_err(|r| e("CKA_EXTRACTABLE", r))? == [1])
            };
            if open(h)? {
                let want: Vec<_> = {
                    let c = x.new(&tg.tmpl(false, false).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true))?;
                    let r = material(x.s, c)?;
                    x.drop(c)?;
                    r
                };
                let got = material(x.s, h)?;
                if got != want {
                    return Err(format!("unwrapped {:?}, wrapped {:?}", got, want));
                }
            } else if let Ok(v) = get(x.s, h, if tg == Tg::Rsa { CKA_PRIVATE_EXPONENT } else { CKA_VALUE }) {
                return Err(format!("the unwrapped key shows its value {}", hex(&v)));
            }
            x.drop(h)?;
            x.drop(k)
        },
    );
    w.distinct(&(m, tg, flags));
}
/// who may wrap what: every combination of the attributes that decide
fn permit(w: &mut W, x: &Ws, m: Wm, tg: Tg, flags: usize) {
    let bit = |i: usize| flags >> i & 1 == 1;
    let (ext, sens, wwt, tok) = (bit(0), bit(1), bit(2), bit(3));
    let may = bit(4);
    case(
        w,
        &format!("permit/{:?}/{:?}", m, tg),
        || format!("key: extractable {} sensitive {} wrap-with-trusted {} token {}; wrapping key: wrap {}", ext, sens, wwt, tok, may),
        || {
            let t = if m.rsa() { rsa_pub(false, false).without(CKA_WRAP) } else { aeskey(false, false, "plain", &KEY32[..16]) };
            let wk = x.new(&t.b(CKA_WRAP, may))?;
            let k = x.new(&tg.tmpl(tok, true).b(CKA_SENSITIVE, sens).b(CKA_EXTRACTABLE, ext).b(CKA_WRAP_WITH_TRUSTED, wwt))?;
            let want = ext && may && !wwt;
            for cap in [Some(2000), None] {
                let o = wrap(x.s, &m.mech(tg.len().unwrap_or(0), false), wk, k, cap);
                if (o.rv == 0) != want {
                    return Err(format!("{}: {}", if want { "refused" } else { "wrapped" }, rvs(o.rv)));
                }
                if o.rv != 0 && o.data.iter().any(|b| *b != o.data[0]) {
                    return Err("the refused call wrote into the buffer".into());
                }
            }
            x.drop(k)?;
            x.drop(wk)
        },
    );
    w.distinct(&(m, tg, flags, 1));
}
fn may_unwrap(w: &mut W, x: &Ws, m: Wm, flags: usize) {
    let bit = |i: usize| flags >> i & 1 == 1;
    case(
        w,
        &format!("unwrap-right/{:?}", m),
        || format!("unwrapping key: unwrap {} wrap {} decrypt {}", bit(0), bit(1), bit(2)),
        || {
            let n = if m == X509 { 256 } else { 24 };
            let mut v = val(n);
            v[0] = 0;
            let k = x.new(&seckey(CKK_GENERIC_SECRET, false, false, "", &v).b(CKA_EXTRACTABLE, true))?;
            let (wk, _) = x.keys(m, 0);
            let b = wrap(x.s, &m.mech(n, false), wk, k, Some(600)).ok().map_err(|r| e("C_WrapKey", r))?;
            x.drop(k)?;
            let t = if m.rsa() { rsa_priv(false, false).without(CKA_UNWRAP).without(CKA_DECRYPT) } else { aeskey(false, false, "u", &KEY32[..16]).without(CKA_DECRYPT).b(CKA_WRAP, bit(1)) };
            let u = x.new(&t.b(CKA_UNWRAP, bit(0)).b(CKA_DECRYPT, bit(2)))?;
            let before = count(x.s)?;
            let r = unwrap(x.s, &m.mech(n, false), u, &b, &Tg::Sec(CKK_GENERIC_SECRET, n).back(false));
            if r.is_ok() != bit(0) {
                return Err(format!("C_UnwrapKey says {}", rvs(rvr(&r))));
            }
            match r {
                Ok(h) => x.drop(h)?,
                Err(_) => {
                    let after = count(x.s)?;
                    if after != before {
                        return Err("the refused call made an object".into());
                    }
                }
            }
            x.drop(u)
        },
    );
    w.distinct(&(m, flags, 2));
}
/// altered wrapped keys
fn tamper(w: &mut W, x: &Ws, m: Wm, n: usize, th: bool) {
    let q = QUIET.replace(true);
    let (wk, uk) = x.keys(m, 0);
    let k = okr(create(x.s, &seckey(CKK_GENERIC_SECRET, false, false, "", &val(n)).b(CKA_EXTRACTABLE, true)), "key");
    let b = okr(wrap(x.s, &m.mech(n, false), wk, k, Some(600)).ok(), "wrap");
    QUIET.set(q);
    let mut v: Vec<(String, Mech, H, Vec<u8>)> = vec![];
    for i in 0..8 * b.len() {
        if m.rsa() && !th && i % 2 != i / 8 % 2 {
            continue;
        }
        let mut c = b.clone();
        c[i / 8] ^= 1 << (i % 8);
        v.push((format!("bit {} changed", i), m.mech(n, false), uk, c));
    }
    for l in 0..b.len() {
        v.push((format!("first {} bytes", l), m.mech(n, false), uk, b[..l].to_vec()));
        if l > 0 {
            v.push((format!("last {} bytes", l), m.mech(n, false), uk, b[b.len() - l..].to_vec()));
        }
    }
    for l in 1..=17 {
        let mut c = b.clone();
        c.resize(b.len() + l, 0);
        v.push((format!("{} bytes appended", l), m.mech(n, false), uk, c));
        if m == Ccm {
            let mut c = b.clone();
            c.resize(b.len() + l, 0);
            v.push((format!("{} bytes appended, announced", l), m.mech(n + l, false), uk, c));
        }
    }
    if b.len() >= 32 && !m.rsa() {
        for i in 0..b.len() / 8 {
            for j in 0..i {
                let mut c = b.clone();
                for o in 0..8 {
                    c.swap(8 * i + o, 8 * j + o);
                }
                if c != b {
                    v.push((format!("8 byte blocks {} and {} exchanged", j, i), m.mech(n, false), uk, c));
                }
            }
        }
    }
    if m.params() {
        v.push(("other parameters".into(), m.mech(n, true), uk, b.clone()));
    }
    if !m.rsa() {
        v.push(("another key".into(), m.mech(n, false), x.other, b.clone()));
        v.push(("a key of another length".into(), m.mech(n, false), x.aes[2], b.clone()));
        // what another mechanism made
        for o in WMS {
            if o.rsa() || o == m || (o == Cts && n < 16) || (o == Kw && (n < 16 || n % 8 != 0)) {
                continue;
            }
            if let Some(c) = o.reference(&KEY32[..16], &val(n)) {
                v.push((format!("wrapped with {:?}", o), m.mech(n, false), uk, c));
            }
        }
    }
    let t = Tg::Sec(CKK_GENERIC_SECRET, n).back(false).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
    let before = {
        let q = QUIET.replace(true);
        let c = count(x.s).unwrap_or(0);
        QUIET.set(q);
        c
    };
    for (name, mech, key, c) in v {
        case(
            w,
            &format!("altered/{:?}", m),
            || format!("{} byte secret, {}", n, name),
            || match unwrap(x.s, &mech, key, &c, &t) {
                Ok(h) => {
                    let g = get(x.s, h, CKA_VALUE).map(|v| hex(&v));
                    x.drop(h)?;
                    Err(format!("C_UnwrapKey accepts it: value {:?}", g))
                }
                Err(_) => Ok(()),
            },
        );
        w.distinct(&(m, n, &name, 3));
    }
    case(w, &format!("altered/{:?}", m), || "objects left".into(), || if count(x.s)? == before { Ok(()) } else { Err("refused calls made objects".into()) });
    let q = QUIET.replace(true);
    destroy(x.s, k);
    QUIET.set(q);
}
pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    let th = o.tier.thorough();
    let db = Db::Sqlite;
    let tm = Tmpl::std(sc, db);
    let tm = &tm;
    let max = if th { 520 } else { 130 };
    let mut li = vec![];
    for m in WMS {
        for kl in 0..3 {
            if kl == 0 || !m.rsa() {
                li.push((m, kl));
            }
        }
    }
    let lr = &li;
    let ms: Vec<Wm> = WMS.to_vec();
    let mr = &ms;
    let mut ti = vec![];
    for m in WMS.into_iter().filter(|m| m.sealed()) {
        for n in [16, 24, 32, 1, 7, 9, 15, 40] {
            if m.takes(n) && (th || n <= 32) && (!m.rsa() || n == 16 || th) {
                ti.push((m, n));
            }
        }
    }
    let tr = &ti;
    let stages = vec![
        Stage::new("value", li.len(), move |w: &mut W, i| {
            let (m, kl) = lr[i];
            w.begin(&format!("{:?} {}", m, kl));
            let x = ready(w, tm);
            let ns: Vec<usize> = match m {
                X509 => vec![255, 256, 257],
                Pkcs | Oaep => (1..max).chain([189, 190, 191, 244, 245, 246, 255, 256]).collect(),
                _ => (1..max).chain([128, 250, 256]).collect(),
            };
            for n in ns {
                lengths(w, &x, m, kl, n);
            }
            w.sample(&format!("{:?} with a key of {} bytes", m, 16 + 8 * kl));
        }),
        Stage::new("kinds", mr.len(), move |w: &mut W, i| {
            w.begin(&format!("{:?}", mr[i]));
            let x = ready(w, tm);
            for tg in TGS {
                for f in 0..32 {
                    if f >> 3 & 1 == 1 || f & 6 == 0 {
                        kinds(w, &x, mr[i], tg, f);
                    }
                }
            }
        }),
        Stage::new("permit", mr.len(), move |w: &mut W, i| {
            let m = mr[i];
            w.begin(&format!("{:?}", m));
            let x = ready(w, tm);
            for tg in TGS {
                let fits = match (m, tg.len()) {
                    (_, Some(n)) => m.takes(n),
                    (Ccm | Kw | Cts | X509, None) => false,
                    _ => !(m.rsa() && tg == Tg::Rsa),
                };
                if fits {
                    for f in 0..32 {
                        permit(w, &x, m, tg, f);
                    }
                }
            }
            for f in 0..8 {
                may_unwrap(w, &x, m, f);
            }
        }),
        Stage::new("altered", ti.len(), move |w: &mut W, i| {
            let (m, n) = tr[i];
            w.begin(&format!("{:?} {}", m, n));
            let x = ready(w, tm);
            tamper(w, &x, m, n, th);
        }),
    ];
    crate::engine::run(
        Check {
            prop: "P19",
            level: "exploration",
            rule: "exhaustive enumeration on the real library: every wrapping mechanism with every AES key length and every secret length up to the bound, against independent implementations of the mechanisms and back through C_UnwrapKey with and without lengths; every kind of key with every setting of the attributes of the unwrapped key; every combination of the attributes that decide whether a key may be wrapped or unwrapped; every bit flip, truncation, extension and block exchange of wrapped keys for the mechanisms that protect them",
            assumptions: vec!["no key of this library can be made trusted (CKA_TRUSTED of keys is never settable), so that one which is to be wrapped with trusted keys only cannot be wrapped".into(), "ECB and CBC pad the value with zeros, as the standard says: the caller gives the length".into()],
            extra: vec![],
        },
        sc,
        o,
        stages,
    )
}
