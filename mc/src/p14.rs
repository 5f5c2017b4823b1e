//! P14: multi-part digests, MACs and signatures equal one-shot and the standard, for every split
use crate::api::*;
use crate::cry::*;
use crate::engine::*;
use crate::env::*;
use crate::keys::*;
use crate::p13::{KEY32, STYLES, Sty, case, msg, ready};
use crate::refc::{self, HASHES, Ha};
use kryoptic_lib::pkcs11::*;

pub fn dg_t(h: Ha) -> CK_MECHANISM_TYPE {
    match h {
        Ha::S1 => CKM_SHA_1,
        Ha::S224 => CKM_SHA224,
        Ha::S256 => CKM_SHA256,
        Ha::S384 => CKM_SHA384,
        Ha::S512 => CKM_SHA512,
        Ha::S512_224 => CKM_SHA512_224,
        Ha::S512_256 => CKM_SHA512_256,
        Ha::K224 => CKM_SHA3_224,
        Ha::K256 => CKM_SHA3_256,
        Ha::K384 => CKM_SHA3_384,
        Ha::K512 => CKM_SHA3_512,
    }
}
pub fn hmac_t(h: Ha) -> (CK_MECHANISM_TYPE, CK_MECHANISM_TYPE) {
    match h {
        Ha::S1 => (CKM_SHA_1_HMAC, CKM_SHA_1_HMAC_GENERAL),
        Ha::S224 => (CKM_SHA224_HMAC, CKM_SHA224_HMAC_GENERAL),
        Ha::S256 => (CKM_SHA256_HMAC, CKM_SHA256_HMAC_GENERAL),
        Ha::S384 => (CKM_SHA384_HMAC, CKM_SHA384_HMAC_GENERAL),
        Ha::S512 => (CKM_SHA512_HMAC, CKM_SHA512_HMAC_GENERAL),
        Ha::S512_224 => (CKM_SHA512_224_HMAC, CKM_SHA512_224_HMAC_GENERAL),
        Ha::S512_256 => (CKM_SHA512_256_HMAC, CKM_SHA512_256_HMAC_GENERAL),
        Ha::K224 => (CKM_SHA3_224_HMAC, CKM_SHA3_224_HMAC_GENERAL),
        Ha::K256 => (CKM_SHA3_256_HMAC, CKM_SHA3_256_HMAC_GENERAL),
        Ha::K384 => (CKM_SHA3_384_HMAC, CKM_SHA3_384_HMAC_GENERAL),
        Ha::K512 => (CKM_SHA3_512_HMAC, CKM_SHA3_512_HMAC_GENERAL),
    }
}
pub fn general(t: CK_MECHANISM_TYPE, n: usize) -> Mech {
    Mech::bytes(t, &(n as CK_ULONG).to_ne_bytes()).named(&format!("{:x}-GENERAL({})", t, n))
}
pub fn e(x: &str, r: Rv) -> String {
    format!("{} returned {}", x, rvs(r))
}
pub fn z(rv: Rv, x: &str) -> Result<(), String> {
    if rv == 0 { Ok(()) } else { Err(e(x, rv)) }
}
/// a call with output: buffer handed over in some style
pub fn out(sty: Sty, need: usize, f: impl Fn(Option<usize>) -> Out) -> Result<Vec<u8>, String> {
    match sty {
        Sty::A => (),
        Sty::Q | Sty::E => {
            let o = f(None);
            if o.rv != 0 || o.len < need {
                return Err(format!("size query returned {} {} instead of {}", rvs(o.rv), o.len, need));
            }
            if sty == Sty::E {
                return f(Some(o.len)).ok().map_err(|r| e("the call with the queried size", r));
            }
        }
        Sty::Z | Sty::N => {
            if need > 0 {
                let o = f(Some(if sty == Sty::Z { 0 } else { need - 1 }));
                if o.rv != CKR_BUFFER_TOO_SMALL {
                    return Err(e("a too small buffer", o.rv));
                }
            }
        }
    }
    f(Some(600)).ok().map_err(|r| e("the call", r))
}
pub fn eq(a: &[u8], b: &[u8], what: &str) -> Result<(), String> {
    if a == b { Ok(()) } else { Err(format!("{}: {} instead of {}", what, hex(a), hex(b))) }
}
pub fn fed<'a>(d: &'a [u8], parts: &[usize]) -> Vec<&'a [u8]> {
    let mut v = vec![];
    let mut p = 0;
    for n in parts {
        v.push(&d[p..p + n]);
        p += n;
    }
    v
}
pub fn guarded<X>(s: H, kds: &[Kd], f: impl Fn() -> Result<X, String>) -> Result<X, String> {
    let r = f();
    if r.is_err() {
        for k in kds {
            k.null_init(s);
        }
    }
    r
}
pub struct Mac {
    pub name: String,
    pub mech: Mech,
    pub key: H,
    pub len: usize,
    pub want: std::rc::Rc<dyn Fn(&[u8]) -> Vec<u8>>,
}
impl Mac {
    fn one(&self, s: H, m: &[u8], sty: Sty) -> Result<(), String> {
        guarded(s, &[Kd::Sign, Kd::Ver], || {
            let w = (self.want)(m);
            z(sign_init(s, &self.mech, self.key), "sign init")?;
            let g = out(sty, w.len(), |c| sign(s, m, c))?;
            eq(&g, &w, "one-shot MAC")?;
            z(verify_init(s, &self.mech, self.key), "verify init")?;
            z(verify(s, m, &w), "one-shot verify")
        })
    }
    fn multi(&self, s: H, m: &[u8], parts: &[usize], sty: Sty) -> Result<(), String> {
        guarded(s, &[Kd::Sign, Kd::Ver], || {
            let w = (self.want)(m);
            z(sign_init(s, &self.mech, self.key), "sign init")?;
            for p in fed(m, parts) {
                z(sign_update(s, p), "sign update")?;
            }
            let g = out(sty, w.len(), |c| sign_final(s, c))?;
            eq(&g, &w, "multi-part MAC")?;
            z(verify_init(s, &self.mech, self.key), "verify init")?;
            for p in fed(m, parts) {
                z(verify_update(s, p), "verify update")?;
            }
            z(verify_final(s, &w), "multi-part verify")
        })
    }
}
/// MACs in groups: 11 HMACs with five key sizes, the truncated ones, and the AES ones
pub const NMACS: usize = 11 * 6 + 4 * 3;
pub fn macs(i: usize, s: H, aes: &[H; 3]) -> Vec<Mac> {
        if i < HASHES.len() * 5 {
            let h = HASHES[i / 5];
            let kl = [1, h.block() - 1, h.block(), h.block() + 1, 2 * h.block() + 3][i % 5];
            let k = msg(kl);
            let key = okr(create(s, &seckey(CKK_GENERIC_SECRET, false, false, "k", &k).b(CKA_SIGN, true).b(CKA_VERIFY, true)), "key");
            vec![Mac { name: format!("HMAC-{:?} key {}", h, kl), mech: Mech::new(hmac_t(h).0), key, len: h.len(), want: std::rc::Rc::new(move |m| h.hmac(&k, m)) }]
        } else if i < HASHES.len() * 6 {
            let h = HASHES[i - HASHES.len() * 5];
            let k = msg(32);
            let key = okr(create(s, &seckey(CKK_GENERIC_SECRET, false, false, "k", &k).b(CKA_SIGN, true).b(CKA_VERIFY, true)), "key");
            (1..=h.len())
                .map(|n| {
                    let k = k.clone();
                    Mac { name: format!("HMAC-{:?}-GENERAL {}", h, n), mech: general(hmac_t(h).1, n), key, len: n, want: std::rc::Rc::new(move |m| h.hmac(&k, m)[..n].to_vec()) }
                })
                .collect()
        } else {
            let j = i - HASHES.len() * 6;
            let key = aes[j % 3];
            let kl = [16, 24, 32][j % 3];
            let f = |name: &str, mech: Mech, n: usize, g: fn(&[u8], &[u8]) -> refc::B| Mac {
                name: format!("{} {} key {}", name, n, kl),
                mech,
                key,
                len: n,
                want: std::rc::Rc::new(move |m| g(&KEY32[..kl], m)[..n].to_vec()),
            };
            match j / 3 {
                0 => vec![f("CMAC", Mech::new(CKM_AES_CMAC), 16, refc::cmac)],
                1 => vec![f("AES_MAC", Mech::new(CKM_AES_MAC), 8, refc::cbcmac)],
                2 => (1..=16).map(|n| f("CMAC_GENERAL", general(CKM_AES_CMAC_GENERAL, n), n, refc::cmac)).collect(),
                _ => (1..=16).map(|n| f("AES_MAC_GENERAL", general(CKM_AES_MAC_GENERAL, n), n, refc::cbcmac)).collect(),
            }
        }
    }
pub fn three(l: usize, f: &mut dyn FnMut(&[usize])) {
    for a in 0..=l {
        for b in a..=l {
            f(&[a, b - a, l - b]);
        }
    }
}
fn digest_multi(s: H, h: Ha, m: &[u8], parts: &[usize], sty: Sty, keys: &[(usize, H)]) -> Result<(), String> {
    guarded(s, &[Kd::Dig], || {
        z(digest_init(s, &Mech::new(dg_t(h))), "digest init")?;
        let mut all = vec![];
        for (i, p) in fed(m, parts).into_iter().enumerate() {
            z(digest_update(s, p), "digest update")?;
            all.extend(p);
            for (at, k) in keys {
                if *at == i {
                    z(digest_key(s, *k), "digest key")?;
                    all.extend(GENK);
                }
            }
        }
        let w = h.hash(&all);
        eq(&out(sty, w.len(), |c| digest_final(s, c))?, &w, "digest")
    })
}
type SigMech = (&'static str, Ha, CK_MECHANISM_TYPE, CK_MECHANISM_TYPE);
pub const RSAS: [SigMech; 9] = [
    ("RSA_SHA1", Ha::S1, CKM_SHA1_RSA_PKCS, CKM_SHA1_RSA_PKCS_PSS),
    ("RSA_SHA224", Ha::S224, CKM_SHA224_RSA_PKCS, CKM_SHA224_RSA_PKCS_PSS),
    ("RSA_SHA256", Ha::S256, CKM_SHA256_RSA_PKCS, CKM_SHA256_RSA_PKCS_PSS),
    ("RSA_SHA384", Ha::S384, CKM_SHA384_RSA_PKCS, CKM_SHA384_RSA_PKCS_PSS),
    ("RSA_SHA512", Ha::S512, CKM_SHA512_RSA_PKCS, CKM_SHA512_RSA_PKCS_PSS),
    ("RSA_SHA3_224", Ha::K224, CKM_SHA3_224_RSA_PKCS, CKM_SHA3_224_RSA_PKCS_PSS),
    ("RSA_SHA3_256", Ha::K256, CKM_SHA3_256_RSA_PKCS, CKM_SHA3_256_RSA_PKCS_PSS),
    ("RSA_SHA3_384", Ha::K384, CKM_SHA3_384_RSA_PKCS, CKM_SHA3_384_RSA_PKCS_PSS),
    ("RSA_SHA3_512", Ha::K512, CKM_SHA3_512_RSA_PKCS, CKM_SHA3_512_RSA_PKCS_PSS),
];
const ECS: [(&str, Ha, CK_MECHANISM_TYPE); 9] = [
    ("ECDSA_SHA1", Ha::S1, CKM_ECDSA_SHA1),
    ("ECDSA_SHA224", Ha::S224, CKM_ECDSA_SHA224),
    ("ECDSA_SHA256", Ha::S256, CKM_ECDSA_SHA256),
    ("ECDSA_SHA384", Ha::S384, CKM_ECDSA_SHA384),
    ("ECDSA_SHA512", Ha::S512, CKM_ECDSA_SHA512),
    ("ECDSA_SHA3_224", Ha::K224, CKM_ECDSA_SHA3_224),
    ("ECDSA_SHA3_256", Ha::K256, CKM_ECDSA_SHA3_256),
    ("ECDSA_SHA3_384", Ha::K384, CKM_ECDSA_SHA3_384),
    ("ECDSA_SHA3_512", Ha::K512, CKM_ECDSA_SHA3_512),
];
pub fn mgf(h: Ha) -> CK_ULONG {
    match h {
        Ha::S1 => CKG_MGF1_SHA1,
        Ha::S224 => CKG_MGF1_SHA224,
        Ha::S256 => CKG_MGF1_SHA256,
        Ha::S384 => CKG_MGF1_SHA384,
        Ha::S512 => CKG_MGF1_SHA512,
        Ha::K224 => CKG_MGF1_SHA3_224,
        Ha::K256 => CKG_MGF1_SHA3_256,
        Ha::K384 => CKG_MGF1_SHA3_384,
        _ => CKG_MGF1_SHA3_512,
    }
}
/// DER prefix of DigestInfo
pub fn der(h: Ha) -> Vec<u8> {
    let n = h.len() as u8;
    let oid: &[u8] = match h {
        Ha::S1 => return vec![0x30, 0x21, 0x30, 9, 6, 5, 0x2b, 0x0e, 3, 2, 0x1a, 5, 0, 4, 0x14],
        Ha::S256 => &[1],
        Ha::S384 => &[2],
        Ha::S512 => &[3],
        Ha::S224 => &[4],
        Ha::K224 => &[7],
        Ha::K256 => &[8],
        Ha::K384 => &[9],
        _ => &[10],
    };
    vec![0x30, 17 + n, 0x30, 0x0d, 6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, oid[0], 5, 0, 4, n]
}
pub struct Sg {
    pub name: String,
    pub h: Ha,
    pub full: Mech,
    pub raw: Mech,
    pub k: H,
    pub p: H,
    pub det: bool,
    pub len: usize,
}
/// hashing signature mechanism: RSA PKCS#1, RSA PSS, ECDSA; nine hashes each
pub fn sgm(kind: usize, j: usize, ks: &Ks) -> Sg {
            let (name, h, full, raw, k, p, det, len): (String, Ha, Mech, Mech, H, H, bool, usize) = match kind {
                0 => {
                    let r = RSAS[j];
                    (r.0.into(), r.1, Mech::new(r.2), Mech::new(CKM_RSA_PKCS), ks.rsa, ks.rsap, true, 256)
                }
                1 => {
                    let r = RSAS[j];
                    let pp = |sl: usize| CK_RSA_PKCS_PSS_PARAMS { hashAlg: dg_t(r.1), mgf: mgf(r.1), sLen: sl as CK_ULONG };
                    (format!("{}_PSS", r.0), r.1, Mech::st(r.3, pp(r.1.len())), Mech::st(CKM_RSA_PKCS_PSS, pp(r.1.len())), ks.rsa, ks.rsap, false, 256)
                }
                _ => {
                    let r = ECS[j];
                    (r.0.into(), r.1, Mech::new(r.2), Mech::new(CKM_ECDSA), ks.ec, ks.ecp, false, 64)
                }
            };
    Sg { name, h, full, raw, k, p, det, len }
}
/// signature with a hashing mechanism: multi-part and one-shot accept each other, and the raw mechanism accepts both
fn sig_case(s: H, full: &Mech, raw: &Mech, rawdata: &[u8], k: H, p: H, det: bool, m: &[u8], parts: &[usize], sty: Sty, len: usize) -> Result<(), String> {
    guarded(s, &[Kd::Sign, Kd::Ver, Kd::Vsig], || {
        z(sign_init(s, full, k), "sign init")?;
        for p in fed(m, parts) {
            z(sign_update(s, p), "sign update")?;
        }
        let a = out(sty, len, |c| sign_final(s, c))?;
        z(sign_init(s, full, k), "sign init")?;
        let b = out(sty, len, |c| sign(s, m, c))?;
        z(sign_init(s, raw, k), "raw sign init")?;
        let c = out(sty, len, |c| sign(s, rawdata, c))?;
        if det {
            eq(&a, &b, "multi-part signature")?;
            eq(&a, &c, "signature of the hash")?;
        }
        for (n, g) in [("multi-part", &a), ("one-shot", &b), ("raw", &c)] {
            z(verify_init(s, full, p), "verify init")?;
            z(verify(s, m, g), &format!("one-shot verification of the {} signature", n))?;
            z(verify_init(s, full, p), "verify init")?;
            for p in fed(m, parts) {
                z(verify_update(s, p), "verify update")?;
            }
            z(verify_final(s, g), &format!("multi-part verification of the {} signature", n))?;
            z(verify_init(s, raw, p), "raw verify init")?;
            z(verify(s, rawdata, g), &format!("raw verification of the {} signature", n))?;
            z(vsig_init(s, full, p, g), "verify signature init")?;
            z(vsig(s, m), &format!("C_VerifySignature of the {} signature", n))?;
            z(vsig_init(s, full, p, g), "verify signature init")?;
            for p in fed(m, parts) {
                z(vsig_update(s, p), "verify signature update")?;
            }
            z(vsig_final(s), &format!("C_VerifySignatureFinal of the {} signature", n))?;
        }
        Ok(())
    })
}
// ------------------------------------------------------------------ dual-function calls
const DC: [&str; 4] = ["AES_CBC", "AES_CTR", "AES_GCM", "AES_CBC_PAD"];
fn dual_case(s: H, ks: &Ks, c: &'static Cm, d: usize, m: &[u8], parts: &[usize], sty: Sty) -> Result<(), String> {
    let dec = d % 2 == 1;
    let side = if d < 2 { Kd::Dig } else if dec { Kd::Ver } else { Kd::Sign };
    let ck = if dec { Kd::Dec } else { Kd::Enc };
    let sm = if d < 2 { Mech::new(CKM_SHA256) } else { Mech::new(CKM_SHA256_HMAC) };
    guarded(s, &[ck, side, Kd::Enc], || {
        let mech = c.mech(m.len());
        z(encrypt_init(s, &mech, ks.aes), "reference encrypt init")?;
        let ct = encrypt(s, m, Some(600)).ok().map_err(|r| e("reference encrypt", r))?;
        let sd = if d < 2 { Ha::S256.hash(m) } else { Ha::S256.hmac(&GENK, m) };
        z(ck.init(s, &mech, ks.aes, &[]), "cipher init")?;
        z(side.init(s, &sm, ks.gen_, &[]), "second init")?;
        let input = if dec { &ct[..] } else { m };
        let mut o = vec![];
        let mut ps = parts.to_vec();
        *ps.last_mut().unwrap() += input.len() - m.len();
        for p in fed(input, &ps) {
            // how much comes out is known only for stream modes
            let need = if c.name == "AES_CTR" { p.len() } else { 0 };
            o.extend(out(sty, need, |cap| match d {
                0 => digest_encrypt_update(s, p, cap),
                1 => decrypt_digest_update(s, p, cap),
                2 => sign_encrypt_update(s, p, cap),
                _ => decrypt_verify_update(s, p, cap),
            })?);
        }
        let fl = out(Sty::A, 0, |cap| ck.fin(s, &[], cap))?;
        o.extend(&fl);
        if dec {
            eq(&o, m, "dual decryption")?;
        } else {
            eq(&o, &ct, "dual encryption")?;
        }
        // the plaintext that comes out of a padded decryption's final is not part of a dual call
        let fedm = if dec { &m[..m.len() - fl.len()] } else { m };
        let sd = if fedm.len() == m.len() {
            sd
        } else if d < 2 {
            Ha::S256.hash(fedm)
        } else {
            Ha::S256.hmac(&GENK, fedm)
        };
        let g = side.fin(s, &sd, Some(64));
        if g.rv != 0 {
            return Err(e("final of the second operation", g.rv));
        }
        if side.has_out() {
            eq(&g.data, &sd, "digest or MAC of the dual calls")?;
        }
        Ok(())
    })
}

pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    if let Err(e) = refc::selftest() {
        eprintln!("reference self test failed: {}", e);
        return 2;
    }
    let th = o.tier.thorough();
    let tm = Tmpl::std(sc, Db::Sqlite);
    let tr = &tm;
    let sigs: Vec<(usize, usize)> = (0..3).flat_map(|k| (0..9).map(move |i| (k, i))).collect();
    let sgr = &sigs;
    let stages = vec![
        Stage::new("digest", HASHES.len() * 8, move |w: &mut W, i| {
            let (s, _, ks) = ready(w, tr);
            let h = HASHES[i / 8];
            let b = h.block();
            let label = format!("digest {:?}", h);
            w.begin(&label);
            // lengths 0 .. 3 blocks, dealt out over 8 items
            for l in (i % 8..=3 * b + 2).step_by(8) {
                let m = msg(l);
                for st in STYLES {
                    case(w, &label, || format!("len {} one-shot style {:?}", l, st), || {
                        guarded(s, &[Kd::Dig], || {
                            z(digest_init(s, &Mech::new(dg_t(h))), "digest init")?;
                            let wv = h.hash(&m);
                            eq(&out(st, wv.len(), |c| digest(s, &m, c))?, &wv, "one-shot digest")
                        })
                    });
                    case(w, &label, || format!("len {} in one part style {:?}", l, st), || digest_multi(s, h, &m, &[l], st, &[]));
                }
                w.distinct(&(h, l));
                for a in 0..=l {
                    case(w, &label, || format!("len {} parts {:?}", l, [a, l - a]), || digest_multi(s, h, &m, &[a, l - a], Sty::A, &[]));
                }
            }
            let al = [0, 1, b - 1, b, b + 1, b / 2];
            for (n, a) in al.into_iter().enumerate() {
                if !th && n % 8 != i % 8 {
                    continue;
                }
                for x in al {
                    for y in al {
                        let p = [a, x, y];
                        let m = msg(a + x + y);
                        for keys in [vec![], vec![(0, ks.gen_)], vec![(2, ks.gen_)], vec![(1, ks.gen_), (1, ks.gen_)]] {
                            case(w, &label, || format!("parts {:?} keys {:?}", p, keys), || digest_multi(s, h, &m, &p, Sty::N, &keys));
                        }
                        w.distinct(&(h, p));
                    }
                }
            }
            if th && i % 8 == 0 {
                for l in [b + 1, 2 * b] {
                    let m = msg(l);
                    three(l, &mut |p| {
                        case(w, &label, || format!("len {} parts {:?}", l, p), || digest_multi(s, h, &m, p, Sty::A, &[]));
                    });
                }
            }
        }),
        Stage::new("mac", NMACS, move |w: &mut W, i| {
            let (s, aes, _) = ready(w, tr);
            let q = QUIET.replace(true);
            let v = macs(i, s, &aes);
            QUIET.set(q);
            for mac in &v {
                let many = v.len() > 1 && !th;
                let label = format!("mac {}", mac.name);
                w.begin(&label);
                let top = if mac.name.contains("MAC") && !mac.name.starts_with("HMAC") { 50 } else { 300 };
                let lens: Vec<usize> = if many { vec![0, 1, 16, 17, 32, 64, 65, 128, 145] } else { (0..=top).collect() };
                for l in lens {
                    let m = msg(l);
                    for st in STYLES {
                        case(w, &label, || format!("len {} one-shot style {:?}", l, st), || mac.one(s, &m, st));
                    }
                    case(w, &label, || format!("len {} in one part", l), || mac.multi(s, &m, &[l], Sty::A));
                    w.distinct(&(&mac.name, l));
                }
                let sp: Vec<usize> = if many { vec![33] } else if top == 50 { (0..=50).collect() } else { vec![1, 64, 65, 129, 137, 145] };
                for l in sp {
                    let m = msg(l);
                    for a in 0..=l {
                        case(w, &label, || format!("len {} parts {:?}", l, [a, l - a]), || mac.multi(s, &m, &[a, l - a], Sty::E));
                    }
                    if top == 50 && !many {
                        three(l, &mut |p| {
                            case(w, &label, || format!("len {} parts {:?}", l, p), || mac.multi(s, &m, p, Sty::A));
                        });
                    }
                    w.distinct(&(&mac.name, l, 1));
                }
                // no update at all: the MAC of nothing
                case(w, &label, || "no parts".to_string(), || mac.multi(s, &[], &[], Sty::A));
            }
            if i < HASHES.len() * 6 {
                let q = QUIET.replace(true);
                destroy(s, v[0].key);
                QUIET.set(q);
            }
        }),
        Stage::new("signature", sigs.len(), move |w: &mut W, i| {
            let (s, _, ks) = ready(w, tr);
            let (kind, j) = sgr[i];
            let Sg { name, h, full, raw, k, p, det, len } = sgm(kind, j, &ks);
            let label = format!("signature {}", name);
            w.begin(&label);
            let al = if th { vec![0, 1, h.block() - 1, h.block(), h.block() + 1, 300] } else { vec![0, 1, h.block(), h.block() + 1] };
            for a in &al {
                for b in &al {
                    for c in if th { &al[..] } else { &al[..2] } {
                        let parts = [*a, *b, *c];
                        let m = msg(a + b + c);
                        let hv = h.hash(&m);
                        let rd = if kind == 0 { [der(h), hv].concat() } else { hv };
                        for st in if *c == 0 { &STYLES[..] } else { &STYLES[..1] } {
                            case(w, &label, || format!("parts {:?} style {:?}", parts, st), || sig_case(s, &full, &raw, &rd, k, p, det, &m, &parts, *st, len));
                        }
                        w.distinct(&(&name, parts));
                    }
                }
            }
        }),
        Stage::new("dual", DC.len() * 4, move |w: &mut W, i| {
            let (s, _, ks) = ready(w, tr);
            let (c, d) = (cm(DC[i / 4]), i % 4);
            let label = format!("dual {} {}", c.name, ["digest-encrypt", "decrypt-digest", "sign-encrypt", "decrypt-verify"][d]);
            w.begin(&label);
            let al: Vec<usize> = if c.block == 16 { vec![16, 32] } else { vec![0, 1, 15, 16, 17, 33] };
            for a in &al {
                for b in &al {
                    for x in &al {
                        let parts = [*a, *b, *x];
                        let m = msg(a + b + x);
                        for st in STYLES {
                            case(w, &label, || format!("parts {:?} style {:?}", parts, st), || dual_case(s, &ks, c, d, &m, &parts, st));
                        }
                        w.distinct(&(c.name, d, parts));
                    }
                }
            }
            if c.block != 16 {
                for l in [20, 33] {
                    let m = msg(l);
                    three(l, &mut |p| {
                        case(w, &label, || format!("parts {:?}", p), || dual_case(s, &ks, c, d, &m, p, Sty::A));
                    });
                }
            }
        }),
    ];
    crate::engine::run(
        Check {
            prop: "P14",
            level: "exploration",
            rule: "exhaustive enumeration on the real library of message lengths up to three blocks, splits into parts, key lengths, truncations and ways to hand over the output buffer, for every digest, MAC and hashing signature mechanism, key digests and the four dual-function calls; digests and MACs are compared with independent implementations, signatures with the raw mechanism over the independently computed hash and with each other",
            assumptions: vec!["one message pattern per length".into()],
            extra: vec![],
        },
        sc,
        o,
        stages,
    )
}
