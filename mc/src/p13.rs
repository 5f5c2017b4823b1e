//! P13: multi-part encryption and decryption equal one-shot and the standard, for every split
use crate::api::*;
use crate::cry::*;
use crate::engine::*;
use crate::env::*;
use crate::keys::*;
use crate::refc;
use kryoptic_lib::pkcs11::*;

pub const KEY32: [u8; 32] = [
    0x60, 0x3d, 0xeb, 0x10, 0x15, 0xca, 0x71, 0xbe, 0x2b, 0x73, 0xae, 0xf0, 0x85, 0x7d, 0x77, 0x81, 0x1f, 0x35, 0x2c, 0x07, 0x3b, 0x61, 0x08, 0xd7, 0x2d, 0x98, 0x10, 0xa3,
    0x09, 0x14, 0xdf, 0xf4,
];
#[derive(Clone, Debug)]
pub enum Md {
    Ecb,
    Cbc,
    Pad,
    Cts,
    Ctr(usize),
    Ofb,
    Cfb8,
    Cfb128,
    Cfb1,
    /// iv length, aad length, tag length
    Gcm(usize, usize, usize),
    Ccm(usize, usize, usize),
}
use Md::*;
fn iv(n: usize) -> Vec<u8> {
    (0..n).map(|i| (0xf0u8).wrapping_add(i as u8)).collect()
}
fn aad(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 3 + 1) as u8).collect()
}
pub fn msg(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 7 + 3 + i / 16) as u8).collect()
}
const CB: [u8; 16] = [0xf0, 0xf1, 0xf2, 0xf3, 0xf4, 0xf5, 0xf6, 0xf7, 0xf8, 0xf9, 0xfa, 0xfb, 0, 0, 0, 0xfe];
impl Md {
    pub fn mech(&self, total: usize) -> Mech {
        match *self {
            Ecb => Mech::new(CKM_AES_ECB).named("ECB"),
            Cbc => Mech::bytes(CKM_AES_CBC, &IV).named("CBC"),
            Pad => Mech::bytes(CKM_AES_CBC_PAD, &IV).named("CBC_PAD"),
            Cts => Mech::bytes(CKM_AES_CTS, &IV).named("CTS"),
            Ofb => Mech::bytes(CKM_AES_OFB, &IV).named("OFB"),
            Cfb8 => Mech::bytes(CKM_AES_CFB8, &IV).named("CFB8"),
            Cfb128 => Mech::bytes(CKM_AES_CFB128, &IV).named("CFB128"),
            Cfb1 => Mech::bytes(CKM_AES_CFB1, &IV).named("CFB1"),
            Ctr(b) => ctr(b as CK_ULONG, &CB),
            Gcm(i, a, t) => gcm(&iv(i), &aad(a), 8 * t as CK_ULONG),
            Ccm(i, a, t) => ccm(total, &iv(i), &aad(a), t),
        }
    }
    /// what the standard says; None: the length is not allowed
    pub fn reference(&self, k: &[u8], m: &[u8]) -> Option<Vec<u8>> {
        Some(match *self {
            Ecb | Cbc if m.len() % 16 != 0 => return None,
            Cts if m.len() < 16 => return None,
            Ecb => refc::ecb(k, m),
            Cbc => refc::cbc(k, &IV, m),
            Pad => refc::cbc_pad(k, &IV, m),
            Cts => refc::cts1(k, &IV, m),
            Ofb => refc::ofb(k, &IV, m),
            Cfb8 => refc::cfb8(k, &IV, m),
            Cfb128 => refc::cfb128(k, &IV, m),
            Cfb1 => refc::cfb1(k, &IV, m),
            Ctr(b) => refc::ctr(k, &CB, b, m),
            Gcm(i, a, t) => {
                let (mut c, g) = refc::gcm(k, &iv(i), &aad(a), m);
                c.extend(&g[..t]);
                c
            }
            Ccm(i, a, t) => {
                let (mut c, g) = refc::ccm(k, &iv(i), &aad(a), m, t);
                c.extend(g);
                c
            }
        })
    }
    /// at least one single part is taken; more may be refused
    fn onepart(&self) -> bool {
        matches!(self, Cts)
    }
}
thread_local!(static READY: std::cell::RefCell<Option<(H, [H; 3], Ks)>> = const { std::cell::RefCell::new(None) });
/// session, AES keys of 16, 24 and 32 bytes, other keys
pub fn ready(w: &W, tm: &Tmpl) -> (H, [H; 3], Ks) {
    READY.with(|r| {
        if r.borrow().is_none() {
            tm.fresh(&w.dir);
            let h = user_session(1);
            let q = QUIET.replace(true);
            let k = [16, 24, 32].map(|n| okr(create(h, &aeskey(false, false, "aes", &KEY32[..n]).b(CKA_SIGN, true).b(CKA_VERIFY, true).b(CKA_WRAP, true).b(CKA_UNWRAP, true)), "aes key"));
            QUIET.set(q);
            *r.borrow_mut() = Some((h, k, Ks::make(h)));
        }
        r.borrow().unwrap()
    })
}
/// how a part is handed over
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Sty {
    /// ample buffer
    A,
    /// size query first
    Q,
    /// empty buffer first
    Z,
    /// one byte too short first
    N,
    /// buffer of exactly the queried size
    E,
}
pub const STYLES: [Sty; 5] = [Sty::A, Sty::Q, Sty::Z, Sty::N, Sty::E];
pub struct Ctx {
    pub s: H,
    pub key: H,
    pub md: Md,
    pub dec: bool,
    pub input: Vec<u8>,
    /// expected result, None: an error at some point
    pub want: Option<Vec<u8>>,
    pub total: usize,
}
impl Ctx {
    pub fn new(s: H, key: H, kl: usize, md: &Md, dec: bool, len: usize) -> Option<Ctx> {
        let m = msg(len);
        let r = md.reference(&KEY32[..kl], &m);
        let (input, want) = if dec { (r?, Some(m)) } else { (m, r) };
        Some(Ctx { s, key, md: md.clone(), dec, input, want, total: len })
    }
    fn kd(&self) -> Kd {
        if self.dec { Kd::Dec } else { Kd::Enc }
    }
    /// CCM without data is refused by design
    fn unsupported(&self) -> bool {
        self.total == 0 && matches!(self.md, Ccm(..))
    }
    fn init(&self) -> Result<(), String> {
        let rv = self.kd().init(self.s, &self.md.mech(self.total), self.key, &[]);
        if rv != 0 { Err(format!("init returned {}", rvs(rv))) } else { Ok(()) }
    }
    fn step(&self, sty: Sty, need: usize, f: impl Fn(Option<usize>) -> Out) -> Result<Out, String> {
        let big = 512;
        match sty {
            Sty::A => (),
            Sty::Q => {
                let o = f(None);
                if o.rv == 0 && o.len < need {
                    return Err(format!("size query says {}, the call produces {}", o.len, need));
                }
                if o.rv != 0 {
                    return Ok(o);
                }
            }
            Sty::Z | Sty::N => {
                if need > 0 {
                    let o = f(Some(if sty == Sty::Z { 0 } else { need - 1 }));
                    if o.rv != CKR_BUFFER_TOO_SMALL {
                        return Err(format!("with {} bytes of room instead of {} the call returned {}", if sty == Sty::Z { 0 } else { need - 1 }, need, rvs(o.rv)));
                    }
                }
            }
            Sty::E => {
                let o = f(None);
                if o.rv != 0 {
                    return Ok(o);
                }
                let r = f(Some(o.len));
                if r.rv == CKR_BUFFER_TOO_SMALL {
                    return Err(format!("the queried size {} does not suffice", o.len));
                }
                return Ok(r);
            }
        }
        Ok(f(Some(big)))
    }
    /// one-shot
    pub fn one(&self, sty: Sty) -> Result<(), String> {
        if self.unsupported() {
            return Ok(());
        }
        self.init()?;
        let need = self.want.as_ref().map(|w| w.len()).unwrap_or(0);
        let o = self.step(sty, need, |c| self.kd().one(self.s, &self.input, &[], c));
        let o = match o {
            Ok(o) => o,
            Err(e) => {
                self.kd().null_init(self.s);
                return Err(e);
            }
        };
        self.judge(o.rv, &o.data)
    }
    fn judge(&self, rv: Rv, data: &[u8]) -> Result<(), String> {
        if rv != 0 {
            self.kd().null_init(self.s);
        }
        match (&self.want, rv) {
            (Some(w), 0) if w == data => Ok(()),
            (Some(w), 0) => Err(format!("output {} instead of {}", hex(data), hex(w))),
            // an empty message may be refused
            (Some(_), _) if self.total == 0 && !matches!(self.md, Gcm(..)) => Ok(()),
            (Some(_), r) => Err(format!("valid input refused: {}", rvs(r))),
            (None, 0) => Err("a length the mode does not allow was accepted".to_string()),
            (None, _) => Ok(()),
        }
    }
    /// multi-part; returns the output sizes of the steps
    pub fn multi(&self, parts: &[usize], sty: &[Sty], needs: &[usize]) -> Result<Vec<usize>, String> {
        if self.unsupported() {
            return Ok(vec![]);
        }
        let r = self.multi_(parts, sty, needs);
        if r.is_err() {
            self.kd().null_init(self.s);
        }
        r
    }
    fn multi_(&self, parts: &[usize], sty: &[Sty], needs: &[usize]) -> Result<Vec<usize>, String> {
        self.init()?;
        let mut out = vec![];
        let mut lens = vec![];
        let mut p = 0;
        let st = |i: usize| sty[i.min(sty.len() - 1)];
        let mayref = self.md.onepart() && parts.iter().filter(|x| **x > 0).count() > 1 || self.md.onepart() && parts.contains(&0);
        for (i, n) in parts.iter().enumerate() {
            let d = &self.input[p..p + n];
            p += n;
            let o = self.step(st(i), needs.get(i).copied().unwrap_or(0), |c| self.kd().update(self.s, d, c)).map_err(|e| format!("part {}: {}", i, e))?;
            if o.rv != 0 {
                if mayref || self.want.is_none() {
                    self.kd().null_init(self.s);
                    return Ok(vec![]);
                }
                return Err(format!("part {} of {} bytes: {}", i, n, rvs(o.rv)));
            }
            lens.push(o.len);
            out.extend(o.data);
        }
        let o = self.step(st(parts.len()), needs.get(parts.len()).copied().unwrap_or(0), |c| self.kd().fin(self.s, &[], c)).map_err(|e| format!("final: {}", e))?;
        lens.push(o.len);
        out.extend(o.data);
        if o.rv != 0 && mayref {
            self.kd().null_init(self.s);
            return Ok(vec![]);
        }
        self.judge(o.rv, &out)?;
        Ok(lens)
    }
    /// ample buffers first, then every requested assignment of styles to the steps
    pub fn styles(&self, w: &mut W, label: &str, parts: &[usize], all: bool) {
        let lens = match case(w, label, || format!("parts {:?}", parts), || self.multi(parts, &[Sty::A], &[])) {
            Some(l) => l,
            None => return,
        };
        if lens.is_empty() || self.want.is_none() {
            return;
        }
        let steps = parts.len() + 1;
        if all {
            for mut x in 1..5usize.pow(steps as u32) {
                let mut v = vec![];
                for _ in 0..steps {
                    v.push(STYLES[x % 5]);
                    x /= 5;
                }
                case(w, label, || format!("parts {:?} styles {:?}", parts, v), || self.multi(parts, &v, &lens));
            }
        } else {
            for v in &STYLES[1..] {
                case(w, label, || format!("parts {:?} style {:?}", parts, v), || self.multi(parts, &[*v], &lens));
            }
        }
    }
}
/// run a case quietly; if it fails, once more with its trace
pub fn case<X>(w: &mut W, label: &str, name: impl Fn() -> String, f: impl Fn() -> Result<X, String>) -> Option<X> {
    w.eval();
    let q = QUIET.replace(true);
    let r = f();
    QUIET.set(q);
    let over = take_overrun();
    match r {
        Ok(x) if !over => Some(x),
        r => {
            let n = name();
            w.begin(&format!("{} {}", label, n));
            let _ = f();
            take_overrun();
            let e = r.err().unwrap_or("wrote past the end of the buffer".into());
            w.viol(&format!("{}/{}", label, n), &e);
            None
        }
    }
}
fn base_modes() -> Vec<Md> {
    vec![Ecb, Cbc, Pad, Cts, Ctr(32), Ofb, Cfb8, Cfb128, Cfb1, Gcm(12, 20, 16), Ccm(12, 20, 16)]
}
fn variants() -> Vec<Md> {
    let mut v = base_modes();
    v.extend([Ctr(64), Ctr(128), Ctr(16)]);
    for i in [1, 7, 8, 11, 13, 15, 16, 17, 60] {
        v.push(Gcm(i, 5, 16));
    }
    for a in [0, 1, 15, 16, 17, 33, 200] {
        v.push(Gcm(12, a, 16));
        v.push(Ccm(12, a, 16));
    }
    for t in 12..=15 {
        v.push(Gcm(12, 7, t));
    }
    v.extend([Gcm(12, 7, 8), Gcm(12, 7, 4)]);
    for n in 7..=13 {
        v.push(Ccm(n, 7, 8));
    }
    for t in [4, 6, 8, 10, 12, 14] {
        v.push(Ccm(11, 7, t));
    }
    v
}
pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    if let Err(e) = refc::selftest() {
        eprintln!("reference self test failed: {}", e);
        return 2;
    }
    let th = o.tier.thorough();
    let tm = Tmpl::std(sc, Db::Sqlite);
    let (vs, bs) = (variants(), base_modes());
    let one: Vec<(usize, usize)> = (0..vs.len()).flat_map(|m| (0..3).map(move |k| (m, k))).collect();
    let lens: Vec<usize> = if th { (0..=50).chain([63, 64, 65, 80]).collect() } else { vec![0, 1, 15, 16, 17, 31, 32, 33, 48, 50] };
    let split: Vec<(usize, bool, usize)> =
        (0..bs.len()).flat_map(|m| lens.iter().flat_map(move |l| [false, true].map(|d| (m, d, *l)))).collect();
    let alpha: Vec<usize> = if th { vec![0, 1, 5, 15, 16, 17, 31, 33] } else { vec![0, 1, 15, 16, 17, 33] };
    let res: Vec<(usize, bool, usize, usize)> = (0..bs.len())
        .flat_map(|m| {
            let alpha = alpha.clone();
            alpha.clone().into_iter().flat_map(move |a| alpha.clone().into_iter().flat_map(move |b| [false, true].map(|d| (m, d, a, b))))
        })
        .collect();
    let comp: Vec<(usize, bool, usize)> =
        (0..bs.len()).flat_map(|m| (1..=if th { 18 } else { 10 }).flat_map(move |l| [false, true].map(|d| (m, d, l)))).collect();
    let hm = [
        (CKM_SHA_1, CKG_MGF1_SHA1, 20),
        (CKM_SHA224, CKG_MGF1_SHA224, 28),
        (CKM_SHA256, CKG_MGF1_SHA256, 32),
        (CKM_SHA384, CKG_MGF1_SHA384, 48),
        (CKM_SHA512, CKG_MGF1_SHA512, 64),
        (CKM_SHA3_256, CKG_MGF1_SHA3_256, 32),
    ];
    let (tr, vr, br, or, sr, rr, ar, cr) = (&tm, &vs, &bs, &one, &split, &res, &alpha, &comp);
    let stages = vec![
        Stage::new("oneshot", one.len(), move |w: &mut W, i| {
            let (m, k) = or[i];
            let (s, keys, _) = ready(w, tr);
            let kl = [16, 24, 32][k];
            let label = format!("oneshot {:?} key {}", vr[m], kl);
            w.begin(&label);
            for len in 0..=if th { 150 } else { 70 } {
                for dec in [false, true] {
                    if let Some(c) = Ctx::new(s, keys[k], kl, &vr[m], dec, len) {
                        for st in STYLES {
                            case(w, &label, || format!("dec={} len {} style {:?}", dec, len, st), || c.one(st));
                        }
                        w.distinct(&(m, k, len, dec));
                    }
                }
            }
        }),
        // every split in two (all styles) and in three parts
        Stage::new("split", split.len(), move |w: &mut W, i| {
            let (m, dec, len) = sr[i];
            let (s, keys, _) = ready(w, tr);
            let Some(c) = Ctx::new(s, keys[0], 16, &br[m], dec, len) else { return };
            let label = format!("split {:?} dec={} len {}", br[m], dec, len);
            w.begin(&label);
            let n = c.input.len();
            c.styles(w, &label, &[n], true);
            for a in 0..=n {
                c.styles(w, &label, &[a, n - a], th);
                w.distinct(&(m, dec, len, a));
                for b in a..=n {
                    case(w, &label, || format!("parts {:?}", [a, b - a, n - b]), || c.multi(&[a, b - a, n - b], &[Sty::A], &[]));
                }
            }
        }),
        // every sequence of parts from an alphabet of sizes around the block size
        Stage::new("sizes", res.len(), move |w: &mut W, i| {
            let (m, dec, a, b) = rr[i];
            let (s, keys, _) = ready(w, tr);
            let label = format!("sizes {:?} dec={}", br[m], dec);
            w.begin(&label);
            for x in ar {
                for y in ar {
                    let tot = a + b + x + y;
                    // decryption: the input is longer than the message, the rest goes last
                    let Some(c) = Ctx::new(s, keys[2], 32, &br[m], dec, tot) else { continue };
                    let mut p = vec![a, b, *x, *y];
                    if c.input.len() > tot {
                        *p.last_mut().unwrap() += c.input.len() - tot;
                    }
                    c.styles(w, &label, &p, th && y == &ar[0]);
                    w.distinct(&(m, dec, &p));
                    if th {
                        for z in ar {
                            let Some(c) = Ctx::new(s, keys[2], 32, &br[m], dec, tot + z) else { continue };
                            let mut p = vec![a, b, *x, *y, *z];
                            p[4] += c.input.len() - tot - z;
                            case(w, &label, || format!("parts {:?}", p), || c.multi(&p, &[Sty::A], &[]));
                        }
                    }
                }
            }
        }),
        // every composition of short messages
        Stage::new("compositions", comp.len(), move |w: &mut W, i| {
            let (m, dec, len) = cr[i];
            let (s, keys, _) = ready(w, tr);
            // for decryption the number is that of the input
            let Some(c) = Ctx::new(s, keys[1], 24, &br[m], dec, len) else { return };
            let n = c.input.len().min(if th { 18 } else { 10 });
            let rest = c.input.len() - n;
            let label = format!("compositions {:?} dec={} len {}", br[m], dec, len);
            w.begin(&label);
            for mask in 0..1u32 << (n.max(1) - 1) {
                let mut p = vec![];
                let mut last = 0;
                for q in 1..n {
                    if mask >> (q - 1) & 1 == 1 {
                        p.push(q - last);
                        last = q;
                    }
                }
                p.push(n - last + rest);
                case(w, &label, || format!("parts {:?}", p), || c.multi(&p, &[Sty::A], &[]));
            }
        }),
        Stage::new("rsa", 1 + hm.len() * hm.len(), move |w: &mut W, i| {
            let (s, _, ks) = ready(w, tr);
            let (mech, max): (Mech, usize) = if i == 0 {
                (Mech::new(CKM_RSA_PKCS).named("RSA_PKCS"), 245)
            } else {
                let (a, b) = (hm[(i - 1) / hm.len()], hm[(i - 1) % hm.len()]);
                let l = vec![7u8; (i * 5) % 17];
                let p = CK_RSA_PKCS_OAEP_PARAMS {
                    hashAlg: a.0,
                    mgf: b.1,
                    source: CKZ_DATA_SPECIFIED,
                    pSourceData: if l.is_empty() { std::ptr::null_mut() } else { l.as_ptr() as *mut _ },
                    ulSourceDataLen: l.len() as CK_ULONG,
                };
                (Mech::st(CKM_RSA_PKCS_OAEP, p).hold(l).named(&format!("OAEP({:x},{:x})", a.0, b.1)), 256 - 2 * a.2 - 2)
            };
            let label = format!("rsa {}", mech.name);
            w.begin(&label);
            let lens: Vec<usize> = if i == 0 || th { (0..=max + 1).collect() } else { vec![0, 1, 2, 31, 32, 33, max - 1, max, max + 1] };
            for n in lens {
                case(w, &label, || format!("len {}", n), || {
                    let m = msg(n);
                    let e = |x: &str, r: Rv| format!("{} returned {}", x, rvs(r));
                    let rv = encrypt_init(s, &mech, ks.rsap);
                    if rv != 0 {
                        return Err(e("encrypt init", rv));
                    }
                    let o = encrypt(s, &m, Some(256));
                    Kd::Enc.null_init(s);
                    if n > max {
                        return if o.rv == 0 { Err("a message that is too long was accepted".into()) } else { Ok(()) };
                    }
                    if o.rv != 0 {
                        return if n == 0 { Ok(()) } else { Err(e("encrypt", o.rv)) };
                    }
                    for cap in [n, n.saturating_sub(1), 256] {
                        let rv = decrypt_init(s, &mech, ks.rsa);
                        if rv != 0 {
                            return Err(e("decrypt init", rv));
                        }
                        let mut d = decrypt(s, &o.data, Some(cap));
                        if d.rv == CKR_BUFFER_TOO_SMALL {
                            d = decrypt(s, &o.data, Some(256));
                        }
                        Kd::Dec.null_init(s);
                        if d.rv != 0 || d.data != m {
                            return Err(format!("room {}: decrypted to {} {}", cap, rvs(d.rv), hex(&d.data)));
                        }
                    }
                    Ok(())
                });
                w.distinct(&(i, n));
            }
        }),
    ];
    let mut stages = stages;
    stages.push(Stage::new("message", 2 * 3 * 2, move |w: &mut W, i| {
        use crate::p14::out;
        let (s, aes, _) = ready(w, tr);
        let (ccm, k, half) = (i % 2 == 1, i / 2 % 3, i / 6);
        let kb = &KEY32[..[16, 24, 32][k]];
        let label = format!("message {} key {}", if ccm { "CCM" } else { "GCM" }, 8 * kb.len());
        w.begin(&label);
        // (iv length, aad length, tag length)
        let pars: Vec<(usize, usize, usize)> = if ccm {
            (7..=13).map(|n| (n, 20, 16)).chain([4, 6, 8, 10, 12, 14].map(|t| (12, 5, t))).chain([0, 1, 16, 33].map(|a| (12, a, 16))).collect()
        } else {
            [1, 7, 8, 12, 13, 16, 17, 60].map(|n| (n, 20, 16)).into_iter().chain((4..16).map(|t| (12, 5, t))).chain([0, 1, 16, 33].map(|a| (12, a, 16))).collect()
        };
        // each message: its parts; a single part stands for the one-shot call and for Begin and one Next
        let run = |enc: bool, par: (usize, usize, usize), msgs: &[(&[usize], bool)], st: Sty| -> Result<(), String> {
            use crate::mesg::*;
            let (il, al, tl) = par;
            let t = if ccm { CKM_AES_CCM } else { CKM_AES_GCM };
            let e = |x: &str, r: Rv| format!("{} returned {}", x, rvs(r));
            let r = (|| {
                let rv = minit(s, enc, t, aes[k]);
                if rv != 0 {
                    return Err(e("message init", rv));
                }
                for (n, (parts, oneshot)) in msgs.iter().enumerate() {
                    let l: usize = parts.iter().sum();
                    let m = msg(l);
                    let mut ivv = iv(il);
                    ivv[0] ^= n as u8;
                    let (a, len) = (aad(al), l);
                    let (c, g) = if ccm { refc::ccm(kb, &ivv, &a, &m, tl) } else { let (c, g) = refc::gcm(kb, &ivv, &a, &m); (c, g[..tl].to_vec()) };
                    let (input, want) = if enc { (&m, &c) } else { (&c, &m) };
                    let p = std::cell::RefCell::new(Mp::new(ccm, &ivv, tl, len));
                    if !enc {
                        p.borrow_mut().tag.copy_from_slice(&g);
                    }
                    let mut o = vec![];
                    if *oneshot {
                        o = out(st, l, |cap| mone(s, enc, &mut p.borrow_mut(), &a, input, cap))?;
                    } else {
                        let rv = mbegin(s, enc, &mut p.borrow_mut(), &a);
                        if rv != 0 {
                            return Err(e("message begin", rv));
                        }
                        let mut pos = 0;
                        for (j, q) in parts.iter().enumerate() {
                            let end = j + 1 == parts.len();
                            let need = if !ccm { *q } else if end { l } else { 0 };
                            o.extend(out(st, need, |cap| mnext(s, enc, &mut p.borrow_mut(), &input[pos..pos + q], cap, end))?);
                            pos += q;
                        }
                    }
                    if &o != want {
                        return Err(format!("message {}: {} instead of {}", n + 1, hex(&o), hex(want)));
                    }
                    if p.borrow().iv != ivv {
                        return Err(format!("message {}: the IV of the caller was changed", n + 1));
                    }
                    if p.borrow().tag != g {
                        return Err(format!("message {}: tag {} instead of {}", n + 1, hex(&p.borrow().tag), hex(&g)));
                    }
                }
                let rv = mfinal(s, enc);
                if rv != 0 { Err(e("message final", rv)) } else { Ok(()) }
            })();
            if r.is_err() {
                mcancel(s, enc);
            }
            r
        };
        let enc = half == 0;
        let d = if enc { "encrypt" } else { "decrypt" };
        for par in &pars {
            for l in [1, 2, 15, 16, 17, 33] {
                for st in STYLES {
                    case(w, &label, || format!("{} {:?} len {} one-shot style {:?}", d, par, l, st), || run(enc, *par, &[(&[l], true)], st));
                    case(w, &label, || format!("{} {:?} len {} one part style {:?}", d, par, l, st), || run(enc, *par, &[(&[l], false)], st));
                }
                w.distinct(&(i, par, l));
            }
        }
        let par = (12, 20, 16);
        for l in 1..=if th { 80 } else { 40 } {
            for st in STYLES {
                case(w, &label, || format!("{} len {} one-shot style {:?}", d, l, st), || run(enc, par, &[(&[l], true)], st));
                for a in 1..l {
                    case(w, &label, || format!("{} parts {:?} style {:?}", d, [a, l - a], st), || run(enc, par, &[(&[a, l - a], false)], st));
                }
            }
            for a in 1..l {
                for b in 1..l - a {
                    case(w, &label, || format!("{} parts {:?}", d, [a, b, l - a - b]), || run(enc, par, &[(&[a, b, l - a - b], false)], Sty::A));
                }
            }
            w.distinct(&(i, l));
        }
        // several messages in one operation, one-shot and in parts
        let kinds: [(&[usize], bool); 8] =
            [(&[5], true), (&[16], true), (&[21], false), (&[5, 16], false), (&[16, 5], false), (&[1, 1, 1], false), (&[16, 16], false), (&[33, 1], false)];
        for x in kinds {
            for y in kinds {
                for z in kinds {
                    for st in STYLES {
                        case(w, &label, || format!("{} messages {:?} style {:?}", d, [x, y, z], st), || run(enc, par, &[x, y, z], st));
                    }
                    w.distinct(&(i, x, y, z));
                }
            }
        }
    }));
    crate::engine::run(
        Check {
            prop: "P13",
            level: "exploration",
            rule: "exhaustive enumeration on the real library of message lengths, mode parameters, key sizes, splits into parts (all two- and three-part splits, all sequences of part sizes around the block size, all compositions of short messages) and of ways to hand over each output buffer (ample, size query first, empty first, one byte short first, exactly the queried size); every result is compared with independent implementations of the modes, themselves checked against published vectors",
            assumptions: vec![
                "CTS is documented in the code as taking its data in one part: further parts may be refused".into(),
                "the result of an operation depends on data values only through the block cipher (one message pattern per length)".into(),
            ],
            extra: vec![],
        },
        sc,
        o,
        stages,
    )
}
