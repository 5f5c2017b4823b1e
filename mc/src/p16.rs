//! P16: token-generated IVs never repeat; counters never wrap into the nonce
use crate::api::*;
use crate::cry::*;
use crate::engine::*;
use crate::env::*;
use crate::mesg::*;
use crate::p13::{KEY32, case, msg, ready};
use crate::p14::{fed, guarded, z};
use crate::refc;
use kryoptic_lib::pkcs11::*;
use std::collections::HashSet;

const GENS: [(CK_ULONG, &str); 4] = [(CKG_GENERATE, "generate"), (CKG_GENERATE_COUNTER, "counter"), (CKG_GENERATE_COUNTER_XOR, "xor"), (CKG_GENERATE_RANDOM, "random")];
#[derive(Clone, Copy, Debug)]
struct Cfg {
    ccm: bool,
    gn: usize,
    ivlen: usize,
    fixed: usize,
    base: u8,
}
impl Cfg {
    fn base(&self) -> Vec<u8> {
        (0..self.ivlen).map(|i| if self.base == 1 { (i as u8).wrapping_mul(29).wrapping_add(0x5a) } else { self.base }).collect()
    }
    fn mp(&self, n: usize) -> Mp {
        let mut p = Mp::new(self.ccm, &self.base(), 16, n);
        p.fixed = self.fixed;
        p.generator = GENS[self.gn].0;
        p
    }
    fn name(&self) -> String {
        format!("{} {} {} bits, {} fixed, base {}", if self.ccm { "CCM" } else { "GCM" }, GENS[self.gn].1, 8 * self.ivlen, self.fixed, self.base)
    }
}
fn fixed_kept(a: &[u8], b: &[u8], fixed: usize) -> bool {
    (0..fixed).all(|i| a[i / 8] >> (7 - i % 8) & 1 == b[i / 8] >> (7 - i % 8) & 1)
}
/// the IVs of one message operation
struct Seen {
    s: H,
    ivs: HashSet<Vec<u8>>,
    data: Vec<u8>,
    check: bool,
}
impl Seen {
    /// one message was encrypted under p.iv; `before` is what the caller gave
    fn took(&mut self, p: &Mp, before: &[u8], key: &[u8], ct: &[u8]) -> Result<(), String> {
        if p.iv.len() != before.len() || !fixed_kept(&p.iv, before, p.fixed) {
            return Err(format!("the fixed {} bits of {} were changed to {}", p.fixed, hex(before), hex(&p.iv)));
        }
        if !self.ivs.insert(p.iv.clone()) {
            return Err(format!("message {} repeats the IV {}", self.ivs.len() + 1, hex(&p.iv)));
        }
        if self.check {
            let (c, t) = if p.ccm {
                refc::ccm(key, &p.iv, b"aad", &self.data, 16)
            } else {
                let (c, t) = refc::gcm(key, &p.iv, b"aad", &self.data);
                (c, t.to_vec())
            };
            if ct != c || p.tag != t {
                return Err(format!("the message is not encrypted under the reported IV {}", hex(&p.iv)));
            }
        }
        Ok(())
    }
    fn one(&mut self, p: &mut Mp, key: &[u8]) -> Result<Rv, String> {
        let b = p.iv.clone();
        let d = self.data.clone();
        let o = mone(self.s, true, p, b"aad", &d, Some(d.len() + 16));
        if o.rv == 0 {
            self.took(p, &b, key, &o.data)?;
        }
        Ok(o.rv)
    }
    fn parts(&mut self, p: &mut Mp, key: &[u8]) -> Result<Rv, String> {
        let b = p.iv.clone();
        let d = self.data.clone();
        let rv = mbegin(self.s, true, p, b"aad");
        if rv != 0 {
            return Ok(rv);
        }
        // the IV is reported by Begin; what it is now counts
        let mut ct = vec![];
        let h = d.len() / 2;
        for (q, end) in [(&d[..h], false), (&d[h..], true)] {
            if q.is_empty() {
                continue;
            }
            let o = mnext(self.s, true, p, q, Some(d.len() + 32), end);
            if o.rv != 0 {
                return Ok(o.rv);
            }
            ct.extend(o.data);
        }
        self.took(p, &b, key, &ct)?;
        Ok(0)
    }
}
const NOPS: usize = 10;
fn opname(i: usize) -> &'static str {
    ["one", "one-fresh", "parts", "parts-fresh", "short", "query", "abandon", "own-iv", "other-gn", "other-fixed"][i]
}
/// one sequence of calls on a fresh message operation
fn history(s: H, k: H, kb: &[u8], c: &Cfg, seq: &[usize]) -> Result<(), String> {
    let r = (|| {
        let mut v = Seen { s, ivs: HashSet::new(), data: msg(5), check: true };
        let mut p = c.mp(5);
        z(minit(s, true, p.t(), k), "message init")?;
        // after an error that ends the operation only a new one counts
        for op in seq {
            let rv = match op {
                0 => {
                    let rv = v.one(&mut p, kb)?;
                    rv
                }
                1 => {
                    let mut q = c.mp(5);
                    v.one(&mut q, kb)?
                }
                2 => v.parts(&mut p, kb)?,
                3 => {
                    let mut q = c.mp(5);
                    v.parts(&mut q, kb)?
                }
                4 => {
                    let b = p.iv.clone();
                    let rv = mone(s, true, &mut p, b"aad", &v.data, Some(2)).rv;
                    if rv == 0 {
                        return Err("a short buffer was accepted".into());
                    }
                    if !fixed_kept(&p.iv, &b, p.fixed) {
                        return Err("a failed call changed the fixed bits".into());
                    }
                    if rv == CKR_BUFFER_TOO_SMALL { 0 } else { rv }
                }
                5 => mone(s, true, &mut p, b"aad", &v.data, None).rv,
                6 => {
                    // a message that fails half way, under an IV of its own
                    let b = p.iv.clone();
                    let rv = mbegin(s, true, &mut p, b"aad");
                    if rv == 0 {
                        if !fixed_kept(&p.iv, &b, p.fixed) {
                            return Err("begin changed the fixed bits".into());
                        }
                        if !v.ivs.insert(p.iv.clone()) {
                            return Err(format!("begin repeats the IV {}", hex(&p.iv)));
                        }
                        // one message at a time
                        let mut q = c.mp(5);
                        let rv = mbegin(s, true, &mut q, b"aad");
                        if rv == 0 {
                            return Err("a second message was begun".into());
                        }
                        if p.ccm {
                            mnext(s, true, &mut p, &msg(40), Some(64), true).rv
                        } else {
                            let o = mnext(s, true, &mut p, &msg(5), Some(64), true);
                            o.rv
                        }
                    } else {
                        rv
                    }
                }
                7 => {
                    // the caller's own IV says nothing about generated ones
                    let mut q = c.mp(5);
                    q.generator = CKG_NO_GENERATE;
                    q.fixed = 0;
                    q.iv = vec![0xee; c.ivlen];
                    let d = v.data.clone();
                    let rv = mone(s, true, &mut q, b"aad", &d, Some(32)).rv;
                    if rv == 0 && q.iv != vec![0xee; c.ivlen] {
                        return Err("the caller's IV was replaced".into());
                    }
                    rv
                }
                8 => {
                    let mut q = p.clone();
                    q.generator = if c.gn == 2 { CKG_GENERATE_COUNTER } else { CKG_GENERATE_COUNTER_XOR };
                    v.one(&mut q, kb)?
                }
                _ => {
                    let mut q = p.clone();
                    q.fixed = if c.fixed >= 8 { c.fixed - 8 } else { c.fixed + 8 };
                    v.one(&mut q, kb)?
                }
            };
            // the operation may end with an error, IVs of the next one are another story
            if rv != 0 {
                let mut q = c.mp(5);
                let rv = v.one(&mut q, kb)?;
                if rv == CKR_OPERATION_NOT_INITIALIZED {
                    z(minit(s, true, p.t(), k), "message init after a failure")?;
                    v.ivs.clear();
                    p = c.mp(5);
                }
            }
        }
        Ok(())
    })();
    mcancel(s, true);
    r
}
/// run a generator dry
fn exhaust(s: H, k: H, kb: &[u8], c: &Cfg, limit: usize, way: usize) -> Result<(), String> {
    let bits = 8 * c.ivlen - c.fixed;
    let space = if bits < 40 { 1usize << bits } else { usize::MAX };
    let r = (|| {
        let mut v = Seen { s, ivs: HashSet::new(), data: msg(1), check: false };
        let mut p = c.mp(1);
        z(minit(s, true, p.t(), k), "message init")?;
        let mut n = 0;
        loop {
            if way == 1 {
                p = c.mp(1);
            }
            v.check = n < 4;
            let rv = if way == 2 { v.parts(&mut p, kb)? } else { v.one(&mut p, kb)? };
            if rv != 0 {
                if n + 1 < space {
                    return Err(format!("message {} of {} is refused with {}", n + 1, space, rvs(rv)));
                }
                break;
            }
            n += 1;
            if n == limit {
                return Ok(());
            }
        }
        // and it stays refused, whatever the parameters
        for i in 0..6 {
            let mut q = if i % 2 == 0 { c.mp(1) } else { p.clone() };
            if i == 2 {
                q.iv[0] ^= 0;
            }
            let rv = if i < 3 { v.one(&mut q, kb)? } else { v.parts(&mut q, kb)? };
            if rv == 0 {
                return Err("encryption goes on after the last IV".into());
            }
        }
        let mut q = c.mp(1);
        q.generator = CKG_NO_GENERATE;
        q.fixed = 0;
        mone(s, true, &mut q, b"aad", &msg(1), Some(32));
        let mut q = c.mp(1);
        if v.one(&mut q, kb)? == 0 {
            return Err("encryption goes on after the last IV and a message with an IV of the caller".into());
        }
        Ok(())
    })();
    mcancel(s, true);
    r
}
fn ctrcall(s: H, m: &Mech, k: H, enc: bool, d: &[u8], split: &[usize], q: bool) -> Result<(Rv, Vec<u8>), String> {
    let kd = if enc { Kd::Enc } else { Kd::Dec };
    guarded(s, &[kd], || {
        let rv = kd.init(s, m, k, &[]);
        if rv != 0 {
            return Ok((rv, vec![]));
        }
        if split.is_empty() {
            if q {
                kd.one(s, d, &[], None);
                kd.one(s, d, &[], Some(d.len().saturating_sub(1)));
            }
            let o = kd.one(s, d, &[], Some(d.len() + 16));
            if o.rv != 0 {
                kd.null_init(s);
            }
            return Ok((o.rv, o.data));
        }
        let mut r = vec![];
        for p in fed(d, split) {
            if q {
                kd.update(s, p, None);
                if p.len() > 1 {
                    kd.update(s, p, Some(p.len() - 1));
                }
            }
            let o = kd.update(s, p, Some(p.len() + 16));
            if o.rv != 0 {
                kd.null_init(s);
                return Ok((o.rv, r));
            }
            r.extend(o.data);
        }
        let o = kd.fin(s, &[], Some(32));
        if o.rv != 0 {
            kd.null_init(s);
        }
        r.extend(o.data);
        Ok((o.rv, r))
    })
}
/// splits of n bytes
fn splits(n: usize) -> Vec<Vec<usize>> {
    let rep = |k: usize| {
        let mut v = vec![k; n / k];
        if n % k > 0 {
            v.push(n % k);
        }
        v
    };
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![vec![], vec![n], rep(16), rep(17), rep(15), rep(32), vec![n / 2, n - n / 2], vec![1, n - 1], vec![n - 1, 1], vec![n.saturating_sub(16), n.min(16)]];
    if n <= 80 {
        v.push(rep(1));
        v.push(rep(7));
    }
    v.retain(|s| s.iter().sum::<usize>() == n || s.is_empty());
    v.dedup();
    v
}

pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    if let Err(e) = refc::selftest() {
        eprintln!("reference self test failed: {}", e);
        return 2;
    }
    let th = o.tier.thorough();
    let tm = Tmpl::std(sc, Db::Sqlite);
    let tr = &tm;
    let mut cfgs = vec![];
    for ccm in [false, true] {
        for gn in 0..4 {
            for base in [0u8, 0xff, 1] {
                let ls: &[(usize, usize)] =
                    if ccm { &[(13, 0), (13, 32), (12, 31), (11, 24), (7, 0), (8, 1)] } else { &[(12, 0), (12, 32), (12, 31), (16, 33), (12, 93), (12, 88), (1, 4), (20, 70)] };
                for (ivlen, fixed) in ls {
                    if gn == 3 && 8 * ivlen - fixed < 64 {
                        continue;
                    }
                    cfgs.push(Cfg { ccm, gn, ivlen: *ivlen, fixed: *fixed, base });
                }
            }
        }
    }
    let cr = &cfgs;
    let mut dry = vec![];
    for ccm in [false, true] {
        for gn in 0..3 {
            for bits in 1..=(if th { 18 } else { 11 }) {
                for ivlen in if ccm { vec![7, 12, 13] } else { vec![3, 12, 16] } {
                    dry.push((Cfg { ccm, gn, ivlen, fixed: 8 * ivlen - bits, base: [0, 0xff, 1][(bits + ivlen) % 3] }, usize::MAX));
                }
            }
            // large spaces: carries between the bytes of the counter
            for bits in [17, 24, 32, 40, 63, 64, 65, 72, 95, 96] {
                let ivlen = if ccm { 12 } else { 16 };
                dry.push((Cfg { ccm, gn, ivlen, fixed: 8 * ivlen - bits, base: 0xff }, if th { 70000 } else { 600 }));
                if bits <= 24 && !ccm {
                    dry.push((Cfg { ccm, gn, ivlen: 3, fixed: 24 - bits, base: 1 }, if th { usize::MAX >> (24 / bits) } else { 66000 }.min(140000)));
                }
            }
        }
        dry.push((Cfg { ccm, gn: 3, ivlen: 12, fixed: 0, base: 1 }, 3000));
        dry.push((Cfg { ccm, gn: 3, ivlen: 12, fixed: 31, base: 1 }, 3000));
    }
    let dr = &dry;
    let depth = if th { 5 } else { 4 };
    let stages = vec![
        Stage::new("history", cfgs.len() * NOPS, move |w: &mut W, i| {
            let (s, keys, _) = ready(w, tr);
            let c = cr[i / NOPS];
            let label = format!("history {}", c.name());
            w.begin(&label);
            let k = i % 3;
            let kb = &KEY32[..[16, 24, 32][k]];
            let n = NOPS.pow(depth - 1);
            for q in 0..n {
                let mut seq = vec![i % NOPS];
                let mut q = q;
                for _ in 1..depth {
                    seq.push(q % NOPS);
                    q /= NOPS;
                }
                case(w, &label, || seq.iter().map(|x| opname(*x)).collect::<Vec<_>>().join(","), || history(s, keys[k], kb, &c, &seq));
                w.distinct(&(i, &seq));
            }
        }),
        Stage::new("exhaust", dry.len(), move |w: &mut W, i| {
            let (s, keys, _) = ready(w, tr);
            let (c, limit) = dr[i];
            let label = format!("exhaust {}", c.name());
            w.begin(&label);
            for way in 0..3 {
                if way > 0 && limit < usize::MAX && limit > 10000 && !th {
                    continue;
                }
                case(w, &label, || ["passing the parameters back", "fresh parameters", "begin and next"][way].to_string(), || exhaust(s, keys[0], &KEY32[..16], &c, limit, way));
                w.distinct(&(i, way));
            }
        }),
        // impossible or unsafe generator parameters
        Stage::new("parameters", 2, move |w: &mut W, i| {
            let (s, keys, _) = ready(w, tr);
            let ccm = i == 1;
            let label = format!("parameters {}", if ccm { "CCM" } else { "GCM" });
            w.begin(&label);
            for ivlen in [7, 12, 13] {
                for gn in 0..4 {
                    for fixed in (0..=8 * ivlen + 9).chain([usize::MAX / 2, usize::MAX]) {
                        case(w, &label, || format!("{} iv {} fixed {}", GENS[gn].1, ivlen, fixed), || {
                            let c = Cfg { ccm, gn, ivlen, fixed: 0, base: 1 };
                            let mut p = c.mp(5);
                            p.fixed = fixed;
                            let r = (|| {
                                z(minit(s, true, p.t(), keys[0]), "message init")?;
                                let rv = mone(s, true, &mut p, b"aad", &msg(5), Some(32)).rv;
                                let gb = (8 * ivlen).checked_sub(fixed);
                                match gb {
                                    None | Some(0) if rv == 0 => Err("nothing is left to generate, but the message was encrypted".to_string()),
                                    Some(b) if gn == 3 && b <= 32 && rv == 0 => Err(format!("{} random bits were taken for an IV", b)),
                                    Some(b) if b > 0 && gn < 3 && rv != 0 => Err(format!("refused with {}", rvs(rv))),
                                    Some(b) if gn == 3 && b >= 96 && rv != 0 => Err(format!("refused with {}", rvs(rv))),
                                    _ => Ok(()),
                                }
                            })();
                            mcancel(s, true);
                            r
                        });
                        w.distinct(&(i, ivlen, gn, fixed));
                    }
                }
            }
        }),
        // every counter width, blocks left to the end of the counter, data lengths around the limit
        Stage::new("ctr", 128 * 2, move |w: &mut W, i| {
            let (s, keys, _) = ready(w, tr);
            let (b, enc) = (i / 2 + 1, i % 2 == 0);
            let label = format!("ctr {} bits {}", b, if enc { "encrypt" } else { "decrypt" });
            w.begin(&label);
            let top: u128 = if b == 128 { u128::MAX } else { (1 << b) - 1 };
            let mut lefts: Vec<u128> = (0..=if th { 9u128 } else { 5 }).filter(|l| *l <= top).collect();
            if b <= 7 && th {
                lefts = (0..=top).collect();
            }
            if b <= 8 {
                lefts.push(top);
            }
            for l in lefts {
                for pat in [0u128, u128::MAX, 0x5a5a_a5a5_1234_5678_9abc_def0_0ff0_8001] {
                    // `l` increments are left before the counter would wrap
                    let cb = (pat & !top | (top - l)).to_be_bytes();
                    if pat != 0 && b == 128 {
                        continue;
                    }
                    let mech = ctr(b as CK_ULONG, &cb);
                    let lim = l as usize;
                    let mut lens = vec![];
                    for blocks in lim.saturating_sub(1)..=lim + 3 {
                        lens.extend([16 * blocks, 16 * blocks + 1, (16 * blocks + 15)]);
                    }
                    lens.retain(|x| *x > 0);
                    for n in lens {
                        if n > 800 && pat != 0 {
                            continue;
                        }
                        let d = msg(n);
                        let need = n.div_ceil(16);
                        let sp = splits(n);
                        let want = refc::ctr(&KEY32[..16], &cb, b, &d);
                        let mut rvals = vec![];
                        for (j, split) in sp.iter().enumerate() {
                            for q in [false, true] {
                                if q && (j + n) % 3 != 0 && !th {
                                    continue;
                                }
                                case(w, &label, || format!("{} left, {} bytes {:?} cb {} q {}", l, n, split, hex(&cb), q), || {
                                    let (rv, got) = ctrcall(s, &mech, keys[0], enc, &d, split, q)?;
                                    // need blocks use counter values top-l ..= top-l+need-1
                                    if rv == 0 && need > lim + 1 {
                                        return Err(format!("{} blocks were accepted with {} counter values", need, lim + 1));
                                    }
                                    if rv != 0 && need <= lim {
                                        return Err(format!("{} blocks were refused ({}) with {} counter values", need, rvs(rv), lim + 1));
                                    }
                                    if got.len() > want.len() || got != want[..got.len()] {
                                        return Err(format!("wrong output {}", hex(&got)));
                                    }
                                    if rv == 0 && got != want {
                                        return Err("output is missing".into());
                                    }
                                    if got.len() > 16 * (lim + 1) {
                                        return Err("output under a wrapped counter".into());
                                    }
                                    Ok(())
                                });
                                if !q {
                                    rvals.push(());
                                }
                            }
                        }
                        // the limit does not depend on the split
                        case(w, &label, || format!("{} left, {} bytes, all splits alike, cb {}", l, n, hex(&cb)), || {
                            let mut seen = None;
                            for split in &sp {
                                let rv = ctrcall(s, &mech, keys[0], enc, &d, split, false)?.0 == 0;
                                if *seen.get_or_insert(rv) != rv {
                                    return Err(format!("the split {:?} is {} unlike others", split, if rv { "accepted" } else { "refused" }));
                                }
                            }
                            Ok(())
                        });
                        w.distinct(&(i, l, pat, n));
                    }
                }
            }
        }),
        // the far end of larger counters, and what is not a counter width
        Stage::new("ctrlong", 8, move |w: &mut W, i| {
            let (s, keys, _) = ready(w, tr);
            let label = "ctrlong";
            w.begin(label);
            if i == 0 {
                for b in [0, 129, 136, 256, 1 << 32, CK_ULONG::MAX] {
                    case(w, label, || format!("{} counter bits", b), || {
                        for kd in [Kd::Enc, Kd::Dec] {
                            let rv = kd.init(s, &ctr(b, &[0; 16]), keys[0], &[]);
                            if rv == 0 {
                                kd.null_init(s);
                                return Err("accepted".to_string());
                            }
                        }
                        Ok(())
                    });
                    w.distinct(&b);
                }
                return;
            }
            let b = [8usize, 9, 10, 12, 13, 15, 16][i - 1];
            let total = 1usize << b;
            for (blocks, okay) in [(total - 1, true), (total + 1, false), (total + 40, false)] {
                for step in [16 * total, 16 * total / 2, 4096, 16 * 255 + 7] {
                    case(w, label, || format!("{} bits from 0, {} blocks in steps of {}", b, blocks, step), || {
                        let d = msg(16 * blocks);
                        let mut split = vec![step.min(d.len()); d.len() / step.min(d.len())];
                        let r = d.len() - split.iter().sum::<usize>();
                        if r > 0 {
                            split.push(r);
                        }
                        let (rv, _) = ctrcall(s, &ctr(b as CK_ULONG, &[0; 16]), keys[0], true, &d, &split, false)?;
                        if (rv == 0) != okay { Err(format!("returned {}", rvs(rv))) } else { Ok(()) }
                    });
                    w.distinct(&(b, blocks, step));
                }
            }
        }),
        // the length field of CCM is the counter of its counter mode
        Stage::new("ccm", 1, move |w: &mut W, _| {
            let (s, keys, _) = ready(w, tr);
            let label = "ccm length";
            w.begin(label);
            for (nl, max) in [(13usize, 65535usize), (12, 0xff_ffff), (11, 0xffff_ffff)] {
                for (n, okay) in [(max, true), (max + 1, false), (max + 2, false), (max * 2 + 2, false)] {
                    case(w, label, || format!("nonce {} data {}", nl, n), || {
                        let m = ccm(n, &KEY32[..nl], b"x", 16);
                        let big = n > 0x100_0000;
                        let d = if big { vec![] } else { msg(n) };
                        guarded(s, &[Kd::Enc], || {
                            let rv = Kd::Enc.init(s, &m, keys[0], &[]);
                            if rv != 0 {
                                return if okay && nl == 13 { Err(format!("init returned {}", rvs(rv))) } else { Ok(()) };
                            }
                            if big {
                                Kd::Enc.null_init(s);
                                return if okay { Ok(()) } else { Err("accepted".to_string()) };
                            }
                            let o = Kd::Enc.one(s, &d, &[], Some(n + 16));
                            if o.rv != 0 {
                                Kd::Enc.null_init(s);
                            }
                            if (o.rv == 0) != okay { Err(format!("encryption returned {}", rvs(o.rv))) } else { Ok(()) }
                        })
                    });
                    w.distinct(&(nl, n));
                }
            }
        }),
    ];
    crate::engine::run(
        Check {
            prop: "P16",
            level: "exploration",
            rule: "exhaustive enumeration on the real library: every sequence of ten message calls (one-shot, in parts, short buffer, size query, abandoned message, own IV, changed generator, changed fixed bits, parameters passed back or fresh) up to the stated depth for every generator, mechanism, IV length and position of the fixed bits, every generator space of few bits run to exhaustion, and every CTR counter width with every small distance to the end of the counter, data lengths around the limit and splits; IVs must be distinct, used as reported, keep the fixed bits and run out; counters must not wrap",
            assumptions: vec!["large generator spaces and counters are explored at their ends and carries only".into(), "a CTR operation may refuse the last counter value (the repository's tests fix this limit)".into()],
            extra: vec![("depth".into(), depth.to_string())],
        },
        sc,
        o,
        stages,
    )
}
