//! P30: derived and agreed keys equal the standard for every parameter choice
use crate::agree::AGREE;
use crate::api::*;
use crate::engine::*;
use crate::env::*;
use crate::kdf;
use crate::keys::*;
use crate::p13::{case, msg};
use crate::refc::{self, Ha, HASHES};
use kryoptic_lib::pkcs11::vendor::*;
use kryoptic_lib::pkcs11::*;

type Want<'a> = &'a dyn Fn(usize) -> Option<Vec<u8>>;

/// what a refused derivation means
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Need {
    /// the standard lets it work
    Must,
    May,
    /// asks for something impossible
    Not,
}
use Need::*;

fn dk(kt: CK_KEY_TYPE, len: Option<usize>) -> T {
    let t = T::new()
        .ul(CKA_CLASS, CKO_SECRET_KEY)
        .ul(CKA_KEY_TYPE, kt)
        .b(CKA_TOKEN, false)
        .b(CKA_SENSITIVE, false)
        .b(CKA_EXTRACTABLE, true)
        .b(CKA_SIGN, true)
        .s(CKA_LABEL, "dk")
        .d(CKA_ID, b"\x01\x02");
    match len {
        Some(l) => t.ul(CKA_VALUE_LEN, l as CK_ULONG),
        None => t,
    }
}
fn base(s: H, v: &[u8]) -> H {
    okr(create(s, &seckey(CKK_GENERIC_SECRET, false, false, "base", v).b(CKA_DERIVE, true).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true)), "base key")
}
fn hexs(v: &[u8]) -> String {
    let s: String = v.iter().take(24).map(|b| format!("{:02x}", b)).collect();
    format!("{}{} ({} bytes)", s, if v.len() > 24 { ".." } else { "" }, v.len())
}
/// a value of any length
fn long(s: H, h: H, t: CK_ATTRIBUTE_TYPE) -> R<Vec<u8>> {
    match get(s, h, t) {
        Err(CKR_BUFFER_TOO_SMALL) => {
            let (rv, l, mut m) = get_caps(s, h, &[(t, Some(40000))]);
            if rv != CKR_OK {
                return Err(rv);
            }
            let mut v = m.remove(0);
            v.truncate(l[0] as usize);
            Ok(v)
        }
        r => r,
    }
}
/// the object made is exactly what was asked for
fn same(s: H, h: H, kt: CK_KEY_TYPE, len: Option<usize>, want: Want) -> Result<(), String> {
    let v = long(s, h, CKA_VALUE).map_err(|e| format!("no value: {}", rvs(e)))?;
    if let Some(l) = len {
        if v.len() != l {
            return Err(format!("{} bytes were asked for, the key has {}", l, v.len()));
        }
    }
    let data = kt == CK_UNAVAILABLE_INFORMATION;
    if !data {
        let n = get(s, h, CKA_VALUE_LEN).map_err(|e| format!("no CKA_VALUE_LEN: {}", rvs(e)))?;
        if n != (v.len() as CK_ULONG).to_ne_bytes() {
            return Err(format!("CKA_VALUE_LEN is {:?}, the value has {} bytes", n, v.len()));
        }
        for (a, want) in [(CKA_ID, b"\x01\x02".to_vec()), (CKA_SIGN, vec![1]), (CKA_KEY_TYPE, kt.to_ne_bytes().to_vec()), (CKA_EXTRACTABLE, vec![1])] {
            let g = get(s, h, a).map_err(|e| format!("attribute {:#x}: {}", a, rvs(e)))?;
            if g != want {
                return Err(format!("attribute {:#x} is {:?}", a, g));
            }
        }
        if kt == CKK_AES && ![16, 24, 32].contains(&v.len()) {
            return Err(format!("an AES key of {} bytes", v.len()));
        }
    }
    if v.is_empty() && len != Some(0) {
        return Err("a key without any value".into());
    }
    match want(v.len()) {
        Some(x) if x == v => Ok(()),
        Some(x) => Err(format!("value {} expected {}", hexs(&v), hexs(&x))),
        None => Err(format!("value {} where there is none of that length", hexs(&v))),
    }
}
fn judge(s: H, r: R<H>, kt: CK_KEY_TYPE, len: Option<usize>, need: Need, want: Want) -> Result<(), String> {
    match r {
        Ok(h) => {
            let e = if need == Not { Err("accepted".to_string()) } else { same(s, h, kt, len, want) };
            ok(destroy(s, h), "destroy");
            e
        }
        Err(e) => {
            if need == Must {
                return Err(format!("refused with {}", rvs(e)));
            }
            match find(s, &T::new().s(CKA_LABEL, "dk")) {
                Ok(v) if v.is_empty() => Ok(()),
                r => {
                    for h in r.clone().unwrap_or_default() {
                        destroy(s, h);
                    }
                    Err(format!("refused with {} but there is a new object {:?}", rvs(e), r))
                }
            }
        }
    }
}
/// leading bytes of the output
fn lead(v: Vec<u8>) -> impl Fn(usize) -> Option<Vec<u8>> {
    move |n| if n <= v.len() { Some(v[..n].to_vec()) } else { None }
}
fn tail(v: Vec<u8>) -> impl Fn(usize) -> Option<Vec<u8>> {
    move |n| if n <= v.len() { Some(v[v.len() - n..].to_vec()) } else { None }
}
fn need(kt: CK_KEY_TYPE, len: Option<usize>, avail: usize) -> Need {
    match len {
        None => May,
        // a key without any value: the standard does not say
        Some(0) if kt != CKK_AES => May,
        Some(l) if l > avail => Not,
        Some(l) if kt == CKK_AES && ![16, 24, 32].contains(&l) => Not,
        Some(_) => Must,
    }
}
fn lens(max: usize) -> Vec<Option<usize>> {
    std::iter::once(None).chain((0..=max).map(Some)).collect()
}
fn some(l: &[usize]) -> Vec<Option<usize>> {
    let mut v: Vec<usize> = l.to_vec();
    v.sort();
    v.dedup();
    std::iter::once(None).chain(v.into_iter().map(Some)).collect()
}
const KTS: [CK_KEY_TYPE; 2] = [CKK_GENERIC_SECRET, CKK_AES];

/// every length and key type of one mechanism with one key
fn sweep(w: &mut W, s: H, label: &str, key: &T, m: &dyn Fn() -> Mech, ls: &[Option<usize>], avail: usize, nd: &dyn Fn(CK_KEY_TYPE, Option<usize>) -> Need, want: Want) {
    let q = QUIET.replace(true);
    let k = okr(create(s, key), "key");
    QUIET.set(q);
    let _ = avail;
    for kt in KTS {
        for l in ls {
            case(w, label, || format!("{}/{:?}", if kt == CKK_AES { "AES" } else { "generic" }, l), || {
                // the key is made anew so that a report shows how
                let kk = if QUIET.get() { k } else { okr(create(s, key), "key") };
                let r = judge(s, derive(s, &m(), kk, &dk(kt, *l)), kt, *l, nd(kt, *l), want);
                if kk != k {
                    destroy(s, kk);
                }
                r
            });
        }
    }
    let q = QUIET.replace(true);
    ok(destroy(s, k), "destroy");
    QUIET.set(q);
}
fn gk(v: &[u8]) -> T {
    seckey(CKK_GENERIC_SECRET, false, false, "base", v).b(CKA_DERIVE, true).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true)
}
fn rk(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(29).wrapping_add(0x91)).collect()
}

fn phash(h: Ha, secret: &[u8], seed: &[u8], n: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut a = h.hmac(secret, seed);
    while out.len() < n {
        out.extend(h.hmac(secret, &[a.clone(), seed.to_vec()].concat()));
        a = h.hmac(secret, &a);
    }
    out.truncate(n);
    out
}
fn hkdf_expand(h: Ha, prk: &[u8], info: &[u8], n: usize) -> Option<Vec<u8>> {
    if n > 255 * h.len() {
        return None;
    }
    let mut out = vec![];
    let mut t: Vec<u8> = vec![];
    let mut i = 1u8;
    while out.len() < n {
        t = h.hmac(prk, &[t, info.to_vec(), vec![i]].concat());
        out.extend(&t);
        i = i.wrapping_add(1);
    }
    out.truncate(n);
    Some(out)
}
fn x963(h: Ha, z: &[u8], info: &[u8], n: usize, first: bool) -> Vec<u8> {
    let mut out = vec![];
    let mut c = 1u32;
    while out.len() < n {
        let b = if first { [&c.to_be_bytes()[..], z, info].concat() } else { [z, &c.to_be_bytes()[..], info].concat() };
        out.extend(h.hash(&b));
        c += 1;
    }
    out.truncate(n);
    out
}
fn pbkdf2(h: Ha, p: &[u8], salt: &[u8], it: usize, n: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 1u32;
    while out.len() < n {
        let mut u = h.hmac(p, &[salt, &i.to_be_bytes()].concat());
        let mut t = u.clone();
        for _ in 1..it {
            u = h.hmac(p, &u);
            t.iter_mut().zip(&u).for_each(|(a, b)| *a ^= b);
        }
        out.extend(t);
        i += 1;
    }
    out.truncate(n);
    out
}

fn hash_item(w: &mut W, s: H, i: usize, th: bool) {
    let h = HASHES[i];
    let bs: &[usize] = if th { &[1, 2, 16, 55, 56, 64, 65, 111, 112, 128, 200, 1000] } else { &[1, 16, 64, 200] };
    for n in bs {
        let v = rk(*n);
        let d = h.hash(&v);
        sweep(w, s, &format!("{:?}/base{}", h, n), &gk(&v), &|| Mech::new(kdf::hderive(h)), &lens(h.len() + 1), d.len(), &|kt, l| need(kt, l, d.len()), &lead(d.clone()));
    }
}
const SIMPLE: usize = 5;
fn simple_item(w: &mut W, s: H, i: usize, th: bool) {
    let bs: &[usize] = if th { &[1, 2, 7, 8, 15, 16, 17, 24, 32, 33] } else { &[1, 2, 16, 17] };
    for b in bs {
        let v = rk(*b);
        if i == 4 {
            // every bit offset
            for bit in 0..=8 * b + 1 {
                let bit_at = |j: usize| v[(j / 8) % b] >> (7 - j % 8) & 1;
                let out: Vec<u8> = (0..*b).map(|k| (0..8).fold(0, |a, j| a << 1 | bit_at(bit + 8 * k + j))).collect();
                let avail = if bit >= 8 * b { 0 } else { *b };
                sweep(w, s, &format!("extract/base{}/bit{}", b, bit), &gk(&v), &|| kdf::extract(bit as CK_ULONG), &lens(b + 1), avail, &|kt, l| need(kt, l, avail), &lead(out[..avail].to_vec()));
            }
            continue;
        }
        for d in bs {
            let x = msg(*d);
            let out = match i {
                0 | 1 => [v.clone(), x.clone()].concat(),
                2 => [x.clone(), v.clone()].concat(),
                _ => x.iter().zip(&v).map(|(a, b)| a ^ b).collect(),
            };
            let t = [0, CKM_CONCATENATE_BASE_AND_DATA, CKM_CONCATENATE_DATA_AND_BASE, CKM_XOR_BASE_AND_DATA][i];
            let q = QUIET.replace(true);
            let o = if i == 0 { base(s, &x) } else { 0 };
            QUIET.set(q);
            let mk = || if i == 0 { kdf::concat_key(o) } else { str_mech(t, &x) };
            let label = format!("{}/base{}/data{}", ["key", "base-data", "data-base", "xor"][i], b, d);
            sweep(w, s, &label, &gk(&v), &mk, &lens(out.len() + 1), out.len(), &|kt, l| need(kt, l, out.len()), &lead(out.clone()));
            if i == 0 {
                let q = QUIET.replace(true);
                destroy(s, o);
                QUIET.set(q);
            }
        }
    }
}
fn aes_item(w: &mut W, s: H, i: usize, th: bool) {
    let (n, cbc) = ([16, 24, 32][i / 2], i % 2 == 1);
    let k = rk(n);
    let mut iv = [0u8; 16];
    iv.copy_from_slice(&msg(16));
    let ds: &[usize] = if th { &[0, 1, 15, 16, 17, 32, 47, 48, 64, 160] } else { &[0, 15, 16, 24, 32, 48] };
    for d in ds {
        let x = msg(*d);
        let good = *d > 0 && d % 16 == 0;
        let out = if !good {
            vec![]
        } else if cbc {
            refc::cbc(&k, &iv, &x)
        } else {
            refc::ecb(&k, &x)
        };
        let key = seckey(CKK_AES, false, false, "base", &k).b(CKA_DERIVE, true).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
        let nd = |kt, l: Option<usize>| match l {
            _ if !good => Not,
            // the library does not shorten the cipher text
            Some(l) if l < *d && need(kt, Some(l), *d) == Must => May,
            None if kt == CKK_GENERIC_SECRET || [16, 24, 32].contains(d) => Must,
            l => need(kt, l, *d),
        };
        sweep(w, s, &format!("aes{}/{}/data{}", n, if cbc { "cbc" } else { "ecb" }, d), &key, &|| kdf::aes_data(cbc, &iv, &x), &some(&[0, 1, 16, 24, 32, 48, *d, d + 1]), out.len(), &nd, &lead(out.clone()));
    }
}
fn hkdf_item(w: &mut W, s: H, i: usize, th: bool) {
    let h = HASHES[i / 3];
    let (ex, en) = [(true, false), (false, true), (true, true)][i % 3];
    let hl = h.len();
    let ls = some(&[0, 1, 16, hl - 1, hl, hl + 1, 2 * hl, 2 * hl + 1, 255 * hl, 255 * hl + 1]);
    let bs: Vec<usize> = if th { vec![1, hl, h.block(), h.block() + 1, 300] } else { vec![1, hl] };
    for b in bs {
        let v = rk(b);
        for salt in 0..5 {
            let sv: Vec<u8> = match salt {
                0 => vec![0; hl],
                1 => msg(1),
                2 => msg(hl),
                _ => msg(h.block() + 1),
            };
            for il in [0usize, 1, 33] {
                let info = msg(il);
                let prk = if ex { h.hmac(&sv, &v) } else { v.clone() };
                let want = |n: usize| {
                    if !en {
                        if n == hl { Some(prk.clone()) } else { None }
                    } else {
                        hkdf_expand(h, &prk, &info, n)
                    }
                };
                let q = QUIET.replace(true);
                let sk = base(s, &sv);
                QUIET.set(q);
                let mk = |t| {
                    let st = match salt {
                        0 => kdf::Salt::Null,
                        4 => kdf::Salt::Key(sk),
                        _ => kdf::Salt::Data(sv.clone()),
                    };
                    kdf::hkdf(t, kdf::hmech(h), ex, en, &st, &info)
                };
                let nd = |kt, l: Option<usize>| match l {
                    Some(l) if !en && l != hl => Not,
                    l => need(kt, l, 255 * hl),
                };
                let label = format!("hkdf/{:?}/{}{}/base{}/salt{}/info{}", h, if ex { "x" } else { "" }, if en { "e" } else { "" }, b, salt, il);
                sweep(w, s, &label, &gk(&v), &|| mk(CKM_HKDF_DERIVE), &ls, 0, &nd, &want);
                // a data object instead of a key
                let q = QUIET.replace(true);
                let k = base(s, &v);
                QUIET.set(q);
                for l in &ls {
                    case(w, &label, || format!("data/{:?}", l), || {
                        let mut t = T::new().ul(CKA_CLASS, CKO_DATA).b(CKA_TOKEN, false).s(CKA_LABEL, "dk");
                        if let Some(l) = l {
                            t = t.ul(CKA_VALUE_LEN, *l as CK_ULONG);
                        }
                        let x = if nd(CKK_GENERIC_SECRET, *l) == Not { Not } else { May };
                        judge(s, derive(s, &mk(CKM_HKDF_DATA), k, &t), CK_UNAVAILABLE_INFORMATION, *l, x, &want)
                    });
                }
                let q = QUIET.replace(true);
                destroy(s, k);
                destroy(s, sk);
                QUIET.set(q);
            }
        }
    }
}

use kdf::{Dp, Mode108};
fn width(v: u64, le: bool, bits: usize) -> Vec<u8> {
    let n = bits / 8;
    let b = v.to_be_bytes();
    let mut o = b[8 - n..].to_vec();
    if le {
        o.reverse();
    }
    o
}
fn fits(v: u64, bits: usize) -> bool {
    bits == 64 || v < 1 << bits
}
/// None: it cannot be done
fn sp108(mode: &Mode108, prf: &dyn Fn(&[u8]) -> Vec<u8>, seg: usize, dps: &[Dp], ls: &[usize]) -> Option<Vec<Vec<u8>>> {
    let iters = dps.iter().filter(|d| matches!(d, Dp::Iter(_))).count();
    let ctrs = dps.iter().filter(|d| matches!(d, Dp::Counter(..))).count();
    let dkm = dps.iter().filter(|d| matches!(d, Dp::Len(..))).count();
    let cm = *mode == Mode108::Counter;
    if iters != 1 || dkm > 1 || ctrs > 1 || (cm && ctrs > 0) {
        return None;
    }
    let segs: usize = ls.iter().map(|l| l.div_ceil(seg)).sum();
    let mut k = match mode {
        Mode108::Counter => vec![],
        Mode108::Feedback(iv) => iv.clone(),
    };
    let mut out = vec![];
    for i in 1..=segs as u64 {
        let mut m = vec![];
        for d in dps {
            match d {
                Dp::Iter(None) if cm => return None,
                Dp::Iter(None) => m.extend(&k),
                Dp::Iter(Some(_)) if !cm => return None,
                Dp::Iter(Some((le, b))) | Dp::Counter(le, b) => {
                    if !fits(i, *b) {
                        return None;
                    }
                    m.extend(width(i, *le, *b))
                }
                Dp::Bytes(b) => m.extend(b),
                Dp::Len(sg, le, b) => {
                    let l = 8 * if *sg { segs * seg } else { ls.iter().sum() } as u64;
                    m.extend(width(l, *le, *b))
                }
            }
        }
        k = prf(&m);
        out.extend(&k);
    }
    let mut r = vec![];
    let mut at = 0;
    for l in ls {
        r.push(out[at..at + l].to_vec());
        at += l.div_ceil(seg) * seg;
    }
    Some(r)
}
fn dps(th: bool) -> Vec<(Mode108, Vec<Dp>)> {
    let mut r = vec![];
    let ws = [8, 16, 24, 32];
    for le in [false, true] {
        for b in ws {
            r.push((Mode108::Counter, vec![Dp::Iter(Some((le, b)))]));
            r.push((Mode108::Counter, vec![Dp::Iter(Some((le, b))), Dp::Bytes(msg(7))]));
            r.push((Mode108::Feedback(vec![]), vec![Dp::Iter(None), Dp::Counter(le, b)]));
            r.push((Mode108::Feedback(msg(16)), vec![Dp::Counter(le, b), Dp::Iter(None), Dp::Bytes(msg(3))]));
        }
        for sg in [false, true] {
            for b in [8, 16, 24, 32, 40, 48, 56, 64] {
                r.push((Mode108::Counter, vec![Dp::Iter(Some((false, 32))), Dp::Bytes(msg(5)), Dp::Len(sg, le, b)]));
                r.push((Mode108::Feedback(msg(16)), vec![Dp::Iter(None), Dp::Bytes(msg(5)), Dp::Len(sg, le, b)]));
            }
        }
    }
    // every order of the elements, and every sequence of up to three, sensible or not
    let it = |cm: bool| if cm { Dp::Iter(Some((false, 16))) } else { Dp::Iter(None) };
    for cm in [true, false] {
        let mode = if cm { Mode108::Counter } else { Mode108::Feedback(msg(20)) };
        let mut el = vec![it(cm), Dp::Bytes(b"label".to_vec()), Dp::Len(false, false, 32), Dp::Counter(true, 8)];
        if th {
            el.push(Dp::Bytes(vec![0]));
            el.push(if cm { Dp::Iter(None) } else { Dp::Iter(Some((false, 8))) });
        }
        let n = el.len();
        for len in 0..=4 {
            for x in 0..n.pow(len) {
                r.push((mode.clone(), (0..len).map(|j| el[x / n.pow(j) % n].clone()).collect()));
            }
        }
    }
    r
}
fn sp_item(w: &mut W, s: H, i: usize, th: bool) {
    let all = dps(th);
    let np = HASHES.len() + 1;
    let (p, part) = (i % np, i / np);
    let key = rk(16);
    let (seg, mech): (usize, CK_MECHANISM_TYPE) = if p == HASHES.len() { (16, CKM_AES_CMAC) } else { (HASHES[p].len(), kdf::hmac_mech(HASHES[p])) };
    let prf = |m: &[u8]| if p == HASHES.len() { refc::cmac(&key, m).to_vec() } else { HASHES[p].hmac(&key, m) };
    let q = QUIET.replace(true);
    let kt = if p == HASHES.len() { CKK_AES } else { CKK_GENERIC_SECRET };
    let k = okr(create(s, &seckey(kt, false, false, "base", &key).b(CKA_DERIVE, true).b(CKA_SIGN, true).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true)), "base");
    QUIET.set(q);
    let mut ll: Vec<Vec<usize>> = vec![vec![1], vec![seg], vec![seg + 1], vec![3 * seg], vec![16, 16], vec![seg + 1, 1, 24], vec![0], vec![16, 0]];
    for (n, (mode, d)) in all.iter().enumerate() {
        if n % SPPARTS != part {
            continue;
        }
        let plain = d.len() <= 3 && (p == 2 || p == HASHES.len() || th);
        let mut more: Vec<Vec<usize>> = vec![];
        if plain && n < 100 {
            // where the counter or the length field runs out
            more.extend([vec![31], vec![32], vec![33], vec![255 * seg], vec![255 * seg + 1], vec![8191], vec![8192], vec![8160, 32], vec![255], vec![256]]);
        }
        ll.truncate(8);
        ll.extend(more);
        for ls in &ll {
            let want = if ls.contains(&0) { None } else { sp108(mode, &prf, seg, d, ls) };
            case(w, &format!("sp108/{:?}", if p == HASHES.len() { "CMAC".into() } else { format!("{:?}", HASHES[p]) }), || format!("{:?}/{:?}/{:?}", mode, d, ls), || {
                let ts: Vec<T> = ls.iter().map(|l| dk(CKK_GENERIC_SECRET, Some(*l))).collect();
                let (m, hs) = kdf::sp800(mode, mech, d, &ts[1..]);
                let r = derive(s, &m, k, &ts[0]);
                let mut all = vec![r.unwrap_or(0)];
                all.extend(hs.iter().map(|h| if *h == CK_INVALID_HANDLE { 0 } else { *h }));
                let mut e = Ok(());
                match (&r, &want) {
                    (Err(_), None) => (),
                    (Err(x), Some(_)) => e = Err(format!("refused with {}", rvs(*x))),
                    (Ok(_), None) => e = Err("accepted".into()),
                    (Ok(_), Some(want)) => {
                        for (j, h) in all.iter().enumerate() {
                            let x = want[j].clone();
                            if let Err(m) = same(s, *h, CKK_GENERIC_SECRET, Some(ls[j]), &|_| Some(x.clone())) {
                                e = Err(format!("key {}: {}", j, m));
                            }
                        }
                    }
                }
                if r.is_ok() {
                    for h in &all {
                        destroy(s, *h);
                    }
                }
                if let Ok(v) = find(s, &T::new().s(CKA_LABEL, "dk")) {
                    if !v.is_empty() {
                        for h in &v {
                            destroy(s, *h);
                        }
                        if e.is_ok() {
                            e = Err(format!("{} unexpected objects are left", v.len()));
                        }
                    }
                }
                e
            });
        }
    }
    let q = QUIET.replace(true);
    destroy(s, k);
    QUIET.set(q);
}
const SPPARTS: usize = 8;

fn agree_key(name: &str, d: &[u8]) -> T {
    let h = |kt| key_head(CKO_PRIVATE_KEY, kt, false, false).b(CKA_DERIVE, true).d(CKA_VALUE, d);
    match name {
        "P256" => h(CKK_EC).d(CKA_EC_PARAMS, &P256),
        "P384" => h(CKK_EC).d(CKA_EC_PARAMS, &hx("06052b81040022")),
        "P521" => h(CKK_EC).d(CKA_EC_PARAMS, &hx("06052b81040023")),
        "X25519" => h(CKK_EC_MONTGOMERY).d(CKA_EC_PARAMS, &X25519),
        "X448" => h(CKK_EC_MONTGOMERY).d(CKA_EC_PARAMS, &hx("06032b656f")),
        _ => h(CKK_DH).d(CKA_PRIME, &hx(FFDHE2048)).d(CKA_BASE, &[2]),
    }
}
fn der_point(p: &[u8]) -> Vec<u8> {
    let mut v = vec![4];
    if p.len() < 128 {
        v.push(p.len() as u8);
    } else {
        v.extend([0x81, p.len() as u8]);
    }
    v.extend(p);
    v
}
const KDFS: [(CK_ULONG, Ha, bool); 18] = [
    (CKD_SHA1_KDF, Ha::S1, false),
    (CKD_SHA224_KDF, Ha::S224, false),
    (CKD_SHA256_KDF, Ha::S256, false),
    (CKD_SHA384_KDF, Ha::S384, false),
    (CKD_SHA512_KDF, Ha::S512, false),
    (CKD_SHA3_224_KDF, Ha::K224, false),
    (CKD_SHA3_256_KDF, Ha::K256, false),
    (CKD_SHA3_384_KDF, Ha::K384, false),
    (CKD_SHA3_512_KDF, Ha::K512, false),
    (CKD_SHA1_KDF_SP800, Ha::S1, true),
    (CKD_SHA224_KDF_SP800, Ha::S224, true),
    (CKD_SHA256_KDF_SP800, Ha::S256, true),
    (CKD_SHA384_KDF_SP800, Ha::S384, true),
    (CKD_SHA512_KDF_SP800, Ha::S512, true),
    (CKD_SHA3_224_KDF_SP800, Ha::K224, true),
    (CKD_SHA3_256_KDF_SP800, Ha::K256, true),
    (CKD_SHA3_384_KDF_SP800, Ha::K384, true),
    (CKD_SHA3_512_KDF_SP800, Ha::K512, true),
];
fn agree_item(w: &mut W, s: H, i: usize, th: bool) {
    let (name, d, q, z) = AGREE[i];
    let (d, q, z) = (hx(d), hx(q), hx(z));
    let n = z.len();
    let key = agree_key(name, &d);
    let label = format!("agree/{}/{}", name, i);
    if name == "DH" {
        let ls = if th { lens(257) } else { some(&[0, 1, 15, 16, 24, 32, 128, 254, 255, 256, 257]) };
        let nd = |kt, l: Option<usize>| if l.is_none() { Must } else { need(kt, l, n) };
        sweep(w, s, &label, &key, &|| kdf::dh(&q), &ls, n, &nd, &|l| if kdfull(l, n) { tail(z.clone())(l) } else { None });
        return;
    }
    let mont = name.starts_with('X');
    let mut encs = vec![("raw", q.clone())];
    if !mont {
        encs.push(("der", der_point(&q)));
    }
    let mut ts = vec![CKM_ECDH1_DERIVE];
    if !mont {
        ts.push(CKM_ECDH1_COFACTOR_DERIVE);
    }
    for t in ts {
        for (en, pt) in &encs {
            let label = format!("{}/{}/{}", label, if t == CKM_ECDH1_DERIVE { "ecdh" } else { "cofactor" }, en);
            let nd = |kt, l: Option<usize>| if l.is_none() { Must } else { need(kt, l, n) };
            sweep(w, s, &label, &key, &|| kdf::ecdh(t, CKD_NULL, &[], pt), &lens(n + 1), n, &nd, &|l| tail(z.clone())(l));
            for (kd, h, first) in KDFS {
                for sh in [0usize, 1, 40] {
                    if !th && *en == "der" && sh == 1 {
                        continue;
                    }
                    let shd = msg(sh);
                    let hl = h.len();
                    let ls = some(&[0, 1, 16, 24, hl - 1, hl, hl + 1, 3 * hl + 5]);
                    let nd = |kt, l: Option<usize>| if l.is_none() { May } else { need(kt, l, 1000) };
                    sweep(w, s, &format!("{}/kdf{}/shared{}", label, kd, sh), &key, &|| kdf::ecdh(t, kd, &shd, pt), &ls, 0, &nd, &|l| Some(x963(h, &z, &shd, l, first)));
                }
            }
        }
    }
}
fn kdfull(l: usize, n: usize) -> bool {
    l <= n
}
/// points and values that no agreement may be made with
fn bad_item(w: &mut W, s: H, i: usize) {
    let name = ["P256", "P384", "P521", "X25519", "X448", "DH"][i];
    let (_, d, q, _) = AGREE.iter().find(|a| a.0 == name && a.1.len() > 2 && !a.1.starts_with("000000")).unwrap();
    let (d, q) = (hx(d), hx(q));
    let n = q.len();
    let mut bad: Vec<(String, Vec<u8>)> = vec![];
    if name == "DH" {
        let p = hx(FFDHE2048);
        let dec = |p: &[u8]| {
            let mut p = p.to_vec();
            *p.last_mut().unwrap() -= 1;
            p
        };
        bad.push(("zero".into(), vec![0; n]));
        bad.push(("zero short".into(), vec![0]));
        bad.push(("one".into(), [vec![0; n - 1], vec![1]].concat()));
        bad.push(("one short".into(), vec![1]));
        bad.push(("p-1".into(), dec(&p)));
        bad.push(("p".into(), p.clone()));
        bad.push(("p+2^64".into(), {
            let mut x = vec![0xff; n];
            x[n - 1] = 0xfe;
            x
        }));
        bad.push(("too long".into(), [q.clone(), vec![1]].concat()));
        bad.push(("empty".into(), vec![]));
    } else if name.starts_with('X') {
        // low order points give an all zero secret
        bad.push(("zero".into(), vec![0; n]));
        let mut one = vec![0; n];
        one[0] = 1;
        bad.push(("one".into(), one));
        bad.push(("short".into(), q[..n - 1].to_vec()));
        bad.push(("long".into(), [q.clone(), vec![0]].concat()));
        bad.push(("empty".into(), vec![]));
        bad.push(("single".into(), vec![9]));
        if name == "X25519" {
            bad.push(("order8".into(), hx("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800")));
            bad.push(("order8b".into(), hx("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157")));
            bad.push(("p-1".into(), hx("ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f")));
            bad.push(("p".into(), hx("edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f")));
        }
    } else {
        let l = (n - 1) / 2;
        bad.push(("infinity".into(), vec![0]));
        bad.push(("empty".into(), vec![]));
        bad.push(("zeros".into(), [vec![4], vec![0; 2 * l]].concat()));
        for j in [1, l, l + 1, 2 * l] {
            let mut x = q.clone();
            x[j] ^= 1;
            bad.push((format!("bit at {}", j), x));
        }
        bad.push(("short".into(), q[..n - 1].to_vec()));
        bad.push(("long".into(), [q.clone(), vec![0]].concat()));
        bad.push(("ones".into(), [vec![4], vec![0xff; 2 * l]].concat()));
        bad.push(("no prefix".into(), q[1..].to_vec()));
        bad.push(("prefix 5".into(), [vec![5], q[1..].to_vec()].concat()));
        bad.push(("prefix 0".into(), [vec![0], q[1..].to_vec()].concat()));
        let other = AGREE.iter().find(|a| a.0 != name && a.0.starts_with('P')).unwrap();
        bad.push(("other curve".into(), hx(other.2)));
        let dp = der_point(&q);
        bad.push(("der cut".into(), dp[..dp.len() - 1].to_vec()));
        bad.push(("der long".into(), [dp.clone(), vec![0]].concat()));
        bad.push(("der tag".into(), [vec![3], dp[1..].to_vec()].concat()));
    }
    let q0 = QUIET.replace(true);
    let k = okr(create(s, &agree_key(name, &d)), "key");
    QUIET.set(q0);
    for (bn, b) in &bad {
        for l in [None, Some(16)] {
            for kd in [CKD_NULL, CKD_SHA256_KDF] {
                if name == "DH" && kd != CKD_NULL || kd != CKD_NULL && l.is_none() {
                    continue;
                }
                case(w, &format!("bad/{}", name), || format!("{}/kdf{}/{:?}", bn, kd, l), || {
                    let m = if name == "DH" { kdf::dh(b) } else { kdf::ecdh(CKM_ECDH1_DERIVE, kd, &[], b) };
                    judge(s, derive(s, &m, k, &dk(CKK_GENERIC_SECRET, l)), CKK_GENERIC_SECRET, l, Not, &|_| None)
                });
            }
        }
    }
    let q0 = QUIET.replace(true);
    destroy(s, k);
    QUIET.set(q0);
}
/// keys the token made itself: both sides get the same
fn pair_item(w: &mut W, s: H, i: usize, th: bool) {
    let name = ["P256", "P384", "P521", "X25519", "X448", "DH"][i];
    let m = match name {
        "DH" => Mech::new(CKM_DH_PKCS_KEY_PAIR_GEN),
        "X25519" | "X448" => Mech::new(CKM_EC_MONTGOMERY_KEY_PAIR_GEN),
        _ => Mech::new(CKM_EC_KEY_PAIR_GEN),
    };
    let (par, n): (Vec<u8>, usize) = match name {
        "P256" => (P256.to_vec(), 32),
        "P384" => (hx("06052b81040022"), 48),
        "P521" => (hx("06052b81040023"), 66),
        "X25519" => (X25519.to_vec(), 32),
        "X448" => (hx("06032b656f"), 56),
        _ => (vec![], 256),
    };
    let kt = match name {
        "DH" => CKK_DH,
        "X25519" | "X448" => CKK_EC_MONTGOMERY,
        _ => CKK_EC,
    };
    for r in 0..if name == "DH" { if th { 40 } else { 2 } } else if th { 200 } else { 6 } {
        case(w, &format!("pair/{}", name), || format!("{}", r), || {
            let mut ks = vec![];
            for _ in 0..2 {
                let pt = if name == "DH" {
                    T::new().ul(CKA_CLASS, CKO_PUBLIC_KEY).ul(CKA_KEY_TYPE, kt).d(CKA_PRIME, &hx(FFDHE2048)).d(CKA_BASE, &[2])
                } else {
                    T::new().ul(CKA_CLASS, CKO_PUBLIC_KEY).ul(CKA_KEY_TYPE, kt).d(CKA_EC_PARAMS, &par)
                };
                let vt = T::new().ul(CKA_CLASS, CKO_PRIVATE_KEY).ul(CKA_KEY_TYPE, kt).b(CKA_DERIVE, true).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
                let (pb, pv) = gen_pair(s, &m, &pt, &vt).map_err(|e| format!("key pair generation: {}", rvs(e)))?;
                let q = get(s, pb, if name == "DH" { CKA_VALUE } else { CKA_EC_POINT }).map_err(|e| format!("public value: {}", rvs(e)))?;
                ks.push((pb, pv, q));
            }
            let mut vals = vec![];
            for (a, b) in [(0, 1), (1, 0)] {
                let q = &ks[b].2;
                // the point is stored as an octet string
                let raw = if name == "DH" || q.len() == n {
                    q.clone()
                } else if q[1] == 0x81 {
                    q[3..].to_vec()
                } else {
                    q[2..].to_vec()
                };
                for l in [n, 16, 1] {
                    let m = if name == "DH" { kdf::dh(&raw) } else { kdf::ecdh(CKM_ECDH1_DERIVE, CKD_NULL, &[], &raw) };
                    let h = derive(s, &m, ks[a].1, &dk(CKK_GENERIC_SECRET, Some(l))).map_err(|e| format!("side {} length {}: {}", a, l, rvs(e)))?;
                    vals.push(get(s, h, CKA_VALUE).map_err(rvs)?);
                    destroy(s, h);
                }
            }
            for (a, b, _) in &ks {
                destroy(s, *a);
                destroy(s, *b);
            }
            if vals[..3] != vals[3..] {
                return Err(format!("the two sides get {} and {}", hexs(&vals[0]), hexs(&vals[3])));
            }
            if vals[1] != vals[0][n - 16..] || vals[2] != vals[0][n - 1..] {
                return Err("the shorter keys are not the end of the whole secret".into());
            }
            if vals[0].iter().all(|b| *b == 0) {
                return Err("the secret is zero".into());
            }
            Ok(())
        });
    }
}
fn tls_item(w: &mut W, s: H, i: usize, th: bool) {
    let h = [Ha::S1, Ha::S224, Ha::S256, Ha::S384, Ha::S512, Ha::S512_224, Ha::S512_256, Ha::K224, Ha::K256, Ha::K384, Ha::K512][i / 4];
    let hm = kdf::hmech(h);
    let (c, v) = (msg(32), rk(32));
    let read = |h| get(s, h, CKA_VALUE).map_err(|e| format!("no value: {}", rvs(e)));
    match i % 4 {
        0 | 1 => {
            for pl in [1usize, 47, 48, 49, 128, 200] {
                let pm = rk(pl);
                for dh in [false, true] {
                    for shl in if i % 4 == 0 { vec![0usize] } else { vec![1, 32, 64] } {
                        let sh = msg(shl);
                        let (t, seed): (_, Vec<u8>) = match (i % 4, dh) {
                            (0, false) => (CKM_TLS12_MASTER_KEY_DERIVE, [b"master secret", &c[..], &v[..]].concat()),
                            (0, true) => (CKM_TLS12_MASTER_KEY_DERIVE_DH, [b"master secret", &c[..], &v[..]].concat()),
                            (_, false) => (CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE, [b"extended master secret", &sh[..]].concat()),
                            _ => (CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE_DH, [b"extended master secret", &sh[..]].concat()),
                        };
                        let out = phash(h, &pm, &seed, 48);
                        for l in [None, Some(0), Some(47), Some(48), Some(49)] {
                            case(w, &format!("tls/{:?}/{:#x}/pre{}/hash{}", h, t, pl, shl), || format!("{:?}", l), || {
                                let k = base(s, &pm);
                                let (m, ver) = if i % 4 == 0 { kdf::tls_master(t, hm, &c, &v) } else { kdf::tls_ems(t, hm, &sh) };
                                let r = derive(s, &m, k, &dk(CKK_GENERIC_SECRET, l));
                                let got = (ver.major, ver.minor);
                                let nd = if l.is_some() && l != Some(48) || !dh && pl != 48 { Not } else { Must };
                                let good = r.is_ok();
                                let e = judge(s, r, CKK_GENERIC_SECRET, l, nd, &|n| if n == 48 { Some(out.clone()) } else { None });
                                ok(destroy(s, k), "destroy");
                                e?;
                                let want = if good && !dh { (pm[0], pm[1]) } else { (0xee, 0xee) };
                                if got != want {
                                    return Err(format!("version {:?} expected {:?}", got, want));
                                }
                                Ok(())
                            });
                        }
                    }
                }
            }
        }
        2 => {
            // key material: every small combination of sizes
            let ms = rk(48);
            let seed = [b"key expansion", &v[..], &c[..]].concat();
            let mcs: &[usize] = if th { &[0, 1, 16, 20, 32, 48, 64] } else { &[0, 20, 32] };
            for t in [CKM_TLS12_KEY_AND_MAC_DERIVE, CKM_TLS12_KEY_SAFE_DERIVE] {
                for mac in mcs {
                    for key in [16usize, 24, 32, 33] {
                        for iv in [0usize, 1, 12, 16] {
                            for kt in KTS {
                                case(w, &format!("tlskm/{:?}/{:#x}", h, t), || format!("mac{}/key{}/iv{}/{}", mac, key, iv, kt), || {
                                    let k = base(s, &ms);
                                    let (m, mat) = kdf::tls_keymat(t, hm, &c, &v, *mac, key, iv);
                                    let tm = T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, kt).b(CKA_TOKEN, false).s(CKA_LABEL, "dk");
                                    let r = derive(s, &m, k, &tm);
                                    let hs: Vec<H> = vec![mat.out.hClientMacSecret, mat.out.hServerMacSecret, mat.out.hClientKey, mat.out.hServerKey];
                                    let e = (|| {
                                        if kt == CKK_AES && key == 33 {
                                            return if r.is_ok() { Err("accepted".into()) } else { Ok(()) };
                                        }
                                        r.map_err(|e| format!("refused with {}", rvs(e)))?;
                                        let ivn = if t == CKM_TLS12_KEY_SAFE_DERIVE { 0 } else { iv };
                                        let kb = phash(h, &ms, &seed, 2 * (mac + key + ivn));
                                        let mut at = 0;
                                        for (j, n) in [*mac, *mac, key, key].into_iter().enumerate() {
                                            if n > 0 {
                                                let x = read(hs[j])?;
                                                if x != kb[at..at + n] {
                                                    return Err(format!("key {} is {} expected {}", j, hexs(&x), hexs(&kb[at..at + n])));
                                                }
                                            }
                                            at += n;
                                        }
                                        for (j, x) in [&mat.ivc, &mat.ivs].into_iter().enumerate() {
                                            if x[..ivn] != kb[at..at + ivn] || x[ivn..].iter().any(|b| *b != 0xcd) {
                                                return Err(format!("IV {} is {}", j, hexs(x)));
                                            }
                                            at += ivn;
                                        }
                                        Ok(())
                                    })();
                                    for h in hs {
                                        if h != 0 {
                                            destroy(s, h);
                                        }
                                    }
                                    destroy(s, k);
                                    let left = find(s, &T::new().s(CKA_LABEL, "dk")).map(|v| v.len()).unwrap_or(99);
                                    if left > 0 && e.is_ok() {
                                        return Err(format!("{} unexpected objects are left", left));
                                    }
                                    e
                                });
                            }
                        }
                    }
                }
            }
        }
        _ => {
            let ms = rk(48);
            for t in [CKM_TLS12_KDF, CKM_TLS_KDF] {
                for ll in [0usize, 1, 20] {
                    for cl in [0usize, 1, 50] {
                        let (label, ctx) = (msg(ll), msg(cl));
                        let seed = [&label[..], &c[..], &v[..], &ctx[..]].concat();
                        let ls = some(&[0, 1, 16, 24, h.len() - 1, h.len(), h.len() + 1, 3 * h.len() + 1]);
                        let nd = |kt, l: Option<usize>| if ll == 0 || l.is_none() { Not } else { need(kt, l, 1000) };
                        sweep(w, s, &format!("tlskdf/{:?}/{:#x}/label{}/ctx{}", h, t, ll, cl), &gk(&ms), &|| kdf::tls_kdf(t, hm, &label, &c, &v, &ctx), &ls, 0, &nd, &|n| Some(phash(h, &ms, &seed, n)));
                    }
                }
            }
        }
    }
}
fn ssh_item(w: &mut W, s: H, i: usize, th: bool) {
    let h = HASHES[i];
    for kl in if th { vec![1usize, 16, 64, 129, 300] } else { vec![1, 129] } {
        let k = rk(kl);
        for xl in [0usize, 1, h.len()] {
            for sl in [0usize, 1, h.len()] {
                let (xh, sid) = (msg(xl), msg(sl));
                for ty in b'@'..=b'G' {
                    let out = |n: usize| {
                        let mut o = h.hash(&[&k[..], &xh[..], &[ty], &sid[..]].concat());
                        while o.len() < n {
                            let b = h.hash(&[&k[..], &xh[..], &o[..]].concat());
                            o.extend(b);
                        }
                        o.truncate(n);
                        Some(o)
                    };
                    let ls = some(&[0, 1, 16, 24, h.len() - 1, h.len(), h.len() + 1, 2 * h.len() + 1, 200]);
                    let label = format!("ssh/{:?}/key{}/x{}/sid{}/{}", h, kl, xl, sl, ty as char);
                    if (b'C'..=b'F').contains(&ty) || !(b'A'..=b'F').contains(&ty) {
                        let nd = |kt, l: Option<usize>| if !(b'A'..=b'F').contains(&ty) || l.is_none() { Not } else { need(kt, l, 1000) };
                        sweep(w, s, &label, &gk(&k), &|| kdf::sshkdf(kdf::hmech(h), ty, &xh, &sid), &ls, 0, &nd, &out);
                    } else {
                        let q = QUIET.replace(true);
                        let kh = base(s, &k);
                        QUIET.set(q);
                        for l in &ls {
                            case(w, &label, || format!("data/{:?}", l), || {
                                let mut t = T::new().ul(CKA_CLASS, CKO_DATA).b(CKA_TOKEN, false).s(CKA_LABEL, "dk");
                                if let Some(l) = l {
                                    t = t.ul(CKA_VALUE_LEN, *l as CK_ULONG);
                                }
                                let nd = if l.is_none() || *l == Some(0) { Not } else { Must };
                                judge(s, derive(s, &kdf::sshkdf(kdf::hmech(h), ty, &xh, &sid), kh, &t), CK_UNAVAILABLE_INFORMATION, *l, nd, &out)
                            });
                        }
                        let q = QUIET.replace(true);
                        destroy(s, kh);
                        QUIET.set(q);
                    }
                }
            }
        }
    }
}
const PRFS: [(CK_ULONG, Ha); 7] = [
    (CKP_PKCS5_PBKD2_HMAC_SHA1, Ha::S1),
    (CKP_PKCS5_PBKD2_HMAC_SHA224, Ha::S224),
    (CKP_PKCS5_PBKD2_HMAC_SHA256, Ha::S256),
    (CKP_PKCS5_PBKD2_HMAC_SHA384, Ha::S384),
    (CKP_PKCS5_PBKD2_HMAC_SHA512, Ha::S512),
    (CKP_PKCS5_PBKD2_HMAC_SHA512_224, Ha::S512_224),
    (CKP_PKCS5_PBKD2_HMAC_SHA512_256, Ha::S512_256),
];
fn pb_item(w: &mut W, s: H, i: usize, th: bool) {
    let (prf, h) = PRFS[i];
    let pw: Vec<usize> = if th { vec![0, 1, 8, h.block() - 1, h.block(), h.block() + 1, 200] } else { vec![0, 1, h.block() + 1] };
    for pl in pw {
        for sl in [0usize, 1, 8, h.len() - 4, h.len(), 100] {
            for it in [0usize, 1, 2, 3, 17] {
                for kt in KTS {
                    for l in some(&[0, 1, 16, 24, 32, h.len() - 1, h.len(), h.len() + 1, 2 * h.len() + 1]) {
                        case(w, &format!("pbkdf2/{:?}", h), || format!("pass{}/salt{}/iter{}/{}/{:?}", pl, sl, it, kt, l), || {
                            let (p, sa) = (rk(pl), msg(sl));
                            let st = CK_PKCS5_PBKD2_PARAMS2 {
                                saltSource: CKZ_SALT_SPECIFIED,
                                pSaltSourceData: if sl > 0 { sa.as_ptr() as CK_VOID_PTR } else { std::ptr::null_mut() },
                                ulSaltSourceDataLen: sl as CK_ULONG,
                                iterations: it as CK_ULONG,
                                prf,
                                pPrfData: std::ptr::null_mut(),
                                ulPrfDataLen: 0,
                                pPassword: p.as_ptr() as *mut _,
                                ulPasswordLen: pl as CK_ULONG,
                            };
                            let m = Mech::st(CKM_PKCS5_PBKD2, st).named(&format!("PBKDF2(prf={} iter={} salt={}b pass={}b)", prf, it, sl, pl));
                            let nd = if it == 0 || l == Some(0) {
                                Not
                            } else if sl == 0 || pl == 0 || l.is_none() {
                                May
                            } else {
                                need(kt, l, 1000)
                            };
                            judge(s, gen_key(s, &m, &dk(kt, l)), kt, l, nd, &|n| Some(pbkdf2(h, &p, &sa, it, n)))
                        });
                    }
                }
            }
        }
    }
}

pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    if let Err(e) = refc::selftest() {
        eprintln!("kmc: the reference is wrong: {}", e);
        return 2;
    }
    let th = o.tier.thorough();
    let tm = Tmpl::std(sc, Db::Sqlite);
    let tr = &tm;
    let only = std::env::var("P30").ok();
    let mut stages: Vec<Stage> = vec![];
    let mut add = |n: &'static str, k: usize, f: fn(&mut W, H, usize, bool)| {
        if only.as_ref().is_some_and(|x| x != n) {
            return;
        }
        stages.push(Stage::new(n, k, move |w, i| {
            let (s, _) = crate::p12::ready(w, tr);
            f(w, s, i, th);
        }));
    };
    add("hash", HASHES.len(), hash_item);
    add("simple", SIMPLE, simple_item);
    add("aes", 6, aes_item);
    add("hkdf", HASHES.len() * 3, hkdf_item);
    add("sp108", (HASHES.len() + 1) * SPPARTS, sp_item);
    add("agree", AGREE.len(), agree_item);
    add("bad", 6, |w, s, i, _| bad_item(w, s, i));
    add("pair", 6, pair_item);
    add("tls", 44, tls_item);
    add("ssh", HASHES.len(), ssh_item);
    add("pbkdf2", PRFS.len(), pb_item);
    crate::engine::run(
        Check {
            prop: "P30",
            level: "exploration",
            rule: "exhaustive enumeration on the real library of the parameters of every derivation mechanism (hash derivation, concatenations, XOR, every bit offset of extraction, data encryption, HKDF, SP 800-108 counter and feedback with every sequence of data elements, widths and byte orders, ECDH on five curves with every KDF, DH, TLS 1.2 master, extended master, key material and KDF, SSH KDF, PBKDF2) and of the derived key's length and type; each value is compared with own implementations of the standards, each refusal must leave no object",
            assumptions: vec![
                "agreement vectors come from scripts/genagree.py, computed with integer arithmetic from the curves' definitions".into(),
                "sizes: up to some hundred bytes, and the limits of counters and length fields".into(),
            ],
            extra: vec![],
        },
        sc,
        o,
        stages,
    )
}
