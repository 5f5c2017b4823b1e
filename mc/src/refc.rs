//! Independent, slow reference implementations of the standards the token implements.
#![allow(dead_code)]

// ------------------------------------------------------------------ AES (FIPS 197)
fn xt(a: u8) -> u8 {
    (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}
fn mul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xt(a);
        b >>= 1;
    }
    r
}
struct Tab {
    s: [u8; 256],
    si: [u8; 256],
    /// products with 9, 11, 13, 14
    m: [[u8; 256]; 4],
}
fn tab() -> &'static Tab {
    static T: std::sync::OnceLock<Tab> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = Tab { s: [0; 256], si: [0; 256], m: [[0; 256]; 4] };
        for i in 0..=255u8 {
            let mut inv = 0;
            for c in 1..=255u8 {
                if mul(i, c) == 1 {
                    inv = c;
                    break;
                }
            }
            let x = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63;
            t.s[i as usize] = x;
            t.si[x as usize] = i;
            for (k, f) in [9, 11, 13, 14].iter().enumerate() {
                t.m[k][i as usize] = mul(i, *f);
            }
        }
        t
    })
}
pub struct Aes {
    rk: Vec<[u8; 16]>,
}
pub type B = [u8; 16];
impl Aes {
    pub fn new(key: &[u8]) -> Aes {
        let t = tab();
        let nk = key.len() / 4;
        let nr = nk + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rc = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut x = w[i - 1];
            if i % nk == 0 {
                x = [t.s[x[1] as usize] ^ rc, t.s[x[2] as usize], t.s[x[3] as usize], t.s[x[0] as usize]];
                rc = xt(rc);
            } else if nk > 6 && i % nk == 4 {
                x = x.map(|b| t.s[b as usize]);
            }
            let p = w[i - nk];
            w.push([x[0] ^ p[0], x[1] ^ p[1], x[2] ^ p[2], x[3] ^ p[3]]);
        }
        Aes { rk: w.chunks(4).map(|c| c.concat().try_into().unwrap()).collect() }
    }
    pub fn enc(&self, b: &B) -> B {
        let t = tab();
        let mut s = xor(b, &self.rk[0]);
        let n = self.rk.len() - 1;
        for r in 1..=n {
            let mut u = [0; 16];
            for c in 0..4 {
                for q in 0..4 {
                    u[4 * c + q] = t.s[s[4 * ((c + q) % 4) + q] as usize];
                }
            }
            if r < n {
                for c in 0..4 {
                    let a = [u[4 * c], u[4 * c + 1], u[4 * c + 2], u[4 * c + 3]];
                    for q in 0..4 {
                        u[4 * c + q] = xt(a[q]) ^ xt(a[(q + 1) % 4]) ^ a[(q + 1) % 4] ^ a[(q + 2) % 4] ^ a[(q + 3) % 4];
                    }
                }
            }
            s = xor(&u, &self.rk[r]);
        }
        s
    }
    pub fn dec(&self, b: &B) -> B {
        let t = tab();
        let n = self.rk.len() - 1;
        let mut s = xor(b, &self.rk[n]);
        for r in (0..n).rev() {
            let mut u = [0; 16];
            for c in 0..4 {
                for q in 0..4 {
                    u[4 * ((c + q) % 4) + q] = t.si[s[4 * c + q] as usize];
                }
            }
            s = xor(&u, &self.rk[r]);
            if r > 0 {
                for c in 0..4 {
                    let a = [s[4 * c], s[4 * c + 1], s[4 * c + 2], s[4 * c + 3]];
                    for q in 0..4 {
                        s[4 * c + q] = t.m[3][a[q] as usize] ^ t.m[1][a[(q + 1) % 4] as usize] ^ t.m[2][a[(q + 2) % 4] as usize] ^ t.m[0][a[(q + 3) % 4] as usize];
                    }
                }
            }
        }
        s
    }
}
pub fn xor(a: &B, b: &B) -> B {
    std::array::from_fn(|i| a[i] ^ b[i])
}
fn blk(d: &[u8]) -> B {
    let mut b = [0; 16];
    b[..d.len()].copy_from_slice(d);
    b
}
pub fn ecb(k: &[u8], d: &[u8]) -> Vec<u8> {
    let a = Aes::new(k);
    d.chunks(16).flat_map(|c| a.enc(&blk(c))).collect()
}
pub fn cbc(k: &[u8], iv: &B, d: &[u8]) -> Vec<u8> {
    let a = Aes::new(k);
    let mut p = *iv;
    d.chunks(16)
        .flat_map(|c| {
            p = a.enc(&xor(&p, &blk(c)));
            p
        })
        .collect()
}
pub fn cbc_pad(k: &[u8], iv: &B, d: &[u8]) -> Vec<u8> {
    let n = 16 - d.len() % 16;
    let mut v = d.to_vec();
    v.resize(d.len() + n, n as u8);
    cbc(k, iv, &v)
}
/// SP 800-38A addendum, CBC-CS1
pub fn cts1(k: &[u8], iv: &B, d: &[u8]) -> Vec<u8> {
    let mut c = cbc(k, iv, d);
    let r = d.len() % 16;
    if r != 0 {
        let n = c.len();
        let last = c[n - 16..].to_vec();
        c.truncate(n - 32 + r);
        c.extend(last);
    }
    c
}
pub fn inc(b: &mut B, bits: usize) {
    let mut v = u128::from_be_bytes(*b);
    let m = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    v = (v & !m) | (v.wrapping_add(1) & m);
    *b = v.to_be_bytes();
}
pub fn ctr(k: &[u8], cb: &B, bits: usize, d: &[u8]) -> Vec<u8> {
    let a = Aes::new(k);
    let mut c = *cb;
    let mut o = vec![];
    for x in d.chunks(16) {
        let s = a.enc(&c);
        o.extend(x.iter().zip(s).map(|(p, q)| p ^ q));
        inc(&mut c, bits);
    }
    o
}
pub fn ofb(k: &[u8], iv: &B, d: &[u8]) -> Vec<u8> {
    let a = Aes::new(k);
    let mut c = *iv;
    let mut o = vec![];
    for x in d.chunks(16) {
        c = a.enc(&c);
        o.extend(x.iter().zip(c).map(|(p, q)| p ^ q));
    }
    o
}
pub fn cfb128(k: &[u8], iv: &B, d: &[u8]) -> Vec<u8> {
    let a = Aes::new(k);
    let mut c = *iv;
    let mut o = vec![];
    for x in d.chunks(16) {
        let s = a.enc(&c);
        let y: Vec<u8> = x.iter().zip(s).map(|(p, q)| p ^ q).collect();
        c = blk(&y);
        o.extend(y);
    }
    o
}
pub fn cfb8(k: &[u8], iv: &B, d: &[u8]) -> Vec<u8> {
    let a = Aes::new(k);
    let mut c = *iv;
    d.iter()
        .map(|p| {
            let y = p ^ a.enc(&c)[0];
            c.copy_within(1.., 0);
            c[15] = y;
            y
        })
        .collect()
}
pub fn cfb1(k: &[u8], iv: &B, d: &[u8]) -> Vec<u8> {
    let a = Aes::new(k);
    let mut c = u128::from_be_bytes(*iv);
    d.iter()
        .map(|p| {
            let mut y = 0;
            for i in (0..8).rev() {
                let b = (p >> i & 1) ^ (a.enc(&c.to_be_bytes())[0] >> 7);
                y |= b << i;
                c = c << 1 | b as u128;
            }
            y
        })
        .collect()
}
fn gmul(x: u128, y: u128) -> u128 {
    let (mut z, mut v) = (0u128, y);
    for i in (0..128).rev() {
        if x >> i & 1 == 1 {
            z ^= v;
        }
        v = if v & 1 == 1 { v >> 1 ^ (0xe1u128 << 120) } else { v >> 1 };
    }
    z
}
fn ghash(h: u128, parts: &[&[u8]]) -> u128 {
    let mut y = 0;
    for p in parts {
        for c in p.chunks(16) {
            y = gmul(y ^ u128::from_be_bytes(blk(c)), h);
        }
    }
    y
}
/// ciphertext and full tag (SP 800-38D)
pub fn gcm(k: &[u8], iv: &[u8], aad: &[u8], d: &[u8]) -> (Vec<u8>, B) {
    let a = Aes::new(k);
    let h = u128::from_be_bytes(a.enc(&[0; 16]));
    let lens = |x: usize, y: usize| ((x as u128 * 8) << 64 | (y as u128 * 8)).to_be_bytes();
    let j0 = if iv.len() == 12 {
        let mut b = blk(iv);
        b[15] = 1;
        b
    } else {
        ghash(h, &[iv, &lens(0, iv.len())]).to_be_bytes()
    };
    let mut c0 = j0;
    inc(&mut c0, 32);
    let c = ctr(k, &c0, 32, d);
    let s = ghash(h, &[aad, &c, &lens(aad.len(), c.len())]).to_be_bytes();
    let t = xor(&s, &a.enc(&j0));
    (c, t)
}
/// ciphertext and tag (SP 800-38C)
pub fn ccm(k: &[u8], n: &[u8], aad: &[u8], d: &[u8], tl: usize) -> (Vec<u8>, Vec<u8>) {
    let a = Aes::new(k);
    let q = 15 - n.len();
    let mut b0 = [0u8; 16];
    b0[0] = (if aad.is_empty() { 0 } else { 0x40 }) | ((tl as u8 - 2) / 2) << 3 | (q as u8 - 1);
    b0[1..1 + n.len()].copy_from_slice(n);
    let l = (d.len() as u128).to_be_bytes();
    b0[16 - q..].copy_from_slice(&l[16 - q..]);
    let mut y = a.enc(&b0);
    let mut ab = vec![];
    if !aad.is_empty() {
        if aad.len() < 0xff00 {
            ab.extend((aad.len() as u16).to_be_bytes());
        } else {
            ab.extend([0xff, 0xfe]);
            ab.extend((aad.len() as u32).to_be_bytes());
        }
        ab.extend(aad);
    }
    for c in ab.chunks(16).chain(d.chunks(16)) {
        y = a.enc(&xor(&y, &blk(c)));
    }
    let mut c0 = [0u8; 16];
    c0[0] = q as u8 - 1;
    c0[1..1 + n.len()].copy_from_slice(n);
    let t = xor(&y, &a.enc(&c0))[..tl].to_vec();
    inc(&mut c0, 8 * q);
    (ctr(k, &c0, 8 * q, d), t)
}
/// RFC 3394
pub fn kw(k: &[u8], d: &[u8], iv: [u8; 8]) -> Vec<u8> {
    let a = Aes::new(k);
    let n = d.len() / 8;
    let mut x = iv;
    let mut r: Vec<[u8; 8]> = d.chunks(8).map(|c| c.try_into().unwrap()).collect();
    for j in 0..6 {
        for i in 0..n {
            let mut b = [0; 16];
            b[..8].copy_from_slice(&x);
            b[8..].copy_from_slice(&r[i]);
            let e = a.enc(&b);
            let t = ((n * j + i + 1) as u64).to_be_bytes();
            x = std::array::from_fn(|q| e[q] ^ t[q]);
            r[i].copy_from_slice(&e[8..]);
        }
    }
    let mut o = x.to_vec();
    o.extend(r.concat());
    o
}
/// RFC 5649
pub fn kwp(k: &[u8], d: &[u8]) -> Vec<u8> {
    let mut v = d.to_vec();
    v.resize(d.len().div_ceil(8) * 8, 0);
    let mut iv = [0xa6, 0x59, 0x59, 0xa6, 0, 0, 0, 0];
    iv[4..].copy_from_slice(&(d.len() as u32).to_be_bytes());
    if v.len() == 8 {
        let mut b = [0; 16];
        b[..8].copy_from_slice(&iv);
        b[8..].copy_from_slice(&v);
        return Aes::new(k).enc(&b).to_vec();
    }
    kw(k, &v, iv)
}
fn dbl(b: &B) -> B {
    let v = u128::from_be_bytes(*b);
    (v << 1 ^ if v >> 127 == 1 { 0x87 } else { 0 }).to_be_bytes()
}
pub fn cmac(k: &[u8], d: &[u8]) -> B {
    let a = Aes::new(k);
    let k1 = dbl(&a.enc(&[0; 16]));
    let k2 = dbl(&k1);
    let n = d.len().div_ceil(16).max(1);
    let mut y = [0; 16];
    for i in 0..n {
        let c = &d[16 * i..d.len().min(16 * i + 16)];
        let mut b = blk(c);
        if i == n - 1 {
            b = if c.len() == 16 {
                xor(&b, &k1)
            } else {
                b[c.len()] = 0x80;
                xor(&b, &k2)
            };
        }
        y = a.enc(&xor(&y, &b));
    }
    y
}
/// CBC-MAC over zero padded blocks
pub fn cbcmac(k: &[u8], d: &[u8]) -> B {
    let a = Aes::new(k);
    let mut y = [0; 16];
    for c in d.chunks(16) {
        y = a.enc(&xor(&y, &blk(c)));
    }
    y
}

// ------------------------------------------------------------------ hashes
fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let mut c = 2;
    while v.len() < n {
        if v.iter().all(|p| c % p != 0) {
            v.push(c);
        }
        c += 1;
    }
    v
}
/// first 64 bits of the fractional part of the square (2) or cube (3) root of p
fn frac(p: u64, root: u32) -> u64 {
    // floor(root(p) * 2^64) by bisection on 256-bit arithmetic
    let (mut lo, mut hi) = (0u128, 1u128 << 72);
    let le = |x: u128| -> bool {
        // x^root <= p << (64*root)
        let limbs = |v: u128| vec![v as u32 as u64, (v >> 32) as u32 as u64, (v >> 64) as u32 as u64, (v >> 96) as u64];
        let mulv = |a: &[u64], b: &[u64]| {
            let mut r = vec![0u64; a.len() + b.len() + 1];
            for (i, x) in a.iter().enumerate() {
                let mut c = 0u64;
                for (j, y) in b.iter().enumerate() {
                    let t = x * y + r[i + j] + c;
                    r[i + j] = t & 0xffff_ffff;
                    c = t >> 32;
                }
                let mut q = i + b.len();
                while c > 0 {
                    let t = r[q] + c;
                    r[q] = t & 0xffff_ffff;
                    c = t >> 32;
                    q += 1;
                }
            }
            r
        };
        let mut r = limbs(x);
        for _ in 1..root {
            r = mulv(&r, &limbs(x));
        }
        let mut q = vec![0u64; 2 * root as usize];
        q.extend([p]);
        while q.len() < r.len() {
            q.push(0);
        }
        while r.len() < q.len() {
            r.push(0);
        }
        for i in (0..r.len()).rev() {
            if r[i] != q[i] {
                return r[i] < q[i];
            }
        }
        true
    };
    while hi - lo > 1 {
        let m = (lo + hi) / 2;
        if le(m) {
            lo = m
        } else {
            hi = m
        }
    }
    lo as u64
}
struct K {
    k: Vec<u64>,
    h: Vec<u64>,
    h384: Vec<u64>,
}
fn consts() -> &'static K {
    static T: std::sync::OnceLock<K> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let p = primes(80);
        K {
            k: p.iter().map(|x| frac(*x, 3)).collect(),
            h: p[..8].iter().map(|x| frac(*x, 2)).collect(),
            h384: p[8..16].iter().map(|x| frac(*x, 2)).collect(),
        }
    })
}
fn padded(d: &[u8], block: usize, lenb: usize) -> Vec<u8> {
    let mut v = d.to_vec();
    v.push(0x80);
    while v.len() % block != block - lenb {
        v.push(0);
    }
    let l = ((d.len() as u128) * 8).to_be_bytes();
    v.extend(&l[16 - lenb..]);
    v
}
pub fn sha1(d: &[u8]) -> Vec<u8> {
    let mut h = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    for c in padded(d, 64, 8).chunks(64) {
        let mut w: Vec<u32> = c.chunks(4).map(|x| u32::from_be_bytes(x.try_into().unwrap())).collect();
        for i in 16..80 {
            w.push((w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1));
        }
        let [mut a, mut b, mut cc, mut dd, mut e] = h;
        for (i, x) in w.iter().enumerate() {
            let (f, k) = match i / 20 {
                0 => ((b & cc) | (!b & dd), 0x5a827999),
                1 => (b ^ cc ^ dd, 0x6ed9eba1),
                2 => ((b & cc) | (b & dd) | (cc & dd), 0x8f1bbcdc),
                _ => (b ^ cc ^ dd, 0xca62c1d6u32),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*x);
            e = dd;
            dd = cc;
            cc = b.rotate_left(30);
            b = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b, cc, dd, e]) {
            *x = x.wrapping_add(y);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}
fn sha2_32(d: &[u8], iv: [u32; 8]) -> Vec<u8> {
    let k = &consts().k;
    let mut h = iv;
    for c in padded(d, 64, 8).chunks(64) {
        let mut w: Vec<u32> = c.chunks(4).map(|x| u32::from_be_bytes(x.try_into().unwrap())).collect();
        for i in 16..64 {
            let (a, b) = (w[i - 15], w[i - 2]);
            let s0 = a.rotate_right(7) ^ a.rotate_right(18) ^ a >> 3;
            let s1 = b.rotate_right(17) ^ b.rotate_right(19) ^ b >> 10;
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h;
        for i in 0..64 {
            let [a, b, c, _, e, f, g, hh] = v;
            let s1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
            let t1 = hh.wrapping_add(s1).wrapping_add((e & f) ^ (!e & g)).wrapping_add((k[i] >> 32) as u32).wrapping_add(w[i]);
            let s0 = a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
            let t2 = s0.wrapping_add((a & b) ^ (a & c) ^ (b & c));
            v = [t1.wrapping_add(t2), a, b, c, v[3].wrapping_add(t1), e, f, g];
        }
        for (x, y) in h.iter_mut().zip(v) {
            *x = x.wrapping_add(y);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}
fn sha2_64(d: &[u8], iv: [u64; 8]) -> Vec<u8> {
    let k = &consts().k;
    let mut h = iv;
    for c in padded(d, 128, 16).chunks(128) {
        let mut w: Vec<u64> = c.chunks(8).map(|x| u64::from_be_bytes(x.try_into().unwrap())).collect();
        for i in 16..80 {
            let (a, b) = (w[i - 15], w[i - 2]);
            let s0 = a.rotate_right(1) ^ a.rotate_right(8) ^ a >> 7;
            let s1 = b.rotate_right(19) ^ b.rotate_right(61) ^ b >> 6;
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h;
        for i in 0..80 {
            let [a, b, c, _, e, f, g, hh] = v;
            let s1 = e.rotate_right(14) ^ e.rotate_right(18) ^ e.rotate_right(41);
            let t1 = hh.wrapping_add(s1).wrapping_add((e & f) ^ (!e & g)).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = a.rotate_right(28) ^ a.rotate_right(34) ^ a.rotate_right(39);
            let t2 = s0.wrapping_add((a & b) ^ (a & c) ^ (b & c));
            v = [t1.wrapping_add(t2), a, b, c, v[3].wrapping_add(t1), e, f, g];
        }
        for (x, y) in h.iter_mut().zip(v) {
            *x = x.wrapping_add(y);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}
fn arr<T: Copy, const N: usize>(v: impl Iterator<Item = T>) -> [T; N] {
    let x: Vec<T> = v.collect();
    std::array::from_fn(|i| x[i])
}
fn sha512t(d: &[u8], t: usize) -> Vec<u8> {
    let c = consts();
    let iv = sha2_64(format!("SHA-512/{}", t).as_bytes(), arr(c.h.iter().map(|x| x ^ 0xa5a5a5a5a5a5a5a5)));
    let mut o = sha2_64(d, arr(iv.chunks(8).map(|x| u64::from_be_bytes(x.try_into().unwrap()))));
    o.truncate(t / 8);
    o
}
fn keccak(s: &mut [u64; 25]) {
    let mut lfsr = 1u8;
    for _ in 0..24 {
        let c: [u64; 5] = std::array::from_fn(|x| s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20]);
        for i in 0..25 {
            s[i] ^= c[(i + 4) % 5] ^ c[(i % 5 + 1) % 5].rotate_left(1);
        }
        let (mut x, mut y) = (1usize, 0usize);
        let mut cur = s[1];
        for t in 0..24u32 {
            let ny = (2 * x + 3 * y) % 5;
            x = y;
            y = ny;
            let tmp = s[x + 5 * y];
            s[x + 5 * y] = cur.rotate_left((t + 1) * (t + 2) / 2 % 64);
            cur = tmp;
        }
        for y in 0..5 {
            let r: [u64; 5] = std::array::from_fn(|x| s[5 * y + x]);
            for x in 0..5 {
                s[5 * y + x] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]);
            }
        }
        for j in 0..7 {
            if lfsr & 1 == 1 {
                s[0] ^= 1u64 << ((1u32 << j) - 1);
            }
            lfsr = xtl(lfsr);
        }
    }
}
fn xtl(a: u8) -> u8 {
    (a << 1) ^ if a & 0x80 != 0 { 0x71 } else { 0 }
}
fn sha3(d: &[u8], bits: usize) -> Vec<u8> {
    let rate = 200 - bits / 4;
    let mut v = d.to_vec();
    v.push(6);
    while v.len() % rate != 0 {
        v.push(0);
    }
    *v.last_mut().unwrap() |= 0x80;
    let mut s = [0u64; 25];
    for c in v.chunks(rate) {
        for (i, x) in c.chunks(8).enumerate() {
            s[i] ^= u64::from_le_bytes(x.try_into().unwrap());
        }
        keccak(&mut s);
    }
    let mut o: Vec<u8> = s.iter().flat_map(|x| x.to_le_bytes()).collect();
    o.truncate(bits / 8);
    o
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ha {
    S1,
    S224,
    S256,
    S384,
    S512,
    S512_224,
    S512_256,
    K224,
    K256,
    K384,
    K512,
}
pub const HASHES: [Ha; 11] = [Ha::S1, Ha::S224, Ha::S256, Ha::S384, Ha::S512, Ha::S512_224, Ha::S512_256, Ha::K224, Ha::K256, Ha::K384, Ha::K512];
impl Ha {
    pub fn block(self) -> usize {
        match self {
            Ha::S1 | Ha::S224 | Ha::S256 => 64,
            Ha::S384 | Ha::S512 | Ha::S512_224 | Ha::S512_256 => 128,
            Ha::K224 => 144,
            Ha::K256 => 136,
            Ha::K384 => 104,
            Ha::K512 => 72,
        }
    }
    pub fn len(self) -> usize {
        match self {
            Ha::S1 => 20,
            Ha::S224 | Ha::S512_224 | Ha::K224 => 28,
            Ha::S256 | Ha::S512_256 | Ha::K256 => 32,
            Ha::S384 | Ha::K384 => 48,
            Ha::S512 | Ha::K512 => 64,
        }
    }
    pub fn hash(self, d: &[u8]) -> Vec<u8> {
        let c = consts();
        match self {
            Ha::S1 => sha1(d),
            Ha::S224 => {
                let mut o = sha2_32(d, arr(c.h384.iter().map(|x| *x as u32)));
                o.truncate(28);
                o
            }
            Ha::S256 => sha2_32(d, arr(c.h.iter().map(|x| (x >> 32) as u32))),
            Ha::S384 => {
                let mut o = sha2_64(d, arr(c.h384.iter().copied()));
                o.truncate(48);
                o
            }
            Ha::S512 => sha2_64(d, arr(c.h.iter().copied())),
            Ha::S512_224 => sha512t(d, 224),
            Ha::S512_256 => sha512t(d, 256),
            Ha::K224 => sha3(d, 224),
            Ha::K256 => sha3(d, 256),
            Ha::K384 => sha3(d, 384),
            Ha::K512 => sha3(d, 512),
        }
    }
    pub fn hmac(self, k: &[u8], d: &[u8]) -> Vec<u8> {
        let mut kk = if k.len() > self.block() { self.hash(k) } else { k.to_vec() };
        kk.resize(self.block(), 0);
        let mut i: Vec<u8> = kk.iter().map(|x| x ^ 0x36).collect();
        i.extend(d);
        let h = self.hash(&i);
        let mut o: Vec<u8> = kk.iter().map(|x| x ^ 0x5c).collect();
        o.extend(h);
        self.hash(&o)
    }
}
fn hx(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// published vectors: the references are checked before they judge anything
pub fn selftest() -> Result<(), String> {
    let mut bad = vec![];
    let mut t = |n: &str, a: &[u8], b: &str| {
        if a != hx(b) {
            bad.push(format!("{}: {}", n, crate::api::hex(a)));
        }
    };
    let pt = hx("00112233445566778899aabbccddeeff");
    let k = |n: u8| (0..n).collect::<Vec<u8>>();
    t("aes128", &ecb(&k(16), &pt), "69c4e0d86a7b0430d8cdb78070b4c55a");
    t("aes192", &ecb(&k(24), &pt), "dda97ca4864cdfe06eaf70a0ec0d7191");
    t("aes256", &ecb(&k(32), &pt), "8ea2b7ca516745bfeafc49904b496089");
    let b: B = ecb(&k(32), &pt).try_into().unwrap();
    t("aes256 dec", &Aes::new(&k(32)).dec(&b), "00112233445566778899aabbccddeeff");
    t("sha1", &Ha::S1.hash(b"abc"), "a9993e364706816aba3e25717850c26c9cd0d89d");
    t("sha224", &Ha::S224.hash(b"abc"), "23097d223405d8228642a477bda255b32aadbce4bda0b3f7e36c9da7");
    t("sha256", &Ha::S256.hash(b"abc"), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
    t("sha512", &Ha::S512.hash(b"abc")[..16], "ddaf35a193617abacc417349ae204131");
    t("sha384", &Ha::S384.hash(b"abc")[..16], "cb00753f45a35e8bb5a03d699ac65007");
    t("sha512/256", &Ha::S512_256.hash(b"abc")[..16], "53048e2681941ef99b2e29b76b4c7dab");
    t("sha3-256", &Ha::K256.hash(b"abc")[..16], "3a985da74fe225b2045c172d6bd390bd");
    t("sha3-512", &Ha::K512.hash(b"")[..16], "a69f73cca23a9ac5c8b567dc185a756e");
    let rfc = hx("2b7e151628aed2a6abf7158809cf4f3c");
    t("cmac0", &cmac(&rfc, b""), "bb1d6929e95937287fa37d129b756746");
    t("cmac16", &cmac(&rfc, &hx("6bc1bee22e409f96e93d7e117393172a")), "070a16b46b4d4144f79bdd9dd04a287c");
    t("gcm", &gcm(&[0; 16], &[0; 12], &[], &[0; 16]).0, "0388dace60b6a392f328c2b971b2fe78");
    t("gcm tag", &gcm(&[0; 16], &[0; 12], &[], &[0; 16]).1, "ab6e47d42cec13bdf53a67b21257bddf");
    let (c, m) = ccm(&hx("404142434445464748494a4b4c4d4e4f"), &hx("10111213141516"), &hx("0001020304050607"), &hx("20212223"), 4);
    t("ccm", &c, "7162015b");
    t("ccm tag", &m, "4dac255d");
    t("kw", &kw(&k(16), &pt, [0xa6; 8]), "1fa68b0a8112b447aef34bd8fb5a7b829d3e862371d2cfe5");
    t("kwp", &kwp(&hx("5840df6e29b02af1ab493b705bf16ea1ae8338f4dcc176a8"), &hx("466f7250617369")), "afbeb0f07dfbf5419200f2ccb50bb24f");
    t("hmac256", &Ha::S256.hmac(b"Jefe", b"what do ya want for nothing?")[..16], "5bdcc146bf60754e6a042426089575c7");
    if bad.is_empty() { Ok(()) } else { Err(bad.join("; ")) }
}
