//! P15: altered ciphertexts, tags and signatures are never accepted
use crate::api::*;
use crate::cry::*;
use crate::engine::*;
use crate::env::*;
use crate::keys::*;
use crate::mesg::*;
use crate::p13::{KEY32, case, msg, ready};
use crate::p14::{NMACS, Sg, der, fed, guarded, macs, sgm, z};
use crate::refc;
use kryoptic_lib::pkcs11::*;

/// every single-bit change, every truncation, some extensions
fn muts(d: &[u8], each: &mut dyn FnMut(String, &[u8])) {
    let mut m = d.to_vec();
    for b in 0..8 * d.len() {
        m[b / 8] ^= 1 << (b % 8);
        each(format!("bit {}", b), &m);
        m[b / 8] ^= 1 << (b % 8);
    }
    for n in 0..d.len() {
        each(format!("cut to {}", n), &d[..n]);
        if n > 0 {
            each(format!("first {} removed", n), &d[n..]);
        }
    }
    for x in [&[0u8][..], &[1], &[0x80], &[0, 0], &[0; 16]] {
        each(format!("{} appended", hex(x)), &[d, x].concat());
        each(format!("{} in front", hex(x)), &[x, d].concat());
    }
    if d.len() > 1 {
        let z = vec![0; d.len()];
        if z != d {
            each("all zero".into(), &z);
        }
        let f = vec![0xff; d.len()];
        if f != d {
            each("all ones".into(), &f);
        }
        let mut r = d.to_vec();
        r.rotate_left(1);
        if r != d {
            each("rotated".into(), &r);
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Way {
    One,
    Multi,
    Sig,
    SigMulti,
}
/// verification of a forged pair is refused, and what failed cannot be continued
fn forged(s: H, m: &Mech, k: H, d: &[u8], sig: &[u8], good: (&[u8], &[u8]), way: Way) -> Result<(), String> {
    guarded(s, &[Kd::Ver, Kd::Vsig], || {
        let rv = match way {
            Way::One => {
                z(verify_init(s, m, k), "verify init")?;
                verify(s, d, sig)
            }
            Way::Multi => {
                z(verify_init(s, m, k), "verify init")?;
                let h = d.len() / 2;
                for p in fed(d, &[h, d.len() - h]) {
                    z(verify_update(s, p), "verify update")?;
                }
                verify_final(s, sig)
            }
            _ => {
                let rv = vsig_init(s, m, k, sig);
                if rv != 0 {
                    rv
                } else if way == Way::Sig {
                    vsig(s, d)
                } else {
                    let h = d.len() / 2;
                    for p in fed(d, &[h, d.len() - h]) {
                        z(vsig_update(s, p), "verify signature update")?;
                    }
                    vsig_final(s)
                }
            }
        };
        if rv == CKR_OK {
            return Err(format!("accepted ({:?})", way));
        }
        if rv == CKR_DEVICE_ERROR || rv == CKR_GENERAL_ERROR || rv == CKR_HOST_MEMORY {
            return Err(format!("reported as {} ({:?})", rvs(rv), way));
        }
        // nothing is left to continue with
        let (a, b) = match way {
            Way::One | Way::Multi => (verify_update(s, good.0), verify_final(s, good.1)),
            _ => (vsig_update(s, good.0), vsig_final(s)),
        };
        if a != CKR_OPERATION_NOT_INITIALIZED || b != CKR_OPERATION_NOT_INITIALIZED {
            return Err(format!("after the failure the operation continues: {} {} ({:?})", rvs(a), rvs(b), way));
        }
        Ok(())
    })
}
fn genuine(s: H, m: &Mech, k: H, d: &[u8], sig: &[u8], way: Way) -> Result<(), String> {
    guarded(s, &[Kd::Ver, Kd::Vsig], || match way {
        Way::One => {
            z(verify_init(s, m, k), "verify init")?;
            z(verify(s, d, sig), "verify of the genuine signature")
        }
        Way::Multi => {
            z(verify_init(s, m, k), "verify init")?;
            z(verify_update(s, d), "update")?;
            z(verify_final(s, sig), "verify of the genuine signature")
        }
        Way::Sig => {
            z(vsig_init(s, m, k, sig), "verify signature init")?;
            z(vsig(s, d), "verify of the genuine signature")
        }
        Way::SigMulti => {
            z(vsig_init(s, m, k, sig), "verify signature init")?;
            z(vsig_update(s, d), "update")?;
            z(vsig_final(s), "verify of the genuine signature")
        }
    })
}
// ------------------------------------------------------------------ authenticated encryption
#[derive(Clone, Debug)]
struct Ae {
    ccm: bool,
    k: usize,
    iv: Vec<u8>,
    aad: Vec<u8>,
    tl: usize,
    d: Vec<u8>,
    tag: Vec<u8>,
}
fn aeref(ccm: bool, k: &[u8], iv: &[u8], aad: &[u8], d: &[u8], tl: usize) -> (Vec<u8>, Vec<u8>) {
    if ccm {
        refc::ccm(k, iv, aad, d, tl)
    } else {
        let (c, g) = refc::gcm(k, iv, aad, d);
        (c, g[..tl].to_vec())
    }
}
impl Ae {
    fn key(&self) -> &[u8] {
        &KEY32[..[16, 24, 32][self.k]]
    }
    /// would the standard accept this? (true collisions of short tags)
    fn authentic(&self) -> bool {
        if self.ccm && !(7..=13).contains(&self.iv.len()) || self.iv.is_empty() {
            return false;
        }
        let zero = vec![0; self.d.len()];
        let ks = aeref(self.ccm, self.key(), &self.iv, &self.aad, &zero, self.tl).0;
        let p: Vec<u8> = self.d.iter().zip(ks).map(|(a, b)| a ^ b).collect();
        aeref(self.ccm, self.key(), &self.iv, &self.aad, &p, self.tl).1 == self.tag
    }
    fn mech(&self) -> Mech {
        if self.ccm { ccm(self.d.len(), &self.iv, &self.aad, self.tl) } else { gcm(&self.iv, &self.aad, 8 * self.tl as CK_ULONG) }
    }
    /// decryption of a forgery by C_Decrypt, in parts, and as a message
    fn refused(&self, s: H, key: H, pt: &[u8], way: usize) -> Result<(), String> {
        let shows = |x: &str| if pt.len() >= 8 && lastbuf_shows(&pt[..8]) { Err(format!("{} delivered plaintext", x)) } else { Ok(()) };
        let ct = [&self.d[..], &self.tag].concat();
        let not = |rv: Rv, x: &str| if rv == CKR_OK { Err(format!("{} accepted the forgery", x)) } else { Ok(()) };
        if way < 4 {
            return guarded(s, &[Kd::Dec], || {
                let rv = decrypt_init(s, &self.mech(), key);
                if rv != 0 {
                    return Ok(());
                }
                if way == 0 {
                    let o = decrypt(s, &ct, Some(ct.len() + 16));
                    not(o.rv, "C_Decrypt")?;
                    shows("C_Decrypt")?;
                } else {
                    let h = [0, 0, ct.len() / 2, ct.len().saturating_sub(1)][way];
                    let mut bad = false;
                    for p in fed(&ct, &[h, ct.len() - h]) {
                        if decrypt_update(s, p, Some(ct.len() + 16)).rv != 0 {
                            bad = true;
                            break;
                        }
                    }
                    if !bad {
                        not(decrypt_final(s, Some(64)).rv, "C_DecryptFinal")?;
                    }
                }
                let (a, b) = (decrypt_update(s, &ct, Some(ct.len() + 16)).rv, decrypt_final(s, Some(64)).rv);
                if a != CKR_OPERATION_NOT_INITIALIZED || b != CKR_OPERATION_NOT_INITIALIZED {
                    return Err(format!("after the failure the operation continues: {} {}", rvs(a), rvs(b)));
                }
                Ok(())
            });
        }
        if self.d.is_empty() || self.tag.len() != self.tl {
            return Ok(());
        }
        let r = (|| {
            let mut p = Mp::new(self.ccm, &self.iv, self.tl, self.d.len());
            z(minit(s, false, p.t(), key), "message init")?;
            p.tag = self.tag.clone();
            if way == 4 {
                not(mone(s, false, &mut p, &self.aad, &self.d, Some(self.d.len() + 16)).rv, "C_DecryptMessage")?;
                shows("C_DecryptMessage")?;
            } else {
                if mbegin(s, false, &mut p, &self.aad) != 0 {
                    return Ok(());
                }
                let h = self.d.len() / 2;
                if h > 0 && mnext(s, false, &mut p, &self.d[..h], Some(64), false).rv != 0 {
                    return Ok(());
                }
                not(mnext(s, false, &mut p, &self.d[h..], Some(64), true).rv, "C_DecryptMessageNext")?;
            }
            not(mnext(s, false, &mut p, &self.d, Some(64), true).rv, "C_DecryptMessageNext after the failure")
        })();
        mcancel(s, false);
        r
    }
    fn forgeries(&self, each: &mut dyn FnMut(String, Ae)) {
        let all = [&self.d[..], &self.tag].concat();
        let n = self.d.len();
        // the data and the tag, as one string; parameters for the announced length follow the data
        muts(&all, &mut |x, m| {
            if m.len() < self.tl {
                return;
            }
            let mut a = self.clone();
            a.d = m[..m.len() - self.tl].to_vec();
            a.tag = m[m.len() - self.tl..].to_vec();
            each(format!("ciphertext {}", x), a);
        });
        muts(&self.iv, &mut |x, m| {
            let mut a = self.clone();
            a.iv = m.to_vec();
            each(format!("iv {}", x), a);
        });
        muts(&self.aad, &mut |x, m| {
            let mut a = self.clone();
            a.aad = m.to_vec();
            each(format!("aad {}", x), a);
        });
        muts(&self.d, &mut |x, m| {
            if m.len() == n {
                return;
            }
            let mut a = self.clone();
            a.d = m.to_vec();
            each(format!("data {} with the tag kept", x), a);
        });
        // the additional data moved into the message and back
        if !self.aad.is_empty() {
            let mut a = self.clone();
            a.d = [&self.aad[..], &self.d].concat();
            a.aad.clear();
            each("aad as data".into(), a);
        }
    }
}

pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    if let Err(e) = refc::selftest() {
        eprintln!("reference self test failed: {}", e);
        return 2;
    }
    let th = o.tier.thorough();
    let tm = Tmpl::std(sc, Db::Sqlite);
    let tr = &tm;
    // (ccm, key, iv length, aad length, data length, tag length)
    let mut aes: Vec<(bool, usize, usize, usize, usize, usize)> = vec![];
    for ccm in [false, true] {
        for k in 0..3 {
            for d in [0, 1, 15, 16, 17, 33] {
                if ccm && d == 0 {
                    continue;
                }
                for a in [0, 1, 20] {
                    aes.push((ccm, k, 12, a, d, 16));
                }
                aes.push((ccm, k, 7, 5, d, 8));
            }
            for t in if ccm { vec![4, 6, 8, 10, 12, 14] } else { vec![1, 2, 4, 8, 12, 13, 14, 15] } {
                aes.push((ccm, k, 12, 20, 20, t));
            }
            for i in if ccm { vec![8, 9, 10, 11, 13] } else { vec![1, 8, 13, 16, 17, 60] } {
                aes.push((ccm, k, i, 20, 20, 16));
            }
        }
    }
    let aer = &aes;
    let stages = vec![
        Stage::new("mac", NMACS, move |w: &mut W, i| {
            let (s, aes, _) = ready(w, tr);
            let q = QUIET.replace(true);
            let v = macs(i, s, &aes);
            QUIET.set(q);
            for mac in &v {
                let label = format!("mac {}", mac.name);
                w.begin(&label);
                for l in if th { vec![0, 1, 16, 20, 64, 65] } else { vec![0, 20] } {
                    let m = msg(l);
                    let g = (mac.want)(&m);
                    let q = QUIET.replace(true);
                    let vs = vsig_init(s, &mac.mech, mac.key, &g) == CKR_OK;
                    Kd::Vsig.null_init(s);
                    QUIET.set(q);
                    let ways: &[Way] = if vs { &[Way::One, Way::Multi, Way::Sig, Way::SigMulti] } else { &[Way::One, Way::Multi] };
                    for way in ways {
                        case(w, &label, || format!("len {} genuine {:?}", l, way), || genuine(s, &mac.mech, mac.key, &m, &g, *way));
                        muts(&g, &mut |x, f| {
                            case(w, &label, || format!("len {} mac {} {:?}", l, x, way), || forged(s, &mac.mech, mac.key, &m, f, (&m, &g), *way));
                        });
                        muts(&m, &mut |x, f| {
                            if (mac.want)(f) != g {
                                case(w, &label, || format!("len {} data {} {:?}", l, x, way), || forged(s, &mac.mech, mac.key, f, &g, (&m, &g), *way));
                            }
                        });
                        w.distinct(&(&mac.name, l, *way as usize));
                    }
                }
            }
            if i < 66 {
                let q = QUIET.replace(true);
                destroy(s, v[0].key);
                QUIET.set(q);
            }
        }),
        // every bit of the key
        Stage::new("key", 8, move |w: &mut W, i| {
            let (s, _, ks) = ready(w, tr);
            let names = ["SHA256_HMAC", "SHA_1_HMAC", "SHA3_512_HMAC", "AES_CMAC", "AES_MAC", "AES_GCM", "AES_CCM", "SHA256_HMAC_GENERAL"];
            let c = cm(names[i]);
            let label = format!("key {}", c.name);
            w.begin(&label);
            let m = msg(20);
            let (kd, vd) = if c.aead { (Kd::Enc, Kd::Dec) } else { (Kd::Sign, Kd::Ver) };
            let q = QUIET.replace(true);
            ok(kd.init(s, &c.mech(20), c.key(&ks, kd), &[]), "init");
            let g = okr(kd.one(s, &m, &[], Some(100)).ok(), "tag");
            QUIET.set(q);
            let kv: &[u8] = if c.key == Ky::Aes { &AESK } else { &GENK };
            muts(kv, &mut |x, f| {
                if c.key == Ky::Aes && ![16, 24, 32].contains(&f.len()) || f.is_empty() {
                    return;
                }
                // trailing zeros do not change an HMAC key
                let t = |v: &[u8]| v.iter().rposition(|b| *b != 0).map(|p| v[..=p].to_vec());
                if c.key == Ky::Gen && t(f) == t(kv) {
                    return;
                }
                case(w, &label, || x.clone(), || {
                    let kt = if c.key == Ky::Aes { CKK_AES } else { CKK_GENERIC_SECRET };
                    let tm = if c.key == Ky::Aes { aeskey(false, false, "x", f) } else { seckey(kt, false, false, "x", f) };
                    let k = create(s, &tm.b(CKA_VERIFY, true)).map_err(|r| format!("create returned {}", rvs(r)))?;
                    let r = guarded(s, &[vd], || {
                        z(vd.init(s, &c.mech(20), k, &[]), "init")?;
                        let rv = if c.aead { vd.one(s, &g, &[], Some(100)).rv } else { vd.one(s, &m, &g, None).rv };
                        if rv == 0 { Err("accepted under another key".to_string()) } else { Ok(()) }
                    });
                    destroy(s, k);
                    r
                });
                w.distinct(&(i, &x));
            });
        }),
        Stage::new("signature", 27 * 8 + 3, move |w: &mut W, i| {
            let (s, _, ks) = ready(w, tr);
            let raw = i >= 27 * 8;
            let (kind, j, part) = if raw { (i - 27 * 8, 2, 0) } else { (i / 72, i / 8 % 9, i % 8) };
            let Sg { name, h, full, raw: rawm, k, p, .. } = sgm(kind, j, &ks);
            let label = format!("signature {}{}", name, if raw { " raw" } else { "" });
            w.begin(&label);
            let m0 = msg(if th { 40 } else { 9 });
            let hv = h.hash(&m0);
            let m = if !raw { m0 } else if kind == 0 { [der(h), hv].concat() } else { hv };
            let mech = if raw { rawm } else { full };
            let q = QUIET.replace(true);
            ok(sign_init(s, &mech, k), "sign init");
            let g = okr(sign(s, &m, Some(600)).ok(), "sign");
            QUIET.set(q);
            let mut ways = if raw { vec![Way::One, Way::Sig] } else { vec![Way::One, Way::Multi, Way::Sig, Way::SigMulti] };
            for way in &ways {
                case(w, &label, || format!("genuine {:?}", way), || genuine(s, &mech, p, &m, &g, *way));
            }
            // one way per bit and mechanism, all ways on the thorough tier
            if !th && !raw {
                ways = vec![ways[(j + part) % 4]];
            }
            let mut n = 0;
            muts(&g, &mut |x, f| {
                n += 1;
                if raw || n % 8 == part {
                    for way in &ways {
                        case(w, &label, || format!("signature {} {:?}", x, way), || forged(s, &mech, p, &m, f, (&m, &g), *way));
                    }
                    w.distinct(&(i, &x));
                }
            });
            muts(&m, &mut |x, f| {
                n += 1;
                // ECDSA uses the leftmost bits of the data
                if raw && kind == 2 && (f.len() > m.len() && f.starts_with(&m)) {
                    return;
                }
                if raw || n % 8 == part {
                    for way in &ways {
                        case(w, &label, || format!("data {} {:?}", x, way), || forged(s, &mech, p, f, &g, (&m, &g), *way));
                    }
                    w.distinct(&(i, &x, 1));
                }
            });
            // the same signature under the other mechanisms
            for k2 in 0..3 {
                for j2 in 0..9 {
                    if raw || (k2, j2) == (kind, j) || (k2 * 9 + j2) % 8 != part {
                        continue;
                    }
                    let o = sgm(k2, j2, &ks);
                    case(w, &label, || format!("verified as {}", o.name), || forged(s, &o.full, o.p, &m, &g, (&m, &g), Way::One));
                    w.distinct(&(i, k2, j2));
                }
            }
        }),
        Stage::new("aead", aes.len(), move |w: &mut W, i| {
            let (s, keys, _) = ready(w, tr);
            let (ccm, k, il, al, dl, tl) = aer[i];
            let pt = msg(dl);
            let mut a = Ae { ccm, k, iv: (0..il).map(|x| (x * 5 + 9) as u8).collect(), aad: (0..al).map(|x| (x * 3 + 1) as u8).collect(), tl, d: vec![], tag: vec![] };
            let (c, g) = aeref(ccm, a.key(), &a.iv, &a.aad, &pt, tl);
            a.d = c;
            a.tag = g;
            let label = format!("aead {}", a.mech().name);
            w.begin(&label);
            case(w, &label, || format!("key {} genuine", k), || {
                z(decrypt_init(s, &a.mech(), keys[k]), "decrypt init")?;
                let o = decrypt(s, &[&a.d[..], &a.tag].concat(), Some(100));
                if o.rv != 0 || o.data != pt { Err(format!("genuine ciphertext: {}", rvs(o.rv))) } else { Ok(()) }
            });
            a.forgeries(&mut |x, f| {
                // colliding short tags, and what is genuine after all
                if f.authentic() {
                    return;
                }
                for way in 0..6 {
                    case(w, &label, || format!("key {} {} way {}", k, x, way), || f.refused(s, keys[k], &pt, way));
                }
                w.distinct(&(i, &x));
            });
            // shorter data than one tag
            for n in 0..tl {
                case(w, &label, || format!("key {} only {} bytes", k, n), || {
                    guarded(s, &[Kd::Dec], || {
                        z(decrypt_init(s, &a.mech(), keys[k]), "decrypt init")?;
                        let rv = decrypt(s, &a.tag[..n], Some(100)).rv;
                        if rv == 0 { Err("accepted".to_string()) } else { Ok(()) }
                    })
                });
                w.distinct(&(i, n));
            }
        }),
        Stage::new("wrap", 2 * 3 * 4, move |w: &mut W, i| {
            let (s, keys, _) = ready(w, tr);
            let (pad, k, n) = (i % 2 == 1, i / 2 % 3, [16, 24, 32, 20][i / 6]);
            let kb = &KEY32[..[16, 24, 32][k]];
            if !pad && n % 8 != 0 {
                return;
            }
            let v = msg(n);
            let wrapped = if pad { refc::kwp(kb, &v) } else { refc::kw(kb, &v, [0xa6; 8]) };
            let mech = Mech::new(if pad { CKM_AES_KEY_WRAP_KWP } else { CKM_AES_KEY_WRAP });
            let label = format!("wrap {} key {} of {}", if pad { "KWP" } else { "KW" }, kb.len(), n);
            w.begin(&label);
            let t = T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true).s(CKA_LABEL, "unwrapped");
            let have = || find(s, &T::new().s(CKA_LABEL, "unwrapped")).map_err(|r| format!("search returned {}", rvs(r)));
            case(w, &label, || "genuine".to_string(), || {
                let h = unwrap(s, &mech, keys[k], &wrapped, &t).map_err(|r| format!("unwrap returned {}", rvs(r)))?;
                let g = get(s, h, CKA_VALUE).map_err(|r| format!("value: {}", rvs(r)))?;
                destroy(s, h);
                if g != v { Err("unwrapped another value".to_string()) } else { Ok(()) }
            });
            muts(&wrapped, &mut |x, f| {
                case(w, &label, || format!("unwrap {}", x), || {
                    if let Ok(h) = unwrap(s, &mech, keys[k], f, &t) {
                        destroy(s, h);
                        return Err("an altered wrapped key was accepted".to_string());
                    }
                    if !have()?.is_empty() { Err("a refused unwrap left a key behind".to_string()) } else { Ok(()) }
                });
                case(w, &label, || format!("decrypt {}", x), || {
                    guarded(s, &[Kd::Dec], || {
                        if decrypt_init(s, &mech, keys[k]) != 0 {
                            return Ok(());
                        }
                        let o = decrypt(s, f, Some(100));
                        if o.rv == 0 {
                            return Err("C_Decrypt accepted altered data".to_string());
                        }
                        if lastbuf_shows(&v[..8]) {
                            return Err("C_Decrypt delivered plaintext".to_string());
                        }
                        if decrypt_final(s, Some(100)).rv != CKR_OPERATION_NOT_INITIALIZED {
                            return Err("the failed operation continues".to_string());
                        }
                        Ok(())
                    })
                });
                w.distinct(&(i, &x));
            });
            // under another key of the same length
            for b in 0..8 * kb.len() {
                let mut kk = kb.to_vec();
                kk[b / 8] ^= 1 << (b % 8);
                case(w, &label, || format!("key bit {}", b), || {
                    let wk = create(s, &aeskey(false, false, "wk", &kk).b(CKA_UNWRAP, true)).map_err(|r| format!("create: {}", rvs(r)))?;
                    let r = unwrap(s, &mech, wk, &wrapped, &t);
                    destroy(s, wk);
                    if let Ok(h) = r {
                        destroy(s, h);
                        return Err("unwrapped under another key".to_string());
                    }
                    Ok(())
                });
                w.distinct(&(i, b));
            }
        }),
        Stage::new("oaep", 16, move |w: &mut W, i| {
            let (s, _, ks) = ready(w, tr);
            let m = msg(20);
            let label = "oaep";
            w.begin(label);
            let q = QUIET.replace(true);
            ok(encrypt_init(s, &oaep(b"label"), ks.rsap), "init");
            let ct = okr(encrypt(s, &m, Some(256)).ok(), "encrypt");
            QUIET.set(q);
            let try_ = |mech: &Mech, f: &[u8]| {
                guarded(s, &[Kd::Dec], || {
                    z(decrypt_init(s, mech, ks.rsa), "decrypt init")?;
                    let o = decrypt(s, f, Some(256));
                    if o.rv == 0 {
                        return Err("accepted".to_string());
                    }
                    if lastbuf_shows(&m[..8]) {
                        return Err("delivered plaintext".to_string());
                    }
                    if decrypt(s, &ct, Some(256)).rv != CKR_OPERATION_NOT_INITIALIZED {
                        return Err("the failed operation continues".to_string());
                    }
                    Ok(())
                })
            };
            let mut n = 0;
            muts(&ct, &mut |x, f| {
                n += 1;
                if n % 16 == i && (th || n / 16 % 2 == 0) {
                    case(w, label, || x.clone(), || try_(&oaep(b"label"), f));
                    w.distinct(&x);
                }
            });
            muts(b"label", &mut |x, f| {
                n += 1;
                if n % 16 == i {
                    case(w, label, || format!("label {}", x), || try_(&oaep(f), &ct));
                    w.distinct(&(&x, 1));
                }
            });
        }),
    ];
    crate::engine::run(
        Check {
            prop: "P15",
            level: "exploration",
            rule: "exhaustive enumeration on the real library, for every MAC, signature, authenticated encryption and key wrap mechanism with all tag, nonce and key sizes, of the single-bit changes, truncations and a set of extensions of the data, additional data, IV, tag, signature and key, through every calling sequence that verifies (one-shot, multi-part, C_VerifySignature, message based); each must be refused, deliver no plaintext and leave nothing to continue with; true collisions are told apart by independent implementations",
            assumptions: vec!["one message per mechanism and length; forgeries are the neighbours of genuine pairs, not arbitrary strings".into()],
            extra: vec![],
        },
        sc,
        o,
        stages,
    )
}
