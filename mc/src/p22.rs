//! P22: concurrent calls are linearizable and never deadlock
use crate::api::*;
use crate::cry::*;
use crate::engine::*;
use crate::env::*;
use crate::keys::*;
use crate::sched::{self, Choice};
use crate::vfs;
use kryoptic_lib::pkcs11::*;
use std::collections::{BTreeSet, HashMap};
use std::sync::Mutex;

/// what the threads share
#[derive(Clone, Default)]
struct Cx {
    /// a session for each thread, one for all
    s: [H; 3],
    sh: H,
    /// objects: certificate, session key, token key, OTP key, EC key
    cert: H,
    skey: H,
    tkey: H,
    otp: H,
    ec: H,
    wrapped: Vec<u8>,
    dir: std::path::PathBuf,
}
/// what a thread has made
#[derive(Clone, Default)]
struct Loc {
    t: usize,
    own: H,
    made: Vec<H>,
    opened: Vec<H>,
}
type Step = fn(&Cx, &mut Loc) -> String;
struct Op {
    name: &'static str,
    steps: Vec<Step>,
}
fn made(l: &mut Loc, r: R<H>) -> String {
    match r {
        Ok(h) => {
            l.made.push(h);
            "ok".into()
        }
        Err(e) => rvs(e),
    }
}
fn opened(l: &mut Loc, r: R<H>) -> String {
    match r {
        Ok(h) => {
            l.opened.push(h);
            "ok".into()
        }
        Err(e) => rvs(e),
    }
}
fn out(o: Out) -> String {
    format!("{} {}", rvs(o.rv), hex(&o.data))
}
fn val(r: R<Vec<u8>>) -> String {
    match r {
        Ok(v) => hex(&v),
        Err(e) => rvs(e),
    }
}
fn lab(t: T, l: &Loc, n: &str) -> T {
    t.set(CKA_LABEL, format!("{}{}", n, l.t).as_bytes())
}
fn state(s: H) -> String {
    match session_info(s) {
        Ok(i) => format!("state {} flags {:x} slot {}", i.state, i.flags, i.slotID),
        Err(e) => rvs(e),
    }
}
/// objects found, named afterwards
fn labels(v: R<Vec<H>>) -> String {
    match v {
        Ok(v) => v.iter().map(|h| format!("~{}~", h)).collect(),
        Err(e) => rvs(e),
    }
}
fn name(x: &Cx, ls: &[Loc], res: &str) -> String {
    if !res.contains('~') {
        return res.into();
    }
    let mut v: Vec<String> = res
        .split('~')
        .filter_map(|p| p.parse::<H>().ok())
        .map(|h| {
            for (n, k) in [("cert", x.cert), ("skey", x.skey), ("tkey", x.tkey), ("otp", x.otp), ("ec", x.ec)] {
                if h == k {
                    return n.into();
                }
            }
            for l in ls {
                if let Some(i) = l.made.iter().position(|m| *m == h) {
                    return format!("made by {} {}", l.t, i);
                }
            }
            let s = x.s.iter().chain([&x.sh]).copied().find(|s| session_info(*s).is_ok()).unwrap_or(0);
            get(s, h, CKA_LABEL).map_or_else(rvs, |v| String::from_utf8_lossy(&v).into_owned())
        })
        .collect();
    v.sort();
    format!("found {}", v.join(","))
}
fn ctrv(l: &Loc) -> Mech {
    Mech::bytes(CKM_AES_CBC, &[l.t as u8; 16])
}
macro_rules! ops {
    ($($n:literal $($s:expr),+;)*) => { vec![$(Op { name: $n, steps: vec![$($s),+] }),*] };
}
fn ops() -> Vec<Op> {
    ops! {
        "open-rw" |_, l| { let r = open(1, true); opened(l, r) };
        "open-ro" |_, l| { let r = open(1, false); opened(l, r) };
        "open-close" |_, l| { let r = open(1, true); opened(l, r) }, |_, l| l.opened.last().map_or("-".into(), |h| rvs(close(*h)));
        "close-own" |_, l| rvs(close(l.own));
        "close-shared" |x, _| rvs(close(x.sh));
        "close-all" |_, _| rvs(close_all(1));
        "login" |_, l| rvs(login(l.own, CKU_USER, UP));
        "login-so" |_, l| rvs(login(l.own, CKU_SO, SO));
        "login-wrong" |_, l| rvs(login(l.own, CKU_USER, BAD));
        "logout" |_, l| rvs(logout(l.own));
        "relogin" |_, l| rvs(logout(l.own)), |_, l| rvs(login(l.own, CKU_USER, UP));
        "session-info" |_, l| state(l.own);
        "shared-info" |x, _| state(x.sh);
        "token-info" |_, _| token_info(1).map_or_else(rvs, |i| format!("{:x} {} {}", i.flags, i.ulSessionCount, i.ulRwSessionCount));
        "mechanism-list" |_, _| { let mut n: CK_ULONG = 0; let rv = crate::c!(C_GetMechanismList, 1, std::ptr::null_mut(), &mut n); format!("{} {}", rvs(rv), n) };
        "slot-list" |_, _| { let mut n: CK_ULONG = 0; let rv = crate::c!(C_GetSlotList, CK_TRUE, std::ptr::null_mut(), &mut n); format!("{} {}", rvs(rv), n) };
        "init-token" |_, _| rvs(init_token(1, SO, "new label"));
        "init-pin" |_, l| rvs(init_pin(l.own, crate::p01::UP2));
        "set-pin" |_, l| rvs(set_pin(l.own, UP, crate::p01::UP2));
        "set-pin-shared" |x, _| rvs(set_pin(x.sh, UP, UP));
        "create-session" |_, l| { let r = create(l.own, &lab(Kind::Aes.tmpl(false, false), l, "n")); made(l, r) };
        "create-shared" |x, l| { let r = create(x.sh, &lab(Kind::Generic.tmpl(false, true), l, "n")); made(l, r) };
        "create-token" |_, l| { let r = create(l.own, &lab(Kind::Generic.tmpl(true, true), l, "n")); made(l, r) };
        "create-cert" |_, l| { let r = create(l.own, &lab(cert(true, false), l, "n")); made(l, r) };
        "copy-token" |x, l| { let r = copy(l.own, x.tkey, &T::new().s(CKA_LABEL, &format!("n{}", l.t))); made(l, r) };
        "copy-session" |x, l| { let r = copy(l.own, x.skey, &T::new().s(CKA_LABEL, &format!("n{}", l.t))); made(l, r) };
        "destroy-token" |x, l| rvs(destroy(l.own, x.tkey));
        "destroy-session" |x, l| rvs(destroy(l.own, x.skey));
        "destroy-cert" |x, l| rvs(destroy(l.own, x.cert));
        "get-token" |x, l| val(get(l.own, x.tkey, CKA_VALUE));
        "get-label" |x, l| val(get(l.own, x.tkey, CKA_LABEL));
        "get-session" |x, l| val(get(l.own, x.skey, CKA_LABEL));
        "get-two" |x, l| format!("{:?}", get_many(l.own, x.tkey, &[CKA_LABEL, CKA_ID]));
        "get-size" |x, l| format!("{:?}", size(l.own, x.cert).is_ok());
        "set-token" |x, l| rvs(set(l.own, x.tkey, &T::new().s(CKA_LABEL, &format!("t{}", l.t)).d(CKA_ID, &[l.t as u8; 4])));
        "set-id" |x, l| rvs(set(l.own, x.tkey, &T::new().d(CKA_ID, &[l.t as u8; 6])));
        "set-sensitive" |x, l| rvs(set(l.own, x.tkey, &T::new().b(CKA_SENSITIVE, true)));
        "set-session" |x, l| rvs(set(l.own, x.skey, &T::new().s(CKA_LABEL, &format!("s{}", l.t))));
        "find-own" |_, l| rvs(find_init(l.own, &T::new().ul(CKA_CLASS, CKO_SECRET_KEY))), |_, l| labels(find_next(l.own, 10)), |_, l| rvs(find_final(l.own));
        "find-shared" |x, _| rvs(find_init(x.sh, &T::new())), |x, _| find_next(x.sh, 1).map_or_else(rvs, |v| v.len().to_string());
        "generate" |_, l| { let r = gen_key(l.own, &Mech::new(CKM_AES_KEY_GEN), &T::new().b(CKA_TOKEN, true).s(CKA_LABEL, &format!("n{}", l.t)).ul(CKA_VALUE_LEN, 32)); made(l, r) };
        "generate-pair" |_, l| {
            let r = gen_pair(l.own, &Mech::new(CKM_EC_KEY_PAIR_GEN), &T::new().b(CKA_TOKEN, true).s(CKA_LABEL, &format!("p{}", l.t)).d(CKA_EC_PARAMS, &P256), &T::new().b(CKA_TOKEN, true).s(CKA_LABEL, &format!("n{}", l.t)));
            match r { Ok((a, b)) => { l.made.extend([a, b]); "ok".into() } Err(e) => rvs(e) }
        };
        "derive" |x, l| { let r = derive(l.own, &str_mech(CKM_CONCATENATE_BASE_AND_DATA, b"abc"), x.tkey, &T::new().s(CKA_LABEL, &format!("n{}", l.t)).ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET)); made(l, r) };
        "wrap" |x, l| out(wrap(l.own, &Mech::new(CKM_AES_KEY_WRAP_KWP), x.skey, x.tkey, Some(100)));
        "unwrap" |x, l| { let r = unwrap(l.own, &Mech::new(CKM_AES_KEY_WRAP_KWP), x.skey, &x.wrapped, &T::new().b(CKA_TOKEN, true).s(CKA_LABEL, &format!("n{}", l.t)).ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET)); made(l, r) };
        "encrypt-own" |x, l| rvs(encrypt_init(l.own, &ctrv(l), x.skey)), |_, l| out(encrypt(l.own, &[7; 16], Some(64)));
        "encrypt-shared" |x, l| rvs(encrypt_init(x.sh, &ctrv(l), x.skey)), |x, _| out(encrypt(x.sh, &[7; 16], Some(64)));
        "encrypt-parts-shared" |x, _| out(encrypt_update(x.sh, &[9; 16], Some(64))), |x, _| out(encrypt_final(x.sh, Some(64)));
        "sign-own" |x, l| rvs(sign_init(l.own, &Mech::new(CKM_SHA256_HMAC), x.tkey)), |_, l| out(sign(l.own, b"abc", Some(64)));
        "sign-shared" |x, _| rvs(sign_init(x.sh, &Mech::new(CKM_SHA256_HMAC), x.tkey)), |x, _| out(sign(x.sh, b"abc", Some(64)));
        "sign-ec" |x, l| rvs(sign_init(l.own, &Mech::new(CKM_ECDSA), x.ec)), |_, l| rvs(sign(l.own, &[1; 32], Some(64)).rv);
        "verify-own" |x, l| rvs(verify_init(l.own, &Mech::new(CKM_SHA256_HMAC), x.tkey)), |_, l| rvs(verify(l.own, b"abc", &[0; 32]));
        "digest-shared" |x, _| rvs(digest_init(x.sh, &Mech::new(CKM_SHA256))), |x, l| rvs(digest_update(x.sh, &[l.t as u8])), |x, _| out(digest_final(x.sh, Some(64)));
        "digest-key" |_, l| rvs(digest_init(l.own, &Mech::new(CKM_SHA256))), |x, l| rvs(digest_key(l.own, x.tkey));
        "otp" |x, l| rvs(sign_init(l.own, &Mech::new(CKM_HOTP), x.otp)), |_, l| { let o = sign(l.own, b"", Some(200)); format!("{} {}", rvs(o.rv), hex(&o.data[o.data.len().saturating_sub(6)..])) };
        "cancel-shared" |x, _| rvs(session_cancel(x.sh, CKF_ENCRYPT | CKF_SIGN | CKF_DIGEST | CKF_FIND_OBJECTS));
        "opstate" |_, l| rvs(get_opstate(l.own, Some(500)).rv);
        "random" |_, l| rvs(rvr(&random(l.own, 8)));
        "seed" |_, l| rvs(seed_random(l.own, b"seed"));
        "initialize" |x, _| rvs(initialize(&init_args(&x.dir)));
        "finalize" |_, _| rvs(finalize());
    }
}
/// (name, logged in, sessions to be opened, the objects)
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Scene {
    User,
    Public,
    So,
    /// nobody has a session
    Empty,
    /// as User, all threads using one session
    Same,
}
const SCENES: [Scene; 5] = [Scene::User, Scene::Public, Scene::So, Scene::Empty, Scene::Same];
fn prepare(w: &W, tm: &Tmpl, sc: Scene) -> Cx {
    let q = QUIET.replace(true);
    tm.fresh(&w.dir);
    let mut x = Cx { dir: w.dir.clone(), ..Cx::default() };
    if sc != Scene::Empty {
        for s in 0..3 {
            x.s[s] = okr(open(1, true), "open");
        }
        x.sh = okr(open(1, true), "open");
        let f = |l: &str| okr(find(x.sh, &T::new().s(CKA_LABEL, l)), "find").first().copied().unwrap_or(0);
        ok(login(x.sh, CKU_USER, UP), "login");
        x.cert = f("cert");
        x.tkey = f("tkey");
        x.otp = f("otp");
        x.ec = f("ec");
        x.skey = okr(create(x.sh, &Kind::Aes.tmpl(false, false).set(CKA_LABEL, b"skey").b(CKA_UNWRAP, true)), "session key");
        x.wrapped = okr(wrap(x.sh, &Mech::new(CKM_AES_KEY_WRAP_KWP), x.skey, x.tkey, Some(100)).ok(), "wrap");
        match sc {
            Scene::User | Scene::Same => ok(encrypt_init(x.sh, &Mech::bytes(CKM_AES_CBC, &[3; 16]), x.skey), "encrypt"),
            _ => ok(logout(x.sh), "logout"),
        }
        if sc == Scene::So {
            ok(login(x.sh, CKU_SO, SO), "SO login");
        }
        if sc == Scene::Same {
            for s in x.s.iter_mut() {
                ok(close(*s), "close");
                *s = x.sh;
            }
        }
    }
    QUIET.set(q);
    x
}
/// everything that can be seen afterwards
fn view(x: &Cx, ls: &[Loc]) -> String {
    let mut v = vec![];
    v.push(token_info(1).map_or_else(rvs, |i| format!("token {:x} {} sessions {} rw {}", i.flags, String::from_utf8_lossy(&i.label).trim_end(), i.ulSessionCount, i.ulRwSessionCount)));
    let ss: Vec<H> = x.s.iter().chain([&x.sh]).copied().collect();
    for (i, &s) in ss.iter().enumerate() {
        if s == 0 {
            continue;
        }
        v.push(format!("session {}: {}", i, state(s)));
        v.push(format!("{} {} {} {}", rvs(find_final(s)), rvs(sign_final(s, None).rv), rvs(digest_final(s, None).rv), rvs(encrypt_final(s, None).rv)));
    }
    for l in ls {
        for &h in &l.opened {
            v.push(format!("opened by {}: {}", l.t, state(h)));
        }
    }
    // objects, from a session that works
    let any = ss.iter().chain(ls.iter().flat_map(|l| l.opened.iter())).copied().find(|s| session_info(*s).is_ok());
    let mine = any.is_none();
    let s = match any {
        Some(s) => s,
        None => match open(1, true) {
            Ok(s) => s,
            Err(e) => {
                v.push(format!("no session: {}", rvs(e)));
                0
            }
        },
    };
    if s != 0 {
        if mine {
            v.push(state(s));
        }
        v.push(format!("objects: {}", things(s)));
        for l in ls {
            for (i, &h) in l.made.iter().enumerate() {
                v.push(format!("made by {} {}: {}", l.t, i, get(s, h, CKA_LABEL).map_or_else(rvs, |v| String::from_utf8_lossy(&v).into_owned())));
            }
        }
    }
    // what is stored
    finalize();
    let rv = initialize(&init_args(&x.dir));
    v.push(format!("again: {}", rvs(rv)));
    if let Ok(s) = open(1, true) {
        for p in [UP, crate::p01::UP2] {
            let rv = login(s, CKU_USER, p);
            v.push(format!("login {}: {}", p, rvs(rv)));
            if rv == 0 {
                break;
            }
        }
        v.push(format!("stored: {}", things(s)));
    }
    v.join("\n")
}
fn things(s: H) -> String {
    match find(s, &T::new()) {
        Ok(v) => {
            let mut l: Vec<String> = v
                .iter()
                .map(|h| match snap(s, *h) {
                    Ok(mut o) => {
                        let l = o.get(&CKA_LABEL).cloned().unwrap_or_default();
                        if l.starts_with(b"n") || l.starts_with(b"p") {
                            for a in [CKA_VALUE, CKA_CHECK_VALUE, CKA_EC_POINT, CKA_PUBLIC_KEY_INFO] {
                                o.remove(&a);
                            }
                        }
                        o.remove(&CKA_UNIQUE_ID);
                        format!("{} {:x}", String::from_utf8_lossy(&l), hash64(&o))
                    }
                    Err(e) => rvs(e),
                })
                .collect();
            l.sort();
            l.join("; ")
        }
        Err(e) => rvs(e),
    }
}

// ---------------------------------------------------------------- one execution, in a child
const SHARED: usize = 1 << 20;
struct Shared(*mut u8);
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}
fn shared() -> Shared {
    unsafe { Shared(libc::mmap(std::ptr::null_mut(), SHARED, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut u8) }
}
impl Shared {
    fn put(&self, s: &str) {
        let b = &s.as_bytes()[..s.len().min(SHARED - 8)];
        unsafe {
            *(self.0 as *mut u64) = b.len() as u64;
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.0.add(8), b.len());
        }
    }
    fn get(&self) -> String {
        unsafe {
            let n = *(self.0 as *mut u64) as usize;
            String::from_utf8_lossy(std::slice::from_raw_parts(self.0.add(8), n)).into_owned()
        }
    }
    fn run(&self, f: impl FnOnce() -> String) -> Result<String, String> {
        self.put("");
        in_child(|| {
            unsafe { libc::alarm(30) };
            let s = f();
            self.put(&s);
        })
        .map(|_| self.get())
    }
}
/// put the files back as they were, in place
fn put_back(dir: &std::path::Path, base: &vfs::Image) {
    for (f, d) in vfs::image(dir) {
        match base.get(&f) {
            Some(b) if *b == d => (),
            Some(b) => std::fs::write(&f, b).unwrap(),
            None => std::fs::remove_file(&f).unwrap(),
        }
    }
}
/// thread, index of the call, first and last step, result
#[derive(Clone, PartialEq, Eq, Debug)]
struct Call {
    t: usize,
    i: usize,
    first: usize,
    end: usize,
    res: String,
}
struct Exec {
    choices: Vec<Choice>,
    events: Vec<String>,
    calls: Vec<Call>,
    dead: bool,
    view: String,
}
fn locs(x: &Cx, n: usize) -> Vec<Loc> {
    (0..n).map(|t| Loc { t, own: x.s[t], ..Loc::default() }).collect()
}
static DONE: Mutex<Vec<(Call, Loc)>> = Mutex::new(vec![]);
fn concurrent(sh: &Shared, x: &Cx, prog: &[&Op], plan: &[usize]) -> Result<Exec, String> {
    let txt = sh.run(|| {
        QUIET.set(true);
        let ls = locs(x, prog.len());
        let mut fs: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for (t, op) in prog.iter().enumerate() {
            let (steps, x, mut l) = (op.steps.clone(), x.clone(), ls[t].clone());
            fs.push(Box::new(move || {
                QUIET.set(true);
                for (i, f) in steps.iter().enumerate() {
                    sched::call_begin();
                    let res = f(&x, &mut l);
                    let (first, end) = sched::call_end();
                    DONE.lock().unwrap().push((Call { t, i, first, end, res }, l.clone()));
                }
            }));
        }
        let r = sched::run_once(plan, fs);
        let mut o = String::new();
        for c in &r.choices {
            o += &format!("C {} {} {}\n", c.last.map_or(-1, |x| x as i64), c.mask, c.chosen);
        }
        for e in &r.events {
            o += &format!("E {}\n", e);
        }
        let done = DONE.lock().unwrap().clone();
        let mut fin = ls.clone();
        for (c, l) in &done {
            fin[c.t] = l.clone();
        }
        for (c, _) in &done {
            let res = if r.dead { c.res.clone() } else { name(x, &fin, &c.res) };
            o += &format!("K {} {} {} {} {}\n", c.t, c.i, c.first, c.end, res);
        }
        if r.dead {
            o += "D\n";
        } else {
            o += &format!("V\n{}", view(x, &fin));
        }
        o
    })?;
    let mut e = Exec { choices: vec![], events: vec![], calls: vec![], dead: false, view: String::new() };
    let mut it = txt.split('\n');
    while let Some(l) = it.next() {
        let p: Vec<&str> = l.splitn(6, ' ').collect();
        match p[0] {
            "C" => e.choices.push(Choice { last: p[1].parse::<i64>().ok().filter(|x| *x >= 0).map(|x| x as usize), mask: p[2].parse().unwrap(), chosen: p[3].parse().unwrap() }),
            "E" => e.events.push(l[2..].to_string()),
            "K" => e.calls.push(Call { t: p[1].parse().unwrap(), i: p[2].parse().unwrap(), first: p[3].parse().unwrap(), end: p[4].parse().unwrap(), res: p[5].to_string() }),
            "D" => e.dead = true,
            "V" => e.view = it.by_ref().collect::<Vec<_>>().join("\n"),
            _ => (),
        }
    }
    Ok(e)
}
/// the calls one after another
fn sequential(sh: &Shared, x: &Cx, prog: &[&Op], order: &[usize]) -> Result<(Vec<Vec<String>>, String), String> {
    let txt = sh.run(|| {
        QUIET.set(true);
        let mut ls = locs(x, prog.len());
        let mut at = vec![0; prog.len()];
        let mut got = vec![];
        for &t in order {
            let res = prog[t].steps[at[t]](x, &mut ls[t]);
            at[t] += 1;
            got.push((t, res));
        }
        let mut o = String::new();
        for (t, res) in &got {
            o += &format!("{} {}\n", t, name(x, &ls, res));
        }
        o += &format!("V\n{}", view(x, &ls));
        o
    })?;
    let mut r = vec![vec![]; prog.len()];
    let mut it = txt.split('\n');
    while let Some(l) = it.next() {
        if l == "V" {
            return Ok((r, it.collect::<Vec<_>>().join("\n")));
        }
        let (t, res) = l.split_once(' ').unwrap();
        r[t.parse::<usize>().unwrap()].push(res.to_string());
    }
    Err("no result".into())
}
/// all merges of the threads' calls
fn merges(n: &[usize]) -> Vec<Vec<usize>> {
    if n.iter().all(|x| *x == 0) {
        return vec![vec![]];
    }
    let mut v = vec![];
    for t in 0..n.len() {
        if n[t] > 0 {
            let mut m = n.to_vec();
            m[t] -= 1;
            for mut r in merges(&m) {
                r.insert(0, t);
                v.push(r);
            }
        }
    }
    v
}
/// is the order one the calls may have taken effect in?
fn allowed(order: &[usize], calls: &[Call], n: usize) -> bool {
    let mut at = vec![0; n];
    let seq: Vec<(usize, usize)> = order
        .iter()
        .map(|&t| {
            at[t] += 1;
            (t, at[t] - 1)
        })
        .collect();
    let c = |k: (usize, usize)| calls.iter().find(|c| (c.t, c.i) == k).unwrap();
    for i in 0..seq.len() {
        for j in i + 1..seq.len() {
            if c(seq[j]).end < c(seq[i]).first {
                return false;
            }
        }
    }
    true
}
fn program(w: &mut W, sh: &Shared, x: &Cx, base: &vfs::Image, scene: Scene, db: Db, prog: &[&Op], bound: usize, cap: usize) {
    let label = format!("{}/{:?}/{}", db.name(), scene, prog.iter().map(|o| o.name).collect::<Vec<_>>().join("+"));
    w.begin(&label);
    let ns: Vec<usize> = prog.iter().map(|o| o.steps.len()).collect();
    let orders = merges(&ns);
    let mut seqs: HashMap<usize, (Vec<Vec<String>>, String)> = HashMap::new();
    let mut seen: BTreeSet<u64> = BTreeSet::new();
    let mut plan = vec![];
    let mut n = 0;
    loop {
        let e = match concurrent(sh, x, prog, &plan) {
            Ok(e) => e,
            Err(m) => {
                note(&format!("schedule {:?}", plan));
                w.viol(&format!("{}/crash", label), &format!("schedule {:?}: {}", plan, m));
                put_back(&w.dir, base);
                return;
            }
        };
        put_back(&w.dir, base);
        n += 1;
        w.add(TRACES, 1);
        w.add(TRANS, e.choices.len() as u64);
        w.eval();
        let tell = |seqs: &HashMap<usize, (Vec<Vec<String>>, String)>, what: &str| {
            for v in &e.events {
                note(v);
            }
            for c in &e.calls {
                note(&format!("thread {} call {} ({}) -> {}", c.t, c.i, prog[c.t].name, c.res));
            }
            for (i, o) in orders.iter().enumerate() {
                if let Some((r, _)) = seqs.get(&i) {
                    note(&format!("order {:?}: {:?}", o, r));
                }
            }
            for l in e.view.lines() {
                note(l);
            }
            format!("schedule {:?}: {}", e.choices.iter().map(|c| c.chosen).collect::<Vec<_>>(), what)
        };
        if e.dead {
            let s = tell(&seqs, "deadlock");
            w.viol(&format!("{}/deadlock", label), &format!("{}; {}", s, e.events.iter().filter(|x| x.contains("waits")).cloned().collect::<Vec<_>>().join("; ")));
            return;
        }
        let mut res = vec![vec![]; prog.len()];
        for c in &e.calls {
            res[c.t].push(c.res.clone());
        }
        let prec: Vec<(usize, usize, usize, usize)> = e.calls.iter().flat_map(|a| e.calls.iter().filter(|b| a.end < b.first).map(|b| (a.t, a.i, b.t, b.i)).collect::<Vec<_>>()).collect();
        if seen.insert(hash64(&(&res, &e.view, &prec))) {
            w.distinct(&(&label, &res, &e.view, &prec));
            let mut good = false;
            for (i, o) in orders.iter().enumerate() {
                if !allowed(o, &e.calls, prog.len()) {
                    continue;
                }
                if !seqs.contains_key(&i) {
                    match sequential(sh, x, prog, o) {
                        Ok(r) => {
                            seqs.insert(i, r);
                        }
                        Err(m) => panic!("{} in order {:?}: {}", label, o, m),
                    }
                    put_back(&w.dir, base);
                }
                let (r, v) = &seqs[&i];
                if *r == res && *v == e.view {
                    good = true;
                    break;
                }
            }
            if !good {
                let s = tell(&seqs, "no order of the calls gives these results");
                let mut why = format!("{:?}", res);
                if let Some((_, (_, v))) = seqs.iter().find(|(_, (r, _))| *r == res) {
                    why = e.view.lines().zip(v.lines()).filter(|(a, b)| a != b).map(|(a, b)| format!("{} / {}", a, b)).collect::<Vec<_>>().join("; ");
                }
                w.viol(&format!("{}/order", label), &format!("{}: {}", s, why));
                return;
            }
        }
        match sched::next_plan(&e.choices, bound) {
            Some(p) if n < cap => plan = p,
            Some(_) => {
                w.sample(&format!("{}: stopped after {} schedules", label, n));
                break;
            }
            None => break,
        }
    }
    w.add(STATES, seen.len() as u64);
    if n > 50 {
        w.sample(&format!("{}: {} schedules, {} different outcomes", label, n, seen.len()));
    }
}
pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    let th = o.tier.thorough();
    let mk = |db: Db| {
        Tmpl::std_with(sc, &format!("p22-{}", db.name()), db, || {
            let s = user_session(1);
            okr(create(s, &cert(true, false).set(CKA_LABEL, b"cert")), "cert");
            okr(create(s, &Kind::Generic.tmpl(true, true).set(CKA_LABEL, b"tkey").setb(CKA_SENSITIVE, false).setb(CKA_EXTRACTABLE, true)), "tkey");
            if db == Db::Sqlite {
                okr(create(s, &hotp_key(true, true, 5, 6).set(CKA_LABEL, b"otp")), "otp");
            }
            okr(create(s, &ec_priv(true, true).set(CKA_LABEL, b"ec")), "ec");
        })
    };
    let tms = [(Db::Sqlite, mk(Db::Sqlite)), (Db::Nss, mk(Db::Nss))];
    let all = ops();
    // pairs of calls in each scene
    let no: [&[&str]; 5] = [
        &[],
        &["get-token", "sign-own", "sign-shared", "wrap", "unwrap", "derive", "copy-token", "create-token", "generate", "generate-pair", "encrypt-parts-shared", "otp", "sign-ec", "set-sensitive", "verify-own", "digest-key"],
        &["get-token", "sign-own", "sign-shared", "wrap", "unwrap", "derive", "copy-token", "create-token", "generate", "generate-pair", "encrypt-parts-shared", "otp", "sign-ec", "set-sensitive", "verify-own", "digest-key", "set-pin-shared"],
        &[],
        // (a random signature given to the other thread cannot be compared)
        &["sign-ec"],
    ];
    const EMPTY: [&str; 10] = ["open-rw", "open-ro", "open-close", "close-all", "init-token", "token-info", "slot-list", "mechanism-list", "initialize", "finalize"];
    let mut items = vec![];
    for d in 0..2 {
        for (si, s) in SCENES.iter().enumerate() {
            if d == 1 && *s != Scene::User {
                continue;
            }
            let mut v: Vec<usize> = (0..all.len()).filter(|&i| if *s == Scene::Empty { EMPTY.contains(&all[i].name) } else { !no[si].contains(&all[i].name) }).collect();
            if d == 1 {
                // (changing the PIN of an NSS token leaves values that cannot be read: known findings of P10 and P11)
                v.retain(|&i| !["otp", "init-pin", "login-so", "init-token", "set-pin", "set-pin-shared"].contains(&all[i].name));
                // the NSS back end is slow
                let q = ["login", "logout", "create-token", "destroy-token", "get-token", "set-token", "sign-own", "find-own", "close-own"];
                let t = ["copy-token", "get-two", "close-all", "open-rw", "create-cert", "wrap"];
                v.retain(|&i| q.contains(&all[i].name) || th && t.contains(&all[i].name));
            }
            for a in 0..v.len() {
                items.push((d, *s, v[a], v[a..].to_vec()));
            }
        }
    }
    // the longest first
    items.sort_by_key(|i| std::cmp::Reverse((i.0, i.3.len())));
    let few: Vec<usize> = (0..all.len())
        .filter(|&i| {
            let q = ["login", "logout", "create-token", "destroy-token", "get-token"];
            let t = ["open-rw", "set-token", "close-own", "session-info", "find-own"];
            q.contains(&all[i].name) || th && t.contains(&all[i].name)
        })
        .collect();
    let mut three = vec![];
    for s in [Scene::User, Scene::Public] {
        if !th && s == Scene::Public {
            continue;
        }
        for a in 0..few.len() {
            for b in a..few.len() {
                three.push((s, few[a], few[b], few[b..].to_vec()));
            }
        }
    }
    let (ar, ir, tr, thr) = (&all, &items, &tms, &three);
    let (b2, b3) = (o.tier.pick(1, 2), 1);
    let cap = o.tier.pick(100, 800);
    let core = |i: usize| ["login", "logout", "destroy-token", "get-two", "set-token", "session-info"].contains(&ar[i].name);
    let stages = vec![
        Stage::new("pairs", items.len(), move |w: &mut W, i| {
            let (d, s, a, bs) = &ir[i];
            let x = prepare(w, &tr[*d].1, *s);
            let base = vfs::image(&w.dir);
            let sh = shared();
            for b in bs {
                if w.case() {
                    program(w, &sh, &x, &base, *s, tr[*d].0, &[&ar[*a], &ar[*b]], if !th && *s == Scene::User && core(*a) && core(*b) { 2 } else { b2 }, cap);
                }
            }
        }),
        Stage::new("three", three.len(), move |w: &mut W, i| {
            let (s, a, b, cs) = &thr[i];
            let x = prepare(w, &tr[0].1, *s);
            let base = vfs::image(&w.dir);
            let sh = shared();
            for c in cs {
                if w.case() {
                    program(w, &sh, &x, &base, *s, Db::Sqlite, &[&ar[*a], &ar[*b], &ar[*c]], b3, cap);
                }
            }
        }),
    ];
    crate::engine::run(
        Check {
            prop: "P22",
            level: "model_checking",
            rule: "stateless exploration of the real library under a controlled scheduler: real threads run one at a time and are switched at every acquisition of every lock (STATE, token, sessions, database connections, key cache, announced by the kmc_hooks locks); every schedule within the preemption bound of every pair of calls (and of triples of the main ones) in five scenes (user logged in, public, SO, no sessions, all threads on one session) is run from the same state, including writers queueing behind readers; a schedule with no thread able to go on is a deadlock, and the results and everything visible afterwards, in memory and after a restart, must equal those of the real calls made one after another in an order consistent with the schedule",
            assumptions: vec![
                "between two lock acquisitions the library is free of data races (safe Rust)".into(),
                format!("preemption bounds: {} for two threads, {} for three, at most {} schedules of one program", b2, b3, cap),
                "processes sharing a database file are not explored".into(),
            ],
            extra: vec![],
        },
        sc,
        o,
        stages,
    )
}
