//! P26: C_Initialize and C_Finalize bracket everything.
use crate::api::*;
use crate::c;
use crate::calls::*;
use crate::engine::*;
use crate::env::*;
use crate::p13::case;
use kryoptic_lib::pkcs11::*;
use std::collections::BTreeSet;
use std::path::Path;

/// how the library came to be not initialised
const HOW: [&str; 6] = ["never initialised", "finalised", "finalised with everything in use", "initialised twice and finalised", "a failed C_Initialize", "finalised twice"];
fn use_it() -> (H, Keys) {
    let s = user_session(1);
    let k = Keys::make(s);
    (s, k)
}
fn bring(w: &W, tm: &Tmpl, how: usize) -> (H, Keys) {
    let mut r = (1, Keys { aes: 1, gen_: 2, ecpriv: 3, ecpub: 4, rsapriv: 5, rsapub: 6, data: 7, dh: 8 });
    match how {
        0 => tm.restore(&w.dir),
        1 => {
            tm.fresh(&w.dir);
            let s = okr(open(1, true), "open");
            r = (s, Keys::make(s));
            ok(finalize(), "finalize");
        }
        2 => {
            tm.fresh(&w.dir);
            r = use_it();
            let _ = sign_init(r.0, &Mech::new(CKM_SHA256_HMAC), r.1.gen_);
            let _ = digest_init(r.0, &Mech::new(CKM_SHA256));
            let _ = encrypt_init(r.0, &cbc_pad(), r.1.aes);
            let _ = find_init(r.0, &T::new());
            ok(finalize(), "finalize");
        }
        3 => {
            tm.fresh(&w.dir);
            r = use_it();
            let _ = initialize(&init_args(&w.dir));
            ok(finalize(), "finalize");
        }
        4 => {
            tm.restore(&w.dir);
            let _ = initialize("kryoptic_conf=/nonexistent/token.conf");
        }
        _ => {
            tm.fresh(&w.dir);
            r = use_it();
            ok(finalize(), "finalize");
            let _ = finalize();
        }
    }
    r
}
/// every function while the library is not initialised
fn functions(w: &mut W, tm: &Tmpl, how: usize, db: Db) {
    let n = {
        let mut v = session_calls(1, &Keys::default());
        v.extend(other_calls(1));
        v.len()
    };
    for i in 0..n {
        let q = QUIET.replace(true);
        // each call on the same untouched token
        let (s, k) = bring(w, tm, how);
        let mut v = session_calls(s, &k);
        v.extend(other_calls(1));
        let c = &mut v[i];
        if c.name == "C_SetOperationState" {
            for p in c.pos(RK::Obj) {
                c.args[p].v = 0;
            }
        }
        QUIET.set(q);
        w.begin(&format!("{:?} {} {}", db, HOW[how], c.name));
        w.add(TRANS, 1);
        w.eval();
        w.distinct(&(db as u8, how, i));
        let rv = c.run();
        note(&format!("{} -> {}", c.name, rvs(rv)));
        let unsupported = [CKR_FUNCTION_NOT_SUPPORTED, CKR_FUNCTION_NOT_PARALLEL].contains(&rv);
        if rv != CKR_CRYPTOKI_NOT_INITIALIZED && !unsupported {
            w.viol(&format!("function:{}:{}", HOW[how], c.name), &format!("{}, then {}: {}", HOW[how], c.name, rvs(rv)));
        }
        if !c.guards_ok(None) {
            w.viol(&format!("wrote:{}:{}", HOW[how], c.name), &format!("{}, then {} writes beyond its outputs", HOW[how], c.name));
        }
        // no effect: everything as it was
        let q = QUIET.replace(true);
        let rv = initialize(&init_args(&w.dir));
        let mut bad = None;
        if rv != 0 {
            bad = Some(format!("C_Initialize: {}", rvs(rv)));
        } else {
            if let Ok(i) = token_info(1) {
                if i.ulSessionCount != 0 || i.flags & (CKF_USER_PIN_COUNT_LOW | CKF_SO_PIN_COUNT_LOW) != 0 {
                    bad = Some(format!("{} sessions, flags {:#x}", i.ulSessionCount, i.flags));
                }
            }
            match open(1, true) {
                Ok(s) => {
                    let l = login(s, CKU_USER, UP);
                    if l != 0 {
                        bad = Some(format!("login: {}", rvs(l)));
                    }
                    match find(s, &T::new().ul(CKA_CLASS, CKO_DATA)) {
                        Ok(v) if v.len() == if db == Db::Sqlite { 1 } else { 0 } => (),
                        r => bad = Some(format!("objects: {:?}", r)),
                    }
                }
                Err(e) => bad = Some(format!("C_OpenSession: {}", rvs(e))),
            }
        }
        let _ = finalize();
        QUIET.set(q);
        if let Some(b) = bad {
            w.viol(&format!("effect:{}:{}", HOW[how], c.name), &format!("{}, then {}, then C_Initialize: {}", HOW[how], c.name, b));
        }
    }
    // the functions that work at any time
    let q = QUIET.replace(true);
    bring(w, tm, how);
    QUIET.set(q);
    w.begin("the interface functions");
    let mut n: CK_ULONG = 0;
    let mut fp: *mut CK_FUNCTION_LIST = std::ptr::null_mut();
    let mut ip: CK_INTERFACE_PTR = std::ptr::null_mut();
    let rvs3 = [
        c!(C_GetFunctionList, &mut fp as *mut _),
        c!(C_GetInterfaceList, std::ptr::null_mut(), &mut n),
        c!(C_GetInterface, std::ptr::null_mut(), std::ptr::null_mut(), &mut ip as *mut _, 0),
    ];
    if rvs3 != [0, 0, 0] || n == 0 || fp.is_null() || ip.is_null() {
        w.viol(&format!("interface:{}", HOW[how]), &format!("{}: {:?}", HOW[how], rvs3.map(rvs)));
    }
    let rv = finalize();
    if rv != CKR_CRYPTOKI_NOT_INITIALIZED {
        w.viol(&format!("finalize:{}", HOW[how]), &format!("{}, then C_Finalize: {}", HOW[how], rvs(rv)));
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    /// one slot
    One,
    /// two slots
    Two,
    /// no arguments: the file named by the environment
    Env,
    Missing,
    Garbage,
    NoDb,
    Twice,
    Corrupt,
    Nul,
    Empty,
    Final,
    Use,
}
use Op::*;
const OPS: [Op; 12] = [One, Two, Env, Missing, Garbage, NoDb, Twice, Corrupt, Nul, Empty, Final, Use];
fn conf(dir: &Path, op: Op) -> String {
    let name = format!("{:?}.conf", op).to_lowercase();
    let p = dir.join(&name);
    let slot = |n: u32, f: &str| format!("[[slots]]\nslot = {}\ndbtype = \"sqlite\"\ndbargs = \"{}/{}\"\n", n, dir.display(), f);
    let one = slot(1, "s1/tok.sql");
    let txt = match op {
        Two => one + &slot(2, "s2/tok.sql"),
        Garbage => "]] this is not\0 a configuration = [".into(),
        NoDb => one + &format!("[[slots]]\nslot = 2\ndbtype = \"nosuchthing\"\ndbargs = \"{}/x\"\n", dir.display()),
        Twice => one + &slot(1, "s2/tok.sql"),
        Corrupt => one + &slot(3, "bad.sql"),
        Empty => String::new(),
        _ => return "kryoptic_conf=/nonexistent/dir/none.conf".into(),
    };
    let _ = std::fs::create_dir_all(dir.join("s2"));
    std::fs::write(&p, txt).unwrap();
    std::fs::write(dir.join("bad.sql"), [b"SQLite format 3\0".as_slice(), &[0xa5; 5000]].concat()).unwrap();
    format!("kryoptic_conf={}", p.display())
}
/// what the application holds
struct Held {
    s: H,
    /// session object, with its label
    o: H,
    label: String,
    /// digest active
    dig: bool,
}
struct Model {
    init: bool,
    slots: BTreeSet<H>,
    /// may be there since a refused C_Initialize named them
    maybe: BTreeSet<H>,
    held: Option<Held>,
    /// of earlier lives
    old: Vec<(H, H, String)>,
    made: usize,
    tok: usize,
}
fn slots() -> Result<BTreeSet<H>, Rv> {
    let mut n: CK_ULONG = 16;
    let mut v = [0 as H; 16];
    let rv = c!(C_GetSlotList, 0, v.as_mut_ptr(), &mut n);
    if rv != 0 { Err(rv) } else { Ok(v[..n as usize].iter().copied().collect()) }
}
fn step(dir: &Path, m: &mut Model, op: Op) -> Result<(), String> {
    let init = |m: &mut Model, rv: Rv, good: Option<&[H]>, names: &[H]| -> Result<(), String> {
        if m.init {
            if rv == 0 {
                return Err("C_Initialize while initialised succeeds".into());
            }
            m.maybe.extend(names.iter().copied());
            return Ok(());
        }
        if rv == 0 {
            m.init = true;
            m.maybe.clear();
            m.slots = match good {
                Some(g) => g.iter().copied().collect(),
                // configurations that need not work: whatever slots they name
                None => slots().map_err(|e| format!("C_GetSlotList: {}", rvs(e)))?,
            };
            if !m.slots.iter().all(|s| names.contains(s)) {
                return Err(format!("slots {:?} of a configuration that names {:?}", m.slots, names));
            }
        } else if good.is_some() {
            return Err(format!("C_Initialize: {}", rvs(rv)));
        }
        Ok(())
    };
    match op {
        One => {
            let rv = initialize(&init_args(dir));
            init(m, rv, Some(&[1]), &[1])?;
        }
        Two => {
            let rv = initialize(&conf(dir, op));
            init(m, rv, Some(&[1, 2]), &[1, 2])?;
        }
        Env => {
            let rv = c!(C_Initialize, std::ptr::null_mut());
            init(m, rv, Some(&[1]), &[1])?;
        }
        Nul => {
            let mut a: CK_C_INITIALIZE_ARGS = unsafe { std::mem::zeroed() };
            let bad = b"\xff\xfe\x80=\xc0\0";
            a.pReserved = bad.as_ptr() as CK_VOID_PTR;
            let rv = c!(C_Initialize, &mut a as *mut _ as CK_VOID_PTR);
            init(m, rv, None, &[])?;
            if rv == 0 {
                return Err("C_Initialize with an argument that is no text succeeds".into());
            }
        }
        Missing | Garbage | NoDb | Twice | Corrupt | Empty => {
            let rv = initialize(&conf(dir, op));
            // an empty file names no slots, the default configuration is used then
            let names: &[H] = match op {
                NoDb => &[1, 2],
                Corrupt => &[1, 3],
                Twice | Empty => &[1],
                _ => &[],
            };
            init(m, rv, None, names)?;
            if rv == 0 && matches!(op, Missing | Garbage | NoDb) {
                return Err("C_Initialize with a broken configuration succeeds".into());
            }
        }
        Final => {
            let rv = finalize();
            if m.init != (rv == 0) || (!m.init && rv != CKR_CRYPTOKI_NOT_INITIALIZED) {
                return Err(format!("C_Finalize: {}", rvs(rv)));
            }
            if let Some(h) = m.held.take() {
                m.old.push((h.s, h.o, h.label));
            }
            m.init = false;
            m.slots.clear();
            m.maybe.clear();
        }
        Use => {
            if !m.init || !m.slots.contains(&1) {
                return Ok(());
            }
            let e = |what: &str, r: Rv| Err(format!("{}: {}", what, rvs(r)));
            if let Some(h) = m.held.take() {
                // what was begun goes on, then all is closed
                if h.dig {
                    let o = digest_final(h.s, Some(64));
                    if o.rv != 0 || o.data != crate::refc::Ha::S256.hash(b"abc") {
                        return e("the digest", o.rv);
                    }
                }
                let rv = close(h.s);
                if rv != 0 {
                    return e("C_CloseSession", rv);
                }
                return Ok(());
            }
            let s = match open(1, true) {
                Ok(s) => s,
                Err(r) => return e("C_OpenSession", r),
            };
            let rv = login(s, CKU_USER, UP);
            if rv != 0 {
                return e("C_Login", rv);
            }
            m.made += 1;
            let label = format!("session object {}", m.made);
            let o = match create(s, &data(false, true, &label, b"v")) {
                Ok(o) => o,
                Err(r) => return e("C_CreateObject", r),
            };
            match create(s, &data(true, true, "stays", b"v")) {
                Ok(_) => m.tok += 1,
                Err(r) => return e("C_CreateObject", r),
            }
            for rv in [digest_init(s, &Mech::new(CKM_SHA256)), digest_update(s, b"abc"), find_init(s, &T::new())] {
                if rv != 0 {
                    return e("using the session", rv);
                }
            }
            m.held = Some(Held { s, o, label, dig: true });
        }
    }
    // what can be seen now
    let sl = slots();
    if !m.init {
        if sl != Err(CKR_CRYPTOKI_NOT_INITIALIZED) {
            return Err(format!("not initialised, C_GetSlotList: {:?}", sl));
        }
        let t = token_info(1).err();
        let o = open(1, true).err();
        if t != Some(CKR_CRYPTOKI_NOT_INITIALIZED) || o != Some(CKR_CRYPTOKI_NOT_INITIALIZED) {
            return Err(format!("not initialised, C_GetTokenInfo: {:?}, C_OpenSession: {:?}", t.map(rvs), o.map(rvs)));
        }
        return Ok(());
    }
    let sl = sl.map_err(|r| format!("C_GetSlotList: {}", rvs(r)))?;
    let extra: Vec<_> = sl.difference(&m.slots).filter(|s| !m.maybe.contains(s)).collect();
    if !m.slots.is_subset(&sl) || !extra.is_empty() {
        return Err(format!("slots {:?}, expected {:?}", sl, m.slots));
    }
    if !m.slots.contains(&1) {
        return Ok(());
    }
    let ti = token_info(1).map_err(|r| format!("C_GetTokenInfo: {}", rvs(r)))?;
    if ti.ulSessionCount != m.held.is_some() as CK_ULONG {
        return Err(format!("{} sessions, {} were opened", ti.ulSessionCount, m.held.is_some() as u8));
    }
    let p = match &m.held {
        Some(h) => {
            let si = session_info(h.s).map_err(|r| format!("C_GetSessionInfo: {}", rvs(r)))?;
            if si.state != CKS_RW_USER_FUNCTIONS || si.slotID != 1 {
                return Err(format!("the session is in state {} of slot {}", si.state, si.slotID));
            }
            if get(h.s, h.o, CKA_LABEL) != Ok(h.label.clone().into_bytes()) {
                return Err("the session object is lost".into());
            }
            h.s
        }
        None => {
            for (s, _, _) in &m.old {
                let rv = session_info(*s).err();
                if rv != Some(CKR_SESSION_HANDLE_INVALID) {
                    return Err(format!("session handle {} of an earlier life: {:?}", s, rv.map(rvs)));
                }
            }
            let s = open(1, false).map_err(|r| format!("C_OpenSession: {}", rvs(r)))?;
            let si = session_info(s).map_err(|r| format!("C_GetSessionInfo: {}", rvs(r)))?;
            if si.state != CKS_RO_PUBLIC_SESSION {
                return Err(format!("a first session is in state {}", si.state));
            }
            let d = digest_update(s, b"x");
            let n = find_next(s, 1).err();
            if d != CKR_OPERATION_NOT_INITIALIZED || n != Some(CKR_OPERATION_NOT_INITIALIZED) {
                return Err(format!("operations are active in a new session: {} {:?}", rvs(d), n.map(rvs)));
            }
            if find(s, &T::new().b(CKA_PRIVATE, true)).map(|v| v.len()) != Ok(0) {
                return Err("private objects without login".into());
            }
            let rv = login(s, CKU_USER, UP);
            if rv != 0 {
                return Err(format!("C_Login: {}", rvs(rv)));
            }
            s
        }
    };
    if m.held.is_none() {
        let objs = find(p, &T::new().ul(CKA_CLASS, CKO_DATA)).map_err(|r| format!("C_FindObjects: {}", rvs(r)))?;
        let mut tok = 0;
        for o in objs {
            match get(p, o, CKA_LABEL) {
                Ok(l) if l == b"stays" => tok += 1,
                Ok(l) if l == b"there" => (),
                r => return Err(format!("an object of an earlier life: {:?}", r)),
            }
        }
        if tok != m.tok {
            return Err(format!("{} token objects, {} were made", tok, m.tok));
        }
        for (_, o, l) in &m.old {
            if get(p, *o, CKA_LABEL) == Ok(l.clone().into_bytes()) {
                return Err("a session object of an earlier life".into());
            }
        }
        let rv = close(p);
        if rv != 0 {
            return Err(format!("C_CloseSession: {}", rvs(rv)));
        }
    }
    Ok(())
}
fn histories(w: &mut W, tm: &Tmpl, first: usize, depth: usize) {
    let n = OPS.len();
    let total = n.pow(depth as u32 - 1);
    for code in 0..total {
        let mut seq = vec![OPS[first / n], OPS[first % n]];
        let mut c = code;
        for _ in 1..depth {
            seq.push(OPS[c % n]);
            c /= n;
        }
        // using a library twice that is not there adds nothing
        if seq[0] == Use || seq[0] == Final || seq.windows(2).any(|p| p == [Final, Use] || p == [Final, Final]) {
            continue;
        }
        w.add(TRANS, seq.len() as u64);
        w.distinct(&format!("{:?}", seq));
        let dir = w.dir.clone();
        case(
            w,
            "history",
            || format!("{:?}", seq),
            || {
                tm.restore(&dir);
                unsafe { std::env::set_var("KRYOPTIC_CONF", dir.join("token.conf")) };
                let mut m = Model { init: false, slots: BTreeSet::new(), maybe: BTreeSet::new(), held: None, old: vec![], made: 0, tok: 0 };
                for (i, op) in seq.iter().enumerate() {
                    step(&dir, &mut m, *op).map_err(|e| format!("{:?}, at step {}: {}", seq, i + 1, e))?;
                }
                // whatever happened, the library can be brought to a plain state
                if m.init {
                    step(&dir, &mut m, Final).map_err(|e| format!("{:?}, at the end: {}", seq, e))?;
                }
                step(&dir, &mut m, One).map_err(|e| format!("{:?}, then a good C_Initialize: {}", seq, e))?;
                step(&dir, &mut m, Final).map_err(|e| format!("{:?}, at the end: {}", seq, e))
            },
        );
    }
}
pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    let th = o.tier.thorough();
    let mk = |db: Db| {
        Tmpl::std_with(sc, "life", db, || {
            if db == Db::Sqlite {
                let s = user_session(1);
                okr(create(s, &data(true, true, "there", b"v")), "create");
                ok(logout(s), "logout");
            }
        })
    };
    let tms = [mk(Db::Sqlite), mk(Db::Nss)];
    let t = &tms;
    let n = OPS.len();
    let depth = if th { 4 } else { 3 };
    let nh = HOW.len();
    let stages = vec![
        Stage::new("functions", nh * 2, move |w: &mut W, i| functions(w, &t[i / nh], i % nh, DBS[i / nh])),
        Stage::new("histories", n * n, move |w: &mut W, i| histories(w, &t[0], i, depth)),
    ];
    crate::engine::run(
        Check {
            prop: "P26",
            level: "exploration",
            rule: "exhaustive enumeration on the real library: every function of the interface, with proper arguments and handles of an earlier life, while the library is not initialised for each of six reasons, on both back ends, with the token examined afterwards; every history, to the stated depth, of C_Initialize with good arguments (one slot, two slots, the environment's configuration) and bad ones (missing, garbled, unknown database, slot named twice, corrupt database, no text, empty), C_Finalize, and use of the library (session, login, session and token objects, active digest and search), with sessions, login, operations, objects, handles and slots compared with a model after every step",
            assumptions: vec!["a refused second C_Initialize that names further slots may add them; existing slots and all their sessions must be unaffected".into(), "functions the library does not support at all may say so instead".into()],
            extra: vec![],
        },
        sc,
        o,
        stages,
    )
}
