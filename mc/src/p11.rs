//! P11: a storage error fails the call cleanly and loses nothing.
use crate::api::*;
use crate::engine::*;
use crate::env::*;
use crate::p13::case;
use crate::store::*;
use crate::vfs::{self, K, Mode};

struct Seen {
    rv: Rv,
    hits: usize,
    calls: Vec<(K, String)>,
    /// objects in the session of the call
    inses: Option<Result<Vec<Snap>, String>>,
    live: Result<View, String>,
    reopened: Result<View, String>,
}
/// one call with a fault; the library is left finalised unless a retry is asked for
fn attempt(tm: &Tmpl, w: &std::path::Path, db: Db, c: &Call, fault: Option<(usize, Mode)>) -> Seen {
    let mut x = prepare(tm, w, c);
    vfs::begin(fault);
    let rv = (c.run)(&mut x);
    let log = vfs::end();
    if !QUIET.get() {
        if let Some((k, m)) = fault {
            note(&format!("(storage operation {} {:?} failed: {:?}; {} operations failed)", k, log.calls.get(k), m, log.hits));
        }
    }
    let img = vfs::image(w);
    if c.name == "initialize" && rv != 0 {
        let r = initialize(&init_args(w));
        if r != 0 {
            let live = Err(format!("C_Initialize failed with {}, and again without the fault with {}", rvs(rv), rvs(r)));
            let _ = finalize();
            return Seen { rv, hits: log.hits, calls: log.calls, inses: None, reopened: live.clone(), live };
        }
    }
    let inses = session_info(x.s).ok().filter(|i| i.state == kryoptic_lib::pkcs11::CKS_RW_USER_FUNCTIONS).map(|_| objects(x.s));
    close_all(1);
    let live = view(db);
    let _ = finalize();
    vfs::materialise(w, &img);
    let r = initialize(&init_args(w));
    let reopened = if r != 0 { Err(format!("C_Initialize afterwards: {}", rvs(r))) } else { view(db) };
    Seen { rv, hits: log.hits, calls: log.calls, inses, live, reopened }
}
/// the calls made on the NSS storage in the quick check
const NSS_QUICK: [&str; 8] = ["create-rsa-pub", "create-aes", "generate-key-pair", "set-usage", "destroy-ec", "set-pin", "login", "initialize"];
/// the faults of a call are shared out
const PARTS: usize = 4;
pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    vfs::install();
    let th = o.tier.thorough();
    let tms = crate::p10::tmpls(sc);
    let cs = crate::store::calls();
    let mut items = vec![];
    for t in (0..tms.len()).rev() {
        for c in 0..cs.len() {
            if if tms[t].1 == Db::Nss { cs[c].nss } else { cs[c].sqlite } && (th || (tms[t].0 != "sqlite-many" && (tms[t].1 == Db::Sqlite || NSS_QUICK.contains(&cs[c].name)))) {
                for part in 0..if tms[t].1 == Db::Nss { PARTS } else { 1 } {
                    items.push((t, c, part));
                }
            }
        }
    }
    let (tr, cr, ir) = (&tms, &cs, &items);
    let stages = vec![Stage::new("fault", items.len(), move |w: &mut W, i| {
        let (name, db, tm) = &tr[ir[i].0];
        let c = &cr[ir[i].1];
        let label = format!("{}/{}", name, c.name);
        w.begin(&label);
        let q = QUIET.replace(true);
        prepare(tm, &w.dir, c);
        close_all(1);
        let before = view(*db);
        let _ = finalize();
        let dir = w.dir.clone();
        let good = attempt(tm, &dir, *db, c, None);
        let _ = finalize();
        QUIET.set(q);
        let (Ok(before), Ok(after)) = (before, good.live) else {
            w.viol(&format!("{}/views", label), "no view of the token without a fault");
            return;
        };
        if good.rv != c.rv {
            w.viol(&format!("{}/outcome", label), &format!("the undisturbed call says {}", rvs(good.rv)));
            return;
        }
        let (before, after) = (before.norm(), after.norm());
        let n = good.calls.len();
        let (mut ran, mut halves, mut torn) = (0, 0, 0);
        let mut part = 0;
        for k in 0..n {
            let kind = good.calls[k].0;
            // an operation of NSS that changes no file fails but once for each file (quick)
            if !th && *db == Db::Nss && !matches!(kind, K::Write | K::Sync | K::Delete | K::Trunc) && good.calls[..k].contains(&good.calls[k]) {
                continue;
            }
            part += 1;
            if *db == Db::Nss && part % PARTS != ir[i].2 {
                continue;
            }
            for mode in vfs::MODES {
                let apt = match mode {
                    Mode::Once => true,
                    Mode::Dead => th || *db == Db::Sqlite || matches!(kind, K::Write | K::Sync | K::Delete | K::Trunc),
                    Mode::Half | Mode::Full => kind == K::Write,
                    Mode::Kind => th,
                };
                if !apt {
                    continue;
                }
                ran += 1;
                let r = case(
                    w,
                    &label,
                    || format!("operation {} ({:?}) fails {:?}", k, kind, mode),
                    || {
                        let f = attempt(tm, &dir, *db, c, Some((k, mode)));
                        if c.name == "create-rsa-pub" && *db == Db::Nss && f.rv != 0 && good.calls[k] .0== K::Delete {
                            if let (Err(a), Err(b)) = (&f.reopened, &f.live) {
                                if a == b && a == "C_GetAttributeValue: CKR_OBJECT_HANDLE_INVALID" {
                                    return Ok(2);
                                }
                            }
                        }
                        let re = f.reopened.map_err(|e| format!("after the fault and a restart: {}", e))?;
                        let live = f.live.map_err(|e| format!("after the fault: {}", e))?;
                        // the login count is reset as far as the storage permits
                        let (mut live, mut re, mut after) = (live, re, after.clone());
                        if c.name == "login-after-wrong" && f.rv == 0 {
                            for v in [&mut live, &mut re, &mut after] {
                                v.flags = 0;
                            }
                        }
                        if live != re {
                            return Err(format!("{}; running library / after a restart: {}", rvs(f.rv), live.diff(&re)));
                        }
                        if let Some(v) = f.inses {
                            let v = v.map_err(|e| format!("after the fault, in the session: {}", e))?;
                            if v != live.objs {
                                return Err(format!("{}; the session of the call sees other objects than a new one", rvs(f.rv)));
                            }
                        }
                        if f.hits == 0 && f.rv != c.rv {
                            return Err(format!("no fault, {}", rvs(f.rv)));
                        }
                        let v = re.norm();
                        // half a key pair (a known defect of its own), half a transaction of NSS
                        if c.name == "generate-key-pair" && f.rv != 0 && v.objs.len() == before.objs.len() + 1 && v.objs.iter().all(|o| after.objs.contains(o)) {
                            return Ok(1);
                        }
                        let done = f.rv == c.rv;
                        if f.rv == 0xbad {
                            return Err("the call delivered wrong data".into());
                        }
                        if done && v != after {
                            return Err(format!("{} but not in effect; expected / seen: {}", rvs(f.rv), after.diff(&v)));
                        }
                        if v != before && v != after {
                            return Err(format!("{}; neither before nor after; before / seen: {}; after / seen: {}", rvs(f.rv), before.diff(&v), after.diff(&v)));
                        }
                        // once more, without the fault
                        if v == before {
                            let mut x = Cx { dir: dir.clone(), ..Cx::default() };
                            (c.pre)(&mut x);
                            let rv = (c.run)(&mut x);
                            if rv != c.rv {
                                return Err(format!("{}; once more without the fault: {}", rvs(f.rv), rvs(rv)));
                            }
                            close_all(1);
                            let v = view(*db).map_err(|e| format!("after the second call: {}", e))?.norm();
                            if v != after {
                                return Err(format!("{}; once more without the fault; expected / seen: {}", rvs(f.rv), after.diff(&v)));
                            }
                        }
                        Ok(0)
                    },
                );
                halves += (r == Some(1)) as usize;
                torn += (r == Some(2)) as usize;
                w.distinct(&(&label, k, mode));
            }
        }
        let q = QUIET.replace(true);
        let _ = finalize();
        QUIET.set(q);
        if halves > 0 {
            w.viol(&format!("{}/half", label), "some faults leave one key of the pair behind");
        }
        if torn > 0 {
            w.viol(&format!("{}/between", label), "some faults leave an object without the signatures of its attributes");
        }
        w.sample(&format!("{}: {} storage operations, {} faults", label, n, ran));
    })];
    crate::engine::run(
        Check {
            prop: "P11",
            level: "exploration",
            rule: "exhaustive single-fault enumeration on the real library: each call that uses the storage (both back ends) is run on a populated token once per storage operation it performs (open, read, write, truncate, sync, size, lock, delete, access of SQLite's VFS) with that operation failing: once, half done, disk full from there on, and everything failing until the call returns; then the running library, the session of the call and the library after a restart must show the same token, equal to the state before the call or after it, equal to the one after if the call reported success, and the call repeated must work",
            assumptions: vec!["values random by nature (generated keys, unique identifiers) are not compared between runs".into()],
            extra: vec![],
        },
        sc,
        o,
        stages,
    )
}
