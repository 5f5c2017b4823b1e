//! P10: a crash leaves the token as before or after the interrupted call.
use crate::api::*;
use crate::engine::*;
use crate::env::*;
use crate::p13::case;
use crate::store::*;
use crate::vfs::{self, FsOp, Image};
use std::collections::{BTreeSet, HashSet};

/// what a crash after the first k operations can leave, each with a name
fn images(base: &Image, ops: &[FsOp], k: usize, single: bool, th: bool) -> Vec<(String, Image)> {
    let mut m = base.clone();
    for op in &ops[..k] {
        vfs::apply(&mut m, op);
    }
    let mut v = vec![(format!("after {} operations", k), m.clone())];
    // the next write done in part
    if let Some(FsOp::Write(f, o, d)) = ops.get(k) {
        let mut cuts = BTreeSet::from([d.len() / 2]);
        if single {
            cuts.extend([1, d.len().saturating_sub(1)]);
        }
        if th {
            cuts.extend((0..d.len()).step_by(512));
            cuts.extend((0..d.len()).step_by(97));
        }
        for c in cuts {
            if c > 0 && c < d.len() {
                let mut n = m.clone();
                vfs::apply(&mut n, &FsOp::Write(f.clone(), *o, d[..c].to_vec()));
                v.push((format!("after {} operations and {} bytes of the next write", k, c), n));
            }
        }
    }
    // power loss: what was not synced is lost, per file, or any single write of it
    let files: BTreeSet<&str> = ops[..k].iter().map(|o| o.file()).collect();
    let synced = |f: &str| ops[..k].iter().rposition(|o| matches!(o, FsOp::Sync(g) if g == f)).unwrap_or(0);
    let files: Vec<&str> = files.into_iter().collect();
    let loose = |i: usize| matches!(&ops[i], FsOp::Write(f, ..) | FsOp::Trunc(f, _) if i >= synced(f));
    for set in 1..1u32 << files.len().min(4) {
        let lost = |f: &str| files.iter().position(|x| *x == f).is_some_and(|p| p < 4 && set >> p & 1 == 1);
        let mut n = base.clone();
        let mut any = false;
        for (i, op) in ops[..k].iter().enumerate() {
            if loose(i) && lost(op.file()) {
                any = true;
                continue;
            }
            vfs::apply(&mut n, op);
        }
        if any {
            v.push((format!("power loss after {} operations, unsynced data of {:?} lost", k, files.iter().filter(|f| lost(f)).map(|f| f.rsplit('/').next().unwrap()).collect::<Vec<_>>()), n));
        }
    }
    for i in 0..k {
        if single && loose(i) {
            let mut n = base.clone();
            for (j, op) in ops[..k].iter().enumerate() {
                if j != i {
                    vfs::apply(&mut n, op);
                }
            }
            v.push((format!("power loss after {} operations, operation {} lost", k, i), n));
        }
    }
    v
}
fn reopened(w: &W, db: Db) -> Result<View, String> {
    let rv = initialize(&init_args(&w.dir));
    if rv != 0 {
        return Err(format!("C_Initialize: {}", rvs(rv)));
    }
    let v = view(db);
    let rv = finalize();
    if rv != 0 {
        return Err(format!("C_Finalize: {}", rvs(rv)));
    }
    v
}
pub fn tmpls(sc: &Scratch) -> Vec<(&'static str, Db, Tmpl)> {
    let mk = |name: &'static str, db: Db, n: usize, locked: bool| {
        (
            name,
            db,
            Tmpl::std_with(sc, &format!("store-{}", name), db, || {
                let s = user_session(1);
                populate(s, db, n);
                if locked {
                    ok(logout(s), "logout");
                    for _ in 0..2 {
                        login(s, kryoptic_lib::pkcs11::CKU_USER, BAD);
                        login(s, kryoptic_lib::pkcs11::CKU_SO, BAD);
                    }
                }
            }),
        )
    };
    vec![mk("sqlite", Db::Sqlite, 3, false), mk("sqlite-many", Db::Sqlite, 12, true), mk("nss", Db::Nss, 3, false)]
}
pub fn run(sc: &Scratch, o: &Opts) -> i32 {
    vfs::install();
    let th = o.tier.thorough();
    let tms = tmpls(sc);
    let cs = crate::store::calls();
    let mut items = vec![];
    for t in 0..tms.len() {
        for c in 0..cs.len() {
            if if tms[t].1 == Db::Nss { cs[c].nss } else { cs[c].sqlite } {
                items.push((t, c));
            }
        }
    }
    let (tr, cr, ir) = (&tms, &cs, &items);
    let stages = vec![Stage::new("crash", items.len(), move |w: &mut W, i| {
        let (name, db, tm) = &tr[ir[i].0];
        let c = &cr[ir[i].1];
        let label = format!("{}/{}", name, c.name);
        w.begin(&label);
        let mut x = prepare(tm, &w.dir, c);
        let base = vfs::image(&w.dir);
        vfs::begin(None);
        let rv = (c.run)(&mut x);
        let log = vfs::end();
        if rv != c.rv {
            w.viol(&format!("{}/outcome", label), &format!("the undisturbed call says {}", rvs(rv)));
            return;
        }
        let fin = vfs::image(&w.dir);
        let q = QUIET.replace(true);
        close_all(1);
        let live = view(*db);
        let _ = finalize();
        let n = log.ops.len();
        let mut last = base.clone();
        for op in &log.ops {
            vfs::apply(&mut last, op);
        }
        if last != fin {
            panic!("the recorded operations do not give the files");
        }
        let mut see = |m: &Image| {
            vfs::materialise(&w.dir, m);
            reopened(w, *db)
        };
        let before = see(&base);
        let after = see(&fin);
        QUIET.set(q);
        let (before, after, live) = match (before, after, live) {
            (Ok(a), Ok(b), Ok(c)) => (a, b, c),
            (a, b, c) => {
                w.viol(&format!("{}/views", label), &format!("no view: {:?} {:?} {:?}", a.err(), b.err(), c.err()));
                return;
            }
        };
        w.eval();
        if live != after {
            w.viol(&format!("{}/stored", label), &format!("running library / after a restart: {}", live.diff(&after)));
        }
        let lost = |v: &View| v.objs.iter().filter(|o| o.get(&kryoptic_lib::pkcs11::CKA_LABEL).is_some_and(|l| l == UNREADABLE)).count();
        if lost(&after) > 0 {
            w.viol(&format!("{}/unreadable", label), &format!("{} objects can no longer be read after the call", lost(&after)));
        }
        // a change of the login count alone does not show at once
        if c.changes && before == after && !c.name.contains("wrong") {
            w.viol(&format!("{}/effect", label), "the call left nothing in the files");
        }
        if !c.changes && before != after {
            w.viol(&format!("{}/effect", label), &format!("the call changed the token: {}", before.diff(&after)));
        }
        let mut seen: HashSet<u64> = HashSet::new();
        // half a key pair is a defect of its own
        let half = |v: &View| {
            c.name == "generate-key-pair"
                && v.objs.len() == before.objs.len() + 1
                && before.objs.iter().all(|o| v.objs.contains(o))
                && v.objs.iter().all(|o| after.objs.contains(o))
                && View { objs: vec![], ..v.clone() } == View { objs: vec![], ..before.clone() }
        };
        let mut halves = 0;
        // a transaction over both files of NSS is not atomic: one file committed (its journal
        // gone), the other not
        let between = |k: usize| {
            *db == Db::Nss && {
                let gone = |ops: &[FsOp], f: &str| ops.iter().any(|o| matches!(o, FsOp::Delete(g) if g.ends_with(f)));
                let j = ["cert9.db-journal", "key4.db-journal"];
                j.iter().all(|f| gone(&log.ops, f)) && gone(&log.ops[..k], j[0]) != gone(&log.ops[..k], j[1])
            }
        };
        let mut torn = 0;
        for k in 0..=n {
            for (what, img) in images(&base, &log.ops, k, th || *name == "sqlite", th) {
                if !seen.insert(hash64(&img)) {
                    continue;
                }
                let dir = w.dir.clone();
                let r = case(
                    w,
                    &label,
                    || what.clone(),
                    || {
                        vfs::materialise(&dir, &img);
                        if !QUIET.get() {
                            for (i, op) in log.ops.iter().enumerate().take(k + 1) {
                                note(&format!("operation {}: {}", i, op.show()));
                            }
                            note(&format!("crash {}", what));
                        }
                        let rv = initialize(&init_args(&dir));
                        if rv != 0 {
                            let _ = finalize();
                            return Err(format!("C_Initialize after the crash: {}", rvs(rv)));
                        }
                        let v = view(*db);
                        let _ = finalize();
                        let v = match v {
                            Err(e) if between(k) && e.starts_with("C_GetAttributeValue") => return Ok(2),
                            v => v?,
                        };
                        // returned success: durable
                        if k == n && v != after {
                            return Err(format!("the call had returned; expected / seen: {}", after.diff(&v)));
                        }
                        if half(&v) {
                            return Ok(1);
                        }
                        if v != before && v != after && between(k) {
                            return Ok(2);
                        }
                        if v != before && v != after {
                            return Err(format!("neither before nor after; before / seen: {}; after / seen: {}", before.diff(&v), after.diff(&v)));
                        }
                        Ok(0)
                    },
                );
                halves += (r == Some(1)) as usize;
                torn += (r == Some(2)) as usize;
                w.distinct(&(&label, hash64(&img)));
            }
        }
        if halves > 0 {
            w.viol(&format!("{}/half", label), "some crashes leave one key of the pair");
        }
        if torn > 0 {
            w.viol(&format!("{}/between", label), &format!("{} of the crashes between the commits of the certificate and the key file leave neither the state before nor after", torn));
        }
        w.sample(&format!("{}: {} file operations", label, n));
    })];
    crate::engine::run(
        Check {
            prop: "P10",
            level: "exploration",
            rule: "exhaustive crash-point enumeration on the real library: each call that uses the storage, on three populated tokens (both back ends), is run once with every file operation of SQLite recorded; for every prefix of the recorded operations, every prefix with the next write torn at several points, and power-loss variants (unsynced data of every subset of files lost, every single unsynced write lost), the files are rebuilt, the library is initialised on them and label, flags, PINs, every object and every attribute are compared with the state before and after the call; a new object can still be made",
            assumptions: vec!["file creation and deletion are durable at once; the disk writes what it was given".into()],
            extra: vec![],
        },
        sc,
        o,
        stages,
    )
}
