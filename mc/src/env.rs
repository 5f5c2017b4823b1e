//! Scratch tokens: templates are made once, copied for every execution.
#![allow(dead_code)]
use crate::api::*;
use crate::engine::{Scratch, in_child};
use kryoptic_lib::pkcs11::*;
use std::fs;
use std::path::{Path, PathBuf};

pub const SO: &str = "so-pin-12345";
pub const UP: &str = "user-pin-9876";
pub const BAD: &str = "bad-pin-00000";

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Db {
    Sqlite,
    Nss,
}
pub const DBS: [Db; 2] = [Db::Sqlite, Db::Nss];
impl Db {
    pub fn name(self) -> &'static str {
        match self {
            Db::Sqlite => "sqlite",
            Db::Nss => "nss",
        }
    }
}

pub fn write_conf(dir: &Path, slots: &[(u32, Db, &str)]) {
    let mut s = String::new();
    for (n, db, sub) in slots {
        let d = dir.join(sub);
        let _ = fs::create_dir_all(&d);
        match db {
            Db::Sqlite => s.push_str(&format!(
                "[[slots]]\nslot = {}\ndbtype = \"sqlite\"\ndbargs = \"{}/tok.sql\"\n",
                n, d.display()
            )),
            Db::Nss => s.push_str(&format!(
                "[[slots]]\nslot = {}\ndbtype = \"nssdb\"\ndbargs = \"configDir='{}'\"\n",
                n, d.display()
            )),
        }
    }
    fs::write(dir.join("token.conf"), s).unwrap();
}
pub fn init_args(dir: &Path) -> String {
    format!("kryoptic_conf={}/token.conf", dir.display())
}
pub fn copy_dir(from: &Path, to: &Path) {
    let _ = fs::create_dir_all(to);
    let mut keep = vec![];
    for e in fs::read_dir(from).into_iter().flatten().flatten() {
        let p = e.path();
        let dst = to.join(e.file_name());
        keep.push(e.file_name());
        if p.is_dir() {
            copy_dir(&p, &dst);
        } else {
            fs::copy(&p, &dst).unwrap();
        }
    }
    for e in fs::read_dir(to).into_iter().flatten().flatten() {
        if !keep.contains(&e.file_name()) {
            if e.path().is_dir() {
                let _ = fs::remove_dir_all(e.path());
            } else {
                let _ = fs::remove_file(e.path());
            }
        }
    }
}

/// Directory of a token template; made by running `f` in a child on a fresh token.
/// The configuration is rewritten at copy time because it holds absolute paths.
pub struct Tmpl {
    pub dir: PathBuf,
    pub slots: Vec<(u32, Db, String)>,
}
impl Tmpl {
    pub fn make(sc: &Scratch, name: &str, slots: &[(u32, Db)], f: impl FnOnce()) -> Tmpl {
        let dir = sc.0.join(format!("tmpl-{}", name));
        fs::create_dir_all(&dir).unwrap();
        let sl: Vec<(u32, Db, String)> =
            slots.iter().map(|(n, d)| (*n, *d, format!("s{}", n))).collect();
        let t = Tmpl { dir, slots: sl };
        t.conf(&t.dir);
        let d = t.dir.clone();
        if let Err(e) = in_child(|| {
            ok(initialize(&init_args(&d)), "initialize");
            f();
            ok(finalize(), "finalize");
        }) {
            eprintln!("kmc: making the token template {} failed: {}", name, e);
            std::process::exit(2);
        }
        t
    }
    fn conf(&self, dir: &Path) {
        let v: Vec<(u32, Db, &str)> = self.slots.iter().map(|(n, d, s)| (*n, *d, s.as_str())).collect();
        write_conf(dir, &v);
    }
    /// standard token on slot 1: SO PIN, user PIN set
    pub fn std(sc: &Scratch, db: Db) -> Tmpl {
        Tmpl::make(sc, &format!("std-{}", db.name()), &[(1, db)], || std_init(1, true))
    }
    pub fn std_with(sc: &Scratch, name: &str, db: Db, f: impl FnOnce()) -> Tmpl {
        Tmpl::make(sc, &format!("{}-{}", name, db.name()), &[(1, db)], || {
            std_init(1, true);
            f()
        })
    }
    /// finalise whatever runs, restore the files, do not initialise
    pub fn restore(&self, dir: &Path) {
        let q = QUIET.replace(true);
        let _ = finalize();
        QUIET.set(q);
        for (_, _, s) in &self.slots {
            copy_dir(&self.dir.join(s), &dir.join(s));
        }
        self.conf(dir);
    }
    /// fresh library on a fresh copy of the token
    pub fn fresh(&self, dir: &Path) {
        self.restore(dir);
        ok(initialize(&init_args(dir)), "C_Initialize");
    }
}
pub fn ok(rv: Rv, what: &str) {
    if rv != CKR_OK {
        panic!("harness: {} failed: {}", what, rvs(rv));
    }
}
pub fn okr<X>(r: R<X>, what: &str) -> X {
    match r {
        Ok(x) => x,
        Err(e) => panic!("harness: {} failed: {}", what, rvs(e)),
    }
}
pub fn std_init(slot: H, user: bool) {
    ok(init_token(slot, SO, "tok"), "init_token");
    let s = okr(open(slot, true), "open");
    ok(login(s, CKU_SO, SO), "so login");
    if user {
        ok(init_pin(s, UP), "init_pin");
    }
    ok(logout(s), "logout");
    ok(close(s), "close");
}
/// finalise + initialise on the same files
pub fn restart(dir: &Path) -> Rv {
    let rv = finalize();
    if rv != CKR_OK {
        return rv;
    }
    initialize(&init_args(dir))
}
pub fn user_session(slot: H) -> H {
    let s = okr(open(slot, true), "open");
    ok(login(s, CKU_USER, UP), "login");
    s
}
