//! A SQLite VFS between the library and the file system: it records every operation that
//! changes files and can make any operation fail.
use libsqlite3_sys::*;
use std::collections::BTreeMap;
use std::ffi::{CStr, c_char, c_int, c_void};
use std::path::Path;
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum K {
    Open,
    Read,
    Write,
    Trunc,
    Sync,
    Size,
    Lock,
    Delete,
    Access,
}
#[derive(Clone, Debug)]
pub enum FsOp {
    Create(String),
    Write(String, usize, Vec<u8>),
    Trunc(String, usize),
    Sync(String),
    Delete(String),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Mode {
    /// the operation itself, once, nothing done
    Once,
    /// the operation, once; a write is half done
    Half,
    /// the disk is full from there on
    Full,
    /// everything fails from there on
    Dead,
    /// the same operation again and again
    Kind,
}
pub const MODES: [Mode; 5] = [Mode::Once, Mode::Half, Mode::Full, Mode::Dead, Mode::Kind];
#[derive(Default)]
struct St {
    on: bool,
    ops: Vec<FsOp>,
    calls: Vec<(K, String)>,
    fault: Option<(usize, Mode)>,
    hits: usize,
}
static ST: Mutex<St> = Mutex::new(St { on: false, ops: vec![], calls: vec![], fault: None, hits: 0 });

/// begin to record, with a fault at the n-th operation
pub fn begin(fault: Option<(usize, Mode)>) {
    let mut s = ST.lock().unwrap();
    *s = St { on: true, fault, ..St::default() };
}
pub struct Log {
    pub ops: Vec<FsOp>,
    pub calls: Vec<(K, String)>,
    pub hits: usize,
}
pub fn end() -> Log {
    let mut s = ST.lock().unwrap();
    let r = std::mem::take(&mut *s);
    Log { ops: r.ops, calls: r.calls, hits: r.hits }
}
fn log(f: impl FnOnce() -> FsOp) {
    let mut s = ST.lock().unwrap();
    if s.on {
        s.ops.push(f());
    }
}
/// is the operation to fail, and is it to be half done?
fn gate(k: K, name: &str) -> Option<(c_int, bool)> {
    let mut s = ST.lock().unwrap();
    if !s.on {
        return None;
    }
    let n = s.calls.len();
    s.calls.push((k, name.to_string()));
    let (at, mode) = s.fault?;
    let first = s.calls.get(at).map(|x| x.0);
    let hit = match mode {
        Mode::Once | Mode::Half => n == at,
        Mode::Full => n >= at && k == K::Write,
        Mode::Dead => n >= at,
        Mode::Kind => n >= at && Some(k) == first,
    };
    if !hit {
        return None;
    }
    s.hits += 1;
    let rc = match k {
        K::Open => SQLITE_CANTOPEN,
        K::Read => SQLITE_IOERR_READ,
        K::Write if mode == Mode::Half || mode == Mode::Dead => SQLITE_IOERR_WRITE,
        K::Write => SQLITE_FULL,
        K::Trunc => SQLITE_IOERR_TRUNCATE,
        K::Sync => SQLITE_IOERR_FSYNC,
        K::Size => SQLITE_IOERR_FSTAT,
        K::Lock => SQLITE_IOERR_LOCK,
        K::Delete => SQLITE_IOERR_DELETE,
        K::Access => SQLITE_IOERR_ACCESS,
    };
    Some((rc, mode == Mode::Half && k == K::Write))
}

#[repr(C)]
struct F {
    base: sqlite3_file,
    name: *mut String,
}
static mut REAL: *mut sqlite3_vfs = std::ptr::null_mut();
const HEAD: usize = (std::mem::size_of::<F>() + 15) & !15;
unsafe fn real(f: *mut sqlite3_file) -> *mut sqlite3_file {
    unsafe { (f as *mut u8).add(HEAD) as *mut sqlite3_file }
}
unsafe fn rm(f: *mut sqlite3_file) -> &'static sqlite3_io_methods {
    unsafe { &*(*real(f)).pMethods }
}
unsafe fn nm(f: *mut sqlite3_file) -> &'static str {
    unsafe { (*(*(f as *mut F)).name).as_str() }
}
unsafe extern "C" fn x_close(f: *mut sqlite3_file) -> c_int {
    unsafe {
        let rc = rm(f).xClose.unwrap()(real(f));
        drop(Box::from_raw((*(f as *mut F)).name));
        rc
    }
}
unsafe extern "C" fn x_read(f: *mut sqlite3_file, b: *mut c_void, n: c_int, o: sqlite3_int64) -> c_int {
    unsafe {
        if let Some((rc, _)) = gate(K::Read, nm(f)) {
            return rc;
        }
        rm(f).xRead.unwrap()(real(f), b, n, o)
    }
}
unsafe extern "C" fn x_write(f: *mut sqlite3_file, b: *const c_void, n: c_int, o: sqlite3_int64) -> c_int {
    unsafe {
        let g = gate(K::Write, nm(f));
        let n = match g {
            Some((rc, false)) => return rc,
            Some((_, true)) => n / 2,
            None => n,
        };
        log(|| FsOp::Write(nm(f).to_string(), o as usize, std::slice::from_raw_parts(b as *const u8, n as usize).to_vec()));
        let rc = rm(f).xWrite.unwrap()(real(f), b, n, o);
        g.map_or(rc, |x| x.0)
    }
}
unsafe extern "C" fn x_trunc(f: *mut sqlite3_file, n: sqlite3_int64) -> c_int {
    unsafe {
        if let Some((rc, _)) = gate(K::Trunc, nm(f)) {
            return rc;
        }
        log(|| FsOp::Trunc(nm(f).to_string(), n as usize));
        rm(f).xTruncate.unwrap()(real(f), n)
    }
}
unsafe extern "C" fn x_sync(f: *mut sqlite3_file, fl: c_int) -> c_int {
    unsafe {
        if let Some((rc, _)) = gate(K::Sync, nm(f)) {
            return rc;
        }
        log(|| FsOp::Sync(nm(f).to_string()));
        // the real sync is of no use here
        let _ = fl;
        SQLITE_OK
    }
}
unsafe extern "C" fn x_size(f: *mut sqlite3_file, n: *mut sqlite3_int64) -> c_int {
    unsafe {
        if let Some((rc, _)) = gate(K::Size, nm(f)) {
            return rc;
        }
        rm(f).xFileSize.unwrap()(real(f), n)
    }
}
unsafe extern "C" fn x_lock(f: *mut sqlite3_file, l: c_int) -> c_int {
    unsafe {
        if let Some((rc, _)) = gate(K::Lock, nm(f)) {
            return rc;
        }
        rm(f).xLock.unwrap()(real(f), l)
    }
}
unsafe extern "C" fn x_unlock(f: *mut sqlite3_file, l: c_int) -> c_int {
    unsafe { rm(f).xUnlock.unwrap()(real(f), l) }
}
unsafe extern "C" fn x_crl(f: *mut sqlite3_file, r: *mut c_int) -> c_int {
    unsafe { rm(f).xCheckReservedLock.unwrap()(real(f), r) }
}
unsafe extern "C" fn x_ctl(f: *mut sqlite3_file, op: c_int, a: *mut c_void) -> c_int {
    unsafe { rm(f).xFileControl.unwrap()(real(f), op, a) }
}
unsafe extern "C" fn x_sector(f: *mut sqlite3_file) -> c_int {
    unsafe { rm(f).xSectorSize.unwrap()(real(f)) }
}
unsafe extern "C" fn x_dev(_: *mut sqlite3_file) -> c_int {
    // claim nothing about the device
    0
}
static IO: sqlite3_io_methods = sqlite3_io_methods {
    iVersion: 1,
    xClose: Some(x_close),
    xRead: Some(x_read),
    xWrite: Some(x_write),
    xTruncate: Some(x_trunc),
    xSync: Some(x_sync),
    xFileSize: Some(x_size),
    xLock: Some(x_lock),
    xUnlock: Some(x_unlock),
    xCheckReservedLock: Some(x_crl),
    xFileControl: Some(x_ctl),
    xSectorSize: Some(x_sector),
    xDeviceCharacteristics: Some(x_dev),
    xShmMap: None,
    xShmLock: None,
    xShmBarrier: None,
    xShmUnmap: None,
    xFetch: None,
    xUnfetch: None,
};
unsafe fn cname(z: *const c_char) -> String {
    if z.is_null() { String::new() } else { unsafe { CStr::from_ptr(z).to_string_lossy().into_owned() } }
}
unsafe extern "C" fn v_open(_: *mut sqlite3_vfs, z: *const c_char, f: *mut sqlite3_file, fl: c_int, out: *mut c_int) -> c_int {
    unsafe {
        let name = cname(z);
        (*f).pMethods = std::ptr::null();
        if let Some((rc, _)) = gate(K::Open, &name) {
            return rc;
        }
        let new = fl & SQLITE_OPEN_CREATE != 0 && !Path::new(&name).exists();
        let rc = (*REAL).xOpen.unwrap()(REAL, z, real(f), fl, out);
        if rc != SQLITE_OK {
            return rc;
        }
        if new {
            log(|| FsOp::Create(name.clone()));
        }
        (*(f as *mut F)).name = Box::into_raw(Box::new(name));
        (*f).pMethods = &IO;
        rc
    }
}
unsafe extern "C" fn v_delete(_: *mut sqlite3_vfs, z: *const c_char, d: c_int) -> c_int {
    unsafe {
        let name = cname(z);
        if let Some((rc, _)) = gate(K::Delete, &name) {
            return rc;
        }
        let _ = d;
        let rc = (*REAL).xDelete.unwrap()(REAL, z, 0);
        if rc == SQLITE_OK {
            log(|| FsOp::Delete(name));
        }
        rc
    }
}
unsafe extern "C" fn v_access(_: *mut sqlite3_vfs, z: *const c_char, fl: c_int, r: *mut c_int) -> c_int {
    unsafe {
        if let Some((rc, _)) = gate(K::Access, &cname(z)) {
            return rc;
        }
        (*REAL).xAccess.unwrap()(REAL, z, fl, r)
    }
}
/// put the VFS in the place of the default one
pub fn install() {
    unsafe {
        sqlite3_initialize();
        REAL = sqlite3_vfs_find(std::ptr::null());
        let mut v = *REAL;
        v.zName = c"kmc".as_ptr();
        v.pNext = std::ptr::null_mut();
        v.szOsFile = HEAD as c_int + (*REAL).szOsFile;
        v.xOpen = Some(v_open);
        v.xDelete = Some(v_delete);
        v.xAccess = Some(v_access);
        let b = Box::leak(Box::new(v));
        assert_eq!(sqlite3_vfs_register(b, 1), SQLITE_OK);
    }
}

// ---------------------------------------------------------------- images
pub type Image = BTreeMap<String, Vec<u8>>;
pub fn image(dir: &Path) -> Image {
    let mut m = Image::new();
    fn walk(d: &Path, m: &mut Image) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, m);
            } else {
                m.insert(p.to_string_lossy().into_owned(), std::fs::read(&p).unwrap());
            }
        }
    }
    walk(dir, &mut m);
    m
}
/// make the files in the directory those of the image
pub fn materialise(dir: &Path, m: &Image) {
    for k in image(dir).keys() {
        if !m.contains_key(k) {
            std::fs::remove_file(k).unwrap();
        }
    }
    for (k, v) in m {
        std::fs::write(k, v).unwrap();
    }
}
pub fn apply(m: &mut Image, op: &FsOp) {
    match op {
        FsOp::Create(f) => {
            m.entry(f.clone()).or_default();
        }
        FsOp::Write(f, o, b) => {
            let v = m.entry(f.clone()).or_default();
            if v.len() < o + b.len() {
                v.resize(o + b.len(), 0);
            }
            v[*o..o + b.len()].copy_from_slice(b);
        }
        FsOp::Trunc(f, n) => m.entry(f.clone()).or_default().resize(*n, 0),
        FsOp::Sync(_) => (),
        FsOp::Delete(f) => {
            m.remove(f);
        }
    }
}
impl FsOp {
    pub fn show(&self) -> String {
        let b = |f: &str| f.rsplit('/').next().unwrap_or("").to_string();
        match self {
            FsOp::Create(f) => format!("create {}", b(f)),
            FsOp::Write(f, o, d) => format!("write {} at {} {} bytes", b(f), o, d.len()),
            FsOp::Trunc(f, n) => format!("truncate {} to {}", b(f), n),
            FsOp::Sync(f) => format!("sync {}", b(f)),
            FsOp::Delete(f) => format!("delete {}", b(f)),
        }
    }
    pub fn file(&self) -> &str {
        match self {
            FsOp::Create(f) | FsOp::Write(f, ..) | FsOp::Trunc(f, _) | FsOp::Sync(f) | FsOp::Delete(f) => f,
        }
    }
}
