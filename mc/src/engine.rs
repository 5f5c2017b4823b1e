//! Work distribution over forked worker processes, traces, verdicts, evidence.
#![allow(dead_code)]
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

pub const NW: usize = 8;
const RING: usize = 1 << 18;
pub const NCNT: usize = 8;

#[repr(C)]
struct WShm {
    beat: AtomicU64,
    item: AtomicU64, // stage<<32 | item
    head: AtomicUsize,
    case: AtomicU64,
    idx: AtomicU64,
    name: UnsafeCell<[u8; 64]>,
    label: UnsafeCell<[u8; 256]>,
    cnt: [AtomicU64; NCNT],
    ring: UnsafeCell<[u8; RING]>,
}
#[repr(C)]
struct Shm {
    next: AtomicUsize,
    stop: AtomicU64,
    capped: AtomicU64,
    done_items: AtomicU64,
    stage_done: [AtomicU64; 64],
    w: [WShm; NW],
}
static SHM: AtomicUsize = AtomicUsize::new(0);
static WID: AtomicUsize = AtomicUsize::new(0);
static OVERRUN: AtomicBool = AtomicBool::new(false);
static TRACE: Mutex<Vec<String>> = Mutex::new(Vec::new());

fn shm() -> Option<&'static Shm> {
    let p = SHM.load(Relaxed);
    if p == 0 { None } else { Some(unsafe { &*(p as *const Shm) }) }
}
fn wshm() -> Option<&'static WShm> {
    shm().map(|s| &s.w[WID.load(Relaxed)])
}
pub fn beat(name: &str) {
    if let Some(w) = wshm() {
        w.beat.fetch_add(1, Relaxed);
        let n = unsafe { &mut *w.name.get() };
        let l = name.len().min(63);
        n[..l].copy_from_slice(&name.as_bytes()[..l]);
        n[l] = 0;
    }
}
pub fn calls() -> u64 {
    wshm().map(|w| w.beat.load(Relaxed)).unwrap_or(0)
}
pub fn flag_overrun() {
    OVERRUN.store(true, Relaxed);
}
pub fn take_overrun() -> bool {
    OVERRUN.swap(false, Relaxed)
}
pub fn trace_push(s: &str) {
    if let Some(w) = wshm() {
        let r = unsafe { &mut *w.ring.get() };
        let mut h = w.head.load(Relaxed);
        for b in s.as_bytes().iter().chain(b"\n") {
            r[h % RING] = *b;
            h += 1;
        }
        w.head.store(h, Relaxed);
    }
    if let Ok(mut t) = TRACE.lock() {
        if t.len() > 4000 {
            t.drain(0..2000);
        }
        t.push(s.to_string());
    }
}
pub fn trace_clear() {
    if let Some(w) = wshm() {
        w.head.store(0, Relaxed);
    }
    if let Ok(mut t) = TRACE.lock() {
        t.clear();
    }
}
pub fn trace_get() -> Vec<String> {
    TRACE.lock().map(|t| t.clone()).unwrap_or_default()
}
fn ring_text(w: &WShm) -> Vec<String> {
    let h = w.head.load(Relaxed);
    let r = unsafe { &*w.ring.get() };
    let start = h.saturating_sub(RING);
    let v: Vec<u8> = (start..h).map(|i| r[i % RING]).collect();
    String::from_utf8_lossy(&v).lines().map(|s| s.to_string()).collect()
}
fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|x| *x == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).to_string()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<X>(self, q: X, t: X) -> X {
        if self == Tier::Quick { q } else { t }
    }
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
}

/// counters
pub const STATES: usize = 0;
pub const TRANS: usize = 1;
pub const TRACES: usize = 2;
pub const EVALS: usize = 3;
pub const NONTRIV: usize = 4;

pub struct W {
    pub id: usize,
    pub tier: Tier,
    pub prop: &'static str,
    pub dir: PathBuf,
    pub root: PathBuf,
    out: fs::File,
    distinct: HashSet<u64>,
    samples: usize,
    stage: String,
    item: usize,
    pub nviol: usize,
    skip: u64,
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn hash64<X: std::hash::Hash>(x: &X) -> u64 {
    use std::hash::{DefaultHasher, Hasher};
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
impl W {
    /// start of one execution: clears the trace
    pub fn begin(&mut self, label: &str) {
        trace_clear();
        take_overrun();
        if let Some(w) = wshm() {
            let n = unsafe { &mut *w.label.get() };
            let mut l = label.len().min(255);
            while !label.is_char_boundary(l) {
                l -= 1;
            }
            n[..l].copy_from_slice(&label.as_bytes()[..l]);
            n[l] = 0;
        }
    }
    /// one case of an item whose cases are independent: false if it is to be left out, because
    /// it ran before a case that ended the worker
    pub fn case(&mut self) -> bool {
        if let Some(w) = wshm() {
            return w.case.fetch_add(1, Relaxed) >= self.skip;
        }
        true
    }
    pub fn add(&mut self, c: usize, n: u64) {
        if let Some(w) = wshm() {
            w.cnt[c].fetch_add(n, Relaxed);
        }
    }
    pub fn eval(&mut self) {
        self.add(EVALS, 1);
    }
    /// an execution that is non-trivial; h identifies it
    pub fn distinct<X: std::hash::Hash>(&mut self, x: &X) {
        if self.distinct.len() < 3_000_000 {
            self.distinct.insert(hash64(x));
        }
    }
    pub fn sample(&mut self, s: &str) {
        if self.samples < 3 {
            self.samples += 1;
            let mut t: String = s.chars().take(1500).collect();
            if t.len() < s.len() {
                t.push_str(" ...");
            }
            let _ = writeln!(self.out, "S\t{}", esc(&t));
        }
    }
    pub fn sample_trace(&mut self) {
        if self.samples < 3 {
            let t = trace_get();
            self.sample(&t.join(" ; "));
        }
    }
    pub fn viol(&mut self, key: &str, what: &str) {
        self.nviol += 1;
        if self.nviol <= 200 {
            write_viol(&mut self.out, key, what, &self.stage, self.item, &trace_get());
        }
        if let Some(s) = shm() {
            s.stop.fetch_add(0, Relaxed);
        }
    }
}
fn write_viol(out: &mut fs::File, key: &str, what: &str, stage: &str, item: usize, tr: &[String]) {
    let n = tr.len();
    let tr: Vec<String> = tr[n.saturating_sub(400)..].iter().map(|s| esc(s)).collect();
    let line = format!(
        "V\t{}\t{}\t{}\t{}\t[{}]\n",
        esc(key), esc(what), esc(stage), item, tr.join(",")
    );
    let _ = out.write_all(line.as_bytes());
}

pub struct Stage<'a> {
    pub name: String,
    pub n: usize,
    pub f: Box<dyn Fn(&mut W, usize) + 'a>,
    /// seconds without any API call before an execution counts as hung
    pub hang: u64,
}
impl<'a> Stage<'a> {
    pub fn new(name: &str, n: usize, f: impl Fn(&mut W, usize) + 'a) -> Stage<'a> {
        Stage { name: name.to_string(), n, f: Box::new(f), hang: 90 }
    }
}

pub struct Check {
    pub prop: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<String>,
    /// model-side numbers computed in the parent
    pub extra: Vec<(String, String)>,
}

pub fn scratch_root() -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() && fs::write("/dev/shm/.kmc-probe", b"x").is_ok() {
        let _ = fs::remove_file("/dev/shm/.kmc-probe");
        "/dev/shm"
    } else {
        "/tmp"
    };
    PathBuf::from(format!("{}/kmc-{}", base, std::process::id()))
}
pub struct Scratch(pub PathBuf, u32);
impl Scratch {
    pub fn new() -> Scratch {
        // remove leftovers of dead runs
        if let Ok(rd) = fs::read_dir("/dev/shm") {
            for e in rd.flatten() {
                let n = e.file_name().to_string_lossy().to_string();
                if let Some(p) = n.strip_prefix("kmc-") {
                    if !Path::new(&format!("/proc/{}", p)).exists() {
                        let _ = fs::remove_dir_all(e.path());
                    }
                }
            }
        }
        let p = scratch_root();
        let _ = fs::create_dir_all(&p);
        Scratch(p, std::process::id())
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        if self.1 == std::process::id() {
            let _ = fs::remove_dir_all(&self.0);
        }
    }
}

pub fn nworkers() -> usize {
    std::env::var("KMC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(NW).min(NW).max(1)
}

/// Runs f in a forked child; Ok if it returned normally
pub fn in_child(f: impl FnOnce()) -> Result<(), String> {
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            libc::_exit(if r.is_ok() { 0 } else { 3 });
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
            Ok(())
        } else {
            Err(format!("child ended with status {:#x}", st))
        }
    }
}

struct Viol {
    key: String,
    what: String,
    stage: String,
    item: usize,
    trace: String,
}
fn unesc(s: &str) -> String {
    let s = &s[1..s.len() - 1];
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('u') => {
                    let h: String = (0..4).filter_map(|_| it.next()).collect();
                    o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap_or(63)).unwrap_or('?'));
                }
                Some(x) => o.push(x),
                None => (),
            }
        } else {
            o.push(c);
        }
    }
    o
}

pub struct Opts {
    pub tier: Tier,
    pub only: Option<(String, usize)>,
    pub verbose: bool,
}

/// Known findings: lines "finding: property=<id> key=<key> :: text"
fn known(prop: &str) -> Vec<(String, String)> {
    let p = verif_dir().join("known_findings.txt");
    let mut v = vec![];
    for l in fs::read_to_string(p).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("finding: ") {
            let mut sp = r.splitn(2, " :: ");
            let head = sp.next().unwrap_or("");
            let text = sp.next().unwrap_or("").to_string();
            let (mut pr, mut key) = ("", "");
            if let Some((a, b)) = head.split_once(" key=") {
                pr = a.trim().strip_prefix("property=").unwrap_or("");
                key = b.trim();
            }
            if pr == prop {
                v.push((key.to_string(), text));
            }
        }
    }
    v
}
pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("KMC_VERIF").unwrap_or("/verif".into()))
}

pub fn run(chk: Check, scratch: &Scratch, opts: &Opts, stages: Vec<Stage>) -> i32 {
    let t0 = Instant::now();
    let budget: u64 = std::env::var("KMC_BUDGET")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(opts.tier.pick(420, 3300));
    let deadline = t0 + Duration::from_secs(budget);
    let nw = if opts.only.is_some() { 1 } else { nworkers() };
    assert!(stages.len() <= 64);
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shm>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        SHM.store(p as usize, Relaxed);
    }
    let sh = shm().unwrap();
    // global item list: (stage, item)
    let mut items: Vec<(usize, usize)> = vec![];
    for (si, st) in stages.iter().enumerate() {
        for i in 0..st.n {
            if let Some((s, k)) = &opts.only {
                if *s != st.name || *k != i {
                    continue;
                }
            }
            items.push((si, i));
        }
    }
    if items.is_empty() {
        eprintln!("kmc: nothing to run");
        return 2;
    }
    let spawn = |wid: usize, gen_: usize, resume: Option<(usize, u64)>| -> libc::pid_t {
        let pid = unsafe { libc::fork() };
        if pid != 0 {
            return pid;
        }
        WID.store(wid, Relaxed);
        let dir = scratch.0.join(format!("w{}", wid));
        let _ = fs::create_dir_all(&dir);
        let out = fs::OpenOptions::new()
            .create(true)
            .append(true)
            .open(scratch.0.join(format!("res-{}-{}", wid, gen_)))
            .unwrap();
        let mut w = W {
            id: wid,
            tier: opts.tier,
            prop: chk.prop,
            dir,
            root: scratch.0.clone(),
            out,
            distinct: HashSet::new(),
            samples: 0,
            stage: String::new(),
            item: 0,
            nviol: 0,
            skip: 0,
        };
        std::panic::set_hook(Box::new(|i| {
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let m = i
                .payload()
                .downcast_ref::<String>()
                .cloned()
                .or(i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            trace_push(&format!("PANIC at {}: {}", loc, m));
        }));
        // silence the runtime's abort messages
        unsafe {
            if std::env::var("KMC_STDERR").is_err() {
                let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(n, 2);
            }
        }
        let mut resume = resume;
        loop {
            if sh.stop.load(Relaxed) != 0 {
                break;
            }
            let (k, skip) = resume.take().unwrap_or_else(|| (sh.next.fetch_add(1, Relaxed), 0));
            w.skip = skip;
            wshm().unwrap().case.store(0, Relaxed);
            wshm().unwrap().idx.store(k as u64, Relaxed);
            if k >= items.len() {
                break;
            }
            if Instant::now() > deadline {
                sh.capped.store(1, Relaxed);
                break;
            }
            let (si, i) = items[k];
            wshm().unwrap().item.store(((si as u64) << 32) | i as u64, Relaxed);
            w.stage = stages[si].name.clone();
            w.item = i;
            w.begin(&format!("{}:{}", w.stage.clone(), i));
            let t0 = Instant::now();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (stages[si].f)(&mut w, i)));
            if opts.verbose && t0.elapsed().as_secs() >= 5 {
                let _ = writeln!(w.out, "T\tslow item {}:{} {:.1}s", w.stage, i, t0.elapsed().as_secs_f64());
            }
            if r.is_err() {
                let _ = writeln!(w.out, "E\t{}", esc(&format!("{}:{} {}", w.stage, i, trace_get().join(" ; "))));
                sh.stop.store(1, Relaxed);
                break;
            }
            sh.done_items.fetch_add(1, Relaxed);
            sh.stage_done[si].fetch_add(1, Relaxed);
            if w.nviol >= 60 && std::env::var("KMC_CRASHES").is_err() {
                // enough
                sh.stop.store(1, Relaxed);
            }
        }
        let mut buf = String::new();
        for d in &w.distinct {
            buf.push_str(&format!("D\t{:x}\n", d));
        }
        let _ = w.out.write_all(buf.as_bytes());
        unsafe { libc::_exit(0) }
    };
    let mut pids: BTreeMap<libc::pid_t, (usize, usize)> = BTreeMap::new();
    let mut gens = vec![0usize; nw];
    for wid in 0..nw {
        pids.insert(spawn(wid, 0, None), (wid, 0));
    }
    let mut last: Vec<(u64, u64, Instant)> = (0..nw).map(|_| (0, 0, Instant::now())).collect();
    let mut crashes: Vec<Viol> = vec![];
    let mut internal: Vec<String> = vec![];
    let maxcrash = std::env::var("KMC_CRASHES").ok().and_then(|s| s.parse().ok()).unwrap_or(200);
    while !pids.is_empty() {
        let mut st = 0;
        let pid = unsafe { libc::waitpid(-1, &mut st, libc::WNOHANG) };
        if pid > 0 {
            let Some((wid, g)) = pids.remove(&pid) else { continue };
            let ws = &sh.w[wid];
            let bad = !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0);
            if bad {
                let it = ws.item.load(Relaxed);
                let (si, i) = ((it >> 32) as usize, (it & 0xffffffff) as usize);
                let name = cstr(unsafe { &*ws.name.get() });
                let label = cstr(unsafe { &*ws.label.get() });
                let hung = libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGKILL;
                let kind = if hung { "hang" } else { "crash" };
                let tr = ring_text(ws);
                let pan = tr.iter().rev().find(|l| l.starts_with("PANIC")).cloned().unwrap_or_default();
                let oom = hung && last[wid].2.elapsed().as_secs() < 20;
                if oom {
                    internal.push(format!("worker killed (memory?) in {}:{} {}", stages[si].name, i, name));
                } else {
                    let n = tr.len();
                    crashes.push(Viol {
                        key: format!("{}:{}:{}", kind, name, label),
                        what: format!("{} in {} (status {:#x}) {}", kind, name, st, pan),
                        stage: stages[si].name.clone(),
                        item: i,
                        trace: format!("[{}]", tr[n.saturating_sub(400)..].iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")),
                    });
                }
                if crashes.len() < maxcrash && internal.is_empty() && sh.stop.load(Relaxed) == 0 {
                    gens[wid] = g + 1;
                    last[wid] = (0, 0, Instant::now());
                    // items made of independent cases go on behind the one that ended the worker
                    let done = ws.case.load(Relaxed);
                    let resume = if done > 0 { Some((ws.idx.load(Relaxed) as usize, done)) } else { None };
                    pids.insert(spawn(wid, g + 1, resume), (wid, g + 1));
                }
            }
            continue;
        }
        let now = Instant::now();
        for (p, (wid, _)) in &pids {
            let ws = &sh.w[*wid];
            let (b, it) = (ws.beat.load(Relaxed), ws.item.load(Relaxed));
            if (b, it) != (last[*wid].0, last[*wid].1) {
                last[*wid] = (b, it, now);
            } else {
                let si = (it >> 32) as usize;
                if now.duration_since(last[*wid].2).as_secs() > stages[si].hang {
                    unsafe {
                        libc::kill(*p, libc::SIGKILL);
                    }
                }
            }
        }
        // hard stop far past the deadline
        if now > deadline + Duration::from_secs(120) {
            sh.capped.store(1, Relaxed);
            for p in pids.keys() {
                unsafe {
                    libc::kill(*p, libc::SIGTERM);
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    // collect
    let mut viols: Vec<Viol> = crashes;
    let mut samples: Vec<String> = vec![];
    let mut distinct: HashSet<String> = HashSet::new();
    for wid in 0..nw {
        for g in 0..=gens[wid] {
            let f = scratch.0.join(format!("res-{}-{}", wid, g));
            for l in fs::read_to_string(&f).unwrap_or_default().lines() {
                let p: Vec<&str> = l.split('\t').collect();
                match p[0] {
                    "V" if p.len() == 6 => viols.push(Viol {
                        key: unesc(p[1]),
                        what: unesc(p[2]),
                        stage: unesc(p[3]),
                        item: p[4].parse().unwrap_or(0),
                        trace: p[5].to_string(),
                    }),
                    "T" => eprintln!("{}", p[1]),
                    "S" => samples.push(p[1].to_string()),
                    "D" => {
                        distinct.insert(p[1].to_string());
                    }
                    "E" => internal.push(unesc(p[1])),
                    _ => (),
                }
            }
        }
    }
    samples.sort();
    samples.truncate(6);
    let sum = |c: usize| -> u64 { sh.w.iter().map(|w| w.cnt[c].load(Relaxed)).sum() };
    let ncalls: u64 = sh.w.iter().map(|w| w.beat.load(Relaxed)).sum();
    let kf = known(chk.prop);
    let mut seen_known: BTreeSet<String> = BTreeSet::new();
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut bad: Vec<&Viol> = vec![];
    viols.sort_by(|a, b| (a.stage.as_str(), a.item, a.key.as_str()).cmp(&(b.stage.as_str(), b.item, b.key.as_str())));
    for v in &viols {
        if kf.iter().any(|k| k.0 == v.key) {
            seen_known.insert(v.key.clone());
        } else if seen.insert(v.key.clone()) {
            bad.push(v);
        }
    }
    let capped = sh.capped.load(Relaxed) != 0;
    let stopped = sh.stop.load(Relaxed) != 0;
    let wall = t0.elapsed().as_secs_f64();
    // evidence
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut cov = String::new();
    let (ns, nt, ntr, ne) = (sum(STATES), sum(TRANS), sum(TRACES), sum(EVALS));
    if chk.level == "model_checking" {
        cov.push_str(&format!(
            "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},",
            ns, nt, ntr
        ));
    }
    cov.push_str(&format!(
        "\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},",
        if chk.level == "model_checking" { ntr.max(ne) } else { ne },
        distinct.len() as u64,
        esc(chk.rule)
    ));
    cov.push_str(&format!("\"library_calls\":{},", ncalls));
    for (k, v) in &chk.extra {
        cov.push_str(&format!("{}:{},", esc(k), v));
    }
    let st: Vec<String> = stages
        .iter()
        .enumerate()
        .map(|(i, s)| {
            format!(
                "{{\"stage\":{},\"items\":{},\"done\":{}}}",
                esc(&s.name), s.n, sh.stage_done[i].load(Relaxed)
            )
        })
        .collect();
    cov.push_str(&format!("\"stages\":[{}],", st.join(",")));
    cov.push_str(&format!("\"exhaustive\":{},", !capped && !stopped));
    cov.push_str(&format!("\"samples\":[{}]", samples.join(",")));
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{{}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{},\"known_findings_seen\":{}}}\n",
        esc(chk.prop),
        esc(if opts.tier == Tier::Quick { "quick" } else { "thorough" }),
        seed,
        esc(chk.level),
        cov,
        chk.assumptions.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
        wall,
        bad.len(),
        seen_known.len()
    );
    let vd = verif_dir();
    if opts.only.is_none() {
        let _ = fs::create_dir_all(vd.join("evidence"));
        let _ = fs::write(vd.join(format!("evidence/{}.json", chk.prop)), ev);
    }
    println!(
        "{} {:?}: items {}/{} calls {} states {} transitions {} traces {} evals {} distinct {} capped {} in {:.1}s",
        chk.prop, opts.tier, sh.done_items.load(Relaxed), items.len(), ncalls, ns, nt, ntr, ne, distinct.len(), capped, wall
    );
    for k in &kf {
        if seen_known.contains(&k.0) {
            println!("KNOWN-FINDING: property={} {} [{}]", chk.prop, k.1, k.0);
        } else if opts.verbose {
            println!("(known finding not observed: {})", k.0);
        }
    }
    if !bad.is_empty() {
        let rd = vd.join("replays");
        let _ = fs::create_dir_all(&rd);
        let nshow = if opts.verbose { 400 } else { 8 };
        for (i, v) in bad.iter().enumerate().take(nshow) {
            let f = rd.join(format!("{}-{}.json", chk.prop, i));
            if opts.only.is_none() {
                let _ = fs::write(
                    &f,
                    format!(
                        "{{\"property\":{},\"tier\":{},\"stage\":{},\"item\":{},\"key\":{},\"what\":{},\n\"trace\":{}}}\n",
                        esc(chk.prop),
                        esc(if opts.tier == Tier::Quick { "quick" } else { "thorough" }),
                        esc(&v.stage), v.item, esc(&v.key), esc(&v.what),
                        v.trace.replace("\",\"", "\",\n\"")
                    ),
                );
            }
            println!("  [{}] {}", v.key, v.what);
            println!("VIOLATION property={} replay={}", chk.prop, f.display());
        }
        println!("{}: {} distinct violations", chk.prop, bad.len());
        return 1;
    }
    if !internal.is_empty() {
        eprintln!("kmc: internal error: {}", internal[0]);
        return 2;
    }
    0
}
