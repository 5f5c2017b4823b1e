//! A controlled scheduler: real threads in a forked child, one running at a time, switched at the
//! library's lock acquisitions; every schedule within a preemption bound is run.
use kryoptic_lib::sync::{LOCK_HOOK, LockEvent};
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::{Condvar, Mutex};

thread_local!(static TID: Cell<Option<usize>> = const { Cell::new(None) });

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Pend {
    Start,
    Acq(usize, bool),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Run,
    Pend(Pend, bool),
    Done,
}
#[derive(Default, Clone)]
struct Lk {
    readers: Vec<usize>,
    writer: Option<usize>,
}
/// one decision: the thread that ran before, the threads that could go on, the one chosen
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Choice {
    pub last: Option<usize>,
    pub mask: u32,
    pub chosen: usize,
}
impl Choice {
    /// the alternatives in the order they are tried
    fn order(&self) -> Vec<usize> {
        let on = |t: usize| self.mask & (1 << t) != 0;
        let mut v: Vec<usize> = self.last.into_iter().filter(|t| on(*t)).collect();
        v.extend((0..32).filter(|t| on(*t) && Some(*t) != self.last));
        v
    }
    fn cost(&self, c: usize) -> usize {
        (self.last.is_some_and(|l| l != c && self.mask & (1 << l) != 0)) as usize
    }
}
#[derive(Default)]
struct S {
    on: bool,
    st: Vec<St>,
    locks: HashMap<usize, Lk>,
    names: HashMap<usize, usize>,
    plan: Vec<usize>,
    choices: Vec<Choice>,
    events: Vec<String>,
    last: Option<usize>,
    cur: Option<usize>,
    dead: bool,
    fin: bool,
    /// step of the first acquisition of the current call
    first: Vec<Option<usize>>,
}
static SCHED: Mutex<Option<S>> = Mutex::new(None);
static CV: Condvar = Condvar::new();

impl S {
    fn avail(&self, t: usize, p: Pend) -> bool {
        match p {
            Pend::Start => true,
            Pend::Acq(a, w) => {
                let Some(l) = self.locks.get(&a) else { return true };
                if l.writer.is_some() {
                    return false;
                }
                if w {
                    l.readers.is_empty()
                } else {
                    // a writer that waits keeps new readers out
                    !(0..self.st.len()).any(|x| x != t && self.st[x] == St::Pend(Pend::Acq(a, true), true))
                }
            }
        }
    }
    fn name(&mut self, a: usize) -> usize {
        let n = self.names.len();
        *self.names.entry(a).or_insert(n)
    }
    fn decide(&mut self) {
        loop {
            if self.st.iter().all(|s| *s == St::Done) {
                self.fin = true;
                break;
            }
            let mut mask = 0;
            for t in 0..self.st.len() {
                if let St::Pend(p, q) = self.st[t] {
                    let queue = match p {
                        Pend::Acq(a, true) => !q && self.locks.get(&a).is_some_and(|l| l.writer.is_none()),
                        _ => false,
                    };
                    if self.avail(t, p) || queue {
                        mask |= 1 << t;
                    }
                }
            }
            if mask == 0 {
                self.dead = true;
                for t in 0..self.st.len() {
                    if let St::Pend(Pend::Acq(a, w), _) = self.st[t] {
                        let l = self.locks.get(&a).cloned().unwrap_or_default();
                        let n = self.name(a);
                        self.events.push(format!("thread {} waits to {} lock {} held by {:?}{:?}", t, if w { "write" } else { "read" }, n, l.readers, l.writer.into_iter().collect::<Vec<_>>()));
                    }
                }
                break;
            }
            let mut c = Choice { last: self.last, mask, chosen: 0 };
            let k = self.choices.len();
            c.chosen = if k < self.plan.len() { self.plan[k] } else { c.order()[0] };
            assert!(mask & (1 << c.chosen) != 0, "the plan cannot be followed");
            self.choices.push(c);
            self.last = Some(c.chosen);
            let t = c.chosen;
            let St::Pend(p, _) = self.st[t] else { unreachable!() };
            if !self.avail(t, p) {
                let St::Pend(Pend::Acq(a, _), _) = self.st[t] else { unreachable!() };
                let n = self.name(a);
                self.events.push(format!("thread {} begins to wait for lock {}", t, n));
                self.st[t] = St::Pend(p, true);
                continue;
            }
            if let Pend::Acq(a, w) = p {
                let n = self.name(a);
                self.events.push(format!("thread {} {} lock {}", t, if w { "writes" } else { "reads" }, n));
                let l = self.locks.entry(a).or_default();
                if w {
                    l.writer = Some(t)
                } else {
                    l.readers.push(t)
                }
                if self.first[t].is_none() {
                    self.first[t] = Some(k);
                }
            }
            self.st[t] = St::Run;
            self.cur = Some(t);
            break;
        }
        CV.notify_all();
    }
}
fn pause(t: usize, p: Pend) {
    let mut g = SCHED.lock().unwrap();
    {
        let s = g.as_mut().unwrap();
        s.st[t] = St::Pend(p, false);
        if s.cur == Some(t) {
            s.cur = None;
            s.decide();
        }
    }
    loop {
        let s = g.as_ref().unwrap();
        if s.dead {
            drop(g);
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1000));
            }
        }
        if s.cur == Some(t) {
            return;
        }
        g = CV.wait(g).unwrap();
    }
}
fn hook(e: LockEvent, a: usize) {
    let Some(t) = TID.get() else { return };
    match e {
        LockEvent::Read => pause(t, Pend::Acq(a, false)),
        LockEvent::Write => pause(t, Pend::Acq(a, true)),
        LockEvent::ReadEnd | LockEvent::WriteEnd => {
            let mut g = SCHED.lock().unwrap();
            let l = g.as_mut().unwrap().locks.entry(a).or_default();
            if e == LockEvent::ReadEnd {
                let i = l.readers.iter().position(|x| *x == t).expect("a lock not held is released");
                l.readers.remove(i);
            } else {
                l.writer = None;
            }
        }
    }
}
/// begin of a call of this thread
pub fn call_begin() {
    let t = TID.get().unwrap();
    SCHED.lock().unwrap().as_mut().unwrap().first[t] = None;
}
/// end of the call: the steps of its first lock and of its end
pub fn call_end() -> (usize, usize) {
    let t = TID.get().unwrap();
    let mut g = SCHED.lock().unwrap();
    let s = g.as_mut().unwrap();
    let now = s.choices.len() - 1;
    s.events.push(format!("thread {} returns", t));
    (s.first[t].unwrap_or(now), now)
}
pub struct Rec {
    pub choices: Vec<Choice>,
    pub events: Vec<String>,
    pub dead: bool,
}
/// run the threads once, following the plan; in a process of its own
pub fn run_once(plan: &[usize], fs: Vec<Box<dyn FnOnce() + Send>>) -> Rec {
    let _ = LOCK_HOOK.set(hook);
    let n = fs.len();
    *SCHED.lock().unwrap() = Some(S { on: true, st: vec![St::Run; n], first: vec![None; n], plan: plan.to_vec(), ..S::default() });
    for (t, f) in fs.into_iter().enumerate() {
        std::thread::spawn(move || {
            TID.set(Some(t));
            pause(t, Pend::Start);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            if r.is_err() {
                std::process::abort();
            }
            TID.set(None);
            let mut g = SCHED.lock().unwrap();
            let s = g.as_mut().unwrap();
            s.st[t] = St::Done;
            s.cur = None;
            s.decide();
        });
    }
    // every thread has to be at its start
    let mut g = SCHED.lock().unwrap();
    loop {
        let s = g.as_mut().unwrap();
        if s.st.iter().all(|x| matches!(x, St::Pend(..))) {
            s.decide();
            break;
        }
        drop(g);
        std::thread::yield_now();
        g = SCHED.lock().unwrap();
    }
    loop {
        let s = g.as_ref().unwrap();
        if s.fin || s.dead {
            break;
        }
        g = CV.wait(g).unwrap();
    }
    let s = g.as_mut().unwrap();
    Rec { choices: std::mem::take(&mut s.choices), events: std::mem::take(&mut s.events), dead: s.dead }
}
/// the next schedule, depth first, within the preemption bound
pub fn next_plan(ch: &[Choice], bound: usize) -> Option<Vec<usize>> {
    let mut spent = vec![0; ch.len() + 1];
    for (i, c) in ch.iter().enumerate() {
        spent[i + 1] = spent[i] + c.cost(c.chosen);
    }
    for i in (0..ch.len()).rev() {
        let c = &ch[i];
        let o = c.order();
        let at = o.iter().position(|x| *x == c.chosen).unwrap();
        for &alt in &o[at + 1..] {
            if spent[i] + c.cost(alt) <= bound {
                let mut p: Vec<usize> = ch[..i].iter().map(|c| c.chosen).collect();
                p.push(alt);
                return Some(p);
            }
        }
    }
    None
}
