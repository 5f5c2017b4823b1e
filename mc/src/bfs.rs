//! Explicit-state search over a reference model, every transition replayed on the real library.
#![allow(dead_code)]
use crate::api::*;
use crate::engine::*;
use std::collections::{HashMap, VecDeque};
use std::fmt::Debug;
use std::hash::Hash;

#[derive(Clone, Debug)]
pub enum Exp {
    Ok,
    Rv(Rv),
    Any(Vec<Rv>),
    /// any error
    Err,
}
impl Exp {
    pub fn fits(&self, rv: Rv) -> bool {
        match self {
            Exp::Ok => rv == 0,
            Exp::Rv(r) => rv == *r,
            Exp::Any(v) => v.contains(&rv),
            Exp::Err => rv != 0,
        }
    }
    pub fn show(&self) -> String {
        match self {
            Exp::Ok => "CKR_OK".into(),
            Exp::Rv(r) => rvs(*r),
            Exp::Any(v) => v.iter().map(|r| rvs(*r)).collect::<Vec<_>>().join("|"),
            Exp::Err => "an error".into(),
        }
    }
}
pub trait Model: Clone + Eq + Hash + Debug {
    type Op: Clone + Debug + Eq + Hash;
    fn ops(&self) -> Vec<Self::Op>;
    fn step(&self, op: &Self::Op) -> (Exp, Self);
    /// true if the operation may change implementation state that the model abstracts from
    fn dirty(&self, _op: &Self::Op) -> bool {
        false
    }
}
pub trait Sys<M: Model> {
    /// back to the model's initial state
    fn reset(&mut self);
    fn exec(&mut self, op: &M::Op, before: &M) -> Rv;
    /// compare everything observable with the model state
    fn probe(&mut self, m: &M) -> Result<(), String>;
    /// a probe that may change the implementation's state (the history is replayed afterwards);
    /// true if it did anything
    fn deep(&mut self, _m: &M) -> Result<bool, String> {
        Ok(false)
    }
}

pub struct Graph<M: Model> {
    /// (state, path of ops from init)
    pub nodes: Vec<(M, Vec<M::Op>)>,
    pub edges: usize,
    pub depth: usize,
    pub closed: bool,
}
/// Breadth-first search; nodes are model states extended with the last `hist` operations.
pub fn explore<M: Model>(init: M, hist: usize, max_depth: usize, max_nodes: usize) -> Graph<M> {
    let mut seen: HashMap<(M, Vec<M::Op>), ()> = HashMap::new();
    let mut g = Graph { nodes: vec![], edges: 0, depth: 0, closed: true };
    let mut q = VecDeque::new();
    seen.insert((init.clone(), vec![]), ());
    q.push_back((init, Vec::<M::Op>::new()));
    while let Some((m, path)) = q.pop_front() {
        g.depth = g.depth.max(path.len());
        let ops = m.ops();
        g.edges += ops.len();
        if path.len() < max_depth {
            for op in ops {
                let (_, m2) = m.step(&op);
                let mut p2 = path.clone();
                p2.push(op);
                let tail: Vec<M::Op> = p2[p2.len().saturating_sub(hist)..].to_vec();
                let key = (m2.clone(), tail);
                if !seen.contains_key(&key) {
                    if seen.len() >= max_nodes {
                        g.closed = false;
                        continue;
                    }
                    seen.insert(key, ());
                    q.push_back((m2, p2));
                }
            }
        } else {
            g.closed = false;
        }
        g.nodes.push((m, path));
    }
    g
}

fn keyof<O: Debug>(path: &[O], op: &O) -> String {
    // canonical identity of a failing history
    let mut v: Vec<String> = path.iter().map(|o| format!("{:?}", o)).collect();
    v.push(format!("{:?}", op));
    v.join(";")
}

/// Validate one node: replay its path, then every operation from it.
pub fn check_node<M: Model, S: Sys<M>>(
    w: &mut W,
    g: &Graph<M>,
    i: usize,
    init: &M,
    sys: &mut S,
    name: &str,
) {
    let (m, path) = &g.nodes[i];
    w.add(STATES, 1);
    let replay = |w: &mut W, sys: &mut S| -> Result<(), (String, String)> {
        w.begin(&format!("{}:{:?}", name, path));
        sys.reset();
        w.add(TRACES, 1);
        let mut cur = init.clone();
        for (k, op) in path.iter().enumerate() {
            let (e, nx) = cur.step(op);
            let rv = sys.exec(op, &cur);
            if !e.fits(rv) {
                return Err((
                    format!("{}/{}", name, keyof(&path[..k], op)),
                    format!("{:?} returned {}, expected {}", op, rvs(rv), e.show()),
                ));
            }
            cur = nx;
        }
        Ok(())
    };
    if let Err((k, t)) = replay(w, sys) {
        w.viol(&k, &t);
        return;
    }
    if let Err(e) = sys.probe(m) {
        w.viol(
            &format!("{}/probe/{}", name, path.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>().join(";")),
            &format!("after {:?}: {}", path, e),
        );
        return;
    }
    let mut fresh = true;
    for op in m.ops() {
        let (e, nx) = m.step(&op);
        if !fresh {
            if let Err((k, t)) = replay(w, sys) {
                w.viol(&k, &format!("(not reproducible) {}", t));
                return;
            }
        }
        w.add(TRANS, 1);
        w.distinct(&(name, m, &op));
        let rv = sys.exec(&op, m);
        if !e.fits(rv) {
            w.viol(
                &format!("{}/{}", name, keyof(path, &op)),
                &format!("{:?} returned {}, expected {} in {:?}", op, rvs(rv), e.show(), m),
            );
            fresh = false;
            continue;
        }
        if let Err(e) = sys.probe(&nx) {
            w.viol(
                &format!("{}/probe/{}", name, keyof(path, &op)),
                &format!("after {:?} then {:?}: {}", path, op, e),
            );
            fresh = false;
            continue;
        }
        let deep = match sys.deep(&nx) {
            Ok(d) => d,
            Err(e) => {
                w.viol(
                    &format!("{}/deep/{}", name, keyof(path, &op)),
                    &format!("after {:?} then {:?}: {}", path, op, e),
                );
                true
            }
        };
        // an operation that leaves the model state alone needs no reset: the probe just confirmed it
        fresh = nx == *m && !m.dirty(&op) && !deep;
        if !fresh {
            w.sample_trace();
        }
    }
}

/// Plain enumeration of all histories of exactly `depth` operations after `prefix` (no merging);
/// item i is the i-th history in lexicographic order. Returns number of histories if all op lists
/// have the fixed size n.
pub fn run_history<M: Model, S: Sys<M>>(
    w: &mut W,
    init: &M,
    ops: &[M::Op],
    sys: &mut S,
    name: &str,
) -> bool {
    w.begin(&format!("{}:{:?}", name, ops));
    sys.reset();
    w.add(TRACES, 1);
    let mut cur = init.clone();
    for (k, op) in ops.iter().enumerate() {
        let (e, nx) = cur.step(op);
        let rv = sys.exec(op, &cur);
        w.add(TRANS, 1);
        if !e.fits(rv) {
            w.viol(
                &format!("{}/{}", name, keyof(&ops[..k], op)),
                &format!("{:?} returned {}, expected {} in {:?}", op, rvs(rv), e.show(), cur),
            );
            return false;
        }
        cur = nx;
        if let Err(e) = sys.probe(&cur) {
            w.viol(
                &format!("{}/probe/{}", name, keyof(&ops[..k], op)),
                &format!("after {:?}: {}", &ops[..=k], e),
            );
            return false;
        }
    }
    true
}
