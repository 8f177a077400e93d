//! Symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    E(Eid),
    A(Rc<[V]>),
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub fx: u32,
    pub pc: u32,
    pub regs: Vec<V>,
    pub dst: u32,
    pub normal: Option<&'static Edge>,
    pub allocas: Vec<u64>,
}

#[derive(Clone)]
pub struct VarInfo {
    pub dom: Bits,
    pub repl: Eid,
    pub ent: bool,
    pub single: Rc<Vec<Eid>>,
}

#[derive(Clone)]
pub struct State {
    pub top: Frame,
    pub rest: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub multi: Rc<Vec<Eid>>,
    pub vars: Vec<VarInfo>,
    pub nrepl: u32,
    pub model: Rc<Vec<u8>>,
    pub model_id: u64,
    pub eqs: Rc<Vec<(Eid, u128)>>,
    pub choices: Vec<u32>,
    pub forced: Rc<Vec<u32>>,
    pub follow: u64,
    pub pend: Option<u64>,
    pub pend_choice: bool,
    pub obs: Vec<(u32, Vec<V>)>,
    pub steps: u64,
    pub depth: u32,
    pub hash: u64,
}

#[derive(Clone, Debug)]
pub enum End {
    Ok,
    Assume,
    Assert(String),
    Panic(String),
    Mem(String),
    Limit,
    Pruned,
    Error(String),
}

pub enum Stop {
    Retry,
    End(End),
}
type R<T> = Result<T, Stop>;

fn err<T>(s: String) -> R<T> {
    Err(Stop::End(End::Error(s)))
}

#[derive(Clone, Debug)]
pub struct Job {
    pub id: usize,
    pub entry: String,
    pub params: Vec<u64>,
    pub name: String,
    pub max_steps: u64,
    pub mandatory: bool,
}

#[derive(Clone, Debug)]
pub struct WorkItem {
    pub job: usize,
    pub model: Vec<u8>,
    pub choices: Vec<u32>,
    pub follow: u64,
}

#[derive(Clone, Debug)]
pub struct PathRec {
    pub job: usize,
    pub bytes: Vec<u8>,
    pub choices: Vec<u32>,
    pub obs: Vec<(u32, Vec<u64>)>,
    pub end: End,
    pub where_: String,
}

#[derive(Default, Clone, Debug)]
pub struct JobStats {
    pub paths: u64,
    pub ok: u64,
    pub assumed: u64,
    pub pruned: u64,
    pub forks: u64,
    pub sym_branches: u64,
    pub asserts: u64,
    pub asserts_sym: u64,
    pub instrs: u64,
    pub errors: BTreeMap<String, u64>,
    pub reached: BTreeMap<String, u64>,
    pub expected: BTreeSet<String>,
    pub max_depth: u32,
    pub max_bytes: usize,
    pub nviol: u64,
    pub wall: f64,
    pub complete: bool,
}

#[derive(Default, Clone, Debug)]
pub struct SolverStats {
    pub z3_queries: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub z3_unknown: u64,
    pub z3_ns: u64,
    pub z3_max_ns: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub dom_decisions: u64,
    pub dom_confirmed: u64,
}

pub struct Queue {
    pub items: VecDeque<WorkItem>,
    pub active: Vec<usize>, // active work per job
    pub idle: usize,
    pub done: bool,
}

pub struct Shared {
    pub jobs: Vec<Job>,
    pub q: Mutex<Queue>,
    pub cv: Condvar,
    pub want: AtomicUsize, // number of idle workers wanting work
    pub stop: AtomicBool,
    pub deadline: Instant,
    pub nworkers: usize,
    pub res: Mutex<Results>,
    pub seen: Vec<Mutex<HashSet<u128>>>,
    pub mem_limit_nodes: usize,
    pub max_viol: u64,
    pub viol_count: AtomicUsize,
}

#[derive(Default)]
pub struct Results {
    pub viol: Vec<PathRec>,
    pub samples: Vec<PathRec>,
    pub jobs: Vec<JobStats>,
    pub solver: SolverStats,
    pub fn_calls: HashMap<u32, u64>,
    pub cover: HashMap<u32, Vec<u64>>,
}

pub struct Worker {
    pub m: &'static Module,
    pub ar: Arena,
    pub z3: Z3,
    pub sh: &'static Shared,
    pub stack: VecDeque<State>,
    pub job: usize,
    pub st: Vec<JobStats>,
    pub ss: SolverStats,
    pub fn_calls: Vec<u64>,
    pub cover: HashMap<u32, Vec<u64>>,
    qcache: FxMap<Box<[u32]>, Option<Vec<(u32, u8)>>>,
    confirm: HashSet<(Eid, Bits)>,
    next_model: u64,
    pub samples: Vec<PathRec>,
    pub sample_seen: Vec<u64>,
    pub sample_cap: u64,
    pub rng: u64,
    ext: HashMap<u32, Ext>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ext {
    Bytes, Choose, Assume, Assert, Obs, ObsBytes, Reach, Expect, Param, Conc, Prune,
    Malloc, Calloc, Realloc, Free, Memalign, Bcmp, Memcmp, Strlen, Fail, IsSym,
    Unknown,
}

fn full_dom() -> Bits {
    [u64::MAX; 4]
}
fn bits_and(a: &Bits, b: &Bits) -> Bits {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn bits_empty(a: &Bits) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
fn bits_count(a: &Bits) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
fn bits_first(a: &Bits) -> u8 {
    for i in 0..4 {
        if a[i] != 0 {
            return (i * 64) as u8 + a[i].trailing_zeros() as u8;
        }
    }
    0
}
fn bits_has(a: &Bits, v: u8) -> bool {
    a[v as usize / 64] >> (v % 64) & 1 == 1
}

fn m64(w: u32) -> u64 {
    if w >= 64 { u64::MAX } else { (1u64 << w) - 1 }
}

impl Worker {
    pub fn new(m: &'static Module, sh: &'static Shared, api: Api, seed: u64) -> Self {
        Worker {
            m,
            ar: Arena::new(),
            z3: Z3::new(api, 60_000),
            sh,
            stack: VecDeque::new(),
            job: 0,
            st: vec![JobStats::default(); sh.jobs.len()],
            ss: SolverStats::default(),
            fn_calls: vec![0; m.fns.len()],
            cover: HashMap::new(),
            qcache: Default::default(),
            confirm: HashSet::new(),
            next_model: 1,
            samples: vec![],
            sample_seen: vec![0; sh.jobs.len()],
            sample_cap: 6,
            rng: seed | 1,
            ext: HashMap::new(),
        }
    }
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    // ------------------------------------------------------------ values
    fn v_of(&self, e: Eid) -> V {
        if self.ar.w(e) <= 64 {
            if let Some(c) = self.ar.cval(e) {
                return V::C(c as u64);
            }
        }
        V::E(e)
    }
    fn to_e(&mut self, v: &V, w: u32) -> Eid {
        match v {
            V::C(c) => self.ar.konst(*c as u128, w),
            V::E(e) => *e,
            V::A(_) => panic!("to_e aggregate"),
        }
    }
    fn cv(&mut self, ty: &Ty, c: &Cv) -> V {
        match ty {
            Ty::Int(w) if *w > 64 => {
                let x = match c {
                    Cv::I(v) => *v,
                    _ => 0,
                };
                V::E(self.ar.konst(x, *w))
            }
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => V::C(match c {
                Cv::I(v) => *v as u64,
                _ => 0,
            }),
            Ty::Void | Ty::Meta => V::C(0),
            _ => {
                let n = ty.nelems();
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    let et = ty.elem(i);
                    let x = match c {
                        Cv::Agg(a) => self.cv(et, &a[i]),
                        Cv::Bytes(b) => V::C(b[i] as u64),
                        _ => self.cv(et, &Cv::Zero),
                    };
                    v.push(x);
                }
                V::A(v.into())
            }
        }
    }
    #[inline]
    fn ev(&mut self, st: &State, o: &Opd) -> V {
        match o {
            Opd::R(r) => st.top.regs[*r as usize].clone(),
            Opd::C(c) => V::C(*c),
            Opd::W(v) => V::E(self.ar.konst(*v, 128)),
            Opd::K(b) => self.cv(&b.0, &b.1),
        }
    }
    fn ev_w(&mut self, st: &State, o: &Opd, w: u32) -> V {
        match o {
            Opd::W(v) => V::E(self.ar.konst(*v, w)),
            _ => self.ev(st, o),
        }
    }

    // ------------------------------------------------------------ constraints
    fn simp(&mut self, st: &State, e: Eid) -> Eid {
        if st.nrepl == 0 {
            return e;
        }
        let vs = self.ar.vars(e).clone();
        if !vs.iter().any(|v| st.vars[*v as usize].repl != 0) {
            return e;
        }
        let mut memo = Default::default();
        let f = |v: u32| {
            let r = st.vars[v as usize].repl;
            if r != 0 { Some(r) } else { None }
        };
        let mut cur = e;
        for _ in 0..8 {
            let n = self.ar.subst(cur, &f, &mut memo);
            if n == cur {
                break;
            }
            cur = n;
            let vs = self.ar.vars(cur).clone();
            if !vs.iter().any(|v| st.vars[*v as usize].repl != 0) {
                break;
            }
            memo = Default::default();
        }
        cur
    }
    /// simplify a condition with replacement and domains
    fn simp_cond(&mut self, st: &State, e: Eid) -> Eid {
        let e = self.simp(st, e);
        if self.ar.cval(e).is_some() {
            return e;
        }
        let vs = self.ar.vars(e).clone();
        if vs.len() == 1 {
            let v = vs[0];
            let t = self.ar.truth(e);
            let d = st.vars[v as usize].dom;
            let i = bits_and(&t, &d);
            if bits_empty(&i) {
                self.confirm_unsat(st, v, e);
                return self.ar.f();
            }
            if i == d {
                let n = self.ar.not(e);
                self.confirm_unsat(st, v, n);
                return self.ar.t();
            }
        }
        e
    }
    fn confirm_unsat(&mut self, st: &State, v: u32, c: Eid) {
        self.ss.dom_decisions += 1;
        let d = st.vars[v as usize].dom;
        if !self.confirm.insert((c, d)) {
            return;
        }
        let mut cs: Vec<Eid> = st.vars[v as usize].single.to_vec();
        cs.push(c);
        let mut mv = vec![];
        let r = self.z3.check(&self.ar, &cs, &[], &mut mv);
        if r != Sat::Unsat {
            eprintln!("FATAL: domain/Z3 disagreement on {} ({:?})", self.ar.show(c, 12), r);
            std::process::exit(3);
        }
        self.ss.dom_confirmed += 1;
    }

    fn add(&mut self, st: &mut State, c: Eid) {
        let c = self.simp(st, c);
        if let Some(v) = self.ar.cval(c) {
            if v == 0 {
                eprintln!("warning: adding false constraint");
            }
            return;
        }
        let n = self.ar.n(c);
        if n.op == Op::And {
            self.add(st, n.a);
            self.add(st, n.b);
            return;
        }
        let vs = self.ar.vars(c).clone();
        if vs.len() == 1 {
            let v = vs[0] as usize;
            let t = self.ar.truth(c);
            let nd = bits_and(&t, &st.vars[v].dom);
            if nd == st.vars[v].dom {
                return;
            }
            st.vars[v].dom = nd;
            Rc::make_mut(&mut st.vars[v].single).push(c);
            if bits_count(&nd) == 1 && st.vars[v].repl == 0 {
                let k = self.ar.konst(bits_first(&nd) as u128, 8);
                st.vars[v].repl = k;
                st.nrepl += 1;
            }
            return;
        }
        for v in vs.iter() {
            st.vars[*v as usize].ent = true;
        }
        if !st.multi.contains(&c) {
            Rc::make_mut(&mut st.multi).push(c);
        }
        if n.op == Op::Eq {
            let (a, b) = (self.ar.n(n.a), self.ar.n(n.b));
            if a.op == Op::Var && b.op == Op::Var {
                let (x, y) = (a.k.min(b.k) as usize, a.k.max(b.k) as usize);
                // y := x
                let dx = st.vars[x].dom;
                let dy = st.vars[y].dom;
                let nd = bits_and(&dx, &dy);
                let xe = self.ar.var(x as u32);
                if nd != dx {
                    // carry y's single constraints over to x
                    let ys = st.vars[y].single.clone();
                    let f = |v: u32| if v == y as u32 { Some(xe) } else { None };
                    for s in ys.iter() {
                        let mut memo = Default::default();
                        let s2 = self.ar.subst(*s, &f, &mut memo);
                        self.add(st, s2);
                    }
                }
                if st.vars[y].repl == 0 {
                    let r = if st.vars[x].repl != 0 { st.vars[x].repl } else { xe };
                    st.vars[y].repl = r;
                    st.nrepl += 1;
                }
            }
        }
    }

    fn fresh_model(&mut self, m: Vec<u8>) -> (Rc<Vec<u8>>, u64) {
        self.next_model += 1;
        (Rc::new(m), self.next_model)
    }

    fn try_solve(&mut self, st: &State, e: Eid, target: u128, out: &mut Vec<(u32, u8)>, d: u32) -> bool {
        if d > 12 {
            return false;
        }
        let n = self.ar.n(e);
        match n.op {
            Op::Const => self.ar.cval(e) == Some(target),
            Op::Var => {
                out.push((n.k as u32, target as u8));
                true
            }
            Op::Concat => {
                let lw = self.ar.w(n.b);
                self.try_solve(st, n.a, target >> lw, out, d + 1) && self.try_solve(st, n.b, target & mask(lw), out, d + 1)
            }
            Op::ZExt => target >> self.ar.w(n.a) == 0 && self.try_solve(st, n.a, target, out, d + 1),
            Op::Add => {
                if let Some(k) = self.ar.cval(n.b) {
                    self.try_solve(st, n.a, target.wrapping_sub(k) & mask(n.w as u32), out, d + 1)
                } else {
                    false
                }
            }
            Op::Xor => {
                if let Some(k) = self.ar.cval(n.b) {
                    self.try_solve(st, n.a, target ^ k, out, d + 1)
                } else {
                    false
                }
            }
            Op::Extract => {
                let x = self.ar.n(n.a);
                if x.op == Op::Var {
                    let cur = st.model.get(x.k as usize).cloned().unwrap_or(0) as u128;
                    let m = mask(n.w as u32) << n.k;
                    out.push((x.k as u32, ((cur & !m) | (target << n.k)) as u8));
                    return true;
                }
                false
            }
            _ => false,
        }
    }
    fn guess(&mut self, st: &State, c: Eid, want: bool, out: &mut Vec<(u32, u8)>, d: u32) -> bool {
        if d > 8 {
            return false;
        }
        let n = self.ar.n(c);
        match n.op {
            Op::Xor if self.ar.cval(n.b) == Some(1) => self.guess(st, n.a, !want, out, d + 1),
            Op::And => {
                if want {
                    self.guess(st, n.a, true, out, d + 1) && self.guess(st, n.b, true, out, d + 1)
                } else {
                    self.guess(st, n.a, false, out, d + 1)
                }
            }
            Op::Or => {
                if want {
                    self.guess(st, n.a, true, out, d + 1)
                } else {
                    self.guess(st, n.a, false, out, d + 1) && self.guess(st, n.b, false, out, d + 1)
                }
            }
            Op::Eq => {
                let vb = self.ar.eval(n.b, &st.model, st.model_id);
                let t = if want { vb } else { (vb + 1) & mask(self.ar.w(n.b)) };
                let l = out.len();
                if self.try_solve(st, n.a, t, out, 0) {
                    return true;
                }
                out.truncate(l);
                let va = self.ar.eval(n.a, &st.model, st.model_id);
                let t = if want { va } else { (va + 1) & mask(self.ar.w(n.b)) };
                self.try_solve(st, n.b, t, out, 0)
            }
            Op::Ult => {
                if let Some(k) = self.ar.cval(n.b) {
                    let t = if want { k - 1 } else { k };
                    self.try_solve(st, n.a, t, out, 0)
                } else if let Some(k) = self.ar.cval(n.a) {
                    let t = if want { k + 1 } else { k };
                    self.try_solve(st, n.b, t & mask(self.ar.w(n.b)), out, 0)
                } else {
                    let vb = self.ar.eval(n.b, &st.model, st.model_id);
                    let t = if want { if vb == 0 { return false } else { vb - 1 } } else { vb };
                    self.try_solve(st, n.a, t, out, 0)
                }
            }
            Op::Var | Op::Extract => self.try_solve(st, c, want as u128, out, 0),
            _ => false,
        }
    }

    /// Is pc ∧ c satisfiable? (c already simplified, non-constant.) Returns a model.
    fn feasible(&mut self, st: &State, c: Eid) -> Result<Option<(Rc<Vec<u8>>, u64)>, Stop> {
        if let Some(v) = self.ar.cval(c) {
            return Ok(if v == 1 { Some((st.model.clone(), st.model_id)) } else { None });
        }
        if self.ar.eval(c, &st.model, st.model_id) == 1 {
            return Ok(Some((st.model.clone(), st.model_id)));
        }
        let vs = self.ar.vars(c).clone();
        if vs.len() == 1 {
            let v = vs[0];
            let t = self.ar.truth(c);
            let i = bits_and(&t, &st.vars[v as usize].dom);
            if bits_empty(&i) {
                self.confirm_unsat(st, v, c);
                return Ok(None);
            }
            if !st.vars[v as usize].ent {
                self.ss.dom_decisions += 1;
                let mut m = (*st.model).clone();
                m[v as usize] = bits_first(&i);
                return Ok(Some(self.fresh_model(m)));
            }
        }
        // guess
        let mut g = vec![];
        if vs.len() == 1 {
            let i = bits_and(&self.ar.truth(c), &st.vars[vs[0] as usize].dom);
            g.push((vs[0], bits_first(&i)));
        } else if !self.guess(st, c, true, &mut g, 0) {
            g.clear();
        }
        if !g.is_empty() && g.iter().all(|(v, x)| (*v as usize) < st.vars.len() && bits_has(&st.vars[*v as usize].dom, *x)) {
            let mut m = (*st.model).clone();
            for (v, x) in &g {
                m[*v as usize] = *x;
            }
            // propagate replacements (equal vars)
            let mut changed: Vec<u32> = g.iter().map(|x| x.0).collect();
            for (i, vi) in st.vars.iter().enumerate() {
                if vi.repl != 0 {
                    let n = self.ar.n(vi.repl);
                    if n.op == Op::Var && changed.contains(&(n.k as u32)) {
                        m[i] = m[n.k as usize];
                        if bits_has(&vi.dom, m[i]) {
                            changed.push(i as u32);
                        }
                    }
                }
            }
            let (m, id) = self.fresh_model(m);
            let mut ok = self.ar.eval(c, &m, id) == 1;
            if ok {
                for k in st.multi.iter() {
                    if self.ar.eval(*k, &m, id) != 1 {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                for v in &changed {
                    if !bits_has(&st.vars[*v as usize].dom, m[*v as usize]) {
                        ok = false;
                    }
                }
            }
            if ok {
                self.ss.model_hits += 1;
                return Ok(Some((m, id)));
            }
        }
        // slice
        let mut inset: HashSet<u32> = vs.iter().cloned().collect();
        let mut used = vec![false; st.multi.len()];
        loop {
            let mut ch = false;
            for (i, k) in st.multi.iter().enumerate() {
                if !used[i] {
                    let kv = self.ar.vars(*k);
                    if kv.iter().any(|v| inset.contains(v)) {
                        used[i] = true;
                        ch = true;
                        for v in kv.iter() {
                            inset.insert(*v);
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut cs: Vec<Eid> = vec![];
        for (i, k) in st.multi.iter().enumerate() {
            if used[i] {
                cs.push(*k);
            }
        }
        let mut vars: Vec<u32> = inset.into_iter().collect();
        vars.sort_unstable();
        for v in &vars {
            cs.extend(st.vars[*v as usize].single.iter());
        }
        cs.sort_unstable();
        cs.dedup();
        cs.push(c);
        let key: Box<[u32]> = cs.clone().into_boxed_slice();
        if let Some(r) = self.qcache.get(&key) {
            self.ss.cache_hits += 1;
            return Ok(match r {
                None => None,
                Some(ms) => {
                    let mut m = (*st.model).clone();
                    for (v, x) in ms {
                        m[*v as usize] = *x;
                    }
                    Some(self.fresh_model(m))
                }
            });
        }
        let mut mv = vec![];
        let r = self.z3.check(&self.ar, &cs, &vars, &mut mv);
        match r {
            Sat::Unknown => Err(Stop::End(End::Error("solver timeout/unknown".into()))),
            Sat::Unsat => {
                self.qcache.insert(key, None);
                Ok(None)
            }
            Sat::Sat => {
                let mut m = (*st.model).clone();
                for (v, x) in &mv {
                    m[*v as usize] = *x;
                }
                self.qcache.insert(key, Some(mv));
                let (m, id) = self.fresh_model(m);
                if self.ar.eval(c, &m, id) != 1 || st.multi.iter().any(|k| self.ar.eval(*k, &m, id) != 1) {
                    eprintln!("FATAL: Z3 model does not satisfy the path condition: {}", self.ar.show(c, 8));
                    std::process::exit(3);
                }
                Ok(Some((m, id)))
            }
        }
    }

    fn following(&self, st: &State) -> bool {
        st.steps <= st.follow
    }

    fn push(&mut self, s: State) {
        self.st[self.job].forks += 1;
        self.stack.push_back(s);
    }

    /// decide a symbolic condition, forking if both sides are feasible
    fn decide(&mut self, st: &mut State, c: Eid) -> R<bool> {
        if let Some(p) = st.pend.take() {
            return Ok(p == 1);
        }
        let e = self.simp_cond(st, c);
        if let Some(v) = self.ar.cval(e) {
            return Ok(v == 1);
        }
        let mv = self.ar.eval(e, &st.model, st.model_id) == 1;
        let ne = self.ar.not(e);
        let (pos, neg) = if mv { (e, ne) } else { (ne, e) };
        if self.following(st) {
            self.add(st, pos);
            return Ok(mv);
        }
        self.st[self.job].sym_branches += 1;
        match self.feasible(st, neg)? {
            None => {
                // implied by the path condition. A replayed prefix adds it; only constraints that influence
                // simplification need to be added here too, so that both simplify identically.
                let n = self.ar.n(pos);
                let simple = self.ar.vars(pos).len() > 1
                    && n.op != Op::And
                    && !(n.op == Op::Eq && self.ar.n(n.a).op == Op::Var && self.ar.n(n.b).op == Op::Var);
                if !simple {
                    self.add(st, pos);
                }
                Ok(mv)
            }
            Some((m, id)) => {
                let mut o = st.clone();
                self.add(&mut o, neg);
                o.model = m;
                o.model_id = id;
                o.pend = Some(!mv as u64);
                o.steps -= 1;
                o.depth += 1;
                st.depth += 1;
                self.push(o);
                self.add(st, pos);
                Ok(mv)
            }
        }
    }
    fn decide_v(&mut self, st: &mut State, v: &V) -> R<bool> {
        match v {
            V::C(c) => Ok(c & 1 == 1),
            V::E(e) => self.decide(st, *e),
            _ => err("branch on aggregate".into()),
        }
    }

    fn known(&mut self, st: &State, e: Eid) -> Option<u128> {
        let e2 = self.simp(st, e);
        if let Some(v) = self.ar.cval(e2) {
            return Some(v);
        }
        for (x, v) in st.eqs.iter() {
            if *x == e2 || *x == e {
                return Some(*v);
            }
        }
        None
    }

    /// make an expression concrete, forking over every feasible value (cap -> error)
    fn concretize(&mut self, st: &mut State, e: Eid, cap: usize, what: &str) -> R<u64> {
        if let Some(v) = self.known(st, e) {
            return Ok(v as u64);
        }
        let e2 = self.simp(st, e);
        let w = self.ar.w(e2);
        let mv = self.ar.eval(e2, &st.model, st.model_id);
        let fix = |me: &mut Worker, s: &mut State, v: u128| {
            let k = me.ar.konst(v, w);
            let c = me.ar.eq(e2, k);
            me.add(s, c);
            Rc::make_mut(&mut s.eqs).push((e2, v));
        };
        if self.following(st) {
            fix(self, st, mv);
            return Err(Stop::Retry);
        }
        self.st[self.job].sym_branches += 1;
        let vs = self.ar.vars(e2).clone();
        let mut seen = vec![mv];
        if vs.len() == 1 {
            let l = self.ar.lanes_of(e2);
            let d = st.vars[vs[0] as usize].dom;
            let mut vals: Vec<u128> = (0..256).filter(|i| bits_has(&d, *i as u8)).map(|i| l[i]).collect();
            vals.sort_unstable();
            vals.dedup();
            if vals.len() > cap {
                return err(format!("concretisation cap exceeded ({} values) for {}", vals.len(), what));
            }
            for v in vals {
                if v == mv {
                    continue;
                }
                let k = self.ar.konst(v, w);
                let c = self.ar.eq(e2, k);
                if let Some((m, id)) = self.feasible(st, c)? {
                    let mut o = st.clone();
                    o.model = m;
                    o.model_id = id;
                    o.depth += 1;
                    fix(self, &mut o, v);
                    self.push(o);
                    seen.push(v);
                }
            }
        } else {
            let k = self.ar.konst(mv, w);
            let c = self.ar.eq(e2, k);
            let mut excl = self.ar.not(c);
            loop {
                match self.feasible(st, excl)? {
                    None => break,
                    Some((m, id)) => {
                        let v = self.ar.eval(e2, &m, id);
                        let mut o = st.clone();
                        o.model = m;
                        o.model_id = id;
                        o.depth += 1;
                        fix(self, &mut o, v);
                        self.push(o);
                        seen.push(v);
                        if seen.len() > cap {
                            return err(format!("concretisation cap exceeded ({}+ values) for {}: {}", cap, what, self.ar.show(e2, 6)));
                        }
                        let k = self.ar.konst(v, w);
                        let c = self.ar.eq(e2, k);
                        let nc = self.ar.not(c);
                        excl = self.ar.and(excl, nc);
                    }
                }
            }
        }
        st.depth += (seen.len() > 1) as u32;
        fix(self, st, mv);
        Err(Stop::Retry)
    }
    fn conc_v(&mut self, st: &mut State, v: &V, what: &str) -> R<u64> {
        match v {
            V::C(c) => Ok(*c),
            V::E(e) => self.concretize(st, *e, 400, what),
            _ => err("concretize aggregate".into()),
        }
    }

    // ------------------------------------------------------------ memory
    fn merr<T>(&self, e: MErr) -> R<T> {
        let MErr::Bad(s) = e;
        Err(Stop::End(End::Mem(s)))
    }
    fn load_bytes(&mut self, st: &State, addr: u64, n: usize) -> R<V> {
        // n <= 16
        let r = match st.mem.rd(self.m, addr, n) {
            Ok(r) => r,
            Err(e) => return self.merr(e),
        };
        let (d, s) = r;
        let issym = match s {
            None => false,
            Some(s) => s.iter().any(|x| *x != 0),
        };
        if !issym {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(d);
                return Ok(V::C(u64::from_le_bytes(b)));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(d);
            return Ok(V::E(self.ar.konst(u128::from_le_bytes(b), 8 * n as u32)));
        }
        let s = s.unwrap();
        let es: Vec<(u8, Eid)> = (0..n).map(|i| (d[i], s[i])).collect();
        let mut acc: Option<Eid> = None;
        for (c, e) in es {
            let b = if e == 0 { self.ar.konst(c as u128, 8) } else { self.simp(st, e) };
            acc = Some(match acc {
                None => b,
                Some(l) => self.ar.concat(b, l),
            });
        }
        Ok(self.v_of(acc.unwrap()))
    }
    fn store_bytes(&mut self, st: &mut State, addr: u64, n: usize, v: &V) -> R<()> {
        match v {
            V::C(c) => {
                let (o, off) = match st.mem.wr(self.m, addr, n) {
                    Ok(r) => r,
                    Err(e) => return self.merr(e),
                };
                let b = c.to_le_bytes();
                if n <= 8 {
                    o.data[off..off + n].copy_from_slice(&b[..n]);
                } else {
                    o.data[off..off + 8].copy_from_slice(&b);
                    for x in &mut o.data[off + 8..off + n] {
                        *x = 0
                    }
                }
                if let Some(s) = &mut o.sym {
                    for x in &mut s[off..off + n] {
                        *x = 0
                    }
                }
                Ok(())
            }
            V::E(e) => {
                let mut parts = Vec::with_capacity(n);
                let ew = self.ar.w(*e);
                let e8 = if (ew as usize) < n * 8 { self.ar.zext(*e, n as u32 * 8) } else { *e };
                for i in 0..n {
                    parts.push(self.ar.extract(e8, i as u32 * 8, 8));
                }
                let (o, off) = match st.mem.wr(self.m, addr, n) {
                    Ok(r) => r,
                    Err(e) => return self.merr(e),
                };
                for i in 0..n {
                    match self.ar.cval(parts[i]) {
                        Some(c) => {
                            o.data[off + i] = c as u8;
                            if let Some(s) = &mut o.sym {
                                s[off + i] = 0;
                            }
                        }
                        None => {
                            let l = o.data.len();
                            let s = o.sym.get_or_insert_with(|| vec![0; l]);
                            s[off + i] = parts[i];
                        }
                    }
                }
                Ok(())
            }
            V::A(_) => err("store aggregate as bytes".into()),
        }
    }
    fn load_ty(&mut self, st: &State, ty: &Ty, addr: u64) -> R<V> {
        match ty {
            Ty::Int(w) => {
                let n = ((w + 7) / 8) as usize;
                let v = self.load_bytes(st, addr, n)?;
                if *w % 8 != 0 {
                    return Ok(match v {
                        V::C(c) => V::C(c & m64(*w)),
                        V::E(e) => {
                            let x = self.ar.extract(e, 0, *w);
                            self.v_of(x)
                        }
                        x => x,
                    });
                }
                Ok(v)
            }
            Ty::Ptr => self.load_bytes(st, addr, 8),
            Ty::Float(w) => self.load_bytes(st, addr, (*w / 8) as usize),
            Ty::Vec(n, t) if t.bits() % 8 != 0 => {
                // bit-packed vector
                let w = *n * t.bits();
                let x = self.load_ty(st, &Ty::Int(w), addr)?;
                let e = self.to_e(&x, w);
                Ok(self.unflat(ty, e))
            }
            Ty::Vec(n, t) => {
                let es = t.size();
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    v.push(self.load_ty(st, t, addr + i as u64 * es)?);
                }
                Ok(V::A(v.into()))
            }
            Ty::Struct(..) | Ty::Arr(..) => {
                let n = ty.nelems();
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    v.push(self.load_ty(st, ty.elem(i), addr + ty.field_off(i))?);
                }
                Ok(V::A(v.into()))
            }
            _ => err("load type".into()),
        }
    }
    fn store_ty(&mut self, st: &mut State, ty: &Ty, addr: u64, v: &V) -> R<()> {
        match ty {
            Ty::Int(w) => self.store_bytes(st, addr, ((w + 7) / 8) as usize, v),
            Ty::Ptr => self.store_bytes(st, addr, 8, v),
            Ty::Float(w) => self.store_bytes(st, addr, (*w / 8) as usize, v),
            Ty::Vec(n, t) if t.bits() % 8 != 0 => {
                let w = *n * t.bits();
                let e = self.flat(ty, v);
                let x = self.v_of(e);
                self.store_ty(st, &Ty::Int(w), addr, &x)
            }
            Ty::Vec(..) | Ty::Struct(..) | Ty::Arr(..) => {
                let n = ty.nelems();
                for i in 0..n {
                    let x = match v {
                        V::A(a) => a[i].clone(),
                        _ => V::C(0),
                    };
                    let et = ty.elem(i);
                    self.store_ty(st, et, addr + ty.field_off(i), &x)?;
                }
                Ok(())
            }
            _ => err("store type".into()),
        }
    }
    /// load through a symbolic pointer depending on one byte variable: turn into table lookups
    fn load_sym(&mut self, st: &mut State, ty: &Ty, e: Eid) -> R<V> {
        let e2 = self.simp(st, e);
        if let Some(c) = self.ar.cval(e2) {
            return self.load_ty(st, ty, c as u64);
        }
        let vs = self.ar.vars(e2).clone();
        let n = match ty {
            Ty::Int(w) if *w % 8 == 0 => (*w / 8) as usize,
            Ty::Ptr => 8,
            _ => 0,
        };
        if vs.len() == 1 && n > 0 && n <= 8 && !matches!(ty, Ty::Ptr) {
            let d = st.vars[vs[0] as usize].dom;
            let l = self.ar.lanes_of(e2);
            let mut ok = true;
            let mut tabs = vec![[0u8; 256]; n];
            let mut first: Option<usize> = None;
            for i in 0..256 {
                if !bits_has(&d, i as u8) {
                    continue;
                }
                match st.mem.rd(self.m, l[i] as u64, n) {
                    Ok((b, s)) if s.map_or(true, |s| s.iter().all(|x| *x == 0)) => {
                        for k in 0..n {
                            tabs[k][i] = b[k];
                        }
                        if first.is_none() {
                            first = Some(i);
                        }
                    }
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                let fi = first.unwrap();
                for t in tabs.iter_mut() {
                    let mut last = t[fi];
                    for i in 0..256 {
                        if !bits_has(&d, i as u8) {
                            t[i] = last;
                        } else {
                            last = t[i];
                        }
                    }
                }
                let v = self.ar.var(vs[0]);
                let mut acc: Option<Eid> = None;
                for t in &tabs {
                    let b = self.ar.table(t, v);
                    acc = Some(match acc {
                        None => b,
                        Some(lo) => self.ar.concat(b, lo),
                    });
                }
                return Ok(self.v_of(acc.unwrap()));
            }
        }
        let a = self.concretize(st, e, 600, "load address")?;
        self.load_ty(st, ty, a)
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: usize) -> R<()> {
        if n == 0 || dst == src {
            return Ok(());
        }
        let (d, s) = match st.mem.rd(self.m, src, n) {
            Ok((d, s)) => (d.to_vec(), s.and_then(|s| if s.iter().any(|x| *x != 0) { Some(s.to_vec()) } else { None })),
            Err(e) => return self.merr(e),
        };
        let (o, off) = match st.mem.wr(self.m, dst, n) {
            Ok(r) => r,
            Err(e) => return self.merr(e),
        };
        o.data[off..off + n].copy_from_slice(&d);
        match s {
            Some(s) => {
                let l = o.data.len();
                let t = o.sym.get_or_insert_with(|| vec![0; l]);
                t[off..off + n].copy_from_slice(&s);
            }
            None => {
                if let Some(t) = &mut o.sym {
                    for x in &mut t[off..off + n] {
                        *x = 0
                    }
                }
            }
        }
        Ok(())
    }
    pub fn read_str(&self, st: &State, p: u64, n: u64) -> Option<String> {
        if n > 4096 {
            return None;
        }
        match st.mem.rd(self.m, p, n as usize) {
            Ok((d, _)) => std::str::from_utf8(d).ok().map(|s| s.to_string()),
            _ => None,
        }
    }

    // ------------------------------------------------------------ ops
    fn cbin(op: Bop, w: u32, a: u64, b: u64) -> Option<u64> {
        let m = m64(w);
        let s = |x: u64| sext64(x, w);
        Some(match op {
            Bop::Add => a.wrapping_add(b) & m,
            Bop::Sub => a.wrapping_sub(b) & m,
            Bop::Mul => a.wrapping_mul(b) & m,
            Bop::UDiv => {
                if b == 0 {
                    return None;
                }
                a / b
            }
            Bop::URem => {
                if b == 0 {
                    return None;
                }
                a % b
            }
            Bop::SDiv => {
                if b == 0 {
                    return None;
                }
                s(a).wrapping_div(s(b)) as u64 & m
            }
            Bop::SRem => {
                if b == 0 {
                    return None;
                }
                s(a).wrapping_rem(s(b)) as u64 & m
            }
            Bop::And => a & b,
            Bop::Or => a | b,
            Bop::Xor => a ^ b,
            Bop::Shl => if b >= w as u64 { 0 } else { (a << b) & m },
            Bop::LShr => if b >= w as u64 { 0 } else { a >> b },
            Bop::AShr => ((s(a) >> (b.min(63).min(w as u64 - 1))) as u64) & m,
        })
    }
    fn bin(&mut self, op: Bop, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                return match Self::cbin(op, w, *x, *y) {
                    Some(v) => Ok(V::C(v)),
                    None => err("division by zero".into()),
                };
            }
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let r = match op {
            Bop::Add => self.ar.add(x, y),
            Bop::Sub => self.ar.sub(x, y),
            Bop::Mul => self.ar.mul(x, y),
            Bop::UDiv => self.ar.udiv(x, y),
            Bop::URem => self.ar.urem(x, y),
            Bop::SDiv => self.ar.bin(Op::SDiv, x, y),
            Bop::SRem => self.ar.bin(Op::SRem, x, y),
            Bop::And => self.ar.and(x, y),
            Bop::Or => self.ar.or(x, y),
            Bop::Xor => self.ar.xor(x, y),
            Bop::Shl => self.ar.shl(x, y),
            Bop::LShr => self.ar.lshr(x, y),
            Bop::AShr => self.ar.ashr(x, y),
        };
        Ok(self.v_of(r))
    }
    fn cmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (sx, sy) = (sext64(*x, w), sext64(*y, w));
            return V::C(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
            } as u64);
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let ar = &mut self.ar;
        let r = match p {
            Pred::Eq => ar.eq(x, y),
            Pred::Ne => {
                let e = ar.eq(x, y);
                ar.not(e)
            }
            Pred::Ult => ar.ult(x, y),
            Pred::Ugt => ar.ult(y, x),
            Pred::Uge => {
                let e = ar.ult(x, y);
                ar.not(e)
            }
            Pred::Ule => {
                let e = ar.ult(y, x);
                ar.not(e)
            }
            Pred::Slt => ar.slt(x, y),
            Pred::Sgt => ar.slt(y, x),
            Pred::Sge => {
                let e = ar.slt(x, y);
                ar.not(e)
            }
            Pred::Sle => {
                let e = ar.slt(y, x);
                ar.not(e)
            }
        };
        self.v_of(r)
    }
    fn cast(&mut self, c: CastOp, w1: u32, w2: u32, a: &V) -> V {
        if let V::C(x) = a {
            match c {
                CastOp::Trunc if w2 <= 64 => return V::C(x & m64(w2)),
                CastOp::ZExt if w2 <= 64 => return V::C(*x),
                CastOp::SExt if w2 <= 64 => return V::C(sext64(*x, w1) as u64 & m64(w2)),
                CastOp::Bit => return a.clone(),
                _ => {}
            }
        }
        let x = self.to_e(a, w1);
        let r = match c {
            CastOp::Trunc => self.ar.extract(x, 0, w2),
            CastOp::ZExt => self.ar.zext(x, w2),
            CastOp::SExt => self.ar.sext(x, w2),
            CastOp::Bit => x,
        };
        self.v_of(r)
    }
    fn flat(&mut self, ty: &Ty, v: &V) -> Eid {
        match ty {
            Ty::Vec(n, t) => {
                let w = t.bits();
                let mut acc: Option<Eid> = None;
                for i in 0..*n as usize {
                    let x = match v {
                        V::A(a) => a[i].clone(),
                        _ => V::C(0),
                    };
                    let e = self.to_e(&x, w);
                    acc = Some(match acc {
                        None => e,
                        Some(l) => self.ar.concat(e, l),
                    });
                }
                acc.unwrap()
            }
            _ => self.to_e(v, ty.bits()),
        }
    }
    fn unflat(&mut self, ty: &Ty, e: Eid) -> V {
        match ty {
            Ty::Vec(n, t) => {
                let w = t.bits();
                let mut v = vec![];
                for i in 0..*n {
                    let x = self.ar.extract(e, i * w, w);
                    v.push(self.v_of(x));
                }
                V::A(v.into())
            }
            _ => self.v_of(e),
        }
    }
    fn ite_v(&mut self, c: Eid, a: &V, b: &V, ty: &Ty) -> V {
        match (a, b) {
            (V::C(x), V::C(y)) if x == y => a.clone(),
            (V::A(x), V::A(y)) => {
                let n = x.len();
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.ite_v(c, &x[i].clone(), &y[i].clone(), ty.elem(i)));
                }
                V::A(v.into())
            }
            _ => {
                let w = ty.bits();
                let x = self.to_e(a, w);
                let y = self.to_e(b, w);
                let r = self.ar.ite(c, x, y);
                self.v_of(r)
            }
        }
    }
    #[inline]
    fn set(&self, st: &mut State, dst: u32, v: V) {
        if dst != NOREG {
            st.top.regs[dst as usize] = v;
        }
    }
    fn jump(&mut self, st: &mut State, e: &'static Edge) {
        match e.moves.len() {
            0 => {}
            1 => {
                let v = self.ev(st, &e.moves[0].1);
                st.top.regs[e.moves[0].0 as usize] = v;
            }
            _ => {
                let vs: Vec<V> = e.moves.iter().map(|(_, o)| self.ev(st, o)).collect();
                for ((d, _), v) in e.moves.iter().zip(vs) {
                    st.top.regs[*d as usize] = v;
                }
            }
        }
        st.top.pc = e.target;
        // coverage
        let t = e.target as usize;
        let n = st.top.f.code.len();
        let c = self.cover.entry(st.top.fx).or_insert_with(|| vec![0; n / 64 + 1]);
        c[t / 64] |= 1 << (t % 64);
    }

    fn exec(&mut self, st: &mut State) -> R<()> {
        let f: &'static Func = st.top.f;
        let inst: &'static Inst = &f.code[st.top.pc as usize];
        match inst {
            Inst::Bin(op, w, a, b, d) => {
                let r = match (a, b) {
                    _ => {
                        let x = self.ev_w(st, a, *w);
                        let y = self.ev_w(st, b, *w);
                        self.bin(*op, *w, &x, &y)?
                    }
                };
                self.set(st, *d, r);
            }
            Inst::ICmp(p, w, a, b, d) => {
                let x = self.ev_w(st, a, *w);
                let y = self.ev_w(st, b, *w);
                let r = self.cmp(*p, *w, &x, &y);
                self.set(st, *d, r);
            }
            Inst::VBin(op, ty, a, b, d) => {
                let x = self.ev(st, a);
                let y = self.ev(st, b);
                if let (Ty::Vec(n, t), V::A(x), V::A(y)) = (ty, &x, &y) {
                    let w = t.bits();
                    let mut v = vec![];
                    for i in 0..*n as usize {
                        v.push(self.bin(*op, w, &x[i], &y[i])?);
                    }
                    self.set(st, *d, V::A(v.into()));
                } else {
                    return err("vbin".into());
                }
            }
            Inst::VICmp(p, ty, a, b, d) => {
                let x = self.ev(st, a);
                let y = self.ev(st, b);
                if let (Ty::Vec(n, t), V::A(x), V::A(y)) = (ty, &x, &y) {
                    let w = t.bits();
                    let mut v = vec![];
                    for i in 0..*n as usize {
                        v.push(self.cmp(*p, w, &x[i], &y[i]));
                    }
                    self.set(st, *d, V::A(v.into()));
                } else {
                    return err("vicmp".into());
                }
            }
            Inst::Select(c, a, b, d, tys) => {
                let c = self.ev(st, c);
                let r = match &c {
                    V::C(k) => {
                        if k & 1 == 1 { self.ev_w(st, a, tys.1.bits_or0()) } else { self.ev_w(st, b, tys.1.bits_or0()) }
                    }
                    V::E(e) => {
                        let e = self.simp_cond(st, *e);
                        let x = self.ev_w(st, a, tys.1.bits_or0());
                        let y = self.ev_w(st, b, tys.1.bits_or0());
                        self.ite_v(e, &x, &y, &tys.1)
                    }
                    V::A(cs) => {
                        let x = self.ev(st, a);
                        let y = self.ev(st, b);
                        let mut v = vec![];
                        if let (V::A(x), V::A(y)) = (&x, &y) {
                            for i in 0..cs.len() {
                                let et = tys.1.elem(i);
                                let r = match &cs[i] {
                                    V::C(k) => if k & 1 == 1 { x[i].clone() } else { y[i].clone() },
                                    V::E(e) => self.ite_v(*e, &x[i], &y[i], et),
                                    _ => return err("select".into()),
                                };
                                v.push(r);
                            }
                        }
                        V::A(v.into())
                    }
                };
                self.set(st, *d, r);
            }
            Inst::Cast(c, w1, w2, a, d) => {
                let x = self.ev_w(st, a, *w1);
                let r = self.cast(*c, *w1, *w2, &x);
                self.set(st, *d, r);
            }
            Inst::VCast(c, tys, a, d) => {
                let x = self.ev(st, a);
                let r = match c {
                    CastOp::Bit => {
                        let fl = self.flat(&tys.0, &x);
                        self.unflat(&tys.1, fl)
                    }
                    _ => {
                        if let (Ty::Vec(n, t1), Ty::Vec(_, t2), V::A(x)) = (&tys.0, &tys.1, &x) {
                            let mut v = vec![];
                            for i in 0..*n as usize {
                                v.push(self.cast(*c, t1.bits(), t2.bits(), &x[i]));
                            }
                            V::A(v.into())
                        } else {
                            return err("vcast".into());
                        }
                    }
                };
                self.set(st, *d, r);
            }
            Inst::Gep(b, off, terms, d) => {
                let base = self.ev(st, b);
                if let V::C(p) = base {
                    let mut p = p.wrapping_add(*off);
                    let mut k = 0;
                    while k < terms.len() {
                        let (o, w, sc) = &terms[k];
                        match self.ev(st, o) {
                            V::C(i) => p = p.wrapping_add((sext64(i, *w) as u64).wrapping_mul(*sc)),
                            V::E(_) => break,
                            _ => return err("gep".into()),
                        }
                        k += 1;
                    }
                    if k == terms.len() {
                        self.set(st, *d, V::C(p));
                        st.top.pc += 1;
                        return Ok(());
                    }
                }
                let mut e = self.to_e(&base, 64);
                let ko = self.ar.konst(*off as u128, 64);
                e = self.ar.add(e, ko);
                for (o, w, sc) in terms {
                    let i = self.ev(st, o);
                    let i = self.to_e(&i, *w);
                    let i = self.ar.sext(i, 64);
                    let k = self.ar.konst(*sc as u128, 64);
                    let t = self.ar.mul(i, k);
                    e = self.ar.add(e, t);
                }
                let v = self.v_of(e);
                self.set(st, *d, v);
            }
            Inst::Load(ty, p, d) => {
                let a = self.ev(st, p);
                let v = match a {
                    V::C(a) => self.load_ty(st, ty, a)?,
                    V::E(e) => self.load_sym(st, ty, e)?,
                    _ => return err("load addr".into()),
                };
                self.set(st, *d, v);
            }
            Inst::Store(ty, v, p) => {
                let a = self.ev(st, p);
                let a = self.conc_v(st, &a, "store address")?;
                let w = match **ty {
                    Ty::Int(w) => w,
                    _ => 64,
                };
                let v = self.ev_w(st, v, w);
                self.store_ty(st, ty, a, &v)?;
            }
            Inst::Alloca(sz, _al, d) => {
                let a = st.mem.alloc(*sz as usize, false);
                st.top.allocas.push(a);
                self.set(st, *d, V::C(a));
            }
            Inst::Call(c) => return self.call(st, c),
            Inst::Br(e) => {
                self.jump(st, e);
                return Ok(());
            }
            Inst::CBr(c, b) => {
                let v = self.ev(st, c);
                let t = self.decide_v(st, &v)?;
                let e: &'static Edge = if t { &b.0 } else { &b.1 };
                self.jump(st, e);
                return Ok(());
            }
            Inst::Switch(w, v, b) => {
                let v = self.ev(st, v);
                let k = self.switch(st, *w, &v, &b.0)?;
                let e: &'static Edge = if k < b.0.len() { &b.0[k].1 } else { &b.1 };
                self.jump(st, e);
                return Ok(());
            }
            Inst::Ret(v) => {
                let r = v.as_ref().map(|v| self.ev_w(st, v, 128));
                for a in std::mem::take(&mut st.top.allocas) {
                    if let Err(e) = st.mem.free_id(a) {
                        return self.merr(e);
                    }
                }
                let (dst, normal) = (st.top.dst, st.top.normal);
                match st.rest.pop() {
                    None => return Err(Stop::End(End::Ok)),
                    Some(fr) => {
                        st.top = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                        if let Some(r) = r {
                            self.set(st, dst, r);
                        }
                        match normal {
                            Some(e) => {
                                self.jump(st, e);
                            }
                            None => st.top.pc += 1,
                        }
                        return Ok(());
                    }
                }
            }
            Inst::Unreachable => {
                return Err(Stop::End(End::Mem("reached `unreachable` (undefined behaviour)".into())));
            }
            Inst::Extract(a, ix, d) => {
                let mut v = self.ev(st, a);
                for i in ix {
                    v = match v {
                        V::A(x) => x[*i as usize].clone(),
                        _ => V::C(0),
                    };
                }
                self.set(st, *d, v);
            }
            Inst::Insert(b, d) => {
                let (ty, a, v, ix) = &**b;
                let agg = match a {
                    Opd::K(_) | Opd::R(_) => self.ev(st, a),
                    _ => self.cv(ty, &Cv::Zero),
                };
                let val = self.ev(st, v);
                fn ins(a: &V, ix: &[u32], v: &V) -> V {
                    if ix.is_empty() {
                        return v.clone();
                    }
                    if let V::A(x) = a {
                        let mut y: Vec<V> = x.to_vec();
                        y[ix[0] as usize] = ins(&x[ix[0] as usize], &ix[1..], v);
                        V::A(y.into())
                    } else {
                        a.clone()
                    }
                }
                let r = ins(&agg, ix, &val);
                self.set(st, *d, r);
            }
            Inst::InsElem(a, v, i, d, _ty) => {
                let a = self.ev(st, a);
                let v = self.ev(st, v);
                let i = self.ev(st, i);
                let i = self.conc_v(st, &i, "insertelement")?;
                if let V::A(x) = a {
                    let mut y: Vec<V> = x.to_vec();
                    y[i as usize] = v;
                    self.set(st, *d, V::A(y.into()));
                }
            }
            Inst::ExtElem(a, i, d, _ty) => {
                let a = self.ev(st, a);
                let i = self.ev(st, i);
                let i = self.conc_v(st, &i, "extractelement")?;
                if let V::A(x) = a {
                    self.set(st, *d, x[i as usize].clone());
                }
            }
            Inst::Shuffle(a, b, ix, d, _ty) => {
                let a = self.ev(st, a);
                let b = self.ev(st, b);
                if let (V::A(x), V::A(y)) = (&a, &b) {
                    let v: Vec<V> = ix
                        .iter()
                        .map(|i| {
                            let i = *i as usize;
                            if i < x.len() { x[i].clone() } else { y[i - x.len()].clone() }
                        })
                        .collect();
                    self.set(st, *d, V::A(v.into()));
                }
            }
            Inst::Copy(a, d) => {
                let v = self.ev(st, a);
                self.set(st, *d, v);
            }
            Inst::Rmw(k, w, p, v, d) => {
                let a = self.ev(st, p);
                let a = self.conc_v(st, &a, "rmw address")?;
                let ty = Ty::Int(*w);
                let old = self.load_ty(st, &ty, a)?;
                let v = self.ev(st, v);
                let new = match k {
                    0 => v,
                    1 => self.bin(Bop::Add, *w, &old, &v)?,
                    2 => self.bin(Bop::Sub, *w, &old, &v)?,
                    3 => self.bin(Bop::And, *w, &old, &v)?,
                    4 => self.bin(Bop::Or, *w, &old, &v)?,
                    5 => self.bin(Bop::Xor, *w, &old, &v)?,
                    _ => return err("rmw kind".into()),
                };
                self.store_ty(st, &ty, a, &new)?;
                self.set(st, *d, old);
            }
            Inst::CmpXchg(w, p, c, n, d) => {
                let a = self.ev(st, p);
                let a = self.conc_v(st, &a, "cmpxchg address")?;
                let ty = Ty::Int(*w);
                let old = self.load_ty(st, &ty, a)?;
                let c = self.ev(st, c);
                let n = self.ev(st, n);
                let q = self.cmp(Pred::Eq, *w, &old, &c);
                let t = self.decide_v(st, &q)?;
                if t {
                    self.store_ty(st, &ty, a, &n)?;
                }
                self.set(st, *d, V::A(vec![old, V::C(t as u64)].into()));
            }
            Inst::Nop => {}
            Inst::Unsupported(s) => return err(format!("unsupported instruction: {}", s)),
        }
        st.top.pc += 1;
        Ok(())
    }

    fn switch(&mut self, st: &mut State, w: u32, v: &V, cases: &'static [(u64, Edge)]) -> R<usize> {
        if let Some(p) = st.pend.take() {
            return Ok(p as usize);
        }
        let e = match v {
            V::C(c) => return Ok(cases.iter().position(|x| x.0 == *c).unwrap_or(cases.len())),
            V::E(e) => *e,
            _ => return err("switch".into()),
        };
        let e = self.simp(st, e);
        if let Some(c) = self.ar.cval(e) {
            return Ok(cases.iter().position(|x| x.0 == c as u64).unwrap_or(cases.len()));
        }
        // groups: (representative index, condition)
        let mut groups: Vec<(usize, Eid)> = vec![];
        let mut none = self.ar.t();
        for (i, (k, ed)) in cases.iter().enumerate() {
            let kk = self.ar.konst(*k as u128 & mask(w), w);
            let q = self.ar.eq(e, kk);
            let nq = self.ar.not(q);
            none = self.ar.and(none, nq);
            if self.ar.cval(q) == Some(0) {
                continue;
            }
            if let Some(g) = groups
                .iter_mut()
                .find(|(j, _)| cases[*j].1.target == ed.target && cases[*j].1.moves.is_empty() && ed.moves.is_empty())
            {
                g.1 = self.ar.or(g.1, q);
            } else {
                groups.push((i, q));
            }
        }
        groups.push((cases.len(), none));
        let mut pick = None;
        let mut others = vec![];
        for (i, c) in groups {
            let c = self.simp_cond(st, c);
            if self.ar.cval(c) == Some(0) {
                continue;
            }
            if pick.is_none() && self.ar.eval(c, &st.model, st.model_id) == 1 {
                pick = Some((i, c));
            } else {
                others.push((i, c));
            }
        }
        let (pi, pc) = pick.expect("switch: model matches no case");
        if self.following(st) {
            self.add(st, pc);
            return Ok(pi);
        }
        self.st[self.job].sym_branches += 1;
        let mut forked = false;
        for (i, c) in others {
            if let Some((m, id)) = self.feasible(st, c)? {
                let mut o = st.clone();
                self.add(&mut o, c);
                o.model = m;
                o.model_id = id;
                o.pend = Some(i as u64);
                o.steps -= 1;
                o.depth += 1;
                self.push(o);
                forked = true;
            }
        }
        st.depth += forked as u32;
        self.add(st, pc);
        Ok(pi)
    }

    // ------------------------------------------------------------ calls
    fn call(&mut self, st: &mut State, c: &'static CallI) -> R<()> {
        let fx = match &c.callee {
            Callee::Asm => {
                st.top.pc += 1;
                return Ok(());
            }
            Callee::Intr(f) => {
                let r = self.intrinsic(st, *f, c)?;
                if let Some(r) = r {
                    self.set(st, c.dst, r);
                }
                return self.after_call(st, c);
            }
            Callee::Fn(f) => *f,
            Callee::Ind(o) => {
                let v = self.ev(st, o);
                let a = self.conc_v(st, &v, "indirect call")?;
                let k = (a >> 32).wrapping_sub(FN_BASE);
                if k >= self.m.fns.len() as u64 || a as u32 != 0 {
                    return Err(Stop::End(End::Mem(format!("indirect call to {:#x}", a))));
                }
                k as u32
            }
        };
        let decl = &self.m.fns[fx as usize];
        if decl.noreturn_panic {
            let msg = self.panic_msg(st, fx, c);
            return Err(Stop::End(End::Panic(msg)));
        }
        self.fn_calls[fx as usize] += 1;
        match self.m.func(fx) {
            Some(f) if !decl.name.starts_with("symx_") => {
                if st.rest.len() > 400 {
                    return Err(Stop::End(End::Limit));
                }
                let mut regs = vec![V::C(0); f.nregs as usize];
                for (i, p) in f.params.iter().enumerate() {
                    if i < c.args.len() {
                        regs[*p as usize] = self.ev_w(st, &c.args[i], c.argw[i]);
                    }
                }
                let fr = Frame { f, fx, pc: 0, regs, dst: c.dst, normal: c.normal.as_ref(), allocas: vec![] };
                let old = std::mem::replace(&mut st.top, fr);
                st.rest.push(Rc::new(old));
                Ok(())
            }
            _ => {
                let r = self.external(st, fx, c)?;
                if let Some(r) = r {
                    self.set(st, c.dst, r);
                }
                self.after_call(st, c)
            }
        }
    }
    fn after_call(&mut self, st: &mut State, c: &'static CallI) -> R<()> {
        match &c.normal {
            Some(e) => self.jump(st, e),
            None => st.top.pc += 1,
        }
        Ok(())
    }

    pub fn backtrace(&self, st: &State) -> String {
        let mut v = vec![self.m.fns[st.top.fx as usize].short.clone()];
        for f in st.rest.iter().rev() {
            v.push(self.m.fns[f.fx as usize].short.clone());
        }
        let v: Vec<String> = v.into_iter().take(8).collect();
        v.join(" <- ")
    }

    fn panic_msg(&mut self, st: &State, fx: u32, c: &CallI) -> String {
        let mut msg = String::new();
        let mut loc = String::new();
        let args: Vec<V> = c.args.iter().map(|a| self.ev(st, a)).collect();
        for (i, a) in args.iter().enumerate() {
            if let V::C(p) = a {
                // location?
                if let Ok((d, None)) = st.mem.rd(self.m, *p, 24) {
                    let sp = u64::from_le_bytes(d[0..8].try_into().unwrap());
                    let sl = u64::from_le_bytes(d[8..16].try_into().unwrap());
                    let line = u32::from_le_bytes(d[16..20].try_into().unwrap());
                    if sl < 300 {
                        if let Some(s) = self.read_str(st, sp, sl) {
                            if s.ends_with(".rs") {
                                loc = format!("{}:{}", s, line);
                                continue;
                            }
                        }
                    }
                }
                if let Some(V::C(n)) = args.get(i + 1) {
                    if *n > 0 && *n < 400 && msg.is_empty() {
                        if let Some(s) = self.read_str(st, *p, *n) {
                            if s.bytes().all(|b| b >= 32) {
                                msg = s;
                            }
                        }
                    }
                }
            }
        }
        format!("panic[{}] {} at {}", self.m.fns[fx as usize].short, msg, loc)
    }

    fn ext_kind(&mut self, fx: u32) -> Ext {
        if let Some(e) = self.ext.get(&fx) {
            return *e;
        }
        let e = match self.m.fns[fx as usize].name.as_str() {
            "symx_bytes" => Ext::Bytes,
            "symx_choose" => Ext::Choose,
            "symx_assume" => Ext::Assume,
            "symx_assert" => Ext::Assert,
            "symx_fail" => Ext::Fail,
            "symx_obs" => Ext::Obs,
            "symx_obs_bytes" => Ext::ObsBytes,
            "symx_reach" => Ext::Reach,
            "symx_expect" => Ext::Expect,
            "symx_param" => Ext::Param,
            "symx_concretize" => Ext::Conc,
            "symx_prune" => Ext::Prune,
            "symx_is_sym" => Ext::IsSym,
            "malloc" => Ext::Malloc,
            "calloc" => Ext::Calloc,
            "realloc" => Ext::Realloc,
            "free" => Ext::Free,
            "posix_memalign" => Ext::Memalign,
            "bcmp" => Ext::Bcmp,
            "memcmp" => Ext::Memcmp,
            "strlen" => Ext::Strlen,
            _ => Ext::Unknown,
        };
        self.ext.insert(fx, e);
        e
    }

    fn alloc_n(&mut self, st: &mut State, n: u64) -> R<u64> {
        if n > 1 << 24 {
            return err(format!("allocation of {} bytes", n));
        }
        Ok(st.mem.alloc(n as usize, true))
    }

    fn cmp_mem(&mut self, st: &mut State, a: u64, b: u64, n: usize, order: bool) -> R<V> {
        let mut res = V::C(0);
        if n == 0 {
            return Ok(res);
        }
        let get = |me: &Worker, st: &State, p: u64| -> R<(Vec<u8>, Vec<Eid>)> {
            match st.mem.rd(me.m, p, n) {
                Ok((d, s)) => Ok((d.to_vec(), s.map(|s| s.to_vec()).unwrap_or_else(|| vec![0; n]))),
                Err(e) => me.merr(e),
            }
        };
        let (da, sa) = get(self, st, a)?;
        let (db, sb) = get(self, st, b)?;
        if sa.iter().all(|x| *x == 0) && sb.iter().all(|x| *x == 0) {
            let o = da.cmp(&db);
            return Ok(V::C(match o {
                std::cmp::Ordering::Equal => 0,
                std::cmp::Ordering::Less => 0xffff_ffff,
                std::cmp::Ordering::Greater => 1,
            }));
        }
        let mut eqs = self.ar.t();
        for i in (0..n).rev() {
            let x = if sa[i] == 0 { self.ar.konst(da[i] as u128, 8) } else { self.simp(st, sa[i]) };
            let y = if sb[i] == 0 { self.ar.konst(db[i] as u128, 8) } else { self.simp(st, sb[i]) };
            let q = self.ar.eq(x, y);
            if order {
                let lt = self.ar.ult(x, y);
                let m1 = self.ar.konst(0xffff_ffff, 32);
                let p1 = self.ar.konst(1, 32);
                let d = self.ar.ite(lt, m1, p1);
                let r = self.to_e(&res, 32);
                let r2 = self.ar.ite(q, r, d);
                res = self.v_of(r2);
            } else {
                eqs = self.ar.and(q, eqs);
                if self.ar.cval(eqs) == Some(0) {
                    return Ok(V::C(1));
                }
            }
        }
        if order {
            return Ok(res);
        }
        let z = self.ar.konst(0, 32);
        let o = self.ar.konst(1, 32);
        let r = self.ar.ite(eqs, z, o);
        Ok(self.v_of(r))
    }

    fn record(&mut self, st: &State, end: End) {
        let n = self.sh.viol_count.fetch_add(1, Ordering::SeqCst);
        self.st[self.job].nviol += 1;
        let r = self.path_rec(st, end);
        let mut res = self.sh.res.lock().unwrap();
        // keep a few per distinct message
        let key = format!("{:?}", r.end);
        let cnt = res.viol.iter().filter(|v| format!("{:?}", v.end) == key && v.job == r.job).count();
        if cnt < 3 {
            res.viol.push(r);
        }
        drop(res);
        if n as u64 > self.sh.max_viol {
            self.sh.stop.store(true, Ordering::SeqCst);
        }
    }
    fn path_rec(&mut self, st: &State, end: End) -> PathRec {
        let mut obs = vec![];
        for (t, vs) in &st.obs {
            let mut l = vec![];
            for v in vs {
                l.push(match v {
                    V::C(c) => *c,
                    V::E(e) => self.ar.eval(*e, &st.model, st.model_id) as u64,
                    _ => 0,
                });
            }
            obs.push((*t, l));
        }
        PathRec {
            job: self.job,
            bytes: st.model[..st.vars.len()].to_vec(),
            choices: st.choices.clone(),
            obs,
            end,
            where_: self.backtrace(st),
        }
    }

    fn external(&mut self, st: &mut State, fx: u32, c: &'static CallI) -> R<Option<V>> {
        let k = self.ext_kind(fx);
        let args: Vec<V> = c.args.iter().zip(&c.argw).map(|(a, w)| self.ev_w(st, a, *w)).collect();
        match k {
            Ext::Bytes => {
                let p = self.conc_v(st, &args[0], "symx_bytes")?;
                let n = self.conc_v(st, &args[1], "symx_bytes")? as usize;
                let mut vs = vec![];
                for _ in 0..n {
                    let i = st.vars.len() as u32;
                    st.vars.push(VarInfo { dom: full_dom(), repl: 0, ent: false, single: Rc::new(vec![]) });
                    if st.model.len() < st.vars.len() {
                        Rc::make_mut(&mut st.model).push(0);
                    }
                    vs.push(self.ar.var(i));
                }
                let (o, off) = match st.mem.wr(self.m, p, n) {
                    Ok(r) => r,
                    Err(e) => return self.merr(e),
                };
                let l = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![0; l]);
                s[off..off + n].copy_from_slice(&vs);
                Ok(None)
            }
            Ext::Choose => {
                let n = self.conc_v(st, &args[0], "choose")?;
                if let Some(p) = st.pend.take() {
                    st.pend_choice = false;
                    st.choices.push(p as u32);
                    return Ok(Some(V::C(p)));
                }
                if n == 0 {
                    return Err(Stop::End(End::Assume));
                }
                if self.following(st) {
                    let i = st.choices.len();
                    let v = st.forced[i];
                    st.choices.push(v);
                    return Ok(Some(V::C(v as u64)));
                }
                for i in (1..n).rev() {
                    let mut o = st.clone();
                    o.pend = Some(i);
                    o.pend_choice = true;
                    o.steps -= 1;
                    o.depth += 1;
                    self.push(o);
                }
                st.depth += (n > 1) as u32;
                st.choices.push(0);
                Ok(Some(V::C(0)))
            }
            Ext::Assume => {
                match &args[0] {
                    V::C(v) => {
                        if v & 1 == 0 {
                            return Err(Stop::End(End::Assume));
                        }
                    }
                    V::E(e) => {
                        let e = self.simp_cond(st, *e);
                        if self.following(st) {
                            self.add(st, e);
                            return Ok(None);
                        }
                        match self.feasible(st, e)? {
                            None => return Err(Stop::End(End::Assume)),
                            Some((m, id)) => {
                                self.add(st, e);
                                st.model = m;
                                st.model_id = id;
                            }
                        }
                    }
                    _ => return err("assume".into()),
                }
                Ok(None)
            }
            Ext::Assert => {
                let p = self.conc_v(st, &args[1], "assert msg")?;
                let n = self.conc_v(st, &args[2], "assert msg")?;
                self.st[self.job].asserts += 1;
                let msg = |me: &Worker, st: &State| me.read_str(st, p, n).unwrap_or_default();
                match &args[0] {
                    V::C(v) => {
                        if v & 1 == 0 {
                            let s = msg(self, st);
                            return Err(Stop::End(End::Assert(s)));
                        }
                    }
                    V::E(e) => {
                        let e = self.simp_cond(st, *e);
                        if let Some(v) = self.ar.cval(e) {
                            if v == 0 {
                                let s = msg(self, st);
                                return Err(Stop::End(End::Assert(s)));
                            }
                            return Ok(None);
                        }
                        if self.following(st) {
                            return Ok(None);
                        }
                        self.st[self.job].asserts_sym += 1;
                        let ne = self.ar.not(e);
                        if let Some((m, id)) = self.feasible(st, ne)? {
                            let mut o = st.clone();
                            self.add(&mut o, ne);
                            o.model = m;
                            o.model_id = id;
                            let s = msg(self, &o);
                            self.record(&o, End::Assert(s));
                        }
                    }
                    _ => return err("assert".into()),
                }
                Ok(None)
            }
            Ext::Fail => {
                let p = self.conc_v(st, &args[0], "fail msg")?;
                let n = self.conc_v(st, &args[1], "fail msg")?;
                let s = self.read_str(st, p, n).unwrap_or_default();
                Err(Stop::End(End::Assert(s)))
            }
            Ext::Obs => {
                let t = self.conc_v(st, &args[0], "obs tag")?;
                st.obs.push((t as u32, vec![args[1].clone()]));
                Ok(None)
            }
            Ext::ObsBytes => {
                let t = self.conc_v(st, &args[0], "obs tag")?;
                let p = self.conc_v(st, &args[1], "obs ptr")?;
                let n = self.conc_v(st, &args[2], "obs len")?;
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load_bytes(st, p + i, 1)?);
                }
                st.obs.push((t as u32, v));
                Ok(None)
            }
            Ext::Reach | Ext::Expect => {
                let p = self.conc_v(st, &args[0], "reach")?;
                let n = self.conc_v(st, &args[1], "reach")?;
                let s = self.read_str(st, p, n).unwrap_or_default();
                if k == Ext::Reach {
                    *self.st[self.job].reached.entry(s).or_insert(0) += 1;
                } else if !self.st[self.job].expected.contains(&s) {
                    self.st[self.job].expected.insert(s);
                }
                Ok(None)
            }
            Ext::Param => {
                let i = self.conc_v(st, &args[0], "param")? as usize;
                let v = *self.sh.jobs[self.job].params.get(i).unwrap_or(&0);
                Ok(Some(V::C(v)))
            }
            Ext::Conc => {
                let v = self.conc_v(st, &args[0], "symx_concretize")?;
                Ok(Some(V::C(v)))
            }
            Ext::IsSym => {
                let r = match &args[0] {
                    V::E(e) => self.known(st, *e).is_none(),
                    _ => false,
                };
                Ok(Some(V::C(r as u64)))
            }
            Ext::Prune => {
                // state de-duplication point: harness passes a byte range describing the abstract state
                let p = self.conc_v(st, &args[0], "prune")?;
                let n = self.conc_v(st, &args[1], "prune")?;
                if self.following(st) {
                    return Ok(None);
                }
                let h = self.digest(st, p, n as usize)?;
                if let Some(h) = h {
                    let sh = &self.sh.seen[self.job];
                    if !sh.lock().unwrap().insert(h) {
                        return Err(Stop::End(End::Pruned));
                    }
                }
                Ok(None)
            }
            Ext::Malloc => {
                let n = self.conc_v(st, &args[0], "malloc size")?;
                Ok(Some(V::C(self.alloc_n(st, n)?)))
            }
            Ext::Calloc => {
                let a = self.conc_v(st, &args[0], "calloc size")?;
                let b = self.conc_v(st, &args[1], "calloc size")?;
                Ok(Some(V::C(self.alloc_n(st, a * b)?)))
            }
            Ext::Memalign => {
                let p = self.conc_v(st, &args[0], "memalign")?;
                let n = self.conc_v(st, &args[2], "memalign size")?;
                let a = self.alloc_n(st, n)?;
                self.store_bytes(st, p, 8, &V::C(a))?;
                Ok(Some(V::C(0)))
            }
            Ext::Realloc => {
                let p = self.conc_v(st, &args[0], "realloc")?;
                let n = self.conc_v(st, &args[1], "realloc size")?;
                let a = self.alloc_n(st, n)?;
                if p != 0 {
                    let os = match st.mem.size_of(p) {
                        Some(s) => s,
                        None => return Err(Stop::End(End::Mem("realloc of invalid pointer".into()))),
                    };
                    self.copy(st, a, p, os.min(n as usize))?;
                    if let Err(e) = st.mem.free_id(p) {
                        return self.merr(e);
                    }
                }
                Ok(Some(V::C(a)))
            }
            Ext::Free => {
                let p = self.conc_v(st, &args[0], "free")?;
                if p != 0 {
                    if let Err(e) = st.mem.free_id(p) {
                        return self.merr(e);
                    }
                }
                Ok(None)
            }
            Ext::Bcmp | Ext::Memcmp => {
                let a = self.conc_v(st, &args[0], "memcmp")?;
                let b = self.conc_v(st, &args[1], "memcmp")?;
                let n = self.conc_v(st, &args[2], "memcmp len")?;
                Ok(Some(self.cmp_mem(st, a, b, n as usize, k == Ext::Memcmp)?))
            }
            Ext::Strlen => {
                let a = self.conc_v(st, &args[0], "strlen")?;
                let mut n = 0;
                loop {
                    match self.load_bytes(st, a + n, 1)? {
                        V::C(0) => break,
                        V::C(_) => n += 1,
                        _ => return err("strlen symbolic".into()),
                    }
                }
                Ok(Some(V::C(n)))
            }
            Ext::Unknown => err(format!("call to external {}", self.m.fns[fx as usize].name)),
        }
    }

    /// canonical digest of the bytes [p, p+n) if they are all concrete, else None
    fn digest(&mut self, st: &State, p: u64, n: usize) -> R<Option<u128>> {
        match st.mem.rd(self.m, p, n) {
            Ok((d, s)) => {
                if s.map_or(false, |s| s.iter().any(|x| *x != 0)) {
                    return Ok(None);
                }
                let mut h: u128 = 0x6c62272e07bb014262b821756295c58d;
                for b in d {
                    h ^= *b as u128;
                    h = h.wrapping_mul(0x0000000001000000000000000000013B);
                }
                Ok(Some(h))
            }
            Err(e) => self.merr(e),
        }
    }

    fn intrinsic(&mut self, st: &mut State, fx: u32, c: &'static CallI) -> R<Option<V>> {
        let name: &'static str = &self.m.fns[fx as usize].name;
        let args: Vec<V> = c.args.iter().zip(&c.argw).map(|(a, w)| self.ev_w(st, a, *w)).collect();
        let n = &name[5..];
        let w = *c.argw.first().unwrap_or(&0);
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let d = self.conc_v(st, &args[0], "memcpy dst")?;
            let s = self.conc_v(st, &args[1], "memcpy src")?;
            let l = self.conc_v(st, &args[2], "memcpy len")?;
            self.copy(st, d, s, l as usize)?;
            return Ok(None);
        }
        if n.starts_with("memset") {
            let d = self.conc_v(st, &args[0], "memset dst")?;
            let l = self.conc_v(st, &args[2], "memset len")? as usize;
            if l == 0 {
                return Ok(None);
            }
            let v = args[1].clone();
            let (o, off) = match st.mem.wr(self.m, d, l) {
                Ok(r) => r,
                Err(e) => return self.merr(e),
            };
            match v {
                V::C(b) => {
                    for x in &mut o.data[off..off + l] {
                        *x = b as u8
                    }
                    if let Some(s) = &mut o.sym {
                        for x in &mut s[off..off + l] {
                            *x = 0
                        }
                    }
                }
                V::E(e) => {
                    let n = o.data.len();
                    let s = o.sym.get_or_insert_with(|| vec![0; n]);
                    for x in &mut s[off..off + l] {
                        *x = e
                    }
                }
                _ => {}
            }
            return Ok(None);
        }
        if n.starts_with("trap") {
            return Err(Stop::End(End::Panic("trap".into())));
        }
        if n.starts_with("threadlocal.address") {
            return Ok(Some(args[0].clone()));
        }
        if n.starts_with("is.constant") {
            return Ok(Some(V::C(0)));
        }
        if n.contains("with.overflow") {
            let a = self.to_e(&args[0], w);
            let b = self.to_e(&args[1], w);
            let ar = &mut self.ar;
            let (r, o);
            if n.starts_with("uadd") {
                r = ar.add(a, b);
                let (ma, mb) = (ar.mx[a as usize], ar.mx[b as usize]);
                o = if ma.checked_add(mb).map_or(false, |s| s <= mask(w)) { ar.f() } else { ar.ult(r, a) };
            } else if n.starts_with("usub") {
                r = ar.sub(a, b);
                o = ar.ult(a, b);
            } else if n.starts_with("umul") {
                r = ar.mul(a, b);
                let (ma, mb) = (ar.mx[a as usize], ar.mx[b as usize]);
                o = if ma.checked_mul(mb).map_or(false, |s| s <= mask(w)) {
                    ar.f()
                } else if w <= 64 {
                    let x = ar.zext(a, 2 * w);
                    let y = ar.zext(b, 2 * w);
                    let p = ar.mul(x, y);
                    let h = ar.extract(p, w, w);
                    let z = ar.konst(0, w);
                    let q = ar.eq(h, z);
                    ar.not(q)
                } else {
                    return err("wide umul overflow".into());
                };
            } else {
                // signed via extension
                let x = ar.sext(a, w + 1);
                let y = ar.sext(b, w + 1);
                let p;
                if n.starts_with("sadd") {
                    p = ar.add(x, y);
                    r = ar.add(a, b);
                } else if n.starts_with("ssub") {
                    p = ar.sub(x, y);
                    r = ar.sub(a, b);
                } else {
                    if let (Some(p), Some(q)) = (ar.cval(a), ar.cval(b)) {
                        let f = crate::expr::sx(p, w).checked_mul(crate::expr::sx(q, w));
                        let rr = ar.mul(a, b);
                        let ov = match f {
                            None => true,
                            Some(v) => crate::expr::sx(v as u128 & mask(w), w) != v,
                        };
                        let r = self.v_of(rr);
                        return Ok(Some(V::A(vec![r, V::C(ov as u64)].into())));
                    }
                    return err("symbolic smul overflow".into());
                }
                let rs = ar.sext(r, w + 1);
                let q = ar.eq(rs, p);
                o = ar.not(q);
            }
            let r = self.v_of(r);
            let o = self.v_of(o);
            return Ok(Some(V::A(vec![r, o].into())));
        }
        if n.starts_with("umax") || n.starts_with("umin") || n.starts_with("smax") || n.starts_with("smin") {
            let p = match &n[..4] {
                "umax" => Pred::Ugt,
                "umin" => Pred::Ult,
                "smax" => Pred::Sgt,
                _ => Pred::Slt,
            };
            let q = self.cmp(p, w, &args[0], &args[1]);
            return Ok(Some(match q {
                V::C(1) => args[0].clone(),
                V::C(_) => args[1].clone(),
                V::E(e) => self.ite_v(e, &args[0], &args[1], &Ty::Int(w)),
                _ => return err("minmax".into()),
            }));
        }
        if n.starts_with("usub.sat") {
            let q = self.cmp(Pred::Ult, w, &args[0], &args[1]);
            let d = self.bin(Bop::Sub, w, &args[0], &args[1])?;
            return Ok(Some(match q {
                V::C(1) => V::C(0),
                V::C(_) => d,
                V::E(e) => self.ite_v(e, &V::C(0), &d, &Ty::Int(w)),
                _ => return err("usub.sat".into()),
            }));
        }
        if n.starts_with("uadd.sat") {
            let s = self.bin(Bop::Add, w, &args[0], &args[1])?;
            let q = self.cmp(Pred::Ult, w, &s, &args[0]);
            return Ok(Some(match q {
                V::C(1) => V::C(m64(w)),
                V::C(_) => s,
                V::E(e) => self.ite_v(e, &V::C(m64(w)), &s, &Ty::Int(w)),
                _ => return err("uadd.sat".into()),
            }));
        }
        if n.starts_with("ucmp") || n.starts_with("scmp") {
            let (l, g) = if n.starts_with("u") { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
            let rw = match c.ret {
                Ty::Int(w) => w,
                _ => 8,
            };
            let lt = self.cmp(l, w, &args[0], &args[1]);
            let gt = self.cmp(g, w, &args[0], &args[1]);
            let lt = self.to_e(&lt, 1);
            let gt = self.to_e(&gt, 1);
            let m1 = self.ar.konst(mask(rw), rw);
            let z = self.ar.konst(0, rw);
            let o = self.ar.konst(1, rw);
            let x = self.ar.ite(gt, o, z);
            let r = self.ar.ite(lt, m1, x);
            return Ok(Some(self.v_of(r)));
        }
        if n.starts_with("fshl") || n.starts_with("fshr") {
            let s = self.conc_v(st, &args[2], "fsh amount")? % w as u64;
            let a = self.to_e(&args[0], w);
            let b = self.to_e(&args[1], w);
            let s = s as u32;
            let r = if n.starts_with("fshl") {
                if s == 0 {
                    a
                } else {
                    let h = self.ar.extract(a, 0, w - s);
                    let l = self.ar.extract(b, w - s, s);
                    self.ar.concat(h, l)
                }
            } else if s == 0 {
                b
            } else {
                let h = self.ar.extract(a, 0, s);
                let l = self.ar.extract(b, s, w - s);
                self.ar.concat(h, l)
            };
            return Ok(Some(self.v_of(r)));
        }
        if n.starts_with("bswap") {
            let a = self.to_e(&args[0], w);
            let mut acc: Option<Eid> = None;
            for i in 0..w / 8 {
                let b = self.ar.extract(a, w - 8 - i * 8, 8);
                acc = Some(match acc {
                    None => b,
                    Some(l) => self.ar.concat(b, l),
                });
            }
            return Ok(Some(self.v_of(acc.unwrap())));
        }
        if n.starts_with("bitreverse") {
            let a = self.to_e(&args[0], w);
            let mut acc: Option<Eid> = None;
            for i in 0..w {
                let b = self.ar.extract(a, w - 1 - i, 1);
                acc = Some(match acc {
                    None => b,
                    Some(l) => self.ar.concat(b, l),
                });
            }
            return Ok(Some(self.v_of(acc.unwrap())));
        }
        if n.starts_with("ctpop") {
            if let V::C(x) = args[0] {
                return Ok(Some(V::C(x.count_ones() as u64)));
            }
            let a = self.to_e(&args[0], w);
            let mut s = self.ar.konst(0, w);
            for i in 0..w {
                let b = self.ar.extract(a, i, 1);
                let b = self.ar.zext(b, w);
                s = self.ar.add(s, b);
            }
            return Ok(Some(self.v_of(s)));
        }
        if n.starts_with("cttz") || n.starts_with("ctlz") {
            let tz = n.starts_with("cttz");
            if let V::C(x) = args[0] {
                let r = if x == 0 {
                    w as u64
                } else if tz {
                    x.trailing_zeros() as u64
                } else {
                    (x.leading_zeros() - (64 - w)) as u64
                };
                return Ok(Some(V::C(r)));
            }
            let a = self.to_e(&args[0], w);
            let mut r = self.ar.konst(w as u128, w);
            for i in (0..w).rev() {
                let bit = if tz { i } else { w - 1 - i };
                let b = self.ar.extract(a, bit, 1);
                let k = self.ar.konst(i as u128, w);
                r = self.ar.ite(b, k, r);
            }
            return Ok(Some(self.v_of(r)));
        }
        if n.starts_with("abs") {
            let z = V::C(0);
            let q = self.cmp(Pred::Slt, w, &args[0], &z);
            let ng = self.bin(Bop::Sub, w, &z, &args[0])?;
            return Ok(Some(match q {
                V::C(1) => ng,
                V::C(_) => args[0].clone(),
                V::E(e) => self.ite_v(e, &ng, &args[0], &Ty::Int(w)),
                _ => return err("abs".into()),
            }));
        }
        if n.starts_with("expect") {
            return Ok(Some(args[0].clone()));
        }
        err(format!("intrinsic {}", name))
    }

    // ------------------------------------------------------------ driver
    pub fn initial(&mut self, w: &WorkItem) -> State {
        let job = &self.sh.jobs[w.job];
        let fx = *self.m.fn_ix.get(job.entry.as_str()).unwrap_or_else(|| panic!("no entry {}", job.entry));
        let f = self.m.func(fx).expect("entry has no body");
        self.next_model += 1;
        State {
            top: Frame { f, fx, pc: 0, regs: vec![V::C(0); f.nregs as usize], dst: NOREG, normal: None, allocas: vec![] },
            rest: vec![],
            mem: Mem::new(),
            multi: Rc::new(vec![]),
            vars: vec![],
            nrepl: 0,
            model: Rc::new(w.model.clone()),
            model_id: self.next_model,
            eqs: Rc::new(vec![]),
            choices: vec![],
            forced: Rc::new(w.choices.clone()),
            follow: w.follow,
            pend: None,
            pend_choice: false,
            obs: vec![],
            steps: 0,
            depth: 0,
            hash: 0,
        }
    }

    fn export(&self, s: &State) -> WorkItem {
        let mut ch = s.choices.clone();
        // a pending choose alternative is part of the decision prefix
        if let (Some(p), true) = (s.pend, s.pend_choice) {
            ch.push(p as u32);
        }
        // the pending instruction is re-executed as step s.steps+1
        let follow = if s.pend.is_some() { s.steps + 1 } else { s.steps };
        WorkItem { job: self.job, model: (*s.model).clone(), choices: ch, follow }
    }
    fn share(&mut self) {
        if self.stack.is_empty() || self.sh.want.load(Ordering::Relaxed) == 0 {
            return;
        }
        let mut q = self.sh.q.lock().unwrap();
        let mut n = 0;
        while q.items.len() < q.idle && self.stack.len() > 1 && n < 4 {
            let s = self.stack.pop_front().unwrap();
            let w = self.export(&s);
            q.items.push_back(w);
            q.active[self.job] += 1;
            n += 1;
        }
        if n > 0 {
            self.sh.want.store(q.idle.saturating_sub(q.items.len()), Ordering::Relaxed);
            self.sh.cv.notify_all();
        }
    }

    pub fn finish_path(&mut self, st: &State, end: End) {
        let j = self.job;
        self.st[j].paths += 1;
        self.st[j].max_depth = self.st[j].max_depth.max(st.depth);
        self.st[j].max_bytes = self.st[j].max_bytes.max(st.vars.len());
        match &end {
            End::Ok => {
                self.st[j].ok += 1;
                self.sample_seen[j] += 1;
                let n = self.sample_seen[j];
                let cap = self.sample_cap;
                let idx = if n <= cap { Some(n - 1) } else {
                    let r = self.rand() % n;
                    if r < cap { Some(r) } else { None }
                };
                if idx.is_some() {
                    let r = self.path_rec(st, End::Ok);
                    let mine: Vec<usize> = self.samples.iter().enumerate().filter(|(_, s)| s.job == j).map(|(i, _)| i).collect();
                    if (mine.len() as u64) < cap {
                        self.samples.push(r);
                    } else {
                        let k = (self.rand() % mine.len() as u64) as usize;
                        self.samples[mine[k]] = r;
                    }
                }
            }
            End::Assume => self.st[j].assumed += 1,
            End::Pruned => self.st[j].pruned += 1,
            End::Error(s) => {
                let s2 = format!("{} @ {}", s, self.backtrace(st));
                *self.st[j].errors.entry(s2).or_insert(0) += 1;
            }
            _ => {
                self.record(st, end.clone());
            }
        }
    }

    pub fn run_item(&mut self, w: WorkItem) {
        self.job = w.job;
        let t0 = Instant::now();
        let s = self.initial(&w);
        self.stack.push_back(s);
        let max_steps = self.sh.jobs[w.job].max_steps;
        while let Some(mut st) = self.stack.pop_back() {
            if self.sh.stop.load(Ordering::Relaxed) {
                self.stack.clear();
                break;
            }
            self.share();
            let s0 = st.steps;
            let end = loop {
                st.steps += 1;
                match self.exec(&mut st) {
                    Ok(()) => {}
                    Err(Stop::Retry) => {}
                    Err(Stop::End(e)) => break e,
                }
                if st.steps & 0xfff == 0 {
                    if st.steps > max_steps {
                        break End::Limit;
                    }
                    if self.sh.stop.load(Ordering::Relaxed) {
                        break End::Error("stopped".into());
                    }
                    if Instant::now() > self.sh.deadline {
                        self.sh.stop.store(true, Ordering::Relaxed);
                    }
                    self.share();
                }
            };
            self.st[self.job].instrs += st.steps.saturating_sub(s0);
            self.finish_path(&st, end);
            drop(st);
            if self.ar.nodes.len() > self.sh.mem_limit_nodes && !self.stack.is_empty() {
                // too many terms: hand the remaining states back as replayable work and start afresh
                let mut q = self.sh.q.lock().unwrap();
                while let Some(s) = self.stack.pop_back() {
                    let w = self.export(&s);
                    q.items.push_front(w);
                    q.active[self.job] += 1;
                }
                self.sh.cv.notify_all();
            }
        }
        if self.ar.nodes.len() > self.sh.mem_limit_nodes {
            self.ar = Arena::new();
            self.z3.fresh();
            self.qcache.clear();
            self.confirm.clear();
        }
        self.st[w.job].wall += t0.elapsed().as_secs_f64();
    }
}

impl Ty {
    pub fn bits_or0(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => 0,
        }
    }
}
