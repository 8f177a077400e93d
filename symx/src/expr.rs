//! Hash-consed bit-vector expressions with simplification. Variables are 8-bit symbolic bytes.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
        self.0 ^= self.0 >> 29;
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;

pub type Eid = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Concat, // a = hi, b = lo
    Extract, // a, k = low bit
    ZExt,
    SExt,
    Ite,
    Table, // k = table id, a = 8-bit index
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: Eid,
    pub b: Eid,
    pub c: Eid,
    pub k: u64,
    pub k2: u64,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

pub type Bits = [u64; 4];

pub struct Arena {
    pub nodes: Vec<Node>,
    pub mx: Vec<u128>,
    pub vs: Vec<u32>,
    ix: FxMap<Node, Eid>,
    pub sets: Vec<Rc<[u32]>>,
    set_ix: HashMap<Rc<[u32]>, u32>,
    uni: FxMap<(u32, u32), u32>,
    pub tables: Vec<Box<[u8; 256]>>,
    tab_ix: HashMap<Vec<u8>, u32>,
    truth: FxMap<Eid, Bits>,
    // eval memo
    ev_epoch: Vec<u32>,
    ev_val: Vec<u128>,
    epoch: u32,
    epoch_model: u64,
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            mx: vec![],
            vs: vec![],
            ix: Default::default(),
            sets: vec![],
            set_ix: HashMap::new(),
            uni: Default::default(),
            tables: vec![],
            tab_ix: HashMap::new(),
            truth: Default::default(),
            ev_epoch: vec![],
            ev_val: vec![],
            epoch: 0,
            epoch_model: 0,
        };
        a.intern_set(vec![]);
        // id 0 reserved: dummy
        a.raw(Node { op: Op::Const, w: 128, a: 0, b: 0, c: 0, k: 0xdead, k2: 0xdead });
        a
    }
    fn intern_set(&mut self, v: Vec<u32>) -> u32 {
        let r: Rc<[u32]> = v.into();
        if let Some(i) = self.set_ix.get(&r) {
            return *i;
        }
        let i = self.sets.len() as u32;
        self.sets.push(r.clone());
        self.set_ix.insert(r, i);
        i
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.uni.get(&key) {
            return *r;
        }
        let mut v: Vec<u32> = self.sets[a as usize].iter().chain(self.sets[b as usize].iter()).cloned().collect();
        v.sort_unstable();
        v.dedup();
        let r = self.intern_set(v);
        self.uni.insert(key, r);
        r
    }
    pub fn vars(&self, e: Eid) -> &Rc<[u32]> {
        &self.sets[self.vs[e as usize] as usize]
    }
    pub fn n(&self, e: Eid) -> Node {
        self.nodes[e as usize]
    }
    pub fn w(&self, e: Eid) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn cval(&self, e: Eid) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const { Some((n.k as u128) | ((n.k2 as u128) << 64)) } else { None }
    }
    fn raw(&mut self, n: Node) -> Eid {
        if let Some(i) = self.ix.get(&n) {
            return *i;
        }
        let i = self.nodes.len() as Eid;
        let w = n.w as u32;
        let m = mask(w);
        let g = |e: Eid| self.mx[e as usize];
        let mx = match n.op {
            Op::Const => (n.k as u128) | ((n.k2 as u128) << 64),
            Op::Add => {
                let (s, o) = g(n.a).overflowing_add(g(n.b));
                if o || s > m { m } else { s }
            }
            Op::Mul => match g(n.a).checked_mul(g(n.b)) {
                Some(s) if s <= m => s,
                _ => m,
            },
            Op::UDiv => match self.cval(n.b) {
                Some(d) if d > 0 => g(n.a) / d,
                _ => m,
            },
            Op::URem => match self.cval(n.b) {
                Some(d) if d > 0 => g(n.a).min(d - 1),
                _ => g(n.a),
            },
            Op::And => g(n.a).min(g(n.b)),
            Op::Or | Op::Xor => {
                let x = g(n.a).max(g(n.b));
                let bl = 128 - x.leading_zeros();
                mask(bl).min(m)
            }
            Op::LShr => g(n.a),
            Op::ZExt => g(n.a),
            Op::Extract => {
                let x = g(n.a) >> n.k;
                if x <= m { x } else { m }
            }
            Op::Concat => (g(n.a) << self.w(n.b)) | mask(self.w(n.b)),
            Op::Ite => g(n.b).max(g(n.c)),
            Op::Table => self.tables[n.k as usize].iter().cloned().max().unwrap() as u128,
            _ => m,
        };
        let vs = match n.op {
            Op::Const => 0,
            Op::Var => self.intern_set(vec![n.k as u32]),
            Op::Extract | Op::ZExt | Op::SExt | Op::Table => self.vs[n.a as usize],
            Op::Ite => {
                let x = self.union(self.vs[n.a as usize], self.vs[n.b as usize]);
                self.union(x, self.vs[n.c as usize])
            }
            _ => self.union(self.vs[n.a as usize], self.vs[n.b as usize]),
        };
        self.nodes.push(n);
        self.mx.push(mx);
        self.vs.push(vs);
        self.ev_epoch.push(0);
        self.ev_val.push(0);
        self.ix.insert(n, i);
        i
    }
    fn mk(&mut self, op: Op, w: u32, a: Eid, b: Eid, c: Eid, k: u64) -> Eid {
        self.raw(Node { op, w: w as u8, a, b, c, k, k2: 0 })
    }
    pub fn konst(&mut self, v: u128, w: u32) -> Eid {
        let v = v & mask(w);
        self.raw(Node { op: Op::Const, w: w as u8, a: 0, b: 0, c: 0, k: v as u64, k2: (v >> 64) as u64 })
    }
    pub fn var(&mut self, i: u32) -> Eid {
        self.mk(Op::Var, 8, 0, 0, 0, i as u64)
    }
    pub fn t(&mut self) -> Eid {
        self.konst(1, 1)
    }
    pub fn f(&mut self) -> Eid {
        self.konst(0, 1)
    }
    pub fn not(&mut self, a: Eid) -> Eid {
        let o = self.konst(mask(self.w(a)), self.w(a));
        self.xor(a, o)
    }
    fn const_ite(&self, e: Eid) -> bool {
        // ite whose leaves are constants (depth limited)
        fn go(a: &Arena, e: Eid, d: u32) -> bool {
            let n = a.n(e);
            match n.op {
                Op::Const => true,
                Op::Ite if d < 6 => go(a, n.b, d + 1) && go(a, n.c, d + 1),
                _ => false,
            }
        }
        self.n(e).op == Op::Ite && go(self, e, 0)
    }
    /// apply a unary function to const leaves of an ite
    fn map_ite(&mut self, e: Eid, f: &mut dyn FnMut(&mut Arena, Eid) -> Eid) -> Eid {
        let n = self.n(e);
        if n.op == Op::Ite {
            let x = self.map_ite(n.b, f);
            let y = self.map_ite(n.c, f);
            self.ite(n.a, x, y)
        } else {
            f(self, e)
        }
    }

    pub fn ite(&mut self, c: Eid, a: Eid, b: Eid) -> Eid {
        if let Some(v) = self.cval(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        let cn = self.n(c);
        if cn.op == Op::Xor && self.cval(cn.b) == Some(1) {
            return self.ite(cn.a, b, a);
        }
        // nested same condition
        let an = self.n(a);
        if an.op == Op::Ite && an.a == c {
            return self.ite(c, an.b, b);
        }
        let bn = self.n(b);
        if bn.op == Op::Ite && bn.a == c {
            return self.ite(c, a, bn.c);
        }
        if bn.op == Op::Ite && bn.b == a {
            let cc = self.or(c, bn.a);
            return self.ite(cc, a, bn.c);
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }

    pub fn extract(&mut self, e: Eid, lo: u32, w: u32) -> Eid {
        let n = self.n(e);
        let ew = n.w as u32;
        debug_assert!(lo + w <= ew);
        if w == ew {
            return e;
        }
        match n.op {
            Op::Const => {
                let v = self.cval(e).unwrap();
                return self.konst(v >> lo, w);
            }
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            Op::Add if lo == 0 && (self.n(n.a).op == Op::ZExt || self.n(n.b).op == Op::ZExt) && {
                let (x, y) = (self.n(n.a), self.n(n.b));
                let f = |me: &Self, q: Node, e: Eid| me.cval(e).is_some() || (q.op == Op::ZExt && me.w(q.a) <= w);
                f(self, x, n.a) && f(self, y, n.b)
            } => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.add(x, y);
            }
            Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.mul(x, y);
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        if self.mx[e as usize] >> lo == 0 {
            return self.konst(0, w);
        }
        self.mk(Op::Extract, w, e, 0, 0, lo as u64)
    }

    pub fn concat(&mut self, hi: Eid, lo: Eid) -> Eid {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        match (self.cval(hi), self.cval(lo)) {
            (Some(h), Some(l)) => return self.konst((h << lw) | l, w),
            (Some(0), None) => return self.zext(lo, w),
            _ => {}
        }
        let hn = self.n(hi);
        let ln = self.n(lo);
        // (zext x) . lo  -> zext (x . lo)
        if hn.op == Op::ZExt {
            let x = self.concat(hn.a, lo);
            return self.zext(x, w);
        }
        // right-assoc: hi.(a.b): keep left operand atomic: concat(concat(a,b),lo) -> concat(a, concat(b,lo))
        if hn.op == Op::Concat {
            let l = self.concat(hn.b, lo);
            return self.concat(hn.a, l);
        }
        if hn.op == Op::Ite && ln.op == Op::Ite && hn.a == ln.a {
            let x = self.concat(hn.b, ln.b);
            let y = self.concat(hn.c, ln.c);
            return self.ite(hn.a, x, y);
        }
        // merge extracts
        if hn.op == Op::Extract {
            if hn.k >= lw as u64 {
                let k = hn.k as u32 - lw;
                if self.extract(hn.a, k, lw) == lo {
                    return self.extract(hn.a, k, w);
                }
            }
            if ln.op == Op::Extract && ln.a == hn.a && hn.k == ln.k + lw as u64 {
                return self.extract(hn.a, ln.k as u32, w);
            }
            // hi = extract(x, k=lw_of_x..), lo = x?? handled when lo is low part represented as extract or full var
            if ln.op == Op::Concat {
                let l1 = self.n(ln.a);
                if l1.op == Op::Extract && l1.a == hn.a && hn.k == l1.k + l1.w as u64 {
                    let h = self.extract(hn.a, l1.k as u32, hw + l1.w as u32);
                    return self.concat(h, ln.b);
                }
            }
        }
        // const . (const . x)
        if hn.op == Op::Const && ln.op == Op::Concat {
            if let Some(l1) = self.cval(ln.a) {
                let l1w = self.w(ln.a);
                let h = self.cval(hi).unwrap();
                let k = self.konst((h << l1w) | l1, hw + l1w);
                return self.concat(k, ln.b);
            }
        }
        self.mk(Op::Concat, w, hi, lo, 0, 0)
    }

    pub fn zext(&mut self, e: Eid, w: u32) -> Eid {
        let n = self.n(e);
        if n.w as u32 == w {
            return e;
        }
        match n.op {
            Op::Const => {
                let v = self.cval(e).unwrap();
                return self.konst(v, w);
            }
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.const_ite(e) => {
                return self.map_ite(e, &mut |a, x| {
                    let v = a.cval(x).unwrap();
                    a.konst(v, w)
                });
            }
            _ => {}
        }
        self.mk(Op::ZExt, w, e, 0, 0, 0)
    }
    pub fn sext(&mut self, e: Eid, w: u32) -> Eid {
        let n = self.n(e);
        let ew = n.w as u32;
        if ew == w {
            return e;
        }
        if let Some(v) = self.cval(e) {
            return self.konst(sx(v, ew) as u128, w);
        }
        if ew == 1 {
            let a = self.konst(mask(w), w);
            let b = self.konst(0, w);
            return self.ite(e, a, b);
        }
        if self.mx[e as usize] < (1u128 << (ew - 1)) {
            return self.zext(e, w);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if self.const_ite(e) {
            return self.map_ite(e, &mut |a, x| {
                let v = a.cval(x).unwrap();
                a.konst(sx(v, ew) as u128, w)
            });
        }
        self.mk(Op::SExt, w, e, 0, 0, 0)
    }

    fn order(&self, a: Eid, b: Eid) -> (Eid, Eid) {
        // constants to the right, otherwise by id
        if self.n(a).op == Op::Const {
            (b, a)
        } else if self.n(b).op == Op::Const {
            (a, b)
        } else if a <= b {
            (a, b)
        } else {
            (b, a)
        }
    }

    fn fold_ite2(&mut self, op: Op, a: Eid, b: Eid) -> Option<Eid> {
        // binary op where one side const and the other a const-leaf ite
        if self.cval(b).is_some() && self.const_ite(a) {
            return Some(self.map_ite(a, &mut |ar, x| ar.bin(op, x, b)));
        }
        if self.cval(a).is_some() && self.const_ite(b) {
            return Some(self.map_ite(b, &mut |ar, x| ar.bin(op, a, x)));
        }
        None
    }

    pub fn bin(&mut self, op: Op, a: Eid, b: Eid) -> Eid {
        match op {
            Op::Add => self.add(a, b),
            Op::Mul => self.mul(a, b),
            Op::And => self.and(a, b),
            Op::Or => self.or(a, b),
            Op::Xor => self.xor(a, b),
            Op::Shl => self.shl(a, b),
            Op::LShr => self.lshr(a, b),
            Op::AShr => self.ashr(a, b),
            Op::UDiv => self.udiv(a, b),
            Op::URem => self.urem(a, b),
            Op::SDiv | Op::SRem => self.sdivrem(op, a, b),
            Op::Eq => self.eq(a, b),
            Op::Ult => self.ult(a, b),
            Op::Slt => self.slt(a, b),
            _ => panic!("bin {:?}", op),
        }
    }

    pub fn add(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            return self.xor(a, b);
        }
        let (a, b) = self.order(a, b);
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.konst(x.wrapping_add(y), w);
            }
            if y == 0 {
                return a;
            }
            let an = self.n(a);
            if an.op == Op::Add {
                if let Some(z) = self.cval(an.b) {
                    let k = self.konst(y.wrapping_add(z), w);
                    return self.add(an.a, k);
                }
            }
            if let Some(r) = self.fold_ite2(Op::Add, a, b) {
                return r;
            }
        } else {
            // (x + c) + y -> (x + y) + c
            let an = self.n(a);
            if an.op == Op::Add && self.cval(an.b).is_some() {
                let s = self.add(an.a, b);
                return self.add(s, an.b);
            }
            let bn = self.n(b);
            if bn.op == Op::Add && self.cval(bn.b).is_some() {
                let s = self.add(a, bn.a);
                return self.add(s, bn.b);
            }
            // x + (-1*x) = 0
            if bn.op == Op::Mul && bn.a == a && self.cval(bn.b) == Some(mask(w)) {
                return self.konst(0, w);
            }
            if an.op == Op::Mul && an.a == b && self.cval(an.b) == Some(mask(w)) {
                return self.konst(0, w);
            }
            // disjoint pieces -> concat
            if let Some(r) = self.disjoint_or(a, b) {
                return r;
            }
        }
        self.mk(Op::Add, w, a, b, 0, 0)
    }
    pub fn sub(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        if a == b {
            return self.konst(0, w);
        }
        if let Some(y) = self.cval(b) {
            let k = self.konst(y.wrapping_neg(), w);
            return self.add(a, k);
        }
        if let Some(r) = (self.cval(a).is_some() && self.const_ite(b)).then(|| {
            self.map_ite(b, &mut |ar, x| ar.sub(a, x))
        }) {
            return r;
        }
        // (x + y) - x
        let an = self.n(a);
        if an.op == Op::Add {
            if an.a == b {
                return an.b;
            }
            if an.b == b {
                return an.a;
            }
        }
        let k = self.konst(mask(w), w);
        let nb = self.mul(b, k);
        self.add(a, nb)
    }
    pub fn mul(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        if w == 1 {
            return self.and(a, b);
        }
        let (a, b) = self.order(a, b);
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.konst(x.wrapping_mul(y), w);
            }
            if y == 0 {
                return b;
            }
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let k = self.konst(y.trailing_zeros() as u128, w);
                return self.shl(a, k);
            }
            let an = self.n(a);
            if an.op == Op::Mul {
                if let Some(z) = self.cval(an.b) {
                    let k = self.konst(y.wrapping_mul(z), w);
                    return self.mul(an.a, k);
                }
            }
            if let Some(r) = self.fold_ite2(Op::Mul, a, b) {
                return r;
            }
        }
        self.mk(Op::Mul, w, a, b, 0, 0)
    }
    pub fn udiv(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        if let Some(y) = self.cval(b) {
            if y != 0 {
                if let Some(x) = self.cval(a) {
                    return self.konst(x / y, w);
                }
                if y.is_power_of_two() {
                    let k = self.konst(y.trailing_zeros() as u128, w);
                    return self.lshr(a, k);
                }
            }
            if let Some(r) = self.fold_ite2(Op::UDiv, a, b) {
                return r;
            }
        }
        self.mk(Op::UDiv, w, a, b, 0, 0)
    }
    pub fn urem(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        if let Some(y) = self.cval(b) {
            if y != 0 {
                if let Some(x) = self.cval(a) {
                    return self.konst(x % y, w);
                }
                if y.is_power_of_two() {
                    let k = self.konst(y - 1, w);
                    return self.and(a, k);
                }
                if self.mx[a as usize] < y {
                    return a;
                }
            }
        }
        self.mk(Op::URem, w, a, b, 0, 0)
    }
    fn sdivrem(&mut self, op: Op, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            let (x, y) = (sx(x, w), sx(y, w));
            if y != 0 {
                let r = if op == Op::SDiv { x.wrapping_div(y) } else { x.wrapping_rem(y) };
                return self.konst(r as u128, w);
            }
        }
        let h = 1u128 << (w - 1);
        if self.mx[a as usize] < h && self.mx[b as usize] < h {
            return if op == Op::SDiv { self.udiv(a, b) } else { self.urem(a, b) };
        }
        self.mk(op, w, a, b, 0, 0)
    }

    /// decompose into (piece, width) from low to high; None pieces are zero
    fn pieces(&mut self, e: Eid, out: &mut Vec<(Eid, u32)>) {
        let n = self.n(e);
        match n.op {
            Op::Concat => {
                self.pieces(n.b, out);
                self.pieces(n.a, out);
            }
            Op::ZExt => {
                self.pieces(n.a, out);
                let iw = self.w(n.a);
                let z = self.konst(0, n.w as u32 - iw);
                out.push((z, n.w as u32 - iw));
            }
            _ => out.push((e, n.w as u32)),
        }
    }
    /// a|b (or a+b) when for each piece at most one side is non-zero
    fn disjoint_or(&mut self, a: Eid, b: Eid) -> Option<Eid> {
        let oa = self.n(a).op;
        let ob = self.n(b).op;
        let isp = |o: Op| o == Op::Concat || o == Op::ZExt;
        if !(isp(oa) || isp(ob)) {
            return None;
        }
        if oa == Op::Const || ob == Op::Const {
            return None;
        }
        let mut pa = vec![];
        let mut pb = vec![];
        self.pieces(a, &mut pa);
        self.pieces(b, &mut pb);
        let mut cuts: Vec<u32> = vec![];
        let mut o = 0;
        for p in &pa {
            o += p.1;
            cuts.push(o);
        }
        o = 0;
        for p in &pb {
            o += p.1;
            cuts.push(o);
        }
        cuts.sort_unstable();
        cuts.dedup();
        let mut lo = 0;
        let mut res: Option<Eid> = None;
        for c in cuts {
            let x = self.extract(a, lo, c - lo);
            let y = self.extract(b, lo, c - lo);
            let r = if self.cval(x) == Some(0) {
                y
            } else if self.cval(y) == Some(0) {
                x
            } else {
                return None;
            };
            res = Some(match res {
                None => r,
                Some(l) => self.concat(r, l),
            });
            lo = c;
        }
        res
    }

    pub fn and(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (a, b) = self.order(a, b);
        if a == b {
            return a;
        }
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.konst(x & y, w);
            }
            if y == 0 {
                return b;
            }
            if y == mask(w) {
                return a;
            }
            if w > 1 {
                // count runs of ones in mask
                let runs = (y ^ (y << 1)).count_ones();
                if runs <= 4 {
                    let mut res: Option<Eid> = None;
                    let mut lo = 0;
                    while lo < w {
                        let bit = (y >> lo) & 1;
                        let mut hi = lo;
                        while hi < w && (y >> hi) & 1 == bit {
                            hi += 1;
                        }
                        let p = if bit == 1 { self.extract(a, lo, hi - lo) } else { self.konst(0, hi - lo) };
                        res = Some(match res {
                            None => p,
                            Some(l) => self.concat(p, l),
                        });
                        lo = hi;
                    }
                    return res.unwrap();
                }
                if let Some(r) = self.fold_ite2(Op::And, a, b) {
                    return r;
                }
            }
        }
        if w == 1 {
            // x & !x
            let an = self.n(a);
            let bn = self.n(b);
            if an.op == Op::Xor && an.a == b && self.cval(an.b) == Some(1) {
                return self.f();
            }
            if bn.op == Op::Xor && bn.a == a && self.cval(bn.b) == Some(1) {
                return self.f();
            }
            if (an.op == Op::And && (an.a == b || an.b == b)) || (an.op == Op::Or && false) {
                return a;
            }
            if bn.op == Op::And && (bn.a == a || bn.b == a) {
                return b;
            }
        }
        self.mk(Op::And, w, a, b, 0, 0)
    }
    pub fn or(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (a, b) = self.order(a, b);
        if a == b {
            return a;
        }
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.konst(x | y, w);
            }
            if y == 0 {
                return a;
            }
            if y == mask(w) {
                return b;
            }
            let runs = (y ^ (y << 1)).count_ones();
            if runs <= 4 {
                let mut res: Option<Eid> = None;
                let mut lo = 0;
                while lo < w {
                    let bit = (y >> lo) & 1;
                    let mut hi = lo;
                    while hi < w && (y >> hi) & 1 == bit {
                        hi += 1;
                    }
                    let p = if bit == 0 { self.extract(a, lo, hi - lo) } else { self.konst(mask(hi - lo), hi - lo) };
                    res = Some(match res {
                        None => p,
                        Some(l) => self.concat(p, l),
                    });
                    lo = hi;
                }
                return res.unwrap();
            }
            if let Some(r) = self.fold_ite2(Op::Or, a, b) {
                return r;
            }
        } else if w > 1 {
            if let Some(r) = self.disjoint_or(a, b) {
                return r;
            }
        }
        if w == 1 {
            let an = self.n(a);
            let bn = self.n(b);
            if an.op == Op::Xor && an.a == b && self.cval(an.b) == Some(1) {
                return self.t();
            }
            if bn.op == Op::Xor && bn.a == a && self.cval(bn.b) == Some(1) {
                return self.t();
            }
        }
        self.mk(Op::Or, w, a, b, 0, 0)
    }
    pub fn xor(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (a, b) = self.order(a, b);
        if a == b {
            return self.konst(0, w);
        }
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.konst(x ^ y, w);
            }
            if y == 0 {
                return a;
            }
            let an = self.n(a);
            if an.op == Op::Xor {
                if let Some(z) = self.cval(an.b) {
                    let k = self.konst(y ^ z, w);
                    return self.xor(an.a, k);
                }
            }
            if w == 1 {
                // push negation into and/or (NNF) keeps conjunctions splittable
                if an.op == Op::Or {
                    let x = self.not(an.a);
                    let y = self.not(an.b);
                    return self.and(x, y);
                }
                if an.op == Op::And {
                    let x = self.not(an.a);
                    let y = self.not(an.b);
                    return self.or(x, y);
                }
            }
            if w > 1 {
                if an.op == Op::Concat || an.op == Op::ZExt {
                    let (hw, lw) = if an.op == Op::Concat {
                        (self.w(an.a), self.w(an.b))
                    } else {
                        (w - self.w(an.a), self.w(an.a))
                    };
                    let h = self.extract(a, lw, hw);
                    let l = self.extract(a, 0, lw);
                    let kh = self.konst(y >> lw, hw);
                    let kl = self.konst(y, lw);
                    let h = self.xor(h, kh);
                    let l = self.xor(l, kl);
                    return self.concat(h, l);
                }
                if let Some(r) = self.fold_ite2(Op::Xor, a, b) {
                    return r;
                }
            }
        } else if w > 1 {
            if let Some(r) = self.disjoint_or(a, b) {
                return r;
            }
        }
        self.mk(Op::Xor, w, a, b, 0, 0)
    }
    pub fn shl(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        if let Some(y) = self.cval(b) {
            let y = y as u32;
            if y == 0 {
                return a;
            }
            if y >= w {
                return self.konst(0, w);
            }
            let x = self.extract(a, 0, w - y);
            let z = self.konst(0, y);
            return self.concat(x, z);
        }
        if self.cval(a) == Some(0) {
            return a;
        }
        if let Some(r) = self.fold_ite2(Op::Shl, a, b) {
            return r;
        }
        self.mk(Op::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        if let Some(y) = self.cval(b) {
            if y as u32 == 0 {
                return a;
            }
            if y >= w as u128 {
                return self.konst(0, w);
            }
            let x = self.extract(a, y as u32, w - y as u32);
            return self.zext(x, w);
        }
        if self.cval(a) == Some(0) {
            return a;
        }
        if let Some(r) = self.fold_ite2(Op::LShr, a, b) {
            return r;
        }
        self.mk(Op::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        if let Some(y) = self.cval(b) {
            if y as u32 == 0 {
                return a;
            }
            let y = (y as u32).min(w - 1);
            let x = self.extract(a, y, w - y);
            return self.sext(x, w);
        }
        if let Some(r) = self.fold_ite2(Op::AShr, a, b) {
            return r;
        }
        self.mk(Op::AShr, w, a, b, 0, 0)
    }

    pub fn eq(&mut self, a: Eid, b: Eid) -> Eid {
        if a == b {
            return self.t();
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (a, b) = self.order(a, b);
        let an = self.n(a);
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.konst((x == y) as u128, 1);
            }
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            if y > self.mx[a as usize] {
                return self.f();
            }
            match an.op {
                Op::Concat => {
                    let lw = self.w(an.b);
                    let kh = self.konst(y >> lw, w - lw);
                    let kl = self.konst(y, lw);
                    let h = self.eq(an.a, kh);
                    if self.cval(h) == Some(0) {
                        return h;
                    }
                    let l = self.eq(an.b, kl);
                    return self.and(h, l);
                }
                Op::ZExt => {
                    let iw = self.w(an.a);
                    if y >> iw != 0 {
                        return self.f();
                    }
                    let k = self.konst(y, iw);
                    return self.eq(an.a, k);
                }
                Op::SExt => {
                    let iw = self.w(an.a);
                    let lowk = y & mask(iw);
                    if (sx(lowk, iw) as u128) & mask(w) != y {
                        return self.f();
                    }
                    let k = self.konst(lowk, iw);
                    return self.eq(an.a, k);
                }
                Op::Add => {
                    if let Some(z) = self.cval(an.b) {
                        let k = self.konst(y.wrapping_sub(z), w);
                        return self.eq(an.a, k);
                    }
                }
                Op::Xor => {
                    if let Some(z) = self.cval(an.b) {
                        let k = self.konst(y ^ z, w);
                        return self.eq(an.a, k);
                    }
                }
                Op::Or if y == 0 => {
                    let x = self.eq(an.a, b);
                    let z = self.eq(an.b, b);
                    return self.and(x, z);
                }
                Op::Ite => {
                    let cb = self.cval(an.b);
                    let cc = self.cval(an.c);
                    if cb.is_some() || cc.is_some() || self.const_ite(a) {
                        let x = self.eq(an.b, b);
                        let z = self.eq(an.c, b);
                        return self.ite(an.a, x, z);
                    }
                }
                _ => {}
            }
        } else {
            let bn = self.n(b);
            // piecewise split
            let isp = |o: Op| o == Op::Concat || o == Op::ZExt;
            if isp(an.op) && isp(bn.op) {
                let lw = |s: &Arena, n: Node| if n.op == Op::Concat { s.w(n.b) } else { s.w(n.a) };
                let l1 = lw(self, an);
                let l2 = lw(self, bn);
                let l = l1.min(l2);
                let x = self.extract(a, 0, l);
                let y = self.extract(b, 0, l);
                let e1 = self.eq(x, y);
                if self.cval(e1) == Some(0) {
                    return e1;
                }
                let x = self.extract(a, l, w - l);
                let y = self.extract(b, l, w - l);
                let e2 = self.eq(x, y);
                return self.and(e1, e2);
            }
            // x + c == y + c ; x + y == x
            if an.op == Op::Add && bn.op == Op::Add {
                if an.b == bn.b {
                    return self.eq(an.a, bn.a);
                }
                if an.a == bn.a {
                    return self.eq(an.b, bn.b);
                }
            }
            if an.op == Op::Add && (an.a == b || an.b == b) {
                let o = if an.a == b { an.b } else { an.a };
                let z = self.konst(0, w);
                return self.eq(o, z);
            }
            if bn.op == Op::Add && (bn.a == a || bn.b == a) {
                let o = if bn.a == a { bn.b } else { bn.a };
                let z = self.konst(0, w);
                return self.eq(o, z);
            }
            if w == 1 {
                let x = self.xor(a, b);
                return self.not(x);
            }
        }
        self.mk(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn ult(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.f();
        }
        // x + y < x  with no possible carry
        let na0 = self.n(a);
        if na0.op == Op::Add && (na0.a == b || na0.b == b) {
            let (p, q) = (self.mx[na0.a as usize], self.mx[na0.b as usize]);
            if p.checked_add(q).map_or(false, |s| s <= mask(w)) {
                return self.f();
            }
        }
        let ca = self.cval(a);
        let cb = self.cval(b);
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst((x < y) as u128, 1);
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        if let Some(y) = cb {
            if y == 0 {
                return self.f();
            }
            if self.mx[a as usize] < y {
                return self.t();
            }
            if y == 1 {
                let z = self.konst(0, w);
                return self.eq(a, z);
            }
            let an = self.n(a);
            match an.op {
                Op::ZExt => {
                    let iw = self.w(an.a);
                    if y > mask(iw) {
                        return self.t();
                    }
                    let k = self.konst(y, iw);
                    return self.ult(an.a, k);
                }
                Op::Ite if self.const_ite(a) || self.cval(an.b).is_some() || self.cval(an.c).is_some() => {
                    let x = self.ult(an.b, b);
                    let z = self.ult(an.c, b);
                    return self.ite(an.a, x, z);
                }
                Op::Concat => {
                    // hi.lo < y
                    let lw = self.w(an.b);
                    let yl = y & mask(lw);
                    let yh = y >> lw;
                    if yl == 0 {
                        let k = self.konst(yh, w - lw);
                        return self.ult(an.a, k);
                    }
                }
                _ => {}
            }
        }
        if let Some(x) = ca {
            if x >= self.mx[b as usize] {
                return self.f();
            }
            if x == mask(w) {
                return self.f();
            }
            let bn = self.n(b);
            if x == 0 {
                let z = self.konst(0, w);
                let e = self.eq(b, z);
                return self.not(e);
            }
            match bn.op {
                Op::ZExt => {
                    let iw = self.w(bn.a);
                    if x >= mask(iw) {
                        return self.f();
                    }
                    let k = self.konst(x, iw);
                    return self.ult(k, bn.a);
                }
                Op::Ite if self.const_ite(b) || self.cval(bn.b).is_some() || self.cval(bn.c).is_some() => {
                    let x = self.ult(a, bn.b);
                    let z = self.ult(a, bn.c);
                    return self.ite(bn.a, x, z);
                }
                _ => {}
            }
            // canonical: x < b  <=>  !(b < x+1)
            let k = self.konst(x + 1, w);
            let r = self.ult(b, k);
            return self.not(r);
        }
        let an = self.n(a);
        let bn = self.n(b);
        if an.op == Op::ZExt && bn.op == Op::ZExt {
            let m = self.w(an.a).max(self.w(bn.a));
            if m < w {
                let x = self.extract(a, 0, m);
                let y = self.extract(b, 0, m);
                return self.ult(x, y);
            }
        }
        self.mk(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn slt(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        if a == b {
            return self.f();
        }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst((sx(x, w) < sx(y, w)) as u128, 1);
        }
        if w == 1 {
            // -1 < 0
            let nb = self.not(b);
            return self.and(a, nb);
        }
        let h = 1u128 << (w - 1);
        let (ma, mb) = (self.mx[a as usize], self.mx[b as usize]);
        if ma < h && mb < h {
            return self.ult(a, b);
        }
        if self.cval(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if self.cval(a) == Some(mask(w)) {
            let s = self.extract(b, w - 1, 1);
            return self.not(s);
        }
        if ma < h {
            // a nonneg, b const negative -> false
            if let Some(y) = self.cval(b) {
                if y >= h {
                    return self.f();
                }
            }
        }
        if mb < h {
            if let Some(x) = self.cval(a) {
                if x >= h {
                    return self.t();
                }
            }
        }
        if let Some(r) = self.fold_ite2(Op::Slt, a, b) {
            return r;
        }
        // flip sign bits: slt(a,b) = ult(a^h, b^h)
        self.mk(Op::Slt, 1, a, b, 0, 0)
    }

    pub fn table(&mut self, t: &[u8; 256], idx: Eid) -> Eid {
        if let Some(v) = self.cval(idx) {
            return self.konst(t[v as usize] as u128, 8);
        }
        if t.iter().all(|x| *x == t[0]) {
            return self.konst(t[0] as u128, 8);
        }
        let key = t.to_vec();
        let id = if let Some(i) = self.tab_ix.get(&key) {
            *i
        } else {
            let i = self.tables.len() as u32;
            self.tables.push(Box::new(*t));
            self.tab_ix.insert(key, i);
            i
        };
        self.mk(Op::Table, 8, idx, 0, 0, id as u64)
    }

    fn step(n: &Node, w: u32, aw: u32, bw: u32, a: u128, b: u128, c: u128, tables: &[Box<[u8; 256]>]) -> u128 {
        let m = mask(w);
        match n.op {
            Op::Add => a.wrapping_add(b) & m,
            Op::Mul => a.wrapping_mul(b) & m,
            Op::UDiv => if b == 0 { m } else { a / b },
            Op::URem => if b == 0 { a } else { a % b },
            Op::SDiv => {
                let (x, y) = (sx(a, w), sx(b, w));
                if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m }
            }
            Op::SRem => {
                let (x, y) = (sx(a, w), sx(b, w));
                if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
            }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
            Op::LShr => if b >= w as u128 { 0 } else { a >> b },
            Op::AShr => {
                let s = b.min(w as u128 - 1) as u32;
                ((sx(a, w) >> s) as u128) & m
            }
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Slt => (sx(a, aw) < sx(b, aw)) as u128,
            Op::Concat => ((a << bw) | b) & m,
            Op::Extract => (a >> n.k) & m,
            Op::ZExt => a,
            Op::SExt => (sx(a, aw) as u128) & m,
            Op::Ite => if a == 1 { b } else { c },
            Op::Table => tables[n.k as usize][a as usize & 255] as u128,
            Op::Const | Op::Var => unreachable!(),
        }
    }

    /// concrete evaluation under a model (missing variables are 0)
    pub fn eval(&mut self, e: Eid, model: &[u8], model_id: u64) -> u128 {
        if let Some(v) = self.cval(e) {
            return v;
        }
        if self.epoch == 0 || self.epoch_model != model_id || model_id == 0 {
            self.epoch += 1;
            self.epoch_model = model_id;
        }
        self.eval_rec(e, model)
    }
    fn eval_rec(&mut self, e: Eid, model: &[u8]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return (n.k as u128) | ((n.k2 as u128) << 64),
            Op::Var => return *model.get(n.k as usize).unwrap_or(&0) as u128,
            _ => {}
        }
        if self.ev_epoch[e as usize] == self.epoch {
            return self.ev_val[e as usize];
        }
        let a = self.eval_rec(n.a, model);
        let r = if n.op == Op::Ite {
            if a == 1 { self.eval_rec(n.b, model) } else { self.eval_rec(n.c, model) }
        } else {
            let b = match n.op {
                Op::Extract | Op::ZExt | Op::SExt | Op::Table => 0,
                _ => self.eval_rec(n.b, model),
            };
            let (aw, bw) = (self.w(n.a), self.w(n.b));
            Self::step(&n, n.w as u32, aw, bw, a, b, 0, &self.tables)
        };
        self.ev_epoch[e as usize] = self.epoch;
        self.ev_val[e as usize] = r;
        r
    }

    /// truth set of a 1-bit expression over its single variable
    pub fn truth(&mut self, e: Eid) -> Bits {
        if let Some(t) = self.truth.get(&e) {
            return *t;
        }
        let mut memo: FxMap<Eid, Rc<Vec<u128>>> = Default::default();
        let v = self.lanes(e, &mut memo);
        let mut t = [0u64; 4];
        for i in 0..256 {
            if v[i] == 1 {
                t[i / 64] |= 1 << (i % 64);
            }
        }
        self.truth.insert(e, t);
        t
    }
    pub fn lanes_of(&mut self, e: Eid) -> Rc<Vec<u128>> {
        let mut memo: FxMap<Eid, Rc<Vec<u128>>> = Default::default();
        self.lanes(e, &mut memo)
    }
    fn lanes(&mut self, e: Eid, memo: &mut FxMap<Eid, Rc<Vec<u128>>>) -> Rc<Vec<u128>> {
        if let Some(v) = memo.get(&e) {
            return v.clone();
        }
        let n = self.nodes[e as usize];
        let r: Vec<u128> = match n.op {
            Op::Const => vec![self.cval(e).unwrap(); 256],
            Op::Var => (0..256).map(|x| x as u128).collect(),
            Op::Ite => {
                let a = self.lanes(n.a, memo);
                let b = self.lanes(n.b, memo);
                let c = self.lanes(n.c, memo);
                (0..256).map(|i| if a[i] == 1 { b[i] } else { c[i] }).collect()
            }
            Op::Extract | Op::ZExt | Op::SExt | Op::Table => {
                let a = self.lanes(n.a, memo);
                let aw = self.w(n.a);
                (0..256).map(|i| Self::step(&n, n.w as u32, aw, 0, a[i], 0, 0, &self.tables)).collect()
            }
            _ => {
                let a = self.lanes(n.a, memo);
                let b = self.lanes(n.b, memo);
                let (aw, bw) = (self.w(n.a), self.w(n.b));
                (0..256).map(|i| Self::step(&n, n.w as u32, aw, bw, a[i], b[i], 0, &self.tables)).collect()
            }
        };
        let r = Rc::new(r);
        memo.insert(e, r.clone());
        r
    }

    /// substitute variables
    pub fn subst(&mut self, e: Eid, repl: &dyn Fn(u32) -> Option<Eid>, memo: &mut FxMap<Eid, Eid>) -> Eid {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return e,
            Op::Var => return repl(n.k as u32).unwrap_or(e),
            _ => {}
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let vs = self.vars(e).clone();
        if !vs.iter().any(|v| repl(*v).is_some()) {
            return e;
        }
        let a = self.subst(n.a, repl, memo);
        let r = match n.op {
            Op::Ite => {
                if let Some(v) = self.cval(a) {
                    let t = if v == 1 { n.b } else { n.c };
                    self.subst(t, repl, memo)
                } else {
                    let b = self.subst(n.b, repl, memo);
                    let c = self.subst(n.c, repl, memo);
                    self.ite(a, b, c)
                }
            }
            Op::Extract => self.extract(a, n.k as u32, n.w as u32),
            Op::ZExt => self.zext(a, n.w as u32),
            Op::SExt => self.sext(a, n.w as u32),
            Op::Table => {
                let t = *self.tables[n.k as usize].clone();
                self.table(&t, a)
            }
            Op::Concat => {
                let b = self.subst(n.b, repl, memo);
                self.concat(a, b)
            }
            _ => {
                let b = self.subst(n.b, repl, memo);
                self.bin(n.op, a, b)
            }
        };
        memo.insert(e, r);
        r
    }

    pub fn show(&self, e: Eid, d: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{:#x}", self.cval(e).unwrap()),
            Op::Var => format!("v{}", n.k),
            _ if d == 0 => "..".into(),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, d - 1), n.k, n.w),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, d - 1)),
            Op::Table => format!("T{}[{}]", n.k, self.show(n.a, d - 1)),
            Op::Ite => format!("({} ? {} : {})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            _ => format!("({:?} {} {})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }
}
