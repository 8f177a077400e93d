//! Minimal Z3 C API binding via dlopen, translating arena expressions to Z3 terms.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
}

type Ctx = *mut c_void;
type Ast = *mut c_void;

macro_rules! api {
    ($($name:ident : fn($($a:ty),*) -> $r:ty;)*) => {
        #[allow(non_snake_case)]
        #[derive(Clone, Copy)]
        pub struct Api { $(pub $name: unsafe extern "C" fn($($a),*) -> $r,)* }
        impl Api {
            pub fn load(path: &str) -> Option<Api> {
                unsafe {
                    let p = CString::new(path).unwrap();
                    let h = dlopen(p.as_ptr(), 2);
                    if h.is_null() { return None; }
                    Some(Api { $($name: {
                        let s = CString::new(stringify!($name)).unwrap();
                        let f = dlsym(h, s.as_ptr());
                        if f.is_null() { panic!("z3: missing {}", stringify!($name)); }
                        std::mem::transmute(f)
                    },)* })
                }
            }
        }
    }
}

api! {
    Z3_mk_config: fn() -> *mut c_void;
    Z3_set_param_value: fn(*mut c_void, *const c_char, *const c_char) -> ();
    Z3_mk_context: fn(*mut c_void) -> Ctx;
    Z3_del_context: fn(Ctx) -> ();
    Z3_set_error_handler: fn(Ctx, *mut c_void) -> ();
    Z3_get_error_code: fn(Ctx) -> c_int;
    Z3_mk_solver_for_logic: fn(Ctx, *mut c_void) -> *mut c_void;
    Z3_mk_simple_solver: fn(Ctx) -> *mut c_void;
    Z3_solver_inc_ref: fn(Ctx, *mut c_void) -> ();
    Z3_solver_dec_ref: fn(Ctx, *mut c_void) -> ();
    Z3_solver_reset: fn(Ctx, *mut c_void) -> ();
    Z3_solver_push: fn(Ctx, *mut c_void) -> ();
    Z3_solver_pop: fn(Ctx, *mut c_void, c_uint) -> ();
    Z3_solver_assert: fn(Ctx, *mut c_void, Ast) -> ();
    Z3_solver_check: fn(Ctx, *mut c_void) -> c_int;
    Z3_solver_check_assumptions: fn(Ctx, *mut c_void, c_uint, *const Ast) -> c_int;
    Z3_mk_bool_sort: fn(Ctx) -> *mut c_void;
    Z3_solver_get_model: fn(Ctx, *mut c_void) -> *mut c_void;
    Z3_solver_set_params: fn(Ctx, *mut c_void, *mut c_void) -> ();
    Z3_mk_params: fn(Ctx) -> *mut c_void;
    Z3_params_inc_ref: fn(Ctx, *mut c_void) -> ();
    Z3_params_set_uint: fn(Ctx, *mut c_void, *mut c_void, c_uint) -> ();
    Z3_model_inc_ref: fn(Ctx, *mut c_void) -> ();
    Z3_model_dec_ref: fn(Ctx, *mut c_void) -> ();
    Z3_model_eval: fn(Ctx, *mut c_void, Ast, bool, *mut Ast) -> bool;
    Z3_get_numeral_uint64: fn(Ctx, Ast, *mut u64) -> bool;
    Z3_mk_string_symbol: fn(Ctx, *const c_char) -> *mut c_void;
    Z3_mk_int_symbol: fn(Ctx, c_int) -> *mut c_void;
    Z3_mk_bv_sort: fn(Ctx, c_uint) -> *mut c_void;
    Z3_mk_const: fn(Ctx, *mut c_void, *mut c_void) -> Ast;
    Z3_mk_unsigned_int64: fn(Ctx, u64, *mut c_void) -> Ast;
    Z3_mk_true: fn(Ctx) -> Ast;
    Z3_mk_false: fn(Ctx) -> Ast;
    Z3_mk_eq: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_not: fn(Ctx, Ast) -> Ast;
    Z3_mk_ite: fn(Ctx, Ast, Ast, Ast) -> Ast;
    Z3_mk_xor: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_and: fn(Ctx, c_uint, *const Ast) -> Ast;
    Z3_mk_or: fn(Ctx, c_uint, *const Ast) -> Ast;
    Z3_mk_bvadd: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvmul: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvudiv: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvurem: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvsdiv: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvsrem: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvand: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvor: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvxor: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvshl: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvlshr: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvashr: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvult: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvule: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_bvslt: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_concat: fn(Ctx, Ast, Ast) -> Ast;
    Z3_mk_extract: fn(Ctx, c_uint, c_uint, Ast) -> Ast;
    Z3_mk_zero_ext: fn(Ctx, c_uint, Ast) -> Ast;
    Z3_mk_sign_ext: fn(Ctx, c_uint, Ast) -> Ast;
    Z3_solver_to_string: fn(Ctx, *mut c_void) -> *const c_char;
    Z3_get_full_version: fn() -> *const c_char;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

pub struct Z3 {
    api: Api,
    ctx: Ctx,
    solver: *mut c_void,
    terms: FxMap<Eid, Ast>,
    vars: FxMap<u32, Ast>,
    sorts: FxMap<u32, usize>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time_ns: u64,
    pub max_ns: u64,
    timeout_ms: u32,
    pub escalated: u64,
    dump: Option<String>,
    mode: u32,
    first_ms: u32,
    lits: FxMap<Eid, Ast>,
    lit_cap: usize,
}

extern "C" fn on_err(_c: Ctx, e: c_int) {
    eprintln!("z3 error {}", e);
}

pub fn z3_paths() -> Vec<String> {
    let mut v = vec![];
    if let Ok(p) = std::env::var("SYMX_Z3") {
        v.push(p);
    }
    for p in [
        "/usr/lib/x86_64-linux-gnu/libz3.so.4",
        "/usr/lib/x86_64-linux-gnu/libz3.so",
        "libz3.so.4",
        "libz3.so",
        "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so",
    ] {
        v.push(p.to_string());
    }
    v
}

pub fn load_api() -> Api {
    for p in z3_paths() {
        if let Some(a) = Api::load(&p) {
            return a;
        }
    }
    panic!("no libz3 found");
}

impl Z3 {
    pub fn new(api: Api, timeout_ms: u32) -> Z3 {
        let mut z = Z3 {
            api,
            ctx: std::ptr::null_mut(),
            solver: std::ptr::null_mut(),
            terms: Default::default(),
            vars: Default::default(),
            sorts: Default::default(),
            queries: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            time_ns: 0,
            max_ns: 0,
            timeout_ms,
            escalated: 0,
            dump: std::env::var("SYMX_DUMP").ok(),
            mode: std::env::var("SYMX_MODE").ok().and_then(|x| x.parse().ok()).unwrap_or(1),
            first_ms: 10000,
            lits: Default::default(),
            lit_cap: std::env::var("SYMX_LITS").ok().and_then(|x| x.parse().ok()).unwrap_or(400),
        };
        z.fresh();
        z
    }
    pub fn version(api: &Api) -> String {
        unsafe { std::ffi::CStr::from_ptr((api.Z3_get_full_version)()).to_string_lossy().into_owned() }
    }
    fn new_solver(&mut self) {
        let a = self.api;
        unsafe {
            if !self.solver.is_null() {
                (a.Z3_solver_dec_ref)(self.ctx, self.solver);
            }
            self.solver = if self.mode == 0 {
                (a.Z3_mk_simple_solver)(self.ctx)
            } else {
                let l = CString::new("QF_BV").unwrap();
                (a.Z3_mk_solver_for_logic)(self.ctx, (a.Z3_mk_string_symbol)(self.ctx, l.as_ptr()))
            };
            (a.Z3_solver_inc_ref)(self.ctx, self.solver);
            let p = (a.Z3_mk_params)(self.ctx);
            (a.Z3_params_inc_ref)(self.ctx, p);
            let s = CString::new("timeout").unwrap();
            let sy = (a.Z3_mk_string_symbol)(self.ctx, s.as_ptr());
            (a.Z3_params_set_uint)(self.ctx, p, sy, self.first_ms);
            (a.Z3_solver_set_params)(self.ctx, self.solver, p);
        }
    }
    pub fn fresh(&mut self) {
        unsafe {
            let a = &self.api;
            if !self.ctx.is_null() {
                (a.Z3_solver_dec_ref)(self.ctx, self.solver);
                (a.Z3_del_context)(self.ctx);
            }
            let cfg = (a.Z3_mk_config)();
            self.ctx = (a.Z3_mk_context)(cfg);
            (a.Z3_set_error_handler)(self.ctx, on_err as *mut c_void);
            self.solver = std::ptr::null_mut();
            self.new_solver();
        }
        self.terms.clear();
        self.lits.clear();
        self.vars.clear();
        self.sorts.clear();
    }
    fn sort(&mut self, w: u32) -> *mut c_void {
        let (api, ctx) = (self.api, self.ctx);
        *self.sorts.entry(w).or_insert_with(|| unsafe { (api.Z3_mk_bv_sort)(ctx, w) as usize }) as *mut c_void
    }
    fn varterm(&mut self, i: u32) -> Ast {
        if let Some(a) = self.vars.get(&i) {
            return *a;
        }
        let s = self.sort(8);
        let t = unsafe { (self.api.Z3_mk_const)(self.ctx, (self.api.Z3_mk_int_symbol)(self.ctx, i as c_int), s) };
        self.vars.insert(i, t);
        t
    }
    fn num(&mut self, v: u128, w: u32) -> Ast {
        unsafe {
            if w <= 64 {
                let s = self.sort(w);
                (self.api.Z3_mk_unsigned_int64)(self.ctx, v as u64, s)
            } else {
                let sh = self.sort(w - 64);
                let sl = self.sort(64);
                let h = (self.api.Z3_mk_unsigned_int64)(self.ctx, (v >> 64) as u64, sh);
                let l = (self.api.Z3_mk_unsigned_int64)(self.ctx, v as u64, sl);
                (self.api.Z3_mk_concat)(self.ctx, h, l)
            }
        }
    }
    /// term; width-1 expressions are Bool
    pub fn term(&mut self, ar: &Arena, e: Eid) -> Ast {
        if let Some(t) = self.terms.get(&e) {
            return *t;
        }
        let n = ar.n(e);
        let w = n.w as u32;
        let a = self.api;
        let c = self.ctx;
        let t = unsafe {
            match n.op {
                Op::Const => {
                    let v = ar.cval(e).unwrap();
                    if w == 1 {
                        if v == 1 { (a.Z3_mk_true)(c) } else { (a.Z3_mk_false)(c) }
                    } else {
                        self.num(v, w)
                    }
                }
                Op::Var => self.varterm(n.k as u32),
                Op::Extract => {
                    let x = self.term(ar, n.a);
                    let lo = n.k as u32;
                    let r = (a.Z3_mk_extract)(c, lo + w - 1, lo, x);
                    if w == 1 {
                        let one = self.num(1, 1);
                        (a.Z3_mk_eq)(c, r, one)
                    } else {
                        r
                    }
                }
                Op::ZExt | Op::SExt => {
                    let x = self.term(ar, n.a);
                    let aw = ar.w(n.a);
                    if aw == 1 {
                        let one = self.num(if n.op == Op::ZExt { 1 } else { mask(w) }, w);
                        let z = self.num(0, w);
                        (a.Z3_mk_ite)(c, x, one, z)
                    } else if n.op == Op::ZExt {
                        (a.Z3_mk_zero_ext)(c, w - aw, x)
                    } else {
                        (a.Z3_mk_sign_ext)(c, w - aw, x)
                    }
                }
                Op::Concat => {
                    let x = self.bv(ar, n.a);
                    let y = self.bv(ar, n.b);
                    (a.Z3_mk_concat)(c, x, y)
                }
                Op::Ite => {
                    let x = self.term(ar, n.a);
                    let y = self.term(ar, n.b);
                    let z = self.term(ar, n.c);
                    (a.Z3_mk_ite)(c, x, y, z)
                }
                Op::Table => {
                    let x = self.term(ar, n.a);
                    let tab = ar.tables[n.k as usize].clone();
                    // runs -> nested ite on upper bounds
                    let mut runs: Vec<(u32, u8)> = vec![]; // (last index, value)
                    for i in 0..256u32 {
                        let v = tab[i as usize];
                        if let Some(l) = runs.last_mut() {
                            if l.1 == v {
                                l.0 = i;
                                continue;
                            }
                        }
                        runs.push((i, v));
                    }
                    let mut t = self.num(runs.last().unwrap().1 as u128, 8);
                    for (hi, v) in runs.iter().rev().skip(1) {
                        let b = self.num(*hi as u128, 8);
                        let cnd = (a.Z3_mk_bvule)(c, x, b);
                        let vv = self.num(*v as u128, 8);
                        t = (a.Z3_mk_ite)(c, cnd, vv, t);
                    }
                    t
                }
                _ => {
                    let x = self.term(ar, n.a);
                    let y = self.term(ar, n.b);
                    let aw = ar.w(n.a);
                    if aw == 1 {
                        let arr = [x, y];
                        match n.op {
                            Op::And => (a.Z3_mk_and)(c, 2, arr.as_ptr()),
                            Op::Or => (a.Z3_mk_or)(c, 2, arr.as_ptr()),
                            Op::Xor => {
                                if ar.cval(n.b) == Some(1) {
                                    (a.Z3_mk_not)(c, x)
                                } else {
                                    (a.Z3_mk_xor)(c, x, y)
                                }
                            }
                            Op::Eq => (a.Z3_mk_eq)(c, x, y),
                            _ => panic!("1-bit {:?}", n.op),
                        }
                    } else {
                        match n.op {
                            Op::Add => (a.Z3_mk_bvadd)(c, x, y),
                            Op::Mul => (a.Z3_mk_bvmul)(c, x, y),
                            Op::UDiv => (a.Z3_mk_bvudiv)(c, x, y),
                            Op::URem => (a.Z3_mk_bvurem)(c, x, y),
                            Op::SDiv => (a.Z3_mk_bvsdiv)(c, x, y),
                            Op::SRem => (a.Z3_mk_bvsrem)(c, x, y),
                            Op::And => (a.Z3_mk_bvand)(c, x, y),
                            Op::Or => (a.Z3_mk_bvor)(c, x, y),
                            Op::Xor => (a.Z3_mk_bvxor)(c, x, y),
                            Op::Shl => (a.Z3_mk_bvshl)(c, x, y),
                            Op::LShr => (a.Z3_mk_bvlshr)(c, x, y),
                            Op::AShr => (a.Z3_mk_bvashr)(c, x, y),
                            Op::Eq => (a.Z3_mk_eq)(c, x, y),
                            Op::Ult => (a.Z3_mk_bvult)(c, x, y),
                            Op::Slt => (a.Z3_mk_bvslt)(c, x, y),
                            _ => panic!("z3 {:?}", n.op),
                        }
                    }
                }
            }
        };
        self.terms.insert(e, t);
        t
    }
    /// bit-vector view (width-1 bool -> bv1)
    fn bv(&mut self, ar: &Arena, e: Eid) -> Ast {
        let t = self.term(ar, e);
        if ar.w(e) == 1 {
            let one = self.num(1, 1);
            let z = self.num(0, 1);
            unsafe { (self.api.Z3_mk_ite)(self.ctx, t, one, z) }
        } else {
            t
        }
    }
    /// check conjunction; on sat fill model values for `vars`
    pub fn check(&mut self, ar: &Arena, cs: &[Eid], vars: &[u32], model: &mut Vec<(u32, u8)>) -> Sat {
        if self.terms.len() > 300_000 {
            self.fresh();
        }
        let t0 = std::time::Instant::now();
        if self.mode == 2 || (self.mode == 3 && self.lits.len() > self.lit_cap) {
            self.new_solver();
            self.lits.clear();
        }
        let a = self.api;
        let c = self.ctx;
        unsafe {
            let mut r;
            if self.mode == 3 {
                let mut asm: Vec<Ast> = Vec::with_capacity(cs.len());
                for e in cs {
                    let l = match self.lits.get(e) {
                        Some(l) => *l,
                        None => {
                            let t = self.term(ar, *e);
                            let bs = (a.Z3_mk_bool_sort)(c);
                            let l = (a.Z3_mk_const)(c, (a.Z3_mk_int_symbol)(c, 1_000_000 + *e as c_int), bs);
                            let nl = (a.Z3_mk_not)(c, l);
                            let or = [nl, t];
                            let im = (a.Z3_mk_or)(c, 2, or.as_ptr());
                            (a.Z3_solver_assert)(c, self.solver, im);
                            self.lits.insert(*e, l);
                            l
                        }
                    };
                    asm.push(l);
                }
                r = (a.Z3_solver_check_assumptions)(c, self.solver, asm.len() as c_uint, asm.as_ptr());
            } else {
                (a.Z3_solver_push)(c, self.solver);
                for e in cs {
                    let t = self.term(ar, *e);
                    (a.Z3_solver_assert)(c, self.solver, t);
                }
                r = (a.Z3_solver_check)(c, self.solver);
            }
            let mut used = self.solver;
            let mut second = false;
            if r == 0 {
                // second opinion: SAT-based bit-blasting solver with the long timeout
                second = true;
                self.escalated += 1;
                let l = CString::new("QF_BV").unwrap();
                used = (a.Z3_mk_solver_for_logic)(c, (a.Z3_mk_string_symbol)(c, l.as_ptr()));
                (a.Z3_solver_inc_ref)(c, used);
                let p = (a.Z3_mk_params)(c);
                (a.Z3_params_inc_ref)(c, p);
                let st = CString::new("timeout").unwrap();
                (a.Z3_params_set_uint)(c, p, (a.Z3_mk_string_symbol)(c, st.as_ptr()), self.timeout_ms);
                (a.Z3_solver_set_params)(c, used, p);
                for e in cs {
                    let t = self.term(ar, *e);
                    (a.Z3_solver_assert)(c, used, t);
                }
                r = (a.Z3_solver_check)(c, used);
            }
            if let Some(d) = &self.dump {
                if t0.elapsed().as_millis() > 300 {
                    let s = std::ffi::CStr::from_ptr((a.Z3_solver_to_string)(c, used)).to_string_lossy().into_owned();
                    let _ = std::fs::write(format!("{}/q{}_{}_{}.smt2", d, self as *const _ as usize, self.queries, t0.elapsed().as_millis()), s + "\n(check-sat)\n");
                }
            }
            let res = match r {
                1 => Sat::Sat,
                -1 => Sat::Unsat,
                _ => Sat::Unknown,
            };
            if res == Sat::Sat {
                let m = (a.Z3_solver_get_model)(c, used);
                (a.Z3_model_inc_ref)(c, m);
                for v in vars {
                    let t = self.varterm(*v);
                    let mut out: Ast = std::ptr::null_mut();
                    let mut x = 0u64;
                    if (a.Z3_model_eval)(c, m, t, true, &mut out) {
                        (a.Z3_get_numeral_uint64)(c, out, &mut x);
                    }
                    model.push((*v, x as u8));
                }
                (a.Z3_model_dec_ref)(c, m);
            }
            if second {
                (a.Z3_solver_dec_ref)(c, used);
            }
            if self.mode != 3 {
                (a.Z3_solver_pop)(c, self.solver, 1);
            }
            self.queries += 1;
            match res {
                Sat::Sat => self.sat += 1,
                Sat::Unsat => self.unsat += 1,
                Sat::Unknown => self.unknown += 1,
            }
            let dt = t0.elapsed().as_nanos() as u64;
            self.time_ns += dt;
            self.max_ns = self.max_ns.max(dt);
            res
        }
    }
}
