//! Parser and lowering for textual LLVM IR (one post-LTO module emitted by rustc).
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Box<Ty>),
    Vec(u32, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Meta,
}

fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match (w + 7) / 8 {
                0 | 1 => 1,
                2 => 2,
                3 | 4 => 4,
                5..=8 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 / 8).max(1).next_power_of_two(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            Ty::Vec(n, t) => n * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => align_up(((w + 7) / 8) as u64, self.align()),
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for f in fs {
                    if !*packed {
                        o = align_up(o, f.align());
                    }
                    o += f.size();
                }
                if !*packed {
                    o = align_up(o, self.align());
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !*packed {
                        o = align_up(o, f.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += f.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(fs, _) => &fs[i],
            Ty::Arr(_, t) => t,
            Ty::Vec(_, t) => t,
            _ => panic!("elem {:?}", self),
        }
    }
    pub fn nelems(&self) -> usize {
        match self {
            Ty::Struct(fs, _) => fs.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => panic!("nelems {:?}", self),
        }
    }
}

/// Constant value tree.
#[derive(Clone, Debug)]
pub enum Cv {
    I(u128),
    Agg(Vec<Cv>),
    Bytes(Vec<u8>),
    Zero,
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(u64),
    W(u128),
    K(Box<(Ty, Cv)>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bop {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc, ZExt, SExt, Bit,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub target: u32,
    pub moves: Vec<(u32, Opd)>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Intr(u32),
    Ind(Opd),
    Asm,
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub callee: Callee,
    pub args: Vec<Opd>,
    pub argw: Vec<u32>,
    pub ret: Ty,
    pub dst: u32,
    pub normal: Option<Edge>,
}

pub const NOREG: u32 = u32::MAX;

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(Bop, u32, Opd, Opd, u32),
    ICmp(Pred, u32, Opd, Opd, u32),
    VBin(Bop, Ty, Opd, Opd, u32),
    VICmp(Pred, Ty, Opd, Opd, u32),
    Select(Opd, Opd, Opd, u32, Box<(Ty, Ty)>),
    Cast(CastOp, u32, u32, Opd, u32),
    VCast(CastOp, Box<(Ty, Ty)>, Opd, u32),
    Gep(Opd, u64, Vec<(Opd, u32, u64)>, u32),
    Load(Box<Ty>, Opd, u32),
    Store(Box<Ty>, Opd, Opd),
    Alloca(u64, u64, u32),
    Call(Box<CallI>),
    Br(Edge),
    CBr(Opd, Box<(Edge, Edge)>),
    Switch(u32, Opd, Box<(Vec<(u64, Edge)>, Edge)>),
    Ret(Option<Opd>),
    Unreachable,
    Extract(Opd, Vec<u32>, u32),
    Insert(Box<(Ty, Opd, Opd, Vec<u32>)>, u32),
    InsElem(Opd, Opd, Opd, u32, Box<Ty>),
    ExtElem(Opd, Opd, u32, Box<Ty>),
    Shuffle(Opd, Opd, Vec<u32>, u32, Box<Ty>),
    Copy(Opd, u32),
    Rmw(u8, u32, Opd, Opd, u32),
    CmpXchg(u32, Opd, Opd, Opd, u32),
    Nop,
    Unsupported(String),
}

pub struct Func {
    pub nregs: u32,
    pub params: Vec<u32>,
    pub code: Vec<Inst>,
}

pub struct FnDecl {
    pub name: String,
    pub short: String,
    pub lines: Option<(usize, usize)>, // header line, end line
    pub lowered: OnceLock<Func>,
    pub noreturn_panic: bool,
}

pub struct Global {
    pub name: String,
    pub data: Vec<u8>,
    pub constant: bool,
}

pub struct Module {
    pub text: &'static [&'static str],
    pub fns: Vec<FnDecl>,
    pub fn_ix: HashMap<&'static str, u32>,
    pub globals: Vec<Global>,
    pub glob_ix: HashMap<&'static str, u32>,
}

pub const GLOB_BASE: u64 = 0x100;
pub const FN_BASE: u64 = 0x0100_0000;
pub const HEAP_BASE: u64 = 0x1_0000;

pub fn glob_addr(i: u32) -> u64 {
    (GLOB_BASE + i as u64) << 32
}
pub fn fn_addr(i: u32) -> u64 {
    (FN_BASE + i as u64) << 32
}

// ---------------------------------------------------------------- cursor
struct P<'a> {
    s: &'a [u8],
    i: usize,
}

fn is_ident(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    fn new(s: &'a str) -> Self {
        P { s: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected '{}' at {} in: {}", c as char, self.i, String::from_utf8_lossy(self.s));
        }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && is_ident(self.s[self.i]) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let k = self.i;
        let w = self.word();
        self.i = k;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let k = self.i;
        if self.word() == w {
            true
        } else {
            self.i = k;
            false
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    /// name after % or @
    fn name(&mut self) -> &'a str {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1;
            self.i = st;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            self.i += 1;
            std::str::from_utf8(&self.s[st..self.i - 1]).unwrap()
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_ident(self.s[self.i]) {
                self.i += 1;
            }
            std::str::from_utf8(&self.s[st..self.i]).unwrap()
        }
    }
    fn ty(&mut self) -> Ty {
        match self.peek() {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                if !self.eat(b'}') {
                    loop {
                        v.push(self.ty());
                        if self.eat(b'}') {
                            break;
                        }
                        self.expect(b',');
                    }
                }
                Ty::Struct(v, false)
            }
            b'[' => {
                self.i += 1;
                let n: u64 = self.word().parse().unwrap();
                assert!(self.eat_word("x"));
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Box::new(t))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    let t = self.ty();
                    self.expect(b'>');
                    if let Ty::Struct(v, _) = t {
                        return Ty::Struct(v, true);
                    }
                    unreachable!()
                }
                let n: u32 = self.word().parse().unwrap();
                assert!(self.eat_word("x"));
                let t = self.ty();
                self.expect(b'>');
                Ty::Vec(n, Box::new(t))
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "metadata" | "token" => Ty::Meta,
                    _ if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) => {
                        Ty::Int(w[1..].parse().unwrap())
                    }
                    _ => panic!("type {:?} in {}", w, String::from_utf8_lossy(self.s)),
                }
            }
        }
    }
    /// skip attribute words preceding an operand or a type
    fn skip_attrs(&mut self, is_stop: fn(&str) -> bool) {
        loop {
            let c = self.peek();
            if !(c.is_ascii_lowercase()) {
                if c == b'"' {
                    // string attribute "a"="b"
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                    if self.i < self.s.len() && self.s[self.i] == b'=' {
                        self.i += 2;
                        while self.s[self.i] != b'"' {
                            self.i += 1;
                        }
                        self.i += 1;
                    }
                    continue;
                }
                return;
            }
            let k = self.i;
            let w = self.word();
            if is_stop(w) {
                self.i = k;
                return;
            }
            if w == "c" && self.i < self.s.len() && self.s[self.i] == b'"' {
                self.i = k;
                return;
            }
            if w == "align" {
                if self.peek() != b'(' {
                    self.word();
                } else {
                    self.skip_parens();
                }
            } else if self.i < self.s.len() && self.s[self.i] == b'(' {
                self.skip_parens();
            }
        }
    }
}

fn stop_value(w: &str) -> bool {
    matches!(
        w,
        "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "inttoptr"
            | "ptrtoint" | "bitcast" | "splat" | "trunc" | "sub" | "add" | "xor" | "mul" | "zext" | "asm"
    )
}
fn stop_type(w: &str) -> bool {
    w == "void" || w == "ptr" || w == "float" || w == "double" || w == "metadata"
        || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

fn mask128(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}

impl Module {
    pub fn parse(path: &str) -> Module {
        let text = std::fs::read_to_string(path).expect("read ll");
        let text: &'static str = Box::leak(text.into_boxed_str());
        let lines: Vec<&'static str> = text.lines().collect();
        let lines: &'static [&'static str] = Box::leak(lines.into_boxed_slice());
        let mut m = Module {
            text: lines,
            fns: vec![],
            fn_ix: HashMap::new(),
            globals: vec![],
            glob_ix: HashMap::new(),
        };
        let mut gl_lines = vec![];
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            if l.starts_with('@') {
                let mut p = P::new(l);
                p.i = 1;
                let n: &'static str = p.name();
                let ix = gl_lines.len() as u32;
                m.glob_ix.insert(n, ix);
                gl_lines.push((n, p.i, l));
            } else if l.starts_with("define ") || l.starts_with("declare ") {
                let at = l.find('@').unwrap();
                let mut p = P::new(l);
                p.i = at + 1;
                let n: &'static str = p.name();
                let mut range = None;
                if l.starts_with("define ") {
                    let st = i;
                    while lines[i] != "}" {
                        i += 1;
                    }
                    range = Some((st, i));
                }
                let ix = m.fns.len() as u32;
                m.fn_ix.insert(n, ix);
                m.fns.push(FnDecl {
                    name: n.to_string(),
                    short: demangle(n),
                    lines: range,
                    lowered: OnceLock::new(),
                    noreturn_panic: is_panic_fn(n),
                });
            }
            i += 1;
        }
        // globals
        let mut gs = vec![];
        for (n, pos, l) in gl_lines {
            gs.push(m.parse_global(n, pos, l));
        }
        m.globals = gs;
        m
    }

    fn parse_global(&self, n: &str, pos: usize, l: &'static str) -> Global {
        let mut p = P::new(l);
        p.i = pos;
        p.expect(b'=');
        let mut constant = false;
        let mut external = false;
        loop {
            let w = p.peek_word();
            match w {
                "constant" => {
                    p.word();
                    constant = true;
                    break;
                }
                "global" => {
                    p.word();
                    break;
                }
                "external" | "extern_weak" => {
                    external = true;
                    p.word();
                }
                "alias" => {
                    return Global { name: n.to_string(), data: vec![], constant: true };
                }
                "" => panic!("global {}", l),
                _ => {
                    p.word();
                    if p.peek() == b'(' {
                        p.skip_parens();
                    }
                }
            }
        }
        let ty = p.ty();
        let mut data = vec![0u8; ty.size() as usize];
        if !external {
            let c = self.parse_const(&mut p, &ty);
            fill(&ty, &c, &mut data);
        }
        Global { name: n.to_string(), data, constant }
    }

    fn sym_addr(&self, n: &str) -> u64 {
        if let Some(g) = self.glob_ix.get(n) {
            glob_addr(*g)
        } else if let Some(f) = self.fn_ix.get(n) {
            fn_addr(*f)
        } else {
            0
        }
    }

    fn parse_const(&self, p: &mut P<'static>, ty: &Ty) -> Cv {
        let c = p.peek();
        match c {
            b'@' => {
                p.i += 1;
                let n = p.name();
                Cv::I(self.sym_addr(n) as u128)
            }
            b'{' | b'[' | b'<' => {
                let mut packed = false;
                if c == b'<' && p.s[p.i + 1] == b'{' {
                    packed = true;
                    p.i += 1;
                }
                let close = match p.s[p.i] {
                    b'{' => b'}',
                    b'[' => b']',
                    _ => b'>',
                };
                p.i += 1;
                let mut v = vec![];
                if !p.eat(close) {
                    loop {
                        let t = p.ty();
                        v.push(self.parse_const(p, &t));
                        if p.eat(close) {
                            break;
                        }
                        p.expect(b',');
                    }
                }
                if packed {
                    p.expect(b'>');
                }
                Cv::Agg(v)
            }
            b'-' | b'0'..=b'9' => {
                let w = p.word();
                let bits = match ty {
                    Ty::Int(b) => *b,
                    Ty::Float(_) => return Cv::Zero,
                    _ => 64,
                };
                let v: u128 = if let Some(r) = w.strip_prefix('-') {
                    (r.parse::<u128>().unwrap_or_else(|_| panic!("number {:?} in {} at {}", w, String::from_utf8_lossy(p.s), p.i))).wrapping_neg()
                } else {
                    w.parse::<u128>().unwrap_or(0)
                };
                Cv::I(v & mask128(bits))
            }
            _ => {
                let w = p.word();
                match w {
                    "null" | "undef" | "poison" | "zeroinitializer" | "none" => Cv::Zero,
                    "true" => Cv::I(1),
                    "false" => Cv::I(0),
                    "c" => {
                        p.expect(b'"');
                        let mut v = vec![];
                        while p.s[p.i] != b'"' {
                            if p.s[p.i] == b'\\' && p.s[p.i + 1] == b'\\' {
                                v.push(b'\\');
                                p.i += 2;
                            } else if p.s[p.i] == b'\\' {
                                let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap();
                                v.push(u8::from_str_radix(h, 16).unwrap());
                                p.i += 3;
                            } else {
                                v.push(p.s[p.i]);
                                p.i += 1;
                            }
                        }
                        p.i += 1;
                        Cv::Bytes(v)
                    }
                    "splat" => {
                        p.expect(b'(');
                        let t = p.ty();
                        let e = self.parse_const(p, &t);
                        p.expect(b')');
                        Cv::Agg(vec![e; ty.nelems()])
                    }
                    "getelementptr" => {
                        loop {
                            let w = p.peek_word();
                            if w == "inbounds" || w == "nuw" || w == "nusw" {
                                p.word();
                            } else if w == "inrange" {
                                p.word();
                                p.skip_parens();
                            } else {
                                break;
                            }
                        }
                        p.expect(b'(');
                        let t = p.ty();
                        p.expect(b',');
                        let pt = p.ty();
                        let base = cvi(&self.parse_const(p, &pt));
                        let mut off: u64 = 0;
                        let mut cur = t.clone();
                        let mut first = true;
                        while p.eat(b',') {
                            let it = p.ty();
                            let w = it.bits();
                            let k = sext64(cvi(&self.parse_const(p, &it)) as u64, w);
                            if first {
                                off = off.wrapping_add((k as u64).wrapping_mul(t.size()));
                                first = false;
                            } else {
                                match cur.clone() {
                                    Ty::Struct(..) => {
                                        off = off.wrapping_add(cur.field_off(k as usize));
                                        cur = cur.elem(k as usize).clone();
                                    }
                                    _ => {
                                        let e = cur.elem(0).clone();
                                        off = off.wrapping_add((k as u64).wrapping_mul(e.size()));
                                        cur = e;
                                    }
                                }
                            }
                        }
                        p.expect(b')');
                        Cv::I((base as u64).wrapping_add(off) as u128)
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" => {
                        p.expect(b'(');
                        let t = p.ty();
                        let v = self.parse_const(p, &t);
                        assert!(p.eat_word("to"));
                        let t2 = p.ty();
                        p.expect(b')');
                        match v {
                            Cv::I(x) => Cv::I(x & mask128(t2.bits())),
                            o => o,
                        }
                    }
                    "sub" | "add" | "xor" | "mul" => {
                        while matches!(p.peek_word(), "nuw" | "nsw") {
                            p.word();
                        }
                        p.expect(b'(');
                        let t = p.ty();
                        let a = cvi(&self.parse_const(p, &t));
                        p.expect(b',');
                        let t2 = p.ty();
                        let b = cvi(&self.parse_const(p, &t2));
                        p.expect(b')');
                        let r = match w {
                            "sub" => a.wrapping_sub(b),
                            "add" => a.wrapping_add(b),
                            "mul" => a.wrapping_mul(b),
                            _ => a ^ b,
                        };
                        Cv::I(r & mask128(t.bits()))
                    }
                    _ => {
                        if matches!(ty, Ty::Float(_)) {
                            return Cv::Zero;
                        }
                        panic!("const {:?} in {}", w, String::from_utf8_lossy(p.s))
                    }
                }
            }
        }
    }

    pub fn func(&self, i: u32) -> Option<&Func> {
        let d = &self.fns[i as usize];
        let (a, b) = d.lines?;
        Some(d.lowered.get_or_init(|| self.lower(a, b)))
    }

    fn lower(&self, a: usize, b: usize) -> Func {
        let mut lw = Lower { m: self, regs: HashMap::new(), nregs: 0, blocks: vec![], bix: HashMap::new() };
        // header
        let hdr = self.text[a];
        let at = hdr.find('@').unwrap();
        let mut p = P::new(hdr);
        p.i = at + 1;
        p.name();
        p.expect(b'(');
        let mut params = vec![];
        let mut pn = 0u32;
        if !p.eat(b')') {
            loop {
                if p.peek() == b'.' {
                    p.word();
                } else {
                    let _t = p.ty();
                    p.skip_attrs(|_| false);
                    if p.peek() == b'%' {
                        p.i += 1;
                        let n = p.name();
                        params.push(lw.reg(n));
                    } else {
                        let s: &'static str = Box::leak(format!("{}", pn).into_boxed_str());
                        params.push(lw.reg(s));
                    }
                    pn += 1;
                }
                if p.eat(b')') {
                    break;
                }
                p.expect(b',');
            }
        }
        // collect logical lines per block
        // first block may be unlabeled
        struct Blk {
            name: &'static str,
            lines: Vec<String>,
        }
        let mut blks: Vec<Blk> = vec![];
        let mut i = a + 1;
        while i < b {
            let l = self.text[i];
            if l.is_empty() || l.trim_start().starts_with(';') {
                i += 1;
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let mut p = P::new(l);
                let n = p.name();
                blks.push(Blk { name: n, lines: vec![] });
                i += 1;
                continue;
            }
            if blks.is_empty() {
                let s: &'static str = Box::leak(format!("{}", pn).into_boxed_str());
                blks.push(Blk { name: s, lines: vec![] });
            }
            let t = l.trim_start();
            if t.starts_with('#') {
                i += 1;
                continue; // debug records
            }
            let mut s = String::from(t);
            if t.starts_with("switch ") && t.ends_with('[') {
                loop {
                    i += 1;
                    s.push(' ');
                    s.push_str(self.text[i].trim());
                    if self.text[i].trim_start().starts_with(']') {
                        break;
                    }
                }
            } else if t.starts_with("invoke ") || t.contains(" = invoke ") {
                i += 1;
                s.push(' ');
                s.push_str(self.text[i].trim());
            } else if t.contains("landingpad") {
                while {
                    let n = self.text[i + 1].trim_start();
                    n.starts_with("cleanup") || n.starts_with("catch") || n.starts_with("filter")
                } {
                    i += 1;
                }
                s = "nop".into();
            }
            blks.last_mut().unwrap().lines.push(s);
            i += 1;
        }
        for (k, bl) in blks.iter().enumerate() {
            lw.bix.insert(bl.name, k as u32);
        }
        // gather phis
        type Phi = (u32, Vec<(u32, Opd)>);
        let mut phis: Vec<Vec<Phi>> = vec![];
        let mut bodies: Vec<Vec<&'static str>> = vec![];
        for bl in &blks {
            let mut ph = vec![];
            let mut body = vec![];
            for l in &bl.lines {
                let l: &'static str = Box::leak(l.clone().into_boxed_str());
                if let Some(eq) = l.find(" = phi ") {
                    if l.starts_with('%') {
                        let mut p = P::new(l);
                        p.i = 1;
                        let d = p.name();
                        let d = lw.reg(d);
                        p.i = eq + 7;
                        let t = p.ty();
                        let mut ins = vec![];
                        loop {
                            p.expect(b'[');
                            let o = lw.opd(&mut p, &t);
                            p.expect(b',');
                            p.expect(b'%');
                            let bn = p.name();
                            p.expect(b']');
                            ins.push((lw.bix[bn], o));
                            if !p.eat(b',') {
                                break;
                            }
                            if p.peek() != b'[' {
                                break;
                            }
                        }
                        ph.push((d, ins));
                        continue;
                    }
                }
                body.push(l);
            }
            phis.push(ph);
            bodies.push(body);
        }
        // lower blocks; edges hold block index, patched later
        let mut code: Vec<Inst> = vec![];
        let mut starts = vec![];
        for (k, body) in bodies.iter().enumerate() {
            starts.push(code.len() as u32);
            for l in body {
                let inst = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lw.inst(l, k as u32)))
                    .unwrap_or_else(|_| Inst::Unsupported(l.to_string()));
                match inst {
                    Inst::Nop => {}
                    x => code.push(x),
                }
            }
        }
        // patch edges
        let mk = |e: &mut Edge, from: u32| {
            let tb = e.target as usize;
            e.target = starts[tb];
            for (d, ins) in &phis[tb] {
                if let Some((_, o)) = ins.iter().find(|(bb, _)| *bb == from) {
                    e.moves.push((*d, o.clone()));
                }
            }
        };
        let mut bi = 0usize;
        for (k, ins) in code.iter_mut().enumerate() {
            while bi + 1 < starts.len() && starts[bi + 1] as usize <= k {
                bi += 1;
            }
            let from = bi as u32;
            match ins {
                Inst::Br(e) => mk(e, from),
                Inst::CBr(_, b) => {
                    mk(&mut b.0, from);
                    mk(&mut b.1, from);
                }
                Inst::Switch(_, _, b) => {
                    for c in b.0.iter_mut() {
                        mk(&mut c.1, from);
                    }
                    mk(&mut b.1, from);
                }
                Inst::Call(c) => {
                    if let Some(e) = &mut c.normal {
                        mk(e, from)
                    }
                }
                _ => {}
            }
        }
        Func { nregs: lw.nregs, params, code }
    }
}

fn cvi(c: &Cv) -> u128 {
    match c {
        Cv::I(x) => *x,
        Cv::Zero => 0,
        _ => panic!("cvi"),
    }
}
pub fn sext64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

pub fn fill(ty: &Ty, c: &Cv, out: &mut [u8]) {
    match c {
        Cv::Zero => {}
        Cv::I(v) => {
            let n = ((ty.bits() + 7) / 8) as usize;
            out[..n].copy_from_slice(&v.to_le_bytes()[..n]);
        }
        Cv::Bytes(b) => out[..b.len()].copy_from_slice(b),
        Cv::Agg(v) => {
            for (i, e) in v.iter().enumerate() {
                let o = ty.field_off(i) as usize;
                let et = ty.elem(i);
                let n = et.size() as usize;
                fill(et, e, &mut out[o..o + n]);
            }
        }
    }
}

struct Lower<'m> {
    m: &'m Module,
    regs: HashMap<&'static str, u32>,
    nregs: u32,
    #[allow(dead_code)]
    blocks: Vec<u32>,
    bix: HashMap<&'static str, u32>,
}

impl<'m> Lower<'m> {
    fn reg(&mut self, n: &'static str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n, r);
        r
    }
    fn opd(&mut self, p: &mut P<'static>, ty: &Ty) -> Opd {
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            return Opd::R(self.reg(n));
        }
        if p.peek() == b'!' {
            return Opd::C(0);
        }
        let c = self.m.parse_const(p, ty);
        match ty {
            Ty::Int(w) => {
                let v = cvi(&c);
                if *w <= 64 { Opd::C(v as u64) } else { Opd::W(v) }
            }
            Ty::Ptr => Opd::C(cvi(&c) as u64),
            Ty::Float(_) => Opd::C(0),
            _ => Opd::K(Box::new((ty.clone(), c))),
        }
    }
    fn topd(&mut self, p: &mut P<'static>) -> (Ty, Opd) {
        let t = p.ty();
        p.skip_attrs(stop_value);
        let o = self.opd(p, &t);
        (t, o)
    }
    fn label(&mut self, p: &mut P<'static>) -> Edge {
        assert!(p.eat_word("label"));
        p.expect(b'%');
        let n = p.name();
        Edge { target: self.bix[n], moves: vec![] }
    }
    fn flags(&mut self, p: &mut P<'static>) {
        while matches!(
            p.peek_word(),
            "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile" | "weak"
        ) {
            p.word();
        }
    }

    fn inst(&mut self, l: &'static str, _blk: u32) -> Inst {
        let mut p = P::new(l);
        let mut dst = NOREG;
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            dst = self.reg(n);
            p.expect(b'=');
        }
        let mut op = p.word();
        if matches!(op, "tail" | "musttail" | "notail") {
            op = p.word();
        }
        let bop = |o: &str| {
            Some(match o {
                "add" => Bop::Add,
                "sub" => Bop::Sub,
                "mul" => Bop::Mul,
                "udiv" => Bop::UDiv,
                "sdiv" => Bop::SDiv,
                "urem" => Bop::URem,
                "srem" => Bop::SRem,
                "shl" => Bop::Shl,
                "lshr" => Bop::LShr,
                "ashr" => Bop::AShr,
                "and" => Bop::And,
                "or" => Bop::Or,
                "xor" => Bop::Xor,
                _ => return None,
            })
        };
        if let Some(b) = bop(op) {
            self.flags(&mut p);
            let t = p.ty();
            let x = self.opd(&mut p, &t);
            p.expect(b',');
            let y = self.opd(&mut p, &t);
            return match t {
                Ty::Vec(..) => Inst::VBin(b, t, x, y, dst),
                _ => Inst::Bin(b, t.bits(), x, y, dst),
            };
        }
        match op {
            "nop" | "fence" => Inst::Nop,
            "icmp" => {
                self.flags(&mut p);
                let pr = match p.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => panic!("pred {}", x),
                };
                let t = p.ty();
                let x = self.opd(&mut p, &t);
                p.expect(b',');
                let y = self.opd(&mut p, &t);
                match t {
                    Ty::Vec(..) => Inst::VICmp(pr, t, x, y, dst),
                    _ => Inst::ICmp(pr, t.bits(), x, y, dst),
                }
            }
            "select" => {
                let (ct, c) = self.topd(&mut p);
                p.expect(b',');
                let (t, a) = self.topd(&mut p);
                p.expect(b',');
                let (_, b) = self.topd(&mut p);
                Inst::Select(c, a, b, dst, Box::new((ct, t)))
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" => {
                self.flags(&mut p);
                let (t, a) = self.topd(&mut p);
                assert!(p.eat_word("to"));
                let t2 = p.ty();
                let c = match op {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "bitcast" => CastOp::Bit,
                    _ => {
                        if t.bits() > t2.bits() {
                            CastOp::Trunc
                        } else {
                            CastOp::ZExt
                        }
                    }
                };
                let isv = matches!(t, Ty::Vec(..)) || matches!(t2, Ty::Vec(..));
                if isv {
                    Inst::VCast(c, Box::new((t, t2)), a, dst)
                } else {
                    Inst::Cast(c, t.bits(), t2.bits(), a, dst)
                }
            }
            "freeze" => {
                let (_, a) = self.topd(&mut p);
                Inst::Copy(a, dst)
            }
            "getelementptr" => {
                loop {
                    let w = p.peek_word();
                    if w == "inrange" {
                        p.word();
                        p.skip_parens();
                    } else if matches!(w, "inbounds" | "nuw" | "nusw") {
                        p.word();
                    } else {
                        break;
                    }
                }
                let t = p.ty();
                p.expect(b',');
                let (_, base) = self.topd(&mut p);
                let mut off: u64 = 0;
                let mut terms = vec![];
                let mut cur = t.clone();
                let mut first = true;
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    let (it, o) = self.topd(&mut p);
                    let w = it.bits();
                    if first {
                        first = false;
                        let sz = t.size();
                        match o {
                            Opd::C(k) => off = off.wrapping_add((sext64(k, w) as u64).wrapping_mul(sz)),
                            o => terms.push((o, w, sz)),
                        }
                    } else {
                        match cur.clone() {
                            Ty::Struct(..) => {
                                if let Opd::C(k) = o {
                                    off = off.wrapping_add(cur.field_off(k as usize));
                                    cur = cur.elem(k as usize).clone();
                                } else {
                                    panic!("gep struct idx")
                                }
                            }
                            _ => {
                                let e = cur.elem(0).clone();
                                let sz = e.size();
                                match o {
                                    Opd::C(k) => off = off.wrapping_add((sext64(k, w) as u64).wrapping_mul(sz)),
                                    o => terms.push((o, w, sz)),
                                }
                                cur = e;
                            }
                        }
                    }
                }
                Inst::Gep(base, off, terms, dst)
            }
            "load" => {
                p.eat_word("atomic");
                p.eat_word("volatile");
                let t = p.ty();
                p.expect(b',');
                let (_, a) = self.topd(&mut p);
                Inst::Load(Box::new(t), a, dst)
            }
            "store" => {
                p.eat_word("atomic");
                p.eat_word("volatile");
                let (t, v) = self.topd(&mut p);
                p.expect(b',');
                let (_, a) = self.topd(&mut p);
                Inst::Store(Box::new(t), v, a)
            }
            "alloca" => {
                let t = p.ty();
                let mut n = 1u64;
                let mut al = t.align();
                while p.eat(b',') {
                    if p.eat_word("align") {
                        al = p.word().parse().unwrap();
                    } else if p.peek() == b'!' {
                        break;
                    } else {
                        let (_, o) = self.topd(&mut p);
                        if let Opd::C(k) = o {
                            n = k
                        } else {
                            panic!("dyn alloca")
                        }
                    }
                }
                Inst::Alloca(t.size() * n, al, dst)
            }
            "call" | "invoke" => {
                // cc, ret attrs
                p.skip_attrs(stop_type);
                let rt = p.ty();
                if p.peek() == b'(' {
                    p.skip_parens();
                }
                let mut callee;
                if p.eat_word("asm") {
                    callee = Callee::Asm;
                    // skip to ")("? : asm flags "..", "..."(args)
                    while p.peek() != b'(' {
                        if p.peek() == b'"' {
                            p.i += 1;
                            while p.s[p.i] != b'"' {
                                p.i += 1;
                            }
                        }
                        p.i += 1;
                    }
                } else if p.peek() == b'@' {
                    p.i += 1;
                    let n = p.name();
                    let f = self.m.fn_ix[n];
                    callee = Callee::Fn(f);
                    if n.starts_with("llvm.") {
                        if n.starts_with("llvm.lifetime")
                            || n.starts_with("llvm.experimental.noalias")
                            || n.starts_with("llvm.assume")
                            || n.starts_with("llvm.dbg")
                            || n.starts_with("llvm.x86.sse2.pause")
                            || n.starts_with("llvm.prefetch")
                        {
                            return Inst::Nop;
                        }
                        callee = Callee::Intr(f);
                    }
                } else {
                    let o = self.opd(&mut p, &Ty::Ptr);
                    callee = Callee::Ind(o);
                }
                p.expect(b'(');
                let mut args = vec![];
                let mut argw = vec![];
                if !p.eat(b')') {
                    loop {
                        let (t, o) = self.topd(&mut p);
                        argw.push(match &t {
                            Ty::Int(_) | Ty::Ptr | Ty::Float(_) | Ty::Vec(..) => t.bits(),
                            _ => 0,
                        });
                        args.push(o);
                        if p.eat(b')') {
                            break;
                        }
                        p.expect(b',');
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    let k = l.rfind(" to label ").unwrap();
                    p.i = k + 4;
                    normal = Some(self.label(&mut p));
                }
                Inst::Call(Box::new(CallI { callee, args, argw, ret: rt, dst, normal }))
            }
            "br" => {
                if p.peek_word() == "label" {
                    Inst::Br(self.label(&mut p))
                } else {
                    let (_, c) = self.topd(&mut p);
                    p.expect(b',');
                    let a = self.label(&mut p);
                    p.expect(b',');
                    let b = self.label(&mut p);
                    Inst::CBr(c, Box::new((a, b)))
                }
            }
            "switch" => {
                let (t, v) = self.topd(&mut p);
                p.expect(b',');
                let d = self.label(&mut p);
                p.expect(b'[');
                let mut cs = vec![];
                while !p.eat(b']') {
                    let (_, o) = self.topd(&mut p);
                    p.expect(b',');
                    let e = self.label(&mut p);
                    if let Opd::C(k) = o {
                        cs.push((k, e));
                    } else {
                        panic!("switch case")
                    }
                }
                Inst::Switch(t.bits(), v, Box::new((cs, d)))
            }
            "ret" => {
                if p.peek_word() == "void" {
                    Inst::Ret(None)
                } else {
                    let (_, v) = self.topd(&mut p);
                    Inst::Ret(Some(v))
                }
            }
            "unreachable" | "resume" => Inst::Unreachable,
            "extractvalue" => {
                let (_, a) = self.topd(&mut p);
                let mut ix = vec![];
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    ix.push(p.word().parse().unwrap());
                }
                Inst::Extract(a, ix, dst)
            }
            "insertvalue" => {
                let (t, a) = self.topd(&mut p);
                p.expect(b',');
                let (_, v) = self.topd(&mut p);
                let mut ix = vec![];
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    ix.push(p.word().parse().unwrap());
                }
                Inst::Insert(Box::new((t, a, v, ix)), dst)
            }
            "insertelement" => {
                let (t, a) = self.topd(&mut p);
                p.expect(b',');
                let (_, v) = self.topd(&mut p);
                p.expect(b',');
                let (_, i) = self.topd(&mut p);
                Inst::InsElem(a, v, i, dst, Box::new(t))
            }
            "extractelement" => {
                let (t, a) = self.topd(&mut p);
                p.expect(b',');
                let (_, i) = self.topd(&mut p);
                Inst::ExtElem(a, i, dst, Box::new(t))
            }
            "shufflevector" => {
                let (t, a) = self.topd(&mut p);
                p.expect(b',');
                let (_, b) = self.topd(&mut p);
                p.expect(b',');
                let mt = p.ty();
                let c = self.m.parse_const(&mut p, &mt);
                let ix = match c {
                    Cv::Zero => vec![0; mt.nelems()],
                    Cv::Agg(v) => v.iter().map(|x| cvi(x) as u32).collect(),
                    _ => panic!(),
                };
                Inst::Shuffle(a, b, ix, dst, Box::new(t))
            }
            "atomicrmw" => {
                p.eat_word("volatile");
                let o = p.word();
                let k = match o {
                    "xchg" => 0,
                    "add" => 1,
                    "sub" => 2,
                    "and" => 3,
                    "or" => 4,
                    "xor" => 5,
                    "umax" => 6,
                    "umin" => 7,
                    _ => panic!("rmw {}", o),
                };
                let (_, a) = self.topd(&mut p);
                p.expect(b',');
                let (t, v) = self.topd(&mut p);
                Inst::Rmw(k, t.bits(), a, v, dst)
            }
            "cmpxchg" => {
                self.flags(&mut p);
                let (_, a) = self.topd(&mut p);
                p.expect(b',');
                let (t, c) = self.topd(&mut p);
                p.expect(b',');
                let (_, n) = self.topd(&mut p);
                Inst::CmpXchg(t.bits(), a, c, n, dst)
            }
            _ => Inst::Unsupported(l.to_string()),
        }
    }
}

/// Very small demangler for v0 symbols: keeps the identifier components.
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let k: usize = n[st..i].parse().unwrap_or(0);
            if i < b.len() && b[i] == b'_' {
                i += 1;
            }
            if k == 0 || i + k > b.len() {
                continue;
            }
            out.push(n[i..i + k].to_string());
            i += k;
        } else if b[i] == b's' || b[i] == b'C' {
            // crate disambiguator: Cs<base62>_
            if b[i] == b's' {
                i += 1;
                while i < b.len() && b[i] != b'_' {
                    i += 1;
                }
            }
            i += 1;
        } else {
            i += 1;
        }
    }
    out.join("::")
}

pub fn is_panic_fn(n: &str) -> bool {
    n.contains("9panicking")
        || n.contains("rust_begin_unwind")
        || n.contains("13unwrap_failed")
        || n.contains("13expect_failed")
        || n.contains("18handle_alloc_error")
        || n == "abort"
        || n.contains("__rust_start_panic")
}
