//! Parser for textual LLVM IR (lazy: function bodies are decoded on first call).
use crate::state::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    I(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    St(Rc<Vec<Ty>>, bool),
    Other(String),
}
impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::I(n) => *n,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            t => panic!("bits of {:?}", t),
        }
    }
    pub fn scalar(&self) -> bool {
        matches!(self, Ty::I(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::I(n) => match n {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::St(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            t => panic!("align of {:?}", t),
        }
    }
    /// store size
    pub fn size(&self) -> u64 {
        match self {
            Ty::I(n) => ((*n as u64) + 7) / 8,
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.alloc_size(),
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::St(f, packed) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.alloc_size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            t => panic!("size of {:?}", t),
        }
    }
    pub fn alloc_size(&self) -> u64 {
        let s = self.size();
        let a = self.align();
        (s + a - 1) / a * a
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::St(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.alloc_size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) => t.alloc_size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            t => panic!("field_off {:?}", t),
        }
    }
    pub fn field(&self, i: usize) -> &Ty {
        match self {
            Ty::St(f, _) => &f[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            t => panic!("field {:?}", t),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinK {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cmp {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Bit,
    PtrInt,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(usize),
    Intr(Rc<str>),
    Ind(Op),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { k: BinK, ty: Ty, a: Op, b: Op, d: u32 },
    Icmp { c: Cmp, ty: Ty, a: Op, b: Op, d: u32 },
    Fcmp { c: Rc<str>, ty: Ty, a: Op, b: Op, d: u32 },
    Fbin { k: Rc<str>, ty: Ty, a: Op, b: Op, d: u32 },
    Fneg { ty: Ty, a: Op, d: u32 },
    Fcast { k: Rc<str>, from: Ty, a: Op, to: Ty, d: u32 },
    Cast { k: CastK, from: Ty, a: Op, to: Ty, d: u32 },
    Select { cty: Ty, ty: Ty, c: Op, a: Op, b: Op, d: u32 },
    Load { ty: Ty, p: Op, d: u32 },
    Store { ty: Ty, v: Op, p: Op },
    /// base, constant offset, [(index, index bits, scale)]
    Gep { p: Op, off: i64, idx: Vec<(Op, u32, i64)>, d: u32 },
    Alloca { size: u64, n: Op, align: u32, d: u32 },
    Call { f: Callee, args: Vec<(Ty, Op)>, ret: Ty, d: u32, normal: Option<u32> },
    ExtractV { ty: Ty, a: Op, idx: Vec<u32>, d: u32 },
    InsertV { ty: Ty, a: Op, b: Op, idx: Vec<u32>, d: u32 },
    ExtractE { n: u64, ety: Ty, a: Op, i: Op, d: u32 },
    InsertE { n: u64, ety: Ty, a: Op, b: Op, i: Op, d: u32 },
    Shuffle { n: u64, ety: Ty, a: Op, b: Op, m: Vec<i64>, d: u32 },
    Rmw { op: Rc<str>, ty: Ty, p: Op, v: Op, d: u32 },
    CmpXchg { ty: Ty, p: Op, c: Op, n: Op, d: u32 },
    Freeze { a: Op, ty: Ty, d: u32 },
    Br(u32),
    CondBr { c: Op, t: u32, f: u32 },
    Switch { ty: Ty, v: Op, def: u32, cases: Vec<(u128, u32)> },
    Ret(Ty, Op),
    Unreachable,
    Nop,
    Bad(String),
}

#[derive(Clone, Debug)]
pub struct Phi {
    pub d: u32,
    pub inc: Vec<(u32, Op)>,
    pub ty: Ty,
}
#[derive(Clone, Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}
pub struct Body {
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ret: Ty,
    pub nparams: usize,
}

pub struct FnInfo {
    pub name: String,
    pub header: (usize, usize),
    pub body: Option<(usize, usize)>,
    pub decoded: Option<Rc<Body>>,
    pub kind: u32,
    pub weak: bool,
}

pub struct Module {
    pub text: &'static str,
    pub fns: Vec<FnInfo>,
    pub fn_id: HashMap<String, usize>,
    pub glob_id: HashMap<String, usize>,
    pub glob_names: Vec<String>,
    pub glob_src: Vec<(usize, usize)>,
    pub types: HashMap<String, Ty>,
}

// ---------------------------------------------------------------- tokenizer
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T<'a> {
    Id(&'a str),
    Loc(&'a str),
    Glo(&'a str),
    Num(&'a str),
    Str(&'a str),
    P(u8),
    Meta,
    End,
}
pub struct Lex<'a> {
    s: &'a [u8],
    pub i: usize,
    src: &'a str,
}
fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
impl<'a> Lex<'a> {
    pub fn new(src: &'a str) -> Self {
        Lex { s: src.as_bytes(), i: 0, src }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' {
                self.i += 1;
            } else if c == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
            } else {
                break;
            }
        }
    }
    pub fn peek(&mut self) -> T<'a> {
        let s = self.i;
        let t = self.next();
        self.i = s;
        t
    }
    pub fn next(&mut self) -> T<'a> {
        self.ws();
        if self.i >= self.s.len() {
            return T::End;
        }
        let st = self.i;
        let c = self.s[st];
        match c {
            b'%' | b'@' => {
                self.i += 1;
                let name = if self.i < self.s.len() && self.s[self.i] == b'"' {
                    let b = self.i + 1;
                    self.i = b;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                    &self.src[b..self.i - 1]
                } else {
                    let b = self.i;
                    while self.i < self.s.len() && idc(self.s[self.i]) {
                        self.i += 1;
                    }
                    &self.src[b..self.i]
                };
                if c == b'%' {
                    T::Loc(name)
                } else {
                    T::Glo(name)
                }
            }
            b'"' => {
                self.i += 1;
                let b = self.i;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                T::Str(&self.src[b..self.i - 1])
            }
            b'c' if st + 1 < self.s.len() && self.s[st + 1] == b'"' => {
                self.i += 2;
                let b = self.i;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                T::Str(&self.src[b..self.i - 1])
            }
            b'!' => {
                self.i += 1;
                while self.i < self.s.len() && idc(self.s[self.i]) {
                    self.i += 1;
                }
                T::Meta
            }
            b'0'..=b'9' | b'-' | b'+' => {
                self.i += 1;
                while self.i < self.s.len() && (idc(self.s[self.i]) || self.s[self.i] == b'+') {
                    self.i += 1;
                }
                T::Num(&self.src[st..self.i])
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => {
                while self.i < self.s.len() && idc(self.s[self.i]) {
                    self.i += 1;
                }
                T::Id(&self.src[st..self.i])
            }
            b'#' => {
                self.i += 1;
                while self.i < self.s.len() && idc(self.s[self.i]) {
                    self.i += 1;
                }
                T::Meta
            }
            _ => {
                self.i += 1;
                T::P(c)
            }
        }
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == T::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: u8) {
        let t = self.next();
        if t != T::P(c) {
            panic!("expected {:?} got {:?} near {:?}", c as char, t, &self.src[self.i.saturating_sub(80)..(self.i + 40).min(self.src.len())]);
        }
    }
    pub fn eat_id(&mut self, s: &str) -> bool {
        if self.peek() == T::Id(s) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn rest(&self) -> &'a str {
        &self.src[self.i..]
    }
    /// skip a balanced (...) group whose '(' was already consumed
    pub fn skip_parens(&mut self) {
        let mut d = 1;
        while d > 0 {
            match self.next() {
                T::P(b'(') => d += 1,
                T::P(b')') => d -= 1,
                T::End => panic!("unbalanced"),
                _ => {}
            }
        }
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
                o.push(h(b[i + 1]) * 16 + h(b[i + 2]));
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

struct FCtx<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}
impl<'m> FCtx<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn blk(&mut self, n: &str) -> u32 {
        match self.blocks.get(n) {
            Some(b) => *b,
            None => panic!("unknown block {}", n),
        }
    }
}

fn maskc(v: u128, bits: u32) -> V {
    let m = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let v = v & m;
    if bits > 64 {
        V::W(v)
    } else {
        V::C(v as u64)
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).expect("read ll").into_boxed_str());
        let mut m = Module {
            text,
            fns: vec![],
            fn_id: HashMap::new(),
            glob_id: HashMap::new(),
            glob_names: vec![],
            glob_src: vec![],
            types: HashMap::new(),
        };
        let b = text.as_bytes();
        let mut i = 0;
        let n = b.len();
        let eol = |mut p: usize| {
            while p < n && b[p] != b'\n' {
                p += 1;
            }
            p
        };
        let mut typedefs = vec![];
        while i < n {
            let e = eol(i);
            let line = &text[i..e];
            if line.starts_with("define ") {
                // body until a line "}"
                let mut p = e + 1;
                let bs = p;
                loop {
                    let q = eol(p);
                    if &text[p..q] == "}" {
                        break;
                    }
                    p = q + 1;
                }
                let name = fn_name(line);
                let id = m.fns.len();
                m.fn_id.insert(name.clone(), id);
                m.fns.push(FnInfo { name, header: (i, e), body: Some((bs, p)), decoded: None, kind: 0, weak: false });
                i = eol(p) + 1;
                continue;
            } else if line.starts_with("declare ") {
                let name = fn_name(line);
                let id = m.fns.len();
                m.fn_id.insert(name.clone(), id);
                m.fns.push(FnInfo { name, header: (i, e), body: None, decoded: None, kind: 0, weak: line.contains("extern_weak") });
            } else if line.starts_with('@') {
                let mut lx = Lex::new(line);
                if let T::Glo(nm) = lx.next() {
                    let id = m.glob_names.len();
                    m.glob_id.insert(nm.to_string(), id);
                    m.glob_names.push(nm.to_string());
                    m.glob_src.push((i, e));
                }
            } else if line.starts_with('%') {
                typedefs.push((i, e));
            }
            i = e + 1;
        }
        for (s, e) in typedefs {
            let mut lx = Lex::new(&text[s..e]);
            if let T::Loc(n) = lx.next() {
                lx.expect(b'=');
                lx.next(); // type
                if lx.peek() != T::Id("opaque") {
                    let t = m.ty(&mut lx);
                    m.types.insert(n.to_string(), t);
                }
            }
        }
        m
    }

    pub fn ty(&self, lx: &mut Lex) -> Ty {
        let t = match lx.next() {
            T::Id("void") => Ty::Void,
            T::Id("ptr") => {
                if lx.peek() == T::Id("addrspace") {
                    lx.next();
                    lx.expect(b'(');
                    lx.skip_parens();
                }
                Ty::Ptr
            }
            T::Id("float") => Ty::F32,
            T::Id("double") => Ty::F64,
            T::Id(s) if s.starts_with('i') && s[1..].parse::<u32>().is_ok() => Ty::I(s[1..].parse().unwrap()),
            T::Id(s) => Ty::Other(s.to_string()),
            T::P(b'[') => {
                let n: u64 = match lx.next() {
                    T::Num(s) => s.parse().unwrap(),
                    t => panic!("arr {:?}", t),
                };
                lx.next(); // x
                let t = self.ty(lx);
                lx.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            T::P(b'<') => {
                if lx.peek() == T::P(b'{') {
                    lx.next();
                    let f = self.ty_list(lx, b'}');
                    lx.expect(b'>');
                    Ty::St(Rc::new(f), true)
                } else {
                    let n: u64 = match lx.next() {
                        T::Num(s) => s.parse().unwrap(),
                        t => panic!("vec {:?}", t),
                    };
                    lx.next();
                    let t = self.ty(lx);
                    lx.expect(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            T::P(b'{') => Ty::St(Rc::new(self.ty_list(lx, b'}')), false),
            T::Loc(n) => self.types.get(n).cloned().unwrap_or(Ty::Other(n.to_string())),
            t => panic!("type? {:?} near {}", t, &lx.rest()[..lx.rest().len().min(80)]),
        };
        t
    }
    fn ty_list(&self, lx: &mut Lex, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        if lx.eat(end) {
            return v;
        }
        loop {
            v.push(self.ty(lx));
            if lx.eat(end) {
                return v;
            }
            lx.expect(b',');
        }
    }

    pub fn global_addr(&self, n: &str) -> Option<u64> {
        if let Some(i) = self.glob_id.get(n) {
            return Some(addr_of(GLOB0 + *i as u32));
        }
        if let Some(i) = self.fn_id.get(n) {
            if self.fns[*i].weak && !crate::env::weak_present(n) {
                return Some(0);
            }
            return Some(addr_of(FUNC0 + *i as u32));
        }
        None
    }

    /// constant of type ty; None when the next token is not a constant (a local)
    pub fn konst(&self, lx: &mut Lex, ty: &Ty) -> V {
        match lx.next() {
            T::Num(s) => match ty {
                Ty::I(b) => {
                    let v = if let Some(r) = s.strip_prefix('-') {
                        (r.parse::<u128>().unwrap() as i128).wrapping_neg() as u128
                    } else {
                        s.parse::<u128>().unwrap()
                    };
                    maskc(v, *b)
                }
                Ty::F64 | Ty::F32 => {
                    let f: f64 = if s == "+inf" {
                        f64::INFINITY
                    } else if s == "-inf" {
                        f64::NEG_INFINITY
                    } else if s == "+qnan" {
                        f64::NAN
                    } else if let Some(h) = s.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                    } else {
                        s.parse().unwrap()
                    };
                    if *ty == Ty::F64 {
                        V::C(f.to_bits())
                    } else {
                        V::C((f as f32).to_bits() as u64)
                    }
                }
                _ => panic!("num {} for {:?}", s, ty),
            },
            T::Id("true") => V::C(1),
            T::Id("false") => V::C(0),
            T::Id("null") => V::C(0),
            T::Id("undef") | T::Id("poison") | T::Id("zeroinitializer") => self.zero(ty),
            T::Id("splat") => {
                lx.expect(b'(');
                let t = self.ty(lx);
                let v = self.konst(lx, &t);
                lx.expect(b')');
                if let Ty::Vec(n, _) = ty {
                    V::A(Rc::new(vec![v; *n as usize]))
                } else {
                    panic!("splat")
                }
            }
            T::Str(s) => V::A(Rc::new(unescape(s).into_iter().map(|b| V::C(b as u64)).collect())),
            T::Glo(n) => V::C(self.global_addr(n).unwrap_or_else(|| panic!("unknown global {}", n))),
            T::P(b'[') => V::A(Rc::new(self.konst_list(lx, b']'))),
            T::P(b'{') => V::A(Rc::new(self.konst_list(lx, b'}'))),
            T::P(b'<') => {
                if lx.eat(b'{') {
                    let v = self.konst_list(lx, b'}');
                    lx.expect(b'>');
                    V::A(Rc::new(v))
                } else {
                    V::A(Rc::new(self.konst_list(lx, b'>')))
                }
            }
            T::Id("getelementptr") => {
                while lx.peek() != T::P(b'(') {
                    if lx.next() == T::Id("inrange") {
                        lx.expect(b'(');
                        lx.skip_parens();
                    }
                }
                lx.expect(b'(');
                let t = self.ty(lx);
                lx.expect(b',');
                let pt = self.ty(lx);
                let base = self.konst(lx, &pt);
                let mut addr = if let V::C(a) = base { a } else { panic!("gep base") };
                let mut cur = t;
                let mut first = true;
                while lx.eat(b',') {
                    let it = self.ty(lx);
                    let iv = self.konst(lx, &it);
                    let k = if let V::C(a) = iv { sext64(a, it.bits()) } else { panic!("gep idx") };
                    if first {
                        addr = addr.wrapping_add((k as u64).wrapping_mul(cur.alloc_size()));
                        first = false;
                    } else {
                        addr = addr.wrapping_add(cur.field_off(k as usize));
                        cur = cur.field(k as usize).clone();
                    }
                }
                lx.expect(b')');
                V::C(addr)
            }
            T::Id(k @ ("ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast")) => {
                lx.expect(b'(');
                let t = self.ty(lx);
                let v = self.konst(lx, &t);
                assert!(lx.next() == T::Id("to"));
                let t2 = self.ty(lx);
                lx.expect(b')');
                if k == "trunc" {
                    if let V::C(x) = v {
                        return maskc(x as u128, t2.bits());
                    }
                }
                v
            }
            T::Id(k @ ("sub" | "add")) => {
                while lx.peek() != T::P(b'(') {
                    lx.next();
                }
                lx.expect(b'(');
                let t = self.ty(lx);
                let a = self.konst(lx, &t);
                lx.expect(b',');
                let t = self.ty(lx);
                let b = self.konst(lx, &t);
                lx.expect(b')');
                match (a, b) {
                    (V::C(a), V::C(b)) => maskc(
                        if k == "sub" { a.wrapping_sub(b) } else { a.wrapping_add(b) } as u128,
                        t.bits(),
                    ),
                    _ => panic!("const arith"),
                }
            }
            t => panic!("constant? {:?} near {}", t, &lx.rest()[..lx.rest().len().min(100)]),
        }
    }
    fn konst_list(&self, lx: &mut Lex, end: u8) -> Vec<V> {
        let mut v = vec![];
        if lx.eat(end) {
            return v;
        }
        loop {
            let t = self.ty(lx);
            v.push(self.konst(lx, &t));
            if lx.eat(end) {
                return v;
            }
            lx.expect(b',');
        }
    }
    pub fn zero(&self, ty: &Ty) -> V {
        match ty {
            Ty::I(b) if *b > 64 => V::W(0),
            Ty::I(_) | Ty::Ptr | Ty::F32 | Ty::F64 => V::C(0),
            Ty::Arr(n, t) | Ty::Vec(n, t) => V::A(Rc::new(vec![self.zero(t); *n as usize])),
            Ty::St(f, _) => V::A(Rc::new(f.iter().map(|t| self.zero(t)).collect())),
            _ => V::U,
        }
    }

    fn is_attr(t: T) -> bool {
        match t {
            T::Id(s) => !matches!(
                s,
                "true" | "false"
                    | "null"
                    | "undef"
                    | "poison"
                    | "zeroinitializer"
                    | "splat"
                    | "getelementptr"
                    | "ptrtoint"
                    | "inttoptr"
                    | "bitcast"
                    | "trunc"
                    | "sub"
                    | "add"
            ),
            _ => false,
        }
    }
    fn skip_attrs(lx: &mut Lex) {
        loop {
            let t = lx.peek();
            if !Self::is_attr(t) {
                return;
            }
            lx.next();
            if t == T::Id("align") {
                if let T::Num(_) = lx.peek() {
                    lx.next();
                    continue;
                }
            }
            if lx.peek() == T::P(b'(') {
                lx.next();
                lx.skip_parens();
            }
        }
    }

    fn op(&self, c: &mut FCtx, lx: &mut Lex, ty: &Ty) -> Op {
        if let T::Loc(n) = lx.peek() {
            lx.next();
            return Op::R(c.reg(n));
        }
        Op::K(self.konst(lx, ty))
    }

    /// decode a function body
    pub fn decode(&mut self, id: usize) -> Rc<Body> {
        if let Some(b) = &self.fns[id].decoded {
            return b.clone();
        }
        let r = Rc::new(self.decode_inner(id));
        self.fns[id].decoded = Some(r.clone());
        r
    }
    fn decode_inner(&self, id: usize) -> Body {
        let f = &self.fns[id];
        let text = self.text;
        let header = &text[f.header.0..f.header.1];
        let (bs, be) = f.body.expect("no body");
        let mut c = FCtx { m: self, regs: HashMap::new(), blocks: HashMap::new() };
        let _ = c.m;
        // header: ... <retty> @name(params)
        let at = header.find('@').unwrap();
        // return type: the type right before '@' — parse from after linkage words
        let mut lx = Lex::new(&header[..at]);
        lx.next(); // define
        let mut ret = Ty::Void;
        // skip linkage / cc / attributes until a type token that is followed by end
        loop {
            let save = lx.i;
            let t = lx.peek();
            let is_ty = match t {
                T::Id(s) => {
                    matches!(s, "void" | "ptr" | "float" | "double")
                        || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|b| b.is_ascii_digit()))
                }
                T::P(b'[') | T::P(b'{') | T::P(b'<') | T::Loc(_) => true,
                _ => false,
            };
            if t == T::End {
                break;
            }
            if is_ty {
                ret = self.ty(&mut lx);
                continue;
            }
            lx.i = save;
            lx.next();
            if lx.peek() == T::P(b'(') {
                lx.next();
                lx.skip_parens();
            }
        }
        let mut lx = Lex::new(&header[at..]);
        lx.next();
        lx.expect(b'(');
        let mut nparams = 0;
        let mut unnamed = 0u32;
        if !lx.eat(b')') {
            loop {
                if lx.peek() == T::P(b'.') {
                    panic!("vararg define");
                }
                let _t = self.ty(&mut lx);
                Self::skip_attrs(&mut lx);
                match lx.peek() {
                    T::Loc(n) => {
                        lx.next();
                        if n.parse::<u32>().is_ok() {
                            unnamed += 1;
                        }
                        let r = c.reg(n);
                        assert_eq!(r as usize, nparams);
                    }
                    _ => {
                        let r = c.reg(&format!("{}", unnamed));
                        unnamed += 1;
                        assert_eq!(r as usize, nparams);
                    }
                }
                nparams += 1;
                if lx.eat(b')') {
                    break;
                }
                lx.expect(b',');
            }
        }
        // first pass: block labels
        let body = &text[bs..be];
        let mut nblk = 0u32;
        let mut first = true;
        for line in body.lines() {
            if line.is_empty() || line.starts_with(';') {
                continue;
            }
            let is_label = !line.starts_with(' ');
            if is_label {
                let name = label_name(line);
                c.blocks.insert(name, nblk);
                nblk += 1;
            } else if first {
                c.blocks.insert(format!("{}", unnamed), nblk);
                nblk += 1;
            }
            first = false;
        }
        let mut blocks: Vec<Block> = Vec::new();
        let lines: Vec<&str> = body.lines().collect();
        let mut i = 0;
        while i < lines.len() {
            let line = lines[i];
            i += 1;
            if line.is_empty() || line.starts_with(';') {
                continue;
            }
            if !line.starts_with(' ') {
                blocks.push(Block::default());
                continue;
            }
            if blocks.is_empty() {
                blocks.push(Block::default());
            }
            let tl = line.trim_start();
            // join continuation lines
            let mut joined: String;
            let mut full: &str = tl;
            let kw = match tl.find(" = ") {
                Some(p) if tl.starts_with('%') => &tl[p + 3..],
                _ => tl,
            };
            if kw.starts_with("switch ") && tl.ends_with('[') {
                joined = tl.to_string();
                while i < lines.len() {
                    joined.push('\n');
                    joined.push_str(lines[i]);
                    i += 1;
                    if lines[i - 1].trim_start().starts_with(']') {
                        break;
                    }
                }
                full = &joined;
            } else if kw.starts_with("invoke ") {
                joined = tl.to_string();
                joined.push('\n');
                joined.push_str(lines[i]);
                i += 1;
                full = &joined;
            } else if kw.starts_with("landingpad ") {
                while i < lines.len() {
                    let t = lines[i].trim_start();
                    if t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter ") {
                        i += 1;
                    } else {
                        break;
                    }
                }
            }
            let b = blocks.last_mut().unwrap();
            match self.inst(&mut c, full, b) {
                Some(x) => b.insts.push(x),
                None => {}
            }
        }
        assert_eq!(blocks.len(), nblk as usize, "blocks in {}", f.name);
        Body { nregs: c.regs.len() as u32, blocks, ret, nparams }
    }

    fn inst(&self, c: &mut FCtx, s: &str, b: &mut Block) -> Option<Inst> {
        let mut lx = Lex::new(s);
        let mut d = u32::MAX;
        if let T::Loc(n) = lx.peek() {
            lx.next();
            lx.expect(b'=');
            d = c.reg(n);
        }
        let mut kw = match lx.next() {
            T::Id(k) => k,
            t => panic!("inst? {:?} in {}", t, s),
        };
        let bin = match kw {
            "add" => Some(BinK::Add),
            "sub" => Some(BinK::Sub),
            "mul" => Some(BinK::Mul),
            "udiv" => Some(BinK::UDiv),
            "sdiv" => Some(BinK::SDiv),
            "urem" => Some(BinK::URem),
            "srem" => Some(BinK::SRem),
            "shl" => Some(BinK::Shl),
            "lshr" => Some(BinK::LShr),
            "ashr" => Some(BinK::AShr),
            "and" => Some(BinK::And),
            "or" => Some(BinK::Or),
            "xor" => Some(BinK::Xor),
            _ => None,
        };
        if let Some(k) = bin {
            while matches!(lx.peek(), T::Id("nuw" | "nsw" | "exact" | "disjoint")) {
                lx.next();
            }
            let ty = self.ty(&mut lx);
            let a = self.op(c, &mut lx, &ty);
            lx.expect(b',');
            let bb = self.op(c, &mut lx, &ty);
            return Some(Inst::Bin { k, ty, a, b: bb, d });
        }
        if matches!(kw, "tail" | "musttail" | "notail") {
            kw = match lx.next() {
                T::Id(k) => k,
                t => panic!("{:?}", t),
            };
        }
        Some(match kw {
            "br" => {
                if lx.peek() == T::Id("label") {
                    lx.next();
                    let l = loc(&mut lx);
                    Inst::Br(c.blk(l))
                } else {
                    let ty = self.ty(&mut lx);
                    let cnd = self.op(c, &mut lx, &ty);
                    lx.expect(b',');
                    lx.next();
                    let t = c.blk(loc(&mut lx));
                    lx.expect(b',');
                    lx.next();
                    let f = c.blk(loc(&mut lx));
                    Inst::CondBr { c: cnd, t, f }
                }
            }
            "switch" => {
                let ty = self.ty(&mut lx);
                let v = self.op(c, &mut lx, &ty);
                lx.expect(b',');
                lx.next();
                let def = c.blk(loc(&mut lx));
                lx.expect(b'[');
                let mut cases = vec![];
                while !lx.eat(b']') {
                    let t = self.ty(&mut lx);
                    let k = match self.konst(&mut lx, &t) {
                        V::C(x) => x as u128,
                        V::W(x) => x,
                        _ => panic!(),
                    };
                    lx.expect(b',');
                    lx.next();
                    let l = c.blk(loc(&mut lx));
                    cases.push((k, l));
                }
                Inst::Switch { ty, v, def, cases }
            }
            "ret" => {
                let ty = self.ty(&mut lx);
                if ty == Ty::Void {
                    Inst::Ret(ty, Op::K(V::U))
                } else {
                    let v = self.op(c, &mut lx, &ty);
                    Inst::Ret(ty, v)
                }
            }
            "unreachable" => Inst::Unreachable,
            "load" => {
                while matches!(lx.peek(), T::Id("atomic" | "volatile")) {
                    lx.next();
                }
                let ty = self.ty(&mut lx);
                lx.expect(b',');
                let pt = self.ty(&mut lx);
                let p = self.op(c, &mut lx, &pt);
                Inst::Load { ty, p, d }
            }
            "store" => {
                while matches!(lx.peek(), T::Id("atomic" | "volatile")) {
                    lx.next();
                }
                let ty = self.ty(&mut lx);
                let v = self.op(c, &mut lx, &ty);
                lx.expect(b',');
                let pt = self.ty(&mut lx);
                let p = self.op(c, &mut lx, &pt);
                Inst::Store { ty, v, p }
            }
            "getelementptr" => {
                while matches!(lx.peek(), T::Id("inbounds" | "nuw" | "nusw")) {
                    lx.next();
                }
                let ty = self.ty(&mut lx);
                lx.expect(b',');
                let pt = self.ty(&mut lx);
                let p = self.op(c, &mut lx, &pt);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = ty;
                let mut first = true;
                while lx.eat(b',') {
                    if matches!(lx.peek(), T::Meta) {
                        break;
                    }
                    let it = self.ty(&mut lx);
                    let o = self.op(c, &mut lx, &it);
                    let scale = if first { cur.alloc_size() as i64 } else { 0 };
                    match o {
                        Op::K(V::C(k)) => {
                            let k = sext64(k, it.bits());
                            if first {
                                off += k * scale;
                            } else {
                                off += cur.field_off(k as usize) as i64;
                                cur = cur.field(k as usize).clone();
                            }
                        }
                        o => {
                            if first {
                                idx.push((o, it.bits(), scale));
                            } else {
                                let e = cur.field(0).clone();
                                idx.push((o, it.bits(), e.alloc_size() as i64));
                                cur = e;
                            }
                        }
                    }
                    first = false;
                }
                Inst::Gep { p, off, idx, d }
            }
            "alloca" => {
                let ty = self.ty(&mut lx);
                let mut n = Op::K(V::C(1));
                let mut align = ty.align() as u32;
                while lx.eat(b',') {
                    match lx.peek() {
                        T::Id("align") => {
                            lx.next();
                            if let T::Num(a) = lx.next() {
                                align = a.parse().unwrap();
                            }
                        }
                        T::Meta => break,
                        _ => {
                            let t = self.ty(&mut lx);
                            n = self.op(c, &mut lx, &t);
                        }
                    }
                }
                Inst::Alloca { size: ty.alloc_size(), n, align, d }
            }
            "icmp" => {
                let mut k = lx.next();
                if k == T::Id("samesign") {
                    k = lx.next();
                }
                let cc = match k {
                    T::Id("eq") => Cmp::Eq,
                    T::Id("ne") => Cmp::Ne,
                    T::Id("ugt") => Cmp::Ugt,
                    T::Id("uge") => Cmp::Uge,
                    T::Id("ult") => Cmp::Ult,
                    T::Id("ule") => Cmp::Ule,
                    T::Id("sgt") => Cmp::Sgt,
                    T::Id("sge") => Cmp::Sge,
                    T::Id("slt") => Cmp::Slt,
                    T::Id("sle") => Cmp::Sle,
                    t => panic!("icmp {:?}", t),
                };
                let ty = self.ty(&mut lx);
                let a = self.op(c, &mut lx, &ty);
                lx.expect(b',');
                let bb = self.op(c, &mut lx, &ty);
                Inst::Icmp { c: cc, ty, a, b: bb, d }
            }
            "fcmp" => {
                let mut k = lx.next();
                while matches!(k, T::Id("fast" | "nnan" | "ninf" | "nsz" | "contract" | "reassoc" | "arcp" | "afn")) {
                    k = lx.next();
                }
                let k = if let T::Id(k) = k { k } else { panic!() };
                let ty = self.ty(&mut lx);
                let a = self.op(c, &mut lx, &ty);
                lx.expect(b',');
                let bb = self.op(c, &mut lx, &ty);
                Inst::Fcmp { c: k.into(), ty, a, b: bb, d }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while matches!(lx.peek(), T::Id("fast" | "nnan" | "ninf" | "nsz" | "contract" | "reassoc" | "arcp" | "afn")) {
                    lx.next();
                }
                let ty = self.ty(&mut lx);
                let a = self.op(c, &mut lx, &ty);
                lx.expect(b',');
                let bb = self.op(c, &mut lx, &ty);
                Inst::Fbin { k: kw.into(), ty, a, b: bb, d }
            }
            "fneg" => {
                let ty = self.ty(&mut lx);
                let a = self.op(c, &mut lx, &ty);
                Inst::Fneg { ty, a, d }
            }
            "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                while matches!(lx.peek(), T::Id("nneg" | "fast" | "nnan")) {
                    lx.next();
                }
                let from = self.ty(&mut lx);
                let a = self.op(c, &mut lx, &from);
                lx.next();
                let to = self.ty(&mut lx);
                Inst::Fcast { k: kw.into(), from, a, to, d }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                while matches!(lx.peek(), T::Id("nuw" | "nsw" | "nneg")) {
                    lx.next();
                }
                let from = self.ty(&mut lx);
                let a = self.op(c, &mut lx, &from);
                assert!(lx.next() == T::Id("to"));
                let to = self.ty(&mut lx);
                let k = match kw {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "bitcast" => CastK::Bit,
                    _ => CastK::PtrInt,
                };
                Inst::Cast { k, from, a, to, d }
            }
            "select" => {
                while matches!(lx.peek(), T::Id("fast" | "nnan" | "ninf" | "nsz")) {
                    lx.next();
                }
                let cty = self.ty(&mut lx);
                let cc = self.op(c, &mut lx, &cty);
                lx.expect(b',');
                let ty = self.ty(&mut lx);
                let a = self.op(c, &mut lx, &ty);
                lx.expect(b',');
                let _ = self.ty(&mut lx);
                let bb = self.op(c, &mut lx, &ty);
                Inst::Select { cty, ty, c: cc, a, b: bb, d }
            }
            "phi" => {
                let ty = self.ty(&mut lx);
                let mut inc = vec![];
                loop {
                    lx.expect(b'[');
                    let o = self.op(c, &mut lx, &ty);
                    lx.expect(b',');
                    let l = loc(&mut lx);
                    inc.push((c.blk(l), o));
                    lx.expect(b']');
                    if !lx.eat(b',') {
                        break;
                    }
                    if matches!(lx.peek(), T::Meta) {
                        break;
                    }
                }
                b.phis.push(Phi { d, inc, ty });
                return None;
            }
            "extractvalue" => {
                let ty = self.ty(&mut lx);
                let a = self.op(c, &mut lx, &ty);
                let idx = idx_list(&mut lx);
                Inst::ExtractV { ty, a, idx, d }
            }
            "insertvalue" => {
                let ty = self.ty(&mut lx);
                let a = self.op(c, &mut lx, &ty);
                lx.expect(b',');
                let t2 = self.ty(&mut lx);
                let bb = self.op(c, &mut lx, &t2);
                let idx = idx_list(&mut lx);
                Inst::InsertV { ty, a, b: bb, idx, d }
            }
            "extractelement" => {
                let ty = self.ty(&mut lx);
                let a = self.op(c, &mut lx, &ty);
                lx.expect(b',');
                let t2 = self.ty(&mut lx);
                let i = self.op(c, &mut lx, &t2);
                if let Ty::Vec(n, e) = ty {
                    Inst::ExtractE { n, ety: (*e).clone(), a, i, d }
                } else {
                    panic!()
                }
            }
            "insertelement" => {
                let ty = self.ty(&mut lx);
                let a = self.op(c, &mut lx, &ty);
                lx.expect(b',');
                let t1 = self.ty(&mut lx);
                let bb = self.op(c, &mut lx, &t1);
                lx.expect(b',');
                let t2 = self.ty(&mut lx);
                let i = self.op(c, &mut lx, &t2);
                if let Ty::Vec(n, e) = ty {
                    Inst::InsertE { n, ety: (*e).clone(), a, b: bb, i, d }
                } else {
                    panic!()
                }
            }
            "shufflevector" => {
                let ty = self.ty(&mut lx);
                let a = self.op(c, &mut lx, &ty);
                lx.expect(b',');
                let _ = self.ty(&mut lx);
                let bb = self.op(c, &mut lx, &ty);
                lx.expect(b',');
                let mt = self.ty(&mut lx);
                let m = match self.konst(&mut lx, &mt) {
                    V::A(v) => v
                        .iter()
                        .map(|x| match x {
                            V::C(k) => *k as i64,
                            _ => -1,
                        })
                        .collect(),
                    _ => panic!(),
                };
                if let Ty::Vec(n, e) = ty {
                    Inst::Shuffle { n, ety: (*e).clone(), a, b: bb, m, d }
                } else {
                    panic!()
                }
            }
            "atomicrmw" => {
                lx.eat_id("volatile");
                let op = match lx.next() {
                    T::Id(o) => o,
                    _ => panic!(),
                };
                let pt = self.ty(&mut lx);
                let p = self.op(c, &mut lx, &pt);
                lx.expect(b',');
                let ty = self.ty(&mut lx);
                let v = self.op(c, &mut lx, &ty);
                Inst::Rmw { op: op.into(), ty, p, v, d }
            }
            "cmpxchg" => {
                while matches!(lx.peek(), T::Id("weak" | "volatile")) {
                    lx.next();
                }
                let pt = self.ty(&mut lx);
                let p = self.op(c, &mut lx, &pt);
                lx.expect(b',');
                let ty = self.ty(&mut lx);
                let cm = self.op(c, &mut lx, &ty);
                lx.expect(b',');
                let _ = self.ty(&mut lx);
                let n = self.op(c, &mut lx, &ty);
                Inst::CmpXchg { ty, p, c: cm, n, d }
            }
            "fence" => Inst::Nop,
            "freeze" => {
                let ty = self.ty(&mut lx);
                let a = self.op(c, &mut lx, &ty);
                Inst::Freeze { a, ty, d }
            }
            "call" | "invoke" => {
                // fast-math flags, calling convention, return attributes
                loop {
                    match lx.peek() {
                        T::Id(s) => {
                            let is_ty = matches!(s, "void" | "ptr" | "float" | "double")
                                || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|b| b.is_ascii_digit()));
                            if is_ty {
                                break;
                            }
                            lx.next();
                            if s == "align" {
                                if let T::Num(_) = lx.peek() {
                                    lx.next();
                                    continue;
                                }
                            }
                            if lx.peek() == T::P(b'(') {
                                lx.next();
                                lx.skip_parens();
                            }
                        }
                        _ => break,
                    }
                }
                let ret = self.ty(&mut lx);
                // optional function type (varargs)
                if lx.peek() == T::P(b'(') {
                    lx.next();
                    lx.skip_parens();
                }
                let callee = match lx.next() {
                    T::Glo(n) => {
                        if n.starts_with("llvm.") {
                            Callee::Intr(n.into())
                        } else {
                            match self.fn_id.get(n) {
                                Some(i) => Callee::Direct(*i),
                                None => panic!("call of unknown {}", n),
                            }
                        }
                    }
                    T::Loc(n) => Callee::Ind(Op::R(c.reg(n))),
                    T::Id("asm") => return Some(Inst::Bad("inline asm".into())),
                    T::Id("null") => Callee::Ind(Op::K(V::C(0))),
                    t => panic!("callee {:?} in {}", t, s),
                };
                lx.expect(b'(');
                let mut args = vec![];
                if !lx.eat(b')') {
                    loop {
                        if lx.peek() == T::Id("metadata") {
                            // metadata argument: skip to , or )
                            let mut depth = 0;
                            loop {
                                match lx.peek() {
                                    T::P(b'(') | T::P(b'{') => {
                                        depth += 1;
                                        lx.next();
                                    }
                                    T::P(b')') if depth == 0 => break,
                                    T::P(b')') | T::P(b'}') => {
                                        depth -= 1;
                                        lx.next();
                                    }
                                    T::P(b',') if depth == 0 => break,
                                    _ => {
                                        lx.next();
                                    }
                                }
                            }
                        } else {
                            let t = self.ty(&mut lx);
                            Self::skip_attrs(&mut lx);
                            let o = self.op(c, &mut lx, &t);
                            args.push((t, o));
                        }
                        if lx.eat(b')') {
                            break;
                        }
                        lx.expect(b',');
                    }
                }
                let mut normal = None;
                if kw == "invoke" {
                    // ... to label %x unwind label %y
                    loop {
                        match lx.next() {
                            T::Id("to") => {
                                lx.next();
                                normal = Some(c.blk(loc(&mut lx)));
                                break;
                            }
                            T::End => panic!("invoke"),
                            _ => {}
                        }
                    }
                }
                Inst::Call { f: callee, args, ret, d, normal }
            }
            "landingpad" | "resume" | "indirectbr" | "va_arg" => Inst::Bad(kw.to_string()),
            k => Inst::Bad(format!("unknown instruction {}", k)),
        })
    }

    /// initial contents of all globals
    pub fn init_globals(&self) -> Tbl {
        let mut t = Tbl::default();
        for (i, (s, e)) in self.glob_src.iter().enumerate() {
            let line = &self.text[*s..*e];
            let mut lx = Lex::new(line);
            lx.next();
            lx.expect(b'=');
            let mut constant = false;
            let mut external = false;
            loop {
                match lx.next() {
                    T::Id("constant") => {
                        constant = true;
                        break;
                    }
                    T::Id("global") => break,
                    T::Id("external") | T::Id("extern_weak") => external = true,
                    T::Id("alias") | T::Id("ifunc") => panic!("alias global"),
                    T::Id(_) => {
                        if lx.peek() == T::P(b'(') {
                            lx.next();
                            lx.skip_parens();
                        }
                    }
                    t => panic!("global {:?} in {}", t, line),
                }
            }
            let ty = self.ty(&mut lx);
            let size = ty.alloc_size() as usize;
            let mut align = ty.align() as u32;
            let mut o = Obj { data: vec![0; size], sym: None, align, ro: constant, name: i as u32 + 1 };
            if !external {
                let v = self.konst(&mut lx, &ty);
                self.write_const(&mut o, 0, &ty, &v);
            }
            while lx.eat(b',') {
                if lx.peek() == T::Id("align") {
                    lx.next();
                    if let T::Num(a) = lx.next() {
                        align = a.parse().unwrap();
                    }
                } else {
                    lx.next();
                }
            }
            o.align = align;
            t.set(i as u32, Some(Rc::new(o)));
        }
        t
    }
    fn write_const(&self, o: &mut Obj, off: usize, ty: &Ty, v: &V) {
        match v {
            V::C(x) => {
                let n = ty.size() as usize;
                o.store_c(off, n, *x as u128)
            }
            V::W(x) => o.store_c(off, ty.size() as usize, *x),
            V::A(f) => {
                for (i, x) in f.iter().enumerate() {
                    self.write_const(o, off + ty.field_off(i) as usize, ty.field(i), x);
                }
            }
            _ => {}
        }
    }
}

fn loc<'a>(lx: &mut Lex<'a>) -> &'a str {
    match lx.next() {
        T::Loc(n) => n,
        t => panic!("local expected, got {:?}", t),
    }
}
fn idx_list(lx: &mut Lex) -> Vec<u32> {
    let mut v = vec![];
    while lx.eat(b',') {
        match lx.peek() {
            T::Num(s) => {
                v.push(s.parse().unwrap());
                lx.next();
            }
            _ => break,
        }
    }
    v
}
pub fn sext64(v: u64, bits: u32) -> i64 {
    if bits >= 64 {
        v as i64
    } else {
        ((v << (64 - bits)) as i64) >> (64 - bits)
    }
}
fn fn_name(line: &str) -> String {
    let at = line.find('@').unwrap();
    let mut lx = Lex::new(&line[at..]);
    match lx.next() {
        T::Glo(n) => n.to_string(),
        t => panic!("{:?}", t),
    }
}
fn label_name(line: &str) -> String {
    if let Some(r) = line.strip_prefix('"') {
        let e = r.find('"').unwrap();
        r[..e].to_string()
    } else {
        let e = line.find(':').unwrap();
        line[..e].to_string()
    }
}
