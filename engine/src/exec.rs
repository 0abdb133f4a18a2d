//! Symbolic interpreter for LLVM IR.
use crate::expr::*;
use crate::ll::*;
use crate::state::*;
use crate::z3::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::time::Instant;

pub enum Outs {
    None,
    One(State, V),
    Many(Vec<(State, V)>),
}

#[derive(Clone)]
pub struct Violation {
    pub code: u32,
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub vars: Vec<(u32, u128)>,
    pub choices: Vec<(u32, u32)>,
}
#[derive(Clone)]
pub struct Sample {
    pub vars: Vec<(u32, u128)>,
    pub choices: Vec<(u32, u32)>,
    pub notes: Vec<Vec<u8>>,
}

pub struct Cfg {
    pub max_steps: u64,
    pub time_limit: f64,
    pub claim_dir: Option<String>,
    pub max_viol: usize,
    pub samples: usize,
    pub merge: bool,
    pub tier: u32,
    pub seed: u64,
}

pub struct Exec {
    pub m: Module,
    pub sv: Solver,
    pub cfg: Cfg,
    pub t0: Instant,
    pub cs: Vec<usize>,
    pub seen: BTreeSet<usize>,
    pub viol: Vec<Violation>,
    pub known: BTreeMap<u32, Violation>,
    pub samples: Vec<Sample>,
    pub n_insts: u64,
    pub n_paths: u64,
    pub n_forks: u64,
    pub n_merges: u64,
    pub n_assumed: u64,
    pub cover: std::collections::BTreeMap<Vec<(u32, u32)>, Vec<E>>,
    pub n_cover: u64,
    pub n_checks: BTreeMap<u32, u64>,
    pub n_proved: u64,
    pub n_const: u64,
    pub max_depth: usize,
    pub foreign: std::collections::HashSet<Vec<(u32, u32)>>,
    pub claimed: std::collections::HashMap<u64, bool>,
    pub stop: bool,
    pub timed_out: bool,
    /// paths dropped because the solver gave up on a query
    pub n_undecided: u64,
    pub trace: bool,
    pub errno: u64,
    pub prof: Option<BTreeMap<usize, (u64, u64)>>,
}

pub struct Frame {
    pub regs: Vec<V>,
    pub block: u32,
    pub ip: usize,
    pub prev: u32,
}
impl Clone for Frame {
    fn clone(&self) -> Self {
        Frame { regs: self.regs.clone(), block: self.block, ip: self.ip, prev: self.prev }
    }
}

pub fn fatal(msg: &str) -> ! {
    eprintln!("SXE-ERROR: {}", msg);
    std::process::exit(3);
}

#[inline]
fn m64(bits: u32) -> u64 {
    if bits >= 64 {
        u64::MAX
    } else {
        (1u64 << bits) - 1
    }
}
pub fn to_e(v: &V, bits: u32) -> E {
    match v {
        V::C(c) => mk_const(bits as u8, *c as u128),
        V::W(c) => mk_const(bits as u8, *c),
        V::S(e) => {
            debug_assert_eq!(width(*e) as u32, bits);
            *e
        }
        V::U => mk_const(bits as u8, 0),
        V::A(_) => panic!("to_e of aggregate"),
    }
}
pub fn from_e(e: E) -> V {
    match as_const(e) {
        Some(c) => {
            if width(e) > 64 {
                V::W(c)
            } else {
                V::C(c as u64)
            }
        }
        None => V::S(e),
    }
}
fn as_c128(v: &V) -> Option<u128> {
    match v {
        V::C(c) => Some(*c as u128),
        V::W(c) => Some(*c),
        V::U => Some(0),
        V::S(_) => None,
        V::A(_) => panic!("scalar expected"),
    }
}

/// expression of a value of first class type as a bit string (little endian element order)
fn to_bits(v: &V, ty: &Ty) -> E {
    match ty {
        Ty::Vec(n, t) => {
            let b = t.bits();
            let mut acc: Option<E> = None;
            for i in 0..*n as usize {
                let e = match v {
                    V::A(a) => to_e(&a[i], b),
                    _ => mk_const(b as u8, 0),
                };
                acc = Some(match acc {
                    None => e,
                    Some(x) => mk_concat(e, x),
                });
            }
            acc.unwrap()
        }
        t => to_e(v, t.bits()),
    }
}
fn from_bits(e: E, ty: &Ty) -> V {
    match ty {
        Ty::Vec(n, t) => {
            let b = t.bits() as u8;
            V::A(Rc::new((0..*n as u8).map(|i| from_e(mk_extract((i + 1) * b - 1, i * b, e))).collect()))
        }
        _ => from_e(e),
    }
}

pub fn bin_scalar(k: BinK, bits: u32, a: &V, b: &V) -> V {
    if let (V::C(x), V::C(y)) = (a, b) {
        let (x, y) = (*x, *y);
        let m = m64(bits);
        let r = match k {
            BinK::Add => x.wrapping_add(y),
            BinK::Sub => x.wrapping_sub(y),
            BinK::Mul => x.wrapping_mul(y),
            BinK::And => x & y,
            BinK::Or => x | y,
            BinK::Xor => x ^ y,
            BinK::Shl => {
                if y >= bits as u64 {
                    0
                } else {
                    x << y
                }
            }
            BinK::LShr => {
                if y >= bits as u64 {
                    0
                } else {
                    x >> y
                }
            }
            BinK::AShr => {
                let s = sext64(x, bits);
                (if y >= bits as u64 { s >> 63 } else { s >> y }) as u64
            }
            BinK::UDiv => {
                if y == 0 {
                    0
                } else {
                    x / y
                }
            }
            BinK::URem => {
                if y == 0 {
                    0
                } else {
                    x % y
                }
            }
            BinK::SDiv => {
                if y == 0 {
                    0
                } else {
                    sext64(x, bits).wrapping_div(sext64(y, bits)) as u64
                }
            }
            BinK::SRem => {
                if y == 0 {
                    0
                } else {
                    sext64(x, bits).wrapping_rem(sext64(y, bits)) as u64
                }
            }
        };
        return V::C(r & m);
    }
    let (x, y) = (to_e(a, bits), to_e(b, bits));
    let r = match k {
        BinK::Add => mk_add(x, y),
        BinK::Sub => mk_sub(x, y),
        BinK::Mul => mk_mul(x, y),
        BinK::And => mk_and(x, y),
        BinK::Or => mk_or(x, y),
        BinK::Xor => mk_xor(x, y),
        BinK::Shl => mk_shl(x, y),
        BinK::LShr => mk_lshr(x, y),
        BinK::AShr => mk_ashr(x, y),
        BinK::UDiv => mk_bin(Op2::UDiv, x, y),
        BinK::URem => mk_bin(Op2::URem, x, y),
        BinK::SDiv => mk_bin(Op2::SDiv, x, y),
        BinK::SRem => mk_bin(Op2::SRem, x, y),
    };
    from_e(r)
}
pub fn icmp_scalar(c: Cmp, bits: u32, a: &V, b: &V) -> V {
    if let (V::C(x), V::C(y)) = (a, b) {
        let (x, y) = (*x, *y);
        let (sx, sy) = (sext64(x, bits), sext64(y, bits));
        let r = match c {
            Cmp::Eq => x == y,
            Cmp::Ne => x != y,
            Cmp::Ugt => x > y,
            Cmp::Uge => x >= y,
            Cmp::Ult => x < y,
            Cmp::Ule => x <= y,
            Cmp::Sgt => sx > sy,
            Cmp::Sge => sx >= sy,
            Cmp::Slt => sx < sy,
            Cmp::Sle => sx <= sy,
        };
        return V::C(r as u64);
    }
    let (x, y) = (to_e(a, bits), to_e(b, bits));
    let r = match c {
        Cmp::Eq => mk_eq(x, y),
        Cmp::Ne => mk_not(mk_eq(x, y)),
        Cmp::Ugt => mk_ult(y, x),
        Cmp::Uge => mk_not(mk_ult(x, y)),
        Cmp::Ult => mk_ult(x, y),
        Cmp::Ule => mk_not(mk_ult(y, x)),
        Cmp::Sgt => mk_slt(y, x),
        Cmp::Sge => mk_not(mk_slt(x, y)),
        Cmp::Slt => mk_slt(x, y),
        Cmp::Sle => mk_not(mk_slt(y, x)),
    };
    from_e(r)
}
fn map2(ty: &Ty, a: &V, b: &V, f: &dyn Fn(u32, &V, &V) -> V) -> V {
    match ty {
        Ty::Vec(n, t) => {
            let bits = t.bits();
            let z = V::C(0);
            let g = |v: &V, i: usize| match v {
                V::A(a) => a[i].clone(),
                _ => z.clone(),
            };
            V::A(Rc::new((0..*n as usize).map(|i| f(bits, &g(a, i), &g(b, i))).collect()))
        }
        t => f(t.bits(), a, b),
    }
}
fn cast_scalar(k: CastK, fb: u32, tb: u32, v: &V) -> V {
    match v {
        V::U => V::U,
        V::C(x) => match k {
            CastK::Trunc => V::C(x & m64(tb)),
            CastK::ZExt | CastK::Bit | CastK::PtrInt => {
                if tb > 64 {
                    V::W(*x as u128)
                } else {
                    V::C(x & m64(tb))
                }
            }
            CastK::SExt => {
                let s = sext64(*x, fb);
                if tb > 64 {
                    V::W((s as i128 as u128) & mask(tb as u8))
                } else {
                    V::C(s as u64 & m64(tb))
                }
            }
        },
        _ => {
            let e = to_e(v, fb);
            from_e(match k {
                CastK::Trunc => mk_extract(tb as u8 - 1, 0, e),
                CastK::SExt => mk_sext(e, tb as u8),
                _ => {
                    if tb < fb {
                        mk_extract(tb as u8 - 1, 0, e)
                    } else {
                        mk_zext(e, tb as u8)
                    }
                }
            })
        }
    }
}
pub fn ite_v(ty: &Ty, c: E, a: &V, b: &V) -> V {
    if let Some(k) = as_const(c) {
        return if k == 1 { a.clone() } else { b.clone() };
    }
    match ty {
        Ty::Void => V::U,
        Ty::Arr(n, t) | Ty::Vec(n, t) => match (a, b) {
            (V::U, x) | (x, V::U) => x.clone(),
            (V::A(x), V::A(y)) => V::A(Rc::new((0..*n as usize).map(|i| ite_v(t, c, &x[i], &y[i])).collect())),
            _ => panic!("ite_v"),
        },
        Ty::St(f, _) => match (a, b) {
            (V::U, x) | (x, V::U) => x.clone(),
            (V::A(x), V::A(y)) => V::A(Rc::new(f.iter().enumerate().map(|(i, t)| ite_v(t, c, &x[i], &y[i])).collect())),
            _ => panic!("ite_v"),
        },
        t => {
            if let (V::C(x), V::C(y)) = (a, b) {
                if x == y {
                    return a.clone();
                }
            }
            match (a, b) {
                (V::U, x) | (x, V::U) => return x.clone(),
                _ => {}
            }
            let bits = t.bits();
            from_e(mk_ite(c, to_e(a, bits), to_e(b, bits)))
        }
    }
}
/// trailing known-zero bits
fn tz(e: E) -> u32 {
    match node(e).n {
        N::Const(0) => 32,
        N::Const(c) => c.trailing_zeros(),
        N::Bin(Op2::Concat, a, b) => {
            let t = tz(b);
            if t >= width(b) as u32 {
                width(b) as u32 + tz(a)
            } else {
                t
            }
        }
        N::Bin(Op2::Add, a, b) => tz(a).min(tz(b)),
        N::Bin(Op2::Mul, a, b) => tz(a) + tz(b),
        N::Ite(_, a, b) => tz(a).min(tz(b)),
        N::Pw(i) => ar().pws[i as usize].leaves.iter().map(|l| tz(*l)).min().unwrap(),
        N::Extract(_, 0, x) => tz(x),
        _ => 0,
    }
}

pub fn map_tree(e: E, memo: &mut FxMap<E, Option<E>>, f: &mut dyn FnMut(E) -> Option<E>) -> Option<E> {
    if let Some(r) = memo.get(&e) {
        return *r;
    }
    let r = match node(e).n {
        N::Ite(c, a, b) => {
            let x = map_tree(a, memo, f);
            let y = map_tree(b, memo, f);
            match (x, y) {
                (Some(x), Some(y)) => Some(mk_ite(c, x, y)),
                (Some(x), None) => Some(x),
                (None, y) => y,
            }
        }
        N::Pw(i) => pw_map_opt(i, &mut |l| map_tree(l, memo, f)),
        _ => f(e),
    };
    memo.insert(e, r);
    r
}

enum Step {
    Next,
    Done(V),
    Dead,
}

impl Exec {
    pub fn body(&mut self, f: usize) -> Rc<Body> {
        self.m.decode(f)
    }
    pub fn err(&self, msg: &str) -> ! {
        eprintln!("SXE-ERROR: {}", msg);
        for f in self.cs.iter().rev().take(25) {
            eprintln!("    in {}", short(&self.m.fns[*f].name));
        }
        std::process::exit(3);
    }
    pub fn stack_names(&self) -> Vec<String> {
        self.cs.iter().rev().take(14).map(|f| short(&self.m.fns[*f].name)).collect()
    }
    pub fn assignment(&self, model: &Model) -> Vec<(u32, u128)> {
        ar().vars.iter().enumerate().map(|(i, v)| (v.id, model.get(i).copied().unwrap_or(v.lo))).collect()
    }
    pub fn report(&mut self, st: &State, model: &Model, code: u32, kind: &str, msg: String) {
        model_gen(model);
        if eval(st.pc.formula(), model) != 1 {
            self.err("engine self-check: the model of a counterexample does not satisfy its path condition");
        }
        if std::env::var("SXDUMP").is_ok() {
            for n in st.env.notes.iter() {
                let b: Vec<u8> = n.iter().map(|e| eval(*e, model) as u8).collect();
                eprintln!("report note {:?}", String::from_utf8_lossy(&b));
            }
            for c in st.pc.to_vec() {
                eprintln!("report pc {} = {}", show(c, 6), eval(c, model));
            }
        }
        let v = Violation {
            code,
            kind: kind.into(),
            msg,
            stack: self.stack_names(),
            vars: self.assignment(model),
            choices: st.env.choices.clone(),
        };
        // keep one per (code, innermost frames)
        let dup = self.viol.iter().filter(|o| o.code == code && o.kind == v.kind).count();
        if dup < 2 {
            self.viol.push(v);
        }
        if self.viol.len() >= self.cfg.max_viol {
            self.stop = true;
        }
    }
    /// remember which inputs the finished path stands for
    pub fn covered(&mut self, st: &State) {
        let f = st.pc.formula();
        self.cover.entry(st.env.choices.clone()).or_default().push(f);
    }
    /// the finished paths of every unit (assignment of the choices) must stand for all inputs
    pub fn check_cover(&mut self) {
        let c = std::mem::take(&mut self.cover);
        for (k, _) in c.iter() {
            // a path that ends before a later choice stands for all its options
            if c.keys().any(|q| q.len() > k.len() && q.starts_with(k)) {
                continue;
            }
            // units explored by another process
            if self.foreign.iter().any(|q| q.len() >= k.len() && q.starts_with(k)) {
                continue;
            }
            let fs: Vec<E> = c.iter().filter(|(q, _)| k.starts_with(q)).flat_map(|(_, f)| f.iter().copied()).collect();
            if let Some(m) = self.sv.uncovered(&fs) {
                self.err(&format!("engine self-check: unit {:?} leaves inputs uncovered: {:?}", k, m));
            }
            if !self.sv.gave_up {
                self.n_cover += 1;
            }
        }
    }
    pub fn path_done(&mut self, st: &State) {
        self.n_paths += 1;
        self.covered(st);
        if self.cfg.samples == 0 || st.env.notes.is_empty() {
            return;
        }
        // reservoir sampling with a fixed pseudo random sequence
        let keep = if self.samples.len() < self.cfg.samples {
            Some(self.samples.len())
        } else {
            let mut x = self.n_paths.wrapping_mul(0x9E3779B97F4A7C15) ^ self.cfg.seed;
            x ^= x >> 29;
            x = x.wrapping_mul(0xBF58476D1CE4E5B9);
            x ^= x >> 32;
            let k = (x % self.n_paths) as usize;
            if k < self.cfg.samples {
                Some(k)
            } else {
                None
            }
        };
        if let Some(k) = keep {
            model_gen(&st.model);
            let notes = st.env.notes.iter().map(|n| n.iter().map(|e| eval(*e, &st.model) as u8).collect()).collect();
            let s = Sample { vars: self.assignment(&st.model), choices: st.env.choices.clone(), notes };
            if k == self.samples.len() {
                self.samples.push(s);
            } else {
                self.samples[k] = s;
            }
        }
    }

    /// work unit claims: the first process to create the unit's file explores it
    pub fn claim(&mut self, rank: u64) -> bool {
        let dir = match &self.cfg.claim_dir {
            None => {
                self.claimed.insert(rank, true);
                return true;
            }
            Some(d) => d.clone(),
        };
        if let Some(b) = self.claimed.get(&rank) {
            return *b;
        }
        let ok = match std::fs::OpenOptions::new().write(true).create_new(true).open(format!("{}/{}", dir, rank)) {
            Ok(_) => true,
            Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => false,
            Err(e) => fatal(&format!("claim: {}", e)),
        };
        self.claimed.insert(rank, ok);
        ok
    }

    // ------------------------------------------------------------ functions
    pub fn call(&mut self, st: State, f: usize, args: Vec<V>) -> Outs {
        let kind = self.m.fns[f].kind;
        if kind != 0 || self.m.fns[f].body.is_none() {
            return self.special(st, f, kind, args);
        }
        self.run_fn(st, f, args)
    }

    pub fn run_fn(&mut self, st: State, f: usize, args: Vec<V>) -> Outs {
        if self.stop {
            return Outs::None;
        }
        let body = self.body(f);
        self.seen.insert(f);
        self.cs.push(f);
        if self.cs.len() > self.max_depth {
            self.max_depth = self.cs.len();
            if self.max_depth > 3000 {
                self.err("call depth over 3000");
            }
        }
        let n0 = self.n_insts;
        let base = st.stack.len();
        let entry_pc = st.pc.clone();
        let mut regs = vec![V::U; body.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            regs[i] = a;
        }
        let fr = Frame { regs, block: 0, ip: 0, prev: u32::MAX };
        let mut work: Vec<(State, Frame)> = Vec::new();
        let mut first: Option<(State, V)> = None;
        let mut more: Vec<(State, V)> = Vec::new();
        let mut cur = Some((st, fr));
        while let Some((s, fr)) = cur {
            if let Some((mut s, v)) = self.exec_path(&body, s, fr, &mut work) {
                s.stack.truncate(base);
                if first.is_none() {
                    first = Some((s, v));
                } else {
                    more.push((s, v));
                }
            }
            if self.stop {
                work.clear();
            }
            cur = work.pop();
        }
        self.cs.pop();
        if let Some(p) = &mut self.prof {
            let e = p.entry(f).or_insert((0, 0));
            e.0 += 1;
            e.1 += self.n_insts - n0;
        }
        match first {
            None => Outs::None,
            Some((s, v)) => {
                if more.is_empty() {
                    return Outs::One(s, v);
                }
                let mut all = vec![(s, v)];
                all.append(&mut more);
                if self.cfg.merge {
                    let n = all.len();
                    let w = watch::snap(&all);
                    all = self.merge_outs(&entry_pc, &body.ret, all);
                    if let Some(w) = w {
                        watch::compare(&w, &all, &short(&self.m.fns[f].name));
                    }
                    self.n_merges += (n - all.len()) as u64;
                }
                if all.len() == 1 {
                    let (s, v) = all.pop().unwrap();
                    Outs::One(s, v)
                } else {
                    Outs::Many(all)
                }
            }
        }
    }

    #[inline]
    fn ev(&self, fr: &Frame, op: &Op) -> V {
        match op {
            Op::R(r) => fr.regs[*r as usize].clone(),
            Op::K(v) => v.clone(),
        }
    }

    /// Make the operand concrete. `None`: needs no more work; forks push siblings on `work`.
    pub fn conc(&mut self, st: &mut State, fr: &mut Frame, op: &Op, bits: u32, work: &mut Vec<(State, Frame)>) -> u64 {
        let v = match op {
            Op::R(r) => &fr.regs[*r as usize],
            Op::K(v) => v,
        };
        match v {
            V::C(c) => *c,
            V::U => 0,
            V::S(e) => {
                let e = *e;
                model_gen(&st.model);
                let k = eval(e, &st.model);
                let c = mk_eq(e, mk_const(bits as u8, k));
                if let Some(m2) = self.sv.check(&st.pc, &st.model, mk_not(c)) {
                    let mut s2 = st.clone();
                    s2.model = m2;
                    s2.pc = s2.pc.push(mk_not(c));
                    self.n_forks += 1;
                    work.push((s2, fr.clone()));
                    st.pc = st.pc.push(c);
                }
                if let Op::R(r) = op {
                    fr.regs[*r as usize] = V::C(k as u64);
                }
                k as u64
            }
            v => self.err(&format!("conc of {:?}", v)),
        }
    }

    fn exec_path(&mut self, body: &Body, mut st: State, mut fr: Frame, work: &mut Vec<(State, Frame)>) -> Option<(State, V)> {
        loop {
            if fr.ip == 0 {
                let b = &body.blocks[fr.block as usize];
                if !b.phis.is_empty() && fr.prev != u32::MAX {
                    let mut vals = Vec::with_capacity(b.phis.len());
                    for p in &b.phis {
                        let o = p.inc.iter().find(|(x, _)| *x == fr.prev).expect("phi edge");
                        vals.push(self.ev(&fr, &o.1));
                    }
                    for (p, v) in b.phis.iter().zip(vals) {
                        fr.regs[p.d as usize] = v;
                    }
                    // phis are evaluated once: a resumed frame starts at ip 0 again only with prev = MAX
                    fr.prev = u32::MAX;
                }
            }
            if self.sv.gave_up {
                self.sv.gave_up = false;
                self.n_undecided += 1;
                return None;
            }
            let b = &body.blocks[fr.block as usize];
            let inst = &b.insts[fr.ip];
            self.n_insts += 1;
            st.steps += 1;
            if self.n_insts & 0xfffff == 0 {
                self.limits(&st);
                if self.stop {
                    return None;
                }
            }
            if let Inst::Call { f, args, ret: _, d, normal } = inst {
                let fid = match f {
                    Callee::Direct(i) => *i,
                    Callee::Intr(name) => {
                        let name = name.clone();
                        match self.intrinsic(&mut st, &mut fr, &name, args, *d, work) {
                            Step::Next => {
                                fr.ip += 1;
                                if let Some(n) = normal {
                                    fr.prev = fr.block;
                                    fr.block = *n;
                                    fr.ip = 0;
                                }
                                continue;
                            }
                            Step::Dead => return None,
                            Step::Done(_) => unreachable!(),
                        }
                    }
                    Callee::Ind(op) => {
                        let a = self.conc(&mut st, &mut fr, op, 64, work);
                        let id = (a >> 32) as u32;
                        if id < FUNC0 || (id - FUNC0) as usize >= self.m.fns.len() || a as u32 != 0 {
                            self.err(&format!("indirect call of {:#x}", a));
                        }
                        (id - FUNC0) as usize
                    }
                };
                let av: Vec<V> = args.iter().map(|(_, o)| self.ev(&fr, o)).collect();
                let d = *d;
                // control flow after the call
                fr.ip += 1;
                if let Some(n) = normal {
                    fr.prev = fr.block;
                    fr.block = *n;
                    fr.ip = 0;
                }
                match self.call(st, fid, av) {
                    Outs::None => return None,
                    Outs::One(s, v) => {
                        st = s;
                        if d != u32::MAX {
                            fr.regs[d as usize] = v;
                        }
                    }
                    Outs::Many(mut l) => {
                        let (s, v) = l.pop().unwrap();
                        for (s2, v2) in l {
                            let mut f2 = fr.clone();
                            if d != u32::MAX {
                                f2.regs[d as usize] = v2;
                            }
                            work.push((s2, f2));
                        }
                        st = s;
                        if d != u32::MAX {
                            fr.regs[d as usize] = v;
                        }
                    }
                }
                continue;
            }
            match self.step(&mut st, &mut fr, inst, work) {
                Step::Next => {}
                Step::Done(v) => return Some((st, v)),
                Step::Dead => return None,
            }
        }
    }

    fn limits(&mut self, st: &State) {
        if st.steps > self.cfg.max_steps {
            self.err("instruction bound of a path exceeded");
        }
        if self.t0.elapsed().as_secs_f64() > self.cfg.time_limit {
            self.stop = true;
            self.timed_out = true;
        }
    }

    fn branch(&mut self, st: &mut State, fr: &mut Frame, c: E, t: u32, f: u32, work: &mut Vec<(State, Frame)>) {
        let nc = mk_not(c);
        model_gen(&st.model);
        let cur = eval(c, &st.model) == 1;
        let (mine, other) = if cur { (c, nc) } else { (nc, c) };
        let r = self.sv.check(&st.pc, &st.model, other);
        let dest = |x: bool| if x { t } else { f };
        if let Some(m2) = r {
            let mut s2 = st.clone();
            s2.model = m2;
            s2.pc = s2.pc.push(other);
            s2.forks += 1;
            self.n_forks += 1;
            let mut f2 = fr.clone();
            f2.prev = f2.block;
            f2.block = dest(!cur);
            f2.ip = 0;
            work.push((s2, f2));
            st.pc = st.pc.push(mine);
            st.forks += 1;
        }
        fr.prev = fr.block;
        fr.block = dest(cur);
        fr.ip = 0;
    }

    fn step(&mut self, st: &mut State, fr: &mut Frame, inst: &Inst, work: &mut Vec<(State, Frame)>) -> Step {
        macro_rules! rf {
            ($o:expr) => {
                match $o {
                    Op::R(r) => &fr.regs[*r as usize],
                    Op::K(v) => v,
                }
            };
        }
        match inst {
            Inst::Bin { k, ty, a, b, d } => {
                let r = match ty {
                    Ty::I(n) => {
                        let (a, b) = (rf!(a), rf!(b));
                        if matches!(k, BinK::UDiv | BinK::SDiv | BinK::URem | BinK::SRem) {
                            let z = V::C(0);
                            let eqz = icmp_scalar(Cmp::Eq, *n, b, &z);
                            let bad = match eqz {
                                V::C(x) => x == 1,
                                V::S(e) => {
                                    let r = self.sv.check(&st.pc, &st.model, e);
                                    r.is_some()
                                }
                                _ => false,
                            };
                            if bad {
                                self.err("division by zero reached");
                            }
                        }
                        bin_scalar(*k, *n, a, b)
                    }
                    _ => map2(ty, rf!(a), rf!(b), &|n, x, y| bin_scalar(*k, n, x, y)),
                };
                fr.regs[*d as usize] = r;
            }
            Inst::Icmp { c, ty, a, b, d } => {
                let r = match ty {
                    Ty::I(n) => icmp_scalar(*c, *n, rf!(a), rf!(b)),
                    Ty::Ptr => icmp_scalar(*c, 64, rf!(a), rf!(b)),
                    _ => map2(ty, rf!(a), rf!(b), &|n, x, y| icmp_scalar(*c, n, x, y)),
                };
                fr.regs[*d as usize] = r;
            }
            Inst::Br(t) => {
                fr.prev = fr.block;
                fr.block = *t;
                fr.ip = 0;
                return Step::Next;
            }
            Inst::CondBr { c, t, f } => {
                match rf!(c) {
                    V::C(x) => {
                        fr.prev = fr.block;
                        fr.block = if *x == 1 { *t } else { *f };
                        fr.ip = 0;
                    }
                    V::S(e) => {
                        let e = *e;
                        self.branch(st, fr, e, *t, *f, work);
                    }
                    _ => self.err("branch on undef"),
                }
                return Step::Next;
            }
            Inst::Load { ty, p, d } => {
                let pv = rf!(p).clone();
                match pv {
                    V::C(a) => fr.regs[*d as usize] = self.load_c(st, a, ty),
                    V::S(e) => match self.load_sym(st, e, ty) {
                        Some(v) => fr.regs[*d as usize] = v,
                        None => {
                            let a = self.conc(st, fr, p, 64, work);
                            fr.regs[*d as usize] = self.load_c(st, a, ty);
                        }
                    },
                    _ => self.err("load from undef"),
                }
            }
            Inst::Store { ty, v, p } => {
                let a = match rf!(p) {
                    V::C(a) => *a,
                    _ => self.conc(st, fr, p, 64, work),
                };
                match v {
                    Op::R(r) => self.store_c(st, a, ty, &fr.regs[*r as usize]),
                    Op::K(v) => self.store_c(st, a, ty, v),
                }
            }
            Inst::Gep { p, off, idx, d } => {
                let base = rf!(p);
                let r = match base {
                    V::C(b) => {
                        let mut a = b.wrapping_add(*off as u64);
                        let mut sym: Option<E> = None;
                        for (o, bits, sc) in idx {
                            match rf!(o) {
                                V::C(i) => a = a.wrapping_add((sext64(*i, *bits).wrapping_mul(*sc)) as u64),
                                V::U => {}
                                V::S(e) => {
                                    let x = mk_mul(mk_sext(*e, 64), mk_const(64, *sc as u64 as u128));
                                    sym = Some(match sym {
                                        None => x,
                                        Some(y) => mk_add(x, y),
                                    });
                                }
                                _ => self.err("vector gep"),
                            }
                        }
                        match sym {
                            None => V::C(a),
                            Some(s) => from_e(mk_add(s, mk_const(64, a as u128))),
                        }
                    }
                    V::S(b) => {
                        let mut a = mk_add(*b, mk_const(64, *off as u64 as u128));
                        for (o, bits, sc) in idx {
                            let e = to_e(rf!(o), *bits);
                            let x = mk_mul(mk_sext(e, 64), mk_const(64, *sc as u64 as u128));
                            a = mk_add(a, x);
                        }
                        from_e(a)
                    }
                    V::U => V::U,
                    _ => self.err("vector gep base"),
                };
                fr.regs[*d as usize] = r;
            }
            Inst::Alloca { size, n, align, d } => {
                let n = self.conc(st, fr, n, 64, work);
                fr.regs[*d as usize] = V::C(st.push_stack((*size * n) as usize, *align));
            }
            Inst::Cast { k, from, a, to, d } => {
                let v = rf!(a);
                let r = match (from, to) {
                    (Ty::Vec(_, f), Ty::Vec(_, t)) if *k != CastK::Bit => {
                        let (fb, tb) = (f.bits(), t.bits());
                        match v {
                            V::A(x) => V::A(Rc::new(x.iter().map(|x| cast_scalar(*k, fb, tb, x)).collect())),
                            _ => V::U,
                        }
                    }
                    (Ty::Vec(..), _) | (_, Ty::Vec(..)) => from_bits(to_bits(v, from), to),
                    _ => cast_scalar(*k, from.bits(), to.bits(), v),
                };
                fr.regs[*d as usize] = r;
            }
            Inst::Select { cty, ty, c, a, b, d } => {
                let r = match cty {
                    Ty::Vec(n, _) => {
                        let (cv, av, bv) = (rf!(c), rf!(a), rf!(b));
                        let et = ty.field(0);
                        let z = V::C(0);
                        let g = |v: &V, i: usize| match v {
                            V::A(a) => a[i].clone(),
                            _ => z.clone(),
                        };
                        V::A(Rc::new((0..*n as usize).map(|i| ite_v(et, to_e(&g(cv, i), 1), &g(av, i), &g(bv, i))).collect()))
                    }
                    _ => match rf!(c) {
                        V::C(1) => rf!(a).clone(),
                        V::C(_) => rf!(b).clone(),
                        V::U => V::U,
                        V::S(e) => ite_v(ty, *e, rf!(a), rf!(b)),
                        _ => panic!(),
                    },
                };
                fr.regs[*d as usize] = r;
            }
            Inst::Switch { ty, v, def, cases } => {
                match rf!(v) {
                    V::C(x) => {
                        let x = *x as u128;
                        let t = cases.iter().find(|(k, _)| *k == x).map_or(*def, |(_, t)| *t);
                        fr.prev = fr.block;
                        fr.block = t;
                        fr.ip = 0;
                    }
                    V::W(x) => {
                        let t = cases.iter().find(|(k, _)| k == x).map_or(*def, |(_, t)| *t);
                        fr.prev = fr.block;
                        fr.block = t;
                        fr.ip = 0;
                    }
                    V::S(e) => {
                        let e = *e;
                        let bits = ty.bits() as u8;
                        // one group of cases at a time (same target): binary forks
                        let mut targets: Vec<u32> = vec![];
                        for (_, t) in cases {
                            if !targets.contains(t) && *t != *def {
                                targets.push(*t);
                            }
                        }
                        let mut conds: Vec<(E, u32)> = vec![];
                        for t in targets {
                            let mut c = ff();
                            for (k, t2) in cases {
                                if *t2 == t {
                                    c = mk_or(c, mk_eq(e, mk_const(bits, *k)));
                                }
                            }
                            conds.push((c, t));
                        }
                        // walk the chain
                        let mut done = false;
                        for (c, t) in conds {
                            if as_const(c) == Some(0) {
                                continue;
                            }
                            let nc = mk_not(c);
                            let yes = self.sv.check(&st.pc, &st.model, c);
                            let yes = match yes {
                                None => continue,
                                Some(m) => m,
                            };
                            match self.sv.check(&st.pc, &st.model, nc) {
                                None => {
                                    fr.prev = fr.block;
                                    fr.block = t;
                                    fr.ip = 0;
                                    st.model = yes;
                                    done = true;
                                    break;
                                }
                                Some(mn) => {
                                    let mut s2 = st.clone();
                                    s2.model = yes;
                                    s2.pc = s2.pc.push(c);
                                    self.n_forks += 1;
                                    let mut f2 = fr.clone();
                                    f2.prev = f2.block;
                                    f2.block = t;
                                    f2.ip = 0;
                                    work.push((s2, f2));
                                    st.model = mn;
                                    st.pc = st.pc.push(nc);
                                }
                            }
                        }
                        if !done {
                            fr.prev = fr.block;
                            fr.block = *def;
                            fr.ip = 0;
                        }
                    }
                    _ => self.err("switch on undef"),
                }
                return Step::Next;
            }
            Inst::Ret(ty, o) => {
                if *ty == Ty::Void {
                    return Step::Done(V::U);
                }
                return Step::Done(rf!(o).clone());
            }
            Inst::ExtractV { a, idx, d, .. } => {
                let mut v = rf!(a).clone();
                for i in idx {
                    v = match &v {
                        V::A(x) => x[*i as usize].clone(),
                        V::U => V::U,
                        _ => self.err("extractvalue"),
                    };
                }
                fr.regs[*d as usize] = v;
            }
            Inst::InsertV { ty, a, b, idx, d } => {
                let base = rf!(a).clone();
                let x = rf!(b).clone();
                fr.regs[*d as usize] = insert_v(ty, base, &x, idx);
            }
            Inst::ExtractE { a, i, d, .. } => {
                let i = self.conc(st, fr, i, 64, work);
                let v = match rf!(a) {
                    V::A(x) => x[i as usize].clone(),
                    _ => V::U,
                };
                fr.regs[*d as usize] = v;
            }
            Inst::InsertE { n, a, b, i, d, .. } => {
                let i = self.conc(st, fr, i, 64, work);
                let mut v = match rf!(a) {
                    V::A(x) => (**x).clone(),
                    _ => vec![V::U; *n as usize],
                };
                v[i as usize] = rf!(b).clone();
                fr.regs[*d as usize] = V::A(Rc::new(v));
            }
            Inst::Shuffle { n, a, b, m, d, .. } => {
                let n = *n as usize;
                let g = |v: &V, i: usize| match v {
                    V::A(a) => a[i].clone(),
                    _ => V::U,
                };
                let (av, bv) = (rf!(a), rf!(b));
                let r = m
                    .iter()
                    .map(|i| {
                        if *i < 0 {
                            V::U
                        } else if (*i as usize) < n {
                            g(av, *i as usize)
                        } else {
                            g(bv, *i as usize - n)
                        }
                    })
                    .collect();
                fr.regs[*d as usize] = V::A(Rc::new(r));
            }
            Inst::Rmw { op, ty, p, v, d } => {
                let a = self.conc(st, fr, p, 64, work);
                let old = self.load_c(st, a, ty);
                let x = match v {
                    Op::R(r) => fr.regs[*r as usize].clone(),
                    Op::K(v) => v.clone(),
                };
                let bits = ty.bits();
                let new = match &**op {
                    "xchg" => x,
                    "add" => bin_scalar(BinK::Add, bits, &old, &x),
                    "sub" => bin_scalar(BinK::Sub, bits, &old, &x),
                    "and" => bin_scalar(BinK::And, bits, &old, &x),
                    "or" => bin_scalar(BinK::Or, bits, &old, &x),
                    "xor" => bin_scalar(BinK::Xor, bits, &old, &x),
                    "umax" => ite_v(ty, to_e(&icmp_scalar(Cmp::Ugt, bits, &old, &x), 1), &old, &x),
                    "umin" => ite_v(ty, to_e(&icmp_scalar(Cmp::Ult, bits, &old, &x), 1), &old, &x),
                    o => self.err(&format!("atomicrmw {}", o)),
                };
                self.store_c(st, a, ty, &new);
                fr.regs[*d as usize] = old;
            }
            Inst::CmpXchg { ty, p, c, n, d } => {
                let a = self.conc(st, fr, p, 64, work);
                let old = self.load_c(st, a, ty);
                let bits = ty.bits();
                let eq = icmp_scalar(Cmp::Eq, bits, &old, rf!(c));
                let nv = rf!(n).clone();
                let new = ite_v(ty, to_e(&eq, 1), &nv, &old);
                self.store_c(st, a, ty, &new);
                fr.regs[*d as usize] = V::A(Rc::new(vec![old, eq]));
            }
            Inst::Freeze { a, d, .. } => {
                fr.regs[*d as usize] = match rf!(a) {
                    V::U => V::C(0),
                    v => v.clone(),
                };
            }
            Inst::Fcmp { c, ty: Ty::F64, a, b, d } if matches!((rf!(a), rf!(b)), (V::S(_), V::C(c)) if *c == f64::INFINITY.to_bits()) => {
                let e = to_e(rf!(a), 64);
                let r = if float_level(e).map_or(false, |l| l < 2) {
                    mk_bool(match &**c {
                        "one" | "olt" | "ole" | "une" | "ult" | "ule" => true,
                        "oeq" | "ogt" | "oge" | "ueq" | "ugt" | "uge" => false,
                        _ => self.err("symbolic floating point"),
                    })
                } else if vars_of(e) & float_bit() == 0 && &**c == "one" {
                    // neither +inf nor NaN
                    let inf = mk_const(64, f64::INFINITY.to_bits() as u128);
                    let m = mk_and(e, mk_const(64, (!0u64 >> 1) as u128));
                    mk_and(mk_not(mk_ult(inf, m)), mk_not(mk_eq(e, inf)))
                } else {
                    self.err(&format!("symbolic floating point {}", show(e, 5)))
                };
                fr.regs[*d as usize] = from_e(r);
            }
            Inst::Fcmp { c, ty, a, b, d } => {
                let (x, y) = (self.fl(rf!(a), ty), self.fl(rf!(b), ty));
                let un = x.is_nan() || y.is_nan();
                let r = match &**c {
                    "oeq" => x == y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "one" => !un && x != y,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || x == y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "une" => x != y,
                    o => self.err(&format!("fcmp {}", o)),
                };
                fr.regs[*d as usize] = V::C(r as u64);
            }
            Inst::Fbin { k, ty, a, b, d } if matches!(rf!(a), V::S(_)) || matches!(rf!(b), V::S(_)) => {
                let mag = |v: &V| match (v, ty) {
                    (V::S(e), Ty::F64) => float_mag(*e),
                    (V::C(c), Ty::F64) => float_mag(mk_const(64, *c as u128)),
                    _ => None,
                };
                let max = match (&**k, mag(rf!(a)), mag(rf!(b))) {
                    ("fmul", Some(x), Some(y)) => x.1 * y.1,
                    ("fdiv", Some(x), Some(y)) if y.0 > 0.0 => x.1 / y.0,
                    _ => f64::INFINITY,
                };
                let lvl = if max <= 1e20 {
                    0
                } else if max <= 1e300 {
                    1
                } else {
                    2
                };
                fr.regs[*d as usize] = opaque_float(ty, lvl);
            }
            Inst::Fneg { ty, a, d } if matches!(rf!(a), V::S(_)) => {
                let lvl = match rf!(a) {
                    V::S(e) => float_level(*e).unwrap_or(2),
                    _ => 2,
                };
                fr.regs[*d as usize] = opaque_float(ty, lvl);
            }
            Inst::Fbin { k, ty, a, b, d } => {
                let (x, y) = (self.fl(rf!(a), ty), self.fl(rf!(b), ty));
                let r = match &**k {
                    "fadd" => x + y,
                    "fsub" => x - y,
                    "fmul" => x * y,
                    "fdiv" => x / y,
                    _ => x % y,
                };
                fr.regs[*d as usize] = unfl(r, ty);
            }
            Inst::Fneg { ty, a, d } => {
                let x = self.fl(rf!(a), ty);
                fr.regs[*d as usize] = unfl(-x, ty);
            }
            Inst::Fcast { k, from, a, to, d } => {
                let r = match &**k {
                    "uitofp" => match as_c128(rf!(a)) {
                        Some(x) => unfl(x as f64, to),
                        None => opaque_float(to, 0),
                    },
                    "sitofp" => match as_c128(rf!(a)) {
                        Some(x) => unfl(sext64(x as u64, from.bits()) as f64, to),
                        None => opaque_float(to, 0),
                    },
                    "fptoui" => V::C((self.fl(rf!(a), from) as u64) & m64(to.bits())),
                    "fptosi" => V::C((self.fl(rf!(a), from) as i64 as u64) & m64(to.bits())),
                    _ => unfl(self.fl(rf!(a), from), to),
                };
                fr.regs[*d as usize] = r;
            }
            Inst::Unreachable => {
                // reached code the compiler proved unreachable: only after a diverging call
                self.err("unreachable executed");
            }
            Inst::Nop => {}
            Inst::Bad(s) => self.err(&format!("unsupported instruction: {}", s)),
            Inst::Call { .. } => unreachable!(),
        }
        fr.ip += 1;
        Step::Next
    }

    fn fl(&self, v: &V, ty: &Ty) -> f64 {
        match v {
            V::C(x) => match ty {
                Ty::F32 => f32::from_bits(*x as u32) as f64,
                _ => f64::from_bits(*x),
            },
            V::U => 0.0,
            _ => self.err("symbolic floating point"),
        }
    }

    // ------------------------------------------------------------ memory
    pub fn obj_name(&self, st: &State, a: u64) -> String {
        let id = (a >> 32) as u32;
        match st.obj(id) {
            Some(o) => {
                if o.name > 0 {
                    format!("{} size {}", self.m.glob_names[o.name as usize - 1], o.size())
                } else {
                    format!("object {:#x} size {}", id, o.size())
                }
            }
            None => format!("no object {:#x}", id),
        }
    }
    pub fn check_access(&self, st: &State, a: u64, n: usize) -> (u32, usize) {
        let id = (a >> 32) as u32;
        let off = a as u32 as usize;
        match st.obj(id) {
            Some(o) if off + n <= o.size() => (id, off),
            _ => self.err(&format!("invalid memory access at {:#x} length {} ({})", a, n, self.obj_name(st, a))),
        }
    }
    pub fn load_c(&self, st: &State, a: u64, ty: &Ty) -> V {
        if ty.scalar() {
            let n = ty.size() as usize;
            let id = (a >> 32) as u32;
            let off = a as u32 as usize;
            let o = match st.obj(id) {
                Some(o) if off + n <= o.size() => o,
                _ => self.err(&format!("invalid load at {:#x} length {} ({})", a, n, self.obj_name(st, a))),
            };
            let bits = ty.bits();
            if o.is_conc(off, n) {
                if n == 8 {
                    let mut b = [0u8; 8];
                    b.copy_from_slice(&o.data[off..off + 8]);
                    let v = u64::from_le_bytes(b);
                    return V::C(v & m64(bits));
                }
                let v = o.conc(off, n);
                if bits > 64 {
                    return V::W(v & mask(bits as u8));
                }
                return V::C(v as u64 & m64(bits));
            }
            let mut e = o.load_e(off, n);
            if (width(e) as u32) > bits {
                e = mk_extract(bits as u8 - 1, 0, e);
            }
            return from_e(e);
        }
        match ty {
            Ty::St(f, _) => V::A(Rc::new(f.iter().enumerate().map(|(i, t)| self.load_c(st, a + ty.field_off(i), t)).collect())),
            Ty::Arr(n, t) => V::A(Rc::new((0..*n).map(|i| self.load_c(st, a + i * t.alloc_size(), t)).collect())),
            Ty::Vec(n, t) => {
                if t.bits() % 8 != 0 {
                    let sz = ty.size() as usize;
                    let (id, off) = self.check_access(st, a, sz);
                    let e = st.obj(id).unwrap().load_e(off, sz);
                    return from_bits(mk_extract((*n as u32 * t.bits()) as u8 - 1, 0, e), ty);
                }
                V::A(Rc::new((0..*n).map(|i| self.load_c(st, a + i * t.size(), t)).collect()))
            }
            t => self.err(&format!("load of type {:?}", t)),
        }
    }
    pub fn store_c(&self, st: &mut State, a: u64, ty: &Ty, v: &V) {
        if ty.scalar() {
            let n = ty.size() as usize;
            let id = (a >> 32) as u32;
            let off = a as u32 as usize;
            let ok = match st.obj(id) {
                Some(o) => off + n <= o.size() && !o.ro,
                None => false,
            };
            if !ok {
                self.err(&format!("invalid store at {:#x} length {} ({})", a, n, self.obj_name(st, a)));
            }
            let o = st.obj_mut(id).unwrap();
            match v {
                V::C(c) => o.store_c(off, n, *c as u128),
                V::W(c) => o.store_c(off, n, *c),
                V::U => {}
                V::S(e) => {
                    let w = width(*e) as usize;
                    let e = if w < n * 8 { mk_zext(*e, (n * 8) as u8) } else { *e };
                    o.store_e(off, n, e);
                }
                V::A(_) => self.err("scalar store of aggregate"),
            }
            return;
        }
        if let V::U = v {
            return;
        }
        let parts = match v {
            V::A(p) => p,
            _ => self.err("aggregate store"),
        };
        match ty {
            Ty::St(f, _) => {
                for (i, t) in f.iter().enumerate() {
                    self.store_c(st, a + ty.field_off(i), t, &parts[i]);
                }
            }
            Ty::Arr(n, t) => {
                for i in 0..*n {
                    self.store_c(st, a + i * t.alloc_size(), t, &parts[i as usize]);
                }
            }
            Ty::Vec(n, t) => {
                if t.bits() % 8 != 0 {
                    let e = to_bits(v, ty);
                    let sz = ty.size() as usize;
                    let e = mk_zext(e, (sz * 8) as u8);
                    let (id, off) = self.check_access(st, a, sz);
                    st.obj_mut(id).unwrap().store_e(off, sz, e);
                    return;
                }
                for i in 0..*n {
                    self.store_c(st, a + i * t.size(), t, &parts[i as usize]);
                }
            }
            t => self.err(&format!("store of type {:?}", t)),
        }
    }

    /// load through a symbolic address without forking, when that is reasonable
    fn load_sym(&mut self, st: &State, e: E, ty: &Ty) -> Option<V> {
        if !ty.scalar() {
            return None;
        }
        let n = ty.size() as usize;
        let bits = ty.bits();
        let cl = node(e).cl;
        if cl > 1 && cl <= 5000 {
            // constant-leaf tree of addresses
            let mut bad: Vec<E> = vec![];
            let mut memo: FxMap<E, Option<E>> = Default::default();
            let me = &*self;
            let r = map_tree(e, &mut memo, &mut |l| {
                let a = as_const(l).unwrap() as u64;
                let (id, off) = ((a >> 32) as u32, a as u32 as usize);
                match st.obj(id) {
                    Some(o) if off + n <= o.size() => Some(to_e(&me.load_c(st, a, ty), bits)),
                    _ => {
                        bad.push(l);
                        None
                    }
                }
            });
            for l in bad {
                if self.sv.check(&st.pc, &st.model, mk_eq(e, l)).is_some() {
                    self.err(&format!("feasible invalid pointer {}", show(l, 2)));
                }
            }
            return r.map(from_e);
        }
        // one object, symbolic offset
        let nd = node(e);
        if nd.lo >> 32 != nd.hi >> 32 {
            return None;
        }
        let id = (nd.lo >> 32) as u32;
        let size = st.obj(id)?.size();
        let (lo, hi) = (nd.lo as u32 as usize, nd.hi as u32 as usize);
        let off = mk_extract(31, 0, e);
        if size < n {
            return None;
        }
        if hi + n > size {
            let c = mk_ult(mk_const(32, (size - n) as u128), off);
            if self.sv.check(&st.pc, &st.model, c).is_some() {
                self.err("symbolic load may be out of bounds");
            }
        }
        let hi = hi.min(size - n);
        let step = 1usize << tz(off).min(4);
        let start = (lo + step - 1) / step * step;
        if start > hi {
            return None;
        }
        let cnt = (hi - start) / step + 1;
        if cnt > 4096 {
            return None;
        }
        let mut vals: Vec<(usize, E)> = Vec::with_capacity(cnt);
        for k in 0..cnt {
            let o = start + k * step;
            let v = to_e(&self.load_c(st, addr_of(id) + o as u64, ty), bits);
            match vals.last() {
                Some((_, l)) if *l == v => {}
                _ => vals.push((o, v)),
            }
        }
        fn build(off: E, v: &[(usize, E)]) -> E {
            if v.len() == 1 {
                return v[0].1;
            }
            let m = v.len() / 2;
            let c = mk_ult(off, mk_const(32, v[m].0 as u128));
            let a = build(off, &v[..m]);
            let b = build(off, &v[m..]);
            mk_ite(c, a, b)
        }
        Some(from_e(build(off, &vals)))
    }

    pub fn memcpy(&self, st: &mut State, dst: u64, src: u64, n: usize) {
        if n == 0 || dst == src {
            return;
        }
        let (si, so) = self.check_access(st, src, n);
        let (di, dof) = self.check_access(st, dst, n);
        let s = st.obj(si).unwrap().clone();
        let d = st.obj_mut(di).unwrap();
        if d.ro {
            self.err("memcpy into constant");
        }
        d.data[dof..dof + n].copy_from_slice(&s.data[so..so + n]);
        match (&s.sym, &mut d.sym) {
            (None, None) => {}
            (None, Some(y)) => y[dof..dof + n].iter_mut().for_each(|e| *e = 0),
            (Some(x), y) => {
                let x = &x[so..so + n];
                if y.is_some() || x.iter().any(|e| *e != 0) {
                    let len = d.data.len();
                    let y = y.get_or_insert_with(|| vec![0; len]);
                    y[dof..dof + n].copy_from_slice(x);
                }
            }
        }
    }
    pub fn bytes(&self, st: &State, a: u64, n: usize) -> Vec<E> {
        if n == 0 {
            return vec![];
        }
        let (id, off) = self.check_access(st, a, n);
        let o = st.obj(id).unwrap();
        (0..n).map(|i| o.byte(off + i)).collect()
    }
    pub fn put_bytes(&self, st: &mut State, a: u64, b: &[E]) {
        if b.is_empty() {
            return;
        }
        let (id, off) = self.check_access(st, a, b.len());
        let o = st.obj_mut(id).unwrap();
        for (i, e) in b.iter().enumerate() {
            o.set_byte(off + i, *e);
        }
    }
    /// memcmp-like result as an i32 expression
    pub fn memcmp(&self, st: &State, a: u64, b: u64, n: usize, eq_only: bool) -> V {
        if n == 0 {
            return V::C(0);
        }
        let (ai, ao) = self.check_access(st, a, n);
        let (bi, bo) = self.check_access(st, b, n);
        let (x, y) = (st.obj(ai).unwrap(), st.obj(bi).unwrap());
        if x.is_conc(ao, n) && y.is_conc(bo, n) {
            let o = x.data[ao..ao + n].cmp(&y.data[bo..bo + n]);
            return V::C(o as i32 as u32 as u64);
        }
        if eq_only {
            let mut c = tt();
            for i in 0..n {
                c = mk_and(c, mk_eq(x.byte(ao + i), y.byte(bo + i)));
            }
            return from_e(mk_ite(c, mk_const(32, 0), mk_const(32, 1)));
        }
        let mut r = mk_const(32, 0);
        for i in (0..n).rev() {
            let (p, q) = (x.byte(ao + i), y.byte(bo + i));
            let ne = mk_ite(mk_ult(p, q), mk_const(32, 0xffff_ffff), mk_const(32, 1));
            r = mk_ite(mk_eq(p, q), r, ne);
        }
        from_e(r)
    }

    // ------------------------------------------------------------ intrinsics
    fn intrinsic(&mut self, st: &mut State, fr: &mut Frame, name: &str, args: &[(Ty, Op)], d: u32, work: &mut Vec<(State, Frame)>) -> Step {
        macro_rules! set {
            ($v:expr) => {{
                let v = $v;
                if d != u32::MAX {
                    fr.regs[d as usize] = v;
                }
            }};
        }
        let base = name.strip_prefix("llvm.").unwrap();
        if base.starts_with("lifetime.") || base.starts_with("dbg.") || base.starts_with("assume") || base.starts_with("experimental.noalias") || base.starts_with("x86.sse2.pause") || base.starts_with("prefetch") {
            return Step::Next;
        }
        if base.starts_with("memcpy.") || base.starts_with("memmove.") {
            let n = self.conc(st, fr, &args[2].1, 64, work) as usize;
            if n > 0 {
                let a = self.conc(st, fr, &args[0].1, 64, work);
                let b = self.conc(st, fr, &args[1].1, 64, work);
                self.memcpy(st, a, b, n);
            }
            return Step::Next;
        }
        if base.starts_with("memset.") {
            let n = self.conc(st, fr, &args[2].1, 64, work) as usize;
            if n > 0 {
                let a = self.conc(st, fr, &args[0].1, 64, work);
                let v = self.ev(fr, &args[1].1);
                let (id, off) = self.check_access(st, a, n);
                let o = st.obj_mut(id).unwrap();
                match v {
                    V::S(e) => {
                        for i in 0..n {
                            o.set_byte(off + i, e);
                        }
                    }
                    v => {
                        let c = as_c128(&v).unwrap() as u8;
                        o.data[off..off + n].iter_mut().for_each(|x| *x = c);
                        if let Some(s) = &mut o.sym {
                            s[off..off + n].iter_mut().for_each(|x| *x = 0);
                        }
                    }
                }
            }
            return Step::Next;
        }
        let a0 = || self.ev(fr, &args[0].1);
        if base.starts_with("expect.") || base.starts_with("threadlocal.address") {
            let v = a0();
            set!(v);
            return Step::Next;
        }
        if base.starts_with("is.constant") {
            set!(V::C(0));
            return Step::Next;
        }
        if base == "trap" || base == "ubsantrap" || base == "debugtrap" {
            let m = st.model.clone();
            self.report(st, &m, 9001, "panic", "llvm.trap reached".into());
            return Step::Dead;
        }
        if base.starts_with("fabs.") {
            let ty = &args[0].0;
            if let (V::S(e), Ty::F64) = (&a0(), ty) {
                let r = match float_level(*e) {
                    Some(l) => opaque_float(ty, l),
                    None if vars_of(*e) & float_bit() == 0 => from_e(mk_and(*e, mk_const(64, (!0u64 >> 1) as u128))),
                    None => self.err("symbolic floating point"),
                };
                set!(r);
                return Step::Next;
            }
            let x = self.fl(&a0(), ty);
            set!(unfl(x.abs(), ty));
            return Step::Next;
        }
        let (ty, x) = (args[0].0.clone(), a0());
        let y = if args.len() > 1 { self.ev(fr, &args[1].1) } else { V::U };
        let op = base.split('.').next().unwrap();
        let full: Vec<&str> = base.split('.').collect();
        if full.len() > 2 && full[1] == "with" {
            let bits = ty.bits();
            let (k, signed) = match op {
                "uadd" => (BinK::Add, false),
                "usub" => (BinK::Sub, false),
                "umul" => (BinK::Mul, false),
                "sadd" => (BinK::Add, true),
                "ssub" => (BinK::Sub, true),
                "smul" => (BinK::Mul, true),
                _ => self.err(name),
            };
            let r = bin_scalar(k, bits, &x, &y);
            let ov: V = if let (Some(p), Some(q)) = (as_c128(&x), as_c128(&y)) {
                let o = if bits <= 64 {
                    if signed {
                        let (p, q) = (sext64(p as u64, bits) as i128, sext64(q as u64, bits) as i128);
                        let t = match k {
                            BinK::Add => p + q,
                            BinK::Sub => p - q,
                            _ => p * q,
                        };
                        t < -(1i128 << (bits - 1)) || t >= 1i128 << (bits - 1)
                    } else {
                        match k {
                            BinK::Add => p + q > mask(bits as u8),
                            BinK::Sub => p < q,
                            _ => p * q > mask(bits as u8),
                        }
                    }
                } else {
                    let (ps, qs) = (p as i128, q as i128);
                    match (k, signed) {
                        (BinK::Add, false) => p.checked_add(q).is_none(),
                        (BinK::Sub, false) => p < q,
                        (BinK::Mul, false) => p.checked_mul(q).is_none(),
                        (BinK::Add, true) => ps.checked_add(qs).is_none(),
                        (BinK::Sub, true) => ps.checked_sub(qs).is_none(),
                        _ => ps.checked_mul(qs).is_none(),
                    }
                };
                V::C(o as u64)
            } else {
                let (p, q) = (to_e(&x, bits), to_e(&y, bits));
                let re = to_e(&r, bits);
                let o = match (k, signed) {
                    (BinK::Add, false) => mk_ult(re, p),
                    (BinK::Sub, false) => mk_ult(p, q),
                    (BinK::Mul, false) => {
                        let w = (bits * 2).min(128) as u8;
                        let t = mk_mul(mk_zext(p, w), mk_zext(q, w));
                        mk_ult(mk_const(w, mask(bits as u8)), t)
                    }
                    (BinK::Mul, true) => {
                        let w = (bits * 2).min(128) as u8;
                        let t = mk_mul(mk_sext(p, w), mk_sext(q, w));
                        mk_not(mk_eq(t, mk_sext(re, w)))
                    }
                    _ => {
                        let w = (bits + 1) as u8;
                        let (p, q) = (mk_sext(p, w), mk_sext(q, w));
                        let t = if k == BinK::Add { mk_add(p, q) } else { mk_sub(p, q) };
                        mk_not(mk_eq(t, mk_sext(re, w)))
                    }
                };
                from_e(o)
            };
            set!(V::A(Rc::new(vec![r, ov])));
            return Step::Next;
        }
        let f2: Option<Box<dyn Fn(u32, &V, &V) -> V>> = match op {
            "umax" => Some(Box::new(|b, x, y| ite_v(&Ty::I(b), to_e(&icmp_scalar(Cmp::Ugt, b, x, y), 1), x, y))),
            "umin" => Some(Box::new(|b, x, y| ite_v(&Ty::I(b), to_e(&icmp_scalar(Cmp::Ult, b, x, y), 1), x, y))),
            "smax" => Some(Box::new(|b, x, y| ite_v(&Ty::I(b), to_e(&icmp_scalar(Cmp::Sgt, b, x, y), 1), x, y))),
            "smin" => Some(Box::new(|b, x, y| ite_v(&Ty::I(b), to_e(&icmp_scalar(Cmp::Slt, b, x, y), 1), x, y))),
            "uadd" => Some(Box::new(|b, x, y| {
                let s = bin_scalar(BinK::Add, b, x, y);
                let o = icmp_scalar(Cmp::Ult, b, &s, x);
                ite_v(&Ty::I(b), to_e(&o, 1), &from_e(mk_const(b as u8, mask(b as u8))), &s)
            })),
            "usub" => Some(Box::new(|b, x, y| {
                let s = bin_scalar(BinK::Sub, b, x, y);
                let o = icmp_scalar(Cmp::Ult, b, x, y);
                ite_v(&Ty::I(b), to_e(&o, 1), &V::C(0), &s)
            })),
            _ => None,
        };
        if let Some(f) = f2 {
            set!(map2(&ty, &x, &y, &*f));
            return Step::Next;
        }
        match op {
            "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" | "abs" => {
                let n = ty.bits();
                if let Some(c) = as_c128(&x) {
                    let r: u128 = match op {
                        "ctpop" => c.count_ones() as u128,
                        "ctlz" => (c.leading_zeros() - (128 - n)) as u128,
                        "cttz" => (c.trailing_zeros().min(n)) as u128,
                        "bswap" => c.swap_bytes() >> (128 - n),
                        "bitreverse" => c.reverse_bits() >> (128 - n),
                        _ => {
                            let s = ((c << (128 - n)) as i128) >> (128 - n);
                            s.wrapping_abs() as u128 & mask(n as u8)
                        }
                    };
                    set!(if n > 64 { V::W(r) } else { V::C(r as u64) });
                } else {
                    let e = to_e(&x, n);
                    let b = |i: u32| mk_extract(i as u8, i as u8, e);
                    let k = |v: u128| mk_const(n as u8, v);
                    let r = match op {
                        "ctpop" => {
                            let mut s = k(0);
                            for i in 0..n {
                                s = mk_add(s, mk_zext(b(i), n as u8));
                            }
                            s
                        }
                        "cttz" => {
                            let mut s = k(n as u128);
                            for i in (0..n).rev() {
                                s = mk_ite(b(i), k(i as u128), s);
                            }
                            s
                        }
                        "ctlz" => {
                            let mut s = k(n as u128);
                            for i in 0..n {
                                s = mk_ite(b(i), k((n - 1 - i) as u128), s);
                            }
                            s
                        }
                        "bswap" => {
                            let mut s = mk_extract(7, 0, e);
                            for i in 1..n / 8 {
                                s = mk_concat(s, mk_extract((8 * i + 7) as u8, (8 * i) as u8, e));
                            }
                            s
                        }
                        "bitreverse" => {
                            let mut s = b(0);
                            for i in 1..n {
                                s = mk_concat(s, b(i));
                            }
                            s
                        }
                        _ => mk_ite(mk_slt(e, k(0)), mk_neg(e), e),
                    };
                    set!(from_e(r));
                }
            }
            "scmp" | "ucmp" => {
                let rb: u32 = 8;
                let b = ty.bits();
                let (lt, eq) = (icmp_scalar(if op == "scmp" { Cmp::Slt } else { Cmp::Ult }, b, &x, &y), icmp_scalar(Cmp::Eq, b, &x, &y));
                let r = mk_ite(to_e(&eq, 1), mk_const(rb as u8, 0), mk_ite(to_e(&lt, 1), mk_const(rb as u8, 0xff), mk_const(rb as u8, 1)));
                if full[1] != "i8" {
                    self.err(name);
                }
                set!(from_e(r));
            }
            "fshl" | "fshr" => {
                let n = ty.bits();
                let s = self.conc(st, fr, &args[2].1, n, work) as u32 % n;
                let (p, q) = (to_e(&x, n), to_e(&y, n));
                let (p, q, s) = if op == "fshl" { (p, q, s) } else { (p, q, n - s) };
                let r = if s == 0 {
                    p
                } else if s == n {
                    q
                } else {
                    mk_concat(mk_extract((n - s - 1) as u8, 0, p), mk_extract((n - 1) as u8, (n - s) as u8, q))
                };
                set!(from_e(r));
            }
            "vector" => {
                let (n, et) = match &ty {
                    Ty::Vec(n, t) => (*n as usize, (**t).clone()),
                    _ => self.err(name),
                };
                let b = et.bits();
                let g = |i: usize| match &x {
                    V::A(a) => a[i].clone(),
                    _ => V::C(0),
                };
                let mut acc = g(0);
                for i in 1..n {
                    acc = match full[2] {
                        "add" => bin_scalar(BinK::Add, b, &acc, &g(i)),
                        "or" => bin_scalar(BinK::Or, b, &acc, &g(i)),
                        "and" => bin_scalar(BinK::And, b, &acc, &g(i)),
                        "xor" => bin_scalar(BinK::Xor, b, &acc, &g(i)),
                        _ => self.err(name),
                    };
                }
                set!(acc);
            }
            _ => self.err(&format!("unsupported intrinsic {}", name)),
        }
        Step::Next
    }

    // ------------------------------------------------------------ merging
    fn merge_outs(&mut self, entry: &Pc, ret: &Ty, outs: Vec<(State, V)>) -> Vec<(State, V)> {
        if outs.len() > 3000 {
            return outs;
        }
        // group by environment
        let mut groups: Vec<Vec<(State, V)>> = Vec::new();
        'o: for (s, v) in outs {
            for g in groups.iter_mut() {
                if Rc::ptr_eq(&g[0].0.env, &s.env) || *g[0].0.env == *s.env {
                    g.push((s, v));
                    continue 'o;
                }
            }
            groups.push(vec![(s, v)]);
        }
        let mut res = Vec::new();
        for g in groups {
            if g.len() == 1 {
                res.extend(g);
                continue;
            }
            let mut items = Vec::with_capacity(g.len());
            let mut ok = true;
            let mut deltas = Vec::new();
            for (s, _) in &g {
                match s.pc.since(entry) {
                    Some(d) => deltas.push(d),
                    None => {
                        ok = false;
                        break;
                    }
                }
            }
            if !ok {
                res.extend(g);
                continue;
            }
            for ((s, v), d) in g.into_iter().zip(deltas) {
                items.push((d, s, v));
            }
            let n = items.len();
            let m = self.merge_rec(items, 0, ret);
            let _ = n;
            for (gd, mut s, v, orig) in m {
                if !orig {
                    s.pc = entry.push(gd);
                }
                res.push((s, v));
            }
        }
        res
    }
    /// returns (guard relative to depth, state, value, untouched)
    fn merge_rec(&mut self, mut items: Vec<(Vec<E>, State, V)>, d: usize, ret: &Ty) -> Vec<(E, State, V, bool)> {
        let conj = |v: &[E]| v.iter().rev().fold(tt(), |a, c| mk_and(*c, a));
        if items.len() == 1 {
            let (dl, s, v) = items.pop().unwrap();
            return vec![(conj(&dl[d..]), s, v, true)];
        }
        if items.iter().any(|x| x.0.len() <= d) {
            // not exclusive: leave alone
            return items.into_iter().map(|(dl, s, v)| (conj(&dl[d.min(dl.len())..]), s, v, true)).collect();
        }
        // skip a common prefix
        let c = items[0].0[d];
        if items.iter().all(|x| x.0[d] == c) {
            let r = self.merge_rec(items, d + 1, ret);
            return r.into_iter().map(|(g, s, v, o)| (mk_and(c, g), s, v, o)).collect();
        }
        let nc = mk_not(c);
        let (mut l, mut r, mut rest) = (vec![], vec![], vec![]);
        for it in items {
            if it.0[d] == c {
                l.push(it)
            } else if it.0[d] == nc {
                r.push(it)
            } else {
                rest.push(it)
            }
        }
        let lm = self.merge_rec(l, d + 1, ret);
        let mut rm: Vec<Option<(E, State, V, bool)>> = if r.is_empty() { vec![] } else { self.merge_rec(r, d + 1, ret).into_iter().map(Some).collect() };
        let mut out = Vec::new();
        let sibling_ok = lm.len() * rm.len() <= 4096;
        for (gl, sl, vl, ol) in lm {
            let mut cur = Some((sl, vl));
            if sibling_ok {
                for slot in rm.iter_mut() {
                    if let Some((gr, sr, vr, or)) = slot.take() {
                        let (sl, vl) = cur.take().unwrap();
                        match self.try_merge(c, sl, vl, sr, vr, ret) {
                            Ok((s, v)) => {
                                out.push((mk_ite(c, gl, gr), s, v, false));
                                break;
                            }
                            Err((sl, vl, sr, vr)) => {
                                cur = Some((sl, vl));
                                *slot = Some((gr, sr, vr, or));
                            }
                        }
                    }
                }
            }
            if let Some((s, v)) = cur {
                out.push((mk_and(c, gl), s, v, ol));
            }
        }
        for x in rm.into_iter().flatten() {
            out.push((mk_and(nc, x.0), x.1, x.2, x.3));
        }
        if !rest.is_empty() {
            let rr = self.merge_rec(rest, d, ret);
            out.extend(rr);
        }
        out
    }

    fn try_merge(&mut self, c: E, a: State, va: V, b: State, vb: V, ret: &Ty) -> Result<(State, V), (State, V, State, V)> {
        let v = match merge_v(ret, c, &va, &vb) {
            Some(v) => v,
            None => return Err((a, va, b, vb)),
        };
        let (ch_stack, ch_tbl) = match diff_states(c, &a, &b) {
            Some(x) => x,
            None => return Err((a, va, b, vb)),
        };
        let mut s = a;
        for (i, o) in ch_stack {
            s.stack[i] = Rc::new(o);
        }
        for (h, i, o) in ch_tbl {
            if h {
                s.heap.set(i, Some(Rc::new(o)));
            } else {
                s.glob.set(i, Some(Rc::new(o)));
            }
        }
        s.next_heap = s.next_heap.max(b.next_heap);
        s.steps = s.steps.max(b.steps);
        s.forks = s.forks.max(b.forks);
        Ok((s, v))
    }
}

fn merge_v(ty: &Ty, c: E, a: &V, b: &V) -> Option<V> {
    match (a, b) {
        (V::U, x) | (x, V::U) => return Some(x.clone()),
        (V::C(x), V::C(y)) => {
            if x == y {
                return Some(a.clone());
            }
            match ty {
                Ty::I(n) if *n > 32 => return None,
                Ty::F32 | Ty::F64 => return None,
                _ => {}
            }
        }
        (V::W(x), V::W(y)) => {
            if x == y {
                return Some(a.clone());
            }
            return None;
        }
        (V::S(x), V::S(y)) if x == y => return Some(a.clone()),
        (V::A(x), V::A(y)) => {
            let mut r = Vec::with_capacity(x.len());
            for i in 0..x.len() {
                r.push(merge_v(ty.field(i), c, &x[i], &y[i])?);
            }
            return Some(V::A(Rc::new(r)));
        }
        _ => {}
    }
    let bits = ty.bits();
    let (x, y) = (to_e(a, bits), to_e(b, bits));
    if bits > 8 && !one_var(vars_of(c) | vars_of(x) | vars_of(y)) {
        return None;
    }
    let e = mk_ite(c, x, y);
    let n = node(e).cl;
    if n > 1500 {
        return None;
    }
    Some(from_e(e))
}
/// merged data may depend on one variable only: values mixing variables are better kept as separate paths
fn one_var(v: u128) -> bool {
    MIX.load(std::sync::atomic::Ordering::Relaxed) || v & v.wrapping_sub(1) == 0
}
pub static MIX: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// None: not mergeable; Some(None): equal contents
fn merge_obj(c: E, a: &Obj, b: &Obj) -> Option<Option<Obj>> {
    if a.size() != b.size() || a.align != b.align {
        return None;
    }
    let n = a.size();
    let same_sym = match (&a.sym, &b.sym) {
        (None, None) => true,
        (Some(x), Some(y)) => x == y,
        _ => false,
    };
    if same_sym && a.data == b.data {
        return Some(None);
    }
    if n > 1 << 20 {
        return None;
    }
    if a.align >= 8 {
        let mut i = 0;
        while i + 8 <= n {
            if a.data[i..i + 8] != b.data[i..i + 8] && a.is_conc(i, 8) && b.is_conc(i, 8) {
                return None;
            }
            i += 8;
        }
    }
    let mut r = a.clone();
    let mut i = 0;
    while i < n {
        let (x, y) = (a.byte(i), b.byte(i));
        if x != y {
            if !one_var(vars_of(c) | vars_of(x) | vars_of(y)) {
                return None;
            }
            r.set_byte(i, mk_ite(c, x, y));
        }
        i += 1;
    }
    Some(Some(r))
}
fn insert_v(ty: &Ty, base: V, x: &V, idx: &[u32]) -> V {
    if idx.is_empty() {
        return x.clone();
    }
    let n = match ty {
        Ty::St(f, _) => f.len(),
        Ty::Arr(n, _) => *n as usize,
        _ => panic!("insertvalue"),
    };
    let mut parts = match base {
        V::A(p) => (*p).clone(),
        _ => vec![V::U; n],
    };
    let i = idx[0] as usize;
    let old = std::mem::replace(&mut parts[i], V::U);
    parts[i] = insert_v(ty.field(i), old, x, &idx[1..]);
    V::A(Rc::new(parts))
}
/// floats computed from symbolic values: 0 is an integer of 64 bits, 1 is
/// finite, 2 is unknown
fn opaque_float(ty: &Ty, lvl: u32) -> V {
    match ty {
        Ty::F32 => V::S(mk_extract(31, 0, float_var(2))),
        _ => V::S(float_var(lvl)),
    }
}
fn float_level(e: E) -> Option<u32> {
    if vars_of(e) & float_bit() == 0 && as_const(e).is_none() {
        return None;
    }
    Some(match float_mag(e) {
        Some(m) if m.1 <= 1e20 => 0,
        Some(m) if m.1 <= 1e300 => 1,
        _ => 2,
    })
}
/// bounds of the absolute value
fn float_mag(e: E) -> Option<(f64, f64)> {
    if let Some(c) = as_const(e) {
        let f = f64::from_bits(c as u64).abs();
        return if f.is_nan() { None } else { Some((f, f)) };
    }
    if let Some(l) = branches(e) {
        let mut r = (f64::INFINITY, 0.0f64);
        for x in l {
            let m = float_mag(x)?;
            r = (r.0.min(m.0), r.1.max(m.1));
        }
        return Some(r);
    }
    match (0..3).find(|l| float_var(*l) == e) {
        Some(0) => Some((0.0, 1e20)),
        Some(1) => Some((0.0, 1e300)),
        _ => None,
    }
}
fn unfl(x: f64, ty: &Ty) -> V {
    match ty {
        Ty::F32 => V::C((x as f32).to_bits() as u64),
        _ => V::C(x.to_bits()),
    }
}

/// readable form of a v0-mangled name: the identifiers in it
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i < 16 {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if k > 0 && j + k <= b.len() && b[j..j + k].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') {
                out.push(n[j..j + k].to_string());
                i = j + k;
                continue;
            }
        }
        if b[i] == b'B' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i < 6 {
                i = j + 1;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}

/// objects that differ, merged under `c`; None when the states cannot be merged
fn diff_states(c: E, a: &State, b: &State) -> Option<(Vec<(usize, Obj)>, Vec<(bool, u32, Obj)>)> {
        if a.stack.len() != b.stack.len() {
            return None;
        }
        // collect the differing objects
        let mut ch_stack: Vec<(usize, Obj)> = vec![];
        for i in 0..a.stack.len() {
            if Rc::ptr_eq(&a.stack[i], &b.stack[i]) {
                continue;
            }
            match merge_obj(c, &a.stack[i], &b.stack[i]) {
                None => return None,
                Some(None) => {}
                Some(Some(o)) => ch_stack.push((i, o)),
            }
        }
        let mut ch_tbl: Vec<(bool, u32, Obj)> = vec![];
        for (heap, ta, tb) in [(true, &a.heap, &b.heap), (false, &a.glob, &b.glob)] {
            let n = ta.c.len().max(tb.c.len());
            for k in 0..n {
                let (x, y) = (ta.c.get(k).and_then(|x| x.as_ref()), tb.c.get(k).and_then(|x| x.as_ref()));
                match (x, y) {
                    (None, None) => {}
                    (Some(x), Some(y)) => {
                        if Rc::ptr_eq(x, y) {
                            continue;
                        }
                        for j in 0..CH {
                            match (&x.o[j], &y.o[j]) {
                                (None, None) => {}
                                (Some(p), Some(q)) => {
                                    if Rc::ptr_eq(p, q) {
                                        continue;
                                    }
                                    match merge_obj(c, p, q) {
                                        None => return None,
                                        Some(None) => {}
                                        Some(Some(o)) => ch_tbl.push((heap, (k * CH + j) as u32, o)),
                                    }
                                }
                                _ => return None,
                            }
                        }
                    }
                    _ => return None,
                }
            }
        }
        Some((ch_stack, ch_tbl))
}

/// debugging aid: with SXWATCH=id=value,... every merge is compared with the
/// unmerged states under that assignment
pub mod watch {
    use super::*;
    fn model() -> Option<Vec<u128>> {
        thread_local!(static W: Option<FxMap<u32, u128>> = std::env::var("SXWATCH").ok().map(|s| {
            s.split(',').map(|x| { let (a, b) = x.split_once('=').unwrap(); (a.parse().unwrap(), b.parse().unwrap()) }).collect()
        }));
        W.with(|w| w.as_ref().map(|w| ar().vars.iter().map(|v| *w.get(&v.id).unwrap_or(&v.lo)).collect()))
    }
    fn pc_true(pc: &Pc, m: &[u128]) -> bool {
        let mut p = pc.clone();
        while let Some(n) = p.0.clone() {
            if eval(n.cond, m) == 0 {
                return false;
            }
            p = n.parent.clone();
        }
        true
    }
    fn dump(s: &State, v: &V, m: &[u128]) -> (Vec<String>, String) {
        let mut o = vec![];
        let ob = |x: &Obj| { let mut r = String::new(); for i in 0..x.size().min(4096) { r.push_str(&format!("{:02x}", eval(x.byte(i), m))); } r };
        for (i, x) in s.stack.iter().enumerate() {
            o.push(format!("stack {} {}", i, ob(x)));
        }
        for (h, t) in [("heap", &s.heap), ("glob", &s.glob)] {
            for (k, c) in t.c.iter().enumerate() {
                if let Some(c) = c {
                    for j in 0..CH {
                        if let Some(x) = &c.o[j] {
                            if h == "heap" {
                                o.push(format!("{} {} {}", h, k * CH + j, ob(x)));
                            }
                        }
                    }
                }
            }
        }
        let vs = match v { V::S(e) => format!("{:x}", eval(*e, m)), V::C(x) => format!("{:x}", x), V::A(_) => "A".into(), _ => "?".into() };
        (o, vs)
    }
    pub fn snap(all: &[(State, V)]) -> Option<Vec<(Vec<String>, String)>> {
        let m = model()?;
        crate::z3::fresh_gen();
        let r = Some(all.iter().filter(|x| pc_true(&x.0.pc, &m)).map(|x| dump(&x.0, &x.1, &m)).collect());
        crate::z3::fresh_gen();
        r
    }
    pub fn compare(w: &[(Vec<String>, String)], all: &[(State, V)], f: &str) {
        let m = model().unwrap();
        crate::z3::fresh_gen();
        let n: Vec<_> = all.iter().filter(|x| pc_true(&x.0.pc, &m)).map(|x| dump(&x.0, &x.1, &m)).collect();
        crate::z3::fresh_gen();
        if w.len() != n.len() || w.len() > 1 {
            eprintln!("WATCH {}: {} -> {} states", f, w.len(), n.len());
        }
        if w.len() == 1 && n.len() == 1 {
            if w[0].1 != n[0].1 {
                eprintln!("WATCH {}: value {} -> {}", f, w[0].1, n[0].1);
            }
            for (a, b) in w[0].0.iter().zip(&n[0].0) {
                if a != b {
                    eprintln!("WATCH {}: object\n  {}\n  {}", f, a, b);
                }
            }
        }
    }
}
