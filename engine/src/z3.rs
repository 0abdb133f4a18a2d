//! Thin binding to the system libz3 plus query slicing and caching.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, l: P, r: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error code {}", e);
    std::process::abort();
}

pub type Model = Rc<Vec<u128>>;

#[derive(Default, Clone)]
pub struct Stats {
    pub z3_queries: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub cache_hits: u64,
    pub guessed: u64,
    pub folded: u64,
    pub pooled: u64,
    pub local: u64,
    pub dom_sat: u64,
    pub dom_unsat: u64,
    pub z3_ms: f64,
}

pub struct Solver {
    c: P,
    s: P,
    bv: Vec<P>,
    bo: Vec<P>,
    cache: HashMap<Vec<E>, Option<Rc<Vec<(u32, u128)>>>>,
    pub st: Stats,
    pool: Vec<Model>,
    pub var_ranges_done: usize,
    /// the last query was not decided within the solver's time limit
    pub gave_up: bool,
    given_up: std::collections::HashSet<Vec<E>>,
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let logic = CString::new("QF_BV").unwrap();
            
            
            let s = if std::env::var("SXQ").is_ok() { Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, logic.as_ptr())) } else { Z3_mk_simple_solver(c) };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Solver { c, s, bv: Vec::new(), bo: Vec::new(), cache: HashMap::new(), st: Stats::default(), pool: vec![], var_ranges_done: 0, gave_up: false, given_up: Default::default() }
        }
    }

    fn num(&self, v: u128, w: u8) -> P {
        unsafe {
            let so = Z3_mk_bv_sort(self.c, w as c_uint);
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, v as u64, so)
            } else {
                let s = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), so)
            }
        }
    }

    fn slot(v: &mut Vec<P>, e: E) -> &mut P {
        if v.len() <= e as usize {
            v.resize(e as usize + 1024, std::ptr::null_mut());
        }
        &mut v[e as usize]
    }

    /// Z3 Bool for a width-1 expression
    pub fn to_bool(&mut self, e: E) -> P {
        let p = *Self::slot(&mut self.bo, e);
        if !p.is_null() {
            return p;
        }
        let c = self.c;
        let nd = node(e);
        debug_assert_eq!(nd.w, 1);
        let r = unsafe {
            match nd.n {
                N::Const(1) => Z3_mk_true(c),
                N::Const(_) => Z3_mk_false(c),
                N::Not(x) => {
                    let x = self.to_bool(x);
                    Z3_mk_not(c, x)
                }
                N::Ite(a, x, y) => {
                    let (a, x, y) = (self.to_bool(a), self.to_bool(x), self.to_bool(y));
                    Z3_mk_ite(c, a, x, y)
                }
                N::Pw(i) => {
                    let d = &ar().pws[i as usize];
                    self.pw_tree(d, 0, d.leaves.len(), true)
                }
                N::Bin(Op2::And, x, y) => {
                    let v = [self.to_bool(x), self.to_bool(y)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                N::Bin(Op2::Or, x, y) => {
                    let v = [self.to_bool(x), self.to_bool(y)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                N::Bin(Op2::Xor, x, y) => {
                    let (x, y) = (self.to_bool(x), self.to_bool(y));
                    Z3_mk_xor(c, x, y)
                }
                N::Bin(Op2::Eq, x, y) => {
                    let (x, y) = (self.to_bv(x), self.to_bv(y));
                    Z3_mk_eq(c, x, y)
                }
                N::Bin(Op2::Ult, x, y) => {
                    let (x, y) = (self.to_bv(x), self.to_bv(y));
                    Z3_mk_bvult(c, x, y)
                }
                N::Bin(Op2::Slt, x, y) => {
                    let (x, y) = (self.to_bv(x), self.to_bv(y));
                    Z3_mk_bvslt(c, x, y)
                }
                _ => {
                    let b = self.to_bv(e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, b, one)
                }
            }
        };
        *Self::slot(&mut self.bo, e) = r;
        r
    }

    pub fn to_bv(&mut self, e: E) -> P {
        let p = *Self::slot(&mut self.bv, e);
        if !p.is_null() {
            return p;
        }
        let c = self.c;
        let nd = node(e);
        let w = nd.w;
        let pred = w == 1
            && matches!(
                nd.n,
                N::Not(_)
                    | N::Ite(..)
                    | N::Pw(_)
                    | N::Bin(Op2::Eq, ..)
                    | N::Bin(Op2::Ult, ..)
                    | N::Bin(Op2::Slt, ..)
                    | N::Bin(Op2::And, ..)
                    | N::Bin(Op2::Or, ..)
                    | N::Bin(Op2::Xor, ..)
            );
        let r = unsafe {
            if pred {
                let b = self.to_bool(e);
                let (o, z) = (self.num(1, 1), self.num(0, 1));
                Z3_mk_ite(c, b, o, z)
            } else {
                match nd.n {
                    N::Const(v) => self.num(v, w),
                    N::Var(i) => {
                        let s = CString::new(format!("v{}", ar().vars[i as usize].id)).unwrap();
                        Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, w as c_uint))
                    }
                    N::Not(x) => {
                        let x = self.to_bv(x);
                        Z3_mk_bvnot(c, x)
                    }
                    N::Extract(h, l, x) => {
                        let x = self.to_bv(x);
                        Z3_mk_extract(c, h as c_uint, l as c_uint, x)
                    }
                    N::Pw(i) => {
                        let d = &ar().pws[i as usize];
                        self.pw_tree(d, 0, d.leaves.len(), false)
                    }
                    N::SExt(x) => {
                        let xw = width(x);
                        let x = self.to_bv(x);
                        Z3_mk_sign_ext(c, (w - xw) as c_uint, x)
                    }
                    N::Ite(a, x, y) => {
                        let a = self.to_bool(a);
                        let (x, y) = (self.to_bv(x), self.to_bv(y));
                        Z3_mk_ite(c, a, x, y)
                    }
                    N::Bin(op, x, y) => {
                        let (x, y) = (self.to_bv(x), self.to_bv(y));
                        match op {
                            Op2::And => Z3_mk_bvand(c, x, y),
                            Op2::Or => Z3_mk_bvor(c, x, y),
                            Op2::Xor => Z3_mk_bvxor(c, x, y),
                            Op2::Add => Z3_mk_bvadd(c, x, y),
                            Op2::Mul => Z3_mk_bvmul(c, x, y),
                            Op2::UDiv => Z3_mk_bvudiv(c, x, y),
                            Op2::URem => Z3_mk_bvurem(c, x, y),
                            Op2::SDiv => Z3_mk_bvsdiv(c, x, y),
                            Op2::SRem => Z3_mk_bvsrem(c, x, y),
                            Op2::Shl => Z3_mk_bvshl(c, x, y),
                            Op2::LShr => Z3_mk_bvlshr(c, x, y),
                            Op2::AShr => Z3_mk_bvashr(c, x, y),
                            Op2::Concat => Z3_mk_concat(c, x, y),
                            _ => unreachable!(),
                        }
                    }
                }
            }
        };
        *Self::slot(&mut self.bv, e) = r;
        r
    }

    fn pw_tree(&mut self, d: &PwD, a: usize, b: usize, boolean: bool) -> P {
        if b - a == 1 {
            return if boolean { self.to_bool(d.leaves[a]) } else { self.to_bv(d.leaves[a]) };
        }
        let m = (a + b) / 2;
        let x = self.pw_tree(d, a, m, boolean);
        let y = self.pw_tree(d, m, b, boolean);
        let v = self.var_ast(d.var);
        let k = self.num(d.starts[m] as u128, ar().vars[d.var as usize].w);
        unsafe { Z3_mk_ite(self.c, Z3_mk_bvult(self.c, v, k), x, y) }
    }

    /// satisfiability of the conjunction; on sat the values of all variables occurring in it
    fn raw(&mut self, conj: &[E]) -> Option<Rc<Vec<(u32, u128)>>> {
        let t0 = Instant::now();
        let mut vars = 0u128;
        let asts: Vec<P> = conj
            .iter()
            .map(|e| {
                vars |= vars_of(*e);
                self.to_bool(*e)
            })
            .collect();
        let c = self.c;
        let mut out = None;
        unsafe {
            Z3_solver_push(c, self.s);
            for a in asts {
                Z3_solver_assert(c, self.s, a);
            }
            let mut vv = Vec::new();
            for i in 0..128u32 {
                if vars >> i & 1 == 1 {
                    let vi = ar().vars[i as usize].clone();
                    let ve = self.var_ast(i);
                    if vi.lo > 0 {
                        let n = self.num(vi.lo, vi.w);
                        Z3_solver_assert(c, self.s, Z3_mk_bvule(c, n, ve));
                    }
                    if vi.hi < mask(vi.w) {
                        let n = self.num(vi.hi, vi.w);
                        Z3_solver_assert(c, self.s, Z3_mk_bvule(c, ve, n));
                    }
                    vv.push((i, ve));
                }
            }
            let r = Z3_solver_check(c, self.s);
            if r == 0 {
                // undecided: the caller drops the path and reports the exploration as incomplete
                self.gave_up = true;
            }
            if r == 1 {
                let m = Z3_solver_get_model(c, self.s);
                Z3_model_inc_ref(c, m);
                let mut res = Vec::new();
                for (i, ve) in vv {
                    let mut o: P = std::ptr::null_mut();
                    assert!(Z3_model_eval(c, m, ve, true, &mut o));
                    let mut u = 0u64;
                    assert!(Z3_get_numeral_uint64(c, o, &mut u));
                    res.push((i, u as u128));
                }
                Z3_model_dec_ref(c, m);
                out = Some(Rc::new(res));
                self.st.z3_sat += 1;
            } else if r != 0 {
                self.st.z3_unsat += 1;
            }
            Z3_solver_pop(c, self.s, 1);
        }
        self.st.z3_queries += 1;
        if std::env::var("SXDUMP").is_ok() {
            let ms = t0.elapsed().as_secs_f64() * 1000.0;
            let mut seen = std::collections::HashSet::new();
            let mut w: Vec<E> = conj.to_vec();
            while let Some(e) = w.pop() {
                if !seen.insert(e) { continue; }
                match node(e).n { N::Not(x)|N::SExt(x)|N::Extract(_,_,x)=>w.push(x), N::Bin(_,a,b)=>{w.push(a);w.push(b)}, N::Ite(a,b,c)=>{w.push(a);w.push(b);w.push(c)}, _=>{} }
            }
            eprintln!("Q {:.2}ms conj={} nodes={} vars={} sat={} last={}", ms, conj.len(), seen.len(), vars.count_ones(), out.is_some(), show(conj[conj.len()-1],4));
            if ms > 300.0 { for c in conj { eprintln!("   C {}", show(*c, 5)); } eprintln!("====="); }
        }
        self.st.z3_ms += t0.elapsed().as_secs_f64() * 1000.0;
        out
    }

    fn var_ast(&mut self, i: u32) -> P {
        let w = ar().vars[i as usize].w;
        let id = ar().vars[i as usize].id;
        let lo = ar().vars[i as usize].lo;
        let hi = ar().vars[i as usize].hi;
        let e = new_var(id, w, lo, hi);
        self.to_bv(e)
    }

    /// like `check`, but always put to Z3 unless the condition is constant
    pub fn ask(&mut self, pc: &crate::state::Pc, model: &Model, cond: E) -> Option<Model> {
        if let Some(v) = as_const(cond) {
            return if v == 1 { Some(model.clone()) } else { None };
        }
        no_float(cond);
        let r = self.raw(&[pc.formula(), cond]);
        r.map(|vals| self.complete(model, &vals))
    }
    /// an input that satisfies none of the formulas
    pub fn uncovered(&mut self, fs: &[E]) -> Option<Rc<Vec<(u32, u128)>>> {
        if fs.iter().any(|f| as_const(*f) == Some(1)) {
            return None;
        }
        let n: Vec<E> = fs.iter().map(|f| mk_not(*f)).collect();
        self.raw(&n)
    }
    fn complete(&self, model: &Model, vals: &[(u32, u128)]) -> Model {
        let mut m = (**model).clone();
        for (i, v) in vals.iter() {
            while m.len() <= *i as usize {
                let k = m.len();
                m.push(ar().vars[k].lo);
            }
            m[*i as usize] = *v;
        }
        Rc::new(m)
    }

    /// pc: list of conditions (satisfied by `model`), cond: extra condition.
    /// Returns a model of pc && cond, or None when unsatisfiable.
    pub fn check(&mut self, pc: &crate::state::Pc, model: &Model, cond: E) -> Option<Model> {
        if let Some(v) = as_const(cond) {
            self.st.folded += 1;
            return if v == 1 { Some(model.clone()) } else { None };
        }
        no_float(cond);
        // evaluation under the current model
        model_gen(model);
        if eval(cond, model) == 1 {
            self.st.guessed += 1;
            return Some(model.clone());
        }
        // conditions over single variables are decided on the variables' domains
        match self.decide(pc, model, cond, 40) {
            Dec::Unsat => {
                self.st.dom_unsat += 1;
                return None;
            }
            Dec::Sat(m2) => {
                self.st.dom_sat += 1;
                return Some(m2);
            }
            Dec::Unknown => {}
        }
        let ncond = mk_not(cond);
        // slice
        let mut slice: Vec<E> = Vec::new();
        let mut vs = vars_of(cond);
        let all = pc.rest();
        let mut used = vec![false; all.len()];
        loop {
            let mut changed = false;
            for (i, e) in all.iter().enumerate() {
                if !used[i] && vars_of(*e) & vs != 0 {
                    used[i] = true;
                    if *e == ncond {
                        self.st.folded += 1;
                        return None;
                    }
                    slice.push(*e);
                    let nv = vs | vars_of(*e);
                    if nv != vs {
                        vs = nv;
                        changed = true;
                    }
                }
            }
            if !changed {
                break;
            }
        }
        for i in 0..128 {
            if vs >> i & 1 == 1 {
                let d = pc.dom(i);
                if as_const(d) != Some(1) {
                    slice.push(d);
                }
            }
        }
        // cheap candidate
        if let Some(m2) = guess(cond, model) {
            eval_new_gen();
            LASTM.with(|l| l.set(std::ptr::null()));
            if eval(cond, &m2) == 1 && slice.iter().all(|e| eval(*e, &m2) == 1) {
                self.st.guessed += 1;
                return Some(Rc::new(m2));
            }
        }
        slice.push(cond);
        // recent models
        let n = model.len();
        for k in (0..self.pool.len()).rev() {
            let pm = self.pool[k].clone();
            eval_new_gen();
            LASTM.with(|l| l.set(std::ptr::null()));
            if slice.iter().rev().all(|e| eval(*e, &pm) == 1) {
                let mut m = (**model).clone();
                for i in 0..128usize {
                    if vs >> i & 1 == 1 {
                        while m.len() <= i {
                            let k = m.len();
                            m.push(ar().vars[k].lo);
                        }
                        m[i] = pm.get(i).copied().unwrap_or(ar().vars[i].lo);
                    }
                }
                let _ = n;
                self.st.pooled += 1;
                return Some(Rc::new(m));
            }
        }
        // change one variable of the current model
        for i in 0..128u32 {
            if vars_of(cond) >> i & 1 == 0 || ar().vars[i as usize].w > 32 {
                continue;
            }
            model_gen(model);
            let mut memo = Default::default();
            let mut fuel = 300;
            let mut acc = Some(tt());
            for e in slice.iter().rev() {
                model_gen(model);
                acc = acc.and_then(|a| subst(*e, i, model, &mut memo, &mut fuel).map(|x| mk_and(a, x)));
                if acc == Some(ff()) || acc.is_none() {
                    break;
                }
            }
            if let Some(a) = acc {
                if pw_exact(a) {
                    let mut m = (**model).clone();
                    while m.len() <= i as usize {
                        let k = m.len();
                        m.push(ar().vars[k].lo);
                    }
                    m[i as usize] = pw_pick(a).unwrap();
                    eval_new_gen();
                    LASTM.with(|l| l.set(std::ptr::null()));
                    if slice.iter().all(|e| eval(*e, &m) == 1) {
                        self.st.local += 1;
                        let m = Rc::new(m);
                        self.remember(&m);
                        return Some(m);
                    }
                }
            }
        }
        slice.sort();
        slice.dedup();
        let r = if let Some(r) = self.cache.get(&slice) {
            self.st.cache_hits += 1;
            r.clone()
        } else if self.given_up.contains(&slice) {
            self.gave_up = true;
            None
        } else {
            let r = self.raw(&slice);
            if self.gave_up {
                self.given_up.insert(slice);
            } else {
                self.cache.insert(slice, r.clone());
            }
            r
        };
        let r = r.map(|vals| self.complete(model, &vals));
        if let Some(m) = &r {
            self.remember(m);
        }
        r
    }
    fn remember(&mut self, m: &Model) {
        if self.pool.len() >= 48 {
            self.pool.remove(0);
        }
        self.pool.push(m.clone());
    }
}

enum Dec {
    Sat(Model),
    Unsat,
    Unknown,
}
impl Solver {
    fn decide(&mut self, pc: &crate::state::Pc, model: &Model, cond: E, fuel: u32) -> Dec {
        if let Some(v) = as_const(cond) {
            return if v == 1 { Dec::Sat(model.clone()) } else { Dec::Unsat };
        }
        if fuel == 0 {
            return Dec::Unknown;
        }
        let vs = vars_of(cond);
        if vs & (vs - 1) != 0 {
            if let N::Not(x) = node(cond).n {
                if let N::Bin(Op2::And, a, b) = node(x).n {
                    let r1 = self.decide(pc, model, mk_not(a), fuel - 1);
                    if let Dec::Sat(_) = r1 {
                        return r1;
                    }
                    let r2 = self.decide(pc, model, mk_not(b), fuel - 1);
                    return match (r1, r2) {
                        (_, Dec::Sat(m)) => Dec::Sat(m),
                        (Dec::Unsat, Dec::Unsat) => Dec::Unsat,
                        _ => Dec::Unknown,
                    };
                }
            }
        }
        let p2 = pc.push(cond);
        let mut m = (**model).clone();
        for i in 0..128usize {
            if vs >> i & 1 == 0 {
                continue;
            }
            let d = p2.dom(i);
            while m.len() <= i {
                let k = m.len();
                m.push(ar().vars[k].lo);
            }
            match as_const(d) {
                Some(0) => return Dec::Unsat,
                Some(_) => {}
                None => {
                    if pw_exact(d) {
                        if d != pc.dom(i) || eval1(d, &m) != 1 {
                            m[i] = pw_pick(d).unwrap();
                        }
                    }
                }
            }
        }
        // the candidate must satisfy everything that mentions its variables
        eval_new_gen();
        LASTM.with(|l| l.set(std::ptr::null()));
        let ok = p2.rest().iter().all(|e| eval(*e, &m) == 1)
            && (0..128).all(|i| vs >> i & 1 == 0 || eval(p2.dom(i), &m) == 1);
        if ok {
            return Dec::Sat(Rc::new(m));
        }
        Dec::Unknown
    }
}
fn eval1(e: E, m: &[u128]) -> u128 {
    eval_new_gen();
    LASTM.with(|l| l.set(std::ptr::null()));
    eval(e, m)
}

thread_local! {
    static LASTM: std::cell::Cell<*const Vec<u128>> = std::cell::Cell::new(std::ptr::null());
    static KEEP: std::cell::RefCell<Option<Model>> = std::cell::RefCell::new(None);
}
pub fn fresh_gen() {
    eval_new_gen();
    LASTM.with(|l| l.set(std::ptr::null()));
}
/// start a new evaluation generation unless the model object is the one used last
pub fn model_gen(m: &Model) {
    let p = Rc::as_ptr(m);
    LASTM.with(|l| {
        if l.get() != p {
            eval_new_gen();
            l.set(p);
            KEEP.with(|k| *k.borrow_mut() = Some(m.clone()));
        }
    });
}

fn no_float(c: E) {
    if vars_of(c) & float_bit() != 0 {
        crate::exec::fatal("a decision depends on a float computed from symbolic values");
    }
}

fn set_bits(e: E, v: u128, m: &mut Vec<u128>) -> bool {
    match node(e).n {
        N::Const(k) => k == v,
        N::Var(i) => {
            let vi = &ar().vars[i as usize];
            if v < vi.lo || v > vi.hi {
                return false;
            }
            while m.len() <= i as usize {
                let k = m.len();
                m.push(ar().vars[k].lo);
            }
            m[i as usize] = v;
            true
        }
        N::Extract(h, l, x) => {
            if let N::Var(i) = node(x).n {
                while m.len() <= i as usize {
                    let k = m.len();
                    m.push(ar().vars[k].lo);
                }
                let mk = mask(h - l + 1) << l;
                let k = (m[i as usize] & !mk) | (v << l);
                let vi = &ar().vars[i as usize];
                if k < vi.lo || k > vi.hi {
                    return false;
                }
                m[i as usize] = k;
                return true;
            }
            false
        }
        N::Bin(Op2::Concat, a, b) => {
            let bw = width(b);
            set_bits(a, v >> bw, m) && set_bits(b, v & mask(bw), m)
        }
        N::Bin(Op2::Add, a, b) => {
            if let Some(k) = as_const(b) {
                return set_bits(a, v.wrapping_sub(k) & mask(width(a)), m);
            }
            false
        }
        N::Not(x) => set_bits(x, !v & mask(width(x)), m),
        N::Ite(c, a, b) => {
            // prefer the branch the constant side cannot serve
            if as_const(a).is_some() || as_const(b).is_none() && as_const(a) != Some(v) {
                if as_const(a) == Some(v) {
                    return make(c, true, m, 8);
                }
                return make(c, false, m, 8) && set_bits(b, v, m);
            }
            make(c, true, m, 8) && set_bits(a, v, m)
        }
        _ => false,
    }
}
fn make(c: E, want: bool, m: &mut Vec<u128>, depth: u32) -> bool {
    if depth == 0 {
        return false;
    }
    eval_new_gen();
    if (eval(c, m) == 1) == want {
        return true;
    }
    match node(c).n {
        N::Not(x) => make(x, !want, m, depth - 1),
        N::Bin(Op2::And, a, b) => {
            if want {
                make(a, true, m, depth - 1) && make(b, true, m, depth - 1)
            } else {
                make(a, false, m, depth - 1) || make(b, false, m, depth - 1)
            }
        }
        N::Bin(Op2::Eq, a, b) => {
            if want {
                eval_new_gen();
                let v = eval(b, m);
                if set_bits(a, v, m) {
                    return true;
                }
                eval_new_gen();
                let v = eval(a, m);
                set_bits(b, v, m)
            } else {
                eval_new_gen();
                let v = eval(a, m);
                let w = mask(width(a));
                let mut m2 = m.clone();
                for t in [v.wrapping_add(1) & w, v.wrapping_sub(1) & w, v ^ 0x20 & w] {
                    if set_bits(a, t, &mut m2) {
                        *m = m2;
                        return true;
                    }
                    m2 = m.clone();
                }
                false
            }
        }
        N::Bin(Op2::Ult, a, b) => {
            eval_new_gen();
            if want {
                let v = eval(b, m);
                v > 0 && set_bits(a, v - 1, m)
            } else {
                let v = eval(b, m);
                set_bits(a, v, m)
            }
        }
        N::Var(i) => {
            while m.len() <= i as usize {
                let k = m.len();
                m.push(ar().vars[k].lo);
            }
            m[i as usize] = want as u128;
            true
        }
        _ => false,
    }
}
fn guess(cond: E, model: &Model) -> Option<Vec<u128>> {
    let mut m = (**model).clone();
    let r = make(cond, true, &mut m, 8);
    LASTM.with(|l| l.set(std::ptr::null()));
    if r && m.iter().enumerate().all(|(i, v)| *v >= ar().vars[i].lo && *v <= ar().vars[i].hi) {
        Some(m)
    } else {
        None
    }
}
