//! Hash-consed bit-vector expressions (widths 1..=128) with a rewriting constructor layer.
//! Everything is process-global and single threaded.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;

#[derive(Default, Clone, Copy)]
pub struct FxH(u64);
impl Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<FxH>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op2 {
    And,
    Or,
    Xor,
    Add,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Concat,
    Eq,
    Ult,
    Slt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u32),
    Not(E),
    Bin(Op2, E, E),
    Extract(u8, u8, E),
    SExt(E),
    Ite(E, E, E),
    /// piecewise function of one variable: index into `Arena::pws`
    Pw(u32),
}

/// `leaves[i]` on `[starts[i], starts[i+1])`; the pieces cover the range of the variable.
pub struct PwD {
    pub var: u32,
    pub starts: Vec<u32>,
    pub leaves: Vec<E>,
}
pub const PW_MAX: usize = 4096;

pub struct Node {
    pub n: N,
    pub w: u8,
    pub vars: u128,
    pub lo: u128,
    pub hi: u128,
    /// number of constant leaves when this is an Ite tree over constants only (0 = not such a tree)
    pub cl: u16,
}

#[derive(Clone)]
pub struct VarInfo {
    pub id: u32,
    pub w: u8,
    pub lo: u128,
    pub hi: u128,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<(N, u8), E>,
    pub vars: Vec<VarInfo>,
    ite_memo: FxMap<(u8, u128, E), E>,
    pub pws: Vec<PwD>,
    pw_ids: HashMap<(u32, Vec<u32>, Vec<E>), u32>,
    pw_memo: FxMap<(u8, E, E, E), E>,
    // evaluation cache
    gen: u32,
    eval_gen: Vec<u32>,
    eval_val: Vec<u128>,
}

/// a vector that never moves: memory is reserved, not used
fn fixed<T>(n: usize) -> Vec<T> {
    let mut n = n;
    loop {
        let mut v = Vec::new();
        if v.try_reserve_exact(n).is_ok() {
            return v;
        }
        n /= 2;
    }
}
fn room<T>(v: &Vec<T>) {
    if v.len() >= v.capacity() {
        eprintln!("SXE-ERROR too many expressions");
        std::process::exit(3);
    }
}
static mut ARENA: *mut Arena = std::ptr::null_mut();

#[inline]
pub fn ar() -> &'static mut Arena {
    unsafe {
        if ARENA.is_null() {
            let mut a = Arena {
                // references into these live across the creation of further ones
                nodes: fixed(1 << 26),
                map: Default::default(),
                vars: fixed(1 << 16),
                ite_memo: Default::default(),
                pws: fixed(1 << 23),
                pw_ids: HashMap::new(),
                pw_memo: Default::default(),
                gen: 1,
                eval_gen: Vec::new(),
                eval_val: Vec::new(),
            };
            // id 0 is reserved
            a.nodes.push(Node { n: N::Const(0), w: 1, vars: 0, lo: 0, hi: 0, cl: 1 });
            ARENA = Box::into_raw(Box::new(a));
        }
        &mut *ARENA
    }
}

#[inline]
pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

#[inline]
pub fn node(e: E) -> &'static Node {
    &ar().nodes[e as usize]
}
#[inline]
pub fn width(e: E) -> u8 {
    node(e).w
}
#[inline]
pub fn as_const(e: E) -> Option<u128> {
    if let N::Const(v) = node(e).n {
        Some(v)
    } else {
        None
    }
}
pub fn vars_of(e: E) -> u128 {
    node(e).vars
}

fn sx(v: u128, w: u8) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

fn intern(n: N, w: u8) -> E {
    let a = ar();
    if let Some(e) = a.map.get(&(n, w)) {
        return *e;
    }
    let m = mask(w);
    let nd = |e: E| -> &Node { &a.nodes[e as usize] };
    let (vars, mut lo, mut hi) = match n {
        N::Const(v) => (0, v, v),
        N::Var(i) => {
            let vi = &a.vars[i as usize];
            (1u128 << i, vi.lo, vi.hi)
        }
        N::Not(x) => {
            let x = nd(x);
            (x.vars, m - x.hi, m - x.lo)
        }
        N::Extract(h, l, x) => {
            let x = nd(x);
            let mut r = (0, m);
            if x.hi >> l <= m && l == 0 {
                r = (x.lo, x.hi);
            } else if (x.hi >> (h as u32).min(127) >> 1) == (x.lo >> (h as u32).min(127) >> 1) {
                // upper bits fixed: the slice moves monotonically
                r = ((x.lo >> l) & m, (x.hi >> l) & m);
                if r.0 > r.1 {
                    r = (0, m);
                }
            }
            (x.vars, r.0, r.1)
        }
        N::SExt(x) => {
            let x = nd(x);
            let sb = 1u128 << (x.w - 1);
            if x.hi < sb {
                (x.vars, x.lo, x.hi)
            } else {
                (x.vars, 0, m)
            }
        }
        N::Ite(c, x, y) => {
            let (c, x, y) = (nd(c), nd(x), nd(y));
            (c.vars | x.vars | y.vars, x.lo.min(y.lo), x.hi.max(y.hi))
        }
        N::Pw(i) => {
            let d = &a.pws[i as usize];
            let lo = d.leaves.iter().map(|l| nd(*l).lo).min().unwrap();
            let hi = d.leaves.iter().map(|l| nd(*l).hi).max().unwrap();
            (1u128 << d.var, lo, hi)
        }
        N::Bin(op, x, y) => {
            let (x, y) = (nd(x), nd(y));
            let v = x.vars | y.vars;
            let r = match op {
                Op2::And => (0, x.hi.min(y.hi)),
                Op2::Or => {
                    let b = 128 - (x.hi | y.hi).leading_zeros() as u8;
                    (x.lo.max(y.lo), if b == 0 { 0 } else { mask(b) })
                }
                Op2::Xor => {
                    let b = 128 - (x.hi | y.hi).leading_zeros() as u8;
                    (0, if b == 0 { 0 } else { mask(b) })
                }
                Op2::Add => {
                    if w < 127 {
                        let (l, h) = (x.lo + y.lo, x.hi + y.hi);
                        if h <= m {
                            (l, h)
                        } else if l > m {
                            (l & m, h & m)
                        } else {
                            (0, m)
                        }
                    } else {
                        (0, m)
                    }
                }
                Op2::Mul => match (x.lo.checked_mul(y.lo), x.hi.checked_mul(y.hi)) {
                    (Some(l), Some(h)) if h <= m => (l, h),
                    _ => (0, m),
                },
                Op2::UDiv => {
                    if y.lo > 0 {
                        (x.lo / y.hi, x.hi / y.lo)
                    } else {
                        (0, m)
                    }
                }
                Op2::URem => {
                    if y.lo > 0 {
                        (0, x.hi.min(y.hi - 1))
                    } else {
                        (0, m)
                    }
                }
                Op2::LShr => (0, x.hi),
                Op2::Concat => {
                    let yw = y.w;
                    ((x.lo << yw) | y.lo, (x.hi << yw) | y.hi)
                }
                Op2::Eq | Op2::Ult | Op2::Slt => (0, 1),
                _ => (0, m),
            };
            (v, r.0, r.1)
        }
    };
    if lo > hi || hi > m {
        lo = 0;
        hi = m;
    }
    let cl = match n {
        N::Const(_) => 1,
        N::Ite(_, x, y) => {
            let (x, y) = (nd(x).cl, nd(y).cl);
            if x > 0 && y > 0 {
                x.saturating_add(y)
            } else {
                0
            }
        }
        N::Pw(i) => {
            let d = &a.pws[i as usize];
            if d.leaves.iter().all(|l| nd(*l).cl == 1) {
                d.leaves.len() as u16
            } else {
                0
            }
        }
        _ => 0,
    };
    let id = a.nodes.len() as E;
    room(&a.nodes);
    a.nodes.push(Node { n, w, vars, lo, hi, cl });
    a.map.insert((n, w), id);
    // a node whose range is a single value is that constant
    if lo == hi && !matches!(n, N::Const(_)) {
        let c = mk_const(w, lo);
        ar().map.insert((n, w), c);
        return c;
    }
    id
}

pub fn mk_const(w: u8, v: u128) -> E {
    intern(N::Const(v & mask(w)), w)
}
pub fn tt() -> E {
    mk_const(1, 1)
}
pub fn ff() -> E {
    mk_const(1, 0)
}
pub fn mk_bool(b: bool) -> E {
    mk_const(1, b as u128)
}

pub const FLOAT_ID: u32 = 0xf10a7;
/// bits of the variables that stand for every float computed from symbolic
/// values: nothing may depend on it
pub fn float_bit() -> u128 {
    FLOATV.with(|f| f.get())
}
thread_local! {
    static FLOATV: std::cell::Cell<u128> = const { std::cell::Cell::new(0) };
}
pub fn float_var(lvl: u32) -> E {
    let v = new_var(FLOAT_ID + lvl, 64, 0, u64::MAX as u128);
    FLOATV.with(|f| f.set(f.get() | vars_of(v)));
    v
}
/// the values of which the expression is one
pub fn branches(e: E) -> Option<Vec<E>> {
    match node(e).n {
        N::Ite(_, x, y) => Some(vec![x, y]),
        N::Pw(i) => Some(ar().pws[i as usize].leaves.clone()),
        _ => None,
    }
}

pub fn new_var(id: u32, w: u8, lo: u128, hi: u128) -> E {
    let a = ar();
    for (i, v) in a.vars.iter().enumerate() {
        if v.id == id {
            assert!(v.w == w && v.lo == lo && v.hi == hi, "symbolic id {} reused differently", id);
            return intern(N::Var(i as u32), w);
        }
    }
    let i = a.vars.len() as u32;
    assert!(i < 128, "too many symbolic variables");
    a.vars.push(VarInfo { id, w, lo, hi });
    intern(N::Var(i), w)
}

fn ite_map1(tag: u8, aux: u128, e: E, f: &dyn Fn(E) -> E) -> E {
    // apply f to the constant leaves of a constant-leaf Ite tree
    match node(e).n {
        N::Ite(c, x, y) => {
            let key = (tag, aux, e);
            if let Some(r) = ar().ite_memo.get(&key) {
                return *r;
            }
            let rx = ite_map1(tag, aux, x, f);
            let ry = ite_map1(tag, aux, y, f);
            let r = mk_ite(c, rx, ry);
            ar().ite_memo.insert(key, r);
            r
        }
        N::Pw(i) => {
            let key = (tag, aux, e);
            if let Some(r) = ar().ite_memo.get(&key) {
                return *r;
            }
            let r = match pw_map(i, f) {
                Some(r) => r,
                None => {
                    // values over other variables: guarded alternatives
                    let d = &ar().pws[i as usize];
                    let mut keys: Vec<E> = Vec::new();
                    let vals: Vec<E> = d.leaves.iter().map(|l| f(*l)).collect();
                    for v in &vals {
                        if !keys.contains(v) {
                            keys.push(*v);
                        }
                    }
                    let mut acc = keys[0];
                    for v in &keys[1..] {
                        let mut b = pb(d.var, 1);
                        for k in 0..d.leaves.len() {
                            b.raw(d.starts[k], mk_bool(vals[k] == *v));
                        }
                        acc = mk_ite(b.done_or_die(), *v, acc);
                    }
                    acc
                }
            };
            ar().ite_memo.insert(key, r);
            r
        }
        _ => f(e),
    }
}
const TREE_MAX: u16 = 5000;
#[inline]
fn is_tree(e: E) -> bool {
    let n = node(e);
    n.cl > 1 && n.cl < TREE_MAX
}

#[cfg(feature = "selfcheck")]
pub fn mk_not(e: E) -> E {
    let r = mk_not_i(e);
    watch_check("mk_not", &[e], r, &|| !wev(e) & mask(width(e)));
    r
}
#[cfg(feature = "selfcheck")]
fn mk_not_i(e: E) -> E {
    mk_not_b(e)
}
#[cfg(not(feature = "selfcheck"))]
pub fn mk_not(e: E) -> E {
    mk_not_b(e)
}
#[inline]
fn mk_not_b(e: E) -> E {
    let nd = node(e);
    match nd.n {
        N::Const(v) => return mk_const(nd.w, !v),
        N::Not(x) => return x,
        N::Pw(i) => {
            if let Some(r) = pw1(60, 0, e, i, &|x| mk_not(x)) {
                return r;
            }
        }
        _ => {}
    }
    let w = nd.w;
    if w > 1 {
        if is_tree(e) {
            return ite_map1(1, 0, e, &|x| mk_not(x));
        }
        if let N::Bin(Op2::Concat, a, b) = nd.n {
            return mk_concat(mk_not(a), mk_not(b));
        }
    }
    intern(N::Not(e), w)
}

#[cfg(feature = "selfcheck")]
pub fn mk_extract(h: u8, l: u8, e: E) -> E {
    let r = mk_extract_i(h, l, e);
    watch_check("mk_extract", &[e], r, &|| (wev(e) >> l) & mask(h - l + 1));
    r
}
#[cfg(feature = "selfcheck")]
fn mk_extract_i(h: u8, l: u8, e: E) -> E {
    mk_extract_b(h, l, e)
}
#[cfg(not(feature = "selfcheck"))]
pub fn mk_extract(h: u8, l: u8, e: E) -> E {
    mk_extract_b(h, l, e)
}
#[inline]
fn mk_extract_b(h: u8, l: u8, e: E) -> E {
    let nd = node(e);
    let w = h - l + 1;
    if w == nd.w {
        return e;
    }
    debug_assert!(h < nd.w);
    match nd.n {
        N::Const(v) => return mk_const(w, v >> l),
        N::Extract(_, l2, x) => return mk_extract(h + l2, l + l2, x),
        N::Bin(Op2::Concat, a, b) => {
            let bw = width(b);
            if h < bw {
                return mk_extract(h, l, b);
            }
            if l >= bw {
                return mk_extract(h - bw, l - bw, a);
            }
            return mk_concat(mk_extract(h - bw, 0, a), mk_extract(bw - 1, l, b));
        }
        N::SExt(x) => {
            let xw = width(x);
            if h < xw {
                return mk_extract(h, l, x);
            }
            if l == 0 {
                return mk_sext(x, w);
            }
        }
        N::Not(x) => return mk_not(mk_extract(h, l, x)),
        N::Bin(op @ (Op2::And | Op2::Or | Op2::Xor), a, b) => {
            return bitop(op, mk_extract(h, l, a), mk_extract(h, l, b));
        }
        N::Bin(Op2::Add, a, b) if l == 0 => {
            return mk_add(mk_extract(h, 0, a), mk_extract(h, 0, b));
        }
        N::Bin(Op2::Mul, a, b) if l == 0 => {
            return mk_mul(mk_extract(h, 0, a), mk_extract(h, 0, b));
        }
        N::Pw(i) => {
            if let Some(r) = pw1(61, ((h as u32) << 8) | l as u32, e, i, &|x| mk_extract(h, l, x)) {
                return r;
            }
        }
        N::Ite(c, x, y) => {
            if is_tree(e) {
                return ite_map1(2, ((h as u128) << 8) | l as u128, e, &|x| mk_extract(h, l, x));
            }
            return mk_ite(c, mk_extract(h, l, x), mk_extract(h, l, y));
        }
        _ => {}
    }
    if nd.hi >> l == 0 {
        return mk_const(w, 0);
    }
    intern(N::Extract(h, l, e), w)
}

#[cfg(feature = "selfcheck")]
pub fn mk_concat(a: E, b: E) -> E {
    let r = mk_concat_i(a, b);
    watch_check("mk_concat", &[a, b], r, &|| (wev(a) << width(b)) | wev(b));
    r
}
#[cfg(feature = "selfcheck")]
fn mk_concat_i(a: E, b: E) -> E {
    mk_concat_b(a, b)
}
#[cfg(not(feature = "selfcheck"))]
pub fn mk_concat(a: E, b: E) -> E {
    mk_concat_b(a, b)
}
#[inline]
fn mk_concat_b(a: E, b: E) -> E {
    let (na, nb) = (node(a), node(b));
    let w = na.w + nb.w;
    if let Some(r) = pw2(Op2::Concat, a, b) {
        return r;
    }
    match (na.n, nb.n) {
        (N::Const(x), N::Const(y)) => return mk_const(w, (x << nb.w) | y),
        (N::Extract(h1, l1, x), N::Extract(h2, l2, y)) if x == y && l1 == h2 + 1 => {
            return mk_extract(h1, l2, x)
        }
        // canonical: left-nested, fuse at the seam
        (_, N::Bin(Op2::Concat, c, d)) => return mk_concat(mk_concat(a, c), d),
        (N::Bin(Op2::Concat, p, q), _) => {
            // try fusing q with b
            let (nq, nbn) = (node(q).n, nb.n);
            match (nq, nbn) {
                (N::Const(x), N::Const(y)) => {
                    let f = mk_const(width(q) + nb.w, (x << nb.w) | y);
                    return mk_concat(p, f);
                }
                (N::Extract(_, l1, x), N::Extract(h2, _, y)) if x == y && l1 == h2 + 1 => {
                    let f = mk_concat(q, b);
                    return mk_concat(p, f);
                }
                _ => {}
            }
        }
        _ => {}
    }
    if na.cl > 1 && matches!(nb.n, N::Const(_)) && na.cl < TREE_MAX {
        return ite_map1(3, ((nb.w as u128) << 120) ^ (b as u128), a, &|x| mk_concat(x, b));
    }
    if nb.cl > 1 && matches!(na.n, N::Const(_)) && nb.cl < TREE_MAX {
        return ite_map1(4, ((na.w as u128) << 120) ^ (a as u128), b, &|x| mk_concat(a, x));
    }
    // same-condition Ite fusion (bytes of a merged word)
    if let (N::Ite(c1, x1, y1), N::Ite(c2, x2, y2)) = (na.n, nb.n) {
        if c1 == c2 {
            return mk_ite(c1, mk_concat(x1, x2), mk_concat(y1, y2));
        }
    }
    if let (N::Ite(c1, x1, y1), N::Const(_)) = (na.n, nb.n) {
        return mk_ite(c1, mk_concat(x1, b), mk_concat(y1, b));
    }
    if let (N::Const(_), N::Ite(c1, x1, y1)) = (na.n, nb.n) {
        return mk_ite(c1, mk_concat(a, x1), mk_concat(a, y1));
    }
    intern(N::Bin(Op2::Concat, a, b), w)
}

#[cfg(feature = "selfcheck")]
pub fn mk_zext(e: E, w: u8) -> E {
    let r = mk_zext_i(e, w);
    watch_check("mk_zext", &[e], r, &|| wev(e));
    r
}
#[cfg(feature = "selfcheck")]
fn mk_zext_i(e: E, w: u8) -> E {
    mk_zext_b(e, w)
}
#[cfg(not(feature = "selfcheck"))]
pub fn mk_zext(e: E, w: u8) -> E {
    mk_zext_b(e, w)
}
#[inline]
fn mk_zext_b(e: E, w: u8) -> E {
    let ew = width(e);
    if ew == w {
        return e;
    }
    mk_concat(mk_const(w - ew, 0), e)
}
#[cfg(feature = "selfcheck")]
pub fn mk_sext(e: E, w: u8) -> E {
    let r = mk_sext_i(e, w);
    watch_check("mk_sext", &[e], r, &|| (sx(wev(e), width(e)) as u128) & mask(w));
    r
}
#[cfg(feature = "selfcheck")]
fn mk_sext_i(e: E, w: u8) -> E {
    mk_sext_b(e, w)
}
#[cfg(not(feature = "selfcheck"))]
pub fn mk_sext(e: E, w: u8) -> E {
    mk_sext_b(e, w)
}
#[inline]
fn mk_sext_b(e: E, w: u8) -> E {
    let nd = node(e);
    if nd.w == w {
        return e;
    }
    if let N::Const(v) = nd.n {
        return mk_const(w, sx(v, nd.w) as u128);
    }
    if nd.hi < 1u128 << (nd.w - 1) {
        return mk_zext(e, w);
    }
    if let N::Pw(i) = nd.n {
        if let Some(r) = pw1(62, w as u32, e, i, &|x| mk_sext(x, w)) {
            return r;
        }
    }
    if is_tree(e) {
        return ite_map1(5, w as u128, e, &|x| mk_sext(x, w));
    }
    if let N::SExt(x) = nd.n {
        return mk_sext(x, w);
    }
    if nd.w == 1 {
        return mk_ite(e, mk_const(w, u128::MAX), mk_const(w, 0));
    }
    intern(N::SExt(e), w)
}

/// split into (piece, width) from the most significant end
fn pieces(e: E, out: &mut Vec<E>) {
    match node(e).n {
        N::Bin(Op2::Concat, a, b) => {
            pieces(a, out);
            pieces(b, out);
        }
        _ => out.push(e),
    }
}

fn const_runs(v: u128, w: u8) -> usize {
    let mut r = 1;
    for i in 1..w {
        if (v >> i) & 1 != (v >> (i - 1)) & 1 {
            r += 1
        }
    }
    r
}

fn apply_bit(op: Op2, a: u128, b: u128) -> u128 {
    match op {
        Op2::And => a & b,
        Op2::Or => a | b,
        _ => a ^ b,
    }
}

pub fn bitop(op: Op2, a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return mk_const(w, apply_bit(op, x, y));
    }
    if a == b {
        return match op {
            Op2::Xor => mk_const(w, 0),
            _ => a,
        };
    }
    if let Some(r) = pw2(op, a, b) {
        return r;
    }
    let (a, b) = if as_const(a).is_some() || (as_const(b).is_none() && a > b) { (b, a) } else { (a, b) };
    if let Some(k) = as_const(b) {
        match op {
            Op2::And => {
                if k == 0 {
                    return b;
                }
                if k == mask(w) {
                    return a;
                }
            }
            Op2::Or => {
                if k == 0 {
                    return a;
                }
                if k == mask(w) {
                    return b;
                }
            }
            _ => {
                if k == 0 {
                    return a;
                }
                if k == mask(w) {
                    return mk_not(a);
                }
            }
        }
        if is_tree(a) {
            return ite_map1(10 + op as u8, k ^ ((w as u128) << 121), a, &|x| bitop(op, x, b));
        }
        if let N::Bin(op2, x, y) = node(a).n {
            if op2 == op {
                if let Some(k2) = as_const(y) {
                    return bitop(op, x, mk_const(w, apply_bit(op, k, k2)));
                }
            }
        }
    }
    if w == 1 {
        return boolop(op, a, b);
    }
    // segment-wise
    let mut pa = Vec::new();
    let mut pb = Vec::new();
    pieces(a, &mut pa);
    pieces(b, &mut pb);
    let has_const = pa.iter().chain(pb.iter()).any(|x| as_const(*x).is_some());
    if has_const {
        // boundaries as bit positions
        let mut cuts = vec![0u8, w];
        for p in [&pa, &pb] {
            let mut pos = w;
            for x in p.iter() {
                let xw = width(*x);
                if let Some(v) = as_const(*x) {
                    if const_runs(v, xw) <= 12 {
                        for i in 1..xw {
                            if (v >> i) & 1 != (v >> (i - 1)) & 1 {
                                cuts.push(pos - xw + i);
                            }
                        }
                    }
                }
                pos -= xw;
                cuts.push(pos);
            }
        }
        cuts.sort();
        cuts.dedup();
        if cuts.len() > 2 {
            let mut res: Option<E> = None;
            for i in (0..cuts.len() - 1).rev() {
                let (l, h) = (cuts[i], cuts[i + 1] - 1);
                let s = bitop(op, mk_extract(h, l, a), mk_extract(h, l, b));
                res = Some(match res {
                    None => s,
                    Some(r) => mk_concat(r, s),
                });
            }
            return res.unwrap();
        }
    }
    // same-condition ite
    if let (N::Ite(c, x, y), N::Ite(c2, x2, y2)) = (node(a).n, node(b).n) {
        if c == c2 {
            return mk_ite(c, bitop(op, x, x2), bitop(op, y, y2));
        }
    }
    intern(N::Bin(op, a, b), w)
}

fn boolop(op: Op2, a: E, b: E) -> E {
    // no constants here, a != b
    if a == mk_not(b) {
        return mk_bool(!matches!(op, Op2::And));
    }
    if op == Op2::And {
        let vs = node(a).vars | node(b).vars;
        if !single(vs) {
            let (mut fa, mut fb) = (Vec::new(), Vec::new());
            flat_and(a, &mut fa, 24);
            flat_and(b, &mut fb, 24);
            if fa.len() + fb.len() <= 24 && fa.len() + fb.len() > 2 {
                return and_all(fa, fb);
            }
        }
    }
    and2(op, a, b)
}
fn flat_and(e: E, out: &mut Vec<E>, cap: usize) {
    if out.len() > cap {
        return;
    }
    match node(e).n {
        N::Bin(Op2::And, a, b) if !single(node(e).vars) => {
            flat_and(a, out, cap);
            flat_and(b, out, cap);
        }
        _ => out.push(e),
    }
}
/// conjunction with the conjuncts over one variable put together
fn and_all(mut l: Vec<E>, more: Vec<E>) -> E {
    for x in more {
        if l.contains(&x) {
            continue;
        }
        let vx = node(x).vars;
        let mut done = false;
        if single(vx) {
            for y in l.iter_mut() {
                if node(*y).vars == vx {
                    let z = mk_and(*y, x);
                    match as_const(z) {
                        Some(0) => return ff(),
                        _ => {
                            *y = z;
                            done = true;
                        }
                    }
                    break;
                }
            }
        }
        if !done {
            let nx = mk_not(x);
            if l.contains(&nx) {
                return ff();
            }
            l.push(x);
        }
    }
    l.retain(|x| as_const(*x) != Some(1));
    l.sort_by_key(|x| (!single(node(*x).vars), node(*x).vars, *x));
    let mut r = match l.first() {
        None => return tt(),
        Some(x) => *x,
    };
    for x in &l[1..] {
        r = and2(Op2::And, r, *x);
        if as_const(r) == Some(0) {
            return r;
        }
    }
    r
}
fn and2(op: Op2, a: E, b: E) -> E {
    if as_const(a).is_some() || as_const(b).is_some() {
        return bitop(op, a, b);
    }
    match op {
        Op2::And => {
            // absorption
            if let N::Bin(Op2::And, x, y) = node(a).n {
                if x == b || y == b {
                    return a;
                }
                let nb = mk_not(b);
                if x == nb || y == nb {
                    return ff();
                }
            }
            if let N::Bin(Op2::And, x, y) = node(b).n {
                if x == a || y == a {
                    return b;
                }
                let na = mk_not(a);
                if x == na || y == na {
                    return ff();
                }
            }
            if let N::Bin(Op2::Or, x, y) = node(a).n {
                if x == b || y == b {
                    return b;
                }
                let nb = mk_not(b);
                if x == nb {
                    return mk_and(y, b);
                }
                if y == nb {
                    return mk_and(x, b);
                }
            }
            if let N::Bin(Op2::Or, x, y) = node(b).n {
                if x == a || y == a {
                    return a;
                }
                let na = mk_not(a);
                if x == na {
                    return mk_and(y, a);
                }
                if y == na {
                    return mk_and(x, a);
                }
            }
            // x==K1 & x==K2 (K1!=K2) is false; x==K1 & x!=K2 is x==K1
            if let (N::Bin(Op2::Eq, x1, k1), N::Bin(Op2::Eq, x2, k2)) = (node(a).n, node(b).n) {
                if x1 == x2 && as_const(k1).is_some() && as_const(k2).is_some() && k1 != k2 {
                    return ff();
                }
            }
            for (p, q) in [(a, b), (b, a)] {
                if let (N::Bin(Op2::Eq, x1, k1), N::Not(nq)) = (node(p).n, node(q).n) {
                    if let N::Bin(Op2::Eq, x2, k2) = node(nq).n {
                        if x1 == x2 && as_const(k1).is_some() && as_const(k2).is_some() && k1 != k2 {
                            return p;
                        }
                    }
                }
            }
        }
        Op2::Or => {
            return mk_not(mk_and(mk_not(a), mk_not(b)));
        }
        _ => {
            // xor
            if let N::Not(x) = node(a).n {
                return mk_not(bitop(Op2::Xor, x, b));
            }
            if let N::Not(x) = node(b).n {
                return mk_not(bitop(Op2::Xor, a, x));
            }
        }
    }
    let (a, b) = if a > b { (b, a) } else { (a, b) };
    intern(N::Bin(op, a, b), 1)
}

#[cfg(feature = "selfcheck")]
pub fn mk_and(a: E, b: E) -> E {
    let r = mk_and_i(a, b);
    watch_check("mk_and", &[a, b], r, &|| fold2(Op2::And, width(a), wev(a), wev(b)) & mask(width(a)));
    r
}
#[cfg(feature = "selfcheck")]
fn mk_and_i(a: E, b: E) -> E {
    mk_and_b(a, b)
}
#[cfg(not(feature = "selfcheck"))]
pub fn mk_and(a: E, b: E) -> E {
    mk_and_b(a, b)
}
#[inline]
fn mk_and_b(a: E, b: E) -> E {
    bitop(Op2::And, a, b)
}
#[cfg(feature = "selfcheck")]
pub fn mk_or(a: E, b: E) -> E {
    let r = mk_or_i(a, b);
    watch_check("mk_or", &[a, b], r, &|| wev(a) | wev(b));
    r
}
#[cfg(feature = "selfcheck")]
fn mk_or_i(a: E, b: E) -> E {
    mk_or_b(a, b)
}
#[cfg(not(feature = "selfcheck"))]
pub fn mk_or(a: E, b: E) -> E {
    mk_or_b(a, b)
}
#[inline]
fn mk_or_b(a: E, b: E) -> E {
    bitop(Op2::Or, a, b)
}
#[cfg(feature = "selfcheck")]
pub fn mk_xor(a: E, b: E) -> E {
    let r = mk_xor_i(a, b);
    watch_check("mk_xor", &[a, b], r, &|| wev(a) ^ wev(b));
    r
}
#[cfg(feature = "selfcheck")]
fn mk_xor_i(a: E, b: E) -> E {
    mk_xor_b(a, b)
}
#[cfg(not(feature = "selfcheck"))]
pub fn mk_xor(a: E, b: E) -> E {
    mk_xor_b(a, b)
}
#[inline]
fn mk_xor_b(a: E, b: E) -> E {
    bitop(Op2::Xor, a, b)
}

/// for every bit at least one of the operands is known to be zero
fn disjoint(a: E, b: E) -> bool {
    let mut pa = Vec::new();
    let mut pb = Vec::new();
    pieces(a, &mut pa);
    pieces(b, &mut pb);
    let za = zero_mask(&pa);
    let zb = zero_mask(&pb);
    (za | zb) & mask(width(a)) == mask(width(a))
}
fn zero_mask(p: &[E]) -> u128 {
    let mut z = 0u128;
    for x in p {
        let w = width(*x);
        let k = match as_const(*x) {
            Some(v) => !v & mask(w),
            None => {
                let hi = node(*x).hi;
                let b = 128 - hi.leading_zeros() as u8;
                mask(w) & !(if b == 0 { 0 } else { mask(b) })
            }
        };
        z = if w >= 128 { k } else { (z << w) | k };
    }
    z
}

#[cfg(feature = "selfcheck")]
pub fn mk_add(a: E, b: E) -> E {
    let r = mk_add_i(a, b);
    watch_check("mk_add", &[a, b], r, &|| wev(a).wrapping_add(wev(b)) & mask(width(a)));
    r
}
#[cfg(feature = "selfcheck")]
fn mk_add_i(a: E, b: E) -> E {
    mk_add_b(a, b)
}
#[cfg(not(feature = "selfcheck"))]
pub fn mk_add(a: E, b: E) -> E {
    mk_add_b(a, b)
}
#[inline]
fn mk_add_b(a: E, b: E) -> E {
    let w = width(a);
    if w == 1 {
        return mk_xor(a, b);
    }
    if let Some(r) = pw2(Op2::Add, a, b) {
        return r;
    }
    let (a, b) = if as_const(a).is_some() { (b, a) } else { (a, b) };
    if let Some(k) = as_const(b) {
        if let Some(x) = as_const(a) {
            return mk_const(w, x.wrapping_add(k));
        }
        if k == 0 {
            return a;
        }
        if let N::Bin(Op2::Add, x, y) = node(a).n {
            if let Some(k2) = as_const(y) {
                return mk_add(x, mk_const(w, k.wrapping_add(k2)));
            }
        }
        if is_tree(a) {
            return ite_map1(20, k ^ ((w as u128) << 121), a, &|x| mk_add(x, b));
        }
    } else {
        if let N::Bin(Op2::Add, x, y) = node(a).n {
            if as_const(y).is_some() {
                return mk_add(mk_add(x, b), y);
            }
        }
        if let N::Bin(Op2::Add, x, y) = node(b).n {
            if as_const(y).is_some() {
                return mk_add(mk_add(a, x), y);
            }
        }
        // x + (-1 * x)
        if let N::Bin(Op2::Mul, x, y) = node(b).n {
            if x == a && as_const(y) == Some(mask(w)) {
                return mk_const(w, 0);
            }
        }
        if let N::Bin(Op2::Mul, x, y) = node(a).n {
            if x == b && as_const(y) == Some(mask(w)) {
                return mk_const(w, 0);
            }
        }
    }
    if disjoint(a, b) {
        return mk_or(a, b);
    }
    if let (N::Ite(c, x, y), Some(_)) = (node(a).n, as_const(b)) {
        return mk_ite(c, mk_add(x, b), mk_add(y, b));
    }
    if let (N::Ite(c, x, y), N::Ite(c2, x2, y2)) = (node(a).n, node(b).n) {
        if c == c2 {
            return mk_ite(c, mk_add(x, x2), mk_add(y, y2));
        }
    }
    let (a, b) = if as_const(b).is_none() && a > b { (b, a) } else { (a, b) };
    intern(N::Bin(Op2::Add, a, b), w)
}
pub fn mk_neg(a: E) -> E {
    let w = width(a);
    mk_mul(a, mk_const(w, u128::MAX))
}
#[cfg(feature = "selfcheck")]
pub fn mk_sub(a: E, b: E) -> E {
    let r = mk_sub_i(a, b);
    watch_check("mk_sub", &[a, b], r, &|| wev(a).wrapping_sub(wev(b)) & mask(width(a)));
    r
}
#[cfg(feature = "selfcheck")]
fn mk_sub_i(a: E, b: E) -> E {
    mk_sub_b(a, b)
}
#[cfg(not(feature = "selfcheck"))]
pub fn mk_sub(a: E, b: E) -> E {
    mk_sub_b(a, b)
}
#[inline]
fn mk_sub_b(a: E, b: E) -> E {
    let w = width(a);
    if a == b {
        return mk_const(w, 0);
    }
    if w == 1 {
        return mk_xor(a, b);
    }
    if let Some(k) = as_const(b) {
        return mk_add(a, mk_const(w, k.wrapping_neg()));
    }
    mk_add(a, mk_neg(b))
}
#[cfg(feature = "selfcheck")]
pub fn mk_mul(a: E, b: E) -> E {
    let r = mk_mul_i(a, b);
    watch_check("mk_mul", &[a, b], r, &|| wev(a).wrapping_mul(wev(b)) & mask(width(a)));
    r
}
#[cfg(feature = "selfcheck")]
fn mk_mul_i(a: E, b: E) -> E {
    mk_mul_b(a, b)
}
#[cfg(not(feature = "selfcheck"))]
pub fn mk_mul(a: E, b: E) -> E {
    mk_mul_b(a, b)
}
#[inline]
fn mk_mul_b(a: E, b: E) -> E {
    let w = width(a);
    if w == 1 {
        return mk_and(a, b);
    }
    if let Some(r) = pw2(Op2::Mul, a, b) {
        return r;
    }
    let (a, b) = if as_const(a).is_some() { (b, a) } else { (a, b) };
    if let Some(k) = as_const(b) {
        if let Some(x) = as_const(a) {
            return mk_const(w, x.wrapping_mul(k));
        }
        if k == 0 {
            return b;
        }
        if k == 1 {
            return a;
        }
        if k.is_power_of_two() {
            return mk_shl(a, mk_const(w, k.trailing_zeros() as u128));
        }
        if let N::Bin(Op2::Mul, x, y) = node(a).n {
            if let Some(k2) = as_const(y) {
                return mk_mul(x, mk_const(w, k.wrapping_mul(k2)));
            }
        }
        if let N::Bin(Op2::Add, x, y) = node(a).n {
            if as_const(y).is_some() {
                return mk_add(mk_mul(x, b), mk_mul(y, b));
            }
        }
        if is_tree(a) {
            return ite_map1(21, k ^ ((w as u128) << 121), a, &|x| mk_mul(x, b));
        }
    }
    let (a, b) = if as_const(b).is_none() && a > b { (b, a) } else { (a, b) };
    intern(N::Bin(Op2::Mul, a, b), w)
}
pub fn fold2(op: Op2, w: u8, x: u128, y: u128) -> u128 {
    let m = mask(w);
    (match op {
        Op2::And => x & y,
        Op2::Or => x | y,
        Op2::Xor => x ^ y,
        Op2::Add => x.wrapping_add(y),
        Op2::Mul => x.wrapping_mul(y),
        Op2::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op2::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op2::SDiv => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                if a < 0 {
                    1
                } else {
                    m
                }
            } else {
                a.wrapping_div(b) as u128
            }
        }
        Op2::SRem => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u128
            }
        }
        Op2::Shl => {
            if y >= w as u128 {
                0
            } else {
                x << y
            }
        }
        Op2::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op2::AShr => {
            let a = sx(x, w);
            if y >= w as u128 {
                (if a < 0 { -1i128 } else { 0 }) as u128
            } else {
                (a >> y) as u128
            }
        }
        Op2::Eq => (x == y) as u128,
        Op2::Ult => (x < y) as u128,
        Op2::Slt => (sx(x, w) < sx(y, w)) as u128,
        Op2::Concat => unreachable!(),
    }) & m
}
#[cfg(feature = "selfcheck")]
pub fn mk_bin(op: Op2, a: E, b: E) -> E {
    let r = mk_bin_i(op, a, b);
    watch_check("mk_bin", &[a, b], r, &|| if op == Op2::Concat { (wev(a) << width(b)) | wev(b) } else { fold2(op, width(a), wev(a), wev(b)) & mask(if matches!(op, Op2::Eq | Op2::Ult | Op2::Slt) { 1 } else { width(a) }) });
    r
}
#[cfg(feature = "selfcheck")]
fn mk_bin_i(op: Op2, a: E, b: E) -> E {
    mk_bin_b(op, a, b)
}
#[cfg(not(feature = "selfcheck"))]
pub fn mk_bin(op: Op2, a: E, b: E) -> E {
    mk_bin_b(op, a, b)
}
#[inline]
fn mk_bin_b(op: Op2, a: E, b: E) -> E {
    match op {
        Op2::And | Op2::Or | Op2::Xor => bitop(op, a, b),
        Op2::Add => mk_add(a, b),
        Op2::Mul => mk_mul(a, b),
        Op2::Shl => mk_shl(a, b),
        Op2::LShr => mk_lshr(a, b),
        Op2::AShr => mk_ashr(a, b),
        Op2::Eq => mk_eq(a, b),
        Op2::Ult => mk_ult(a, b),
        Op2::Slt => mk_slt(a, b),
        Op2::Concat => mk_concat(a, b),
        Op2::UDiv | Op2::URem | Op2::SDiv | Op2::SRem => {
            let w = width(a);
            if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
                return mk_const(w, fold2(op, w, x, y));
            }
            if let Some(r) = pw2(op, a, b) {
                return r;
            }
            if let Some(k) = as_const(b) {
                if k == 1 {
                    return match op {
                        Op2::UDiv | Op2::SDiv => a,
                        _ => mk_const(w, 0),
                    };
                }
                if k.is_power_of_two() && k > 0 {
                    let s = k.trailing_zeros() as u8;
                    if op == Op2::UDiv {
                        return mk_lshr(a, mk_const(w, s as u128));
                    }
                    if op == Op2::URem {
                        return mk_zext(mk_extract(s - 1, 0, a), w);
                    }
                }
                if is_tree(a) {
                    return ite_map1(30 + op as u8, k ^ ((w as u128) << 121), a, &|x| mk_bin(op, x, b));
                }
                // narrow unsigned division of a zero-extended value
                let nd = node(a);
                if k > nd.hi {
                    match op {
                        Op2::UDiv => return mk_const(w, 0),
                        Op2::URem => return a,
                        _ => {}
                    }
                }
                let bits = (128 - (nd.hi | k).leading_zeros()) as u8;
                if matches!(op, Op2::UDiv | Op2::URem) && bits < w {
                    let r = mk_bin(op, mk_extract(bits - 1, 0, a), mk_const(bits, k));
                    return mk_zext(r, w);
                }
            }
            intern(N::Bin(op, a, b), w)
        }
    }
}
#[cfg(feature = "selfcheck")]
pub fn mk_shl(a: E, b: E) -> E {
    let r = mk_shl_i(a, b);
    watch_check("mk_shl", &[a, b], r, &|| fold2(Op2::Shl, width(a), wev(a), wev(b)) & mask(width(a)));
    r
}
#[cfg(feature = "selfcheck")]
fn mk_shl_i(a: E, b: E) -> E {
    mk_shl_b(a, b)
}
#[cfg(not(feature = "selfcheck"))]
pub fn mk_shl(a: E, b: E) -> E {
    mk_shl_b(a, b)
}
#[inline]
fn mk_shl_b(a: E, b: E) -> E {
    let w = width(a);
    if let Some(r) = pw2(Op2::Shl, a, b) {
        return r;
    }
    if let Some(k) = as_const(b) {
        if k == 0 {
            return a;
        }
        if k >= w as u128 {
            return mk_const(w, 0);
        }
        let k = k as u8;
        return mk_concat(mk_extract(w - 1 - k, 0, a), mk_const(k, 0));
    }
    if as_const(a) == Some(0) {
        return a;
    }
    if is_tree(b) && as_const(a).is_some() {
        return ite_map1(22, (a as u128) ^ ((w as u128) << 121), b, &|x| mk_shl(a, x));
    }
    intern(N::Bin(Op2::Shl, a, b), w)
}
#[cfg(feature = "selfcheck")]
pub fn mk_lshr(a: E, b: E) -> E {
    let r = mk_lshr_i(a, b);
    watch_check("mk_lshr", &[a, b], r, &|| fold2(Op2::LShr, width(a), wev(a), wev(b)) & mask(width(a)));
    r
}
#[cfg(feature = "selfcheck")]
fn mk_lshr_i(a: E, b: E) -> E {
    mk_lshr_b(a, b)
}
#[cfg(not(feature = "selfcheck"))]
pub fn mk_lshr(a: E, b: E) -> E {
    mk_lshr_b(a, b)
}
#[inline]
fn mk_lshr_b(a: E, b: E) -> E {
    let w = width(a);
    if let Some(r) = pw2(Op2::LShr, a, b) {
        return r;
    }
    if let Some(k) = as_const(b) {
        if k == 0 {
            return a;
        }
        if k >= w as u128 {
            return mk_const(w, 0);
        }
        let k = k as u8;
        return mk_concat(mk_const(k, 0), mk_extract(w - 1, k, a));
    }
    if as_const(a) == Some(0) {
        return a;
    }
    if is_tree(b) && as_const(a).is_some() {
        return ite_map1(23, (a as u128) ^ ((w as u128) << 121), b, &|x| mk_lshr(a, x));
    }
    intern(N::Bin(Op2::LShr, a, b), w)
}
#[cfg(feature = "selfcheck")]
pub fn mk_ashr(a: E, b: E) -> E {
    let r = mk_ashr_i(a, b);
    watch_check("mk_ashr", &[a, b], r, &|| fold2(Op2::AShr, width(a), wev(a), wev(b)) & mask(width(a)));
    r
}
#[cfg(feature = "selfcheck")]
fn mk_ashr_i(a: E, b: E) -> E {
    mk_ashr_b(a, b)
}
#[cfg(not(feature = "selfcheck"))]
pub fn mk_ashr(a: E, b: E) -> E {
    mk_ashr_b(a, b)
}
#[inline]
fn mk_ashr_b(a: E, b: E) -> E {
    let w = width(a);
    if let Some(r) = pw2(Op2::AShr, a, b) {
        return r;
    }
    if node(a).hi < 1u128 << (w - 1) {
        return mk_lshr(a, b);
    }
    if let Some(k) = as_const(b) {
        if k == 0 {
            return a;
        }
        let k = (k.min(w as u128 - 1)) as u8;
        if let Some(x) = as_const(a) {
            return mk_const(w, fold2(Op2::AShr, w, x, k as u128));
        }
        return mk_sext(mk_extract(w - 1, k, a), w);
    }
    intern(N::Bin(Op2::AShr, a, b), w)
}

#[cfg(feature = "selfcheck")]
pub fn mk_eq(a: E, b: E) -> E {
    let r = mk_eq_i(a, b);
    watch_check("mk_eq", &[a, b], r, &|| (wev(a) == wev(b)) as u128);
    r
}
#[cfg(feature = "selfcheck")]
fn mk_eq_i(a: E, b: E) -> E {
    mk_eq_b(a, b)
}
#[cfg(not(feature = "selfcheck"))]
pub fn mk_eq(a: E, b: E) -> E {
    mk_eq_b(a, b)
}
#[inline]
fn mk_eq_b(a: E, b: E) -> E {
    if a == b {
        return tt();
    }
    let (na, nb) = (node(a), node(b));
    let w = na.w;
    debug_assert_eq!(w, nb.w);
    if na.hi < nb.lo || nb.hi < na.lo {
        return ff();
    }
    if w > 1 {
        if let Some(r) = pw2(Op2::Eq, a, b) {
            return r;
        }
    }
    let (a, b) = if as_const(a).is_some() || (as_const(b).is_none() && a > b) { (b, a) } else { (a, b) };
    if let Some(k) = as_const(b) {
        if as_const(a).is_some() {
            return ff();
        }
        if w == 1 {
            return if k == 1 { a } else { mk_not(a) };
        }
        match node(a).n {
            N::Not(x) => return mk_eq(x, mk_const(w, !k)),
            N::Bin(Op2::Concat, x, y) => {
                let yw = width(y);
                let e1 = mk_eq(x, mk_const(w - yw, k >> yw));
                if e1 == ff() {
                    return e1;
                }
                let e2 = mk_eq(y, mk_const(yw, k));
                return mk_and(e1, e2);
            }
            N::Bin(Op2::Add, x, y) => {
                if let Some(k2) = as_const(y) {
                    return mk_eq(x, mk_const(w, k.wrapping_sub(k2)));
                }
            }
            N::Bin(Op2::Xor, x, y) => {
                if let Some(k2) = as_const(y) {
                    return mk_eq(x, mk_const(w, k ^ k2));
                }
            }
            N::Bin(Op2::Mul, x, y) => {
                if let Some(k2) = as_const(y) {
                    if k2 == mask(w) {
                        return mk_eq(x, mk_const(w, k.wrapping_neg()));
                    }
                }
            }
            N::SExt(x) => {
                let xw = width(x);
                let lowk = mk_const(xw, k);
                if mk_sext(lowk, w) == b {
                    return mk_eq(x, lowk);
                }
                return ff();
            }
            N::Ite(c, x, y) => {
                if is_tree(a) {
                    return ite_map1(40, k ^ ((w as u128) << 121), a, &|x| mk_eq(x, b));
                }
                let key = (41u8, k ^ ((w as u128) << 121), a);
                if let Some(r) = ar().ite_memo.get(&key) {
                    return *r;
                }
                let ex = mk_eq(x, b);
                let ey = mk_eq(y, b);
                let r = mk_ite(c, ex, ey);
                ar().ite_memo.insert(key, r);
                return r;
            }
            _ => {}
        }
    } else {
        if w == 1 {
            return mk_not(mk_xor(a, b));
        }
        // split aligned concatenations
        if let (N::Bin(Op2::Concat, x, y), N::Bin(Op2::Concat, x2, y2)) = (node(a).n, node(b).n) {
            if width(y) == width(y2) {
                let e1 = mk_eq(x, x2);
                if e1 == ff() {
                    return e1;
                }
                return mk_and(e1, mk_eq(y, y2));
            }
            let yw = width(y).min(width(y2));
            let e1 = mk_eq(mk_extract(w - 1, yw, a), mk_extract(w - 1, yw, b));
            if e1 == ff() {
                return e1;
            }
            return mk_and(e1, mk_eq(mk_extract(yw - 1, 0, a), mk_extract(yw - 1, 0, b)));
        }
        for (p, q) in [(a, b), (b, a)] {
            if let N::Bin(Op2::Concat, x, y) = node(p).n {
                if as_const(x) == Some(0) && node(q).hi <= mask(width(y)) {
                    return mk_eq(y, mk_extract(width(y) - 1, 0, q));
                }
            }
        }
        if let (N::Ite(c, x, y), N::Ite(c2, x2, y2)) = (node(a).n, node(b).n) {
            if c == c2 {
                return mk_ite(c, mk_eq(x, x2), mk_eq(y, y2));
            }
        }
        if is_tree(a) && is_tree(b) && (node(a).cl as u32) * (node(b).cl as u32) <= 64 {
            return ite_map1(42, b as u128, a, &|x| mk_eq(x, b));
        }
        for (p, q) in [(a, b), (b, a)] {
            if let N::Ite(c, x, y) = node(p).n {
                if x == q || y == q {
                    return mk_ite(c, mk_eq(x, q), mk_eq(y, q));
                }
            }
        }
    }
    pred(N::Bin(Op2::Eq, a, b))
}

#[cfg(feature = "selfcheck")]
pub fn mk_ult(a: E, b: E) -> E {
    let r = mk_ult_i(a, b);
    watch_check("mk_ult", &[a, b], r, &|| (wev(a) < wev(b)) as u128);
    r
}
#[cfg(feature = "selfcheck")]
fn mk_ult_i(a: E, b: E) -> E {
    mk_ult_b(a, b)
}
#[cfg(not(feature = "selfcheck"))]
pub fn mk_ult(a: E, b: E) -> E {
    mk_ult_b(a, b)
}
#[inline]
fn mk_ult_b(a: E, b: E) -> E {
    if a == b {
        return ff();
    }
    let (na, nb) = (node(a), node(b));
    let w = na.w;
    if na.hi < nb.lo {
        return tt();
    }
    if na.lo >= nb.hi {
        return ff();
    }
    if let Some(r) = pw2(Op2::Ult, a, b) {
        return r;
    }
    if w == 1 {
        return mk_and(mk_not(a), b);
    }
    // narrow to the significant bits
    let bits = (128 - (na.hi | nb.hi).leading_zeros()) as u8;
    if bits < w && bits > 0 {
        return mk_ult(mk_extract(bits - 1, 0, a), mk_extract(bits - 1, 0, b));
    }
    if let Some(k) = as_const(b) {
        if is_tree(a) {
            return ite_map1(43, k ^ ((w as u128) << 121), a, &|x| mk_ult(x, b));
        }
        if k == na.lo + 1 {
            return mk_eq(a, mk_const(w, na.lo));
        }
        if k == na.hi {
            return mk_not(mk_eq(a, b));
        }
        match na.n {
            N::Ite(c, x, y) => {
                let key = (44u8, k ^ ((w as u128) << 121), a);
                if let Some(r) = ar().ite_memo.get(&key) {
                    return *r;
                }
                let ex = mk_ult(x, b);
                let ey = mk_ult(y, b);
                let r = mk_ite(c, ex, ey);
                ar().ite_memo.insert(key, r);
                return r;
            }
            N::Bin(Op2::Concat, x, y) => {
                // if the low part of k is zero only the high part matters
                let yw = width(y);
                if k & mask(yw) == 0 {
                    return mk_ult(x, mk_const(w - yw, k >> yw));
                }
                if let Some(xk) = as_const(x) {
                    let kh = k >> yw;
                    if xk < kh {
                        return tt();
                    }
                    if xk > kh {
                        return ff();
                    }
                    return mk_ult(y, mk_const(yw, k));
                }
            }
            _ => {}
        }
    } else if let Some(k) = as_const(a) {
        if is_tree(b) {
            return ite_map1(45, k ^ ((w as u128) << 121), b, &|x| mk_ult(a, x));
        }
        if k == nb.lo {
            return mk_not(mk_eq(a, b));
        }
        // k < b  <=>  !(b < k+1)
        if k < mask(w) {
            return mk_not(mk_ult(b, mk_const(w, k + 1)));
        }
    }
    if let (N::Bin(Op2::Concat, x, y), N::Bin(Op2::Concat, x2, y2)) = (na.n, nb.n) {
        if x == x2 && width(y) == width(y2) {
            return mk_ult(y, y2);
        }
    }
    pred(N::Bin(Op2::Ult, a, b))
}
pub fn mk_ule(a: E, b: E) -> E {
    mk_not(mk_ult(b, a))
}
#[cfg(feature = "selfcheck")]
pub fn mk_slt(a: E, b: E) -> E {
    let r = mk_slt_i(a, b);
    watch_check("mk_slt", &[a, b], r, &|| fold2(Op2::Slt, width(a), wev(a), wev(b)));
    r
}
#[cfg(feature = "selfcheck")]
fn mk_slt_i(a: E, b: E) -> E {
    mk_slt_b(a, b)
}
#[cfg(not(feature = "selfcheck"))]
pub fn mk_slt(a: E, b: E) -> E {
    mk_slt_b(a, b)
}
#[inline]
fn mk_slt_b(a: E, b: E) -> E {
    let w = width(a);
    if a == b {
        return ff();
    }
    let (na, nb) = (node(a), node(b));
    let sb = 1u128 << (w - 1);
    let (pa, pb) = (na.hi < sb, nb.hi < sb);
    let (ga, gb) = (na.lo >= sb, nb.lo >= sb);
    if (pa && pb) || (ga && gb) {
        return mk_ult(a, b);
    }
    if pa && gb {
        return ff();
    }
    if ga && pb {
        return tt();
    }
    if let Some(r) = pw2(Op2::Slt, a, b) {
        return r;
    }
    if w == 1 {
        return mk_and(a, mk_not(b));
    }
    if let (N::Const(x), N::Const(y)) = (na.n, nb.n) {
        return mk_bool(fold2(Op2::Slt, w, x, y) == 1);
    }
    if let N::Const(k) = nb.n {
        if is_tree(a) {
            return ite_map1(46, k ^ ((w as u128) << 121), a, &|x| mk_slt(x, b));
        }
        if k == 0 {
            return mk_extract(w - 1, w - 1, a);
        }
        if let N::Ite(c, x, y) = na.n {
            return mk_ite(c, mk_slt(x, b), mk_slt(y, b));
        }
    }
    if let N::Const(k) = na.n {
        if is_tree(b) {
            return ite_map1(47, k ^ ((w as u128) << 121), b, &|x| mk_slt(a, x));
        }
        if k == mask(w) {
            return mk_not(mk_extract(w - 1, w - 1, b));
        }
        if let N::Ite(c, x, y) = nb.n {
            return mk_ite(c, mk_slt(a, x), mk_slt(a, y));
        }
    }
    pred(N::Bin(Op2::Slt, a, b))
}
#[cfg(feature = "selfcheck")]
pub fn mk_ite(c: E, a: E, b: E) -> E {
    let r = mk_ite_i(c, a, b);
    watch_check("mk_ite", &[c, a, b], r, &|| if wev(c) == 1 { wev(a) } else { wev(b) });
    r
}
#[cfg(feature = "selfcheck")]
fn mk_ite_i(c: E, a: E, b: E) -> E {
    mk_ite_b(c, a, b)
}
#[cfg(not(feature = "selfcheck"))]
pub fn mk_ite(c: E, a: E, b: E) -> E {
    mk_ite_b(c, a, b)
}
#[inline]
fn mk_ite_b(c: E, a: E, b: E) -> E {
    if a == b {
        return a;
    }
    match node(c).n {
        N::Const(1) => return a,
        N::Const(_) => return b,
        N::Not(x) => return mk_ite(x, b, a),
        _ => {}
    }
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if let Some(r) = pw_ite(c, a, b) {
        return r;
    }
    // nested identical conditions
    let a = if let N::Ite(c2, x, _) = node(a).n {
        if c2 == c {
            x
        } else {
            a
        }
    } else {
        a
    };
    let b = if let N::Ite(c2, _, y) = node(b).n {
        if c2 == c {
            y
        } else {
            b
        }
    } else {
        b
    };
    if a == b {
        return a;
    }
    if w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(_)) => return c,
            (Some(_), Some(_)) => return mk_not(c),
            (Some(1), None) => return mk_or(c, b),
            (Some(_), None) => return mk_and(mk_not(c), b),
            (None, Some(1)) => return mk_or(mk_not(c), a),
            (None, Some(_)) => return mk_and(c, a),
            _ => {}
        }
        if a == c {
            return mk_or(c, b);
        }
        if b == c {
            return mk_and(c, a);
        }
        if a == mk_not(b) {
            return mk_not(mk_xor(c, a));
        }
    }
    if let N::Ite(c2, x, y) = node(b).n {
        if x == a {
            return mk_ite(mk_or(c, c2), a, y);
        }
        if y == a {
            return mk_ite(mk_and(mk_not(c), c2), x, a);
        }
    }
    if let N::Ite(c2, x, y) = node(a).n {
        if x == b {
            // c ? (c2 ? b : y) : b
            return mk_ite(mk_and(c, mk_not(c2)), y, b);
        }
        if y == b {
            return mk_ite(mk_and(c, c2), x, b);
        }
    }
    intern(N::Ite(c, a, b), w)
}

/// evaluate under a model (values per variable index; missing = lower bound)
pub fn eval_new_gen() {
    let a = ar();
    a.gen += 1;
}
pub fn eval(e: E, model: &[u128]) -> u128 {
    let a = ar();
    if a.eval_gen.len() < a.nodes.len() {
        let n = a.nodes.len() + 1024;
        a.eval_gen.resize(n, 0);
        a.eval_val.resize(n, 0);
    }
    eval_rec(e, model)
}
fn eval_rec(e: E, m: &[u128]) -> u128 {
    let a = ar();
    let i = e as usize;
    let nd = &a.nodes[i];
    if let N::Const(v) = nd.n {
        return v;
    }
    if a.eval_gen[i] == a.gen {
        return a.eval_val[i];
    }
    let w = nd.w;
    let v = match nd.n {
        N::Const(v) => v,
        N::Var(i) => m.get(i as usize).copied().unwrap_or(a.vars[i as usize].lo),
        N::Not(x) => !eval_rec(x, m) & mask(w),
        N::Extract(_, l, x) => (eval_rec(x, m) >> l) & mask(w),
        N::SExt(x) => (sx(eval_rec(x, m), width(x)) as u128) & mask(w),
        N::Pw(i) => {
            let d = &a.pws[i as usize];
            let x = m.get(d.var as usize).copied().unwrap_or(a.vars[d.var as usize].lo);
            eval_rec(d.leaves[pw_find(d, x)], m)
        }
        N::Ite(c, x, y) => {
            if eval_rec(c, m) == 1 {
                eval_rec(x, m)
            } else {
                eval_rec(y, m)
            }
        }
        N::Bin(Op2::Concat, x, y) => (eval_rec(x, m) << width(y)) | eval_rec(y, m),
        N::Bin(Op2::And, x, y) if w == 1 => {
            if eval_rec(x, m) == 0 {
                0
            } else {
                eval_rec(y, m)
            }
        }
        N::Bin(op, x, y) => {
            let ow = width(x);
            fold2(op, ow, eval_rec(x, m), eval_rec(y, m)) & mask(w)
        }
    };
    let a = ar();
    a.eval_gen[i] = a.gen;
    a.eval_val[i] = v;
    v
}

/// constant leaves of an Ite tree with their guards (used for pointers)
pub fn leaves(e: E, max: usize) -> Option<Vec<E>> {
    let mut out = Vec::new();
    let mut stack = vec![e];
    let mut seen: FxMap<E, ()> = Default::default();
    while let Some(x) = stack.pop() {
        if seen.insert(x, ()).is_some() {
            continue;
        }
        match node(x).n {
            N::Ite(_, a, b) => {
                stack.push(b);
                stack.push(a);
            }
            N::Pw(i) => stack.extend(ar().pws[i as usize].leaves.iter().rev()),
            _ => out.push(x),
        }
        if out.len() > max {
            return None;
        }
    }
    Some(out)
}

pub fn show(e: E, depth: usize) -> String {
    let nd = node(e);
    if depth == 0 {
        return format!("#{}", e);
    }
    match nd.n {
        N::Const(v) => format!("{:#x}", v),
        N::Var(i) => format!("v{}", ar().vars[i as usize].id),
        N::Not(x) => format!("!{}", show(x, depth - 1)),
        N::Extract(h, l, x) => format!("{}[{}:{}]", show(x, depth - 1), h, l),
        N::Pw(i) => {
            let d = &ar().pws[i as usize];
            let mut s = format!("pw{}<v{}:{}", i, ar().vars[d.var as usize].id, d.leaves.len());
            for k in 0..d.leaves.len().min(8) {
                s += &format!(" {:#x}=>{}", d.starts[k], show(d.leaves[k], depth - 1));
            }
            s + ">"
        }
        N::SExt(x) => format!("sext{}({})", nd.w, show(x, depth - 1)),
        N::Ite(c, x, y) => format!("({} ? {} : {})", show(c, depth - 1), show(x, depth - 1), show(y, depth - 1)),
        N::Bin(op, x, y) => format!("({:?} {} {})", op, show(x, depth - 1), show(y, depth - 1)),
    }
}

// ---------------------------------------------------------------- piecewise functions of one variable

#[inline]
fn single(vars: u128) -> bool {
    vars != 0 && vars & (vars - 1) == 0
}
#[inline]
fn pw_find(d: &PwD, x: u128) -> usize {
    d.starts.partition_point(|s| *s as u128 <= x) - 1
}
fn range_of(var: u32) -> (u32, u32) {
    let v = &ar().vars[var as usize];
    (v.lo as u32, v.hi as u32)
}
/// value of an expression over one variable at one point
fn at(e: E, var: u32, x: u128) -> u128 {
    let nd = node(e);
    let w = nd.w;
    match nd.n {
        N::Const(v) => v,
        N::Var(i) => {
            debug_assert_eq!(i, var);
            x
        }
        N::Not(a) => !at(a, var, x) & mask(w),
        N::Extract(_, l, a) => (at(a, var, x) >> l) & mask(w),
        N::SExt(a) => (sx(at(a, var, x), width(a)) as u128) & mask(w),
        N::Ite(c, a, b) => {
            if at(c, var, x) == 1 {
                at(a, var, x)
            } else {
                at(b, var, x)
            }
        }
        N::Pw(i) => {
            let d = &ar().pws[i as usize];
            at(d.leaves[pw_find(d, x)], var, x)
        }
        N::Bin(Op2::Concat, a, b) => (at(a, var, x) << width(b)) | at(b, var, x),
        N::Bin(op, a, b) => {
            let ow = width(a);
            fold2(op, ow, at(a, var, x), at(b, var, x)) & mask(w)
        }
    }
}
/// interval of values of an expression over one variable on [s, t]
fn ival(e: E, s: u128, t: u128, fuel: &mut u32) -> (u128, u128) {
    let nd = node(e);
    let m = mask(nd.w);
    if *fuel == 0 {
        return (nd.lo, nd.hi);
    }
    *fuel -= 1;
    let r = match nd.n {
        N::Const(v) => return (v, v),
        N::Var(_) => return (s, t),
        N::Not(a) => {
            let (l, h) = ival(a, s, t, fuel);
            (m - h, m - l)
        }
        N::Extract(hb, lb, a) => {
            let (l, h) = ival(a, s, t, fuel);
            let up = |v: u128| if hb >= 127 { 0 } else { v >> (hb + 1) };
            if up(l) == up(h) {
                ((l >> lb) & m, (h >> lb) & m)
            } else {
                (0, m)
            }
        }
        N::SExt(a) => {
            let (l, h) = ival(a, s, t, fuel);
            let sb = 1u128 << (width(a) - 1);
            if h < sb {
                (l, h)
            } else if l >= sb {
                (sx(l, width(a)) as u128 & m, sx(h, width(a)) as u128 & m)
            } else {
                (0, m)
            }
        }
        N::Ite(c, a, b) => match ival(c, s, t, fuel) {
            (1, 1) => ival(a, s, t, fuel),
            (0, 0) => ival(b, s, t, fuel),
            _ => {
                let (x, y) = (ival(a, s, t, fuel), ival(b, s, t, fuel));
                (x.0.min(y.0), x.1.max(y.1))
            }
        },
        N::Pw(i) => {
            let d = &ar().pws[i as usize];
            let (a, b) = (pw_find(d, s), pw_find(d, t));
            let mut r = (u128::MAX, 0);
            for k in a..=b {
                let ps = (d.starts[k] as u128).max(s);
                let pe = if k + 1 < d.starts.len() { (d.starts[k + 1] as u128 - 1).min(t) } else { t };
                let x = ival(d.leaves[k], ps, pe, fuel);
                r = (r.0.min(x.0), r.1.max(x.1));
                if r == (0, m) {
                    break;
                }
            }
            r
        }
        N::Bin(op, a, b) => {
            let x = ival(a, s, t, fuel);
            let y = ival(b, s, t, fuel);
            let one = x.0 == x.1 && y.0 == y.1;
            match op {
                Op2::Concat => {
                    let bw = width(b);
                    ((x.0 << bw) | y.0, (x.1 << bw) | y.1)
                }
                Op2::Eq => {
                    if one {
                        let v = (x.0 == y.0) as u128;
                        (v, v)
                    } else if x.1 < y.0 || y.1 < x.0 {
                        (0, 0)
                    } else {
                        (0, 1)
                    }
                }
                Op2::Ult => {
                    if x.1 < y.0 {
                        (1, 1)
                    } else if x.0 >= y.1 {
                        (0, 0)
                    } else {
                        (0, 1)
                    }
                }
                Op2::Slt => {
                    let ow = width(a);
                    let sb = 1u128 << (ow - 1);
                    let straddle = |p: (u128, u128)| p.0 < sb && p.1 >= sb;
                    if straddle(x) || straddle(y) {
                        (0, 1)
                    } else {
                        let (x0, x1, y0, y1) = (sx(x.0, ow), sx(x.1, ow), sx(y.0, ow), sx(y.1, ow));
                        if x1 < y0 {
                            (1, 1)
                        } else if x0 >= y1 {
                            (0, 0)
                        } else {
                            (0, 1)
                        }
                    }
                }
                _ if one => {
                    let v = fold2(op, nd.w, x.0, y.0);
                    (v, v)
                }
                Op2::And => {
                    if nd.w == 1 && (x.1 == 0 || y.1 == 0) {
                        (0, 0)
                    } else {
                        (0, x.1.min(y.1))
                    }
                }
                Op2::Add if nd.w < 127 => {
                    let (l, h) = (x.0 + y.0, x.1 + y.1);
                    if h <= m || l > m {
                        (l & m, h & m)
                    } else {
                        (0, m)
                    }
                }
                Op2::Mul => match (x.0.checked_mul(y.0), x.1.checked_mul(y.1)) {
                    (Some(l), Some(h)) if h <= m => (l, h),
                    _ => (0, m),
                },
                Op2::UDiv if y.0 > 0 => (x.0 / y.1, x.1 / y.0),
                Op2::URem if y.0 > 0 && y.0 == y.1 && x.0 / y.0 == x.1 / y.0 => (x.0 % y.0, x.1 % y.0),
                Op2::LShr if y.0 == y.1 => {
                    if y.0 > 127 {
                        (0, 0)
                    } else {
                        (x.0 >> y.0, x.1 >> y.0)
                    }
                }
                _ => (0, m),
            }
        }
    };
    if r.0 > r.1 || r.1 > m {
        (0, m)
    } else {
        r
    }
}
/// constant pieces of a width-1 expression on [s, t]; false when the budget ran out
fn solve(e: E, s: u32, t: u32, out: &mut Vec<(u32, bool)>, fuel: &mut u32, cap: usize) -> bool {
    let (l, h) = if s == t {
        let var = node(e).vars.trailing_zeros();
        if *fuel == 0 {
            return false;
        }
        *fuel -= 1;
        let v = at(e, var, s as u128);
        (v, v)
    } else {
        ival(e, s as u128, t as u128, fuel)
    };
    if l == h {
        match out.last() {
            Some((_, v)) if *v == (l == 1) => {}
            _ => out.push((s, l == 1)),
        }
        return out.len() <= cap;
    }
    if *fuel == 0 {
        return false;
    }
    // largest power-of-two-aligned split point in (s, t]
    let k = 31 - (s ^ t).leading_zeros();
    let m = (t >> k) << k;
    solve(e, s, m - 1, out, fuel, cap) && solve(e, m, t, out, fuel, cap)
}

struct Pb {
    var: u32,
    starts: Vec<u32>,
    leaves: Vec<E>,
    w: u8,
    over: bool,
}
impl Pb {
    fn raw(&mut self, s: u32, l: E) {
        if self.leaves.last() == Some(&l) {
            return;
        }
        self.starts.push(s);
        self.leaves.push(l);
        if self.starts.len() > PW_MAX {
            self.over = true;
        }
    }
    fn push(&mut self, s: u32, t: u32, l: E) {
        if self.over {
            return;
        }
        let nd = node(l);
        if nd.vars & !(1u128 << self.var) != 0 {
            // not a function of this variable alone
            self.over = true;
            return;
        }
        match nd.n {
            N::Const(_) => self.raw(s, l),
            N::Pw(i) => {
                let d = &ar().pws[i as usize];
                let (a, b) = (pw_find(d, s as u128), pw_find(d, t as u128));
                for k in a..=b {
                    let ps = d.starts[k].max(s);
                    let pe = if k + 1 < d.starts.len() { (d.starts[k + 1] - 1).min(t) } else { t };
                    self.push(ps, pe, d.leaves[k]);
                }
            }
            _ => {
                if s == t {
                    let v = at(l, self.var, s as u128);
                    return self.raw(s, mk_const(self.w, v));
                }
                if self.w == 1 {
                    let mut out = Vec::new();
                    let mut fuel = 20000;
                    if solve(l, s, t, &mut out, &mut fuel, 2200) {
                        for (p, v) in out {
                            self.raw(p, mk_bool(v));
                        }
                        return;
                    }
                }
                self.raw(s, l)
            }
        }
    }
    fn done_or_die(self) -> E {
        match self.done() {
            Some(e) => e,
            None => {
                eprintln!("SXE-ERROR: piecewise value too large");
                std::process::exit(3);
            }
        }
    }
    fn done(self) -> Option<E> {
        if self.over {
            return None;
        }
        if self.leaves.len() == 1 {
            return Some(self.leaves[0]);
        }
        let a = ar();
        for l in &self.leaves {
            if node(*l).vars & !(1u128 << self.var) != 0 {
                eprintln!("SXE-ERROR: self-check: piecewise value over another variable");
                std::process::exit(3);
            }
        }
        let key = (self.var, self.starts, self.leaves);
        let id = match a.pw_ids.get(&key) {
            Some(i) => *i,
            None => {
                let i = a.pws.len() as u32;
                room(&a.pws);
                a.pws.push(PwD { var: key.0, starts: key.1.clone(), leaves: key.2.clone() });
                a.pw_ids.insert(key, i);
                i
            }
        };
        Some(intern(N::Pw(id), self.w))
    }
}
fn pb(var: u32, w: u8) -> Pb {
    Pb { var, starts: vec![], leaves: vec![], w, over: false }
}
#[inline]
fn is_pw(e: E) -> bool {
    matches!(node(e).n, N::Pw(_))
}
fn pw_map(i: u32, f: &dyn Fn(E) -> E) -> Option<E> {
    let d = &ar().pws[i as usize];
    let (_, hi) = range_of(d.var);
    let mut memo: FxMap<E, E> = Default::default();
    let mut b: Option<Pb> = None;
    for k in 0..d.leaves.len() {
        let e = if k + 1 < d.starts.len() { d.starts[k + 1] - 1 } else { hi };
        let l = d.leaves[k];
        let r = *memo.entry(l).or_insert_with(|| f(l));
        let b = b.get_or_insert_with(|| pb(d.var, width(r)));
        b.push(d.starts[k], e, r);
        if b.over {
            return None;
        }
    }
    b.unwrap().done()
}
fn pw1(tag: u8, aux: u32, e: E, i: u32, f: &dyn Fn(E) -> E) -> Option<E> {
    let key = (tag, aux, e, 0);
    if let Some(r) = ar().pw_memo.get(&key) {
        return if *r == 0 { None } else { Some(*r) };
    }
    let r = pw_map(i, f);
    ar().pw_memo.insert(key, r.unwrap_or(0));
    r
}
fn brk(e: E) -> &'static [u32] {
    match node(e).n {
        N::Pw(i) => &ar().pws[i as usize].starts,
        _ => &[],
    }
}
fn leaf_at(e: E, k: &mut usize, s: u32) -> E {
    match node(e).n {
        N::Pw(i) => {
            let d = &ar().pws[i as usize];
            while *k + 1 < d.starts.len() && d.starts[*k + 1] <= s {
                *k += 1;
            }
            d.leaves[*k]
        }
        _ => e,
    }
}
fn sweep(var: u32, w: u8, es: &[E; 3], f: &dyn Fn([E; 3]) -> E) -> Option<E> {
    let (lo, hi) = range_of(var);
    let mut cuts: Vec<u32> = Vec::new();
    cuts.push(lo);
    for e in es {
        cuts.extend_from_slice(brk(*e));
    }
    cuts.sort_unstable();
    cuts.dedup();
    let mut ks = [0usize; 3];
    let mut b = pb(var, w);
    let mut memo: FxMap<(E, E, E), E> = Default::default();
    for (i, s) in cuts.iter().enumerate() {
        let t = if i + 1 < cuts.len() { cuts[i + 1] - 1 } else { hi };
        let l = [leaf_at(es[0], &mut ks[0], *s), leaf_at(es[1], &mut ks[1], *s), leaf_at(es[2], &mut ks[2], *s)];
        let r = *memo.entry((l[0], l[1], l[2])).or_insert_with(|| f(l));
        b.push(*s, t, r);
        if b.over {
            return None;
        }
    }
    b.done()
}
fn pw2(op: Op2, a: E, b: E) -> Option<E> {
    if !is_pw(a) && !is_pw(b) {
        return None;
    }
    let vs = node(a).vars | node(b).vars;
    if !single(vs) {
        return None;
    }
    let key = (op as u8, a, b, 0);
    if let Some(r) = ar().pw_memo.get(&key) {
        return if *r == 0 { None } else { Some(*r) };
    }
    let w = match op {
        Op2::Concat => width(a) + width(b),
        Op2::Eq | Op2::Ult | Op2::Slt => 1,
        _ => width(a),
    };
    let r = sweep(vs.trailing_zeros(), w, &[a, b, 0], &|l| mk_bin(op, l[0], l[1]));
    ar().pw_memo.insert(key, r.unwrap_or(0));
    r
}
fn pw_ite(c: E, a: E, b: E) -> Option<E> {
    if !is_pw(c) && !(single(node(c).vars) && (is_pw(a) || is_pw(b))) {
        return None;
    }
    let vs = node(c).vars;
    if (node(a).vars | node(b).vars) & !vs != 0 {
        return None;
    }
    let key = (100, c, a, b);
    if let Some(r) = ar().pw_memo.get(&key) {
        return if *r == 0 { None } else { Some(*r) };
    }
    let r = sweep(vs.trailing_zeros(), width(a), &[c, a, b], &|l| mk_ite(l[0], l[1], l[2]));
    ar().pw_memo.insert(key, r.unwrap_or(0));
    r
}
/// intern a comparison; over a single variable it becomes a piecewise constant when that is small enough
fn pred(n: N) -> E {
    let e = intern(n, 1);
    let nd = node(e);
    if !single(nd.vars) || is_pw(e) || as_const(e).is_some() {
        return e;
    }
    let var = nd.vars.trailing_zeros();
    if ar().vars[var as usize].w > 32 {
        return e;
    }
    let key = (101, e, 0, 0);
    if let Some(r) = ar().pw_memo.get(&key) {
        return *r;
    }
    let (lo, hi) = range_of(var);
    let mut out = Vec::new();
    let mut fuel = 40000;
    let r = if solve(e, lo, hi, &mut out, &mut fuel, 2200) {
        let mut b = pb(var, 1);
        for (p, v) in out {
            b.raw(p, mk_bool(v));
        }
        b.done().unwrap_or(e)
    } else {
        e
    };
    ar().pw_memo.insert(key, r);
    r
}
/// first value of the variable at which a piecewise-constant boolean holds (nearest to `near` when given)
pub fn pw_pick(e: E) -> Option<u128> {
    if let N::Pw(i) = node(e).n {
        let d = &ar().pws[i as usize];
        for (k, l) in d.leaves.iter().enumerate() {
            if as_const(*l) == Some(1) {
                return Some(d.starts[k] as u128);
            }
        }
    }
    None
}
/// is this a piecewise boolean all of whose pieces are constants?
pub fn pw_exact(e: E) -> bool {
    is_pw(e) && node(e).cl > 1
}

/// map over the distinct leaves; pieces for which `f` gives None take the value of a neighbour
pub fn pw_map_opt(i: u32, f: &mut dyn FnMut(E) -> Option<E>) -> Option<E> {
    let d = &ar().pws[i as usize];
    let (_, hi) = range_of(d.var);
    let vals: Vec<Option<E>> = d.leaves.iter().map(|l| f(*l)).collect();
    let first = vals.iter().flatten().next().copied()?;
    if vals.iter().flatten().any(|v| node(*v).vars & !(1u128 << d.var) != 0) {
        // values over other variables: guarded alternatives
        let mut keys: Vec<E> = Vec::new();
        for v in vals.iter().flatten() {
            if !keys.contains(v) {
                keys.push(*v);
            }
        }
        let mut acc = keys[0];
        for v in &keys[1..] {
            let mut b = pb(d.var, 1);
            for k in 0..d.leaves.len() {
                b.raw(d.starts[k], mk_bool(vals[k] == Some(*v)));
            }
            acc = mk_ite(b.done_or_die(), *v, acc);
        }
        return Some(acc);
    }
    let mut cur = first;
    let mut b = pb(d.var, width(first));
    for k in 0..d.leaves.len() {
        let e = if k + 1 < d.starts.len() { d.starts[k + 1] - 1 } else { hi };
        if let Some(v) = vals[k] {
            cur = v;
        }
        b.push(d.starts[k], e, cur);
    }
    Some(b.done_or_die())
}

/// replace every variable except `keep` by its value in the model
pub fn subst(e: E, keep: u32, m: &[u128], memo: &mut FxMap<E, E>, fuel: &mut u32) -> Option<E> {
    let nd = node(e);
    if nd.vars == 1u128 << keep || nd.vars == 0 {
        return Some(e);
    }
    if nd.vars >> keep & 1 == 0 {
        return Some(mk_const(nd.w, eval(e, m)));
    }
    if let Some(r) = memo.get(&e) {
        return Some(*r);
    }
    if *fuel == 0 {
        return None;
    }
    *fuel -= 1;
    let r = match nd.n {
        N::Not(x) => mk_not(subst(x, keep, m, memo, fuel)?),
        N::Extract(h, l, x) => mk_extract(h, l, subst(x, keep, m, memo, fuel)?),
        N::SExt(x) => mk_sext(subst(x, keep, m, memo, fuel)?, nd.w),
        N::Ite(c, x, y) => {
            let c = subst(c, keep, m, memo, fuel)?;
            match as_const(c) {
                Some(1) => subst(x, keep, m, memo, fuel)?,
                Some(_) => subst(y, keep, m, memo, fuel)?,
                None => mk_ite(c, subst(x, keep, m, memo, fuel)?, subst(y, keep, m, memo, fuel)?),
            }
        }
        N::Bin(op, x, y) => mk_bin(op, subst(x, keep, m, memo, fuel)?, subst(y, keep, m, memo, fuel)?),
        N::Const(_) | N::Var(_) | N::Pw(_) => e,
    };
    memo.insert(e, r);
    Some(r)
}

// ---------------------------------------------------------------- propagation through f(v) == g(w)
type Iv = Vec<(u128, u128)>;
fn norm(mut v: Iv) -> Iv {
    v.sort_unstable();
    let mut o: Iv = Vec::new();
    for (s, t) in v {
        match o.last_mut() {
            Some(l) if s <= l.1.saturating_add(1) => l.1 = l.1.max(t),
            _ => o.push((s, t)),
        }
    }
    o
}
fn shift_like(l: E) -> bool {
    match node(l).n {
        N::Var(_) => true,
        N::Bin(Op2::Concat, a, b) => as_const(a).is_some() && matches!(node(b).n, N::Var(_)),
        N::Bin(Op2::Add, a, b) => as_const(b).is_some() && shift_like(a),
        _ => false,
    }
}
fn parts(e: E, dom: E) -> Option<Vec<(u32, u32, E)>> {
    let var = node(e).vars.trailing_zeros();
    let (lo, hi) = range_of(var);
    let end = |d: &PwD, k: usize| if k + 1 < d.starts.len() { d.starts[k + 1] - 1 } else { hi };
    let ds: Vec<(u32, u32)> = match node(dom).n {
        N::Const(1) => vec![(lo, hi)],
        N::Pw(i) if pw_exact(dom) => {
            let d = &ar().pws[i as usize];
            (0..d.leaves.len()).filter(|k| as_const(d.leaves[*k]) == Some(1)).map(|k| (d.starts[k], end(d, k))).collect()
        }
        _ => return None,
    };
    let mut out = Vec::new();
    match node(e).n {
        N::Pw(i) => {
            let d = &ar().pws[i as usize];
            for (s, t) in ds {
                let (a, b) = (pw_find(d, s as u128), pw_find(d, t as u128));
                for k in a..=b {
                    out.push((d.starts[k].max(s), end(d, k).min(t), d.leaves[k]));
                }
            }
        }
        _ => out.extend(ds.into_iter().map(|(s, t)| (s, t, e))),
    }
    Some(out)
}
fn image(e: E, ps: &[(u32, u32, E)]) -> Option<Iv> {
    let var = node(e).vars.trailing_zeros();
    let mut v = Iv::new();
    for (s, t, l) in ps {
        match as_const(*l) {
            Some(k) => v.push((k, k)),
            None => {
                let (a, b) = (at(*l, var, *s as u128), at(*l, var, *t as u128));
                if s == t {
                    v.push((a, a));
                } else if shift_like(*l) && b.wrapping_sub(a) == (*t - *s) as u128 {
                    v.push((a, b));
                } else {
                    return None;
                }
            }
        }
    }
    Some(norm(v))
}
fn preimage(e: E, ps: &[(u32, u32, E)], im: &Iv) -> Option<E> {
    let var = node(e).vars.trailing_zeros();
    let (lo, hi) = range_of(var);
    let mut yes: Vec<(u32, u32)> = Vec::new();
    for (s, t, l) in ps {
        let (a, b) = match as_const(*l) {
            Some(k) => (k, k),
            None => (at(*l, var, *s as u128), at(*l, var, *t as u128)),
        };
        let mut i = im.partition_point(|x| x.1 < a);
        while i < im.len() && im[i].0 <= b {
            if as_const(*l).is_some() || s == t {
                yes.push((*s, *t));
                break;
            }
            let x = im[i].0.max(a);
            let y = im[i].1.min(b);
            yes.push((*s + (x - a) as u32, *s + (y - a) as u32));
            i += 1;
        }
    }
    yes.sort_unstable();
    let mut b = pb(var, 1);
    let mut pos = lo as u64;
    for (s, t) in yes {
        if (s as u64) > pos {
            b.raw(pos as u32, ff());
        }
        b.raw(s, tt());
        pos = t as u64 + 1;
    }
    if pos <= hi as u64 {
        b.raw(pos as u32, ff());
    }
    b.done()
}
/// for f(v) == g(w) and the domains of v and w: the domains implied by the equation
pub fn propagate(f: E, df: E, g: E, dg: E) -> Option<(E, E)> {
    let (pf, pg) = (parts(f, df)?, parts(g, dg)?);
    let (mf, mg) = (image(f, &pf)?, image(g, &pg)?);
    Some((preimage(f, &pf, &mg)?, preimage(g, &pg, &mf)?))
}
pub fn single_var(e: E) -> Option<usize> {
    let v = node(e).vars;
    if single(v) && ar().vars[v.trailing_zeros() as usize].w <= 32 {
        Some(v.trailing_zeros() as usize)
    } else {
        None
    }
}

// ---------------------------------------------------------------- self-check of the simplifier
/// value under the fixed assignment of SXWATCH (feature selfcheck)
#[cfg(feature = "selfcheck")]
fn wev(e: E) -> u128 {
    thread_local!(static M: std::cell::RefCell<FxMap<E, u128>> = Default::default());
    if let Some(v) = M.with(|m| m.borrow().get(&e).copied()) {
        return v;
    }
    let w = width(e);
    let v = match node(e).n {
        N::Const(v) => v,
        N::Var(i) => wvar(i),
        N::Not(x) => !wev(x) & mask(w),
        N::Extract(_, l, x) => (wev(x) >> l) & mask(w),
        N::SExt(x) => (sx(wev(x), width(x)) as u128) & mask(w),
        N::Pw(i) => {
            let d = &ar().pws[i as usize];
            wev(d.leaves[pw_find(d, wvar(d.var))])
        }
        N::Ite(c, x, y) => {
            if wev(c) == 1 {
                wev(x)
            } else {
                wev(y)
            }
        }
        N::Bin(Op2::Concat, x, y) => (wev(x) << width(y)) | wev(y),
        N::Bin(op, x, y) => fold2(op, width(x), wev(x), wev(y)) & mask(w),
    };
    M.with(|m| m.borrow_mut().insert(e, v));
    v
}
#[cfg(feature = "selfcheck")]
fn wvar(i: u32) -> u128 {
    thread_local!(static W: Option<FxMap<u32, u128>> = std::env::var("SXWATCH").ok().map(|s| {
        s.split(',').map(|x| { let (a, b) = x.split_once('=').unwrap(); (a.parse().unwrap(), b.parse().unwrap()) }).collect()
    }));
    let v = &ar().vars[i as usize];
    W.with(|w| w.as_ref().and_then(|w| w.get(&v.id).copied()).unwrap_or(v.lo))
}
#[cfg(feature = "selfcheck")]
fn watch_check(n: &str, args: &[E], r: E, f: &dyn Fn() -> u128) {
    let (x, y) = (wev(r), f());
    if x != y {
        eprintln!("SELFCHECK {}: got {:x} want {:x}", n, x, y);
        for a in args {
            eprintln!("    {} = {:x}", show(*a, 3), wev(*a));
        }
        eprintln!("    -> {}", show(r, 3));
        std::process::exit(3);
    }
}
