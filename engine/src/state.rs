//! Execution state: path condition, memory, environment.
use crate::expr::*;
use crate::z3::Model;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    /// concrete integer/pointer/float bits, at most 64 bits
    C(u64),
    /// concrete, 65..=128 bits
    W(u128),
    /// symbolic
    S(E),
    /// struct, array or vector
    A(Rc<Vec<V>>),
    /// undef / poison / void
    U,
}

// ---------------------------------------------------------------- path condition
pub struct PcN {
    pub cond: E,
    pub parent: Pc,
    pub len: u32,
    /// per variable: conjunction of the conditions over that variable alone (0 = none)
    pub dom: Rc<Vec<E>>,
    /// conditions over several variables
    pub rest: Rc<Vec<E>>,
}
fn conjuncts(c: E, out: &mut Vec<E>) {
    match node(c).n {
        N::Bin(Op2::And, a, b) if !(vars_of(c) & (vars_of(c) - 1) == 0) => {
            conjuncts(a, out);
            conjuncts(b, out);
        }
        _ => out.push(c),
    }
}
#[derive(Clone)]
pub struct Pc(pub Option<Rc<PcN>>);
impl Pc {
    pub fn new() -> Self {
        Pc(None)
    }
    pub fn len(&self) -> u32 {
        self.0.as_ref().map_or(0, |n| n.len)
    }
    pub fn push(&self, cond: E) -> Pc {
        if as_const(cond) == Some(1) {
            return self.clone();
        }
        let (mut dom, mut rest) = match &self.0 {
            Some(n) => (n.dom.clone(), n.rest.clone()),
            None => (Rc::new(vec![]), Rc::new(vec![])),
        };
        let mut cs = vec![];
        conjuncts(cond, &mut cs);
        for c in cs {
            let v = vars_of(c);
            if v & (v.wrapping_sub(1)) == 0 && v != 0 {
                let i = v.trailing_zeros() as usize;
                let d = Rc::make_mut(&mut dom);
                if d.len() <= i {
                    d.resize(i + 1, 0);
                }
                d[i] = if d[i] == 0 { c } else { mk_and(d[i], c) };
            } else if !rest.contains(&c) {
                Rc::make_mut(&mut rest).push(c);
            }
        }
        for _ in 0..3 {
            let mut changed = false;
            for i in 0..rest.len() {
                if let N::Bin(Op2::Eq, f, g) = node(rest[i]).n {
                    if let (Some(v), Some(w)) = (single_var(f), single_var(g)) {
                        let d = Rc::make_mut(&mut dom);
                        if d.len() <= v.max(w) {
                            d.resize(v.max(w) + 1, 0);
                        }
                        let z = |e: E| if e == 0 { tt() } else { e };
                        if let Some((nv, nw)) = propagate(f, z(d[v]), g, z(d[w])) {
                            changed |= nv != z(d[v]) || nw != z(d[w]);
                            d[v] = nv;
                            d[w] = nw;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        Pc(Some(Rc::new(PcN { cond, parent: self.clone(), len: self.len() + 1, dom, rest })))
    }
    pub fn dom(&self, i: usize) -> E {
        match &self.0 {
            Some(n) => match n.dom.get(i) {
                Some(0) | None => tt(),
                Some(d) => *d,
            },
            None => tt(),
        }
    }
    /// the whole path condition as one expression
    pub fn formula(&self) -> E {
        let mut f = tt();
        if let Some(n) = &self.0 {
            for d in n.dom.iter().filter(|d| **d != 0) {
                f = mk_and(f, *d);
            }
            for r in n.rest.iter() {
                f = mk_and(f, *r);
            }
        }
        f
    }
    pub fn rest(&self) -> &[E] {
        match &self.0 {
            Some(n) => &n.rest,
            None => &[],
        }
    }
    pub fn to_vec(&self) -> Vec<E> {
        let mut v = Vec::with_capacity(self.len() as usize);
        let mut p = self;
        while let Some(n) = &p.0 {
            v.push(n.cond);
            p = &n.parent;
        }
        v.reverse();
        v
    }
    pub fn ptr_eq(&self, o: &Pc) -> bool {
        match (&self.0, &o.0) {
            (None, None) => true,
            (Some(a), Some(b)) => Rc::ptr_eq(a, b),
            _ => false,
        }
    }
    /// conditions added after `base` (which must be an ancestor)
    pub fn since(&self, base: &Pc) -> Option<Vec<E>> {
        let mut v = Vec::new();
        let mut p = self.clone();
        while p.len() > base.len() {
            let n = p.0.clone().unwrap();
            v.push(n.cond);
            p = n.parent.clone();
        }
        if !p.ptr_eq(base) {
            return None;
        }
        v.reverse();
        Some(v)
    }
}
impl Drop for PcN {
    fn drop(&mut self) {
        // avoid deep recursion
        let mut p = self.parent.0.take();
        while let Some(n) = p {
            match Rc::try_unwrap(n) {
                Ok(mut x) => p = x.parent.0.take(),
                Err(_) => break,
            }
        }
    }
}

// ---------------------------------------------------------------- memory
#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// symbolic overlay: 0 = concrete byte
    pub sym: Option<Vec<E>>,
    pub align: u32,
    pub ro: bool,
    pub name: u32,
}
impl Obj {
    pub fn size(&self) -> usize {
        self.data.len()
    }
    pub fn byte(&self, i: usize) -> E {
        if let Some(s) = &self.sym {
            if s[i] != 0 {
                return s[i];
            }
        }
        mk_const(8, self.data[i] as u128)
    }
    #[inline]
    pub fn is_conc(&self, off: usize, n: usize) -> bool {
        match &self.sym {
            None => true,
            Some(s) => s[off..off + n].iter().all(|x| *x == 0),
        }
    }
    pub fn conc(&self, off: usize, n: usize) -> u128 {
        let mut v = 0u128;
        for i in (0..n).rev() {
            v = (v << 8) | self.data[off + i] as u128;
        }
        v
    }
    pub fn load_e(&self, off: usize, n: usize) -> E {
        let mut e = self.byte(off + n - 1);
        for i in (0..n - 1).rev() {
            e = mk_concat(e, self.byte(off + i));
        }
        e
    }
    pub fn store_c(&mut self, off: usize, n: usize, v: u128) {
        let mut v = v;
        for i in 0..n {
            self.data[off + i] = v as u8;
            v >>= 8;
        }
        if let Some(s) = &mut self.sym {
            for i in 0..n {
                s[off + i] = 0;
            }
        }
    }
    pub fn set_byte(&mut self, i: usize, e: E) {
        if let Some(c) = as_const(e) {
            self.data[i] = c as u8;
            if let Some(s) = &mut self.sym {
                s[i] = 0;
            }
        } else {
            let n = self.data.len();
            self.sym.get_or_insert_with(|| vec![0; n])[i] = e;
        }
    }
    pub fn store_e(&mut self, off: usize, n: usize, e: E) {
        for i in 0..n {
            let b = mk_extract((8 * i + 7) as u8, (8 * i) as u8, e);
            self.set_byte(off + i, b);
        }
    }
}

pub const CH: usize = 128;
#[derive(Clone)]
pub struct Chunk {
    pub o: Vec<Option<Rc<Obj>>>,
    pub live: u32,
}
#[derive(Clone, Default)]
pub struct Tbl {
    pub c: Vec<Option<Rc<Chunk>>>,
}
impl Tbl {
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        let id = id as usize;
        self.c.get(id / CH)?.as_ref()?.o[id % CH].as_ref()
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let id = id as usize;
        let c = Rc::make_mut(self.c.get_mut(id / CH)?.as_mut()?);
        c.o[id % CH].as_mut().map(Rc::make_mut)
    }
    pub fn set(&mut self, id: u32, o: Option<Rc<Obj>>) {
        let id = id as usize;
        if id / CH >= self.c.len() {
            self.c.resize(id / CH + 1, None);
        }
        let slot = &mut self.c[id / CH];
        if slot.is_none() {
            if o.is_none() {
                return;
            }
            *slot = Some(Rc::new(Chunk { o: vec![None; CH], live: 0 }));
        }
        let c = Rc::make_mut(slot.as_mut().unwrap());
        let s = &mut c.o[id % CH];
        match (s.is_some(), o.is_some()) {
            (false, true) => c.live += 1,
            (true, false) => c.live -= 1,
            _ => {}
        }
        *s = o;
        if c.live == 0 {
            *slot = None;
        }
    }
}

pub const HEAP0: u32 = 0x1000_0000;
pub const STACK0: u32 = 0x2000_0000;
pub const GLOB0: u32 = 0x0100_0000;
pub const FUNC0: u32 = 0x0200_0000;
pub fn addr_of(id: u32) -> u64 {
    (id as u64) << 32
}

// ---------------------------------------------------------------- environment
pub type Bytes = Rc<Vec<E>>; // 8-bit expressions
#[derive(Clone, PartialEq)]
pub enum FsNode {
    File(Bytes),
    Dir,
}
#[derive(Clone, PartialEq)]
pub struct Fd {
    pub path: String,
    pub data: Bytes,
    pub pos: usize,
    pub write: bool,
}
#[derive(Clone, PartialEq)]
pub struct HashEnt {
    pub seed: u128,
    pub kind: u8,
    pub key: Vec<E>,
    pub hash: u64,
}
#[derive(Clone, PartialEq)]
pub struct Env {
    pub fs: BTreeMap<String, FsNode>,
    pub fds: BTreeMap<i32, Fd>,
    pub vars: BTreeMap<String, Bytes>,
    pub cwd: String,
    pub stdout: Vec<E>,
    pub stderr: Vec<E>,
    pub stdin: Bytes,
    pub args: Vec<u64>,
    pub atexit: u64,
    pub stdin_pos: usize,
    /// (first seed, hash mode, number of hash values) of maps created since then
    pub modes: Vec<(u64, u32, u32)>,
    pub hashes: Vec<HashEnt>,
    pub notes: Vec<Bytes>,
    pub choices: Vec<(u32, u32)>,
    pub known: Vec<u32>,
    pub reached: u64,
    pub rng: u64,
    pub rank: u64,
}
impl Env {
    pub fn new() -> Self {
        let mut fs = BTreeMap::new();
        fs.insert("/".to_string(), FsNode::Dir);
        fs.insert("/tmp".to_string(), FsNode::Dir);
        Env {
            fs,
            fds: BTreeMap::new(),
            vars: BTreeMap::new(),
            cwd: "/tmp".into(),
            stdout: vec![],
            stderr: vec![],
            stdin: Rc::new(vec![]),
            args: vec![],
            atexit: 0,
            stdin_pos: 0,
            modes: vec![(0, 0, 2)],
            hashes: vec![],
            notes: vec![],
            choices: vec![],
            known: vec![],
            reached: 0,
            rng: 0,
            rank: 0,
        }
    }
}

#[derive(Clone)]
pub struct State {
    pub pc: Pc,
    pub model: Model,
    pub heap: Tbl,
    pub glob: Tbl,
    pub stack: Vec<Rc<Obj>>,
    pub next_heap: u32,
    pub env: Rc<Env>,
    pub steps: u64,
    pub forks: u32,
}

impl State {
    #[inline]
    pub fn obj(&self, id: u32) -> Option<&Rc<Obj>> {
        if id >= STACK0 {
            self.stack.get((id - STACK0) as usize)
        } else if id >= HEAP0 {
            self.heap.get(id - HEAP0)
        } else if id >= FUNC0 {
            None
        } else if id >= GLOB0 {
            self.glob.get(id - GLOB0)
        } else {
            None
        }
    }
    #[inline]
    pub fn obj_mut(&mut self, id: u32) -> Option<&mut Obj> {
        if id >= STACK0 {
            self.stack.get_mut((id - STACK0) as usize).map(Rc::make_mut)
        } else if id >= HEAP0 {
            self.heap.get_mut(id - HEAP0)
        } else if id >= FUNC0 {
            None
        } else if id >= GLOB0 {
            self.glob.get_mut(id - GLOB0)
        } else {
            None
        }
    }
    pub fn env_mut(&mut self) -> &mut Env {
        Rc::make_mut(&mut self.env)
    }
    pub fn alloc(&mut self, size: usize, align: u32) -> u64 {
        let id = self.next_heap;
        self.next_heap += 1;
        self.heap.set(id, Some(Rc::new(Obj { data: vec![0; size], sym: None, align, ro: false, name: 0 })));
        addr_of(HEAP0 + id)
    }
    pub fn push_stack(&mut self, size: usize, align: u32) -> u64 {
        let id = STACK0 + self.stack.len() as u32;
        self.stack.push(Rc::new(Obj { data: vec![0; size], sym: None, align, ro: false, name: 0 }));
        addr_of(id)
    }
}
