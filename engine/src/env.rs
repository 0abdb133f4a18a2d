//! Intercepted functions: allocation, panics, hashing, libc, the harness interface (sx_*).
use crate::exec::*;
use crate::expr::*;
use crate::state::*;
use crate::z3::*;
use std::rc::Rc;

pub fn weak_present(n: &str) -> bool {
    matches!(n, "getrandom" | "gettid" | "__cxa_thread_atexit_impl")
}

pub const K_PANIC: u32 = 1;
pub const K_ALLOC: u32 = 2;
pub const K_DEALLOC: u32 = 3;
pub const K_REALLOC: u32 = 4;
pub const K_ALLOCZ: u32 = 5;
pub const K_NOP: u32 = 6;
pub const K_HASH: u32 = 7;
pub const K_ZERO: u32 = 8;
pub const K_BCMP: u32 = 9;
pub const K_MEMCMP: u32 = 10;
pub const K_STRLEN: u32 = 11;
pub const K_PANICFMT: u32 = 12;
pub const K_FINISH: u32 = 13;
pub const K_EXT: u32 = 20;

pub fn classify(n: &str, has_body: bool) -> u32 {
    if !has_body {
        return match n {
            "bcmp" => K_BCMP,
            "memcmp" => K_MEMCMP,
            "strlen" => K_STRLEN,
            "abort" => K_PANIC,
            _ => K_EXT,
        };
    }
    if n.ends_with("___rust_alloc") || n.ends_with("___rdl_alloc") {
        return K_ALLOC;
    }
    if n.ends_with("___rust_dealloc") || n.ends_with("___rdl_dealloc") {
        return K_DEALLOC;
    }
    if n.ends_with("___rust_realloc") || n.ends_with("___rdl_realloc") {
        return K_REALLOC;
    }
    if n.ends_with("___rust_alloc_zeroed") || n.ends_with("___rdl_alloc_zeroed") {
        return K_ALLOCZ;
    }
    if n.contains("___rust_no_alloc_shim_is_unstable") {
        return K_NOP;
    }
    if n.contains("4core9panicking") && !n.contains("3fmt3") {
        if n.starts_with("_RNvNt") || n.contains("9panicking13assert_failed") {
            return K_PANIC;
        }
    }
    if n.contains("11begin_panic") && n.contains("9panicking") && n.starts_with("_RINv") {
        return K_PANIC;
    }
    if n.contains("18handle_alloc_error") || n.contains("12handle_error") && n.contains("7raw_vec") || n.contains("17capacity_overflow") {
        return K_PANIC;
    }
    if n.contains("17rust_begin_unwind") || n.contains("3std7process5abort") || n.ends_with("rust_panic") || n.contains("14abort_internal") {
        return K_PANIC;
    }
    if n.contains("11RandomState") && n.contains("11BuildHasher8hash_one") {
        return K_HASH;
    }
    if n.contains("4hash3sip") && n.contains("6HasherNtB5_11Sip13Rounds") && n.contains("6Hasher6finish") {
        return K_FINISH;
    }
    if n.contains("10std_detect") && n.contains("detect_and_initialize") {
        return K_ZERO;
    }
    0
}

/// innermost key type of hash_one::<..>
fn key_kind(n: &str) -> u8 {
    let p = n.find("8hash_one").unwrap() + 9;
    let mut r = &n[p..];
    while let Some(x) = r.strip_prefix('R') {
        r = x;
    }
    if r.starts_with('c') {
        1
    } else if r.starts_with('e') {
        2
    } else if r.contains("6string6String") && !r.contains("4item4Item") {
        3
    } else if r.contains("4item4Item") {
        4
    } else {
        0
    }
}
fn key_refs(n: &str) -> usize {
    let p = n.find("8hash_one").unwrap() + 9;
    n[p..].bytes().take_while(|b| *b == b'R').count()
}

impl Exec {
    fn c(&self, v: &V) -> u64 {
        match v {
            V::C(c) => *c,
            V::U => 0,
            _ => self.err("symbolic argument where a concrete one is needed"),
        }
    }
    pub fn enum_vals(&mut self, st: State, e: E) -> Vec<(State, u64)> {
        let mut out = vec![];
        let mut cur = Some(st);
        while let Some(mut s) = cur.take() {
            model_gen(&s.model);
            let k = eval(e, &s.model);
            let c = mk_eq(e, mk_const(width(e), k));
            if let Some(m2) = self.sv.check(&s.pc, &s.model, mk_not(c)) {
                let mut s2 = s.clone();
                s2.model = m2;
                s2.pc = s2.pc.push(mk_not(c));
                s.pc = s.pc.push(c);
                self.n_forks += 1;
                cur = Some(s2);
            }
            out.push((s, k as u64));
            if out.len() > 5000 {
                self.err("too many values of a symbolic argument");
            }
        }
        out
    }
    fn need_conc(&mut self, st: State, f: usize, kind: u32, args: Vec<V>, idx: usize, e: E) -> Outs {
        let vals = self.enum_vals(st, e);
        let mut res = vec![];
        for (s, v) in vals {
            let mut a = args.clone();
            a[idx] = V::C(v);
            match self.special(s, f, kind, a) {
                Outs::None => {}
                Outs::One(s, v) => res.push((s, v)),
                Outs::Many(l) => res.extend(l),
            }
        }
        Outs::Many(res).norm()
    }

    pub fn special(&mut self, mut st: State, f: usize, kind: u32, args: Vec<V>) -> Outs {
        match kind {
            K_PANIC => {
                self.cs.push(f);
                let m = st.model.clone();
                let msg = self.panic_msg(&st, f, &args);
                self.report(&st, &m, 9001, "panic", msg);
                self.cs.pop();
                Outs::None
            }
            K_ALLOC | K_ALLOCZ => {
                if let V::S(e) = args[0] {
                    return self.need_conc(st, f, kind, args, 0, e);
                }
                let (n, al) = (self.c(&args[0]), self.c(&args[1]));
                if n > 1 << 30 {
                    self.err("huge allocation");
                }
                let p = st.alloc(n as usize, al as u32);
                Outs::One(st, V::C(p))
            }
            K_DEALLOC => {
                if let V::S(e) = args[0] {
                    return self.need_conc(st, f, kind, args, 0, e);
                }
                let p = self.c(&args[0]);
                self.dealloc(&mut st, p);
                Outs::One(st, V::U)
            }
            K_REALLOC => {
                for i in [0, 1, 3] {
                    if let V::S(e) = args[i] {
                        return self.need_conc(st, f, kind, args, i, e);
                    }
                }
                let (p, old, al, new) = (self.c(&args[0]), self.c(&args[1]), self.c(&args[2]), self.c(&args[3]));
                let q = st.alloc(new as usize, al as u32);
                self.memcpy(&mut st, q, p, old.min(new) as usize);
                self.dealloc(&mut st, p);
                Outs::One(st, V::C(q))
            }
            K_NOP => Outs::One(st, V::U),
            K_ZERO => Outs::One(st, V::C(0)),
            K_HASH => self.hash(st, f, args),
            K_FINISH => {
                // hashers used directly (IndexMap): the mode of the map's seed
                let me = self.c(&args[0]);
                let k0 = self.bytes(&st, me + 32, 8).iter().enumerate().fold(0u64, |a, (i, e)| a | ((as_const(*e).unwrap_or(0xff) as u64) << (8 * i)));
                let m = *st.env.modes.iter().rev().find(|m| m.0 <= k0).unwrap();
                if m.1 == 1 {
                    return Outs::One(st, V::C(0));
                }
                self.run_fn(st, f, args)
            }
            K_BCMP | K_MEMCMP => {
                for i in [2, 0, 1] {
                    if let V::S(e) = args[i] {
                        return self.need_conc(st, f, kind, args, i, e);
                    }
                }
                let (a, b, n) = (self.c(&args[0]), self.c(&args[1]), self.c(&args[2]));
                let v = self.memcmp(&st, a, b, n as usize, kind == K_BCMP);
                Outs::One(st, v)
            }
            K_STRLEN => {
                let p = self.c(&args[0]);
                let n = self.cstr(&st, p).len();
                Outs::One(st, V::C(n as u64))
            }
            _ => self.ext(st, f, args),
        }
    }
    fn panic_msg(&self, st: &State, f: usize, args: &[V]) -> String {
        let name = &self.m.fns[f].name;
        let mut msg = short(name);
        if name.ends_with("9panicking5panic") && args.len() >= 2 {
            if let (V::C(p), V::C(n)) = (&args[0], &args[1]) {
                let b: Vec<u8> = self.bytes(st, *p, *n as usize).iter().map(|e| as_const(*e).unwrap_or(63) as u8).collect();
                msg += ": ";
                msg += &String::from_utf8_lossy(&b);
            }
        }
        msg
    }
    fn dealloc(&self, st: &mut State, p: u64) {
        let id = (p >> 32) as u32;
        if p as u32 != 0 || st.obj(id).is_none() || !(HEAP0..STACK0).contains(&id) {
            self.err(&format!("invalid free of {:#x}", p));
        }
        st.heap.set(id - HEAP0, None);
    }

    fn hash(&mut self, st: State, f: usize, args: Vec<V>) -> Outs {
        let kind = key_kind(&self.m.fns[f].name);
        // the mode in force when the map was created
        let (mode, n) = if st.env.modes.len() == 1 {
            (st.env.modes[0].1, st.env.modes[0].2)
        } else {
            let me = self.c(&args[0]);
            let k0 = self.bytes(&st, me, 8).iter().enumerate().fold(0u64, |a, (i, e)| a | ((as_const(*e).unwrap() as u64) << (8 * i)));
            let m = st.env.modes.iter().rev().find(|m| m.0 <= k0).unwrap();
            (m.1, m.2)
        };
        if mode == 0 {
            // the sets of items are large, and their members mostly concrete
            if kind != 4 {
                return Outs::One(st, V::C(0));
            }
            return self.run_fn(st, f, args);
        }
        if mode == 1 {
            return Outs::One(st, V::C(0));
        }
        // nondeterministic function of (map instance, key)
        let me = self.c(&args[0]);
        let seed = self.bytes(&st, me, 16).iter().enumerate().fold(0u128, |a, (i, e)| a | (as_const(*e).unwrap() << (8 * i)));
        let word = |p: u64| match self.load_c(&st, p, &crate::ll::Ty::I(64)) {
            V::C(c) => c,
            _ => self.err("symbolic reference in a key"),
        };
        // references to references lead to the key
        let extra = key_refs(&self.m.fns[f].name).saturating_sub(1);
        let mut p = self.c(&args[1]);
        let mut len = 0;
        if kind == 2 && extra == 0 {
            len = self.c(&args[2]);
        }
        for i in 0..extra {
            if kind == 2 && i + 1 == extra {
                len = word(p + 8);
            }
            p = word(p);
        }
        let key: Vec<E> = match kind {
            1 => self.bytes(&st, p, 4),
            2 => self.bytes(&st, p, len as usize),
            3 | 4 => {
                let mut k = self.string_bytes(&st, p);
                if kind == 4 {
                    k.push(mk_const(8, 255));
                    k.extend(self.string_bytes(&st, p + 24));
                }
                k
            }
            _ => self.err("hash of an unknown key type"),
        };
        let mut res: Vec<(State, V)> = vec![];
        // equality with earlier keys of the same map
        let ents = st.env.hashes.clone();
        let mut cur = Some(st);
        for h in ents.iter() {
            if h.seed != seed || h.kind != kind || h.key.len() != key.len() {
                continue;
            }
            let mut eq = tt();
            for (a, b) in h.key.iter().zip(&key) {
                eq = mk_and(eq, mk_eq(*a, *b));
            }
            let s = match cur.take() {
                Some(s) => s,
                None => break,
            };
            let yes = self.sv.check(&s.pc, &s.model, eq);
            let no = self.sv.check(&s.pc, &s.model, mk_not(eq));
            if let Some(m) = yes {
                let mut s2 = s.clone();
                s2.model = m;
                s2.pc = s2.pc.push(eq);
                res.push((s2, V::C(h.hash)));
            }
            if let Some(m) = no {
                let mut s2 = s;
                s2.model = m;
                s2.pc = s2.pc.push(mk_not(eq));
                cur = Some(s2);
            }
        }
        if let Some(s) = cur {
            for k in (0..n).rev() {
                let mut s2 = s.clone();
                let h = k as u64 | ((k as u64) << 57);
                s2.env_mut().hashes.push(HashEnt { seed, kind, key: key.clone(), hash: h });
                res.push((s2, V::C(h)));
            }
        }
        Outs::Many(res).norm()
    }
    fn string_bytes(&self, st: &State, p: u64) -> Vec<E> {
        // String = { cap, ptr, len }
        let w = |o: u64| match self.load_c(st, p + o, &crate::ll::Ty::I(64)) {
            V::C(c) => c,
            _ => self.err("symbolic string header"),
        };
        self.bytes(st, w(8), w(16) as usize)
    }

    fn cstr(&mut self, st: &State, p: u64) -> Vec<E> {
        let mut out = vec![];
        let (id, mut off) = self.check_access(st, p, 1);
        let o = st.obj(id).unwrap().clone();
        loop {
            if off >= o.size() {
                self.err("unterminated C string");
            }
            let b = o.byte(off);
            match as_const(b) {
                Some(0) => break,
                Some(_) => {}
                None => {
                    if self.sv.check(&st.pc, &st.model, mk_eq(b, mk_const(8, 0))).is_some() {
                        self.err("C string with a possible symbolic NUL");
                    }
                }
            }
            out.push(b);
            off += 1;
        }
        out
    }
    fn errno(&self, st: &mut State, e: i32, ret: u64) -> V {
        let a = self.errno;
        self.store_c(st, a, &crate::ll::Ty::I(32), &V::C(e as u32 as u64));
        V::C(ret)
    }
    fn norm_path(cwd: &str, p: &str) -> String {
        let full = if p.starts_with('/') { p.to_string() } else { format!("{}/{}", cwd, p) };
        let mut parts: Vec<&str> = vec![];
        for c in full.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    parts.pop();
                }
                c => parts.push(c),
            }
        }
        format!("/{}", parts.join("/"))
    }
    /// resolve a C path; symbolic bytes are decided by forking over the existing nodes
    fn path(&mut self, st: State, p: u64) -> Vec<(State, Option<String>, bool)> {
        let b = self.cstr(&st, p);
        if b.iter().all(|e| as_const(*e).is_some()) {
            let s: Vec<u8> = b.iter().map(|e| as_const(*e).unwrap() as u8).collect();
            if s.is_empty() {
                return vec![(st, None, true)];
            }
            let s = String::from_utf8_lossy(&s).into_owned();
            let tail = s.ends_with('/');
            let n = Self::norm_path(&st.env.cwd, &s);
            let _ = tail;
            return vec![(st, Some(n), true)];
        }
        // candidates: absolute names and names relative to the working directory
        let mut cands: Vec<(String, String)> = vec![];
        for k in st.env.fs.keys() {
            cands.push((k.clone(), k.clone()));
            let pre = format!("{}/", st.env.cwd);
            if let Some(r) = k.strip_prefix(&pre) {
                cands.push((r.to_string(), k.clone()));
            }
        }
        let mut out = vec![];
        let mut cur = Some(st);
        for (text, node) in cands {
            if text.len() != b.len() {
                continue;
            }
            let mut eq = tt();
            for (x, y) in b.iter().zip(text.bytes()) {
                eq = mk_and(eq, mk_eq(*x, mk_const(8, y as u128)));
            }
            let s = match cur.take() {
                Some(s) => s,
                None => break,
            };
            let yes = self.sv.check(&s.pc, &s.model, eq);
            let no = self.sv.check(&s.pc, &s.model, mk_not(eq));
            if let Some(m) = yes {
                let mut s2 = s.clone();
                s2.model = m;
                s2.pc = s2.pc.push(eq);
                out.push((s2, Some(node.clone()), true));
            }
            if let Some(m) = no {
                let mut s2 = s;
                s2.model = m;
                s2.pc = s2.pc.push(mk_not(eq));
                cur = Some(s2);
            }
        }
        if let Some(s) = cur {
            out.push((s, None, false));
        }
        out
    }
    fn parent_is_dir(st: &State, p: &str) -> bool {
        let par = match p.rfind('/') {
            Some(0) => "/",
            Some(i) => &p[..i],
            None => "/",
        };
        st.env.fs.get(par) == Some(&FsNode::Dir)
    }
    fn stat(&self, st: &mut State, buf: u64, node: &FsNode, ino: u64) {
        let z = vec![mk_const(8, 0); 144];
        self.put_bytes(st, buf, &z);
        let i64t = crate::ll::Ty::I(64);
        let i32t = crate::ll::Ty::I(32);
        let (mode, size) = match node {
            FsNode::File(b) => (0o100644u64, b.len() as u64),
            FsNode::Dir => (0o040755, 4096),
        };
        self.store_c(st, buf, &i64t, &V::C(1));
        self.store_c(st, buf + 8, &i64t, &V::C(ino));
        self.store_c(st, buf + 16, &i64t, &V::C(1));
        self.store_c(st, buf + 24, &i32t, &V::C(mode));
        self.store_c(st, buf + 48, &i64t, &V::C(size));
    }
    fn ino(st: &State, p: &str) -> u64 {
        st.env.fs.keys().position(|k| k == p).unwrap_or(0) as u64 + 100
    }
    fn do_write(&mut self, st: &mut State, fd: i32, b: Vec<E>) -> Option<u64> {
        let n = b.len() as u64;
        match fd {
            1 => st.env_mut().stdout.extend(b),
            2 => st.env_mut().stderr.extend(b),
            _ => {
                let env = st.env_mut();
                let d = env.fds.get_mut(&fd)?;
                if !d.write {
                    return None;
                }
                let mut cont = (*d.data).clone();
                for (i, e) in b.into_iter().enumerate() {
                    let at = d.pos + i;
                    if at < cont.len() {
                        cont[at] = e;
                    } else {
                        cont.push(e);
                    }
                }
                d.pos += n as usize;
                let rc = Rc::new(cont);
                d.data = rc.clone();
                let p = d.path.clone();
                env.fs.insert(p, FsNode::File(rc));
            }
        }
        Some(n)
    }

    fn ext(&mut self, mut st: State, f: usize, args: Vec<V>) -> Outs {
        let name = self.m.fns[f].name.clone();
        const NEG: u64 = u64::MAX;
        const NEG32: u64 = 0xffff_ffff;
        let i32t = crate::ll::Ty::I(32);
        let i64t = crate::ll::Ty::I(64);
        // ---------------- harness interface
        if name.starts_with("sx_") {
            return self.sx(st, &name, args);
        }
        for (i, a) in args.iter().enumerate() {
            if let V::S(e) = a {
                let e = *e;
                return self.need_conc(st, f, K_EXT, args.clone(), i, e);
            }
        }
        let a = |i: usize| match &args[i] {
            V::C(c) => *c,
            _ => 0,
        };
        let r: V = match name.as_str() {
            "__errno_location" => V::C(self.errno),
            "malloc" => V::C(st.alloc(a(0) as usize, 16)),
            "calloc" => V::C(st.alloc((a(0) * a(1)) as usize, 16)),
            "realloc" => {
                let (p, n) = (a(0), a(1) as usize);
                let q = st.alloc(n, 16);
                if p != 0 {
                    let old = st.obj((p >> 32) as u32).map_or(0, |o| o.size());
                    self.memcpy(&mut st, q, p, old.min(n));
                    self.dealloc(&mut st, p);
                }
                V::C(q)
            }
            "posix_memalign" => {
                let p = st.alloc(a(2) as usize, a(1) as u32);
                self.store_c(&mut st, a(0), &i64t, &V::C(p));
                V::C(0)
            }
            "free" => {
                if a(0) != 0 {
                    self.dealloc(&mut st, a(0));
                }
                V::U
            }
            "getrandom" => {
                let n = a(1) as usize;
                let env = st.env_mut();
                let mut b = Vec::with_capacity(n);
                for _ in 0..n {
                    env.rng = env.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    b.push(mk_const(8, (env.rng >> 33) as u8 as u128));
                }
                self.put_bytes(&mut st, a(0), &b);
                V::C(n as u64)
            }
            "clock_gettime" => {
                for (o, x) in [(0, 1_700_000_000), (8, 123_456_789)] {
                    self.store_c(&mut st, a(1) + o, &i64t, &V::C(x));
                }
                V::C(0)
            }
            "gettid" | "getpid" => V::C(4242),
            "getuid" | "geteuid" => V::C(0),
            "__cxa_thread_atexit_impl" => V::C(0),
            "pthread_key_create" => {
                self.store_c(&mut st, a(0), &i32t, &V::C(7));
                V::C(0)
            }
            "pthread_setspecific" | "pthread_key_delete" => V::C(0),
            "sysconf" => V::C(match a(0) {
                30 => 4096,
                _ => 1024,
            }),
            "isatty" => V::C(0),
            "getpwuid_r" => {
                // no entry
                self.store_c(&mut st, a(4), &i64t, &V::C(0));
                V::C(0)
            }
            "syscall" => {
                match a(0) {
                    202 => V::C(0),    // futex
                    186 => V::C(4242), // gettid
                    332 => self.errno(&mut st, 38, NEG),
                    318 => {
                        let b = vec![mk_const(8, 1); a(2) as usize];
                        self.put_bytes(&mut st, a(1), &b);
                        V::C(a(2))
                    }
                    n => self.err(&format!("system call {}", n)),
                }
            }
            "getenv" => {
                let n = self.cstr(&st, a(0));
                if n.iter().any(|e| as_const(*e).is_none()) {
                    self.err("getenv of a symbolic name");
                }
                let n: Vec<u8> = n.iter().map(|e| as_const(*e).unwrap() as u8).collect();
                let n = String::from_utf8_lossy(&n).into_owned();
                match st.env.vars.get(&n).cloned() {
                    None => V::C(0),
                    Some(v) => {
                        let p = st.alloc(v.len() + 1, 1);
                        self.put_bytes(&mut st, p, &v);
                        V::C(p)
                    }
                }
            }
            "setenv" => {
                let n = self.cstr(&st, a(0));
                let v = self.cstr(&st, a(1));
                let n: Vec<u8> = n.iter().map(|e| as_const(*e).unwrap() as u8).collect();
                st.env_mut().vars.insert(String::from_utf8_lossy(&n).into_owned(), Rc::new(v));
                V::C(0)
            }
            "unsetenv" => {
                let n = self.cstr(&st, a(0));
                let n: Vec<u8> = n.iter().map(|e| as_const(*e).unwrap() as u8).collect();
                let n = String::from_utf8_lossy(&n).into_owned();
                st.env_mut().vars.remove(&n);
                V::C(0)
            }
            "getcwd" if st.env.fs.get(&st.env.cwd) != Some(&FsNode::Dir) => self.errno(&mut st, 2, 0),
            "getcwd" => {
                let b: Vec<E> = st.env.cwd.bytes().chain(std::iter::once(0)).map(|c| mk_const(8, c as u128)).collect();
                if b.len() > a(1) as usize {
                    self.errno(&mut st, 34, 0)
                } else {
                    self.put_bytes(&mut st, a(0), &b);
                    V::C(a(0))
                }
            }
            "chdir" => {
                let l = self.path(st, a(0));
                let mut res = vec![];
                for (mut s, p, _) in l {
                    let v = match p {
                        Some(p) if s.env.fs.get(&p) == Some(&FsNode::Dir) => {
                            s.env_mut().cwd = p;
                            V::C(0)
                        }
                        _ => self.errno(&mut s, 2, NEG32),
                    };
                    res.push((s, v));
                }
                return Outs::Many(res).norm();
            }
            "open64" | "open" => {
                let flags = a(1);
                let l = self.path(st, a(0));
                let mut res = vec![];
                for (mut s, p, conc) in l {
                    let wr = flags & 3 != 0;
                    let v = match p {
                        None => {
                            if wr && !conc {
                                self.err("creating a file with a symbolic name");
                            }
                            self.errno(&mut s, 2, NEG32)
                        }
                        Some(p) => {
                            let node = s.env.fs.get(&p).cloned();
                            match node {
                                Some(FsNode::Dir) if wr => self.errno(&mut s, 21, NEG32),
                                None if flags & 0o100 == 0 => self.errno(&mut s, 2, NEG32),
                                None if !Self::parent_is_dir(&s, &p) => self.errno(&mut s, 2, NEG32),
                                node => {
                                    let mut data = match node {
                                        Some(FsNode::File(b)) => b,
                                        _ => Rc::new(vec![]),
                                    };
                                    let dir = s.env.fs.get(&p) == Some(&FsNode::Dir);
                                    if flags & 0o1000 != 0 {
                                        data = Rc::new(vec![]);
                                    }
                                    let env = s.env_mut();
                                    if wr && !dir {
                                        env.fs.insert(p.clone(), FsNode::File(data.clone()));
                                    }
                                    let fd = (3..).find(|k| !env.fds.contains_key(k)).unwrap();
                                    let pos = if flags & 0o2000 != 0 { data.len() } else { 0 };
                                    env.fds.insert(fd, Fd { path: p, data, pos, write: wr });
                                    V::C(fd as u64)
                                }
                            }
                        }
                    };
                    res.push((s, v));
                }
                return Outs::Many(res).norm();
            }
            "close" => {
                let fd = a(0) as i32;
                if st.env_mut().fds.remove(&fd).is_none() {
                    self.err("close of an unknown descriptor");
                }
                V::C(0)
            }
            "read" => {
                let (fd, buf, n) = (a(0) as i32, a(1), a(2) as usize);
                if fd == 0 {
                    let (d, pos) = (st.env.stdin.clone(), st.env.stdin_pos);
                    let k = n.min(d.len() - pos);
                    self.put_bytes(&mut st, buf, &d[pos..pos + k]);
                    st.env_mut().stdin_pos += k;
                    V::C(k as u64)
                } else {
                    match st.env.fds.get(&fd).cloned() {
                        None => self.errno(&mut st, 9, NEG),
                        Some(d) => {
                            if st.env.fs.get(&d.path) == Some(&FsNode::Dir) {
                                self.errno(&mut st, 21, NEG)
                            } else {
                                let pos = d.pos.min(d.data.len());
                                let k = n.min(d.data.len() - pos);
                                self.put_bytes(&mut st, buf, &d.data[pos..pos + k]);
                                st.env_mut().fds.get_mut(&fd).unwrap().pos = pos + k;
                                V::C(k as u64)
                            }
                        }
                    }
                }
            }
            "readv" | "writev" => {
                // gather the vectors
                let (fd, iov, cnt) = (a(0) as i32, a(1), a(2));
                if name == "readv" {
                    self.err("readv");
                }
                let mut b = vec![];
                for i in 0..cnt {
                    let p = match self.load_c(&st, iov + 16 * i, &i64t) {
                        V::C(c) => c,
                        _ => self.err("iov"),
                    };
                    let n = match self.load_c(&st, iov + 16 * i + 8, &i64t) {
                        V::C(c) => c,
                        _ => self.err("iov"),
                    };
                    b.extend(self.bytes(&st, p, n as usize));
                }
                match self.do_write(&mut st, fd, b) {
                    Some(n) => V::C(n),
                    None => self.errno(&mut st, 9, NEG),
                }
            }
            "write" => {
                let b = self.bytes(&st, a(1), a(2) as usize);
                match self.do_write(&mut st, a(0) as i32, b) {
                    Some(n) => V::C(n),
                    None => self.errno(&mut st, 9, NEG),
                }
            }
            "lseek64" => {
                let fd = a(0) as i32;
                match st.env.fds.get(&fd).cloned() {
                    None => self.errno(&mut st, 9, NEG),
                    Some(d) => {
                        let base = match a(2) as u32 {
                            0 => 0i64,
                            1 => d.pos as i64,
                            _ => d.data.len() as i64,
                        };
                        let p = (base + a(1) as i64).max(0) as usize;
                        st.env_mut().fds.get_mut(&fd).unwrap().pos = p;
                        V::C(p as u64)
                    }
                }
            }
            "fstat64" => {
                let fd = a(0) as i32;
                match st.env.fds.get(&fd).cloned() {
                    None => self.errno(&mut st, 9, NEG32),
                    Some(d) => {
                        let node = st.env.fs.get(&d.path).cloned().unwrap_or(FsNode::File(d.data.clone()));
                        let ino = Self::ino(&st, &d.path);
                        self.stat(&mut st, a(1), &node, ino);
                        V::C(0)
                    }
                }
            }
            "stat64" | "lstat64" | "access" => {
                let l = self.path(st, a(0));
                let mut res = vec![];
                for (mut s, p, _) in l {
                    let node = p.as_ref().and_then(|p| s.env.fs.get(p).cloned());
                    let v = match node {
                        None => self.errno(&mut s, 2, NEG32),
                        Some(nd) => {
                            if name != "access" {
                                let ino = Self::ino(&s, p.as_ref().unwrap());
                                self.stat(&mut s, a(1), &nd, ino);
                            }
                            V::C(0)
                        }
                    };
                    res.push((s, v));
                }
                return Outs::Many(res).norm();
            }
            "realpath" => {
                let l = self.path(st, a(0));
                let mut res = vec![];
                for (mut s, p, _) in l {
                    let v = match p {
                        Some(p) if s.env.fs.contains_key(&p) => {
                            let b: Vec<E> = p.bytes().chain(std::iter::once(0)).map(|c| mk_const(8, c as u128)).collect();
                            let q = if a(1) != 0 { a(1) } else { s.alloc(b.len(), 1) };
                            self.put_bytes(&mut s, q, &b);
                            V::C(q)
                        }
                        _ => self.errno(&mut s, 2, 0),
                    };
                    res.push((s, v));
                }
                return Outs::Many(res).norm();
            }
            "mkdir" => {
                let l = self.path(st, a(0));
                let mut res = vec![];
                for (mut s, p, _) in l {
                    let v = match p {
                        Some(p) if s.env.fs.contains_key(&p) => {
                            let _ = p;
                            self.errno(&mut s, 17, NEG32)
                        }
                        Some(p) if Self::parent_is_dir(&s, &p) => {
                            s.env_mut().fs.insert(p, FsNode::Dir);
                            V::C(0)
                        }
                        _ => self.errno(&mut s, 2, NEG32),
                    };
                    res.push((s, v));
                }
                return Outs::Many(res).norm();
            }
            "unlink" => {
                let l = self.path(st, a(0));
                let mut res = vec![];
                for (mut s, p, _) in l {
                    let is = p.as_ref().map_or(false, |p| matches!(s.env.fs.get(p), Some(FsNode::File(_))));
                    let v = if is {
                        s.env_mut().fs.remove(&p.unwrap());
                        V::C(0)
                    } else {
                        self.errno(&mut s, 2, NEG32)
                    };
                    res.push((s, v));
                }
                return Outs::Many(res).norm();
            }
            "rmdir" => {
                let l = self.path(st, a(0));
                let mut res = vec![];
                for (mut s, p, _) in l {
                    let pre = p.as_ref().map(|p| format!("{}/", p));
                    let v = match p {
                        Some(p) if s.env.fs.get(&p) == Some(&FsNode::Dir) => {
                            if s.env.fs.keys().any(|k| k.starts_with(pre.as_ref().unwrap())) {
                                self.errno(&mut s, 39, NEG32)
                            } else {
                                s.env_mut().fs.remove(&p);
                                V::C(0)
                            }
                        }
                        Some(p) if s.env.fs.contains_key(&p) => self.errno(&mut s, 20, NEG32),
                        _ => self.errno(&mut s, 2, NEG32),
                    };
                    res.push((s, v));
                }
                return Outs::Many(res).norm();
            }
            "readlink" => self.errno(&mut st, 22, NEG),
            "ioctl" => self.errno(&mut st, 25, NEG32),
            "fcntl" | "fcntl64" => V::C(0),
            "__xpg_strerror_r" => {
                let t = format!("error {}", a(0));
                let b: Vec<E> = t.bytes().chain(std::iter::once(0)).map(|c| mk_const(8, c as u128)).collect();
                self.put_bytes(&mut st, a(1), &b);
                V::C(0)
            }
            "exit" if st.env.atexit != 0 => {
                let g = st.env.atexit;
                st.env_mut().atexit = 0;
                let l = match self.call(st, g as usize, vec![]) {
                    Outs::None => vec![],
                    Outs::One(s, _) => vec![s],
                    Outs::Many(l) => l.into_iter().map(|x| x.0).collect(),
                };
                for s in l {
                    self.path_done(&s);
                }
                return Outs::None;
            }
            "exit" | "_exit" => {
                st.env_mut().notes.push(Rc::new(vec![mk_const(8, b'X' as u128), mk_const(8, a(0) as u8 as u128)]));
                self.path_done(&st);
                return Outs::None;
            }
            n => self.err(&format!("unsupported external function {}", n)),
        };
        Outs::One(st, r)
    }

    fn sx(&mut self, mut st: State, name: &str, args: Vec<V>) -> Outs {
        if name == "sx_note" {
            for i in 0..2 {
                if let V::S(e) = args[i] {
                    let mut res = vec![];
                    for (s, v) in self.enum_vals(st, e) {
                        let mut a = args.clone();
                        a[i] = V::C(v);
                        match self.sx(s, name, a) {
                            Outs::None => {}
                            Outs::One(s, v) => res.push((s, v)),
                            Outs::Many(l) => res.extend(l),
                        }
                    }
                    return Outs::Many(res).norm();
                }
            }
        }
        let c = |i: usize| match &args[i] {
            V::C(c) => *c,
            V::U => 0,
            _ => fatal(&format!("{}: symbolic argument {}", name, i)),
        };
        let cond = |i: usize, w: u8| -> E {
            let e = to_e(&args[i], w as u32);
            mk_not(mk_eq(e, mk_const(w, 0)))
        };
        let r = match name {
            "sx_sym" => {
                let w = c(1) as u8;
                let v = new_var(c(0) as u32, w, c(2) as u128, c(3) as u128);
                from_e(mk_zext(v, 64))
            }
            "sx_choice" => {
                let (id, n) = (c(0) as u32, c(1) as u32);
                let mut res = vec![];
                for k in (0..n).rev() {
                    let mut s = st.clone();
                    let e = s.env_mut();
                    e.choices.push((id, k));
                    e.rank = e.rank * n as u64 + k as u64;
                    res.push((s, V::C(k as u64)));
                }
                self.n_forks += n as u64 - 1;
                return Outs::Many(res).norm();
            }
            "sx_shard" => {
                if !self.claim(st.env.rank) {
                    self.foreign.insert(st.env.choices.clone());
                    return Outs::None;
                }
                V::U
            }
            "sx_assume" => {
                let e = cond(0, 32);
                match self.sv.check(&st.pc, &st.model, e) {
                    None => {
                        self.n_assumed += 1;
                        self.covered(&st);
                        return Outs::None;
                    }
                    Some(m) => {
                        if self.sv.check(&st.pc, &st.model, mk_not(e)).is_some() {
                            let mut s2 = st.clone();
                            s2.pc = s2.pc.push(mk_not(e));
                            self.covered(&s2);
                            st.pc = st.pc.push(e);
                        }
                        st.model = m;
                    }
                }
                V::U
            }
            "sx_check" => {
                let e = cond(0, 32);
                let code = c(1) as u32;
                *self.n_checks.entry(code).or_insert(0) += 1;
                if as_const(e) == Some(1) {
                    self.n_const += 1;
                    return Outs::One(st, V::U);
                }
                match self.sv.ask(&st.pc, &st.model, mk_not(e)) {
                    None => {
                        if self.sv.gave_up {
                            self.sv.gave_up = false;
                            self.n_undecided += 1;
                        } else {
                            self.n_proved += 1;
                        }
                    }
                    Some(m) => {
                        self.report(&st, &m, code, "check", format!("check {} can fail", code));
                        match self.sv.check(&st.pc, &st.model, e) {
                            None => return Outs::None,
                            Some(m) => {
                                st.model = m;
                                st.pc = st.pc.push(e);
                            }
                        }
                    }
                }
                V::U
            }
            "sx_known" => {
                let e = cond(0, 32);
                let code = c(1) as u32;
                if let Some(m) = self.sv.check(&st.pc, &st.model, e) {
                    if !self.known.contains_key(&code) {
                        let v = Violation {
                            code,
                            kind: "known".into(),
                            msg: String::new(),
                            stack: vec![],
                            vars: self.assignment(&m),
                            choices: st.env.choices.clone(),
                        };
                        self.known.insert(code, v);
                    }
                    match self.sv.check(&st.pc, &st.model, mk_not(e)) {
                        None => {
                            self.path_done(&st);
                            return Outs::None;
                        }
                        Some(m) => {
                            let mut s2 = st.clone();
                            s2.pc = s2.pc.push(e);
                            self.covered(&s2);
                            st.model = m;
                            st.pc = st.pc.push(mk_not(e));
                        }
                    }
                }
                V::U
            }
            "sx_note" => {
                let b = self.bytes(&st, c(0), c(1) as usize);
                st.env_mut().notes.push(Rc::new(b));
                V::U
            }
            "sx_reach" => {
                st.env_mut().reached |= 1 << c(0);
                V::U
            }
            "sx_hash_mode" => {
                let m = (c(2), c(0) as u32, c(1) as u32);
                st.env_mut().modes.push(m);
                V::U
            }
            "sx_tier" => V::C(self.cfg.tier as u64),
            "sx_native" => V::C(0),
            "sx_root" => {
                let p = b"/tmp/sxroot.000000";
                let b: Vec<E> = p.iter().map(|c| mk_const(8, *c as u128)).collect();
                self.put_bytes(&mut st, c(0), &b);
                st.env_mut().fs.insert("/tmp/sxroot.000000".into(), FsNode::Dir);
                V::C(p.len() as u64)
            }
            // captured standard output so far
            "sx_stdout" => {
                let o = if c(2) == 1 { st.env.stdout.clone() } else { st.env.stderr.clone() };
                let n = o.len().min(c(1) as usize);
                self.put_bytes(&mut st, c(0), &o[..n]);
                V::C(o.len() as u64)
            }
            // one more command line argument
            "sx_arg" => {
                let mut b = self.bytes(&st, c(0), c(1) as usize);
                b.push(mk_const(8, 0));
                let p = st.alloc(b.len(), 1);
                self.put_bytes(&mut st, p, &b);
                st.env_mut().args.push(p);
                let l = st.env.args.clone();
                let v = st.alloc(8 * (l.len() + 1), 8);
                let i64t = crate::ll::Ty::I(64);
                for (i, q) in l.iter().chain(std::iter::once(&0)).enumerate() {
                    self.store_c(&mut st, v + 8 * i as u64, &i64t, &V::C(*q));
                }
                for (n, x) in [("4ARGC", l.len() as u64), ("4ARGV", v)] {
                    let g: Vec<String> = self.m.glob_names.iter().filter(|g| g.contains("4args") && g.contains(n)).cloned().collect();
                    if g.len() != 1 {
                        self.err(&format!("globals with {}: {:?}", n, g));
                    }
                    let a = self.m.global_addr(&g[0]).unwrap();
                    self.store_c(&mut st, a, &i64t, &V::C(x));
                }
                V::U
            }
            // called when the code under test ends the process
            "sx_atexit" => {
                let f = (c(0) >> 32) as u32;
                if f < crate::state::FUNC0 {
                    self.err("sx_atexit: no function");
                }
                st.env_mut().atexit = (f - crate::state::FUNC0) as u64;
                V::U
            }
            "sx_stdin" => {
                let b = self.bytes(&st, c(0), c(1) as usize);
                let e = st.env_mut();
                e.stdin = Rc::new(b);
                e.stdin_pos = 0;
                V::U
            }
            "sx_debug" => {
                match &args[0] {
                    V::S(e) => eprintln!("debug: {}", show(*e, 6)),
                    v => eprintln!("debug: {:?}", v),
                }
                V::U
            }
            n => self.err(&format!("unknown harness function {}", n)),
        };
        Outs::One(st, r)
    }
}

impl Outs {
    pub fn norm(self) -> Outs {
        match self {
            Outs::Many(mut l) => match l.len() {
                0 => Outs::None,
                1 => {
                    let (s, v) = l.pop().unwrap();
                    Outs::One(s, v)
                }
                _ => Outs::Many(l),
            },
            o => o,
        }
    }
}
