//! Interface between the harnesses and the symbolic executor.  With the
//! feature `native` the same harnesses run concretely, reading the values of
//! the symbolic variables from a replay file.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod raw {
    extern "C" {
        pub fn sx_sym(id: u32, bits: u32, lo: u64, hi: u64) -> u64;
        pub fn sx_choice(id: u32, n: u32) -> u32;
        pub fn sx_shard();
        pub fn sx_assume(c: u32);
        pub fn sx_check(c: u32, code: u32);
        pub fn sx_known(c: u32, code: u32);
        pub fn sx_note(p: *const u8, n: usize);
        pub fn sx_hash_mode(mode: u32, n: u32, since: u64);
        pub fn sx_tier() -> u32;
        pub fn sx_root(buf: *mut u8) -> usize;
        pub fn sx_stdout(buf: *mut u8, cap: usize, which: u32) -> usize;
        pub fn sx_stdin(p: *const u8, n: usize);
        pub fn sx_arg(p: *const u8, n: usize);
        pub fn sx_atexit(f: extern "C" fn());
    }
}

#[cfg(feature = "native")]
pub mod raw {
    use std::collections::HashMap;
    pub static mut SYM: Option<HashMap<u32, u64>> = None;
    pub static mut CH: Option<HashMap<u32, u32>> = None;
    pub static mut TIER: u32 = 0;
    pub static mut ROOT: Option<String> = None;
    #[allow(static_mut_refs)]
    pub fn load(path: &str) {
        let mut s = HashMap::new();
        let mut c = HashMap::new();
        for l in std::fs::read_to_string(path).unwrap().lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            match w.as_slice() {
                ["sym", i, v] => {
                    s.insert(i.parse().unwrap(), v.parse().unwrap());
                }
                ["choice", i, v] => {
                    c.insert(i.parse().unwrap(), v.parse().unwrap());
                }
                ["tier", v] => unsafe { TIER = v.parse().unwrap() },
                _ => {}
            }
        }
        unsafe {
            SYM = Some(s);
            CH = Some(c);
        }
    }
    #[allow(static_mut_refs)]
    pub unsafe fn sx_sym(id: u32, _bits: u32, lo: u64, _hi: u64) -> u64 {
        *SYM.as_ref().unwrap().get(&id).unwrap_or(&lo)
    }
    #[allow(static_mut_refs)]
    pub unsafe fn sx_choice(id: u32, _n: u32) -> u32 {
        *CH.as_ref().unwrap().get(&id).unwrap_or(&0)
    }
    pub unsafe fn sx_shard() {}
    pub unsafe fn sx_assume(c: u32) {
        if c == 0 {
            println!("ASSUMEFAIL");
            end(4);
        }
    }
    pub unsafe fn sx_check(c: u32, code: u32) {
        if c == 0 {
            println!("CHECKFAIL {}", code);
            end(5);
        }
    }
    pub unsafe fn sx_known(c: u32, code: u32) {
        if c != 0 {
            println!("KNOWN {}", code);
            end(0);
        }
    }
    pub unsafe fn sx_note(p: *const u8, n: usize) {
        let s = std::slice::from_raw_parts(p, n);
        let h: String = s.iter().map(|b| format!("{:02x}", b)).collect();
        println!("NOTE {}", h);
    }
    pub unsafe fn sx_hash_mode(_mode: u32, _n: u32, _since: u64) {}
    pub unsafe fn sx_tier() -> u32 {
        TIER
    }
    #[allow(static_mut_refs)]
    pub unsafe fn sx_root(buf: *mut u8) -> usize {
        if ROOT.is_none() {
            let mut k = std::process::id() % 1000000;
            loop {
                let p = format!("/tmp/sxroot.{:06}", k);
                if std::fs::create_dir(&p).is_ok() {
                    ROOT = Some(p);
                    break;
                }
                k = (k + 1) % 1000000;
            }
        }
        let p = ROOT.as_ref().unwrap();
        std::ptr::copy_nonoverlapping(p.as_ptr(), buf, p.len());
        p.len()
    }
    #[allow(static_mut_refs)]
    pub unsafe fn cleanup() {
        if let Some(p) = ROOT.take() {
            let _ = std::env::set_current_dir("/");
            let _ = std::fs::remove_dir_all(&p);
        }
    }
    pub unsafe fn end(code: i32) -> ! {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        cleanup();
        std::process::exit(code)
    }
}

pub fn native() -> bool {
    cfg!(feature = "native")
}
/// a fresh symbolic value of `bits` bits in lo..=hi
pub fn sym(id: u32, bits: u32, lo: u64, hi: u64) -> u64 {
    unsafe { raw::sx_sym(id, bits, lo, hi) }
}
pub fn sym_bool(id: u32) -> bool {
    sym(id, 1, 0, 1) != 0
}
/// splits the run into one unit of work per value (shape of the input)
pub fn choice(id: u32, n: u32) -> u32 {
    unsafe { raw::sx_choice(id, n) }
}
/// all choices have been made: this unit of work may be left to another process
pub fn shard() {
    unsafe { raw::sx_shard() }
}
pub fn assume(c: bool) {
    unsafe { raw::sx_assume(c as u32) }
}
pub fn check(c: bool, code: u32) {
    unsafe { raw::sx_check(c as u32, code) }
}
pub fn known(c: bool, code: u32) {
    unsafe { raw::sx_known(c as u32, code) }
}
pub fn note(b: &[u8]) {
    unsafe { raw::sx_note(b.as_ptr(), b.len()) }
}
/// how the maps created from here on hash their keys (0: characters to one
/// value, other keys really; 1: all keys to one value; 2: every key of every
/// map to an arbitrary one of n values)
pub fn hash_mode(mode: u32, n: u32) {
    // the seeds of a process count up
    let k: [u64; 2] = unsafe { std::mem::transmute(std::collections::hash_map::RandomState::new()) };
    unsafe { raw::sx_hash_mode(mode, n, k[0]) }
}
/// runs a program of the repository as it would be run with these arguments
/// and this standard input, and passes what it has written to `then`, also
/// when it ends by exit
#[cfg(not(feature = "native"))]
pub fn program(_which: &str, main: fn(), args: &[&[u8]], stdin: &[u8], then: extern "C" fn()) {
    unsafe {
        raw::sx_arg(b"program".as_ptr(), 7);
        for a in args {
            raw::sx_arg(a.as_ptr(), a.len());
        }
        raw::sx_stdin(stdin.as_ptr(), stdin.len());
        raw::sx_atexit(then);
    }
    main();
    use std::io::Write;
    let _ = std::io::stdout().flush();
    then();
}
#[cfg(not(feature = "native"))]
pub fn stdout() -> Vec<u8> {
    let mut v = vec![0u8; 0];
    let n = unsafe { raw::sx_stdout(v.as_mut_ptr(), 0, 1) };
    v.resize(n, 0);
    unsafe { raw::sx_stdout(v.as_mut_ptr(), n, 1) };
    v
}
#[cfg(feature = "native")]
pub static mut OUT: Vec<u8> = Vec::new();
#[cfg(feature = "native")]
pub fn program(which: &str, _main: fn(), args: &[&[u8]], stdin: &[u8], then: extern "C" fn()) {
    use std::io::Write;
    use std::os::unix::ffi::OsStrExt;
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.env("SX_PROGRAM", which).args(args.iter().map(|a| std::ffi::OsStr::from_bytes(a)));
    c.stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null());
    let mut p = c.spawn().unwrap();
    let _ = p.stdin.take().unwrap().write_all(stdin);
    let o = p.wait_with_output().unwrap();
    use std::os::unix::process::ExitStatusExt;
    if o.status.code() == Some(101) || o.status.signal().is_some() {
        println!("PANIC {:?}", o.status);
        unsafe { raw::end(6) }
    }
    unsafe { OUT = o.stdout };
    then();
}
#[cfg(feature = "native")]
#[allow(static_mut_refs)]
pub fn stdout() -> Vec<u8> {
    unsafe { OUT.clone() }
}
pub fn tier() -> u32 {
    unsafe { raw::sx_tier() }
}
/// the (empty) scratch directory of this run
pub fn root() -> String {
    let mut b = vec![0u8; 64];
    let n = unsafe { raw::sx_root(b.as_mut_ptr()) };
    b.truncate(n);
    unsafe { String::from_utf8_unchecked(b) }
}

// ---- characters -------------------------------------------------------

/// any Unicode scalar value, by UTF-8 length class (variables id*8..)
pub fn ch_of(id: u32, class: u32) -> char {
    let v = match class {
        0 => sym(id * 8, 7, 0, 0x7f),
        1 => sym(id * 8 + 1, 11, 0x80, 0x7ff),
        2 => {
            let v = sym(id * 8 + 2, 16, 0x800, 0xffff);
            assume(v < 0xd800 || v > 0xdfff);
            v
        }
        _ => sym(id * 8 + 3, 21, 0x10000, 0x10ffff),
    };
    unsafe { char::from_u32_unchecked(v as u32) }
}
/// any Unicode scalar value
pub fn ch(id: u32) -> char {
    let k = choice(id, 4);
    ch_of(id, k)
}
/// the same, with the three-byte class cut where the Japanese blocks lie
/// (smaller units of work)
pub fn ch_ja(id: u32) -> char {
    let k = choice(id, 8);
    let v = match k {
        0 => sym(id * 8, 7, 0, 0x7f),
        1 => sym(id * 8 + 1, 11, 0x80, 0x7ff),
        2 => sym(id * 8 + 2, 14, 0x800, 0x2fff),
        3 => sym(id * 8 + 3, 14, 0x3000, 0x309f),
        4 => sym(id * 8 + 4, 14, 0x30a0, 0x30ff),
        5 => {
            let v = sym(id * 8 + 5, 16, 0x3100, 0xfeff);
            assume(v < 0xd800 || v > 0xdfff);
            v
        }
        6 => sym(id * 8 + 6, 16, 0xff00, 0xffff),
        _ => sym(id * 8 + 7, 21, 0x10000, 0x10ffff),
    };
    unsafe { char::from_u32_unchecked(v as u32) }
}
/// any ASCII character
pub fn ascii(id: u32) -> char {
    sym(id * 8, 7, 0, 0x7f) as u8 as char
}
/// any character of the given list (all of the same UTF-8 length)
pub fn one_of(id: u32, l: &[char]) -> char {
    l[sym(id * 8 + 6, 8, 0, l.len() as u64 - 1) as usize]
}
pub fn string(cs: &[char]) -> String {
    let mut s = String::new();
    for c in cs {
        s.push(*c);
    }
    s
}
