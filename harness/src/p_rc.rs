//! P21: start-up configuration.  P22: file types.
use crate::sx::*;
use chanoma::error::Error;
use chanoma::file_extension::FileExtension;
use chanoma::Chanoma;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::path::PathBuf;

const NAMES: [&str; 6] = ["chanomarc.csv", "chanomarc.yaml", "chanomarc.yml", ".chanomarc.csv", ".chanomarc.yaml", ".chanomarc.yml"];
fn letter(i: usize) -> char {
    (b'a' + i as u8) as char
}
/// a table that replaces the letter of file i
fn content(i: usize, csv: bool) -> String {
    let l = letter(i);
    if csv {
        format!("x,y\n{},-\n", l)
    } else {
        format!("items: {{\"-\": {}}}\n", l)
    }
}
fn mkdir(p: &str) {
    check(std::fs::create_dir_all(p).is_ok(), 90);
}
fn put(p: &str, b: &str) {
    check(std::fs::write(p, b.as_bytes()).is_ok(), 91);
}
const ALL: &str = "abcdefghijklmnopqrs";
/// the letters of the files loaded, in order
fn loaded(c: &Chanoma) -> String {
    let r = c.normalize_with_positions(ALL);
    let mut last = ALL.to_string();
    let mut s = String::new();
    for x in r.modified_records() {
        check(x.text.len() == ALL.len(), 8);
        for (a, b) in last.chars().zip(x.text.chars()) {
            if a != b {
                check(b == '-', 9);
                s.push(a);
            }
        }
        s.push('.');
        last = x.text.clone();
    }
    check(c.normalize(ALL) == last, 7);
    s.replace('.', "")
}
struct Place {
    home: String,
    conf: String,
    cwd: String,
    /// which of the directories above the files of the third one lie in
    third: usize,
}
/// HOME and the current directory
fn place(k: u32) -> Place {
    let r = root();
    let home = format!("{}/{}home", r, if k == 8 { "cwd/" } else { "" });
    let conf = format!("{}/.config/chanoma", home);
    mkdir(&conf);
    let (mut set, mut cwd, mut third) = (home.clone(), format!("{}/cwd", r), 2);
    mkdir(&cwd);
    match k {
        0 => {}
        1 => {
            cwd = home.clone();
            third = 1;
        }
        2 => {
            cwd = conf.clone();
            third = 0;
        }
        3 => {
            set = format!("{}/cwd/../home/", r);
            cwd = home.clone();
            third = 1;
        }
        4 => {
            set = "../home".to_string();
        }
        6 => {
            // below the home directory
            cwd = format!("{}/sub", home);
            mkdir(&cwd);
        }
        7 => cwd = format!("{}/.config", home),
        8 => {}
        _ => {
            // a directory whose name starts like the other
            cwd = format!("{}/home2", r);
            mkdir(&cwd);
        }
    }
    check(std::env::set_current_dir(&cwd).is_ok(), 92);
    std::env::set_var("HOME", &set);
    std::env::remove_var("CHANOMARC");
    Place { home, conf, cwd, third }
}
fn dir(p: &Place, d: usize) -> &str {
    match d {
        0 => &p.conf,
        1 => &p.home,
        _ => &p.cwd,
    }
}
fn run(p: &Place, have: &[bool; 18]) {
    let mut want = String::new();
    for d in 0..3 {
        if d == 2 && p.third < 2 {
            break;
        }
        for i in 0..6 {
            if have[d * 6 + i] {
                put(&format!("{}/{}", dir(p, d), NAMES[i]), &content(d * 6 + i, i % 3 == 0));
                want.push(letter(d * 6 + i));
            }
        }
    }
    match Chanoma::load_rc() {
        Ok(c) => {
            let got = loaded(&c);
            note(got.as_bytes());
            check(got == want, 1);
        }
        Err(_) => check(false, 2),
    }
}
// every combination of the files of two directories
#[no_mangle]
pub extern "C" fn h_p21_a() {
    let k = choice(90, 9);
    let two = choice(91, 2) as usize;
    // one of the directories has any of two more files
    let f = choice(92, 8);
    // quick: three of the other nine at a time
    let g = choice(93, if tier() == 1 { 1 } else { 3 }) as usize;
    shard();
    let p = place(k);
    let mut have = [false; 18];
    for i in 0..12 {
        let j = if two == 0 { i } else { 17 - i };
        have[j] = if i < 3 { f & (1 << i) != 0 } else { (tier() == 1 || i % 3 == g) && sym_bool(900 + j as u32) };
    }
    run(&p, &have);
}
// one file of each directory, and all of them
#[no_mangle]
pub extern "C" fn h_p21_b() {
    let k = choice(90, 9);
    let i = choice(91, 6) as usize;
    let j = choice(92, if tier() == 1 { 6 } else { 1 }) as usize;
    shard();
    let p = place(k);
    let all = sym_bool(900);
    let mut have = [all; 18];
    for d in 0..3 {
        have[d * 6 + i] ^= sym_bool(910 + d as u32);
        if i != j && tier() == 1 {
            have[d * 6 + j] ^= sym_bool(920 + d as u32);
        }
    }
    run(&p, &have);
}
// what is no regular file is left out; a bad file is an error
#[no_mangle]
pub extern "C" fn h_p21_c() {
    let d = choice(90, 3) as usize;
    let i = choice(91, 6) as usize;
    let k = choice(92, 4);
    shard();
    let p = place(0);
    let bad = format!("{}/{}", dir(&p, d), NAMES[i]);
    if k == 0 {
        mkdir(&bad);
        let mut have = [false; 18];
        have[(d * 6 + i + 1) % 18] = true;
        run(&p, &have);
        return;
    }
    put(&format!("{}/{}", dir(&p, 1), NAMES[(i + 1) % 6]), &content(3, (i + 1) % 3 == 0));
    let ok = k == 3;
    check(
        std::fs::write(
            &bad,
            match (k, i % 3) {
                (1, 0) => &b"x,y\n\xff,b\n"[..],
                (1, _) => b"items: [\n",
                (2, 0) => b"x,y\nab\xc0,b\n",
                (2, _) => b"modifiers:\n  no_such: 1\n",
                (_, 0) => b"x,y\n",
                _ => b"other: 1\n",
            },
        )
        .is_ok(),
        93,
    );
    let r = Chanoma::load_rc().is_ok();
    note(&[r as u8]);
    check(r == ok, 3);
}
// the current directory is gone, HOME does not exist
#[no_mangle]
pub extern "C" fn h_p21_d() {
    let k = choice(90, 4);
    let i = choice(91, 6) as usize;
    shard();
    let p = place(0);
    let s = [sym_bool(900), sym_bool(901)];
    for d in 0..2 {
        if s[d] {
            put(&format!("{}/{}", dir(&p, d), NAMES[i]), &content(d, i % 3 == 0));
        }
    }
    let mut want = String::new();
    match k {
        0 => check(std::fs::remove_dir(&p.cwd).is_ok(), 94),
        1 => std::env::set_var("HOME", format!("{}/none", root())),
        2 => {
            check(std::fs::remove_dir(&p.cwd).is_ok(), 94);
            std::env::set_var("HOME", format!("{}/none", root()));
        }
        _ => {}
    }
    if k == 0 || k == 3 {
        for d in 0..2 {
            if s[d] {
                want.push(letter(d));
            }
        }
    }
    match Chanoma::load_rc() {
        Ok(c) => {
            let got = loaded(&c);
            note(got.as_bytes());
            check(got == want, 1)
        }
        Err(_) => check(false, 2),
    }
}
// CHANOMARC
#[no_mangle]
pub extern "C" fn h_p21_e() {
    let k = choice(90, 22);
    shard();
    let p = place(0);
    let r = root();
    // these must be left alone
    let mut n = 0;
    for d in 0..3 {
        if sym_bool(900 + d as u32) {
            put(&format!("{}/{}", dir(&p, d), NAMES[d * 2]), &content(d, d * 2 % 3 == 0));
            n += 1;
        }
    }
    let u = |s: &str| OsString::from(s);
    let at = |s: &str| OsString::from(format!("{}/{}", r, s));
    let none: Option<usize> = None;
    let f = |name: &str, i: usize, csv: bool| {
        put(&format!("{}/{}", r, name), &content(i, csv));
        Some(i)
    };
    let (v, want) = match k {
        0 => (at("my.csv"), f("my.csv", 5, true)),
        1 => (at("my.yaml"), f("my.yaml", 6, false)),
        2 => (at("my.yml"), f("my.yml", 7, false)),
        3 => (u("../my.csv"), f("my.csv", 5, true)),
        4 => (at("cwd/../my.yml"), f("my.yml", 5, false)),
        5 => (at("a.b.csv"), f("a.b.csv", 8, true)),
        6 => (at(".x.yaml"), f(".x.yaml", 9, false)),
        7 => (at("none.csv"), none),
        8 => (at("none.yaml"), none),
        9 => {
            mkdir(&format!("{}/d.csv", r));
            (at("d.csv"), none)
        }
        10 => {
            f("my.txt", 1, true);
            (at("my.txt"), none)
        }
        11 => {
            f("my.CSV", 1, true);
            (at("my.CSV"), none)
        }
        12 => {
            f("mycsv", 1, true);
            (at("mycsv"), none)
        }
        13 => {
            f(".csv", 1, true);
            (at(".csv"), none)
        }
        14 => (u(""), none),
        15 => (OsString::from_vec(b"x\xff.csv".to_vec()), none),
        16 => (OsString::from_vec(b"/\xff/my.\xfe".to_vec()), none),
        17 => (u("."), none),
        18 => (u("/"), none),
        19 => {
            f("my.csv.", 1, true);
            (at("my.csv."), none)
        }
        20 => {
            f("my.json", 1, false);
            (at("my.json"), none)
        }
        _ => {
            put(&format!("{}/bad.yaml", r), "items: 1\n");
            (at("bad.yaml"), none)
        }
    };
    std::env::set_var("CHANOMARC", &v);
    let l = Chanoma::load_rc();
    note(&[n, l.is_ok() as u8]);
    match (l, want) {
        (Ok(c), Some(i)) => check(loaded(&c) == string(&[letter(i)]), 4),
        (Err(e), None) => {
            check(!e.to_string().is_empty(), 5);
            if k < 21 {
                // refused before it is read, naming it
                check(matches!(e.downcast_ref::<Error>(), Some(Error::RcFileLoadError(p)) if p.as_os_str() == v), 10);
            }
        }
        _ => check(false, 6),
    }
}
// CHANOMARC with any ending
#[no_mangle]
pub extern "C" fn h_p21_f() {
    let n = choice(90, 6);
    shard();
    let p = place(0);
    put(&format!("{}/chanomarc.csv", p.home), &content(0, true));
    let r = root();
    const F: [(&str, bool); 8] =
        [("x.csv", true), ("x.yml", true), ("x.yaml", true), ("x.CSV", false), ("xcsv", false), ("x.tsv", false), ("x", false), ("x.", false)];
    for (i, x) in F.iter().enumerate() {
        put(&format!("{}/{}", r, x.0), &content(10 + i, x.0.ends_with("csv")));
    }
    let mut v = format!("{}/x", r).into_bytes();
    let m = v.len() - 1;
    for i in 0..n {
        v.push(sym(8 * (1 + i), 8, 1, 255) as u8);
    }
    // nothing else that exists
    if n >= 3 {
        assume(!(v[m + 1] == b'/'));
    }
    std::env::set_var("CHANOMARC", OsString::from_vec(v.clone()));
    let l = Chanoma::load_rc();
    note(&[l.is_ok() as u8]);
    let mut want = None;
    for (i, x) in F.iter().enumerate() {
        if x.1 && v[m..] == *x.0.as_bytes() {
            want = Some(i);
        }
    }
    match (l, want) {
        (Ok(c), Some(i)) => check(loaded(&c) == string(&[letter(10 + i)]), 4),
        (Err(_), None) => {}
        _ => check(false, 6),
    }
}

// ---- P22 ----
#[derive(PartialEq)]
enum Ext<'a> {
    None,
    Some(&'a [u8]),
}
/// the extension of the last component
fn extension(p: &[u8]) -> Ext {
    // the last component: neither empty nor "."
    let mut end = p.len();
    loop {
        if end > 0 && p[end - 1] == b'/' {
            end -= 1;
        } else if end > 1 && p[end - 1] == b'.' && p[end - 2] == b'/' {
            end -= 2;
        } else {
            break;
        }
    }
    let mut start = end;
    while start > 0 && p[start - 1] != b'/' {
        start -= 1;
    }
    let name = &p[start..end];
    if name.len() == 2 && name[0] == b'.' && name[1] == b'.' {
        return Ext::None;
    }
    let mut i = name.len();
    while i > 1 {
        if name[i - 1] == b'.' {
            return Ext::Some(&name[i..]);
        }
        i -= 1;
    }
    Ext::None
}
fn p22(p: &[u8]) {
    let path = PathBuf::from(OsString::from_vec(p.to_vec()));
    let got = FileExtension::from_path(&path);
    let e = match extension(p) {
        Ext::None => {
            note(b"none");
            check(matches!(got, Err(Error::FileExtensionNotFoundInPath(ref q)) if *q == path), 1);
            return;
        }
        Ext::Some(e) => e,
    };
    let s = match std::str::from_utf8(e) {
        Err(_) => {
            note(b"undecodable");
            check(matches!(got, Err(Error::FileExtensionCanNotConvertToStr(ref q)) if *q == path), 2);
            return;
        }
        Ok(s) => s,
    };
    if s == "csv" {
        note(b"csv");
        check(matches!(got, Ok(FileExtension::Csv)), 3);
    } else if s == "yaml" || s == "yml" {
        note(b"yaml");
        check(matches!(got, Ok(FileExtension::Yaml)), 4);
    } else {
        note(b"other");
        check(matches!(got, Err(Error::UnsupportedFileExtensionError(ref q)) if *q == s), 5);
    }
    if let Err(x) = FileExtension::from_path(&path) {
        check(!x.to_string().is_empty(), 6);
    }
}
// any bytes
#[no_mangle]
pub extern "C" fn h_p22_a() {
    let n = choice(90, if tier() == 0 { 6 } else { 7 });
    shard();
    let p: Vec<u8> = (0..n).map(|i| sym(8 * (1 + i), 8, 0, 255) as u8).collect();
    p22(&p);
}
// a name put together of parts and any bytes
#[no_mangle]
pub extern "C" fn h_p22_b() {
    const A: [&str; 10] = ["", "a", "d.csv/", "/", "./", "../", "a.b", ".", "日本", "/a//b./c"];
    const Z: [&str; 12] = ["", ".csv", ".yaml", ".yml", "csv", "/", "/.", "/..", ".csv/", ".csv/.", ".CSV", ".csv.yml"];
    let a = choice(90, A.len() as u32) as usize;
    let z = choice(91, Z.len() as u32) as usize;
    let n = choice(92, 3);
    shard();
    let mut p = A[a].as_bytes().to_vec();
    for i in 0..n {
        p.push(sym(8 * (1 + i), 8, 0, 255) as u8);
    }
    p.extend(Z[z].as_bytes());
    p22(&p);
}
// extensions of up to five bytes
#[no_mangle]
pub extern "C" fn h_p22_c() {
    let n = choice(90, 6);
    let k = choice(91, 2);
    shard();
    let mut p = b"dir/name.".to_vec();
    for i in 0..n {
        p.push(sym(8 * (1 + i), 8, 0, 255) as u8);
    }
    if k == 1 {
        p.push(b'/');
    }
    p22(&p);
}
// the format follows from the extension
#[no_mangle]
pub extern "C" fn h_p22_d() {
    const N: [(&str, u32); 14] = [
        ("x.csv", 1),
        ("x.yaml", 2),
        ("x.yml", 2),
        ("x.y.csv", 1),
        ("x.csv.yaml", 2),
        (".x.csv", 1),
        ("..yml", 2),
        ("x", 0),
        (".csv", 0),
        ("x.CSV", 0),
        ("x.Yaml", 0),
        ("x.", 0),
        ("x.csv.bak", 0),
        ("csv", 0),
    ];
    let k = choice(90, N.len() as u32) as usize;
    let e = choice(91, 2);
    let a = one_of(1, &['a', 'b', 'c', 'z']);
    shard();
    let p = format!("{}/{}", root(), N[k].0);
    // as CSV: the second row; as YAML: the second line is the table
    if e == 0 {
        put(&p, "{from: a, to: b}\n# a,b,Y\nitems: {X: [a,b]}");
    } else {
        put(&p, "x: y\n#a,b,Y\nitems: {X: [a, b], \"z\": c,}");
    }
    let _ = a;
    let got = Chanoma::from_config_file(&p);
    note(&[got.is_ok() as u8]);
    match N[k].1 {
        0 => check(
            matches!(got, Err(Error::FileExtensionNotFoundInPath(_)) | Err(Error::UnsupportedFileExtensionError(_))),
            10,
        ),
        f => match got {
            Ok(c) => {
                let t = string(&[a]);
                let r = c.normalize(&t);
                note(r.as_bytes());
                let w = match (f, e) {
                    (1, _) => {
                        if a == 'b' {
                            'Y'
                        } else {
                            a
                        }
                    }
                    (_, 0) => a,
                    _ => match a {
                        'a' | 'b' => 'X',
                        'c' => 'z',
                        x => x,
                    },
                };
                if f == 2 && e == 0 {
                    check(false, 11);
                }
                check(r == string(&[w]), 12);
            }
            // not YAML
            Err(x) => check(f == 2 && e == 0 && matches!(x, Error::YamlFileLoadError(_)), 13),
        },
    }
}
// the name of an extension by itself
#[no_mangle]
pub extern "C" fn h_p22_e() {
    use std::str::FromStr;
    let n = choice(90, if tier() == 1 { 8 } else { 7 });
    let d = choice(91, 2);
    shard();
    let mut b: Vec<u8> = Vec::new();
    if d == 1 {
        b.push(b'.');
    }
    for i in 0..n {
        b.push(sym(8 * (1 + i), 7, 0, 127) as u8);
    }
    let s = String::from_utf8(b).unwrap();
    let r = FileExtension::from_str(&s);
    note(&[r.is_ok() as u8]);
    let e = match s.as_bytes() {
        b"csv" | b".csv" => Some(FileExtension::Csv),
        b"yaml" | b".yaml" | b"yml" | b".yml" => Some(FileExtension::Yaml),
        _ => None,
    };
    match (r, e) {
        (Ok(x), Some(y)) => {
            check(x == y, 1);
            check(FileExtension::from_str(&x.to_string()).ok() == Some(y), 2);
        }
        (Err(Error::UnsupportedFileExtensionError(q)), None) => check(q == s, 3),
        _ => check(false, 4),
    }
}
// ---- P28: start-up configurations, one after another ----
fn up(want: Option<&str>, code: u32) -> Option<Chanoma> {
    match (Chanoma::load_rc(), want) {
        (Ok(c), Some(w)) => {
            let got = loaded(&c);
            note(got.as_bytes());
            check(got == w, code);
            Some(c)
        }
        (Err(_), None) => None,
        _ => {
            check(false, code);
            None
        }
    }
}
#[no_mangle]
pub extern "C" fn h_p28_e() {
    let k = [choice(90, 6), choice(91, 6), choice(92, 6)];
    shard();
    let p = place(0);
    let r = root();
    put(&format!("{}/my.csv", r), &content(9, true));
    let home = format!("{}/.chanomarc.yml", p.home);
    let here = format!("{}/chanomarc.csv", p.cwd);
    let mut has = (None, None);
    let mut env = false;
    let mut past: Vec<(Chanoma, String)> = Vec::new();
    for i in 0..3usize {
        match k[i] {
            // nothing changes
            0 => {}
            1 => {
                put(&home, &content(i, false));
                has.0 = Some(letter(i));
            }
            2 => {
                put(&here, &content(3 + i, true));
                has.1 = Some(letter(3 + i));
            }
            3 => {
                let _ = std::fs::remove_file(&home);
                let _ = std::fs::remove_file(&here);
                has = (None, None);
            }
            4 => {
                std::env::set_var("CHANOMARC", format!("{}/my.csv", r));
                env = true;
            }
            _ => {
                if env {
                    put(&format!("{}/my.csv", r), &content(12 + i, true));
                    past.push((up(Some(&letter(12 + i).to_string()), 1).unwrap(), letter(12 + i).to_string()));
                    put(&format!("{}/my.csv", r), &content(9, true));
                }
                std::env::remove_var("CHANOMARC");
                env = false;
            }
        }
        let w: String = if env { letter(9).to_string() } else { has.0.iter().chain(has.1.iter()).collect() };
        past.push((up(Some(&w), 2).unwrap(), w));
    }
    for (c, w) in &past {
        check(loaded(c) == *w, 3);
    }
}
