//! Large configurations: more than a byte counts of entries, rules, steps, rows and cells, and
//! texts of more than 65,536 characters.
use crate::p_basic::*;
use crate::p_csv::{expect, load_csv, same_set};
use crate::p_neo::{neo, p08, p09};
use crate::p_pipe::{p11, pipeline};
use crate::p_pos::{p13, p14_run, p14_trim};
use crate::p_yaml::load_yaml;
use crate::spec;
use crate::sx::*;
use chanoma::file::{to_csv_writer, to_serialized_corr};
use chanoma::{Chanoma, Correspondence, Item, Synthesized, Table};

const N: u32 = 300;
/// the i-th of a block of characters
fn cjk(i: u32) -> char {
    char::from_u32(0x4e00 + i).unwrap()
}
fn kan(i: u32) -> char {
    char::from_u32(0x1f200 + i).unwrap()
}
fn is_cjk(c: char) -> bool {
    c >= cjk(0) && c < cjk(N)
}
// ---- P01 ----
#[no_mangle]
pub extern "C" fn h_p01_m() {
    let k = choice(90, 3);
    let a = ch(1);
    shard();
    // chained: each converts to the next
    let c = match k {
        0 => Chanoma::from_table(table((0..N).map(|i| Item::new(st(cjk(i)), st(cjk(i + 1)))).collect())),
        _ => {
            let mut y = String::from(if k == 1 { "modifiers:\n  character_converter:\n" } else { "items:\n" });
            for i in (0..N).rev() {
                if k == 1 {
                    y.push_str(&format!("    {}: {}\n", cjk(i), cjk(i + 1)));
                } else {
                    y.push_str(&format!("  - {{from: {}, to: {}}}\n", cjk(i), cjk(i + 1)));
                }
            }
            from_file("c.yaml", &y)
        }
    };
    let t = [a, 'x', cjk(0), cjk(N - 1), cjk(N), cjk(255), cjk(256), a];
    let e: Vec<char> = t.iter().map(|&x| if is_cjk(x) { char::from_u32(x as u32 + 1).unwrap() } else { x }).collect();
    let s = string(&t);
    same(&c.normalize(&s), &e, 1);
    check(c.normalize_with_positions(&s).text() == string(&e), 2);
    if k == 0 {
        p13(&c, &t, &|x| if is_cjk(x) { char::from_u32(x as u32 + 1) } else { None });
    }
}
// all of them in one text
#[no_mangle]
pub extern "C" fn h_p01_n() {
    let a = ch(1);
    shard();
    let c = Chanoma::from_table(table((0..N).map(|i| Item::new(st(cjk(i)), st(kan(i)))).collect()));
    let mut t = vec![a];
    for i in 0..N {
        t.push(cjk((i * 7) % N));
    }
    let e: Vec<char> = t.iter().map(|&x| if is_cjk(x) { kan(x as u32 - 0x4e00) } else { x }).collect();
    same(&c.normalize(&string(&t)), &e, 1);
}
// ---- P02, P08, P09, P13: every character of a mode in one text ----
/// the characters the two modes are concerned with, and some others
fn every(k: u32, a: char) -> Vec<char> {
    let mut t: Vec<char> = Vec::new();
    let mut r = |f: u32, l: u32| (f..=l).for_each(|u| t.push(char::from_u32(u).unwrap()));
    r(0xff01, 0xff5d);
    r(0xff61, 0xff9f);
    r(0x2018, 0x201d);
    r(0xffe0, 0xffe6);
    r(0x3000, 0x3002);
    if k > 0 {
        r(0x2010, 0x2015);
        r(0x2500, 0x2501);
        r(0x3042, 0x30fe);
        for u in [0x2d7, 0x58a, 0x2043, 0x207b, 0x208b, 0x2212, 0xfe63] {
            r(u, u);
        }
    } else {
        r(0x301c, 0x301c);
    }
    if k == 2 {
        // each kana with a mark
        let mut u: Vec<char> = Vec::new();
        for x in 0x3041..0x30fb {
            u.push(char::from_u32(x).unwrap());
            u.push(if x % 3 == 0 { '゜' } else { '゛' });
        }
        t = u;
    }
    t.push(a);
    let n = t.len();
    (0..n).map(|i| if k == 2 { t[i] } else { t[i * 5 % n] }).collect()
}
#[no_mangle]
pub extern "C" fn h_p02_m() {
    let a = ch(1);
    shard();
    preset_checks(&Chanoma::preset(), &every(0, a));
}
#[no_mangle]
pub extern "C" fn h_p08_m() {
    let k = choice(90, 2);
    let a = ch(1);
    shard();
    p08(&neo(0), &every(1 + k, a), false);
}
#[no_mangle]
pub extern "C" fn h_p13_m() {
    let a = ch(1);
    shard();
    p13(&Chanoma::preset(), &every(0, a), &|x| if spec::preset(x) == x { None } else { Some(spec::preset(x)) });
}
// ---- P04 ----
#[no_mangle]
pub extern "C" fn h_p04_m() {
    let k = choice(90, 2);
    let a = ch(1);
    shard();
    let mut y = String::from("modifiers:\n  character_eliminator:\n");
    for i in 0..N {
        y.push_str(&format!("    - {}\n", if k == 0 { cjk(i) } else { cjk(N - 1 - i) }));
    }
    let c = from_file("c.yaml", &y);
    let mut t = vec![a, 'x'];
    for i in 0..N {
        t.push(cjk((i * 7) % (N + 2)));
    }
    t.push(a);
    let e: Vec<char> = t.iter().cloned().filter(|x| !is_cjk(*x)).collect();
    same(&c.normalize(&string(&t)), &e, 1);
}
// ---- P07 ----
#[no_mangle]
pub extern "C" fn h_p07_m() {
    let k = choice(90, 3);
    let a = ch(1);
    shard();
    let mut y = String::from("modifiers:\n  ligature_translator:\n");
    let mut t = vec!['あ', a, 'あ'];
    let e;
    match k {
        // many rules
        0 => {
            for i in 0..N {
                y.push_str(&format!("    あ{}: {}\n", cjk(i), kan(i)));
            }
            for i in [0, N - 1, N, 255, 256, 20] {
                t.push('あ');
                t.push(cjk(i));
            }
            t.push(a);
            let mut o = Vec::new();
            let mut i = 0;
            while i < t.len() {
                if t[i] == 'あ' && i + 1 < t.len() && is_cjk(t[i + 1]) {
                    o.push(kan(t[i + 1] as u32 - cjk(0) as u32));
                    i += 2;
                } else {
                    o.push(t[i]);
                    i += 1;
                }
            }
            e = o;
        }
        // a long sequence, and a long replacement
        _ => {
            let n = if k == 1 { 20 } else { N };
            let f: Vec<char> = (0..n).map(|i| cjk(i % 5 * (i % 3))).collect();
            let to: Vec<char> = (0..n + 7).map(|i| kan(i % 5)).collect();
            y.push_str(&format!("    ? {}\n    : {}\n", string(&f), string(&to)));
            t.extend(&f);
            t.push(a);
            t.extend(&f[..f.len() - 1]);
            t.push(a);
            t.extend(&f);
            t.extend(&f);
            e = spec::replace(&t, &f, &to);
        }
    }
    let c = from_file("c.yaml", &y);
    same(&c.normalize(&string(&t)), &e, 1);
}
// ---- P11, P12, P14: many steps ----
fn chain(n: u32) -> Chanoma {
    let mut c = Chanoma::new();
    for i in 0..n {
        c.add_table(table(vec![Item::new(st(cjk(i)), st(cjk(i + 1)))]));
    }
    c
}
fn p12_chain(code: u32, check_records: bool) {
    let a = ch(1);
    shard();
    let c = chain(N);
    let t = [a, cjk(0), cjk(N - 1), cjk(N + 1), 'x'];
    let e: Vec<char> = t.iter().map(|&x| if is_cjk(x) { cjk(N) } else { x }).collect();
    let s = string(&t);
    if !check_records {
        same(&c.normalize(&s), &e, code);
        return;
    }
    let p = c.normalize_with_positions(&s);
    note(p.text().as_bytes());
    check(p.text() == string(&e), code);
    let r = p.modified_records();
    check(r.len() == N as usize, code + 1);
    for i in 0..N {
        let e: Vec<char> = t.iter().map(|&x| if x <= cjk(i) && is_cjk(x) { cjk(i + 1) } else { x }).collect();
        check(r[i as usize].text == string(&e), code + 2);
    }
}
#[no_mangle]
pub extern "C" fn h_p12_m() {
    p12_chain(1, false);
}
#[no_mangle]
pub extern "C" fn h_p11_m() {
    p12_chain(1, true);
}
// ---- P15 ----
#[no_mangle]
pub extern "C" fn h_p15_m() {
    let op = choice(90, 2);
    let k = choice(91, 3);
    let (f, t) = (ascii(1), ascii(2));
    shard();
    let blk = |i: u32| Item::new(st(cjk(i)), st(cjk(i + 1)));
    // an arbitrary entry in the left table, the right one, or both
    let x = Item::new(st(f), st(t));
    let mut a: Vec<Item> = (0..N).map(blk).collect();
    let mut b: Vec<Item> = (N / 2..N + N / 2).map(blk).collect();
    hash_mode(0, 0);
    let mut y = table(vec![]);
    if k != 1 {
        a.push(x.clone());
    }
    if k != 0 {
        b.push(x.clone());
    }
    hash_mode(1, 0);
    let mut want: Vec<Item>;
    if op == 0 {
        y.add(&Correspondence::new(Synthesized::new(a)));
        y.add(&Correspondence::new(Synthesized::new(b)));
        want = vec![x];
        want.extend((0..N + N / 2).map(blk));
    } else {
        y.add(&Correspondence::new(Synthesized::new(a)));
        y.remove(&Correspondence::new(Synthesized::new(b)));
        want = if k == 0 { vec![x] } else { vec![] };
        want.extend((0..N / 2).map(blk));
    }
    let v = y.items();
    check(v.len() == want.len(), 1);
    for i in 0..want.len() {
        check(v[i].from == want[i].from && v[i].to == want[i].to, 2);
    }
    note(v[0].to.as_bytes());
}
// ---- files ----
fn rows() -> Vec<(String, String)> {
    // about 20 KB
    (0..1500).map(|i| (st(cjk(i)), st(cjk((i * 7) % 1500)))).collect()
}
#[no_mangle]
pub extern "C" fn h_p16_m() {
    let k = choice(90, 2);
    let a = ch(1);
    shard();
    assume(a != ',' && a != '"' && a != '\n' && a != '\r');
    let mut s = String::from("from,to\n");
    let mut want = Vec::new();
    if k == 0 {
        for (f, t) in rows() {
            s.push_str(&format!("{}x{},{}\n", f, f, t));
            want.push((format!("{}x{}", f, f), t));
        }
        s.push_str(&format!("{},z\n", a));
        want.push((st(a), "z".into()));
    } else {
        // one row of many cells
        for i in 0..N {
            s.push_str(&format!("{},", cjk(i)));
            want.push((st(cjk(i)), st(a)));
        }
        s.push_str(&format!("{}\nb,c\n", a));
        want.push(("b".into(), "c".into()));
    }
    expect(&load_csv(s.as_bytes()), &want, 1);
}
#[no_mangle]
pub extern "C" fn h_p18_m() {
    let k = choice(90, 3);
    let a = ch_of(1, 2);
    shard();
    assume(a as u32 >= 0x3000 && (a as u32) < 0xd000);
    let mut s = String::from("items:\n");
    let mut want = Vec::new();
    match k {
        0 => {
            for (f, t) in &rows()[..600] {
                s.push_str(&format!("  - from: {}\n    to: {}\n", f, t));
                want.push((f.clone(), t.clone()));
            }
        }
        1 => {
            for i in 0..N {
                s.push_str(&format!("  x{}: {}\n", cjk(i), cjk(N - i)));
                want.push((st(cjk(N - i)), format!("x{}", cjk(i))));
            }
        }
        _ => {
            s.push_str("  yy:\n");
            for i in 0..N {
                s.push_str(&format!("    - {}\n", cjk(i)));
                want.push((st(cjk(i)), "yy".into()));
            }
        }
    }
    if k == 0 {
        s.push_str(&format!("  - from: {}\n    to: z\n", a));
        want.push((st(a), "z".into()));
    } else {
        s.push_str(&format!("  zz: {}\n", a));
        want.push((st(a), "zz".into()));
    }
    expect(&load_yaml(s.as_bytes()), &want, 1);
}
fn many(k: u32, a: char) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = (0..N)
        .map(|i| if k == 0 { (st(kan(i)), st(cjk(i))) } else { (st(cjk(i)), if i == 7 { "yy".into() } else { "zz".into() }) })
        .collect();
    v.push((st(a), "あ".into()));
    v
}
fn corr(v: &[(String, String)]) -> Correspondence<Synthesized> {
    Correspondence::new(Synthesized::new(v.iter().map(|x| Item::new(x.0.clone(), x.1.clone())).collect()))
}
fn sorted_same(mut v: Vec<(String, String)>, got: Vec<Item>, lost: &str) {
    // (the first row of a CSV file is taken as the header: a known finding)
    v.retain(|x| x.1 != lost);
    check(v.len() == got.len(), 1);
    let mut g: Vec<(String, String)> = got.into_iter().map(|x| (x.from, x.to)).collect();
    let key = |x: &(String, String)| (x.1.clone(), x.0.clone());
    v.sort_by_key(key);
    g.sort_by_key(key);
    for i in 0..v.len() {
        check(v[i].0 == g[i].0 && v[i].1 == g[i].1, 2);
    }
}
#[no_mangle]
pub extern "C" fn h_p17_m() {
    let k = choice(90, 2);
    let a = ch(1);
    shard();
    let mut v = many(k, a);
    v.push(("!".into(), "!".into()));
    let d = match to_csv_writer(&corr(&v), Vec::new()).into_inner() {
        Ok(d) => d,
        Err(_) => {
            check(false, 80);
            return;
        }
    };
    let got = load_csv(&d);
    note(&(got.len() as u32).to_le_bytes());
    let first = got.iter().any(|x| x.from == "!" && x.to == "!");
    known(!first, 1);
    sorted_same(v, got, if first { "" } else { "!" });
}
#[no_mangle]
pub extern "C" fn h_p19_m() {
    let k = choice(90, 2);
    let a = ch(1);
    shard();
    let v = many(k, a);
    let s = match serde_yaml::to_string(&to_serialized_corr(&corr(&v))) {
        Ok(s) => s,
        Err(_) => {
            check(false, 80);
            return;
        }
    };
    hash_mode(0, 0);
    let got = load_yaml(s.as_bytes());
    note(&(got.len() as u32).to_le_bytes());
    sorted_same(v, got, "");
}
#[allow(unused)]
fn _u(t: Table) {
    same_set(&[], &t.items(), 0);
}
// ---- texts of more than 65,536 characters ----
const W: usize = 66_000;
fn wide(a: char, run: char, fill: char) -> Vec<char> {
    let mut t = vec![a];
    t.extend(vec![run; 200]);
    t.extend(vec![fill; W]);
    t.push(a);
    t.push(run);
    t.push(run);
    t.push('b');
    t.push(a);
    t
}
fn a1() -> char {
    let a = if tier() == 1 { ch(1) } else { ch_of(1, 2) };
    shard();
    a
}
#[no_mangle]
pub extern "C" fn h_p01_w() {
    let a = a1();
    let c = Chanoma::from_table(table(vec![Item::new("a", "あ"), Item::new("あ", "b")]));
    let t = wide(a, 'a', 'x');
    let e: Vec<char> = t.iter().map(|&x| if x == 'a' { 'あ' } else if x == 'あ' { 'b' } else { x }).collect();
    let s = string(&t);
    check(c.normalize(&s) == string(&e), 1);
}
#[no_mangle]
pub extern "C" fn h_p02_w() {
    let a = a1();
    preset_checks(&Chanoma::preset(), &wide(a, 'Ａ', '　'));
}
#[no_mangle]
pub extern "C" fn h_p03_w() {
    let k = choice(90, 2);
    let a = a1();
    let (c, x) = reducer(k);
    p03(&c, x, &if k == 0 { wide(a, 'ー', 'x') } else { wide(a, 'x', 'a') });
}
#[no_mangle]
pub extern "C" fn h_p04_w() {
    let k = choice(90, 2);
    let a = a1();
    p04(2, &if k == 0 { wide(a, ' ', 'x') } else { wide(a, 'あ', ' ') });
}
#[no_mangle]
pub extern "C" fn h_p05_w() {
    let k = choice(90, 2);
    let a = if k == 0 { ch_of(1, 0) } else { a1() };
    p05(&if k == 0 { wide(a, 'x', ' ') } else { wide(a, ' ', '　') });
}
#[no_mangle]
pub extern "C" fn h_p06_w() {
    let k = choice(90, 3);
    let a = a1();
    let mut t = if k == 1 { vec![' '; W] } else { vec![' '] };
    t.extend(wide(a, ' ', if k == 0 { ' ' } else { 'x' }));
    t.extend(if k == 2 { vec![' '; W] } else { vec![' '] });
    p06(&t);
}
#[no_mangle]
pub extern "C" fn h_p07_w() {
    let k = choice(90, 4);
    let a = a1();
    let (y, f, to) = lig(k);
    let fc = chars(f);
    let mut t = vec![a];
    for _ in 0..if k == 1 { W / 2 } else { 300 } {
        t.extend(&fc);
    }
    if k != 1 {
        t.extend(vec!['x'; W]);
    }
    t.push(a);
    t.extend(&fc);
    t.push(a);
    let r = from_file("c.yaml", y).normalize(&string(&t));
    check(r == string(&spec::replace(&t, &fc, &chars(to))), 1);
}
#[no_mangle]
pub extern "C" fn h_p08_w() {
    let k = choice(90, 3);
    let a = a1();
    p08(&neo(0), &if k == 0 { wide(a, 'ー', 'x') } else if k == 1 { wide(a, 'か', ' ') } else { wide(a, '゛', 'ｰ') }, true);
}
#[no_mangle]
pub extern "C" fn h_p09_w() {
    let k = choice(90, 3);
    let a = a1();
    p09(&neo(0), &if k == 0 { wide(a, 'ー', 'x') } else if k == 1 { wide(a, 'か', ' ') } else { wide(a, '゛', 'ｰ') });
}
#[no_mangle]
pub extern "C" fn h_p11_w() {
    let k = if tier() == 1 { choice(90, 16) } else { [1, 3, 12][choice(90, 3) as usize] };
    let a = a1();
    let (c, n) = pipeline(k);
    p11(&c, n, &wide(a, 'b', 'c'));
}
#[no_mangle]
pub extern "C" fn h_p13_w() {
    let a = a1();
    let c = Chanoma::from_table(table(vec![Item::new("a", "あ"), Item::new("あ", "b")]));
    p13(&c, &wide(a, 'a', 'é'), &|x| match x {
        'a' => Some('あ'),
        'あ' => Some('b'),
        _ => None,
    });
}
#[no_mangle]
pub extern "C" fn h_p14_w() {
    let k = choice(90, 3);
    let a = a1();
    match k {
        0 => {
            let (c, x) = reducer(0);
            p14_run(&c, x, &wide(a, 'ー', 'x'));
        }
        1 => {
            let (c, x) = reducer(1);
            p14_run(&c, x, &wide(a, 'é', 'a'));
        }
        _ => {
            let mut t = vec![' '; 300];
            t.extend(wide(a, ' ', 'é'));
            t.extend(vec![' '; 300]);
            p14_trim(&t);
        }
    }
}
