//! P13, P14: reported positions.
use crate::p_basic::{from_file, long, st, table};
use crate::spec;
use crate::sx::*;
use chanoma::{Chanoma, Item, Position};

/// (byte offset, byte length, char offset, char length, from, to)
type Pos = (usize, usize, usize, usize, String, String);
fn reported(c: &Chanoma, t: &[char]) -> (String, Vec<Pos>) {
    let r = c.normalize_with_positions(&string(t));
    let v = r.modified_records();
    check(v.len() >= 1, 80);
    // a configuration file's own (empty) table follows its modifiers
    for x in &v[1..] {
        check(x.positions.is_empty() && x.text == v[0].text, 81);
    }
    of(&v[0].text, &v[0].positions)
}
fn of(text: &str, positions: &[Position]) -> (String, Vec<Pos>) {
    let o = positions
        .iter()
        .map(|p| (p.index, p.length, p.utf8_index, p.utf8_length, p.from.clone(), p.to.clone()))
        .collect();
    (text.to_string(), o)
}
pub fn p13(c: &Chanoma, t: &[char], map: &dyn Fn(char) -> Option<char>) {
    p13_of(reported(c, t), t, map)
}
pub fn p13_at(text: &str, positions: &[Position], t: &[char], map: &dyn Fn(char) -> Option<char>) {
    p13_of(of(text, positions), t, map)
}
fn p13_of((text, got): (String, Vec<Pos>), t: &[char], map: &dyn Fn(char) -> Option<char>) {
    note(text.as_bytes());
    let mut k = 0;
    let mut b = 0;
    for i in 0..t.len() {
        let n = t[i].len_utf8();
        if let Some(to) = map(t[i]) {
            check(k < got.len(), 1);
            let g = &got[k];
            check(g.0 == b && g.1 == n, 2);
            check(g.2 == i && g.3 == 1, 3);
            check(g.4 == st(t[i]), 4);
            check(g.5 == st(to), 5);
            k += 1;
        }
        b += n;
    }
    check(k == got.len(), 6);
    // substituting the replacements yields the output
    let mut o: Vec<char> = t.to_vec();
    for g in &got {
        check(g.5.chars().count() == 1, 7);
        o[g.2] = g.5.chars().next().unwrap();
    }
    check(string(&o) == text, 8);
}
#[no_mangle]
pub extern "C" fn h_p13_a() {
    let (f1, t1) = (ch(1), ch(2));
    let t = [ch(5), ch(6), ch(7)];
    shard();
    assume(f1 != t1);
    let c = Chanoma::from_table(table(vec![Item::new(st(f1), st(t1))]));
    p13(&c, &t, &|x| if x == f1 { Some(t1) } else { None });
}
#[no_mangle]
pub extern "C" fn h_p13_b() {
    let (f1, f2) = (ch(1), ch(2));
    let t = [ch(5), ch(6)];
    shard();
    assume(f1 != f2 && f1 != 'x' && f2 != 'あ');
    let c = Chanoma::from_table(table(vec![Item::new(st(f1), "x"), Item::new(st(f2), "あ")]));
    p13(&c, &t, &|x| {
        if x == f1 {
            Some('x')
        } else if x == f2 {
            Some('あ')
        } else {
            None
        }
    });
}
pub fn pr(x: char) -> Option<char> {
    let y = spec::preset(x);
    if y == x {
        None
    } else {
        Some(y)
    }
}
#[no_mangle]
pub extern "C" fn h_p13_c() {
    let t = [ch(1), ch(2)];
    shard();
    p13(&Chanoma::preset(), &t, &pr);
}
#[no_mangle]
pub extern "C" fn h_p13_d() {
    let a = ch(1);
    shard();
    p13(&Chanoma::preset(), &long(a, a), &pr);
}
#[no_mangle]
pub extern "C" fn h_p13_e() {
    let t = [ch(1), ch(2), ch(3)];
    shard();
    let c = from_file("c.yaml", "modifiers:\n  character_converter:\n    a: あ\n    あ: 𠮷\n    é: a\n    𠮷: é\n");
    p13(&c, &t, &|x| match x {
        'a' => Some('あ'),
        'あ' => Some('𠮷'),
        'é' => Some('a'),
        '𠮷' => Some('é'),
        _ => None,
    });
}

// ---- P14 ----
pub fn p14_run(c: &Chanoma, x: char, t: &[char]) {
    p14_run_of(reported(c, t), x, t)
}
pub fn p14_run_at(text: &str, positions: &[Position], x: char, t: &[char]) {
    p14_run_of(of(text, positions), x, t)
}
fn p14_run_of((text, got): (String, Vec<Pos>), x: char, t: &[char]) {
    note(text.as_bytes());
    let mut k = 0;
    let mut b = 0;
    let mut i = 0;
    let mut o: Vec<char> = Vec::new();
    while i < t.len() {
        if t[i] != x {
            o.push(t[i]);
            b += t[i].len_utf8();
            i += 1;
            continue;
        }
        let mut n = 1;
        while i + n < t.len() && t[i + n] == x {
            n += 1;
        }
        let bl = n * x.len_utf8();
        // this run is the next one reported (a run of one may be left out)
        let is = k < got.len() && got[k].0 == b;
        check(is || n == 1, 1);
        if is {
            let g = &got[k];
            check(g.1 == bl, 2);
            check(g.2 == i && g.3 == n, 3);
            check(g.4 == string(&t[i..i + n]), 4);
            check(g.5 == st(x), 5);
            k += 1;
        }
        o.push(x);
        b += bl;
        i += n;
    }
    check(k == got.len(), 6);
    check(string(&o) == text, 7);
}
const RC: [(&str, char); 4] = [("ー", 'ー'), ("a", 'a'), ("é", 'é'), ("𠮷", '𠮷')];
pub fn reducer(k: u32) -> (Chanoma, char) {
    let (s, c) = RC[k as usize];
    (from_file("c.yaml", &format!("modifiers:\n  consecutive_character_reducer: {}\n", s)), c)
}
#[no_mangle]
pub extern "C" fn h_p14_a() {
    let k = choice(90, 4);
    let t = [ch(1), ch(2), ch(3)];
    shard();
    let (c, x) = reducer(k);
    p14_run(&c, x, &t);
}
#[no_mangle]
pub extern "C" fn h_p14_b() {
    let k = choice(90, 4);
    let cl = choice(91, 4);
    shard();
    let (c, x) = reducer(k);
    let o = ch_of(1, cl);
    let mut t = vec![];
    for i in 0..6 {
        t.push(if sym_bool(900 + i) { x } else { o });
    }
    p14_run(&c, x, &t);
}
#[no_mangle]
pub extern "C" fn h_p14_c() {
    let k = choice(90, 4);
    let l = choice(91, 3);
    let a = ch(1);
    shard();
    let (c, x) = reducer(k);
    let mut t = long(a, x);
    t.extend([x, x, x, a, x, x, 'z']);
    match l {
        0 => t.extend(vec![x; 11]),
        // longer than a byte counts
        1 => {
            t.extend(vec![x; 300]);
            t.push(a);
        }
        _ => {
            t.push(a);
            t.extend(vec![x; 520]);
        }
    }
    p14_run(&c, x, &t);
}
pub fn p14_trim(t: &[char]) {
    let c = from_file("c.yaml", "modifiers:\n  trim:\n");
    p14_trim_of(reported(&c, t), t)
}
pub fn p14_trim_at(text: &str, positions: &[Position], t: &[char]) {
    p14_trim_of(of(text, positions), t)
}
fn p14_trim_of((text, got): (String, Vec<Pos>), t: &[char]) {
    note(text.as_bytes());
    let mut a = 0;
    while a < t.len() && t[a] == ' ' {
        a += 1;
    }
    let mut z = t.len();
    while z > a && t[z - 1] == ' ' {
        z -= 1;
    }
    let mut bz = 0;
    for x in &t[..z] {
        bz += x.len_utf8();
    }
    let mut k = 0;
    if a > 0 {
        check(k < got.len(), 11);
        let g = &got[k];
        check(g.0 == 0 && g.1 == a && g.2 == 0 && g.3 == a, 12);
        check(g.4 == string(&t[..a]) && g.5.is_empty(), 13);
        k += 1;
    }
    if z < t.len() {
        check(k < got.len(), 14);
        let g = &got[k];
        check(g.0 == bz && g.1 == t.len() - z && g.2 == z && g.3 == t.len() - z, 15);
        check(g.4 == string(&t[z..]) && g.5.is_empty(), 16);
        k += 1;
    }
    check(k == got.len(), 17);
    check(text == string(&t[a..z]), 18);
}
#[no_mangle]
pub extern "C" fn h_p14_d() {
    let t = [ch(1), ch(2), ch(3)];
    shard();
    p14_trim(&t);
}
#[no_mangle]
pub extern "C" fn h_p14_e() {
    let t = [ascii(1), ascii(2), ascii(3), ascii(4), ascii(5)];
    shard();
    p14_trim(&t);
}
#[no_mangle]
pub extern "C" fn h_p14_f() {
    let (a, b) = (ch(1), ch(2));
    let n = choice(90, 4);
    shard();
    let mut t = vec![' '; n as usize];
    t.push(a);
    t.extend("  x \t　 y 𠮷".chars());
    t.push(b);
    t.extend(std::iter::repeat(' ').take(3 - n as usize));
    p14_trim(&t);
}
