//! P10, P11, P12: determinism, agreement of the two variants, order of steps.
use crate::p_basic::{chars, from_file, long, st, table};
use crate::sx::*;
use chanoma::{Chanoma, Item};

/// text and, per step, text and positions
type Rec = (String, Vec<(usize, usize, usize, usize, String, String)>);
fn records(c: &Chanoma, s: &str) -> Vec<Rec> {
    c.normalize_with_positions(s)
        .modified_records()
        .iter()
        .map(|r| {
            (
                r.text.clone(),
                r.positions
                    .iter()
                    .map(|p| (p.index, p.length, p.utf8_index, p.utf8_length, p.from.clone(), p.to.clone()))
                    .collect(),
            )
        })
        .collect()
}
fn note_rec(r: &[Rec]) {
    for (t, p) in r {
        note(t.as_bytes());
        for x in p {
            note(x.4.as_bytes());
        }
    }
}
fn hm(n: u32) {
    hash_mode(if n == 0 { 0 } else { 2 }, n);
}
/// `nb`, `nr`: number of hash values of the maps created when building and when normalising
fn p10(mk: &dyn Fn() -> Chanoma, t: &[char], nb: u32, nr: u32) {
    let s = string(t);
    hash_mode(0, 0);
    let a = mk();
    let ra = records(&a, &s);
    let na = a.normalize(&s);
    note(na.as_bytes());
    note_rec(&ra);
    // a second instance, the hash values of whose maps are arbitrary
    hm(nb);
    let b = mk();
    hm(nr);
    let nb = b.normalize(&s);
    let rb = records(&b, &s);
    hash_mode(0, 0);
    check(na == nb, 1);
    check(ra.len() == rb.len(), 2);
    for i in 0..ra.len() {
        check(ra[i].0 == rb[i].0, 3);
        check(ra[i].1.len() == rb[i].1.len(), 4);
        for k in 0..ra[i].1.len() {
            let (x, y) = (&ra[i].1[k], &rb[i].1[k]);
            check(x.0 == y.0 && x.1 == y.1 && x.2 == y.2 && x.3 == y.3, 5);
            check(x.4 == y.4 && x.5 == y.5, 6);
        }
    }
}
const LIG: [&str; 5] = [
    // overlapping
    "modifiers:\n  ligature_translator:\n    ab: x\n    bc: y\n",
    // feeding one another
    "modifiers:\n  ligature_translator:\n    a: b\n    b: c\n",
    // one a prefix of the other
    "modifiers:\n  ligature_translator:\n    か: カ\n    か゛: が\n",
    // swapping
    "modifiers:\n  ligature_translator:\n    a: b\n    b: a\n    ab: ba\n",
    // same length, overlapping with itself
    "modifiers:\n  ligature_translator:\n    aa: b\n    ab: c\n",
];
const LA: [&[char]; 5] = [
    &['a', 'b', 'c', 'x'],
    &['a', 'b', 'c', 'x'],
    &['か', 'カ', '゛', 'が'],
    &['a', 'b', 'c', 'x'],
    &['a', 'b', 'c', 'x'],
];
#[no_mangle]
pub extern "C" fn h_p10_a() {
    let k = choice(90, 5) as usize;
    shard();
    let t = [one_of(1, LA[k]), one_of(2, LA[k]), one_of(3, LA[k])];
    p10(&|| from_file("c.yaml", LIG[k]), &t, 3, 0);
}
// positions of a conversion
#[no_mangle]
pub extern "C" fn h_p10_b() {
    let t = ['b', ch(1), ch(2)];
    shard();
    p10(
        &|| from_file("c.yaml", "modifiers:\n  character_converter:\n    a: b\n    b: a\n    あ: い\n    é: e\n"),
        &t,
        0,
        2,
    );
}
// a table with several replacements of a character, and one from a file
#[no_mangle]
pub extern "C" fn h_p10_c() {
    let k = choice(90, 3);
    let t = [one_of(1, &['a', 'b', 'c', 'x']), one_of(2, &['a', 'b', 'c', 'x'])];
    shard();
    let mk = || match k {
        0 => {
            let mut b = chanoma::TableBuilder::new();
            b.add_corr(table(vec![Item::new("a", "b"), Item::new("a", "c")]).corr().as_ref());
            b.add_corr(table(vec![Item::new("a", "a"), Item::new("b", "c")]).corr().as_ref());
            Chanoma::from_table(b.build())
        }
        1 => from_file("c.yaml", "items:\n  x: [a, b]\n  y: [b, c]\n  z: a\n"),
        _ => from_file("c.csv", "h,h\na,b,x\nb,c,y\na,z\n"),
    };
    p10(&mk, &t, if tier() == 1 { 3 } else { 2 }, 0);
}
// elimination, reduction, spaces, trim
#[no_mangle]
pub extern "C" fn h_p10_d() {
    let t = [ascii(1), ascii(2), ascii(3)];
    shard();
    p10(
        &|| {
            from_file(
                "c.yaml",
                "modifiers:\n  character_eliminator: [a, b, \" \"]\n  consecutive_character_reducer: c\n  dotted_space_eliminator:\n  trim:\n",
            )
        },
        &t,
        2,
        0,
    );
}
// two tables built by adding and subtracting, in maps of arbitrary hash values
#[no_mangle]
pub extern "C" fn h_p10_e() {
    let f = [one_of(1, &['a', 'b', 'c']), one_of(2, &['a', 'b', 'c']), one_of(3, &['a', 'b', 'c'])];
    shard();
    let mk = || {
        let mut x = table(vec![Item::new(st(f[0]), "x"), Item::new(st(f[1]), "y")]);
        x.add(table(vec![Item::new(st(f[2]), "z")]).corr().as_ref());
        x.items()
    };
    hash_mode(1, 0);
    let a = mk();
    hash_mode(2, 3);
    let b = mk();
    check(a.len() == b.len(), 1);
    for i in 0..a.len() {
        note(a[i].from.as_bytes());
        check(a[i] == b[i], 2);
    }
}

// each step on a longer text, most of which it changes
#[no_mangle]
pub extern "C" fn h_p10_f() {
    let k = choice(90, 6) as usize;
    const A: [[char; 2]; 6] = [['a', 'b'], ['a', 'b'], ['a', 'b'], ['a', ' '], ['か', '゛'], ['a', ' ']];
    const F: [&str; 6] = [
        "modifiers:\n  character_eliminator: [a, b, c]\n",
        "modifiers:\n  character_converter:\n    a: あ\n    b: a\n    c: b\n",
        "modifiers:\n  consecutive_character_reducer: a\n  character_eliminator: [b, a]\n",
        "modifiers:\n  dotted_space_eliminator:\n  trim:\n",
        "modifiers:\n  ligature_translator:\n    か゛: が\n    ゛か: が\n",
        "modifiers:\n  trim:\n  character_eliminator: [' ', a]\n",
    ];
    shard();
    let mut t = vec![];
    for i in 0..if tier() == 1 { 9 } else { 7 } {
        t.push(one_of(10 + i, &A[k]));
    }
    p10(&|| from_file("c.yaml", F[k]), &t, 2, 0);
}

// ---- P11 ----
const STEP: [&str; 8] = [
    "character_converter:\n    a: b\n    b: c\n    ー: \" \"\n",
    "character_eliminator: [b, ' ', ー]\n",
    "consecutive_character_reducer: b\n",
    "dotted_space_eliminator:\n",
    "trim:\n",
    "ligature_translator:\n    bb: \"a \"\n    かー: が\n",
    "neologdn:\n",
    "consecutive_character_reducer: ' '\n",
];
fn cfg(steps: &[usize]) -> String {
    let mut s = String::from("modifiers:\n");
    for i in steps {
        s.push_str("  ");
        s.push_str(STEP[*i]);
    }
    s
}
pub fn p11(c: &Chanoma, steps: usize, t: &[char]) {
    let s = string(t);
    let r = c.normalize(&s);
    note(r.as_bytes());
    let p = c.normalize_with_positions(&s);
    check(p.text() == r, 1);
    check(p.modified_records().len() >= steps, 2);
    if steps == 0 {
        check(r == s, 3);
    }
    if let Some(l) = p.modified_records().last() {
        check(l.text == r, 4);
    }
}
struct Null;
impl log::Log for Null {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, _: &log::Record) {}
    fn flush(&self) {}
}
static NULL: Null = Null;
fn debug_log(on: bool) {
    if on {
        let _ = log::set_logger(&NULL);
        log::set_max_level(log::LevelFilter::Debug);
    } else {
        log::set_max_level(log::LevelFilter::Off);
    }
}
pub fn pipeline(k: u32) -> (Chanoma, usize) {
    match k {
        0 => (Chanoma::new(), 0),
        1 => (Chanoma::preset(), 1),
        2 => (Chanoma::neologdn(), 1),
        3..=10 => (from_file("c.yaml", &cfg(&[k as usize - 3])), 1),
        11 => (from_file("c.yaml", "{}\n"), 0),
        12 => (from_file("c.csv", "h,h\na,b\n"), 1),
        13 => {
            let mut c = from_file("c.yaml", &cfg(&[1, 0, 5, 3, 4]));
            c.use_neologdn();
            c.add_table(table(vec![Item::new("a", "-")]));
            c.use_preset();
            (c, 8)
        }
        14 => (Chanoma::default(), 0),
        _ => (from_file("c.yaml", "modifiers:\n  neologdn:\n  trim:\nitems:\n  b: [a, ー]\n"), 3),
    }
}
#[no_mangle]
pub extern "C" fn h_p11_a() {
    let k = choice(90, 16);
    let t = [ch(1), ch(2)];
    shard();
    let (c, n) = pipeline(k);
    p11(&c, n, &t);
}
// the empty text and longer ones
#[no_mangle]
pub extern "C" fn h_p11_b() {
    let k = choice(90, 16);
    let a = ch(1);
    let e = choice(91, 2);
    shard();
    let (c, n) = pipeline(k);
    if e == 0 {
        p11(&c, n, &[]);
    } else {
        p11(&c, n, &long(a, a));
    }
}
// words over characters the steps are concerned with
#[no_mangle]
pub extern "C" fn h_p11_c() {
    let k = choice(90, 16);
    shard();
    let (c, n) = pipeline(k);
    let t = [one_of(1, W), one_of(2, W), one_of(3, W), one_of(4, W)];
    p11(&c, n, &t);
}
const W: &[char] = &['a', 'b', 'c', ' ', '-'];
// each step's record is what the step alone yields
#[no_mangle]
pub extern "C" fn h_p11_d() {
    let i = choice(90, 7) as usize;
    let j = choice(91, 7) as usize;
    let w = choice(92, 2);
    shard();
    if i == j {
        check(true, 1);
        return;
    }
    let t = if w == 0 {
        vec![one_of(1, W), one_of(2, W), one_of(3, W)]
    } else {
        vec![ascii(1), one_of(2, &['ー', 'か', '　', 'Ａ', '゛']), ascii(3)]
    };
    let s = string(&t);
    let c = from_file("c.yaml", &cfg(&[i, j]));
    let (ca, cb) = (from_file("a.yaml", &cfg(&[i])), from_file("b.yaml", &cfg(&[j])));
    let p = c.normalize_with_positions(&s);
    let a = ca.normalize(&s);
    let b = cb.normalize(&a);
    note(b.as_bytes());
    let r = p.modified_records();
    check(r.len() >= 2, 2);
    check(r[0].text == a, 3);
    check(r[1].text == b, 4);
    for x in &r[2..] {
        check(x.text == b, 5);
    }
    check(p.text() == b, 6);
    check(c.normalize(&s) == b, 7);
}
// debug logging
#[no_mangle]
pub extern "C" fn h_p11_e() {
    let k = choice(90, 16);
    let t = [ch(1), one_of(2, W)];
    shard();
    let (c, _) = pipeline(k);
    let s = string(&t);
    let a = c.normalize(&s);
    let pa = records(&c, &s);
    debug_log(true);
    let b = c.normalize(&s);
    let pb = records(&c, &s);
    debug_log(false);
    note(a.as_bytes());
    check(a == b, 1);
    check(pa == pb, 2);
}

// ---- P12 ----
// all pairs of steps of a file, and its own table after them
#[no_mangle]
pub extern "C" fn h_p12_a() {
    let i = choice(90, 7) as usize;
    let j = choice(91, 7) as usize;
    let items = choice(92, 2);
    shard();
    if i == j {
        check(true, 1);
        return;
    }
    let t = [one_of(1, W), one_of(2, W), one_of(3, W), one_of(4, W)];
    let s = string(&t);
    let mut y = cfg(&[i, j]);
    if items == 1 {
        y = format!("items:\n  a: [b, c]\n  b: a\n{}", y);
    }
    let c = from_file("c.yaml", &y);
    let (ca, cb) = (from_file("a.yaml", &cfg(&[i])), from_file("b.yaml", &cfg(&[j])));
    let cd = from_file("d.yaml", "items:\n  a: [b, c]\n  b: a\n");
    let r = c.normalize(&s);
    note(r.as_bytes());
    let mut b = cb.normalize(&ca.normalize(&s));
    if items == 1 {
        b = cd.normalize(&b);
    }
    check(r == b, 2);
}
// three steps of a file, over arbitrary characters
#[no_mangle]
pub extern "C" fn h_p12_b() {
    let k = choice(90, 6) as usize;
    let t = if tier() == 1 { [ch(1), one_of(2, W), ch(3)] } else { [ch(1), one_of(2, W), one_of(3, W)] };
    shard();
    const O: [[usize; 3]; 6] = [[0, 2, 5], [5, 0, 1], [2, 1, 0], [4, 0, 6], [6, 3, 0], [1, 5, 7]];
    let s = string(&t);
    let c = from_file("c.yaml", &cfg(&O[k]));
    let one: Vec<Chanoma> = O[k].iter().map(|i| from_file("a.yaml", &cfg(&[*i]))).collect();
    let r = c.normalize(&s);
    note(r.as_bytes());
    let mut x = s;
    for c in &one {
        x = c.normalize(&x);
    }
    check(r == x, 1);
}
// builder calls, after a file and without one
#[no_mangle]
pub extern "C" fn h_p12_c() {
    let k = choice(90, 6);
    let f = choice(91, 2);
    let t = if tier() == 1 { [ch(1), ch(2)] } else { [ch(1), one_of(2, W)] };
    shard();
    const O: [[u32; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let tab = || table(vec![Item::new("~", "Ａ"), Item::new("ー", "ｰ"), Item::new("か", " "), Item::new("a", "－")]);
    let s = string(&t);
    let y = "modifiers:\n  character_converter:\n    x: ～\n    ー: か\n    b: a\n";
    let mut c = if f == 1 { from_file("c.yaml", y) } else { Chanoma::new() };
    for i in O[k as usize] {
        match i {
            0 => c.use_preset(),
            1 => c.use_neologdn(),
            _ => c.add_table(tab()),
        };
    }
    let one: Vec<Chanoma> = O[k as usize]
        .iter()
        .map(|i| match i {
            0 => Chanoma::preset(),
            1 => Chanoma::neologdn(),
            _ => Chanoma::from_table(tab()),
        })
        .collect();
    let cf = from_file("c.yaml", y);
    let r = c.normalize(&s);
    note(r.as_bytes());
    let mut x = if f == 1 { cf.normalize(&s) } else { s.clone() };
    for c in &one {
        x = c.normalize(&x);
    }
    check(r == x, 1);
}
// repeated steps are not skipped; no step leaves the text alone
#[no_mangle]
pub extern "C" fn h_p12_d() {
    let n = choice(90, 4);
    let t = [ch(1), ch(2), ch(3)];
    shard();
    let s = string(&t);
    let mut c = Chanoma::new();
    let mut e: Vec<char> = t.to_vec();
    for _ in 0..n {
        c.add_table(table(vec![Item::new("a", "b"), Item::new("b", "あ"), Item::new("あ", "𠮷")]));
        for x in e.iter_mut() {
            *x = match *x {
                'a' => 'b',
                'b' => 'あ',
                'あ' => '𠮷',
                y => y,
            };
        }
    }
    let r = c.normalize(&s);
    note(r.as_bytes());
    check(r == string(&e), 1);
    let _ = chars(&r);
}
// the steps the builder adds, each as often as it is asked for and where it is asked for
#[no_mangle]
pub extern "C" fn h_p12_e() {
    let n = choice(90, 2) + 3;
    let k = [choice(91, 4), choice(92, 4), choice(93, 4), if n == 4 { choice(94, 2) } else { 0 }];
    shard();
    // steps that are asked for again
    if k[0] != k[2] && k[0] != k[1] && (n == 3 || k[1] != k[3] && k[0] != k[3]) {
        check(true, 1);
        return;
    }
    let mut one = Vec::new();
    for i in 0..4 {
        let mut c = Chanoma::new();
        if k.contains(&i) {
            add(&mut c, i);
        }
        one.push(c);
    }
    let mut c = Chanoma::new();
    for i in 0..n as usize {
        add(&mut c, k[i]);
    }
    let a = one_of(1, &['Ａ', 'ー', '‐', '　', '゛', '＝', '～', 'ｱ', 'ア']);
    let mut s = string(&[a, 'A', 'か', 'ー']);
    let r = c.normalize(&s);
    note(r.as_bytes());
    for i in 0..n as usize {
        s = one[k[i] as usize].normalize(&s);
    }
    check(r == s, 1);
}
fn add(c: &mut Chanoma, k: u32) {
    match k {
        0 => c.use_preset(),
        1 => c.use_neologdn(),
        // these undo what the modes do
        2 => c.add_table(table(vec![Item::new("A", "Ａ"), Item::new("-", "‐"), Item::new("=", "＝"), Item::new("ア", "ｱ")])),
        _ => c.add_table(table(vec![Item::new("ー", "゛"), Item::new("が", "か"), Item::new("Ａ", "ー"), Item::new("か", "は")])),
    };
}
// builder calls: exactly one record for each, also for one that changes nothing
#[no_mangle]
pub extern "C" fn h_p11_f() {
    let n = choice(90, 4);
    let k = [choice(91, 5), if n > 1 { choice(92, 5) } else { 0 }, if n > 2 { choice(93, 5) } else { 0 }];
    let a = one_of(1, &['あ', 'Ａ', '　', 'ー', '゛']);
    shard();
    let mut c = Chanoma::new();
    let mut one = Vec::new();
    for i in 0..n as usize {
        let put = |c: &mut Chanoma| match k[i] {
            0 => drop(c.use_preset()),
            1 => drop(c.use_neologdn()),
            2 => drop(c.add_table(table(vec![]))),
            3 => drop(c.add_table(table(vec![Item::new("a", "a")]))),
            _ => drop(c.add_table(table(vec![Item::new("a", "あ"), Item::new("あ", "a")]))),
        };
        put(&mut c);
        let mut d = Chanoma::new();
        put(&mut d);
        one.push(d);
    }
    let mut s = string(&[a, 'a', a]);
    let p = c.normalize_with_positions(&s);
    check(p.modified_records().len() == n as usize, 1);
    for i in 0..n as usize {
        s = one[i].normalize(&s);
        check(p.modified_records()[i].text == s, 2);
    }
    note(s.as_bytes());
    check(p.text() == s, 3);
    check(c.normalize(&string(&[a, 'a', a])) == s, 4);
}
