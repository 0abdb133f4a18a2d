//! Steps whose configuration is symbolic, positions of later steps of a pipeline, and normalisers
//! used again and again.
use crate::p_basic::*;
use crate::p_neo::neo;
use crate::p_pipe::pipeline;
use crate::p_pos::{p13, p13_at, p14_run, p14_run_at, p14_trim_at, pr};
use crate::p_yaml::scalar;
use crate::spec;
use crate::sx::*;
use chanoma::{Chanoma, Item, Position};

/// a quoted scalar (from here on keys are symbolic)
fn q(cs: &[char]) -> String {
    hash_mode(1, 0);
    let mut s = String::new();
    scalar(0, cs, &mut s);
    s
}
// ---- the characters of the configuration are arbitrary ----
#[no_mangle]
pub extern "C" fn h_p01_s() {
    let (f, to) = (ch(1), ch(2));
    let o = choice(90, 2);
    let a = ch(5);
    shard();
    assume(f != 'x' && f != 'é');
    let (x, y) = (q(&[f]), q(&[to]));
    let c = from_file(
        "c.yaml",
        &if o == 0 {
            format!("modifiers:\n  character_converter:\n    {}: {}\n    x: {}\n    é: あ\n", x, y, x)
        } else {
            format!("modifiers:\n  character_converter: {{x: {}, é: あ, {}: {}}}\n", x, x, y)
        },
    );
    conv_checks(&c, &[a, f, to, 'x', a], &[(f, to), ('x', f), ('é', 'あ')]);
}
#[no_mangle]
pub extern "C" fn h_p03_s() {
    let x = ch(1);
    let (a, b) = (ch(5), ch(6));
    shard();
    let c = from_file("c.yaml", &format!("modifiers:\n  consecutive_character_reducer: {}\n", q(&[x])));
    p03(&c, x, &[x, x, a, x, b, x, x, x]);
}
#[no_mangle]
pub extern "C" fn h_p04_s() {
    let (x, y) = (ch(1), ch(2));
    let o = choice(90, 2);
    let a = ch(5);
    shard();
    let (p, r) = (q(&[x]), q(&[y]));
    let c = from_file(
        "c.yaml",
        &if o == 0 {
            format!("modifiers:\n  character_eliminator: [{}, あ, {}]\n", p, r)
        } else {
            format!("modifiers:\n  character_eliminator:\n    - あ\n    - {}\n    - {}\n", p, r)
        },
    );
    let t = [x, a, 'い', y, 'あ', x, a];
    same(&c.normalize(&string(&t)), &spec::eliminate(&t, &[x, y, 'あ']), 1);
}
// a rule from a sequence of one or two characters to another
#[no_mangle]
pub extern "C" fn h_p07_s() {
    let x = ch(1);
    let to = if tier() == 1 { ch(2) } else { ch_of(2, 1) };
    let o = choice(90, 3);
    let a = ch(5);
    shard();
    let f: &[char] = match o {
        0 => &[x],
        1 => &['あ', x],
        _ => &[x, 'あ'],
    };
    let r: &[char] = &['z', to, '9'];
    let c = from_file("c.yaml", &format!("modifiers:\n  ligature_translator:\n    {}: {}\n", q(f), q(r)));
    let t = [x, 'あ', a, 'あ', x, to];
    same(&c.normalize(&string(&t)), &spec::replace(&t, f, r), 1);
}
#[no_mangle]
pub extern "C" fn h_p13_s() {
    let (f, to) = (ch(1), ch(2));
    let a = ch(5);
    shard();
    assume(f != to);
    let c = from_file("c.yaml", &format!("modifiers:\n  character_converter:\n    {}: {}\n", q(&[f]), q(&[to])));
    p13(&c, &[a, f, to, a, 'x', f], &|x| if x == f { Some(to) } else { None });
}
#[no_mangle]
pub extern "C" fn h_p14_s() {
    let x = ch(1);
    let (a, b) = (ch(5), ch(6));
    shard();
    let c = from_file("c.yaml", &format!("modifiers:\n  consecutive_character_reducer: {}\n", q(&[x])));
    p14_run(&c, x, &[x, x, a, x, b, x, x, x]);
}
// ---- positions of the later steps of a pipeline refer to that step's input ----
#[no_mangle]
pub extern "C" fn h_p13_f() {
    let k = choice(90, 3);
    let (a, b) = (ch(5), ch(6));
    shard();
    let t = [' ', 'あ', a, 'ー', 'ー', b, 'あ', 'x', 'Ａ', ' '];
    let pre = from_file(
        "c.yaml",
        match k {
            0 => "modifiers:\n  character_converter: {あ: a, x: 𠮷}\nitems: {zz: [é]}\n",
            1 => "modifiers:\n  trim:\n  character_eliminator: [あ]\nitems: {z: [é]}\n",
            _ => "modifiers:\n  ligature_translator: {あ: xyz}\n  consecutive_character_reducer: ー\nitems: {z: [é]}\n",
        },
    );
    let mut c = pre;
    c.use_preset().add_table(table(vec![Item::new("a", "あ"), Item::new("x", "é"), Item::new("z", "a")]));
    let r = c.normalize_with_positions(&string(&t));
    let v = r.modified_records();
    let n = v.len();
    check(n == if k == 0 { 4 } else { 5 }, 70);
    if k == 0 {
        p13_at(&v[0].text, &v[0].positions, &t, &|x| match x {
            'あ' => Some('a'),
            'x' => Some('𠮷'),
            _ => None,
        });
    }
    p13_at(&v[n - 3].text, &v[n - 3].positions, &chars(&v[n - 4].text), &|x| if x == 'é' { Some('z') } else { None });
    p13_at(&v[n - 2].text, &v[n - 2].positions, &chars(&v[n - 3].text), &pr);
    p13_at(&v[n - 1].text, &v[n - 1].positions, &chars(&v[n - 2].text), &|x| match x {
        'a' => Some('あ'),
        'x' => Some('é'),
        'z' => Some('a'),
        _ => None,
    });
}
#[no_mangle]
pub extern "C" fn h_p14_g() {
    let k = choice(90, 3);
    let (a, b) = (ch(5), ch(6));
    shard();
    let t = [' ', 'x', 'x', a, 'ー', 'あ', 'ー', b, 'x', 'あ', 'x', ' '];
    let c = from_file(
        "c.yaml",
        match k {
            0 => "modifiers:\n  character_eliminator: [あ]\n  consecutive_character_reducer: ー\n  trim:\n",
            1 => "modifiers:\n  character_converter: {あ: x, é: \" \"}\n  consecutive_character_reducer: x\n  trim:\n",
            _ => "modifiers:\n  trim:\n  consecutive_character_reducer: あ\n  ligature_translator: {x: \" \"}\n",
        },
    );
    let r = c.normalize_with_positions(&string(&t));
    let v = r.modified_records();
    check(v.len() == 4, 70);
    match k {
        0 | 1 => {
            p14_run_at(&v[1].text, &v[1].positions, if k == 0 { 'ー' } else { 'x' }, &chars(&v[0].text));
            p14_trim_at(&v[2].text, &v[2].positions, &chars(&v[1].text));
        }
        _ => {
            p14_trim_at(&v[0].text, &v[0].positions, &t);
            p14_run_at(&v[1].text, &v[1].positions, 'あ', &chars(&v[0].text));
        }
    }
}
// ---- P28: a normaliser keeps no memory ----
/// the texts the steps leave
type Trail = (String, Vec<(String, Vec<Position>)>);
fn trail(c: &Chanoma, s: &str) -> Trail {
    let r = c.normalize_with_positions(s);
    (c.normalize(s), r.modified_records().iter().map(|x| (x.text.clone(), x.positions.clone())).collect())
}
fn unchanged(a: &Trail, b: &Trail, code: u32) {
    check(a.0 == b.0, code);
    check(a.1.len() == b.1.len(), code + 1);
    for i in 0..a.1.len() {
        check(a.1[i].0 == b.1[i].0, code + 2);
        check(a.1[i].1.len() == b.1[i].1.len(), code + 2);
        for j in 0..a.1[i].1.len() {
            let (p, q) = (&a.1[i].1[j], &b.1[i].1[j]);
            check(p.index == q.index && p.length == q.length && p.utf8_index == q.utf8_index && p.utf8_length == q.utf8_length, code + 2);
            check(p.from == q.from && p.to == q.to, code + 2);
        }
    }
}
/// texts of about the same, or of another length, or the same but for a character
fn other(k: u32, t: &[char], a: char) -> Vec<char> {
    match k {
        0 => vec![a, t[1]],
        1 => vec![t[0], a],
        2 => vec!['x', 'か', a, ' ', 'ー'],
        3 => vec![t[1], t[0]],
        _ => vec![],
    }
}
// the same text before and after other texts, by the same normaliser and by a new one
#[no_mangle]
pub extern "C" fn h_p28_a() {
    let k = choice(90, 16);
    let o = choice(91, if tier() == 1 { 5 } else { 3 });
    let a = ch(1);
    let b = if tier() == 1 { ch(2) } else { ch_of(2, 2) };
    shard();
    let t = [a, 'ー'];
    let (c, _) = pipeline(k);
    // a new one, made after the first has been used
    trail(&c, "ａ~ bー");
    let (d, _) = pipeline(k);
    let s = string(&t);
    let u = string(&other(o, &t, b));
    let x = trail(&c, &s);
    note(x.0.as_bytes());
    let y = trail(&c, &u);
    unchanged(&x, &trail(&c, &s), 1);
    // the texts in the other order
    unchanged(&trail(&d, &u), &y, 4);
    unchanged(&trail(&d, &s), &x, 7);
}
// another normaliser is made and used, and dropped, in between
#[no_mangle]
pub extern "C" fn h_p28_b() {
    let k = choice(90, 16);
    let l = choice(91, if tier() == 1 { 16 } else { 3 });
    let a = ch(1);
    shard();
    let l = if tier() == 1 { l } else { [5, 12, 15][l as usize] };
    let s = string(&[a, 'b', ' ']);
    let (c, _) = pipeline(k);
    let w = trail(&c, "b ー ");
    let (d, _) = pipeline(l);
    trail(&d, "ー b");
    unchanged(&w, &trail(&c, "b ー "), 1);
    let (e, _) = pipeline(k);
    unchanged(&w, &trail(&e, "b ー "), 4);
    let y = trail(&d, &s);
    let x = trail(&c, &s);
    note(x.0.as_bytes());
    unchanged(&y, &trail(&d, &s), 7);
    drop(d);
    unchanged(&x, &trail(&c, &s), 10);
    unchanged(&x, &trail(&e, &s), 13);
}
// the file changes, goes away, and is loaded again
#[no_mangle]
pub extern "C" fn h_p28_c() {
    let k = choice(90, 3);
    let (f, to) = (ch_of(1, 0), ch_of(2, 0));
    let a = ch(5);
    shard();
    assume(f.is_ascii_lowercase() && to.is_ascii_lowercase());
    let (name, y1, y2) = match k {
        0 => ("c.csv", format!("h,h\n{},{}\n", f, to), format!("h,h\n{},{}\n", to, 'A')),
        1 => ("c.yaml", format!("items:\n  {}: {}\n", q(&[to]), q(&[f])), format!("items:\n  A: {}\n", q(&[to]))),
        _ => (
            "c.yaml",
            format!("modifiers:\n  character_converter:\n    {}: {}\n", q(&[f]), q(&[to])),
            format!("modifiers:\n  character_converter:\n    {}: A\n", q(&[to])),
        ),
    };
    let t = [a, f, to];
    let s = string(&t);
    let e1: Vec<char> = t.iter().map(|&x| if x == f { to } else { x }).collect();
    let e2: Vec<char> = t.iter().map(|&x| if x == to { 'A' } else { x }).collect();
    let c = from_file(name, &y1);
    let d = from_file(name, &y2);
    same(&d.normalize(&s), &e2, 1);
    same(&c.normalize(&s), &e1, 2);
    let mut p = root();
    p.push('/');
    p.push_str(name);
    check(std::fs::remove_file(&p).is_ok(), 81);
    check(Chanoma::from_config_file(&p).is_err(), 3);
    same(&c.normalize(&s), &e1, 4);
    same(&d.normalize(&s), &e2, 5);
    let c = from_file(name, &y1);
    same(&c.normalize(&s), &e1, 6);
}
// many texts in a row, each all but the same as the last
#[no_mangle]
pub extern "C" fn h_p28_d() {
    let k = choice(90, 3);
    let a = ch_of(1, 2);
    shard();
    let c = match k {
        0 => Chanoma::from_table(table(vec![Item::new("a", "あ"), Item::new("あ", "b")])),
        1 => neo(0),
        _ => from_file("c.yaml", "modifiers:\n  consecutive_character_reducer: ー\n  trim:\n  character_eliminator: [a]\n"),
    };
    let s = string(&[a, 'ー', 'a', ' ']);
    let x = c.normalize(&s);
    note(x.as_bytes());
    for i in 0..if k == 1 { 40 } else { 300u32 } {
        let u = string(&['あ', 'ー', char::from_u32(0x4e00 + i % 97).unwrap(), if i % 3 == 0 { ' ' } else { 'a' }]);
        let y = c.normalize(&u);
        check(y.chars().count() <= 5, 2);
    }
    check(c.normalize(&s) == x, 1);
}
