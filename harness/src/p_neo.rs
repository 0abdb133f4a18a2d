//! P08, P09: neologdn mode.
use crate::p_basic::{chars, from_file, LONG};
use crate::spec;
use crate::sx::*;
use chanoma::Chanoma;

/// the text without its half-width spaces
fn nosp(t: &[char]) -> Vec<char> {
    let mut o = Vec::new();
    for &c in t {
        if c != ' ' {
            o.push(c);
        }
    }
    o
}
fn no_tildes(t: &[char]) -> Vec<char> {
    let mut o = Vec::new();
    for &c in t {
        if !spec::is_tilde(c) {
            o.push(c);
        }
    }
    o
}
pub fn neo(k: u32) -> Chanoma {
    match k {
        0 => Chanoma::neologdn(),
        1 => {
            let mut c = Chanoma::new();
            c.use_neologdn();
            c
        }
        _ => from_file("c.yaml", "modifiers:\n  neologdn:\n"),
    }
}
pub fn p08(c: &Chanoma, t: &[char], heavy: bool) {
    let r = c.normalize(&string(t));
    note(r.as_bytes());
    let mut m: Vec<char> = Vec::new();
    let mut tilde = false;
    for &x in t {
        let y = spec::neo_char(x);
        if spec::is_tilde(y) {
            tilde = true;
        }
        m.push(y);
    }
    if !tilde {
        let e = spec::ligatures(&spec::reduce(&spec::dotted(&m), 'ー'));
        check(r == string(&e), 1);
    } else {
        let e = spec::ligatures(&spec::reduce(&no_tildes(&nosp(&m)), 'ー'));
        let o = chars(&r);
        check(nosp(&o) == e, 2);
        for i in 0..o.len() {
            if o[i] == ' ' {
                check(i > 0 && i + 1 < o.len() && spec::alnum(o[i - 1]) && spec::alnum(o[i + 1]), 3);
            }
        }
        // text without a space in it gets none
        if nosp(&m).len() == m.len() {
            check(o == e, 4);
        }
    }
    if heavy {
        let o = chars(&r);
        for i in 0..o.len() {
            check(!spec::is_tilde(o[i]) && !spec::is_hyphen(o[i]) && !spec::is_choonpu(o[i]), 5);
            if i > 0 {
                check(!(o[i] == 'ー' && o[i - 1] == 'ー'), 6);
                check(spec::compose(o[i - 1], o[i]).is_none(), 7);
            }
        }
    }
}
pub fn p09(c: &Chanoma, t: &[char]) {
    let r = c.normalize(&string(t));
    note(r.as_bytes());
    check(c.normalize(&r) == r, 1);
}
// two arbitrary characters
#[no_mangle]
pub extern "C" fn h_p08_a() {
    let k = choice(90, 3);
    let mut t = vec![ch_ja(1)];
    if k == 0 {
        t.push(ch_ja(2));
    }
    shard();
    p08(&neo(k), &t, true);
}
const A1: &[char] = &[' ', '~', 'a', 'Z', '0', '-', '!'];
const A3: &[char] = &[
    'ー', 'ｰ', '━', '〜', '～', '゛', '゜', 'は', 'ハ', 'う', 'か', '　', 'Ａ', 'あ', '‐', 'ﾊ', '－', '＝', '〰', '♥',
];
fn al(id: u32, k: u32) -> char {
    if k == 0 {
        one_of(id, A1)
    } else {
        one_of(id + 20, A3)
    }
}
const B1: &[char] = &[' ', '~', 'a', '!'];
const B3: &[char] = &['ー', '━', '～', '゛', 'か', 'ハ'];
/// words over fewer characters
fn word_b(n: u32) -> Vec<char> {
    let mut k = vec![];
    for i in 0..n {
        k.push(choice(80 + i, 2));
    }
    shard();
    (0..n).map(|i| if k[i as usize] == 0 { one_of(40 + i, B1) } else { one_of(60 + i, B3) }).collect()
}
fn word(n: u32) -> Vec<char> {
    let mut k = vec![];
    for i in 0..n {
        k.push(choice(80 + i, 2));
    }
    shard();
    (0..n).map(|i| al(1 + i, k[i as usize])).collect()
}
// four characters the mode is concerned with
#[no_mangle]
pub extern "C" fn h_p08_b() {
    let t = word(3);
    p08(&neo(0), &t, false);
}
#[no_mangle]
pub extern "C" fn h_p08_e() {
    let t = word_b(4);
    p08(&neo(0), &t, false);
}
// three arbitrary characters
#[no_mangle]
pub extern "C" fn h_p08_c() {
    let t = [ch_ja(1), ch_ja(2), ch_ja(3)];
    shard();
    p08(&neo(0), &t, true);
}
fn long_text(a: char, b: char) -> Vec<char> {
    let mut t = vec![a];
    t.extend(LONG.chars());
    t.push(b);
    t.extend("か゛ － x   y ハ゜ー".chars());
    t.push(a);
    t.push('ー');
    t
}
// an arbitrary character, twice, in a long text
#[no_mangle]
pub extern "C" fn h_p08_d() {
    let a = ch_ja(1);
    shard();
    let t = long_text(a, a);
    p08(&neo(0), &t, true);
}
#[no_mangle]
pub extern "C" fn h_p09_a() {
    let k = choice(90, 3);
    let mut t = vec![ch_ja(1)];
    if k == 0 {
        t.push(ch_ja(2));
    }
    shard();
    p09(&neo(k), &t);
}
#[no_mangle]
pub extern "C" fn h_p09_b() {
    let t = word(3);
    p09(&neo(0), &t);
}
#[no_mangle]
pub extern "C" fn h_p09_e() {
    let t = word_b(4);
    p09(&neo(0), &t);
}
#[no_mangle]
pub extern "C" fn h_p09_c() {
    let t = [ch_ja(1), ch_ja(2), ch_ja(3)];
    shard();
    p09(&neo(0), &t);
}
#[no_mangle]
pub extern "C" fn h_p09_d() {
    let a = ch_ja(1);
    shard();
    let t = long_text(a, a);
    p09(&neo(0), &t);
}
#[no_mangle]
pub extern "C" fn h_p08_f() {
    let t = word_b(5);
    p08(&neo(0), &t, false);
}
#[no_mangle]
pub extern "C" fn h_p08_g() {
    let t = word(4);
    p08(&neo(0), &t, false);
}
#[no_mangle]
pub extern "C" fn h_p09_f() {
    let t = word_b(5);
    p09(&neo(0), &t);
}
#[no_mangle]
pub extern "C" fn h_p09_g() {
    let t = word(4);
    p09(&neo(0), &t);
}
