//! The steps on long texts: more than a byte, and more than a block of 4 KiB, counts.
use crate::p_basic::*;
use crate::p_neo::{neo, p08, p09};
use crate::p_pipe::{p11, pipeline};
use crate::p_pos::{p13, p14_run, p14_trim, pr};
use crate::spec;
use crate::sx::*;
use chanoma::{Chanoma, Item};

/// `a` at the ends and in the middle, runs of 300 characters, other text
fn huge(a: char, runs: &[char], big: bool) -> Vec<char> {
    let mut t = vec![a];
    for &r in runs {
        t.extend(vec![r; 300]);
        t.push(a);
        t.extend(LONG.chars());
    }
    if big {
        for _ in 0..50 {
            t.extend(LONG.chars());
        }
        t.push(a);
        for &r in runs {
            t.extend(vec![r; 270]);
            t.push('b');
        }
    }
    t.push(a);
    t
}
fn arb() -> (bool, char) {
    arb_if(true)
}
/// big: whether the quick tier has the longer text, too
fn arb_if(big: bool) -> (bool, char) {
    let b = choice(95, if big || tier() == 1 { 2 } else { 1 }) == 1;
    let a = ch(1);
    shard();
    (b, a)
}
#[no_mangle]
pub extern "C" fn h_p01_l() {
    let (b, a) = arb();
    let tab: [(char, char); 4] = [('a', 'あ'), ('あ', '𠮷'), ('𠮷', 'é'), ('ｑ', 'q')];
    let c = Chanoma::from_table(table(tab.iter().map(|x| Item::new(st(x.0), st(x.1))).collect()));
    conv_checks(&c, &huge(a, &['a', '𠮷'], b), &tab);
}
#[no_mangle]
pub extern "C" fn h_p02_l() {
    let (b, a) = arb();
    preset_checks(&Chanoma::preset(), &huge(a, &['Ａ', 'ｱ'], b));
}
#[no_mangle]
pub extern "C" fn h_p03_l() {
    let k = choice(90, 5);
    let (b, a) = arb();
    let (c, x) = reducer(k);
    p03(&c, x, &huge(a, &[x], b));
}
#[no_mangle]
pub extern "C" fn h_p04_l() {
    let k = choice(90, 4);
    let (b, a) = arb();
    p04(k, &huge(a, &['〜', ' ', '𠮷'], b));
}
#[no_mangle]
pub extern "C" fn h_p05_l() {
    let (b, a) = arb();
    p05(&huge(a, &[' ', '　'], b));
}
#[no_mangle]
pub extern "C" fn h_p06_l() {
    let k = choice(90, 2);
    let (b, a) = arb();
    let mut t = vec![' '; 300 * k as usize];
    t.extend(huge(a, &[' ', '\t'], b));
    t.extend(vec![' '; 300 * k as usize]);
    p06(&t);
}
#[no_mangle]
pub extern "C" fn h_p07_l() {
    let k = choice(90, 4);
    let (b, a) = arb();
    let (y, f, to) = lig(k);
    let fc = chars(f);
    let mut t = huge(a, &fc, b);
    for _ in 0..300 {
        t.extend(&fc);
    }
    t.push(a);
    let r = from_file("c.yaml", y).normalize(&string(&t));
    same(&r, &spec::replace(&t, &fc, &chars(to)), 1);
}
#[no_mangle]
pub extern "C" fn h_p08_l() {
    let k = choice(90, 2);
    let (b, a) = arb();
    p08(&neo(0), &huge(a, if k == 0 { &['ー', ' ', 'ﾊ'] } else { &['~', 'か', '゛'] }, b), true);
}
#[no_mangle]
pub extern "C" fn h_p09_l() {
    let k = choice(90, 2);
    let (b, a) = arb_if(k == 0);
    p09(&neo(0), &huge(a, if k == 0 { &['ー', ' ', 'ﾊ'] } else { &['~', 'か', '゛'] }, b));
}
#[no_mangle]
pub extern "C" fn h_p11_l() {
    let k = choice(90, 16);
    let (b, a) = arb_if(k == 6);
    let (c, n) = pipeline(k);
    p11(&c, n, &huge(a, &['ー', ' ', 'a'], b));
}
#[no_mangle]
pub extern "C" fn h_p13_l() {
    let (b, a) = arb();
    p13(&Chanoma::preset(), &huge(a, &['Ａ', 'ｱ'], b), &pr);
}
#[no_mangle]
pub extern "C" fn h_p14_l() {
    let k = choice(90, 5);
    let (b, a) = arb();
    let (c, x) = reducer(k);
    p14_run(&c, x, &huge(a, &[x], b));
}
#[no_mangle]
pub extern "C" fn h_p14_m() {
    let k = choice(90, 2);
    let (b, a) = arb();
    let mut t = vec![' '; 300 * k as usize];
    t.extend(huge(a, &[' ', '\t'], b));
    t.extend(vec![' '; 300 * k as usize]);
    p14_trim(&t);
}
