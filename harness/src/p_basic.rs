//! P01..P07: the single steps.
use crate::spec;
use crate::sx::*;
use chanoma::{Chanoma, Corr, Correspondence, Item, Synthesized, Table, TableBuilder};
use chanoma::table::Origin;

pub fn st(c: char) -> String {
    string(&[c])
}
pub fn table(items: Vec<Item>) -> Table {
    Table::from_corr(Correspondence::new(Synthesized::new(items)), Origin::New)
}
/// a normaliser from a configuration file with this content
pub fn from_file(name: &str, content: &str) -> Chanoma {
    let p = write_file(name, content.as_bytes());
    match Chanoma::from_config_file(&p) {
        Ok(c) => c,
        Err(_) => {
            check(false, 90);
            unreachable!()
        }
    }
}
pub fn write_file(name: &str, content: &[u8]) -> String {
    let mut p = root();
    p.push('/');
    p.push_str(name);
    if std::fs::write(&p, content).is_err() {
        check(false, 91);
    }
    p
}
pub fn chars(s: &str) -> Vec<char> {
    s.chars().collect()
}
pub fn same(r: &str, e: &[char], code: u32) {
    note(r.as_bytes());
    let x = string(e);
    check(r == x, code);
}
pub const LONG: &str = "Ｔhe ｑuick　brown ﾌｫｯｸｽ jumps，over！ ー～ー 0１2 𠮷野家 é";
/// long concrete text with symbolic characters in it
pub fn long(a: char, b: char) -> Vec<char> {
    let mut t = vec![a];
    t.extend(LONG.chars());
    t.push(b);
    t.extend("ｧ末尾".chars());
    t
}

pub fn conv_checks(c: &Chanoma, t: &[char], tab: &[(char, char)]) {
    let s = string(t);
    let r = c.normalize(&s);
    note(r.as_bytes());
    let o = chars(&r);
    check(o.len() == t.len(), 1);
    for i in 0..t.len() {
        let mut listed = false;
        let mut ok = false;
        for &(f, to) in tab {
            if t[i] == f {
                listed = true;
                ok |= o[i] == to;
            }
        }
        check(if listed { ok } else { o[i] == t[i] }, 2);
    }
    let p = c.normalize_with_positions(&s);
    check(p.text() == r, 3);
}

// two arbitrary entries, text of two arbitrary characters
#[no_mangle]
pub extern "C" fn h_p01_a() {
    let (f1, t1) = (ch(1), ch(2));
    let (f2, t2) = (ch(3), ch_of(4, 2));
    let t = [ch(5), ch(6)];
    shard();
    let c = Chanoma::from_table(table(vec![Item::new(st(f1), st(t1)), Item::new(st(f2), st(t2))]));
    conv_checks(&c, &t, &[(f1, t1), (f2, t2)]);
}
// one arbitrary entry, text of three arbitrary characters
#[no_mangle]
pub extern "C" fn h_p01_b() {
    let (f1, t1) = (ch(1), ch(2));
    let t = [ch(5), ch(6), ch(7)];
    shard();
    let mut c = Chanoma::new();
    c.add_table(table(vec![Item::new(st(f1), st(t1))]));
    conv_checks(&c, &t, &[(f1, t1)]);
}
// a chain of entries in a YAML file; text of three arbitrary characters
#[no_mangle]
pub extern "C" fn h_p01_c() {
    let t = [ch(5), ch(6), ch(7)];
    shard();
    let c = from_file(
        "c.yaml",
        "modifiers:\n  character_converter:\n    a: b\n    b: c\n    c: あ\n    あ: 𠮷\n    é: \" \"\n    𠮷: a\n    ～: \"~\"\n",
    );
    conv_checks(
        &c,
        &t,
        &[('a', 'b'), ('b', 'c'), ('c', 'あ'), ('あ', '𠮷'), ('é', ' '), ('𠮷', 'a'), ('～', '~')],
    );
}
// one arbitrary entry, long text with two arbitrary characters in it
#[no_mangle]
pub extern "C" fn h_p01_d() {
    let f1 = ch(1);
    let t1 = one_of(2, &['Z', 'ﾟ', '𠮷']);
    let a = ch(5);
    shard();
    let c = Chanoma::from_table(table(vec![Item::new(st(f1), st(t1))]));
    conv_checks(&c, &long(a, f1), &[(f1, t1)]);
}
// an arbitrary entry added to a table of entries that follow from one another
#[no_mangle]
pub extern "C" fn h_p01_e() {
    let (f1, t1) = (ch(1), ch(2));
    let t = [ch(5), ch(6)];
    shard();
    hash_mode(1, 0);
    let base = [('a', 'あ'), ('b', 'a'), ('あ', 'い'), ('é', '𠮷')];
    let mut b = TableBuilder::new();
    b.add_corr(&Correspondence::new(Synthesized::new(base.iter().map(|x| Item::new(st(x.0), st(x.1))).collect())));
    b.add_corr(&Correspondence::new(Synthesized::new(vec![Item::new(st(f1), st(t1))])));
    let tb = b.build();
    hash_mode(0, 0);
    let mut tab = base.to_vec();
    tab.push((f1, t1));
    conv_checks(&Chanoma::from_table(tb), &t, &tab);
}

// ---- P02 ----
pub fn preset_checks(c: &Chanoma, t: &[char]) {
    let e: Vec<char> = t.iter().map(|c| spec::preset(*c)).collect();
    let r = c.normalize(&string(t));
    same(&r, &e, 1);
    let r2 = c.normalize(&r);
    check(r2 == r, 2);
}
#[no_mangle]
pub extern "C" fn h_p02_a() {
    let t = [ch(1), ch(2)];
    let k = choice(90, 3);
    shard();
    let c = match k {
        0 => Chanoma::preset(),
        1 => {
            let mut c = Chanoma::new();
            c.use_preset();
            c
        }
        _ => {
            let mut b = TableBuilder::new();
            b.preset();
            Chanoma::from_table(b.build())
        }
    };
    preset_checks(&c, &t);
}
#[no_mangle]
pub extern "C" fn h_p02_b() {
    let a = ch(1);
    shard();
    preset_checks(&Chanoma::preset(), &long(a, a));
}
#[no_mangle]
pub extern "C" fn h_p02_c() {
    let t = [ch(1), ch(2), ch(3)];
    shard();
    preset_checks(&Chanoma::preset(), &t);
}

// ---- P03 ----
const RC: [(&str, char); 5] = [("ー", 'ー'), ("a", 'a'), ("\" \"", ' '), ("é", 'é'), ("𠮷", '𠮷')];
pub fn reducer(k: u32) -> (Chanoma, char) {
    let (s, c) = RC[k as usize];
    (from_file("c.yaml", &format!("modifiers:\n  consecutive_character_reducer: {}\n", s)), c)
}
pub fn p03(c: &Chanoma, x: char, t: &[char]) {
    let r = c.normalize(&string(t));
    same(&r, &spec::reduce(t, x), 1);
    let o = chars(&r);
    for i in 1..o.len() {
        check(!(o[i] == x && o[i - 1] == x), 2);
    }
    check(c.normalize(&r) == r, 3);
}
#[no_mangle]
pub extern "C" fn h_p03_a() {
    let k = choice(90, 5);
    let t = [ch(1), ch(2), ch(3)];
    shard();
    let (c, x) = reducer(k);
    p03(&c, x, &t);
}
// longer texts of the run character and one arbitrary other character each
#[no_mangle]
pub extern "C" fn h_p03_b() {
    let k = choice(90, 5);
    let cl = choice(91, 4);
    shard();
    let (c, x) = reducer(k);
    let o = ch_of(1, cl);
    let mut t = vec![];
    for i in 0..7 {
        t.push(if sym_bool(900 + i) { x } else { o });
    }
    p03(&c, x, &t);
}
// a long run inside a long text
#[no_mangle]
pub extern "C" fn h_p03_c() {
    let k = choice(90, 5);
    let (a, b) = (ch(1), ch(2));
    shard();
    let (c, x) = reducer(k);
    let mut t = vec![a];
    t.extend(std::iter::repeat(x).take(20));
    t.push(b);
    t.extend(LONG.chars());
    t.push(x);
    t.push(a);
    t.push(x);
    p03(&c, x, &t);
}

// ---- P04 ----
const EL: [(&str, &[char]); 4] = [
    ("[\"~\", ∼, ∾, 〜, 〰, ～]", &['~', '∼', '∾', '〜', '〰', '～']),
    ("[a, b, é, あ, 𠮷]", &['a', 'b', 'é', 'あ', '𠮷']),
    ("[\" \"]", &[' ']),
    ("[]", &[]),
];
pub fn p04(k: u32, t: &[char]) {
    let (s, l) = EL[k as usize];
    let c = from_file("c.yaml", &format!("modifiers:\n  character_eliminator: {}\n", s));
    let r = c.normalize(&string(t));
    same(&r, &spec::eliminate(t, l), 1);
}
#[no_mangle]
pub extern "C" fn h_p04_a() {
    let k = choice(90, 4);
    let t = [ch(1), ch(2), ch(3)];
    shard();
    p04(k, &t);
}
#[no_mangle]
pub extern "C" fn h_p04_b() {
    let k = choice(90, 4);
    let (a, b) = (ch(1), ch(2));
    shard();
    p04(k, &long(a, b));
}

// ---- P05 ----
pub fn p05(t: &[char]) {
    let c = from_file("c.yaml", "modifiers:\n  dotted_space_eliminator:\n");
    let r = c.normalize(&string(t));
    same(&r, &spec::dotted(t), 1);
}
#[no_mangle]
pub extern "C" fn h_p05_a() {
    let t = [ch(1), ch(2), ch(3), ch_of(4, 0)];
    shard();
    p05(&t);
}
// six ASCII characters
#[no_mangle]
pub extern "C" fn h_p05_b() {
    let t = [ascii(1), ascii(2), ascii(3), ascii(4), ascii(5)];
    shard();
    p05(&t);
}
// spaces between arbitrary characters
#[no_mangle]
pub extern "C" fn h_p05_c() {
    let (a, b) = (ch(1), ch(2));
    let n = choice(90, 4);
    shard();
    let mut t = vec![a];
    for _ in 0..n {
        t.push(' ');
    }
    t.push(b);
    t.extend(" x  y あ z　 　w ".chars());
    t.push(a);
    t.push(' ');
    p05(&t);
}
#[no_mangle]
pub extern "C" fn h_p05_d() {
    let (a, b) = (ch(1), ch(2));
    shard();
    p05(&long(a, b));
}

// ---- P06 ----
pub fn p06(t: &[char]) {
    let c = from_file("c.yaml", "modifiers:\n  trim:\n");
    let r = c.normalize(&string(t));
    same(&r, &spec::trim(t), 1);
    check(c.normalize(&r) == r, 2);
}
#[no_mangle]
pub extern "C" fn h_p06_a() {
    let t = [ch(1), ch(2), ch(3)];
    shard();
    p06(&t);
}
#[no_mangle]
pub extern "C" fn h_p06_b() {
    let t = [ascii(1), ascii(2), ascii(3), ascii(4), ascii(5)];
    shard();
    p06(&t);
}
#[no_mangle]
pub extern "C" fn h_p06_c() {
    let (a, b) = (ch(1), ch(2));
    let n = choice(90, 4);
    shard();
    let mut t = vec![' '; n as usize];
    t.push(a);
    t.extend("  x \t　 y ".chars());
    t.push(b);
    t.extend(std::iter::repeat(' ').take(3 - n as usize));
    p06(&t);
}

// ---- P07 ----
#[no_mangle]
pub extern "C" fn h_p07_a() {
    let t = [ch(1), ch(2), ch(3)];
    let k = choice(90, 8);
    shard();
    let (y, f, to) = lig(k);
    let c = from_file("c.yaml", y);
    let r = c.normalize(&string(&t));
    same(&r, &spec::replace(&t, &chars(f), &chars(to)), 1);
}
pub fn lig(k: u32) -> (&'static str, &'static str, &'static str) {
    match k {
        0 => ("modifiers:\n  ligature_translator:\n    ハ゜: パ\n", "ハ゜", "パ"),
        1 => ("modifiers:\n  ligature_translator:\n    aa: a\n", "aa", "a"),
        2 => ("modifiers:\n  ligature_translator:\n    aba: \"\"\n", "aba", ""),
        // the replacement makes new occurrences, or holds its sequence
        4 => ("modifiers:\n  ligature_translator:\n    ab: ba\n", "ab", "ba"),
        5 => ("modifiers:\n  ligature_translator:\n    a: aa\n", "a", "aa"),
        6 => ("modifiers:\n  ligature_translator:\n    ab: \"cab \"\n", "ab", "cab "),
        7 => ("modifiers:\n  ligature_translator:\n    aab: b\n", "aab", "b"),
        _ => ("modifiers:\n  ligature_translator:\n    é: ééß𠮷\n", "é", "ééß𠮷"),
    }
}
// more positions, over the rule's own characters and one arbitrary character
#[no_mangle]
pub extern "C" fn h_p07_b() {
    let k = choice(90, 8);
    let cl = choice(91, 4);
    shard();
    let (y, f, to) = lig(k);
    let o = ch_of(1, cl);
    let fc = chars(f);
    let mut t = vec![];
    for i in 0..6 {
        let v = sym(900 + i, 2, 0, 2);
        t.push(if v == 0 { fc[0] } else if v == 1 && fc.len() > 1 { fc[1] } else { o });
    }
    let c = from_file("c.yaml", y);
    let r = c.normalize(&string(&t));
    same(&r, &spec::replace(&t, &fc, &chars(to)), 1);
}
// several independent rules in both orders
#[no_mangle]
pub extern "C" fn h_p07_c() {
    let t = [ch(1), ch(2), ch(3)];
    let k = choice(90, 2);
    shard();
    let c = from_file(
        "c.yaml",
        if k == 0 {
            "modifiers:\n  ligature_translator:\n    ab: X\n    か゛: が\n    𠮷: 吉\n"
        } else {
            "modifiers:\n  ligature_translator:\n    𠮷: 吉\n    か゛: が\n    ab: X\n"
        },
    );
    let r = c.normalize(&string(&t));
    let e = spec::replace(&t, &['a', 'b'], &['X']);
    let e = spec::replace(&e, &['か', '゛'], &['が']);
    let e = spec::replace(&e, &['𠮷'], &['吉']);
    same(&r, &e, 1);
}
// long text
#[no_mangle]
pub extern "C" fn h_p07_d() {
    let (a, b) = (ch(1), ch(2));
    shard();
    let mut t = vec!['ハ', a, 'ハ', '゜', b, '゜'];
    t.extend(LONG.chars());
    t.extend("ハ゜ハハ゜゜".chars());
    t.push(a);
    t.push(b);
    let c = from_file("c.yaml", "modifiers:\n  ligature_translator:\n    ハ゜: パ\n");
    let r = c.normalize(&string(&t));
    same(&r, &spec::replace(&t, &['ハ', '゜'], &['パ']), 1);
}
#[allow(unused)]
fn _u(c: &Correspondence<Synthesized>) -> usize {
    c.items().len()
}
