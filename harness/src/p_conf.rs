//! P20: malformed configuration files.
use crate::p_basic::{st, table, write_file};
use crate::p_yaml::scalar;
use crate::sx::*;
use chanoma::{Chanoma, Item, TableBuilder};

/// a YAML document
#[derive(Clone)]
pub enum Y {
    Raw(&'static str),
    S(Vec<char>),
    Seq(Vec<Y>),
    Map(Vec<(Y, Y)>),
}
use Y::*;
fn s(x: &str) -> Y {
    S(x.chars().collect())
}
fn render(y: &Y, o: &mut String) {
    match y {
        Raw(t) => o.push_str(t),
        S(c) => scalar(0, c, o),
        Seq(l) => {
            o.push('[');
            for (i, x) in l.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                render(x, o);
            }
            o.push(']');
        }
        Map(l) => {
            o.push('{');
            for (i, (k, v)) in l.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                o.push_str("? ");
                render(k, o);
                o.push_str(" : ");
                render(v, o);
            }
            o.push('}');
        }
    }
}
fn is_str(y: &Y) -> bool {
    matches!(y, S(_))
}
fn nonempty(y: &Y) -> bool {
    matches!(y, S(c) if !c.is_empty())
}
fn is_null(y: &Y) -> bool {
    matches!(y, Raw("~"))
}
fn get<'a>(y: &'a Y, k: &str) -> Option<&'a Y> {
    if let Map(l) = y {
        for (a, b) in l {
            if matches!(a, S(c) if string(c) == k) {
                return Some(b);
            }
        }
    }
    None
}
#[derive(Clone, Copy, PartialEq)]
enum Want {
    Fine,
    Bad,
    Any,
}
fn w(b: bool) -> Want {
    if b {
        Want::Fine
    } else {
        Want::Bad
    }
}
fn items_want(y: &Y) -> Want {
    match y {
        Seq(l) => w(l.iter().all(|e| get(e, "from").map_or(false, is_str) && get(e, "to").map_or(false, is_str))),
        Map(l) => w(l.iter().all(|(k, v)| {
            is_str(k)
                && match v {
                    Seq(l) => l.iter().all(is_str),
                    v => is_str(v),
                }
        })),
        // the empty value may stand for no items
        Raw("~") => Want::Any,
        _ => Want::Bad,
    }
}
pub const NAMES: [&str; 9] = [
    "character_converter",
    "character_eliminator",
    "consecutive_character_reducer",
    "ligature_translator",
    "dotted_space_eliminator",
    "trim",
    "neologdn",
    "Trim",
    "",
];
fn modifier_want(name: &Y, v: &Y) -> Want {
    let name = match name {
        S(c) => string(c),
        _ => return Want::Bad,
    };
    let k = match NAMES.iter().position(|n| *n == name) {
        Some(k) => k,
        None => return Want::Bad,
    };
    match k {
        0 => match v {
            Map(l) => w(l.iter().all(|(a, b)| nonempty(a) && nonempty(b))),
            _ => Want::Bad,
        },
        1 => match v {
            Seq(l) => w(l.iter().all(nonempty)),
            _ => Want::Bad,
        },
        2 => w(nonempty(v)),
        3 => match v {
            // rules without an original may be refused or ignored
            Map(l) if l.iter().all(|(a, b)| is_str(a) && is_str(b)) => {
                if l.iter().all(|(a, _)| nonempty(a)) {
                    Want::Fine
                } else {
                    Want::Any
                }
            }
            _ => Want::Bad,
        },
        4..=6 => w(is_null(v)),
        _ => Want::Bad,
    }
}
const LEAVES: u32 = 8;
const SHAPES: u32 = 22;
fn leaf(k: u32) -> Y {
    match k {
        0 => Raw("~"),
        1 => Raw("true"),
        2 => Raw("1"),
        3 => Raw("1.5"),
        4 => s(""),
        5 => s("あb"),
        6 => S(vec![ch(1)]),
        _ => Raw("-.inf"),
    }
}
fn shape(k: u32, x: Y) -> Y {
    match k {
        0 => x,
        1 => Seq(vec![x]),
        2 => Seq(vec![s("b"), x]),
        3 => Map(vec![(x, s("b"))]),
        4 => Map(vec![(s("b"), x)]),
        5 => Map(vec![(s("b"), s("c")), (x.clone(), x)]),
        6 => Seq(vec![Seq(vec![x])]),
        7 => Map(vec![(s("from"), x), (s("to"), s("b"))]),
        8 => Seq(vec![Map(vec![(s("from"), s("c")), (s("to"), s("d"))]), Map(vec![(s("from"), x), (s("to"), s("b"))])]),
        9 => Seq(vec![Map(vec![(s("from"), s("c")), (s("to"), x)])]),
        10 => Seq(vec![Map(vec![(s("from"), x)])]),
        11 => Seq(vec![Map(vec![(s("to"), x.clone()), (x, s("from"))])]),
        12 => Map(vec![(s("b"), Seq(vec![s("c"), x]))]),
        13 => Map(vec![(s("b"), Map(vec![(s("c"), x)]))]),
        14 => Map(vec![(Seq(vec![x]), s("b"))]),
        15 => Map(vec![(s("b"), Seq(vec![Seq(vec![x])]))]),
        16 => Map(vec![(Map(vec![(x, s("b"))]), s("c"))]),
        17 => Map(vec![(s("b"), Seq(vec![]))]),
        18 => Map(vec![(s("b"), Map(vec![]))]),
        19 => Seq(vec![]),
        20 => Map(vec![]),
        _ => Seq(vec![x.clone(), s("b"), x]),
    }
}
fn apply(c: &Chanoma, x: char) {
    for t in [string(&[x, 'b', 'b']), String::new(), string(&['b', x, ' ', 'あ', 'c', 'a'])] {
        let r = c.normalize(&t);
        note(r.as_bytes());
        let p = c.normalize_with_positions(&t);
        check(p.text() == r, 5);
    }
}
fn load(p: &str, want: Want, x: char) {
    hash_mode(1, 0);
    match Chanoma::from_config_file(p) {
        Ok(c) => {
            note(b"ok");
            check(want != Want::Bad, 1);
            apply(&c, x);
        }
        Err(e) => {
            note(b"err");
            check(want != Want::Fine, 2);
            check(!e.to_string().is_empty(), 3);
        }
    }
}
fn conf(doc: &Y, want: Want, x: char) {
    let mut t = String::new();
    render(doc, &mut t);
    t.push('\n');
    load(&write_file("c.yaml", t.as_bytes()), want, x);
}
fn pick() -> Y {
    let k = choice(92, SHAPES);
    // shapes without a leaf
    let l = if (17..=20).contains(&k) { 0 } else { choice(93, LEAVES) };
    shape(k, leaf(l))
}
// any value as the document
#[no_mangle]
pub extern "C" fn h_p20_a() {
    let y = pick();
    let x = ch(2);
    shard();
    conf(&y, if matches!(y, Map(_)) { Want::Fine } else { Want::Any }, x);
}
// any value as the items
#[no_mangle]
pub extern "C" fn h_p20_b() {
    let y = pick();
    let x = ch_of(2, 2);
    shard();
    let want = items_want(&y);
    let doc = Map(vec![(s("items"), y)]);
    conf(&doc, want, x);
    let mut t = String::new();
    render(&doc, &mut t);
    let p = write_file("t.yml", t.as_bytes());
    match TableBuilder::from_yaml_path(&p) {
        Ok(b) => {
            check(want != Want::Bad, 6);
            apply(&Chanoma::from_table(b.build()), x);
        }
        Err(_) => check(want != Want::Fine, 7),
    }
}
// any value for every modifier
#[no_mangle]
pub extern "C" fn h_p20_c() {
    let n = choice(91, NAMES.len() as u32) as usize;
    let y = pick();
    let x = ch_of(2, 0);
    shard();
    let want = modifier_want(&s(NAMES[n]), &y);
    conf(&Map(vec![(s("modifiers"), Map(vec![(s(NAMES[n]), y)]))]), want, x);
}
// any value as the modifiers, or as the name of one
#[no_mangle]
pub extern "C" fn h_p20_d() {
    let n = choice(91, 3);
    let y = pick();
    let x = ch_of(2, 0);
    shard();
    match n {
        0 => {
            let want = match &y {
                Map(l) => w(l.iter().all(|(k, v)| modifier_want(k, v) == Want::Fine)),
                Raw("~") => Want::Any,
                _ => Want::Bad,
            };
            conf(&Map(vec![(s("modifiers"), y)]), want, x);
        }
        1 => {
            let m = vec![(s("trim"), Raw("~")), (y.clone(), Raw("~"))];
            // (a name that is one character long is no modifier)
            conf(&Map(vec![(s("modifiers"), Map(m))]), Want::Bad, x);
        }
        _ => {
            // a good part and any other
            let want = items_want(&y);
            let m = vec![(s("trim"), Raw("~")), (s("consecutive_character_reducer"), s("b"))];
            conf(&Map(vec![(s("modifiers"), Map(m)), (s("items"), y)]), want, x);
        }
    }
}
// a character of the YAML file replaced by any other, or put in anywhere
#[no_mangle]
pub extern "C" fn h_p20_e() {
    const T: &str = "items:\n  - {from: \"c\", to: 'd'}\nmodifiers:\n  trim:\n";
    let n = T.chars().count();
    let i = choice(91, n as u32) as usize;
    let k = choice(92, 2);
    let a = ch_of(1, 0);
    shard();
    let mut t: Vec<char> = T.chars().collect();
    if k == 0 {
        t[i] = a;
    } else {
        t.insert(i, a);
    }
    load(&write_file("c.yaml", string(&t).as_bytes()), Want::Any, 'x');
}
// any bytes as a CSV file
#[no_mangle]
pub extern "C" fn h_p20_f() {
    let n = choice(91, 5);
    let k = choice(92, 3);
    shard();
    let mut b: Vec<u8> = match k {
        0 => vec![],
        1 => b"h\n".to_vec(),
        _ => b"h,i\na,".to_vec(),
    };
    for i in 0..n {
        b.push(sym(8 * (1 + i), 8, 0, 255) as u8);
    }
    load(&write_file("c.csv", &b), Want::Any, 'a');
}
// any bytes as a YAML file, or within one
#[no_mangle]
pub extern "C" fn h_p20_g() {
    let n = choice(91, 3);
    let k = choice(92, 4);
    shard();
    let mut b: Vec<u8> = match k {
        0 => vec![],
        1 => b"items:\n  - {from: a, to: \"".to_vec(),
        2 => b"items: ".to_vec(),
        _ => b"modifiers:\n  consecutive_character_reducer: ".to_vec(),
    };
    for i in 0..n {
        b.push(sym(8 * (1 + i), 8, 0, 255) as u8);
    }
    if k == 1 {
        b.extend(b"\"}\n");
    }
    load(&write_file("c.yaml", &b), Want::Any, 'a');
}
// files that cannot be read, and empty ones
#[no_mangle]
pub extern "C" fn h_p20_h() {
    let k = choice(91, 4);
    let e = choice(92, 3) as usize;
    shard();
    let x = ch_of(2, 0);
    let mut p = root();
    p.push_str("/c.");
    p.push_str(["csv", "yaml", "yml"][e]);
    let want = match k {
        0 => Want::Bad,
        1 => {
            check(std::fs::create_dir(&p).is_ok(), 90);
            Want::Bad
        }
        2 => {
            check(std::fs::write(&p, b"").is_ok(), 90);
            if e == 0 {
                Want::Fine
            } else {
                Want::Any
            }
        }
        _ => {
            p.push_str("/c.");
            p.push_str(["csv", "yaml", "yml"][e]);
            Want::Bad
        }
    };
    load(&p, want, x);
    let r = if e == 0 { TableBuilder::from_csv_path(&p) } else { TableBuilder::from_yaml_path(&p) };
    check(if r.is_ok() { want != Want::Bad } else { want != Want::Fine }, 6);
}
// tables with empty entries
#[no_mangle]
pub extern "C" fn h_p20_i() {
    let (a, b) = (ch(1), ch(2));
    shard();
    let t = table(vec![
        Item::new("", st(a)),
        Item::new(st(b), ""),
        Item::new("", ""),
        Item::new(string(&[a, b]), string(&[b, a])),
    ]);
    let mut c = Chanoma::new();
    c.add_table(t.clone());
    apply(&c, a);
    apply(&Chanoma::from_table(t), b);
}
