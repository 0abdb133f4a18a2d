//! P18: YAML tables.  P19: their round trip.
use crate::p_basic::{st, write_file};
use crate::p_csv::{expect, same_set};
use crate::sx::*;
use chanoma::file::{table_from_yaml_path, to_serialized_corr};
use chanoma::{Correspondence, Item, Synthesized, TableBuilder};

pub fn load_yaml(content: &[u8]) -> Vec<Item> {
    hash_mode(1, 0);
    let p = write_file("t.yaml", content);
    match table_from_yaml_path(&p) {
        Ok(t) => t.items(),
        Err(_) => {
            check(false, 80);
            unreachable!()
        }
    }
}
/// printable in a YAML stream, and no line break
pub fn printable(c: char) -> bool {
    let v = c as u32;
    !(v < 0x20 || (0x7f..=0x9f).contains(&v) || v == 0x2028 || v == 0x2029 || v == 0xfeff || v == 0xfffe || v == 0xffff)
}
/// a scalar in double (k = 0) or single quotes (k = 1), or plain (k = 2)
pub fn scalar(k: u32, cs: &[char], out: &mut String) {
    match k {
        0 => {
            out.push('"');
            for &c in cs {
                assume(printable(c));
                if c == '"' || c == '\\' {
                    out.push('\\');
                }
                out.push(c);
            }
            out.push('"');
        }
        1 => {
            out.push('\'');
            for &c in cs {
                assume(printable(c));
                if c == '\'' {
                    out.push('\'');
                }
                out.push(c);
            }
            out.push('\'');
        }
        _ => {
            for &c in cs {
                // letters and everything that is no ASCII
                assume(printable(c) && (c.is_ascii_alphabetic() || c as u32 >= 0xa0));
                out.push(c);
            }
        }
    }
}
fn w(f: &[char], t: &[char]) -> (String, String) {
    (string(f), string(t))
}
// the list notation
#[no_mangle]
pub extern "C" fn h_p18_a() {
    let k = choice(90, 3);
    let o = choice(91, 2);
    let (a, b) = (ch(1), ch(2));
    shard();
    let mut s = String::from("items:\n");
    let mut entry = |f: &[char], t: &[char]| {
        s.push_str(if o == 0 { "  - from: " } else { "  - to: " });
        scalar(k, if o == 0 { f } else { t }, &mut s);
        s.push_str(if o == 0 { "\n    to: " } else { "\n    from: " });
        scalar(k, if o == 0 { t } else { f }, &mut s);
        s.push('\n');
    };
    entry(&['z'], &['q', 'r']);
    entry(&[a], &[b]);
    entry(&[b], &['x', a]);
    expect(&load_yaml(s.as_bytes()), &[w(&['z'], &['q', 'r']), w(&[a], &[b]), w(&[b], &['x', a])], 1);
}
// the mapping notation, to one original or to a list of them
#[no_mangle]
pub extern "C" fn h_p18_b() {
    let k = choice(90, 3);
    let o = choice(91, 3);
    let (a, b) = (ch(1), ch(2));
    shard();
    let mut s = String::from("items:\n  ");
    scalar(k, &['k', a], &mut s);
    s.push_str(match o {
        0 => ": ",
        1 => ": [",
        _ => ":\n  - ",
    });
    scalar(k, &[b], &mut s);
    match o {
        0 => {}
        1 => {
            s.push_str(", z, ");
            scalar(k, &[a, 'y'], &mut s);
            s.push(']');
        }
        _ => {
            s.push_str("\n  - z\n  - ");
            scalar(k, &[a, 'y'], &mut s);
        }
    }
    s.push_str("\n  zz: あ\n");
    let mut want = vec![w(&[b], &['k', a])];
    if o > 0 {
        want.push(w(&['z'], &['k', a]));
        want.push(w(&[a, 'y'], &['k', a]));
    }
    want.push(w(&['あ'], &['z', 'z']));
    expect(&load_yaml(s.as_bytes()), &want, 1);
}
// flow style, escapes, comments, documents without items
#[no_mangle]
pub extern "C" fn h_p18_c() {
    let k = choice(90, 6);
    let a = ch(1);
    shard();
    let mut s = String::new();
    let want: Vec<(String, String)> = match k {
        0 => {
            s.push_str("{items: [{from: ");
            scalar(0, &[a], &mut s);
            s.push_str(", to: y}, {to: a, from: ");
            scalar(1, &[a, a], &mut s);
            s.push_str("}]}\n");
            vec![w(&[a], &['y']), w(&[a, a], &['a'])]
        }
        1 => {
            s.push_str("# c\n---\nother: 1\nitems: # d\n\n  # e\n  - {from: ");
            scalar(0, &[a], &mut s);
            s.push_str(", to: y} # f\nmodifiers:\n  trim:\n");
            vec![w(&[a], &['y'])]
        }
        2 => {
            s.push_str("modifiers:\n  trim:\nitem: ");
            scalar(0, &[a], &mut s);
            s.push('\n');
            vec![]
        }
        3 => {
            s.push_str("items: []\nx: ");
            scalar(0, &[a], &mut s);
            s.push('\n');
            vec![]
        }
        4 => {
            s.push_str("items: {}\nx: ");
            scalar(1, &[a], &mut s);
            s.push('\n');
            vec![]
        }
        _ => {
            s.push_str("items:\n- from: ");
            scalar(0, &[a], &mut s);
            s.push_str("\n  to: y\n- {from: x, to: ");
            scalar(0, &[a, a], &mut s);
            s.push_str("}\n- from: ");
            scalar(0, &[a], &mut s);
            s.push_str("\n  to: y");
            vec![w(&[a], &['y']), w(&['x'], &[a, a]), w(&[a], &['y'])]
        }
    };
    expect(&load_yaml(s.as_bytes()), &want, 1);
}
// escapes: every four digit escape
#[no_mangle]
pub extern "C" fn h_p18_d() {
    let cl = choice(90, 3);
    shard();
    let c = ch_of(1, cl);
    let v = c as u32;
    let mut s = String::from("items:\n  - from: \"x\\u");
    for i in 0..4 {
        let d = (v >> (12 - 4 * i)) & 15;
        s.push(if d < 10 { (b'0' + d as u8) as char } else { (b'a' + d as u8 - 10) as char });
    }
    s.push_str("\"\n    to: y\n");
    expect(&load_yaml(s.as_bytes()), &[w(&['x', c], &['y'])], 1);
}
// the ways to load a table
#[no_mangle]
pub extern "C" fn h_p18_e() {
    let k = choice(90, 3);
    let (a, b) = (ch(1), ch(2));
    shard();
    hash_mode(1, 0);
    let mut s = String::from("items:\n  - from: ");
    scalar(0, &[a], &mut s);
    s.push_str("\n    to: ");
    scalar(0, &[b], &mut s);
    s.push_str("\n  - from: kk\n    to: ll\n");
    let p = write_file("t.yaml", s.as_bytes());
    let want = [w(&[a], &[b]), w(&['k', 'k'], &['l', 'l'])];
    match k {
        0 => match TableBuilder::from_yaml_path(&p) {
            Ok(b) => expect(&b.build().items(), &want, 1),
            Err(_) => check(false, 9),
        },
        1 => {
            let mut bl = TableBuilder::new();
            check(bl.add_from_yaml(&p).is_ok(), 8);
            same_set(&want, &bl.build().items(), 4);
        }
        _ => {
            let mut bl = TableBuilder::new();
            bl.add_corr(&Correspondence::new(Synthesized::new(vec![Item::new("qq", "r")])));
            check(bl.add_from_yaml(&p).is_ok(), 8);
            let mut want = want.to_vec();
            want.push(w(&['q', 'q'], &['r']));
            same_set(&want, &bl.build().items(), 4);
        }
    }
}

// other keys of the document, with any value, before or after the items
#[no_mangle]
pub extern "C" fn h_p18_f() {
    const V: [&str; 12] = ["", " ~", " true", " 1", " -.inf", " []", " [trim]", " {}", " {from: q, to: r}", "\n  trim:", "\n  - from: q\n    to: r", " \"items: {q: r}\""];
    let n = choice(90, 4);
    let v = choice(91, V.len() as u32) as usize;
    let k = choice(92, 4);
    let z = choice(93, 2);
    let a = ch(1);
    let b = ch_of(2, 0);
    shard();
    let mut other = String::new();
    match n {
        0 => other.push_str("modifiers"),
        1 => other.push_str("item"),
        2 => other.push_str("1"),
        _ => scalar(0, &[b, 'i'], &mut other),
    }
    other.push(':');
    other.push_str(V[v]);
    other.push('\n');
    let mut s = String::new();
    if z == 0 {
        s.push_str(&other);
    }
    s.push_str("items:");
    let want = match k {
        0 => {
            s.push_str("\n  - from: ");
            scalar(0, &[a], &mut s);
            s.push_str("\n    to: y\n  - from: x\n    to: ");
            scalar(0, &[a], &mut s);
            s.push('\n');
            vec![w(&[a], &['y']), w(&['x'], &[a])]
        }
        1 => {
            s.push_str("\n  ");
            scalar(0, &[a], &mut s);
            s.push_str(": [x, ");
            scalar(0, &[a], &mut s);
            s.push_str("]\n");
            vec![w(&['x'], &[a]), w(&[a], &[a])]
        }
        2 => {
            s.push_str(" []\n");
            vec![]
        }
        _ => {
            s.push_str(" {}\n");
            vec![]
        }
    };
    if z == 1 {
        s.push_str(&other);
    }
    expect(&load_yaml(s.as_bytes()), &want, 1);
}

// ---- P19 ----
fn corr(v: &[(String, String)]) -> Correspondence<Synthesized> {
    Correspondence::new(Synthesized::new(v.iter().map(|x| Item::new(x.0.clone(), x.1.clone())).collect()))
}
/// texts that serde_yaml writes without quotes and reads as numbers
fn known_number(s: &str) -> bool {
    let radix = |p: &str, r: u32| match s.strip_prefix('+').unwrap_or(s).strip_prefix(p) {
        Some(x) => u64::from_str_radix(x, r).is_ok(),
        None => false,
    };
    if s.starts_with("+0x") && radix("0x", 16) || radix("0o", 8) || radix("0b", 2) {
        return true;
    }
    s.starts_with('+') && matches!(s.trim_start_matches('+'), ".inf" | ".Inf" | ".INF")
}
fn yaml_trip(v: &[(String, String)]) {
    let mut k = false;
    for x in v {
        k |= known_number(&x.0) || known_number(&x.1);
    }
    known(k, 1);
    for i in 0..v.len() {
        for j in 0..i {
            assume(!(v[i].0 == v[j].0 && v[i].1 == v[j].1));
        }
    }
    hash_mode(1, 0);
    let s = match serde_yaml::to_string(&to_serialized_corr(&corr(v))) {
        Ok(s) => s,
        Err(_) => {
            check(false, 80);
            return;
        }
    };
    note(s.as_bytes());
    let got = load_yaml(s.as_bytes());
    same_set(v, &got, 2);
}
// one arbitrary character as original and one as replacement
#[no_mangle]
pub extern "C" fn h_p19_a() {
    let (a, b) = (ch(1), ch(2));
    shard();
    yaml_trip(&[(st(a), st(b)), ("h".into(), "か".into())]);
}
// two ASCII characters
#[no_mangle]
pub extern "C" fn h_p19_b() {
    let k = choice(90, 2);
    let (a, b) = (ascii(1), ascii(2));
    shard();
    if k == 0 {
        yaml_trip(&[(string(&[a, b]), "x".into())]);
    } else {
        yaml_trip(&[("x".into(), string(&[a, b]))]);
    }
}
// groups
#[no_mangle]
pub extern "C" fn h_p19_c() {
    let n = choice(90, 4);
    shard();
    let mut v = vec![];
    for i in 0..n {
        v.push((
            string(&[one_of(1 + i, &['a', '~', '1', '"', ' ', '-', '\''])]),
            string(&[one_of(11 + i, &['x', ':', '#'])]),
        ));
    }
    yaml_trip(&v);
}
const MARKS: [char; 32] = [
    'a', ' ', '-', ':', '#', '~', '"', '\'', '\\', '\n', ',', '[', '0', '+', 'x', '\r', '1', '9', 'e', '.', 'o', 'b', 'n', '\t', '{', '}', ']', '&', '!', '%',
    '|', '`',
];
// four characters that matter to YAML (five in the thorough tier)
#[no_mangle]
pub extern "C" fn h_p19_d() {
    let k = choice(90, 2);
    let n = if tier() == 0 { 4 } else { 5 };
    let cs: Vec<char> = (0..n).map(|i| one_of(1 + i, &MARKS)).collect();
    shard();
    if k == 0 {
        yaml_trip(&[(string(&cs), "x".into())]);
    } else {
        yaml_trip(&[("x".into(), string(&cs))]);
    }
}
// words that mean something in YAML, with any character before or after
#[no_mangle]
pub extern "C" fn h_p19_e() {
    const W: [&str; 22] = [
        "null", "true", "~", "1", "0x1F", "1e3", ".nan", "-.inf", "- a", "a: b", "a # b", "a\nb\n", "--- ", "...", "[a]", "{a: b}", "&a b", "*a", "!a b", "%YAML 1.2",
        "<<", "\t| \u{85}\u{2028}",
    ];
    let w = choice(90, W.len() as u32) as usize;
    let k = choice(91, 3);
    let a = ch(1);
    shard();
    let s = match k {
        0 => W[w].to_string(),
        1 => format!("{}{}", W[w], st(a)),
        _ => format!("{}{}", st(a), W[w]),
    };
    yaml_trip(&[(s.clone(), st(a)), (st(a), s), ("h".into(), st(a)), ("i".into(), st(a))]);
}
