//! P16: CSV tables.  P17: their round trip.
use crate::p_basic::{st, write_file};
use crate::sx::*;
use chanoma::file::{table_from_csv_path, to_csv_writer};
use chanoma::{Corr, Correspondence, Item, Synthesized, Table, TableBuilder};

pub fn load_csv(content: &[u8]) -> Vec<Item> {
    let p = write_file("t.csv", content);
    match table_from_csv_path(&p) {
        Ok(t) => t.items(),
        Err(_) => {
            check(false, 80);
            unreachable!()
        }
    }
}
pub fn expect(got: &[Item], want: &[(String, String)], code: u32) {
    for x in got {
        note(x.from.as_bytes());
        note(x.to.as_bytes());
    }
    check(got.len() == want.len(), code);
    for i in 0..want.len() {
        check(got[i].from == want[i].0, code + 1);
        check(got[i].to == want[i].1, code + 2);
    }
}
fn special(c: char) -> bool {
    c == ',' || c == '"' || c == '\n' || c == '\r'
}
/// a cell with this content; q: in quotes
fn cell(q: bool, cs: &[char], out: &mut String) {
    if q {
        out.push('"');
        for &c in cs {
            if c == '"' {
                out.push('"');
            }
            out.push(c);
        }
        out.push('"');
    } else {
        for &c in cs {
            assume(!special(c));
            out.push(c);
        }
    }
}
fn entries(rows: &[Vec<String>]) -> Vec<(String, String)> {
    let mut v = Vec::new();
    for r in rows {
        for i in 0..r.len() - 1 {
            v.push((r[i].clone(), r[r.len() - 1].clone()));
        }
    }
    v
}
const EOL: [&str; 3] = ["\n", "\r\n", "\n\n"];
// two rows of two cells, quoted or not, with three row ends
#[no_mangle]
pub extern "C" fn h_p16_a() {
    let q = choice(90, 4);
    let e = EOL[choice(91, 3) as usize];
    let (a, b) = (ch(1), ch(2));
    shard();
    let mut s = format!("from,to{}", e);
    cell(q & 1 != 0, &[a], &mut s);
    s.push(',');
    cell(q & 2 != 0, &['x', b], &mut s);
    s.push_str(e);
    s.push_str("あ,\"a,\"\"b\nc\"");
    s.push_str(e);
    cell(q & 2 != 0, &[b, a], &mut s);
    s.push(',');
    cell(q & 1 != 0, &[a, 'z'], &mut s);
    let want = entries(&[
        vec![st(a), string(&['x', b])],
        vec!["あ".into(), "a,\"b\nc".into()],
        vec![string(&[b, a]), string(&[a, 'z'])],
    ]);
    expect(&load_csv(s.as_bytes()), &want, 1);
}
// rows of one to four cells, the last row ended or not
#[no_mangle]
pub extern "C" fn h_p16_b() {
    let (n, m) = (choice(90, 4) + 1, choice(91, 4) + 1);
    let end = choice(92, 2);
    let q = choice(93, 2) == 1;
    let (a, b) = (ch(1), ch(2));
    shard();
    let cells = [[a, '1'], ['2', b], [b, '3'], ['4', a]];
    let mut s = String::from("h\n");
    let mut rows = Vec::new();
    for (i, k) in [n, m].iter().enumerate() {
        let mut r = Vec::new();
        for j in 0..*k {
            if j > 0 {
                s.push(',');
            }
            let c = cells[((j as usize) + i) % 4];
            cell(q, &c, &mut s);
            r.push(string(&c));
        }
        rows.push(r);
        if i == 0 || end == 1 {
            s.push('\n');
        }
    }
    expect(&load_csv(s.as_bytes()), &entries(&rows), 1);
}
// empty cells, duplicates, spaces; the order of the file is kept
#[no_mangle]
pub extern "C" fn h_p16_c() {
    let (a, b) = (ch(1), ch(2));
    let k = choice(90, 3);
    shard();
    assume(!special(a) && !special(b));
    let (a, b) = (st(a), st(b));
    let mut s = String::new();
    let rows: Vec<Vec<String>> = match k {
        0 => vec![
            vec![b.clone(), a.clone()],
            vec![a.clone(), b.clone()],
            vec![b.clone(), a.clone()],
            vec![" ".into(), format!(" {} ", a)],
        ],
        1 => vec![vec!["".into(), a.clone()], vec![a.clone(), "".into()], vec!["".into(), "".into(), "".into()], vec![b.clone()]],
        _ => vec![
            vec![a.clone(), a.clone(), b.clone()],
            vec!["#".into(), b.clone()],
            vec!["'".into(), "\t".into(), "\\".into(), "=".into()],
        ],
    };
    s.push_str("to,from\n");
    for r in &rows {
        s.push_str(&r.join(","));
        s.push('\n');
    }
    expect(&load_csv(s.as_bytes()), &entries(&rows), 1);
}
// the header: any first row, of any number of cells, quoted or not
#[no_mangle]
pub extern "C" fn h_p16_d() {
    let q = choice(90, 3);
    let n = choice(91, 3);
    let (a, b) = (ch(1), ch(2));
    shard();
    let mut s = String::new();
    cell(q >= 1, &['h', a], &mut s);
    for _ in 0..n {
        s.push(',');
        cell(q >= 2, &[b], &mut s);
    }
    s.push_str("\n\nあ,い\nう,え\n");
    expect(&load_csv(s.as_bytes()), &entries(&[vec!["あ".into(), "い".into()], vec!["う".into(), "え".into()]]), 1);
}
// a long file: cells across the reader's buffers
#[no_mangle]
pub extern "C" fn h_p16_e() {
    let k = choice(90, 6) as usize;
    let q = choice(91, 2) == 1;
    let a = ch(1);
    shard();
    let mut s = String::from("from,to\n");
    let fill = "x".repeat(8192 - s.len() - 8 - k);
    s.push_str(&fill);
    s.push_str(",y\n");
    cell(q, &['x', a, a], &mut s);
    s.push(',');
    cell(q, &[a, 'z'], &mut s);
    s.push_str("\nb,c");
    let want = entries(&[vec![fill, "y".into()], vec![string(&['x', a, a]), string(&[a, 'z'])], vec!["b".into(), "c".into()]]);
    expect(&load_csv(s.as_bytes()), &want, 1);
}
// the ways to load a table; they do not add up anything but the file's entries
#[no_mangle]
pub extern "C" fn h_p16_f() {
    let (a, b) = (ch(1), ch(2));
    let k = choice(90, 3);
    shard();
    hash_mode(1, 0);
    assume(!special(a) && !special(b));
    let s = format!("from,to\n{},{}\nk,{}\n", a, b, a);
    let p = write_file("t.csv", s.as_bytes());
    let want = [(st(a), st(b)), ("k".to_string(), st(a))];
    if k == 0 {
        match TableBuilder::from_csv_path(&p) {
            Ok(b) => expect(&b.build().items(), &want, 1),
            Err(_) => check(false, 9),
        }
        return;
    }
    let mut bl = TableBuilder::new();
    if k == 2 {
        bl.add_corr(&Correspondence::new(Synthesized::new(vec![Item::new("q", "r")])));
    }
    check(bl.add_from_csv(&p).is_ok(), 8);
    let v = bl.build().items();
    let mut n = 0;
    for x in &v {
        note(x.from.as_bytes());
        let mine = x.from == want[0].0 && x.to == want[0].1 || x.from == want[1].0 && x.to == want[1].1;
        check(mine || k == 2 && x.from == "q" && x.to == "r", 10);
        n += mine as usize;
    }
    check(n == if a == 'k' && b == 'k' { 1 } else { 2 }, 11);
    check(v.len() >= n + (k == 2) as usize - (k == 2 && (a == 'q' && b == 'r')) as usize, 12);
}

// ---- P17 ----
fn corr(v: &[(String, String)]) -> Correspondence<Synthesized> {
    Correspondence::new(Synthesized::new(v.iter().map(|x| Item::new(x.0.clone(), x.1.clone())).collect()))
}
fn has(v: &[Item], f: &str, t: &str) -> bool {
    let mut r = false;
    for y in v {
        r |= y.from == f && y.to == t;
    }
    r
}
/// every entry of `v` in `got` and the other way round
pub fn same_set(v: &[(String, String)], got: &[Item], code: u32) {
    for x in v {
        check(has(got, &x.0, &x.1), code);
    }
    for y in got {
        let mut r = false;
        for x in v {
            r |= y.from == x.0 && y.to == x.1;
        }
        check(r, code + 1);
    }
    check(got.len() == v.len(), code + 2);
}
fn csv_trip(v: &[(String, String)]) {
    let w = to_csv_writer(&corr(v), Vec::new());
    let d = match w.into_inner() {
        Ok(d) => d,
        Err(_) => {
            check(false, 80);
            return;
        }
    };
    note(&d);
    let got = load_csv(&d);
    // the first row (smallest replacement) is taken for a header
    let mut min = match v.first() {
        Some(x) => &x.1,
        None => {
            check(got.is_empty(), 1);
            return;
        }
    };
    for x in v {
        if x.1 < *min {
            min = &x.1;
        }
    }
    let mut lost = 0;
    let mut only_first = true;
    for x in v {
        if x.1 == *min {
            lost += 1;
            only_first &= !has(&got, &x.0, &x.1);
        } else {
            only_first &= has(&got, &x.0, &x.1);
        }
    }
    for y in &got {
        let mut r = false;
        for x in v {
            r |= y.from == x.0 && y.to == x.1;
        }
        only_first &= r;
    }
    only_first &= got.len() + lost == v.len();
    known(only_first, 1);
    same_set(v, &got, 2);
}
fn distinct(v: &[(String, String)]) {
    for i in 0..v.len() {
        for j in 0..i {
            assume(!(v[i].0 == v[j].0 && v[i].1 == v[j].1));
        }
    }
}
// arbitrary characters
#[no_mangle]
pub extern "C" fn h_p17_a() {
    let (a, b) = (ch(1), ch(2));
    shard();
    let v = [("h".to_string(), "".to_string()), (st(a), st(b)), (string(&['p', b]), string(&[a, 'q'])), ("y".into(), "か".into())];
    distinct(&v);
    csv_trip(&v);
}
// groups
#[no_mangle]
pub extern "C" fn h_p17_b() {
    let n = choice(90, 4);
    shard();
    let mut v = vec![];
    for i in 0..n {
        v.push((
            string(&[one_of(1 + i, &['a', 'b', ',', '"', ' '])]),
            string(&[one_of(11 + i, &['x', '"', '\n'])]),
        ));
    }
    distinct(&v);
    csv_trip(&v);
}
// a group of many, and characters of every length
#[no_mangle]
pub extern "C" fn h_p17_c() {
    let (a, b) = (ch(1), ch(2));
    shard();
    let mut v = vec![];
    for f in ["1", "é", "𠮷", "  ", ",", "\"", "\r\n", ",\"x", "'"] {
        v.push((f.to_string(), st(a)));
    }
    v.push((st(b), "\u{0}".into()));
    v.push((string(&[a, b]), st(b)));
    distinct(&v);
    csv_trip(&v);
}
#[allow(unused)]
fn _u(t: Table) -> usize {
    t.items().len()
}
