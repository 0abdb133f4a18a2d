//! P15: tables as sets of entries.  P25: the table of square units.
use crate::p_basic::{st, table};
use crate::spec;
use crate::sx::*;
use chanoma::characters_set::cjk_compatibilities::CjkCompatibilities;
use chanoma::corr::{Linear, Unification};
use chanoma::table::Origin;
use chanoma::{Corr, Correspondence, Item, Synthesized, Table, TableBuilder};

type C = Correspondence<Synthesized>;
fn corr(v: &[Item]) -> C {
    Correspondence::new(Synthesized::new(v.to_vec()))
}
fn eq(a: &Item, b: &Item) -> bool {
    a.from == b.from && a.to == b.to
}
fn has(v: &[Item], x: &Item) -> bool {
    let mut r = false;
    for y in v {
        r |= eq(x, y);
    }
    r
}
fn note_items(v: &[Item]) {
    for x in v {
        note(x.from.as_bytes());
        note(x.to.as_bytes());
    }
}
/// strictly ascending: sorted, and every entry once
fn ascending(v: &[Item], code: u32) {
    for i in 1..v.len() {
        let (a, b) = (&v[i - 1], &v[i]);
        check(a.from < b.from || (a.from == b.from && a.to < b.to), code);
    }
}
fn equal(a: &[Item], b: &[Item], code: u32) {
    check(a.len() == b.len(), code);
    for i in 0..a.len() {
        check(eq(&a[i], &b[i]), code + 1);
    }
}
fn add_checks(a: &[Item], b: &[Item]) {
    let (ca, cb) = (corr(a), corr(b));
    let r = (ca.clone() + &cb).items();
    note_items(&r);
    ascending(&r, 1);
    for x in &r {
        check(has(a, x) || has(b, x), 2);
    }
    for x in a {
        check(has(&r, x), 3);
    }
    for x in b {
        check(has(&r, x), 4);
    }
    // in place
    let mut y = ca.clone();
    y += &cb;
    equal(&y.items(), &r, 10);
    let mut t = table(a.to_vec());
    t.add(&cb);
    equal(&t.items(), &r, 12);
    equal(&t.corr().items(), &r, 14);
    let mut bl = table(a.to_vec()).builder();
    bl.add_corr(&cb);
    equal(&bl.build().items(), &r, 16);
    let mut bl = TableBuilder::new();
    bl.add_corr(&ca).add_corr(&cb);
    equal(&bl.build().items(), &r, 18);
    // commutative, idempotent
    equal(&(cb.clone() + &ca).items(), &r, 20);
    equal(&(y.clone() + &cb).items(), &r, 22);
    equal(&(y.clone() + &y).items(), &r, 24);
    // operands
    equal(&ca.items(), a, 26);
    equal(&cb.items(), b, 28);
}
fn sub_checks(a: &[Item], b: &[Item]) {
    let (ca, cb) = (corr(a), corr(b));
    let r = (ca.clone() - &cb).items();
    note_items(&r);
    ascending(&r, 1);
    for x in &r {
        check(has(a, x), 2);
        check(!has(b, x), 3);
    }
    for x in a {
        check(has(&r, x) || has(b, x), 4);
    }
    let mut y = ca.clone();
    y -= &cb;
    equal(&y.items(), &r, 10);
    let mut t = table(a.to_vec());
    t.remove(&cb);
    equal(&t.items(), &r, 12);
    let mut bl = TableBuilder::from_table(table(a.to_vec()));
    bl.remove_corr(&cb);
    equal(&bl.build().items(), &r, 14);
    // what was removed can be removed again, and added back
    equal(&(y.clone() - &cb).items(), &r, 16);
    equal(&((ca.clone() + &cb) - &cb).items(), &r, 18);
    check((cb.clone() - &cb).items().is_empty(), 20);
    equal(&ca.items(), a, 26);
    equal(&cb.items(), b, 28);
}
const F: &[char] = &['a', 'b', 'c'];
const T: &[char] = &['x', 'y'];
fn item(id: u32) -> Item {
    Item::new(st(one_of(id, F)), st(one_of(id + 40, T)))
}
// every pair of tables of up to 2 (3) entries over a small alphabet
#[no_mangle]
pub extern "C" fn h_p15_a() {
    let n = choice(90, 3);
    let m = choice(91, 3);
    let op = choice(92, 2);
    shard();
    hash_mode(1, 0);
    let a: Vec<Item> = (0..n).map(|i| item(1 + i)).collect();
    let b: Vec<Item> = (0..m).map(|i| item(11 + i)).collect();
    if op == 0 {
        add_checks(&a, &b);
    } else {
        sub_checks(&a, &b);
    }
}
// entries of arbitrary characters
#[no_mangle]
pub extern "C" fn h_p15_b() {
    let k = choice(92, 4);
    let (c1, c2) = (ch(1), ch(2));
    shard();
    hash_mode(1, 0);
    let base = [Item::new("b", "é"), Item::new("é", "b"), Item::new("あ", "𠮷")];
    let x = [if k % 2 == 0 { Item::new(st(c1), st(c2)) } else { Item::new(st(c1) + "b", st(c2)) }];
    match k / 2 {
        0 => add_checks(&base, &x),
        _ => sub_checks(&base, &x),
    }
}
// entries of several characters which look alike when joined or cut
const P: [(&str, &str); 8] =
    [("ab", "c"), ("a", "bc"), ("a", "b"), ("ab", ""), ("", "ab"), ("a", "bca"), ("あ", "ab"), ("abc", "c")];
fn pick(id: u32) -> Item {
    let k = sym(id * 8, 3, 0, 7) as usize;
    for i in 0..8 {
        if k == i {
            return Item::new(P[i].0, P[i].1);
        }
    }
    unreachable!()
}
#[no_mangle]
pub extern "C" fn h_p15_c() {
    let op = choice(92, 2);
    shard();
    let a = [pick(1), pick(2)];
    let b = [pick(3)];
    if op == 0 {
        add_checks(&a, &b);
    } else {
        sub_checks(&a, &b);
    }
}
// three tables
#[no_mangle]
pub extern "C" fn h_p15_d() {
    let n = choice(90, 3);
    shard();
    hash_mode(1, 0);
    let a: Vec<Item> = (0..n).map(|i| item(1 + i)).collect();
    let b = [item(11)];
    let c = [item(21)];
    let (ca, cb, cc) = (corr(&a), corr(&b), corr(&c));
    let l = (ca.clone() + &cb) + &cc;
    let r = ca.clone() + &(cb.clone() + &cc);
    note_items(&l.items());
    equal(&l.items(), &r.items(), 1);
    let mut t = table(a.clone());
    t.add(&cb);
    t.add(&cc);
    equal(&t.items(), &l.items(), 3);
    let l = (ca.clone() - &cb) - &cc;
    let r = ca.clone() - &(cb.clone() + &cc);
    equal(&l.items(), &r.items(), 5);
    let mut t = table(a.clone());
    t.remove(&cb);
    t.remove(&cc);
    equal(&t.items(), &l.items(), 7);
    // a removal and an addition, in this order
    let mut t = table(a.clone());
    t.remove(&cb);
    t.add(&cc);
    let l = (ca.clone() - &cb) + &cc;
    equal(&t.items(), &l.items(), 9);
    for x in &a {
        check(has(&t.items(), x) == (!has(&b, x) || has(&c, x)), 11);
    }
    check(has(&t.items(), &c[0]), 12);
}
// predefined tables with symbolic ones
#[no_mangle]
pub extern "C" fn h_p15_e() {
    let op = choice(92, 2);
    let k = choice(93, 3);
    let (c1, c2) = (ch(1), ch(2));
    shard();
    hash_mode(1, 0);
    const U: Correspondence<Unification> = Unification::new(&["ー", "é", "a"], "-").corr();
    const L: Correspondence<Linear> = Linear::new("あ", "x").corr();
    let x = [Item::new(st(c1), st(c2)), Item::new("あ", "x")];
    let cx = corr(&x);
    let (p, q): (Vec<Item>, Vec<Item>) = match k {
        0 => (U.items(), x.to_vec()),
        1 => (L.items(), x.to_vec()),
        _ => (x.to_vec(), U.items()),
    };
    let r = match (k, op) {
        (0, 0) => (U + &cx).items(),
        (1, 0) => (L + &cx).items(),
        (_, 0) => (cx + &U).items(),
        (0, _) => (U - &cx).items(),
        (1, _) => (L - &cx).items(),
        _ => (cx - &U).items(),
    };
    note_items(&r);
    ascending(&r, 1);
    for y in &r {
        check(if op == 0 { has(&p, y) || has(&q, y) } else { has(&p, y) && !has(&q, y) }, 2);
    }
    for y in &p {
        check(has(&r, y) == (op == 0 || !has(&q, y)), 3);
    }
    for y in &q {
        check(has(&r, y) == (op == 0), 4);
    }
    let mut e = Table::new();
    check(e.items().is_empty(), 5);
    e.add(&U);
    check(e.items().len() == 3, 6);
}
// larger tables (thorough)
#[no_mangle]
pub extern "C" fn h_p15_f() {
    let op = choice(92, 2);
    shard();
    hash_mode(1, 0);
    let a = [item(1), item(2), item(3)];
    let b = [item(11), item(12)];
    if op == 0 {
        add_checks(&a, &b);
    } else {
        sub_checks(&a, &b);
    }
}

// ---- P25 ----
#[no_mangle]
pub extern "C" fn h_p25_a() {
    let c = ch(1);
    shard();
    let v = CjkCompatibilities::new().corr().items();
    let f = st(c);
    let mut n = 0;
    for x in &v {
        if x.from == f {
            n += 1;
        }
    }
    check(n == if ('\u{3300}'..='\u{33ff}').contains(&c) { 1 } else { 0 }, 1);
    for x in &v {
        check(!x.to.is_empty(), 2);
    }
}
// the expansion of each character
#[no_mangle]
pub extern "C" fn h_p25_b() {
    shard();
    let v = CjkCompatibilities::new().corr().items();
    let k = sym(8, 8, 0, 255) as usize;
    let c = char::from_u32(0x3300 + k as u32).unwrap();
    let f = st(c);
    let mut found = false;
    for x in &v {
        if x.from == f {
            found = true;
            note(x.to.as_bytes());
            check(spec::square_is(c, &x.to), 1);
        }
    }
    check(found, 2);
}
// comparing tables, and what leaves them as they are
#[no_mangle]
pub extern "C" fn h_p15_g() {
    let k = choice(90, 3);
    let (a, b) = (ch(1), ch(2));
    let (c, d) = (ch_of(3, 0), ch_of(4, 2));
    shard();
    hash_mode(1, 0);
    let x = [Item::new(st(a), "x"), Item::new(st(c), st(d))];
    let y = match k {
        0 => vec![Item::new(st(b), "x"), Item::new(st(c), st(d))],
        1 => vec![Item::new(st(a), st(b)), Item::new(st(c), st(d))],
        _ => vec![Item::new(st(a), "x")],
    };
    let (p, q) = (corr(&x), corr(&y));
    let eq = match k {
        0 => a == b,
        1 => b == 'x',
        _ => false,
    };
    note(&[(p == q) as u8]);
    check((p == q) == eq, 1);
    check((q == p) == eq, 2);
    check((x[0] == y[0]) == (k == 2 || eq), 3);
    check(p.synthesize() == p, 4);
    check(p.clone().items() == p.items() && p.items()[..] == x, 5);
    check(Synthesized::from(&p).items()[..] == x, 6);
    let t = Table::from_corr(p.clone(), Origin::New);
    check(t.items()[..] == x && t.corr() == p, 7);
    let t = t.builder().build();
    check(t.items()[..] == x, 8);
}
