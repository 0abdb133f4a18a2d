//! P24: the Python binding, with Python's side replaced by values.
use crate::sx::*;
use chanoma::{Chanoma, Corr, Correspondence, Item, Synthesized, TableBuilder};
use pyo3::{PyAny, PyModule, PyResult};

#[path = "../../target/gen/py.rs"]
mod py;

fn b(x: bool) -> PyAny {
    PyAny::Bool(x)
}
fn s(x: &str) -> PyAny {
    PyAny::Str(x.to_string())
}
fn module() -> PyModule {
    let m = py::sx_module_chanoma();
    check(m.is_ok(), 90);
    m.ok().unwrap()
}
fn normalize(c: &PyAny, t: &str) -> String {
    let r = c.method("normalize", (&[s(t)], &[]));
    match r.as_ref().map(pyo3::as_str) {
        Ok(Ok(x)) => x.to_string(),
        _ => {
            check(false, 80);
            String::new()
        }
    }
}
fn put(n: &str, t: &str) -> String {
    let p = format!("{}/{}", root(), n);
    check(std::fs::write(&p, t).is_ok(), 91);
    p
}
fn home() {
    let r = root();
    std::env::remove_var("CHANOMARC");
    std::env::set_var("HOME", &r);
    check(std::env::set_current_dir(&r).is_ok(), 92);
}
/// a bad file is an OSError
fn os_error<T>(r: PyResult<T>, code: u32) {
    match r {
        Ok(_) => check(false, code),
        Err(e) => check(e.kind == "OSError" && !e.msg.is_empty(), code + 1),
    }
}
fn same(c: &PyAny, r: &Chanoma, l: &[char]) {
    let t = string(l);
    let w = r.normalize(&t);
    let g = normalize(c, &t);
    note(g.as_bytes());
    check(g == w, 10);
}
const CSV: &str = "x,y\nａ,b\nc,ａ\nc,d\nＡ,!\n";
const YAML: &str = "items:\n  \"!\": [b, d]\n  ａ: [\"~\", x]\n";
const TAB: &str = "x,y\nb,c\nx,ａ\nＡ,Ｂ\n!,！\n";

// the constructor: every way to pass every combination of arguments
fn new_chanoma(preset: bool, neologdn: bool, conf: u32, tab: bool, how: u32, l: &[char]) {
    home();
    let m = module();
    let rust = |t: &chanoma::Table| {
        let mut r = match conf {
            0 => Chanoma::new(),
            1 => Chanoma::from_config_file(put("c.csv", CSV)).ok().unwrap(),
            2 => Chanoma::from_config_file(put("c.yml", YAML)).ok().unwrap(),
            3 => {
                put(".chanomarc.yaml", YAML);
                Chanoma::load_rc().ok().unwrap()
            }
            // the file goes before the start-up configuration
            _ => {
                put("chanomarc.csv", "x,y\nb,X\n");
                Chanoma::from_config_file(put("c.csv", CSV)).ok().unwrap()
            }
        };
        if tab {
            r.add_table(t.clone());
        }
        if preset {
            r.use_preset();
        }
        if neologdn {
            r.use_neologdn();
        }
        r
    };
    let tp = put("t.csv", TAB);
    let mut tb = TableBuilder::new();
    check(tb.add_from_csv(&tp).is_ok(), 93);
    let r = rust(&tb.build().clone());
    let t = m.make("Table", (&[], &[("csv", s(&tp))]));
    check(t.is_ok(), 11);
    let t = t.ok().unwrap();
    let file = match conf {
        1 | 4 => s(&format!("{}/c.csv", root())),
        2 => s(&format!("{}/c.yml", root())),
        _ => PyAny::None,
    };
    let rc = conf == 3 || conf == 4;
    let all: [(&str, PyAny, bool); 5] = [
        ("table", if tab { t } else { PyAny::None }, tab),
        ("neologdn", b(neologdn), neologdn),
        ("preset", b(preset), preset),
        ("rc", b(rc), rc),
        ("configfile", file.clone(), !file.is_none()),
    ];
    let c = match how {
        // what is not wanted is left out
        0 => {
            let k: Vec<(&str, PyAny)> = all.iter().filter(|x| x.2).map(|x| (x.0, x.1.clone())).collect();
            m.make("Chanoma", (&[], &k))
        }
        1 => {
            let k: Vec<(&str, PyAny)> = all.iter().rev().map(|x| (x.0, x.1.clone())).collect();
            m.make("Chanoma", (&[], &k))
        }
        _ => {
            let p: Vec<PyAny> = all.iter().map(|x| x.1.clone()).collect();
            m.make("Chanoma", (&p, &[]))
        }
    };
    check(c.is_ok(), 12);
    same(&c.ok().unwrap(), &r, l);
}
// without the built-in steps
#[no_mangle]
pub extern "C" fn h_p24_a() {
    let conf = choice(90, 5);
    let tab = choice(91, 2) == 1;
    let how = choice(92, 3);
    let (x, y) = (ch(1), ch(2));
    shard();
    new_chanoma(false, false, conf, tab, how, &[x, 'ａ', y]);
}
// with them
#[no_mangle]
pub extern "C" fn h_p24_b() {
    let k = choice(93, 3);
    let conf = choice(90, 5);
    let tab = choice(91, 2) == 1;
    let how = choice(92, if tier() == 1 { 3 } else { 1 });
    let x = if tier() == 1 { ch(1) } else { ch_of(1, 2) };
    shard();
    let l: &[char] = if tier() == 1 { &['ａ', x, 'ー', 'ー'] } else { &[x, 'ー', 'ー'] };
    new_chanoma(k != 1, k != 0, conf, tab, how, l);
}
// files that do not load
#[no_mangle]
pub extern "C" fn h_p24_c() {
    let k = choice(90, 9);
    shard();
    home();
    let m = module();
    let bad = match k {
        0 => format!("{}/none.csv", root()),
        1 => root(),
        2 => put("x.txt", CSV),
        3 => put("x", CSV),
        4 => put("x.yaml", "items: [\n"),
        5 => put("x.yml", "items: 1\n"),
        6 => {
            check(std::fs::write(format!("{}/x.csv", root()), b"x,y\n\xff,a\n").is_ok(), 94);
            format!("{}/x.csv", root())
        }
        7 => put("x.yaml", "modifiers:\n  no_such: 1\n"),
        _ => String::new(),
    };
    os_error(m.make("Chanoma", (&[], &[("configfile", s(&bad))])), 20);
    // the start-up configuration
    std::env::set_var("CHANOMARC", &bad);
    os_error(m.make("Chanoma", (&[], &[("rc", b(true))])), 22);
    check(m.make("Chanoma", (&[], &[])).is_ok(), 24);
    check(m.make("Chanoma", (&[], &[("rc", b(false)), ("preset", b(false))])).is_ok(), 25);
    // tables
    if k != 2 && k != 3 && k != 7 {
        os_error(m.make("Table", (&[], &[("yaml", s(&bad))])), 26);
        if k != 4 && k != 5 {
            os_error(m.make("Table", (&[], &[("csv", s(&bad))])), 28);
        }
    }
    note(&[k as u8]);
}
// tables: preset, csv, yaml, and what is added
#[no_mangle]
pub extern "C" fn h_p24_d() {
    let k = choice(90, 4);
    let csv = choice(91, 2) == 1;
    let yaml = choice(92, 2) == 1;
    let preset = k == 3 && choice(93, 2) == 1;
    let how = choice(94, 2);
    let (x, f, t) = (ch(1), ch_of(2, 2), ascii(3));
    shard();
    home();
    let m = module();
    let (pc, py) = (put("t.csv", CSV), put("t.yaml", YAML));
    if k == 1 || k == 2 {
        // the items' texts are symbolic
        hash_mode(1, 1);
    }
    let mut tb = TableBuilder::new();
    if preset {
        tb.preset();
    }
    if csv {
        check(tb.add_from_csv(&pc).is_ok(), 93);
    }
    if yaml {
        check(tb.add_from_yaml(&py).is_ok(), 94);
    }
    let mut rt = tb.build().clone();
    let (pc, py) = (if csv { s(&pc) } else { PyAny::None }, if yaml { s(&py) } else { PyAny::None });
    let tab = if how == 0 {
        m.make("Table", (&[], &[("preset", b(preset)), ("csv", pc), ("yaml", py)]))
    } else {
        m.make("Table", (&[b(preset), pc, py], &[]))
    };
    check(tab.is_ok(), 30);
    let tab = tab.ok().unwrap();
    // a list of items
    let items: Vec<(String, String)> = match k {
        0 | 3 => vec![],
        1 => vec![(string(&[f]), string(&[t]))],
        _ => vec![("é".into(), string(&[t])), (string(&[f]), "é".into()), ("b".into(), "q".into())],
    };
    if k != 0 {
        let l: Vec<PyAny> = items
            .iter()
            .enumerate()
            .map(|(i, x)| {
                let a = if i == 0 {
                    m.make("Item", (&[s(&x.0), s(&x.1)], &[]))
                } else {
                    m.make("Item", (&[], &[("to", s(&x.1)), ("from", s(&x.0))]))
                };
                check(a.is_ok(), 31);
                a.ok().unwrap()
            })
            .collect();
        let n = l.len();
        let c = m.make("Correspondence", (&[PyAny::List(l)], &[]));
        check(c.is_ok(), 32);
        let c = c.ok().unwrap();
        match c.getattr("items") {
            Ok(PyAny::List(g)) => check(g.len() == n, 33),
            _ => check(false, 34),
        }
        check(tab.method("add", (&[c], &[])).is_ok(), 35);
        let l = items.iter().map(|x| Item::new(x.0.clone(), x.1.clone())).collect::<Vec<Item>>();
        rt.add(&Correspondence::new(Synthesized::new(l)));
    }
    let c = m.make("Chanoma", (&[tab], &[]));
    check(c.is_ok(), 36);
    let mut r = Chanoma::new();
    r.add_table(rt);
    same(&c.ok().unwrap(), &r, &[x, f]);
}
// items that keep, drop or repeat a character, added to a table at once or one by one
#[no_mangle]
pub extern "C" fn h_p24_g() {
    const F: [&str; 3] = ["a", "ａ", ""];
    const T: [&str; 4] = ["a", "ａ", "b", ""];
    let k = choice(90, if tier() == 1 { 3 } else { 2 });
    let once = choice(91, 2) == 1;
    let i = choice(92, 12) as usize;
    let j = choice(93, if tier() == 1 { 12 } else { 6 }) as usize;
    let x = if tier() == 1 { ch(1) } else { ch_of(1, 2) };
    shard();
    home();
    let m = module();
    let pc = put("t.csv", "x,y\na,c\na,a\n");
    let mut tb = TableBuilder::new();
    let tab = match k {
        0 => m.make("Table", (&[], &[])),
        1 => {
            check(tb.add_from_csv(&pc).is_ok(), 93);
            m.make("Table", (&[], &[("csv", s(&pc))]))
        }
        _ => {
            tb.preset();
            m.make("Table", (&[], &[("preset", b(true))]))
        }
    };
    check(tab.is_ok(), 30);
    let tab = tab.ok().unwrap();
    let mut rt = tb.build().clone();
    let items = [(F[i % 3], T[i / 3]), (F[j % 3], T[j / 3])];
    for g in if once { vec![&items[..]] } else { vec![&items[..1], &items[1..]] } {
        let l = g.iter().map(|i| m.make("Item", (&[s(i.0), s(i.1)], &[])).ok().unwrap()).collect();
        let c = m.make("Correspondence", (&[PyAny::List(l)], &[]));
        check(c.is_ok(), 32);
        check(tab.method("add", (&[c.ok().unwrap()], &[])).is_ok(), 35);
        rt.add(&Correspondence::new(Synthesized::new(g.iter().map(|i| Item::new(i.0, i.1)).collect())));
    }
    let c = m.make("Chanoma", (&[tab], &[]));
    check(c.is_ok(), 36);
    let mut r = Chanoma::new();
    r.add_table(rt);
    same(&c.ok().unwrap(), &r, &['a', 'ａ', x]);
}
// the character sets
#[no_mangle]
pub extern "C" fn h_p24_e() {
    use chanoma::characters_set as cs;
    let k = choice(90, 5) as usize;
    let x = ch(1);
    shard();
    home();
    let m = module();
    const N: [&str; 5] = ["Alphabets", "Digits", "Punctuations", "Kanas", "CjkCompatibilities"];
    let items: Vec<Item> = match k {
        0 => cs::alphabets::Alphabets::new().items(),
        1 => cs::digits::Digits::new().items(),
        2 => cs::punctuations::Punctuations::new().items(),
        3 => cs::kanas::Kanas::new().items(),
        _ => cs::cjk_compatibilities::CjkCompatibilities::new().items(),
    };
    let subs = m.subs.borrow();
    let sub = subs.iter().find(|x| x.name == "characters_set");
    check(sub.is_some(), 40);
    let set = sub.unwrap().make(N[k], (&[], &[]));
    check(set.is_ok(), 41);
    let set = set.ok().unwrap();
    match set.getattr("items") {
        Ok(PyAny::List(g)) => check(g.len() == items.len(), 42),
        _ => check(false, 43),
    }
    let tab = m.make("Table", (&[], &[])).ok().unwrap();
    check(tab.method("add", (&[set], &[])).is_ok(), 44);
    let c = m.make("Chanoma", (&[tab], &[])).ok().unwrap();
    let mut r = Chanoma::new();
    let mut t = chanoma::Table::new();
    t.add(&Correspondence::new(Synthesized::new(items)));
    r.add_table(t);
    same(&c, &r, &[x]);
}
