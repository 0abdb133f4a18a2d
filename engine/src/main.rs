//! sxe: symbolic execution of Rust code from LLVM IR with an SMT solver.
#![allow(static_mut_refs)]
mod env;
mod exec;
mod expr;
mod ll;
mod state;
mod z3;

use exec::*;
use state::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::rc::Rc;
use std::time::Instant;

fn hex(b: &[u8]) -> String {
    b.iter().map(|c| format!("{:02x}", c)).collect()
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}
fn vars_json(v: &[(u32, u128)]) -> String {
    let l: Vec<String> = v.iter().map(|(i, x)| format!("[{},{}]", i, x)).collect();
    format!("[{}]", l.join(","))
}
fn ch_json(v: &[(u32, u32)]) -> String {
    let l: Vec<String> = v.iter().map(|(i, x)| format!("[{},{}]", i, x)).collect();
    format!("[{}]", l.join(","))
}
fn viol_json(v: &Violation) -> String {
    let st: Vec<String> = v.stack.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    format!(
        "{{\"code\":{},\"kind\":\"{}\",\"msg\":\"{}\",\"stack\":[{}],\"vars\":{},\"choices\":{}}}",
        v.code,
        esc(&v.kind),
        esc(&v.msg),
        st.join(","),
        vars_json(&v.vars),
        ch_json(&v.choices)
    )
}

fn run(args: BTreeMap<String, String>) -> i32 {
    let get = |k: &str, d: &str| args.get(k).cloned().unwrap_or(d.to_string());
    let t0 = Instant::now();
    let mut m = ll::Module::load(&get("ll", ""));
    for f in m.fns.iter_mut() {
        f.kind = env::classify(&f.name, f.body.is_some());
    }
    let glob = m.init_globals();
    let entry = get("entry", "");
    let f = match m.fn_id.get(&entry) {
        Some(f) => *f,
        None => fatal(&format!("no function {}", entry)),
    };
    let mut st = State {
        pc: Pc::new(),
        model: Rc::new(vec![]),
        heap: Tbl::default(),
        glob,
        stack: vec![],
        next_heap: 1,
        env: Rc::new(Env::new()),
        steps: 0,
        forks: 0,
    };
    let errno = st.alloc(8, 8);
    if args.contains_key("vars") {
        for kv in get("vars", "").split(';') {
            if let Some((k, v)) = kv.split_once('=') {
                let b = v.bytes().map(|c| expr::mk_const(8, c as u128)).collect();
                st.env_mut().vars.insert(k.into(), Rc::new(b));
            }
        }
    }
    let load_s = t0.elapsed().as_secs_f64();
    let mut x = Exec {
        m,
        sv: z3::Solver::new(get("solver-ms", "60000").parse().unwrap()),
        cfg: Cfg {
            max_steps: get("max-steps", "2000000000").parse().unwrap(),
            time_limit: get("time", "600").parse().unwrap(),
            claim_dir: args.get("claim").cloned(),
            max_viol: get("max-viol", "4").parse().unwrap(),
            samples: get("samples", "12").parse().unwrap(),
            merge: {
                exec::MIX.store(get("merge", "1") == "2", std::sync::atomic::Ordering::Relaxed);
                get("merge", "1") != "0"
            },
            tier: get("tier", "0").parse().unwrap(),
            seed: get("seed", "1").parse().unwrap(),
        },
        t0,
        cs: vec![],
        seen: Default::default(),
        viol: vec![],
        known: Default::default(),
        samples: vec![],
        n_insts: 0,
        n_paths: 0,
        n_forks: 0,
        n_merges: 0,
        n_assumed: 0,
        cover: Default::default(),
        n_cover: 0,
        n_checks: Default::default(),
        n_proved: 0,
        n_const: 0,
        max_depth: 0,
        foreign: Default::default(),
        claimed: Default::default(),
        stop: false,
        timed_out: false,
        n_undecided: 0,
        trace: false,
        errno,
        prof: if args.contains_key("prof") { Some(Default::default()) } else { None },
    };
    let outs = x.run_fn(st, f, vec![]);
    match outs {
        Outs::None => {}
        Outs::One(s, _) => x.path_done(&s),
        Outs::Many(l) => {
            for (s, _) in l {
                x.path_done(&s)
            }
        }
    }
    let full = !x.stop && x.viol.is_empty() && x.n_undecided == 0 && !x.sv.gave_up;
    if full {
        x.check_cover();
    }
    if x.sv.gave_up {
        x.n_undecided += 1;
    }
    if let Some(p) = &x.prof {
        let mut l: Vec<_> = p.iter().collect();
        l.sort_by_key(|(_, v)| std::cmp::Reverse(v.1));
        for (f, (c, n)) in l.iter().take(60) {
            eprintln!("{:>12} {:>8} {}", n, c, short(&x.m.fns[**f].name));
        }
    }
    let fns: Vec<String> = x.seen.iter().map(|f| x.m.fns[*f].name.clone()).collect();
    let own: Vec<String> = fns.iter().filter(|n| n.contains("_7chanoma")).map(|n| format!("\"{}\"", esc(&short(n)))).collect();
    let s = &x.sv.st;
    let mut o = String::new();
    let checks: Vec<String> = x.n_checks.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    let samples: Vec<String> = x
        .samples
        .iter()
        .map(|s| {
            let n: Vec<String> = s.notes.iter().map(|n| format!("\"{}\"", hex(n))).collect();
            format!("{{\"vars\":{},\"choices\":{},\"notes\":[{}]}}", vars_json(&s.vars), ch_json(&s.choices), n.join(","))
        })
        .collect();
    let viol: Vec<String> = x.viol.iter().map(viol_json).collect();
    let known: Vec<String> = x.known.values().map(viol_json).collect();
    let _ = write!(
        o,
        "{{\"entry\":\"{}\",\"complete\":{},\"timed_out\":{},\"undecided\":{},\"paths\":{},\"forks\":{},\"merges\":{},\"assumed_out\":{},\"insts\":{},\"functions\":{},\"own_functions\":[{}],\"checks\":{{{}}},\"checks_proved\":{},\"checks_constant\":{},\"z3_queries\":{},\"z3_sat\":{},\"z3_unsat\":{},\"z3_ms\":{:.1},\"covered_units\":{},\"domain_sat\":{},\"domain_unsat\":{},\"cache_hits\":{},\"model_hits\":{},\"folded\":{},\"vars\":{},\"depth\":{},\"units\":{},\"load_s\":{:.2},\"wall_s\":{:.2},\"violations\":[{}],\"known\":[{}],\"samples\":[{}],\"z3\":\"{}\"}}",
        entry,
        !x.stop && x.n_undecided == 0,
        x.timed_out,
        x.n_undecided,
        x.n_paths,
        x.n_forks,
        x.n_merges,
        x.n_assumed,
        x.n_insts,
        fns.len(),
        own.join(","),
        checks.join(","),
        x.n_proved,
        x.n_const,
        s.z3_queries,
        s.z3_sat,
        s.z3_unsat,
        s.z3_ms,
        x.n_cover,
        s.dom_sat,
        s.dom_unsat,
        s.cache_hits,
        s.guessed + s.pooled + s.local,
        s.folded,
        expr::ar().vars.len(),
        x.max_depth,
        x.claimed.len(),
        load_s,
        t0.elapsed().as_secs_f64(),
        viol.join(","),
        known.join(","),
        samples.join(","),
        z3::version()
    );
    match args.get("out") {
        Some(p) => std::fs::write(p, &o).unwrap(),
        None => println!("{}", o),
    }
    0
}

fn main() {
    let mut args = BTreeMap::new();
    let av: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i < av.len() {
        let k = av[i].trim_start_matches("--").to_string();
        if i + 1 < av.len() {
            args.insert(k, av[i + 1].clone());
        }
        i += 2;
    }
    let h = std::thread::Builder::new()
        .stack_size(6 << 30)
        .spawn(move || {
            let r = run(args);
            // skip destructors of huge structures
            std::process::exit(r);
        })
        .unwrap();
    if h.join().is_err() {
        eprintln!("SXE-ERROR: internal panic");
        std::process::exit(3);
    }
}
