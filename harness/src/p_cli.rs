//! P23: the command line.  P26: the program that prints the preset.
use crate::sx::*;
use chanoma::Chanoma;

#[path = "../../target/gen/cli.rs"]
mod cli;
#[path = "../../target/gen/output.rs"]
mod output;

pub fn main(which: &str) -> std::process::ExitCode {
    if which == "output" {
        output::sx_main()
    } else {
        cli::sx_main()
    }
}
fn cli_main() {
    let _ = cli::sx_main();
}
static mut WANT: Vec<u8> = Vec::new();
#[allow(static_mut_refs)]
extern "C" fn compare() {
    let o = stdout();
    note(&o);
    check(o == unsafe { WANT.as_slice() }, 1);
}
fn home(rc: u32) {
    let r = root();
    std::env::remove_var("CHANOMARC");
    std::env::set_var("HOME", &r);
    check(std::env::set_current_dir(&r).is_ok(), 90);
    match rc {
        0 => {}
        1 => check(std::fs::write(format!("{}/.chanomarc.csv", r), "x,y\nａ,y\nb,Ａ\n").is_ok(), 91),
        2 => check(std::fs::write(format!("{}/chanomarc.yml", r), "modifiers:\n  trim:\n").is_ok(), 92),
        _ => {
            check(std::fs::write(format!("{}/rc.yaml", r), "items:\n  c: [Ｃ, \"-\"]\n").is_ok(), 93);
            std::env::set_var("CHANOMARC", "rc.yaml");
        }
    }
}
/// what the library gives
fn want(p: bool, n: bool, t: &str) -> Option<Vec<u8>> {
    let mut c = match Chanoma::load_rc() {
        Ok(c) => c,
        Err(_) => {
            check(false, 2);
            return None;
        }
    };
    if p {
        c.use_preset();
    }
    if n {
        c.use_neologdn();
    }
    let mut o = c.normalize(t).into_bytes();
    o.push(b'\n');
    Some(o)
}
fn expect(p: bool, n: bool, t: &str) {
    if let Some(o) = want(p, n, t) {
        unsafe { WANT = o };
    }
}
fn run(args: &[&[u8]], stdin: &[u8]) {
    program("cli", cli_main, args, stdin, compare);
}
const SWITCHES: [(&[&str], bool, bool); 8] = [
    (&[], false, false),
    (&["-p"], true, false),
    (&["-n"], false, true),
    (&["-p", "-n"], true, true),
    (&["-np"], true, true),
    (&["--preset"], true, false),
    (&["--neologdn"], false, true),
    (&["--neologdn", "--preset"], true, true),
];

fn text_arg(s: usize, k: u32, flag: Option<&[u8]>, t: &str) {
    expect(SWITCHES[s].1, SWITCHES[s].2, t);
    let mut args: Vec<&[u8]> = SWITCHES[s].0.iter().map(|x| x.as_bytes()).collect();
    if let Some(f) = flag {
        args.insert(args.len() / 2, f);
    }
    match k {
        0 => args.push(t.as_bytes()),
        1 => args.insert(0, t.as_bytes()),
        _ => {
            args.push(b"--");
            args.push(t.as_bytes());
        }
    }
    run(&args, b"no\n");
}
// every combination of switches
#[no_mangle]
pub extern "C" fn h_p23_a() {
    let s = choice(90, 8) as usize;
    let a = ch(1);
    shard();
    home(0);
    assume(a != '\0');
    text_arg(s, 0, None, &string(&['ﾊ', a, 'ー', 'ー']));
}
// any place of the text, any of the configurations
#[no_mangle]
pub extern "C" fn h_p23_b() {
    let k = choice(91, 3);
    let rc = choice(92, 4);
    let n = choice(93, 4);
    let s = if tier() == 1 || n == 1 && rc == 0 { choice(90, 2) as usize * 2 } else { 0 };
    let (a, b) = (ch(1), ascii(2));
    shard();
    home(rc);
    assume(a != '\0' && b != '\0');
    let l = match n {
        0 => vec![],
        1 => vec![a],
        2 => vec![b, 'ａ'],
        _ => vec![a, b],
    };
    // other texts are options
    if k != 2 && n > 0 {
        assume(!(l[0] == '-'));
    }
    text_arg(s, k, None, &string(&l));
}
// -d
#[no_mangle]
pub extern "C" fn h_p23_c() {
    let rc = choice(92, 4);
    let d = choice(91, 2);
    let s = choice(90, if tier() == 1 || rc == 0 { 3 } else { 1 }) as usize;
    let a = ch(1);
    shard();
    home(rc);
    assume(a != '\0');
    text_arg(s, 0, Some(if d == 0 { b"-d" } else { b"--debug" }), &string(&['ａ', a, 'c']));
}
// the text comes from standard input
#[no_mangle]
pub extern "C" fn h_p23_d() {
    let rc = choice(92, 2);
    let n = choice(91, 5);
    let e = choice(94, 4);
    let s = if tier() == 1 || n == 2 && e == 1 { choice(90, 2) as usize * 2 } else { 0 };
    let (a, b) = (ch(1), ascii(2));
    shard();
    home(rc);
    let l = match n {
        0 => vec![],
        1 => vec!['ａ'],
        2 => vec![a],
        3 => vec![' ', a, b],
        _ => vec![b, 'ー', 'ー', b, b],
    };
    let t = string(&l);
    let i = t.clone() + ["", "\n", "\n\n", "\nｂ\n"][e as usize];
    let line = i.split('\n').next().unwrap_or("").to_string();
    expect(SWITCHES[s].1, SWITCHES[s].2, &line);
    let args: Vec<&[u8]> = SWITCHES[s].0.iter().map(|x| x.as_bytes()).collect();
    run(&args, i.as_bytes());
}

// ---- P26 ----
fn output_main() {
    let _ = output::sx_main();
}
static mut FORMAT: u32 = 0;
static mut CHAR: char = '\0';
/// what was printed, loaded as a file of that type, is the preset
extern "C" fn load_back() {
    let o = stdout();
    let csv = unsafe { FORMAT } == 0;
    let f = format!("{}/o.{}", root(), if csv { "csv" } else { "yaml" });
    check(std::fs::write(&f, &o).is_ok(), 94);
    let p = Chanoma::preset();
    match Chanoma::from_config_file(&f) {
        Ok(c) => {
            let a = unsafe { CHAR };
            if csv {
                // the first row is taken for a header
                let first: &str = std::str::from_utf8(&o).unwrap().lines().next().unwrap_or("");
                let from = first.rsplit_once(',').map_or("", |x| x.0);
                known(from.contains(a) && a != ',', 1);
            }
            let t = string(&[a]);
            let got = c.normalize(&t);
            note(got.as_bytes());
            check(got == p.normalize(&t), 2);
        }
        Err(_) => check(false, 3),
    }
}
#[no_mangle]
pub extern "C" fn h_p26_a() {
    let k = choice(90, 6);
    let a = ch(1);
    shard();
    let args: Vec<&[u8]> = ["", "-f csv", "--format=csv", "-f yaml", "--format yaml", "-fyaml"][k as usize]
        .split_whitespace()
        .map(|x| x.as_bytes())
        .collect();
    unsafe {
        FORMAT = (k >= 3) as u32;
        CHAR = a;
    }
    program("output", output_main, &args, b"", load_back);
}
