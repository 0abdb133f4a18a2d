mod entries;
mod p_basic;
#[cfg(feature = "cli")]
mod p_cli;
mod p_csv;
mod p_long;
mod p_many;
mod p_sym;
mod p_neo;
mod p_pipe;
mod p_pos;
#[cfg(feature = "py")]
mod p_py;
mod p_rc;
mod p_sets;
mod p_table;
mod p_conf;
mod p_yaml;
mod spec;
mod sx;

#[cfg(not(feature = "native"))]
fn main() {
    for (_, f) in entries::ENTRIES {
        f();
    }
}

#[cfg(feature = "native")]
fn main() -> std::process::ExitCode {
    #[cfg(feature = "cli")]
    if let Ok(w) = std::env::var("SX_PROGRAM") {
        return p_cli::main(&w);
    }
    let a: Vec<String> = std::env::args().collect();
    sx::raw::load(&a[2]);
    for (n, f) in entries::ENTRIES {
        if *n == a[1] {
            std::panic::set_hook(Box::new(|i| {
                println!("PANIC {}", i);
                unsafe { sx::raw::end(6) }
            }));
            f();
            println!("DONE");
            unsafe { sx::raw::end(0) }
        }
    }
    println!("no entry {}", a[1]);
    std::process::exit(7);
}
