fn main() {
    // the system libz3 (libz3-dev)
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
