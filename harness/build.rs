//! Compiles the C side of the checks of the C interface, against the repository's own header.
use std::process::Command;

fn run(c: &mut Command) {
    let s = c.status().unwrap_or_else(|e| panic!("{:?}: {}", c, e));
    assert!(s.success(), "{:?} failed", c);
}

fn main() {
    println!("cargo:rerun-if-changed=src/shim.c");
    println!("cargo:rerun-if-changed=/repo/platforms/c/libsnips_nlu.h");
    println!("cargo:rerun-if-changed=build.rs");
    let out = std::env::var("OUT_DIR").unwrap();
    let flags = std::env::var("CARGO_ENCODED_RUSTFLAGS").unwrap_or_default();
    let mut c = Command::new("clang");
    c.args(&["-std=gnu11", "-g", "-O1", "-w", "-fPIC", "-fno-omit-frame-pointer", "-I/repo/platforms/c"]);
    if flags.contains("sanitizer=address") {
        c.arg("-fsanitize=address");
    }
    run(c.args(&["-c", "src/shim.c", "-o"]).arg(format!("{}/shim.o", out)));
    let _ = std::fs::remove_file(format!("{}/libshim.a", out));
    run(Command::new("ar").arg("crs").arg(format!("{}/libshim.a", out)).arg(format!("{}/shim.o", out)));
    println!("cargo:rustc-link-search=native={}", out);
    println!("cargo:rustc-link-lib=static=shim");
}
