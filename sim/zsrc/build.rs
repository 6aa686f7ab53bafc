//! Prints one zoo of message types as Rust source.
use dgen::{emit, gen};
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=ZOO_SEED");
    println!("cargo:rerun-if-env-changed=ZOO_N");
    println!("cargo:rerun-if-env-changed=ZOO_CFG");
    let base: u64 = std::env::var("ZOO_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut n: usize = std::env::var("ZOO_N").ok().and_then(|s| s.parse().ok()).unwrap_or(120);
    // z<k>
    let k: u64 = std::env::var("CARGO_PKG_NAME").unwrap()[1..].parse().unwrap();
    let seed = base * 100 + k;
    // which language the types may use, and which of it the library is built for
    let mut cfg = gen::GenCfg { bits: true, alloc: true, std: true };
    if let Ok(c) = std::env::var("ZOO_CFG") {
        let has = |f: &str| c.split(' ').any(|x| x == f);
        let (bits, alloc) = match k {
            0 | 1 => (false, true),
            2 => (false, false),
            3 | 4 => (true, true),
            _ => (true, false),
        };
        cfg = gen::GenCfg { bits, alloc, std: false };
        if (bits && !has("bits")) || (alloc && !has("alloc") && !has("std") && !has("derr")) {
            n = 0;
        }
    }
    let z = gen::zoo(seed, n, cfg);
    let out = std::env::var("OUT_DIR").unwrap();
    let mut s = format!("pub const ZOO_SEED: u64 = {seed};\npub const ZOO_N: usize = {n};\npub const CFG: dgen::gen::GenCfg = dgen::gen::{cfg:?};\n");
    s.push_str(&emit::file(&z, "zoo"));
    std::fs::write(format!("{out}/zoo.rs"), s).unwrap();
}
