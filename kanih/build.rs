//! Copies the real circuit hash next to the contracts, which become a child module of it (they call the
//! private `hash_node`). Only the marker of inner doc comments changes.
use std::{env, fs, path::Path};
fn main() {
    let src = "/repo/tket/src/circuit/hash.rs";
    println!("cargo:rerun-if-changed={src}");
    println!("cargo:rerun-if-changed=src/contracts.rs");
    let out = env::var("OUT_DIR").unwrap();
    let q = fs::read_to_string(src).unwrap().replace("//!", "// ");
    let q = match q.find("#[cfg(test)]\nmod test") {
        Some(i) => q[..i].to_string(),
        None => q,
    };
    fs::write(Path::new(&out).join("hash.rs"), q).unwrap();
}
