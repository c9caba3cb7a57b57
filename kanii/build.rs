//! Copies the real intervals next to the contracts. Only the marker of inner doc comments changes.
use std::{env, fs, path::Path};
fn main() {
    let src = "/repo/tket/src/subcircuit/interval.rs";
    println!("cargo:rerun-if-changed={src}");
    let out = env::var("OUT_DIR").unwrap();
    let q = fs::read_to_string(src).unwrap().replace("//!", "// ");
    let q = match q.find("#[cfg(test)]\nmod tests") {
        Some(i) => q[..i].to_string(),
        None => q,
    };
    fs::write(Path::new(&out).join("interval.rs"), q).unwrap();
}
