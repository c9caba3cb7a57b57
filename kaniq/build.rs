//! Copies the real queue (and the trait it uses) next to the contracts. Only the marker of inner
//! doc comments changes; the contracts become a child module, so that they see private state.
use std::{env, fs, path::Path};
fn main() {
    let src = "/repo/tket/src/optimiser/pqueue.rs";
    let opt = "/repo/tket/src/optimiser.rs";
    for f in [src, opt] {
        println!("cargo:rerun-if-changed={f}");
    }
    let here = env::var("CARGO_MANIFEST_DIR").unwrap();
    let out = env::var("OUT_DIR").unwrap();
    let q = fs::read_to_string(src).unwrap().replace("//!", "// ");
    let o = fs::read_to_string(opt).unwrap();
    let i = o.find("pub trait State<").expect("the State trait");
    let j = i + o[i..].find("\n}\n").expect("the State trait") + 3;
    let child = if env::var("CARGO_FEATURE_STUBS").is_ok() { format!("#[path = \"{here}/src/contracts.rs\"]\npub mod contracts;\n") } else { format!("#[path = \"{here}/src/history.rs\"]\npub mod history;\n") };
    let t = format!("use std::fmt::Debug;\n{}\npub mod pqueue {{\n{q}\n{child}}}\n", &o[i..j]);
    fs::write(Path::new(&out).join("pqueue.rs"), t).unwrap();
}
