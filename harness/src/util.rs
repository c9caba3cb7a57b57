//! Shared helpers: run a case of the real code, dump HUGRs as text envelopes.
use hugr::builder::{BuildError, Dataflow, DataflowHugr, FunctionBuilder};
use hugr::envelope::EnvelopeConfig;
use hugr::types::{Signature, TypeRow};
use hugr::{Hugr, HugrView, Wire};
use serde_json::{json, Value as J};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Serialise a HUGR (whole module) with the official JSON envelope and add the entrypoint.
pub fn dump(h: &Hugr) -> J {
    let s = h.store_str(EnvelopeConfig::text()).expect("store");
    let start = s.find('{').expect("json");
    let mut v: J = serde_json::from_str(&s[start..]).expect("json parse");
    v["modules"][0].take()
}

/// Build a function `main` with the given signature.
pub fn func(
    name: &str,
    ins: impl Into<TypeRow>,
    outs: impl Into<TypeRow>,
    body: impl FnOnce(&mut FunctionBuilder<Hugr>, Vec<Wire>) -> Result<Vec<Wire>, BuildError>,
) -> Result<Hugr, BuildError> {
    let mut b = FunctionBuilder::new(name, Signature::new(ins, outs))?;
    let ws: Vec<Wire> = b.input_wires().collect();
    let outs = body(&mut b, ws)?;
    b.finish_hugr_with_outputs(outs)
}

/// Run one case, catching panics; prints one JSON line.
pub fn case(id: &str, f: impl FnOnce() -> Result<J, String>) {
    let r = catch_unwind(AssertUnwindSafe(f));
    let mut v = match r {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => json!({"error": e}),
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            json!({"panic": m})
        }
    };
    v["case"] = json!(id);
    println!("{v}");
}

pub fn es<E: std::fmt::Display>(e: E) -> String {
    format!("{e}")
}

/// Deterministic RNG (splitmix64).
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn f64(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub fn validate(h: &Hugr) -> Result<(), String> {
    h.validate().map_err(|e| format!("invalid HUGR: {e}"))
}
