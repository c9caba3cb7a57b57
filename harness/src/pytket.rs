//! pytket JSON circuits through the real decoder and encoder (C03, C04, C05, C15).
use crate::util::*;
use hugr::extension::prelude::{bool_t, qb_t, usize_t};
use hugr::std_extensions::arithmetic::float_types::float64_type;
use hugr::std_extensions::collections::array::array_type;
use hugr::types::{Signature, SumType, Type};
use tket::extension::bool::bool_type;
use tket::extension::rotation::rotation_type;
use hugr::HugrView;
use serde_json::{json, Value as J};
use std::io::BufRead;
use tket::serialize::pytket::{default_decoder_config, DecodeOptions, EncodeOptions, TKETDecode};
use tket::Circuit;
use tket_json_rs::circuit_json::SerialCircuit;

pub fn dec_opts(q: bool) -> DecodeOptions {
    if q {
        let mut reg = hugr::extension::ExtensionRegistry::new([]);
        for e in crate::prog::extensions() {
            let _ = reg.register(e);
        }
        DecodeOptions::new().with_config(tket_qsystem::pytket::qsystem_decoder_config()).with_extensions(reg)
    } else {
        DecodeOptions::new().with_config(default_decoder_config())
    }
}

pub fn enc_opts(q: bool) -> EncodeOptions {
    if q {
        EncodeOptions::new().with_config(tket_qsystem::pytket::qsystem_encoder_config())
    } else {
        EncodeOptions::new()
    }
}

pub fn describe(c: &Circuit) -> J {
    let h = c.hugr();
    json!({
        "hugr": dump(h),
        "valid": h.validate().err().map(|e| e.to_string()),
        "params": h.get_metadata(c.parent(), "TKET1.input_parameters").cloned(),
        "qregs": h.get_metadata(c.parent(), "TKET1.qubit_registers").cloned(),
        "bregs": h.get_metadata(c.parent(), "TKET1.bit_registers").cloned(),
        "phase": h.get_metadata(c.parent(), "TKET1.phase").cloned(),
    })
}

pub fn lines(file: &str) -> Vec<J> {
    std::io::BufReader::new(std::fs::File::open(file).unwrap()).lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect()
}

/// A type by its short name.
pub fn ty(n: &str) -> Type {
    if n.ends_with(')') {
        return nested(n);
    }
    match n {
        "q" => qb_t(),
        "b" => bool_t(),
        "tb" => bool_type(),
        "f" => float64_type(),
        "r" => rotation_type(),
        "u" => usize_t(),
        "i" => hugr::std_extensions::arithmetic::int_types::int_type(6),
        _ => match n.split_once(':') {
            Some(("tup", xs)) => SumType::new_tuple(xs.split(',').map(ty).collect::<Vec<_>>()).into(),
            // a sum with one value in each row
            Some(("sum", xs)) => SumType::new(xs.split('|').map(|r| vec![ty(r)]).collect::<Vec<_>>()).into(),
            Some(("arr", xs)) => {
                let (k, t) = xs.split_once(',').unwrap();
                array_type(k.parse().unwrap(), ty(t))
            }
            _ => panic!("type {n}"),
        },
    }
}

/// Splits at a separator outside of parentheses.
pub fn split(t: &str, sep: char) -> Vec<&str> {
    let (mut d, mut from, mut out) = (0, 0, vec![]);
    for (i, c) in t.char_indices() {
        match c {
            '(' => d += 1,
            ')' => d -= 1,
            c if c == sep && d == 0 => {
                out.push(&t[from..i]);
                from = i + 1;
            }
            _ => (),
        }
    }
    if from < t.len() || !out.is_empty() {
        out.push(&t[from..]);
    }
    out
}

/// tup(t,..), sum(t,..|..), opt(t), arr(n,t), barr(n,t), varr(n,t), sarr(t), fut(t), fn(t,..>t,..)
fn nested(n: &str) -> Type {
    use hugr::std_extensions::collections::{borrow_array::borrow_array_type, static_array::static_array_type, value_array::value_array_type};
    let i = n.find('(').unwrap();
    let (k, a) = (&n[..i], &n[i + 1..n.len() - 1]);
    let row = |a: &str| split(a, ',').into_iter().filter(|x| !x.is_empty()).map(ty).collect::<Vec<_>>();
    let sized = || {
        let (k, t) = a.split_once(',').unwrap();
        (k.parse::<u64>().unwrap(), ty(t))
    };
    match k {
        "tup" => SumType::new_tuple(row(a)).into(),
        "sum" => SumType::new(split(a, '|').into_iter().map(row).collect::<Vec<_>>()).into(),
        "opt" => SumType::new([vec![], row(a)]).into(),
        "arr" => array_type(sized().0, sized().1),
        "barr" => borrow_array_type(sized().0, sized().1),
        "varr" => value_array_type(sized().0, sized().1),
        "sarr" => static_array_type(ty(a)),
        "fut" => tket_qsystem::extension::futures::future_type(ty(a)),
        "fn" => {
            let s = split(a, '>');
            Type::new_function(Signature::new(row(s[0]), row(s.get(1).unwrap_or(&""))))
        }
        _ => panic!("type {n}"),
    }
}

fn tys(v: &J) -> Vec<Type> {
    v.as_array().unwrap().iter().map(|x| ty(x.as_str().unwrap())).collect()
}

/// Each line: {case, circuit, qsystem, signature?: {in, out}, input_params?}
pub fn decode(file: &str) {
    for l in lines(file) {
        case(l["case"].as_str().unwrap(), || {
            let ser: SerialCircuit = serde_json::from_value(l["circuit"].clone()).map_err(es)?;
            let q = l["qsystem"].as_bool().unwrap_or(false);
            let mut o = dec_opts(q);
            if let Some(s) = l.get("signature") {
                o = o.with_signature(Signature::new(tys(&s["in"]), tys(&s["out"])));
            }
            if let Some(s) = l.get("input_params") {
                o = o.with_input_params(s.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()));
            }
            match ser.decode(o) {
                Ok(c) => Ok(describe(&c)),
                Err(e) => Ok(json!({"rejected": e.to_string()})),
            }
        });
    }
}

/// Each line: {case, prog, qsystem, subcircuits?}: the program, its pytket circuit, the decoded circuit, and the program reassembled in place.
pub fn encode(file: &str) {
    use std::sync::Arc;
    use tket::serialize::pytket::EncodedCircuit;
    for l in lines(file) {
        case(l["case"].as_str().unwrap(), || {
            let h = crate::prog::build(&l["prog"]).map_err(|e| format!("build: {e}"))?;
            let c = Circuit::new(h);
            let q = l["qsystem"].as_bool().unwrap_or(false);
            let mut out = json!({"before": describe(&c)});
            let sig = c.circuit_signature().into_owned();
            let guard = |f: &mut dyn FnMut() -> Result<J, String>| -> J {
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                    Ok(Ok(v)) => v,
                    Ok(Err(e)) => json!({"rejected": e}),
                    Err(p) => json!({"panic": p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))}),
                }
            };
            let mut ser = None;
            out["circuit"] = guard(&mut || {
                let s = SerialCircuit::encode(&c, enc_opts(q)).map_err(es)?;
                let j = serde_json::to_value(&s).map_err(es)?;
                ser = Some(s);
                Ok(j)
            });
            // the names of the input parameters: those of the metadata, then f0, f1, ...
            if let Some(s) = &ser {
                out["decoded"] = guard(&mut || {
                    let known: Vec<String> = c.hugr().get_metadata(c.parent(), "TKET1.input_parameters").and_then(|x| serde_json::from_value(x.clone()).ok()).unwrap_or_default();
                    let n = sig.input().iter().filter(|t| **t == rotation_type() || **t == float64_type()).count();
                    let fresh: Vec<String> = (0..).map(|i| format!("f{i}")).filter(|x| !known.contains(x)).take(n).collect();
                    let names = known.into_iter().chain(fresh).take(n);
                    let d = s.decode(dec_opts(q).with_signature(sig.clone()).with_input_params(names)).map_err(es)?;
                    Ok(describe(&d))
                });
            }
            out["inplace"] = guard(&mut || {
                let sub = l["subcircuits"].as_bool().unwrap_or(false);
                let enc = EncodedCircuit::new(&c, enc_opts(q).with_subcircuits(sub)).map_err(es)?;
                let mut d = c.clone();
                let conf = if q { tket_qsystem::pytket::qsystem_decoder_config() } else { default_decoder_config() };
                enc.reassemble_inplace(d.hugr_mut(), Some(Arc::new(conf))).map_err(es)?;
                let mut v = describe(&d);
                v["circuit"] = serde_json::to_value(&enc[c.parent()]).map_err(es)?;
                Ok(v)
            });
            Ok(out)
        });
    }
}
