//! Programs before and after the clean-up and lowering passes (C12, C16).
use crate::pytket::{lines, ty};
use crate::util::*;
use hugr::algorithms::{ComposablePass, LinearizeArrayPass, ReplaceTypes};
use hugr::builder::{Dataflow, DataflowHugr, FunctionBuilder};
use hugr::hugr::hugrmut::HugrMut;
use hugr::types::{Signature, Type};
use hugr::{Hugr, HugrView};
use serde_json::{json, Value as J};
use tket::passes::{BorrowSquashPass, NormalizeGuppy};
use tket::Circuit;
use tket_qsystem::extension::qsystem::LowerTketToQSystemPass;
use tket_qsystem::replace_bools::ReplaceBoolPass;
use tket_qsystem::QSystemPass;

#[allow(deprecated)]
fn pass(name: &str, h: &mut Hugr) -> Result<J, String> {
    let (k, a) = name.split_once(' ').unwrap_or((name, ""));
    let on = |i: usize| a.as_bytes().get(i) == Some(&b'1');
    Ok(match k {
        "bools" => json!(ReplaceBoolPass.run(h).map(|_| 0).map_err(es)?),
        // drops are lowered and arrays linearised, nothing else
        "drops" => json!(QSystemPass::default().with_monormophize(false).with_lazify(false).with_force_order(false).run(h).map(|_| 0).map_err(es)?),
        "linearize" => json!(LinearizeArrayPass::default().run(h).map(|_| 0).map_err(es)?),
        "lower" => json!(LowerTketToQSystemPass.run(h).map(|_| 0).map_err(es)?),
        "qsystem" => json!(QSystemPass::default().with_monormophize(on(0)).with_lazify(on(1)).with_force_order(on(2)).with_constant_fold(on(3)).run(h).map(|_| 0).map_err(es)?),
        "borrow" => json!(BorrowSquashPass::default().run(h).map_err(es)?.len()),
        "guppy" => {
            let mut p = NormalizeGuppy::default();
            p.simplify_cfgs(on(0)).remove_tuple_untuple(on(1)).constant_folding(on(2)).remove_dead_funcs(on(3)).inline_dfgs(on(4)).squash_borrows(on(5));
            json!(p.run(h).map(|_| 0).map_err(es)?)
        }
        "untuple" => {
            use tket::rewrite::CircuitRewrite;
            let mut c = Circuit::new(std::mem::take(h));
            let mut n = 0;
            loop {
                let rw: Vec<CircuitRewrite> = tket::passes::find_tuple_unpack_rewrites(&c).collect();
                let Some(r) = rw.into_iter().next() else { break };
                r.apply(&mut c).map_err(|e| format!("apply: {e}"))?;
                n += 1;
                if n > 200 {
                    return Err("endless".into());
                }
            }
            *h = c.into_hugr();
            json!(n)
        }
        _ => return Err(format!("pass {name}")),
    })
}

/// Each line: {case, prog, passes: [name], module?: bool}
pub fn run(file: &str) {
    for l in lines(file) {
        case(l["case"].as_str().unwrap(), || {
            let mut h = crate::prog::build(&l["prog"]).map_err(|e| format!("build: {e}"))?;
            let before = dump(&h);
            let e = h.entrypoint();
            if l["module"].as_bool() == Some(true) {
                h.set_entrypoint(h.module_root());
            }
            let mut did = vec![];
            for p in l["passes"].as_array().unwrap() {
                if l["module"].as_bool() == Some(true) {
                    // dead functions are those that main does not reach
                    let to = if p.as_str().unwrap().starts_with("guppy") { e } else { h.module_root() };
                    h.set_entrypoint(to);
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| pass(p.as_str().unwrap(), &mut h)));
                match r {
                    Ok(Ok(d)) => did.push(d),
                    Ok(Err(e)) => return Ok(json!({"before": before, "refused": e})),
                    Err(p) => return Ok(json!({"before": before, "crash": p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()})),
                }
            }
            if l["module"].as_bool() == Some(true) && h.contains_node(e) {
                h.set_entrypoint(e);
            }
            let invalid = h.validate().err().map(|e| e.to_string());
            Ok(json!({"before": before, "after": dump(&h), "did": did, "invalid": invalid}))
        });
    }
}

/// Each line: {case, type, unpack: [types]}: a value of the type is taken apart and put together again.
pub fn containers(file: &str) {
    use tket::passes::unpack_container::{TypeUnpacker, UnpackContainerBuilder};
    for l in lines(file) {
        case(l["case"].as_str().unwrap(), || {
            let t = ty(l["type"].as_str().unwrap());
            let leaf: Type = ty(l["leaf"].as_str().unwrap());
            let mk = || UnpackContainerBuilder::new(TypeUnpacker::new(leaf.clone()));
            let mut u = mk();
            let num = u.type_analyzer().num_unpacked_wires(&t);
            let row = u.type_analyzer().unpack_type(&t);
            // there and back
            let mut b = FunctionBuilder::new("main", Signature::new_endo(t.clone())).map_err(es)?;
            let [w] = b.input_wires_arr();
            let ws = u.unpack_container(&mut b, &t, w).map_err(es)?;
            let n = ws.len();
            let r = u.repack_container(&mut b, &t, ws).map_err(es)?;
            let mut h = b.finish_hugr_with_outputs([r]).map_err(es)?;
            let mut lw = ReplaceTypes::default();
            u.into_function_map().register_operation_replacements(&mut h, &mut lw);
            lw.run(&mut h).map_err(es)?;
            let invalid = h.validate().err().map(|e| e.to_string());
            // the parts alone
            let u = mk();
            let row2 = row.clone().unwrap_or(vec![t.clone()]);
            let mut b = FunctionBuilder::new("main", Signature::new(t.clone(), row2)).map_err(es)?;
            let [w] = b.input_wires_arr();
            let ws = u.unpack_container(&mut b, &t, w).map_err(es)?;
            let mut p = b.finish_hugr_with_outputs(ws).map_err(es)?;
            let mut lw = ReplaceTypes::default();
            u.into_function_map().register_operation_replacements(&mut p, &mut lw);
            lw.run(&mut p).map_err(es)?;
            let invalid = invalid.or(p.validate().err().map(|e| e.to_string()));
            Ok(json!({"wires": n, "num": num, "row": row.map(|r| r.iter().map(|x| x.to_string()).collect::<Vec<_>>()), "after": dump(&h), "parts": dump(&p), "invalid": invalid}))
        });
    }
}
