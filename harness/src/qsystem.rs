//! C01: lowering of tket ops to the Quantinuum native gate set.
use crate::util::*;
use hugr::algorithms::ComposablePass;
use hugr::builder::{BuildError, Dataflow, FunctionBuilder};
use hugr::extension::simple_op::MakeExtensionOp;
use hugr::ops::OpTrait;
use hugr::std_extensions::arithmetic::float_types::float64_type;
use hugr::extension::prelude::qb_t;
use hugr::types::Type;
use hugr::{Hugr, HugrView, Wire};
use serde_json::json;
use strum::IntoEnumIterator;
use tket::TketOp;
use tket_qsystem::extension::qsystem::{
    check_lowered, LowerTketToQSystemPass, QSystemOpBuilder,
};

pub fn ops() {
    for op in TketOp::iter() {
        case(&format!("op:{op:?}"), || {
            let ext = op.into_extension_op();
            let sig = ext.dataflow_signature().unwrap().into_owned();
            let h = func("main", sig.input.clone(), sig.output.clone(), |b, ws| {
                Ok(b.add_dataflow_op(op, ws)?.outputs().collect())
            })
            .map_err(es)?;
            let before = dump(&h);
            let mut l = h;
            let r = LowerTketToQSystemPass.run(&mut l);
            if let Err(e) = r {
                return Ok(json!({"before": before, "lower_error": es(e)}));
            }
            validate(&l)?;
            let unl = check_lowered(&l).is_err();
            Ok(json!({"before": before, "after": dump(&l), "unlowered": unl}))
        });
    }
}

type B<'a> = &'a mut FunctionBuilder<Hugr>;
fn b1(
    name: &str,
    nq: usize,
    na: usize,
    f: impl Fn(B, &[Wire]) -> Result<Vec<Wire>, BuildError>,
) {
    case(&format!("build:{name}"), || {
        let mut ins: Vec<Type> = vec![qb_t(); nq];
        ins.extend(vec![float64_type(); na]);
        let h = func("main", ins, vec![qb_t(); nq], |b, ws| f(b, &ws)).map_err(es)?;
        validate(&h)?;
        Ok(json!({"after": dump(&h)}))
    });
}

/// Every public gate builder of the native gate set.
pub fn builders() {
    b1("zz_max", 2, 0, |b, w| Ok(b.build_zz_max(w[0], w[1])?.into()));
    b1("h", 1, 0, |b, w| Ok(vec![b.build_h(w[0])?]));
    b1("x", 1, 0, |b, w| Ok(vec![b.build_x(w[0])?]));
    b1("y", 1, 0, |b, w| Ok(vec![b.build_y(w[0])?]));
    b1("z", 1, 0, |b, w| Ok(vec![b.build_z(w[0])?]));
    b1("s", 1, 0, |b, w| Ok(vec![b.build_s(w[0])?]));
    b1("sdg", 1, 0, |b, w| Ok(vec![b.build_sdg(w[0])?]));
    b1("v", 1, 0, |b, w| Ok(vec![b.build_v(w[0])?]));
    b1("vdg", 1, 0, |b, w| Ok(vec![b.build_vdg(w[0])?]));
    b1("t", 1, 0, |b, w| Ok(vec![b.build_t(w[0])?]));
    b1("tdg", 1, 0, |b, w| Ok(vec![b.build_tdg(w[0])?]));
    b1("cx", 2, 0, |b, w| Ok(b.build_cx(w[0], w[1])?.into()));
    b1("cy", 2, 0, |b, w| Ok(b.build_cy(w[0], w[1])?.into()));
    b1("cz", 2, 0, |b, w| Ok(b.build_cz(w[0], w[1])?.into()));
    b1("rx", 1, 1, |b, w| Ok(vec![b.build_rx(w[0], w[1])?]));
    b1("ry", 1, 1, |b, w| Ok(vec![b.build_ry(w[0], w[1])?]));
    b1("crz", 2, 1, |b, w| Ok(b.build_crz(w[0], w[1], w[2])?.into()));
    b1("toffoli", 3, 0, |b, w| {
        Ok(b.build_toffoli(w[0], w[1], w[2])?.into())
    });
}

pub fn run() {
    ops();
    builders();
}

pub fn programs(seed: u64, n: usize) {
    let mut rng = Rng(seed.wrapping_mul(0x1234567) ^ 0xC01);
    for i in 0..n {
        let cfg = crate::gen::Cfg {
            nq: 1 + rng.below(4),
            nops: 4 + rng.below(11),
            nrot: rng.below(3),
            measure: true,
            alloc: true,
            cond: true,
            nested: true,
            call: true,
            barrier: true,
            radd: true,
            ..crate::gen::Cfg::gates_only(2, 5)
        };
        case(&format!("program:{seed}:{i}"), || {
            let h = crate::gen::program(&mut rng, &cfg).map_err(es)?;
            let before = dump(&h);
            let mut l = h;
            if let Err(e) = LowerTketToQSystemPass.run(&mut l) {
                return Ok(json!({"before": before, "lower_error": es(e)}));
            }
            validate(&l)?;
            let unl = check_lowered(&l).is_err();
            Ok(json!({"before": before, "after": dump(&l), "unlowered": unl}))
        });
    }
}
