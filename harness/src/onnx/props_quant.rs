//! B05-B09, B13, B14: quantization, value ranges, scale selection, rewrites, layer parameters.
use super::canon::jv;
use super::common::*;
use super::exec::{self, numel, V};
use super::gen::{Cfg, Gen};
use super::ir::*;
use crate::report::{bad, Bad, Case, Family, Spec, R};
use crate::rng::Rng;
use crate::check;
use jstprove_onnx::graph::{LayerGraph, LayerNode, OpType};
use jstprove_onnx::layer_params::*;
use jstprove_onnx::parser::{AttrValue, TensorData};
use jstprove_onnx::quantizer::{self, QuantizedModel, ScaleConfig};
use jstprove_onnx::shape_inference::infer_all_shapes;
use serde_json::{json, Value};
use std::collections::HashMap;

/// input position -> power of the scale
fn plan(op: OpType) -> &'static [(usize, u32)] {
    match op {
        OpType::Conv | OpType::Gemm | OpType::BatchNormalization | OpType::LayerNormalization | OpType::ConvTranspose => &[(1, 1), (2, 2)],
        OpType::MatMul | OpType::GridSample => &[(1, 1)],
        OpType::Add | OpType::Sub | OpType::Mul | OpType::Equal | OpType::Greater | OpType::Less => &[(0, 1), (1, 1)],
        OpType::Max | OpType::Min => &[(0, 1), (1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (7, 1), (8, 1), (9, 1)],
        OpType::Clip => &[(1, 1), (2, 1)],
        OpType::Pad => &[(2, 1)],
        _ => &[],
    }
}

fn pick_scale(r: &mut Rng) -> ScaleConfig {
    let (b, e) = *r.pick(&[(2u64, 18u32), (2, 18), (2, 16), (2, 8), (2, 1), (2, 0), (10, 3), (3, 11), (10, 6), (7, 5), (2, 24), (2, 26)]);
    ScaleConfig::new(b, e)
}

fn as_f(t: &TensorData) -> Vec<f64> {
    if t.float_data.is_empty() {
        t.int_data.iter().map(|&v| v as f64).collect()
    } else {
        t.float_data.clone()
    }
}

/// mul/add of a folded normalization, from the unfolded layer
fn bn_fold(l: &LayerNode) -> Option<(Vec<f64>, Vec<f64>)> {
    let p: Vec<Vec<f64>> = (1..5).map(|k| l.weights.get(&l.inputs[k]).map(as_f)).collect::<Option<_>>()?;
    let eps = match l.attributes.get("epsilon") {
        Some(AttrValue::Float(f)) => f64::from(*f),
        _ => 1e-5,
    };
    let mul: Vec<f64> = (0..p[0].len()).map(|i| p[0][i] / (p[3][i] + eps).sqrt()).collect();
    let add = (0..p[0].len()).map(|i| p[1][i] - p[2][i] * mul[i]).collect();
    Some((mul, add))
}

fn check_scaled(what: &str, w: &TensorData, vals: &[f64], alpha: i64, k: u32, m: &M) -> R {
    let f = (alpha as f64).powi(k as i32);
    check!(w.float_data.is_empty(), "still-float", "{what}: '{}' still holds float data after quantization\n{}", w.name, m.summary());
    check!(w.int_data.len() == vals.len(), "length", "{what}: '{}' has {} integers for {} values\n{}", w.name, w.int_data.len(), vals.len(), m.summary());
    for (i, (&q, &v)) in w.int_data.iter().zip(vals).enumerate() {
        let t = v * f;
        let err = (q as f64 - t).abs();
        check!(
            err <= 0.5 + t.abs() * 2f64.powi(-48),
            "rounding",
            "{what}: element {i} of '{}' is {q}, but the value {v} times {alpha}^{k} is {t}\n{}",
            w.name,
            m.summary()
        );
    }
    Ok(())
}

/// Some(reason) when quantization has to fail
fn must_fail(g0: &LayerGraph, alpha: i64) -> Option<String> {
    for l in &g0.layers {
        let folded = l.op_type == OpType::BatchNormalization && l.inputs.len() >= 5;
        for &(pos, k) in plan(l.op_type) {
            let vals = if folded {
                match bn_fold(l) {
                    Some((mu, ad)) => if pos == 1 { mu } else { ad },
                    None => continue,
                }
            } else {
                match l.inputs.get(pos).and_then(|n| l.weights.get(n)) {
                    Some(w) if !w.float_data.is_empty() => w.float_data.clone(),
                    _ => continue,
                }
            };
            if vals.is_empty() {
                continue;
            }
            if alpha.checked_pow(k).is_none() {
                return Some(format!("{alpha}^{k} overflows"));
            }
            let f = (alpha as f64).powi(k as i32);
            // a margin: values next to the limit may go either way
            if vals.iter().any(|v| !(v * f).is_finite() || (v * f).abs() > 9.3e18) {
                return Some("a weight does not fit".into());
            }
        }
    }
    None
}

fn near_limit(g0: &LayerGraph, alpha: i64) -> bool {
    g0.layers.iter().any(|l| {
        l.weights.values().any(|w| w.float_data.iter().any(|v| [1, 2].iter().any(|&k| ((v.abs() * (alpha as f64).powi(k)) > 9.1e18) && ((v.abs() * (alpha as f64).powi(k)) < 9.3e18))))
            || (l.op_type == OpType::BatchNormalization
                && l.inputs.len() >= 5
                && bn_fold(l).is_some_and(|(a, b)| a.iter().map(|v| v.abs() * alpha as f64).chain(b.iter().map(|v| v.abs() * (alpha as f64).powi(2))).any(|v| v > 9.1e18 && v < 9.3e18)))
    })
}

/// models the quantizer documents it cannot handle
fn may_refuse(m: &M, g0: &LayerGraph) -> bool {
    let pows = m.nodes.iter().filter(|n| n.op == "Pow").count();
    let real = m.nodes.iter().filter(|n| n.op != "Constant").count();
    for l in &g0.layers {
        let wconst = |k: usize| l.inputs.get(k).is_some_and(|n| l.weights.contains_key(n));
        match l.op_type {
            OpType::Gemm | OpType::Conv | OpType::ConvTranspose if !wconst(1) => return true,
            OpType::BatchNormalization if (1..5).any(|k| !wconst(k)) => return true,
            OpType::Exp if real > 1 => return true,
            OpType::Pow => {
                let ok = l.inputs.get(1).and_then(|n| l.weights.get(n)).is_some_and(|w| {
                    let v = as_f(w);
                    v.len() == 1 && v[0] >= 0.0
                });
                if !ok || pows > 1 {
                    return true;
                }
            }
            _ => {}
        }
    }
    false
}

/// one tensor name used at positions of different scale (or twice in a layer)
fn shared_positions(g0: &LayerGraph) -> bool {
    g0.layers.iter().any(|l| {
        plan(l.op_type).iter().any(|&(p, _)| l.inputs.get(p).is_some_and(|n| !n.is_empty() && l.inputs.iter().filter(|x| *x == n).count() > 1))
    })
}

fn is_sqrt_pow(l: &LayerNode) -> bool {
    l.op_type == OpType::Pow
        && l.inputs.get(1).and_then(|n| l.weights.get(n)).is_some_and(|w| {
            let v = as_f(w);
            v.len() == 1 && (v[0] - 0.5).abs() < 1e-6
        })
}

fn compare_quantized(m: &M, g0: &LayerGraph, q: &QuantizedModel, cfg: &ScaleConfig) -> Result<(u64, u64), Bad> {
    let g1 = &q.graph;
    let al = cfg.alpha;
    check!(q.scale_config.alpha == al && q.scale_config.base == cfg.base && q.scale_config.exponent == cfg.exponent, "scale-config", "scale config not kept: {:?} vs {:?}", q.scale_config, cfg);
    check!(g0.layers.len() == g1.layers.len(), "layers", "{} layers became {}\n{}", g0.layers.len(), g1.layers.len(), m.summary());
    check!(g0.input_names == g1.input_names && g0.output_names == g1.output_names, "io", "model inputs/outputs changed\n{}", m.summary());
    check!(g0.topo_order == g1.topo_order, "topo", "execution order changed\n{}", m.summary());
    check!(jv(&g0.input_shapes) == jv(&g1.input_shapes), "input-shapes", "input shapes changed\n{}", m.summary());
    let (mut scaled, mut kept) = (0, 0);
    for (a, b) in g0.layers.iter().zip(&g1.layers) {
        let what = format!("layer {} ({:?})", a.name, a.op_type);
        check!(a.id == b.id && a.name == b.name && a.outputs == b.outputs, "identity", "{what}: id, name or outputs changed\n{}", m.summary());
        check!(a.needs_rescale == b.needs_rescale, "needs-rescale", "{what}: needs_rescale changed\n{}", m.summary());
        check!(jv(&a.attributes) == jv(&b.attributes), "attributes", "{what}: attributes changed\n{}", m.summary());
        check!(b.n_bits == q.n_bits_config.get(&b.name).copied(), "n-bits-map", "{what}: n_bits {:?} but the configuration says {:?}\n{}", b.n_bits, q.n_bits_config.get(&b.name), m.summary());
        if a.op_type == OpType::BatchNormalization && a.inputs.len() >= 5 {
            check!(b.op_type == a.op_type && b.inputs.len() == 3 && b.inputs[0] == a.inputs[0], "bn-form", "{what}: folded layer has inputs {:?}\n{}", b.inputs, m.summary());
            let (mul, add) = bn_fold(a).expect("constant parameters");
            for (k, vals) in [(1usize, &mul), (2, &add)] {
                let Some(w) = b.weights.get(&b.inputs[k]) else { return bad("bn-weight", format!("{what}: no tensor '{}'\n{}", b.inputs[k], m.summary())) };
                check!(w.dims == vec![vals.len() as i64], "bn-dims", "{what}: folded tensor has dims {:?}\n{}", w.dims, m.summary());
                // the fold itself is compared with some slack, it happens in floating point
                let f = (al as f64).powi(k as i32);
                check!(w.float_data.is_empty() && w.int_data.len() == vals.len(), "still-float", "{what}: '{}' not quantized\n{}", w.name, m.summary());
                for (q, v) in w.int_data.iter().zip(vals) {
                    let t = v * f;
                    check!((*q as f64 - t).abs() <= 0.5 + t.abs() * 1e-9 + f * 1e-12, "bn-value", "{what}: folded {} is {q}, expected {t} ({v} at scale {al}^{k})\n{}", if k == 1 { "scale" } else { "shift" }, m.summary());
                    scaled += 1;
                }
            }
            continue;
        }
        if is_sqrt_pow(a) && b.op_type == OpType::Sqrt {
            check!(b.inputs.first() == a.inputs.first() && b.inputs.len() == 1, "sqrt-form", "{what}: became Sqrt with inputs {:?}\n{}", b.inputs, m.summary());
            continue;
        }
        check!(a.op_type == b.op_type, "op", "{what}: became {:?}\n{}", b.op_type, m.summary());
        check!(a.inputs == b.inputs, "inputs", "{what}: inputs {:?} became {:?}\n{}", a.inputs, b.inputs, m.summary());
        let mut ka: Vec<&String> = a.weights.keys().collect();
        let mut kb: Vec<&String> = b.weights.keys().collect();
        ka.sort();
        kb.sort();
        check!(ka == kb, "weights", "{what}: weights {ka:?} became {kb:?}\n{}", m.summary());
        for (name, wa) in &a.weights {
            let wb = &b.weights[name];
            check!(wa.name == wb.name && wa.dims == wb.dims && wa.data_type == wb.data_type, "weight-meta", "{what}: metadata of '{name}' changed\n{}", m.summary());
            let at = plan(a.op_type).iter().find(|(p, _)| a.inputs.get(*p) == Some(name));
            match at {
                Some(&(_, k)) if !wa.float_data.is_empty() => {
                    check_scaled(&what, wb, &wa.float_data, al, k, m)?;
                    scaled += wa.float_data.len() as u64;
                }
                _ => {
                    check!(jv(wa) == jv(wb), "unscaled-changed", "{what}: '{name}' is not a scaled operand but changed: {:?}/{:?} -> {:?}/{:?}\n{}", wa.float_data, wa.int_data, wb.float_data, wb.int_data, m.summary());
                    kept += 1;
                }
            }
        }
    }
    Ok((scaled, kept))
}

const B05_OPS: &[&str] = &[
    "Conv", "Gemm", "BatchNormalization", "LayerNormalization", "ConvTranspose", "MatMul", "GridSample", "Conv", "Gemm", "BatchNormalization",
    "MatMul", "Add", "Mul", "Sub", "Div", "Relu", "MaxPool", "Max", "Clip", "Reshape", "Flatten", "Transpose", "Concat", "Pow", "Softmax", "Tanh",
    "Squeeze", "Unsqueeze", "Gather", "Slice", "Pad", "Split", "Where", "Greater", "ReduceSum", "ReduceMean", "AveragePool", "GlobalAveragePool",
    "InstanceNormalization", "GroupNormalization", "Sqrt", "Exp", "Sigmoid", "LeakyRelu", "Expand", "Tile", "TopK", "Resize", "ScatterND",
    "GatherElements", "ConstantOfShape", "Identity", "Neg", "HardSwish", "Gelu", "Erf", "Sin", "Cos", "ReduceMax", "Min", "Cast", "Constant", "Log",
];

fn b05_model(r: &mut Rng, n: usize) -> Gen {
    let amp = *r.pick(&[2.0, 2.0, 0.001, 1e3, 1e6]);
    let mut g = Gen::new(Rng::new(r.u64()), Cfg { ops: B05_OPS.to_vec(), fold: r.chance(1, 4), amp, max_numel: 200, ..Cfg::default() });
    g.random_inputs();
    g.grow(n);
    g.finish();
    // full-precision weights
    for (_, t) in &mut g.m.inits {
        if t.dt == F32 && t.dims.len() > 1 && r.chance(1, 5) {
            t.dt = F64;
            for v in &mut t.f {
                *v += r.sf64() * 1e-9 * amp;
            }
        }
    }
    g
}

fn b05_random(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let n = r.us(1, 8);
    let g = b05_model(&mut r, n);
    let cfg = if r.chance(1, 6) { ScaleConfig::new(*r.pick(&[2, 3, 10]), *r.pick(&[15, 17, 18])) } else if r.chance(1, 10) { ScaleConfig::new(2, *r.pick(&[31, 32, 40, 62])) } else { pick_scale(&mut r) };
    let f = write_model(c, &g.m, &mut r);
    let (_, graph) = load(&f.path, &g.m)?;
    let g0 = graph.clone();
    if shared_positions(&g0) || near_limit(&g0, cfg.alpha) {
        c.ev("skipped_shared_or_limit");
        return Ok(());
    }
    let res = lib("quantize_model", || quantizer::quantize_model(graph.clone(), &cfg)).map_err(|b| Bad { sig: b.sig, why: format!("{}\n{}", b.why, g.m.summary()) })?;
    c.evals += 1;
    match (res, must_fail(&g0, cfg.alpha)) {
        (Ok(_), Some(why)) => return bad("silent-overflow", format!("quantization at scale {} succeeded although {why}\n{}", cfg.alpha, g.m.summary())),
        (Err(_), Some(_)) => c.ev("refused_overflow"),
        (Err(e), None) => {
            if !may_refuse(&g.m, &g0) {
                return bad("refused", format!("quantization at scale {} refused a supported model: {e}\n{}", cfg.alpha, g.m.summary()));
            }
            c.ev("refused_documented");
        }
        (Ok(mut q), None) => {
            let (s, k) = compare_quantized(&g.m, &g0, &q, &cfg)?;
            c.evn("scaled_values", s);
            c.evn("kept_tensors", k);
            for l in &g0.layers {
                if !plan(l.op_type).is_empty() {
                    c.ev(&format!("scaled_op_{:?}", l.op_type));
                }
            }
            // observed widths override exactly the named layers
            let mut over: HashMap<String, usize> = HashMap::new();
            for l in &q.graph.layers {
                if r.chance(1, 3) {
                    over.insert(l.name.clone(), r.us(1, 120));
                }
            }
            over.insert("no such layer".into(), 9);
            let before = q.clone();
            match crate::report::guarded(|| q.apply_observed_n_bits(&over)) {
                Ok(()) => {}
                Err(p) => return bad("apply-panic", format!("apply_observed_n_bits panicked: {p}")),
            }
            for (x, y) in before.graph.layers.iter().zip(&q.graph.layers) {
                let want = over.get(&x.name).copied().or(x.n_bits);
                check!(y.n_bits == want, "observed-n-bits", "layer {}: n_bits {:?} after override {:?} of {:?}\n{}", x.name, y.n_bits, over.get(&x.name), x.n_bits, g.m.summary());
                let wantc = over.get(&x.name).copied().or(before.n_bits_config.get(&x.name).copied());
                check!(q.n_bits_config.get(&x.name).copied() == wantc, "observed-config", "n_bits_config[{}] is {:?}, wanted {wantc:?}\n{}", x.name, q.n_bits_config.get(&x.name), g.m.summary());
                let mut z = y.clone();
                z.n_bits = x.n_bits;
                check!(jv(&z) == jv(x), "observed-side-effect", "apply_observed_n_bits changed more than widths of layer {}\n{}", x.name, g.m.summary());
            }
            c.evn("overrides", over.len() as u64);
        }
    }
    c.seen_str(&format!("{}|{}", opkey(&g), cfg.alpha));
    c.sample = Some(json!({"ops": g.ops_used, "alpha": cfg.alpha}));
    Ok(())
}

/// one scaled weight that cannot be represented: an error, never a made-up integer
fn b05_unfit(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let op = *r.pick(&["Conv", "Gemm", "BatchNormalization", "LayerNormalization", "ConvTranspose", "MatMul", "GridSample"]);
    let mut g = Gen::new(Rng::new(r.u64()), Cfg { fold: false, max_numel: 100, min_rank: if op == "Gemm" { 2 } else { 4 }, max_rank: if op == "Gemm" { 2 } else { 4 }, ..Cfg::default() });
    g.random_inputs();
    if !g.step(op) {
        c.ev("no_model");
        return Ok(());
    }
    g.finish();
    let Some(nd) = g.m.nodes.iter().find(|n| n.op == op).cloned() else { return Ok(()) };
    let cfg = ScaleConfig::new(2, *r.pick(&[8, 18, 20, 30]));
    let k = if nd.inputs.len() > 2 && r.bool() && op != "GridSample" && op != "MatMul" { 2 } else { 1 };
    let name = &nd.inputs[k];
    let f = (cfg.alpha as f64).powi(k as i32);
    let badv = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.2e19 / f, -1.2e19 / f, 1e25, -3.4e38, 1.8e19 / f]);
    let mut hit = false;
    let mut set = |t: &mut T| {
        if t.is_float() && !t.f.is_empty() {
            let i = r.below(t.f.len());
            t.dt = F64;
            t.f[i] = badv;
            hit = true;
        }
    };
    for (n, t) in &mut g.m.inits {
        if n == name {
            set(t);
        }
    }
    for n in &mut g.m.nodes {
        if n.op == "Constant" && n.outputs[0] == *name {
            if let Some((_, A::T(t))) = n.attrs.iter_mut().find(|(k, _)| k == "value") {
                set(t);
            }
        }
    }
    if !hit {
        c.ev("no_model");
        return Ok(());
    }
    let f = write_model(c, &g.m, &mut r);
    let (_, graph) = load(&f.path, &g.m)?;
    c.evals += 1;
    if op == "BatchNormalization" && badv.is_finite() && must_fail(&graph, cfg.alpha).is_none() {
        c.ev("no_model");
        return Ok(());
    }
    let g0 = graph.clone();
    match lib("quantize_model", || quantizer::quantize_model(graph, &cfg))? {
        Ok(q) => {
            let l = q.graph.layers.iter().find(|l| l.outputs == nd.outputs);
            return bad("unfit-accepted", format!("{op}: value {badv} of '{name}' cannot be represented at scale {}^{k} but quantization succeeded with {:?}\n{}", cfg.alpha, l.map(|l| l.weights.values().map(|w| w.int_data.clone()).collect::<Vec<_>>()), g.m.summary()));
        }
        Err(_) => {
            c.ev(&format!("unfit_refused_{op}"));
        }
    }
    drop(g0);
    c.seen_str(&format!("{op}{k}{badv}{}", cfg.alpha));
    Ok(())
}

pub fn spec_b05() -> Spec {
    Spec {
        id: "B05",
        level: "exploration",
        rule: "random models over every operator are quantized at random scales; every weight at a scaled operand position is compared element by element with value*scale^k (k = 1 for weights, 2 for biases) to within half a unit, everything else in the graph must be unchanged, weights that cannot be represented must be refused, supported models must not be refused, and overriding observed widths must change exactly the named layers; distinct = (operators, scale)",
        assumptions: &["the operand positions listed in plan() are the documented scaling contract", "one tensor used at two differently scaled positions of the same layer is outside"],
        require: &[("scaled_values", 20_000), ("kept_tensors", 1000), ("overrides", 1000), ("refused_overflow", 20), ("scaled_op_Conv", 100), ("scaled_op_Gemm", 100), ("scaled_op_BatchNormalization", 100), ("scaled_op_MatMul", 100), ("scaled_op_ConvTranspose", 100), ("scaled_op_LayerNormalization", 100), ("scaled_op_GridSample", 50), ("unfit_refused_Conv", 20), ("unfit_refused_Gemm", 20), ("unfit_refused_BatchNormalization", 20), ("unfit_refused_MatMul", 20)],
        families: vec![
            Family { name: "random", quick: 40_000, thorough: 1_200_000, f: b05_random },
            Family { name: "unfit", quick: 9000, thorough: 100_000, f: b05_unfit },
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// B06: activation widths

fn needs_width(op: &str) -> bool {
    matches!(
        op,
        "Gemm" | "Conv" | "BatchNormalization" | "Mul" | "MatMul" | "ConvTranspose" | "Relu" | "LeakyRelu" | "MaxPool" | "Max" | "Min" | "Clip" | "Exp" | "Softmax" | "Sigmoid" | "Gelu" | "Resize" | "GridSample" | "TopK" | "AveragePool" | "Sqrt" | "Tanh" | "Erf" | "Pow" | "HardSwish" | "GlobalAveragePool" | "Sin" | "Cos"
    )
}

const B06_OPS: &[&str] = &[
    "Conv", "Gemm", "BatchNormalization", "ConvTranspose", "MatMul", "Mul", "Add", "Sub", "Div", "Relu", "MaxPool", "Max", "Min", "Clip", "Reshape",
    "Flatten", "Transpose", "Concat", "Pow", "Softmax", "Tanh", "Squeeze", "Unsqueeze", "Gather", "Slice", "Pad", "Split", "Where", "Greater",
    "ReduceSum", "ReduceMean", "AveragePool", "GlobalAveragePool", "InstanceNormalization", "GroupNormalization", "LayerNormalization", "Sqrt",
    "Exp", "Sigmoid", "LeakyRelu", "Expand", "Tile", "TopK", "Resize", "ScatterND", "GatherElements", "Identity", "Neg", "HardSwish", "Gelu", "Erf",
    "Sin", "Cos", "ReduceMax", "GridSample", "Constant", "ConstantOfShape", "Range", "Cast", "Conv", "Gemm", "MatMul", "Mul", "Add", "ReduceSum", "BatchNormalization",
];

struct Info<'a> {
    m: &'a M,
    env: &'a HashMap<String, V>,
    by_out: HashMap<&'a str, &'a N>,
    inits: HashMap<&'a str, &'a T>,
}

impl<'a> Info<'a> {
    fn new(m: &'a M, env: &'a HashMap<String, V>) -> Self {
        let mut by_out = HashMap::new();
        for n in &m.nodes {
            for o in &n.outputs {
                by_out.insert(o.as_str(), n);
            }
        }
        Info { m, env, by_out, inits: m.inits.iter().map(|(k, t)| (k.as_str(), t)).collect() }
    }
    fn is_const(&self, n: &str) -> bool {
        self.inits.contains_key(n) || self.by_out.get(n).is_some_and(|x| x.op == "Constant")
    }
    /// the element count of this tensor is known to the quantizer without guessing
    fn reliable(&self, n: &str) -> bool {
        if self.is_const(n) {
            return true;
        }
        let Some(nd) = self.by_out.get(n) else {
            let s = &self.env[n].shape;
            // a rank-2 input loses its batch dimension and is traced as rank 1 (known finding)
            return s.len() == 1 || (s.len() >= 3 && s[0] == 1);
        };
        let all = || nd.inputs.iter().filter(|i| !i.is_empty()).all(|i| self.reliable(i));
        let first = || self.reliable(&nd.inputs[0]);
        let params = |from: usize| nd.inputs.iter().skip(from).all(|i| i.is_empty() || self.is_const(i));
        match nd.op.as_str() {
            "Relu" | "LeakyRelu" | "Sigmoid" | "Tanh" | "Erf" | "Gelu" | "HardSwish" | "Exp" | "Sqrt" | "Sin" | "Cos" | "Neg" | "Identity" | "Softmax" | "Clip" | "BatchNormalization" | "InstanceNormalization" | "GroupNormalization" | "LayerNormalization" => first(),
            "Add" | "Sub" | "Mul" | "Div" | "Max" | "Min" | "Pow" | "Greater" | "Less" | "Equal" | "And" => all(),
            "ScatterND" => first(),
            "GatherElements" => self.reliable(&nd.inputs[1]),
            "GridSample" => all(),
            "Resize" => first() && params(1),
            "Reshape" => {
                if !params(1) {
                    return false;
                }
                self.env[&nd.inputs[1]].i.iter().all(|&d| d > 0) || first()
            }
            "Flatten" | "Transpose" | "GlobalAveragePool" => first(),
            "Squeeze" | "Unsqueeze" | "Slice" | "Tile" | "Expand" | "TopK" | "Split" | "Gather" => first() && params(1),
            "Pad" => nd.inputs.len() > 1 && first() && params(1),
            "Conv" | "ConvTranspose" => first() && params(1),
            "MaxPool" | "AveragePool" => first() && nd.attr("dilations").is_none(),
            "Concat" | "Where" => all(),
            "Gemm" | "MatMul" => all() && nd.inputs.iter().take(2).all(|i| self.env[i].shape.len() >= 2),
            "ReduceSum" | "ReduceMean" | "ReduceMax" => first() && params(1),
            _ => false,
        }
    }
    /// a rank-2 input with only its element count in use
    fn plain2(&self, n: &str) -> bool {
        match self.by_out.get(n) {
            _ if self.is_const(n) => self.env[n].shape.len() <= 1,
            None => self.env[n].shape.len() == 2 && self.env[n].shape[0] == 1,
            Some(nd) => matches!(nd.op.as_str(), "Relu" | "LeakyRelu" | "Sigmoid" | "Tanh" | "Erf" | "Gelu" | "HardSwish" | "Exp" | "Sqrt" | "Sin" | "Cos" | "Neg" | "Identity" | "Add" | "Sub" | "Mul" | "Max" | "Min") && nd.inputs.iter().all(|i| self.plain2(i)),
        }
    }
    /// operators whose range is a documented approximation
    fn bounded(&self) -> bool {
        self.m.nodes.iter().all(|n| match n.op.as_str() {
            "Div" => {
                let d = &n.inputs[1];
                self.is_const(d) && self.env[d].floats().iter().all(|v| v.abs() > 1e-6)
            }
            "Gemm" => self.is_const(&n.inputs[1]) && n.inputs.get(2).is_none_or(|b| b.is_empty() || self.is_const(b)),
            "ReduceSum" => self.reliable(&n.inputs[0]) || self.plain2(&n.inputs[0]),
            "MatMul" => n.inputs.iter().any(|i| self.is_const(i)) || n.inputs.iter().all(|i| self.reliable(i)),
            _ => true,
        })
    }
}

struct Watch {
    tensor: String,
    outputs: Vec<String>,
    best: std::cell::Cell<f64>,
    layer: String,
    op: String,
    role: &'static str,
    limit: f64,
    n_bits: usize,
}

fn real_inputs(m: &M, env: &HashMap<String, V>) -> Vec<(String, Vec<usize>)> {
    let inits: std::collections::HashSet<&str> = m.inits.iter().map(|x| x.0.as_str()).collect();
    m.inputs.iter().filter(|i| !inits.contains(i.name.as_str())).map(|i| (i.name.clone(), env[&i.name].shape.clone())).collect()
}

fn fill(r: &mut Rng, ins: &[(String, Vec<usize>)], mode: usize) -> HashMap<String, V> {
    ins.iter()
        .map(|(n, s)| {
            let v = (0..numel(s))
                .map(|_| match mode {
                    0 => 1.0,
                    1 => -1.0,
                    2 => {
                        if r.bool() {
                            1.0
                        } else {
                            -1.0
                        }
                    }
                    3 => r.sf64(),
                    _ => *r.pick(&[0.0, 1.0, -1.0, 0.5, 1e-6]),
                })
                .collect();
            (n.clone(), V::fl(s.clone(), v))
        })
        .collect()
}

/// search the input cube for an activation outside its layer's width
fn width_search(c: &mut Case, r: &mut Rng, m: &M, env: &HashMap<String, V>, q: &QuantizedModel, flips: usize) -> Result<Vec<Watch>, Bad> {
    let al = q.scale_config.alpha as f64;
    let mut ws: Vec<Watch> = vec![];
    for n in &m.nodes {
        if !needs_width(&n.op) {
            continue;
        }
        let Some(l) = q.graph.layers.iter().find(|l| l.outputs == n.outputs) else { return bad("lost-layer", format!("no layer for {} {:?}\n{}", n.op, n.outputs, m.summary())) };
        let Some(b) = l.n_bits else {
            return bad(format!("no-width-{}", n.op), format!("layer {} ({}) has no n_bits\n{}", l.name, n.op, m.summary()));
        };
        let limit = 2f64.powi(b as i32 - 1) / al;
        ws.push(Watch { tensor: n.outputs[0].clone(), outputs: n.outputs.clone(), best: 0.0.into(), layer: l.name.clone(), op: n.op.clone(), role: "output", limit, n_bits: b });
        if matches!(n.op.as_str(), "Relu" | "LeakyRelu" | "Max" | "Min" | "Clip" | "MaxPool") {
            for i in n.inputs.iter().filter(|i| !i.is_empty()) {
                ws.push(Watch { tensor: i.clone(), outputs: n.outputs.clone(), best: 0.0.into(), layer: l.name.clone(), op: n.op.clone(), role: "operand", limit, n_bits: b });
            }
        }
        c.ev(&format!("width_{}", n.op));
    }
    if ws.is_empty() {
        c.ev("nothing_to_watch");
        return Ok(ws);
    }
    let ins = real_inputs(m, env);
    let judge = |e: &HashMap<String, V>, inp: &HashMap<String, V>| -> Result<(f64, usize), Bad> {
        let mut best = (0.0f64, 0usize);
        for (k, w) in ws.iter().enumerate() {
            let Some(v) = e.get(&w.tensor) else { continue };
            let f = v.floats();
            let y = f.iter().filter(|x| x.is_finite()).fold(0.0f64, |a, x| a.max(x.abs()));
            let top = f.iter().filter(|x| x.is_finite()).fold(0.0f64, |a, x| a.max(*x));
            w.best.set(w.best.get().max(y));
            let ratio = y / w.limit;
            // the range check admits [-limit, limit)
            if ratio > 1.0 + 1e-9 || top >= w.limit {
                let iv: Vec<String> = inp.iter().map(|(n, v)| format!("{n}={:?}", v.f)).collect();
                return bad(
                    format!("too-narrow-{}", w.op),
                    format!("layer {} ({}): {} '{}' reaches {y} for an input in [-1,1], scaled {}, but n_bits={} allows {}\n{}\ninputs {}", w.layer, w.op, w.role, w.tensor, y * al, w.n_bits, w.limit * al, m.summary(), iv.join(" ")),
                );
            }
            if ratio > best.0 {
                best = (ratio, k);
            }
        }
        Ok(best)
    };
    let mut top = 0.0f64;
    for mode in [0, 1, 2, 2, 3, 4] {
        let inp = fill(r, &ins, mode);
        let Ok(e) = exec::run(m, &inp) else { continue };
        c.evn("executions", 1);
        c.evals += 1;
        top = top.max(judge(&e, &inp)?.0);
    }
    // hill climbing on single coordinates, several targets
    let mut budget = flips;
    while budget > 0 {
        let target = r.below(ws.len());
        let mut inp = fill(r, &ins, 2);
        let Ok(e) = exec::run(m, &inp) else { break };
        let fl = e.get(&ws[target].tensor).map(V::floats).unwrap_or_default();
        if fl.is_empty() {
            break;
        }
        // an element: the largest, or any
        let mut el = r.below(fl.len());
        if r.bool() {
            for (k, v) in fl.iter().enumerate() {
                if v.abs() > fl[el].abs() {
                    el = k;
                }
            }
        }
        let sign = if fl[el] < 0.0 { -1.0 } else { 1.0 };
        let mut cur = fl[el] * sign;
        let mut coords: Vec<(usize, usize)> = ins.iter().enumerate().flat_map(|(a, (_, s))| (0..numel(s)).map(move |k| (a, k))).collect();
        r.shuffle(&mut coords);
        budget -= 1;
        for (a, k) in coords {
            if budget == 0 {
                break;
            }
            budget -= 1;
            let name = &ins[a].0;
            inp.get_mut(name).unwrap().f[k] *= -1.0;
            let ok = match exec::run(m, &inp) {
                Ok(e) => {
                    c.evn("executions", 1);
                    top = top.max(judge(&e, &inp)?.0);
                    let v = e.get(&ws[target].tensor).map(|v| v.floats()[el] * sign).unwrap_or(f64::NAN);
                    if v > cur {
                        cur = v;
                        true
                    } else {
                        false
                    }
                }
                Err(_) => false,
            };
            if !ok {
                inp.get_mut(name).unwrap().f[k] *= -1.0;
            }
        }
    }
    c.ev(&format!("closest_{}", if top > 0.5 { "above_half" } else if top > 0.05 { "above_5pct" } else { "far" }));
    Ok(ws)
}

/// Widths are powers of two: at most scales a bound may be almost twice too small unnoticed. Quantize
/// again at scales that put the largest value seen just below a power of two.
fn tight_scales(c: &mut Case, r: &mut Rng, m: &M, graph: &LayerGraph, ws: &[Watch]) -> R {
    let mut idx: Vec<usize> = (0..ws.len()).filter(|&k| ws[k].best.get() > 1e-3).collect();
    r.shuffle(&mut idx);
    for &k in idx.iter().take(3) {
        let w = &ws[k];
        let a = w.best.get();
        let top = r.range(10, 18) + a.log2().ceil().max(0.0) as i64;
        let alpha = (0.99 * 2f64.powi(top as i32) / a).floor() as i64;
        if !(400..1 << 26).contains(&alpha) {
            continue;
        }
        let cfg = ScaleConfig::new(alpha as u64, 1);
        let Ok(q) = lib("quantize_model", || quantizer::quantize_model(graph.clone(), &cfg))? else {
            c.ev("tight_refused");
            continue;
        };
        let b = q.graph.layers.iter().find(|l| l.outputs == w.outputs).and_then(|l| l.n_bits).unwrap_or(0);
        check!(
            a * alpha as f64 <= 2f64.powi(b as i32 - 1) * (1.0 + 1e-9),
            format!("too-narrow-{}", w.op),
            "layer {} ({}): {} '{}' reaches {a} for an input in [-1,1], scaled by {alpha} that is {}, but n_bits={b} allows {}\n{}",
            w.layer, w.op, w.role, w.tensor, a * alpha as f64, 2f64.powi(b as i32 - 1), m.summary()
        );
        c.ev("tight_scales");
        if a * alpha as f64 * 1.02 >= 2f64.powi(b as i32 - 1) {
            c.ev("tight_exact");
        }
    }
    Ok(())
}

fn b06_run(c: &mut Case, r: &mut Rng, mut g: Gen, flips: usize) -> R {
    g.finish();
    if r.chance(1, 8) && g.m.nodes.len() > 1 {
        // names do not identify nodes in ONNX
        let n = g.m.nodes[0].name.clone().unwrap_or_else(|| "same".into());
        for x in &mut g.m.nodes {
            if r.bool() {
                x.name = Some(n.clone());
            }
        }
        c.ev("shared_names");
    }
    if !Info::new(&g.m, &g.env).bounded() {
        c.ev("skipped_unbounded");
        return Ok(());
    }
    let cfg = pick_scale(r);
    let f = write_model(c, &g.m, r);
    let (_, graph) = load(&f.path, &g.m)?;
    let q = match lib("quantize_model", || quantizer::quantize_model(graph.clone(), &cfg)).map_err(|b| Bad { sig: b.sig, why: format!("{}\n{}", b.why, g.m.summary()) })? {
        Ok(q) => q,
        Err(_) => {
            c.ev("refused");
            return Ok(());
        }
    };
    c.ev("models");
    let ws = width_search(c, r, &g.m, &g.env, &q, flips)?;
    tight_scales(c, r, &g.m, &graph, &ws)?;
    let outs: Vec<String> = g.m.nodes.iter().filter(|n| n.op != "Constant").map(|n| format!("{}{:?}", n.op, g.env.get(&n.outputs[0]).map(|v| v.shape.clone()))).collect();
    c.seen_str(&format!("{}|{}", outs.join(";"), cfg.alpha));
    c.sample = Some(json!({"ops": g.ops_used, "alpha": cfg.alpha, "n_bits": q.n_bits_config}));
    Ok(())
}

fn b06_gen(r: &mut Rng) -> Gen {
    let amp = *r.pick(&[2.0, 2.0, 0.3, 20.0]);
    Gen::new(Rng::new(r.u64()), Cfg { ops: B06_OPS.to_vec(), fold: false, amp, max_numel: 64, max_rank: 4, batch_one: true, ..Cfg::default() })
}

/// put a width on the last tensor: a range-checked reader of its value
fn reader(g: &mut Gen, r: &mut Rng) {
    let Some(last) = g.fl.last().cloned() else { return };
    match r.below(4) {
        0 => {
            g.emit("LeakyRelu", vec![last], vec![("alpha", A::F(1.0))]);
        }
        1 => {
            let z = g.add_init(T::scalar_f(0.0));
            g.emit("Max", vec![last, z], vec![]);
        }
        2 => {
            g.emit("Clip", vec![last], vec![]);
        }
        _ => {
            g.emit("Relu", vec![last], vec![]);
        }
    }
    // what was emitted is a data tensor like any other
    let o = g.m.nodes.last().unwrap().outputs[0].clone();
    g.fl.push(o);
}

/// each operator right behind the inputs, with a reader behind it
fn b06_each(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let mut ops: Vec<&str> = B06_OPS.to_vec();
    ops.sort_unstable();
    ops.dedup();
    let op = ops[c.idx as usize % ops.len()];
    for _ in 0..30 {
        let mut g = b06_gen(&mut r);
        if op == "Gemm" {
            g.cfg.min_rank = 2;
            g.cfg.max_rank = 2;
            g.cfg.batch_one = false;
        }
        g.random_inputs();
        let pre = r.chance(1, 3);
        if pre {
            let p = *r.pick(&["Mul", "Add", "Neg", "LeakyRelu", "BatchNormalization", "Conv", "Reshape", "Transpose"]);
            g.step(p);
        }
        if op == "Where" {
            g.step("Greater");
        }
        if !g.step(op) {
            continue;
        }
        if !Info::new(&g.m, &g.env).bounded() {
            continue;
        }
        if r.chance(3, 4) {
            reader(&mut g, &mut r);
        }
        c.ev(&format!("each_{op}"));
        return b06_run(c, &mut r, g, 150);
    }
    c.ev("no_model");
    Ok(())
}

fn b06_random(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let mut g = b06_gen(&mut r);
    g.random_inputs();
    let n = r.us(2, 7);
    for _ in 0..n {
        for _ in 0..8 {
            let op = *r.pick(B06_OPS);
            let (a, b, f, bl, i) = (g.m.nodes.len(), g.m.inits.len(), g.fl.len(), g.bools.len(), g.ints.len());
            let (ni, nc) = (g.m.inputs.len(), g.const_names.len());
            if !g.step(op) {
                continue;
            }
            if Info::new(&g.m, &g.env).bounded() {
                break;
            }
            g.m.nodes.truncate(a);
            g.m.inits.truncate(b);
            g.fl.truncate(f);
            g.bools.truncate(bl);
            g.ints.truncate(i);
            g.m.inputs.truncate(ni);
            g.const_names.truncate(nc);
            g.ops_used.pop();
        }
    }
    if g.m.nodes.is_empty() {
        return Ok(());
    }
    reader(&mut g, &mut r);
    b06_run(c, &mut r, g, 120)
}

/// accumulations that depend on element counts: long chains of data movement, then a sum
/// an elementwise operator whose result is larger than the operand it names first
fn broadcast_step(g: &mut Gen, r: &mut Rng) {
    let Some(x) = g.fl.last().cloned() else { return };
    let xs = g.env[&x].shape.clone();
    let mut ws: Vec<usize> = xs.iter().map(|&d| if r.chance(1, 3) { 1 } else { d }).collect();
    for (k, d) in ws.iter_mut().enumerate() {
        if xs[k] == 1 && k > 0 && r.bool() {
            *d = r.us(2, 6);
        }
    }
    let drop = r.below(ws.len() + 1);
    if r.chance(1, 3) {
        ws.drain(..drop);
    }
    let n: usize = ws.iter().zip(xs.iter().rev()).map(|(a, _)| *a).product::<usize>() * xs.iter().product::<usize>();
    if n > 400 {
        return;
    }
    let w = g.fconst(&ws);
    let ins = if r.bool() { vec![x, w] } else { vec![w, x] };
    let op = *r.pick(&["Add", "Sub", "Mul", "Max", "Min"]);
    let out = g.emit(op, ins, vec![]);
    g.fl.push(out);
    g.ops_used.push(op.to_string());
}

fn b06_counts(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    for _ in 0..20 {
        let mut g = b06_gen(&mut r);
        g.cfg.max_numel = 96;
        let rank = r.us(3, 4);
        let mut s = g.shape(rank);
        s[0] = 1;
        g.add_input(&s);
        for _ in 0..r.us(0, 3) {
            let p = *r.pick(&["Reshape", "Transpose", "Flatten", "Squeeze", "Unsqueeze", "Concat", "Slice", "Pad", "Tile", "Expand", "Gather", "Conv", "ConvTranspose", "MaxPool", "AveragePool", "GlobalAveragePool", "Split", "Where", "Greater", "TopK", "Add", "Mul", "Relu", "MatMul", "Gemm", "ReduceMean", "ReduceMax", "Max", "Min", "Sub", "Resize", "GatherElements", "GridSample", "ScatterND", "LayerNormalization", "BatchNormalization", "Clip"]);
            g.step(p);
        }
        if r.chance(1, 3) {
            broadcast_step(&mut g, &mut r);
        }
        let last = *r.pick(&["ReduceSum", "MatMul"]);
        if !g.step(last) || !Info::new(&g.m, &g.env).bounded() {
            continue;
        }
        reader(&mut g, &mut r);
        c.ev(&format!("counted_{last}"));
        return b06_run(c, &mut r, g, 160);
    }
    c.ev("no_model");
    Ok(())
}

/// the graph keeps input shapes without their batch dimension: two models where that loses
/// terms of a sum (recorded as known findings)
fn b06_batchless(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let k = r.us(3, 6);
    let mut m = M { opsets: vec![(None, 18)], ..M::default() };
    let (sig, shape, axes): (&str, Vec<usize>, Option<i64>) = if c.idx % 2 == 0 { ("batchless-rank2-input", vec![1, k], Some(0)) } else { ("batchless-static-batch", vec![k, 2, 2], None) };
    m.inputs.push(io("x", &shape));
    let mut src = "x";
    if let Some(a) = axes {
        m.inits.push(("axes".into(), T::ints(&[a])));
        m.nodes.push(node("sq", "Squeeze", &["x", "axes"], &["s"], vec![]));
        src = "s";
    }
    m.inits.push(("sum_axes".into(), T::ints(&[0])));
    m.nodes.push(node("sum", "ReduceSum", &[src, "sum_axes"], &["t"], vec![]));
    m.nodes.push(node("act", "Relu", &["t"], &["y"], vec![]));
    m.outputs.push(io("y", &[]));
    let f = write_model(c, &m, &mut r);
    let (_, graph) = load(&f.path, &m)?;
    let q = must("quantize_model", &m, || quantizer::quantize_model(graph, &ScaleConfig::default()))?;
    let b = q.graph.layers.iter().find(|l| l.name == "act").and_then(|l| l.n_bits).unwrap_or(0);
    c.evals += 1;
    c.ev("batchless");
    check!(k as f64 * q.scale_config.alpha as f64 <= 2f64.powi(b as i32 - 1), sig, "a sum of {k} terms of size up to 1 gets n_bits={b} at scale {}\n{}", q.scale_config.alpha, m.summary());
    Ok(())
}

pub fn spec_b06() -> Spec {
    Spec {
        id: "B06",
        level: "exploration",
        rule: "random models are quantized at random scales and then executed by the reference executor on inputs in [-1,1] (all corners kinds, random points, coordinate-flip search for the worst input of each layer); every range-checked layer must carry a width and no output (for comparisons: no operand) may exceed 2^(n_bits-1) at that scale; distinct = (operators with shapes, scale)",
        assumptions: &["inputs lie in [-1,1], the range the quantizer assumes", "operators whose range it documents as approximate (dynamic Div, Log, Range, Cast, integer index outputs, Gemm with runtime weights) are not in the workload", "batch dimension 1", "the reference executor implements ONNX"],
        require: &[("models", 2000), ("executions", 100_000), ("closest_above_half", 500), ("tight_scales", 2000), ("tight_exact", 200), ("counted_ReduceSum", 100), ("counted_MatMul", 100), ("shared_names", 50), ("each_Conv", 20), ("each_Gemm", 20), ("each_ConvTranspose", 20), ("each_BatchNormalization", 20), ("each_MatMul", 20)],
        families: vec![
            Family { name: "each", quick: 59 * 150, thorough: 59 * 3000, f: b06_each },
            Family { name: "random", quick: 10_000, thorough: 200_000, f: b06_random },
            Family { name: "batchless", quick: 20, thorough: 20, f: b06_batchless },
            Family { name: "counts", quick: 24_000, thorough: 200_000, f: b06_counts },
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// B07: choice of scale

fn b07_select(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let n_bits = if r.bool() { *r.pick(&[31u32, 63, 64, 126, 32, 20]) } else { r.us(1, 126) as u32 };
    let bound = match r.below(6) {
        0 => 2f64.powi(r.range(-3, 60) as i32),
        1 => 2f64.powi(r.range(0, 50) as i32) * (1.0 + 1e-12),
        2 => 2f64.powi(r.range(0, 50) as i32) * (1.0 - 1e-12),
        3 => *r.pick(&[0.0, 1.0, 0.5, 1e-300]),
        4 => 10f64.powf(r.f64() * 30.0),
        _ => 1.0 + r.f64() * 100.0,
    };
    let lb = bound.max(1.0).log2();
    let e = match crate::report::guarded(|| ScaleConfig::max_safe_exponent(n_bits, bound)) {
        Ok(e) => e,
        Err(p) => return bad("panic", format!("max_safe_exponent({n_bits}, {bound}) panicked: {p}")),
    };
    let room = f64::from(n_bits) - 1.0;
    check!(e == 0 || 2.0 * f64::from(e) + lb <= room + 1e-9, "overflow", "max_safe_exponent({n_bits}, {bound}) = {e}: 2^(2*{e})*{bound} exceeds 2^({n_bits}-1)");
    check!(2.0 * (f64::from(e) + 1.0) + lb + 1.0 > room - 1e-9, "wasteful", "max_safe_exponent({n_bits}, {bound}) = {e} leaves more than a bit unused");
    let a = match crate::report::guarded(|| ScaleConfig::adaptive(n_bits, bound)) {
        Ok(a) => a,
        Err(p) => return bad("panic", format!("adaptive({n_bits}, {bound}) panicked: {p}")),
    };
    check!(a.base == 2 && a.exponent == e && a.alpha == 1i64 << e, "adaptive", "adaptive({n_bits}, {bound}) = {a:?}, expected 2^{e}");
    let digits = if r.chance(1, 8) { r.us(20, 400) as u32 } else { r.us(0, 20) as u32 };
    let want = ScaleConfig::exponent_for_digits(digits);
    // 10^digits <= 2^want, and no smaller exponent does
    let l10 = f64::from(digits) * 10f64.log2();
    check!(f64::from(want) >= l10 - 1e-9, "digits-low", "exponent_for_digits({digits}) = {want} < {l10}");
    check!(f64::from(want) < l10 + 1.0 + 1e-9, "digits-high", "exponent_for_digits({digits}) = {want} is more than needed ({l10})");
    let res = lib("for_precision", || ScaleConfig::for_precision(digits, n_bits, bound))?;
    match &res {
        Ok(s) => {
            check!(want <= e, "precision-overflow", "for_precision({digits}, {n_bits}, {bound}) accepted exponent {want}, the largest safe one is {e}");
            check!(s.base == 2 && s.exponent == want && s.alpha == 1i64 << want, "precision-config", "for_precision({digits}, {n_bits}, {bound}) = {s:?}, expected 2^{want}");
            check!(s.exponent == 0 || 2.0 * f64::from(s.exponent) + lb <= room + 1e-9, "precision-unsafe", "for_precision({digits}, {n_bits}, {bound}) = {s:?} overflows");
            c.ev("precision_accepted");
        }
        Err(_) => {
            check!(want > e, "precision-refused", "for_precision({digits}, {n_bits}, {bound}) refused exponent {want} although {e} is safe");
            c.ev("precision_refused");
        }
    }
    let d = ScaleConfig::max_safe_digits(n_bits, bound);
    check!(lib("for_precision", || ScaleConfig::for_precision(d, n_bits, bound))?.is_ok(), "max-digits-high", "max_safe_digits({n_bits}, {bound}) = {d} is itself refused");
    check!(lib("for_precision", || ScaleConfig::for_precision(d + 1, n_bits, bound))?.is_err(), "max-digits-low", "max_safe_digits({n_bits}, {bound}) = {d} but {} digits are accepted", d + 1);
    let (b, x) = (*r.pick(&[2u64, 3, 5, 10, 16]), r.us(0, 15) as u32);
    let s = ScaleConfig::new(b, x);
    let p = (0..x).fold(1i128, |a, _| a * i128::from(b));
    check!(i128::from(s.alpha) == p && s.base == b && s.exponent == x, "new", "ScaleConfig::new({b}, {x}) = {s:?}");
    let s = ScaleConfig::default();
    check!(i128::from(s.alpha) == (0..s.exponent).fold(1i128, |a, _| a * i128::from(s.base)), "default", "default {s:?} is inconsistent");
    for (what, n, field) in [("BN254", quantizer::N_BITS_BN254, 254u32), ("Goldilocks", quantizer::N_BITS_GOLDILOCKS, 64), ("Goldilocks ext2", quantizer::N_BITS_GOLDILOCKS_EXT2, 128)] {
        check!(n < field / 2 && n > 2 * quantizer::MIN_USEFUL_EXPONENT, "field-bits", "{what}: n_bits {n} for a {field}-bit field");
    }
    c.evals += 6;
    c.ev("selections");
    c.seen_str(&format!("{n_bits}|{bound}|{digits}"));
    Ok(())
}

/// run the model with every rescaled tensor replaced by fresh data in [-1,1]
fn run_cut(m: &M, inputs: &HashMap<String, V>, r: &mut Rng, corner: bool, pre: &mut Vec<(String, f64)>) -> bool {
    let mut env = inputs.clone();
    for (k, t) in &m.inits {
        env.insert(k.clone(), V::from_t(t));
    }
    let mut left: Vec<&N> = m.nodes.iter().collect();
    while !left.is_empty() {
        let before = left.len();
        let mut rest = vec![];
        for n in left {
            if !n.inputs.iter().all(|i| i.is_empty() || env.contains_key(i)) {
                rest.push(n);
                continue;
            }
            let Ok(outs) = exec::run_node(n, &env) else { return false };
            let rescale = matches!(n.op.as_str(), "Gemm" | "Conv" | "BatchNormalization" | "Mul" | "MatMul" | "ConvTranspose");
            for (o, mut v) in n.outputs.iter().zip(outs) {
                if rescale {
                    pre.push((o.clone(), v.floats().iter().filter(|x| x.is_finite()).fold(0.0, |a, x| a.max(x.abs()))));
                    for x in &mut v.f {
                        *x = if corner { if r.bool() { 1.0 } else { -1.0 } } else { r.sf64() };
                    }
                }
                env.insert(o.clone(), v);
            }
        }
        if rest.len() == before {
            return false;
        }
        left = rest;
    }
    true
}

fn b07_model(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let mut g = b06_gen(&mut r);
    g.cfg.amp = *r.pick(&[0.2, 2.0, 50.0, 4000.0]);
    if r.bool() {
        // a single rescaling layer, so that the bound is attained
        let op = *r.pick(&["Conv", "Gemm", "BatchNormalization", "ConvTranspose", "MatMul", "Mul"]);
        if op == "Gemm" {
            g.cfg.min_rank = 2;
            g.cfg.max_rank = 2;
        }
        g.random_inputs();
        if r.chance(1, 3) {
            let p = *r.pick(&["Add", "LeakyRelu", "Neg", "Concat", "Pad"]);
            g.step(p);
        }
        g.step(op);
    } else {
        g.random_inputs();
        let n = r.us(1, 6);
        g.grow(n);
    }
    g.finish();
    if g.m.nodes.is_empty() || !Info::new(&g.m, &g.env).bounded() {
        c.ev("skipped_unbounded");
        return Ok(());
    }
    let f = write_model(c, &g.m, &mut r);
    let (_, graph) = load(&f.path, &g.m)?;
    let mut work = graph.clone();
    let mb = match lib("compute_max_bound", || quantizer::compute_max_bound(&mut work))? {
        Ok(b) => b,
        Err(_) => {
            c.ev("refused");
            return Ok(());
        }
    };
    c.ev("model_bounds");
    check!(mb >= 1.0, "bound-below-one", "compute_max_bound = {mb}\n{}", g.m.summary());
    let ins = real_inputs(&g.m, &g.env);
    let mut worst = 0.0f64;
    for k in 0..40 {
        let inp = fill(&mut r, &ins, [0, 1, 2, 2, 2, 3][k % 6]);
        let mut pre = vec![];
        if !run_cut(&g.m, &inp, &mut r, k % 3 != 2, &mut pre) {
            break;
        }
        c.evals += 1;
        c.evn("rescale_inputs_seen", pre.len() as u64);
        for (o, y) in &pre {
            worst = worst.max(*y);
            check!(*y <= mb * (1.0 + 1e-9), "bound-too-small", "rescaled tensor '{o}' reaches {y} for unit inputs, compute_max_bound says {mb}\n{}", g.m.summary());
        }
    }
    if worst > 0.5 * mb {
        c.ev("bound_within_factor_two");
    }
    // the model entry point: same decision, same result
    let n_bits = *r.pick(&[31u32, 63, 64, 40]);
    let digits = r.us(0, 9) as u32;
    let sc = ScaleConfig::for_precision(digits, n_bits, mb);
    let q = lib("quantize_model_for_precision", || quantizer::quantize_model_for_precision(graph.clone(), digits, n_bits))?;
    match (sc, q) {
        (Ok(s), Ok(q)) => {
            check!(q.scale_config.alpha == s.alpha && q.scale_config.exponent == s.exponent, "model-scale", "{digits} digits, {n_bits} bits, bound {mb}: scale {:?}, expected {s:?}\n{}", q.scale_config, g.m.summary());
            let e = 2.0 * f64::from(s.exponent) + worst.max(1.0).log2();
            check!(s.exponent == 0 || e <= f64::from(n_bits) - 1.0 + 1e-9, "model-overflow", "accumulation 2^{e} exceeds {n_bits} bits\n{}", g.m.summary());
            if let Ok(d) = lib("quantize_model", || quantizer::quantize_model(graph.clone(), &s))? {
                check!(jv(&d) == jv(&q), "model-differs", "quantize_model_for_precision differs from quantize_model at the same scale\n{}", g.m.summary());
            }
            c.ev("model_precision_accepted");
        }
        (Err(_), Err(_)) => c.ev("model_precision_refused"),
        (Err(e), Ok(q)) => return bad("model-unsafe", format!("{digits} digits do not fit ({e}) but the model was quantized at {:?}\n{}", q.scale_config, g.m.summary())),
        (Ok(s), Err(e)) => {
            if lib("quantize_model", || quantizer::quantize_model(graph, &s))?.is_ok() {
                return bad("model-refused", format!("{digits} digits fit (bound {mb}) but the model was refused: {e}\n{}", g.m.summary()));
            }
        }
    }
    c.seen_str(&format!("{}|{mb:.6e}", opkey(&g)));
    c.sample = Some(json!({"ops": g.ops_used, "bound": mb, "observed": worst}));
    Ok(())
}

pub fn spec_b07() -> Spec {
    Spec {
        id: "B07",
        level: "exploration",
        rule: "scale selection is called with random widths, bounds (powers of two and their neighbours, huge, tiny) and digit requests and judged by exact power arithmetic; for random models the announced bound is compared with the largest accumulation the executor observes in any rescaled layer whose inputs are in [-1,1]; distinct = (n_bits, bound, digits) and (operators, bound)",
        assumptions: &["rescaled activations are taken to be in [-1,1], as the bound computation documents", "n_bits at most 126 (the scale is an i64)"],
        require: &[("selections", 20_000), ("precision_accepted", 1000), ("precision_refused", 1000), ("model_bounds", 1000), ("rescale_inputs_seen", 20_000), ("bound_within_factor_two", 200), ("model_precision_accepted", 200), ("model_precision_refused", 200)],
        families: vec![
            Family { name: "select", quick: 60_000, thorough: 3_000_000, f: b07_select },
            Family { name: "model", quick: 12_000, thorough: 400_000, f: b07_model },
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// B08: rewrites keep the function

fn to_t(w: &TensorData, scale: f64) -> T {
    let fl = w.data_type == F32 || w.data_type == F64;
    if fl {
        let f = if w.float_data.is_empty() { w.int_data.iter().map(|&v| v as f64 / scale).collect() } else { w.float_data.clone() };
        T { dims: w.dims.clone(), dt: F64, f, i: vec![] }
    } else {
        T { dims: w.dims.clone(), dt: w.data_type, f: vec![], i: w.int_data.clone() }
    }
}

/// the layer graph as a model again; `alpha`: scaled operands are divided back
pub fn graph_to_m(g: &LayerGraph, alpha: Option<f64>) -> Result<M, Bad> {
    let mut m = M::default();
    for (k, l) in g.layers.iter().enumerate() {
        let mut inputs = l.inputs.clone();
        for (p, i) in inputs.iter_mut().enumerate() {
            if let Some(w) = l.weights.get(i.as_str()) {
                let sc = match alpha {
                    Some(a) => plan(l.op_type).iter().find(|(q, _)| *q == p).map_or(1.0, |(_, e)| a.powi(*e as i32)),
                    None => 1.0,
                };
                let local = format!("L{k}.{p}.{i}");
                m.inits.push((local.clone(), to_t(w, sc)));
                *i = local;
            }
        }
        let attrs = l
            .attributes
            .iter()
            .map(|(k, a)| {
                let v = match a {
                    AttrValue::Float(f) => A::F(*f),
                    AttrValue::Int(i) => A::I(*i),
                    AttrValue::String(s) => A::S(s.clone()),
                    AttrValue::Floats(v) => A::Fs(v.clone()),
                    AttrValue::Ints(v) => A::Is(v.clone()),
                    AttrValue::Tensor(t) => A::T(to_t(t, 1.0)),
                };
                (k.clone(), v)
            })
            .collect();
        m.nodes.push(N { name: Some(l.name.clone()), op: format!("{:?}", l.op_type), inputs, outputs: l.outputs.clone(), attrs, domain: None });
    }
    Ok(m)
}

fn same_values(what: &str, m: &M, a: &HashMap<String, V>, b: &HashMap<String, V>) -> Result<u64, Bad> {
    let mut n = 0;
    for nd in &m.nodes {
        for o in nd.outputs.iter().filter(|o| !o.is_empty()) {
            let (Some(x), Some(y)) = (a.get(o), b.get(o)) else { return bad("lost-tensor", format!("{what}: tensor '{o}' no longer computed\n{}", m.summary())) };
            check!(x.shape == y.shape, "shape", "{what}: '{o}' of {} has shape {:?} instead of {:?}\n{}", nd.op, y.shape, x.shape, m.summary());
            let (fx, fy) = (x.floats(), y.floats());
            let mag = fx.iter().filter(|v| v.is_finite()).fold(1.0f64, |a, v| a.max(v.abs()));
            for (u, v) in fx.iter().zip(&fy) {
                let same = (u.is_nan() && v.is_nan()) || u == v || (u - v).abs() <= 1e-8 * mag;
                check!(same, "value", "{what}: '{o}' of {} is {v}, was {u}\n{}", nd.op, m.summary());
                n += 1;
            }
        }
    }
    Ok(n)
}

fn unique_weights(g: &LayerGraph, m: &M) -> R {
    let mut seen: HashMap<&str, Value> = HashMap::new();
    for l in &g.layers {
        for (n, w) in &l.weights {
            let v = jv(w);
            if let Some(o) = seen.get(n.as_str()) {
                check!(*o == v, "name-clash", "two layers hold different tensors under the name '{n}'\n{}", m.summary());
            }
            seen.insert(n.as_str(), v);
        }
    }
    Ok(())
}

fn b08(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let mut g = Gen::new(
        Rng::new(r.u64()),
        Cfg { ops: vec!["BatchNormalization", "BatchNormalization", "Pow", "Pow", "Relu", "Add", "Mul", "Conv", "Reshape", "Transpose", "Concat", "Sigmoid", "Sub", "Tanh", "MaxPool", "Neg", "Gemm"], fold: false, max_numel: 120, min_rank: 2, max_rank: 5, amp: *r.pick(&[2.0, 0.5]), ..Cfg::default() },
    );
    g.random_inputs();
    let n = r.us(1, 6);
    g.grow(n);
    g.finish();
    // exponents and normalization parameters in other shapes, names that repeat
    let outs: Vec<usize> = (0..g.m.nodes.len()).filter(|&k| g.m.nodes[k].op == "Pow").collect();
    // now and then an exponent per element: no single root computes it
    let vector = if r.chance(1, 6) { outs.first().copied() } else { None };
    for k in outs {
        if vector == Some(k) {
            let base: Vec<usize> = g.env.get(&g.m.nodes[k].inputs[0]).map(|t| t.shape.clone()).unwrap_or_default();
            let keep = r.us(1, base.len().max(1));
            let dims: Vec<i64> = base[base.len().saturating_sub(keep)..].iter().map(|&d| d as i64).collect();
            let n = dims.iter().product::<i64>().max(0) as usize;
            let f: Vec<f64> = (0..n).map(|_| *r.pick(&[0.5, 0.5, 1.0, 2.0])).collect();
            let nm = format!("exp{k}");
            g.m.inits.push((nm.clone(), T { dims, dt: F32, f, i: vec![] }));
            g.m.nodes[k].inputs[1] = nm;
            c.ev("per_element_exponent");
            continue;
        }
        let e = *r.pick(&[0.5, 0.5, 0.5, 0.25, 0.5001, 1.0, 2.0, 0.75]);
        let rank = *r.pick(&[0usize, 0, 0, 1, 1, 1, 2, 3, 4, 5]);
        let nm = format!("exp{k}");
        let dt = if r.bool() { F32 } else { F64 };
        g.m.inits.push((nm.clone(), T { dims: vec![1; rank], dt, f: vec![if dt == F32 { f64::from(e as f32) } else { e }], i: vec![] }));
        g.m.nodes[k].inputs[1] = nm;
        c.ev("pow");
    }
    if r.chance(1, 3) {
        for x in &mut g.m.nodes {
            if x.op == "BatchNormalization" {
                x.name = Some("bn".into());
            }
        }
        c.ev("shared_names");
    }
    let ins = real_inputs(&g.m, &g.env);
    let mut inp = fill(&mut r, &ins, 3);
    if r.bool() {
        for v in inp.values_mut() {
            for x in &mut v.f {
                *x = x.abs();
            }
        }
    }
    // rank of an exponent may change shapes downstream: only consistent models
    let Ok(e0) = exec::run(&g.m, &inp) else {
        c.ev("inconsistent");
        return Ok(());
    };
    // the root of a negative number: no value to preserve
    if e0.values().any(|v| v.f.iter().any(|x| x.is_nan())) {
        c.ev("undefined");
        return Ok(());
    }
    let f = write_model(c, &g.m, &mut r);
    let (parsed, graph) = load(&f.path, &g.m)?;
    let mut folded = graph.clone();
    if lib("compute_max_bound", || quantizer::compute_max_bound(&mut folded))?.is_err() {
        c.ev("refused");
        return Ok(());
    }
    let bns = graph.layers.iter().filter(|l| l.op_type == OpType::BatchNormalization).count();
    c.evn("folded", bns as u64);
    c.evn("to_sqrt", folded.layers.iter().zip(&graph.layers).filter(|(a, b)| a.op_type != b.op_type).count() as u64);
    unique_weights(&folded, &g.m)?;
    let m1 = graph_to_m(&folded, None)?;
    let e1 = match exec::run(&m1, &inp) {
        Ok(e) => e,
        Err(e) => return bad("not-executable", format!("the rewritten graph no longer runs: {e:?}\n{}", g.m.summary())),
    };
    let n = same_values("rewrite", &g.m, &e0, &e1)?;
    c.evn("values_compared", n);
    c.evals += 1;
    // again: nothing left to rewrite
    let once = jv(&folded);
    let _ = lib("compute_max_bound", || quantizer::compute_max_bound(&mut folded))?;
    check!(jv(&folded) == once, "not-idempotent", "rewriting twice changes the graph again\n{}", g.m.summary());
    // shapes of the rewritten graph
    if let (Ok(a), Ok(b)) = (lib("infer_all_shapes", || infer_all_shapes(&parsed, &graph))?, lib("infer_all_shapes", || infer_all_shapes(&parsed, &folded))?) {
        for nd in &g.m.nodes {
            for o in &nd.outputs {
                check!(a.get(o) == b.get(o), "inferred-shape", "'{o}' of {}: {:?} before, {:?} after the rewrite\n{}", nd.op, a.get(o), b.get(o), g.m.summary());
            }
        }
        c.ev("shapes_compared");
    }
    // the same through quantization, operands divided back
    let al = ScaleConfig::new(2, 26);
    if let Ok(q) = lib("quantize_model", || quantizer::quantize_model(graph.clone(), &al))? {
        unique_weights(&q.graph, &g.m)?;
        let m2 = graph_to_m(&q.graph, Some(al.alpha as f64))?;
        // one layer at a time, on the original's operands: rounding does not accumulate
        for nd in &m2.nodes {
            let mut env = e0.clone();
            for (k, t) in &m2.inits {
                env.insert(k.clone(), V::from_t(t));
            }
            let Ok(v) = exec::run_node(nd, &env) else { return bad("not-executable", format!("quantized {} no longer runs\n{}", nd.op, g.m.summary())) };
            let (x, y) = (e0[&nd.outputs[0]].floats(), v[0].floats());
            check!(e0[&nd.outputs[0]].shape == v[0].shape, "shape", "quantized {} has shape {:?}, was {:?}\n{}", nd.op, v[0].shape, e0[&nd.outputs[0]].shape, g.m.summary());
            let xin = nd.inputs.first().and_then(|i| e0.get(i)).map_or(1.0, V::max_abs);
            let k = nd.inputs.get(1).and_then(|i| env.get(i)).map_or(1, V::len) as f64;
            let tol = (xin.max(1.0) * k + 1.0) / al.alpha as f64 + 1e-7 * x.iter().filter(|v| v.is_finite()).fold(1.0, |a: f64, v| a.max(v.abs()));
            for (u, w) in x.iter().zip(&y) {
                check!((u.is_nan() && w.is_nan()) || u == w || (u - w).abs() <= tol, "quantized-value", "quantized {} computes {w} instead of {u} (allowed error {tol})\n{}", nd.op, g.m.summary());
            }
            c.ev("quantized_layers_compared");
        }
    }
    c.seen_str(&format!("{}|{:?}", opkey(&g), ins));
    c.sample = Some(json!({"ops": g.ops_used, "model": g.m.summary()}));
    Ok(())
}

pub fn spec_b08() -> Spec {
    Spec {
        id: "B08",
        level: "exploration",
        rule: "models with normalization and power layers are rewritten by the quantizer; the rewritten graph is turned back into a model and executed next to the original on the same data, every tensor compared; the quantized graph is executed layer by layer with its integers divided back; a second rewrite must change nothing; tensors kept under one name must be one tensor; distinct = (operators, input shapes)",
        assumptions: &["the reference executor implements ONNX; comparison tolerance 1e-8 relative"],
        require: &[("folded", 1000), ("to_sqrt", 200), ("values_compared", 20_000), ("quantized_layers_compared", 1000), ("shapes_compared", 500), ("shared_names", 200), ("per_element_exponent", 500)],
        families: vec![Family { name: "rewrite", quick: 24_000, thorough: 400_000, f: b08 }],
    }
}

// ---------------------------------------------------------------------------------------------
// B09: layer parameters

fn one_layer(c: &Case, m: &M, r: &mut Rng) -> Result<LayerNode, Bad> {
    let f = write_model(c, m, r);
    let (_, g) = load(&f.path, m)?;
    match g.layers.into_iter().find(|l| l.outputs[0] == "y") {
        Some(l) => Ok(l),
        None => bad("lost-layer", format!("no layer\n{}", m.summary())),
    }
}

fn close(what: &str, got: &[f64], want: &[f64], m: &M) -> R {
    check!(got.len() == want.len(), "size", "{what}: parameters describe {} elements, the operator has {}\n{}", got.len(), want.len(), m.summary());
    for (i, (a, b)) in got.iter().zip(want).enumerate() {
        check!((a - b).abs() <= 1e-9 * (1.0 + b.abs()), "value", "{what}: element {i} computed from the parameters is {a}, the operator gives {b}\n{}", m.summary());
    }
    Ok(())
}

fn is_(v: &[i64]) -> A {
    A::Is(v.to_vec())
}

fn b09_conv(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let (ci, co) = (r.us(1, 4), r.us(1, 4));
    let (h, w) = (r.us(1, 7), r.us(1, 7));
    let (kh, kw) = (r.us(1, 4), r.us(1, 4));
    let group = if r.chance(1, 8) { ci } else { 1 };
    let co = co * group;
    let mut attrs = vec![];
    let mut pads = vec![0i64; 4];
    if r.bool() {
        pads = (0..4).map(|_| r.range(0, 3)).collect();
        attrs.push(("pads", is_(&pads)));
    }
    let mut st = vec![1i64; 2];
    if r.bool() {
        st = (0..2).map(|_| r.range(1, 4)).collect();
        attrs.push(("strides", is_(&st)));
    }
    let mut dil = vec![1i64; 2];
    if r.chance(1, 3) {
        dil = (0..2).map(|_| r.range(1, 2)).collect();
        attrs.push(("dilations", is_(&dil)));
    }
    if group > 1 || r.chance(1, 4) {
        attrs.push(("group", A::I(group as i64)));
    }
    if r.bool() {
        attrs.push(("kernel_shape", is_(&[kh as i64, kw as i64])));
    }
    let same = r.chance(1, 10);
    if same {
        attrs.push(("auto_pad", A::S((*r.pick(&["SAME_UPPER", "SAME_LOWER"])).into())));
    }
    let bias = r.bool();
    let mut m = M { opsets: vec![(None, 18)], ..M::default() };
    m.inputs.push(io("x", &[1, ci, h, w]));
    let ws = [co, ci / group, kh, kw];
    let wv: Vec<f64> = (0..numel(&ws)).map(|_| r.sf64()).collect();
    m.inits.push(("w".into(), T::floats(&ws, wv)));
    let bv: Vec<f64> = (0..co).map(|_| r.sf64()).collect();
    let mut ins = vec!["x", "w"];
    if bias {
        m.inits.push(("b".into(), T::floats(&[co], bv)));
        ins.push("b");
    }
    m.nodes.push(node("n", "Conv", &ins, &["y"], attrs));
    m.outputs.push(Io { name: "y".into(), dt: F32, dims: None });
    let l = one_layer(c, &m, &mut r)?;
    let fits = h as i64 + pads[0] + pads[2] >= kh as i64 && w as i64 + pads[1] + pads[3] >= kw as i64;
    let plain = group == 1 && dil == [1, 1] && !same && fits;
    c.evals += 1;
    let x: Vec<f64> = (0..ci * h * w).map(|_| r.sf64()).collect();
    match lib("ConvParams", || ConvParams::from_layer(&l, ci, h, w))? {
        Err(e) => {
            check!(!plain, "conv-refused", "a plain convolution was refused: {e}\n{}", m.summary());
            c.ev("conv_refused");
        }
        Ok(p) => {
            let inp = HashMap::from([("x".to_string(), V::fl(vec![1, ci, h, w], x.clone()))]);
            let Ok(env) = exec::run(&m, &inp) else {
                if same {
                    return bad("conv-accepted", format!("implicit padding accepted\n{}", m.summary()));
                }
                return bad("conv-accepted", format!("a convolution that cannot run was accepted\n{}", m.summary()));
            };
            let y = &env["y"];
            check!(p.input_name == "x" && p.weight_tensor_name == "w" && p.bias_tensor_name.as_deref() == if bias { Some("b") } else { None }, "conv-names", "wrong operand names {} {} {:?}\n{}", p.input_name, p.weight_tensor_name, p.bias_tensor_name, m.summary());
            check!(y.shape == [1, p.c_out, p.out_h, p.out_w], "conv-geometry", "parameters say {}x{}x{}, the operator gives {:?}\n{}", p.c_out, p.out_h, p.out_w, y.shape, m.summary());
            check!(p.patch_size == p.c_in * p.kh * p.kw && p.num_patches == p.out_h * p.out_w, "conv-counts", "patch_size {} num_patches {}\n{}", p.patch_size, p.num_patches, m.summary());
            // im2col from the parameters alone
            let wt = &env["w"].f;
            let mut out = vec![];
            for o in 0..p.c_out {
                for oh in 0..p.out_h {
                    for ow in 0..p.out_w {
                        let mut s = if bias { env["b"].f[o] } else { 0.0 };
                        for i in 0..p.c_in {
                            for a in 0..p.kh {
                                for b in 0..p.kw {
                                    let (yy, xx) = ((oh * p.stride_h + a) as i64 - p.pad_top as i64, (ow * p.stride_w + b) as i64 - p.pad_left as i64);
                                    if yy >= 0 && xx >= 0 && (yy as usize) < h && (xx as usize) < w {
                                        s += x[(i * h + yy as usize) * w + xx as usize] * wt[((o * p.c_in + i) * p.kh + a) * p.kw + b];
                                    }
                                }
                            }
                        }
                        out.push(s);
                    }
                }
            }
            close("Conv", &out, &y.f, &m)?;
            let bottom = (p.out_h - 1) * p.stride_h + p.kh;
            check!(bottom <= h + p.pad_top + p.pad_bottom && (p.out_w - 1) * p.stride_w + p.kw <= w + p.pad_left + p.pad_right, "conv-window", "windows leave the padded input\n{}", m.summary());
            check!(p.pad_top as i64 == pads[0] && p.pad_left as i64 == pads[1] && p.pad_bottom as i64 == pads[2] && p.pad_right as i64 == pads[3], "conv-pads", "pads {:?} read as {} {} {} {}\n{}", pads, p.pad_top, p.pad_left, p.pad_bottom, p.pad_right, m.summary());
            c.ev("conv_accepted");
        }
    }
    // wrong channel count
    if plain {
        let res = lib("ConvParams", || ConvParams::from_layer(&l, ci + 1, h, w))?;
        check!(res.is_err(), "conv-channels", "{} input channels accepted for a weight with {ci}\n{}", ci + 1, m.summary());
        let small = lib("ConvParams", || ConvParams::from_layer(&l, ci, 0, w))?;
        check!(small.is_err() || pads[0] + pads[2] >= kh as i64, "conv-too-small", "a kernel larger than the padded input was accepted\n{}", m.summary());
    }
    c.seen_str(&format!("conv{ci}{co}{h}x{w}k{kh}x{kw}{pads:?}{st:?}{dil:?}{group}{same}"));
    Ok(())
}

fn b09_pool(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let (ci, h, w) = (r.us(1, 3), r.us(1, 8), r.us(1, 8));
    let (mut kh, mut kw) = (r.range(1, 4), r.range(1, 4));
    if r.chance(1, 20) {
        *(if r.bool() { &mut kh } else { &mut kw }) = 0; // no such window
    }
    let mut attrs = vec![("kernel_shape", is_(&[kh, kw]))];
    let mut st = vec![1i64; 2];
    if r.chance(2, 3) {
        st = (0..2).map(|_| r.range(1, 4)).collect();
        attrs.push(("strides", is_(&st)));
    }
    let mut pads = vec![0i64; 4];
    if r.chance(1, 3) {
        pads = (0..4).map(|i| if r.bool() { 0 } else { r.range(0, ([kh, kw][i % 2] - 1).max(0)) }).collect();
        attrs.push(("pads", is_(&pads)));
    }
    let mut dil = vec![1i64; 2];
    if r.chance(1, 4) {
        dil = (0..2).map(|_| r.range(1, 2)).collect();
        attrs.push(("dilations", is_(&dil)));
    }
    let ceil = r.chance(1, 8);
    if ceil {
        attrs.push(("ceil_mode", A::I(1)));
    }
    let same = r.chance(1, 8);
    if same {
        attrs.push(("auto_pad", A::S((*r.pick(&["SAME_UPPER", "SAME_LOWER"])).into())));
    }
    let mut m = M { opsets: vec![(None, 18)], ..M::default() };
    m.inputs.push(io("x", &[1, ci, h, w]));
    m.nodes.push(node("n", "MaxPool", &["x"], &["y"], attrs));
    m.outputs.push(Io { name: "y".into(), dt: F32, dims: None });
    let l = one_layer(c, &m, &mut r)?;
    let fits = h as i64 >= kh && w as i64 >= kw && kh > 0 && kw > 0;
    let plain = pads == [0; 4] && dil == [1, 1] && !ceil && !same && fits;
    c.evals += 1;
    match lib("MaxPoolParams", || MaxPoolParams::from_layer(&l, h, w))? {
        Err(e) => {
            check!(!plain, "pool-refused", "a plain pooling layer was refused: {e}\n{}", m.summary());
            c.ev("pool_refused");
        }
        Ok(p) => {
            check!(kh > 0 && kw > 0, "pool-empty-window", "a pooling layer with an empty {kh}x{kw} window was accepted\n{}", m.summary());
            let x: Vec<f64> = (0..ci * h * w).map(|_| r.sf64()).collect();
            let inp = HashMap::from([("x".to_string(), V::fl(vec![1, ci, h, w], x.clone()))]);
            let Ok(env) = exec::run(&m, &inp) else { return bad("pool-accepted", format!("unsupported pooling accepted\n{}", m.summary())) };
            let y = &env["y"];
            check!(p.input_name == "x" && p.window_size == p.pool_h * p.pool_w, "pool-fields", "name {} window {}\n{}", p.input_name, p.window_size, m.summary());
            check!(y.shape == [1, ci, p.pool_oh, p.pool_ow], "pool-geometry", "parameters say {}x{}, the operator gives {:?}\n{}", p.pool_oh, p.pool_ow, y.shape, m.summary());
            let mut out = vec![];
            for i in 0..ci {
                for oh in 0..p.pool_oh {
                    for ow in 0..p.pool_ow {
                        let mut best = f64::NEG_INFINITY;
                        for a in 0..p.pool_h {
                            for b in 0..p.pool_w {
                                let (yy, xx) = (oh * p.stride_h + a, ow * p.stride_w + b);
                                check!(yy < h && xx < w, "pool-window", "window reads ({yy},{xx}) of {h}x{w}\n{}", m.summary());
                                best = best.max(x[(i * h + yy) * w + xx]);
                            }
                        }
                        out.push(best);
                    }
                }
            }
            close("MaxPool", &out, &y.f, &m)?;
            c.ev("pool_accepted");
        }
    }
    c.seen_str(&format!("pool{ci}{h}x{w}k{kh}x{kw}{pads:?}{st:?}{dil:?}{ceil}{same}"));
    Ok(())
}

fn b09_gemm(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let (mm, k, n) = (r.us(1, 4), r.us(1, 6), r.us(1, 6));
    let (ta, tb) = (r.chance(1, 6), r.bool());
    let mut attrs = vec![];
    if ta || r.chance(1, 3) {
        attrs.push(("transA", A::I(i64::from(ta))));
    }
    if tb || r.chance(1, 3) {
        attrs.push(("transB", A::I(i64::from(tb))));
    }
    let bias = r.bool();
    let mut m = M { opsets: vec![(None, 18)], ..M::default() };
    let xs = if ta { [k, mm] } else { [mm, k] };
    m.inputs.push(io("x", &xs));
    let ws = if tb { [n, k] } else { [k, n] };
    let wv: Vec<f64> = (0..k * n).map(|_| r.sf64()).collect();
    m.inits.push(("w".into(), T::floats(&ws, wv)));
    let mut ins = vec!["x", "w"];
    if bias {
        let bv: Vec<f64> = (0..n).map(|_| r.sf64()).collect();
        m.inits.push(("b".into(), T::floats(&[n], bv)));
        ins.push("b");
    }
    m.nodes.push(node("n", "Gemm", &ins, &["y"], attrs));
    m.outputs.push(Io { name: "y".into(), dt: F32, dims: None });
    let l = one_layer(c, &m, &mut r)?;
    c.evals += 1;
    match lib("GemmParams", || GemmParams::from_layer(&l))? {
        Err(e) => {
            check!(ta, "gemm-refused", "a plain matrix product was refused: {e}\n{}", m.summary());
            c.ev("gemm_refused");
        }
        Ok(p) => {
            check!(!ta || mm == 1 && k == 1, "gemm-transA", "transA accepted although the parameters cannot express it\n{}", m.summary());
            let x: Vec<f64> = (0..mm * k).map(|_| r.sf64()).collect();
            let inp = HashMap::from([("x".to_string(), V::fl(xs.to_vec(), x.clone()))]);
            let env = exec::run(&m, &inp).map_err(|e| Bad { sig: "exec".into(), why: format!("{e:?}") })?;
            check!(p.input_name == "x" && p.weight_tensor_name == "w" && p.bias_tensor_name.as_deref() == if bias { Some("b") } else { None }, "gemm-names", "wrong operand names\n{}", m.summary());
            check!(p.k_dim == k && p.n_dim == n && p.w_rows == ws[0] && p.w_cols == ws[1], "gemm-dims", "k={} n={} rows={} cols={} for weight {ws:?}\n{}", p.k_dim, p.n_dim, p.w_rows, p.w_cols, m.summary());
            let wt = &env["w"].f;
            let mut out = vec![];
            for i in 0..mm {
                for j in 0..p.n_dim {
                    let mut s = if bias { env["b"].f[j] } else { 0.0 };
                    for q in 0..p.k_dim {
                        let at = if p.trans_b { j * p.w_cols + q } else { q * p.w_cols + j };
                        s += x[i * p.k_dim + q] * wt[at];
                    }
                    out.push(s);
                }
            }
            close("Gemm", &out, &env["y"].f, &m)?;
            c.ev("gemm_accepted");
        }
    }
    c.seen_str(&format!("gemm{mm}{k}{n}{ta}{tb}{bias}"));
    Ok(())
}

fn b09_other(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let mut m = M { opsets: vec![(None, 18)], ..M::default() };
    let (n, ch, h) = (r.us(1, 2), r.us(1, 4), r.us(1, 4));
    let xs = vec![n, ch, h];
    m.inputs.push(io("x", &xs));
    m.inputs.push(io("z", &xs));
    let x: Vec<f64> = (0..numel(&xs)).map(|_| r.sf64()).collect();
    let z: Vec<f64> = (0..numel(&xs)).map(|_| r.sf64()).collect();
    let inp = HashMap::from([("x".to_string(), V::fl(xs.clone(), x)), ("z".to_string(), V::fl(xs.clone(), z))]);
    c.evals += 1;
    if r.bool() {
        let op = *r.pick(&["Add", "Sub"]);
        let (a, b) = if r.bool() { ("x", "z") } else { ("z", "x") };
        m.nodes.push(node("n", op, &[a, b], &["y"], vec![]));
        m.outputs.push(Io { name: "y".into(), dt: F32, dims: None });
        let l = one_layer(c, &m, &mut r)?;
        let p = must("AddSubParams", &m, || AddSubParams::from_layer(&l))?;
        let env = exec::run(&m, &inp).map_err(|e| Bad { sig: "exec".into(), why: format!("{e:?}") })?;
        let (Some(u), Some(v)) = (env.get(&p.input_a_name), env.get(&p.input_b_name)) else { return bad("addsub-names", format!("operands {} {}\n{}", p.input_a_name, p.input_b_name, m.summary())) };
        let out: Vec<f64> = u.f.iter().zip(&v.f).map(|(a, b)| if op == "Add" { a + b } else { a - b }).collect();
        close(op, &out, &env["y"].f, &m)?;
        if op == "Add" {
            check!(p.input_a_name == a && p.input_b_name == b, "addsub-names", "operands {} {}\n{}", p.input_a_name, p.input_b_name, m.summary());
        }
        c.ev("addsub");
        c.seen_str(&format!("{op}{a}{xs:?}"));
    } else {
        for (k, nm) in ["s", "b", "mu", "va"].iter().enumerate() {
            let v: Vec<f64> = (0..ch).map(|_| if k == 3 { r.f64() + 0.01 } else { r.sf64() }).collect();
            m.inits.push(((*nm).into(), T::floats(&[ch], v)));
        }
        m.nodes.push(node("n", "BatchNormalization", &["x", "s", "b", "mu", "va"], &["y"], vec![]));
        m.outputs.push(Io { name: "y".into(), dt: F32, dims: None });
        let f = write_model(c, &m, &mut r);
        let (_, mut g) = load(&f.path, &m)?;
        must("compute_max_bound", &m, || quantizer::compute_max_bound(&mut g))?;
        let l = &g.layers[0];
        let p = must("BatchNormParams", &m, || BatchNormParams::from_layer(l))?;
        let env = exec::run(&m, &inp).map_err(|e| Bad { sig: "exec".into(), why: format!("{e:?}") })?;
        check!(p.input_name == "x", "bn-input", "input {}\n{}", p.input_name, m.summary());
        let (Some(mu), Some(ad)) = (l.weights.get(&p.mul_tensor_name), l.weights.get(&p.add_tensor_name)) else { return bad("bn-names", format!("no tensors {} {}\n{}", p.mul_tensor_name, p.add_tensor_name, m.summary())) };
        let out: Vec<f64> = env["x"].f.iter().enumerate().map(|(k, v)| v * mu.float_data[k / h % ch] + ad.float_data[k / h % ch]).collect();
        close("BatchNormalization", &out, &env["y"].f, &m)?;
        c.ev("batchnorm");
        c.seen_str(&format!("bn{xs:?}"));
    }
    Ok(())
}

pub fn spec_b09() -> Spec {
    Spec {
        id: "B09",
        level: "exploration",
        rule: "random Conv, MaxPool, Gemm, BatchNormalization, Add and Sub layers with every attribute; whatever from_layer accepts is computed from the extracted parameters alone (im2col, windows, matrix product) and compared with the operator's executed output; what the parameters cannot express must be refused and plain layers must not be; distinct = (operator, attributes, shapes)",
        assumptions: &["the reference executor implements ONNX", "Gemm with alpha or beta other than 1 is outside"],
        require: &[("conv_accepted", 1000), ("conv_refused", 200), ("pool_accepted", 500), ("pool_refused", 200), ("gemm_accepted", 500), ("gemm_refused", 100), ("addsub", 200), ("batchnorm", 200)],
        families: vec![
            Family { name: "conv", quick: 20_000, thorough: 400_000, f: b09_conv },
            Family { name: "pool", quick: 12_000, thorough: 300_000, f: b09_pool },
            Family { name: "gemm", quick: 9000, thorough: 100_000, f: b09_gemm },
            Family { name: "other", quick: 4500, thorough: 50_000, f: b09_other },
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// B13: the quantized model as an artifact, B14: determinism

fn b13(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let n = r.us(1, 7);
    let g = b05_model(&mut r, n);
    let cfg = pick_scale(&mut r);
    let f = write_model(c, &g.m, &mut r);
    let (parsed, graph) = load(&f.path, &g.m)?;
    let q = match lib("quantize_model", || quantizer::quantize_model(graph.clone(), &cfg))? {
        Ok(q) => q,
        Err(_) => {
            c.ev("refused");
            return Ok(());
        }
    };
    let d = c.scratch();
    let want = jv(&q);
    let comp = r.bool();
    let p = d.join("q.bin");
    let mut back: Vec<(&str, QuantizedModel)> = vec![];
    let bytes = must("serialize_to_bytes", &g.m, || jstprove_io::serialize_to_bytes(&q, comp))?;
    back.push(("bytes", must("deserialize_from_bytes", &g.m, || jstprove_io::deserialize_from_bytes(&bytes))?));
    must("serialize_to_file", &g.m, || jstprove_io::serialize_to_file(&q, &p, comp))?;
    back.push(("file", must("deserialize_from_file", &g.m, || jstprove_io::deserialize_from_file(&p))?));
    if r.chance(1, 3) {
        let dir = d.join("bundle");
        must("write_bundle", &g.m, || jstprove_io::bundle::write_bundle(&dir, b"circuit", b"solver", Some(q.clone()), None, comp))?;
        let b = must("read_bundle", &g.m, || jstprove_io::bundle::read_bundle::<QuantizedModel>(&dir))?;
        match b.metadata {
            Some(m) => back.push(("bundle", m)),
            None => return bad("metadata-lost", "bundle metadata lost".to_string()),
        }
        c.ev("bundles");
    }
    for (how, b) in &back {
        check!(jv(b) == want, "differs", "quantized model read back from {how} differs\n{}", g.m.summary());
        // and it behaves the same: order and shapes
        let (x, y): (Vec<usize>, Vec<usize>) = (q.graph.iter_topo().map(|l| l.id).collect(), b.graph.iter_topo().map(|l| l.id).collect());
        check!(x == y, "order", "execution order differs after {how}\n{}", g.m.summary());
        for (l0, l1) in q.graph.layers.iter().zip(&b.graph.layers) {
            for (k, w) in &l0.weights {
                let w1 = &l1.weights[k];
                let bits = |t: &TensorData| t.float_data.iter().map(|v| v.to_bits()).collect::<Vec<_>>();
                check!(bits(w) == bits(w1) && w.int_data == w1.int_data, "weight-bits", "weight '{k}' differs after {how}\n{}", g.m.summary());
            }
        }
        if let Ok(s0) = lib("infer_all_shapes", || infer_all_shapes(&parsed, &q.graph))? {
            let s1 = must("infer_all_shapes", &g.m, || infer_all_shapes(&parsed, &b.graph))?;
            check!(s0 == s1, "shapes", "inferred shapes differ after {how}\n{}", g.m.summary());
        }
        c.ev(&format!("via_{how}"));
        c.evals += 1;
    }
    // models stored before the widths were recorded still load
    let mut old = serde_json::to_value(&q).expect("serializable");
    if let Some(o) = old.as_object_mut() {
        o.remove("n_bits_config");
    }
    let raw = must("serialize_to_bytes", &g.m, || jstprove_io::serialize_to_bytes(&old, comp))?;
    let b: QuantizedModel = must("deserialize_from_bytes_without_widths", &g.m, || jstprove_io::deserialize_from_bytes(&raw))?;
    check!(b.n_bits_config.is_empty() && jv(&b.graph) == want["graph"], "old-model", "a model without n_bits_config loads differently\n{}", g.m.summary());
    c.ev("without_widths");
    c.seen_str(&format!("{}|{}|{comp}", opkey(&g), cfg.alpha));
    c.sample = Some(json!({"ops": g.ops_used, "bytes": bytes.len()}));
    Ok(())
}

pub fn spec_b13() -> Spec {
    Spec {
        id: "B13",
        level: "exploration",
        rule: "quantized random models are stored and read back through every jstprove_io path (bytes, file, bundle metadata; compressed or not) and compared field by field (floats bit by bit), then ordered and shape-inferred again; models stored without n_bits_config must load; distinct = (operators, scale, compression)",
        assumptions: &["serde_json's canonical form identifies the model (non-finite floats are compared by bits)"],
        require: &[("via_bytes", 500), ("via_file", 500), ("via_bundle", 100), ("without_widths", 500)],
        families: vec![Family { name: "roundtrip", quick: 12_000, thorough: 150_000, f: b13 }],
    }
}

fn b14(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let n = r.us(1, 10);
    let mut g = Gen::new(Rng::new(r.u64()), Cfg { max_numel: 150, ..Cfg::default() });
    g.random_inputs();
    g.grow(n);
    g.finish();
    if r.chance(1, 3) {
        // every name equal: ties must not be broken by hash order
        for x in &mut g.m.nodes {
            if r.bool() {
                x.name = Some("same".into());
            }
        }
    }
    let cfg = pick_scale(&mut r);
    let f = write_model(c, &g.m, &mut r);
    let path = f.path.clone();
    let once = || -> anyhow::Result<Value> {
        let p = jstprove_onnx::parser::parse_onnx(&path)?;
        let gr = LayerGraph::from_parsed(&p)?;
        let sh = infer_all_shapes(&p, &gr).map(|s| jv(&s)).unwrap_or(Value::Null);
        let mut gb = gr.clone();
        let mb = quantizer::compute_max_bound(&mut gb).map(|v| v.to_bits()).unwrap_or(0);
        let q = quantizer::quantize_model(gr.clone(), &cfg).map(|q| jv(&q)).unwrap_or(Value::Null);
        let rep = jstprove_onnx::compat::is_compatible(&path).map(|(ok, mut v)| { v.sort(); (ok, v) }).map_err(|e| e.to_string());
        Ok(json!({
            "inits": jv(&p.initializers), "opset": p.opset_version, "inputs": jv(&p.inputs), "outputs": jv(&p.outputs),
            "nodes": p.nodes.iter().map(|n| json!([n.name, n.op_type, n.inputs, n.outputs, jv(&n.attributes), n.domain])).collect::<Vec<_>>(),
            "graph": jv(&gr), "shapes": sh, "bound": mb, "quantized": q, "compat": format!("{rep:?}"),
        }))
    };
    let a = must("pipeline", &g.m, once)?;
    // again in this thread (new hash seeds), and from several threads at once
    let b = must("pipeline", &g.m, once)?;
    let diff = |x: &Value, y: &Value| -> Option<String> { x.as_object().unwrap().iter().find(|(k, v)| y[k.as_str()] != **v).map(|(k, _)| k.clone()) };
    if let Some(k) = diff(&a, &b) {
        return bad(format!("differs-{k}"), format!("two runs on the same file differ in {k}\n{}", g.m.summary()));
    }
    c.evn("repeats", 1);
    if r.chance(1, 4) {
        let rs: Vec<Value> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..3).map(|_| s.spawn(|| crate::report::guarded(once))).collect();
            hs.into_iter().filter_map(|h| h.join().ok().and_then(Result::ok).and_then(Result::ok)).collect()
        });
        check!(rs.len() == 3, "thread-failed", "a concurrent run failed\n{}", g.m.summary());
        for x in &rs {
            if let Some(k) = diff(&a, x) {
                return bad(format!("differs-{k}"), format!("a concurrent run differs in {k}\n{}", g.m.summary()));
            }
            c.evn("concurrent_repeats", 1);
        }
    }
    // neither does the order in which the file lists nodes and initializers matter to what is computed
    let mut m2 = g.m.clone();
    let mut nodes = std::mem::take(&mut m2.nodes);
    r.shuffle(&mut nodes);
    m2.nodes = nodes;
    let mut inits = std::mem::take(&mut m2.inits);
    r.shuffle(&mut inits);
    m2.inits = inits;
    if m2.nodes.iter().all(|n| n.name.is_some()) {
        let f2 = write_model(c, &m2, &mut r);
        let (p2, g2) = load(&f2.path, &m2)?;
        let sh2 = lib("infer_all_shapes", || infer_all_shapes(&p2, &g2))?;
        if let Ok(s) = &sh2 {
            check!(jv(s) == a["shapes"], "order-shapes", "listing the nodes in another order changes inferred shapes\n{}", g.m.summary());
        } else {
            check!(a["shapes"].is_null(), "order-shapes", "listing the nodes in another order makes shape inference fail\n{}", g.m.summary());
        }
        match lib("quantize_model", || quantizer::quantize_model(g2, &cfg))? {
            Ok(q2) => {
                check!(!a["quantized"].is_null(), "order-quantize", "another node order quantizes, the first one did not\n{}", g.m.summary());
                check!(jv(&q2.n_bits_config) == a["quantized"]["n_bits_config"], "order-widths", "listing the nodes in another order changes the widths: {:?} vs {}\n{}", q2.n_bits_config, a["quantized"]["n_bits_config"], g.m.summary());
            }
            Err(_) => check!(a["quantized"].is_null(), "order-quantize", "listing the nodes in another order makes quantization fail\n{}", g.m.summary()),
        }
        c.ev("reordered");
    }
    c.evals += 1;
    c.seen_str(&format!("{}|{}", opkey(&g), g.m.nodes.len()));
    c.sample = Some(json!({"ops": g.ops_used}));
    Ok(())
}

pub fn spec_b14() -> Spec {
    Spec {
        id: "B14",
        level: "exploration",
        rule: "every random model goes through parse, lowering, shape inference, bound computation, quantization and the compatibility report twice in one thread, in a quarter of the cases three more times from concurrent threads, and once more with nodes and initializers listed in another order; all results are compared in canonical form; hash seeds differ between runs; distinct = (operators, node count)",
        assumptions: &["std's hash maps draw new seeds per map, so iteration order differs between repeats"],
        require: &[("repeats", 1000), ("concurrent_repeats", 300), ("reordered", 200)],
        families: vec![Family { name: "repeat", quick: 12_000, thorough: 150_000, f: b14 }],
    }
}
