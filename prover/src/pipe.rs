//! Shared parts of the pipeline monitors: models inside the supported domain, compiled circuits,
//! honest inferences.
use crate::e2e::{flat_inputs, metadata, Built, Meta};
use crate::report::*;
use crate::rng::Rng;
use expander_compiler::frontend::{CircuitField, Config};
use std::collections::HashMap;
use vmodel::exec::{self, V};
use vmodel::gen::{Cfg, Gen};
use vmodel::ir::{Dim, A, M, N, T};

/// Operators the circuit back end lowers.
pub const OPS: &[&str] = &[
    "Add", "Div", "Sub", "Mul", "Gemm", "Conv", "Relu", "MaxPool", "BatchNormalization", "Max", "Min", "Clip", "Exp",
    "Reshape", "Flatten", "Squeeze", "Unsqueeze", "Softmax", "Sigmoid", "Gelu", "Tile", "Gather",
    "LayerNormalization", "Resize", "GridSample", "Transpose", "Concat", "Slice", "TopK", "Log", "Expand",
    "ReduceMean", "MatMul", "AveragePool", "Pad", "Split", "Where", "Pow", "Sqrt", "Tanh", "ReduceSum", "Erf",
    "ConvTranspose", "LeakyRelu", "Identity", "Neg", "HardSwish", "GlobalAveragePool", "Equal", "Greater", "Less",
    "And", "Not", "Sin", "Cos", "ReduceMax", "ScatterND", "GatherElements",
];
/// Operators that need a table per element: slow, so they get fewer elements and smaller scales.
pub const LOOKUP: &[&str] = &[
    "Exp", "Softmax", "Sigmoid", "Gelu", "LayerNormalization", "Log", "Pow", "Sqrt", "Tanh", "Erf", "HardSwish", "Sin", "Cos", "GridSample",
];
/// Results the circuit keeps as unscaled integers or booleans.
pub const UNSCALED: &[&str] = &["Equal", "Greater", "Less", "And", "Not", "Cast", "Shape", "ConstantOfShape", "Range"];

pub fn set_attr(n: &mut N, k: &str, v: A) {
    n.attrs.retain(|(x, _)| x != k);
    n.attrs.push((k.to_string(), v));
}

/// Spell out attributes the circuit builder insists on.
pub fn friendly(m: &mut M, r: &mut Rng, env: &HashMap<String, V>) {
    let inits: HashMap<String, T> = m.inits.iter().cloned().collect();
    let mut div_consts = vec![];
    for n in &mut m.nodes {
        match n.op.as_str() {
            "Conv" | "ConvTranspose" => {
                let w = env[&n.inputs[1]].shape.clone();
                let k = w.len() - 2;
                if n.ais("kernel_shape").is_none() {
                    set_attr(n, "kernel_shape", A::Is(w[2..].iter().map(|&d| d as i64).collect()));
                }
                if n.ais("strides").is_none() {
                    set_attr(n, "strides", A::Is(vec![1; k]));
                }
                if n.ais("dilations").is_none() {
                    set_attr(n, "dilations", A::Is(vec![1; k]));
                }
                if n.ais("pads").is_none() && n.as_("auto_pad").is_none_or(|a| a == "NOTSET" || a == "VALID") {
                    set_attr(n, "pads", A::Is(vec![0; 2 * k]));
                }
                if n.attr("group").is_none() {
                    set_attr(n, "group", A::I(1));
                }
            }
            "Gelu" => set_attr(n, "approximate", A::S("tanh".into())),
            "Div" => {
                if inits.contains_key(&n.inputs[1]) {
                    div_consts.push(n.inputs[1].clone());
                }
            }
            _ => {}
        }
    }
    for (name, t) in &mut m.inits {
        if div_consts.contains(name) {
            for v in &mut t.f {
                *v = *r.pick(&[1.0, 2.0, 3.0, 4.0, 5.0, 7.0, 10.0]);
            }
        }
    }
}

pub fn snap(x: f64, alpha: f64) -> f64 {
    (x * alpha).round() / alpha
}

pub struct Model {
    pub m: M,
    pub env: HashMap<String, V>,
    pub alpha_bits: u32,
    pub digits: u32,
}

pub fn static_shapes(m: &mut M, env: &HashMap<String, V>) {
    let inits: std::collections::HashSet<String> = m.inits.iter().map(|(n, _)| n.clone()).collect();
    m.inputs.retain(|i| !inits.contains(&i.name));
    for o in m.outputs.iter_mut().chain(m.inputs.iter_mut()) {
        o.dims = Some(env[&o.name].shape.iter().map(|&d| Dim::V(d as i64)).collect());
    }
}

pub fn bits_of(digits: u32) -> u32 {
    match digits {
        2 => 7,
        3 => 10,
        4 => 14,
        _ => 17,
    }
}

pub struct Want<'a> {
    pub ops: &'a [&'static str],
    pub steps: usize,
    pub max_numel: usize,
    pub digits: u32,
    pub amp: f64,
    /// float constants and inputs on the quantization grid
    pub grid: bool,
}

/// Is every value an operator consumes inside the range the circuit claims to support?
pub fn in_domain(m: &M, env: &HashMap<String, V>) -> Result<(), String> {
    let consts: std::collections::HashSet<&str> = m.inits.iter().map(|(n, _)| n.as_str()).collect();
    for n in &m.nodes {
        for (k, i) in n.inputs.iter().enumerate() {
            if i.is_empty() {
                continue;
            }
            let Some(v) = env.get(i) else { continue };
            if !v.is_f() {
                continue;
            }
            let f = v.floats();
            if f.iter().any(|x| !x.is_finite()) {
                return Err(format!("{}: non-finite", n.op));
            }
            if !consts.contains(i.as_str()) && f.iter().any(|x| x.abs() > 1.0) {
                return Err(format!("{}: input beyond [-1,1]", n.op));
            }
            if k == 0 {
                let lo = f.iter().copied().fold(f64::INFINITY, f64::min);
                let need = match n.op.as_str() {
                    "Log" | "Sqrt" => Some(0.05),
                    "AveragePool" | "GridSample" | "GlobalAveragePool" => Some(0.0),
                    "Pow" => Some(0.3),
                    _ => None,
                };
                let linear = n.op == "Resize" && matches!(n.attr("mode"), Some(vmodel::ir::A::S(s)) if s == "linear");
                let need = if linear { Some(0.0) } else { need };
                if need.is_some_and(|x| lo < x) {
                    return Err(format!("{}: input below its domain", n.op));
                }
            }
        }
    }
    for o in &m.outputs {
        if env[&o.name].floats().iter().any(|x| !x.is_finite() || x.abs() > 1e4) {
            return Err("output too large".into());
        }
    }
    Ok(())
}

/// A model of the wanted operators, or None when the draw did not work out.
pub fn draw(r: &mut Rng, w: &Want) -> Option<Model> {
    let lookup = w.ops.iter().any(|o| LOOKUP.contains(o));
    let cfg = Cfg {
        ops: w.ops.to_vec(),
        fold: false,
        const_nodes: false,
        batch_one: true,
        sampling: true,
        amp: w.amp,
        max_numel: if lookup { w.max_numel.min(8) } else { w.max_numel },
        max_rank: 4,
        min_rank: 2,
        ..Cfg::default()
    };
    let mut g = Gen::new(Rng::new(r.u64()), cfg);
    g.random_inputs();
    let mut done = 0;
    let mut tries = 0;
    while done < w.steps && tries < 40 * w.steps {
        tries += 1;
        let op = *g.r.pick(w.ops);
        if g.step(op) {
            done += 1;
        }
    }
    if done < w.steps {
        return None;
    }
    g.finish();
    let alpha = f64::from(2u32.pow(bits_of(w.digits)));
    let mut m = g.m.clone();
    friendly(&mut m, r, &g.env);
    let env0 = g.env.clone();
    static_shapes(&mut m, &env0);
    if w.grid {
        for (_, t) in &mut m.inits {
            for v in &mut t.f {
                *v = snap(*v, alpha);
            }
        }
    }
    let positive = m.nodes.iter().any(|n| matches!(n.op.as_str(), "Log" | "Sqrt" | "AveragePool" | "GridSample" | "GlobalAveragePool" | "Pow")) || r.chance(1, 4);
    let mut ins = HashMap::new();
    for i in &m.inputs {
        let mut v = env0[&i.name].clone();
        for x in &mut v.f {
            let mut y = match r.below(12) {
                0 => 0.0,
                1 => 1.0,
                2 => -1.0,
                _ => r.sf64(),
            };
            if positive {
                y = y.abs().max(0.35);
            }
            *x = if w.grid { snap(y, alpha) } else { f64::from(y as f32) };
        }
        ins.insert(i.name.clone(), v);
    }
    let env = exec::run(&m, &ins).ok()?;
    for o in &m.outputs {
        if env[&o.name].shape != env0[&o.name].shape {
            return None;
        }
    }
    Some(Model { m, env, alpha_bits: bits_of(w.digits), digits: w.digits })
}

pub fn get_meta(c: &Case, m: &M, r: &mut Rng, digits: u32) -> Result<Meta, String> {
    match metadata(c, m, r, Some(digits)) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(e.replace('\n', " ")),
        Err(p) => Err(format!("panic: {}", p.replace('\n', " "))),
    }
}

pub fn flatten<T, E: std::fmt::Debug>(x: Result<Result<T, E>, String>) -> Result<T, String> {
    match x {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("{e:?}").replace('\n', " ")),
        Err(p) => Err(format!("panic: {}", p.replace('\n', " "))),
    }
}

pub fn witness<C: Config>(b: &Built, meta: &Meta, acts: &[f64], compress: bool) -> Result<jstprove_circuits::runner::schema::WitnessBundle, String> {
    flatten(guarded(|| jstprove_circuits::onnx::witness_from_f64_generic::<C>(&b.circuit, &b.solver, &meta.params, acts, &[], compress)))
}

pub fn acts_of(md: &Model) -> Vec<f64> {
    flat_inputs(&md.m, &md.env)
}

pub fn want_outputs(md: &Model) -> Vec<f64> {
    md.m.outputs.iter().flat_map(|o| md.env[&o.name].floats()).collect()
}

pub fn field_signed<C: Config>(x: CircuitField<C>) -> f64 {
    use expander_compiler::field::FieldArith;
    let p = <CircuitField<C> as FieldArith>::MODULUS;
    let v = x.to_u256();
    if v > p / 2 {
        -((p - v).as_f64())
    } else {
        v.as_f64()
    }
}

/// The proof configurations by name.
#[macro_export]
macro_rules! with_config {
    ($k:expr, $C:ident, $body:expr) => {{
        use expander_compiler::frontend as fe;
        match $k {
            0 => { type $C = fe::GoldilocksConfig; $body }
            1 => { type $C = fe::GoldilocksBasefoldConfig; $body }
            2 => { type $C = fe::GoldilocksWhirConfig; $body }
            3 => { type $C = fe::GoldilocksWhirPQConfig; $body }
            4 => { type $C = fe::GoldilocksExt2BasefoldConfig; $body }
            _ => { type $C = fe::BN254Config; $body }
        }
    }};
}
pub const CONFIGS: [&str; 6] = ["raw", "basefold", "whir", "whir-pq", "ext2-basefold", "bn254"];
