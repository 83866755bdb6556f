//! C01: an honest inference is provable. C02: what is proved is the model's result.
use crate::e2e::compile;
use crate::pipe::*;
use crate::report::*;
use crate::rng::{hash_str, Rng};
use crate::with_config;
use expander_compiler::frontend::Config;
use jstprove_circuits::runner::main_runner as mr;
use jstprove_circuits::runner::verify_extract as ve;
use serde_json::json;

/// Compile, solve, check the constraints, prove, verify, extract.
fn honest<C: Config>(c: &mut Case, md: &Model, meta: &crate::e2e::Meta, cfg: &str, r: &mut Rng) -> R {
    let ops: Vec<&str> = md.m.nodes.iter().map(|n| n.op.as_str()).collect();
    let b = match flatten(compile::<C>(meta)) {
        Ok(b) => b,
        Err(e) => {
            c.ev("refused by the circuit builder");
            if std::env::var("SHOWREF").is_ok() { println!("REFUSED {ops:?} {e}"); }
            return Ok(());
        }
    };
    let acts = acts_of(md);
    let compress = r.chance(1, 4);
    let tag = format!("{} at 2^{} over {cfg}; {}", ops.join("+"), md.alpha_bits, md.m.summary().replace('\n', ";"));
    let wb = match witness::<C>(&b, meta, &acts, compress) {
        Ok(w) => w,
        Err(e) => return bad(format!("no-witness-{}", ops.last().unwrap_or(&"")), format!("no witness for an honest inference: {e}; {tag}")),
    };
    let wit = match flatten(guarded(|| mr::load_witness_from_bytes::<C>(&wb.witness))) {
        Ok(w) => w,
        Err(e) => return bad("witness-does-not-load", format!("{e}; {tag}")),
    };
    let lay = match flatten(guarded(|| mr::load_circuit_from_bytes::<C>(&b.circuit))) {
        Ok(w) => w,
        Err(e) => return bad("circuit-does-not-load", format!("{e}; {tag}")),
    };
    let sat = lay.run(&wit);
    crate::check!(sat.iter().all(|x| *x), format!("unsatisfied-{}", ops.last().unwrap_or(&"")), "an honest inference does not satisfy its circuit; inputs {acts:?}; {tag}");
    let proof = match flatten(guarded(|| mr::prove_from_bytes::<C>(&b.circuit, &wb.witness, compress))) {
        Ok(p) => p,
        Err(e) => return bad(format!("no-proof-{cfg}"), format!("{e}; {tag}")),
    };
    match flatten(guarded(|| mr::verify_from_bytes::<C>(&b.circuit, &wb.witness, &proof))) {
        Ok(true) => {}
        Ok(false) => return bad(format!("honest-proof-rejected-{cfg}"), tag),
        Err(e) => return bad(format!("honest-proof-error-{cfg}"), format!("{e}; {tag}")),
    }
    let n = acts.len();
    let v = match flatten(guarded(|| ve::verify_and_extract_from_bytes::<C>(&b.circuit, &wb.witness, &proof, n, Some(&acts)))) {
        Ok(v) => v,
        Err(e) => return bad(format!("extract-error-{cfg}"), format!("{e}; {tag}")),
    };
    crate::check!(v.valid, format!("extract-invalid-{cfg}"), "{tag}");
    let alpha = f64::from(2u32).powi(md.alpha_bits as i32);
    crate::check!(v.scale_base == 2 && v.scale_exponent == u64::from(md.alpha_bits), "extracted-scale", "extracted scale {}^{}; {tag}", v.scale_base, v.scale_exponent);
    let out = wb.output_data.clone().unwrap_or_default();
    crate::check!(v.outputs.len() == out.len() && v.outputs.iter().zip(&out).all(|(a, b)| *a == *b as f64 / alpha), "extracted-outputs", "extracted {:?}, witness says {out:?}; {tag}", v.outputs);
    crate::check!(v.inputs.len() == n && v.inputs.iter().zip(&acts).all(|(a, b)| (a - b).abs() <= 1.0 / alpha), "extracted-inputs", "extracted {:?}, gave {acts:?}; {tag}", v.inputs);
    c.ev("proved, verified and extracted");
    c.ev(&format!("config {cfg}"));
    for o in &ops {
        c.ev(&format!("op {o}"));
    }
    c.seen_str(&format!("{tag}{acts:?}"));
    if c.sample.is_none() {
        c.sample = Some(json!({"ops": ops, "config": cfg, "scale_bits": md.alpha_bits, "proof_bytes": proof.len(), "outputs": v.outputs.iter().take(4).collect::<Vec<_>>()}));
    }
    Ok(())
}

/// A LayerNormalization lane whose 1/std does not fit the width of the output (a recorded finding).
pub fn low_variance(md: &Model, meta: &crate::e2e::Meta) -> bool {
    let alpha = f64::from(2u32).powi(md.alpha_bits as i32);
    let mut k = 0;
    let bits: Vec<usize> = meta
        .arch
        .architecture
        .iter()
        .filter(|l| l.op_type == "LayerNormalization")
        .map(|l| meta.params.n_bits_config.get(&l.name).copied().unwrap_or(0))
        .collect();
    for n in &md.m.nodes {
        if n.op != "LayerNormalization" {
            continue;
        }
        let nb = bits.get(k).copied().unwrap_or(0);
        k += 1;
        let x = &md.env[&n.inputs[0]];
        let lane = md.env[&n.inputs[1]].floats().len().max(1);
        let f: Vec<f64> = x.floats();
        for l in f.chunks(lane) {
            let mean = l.iter().sum::<f64>() / l.len() as f64;
            let std = (l.iter().map(|v| (v - mean).powi(2)).sum::<f64>() / l.len() as f64).sqrt();
            if nb == 0 || alpha / std.max(1e-9) >= 0.95 * 2f64.powi(nb as i32) {
                return true;
            }
        }
    }
    false
}

fn c01_case(c: &mut Case, ops: &[&'static str], steps: usize, digits: u32, cfg: usize, max_numel: usize) -> R {
    let mut r = c.rng.clone();
    for _ in 0..24 {
        let Some(md) = draw(&mut r, &Want { ops, steps, max_numel, digits, amp: if steps == 1 { 1.0 } else { 0.4 }, grid: false }) else {
            c.ev("draw without a model");
            continue;
        };
        if let Err(_e) = in_domain(&md.m, &md.env) {
            c.ev("outside the supported value range");
            continue;
        }
        let meta = match get_meta(c, &md.m, &mut r, digits) {
            Ok(x) => x,
            Err(e) => {
                c.ev("refused by the front end");
                if std::env::var("SHOWREF").is_ok() { println!("REFUSED-META {:?} {e}", md.m.nodes.iter().map(|n| n.op.as_str()).collect::<Vec<_>>()); }
                continue;
            }
        };
        if low_variance(&md, &meta) {
            c.ev("lane of low variance (recorded finding)");
            continue;
        }
        return with_config!(cfg, C, honest::<C>(c, &md, &meta, CONFIGS[cfg], &mut r));
    }
    Ok(())
}

pub fn digits_for(ops: &[&str], r: &mut Rng) -> u32 {
    if ops.iter().any(|o| matches!(*o, "Sin" | "Cos")) {
        *r.pick(&[2, 3])
    } else if ops.iter().any(|o| matches!(*o, "Sqrt" | "Log")) {
        4
    } else if ops.iter().any(|o| LOOKUP.contains(o)) {
        *r.pick(&[3, 4])
    } else {
        *r.pick(&[2, 3, 4, 5])
    }
}

fn single(c: &mut Case) -> R {
    let op = OPS[c.idx as usize % OPS.len()];
    let mut r = Rng::new(c.seed ^ 5);
    let d = digits_for(&[op], &mut r);
    let cfg = (c.idx as usize / OPS.len() + c.idx as usize) % 5;
    c01_case(c, &[op], 1, d, cfg, 40)
}
pub const MULTI: &[&str] = &[
    "Add", "Sub", "Mul", "Gemm", "Conv", "Relu", "MaxPool", "Reshape", "Flatten", "Squeeze", "Unsqueeze", "Transpose", "Concat", "Slice", "Gather",
    "MatMul", "Pad", "Split", "ReduceSum", "ReduceMean", "Neg", "LeakyRelu", "Identity", "Tile", "Expand", "Clip", "Max", "Min", "Div", "ReduceMax", "BatchNormalization",
];
fn multi(c: &mut Case) -> R {
    let mut r = Rng::new(c.seed ^ 6);
    let steps = r.us(2, 5);
    let d = *r.pick(&[2, 3, 4, 5]);
    let cfg = r.below(5);
    c01_case(c, MULTI, steps, d, cfg, 30)
}
fn multi_lookup(c: &mut Case) -> R {
    let mut r = Rng::new(c.seed ^ 7);
    let mut ops = vec![*r.pick(&["Softmax", "Sigmoid", "Gelu", "Exp", "Tanh", "Erf", "HardSwish", "LayerNormalization"])];
    ops.extend_from_slice(&["Add", "Gemm", "MatMul", "Relu", "Reshape", "Sub"]);
    let d = *r.pick(&[3, 4]);
    let cfg = r.below(5);
    c01_case(c, &ops, r.us(2, 3), d, cfg, 8)
}
fn bn254(c: &mut Case) -> R {
    let mut r = Rng::new(c.seed ^ 8);
    let d = *r.pick(&[2, 3, 4, 5]);
    c01_case(c, MULTI, r.us(1, 2), d, 5, 12)
}

/// The recorded finding: a LayerNormalization lane of low variance has no proof.
fn recorded(c: &mut Case) -> R {
    let mut r = Rng::new(3);
    for _ in 0..4000 {
        let Some(md) = draw(&mut r, &Want { ops: &["LayerNormalization"], steps: 1, max_numel: 8, digits: 4, amp: 1.0, grid: true }) else { continue };
        let n = md.m.nodes[0].clone();
        let lane = md.env[&n.inputs[1]].floats().len();
        if lane != 2 || md.env[&n.inputs[0]].floats().len() != 2 {
            continue;
        }
        let mut ins: std::collections::HashMap<String, vmodel::exec::V> = md.m.inputs.iter().map(|i| (i.name.clone(), md.env[&i.name].clone())).collect();
        ins.get_mut(&n.inputs[0]).expect("input").f = vec![0.25, 0.28125];
        let Ok(env) = vmodel::exec::run(&md.m, &ins) else { continue };
        let md = Model { m: md.m, env, alpha_bits: md.alpha_bits, digits: md.digits };
        let meta = match get_meta(c, &md.m, &mut r, 4) {
            Ok(x) => x,
            Err(_) => continue,
        };
        if !low_variance(&md, &meta) {
            continue;
        }
        return match honest::<expander_compiler::frontend::GoldilocksConfig>(c, &md, &meta, "raw", &mut r) {
            Err(b) if b.sig == "unsatisfied-LayerNormalization" => bad("layernorm-low-variance", b.why),
            x => x,
        };
    }
    c.ev("the recorded model could not be drawn");
    Ok(())
}

pub fn c01() -> Spec {
    Spec {
        id: "C01",
        level: "exploration",
        rule: "one execution per honest inference taken from model file to extracted result; distinct by model, scale, configuration and inputs",
        assumptions: &[
            "elliptic-curve groups are replaced by an ideal group model (BN254 only); every other stand-in has the same behaviour as the missing crate",
            "inputs of every operator lie in [-1,1] (the range the bit widths are derived from) and in the operator's documented domain",
        ],
        require: &[("proved, verified and extracted", 150), ("config raw", 10), ("config basefold", 10), ("config whir", 10), ("config whir-pq", 10), ("config ext2-basefold", 10)],
        families: vec![
            Family { name: "recorded", quick: 1, thorough: 1, f: recorded },
            Family { name: "single_op", quick: 56 * 5, thorough: 56 * 60, f: single },
            Family { name: "multi_op", quick: 120, thorough: 2500, f: multi },
            Family { name: "multi_lookup", quick: 16, thorough: 300, f: multi_lookup },
            Family { name: "bn254", quick: 12, thorough: 200, f: bn254 },
        ],
    }
}
