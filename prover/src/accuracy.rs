//! C02: the result a proof attests is the model's result, up to quantization.
use crate::complete::{digits_for, low_variance, MULTI};
use crate::e2e::compile;
use crate::pipe::*;
use crate::report::*;
use crate::rng::Rng;
use crate::with_config;
use expander_compiler::frontend::Config;
use jstprove_circuits::runner::main_runner as mr;
use serde_json::json;
use std::collections::HashMap;
use vmodel::exec::{self, V};

/// Largest distance, in grid steps, of one operator's result from the exact one for inputs on the grid.
pub fn tolerance(op: &str) -> f64 {
    match op {
        "Gelu" => 6.0,
        "Pow" | "Exp" => 4.0,
        "LeakyRelu" | "BatchNormalization" | "GridSample" | "LayerNormalization" => 2.0,
        "Log" | "Sqrt" | "Erf" | "Softmax" | "Tanh" | "AveragePool" | "ReduceMean" | "Sigmoid" | "Sin" | "Cos" | "HardSwish" | "GlobalAveragePool" | "Div" | "ConvTranspose" | "MatMul"
        | "Mul" | "Conv" | "Gemm" | "Resize" => 1.0,
        _ => 0.0,
    }
}

/// How far the outputs move when every float value of the graph is off by up to `ulps` grid steps.
/// Every node adds noise of its own tolerance.
pub fn spread(md: &Model, r: &mut Rng, input_ulps: f64) -> Vec<f64> {
    let alpha = f64::from(2u32).powi(md.alpha_bits as i32);
    let base = want_outputs(md);
    let mut dev = vec![0.0f64; base.len()];
    for round in 0..24 {
        let noise = |v: &V, k: f64, r: &mut Rng| -> V {
            let mut v = v.clone();
            if v.is_f() {
                for x in &mut v.f {
                    let s = match round {
                        0 => 1.0,
                        1 => -1.0,
                        2..=15 => if r.chance(1, 2) { 1.0 } else { -1.0 },
                        _ => r.sf64(),
                    };
                    *x += s * k / alpha;
                }
            }
            v
        };
        let mut env: HashMap<String, V> = HashMap::new();
        for i in &md.m.inputs {
            env.insert(i.name.clone(), noise(&md.env[&i.name], input_ulps, r));
        }
        for (n, _) in &md.m.inits {
            env.insert(n.clone(), noise(&md.env[n], input_ulps, r));
        }
        let mut ok = true;
        for n in &md.m.nodes {
            let Ok(o) = exec::run_node(n, &env) else {
                ok = false;
                break;
            };
            for (name, v) in n.outputs.iter().zip(o) {
                if !name.is_empty() {
                    env.insert(name.clone(), noise(&v, tolerance(&n.op), r));
                }
            }
        }
        if !ok {
            continue;
        }
        let got: Vec<f64> = md.m.outputs.iter().flat_map(|o| env[&o.name].floats()).collect();
        for (d, (g, b)) in dev.iter_mut().zip(got.iter().zip(&base)) {
            *d = d.max((g - b).abs());
        }
    }
    dev
}

fn compare<C: Config>(c: &mut Case, md: &Model, meta: &crate::e2e::Meta, cfg: &str, r: &mut Rng, grid: bool) -> R {
    let ops: Vec<&str> = md.m.nodes.iter().map(|n| n.op.as_str()).collect();
    let b = match flatten(compile::<C>(meta)) {
        Ok(b) => b,
        Err(_) => {
            c.ev("refused by the circuit builder");
            return Ok(());
        }
    };
    let acts = acts_of(md);
    let tag = format!("{} at 2^{} over {cfg}; inputs {acts:?}; {}", ops.join("+"), md.alpha_bits, md.m.summary().replace('\n', ";"));
    let Ok(wb) = witness::<C>(&b, meta, &acts, false) else {
        c.ev("no witness (C01)");
        return Ok(());
    };
    let wit = match flatten(guarded(|| mr::load_witness_from_bytes::<C>(&wb.witness))) {
        Ok(w) => w,
        Err(e) => return bad("witness-does-not-load", format!("{e}; {tag}")),
    };
    let lay = match flatten(guarded(|| mr::load_circuit_from_bytes::<C>(&b.circuit))) {
        Ok(w) => w,
        Err(e) => return bad("circuit-does-not-load", format!("{e}; {tag}")),
    };
    if !lay.run(&wit).iter().all(|x| *x) {
        c.ev("unsatisfied (C01)");
        return Ok(());
    }
    let alpha = f64::from(2u32).powi(md.alpha_bits as i32);
    let got: Vec<f64> = wb.output_data.clone().unwrap_or_default().iter().map(|x| *x as f64).collect();
    let want = want_outputs(md);
    crate::check!(got.len() == want.len(), "output-count", "the circuit has {} outputs, the model {}; {tag}", got.len(), want.len());
    let dev = spread(md, r, if grid { 0.0 } else { 0.5 });
    let isf: Vec<bool> = md.m.outputs.iter().flat_map(|o| vec![md.env[&o.name].is_f(); md.env[&o.name].floats().len()]).collect();
    for k in 0..got.len() {
        // index and truth values are exact
        let (e, bound) = if !isf[k] {
            ((got[k] - want[k]).abs(), 0.0)
        } else if ops.len() == 1 {
            ((got[k] / alpha - want[k]).abs() * alpha, tolerance(ops[0]) + 1e-6)
        } else {
            ((got[k] / alpha - want[k]).abs() * alpha, 1.0 + 2.0 * dev[k] * alpha)
        };
        if std::env::var("SHOWERR").is_ok() {
            println!("ERR {} {} {:.3} {e:.3} of {bound:.3}", if ops.len() == 1 { ops[0] } else { "multi" }, md.alpha_bits, e / bound.max(1e-6));
        }
        if e > bound {
            let sig = if ops.len() == 1 { format!("inaccurate-{}", ops[0]) } else { "inaccurate-model".to_string() };
            return bad(sig, format!("output {k} is {} where the model gives {:.4} (quantized {:.2}): off by {e:.2} grid steps, at most {bound:.2} expected; {tag}", got[k], want[k], want[k] * alpha));
        }
    }
    c.ev("compared");
    for o in &ops {
        c.ev(&format!("op {o}"));
    }
    c.seen_str(&tag);
    if c.sample.is_none() {
        c.sample = Some(json!({"ops": ops, "config": cfg, "scale_bits": md.alpha_bits, "got": got.iter().take(4).collect::<Vec<_>>(), "want": want.iter().take(4).map(|w| w * alpha).collect::<Vec<_>>()}));
    }
    Ok(())
}

fn case(c: &mut Case, ops: &[&'static str], steps: usize, digits: u32, cfg: usize, max_numel: usize, grid: bool) -> R {
    let mut r = c.rng.clone();
    for _ in 0..24 {
        let Some(md) = draw(&mut r, &Want { ops, steps, max_numel, digits, amp: if steps == 1 { 1.0 } else { 0.4 }, grid }) else {
            c.ev("draw without a model");
            continue;
        };
        if in_domain(&md.m, &md.env).is_err() {
            c.ev("outside the supported value range");
            continue;
        }
        let Ok(meta) = get_meta(c, &md.m, &mut r, digits) else {
            c.ev("refused by the front end");
            continue;
        };
        if low_variance(&md, &meta) {
            continue;
        }
        if fractional_resize(&md) {
            c.ev("Resize by a scale that is not the ratio of its sizes (recorded finding)");
            continue;
        }
        return with_config!(cfg, C, compare::<C>(c, &md, &meta, CONFIGS[cfg], &mut r, grid));
    }
    Ok(())
}

fn fractional_resize(md: &Model) -> bool {
    md.m.nodes.iter().any(|n| {
        n.op == "Resize"
            && n.inputs.get(2).is_some_and(|s| !s.is_empty())
            && md.env[&n.inputs[0]].shape.iter().zip(md.env[&n.inputs[2]].floats()).any(|(d, s)| (*d as f64 * s - (*d as f64 * s).round()).abs() > 1e-9)
    })
}

/// The recorded finding: Resize uses the ratio of the sizes instead of the scale it is given.
fn recorded(c: &mut Case) -> R {
    let mut r = Rng::new(11);
    for _ in 0..4000 {
        let Some(md) = draw(&mut r, &Want { ops: &["Resize"], steps: 1, max_numel: 12, digits: 4, amp: 1.0, grid: true }) else { continue };
        if !fractional_resize(&md) || in_domain(&md.m, &md.env).is_err() {
            continue;
        }
        let Ok(meta) = get_meta(c, &md.m, &mut r, 4) else { continue };
        match compare::<expander_compiler::frontend::GoldilocksConfig>(c, &md, &meta, "raw", &mut r, true) {
            Err(b) if b.sig == "inaccurate-Resize" => return bad("resize-fractional-scale", b.why),
            _ => continue,
        }
    }
    Ok(())
}

fn single(c: &mut Case) -> R {
    let op = OPS[c.idx as usize % OPS.len()];
    let mut r = Rng::new(c.seed ^ 5);
    let d = digits_for(&[op], &mut r);
    case(c, &[op], 1, d, *r.pick(&[0, 0, 0, 5]), 40, true)
}
fn multi(c: &mut Case) -> R {
    let mut r = Rng::new(c.seed ^ 6);
    let steps = r.us(2, 5);
    let d = *r.pick(&[2, 3, 4, 5]);
    case(c, MULTI, steps, d, 0, 30, r.chance(1, 2))
}

/// A constant operand that has to be whole may be refused, never rounded.
fn fractional(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let op = ["Div", "Pow"][c.idx as usize % 2];
    for _ in 0..24 {
        let Some(mut md) = draw(&mut r, &Want { ops: &[op], steps: 1, max_numel: 12, digits: 4, amp: 1.0, grid: true }) else { continue };
        let name = md.m.nodes[0].inputs[1].clone();
        let Some((_, t)) = md.m.inits.iter_mut().find(|(n, t)| *n == name && !t.f.is_empty()) else { continue };
        let k = r.below(t.f.len());
        t.f[k] = t.f[k].abs().max(1.0).floor() + *r.pick(&[0.25, 0.5, 0.75]);
        let ins: HashMap<String, V> = md.m.inputs.iter().map(|i| (i.name.clone(), md.env[&i.name].clone())).collect();
        let Ok(env) = exec::run(&md.m, &ins) else { continue };
        md.env = env;
        if in_domain(&md.m, &md.env).is_err() {
            continue;
        }
        let Ok(meta) = get_meta(c, &md.m, &mut r, 4) else {
            c.ev("fractional constant refused");
            return Ok(());
        };
        return compare::<expander_compiler::frontend::GoldilocksConfig>(c, &md, &meta, "raw", &mut r, true);
    }
    c.ev("draw without a model");
    Ok(())
}

pub fn c02() -> Spec {
    Spec {
        id: "C02",
        level: "exploration",
        rule: "one execution per honest inference whose circuit outputs are compared with the reference evaluation of the model; distinct by model, scale, configuration and inputs",
        assumptions: &[],
        require: &[("compared", 150)],
        families: vec![
            Family { name: "recorded", quick: 1, thorough: 1, f: recorded },
            Family { name: "single_op", quick: 58 * 12, thorough: 58 * 200, f: single },
            Family { name: "multi_op", quick: 300, thorough: 6000, f: multi },
            Family { name: "fractional", quick: 12, thorough: 60, f: fractional },
        ],
    }
}
