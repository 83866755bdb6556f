//! B03, B04, B15: shape inference against the reference executor.
use super::common::*;
use super::gen::{Cfg, Gen, ALL_OPS};
use super::ir::*;
use crate::report::{bad, Bad, Case, Family, Spec, R};
use jstprove_onnx::quantizer::{self, ScaleConfig};
use jstprove_onnx::shape_inference::infer_all_shapes;
use serde_json::json;
use std::collections::HashMap;

/// the operator producing tensor `n`
fn producer<'a>(m: &'a M, n: &str) -> &'a str {
    m.nodes.iter().find(|x| x.outputs.iter().any(|o| o == n)).map_or("-", |x| x.op.as_str())
}

fn compare(g: &Gen, what: &str, shapes: &HashMap<String, Vec<usize>>) -> Result<usize, Bad> {
    let mut n = 0;
    let mut names: Vec<&String> = vec![];
    for nd in &g.m.nodes {
        names.extend(nd.outputs.iter().filter(|o| !o.is_empty()));
    }
    names.extend(g.m.inits.iter().map(|x| &x.0));
    names.extend(g.m.inputs.iter().map(|x| &x.name));
    for o in names {
        let Some(v) = g.env.get(o) else { continue };
        let op = producer(&g.m, o);
        match shapes.get(o.as_str()) {
            None => return bad(format!("missing-{op}"), format!("{what}: no shape for tensor '{o}' of {op}\n{}", g.m.summary())),
            Some(s) if *s != v.shape => {
                return bad(format!("wrong-{op}"), format!("{what}: tensor '{o}' of {op}: inferred {s:?}, executed {:?}\n{}", v.shape, g.m.summary()))
            }
            _ => n += 1,
        }
    }
    Ok(n)
}

fn run_case(c: &mut Case, mut g: Gen) -> R {
    g.finish();
    let mut r = c.rng.clone();
    let f = write_model(c, &g.m, &mut r);
    let (parsed, graph) = load(&f.path, &g.m)?;
    let shapes = if g.cfg.partial {
        match lib("infer_all_shapes", || infer_all_shapes(&parsed, &graph))? {
            Ok(s) => {
                c.ev("partial_evaluated");
                s
            }
            Err(_) => {
                c.evals += 1;
                c.ev("partial_refused");
                return Ok(());
            }
        }
    } else {
        must("infer_all_shapes", &g.m, || infer_all_shapes(&parsed, &graph))?
    };
    let n = compare(&g, "infer_all_shapes", &shapes)?;
    c.evn("tensors_compared", n as u64);
    c.evals += n as u64;
    for o in &g.ops_used {
        c.ev(&format!("op_{o}"));
    }
    for o in &g.fold_ops {
        c.ev(&format!("fold_{o}"));
    }
    // the shapes the compiler uses are those of the quantized graph
    if r.chance(1, 2) {
        if let Ok(q) = lib("quantize_model", || quantizer::quantize_model(graph, &ScaleConfig::new(2, 16)))? {
            let shapes = must("infer_all_shapes_quantized", &g.m, || infer_all_shapes(&parsed, &q.graph))?;
            let n = compare(&g, "infer_all_shapes on the quantized graph", &shapes)?;
            c.evn("tensors_compared_after_quantize", n as u64);
        }
    }
    let ranks: Vec<String> = g.m.nodes.iter().filter(|n| n.op != "Constant").map(|n| format!("{}{:?}", n.op, g.env.get(&n.outputs[0]).map(|v| v.shape.clone()))).collect();
    c.seen_str(&ranks.join(";"));
    c.sample = Some(json!({"ops": g.ops_used, "model": g.m.summary()}));
    Ok(())
}

fn b03_random(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let cfg = Cfg { fold: false, ..Cfg::default() };
    let mut g = Gen::new(crate::rng::Rng::new(r.u64()), cfg);
    g.random_inputs();
    let n = r.us(1, 10);
    g.grow(n);
    run_case(c, g)
}

/// every operator in turn, on fresh inputs of varying rank
fn b03_each(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let op = ALL_OPS[c.idx as usize % ALL_OPS.len()];
    let cfg = Cfg { fold: false, ..Cfg::default() };
    for _ in 0..30 {
        let mut g = Gen::new(crate::rng::Rng::new(r.u64()), cfg.clone());
        if op == "Gemm" {
            g.cfg.min_rank = 2;
            g.cfg.max_rank = 2;
        }
        g.random_inputs();
        if matches!(op, "Not" | "And" | "Where") {
            g.step("Greater");
            g.step("Less");
        }
        if g.step(op) {
            return run_case(c, g);
        }
    }
    bad("generator", format!("harness: no model with {op}"))
}

/// attributes that ask for implicit padding or partial windows: right shape or a refusal
fn b03_window(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let op = *r.pick(&["Conv", "MaxPool", "AveragePool", "ConvTranspose"]);
    let sp = r.us(1, 3);
    let dims: Vec<usize> = (0..sp).map(|_| r.us(1, 9)).collect();
    let k: Vec<usize> = dims.iter().map(|&d| r.us(1, d.min(4))).collect();
    let st: Vec<usize> = (0..sp).map(|_| r.us(1, 3)).collect();
    let dil: Vec<usize> = (0..sp).map(|_| if r.chance(1, 4) { 2 } else { 1 }).collect();
    let (n, ci, co) = (r.us(1, 2), r.us(1, 3), r.us(1, 3));
    let auto = *r.pick(&["SAME_UPPER", "SAME_LOWER", "VALID", "NOTSET", ""]);
    let pool = op.ends_with("Pool");
    let ceil = pool && r.bool();
    let is = |v: &[usize]| A::Is(v.iter().map(|&x| x as i64).collect());
    let mut attrs = vec![("kernel_shape", is(&k)), ("strides", is(&st))];
    if !auto.is_empty() {
        attrs.push(("auto_pad", A::S(auto.into())));
    }
    if dil.iter().any(|&d| d != 1) {
        attrs.push(("dilations", is(&dil)));
    }
    if ceil {
        attrs.push(("ceil_mode", A::I(1)));
    }
    let mut pads = vec![0usize; 2 * sp];
    if matches!(auto, "" | "NOTSET") && r.bool() {
        for (i, p) in pads.iter_mut().enumerate() {
            *p = r.us(0, k[i % sp] - 1);
        }
        attrs.push(("pads", is(&pads)));
    }
    let mut want = vec![n, if pool { ci } else { co }];
    for i in 0..sp {
        let e = (k[i] - 1) * dil[i] + 1;
        let same = auto.starts_with("SAME");
        let d = if op == "ConvTranspose" {
            if same {
                dims[i] * st[i]
            } else {
                let v = (st[i] * (dims[i] - 1) + e) as i64 - (pads[i] + pads[sp + i]) as i64;
                if v <= 0 {
                    c.ev("skipped_empty");
                    return Ok(());
                }
                v as usize
            }
        } else if same {
            dims[i].div_ceil(st[i])
        } else {
            let padded = dims[i] + pads[i] + pads[sp + i];
            if padded < e {
                c.ev("skipped_empty");
                return Ok(());
            }
            let o = if ceil { (padded - e).div_ceil(st[i]) + 1 } else { (padded - e) / st[i] + 1 };
            if ceil && (o - 1) * st[i] >= dims[i] + pads[i] {
                // a window starting in the padding: the specification changed its mind on these
                c.ev("skipped_ambiguous");
                return Ok(());
            }
            o
        };
        want.push(d);
    }
    let mut m = M { opsets: vec![(None, 18)], ..M::default() };
    let mut xs = vec![n, ci];
    xs.extend(&dims);
    m.inputs.push(io("x", &xs));
    let mut ins = vec!["x"];
    if !pool {
        let mut ws = if op == "Conv" { vec![co, ci] } else { vec![ci, co] };
        ws.extend(&k);
        m.inits.push(("w".into(), T::floats(&ws, vec![0.5; ws.iter().product()])));
        ins.push("w");
    }
    m.nodes.push(node("n", op, &ins, &["y"], attrs));
    m.outputs.push(Io { name: "y".into(), dt: F32, dims: None });
    let f = write_model(c, &m, &mut r);
    let (parsed, graph) = load(&f.path, &m)?;
    c.evals += 1;
    c.ev(&format!("window_{op}_{}{}", if auto.is_empty() { "default" } else { auto }, if ceil { "_ceil" } else { "" }));
    match lib("infer_all_shapes", || infer_all_shapes(&parsed, &graph))? {
        Ok(s) => {
            let got = s.get("y");
            if got != Some(&want) {
                return bad(format!("window-{op}"), format!("{op} inferred {got:?}, ONNX says {want:?}\n{}", m.summary()));
            }
            c.ev("window_accepted");
        }
        Err(e) => {
            let plain = !auto.starts_with("SAME") && !ceil;
            if plain {
                return bad(format!("window-refused-{op}"), format!("{op} with explicit padding refused: {e}\n{}", m.summary()));
            }
            c.ev("window_refused");
        }
    }
    c.seen_str(&format!("{op}{xs:?}{k:?}{st:?}{dil:?}{pads:?}{auto}{ceil}"));
    Ok(())
}

fn b04_each(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    const OPS: &[&str] = &["Reshape", "Expand", "ConstantOfShape", "Range", "Tile", "Slice", "Unsqueeze", "Squeeze", "Pad", "Split", "TopK", "Resize", "ReduceSum", "ReduceMean", "ReduceMax"];
    let op = OPS[c.idx as usize % OPS.len()];
    for _ in 0..60 {
        let mut g = Gen::new(crate::rng::Rng::new(r.u64()), Cfg::default());
        g.random_inputs();
        if g.step(op) && !g.fold_ops.is_empty() {
            return run_case(c, g);
        }
    }
    c.ev("no_folded_parameter");
    Ok(())
}

/// arithmetic the library may leave unevaluated: the right size or a refusal
fn b04_partial(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    const OPS: &[&str] = &["Reshape", "Expand", "ConstantOfShape", "Range", "Tile", "Unsqueeze", "Squeeze", "Pad", "Split", "TopK", "Resize", "ReduceSum"];
    let op = OPS[c.idx as usize % OPS.len()];
    for _ in 0..60 {
        let mut g = Gen::new(crate::rng::Rng::new(r.u64()), Cfg { partial: true, ..Cfg::default() });
        g.random_inputs();
        if g.step(op) && !g.fold_ops.is_empty() {
            return run_case(c, g);
        }
    }
    c.ev("no_folded_parameter");
    Ok(())
}

fn b04_random(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let mut g = Gen::new(crate::rng::Rng::new(r.u64()), Cfg::default());
    g.random_inputs();
    let n = r.us(1, 8);
    g.grow(n);
    run_case(c, g)
}

/// rules whose breach the inference must refuse
const REJECT: &[&str] = &[
    "broadcast", "inner_dim", "axis", "duplicate_axis", "reshape_count", "reshape_two_holes", "reshape_negative", "reshape_copy_range",
    "kernel_too_big", "split_sizes", "split_uneven", "squeeze_not_one", "concat_mismatch", "pad_len", "topk_k", "perm", "slice_len",
    "slice_step_zero", "tile_len", "tile_negative", "range_delta", "gridsample", "cos_negative",
];

fn b15(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let ops = ["Add", "Sub", "Mul", "Div", "Gemm", "MatMul", "Reshape", "Flatten", "Squeeze", "Unsqueeze", "Tile", "Transpose", "Concat", "Slice", "TopK", "Expand", "Pad", "Split", "Where", "Conv", "MaxPool", "AveragePool", "Range", "GridSample", "ReduceSum", "ReduceMean", "ReduceMax", "Max", "Min", "Equal", "Greater", "Less", "ConstantOfShape"];
    let op = ops[c.idx as usize % ops.len()];
    for _ in 0..80 {
        let mut g = Gen::new(crate::rng::Rng::new(r.u64()), Cfg { fold: r.chance(1, 3), ..Cfg::default() });
        g.random_inputs();
        let n = r.us(0, 3);
        g.grow(n);
        g.cfg.wild = true;
        if !g.step(op) {
            continue;
        }
        let Some((tag, msg)) = g.broken.clone() else { continue };
        // ONNX does not say that reduction axes must be distinct
        if !REJECT.contains(&tag) || (tag == "duplicate_axis" && op.starts_with("Reduce")) {
            c.ev(&format!("skipped_{tag}"));
            continue;
        }
        g.finish();
        let f = write_model(c, &g.m, &mut r);
        let (parsed, graph) = load(&f.path, &g.m)?;
        c.evals += 1;
        c.ev(&format!("rule_{tag}"));
        c.ev(&format!("op_{op}"));
        let got = match lib("infer_all_shapes", || infer_all_shapes(&parsed, &graph)) {
            Ok(v) => v,
            Err(b) => return bad(b.sig, format!("{}\n{}", b.why, g.m.summary())),
        };
        if let Ok(s) = &got {
            let nd = g.m.nodes.iter().find(|n| n.outputs.iter().any(|o| !g.env.contains_key(o)));
            return bad(
                format!("accepted-{op}-{tag}"),
                format!("{op} breaks rule '{tag}' ({msg}) but inference accepted it with output {:?}\n{}", nd.and_then(|n| s.get(&n.outputs[0])), g.m.summary()),
            );
        }
        c.seen_str(&format!("{op}|{tag}|{msg}"));
        c.sample = Some(json!({"op": op, "rule": tag, "why": msg}));
        return Ok(());
    }
    c.ev("no_breach_found");
    Ok(())
}

pub fn spec_b03() -> Spec {
    Spec {
        id: "B03",
        level: "exploration",
        rule: "random ONNX graphs (every supported operator in turn on random shapes, then random chains of 1-10 operators) are serialized, parsed, lowered and shape-inferred; every tensor's inferred shape is compared with the shape an independent reference executor computed by running the operators on concrete data; half the graphs are compared again after quantization; distinct = sequence of (operator, output shape)",
        assumptions: &["the reference executor implements the ONNX operator specification", "an unspecified input dimension means 1 (documented by the library)"],
        require: &[("tensors_compared", 5000), ("tensors_compared_after_quantize", 500)],
        families: vec![
            Family { name: "each", quick: 65 * 300, thorough: 65 * 2000, f: b03_each },
            Family { name: "random", quick: 24_000, thorough: 200_000, f: b03_random },
            Family { name: "window", quick: 24_000, thorough: 200_000, f: b03_window },
        ],
    }
}

pub fn spec_b04() -> Spec {
    Spec {
        id: "B04",
        level: "exploration",
        rule: "operator parameters (target shapes, axes, slice bounds, repeats, pads, split sizes, k, range bounds) are delivered through chains of shape arithmetic (Shape, Gather, GatherElements, Unsqueeze, Squeeze, Concat, Slice with any step, Cast, Reshape) that the inference has to evaluate itself; each inferred shape is compared with the executed one; distinct = sequence of (operator, output shape)",
        assumptions: &["the reference executor implements the ONNX operator specification"],
        require: &[("fold_Shape", 50), ("fold_Gather", 50), ("fold_Concat", 50), ("fold_Slice", 50), ("fold_Cast", 50), ("fold_Reshape", 50), ("fold_Squeeze", 50), ("fold_Unsqueeze", 50), ("fold_GatherElements", 20), ("tensors_compared", 5000), ("partial_evaluated", 500), ("partial_refused", 100)],
        families: vec![
            Family { name: "each", quick: 15 * 1200, thorough: 15 * 8000, f: b04_each },
            Family { name: "random", quick: 20_000, thorough: 150_000, f: b04_random },
            Family { name: "partial", quick: 12 * 1000, thorough: 12 * 8000, f: b04_partial },
        ],
    }
}

pub fn spec_b15() -> Spec {
    Spec {
        id: "B15",
        level: "exploration",
        rule: "a valid random model gets one final operator that provably breaks a consistency rule of ONNX (the executor names the rule: incompatible broadcast, inner dimension, axis range, reshape element count, kernel larger than input, split sizes, ...); shape inference must return an error; distinct = (operator, rule, concrete breach)",
        assumptions: &["the executor's list of rules; rules the library documents as deliberately lenient are not in the workload"],
        require: &[("rule_broadcast", 50), ("rule_axis", 50), ("rule_inner_dim", 20), ("rule_reshape_count", 20), ("rule_kernel_too_big", 20), ("rule_split_sizes", 10), ("rule_concat_mismatch", 10)],
        families: vec![Family { name: "breach", quick: 33 * 1000, thorough: 33 * 8000, f: b15 }],
    }
}
