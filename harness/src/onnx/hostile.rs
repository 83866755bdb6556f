//! B12: hostile model files. Runs in a child process (an abort, stack overflow, sanitizer report
//! or resource-limit kill is observed from outside).
use super::gen::{Cfg, Gen, ALL_OPS};
use super::ir::*;
use super::pb;
use crate::alloc::peak;
use crate::report::{bad, guarded, install_panic_hook, Case, Family, Spec, R};
use crate::rng::Rng;
use jstprove_onnx::graph::LayerGraph;
use jstprove_onnx::quantizer::{self, ScaleConfig};
use jstprove_onnx::shape_inference::infer_all_shapes;
use jstprove_onnx::{compat, layer_params as lp, parser};
use serde_json::json;
use std::path::Path;

const LIMIT: i64 = 192 << 20;
/// CPU seconds one small model may take through every entry point
const CPU_LIMIT: f64 = 20.0;

fn wild_i(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 => *r.pick(&[i64::MIN, i64::MAX, i64::MIN + 1, i64::MAX - 1]),
        1 => *r.pick(&[-1, 0, 1, 2, -2]),
        2 => *r.pick(&[i64::from(i32::MAX), i64::from(i32::MIN), 1 << 31, 1 << 32, 1 << 40, 1 << 62]),
        3 => -(r.below(10) as i64),
        4 => r.u64() as i64,
        5 => 1i64 << r.below(63),
        _ => r.below(9) as i64,
    }
}

fn wild_f(r: &mut Rng) -> f64 {
    *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 3.4e38, -3.4e38, 1e-40, 1.0, -1.0])
}

fn wild_ints(r: &mut Rng, v: &mut Vec<i64>) {
    match r.below(7) {
        0 => v.clear(),
        1 => { v.pop(); }
        2 => v.push(wild_i(r)),
        3 => { let n = r.below(12); *v = (0..n).map(|_| wild_i(r)).collect(); }
        4 => { if let Some(x) = v.first().copied() { v.push(x); } }
        _ => {
            if !v.is_empty() {
                let k = r.below(v.len());
                v[k] = wild_i(r);
            }
        }
    }
}

/// a tensor whose declared dims, type and payload need not agree
fn wild_tensor(r: &mut Rng, t: &mut T) {
    match r.below(6) {
        0 => wild_ints(r, &mut t.dims),
        1 => t.dt = *r.pick(&[0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 23, -1, i32::MAX]),
        2 => { t.f.clear(); t.i.clear(); if r.bool() { t.dims = vec![0]; } }
        3 => {
            let n = t.f.len();
            if n > 0 { t.f[r.below(n)] = wild_f(r); }
            let n = t.i.len();
            if n > 0 { t.i[r.below(n)] = wild_i(r); }
        }
        4 => { let d = r.below(3); t.dims.truncate(d); }
        _ => {
            // a consistent change of the integer payload
            if !t.is_float() {
                wild_ints(r, &mut t.i);
                if t.dims.len() == 1 { t.dims = vec![t.i.len() as i64]; }
            } else {
                t.f.truncate(r.below(3));
            }
        }
    }
}

fn all_names(m: &M) -> Vec<String> {
    let mut v: Vec<String> = m.nodes.iter().flat_map(|n| n.inputs.iter().chain(&n.outputs).cloned()).collect();
    v.extend(m.inputs.iter().map(|i| i.name.clone()));
    v.extend(m.inits.iter().map(|(n, _)| n.clone()));
    v.extend(["".into(), "ghost".into()]);
    v
}

const ATTRS: &[&str] = &[
    "axis", "axes", "perm", "kernel_shape", "strides", "pads", "dilations", "group", "to", "value", "keepdims", "split", "num_outputs",
    "alpha", "beta", "transA", "transB", "epsilon", "auto_pad", "ceil_mode", "start", "end", "allowzero", "mode", "output_shape",
    "output_padding", "k", "largest", "num_groups", "shape", "noop_with_empty_axes", "value_ints", "value_float", "value_floats", "value_int", "starts", "ends", "min", "max", "repeats",
];

fn wild_attr(r: &mut Rng) -> A {
    match r.below(6) {
        0 => A::I(wild_i(r)),
        1 => A::F(wild_f(r) as f32),
        2 => A::S((*r.pick(&["", "NOTSET", "SAME_UPPER", "VALID", "linear", "\u{0}", "reflect"])).to_string()),
        3 => { let n = r.below(7); A::Is((0..n).map(|_| wild_i(r)).collect()) }
        4 => A::Fs(vec![wild_f(r) as f32; r.below(3)]),
        _ => {
            let mut t = if r.bool() { T::ints(&[wild_i(r), wild_i(r)]) } else { T::floats(&[2], vec![wild_f(r), 1.0]) };
            if r.bool() { wild_tensor(r, &mut t); }
            A::T(t)
        }
    }
}

fn mutate(r: &mut Rng, m: &mut M) {
    if m.nodes.is_empty() {
        return;
    }
    let names = all_names(m);
    let k = r.below(m.nodes.len());
    match r.below(16) {
        0 | 1 => {
            // one attribute off
            let n = &mut m.nodes[k];
            if n.attrs.is_empty() {
                n.attrs.push(((*r.pick(ATTRS)).to_string(), wild_attr(r)));
            } else {
                let j = r.below(n.attrs.len());
                match &mut n.attrs[j].1 {
                    A::I(v) => *v = wild_i(r),
                    A::F(v) => *v = wild_f(r) as f32,
                    A::Is(v) => wild_ints(r, v),
                    A::T(t) => wild_tensor(r, t),
                    x => *x = wild_attr(r),
                }
            }
        }
        2 => m.nodes[k].attrs.push(((*r.pick(ATTRS)).to_string(), wild_attr(r))),
        3 => {
            let n = &mut m.nodes[k];
            if !n.attrs.is_empty() {
                let j = r.below(n.attrs.len());
                if r.bool() { n.attrs.remove(j); } else { n.attrs[j].1 = wild_attr(r); }
            }
        }
        4 => {
            let n = &mut m.nodes[k];
            if !n.inputs.is_empty() {
                let j = r.below(n.inputs.len());
                n.inputs[j] = r.pick(&names).clone();
            }
        }
        5 => {
            let n = &mut m.nodes[k];
            match r.below(4) {
                0 => n.inputs.clear(),
                1 => { n.inputs.pop(); }
                2 => n.inputs.push(r.pick(&names).clone()),
                _ => n.inputs.insert(0, r.pick(&names).clone()),
            }
        }
        6 => {
            let n = &mut m.nodes[k];
            match r.below(4) {
                0 => n.outputs.clear(),
                1 => n.outputs.push("extra".into()),
                2 => n.outputs = vec![r.pick(&names).clone()],
                _ => { let e = r.below(40); n.outputs.extend((0..e).map(|i| format!("x{i}"))); }
            }
        }
        7 => m.nodes[k].op = (*r.pick(ALL_OPS)).to_string(),
        8 => {
            if let Some(i) = m.inputs.first_mut() {
                match r.below(4) {
                    0 => i.dims = None,
                    1 => i.dims = Some(vec![]),
                    _ => {
                        let n = r.below(6);
                        i.dims = Some((0..n).map(|_| if r.chance(1, 4) { Dim::P("n".into()) } else { Dim::V(wild_i(r)) }).collect());
                    }
                }
            }
        }
        9 | 10 => {
            if !m.inits.is_empty() {
                let j = r.below(m.inits.len());
                wild_tensor(r, &mut m.inits[j].1);
            }
        }
        11 => {
            // a small integer parameter off by something
            let idx: Vec<usize> = (0..m.inits.len()).filter(|&j| !m.inits[j].1.is_float()).collect();
            if !idx.is_empty() {
                let t = &mut m.inits[*r.pick(&idx)].1;
                if !t.i.is_empty() {
                    let p = r.below(t.i.len());
                    t.i[p] = wild_i(r);
                }
            }
        }
        12 => { let n = m.nodes[k].clone(); m.nodes.push(n); }
        13 => { m.nodes.remove(k); }
        14 => {
            if let Some(o) = m.outputs.first_mut() {
                o.dims = Some((0..r.below(5)).map(|_| Dim::V(wild_i(r))).collect());
            }
        }
        _ => {
            m.opsets = match r.below(3) { 0 => vec![], 1 => vec![(None, wild_i(r))], _ => vec![(Some("x".into()), 1), (None, 9)] };
            m.nodes[k].name = match r.below(3) { 0 => None, 1 => Some(String::new()), _ => Some("\u{1F980}/".repeat(200)) };
        }
    }
}

/// a value of some shape computed by a folded chain of operators on hostile constants
fn small_model(r: &mut Rng) -> M {
    let op = *r.pick(ALL_OPS);
    let mut m = M { opsets: vec![(None, 18)], ..M::default() };
    let n = r.below(5);
    let dims: Vec<Dim> = (0..n).map(|_| Dim::V(if r.chance(1, 6) { wild_i(r) } else { r.us(0, 5) as i64 })).collect();
    m.inputs.push(Io { name: "x".into(), dt: F32, dims: Some(dims) });
    let mut ins = vec![];
    let k = r.below(6);
    for j in 0..k {
        match r.below(5) {
            0 | 1 => ins.push("x".to_string()),
            2 => { let v: Vec<i64> = (0..r.below(5)).map(|_| wild_i(r)).collect(); m.inits.push((format!("i{j}"), T::ints(&v))); ins.push(format!("i{j}")); }
            3 => {
                let sh: Vec<usize> = (0..r.below(5)).map(|_| r.us(0, 4)).collect();
                let c: usize = sh.iter().product();
                m.inits.push((format!("f{j}"), T::floats(&sh, (0..c).map(|_| if r.chance(1, 20) { wild_f(r) } else { r.f64() }).collect())));
                ins.push(format!("f{j}"));
            }
            _ => ins.push(String::new()),
        }
    }
    let mut attrs = vec![];
    for _ in 0..r.below(5) {
        attrs.push(((*r.pick(ATTRS)).to_string(), if r.bool() { wild_attr(r) } else if r.bool() { A::I(r.below(4) as i64 - 1) } else { A::Is((0..r.below(5)).map(|_| r.below(4) as i64).collect()) }));
    }
    let outs = (0..1 + r.below(2)).map(|j| format!("y{j}")).collect();
    m.nodes.push(N { name: Some("n".into()), op: op.into(), inputs: ins, outputs: outs, attrs, domain: None });
    // something that consumes it
    if r.bool() {
        let op2 = *r.pick(ALL_OPS);
        m.nodes.push(N { name: Some("n2".into()), op: op2.into(), inputs: vec!["y0".into(), (*r.pick(&["x", "i1", "f1", "y0", "y1"])).into()], outputs: vec!["z".into()], attrs: vec![], domain: None });
    }
    m.outputs.push(Io { name: if m.nodes.len() == 2 { "z".into() } else { "y0".into() }, dt: F32, dims: None });
    m
}

fn nested(r: &mut Rng) -> Vec<u8> {
    // attribute -> subgraph -> node -> attribute ... (field 6 = GraphProto g), or groups
    let depth = *r.pick(&[5usize, 90, 101, 1000]);
    let mut inner = vec![];
    for _ in 0..depth {
        let mut g = vec![];
        let mut n = vec![];
        pb::str_(&mut n, 4, "If");
        let mut a = vec![];
        pb::str_(&mut a, 1, "then_branch");
        if !inner.is_empty() {
            pb::bytes(&mut a, 6, &inner);
        }
        pb::vint(&mut a, 20, 5);
        pb::bytes(&mut n, 5, &a);
        pb::bytes(&mut g, 1, &n);
        inner = g;
    }
    let mut o = vec![];
    pb::bytes(&mut o, 7, &inner);
    if r.chance(1, 3) {
        o.extend(std::iter::repeat_n(0x0b, *r.pick(&[50usize, 150, 20_000])));
    }
    o
}

/// a model that is only large: long chains, wide fan-in, many constants
fn big(r: &mut Rng) -> M {
    let mut m = M { opsets: vec![(None, 18)], ..M::default() };
    m.inputs.push(io("x", &[1, 4]));
    let n = r.us(500, 3000);
    let op = *r.pick(&["Relu", "Identity", "Cast", "Sigmoid", "Transpose", "Squeeze", "Flatten"]);
    match r.below(3) {
        0 => {
            for i in 0..n {
                let prev = if i == 0 { "x".to_string() } else { format!("t{i}") };
                m.nodes.push(node(&format!("n{i}"), op, &[&prev], &[&format!("t{}", i + 1)], if op == "Cast" { vec![("to", A::I(1))] } else { vec![] }));
            }
            if r.bool() { m.nodes.reverse(); }
        }
        1 => {
            let ins: Vec<String> = (0..n).map(|i| if i % 3 == 0 { "x".into() } else { format!("w{}", i % 50) }).collect();
            for i in 0..50 { m.inits.push((format!("w{i}"), T::floats(&[1, 4], vec![0.5; 4]))); }
            let op = *r.pick(&["Concat", "Max", "Min", "Add"]);
            m.nodes.push(N { name: None, op: op.into(), inputs: ins, outputs: vec!["y".into()], attrs: vec![("axis".into(), A::I(0))], domain: None });
        }
        _ => {
            for i in 0..n {
                m.inits.push((format!("w{i}"), T::floats(&[4], vec![0.25; 4])));
                let prev = if i == 0 { "x".to_string() } else { format!("t{i}") };
                m.nodes.push(node("same", *r.pick(&["Add", "Mul", "Sub"]), &[&prev, &format!("w{i}")], &[&format!("t{}", i + 1)], vec![]));
            }
        }
    }
    m.outputs.push(io("y", &[]));
    m
}

pub fn gen(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 250) {
        let m = big(r);
        return pb::model(&m, r);
    }
    let kind = r.below(20);
    let mut out = match kind {
        0 => { let n = r.below(200); r.bytes(n) }
        1 => nested(r),
        2..=7 => {
            let m = small_model(r);
            pb::model(&m, r)
        }
        _ => {
            let mut g = Gen::new(Rng::new(r.u64()), Cfg { fold: r.bool(), wild: r.chance(1, 3), max_numel: 200, ..Cfg::default() });
            g.random_inputs();
            let n = r.us(1, 5);
            for _ in 0..n {
                let op = *r.pick(ALL_OPS);
                g.step(op);
                if g.broken.is_some() {
                    break;
                }
            }
            g.finish();
            let mut m = g.m;
            for _ in 0..r.below(4) {
                mutate(r, &mut m);
            }
            pb::model(&m, r)
        }
    };
    if kind < 2 || r.chance(1, 4) {
        for _ in 0..1 + r.below(4) {
            if out.is_empty() {
                break;
            }
            match r.below(5) {
                0 | 1 => { let k = r.below(out.len()); out[k] ^= 1 << r.below(8); }
                2 => { let k = r.below(out.len()); out.truncate(k); }
                3 => { let k = r.below(out.len()); let n = r.below(8); let ins = r.bytes(n); out.splice(k..k, ins); }
                _ => { let k = r.below(out.len()); out[k] = *r.pick(&[0u8, 0xff, 0x7f, 0x80]); }
            }
        }
    }
    out
}

fn drive(data: &[u8], dir: &Path, r: &mut Rng) -> [u64; 6] {
    let mut ok = [0u64; 6];
    let p = dir.join("m.onnx");
    std::fs::write(&p, data).unwrap();
    ok[4] += u64::from(compat::is_compatible(&p).is_ok());
    ok[5] += u64::from(compat::add_zero_bias_to_conv(&p, &dir.join("o.onnx")).is_ok());
    let Ok(model) = parser::parse_onnx(&p) else { return ok };
    ok[0] += 1;
    for t in model.initializers.values() {
        let _ = (t.total_elements(), t.as_f64_vec(), t.as_i64_vec(), t.shape());
    }
    let Ok(graph) = LayerGraph::from_parsed(&model) else { return ok };
    ok[1] += 1;
    ok[2] += u64::from(infer_all_shapes(&model, &graph).is_ok());
    for l in graph.iter_topo() {
        let (h, w) = (*r.pick(&[0usize, 1, 4, 7, 1 << 20, usize::MAX]), *r.pick(&[0usize, 1, 5, usize::MAX]));
        let _ = lp::GemmParams::from_layer(l);
        let _ = lp::ConvParams::from_layer(l, *r.pick(&[0usize, 1, 3, usize::MAX]), h, w);
        let _ = lp::MaxPoolParams::from_layer(l, h, w);
        let _ = lp::BatchNormParams::from_layer(l);
        let _ = lp::AddSubParams::from_layer(l);
    }
    let _ = quantizer::compute_max_bound(&mut graph.clone());
    let _ = quantizer::quantize_model_for_precision(graph.clone(), r.below(12) as u32, *r.pick(&[31u32, 63, 126, 253]));
    for cfg in [ScaleConfig::default(), ScaleConfig::new(2, r.below(63) as u32), ScaleConfig::new(10, r.below(19) as u32)] {
        if let Ok(mut q) = quantizer::quantize_model(graph.clone(), &cfg) {
            ok[3] += 1;
            q.apply_observed_n_bits(&std::collections::HashMap::from([("n".to_string(), usize::MAX)]));
            let _ = infer_all_shapes(&model, &q.graph);
        }
    }
    ok
}

fn cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}

fn case_rng(seed: u64, i: u64) -> Rng {
    Rng::new(crate::rng::mix(seed ^ i.wrapping_mul(0x9E37)))
}

/// child: hostile-onnx <seed> <count> <dir> <progress file>
pub fn child(args: &[String]) -> Option<i32> {
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    let ["hostile-onnx", seed, count, dir, progress] = a.as_slice() else { return None };
    install_panic_hook();
    unsafe {
        let l = libc::rlimit { rlim_cur: 240, rlim_max: 240 };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
    }
    let seed: u64 = seed.parse().unwrap();
    let mut total = [0u64; 6];
    let mut failed = 0;
    for i in 0..count.parse::<u64>().unwrap() {
        let mut r = case_rng(seed, i);
        let data = gen(&mut r);
        std::fs::write(progress, format!("{i}\n{}", crate::art::hexs(&data))).unwrap();
        let t0 = cpu();
        let (o, pk) = peak(|| guarded(|| drive(&data, Path::new(dir), &mut r)));
        let dt = cpu() - t0;
        match o {
            Err(p) => {
                eprintln!("PANIC {p}");
                if std::env::var_os("VMON_KEEP_GOING").is_none() {
                    return Some(20);
                }
                failed += 1;
            }
            Ok(n) => total.iter_mut().zip(n).for_each(|(t, v)| *t += v),
        }
        if pk > LIMIT {
            eprintln!("MEMORY peak {pk} bytes for {} input bytes", data.len());
            return Some(21);
        }
        if dt > CPU_LIMIT {
            eprintln!("TIME {dt:.1} s of CPU for {} input bytes", data.len());
            return Some(22);
        }
    }
    if failed > 0 {
        return Some(20);
    }
    println!("{}", total.map(|v| v.to_string()).join(" "));
    Some(0)
}

fn batch(c: &mut Case) -> R {
    let d = c.scratch();
    let dir = d.join("b");
    std::fs::create_dir(&dir).unwrap();
    let prog = d.join("progress");
    let n: u64 = 400;
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["--child", "hostile-onnx", &c.seed.to_string(), &n.to_string(), &dir.to_string_lossy(), &prog.to_string_lossy()])
        .output()
        .expect("spawn");
    let p = std::fs::read_to_string(&prog).unwrap_or_default();
    let err = String::from_utf8_lossy(&out.stderr).into_owned();
    let head: String = err.lines().take(25).collect::<Vec<_>>().join("\n");
    c.note(format!("last input: {p}"));
    c.evals += n;
    match out.status.code() {
        Some(0) => {}
        Some(20) => return bad("hostile-panic", format!("a hostile model caused a panic: {head}; input {p}")),
        Some(21) => return bad("hostile-memory", format!("a hostile model drove memory use: {head}; input {p}")),
        Some(22) => return bad("hostile-time", format!("a hostile model drove CPU use: {head}; input {p}")),
        Some(x) => return bad("hostile-exit", format!("child ended with {x}: {head}; input {p}")),
        None => {
            use std::os::unix::process::ExitStatusExt;
            let s = out.status.signal().unwrap_or(0);
            if s == libc::SIGKILL || s == libc::SIGTERM {
                panic!("child killed from outside (signal {s})");
            }
            return bad(format!("hostile-signal-{s}"), format!("a hostile model ended the process with signal {s}: {head}; input {p}"));
        }
    }
    let v: Vec<u64> = String::from_utf8_lossy(&out.stdout).split_whitespace().filter_map(|x| x.parse().ok()).collect();
    c.evn("hostile_models", n);
    for (k, name) in ["parsed", "lowered", "shapes_inferred", "quantized", "compat_answered", "rewritten"].iter().enumerate() {
        c.evn(name, v.get(k).copied().unwrap_or(0));
    }
    for i in 0..n {
        c.seen(crate::rng::hash_bytes(&gen(&mut case_rng(c.seed, i))));
    }
    c.sample = Some(json!({"inputs": n, "accepted_per_stage": v}));
    Ok(())
}

pub fn spec_b12() -> Spec {
    Spec {
        id: "B12",
        level: "exploration",
        rule: "hostile model files (valid random models with mutated attributes, operands, dims, tensor payloads, types, topology and opsets; single-operator models with random operands and attributes; nested subgraphs; bit flips, truncations, splices of the bytes) pushed through parsing, lowering, shape inference, layer parameters, bound computation, quantization, compatibility report and rewriting in child processes with a counting allocator and a CPU clock; distinct = distinct file bytes",
        assumptions: &["arithmetic is checked: the harness builds the library with overflow checks", "generated models are below 100 kB, so 192 MiB of peak heap or 20 s of CPU is driven by a number in the file, not by its size"],
        require: &[("hostile_models", 4000), ("parsed", 2000), ("lowered", 2000), ("shapes_inferred", 300), ("quantized", 600), ("compat_answered", 2000), ("rewritten", 500)],
        families: vec![Family { name: "hostile", quick: 40, thorough: 3000, f: batch }],
    }
}
