//! B01 parse fidelity, B02 layer graph, B10 compatibility report, B11 zero-bias rewrite.
use super::common::*;
use super::gen::{const_attr, Cfg, Gen, ALL_OPS};
use super::ir::*;
use super::pb::{self, Store};
use crate::check;
use crate::report::{bad, Case, Family, Spec, R};
use crate::rng::Rng;
use jstprove_onnx::compat;
use jstprove_onnx::graph::LayerGraph;
use jstprove_onnx::parser::{self, AttrValue, ParsedModel, TensorData};
use jstprove_onnx::ModelProto;
use prost::Message;
use serde_json::json;
use std::collections::{HashMap, HashSet};

fn feq(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

fn same_tensor(t: &T, td: &TensorData) -> Result<(), String> {
    if t.dims != td.dims {
        return Err(format!("dims {:?}, stored {:?}", td.dims, t.dims));
    }
    if t.dt != td.data_type {
        return Err(format!("type {}, stored {}", td.data_type, t.dt));
    }
    if td.float_data.len() != t.f.len() || td.int_data.len() != t.i.len() {
        return Err(format!("{} floats and {} ints, stored {} and {}", td.float_data.len(), td.int_data.len(), t.f.len(), t.i.len()));
    }
    for k in 0..t.f.len() {
        if !feq(t.f[k], td.float_data[k]) {
            return Err(format!("element {k} is {:?}, stored {:?}", td.float_data[k], t.f[k]));
        }
    }
    for k in 0..t.i.len() {
        let want = if t.dt == BOOL { i64::from(t.i[k] != 0) } else { t.i[k] };
        if td.int_data[k] != want {
            return Err(format!("element {k} is {}, stored {want}", td.int_data[k]));
        }
    }
    // the views the compiler reads
    if td.total_elements() != t.f.len() + t.i.len() {
        return Err(format!("total_elements {} of {:?}", td.total_elements(), t.dims));
    }
    if td.shape() != t.shape() {
        return Err(format!("shape() {:?}, dims {:?}", td.shape(), t.dims));
    }
    let fv = td.as_f64_vec();
    let iv = td.as_i64_vec();
    if fv.len() != iv.len() || fv.len() != t.f.len() + t.i.len() {
        return Err(format!("views hold {} and {} elements", fv.len(), iv.len()));
    }
    for k in 0..fv.len() {
        let (wf, wi) = if t.is_float() { (t.f[k], t.f[k] as i64) } else { (td.int_data[k] as f64, td.int_data[k]) };
        if !feq(fv[k], wf) || iv[k] != wi {
            return Err(format!("views of element {k}: {:?} / {} instead of {wf:?} / {wi}", fv[k], iv[k]));
        }
    }
    Ok(())
}

fn same_attr(a: &A, v: &AttrValue) -> Result<(), String> {
    let ok = match (a, v) {
        (A::F(x), AttrValue::Float(y)) => x.to_bits() == y.to_bits(),
        (A::I(x), AttrValue::Int(y)) => x == y,
        (A::S(x), AttrValue::String(y)) => x == y,
        (A::Fs(x), AttrValue::Floats(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.to_bits() == q.to_bits()),
        (A::Is(x), AttrValue::Ints(y)) => x == y,
        (A::T(x), AttrValue::Tensor(y)) => return same_tensor(x, y),
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("{v:?} instead of {a:?}"))
    }
}

const ODD_NAMES: &[&str] = &["", "node_0", "node_1", "node_2", "/a/b/Conv", "Ünïcode✓", "a b", "x:0", "..", "\u{1F980}", "value", "name\nline", "node_0_", "0"];

/// values that parsing must not disturb
fn special(r: &mut Rng, dt: i32, n: usize) -> T {
    let mut t = T { dims: vec![n as i64], dt, f: vec![], i: vec![] };
    for _ in 0..n {
        match dt {
            F32 => {
                let v = match r.below(9) {
                    0 => f32::NAN,
                    1 => f32::INFINITY,
                    2 => f32::NEG_INFINITY,
                    3 => -0.0,
                    4 => f32::MIN_POSITIVE / 8.0,
                    5 => f32::MAX,
                    6 => 0.0,
                    _ => loop {
                        let v = f32::from_bits(r.u64() as u32);
                        if !v.is_nan() {
                            break v;
                        }
                    },
                };
                t.f.push(f64::from(v));
            }
            F64 => {
                let v = match r.below(6) {
                    0 => f64::NAN,
                    1 => -0.0,
                    2 => f64::MAX,
                    3 => 1e-310,
                    _ => loop {
                        let v = f64::from_bits(r.u64());
                        if !v.is_nan() {
                            break v;
                        }
                    },
                };
                t.f.push(v);
            }
            I64 => t.i.push(match r.below(5) {
                0 => i64::MIN,
                1 => i64::MAX,
                2 => -1,
                3 => 0,
                _ => r.u64() as i64,
            }),
            I32 => t.i.push(match r.below(5) {
                0 => i64::from(i32::MIN),
                1 => i64::from(i32::MAX),
                2 => -1,
                _ => i64::from(r.u64() as i32),
            }),
            BOOL => t.i.push(r.range(0, 1)),
            3 => t.i.push(r.range(-128, 127)),
            2 => t.i.push(r.range(0, 255)),
            5 => t.i.push(r.range(-32768, 32767)),
            4 => t.i.push(r.range(0, 65535)),
            _ => unreachable!(),
        }
    }
    t
}

fn odd_dims(r: &mut Rng) -> Vec<usize> {
    match r.below(6) {
        0 => vec![],
        1 => vec![0],
        2 => vec![r.us(1, 3), 0, 2],
        _ => (0..r.us(1, 4)).map(|_| r.us(1, 4)).collect(),
    }
}

/// add what real exporters and odd tools put in models
fn decorate(g: &mut Gen, c: &mut Case) {
    let mut r = Rng::new(g.r.u64());
    for k in 0..r.us(0, 4) {
        let dims = odd_dims(&mut r);
        let n = dims.iter().product();
        let dt = *r.pick(&[F32, F32, F64, I64, I32, BOOL]);
        let mut t = special(&mut r, dt, n);
        t.dims = dims.iter().map(|&d| d as i64).collect();
        c.ev(&format!("special_dt{dt}"));
        g.m.inits.push((format!("extra_{k}"), t));
    }
    for n in &mut g.m.nodes {
        if r.chance(1, 6) {
            n.name = Some((*r.pick(ODD_NAMES)).to_string());
        }
        if r.chance(1, 12) {
            n.domain = Some((*r.pick(&["", "ai.onnx", "ai.onnx.ml", "com.microsoft"])).to_string());
        }
        if r.chance(1, 6) {
            let v = match r.below(6) {
                0 => A::F(f32::from_bits(r.u64() as u32 & 0x7f7f_ffff)),
                1 => A::I(r.u64() as i64),
                2 => A::S((*r.pick(&["", "SAME", "é", "a\"b"])).into()),
                3 => A::Fs((0..r.us(0, 3)).map(|k| k as f32 - 0.5).collect()),
                4 => A::Is((0..r.us(0, 3)).map(|k| -(k as i64)).collect()),
                _ => {
                    let n = r.us(0, 3);
                    A::T(special(&mut r, F32, n))
                }
            };
            n.attrs.push(("vmon_extra".into(), v));
        }
    }
    if r.chance(1, 3) {
        g.m.opsets = (0..r.us(0, 4))
            .map(|_| {
                let d = *r.pick(&[None, Some(""), Some("ai.onnx.ml"), Some("com.microsoft")]);
                (d.map(str::to_string), r.range(1, 22))
            })
            .collect();
    }
    if r.chance(1, 4) {
        let dims = (0..r.us(0, 4)).map(|_| match r.below(3) { 0 => Dim::V(r.range(0, 5)), 1 => Dim::P("N".into()), _ => Dim::Missing }).collect();
        g.m.inputs.push(Io { name: "unused_in".into(), dt: *r.pick(&[F32, I64, BOOL, F64]), dims: if r.chance(1, 5) { None } else { Some(dims) } });
    }
}

fn compare_parsed(m: &M, p: &ParsedModel) -> R {
    check!(p.nodes.len() == m.nodes.len(), "node-count", "{} nodes parsed, {} written", p.nodes.len(), m.nodes.len());
    let explicit: HashSet<&str> = m.nodes.iter().filter_map(|n| n.name.as_deref()).filter(|n| !n.is_empty()).collect();
    let mut generated: HashSet<&str> = HashSet::new();
    for (k, (n, q)) in m.nodes.iter().zip(&p.nodes).enumerate() {
        check!(n.op == q.op_type, "op-type", "node {k}: operator '{}', written '{}'", q.op_type, n.op);
        check!(n.inputs == q.inputs, "node-inputs", "node {k} ({}): inputs {:?}, written {:?}", n.op, q.inputs, n.inputs);
        check!(n.outputs == q.outputs, "node-outputs", "node {k} ({}): outputs {:?}, written {:?}", n.op, q.outputs, n.outputs);
        check!(q.domain == n.domain.clone().unwrap_or_default(), "node-domain", "node {k}: domain '{}', written {:?}", q.domain, n.domain);
        match n.name.as_deref() {
            Some(s) if !s.is_empty() => check!(q.name == s, "node-name", "node {k}: name '{}', written '{s}'", q.name),
            _ => {
                check!(!q.name.is_empty(), "generated-name-empty", "node {k} has no name");
                check!(!explicit.contains(q.name.as_str()), "generated-name-taken", "node {k}: generated name '{}' is another node's name", q.name);
                check!(generated.insert(&q.name), "generated-name-dup", "node {k}: generated name '{}' used twice", q.name);
            }
        }
        for (name, a) in &n.attrs {
            match q.attributes.get(name) {
                None => return bad("attr-lost", format!("node {k} ({}): attribute '{name}' = {a:?} is missing", n.op)),
                Some(v) => {
                    if let Err(e) = same_attr(a, v) {
                        return bad("attr-value", format!("node {k} ({}): attribute '{name}': {e}", n.op));
                    }
                }
            }
        }
        for name in q.attributes.keys() {
            let written = n.attr(name).is_some();
            check!(written || (n.op == "Constant" && name == "value"), "attr-invented", "node {k} ({}): attribute '{name}' was never written", n.op);
        }
    }
    let names: HashSet<&str> = m.inits.iter().map(|x| x.0.as_str()).collect();
    check!(p.initializers.len() == names.len(), "init-count", "{} initializers parsed, {} written", p.initializers.len(), names.len());
    for (name, t) in &m.inits {
        let Some(td) = p.initializers.get(name) else {
            return bad("init-lost", format!("initializer '{name}' is missing"));
        };
        if let Err(e) = same_tensor(t, td) {
            return bad("init-value", format!("initializer '{name}': {e}"));
        }
        check!(td.name == *name, "init-name", "initializer '{name}' is called '{}'", td.name);
    }
    for (what, a, b) in [("input", &m.inputs, &p.inputs), ("output", &m.outputs, &p.outputs)] {
        check!(a.len() == b.len(), format!("{what}-count"), "{} {what}s parsed, {} written", b.len(), a.len());
        for (x, y) in a.iter().zip(b) {
            check!(x.name == y.name, format!("{what}-name"), "{what} '{}', written '{}'", y.name, x.name);
            check!(x.dt == y.elem_type, format!("{what}-type"), "{what} '{}': type {}, written {}", x.name, y.elem_type, x.dt);
            let dims: Vec<i64> = x
                .dims
                .iter()
                .flatten()
                .map(|d| match d {
                    Dim::V(v) => *v,
                    _ => -1,
                })
                .collect();
            check!(dims == y.shape, format!("{what}-shape"), "{what} '{}': shape {:?}, written {:?}", x.name, y.shape, x.dims);
        }
    }
    let opset = m.opsets.iter().filter(|(d, _)| d.as_deref().unwrap_or("").is_empty()).map(|x| x.1).max().unwrap_or(0);
    check!(p.opset_version == opset, "opset", "opset {}, written {:?}", p.opset_version, m.opsets);
    Ok(())
}

fn random_gen(r: &mut Rng) -> Gen {
    let cfg = Cfg { fold: r.bool(), ..Cfg::default() };
    let mut g = Gen::new(Rng::new(r.u64()), cfg);
    g.random_inputs();
    let n = r.us(1, 9);
    g.grow(n);
    g
}

fn b01_model(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let mut g = random_gen(&mut r);
    g.finish();
    decorate(&mut g, c);
    let f = write_model(c, &g.m, &mut r);
    let p = must("parse_onnx", &g.m, || parser::parse_onnx(&f.path))?;
    compare_parsed(&g.m, &p)?;
    c.evn("nodes_compared", g.m.nodes.len() as u64);
    c.evn("initializers_compared", g.m.inits.len() as u64);
    c.evn("attributes_compared", g.m.nodes.iter().map(|n| n.attrs.len() as u64).sum());
    if g.m.nodes.iter().filter(|n| n.name.as_deref().unwrap_or("").is_empty()).count() > 1 {
        c.ev("several_unnamed_nodes");
    }
    c.evals += 1;
    c.seen_str(&format!("{}|{}", opkey(&g), g.m.inits.len()));
    c.sample = Some(json!({"nodes": g.m.nodes.len(), "initializers": g.m.inits.len(), "ops": g.ops_used}));
    Ok(())
}

fn half_to_f64(h: u16) -> f64 {
    let (s, e, m) = (h >> 15, (h >> 10) & 31, h & 1023);
    let v = match e {
        0 => f64::from(m) * 2f64.powi(-24),
        31 => {
            if m == 0 {
                f64::INFINITY
            } else {
                f64::NAN
            }
        }
        _ => (1.0 + f64::from(m) / 1024.0) * 2f64.powi(i32::from(e) - 15),
    };
    if s == 1 {
        -v
    } else {
        v
    }
}

/// a tensor in any of ONNX's types and encodings: the exact values, or a refusal
fn b01_storage(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let dims = odd_dims(&mut r);
    let n: usize = dims.iter().product();
    // (dt, name)
    let dt = *r.pick(&[F32, F64, I32, I64, BOOL, 2, 3, 4, 5, 8, 10, 12, 13, 14, 15, 16]);
    let raw = r.bool();
    // stored elements: as declared, or not
    let wrong = r.chance(2, 5);
    let external = dt != 8 && r.chance(1, 12) && n > 0;
    let stored = if external {
        0
    } else if wrong {
        let k = r.us(0, n + 2);
        if k == n {
            n + 1
        } else {
            k
        }
    } else {
        n
    };
    let mut o = vec![];
    for &d in &dims {
        pb::vint(&mut o, 1, d as i64);
    }
    pb::vint(&mut o, 2, i64::from(dt));
    let mut want = T { dims: dims.iter().map(|&d| d as i64).collect(), dt, f: vec![], i: vec![] };
    let mut must_accept = !wrong && !external;
    let mut cut = false;
    match dt {
        F32 | F64 | I32 | I64 | BOOL | 2..=5 => {
            let mut t = special(&mut r, dt, stored);
            if raw && matches!(dt, 2..=5) {
                must_accept = false; // small raw integers: exact or refused
            }
            let st = if raw { Store::Raw } else { Store::Typed { packed: r.bool() } };
            want.f = t.f.clone();
            want.i = t.i.clone();
            t.dims = want.dims.clone();
            if raw && matches!(dt, 4 | 5) {
                let b: Vec<u8> = t.i.iter().flat_map(|&v| (v as u16).to_le_bytes()).collect();
                pb::bytes(&mut o, 9, &b);
            } else {
                let mut b = pb::tensor(&t, None, st);
                if raw && wrong && b.len() > 2 && stored > n && r.bool() && !matches!(dt, BOOL | 2 | 3) {
                    // a partial trailing element: handled below by writing the payload ourselves
                    cut = true;
                }
                if cut {
                    let payload: Vec<u8> = match dt {
                        F32 => t.f.iter().flat_map(|v| (*v as f32).to_le_bytes()).collect(),
                        F64 => t.f.iter().flat_map(|v| v.to_le_bytes()).collect(),
                        I32 => t.i.iter().flat_map(|v| (*v as i32).to_le_bytes()).collect(),
                        _ => t.i.iter().flat_map(|v| v.to_le_bytes()).collect(),
                    };
                    // cut into the last declared element
                    let w = payload.len() / stored;
                    if n == 0 {
                        c.ev("skipped_empty_cut");
                        return Ok(());
                    }
                    let len = n * w - r.us(1, w - 1);
                    b = o.clone();
                    pb::bytes(&mut b, 9, &payload[..len]);
                }
                o = b;
            }
        }
        10 | 16 => {
            // half floats live in int32_data or raw_data
            must_accept = false;
            let h: Vec<u16> = (0..stored).map(|_| r.u64() as u16).collect();
            want.f = h.iter().map(|&v| if dt == 10 { half_to_f64(v) } else { f64::from(f32::from_bits(u32::from(v) << 16)) }).collect();
            if raw {
                let b: Vec<u8> = h.iter().flat_map(|v| v.to_le_bytes()).collect();
                pb::bytes(&mut o, 9, &b);
            } else {
                for v in h {
                    pb::vint(&mut o, 5, i64::from(v));
                }
            }
        }
        12 | 13 => {
            must_accept = false;
            let v: Vec<u64> = (0..stored).map(|_| if dt == 12 { r.u64() & 0xffff_ffff } else { r.u64() >> 1 }).collect();
            want.i = v.iter().map(|&x| x as i64).collect();
            if raw {
                let b: Vec<u8> = v.iter().flat_map(|x| if dt == 12 { (*x as u32).to_le_bytes().to_vec() } else { x.to_le_bytes().to_vec() }).collect();
                pb::bytes(&mut o, 9, &b);
            } else {
                for x in v {
                    pb::vint(&mut o, 11, x as i64);
                }
            }
        }
        _ => {
            // strings and complex numbers have no representation here
            must_accept = false;
            want.f = vec![f64::NAN; stored.max(1) * 3];
            for _ in 0..stored.max(1) {
                if dt == 8 {
                    pb::bytes(&mut o, 6, b"s");
                } else if dt == 14 {
                    pb::f32_(&mut o, 4, 0.5);
                    pb::f32_(&mut o, 4, 0.5);
                } else {
                    pb::f32_(&mut o, 4, 0.5);
                }
            }
        }
    }
    if external {
        let mut e = vec![];
        pb::str_(&mut e, 1, "location");
        pb::str_(&mut e, 2, "weights.bin");
        pb::bytes(&mut o, 13, &e);
        pb::vint(&mut o, 14, 1);
    }
    pb::str_(&mut o, 8, "w");
    let as_const = r.bool();
    let mut m = M { opsets: vec![(None, 18)], ..M::default() };
    m.inputs.push(io("x", &[1]));
    m.outputs.push(Io { name: "y".into(), dt: F32, dims: None });
    let mut g = vec![];
    if as_const {
        let mut a = vec![];
        pb::str_(&mut a, 1, "value");
        pb::bytes(&mut a, 5, &o);
        pb::vint(&mut a, 20, 4);
        let mut nb = vec![];
        pb::str_(&mut nb, 2, "w");
        pb::str_(&mut nb, 4, "Constant");
        pb::bytes(&mut nb, 5, &a);
        pb::bytes(&mut g, 1, &nb);
    } else {
        pb::bytes(&mut g, 5, &o);
    }
    pb::bytes(&mut g, 1, &pb::node(&node("a", "Add", &["x", "w"], &["y"], vec![]), &mut r));
    for i in &m.inputs {
        pb::bytes(&mut g, 11, &pb::value_info(i));
    }
    let bytes = pb::wrap(&m, g, &mut r);
    let f = write_bytes(c, &bytes);
    c.evals += 1;
    let what = format!("dt{dt} dims {dims:?} {} stored {stored}{}{}", if raw { "raw" } else { "typed" }, if cut { " cut mid-element" } else { "" }, if external { " external" } else { "" });
    c.seen_str(&format!("{what}{as_const}"));
    let class = if external { "external" } else if wrong { "wrong_count" } else { "declared" };
    match lib("parse_onnx", || parser::parse_onnx(&f.path))? {
        Err(e) => {
            check!(!must_accept, "storage-refused", "{what}: a tensor stored as declared was refused: {e}");
            c.ev(&format!("refused_{class}_dt{dt}"));
        }
        Ok(p) => {
            let td = if as_const {
                match p.nodes[0].attributes.get("value") {
                    Some(AttrValue::Tensor(t)) => t.clone(),
                    o => return bad("storage-const", format!("{what}: Constant parsed as {o:?}")),
                }
            } else {
                match p.initializers.get("w") {
                    Some(t) => t.clone(),
                    None => return bad("storage-lost", format!("{what}: initializer missing")),
                }
            };
            check!(class == "declared", format!("storage-accepted-{class}"), "{what}: accepted with {} floats and {} ints", td.float_data.len(), td.int_data.len());
            if let Err(e) = same_tensor(&want, &td) {
                return bad("storage-value", format!("{what}: {e}"));
            }
            c.ev(&format!("accepted_dt{dt}_{}", if raw { "raw" } else { "typed" }));
        }
    }
    Ok(())
}

// ---- B02 -----------------------------------------------------------------------------------------

fn const_value(n: &N) -> Option<T> {
    n.attrs.iter().find_map(|(k, a)| match (k.as_str(), a) {
        ("value", A::T(t)) => Some(t.clone()),
        ("value_float", A::F(v)) => Some(T::scalar_f(f64::from(*v))),
        ("value_int", A::I(v)) => Some(T::scalar_i(*v)),
        ("value_floats", A::Fs(v)) => Some(T::floats(&[v.len()], v.iter().map(|&x| f64::from(x)).collect())),
        ("value_ints", A::Is(v)) => Some(T::ints(v)),
        _ => None,
    })
}

pub fn compare_graph(m: &M, p: &ParsedModel, g: &LayerGraph) -> R {
    check!(g.layers.len() == m.nodes.len(), "layer-count", "{} layers for {} nodes", g.layers.len(), m.nodes.len());
    let inits: HashMap<&str, &T> = m.inits.iter().map(|(n, t)| (n.as_str(), t)).collect();
    let mut consts: HashMap<&str, T> = HashMap::new();
    for n in m.nodes.iter().filter(|n| n.op == "Constant") {
        if let Some(t) = const_value(n) {
            for o in &n.outputs {
                consts.insert(o, t.clone());
            }
        }
    }
    for (k, (n, l)) in m.nodes.iter().zip(&g.layers).enumerate() {
        check!(l.id == k, "layer-id", "layer {k} has id {}", l.id);
        check!(l.name == p.nodes[k].name, "layer-name", "layer {k} is called '{}', its node '{}'", l.name, p.nodes[k].name);
        let canon = match n.op.as_str() {
            "ReLU" => "Relu",
            "LeakyReLU" => "LeakyRelu",
            "Hardswish" => "HardSwish",
            o => o.strip_prefix("Int64").unwrap_or(o),
        };
        check!(format!("{:?}", l.op_type) == canon, "layer-op", "layer {k} of operator {} became {:?}", n.op, l.op_type);
        check!(l.inputs == n.inputs && l.outputs == n.outputs, "layer-edges", "layer {k}: {:?} -> {:?}, node {:?} -> {:?}", l.inputs, l.outputs, n.inputs, n.outputs);
        let rescale = matches!(canon, "Gemm" | "Conv" | "BatchNormalization" | "Mul" | "MatMul" | "ConvTranspose");
        check!(l.needs_rescale == rescale, "layer-rescale", "layer {k} ({canon}): needs_rescale {}", l.needs_rescale);
        check!(l.n_bits.is_none(), "layer-nbits", "layer {k} has a width before quantization");
        let mut want: HashMap<&str, &T> = HashMap::new();
        for i in &n.inputs {
            if let Some(t) = inits.get(i.as_str()) {
                want.insert(i, t);
            } else if let Some(t) = consts.get(i.as_str()) {
                want.insert(i, t);
            }
        }
        for (i, t) in &want {
            let Some(td) = l.weights.get(*i) else {
                return bad("weight-lost", format!("layer {k} ({canon}): constant input '{i}' has no weight"));
            };
            if let Err(e) = same_tensor(t, td) {
                return bad("weight-value", format!("layer {k} ({canon}): weight '{i}': {e}"));
            }
        }
        for i in l.weights.keys() {
            check!(want.contains_key(i.as_str()), "weight-invented", "layer {k} ({canon}): weight '{i}' is not a constant of the model");
        }
        for (name, a) in &n.attrs {
            match l.attributes.get(name) {
                Some(v) => {
                    if let Err(e) = same_attr(a, v) {
                        return bad("layer-attr", format!("layer {k} ({canon}): attribute '{name}': {e}"));
                    }
                }
                None => return bad("layer-attr", format!("layer {k} ({canon}): attribute '{name}' missing")),
            }
            match a {
                A::I(v) => check!(l.get_int_attr(name) == Some(*v), "attr-getter", "get_int_attr({name}) = {:?}", l.get_int_attr(name)),
                A::F(v) => check!(l.get_float_attr(name).map(f32::to_bits) == Some(v.to_bits()), "attr-getter", "get_float_attr({name})"),
                A::Is(v) => check!(l.get_ints_attr(name) == Some(v.as_slice()), "attr-getter", "get_ints_attr({name}) = {:?}", l.get_ints_attr(name)),
                A::S(v) => check!(l.get_string_attr(name) == Some(v.as_str()), "attr-getter", "get_string_attr({name})"),
                _ => {}
            }
        }
    }
    check_topo(m, g)?;
    let dynamic: Vec<&Io> = m.inputs.iter().filter(|i| !inits.contains_key(i.name.as_str())).collect();
    let names: Vec<&str> = dynamic.iter().map(|i| i.name.as_str()).collect();
    check!(g.input_names == names, "input-names", "inputs {:?}, model {names:?}", g.input_names);
    let outs: Vec<&str> = m.outputs.iter().map(|i| i.name.as_str()).collect();
    check!(g.output_names == outs, "output-names", "outputs {:?}, model {outs:?}", g.output_names);
    check!(g.input_shapes.len() == names.len(), "input-shapes", "input_shapes {:?}, inputs {names:?}", g.input_shapes);
    for i in &dynamic {
        let full: Vec<usize> = i
            .dims
            .iter()
            .flatten()
            .map(|d| match d {
                Dim::V(v) if *v > 0 => *v as usize,
                _ => 1,
            })
            .collect();
        let want = if full.len() >= 2 { full[1..].to_vec() } else { full };
        check!(g.input_shapes.get(&i.name) == Some(&want), "input-shape", "input '{}' {:?}: shape {:?}, expected {want:?}", i.name, i.dims, g.input_shapes.get(&i.name));
    }
    Ok(())
}

/// topo_order is a permutation of the layers with producers first
fn check_topo(m: &M, g: &LayerGraph) -> R {
    let n = g.layers.len();
    let mut pos = vec![usize::MAX; n];
    check!(g.topo_order.len() == n, "topo-len", "topological order of {n} layers has {} entries", g.topo_order.len());
    for (k, &l) in g.topo_order.iter().enumerate() {
        check!(l < n && pos[l] == usize::MAX, "topo-perm", "topological order repeats or invents layer {l}");
        pos[l] = k;
    }
    let mut made: HashMap<&str, usize> = HashMap::new();
    for (k, nd) in m.nodes.iter().enumerate() {
        for o in nd.outputs.iter().filter(|o| !o.is_empty()) {
            made.insert(o, k);
        }
    }
    for (k, nd) in m.nodes.iter().enumerate() {
        for i in nd.inputs.iter().filter(|i| !i.is_empty()) {
            if let Some(&d) = made.get(i.as_str()) {
                check!(pos[d] < pos[k], "topo-order", "layer {k} ({}) runs before layer {d} ({}) that makes its input '{i}'", nd.op, m.nodes[d].op);
            }
        }
    }
    let walked: Vec<usize> = g.iter_topo().map(|l| l.id).collect();
    check!(walked == g.topo_order, "topo-iter", "iter_topo walks {walked:?}, order is {:?}", g.topo_order);
    Ok(())
}

fn b02_model(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let mut g = random_gen(&mut r);
    g.finish();
    decorate(&mut g, c);
    // names the lowering knows as aliases
    for n in &mut g.m.nodes {
        if r.chance(1, 6) {
            let alias = match n.op.as_str() {
                "Relu" => *r.pick(&["ReLU", "Int64Relu"]),
                "LeakyRelu" => "LeakyReLU",
                "HardSwish" => "Hardswish",
                "Gemm" => "Int64Gemm",
                "Conv" => "Int64Conv",
                "MaxPool" => "Int64MaxPool",
                "BatchNormalization" => "Int64BatchNormalization",
                "Max" => "Int64Max",
                "Min" => "Int64Min",
                "Clip" => "Int64Clip",
                _ => continue,
            };
            n.op = alias.into();
            c.ev("alias");
        }
    }
    let f = write_model(c, &g.m, &mut r);
    let (p, gr) = load(&f.path, &g.m)?;
    compare_graph(&g.m, &p, &gr)?;
    c.evals += 1;
    c.evn("layers_compared", gr.layers.len() as u64);
    c.evn("weights_compared", gr.layers.iter().map(|l| l.weights.len() as u64).sum());
    if gr.topo_order.windows(2).any(|w| w[0] > w[1]) {
        c.ev("reordered");
    }
    c.seen_str(&format!("{:?}", gr.layers.iter().map(|l| (l.op_type, l.inputs.len())).collect::<Vec<_>>()));
    c.sample = Some(json!({"order": gr.topo_order, "ops": g.ops_used}));
    Ok(())
}

/// dependency graphs of any form: random DAGs in random order, deep chains, cycles
fn b02_topo(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let n = match r.below(10) {
        0 => r.us(200, 1500),
        1 => 1,
        _ => r.us(2, 24),
    };
    let mut m = M { opsets: vec![(None, 18)], ..M::default() };
    m.inputs.push(io("x", &[2]));
    let chain = r.chance(1, 3);
    let mut nodes: Vec<N> = vec![];
    for k in 0..n {
        let fan = r.us(1, 4);
        let mut ins = vec![];
        for _ in 0..fan {
            ins.push(match r.below(8) {
                0 => String::new(), // omitted
                1 => "x".to_string(),
                _ if k == 0 => "x".to_string(),
                _ if chain => format!("t{}", k - 1),
                _ => format!("t{}", r.below(k)),
            });
        }
        if r.chance(1, 5) {
            let again = ins[0].clone();
            ins.push(again);
        }
        let mut outs = vec![format!("t{k}")];
        if r.chance(1, 8) {
            outs.push(String::new());
        }
        if r.chance(1, 10) {
            outs.insert(0, String::new());
        }
        nodes.push(N { name: if r.bool() { Some(format!("n{k}")) } else { None }, op: (*r.pick(&["Max", "Add", "Sum2", "Concat", "TopK", "Split"])).replace("Sum2", "Min"), inputs: ins, outputs: outs, attrs: vec![], domain: None });
    }
    // close a cycle: some ancestor of node b (or b itself) reads b's output
    let cyclic = r.chance(1, 3);
    if cyclic {
        let b = r.below(n);
        let mut a = b;
        for _ in 0..r.us(0, 6) {
            let up: Vec<usize> = nodes[a].inputs.iter().filter_map(|i| i.strip_prefix('t').and_then(|s| s.parse().ok())).collect();
            if up.is_empty() {
                break;
            }
            a = *r.pick(&up);
        }
        let out = format!("t{b}");
        nodes[a].inputs.push(out);
        c.ev(if a == b { "self_cycle" } else { "cycle" });
    }
    m.outputs.push(Io { name: format!("t{}", n - 1), dt: F32, dims: None });
    if r.chance(4, 5) {
        r.shuffle(&mut nodes);
    } else {
        nodes.reverse();
    }
    m.nodes = nodes;
    let f = write_model(c, &m, &mut r);
    let p = must("parse_onnx", &m, || parser::parse_onnx(&f.path))?;
    c.evals += 1;
    match lib("from_parsed", || LayerGraph::from_parsed(&p))? {
        Ok(g) => {
            check!(!cyclic, "cycle-accepted", "a model whose tensors depend on themselves was accepted\n{}", m.summary());
            compare_graph(&m, &p, &g)?;
            c.ev("dag_ordered");
        }
        Err(e) => check!(cyclic, "dag-refused", "an acyclic model was refused: {e}\n{}", m.summary()),
    }
    c.seen_str(&m.nodes.iter().map(|n| format!("{:?}>{:?}", n.inputs, n.outputs)).collect::<String>());
    Ok(())
}

/// operator names: every supported one maps to itself, others are refused
fn b02_ops(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let op = if r.chance(1, 3) { (*r.pick(ALL_OPS)).to_string() } else { odd_op(&mut r) };
    let known = ALL_OPS.contains(&op.as_str())
        || matches!(op.as_str(), "Int64Gemm" | "Int64Conv" | "ReLU" | "Int64Relu" | "Int64MaxPool" | "Int64BatchNormalization" | "Int64Max" | "Int64Min" | "Int64Clip" | "LeakyReLU" | "Hardswish");
    let mut m = M { opsets: vec![(None, 18)], ..M::default() };
    m.inputs.push(io("x", &[2]));
    let attrs = if op == "Constant" { vec![const_attr(&T::scalar_f(1.5), &mut r)] } else { vec![] };
    let mut nd = node("n", &op, if op == "Constant" { &[] } else { &["x"] }, &["y"], vec![]);
    nd.attrs = attrs;
    m.nodes.push(nd);
    m.outputs.push(Io { name: "y".into(), dt: F32, dims: None });
    let f = write_model(c, &m, &mut r);
    let p = must("parse_onnx", &m, || parser::parse_onnx(&f.path))?;
    c.evals += 1;
    match lib("from_parsed", || LayerGraph::from_parsed(&p))? {
        Ok(g) => {
            check!(known, "unknown-op-accepted", "operator '{op}' became {:?}", g.layers[0].op_type);
            compare_graph(&m, &p, &g)?;
            c.ev("op_known");
        }
        Err(e) => {
            check!(!known, "known-op-refused", "operator '{op}' was refused: {e}");
            check!(e.contains(&op), "unknown-op-unnamed", "the refusal does not name '{op}': {e}");
            c.ev("op_unknown_refused");
        }
    }
    c.seen_str(&op);
    Ok(())
}

// ---- B10 -----------------------------------------------------------------------------------------

/// the operators the release documents and reports as supported
const COMPATIBLE: &[&str] = &[
    "Add", "Cast", "Clip", "BatchNormalization", "Div", "Sub", "Mul", "Constant", "Flatten", "Gemm", "MaxPool", "Max", "Min", "Relu", "Reshape",
    "Conv", "Squeeze", "Unsqueeze", "Exp", "Softmax", "Sigmoid", "Gelu", "Tile", "Gather", "LayerNormalization", "Resize", "GridSample",
    "Transpose", "Concat", "Slice", "Shape", "Expand", "MatMul", "AveragePool", "Pad", "Split", "Where", "Pow", "Sqrt", "Tanh", "ReduceSum",
    "Erf", "ConvTranspose", "Log", "ReduceMean", "TopK",
];

/// operators of ONNX (and misspellings) the compiler has no support for
const OTHER: &[&str] = &[
    "Abs", "Acos", "Acosh", "Affine", "ArgMax", "ArgMin", "Asin", "Asinh", "Atan", "Atanh", "Attention", "Bernoulli", "BitShift", "BitwiseAnd", "BlackmanWindow", "CastLike",
    "Ceil", "Celu", "CenterCropPad", "Col2Im", "Compress", "ConcatFromSequence", "ConvInteger", "Cosh", "CumSum", "DFT", "DeformConv",
    "DepthToSpace", "DequantizeLinear", "Det", "Dropout", "DynamicQuantizeLinear", "Einsum", "Elu", "EyeLike", "Floor", "GRU", "GatherND",
    "GlobalLpPool", "GlobalMaxPool", "GreaterOrEqual", "HammingWindow", "HannWindow", "HardSigmoid", "Hardmax", "If", "ImageDecoder", "IsInf",
    "IsNaN", "LRN", "LSTM", "LessOrEqual", "LogSoftmax", "Loop", "LpNormalization", "LpPool", "MatMulInteger", "MaxRoiPool", "MaxUnpool",
    "Mean", "MeanVarianceNormalization", "MelWeightMatrix", "Mish", "Mod", "Multinomial", "NegativeLogLikelihoodLoss", "NonMaxSuppression",
    "NonZero", "OneHot", "Optional", "Or", "PRelu", "QLinearConv", "QLinearMatMul", "QuantizeLinear", "RNN", "RandomNormal", "Reciprocal",
    "ReduceL1", "ReduceL2", "ReduceLogSum", "ReduceMin", "ReduceProd", "ReduceSumSquare", "RegexFullMatch", "ReverseSequence", "RoiAlign",
    "Round", "STFT", "Scan", "Scatter", "ScatterElements", "Selu", "SequenceAt", "Shrink", "Sign", "Sinh", "Size", "SoftmaxCrossEntropyLoss",
    "Softplus", "Softsign", "SpaceToDepth", "SplitToSequence", "StringNormalizer", "Sum", "Tan", "TfIdfVectorizer", "ThresholdedRelu",
    "Trilu", "Unique", "Upsample", "Xor", "relu", "RELU", "Relu ", "Re", "Conv2d", "Convolution", "FusedConv", "QuickGelu", "add", "Gem", "GemmX", "Max2", "Ünknown",
];

fn odd_op(r: &mut Rng) -> String {
    match r.below(8) {
        0 => {
            // one character off a supported name
            let mut s: Vec<char> = r.pick(ALL_OPS).chars().collect();
            let k = r.below(s.len());
            match r.below(3) {
                0 => {
                    s.remove(k);
                }
                1 => s.insert(k, 'x'),
                _ => {
                    s[k] = if s[k].is_uppercase() { s[k].to_ascii_lowercase() } else { s[k].to_ascii_uppercase() };
                }
            }
            let s: String = s.into_iter().collect();
            if s.is_empty() {
                "Q".into()
            } else {
                s
            }
        }
        1 => (*r.pick(&["Int64Gemm", "Int64Conv", "ReLU", "Int64Relu", "Int64MaxPool", "Int64BatchNormalization", "Int64Max", "Int64Min", "Int64Clip", "LeakyReLU", "Hardswish"])).to_string(),
        _ => (*r.pick(OTHER)).to_string(),
    }
}

fn b10_report(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let n = r.us(0, 12);
    let mut m = M { opsets: vec![(None, 18)], ..M::default() };
    m.inputs.push(io("x", &[2]));
    let mode = r.below(3);
    // each operator of the table gets its own case
    let mut pool: Vec<String> = vec![COMPATIBLE[c.idx as usize % COMPATIBLE.len()].to_string()];
    for _ in 0..n {
        pool.push(match mode {
            0 => (*r.pick(COMPATIBLE)).to_string(),
            1 => {
                if r.bool() {
                    odd_op(&mut r)
                } else {
                    (*r.pick(COMPATIBLE)).to_string()
                }
            }
            _ => {
                if r.chance(1, 3) {
                    (*r.pick(ALL_OPS)).to_string()
                } else {
                    OTHER[(c.idx as usize + pool.len()) % OTHER.len()].to_string()
                }
            }
        });
    }
    if r.bool() && pool.len() > 1 {
        let again = pool[r.below(pool.len())].clone();
        pool.push(again);
    }
    r.shuffle(&mut pool);
    for (k, op) in pool.iter().enumerate() {
        let mut nd = node(&format!("n{k}"), op, &["x"], &[&format!("y{k}")], vec![]);
        if op == "Constant" {
            nd.inputs.clear();
            nd.attrs.push(const_attr(&T::scalar_f(1.5), &mut r));
        }
        m.nodes.push(nd);
    }
    let f = write_model(c, &m, &mut r);
    let before = std::fs::read(&f.path).unwrap();
    let (ok, list) = must("is_compatible", &m, || compat::is_compatible(&f.path))?;
    check!(std::fs::read(&f.path).unwrap() == before, "report-touched", "is_compatible changed the model file");
    c.evals += 1;
    // operators the compiler lowers but the report does not promise: either answer is truthful
    let mut bad_ops: Vec<&str> = vec![];
    let mut either: HashSet<&str> = HashSet::new();
    for op in &pool {
        if COMPATIBLE.contains(&op.as_str()) || bad_ops.contains(&op.as_str()) {
            continue;
        }
        if ALL_OPS.contains(&op.as_str()) || matches!(op.as_str(), "ReLU" | "LeakyReLU" | "Hardswish") || op.starts_with("Int64") {
            either.insert(op);
        }
        bad_ops.push(op);
    }
    let strict: Vec<&str> = bad_ops.iter().copied().filter(|o| !either.contains(o)).collect();
    for o in &strict {
        check!(list.iter().any(|l| l == o), "unsupported-unreported", "operator '{o}' is not supported but the report is {list:?}");
    }
    for l in &list {
        check!(bad_ops.contains(&l.as_str()), "supported-reported", "the report lists '{l}', ops of the model {pool:?}");
    }
    let mut seen = HashSet::new();
    check!(list.iter().all(|l| seen.insert(l)), "report-duplicates", "the report repeats operators: {list:?}");
    let order: Vec<&str> = bad_ops.iter().copied().filter(|o| list.iter().any(|l| l == o)).collect();
    check!(order.iter().zip(&list).all(|(a, b)| a == b), "report-order", "report {list:?}, order of occurrence {order:?}");
    check!(ok == list.is_empty(), "report-verdict", "compatible = {ok} with unsupported operators {list:?}");
    c.ev(if ok { "compatible" } else { "incompatible" });
    if ok {
        // what the report promises, the lowering must accept
        let p = must("parse_onnx", &m, || parser::parse_onnx(&f.path))?;
        let _ = must("from_parsed", &m, || LayerGraph::from_parsed(&p))?;
        c.ev("promise_checked");
    }
    c.seen_str(&pool.join(","));
    c.sample = Some(json!({"ops": pool, "report": list, "compatible": ok}));
    Ok(())
}

fn b10_files(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let d = c.scratch();
    let path = d.join("m.onnx");
    c.evals += 1;
    let (what, want): (&str, &str) = match r.below(3) {
        0 => ("missing file", "FILE_NOT_FOUND"),
        1 => {
            // a message without a graph
            let mut o = vec![];
            pb::vint(&mut o, 1, 8);
            if r.bool() {
                pb::str_(&mut o, 2, "p");
            }
            std::fs::write(&path, &o).unwrap();
            ("model without a graph", "LOAD_ERROR")
        }
        _ => {
            // bytes that are no protobuf message: the wire type 7 does not exist
            let n = r.us(1, 40);
            let mut b = r.bytes(n);
            b[0] = 0x0f;
            std::fs::write(&path, &b).unwrap();
            ("bytes that are not protobuf", "LOAD_ERROR")
        }
    };
    match lib("is_compatible", || compat::is_compatible(&path))? {
        Ok((ok, list)) => {
            check!(!ok, "file-compatible", "{what} reported compatible");
            check!(list == [want], "file-reason", "{what}: report {list:?}, documented {want}");
        }
        Err(e) => return bad("file-error", format!("{what}: {e}")),
    }
    c.ev(want);
    c.seen_str(&format!("{what}{}", r.u64() % 64));
    Ok(())
}

// ---- B11 -----------------------------------------------------------------------------------------

fn b11(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let mut m = M { opsets: vec![(None, r.range(9, 18))], ..M::default() };
    m.inputs.push(io("x", &[1, 3, 6, 6]));
    let n = r.us(1, 6);
    let mut cur = "x".to_string();
    let mut ch = 3;
    for k in 0..n {
        let out = format!("t{k}");
        let name = match r.below(5) {
            0 => None,
            1 => Some(String::new()),
            2 => Some("conv".to_string()), // several nodes of one name
            _ => Some(format!("c{k}")),
        };
        if r.chance(1, 4) {
            let op = *r.pick(&["Relu", "ConvTranspose", "Sigmoid"]);
            let mut ins = vec![cur.clone()];
            if op == "ConvTranspose" {
                m.inits.push((format!("w{k}"), T::floats(&[ch, ch, 1, 1], vec![0.5; ch * ch])));
                ins.push(format!("w{k}"));
            }
            m.nodes.push(N { name, op: op.into(), inputs: ins, outputs: vec![out.clone()], attrs: vec![], domain: None });
        } else {
            let co = r.us(1, 5);
            let w = match r.below(8) {
                0 if m.inits.iter().any(|(_, t)| t.dims.len() == 4 && t.dims[1] == ch as i64) => {
                    // shared weights
                    m.inits.iter().find(|(_, t)| t.dims.len() == 4 && t.dims[1] == ch as i64).unwrap().0.clone()
                }
                1 => {
                    let nm = format!("w{k}");
                    m.nodes.push(node(&format!("k{k}"), "Constant", &[], &[&nm], vec![("value", A::T(T::floats(&[co, ch, 1, 1], vec![0.25; co * ch])))]));
                    nm
                }
                _ => {
                    let nm = match r.below(6) {
                        0 => format!("c{}_zero_bias", r.below(n)),
                        1 => "conv_zero_bias".to_string(),
                        2 => format!("t{}_zero_bias", r.below(n)),
                        _ => format!("w{k}"),
                    };
                    if m.inits.iter().any(|x| x.0 == nm) {
                        m.inits.push((format!("v{k}"), T::floats(&[co, ch, 1, 1], vec![0.25; co * ch])));
                        format!("v{k}")
                    } else {
                        let mut t = T::floats(&[co, ch, 1, 1], (0..co * ch).map(|_| r.sf64()).collect());
                        if r.chance(1, 5) {
                            t.dt = F64;
                        }
                        m.inits.push((nm.clone(), t));
                        nm
                    }
                }
            };
            let co = m
                .inits
                .iter()
                .find(|x| x.0 == w)
                .map(|x| x.1.dims[0] as usize)
                .unwrap_or_else(|| match m.nodes.last().unwrap().attr("value") {
                    Some(A::T(t)) => t.dims[0] as usize,
                    _ => 1,
                });
            let mut ins = vec![cur.clone(), w];
            match r.below(5) {
                0 => {
                    let b = format!("b{k}");
                    m.inits.push((b.clone(), T::floats(&[co], vec![0.5; co])));
                    ins.push(b);
                }
                1 if r.bool() => ins.push(String::new()),
                _ => {}
            }
            let attrs = if r.bool() { vec![("kernel_shape".to_string(), A::Is(vec![1, 1]))] } else { vec![] };
            m.nodes.push(N { name, op: "Conv".into(), inputs: ins, outputs: vec![out.clone()], attrs, domain: None });
            ch = co;
        }
        cur = out;
    }
    if r.chance(1, 6) {
        // an initializer of a half-precision type, written by hand below
        c.ev("has_half_weights");
    }
    m.outputs.push(Io { name: cur, dt: F32, dims: None });
    let half = r.chance(1, 6);
    let mut parts = pb::graph_parts(&m, &mut r);
    if half {
        let dt = *r.pick(&[10i64, 16]);
        let mut t = vec![];
        for d in [2, 1, 1, 1] {
            pb::vint(&mut t, 1, d);
        }
        pb::vint(&mut t, 2, dt);
        pb::bytes(&mut t, 9, &[0, 60, 0, 60]);
        pb::str_(&mut t, 8, "hw");
        parts[2].push((5, t));
        let nb = pb::node(&node("hconv", "Conv", &["hx", "hw"], &["hy"], vec![]), &mut r);
        parts[0].push((1, nb));
        parts[3].push((11, pb::value_info(&Io { name: "hx".into(), dt: dt as i32, dims: None })));
    }
    let g = pb::assemble(parts, &mut r);
    let bytes = pb::wrap(&m, g, &mut r);
    let f = write_bytes(c, &bytes);
    let in_place = r.bool();
    let dst = if in_place { f.path.clone() } else { f.path.with_extension("out") };
    if !in_place && r.bool() {
        std::fs::write(&dst, vec![0xffu8; bytes.len() * 2 + 100]).unwrap(); // an older, longer file
    }
    must("add_zero_bias_to_conv", &m, || compat::add_zero_bias_to_conv(&f.path, &dst))?;
    if !in_place {
        check!(std::fs::read(&f.path).unwrap() == bytes, "source-touched", "the input model changed");
    }
    let a = ModelProto::decode(bytes.as_slice()).expect("harness writes protobuf");
    let out = std::fs::read(&dst).unwrap();
    let b = match ModelProto::decode(out.as_slice()) {
        Ok(b) => b,
        Err(e) => return bad("output-unreadable", format!("the rewritten model does not decode: {e}")),
    };
    let added = verify_rewrite(&a, &b, &m)?;
    c.evals += 1;
    c.evn("biases_added", added as u64);
    c.ev(if in_place { "in_place" } else { "to_new_file" });
    // every Conv is now as complete as it can be: a second pass changes nothing
    let again = f.path.with_extension("again");
    must("add_zero_bias_to_conv", &m, || compat::add_zero_bias_to_conv(&dst, &again))?;
    let b2 = ModelProto::decode(std::fs::read(&again).unwrap().as_slice());
    check!(b2.as_ref().ok() == Some(&b), "not-idempotent", "a second pass changed the model\n{}", m.summary());
    if !half {
        // the rewritten model loads, and its new biases are zeros of the right length
        let (_, gr) = load(&dst, &m)?;
        for (l, nd) in gr.layers.iter().zip(&m.nodes) {
            if nd.op == "Conv" && nd.inputs.len() == 2 && l.inputs.len() == 3 {
                let w = l.weights.get(&l.inputs[1]);
                let bw = l.weights.get(&l.inputs[2]);
                let (Some(w), Some(bw)) = (w, bw) else { return bad("bias-unloaded", format!("Conv {} lost its weight or bias", l.name)) };
                check!(bw.dims == [w.dims[0]] && bw.as_f64_vec().iter().all(|v| *v == 0.0) && bw.as_f64_vec().len() as i64 == w.dims[0], "bias-value", "bias {:?} for weights {:?}", bw, w.dims);
            }
        }
        c.ev("reloaded");
    }
    c.seen_str(&m.nodes.iter().map(|n| format!("{}{:?}{}", n.op, n.name, n.inputs.len())).collect::<String>());
    c.sample = Some(json!({"model": m.summary(), "added": added}));
    Ok(())
}

fn verify_rewrite(a: &ModelProto, b: &ModelProto, m: &M) -> Result<usize, crate::report::Bad> {
    let ga = a.graph.as_ref().unwrap();
    let Some(gb) = b.graph.as_ref() else { return bad("graph-lost", "no graph") };
    check!(ga.node.len() == gb.node.len(), "nodes-changed", "{} nodes became {}", ga.node.len(), gb.node.len());
    let mut taken: HashSet<String> = HashSet::new();
    for n in &ga.node {
        taken.extend(n.input.iter().cloned());
        taken.extend(n.output.iter().cloned());
    }
    taken.extend(ga.initializer.iter().filter_map(|i| i.name.clone()));
    taken.extend(ga.input.iter().filter_map(|i| i.name.clone()));
    let mut fresh: HashMap<String, (i64, i32)> = HashMap::new();
    for (x, y) in ga.node.iter().zip(&gb.node) {
        let w = x.input.get(1).and_then(|n| ga.initializer.iter().find(|i| i.name.as_ref() == Some(n)));
        let due = x.op_type.as_deref() == Some("Conv") && x.input.len() == 2 && w.is_some_and(|w| !w.dims.is_empty());
        if !due {
            check!(x == y, "node-changed", "a node that needs no bias changed: {x:?} became {y:?}");
            continue;
        }
        let mut y2 = y.clone();
        check!(y2.input.len() == 3, "bias-missing", "Conv {:?} has inputs {:?}", y.name, y.input);
        let bias = y2.input.pop().unwrap();
        check!(*x == y2, "node-changed", "{x:?} became {y:?}");
        check!(!bias.is_empty() && !taken.contains(&bias), "bias-name-taken", "the new bias of Conv {:?} is called '{bias}', a tensor the model already had\n{}", y.name, m.summary());
        let w = w.unwrap();
        let key = (w.dims[0], w.data_type.unwrap_or(1));
        if let Some(old) = fresh.insert(bias.clone(), key) {
            // sharing one zero tensor would be fine if it fits both
            check!(old == key, "bias-shared", "'{bias}' serves Convs of {old:?} and {key:?}");
        }
    }
    let mut rest = gb.initializer.clone();
    for i in &ga.initializer {
        let Some(k) = rest.iter().position(|j| j == i) else {
            return bad("initializer-changed", format!("initializer {:?} is gone or changed", i.name));
        };
        rest.remove(k);
    }
    check!(rest.len() == fresh.len(), "initializer-count", "{} new initializers for {} new biases", rest.len(), fresh.len());
    for t in &rest {
        let name = t.name.clone().unwrap_or_default();
        let Some(&(len, dt)) = fresh.get(&name) else {
            return bad("initializer-invented", format!("new initializer '{name}' is nobody's bias"));
        };
        check!(t.dims == [len] && t.data_type == Some(dt), "bias-shape", "bias '{name}': dims {:?} type {:?}, expected [{len}] {dt}", t.dims, t.data_type);
        let width = match dt {
            11 => 8,
            10 | 16 => 2,
            _ => 4,
        };
        match &t.raw_data {
            Some(raw) => check!(raw.len() as i64 == len * width && raw.iter().all(|x| *x == 0), "bias-bytes", "bias '{name}' of type {dt}: {} bytes for {len} elements", raw.len()),
            None => check!(
                t.float_data.iter().all(|v| *v == 0.0) && t.double_data.iter().all(|v| *v == 0.0) && (t.float_data.len() + t.double_data.len() + t.int32_data.len()) as i64 == len,
                "bias-values",
                "bias '{name}' is not {len} zeros"
            ),
        }
    }
    // everything else is the same model
    let mut a2 = a.clone();
    let mut b2 = b.clone();
    for g in [a2.graph.as_mut().unwrap(), b2.graph.as_mut().unwrap()] {
        g.node.clear();
        g.initializer.clear();
    }
    check!(a2 == b2, "model-changed", "the rewrite changed more than nodes and initializers");
    Ok(fresh.len())
}

fn b11_errors(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let d = c.scratch();
    let (src, dst) = (d.join("in.onnx"), d.join("out.onnx"));
    let old = r.bytes(20);
    let had = r.bool();
    if had {
        std::fs::write(&dst, &old).unwrap();
    }
    let what = match r.below(3) {
        0 => "missing input",
        1 => {
            let mut b = r.bytes(30);
            b[0] = 0x0f;
            std::fs::write(&src, b).unwrap();
            "unreadable input"
        }
        _ => {
            let mut o = vec![];
            pb::vint(&mut o, 1, 8);
            std::fs::write(&src, o).unwrap();
            "no graph"
        }
    };
    c.evals += 1;
    match lib("add_zero_bias_to_conv", || compat::add_zero_bias_to_conv(&src, &dst))? {
        Ok(()) => return bad("rewrite-accepted", format!("{what}: the rewrite reported success")),
        Err(_) => c.ev("refused"),
    }
    if had {
        check!(std::fs::read(&dst).ok() == Some(old), "destination-clobbered", "{what}: the existing output file changed");
    } else {
        check!(!dst.exists(), "destination-created", "{what}: an output file appeared");
    }
    c.seen_str(&format!("{what}{had}"));
    Ok(())
}

pub fn spec_b01() -> Spec {
    Spec {
        id: "B01",
        level: "exploration",
        rule: "random ONNX models written by an independent protobuf encoder (raw, typed, packed and unpacked tensor storage; special floats; odd, empty, duplicate and absent node names; unknown fields; interleaved sections) are parsed, and every node, attribute, tensor element, input/output spec and opset is compared with what was written; tensors in every ONNX element type, stored as declared, with a wrong element count, cut mid-element or externally, must come back exactly or be refused; distinct = operator set and initializer count, or (type, dims, encoding, count)",
        assumptions: &["the encoder in harness/src/onnx/pb.rs follows the protobuf wire format and onnx.proto"],
        require: &[("nodes_compared", 5000), ("initializers_compared", 2000), ("attributes_compared", 3000), ("several_unnamed_nodes", 50), ("accepted_dt1_raw", 20), ("accepted_dt1_typed", 20), ("refused_wrong_count_dt1", 20), ("refused_wrong_count_dt7", 20)],
        families: vec![
            Family { name: "model", quick: 20_000, thorough: 200_000, f: b01_model },
            Family { name: "storage", quick: 40_000, thorough: 400_000, f: b01_storage },
        ],
    }
}

pub fn spec_b02() -> Spec {
    Spec {
        id: "B02",
        level: "exploration",
        rule: "random models and random dependency graphs (shuffled nodes, repeated and omitted inputs and outputs, chains of up to 1500 nodes, cycles of any length) are lowered; layers, weights, attributes, inputs and shapes are compared with the model, the topological order is checked edge by edge, cyclic models and unknown operators must be refused; distinct = layer/edge structure",
        assumptions: &["tensor names have one producer (ONNX's single-assignment rule)"],
        require: &[("layers_compared", 5000), ("weights_compared", 2000), ("reordered", 500), ("cycle", 100), ("self_cycle", 50), ("dag_ordered", 500), ("op_unknown_refused", 200)],
        families: vec![
            Family { name: "model", quick: 16_000, thorough: 200_000, f: b02_model },
            Family { name: "topo", quick: 12_000, thorough: 150_000, f: b02_topo },
            Family { name: "ops", quick: 1500, thorough: 20_000, f: b02_ops },
        ],
    }
}

pub fn spec_b10() -> Spec {
    Spec {
        id: "B10",
        level: "exploration",
        rule: "models over random multisets of operator names (each supported one in turn, every other ONNX operator, misspellings) are checked for compatibility; verdict, list content, order and duplicates are compared with the model, and every model reported compatible is lowered; distinct = operator sequence",
        assumptions: &["the operators the report called supported at the pinned commit are the release's promise; operators the compiler lowers beyond that list may be reported either way"],
        require: &[("compatible", 300), ("incompatible", 300), ("promise_checked", 300), ("FILE_NOT_FOUND", 20), ("LOAD_ERROR", 40)],
        families: vec![
            Family { name: "report", quick: 10_000, thorough: 100_000, f: b10_report },
            Family { name: "files", quick: 200, thorough: 2000, f: b10_files },
        ],
    }
}

pub fn spec_b11() -> Spec {
    Spec {
        id: "B11",
        level: "exploration",
        rule: "models with Convs (with and without bias, unnamed, of equal names, sharing weights, double/half precision, weights from Constant nodes, tensors whose names collide with the generated ones) are rewritten, in place or to another file; the result is decoded and compared message by message with the original plus exactly the missing zero biases; distinct = node sequence",
        assumptions: &["prost decodes protobuf correctly"],
        require: &[("biases_added", 1000), ("in_place", 300), ("to_new_file", 300), ("reloaded", 500), ("refused", 50)],
        families: vec![
            Family { name: "rewrite", quick: 14_000, thorough: 150_000, f: b11 },
            Family { name: "errors", quick: 200, thorough: 2000, f: b11_errors },
        ],
    }
}
