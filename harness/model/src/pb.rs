//! A hand-written protobuf writer for ONNX models, independent of the crate under test.
use crate::ir::*;
use crate::rng::Rng;

pub fn varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push((v as u8) | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
fn key(out: &mut Vec<u8>, field: u32, wire: u32) {
    varint(out, u64::from((field << 3) | wire));
}
pub fn vint(out: &mut Vec<u8>, field: u32, v: i64) {
    key(out, field, 0);
    varint(out, v as u64);
}
pub fn bytes(out: &mut Vec<u8>, field: u32, b: &[u8]) {
    key(out, field, 2);
    varint(out, b.len() as u64);
    out.extend_from_slice(b);
}
pub fn str_(out: &mut Vec<u8>, field: u32, s: &str) {
    bytes(out, field, s.as_bytes());
}
pub fn f32_(out: &mut Vec<u8>, field: u32, v: f32) {
    key(out, field, 5);
    out.extend_from_slice(&v.to_le_bytes());
}
fn rep_ints(out: &mut Vec<u8>, field: u32, v: &[i64], packed: bool) {
    if v.is_empty() {
        return;
    }
    if packed {
        let mut b = vec![];
        for &x in v {
            varint(&mut b, x as u64);
        }
        bytes(out, field, &b);
    } else {
        for &x in v {
            vint(out, field, x);
        }
    }
}
fn rep_f32(out: &mut Vec<u8>, field: u32, v: &[f32], packed: bool) {
    if v.is_empty() {
        return;
    }
    if packed {
        let b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
        bytes(out, field, &b);
    } else {
        for &x in v {
            f32_(out, field, x);
        }
    }
}
fn rep_f64(out: &mut Vec<u8>, field: u32, v: &[f64], packed: bool) {
    if v.is_empty() {
        return;
    }
    if packed {
        let b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
        bytes(out, field, &b);
    } else {
        for &x in v {
            key(out, field, 1);
            out.extend_from_slice(&x.to_le_bytes());
        }
    }
}

/// How a tensor's payload is stored.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Store {
    Raw,
    Typed { packed: bool },
}

pub fn pick_store(r: &mut Rng) -> Store {
    if r.bool() {
        Store::Raw
    } else {
        Store::Typed { packed: r.bool() }
    }
}

pub fn tensor(t: &T, name: Option<&str>, st: Store) -> Vec<u8> {
    let mut o = vec![];
    rep_ints(&mut o, 1, &t.dims, matches!(st, Store::Typed { packed: true }));
    vint(&mut o, 2, i64::from(t.dt));
    match st {
        Store::Raw => {
            let raw: Vec<u8> = match t.dt {
                F32 => t.f.iter().flat_map(|v| (*v as f32).to_le_bytes()).collect(),
                F64 => t.f.iter().flat_map(|v| v.to_le_bytes()).collect(),
                I32 => t.i.iter().flat_map(|v| (*v as i32).to_le_bytes()).collect(),
                I64 => t.i.iter().flat_map(|v| v.to_le_bytes()).collect(),
                BOOL => t.i.iter().map(|v| u8::from(*v != 0)).collect(),
                _ => t.i.iter().map(|v| *v as u8).collect(),
            };
            bytes(&mut o, 9, &raw);
        }
        Store::Typed { packed } => match t.dt {
            F32 => rep_f32(&mut o, 4, &t.f.iter().map(|v| *v as f32).collect::<Vec<_>>(), packed),
            F64 => rep_f64(&mut o, 10, &t.f, packed),
            I64 => rep_ints(&mut o, 7, &t.i, packed),
            _ => rep_ints(&mut o, 5, &t.i, packed),
        },
    }
    if let Some(n) = name {
        str_(&mut o, 8, n);
    }
    o
}

pub fn attribute(name: &str, a: &A, r: &mut Rng) -> Vec<u8> {
    let mut o = vec![];
    str_(&mut o, 1, name);
    let ty = match a {
        A::F(v) => {
            f32_(&mut o, 2, *v);
            1
        }
        A::I(v) => {
            vint(&mut o, 3, *v);
            2
        }
        A::S(s) => {
            str_(&mut o, 4, s);
            3
        }
        A::T(t) => {
            let st = pick_store(r);
            bytes(&mut o, 5, &tensor(t, if r.bool() { Some("value") } else { None }, st));
            4
        }
        A::Fs(v) => {
            rep_f32(&mut o, 7, v, r.bool());
            6
        }
        A::Is(v) => {
            rep_ints(&mut o, 8, v, r.bool());
            7
        }
    };
    vint(&mut o, 20, ty);
    o
}

pub fn node(n: &N, r: &mut Rng) -> Vec<u8> {
    let mut o = vec![];
    for i in &n.inputs {
        str_(&mut o, 1, i);
    }
    for i in &n.outputs {
        str_(&mut o, 2, i);
    }
    if let Some(name) = &n.name {
        str_(&mut o, 3, name);
    }
    str_(&mut o, 4, &n.op);
    for (k, a) in &n.attrs {
        bytes(&mut o, 5, &attribute(k, a, r));
    }
    if r.chance(1, 8) {
        str_(&mut o, 6, "doc");
    }
    match &n.domain {
        Some(d) => str_(&mut o, 7, d),
        None if r.chance(1, 8) => str_(&mut o, 7, ""),
        None => {}
    }
    o
}

pub fn value_info(io: &Io) -> Vec<u8> {
    let mut o = vec![];
    str_(&mut o, 1, &io.name);
    let mut tt = vec![];
    vint(&mut tt, 1, i64::from(io.dt));
    if let Some(dims) = &io.dims {
        let mut sh = vec![];
        for d in dims {
            let mut dm = vec![];
            match d {
                Dim::V(v) => vint(&mut dm, 1, *v),
                Dim::P(s) => str_(&mut dm, 2, s),
                Dim::Missing => {}
            }
            bytes(&mut sh, 1, &dm);
        }
        bytes(&mut tt, 2, &sh);
    }
    let mut ty = vec![];
    bytes(&mut ty, 1, &tt);
    bytes(&mut o, 2, &ty);
    o
}

/// (field, payload) sections of the graph, in order per field
pub fn graph_parts(m: &M, r: &mut Rng) -> Vec<Vec<(u32, Vec<u8>)>> {
    let nodes = m.nodes.iter().map(|n| (1, node(n, r))).collect();
    let inits = m
        .inits
        .iter()
        .map(|(name, t)| {
            let st = pick_store(r);
            (5, tensor(t, Some(name), st))
        })
        .collect();
    let ins = m.inputs.iter().map(|i| (11, value_info(i))).collect();
    let outs = m.outputs.iter().map(|i| (12, value_info(i))).collect();
    vec![nodes, vec![(2, b"g".to_vec())], inits, ins, outs]
}

/// a protobuf message from its sections; fields may come interleaved
pub fn assemble(parts: Vec<Vec<(u32, Vec<u8>)>>, r: &mut Rng) -> Vec<u8> {
    let mut o = vec![];
    if r.chance(2, 3) {
        for (f, b) in parts.into_iter().flatten() {
            bytes(&mut o, f, &b);
        }
        return o;
    }
    let mut qs: Vec<std::collections::VecDeque<(u32, Vec<u8>)>> = parts.into_iter().map(Into::into).collect();
    while qs.iter().any(|q| !q.is_empty()) {
        let k = r.below(qs.len());
        if let Some((f, b)) = qs[k].pop_front() {
            bytes(&mut o, f, &b);
        }
        if r.chance(1, 20) {
            // a field no ONNX version knows
            bytes(&mut o, 999, b"x");
        }
    }
    o
}

pub fn model(m: &M, r: &mut Rng) -> Vec<u8> {
    let parts = graph_parts(m, r);
    let g = assemble(parts, r);
    wrap(m, g, r)
}

/// ModelProto around a serialized graph
pub fn wrap(m: &M, g: Vec<u8>, r: &mut Rng) -> Vec<u8> {
    let mut o = vec![];
    vint(&mut o, 1, 8);
    if r.bool() {
        str_(&mut o, 2, "vmon");
    }
    let ops = |o: &mut Vec<u8>| {
        for (d, v) in &m.opsets {
            let mut s = vec![];
            if let Some(d) = d {
                str_(&mut s, 1, d);
            }
            vint(&mut s, 2, *v);
            bytes(o, 8, &s);
        }
    };
    if r.bool() {
        ops(&mut o);
        bytes(&mut o, 7, &g);
    } else {
        bytes(&mut o, 7, &g);
        ops(&mut o);
    }
    o
}
