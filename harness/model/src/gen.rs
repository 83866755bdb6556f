//! Random model generator. Every tensor's value is known (the reference executor runs as nodes
//! are added), so operator parameters can be drawn in and out of the valid range on purpose.
use crate::exec::{self, E, V};
use crate::ir::*;
use crate::rng::Rng;
use std::collections::HashMap;

#[derive(Clone)]
pub struct Cfg {
    pub ops: Vec<&'static str>,
    /// also use shape arithmetic the compiler may decline to evaluate
    pub partial: bool,
    /// deliver integer operator parameters through shape arithmetic the compiler has to fold
    pub fold: bool,
    /// deliver parameters and weights through Constant nodes as well as initializers
    pub const_nodes: bool,
    /// draw parameters beyond the valid range
    pub wild: bool,
    /// magnitude of float constants
    pub amp: f64,
    /// vary the interpolation attributes of Resize and GridSample
    pub sampling: bool,
    pub max_numel: usize,
    pub min_rank: usize,
    pub max_rank: usize,
    /// window attributes only in their plain form (no dilation for pools)
    pub batch_one: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg { ops: ALL_OPS.to_vec(), fold: true, partial: false, const_nodes: true, wild: false, amp: 2.0, max_numel: 600, min_rank: 1, max_rank: 5, batch_one: false, sampling: false }
    }
}

pub const ALL_OPS: &[&str] = &[
    "Add", "Div", "Sub", "Mul", "Gemm", "Conv", "Relu", "MaxPool", "BatchNormalization", "Max", "Min", "Cast", "Clip", "Exp",
    "Reshape", "Flatten", "Squeeze", "Unsqueeze", "Constant", "Softmax", "Sigmoid", "Gelu", "Tile", "Gather",
    "LayerNormalization", "Resize", "GridSample", "Transpose", "Concat", "Slice", "TopK", "Shape", "Log", "Expand",
    "ReduceMean", "MatMul", "AveragePool", "Pad", "Split", "Where", "Pow", "Sqrt", "Tanh", "ReduceSum", "Erf",
    "ConvTranspose", "LeakyRelu", "Identity", "Neg", "HardSwish", "GlobalAveragePool", "InstanceNormalization",
    "GroupNormalization", "Not", "And", "Equal", "Greater", "Less", "ConstantOfShape", "Sin", "Cos", "Range", "ReduceMax",
    "ScatterND", "GatherElements",
];

/// one of the ways ONNX spells the value of a Constant node
pub fn const_attr(t: &T, r: &mut Rng) -> (String, A) {
    if r.chance(1, 3) {
        match (t.dims.len(), t.dt) {
            (0, F32) => return ("value_float".into(), A::F(t.f[0] as f32)),
            (0, I64) => return ("value_int".into(), A::I(t.i[0])),
            (1, F32) => return ("value_floats".into(), A::Fs(t.f.iter().map(|&v| v as f32).collect())),
            (1, I64) => return ("value_ints".into(), A::Is(t.i.clone())),
            _ => {}
        }
    }
    ("value".into(), A::T(t.clone()))
}

pub struct Gen {
    pub r: Rng,
    pub cfg: Cfg,
    pub m: M,
    pub env: HashMap<String, V>,
    /// data tensors by kind, in creation order
    pub fl: Vec<String>,
    pub ints: Vec<String>,
    pub bools: Vec<String>,
    n: usize,
    pub ops_used: Vec<String>,
    /// operators used to build folded parameters
    pub fold_ops: Vec<&'static str>,
    /// set when the last node is known to be inconsistent (rule tag, message)
    pub broken: Option<(&'static str, String)>,
    pub const_names: Vec<String>,
}

type P = Option<N>;

impl Gen {
    pub fn new(r: Rng, cfg: Cfg) -> Gen {
        Gen {
            r,
            cfg,
            m: M { opsets: vec![(None, 18)], ..M::default() },
            env: HashMap::new(),
            fl: vec![],
            ints: vec![],
            bools: vec![],
            n: 0,
            ops_used: vec![],
            fold_ops: vec![],
            broken: None,
            const_names: vec![],
        }
    }
    pub fn fresh(&mut self, p: &str) -> String {
        self.n += 1;
        format!("{p}{}", self.n)
    }
    pub fn floats(&mut self, n: usize) -> Vec<f64> {
        let amp = self.cfg.amp;
        (0..n)
            .map(|_| {
                let v = self.r.sf64() * amp;
                f64::from(v as f32)
            })
            .collect()
    }
    pub fn dim(&mut self) -> usize {
        *self.r.pick(&[1, 1, 2, 2, 3, 3, 4, 5, 6])
    }
    pub fn shape(&mut self, rank: usize) -> Vec<usize> {
        loop {
            let s: Vec<usize> = (0..rank).map(|_| self.dim()).collect();
            if exec::numel(&s) <= self.cfg.max_numel {
                return s;
            }
        }
    }
    pub fn add_input(&mut self, shape: &[usize]) -> String {
        let name = self.fresh("in");
        let mut io = io(&name, shape);
        // an unspecified leading dimension is taken to be 1
        if let Some(d) = &mut io.dims {
            for k in 0..d.len() {
                if shape[k] == 1 && self.r.chance(1, 4) {
                    d[k] = if self.r.bool() { Dim::P("N".into()) } else { Dim::Missing };
                }
            }
        }
        self.m.inputs.push(io);
        let v = self.floats(exec::numel(shape)).iter().map(|v| v / self.cfg.amp).collect();
        self.env.insert(name.clone(), V::fl(shape.to_vec(), v));
        self.fl.push(name.clone());
        name
    }
    pub fn random_inputs(&mut self) {
        let k = *self.r.pick(&[1, 1, 1, 2, 2, 3]);
        for _ in 0..k {
            let lo = self.cfg.min_rank;
            let hi = self.cfg.max_rank;
            let rank = if self.r.bool() && lo <= 4 && hi >= 4 { 4 } else { self.r.us(lo, hi) };
            let mut s = self.shape(rank);
            if self.cfg.batch_one && !s.is_empty() {
                s[0] = 1;
            }
            self.add_input(&s);
        }
    }

    // ---- constants -------------------------------------------------------------------------
    pub fn add_init(&mut self, t: T) -> String {
        let name = self.fresh("w");
        self.env.insert(name.clone(), V::from_t(&t));
        if self.r.chance(1, 10) {
            // older exporters also list initializers among the graph inputs
            self.m.inputs.push(Io { name: name.clone(), dt: t.dt, dims: Some(t.dims.iter().map(|&d| Dim::V(d)).collect()) });
        }
        self.m.inits.push((name.clone(), t));
        self.const_names.push(name.clone());
        name
    }
    fn node_name(&mut self, p: &str) -> Option<String> {
        let n = self.fresh(&format!("n_{p}_"));
        if self.r.chance(1, 8) {
            None
        } else {
            Some(n)
        }
    }
    pub fn add_const_node(&mut self, t: T) -> String {
        let out = self.fresh("k");
        let name = self.node_name("c");
        self.env.insert(out.clone(), V::from_t(&t));
        let attr = const_attr(&t, &mut self.r);
        self.m.nodes.push(N { name, op: "Constant".into(), inputs: vec![], outputs: vec![out.clone()], attrs: vec![attr], domain: None });
        self.const_names.push(out.clone());
        out
    }
    /// a constant, by initializer or Constant node
    pub fn konst(&mut self, t: T) -> String {
        if self.cfg.const_nodes && self.r.chance(1, 3) {
            self.add_const_node(t)
        } else {
            self.add_init(t)
        }
    }
    pub fn fconst(&mut self, shape: &[usize]) -> String {
        let v = self.floats(exec::numel(shape));
        self.konst(T::floats(shape, v))
    }
    /// an emitted helper node; returns its single output
    pub fn emit(&mut self, op: &'static str, ins: Vec<String>, attrs: Vec<(&str, A)>) -> String {
        let out = self.fresh("h");
        let name = self.node_name("h");
        let nd = N { name, op: op.into(), inputs: ins, outputs: vec![out.clone()], attrs: attrs.into_iter().map(|(k, v)| (k.to_string(), v)).collect(), domain: None };
        let v = exec::run_node(&nd, &self.env).unwrap_or_else(|e| panic!("helper {op} failed: {e:?} {nd:?}"));
        self.env.insert(out.clone(), v.into_iter().next().unwrap());
        self.m.nodes.push(nd);
        self.fold_ops.push(op);
        out
    }
    /// integer parameter (1-D or scalar)
    pub fn param(&mut self, t: T) -> String {
        let want = t.clone();
        let name = if self.cfg.fold && self.r.chance(1, 2) { self.folded(t, 3) } else { self.konst(t) };
        let got = &self.env[&name];
        assert!(got.i == want.i && got.shape == want.shape(), "folded parameter differs: {got:?} vs {want:?}");
        name
    }
    /// a float scalar, directly or picked out of a constant vector
    fn fscalar(&mut self, v: f64) -> String {
        if !self.cfg.fold || self.r.bool() {
            return self.konst(T::scalar_f(v));
        }
        let len = self.r.us(1, 4);
        let at = self.r.below(len);
        let mut d: Vec<f64> = (0..len).map(|_| self.r.range(-9, 9) as f64 * 0.25).collect();
        d[at] = v;
        let data = self.konst(T::floats(&[len], d));
        if self.r.bool() {
            let ix = self.leaf(T::scalar_i(at as i64));
            return self.emit("Gather", vec![data, ix], vec![]);
        }
        let s = self.leaf(T::ints(&[at as i64]));
        let e = self.leaf(T::ints(&[at as i64 + 1]));
        let one = self.emit("Slice", vec![data, s, e], vec![]);
        self.emit("Squeeze", vec![one], vec![])
    }
    fn leaf(&mut self, t: T) -> String {
        self.konst(t)
    }
    fn sub(&mut self, t: T, depth: usize) -> String {
        if depth > 0 && self.r.chance(1, 2) {
            self.folded(t, depth - 1)
        } else {
            self.leaf(t)
        }
    }
    /// build `t` (i64, rank 0 or 1) out of shape arithmetic
    pub fn folded(&mut self, t: T, depth: usize) -> String {
        let v = t.i.clone();
        let n = v.len();
        let junk = |r: &mut Rng| r.range(-3, 9);
        if t.dims.is_empty() {
            // scalars
            let x = v[0];
            match self.r.below(5) {
                0 => {
                    // Gather(vector, scalar index)
                    let len = self.r.us(1, 5);
                    let at = self.r.below(len);
                    let mut d: Vec<i64> = (0..len).map(|_| junk(&mut self.r)).collect();
                    d[at] = x;
                    let data = self.sub(T::ints(&d), depth);
                    let idx = if self.r.bool() { at as i64 } else { at as i64 - len as i64 };
                    let ix = self.leaf(T::scalar_i(idx));
                    let a = if self.r.bool() { vec![("axis", A::I(if self.r.bool() { 0 } else { -1 }))] } else { vec![] };
                    self.emit("Gather", vec![data, ix], a)
                }
                1 => {
                    let d = self.sub(T::ints(&[x]), depth);
                    match self.r.below(3) {
                        0 => self.emit("Squeeze", vec![d], vec![]),
                        1 => {
                            let ax = *self.r.pick(&[0, -1]);
                            let a = self.leaf(T::ints(&[ax]));
                            self.emit("Squeeze", vec![d, a], vec![])
                        }
                        _ => {
                            let ax = *self.r.pick(&[0, -1]);
                            self.emit("Squeeze", vec![d], vec![("axes", A::Is(vec![ax]))])
                        }
                    }
                }
                2 if x.abs() < 1 << 30 => {
                    let d = self.leaf(T { dims: vec![], dt: I32, f: vec![], i: vec![x] });
                    self.emit("Cast", vec![d], vec![("to", A::I(i64::from(I64)))])
                }
                3 if x >= 0 && x <= 40 => {
                    // a dimension of an existing shape
                    let pad = self.r.us(0, 1);
                    let mut sh = vec![1usize; pad];
                    sh.push(x as usize);
                    let src = self.fconst(&sh);
                    let s = self.emit("Shape", vec![src], vec![]);
                    let ix = self.leaf(T::scalar_i(pad as i64));
                    self.emit("Gather", vec![s, ix], vec![("axis", A::I(0))])
                }
                _ => {
                    // float holding a fraction, cut off by the cast
                    let frac = if x >= 0 { 0.75 } else { -0.75 };
                    let f = if self.r.bool() { x as f64 } else { x as f64 + frac };
                    if x.abs() > 1 << 20 {
                        return self.leaf(t);
                    }
                    let d = self.leaf(T::scalar_f(f));
                    self.emit("Cast", vec![d], vec![("to", A::I(i64::from(I64)))])
                }
            }
        } else {
            match self.r.below(13) {
                // concatenation of pieces
                0 | 1 if n >= 2 => {
                    let mut parts = vec![];
                    let mut at = 0;
                    while at < n {
                        let k = self.r.us(1, n - at);
                        let k = if at == 0 && k == n { n - 1 } else { k };
                        let piece = v[at..at + k].to_vec();
                        let p = if k == 1 && self.r.bool() {
                            let s = self.sub_scalar(piece[0], depth);
                            self.unsq(s)
                        } else {
                            self.sub(T::ints(&piece), depth)
                        };
                        parts.push(p);
                        at += k;
                    }
                    if self.cfg.partial && self.r.chance(1, 3) {
                        let e = self.empty_piece();
                        let at = self.r.us(0, parts.len());
                        parts.insert(at, e);
                    }
                    let ax = *self.r.pick(&[0, -1]);
                    self.emit("Concat", parts, vec![("axis", A::I(ax))])
                }
                // I32 -> I64
                2 if v.iter().all(|x| x.abs() < 1 << 30) => {
                    let d = self.leaf(T { dims: t.dims.clone(), dt: I32, f: vec![], i: v });
                    self.emit("Cast", vec![d], vec![("to", A::I(i64::from(I64)))])
                }
                // float -> I64 (fractions are cut off)
                3 if v.iter().all(|x| x.abs() < 1 << 20) => {
                    let f: Vec<f64> = v
                        .iter()
                        .map(|&x| {
                            let e = *self.r.pick(&[0.0, 0.25, 0.5, 0.75]);
                            if x >= 0 {
                                x as f64 + e
                            } else {
                                x as f64 - e
                            }
                        })
                        .collect();
                    let d = self.leaf(T::floats(&[n], f));
                    self.emit("Cast", vec![d], vec![("to", A::I(i64::from(I64)))])
                }
                // slice out of a longer vector
                4 | 5 => {
                    let step: i64 = *self.r.pick(&[1, 1, 1, 2, 3]);
                    let st = step.unsigned_abs() as usize;
                    let before = self.r.us(0, 3);
                    let after = self.r.us(0, 3);
                    let span = if n == 0 { 0 } else { (n - 1) * st + 1 };
                    let len = before + span + after;
                    let mut d: Vec<i64> = (0..len).map(|_| junk(&mut self.r)).collect();
                    for (k, &x) in v.iter().enumerate() {
                        let p = before + if step > 0 { k * st } else { (n - 1 - k) * st };
                        d[p] = x;
                    }
                    if n == 0 {
                        return self.leaf(t);
                    }
                    let (mut s, mut e) = if step > 0 { (before as i64, (before + span) as i64) } else { ((before + span - 1) as i64, before as i64 - 1) };
                    if step < 0 {
                        if e < 0 {
                            e = *self.r.pick(&[i64::MIN, -(len as i64) - 1, i64::from(i32::MIN)]);
                        } else if self.r.bool() {
                            e -= len as i64;
                        }
                        if s == len as i64 - 1 && self.r.bool() {
                            s = *self.r.pick(&[i64::MAX, -1, len as i64 + 2]);
                        }
                    } else {
                        if after == 0 && self.r.bool() {
                            e = *self.r.pick(&[i64::MAX, len as i64 + 3, i64::from(i32::MAX)]);
                        } else if e < len as i64 && self.r.bool() {
                            e -= len as i64;
                        }
                        if self.r.bool() && s > 0 {
                            s -= len as i64;
                        } else if s == 0 && self.r.chance(1, 3) {
                            s = -(len as i64) - 2;
                        }
                    }
                    let data = self.sub(T::ints(&d), depth);
                    let sn = self.leaf(T::ints(&[s]));
                    let en = self.leaf(T::ints(&[e]));
                    let mut ins = vec![data, sn, en];
                    if step != 1 || self.r.bool() {
                        let form = self.r.below(3);
                        if form == 0 {
                            ins.push(String::new());
                        } else {
                            let ax = if form == 1 { 0 } else { -1 };
                            let a = self.leaf(T::ints(&[ax]));
                            ins.push(a);
                        }
                        if step != 1 || self.r.bool() {
                            let s = self.leaf(T::ints(&[step]));
                            ins.push(s);
                        } else if form == 0 {
                            ins.pop();
                        }
                    }
                    self.emit("Slice", ins, vec![])
                }
                // table lookup
                6 => {
                    if self.r.bool() {
                        let len = n + self.r.us(0, 3);
                        let mut pos: Vec<usize> = (0..len).collect();
                        self.r.shuffle(&mut pos);
                        let mut d: Vec<i64> = (0..len).map(|_| junk(&mut self.r)).collect();
                        for k in 0..n {
                            d[pos[k]] = v[k];
                        }
                        let idx: Vec<i64> = pos[..n].iter().map(|&p| if self.r.bool() { p as i64 } else { p as i64 - len as i64 }).collect();
                        let data = self.sub(T::ints(&d), depth);
                        let ix = self.leaf(T::ints(&idx));
                        self.emit("Gather", vec![data, ix], vec![])
                    } else {
                        // a row or column of a matrix
                        let rows = self.r.us(1, 4);
                        let at = self.r.below(rows);
                        let col = self.r.bool();
                        let mut d: Vec<i64> = (0..rows * n).map(|_| junk(&mut self.r)).collect();
                        for k in 0..n {
                            if col {
                                d[k * rows + at] = v[k];
                            } else {
                                d[at * n + k] = v[k];
                            }
                        }
                        let dims = if col { vec![n, rows] } else { vec![rows, n] };
                        let data = self.folded_nd(&dims, &d, depth.min(2));
                        let iv = if self.r.bool() { at as i64 } else { at as i64 - rows as i64 };
                        let ix = self.leaf(T::scalar_i(iv));
                        let ax = if col { *self.r.pick(&[1, -1]) } else { *self.r.pick(&[0, -2]) };
                        self.emit("Gather", vec![data, ix], vec![("axis", A::I(ax))])
                    }
                }
                7 => {
                    let len = n + self.r.us(0, 3);
                    let mut pos: Vec<usize> = (0..len).collect();
                    self.r.shuffle(&mut pos);
                    let mut d: Vec<i64> = (0..len).map(|_| junk(&mut self.r)).collect();
                    for k in 0..n {
                        d[pos[k]] = v[k];
                    }
                    let idx: Vec<i64> = pos[..n].iter().map(|&p| if self.r.bool() { p as i64 } else { p as i64 - len as i64 }).collect();
                    let data = self.sub(T::ints(&d), depth);
                    let ix = self.leaf(T::ints(&idx));
                    let ax = *self.r.pick(&[0, -1]);
                    self.emit("GatherElements", vec![data, ix], vec![("axis", A::I(ax))])
                }
                // through a matrix and back
                8 => {
                    if self.r.bool() {
                        let d = self.leaf(T::int_nd(&[1, n], v));
                        let ax = *self.r.pick(&[0, -2]);
                        if n == 1 && self.r.bool() {
                            self.emit("Squeeze", vec![d], vec![("axes", A::Is(vec![1]))])
                        } else if self.r.bool() {
                            self.emit("Squeeze", vec![d], vec![("axes", A::Is(vec![ax]))])
                        } else {
                            let a = self.leaf(T::ints(&[ax]));
                            self.emit("Squeeze", vec![d, a], vec![])
                        }
                    } else {
                        let two = n % 2 == 0 && n > 0;
                        let dims = if two { vec![2, n / 2] } else { vec![n, 1] };
                        let d = self.leaf(T::int_nd(&dims, v));
                        let tg = if self.r.bool() { -1 } else { n as i64 };
                        let s = self.leaf(T::ints(&[tg]));
                        self.emit("Reshape", vec![d, s], vec![])
                    }
                }
                11 | 12 if n > 0 => self.folded_nd(&[n], &v, depth.min(2) + 1),
                // the shape of something
                9 | 10 if !v.is_empty() && v.iter().all(|&x| x >= 0) && v.iter().all(|&x| x <= 300) && v.iter().product::<i64>() <= 300 && v.len() <= 6 => {
                    let pre = self.r.us(0, 1);
                    let post = self.r.us(0, 1);
                    let mut sh = vec![1usize; pre];
                    sh.extend(v.iter().map(|&x| x as usize));
                    sh.extend(vec![1usize; post]);
                    let rank = sh.len() as i64;
                    // a tensor of that shape: constant, or a data tensor of the graph
                    let src = self
                        .fl
                        .iter()
                        .find(|n| self.env[*n].shape == sh)
                        .cloned()
                        .unwrap_or_else(|| String::new());
                    let src = if src.is_empty() || self.r.chance(1, 4) { self.fconst(&sh) } else { src };
                    let mut attrs = vec![];
                    if pre > 0 || self.r.chance(1, 4) {
                        attrs.push(("start", A::I(if self.r.bool() { pre as i64 } else { pre as i64 - rank })));
                    }
                    if post > 0 {
                        attrs.push(("end", A::I(if self.r.bool() { rank - post as i64 } else { -(post as i64) })));
                    } else if self.r.chance(1, 4) {
                        attrs.push(("end", A::I(rank + 4)));
                    }
                    self.emit("Shape", vec![src], attrs)
                }
                _ => {
                    if n == 1 {
                        let s = self.sub_scalar(v[0], depth);
                        self.unsq(s)
                    } else {
                        self.leaf(t)
                    }
                }
            }
        }
    }
    fn ax(&mut self, k: usize, rank: usize) -> i64 {
        if self.r.bool() {
            k as i64
        } else {
            k as i64 - rank as i64
        }
    }
    fn with_axes(&mut self, op: &'static str, d: String, axes: Vec<i64>) -> String {
        if self.r.bool() {
            self.emit(op, vec![d], vec![("axes", A::Is(axes))])
        } else {
            let a = self.leaf(T::ints(&axes));
            self.emit(op, vec![d, a], vec![])
        }
    }
    /// an integer constant of any rank, computed from other constants of other ranks
    pub fn folded_nd(&mut self, dims: &[usize], v: &[i64], depth: usize) -> String {
        let rank = dims.len();
        let n: usize = dims.iter().product();
        assert!(v.len() == n);
        if depth == 0 || n == 0 || rank == 0 || n > 200 {
            return self.leaf(T::int_nd(dims, v.to_vec()));
        }
        let strides = |d: &[usize]| {
            let mut s = vec![1usize; d.len()];
            for k in (0..d.len().saturating_sub(1)).rev() {
                s[k] = s[k + 1] * d[k + 1];
            }
            s
        };
        match self.r.below(8) {
            // same elements, other dims
            0 | 1 => {
                let mut src = vec![];
                let mut left = n;
                while left > 1 && src.len() < 3 {
                    let divs: Vec<usize> = (1..=left).filter(|d| left % d == 0).collect();
                    let d = *self.r.pick(&divs);
                    src.push(d);
                    left /= d;
                }
                src.push(left);
                let d = self.folded_nd(&src, v, depth - 1);
                let mut tg: Vec<i64> = dims.iter().map(|&d| d as i64).collect();
                let hole = self.r.below(rank + 1);
                for k in 0..rank {
                    if k < src.len() && src[k] == dims[k] && self.r.chance(1, 3) {
                        tg[k] = 0;
                    }
                }
                if hole < rank {
                    tg[hole] = -1;
                }
                let t = self.sub(T::ints(&tg), 0);
                self.emit("Reshape", vec![d, t], vec![])
            }
            2 => {
                let ones: Vec<usize> = (0..rank).filter(|&k| dims[k] == 1).collect();
                let gone: Vec<usize> = ones.into_iter().filter(|_| self.r.bool()).collect();
                if gone.is_empty() || gone.len() == rank {
                    return self.leaf(T::int_nd(dims, v.to_vec()));
                }
                let src: Vec<usize> = (0..rank).filter(|k| !gone.contains(k)).map(|k| dims[k]).collect();
                let d = self.folded_nd(&src, v, depth - 1);
                let mut axes: Vec<i64> = gone.iter().map(|&k| self.ax(k, rank)).collect();
                self.r.shuffle(&mut axes);
                self.with_axes("Unsqueeze", d, axes)
            }
            3 => {
                let mut src = dims.to_vec();
                let mut at = vec![];
                for _ in 0..self.r.us(1, 2) {
                    let k = self.r.us(0, src.len());
                    src.insert(k, 1);
                    at.iter_mut().for_each(|a: &mut usize| *a += usize::from(*a >= k));
                    at.push(k);
                }
                let d = self.folded_nd(&src, v, depth - 1);
                if dims.iter().all(|&d| d != 1) && self.r.bool() {
                    return self.emit("Squeeze", vec![d], vec![]);
                }
                let axes: Vec<i64> = at.iter().map(|&k| self.ax(k, src.len())).collect();
                self.with_axes("Squeeze", d, axes)
            }
            4 => {
                let cand: Vec<usize> = (0..rank).filter(|&k| dims[k] >= 2).collect();
                if cand.is_empty() || (rank > 1 && !self.cfg.partial) {
                    return self.leaf(T::int_nd(dims, v.to_vec()));
                }
                let k = *self.r.pick(&cand);
                let mut parts = vec![];
                let mut at = 0;
                let inner: usize = dims[k + 1..].iter().product();
                let outer: usize = dims[..k].iter().product();
                while at < dims[k] {
                    let len = self.r.us(1, dims[k] - at);
                    let mut d = dims.to_vec();
                    d[k] = len;
                    let mut x = vec![];
                    for o in 0..outer {
                        let b = (o * dims[k] + at) * inner;
                        x.extend_from_slice(&v[b..b + len * inner]);
                    }
                    parts.push(self.folded_nd(&d, &x, depth - 1));
                    at += len;
                }
                let a = self.ax(k, rank);
                self.emit("Concat", parts, vec![("axis", A::I(a))])
            }
            // rows (of any axis, in any order, of a larger tensor); one index tensor may make two axes
            5 | 6 => {
                let k = self.r.below(rank);
                let form = self.r.below(3);
                let span = if form == 2 && k + 1 < rank { 2 } else { 1 };
                let m: usize = dims[k..k + span].iter().product();
                let size = m + self.r.us(0, 2);
                let mut pos: Vec<usize> = (0..size).collect();
                self.r.shuffle(&mut pos);
                let outer: usize = dims[..k].iter().product();
                let inner: usize = dims[k + span..].iter().product();
                let mut src = vec![];
                src.extend_from_slice(&dims[..k]);
                src.push(size);
                src.extend_from_slice(&dims[k + span..]);
                let mut x: Vec<i64> = (0..outer * size * inner).map(|_| self.r.range(-3, 9)).collect();
                for o in 0..outer {
                    for j in 0..m {
                        for i in 0..inner {
                            x[(o * size + pos[j]) * inner + i] = v[(o * m + j) * inner + i];
                        }
                    }
                }
                let idx: Vec<i64> = pos[..m].iter().map(|&p| self.ax(p, size)).collect();
                let d = self.folded_nd(&src, &x, depth - 1);
                let ix = self.leaf(T::int_nd(&dims[k..k + span], idx));
                let a = self.ax(k, src.len());
                self.emit("Gather", vec![d, ix], vec![("axis", A::I(a))])
            }
            _ => {
                let k = self.r.below(rank);
                let size = dims[k] + self.r.us(0, 2);
                let mut src = dims.to_vec();
                src[k] = size;
                if self.cfg.partial {
                    for (a, d) in src.iter_mut().enumerate() {
                        if a != k && self.r.chance(1, 4) {
                            *d += 1;
                        }
                    }
                }
                let total: usize = src.iter().product();
                let mut x: Vec<i64> = (0..total).map(|_| self.r.range(-3, 9)).collect();
                let (st, ss) = (strides(dims), strides(&src));
                let mut idx = vec![0i64; n];
                // every lane along the axis has its own selection
                let mut lanes: std::collections::BTreeMap<usize, Vec<usize>> = Default::default();
                for e in 0..n {
                    let coord: Vec<usize> = (0..rank).map(|a| e / st[a] % dims[a]).collect();
                    let lane: usize = (0..rank).filter(|&a| a != k).map(|a| coord[a] * ss[a]).sum();
                    if !lanes.contains_key(&lane) {
                        let mut pos: Vec<usize> = (0..size).collect();
                        self.r.shuffle(&mut pos);
                        lanes.insert(lane, pos);
                    }
                    let p = lanes[&lane][coord[k]];
                    x[lane + p * ss[k]] = v[e];
                    idx[e] = self.ax(p, size);
                }
                let d = self.folded_nd(&src, &x, depth - 1);
                let ix = self.leaf(T::int_nd(dims, idx));
                let a = self.ax(k, rank);
                self.emit("GatherElements", vec![d, ix], vec![("axis", A::I(a))])
            }
        }
    }
    fn sub_scalar(&mut self, x: i64, depth: usize) -> String {
        self.sub(T::scalar_i(x), depth)
    }
    /// a slice that selects nothing
    fn empty_piece(&mut self) -> String {
        let len = self.r.us(1, 4) as i64;
        let d: Vec<i64> = (0..len).map(|_| self.r.range(1, 9)).collect();
        let data = self.leaf(T::ints(&d));
        let (s, e) = *self.r.pick(&[(0, 0), (1, 0), (1, 1), (len, i64::MAX), (-1, 0), (len + 2, len + 4), (-1, -1), (0, -len)]);
        let sn = self.leaf(T::ints(&[s]));
        let en = self.leaf(T::ints(&[e]));
        self.emit("Slice", vec![data, sn, en], vec![])
    }
    fn unsq(&mut self, s: String) -> String {
        let ax = *self.r.pick(&[0, -1]);
        match self.r.below(3) {
            0 => self.emit("Unsqueeze", vec![s], vec![("axes", A::Is(vec![ax]))]),
            1 => {
                let a = self.leaf(T::ints(&[ax]));
                self.emit("Unsqueeze", vec![s, a], vec![])
            }
            _ => {
                let tg = *self.r.pick(&[1, -1]);
                let a = self.leaf(T::ints(&[tg]));
                self.emit("Reshape", vec![s, a], vec![])
            }
        }
    }

    // ---- picking tensors -------------------------------------------------------------------
    fn any_f(&mut self) -> Option<String> {
        if self.fl.is_empty() {
            return None;
        }
        // recent tensors preferred
        let n = self.fl.len();
        let i = if self.r.bool() { n - 1 - self.r.below(n.min(3)) } else { self.r.below(n) };
        Some(self.fl[i].clone())
    }
    fn f_where(&mut self, f: impl Fn(&[usize]) -> bool) -> Option<String> {
        let c: Vec<String> = self.fl.iter().filter(|n| f(&self.env[*n].shape)).cloned().collect();
        if c.is_empty() {
            None
        } else {
            Some(self.r.pick(&c).clone())
        }
    }
    fn sh(&self, n: &str) -> Vec<usize> {
        self.env[n].shape.clone()
    }
    /// float tensor of the exact shape: an existing one or a constant
    fn of_shape(&mut self, s: &[usize]) -> String {
        if self.r.bool() {
            let s2 = s.to_vec();
            if let Some(n) = self.f_where(|x| x == s2) {
                return n;
            }
        }
        self.fconst(s)
    }
    /// something that broadcasts with `s`
    fn broadcast_mate(&mut self, s: &[usize]) -> Vec<usize> {
        let mut o: Vec<usize> = s
            .iter()
            .map(|&d| {
                if self.r.chance(1, 3) {
                    1
                } else if d == 1 && self.r.bool() {
                    self.dim()
                } else {
                    d
                }
            })
            .collect();
        let drop = if o.is_empty() || self.r.bool() { 0 } else { self.r.us(0, o.len()) };
        o.drain(..drop);
        if self.r.chance(1, 6) && o.len() < 5 && drop == 0 {
            let d = self.dim();
            o.insert(0, d);
        }
        if self.cfg.wild && !o.is_empty() && self.r.chance(1, 2) {
            let k = self.r.below(o.len());
            o[k] += self.r.us(1, 3);
        }
        o
    }
    fn axis(&mut self, rank: usize) -> i64 {
        let r = rank as i64;
        if self.cfg.wild && self.r.chance(1, 2) {
            return *self.r.pick(&[r, -r - 1, r + 1, r + 7]);
        }
        if rank == 0 {
            return 0;
        }
        self.r.range(-r, r - 1)
    }
    fn axes(&mut self, rank: usize, max: usize) -> Vec<i64> {
        let mut all: Vec<i64> = (0..rank as i64).collect();
        self.r.shuffle(&mut all);
        let k = if max == 0 || rank == 0 { 0 } else { self.r.us(1, max.min(rank)) };
        let mut v: Vec<i64> = all[..k].iter().map(|&a| if self.r.bool() { a } else { a - rank as i64 }).collect();
        if self.cfg.wild && self.r.chance(1, 2) {
            let x = if self.r.bool() { rank as i64 + self.r.range(0, 3) } else { v.first().copied().unwrap_or(0) };
            v.push(x);
        }
        v
    }
    fn nd(&mut self, op: &str, ins: Vec<String>, nout: usize, attrs: Vec<(&str, A)>) -> N {
        let name = self.node_name(&op.to_lowercase());
        let outputs = (0..nout).map(|_| self.fresh("t")).collect();
        N { name, op: op.to_string(), inputs: ins, outputs, attrs: attrs.into_iter().map(|(k, v)| (k.to_string(), v)).collect(), domain: None }
    }

    fn window(&mut self, spatial: &[usize], pool: bool) -> (Vec<i64>, Vec<(&'static str, A)>) {
        let sp = spatial.len();
        let mut attrs = vec![];
        let k: Vec<i64> = spatial
            .iter()
            .map(|&d| {
                let hi = if self.cfg.wild { d as i64 + 3 } else { (d as i64).min(3) };
                self.r.range(1, hi.max(1))
            })
            .collect();
        if self.r.bool() {
            attrs.push(("strides", A::Is((0..sp).map(|_| self.r.range(1, 3)).collect())));
        }
                if self.r.chance(1, 3) {
            let dil = (0..sp).map(|_| self.r.range(1, 2)).collect();
            attrs.push(("dilations", A::Is(dil)));
        }
        if self.r.bool() {
            let p: Vec<i64> = (0..2 * sp)
                .map(|i| {
                    let m = if pool { k[i % sp] - 1 } else { 2 };
                    if m <= 0 {
                        0
                    } else {
                        self.r.range(0, m)
                    }
                })
                .collect();
            attrs.push(("pads", A::Is(p)));
        }
        (k, attrs)
    }

    // ---- proposals -------------------------------------------------------------------------
    pub fn propose(&mut self, op: &str) -> P {
        let ax_attr = |g: &mut Gen, rank: usize| A::I(g.axis(rank));
        Some(match op {
            "Relu" | "Sigmoid" | "Tanh" | "Erf" | "Gelu" | "HardSwish" | "Exp" | "Log" | "Sqrt" | "Sin" | "Cos" | "Neg" | "Identity" => {
                let x = self.any_f()?;
                self.nd(op, vec![x], 1, vec![])
            }
            "LeakyRelu" => {
                let x = self.any_f()?;
                let a = if self.r.bool() { vec![("alpha", A::F((self.r.sf64() * 2.0) as f32))] } else { vec![] };
                self.nd(op, vec![x], 1, a)
            }
            "Softmax" => {
                let x = self.f_where(|s| !s.is_empty())?;
                let rank = self.sh(&x).len();
                let a = if self.r.bool() { vec![("axis", A::I(self.r.range(-(rank as i64), rank as i64 - 1)))] } else { vec![] };
                self.nd(op, vec![x], 1, a)
            }
            "Add" | "Sub" | "Mul" | "Div" | "Equal" | "Greater" | "Less" => {
                let a = self.any_f()?;
                let s = self.sh(&a);
                let b = if self.r.chance(1, 3) && !self.cfg.wild {
                    self.any_f()?
                } else {
                    let t = self.broadcast_mate(&s);
                    self.of_shape(&t)
                };
                let ins = if self.r.bool() { vec![a, b] } else { vec![b, a] };
                self.nd(op, ins, 1, vec![])
            }
            "Pow" => {
                let a = self.any_f()?;
                let e = *self.r.pick(&[0.5, 1.0, 2.0, 3.0, 1.5]);
                let t = if self.r.bool() { T::scalar_f(e) } else { T::floats(&[1], vec![e]) };
                let b = self.konst(t);
                self.nd(op, vec![a, b], 1, vec![])
            }
            "Max" | "Min" => {
                let a = self.any_f()?;
                let s = self.sh(&a);
                let mut ins = vec![a];
                for _ in 0..self.r.below(3) {
                    let t = self.broadcast_mate(&s);
                    let b = self.of_shape(&t);
                    ins.push(b);
                }
                self.r.shuffle(&mut ins);
                self.nd(op, ins, 1, vec![])
            }
            "Clip" => {
                let a = self.any_f()?;
                let mut ins = vec![a];
                let (lo, hi) = {
                    let x = self.r.sf64() * self.cfg.amp;
                    let y = self.r.sf64() * self.cfg.amp;
                    (x.min(y), x.max(y))
                };
                match self.r.below(4) {
                    0 => {}
                    1 => {
                        let l = self.konst(T::scalar_f(lo));
                        ins.push(l);
                    }
                    2 => {
                        ins.push(String::new());
                        let h = self.konst(T::scalar_f(hi));
                        ins.push(h);
                    }
                    _ => {
                        let l = self.konst(T::scalar_f(lo));
                        let h = self.konst(T::scalar_f(hi));
                        ins.push(l);
                        ins.push(h);
                    }
                }
                self.nd(op, ins, 1, vec![])
            }
            "Where" => {
                let c = if self.bools.is_empty() { return None } else { self.r.pick(&self.bools.clone()).clone() };
                let s = self.sh(&c);
                let x = if self.r.bool() {
                    let t = self.broadcast_mate(&s);
                    self.of_shape(&t)
                } else {
                    self.any_f()?
                };
                let t = self.broadcast_mate(&s);
                let y = self.of_shape(&t);
                let ins = if self.r.bool() { vec![c, x, y] } else { vec![c, y, x] };
                self.nd(op, ins, 1, vec![])
            }
            "And" => {
                let bs = self.bools.clone();
                if bs.is_empty() {
                    return None;
                }
                let a = self.r.pick(&bs).clone();
                let b = self.r.pick(&bs).clone();
                self.nd(op, vec![a, b], 1, vec![])
            }
            "Not" => {
                let bs = self.bools.clone();
                if bs.is_empty() {
                    return None;
                }
                let a = self.r.pick(&bs).clone();
                self.nd(op, vec![a], 1, vec![])
            }
            "Cast" => {
                let mut all = self.fl.clone();
                all.extend(self.ints.clone());
                all.extend(self.bools.clone());
                if all.is_empty() {
                    return None;
                }
                let x = self.r.pick(&all).clone();
                let to = *self.r.pick(&[F32, I64, BOOL, F32]);
                self.nd(op, vec![x], 1, vec![("to", A::I(i64::from(to)))])
            }
            "Conv" => {
                let x = self.f_where(|s| s.len() >= 3 && s[1] <= 8)?;
                let s = self.sh(&x);
                let (mut k, mut attrs) = self.window(&s[2..], false);
                let mut g = 1;
                if self.r.chance(1, 4) {
                    g = if self.r.bool() { s[1] } else { (1..=s[1]).filter(|d| s[1] % d == 0).collect::<Vec<_>>()[0] };
                }
                let m = g * self.r.us(1, 3);
                if g > 1 || self.r.chance(1, 4) {
                    attrs.push(("group", A::I(g as i64)));
                }
                if self.r.bool() {
                    attrs.push(("kernel_shape", A::Is(k.clone())));
                }
                let mut ws = vec![m, s[1] / g];
                ws.extend(k.drain(..).map(|v| v as usize));
                let w = self.fconst(&ws);
                let mut ins = vec![x, w];
                if self.r.bool() {
                    let b = self.fconst(&[m]);
                    ins.push(b);
                }
                self.nd(op, ins, 1, attrs)
            }
            "ConvTranspose" => {
                let x = self.f_where(|s| s.len() >= 3 && s[1] <= 8)?;
                let s = self.sh(&x);
                let (mut k, mut attrs) = self.window(&s[2..], false);
                let sp = k.len();
                let g = if self.r.chance(1, 4) { s[1] } else { 1 };
                if g > 1 {
                    attrs.push(("group", A::I(g as i64)));
                }
                if self.r.bool() {
                    attrs.push(("kernel_shape", A::Is(k.clone())));
                }
                if self.r.chance(1, 3) {
                    attrs.push(("output_padding", A::Is((0..sp).map(|_| self.r.range(0, 2)).collect())));
                }
                let mg = self.r.us(1, 3);
                let mut ws = vec![s[1], mg];
                ws.extend(k.drain(..).map(|v| v as usize));
                let w = self.fconst(&ws);
                let mut ins = vec![x, w];
                if self.r.bool() {
                    let b = self.fconst(&[mg * g]);
                    ins.push(b);
                }
                self.nd(op, ins, 1, attrs)
            }
            "MaxPool" | "AveragePool" => {
                let x = self.f_where(|s| s.len() >= 3)?;
                let s = self.sh(&x);
                let (k, mut attrs) = self.window(&s[2..], true);
                attrs.push(("kernel_shape", A::Is(k)));
                if op == "AveragePool" && self.r.chance(1, 5) {
                    attrs.push(("count_include_pad", A::I(1)));
                }
                self.nd(op, vec![x], 1, attrs)
            }
            "GlobalAveragePool" => {
                let x = self.f_where(|s| s.len() >= 3)?;
                self.nd(op, vec![x], 1, vec![])
            }
            "BatchNormalization" => {
                let x = self.f_where(|s| s.len() >= 2)?;
                let c = self.sh(&x)[1];
                let sc = self.fconst(&[c]);
                let bi = self.fconst(&[c]);
                let me = self.fconst(&[c]);
                let vals: Vec<f64> = (0..c).map(|_| self.r.f64() * 3.0 + 0.01).collect();
                let va = self.konst(T::floats(&[c], vals));
                let a = if self.r.bool() { vec![("epsilon", A::F(*self.r.pick(&[1e-5, 1e-3, 0.1])))] } else { vec![] };
                self.nd(op, vec![x, sc, bi, me, va], 1, a)
            }
            "LayerNormalization" => {
                let x = self.f_where(|s| !s.is_empty())?;
                let s = self.sh(&x);
                let ax = self.r.range(-(s.len() as i64), s.len() as i64 - 1);
                let at = if ax < 0 { ax + s.len() as i64 } else { ax } as usize;
                let g = self.fconst(&s[at..]);
                let mut ins = vec![x, g];
                if self.r.bool() {
                    let b = self.fconst(&s[at..]);
                    ins.push(b);
                }
                self.nd(op, ins, 1, vec![("axis", A::I(ax))])
            }
            "InstanceNormalization" | "GroupNormalization" => {
                let x = self.f_where(|s| s.len() >= 3)?;
                let c = self.sh(&x)[1];
                let g = self.fconst(&[c]);
                let b = self.fconst(&[c]);
                let mut a = vec![("epsilon", A::F(*self.r.pick(&[1e-5, 1e-2])))];
                if op == "GroupNormalization" {
                    let ds: Vec<usize> = (1..=c).filter(|d| c % d == 0).collect();
                    a.push(("num_groups", A::I(*self.r.pick(&ds) as i64)));
                }
                self.nd(op, vec![x, g, b], 1, a)
            }
            "Gemm" => {
                let x = self.f_where(|s| s.len() == 2)?;
                let s = self.sh(&x);
                let ta = self.r.chance(1, 4);
                let tb = self.r.bool();
                let (m, mut k) = if ta { (s[1], s[0]) } else { (s[0], s[1]) };
                let n = self.r.us(1, 5);
                if self.cfg.wild {
                    k += self.r.us(0, 2);
                }
                let w = self.of_shape(&if tb { [n, k] } else { [k, n] });
                let mut ins = vec![x, w];
                if self.r.bool() {
                    let bs = self.r.pick(&[vec![n], vec![1, n], vec![m, n], vec![1], vec![m, 1], vec![]]).clone();
                    let b = self.fconst(&bs);
                    ins.push(b);
                }
                let mut a = vec![];
                if ta || self.r.chance(1, 4) {
                    a.push(("transA", A::I(i64::from(ta))));
                }
                if tb || self.r.chance(1, 4) {
                    a.push(("transB", A::I(i64::from(tb))));
                }
                self.nd(op, ins, 1, a)
            }
            "MatMul" => {
                let x = self.f_where(|s| !s.is_empty())?;
                let s = self.sh(&x);
                let left = self.r.chance(3, 4) || s.len() == 1;
                let mut bs: Vec<usize> = if left {
                    // other operand on the right: [.., K, N]
                    let k = s[s.len() - 1];
                    if self.r.chance(1, 5) {
                        vec![k]
                    } else {
                        let mut v = vec![k, self.r.us(1, 4)];
                        if s.len() > 2 && self.r.chance(1, 3) {
                            let mut b = self.broadcast_mate(&s[..s.len() - 2]);
                            b.extend(&v);
                            v = b;
                        }
                        v
                    }
                } else {
                    let k = s[s.len() - 2];
                    if self.r.chance(1, 5) {
                        vec![k]
                    } else {
                        vec![self.r.us(1, 4), k]
                    }
                };
                if self.cfg.wild && self.r.bool() {
                    let l = bs.len();
                    let at = if left { l.saturating_sub(2) } else { l - 1 };
                    bs[at] += 1;
                }
                let w = self.of_shape(&bs);
                let ins = if left { vec![x, w] } else { vec![w, x] };
                self.nd(op, ins, 1, vec![])
            }
            "ReduceMean" | "ReduceSum" | "ReduceMax" => {
                let x = self.any_f()?;
                let rank = self.sh(&x).len();
                let mut a = vec![];
                let mut ins = vec![x];
                match self.r.below(5) {
                    0 => {}
                    1 | 2 => {
                        let ax = self.axes(rank, rank);
                        if ax.is_empty() {
                            return None;
                        }
                        let p = self.param(T::ints(&ax));
                        ins.push(p);
                    }
                    3 => {
                        let ax = self.axes(rank, rank);
                        if ax.is_empty() {
                            return None;
                        }
                        a.push(("axes", A::Is(ax)));
                    }
                    _ => {
                        // explicit empty axes, or none with the no-op flag
                        if self.r.bool() {
                            let p = self.konst(T::ints(&[]));
                            ins.push(p);
                        }
                        if self.r.bool() {
                            a.push(("noop_with_empty_axes", A::I(i64::from(self.r.bool()))));
                        }
                    }
                }
                if self.r.bool() {
                    a.push(("keepdims", A::I(i64::from(self.r.bool()))));
                }
                self.nd(op, ins, 1, a)
            }
            "Reshape" => {
                let mut all = self.fl.clone();
                if self.r.chance(1, 6) {
                    all.extend(self.ints.clone());
                }
                if all.is_empty() {
                    return None;
                }
                let x = if self.r.bool() { self.any_f()? } else { self.r.pick(&all).clone() };
                let s = self.sh(&x);
                let total = exec::numel(&s);
                // random factorization
                let mut rest = total;
                let mut t: Vec<i64> = vec![];
                let rank = self.r.us(1, 4);
                for k in 0..rank {
                    if k + 1 == rank {
                        t.push(rest as i64);
                    } else {
                        let ds: Vec<usize> = (1..=rest.max(1)).filter(|d| rest % d == 0).collect();
                        let d = *self.r.pick(&ds);
                        t.push(d as i64);
                        rest /= d.max(1);
                    }
                }
                self.r.shuffle(&mut t);
                let mut a = vec![];
                if self.r.bool() {
                    let k = self.r.below(t.len());
                    t[k] = -1;
                }
                for k in 0..t.len() {
                    if t[k] > 0 && s.get(k).map(|&d| d as i64) == Some(t[k]) && self.r.bool() {
                        t[k] = 0;
                    }
                }
                if self.r.chance(1, 8) {
                    a.push(("allowzero", A::I(0)));
                }
                if self.cfg.wild {
                    let k = self.r.below(t.len());
                    match self.r.below(4) {
                        0 => t[k] = if t[k] > 0 { t[k] + 1 } else { 7 },
                        1 => t.push(-1),
                        2 => t[k] = -2,
                        _ => t.push(0),
                    }
                }
                let p = self.param(T::ints(&t));
                self.nd(op, vec![x, p], 1, a)
            }
            "Flatten" => {
                let x = self.any_f()?;
                let r = self.sh(&x).len() as i64;
                let a = if self.r.chance(3, 4) {
                    let v = if self.cfg.wild { *self.r.pick(&[r + 1, -r - 1, r + 5]) } else { self.r.range(-r, r) };
                    vec![("axis", A::I(v))]
                } else {
                    vec![]
                };
                self.nd(op, vec![x], 1, a)
            }
            "Squeeze" => {
                let x = self.f_where(|s| s.contains(&1))?;
                let s = self.sh(&x);
                let ones: Vec<usize> = (0..s.len()).filter(|&k| s[k] == 1).collect();
                match self.r.below(3) {
                    0 => self.nd(op, vec![x], 1, vec![]),
                    w => {
                        let mut pick = ones.clone();
                        self.r.shuffle(&mut pick);
                        let k = self.r.us(1, pick.len());
                        let mut ax: Vec<i64> = pick[..k].iter().map(|&p| if self.r.bool() { p as i64 } else { p as i64 - s.len() as i64 }).collect();
                        if self.cfg.wild {
                            match self.r.below(3) {
                                0 => ax.push(s.len() as i64 + self.r.range(0, 2)),
                                1 => ax.push(ax[0]),
                                _ => ax.push(self.r.below(s.len()) as i64),
                            }
                        }
                        if w == 1 {
                            self.nd(op, vec![x], 1, vec![("axes", A::Is(ax))])
                        } else {
                            let p = self.param(T::ints(&ax));
                            self.nd(op, vec![x, p], 1, vec![])
                        }
                    }
                }
            }
            "Unsqueeze" => {
                let x = self.f_where(|s| s.len() <= 4)?;
                let s = self.sh(&x);
                let k = self.r.us(1, 2);
                let rank = s.len() + k;
                let mut all: Vec<i64> = (0..rank as i64).collect();
                self.r.shuffle(&mut all);
                let mut ax: Vec<i64> = all[..k].iter().map(|&a| if self.r.bool() { a } else { a - rank as i64 }).collect();
                if self.cfg.wild {
                    let j = self.r.below(k);
                    ax[j] = *self.r.pick(&[rank as i64, -(rank as i64) - 1, ax[0]]);
                }
                if self.r.bool() {
                    self.nd(op, vec![x], 1, vec![("axes", A::Is(ax))])
                } else {
                    let p = self.param(T::ints(&ax));
                    self.nd(op, vec![x, p], 1, vec![])
                }
            }
            "Transpose" => {
                let x = self.any_f()?;
                let r = self.sh(&x).len();
                let a = if self.r.chance(1, 4) {
                    vec![]
                } else {
                    let mut p: Vec<i64> = (0..r as i64).collect();
                    self.r.shuffle(&mut p);
                    if self.cfg.wild && r > 0 {
                        match self.r.below(3) {
                            0 => p[0] = r as i64,
                            1 => p.push(0),
                            _ => p[r - 1] = p[0],
                        }
                    }
                    vec![("perm", A::Is(p))]
                };
                self.nd(op, vec![x], 1, a)
            }
            "Concat" => {
                let x = self.f_where(|s| !s.is_empty())?;
                let s = self.sh(&x);
                let ax = self.axis(s.len());
                let at = (if ax < 0 { ax + s.len() as i64 } else { ax }).clamp(0, s.len() as i64 - 1) as usize;
                let mut ins = vec![x];
                for _ in 0..self.r.below(3) {
                    let mut t = s.clone();
                    t[at] = self.dim();
                    if self.cfg.wild && self.r.bool() {
                        let k = self.r.below(t.len());
                        if k != at {
                            t[k] += 1;
                        } else {
                            t.push(1);
                        }
                    }
                    let y = self.of_shape(&t);
                    ins.push(y);
                }
                self.r.shuffle(&mut ins);
                self.nd(op, ins, 1, vec![("axis", A::I(ax))])
            }
            "Split" => {
                let x = self.f_where(|s| !s.is_empty())?;
                let s = self.sh(&x);
                let ax = self.axis(s.len());
                let at = (if ax < 0 { ax + s.len() as i64 } else { ax }).clamp(0, s.len() as i64 - 1) as usize;
                let d = s[at];
                let mut a = vec![("axis", A::I(ax))];
                let mut ins = vec![x];
                let mode = self.r.below(3);
                let nout;
                if mode == 0 {
                    let ds: Vec<usize> = (1..=d).filter(|k| d % k == 0 || self.cfg.wild).collect();
                    nout = *self.r.pick(&ds);
                    if self.r.bool() {
                        a.push(("num_outputs", A::I(nout as i64)));
                    }
                } else {
                    nout = self.r.us(1, d.min(3));
                    let mut cut: Vec<usize> = (1..d).collect();
                    self.r.shuffle(&mut cut);
                    let mut cuts: Vec<usize> = cut[..nout - 1].to_vec();
                    cuts.sort_unstable();
                    cuts.insert(0, 0);
                    cuts.push(d);
                    let mut sizes: Vec<i64> = cuts.windows(2).map(|w| (w[1] - w[0]) as i64).collect();
                    if self.cfg.wild {
                        match self.r.below(3) {
                            0 => sizes[0] += 1,
                            1 => sizes.push(0),
                            _ => sizes[0] = -1,
                        }
                    }
                    if mode == 1 {
                        let p = self.param(T::ints(&sizes));
                        ins.push(p);
                    } else {
                        a.push(("split", A::Is(sizes)));
                    }
                }
                self.nd(op, ins, nout, a)
            }
            "Slice" => {
                let x = self.f_where(|s| !s.is_empty())?;
                let s = self.sh(&x);
                let r = s.len();
                let mut all: Vec<usize> = (0..r).collect();
                self.r.shuffle(&mut all);
                let k = self.r.us(1, r.min(3));
                let explicit = self.r.chance(2, 3);
                let axes: Vec<usize> = if explicit { all[..k].to_vec() } else { (0..k).collect() };
                let (mut st, mut en, mut sp) = (vec![], vec![], vec![]);
                for &a in &axes {
                    let d = s[a] as i64;
                    let b = self.r.range(0, d - 1);
                    let e = self.r.range(b + 1, d);
                    let e2 = if e == d && self.r.bool() {
                        *self.r.pick(&[i64::MAX, d + 2, i64::from(i32::MAX)])
                    } else if e < d && self.r.bool() {
                        e - d
                    } else {
                        e
                    };
                    let b2 = if b == 0 && self.r.chance(1, 4) { -d - 3 } else if self.r.bool() { b - d } else { b };
                    st.push(b2);
                    en.push(e2);
                    sp.push(*self.r.pick(&[1, 1, 2, 3]));
                }
                let mut axv: Vec<i64> = axes.iter().map(|&a| if self.r.bool() { a as i64 } else { a as i64 - r as i64 }).collect();
                if self.cfg.wild {
                    match self.r.below(3) {
                        0 => axv[0] = r as i64 + 1,
                        1 => sp[0] = 0,
                        _ => {
                            st.push(0);
                        }
                    }
                }
                let pst = self.param(T::ints(&st));
                let pen = self.param(T::ints(&en));
                let mut ins = vec![x, pst, pen];
                if explicit || self.cfg.wild {
                    let p = self.param(T::ints(&axv));
                    ins.push(p);
                }
                if self.r.bool() || self.cfg.wild {
                    if ins.len() == 3 {
                        ins.push(String::new());
                    }
                    let p = self.param(T::ints(&sp));
                    ins.push(p);
                }
                self.nd(op, ins, 1, vec![])
            }
            "Pad" => {
                let x = self.any_f()?;
                let r = self.sh(&x).len();
                if r == 0 {
                    return None;
                }
                let mut p: Vec<i64> = (0..2 * r).map(|_| if self.r.bool() { 0 } else { self.r.range(0, 2) }).collect();
                if self.cfg.wild {
                    if self.r.bool() {
                        p.push(0);
                    } else {
                        p.pop();
                    }
                }
                if self.r.chance(1, 4) {
                    self.nd(op, vec![x], 1, vec![("pads", A::Is(p))])
                } else {
                    let pn = self.param(T::ints(&p));
                    let mut ins = vec![x, pn];
                    if self.r.bool() {
                        let v = self.r.sf64() * self.cfg.amp;
                        let f = self.konst(T::scalar_f(v));
                        ins.push(f);
                    }
                    let a = if self.r.bool() { vec![("mode", A::S("constant".into()))] } else { vec![] };
                    self.nd(op, ins, 1, a)
                }
            }
            "Tile" => {
                let x = self.f_where(|s| !s.is_empty())?;
                let r = self.sh(&x).len();
                let mut p: Vec<i64> = (0..r).map(|_| *self.r.pick(&[1, 1, 2, 3])).collect();
                if self.cfg.wild {
                    if self.r.bool() {
                        p.push(2);
                    } else {
                        p[0] = -1;
                    }
                }
                let pn = self.param(T::ints(&p));
                self.nd(op, vec![x, pn], 1, vec![])
            }
            "Expand" => {
                let x = self.any_f()?;
                let s = self.sh(&x);
                let t: Vec<i64> = self.broadcast_mate(&s).iter().map(|&d| d as i64).collect();
                if t.is_empty() {
                    return None;
                }
                let pn = self.param(T::ints(&t));
                self.nd(op, vec![x, pn], 1, vec![])
            }
            "Gather" => {
                let x = self.f_where(|s| !s.is_empty())?;
                let s = self.sh(&x);
                let ax = self.r.range(-(s.len() as i64), s.len() as i64 - 1);
                let at = if ax < 0 { ax + s.len() as i64 } else { ax } as usize;
                let d = s[at] as i64;
                let ir = self.r.us(0, 2);
                let ish = self.shape(ir);
                let iv: Vec<i64> = (0..exec::numel(&ish)).map(|_| self.r.range(-d, d - 1)).collect();
                let p = if ir < 2 && self.r.bool() {
                    self.param(T::int_nd(&ish, iv))
                } else {
                    self.konst(T::int_nd(&ish, iv))
                };
                let a = if at == 0 && self.r.bool() { vec![] } else { vec![("axis", A::I(ax))] };
                self.nd(op, vec![x, p], 1, a)
            }
            "GatherElements" => {
                let x = self.f_where(|s| !s.is_empty())?;
                let s = self.sh(&x);
                let ax = self.r.range(-(s.len() as i64), s.len() as i64 - 1);
                let at = if ax < 0 { ax + s.len() as i64 } else { ax } as usize;
                let d = s[at] as i64;
                let mut ish = s.clone();
                ish[at] = self.dim();
                let iv: Vec<i64> = (0..exec::numel(&ish)).map(|_| self.r.range(-d, d - 1)).collect();
                let p = self.konst(T::int_nd(&ish, iv));
                self.nd(op, vec![x, p], 1, vec![("axis", A::I(ax))])
            }
            "ScatterND" => {
                let x = self.f_where(|s| !s.is_empty())?;
                let s = self.sh(&x);
                let q = self.r.us(1, s.len());
                let k = self.r.us(1, 3);
                let mut iv = vec![];
                for _ in 0..k {
                    for &d in &s[..q] {
                        iv.push(self.r.range(0, d as i64 - 1));
                    }
                }
                let ix = self.konst(T::int_nd(&[k, q], iv));
                let mut us = vec![k];
                us.extend(&s[q..]);
                let up = self.of_shape(&us);
                self.nd(op, vec![x, ix, up], 1, vec![])
            }
            "TopK" => {
                let x = self.f_where(|s| !s.is_empty())?;
                let s = self.sh(&x);
                let ax = self.axis(s.len());
                let at = (if ax < 0 { ax + s.len() as i64 } else { ax }).clamp(0, s.len() as i64 - 1) as usize;
                let d = s[at] as i64;
                let k = if self.cfg.wild { *self.r.pick(&[0, -1, d + 1, d + 4]) } else { self.r.range(1, d) };
                let p = self.param(T::ints(&[k]));
                let mut a = vec![];
                if self.cfg.wild || ax != -1 || self.r.bool() {
                    a.push(("axis", A::I(ax)));
                }
                self.nd(op, vec![x, p], 2, a)
            }
            "Shape" => {
                let x = self.any_f()?;
                let r = self.sh(&x).len() as i64;
                let mut a = vec![];
                if self.r.bool() {
                    a.push(("start", A::I(self.r.range(-r - 1, r + 1))));
                }
                if self.r.bool() {
                    a.push(("end", A::I(self.r.range(-r - 1, r + 1))));
                }
                self.nd(op, vec![x], 1, a)
            }
            "ConstantOfShape" => {
                let rank = self.r.us(1, 4);
                let mut t: Vec<i64> = self.shape(rank).iter().map(|&d| d as i64).collect();
                if self.cfg.wild {
                    let k = self.r.below(t.len());
                    t[k] = -self.r.range(1, 4);
                }
                let p = self.param(T::ints(&t));
                let a = match self.r.below(3) {
                    0 => vec![],
                    1 => {
                        let v = self.r.sf64() * self.cfg.amp;
                        vec![("value", A::T(T::floats(&[1], vec![v])))]
                    }
                    _ => vec![("value", A::T(T::ints(&[self.r.range(-5, 5)])))],
                };
                self.nd(op, vec![p], 1, a)
            }
            "Range" => {
                if self.r.chance(1, 3) {
                    // quarters: exact in f32
                    let a = self.r.range(-8, 8) as f64 * 0.25;
                    let k = self.r.range(1, 8) as f64;
                    let d = *self.r.pick(&[0.25, 0.5, -0.5, 1.0, -0.25]);
                    let off = *self.r.pick(&[0.0, 0.125]);
                    let b = a + d * k - off * f64::signum(d);
                    let ins = [a, b, d].map(|v| self.fscalar(v)).to_vec();
                    self.nd(op, ins, 1, vec![])
                } else {
                    let a = self.r.range(-4, 4);
                    let d = *self.r.pick(&[1, 1, 2, 3, -1, -2]);
                    let k = self.r.range(1, 8);
                    let b = a + d * k - if d > 1 { self.r.range(0, d - 1) } else { 0 };
                    let d = if self.cfg.wild { 0 } else { d };
                    let ins = [a, b, d].map(|v| self.param(T::scalar_i(v))).to_vec();
                    self.nd(op, ins, 1, vec![])
                }
            }
            "Constant" => {
                let rank = self.r.us(0, 3);
                let sh = self.shape(rank);
                let v = self.floats(exec::numel(&sh));
                let t = T::floats(&sh, v);
                self.nd(op, vec![], 1, vec![("value", A::T(t))])
            }
            "Resize" => {
                let x = self.f_where(|s| !s.is_empty())?;
                let s = self.sh(&x);
                let mut at = vec![("mode", A::S("nearest".into()))];
                if self.cfg.sampling {
                    if self.r.bool() {
                        at[0].1 = A::S("linear".into());
                    }
                    if self.r.bool() {
                        at.push(("coordinate_transformation_mode", A::S(self.r.pick(&["half_pixel", "asymmetric", "align_corners", "pytorch_half_pixel"]).to_string())));
                    }
                    if self.r.bool() {
                        at.push(("nearest_mode", A::S(self.r.pick(&["round_prefer_floor", "round_prefer_ceil", "floor", "ceil"]).to_string())));
                    }
                }
                if self.r.bool() {
                    let t: Vec<i64> = s.iter().enumerate().map(|(k, &d)| if k < 2 { d as i64 } else { self.r.range(1, 6) }).collect();
                    let p = self.param(T::ints(&t));
                    self.nd(op, vec![x, String::new(), String::new(), p], 1, at)
                } else {
                    let t: Vec<f64> = s.iter().map(|_| *self.r.pick(&[1.0, 1.0, 2.0, 1.5, 3.0, 0.5])).collect();
                    let p = self.konst(T::floats(&[s.len()], t));
                    self.nd(op, vec![x, String::new(), p], 1, at)
                }
            }
            "GridSample" => {
                let x = self.f_where(|s| s.len() == 4)?;
                let s = self.sh(&x);
                let mut gs = vec![s[0], self.r.us(1, 4), self.r.us(1, 4), 2];
                if self.cfg.wild {
                    gs[if self.r.bool() { 0 } else { 3 }] += 1;
                }
                let n = exec::numel(&gs);
                let v: Vec<f64> = (0..n).map(|_| self.r.sf64()).collect();
                let g = self.konst(T::floats(&gs, v));
                let mut at = vec![];
                if self.cfg.sampling {
                    if self.r.bool() {
                        at.push(("mode", A::S(self.r.pick(&["bilinear", "nearest", "bilinear"]).to_string())));
                    }
                    if self.r.bool() {
                        at.push(("padding_mode", A::S(self.r.pick(&["zeros", "border", "reflection"]).to_string())));
                    }
                    if self.r.bool() {
                        at.push(("align_corners", A::I(self.r.range(0, 1))));
                    }
                }
                self.nd(op, vec![x, g], 1, at)
            }
            _ => {
                let _ = ax_attr;
                return None;
            }
        })
    }

    /// Try to append one node; true when a node was added.
    pub fn step(&mut self, op: &str) -> bool {
        let (n0, i0, in0, c0, f0) = (self.m.nodes.len(), self.m.inits.len(), self.m.inputs.len(), self.const_names.len(), self.fold_ops.len());
        let nd = self.propose(op);
        let undo = |g: &mut Gen| {
            g.m.nodes.truncate(n0);
            g.m.inits.truncate(i0);
            g.m.inputs.truncate(in0);
            g.const_names.truncate(c0);
            g.fold_ops.truncate(f0);
        };
        let Some(nd) = nd else {
            undo(self);
            return false;
        };
        match exec::run_node(&nd, &self.env) {
            Ok(outs) => {
                let ok = outs.iter().all(|v| v.len() <= self.cfg.max_numel && !v.shape.contains(&0) && v.shape.len() <= 6);
                if !ok || self.cfg.wild {
                    undo(self);
                    return false;
                }
                for (o, v) in nd.outputs.iter().zip(outs) {
                    match v.dt {
                        F32 | F64 => self.fl.push(o.clone()),
                        BOOL => self.bools.push(o.clone()),
                        _ => self.ints.push(o.clone()),
                    }
                    self.env.insert(o.clone(), v);
                }
                self.ops_used.push(nd.op.clone());
                self.m.nodes.push(nd);
                true
            }
            Err(E::Invalid(tag, msg)) => {
                if !self.cfg.wild {
                    undo(self);
                    return false;
                }
                self.broken = Some((tag, msg));
                self.ops_used.push(nd.op.clone());
                self.m.nodes.push(nd);
                true
            }
            Err(E::Unsup(_)) => {
                undo(self);
                false
            }
        }
    }
    pub fn grow(&mut self, want: usize) {
        let mut tries = 0;
        let mut added = 0;
        while added < want && tries < want * 8 {
            let ops = self.cfg.ops.clone();
            let op = *self.r.pick(&ops);
            if self.step(op) {
                added += 1;
            }
            tries += 1;
        }
    }
    /// outputs: the tensors no other node reads, or a random subset of the data
    pub fn finish(&mut self) {
        let used: std::collections::HashSet<String> = self.m.nodes.iter().flat_map(|n| n.inputs.clone()).collect();
        let mut outs: Vec<String> = vec![];
        for n in &self.m.nodes {
            if n.op == "Constant" {
                continue;
            }
            for o in &n.outputs {
                if !used.contains(o) && self.env.contains_key(o) {
                    outs.push(o.clone());
                }
            }
        }
        for o in outs {
            let v = &self.env[&o];
            let dims = match self.r.below(4) {
                0 => None,
                1 => Some(v.shape.iter().map(|_| Dim::P("d".into())).collect()),
                _ => Some(v.shape.iter().map(|&d| Dim::V(d as i64)).collect()),
            };
            let dt = v.dt;
            self.m.outputs.push(Io { name: o, dt, dims });
        }
        if self.r.chance(1, 2) {
            let mut nodes = std::mem::take(&mut self.m.nodes);
            self.r.shuffle(&mut nodes);
            self.m.nodes = nodes;
        }
        let mut inits = std::mem::take(&mut self.m.inits);
        self.r.shuffle(&mut inits);
        self.m.inits = inits;
    }
}
