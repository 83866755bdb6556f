//! Reference executor: runs a model operator by operator on concrete tensors, following the
//! ONNX operator definitions. Shapes come out of the data actually produced (window positions,
//! slice indices and so on are enumerated, not computed by formula).
use crate::ir::*;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub struct V {
    pub shape: Vec<usize>,
    pub dt: i32,
    pub f: Vec<f64>,
    pub i: Vec<i64>,
}

#[derive(Clone, Debug)]
pub enum E {
    /// the operator definition forbids this application; the tag names the rule
    Invalid(&'static str, String),
    /// not modelled here
    Unsup(String),
}
type Rs<T> = Result<T, E>;

fn inv<T>(tag: &'static str, s: impl Into<String>) -> Rs<T> {
    Err(E::Invalid(tag, s.into()))
}
fn unsup<T>(s: impl Into<String>) -> Rs<T> {
    Err(E::Unsup(s.into()))
}

impl V {
    pub fn fl(shape: Vec<usize>, f: Vec<f64>) -> V {
        debug_assert_eq!(shape.iter().product::<usize>(), f.len());
        V { shape, dt: F32, f, i: vec![] }
    }
    pub fn int(shape: Vec<usize>, i: Vec<i64>) -> V {
        debug_assert_eq!(shape.iter().product::<usize>(), i.len());
        V { shape, dt: I64, f: vec![], i }
    }
    pub fn boolean(shape: Vec<usize>, i: Vec<i64>) -> V {
        V { shape, dt: BOOL, f: vec![], i }
    }
    pub fn is_f(&self) -> bool {
        self.dt == F32 || self.dt == F64
    }
    pub fn len(&self) -> usize {
        if self.is_f() {
            self.f.len()
        } else {
            self.i.len()
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn from_t(t: &T) -> V {
        V { shape: t.shape(), dt: t.dt, f: t.f.clone(), i: t.i.clone() }
    }
    pub fn to_t(&self) -> T {
        T { dims: self.shape.iter().map(|&d| d as i64).collect(), dt: self.dt, f: self.f.clone(), i: self.i.clone() }
    }
    pub fn ints(&self) -> Vec<i64> {
        if self.is_f() {
            self.f.iter().map(|v| v.trunc() as i64).collect()
        } else {
            self.i.clone()
        }
    }
    pub fn floats(&self) -> Vec<f64> {
        if self.is_f() {
            self.f.clone()
        } else {
            self.i.iter().map(|v| *v as f64).collect()
        }
    }
    /// same kind, new shape, element k taken from position src(k) of self
    fn take(&self, shape: Vec<usize>, idx: &[usize]) -> V {
        if self.is_f() {
            V { shape, dt: self.dt, f: idx.iter().map(|&k| self.f[k]).collect(), i: vec![] }
        } else {
            V { shape, dt: self.dt, f: vec![], i: idx.iter().map(|&k| self.i[k]).collect() }
        }
    }
    fn reshaped(&self, shape: Vec<usize>) -> V {
        debug_assert_eq!(shape.iter().product::<usize>(), self.len());
        V { shape, ..self.clone() }
    }
    pub fn max_abs(&self) -> f64 {
        self.floats().iter().fold(0.0, |a, v| f64::max(a, v.abs()))
    }
}

pub fn strides(shape: &[usize]) -> Vec<usize> {
    let mut s = vec![1; shape.len()];
    for d in (0..shape.len().saturating_sub(1)).rev() {
        s[d] = s[d + 1] * shape[d + 1];
    }
    s
}
pub fn coords(shape: &[usize], mut k: usize) -> Vec<usize> {
    let mut c = vec![0; shape.len()];
    for d in (0..shape.len()).rev() {
        c[d] = k % shape[d];
        k /= shape[d];
    }
    c
}
fn flat(shape: &[usize], c: &[usize]) -> usize {
    let mut k = 0;
    for d in 0..shape.len() {
        k = k * shape[d] + c[d];
    }
    k
}
pub fn numel(shape: &[usize]) -> usize {
    shape.iter().fold(1usize, |a, &d| a.saturating_mul(d))
}

pub fn bshape(shapes: &[&[usize]]) -> Rs<Vec<usize>> {
    let r = shapes.iter().map(|s| s.len()).max().unwrap_or(0);
    let mut out = vec![1usize; r];
    for s in shapes {
        for (k, &d) in s.iter().rev().enumerate() {
            let o = &mut out[r - 1 - k];
            if *o == d || d == 1 {
                continue;
            }
            if *o == 1 {
                *o = d;
            } else {
                return inv("broadcast", format!("{shapes:?}"));
            }
        }
    }
    Ok(out)
}
/// for each element of the broadcast shape, the flat index in `s`
fn bindex(out: &[usize], s: &[usize]) -> Vec<usize> {
    let n = numel(out);
    let off = out.len() - s.len();
    (0..n)
        .map(|k| {
            let c = coords(out, k);
            let cs: Vec<usize> = s.iter().enumerate().map(|(d, &sz)| if sz == 1 { 0 } else { c[off + d] }).collect();
            flat(s, &cs)
        })
        .collect()
}

fn norm_axis(a: i64, rank: usize) -> Rs<usize> {
    let r = rank as i64;
    if a < -r || a >= r {
        return inv("axis", format!("axis {a} for rank {rank}"));
    }
    Ok(if a < 0 { (a + r) as usize } else { a as usize })
}
fn norm_axes(axes: &[i64], rank: usize) -> Rs<Vec<usize>> {
    let mut out = vec![];
    for &a in axes {
        let n = norm_axis(a, rank)?;
        if out.contains(&n) {
            return inv("duplicate_axis", format!("{axes:?}"));
        }
        out.push(n);
    }
    Ok(out)
}

pub fn erf(x: f64) -> f64 {
    // series / continued fraction good to ~1e-12
    let a = x.abs();
    if a < 2.5 {
        let mut sum = a;
        let mut term = a;
        for n in 1..80 {
            term *= -a * a / n as f64;
            sum += term / (2 * n + 1) as f64;
        }
        let v = 2.0 / std::f64::consts::PI.sqrt() * sum;
        v.copysign(x)
    } else {
        let mut cf = 0.0;
        for k in (1..60).rev() {
            cf = k as f64 / 2.0 / (a + cf);
        }
        let erfc = (-a * a).exp() / std::f64::consts::PI.sqrt() / (a + cf);
        (1.0 - erfc).copysign(x)
    }
}

/// positions a window of size k (dilated) takes over [0, len) with the given stride
fn window_positions(len: usize, k: usize, dil: usize, stride: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut p = 0;
    while p + (k - 1) * dil < len {
        v.push(p);
        p += stride;
    }
    v
}

struct Win {
    k: Vec<usize>,
    s: Vec<usize>,
    d: Vec<usize>,
    pb: Vec<usize>,
    pe: Vec<usize>,
}

fn win(n: &N, sp: usize, k: Vec<usize>) -> Rs<Win> {
    let get = |name: &'static str, def: usize, len: usize, min: i64| -> Rs<Vec<usize>> {
        match n.ais(name) {
            None => Ok(vec![def; len]),
            Some(v) => {
                if v.len() != len {
                    return inv("window_attr_len", format!("{name} {v:?}"));
                }
                if v.iter().any(|&x| x < min) {
                    return inv("window_attr_range", format!("{name} {v:?}"));
                }
                Ok(v.iter().map(|&x| x as usize).collect())
            }
        }
    };
    match n.as_("auto_pad").as_deref() {
        None | Some("NOTSET") => {}
        Some(o) => return unsup(format!("auto_pad {o}")),
    }
    if n.ai("ceil_mode", 0) != 0 {
        return unsup("ceil_mode");
    }
    let s = get("strides", 1, sp, 1)?;
    let d = get("dilations", 1, sp, 1)?;
    let p = get("pads", 0, 2 * sp, 0)?;
    if k.iter().any(|&x| x == 0) {
        return inv("window_kernel_zero", "kernel 0");
    }
    Ok(Win { k, s, d, pb: p[..sp].to_vec(), pe: p[sp..].to_vec() })
}

fn all_coords(shape: &[usize]) -> impl Iterator<Item = Vec<usize>> + '_ {
    (0..numel(shape)).map(move |k| coords(shape, k))
}

fn conv(n: &N, x: &V, w: &V, b: Option<&V>) -> Rs<V> {
    if x.shape.len() < 3 || w.shape.len() != x.shape.len() {
        return inv("conv_rank", format!("{:?} {:?}", x.shape, w.shape));
    }
    let sp = x.shape.len() - 2;
    let g = n.ai("group", 1);
    if g < 1 {
        return inv("group", "group");
    }
    let g = g as usize;
    let (m, cg) = (w.shape[0], w.shape[1]);
    if x.shape[1] != cg * g || m % g != 0 {
        return inv("conv_channels", format!("{:?} {:?} group {g}", x.shape, w.shape));
    }
    let k = w.shape[2..].to_vec();
    if let Some(ks) = n.ais("kernel_shape") {
        if ks.iter().map(|&v| v as usize).collect::<Vec<_>>() != k {
            return inv("kernel_shape", format!("{ks:?} vs {k:?}"));
        }
    }
    let wn = win(n, sp, k)?;
    if let Some(b) = b {
        if b.shape != [m] {
            return inv("conv_bias", format!("{:?}", b.shape));
        }
    }
    let pos: Vec<Vec<usize>> = (0..sp).map(|d| window_positions(x.shape[2 + d] + wn.pb[d] + wn.pe[d], wn.k[d], wn.d[d], wn.s[d])).collect();
    if pos.iter().any(Vec::is_empty) {
        return inv("kernel_too_big", format!("{:?} {:?}", x.shape, w.shape));
    }
    let osp: Vec<usize> = pos.iter().map(Vec::len).collect();
    let mut oshape = vec![x.shape[0], m];
    oshape.extend(&osp);
    let mut out = vec![];
    for nb in 0..x.shape[0] {
        for oc in 0..m {
            let grp = oc / (m / g);
            for oc_sp in all_coords(&osp) {
                let mut acc = b.map_or(0.0, |b| b.f[oc]);
                for ic in 0..cg {
                    for kc in all_coords(&wn.k) {
                        let mut xi = vec![nb, grp * cg + ic];
                        let mut inside = true;
                        for d in 0..sp {
                            let p = pos[d][oc_sp[d]] + kc[d] * wn.d[d];
                            if p < wn.pb[d] || p - wn.pb[d] >= x.shape[2 + d] {
                                inside = false;
                                break;
                            }
                            xi.push(p - wn.pb[d]);
                        }
                        if inside {
                            let mut wi = vec![oc, ic];
                            wi.extend(&kc);
                            acc += x.f[flat(&x.shape, &xi)] * w.f[flat(&w.shape, &wi)];
                        }
                    }
                }
                out.push(acc);
            }
        }
    }
    Ok(V::fl(oshape, out))
}

fn conv_transpose(n: &N, x: &V, w: &V, b: Option<&V>) -> Rs<V> {
    if x.shape.len() < 3 || w.shape.len() != x.shape.len() {
        return inv("conv_rank", "rank");
    }
    let sp = x.shape.len() - 2;
    let g = n.ai("group", 1);
    if g < 1 {
        return inv("group", "group");
    }
    let g = g as usize;
    let (c, mg) = (w.shape[0], w.shape[1]);
    if x.shape[1] != c || c % g != 0 {
        return inv("conv_channels", format!("{:?} {:?}", x.shape, w.shape));
    }
    let k = w.shape[2..].to_vec();
    if let Some(ks) = n.ais("kernel_shape") {
        if ks.iter().map(|&v| v as usize).collect::<Vec<_>>() != k {
            return inv("kernel_shape", "ks");
        }
    }
    if n.ais("output_shape").is_some() {
        return unsup("output_shape");
    }
    let wn = win(n, sp, k)?;
    let op: Vec<usize> = match n.ais("output_padding") {
        None => vec![0; sp],
        Some(v) if v.len() == sp && v.iter().all(|&x| x >= 0) => v.iter().map(|&x| x as usize).collect(),
        Some(v) => return inv("output_padding", format!("{v:?}")),
    };
    for d in 0..sp {
        if op[d] > 0 && op[d] >= wn.s[d].max(wn.d[d]) {
            return inv("output_padding", "too big");
        }
        if x.shape[2 + d] == 0 {
            return inv("empty_spatial", "0");
        }
    }
    // scatter into the full (unpadded) canvas, then crop
    let full: Vec<usize> = (0..sp)
        .map(|d| {
            let mut hi = 0;
            for i in 0..x.shape[2 + d] {
                for kk in 0..wn.k[d] {
                    hi = hi.max(i * wn.s[d] + kk * wn.d[d]);
                }
            }
            hi + 1 + op[d]
        })
        .collect();
    let m = mg * g;
    if let Some(b) = b {
        if b.shape != [m] {
            return inv("conv_bias", "bias");
        }
    }
    let mut osp = vec![];
    for d in 0..sp {
        if full[d] <= wn.pb[d] + wn.pe[d] {
            return inv("deconv_empty", "empty output");
        }
        osp.push(full[d] - wn.pb[d] - wn.pe[d]);
    }
    let mut cshape = vec![x.shape[0], m];
    cshape.extend(&full);
    let mut canvas = vec![0.0; numel(&cshape)];
    for nb in 0..x.shape[0] {
        for ic in 0..c {
            let grp = ic / (c / g);
            for xs in all_coords(&x.shape[2..]) {
                let mut xi = vec![nb, ic];
                xi.extend(&xs);
                let xv = x.f[flat(&x.shape, &xi)];
                for oc in 0..mg {
                    for kc in all_coords(&wn.k) {
                        let mut wi = vec![ic, oc];
                        wi.extend(&kc);
                        let mut ci = vec![nb, grp * mg + oc];
                        for d in 0..sp {
                            ci.push(xs[d] * wn.s[d] + kc[d] * wn.d[d]);
                        }
                        canvas[flat(&cshape, &ci)] += xv * w.f[flat(&w.shape, &wi)];
                    }
                }
            }
        }
    }
    let mut oshape = vec![x.shape[0], m];
    oshape.extend(&osp);
    let mut out = vec![];
    for oc in all_coords(&oshape) {
        let mut ci = vec![oc[0], oc[1]];
        for d in 0..sp {
            ci.push(oc[2 + d] + wn.pb[d]);
        }
        out.push(canvas[flat(&cshape, &ci)] + b.map_or(0.0, |b| b.f[oc[1]]));
    }
    Ok(V::fl(oshape, out))
}

fn pool(n: &N, x: &V, avg: bool) -> Rs<V> {
    let Some(ks) = n.ais("kernel_shape") else {
        return inv("pool_kernel_missing", "kernel_shape");
    };
    if ks.iter().any(|&v| v < 0) {
        return inv("window_attr_range", "kernel");
    }
    let sp = ks.len();
    if x.shape.len() != 2 + sp || sp == 0 {
        return inv("pool_rank", format!("{:?} {ks:?}", x.shape));
    }
    let wn = win(n, sp, ks.iter().map(|&v| v as usize).collect())?;
    let incl = n.ai("count_include_pad", 0) != 0;
    let pos: Vec<Vec<usize>> = (0..sp).map(|d| window_positions(x.shape[2 + d] + wn.pb[d] + wn.pe[d], wn.k[d], wn.d[d], wn.s[d])).collect();
    if pos.iter().any(Vec::is_empty) {
        return inv("kernel_too_big", "pool");
    }
    let osp: Vec<usize> = pos.iter().map(Vec::len).collect();
    let mut oshape = vec![x.shape[0], x.shape[1]];
    oshape.extend(&osp);
    let mut out = vec![];
    for oc in all_coords(&oshape) {
        let mut best = f64::NEG_INFINITY;
        let mut sum = 0.0;
        let mut cnt = 0usize;
        for kc in all_coords(&wn.k) {
            let mut xi = vec![oc[0], oc[1]];
            let mut inside = true;
            for d in 0..sp {
                let p = pos[d][oc[2 + d]] + kc[d] * wn.d[d];
                if p < wn.pb[d] || p - wn.pb[d] >= x.shape[2 + d] {
                    inside = false;
                    break;
                }
                xi.push(p - wn.pb[d]);
            }
            if inside {
                let v = x.f[flat(&x.shape, &xi)];
                best = best.max(v);
                sum += v;
                cnt += 1;
            } else if incl {
                cnt += 1;
            }
        }
        out.push(if avg { if cnt == 0 { 0.0 } else { sum / cnt as f64 } } else if best.is_finite() { best } else { 0.0 });
    }
    Ok(V::fl(oshape, out))
}

fn matmul(a: &V, b: &V) -> Rs<V> {
    if a.shape.is_empty() || b.shape.is_empty() {
        return inv("matmul_rank", "scalar");
    }
    let (a1, b1) = (a.shape.len() == 1, b.shape.len() == 1);
    let ash = if a1 { vec![1, a.shape[0]] } else { a.shape.clone() };
    let bsh = if b1 { vec![b.shape[0], 1] } else { b.shape.clone() };
    let (m, ka) = (ash[ash.len() - 2], ash[ash.len() - 1]);
    let (kb, nn) = (bsh[bsh.len() - 2], bsh[bsh.len() - 1]);
    if ka != kb {
        return inv("inner_dim", format!("{:?} {:?}", a.shape, b.shape));
    }
    let ab = &ash[..ash.len() - 2];
    let bb = &bsh[..bsh.len() - 2];
    let batch = bshape(&[ab, bb])?;
    let ai = bindex(&batch, ab);
    let bi = bindex(&batch, bb);
    let mut out = vec![];
    for t in 0..numel(&batch) {
        for r in 0..m {
            for c in 0..nn {
                let mut s = 0.0;
                for k in 0..ka {
                    s += a.f[ai[t] * m * ka + r * ka + k] * b.f[bi[t] * kb * nn + k * nn + c];
                }
                out.push(s);
            }
        }
    }
    let mut sh = batch;
    if !a1 {
        sh.push(m);
    }
    if !b1 {
        sh.push(nn);
    }
    Ok(V::fl(sh, out))
}

fn gemm(n: &N, a: &V, b: &V, c: Option<&V>) -> Rs<V> {
    if a.shape.len() != 2 || b.shape.len() != 2 {
        return inv("gemm_rank", format!("{:?} {:?}", a.shape, b.shape));
    }
    let (ta, tb) = (n.ai("transA", 0) != 0, n.ai("transB", 0) != 0);
    let (alpha, beta) = (n.af("alpha", 1.0), n.af("beta", 1.0));
    let (m, ka) = if ta { (a.shape[1], a.shape[0]) } else { (a.shape[0], a.shape[1]) };
    let (kb, nn) = if tb { (b.shape[1], b.shape[0]) } else { (b.shape[0], b.shape[1]) };
    if ka != kb {
        return inv("inner_dim", format!("{:?} {:?}", a.shape, b.shape));
    }
    let osh = vec![m, nn];
    let ci = match c {
        Some(c) => {
            if bshape(&[&c.shape, &osh])? != osh {
                return inv("gemm_bias", format!("{:?}", c.shape));
            }
            Some(bindex(&osh, &c.shape))
        }
        None => None,
    };
    let mut out = vec![];
    for r in 0..m {
        for q in 0..nn {
            let mut s = 0.0;
            for k in 0..ka {
                let av = if ta { a.f[k * m + r] } else { a.f[r * ka + k] };
                let bv = if tb { b.f[q * kb + k] } else { b.f[k * nn + q] };
                s += av * bv;
            }
            s *= alpha;
            if let (Some(c), Some(ci)) = (c, &ci) {
                s += beta * c.f[ci[r * nn + q]];
            }
            out.push(s);
        }
    }
    Ok(V::fl(osh, out))
}

fn reduce(n: &N, x: &V, axes_in: Option<Vec<i64>>, op: &str) -> Rs<V> {
    let rank = x.shape.len();
    let keep = n.ai("keepdims", 1) != 0;
    let axes = axes_in.or_else(|| n.ais("axes"));
    let axes: Vec<usize> = match axes {
        Some(a) if !a.is_empty() => norm_axes(&a, rank)?,
        Some(_) | None => {
            if n.ai("noop_with_empty_axes", 0) != 0 {
                return Ok(x.clone());
            }
            (0..rank).collect()
        }
    };
    let mut kshape = x.shape.clone();
    for &a in &axes {
        kshape[a] = 1;
    }
    let mut acc: Vec<Vec<f64>> = vec![vec![]; numel(&kshape)];
    let xf = x.floats();
    for k in 0..numel(&x.shape) {
        let mut c = coords(&x.shape, k);
        for &a in &axes {
            c[a] = 0;
        }
        acc[flat(&kshape, &c)].push(xf[k]);
    }
    let vals: Vec<f64> = acc
        .iter()
        .map(|v| match op {
            "ReduceSum" => v.iter().sum(),
            "ReduceMean" => v.iter().sum::<f64>() / (v.len().max(1)) as f64,
            _ => v.iter().copied().fold(f64::NEG_INFINITY, f64::max),
        })
        .collect();
    let shape: Vec<usize> = if keep { kshape } else { x.shape.iter().enumerate().filter(|(d, _)| !axes.contains(d)).map(|(_, &s)| s).collect() };
    Ok(if x.is_f() { V::fl(shape, vals) } else { V::int(shape, vals.iter().map(|v| *v as i64).collect()) })
}

/// python slice indices
pub fn slice_indices(dim: usize, start: i64, end: i64, step: i64) -> Vec<usize> {
    let d = dim as i128;
    let (s, e, st) = (i128::from(start), i128::from(end), i128::from(step));
    let norm = |v: i128| if v < 0 { v + d } else { v };
    let mut out = vec![];
    if st > 0 {
        let s = norm(s).clamp(0, d);
        let e = norm(e).clamp(0, d);
        let mut k = s;
        while k < e {
            out.push(k as usize);
            k += st;
        }
    } else {
        let s = norm(s).clamp(-1, d - 1);
        let e = norm(e).clamp(-1, d - 1);
        let mut k = s;
        while k > e {
            if k >= 0 {
                out.push(k as usize);
            }
            k += st;
        }
    }
    out
}

fn gather_nd_axes(x: &V, idx: &[Vec<usize>]) -> V {
    // idx[d] lists the positions kept along d
    let shape: Vec<usize> = idx.iter().map(Vec::len).collect();
    let sel: Vec<usize> = all_coords(&shape).map(|c| flat(&x.shape, &c.iter().enumerate().map(|(d, &k)| idx[d][k]).collect::<Vec<_>>())).collect();
    x.take(shape, &sel)
}

pub fn run_node(n: &N, env: &HashMap<String, V>) -> Rs<Vec<V>> {
    let opt = |k: usize| -> Option<&V> { n.inputs.get(k).filter(|s| !s.is_empty()).and_then(|s| env.get(s)) };
    let req = |k: usize| -> Rs<&V> {
        match opt(k) {
            Some(v) => Ok(v),
            None => inv("missing_input", format!("{} input {k}", n.op)),
        }
    };
    let un = |f: &dyn Fn(f64) -> f64| -> Rs<Vec<V>> {
        let x = req(0)?;
        if !x.is_f() {
            return unsup("float op on ints");
        }
        Ok(vec![V::fl(x.shape.clone(), x.f.iter().map(|v| f(*v)).collect())])
    };
    let one = |v: V| Ok(vec![v]);
    match n.op.as_str() {
        "Relu" => un(&|v| v.max(0.0)),
        "LeakyRelu" => {
            let a = n.af("alpha", 0.01);
            un(&|v| if v >= 0.0 { v } else { a * v })
        }
        "Sigmoid" => un(&|v| 1.0 / (1.0 + (-v).exp())),
        "Tanh" => un(&f64::tanh),
        "Erf" => un(&erf),
        "Gelu" => un(&|v| 0.5 * v * (1.0 + erf(v / 2f64.sqrt()))),
        "HardSwish" => un(&|v| v * (v / 6.0 + 0.5).clamp(0.0, 1.0)),
        "Exp" => un(&f64::exp),
        "Log" => un(&f64::ln),
        "Sqrt" => un(&|v| v.max(0.0).sqrt()),
        "Sin" => un(&f64::sin),
        "Cos" => un(&f64::cos),
        "Neg" => {
            let x = req(0)?;
            if x.is_f() {
                un(&|v| -v)
            } else {
                one(V { i: x.i.iter().map(|v| v.wrapping_neg()).collect(), ..x.clone() })
            }
        }
        "Identity" => one(req(0)?.clone()),
        "Not" => {
            let x = req(0)?;
            if x.is_f() {
                return unsup("not on float");
            }
            one(V::boolean(x.shape.clone(), x.i.iter().map(|v| i64::from(*v == 0)).collect()))
        }
        "Add" | "Sub" | "Mul" | "Div" | "Pow" | "And" | "Equal" | "Greater" | "Less" => {
            let (a, b) = (req(0)?, req(1)?);
            let sh = bshape(&[&a.shape, &b.shape])?;
            let (ia, ib) = (bindex(&sh, &a.shape), bindex(&sh, &b.shape));
            let cmp = matches!(n.op.as_str(), "And" | "Equal" | "Greater" | "Less");
            if a.is_f() || b.is_f() {
                if a.is_f() != b.is_f() && n.op != "Pow" {
                    return unsup("mixed types");
                }
                let (fa, fb) = (a.floats(), b.floats());
                let r: Vec<f64> = ia
                    .iter()
                    .zip(&ib)
                    .map(|(&x, &y)| {
                        let (x, y) = (fa[x], fb[y]);
                        match n.op.as_str() {
                            "Add" => x + y,
                            "Sub" => x - y,
                            "Mul" => x * y,
                            "Div" => x / y,
                            "Pow" => x.powf(y),
                            "Equal" => f64::from(u8::from(x == y)),
                            "Greater" => f64::from(u8::from(x > y)),
                            "Less" => f64::from(u8::from(x < y)),
                            _ => f64::from(u8::from(x != 0.0 && y != 0.0)),
                        }
                    })
                    .collect();
                if cmp {
                    one(V::boolean(sh, r.iter().map(|v| *v as i64).collect()))
                } else {
                    one(V::fl(sh, r))
                }
            } else {
                let mut r = vec![];
                for (&x, &y) in ia.iter().zip(&ib) {
                    let (x, y) = (a.i[x], b.i[y]);
                    r.push(match n.op.as_str() {
                        "Add" => x.wrapping_add(y),
                        "Sub" => x.wrapping_sub(y),
                        "Mul" => x.wrapping_mul(y),
                        "Div" => {
                            if y == 0 {
                                return unsup("int division by zero");
                            }
                            x.wrapping_div(y)
                        }
                        "Pow" => return unsup("int pow"),
                        "Equal" => i64::from(x == y),
                        "Greater" => i64::from(x > y),
                        "Less" => i64::from(x < y),
                        _ => i64::from(x != 0 && y != 0),
                    });
                }
                one(if cmp { V::boolean(sh, r) } else { V { shape: sh, dt: a.dt, f: vec![], i: r } })
            }
        }
        "Max" | "Min" => {
            let vs: Vec<&V> = (0..n.inputs.len()).map(|k| req(k)).collect::<Rs<_>>()?;
            if vs.is_empty() || vs.iter().any(|v| !v.is_f()) {
                return unsup("max on ints");
            }
            let sh = bshape(&vs.iter().map(|v| v.shape.as_slice()).collect::<Vec<_>>())?;
            let idx: Vec<Vec<usize>> = vs.iter().map(|v| bindex(&sh, &v.shape)).collect();
            let r = (0..numel(&sh))
                .map(|k| {
                    let it = vs.iter().zip(&idx).map(|(v, ix)| v.f[ix[k]]);
                    if n.op == "Max" {
                        it.fold(f64::NEG_INFINITY, f64::max)
                    } else {
                        it.fold(f64::INFINITY, f64::min)
                    }
                })
                .collect();
            one(V::fl(sh, r))
        }
        "Clip" => {
            let lo = opt(1).map(|v| v.floats()[0]).unwrap_or_else(|| n.af("min", f64::NEG_INFINITY));
            let hi = opt(2).map(|v| v.floats()[0]).unwrap_or_else(|| n.af("max", f64::INFINITY));
            un(&|v| v.max(lo).min(hi))
        }
        "Where" => {
            let (c, x, y) = (req(0)?, req(1)?, req(2)?);
            let sh = bshape(&[&c.shape, &x.shape, &y.shape])?;
            let (ic, ix, iy) = (bindex(&sh, &c.shape), bindex(&sh, &x.shape), bindex(&sh, &y.shape));
            if x.is_f() != y.is_f() || c.is_f() {
                return unsup("where types");
            }
            if x.is_f() {
                one(V::fl(sh.clone(), (0..numel(&sh)).map(|k| if c.i[ic[k]] != 0 { x.f[ix[k]] } else { y.f[iy[k]] }).collect()))
            } else {
                one(V { shape: sh.clone(), dt: x.dt, f: vec![], i: (0..numel(&sh)).map(|k| if c.i[ic[k]] != 0 { x.i[ix[k]] } else { y.i[iy[k]] }).collect() })
            }
        }
        "Cast" => {
            let x = req(0)?;
            let to = n.ai("to", 0) as i32;
            match to {
                F32 | F64 => one(V { shape: x.shape.clone(), dt: to, f: x.floats(), i: vec![] }),
                I64 | I32 => one(V { shape: x.shape.clone(), dt: to, f: vec![], i: x.ints() }),
                BOOL => one(V::boolean(x.shape.clone(), x.floats().iter().map(|v| i64::from(*v != 0.0)).collect())),
                _ => unsup("cast type"),
            }
        }
        "Softmax" => {
            let x = req(0)?;
            let rank = x.shape.len();
            let ax = norm_axis(n.ai("axis", -1), rank.max(1))?;
            if rank == 0 {
                return unsup("scalar softmax");
            }
            let mut out = vec![0.0; x.f.len()];
            let st = strides(&x.shape);
            for k in 0..x.f.len() {
                let c = coords(&x.shape, k);
                let base = k - c[ax] * st[ax];
                let row: Vec<f64> = (0..x.shape[ax]).map(|j| x.f[base + j * st[ax]]).collect();
                let mx = row.iter().copied().fold(f64::NEG_INFINITY, f64::max);
                let s: f64 = row.iter().map(|v| (v - mx).exp()).sum();
                out[k] = (x.f[k] - mx).exp() / s;
            }
            one(V::fl(x.shape.clone(), out))
        }
        "Gemm" => one(gemm(n, req(0)?, req(1)?, opt(2))?),
        "MatMul" => one(matmul(req(0)?, req(1)?)?),
        "Conv" => one(conv(n, req(0)?, req(1)?, opt(2))?),
        "ConvTranspose" => one(conv_transpose(n, req(0)?, req(1)?, opt(2))?),
        "MaxPool" => one(pool(n, req(0)?, false)?),
        "AveragePool" => one(pool(n, req(0)?, true)?),
        "GlobalAveragePool" => {
            let x = req(0)?;
            if x.shape.len() < 3 {
                return inv("pool_rank", "gap");
            }
            let sz = numel(&x.shape[2..]);
            let mut sh = x.shape[..2].to_vec();
            sh.resize(x.shape.len(), 1);
            one(V::fl(sh, x.f.chunks(sz.max(1)).map(|c| c.iter().sum::<f64>() / sz as f64).collect()))
        }
        "BatchNormalization" => {
            let x = req(0)?;
            let ps: Vec<&V> = (1..n.inputs.len()).map(|k| req(k)).collect::<Rs<_>>()?;
            if x.shape.len() < 2 || ps.iter().any(|p| p.shape != [x.shape[1]]) {
                return inv("bn_params", "bn");
            }
            let sz = numel(&x.shape[2..]);
            let eps = n.af("epsilon", f64::from(1e-5f32));
            let c = x.shape[1];
            let out = x
                .f
                .iter()
                .enumerate()
                .map(|(k, v)| {
                    let ch = k / sz % c;
                    if ps.len() == 2 {
                        v * ps[0].floats()[ch] + ps[1].floats()[ch]
                    } else {
                        (v - ps[2].floats()[ch]) / (ps[3].floats()[ch] + eps).sqrt() * ps[0].floats()[ch] + ps[1].floats()[ch]
                    }
                })
                .collect();
            one(V::fl(x.shape.clone(), out))
        }
        "LayerNormalization" => {
            let (x, g) = (req(0)?, req(1)?);
            let ax = norm_axis(n.ai("axis", -1), x.shape.len())?;
            let sz = numel(&x.shape[ax..]);
            let eps = n.af("epsilon", f64::from(1e-5f32));
            if bshape(&[&g.shape, &x.shape[ax..]])? != x.shape[ax..] {
                return inv("ln_scale", "ln");
            }
            let gi = bindex(&x.shape[ax..], &g.shape);
            let b = opt(2);
            let bi = b.map(|b| bindex(&x.shape[ax..], &b.shape));
            let mut out = vec![];
            for row in x.f.chunks(sz.max(1)) {
                let mu = row.iter().sum::<f64>() / sz as f64;
                let var = row.iter().map(|v| (v - mu) * (v - mu)).sum::<f64>() / sz as f64;
                for (k, v) in row.iter().enumerate() {
                    out.push((v - mu) / (var + eps).sqrt() * g.f[gi[k]] + b.map_or(0.0, |b| b.f[bi.as_ref().unwrap()[k]]));
                }
            }
            one(V::fl(x.shape.clone(), out))
        }
        "InstanceNormalization" | "GroupNormalization" => {
            let (x, g, b) = (req(0)?, req(1)?, req(2)?);
            if x.shape.len() < 3 {
                return inv("norm_rank", "in");
            }
            let c = x.shape[1];
            let groups = if n.op == "InstanceNormalization" { c } else { n.ai("num_groups", 0).max(0) as usize };
            if groups == 0 || c % groups != 0 || g.shape != [c] || b.shape != [c] {
                return inv("norm_params", "in");
            }
            let eps = n.af("epsilon", f64::from(1e-5f32));
            let sp = numel(&x.shape[2..]);
            let sz = sp * (c / groups);
            let mut out = vec![];
            for (gi, row) in x.f.chunks(sz.max(1)).enumerate() {
                let mu = row.iter().sum::<f64>() / sz as f64;
                let var = row.iter().map(|v| (v - mu) * (v - mu)).sum::<f64>() / sz as f64;
                for (k, v) in row.iter().enumerate() {
                    let ch = (gi % groups) * (c / groups) + k / sp;
                    out.push((v - mu) / (var + eps).sqrt() * g.f[ch] + b.f[ch]);
                }
            }
            one(V::fl(x.shape.clone(), out))
        }
        "ReduceMean" | "ReduceSum" | "ReduceMax" => {
            let ax = opt(1).map(V::ints);
            one(reduce(n, req(0)?, ax, &n.op)?)
        }
        "Reshape" => {
            let x = req(0)?;
            let tgt = req(1)?.ints();
            let az = n.ai("allowzero", 0) != 0;
            let total = numel(&x.shape);
            let mut dims = vec![];
            let mut hole = None;
            for (k, &d) in tgt.iter().enumerate() {
                match d {
                    -1 => {
                        if hole.is_some() {
                            return inv("reshape_two_holes", format!("{tgt:?}"));
                        }
                        hole = Some(k);
                        dims.push(1);
                    }
                    0 if !az => match x.shape.get(k) {
                        Some(&s) => dims.push(s),
                        None => return inv("reshape_copy_range", format!("{tgt:?}")),
                    },
                    d if d < -1 => return inv("reshape_negative", format!("{tgt:?}")),
                    d => dims.push(d as usize),
                }
            }
            if az && hole.is_some() && tgt.contains(&0) {
                return inv("reshape_zero_and_hole", format!("{tgt:?}"));
            }
            let mut known = 1usize;
            for &d in &dims {
                known = match known.checked_mul(d) {
                    Some(v) => v,
                    None => return inv("reshape_count", "overflow"),
                };
            }
            if let Some(h) = hole {
                if known == 0 {
                    return unsup("hole with empty");
                }
                if total % known != 0 {
                    return inv("reshape_count", format!("{:?} -> {tgt:?}", x.shape));
                }
                dims[h] = total / known;
            } else if known != total {
                return inv("reshape_count", format!("{:?} -> {tgt:?}", x.shape));
            }
            one(x.reshaped(dims))
        }
        "Flatten" => {
            let x = req(0)?;
            let r = x.shape.len() as i64;
            let a = n.ai("axis", 1);
            if a < -r || a > r {
                return inv("axis", format!("flatten {a} rank {r}"));
            }
            let a = if a < 0 { a + r } else { a } as usize;
            one(x.reshaped(vec![numel(&x.shape[..a]), numel(&x.shape[a..])]))
        }
        "Squeeze" => {
            let x = req(0)?;
            let axes = n.ais("axes").or_else(|| opt(1).map(V::ints));
            let keep: Vec<usize> = match axes {
                None => x.shape.iter().copied().filter(|&d| d != 1).collect(),
                Some(a) => {
                    let a = norm_axes(&a, x.shape.len())?;
                    if a.iter().any(|&k| x.shape[k] != 1) {
                        return inv("squeeze_not_one", format!("{:?} {a:?}", x.shape));
                    }
                    x.shape.iter().enumerate().filter(|(k, _)| !a.contains(k)).map(|(_, &d)| d).collect()
                }
            };
            one(x.reshaped(keep))
        }
        "Unsqueeze" => {
            let x = req(0)?;
            let Some(axes) = n.ais("axes").or_else(|| opt(1).map(V::ints)) else {
                return inv("unsqueeze_axes", "none");
            };
            let r = x.shape.len() + axes.len();
            let a = norm_axes(&axes, r)?;
            let mut it = x.shape.iter();
            let sh = (0..r).map(|k| if a.contains(&k) { 1 } else { *it.next().unwrap() }).collect();
            one(x.reshaped(sh))
        }
        "Transpose" => {
            let x = req(0)?;
            let r = x.shape.len();
            let perm: Vec<usize> = match n.ais("perm") {
                None => (0..r).rev().collect(),
                Some(p) => {
                    if p.len() != r {
                        return inv("perm", format!("{p:?}"));
                    }
                    norm_axes(&p, r)?
                }
            };
            let sh: Vec<usize> = perm.iter().map(|&p| x.shape[p]).collect();
            let sel: Vec<usize> = all_coords(&sh)
                .map(|c| {
                    let mut xc = vec![0; r];
                    for (k, &p) in perm.iter().enumerate() {
                        xc[p] = c[k];
                    }
                    flat(&x.shape, &xc)
                })
                .collect();
            one(x.take(sh, &sel))
        }
        "Concat" => {
            let vs: Vec<&V> = (0..n.inputs.len()).map(|k| req(k)).collect::<Rs<_>>()?;
            if vs.is_empty() {
                return inv("missing_input", "concat");
            }
            let r = vs[0].shape.len();
            if r == 0 {
                return inv("axis", "concat of scalars");
            }
            let ax = norm_axis(n.ai("axis", 0), r)?;
            for v in &vs {
                if v.shape.len() != r || (0..r).any(|d| d != ax && v.shape[d] != vs[0].shape[d]) {
                    return inv("concat_mismatch", format!("{:?}", vs.iter().map(|v| v.shape.clone()).collect::<Vec<_>>()));
                }
                if v.is_f() != vs[0].is_f() {
                    return unsup("mixed concat");
                }
            }
            let mut sh = vs[0].shape.clone();
            sh[ax] = vs.iter().map(|v| v.shape[ax]).sum();
            let mut out = V { shape: sh.clone(), dt: vs[0].dt, f: vec![], i: vec![] };
            for c in all_coords(&sh) {
                let mut c = c;
                for v in &vs {
                    if c[ax] < v.shape[ax] {
                        let k = flat(&v.shape, &c);
                        if v.is_f() {
                            out.f.push(v.f[k]);
                        } else {
                            out.i.push(v.i[k]);
                        }
                        break;
                    }
                    c[ax] -= v.shape[ax];
                }
            }
            one(out)
        }
        "Split" => {
            let x = req(0)?;
            let r = x.shape.len();
            if r == 0 {
                return inv("axis", "split scalar");
            }
            let ax = norm_axis(n.ai("axis", 0), r)?;
            let k = n.outputs.len();
            let sizes: Vec<i64> = match opt(1).map(V::ints).or_else(|| n.ais("split")) {
                Some(s) => s,
                None => {
                    if k == 0 || x.shape[ax] % k != 0 {
                        return inv("split_uneven", format!("{} into {k}", x.shape[ax]));
                    }
                    vec![(x.shape[ax] / k) as i64; k]
                }
            };
            if sizes.len() != k || sizes.iter().any(|&s| s < 0) || sizes.iter().sum::<i64>() != x.shape[ax] as i64 {
                return inv("split_sizes", format!("{sizes:?} of {}", x.shape[ax]));
            }
            let mut at = 0usize;
            let mut outs = vec![];
            for s in sizes {
                let idx: Vec<Vec<usize>> = (0..r).map(|d| if d == ax { (at..at + s as usize).collect() } else { (0..x.shape[d]).collect() }).collect();
                outs.push(gather_nd_axes(x, &idx));
                at += s as usize;
            }
            Ok(outs)
        }
        "Slice" => {
            let x = req(0)?;
            let r = x.shape.len();
            let (st, en) = (req(1)?.ints(), req(2)?.ints());
            if st.len() != en.len() {
                return inv("slice_len", "starts/ends");
            }
            let axes = opt(3).map(V::ints).unwrap_or_else(|| (0..st.len() as i64).collect());
            let steps = opt(4).map(V::ints).unwrap_or_else(|| vec![1; st.len()]);
            if axes.len() != st.len() || steps.len() != st.len() {
                return inv("slice_len", "axes/steps");
            }
            let ax = norm_axes(&axes, r)?;
            let mut idx: Vec<Vec<usize>> = (0..r).map(|d| (0..x.shape[d]).collect()).collect();
            for (k, &a) in ax.iter().enumerate() {
                if steps[k] == 0 {
                    return inv("slice_step_zero", "0");
                }
                idx[a] = slice_indices(x.shape[a], st[k], en[k], steps[k]);
            }
            one(gather_nd_axes(x, &idx))
        }
        "Pad" => {
            let x = req(0)?;
            let r = x.shape.len();
            let Some(p) = opt(1).map(V::ints).or_else(|| n.ais("pads")) else {
                return inv("pad_missing", "pads");
            };
            if opt(3).is_some() {
                return unsup("pad axes");
            }
            if p.len() != 2 * r {
                return inv("pad_len", format!("{p:?} rank {r}"));
            }
            if p.iter().any(|&v| v < 0) {
                return inv("pad_negative", format!("{p:?}"));
            }
            match n.as_("mode").as_deref() {
                None | Some("constant") => {}
                _ => return unsup("pad mode"),
            }
            let fill = opt(2).map_or(0.0, |v| v.floats()[0]);
            let sh: Vec<usize> = (0..r).map(|d| p[d] as usize + x.shape[d] + p[r + d] as usize).collect();
            let mut out = V { shape: sh.clone(), dt: x.dt, f: vec![], i: vec![] };
            for c in all_coords(&sh) {
                let mut inside = true;
                let mut xc = vec![];
                for d in 0..r {
                    let k = c[d] as i64 - p[d];
                    if k < 0 || k >= x.shape[d] as i64 {
                        inside = false;
                        break;
                    }
                    xc.push(k as usize);
                }
                if x.is_f() {
                    out.f.push(if inside { x.f[flat(&x.shape, &xc)] } else { fill });
                } else {
                    out.i.push(if inside { x.i[flat(&x.shape, &xc)] } else { fill as i64 });
                }
            }
            one(out)
        }
        "Tile" => {
            let x = req(0)?;
            let rep = req(1)?.ints();
            if rep.len() != x.shape.len() {
                return inv("tile_len", format!("{rep:?}"));
            }
            if rep.iter().any(|&v| v < 0) {
                return inv("tile_negative", format!("{rep:?}"));
            }
            let idx: Vec<Vec<usize>> = x.shape.iter().zip(&rep).map(|(&d, &r)| (0..d * r as usize).map(|k| k % d).collect()).collect();
            one(gather_nd_axes(x, &idx))
        }
        "Expand" => {
            let x = req(0)?;
            let t = req(1)?.ints();
            if t.iter().any(|&v| v < 0) {
                return inv("expand_negative", format!("{t:?}"));
            }
            let t: Vec<usize> = t.iter().map(|&v| v as usize).collect();
            let sh = bshape(&[&x.shape, &t])?;
            let ix = bindex(&sh, &x.shape);
            one(x.take(sh, &ix))
        }
        "Gather" => {
            let (x, ix) = (req(0)?, req(1)?);
            let r = x.shape.len();
            if r == 0 {
                return inv("axis", "gather scalar");
            }
            let ax = norm_axis(n.ai("axis", 0), r)?;
            let d = x.shape[ax] as i64;
            let iv = ix.ints();
            if iv.iter().any(|&v| v < -d || v >= d) {
                return inv("gather_index", format!("{iv:?} of {d}"));
            }
            let pos: Vec<usize> = iv.iter().map(|&v| if v < 0 { v + d } else { v } as usize).collect();
            let mut idx: Vec<Vec<usize>> = (0..r).map(|k| (0..x.shape[k]).collect()).collect();
            idx[ax] = pos;
            let g = gather_nd_axes(x, &idx);
            let mut sh = x.shape[..ax].to_vec();
            sh.extend(&ix.shape);
            sh.extend(&x.shape[ax + 1..]);
            one(g.reshaped(sh))
        }
        "GatherElements" => {
            let (x, ix) = (req(0)?, req(1)?);
            let r = x.shape.len();
            if ix.shape.len() != r || r == 0 {
                return inv("gather_elements_rank", "rank");
            }
            let ax = norm_axis(n.ai("axis", 0), r)?;
            let d = x.shape[ax] as i64;
            let iv = ix.ints();
            if (0..r).any(|k| k != ax && ix.shape[k] > x.shape[k]) || iv.iter().any(|&v| v < -d || v >= d) {
                return inv("gather_index", "elements");
            }
            let sel: Vec<usize> = all_coords(&ix.shape)
                .enumerate()
                .map(|(k, mut c)| {
                    let v = iv[k];
                    c[ax] = if v < 0 { v + d } else { v } as usize;
                    flat(&x.shape, &c)
                })
                .collect();
            one(x.take(ix.shape.clone(), &sel))
        }
        "ScatterND" => {
            let (x, ix, up) = (req(0)?, req(1)?, req(2)?);
            if x.is_f() != up.is_f() || !x.is_f() {
                return unsup("scatter types");
            }
            let q = *ix.shape.last().unwrap_or(&0);
            if q == 0 || q > x.shape.len() {
                return inv("scatter", "q");
            }
            let mut us = ix.shape[..ix.shape.len() - 1].to_vec();
            us.extend(&x.shape[q..]);
            if us != up.shape {
                return inv("scatter", "updates");
            }
            let inner = numel(&x.shape[q..]);
            let mut out = x.clone();
            let iv = ix.ints();
            for (t, c) in iv.chunks(q).enumerate() {
                let mut p = vec![];
                for d in 0..q {
                    let dd = x.shape[d] as i64;
                    if c[d] < -dd || c[d] >= dd {
                        return inv("gather_index", "scatter");
                    }
                    p.push(if c[d] < 0 { c[d] + dd } else { c[d] } as usize);
                }
                let base = flat(&x.shape[..q], &p) * inner;
                out.f[base..base + inner].copy_from_slice(&up.f[t * inner..(t + 1) * inner]);
            }
            one(out)
        }
        "TopK" => {
            let x = req(0)?;
            let k = req(1)?.ints();
            if k.len() != 1 {
                return inv("topk_k", "k");
            }
            let r = x.shape.len();
            if r == 0 {
                return inv("axis", "topk scalar");
            }
            let ax = norm_axis(n.ai("axis", -1), r)?;
            if k[0] < 1 || k[0] > x.shape[ax] as i64 {
                return inv("topk_k", format!("{k:?} of {}", x.shape[ax]));
            }
            if n.ai("largest", 1) != 1 {
                return unsup("largest=0");
            }
            let k = k[0] as usize;
            let mut sh = x.shape.clone();
            sh[ax] = k;
            let st = strides(&x.shape);
            let (mut vals, mut inds) = (vec![0.0; numel(&sh)], vec![0; numel(&sh)]);
            for c in all_coords(&sh) {
                let mut xc = c.clone();
                xc[ax] = 0;
                let base = flat(&x.shape, &xc);
                let mut row: Vec<(f64, usize)> = (0..x.shape[ax]).map(|j| (x.f[base + j * st[ax]], j)).collect();
                row.sort_by(|a, b| b.0.total_cmp(&a.0).then(a.1.cmp(&b.1)));
                let o = flat(&sh, &c);
                vals[o] = row[c[ax]].0;
                inds[o] = row[c[ax]].1 as i64;
            }
            Ok(vec![V::fl(sh.clone(), vals), V::int(sh, inds)])
        }
        "Shape" => {
            let x = req(0)?;
            let r = x.shape.len() as i64;
            let cl = |v: i64| if v < 0 { (v + r).max(0) } else { v.min(r) } as usize;
            let (s, e) = (cl(n.ai("start", 0)), cl(n.ai("end", r)));
            let d: Vec<i64> = if s < e { x.shape[s..e].iter().map(|&v| v as i64).collect() } else { vec![] };
            one(V::int(vec![d.len()], d))
        }
        "ConstantOfShape" => {
            let t = req(0)?.ints();
            if t.iter().any(|&v| v < 0) {
                return inv("cos_negative", format!("{t:?}"));
            }
            let sh: Vec<usize> = t.iter().map(|&v| v as usize).collect();
            let cnt = numel(&sh);
            match n.attr("value") {
                Some(A::T(v)) if !v.is_float() => one(V { shape: sh, dt: v.dt, f: vec![], i: vec![v.i[0]; cnt] }),
                Some(A::T(v)) => one(V::fl(sh, vec![v.f[0]; cnt])),
                _ => one(V::fl(sh, vec![0.0; cnt])),
            }
        }
        "Range" => {
            let (a, b, d) = (req(0)?, req(1)?, req(2)?);
            if a.len() != 1 || b.len() != 1 || d.len() != 1 {
                return inv("range_scalar", "range");
            }
            if a.is_f() {
                let (a, b, d) = (a.f[0], b.f[0], d.f[0]);
                if d == 0.0 {
                    return inv("range_delta", "0");
                }
                let mut v = vec![];
                let cnt = ((b - a) / d).ceil().max(0.0) as usize;
                for k in 0..cnt {
                    v.push(a + k as f64 * d);
                }
                one(V::fl(vec![v.len()], v))
            } else {
                let (a, b, d) = (a.i[0], b.i[0], d.i[0]);
                if d == 0 {
                    return inv("range_delta", "0");
                }
                let mut v = vec![];
                let mut k = a;
                while (d > 0 && k < b) || (d < 0 && k > b) {
                    v.push(k);
                    k += d;
                }
                one(V::int(vec![v.len()], v))
            }
        }
        "Constant" => match n.attr("value") {
            Some(A::T(t)) => one(V::from_t(t)),
            _ => match n.attrs.first() {
                Some((k, A::F(v))) if k == "value_float" => one(V::fl(vec![], vec![f64::from(*v)])),
                Some((k, A::I(v))) if k == "value_int" => one(V::int(vec![], vec![*v])),
                Some((k, A::Fs(v))) if k == "value_floats" => one(V::fl(vec![v.len()], v.iter().map(|&x| f64::from(x)).collect())),
                Some((k, A::Is(v))) if k == "value_ints" => one(V::int(vec![v.len()], v.clone())),
                _ => unsup("constant form"),
            },
        },
        "Resize" => {
            let x = req(0)?;
            let r = x.shape.len();
            let sh: Vec<usize> = if let Some(s) = opt(3) {
                let s = s.ints();
                if s.len() != r || s.iter().any(|&v| v < 0) {
                    return inv("resize_sizes", format!("{s:?}"));
                }
                s.iter().map(|&v| v as usize).collect()
            } else if let Some(s) = opt(2) {
                let s = s.floats();
                if s.len() != r || s.iter().any(|&v| v <= 0.0) {
                    return inv("resize_scales", format!("{s:?}"));
                }
                x.shape.iter().zip(&s).map(|(&d, &s)| (d as f64 * s).floor() as usize).collect()
            } else {
                return inv("resize_missing", "no sizes/scales");
            };
            if x.shape.contains(&0) {
                return unsup("empty resize");
            }
            let cm = n.as_("coordinate_transformation_mode").unwrap_or("half_pixel".into());
            let nm = n.as_("nearest_mode").unwrap_or("round_prefer_floor".into());
            // the source coordinate of output index k along axis d
            let at = |d: usize, k: usize| -> f64 {
                let (i, o, k) = (x.shape[d] as f64, sh[d] as f64, k as f64);
                if sh[d] == x.shape[d] {
                    return k;
                }
                let scale = match opt(2) {
                    Some(s) if opt(3).is_none() => s.floats()[d],
                    _ => o / i,
                };
                match cm.as_str() {
                    "asymmetric" => k / scale,
                    "align_corners" => {
                        if o == 1.0 {
                            0.0
                        } else {
                            k * (i - 1.0) / (o - 1.0)
                        }
                    }
                    "pytorch_half_pixel" if o <= 1.0 => 0.0,
                    _ => (k + 0.5) / scale - 0.5,
                }
            };
            match n.as_("mode").unwrap_or("nearest".into()).as_str() {
                "nearest" => {
                    let near = |v: f64| match nm.as_str() {
                        "floor" => v.floor(),
                        "ceil" => v.ceil(),
                        "round_prefer_ceil" => (v + 0.5).floor(),
                        _ => (v - 0.5).ceil(),
                    };
                    let idx: Vec<Vec<usize>> =
                        (0..r).map(|d| (0..sh[d]).map(|k| near(at(d, k)).clamp(0.0, x.shape[d] as f64 - 1.0) as usize).collect()).collect();
                    one(gather_nd_axes(x, &idx))
                }
                "linear" if x.is_f() => {
                    let mut cur = x.clone();
                    for d in 0..r {
                        if sh[d] == cur.shape[d] {
                            continue;
                        }
                        let last = x.shape[d] as f64 - 1.0;
                        let ids = |up: bool| -> Vec<Vec<usize>> {
                            (0..r)
                                .map(|e| {
                                    if e != d {
                                        (0..cur.shape[e]).collect()
                                    } else {
                                        (0..sh[d])
                                            .map(|k| {
                                                let c = at(d, k).clamp(0.0, last).floor();
                                                (if up { (c + 1.0).min(last) } else { c }) as usize
                                            })
                                            .collect()
                                    }
                                })
                                .collect()
                        };
                        let (lo, hi) = (gather_nd_axes(&cur, &ids(false)), gather_nd_axes(&cur, &ids(true)));
                        let mut out = lo.clone();
                        for (q, v) in out.f.iter_mut().enumerate() {
                            let k = coords(&lo.shape, q)[d];
                            let c = at(d, k).clamp(0.0, last);
                            let w = c - c.floor();
                            *v = lo.f[q] * (1.0 - w) + hi.f[q] * w;
                        }
                        cur = out;
                    }
                    one(cur)
                }
                o => unsup(format!("resize mode {o}")),
            }
        }
        "GridSample" => {
            let (x, g) = (req(0)?, req(1)?);
            if x.shape.len() != 4 || g.shape.len() != 4 || g.shape[3] != 2 || g.shape[0] != x.shape[0] {
                return inv("gridsample", format!("{:?} {:?}", x.shape, g.shape));
            }
            let (nn, c, h, w) = (x.shape[0], x.shape[1], x.shape[2], x.shape[3]);
            let (oh, ow) = (g.shape[1], g.shape[2]);
            let ac = n.ai("align_corners", 0) != 0;
            let pm = n.as_("padding_mode").unwrap_or("zeros".into());
            let mode = n.as_("mode").unwrap_or("bilinear".into());
            let nearest = mode == "nearest";
            if !nearest && mode != "bilinear" && mode != "linear" {
                return unsup(format!("gridsample mode {mode}"));
            }
            let unnorm = |v: f64, size: usize| {
                if ac {
                    (v + 1.0) / 2.0 * (size as f64 - 1.0)
                } else {
                    ((v + 1.0) * size as f64 - 1.0) / 2.0
                }
            };
            let place = |v: f64, size: usize| -> f64 {
                let last = size as f64 - 1.0;
                match pm.as_str() {
                    "border" => v.clamp(0.0, last),
                    "reflection" => {
                        // bounce between the borders until inside
                        let (lo, hi) = if ac { (0.0, last) } else { (-0.5, last + 0.5) };
                        let mut v = v;
                        if hi <= lo {
                            return 0.0;
                        }
                        while v < lo || v > hi {
                            v = if v < lo { 2.0 * lo - v } else { 2.0 * hi - v };
                        }
                        v.clamp(0.0, last)
                    }
                    _ => v,
                }
            };
            let mut out = vec![];
            for b in 0..nn {
                for ch in 0..c {
                    let px_at = |qy: f64, qx: f64| -> f64 {
                        if qx >= 0.0 && qy >= 0.0 && qx < w as f64 && qy < h as f64 {
                            x.f[((b * c + ch) * h + qy as usize) * w + qx as usize]
                        } else {
                            0.0
                        }
                    };
                    for y in 0..oh {
                        for xx in 0..ow {
                            let at = ((b * oh + y) * ow + xx) * 2;
                            let px = place(unnorm(g.f[at], w), w);
                            let py = place(unnorm(g.f[at + 1], h), h);
                            if nearest {
                                out.push(px_at((py + 0.5).floor(), (px + 0.5).floor()));
                                continue;
                            }
                            let (fx, fy) = (px.floor(), py.floor());
                            let mut s = 0.0;
                            for (dy, dx) in [(0.0, 0.0), (0.0, 1.0), (1.0, 0.0), (1.0, 1.0)] {
                                let (qx, qy) = (fx + dx, fy + dy);
                                let wt = (1.0 - (px - qx).abs()) * (1.0 - (py - qy).abs());
                                s += wt * px_at(qy, qx);
                            }
                            out.push(s);
                        }
                    }
                }
            }
            one(V::fl(vec![nn, c, oh, ow], out))
        }
        o => unsup(format!("op {o}")),
    }
}

/// Run a whole model in dependency order; every tensor's value.
pub fn run(m: &M, inputs: &HashMap<String, V>) -> Rs<HashMap<String, V>> {
    let mut env: HashMap<String, V> = inputs.clone();
    for (k, t) in &m.inits {
        env.insert(k.clone(), V::from_t(t));
    }
    let mut left: Vec<&N> = m.nodes.iter().collect();
    while !left.is_empty() {
        let before = left.len();
        let mut rest = vec![];
        for n in left {
            if n.inputs.iter().all(|i| i.is_empty() || env.contains_key(i)) {
                let outs = run_node(n, &env)?;
                for (o, v) in n.outputs.iter().zip(outs) {
                    if !o.is_empty() {
                        env.insert(o.clone(), v);
                    }
                }
            } else {
                rest.push(n);
            }
        }
        if rest.len() == before {
            return inv("cycle", "nodes cannot be ordered");
        }
        left = rest;
    }
    Ok(env)
}
