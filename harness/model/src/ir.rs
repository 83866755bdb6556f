//! Model representation used by the generator, the writer and the executor.
pub const F32: i32 = 1;
pub const I32: i32 = 6;
pub const I64: i32 = 7;
pub const BOOL: i32 = 9;
pub const F64: i32 = 11;

/// A tensor constant: floats in `f` (types FLOAT/DOUBLE), integers and booleans in `i`.
#[derive(Clone, Debug, PartialEq)]
pub struct T {
    pub dims: Vec<i64>,
    pub dt: i32,
    pub f: Vec<f64>,
    pub i: Vec<i64>,
}

impl T {
    pub fn floats(dims: &[usize], f: Vec<f64>) -> T {
        T { dims: dims.iter().map(|&d| d as i64).collect(), dt: F32, f: f.into_iter().map(|v| f64::from(v as f32)).collect(), i: vec![] }
    }
    pub fn ints(v: &[i64]) -> T {
        T { dims: vec![v.len() as i64], dt: I64, f: vec![], i: v.to_vec() }
    }
    pub fn int_nd(dims: &[usize], v: Vec<i64>) -> T {
        T { dims: dims.iter().map(|&d| d as i64).collect(), dt: I64, f: vec![], i: v }
    }
    pub fn scalar_i(v: i64) -> T {
        T { dims: vec![], dt: I64, f: vec![], i: vec![v] }
    }
    pub fn scalar_f(v: f64) -> T {
        T { dims: vec![], dt: F32, f: vec![f64::from(v as f32)], i: vec![] }
    }
    pub fn is_float(&self) -> bool {
        self.dt == F32 || self.dt == F64
    }
    pub fn shape(&self) -> Vec<usize> {
        self.dims.iter().map(|&d| d as usize).collect()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum A {
    F(f32),
    I(i64),
    S(String),
    Fs(Vec<f32>),
    Is(Vec<i64>),
    T(T),
}

#[derive(Clone, Debug, PartialEq)]
pub struct N {
    /// None: the name field is absent
    pub name: Option<String>,
    pub op: String,
    pub inputs: Vec<String>,
    pub outputs: Vec<String>,
    pub attrs: Vec<(String, A)>,
    /// None: the domain field is absent
    pub domain: Option<String>,
}

impl N {
    pub fn attr(&self, k: &str) -> Option<&A> {
        self.attrs.iter().find(|(n, _)| n == k).map(|(_, a)| a)
    }
    pub fn ai(&self, k: &str, d: i64) -> i64 {
        match self.attr(k) {
            Some(A::I(v)) => *v,
            _ => d,
        }
    }
    pub fn af(&self, k: &str, d: f64) -> f64 {
        match self.attr(k) {
            Some(A::F(v)) => f64::from(*v),
            _ => d,
        }
    }
    pub fn ais(&self, k: &str) -> Option<Vec<i64>> {
        match self.attr(k) {
            Some(A::Is(v)) => Some(v.clone()),
            _ => None,
        }
    }
    pub fn as_(&self, k: &str) -> Option<String> {
        match self.attr(k) {
            Some(A::S(v)) => Some(v.clone()),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Dim {
    V(i64),
    P(String),
    Missing,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Io {
    pub name: String,
    pub dt: i32,
    /// None: no shape recorded
    pub dims: Option<Vec<Dim>>,
}

#[derive(Clone, Debug, Default)]
pub struct M {
    pub nodes: Vec<N>,
    pub inits: Vec<(String, T)>,
    pub inputs: Vec<Io>,
    pub outputs: Vec<Io>,
    /// (domain, version); None domain: field absent
    pub opsets: Vec<(Option<String>, i64)>,
}

pub fn io(name: &str, shape: &[usize]) -> Io {
    Io { name: name.to_string(), dt: F32, dims: Some(shape.iter().map(|&d| Dim::V(d as i64)).collect()) }
}

pub fn node(name: &str, op: &str, ins: &[&str], outs: &[&str], attrs: Vec<(&str, A)>) -> N {
    N {
        name: Some(name.to_string()),
        op: op.to_string(),
        inputs: ins.iter().map(|s| (*s).to_string()).collect(),
        outputs: outs.iter().map(|s| (*s).to_string()).collect(),
        attrs: attrs.into_iter().map(|(k, v)| (k.to_string(), v)).collect(),
        domain: None,
    }
}

impl M {
    pub fn summary(&self) -> String {
        let ins: Vec<String> = self.inputs.iter().map(|i| format!("{}:{:?}", i.name, i.dims)).collect();
        let mut s = format!("inputs[{}]", ins.join(", "));
        for (n, t) in &self.inits {
            let vals = if t.is_float() { format!("{:?}", &t.f[..t.f.len().min(8)]) } else { format!("{:?}", &t.i[..t.i.len().min(8)]) };
            s += &format!("\n init {n} {:?} dt{} {vals}", t.dims, t.dt);
        }
        for n in &self.nodes {
            s += &format!("\n {:?} {}({}) -> {}  {:?}", n.name, n.op, n.inputs.join(", "), n.outputs.join(", "), n.attrs);
        }
        s
    }
}
