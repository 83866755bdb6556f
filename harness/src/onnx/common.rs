//! Shared plumbing of the model-layer monitors.
use super::gen::Gen;
use super::ir::M;
use super::pb;
use crate::report::{bad, guarded, Bad, Case, Scratch};
use crate::rng::Rng;
use jstprove_onnx::graph::LayerGraph;
use jstprove_onnx::parser::{self, ParsedModel};
use std::path::{Path, PathBuf};

/// Ok(Ok) value, Ok(Err) the library refused, Err: it panicked.
pub fn lib<T>(what: &str, f: impl FnOnce() -> anyhow::Result<T>) -> Result<Result<T, String>, Bad> {
    match guarded(f) {
        Ok(Ok(v)) => Ok(Ok(v)),
        Ok(Err(e)) => Ok(Err(format!("{e:#}"))),
        Err(p) => bad(format!("{what}-panic"), format!("{what} panicked: {p}")),
    }
}

pub fn must<T>(what: &str, m: &M, f: impl FnOnce() -> anyhow::Result<T>) -> Result<T, Bad> {
    match lib(what, f) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => bad(format!("{what}-error"), format!("{what} refused a valid model: {e}\n{}", m.summary())),
        Err(b) => bad(b.sig, format!("{}\n{}", b.why, m.summary())),
    }
}

pub struct File {
    _d: Scratch,
    pub path: PathBuf,
}

pub fn write_bytes(c: &Case, bytes: &[u8]) -> File {
    let d = c.scratch();
    let path = d.join("m.onnx");
    std::fs::write(&path, bytes).expect("write model");
    File { _d: d, path }
}

pub fn write_model(c: &Case, m: &M, r: &mut Rng) -> File {
    write_bytes(c, &pb::model(m, r))
}

pub fn load(p: &Path, m: &M) -> Result<(ParsedModel, LayerGraph), Bad> {
    let parsed = must("parse_onnx", m, || parser::parse_onnx(p))?;
    let graph = must("from_parsed", m, || LayerGraph::from_parsed(&parsed))?;
    Ok((parsed, graph))
}

/// operators of the model as a short key
pub fn opkey(g: &Gen) -> String {
    let mut v = g.ops_used.clone();
    v.sort();
    v.join("+")
}
