"""Planted changes. Each is written from the text of a property and the code."""
DEMO_OVERRIDES = {}
SEEDS = {}
IO = "rust/jstprove_io/src/"
ON = "rust/jstprove_onnx/src/"

SEEDS["a02-file-crc-skipped-when-compressed"] = dict(
    property="A02",
    needs="a compressed artifact read from a file, altered in a way that still decompresses and decodes",
    breaks="the file reader no longer checks the checksum of compressed payloads, so a damaged artifact is read as a different value",
    edits=[(IO + "lib.rs", "            envelope::verify_crc_computed(crc_state.get(), header.crc32)?;",
            "            if !header.compressed {\n                envelope::verify_crc_computed(crc_state.get(), header.crc32)?;\n            }")],
    main=r'''
use std::path::Path;
fn main() {
    let v: Vec<String> = (0..40).map(|i| format!("layer-{i}-{}", i * 7919 % 9973)).collect();
    let n = jstprove_io::serialize_to_file(&v, Path::new("a.bin"), true).unwrap();
    let good = std::fs::read("a.bin").unwrap();
    assert_eq!(n, good.len());
    for pos in 20..good.len() {
        for bit in 0..8 {
            let mut b = good.clone();
            b[pos] ^= 1 << bit;
            std::fs::write("b.bin", &b).unwrap();
            let r = std::panic::catch_unwind(|| jstprove_io::deserialize_from_file::<Vec<String>>(Path::new("b.bin")));
            if let Ok(Ok(got)) = r {
                assert_eq!(got, v, "byte {pos} bit {bit}: read as a different value");
            }
        }
    }
}
''')

SEEDS["a06-manifest-before-vk"] = dict(
    property="A06",
    needs="the process dying between writing the manifest and writing the verifying key",
    breaks="the manifest is stored before vk.bin, so a crash in between leaves a bundle that reads as complete but has lost its verifying key",
    edits=[(IO + "bundle.rs", """    if let Some(vk_bytes) = vk {
        guard.write_blob(dir.join(VK_FILENAME), vk_bytes, compress)?;
    }
    let manifest = BundleManifest { metadata, version };
    guard.serialize_to_file(&manifest, dir.join(MANIFEST_FILENAME))?;
""", """    let manifest = BundleManifest { metadata, version };
    guard.serialize_to_file(&manifest, dir.join(MANIFEST_FILENAME))?;
    if let Some(vk_bytes) = vk {
        guard.write_blob(dir.join(VK_FILENAME), vk_bytes, compress)?;
    }
""")],
    main=r'''
// The writer is cut off at the moment the manifest is being serialised (metadata that exits the
// process while being written); then every write after the manifest is missing.
use serde::{ser::SerializeStruct, Deserialize, Serialize, Serializer};
struct Die;
impl Serialize for Die {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut st = s.serialize_struct("Die", 1)?;
        st.serialize_field("x", &1u8)?;
        // what is on disk when the manifest gets written?
        let vk = std::path::Path::new("b/vk.bin").exists();
        std::process::exit(if vk { 0 } else { 1 });
    }
}
#[derive(Deserialize)]
struct _M { #[allow(dead_code)] x: u8 }
fn main() {
    let _ = jstprove_io::bundle::write_bundle_with_vk(std::path::Path::new("b"), b"circuit", b"solver", Some(b"key"), Some(Die), None, false);
    std::process::exit(2);
}
''')

SEEDS["a05-rollback-dir-first"] = dict(
    property="A05",
    needs="a bundle write that fails after the directory and at least one file exist",
    breaks="rollback removes in creation order, so the directory removal fails while files are in it and the empty directory stays behind; a retry then fails",
    edits=[(IO + "bundle.rs", "            for p in self.paths.iter().rev() {", "            for p in &self.paths {")],
    main=r'''
use serde::{Serialize, Serializer};
struct Bad;
impl Serialize for Bad {
    fn serialize<S: Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("no"))
    }
}
fn main() {
    let p = std::path::Path::new("b");
    assert!(jstprove_io::bundle::write_bundle(p, b"circuit", b"solver", Some(Bad), None, false).is_err());
    assert!(!p.exists(), "failed write left {p:?} behind");
}
''')

SEEDS["a04-damaged-vk-reads-as-absent"] = dict(
    property="A04",
    needs="a bundle whose compressed vk.bin was cut short",
    breaks="any error reading vk.bin is taken for 'no key', so a damaged bundle reads as a bundle without a verifying key",
    edits=[(IO + "bundle.rs", """    let vk = match read_blob(dir.join(VK_FILENAME)) {
        Ok(bytes) => Some(bytes),
        Err(e) => {
            if e.downcast_ref::<std::io::Error>()
                .is_some_and(|io| io.kind() == std::io::ErrorKind::NotFound)
            {
                None
            } else {
                return Err(e);
            }
        }
    };
""", """    let vk = read_blob(dir.join(VK_FILENAME)).ok();
""")],
    main=r'''
use std::path::Path;
fn main() {
    let p = Path::new("b");
    let vk: Vec<u8> = (0..5000u32).map(|i| (i * 31 % 251) as u8).collect();
    jstprove_io::bundle::write_bundle_with_vk(p, b"circuit", b"solver", Some(&vk), Some(1u8), None, true).unwrap();
    let got = jstprove_io::bundle::read_bundle::<u8>(p).unwrap();
    assert_eq!(got.vk.as_deref(), Some(&vk[..]));
    let b = std::fs::read(p.join("vk.bin")).unwrap();
    std::fs::write(p.join("vk.bin"), &b[..b.len() / 2]).unwrap();
    assert!(jstprove_io::bundle::read_bundle::<u8>(p).is_err(), "damaged bundle read as complete");
}
''')

SEEDS["a08-create-dir-all"] = dict(
    property="A08",
    needs="a second writer for a bundle path that another writer has created or is still writing",
    breaks="create_dir_all accepts an existing directory, so two writers of the same bundle both succeed and overwrite each other's files",
    edits=[(IO + "bundle.rs", "        std::fs::create_dir(p)?;\n", "        std::fs::create_dir_all(p)?;\n")],
    main=r'''
use std::path::Path;
fn main() {
    let p = Path::new("b");
    let ok: usize = std::thread::scope(|s| {
        let hs: Vec<_> = (0..4u8)
            .map(|i| s.spawn(move || jstprove_io::bundle::write_bundle(Path::new("b"), &vec![i; 200_000], &vec![i; 200_000], Some(i), None, i % 2 == 0).is_ok()))
            .collect();
        hs.into_iter().filter(|_| true).map(|h| usize::from(h.join().unwrap())).sum()
    });
    assert_eq!(ok, 1, "{ok} writers of one bundle path succeeded");
    let b = jstprove_io::bundle::read_bundle::<u8>(p).unwrap();
    let m = b.metadata.unwrap();
    assert!(b.circuit.iter().chain(&b.witness_solver).all(|&x| x == m));
}
''')

_DROPPED = dict(
    property="A09",
    needs="a short file whose envelope header declares a huge payload",
    breaks="the file reader reserves the declared payload length up front, so a 20-byte file makes it allocate gigabytes (or abort)",
    edits=[(IO + "lib.rs", """            let crc_state = std::rc::Rc::new(std::cell::Cell::new(0u32));
            let mut crc_reader = Crc32cReader {
                inner: reader.take(header.payload_len),""", """            let crc_state = std::rc::Rc::new(std::cell::Cell::new(0u32));
            let window = usize::try_from(header.payload_len)?.clamp(8 << 10, 1 << 30);
            let reader = BufReader::with_capacity(window, reader);
            let mut crc_reader = Crc32cReader {
                inner: reader.take(header.payload_len),""")],
    main=r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
static BIG: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BIG.fetch_max(l.size(), Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { BIG.fetch_max(n, Ordering::SeqCst); System.realloc(p, l, n) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut b = b"JST\x01".to_vec();
    b.extend(0u32.to_le_bytes());
    b.extend((900u64 << 20).to_le_bytes());
    b.extend(0u32.to_le_bytes());
    b.extend([0x91, 1]);
    std::fs::write("a.bin", &b).unwrap();
    BIG.store(0, Ordering::SeqCst);
    assert!(jstprove_io::deserialize_from_file::<Vec<u8>>(std::path::Path::new("a.bin")).is_err());
    let big = BIG.load(Ordering::SeqCst);
    assert!(big < 64 << 20, "a {}-byte file made the reader reserve {big} bytes", b.len());
}
''')

SEEDS["a03-length-field-big-endian"] = dict(
    property="A03",
    needs="an artifact written by a released version (or read by one): writer and reader were changed together, so new artifacts round-trip",
    breaks="the payload length is stored and parsed big-endian, so previously written artifacts can no longer be read",
    edits=[(IO + "envelope.rs", "    out.extend_from_slice(&(payload.len() as u64).to_le_bytes());", "    out.extend_from_slice(&(payload.len() as u64).to_be_bytes());"),
           (IO + "envelope.rs", "    let payload_len = u64::from_le_bytes(buf[8..16].try_into().unwrap());", "    let payload_len = u64::from_be_bytes(buf[8..16].try_into().unwrap());")],
    main=r'''
fn main() {
    // an artifact written by the released version: JST\x01, flags 0, length 1, crc32c([7]), payload 7
    let old: [u8; 21] = [b'J', b'S', b'T', 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, CRC[0], CRC[1], CRC[2], CRC[3], 7];
    assert_eq!(jstprove_io::deserialize_from_bytes::<u8>(&old).ok(), Some(7), "a released artifact is no longer readable");
}
// crc32c of the single byte 7
const CRC: [u8; 4] = crc();
const fn crc() -> [u8; 4] {
    let mut c: u32 = !0;
    c ^= 7;
    let mut i = 0;
    while i < 8 {
        c = if c & 1 == 1 { (c >> 1) ^ 0x82F6_3B78 } else { c >> 1 };
        i += 1;
    }
    (!c).to_le_bytes()
}
''')

# --- ONNX pipeline -------------------------------------------------------------------------
PRE = r'''
#![allow(dead_code, unused_imports, unused_variables)]
use jstprove_onnx::graph::{LayerGraph, LayerNode, OpType};
use jstprove_onnx::parser::{parse_onnx, AttrValue, ParsedModel, TensorData};
use jstprove_onnx::quantizer::{self, quantize_model, ScaleConfig};
use jstprove_onnx::shape_inference::infer_all_shapes;
use jstprove_onnx::*;
use prost::Message;
use std::path::{Path, PathBuf};
fn tf(name: &str, dims: &[i64], v: &[f32]) -> TensorProto { TensorProto { name: Some(name.into()), dims: dims.to_vec(), data_type: Some(1), float_data: v.to_vec(), ..Default::default() } }
fn ti(name: &str, dims: &[i64], v: &[i64]) -> TensorProto { TensorProto { name: Some(name.into()), dims: dims.to_vec(), data_type: Some(7), int64_data: v.to_vec(), ..Default::default() } }
fn node(op: &str, name: &str, i: &[&str], o: &[&str], a: Vec<AttributeProto>) -> NodeProto { NodeProto { op_type: Some(op.into()), name: Some(name.into()), input: i.iter().map(|s| s.to_string()).collect(), output: o.iter().map(|s| s.to_string()).collect(), attribute: a, ..Default::default() } }
fn ai(n: &str, v: i64) -> AttributeProto { AttributeProto { name: Some(n.into()), r#type: Some(2), i: Some(v), ..Default::default() } }
fn af(n: &str, v: f32) -> AttributeProto { AttributeProto { name: Some(n.into()), r#type: Some(1), f: Some(v), ..Default::default() } }
fn ais(n: &str, v: &[i64]) -> AttributeProto { AttributeProto { name: Some(n.into()), r#type: Some(7), ints: v.to_vec(), ..Default::default() } }
fn astr(n: &str, v: &str) -> AttributeProto { AttributeProto { name: Some(n.into()), r#type: Some(3), s: Some(v.as_bytes().to_vec()), ..Default::default() } }
fn vi(name: &str, dims: &[i64]) -> ValueInfoProto {
    let dim = dims.iter().map(|d| tensor_shape_proto::Dimension { value: Some(tensor_shape_proto::dimension::Value::DimValue(*d)), ..Default::default() }).collect();
    let t = type_proto::Tensor { elem_type: Some(1), shape: Some(TensorShapeProto { dim }), ..Default::default() };
    ValueInfoProto { name: Some(name.into()), r#type: Some(TypeProto { value: Some(type_proto::Value::TensorType(t)), ..Default::default() }), ..Default::default() }
}
fn save(ins: &[(&str, &[i64])], outs: &[&str], inits: Vec<TensorProto>, nodes: Vec<NodeProto>) -> PathBuf {
    let g = GraphProto { node: nodes, initializer: inits, input: ins.iter().map(|(n, d)| vi(n, d)).collect(), output: outs.iter().map(|o| vi(o, &[])).collect(), ..Default::default() };
    let m = ModelProto { ir_version: Some(8), opset_import: vec![OperatorSetIdProto { version: Some(18), ..Default::default() }], graph: Some(g), ..Default::default() };
    std::fs::write("m.onnx", m.encode_to_vec()).unwrap();
    PathBuf::from("m.onnx")
}
fn graph(ins: &[(&str, &[i64])], outs: &[&str], inits: Vec<TensorProto>, nodes: Vec<NodeProto>) -> (ParsedModel, LayerGraph) {
    let p = parse_onnx(&save(ins, outs, inits, nodes)).unwrap();
    let g = LayerGraph::from_parsed(&p).unwrap();
    (p, g)
}
fn shape(ins: &[(&str, &[i64])], out: &str, inits: Vec<TensorProto>, nodes: Vec<NodeProto>) -> Vec<usize> {
    let (p, g) = graph(ins, &[out], inits, nodes);
    infer_all_shapes(&p, &g).unwrap()[out].clone()
}
'''
def bseed(id, property, needs, breaks, edits, main):
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, main=PRE + main)

bseed("b01-raw-int32-unsigned", "B01", "a raw-encoded int32 tensor holding a negative value", "raw int32 data is read as unsigned, so -1 becomes 4294967295",
 [(ON + "parser.rs", "int_data.push(i32::from_le_bytes(chunk.try_into().unwrap()) as i64);", "int_data.push(u32::from_le_bytes(chunk.try_into().unwrap()) as i64);")],
 r'''fn main() {
    let t = TensorProto { name: Some("t".into()), dims: vec![2], data_type: Some(6), raw_data: Some([5i32.to_le_bytes(), (-7i32).to_le_bytes()].concat()), ..Default::default() };
    let p = parse_onnx(&save(&[("x", &[1, 2])], &["x"], vec![t], vec![])).unwrap();
    assert_eq!(p.initializers["t"].int_data, [5, -7]);
}''')
bseed("b01-double-through-f32", "B01", "a double tensor stored in the typed field, with a value a float cannot hold", "double weights lose precision (and large ones become infinite) on loading",
 [(ON + "parser.rs", "DataType::Double => float_data.extend(tensor.double_data.iter().copied()),", "DataType::Double => float_data.extend(tensor.double_data.iter().map(|f| *f as f32 as f64)),")],
 r'''fn main() {
    let t = TensorProto { name: Some("t".into()), dims: vec![2], data_type: Some(11), double_data: vec![0.1, 1e200], ..Default::default() };
    let p = parse_onnx(&save(&[("x", &[1, 2])], &["x"], vec![t], vec![])).unwrap();
    assert_eq!(p.initializers["t"].float_data, [0.1, 1e200]);
}''')
bseed("b02-back-edges-dropped", "B02", "nodes listed out of dependency order, or a cyclic graph", "dependencies on nodes listed later are ignored, so execution order follows the file and cycles are accepted",
 [(ON + "graph.rs", "                adj[dep_idx].push(idx);\n                in_degree[idx] += 1;", "                if dep_idx < idx {\n                    adj[dep_idx].push(idx);\n                    in_degree[idx] += 1;\n                }")],
 r'''fn main() {
    let (_, g) = graph(&[("x", &[1, 4])], &["y"], vec![], vec![node("Neg", "b", &["h"], &["y"], vec![]), node("Relu", "a", &["x"], &["h"], vec![])]);
    let names: Vec<&str> = g.iter_topo().map(|l| l.name.as_str()).collect();
    assert_eq!(names, ["a", "b"]);
}''')
bseed("b02-last-weight-only", "B02", "a node with an initializer input whose name is also the output of a Constant node that comes first, or a constant used twice by one node list", "constants produced by nodes are handed only to nodes listed after them",
 [(ON + "graph.rs", "                } else if let Some(td) = constant_outputs.get(input_name) {", "                } else if let Some(td) = constant_outputs.get(input_name).filter(|_| {\n                    model.nodes[..idx].iter().any(|n| n.outputs.contains(input_name))\n                }) {")],
 r'''fn main() {
    let v = AttributeProto { name: Some("value".into()), r#type: Some(4), t: Some(tf("", &[2], &[1.0, 2.0])), ..Default::default() };
    let (_, g) = graph(&[("x", &[1, 2])], &["y"], vec![], vec![node("Add", "a", &["x", "c"], &["y"], vec![]), node("Constant", "k", &[], &["c"], vec![v])]);
    assert!(g.layers.iter().any(|l| l.weights.contains_key("c")), "the constant is lost");
}''')
bseed("b03-matmul-1d-left", "B03", "a matrix product whose left operand is a vector and whose right operand has batch dimensions", "the placeholder row is removed from the front, dropping a batch dimension instead",
 [(ON + "shape_inference.rs", "        out_shape.remove(out_shape.len() - 2);\n", "        out_shape.remove(0);\n")],
 r'''fn main() {
    let s = shape(&[("x", &[3, 4, 5])], "y", vec![tf("v", &[4], &[1.0; 4])], vec![node("MatMul", "m", &["v", "x"], &["y"], vec![])]);
    assert_eq!(s, [3, 5]);
}''')
bseed("b03-slice-end-exclusive", "B03", "a slice with a step greater than one whose range is not a multiple of the step", "the number of selected elements is rounded down",
 None, r'''fn main() {
    let s = shape(&[("x", &[1, 7])], "y", vec![ti("s", &[1], &[0]), ti("e", &[1], &[7]), ti("a", &[1], &[1]), ti("p", &[1], &[3])], vec![node("Slice", "m", &["x", "s", "e", "a", "p"], &["y"], vec![])]);
    assert_eq!(s, [1, 3]);
}''')
bseed("b04-gather-negative-index", "B04", "a shape computation that picks a dimension with a negative index other than -1", "a negative index is resolved against the last position only",
 [(ON + "shape_inference.rs", "            let idx = if idx_raw < 0 {\n                (idx_raw + dim_size) as usize\n            } else {\n                idx_raw as usize\n            };\n            if idx >= axis_size {", "            let idx = if idx_raw < 0 {\n                (dim_size - 1) as usize\n            } else {\n                idx_raw as usize\n            };\n            if idx >= axis_size {")],
 r'''fn main() {
    let s = shape(&[("x", &[1, 6, 4])], "y", vec![ti("i", &[1], &[-2]), ti("m1", &[1], &[-1])], vec![node("Shape", "s", &["x"], &["sh"], vec![]), node("Gather", "g", &["sh", "i"], &["d"], vec![]), node("Concat", "c", &["d", "m1"], &["t"], vec![ai("axis", 0)]), node("Reshape", "r", &["x", "t"], &["y"], vec![])]);
    assert_eq!(s, [6, 4]);
}''')
bseed("b05-convtranspose-bias-scale", "B05", "a transposed convolution with a bias", "its bias is scaled once instead of twice",
 [(ON + "ops.rs", "            // Same as Conv: weights at α¹, biases at α².\n            let mut m = HashMap::new();\n            m.insert(1, 1);\n            m.insert(2, 2);", "            // Same as Conv: weights at α¹, biases at α².\n            let mut m = HashMap::new();\n            m.insert(1, 1);\n            m.insert(2, 1);")],
 r'''fn main() {
    let (_, g) = graph(&[("x", &[1, 1, 3, 3])], &["y"], vec![tf("w", &[1, 1, 2, 2], &[1.0; 4]), tf("b", &[1], &[0.5])], vec![node("ConvTranspose", "m", &["x", "w", "b"], &["y"], vec![])]);
    let q = quantize_model(g, &ScaleConfig::new(2, 4)).unwrap();
    assert_eq!(q.graph.layers[0].weights["b"].int_data, [128]);
}''')
bseed("b05-shared-tensor-scaled-once", "B05", "a layer whose bias is also its weight tensor or a layer name reused, plus rounding of negative halves", "negative values are rounded toward zero by truncation after adding a half",
 None, r'''fn main() {
    let (_, g) = graph(&[("x", &[1, 2])], &["y"], vec![tf("w", &[2, 1], &[-0.6875, 0.6875])], vec![node("Gemm", "m", &["x", "w"], &["y"], vec![])]);
    let q = quantize_model(g, &ScaleConfig::new(2, 1)).unwrap();
    assert_eq!(q.graph.layers[0].weights["w"].int_data, [-1, 1]);
}''')
bseed("b06-concat-first-only", "B06", "a range-checked layer after a concatenation whose later inputs are larger than the first", "only the first joined tensor's bound is used",
 [(ON + "quantizer.rs", "            let mut max_bound = 0.0_f64;\n            for i in 0..layer.inputs.len() {", "            let mut max_bound = 0.0_f64;\n            for i in 0..layer.inputs.len().min(1) {")],
 r'''fn main() {
    let (_, g) = graph(&[("x", &[1, 2])], &["y"], vec![tf("k", &[2], &[100.0, 100.0])], vec![node("Mul", "m", &["x", "k"], &["h"], vec![]), node("Concat", "c", &["x", "h"], &["t"], vec![ai("axis", 1)]), node("Relu", "r", &["t"], &["y"], vec![])]);
    let q = quantize_model(g, &ScaleConfig::new(2, 8)).unwrap();
    assert!(q.n_bits_config["r"] >= 16, "{}", q.n_bits_config["r"]);
}''')
bseed("b06-leaky-negative-alpha", "B06", "a leaky activation with a large negative slope", "the bound ignores the sign handling of the slope, so values on the negative side are not covered",
 [(ON + "quantizer.rs", "            Ok(m_in.max(alpha.abs() * m_in))", "            Ok(m_in.max(alpha * m_in))")],
 r'''fn main() {
    let (_, g) = graph(&[("x", &[1, 2])], &["y"], vec![], vec![node("LeakyRelu", "l", &["x"], &["h"], vec![af("alpha", -50.0)]), node("Relu", "r", &["h"], &["y"], vec![])]);
    let q = quantize_model(g, &ScaleConfig::new(2, 8)).unwrap();
    assert!(q.n_bits_config["r"] >= 15, "{}", q.n_bits_config["r"]);
}''')
bseed("b07-log-floor", "B07", "an accumulation bound that is not a power of two", "the bound's logarithm is rounded down, so the chosen scale overflows the field by up to one bit",
 [(ON + "quantizer.rs", "            max_bound.log2().ceil() as u32\n", "            max_bound.log2().floor() as u32\n")],
 r'''fn main() {
    let e = ScaleConfig::max_safe_exponent(32, 3.9);
    assert!(2.0 * f64::from(e) + 3.9f64.log2() <= 31.0, "{e}");
}''')
bseed("b07-bias-ignored", "B07", "a model whose convolution bias is large compared to its weights", "the maximum bound leaves out the bias, so a scale is chosen at which the accumulation overflows",
 [(ON + "quantizer.rs", "            let weight = max_output_channel_l1(1, c_out)?;\n            let bias_bound = get_bias_bound(2);\n            Ok(weight * m_in + bias_bound)", "            let weight = max_output_channel_l1(1, c_out)?;\n            let bias_bound = get_bias_bound(2);\n            Ok((weight * m_in).max(bias_bound))")],
 r'''fn main() {
    let (_, mut g) = graph(&[("x", &[1, 1, 3, 3])], &["y"], vec![tf("w", &[1, 1, 1, 1], &[40.0]), tf("b", &[1], &[40.0])], vec![node("Conv", "m", &["x", "w", "b"], &["y"], vec![])]);
    let b = quantizer::compute_max_bound(&mut g).unwrap();
    assert!(b >= 80.0, "{b}");
}''')
bseed("b08-epsilon-outside-root", "B08", "a normalization layer whose epsilon is not tiny next to the variance", "epsilon is added to the standard deviation instead of the variance",
 [(ON + "quantizer.rs", "        let m = scale[i] / v.sqrt();\n", "        let m = scale[i] / (var[i].max(0.0).sqrt() + epsilon);\n")],
 r'''fn main() {
    let (_, g) = graph(&[("x", &[1, 1, 2, 2])], &["y"], vec![tf("s", &[1], &[1.0]), tf("b", &[1], &[0.0]), tf("m", &[1], &[0.0]), tf("v", &[1], &[3.0])], vec![node("BatchNormalization", "n", &["x", "s", "b", "m", "v"], &["y"], vec![af("epsilon", 1.0)])]);
    let q = quantize_model(g, &ScaleConfig::new(2, 10)).unwrap();
    let l = &q.graph.layers[0];
    assert_eq!(l.weights[&l.inputs[1]].int_data, [512]);
}''')
bseed("b08-any-half-exponent", "B08", "a power with a per-element exponent tensor that contains one half", "the whole layer becomes a square root if any exponent is one half",
 [(ON + "quantizer.rs", "                    && vals.len() == 1\n                    && (vals[0] - 0.5).abs() < 1e-9", "                    && vals.iter().any(|v| (v - 0.5).abs() < 1e-9)")],
 r'''fn main() {
    let (_, g) = graph(&[("x", &[1, 2])], &["y"], vec![tf("e", &[2], &[0.5, 2.0])], vec![node("Pow", "p", &["x", "e"], &["y"], vec![])]);
    if let Ok(q) = quantize_model(g, &ScaleConfig::new(2, 8)) { assert_eq!(q.graph.layers[0].op_type, OpType::Pow); }
}''')
bseed("b09-pads-interleaved", "B09", "a convolution with asymmetric padding", "the padding list is read as (top, bottom, left, right)",
 [(ON + "layer_params.rs", "        let [pad_top, pad_left, pad_bottom, pad_right] = pad_values.map(|v| v as usize);", "        let [pad_top, pad_bottom, pad_left, pad_right] = pad_values.map(|v| v as usize);")],
 r'''fn main() {
    let (_, g) = graph(&[("x", &[1, 1, 4, 4])], &["y"], vec![tf("w", &[1, 1, 2, 2], &[1.0; 4])], vec![node("Conv", "m", &["x", "w"], &["y"], vec![ais("pads", &[1, 0, 1, 0])])]);
    let p = jstprove_onnx::layer_params::ConvParams::from_layer(&g.layers[0], 1, 4, 4).unwrap();
    assert_eq!((p.pad_top, p.pad_left, p.pad_bottom, p.pad_right, p.out_h, p.out_w), (1, 0, 1, 0, 5, 3));
}''')
bseed("b10-stops-at-first", "B10", "a model with two different unsupported operators", "only the first unsupported operator is reported",
 [(ON + "compat.rs", "                unsupported.push(op.to_string());\n", "                unsupported.push(op.to_string());\n                break;\n")],
 r'''fn main() {
    let p = save(&[("x", &[1, 2])], &["y"], vec![], vec![node("Foo", "a", &["x"], &["h"], vec![]), node("Bar", "b", &["h"], &["y"], vec![])]);
    assert_eq!(compat::is_compatible(&p).unwrap(), (false, vec!["Foo".to_string(), "Bar".to_string()]));
}''')
bseed("b11-bias-for-transposed", "B11", "a model containing a transposed or otherwise prefixed convolution without bias", "every operator whose name starts with Conv gets a bias sized by its first weight dimension",
 [(ON + "compat.rs", '        if op != "Conv" || node.input.len() != 2 {', '        if !op.starts_with("Conv") || node.input.len() != 2 {')],
 r'''fn main() {
    let p = save(&[("x", &[1, 3, 4, 4])], &["y"], vec![tf("w", &[3, 2, 1, 1], &[1.0; 6])], vec![node("ConvTranspose", "a", &["x", "w"], &["y"], vec![])]);
    compat::add_zero_bias_to_conv(&p, Path::new("o.onnx")).unwrap();
    let m = ModelProto::decode(std::fs::read("o.onnx").unwrap().as_slice()).unwrap();
    assert_eq!(m.graph.unwrap().node[0].input.len(), 2);
}''')
bseed("b13-widths-not-stored", "B13", "a quantized model written out and read back", "the per-layer widths table is left out of the stored form",
 [(ON + "quantizer.rs", "    #[serde(default)]\n    pub n_bits_config: HashMap<String, usize>,", "    #[serde(default, skip_serializing)]\n    pub n_bits_config: HashMap<String, usize>,")],
 r'''fn main() {
    let (_, g) = graph(&[("x", &[1, 2])], &["y"], vec![], vec![node("Relu", "r", &["x"], &["y"], vec![])]);
    let q = quantize_model(g, &ScaleConfig::new(2, 8)).unwrap();
    let b = rmp_serde::to_vec_named(&q).unwrap();
    let z: quantizer::QuantizedModel = rmp_serde::from_slice(&b).unwrap();
    assert_eq!(z.n_bits_config, q.n_bits_config);
}''')
bseed("b14-order-from-hash-map", "B14", "a graph with independent branches, loaded several times", "the execution order starts from hash-map iteration, so it differs between loads",
 [(ON + "graph.rs", "    let mut queue: std::collections::VecDeque<usize> = in_degree\n        .iter()\n        .enumerate()\n", "    let seeds: HashMap<usize, usize> = in_degree.iter().copied().enumerate().collect();\n    let mut queue: std::collections::VecDeque<usize> = seeds\n        .iter()\n        .map(|(&i, d)| (i, d))\n")],
 r'''fn main() {
    let nodes: Vec<NodeProto> = (0..8).map(|k| node("Relu", &format!("r{k}"), &["x"], &[&format!("y{k}")], vec![])).collect();
    let p = parse_onnx(&save(&[("x", &[1, 2])], &["y0"], vec![], nodes)).unwrap();
    let a = LayerGraph::from_parsed(&p).unwrap().topo_order;
    for _ in 0..20 { assert_eq!(LayerGraph::from_parsed(&p).unwrap().topo_order, a); }
}''')
bseed("b15-concat-trailing-dims", "B15", "joining tensors that differ in a dimension after the joined axis", "dimensions behind the joined axis are not compared any more",
 [(ON + "shape_inference.rs", "        for i in 0..rank {\n            if i == axis {\n                continue;\n            }\n            if s[i] != first_shape[i] {", "        for i in 0..axis {\n            if i == axis {\n                continue;\n            }\n            if s[i] != first_shape[i] {")],
 r'''fn main() {
    let (p, g) = graph(&[("a", &[1, 2, 3]), ("b", &[1, 2, 4])], &["y"], vec![], vec![node("Concat", "c", &["a", "b"], &["y"], vec![ai("axis", 1)])]);
    assert!(infer_all_shapes(&p, &g).is_err());
}''')
for k in [k for k, v in SEEDS.items() if v["edits"] is None]: del SEEDS[k]
