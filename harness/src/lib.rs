pub mod alloc;
pub mod art;
pub mod hostile_io;
pub mod io_props;
pub mod onnx;
pub mod report;
pub use vmodel::rng;

pub fn spec(id: &str) -> Option<report::Spec> {
    Some(match id {
        "A01" => io_props::a01(),
        "A02" => io_props::a02(),
        "A03" => io_props::a03(),
        "A04" => io_props::a04(),
        "A05" => io_props::a05(),
        "A06" => io_props::a06(),
        "A07" => io_props::a07(),
        "A08" => io_props::a08(),
        "A09" => hostile_io::a09(),
        "B01" => onnx::props_parse::spec_b01(),
        "B02" => onnx::props_parse::spec_b02(),
        "B03" => onnx::props_shape::spec_b03(),
        "B04" => onnx::props_shape::spec_b04(),
        "B05" => onnx::props_quant::spec_b05(),
        "B06" => onnx::props_quant::spec_b06(),
        "B07" => onnx::props_quant::spec_b07(),
        "B08" => onnx::props_quant::spec_b08(),
        "B09" => onnx::props_quant::spec_b09(),
        "B12" => onnx::hostile::spec_b12(),
        "B13" => onnx::props_quant::spec_b13(),
        "B14" => onnx::props_quant::spec_b14(),
        "B10" => onnx::props_parse::spec_b10(),
        "B11" => onnx::props_parse::spec_b11(),
        "B15" => onnx::props_shape::spec_b15(),
        _ => return None,
    })
}

pub fn child(args: &[String]) -> i32 {
    if let Some(c) = io_props::child(args) {
        return c;
    }
    if let Some(c) = hostile_io::child(args) {
        return c;
    }
    if let Some(c) = onnx::hostile::child(args) {
        return c;
    }
    eprintln!("unknown child command {args:?}");
    2
}
