//! What a value means, spelled out field by field (floats by bit pattern), independent of how the library stores it.
use jstprove_onnx::graph::{LayerGraph, LayerNode, OpType};
use jstprove_onnx::parser::{AttrValue, IoSpec, TensorData};
use jstprove_onnx::quantizer::{QuantizedModel, ScaleConfig};
use serde_json::{json, Value};
use std::collections::HashMap;

pub trait Canon {
    fn canon(&self) -> Value;
}
pub fn jv<T: Canon + ?Sized>(t: &T) -> Value {
    t.canon()
}
macro_rules! plain { ($($t:ty),*) => { $(impl Canon for $t { fn canon(&self) -> Value { json!(self) } })* } }
plain!(usize, i64, i32, u64, u32, bool, String);
impl Canon for f32 {
    fn canon(&self) -> Value {
        json!(format!("f32:{:08x}", self.to_bits()))
    }
}
impl Canon for f64 {
    fn canon(&self) -> Value {
        json!(format!("f64:{:016x}", self.to_bits()))
    }
}
impl<T: Canon> Canon for Vec<T> {
    fn canon(&self) -> Value {
        Value::Array(self.iter().map(Canon::canon).collect())
    }
}
impl<T: Canon> Canon for Option<T> {
    fn canon(&self) -> Value {
        self.as_ref().map_or(Value::Null, |v| json!([v.canon()]))
    }
}
impl<T: Canon> Canon for &T {
    fn canon(&self) -> Value {
        (**self).canon()
    }
}
impl<T: Canon> Canon for HashMap<String, T> {
    fn canon(&self) -> Value {
        Value::Object(self.iter().map(|(k, v)| (k.clone(), v.canon())).collect())
    }
}
impl Canon for OpType {
    fn canon(&self) -> Value {
        json!(format!("{self:?}"))
    }
}
impl Canon for TensorData {
    fn canon(&self) -> Value {
        json!({"name": self.name, "dims": self.dims, "data_type": self.data_type, "float_data": self.float_data.canon(), "int_data": self.int_data})
    }
}
impl Canon for AttrValue {
    fn canon(&self) -> Value {
        match self {
            AttrValue::Float(v) => json!({"float": v.canon()}),
            AttrValue::Int(v) => json!({"int": v}),
            AttrValue::String(v) => json!({"string": v}),
            AttrValue::Floats(v) => json!({"floats": v.canon()}),
            AttrValue::Ints(v) => json!({"ints": v}),
            AttrValue::Tensor(v) => json!({"tensor": v.canon()}),
            #[allow(unreachable_patterns)]
            other => json!(format!("{other:?}")),
        }
    }
}
impl Canon for IoSpec {
    fn canon(&self) -> Value {
        json!({"name": self.name, "shape": self.shape, "elem_type": self.elem_type})
    }
}
impl Canon for LayerNode {
    fn canon(&self) -> Value {
        json!({"id": self.id, "name": self.name, "op": self.op_type.canon(), "inputs": self.inputs, "outputs": self.outputs,
            "weights": self.weights.canon(), "attributes": self.attributes.canon(), "output_shape": self.output_shape,
            "needs_rescale": self.needs_rescale, "n_bits": self.n_bits})
    }
}
impl Canon for LayerGraph {
    fn canon(&self) -> Value {
        json!({"layers": self.layers.canon(), "input_names": self.input_names, "output_names": self.output_names,
            "topo_order": self.topo_order, "input_shapes": self.input_shapes.canon()})
    }
}
impl Canon for ScaleConfig {
    fn canon(&self) -> Value {
        json!({"base": self.base, "exponent": self.exponent, "alpha": self.alpha})
    }
}
impl Canon for QuantizedModel {
    fn canon(&self) -> Value {
        json!({"graph": self.graph.canon(), "scale_config": self.scale_config.canon(), "n_bits_config": self.n_bits_config.canon()})
    }
}
