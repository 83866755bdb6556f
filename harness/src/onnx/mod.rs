pub mod canon;
pub mod common;
pub use vmodel::exec;
pub use vmodel::gen;
pub mod hostile;
pub use vmodel::ir;
pub use vmodel::pb;
pub mod props_parse;
pub mod props_quant;
pub mod props_shape;
