//! Model generator, reference executor and protobuf writer: independent of the code under test,
//! so they need no rebuild when it changes.
pub mod exec;
pub mod gen;
pub mod ir;
pub mod pb;
pub mod rng;
