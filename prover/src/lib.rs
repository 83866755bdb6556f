//! Monitors of the proving stack.
pub use vmodel::rng;
pub mod report;
pub mod e2e;
pub mod pipe;
pub mod accuracy;
pub mod complete;
pub mod tamper;
pub mod forge;
pub mod fields;
pub mod circuits;
