//! Stand-in for `halo2curves` (a git dependency, not available offline).
//!
//! The two BN254 prime fields are implemented in full (Montgomery form). The curve groups are
//! *ideal* groups: an element is represented by its discrete logarithm, so group arithmetic, multi-
//! scalar multiplication and the pairing are exact, and every algebraic identity that holds on the
//! curve holds here and vice versa. What is not modelled is hardness (nothing here tries to break it)
//! and the curve's point encodings (an encoding here is the logarithm, canonical or rejected).
pub mod ff;
mod fields;
pub mod group;
pub mod msm;
pub mod pairing;
pub mod bn256;
mod curve;
pub use curve::{Coordinates, CurveAffine, CurveExt};
pub mod serde {
    pub trait SerdeObject: Sized {
        fn from_raw_bytes_unchecked(bytes: &[u8]) -> Self;
        fn from_raw_bytes(bytes: &[u8]) -> Option<Self>;
        fn to_raw_bytes(&self) -> Vec<u8>;
        fn read_raw_unchecked<R: std::io::Read>(reader: &mut R) -> Self;
        fn read_raw<R: std::io::Read>(reader: &mut R) -> std::io::Result<Self>;
        fn write_raw<W: std::io::Write>(&self, writer: &mut W) -> std::io::Result<()>;
    }
}
