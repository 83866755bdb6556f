//! The traits of the `pairing` crate.
use crate::ff::PrimeField;
use crate::group::prime::{PrimeCurve, PrimeCurveAffine};
use crate::group::{Group, GroupOps, GroupOpsOwned, ScalarMul, ScalarMulOwned};
use std::fmt::Debug;

pub trait Engine: Sized + 'static + Clone + Copy + Sync + Send + Debug {
    type Fr: PrimeField;
    type G1: PrimeCurve<Scalar = Self::Fr, Affine = Self::G1Affine> + From<Self::G1Affine>
        + GroupOps<Self::G1Affine> + GroupOpsOwned<Self::G1Affine> + ScalarMul<Self::Fr> + ScalarMulOwned<Self::Fr>;
    type G1Affine: PairingCurveAffine<Scalar = Self::Fr, Curve = Self::G1, Pair = Self::G2Affine, PairingResult = Self::Gt> + From<Self::G1>;
    type G2: PrimeCurve<Scalar = Self::Fr, Affine = Self::G2Affine> + From<Self::G2Affine>
        + GroupOps<Self::G2Affine> + GroupOpsOwned<Self::G2Affine> + ScalarMul<Self::Fr> + ScalarMulOwned<Self::Fr>;
    type G2Affine: PairingCurveAffine<Scalar = Self::Fr, Curve = Self::G2, Pair = Self::G1Affine, PairingResult = Self::Gt> + From<Self::G2>;
    type Gt: Group<Scalar = Self::Fr> + ScalarMul<Self::Fr> + ScalarMulOwned<Self::Fr>;
    fn pairing(p: &Self::G1Affine, q: &Self::G2Affine) -> Self::Gt;
}
pub trait PairingCurveAffine: PrimeCurveAffine {
    type Pair: PairingCurveAffine<Pair = Self>;
    type PairingResult: Group;
    fn pairing_with(&self, other: &Self::Pair) -> Self::PairingResult;
}
pub trait MultiMillerLoop: Engine {
    type G2Prepared: Clone + Send + Sync + From<Self::G2Affine>;
    type Result: MillerLoopResult<Gt = Self::Gt>;
    fn multi_miller_loop(terms: &[(&Self::G1Affine, &Self::G2Prepared)]) -> Self::Result;
}
pub trait MillerLoopResult: Clone + Copy + Debug + Default + Send + Sync {
    type Gt;
    fn final_exponentiation(&self) -> Self::Gt;
}
