//! The traits of the `group` crate.
use crate::ff::{Field, PrimeField};
use rand_core::RngCore;
use std::fmt::Debug;
use std::iter::Sum;
use std::ops::*;
use subtle::{Choice, CtOption};

pub trait GroupOps<Rhs = Self, Output = Self>: Add<Rhs, Output = Output> + Sub<Rhs, Output = Output> + AddAssign<Rhs> + SubAssign<Rhs> {}
impl<T, R, O> GroupOps<R, O> for T where T: Add<R, Output = O> + Sub<R, Output = O> + AddAssign<R> + SubAssign<R> {}
pub trait GroupOpsOwned<Rhs = Self, Output = Self>: for<'r> GroupOps<&'r Rhs, Output> {}
impl<T, R, O> GroupOpsOwned<R, O> for T where T: for<'r> GroupOps<&'r R, O> {}
pub trait ScalarMul<Rhs, Output = Self>: Mul<Rhs, Output = Output> + MulAssign<Rhs> {}
impl<T, R, O> ScalarMul<R, O> for T where T: Mul<R, Output = O> + MulAssign<R> {}
pub trait ScalarMulOwned<Rhs, Output = Self>: for<'r> ScalarMul<&'r Rhs, Output> {}
impl<T, R, O> ScalarMulOwned<R, O> for T where T: for<'r> ScalarMul<&'r R, O> {}

pub trait Group:
    Clone + Copy + Debug + Eq + Sized + Send + Sync + 'static + Sum + for<'a> Sum<&'a Self> + Neg<Output = Self>
    + GroupOps + GroupOpsOwned + ScalarMul<<Self as Group>::Scalar> + ScalarMulOwned<<Self as Group>::Scalar>
{
    type Scalar: PrimeField;
    fn random(rng: impl RngCore) -> Self;
    fn identity() -> Self;
    fn generator() -> Self;
    fn is_identity(&self) -> Choice;
    fn double(&self) -> Self;
}
pub trait Curve: Group + GroupOps<<Self as Curve>::AffineRepr> + GroupOpsOwned<<Self as Curve>::AffineRepr> {
    type AffineRepr;
    fn batch_normalize(p: &[Self], q: &mut [Self::AffineRepr]) {
        assert_eq!(p.len(), q.len());
        for (p, q) in p.iter().zip(q.iter_mut()) {
            *q = p.to_affine();
        }
    }
    fn to_affine(&self) -> Self::AffineRepr;
}
pub trait GroupEncoding: Sized {
    type Repr: Copy + Default + Send + Sync + 'static + AsRef<[u8]> + AsMut<[u8]>;
    fn from_bytes(bytes: &Self::Repr) -> CtOption<Self>;
    fn from_bytes_unchecked(bytes: &Self::Repr) -> CtOption<Self>;
    fn to_bytes(&self) -> Self::Repr;
}
pub trait UncompressedEncoding: Sized {
    type Uncompressed: Default + AsRef<[u8]> + AsMut<[u8]>;
    fn from_uncompressed(bytes: &Self::Uncompressed) -> CtOption<Self>;
    fn from_uncompressed_unchecked(bytes: &Self::Uncompressed) -> CtOption<Self>;
    fn to_uncompressed(&self) -> Self::Uncompressed;
}
pub mod prime {
    use super::*;
    pub trait PrimeGroup: Group + GroupEncoding {}
    pub trait PrimeCurve: Curve<AffineRepr = <Self as PrimeCurve>::Affine> + PrimeGroup {
        type Affine: PrimeCurveAffine<Curve = Self, Scalar = Self::Scalar>
            + Mul<Self::Scalar, Output = Self> + for<'r> Mul<&'r Self::Scalar, Output = Self>;
    }
    pub trait PrimeCurveAffine:
        GroupEncoding + Copy + Clone + Sized + Send + Sync + Debug + PartialEq + Eq + 'static + Neg<Output = Self>
        + Mul<<Self as PrimeCurveAffine>::Scalar, Output = <Self as PrimeCurveAffine>::Curve>
        + for<'r> Mul<&'r <Self as PrimeCurveAffine>::Scalar, Output = <Self as PrimeCurveAffine>::Curve>
    {
        type Scalar: PrimeField;
        type Curve: PrimeCurve<Affine = Self, Scalar = Self::Scalar>;
        fn identity() -> Self;
        fn generator() -> Self;
        fn is_identity(&self) -> Choice;
        fn to_curve(&self) -> Self::Curve;
    }
}
pub mod cofactor {
    pub use super::prime::{PrimeCurve as CofactorCurve, PrimeCurveAffine as CofactorCurveAffine, PrimeGroup as CofactorGroup};
}
pub use crate::ff;
#[allow(unused)]
fn _f<F: Field>() {}
