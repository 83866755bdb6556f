use crate::ff::{Field, PrimeField, WithSmallOrderMulGroup};
use crate::group::prime::{PrimeCurve, PrimeCurveAffine};
use crate::group::Group;
use std::ops::*;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

#[derive(Clone, Copy, Debug)]
pub struct Coordinates<C: CurveAffine> {
    pub(crate) x: C::Base,
    pub(crate) y: C::Base,
}
impl<C: CurveAffine> Coordinates<C> {
    pub fn from_xy(x: C::Base, y: C::Base) -> CtOption<Self> {
        C::from_xy(x, y).map(|_| Self { x, y })
    }
    pub fn x(&self) -> &C::Base {
        &self.x
    }
    pub fn y(&self) -> &C::Base {
        &self.y
    }
}
impl<C: CurveAffine> Default for Coordinates<C> {
    fn default() -> Self {
        Self { x: C::Base::ZERO, y: C::Base::ZERO }
    }
}
impl<C: CurveAffine> ConditionallySelectable for Coordinates<C> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if bool::from(c) { *b } else { *a }
    }
}
pub trait CurveExt:
    PrimeCurve<Affine = <Self as CurveExt>::AffineExt> + Group<Scalar = <Self as CurveExt>::ScalarExt> + Default
    + ConditionallySelectable + ConstantTimeEq + From<<Self as PrimeCurve>::Affine>
{
    type ScalarExt: WithSmallOrderMulGroup<3>;
    type Base: Field;
    type AffineExt: CurveAffine<CurveExt = Self, ScalarExt = <Self as CurveExt>::ScalarExt>
        + Mul<Self::ScalarExt, Output = Self> + for<'r> Mul<&'r Self::ScalarExt, Output = Self>;
    const CURVE_ID: &'static str;
}
pub trait CurveAffine:
    PrimeCurveAffine<Scalar = <Self as CurveAffine>::ScalarExt, Curve = <Self as CurveAffine>::CurveExt> + Default
    + Add<Output = <Self as PrimeCurveAffine>::Curve> + Sub<Output = <Self as PrimeCurveAffine>::Curve>
    + ConditionallySelectable + ConstantTimeEq + From<<Self as PrimeCurveAffine>::Curve>
{
    type ScalarExt: WithSmallOrderMulGroup<3> + Ord;
    type Base: Field + Ord;
    type CurveExt: CurveExt<AffineExt = Self, ScalarExt = <Self as CurveAffine>::ScalarExt>;
    fn coordinates(&self) -> CtOption<Coordinates<Self>>;
    fn from_xy(x: Self::Base, y: Self::Base) -> CtOption<Self>;
    fn is_on_curve(&self) -> Choice;
}
#[allow(unused)]
fn _f<F: PrimeField>() {}
