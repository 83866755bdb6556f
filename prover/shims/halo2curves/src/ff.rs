//! The traits of the `ff` crate.
use rand_core::RngCore;
use std::fmt::Debug;
use std::iter::{Product, Sum};
use std::ops::*;
pub use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

pub trait Field:
    Sized + Eq + Copy + Clone + Default + Send + Sync + Debug + 'static + ConditionallySelectable + ConstantTimeEq
    + Neg<Output = Self> + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Sum + Product
    + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self> + for<'a> Mul<&'a Self, Output = Self>
    + for<'a> Sum<&'a Self> + for<'a> Product<&'a Self>
    + AddAssign + SubAssign + MulAssign + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + for<'a> MulAssign<&'a Self>
{
    const ZERO: Self;
    const ONE: Self;
    fn random(rng: impl RngCore) -> Self;
    fn is_zero(&self) -> Choice {
        self.ct_eq(&Self::ZERO)
    }
    fn is_zero_vartime(&self) -> bool {
        *self == Self::ZERO
    }
    fn square(&self) -> Self;
    fn cube(&self) -> Self {
        self.square() * self
    }
    fn double(&self) -> Self;
    fn invert(&self) -> CtOption<Self>;
    fn sqrt(&self) -> CtOption<Self> {
        unimplemented!()
    }
    fn pow<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        self.pow_vartime(exp)
    }
    fn pow_vartime<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        let mut res = Self::ONE;
        for e in exp.as_ref().iter().rev() {
            for i in (0..64).rev() {
                res = res.square();
                if (e >> i) & 1 == 1 {
                    res *= self;
                }
            }
        }
        res
    }
}
pub trait PrimeField: Field + From<u64> {
    type Repr: Copy + Default + Send + Sync + 'static + AsRef<[u8]> + AsMut<[u8]>;
    const MODULUS: &'static str;
    const NUM_BITS: u32;
    const CAPACITY: u32;
    const TWO_INV: Self;
    const MULTIPLICATIVE_GENERATOR: Self;
    const S: u32;
    const ROOT_OF_UNITY: Self;
    const ROOT_OF_UNITY_INV: Self;
    const DELTA: Self;
    fn from_repr(r: Self::Repr) -> CtOption<Self>;
    fn from_repr_vartime(r: Self::Repr) -> Option<Self> {
        Self::from_repr(r).into()
    }
    fn to_repr(&self) -> Self::Repr;
    fn is_odd(&self) -> Choice;
    fn is_even(&self) -> Choice {
        !self.is_odd()
    }
    fn from_u128(v: u128) -> Self {
        let lo = Self::from(v as u64);
        let hi = Self::from((v >> 64) as u64);
        let mut x = hi;
        for _ in 0..64 {
            x = x.double();
        }
        x + lo
    }
    fn from_str_vartime(s: &str) -> Option<Self> {
        let mut r = Self::ZERO;
        for c in s.chars() {
            r = r * Self::from(10) + Self::from(u64::from(c.to_digit(10)?));
        }
        Some(r)
    }
}
pub trait FromUniformBytes<const N: usize>: PrimeField {
    fn from_uniform_bytes(bytes: &[u8; N]) -> Self;
}
pub trait WithSmallOrderMulGroup<const N: u8>: PrimeField {
    const ZETA: Self;
}
