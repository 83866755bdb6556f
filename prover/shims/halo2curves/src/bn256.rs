use crate::curve::{Coordinates, CurveAffine, CurveExt};
use crate::ff::{Field, PrimeField};
use crate::group::prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup};
use crate::group::{Curve, Group, GroupEncoding, UncompressedEncoding};
use crate::mont_field;
use crate::pairing::{Engine, MillerLoopResult, MultiMillerLoop, PairingCurveAffine};
use rand_core::RngCore;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

mont_field!(Fr, [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029], "0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001", 7, 28);
mont_field!(Fq, [0x3c208c16d87cfd47, 0x97816a916871ca8d, 0xb85045b68181585d, 0x30644e72e131a029], "0x30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47", 3, 1);

fn ch(b: bool) -> Choice {
    Choice::from(u8::from(b))
}
fn fq(s: &Fr) -> Fq {
    Fq::from_bytes(&s.to_bytes()).unwrap()
}

macro_rules! group {
    ($p:ident, $a:ident, $n:expr, $id:expr) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
        pub struct $p(pub(crate) Fr);
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
        pub struct $a(pub(crate) Fr);
        impl From<$a> for $p { fn from(v: $a) -> $p { $p(v.0) } }
        impl From<$p> for $a { fn from(v: $p) -> $a { $a(v.0) } }
        impl<'a> From<&'a $a> for $p { fn from(v: &$a) -> $p { $p(v.0) } }
        impl<'a> From<&'a $p> for $a { fn from(v: &$p) -> $a { $a(v.0) } }
        group!(@common $p); group!(@common $a);
        group!(@addsub $p, $p, $p); group!(@addsub $p, $a, $p); group!(@addsub $a, $a, $p); group!(@addsub $a, $p, $p);
        group!(@assign $p, $p); group!(@assign $p, $a);
        group!(@mul $p, $p); group!(@mul $a, $p);
        impl std::ops::MulAssign<Fr> for $p { fn mul_assign(&mut self, o: Fr) { self.0 *= o } }
        impl<'a> std::ops::MulAssign<&'a Fr> for $p { fn mul_assign(&mut self, o: &Fr) { self.0 *= o } }
        impl std::iter::Sum for $p { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self(Fr::zero()), |a, b| a + b) } }
        impl<'a> std::iter::Sum<&'a $p> for $p { fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self(Fr::zero()), |a, b| a + b) } }
        impl Group for $p {
            type Scalar = Fr;
            fn random(rng: impl RngCore) -> Self { Self(<Fr as Field>::random(rng)) }
            fn identity() -> Self { Self(Fr::zero()) }
            fn generator() -> Self { Self(Fr::one()) }
            fn is_identity(&self) -> Choice { ch(self.0 == Fr::zero()) }
            fn double(&self) -> Self { Self(self.0 + self.0) }
        }
        impl Curve for $p { type AffineRepr = $a; fn to_affine(&self) -> $a { $a(self.0) } }
        impl PrimeGroup for $p {}
        impl PrimeCurve for $p { type Affine = $a; }
        impl PrimeCurveAffine for $a {
            type Scalar = Fr;
            type Curve = $p;
            fn identity() -> Self { Self(Fr::zero()) }
            fn generator() -> Self { Self(Fr::one()) }
            fn is_identity(&self) -> Choice { ch(self.0 == Fr::zero()) }
            fn to_curve(&self) -> $p { $p(self.0) }
        }
        impl $a {
            pub fn generator() -> Self { Self(Fr::one()) }
            pub fn identity() -> Self { Self(Fr::zero()) }
            pub fn random(rng: impl RngCore) -> Self { Self(<Fr as Field>::random(rng)) }
            /// stand-in only: the element with this discrete logarithm
            pub fn from_log(v: Fr) -> Self { Self(v) }
            pub fn log(&self) -> Fr { self.0 }
        }
        impl CurveExt for $p { type ScalarExt = Fr; type Base = Fq; type AffineExt = $a; const CURVE_ID: &'static str = $id; }
        impl CurveAffine for $a {
            type ScalarExt = Fr;
            type Base = Fq;
            type CurveExt = $p;
            fn coordinates(&self) -> CtOption<Coordinates<Self>> {
                let x = fq(&self.0);
                CtOption::new(Coordinates { x, y: x }, ch(self.0 != Fr::zero()))
            }
            fn from_xy(x: Fq, y: Fq) -> CtOption<Self> {
                let s = Fr::from_bytes(&x.to_bytes());
                let ok = x == y && bool::from(s.is_some());
                CtOption::new(Self(s.unwrap_or(Fr::zero())), ch(ok))
            }
            fn is_on_curve(&self) -> Choice { ch(true) }
        }
        impl UncompressedEncoding for $a {
            type Uncompressed = Bytes<64>;
            fn from_uncompressed(b: &Bytes<64>) -> CtOption<Self> {
                let s = Fr::from_bytes(&b.0[..32].try_into().unwrap());
                let ok = bool::from(s.is_some()) && b.0[..32] == b.0[32..];
                CtOption::new(Self(s.unwrap_or(Fr::zero())), ch(ok))
            }
            fn from_uncompressed_unchecked(b: &Bytes<64>) -> CtOption<Self> { Self::from_uncompressed(b) }
            fn to_uncompressed(&self) -> Bytes<64> {
                let mut o = Bytes::default();
                o.0[..32].copy_from_slice(&self.0.to_bytes());
                o.0[32..].copy_from_slice(&self.0.to_bytes());
                o
            }
        }
        group!(@enc $p, $n); group!(@enc $a, $n);
    };
    (@enc $t:ident, $n:expr) => {
        impl GroupEncoding for $t {
            type Repr = Bytes<$n>;
            fn from_bytes(b: &Bytes<$n>) -> CtOption<Self> {
                let s = Fr::from_bytes(&b.0[..32].try_into().unwrap());
                let ok = bool::from(s.is_some()) && b.0[32..].iter().all(|&x| x == 0);
                CtOption::new(Self(s.unwrap_or(Fr::zero())), ch(ok))
            }
            fn from_bytes_unchecked(b: &Bytes<$n>) -> CtOption<Self> { Self::from_bytes(b) }
            fn to_bytes(&self) -> Bytes<$n> {
                let mut o = Bytes::default();
                o.0[..32].copy_from_slice(&self.0.to_bytes());
                o
            }
        }
    };
    (@common $t:ident) => {
        impl ConditionallySelectable for $t { fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { if bool::from(c) { *b } else { *a } } }
        impl ConstantTimeEq for $t { fn ct_eq(&self, o: &Self) -> Choice { ch(self == o) } }
        impl std::ops::Neg for $t { type Output = $t; fn neg(self) -> $t { $t(-self.0) } }
        impl<'a> std::ops::Neg for &'a $t { type Output = $t; fn neg(self) -> $t { $t(-self.0) } }
    };
    (@addsub $l:ident, $r:ident, $o:ident) => {
        impl std::ops::Add<$r> for $l { type Output = $o; fn add(self, x: $r) -> $o { $o(self.0 + x.0) } }
        impl<'a> std::ops::Add<&'a $r> for $l { type Output = $o; fn add(self, x: &$r) -> $o { $o(self.0 + x.0) } }
        impl<'a> std::ops::Add<$r> for &'a $l { type Output = $o; fn add(self, x: $r) -> $o { $o(self.0 + x.0) } }
        impl<'a, 'b> std::ops::Add<&'b $r> for &'a $l { type Output = $o; fn add(self, x: &$r) -> $o { $o(self.0 + x.0) } }
        impl std::ops::Sub<$r> for $l { type Output = $o; fn sub(self, x: $r) -> $o { $o(self.0 - x.0) } }
        impl<'a> std::ops::Sub<&'a $r> for $l { type Output = $o; fn sub(self, x: &$r) -> $o { $o(self.0 - x.0) } }
        impl<'a> std::ops::Sub<$r> for &'a $l { type Output = $o; fn sub(self, x: $r) -> $o { $o(self.0 - x.0) } }
        impl<'a, 'b> std::ops::Sub<&'b $r> for &'a $l { type Output = $o; fn sub(self, x: &$r) -> $o { $o(self.0 - x.0) } }
    };
    (@assign $l:ident, $r:ident) => {
        impl std::ops::AddAssign<$r> for $l { fn add_assign(&mut self, x: $r) { self.0 += x.0 } }
        impl<'a> std::ops::AddAssign<&'a $r> for $l { fn add_assign(&mut self, x: &$r) { self.0 += x.0 } }
        impl std::ops::SubAssign<$r> for $l { fn sub_assign(&mut self, x: $r) { self.0 -= x.0 } }
        impl<'a> std::ops::SubAssign<&'a $r> for $l { fn sub_assign(&mut self, x: &$r) { self.0 -= x.0 } }
    };
    (@mul $l:ident, $o:ident) => {
        impl std::ops::Mul<Fr> for $l { type Output = $o; fn mul(self, s: Fr) -> $o { $o(self.0 * s) } }
        impl<'a> std::ops::Mul<&'a Fr> for $l { type Output = $o; fn mul(self, s: &Fr) -> $o { $o(self.0 * s) } }
        impl<'a> std::ops::Mul<Fr> for &'a $l { type Output = $o; fn mul(self, s: Fr) -> $o { $o(self.0 * s) } }
        impl<'a, 'b> std::ops::Mul<&'b Fr> for &'a $l { type Output = $o; fn mul(self, s: &Fr) -> $o { $o(self.0 * s) } }
    };
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Bytes<const N: usize>(pub [u8; N]);
impl<const N: usize> Default for Bytes<N> {
    fn default() -> Self {
        Self([0; N])
    }
}
impl<const N: usize> AsRef<[u8]> for Bytes<N> {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> AsMut<[u8]> for Bytes<N> {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
group!(G1, G1Affine, 32, "bn256_g1");
group!(G2, G2Affine, 64, "bn256_g2");
group!(Gt, GtAffine, 32, "bn256_gt");

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Bn256;
impl Engine for Bn256 {
    type Fr = Fr;
    type G1 = G1;
    type G1Affine = G1Affine;
    type G2 = G2;
    type G2Affine = G2Affine;
    type Gt = Gt;
    fn pairing(p: &G1Affine, q: &G2Affine) -> Gt {
        Gt(p.0 * q.0)
    }
}
impl PairingCurveAffine for G1Affine {
    type Pair = G2Affine;
    type PairingResult = Gt;
    fn pairing_with(&self, o: &G2Affine) -> Gt {
        Gt(self.0 * o.0)
    }
}
impl PairingCurveAffine for G2Affine {
    type Pair = G1Affine;
    type PairingResult = Gt;
    fn pairing_with(&self, o: &G1Affine) -> Gt {
        Gt(self.0 * o.0)
    }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Miller(Fr);
impl MillerLoopResult for Miller {
    type Gt = Gt;
    fn final_exponentiation(&self) -> Gt {
        Gt(self.0)
    }
}
impl MultiMillerLoop for Bn256 {
    type G2Prepared = G2Affine;
    type Result = Miller;
    fn multi_miller_loop(t: &[(&G1Affine, &G2Affine)]) -> Miller {
        Miller(t.iter().map(|(a, b)| a.0 * b.0).sum())
    }
}
#[allow(unused)]
fn _f<F: PrimeField>() {}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn field() {
        let r = Fr::ROOT;
        let mut x = r;
        for _ in 0..27 {
            x = x.square();
        }
        assert_eq!(x, -Fr::one());
        assert_eq!(<Fr as PrimeField>::TWO_INV.double(), Fr::one());
        assert_eq!((-Fr::one()).to_bytes()[0], 0);
        let z = <Fr as crate::ff::WithSmallOrderMulGroup<3>>::ZETA;
        assert!(z != Fr::one() && z * z * z == Fr::one());
        for v in [0u64, 1, 5, u64::MAX] {
            assert_eq!(Fr::from(v).canonical(), [v, 0, 0, 0]);
        }
        let a = Fr::from(u64::MAX).pow_vartime([9]);
        assert_eq!(a * a.invert().unwrap(), Fr::one());
        let mut m1 = [0xffu8; 64];
        m1[63] = 0xff;
        let big = <Fr as crate::ff::FromUniformBytes<64>>::from_uniform_bytes(&m1);
        // 2^512 - 1
        assert_eq!(big + Fr::one(), Fr::from(2u64).pow_vartime([512]));
    }
}
