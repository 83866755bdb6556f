use crate::curve::CurveAffine;
use crate::group::prime::PrimeCurveAffine;
use crate::group::Group;

pub fn multiexp_serial<C: CurveAffine>(coeffs: &[C::Scalar], bases: &[C], acc: &mut C::Curve) {
    for (c, b) in coeffs.iter().zip(bases) {
        *acc += *b * *c;
    }
}
pub fn best_multiexp<C: CurveAffine>(coeffs: &[C::Scalar], bases: &[C]) -> C::Curve {
    assert_eq!(coeffs.len(), bases.len());
    let mut acc = C::Curve::identity();
    multiexp_serial(coeffs, bases, &mut acc);
    acc
}
pub fn msm_best<C: CurveAffine>(coeffs: &[C::Scalar], bases: &[C]) -> C::Curve {
    best_multiexp(coeffs, bases)
}
pub fn multiexp_precompute<C: CurveAffine>(bases: &[C], _window: usize) -> Vec<C::Curve> {
    bases.iter().map(PrimeCurveAffine::to_curve).collect()
}
pub fn multiexp_precompute_serial<C: CurveAffine>(coeffs: &[C::Scalar], pre: &[C::Curve], _window: usize, acc: &mut C::Curve) {
    for (c, b) in coeffs.iter().zip(pre) {
        *acc += *b * *c;
    }
}
