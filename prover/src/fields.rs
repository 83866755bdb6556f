//! C05: field arithmetic against schoolbook arithmetic on integers and polynomials.
use crate::report::*;
use crate::rng::{hash_bytes, Rng};
use crate::check;
use arith::{ExtensionField, FFTField, Field, SimdField};
use babybear::*;
use gf2::*;
use gf2_128::*;
use goldilocks::*;
use mersenne31::*;
use serdes::ExpSerde;
use std::hash::{Hash, Hasher};

/// The ring a lane lives in: integers mod p, or polynomials of degree < d over `sub` mod x^d = sum low.
pub enum Ring {
    Prime(u64),
    Ext(usize, &'static [(usize, u64)], &'static Ring),
}
use Ring::*;
impl Ring {
    fn p(&self) -> u64 { match self { Prime(p) => *p, Ext(_, _, s) => s.p() } }
    fn len(&self) -> usize { match self { Prime(_) => 1, Ext(d, _, s) => d * s.len() } }
    fn mul(&self, a: &[u64], b: &[u64]) -> Vec<u64> {
        match self {
            Prime(p) => vec![(a[0] as u128 * b[0] as u128 % *p as u128) as u64],
            Ext(d, low, sub) => {
                let (n, p) = (sub.len(), self.p());
                let mut t = vec![vec![0u64; n]; 2 * d - 1];
                for i in 0..*d {
                    if a[i * n..(i + 1) * n].iter().all(|&x| x == 0) { continue }
                    for j in 0..*d {
                        let m = sub.mul(&a[i * n..(i + 1) * n], &b[j * n..(j + 1) * n]);
                        for k in 0..n { t[i + j][k] = addp(t[i + j][k], m[k], p) }
                    }
                }
                for i in (*d..2 * d - 1).rev() {
                    let hi = std::mem::take(&mut t[i]);
                    for (pos, c) in low.iter() {
                        for k in 0..n {
                            let v = (hi[k] as u128 * *c as u128 % p as u128) as u64;
                            t[i - d + pos][k] = addp(t[i - d + pos][k], v, p);
                        }
                    }
                }
                t.truncate(*d);
                t.concat()
            }
        }
    }
    fn one(&self) -> Vec<u64> { let mut v = vec![0; self.len()]; v[0] = 1; v }
    fn x(&self) -> Option<Vec<u64>> {
        match self { Ext(_, _, s) => { let mut v = vec![0; self.len()]; v[s.len()] = 1; Some(v) } _ => None }
    }
}
fn addp(a: u64, b: u64, p: u64) -> u64 { ((a as u128 + b as u128) % p as u128) as u64 }
fn subp(a: u64, b: u64, p: u64) -> u64 { ((a as u128 + p as u128 - b as u128) % p as u128) as u64 }

const GL: u64 = 0xFFFF_FFFF_0000_0001;
const BB: u64 = 2013265921;
const M3: u64 = (1 << 31) - 1;
static R_GL: Ring = Prime(GL);
static R_GL2: Ring = Ext(2, &[(0, 7)], &R_GL);
static R_GL3: Ring = Ext(3, &[(0, 2)], &R_GL);
static R_GL4: Ring = Ext(4, &[(0, 7)], &R_GL);
static R_BB: Ring = Prime(BB);
static R_BB3: Ring = Ext(3, &[(0, 2)], &R_BB);
static R_M31: Ring = Prime(M3);
static R_M3: Ring = Ext(3, &[(0, 5)], &R_M31);
static R_M6: Ring = Ext(2, &[(0, M3 - 2)], &R_M3);
static R_2: Ring = Prime(2);
static R_128: Ring = Ext(128, &[(0, 1), (1, 1), (2, 1), (7, 1)], &R_2);

pub trait M {
    type F: Field;
    const NAME: &'static str;
    const LANES: usize;
    /// inversion is implemented
    fn inverts() -> bool { !matches!(Self::NAME, "MM31Ext3x16" | "MGF2x8" | "MGF2x64" | "MGF2x128") }
    fn ring() -> &'static Ring;
    fn read(x: &Self::F) -> Vec<u64>;
    fn write(v: &[u64]) -> Self::F;
}
fn le(b: &[u8]) -> u64 { b.iter().rev().fold(0, |a, &x| a << 8 | x as u64) }
macro_rules! prime { ($m:ident, $f:ty, $ring:ident, $bytes:expr) => {
    pub struct $m;
    impl M for $m {
        type F = $f;
        const NAME: &'static str = stringify!($m);
        const LANES: usize = 1;
        fn ring() -> &'static Ring { &$ring }
        fn read(x: &$f) -> Vec<u64> { let mut b = vec![]; x.serialize_into(&mut b).unwrap(); assert_eq!(b.len(), $bytes); vec![le(&b)] }
        fn write(v: &[u64]) -> $f { <$f>::deserialize_from(&v[0].to_le_bytes()[..$bytes]).unwrap() }
    }
}}
macro_rules! ext { ($m:ident, $f:ty, $ring:ident, $base:ident) => {
    pub struct $m;
    impl M for $m {
        type F = $f;
        const NAME: &'static str = stringify!($m);
        const LANES: usize = 1;
        fn ring() -> &'static Ring { &$ring }
        fn read(x: &$f) -> Vec<u64> { x.to_limbs().iter().flat_map(|l| $base::read(l)).collect() }
        fn write(v: &[u64]) -> $f { let n = $base::ring().len(); <$f>::from_limbs(&v.chunks(n).map(|c| $base::write(c)).collect::<Vec<_>>()) }
    }
}}
macro_rules! simd { ($m:ident, $f:ty, $ring:ident, $scalar:ident, $lanes:expr) => {
    pub struct $m;
    impl M for $m {
        type F = $f;
        const NAME: &'static str = stringify!($m);
        const LANES: usize = $lanes;
        fn ring() -> &'static Ring { &$ring }
        fn read(x: &$f) -> Vec<u64> { x.unpack().iter().flat_map(|l| $scalar::read(l)).collect() }
        fn write(v: &[u64]) -> $f { let n = $scalar::ring().len(); <$f>::pack(&v.chunks(n).map(|c| $scalar::write(c)).collect::<Vec<_>>()) }
    }
}}
prime!(MGoldilocks, Goldilocks, R_GL, 8);
prime!(MBabyBear, BabyBear, R_BB, 4);
prime!(MM31, M31, R_M31, 4);
prime!(MGF2, GF2, R_2, 1);
ext!(MGoldilocksExt2, GoldilocksExt2, R_GL2, MGoldilocks);
ext!(MGoldilocksExt3, GoldilocksExt3, R_GL3, MGoldilocks);
ext!(MGoldilocksExt4, GoldilocksExt4, R_GL4, MGoldilocks);
ext!(MBabyBearExt3, BabyBearExt3, R_BB3, MBabyBear);
ext!(MM31Ext3, M31Ext3, R_M3, MM31);
ext!(MM31Ext6, M31Ext6, R_M6, MM31Ext3);
ext!(MGF2Ext128, GF2_128, R_128, MGF2);
simd!(MGoldilocksx8, Goldilocksx8, R_GL, MGoldilocks, 8);
simd!(MBabyBearx16, BabyBearx16, R_BB, MBabyBear, 16);
simd!(MM31x16, M31x16, R_M31, MM31, 16);
simd!(MGF2x8, GF2x8, R_2, MGF2, 8);
simd!(MGF2x64, GF2x64, R_2, MGF2, 64);
simd!(MGF2x128, GF2x128, R_2, MGF2, 128);
simd!(MGoldilocksExt2x8, GoldilocksExt2x8, R_GL2, MGoldilocksExt2, 8);
simd!(MBabyBearExt3x16, BabyBearExt3x16, R_BB3, MBabyBearExt3, 16);
simd!(MM31Ext3x16, M31Ext3x16, R_M3, MM31Ext3, 16);
simd!(MGF2Ext128x8, GF2_128x8, R_128, MGF2Ext128, 8);
/// the wrapper that proves over the extension directly
pub struct MGoldilocksExt2Scalar;
impl M for MGoldilocksExt2Scalar {
    type F = GoldilocksExt2Scalar;
    const NAME: &'static str = "MGoldilocksExt2Scalar";
    const LANES: usize = 1;
    fn ring() -> &'static Ring { &R_GL2 }
    fn read(x: &GoldilocksExt2Scalar) -> Vec<u64> { MGoldilocksExt2::read(&x.0) }
    fn write(v: &[u64]) -> GoldilocksExt2Scalar { GoldilocksExt2Scalar(MGoldilocksExt2::write(v)) }
}

fn each<T: M>(f: impl Fn(usize) -> Vec<u64>) -> Vec<u64> { (0..T::LANES).flat_map(f).collect() }
fn lane<'a, T: M>(v: &'a [u64], i: usize) -> &'a [u64] { let n = T::ring().len(); &v[i * n..(i + 1) * n] }
fn rmul<T: M>(a: &[u64], b: &[u64]) -> Vec<u64> { each::<T>(|i| T::ring().mul(lane::<T>(a, i), lane::<T>(b, i))) }
fn radd<T: M>(a: &[u64], b: &[u64]) -> Vec<u64> { let p = T::ring().p(); a.iter().zip(b).map(|(x, y)| addp(*x, *y, p)).collect() }
fn rsub<T: M>(a: &[u64], b: &[u64]) -> Vec<u64> { let p = T::ring().p(); a.iter().zip(b).map(|(x, y)| subp(*x, *y, p)).collect() }
fn rone<T: M>() -> Vec<u64> { each::<T>(|_| T::ring().one()) }
fn rint<T: M>(k: u64) -> Vec<u64> { let p = T::ring().p(); rone::<T>().iter().map(|x| (*x as u128 * k as u128 % p as u128) as u64).collect() }
fn rexp<T: M>(a: &[u64], mut e: u128) -> Vec<u64> {
    let (mut t, mut res) = (a.to_vec(), rone::<T>());
    while e > 0 { if e & 1 == 1 { res = rmul::<T>(&res, &t) } t = rmul::<T>(&t, &t); e >>= 1; }
    res
}

/// A canonical coefficient, with the values at which reductions change course over-represented.
fn coef(p: u64, r: &mut Rng) -> u64 {
    let v = match r.below(10) {
        0 => 0, 1 => 1, 2 => p - 1, 3 => p - 1 - r.below(4) as u64 % p,
        4 => (1u64 << 32).wrapping_sub(2).wrapping_add(r.below(4) as u64),
        5 => p / 2 + r.below(3) as u64, 6 => r.below(16) as u64, 7 => 1u64 << r.below(64),
        _ => r.u64(),
    };
    v % p
}
fn elem<T: M>(r: &mut Rng) -> Vec<u64> {
    let p = T::ring().p();
    let n = T::ring().len() * T::LANES;
    match r.below(12) {
        0 => vec![0; n],
        1 => rone::<T>(),
        2 => { let mut v = vec![0; n]; let i = r.below(n); v[i] = coef(p, r); v }
        3 => { let mut v: Vec<u64> = (0..n).map(|_| r.u64() % p).collect(); let i = r.below(n); v[i] = 0; v }
        4 => vec![p - 1; n],
        5 | 6 => (0..n).map(|_| r.u64() % p).collect(),
        _ => (0..n).map(|_| coef(p, r)).collect(),
    }
}
fn hash_of<F: Hash>(x: &F) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut h); h.finish() }
fn bytes_of<F: ExpSerde>(x: &F) -> Vec<u8> { let mut b = vec![]; x.serialize_into(&mut b).unwrap(); b }

/// A value and what it should be; all observers must agree.
fn same<T: M>(op: &str, x: &T::F, want: &[u64]) -> R {
    let got = T::read(x);
    check!(got == want, format!("{} {op}", T::NAME), "{} {op}: got {:x?}, arithmetic gives {:x?}", T::NAME, trim(&got, want), trim(want, &got));
    let y = T::write(want);
    check!(*x == y && y == *x, format!("{} eq", T::NAME), "{} after {op}: equal values compare unequal: {x:?} and {y:?}", T::NAME);
    check!(x.is_zero() == want.iter().all(|&v| v == 0), format!("{} is_zero", T::NAME), "{} after {op}: is_zero of {x:?} is {}", T::NAME, x.is_zero());
    check!(bytes_of(x) == bytes_of(&y), format!("{} bytes", T::NAME), "{} after {op}: equal values are stored differently: {x:?} and {y:?}", T::NAME);
    check!(hash_of(x) == hash_of(&y), format!("{} hash", T::NAME), "{} after {op}: equal values hash differently: {x:?} and {y:?}", T::NAME);
    Ok(())
}
fn trim(a: &[u64], b: &[u64]) -> Vec<(usize, u64)> { a.iter().zip(b).enumerate().filter(|(_, (x, y))| x != y).map(|(i, (x, _))| (i, *x)).take(4).collect() }

/// A random history of operations over a few registers, every result compared.
fn program<T: M>(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let p = T::ring().p();
    let mut regs: Vec<(T::F, Vec<u64>)> = (0..5).map(|_| { let v = elem::<T>(&mut r); (T::write(&v), v) }).collect();
    for (x, v) in &regs { same::<T>("write", x, v)?; }
    let steps = if T::ring().len() > 16 { 24 } else { 60 };
    let mut chain = String::new();
    for _ in 0..steps {
        let (i, j, k) = (r.below(5), r.below(5), r.below(5));
        let ((a, ra), (b, rb)) = (regs[i].clone(), regs[j].clone());
        let op = r.below(22);
        let (name, x, want): (&str, T::F, Vec<u64>) = match op {
            0 => ("add", a + b, radd::<T>(&ra, &rb)),
            1 => ("add_ref", a + &b, radd::<T>(&ra, &rb)),
            2 => ("sub", a - b, rsub::<T>(&ra, &rb)),
            3 => ("sub_ref", a - &b, rsub::<T>(&ra, &rb)),
            4 | 5 => ("mul", a * b, rmul::<T>(&ra, &rb)),
            6 => ("mul_ref", a * &b, rmul::<T>(&ra, &rb)),
            7 => ("neg", -a, rsub::<T>(&vec![0; ra.len()], &ra)),
            8 => ("square", a.square(), rmul::<T>(&ra, &ra)),
            9 => ("double", a.double(), radd::<T>(&ra, &ra)),
            10 => ("mul_by_2", a.mul_by_2(), rmul::<T>(&ra, &rint::<T>(2))),
            11 => ("mul_by_3", a.mul_by_3(), rmul::<T>(&ra, &rint::<T>(3))),
            12 => ("mul_by_5", a.mul_by_5(), rmul::<T>(&ra, &rint::<T>(5))),
            13 => ("mul_by_6", a.mul_by_6(), rmul::<T>(&ra, &rint::<T>(6))),
            14 => { let mut x = a; x += b; x -= &b; x += &b; ("add_assign", x, radd::<T>(&ra, &rb)) }
            15 => { let mut x = a; x *= b; x *= &a; ("mul_assign", x, rmul::<T>(&rmul::<T>(&ra, &rb), &ra)) }
            16 => { let mut x = a; x -= b; ("sub_assign", x, rsub::<T>(&ra, &rb)) }
            17 => {
                let e = match r.below(4) { 0 => r.below(4) as u128, 1 => (p as u128).wrapping_sub(1 + r.below(2) as u128), 2 if T::ring().len() <= 6 => (r.u64() as u128) << 64 | r.u64() as u128, _ => r.below(200) as u128 };
                ("exp", a.exp(e), rexp::<T>(&ra, e))
            }
            18 => { let n = r.below(6); ("exp_power_of_2", a.exp_power_of_2(n), rexp::<T>(&ra, 1 << n)) }
            19 => {
                let xs: Vec<T::F> = regs.iter().map(|g| g.0).collect();
                let s: T::F = xs.iter().sum(); let s2: T::F = xs.iter().copied().sum();
                check!(s == s2, format!("{} sum", T::NAME), "{}: sum over values and over references differ", T::NAME);
                ("sum", s, regs.iter().fold(vec![0; ra.len()], |acc, g| radd::<T>(&acc, &g.1)))
            }
            20 => {
                let xs: Vec<T::F> = regs.iter().map(|g| g.0).collect();
                let s: T::F = xs.iter().product();
                ("product", s, regs.iter().fold(rone::<T>(), |acc, g| rmul::<T>(&acc, &g.1)))
            }
            _ => {
                if !T::inverts() { continue }
                let zeros = (0..T::LANES).filter(|l| lane::<T>(&ra, *l).iter().all(|&v| v == 0)).count();
                let inv = a.inv();
                if zeros == T::LANES {
                    check!(inv.is_none(), format!("{} inv", T::NAME), "{}: zero has an inverse {inv:?}", T::NAME);
                    continue;
                }
                if zeros > 0 { continue }
                let Some(x) = inv else { return bad(format!("{} inv", T::NAME), format!("{}: no inverse of {a:?}", T::NAME)) };
                let rx = T::read(&x);
                check!(rmul::<T>(&rx, &ra) == rone::<T>(), format!("{} inv", T::NAME), "{}: {x:?} is not the inverse of {a:?}", T::NAME);
                c.ev("inverses");
                ("inv", x, rx)
            }
        };
        same::<T>(name, &x, &want)?;
        if a == b { check!(ra == rb, format!("{} eq", T::NAME), "{}: {a:?} and {b:?} compare equal", T::NAME) }
        c.ev(&format!("op {name}"));
        c.evals += 1;
        chain.push((b'a' + op as u8) as char);
        regs[k] = (x, want);
    }
    c.ev(T::NAME);
    c.distinct.push(hash_bytes(format!("{}{chain}", T::NAME).as_bytes()));
    Ok(())
}

/// Constants, conversions and storage of one field.
fn basics<T: M>(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let p = T::ring().p();
    same::<T>("ZERO", &T::F::ZERO, &rint::<T>(0))?;
    same::<T>("zero()", &T::F::zero(), &rint::<T>(0))?;
    same::<T>("ONE", &T::F::ONE, &rone::<T>())?;
    same::<T>("one()", &T::F::one(), &rone::<T>())?;
    same::<T>("default", &T::F::default(), &rint::<T>(0))?;
    for _ in 0..20 {
        let k = match r.below(4) { 0 => r.below(3) as u32, 1 => u32::MAX - r.below(3) as u32, 2 => (p as u32).wrapping_add(r.below(5) as u32).wrapping_sub(2), _ => r.u64() as u32 };
        let k = if p == 2 { k % 2 } else { k };
        same::<T>("from u32", &T::F::from(k), &rint::<T>(k as u64))?;
        let v = elem::<T>(&mut r);
        let x = T::write(&v) * T::write(&elem::<T>(&mut r)) - T::write(&v); // an unreduced representation, if there are any
        let v = T::read(&x);
        let b = bytes_of(&x);
        check!(b.len() == T::F::SIZE, format!("{} size", T::NAME), "{}: stored in {} bytes, declared {}", T::NAME, b.len(), T::F::SIZE);
        same::<T>("deserialize", &T::F::deserialize_from(&b[..]).map_err(|e| Bad { sig: format!("{} deserialize", T::NAME), why: format!("{}: stored value {x:?} is refused: {e}", T::NAME) })?, &v)?;
        let mut b2 = vec![0; b.len()];
        x.to_bytes(&mut b2);
        check!(b == b2, format!("{} to_bytes", T::NAME), "{}: two ways of storing {x:?} differ", T::NAME);
        let mut y = T::F::ZERO; y.set_in_bytes(&b2);
        same::<T>("set_in_bytes", &y, &v)?;
        for cut in [0, b.len() / 2, b.len() - 1] {
            check!(cut == b.len() || T::F::deserialize_from(&b[..cut]).is_err(), format!("{} short", T::NAME), "{}: {cut} of {} bytes are read as a value", T::NAME, b.len());
        }
        // every coefficient must stay canonical through random generation
        let z = T::F::random_unsafe(Src(&mut r));
        let rz = T::read(&z);
        check!(rz.iter().all(|&q| q < p), format!("{} random", T::NAME), "{}: random value {z:?} is out of range", T::NAME);
        same::<T>("random", &z, &rz)?;
        let h: Vec<u8> = (0..T::F::SIZE.max(32)).map(|_| r.u64() as u8).collect();
        if T::LANES == 1 {
            let (u, w) = (T::F::from_uniform_bytes(&h), T::F::from_uniform_bytes(&h));
            check!(u == w, format!("{} uniform", T::NAME), "{}: the same bytes give two values", T::NAME);
            let ru = T::read(&u);
            check!(ru.iter().all(|&q| q < p), format!("{} uniform", T::NAME), "{}: value from bytes {u:?} is out of range", T::NAME);
            same::<T>("from_uniform_bytes", &u, &ru)?;
        }
        c.evals += 1;
    }
    c.ev("basics");
    Ok(())
}
struct Src<'a>(&'a mut Rng);
impl rand::RngCore for Src<'_> {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { match self.0.below(8) { 0 => u64::MAX - self.0.below(3) as u64, 1 => GL.wrapping_add(self.0.below(3) as u64), _ => self.0.u64() } }
    fn fill_bytes(&mut self, d: &mut [u8]) { for x in d { *x = self.next_u64() as u8 } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}

/// Extension structure: limbs, the generator, mixed products with base elements.
fn extension<T: M, B: M<F = <T::F as ExtensionField>::BaseField>>(c: &mut Case) -> R
where T::F: ExtensionField {
    let mut r = c.rng.clone();
    let (n, bn) = (T::ring().len(), B::ring().len());
    let d = n / bn;
    check!(T::F::DEGREE == d, format!("{} degree", T::NAME), "{}: degree {} declared, {d} expected", T::NAME, T::F::DEGREE);
    let spread = |rb: &[u64]| each::<T>(|i| { let mut v = vec![0; n]; v[..bn].copy_from_slice(lane::<B>(rb, i)); v });
    let gx = T::ring().x().unwrap();
    same::<T>("X", &T::F::X, &each::<T>(|_| gx.clone()))?;
    for _ in 0..12 {
        let v = elem::<T>(&mut r);
        let a = T::write(&v) * T::write(&elem::<T>(&mut r));
        let ra = T::read(&a);
        let rb = elem::<B>(&mut r);
        let b = B::write(&rb);
        same::<T>("mul_by_base_field", &a.mul_by_base_field(&b), &rmul::<T>(&ra, &spread(&rb)))?;
        same::<T>("add_by_base_field", &a.add_by_base_field(&b), &radd::<T>(&ra, &spread(&rb)))?;
        same::<T>("from base", &T::F::from(b), &spread(&rb))?;
        same::<T>("mul_by_x", &a.mul_by_x(), &rmul::<T>(&ra, &each::<T>(|_| gx.clone())))?;
        let limbs = a.to_limbs();
        check!(limbs.len() == d, format!("{} limbs", T::NAME), "{}: {} limbs", T::NAME, limbs.len());
        for (k, l) in limbs.iter().enumerate() {
            let want: Vec<u64> = each::<B>(|i| lane::<T>(&ra, i)[k * bn..(k + 1) * bn].to_vec());
            same::<B>("limb", l, &want)?;
        }
        same::<T>("from_limbs", &T::F::from_limbs(&limbs), &ra)?;
        c.evals += 1;
    }
    c.ev("extension");
    Ok(())
}
/// Packed values: lanes are independent and in order.
fn packed<T: M, S: M<F = <T::F as SimdField>::Scalar>>(c: &mut Case) -> R
where T::F: SimdField {
    let mut r = c.rng.clone();
    check!(T::F::PACK_SIZE == T::LANES, format!("{} lanes", T::NAME), "{}: {} lanes declared", T::NAME, T::F::PACK_SIZE);
    for _ in 0..12 {
        let ra = elem::<T>(&mut r);
        let a = T::write(&ra);
        let rs = elem::<S>(&mut r);
        let s = S::write(&rs);
        let full = each::<T>(|_| rs.clone());
        same::<T>("pack_full", &T::F::pack_full(&s), &full)?;
        same::<T>("from scalar", &T::F::from(s), &full)?;
        same::<T>("scale", &a.scale(&s), &rmul::<T>(&ra, &full))?;
        let lanes = a.unpack();
        check!(lanes.len() == T::LANES, format!("{} lanes", T::NAME), "{}: {} lanes unpacked", T::NAME, lanes.len());
        same::<T>("pack", &T::F::pack(&lanes), &ra)?;
        let sum = (0..T::LANES).fold(vec![0; rs.len()], |acc, i| radd::<S>(&acc, lane::<T>(&ra, i)));
        same::<S>("horizontal_sum", &a.horizontal_sum(), &sum)?;
        c.evals += 1;
    }
    c.ev("packed");
    Ok(())
}
/// Fourier transforms against evaluation at the powers of the root.
fn fft<T: M>(c: &mut Case) -> R where T::F: FFTField {
    let mut r = c.rng.clone();
    same::<T>("INV_2", &(T::F::INV_2 + T::F::INV_2), &rone::<T>())?;
    let lg = 1 + r.below(if T::LANES > 1 { 4 } else { 6 });
    let n = 1usize << lg;
    let w = T::read(&T::F::two_adic_generator(lg));
    let minus = rsub::<T>(&vec![0; w.len()], &rone::<T>());
    check!(rexp::<T>(&w, n as u128 / 2) == minus, format!("{} root", T::NAME), "{}: the root for 2^{lg} has another order", T::NAME);
    let g = T::read(&T::F::root_of_unity());
    check!(rexp::<T>(&g, 1u128 << (T::F::TWO_ADICITY - 1)) == minus, format!("{} root", T::NAME), "{}: the root of unity has another order", T::NAME);
    let co: Vec<Vec<u64>> = (0..n).map(|_| elem::<T>(&mut r)).collect();
    let xs: Vec<T::F> = co.iter().map(|v| T::write(v)).collect();
    let ev = T::F::fft(&xs);
    let mut pt = rone::<T>();
    for (i, e) in ev.iter().enumerate() {
        let want = co.iter().rev().fold(vec![0; w.len()], |acc, k| radd::<T>(&rmul::<T>(&acc, &pt), k));
        same::<T>(&format!("fft[{i}]").replace(char::is_numeric, ""), e, &want)?;
        pt = rmul::<T>(&pt, &w);
    }
    for (x, v) in T::F::ifft(&ev).iter().zip(&co) { same::<T>("ifft", x, v)?; }
    c.ev("fft");
    c.evals += 1;
    Ok(())
}
/// Stored numbers at or above the modulus are no second name for a field element.
fn canonical<T: M>(c: &mut Case, bytes: usize) -> R {
    let mut r = c.rng.clone();
    let p = T::ring().p();
    same::<T>("INV_2", &(T::F::INV_2 + T::F::INV_2), &rone::<T>())?;
    let max = if bytes == 8 { u64::MAX } else { (1 << (8 * bytes)) - 1 };
    for _ in 0..40 {
        let v = match r.below(3) { 0 => p + r.below(3) as u64, 1 => max - r.below(3) as u64, _ => p + r.u64() % (max - p).max(1) };
        let got = T::F::deserialize_from(&v.to_le_bytes()[..bytes]);
        check!(got.is_err(), format!("{} non-canonical", T::NAME), "{}: the bytes of {v:#x} (modulus {p:#x}) are read as {:?}", T::NAME, got.unwrap());
        c.evals += 1;
    }
    c.ev("non-canonical refused");
    Ok(())
}

macro_rules! all { ($mac:ident) => { [
    $mac::<MGoldilocks> as fn(&mut Case) -> R, $mac::<MGoldilocksExt2>, $mac::<MGoldilocksExt3>, $mac::<MGoldilocksExt4>, $mac::<MGoldilocksExt2Scalar>,
    $mac::<MGoldilocksx8>, $mac::<MGoldilocksExt2x8>, $mac::<MBabyBear>, $mac::<MBabyBearExt3>, $mac::<MBabyBearx16>, $mac::<MBabyBearExt3x16>,
    $mac::<MM31>, $mac::<MM31Ext3>, $mac::<MM31Ext6>, $mac::<MM31x16>, $mac::<MM31Ext3x16>,
    $mac::<MGF2>, $mac::<MGF2x8>, $mac::<MGF2x64>, $mac::<MGF2x128>, $mac::<MGF2Ext128>, $mac::<MGF2Ext128x8>,
] } }
pub const FIELDS: u64 = 22;
fn caught(c: &mut Case, f: fn(&mut Case) -> R) -> R {
    match guarded(|| f(c)) {
        Ok(r) => r,
        Err(p) => bad("panic", format!("panicked: {p}")),
    }
}
fn programs(c: &mut Case) -> R { let f = all!(program)[c.idx as usize % 22]; caught(c, f) }
fn basic(c: &mut Case) -> R { let f = all!(basics)[c.idx as usize % 22]; caught(c, f) }
const STRUCTURE: [fn(&mut Case) -> R; 31] = [
    extension::<MGoldilocksExt2, MGoldilocks>, extension::<MGoldilocksExt3, MGoldilocks>, extension::<MGoldilocksExt4, MGoldilocks>,
    extension::<MGoldilocksExt2x8, MGoldilocksx8>, extension::<MBabyBearExt3, MBabyBear>, extension::<MBabyBearExt3x16, MBabyBearx16>,
    extension::<MM31Ext3, MM31>, extension::<MM31Ext6, MM31Ext3>, extension::<MM31Ext3x16, MM31x16>,
    extension::<MGF2Ext128, MGF2>, extension::<MGF2Ext128x8, MGF2x8>,
    packed::<MGoldilocksx8, MGoldilocks>, packed::<MGoldilocksExt2x8, MGoldilocksExt2>, packed::<MBabyBearx16, MBabyBear>,
    packed::<MBabyBearExt3x16, MBabyBearExt3>, packed::<MM31x16, MM31>, packed::<MM31Ext3x16, MM31Ext3>, packed::<MGF2x8, MGF2>,
    packed::<MGF2x64, MGF2>, packed::<MGF2x128, MGF2>, packed::<MGF2Ext128x8, MGF2Ext128>,
    packed::<MGoldilocks, MGoldilocks>, packed::<MM31, MM31>,
    fft::<MGoldilocks>, fft::<MGoldilocksExt2>, fft::<MGoldilocksExt3>, fft::<MGoldilocksExt4>, fft::<MGoldilocksx8>, fft::<MGoldilocksExt2x8>,
    fft::<MBabyBear>, fft::<MBabyBearExt3>,
];
fn structure(c: &mut Case) -> R { let f = STRUCTURE[c.idx as usize % STRUCTURE.len()]; caught(c, f) }
fn canon(c: &mut Case) -> R {
    caught(c, |c| match c.idx % 3 { 0 => canonical::<MGoldilocks>(c, 8), 1 => canonical::<MBabyBear>(c, 4), _ => canonical::<MM31>(c, 4) })
}

pub fn c05() -> Spec {
    Spec {
        id: "C05",
        level: "exploration",
        rule: "random histories of field operations over five registers, every intermediate result compared with schoolbook integer and polynomial arithmetic; distinct = (field, sequence of operations)",
        assumptions: &["the AVX-512 and NEON variants are not built here; the BN254 scalar field comes from an external crate that is replaced by a stand-in"],
        require: &[("basics", 100), ("extension", 40), ("packed", 40), ("fft", 20), ("inverses", 300), ("non-canonical refused", 3), ("MGoldilocks", 50), ("MGoldilocksExt2x8", 50), ("MGF2Ext128x8", 20)],
        families: vec![
            Family { name: "programs", quick: 22 * 100, thorough: 22 * 4000, f: programs },
            Family { name: "basics", quick: 22 * 12, thorough: 22 * 300, f: basic },
            Family { name: "structure", quick: 31 * 12, thorough: 31 * 400, f: structure },
            Family { name: "canonical", quick: 30, thorough: 600, f: canon },
        ],
    }
}
