//! Stand-in for the parts of `num-bigint` used by the verifier's public-input extraction.
use num_traits::{ToPrimitive, Zero};
use std::cmp::Ordering;
use std::ops::{Add, Mul, Neg, Rem, Sub};
/// little-endian 32-bit digits, no leading zero digit
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct BigUint(Vec<u32>);
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Sign {
    Minus,
    NoSign,
    Plus,
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct BigInt {
    s: Sign,
    m: BigUint,
}
impl BigUint {
    pub const ZERO: BigUint = BigUint(Vec::new());
    fn norm(mut self) -> Self {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn from_bytes_le(b: &[u8]) -> Self {
        BigUint(
            b.chunks(4)
                .map(|c| {
                    let mut w = [0u8; 4];
                    w[..c.len()].copy_from_slice(c);
                    u32::from_le_bytes(w)
                })
                .collect(),
        )
        .norm()
    }
    pub fn to_bytes_le(&self) -> Vec<u8> {
        let mut v: Vec<u8> = self.0.iter().flat_map(|d| d.to_le_bytes()).collect();
        while v.len() > 1 && v.last() == Some(&0) {
            v.pop();
        }
        if v.is_empty() {
            v.push(0);
        }
        v
    }
    pub fn bits(&self) -> u64 {
        self.0.last().map_or(0, |d| (self.0.len() as u64 - 1) * 32 + (32 - d.leading_zeros() as u64))
    }
    fn bit(&self, i: u64) -> bool {
        self.0.get((i / 32) as usize).is_some_and(|d| d >> (i % 32) & 1 == 1)
    }
    fn subr(&self, o: &BigUint) -> BigUint {
        assert!(*self >= *o, "BigUint underflow");
        let mut r = self.0.clone();
        let mut borrow = 0i64;
        for (i, d) in r.iter_mut().enumerate() {
            let t = *d as i64 - o.0.get(i).copied().unwrap_or(0) as i64 - borrow;
            borrow = (t < 0) as i64;
            *d = t as u32;
        }
        BigUint(r).norm()
    }
    fn addr(&self, o: &BigUint) -> BigUint {
        let mut r = vec![];
        let mut c = 0u64;
        for i in 0..self.0.len().max(o.0.len()) {
            let t = self.0.get(i).copied().unwrap_or(0) as u64 + o.0.get(i).copied().unwrap_or(0) as u64 + c;
            r.push(t as u32);
            c = t >> 32;
        }
        r.push(c as u32);
        BigUint(r).norm()
    }
    fn mulr(&self, o: &BigUint) -> BigUint {
        let mut r = vec![0u32; self.0.len() + o.0.len() + 1];
        for (i, &a) in self.0.iter().enumerate() {
            let mut c = 0u64;
            for (j, &b) in o.0.iter().enumerate() {
                let t = a as u64 * b as u64 + r[i + j] as u64 + c;
                r[i + j] = t as u32;
                c = t >> 32;
            }
            r[i + o.0.len()] = c as u32;
        }
        BigUint(r).norm()
    }
    fn remr(&self, o: &BigUint) -> BigUint {
        assert!(!o.0.is_empty(), "division by zero");
        let mut r = BigUint::ZERO;
        for i in (0..self.bits()).rev() {
            r = r.addr(&r);
            if self.bit(i) {
                r = r.addr(&BigUint::from(1u32));
            }
            if r >= *o {
                r = r.subr(o);
            }
        }
        r
    }
}
impl PartialOrd for BigUint {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BigUint {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
}
macro_rules! from_u {
    ($($t:ty),*) => { $(
        impl From<$t> for BigUint { fn from(v: $t) -> Self { let v = v as u128; BigUint((0..4).map(|i| (v >> (32 * i)) as u32).collect()).norm() } }
        impl From<$t> for BigInt { fn from(v: $t) -> Self { BigInt::from_biguint(Sign::Plus, BigUint::from(v)) } }
    )* };
}
from_u!(u8, u16, u32, u64, u128, usize);
macro_rules! from_i {
    ($($t:ty),*) => { $( impl From<$t> for BigInt { fn from(v: $t) -> Self {
        BigInt::from_biguint(if v < 0 { Sign::Minus } else { Sign::Plus }, BigUint::from(v.unsigned_abs())) } } )* };
}
from_i!(i8, i16, i32, i64, i128, isize);
macro_rules! ops {
    ($($tr:ident $f:ident $r:ident),*) => { $(
        impl $tr<BigUint> for BigUint { type Output = BigUint; fn $f(self, o: BigUint) -> BigUint { self.$r(&o) } }
        impl<'a> $tr<&'a BigUint> for BigUint { type Output = BigUint; fn $f(self, o: &BigUint) -> BigUint { self.$r(o) } }
        impl<'a> $tr<BigUint> for &'a BigUint { type Output = BigUint; fn $f(self, o: BigUint) -> BigUint { self.$r(&o) } }
        impl<'a, 'b> $tr<&'b BigUint> for &'a BigUint { type Output = BigUint; fn $f(self, o: &BigUint) -> BigUint { self.$r(o) } }
    )* };
}
ops!(Add add addr, Sub sub subr, Mul mul mulr, Rem rem remr);
impl std::ops::Shr<u32> for &BigUint {
    type Output = BigUint;
    fn shr(self, k: u32) -> BigUint {
        let mut r = BigUint(vec![0; self.0.len()]);
        for i in k as u64..self.bits() {
            if self.bit(i) {
                let j = i - k as u64;
                r.0[(j / 32) as usize] |= 1 << (j % 32);
            }
        }
        r.norm()
    }
}
macro_rules! shr {
    ($($t:ty),*) => { $( impl std::ops::Shr<$t> for BigUint { type Output = BigUint; fn shr(self, k: $t) -> BigUint { &self >> k as u32 } } )* };
}
shr!(i32, u32, u64, usize);
impl Zero for BigUint {
    fn zero() -> Self {
        BigUint::ZERO
    }
    fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
}
impl ToPrimitive for BigUint {
    fn to_u64(&self) -> Option<u64> {
        (self.bits() <= 64).then(|| self.0.iter().rev().fold(0u64, |a, &d| a << 32 | d as u64))
    }
    fn to_i64(&self) -> Option<i64> {
        self.to_u64().and_then(|v| i64::try_from(v).ok())
    }
    /// correctly rounded (through the decimal-free route: top 64 bits plus a sticky bit)
    fn to_f64(&self) -> Option<f64> {
        let n = self.bits();
        if n <= 64 {
            return Some(self.to_u64().unwrap() as f64);
        }
        let sh = n - 64;
        let mut top = (self >> sh as u32).to_u64().unwrap();
        if (0..sh).any(|i| self.bit(i)) {
            top |= 1;
        }
        Some(top as f64 * 2f64.powi(sh as i32))
    }
}
impl BigInt {
    pub fn from_biguint(s: Sign, m: BigUint) -> Self {
        if m.is_zero() {
            BigInt { s: Sign::NoSign, m }
        } else if s == Sign::NoSign {
            BigInt { s, m: BigUint::ZERO }
        } else {
            BigInt { s, m }
        }
    }
    pub fn sign(&self) -> Sign {
        self.s
    }
    pub fn magnitude(&self) -> &BigUint {
        &self.m
    }
}
impl Neg for BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        let s = match self.s {
            Sign::Plus => Sign::Minus,
            Sign::Minus => Sign::Plus,
            Sign::NoSign => Sign::NoSign,
        };
        BigInt { s, m: self.m }
    }
}
impl ToPrimitive for BigInt {
    fn to_i64(&self) -> Option<i64> {
        match self.s {
            Sign::Minus => {
                let m = self.m.to_u64()?;
                (m <= 1 << 63).then(|| (m as i64).wrapping_neg())
            }
            _ => self.m.to_i64(),
        }
    }
    fn to_u64(&self) -> Option<u64> {
        (self.s != Sign::Minus).then(|| self.m.to_u64()).flatten()
    }
    fn to_f64(&self) -> Option<f64> {
        self.m.to_f64().map(|f| if self.s == Sign::Minus { -f } else { f })
    }
}
fn dec(m: &BigUint) -> String {
    if m.is_zero() {
        return "0".into();
    }
    let mut d = m.0.clone();
    let mut out = vec![];
    while !d.is_empty() {
        let mut r = 0u64;
        for x in d.iter_mut().rev() {
            let t = r << 32 | *x as u64;
            *x = (t / 10) as u32;
            r = t % 10;
        }
        out.push(b'0' + r as u8);
        while d.last() == Some(&0) {
            d.pop();
        }
    }
    out.reverse();
    String::from_utf8(out).unwrap()
}
impl std::fmt::Display for BigUint {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&dec(self))
    }
}
impl std::fmt::Display for BigInt {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}{}", if self.s == Sign::Minus { "-" } else { "" }, dec(&self.m))
    }
}
