//! Stand-in for the `ethnum` crate (not in the offline cache): a plain 256-bit unsigned integer.
//! Same layout as the original on little-endian machines: [low, high].
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
#[repr(transparent)]
pub struct U256(pub [u128; 2]);
pub type u256 = U256;

impl U256 {
    pub const MIN: Self = Self([0, 0]);
    pub const MAX: Self = Self([u128::MAX, u128::MAX]);
    pub const ZERO: Self = Self([0, 0]);
    pub const ONE: Self = Self([1, 0]);
    pub const BITS: u32 = 256;
    pub const fn new(v: u128) -> Self {
        Self([v, 0])
    }
    pub const fn from_words(hi: u128, lo: u128) -> Self {
        Self([lo, hi])
    }
    pub const fn into_words(self) -> (u128, u128) {
        (self.0[1], self.0[0])
    }
    pub fn limbs(self) -> [u64; 4] {
        [self.0[0] as u64, (self.0[0] >> 64) as u64, self.0[1] as u64, (self.0[1] >> 64) as u64]
    }
    fn of(l: [u64; 4]) -> Self {
        Self([u128::from(l[0]) | u128::from(l[1]) << 64, u128::from(l[2]) | u128::from(l[3]) << 64])
    }
    pub const fn as_u8(self) -> u8 {
        self.0[0] as u8
    }
    pub const fn as_u16(self) -> u16 {
        self.0[0] as u16
    }
    pub const fn as_u32(self) -> u32 {
        self.0[0] as u32
    }
    pub const fn as_u64(self) -> u64 {
        self.0[0] as u64
    }
    pub const fn as_u128(self) -> u128 {
        self.0[0]
    }
    pub const fn as_usize(self) -> usize {
        self.0[0] as usize
    }
    pub const fn as_i32(self) -> i32 {
        self.0[0] as i32
    }
    pub const fn as_i64(self) -> i64 {
        self.0[0] as i64
    }
    pub fn as_f64(self) -> f64 {
        self.0[1] as f64 * 2f64.powi(128) + self.0[0] as f64
    }
    pub fn to_le_bytes(self) -> [u8; 32] {
        let mut b = [0; 32];
        b[..16].copy_from_slice(&self.0[0].to_le_bytes());
        b[16..].copy_from_slice(&self.0[1].to_le_bytes());
        b
    }
    pub fn to_be_bytes(self) -> [u8; 32] {
        let mut b = self.to_le_bytes();
        b.reverse();
        b
    }
    pub fn from_le_bytes(b: [u8; 32]) -> Self {
        Self([u128::from_le_bytes(b[..16].try_into().unwrap()), u128::from_le_bytes(b[16..].try_into().unwrap())])
    }
    pub fn from_be_bytes(mut b: [u8; 32]) -> Self {
        b.reverse();
        Self::from_le_bytes(b)
    }
    pub fn overflowing_add(self, o: Self) -> (Self, bool) {
        let (lo, c) = self.0[0].overflowing_add(o.0[0]);
        let (hi, d) = self.0[1].overflowing_add(o.0[1]);
        let (hi, e) = hi.overflowing_add(u128::from(c));
        (Self([lo, hi]), d | e)
    }
    pub fn overflowing_sub(self, o: Self) -> (Self, bool) {
        let (lo, c) = self.0[0].overflowing_sub(o.0[0]);
        let (hi, d) = self.0[1].overflowing_sub(o.0[1]);
        let (hi, e) = hi.overflowing_sub(u128::from(c));
        (Self([lo, hi]), d | e)
    }
    pub fn overflowing_mul(self, o: Self) -> (Self, bool) {
        let (a, b) = (self.limbs(), o.limbs());
        let mut r = [0u64; 8];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                let t = u128::from(a[i]) * u128::from(b[j]) + u128::from(r[i + j]) + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            r[i + 4] = c as u64;
        }
        (Self::of([r[0], r[1], r[2], r[3]]), r[4..].iter().any(|&x| x != 0))
    }
    pub fn wrapping_add(self, o: Self) -> Self {
        self.overflowing_add(o).0
    }
    pub fn wrapping_sub(self, o: Self) -> Self {
        self.overflowing_sub(o).0
    }
    pub fn wrapping_mul(self, o: Self) -> Self {
        self.overflowing_mul(o).0
    }
    pub fn checked_add(self, o: Self) -> Option<Self> {
        let (r, f) = self.overflowing_add(o);
        (!f).then_some(r)
    }
    pub fn checked_sub(self, o: Self) -> Option<Self> {
        let (r, f) = self.overflowing_sub(o);
        (!f).then_some(r)
    }
    pub fn checked_mul(self, o: Self) -> Option<Self> {
        let (r, f) = self.overflowing_mul(o);
        (!f).then_some(r)
    }
    pub fn leading_zeros(self) -> u32 {
        if self.0[1] != 0 { self.0[1].leading_zeros() } else { 128 + self.0[0].leading_zeros() }
    }
    pub fn trailing_zeros(self) -> u32 {
        if self.0[0] != 0 { self.0[0].trailing_zeros() } else { 128 + self.0[1].trailing_zeros() }
    }
    pub fn count_ones(self) -> u32 {
        self.0[0].count_ones() + self.0[1].count_ones()
    }
    pub fn bit(self, i: u32) -> bool {
        (self >> i).0[0] & 1 == 1
    }
    pub fn div_rem(self, d: Self) -> (Self, Self) {
        assert!(d != Self::ZERO, "attempt to divide by zero");
        if self.0[1] == 0 && d.0[1] == 0 {
            return (Self::new(self.0[0] / d.0[0]), Self::new(self.0[0] % d.0[0]));
        }
        let (mut q, mut r) = (Self::ZERO, Self::ZERO);
        for i in (0..256 - self.leading_zeros()).rev() {
            let top = r.0[1] >> 127 == 1;
            r = r << 1u32;
            if self.bit(i) {
                r.0[0] |= 1;
            }
            if top || r >= d {
                r = r.wrapping_sub(d);
                q.0[(i / 128) as usize] |= 1 << (i % 128);
            }
        }
        (q, r)
    }
    pub fn pow(self, mut e: u32) -> Self {
        let (mut b, mut r) = (self, Self::ONE);
        while e > 0 {
            if e & 1 == 1 {
                r = r * b;
            }
            e >>= 1;
            if e > 0 {
                b = b * b;
            }
        }
        r
    }
    pub fn from_str_radix(s: &str, radix: u32) -> Result<Self, ParseErr> {
        if s.is_empty() {
            return Err(ParseErr);
        }
        let mut v = Self::ZERO;
        for ch in s.chars() {
            let d = ch.to_digit(radix).ok_or(ParseErr)?;
            v = v.checked_mul(Self::from(radix)).and_then(|v| v.checked_add(Self::from(d))).ok_or(ParseErr)?;
        }
        Ok(v)
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct ParseErr;
impl std::fmt::Display for ParseErr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "invalid number")
    }
}
impl std::error::Error for ParseErr {}
impl std::str::FromStr for U256 {
    type Err = ParseErr;
    fn from_str(s: &str) -> Result<Self, ParseErr> {
        Self::from_str_radix(s, 10)
    }
}
impl Ord for U256 {
    fn cmp(&self, o: &Self) -> Ordering {
        (self.0[1], self.0[0]).cmp(&(o.0[1], o.0[0]))
    }
}
impl PartialOrd for U256 {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
macro_rules! from_small { ($($t:ty),*) => { $(
    impl From<$t> for U256 { fn from(v: $t) -> Self { Self::new(v as u128) } }
    impl PartialEq<$t> for U256 { fn eq(&self, o: &$t) -> bool { *self == Self::new(*o as u128) } }
)* } }
from_small!(u8, u16, u32, u64, u128);
impl From<bool> for U256 {
    fn from(v: bool) -> Self {
        Self::new(u128::from(v))
    }
}
macro_rules! try_into_small { ($($t:ty),*) => { $(
    impl TryFrom<U256> for $t { type Error = std::num::TryFromIntError; fn try_from(v: U256) -> Result<$t, Self::Error> {
        if v.0[1] != 0 { return <$t>::try_from(u128::MAX).and_then(|_| <$t>::try_from(-1i128)); }
        <$t>::try_from(v.0[0])
    } }
)* } }
try_into_small!(u8, u16, u32, u64, usize, i32, i64);
impl Shl<u32> for U256 {
    type Output = U256;
    fn shl(self, s: u32) -> U256 {
        match s {
            0 => self,
            1..=127 => U256([self.0[0] << s, self.0[1] << s | self.0[0] >> (128 - s)]),
            128..=255 => U256([0, self.0[0] << (s - 128)]),
            _ => panic!("attempt to shift left with overflow"),
        }
    }
}
impl Shr<u32> for U256 {
    type Output = U256;
    fn shr(self, s: u32) -> U256 {
        match s {
            0 => self,
            1..=127 => U256([self.0[0] >> s | self.0[1] << (128 - s), self.0[1] >> s]),
            128..=255 => U256([self.0[1] >> (s - 128), 0]),
            _ => panic!("attempt to shift right with overflow"),
        }
    }
}
macro_rules! shifts { ($($t:ty),*) => { $(
    impl Shl<$t> for U256 { type Output = U256; fn shl(self, s: $t) -> U256 { self << (s as u32) } }
    impl Shr<$t> for U256 { type Output = U256; fn shr(self, s: $t) -> U256 { self >> (s as u32) } }
    impl ShlAssign<$t> for U256 { fn shl_assign(&mut self, s: $t) { *self = *self << (s as u32) } }
    impl ShrAssign<$t> for U256 { fn shr_assign(&mut self, s: $t) { *self = *self >> (s as u32) } }
)* } }
shifts!(i32, usize, u64, u8, u16, i64);
impl ShlAssign<u32> for U256 { fn shl_assign(&mut self, s: u32) { *self = *self << s } }
impl ShrAssign<u32> for U256 { fn shr_assign(&mut self, s: u32) { *self = *self >> s } }
impl Shl<U256> for U256 { type Output = U256; fn shl(self, s: U256) -> U256 { self << s.as_u32() } }
impl Shr<U256> for U256 { type Output = U256; fn shr(self, s: U256) -> U256 { self >> s.as_u32() } }
impl Not for U256 {
    type Output = U256;
    fn not(self) -> U256 {
        U256([!self.0[0], !self.0[1]])
    }
}
macro_rules! op { ($tr:ident, $f:ident, $tra:ident, $fa:ident, |$a:ident, $b:ident| $e:expr) => {
    impl $tr for U256 { type Output = U256; fn $f(self, o: U256) -> U256 { let ($a, $b) = (self, o); $e } }
    impl $tr<&U256> for U256 { type Output = U256; fn $f(self, o: &U256) -> U256 { let ($a, $b) = (self, *o); $e } }
    impl $tr<U256> for &U256 { type Output = U256; fn $f(self, o: U256) -> U256 { let ($a, $b) = (*self, o); $e } }
    impl $tr<&U256> for &U256 { type Output = U256; fn $f(self, o: &U256) -> U256 { let ($a, $b) = (*self, *o); $e } }
    impl $tra for U256 { fn $fa(&mut self, o: U256) { let ($a, $b) = (*self, o); *self = $e; } }
    op!(@ $tr, $f, $tra, $fa; u128);
}; (@ $tr:ident, $f:ident, $tra:ident, $fa:ident; $($t:ty),*) => { $(
    impl $tr<$t> for U256 { type Output = U256; fn $f(self, o: $t) -> U256 { <U256 as $tr>::$f(self, U256::from(o)) } }
    impl $tra<$t> for U256 { fn $fa(&mut self, o: $t) { *self = <U256 as $tr>::$f(*self, U256::from(o)); } }
)* } }
op!(Add, add, AddAssign, add_assign, |a, b| { let (r, f) = a.overflowing_add(b); debug_assert!(!f, "attempt to add with overflow"); r });
op!(Sub, sub, SubAssign, sub_assign, |a, b| { let (r, f) = a.overflowing_sub(b); debug_assert!(!f, "attempt to subtract with overflow"); r });
op!(Mul, mul, MulAssign, mul_assign, |a, b| { let (r, f) = a.overflowing_mul(b); debug_assert!(!f, "attempt to multiply with overflow"); r });
op!(Div, div, DivAssign, div_assign, |a, b| a.div_rem(b).0);
op!(Rem, rem, RemAssign, rem_assign, |a, b| a.div_rem(b).1);
op!(BitAnd, bitand, BitAndAssign, bitand_assign, |a, b| U256([a.0[0] & b.0[0], a.0[1] & b.0[1]]));
op!(BitOr, bitor, BitOrAssign, bitor_assign, |a, b| U256([a.0[0] | b.0[0], a.0[1] | b.0[1]]));
op!(BitXor, bitxor, BitXorAssign, bitxor_assign, |a, b| U256([a.0[0] ^ b.0[0], a.0[1] ^ b.0[1]]));
impl std::iter::Sum for U256 { fn sum<I: Iterator<Item = U256>>(i: I) -> U256 { i.fold(U256::ZERO, |a, b| a + b) } }
fn show(v: U256, radix: u128, up: bool) -> String {
    if v == U256::ZERO {
        return "0".into();
    }
    let mut s = vec![];
    let mut v = v;
    while v != U256::ZERO {
        let (q, r) = v.div_rem(U256::new(radix));
        let c = std::char::from_digit(r.as_u32(), radix as u32).unwrap();
        s.push(if up { c.to_ascii_uppercase() } else { c });
        v = q;
    }
    s.iter().rev().collect()
}
impl std::fmt::Display for U256 {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.pad_integral(true, "", &show(*self, 10, false))
    }
}
impl std::fmt::Debug for U256 {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.pad_integral(true, "", &show(*self, 10, false))
    }
}
impl std::fmt::LowerHex for U256 {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.pad_integral(true, "0x", &show(*self, 16, false))
    }
}
impl std::fmt::UpperHex for U256 {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.pad_integral(true, "0x", &show(*self, 16, true))
    }
}
impl std::fmt::Binary for U256 {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.pad_integral(true, "0b", &show(*self, 2, false))
    }
}
