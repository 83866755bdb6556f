#[macro_export]
#[doc(hidden)]
macro_rules! mont_field {
    ($name:ident, $m:expr, $modstr:expr, $gen:expr, $two_adicity:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, Hash, Default, ::serde::Serialize, ::serde::Deserialize)]
        pub struct $name(pub(crate) [u64; 4]);
        #[allow(dead_code)]
        impl $name {
            const M: [u64; 4] = $m;
            const INV: u64 = {
                let mut x = 1u64;
                let mut i = 0;
                while i < 63 {
                    x = x.wrapping_mul(x).wrapping_mul(Self::M[0]);
                    i += 1;
                }
                x.wrapping_neg()
            };
            const fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
                let mut i = 4;
                while i > 0 {
                    i -= 1;
                    if a[i] != b[i] {
                        return a[i] > b[i];
                    }
                }
                true
            }
            const fn sub4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
                let (mut r, mut c, mut i) = ([0u64; 4], 0u64, 0);
                while i < 4 {
                    let t = (a[i] as u128).wrapping_sub(b[i] as u128 + c as u128);
                    r[i] = t as u64;
                    c = ((t >> 64) as u64) & 1;
                    i += 1;
                }
                r
            }
            const fn add_mod(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
                let (mut r, mut c, mut i) = ([0u64; 4], 0u64, 0);
                while i < 4 {
                    let t = a[i] as u128 + b[i] as u128 + c as u128;
                    r[i] = t as u64;
                    c = (t >> 64) as u64;
                    i += 1;
                }
                if Self::geq(&r, &Self::M) { Self::sub4(&r, &Self::M) } else { r }
            }
            const fn pow2(n: u32) -> [u64; 4] {
                let (mut r, mut i) = ([1u64, 0, 0, 0], 0);
                while i < n {
                    r = Self::add_mod(&r, &r);
                    i += 1;
                }
                r
            }
            const R: [u64; 4] = Self::pow2(256);
            const R2: [u64; 4] = Self::pow2(512);
            const fn mont_mul(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
                let mut t = [0u64; 6];
                let mut i = 0;
                while i < 4 {
                    let (mut c, mut j) = (0u128, 0);
                    while j < 4 {
                        let v = t[j] as u128 + a[j] as u128 * b[i] as u128 + c;
                        t[j] = v as u64;
                        c = v >> 64;
                        j += 1;
                    }
                    let v = t[4] as u128 + c;
                    t[4] = v as u64;
                    t[5] = (v >> 64) as u64;
                    let m = t[0].wrapping_mul(Self::INV);
                    let mut c = (t[0] as u128 + m as u128 * Self::M[0] as u128) >> 64;
                    let mut j = 1;
                    while j < 4 {
                        let v = t[j] as u128 + m as u128 * Self::M[j] as u128 + c;
                        t[j - 1] = v as u64;
                        c = v >> 64;
                        j += 1;
                    }
                    let v = t[4] as u128 + c;
                    t[3] = v as u64;
                    t[4] = t[5].wrapping_add((v >> 64) as u64);
                    i += 1;
                }
                let r = [t[0], t[1], t[2], t[3]];
                if t[4] != 0 || Self::geq(&r, &Self::M) { Self::sub4(&r, &Self::M) } else { r }
            }
            pub const fn from_raw(v: [u64; 4]) -> Self {
                Self(Self::mont_mul(&v, &Self::R2))
            }
            pub const fn zero() -> Self {
                Self([0; 4])
            }
            pub const fn one() -> Self {
                Self(Self::R)
            }
            const fn pow_const(self, e: [u64; 4]) -> Self {
                let mut r = Self::R;
                let mut i = 256;
                while i > 0 {
                    i -= 1;
                    r = Self::mont_mul(&r, &r);
                    if (e[i / 64] >> (i % 64)) & 1 == 1 {
                        r = Self::mont_mul(&r, &self.0);
                    }
                }
                Self(r)
            }
            /// (M - 1) >> s
            const fn m1_shr(s: u32) -> [u64; 4] {
                let mut v = Self::M;
                v[0] -= 1;
                let mut i = 0;
                while i < s {
                    v = [v[0] >> 1 | v[1] << 63, v[1] >> 1 | v[2] << 63, v[2] >> 1 | v[3] << 63, v[3] >> 1];
                    i += 1;
                }
                v
            }
            const M_MINUS_2: [u64; 4] = { let mut v = Self::M; v[0] -= 2; v };
            pub fn canonical(&self) -> [u64; 4] {
                Self::mont_mul(&self.0, &[1, 0, 0, 0])
            }
            pub fn to_bytes(&self) -> [u8; 32] {
                let mut b = [0; 32];
                for (k, l) in self.canonical().iter().enumerate() {
                    b[8 * k..8 * k + 8].copy_from_slice(&l.to_le_bytes());
                }
                b
            }
            pub fn from_bytes(b: &[u8; 32]) -> subtle::CtOption<Self> {
                let mut v = [0u64; 4];
                for k in 0..4 {
                    v[k] = u64::from_le_bytes(b[8 * k..8 * k + 8].try_into().unwrap());
                }
                let ok = !Self::geq(&v, &Self::M);
                subtle::CtOption::new(if ok { Self::from_raw(v) } else { Self::zero() }, subtle::Choice::from(u8::from(ok)))
            }
            pub const ROOT: Self = Self::from_raw([$gen, 0, 0, 0]).pow_const(Self::m1_shr($two_adicity));
        }
        impl std::fmt::Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "0x")?;
                for b in self.to_bytes().iter().rev() {
                    write!(f, "{b:02x}")?;
                }
                Ok(())
            }
        }
        impl std::fmt::Display for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "{self:?}")
            }
        }
        impl Ord for $name {
            fn cmp(&self, o: &Self) -> std::cmp::Ordering {
                self.canonical().iter().rev().cmp(o.canonical().iter().rev())
            }
        }
        impl PartialOrd for $name {
            fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
                Some(self.cmp(o))
            }
        }
        impl From<u64> for $name { fn from(v: u64) -> Self { Self::from_raw([v, 0, 0, 0]) } }
        impl From<u32> for $name { fn from(v: u32) -> Self { Self::from(u64::from(v)) } }
        impl From<bool> for $name { fn from(v: bool) -> Self { Self::from(u64::from(v)) } }
        impl From<[u64; 4]> for $name { fn from(v: [u64; 4]) -> Self { Self::from_raw(v) } }
        impl From<$name> for [u8; 32] { fn from(v: $name) -> Self { v.to_bytes() } }
        impl subtle::ConditionallySelectable for $name {
            fn conditional_select(a: &Self, b: &Self, c: subtle::Choice) -> Self {
                if bool::from(c) { *b } else { *a }
            }
        }
        impl subtle::ConstantTimeEq for $name {
            fn ct_eq(&self, o: &Self) -> subtle::Choice {
                subtle::Choice::from(u8::from(self == o))
            }
        }
        impl std::ops::Neg for $name {
            type Output = Self;
            fn neg(self) -> Self {
                if self.0 == [0; 4] { self } else { Self(Self::sub4(&Self::M, &self.0)) }
            }
        }
        impl<'a> std::ops::Neg for &'a $name { type Output = $name; fn neg(self) -> $name { -*self } }
        impl $name {
            pub fn add(&self, o: &Self) -> Self { Self(Self::add_mod(&self.0, &o.0)) }
            pub fn sub(&self, o: &Self) -> Self { Self(Self::add_mod(&self.0, &(-*o).0)) }
            pub fn mul(&self, o: &Self) -> Self { Self(Self::mont_mul(&self.0, &o.0)) }
            pub fn neg(&self) -> Self { -*self }
        }
        $crate::mont_field!(@op $name, Add, add, AddAssign, add_assign);
        $crate::mont_field!(@op $name, Sub, sub, SubAssign, sub_assign);
        $crate::mont_field!(@op $name, Mul, mul, MulAssign, mul_assign);
        impl std::iter::Sum for $name { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
        impl<'a> std::iter::Sum<&'a $name> for $name { fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
        impl std::iter::Product for $name { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::one(), |a, b| a * b) } }
        impl<'a> std::iter::Product<&'a $name> for $name { fn product<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::one(), |a, b| a * b) } }
        impl $crate::ff::Field for $name {
            const ZERO: Self = Self::zero();
            const ONE: Self = Self::one();
            fn random(mut rng: impl rand_core::RngCore) -> Self {
                let mut b = [0u8; 64];
                rng.fill_bytes(&mut b);
                <Self as $crate::ff::FromUniformBytes<64>>::from_uniform_bytes(&b)
            }
            fn square(&self) -> Self { *self * *self }
            fn double(&self) -> Self { *self + *self }
            fn invert(&self) -> subtle::CtOption<Self> {
                subtle::CtOption::new(self.pow_const(Self::M_MINUS_2), subtle::Choice::from(u8::from(self.0 != [0; 4])))
            }
        }
        impl $crate::ff::PrimeField for $name {
            type Repr = [u8; 32];
            const MODULUS: &'static str = $modstr;
            const NUM_BITS: u32 = 254;
            const CAPACITY: u32 = 253;
            const TWO_INV: Self = Self::from_raw([2, 0, 0, 0]).pow_const(Self::M_MINUS_2);
            const MULTIPLICATIVE_GENERATOR: Self = Self::from_raw([$gen, 0, 0, 0]);
            const S: u32 = $two_adicity;
            const ROOT_OF_UNITY: Self = Self::ROOT;
            const ROOT_OF_UNITY_INV: Self = Self::ROOT.pow_const(Self::M_MINUS_2);
            const DELTA: Self = Self::from_raw([$gen, 0, 0, 0]).pow_const([1 << $two_adicity, 0, 0, 0]);
            fn from_repr(r: [u8; 32]) -> subtle::CtOption<Self> { Self::from_bytes(&r) }
            fn to_repr(&self) -> [u8; 32] { self.to_bytes() }
            fn is_odd(&self) -> subtle::Choice { subtle::Choice::from((self.canonical()[0] & 1) as u8) }
        }
        impl $crate::ff::FromUniformBytes<64> for $name {
            fn from_uniform_bytes(b: &[u8; 64]) -> Self {
                let mut v = [0u64; 8];
                for k in 0..8 {
                    v[k] = u64::from_le_bytes(b[8 * k..8 * k + 8].try_into().unwrap());
                }
                let (lo, hi) = (Self::from_raw([v[0], v[1], v[2], v[3]]), Self::from_raw([v[4], v[5], v[6], v[7]]));
                // mont_mul reduces any 256-bit operand as long as the other one is below the modulus
                lo + hi * Self(Self::R2)
            }
        }
        impl $crate::ff::FromUniformBytes<48> for $name {
            fn from_uniform_bytes(b: &[u8; 48]) -> Self {
                let mut w = [0u8; 64];
                w[..48].copy_from_slice(b);
                <Self as $crate::ff::FromUniformBytes<64>>::from_uniform_bytes(&w)
            }
        }
        impl $crate::ff::WithSmallOrderMulGroup<3> for $name {
            const ZETA: Self = Self::from_raw([$gen, 0, 0, 0]).pow_const({
                // (M - 1) / 3, limb-wise long division
                let mut v = Self::M;
                v[0] -= 1;
                let (mut rem, mut i) = (0u128, 4);
                while i > 0 {
                    i -= 1;
                    let cur = rem << 64 | v[i] as u128;
                    v[i] = (cur / 3) as u64;
                    rem = cur % 3;
                }
                v
            });
        }
        impl $crate::serde::SerdeObject for $name {
            fn from_raw_bytes_unchecked(b: &[u8]) -> Self {
                let mut v = [0u64; 4];
                for k in 0..4 {
                    v[k] = u64::from_le_bytes(b[8 * k..8 * k + 8].try_into().unwrap());
                }
                Self(v)
            }
            fn from_raw_bytes(b: &[u8]) -> Option<Self> {
                if b.len() != 32 { return None; }
                let e = Self::from_raw_bytes_unchecked(b);
                (!Self::geq(&e.0, &Self::M)).then_some(e)
            }
            fn to_raw_bytes(&self) -> Vec<u8> { self.0.iter().flat_map(|l| l.to_le_bytes()).collect() }
            fn read_raw_unchecked<R: std::io::Read>(r: &mut R) -> Self {
                let mut b = [0; 32];
                r.read_exact(&mut b).unwrap();
                Self::from_raw_bytes_unchecked(&b)
            }
            fn read_raw<R: std::io::Read>(r: &mut R) -> std::io::Result<Self> {
                let mut b = [0; 32];
                r.read_exact(&mut b)?;
                Self::from_raw_bytes(&b).ok_or_else(|| std::io::Error::new(std::io::ErrorKind::InvalidData, "not reduced"))
            }
            fn write_raw<W: std::io::Write>(&self, w: &mut W) -> std::io::Result<()> { w.write_all(&self.to_raw_bytes()) }
        }
    };
    (@op $name:ident, $tr:ident, $f:ident, $tra:ident, $fa:ident) => {
        impl std::ops::$tr for $name { type Output = $name; fn $f(self, o: $name) -> $name { <$name>::$f(&self, &o) } }
        impl<'a> std::ops::$tr<&'a $name> for $name { type Output = $name; fn $f(self, o: &$name) -> $name { <$name>::$f(&self, o) } }
        impl<'a> std::ops::$tr<$name> for &'a $name { type Output = $name; fn $f(self, o: $name) -> $name { <$name>::$f(self, &o) } }
        impl<'a, 'b> std::ops::$tr<&'b $name> for &'a $name { type Output = $name; fn $f(self, o: &$name) -> $name { <$name>::$f(self, o) } }
        impl std::ops::$tra for $name { fn $fa(&mut self, o: $name) { *self = <$name>::$f(self, &o) } }
        impl<'a> std::ops::$tra<&'a $name> for $name { fn $fa(&mut self, o: &$name) { *self = <$name>::$f(self, o) } }
    };
}
