//! Stand-in for the part of `stwo-prover` that cairo-m uses outside of its prover crate: the M31
//! base field and its QM31 extension. stwo itself cannot be fetched in this sandbox.
pub mod core {
    pub mod fields {
        use std::fmt::Debug;
        use std::ops::{Add, Mul, Neg, Sub};
        use num_traits::{One, Zero};
        pub trait FieldExpOps: Copy + Mul<Output = Self> + One {
            fn inverse(&self) -> Self;
            fn square(&self) -> Self { *self * *self }
            fn pow(&self, exp: u128) -> Self {
                let mut r = Self::one();
                let mut b = *self;
                let mut e = exp;
                while e > 0 {
                    if e & 1 == 1 { r = r * b; }
                    b = b * b;
                    e >>= 1;
                }
                r
            }
        }
        pub trait Field: FieldExpOps + Copy + Debug + PartialEq + Eq + Zero + One + Neg<Output = Self> + Sub<Output = Self> + Add<Output = Self> {
            fn double(&self) -> Self { *self + *self }
        }
        pub mod m31 {
            use super::{Field, FieldExpOps};
            use num_traits::{One, Zero};
            use serde::{Deserialize, Serialize};
            use std::fmt::Display;
            use std::ops::*;
            pub const MODULUS_BITS: u32 = 31;
            pub const N_BYTES_FELT: usize = 4;
            pub const P: u32 = 2147483647;
            #[repr(transparent)]
            #[derive(Copy, Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
            pub struct M31(pub u32);
            pub type BaseField = M31;
            impl M31 {
                pub const fn partial_reduce(val: u32) -> Self { Self(if val >= P { val - P } else { val }) }
                pub const fn reduce(val: u64) -> Self { Self((((((val >> MODULUS_BITS) + val + 1) >> MODULUS_BITS) + val) & (P as u64)) as u32) }
                pub const fn from_u32_unchecked(arg: u32) -> Self { Self(arg) }
                pub fn inverse(&self) -> Self { FieldExpOps::inverse(self) }
            }
            impl Display for M31 { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
            impl Add for M31 { type Output = Self; fn add(self, r: Self) -> Self { Self::partial_reduce(self.0 + r.0) } }
            impl Sub for M31 { type Output = Self; fn sub(self, r: Self) -> Self { Self::partial_reduce(self.0 + P - r.0) } }
            impl Mul for M31 { type Output = Self; fn mul(self, r: Self) -> Self { Self::reduce(self.0 as u64 * r.0 as u64) } }
            impl Neg for M31 { type Output = Self; fn neg(self) -> Self { Self::partial_reduce(P - self.0) } }
            impl AddAssign for M31 { fn add_assign(&mut self, r: Self) { *self = *self + r } }
            impl SubAssign for M31 { fn sub_assign(&mut self, r: Self) { *self = *self - r } }
            impl MulAssign for M31 { fn mul_assign(&mut self, r: Self) { *self = *self * r } }
            impl Div for M31 { type Output = Self; #[allow(clippy::suspicious_arithmetic_impl)] fn div(self, r: Self) -> Self { self * r.inverse() } }
            impl DivAssign for M31 { fn div_assign(&mut self, r: Self) { *self = *self / r } }
            impl One for M31 { fn one() -> Self { Self(1) } }
            impl Zero for M31 { fn zero() -> Self { Self(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
            impl FieldExpOps for M31 {
                fn inverse(&self) -> Self {
                    assert!(self.0 != 0, "0 has no inverse");
                    self.pow((P - 2) as u128)
                }
            }
            impl Field for M31 {}
            impl From<usize> for M31 { fn from(v: usize) -> Self { Self::reduce(v as u64 % P as u64) } }
            impl From<u32> for M31 { fn from(v: u32) -> Self { Self::reduce(v as u64) } }
            impl From<i32> for M31 {
                fn from(value: i32) -> Self {
                    if value < 0 {
                        const P2: u64 = 2 * P as u64;
                        return Self::reduce(P2 - value.unsigned_abs() as u64);
                    }
                    Self::reduce(value.unsigned_abs() as u64)
                }
            }
            impl std::iter::Sum for M31 { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self(0), |a, b| a + b) } }
        }
        pub mod cm31 {
            use super::m31::M31;
            #[derive(Copy, Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
            pub struct CM31(pub M31, pub M31);
            impl std::ops::Add for CM31 { type Output = Self; fn add(self, r: Self) -> Self { Self(self.0 + r.0, self.1 + r.1) } }
            impl num_traits::Zero for CM31 { fn zero() -> Self { Self::default() } fn is_zero(&self) -> bool { *self == Self::default() } }
            impl std::fmt::Display for CM31 { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{} + {}i", self.0, self.1) } }
        }
        pub mod qm31 {
            use super::cm31::CM31;
            use super::m31::M31;
            use num_traits::{One, Zero};
            use std::ops::*;
            pub const SECURE_EXTENSION_DEGREE: usize = 4;
            #[derive(Copy, Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
            pub struct QM31(pub CM31, pub CM31);
            pub type SecureField = QM31;
            impl QM31 {
                pub const fn from_u32_unchecked(a: u32, b: u32, c: u32, d: u32) -> Self {
                    Self(CM31(M31(a), M31(b)), CM31(M31(c), M31(d)))
                }
                pub const fn from_m31(a: M31, b: M31, c: M31, d: M31) -> Self { Self(CM31(a, b), CM31(c, d)) }
                pub const fn from_m31_array(a: [M31; SECURE_EXTENSION_DEGREE]) -> Self { Self::from_m31(a[0], a[1], a[2], a[3]) }
                pub const fn to_m31_array(self) -> [M31; SECURE_EXTENSION_DEGREE] { [self.0 .0, self.0 .1, self.1 .0, self.1 .1] }
            }
            impl std::fmt::Display for QM31 { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "({}) + ({})u", self.0, self.1) } }
            impl From<M31> for QM31 { fn from(v: M31) -> Self { Self::from_m31(v, M31(0), M31(0), M31(0)) } }
            impl From<u32> for QM31 { fn from(v: u32) -> Self { Self::from(M31::from(v)) } }
            impl From<usize> for QM31 { fn from(v: usize) -> Self { Self::from(M31::from(v)) } }
            impl From<i32> for QM31 { fn from(v: i32) -> Self { Self::from(M31::from(v)) } }
            impl TryInto<M31> for QM31 {
                type Error = ();
                fn try_into(self) -> Result<M31, ()> {
                    let a = self.to_m31_array();
                    if a[1..].iter().any(|x| x.0 != 0) { Err(()) } else { Ok(a[0]) }
                }
            }
            impl Add for QM31 { type Output = Self; fn add(self, r: Self) -> Self {
                let (a, b) = (self.to_m31_array(), r.to_m31_array());
                Self::from_m31_array([a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]]) } }
            impl Sub for QM31 { type Output = Self; fn sub(self, r: Self) -> Self {
                let (a, b) = (self.to_m31_array(), r.to_m31_array());
                Self::from_m31_array([a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3]]) } }
            // (a + bu)(c + du) = ac + bd(2 + i) + (ad + bc)u over CM31
            impl Mul for QM31 { type Output = Self; fn mul(self, r: Self) -> Self {
                let cm = |x: CM31, y: CM31| CM31(x.0 * y.0 - x.1 * y.1, x.0 * y.1 + x.1 * y.0);
                let ad = |x: CM31, y: CM31| CM31(x.0 + y.0, x.1 + y.1);
                let k = CM31(M31(2), M31(1));
                Self(ad(cm(self.0, r.0), cm(k, cm(self.1, r.1))), ad(cm(self.0, r.1), cm(self.1, r.0))) } }
            impl One for QM31 { fn one() -> Self { Self::from(M31(1)) } }
            impl Zero for QM31 { fn zero() -> Self { Self::default() } fn is_zero(&self) -> bool { *self == Self::default() } }
        }
    }
}
