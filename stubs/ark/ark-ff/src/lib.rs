//! Field traits.
pub use ark_std::{num::{One, Zero}, UniformRand};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use std::fmt::{Debug, Display};
use std::iter::{Product, Sum};
use std::ops::*;
pub trait AdditiveGroup:
    Copy + Clone + Debug + Default + PartialEq + Eq + Sized + Zero + Neg<Output = Self>
    + Add<Self, Output = Self> + Sub<Self, Output = Self> + AddAssign<Self> + SubAssign<Self>
    + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self> + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self>
    + CanonicalSerialize + CanonicalDeserialize + UniformRand + Send + Sync + 'static
{
    fn double(&self) -> Self { *self + *self }
}
pub trait Field:
    AdditiveGroup + One + Mul<Self, Output = Self> + Div<Self, Output = Self> + MulAssign<Self> + DivAssign<Self>
    + for<'a> Mul<&'a Self, Output = Self> + for<'a> Div<&'a Self, Output = Self> + for<'a> MulAssign<&'a Self>
    + Sum<Self> + for<'a> Sum<&'a Self> + Product<Self> + for<'a> Product<&'a Self>
    + Display + From<u128> + From<u64> + From<u32> + From<u16> + From<u8> + From<bool> + From<i128> + From<i64> + From<i32>
{
    const ZERO: Self;
    const ONE: Self;
    fn inverse(&self) -> Option<Self>;
    fn square(&self) -> Self { *self * *self }
    fn pow<S: AsRef<[u64]>>(&self, e: S) -> Self {
        let mut r = Self::one();
        for w in e.as_ref().iter().rev() { for i in (0..64).rev() { r = r * r; if w >> i & 1 == 1 { r *= *self; } } }
        r
    }
    fn neg_in_place(&mut self) -> &mut Self { *self = -*self; self }
    fn square_in_place(&mut self) -> &mut Self { *self = self.square(); self }
    fn inverse_in_place(&mut self) -> Option<&mut Self> { match self.inverse() { Some(i) => { *self = i; Some(self) } None => None } }
}
pub trait FftField: Field {
    fn get_root_of_unity(_n: u64) -> Option<Self> { None }
}
pub trait BigInteger: Copy + Clone + Debug + Default + PartialEq + Eq + AsRef<[u64]> + AsMut<[u64]> + From<u64> {
    fn to_bytes_le(&self) -> Vec<u8>;
    fn to_bytes_be(&self) -> Vec<u8> { let mut v = self.to_bytes_le(); v.reverse(); v }
    fn is_zero(&self) -> bool { self.as_ref().iter().all(|x| *x == 0) }
}
#[derive(Copy, Clone, Debug, Default, PartialEq, Eq)]
pub struct BigInt<const N: usize>(pub [u64; N]) where [u64; N]: Default;
pub type BigInteger256 = BigInt<4>;
impl AsRef<[u64]> for BigInt<4> { fn as_ref(&self) -> &[u64] { &self.0 } }
impl AsMut<[u64]> for BigInt<4> { fn as_mut(&mut self) -> &mut [u64] { &mut self.0 } }
impl From<u64> for BigInt<4> { fn from(x: u64) -> Self { BigInt([x, 0, 0, 0]) } }
impl BigInteger for BigInt<4> { fn to_bytes_le(&self) -> Vec<u8> { self.0.iter().flat_map(|x| x.to_le_bytes()).collect() } }
pub trait PrimeField: FftField + std::str::FromStr + From<Self::BigInt> + Into<Self::BigInt> {
    type BigInt: BigInteger;
    const MODULUS: Self::BigInt;
    const MODULUS_BIT_SIZE: u32;
    fn from_bigint(b: Self::BigInt) -> Option<Self>;
    fn into_bigint(self) -> Self::BigInt;
    fn from_le_bytes_mod_order(b: &[u8]) -> Self;
    fn from_be_bytes_mod_order(b: &[u8]) -> Self { let mut v = b.to_vec(); v.reverse(); Self::from_le_bytes_mod_order(&v) }
}
/// operator plumbing from by-reference add/sub/mul/neg
#[macro_export]
macro_rules! field_ops {
    ($t:ty) => {
        $crate::group_ops!($t);
        impl std::ops::Mul<$t> for $t { type Output = $t; fn mul(self, o: $t) -> $t { self.mul_(&o) } }
        impl<'a> std::ops::Mul<&'a $t> for $t { type Output = $t; fn mul(self, o: &'a $t) -> $t { self.mul_(o) } }
        impl<'a> std::ops::Mul<$t> for &'a $t { type Output = $t; fn mul(self, o: $t) -> $t { self.mul_(&o) } }
        impl<'a, 'b> std::ops::Mul<&'b $t> for &'a $t { type Output = $t; fn mul(self, o: &'b $t) -> $t { self.mul_(o) } }
        impl std::ops::MulAssign<$t> for $t { fn mul_assign(&mut self, o: $t) { *self = self.mul_(&o) } }
        impl<'a> std::ops::MulAssign<&'a $t> for $t { fn mul_assign(&mut self, o: &'a $t) { *self = self.mul_(o) } }
        impl std::ops::Div<$t> for $t { type Output = $t; fn div(self, o: $t) -> $t { self.mul_(&$crate::Field::inverse(&o).unwrap()) } }
        impl<'a> std::ops::Div<&'a $t> for $t { type Output = $t; fn div(self, o: &'a $t) -> $t { self.mul_(&$crate::Field::inverse(o).unwrap()) } }
        impl std::ops::DivAssign<$t> for $t { fn div_assign(&mut self, o: $t) { *self = *self / o } }
        impl $crate::One for $t { fn one() -> Self { <$t as $crate::Field>::ONE } }
        impl std::iter::Product<$t> for $t { fn product<I: Iterator<Item = $t>>(i: I) -> Self { i.fold(<$t as $crate::Field>::ONE, |a, b| a * b) } }
        impl<'a> std::iter::Product<&'a $t> for $t { fn product<I: Iterator<Item = &'a $t>>(i: I) -> Self { i.fold(<$t as $crate::Field>::ONE, |a, b| a * b) } }
        $crate::field_ops!(@from $t, u128 u32 u16 u8);
        impl From<bool> for $t { fn from(x: bool) -> Self { <$t>::from(x as u64) } }
        impl From<i64> for $t { fn from(x: i64) -> Self { if x < 0 { -<$t>::from(x.unsigned_abs()) } else { <$t>::from(x as u64) } } }
        impl From<i128> for $t { fn from(x: i128) -> Self { if x < 0 { -<$t>::from(x.unsigned_abs()) } else { <$t>::from(x as u128) } } }
        impl From<i32> for $t { fn from(x: i32) -> Self { <$t>::from(x as i64) } }
    };
    (@from $t:ty, u128 $($n:ty)*) => { $(impl From<$n> for $t { fn from(x: $n) -> Self { <$t>::from(x as u64) } })* };
}
#[macro_export]
macro_rules! group_ops {
    ($t:ty) => {
        impl std::ops::Add<$t> for $t { type Output = $t; fn add(self, o: $t) -> $t { self.add_(&o) } }
        impl<'a> std::ops::Add<&'a $t> for $t { type Output = $t; fn add(self, o: &'a $t) -> $t { self.add_(o) } }
        impl<'a> std::ops::Add<$t> for &'a $t { type Output = $t; fn add(self, o: $t) -> $t { self.add_(&o) } }
        impl<'a, 'b> std::ops::Add<&'b $t> for &'a $t { type Output = $t; fn add(self, o: &'b $t) -> $t { self.add_(o) } }
        impl std::ops::Sub<$t> for $t { type Output = $t; fn sub(self, o: $t) -> $t { self.add_(&o.neg_()) } }
        impl<'a> std::ops::Sub<&'a $t> for $t { type Output = $t; fn sub(self, o: &'a $t) -> $t { self.add_(&o.neg_()) } }
        impl<'a> std::ops::Sub<$t> for &'a $t { type Output = $t; fn sub(self, o: $t) -> $t { self.add_(&o.neg_()) } }
        impl<'a, 'b> std::ops::Sub<&'b $t> for &'a $t { type Output = $t; fn sub(self, o: &'b $t) -> $t { self.add_(&o.neg_()) } }
        impl std::ops::AddAssign<$t> for $t { fn add_assign(&mut self, o: $t) { *self = self.add_(&o) } }
        impl<'a> std::ops::AddAssign<&'a $t> for $t { fn add_assign(&mut self, o: &'a $t) { *self = self.add_(o) } }
        impl std::ops::SubAssign<$t> for $t { fn sub_assign(&mut self, o: $t) { *self = self.add_(&o.neg_()) } }
        impl<'a> std::ops::SubAssign<&'a $t> for $t { fn sub_assign(&mut self, o: &'a $t) { *self = self.add_(&o.neg_()) } }
        impl std::ops::Neg for $t { type Output = $t; fn neg(self) -> $t { self.neg_() } }
        impl std::iter::Sum<$t> for $t { fn sum<I: Iterator<Item = $t>>(i: I) -> Self { i.fold(<$t as $crate::Zero>::zero(), |a, b| a + b) } }
        impl<'a> std::iter::Sum<&'a $t> for $t { fn sum<I: Iterator<Item = &'a $t>>(i: I) -> Self { i.fold(<$t as $crate::Zero>::zero(), |a, b| a + b) } }
        impl $crate::AdditiveGroup for $t {}
    };
}
