//! A pairing over the integers modulo 17, its groups written by exponents.  On the symbolic target a field
//! element is a polynomial in normal form over the unknowns, so that identities hold by construction of the term.
use ark_ec::{pairing::Pairing, AffineRepr, CurveGroup, PrimeGroup, ScalarMul, VariableBaseMSM};
use ark_ff::{BigInt, FftField, Field, One, PrimeField, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Read, SerializationError, Validate, Write};
use std::ops::*;

#[derive(Copy, Clone, Default)]
pub struct Fr(u64);
impl Fr {
    fn add_(&self, o: &Fr) -> Fr { Fr(sy::field(0, self.0, o.0)) }
    fn neg_(&self) -> Fr { Fr(sy::field(1, 0, self.0)) }
    fn mul_(&self, o: &Fr) -> Fr { Fr(sy::field(2, self.0, o.0)) }
    pub fn value(&self) -> u64 { self.0 }
    /// any element
    pub fn any() -> Fr {
        let v = sy::bits(5);
        sy::assume(v < 17);
        Fr(v)
    }
    /// any element but zero
    pub fn unit() -> Fr { Fr(sy::field(4, sy::bits(4) + 1, 0)) }
    /// any element but zero, not a harness input
    pub fn is(&self, o: &Fr) -> bool { sy::field(1, self.0, o.0) == 0 }
}
impl PartialEq for Fr { fn eq(&self, o: &Fr) -> bool { self.is(o) } }
impl Eq for Fr {}
ark_ff::field_ops!(Fr);
impl From<u64> for Fr { fn from(x: u64) -> Self { Fr(x % 17) } }
impl From<u128> for Fr { fn from(x: u128) -> Self { Fr((x % 17) as u64) } }
impl Zero for Fr { fn zero() -> Self { Fr(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl Field for Fr {
    const ZERO: Self = Fr(0);
    const ONE: Self = Fr(1);
    fn inverse(&self) -> Option<Self> { if self.is_zero() { None } else { Some(Fr(sy::field(3, self.0, 0))) } }
}
impl FftField for Fr {
    fn get_root_of_unity(n: u64) -> Option<Self> {
        if n == 0 || 16 % n != 0 { return None; }
        let mut r = Fr(1);
        for _ in 0..16 / n { r *= Fr(3); }
        Some(r)
    }
}
impl PrimeField for Fr {
    type BigInt = BigInt<4>;
    const MODULUS: BigInt<4> = BigInt([17, 0, 0, 0]);
    const MODULUS_BIT_SIZE: u32 = 5;
    fn from_bigint(b: BigInt<4>) -> Option<Self> { if b.0[0] < 17 && b.0[1] | b.0[2] | b.0[3] == 0 { Some(Fr(b.0[0])) } else { None } }
    fn into_bigint(self) -> BigInt<4> { BigInt([self.0, 0, 0, 0]) }
    fn from_le_bytes_mod_order(b: &[u8]) -> Self {
        let mut r = Fr(0);
        for x in b.iter().rev() { r = r * Fr(256 % 17) + Fr(*x as u64 % 17); }
        r
    }
}
impl From<BigInt<4>> for Fr { fn from(b: BigInt<4>) -> Self { Fr::from_bigint(b).unwrap() } }
impl From<Fr> for BigInt<4> { fn from(f: Fr) -> Self { f.into_bigint() } }
static mut DRAWS: Vec<Fr> = Vec::new();
/// the field elements drawn so far
#[allow(static_mut_refs)]
pub fn draws() -> &'static mut Vec<Fr> { unsafe { &mut DRAWS } }
/// Sampling hands out an arbitrary non-zero element and asks the generator for randomness once.
impl UniformRand for Fr {
    fn rand<R: rand::RngCore + ?Sized>(rng: &mut R) -> Self {
        let mut b = [0u8; 32];
        rng.fill_bytes(&mut b);
        let f = Fr::unit();
        draws().push(f);
        f
    }
}
impl std::fmt::Display for Fr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Fr") } }
impl std::fmt::Debug for Fr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Fr") } }
impl std::str::FromStr for Fr { type Err = (); fn from_str(_: &str) -> Result<Self, ()> { Err(()) } }
impl CanonicalSerialize for Fr {
    fn serialize_with_mode<W: Write>(&self, mut w: W, _: Compress) -> Result<(), SerializationError> { w.write_all(&[self.0 as u8])?; Ok(()) }
    fn serialized_size(&self, _: Compress) -> usize { 1 }
}
impl CanonicalDeserialize for Fr {
    fn deserialize_with_mode<D: Read>(mut r: D, _: Compress, _: Validate) -> Result<Self, SerializationError> {
        let mut b = [0u8; 1];
        r.read_exact(&mut b)?;
        if b[0] < 17 { Ok(Fr(b[0] as u64)) } else { Err(SerializationError::InvalidData) }
    }
}

macro_rules! group {
    ($g:ident, $a:ident) => {
        #[derive(Copy, Clone, Debug, Default, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
        pub struct $g(pub Fr);
        #[derive(Copy, Clone, Debug, Default, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
        pub struct $a(pub Fr);
        impl $g {
            fn add_(&self, o: &$g) -> $g { $g(self.0 + o.0) }
            fn neg_(&self) -> $g { $g(-self.0) }
        }
        ark_ff::group_ops!($g);
        impl Zero for $g { fn zero() -> Self { $g(Fr(0)) } fn is_zero(&self) -> bool { self.0.is_zero() } }
        impl UniformRand for $g { fn rand<R: rand::RngCore + ?Sized>(rng: &mut R) -> Self { $g(Fr::rand(rng)) } }
        impl Mul<Fr> for $g { type Output = $g; fn mul(self, s: Fr) -> $g { $g(self.0 * s) } }
        impl<'a> Mul<&'a Fr> for $g { type Output = $g; fn mul(self, s: &'a Fr) -> $g { $g(self.0 * s) } }
        impl MulAssign<Fr> for $g { fn mul_assign(&mut self, s: Fr) { self.0 *= s } }
        impl Add<$a> for $g { type Output = $g; fn add(self, o: $a) -> $g { $g(self.0 + o.0) } }
        impl Sub<$a> for $g { type Output = $g; fn sub(self, o: $a) -> $g { $g(self.0 - o.0) } }
        impl AddAssign<$a> for $g { fn add_assign(&mut self, o: $a) { self.0 += o.0 } }
        impl SubAssign<$a> for $g { fn sub_assign(&mut self, o: $a) { self.0 -= o.0 } }
        impl Neg for $a { type Output = $a; fn neg(self) -> $a { $a(-self.0) } }
        impl Add<$a> for $a { type Output = $g; fn add(self, o: $a) -> $g { $g(self.0 + o.0) } }
        impl Sub<$a> for $a { type Output = $g; fn sub(self, o: $a) -> $g { $g(self.0 - o.0) } }
        impl Add<$g> for $a { type Output = $g; fn add(self, o: $g) -> $g { $g(self.0 + o.0) } }
        impl Mul<Fr> for $a { type Output = $g; fn mul(self, s: Fr) -> $g { $g(self.0 * s) } }
        impl From<$a> for $g { fn from(a: $a) -> $g { $g(a.0) } }
        impl From<$g> for $a { fn from(g: $g) -> $a { $a(g.0) } }
        impl PrimeGroup for $g { type ScalarField = Fr; fn generator() -> Self { $g(Fr(1)) } }
        impl ScalarMul for $g { type MulBase = $a; }
        impl VariableBaseMSM for $g {}
        impl CurveGroup for $g { type Affine = $a; }
        impl AffineRepr for $a { type ScalarField = Fr; type Group = $g; fn zero() -> Self { $a(Fr(0)) } fn generator() -> Self { $a(Fr(1)) } }
    };
}
group!(G1, G1Affine);
group!(G2, G2Affine);
macro_rules! prepared {
    ($p:ident: $($t:ty)*) => {
        pub struct $p(Fr);
        $(impl From<$t> for $p { fn from(x: $t) -> Self { $p(x.0) } }
        impl<'a> From<&'a $t> for $p { fn from(x: &'a $t) -> Self { $p(x.0) } })*
    };
}
prepared!(P1: G1 G1Affine);
prepared!(P2: G2 G2Affine);
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Toy;
impl Pairing for Toy {
    type ScalarField = Fr;
    type G1 = G1;
    type G1Affine = G1Affine;
    type G1Prepared = P1;
    type G2 = G2;
    type G2Affine = G2Affine;
    type G2Prepared = P2;
    type TargetField = Fr;
    fn pair(p: P1, q: P2) -> Fr { p.0 * q.0 }
    fn scale(t: Fr, s: Fr) -> Fr { t * s }
}
