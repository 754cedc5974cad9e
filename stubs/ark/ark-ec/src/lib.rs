//! The group and pairing traits the repository's algorithms are generic over.
use ark_ff::{AdditiveGroup, PrimeField};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use std::fmt::Debug;
use std::ops::*;
pub trait PrimeGroup: AdditiveGroup + Mul<Self::ScalarField, Output = Self> + for<'a> Mul<&'a Self::ScalarField, Output = Self> + MulAssign<Self::ScalarField> {
    type ScalarField: PrimeField;
    fn generator() -> Self;
    fn mul_bigint(&self, e: impl AsRef<[u64]>) -> Self {
        let mut r = Self::zero();
        for w in e.as_ref().iter().rev() { for i in (0..64).rev() { r = r + r; if w >> i & 1 == 1 { r += *self; } } }
        r
    }
}
pub trait ScalarMul: PrimeGroup {
    type MulBase: Copy + Send + Sync + Eq + Mul<Self::ScalarField, Output = Self> + Into<Self> + From<Self>;
    fn batch_convert_to_mul_base(b: &[Self]) -> Vec<Self::MulBase> { b.iter().map(|x| (*x).into()).collect() }
    fn batch_mul(self, v: &[Self::ScalarField]) -> Vec<Self::MulBase> { v.iter().map(|x| (self * *x).into()).collect() }
}
pub trait VariableBaseMSM: ScalarMul {
    fn msm_unchecked(bases: &[Self::MulBase], scalars: &[Self::ScalarField]) -> Self {
        let mut r = Self::zero();
        for (b, s) in bases.iter().zip(scalars) { r += *b * *s; }
        r
    }
    fn msm(bases: &[Self::MulBase], scalars: &[Self::ScalarField]) -> Result<Self, usize> {
        if bases.len() == scalars.len() { Ok(Self::msm_unchecked(bases, scalars)) } else { Err(bases.len().min(scalars.len())) }
    }
}
pub trait CurveGroup: PrimeGroup + Add<Self::Affine, Output = Self> + AddAssign<Self::Affine> + Sub<Self::Affine, Output = Self> + SubAssign<Self::Affine>
    + VariableBaseMSM + ScalarMul<MulBase = Self::Affine> + From<Self::Affine> + Into<Self::Affine>
{
    type Affine: AffineRepr<Group = Self, ScalarField = Self::ScalarField> + From<Self> + Into<Self>;
    fn into_affine(self) -> Self::Affine { self.into() }
    fn normalize_batch(v: &[Self]) -> Vec<Self::Affine> { v.iter().map(|x| (*x).into()).collect() }
}
pub trait AffineRepr: Copy + Clone + Debug + Default + PartialEq + Eq + Send + Sync + 'static + CanonicalSerialize + CanonicalDeserialize
    + Neg<Output = Self> + Add<Self, Output = Self::Group> + Sub<Self, Output = Self::Group> + Add<Self::Group, Output = Self::Group> + Mul<Self::ScalarField, Output = Self::Group>
{
    type ScalarField: PrimeField;
    type Group: CurveGroup<Affine = Self, ScalarField = Self::ScalarField> + From<Self> + Into<Self>;
    fn zero() -> Self;
    fn generator() -> Self;
    fn is_zero(&self) -> bool { *self == Self::zero() }
    fn into_group(self) -> Self::Group { self.into() }
    fn mul_bigint(&self, e: impl AsRef<[u64]>) -> Self::Group { self.into_group().mul_bigint(e) }
}
pub mod pairing {
    use super::*;
    pub trait Pairing: Sized + 'static + Copy + Debug + Sync + Send + Eq {
        type ScalarField: PrimeField;
        type G1: CurveGroup<ScalarField = Self::ScalarField, Affine = Self::G1Affine>;
        type G1Affine: AffineRepr<Group = Self::G1, ScalarField = Self::ScalarField>;
        type G1Prepared: From<Self::G1> + From<Self::G1Affine> + for<'a> From<&'a Self::G1> + for<'a> From<&'a Self::G1Affine>;
        type G2: CurveGroup<ScalarField = Self::ScalarField, Affine = Self::G2Affine>;
        type G2Affine: AffineRepr<Group = Self::G2, ScalarField = Self::ScalarField>;
        type G2Prepared: From<Self::G2> + From<Self::G2Affine> + for<'a> From<&'a Self::G2> + for<'a> From<&'a Self::G2Affine>;
        /// the target group, by exponents
        type TargetField: PrimeField;
        fn pair(p: Self::G1Prepared, q: Self::G2Prepared) -> Self::TargetField;
        fn scale(t: Self::TargetField, s: Self::ScalarField) -> Self::TargetField;
        fn multi_pairing(a: impl IntoIterator<Item = impl Into<Self::G1Prepared>>, b: impl IntoIterator<Item = impl Into<Self::G2Prepared>>) -> PairingOutput<Self> {
            a.into_iter().zip(b).fold(PairingOutput::zero(), |r, (p, q)| r + PairingOutput(Self::pair(p.into(), q.into())))
        }
        fn pairing(p: impl Into<Self::G1Prepared>, q: impl Into<Self::G2Prepared>) -> PairingOutput<Self> { PairingOutput(Self::pair(p.into(), q.into())) }
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub struct PairingOutput<P: Pairing>(P::TargetField);
    use ark_ff::Zero;
    impl<P: Pairing> Zero for PairingOutput<P> { fn zero() -> Self { Self(P::TargetField::zero()) } fn is_zero(&self) -> bool { self.0.is_zero() } }
    impl<P: Pairing> Default for PairingOutput<P> { fn default() -> Self { Self::zero() } }
    impl<P: Pairing> Add for PairingOutput<P> { type Output = Self; fn add(self, o: Self) -> Self { Self(self.0 + o.0) } }
    impl<'a, P: Pairing> Add<&'a Self> for PairingOutput<P> { type Output = Self; fn add(self, o: &'a Self) -> Self { Self(self.0 + o.0) } }
    impl<P: Pairing> Sub for PairingOutput<P> { type Output = Self; fn sub(self, o: Self) -> Self { Self(self.0 - o.0) } }
    impl<'a, P: Pairing> Sub<&'a Self> for PairingOutput<P> { type Output = Self; fn sub(self, o: &'a Self) -> Self { Self(self.0 - o.0) } }
    impl<P: Pairing> Neg for PairingOutput<P> { type Output = Self; fn neg(self) -> Self { Self(-self.0) } }
    impl<P: Pairing> AddAssign for PairingOutput<P> { fn add_assign(&mut self, o: Self) { self.0 += o.0 } }
    impl<P: Pairing> SubAssign for PairingOutput<P> { fn sub_assign(&mut self, o: Self) { self.0 -= o.0 } }
    impl<P: Pairing> Mul<P::ScalarField> for PairingOutput<P> { type Output = Self; fn mul(self, s: P::ScalarField) -> Self { Self(P::scale(self.0, s)) } }
    impl<P: Pairing> MulAssign<P::ScalarField> for PairingOutput<P> { fn mul_assign(&mut self, s: P::ScalarField) { self.0 = P::scale(self.0, s) } }
    impl<P: Pairing> std::iter::Sum for PairingOutput<P> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
    impl<P: Pairing> CanonicalSerialize for PairingOutput<P> {
        fn serialize_with_mode<W: ark_serialize::Write>(&self, w: W, c: ark_serialize::Compress) -> Result<(), ark_serialize::SerializationError> { self.0.serialize_with_mode(w, c) }
        fn serialized_size(&self, c: ark_serialize::Compress) -> usize { self.0.serialized_size(c) }
    }
    impl<P: Pairing> CanonicalDeserialize for PairingOutput<P> {
        fn deserialize_with_mode<D: ark_serialize::Read>(r: D, c: ark_serialize::Compress, v: ark_serialize::Validate) -> Result<Self, ark_serialize::SerializationError> { Ok(Self(P::TargetField::deserialize_with_mode(r, c, v)?)) }
    }
}
