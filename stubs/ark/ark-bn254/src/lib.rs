//! The scalar field of BN254 by its values: residues below the prime, with addition, reduction, parsing and
//! serialization exact; products exact natively and an uninterpreted function on the symbolic target.
use ark_ff::{AdditiveGroup, BigInt, FftField, Field, PrimeField};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Read, SerializationError, Validate, Write};
use ark_std::UniformRand;
use ark_ff::{One, Zero};

/// 21888242871839275222246405745257275088548364400416034343698204186575808495617
pub const P: [u64; 4] = [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029];
const P2: [u64; 4] = dbl(P);
const P4: [u64; 4] = dbl(P2);
const fn dbl(a: [u64; 4]) -> [u64; 4] {
    [a[0] << 1, a[1] << 1 | a[0] >> 63, a[2] << 1 | a[1] >> 63, a[3] << 1 | a[2] >> 63]
}

#[derive(Copy, Clone, Default, PartialEq, Eq)]
pub struct Fr([u64; 4]);
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Bn254;

fn sub(a: [u64; 4], b: [u64; 4]) -> ([u64; 4], u64) {
    let mut r = [0u64; 4];
    let mut c = 0u64;
    for i in 0..4 {
        let (x, c1) = a[i].overflowing_sub(b[i]);
        let (y, c2) = x.overflowing_sub(c);
        r[i] = y;
        c = c1 as u64 | c2 as u64;
    }
    (r, c)
}
fn add(a: [u64; 4], b: [u64; 4]) -> [u64; 4] {
    let mut r = [0u64; 4];
    let mut c = 0u64;
    for i in 0..4 {
        let (x, c1) = a[i].overflowing_add(b[i]);
        let (y, c2) = x.overflowing_add(c);
        r[i] = y;
        c = c1 as u64 | c2 as u64;
    }
    r
}
/// `if m == 1 { a } else { b }` without a branch
fn sel(m: u64, a: [u64; 4], b: [u64; 4]) -> [u64; 4] {
    let f = |i: usize| core::hint::select_unpredictable(m == 1, a[i], b[i]);
    [f(0), f(1), f(2), f(3)]
}
fn csub(a: [u64; 4], m: [u64; 4]) -> [u64; 4] {
    let (d, borrow) = sub(a, m);
    sel(borrow, a, d)
}
fn reduce(a: [u64; 4]) -> [u64; 4] { csub(csub(csub(a, P4), P2), P) }

impl Fr {
    fn add_(&self, o: &Fr) -> Fr { Fr(csub(add(self.0, o.0), P)) }
    fn neg_(&self) -> Fr {
        let nz = (self.0[0] | self.0[1] | self.0[2] | self.0[3] != 0) as u64;
        Fr(sel(nz, sub(P, self.0).0, [0; 4]))
    }
    fn exact_mul(&self, o: &Fr) -> Fr {
        let mut r = Fr([0; 4]);
        for w in self.0.iter().rev() {
            for i in (0..64).rev() {
                r = r.add_(&r);
                if w >> i & 1 == 1 { r = r.add_(o); }
            }
        }
        r
    }
    #[cfg(not(target_arch = "riscv64"))]
    fn mul_(&self, o: &Fr) -> Fr { self.exact_mul(o) }
    #[cfg(target_arch = "riscv64")]
    fn mul_(&self, o: &Fr) -> Fr {
        for (a, b) in [(self, o), (o, self)] {
            if sy::must(a.0 == [0; 4]) { return Fr([0; 4]); }
            if sy::must(a.0 == [1, 0, 0, 0]) { return *b; }
        }
        let mut i = [0u8; 64];
        for k in 0..4 {
            i[8 * k..8 * k + 8].copy_from_slice(&self.0[k].to_le_bytes());
            i[32 + 8 * k..40 + 8 * k].copy_from_slice(&o.0[k].to_le_bytes());
        }
        let mut out = [0u8; 32];
        sy::uf("fr-mul", &i, &mut out);
        Fr(reduce(limbs(&out)))
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        let mut b = [0u8; 32];
        for k in 0..4 { b[8 * k..8 * k + 8].copy_from_slice(&self.0[k].to_le_bytes()); }
        b
    }
}
fn limbs(b: &[u8]) -> [u64; 4] {
    let mut r = [0u64; 4];
    for k in 0..4 { r[k] = u64::from_le_bytes([b[8 * k], b[8 * k + 1], b[8 * k + 2], b[8 * k + 3], b[8 * k + 4], b[8 * k + 5], b[8 * k + 6], b[8 * k + 7]]); }
    r
}
ark_ff::field_ops!(Fr);
impl From<u64> for Fr { fn from(x: u64) -> Self { Fr([x, 0, 0, 0]) } }
impl From<u128> for Fr { fn from(x: u128) -> Self { Fr([x as u64, (x >> 64) as u64, 0, 0]) } }
impl Zero for Fr { fn zero() -> Self { Fr([0; 4]) } fn is_zero(&self) -> bool { self.0 == [0; 4] } }
impl Field for Fr {
    const ZERO: Self = Fr([0; 4]);
    const ONE: Self = Fr([1, 0, 0, 0]);
    fn inverse(&self) -> Option<Self> {
        if self.is_zero() { return None; }
        let (e, _) = sub(P, [2, 0, 0, 0]);
        Some(self.pow(e))
    }
}
impl FftField for Fr {}
impl PrimeField for Fr {
    type BigInt = BigInt<4>;
    const MODULUS: BigInt<4> = BigInt(P);
    const MODULUS_BIT_SIZE: u32 = 254;
    fn from_bigint(b: BigInt<4>) -> Option<Self> { if sub(b.0, P).1 == 1 { Some(Fr(b.0)) } else { None } }
    fn into_bigint(self) -> BigInt<4> { BigInt(self.0) }
    fn from_le_bytes_mod_order(b: &[u8]) -> Self {
        let mut r = Fr([0; 4]);
        let n = b.len().saturating_sub(32);
        let mut lo = [0u8; 32];
        for x in b[32.min(b.len())..].iter().rev() {
            for _ in 0..8 { r = r.add_(&r); }
            r = r.add_(&Fr::from(*x as u64));
        }
        for _ in 0..256 * (n > 0) as usize { r = r.add_(&r); }
        lo[..b.len().min(32)].copy_from_slice(&b[..b.len().min(32)]);
        let l = Fr(reduce(limbs(&lo)));
        if n == 0 { l } else { r.add_(&l) }
    }
}
impl From<BigInt<4>> for Fr { fn from(b: BigInt<4>) -> Self { Fr::from_bigint(b).unwrap() } }
impl From<Fr> for BigInt<4> { fn from(f: Fr) -> Self { BigInt(f.0) } }
impl UniformRand for Fr {
    fn rand<R: rand::RngCore + ?Sized>(rng: &mut R) -> Self {
        let mut b = [0u8; 32];
        rng.fill_bytes(&mut b);
        Fr::from_le_bytes_mod_order(&b)
    }
}
impl std::fmt::Display for Fr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Fr") } }
impl std::fmt::Debug for Fr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Fr") } }
/// decimal integers as num-bigint reads them, reduced modulo the prime
impl std::str::FromStr for Fr {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        let mut b = s.as_bytes();
        let mut neg = false;
        if b.first() == Some(&b'-') {
            neg = true;
            b = &b[1..];
            if b.first() == Some(&b'+') { return Err(()); }
        } else if b.first() == Some(&b'+') {
            b = &b[1..];
        }
        if b.is_empty() || b[0] == b'_' { return Err(()); }
        let mut r = Fr([0; 4]);
        for c in b {
            if *c == b'_' { continue; }
            if !c.is_ascii_digit() { return Err(()); }
            let d = r.add_(&r);
            let q = d.add_(&d);
            r = q.add_(&q).add_(&d).add_(&Fr::from((*c - b'0') as u64));
        }
        Ok(if neg { r.neg_() } else { r })
    }
}
impl CanonicalSerialize for Fr {
    fn serialize_with_mode<W: Write>(&self, mut w: W, _: Compress) -> Result<(), SerializationError> { w.write_all(&self.to_bytes())?; Ok(()) }
    fn serialized_size(&self, _: Compress) -> usize { 32 }
}
impl CanonicalDeserialize for Fr {
    fn deserialize_with_mode<D: Read>(mut r: D, _: Compress, _: Validate) -> Result<Self, SerializationError> {
        let mut b = [0u8; 32];
        r.read_exact(&mut b)?;
        Fr::from_bigint(BigInt(limbs(&b))).ok_or(SerializationError::InvalidData)
    }
}
