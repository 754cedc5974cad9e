//! Ideal witness key encapsulation: what the callers of zkenc-core hand over is recorded, ciphertexts and keys are
//! arbitrary byte strings, and a decapsulation yields the key recorded for its ciphertext exactly when the harness
//! says that the statement is met.
#![allow(static_mut_refs)]
use ark_bn254::Fr;
use ark_relations::gr1cs::{ConstraintSynthesizer, ConstraintSystem, LinearCombination};
use ark_serialize::*;
use std::marker::PhantomData;

#[derive(Debug)]
pub enum Error { SynthesisError(String), InvalidWitness, InvalidPublicInputs, SerializationError }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("error") } }
impl std::error::Error for Error {}

pub struct Call {
    pub instance: Vec<Fr>,
    pub witness: Vec<Fr>,
    pub n_instance: usize,
    pub n_witness: usize,
    pub rows: Vec<[LinearCombination<Fr>; 3]>,
    pub synthesized: bool,
    pub ct: Vec<u8>,
    pub key: [u8; 32],
    /// encapsulation: the generator handed over gives fresh randomness
    pub fresh: bool,
    pub random: Option<usize>,
    /// decapsulation: the ciphertext is one that was recorded
    pub known: bool,
}
pub struct Ideal {
    pub encaps: Vec<Call>,
    pub decaps: Vec<Call>,
    pub ct_len: usize,
    /// does the next decapsulation of a recorded ciphertext succeed
    pub accept: bool,
    /// does a ciphertext that was not recorded deserialize / decapsulate
    pub foreign_parses: bool,
    pub foreign_key: Option<[u8; 32]>,
    pub encap_fails: bool,
}
static mut I: Ideal = Ideal { encaps: Vec::new(), decaps: Vec::new(), ct_len: 3, accept: true, foreign_parses: false, foreign_key: None, encap_fails: false };
pub fn ideal() -> &'static mut Ideal { unsafe { &mut I } }

#[derive(Clone, Debug, PartialEq)]
pub struct Ciphertext<E> { bytes: Vec<u8>, known: Option<usize>, e: PhantomData<E> }
impl<E> CanonicalSerialize for Ciphertext<E> {
    fn serialize_with_mode<W: Write>(&self, mut w: W, _: Compress) -> Result<(), SerializationError> { w.write_all(&self.bytes)?; Ok(()) }
    fn serialized_size(&self, _: Compress) -> usize { self.bytes.len() }
}
impl<E> CanonicalDeserialize for Ciphertext<E> {
    fn deserialize_with_mode<D: Read>(mut r: D, _: Compress, _: Validate) -> Result<Self, SerializationError> {
        let mut b = Vec::new();
        r.read_to_end(&mut b)?;
        for (i, c) in ideal().encaps.iter().enumerate() {
            // like the real format, it ends by itself: what follows is not looked at
            if b.len() >= c.ct.len() && sy::fork(sy::eq(&b[..c.ct.len()], &c.ct)) {
                return Ok(Ciphertext { bytes: c.ct.clone(), known: Some(i), e: PhantomData });
            }
        }
        if ideal().foreign_parses { Ok(Ciphertext { bytes: b, known: None, e: PhantomData }) } else { Err(SerializationError::InvalidData) }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
pub struct Key(pub [u8; 32]);
impl Key {
    pub fn new(bytes: [u8; 32]) -> Self { Self(bytes) }
    pub fn as_bytes(&self) -> &[u8; 32] { &self.0 }
}
fn synthesize<C: ConstraintSynthesizer<Fr>>(circuit: C) -> Call {
    let cs = ConstraintSystem::<Fr>::new_ref();
    let ok = circuit.generate_constraints(cs.clone()).is_ok();
    let b = cs.borrow().unwrap();
    Call {
        instance: b.assignments.instance_assignment.clone(), witness: b.assignments.witness_assignment.clone(),
        n_instance: b.num_instance_variables(), n_witness: b.num_witness_variables(), rows: b.rows().to_vec(), synthesized: ok,
        ct: Vec::new(), key: [0; 32], fresh: false, random: None, known: false,
    }
}
pub fn encap<E, C, R>(circuit: C, rng: &mut R) -> Result<(Ciphertext<E>, Key), Error>
where C: ConstraintSynthesizer<Fr>, R: rand::RngCore {
    let mut c = synthesize(circuit);
    let mut r = [0u8; 32];
    rng.fill_bytes(&mut r);
    c.random = sy::last_entropy(&r);
    c.fresh = c.random.is_some();
    if ideal().encap_fails { return Err(Error::SerializationError); }
    c.ct = sy::bytes(ideal().ct_len);
    c.key = sy::array();
    let out = (Ciphertext { bytes: c.ct.clone(), known: Some(ideal().encaps.len()), e: PhantomData }, Key(c.key));
    ideal().encaps.push(c);
    Ok(out)
}
pub fn decap<E, C>(circuit: C, ct: &Ciphertext<E>) -> Result<Key, Error>
where C: ConstraintSynthesizer<Fr> {
    let mut c = synthesize(circuit);
    c.ct = ct.bytes.clone();
    c.known = ct.known.is_some();
    let ok = c.synthesized;
    ideal().decaps.push(c);
    if !ok { return Err(Error::SynthesisError("missing".into())); }
    match ct.known {
        Some(i) if ideal().accept => Ok(Key(ideal().encaps[i].key)),
        Some(_) => Err(Error::InvalidWitness),
        None => ideal().foreign_key.map(Key).ok_or(Error::InvalidPublicInputs),
    }
}
pub fn verify_ciphertext<E>(_: &Ciphertext<E>, _: &[Fr]) -> bool { true }
