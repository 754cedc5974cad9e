//! AES-GCM as an ideal authenticated cipher (used only in symbolic builds).  The ciphertext is the message XORed
//! with an uninterpreted keystream of (algorithm, key, nonce), the tag an uninterpreted function of everything;
//! decryption succeeds exactly on what was encrypted before under the same key and nonce.
pub use aead::{self, AeadCore, AeadInPlace, Error, Key, KeyInit, KeySizeUser};
pub use aes;
use aead::generic_array::{ArrayLength, GenericArray};
use aes::{Aes128, Aes256};
use cipher::consts::{U0, U12, U16};
use cipher::Unsigned;
use core::marker::PhantomData;

pub type Nonce<N> = GenericArray<u8, N>;
pub type Tag<T = U16> = GenericArray<u8, T>;
pub trait TagSize: ArrayLength<u8> + Unsigned {}
impl<T: ArrayLength<u8> + Unsigned> TagSize for T {}
pub type Aes128Gcm = AesGcm<Aes128, U12>;
pub type Aes256Gcm = AesGcm<Aes256, U12>;

struct Entry { key: Vec<u8>, nonce: Vec<u8>, aad: Vec<u8>, ct: Vec<u8>, tag: Vec<u8> }
static mut LOG: Vec<Entry> = Vec::new();
#[allow(static_mut_refs)]
fn log() -> &'static mut Vec<Entry> { unsafe { &mut LOG } }

#[derive(Clone)]
pub struct AesGcm<A, N, T = U16> { key: Vec<u8>, p: PhantomData<(A, N, T)> }
impl<A: KeySizeUser, N, T> KeySizeUser for AesGcm<A, N, T> { type KeySize = A::KeySize; }
impl<A: KeySizeUser, N, T> KeyInit for AesGcm<A, N, T> {
    fn new(key: &Key<Self>) -> Self { AesGcm { key: key.to_vec(), p: PhantomData } }
}
impl<A, N: ArrayLength<u8>, T: TagSize> AeadCore for AesGcm<A, N, T> {
    type NonceSize = N;
    type TagSize = T;
    type CiphertextOverhead = U0;
}
fn keystream(key: &[u8], nonce: &[u8], buf: &mut [u8]) {
    let mut inp = key.to_vec();
    inp.extend_from_slice(nonce);
    inp.extend_from_slice(&[0; 4]);
    let l = inp.len();
    for (i, c) in buf.chunks_mut(16).enumerate() {
        inp[l - 4..].copy_from_slice(&(i as u32).to_le_bytes());
        let mut ks = [0u8; 16];
        sy::uf("gcm-keystream", &inp, &mut ks);
        for (b, k) in c.iter_mut().zip(ks) { *b ^= k; }
    }
}
impl<A, N: ArrayLength<u8>, T: TagSize> AeadInPlace for AesGcm<A, N, T> {
    fn encrypt_in_place_detached(&self, nonce: &Nonce<N>, aad: &[u8], buffer: &mut [u8]) -> Result<Tag<T>, Error> {
        keystream(&self.key, nonce, buffer);
        let mut inp = vec![aad.len() as u8];
        inp.extend_from_slice(&self.key);
        inp.extend_from_slice(nonce);
        inp.extend_from_slice(aad);
        inp.extend_from_slice(buffer);
        let mut tag = [0u8; 16];
        sy::uf("gcm-tag", &inp, &mut tag);
        let tag = Tag::<T>::clone_from_slice(&tag[..T::to_usize()]);
        log().push(Entry { key: self.key.clone(), nonce: nonce.to_vec(), aad: aad.to_vec(), ct: buffer.to_vec(), tag: tag.to_vec() });
        Ok(tag)
    }
    fn decrypt_in_place_detached(&self, nonce: &Nonce<N>, aad: &[u8], buffer: &mut [u8], tag: &Tag<T>) -> Result<(), Error> {
        let mut any = false;
        for e in log().iter() {
            if e.key.len() != self.key.len() || e.nonce.len() != nonce.len() || e.aad.len() != aad.len() || e.ct.len() != buffer.len() || e.tag.len() != tag.len() { continue; }
            any |= sy::eq(&e.key, &self.key) & sy::eq(&e.nonce, nonce) & sy::eq(&e.aad, aad) & sy::eq(&e.ct, buffer) & sy::eq(&e.tag, tag);
        }
        if sy::fork(any) {
            keystream(&self.key, nonce, buffer);
            Ok(())
        } else {
            Err(Error)
        }
    }
}
