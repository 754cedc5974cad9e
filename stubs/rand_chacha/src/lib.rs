//! ChaCha generators as ideal generators: the output is a function of the seed and block number, and counts as
//! fresh randomness exactly when the seed itself came from the operating system.
pub use rand_core;
use rand_core::block::{BlockRng, BlockRngCore};
use rand_core::{CryptoRng, Error, RngCore, SeedableRng};

#[derive(Clone, Copy)]
pub struct Array64<T>([T; 64]);
impl<T: Default + Copy> Default for Array64<T> { fn default() -> Self { Self([T::default(); 64]) } }
impl<T> AsRef<[T]> for Array64<T> { fn as_ref(&self) -> &[T] { &self.0 } }
impl<T> AsMut<[T]> for Array64<T> { fn as_mut(&mut self) -> &mut [T] { &mut self.0 } }
impl<T> core::fmt::Debug for Array64<T> { fn fmt(&self, _: &mut core::fmt::Formatter) -> core::fmt::Result { Ok(()) } }

fn expand(tag: u8, seed: &[u8; 32], ctr: u64, good: bool, out: &mut [u8; 256]) {
    if good {
        // independent of everything else, like the generator it stands for
        sy::entropy(out);
        return;
    }
    let mut inp = [0u8; 41];
    inp[..32].copy_from_slice(seed);
    inp[32..40].copy_from_slice(&ctr.to_le_bytes());
    inp[40] = tag;
    #[cfg(target_arch = "riscv64")]
    sy::uf("chacha", &inp, out);
    #[cfg(not(target_arch = "riscv64"))]
    {
        let mut h: u64 = 0xcbf29ce484222325;
        for b in inp { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
        for c in out.chunks_mut(8) {
            h = h.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = h;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^= z >> 31;
            c.copy_from_slice(&z.to_le_bytes());
        }
    }
}

macro_rules! imp {
    ($core:ident, $rng:ident, $tag:expr) => {
        #[derive(Clone, PartialEq, Eq, Debug)]
        pub struct $core { seed: [u8; 32], ctr: u64, good: bool }
        impl BlockRngCore for $core {
            type Item = u32;
            type Results = Array64<u32>;
            fn generate(&mut self, r: &mut Self::Results) {
                let mut b = [0u8; 256];
                expand($tag, &self.seed, self.ctr, self.good, &mut b);
                self.ctr += 1;
                for (i, x) in r.0.iter_mut().enumerate() { *x = u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]); }
            }
        }
        impl SeedableRng for $core {
            type Seed = [u8; 32];
            fn from_seed(seed: [u8; 32]) -> Self { $core { good: sy::is_new_seed(&seed), seed, ctr: 0 } }
        }
        impl CryptoRng for $core {}
        #[derive(Clone, Debug)]
        pub struct $rng { rng: BlockRng<$core> }
        impl SeedableRng for $rng {
            type Seed = [u8; 32];
            fn from_seed(seed: [u8; 32]) -> Self { $rng { rng: BlockRng::new($core::from_seed(seed)) } }
        }
        impl RngCore for $rng {
            fn next_u32(&mut self) -> u32 { self.rng.next_u32() }
            fn next_u64(&mut self) -> u64 { self.rng.next_u64() }
            fn fill_bytes(&mut self, b: &mut [u8]) { self.rng.fill_bytes(b) }
            fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> { self.rng.try_fill_bytes(b) }
        }
        impl $rng {
            pub fn get_seed(&self) -> [u8; 32] { self.rng.core.seed }
        }
        impl CryptoRng for $rng {}
        impl PartialEq for $rng {
            fn eq(&self, o: &Self) -> bool { self.rng.core == o.rng.core && self.rng.index() == o.rng.index() }
        }
        impl Eq for $rng {}
    };
}
imp!(ChaCha8Core, ChaCha8Rng, 8);
imp!(ChaCha12Core, ChaCha12Rng, 12);
imp!(ChaCha20Core, ChaCha20Rng, 20);
pub type ChaChaCore = ChaCha20Core;
pub type ChaChaRng = ChaCha20Rng;
