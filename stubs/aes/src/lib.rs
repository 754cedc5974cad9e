//! AES as an uninterpreted block function of key and block (used only in symbolic builds).
pub use cipher;
use cipher::consts::{U16, U24, U32, U8};
use cipher::generic_array::GenericArray;
use cipher::{AlgorithmName, BlockCipher, Key, KeyInit, KeySizeUser};
pub type Block = GenericArray<u8, U16>;
pub type Block8 = GenericArray<Block, U8>;

macro_rules! imp {
    ($n:ident, $ne:ident, $nd:ident, $ks:ty, $kl:expr, $s:expr) => {
        #[derive(Clone)]
        pub struct $n { key: [u8; $kl] }
        pub type $ne = $n;
        pub type $nd = $n;
        impl $n {
            #[doc(hidden)]
            pub fn raw_key(&self) -> &[u8] { &self.key }
        }
        impl BlockCipher for $n {}
        impl KeySizeUser for $n { type KeySize = $ks; }
        impl KeyInit for $n {
            fn new(key: &Key<Self>) -> Self {
                let mut k = [0u8; $kl];
                k.copy_from_slice(key);
                $n { key: k }
            }
        }
        cipher::impl_simple_block_encdec!(
            $n, U16, state, block,
            encrypt: {
                let mut inp = [0u8; $kl + 16];
                inp[..$kl].copy_from_slice(&state.key);
                inp[$kl..].copy_from_slice(block.get_in());
                let mut out = [0u8; 16];
                sy::uf($s, &inp, &mut out);
                block.get_out().copy_from_slice(&out);
            }
            decrypt: {
                let mut inp = [0u8; $kl + 16];
                inp[..$kl].copy_from_slice(&state.key);
                inp[$kl..].copy_from_slice(block.get_in());
                let mut out = [0u8; 16];
                sy::uf(concat!($s, "inv"), &inp, &mut out);
                block.get_out().copy_from_slice(&out);
            }
        );
        impl core::fmt::Debug for $n { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("Aes") } }
        impl AlgorithmName for $n { fn write_alg_name(f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("Aes") } }
    };
}
imp!(Aes128, Aes128Enc, Aes128Dec, U16, 16, "aes128");
imp!(Aes192, Aes192Enc, Aes192Dec, U24, 24, "aes192");
imp!(Aes256, Aes256Enc, Aes256Dec, U32, 32, "aes256");
