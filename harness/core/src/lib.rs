//! Harnesses over the core algorithms, compiled from /repo's working tree and run with a toy pairing.
#![allow(dead_code)]
#[path = "../../../build/repo/packages/zkenc-core/src/algorithm.rs"]
pub mod algorithm;
#[path = "../../../build/repo/packages/zkenc-core/src/data_structures.rs"]
pub mod data_structures;
#[path = "../../../build/repo/packages/zkenc-core/src/r1cs_to_qap.rs"]
mod r1cs_to_qap;
pub use algorithm::{decap, encap, verify_ciphertext, Error};
pub use data_structures::{Ciphertext, EncapKey, Key};

mod h_core;
sy::harnesses! {
    fn c18_agree() { h_core::c18_agree() }
    fn c18_synthesized() { h_core::c18_synthesized() }
    fn c19_decides() { h_core::c19_decides() }
    fn c20_qap() { h_core::c20_qap() }
    fn c21_public() { h_core::c21_public() }
    fn c21_random() { h_core::c21_random() }
    fn c22_verify() { h_core::c22_verify() }
    fn c34_encap() { h_core::c34_encap() }
    fn c34_decap() { h_core::c34_decap() }
}
