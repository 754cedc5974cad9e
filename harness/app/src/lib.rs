//! Harnesses over the CLI commands and the WASM bindings, compiled from /repo's working tree against the ideal core.
#![allow(dead_code)]
#[path = "../../../build/repo/packages/zkenc-cli/src/circuit.rs"]
pub mod circuit;
#[path = "../../../build/repo/packages/zkenc-cli/src/commands.rs"]
pub mod commands;
#[path = "../../../build/repo/packages/zkenc-cli/src/crypto.rs"]
pub mod crypto;
#[path = "../../../build/repo/packages/zkenc-cli/src/r1cs.rs"]
pub mod r1cs;
#[path = "../../../build/repo/packages/zkenc-cli/src/serializable.rs"]
pub mod serializable;
#[path = "../../../build/repo/packages/zkenc-cli/src/sym_parser.rs"]
pub mod sym_parser;
#[path = "../../../build/repo/packages/zkenc-cli/src/witness.rs"]
pub mod witness;

#[path = "../../../build/repo/packages/zkenc-js/src/lib.rs"]
pub mod js;

mod circ;
mod files;
mod h_cmd;
mod h_synth;
mod h_wtns;

sy::harnesses! {
    fn c14_layout() { h_wtns::c14_layout() }
    fn c14_shapes() { h_wtns::c14_shapes() }
    fn c14_large() { h_wtns::c14_large() }
    fn c14_field() { h_wtns::c14_field() }
    fn c14_any() { h_wtns::c14_any() }
    fn c14_body() { h_wtns::c14_body() }
    fn c14_fields() { h_wtns::c14_fields() }
    fn c14_truncated() { h_wtns::c14_truncated() }
    fn c14_missing() { h_wtns::c14_missing() }
    fn c17_synth() { h_synth::c17_synth() }
    fn c17_many() { h_synth::c17_many() }
    fn c23_use() { h_synth::c23_use() }
    fn c23_refused() { h_synth::c23_refused() }
    fn c24_any() { h_synth::c24_any() }
    fn c24_circuit() { h_synth::c24_circuit() }
    fn c24_witness() { h_synth::c24_witness() }
    fn c24_truncated() { h_synth::c24_truncated() }
    fn c24_ciphertext() { h_synth::c24_ciphertext() }
    fn c15_bind() { h_cmd::c15_bind() }
    fn c15_partial() { h_cmd::c15_partial() }
    fn c15_gap() { h_cmd::c15_gap() }
    fn c16_number() { h_cmd::c16_number() }
    fn c16_edges() { h_cmd::c16_edges() }
    fn c16_string() { h_cmd::c16_string() }
    fn c16_any_string() { h_cmd::c16_any_string() }
    fn c16_nested() { h_cmd::c16_nested() }
    fn c16_refused() { h_cmd::c16_refused() }
    fn c12_encrypt() { h_cmd::c12_encrypt() }
    fn c12_decrypt() { h_cmd::c12_decrypt() }
    fn c13_any() { h_cmd::c13_any() }
    fn c13_header() { h_cmd::c13_header() }
    fn c32_fails() { h_cmd::c32_fails() }
    fn c32_outputs() { h_cmd::c32_outputs() }
    fn c33_fresh() { h_cmd::c33_fresh() }
}
