//! Harnesses over the arkworks-independent CLI modules, compiled from /repo's working tree.
#![allow(dead_code)]
#[path = "../../../build/repo/packages/zkenc-cli/src/circom.rs"]
pub mod circom;
#[path = "../../../build/repo/packages/zkenc-cli/src/crypto.rs"]
pub mod crypto;
#[path = "../../../build/repo/packages/zkenc-cli/src/r1cs.rs"]
pub mod r1cs;
#[path = "../../../build/repo/packages/zkenc-cli/src/serializable.rs"]
pub mod serializable;
#[path = "../../../build/repo/packages/zkenc-cli/src/sym_parser.rs"]
pub mod sym_parser;

#[path = "../../../build/repo/packages/zkenc-core/src/serializable.rs"]
pub mod core_serializable;

mod h_crypto;
mod h_json;
mod h_ser;
use h_crypto as hc;
mod h_r1cs;
mod h_sym;

sy::harnesses! {
    fn c01_gcm() { hc::c01_gcm() }
    fn c02_tamper() { hc::c02_tamper() }
    fn c02_wrong_key() { hc::c02_wrong_key() }
    fn c02_truncated() { hc::c02_truncated() }
    fn c02_garbage() { hc::c02_garbage() }
    fn c02_key_length() { hc::c02_key_length() }
    fn c03_ctr() { hc::c03_ctr() }
    fn c03_decrypt() { hc::c03_decrypt() }
    fn c03_errors() { hc::c03_errors() }
    fn c04_sections() { h_r1cs::c04_sections() }
    fn c04_shapes() { h_r1cs::c04_shapes() }
    fn c04_terms() { h_r1cs::c04_terms() }
    fn c04_large() { h_r1cs::c04_large() }
    fn c04_buffer() { h_r1cs::c04_buffer() }
    fn c04_long() { h_r1cs::c04_long() }
    fn c05_any() { h_r1cs::c05_any() }
    fn c05_body() { h_r1cs::c05_body() }
    fn c05_fields() { h_r1cs::c05_fields() }
    fn c05_truncated() { h_r1cs::c05_truncated() }
    fn c05_missing() { h_r1cs::c05_missing() }
    fn c11_export() { h_r1cs::c11_export() }
    fn c06_any() { h_sym::c06_any() }
    fn c06_id() { h_sym::c06_id() }
    fn c06_boundary() { h_sym::c06_boundary() }
    fn c06_lines() { h_sym::c06_lines() }
    fn c06_many() { h_sym::c06_many() }
    fn c06_unicode() { h_sym::c06_unicode() }
    fn c07_any() { h_sym::c07_any() }
    fn c05_default_labels() { h_r1cs::c05_default_labels() }
    fn c08_values() { h_json::c08_values() }
    fn c08_numbers() { h_json::c08_numbers() }
    fn c08_strings() { h_json::c08_strings() }
    fn c08_keys() { h_json::c08_keys() }
    fn c08_long() { h_json::c08_long() }
    fn c08_rejects() { h_json::c08_rejects() }
    fn c08_any() { h_json::c08_any() }
    fn c09_roundtrip() { h_ser::c09_roundtrip() }
    fn c09_any() { h_ser::c09_any() }
    fn c09_mutated() { h_ser::c09_mutated() }
    fn c10_counts() { h_ser::c10_counts() }
    fn c10_bytes() { h_ser::c10_bytes() }
    fn c10_labels() { h_ser::c10_labels() }
    fn c10_witness() { h_ser::c10_witness() }
    fn c10_case() { h_ser::c10_case() }
}
