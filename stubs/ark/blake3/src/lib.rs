//! BLAKE3 as an ideal hash: an uninterpreted function of the whole input (natively some function of it).
pub const OUT_LEN: usize = 32;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Hash([u8; 32]);
impl Hash {
    pub fn as_bytes(&self) -> &[u8; 32] { &self.0 }
}
impl From<Hash> for [u8; 32] { fn from(h: Hash) -> Self { h.0 } }
#[cfg(target_arch = "riscv64")]
fn f(name: &str, i: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    sy::uf(name, i, &mut o);
    o
}
#[cfg(not(target_arch = "riscv64"))]
fn f(name: &str, i: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    for k in 0..4u64 {
        let mut h = 0xcbf29ce484222325u64 ^ (k << 17);
        for b in name.bytes().chain(i.iter().copied()) { h = (h ^ b as u64).wrapping_mul(0x100000001b3).rotate_left(29) ^ (h >> 31); }
        o[8 * k as usize..8 * k as usize + 8].copy_from_slice(&h.to_le_bytes());
    }
    o
}
pub fn hash(i: &[u8]) -> Hash { Hash(f("blake3", i)) }
pub fn keyed_hash(key: &[u8; 32], i: &[u8]) -> Hash { Hash(f("blake3-keyed", &[key, i].concat())) }
pub fn derive_key(context: &str, i: &[u8]) -> [u8; 32] { f(&format!("blake3-derive {context}"), i) }
#[derive(Clone, Debug)]
pub struct Hasher { name: String, data: Vec<u8> }
impl Hasher {
    pub fn new() -> Self { Hasher { name: "blake3".into(), data: vec![] } }
    pub fn new_derive_key(context: &str) -> Self { Hasher { name: format!("blake3-derive {context}"), data: vec![] } }
    pub fn new_keyed(key: &[u8; 32]) -> Self { Hasher { name: "blake3-keyed".into(), data: key.to_vec() } }
    pub fn update(&mut self, i: &[u8]) -> &mut Self { self.data.extend_from_slice(i); self }
    pub fn finalize(&self) -> Hash { Hash(f(&self.name, &self.data)) }
}
impl Default for Hasher { fn default() -> Self { Self::new() } }
impl std::io::Write for Hasher {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.update(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
