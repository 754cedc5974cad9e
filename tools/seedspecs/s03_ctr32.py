id = "s03-ctr32"
prop = "C03"
needs = "an IV whose last four bytes are near 2^32, so that the counter carries into the next byte"
breaks = "the counter wraps after 32 bits, so the output is not the documented 64-bit counter mode (and not readable by other tools)"
C = "packages/zkenc-cli/src/crypto.rs"
edits = [(C, "use ctr::Ctr64BE;", "use ctr::Ctr32BE;"), (C, "type Aes256Ctr = Ctr64BE<Aes256>;", "type Aes256Ctr = Ctr32BE<Aes256>;")]
main = MODS + '''
fn main() {
    use aes::cipher::{BlockEncrypt, KeyInit};
    let mut d = vec![9u8; 16 + 32];
    for i in 12..16 { d[i] = 255; }
    let p = crypto::decrypt_ctr(&[3; 32], &d).unwrap();
    let c = aes::Aes256::new(&[3u8; 32].into());
    let mut iv = [9u8; 16];
    for i in 12..16 { iv[i] = 255; }
    for k in 0..2 {
        let mut b = aes::Block::from(iv);
        c.encrypt_block(&mut b);
        for i in 0..16 { assert_eq!(p[16 * k + i], 9 ^ b[i]); }
        let n = u64::from_be_bytes(iv[8..].try_into().unwrap()).wrapping_add(1);
        iv[8..].copy_from_slice(&n.to_be_bytes());
    }
}
'''
