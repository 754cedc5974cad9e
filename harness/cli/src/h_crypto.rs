use crate::crypto::*;
use aes_gcm::aead::{Aead, KeyInit};
use aes_gcm::{Aes256Gcm, Nonce};

/// nonce `b` must have been drawn from the randomness source, and not from bytes in `used`
fn fresh(b: &[u8], used: &mut Vec<(usize, usize)>, label: &str) {
    let mut from = 0;
    loop {
        match sy::find_entropy(b, from) {
            None => { sy::check(false, label); return; }
            Some(i) => {
                if used.iter().all(|(s, e)| i >= *e || i + b.len() <= *s) { used.push((i, i + b.len())); return; }
                from = i + 1;
            }
        }
    }
}

pub fn c01_gcm() {
    let n = sy::case() as usize;
    let key = sy::bytes(32);
    let mut used = vec![];
    for round in 0..2 {
        let m = if round == 0 { n } else { n / 2 };
        let msg = sy::bytes(m);
        let out = match encrypt_gcm(&key, &msg) { Ok(o) => o, Err(_) => { sy::check(false, "C01 encryption fails for a 32-byte key"); return; } };
        sy::check(out.len() == m + 28, "C01 output is 28 bytes longer than the message");
        fresh(&out[..12], &mut used, "C01 the nonce is fresh randomness");
        let want = Aes256Gcm::new_from_slice(&key).unwrap().encrypt(Nonce::from_slice(&out[..12]), &msg[..]).unwrap();
        sy::check(sy::eq(&out[12..], &want), "C01 output is the AES-256-GCM ciphertext and tag under the key and nonce");
        match decrypt_gcm(&key, &out) {
            Ok(p) => sy::check(sy::eq(&p, &msg), "C01 decryption returns the message"),
            Err(_) => sy::check(false, "C01 decryption of a genuine ciphertext fails"),
        }
        // data produced by any other AES-256-GCM implementation decrypts as well
        let nonce = sy::bytes(12);
        let ct = Aes256Gcm::new_from_slice(&key).unwrap().encrypt(Nonce::from_slice(&nonce), &msg[..]).unwrap();
        let mut data = nonce.clone();
        data.extend_from_slice(&ct);
        match decrypt_gcm(&key, &data) {
            Ok(p) => sy::check(sy::eq(&p, &msg), "C01 decryption follows the documented layout"),
            Err(_) => sy::check(false, "C01 decryption follows the documented layout"),
        }
    }
    sy::reach("c01");
}

pub fn c02_tamper() {
    let n = sy::case() as usize;
    let key = sy::bytes(32);
    let msg = sy::bytes(n);
    let mut data = encrypt_gcm(&key, &msg).unwrap();
    let delta = sy::bytes(n + 28);
    let zero = vec![0u8; n + 28];
    sy::assume(!sy::eq(&delta, &zero));
    for (d, x) in data.iter_mut().zip(&delta) { *d ^= x; }
    sy::check(decrypt_gcm(&key, &data).is_err(), "C02 changed data is rejected");
    sy::reach("c02 tamper");
}
pub fn c02_wrong_key() {
    let n = sy::case() as usize;
    let key = sy::bytes(32);
    let other = sy::bytes(32);
    sy::assume(!sy::eq(&key, &other));
    let msg = sy::bytes(n);
    let data = encrypt_gcm(&key, &msg).unwrap();
    sy::check(decrypt_gcm(&other, &data).is_err(), "C02 a different key is rejected");
    sy::reach("c02 wrong key");
}
pub fn c02_truncated() {
    let n = sy::case() as usize;
    let key = sy::bytes(32);
    let msg = sy::bytes(n);
    let mut data = encrypt_gcm(&key, &msg).unwrap();
    let l = data.len();
    for k in 0..l {
        sy::check(decrypt_gcm(&key, &data[..k]).is_err(), "C02 a truncated ciphertext is rejected");
    }
    for k in 1..l {
        sy::check(decrypt_gcm(&key, &data[k..]).is_err(), "C02 a ciphertext without its first bytes is rejected");
    }
    data.push(sy::u8());
    sy::check(decrypt_gcm(&key, &data).is_err(), "C02 an extended ciphertext is rejected");
    sy::reach("c02 truncated");
}
pub fn c02_garbage() {
    let n = sy::case() as usize;
    let key = sy::bytes(32);
    let data = sy::bytes(n);
    sy::check(decrypt_gcm(&key, &data).is_err(), "C02 data never encrypted is rejected");
    sy::reach("c02 garbage");
}
pub fn c02_key_length() {
    let n = sy::case() as usize;
    let n = if n >= 32 { n + 1 } else { n };
    let key = sy::bytes(n);
    let msg = sy::bytes(3);
    sy::check(encrypt_gcm(&key, &msg).is_err(), "C02 encryption rejects keys that are not 32 bytes");
    let data = sy::bytes(40);
    sy::check(decrypt_gcm(&key, &data).is_err(), "C02 decryption rejects keys that are not 32 bytes");
    // also when the ciphertext is genuine for a 32-byte key related to this one
    let mut full = key.clone();
    full.resize(32, 0);
    let good = encrypt_gcm(&full, &msg).unwrap();
    sy::check(decrypt_gcm(&key, &good).is_err(), "C02 decryption rejects keys that are not 32 bytes");
    sy::reach("c02 key length");
}

/// The CTR stream from the definition: AES of IV, then of IV with its low 64 bits incremented, ...
fn ctr_ref(key: &[u8], iv: &[u8], msg: &[u8]) -> Vec<u8> {
    use cipher::BlockEncrypt;
    let c = aes::Aes256::new_from_slice(key).unwrap();
    let mut hi = [0u8; 8];
    hi.copy_from_slice(&iv[..8]);
    let mut lo = [0u8; 8];
    lo.copy_from_slice(&iv[8..16]);
    let lo = u64::from_be_bytes(lo);
    let mut out = vec![];
    for (i, ch) in msg.chunks(16).enumerate() {
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&hi);
        b[8..].copy_from_slice(&lo.wrapping_add(i as u64).to_be_bytes());
        let mut blk = cipher::generic_array::GenericArray::clone_from_slice(&b);
        c.encrypt_block(&mut blk);
        for (j, m) in ch.iter().enumerate() { out.push(m ^ blk[j]); }
    }
    out
}

pub fn c03_ctr() {
    let n = sy::case() as usize;
    let key = sy::bytes(32);
    let mut used = vec![];
    for round in 0..2 {
        let m = if round == 0 { n } else { n / 2 };
        let msg = sy::bytes(m);
        let out = match encrypt_ctr(&key, &msg) { Ok(o) => o, Err(_) => { sy::check(false, "C03 encryption fails for a 32-byte key"); return; } };
        sy::check(out.len() == m + 16, "C03 output is the IV and as many bytes as the message");
        fresh(&out[..16], &mut used, "C03 the IV is fresh randomness");
        let want = ctr_ref(&key, &out[..16], &msg);
        sy::check(sy::eq(&out[16..], &want), "C03 output is the CTR stream of the documented counter");
        match decrypt_ctr(&key, &out) {
            Ok(p) => sy::check(sy::eq(&p, &msg), "C03 decryption returns the message"),
            Err(_) => sy::check(false, "C03 decryption fails"),
        }
    }
    sy::reach("c03");
}
/// decryption under an arbitrary IV, in particular one whose counter wraps
pub fn c03_decrypt() {
    let n = sy::case() as usize;
    let key = sy::bytes(32);
    let iv = sy::bytes(16);
    let msg = sy::bytes(n);
    let mut data = iv.clone();
    data.extend_from_slice(&ctr_ref(&key, &iv, &msg));
    match decrypt_ctr(&key, &data) {
        Ok(p) => sy::check(sy::eq(&p, &msg), "C03 decryption under any IV"),
        Err(_) => sy::check(false, "C03 decryption under any IV"),
    }
    sy::reach("c03 any iv");
}
pub fn c03_errors() {
    let n = sy::case() as usize;
    let key = sy::bytes(32);
    let data = sy::bytes(n);
    let r = decrypt_ctr(&key, &data);
    sy::check(r.is_err() == (n < 16), "C03 data shorter than the IV is an error");
    if n != 32 {
        let bad = sy::bytes(n);
        let msg = sy::bytes(20);
        sy::check(encrypt_ctr(&bad, &msg).is_err(), "C03 keys that are not 32 bytes are an error");
        sy::check(decrypt_ctr(&bad, &msg).is_err(), "C03 keys that are not 32 bytes are an error");
    }
    sy::reach("c03 errors");
}
