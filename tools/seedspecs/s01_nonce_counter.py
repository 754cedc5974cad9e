id = "s01-nonce-counter"
prop = "C01"
needs = "two encryptions in one process; the first is indistinguishable from the original"
breaks = "only the first nonce of a process comes from the operating system's randomness, later ones are the previous nonce plus one"
C = "packages/zkenc-cli/src/crypto.rs"
edits = [(C, "    let nonce = Aes256Gcm::generate_nonce(&mut OsRng);\n", "    let nonce = next_nonce();\n"),
(C, "/// Decrypt data using AES-256-GCM\n", '''/// Draw the base nonce once and count up from it, so that no nonce can repeat
fn next_nonce() -> Nonce<<Aes256Gcm as AeadCore>::NonceSize> {
    static STATE: std::sync::Mutex<Option<[u8; 12]>> = std::sync::Mutex::new(None);
    let mut state = STATE.lock().unwrap();
    let nonce = match state.take() {
        None => Aes256Gcm::generate_nonce(&mut OsRng).into(),
        Some(mut last) => {
            for byte in last.iter_mut().rev() {
                *byte = byte.wrapping_add(1);
                if *byte != 0 {
                    break;
                }
            }
            last
        }
    };
    *state = Some(nonce);
    nonce.into()
}

/// Decrypt data using AES-256-GCM
''')]
main = MODS + '''
fn main() {
    let a = crypto::encrypt_gcm(&[7; 32], b"x").unwrap();
    let b = crypto::encrypt_gcm(&[7; 32], b"x").unwrap();
    let n = |d: &[u8]| { let mut v = [0u8; 16]; v[4..].copy_from_slice(&d[..12]); u128::from_be_bytes(v) };
    assert!(n(&b).wrapping_sub(n(&a)) > 1000, "predictable nonce");
}
'''
