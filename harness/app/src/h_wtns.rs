//! C14: witness files.
use crate::files::*;
use crate::witness::WitnessFile;
use ark_bn254::Fr;
use ark_serialize::CanonicalDeserialize;

const FILE: &str = "w.wtns";
fn same(w: &WitnessFile, prime: &[u8], vals: &[Vec<u8>]) {
    sy::check(sy::eq(&w.prime, prime), "C14 prime");
    sy::check(w.n_witness as usize == vals.len() && w.n_wires() as usize == vals.len(), "C14 witness count");
    sy::check(w.assignments.len() == vals.len(), "C14 number of values");
    for (i, v) in vals.iter().enumerate() {
        match w.assignments.get(&(i as u32)) {
            Some(b) => sy::check(sy::eq(b, v), "C14 value of a wire"),
            None => sy::check(false, "C14 value of a wire missing"),
        }
    }
}
fn read_back(fs: usize, n: usize, order: &[usize]) {
    let prime = sy::bytes(fs);
    let vals: Vec<Vec<u8>> = (0..n).map(|_| sy::bytes(fs)).collect();
    std::fs::write(FILE, wtns(fs, &prime, &vals, order)).unwrap();
    match WitnessFile::from_file(FILE) {
        Ok(w) => same(&w, &prime, &vals),
        Err(_) => sy::check(false, "C14 a well-formed file is rejected"),
    }
    sy::reach("c14");
}
/// section orders and unknown sections
pub fn c14_layout() {
    let sets: [&[usize]; 5] = [&[1, 2], &[1, 2, 10], &[1, 2, 15], &[1, 2, 11, 9000], &[1, 2, 12, 13]];
    let ps = perms(sets[sy::case() as usize]);
    let order = ps[sy::pick(ps.len() as u64) as usize].clone();
    read_back(4, 3, &order);
}
/// field sizes and counts
pub fn c14_shapes() {
    let c = sy::case() as usize;
    read_back(c & 63, c >> 6, &[1, 2]);
}
/// values and the reader's buffer
pub fn c14_large() {
    let k = sy::case() as usize;
    read_back(32, 6, &[8192 - 120 + 4 * k, 2, 1]);
}
/// field elements: exactly the canonical encodings
pub fn c14_field() {
    let n = sy::case() as usize;
    let vals: Vec<Vec<u8>> = (0..n).map(|_| sy::bytes(32)).collect();
    std::fs::write(FILE, wtns(32, &[7; 32], &vals, &[1, 2])).unwrap();
    let w = WitnessFile::from_file(FILE).unwrap();
    let want: Vec<Option<Fr>> = vals.iter().map(|v| Fr::deserialize_uncompressed(&v[..]).ok()).collect();
    match w.to_field_elements::<Fr>() {
        Ok(m) => {
            sy::check(m.len() == n, "C14 number of field elements");
            for (i, x) in want.iter().enumerate() {
                sy::check(x.is_some() && m.get(&(i as u32)) == x.as_ref(), "C14 field element of a wire");
            }
            sy::reach("c14 field");
        }
        Err(_) => {
            sy::check(want.iter().any(|x| x.is_none()), "C14 canonical field elements rejected");
            sy::reach("c14 not canonical");
        }
    }
}
fn robust(f: &[u8]) {
    sy::alloc_limit(1 << 20);
    sy::step_limit(4_000_000);
    std::fs::write(FILE, f).unwrap();
    let want = wtns_values(f);
    let got = WitnessFile::from_file(FILE);
    sy::alloc_limit(u64::MAX);
    match (got, want) {
        (Ok(w), Ok(Some((_, vals)))) => { let p = w.prime.clone(); same(&w, &p, &vals); sy::reach("c14 accepted") }
        (Ok(_), Ok(None)) => sy::reach("c14 unspecified"),
        (Ok(_), Err(())) => sy::check(false, "C14 an incomplete file is accepted"),
        (Err(_), Ok(Some(_))) => sy::check(false, "C14 a well-formed file is rejected"),
        (Err(_), _) => sy::reach("c14 rejected"),
    }
}
pub fn c14_any() {
    let f = sy::bytes(sy::case() as usize);
    robust(&f);
}
pub fn c14_body() {
    let mut f = b"wtns\x02\0\0\0".to_vec();
    f.extend_from_slice(&sy::bytes(sy::case() as usize));
    robust(&f);
}
/// a three-section file, one number (or all of them) arbitrary
pub fn c14_fields() {
    let c = sy::case() as usize;
    let (fs, which) = ([1usize, 2, 8][c % 3], c / 3);
    let w32 = |f: &mut Vec<u8>, on: bool, v: u32| { let x = if on { sy::u32() } else { v }; p32(f, x) };
    let w64 = |f: &mut Vec<u8>, on: bool, v: u64| { let x = if on { sy::u64() } else { v }; p64(f, x) };
    let mut f = b"wtns".to_vec();
    w32(&mut f, which == 0, 2);
    w32(&mut f, which == 0, 3);
    w32(&mut f, which == 1, 1);
    w64(&mut f, which == 2, 8 + fs as u64);
    w32(&mut f, which == 3 || which == 8, fs as u32);
    f.extend_from_slice(&sy::bytes(fs));
    w32(&mut f, which == 4 || which == 8, 2);
    w32(&mut f, which == 1, 7);
    w64(&mut f, which == 5, 3);
    f.extend_from_slice(&sy::bytes(3));
    w32(&mut f, which == 6, 2);
    w64(&mut f, which == 7 || which == 8, 2 * fs as u64);
    f.extend_from_slice(&sy::bytes(2 * fs));
    robust(&f);
}
pub fn c14_truncated() {
    let c = sy::case() as usize;
    let vals = vec![sy::bytes(2), sy::bytes(2)];
    let f = wtns(2, &sy::bytes(2), &vals, [&[1, 2][..], &[2, 1], &[1, 12, 2], &[12, 2, 1]][c]);
    let cut = sy::pick(f.len() as u64) as usize;
    std::fs::write(FILE, &f[..cut]).unwrap();
    sy::check(WitnessFile::from_file(FILE).is_err(), "C14 a truncated file is accepted");
    sy::check(WitnessFile::from_file("absent.wtns").is_err(), "C14 a missing file is accepted");
    sy::reach("c14 truncated");
}
/// a missing section, or a count that does not match the data
pub fn c14_missing() {
    let c = sy::case() as usize;
    let vals = vec![sy::bytes(2), sy::bytes(2)];
    let sets: [&[usize]; 5] = [&[], &[1], &[2], &[12, 1], &[2, 12]];
    let mut f = wtns(2, &[1, 2], &vals, if c < 5 { sets[c] } else { &[1, 2] });
    if c >= 5 {
        let n = sy::u32();
        sy::assume(n != 2);
        let k = 12 + 12 + 4 + 2;
        f[k..k + 4].copy_from_slice(&n.to_le_bytes());
    }
    std::fs::write(FILE, &f).unwrap();
    sy::check(WitnessFile::from_file(FILE).is_err(), "C14 an incomplete file is accepted");
    sy::reach("c14 missing");
}
