//! C17: the synthesized constraint system.
use crate::circ::*;
use crate::circuit::CircomCircuit;
use crate::files::*;
use ark_bn254::{Bn254, Fr};
use ark_relations::gr1cs::*;
use ark_serialize::CanonicalSerialize;
use std::collections::HashMap;
use zkenc_core::ideal;

const SHAPES: [(u32, u32, u32); 7] = [(0, 0, 1), (0, 1, 2), (1, 0, 3), (1, 1, 4), (0, 2, 5), (2, 1, 6), (0, 0, 3)];
fn values(c: &Circ) -> (Vec<Vec<u8>>, Vec<Fr>) {
    let b: Vec<Vec<u8>> = (0..c.wires).map(|_| sy::bytes(32)).collect();
    let v = b.iter().map(|x| fr(x)).collect();
    (b, v)
}
fn cli(c: &Circ, vals: &[Fr]) {
    std::fs::write("c.r1cs", r1cs(c, &[1, 2])).unwrap();
    let Ok(mut k) = CircomCircuit::from_r1cs("c.r1cs") else { return sy::check(false, "C17 a well-formed circuit is rejected") };
    sy::check(k.n_public_inputs() == c.out + c.inp && k.n_constraints() as usize == c.cons.len(), "C17 reported counts");
    let alone = c.cons.is_empty();
    let missing = if alone { sy::pick(c.wires as u64 + 1) as u32 } else { 0 };
    let mut m = HashMap::new();
    for w in 0..c.wires { if missing == 0 || w != missing { m.insert(w, vals[w as usize]); } }
    let single = alone && sy::pick(2) == 1;
    if single { for (w, v) in m.iter() { k.set_wire(*w, *v); } } else { k.set_witness(m); }
    let cs = ConstraintSystem::<Fr>::new_ref();
    let r = k.generate_constraints(cs.clone());
    let b = cs.borrow().unwrap();
    if missing == 0 || missing >= c.wires {
        sy::check(r.is_ok(), "C17 synthesis fails");
        same_values(c, vals, &b.assignments.instance_assignment, &b.assignments.witness_assignment, "C17");
        same_rows(c, b.rows(), "C17");
        sy::reach("c17 cli");
    } else {
        sy::check(matches!(r, Err(SynthesisError::AssignmentMissing)), "C17 a missing value is not reported");
        sy::reach("c17 missing");
    }
}
fn js(c: &Circ, vals: &[Fr], bytes: &[Vec<u8>]) {
    ideal().foreign_parses = true;
    ideal().foreign_key = Some([7; 32]);
    let r = crate::js::wasm_decap(&r1cs(c, &[1, 2]), &wtns(32, &[9; 32], bytes, &[1, 2]), b"ct");
    sy::check(r.is_ok(), "C17 synthesis fails");
    let d = &ideal().decaps[0];
    sy::check(d.synthesized, "C17 synthesis fails");
    same_values(c, vals, &d.instance, &d.witness, "C17 js");
    same_rows(c, &d.rows, "C17 js");
    sy::reach("c17 js");
}
/// case: shape, then number of constraints, then terms per combination
pub fn c17_synth() {
    let c = sy::case();
    let (o, i, w) = SHAPES[(c % 8) as usize];
    let nc = (c / 8 % 4) as usize;
    let t = (c / 32 % 4) + 1;
    let fs = [32usize, 8, 1, 31][(c / 128 % 4) as usize];
    let two = if t == 3 { sy::pick(3) as usize } else { 3 };
    let len = |j| if j == two { 2 } else { sy::pick(t.min(2)) as usize };
    let lens: Vec<[usize; 3]> = (0..nc).map(|_| [len(0), len(1), len(2)]).collect();
    let k = circ(o, i, w, fs, &lens);
    let (b, v) = values(&k);
    if c / 512 == 0 { cli(&k, &v) } else { js(&k, &v, &b) }
}
/// many wires and constraints
pub fn c17_many() {
    let c = sy::case() as u32;
    let (n, is_js) = (c % 1000, c >= 1000);
    let mut k = circ(3, n / 2, n + 5, 32, &[]);
    for i in 0..n {
        let x = |j: u32| vec![((i * 7 + j * 3) % (n + 5), vec![(i + j) as u8; 32]), ((i + j) % (n + 5), vec![j as u8 + 1; 32])];
        k.cons.push([x(0), x(1), x(2)]);
    }
    let v: Vec<Vec<u8>> = (0..k.wires).map(|i| if i % 17 == 3 { sy::bytes(32) } else { vec![i as u8; 32] }).collect();
    let f: Vec<Fr> = v.iter().map(|x| fr(x)).collect();
    if is_js { js(&k, &f, &v) } else {
        std::fs::write("c.r1cs", r1cs(&k, &[2, 1])).unwrap();
        let mut q = CircomCircuit::from_r1cs("c.r1cs").unwrap();
        q.set_witness(f.iter().enumerate().map(|(i, x)| (i as u32, *x)).collect());
        let cs = ConstraintSystem::<Fr>::new_ref();
        sy::check(q.generate_constraints(cs.clone()).is_ok(), "C17 synthesis fails");
        let b = cs.borrow().unwrap();
        same_values(&k, &f, &b.assignments.instance_assignment, &b.assignments.witness_assignment, "C17");
        same_rows(&k, b.rows(), "C17");
        sy::reach("c17 cli");
    }
}
/// C23: section orders, public wires only when encapsulating, values modulo the prime
pub fn c23_use() {
    let c = sy::case();
    let (o, i, w) = SHAPES[(c % 8) as usize];
    let orders: [(&[usize], &[usize]); 6] = [(&[1, 2, 3], &[1, 2]), (&[2, 1], &[2, 1]), (&[3, 2, 12, 1], &[11, 1, 2]), (&[12, 1, 10, 2], &[1, 13, 2]), (&[2, 3, 1, 11], &[2, 11, 1]), (&[1, 2], &[1, 2, 14])];
    let (ro, wo) = orders[(c / 8 % 6) as usize];
    let n8 = [32usize, 8, 31][(c / 64 % 3) as usize];
    let k = circ(o, i, w, 32, &[[1, 1, 1]]);
    let b: Vec<Vec<u8>> = (0..w).map(|_| sy::bytes(n8)).collect();
    let v: Vec<Fr> = b.iter().map(|x| fr(x)).collect();
    let (rf, wf) = (r1cs(&k, ro), wtns(n8, &vec![1; n8], &b, wo));
    let e = crate::js::wasm_encap(&rf, &wf);
    let Ok(e) = e else { return sy::check(false, "C23 encapsulation rejects well-formed bytes") };
    let l = &ideal().encaps[0];
    let n = (o + i) as usize;
    sy::check(l.instance.len() == n + 1, "C23 public values when encapsulating");
    for x in 1..=n { sy::check(sy::eq(&l.instance[x].to_bytes(), &v[x].to_bytes()), "C23 public values when encapsulating"); }
    sy::check(l.witness.is_empty(), "C23 a private value is used when encapsulating");
    sy::check(sy::eq(&e.ciphertext(), &l.ct) && sy::eq(&e.key(), &l.key), "C23 result of encapsulation");
    sy::check(l.fresh, "C33 encapsulation does not use fresh system randomness");
    let ct = e.ciphertext();
    match crate::js::wasm_decap(&rf, &wf, &ct) {
        Ok(key) => sy::check(sy::eq(&key, &l.key), "C23 result of decapsulation"),
        Err(_) => sy::check(false, "C23 decapsulation rejects well-formed bytes"),
    }
    let d = &ideal().decaps[0];
    same_values(&k, &v, &d.instance, &d.witness, "C23");
    same_rows(&k, &d.rows, "C23");
    sy::check(sy::eq(&d.ct, &l.ct), "C23 ciphertext handed over");
    sy::reach("c23");
}
/// a witness of another length, a ciphertext that is not one, a refused witness
pub fn c23_refused() {
    let c = sy::case() as usize;
    let k = circ(1, 1, 4, 32, &[[1, 0, 1]]);
    let nv = [0usize, 1, 3, 5, 6, 4, 4, 4][c];
    let b: Vec<Vec<u8>> = (0..nv).map(|_| sy::bytes(32)).collect();
    let (rf, wf) = (r1cs(&k, &[1, 2]), wtns(32, &[1; 32], &b, &[1, 2]));
    let mut ct = sy::bytes(3);
    ideal().foreign_parses = c != 5;
    ideal().foreign_key = if c == 6 { None } else { Some([1; 32]) };
    if c == 7 {
        let full: Vec<Vec<u8>> = (0..4).map(|_| sy::bytes(32)).collect();
        ct = crate::js::wasm_encap(&rf, &wtns(32, &[1; 32], &full, &[1, 2])).unwrap().ciphertext();
        ideal().accept = false;
    }
    sy::check(crate::js::wasm_decap(&rf, &wf, &ct).is_err(), "C23 a decapsulation that must fail succeeds");
    let _ = Vec::<u8>::new().serialize_compressed(&mut vec![]);
    let _ = Bn254;
    sy::reach("c23 refused");
}
fn limits() {
    sy::alloc_limit(1 << 20);
    sy::step_limit(6_000_000);
}
fn both(r: &[u8], w: &[u8]) {
    limits();
    ideal().foreign_parses = true;
    ideal().foreign_key = Some([1; 32]);
    let e = crate::js::wasm_encap(r, w).is_ok();
    let d = crate::js::wasm_decap(r, w, &[1, 2]).is_ok();
    sy::alloc_limit(u64::MAX);
    sy::reach(if e { "c24 encapsulated" } else { "c24 rejected" });
    if d { sy::reach("c24 decapsulated") }
}
/// any bytes
pub fn c24_any() {
    let c = sy::case() as usize;
    let n = c % 64;
    let good = circ(0, 1, 2, 1, &[[1, 0, 0]]);
    match c / 64 {
        0 => both(&sy::bytes(n), b"wtns"),
        1 => { let mut f = b"r1cs\x01\0\0\0".to_vec(); f.extend_from_slice(&sy::bytes(n)); both(&f, b"wtns") }
        2 => both(&r1cs(&good, &[1, 2]), &sy::bytes(n)),
        _ => { let mut f = b"wtns\x02\0\0\0".to_vec(); f.extend_from_slice(&sy::bytes(n)); both(&r1cs(&good, &[1, 2]), &f) }
    }
}
/// every value, the small ones one by one
fn any(x: u64) -> u64 {
    for v in 0..200 { if sy::fork(x == v) { return v; } }
    x
}
struct Numbers(usize);
impl Numbers {
    fn w32(&self, f: &mut Vec<u8>, on: &[usize], v: u32) { let x = if on.contains(&self.0) { sy::u32() } else { v }; p32(f, x) }
    fn size32(&self, f: &mut Vec<u8>, on: &[usize], v: u32) { let x = if on.contains(&self.0) { any(sy::u32() as u64) as u32 } else { v }; p32(f, x) }
    fn size64(&self, f: &mut Vec<u8>, on: &[usize], v: u64) { let x = if on.contains(&self.0) { any(sy::u64()) } else { v }; p64(f, x) }
    fn kind(&self, f: &mut Vec<u8>, v: u32) { let x = if self.0 == 1 { [1, 2, 9][sy::pick(3) as usize] } else { v }; p32(f, x) }
}
/// arbitrary bytes when they are few
fn some(n: usize) -> Vec<u8> { if n < 32 { sy::bytes(n) } else { (0..n).map(|i| (i % 7) as u8).collect() } }
/// a circuit file, one number (or all counts) arbitrary
pub fn c24_circuit() {
    let c = sy::case() as usize;
    let fs = [1usize, 2, 32][c % 3];
    let n = Numbers(c / 3);
    let mut f = b"r1cs".to_vec();
    n.w32(&mut f, &[0], 1);
    n.w32(&mut f, &[0], 3);
    n.kind(&mut f, 1);
    n.size64(&mut f, &[2], 32 + fs as u64);
    n.size32(&mut f, &[3], fs as u32);
    f.extend_from_slice(&some(fs));
    n.w32(&mut f, &[4, 9], 3);
    n.w32(&mut f, &[5, 9], 1);
    n.w32(&mut f, &[5, 9], 1);
    f.extend_from_slice(&sy::bytes(12));
    n.w32(&mut f, &[6, 9], 1);
    n.kind(&mut f, 7);
    n.size64(&mut f, &[7], 2);
    f.extend_from_slice(&sy::bytes(2));
    n.kind(&mut f, 2);
    n.size64(&mut f, &[11], (4 + fs as u64) + 12);
    n.w32(&mut f, &[8, 9], 1);
    n.w32(&mut f, &[10], 1);
    f.extend_from_slice(&some(fs));
    n.w32(&mut f, &[8], 0);
    n.w32(&mut f, &[8], 0);
    both(&f, &wtns(32, &[1; 32], &[vec![1; 32], sy::bytes(32), sy::bytes(32)], &[1, 2]));
}
/// a witness file, one number (or all of them) arbitrary
pub fn c24_witness() {
    let c = sy::case() as usize;
    let fs = [1usize, 8, 32][c % 3];
    let n = Numbers(c / 3);
    let mut f = b"wtns".to_vec();
    n.w32(&mut f, &[0], 2);
    n.w32(&mut f, &[0], 3);
    n.kind(&mut f, 1);
    n.size64(&mut f, &[2], 8 + fs as u64);
    n.size32(&mut f, &[3, 8], fs as u32);
    f.extend_from_slice(&some(fs));
    n.w32(&mut f, &[4, 8], 2);
    n.kind(&mut f, 7);
    n.size64(&mut f, &[5], 3);
    f.extend_from_slice(&sy::bytes(3));
    n.kind(&mut f, 2);
    n.size64(&mut f, &[7], 2 * fs as u64);
    f.extend_from_slice(&some(fs));
    f.extend_from_slice(&some(fs));
    let k = circ(0, 1, 2, 1, &[[1, 0, 0]]);
    both(&r1cs(&k, &[1, 2]), &f);
}
/// cut anywhere
pub fn c24_truncated() {
    let c = sy::case() as usize;
    let k = circ(0, 1, 2, 1, &[[1, 0, 1]]);
    let rf = r1cs(&k, [&[1, 2][..], &[2, 1, 3], &[12, 1, 2]][c % 3]);
    let wf = wtns(32, &[1; 32], &[vec![1; 32], sy::bytes(32)], [&[1, 2][..], &[2, 1], &[12, 1, 2]][c % 3]);
    if c / 3 == 0 {
        let cut = sy::pick(rf.len() as u64) as usize;
        both(&rf[..cut], &wf)
    } else {
        let cut = sy::pick(wf.len() as u64) as usize;
        both(&rf, &wf[..cut])
    }
}
/// any ciphertext bytes
pub fn c24_ciphertext() {
    let n = sy::case() as usize;
    limits();
    let k = circ(0, 1, 2, 1, &[[1, 0, 1]]);
    let (rf, wf) = (r1cs(&k, &[1, 2]), wtns(32, &[1; 32], &[vec![1; 32], sy::bytes(32)], &[1, 2]));
    let e = crate::js::wasm_encap(&rf, &wf).unwrap();
    let ct = sy::bytes(n);
    ideal().foreign_parses = sy::pick(2) == 1;
    let r = crate::js::wasm_decap(&rf, &wf, &ct);
    sy::reach(if r.is_ok() { "c24 opened" } else { "c24 refused" });
    let _ = e;
}
