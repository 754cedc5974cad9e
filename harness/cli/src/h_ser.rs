//! C09, C10: exported circuits, witnesses and test cases.
use crate::{core_serializable as core, serializable as cli};
use std::collections::HashMap;

pub struct Plain {
    n: [u32; 6],
    prime: Vec<u8>,
    cons: Vec<[Vec<(u32, Vec<u8>)>; 3]>,
    labels: Option<Vec<(u32, Vec<u8>)>>,
}
macro_rules! lib {
    ($m:ident, $l:ident) => {
        mod $m {
            use super::*;
            use super::$l as l;
            pub fn build(p: &Plain) -> l::SerializableCircuit {
                let lc = |t: &Vec<(u32, Vec<u8>)>| l::SerializableLC { factors: t.iter().map(|(w, c)| l::SerializableFactor { wire_id: *w, coefficient_bytes: c.clone() }).collect() };
                l::SerializableCircuit {
                    field_size: p.n[0], prime_bytes: p.prime.clone(), n_wires: p.n[1], n_pub_out: p.n[2], n_pub_in: p.n[3], n_prv_in: p.n[4], n_constraints: p.n[5],
                    constraints: p.cons.iter().map(|k| l::SerializableConstraint { a: lc(&k[0]), b: lc(&k[1]), c: lc(&k[2]) }).collect(),
                    wire_labels: p.labels.as_ref().map(|v| v.iter().map(|(w, s)| (*w, String::from_utf8(s.clone()).unwrap())).collect::<HashMap<u32, String>>()),
                }
            }
            pub fn same(g: &l::SerializableCircuit, p: &Plain, what: &str) {
                sy::check(g.field_size == p.n[0] && g.n_wires == p.n[1] && g.n_pub_out == p.n[2], what);
                sy::check(g.n_pub_in == p.n[3] && g.n_prv_in == p.n[4] && g.n_constraints == p.n[5], what);
                sy::check(sy::eq(&g.prime_bytes, &p.prime), what);
                sy::check(g.constraints.len() == p.cons.len(), what);
                for (a, b) in g.constraints.iter().zip(&p.cons) {
                    for (x, y) in [&a.a, &a.b, &a.c].into_iter().zip(b) {
                        sy::check(x.factors.len() == y.len(), what);
                        for (f, (w, c)) in x.factors.iter().zip(y) { sy::check(f.wire_id == *w && sy::eq(&f.coefficient_bytes, c), what); }
                    }
                }
                sy::check(g.wire_labels.is_some() == p.labels.is_some(), what);
                if let (Some(m), Some(v)) = (&g.wire_labels, &p.labels) {
                    sy::check(m.len() == v.len(), what);
                    for (w, s) in v { sy::check(m.get(w).map_or(false, |t| sy::eq(t.as_bytes(), s)), what); }
                }
            }
            pub fn witness(w: &[(u32, Vec<u8>)]) -> l::SerializableWitness { l::SerializableWitness { assignments: w.iter().cloned().collect() } }
            pub fn same_witness(g: &l::SerializableWitness, w: &[(u32, Vec<u8>)], what: &str) {
                sy::check(g.assignments.len() == w.len(), what);
                for (k, v) in w { sy::check(g.assignments.get(k).map_or(false, |t| sy::eq(t, v)), what); }
            }
            pub fn bincode(p: &Plain) -> Vec<u8> {
                let c = build(p);
                let b = match c.to_bincode() { Ok(b) => b, Err(_) => { sy::check(false, "C09 serialization fails"); vec![] } };
                match l::SerializableCircuit::from_bincode(&b) { Ok(g) => same(&g, p, "C09 circuit read back from bytes"), Err(_) => sy::check(false, "C09 reading back fails") }
                match c.save_bincode("x.bin") { Ok(()) => {}, Err(_) => sy::check(false, "C09 saving fails") }
                sy::check(sy::eq(&std::fs::read("x.bin").unwrap_or_default(), &b), "C09 the file holds the serialized bytes");
                match l::SerializableCircuit::load_bincode("x.bin") { Ok(g) => same(&g, p, "C09 circuit read back from a file"), Err(_) => sy::check(false, "C09 reading back fails") }
                b
            }
            pub fn read(b: &[u8]) -> Option<l::SerializableCircuit> { l::SerializableCircuit::from_bincode(b).ok() }
            pub fn json(p: &Plain) {
                let c = build(p);
                let t = match c.to_json() { Ok(b) => b, Err(_) => { sy::check(false, "C10 serialization fails"); return; } };
                match l::SerializableCircuit::from_json(&t) { Ok(g) => same(&g, p, "C10 circuit read back from JSON"), Err(_) => sy::check(false, "C10 reading back fails") }
                match c.save_json("x.json") { Ok(()) => {}, Err(_) => sy::check(false, "C10 saving fails") }
                match l::SerializableCircuit::load_json("x.json") { Ok(g) => same(&g, p, "C10 circuit read back from a file"), Err(_) => sy::check(false, "C10 reading back fails") }
            }
            pub fn json_witness(w: &[(u32, Vec<u8>)]) {
                let c = witness(w);
                let t = match c.to_json() { Ok(b) => b, Err(_) => { sy::check(false, "C10 serialization fails"); return; } };
                match l::SerializableWitness::from_json(&t) { Ok(g) => same_witness(&g, w, "C10 witness read back from JSON"), Err(_) => sy::check(false, "C10 reading back fails") }
                match c.save_json("w.json") { Ok(()) => {}, Err(_) => sy::check(false, "C10 saving fails") }
                match l::SerializableWitness::load_json("w.json") { Ok(g) => same_witness(&g, w, "C10 witness read back from a file"), Err(_) => sy::check(false, "C10 reading back fails") }
            }
            pub fn json_case(p: &Plain, w: &[(u32, Vec<u8>)], name: &[u8], desc: Option<&[u8]>) {
                let s = |b: &[u8]| String::from_utf8(b.to_vec()).unwrap();
                let c = l::SerializableTestCase { circuit: build(p), witness: witness(w), name: s(name), description: desc.map(s) };
                match c.save_json("t.json") { Ok(()) => {}, Err(_) => sy::check(false, "C10 saving fails") }
                match l::SerializableTestCase::load_json("t.json") {
                    Ok(g) => {
                        same(&g.circuit, p, "C10 test case read back");
                        same_witness(&g.witness, w, "C10 test case read back");
                        sy::check(sy::eq(g.name.as_bytes(), name), "C10 test case read back");
                        sy::check(g.description.is_some() == desc.is_some(), "C10 test case read back");
                        if let (Some(a), Some(b)) = (&g.description, desc) { sy::check(sy::eq(a.as_bytes(), b), "C10 test case read back"); }
                    }
                    Err(_) => sy::check(false, "C10 reading back fails"),
                }
            }
            pub fn reject_files() {
                sy::check(l::SerializableCircuit::load_json("absent").is_err() && l::SerializableWitness::load_json("absent").is_err() && l::SerializableTestCase::load_json("absent").is_err()
                    && l::SerializableCircuit::load_bincode("absent").is_err(), "C10 a missing file is accepted");
            }
        }
    };
}
lib!(of_core, core);
lib!(of_cli, cli);

fn ascii(n: usize) -> Vec<u8> {
    let v = sy::bytes(n);
    for b in &v { sy::assume(*b < 128); }
    v
}
fn labels(n: u64, len: usize) -> Vec<(u32, Vec<u8>)> {
    let v: Vec<(u32, Vec<u8>)> = (0..n).map(|_| (sy::u32(), ascii(len))).collect();
    for i in 0..v.len() { for j in 0..i { sy::assume(v[i].0 != v[j].0); } }
    v
}
fn plain(shape: u64) -> Plain {
    let lens: &[[usize; 3]] = match shape { 0 => &[], 1 => &[[1, 0, 2]], 2 => &[[0, 1, 1], [2, 1, 0]], _ => &[[3, 2, 1], [0, 0, 0], [1, 1, 1]] };
    let k = sy::pick(3) as usize * 4;
    Plain {
        n: [sy::u32(), sy::u32(), sy::u32(), sy::u32(), sy::u32(), sy::u32()],
        prime: sy::bytes(k),
        cons: lens.iter().map(|l| l.map(|n| (0..n).map(|_| (sy::u32(), sy::bytes(k))).collect())).collect(),
        labels: match sy::pick(4) { 0 => None, n => Some(labels(n - 1, n as usize)) },
    }
}
pub fn c09_roundtrip() {
    let p = plain(sy::case());
    let a = of_core::bincode(&p);
    let b = of_cli::bincode(&p);
    match of_cli::read(&a) { Some(g) => of_cli::same(&g, &p, "C09 the CLI reads what the core wrote"), None => sy::check(false, "C09 the CLI reads what the core wrote") }
    match of_core::read(&b) { Some(g) => of_core::same(&g, &p, "C09 the core reads what the CLI wrote"), None => sy::check(false, "C09 the core reads what the CLI wrote") }
    sy::reach("c09");
}
/// any bytes: an error or a circuit
pub fn c09_any() {
    let c = sy::case();
    let b = sy::bytes((c & 255) as usize);
    sy::alloc_limit(4 << 20);
    sy::step_limit(8_000_000);
    if c >> 8 == 0 { let _ = of_core::read(&b); } else { let _ = of_cli::read(&b); }
    sy::reach("c09 any");
}
/// any field of a serialized circuit replaced, any cut
pub fn c09_mutated() {
    let c = sy::case() as usize;
    let p = Plain { n: [8, 3, 1, 1, 1, 1], prime: vec![1; 4], cons: vec![[vec![(1, vec![5; 2])], vec![], vec![(2, vec![6; 2])]]], labels: Some(vec![(7, b"ab".to_vec())]) };
    let mut b = of_core::build(&p).to_bincode().unwrap();
    if c == 0 {
        let cut = sy::pick(b.len() as u64) as usize;
        sy::check(of_core::read(&b[..cut]).is_none(), "C09 truncated bytes are accepted");
        sy::check(of_cli::read(&b[..cut]).is_none(), "C09 truncated bytes are accepted");
    } else {
        let w = 8.min(b.len() - 4 * (c - 1).min(b.len() / 4));
        let at = (4 * (c - 1)).min(b.len() - w);
        b[at..at + w].copy_from_slice(&sy::bytes(w));
        sy::alloc_limit(4 << 20);
        let _ = of_core::read(&b);
        let _ = of_cli::read(&b);
    }
    sy::reach("c09 mutated");
}
/// numbers around every digit-count boundary
fn num(wide: bool) -> u32 {
    if !wide { return sy::pick(3) as u32 * 1009; }
    let b = [0u32, 90, 9_990, 99_990, 999_990, 4_294_967_280][sy::pick(6) as usize];
    let d = sy::u8();
    sy::assume(d < 16);
    b + d as u32
}
fn small(cons: usize, k: usize, lab: u64) -> Plain {
    Plain {
        n: [32, 7, 4_294_967_295, 0, 10, cons as u32],
        prime: sy::bytes(k),
        cons: (0..cons).map(|i| [(0..i + 1).map(|j| (1000 + j as u32, sy::bytes(k))).collect(), vec![], vec![(i as u32, vec![255, 0, i as u8])]]).collect(),
        labels: if lab == 0 { None } else { Some((0..lab - 1).map(|i| (i as u32 * 65537, ascii(2))).collect()) },
    }
}
pub fn c10_counts() {
    let c = sy::case() as usize;
    let mut p = small(1, 0, 0);
    if c < 6 { p.n[c] = num(true); } else if c == 6 { p.cons[0][0][0].0 = num(true); } else { p.labels = Some(vec![(num(true), b"l".to_vec())]); }
    of_core::json(&p);
    of_cli::json(&p);
    sy::reach("c10 counts");
}
pub fn c10_bytes() {
    let c = sy::case();
    let p = small((c & 3) as usize, (c >> 2 & 3) as usize, 0);
    of_core::json(&p);
    of_cli::json(&p);
    sy::reach("c10 bytes");
}
pub fn c10_labels() {
    let p = small(0, 1, sy::case());
    of_core::json(&p);
    of_cli::json(&p);
    sy::reach("c10 labels");
}
pub fn c10_witness() {
    let c = sy::case();
    let w: Vec<(u32, Vec<u8>)> = (0..c & 3).map(|i| (if i == 0 && c & 4 != 0 { 1_000_000 + num(true) % 4_000_000_000 } else { i as u32 * 3 }, sy::bytes(if c & 4 != 0 { 0 } else { 1 + i as usize % 2 }))).collect();
    of_core::json_witness(&w);
    of_cli::json_witness(&w);
    sy::reach("c10 witness");
}
pub fn c10_case() {
    let c = sy::case();
    let p = small(c as usize & 1, 0, 1);
    let w = vec![(0u32, vec![1u8, 0]), (9, sy::bytes(1))];
    let name = ascii((c & 3) as usize);
    let desc = ascii((c >> 2 & 3) as usize);
    let d = if c >> 4 & 1 == 1 { Some(&desc[..]) } else { None };
    if c >> 5 == 0 { of_core::json_case(&p, &w, &name, d); of_core::reject_files(); } else { of_cli::json_case(&p, &w, &name, d); of_cli::reject_files(); }
    sy::reach("c10 case");
}
