//! Polynomials over the integers modulo 17 in normal form: equal polynomials become the same term.
use crate::term::{FxSet, T};
use std::collections::BTreeMap;

/// monomial (atoms with exponents, sorted) to non-zero coefficient; every atom stands for a value below 17
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Poly(pub BTreeMap<Vec<(T, u8)>, u8>);

impl Poly {
    pub fn constant(k: u8) -> Poly {
        let mut m = BTreeMap::new();
        if k != 0 { m.insert(vec![], k); }
        Poly(m)
    }
    pub fn atom(t: T) -> Poly {
        Poly([(vec![(t, 1)], 1)].into_iter().collect())
    }
    pub fn as_const(&self) -> Option<u8> {
        if self.0.is_empty() { return Some(0); }
        if self.0.len() == 1 { self.0.get(&vec![]).copied() } else { None }
    }
    pub fn as_atom(&self) -> Option<T> {
        if self.0.len() != 1 { return None; }
        let (m, c) = self.0.iter().next().unwrap();
        if *c == 1 && m.len() == 1 && m[0].1 == 1 { Some(m[0].0) } else { None }
    }
    pub fn atoms(&self) -> Vec<T> {
        let mut v: Vec<T> = self.0.keys().flat_map(|m| m.iter().map(|x| x.0)).collect();
        v.sort();
        v.dedup();
        v
    }
    /// self + k * o
    pub fn add(&self, o: &Poly, k: u32) -> Poly {
        let mut r = self.0.clone();
        for (m, c) in &o.0 {
            let e = r.entry(m.clone()).or_insert(0);
            *e = ((*e as u32 + k * *c as u32) % 17) as u8;
            if *e == 0 { r.remove(m); }
        }
        Poly(r)
    }
    pub fn mul(&self, o: &Poly, units: &FxSet<T>) -> Poly {
        let mut r: BTreeMap<Vec<(T, u8)>, u8> = BTreeMap::new();
        for (m, c) in &self.0 {
            for (n, d) in &o.0 {
                let mut e: BTreeMap<T, u32> = BTreeMap::new();
                for (t, k) in m.iter().chain(n) { *e.entry(*t).or_insert(0) += *k as u32; }
                // x^17 = x always, and x^16 = 1 for x known not to be zero
                let mono: Vec<(T, u8)> = e.into_iter()
                    .map(|(t, k)| (t, if units.contains(&t) { k % 16 } else if k > 16 { (k - 1) % 16 + 1 } else { k } as u8))
                    .filter(|x| x.1 > 0).collect();
                let z = r.entry(mono.clone()).or_insert(0);
                *z = ((*z as u32 + *c as u32 * *d as u32) % 17) as u8;
                if *z == 0 { r.remove(&mono); }
            }
        }
        Poly(r)
    }
    /// of a monomial in units
    pub fn inverse(&self, units: &FxSet<T>) -> Option<Poly> {
        if self.0.len() != 1 { return None; }
        let (m, c) = self.0.iter().next().unwrap();
        if !m.iter().all(|x| units.contains(&x.0)) { return None; }
        let i = (1..17u32).find(|i| i * *c as u32 % 17 == 1).unwrap() as u8;
        Some(Poly([(m.iter().map(|(t, e)| (*t, (16 - e % 16) % 16)).filter(|x| x.1 > 0).collect(), i)].into_iter().collect()))
    }
}
