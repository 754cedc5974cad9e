//! Circuits as data: a small R1CS model and the file that encodes it.
use crate::files::*;
use ark_bn254::Fr;
use ark_ff::{One, PrimeField, Zero};
use ark_relations::gr1cs::{LinearCombination, Variable};

pub type Lc = Vec<(u32, Vec<u8>)>;
pub struct Circ {
    pub fs: usize,
    pub out: u32,
    pub inp: u32,
    pub wires: u32,
    pub cons: Vec<[Lc; 3]>,
}
pub fn circ(out: u32, inp: u32, wires: u32, fs: usize, lens: &[[usize; 3]]) -> Circ {
    Circ {
        fs, out, inp, wires,
        cons: lens.iter().map(|l| {
            let mut lc = |n: usize| (0..n).map(|_| (sy::pick(wires as u64) as u32, sy::bytes(fs))).collect::<Lc>();
            [lc(l[0]), lc(l[1]), lc(l[2])]
        }).collect(),
    }
}
/// sections: 1 header, 2 constraints, 3 labels, otherwise an unknown one with k - 10 bytes
pub fn r1cs(c: &Circ, order: &[usize]) -> Vec<u8> {
    let mut f = b"r1cs".to_vec();
    p32(&mut f, 1);
    p32(&mut f, order.len() as u32);
    for &k in order {
        let mut d = vec![];
        let t = match k {
            1 => {
                p32(&mut d, c.fs as u32);
                d.extend_from_slice(&vec![0x5b; c.fs]);
                for x in [c.wires, c.out, c.inp, c.wires - 1 - c.out - c.inp] { p32(&mut d, x); }
                p64(&mut d, c.wires as u64);
                p32(&mut d, c.cons.len() as u32);
                1
            }
            2 => {
                for l in c.cons.iter().flatten() {
                    p32(&mut d, l.len() as u32);
                    for (w, k) in l { p32(&mut d, *w); d.extend_from_slice(k); }
                }
                2
            }
            3 => {
                for i in 0..c.wires { p64(&mut d, i as u64); }
                3
            }
            k => {
                d = sy::bytes(k - 10);
                let t = sy::u32();
                sy::assume(t == 0 || t > 3);
                t
            }
        };
        p32(&mut f, t);
        p64(&mut f, d.len() as u64);
        f.extend_from_slice(&d);
    }
    f
}
pub fn fr(b: &[u8]) -> Fr {
    let mut a = b.to_vec();
    a.resize(32, 0);
    Fr::from_le_bytes_mod_order(&a)
}
fn variable(c: &Circ, w: u32) -> Variable {
    let p = c.out + c.inp;
    if w == 0 { Variable::One } else if w <= p { Variable::Instance(w as usize) } else { Variable::Witness((w - p - 1) as usize) }
}
fn total(mut i: impl Iterator<Item = Fr>) -> Fr {
    let Some(mut t) = i.next() else { return Fr::zero() };
    for x in i { t = t + x; }
    t
}
/// every variable's coefficient in every combination of every row
pub fn same_rows(c: &Circ, rows: &[[LinearCombination<Fr>; 3]], p: &str) {
    sy::check(rows.len() == c.cons.len(), &format!("{p} number of constraints"));
    for (r, k) in rows.iter().zip(&c.cons) {
        for j in 0..3 {
            for (_, v) in r[j].iter() {
                sy::check((0..c.wires).any(|w| variable(c, w) == *v), &format!("{p} a constraint uses another variable"));
            }
            for w in 0..c.wires {
                let want = total(k[j].iter().filter(|t| t.0 == w).map(|t| fr(&t.1)));
                let got = total(r[j].iter().filter(|t| t.1 == variable(c, w)).map(|t| t.0));
                sy::check(sy::eq(&want.to_bytes(), &got.to_bytes()), &format!("{p} coefficient"));
            }
        }
    }
}
/// instance and witness assignment for values of all wires (wire 0 first)
pub fn same_values(c: &Circ, vals: &[Fr], inst: &[Fr], wit: &[Fr], p: &str) {
    let n = (c.out + c.inp) as usize;
    sy::check(inst.len() == n + 1 && wit.len() == c.wires as usize - n - 1, &format!("{p} number of variables"));
    sy::check(sy::eq(&inst[0].to_bytes(), &Fr::one().to_bytes()), &format!("{p} constant one"));
    for i in 1..=n { sy::check(sy::eq(&inst[i].to_bytes(), &vals[i].to_bytes()), &format!("{p} public value")); }
    for i in 0..wit.len() { sy::check(sy::eq(&wit[i].to_bytes(), &vals[n + 1 + i].to_bytes()), &format!("{p} private value")); }
}
