//! The core algorithms over circuits whose coefficients, values and ciphertext elements are all unknowns.
use crate::{decap, encap, verify_ciphertext, Ciphertext, EncapKey, Error, Key};
use ark_ff::{Field, One, Zero};
use ark_relations::gr1cs::{ConstraintSynthesizer, ConstraintSystemRef, LinearCombination, Result, SynthesisError, Variable, R1CS_PREDICATE_LABEL};
use ark_serialize::CanonicalSerialize;
use ark_toy::{draws, Fr, G1Affine, G2Affine, Toy};

/// Public values, private values, rows (wire 0 is the constant one); values may be missing.
#[derive(Clone)]
pub struct Circ {
    public: Vec<Option<Fr>>,
    private: Vec<Option<Fr>>,
    rows: Vec<[Vec<(Fr, usize)>; 3]>,
    /// rows stated before the private values are asked for
    early: usize,
}
impl ConstraintSynthesizer<Fr> for Circ {
    fn generate_constraints(self, cs: ConstraintSystemRef<Fr>) -> Result<()> {
        let mut v = vec![Variable::One];
        for p in &self.public { v.push(cs.new_input_variable(|| p.ok_or(SynthesisError::AssignmentMissing))?); }
        for (i, r) in self.rows.iter().enumerate() {
            if i == self.early { for p in &self.private { v.push(cs.new_witness_variable(|| p.ok_or(SynthesisError::AssignmentMissing))?); } }
            add(&cs, &v, r)?;
        }
        if self.early >= self.rows.len() { for p in &self.private { v.push(cs.new_witness_variable(|| p.ok_or(SynthesisError::AssignmentMissing))?); } }
        Ok(())
    }
}
fn add(cs: &ConstraintSystemRef<Fr>, v: &[Variable], r: &[Vec<(Fr, usize)>; 3]) -> Result<()> {
    let lc = |k: usize| { let mut l = LinearCombination::zero(); for (c, w) in &r[k] { l += (*c, v[*w]); } l };
    let l: Vec<_> = (0..3).map(lc).map(|l| move || l).collect();
    cs.enforce_constraint(R1CS_PREDICATE_LABEL, l)
}
impl Circ {
    fn values(&self) -> Option<Vec<Fr>> {
        let mut v = vec![Fr::one()];
        for x in self.public.iter().chain(&self.private) { v.push((*x)?); }
        Some(v)
    }
    fn satisfied(&self) -> bool {
        let v = self.values().unwrap();
        let dot = |l: &Vec<(Fr, usize)>| l.iter().fold(Fr::zero(), |s, (c, w)| s + *c * v[*w]);
        self.rows.iter().all(|r| dot(&r[0]) * dot(&r[1]) == dot(&r[2]))
    }
    fn without(&self, missing: usize) -> Circ {
        let mut c = self.clone();
        for (i, p) in c.private.iter_mut().enumerate() { if missing >> i & 1 == 1 { *p = None; } }
        c
    }
}
/// rows over `wires` wires: every wire in every combination, with any coefficient, or one of the sparser layouts
fn rows(n: usize, wires: usize, layout: usize) -> Vec<[Vec<(Fr, usize)>; 3]> {
    (0..n).map(|j| [0, 1, 2].map(|k| match layout {
        // all wires
        0 => (0..wires).map(|w| (Fr::any(), w)).collect(),
        // two wires, another pair in every combination, the higher first
        1 => vec![(Fr::any(), (j + k + 1) % wires), (Fr::any(), (j + 2 * k) % wires)],
        // one wire, an empty combination now and then
        _ => if (j + k) % 3 == 2 { vec![] } else { vec![(Fr::any(), (3 * j + k) % wires)] },
    })).collect()
}
fn circ(public: usize, private: usize, n: usize, layout: usize) -> Circ {
    let rows = rows(n, 1 + public + private, layout);
    let f = |n: usize| (0..n).map(|_| Some(Fr::any())).collect();
    Circ { public: f(public), private: f(private), rows, early: 0 }
}
/// the generator handed to encapsulation; draws are counted by the field
struct Rng(usize);
impl rand::RngCore for Rng {
    fn next_u32(&mut self) -> u32 { self.0 += 1; 0 }
    fn next_u64(&mut self) -> u64 { self.0 += 1; 0 }
    fn fill_bytes(&mut self, b: &mut [u8]) { self.0 += 1; b.fill(0) }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> std::result::Result<(), rand::Error> { self.fill_bytes(b); Ok(()) }
}
fn run_encap(c: Circ) -> std::result::Result<(Ciphertext<Toy>, Key), Error> { encap::<Toy, _, _>(c, &mut Rng(0)) }
fn kdf(s: Fr) -> [u8; 32] {
    let mut b = Vec::new();
    s.serialize_compressed(&mut b).unwrap();
    *blake3::hash(&b).as_bytes()
}
fn same(a: &[Fr], b: &[Fr]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y) }

// case: public + 4*private + 16*rows + 128*layout + 512*missing (mask over the private values; at least one bit unless there are none)
fn shape(c: u64) -> (usize, usize, usize, usize, usize) {
    ((c & 3) as usize, (c >> 2 & 3) as usize, (c >> 4 & 7) as usize, (c >> 7 & 3) as usize, (c >> 9) as usize)
}

// ---- C18 ----
pub fn c18_agree() {
    let (p, q, n, l, missing) = shape(sy::case());
    let k = circ(p, q, n, l);
    let r = run_encap(k.without(missing));
    sy::check(r.is_ok(), "C18 encapsulation fails");
    let (ct, key) = r.ok().unwrap();
    if !sy::fork(k.satisfied()) { return; }
    match decap::<Toy, _>(k, &ct) {
        Ok(d) => sy::check(sy::eq(d.as_bytes(), key.as_bytes()), "C18 keys differ"),
        Err(_) => sy::check(false, "C18 a satisfying witness is refused"),
    }
    sy::reach("c18");
}
/// constraints reach the constraint system in encapsulation: nothing private, or stated early, or everything assigned
pub fn c18_synthesized() {
    let (p, q, n, l, how) = shape(sy::case());
    let mut k = circ(p, q, n, l);
    if how == 1 {
        k.early = n;
        k.rows = rows(n, 1 + p, l);
    }
    let e = if how == 1 { k.without(1) } else { k.clone() };
    let r = run_encap(e);
    sy::check(r.is_ok(), "C18 encapsulation fails");
    let (ct, key) = r.ok().unwrap();
    if !sy::fork(k.satisfied()) { return; }
    match decap::<Toy, _>(k, &ct) {
        Ok(d) => sy::check(sy::eq(d.as_bytes(), key.as_bytes()), "C18 keys differ"),
        Err(_) => sy::check(false, "C18 a satisfying witness is refused"),
    }
    sy::reach("c18 synthesized");
}

fn g1s(n: usize) -> Vec<G1Affine> { (0..n).map(|_| G1Affine(Fr::any())).collect() }
fn g2s(n: usize) -> Vec<G2Affine> { (0..n).map(|_| G2Affine(Fr::any())).collect() }
/// any ciphertext with lists of these lengths
fn any_ct(public: usize, u: usize, v: usize, phi: usize, h: usize) -> Ciphertext<Toy> {
    Ciphertext {
        encap_key: EncapKey {
            alpha_g1: G1Affine(Fr::any()), beta_g2: G2Affine(Fr::any()), delta_g2: G2Affine(Fr::any()),
            r_u_query_g1: g1s(u), r_v_query_g2: g2s(v), phi_delta_query_g1: g1s(phi), h_query_g1: g1s(h),
        },
        public_inputs: (0..public).map(|_| Fr::any()).collect(),
    }
}

// ---- C19 ----
/// case: shape + 4096 * (public values in the ciphertext + 8 * length of its queries)
pub fn c19_decides() {
    let c = sy::case();
    let (p, q, n, l, missing) = shape(c & 4095);
    let (ctp, len) = ((c >> 12 & 7) as usize, (c >> 15 & 7) as usize);
    let k = circ(p, q, n, l).without(missing);
    let ct = any_ct(ctp, len, len, len, 0);
    let r = decap::<Toy, _>(k.clone(), &ct);
    let ok = r.is_ok();
    sy::check(!(ok && k.values().is_none()), "C19 an incomplete assignment is accepted");
    if k.values().is_none() { sy::reach("c19 incomplete"); return; }
    let sat = k.satisfied();
    sy::check(!ok | sat, "C19 a violated constraint is accepted");
    let shared = ctp.min(p);
    let mine: Vec<Fr> = k.public.iter().map(|x| x.unwrap()).take(shared).collect();
    let agree = same(&mine, &ct.public_inputs[..shared]);
    sy::check(!ok | agree, "C19 foreign public inputs are accepted");
    sy::check(!(ok && ctp > p + q), "C19 more public inputs than values are accepted");
    if ok { sy::reach("c19 accepted"); } else { sy::reach("c19 refused"); }
}

// ---- C20 ----
pub fn c20_qap() {
    let (p, q, n, l, first) = shape(sy::case());
    let k = circ(p, q, n, l);
    // another encapsulation before this one leaves no trace in it
    if first == 1 { let _ = run_encap(circ(p, q, n, l)); }
    let d0 = draws().len();
    let r = run_encap(k.clone());
    sy::check(r.is_ok(), "C20 encapsulation fails");
    let (ct, _) = r.ok().unwrap();
    let d: Vec<Fr> = draws()[d0..].to_vec();
    let m = 1 + p + q;
    let e = &ct.encap_key;
    let (al, be, de) = (e.alpha_g1.0, e.beta_g2.0, e.delta_g2.0);
    let public: Vec<Fr> = k.public.iter().map(|x| x.unwrap()).collect();
    sy::check(same(&ct.public_inputs, &public), "C20 public inputs");
    sy::check(e.r_u_query_g1.len() == m && e.r_v_query_g2.len() == m && e.phi_delta_query_g1.len() == m, "C20 number of elements");
    // distinct draws, so that an element tells which draw it is also in a replay
    if d.len() < 13 { for i in 0..d.len() { for j in 0..i { sy::assume(d[i] != d[j]); } } }
    let at = |x: Fr| d.iter().position(|y| sy::must(*y == x));
    let ix = [at(al), at(be), at(de)];
    for (i, x) in ix.iter().zip([al, be, de]) {
        if i.is_none() { sy::check(d.iter().fold(false, |b, y| b | (*y == x)), "C20 alpha, beta or delta was not drawn"); return; }
    }
    sy::check(ix[0] != ix[1] && ix[1] != ix[2] && ix[0] != ix[2], "C20 one draw used twice");
    // u_i at x by Lagrange's formula over the roots of unity
    let mut size = 1usize;
    while size < n + 1 + p { size *= 2; }
    let mut w = Fr::one();
    for _ in 0..16 / size { w *= Fr::from(3u64); }
    let pts: Vec<Fr> = (0..size).scan(Fr::one(), |s, _| { let r = *s; *s *= w; Some(r) }).collect();
    // the basis polynomials' coefficients, from products of (X - point) / (own point - point)
    let basis: Vec<Vec<Fr>> = (0..n).map(|j| {
        let mut c = vec![Fr::one()];
        for i in 0..size {
            if i == j { continue; }
            let s = (pts[j] - pts[i]).inverse().unwrap();
            let mut z = vec![Fr::zero(); c.len() + 1];
            for (t, v) in c.iter().enumerate() { z[t + 1] += *v * s; z[t] = z[t] - *v * pts[i] * s; }
            c = z;
        }
        c
    }).collect();
    let mut found = false;
    let mut some = false;
    for a in 0..d.len() {
        for b in 0..d.len() {
            if a == b || ix.contains(&Some(a)) || ix.contains(&Some(b)) || found { continue; }
            let (r, x) = (d[a], d[b]);
            let lag: Vec<Fr> = basis.iter().map(|c| { let mut s = Fr::zero(); let mut pw = Fr::one(); for v in c { s += *v * pw; pw *= x; } s }).collect();
            let mut good = true;
            let mut all = true;
            for i in 0..m {
                let col = |s: usize| k.rows.iter().enumerate().fold(Fr::zero(), |z, (j, row)| row[s].iter().filter(|t| t.1 == i).fold(z, |z, t| z + lag[j] * t.0));
                let (u, v, w) = (col(0), col(1), col(2));
                let e = [e.r_u_query_g1[i].0 == r * u, e.r_v_query_g2[i].0 == r * v, e.phi_delta_query_g1[i].0 * de == r * be * u + r * al * v + r * r * w];
                for e in e { good = good && sy::must(e); all &= e; }
            }
            found = good;
            some |= all;
        }
    }
    if !found { sy::check(some, "C20 elements are not the QAP at the drawn point"); return; }
    sy::reach("c20");
}

// ---- C21 ----
/// not true whatever the unknowns are
fn not_always(c: bool, label: &str) {
    sy::check(!sy::must(c), label);
    sy::assume(!c);
}
pub fn c21_public() {
    let (p, q, n, l, missing) = shape(sy::case());
    let r = run_encap(circ(p, q, n, l).without(missing));
    sy::check(r.is_ok(), "C21 encapsulation fails");
    let (ct, key) = r.ok().unwrap();
    let k = kdf(ct.encap_key.alpha_g1.0 * ct.encap_key.beta_g2.0);
    not_always(sy::eq(&k, key.as_bytes()), "C21 the key is the hash of the pairing of two published elements");
    sy::reach("c21");
}
/// what remains: the key takes randomness from alpha and from beta, and the ciphertext publishes no secret as a scalar
pub fn c21_random() {
    let (p, q, n, l, missing) = shape(sy::case());
    let k = circ(p, q, n, l).without(missing);
    let d0 = draws().len();
    let (a, ka) = run_encap(k.clone()).ok().unwrap();
    let d1 = draws().len();
    let (b, kb) = run_encap(k).ok().unwrap();
    let (x, y) = (&a.encap_key, &b.encap_key);
    let eq = sy::eq(ka.as_bytes(), kb.as_bytes());
    let d = draws()[d0..d1].to_vec();
    match sy::pick(6 + (d.len() * a.public_inputs.len()) as u64) {
        0 => not_always(eq, "C21 the key is a constant"),
        1 => not_always((x.alpha_g1.0 != y.alpha_g1.0) | eq, "C21 the key depends on alpha only"),
        2 => not_always((x.beta_g2.0 != y.beta_g2.0) | eq, "C21 the key depends on beta only"),
        3 => not_always(sy::eq(&kdf(Fr::zero()), ka.as_bytes()), "C21 the key is that of a fixed element"),
        4 => not_always(sy::eq(&kdf(Fr::one()), ka.as_bytes()), "C21 the key is that of a fixed element"),
        5 => not_always(sy::eq(&ka.as_bytes()[..], &[0; 32]), "C21 the key is zero"),
        i => {
            let i = i as usize - 6;
            not_always(a.public_inputs[i / d.len()] == d[i % d.len()], "C21 a secret is published as a public input");
        }
    }
    sy::reach("c21 random");
}

// ---- C22 ----
/// case: length in the ciphertext + 8 * length expected + 64 * length of the queries
pub fn c22_verify() {
    let c = sy::case();
    let (n, m, u) = ((c & 7) as usize, (c >> 3 & 7) as usize, (c >> 6) as usize);
    let ct = any_ct(n, u, u, u, u);
    let want: Vec<Fr> = (0..m).map(|_| Fr::any()).collect();
    let r = verify_ciphertext::<Toy>(&ct, &want);
    let s = n == m && same(&ct.public_inputs, &want);
    sy::check(!r | s, "C22 a different list is accepted");
    sy::check(r | !s, "C22 the same list is refused");
    if r { sy::reach("c22 accepted"); } else { sy::reach("c22 refused"); }
}

// ---- C34 ----
pub fn c34_encap() {
    let (p, q, n, l, missing) = shape(sy::case());
    let k = circ(p, q, n, l);
    let r = run_encap(k.without(missing));
    sy::check(r.is_ok(), "C34 encapsulation fails");
    let (ct, key) = r.ok().unwrap();
    let e = &ct.encap_key;
    let a: Vec<Fr> = std::iter::once(Fr::one()).chain(ct.public_inputs.iter().copied()).collect();
    sy::check(a.len() == 1 + p, "C34 public inputs");
    let mut s = e.alpha_g1.0 * e.beta_g2.0;
    for i in 0..a.len().min(e.phi_delta_query_g1.len()) { s += a[i] * e.phi_delta_query_g1[i].0; }
    sy::check(sy::eq(&kdf(s), key.as_bytes()), "C34 encapsulation equation");
    sy::reach("c34 encap");
}
/// case: shape + 4096 * (length of u + 8 * length of v + 64 * length of phi + 512 * public values in the ciphertext)
pub fn c34_decap() {
    let c = sy::case();
    let (p, q, n, l, _) = shape(c & 4095);
    let (u, v, f, ctp) = ((c >> 12 & 7) as usize, (c >> 15 & 7) as usize, (c >> 18 & 7) as usize, (c >> 21 & 7) as usize);
    let k = circ(p, q, n, l);
    let mut ct = any_ct(ctp, u, v, f, 0);
    ct.public_inputs = k.public.iter().take(ctp).map(|x| x.unwrap()).collect();
    if !sy::fork(k.satisfied()) { return; }
    let a = k.values().unwrap();
    let r = decap::<Toy, _>(k, &ct);
    if u == 0 || v == 0 || f == 0 {
        sy::check(r.is_err(), "C34 a ciphertext without elements opens");
        sy::reach("c34 empty");
        return;
    }
    let e = &ct.encap_key;
    let (mut x, mut y, mut z) = (e.alpha_g1.0, e.beta_g2.0, Fr::zero());
    for i in 0..a.len().min(u) { x += a[i] * e.r_u_query_g1[i].0; }
    for i in 0..a.len().min(v) { y += a[i] * e.r_v_query_g2[i].0; }
    for i in 0..a.len().min(f) { z += a[i] * e.phi_delta_query_g1[i].0; }
    match r {
        Ok(k) => sy::check(sy::eq(&kdf(x * y - z * e.delta_g2.0), k.as_bytes()), "C34 decapsulation equation"),
        Err(_) => sy::check(false, "C34 a satisfying witness is refused"),
    }
    sy::reach("c34 decap");
}
