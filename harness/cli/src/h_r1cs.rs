//! C04, C05, C11: R1CS files.
use crate::r1cs::*;

const FILE: &str = "c.r1cs";

/// A linear combination as (wire id, little-endian coefficient) terms.
pub type Lc = Vec<(u32, Vec<u8>)>;
pub struct Model {
    pub fs: u32,
    pub prime: Vec<u8>,
    pub counts: [u32; 4], // wires, public outputs, public inputs, private inputs
    pub n_labels: u64,
    pub cons: Vec<[Lc; 3]>,
    pub labels: Option<Vec<u64>>,
}

pub fn model(fs: usize, wires: u32, lens: &[[usize; 3]], labels: bool) -> Model {
    Model {
        fs: fs as u32,
        prime: sy::bytes(fs),
        counts: [wires, sy::u32(), sy::u32(), sy::u32()],
        n_labels: sy::u64(),
        cons: lens.iter().map(|l| {
            let mut lc = |n: usize| (0..n).map(|_| (sy::u32(), sy::bytes(fs))).collect::<Lc>();
            [lc(l[0]), lc(l[1]), lc(l[2])]
        }).collect(),
        labels: if labels { Some((0..wires).map(|_| sy::u64()).collect()) } else { None },
    }
}
pub fn header(m: &Model) -> Vec<u8> {
    let mut h = m.fs.to_le_bytes().to_vec();
    h.extend_from_slice(&m.prime);
    for c in m.counts { h.extend_from_slice(&c.to_le_bytes()); }
    h.extend_from_slice(&m.n_labels.to_le_bytes());
    h.extend_from_slice(&(m.cons.len() as u32).to_le_bytes());
    h
}
pub fn constraints(m: &Model) -> Vec<u8> {
    let mut v = vec![];
    for c in &m.cons {
        for lc in c {
            v.extend_from_slice(&(lc.len() as u32).to_le_bytes());
            for (w, k) in lc { v.extend_from_slice(&w.to_le_bytes()); v.extend_from_slice(k); }
        }
    }
    v
}
pub fn labels(m: &Model) -> Vec<u8> {
    m.labels.as_ref().map_or(vec![], |l| l.iter().flat_map(|x| x.to_le_bytes()).collect())
}
/// section kinds: 1 header, 2 constraints, 3 labels, otherwise an unknown section with that many bytes of payload (k - 10)
pub fn file(m: &Model, order: &[usize]) -> Vec<u8> {
    let mut f = b"r1cs".to_vec();
    f.extend_from_slice(&1u32.to_le_bytes());
    f.extend_from_slice(&(order.len() as u32).to_le_bytes());
    for &k in order {
        let (t, d) = match k {
            1 => (1, header(m)),
            2 => (2, constraints(m)),
            3 => (3, labels(m)),
            k => {
                let t = sy::u32();
                sy::assume(t == 0 || t > 3);
                (t, if k > 1000 { vec![0x5a; k - 10] } else { sy::bytes(k - 10) })
            }
        };
        f.extend_from_slice(&t.to_le_bytes());
        f.extend_from_slice(&(d.len() as u64).to_le_bytes());
        f.extend_from_slice(&d);
    }
    f
}
pub fn write(b: &[u8]) {
    std::fs::write(FILE, b).unwrap();
}
fn same_lc(l: &LinearCombination, r: &Lc, what: &str) {
    sy::check(l.factors.len() == r.len(), what);
    for (i, (w, k)) in r.iter().enumerate() {
        sy::check(l.factors[i].0 == *w, what);
        sy::check(sy::eq(&l.factors[i].1, k), what);
    }
}
fn same(c: &R1csFile, m: &Model) {
    sy::check(c.field_size == m.fs && sy::eq(&c.prime, &m.prime), "C04 field size and prime");
    sy::check(c.n_wires == m.counts[0], "C04 wire count");
    sy::check(c.n_pub_out == m.counts[1], "C04 public output count");
    sy::check(c.n_pub_in == m.counts[2], "C04 public input count");
    sy::check(c.n_prv_in == m.counts[3], "C04 private input count");
    sy::check(c.n_labels == m.n_labels, "C04 label count");
    sy::check(c.n_constraints as usize == m.cons.len() && c.constraints.len() == m.cons.len(), "C04 constraint count");
    for (i, k) in m.cons.iter().enumerate() {
        same_lc(&c.constraints[i].a, &k[0], "C04 A combination");
        same_lc(&c.constraints[i].b, &k[1], "C04 B combination");
        same_lc(&c.constraints[i].c, &k[2], "C04 C combination");
    }
    sy::check(c.wire2label.len() == m.counts[0] as usize, "C04 label table length");
    for i in 0..m.counts[0] as usize {
        let want = match &m.labels { Some(l) => l[i], None => i as u64 };
        sy::check(c.wire2label[i] == want, "C04 label table");
    }
    if let Some(s) = m.counts[1].checked_add(m.counts[2]) {
        sy::check(c.n_public_inputs() == s, "C04 public input number is outputs plus inputs");
    }
}
fn perms(items: &[usize]) -> Vec<Vec<usize>> {
    if items.is_empty() { return vec![vec![]]; }
    let mut out = vec![];
    for i in 0..items.len() {
        let mut rest = items.to_vec();
        let x = rest.remove(i);
        for mut p in perms(&rest) { p.insert(0, x); out.push(p); }
    }
    out
}
fn read_back(m: &Model, order: &[usize]) {
    write(&file(m, order));
    match R1csFile::from_file(FILE) {
        Ok(c) => same(&c, m),
        Err(_) => sy::check(false, "C04 a well-formed file is rejected"),
    }
    sy::reach("c04");
}
/// section orders, with and without labels and unknown sections
pub fn c04_sections() {
    let sets: [&[usize]; 6] = [&[1, 2], &[1, 2, 3], &[1, 2, 10], &[1, 2, 3, 15], &[1, 2, 3, 10, 9000], &[1, 2, 12, 13]];
    let set = sets[sy::case() as usize];
    let ps = perms(set);
    let order = ps[sy::pick(ps.len() as u64) as usize].clone();
    let m = model(2, 3, &[[1, 0, 2]], set.contains(&3));
    read_back(&m, &order);
}
/// field sizes, wire counts
pub fn c04_shapes() {
    let fs = sy::case() as usize;
    let w = sy::pick(4) as u32;
    let lab = sy::pick(2) == 1;
    let m = model(fs, w, &[[1, 1, 1], [0, 0, 0]], lab);
    read_back(&m, &[1, 2, 3][..if lab { 3 } else { 2 }]);
}
/// numbers of constraints and of terms per combination
pub fn c04_terms() {
    let c = sy::case();
    let mx = 3 + (c >> 8) * 2;
    let n = (c & 255) as usize;
    let lens: Vec<[usize; 3]> = (0..n).map(|_| [sy::pick(mx) as usize, sy::pick(mx) as usize, sy::pick(mx) as usize]).collect();
    let m = model(4, 2, &lens, true);
    read_back(&m, &[2, 3, 1]);
}
/// sections that straddle or exceed the reader's buffer
pub fn c04_large() {
    let k = sy::case() as usize;
    let pad = 10 + 8192 - 60 + k * 4;
    let m = model(8, 4, &[[2, 1, 2], [1, 3, 1]], true);
    read_back(&m, &[pad, 3, 2, pad, 1]);
}
/// one long combination / many constraints / many wires (concrete padding terms, symbolic ones at the ends)
pub fn c04_long() {
    let n = sy::case() as usize;
    let mut m = model(4, n as u32 * 2, &[[2, 0, 1], [1, 2, 3]], true);
    for i in 0..n { m.cons[0][1].push((i as u32 * 7, vec![i as u8, (i >> 8) as u8, 3, 4])); }
    for i in 0..n { m.cons.push([vec![(i as u32, vec![1, 0, 0, i as u8])], vec![], vec![]]); }
    let last = model(4, 0, &[[1, 1, 1]], false).cons.remove(0);
    m.cons.push(last);
    read_back(&m, &[1, 2, 3]);
}
/// sections longer than the reader's buffer: terms and labels that straddle it, at every alignment
pub fn c04_buffer() {
    let k = sy::case() as usize;
    let fs = 28 + k % 8;
    let mut m = model(fs, 1100, &[[k % 3, 0, 1]], true);
    let at = (8192 - 12) / (fs + 4);
    for i in 0..at + 4 {
        let v: Vec<u8> = if i + 2 >= at { sy::bytes(fs) } else { (0..fs).map(|j| (i * 7 + j + 1) as u8).collect() };
        m.cons[0][1].push((i as u32, v));
    }
    read_back(&m, &[1, 2, 3]);
}

/// Reference reader: None = must be rejected, Some(true) = complete, Some(false) = no statement.
struct Rd<'a>(&'a [u8], usize);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() - self.1 < n { return None; }
        self.1 += n;
        Some(&self.0[self.1 - n..self.1])
    }
    fn u32(&mut self) -> Option<u32> { self.take(4).map(|b| u32::from_le_bytes([b[0], b[1], b[2], b[3]])) }
    fn u64(&mut self) -> Option<u64> { self.take(8).map(|b| u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]])) }
}
/// one path per value
fn each(x: u64, max: u64) -> u64 {
    for v in 0..max { if sy::fork(x == v) { return v; } }
    max
}
fn complete(f: &[u8]) -> Option<()> {
    let mut r = Rd(f, 0);
    if r.take(4)? != b"r1cs" { return None; }
    if r.u32()? != 1 { return None; }
    let n = r.u32()?;
    let mut secs: [Option<&[u8]>; 3] = [None; 3];
    let mut dup = [false; 3];
    let mut i = 0;
    while i < n {
        let t = r.u32()?;
        let s = r.u64()?;
        let left = (f.len() - r.1) as u64;
        if s > left { return None; }
        let d = r.take(each(s, left) as usize)?;
        if t >= 1 && t <= 3 {
            let k = t as usize - 1;
            if secs[k].is_some() { dup[k] = true; } else { secs[k] = Some(d); }
        }
        i += 1;
    }
    let h = secs[0]?;
    let c = secs[1]?;
    let mut r = Rd(h, 0);
    let fs = r.u32()?;
    if fs as usize > h.len() { return None; }
    let fs = each(fs as u64, h.len() as u64) as usize;
    r.take(fs)?;
    let wires = r.u32()?;
    r.take(12)?;
    r.u64()?;
    let nc = r.u32()?;
    let mut r = Rd(c, 0);
    let mut i = 0;
    while i < nc {
        for _ in 0..3 {
            let k = r.u32()?;
            let most = ((c.len() - r.1) / (4 + fs)) as u64;
            if k as u64 > most { return None; }
            r.take(each(k as u64, most) as usize * (4 + fs))?;
        }
        i += 1;
    }
    if let Some(l) = secs[2] { if (l.len() as u64) < wires as u64 * 8 { return None; } }
    // the default label table of a file without label section is c05_default_labels
    if secs[2].is_none() && wires > 1 << 16 { sy::drop_path(); }
    if dup[0] || dup[1] || dup[2] { sy::reach("duplicate section"); }
    Some(())
}
fn robust(f: &[u8]) {
    sy::alloc_limit(1 << 20);
    sy::step_limit(4_000_000);
    write(f);
    let whole = complete(f).is_some();
    let got = R1csFile::from_file(FILE).is_ok();
    sy::alloc_limit(u64::MAX);
    if got {
        sy::check(whole, "C05 an incomplete file is accepted");
        sy::reach("c05 accepted");
    } else {
        sy::reach("c05 rejected");
    }
}
/// any file of this length
pub fn c05_any() {
    let n = sy::case() as usize;
    let f = sy::bytes(n);
    robust(&f);
}
/// any file with the right magic and version
pub fn c05_body() {
    let n = sy::case() as usize;
    let mut f = b"r1cs\x01\0\0\0".to_vec();
    f.extend_from_slice(&sy::bytes(n));
    robust(&f);
}
/// no label section: the default table is as long as the announced number of wires
pub fn c05_default_labels() {
    let mut m = model(1, 0, &[[1, 0, 0]], false);
    m.counts[0] = sy::u32();
    sy::alloc_limit(1 << 20);
    write(&file(&m, &[1, 2]));
    let wires = m.counts[0];
    sy::assume(wires > 200_000 && sy::case() == 0 || wires <= 8 && sy::case() == 1);
    if let Ok(c) = R1csFile::from_file(FILE) { sy::check(c.n_wires == wires, "C05 wire count"); }
    sy::reach("c05 default labels");
}
/// two known sections laid out in place, every number in them arbitrary
pub fn c05_fields() {
    let c = sy::case() as usize;
    let (fs, which) = ([0usize, 1, 2][c % 3], c / 3);
    let mut f = b"r1cs".to_vec();
    let w32 = |f: &mut Vec<u8>, on: bool, v: u32| { let x = if on { sy::u32() } else { v }; f.extend_from_slice(&x.to_le_bytes()); };
    let w64 = |f: &mut Vec<u8>, on: bool, v: u64| { let x = if on { sy::u64() } else { v }; f.extend_from_slice(&x.to_le_bytes()); };
    // which: 0 version/section count, 1 types, 2 first size, 3 second size, 4 field size, 5 wires, 6 constraints, 7..9 term counts, 10 third size, 11 all counts
    w32(&mut f, which == 0, 1);
    w32(&mut f, which == 0, 3);
    w32(&mut f, which == 1, 1);
    w64(&mut f, which == 2, 32 + fs as u64);
    w32(&mut f, which == 4, fs as u32);
    f.extend_from_slice(&sy::bytes(fs));
    w32(&mut f, which == 5 || which == 11, 2);
    f.extend_from_slice(&sy::bytes(20));
    w32(&mut f, which == 6 || which == 11, 1);
    w32(&mut f, which == 1, 2);
    w64(&mut f, which == 3, (4 + fs as u64) * 2 + 12);
    w32(&mut f, which == 7 || which == 11, 1);
    f.extend_from_slice(&sy::bytes(4 + fs));
    w32(&mut f, which == 8 || which == 11, 0);
    w32(&mut f, which == 9, 1);
    f.extend_from_slice(&sy::bytes(4 + fs));
    w32(&mut f, which == 1, 3);
    w64(&mut f, which == 10, 16);
    f.extend_from_slice(&sy::bytes(16));
    robust(&f);
}
/// a complete file cut anywhere
pub fn c05_truncated() {
    let c = sy::case() as usize;
    let ps = [[1, 2, 3], [3, 2, 1], [2, 1, 3], [3, 1, 2]];
    let m = model(1, 1, &[[1, 0, 1]], true);
    let f = file(&m, &ps[c]);
    let cut = sy::pick(f.len() as u64) as usize;
    write(&f[..cut]);
    sy::check(R1csFile::from_file(FILE).is_err(), "C05 a truncated file is accepted");
    sy::reach("c05 truncated");
}
pub fn c05_missing() {
    let sets: [&[usize]; 7] = [&[], &[1], &[2], &[3], &[1, 3], &[2, 3], &[1, 12]];
    let m = model(1, 1, &[], true);
    write(&file(&m, sets[sy::case() as usize]));
    sy::check(R1csFile::from_file(FILE).is_err(), "C05 a file without header or constraints is accepted");
    sy::check(R1csFile::from_file("absent.r1cs").is_err(), "C05 a missing file is accepted");
    sy::reach("c05 missing");
}

/// any parsed circuit, exported
pub fn c11_export() {
    let c = sy::case() as usize;
    let lens: Vec<[usize; 3]> = (0..c).map(|_| [sy::pick(3) as usize, sy::pick(3) as usize, sy::pick(3) as usize]).collect();
    let m = model(3, 2, &lens, true);
    let lc = |l: &Lc| LinearCombination { factors: l.clone() };
    let r = R1csFile {
        field_size: sy::u32(), prime: m.prime.clone(), n_wires: sy::u32(), n_pub_out: m.counts[1], n_pub_in: m.counts[2], n_prv_in: m.counts[3],
        n_labels: m.n_labels, n_constraints: sy::u32(),
        constraints: m.cons.iter().map(|k| Constraint { a: lc(&k[0]), b: lc(&k[1]), c: lc(&k[2]) }).collect(),
        wire2label: m.labels.clone().unwrap(),
    };
    let s = r.to_serializable();
    sy::check(s.field_size == r.field_size && sy::eq(&s.prime_bytes, &r.prime), "C11 field size and prime");
    sy::check(s.n_wires == r.n_wires, "C11 wire count");
    sy::check(s.n_pub_out == r.n_pub_out, "C11 public output count");
    sy::check(s.n_pub_in == r.n_pub_in, "C11 public input count");
    sy::check(s.n_prv_in == r.n_prv_in, "C11 private input count");
    sy::check(s.n_constraints == r.n_constraints, "C11 constraint count");
    sy::check(s.constraints.len() == m.cons.len(), "C11 number of constraints");
    for (k, e) in m.cons.iter().zip(&s.constraints) {
        for (want, got) in k.iter().zip([&e.a, &e.b, &e.c]) {
            sy::check(got.factors.len() == want.len(), "C11 terms of a combination");
            for (w, g) in want.iter().zip(&got.factors) {
                sy::check(g.wire_id == w.0 && sy::eq(&g.coefficient_bytes, &w.1), "C11 terms of a combination");
            }
        }
    }
    sy::reach("c11");
}
