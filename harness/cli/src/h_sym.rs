//! C06, C07: symbol files.
use crate::sym_parser::*;
use std::collections::HashMap;

fn is_ws(b: u8) -> bool { b == b' ' || (b >= 9 && b <= 13) }
fn trim(mut s: &[u8]) -> &[u8] {
    while !s.is_empty() && is_ws(s[0]) { s = &s[1..]; }
    while !s.is_empty() && is_ws(s[s.len() - 1]) { s = &s[..s.len() - 1]; }
    s
}
/// 32-bit integer in decimal, as documented: optional sign, at least one digit
fn int(s: &[u8]) -> Option<i32> {
    let (neg, d) = match s.first() { Some(b'-') => (true, &s[1..]), Some(b'+') => (false, &s[1..]), _ => (false, s) };
    if d.is_empty() { return None; }
    let mut v: i64 = 0;
    for &c in d {
        if !(c >= b'0' && c <= b'9') { return None; }
        v = v * 10 + (c - b'0') as i64;
        if v > 1 << 40 { return None; }
    }
    let v = if neg { -v } else { v };
    if v < -(1i64 << 31) || v >= 1i64 << 31 { return None; }
    Some(v as i32)
}
/// The mapping the statement describes (None: an error), as a list in which later entries win.
fn reference(t: &[u8]) -> Option<Vec<(Vec<u8>, u32)>> {
    let mut out: Vec<(Vec<u8>, u32)> = vec![];
    for line in t.split(|b| *b == b'\n') {
        let f: Vec<&[u8]> = trim(line).split(|b| *b == b',').collect();
        if f.len() != 4 { continue; }
        let id = int(trim(f[1]))?;
        if id < 0 { continue; }
        let name = trim(f[3]).to_vec();
        match out.iter_mut().find(|e| e.0 == name) {
            Some(e) => e.1 = id as u32,
            None => out.push((name, id as u32)),
        }
    }
    Some(out)
}
fn compare(t: &[u8]) {
    let s = match std::str::from_utf8(t) { Ok(s) => s, Err(_) => sy::drop_path() };
    let got = parse_sym_file(s);
    match (got, reference(t)) {
        (Ok(g), Some(w)) => {
            sy::check(g.len() == w.len(), "C06 number of names");
            for (n, id) in &w {
                let n = std::str::from_utf8(n).unwrap();
                sy::check(g.get(n) == Some(id), "C06 wire of a name");
            }
            sy::reach("c06 mapped");
        }
        (Err(_), None) => sy::reach("c06 rejected"),
        (Ok(_), None) => sy::check(false, "C06 a wire id that is no 32-bit integer is accepted"),
        (Err(_), Some(_)) => sy::check(false, "C06 a valid file is rejected"),
    }
}
/// any ASCII text of this length
pub fn c06_any() {
    let t = sy::bytes(sy::case() as usize);
    for b in &t { sy::assume(*b < 128); }
    compare(&t);
}
fn word(n: usize) -> Vec<u8> {
    let w = sy::bytes(n);
    for b in &w { sy::assume(*b < 128 && *b != b',' && *b != b'\n' && !is_ws(*b)); }
    w
}
/// arbitrary digits (and sign) in the wire id field
pub fn c06_id() {
    let n = sy::case() as usize;
    let mut t = b"7,".to_vec();
    let w = word(n);
    t.extend_from_slice(&w);
    t.extend_from_slice(b",3,main.x\n");
    compare(&t);
}
/// ids around the 32-bit boundary: concrete leading digits, arbitrary last ones
pub fn c06_boundary() {
    let n = sy::case() as usize;
    let lead: &[u8] = [&b"2147483"[..], b"214748", b"99999999", b"00000214748364", b"-2147483", b"-00000000000", b"42949672", b"922337203685477580", b"1844674407370955161"][n];
    let mut t = b"7,".to_vec();
    t.extend_from_slice(lead);
    for _ in 0..1 + sy::pick(3) {
        let d = sy::digit();
        t.push(d);
    }
    t.extend_from_slice(b",3,main.x\n1,2,3,y");
    compare(&t);
}
/// lines with every number of fields, spacing and line ending around arbitrary names
pub fn c06_lines() {
    let k = sy::case();
    let mut t = vec![];
    let n = 1 + k % 3;
    for i in 0..n {
        let fields = if n < 3 { sy::pick(4) + 2 } else { 4 };
        let pad: &[u8] = match sy::pick(if n == 1 { 4 } else { 2 }) { 0 => b"", 1 => b" ", 2 => b"\t ", _ => b"\x0b" };
        t.extend_from_slice(pad);
        for f in 0..fields {
            if f > 0 { t.push(b','); }
            t.extend_from_slice(pad);
            match f {
                1 => match sy::pick(4) {
                    0 => t.extend_from_slice(b"-1"),
                    1 => t.extend_from_slice(b"12"),
                    2 => { let d = sy::digit(); t.push(d) }
                    _ => t.extend_from_slice(if i == 0 { b"2147483647" } else { b"-2147483648" }),
                },
                3 => { let l = if n == 3 { 1 } else { 1 + sy::pick(2) as usize }; t.extend_from_slice(&word(l)) }
                _ => t.extend_from_slice(b"5"),
            }
            t.extend_from_slice(pad);
        }
        match if i + 1 < n || k >= 3 { sy::pick(2) } else { 2 } { 0 => t.extend_from_slice(b"\r\n"), 1 => t.push(b'\n'), _ => {} }
    }
    compare(&t);
}
/// many lines (fixed shape), arbitrary wire digits; repeated names
pub fn c06_many() {
    let n = sy::case() as usize;
    let mut t = vec![];
    for i in 0..n {
        t.extend_from_slice(format!("{},", i + 1).as_bytes());
        let d = sy::digit();
        t.push(d);
        t.extend_from_slice(format!(",{},main.s[{}]\n", i % 3, i / 2).as_bytes());
    }
    compare(&t);
}
/// names outside ASCII
pub fn c06_unicode() {
    let w = sy::bytes(sy::case() as usize);
    for b in &w { sy::assume(*b != b',' && *b != b'\n' && !is_ws(*b)); }
    let s = match std::str::from_utf8(&w) { Ok(s) => s, Err(_) => sy::drop_path() };
    for c in s.chars() { sy::assume(!c.is_whitespace()); }
    let mut t = b"1,2,3,".to_vec();
    t.extend_from_slice(&w);
    compare(&t);
}

/// any map, any bound
pub fn c07_any() {
    let k = sy::case();
    let n = k & 15;
    let unbounded = k >> 4 == 1;
    let mut m: HashMap<String, u32> = HashMap::new();
    let mut list: Vec<(Vec<u8>, u32)> = vec![];
    for _ in 0..n {
        let name = match sy::pick(4) {
            0 => { let w = sy::bytes(sy::pick(7) as usize); w }
            1 => { let mut w = b"main.".to_vec(); let l = sy::pick(3) as usize; w.extend_from_slice(&sy::bytes(l)); w }
            2 => { let mut w = b"main.main.".to_vec(); w.extend_from_slice(&sy::bytes(1)); w }
            _ => { let mut w = sy::bytes(1); w.extend_from_slice(b"main.a"); w }
        };
        for b in &name { sy::assume(*b < 128); }
        let id = sy::u32();
        if list.iter().any(|e| e.0 == name) { sy::drop_path(); }
        m.insert(String::from_utf8(name.clone()).unwrap(), id);
        list.push((name, id));
    }
    let max = if unbounded { None } else { Some(sy::u32()) };
    let got = get_input_signals(&m, max);
    let mut want = 0;
    for (name, id) in &list {
        if name.len() < 5 || name[..5] != *b"main." { continue; }
        if let Some(x) = max { if *id > x { continue; } }
        want += 1;
        let s = std::str::from_utf8(&name[5..]).unwrap();
        sy::check(got.get(s) == Some(id), "C07 an input signal keeps its wire");
    }
    sy::check(got.len() == want, "C07 nothing but the input signals");
    sy::check(m.len() == list.len(), "C07 the map itself is unchanged");
    if want > 0 { sy::reach("c07 some"); } else { sy::reach("c07 none"); }
}
