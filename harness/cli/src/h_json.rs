//! C08: circuit input JSON.
use crate::circom::*;
use std::collections::HashMap;

const FILE: &str = "in.json";
/// One JSON value with the leaf texts it flattens to.
pub struct Gen { pub text: Vec<u8>, pub leaves: Vec<Vec<u8>> }

fn chr() -> u8 {
    let c = sy::u8();
    sy::assume(c >= 0x20 && c < 0x7f && c != b'"' && c != b'\\');
    c
}
fn string(g: &mut Gen, n: usize) {
    let s: Vec<u8> = (0..n).map(|_| chr()).collect();
    g.text.push(b'"');
    g.text.extend_from_slice(&s);
    g.text.push(b'"');
    g.leaves.push(s);
}
fn lit(g: &mut Gen, t: &[u8], leaf: &[u8]) {
    g.text.extend_from_slice(t);
    g.leaves.push(leaf.to_vec());
}
fn number(g: &mut Gen, digits: usize, neg: bool) {
    let mut t = vec![];
    if neg { t.push(b'-'); }
    for i in 0..digits {
        let c = sy::digit();
        if i == 0 && (digits > 1 || neg) { sy::assume(c != b'0'); }
        t.push(c);
    }
    g.text.extend_from_slice(&t);
    g.leaves.push(t);
}
/// arbitrary value; `n` bounds the members of arrays, `d` the nesting
pub fn value(g: &mut Gen, d: u64, n: u64) {
    match sy::pick(if d > 0 { 8 } else { 6 }) {
        0 => { let l = sy::pick(3) as usize; string(g, l) }
        1 => number(g, 1, false),
        2 => lit(g, b"true", b"1"),
        3 => lit(g, b"false", b"0"),
        4 => lit(g, b"null", b"0"),
        5 => { g.text.extend_from_slice(b"{}"); }
        6 => {
            let k = sy::pick(n + 1);
            g.text.push(b'[');
            for i in 0..k { if i > 0 { g.text.push(b','); } value(g, d - 1, n); }
            g.text.push(b']');
        }
        _ => {
            // a nested object contributes nothing, whatever it holds
            let keep = std::mem::take(&mut g.leaves);
            g.text.extend_from_slice(b"{\"x\":");
            value(g, d - 1, 1);
            g.text.extend_from_slice(b",\"a\":[1]}");
            g.leaves = keep;
        }
    }
}
fn same(map: &HashMap<String, Vec<String>>, key: &[u8], leaves: &[Vec<u8>]) {
    let key = std::str::from_utf8(key).unwrap();
    match map.get(key) {
        None => sy::check(false, "C08 a key is missing"),
        Some(v) => {
            sy::check(v.len() == leaves.len(), "C08 number of values");
            for (a, b) in v.iter().zip(leaves) { sy::check(sy::eq(a.as_bytes(), b), "C08 value text"); }
        }
    }
}
fn read(doc: &[u8]) -> Option<HashMap<String, Vec<String>>> {
    std::fs::write(FILE, doc).unwrap();
    parse_inputs(FILE).ok()
}
fn one(g: &Gen) {
    let mut doc = b"{\"k\":".to_vec();
    doc.extend_from_slice(&g.text);
    doc.push(b'}');
    match read(&doc) {
        None => sy::check(false, "C08 a valid object is rejected"),
        Some(m) => { sy::check(m.len() == 1, "C08 number of keys"); same(&m, b"k", &g.leaves) }
    }
    sy::reach("c08 value");
}
pub fn c08_values() {
    let c = sy::case();
    let mut g = Gen { text: vec![], leaves: vec![] };
    value(&mut g, c & 15, c >> 4);
    one(&g);
}
/// integers of every length, signs, the ends of the 64-bit ranges
pub fn c08_numbers() {
    let c = sy::case() as usize;
    let mut g = Gen { text: vec![], leaves: vec![] };
    if c < 8 { number(&mut g, 1 + c % 4, c >= 4) } else {
        let t: &[u8] = [&b"18446744073709551615"[..], b"-9223372036854775808", b"9223372036854775807", b"9223372036854775808", b"18446744073709551614", b"-9223372036854775807", b"4294967296", b"1000000000000000000"][c - 8];
        lit(&mut g, t, t);
    }
    one(&g);
}
pub fn c08_strings() {
    let c = sy::case() as usize;
    let mut g = Gen { text: vec![], leaves: vec![] };
    if c < 16 { string(&mut g, c) } else {
        let (t, l): (&[u8], &[u8]) = [(&b"\"\\n\\t\\\\\\\"\\/\""[..], &b"\n\t\\\"/"[..]), (b"\"\\u0041\\u00e9\"", "A\u{e9}".as_bytes()), (b"\"\\ud83d\\ude00\"", "\u{1f600}".as_bytes()),
            (b"\"21888242871839275222246405745257275088548364400416034343698204186575808495617\"", b"21888242871839275222246405745257275088548364400416034343698204186575808495617"),
            (b"\" 0x1F \"", b" 0x1F "), (b"\"-5\"", b"-5")][c - 16];
        lit(&mut g, t, l);
    }
    one(&g);
}
/// several keys in any order, arbitrary white space
pub fn c08_keys() {
    let n = sy::case();
    let mut doc = vec![];
    let mut want: Vec<(Vec<u8>, Vec<Vec<u8>>)> = vec![];
    let ws = |doc: &mut Vec<u8>| { match sy::pick(2) { 0 => {}, _ => doc.extend_from_slice(b"\r\n\t ") } };
    ws(&mut doc);
    doc.push(b'{');
    for i in 0..n {
        if i > 0 { doc.push(b','); }
        let k: Vec<u8> = (0..sy::pick(3)).map(|_| chr()).collect();
        if want.iter().any(|w| w.0 == k) { sy::drop_path(); }
        let mut g = Gen { text: vec![], leaves: vec![] };
        match sy::pick(3) { 0 => number(&mut g, 2, false), 1 => string(&mut g, 1), _ => { g.text.push(b'['); number(&mut g, 1, false); g.text.push(b','); string(&mut g, 1); g.text.push(b']') } }
        if i == 0 { ws(&mut doc); }
        doc.push(b'"');
        doc.extend_from_slice(&k);
        doc.extend_from_slice(b"\":");
        if i == 0 { ws(&mut doc); }
        doc.extend_from_slice(&g.text);
        want.push((k, g.leaves));
    }
    doc.push(b'}');
    match read(&doc) {
        None => sy::check(false, "C08 a valid object is rejected"),
        Some(m) => { sy::check(m.len() == want.len(), "C08 number of keys"); for (k, l) in &want { same(&m, k, l) } }
    }
    sy::reach("c08 keys");
}
/// a long, deeply nested list: order and completeness
pub fn c08_long() {
    let n = sy::case() as usize;
    let mut g = Gen { text: b"[".to_vec(), leaves: vec![] };
    for i in 0..n {
        if i > 0 { g.text.push(b','); }
        let d = i % 4;
        for _ in 0..d { g.text.push(b'['); }
        if i % 3 == 0 { string(&mut g, 1) } else { let s = i.to_string(); lit(&mut g, s.as_bytes(), s.as_bytes()); }
        for _ in 0..d { g.text.push(b']'); }
    }
    g.text.push(b']');
    one(&g);
}
/// not an object, not JSON, unreadable
pub fn c08_rejects() {
    let c = sy::case() as usize;
    let docs: [&[u8]; 22] = [b"", b"[1]", b"1", b"\"a\"", b"null", b"true", b"{", b"{\"a\":1", b"{\"a\":1,}", b"{\"a\" 1}", b"{a:1}", b"{\"a\":01}", b"{\"a\":1} x", b"{\"a\":1}{", b"{'a':1}",
        b"{\"a\":[1}", b"{\"a\":+1}", b"{\"a\":nul}", b"{\"a\":\"\n\"}", b"{\"a\":\"\\x\"}", b"\xff", b"{\"a\":\"\xff\"}"];
    if c < docs.len() { sy::check(read(docs[c]).is_none(), "C08 an invalid document is accepted"); }
    else { sy::check(parse_inputs("absent.json").is_err(), "C08 a missing file is accepted"); }
    sy::reach("c08 rejected");
}
/// any text of this length: no crash, and only objects are accepted
pub fn c08_any() {
    let c = sy::case();
    let t = if c < 16 { sy::bytes(c as usize) } else {
        let mut t = b"{\"k\":".to_vec();
        t.extend_from_slice(&sy::bytes(c as usize - 16));
        t.push(b'}');
        t
    };
    let ok = read(&t).is_some();
    let ws = |b: u8| b == b' ' || b == b'\n' || b == b'\t' || b == b'\r';
    if ok {
        let (mut i, mut j) = (0, t.len());
        while i < j && ws(t[i]) { i += 1; }
        while j > i && ws(t[j - 1]) { j -= 1; }
        sy::check(j >= i + 2 && t[i] == b'{' && t[j - 1] == b'}', "C08 only objects are accepted");
        sy::reach("c08 any ok");
    } else { sy::reach("c08 any rejected"); }
}
