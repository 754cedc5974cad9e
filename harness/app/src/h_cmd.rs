//! The CLI commands: C12, C13, C15, C16, C32, C33.
use crate::circ::*;
use crate::commands::*;
use crate::files::*;
use aes_gcm::aead::{Aead, KeyInit};
use aes_gcm::{Aes256Gcm, Nonce};
use ark_bn254::Fr;
use ark_ff::Zero;
use zkenc_core::{ideal, Call};

const C: &str = "c.r1cs";
const S: &str = "c.sym";
const J: &str = "in.json";
const M: &str = "msg";
const W: &str = "w.wtns";
fn put(p: &str, b: &[u8]) { std::fs::write(p, b).unwrap() }
fn get(p: &str) -> Option<Vec<u8>> { std::fs::read(p).ok() }
fn plain(out: u32, inp: u32, wires: u32) -> Circ { circ(out, inp, wires, 32, &[]) }
/// one permutation out of all (up to 3 items) or a rotation, either way round
fn order(n: usize) -> Vec<usize> {
    if n <= 3 {
        let p = perms(&(0..n).collect::<Vec<_>>());
        return p[sy::pick(p.len() as u64) as usize].clone();
    }
    let k = sy::pick(2 * n as u64) as usize;
    (0..n).map(|i| if k < n { (i + k) % n } else { (2 * n - 1 - i + k) % n }).collect()
}
fn sym_line(f: &mut String, label: usize, wire: i64, name: &str) { f.push_str(&format!("{label},{wire},0,{name}\n")) }
/// run the encapsulating command; its files are ct and key, or out
fn bind(cmd: u64) -> bool {
    match cmd {
        0 => encap_command(C, S, J, "ct", "key").is_ok(),
        1 => encrypt_command(C, S, J, M, "out", true).is_ok(),
        _ => encrypt_command(C, S, J, M, "out", false).is_ok(),
    }
}
enum In { S(&'static str), A(&'static str, usize), M(&'static str, usize, usize) }
impl In {
    fn flat(&self) -> Vec<String> {
        match self {
            In::S(n) => vec![n.to_string()],
            In::A(n, k) => (0..*k).map(|i| format!("{n}[{i}]")).collect(),
            In::M(n, r, c) => (0..*r).flat_map(|i| (0..*c).map(move |j| format!("{n}[{i}][{j}]"))).collect(),
        }
    }
}
/// outputs, inputs, wires, the public signals in the JSON
fn layout(k: u64) -> (u32, u32, u32, Vec<In>) {
    use In::*;
    match k {
        0 => (0, 1, 3, vec![S("a")]),
        1 => (1, 1, 4, vec![S("r"), S("a")]),
        2 => (0, 3, 5, vec![S("a"), S("b"), S("ab")]),
        3 => (2, 0, 4, vec![A("o", 2)]),
        4 => (1, 2, 4, vec![S("r"), A("a", 2)]),
        5 => (1, 4, 7, vec![M("m", 2, 2), S("r")]),
        6 => (2, 3, 8, vec![A("o", 1), S("q"), M("m", 1, 2), S("o1")]),
        _ => (0, 0, 2, vec![]),
    }
}
/// a value of one arbitrary digit, as a number or as a string
fn value(i: usize) -> (String, Fr) {
    let d = sy::digit();
    let t = format!("{}{}", i + 1, d as char);
    let v = Fr::from((i as u64 + 1) * 10 + (d - b'0') as u64);
    (if i % 2 == 0 { t } else { format!("\"{t}\"") }, v)
}
fn same(got: &Fr, want: &Fr) -> bool { sy::eq(&got.to_bytes(), &want.to_bytes()) }
/// every public value on its wire; case: layout, then the command, then what else the files contain
pub fn c15_bind() {
    let c = sy::case();
    let (o, i, wires, ins) = layout(c % 8);
    let (cmd, more) = (c / 8 % 4, c / 32);
    let flat: Vec<String> = ins.iter().flat_map(|x| x.flat()).collect();
    let n = flat.len();
    let wire = order(n);
    // symbol file
    let mut lines: Vec<(i64, String)> = flat.iter().enumerate().map(|(k, s)| (wire[k] as i64 + 1, format!("main.{s}"))).collect();
    if more & 1 == 1 {
        lines.push((n as i64 + 1, "main.s".into()));
        lines.push((-1, "main.t".into()));
        lines.push((1, "main.c.x".into()));
        lines.push((1, "a".into()));
    }
    let lo = if lines.len() <= 3 { order(lines.len()) } else { let k = sy::pick(lines.len() as u64) as usize; (0..lines.len()).map(|i| (i + k) % lines.len()).collect() };
    let mut sym = String::new();
    for (k, &l) in lo.iter().enumerate() { sym_line(&mut sym, k + 1, lines[l].0, &lines[l].1); }
    // inputs
    let vals: Vec<(String, Fr)> = (0..n).map(value).collect();
    let mut members = vec![];
    let mut at = 0;
    for x in &ins {
        let k = x.flat().len();
        let t: Vec<&str> = vals[at..at + k].iter().map(|v| v.0.as_str()).collect();
        members.push(match x {
            In::S(n) => format!("\"{n}\":{}", t[0]),
            In::A(n, _) => format!("\"{n}\":[{}]", t.join(",")),
            In::M(n, r, c) => format!("\"{n}\":[{}]", (0..*r).map(|i| format!("[{}]", t[i * c..(i + 1) * c].join(","))).collect::<Vec<_>>().join(",")),
        });
        at += k;
    }
    if more & 2 == 2 {
        for e in ["\"s\":7", "\"zz\":[8,[9]]", "\"main.r\":5", "\"a[9]\":5", "\"\":6"] { members.push(e.into()); }
    }
    let mo = order(members.len());
    let json = format!("{{{}}}", mo.iter().map(|&k| members[k].as_str()).collect::<Vec<_>>().join(", "));
    put(C, &r1cs(&plain(o, i, wires), &[1, 2]));
    put(S, sym.as_bytes());
    put(J, json.as_bytes());
    put(M, b"hello");
    sy::check(bind(cmd), "C15 encapsulation with all public values fails");
    sy::check(ideal().encaps.len() == 1, "C15 encapsulations");
    let l = &ideal().encaps[0];
    sy::check(l.instance.len() == n + 1, "C15 number of public values bound");
    sy::check(same(&l.instance[0], &Fr::from(1u64)), "C15 wire 0");
    for k in 0..n { sy::check(same(&l.instance[wire[k] + 1], &vals[k].1), "C15 public value on its wire"); }
    sy::check(l.witness.is_empty(), "C15 a name that is not public has an effect");
    sy::check(l.fresh, "C33 encapsulation does not use fresh system randomness");
    sy::reach("c15");
}
/// some of the public values are not given: the others must be bound all the same
fn partial(c: u64, gap: bool) {
    let (o, i, wires) = [(1u32, 1u32, 3u32), (0, 3, 4), (1, 2, 5)][(c % 3) as usize];
    let n = (o + i) as usize;
    let cmd = c / 3 % 3;
    let given = sy::pick(1 << n) as usize;
    let first = (0..n).find(|k| given >> k & 1 == 0).unwrap_or(n);
    if gap != (given >> first != 0) { sy::drop_path(); }
    let mut sym = String::new();
    for k in 0..n { sym_line(&mut sym, k + 1, k as i64 + 1, &format!("main.x{k}")); }
    let vals: Vec<(String, Fr)> = (0..n).map(value).collect();
    let m: Vec<String> = (0..n).filter(|k| given >> k & 1 == 1).map(|k| format!("\"x{k}\":{}", vals[k].0)).collect();
    put(C, &r1cs(&plain(o, i, wires), &[1, 2]));
    put(S, sym.as_bytes());
    put(J, format!("{{{}}}", m.join(",")).as_bytes());
    put(M, b"hello");
    if !bind(cmd) { sy::reach("c15 refused"); return; }
    let l = &ideal().encaps[0];
    for k in (0..n).filter(|k| given >> k & 1 == 1) {
        if gap {
            sy::check(l.instance.len() > k + 1 && same(&l.instance[k + 1], &vals[k].1), "C15 a public value given after one that is not given is not bound");
        } else {
            sy::check(l.instance.len() > k + 1 && same(&l.instance[k + 1], &vals[k].1), "C15 a given public value is not bound");
        }
    }
    sy::reach("c15 partial");
}
pub fn c15_partial() { partial(sy::case(), false) }
pub fn c15_gap() { partial(sy::case(), true) }

// ---- C16 ----
/// the field element bound for {"x": text}, or None if the command refuses; then nothing is written
fn bound(text: &str, name: &str, cmd: u64) -> Option<Fr> {
    put(C, &r1cs(&plain(0, 1, 2), &[1, 2]));
    put(S, format!("1,1,0,main.{name}\n").as_bytes());
    put(J, text.as_bytes());
    put(M, b"hello");
    if !bind(cmd) {
        sy::check(get("ct").is_none() && get("key").is_none() && get("out").is_none(), "C32 a failed command writes a file");
        return None;
    }
    let l = &ideal().encaps[0];
    sy::check(l.instance.len() == 2, "C16 a value is not bound");
    Some(l.instance[1])
}
fn digits(n: usize, lead: bool) -> String {
    (0..n).map(|i| { let d = sy::digit(); sy::assume(!lead || i > 0 || d != b'0' || n == 1); d as char }).collect()
}
fn spelled(neg: bool, d: &str) -> Fr {
    let mut r = Fr::zero();
    for b in d.bytes() {
        let (two, e) = (r + r, r + r + r + r + r + r + r + r);
        r = e + two + Fr::from((b - b'0') as u64);
    }
    if neg { -r } else { r }
}
/// a JSON integer of 1..18 arbitrary digits; case: digits + 32 * sign + 64 * command
pub fn c16_number() {
    let c = sy::case();
    let (n, neg, cmd) = (c as usize % 32, c / 32 % 2 == 1, c / 64);
    let d = digits(n, true);
    sy::assume(!neg || d != "0");
    let v = d.bytes().fold(0u64, |a, b| a * 10 + (b - b'0') as u64);
    let want = if neg { -Fr::from(v) } else { Fr::from(v) };
    match bound(&format!("{{\"x\": {}{d}}}", if neg { "-" } else { "" }), "x", cmd) {
        Some(f) => sy::check(same(&f, &want), if neg { "C16 value of a negative integer" } else { "C16 value of an integer" }),
        None => sy::check(false, "C16 an integer is refused"),
    }
    sy::reach("c16 number");
}
/// integers around the ends of the 64-bit ranges
pub fn c16_edges() {
    let c = sy::case();
    let (k, cmd) = (c % 8, c / 8);
    let stem = ["922337203685477580", "1844674407370955161", "-922337203685477580", "999999999999999999", "1844674407370955162", "-922337203685477581", "12345678901234567890", "-12345678901234567890"][k as usize];
    let d = sy::digit();
    let t = format!("{stem}{}", d as char);
    let v: i128 = stem.parse::<i128>().unwrap();
    let v = if v < 0 { v.wrapping_mul(10).wrapping_sub((d - b'0') as i128) } else { v.wrapping_mul(10).wrapping_add((d - b'0') as i128) };
    let ok = v <= u64::MAX as i128 && v >= i64::MIN as i128;
    match bound(&format!("{{\"x\":{t}}}"), "x", cmd) {
        Some(f) => {
            sy::check(ok, "C16 an integer beyond 64 bits is rounded");
            let m = Fr::from(v.unsigned_abs() as u64);
            sy::check(same(&f, &if v < 0 { -m } else { m }), "C16 value of a large integer");
            sy::reach("c16 large");
        }
        None => { sy::check(!ok, "C16 an integer is refused"); sy::reach("c16 too large") }
    }
}
/// a string of arbitrary digits; case: digits + 128 * (0 plain, 1 minus, 2 leading zeros) + 512 * command
pub fn c16_string() {
    let c = sy::case();
    let (n, k, cmd) = (c as usize % 128, c / 128 % 4, c / 512);
    let d = if k == 3 { format!("{}{}", "2188824287183927522224640574525727508854836440041603434369820418657580849561".chars().take(n).collect::<String>(), digits(2, false)) } else { digits(n, false) };
    let t = match k { 1 => format!("-{d}"), 2 => format!("000{d}"), _ => d.clone() };
    sy::assume(k != 1 || d.bytes().any(|b| b != b'0'));
    match bound(&format!("{{\"x\":\"{t}\"}}"), "x", cmd) {
        Some(f) => sy::check(same(&f, &spelled(k == 1, &d)), "C16 value of a decimal string"),
        None => sy::check(false, "C16 a decimal string is refused"),
    }
    sy::reach("c16 string");
}
/// any string of n printable characters
pub fn c16_any_string() {
    let c = sy::case();
    let (n, cmd) = (c as usize % 16, c / 16);
    let s: Vec<u8> = (0..n).map(|_| { let b = sy::u8(); sy::assume(b >= 0x20 && b < 0x7f && b != b'"' && b != b'\\' && b != b'_'); b }).collect();
    let body = if n > 0 && sy::fork(s[0] == b'-') { &s[1..] } else { &s[..] };
    let decimal = !body.is_empty() && body.iter().all(|b| b.is_ascii_digit());
    let zero = body.iter().all(|b| *b == b'0');
    let plus = n > 0 && s[0] == b'+';
    let t = String::from_utf8(s.clone()).unwrap();
    let r = bound(&format!("{{\"x\":\"{t}\"}}"), "x", cmd);
    if sy::fork(plus | (decimal & zero & (body.len() < n))) { sy::reach("c16 unspecified"); return; }
    match r {
        Some(f) => {
            sy::check(decimal, "C16 a string that is not a number is accepted");
            sy::check(same(&f, &spelled(body.len() < n, std::str::from_utf8(body).unwrap())), "C16 value of a decimal string");
            sy::reach("c16 any accepted");
        }
        None => { sy::check(!decimal, "C16 a decimal string is refused"); sy::reach("c16 any refused") }
    }
}
/// where array elements go; case: shape + 16 * command
pub fn c16_nested() {
    let c = sy::case();
    let (k, cmd) = (c % 16, c / 16);
    let d = sy::digit();
    let v = d as char;
    let (text, name) = match k {
        0 => (format!("[{v}]"), "x[0]"),
        1 => (format!("[1,{v}]"), "x[1]"),
        2 => (format!("[[{v}]]"), "x[0][0]"),
        3 => (format!("[[1,2],[3,\"{v}\"],[4]]"), "x[1][1]"),
        4 => (format!("[[1],{v}]"), "x[1]"),
        5 => (format!("[[],[[1,[2,{v}]]]]"), "x[1][0][1][1]"),
        6 => (format!("[0,1,2,3,4,5,6,7,8,9,10,{v},12]"), "x[11]"),
        7 => (format!("[[[[{v}]]]]"), "x[0][0][0][0]"),
        8 => (format!("{v}"), "x"),
        _ => (format!("[[0,1,2],[3,4,5],[6,{v},8]]"), "x[2][1]"),
    };
    match bound(&format!("{{\"w\":[1],\"x\":{text},\"y\":2}}"), name, cmd) {
        Some(f) => sy::check(same(&f, &Fr::from((d - b'0') as u64)), "C16 value of an array element"),
        None => sy::check(false, "C16 nested arrays are refused"),
    }
    sy::reach("c16 nested");
}
/// what is not a number; case: kind + 32 * place + 128 * command
pub fn c16_refused() {
    let c = sy::case();
    let (k, place, cmd) = (c % 32, c / 32 % 4, c / 128);
    let d = sy::digit() as char;
    let t = match k {
        0 => "true".into(), 1 => "false".into(), 2 => "null".into(), 3 => format!("1.{d}"), 4 => format!("{d}e2"), 5 => format!("{{\"a\":{d}}}"), 6 => "\"\"".into(),
        7 => format!("\"0x{d}\""), 8 => format!("\"{d}.0\""), 9 => format!("\" {d}\""), 10 => format!("\"{d}a\""), 11 => format!("\"--{d}\""), 12 => format!("\"{d}e1\""), 13 => format!("-{d}.0"),
        14 => "{}".into(), 15 => format!("\"1{d} \""), 16 => format!("0{d}"), 17 => format!("+{d}"), 18 => format!("\"{d}n\""), 19 => "\"-\"".into(), 20 => format!("1{d}E+3"), 21 => "nan".into(),
        22 => format!("\"\u{0663}{d}\""), _ => format!("0x{d}"),
    };
    let j = match place {
        0 => format!("{{\"x\":{t}}}"),
        1 => format!("{{\"x\":[1,{t}]}}"),
        2 => format!("{{\"x\":[[{t}],2]}}"),
        _ => format!("[{t}]"),
    };
    let name = ["x", "x[0]", "x[1]", "x"][place as usize];
    sy::check(bound(&j, name, cmd).is_none(), "C16 a value that is not an integer is accepted");
    sy::reach("c16 refused");
}

// ---- C12, C13 ----
fn seal(key: &[u8; 32], msg: &[u8]) -> Vec<u8> {
    let mut n = [0u8; 12];
    sy::entropy(&mut n);
    let mut o = n.to_vec();
    o.extend_from_slice(&Aes256Gcm::new_from_slice(key).unwrap().encrypt(Nonce::from_slice(&n), msg).unwrap());
    o
}
fn open(key: &[u8; 32], data: &[u8]) -> Option<Vec<u8>> {
    if data.len() < 28 { return None; }
    Aes256Gcm::new_from_slice(key).unwrap().decrypt(Nonce::from_slice(&data[..12]), &data[12..]).ok()
}
fn be(n: usize) -> [u8; 4] { (n as u32).to_be_bytes() }
fn witness_file(k: &Circ, fs: &[usize]) {
    let v: Vec<Vec<u8>> = (0..k.wires).map(|i| { let mut b = vec![0; 32]; b[0] = i as u8 + 1; b }).collect();
    put(C, &r1cs(k, &[1, 2]));
    put(W, &wtns(32, &[1; 32], &v, fs));
}
/// encrypt, look at the file, decrypt; case: message length + 64 * JSON kind + 1024 * ciphertext length
pub fn c12_encrypt() {
    let c = sy::case() as usize;
    let (n, jk) = (c % 64, c / 64 % 16);
    ideal().ct_len = c / 1024;
    let k = plain(0, 1, 3);
    witness_file(&k, &[1, 2]);
    put(S, b"1,1,0,main.x\n");
    let d = sy::digit() as char;
    let json = match jk / 2 {
        0 => format!("{{\"x\":{d}}}"),
        1 => format!(" {{ \"x\" : \"{d}\" ,\n\t\"y\": [1, 2] }}\r\n"),
        2 => format!("{{\"x\":{d},\"{}\":1}}", "k".repeat(300)),
        _ => format!("{{\"x\":{d},\"\u{e9}\":\"7\"}}"),
    };
    put(J, json.as_bytes());
    let msg = sy::bytes(n);
    put(M, &msg);
    let embed = jk % 2 == 1;
    sy::check(encrypt_command(C, S, J, M, "out", embed).is_ok(), "C12 encryption fails");
    let Some(out) = get("out") else { return sy::check(false, "C12 no output file") };
    let l = &ideal().encaps[0];
    let mut head = vec![embed as u8];
    head.extend_from_slice(&be(l.ct.len()));
    head.extend_from_slice(&l.ct);
    if embed {
        head.extend_from_slice(&be(json.len()));
        head.extend_from_slice(json.as_bytes());
    }
    sy::check(out.len() == head.len() + 28 + n, "C12 size of the output");
    sy::check(sy::eq(&out[..head.len()], &head), "C12 header of the output");
    let tail = &out[head.len()..];
    sy::check(sy::is_entropy(&tail[..12]), "C12 nonce of the message");
    match open(&l.key, tail) {
        Some(m) => sy::check(sy::eq(&m, &msg), "C12 encrypted message"),
        None => sy::check(false, "C12 the message is not encrypted under the encapsulated key"),
    }
    sy::check(l.fresh, "C33 encapsulation does not use fresh system randomness");
    sy::check(decrypt_command(C, W, "out", "plain").is_ok(), "C12 decryption fails");
    sy::check(get("plain").map_or(false, |p| sy::eq(&p, &msg)), "C12 decrypted message");
    sy::check(get("out").map_or(false, |p| sy::eq(&p, &out)), "C12 decryption changes its input");
    sy::reach("c12 encrypted");
}
fn record(ct: Vec<u8>, key: [u8; 32]) {
    ideal().encaps.push(Call { instance: vec![], witness: vec![], n_instance: 0, n_witness: 0, rows: vec![], synthesized: true, ct, key, fresh: true, random: None, known: true });
}
/// a file of the layout, whoever made it; case: message length + 64 * (0 bare, 1 + embedded length) + 1024 * ciphertext length
pub fn c12_decrypt() {
    let c = sy::case() as usize;
    let (n, e, w) = (c % 64, c / 64 % 16, c / 1024);
    let k = circ(1, 1, 4, 32, &[[1, 0, 0]]);
    witness_file(&k, &[2, 1]);
    let (ct, key, msg) = (sy::bytes(w), sy::array(), sy::bytes(n));
    record(ct.clone(), key);
    let mut f = vec![(e > 0) as u8];
    f.extend_from_slice(&be(w));
    f.extend_from_slice(&ct);
    if e > 0 {
        let j = if e < 4 { sy::bytes(e - 1) } else { "{\"a\":[1,\"2\"]} \u{20ac}".repeat(e - 3).into_bytes() };
        f.extend_from_slice(&be(j.len()));
        f.extend_from_slice(&j);
    }
    f.extend_from_slice(&seal(&key, &msg));
    put("in", &f);
    put("plain", &vec![0x55; 7 + n]);
    sy::check(decrypt_command(C, W, "in", "plain").is_ok(), "C12 decryption of a well-formed file fails");
    sy::check(get("plain").map_or(false, |p| sy::eq(&p, &msg)), "C12 decrypted message");
    let d = &ideal().decaps[0];
    sy::check(sy::eq(&d.ct, &ct), "C12 witness ciphertext handed over");
    sy::check(d.n_instance == 3 && d.n_witness == 1, "C12 witness handed over");
    sy::reach("c12 decrypted");
}
/// what the layout says about a file
fn layout_of(f: &[u8], flag: u8) -> Option<(usize, usize)> {
    let mut r = Rd(f, 1);
    fn len(r: &mut Rd) -> Option<()> {
        let b = r.take(4)?;
        let n = u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as u64;
        let left = (r.0.len() - r.1) as u64;
        if n > left { return None; }
        r.take(each(n, left) as usize)?;
        Some(())
    }
    if f.is_empty() { return None; }
    len(&mut r)?;
    let w_end = r.1;
    if flag == 1 { len(&mut r)?; }
    Some((w_end, r.1))
}
/// decrypt any file; the core opens any witness ciphertext
fn any_file(f: &[u8], key: [u8; 32], msgs: &[&[u8]]) {
    sy::alloc_limit(1 << 20);
    sy::step_limit(6_000_000);
    witness_file(&plain(0, 1, 3), &[1, 2]);
    ideal().foreign_parses = true;
    ideal().foreign_key = Some(key);
    put("in", f);
    let old = sy::pick(2) == 1;
    if old { put("plain", b"before") }
    // the layout first: afterwards every length is one number
    let flag = if f.is_empty() { 0 } else if sy::fork(f[0] == 1) { 1 } else { 0 };
    let lay = layout_of(f, flag);
    let want = lay.and_then(|(_, at)| open(&key, &f[at..]));
    let odd = !f.is_empty() && sy::fork(f[0] > 1);
    let ok = decrypt_command(C, W, "in", "plain").is_ok();
    sy::alloc_limit(u64::MAX);
    let out = get("plain");
    if ok {
        sy::check(want.is_some() && lay.is_some(), "C13 a malformed file is accepted");
        sy::check(out.is_some() && sy::eq(&out.unwrap(), &want.unwrap()), "C13 decrypted message");
        let d = &ideal().decaps[0];
        sy::check(sy::eq(&d.ct, &f[5..lay.unwrap().0]), "C13 witness ciphertext handed over");
        sy::reach("c13 accepted");
    } else {
        sy::check(want.is_none() || odd, "C13 a well-formed file is rejected");
        sy::check(if old { out.map_or(false, |o| o == b"before") } else { out.is_none() }, "C32 a failed command writes a file");
        sy::reach("c13 rejected");
    }
    let _ = msgs;
}
/// any n bytes
pub fn c13_any() {
    let n = sy::case() as usize;
    let f = sy::bytes(n);
    any_file(&f, [3; 32], &[]);
}
/// arbitrary flag and lengths over a file with a real message; case: ct + 4 * (0 bare, 1 + embedded) + 16 * message + 64 * what is arbitrary
pub fn c13_header() {
    let c = sy::case() as usize;
    let (w, e, n, what) = (c % 4, c / 4 % 4, c / 16 % 4, c / 64);
    let key = [9; 32];
    let msg = sy::bytes(n);
    let mut f = vec![if what & 1 == 1 { sy::u8() } else { (e > 0) as u8 }];
    let len = |f: &mut Vec<u8>, on: bool, n: usize| f.extend_from_slice(&if on { sy::u32().to_be_bytes() } else { be(n) });
    len(&mut f, what & 2 == 2, w);
    f.extend_from_slice(&vec![7; w]);
    if e > 0 {
        len(&mut f, what & 4 == 4, e - 1);
        f.extend_from_slice(&vec![b'j'; e - 1]);
    }
    let sealed = seal(&key, &msg);
    // an embedded part reaching into it is printed: its bytes are kept to one kind there
    if cfg!(target_arch = "riscv64") { sy::assume(sealed.iter().fold(0, |a, b| a | b) < 0x80) }
    f.extend_from_slice(&sealed);
    if what & 8 == 8 {
        // cut or damaged
        let at = sy::pick(f.len() as u64) as usize;
        if sy::pick(2) == 0 { f.truncate(at) } else { f[at] ^= 1 << sy::pick(8) }
    }
    any_file(&f, key, &[&msg]);
}

// ---- C32 ----
const OUT: [&str; 5] = ["ct", "key", "out", "plain", "key2"];
/// make one of a command's inputs unusable; case: command * 64 + defect * 2 + (output files exist before)
pub fn c32_fails() {
    let c = sy::case() as usize;
    let (cmd, defect, old) = (c / 64, c / 2 % 32, c % 2 == 1);
    let k = circ(0, 1, 3, 32, &[[1, 0, 0]]);
    witness_file(&k, &[1, 2]);
    put(S, b"1,1,0,main.x\n");
    put(J, b"{\"x\":5}");
    let msg = sy::bytes(3);
    put(M, &msg);
    let (ct, key) = (sy::bytes(4), sy::array::<32>());
    record(ct.clone(), key);
    put("ctin", &ct);
    let mut comb = vec![0];
    comb.extend_from_slice(&be(4));
    comb.extend_from_slice(&ct);
    comb.extend_from_slice(&seal(&key, &msg));
    put("in", &comb);
    let files: &[&str] = [&[C, S, J][..], &[C, W, "ctin"], &[C, S, J, M], &[C, W, "in"]][cmd];
    let junk = sy::bytes(2);
    let mut fails = true;
    match defect {
        // a file is missing, empty, cut short or replaced
        0..=3 => match files.get(defect) { Some(f) => std::fs::remove_file(f).unwrap(), None => sy::drop_path() },
        4..=7 => match files.get(defect - 4) { Some(f) => { put(f, b""); fails = !(*f == M || *f == S) } None => sy::drop_path() },
        8..=11 => match files.get(defect - 8) {
            Some(f) => { let mut b = get(f).unwrap(); let n = sy::pick(b.len() as u64) as usize; b.truncate(n); put(f, &b); fails = *f == C || *f == W || *f == "in" || *f == J }
            None => sy::drop_path(),
        },
        12..=15 => match files.get(defect - 12) { Some(f) => { put(f, &junk); fails = *f == C || *f == W || *f == "in" } None => sy::drop_path() },
        // the core refuses
        16 => { ideal().encap_fails = true; ideal().accept = false }
        // the witness does not fit the circuit
        17 => { let v = vec![vec![1u8; 32]; 2]; put(W, &wtns(32, &[1; 32], &v, &[1, 2])); fails = cmd == 1 || cmd == 3 }
        // a witness value that is not a field element
        18 => { let v = vec![vec![0xffu8; 32]; 3]; put(W, &wtns(32, &[1; 32], &v, &[1, 2])); fails = cmd == 1 || cmd == 3 }
        // the message was damaged, or belongs to another key
        19 => { let n = sy::pick(28 + 3) as usize; let at = 9 + n; comb[at] ^= 1 << sy::pick(8); put("in", &comb); fails = cmd == 3 }
        20 => { let k2 = sy::array::<32>(); sy::assume(!sy::eq(&k2, &key)); ideal().encaps[0].key = k2; fails = cmd == 3 }
        // symbol file or JSON of the wrong kind
        21 => { put(S, b"1,x,0,main.x\n"); fails = cmd == 0 || cmd == 2 }
        22 => { put(J, b"[5]"); fails = cmd == 0 || cmd == 2 }
        23 => { put(J, b"{\"x\":true}"); fails = cmd == 0 || cmd == 2 }
        24 => { put(J, b"{\"x\":\xff}"); fails = cmd == 0 || cmd == 2 }
        25 => { put(S, b"1,1,0,main.\xff\n"); fails = cmd == 0 || cmd == 2 }
        // a witness ciphertext that is not one
        26 => { ideal().encaps[0].ct = sy::bytes(4); sy::assume(!sy::eq(&ideal().encaps[0].ct, &ct)); fails = cmd == 1 || cmd == 3 }
        _ => sy::drop_path(),
    }
    if old { for o in OUT { put(o, b"before") } }
    let ok = match cmd {
        0 => encap_command(C, S, J, "ct", "key").is_ok(),
        1 => decap_command(C, W, "ctin", "key2").is_ok(),
        2 => encrypt_command(C, S, J, M, "out", defect % 2 == 0).is_ok(),
        _ => decrypt_command(C, W, "in", "plain").is_ok(),
    };
    if fails { sy::check(!ok, "C32 a command succeeds although an input is unusable"); }
    if !ok {
        for o in OUT {
            let g = get(o);
            sy::check(if old { g.map_or(false, |b| b == b"before") } else { g.is_none() }, "C32 a failed command writes a file");
        }
        sy::reach("c32 failed");
    } else {
        sy::reach("c32 succeeded");
    }
}
/// the commands write exactly their outputs
pub fn c32_outputs() {
    let cmd = sy::case();
    let k = circ(0, 1, 3, 32, &[[1, 0, 0]]);
    witness_file(&k, &[1, 2]);
    put(S, b"1,1,0,main.x\n");
    put(J, b"{\"x\":5}");
    sy::check(encap_command(C, S, J, "ct", "key").is_ok(), "C32 encap fails");
    let l = &ideal().encaps[0];
    sy::check(get("ct").map_or(false, |b| sy::eq(&b, &l.ct)) && get("key").map_or(false, |b| sy::eq(&b, &l.key)), "C32 what encap writes");
    if cmd == 1 {
        sy::check(decap_command(C, W, "ct", "key2").is_ok(), "C32 decap fails");
        sy::check(get("key2").map_or(false, |b| sy::eq(&b, &l.key)), "C32 what decap writes");
        sy::check(get("ct").map_or(false, |b| sy::eq(&b, &l.ct)) && get("key").map_or(false, |b| sy::eq(&b, &l.key)), "C32 decap changes other files");
    }
    sy::reach("c32 written");
}

// ---- C33 ----
/// several encapsulations, each with operating-system randomness of its own; case: what runs, three times 3 bits
pub fn c33_fresh() {
    let c = sy::case();
    let k = circ(0, 1, 3, 32, &[]);
    witness_file(&k, &[1, 2]);
    put(S, b"1,1,0,main.x\n");
    put(J, b"{\"x\":5}");
    let msg = sy::bytes(3);
    put(M, &msg);
    let mut nonces = vec![];
    for i in 0..3 {
        match c >> (3 * i) & 7 {
            0 => sy::check(encap_command(C, S, J, "ct", "key").is_ok(), "C33 encap fails"),
            1 | 2 => {
                sy::check(encrypt_command(C, S, J, M, "out", c >> (3 * i) & 7 == 1).is_ok(), "C33 encrypt fails");
                let o = get("out").unwrap();
                nonces.push((sy::last_entropy(&o[o.len() - 31..o.len() - 19]), 12));
            }
            3 => sy::check(crate::js::wasm_encap(&get(C).unwrap(), &get(W).unwrap()).is_ok(), "C33 wasm_encap fails"),
            _ => continue,
        }
        sy::check(ideal().encaps.last().unwrap().fresh, "C33 encapsulation does not use fresh system randomness");
    }
    let draws: Vec<(Option<usize>, usize)> = ideal().encaps.iter().map(|e| (e.random, 32)).chain(nonces).collect();
    for i in 0..draws.len() {
        sy::check(draws[i].0.is_some(), "C33 randomness that does not come from the system");
        for j in 0..i {
            let (a, b) = (draws[i].0.unwrap(), draws[j].0.unwrap());
            sy::check(a >= b + draws[j].1 || b >= a + draws[i].1, "C33 randomness is used twice");
        }
    }
    sy::reach("c33");
}
