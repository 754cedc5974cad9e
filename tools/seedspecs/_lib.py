MODS = '''#![allow(dead_code)]
#[path = "repo/packages/zkenc-cli/src/circom.rs"]
pub mod circom;
#[path = "repo/packages/zkenc-cli/src/crypto.rs"]
pub mod crypto;
#[path = "repo/packages/zkenc-cli/src/r1cs.rs"]
pub mod r1cs;
#[path = "repo/packages/zkenc-cli/src/serializable.rs"]
pub mod serializable;
#[path = "repo/packages/zkenc-cli/src/sym_parser.rs"]
pub mod sym_parser;
#[path = "repo/packages/zkenc-core/src/serializable.rs"]
pub mod core_serializable;
'''
R1 = '''
type Lc = Vec<(u32, Vec<u8>)>;
fn file(fs: u32, wires: u32, out: u32, inp: u32, prv: u32, cons: &[[Lc; 3]], extra: &[u8]) -> Vec<u8> {
    let mut h = fs.to_le_bytes().to_vec();
    h.extend(vec![7u8; fs as usize]);
    for n in [wires, out, inp, prv] { h.extend(n.to_le_bytes()); }
    h.extend(9u64.to_le_bytes());
    h.extend((cons.len() as u32).to_le_bytes());
    let mut c = vec![];
    for k in cons { for l in k { c.extend((l.len() as u32).to_le_bytes()); for (w, v) in l { c.extend(w.to_le_bytes()); c.extend(v); } } }
    let mut f = b"r1cs".to_vec();
    f.extend(1u32.to_le_bytes());
    f.extend((if extra.is_empty() { 2u32 } else { 3 }).to_le_bytes());
    let mut sec = |t: u32, b: &[u8]| { f.extend(t.to_le_bytes()); f.extend((b.len() as u64).to_le_bytes()); f.extend(b); };
    sec(1, &h);
    sec(2, &c);
    if !extra.is_empty() { sec(3, extra); }
    f
}
'''
# TypeScript demonstrations: the package's sources with their types stripped, a stand-in for the wasm core beside them
TSPREP = r'''
import fs from "node:fs";
import { stripTypeScriptTypes } from "node:module";
const S = "repo/packages/zkenc-js/src";
fs.mkdirSync("src"); fs.mkdirSync("pkg");
fs.writeFileSync("package.json", '{"type":"module"}');
for (const f of fs.readdirSync(S)) if (f.endsWith(".ts") && !f.endsWith(".test.ts")) fs.writeFileSync("src/" + f.replace(/ts$/, "js"), stripTypeScriptTypes(fs.readFileSync(S + "/" + f, "utf8"), { mode: "transform" }));
fs.writeFileSync("pkg/zkenc_js.js", 'const c = globalThis.core;\nexport const init = () => c.init();\nexport const wasm_encap = (a, b) => c.encap(a, b);\nexport const wasm_decap = (a, b, d) => c.decap(a, b, d);\n');
'''
TSRUN = '''node --no-warnings prep.mjs || exit 99
timeout 60 node --no-warnings demo.mjs
'''
def ts(code):
    return dict(script=TSRUN, files={"prep.mjs": TSPREP, "demo.mjs": 'import assert from "node:assert";\n' + code})
CORE = '''
globalThis.core = { init: async () => {}, encap: (r, w) => { core.seen = w; return { ciphertext: Uint8Array.of(1, 2, 3), key: new Uint8Array(32).fill(7) }; }, decap: (r, w, c) => { if (c.length !== 3 || c[2] !== 3) return new Uint8Array(32); return new Uint8Array(32).fill(7); } };
const els = (w) => { const r = []; for (let a = w.length - 32 * new DataView(w.buffer, w.byteOffset).getUint32(60, true); a < w.length; a += 32) { let v = 0n; for (let i = 31; i >= 0; i--) v = v * 256n + BigInt(w[a + i]); r.push(v); } return r; };
'''
WASM = '''
// a circuit module that records what it is given
function circuit(signals, answers, log) {
  const P = 21888242871839275222246405745257275088548364400416034343698204186575808495617n, M = 4294967296n;
  let mem = new Int32Array(8);
  const load = (v) => { for (let i = 0; i < 8; i++) { mem[i] = Number(v % M); v /= M; } };
  const fnv = (s) => { let h = 0xcbf29ce484222325n; for (let i = 0; i < s.length; i++) h = ((h ^ BigInt(s.charCodeAt(i))) * 0x100000001b3n) % (1n << 64n); return h; };
  const find = (m, l) => signals.find((s) => fnv(s[0]) === BigInt(m >>> 0) * M + BigInt(l >>> 0));
  const ex = {
    getVersion: () => 2, getFieldNumLen32: () => 8, getRawPrime: () => load(P), readSharedRWMemory: (i) => mem[i], writeSharedRWMemory: (i, v) => { mem[i] = v; },
    getWitnessSize: () => answers.length, getInputSize: () => signals.reduce((a, s) => a + s[1], 0), getInputSignalSize: (m, l) => (find(m, l) || [0, -1])[1],
    init: () => {}, setInputSignal: (m, l, i) => { let v = 0n; for (let j = 7; j >= 0; j--) v = v * M + BigInt(mem[j] >>> 0); log.push([find(m, l)[0], i, v]); }, getWitness: (i) => load(answers[i]), getMessageChar: () => 0,
  };
  globalThis.WebAssembly = { compile: async () => ({}), instantiate: async () => ({ exports: ex }) };
}
'''
