// C29: the witness calculator over a circuit module that records what it is given
const BN = 21888242871839275222246405745257275088548364400416034343698204186575808495617n;
const PRIMES = [BN, 52435875175126190479447740508185965837690552500527637822603658699938581184513n, (1n << 256n) - 189n, 3n, 1n << 255n];
const M32 = 4294967296n, M64 = 1n << 64n;
async function attempt(f) {
  try { return { ok: await f() }; } catch (e) { return { err: e }; }
}
const s32 = (v) => sy.ite(v >= 2147483648, v - 4294967296, v); // how a wasm module hands out its 32-bit words
const u32 = (v) => sy.ite(v < 0, v + 4294967296, v);
const wrap = (v) => Number(BigInt(v) % M32); // how it takes them
function fnv(name) {
  let h = 14695981039346656037n;
  for (let i = 0; i < name.length; i++) h = ((h ^ BigInt(name.charCodeAt(i))) * 1099511628211n) % M64;
  return [Number(h / M32), Number(h % M32)];
}
const wordsOf = (v, n) => { const r = []; for (let i = 0; i < n; i++) r.push(Number((v >> BigInt(32 * i)) % M32)); return r; };
// signals: [name, size]; answers: words of every witness element
function circuit(n32, prime, signals, answers, opt = {}) {
  const mem = [], log = { init: [], set: [], sizes: [], bad: false, compiled: [] };
  for (let i = 0; i < n32; i++) mem.push(12345);
  const load = (ws) => { for (let i = 0; i < n32; i++) mem[i] = ws[i]; };
  const hashes = signals.map(([name]) => fnv(name));
  const find = (m, l) => { for (let i = 0; i < signals.length; i++) if (sy.all([u32(m) === hashes[i][0], u32(l) === hashes[i][1]])) return i; return -1; };
  let rt = null, msg = [];
  const total = signals.reduce((a, s) => a + s[1], 0);
  const ex = {
    getVersion: () => 2, getMinorVersion: () => 1, getPatchVersion: () => 6,
    getFieldNumLen32: () => n32,
    getRawPrime: () => load(wordsOf(prime, n32)),
    readSharedRWMemory: (i) => s32(mem[i]),
    writeSharedRWMemory: (i, v) => { if (i >= n32) log.bad = true; mem[i] = wrap(v); },
    getWitnessSize: () => answers.length,
    getInputSize: () => (opt.inputSize === undefined ? total : opt.inputSize),
    getInputSignalSize: (m, l) => { const k = find(m, l); return k < 0 ? -1 : signals[k][1]; },
    init: (c) => { log.init.push(c); log.set.length = 0; },
    setInputSignal: (m, l, i) => {
      const k = find(m, l);
      if (k < 0) rt.exceptionHandler(1);
      if (i >= signals[k][1]) rt.exceptionHandler(6);
      for (const e of log.set) if (e.k === k && e.i === i) rt.exceptionHandler(3);
      if (opt.failAt !== undefined && log.set.length === opt.failAt) {
        if (opt.message) { msg = [...opt.message].map((c) => c.charCodeAt(0)); rt.printErrorMessage(); }
        rt.exceptionHandler(opt.code);
      }
      log.set.push({ k, i, words: mem.slice() });
    },
    getWitness: (i) => { if (log.init.length === 0 || (total && log.set.length === 0)) log.bad = true; load(answers[i]); },
    getMessageChar: () => (msg.length ? msg.shift() : 0),
  };
  sy.global("WebAssembly", {
    compile: async (c) => { log.compiled.push(sy.bytesOf(c)); if (opt.noCompile) throw new Error("bad module"); return { module: true }; },
    instantiate: async (m, imports) => { rt = imports.runtime; return { exports: ex }; },
  });
  return log;
}
const value = (ws) => { let v = 0n; for (let i = ws.length - 1; i >= 0; i--) v = v * M32 + BigInt(ws[i]); return v; };
const same = (ws, v) => sy.all(ws.map((w, i) => BigInt(w) === (v >> BigInt(32 * i)) % M32));
// a value for the input object and the residue it stands for
const QS = [0n, -1n, 1n, 2n, -2n, 7n, -(1n << 64n)];
function leaf(kind, P) {
  if (kind === 5) { const v = sy.int(1, 70000); return P > 70000n ? [v, BigInt(v)] : [v % 3, BigInt(v % 3)]; }
  if (kind === 0) {
    const v = sy.int(-9007199254740991, 9007199254740991);
    if (P > 9007199254740991n) return [v, sy.ite(v < 0, BigInt(v) + P, BigInt(v))];
    const m = sy.big(0n, P - 1n), q = [0n, -1n, 1n, 3n, -3n][sy.choice(5)];
    return [Number(m + q * P), m];
  }
  if (kind === 1 || kind === 2) { const m = sy.big(0n, P - 1n), v = m + QS[sy.choice(QS.length)] * P; return [kind === 1 ? v : v.toString(), m]; }
  const s = sy.chars(4, "0-9"), neg = sy.choice(2);
  let v = 0n;
  for (let i = 0; i < 4; i++) v = v * 10n + BigInt(s.charCodeAt(i) - 48);
  return [(neg ? "-" : "") + s, P > 10000n ? (neg ? sy.ite(v > 0n, P - v, v) : v) : null, neg ? -v : v];
}
const SHAPES = [
  [[["a", 1]], ([a]) => ({ a })],
  [[["in", 2], ["b", 1]], ([x, y, b]) => ({ in: [x, y], b })],
  [[["m", 4]], (v) => ({ m: [[v[0], v[1]], [v[2], v[3]]] })],
  [[["b", 1], ["a", 1], ["c", 3]], ([b, a, c, d, e]) => ({ c: [[c], [d, [e]]], b: [b], a })],
  [[["long_signal_name", 1], ["\u00e9\u4e2d", 1]], ([x, y]) => ({ "\u00e9\u4e2d": y, long_signal_name: x })],
  [[["10", 1], ["9", 1]], ([x, y]) => ({ 10: x, 9: y })],
  [[], () => ({})],
];
// case = shape + 8 * kind + 64 * prime
exports.c29_inputs = async function c29_inputs() {
  const [signals, build] = SHAPES[sy.case % 8], kind = Math.floor(sy.case / 8) % 8, P = PRIMES[Math.floor(sy.case / 64) % 8];
  const n = signals.reduce((a, s) => a + s[1], 0), vals = [];
  for (let i = 0; i < n; i++) vals.push(leaf(i === 0 ? kind : 5, P));
  const code = sy.bytes(3), answers = [[1, 0, 0, 0, 0, 0, 0, 0]];
  const log = circuit(8, P, signals, answers);
  const { default: builder } = use("witness_calculator");
  const wc = await builder(code);
  sy.check(log.compiled.length === 1 && sy.eq(log.compiled[0], code), "c29 module");
  const input = build(vals.map((v) => v[0]));
  await wc.calculateWitness(input);
  sy.check(log.init.length === 1 && log.init[0] === 0, "c29 init");
  sy.check(log.set.length === n && !log.bad, "c29 every value");
  let at = 0;
  signals.forEach(([name, size], k) => {
    for (let i = 0; i < size; i++, at++) {
      const e = log.set.filter((x) => x.k === k && x.i === i);
      sy.check(e.length === 1, "c29 once");
      const v = vals[at];
      if (v[1] !== null) sy.check(same(e[0].words, v[1]), "c29 value");
      else { // a small prime: any multiple away
        const d = v[2] - value(e[0].words);
        sy.check(value(e[0].words) < P && d % P === 0n, "c29 value");
      }
    }
  });
  sy.check(sy.eq(Object.keys(input), Object.keys(build(vals.map((v) => v[0])))), "c29 input kept");
  sy.reach("c29 inputs");
};
// any prime below 2^bits, any value: case = n32 + 16 * negative + 32 * bits
exports.c29_prime = async function c29_prime() {
  const n32 = sy.case % 16, neg = Math.floor(sy.case / 16) % 2;
  const hi = (1n << BigInt(Math.floor(sy.case / 32))) - 1n;
  const P = sy.big(2n, hi), m = sy.big(0n, hi - 1n);
  sy.assume(m < P);
  const q = [0n, 1n, 2n][sy.choice(3)];
  const v = neg ? m - (q + 1n) * P : m + q * P;
  const log = circuit(n32, P, [["x", 1]], []);
  const { default: builder } = use("witness_calculator");
  const wc = await builder(sy.bytes(1));
  sy.check(wc.prime === P && wc.n32 === n32 && wc.witnessSize === 0 && wc.version === 2, "c29 description");
  await wc.calculateWitness({ x: v });
  sy.check(log.set.length === 1 && !log.bad, "c29 every value");
  sy.check(same(log.set[0].words, m), "c29 any prime");
  sy.reach("c29 prime");
};
// any name: case = length + 16 * alphabet
exports.c29_names = async function c29_names() {
  const n = sy.case % 16, set = ["a-z", "!-~", "\u0080-\uffff", "A-B"][Math.floor(sy.case / 16)];
  const name = sy.chars(n, set), other = "q";
  const log = circuit(8, BN, [["q", 1]], []);
  let got = null;
  const [hm, hl] = fnv(name);
  const W = use("witness_calculator");
  const wc = await W.default(sy.bytes(1));
  const ex = wc.instance.exports;
  ex.getInputSignalSize = (m, l) => { got = [u32(m), u32(l)]; return 1; };
  ex.setInputSignal = (m, l, i) => { sy.check(sy.all([u32(m) === hm, u32(l) === hl, i === 0]), "c29 name of the value"); log.set.push(1); };
  await wc.calculateWitness(sy.obj([[name, 5]]));
  sy.check(got !== null && sy.all([got[0] === hm, got[1] === hl]), "c29 name");
  sy.check(log.set.length === 1, "c29 named once");
  sy.reach("c29 names");
};
// wrong shapes: case = signal size + 8 * number of values
exports.c29_sizes = async function c29_sizes() {
  const size = sy.case % 8, n = Math.floor(sy.case / 8) % 8, extra = Math.floor(sy.case / 64) % 8;
  const vals = [];
  for (let i = 0; i < n; i++) vals.push(sy.int(-4, 4));
  const signals = [["s", size], ["t", 1]];
  const log = circuit(8, BN, signals, [[3, 0, 0, 0, 0, 0, 0, 0]]);
  const { default: builder } = use("witness_calculator");
  const { calculateWitness, calculateWitnessArray } = use("witness");
  const input = extra === 1 ? { t: 1, s: vals } : extra === 2 ? { s: vals, t: 1, u: 4 } : extra === 3 ? { s: vals } : extra === 4 ? { u: vals, t: 1, s: vals } : extra === 5 ? { t: 0 } : { s: n === 1 ? vals[0] : vals, t: [1] };
  const good = (extra === 0 || extra === 1 || extra > 5) && n === size || extra === 5 && size === 0;
  const f = [() => calculateWitness(sy.bytes(1), input), () => calculateWitnessArray(sy.bytes(1), input), async () => (await builder(sy.bytes(1))).calculateBinWitness(input)];
  for (const g of f) {
    const r = await attempt(g);
    sy.check((r.err === undefined) === good, good ? "c29 rejected" : "c29 accepted");
    if (r.err !== undefined) { sy.check(r.err instanceof Error, "c29 error"); sy.reach("c29 rejects"); }
  }
};
// too few values in total, as the circuit counts them
exports.c29_missing = async function c29_missing() {
  const want = sy.int(0, 4);
  circuit(8, BN, [["s", 2]], [], { inputSize: want });
  const { default: builder } = use("witness_calculator");
  const wc = await builder(sy.bytes(1));
  const r = await attempt(() => wc.calculateWitness({ s: [1, 2] }));
  sy.check(sy.eq(r.err === undefined, want <= 2), "c29 missing");
  sy.reach("c29 missing");
};
// a failing circuit: case = failing call + 4 * with message
exports.c29_fails = async function c29_fails() {
  const at = sy.case % 4, code = sy.int(0, 9), message = Math.floor(sy.case / 4) % 2 ? "why" : undefined;
  const log = circuit(8, BN, [["s", 2], ["t", 1]], [[1, 0, 0, 0, 0, 0, 0, 0]], { failAt: at, code, message });
  const { default: builder } = use("witness_calculator");
  const wc = await builder(sy.bytes(1), at === 1 ? { sanityCheck: true } : undefined);
  const r = await attempt(() => wc.calculateWTNSBin({ s: [1, 2], t: 3 }, at === 2));
  sy.check((r.err instanceof Error) === at < 3, "c29 circuit failure");
  sy.check(log.init.length === 1 && (log.init[0] !== 0) === (at === 1 || at === 2), "c29 sanity check");
  sy.reach("c29 fails");
};
exports.c29_compile = async function c29_compile() {
  circuit(8, BN, [], [], { noCompile: true });
  const { calculateWitness } = use("witness");
  const r = await attempt(() => calculateWitness(sy.bytes(2), {}));
  sy.check(r.err instanceof Error, "c29 broken module");
  sy.reach("c29 broken module");
};
// what comes back: case = n32 + 16 * witness size + 128 * prime
exports.c29_outputs = async function c29_outputs() {
  const n32 = sy.case % 16, n = Math.floor(sy.case / 16) % 8;
  const answers = [];
  for (let i = 0; i < n; i++) { const ws = []; for (let j = 0; j < n32; j++) ws.push(sy.int(0, 4294967295)); answers.push(ws); }
  const P = sy.big(2n, (1n << BigInt(32 * n32)) - 1n);
  const log = circuit(n32, P, [["t", 0]], answers);
  const W = use("witness"), { default: builder } = use("witness_calculator");
  const code = sy.bytes(1);
  const wc = await builder(code);
  const arr = await wc.calculateWitness({ t: [] });
  sy.check(arr.length === n && sy.all(arr.map((v, i) => v === value(answers[i]))), "c29 integers");
  const arr2 = await W.calculateWitnessArray(code, { t: [] });
  sy.check(arr2.length === n && sy.all(arr2.map((v, i) => v === value(answers[i]))), "c29 integers");
  const info = await W.getCircuitInfo(code);
  sy.check(sy.all([info.version === 2, info.n32 === n32, info.prime === P, info.witnessSize === n]), "c29 info");
  const bytesOf = (ws) => { const r = []; for (const w of ws) { let x = w; for (let j = 0; j < 4; j++) { r.push(x % 256); x = Math.floor(x / 256); } } return r; };
  const bin = await wc.calculateBinWitness({ t: [] });
  sy.check(sy.eq(Array.from(bin), answers.flatMap(bytesOf)), "c29 bytes");
  for (const w of [await wc.calculateWTNSBin({ t: [] }), await W.calculateWitness(code, { t: [] })]) {
    const want = [0x77, 0x74, 0x6e, 0x73, ...bytesOf([2, 2, 1, 8 + 4 * n32, 0, 4 * n32]), ...bytesOf(wordsOf(P, n32)), ...bytesOf([n, 2, 4 * n32 * n, 0]), ...answers.flatMap(bytesOf)];
    sy.check(w instanceof Uint8Array && w.length === want.length, "c29 file length");
    sy.check(sy.eq(Array.from(w), want), "c29 file");
  }
  sy.check(!log.bad && log.init.length === 5, "c29 order");
  sy.reach("c29 outputs");
};
