// C27 (encapsulation), C28 (combined ciphertexts), C30 (initialization): zkenc.ts over a recording core, circuit module and ideal cipher
const P = 21888242871839275222246405745257275088548364400416034343698204186575808495617n;
const le = (b, at, n) => { let r = 0; for (let i = n - 1; i >= 0; i--) r = r * 256 + b[at + i]; return r; };
const be32 = (b, at) => ((b[at] * 256 + b[at + 1]) * 256 + b[at + 2]) * 256 + b[at + 3];
async function attempt(f) {
  try { return { ok: await f() }; } catch (e) { return { err: e }; }
}
// ---------------------------------------------------------------- the outside
function makeCrypto(log) {
  const raw = (x) => sy.bytesOf(x);
  const real = sy.symbolic ? null : globalThis.gcm;
  const err = (n) => { const e = new Error(n); e.name = n; return e; };
  return {
    getRandomValues(v) { const r = sy.bytes(v.length); v.set(r); return v; },
    subtle: {
      async importKey(format, key, alg, extractable, usages) {
        const k = raw(key);
        if (k.length !== 16 && k.length !== 24 && k.length !== 32) throw err("DataError");
        return { key: k, usages: [...usages], type: "secret" };
      },
      async encrypt(alg, ck, data) {
        const iv = raw(alg.iv), pt = raw(data), ct = sy.bytes(pt.length + 16);
        if (real) return real.seal(ck.key, iv, pt).buffer;
        log.push({ iv, pt, ct, key: ck.key });
        return ct.slice().buffer;
      },
      async decrypt(alg, ck, data) {
        const iv = raw(alg.iv), ct = raw(data);
        if (real) return real.open(ck.key, iv, ct).buffer;
        for (const e of log) {
          if (e.ct.length !== ct.length || e.iv.length !== iv.length) continue;
          if (sy.all([sy.eq(e.key, ck.key), sy.eq(e.iv, iv), sy.eq(e.ct, ct)])) return e.pt.slice().buffer;
        }
        throw err("OperationError");
      },
    },
  };
}
// a circuit module with one signal per name, all of size 1, that answers with the given values
function makeWasm(values) {
  const mem = [0, 0, 0, 0, 0, 0, 0, 0];
  const words = (v) => { for (let i = 0; i < 8; i++) { mem[i] = Number(v % 4294967296n); v = v / 4294967296n; } };
  const ex = {
    getVersion: () => 2, getFieldNumLen32: () => 8, getRawPrime: () => words(P), readSharedRWMemory: (i) => mem[i], writeSharedRWMemory: (i, v) => { mem[i] = v; },
    getWitnessSize: () => values.length, getInputSize: () => 0, getInputSignalSize: () => 1, init: () => {}, setInputSignal: () => {}, getWitness: (i) => words(values[i]), getMessageChar: () => 0,
  };
  return { compile: async (c) => ({ code: sy.bytesOf(c) }), instantiate: async () => ({ exports: ex }) };
}
// ---------------------------------------------------------------- C27
// what the file holds, or a failed check when it is not a well-formed version 2 witness file
function readWtns(b) {
  sy.check(b.length >= 12 && sy.eq([b[0], b[1], b[2], b[3]], [0x77, 0x74, 0x6e, 0x73]), "c27 magic");
  sy.check(le(b, 4, 4) === 2, "c27 version");
  const n = le(b, 8, 4);
  let at = 12, head = -1, data = -1, dataLen = 0;
  for (let i = 0; i < n; i++) {
    sy.check(at + 12 <= b.length, "c27 section header");
    const id = le(b, at, 4), len = le(b, at + 4, 8);
    at += 12;
    sy.check(at + len <= b.length, "c27 section length");
    if (id === 1) { sy.check(head < 0 && len === 40, "c27 header section"); head = at; }
    if (id === 2) { sy.check(data < 0, "c27 data section"); data = at; dataLen = len; }
    at += len;
  }
  sy.check(at === b.length, "c27 trailing bytes");
  sy.check(head > 0 && data > 0, "c27 sections");
  sy.check(le(b, head, 4) === 32, "c27 element size");
  for (let i = 0; i < 32; i++) sy.check(b[head + 4 + i] === Number((P >> BigInt(8 * i)) % 256n), "c27 prime");
  const count = le(b, head + 36, 4);
  sy.check(dataLen === 32 * count, "c27 data length");
  const out = [];
  for (let i = 0; i < count; i++) out.push(b.slice(data + 32 * i, data + 32 * i + 32));
  return out;
}
// m is the integer in [0, P) the element has to hold
function checkElement(e, m, label) {
  sy.check(sy.all(Array.from(e, (x, i) => BigInt(x) === (m >> BigInt(8 * i)) % 256n)), label);
}
const small = (v) => sy.ite(v < 0n, v + P, v); // v modulo P, for |v| < P
// one value of the given kind: what goes into the input object, and the integer modulo P it stands for
const QS = [0n, -1n, 1n, 5n, 6n, -2n, -5n, -6n, 17n, -17n, 1000n, -(1n << 64n)];
function leaf(kind) {
  if (kind === 0) { const v = sy.int(-9007199254740991, 9007199254740991); return [v, small(BigInt(v))]; }
  if (kind === 1 || kind === 2) { // any residue, at any of these distances from zero
    const m = sy.big(0n, P - 1n), v = m + QS[sy.choice(QS.length)] * P;
    return [kind === 1 ? v : v.toString(), m];
  }
  if (kind === 3) { const m = sy.big(0n, P - 1n); return [m.toString(), m]; }
  if (kind === 4 || kind === 5) { // digits, with a sign or leading zeros
    const s = sy.chars(kind === 4 ? 3 : 9, "0-9"), neg = sy.choice(2);
    let v = 0n;
    for (let i = 0; i < s.length; i++) v = v * 10n + BigInt(s.charCodeAt(i) - 48);
    return [(neg ? "-" : "") + s, neg ? sy.ite(v > 0n, P - v, v) : v];
  }
  if (kind === 6) { const v = sy.int(0, 255); return ["0x" + (v + 256).toString(16), BigInt(v) + 256n]; }
  const v = sy.choice(2);
  return [v, BigInt(v)];
}
// per shape: the signal names in wire order (from wire 1) and the input object built from their values
const SHAPES = [
  [["a"], ([a]) => ({ a })],
  [["a", "b"], ([a, b]) => ({ b, a })],
  [["c", "b", "a"], ([c, b, a]) => ({ a, b, c })],
  [["a[0]", "a[1]", "b"], ([x, y, b]) => ({ b, a: [x, y] })],
  [["m[0][0]", "m[0][1]", "m[1][0]", "m[1][1]"], (v) => ({ m: [[v[0], v[1]], [v[2], v[3]]] })],
  [["o.x", "o.y[0]", "z"], ([x, y, z]) => ({ z, o: { y: [y], x } })],
  [[], () => ({})],
  [["a[0]"], ([a]) => ({ a: [a] })],
  [["10", "9"], ([x, y]) => ({ 10: x, 9: y })],
];
exports.c27_encap = async function c27_encap() {
  const shape = SHAPES[sy.case % 16], kind = Math.floor(sy.case / 16) % 8, extra = Math.floor(sy.case / 128);
  const names = shape[0].slice();
  const vals = names.map((_, i) => leaf(i === 0 ? kind : kind === 7 ? 7 : (i & 1) ? 0 : kind));
  const inputs = shape[1](vals.map((v) => v[0]));
  const lines = names.map((n, i) => `${i + 1},${i + 1},0,main.${n}`);
  // other signals: private inputs after the public ones, internal signals without a wire, another component's signals
  lines.push(`90,${names.length + 1},0,main.secret`, `91,-1,0,main.gone`, `92,${names.length + 2},1,main.sub.a`);
  if (extra === 1) lines.reverse();
  if (extra === 2) { inputs.secret = sy.int(-3, 5); lines.push(`93,${names.length + 7},0,main.far`); inputs.far = 4; inputs.unknown = [1, 2]; }
  const r1cs = sy.view(5, 2, 1), r0 = r1cs.slice();
  const ct = sy.view(4, 1, 2), key = sy.bytes(32), ct0 = ct.slice(), key0 = key.slice();
  const calls = [];
  sy.stub("pkg/zkenc_js", {
    init: async () => {},
    wasm_encap: (a, b) => { calls.push([sy.bytesOf(a), sy.bytesOf(b)]); return { ciphertext: ct, key }; },
    wasm_decap: () => { sy.fail("c27 decap called"); },
  });
  const { encap } = use("zkenc");
  const res = await encap({ r1csBuffer: r1cs, symContent: lines.join("\n") + "\n" }, inputs);
  sy.check(calls.length === 1, "c27 one call");
  sy.check(sy.eq(calls[0][0], r0), "c27 circuit bytes");
  const els = readWtns(calls[0][1]);
  sy.check(els.length >= names.length + 1, "c27 every public input");
  checkElement(els[0], 1n, "c27 element 0");
  vals.forEach((v, i) => checkElement(els[i + 1], v[1], "c27 element"));
  sy.check(sy.eq(res.ciphertext, ct0), "c27 ciphertext");
  sy.check(sy.eq(res.key, key0), "c27 key");
  sy.check(sy.eq(r1cs, r0), "c27 circuit kept");
  sy.reach("c27");
};
// many wires, and wire ids assigned in an order of the solver's choice
exports.c27_wires = async function c27_wires() {
  const n = sy.case % 8, names = [], lines = [], left = [];
  for (let i = 0; i < n; i++) left.push(i + 1);
  const vals = [], order = [];
  for (let i = 0; i < n; i++) {
    const w = left.splice(sy.choice(left.length), 1)[0];
    lines.push(`${w},${w},0,main.x[${i}]`);
    order.push(w);
    vals.push(sy.int(-5, 70000));
  }
  const calls = [];
  sy.stub("pkg/zkenc_js", { init: () => undefined, wasm_encap: (a, b) => { calls.push(sy.bytesOf(b)); return { ciphertext: sy.bytes(1), key: sy.bytes(32) }; }, wasm_decap: () => {} });
  const { encap } = use("zkenc");
  await encap({ r1csBuffer: sy.bytes(1), symContent: lines.join("\n") }, { x: vals });
  const els = readWtns(calls[0]);
  sy.check(els.length >= n + 1, "c27 every public input");
  for (let i = 0; i < n; i++) checkElement(els[order[i]], small(BigInt(vals[i])), "c27 wire order");
  sy.reach("c27 wires");
};
exports.c27_many = async function c27_many() {
  const n = sy.case, vals = [], lines = [];
  for (let i = 0; i < n; i++) { vals.push(i < 3 || i === n - 1 ? sy.int(-1000, 1000000) : i * 7); lines.push(`${i + 1},${i + 1},0,main.x[${i}]`); }
  const calls = [];
  sy.stub("pkg/zkenc_js", { init: () => undefined, wasm_encap: (a, b) => { calls.push(sy.bytesOf(b)); return { ciphertext: sy.bytes(1), key: sy.bytes(32) }; }, wasm_decap: () => {} });
  const { encap } = use("zkenc");
  await encap({ r1csBuffer: sy.bytes(1), symContent: lines.join("\n") }, { x: vals });
  const els = readWtns(calls[0]);
  sy.check(els.length >= n + 1, "c27 every public input");
  for (let i = 0; i < n; i++) checkElement(els[i + 1], small(BigInt(vals[i])), "c27 many");
  sy.reach("c27 many");
};
// ---------------------------------------------------------------- C28
const SYM = "1,-1,0,main.w\n2,1,1,other.b\n"; // no input signals: any value may be embedded
const WITNESS = [1n, 7n, 9n];
function core(log, ct, key, opens) {
  return {
    init: async () => {},
    wasm_encap: () => ({ ciphertext: ct.slice(), key: key.slice() }),
    wasm_decap: (r, w, c) => { log.decap.push([sy.bytesOf(r), sy.bytesOf(w), sy.bytesOf(c)]); if (opens(sy.bytesOf(c))) return key.slice(); const other = sy.bytes(32); sy.assume(sy.not(sy.eq(other, key))); return other; },
  };
}
function setup(ctLen) {
  const log = { decap: [], aes: [] };
  sy.global("crypto", makeCrypto(log.aes));
  sy.global("WebAssembly", makeWasm(WITNESS));
  const ct = sy.bytes(ctLen), key = sy.bytes(32);
  return { log, ct, key };
}
// inputs with leaves of the solver's choice; every value survives JSON
const INPUTS = [
  () => ({ a: sy.int(0, 99), b: sy.int(-9, 9) }),
  () => ({ a: sy.chars(2, "0-9a-z\"\\ "), b: "1" }),
  () => ({ b: [1, 2], a: "3" }),
  () => ({ a: "12345678901234567890", b: "\u00e9\u4e2d" }),
  () => ({ b: { y: [[1], [2, "x"]], z: null }, a: 5 }),
  () => ({ a: 1, b: sy.chars(3, "\u0001-\u001f\u007f-\u00ff") }),
  () => ({}),
  () => ({ a: "", "b c": true }),
];
const files = (r1cs) => ({ r1csBuffer: r1cs, symContent: SYM, wasmBuffer: sy.bytes(2) });
// case = message length + 64 * inputs + 1024 * (0 default, 1 embedded, 2 not embedded) + 4096 * witness ciphertext length
exports.c28_roundtrip = async function c28_roundtrip() {
  const n = sy.case % 64, shape = Math.floor(sy.case / 64) % 16, mode = Math.floor(sy.case / 1024) % 4, m = Math.floor(sy.case / 4096);
  const { log, ct, key } = setup(m);
  const core0 = core(log, ct, key, (c) => sy.eq(c, ct));
  sy.stub("pkg/zkenc_js", core0);
  const { encrypt, decrypt, getPublicInput } = use("zkenc");
  const { calculateWitness } = use("witness");
  const inputs = INPUTS[shape](), r1cs = sy.bytes(3), msg = sy.view(n, 1, 1), msg0 = msg.slice();
  const f = files(r1cs);
  const opt = [[], [{ includePublicInput: true }], [{ includePublicInput: false }], [{}]][mode];
  const res = await encrypt(f, inputs, msg, ...opt);
  const c = res.ciphertext, embed = mode !== 2;
  sy.check(sy.eq(res.key, key), "c28 key");
  sy.check(sy.eq(msg, msg0), "c28 message kept");
  // the layout
  sy.check(c.length >= 5 + m, "c28 length");
  sy.check(c[0] === (embed ? 1 : 0), "c28 flag");
  sy.check(be32(c, 1) === m, "c28 witness length");
  sy.check(sy.eq(c.slice(5, 5 + m), ct), "c28 witness ciphertext");
  let at = 5 + m;
  if (embed) {
    const pl = be32(c, at);
    sy.check(at + 4 + pl <= c.length, "c28 public length");
    const back = JSON.parse(new TextDecoder("utf-8", { fatal: true }).decode(c.slice(at + 4, at + 4 + pl)));
    sy.check(sy.eq(back, inputs), "c28 public inputs");
    at += 4 + pl;
  }
  sy.check(c.length === at + n + 28, "c28 total length");
  // seen through a view into a larger buffer
  const big = new Uint8Array(c.length + 7), off = sy.choice(2) * 3;
  big.fill(0xaa);
  big.set(c, off);
  const view = big.subarray(off, off + c.length);
  const out = await decrypt({ r1csBuffer: r1cs, wasmBuffer: f.wasmBuffer }, view, { a: 1, b: 2 });
  sy.check(out instanceof Uint8Array && sy.eq(out, msg0), "c28 message");
  const w = await calculateWitness(f.wasmBuffer, { a: 1, b: 2 });
  sy.check(log.decap.length === 1 && sy.eq(log.decap[0][0], r1cs) && sy.eq(log.decap[0][1], w) && sy.eq(log.decap[0][2], ct), "c28 decap arguments");
  const pi = await attempt(() => getPublicInput(view));
  if (embed) {
    sy.check(pi.err === undefined && sy.eq(pi.ok, inputs), "c28 embedded inputs");
    sy.check(pi.err === undefined && sy.eq(Object.keys(pi.ok), Object.keys(inputs)), "c28 embedded order");
  } else sy.check(pi.err instanceof Error, "c28 no inputs embedded");
  sy.reach(embed ? "c28 embedded" : "c28 bare");
};
// a real ciphertext whose length fields or flag are replaced by anything: case = 0 witness length, 1 public length, 2 both, 3 flag, 4 a cut, 5 both and the flag; + 8 * not embedded; + 16 * a core that opens everything; + 32 * any witness length (else lengths beyond the end or near the real one)
exports.c28_mutated = async function c28_mutated() {
  const mode = sy.case % 8, bare = Math.floor(sy.case / 8) % 2, easy = Math.floor(sy.case / 16) % 2;
  const { log, ct, key } = setup(4);
  sy.stub("pkg/zkenc_js", core(log, ct, key, (c) => (easy ? true : sy.eq(c, ct))));
  const { encrypt, decrypt, getPublicInput } = use("zkenc");
  const r1cs = sy.bytes(1), f = files(r1cs), msg = sy.bytes(2);
  const c0 = (await encrypt(f, { a: "7" }, msg, { includePublicInput: !bare })).ciphertext;
  let c = c0.slice();
  const put = (at) => { const b = sy.bytes(4); for (let i = 0; i < 4; i++) c[at + i] = b[i]; };
  if (mode === 0 || mode === 2 || mode === 5) put(1);
  if (!bare && (mode === 1 || mode === 2 || mode === 5)) put(9);
  if (mode === 3 || mode === 5) c[0] = sy.byte();
  if (mode === 4) c = c.slice(0, sy.choice(c0.length));
  if (sy.case < 32 && c.length >= 5) { const w = be32(c, 1); sy.assume(sy.any([w + 5 > c.length - 2, sy.all([w >= 3, w <= 5]), w === 0])); }
  const d = await attempt(() => decrypt({ r1csBuffer: r1cs, wasmBuffer: f.wasmBuffer }, c, { a: 7 }));
  // what the format says about c
  let bad = true, at = 0, pub = null, wit = null;
  if (c.length >= 5) {
    const w = be32(c, 1);
    if (5 + w <= c.length) {
      wit = c.slice(5, 5 + w);
      at = 5 + w;
      bad = false;
      if (c[0] === 1) {
        if (at + 4 > c.length) bad = true;
        else {
          const p = be32(c, at);
          at += 4;
          if (at + p > c.length) bad = true;
          else { pub = c.slice(at, at + p); at += p; }
        }
      }
    }
  }
  if (bad) {
    sy.check(d.err instanceof Error, "c28 malformed decrypted");
    const g = await attempt(() => getPublicInput(c));
    sy.check(g.err instanceof Error, "c28 malformed inputs");
    sy.reach("c28 malformed");
    return;
  }
  const enc = c.slice(at), enc0 = c0.slice(c0.length - 30);
  const opens = (easy || sy.eq(wit, ct)) && enc.length === 30;
  if (c[0] <= 1) {
    if (opens && sy.eq(enc, enc0)) { sy.check(d.err === undefined && sy.eq(d.ok, msg), "c28 message"); sy.reach("c28 still opens"); }
    else if (!opens || sy.symbolic) sy.check(d.err instanceof Error, "c28 wrong message");
  }
  if (c[0] !== 1) { sy.check((await attempt(() => getPublicInput(c))).err instanceof Error, "c28 inputs without flag"); return; }
  if (!bare && sy.eq(pub, c0.slice(13, 13 + c0[12]))) { const g = await attempt(() => getPublicInput(c)); sy.check(g.err === undefined && sy.eq(g.ok, { a: "7" }), "c28 inputs"); sy.reach("c28 inputs read"); }
};
// any bytes
exports.c28_any = async function c28_any() {
  const n = sy.case % 32, off = Math.floor(sy.case / 32);
  const { log, ct, key } = setup(1);
  sy.stub("pkg/zkenc_js", core(log, ct, key, () => true));
  const { decrypt, getPublicInput } = use("zkenc");
  const c = sy.view(n, off, off ? 3 : 0), r1cs = sy.bytes(1);
  const d = await attempt(() => decrypt({ r1csBuffer: r1cs, wasmBuffer: sy.bytes(1) }, c, {}));
  sy.check(d.err instanceof Error, "c28 garbage decrypted");
  const g = await attempt(() => getPublicInput(c));
  let text = null;
  if (n >= 5 && c[0] === 1) {
    const w = be32(c, 1);
    if (9 + w <= n) {
      const p = be32(c, 5 + w);
      if (9 + w + p <= n) text = c.slice(9 + w, 9 + w + p);
    }
  }
  if (text === null) { sy.check(g.err instanceof Error, "c28 garbage inputs"); sy.reach("c28 garbage"); return; }
  const want = await attempt(() => JSON.parse(new TextDecoder().decode(text)));
  sy.check((g.err === undefined) === (want.err === undefined), "c28 parsed");
  if (want.err === undefined) { sy.check(sy.eq(g.ok, want.ok), "c28 parsed value"); sy.reach("c28 parsed"); } else sy.check(g.err instanceof Error, "c28 parse error");
};
// ---------------------------------------------------------------- C30
const ticks = async () => { for (let i = 0; i < 30; i++) await null; };
const OPS = ["encap", "decap", "encrypt", "decrypt"];
// case = number of calls + 4 * how init reports (0 promise, 1 throws or returns at once, 2 either, per attempt) + 16 * which calls (mixed by the solver when 0) + 64 * steps
exports.c30_schedule = async function c30_schedule() {
  const n = sy.case % 4, how = Math.floor(sy.case / 4) % 4, which = Math.floor(sy.case / 16) % 4, fuel = Math.floor(sy.case / 64);
  const log = [];
  sy.global("crypto", makeCrypto(log));
  const gate = []; // compilations waiting for the schedule
  const wasm = makeWasm([1n]);
  sy.global("WebAssembly", { compile: (c) => new Promise((res) => gate.push(() => res(wasm.compile(c)))), instantiate: wasm.instantiate });
  let ready = false, current = null, pending = null, started = 0, failed = 0, coreCalls = 0;
  const key = sy.bytes(32), ct = sy.bytes(1), boom = new Error("init failed");
  const touch = () => { coreCalls++; sy.check(ready, "c30 core used before it is ready"); };
  sy.stub("pkg/zkenc_js", {
    init: () => {
      started++;
      sy.check(pending === null, "c30 initialized twice at the same time");
      sy.check(!ready, "c30 initialized again");
      if (how === 1 || (how === 2 && sy.choice(2))) {
        if (sy.choice(2)) { failed++; if (current) current.hit = true; throw boom; }
        ready = true;
        return undefined;
      }
      return new Promise((res, rej) => { pending = { res, rej }; });
    },
    wasm_encap: () => { touch(); return { ciphertext: ct.slice(), key: key.slice() }; },
    wasm_decap: () => { touch(); return key.slice(); },
  });
  const Z = use("zkenc"), f = { r1csBuffer: sy.bytes(1), symContent: "", wasmBuffer: sy.bytes(1) };
  // a ciphertext made by another copy of the library
  const made = new Uint8Array(34);
  made[4] = 1;
  made[5] = ct[0];
  const nonce = sy.bytes(12), sub = sy.symbolic ? null : globalThis.gcm.seal(key, nonce, new Uint8Array(0));
  const filler = sy.bytes(16), tag = sub || filler;
  log.push({ iv: nonce, pt: new Uint8Array(0), ct: tag, key });
  made.set(nonce, 6);
  made.set(tag, 18);
  const calls = [];
  const begin = () => {
    const op = OPS[which === 1 ? 0 : which === 2 ? 1 : which === 3 ? [2, 3][sy.choice(2)] : sy.choice(2)];
    const c = { op, done: false, hit: false, waits: false };
    calls.push(c);
    current = c;
    const p = op === "encap" ? Z.encap(f, {}) : op === "decap" ? Z.decap(f, ct, {}) : op === "encrypt" ? Z.encrypt(f, {}, sy.bytes(0)) : Z.decrypt(f, made, {});
    current = null;
    p.then((v) => { c.done = true; c.ok = v; }, (e) => { c.done = true; c.err = e; });
  };
  const settle = (good) => {
    const q = pending;
    pending = null;
    if (good) { ready = true; q.res(); } else { failed++; calls.forEach((c) => { if (!c.done && c.waits) c.hit = true; }); q.rej(boom); }
  };
  // the schedule
  for (let i = 0; i < fuel; i++) {
    const acts = [];
    if (calls.length < n) acts.push(begin);
    if (pending) { acts.push(() => settle(true)); acts.push(() => settle(false)); }
    if (gate.length) acts.push(() => gate.shift()());
    if (!acts.length) break;
    acts[acts.length > 1 ? sy.choice(acts.length) : 0]();
    if (sy.choice(2)) {
      await ticks();
      // nothing else can hold these up
      if (pending && !gate.length) for (const c of calls) if (!c.done) c.waits = true;
    }
  }
  // let everything finish
  for (let i = 0; i < 12; i++) {
    await ticks();
    if (calls.length < n) begin();
    if (pending) settle(true);
    while (gate.length) gate.shift()();
  }
  await ticks();
  for (const c of calls) {
    sy.check(c.done, "c30 never finishes");
    if (c.hit) { sy.check(c.err !== undefined, "c30 failure not reported"); sy.reach("c30 failed"); }
    if (failed === 0) sy.check(c.err === undefined, "c30 fails without reason");
    if (c.err === undefined) sy.reach("c30 finished");
  }
  if (failed === 0) sy.check(started === 1, "c30 initialized once");
  sy.check(coreCalls >= calls.filter((c) => c.err === undefined).length, "c30 finishes without the core");
};
