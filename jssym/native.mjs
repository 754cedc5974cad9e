// native.mjs AREA ENTRY CASE FILE: replay input vectors (one JSON array of vectors) on the real code, types stripped, nothing instrumented
import fs from "node:fs";
import * as nodeCrypto from "node:crypto";
import { Loader, segments } from "./load.mjs";
const [area, entry, cs, file] = process.argv.slice(2);
const vectors = JSON.parse(fs.readFileSync(file, "utf8"));
class Fail extends Error {}
globalThis.realSubtle = globalThis.crypto.subtle;
// AES-256-GCM at once, for harnesses in which the platform's own timing would change the schedule
globalThis.gcm = {
  seal(key, iv, pt) { const c = nodeCrypto.createCipheriv("aes-256-gcm", key, iv); return new Uint8Array(Buffer.concat([c.update(pt), c.final(), c.getAuthTag()])); },
  open(key, iv, ct) { const d = nodeCrypto.createDecipheriv("aes-256-gcm", key, iv); d.setAuthTag(ct.slice(ct.length - 16)); return new Uint8Array(Buffer.concat([d.update(ct.slice(0, ct.length - 16)), d.final()])); },
};
const names = ["crypto", "WebAssembly", "console"];
const loader = new Loader(names, null);
let ins, at, out, session;
const next = (lo, hi) => { lo = BigInt(lo); hi = BigInt(hi); const d = lo <= 0n && 0n <= hi ? 0n : lo; const v = at < ins.length ? BigInt(ins[at]) : d; at++; if (v < lo || v > hi) throw new Fail("diverged"); return v; };
function eq(a, b) {
  if (ArrayBuffer.isView(a) || ArrayBuffer.isView(b)) return ArrayBuffer.isView(a) && ArrayBuffer.isView(b) && a.constructor === b.constructor && a.length === b.length && a.every((x, i) => x === b[i]);
  if (typeof a !== "object" || typeof b !== "object" || a === null || b === null) return a === b || (a !== a && b !== b);
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  if (Array.isArray(a)) return a.length === b.length && a.every((x, i) => eq(x, b[i]));
  const k = Object.keys(a), l = Object.keys(b);
  return k.length === l.length && k.every((x) => Object.hasOwn(b, x) && eq(a[x], b[x]));
}
const show = (x) => {
  if (typeof x === "bigint") return x + "n";
  if (ArrayBuffer.isView(x)) return "[" + [...x].map(show).join(",") + "]";
  if (x instanceof Map) return "{" + [...x].map(([k, w]) => show(k) + ":" + show(w)).join(",") + "}";
  if (Array.isArray(x)) return "[" + x.map(show).join(",") + "]";
  if (typeof x === "object" && x !== null) return x instanceof Error ? "error" : "{" + Object.keys(x).map((k) => JSON.stringify(k) + ":" + show(x[k])).join(",") + "}";
  return typeof x === "string" ? JSON.stringify(x) : String(x);
};
const sy = {
  symbolic: false,
  get case() { return Number(cs); },
  int: (lo, hi) => Number(next(lo, hi)), big: (lo, hi) => next(lo, hi), bool: () => next(0, 1) === 1n, byte: () => Number(next(0, 255)),
  bytes: (n) => Uint8Array.from({ length: n }, () => Number(next(0, 255))),
  view: (n, b, a) => Uint8Array.from({ length: n + a + b }, () => Number(next(0, 255))).subarray(b, b + n),
  choice: (n) => Number(next(0, BigInt(n) - 1n)),
  chars: (n, spec) => {
    const sg = segments(spec), total = sg.reduce((q, [x, y]) => q + y - x + 1, 0);
    let o = "";
    for (let i = 0; i < n; i++) { let v = Number(next(0, total - 1)); for (const [x, y] of sg) { if (v <= y - x) { o += String.fromCharCode(x + v); break; } v -= y - x + 1; } }
    return o;
  },
  assume(c) { if (!c) throw new Fail("diverged"); },
  check(c, l) { if (!c) sy.fail(l); },
  fail(l) { out.failed = out.failed || "check " + l; throw new Fail("check " + l); },
  eq, not: (a) => !a, all: (l) => Array.from(l).every(Boolean), any: (l) => Array.from(l).some(Boolean), imp: (a, b) => !a || !!b,
  reach: (l) => out.reached.push(l), observe: (n, v) => out.observed.push([n, show(v)]),
  global: (n, v) => { session.globals[n] = v; if (n === "crypto") Object.defineProperty(globalThis, n, { value: v, configurable: true, writable: true }); else globalThis[n] = v; },
  stub: (s, e) => session.stubs.set(s, e),
  bytesOf: (x) => (x instanceof ArrayBuffer ? new Uint8Array(x).slice() : new Uint8Array(x.buffer, x.byteOffset, x.byteLength).slice()),
  obj: (es) => Object.fromEntries(es),
  ite: (c, a, b) => (c ? a : b), len: (a) => a.length,
};
process.on("unhandledRejection", () => {});
for (const v of vectors) {
  ins = v;
  at = 0;
  out = { status: "ok", reached: [], observed: [], msg: "" };
  session = loader.session({ crypto: globalThis.crypto, WebAssembly: globalThis.WebAssembly, console: { log() {}, error() {}, warn() {} } });
  try {
    const h = session.harness(area, sy);
    const end = Symbol();
    let timer;
    const r = await Promise.race([h[entry](), new Promise((q) => { timer = setTimeout(() => q(end), 6000); })]);
    clearTimeout(timer);
    if (r === end) out.status = "hang";
  } catch (e) {
    out.msg = String(e && e.message);
    out.status = e instanceof Fail ? (e.message === "diverged" ? "diverged" : "check") : "panic";
  }
  if (out.failed && out.status !== "diverged") { out.status = "check"; out.msg = out.failed; }
  await new Promise((r) => setImmediate(r));
  fs.writeSync(1, JSON.stringify(out) + "\n");
}
process.exit(0);
