// Integer and boolean terms.  An integer term denotes a mathematical integer with a known interval [lo,hi]; it is
// translated to two's complement bit-vectors wide enough for its interval, so no operation ever wraps by accident.
import { spawn } from "node:child_process";

const table = new Map();
let nextId = 1;
export let stamp = { run: 0 };
export const sizes = () => nextId - 1;

function mk(op, args, lo, hi, extra) {
  let key = op;
  for (const a of args) key += "," + (typeof a === "object" ? a.id : "k" + a);
  if (extra !== undefined) key += ";" + extra;
  let n = table.get(key);
  if (!n) {
    n = { id: nextId++, op, args, lo, hi, extra, ev: undefined, evRun: -1 };
    table.set(key, n);
  }
  return n;
}
const min = (...x) => x.reduce((a, b) => (a < b ? a : b));
const max = (...x) => x.reduce((a, b) => (a > b ? a : b));
export const isNode = (x) => typeof x === "object" && x !== null && x.id !== undefined && x.op !== undefined;

// ---------------------------------------------------------------- integers
export function K(v) {
  v = BigInt(v);
  return mk("k", [], v, v, String(v));
}
const isK = (n) => n.op === "k";
export const asK = (n) => (n.lo === n.hi ? n.lo : undefined);
export function V(name, lo, hi) {
  lo = BigInt(lo);
  hi = BigInt(hi);
  if (lo === hi) return K(lo);
  return mk("v", [], lo, hi, name);
}
const norm = (n) => (n.lo === n.hi && !isK(n) ? K(n.lo) : n);
const pow2 = (k) => 1n << BigInt(k);
const log2 = (v) => {
  // exponent when v is a power of two
  if (v <= 0n || (v & (v - 1n)) !== 0n) return -1;
  return v.toString(2).length - 1;
};

export function add(a, b) {
  if (isK(a) && isK(b)) return K(a.lo + b.lo);
  if (isK(a)) [a, b] = [b, a];
  if (isK(b)) {
    if (b.lo === 0n) return a;
    if (a.op === "add" && isK(a.args[1])) return add(a.args[0], K(a.args[1].lo + b.lo));
    if (a.op === "ite") return ite(a.args[0], add(a.args[1], b), add(a.args[2], b));
  } else if (a.id > b.id) [a, b] = [b, a];
  if (a.op === "neg" && a.args[0] === b) return K(0);
  if (b.op === "neg" && b.args[0] === a) return K(0);
  return norm(mk("add", [a, b], a.lo + b.lo, a.hi + b.hi));
}
export function neg(a) {
  if (isK(a)) return K(-a.lo);
  if (a.op === "neg") return a.args[0];
  if (a.op === "add" && isK(a.args[1])) return add(neg(a.args[0]), K(-a.args[1].lo));
  return mk("neg", [a], -a.hi, -a.lo);
}
export const sub = (a, b) => (a === b ? K(0) : add(a, neg(b)));
export function mul(a, b) {
  if (isK(a) && isK(b)) return K(a.lo * b.lo);
  if (isK(a)) [a, b] = [b, a];
  if (isK(b)) {
    if (b.lo === 0n) return K(0);
    if (b.lo === 1n) return a;
    if (b.lo === -1n) return neg(a);
    if (a.op === "mul" && isK(a.args[1])) return mul(a.args[0], K(a.args[1].lo * b.lo));
  } else if (a.id > b.id) [a, b] = [b, a];
  const p = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi];
  return norm(mk("mul", [a, b], min(...p), max(...p)));
}
const tq = (a, b) => a / b; // BigInt division truncates
export function tdiv(a, b) {
  // truncating division; b must exclude 0
  if (isK(a) && isK(b)) return K(a.lo / b.lo);
  if (isK(b)) {
    if (b.lo === 1n) return a;
    const l = log2(b.lo);
    if (l >= 0 && a.lo >= 0n) return shr(a, l);
    if (b.lo > 0n) {
      const q0 = a.lo / b.lo, q1 = a.hi / b.lo;
      if (q1 - q0 <= 16n) {
        // a short chain of comparisons instead of a divider
        let r = K(q1);
        for (let q = q1 - 1n; q >= q0; q--) r = ite(q >= 0n ? lt(a, K((q + 1n) * b.lo)) : le(a, K(q * b.lo)), K(q), r);
        return r;
      }
      return norm(mk("tdiv", [a, b], q0, q1));
    }
  }
  const m = max(a.hi < 0n ? -a.hi : a.hi, a.lo < 0n ? -a.lo : a.lo);
  if (a.lo >= 0n && b.lo > 0n) return norm(mk("tdiv", [a, b], a.lo / b.hi, a.hi / b.lo));
  return mk("tdiv", [a, b], -m, m);
}
export function trem(a, b) {
  // remainder with the sign of the dividend; b must exclude 0
  if (isK(a) && isK(b)) return K(a.lo % b.lo);
  if (isK(b)) {
    const d = b.lo < 0n ? -b.lo : b.lo;
    if (d === 1n) return K(0);
    if (a.lo > -d && a.hi < d) return a;
    const l = log2(d);
    if (l >= 0 && a.lo >= 0n) return bits(a, l);
    const q0 = a.lo / d, q1 = a.hi / d;
    if (q1 - q0 <= 16n) {
      let r = sub(a, K(q1 * d));
      for (let q = q1 - 1n; q >= q0; q--) r = ite(q >= 0n ? lt(a, K((q + 1n) * d)) : le(a, K(q * d)), sub(a, K(q * d)), r);
      return clamp(r, a.lo < 0n ? 1n - d : 0n, a.hi > 0n ? d - 1n : 0n);
    }
    return mk("trem", [a, K(d)], a.lo < 0n ? max(1n - d, a.lo) : 0n, a.hi > 0n ? min(d - 1n, a.hi) : 0n);
  }
  const m = max(b.hi < 0n ? -b.hi : b.hi, b.lo < 0n ? -b.lo : b.lo) - 1n;
  return mk("trem", [a, b], a.lo < 0n ? max(-m, a.lo) : 0n, a.hi > 0n ? min(m, a.hi) : 0n);
}
// the same value with a tighter interval, known to contain it
export function clamp(n, lo, hi) {
  if (lo <= n.lo && n.hi <= hi) return n;
  return norm(mk("clamp", [n], max(lo, n.lo), min(hi, n.hi)));
}
export function shr(a, k) {
  // floor(a / 2^k)
  k = Number(k);
  if (k === 0) return a;
  if (isK(a)) return K(a.lo >> BigInt(k));
  const lo = a.lo >> BigInt(k), hi = a.hi >> BigInt(k);
  if (lo === hi) return K(lo);
  if (a.op === "shr") return shr(a.args[0], a.args[1] + k);
  if (a.op === "bits" && k < a.args[1]) return bits(shr(a.args[0], k), a.args[1] - k);
  if (a.op === "mul" && isK(a.args[1])) {
    const l = log2(a.args[1].lo);
    if (l >= k) return mul(a.args[0], K(pow2(l - k)));
  }
  return mk("shr", [a, k], lo, hi);
}
export function bits(a, k) {
  // a mod 2^k, in [0, 2^k)
  k = Number(k);
  if (k === 0) return K(0);
  if (a.lo >= 0n && a.hi < pow2(k)) return a;
  if (isK(a)) return K(a.lo & (pow2(k) - 1n));
  if (a.op === "bits") return bits(a.args[0], Math.min(k, a.args[1]));
  if (a.op === "sbits" && a.args[1] >= k) return bits(a.args[0], k);
  if (a.op === "ite") return ite(a.args[0], bits(a.args[1], k), bits(a.args[2], k));
  return mk("bits", [a, k], 0n, pow2(k) - 1n);
}
export function sbits(a, k) {
  // low k bits of a read as a signed number
  k = Number(k);
  const h = pow2(k - 1);
  if (a.lo >= -h && a.hi < h) return a;
  if (isK(a)) return K(BigInt.asIntN(k, a.lo));
  if (a.op === "bits" && a.args[1] >= k) return sbits(a.args[0], k);
  return mk("sbits", [a, k], -h, h - 1n);
}
const bl = (v) => (v === 0n ? 0 : v.toString(2).length);
export function logic(op, a, b) {
  const f = { and: (x, y) => x & y, or: (x, y) => x | y, xor: (x, y) => x ^ y }[op];
  if (isK(a) && isK(b)) return K(f(a.lo, b.lo));
  if (isK(a)) [a, b] = [b, a];
  if (isK(b)) {
    if (op === "and") {
      if (b.lo === 0n) return K(0);
      if (b.lo === -1n) return a;
      if (log2(b.lo + 1n) >= 0) return bits(a, log2(b.lo + 1n));
    } else if (b.lo === 0n) return a;
  }
  if (a === b) return op === "xor" ? K(0) : a;
  let lo, hi;
  if (a.lo >= 0n && b.lo >= 0n) {
    const w = BigInt(Math.max(bl(a.hi), bl(b.hi)));
    lo = 0n;
    hi = op === "and" ? min(a.hi, b.hi) : (1n << w) - 1n;
    if (op === "or") {
      lo = max(a.lo, b.lo);
      // disjoint bits: a sum
      for (const [x, y] of [[a, b], [b, a]]) {
        const z = trailing(x);
        if (z > 0n && y.hi < 1n << z) return add(x, y);
      }
    }
  } else if (op === "and" && (a.lo >= 0n || b.lo >= 0n)) {
    lo = 0n;
    hi = a.lo >= 0n && b.lo >= 0n ? min(a.hi, b.hi) : a.lo >= 0n ? a.hi : b.hi;
  } else {
    const w = BigInt(Math.max(width(a), width(b)) - 1);
    lo = -(1n << w);
    hi = (1n << w) - 1n;
  }
  if (!isK(b) && a.id > b.id) [a, b] = [b, a];
  return norm(mk(op, [a, b], lo, hi));
}
function trailing(n) {
  // number of low bits known to be zero
  if (isK(n)) {
    if (n.lo === 0n) return 1000n;
    let z = 0n, v = n.lo;
    while ((v & 1n) === 0n) { v >>= 1n; z++; }
    return z;
  }
  if (n.op === "mul") return trailing(n.args[0]) + trailing(n.args[1]);
  if (n.op === "add") { const a = trailing(n.args[0]), b = trailing(n.args[1]); return a < b ? a : b; }
  return 0n;
}
export function ite(c, a, b) {
  if (c === TRUE) return a;
  if (c === FALSE) return b;
  if (a === b) return a;
  if (c.op === "not") return ite(c.args[0], b, a);
  return mk("ite", [c, a, b], min(a.lo, b.lo), max(a.hi, b.hi));
}
// little-endian bytes back to one number
export function fromBytes(bs) {
  const part = (n, i) => {
    // (source, bit offset) when n is 8 bits of something
    if (n.op === "bits" && n.args[1] === 8) return n.args[0].op === "shr" ? [n.args[0].args[0], n.args[0].args[1]] : [n.args[0], 0];
    if (n.op === "shr") return [n.args[0], n.args[1]];
    return [n, 0];
  };
  const [s0, o0] = part(bs[0], 0);
  if (!isK(s0) && bs.every((b, i) => { const e = bits(shr(s0, o0 + 8 * i), 8); return e === b; })) return bits(shr(s0, o0), 8 * bs.length);
  let r = K(0);
  bs.forEach((b, i) => { r = add(r, mul(b, K(pow2(8 * i)))); });
  return r;
}

// ---------------------------------------------------------------- booleans
export const TRUE = mk("true", []);
export const FALSE = mk("false", []);
export const B = (x) => (x ? TRUE : FALSE);
export function not(a) {
  if (a === TRUE) return FALSE;
  if (a === FALSE) return TRUE;
  if (a.op === "not") return a.args[0];
  return mk("not", [a]);
}
export function and(...xs) {
  const s = new Map();
  for (const x of xs.flatMap((x) => (x.op === "band" ? x.args : [x]))) {
    if (x === FALSE) return FALSE;
    if (x !== TRUE) s.set(x.id, x);
  }
  for (const x of s.values()) if (s.has(not(x).id)) return FALSE;
  if (s.size === 0) return TRUE;
  const l = [...s.values()].sort((a, b) => a.id - b.id);
  return l.length === 1 ? l[0] : mk("band", l);
}
export const or = (...xs) => not(and(...xs.map(not)));
export function eq(a, b) {
  if (a === b) return TRUE;
  if (a.hi < b.lo || b.hi < a.lo) return FALSE;
  if (isK(a)) [a, b] = [b, a];
  if (isK(b)) {
    if (isK(a)) return B(a.lo === b.lo);
    if (a.op === "add" && isK(a.args[1])) return eq(a.args[0], K(b.lo - a.args[1].lo));
    if (a.op === "ite" && (isK(a.args[1]) || isK(a.args[2]))) return or(and(a.args[0], eq(a.args[1], b)), and(not(a.args[0]), eq(a.args[2], b)));
    if (a.op === "neg") return eq(a.args[0], K(-b.lo));
  } else if (a.id > b.id) [a, b] = [b, a];
  return mk("eq", [a, b]);
}
export function lt(a, b) {
  if (a.hi < b.lo) return TRUE;
  if (a.lo >= b.hi) return FALSE;
  if (a === b) return FALSE;
  if (isK(b) && a.op === "add" && isK(a.args[1])) return lt(a.args[0], K(b.lo - a.args[1].lo));
  if (isK(a) && b.op === "add" && isK(b.args[1])) return lt(K(a.lo - b.args[1].lo), b.args[0]);
  return mk("lt", [a, b]);
}
export const le = (a, b) => not(lt(b, a));
export function beq(a, b) {
  if (a === b) return TRUE;
  return or(and(a, b), and(not(a), not(b)));
}

// ---------------------------------------------------------------- concrete evaluation under the current model
export const model = new Map(); // variable name -> BigInt
const sx = (v, k) => BigInt.asIntN(k, v);
export function ev(n) {
  if (n.evRun === stamp.run) return n.ev;
  let v;
  const a = n.args;
  switch (n.op) {
    case "k": v = n.lo; break;
    case "v": {
      v = model.get(n.extra);
      if (v === undefined) {
        v = n.lo <= 0n && 0n <= n.hi ? 0n : n.lo;
        model.set(n.extra, v);
      }
      break;
    }
    case "add": v = ev(a[0]) + ev(a[1]); break;
    case "neg": v = -ev(a[0]); break;
    case "mul": v = ev(a[0]) * ev(a[1]); break;
    case "tdiv": v = ev(a[0]) / ev(a[1]); break;
    case "trem": v = ev(a[0]) % ev(a[1]); break;
    case "clamp": v = ev(a[0]); break;
    case "shr": v = ev(a[0]) >> BigInt(a[1]); break;
    case "bits": v = BigInt.asUintN(a[1], ev(a[0])); break;
    case "sbits": v = sx(ev(a[0]), a[1]); break;
    case "and": v = ev(a[0]) & ev(a[1]); break;
    case "or": v = ev(a[0]) | ev(a[1]); break;
    case "xor": v = ev(a[0]) ^ ev(a[1]); break;
    case "ite": v = ev(a[0]) ? ev(a[1]) : ev(a[2]); break;
    case "true": v = true; break;
    case "false": v = false; break;
    case "not": v = !ev(a[0]); break;
    case "band": v = a.every((x) => ev(x)); break;
    case "eq": v = ev(a[0]) === ev(a[1]); break;
    case "lt": v = ev(a[0]) < ev(a[1]); break;
    default: throw new Error("ev " + n.op);
  }
  n.ev = v;
  n.evRun = stamp.run;
  return v;
}

// ---------------------------------------------------------------- SMT-LIB
export function width(n) {
  // signed width that holds the interval
  const f = (v) => (v >= 0n ? bl(v) + 1 : bl(-v - 1n) + 1);
  return Math.max(f(n.lo), f(n.hi));
}
const lit = (v, w) => `(_ bv${BigInt.asUintN(w, v)} ${w})`;

export class Solver {
  constructor(timeoutMs, bin = "z3", dump = null) {
    this.p = spawn(bin, ["-in", "-smt2"], { stdio: ["pipe", "pipe", "inherit"] });
    this.p.stdin.on("error", () => {});
    this.buf = "";
    this.wait = [];
    this.out = [];
    this.defs = new Map();
    this.vars = new Map();
    this.stack = [];
    this.dump = dump;
    this.stats = { queries: 0, sat: 0, unsat: 0, unknown: 0, solver_s: 0, max_query_s: 0, hits: 0 };
    this.p.stdout.on("data", (d) => {
      this.buf += d;
      let i;
      for (;;) {
        // one reply ends at a line that closes all parentheses
        i = this.buf.indexOf("\n");
        if (i < 0) return;
        let depth = 0, j = 0, done = -1;
        for (; j < this.buf.length; j++) {
          const c = this.buf[j];
          if (c === "(") depth++;
          else if (c === ")") depth--;
          else if (c === "\n" && depth === 0) { done = j; break; }
        }
        if (done < 0) return;
        const r = this.buf.slice(0, done).trim();
        this.buf = this.buf.slice(done + 1);
        if (r === "") continue;
        const w = this.wait.shift();
        if (w) w(r);
      }
    });
    this.p.on("exit", () => { this.dead = true; for (const w of this.wait) w("(error \"solver ended\")"); this.wait = []; });
    this.send(`(set-option :print-success false)(set-option :global-declarations true)(set-option :produce-models true)(set-option :timeout ${timeoutMs})(set-logic QF_BV)`);
    this.log = [];
  }
  send(s) { this.out.push(s); if (this.dump) this.dump(s); }
  ask(s) {
    this.out.push(s);
    if (this.dump) this.dump(s);
    const t = this.out.join("\n") + "\n";
    this.out = [];
    if (this.dead) return Promise.resolve('(error "solver ended")');
    return new Promise((res) => { this.wait.push(res); this.p.stdin.write(t); });
  }
  // term of width w congruent to n modulo 2^w
  tr(n, w) {
    const W = width(n);
    if (isK(n)) return lit(n.lo, w);
    if (w > W) {
      const t = this.tr(n, W);
      const k = n.lo >= 0n ? "zero" : "sign";
      return this.def(`((_ ${k}_extend ${w - W}) ${t})`, `(_ BitVec ${w})`, `${n.id}:${w}`);
    }
    const key = `${n.id}:${w}`;
    const h = this.defs.get(key);
    if (h) return h;
    const a = n.args;
    let t;
    const cut = (x, from) => (from === w ? x : `((_ extract ${w - 1} 0) ${x})`);
    switch (n.op) {
      case "v": {
        let nm = this.vars.get(n.extra);
        if (!nm) {
          nm = `v${this.vars.size}_${W}`;
          this.vars.set(n.extra, nm);
          this.send(`(declare-const ${nm} (_ BitVec ${W}))`);
          this.bases = this.bases || [];
          this.bases.push(`(assert (and (bvsle ${lit(n.lo, W)} ${nm}) (bvsle ${nm} ${lit(n.hi, W)})))`);
        }
        t = cut(nm, W);
        break;
      }
      case "add": t = `(bvadd ${this.tr(a[0], w)} ${this.tr(a[1], w)})`; break;
      case "neg": t = `(bvneg ${this.tr(a[0], w)})`; break;
      case "mul": t = `(bvmul ${this.tr(a[0], w)} ${this.tr(a[1], w)})`; break;
      case "and": case "or": case "xor": t = `(bv${n.op} ${this.tr(a[0], w)} ${this.tr(a[1], w)})`; break;
      case "clamp": t = this.tr(a[0], w); break;
      case "ite": t = `(ite ${this.tb(a[0])} ${this.tr(a[1], w)} ${this.tr(a[2], w)})`; break;
      case "tdiv": case "trem": {
        const x = Math.max(width(a[0]), width(a[1])) + 1;
        const nn = a[0].lo >= 0n && a[1].lo >= 0n;
        const o = n.op === "tdiv" ? (nn ? "bvudiv" : "bvsdiv") : nn ? "bvurem" : "bvsrem";
        t = cut(`(${o} ${this.tr(a[0], x)} ${this.tr(a[1], x)})`, x);
        break;
      }
      case "shr": {
        const x = a[1] + w; // bits a[1] .. a[1]+w-1
        t = `((_ extract ${x - 1} ${a[1]}) ${this.tr(a[0], x)})`;
        break;
      }
      case "bits": {
        if (w <= a[1]) t = this.tr(a[0], w);
        else t = `((_ zero_extend ${w - a[1]}) ${this.tr(a[0], a[1])})`;
        break;
      }
      case "sbits": {
        if (w <= a[1]) t = this.tr(a[0], w);
        else t = `((_ sign_extend ${w - a[1]}) ${this.tr(a[0], a[1])})`;
        break;
      }
      default: throw new Error("tr " + n.op);
    }
    return this.def(t, `(_ BitVec ${w})`, key);
  }
  def(t, sort, key) {
    let h = this.defs.get(key);
    if (h) return h;
    if (t.length < 24 && !t.includes("(")) h = t;
    else {
      h = `d${this.defs.size}`;
      this.send(`(define-fun ${h} () ${sort} ${t})`);
    }
    this.defs.set(key, h);
    return h;
  }
  tb(n) {
    if (n === TRUE) return "true";
    if (n === FALSE) return "false";
    const key = `${n.id}:b`;
    const h = this.defs.get(key);
    if (h) return h;
    const a = n.args;
    let t;
    switch (n.op) {
      case "not": t = `(not ${this.tb(a[0])})`; break;
      case "band": t = `(and ${a.map((x) => this.tb(x)).join(" ")})`; break;
      case "eq": { const w = Math.max(width(a[0]), width(a[1])); t = `(= ${this.tr(a[0], w)} ${this.tr(a[1], w)})`; break; }
      case "lt": { const w = Math.max(width(a[0]), width(a[1])); t = `(bvslt ${this.tr(a[0], w)} ${this.tr(a[1], w)})`; break; }
      case "ite": t = `(ite ${a.map((x) => this.tb(x)).join(" ")})`; break;
      default: throw new Error("tb " + n.op);
    }
    return this.def(t, "Bool", key);
  }
  // make the asserted stack equal to the first k conditions of `conds`
  rewind(conds, k) {
    let c = 0;
    while (c < k && c < this.stack.length && this.stack[c] === conds[c]) c++;
    if (this.stack.length > c) {
      this.send(`(pop ${this.stack.length - c})`);
      this.stack.length = c;
    }
    for (; c < k; c++) this.assert(conds[c]);
  }
  assert(n) {
    const t = this.tb(n);
    this.bases2();
    this.send(`(push 1)(assert ${t})`);
    this.stack.push(n);
  }
  bases2() {
    // variable ranges must survive pops: assert them at level 0
    if (this.bases && this.bases.length) {
      const s = this.stack;
      if (s.length) this.send(`(pop ${s.length})`);
      for (const b of this.bases) this.send(b);
      this.bases = [];
      for (const n of s) this.send(`(push 1)(assert ${this.tb(n)})`);
    }
  }
  async check(n, wantModel) {
    const t = this.tb(n);
    this.bases2();
    const t0 = performance.now();
    this.send(`(push 1)(assert ${t})`);
    let r = await this.ask("(check-sat)");
    let m = null;
    if (r === "sat" && wantModel) {
      const names = [...this.vars];
      m = new Map();
      if (names.length) {
        const o = await this.ask(`(get-value (${names.map((x) => x[1]).join(" ")}))`);
        const re = /\((v\d+_(\d+)) (#x[0-9a-f]+|#b[01]+|\(_ bv(\d+) \d+\))\)/g;
        const got = new Map();
        let k;
        while ((k = re.exec(o))) {
          const raw = k[4] !== undefined ? BigInt(k[4]) : BigInt("0" + k[3].slice(1));
          got.set(k[1], BigInt.asIntN(Number(k[2]), raw));
        }
        for (const [x, v] of names) {
          if (!got.has(v)) throw new Error("no value for " + v + " in " + o.slice(0, 300));
          m.set(x, got.get(v));
        }
      }
    }
    this.send("(pop 1)");
    const dt = (performance.now() - t0) / 1000;
    const s = this.stats;
    s.queries++;
    s.solver_s += dt;
    s.max_query_s = Math.max(s.max_query_s, dt);
    if (r.startsWith("(error")) throw new Error("solver: " + r);
    if (r === "sat") s.sat++;
    else if (r === "unsat") s.unsat++;
    else { s.unknown++; r = "unknown"; }
    return { r, m };
  }
  close() { this.p.stdin.end(); this.p.kill(); }
}
