// Symbolic runtime: the operators and built-ins of the instrumented code, over symbolic and concrete values.
import * as T from "./term.mjs";
const { K, ev, isNode } = T;
const N = (x) => Number(x);

export class Abort extends Error {
  constructor(kind, msg) { super(msg); this.kind = kind; }
}

// ---------------------------------------------------------------- one run
export const run = {
  trace: [], onPath: new Set(), inputs: [], reached: new Set(), observed: [], steps: 0, maxSteps: 400000, functions: new Set(),
  aborted: null, unsupported: new Set(), expect: [],
};
export function resetRun(expect) {
  run.expect = expect;
  T.stamp.run++;
  Object.assign(run, { trace: [], onPath: new Set(), inputs: [], reached: new Set(), observed: [], steps: 0, aborted: null });
}
function abort(kind, msg) {
  const e = new Abort(kind, msg);
  run.aborted = run.aborted || e;
  throw e;
}
function onPath(lit) {
  run.onPath.add(lit.id);
  if (lit.op === "band") for (const x of lit.args) onPath(x);
}
function implied(lit) {
  if (run.onPath.has(lit.id)) return true;
  if (lit.op === "band") return lit.args.every(implied);
  if (lit.op === "not" && lit.args[0].op === "band") return lit.args[0].args.some((x) => run.onPath.has(T.not(x).id));
  return false;
}
export function decide(n) {
  if (n === T.TRUE) return true;
  if (n === T.FALSE) return false;
  const v = ev(n), lit = v ? n : T.not(n);
  if (!implied(lit)) {
    run.trace.push({ k: "b", n: lit });
    onPath(lit);
  }
  return v;
}
export function concInt(n) {
  const v = ev(n);
  // the values this path was told to leave out come first, in the order they were left out
  for (;;) {
    const e = run.expect[run.trace.length];
    if (!e || e.conc !== n) break;
    const lit = T.not(T.eq(n, K(e.v)));
    if (e.n !== lit) break;
    run.trace.push({ k: "b", n: lit, conc: n, v: e.v });
    onPath(lit);
  }
  const c = T.eq(n, K(v));
  if (c !== T.TRUE && !implied(c)) {
    run.trace.push({ k: "b", n: c, conc: n, v });
    onPath(c);
  }
  return v;
}

// ---------------------------------------------------------------- symbolic values
export class Sym {
  [Symbol.toPrimitive]() { return conc(this); }
  toJSON() { return conc(this); }
}
export class SymNum extends Sym {
  constructor(n) { super(); this.n = n; }
  toString(r) { return numToStr(this.n, r === undefined ? 10 : N(r)); }
  valueOf() { return this; }
  toLocaleString() { return String(conc(this)); }
  toFixed(k) { return k ? String(conc(this).toFixed(k)) : numToStr(this.n, 10); }
}
export class SymBig extends Sym {
  constructor(n) { super(); this.n = n; }
  toString(r) { return numToStr(this.n, r === undefined ? 10 : N(r)); }
  valueOf() { return this; }
}
export class SymBool extends Sym {
  constructor(n) { super(); this.n = n; }
  toString() { return String(decide(this.n)); }
  valueOf() { return this; }
}
class SymRat extends Sym {
  constructor(a, b) { super(); this.a = a; this.b = b; }
}
const SAFE = 1n << 53n;
export function num(n) {
  const k = T.asK(n);
  if (k !== undefined) return N(k);
  if (n.lo < -SAFE || n.hi > SAFE) {
    // would round: exact only when the value is small
    const c = T.and(T.le(K(-SAFE), n), T.le(n, K(SAFE)));
    if (!decide(c)) return N(concInt(n));
    n = T.clamp(n, -SAFE, SAFE);
  }
  return new SymNum(n);
}
export const big = (n) => { const k = T.asK(n); return k !== undefined ? k : new SymBig(n); };
export const bool = (n) => (n === T.TRUE ? true : n === T.FALSE ? false : new SymBool(n));
export const isSym = (x) => x instanceof Sym;

export function conc(x) {
  if (x instanceof SymNum) return N(concInt(x.n));
  if (x instanceof SymBig) return concInt(x.n);
  if (x instanceof SymBool) return decide(x.n);
  if (x instanceof SymStr) return String.fromCharCode(...x.cs.map((c) => (isNode(c) ? N(concInt(c)) : c)));
  if (x instanceof SymRat) return N(concInt(x.a)) / N(concInt(x.b));
  return x;
}
const unsupported = (what) => { run.unsupported.add(what); };
// integer node of a value used as a JS number; null when it is not an exact integer
function nodeOf(x) {
  if (x instanceof SymNum) return x.n;
  if (x instanceof SymBool) return T.ite(x.n, K(1), K(0));
  if (typeof x === "number") return Number.isSafeInteger(x) ? K(x) : null;
  if (typeof x === "boolean") return K(x ? 1 : 0);
  return null;
}
const bigNode = (x) => (x instanceof SymBig ? x.n : typeof x === "bigint" ? K(x) : null);
export const isBig = (x) => x instanceof SymBig || typeof x === "bigint";
export const isStr = (x) => x instanceof SymStr || typeof x === "string";
export const isNum = (x) => x instanceof SymNum || x instanceof SymRat || typeof x === "number";

// ---------------------------------------------------------------- strings
// a character that is the digit of a known number remembers it
const digitOf = new Map(); // char node id -> [digit node, radix]
function digitChar(d, radix, src, at) {
  const k = T.asK(d);
  if (k !== undefined) return N(k).toString(36).charCodeAt(0);
  const c = d.hi < 10n ? T.add(d, K(48)) : T.ite(T.lt(d, K(10)), T.add(d, K(48)), T.add(d, K(87)));
  digitOf.set(c.id, [d, radix, src, at]);
  return c;
}
function digits(n, radix) {
  // n >= 0, as characters without leading zeros
  const out = [];
  const r = BigInt(radix), lg = { 2: 1, 4: 2, 8: 3, 16: 4, 32: 5 }[radix];
  let p = 1n, i = 0;
  for (;;) {
    const d = lg ? T.bits(T.shr(n, i * lg), lg) : T.trem(T.tdiv(n, K(p)), K(r));
    out.unshift(digitChar(d, radix, n, i));
    p *= r;
    i++;
    if (n.hi < p || !decide(T.le(K(p), n))) return out;
  }
}
function numToStr(n, radix) {
  const k = T.asK(n);
  if (k !== undefined) return k.toString(radix);
  return new SymStr(null, () => {
    const neg = n.lo < 0n && decide(T.lt(n, K(0)));
    const m = neg ? T.clamp(T.neg(n), 1n, -n.lo) : T.clamp(n, 0n, n.hi);
    return (neg ? [45] : []).concat(digits(m, radix));
  }, { num: n, radix });
}
const WSR = [[9, 13], [32, 32], [160, 160], [0x1680, 0x1680], [0x2000, 0x200a], [0x2028, 0x2029], [0x202f, 0x202f], [0x205f, 0x205f], [0x3000, 0x3000], [0xfeff, 0xfeff]];
const nd = (c) => (isNode(c) ? c : K(c));
export const inR = (c, rs) => T.or(...rs.map(([a, b]) => (a === b ? T.eq(nd(c), K(a)) : T.and(T.le(K(a), nd(c)), T.le(nd(c), K(b))))));
const isWS = (c) => decide(inR(c, WSR));
const chEq = (a, b) => T.eq(nd(a), nd(b));
export function str(cs) {
  return cs.every((c) => !isNode(c)) ? cs.map((c) => String.fromCharCode(c)).join("") : new SymStr(cs);
}
export const codes = (s) => {
  if (s instanceof SymStr) return s.cs;
  const r = new Array(s.length);
  for (let i = 0; i < s.length; i++) r[i] = s.charCodeAt(i);
  return r;
};
const fixc = (c) => (isNode(c) && T.asK(c) !== undefined ? N(T.asK(c)) : c);
export function strEq(a, b) {
  if (a instanceof SymStr && b instanceof SymStr && a.meta && b.meta && a.meta.num && b.meta.num && a.meta.radix === b.meta.radix) return T.eq(a.meta.num, b.meta.num);
  a = codes(a);
  b = codes(b);
  return a.length !== b.length ? T.FALSE : T.and(...a.map((c, i) => chEq(c, b[i])));
}
// an index; beyond n in either direction every value acts like n (or -n - 1), so those are not told apart
function idx(x, dflt, n) {
  if (x === undefined) return dflt;
  x = toNum(x);
  if (x instanceof SymNum && n !== undefined) {
    if (x.n.hi >= BigInt(n) && decide(T.le(K(n), x.n))) return n;
    if (x.n.lo < -BigInt(n) && decide(T.lt(x.n, K(-n)))) return -n - 1;
  }
  if (x instanceof Sym) x = conc(x);
  return Number.isNaN(x) ? 0 : Math.trunc(x);
}
const matchAt = (cs, p, i) => p.length + i <= cs.length && decide(T.and(...p.map((c, j) => chEq(c, cs[i + j]))));

export class SymStr extends Sym {
  constructor(cs, lazy, meta) {
    super();
    this._cs = cs && cs.map(fixc);
    this.lazy = lazy;
    this.meta = meta;
  }
  get cs() {
    if (!this._cs) this._cs = this.lazy().map(fixc);
    return this._cs;
  }
  get length() { return this.cs.length; }
  toString() { return this; }
  valueOf() { return this; }
  at(i) { i = idx(i, 0, this.length); if (i < 0) i += this.length; return i >= 0 && i < this.length ? str([this.cs[i]]) : undefined; }
  charAt(i) { i = idx(i, 0, this.length); return i >= 0 && i < this.length ? str([this.cs[i]]) : ""; }
  charCodeAt(i) { i = idx(i, 0, this.length); return i >= 0 && i < this.length ? (isNode(this.cs[i]) ? num(this.cs[i]) : this.cs[i]) : NaN; }
  codePointAt(i) {
    i = idx(i, 0);
    if (!(i >= 0 && i < this.length)) return undefined;
    const c = this.cs[i];
    if (isNode(c)) { if (decide(inR(c, [[0xd800, 0xdbff]])) && i + 1 < this.length) return conc(this).codePointAt(i); return num(c); }
    return c >= 0xd800 && c <= 0xdbff ? conc(this).codePointAt(i) : c;
  }
  slice(a, b) { const n = this.length; a = idx(a, 0, n); b = idx(b, n, n); if (a < 0) a = Math.max(0, a + n); if (b < 0) b = Math.max(0, b + n); return str(this.cs.slice(a, Math.max(a, b))); }
  substring(a, b) { const n = this.length; a = Math.min(Math.max(idx(a, 0, n), 0), n); b = Math.min(Math.max(idx(b, n, n), 0), n); if (a > b) [a, b] = [b, a]; return str(this.cs.slice(a, b)); }
  substr(a, l) { const n = this.length; a = idx(a, 0, n); if (a < 0) a = Math.max(0, a + n); l = idx(l, n - a, n); return str(this.cs.slice(a, a + Math.max(0, l))); }
  startsWith(p, i) { return this._at(tostr(p), idx(i, 0, this.length + 1)); }
  endsWith(p, e) { p = tostr(p); const n = Math.min(idx(e, this.length, this.length), this.length); return n < p.length ? false : this._at(p, n - p.length); }
  _at(p, i) { p = codes(p); return p.length + i > this.length ? false : bool(T.and(...p.map((c, j) => chEq(c, this.cs[i + j])))); }
  indexOf(p, i) { p = codes(tostr(p)); i = Math.max(0, idx(i, 0, this.length)); for (; i + p.length <= this.length; i++) if (matchAt(this.cs, p, i)) return i; return -1; }
  lastIndexOf(p, from) { p = codes(tostr(p)); let i = Math.min(idx(from, Infinity), this.length - p.length); for (; i >= 0; i--) if (matchAt(this.cs, p, i)) return i; return -1; }
  includes(p, i) { return this.indexOf(p, i) >= 0; }
  split(sep, lim) {
    if (sep === undefined) return [this];
    lim = lim === undefined ? Infinity : idx(lim, 0) >>> 0;
    if (sep instanceof RegExp) return rxSplit(this, sep, lim);
    const p = codes(tostr(sep));
    const out = [];
    if (p.length === 0) return this.cs.map((c) => str([c])).slice(0, lim);
    let s = 0, i = 0;
    while (i + p.length <= this.length) {
      if (matchAt(this.cs, p, i)) { out.push(str(this.cs.slice(s, i))); i += p.length; s = i; } else i++;
    }
    out.push(str(this.cs.slice(s)));
    return out.slice(0, lim);
  }
  trimStart() { let i = 0; while (i < this.length && isWS(this.cs[i])) i++; return i === 0 ? this : str(this.cs.slice(i)); }
  trimEnd() { let i = this.length; while (i > 0 && isWS(this.cs[i - 1])) i--; return i === this.length ? this : str(this.cs.slice(0, i)); }
  trim() { const t = this.trimStart(); return typeof t === "string" ? t.trim() : t.trimEnd(); }
  concat(...x) { return x.reduce((a, b) => concat(a, tostr(b)), this); }
  repeat(n) { n = idx(n, 0); if (n < 0) throw new RangeError("Invalid count value"); let r = []; for (let i = 0; i < n; i++) r = r.concat(this.cs); return str(r); }
  padStart(n, f = " ") { return concat(pad(this, n, f), this); }
  padEnd(n, f = " ") { return concat(this, pad(this, n, f)); }
  toLowerCase() { return str(this.cs.map((c) => (isNode(c) ? (asciiOnly(c), T.ite(inR(c, [[65, 90]]), T.add(c, K(32)), c)) : String.fromCharCode(c).toLowerCase().charCodeAt(0)))); }
  toUpperCase() { return str(this.cs.map((c) => (isNode(c) ? (asciiOnly(c), T.ite(inR(c, [[97, 122]]), T.sub(c, K(32)), c)) : String.fromCharCode(c).toUpperCase().charCodeAt(0)))); }
  localeCompare(o) { return conc(this).localeCompare(conc(o)); }
  normalize(f) { return conc(this).normalize(f); }
  replace(p, r) { return strReplace(this, p, r, false); }
  replaceAll(p, r) { return strReplace(this, p, r, true); }
  match(re) { re = re instanceof RegExp ? re : new RegExp(conc(re)); if (!re.global) return rxExec(re, this, 0); const ms = rxAll(re, this); return ms.length ? ms.map((m) => m[0]) : null; }
  matchAll(re) { return rxAll(re, this)[Symbol.iterator](); }
  search(re) { const m = rxExec(re, this, 0); return m ? m.index : -1; }
  *[Symbol.iterator]() {
    for (let i = 0; i < this.length; i++) {
      const c = this.cs[i];
      if (decide(inR(c, [[0xd800, 0xdbff]])) && i + 1 < this.length && decide(inR(this.cs[i + 1], [[0xdc00, 0xdfff]]))) { yield str([c, this.cs[i + 1]]); i++; } else yield str([c]);
    }
  }
}
function asciiOnly(c) { if (!decide(T.lt(c, K(128)))) concInt(c); }
function pad(s, n, f) {
  n = idx(n, 0) - s.length;
  const p = codes(tostr(f));
  if (n <= 0 || p.length === 0) return "";
  const r = [];
  for (let i = 0; i < n; i++) r.push(p[i % p.length]);
  return str(r);
}
export function concat(a, b) {
  if (typeof a === "string" && typeof b === "string") return a + b;
  if (a === "") return b;
  if (b === "") return a;
  return str(codes(a).concat(codes(b)));
}
function expand(r, m, s) {
  if (typeof r === "function") return tostr(r(...m, m.index, s));
  r = tostr(r);
  if (typeof r !== "string" || !r.includes("$")) return r;
  let out = "";
  for (let i = 0; i < r.length; i++) {
    const q = r.slice(i).match(/^\$(\$|&|\d\d?)/);
    if (!q) { out = concat(out, r[i]); continue; }
    i += q[0].length - 1;
    out = concat(out, q[1] === "$" ? "$" : q[1] === "&" ? m[0] : m[N(q[1])] ?? "");
  }
  return out;
}
function strReplace(s, p, r, all) {
  if (p instanceof RegExp) {
    const ms = p.global ? rxAll(p, s) : [rxExec(p, s, 0)].filter(Boolean);
    let out = "", at = 0;
    for (const m of ms) { out = concat(out, s.slice(at, m.index)); out = concat(out, expand(r, m, s)); at = m.index + m[0].length; }
    return concat(out, s.slice(at));
  }
  p = tostr(p);
  let out = "", at = 0;
  for (;;) {
    const i = s.indexOf(p, at);
    if (i < 0) break;
    const m = [p];
    m.index = i;
    out = concat(concat(out, s.slice(at, i)), expand(r, m, s));
    at = i + p.length;
    if (!all) break;
    if (p.length === 0) { if (at >= s.length) break; out = concat(out, s.slice(at, at + 1)); at++; }
  }
  return concat(out, s.slice(at));
}

// ---------------------------------------------------------------- regular expressions over symbolic characters
const rxCache = new Map();
function rxParse(re) {
  const k = re.source + "/" + re.flags;
  if (rxCache.has(k)) return rxCache.get(k);
  const s = re.source, ic = re.ignoreCase, dotAll = re.dotAll, ml = re.multiline;
  let i = 0, groups = 0;
  const fail = () => { throw new Error("regex"); };
  const D = [[48, 57]], W = [[48, 57], [65, 90], [95, 95], [97, 122]];
  const comp = (rs) => { const a = [...rs].sort((x, y) => x[0] - y[0]); const o = []; let p = 0; for (const [x, y] of a) { if (x > p) o.push([p, x - 1]); p = Math.max(p, y + 1); } if (p <= 65535) o.push([p, 65535]); return o; };
  const NL = [[10, 10], [13, 13], [0x2028, 0x2029]];
  const esc = (inClass) => {
    const c = s[i++];
    switch (c) {
      case "d": return D; case "D": return comp(D); case "w": return W; case "W": return comp(W); case "s": return WSR; case "S": return comp(WSR);
      case "n": return [[10, 10]]; case "r": return [[13, 13]]; case "t": return [[9, 9]]; case "v": return [[11, 11]]; case "f": return [[12, 12]]; case "0": return [[0, 0]];
      case "x": { const v = parseInt(s.slice(i, i + 2), 16); i += 2; return [[v, v]]; }
      case "u": { if (s[i] === "{") fail(); const v = parseInt(s.slice(i, i + 4), 16); i += 4; return [[v, v]]; }
      case "b": if (inClass) return [[8, 8]]; return { t: "wordb", neg: false };
      case "B": return { t: "wordb", neg: true };
      default: if (/[1-9kpPc]/.test(c)) fail(); return [[c.charCodeAt(0), c.charCodeAt(0)]];
    }
  };
  const fold = (rs) => { if (!ic) return rs; const o = [...rs]; for (const [a, b] of rs) { for (let c = Math.max(a, 65); c <= Math.min(b, 90); c++) o.push([c + 32, c + 32]); for (let c = Math.max(a, 97); c <= Math.min(b, 122); c++) o.push([c - 32, c - 32]); } return o; };
  const cls = () => {
    let neg = false;
    if (s[i] === "^") { neg = true; i++; }
    const rs = [];
    while (s[i] !== "]") {
      if (i >= s.length) fail();
      let a = s[i] === "\\" ? (i++, esc(true)) : [[s.charCodeAt(i), s.charCodeAt(i++)]];
      if (s[i] === "-" && s[i + 1] !== "]" && a.length === 1 && a[0][0] === a[0][1]) {
        i++;
        const b = s[i] === "\\" ? (i++, esc(true)) : [[s.charCodeAt(i), s.charCodeAt(i++)]];
        a = [[a[0][0], b[0][0]]];
      }
      rs.push(...a);
    }
    i++;
    const f = fold(rs);
    return { t: "set", rs: neg ? comp(f) : f };
  };
  const alt = () => { const l = [seq()]; while (s[i] === "|") { i++; l.push(seq()); } return l.length === 1 ? l[0] : { t: "alt", l }; };
  const seq = () => { const l = []; while (i < s.length && s[i] !== "|" && s[i] !== ")") l.push(quant()); return { t: "seq", l }; };
  const quant = () => {
    const g0 = groups;
    const a = atom();
    let lo, hi;
    const m = s.slice(i).match(/^\{(\d+)(,(\d*))?\}/);
    if (s[i] === "*") { lo = 0; hi = Infinity; i++; } else if (s[i] === "+") { lo = 1; hi = Infinity; i++; } else if (s[i] === "?") { lo = 0; hi = 1; i++; } else if (m) { lo = N(m[1]); hi = m[2] === undefined ? lo : m[3] === "" ? Infinity : N(m[3]); i += m[0].length; } else return a;
    let lazy = false;
    if (s[i] === "?") { lazy = true; i++; }
    return { t: "rep", a, lo, hi, lazy };
  };
  const atom = () => {
    const c = s[i++];
    if (c === "(") {
      let cap = 0, look = null;
      if (s.startsWith("?:", i)) i += 2; else if (s.startsWith("?=", i)) { look = true; i += 2; } else if (s.startsWith("?!", i)) { look = false; i += 2; } else if (s.startsWith("?<", i)) { if (/[=!]/.test(s[i + 2])) fail(); i = s.indexOf(">", i) + 1; cap = ++groups; named[s.slice(s.lastIndexOf("<", i) + 1, i - 1)] = cap; } else if (s[i] === "?") fail(); else cap = ++groups;
      const a = alt();
      if (s[i++] !== ")") fail();
      return look !== null ? { t: "look", a, pos: look } : { t: "grp", a, cap };
    }
    if (c === "[") return cls();
    if (c === ".") return { t: "set", rs: dotAll ? [[0, 65535]] : comp(NL) };
    if (c === "^") return { t: "bol", ml };
    if (c === "$") return { t: "eol", ml };
    if (c === "\\") { const e = esc(false); return Array.isArray(e) ? { t: "set", rs: fold(e) } : e; }
    return { t: "set", rs: fold([[c.charCodeAt(0), c.charCodeAt(0)]]) };
  };
  const named = {};
  let r;
  try { if (re.unicode || re.sticky) fail(); r = { a: alt(), groups, named }; if (i < s.length) fail(); } catch { r = null; }
  rxCache.set(k, r);
  return r;
}
const isNL = (c) => decide(inR(c, [[10, 10], [13, 13], [0x2028, 0x2029]]));
function rxMatch(a, cs, i, caps, k) {
  switch (a.t) {
    case "set": return i < cs.length && decide(inR(cs[i], a.rs)) && k(i + 1);
    case "seq": { const go = (j, p) => (j === a.l.length ? k(p) : rxMatch(a.l[j], cs, p, caps, (q) => go(j + 1, q))); return go(0, i); }
    case "alt": for (const x of a.l) if (rxMatch(x, cs, i, caps, k)) return true; return false;
    case "grp": {
      const old = caps[a.cap];
      if (rxMatch(a.a, cs, i, caps, (q) => { const o = caps[a.cap]; if (a.cap) caps[a.cap] = [i, q]; if (k(q)) return true; caps[a.cap] = o; return false; })) return true;
      caps[a.cap] = old;
      return false;
    }
    case "rep": {
      const go = (n, p) => {
        const more = () => n < a.hi && rxMatch(a.a, cs, p, caps, (q) => (q === p && n >= a.lo ? false : go(n + 1, q)));
        if (n < a.lo) return more();
        return a.lazy ? k(p) || more() : more() || k(p);
      };
      return go(0, i);
    }
    case "bol": return (i === 0 || (a.ml && isNL(cs[i - 1]))) && k(i);
    case "eol": return (i === cs.length || (a.ml && isNL(cs[i]))) && k(i);
    case "look": { const c2 = caps.slice(); const m = rxMatch(a.a, cs, i, c2, () => true); return m === a.pos && k(i); }
    case "wordb": { const w = (j) => j >= 0 && j < cs.length && decide(inR(cs[j], [[48, 57], [65, 90], [95, 95], [97, 122]])); return (w(i - 1) !== w(i)) !== a.neg && k(i); }
  }
}
function rxExec(re, s, from) {
  const p = rxParse(re);
  if (!p) { unsupported("regular expression " + re); return new RegExp(re.source, re.flags.replace("g", "")).exec(conc(s)); }
  const cs = codes(s);
  for (let i = from; i <= cs.length; i++) {
    const caps = new Array(p.groups + 1).fill(undefined);
    let end = -1;
    if (rxMatch(p.a, cs, i, caps, (q) => { end = q; return true; })) {
      const m = [str(cs.slice(i, end))];
      for (let g = 1; g <= p.groups; g++) m.push(caps[g] ? str(cs.slice(...caps[g])) : undefined);
      m.index = i;
      m.input = s;
      m.groups = Object.keys(p.named).length ? Object.fromEntries(Object.entries(p.named).map(([k, g]) => [k, m[g]])) : undefined;
      return m;
    }
  }
  return null;
}
function rxAll(re, s) {
  const out = [];
  let at = 0;
  while (at <= s.length) {
    const m = rxExec(re, s, at);
    if (!m) break;
    out.push(m);
    at = m.index + Math.max(1, m[0].length);
  }
  return out;
}
function rxSplit(s, re, lim) {
  const out = [], p = rxParse(re);
  if (!p) { unsupported("regular expression " + re); return conc(s).split(re); }
  const cs = s.cs;
  let st = 0, i = 0;
  if (cs.length === 0) return rxExec(re, s, 0) ? [] : [s];
  while (i < cs.length) {
    const caps = new Array(p.groups + 1).fill(undefined);
    let end = -1;
    const ok = rxMatch(p.a, cs, i, caps, (q) => { end = q; return true; });
    if (!ok || end === st) { i++; continue; }
    out.push(str(cs.slice(st, i)));
    for (let g = 1; g <= p.groups; g++) out.push(caps[g] ? str(cs.slice(...caps[g])) : undefined);
    i = st = end;
    if (end === i && caps.length && i >= cs.length) break;
  }
  out.push(str(cs.slice(st)));
  return out.slice(0, lim);
}
function rxCall(re, m, args) {
  const s = tostr(args[0]);
  if (m === "test" || m === "exec") {
    const g = re.global || re.sticky;
    const r = rxExec(re, s, g ? re.lastIndex : 0);
    if (g) re.lastIndex = r ? r.index + r[0].length : 0;
    return m === "test" ? r !== null : r;
  }
  return re[m](...args.map(conc));
}

// ---------------------------------------------------------------- conversions
export function tostr(x) {
  if (typeof x === "string" || x instanceof SymStr) return x;
  if (x instanceof SymNum || x instanceof SymBig) return numToStr(x.n, 10);
  if (x instanceof Sym) return String(conc(x));
  if (Array.isArray(x)) return arrJoin(x, ",");
  if (typeof x === "object" && x !== null) {
    const p = x[Symbol.toPrimitive];
    if (p === undefined && typeof x.toString === "function") { const r = x.toString(); if (typeof r !== "object" || r instanceof SymStr) return tostr(r); }
  }
  return String(x);
}
function arrJoin(a, sep) {
  sep = sep === undefined ? "," : tostr(sep);
  let out = "";
  a.forEach((x, i) => { if (i) out = concat(out, sep); if (x !== null && x !== undefined) out = concat(out, tostr(x)); });
  for (let i = 0; i < a.length; i++) if (!(i in a) && i) { /* holes print empty */ }
  return out;
}
const dig = (c) => inR(c, [[48, 57]]);
function digitVal(c, radix) {
  // value of a digit character, or null
  if (isNode(c)) {
    const m = digitOf.get(c.id);
    if (m && m[1] <= radix) return m[0];
    const top = Math.min(radix, 10);
    if (decide(inR(c, [[48, 47 + top]]))) return T.clamp(T.sub(c, K(48)), 0n, BigInt(top - 1));
    if (radix > 10) {
      if (decide(inR(c, [[97, 86 + radix]]))) return T.clamp(T.sub(c, K(87)), 10n, BigInt(radix - 1));
      if (decide(inR(c, [[65, 54 + radix]]))) return T.clamp(T.sub(c, K(55)), 10n, BigInt(radix - 1));
    }
    return null;
  }
  const v = parseInt(String.fromCharCode(c), radix);
  return Number.isNaN(v) ? null : K(v);
}
function undigits(cs, radix) {
  // the node whose digits these characters are, or null
  const ds = [];
  for (const c of cs) {
    const d = digitVal(c, radix);
    if (d === null) return null;
    ds.push(d);
  }
  const lg = { 2: 1, 4: 2, 8: 3, 16: 4, 32: 5 }[radix];
  if (lg && ds.some((d) => T.asK(d) === undefined)) {
    const b = ds.slice().reverse();
    const f = b.find((d) => T.asK(d) === undefined);
    const at = b.indexOf(f);
    const src = f.op === "bits" ? (f.args[0].op === "shr" ? [f.args[0].args[0], f.args[0].args[1]] : [f.args[0], 0]) : f.op === "shr" ? [f.args[0], f.args[1]] : [f, 0];
    const o0 = src[1] - at * lg;
    if (o0 >= 0 && b.every((d, i) => d === T.bits(T.shr(src[0], o0 + i * lg), lg))) return T.bits(T.shr(src[0], o0), lg * b.length);
  }
  // consecutive digits of one number: a part of that number
  let v = K(0);
  for (let i = 0; i < cs.length;) {
    const f = isNode(cs[i]) && digitOf.get(cs[i].id);
    if (!f || f[1] !== radix || !f[2] || f[2].lo < 0n || lg) { v = T.add(T.mul(v, K(radix)), ds[i]); i++; continue; }
    let j = i + 1;
    for (; j < cs.length && f[3] - (j - i) >= 0; j++) {
      const g = isNode(cs[j]) && digitOf.get(cs[j].id);
      if (!g || g[1] !== radix || g[2] !== f[2] || g[3] !== f[3] - (j - i)) break;
    }
    const low = f[3] - (j - i) + 1, r = BigInt(radix), top = r ** BigInt(f[3] + 1);
    const cut = low ? T.tdiv(f[2], K(r ** BigInt(low))) : f[2];
    const whole = f[2].hi < top || implied(T.not(T.le(K(top), f[2])));
    const part = whole ? T.clamp(cut, 0n, top - 1n) : T.trem(cut, K(r ** BigInt(j - i)));
    v = T.add(T.mul(v, K(r ** BigInt(j - i))), part);
    i = j;
  }
  return v;
}
export function parseInt_(s, radix) {
  if (typeof s === "number" && radix === undefined && Number.isSafeInteger(s)) return s;
  if (s instanceof SymNum && (radix === undefined || conc(radix) === 10)) return s;
  s = tostr(s);
  radix = radix === undefined ? 0 : idx(radix, 0);
  if (typeof s === "string") return parseInt(s, radix);
  if (s.meta && s.meta.num && (radix === 0 || radix === 10) && s.meta.radix === 10) return num(s.meta.num);
  let t = s.trimStart();
  if (typeof t === "string") return parseInt(t, radix);
  let cs = t.cs, i = 0, neg = false;
  if (cs.length && decide(chEq(cs[0], 45))) { neg = true; i = 1; } else if (cs.length && decide(chEq(cs[0], 43))) i = 1;
  if ((radix === 0 || radix === 16) && i + 1 < cs.length && decide(chEq(cs[i], 48)) && decide(inR(cs[i + 1], [[88, 88], [120, 120]]))) { i += 2; radix = 16; }
  if (radix === 0) radix = 10;
  if (radix < 2 || radix > 36) return NaN;
  let j = i;
  while (j < cs.length && digitVal(cs[j], radix) !== null) j++;
  if (j === i) return NaN;
  const v = undigits(cs.slice(i, j), radix);
  if (v.hi > SAFE && T.asK(v) !== undefined) return parseInt(conc(str(cs.slice(0, j))), radix);
  return num(neg ? T.neg(v) : v);
}
export function toNum(x) {
  if (typeof x === "number" || x instanceof SymNum || x instanceof SymRat) return x;
  if (x instanceof SymBool) return num(nodeOf(x));
  if (x instanceof SymBig) throw new TypeError("Cannot convert a BigInt value to a number");
  if (x instanceof SymStr) {
    if (x.meta && x.meta.num && x.meta.radix === 10) return num(x.meta.num);
    const t = x.trim();
    if (typeof t === "string") return Number(t);
    const cs = t.cs;
    let i = 0, neg = false;
    if (decide(chEq(cs[0], 45))) { neg = true; i = 1; } else if (decide(chEq(cs[0], 43))) i = 1;
    if (i < cs.length && cs.slice(i).every((c) => digitVal(c, 10) !== null)) {
      const v = undigits(cs.slice(i), 10);
      if (neg && decide(T.eq(v, K(0)))) return -0;
      return num(neg ? T.neg(v) : v);
    }
    if (i === 0 && cs.length > 2 && decide(chEq(cs[0], 48))) {
      const r = decide(inR(cs[1], [[88, 88], [120, 120]])) ? 16 : decide(inR(cs[1], [[79, 79], [111, 111]])) ? 8 : decide(inR(cs[1], [[66, 66], [98, 98]])) ? 2 : 0;
      if (r) return cs.slice(2).every((c) => digitVal(c, r) !== null) ? num(undigits(cs.slice(2), r)) : NaN;
    }
    // fractions, exponents, Infinity: only these characters can matter
    if (cs.every((c) => decide(inR(c, [[48, 57], [43, 43], [45, 46], [69, 69], [101, 101], [73, 73], [110, 110], [102, 102], [105, 105], [116, 116], [121, 121]])))) return Number(conc(t));
    return NaN;
  }
  if (typeof x === "object" && x !== null && !(x instanceof Date)) return toNum(tostr(x));
  return Number(x);
}
function bigErr(x) { return new SyntaxError("Cannot convert " + (typeof x === "string" ? x : "string") + " to a BigInt"); }
export function toBigInt(x) {
  if (typeof x === "bigint" || x instanceof SymBig) return x;
  if (x instanceof SymNum) return big(x.n);
  if (x instanceof SymBool) return big(nodeOf(x));
  if (x instanceof SymRat) return BigInt(conc(x));
  if (x instanceof SymStr) {
    if (x.meta && x.meta.num && x.meta.radix === 10) return big(x.meta.num);
    const t = x.trim();
    if (typeof t === "string") return BigInt(t);
    const cs = t.cs;
    let i = 0, neg = false;
    if (decide(chEq(cs[0], 45))) { neg = true; i = 1; } else if (decide(chEq(cs[0], 43))) i = 1;
    if (i < cs.length && cs.slice(i).every((c) => digitVal(c, 10) !== null)) { const v = undigits(cs.slice(i), 10); return big(neg ? T.neg(v) : v); }
    if (i === 0 && cs.length > 2 && decide(chEq(cs[0], 48))) {
      const r = decide(inR(cs[1], [[88, 88], [120, 120]])) ? 16 : decide(inR(cs[1], [[79, 79], [111, 111]])) ? 8 : decide(inR(cs[1], [[66, 66], [98, 98]])) ? 2 : 0;
      if (r && cs.slice(2).every((c) => digitVal(c, r) !== null)) return big(undigits(cs.slice(2), r));
    }
    throw bigErr(x);
  }
  if (typeof x === "object" && x !== null) return toBigInt(tostr(x));
  return BigInt(x);
}
// truth value of anything
export function truth(x) {
  if (x instanceof SymBool) return x.n;
  if (x instanceof SymNum || x instanceof SymBig) return T.not(T.eq(x.n, K(0)));
  if (x instanceof SymStr) return T.B(x.length > 0);
  if (x instanceof SymRat) return T.not(T.eq(x.a, K(0)));
  return T.B(!!x);
}
export function typeof_(x) {
  if (x instanceof SymNum || x instanceof SymRat) return "number";
  if (x instanceof SymBig) return "bigint";
  if (x instanceof SymBool) return "boolean";
  if (x instanceof SymStr) return "string";
  return typeof x;
}
export function eqNode(a, b, loose) {
  // === as a boolean term
  if (!isSym(a) && !isSym(b)) return T.B(loose ? a == b : a === b);
  const ta = typeof_(a), tb = typeof_(b);
  if (ta === tb) {
    if (ta === "number") {
      const x = nodeOf(a), y = nodeOf(b);
      if (x && y) return T.eq(x, y);
      if (a instanceof SymRat || b instanceof SymRat) return T.B(conc(a) === conc(b));
      return T.FALSE; // a symbolic number is an exact integer
    }
    if (ta === "bigint") return T.eq(bigNode(a), bigNode(b));
    if (ta === "boolean") return T.beq(truth(a), truth(b));
    if (ta === "string") return strEq(a, b);
  }
  if (!loose) return T.FALSE;
  if (a === null || a === undefined || b === null || b === undefined) return T.FALSE;
  if (ta === "boolean") return eqNode(toNum(a), b, true);
  if (tb === "boolean") return eqNode(a, toNum(b), true);
  if (ta === "number" && tb === "bigint") { const x = nodeOf(a); return x ? T.eq(x, bigNode(b)) : T.FALSE; }
  if (ta === "bigint" && tb === "number") return eqNode(b, a, true);
  if (ta === "number" && tb === "string") return eqNode(a, toNum(b), true);
  if (ta === "string" && tb === "number") return eqNode(toNum(a), b, true);
  return T.B(conc(a) == conc(b));
}
function cmpNode(op, a, b) {
  // < on anything with a symbolic side
  const prim = (x) => (typeof x === "object" && x !== null && !isSym(x) ? tostr(x) : x);
  a = prim(a);
  b = prim(b);
  if (isStr(a) && isStr(b)) {
    const x = codes(a), y = codes(b);
    // lexicographic
    let r = T.B(x.length < y.length);
    if (op === "<=") r = T.B(x.length <= y.length);
    for (let i = Math.min(x.length, y.length) - 1; i >= 0; i--) r = T.or(T.lt(nd(x[i]), nd(y[i])), T.and(chEq(x[i], y[i]), r));
    return r;
  }
  const n = (x) => (isBig(x) ? bigNode(x) : nodeOf(toNumLoose(x)));
  const toNumLoose = (x) => (isBig(x) ? x : toNum(x));
  a = toNumLoose(a);
  b = toNumLoose(b);
  if (a instanceof SymRat || b instanceof SymRat) {
    // a/b < c for positive b
    const A = a instanceof SymRat ? a : null, Bb = b instanceof SymRat ? b : null;
    if (A && !Bb && n(b) && A.b.lo > 0n) return op === "<" ? T.lt(A.a, T.mul(n(b), A.b)) : T.le(A.a, T.mul(n(b), A.b));
    if (Bb && !A && n(a) && Bb.b.lo > 0n) return op === "<" ? T.lt(T.mul(n(a), Bb.b), Bb.a) : T.le(T.mul(n(a), Bb.b), Bb.a);
    a = conc(a);
    b = conc(b);
    return T.B(op === "<" ? a < b : a <= b);
  }
  const x = n(a), y = n(b);
  if (x && y) return op === "<" ? T.lt(x, y) : T.le(x, y);
  // one side concrete and not an exact integer
  if (x && typeof b === "number") {
    if (Number.isNaN(b)) return T.FALSE;
    if (b === Infinity) return T.TRUE;
    if (b === -Infinity) return T.FALSE;
    return T.le(x, K(BigInt(Math.floor(b))));
  }
  if (y && typeof a === "number") {
    if (Number.isNaN(a)) return T.FALSE;
    if (a === Infinity) return T.FALSE;
    if (a === -Infinity) return T.TRUE;
    return T.le(K(BigInt(Math.floor(a)) + 1n), y);
  }
  a = conc(a);
  b = conc(b);
  return T.B(op === "<" ? a < b : a <= b);
}
const i32 = (n) => T.sbits(n, 32);
const u32 = (n) => T.bits(n, 32);
function bin(op, a, b) {
  if (!isSym(a) && !isSym(b)) {
    switch (op) {
      case "+":
        if ((typeof a === "object" && a !== null) || (typeof b === "object" && b !== null)) return bin("+", prim(a), prim(b));
        return a + b;
      case "-": return a - b; case "*": return a * b; case "/": return a / b; case "%": return a % b; case "**": return a ** b;
      case "&": return a & b; case "|": return a | b; case "^": return a ^ b; case "<<": return a << b; case ">>": return a >> b; case ">>>": return a >>> b;
      case "<": return a < b; case ">": return a > b; case "<=": return a <= b; case ">=": return a >= b;
      case "===": return a === b; case "!==": return a !== b; case "==": return a == b; case "!=": return a != b;
      case "in": return hasKey(b, a);
    }
  }
  switch (op) {
    case "===": return bool(eqNode(a, b));
    case "!==": return bool(T.not(eqNode(a, b)));
    case "==": return bool(eqNode(a, b, true));
    case "!=": return bool(T.not(eqNode(a, b, true)));
    case "<": return bool(cmpNode("<", a, b));
    case "<=": return bool(cmpNode("<=", a, b));
    case ">": return bool(cmpNode("<", b, a));
    case ">=": return bool(cmpNode("<=", b, a));
    case "in": return hasKey(b, a);
  }
  a = prim(a);
  b = prim(b);
  if (op === "+" && (isStr(a) || isStr(b))) return concat(tostr(a), tostr(b));
  if (isBig(a) || isBig(b)) {
    if (!(isBig(a) && isBig(b))) throw new TypeError("Cannot mix BigInt and other types, use explicit conversions");
    const x = bigNode(a), y = bigNode(b);
    switch (op) {
      case "+": return big(T.add(x, y));
      case "-": return big(T.sub(x, y));
      case "*": return big(T.mul(x, y));
      case "/": case "%":
        if (decide(T.eq(y, K(0)))) throw new RangeError("Division by zero");
        return big((op === "/" ? T.tdiv : T.trem)(x, y));
      case "&": return big(T.logic("and", x, y));
      case "|": return big(T.logic("or", x, y));
      case "^": return big(T.logic("xor", x, y));
      case "<<": case ">>": {
        let k = concInt(y);
        if (op === ">>") k = -k;
        if (k > 4096n) return big(K(concInt(x) << k));
        return big(k >= 0n ? T.mul(x, K(1n << k)) : T.shr(x, -k));
      }
      case "**": {
        const k = concInt(y);
        if (k < 0n) throw new RangeError("Exponent must be non-negative");
        if (T.asK(x) !== undefined) return T.asK(x) ** k;
        if (k > 8n) return concInt(x) ** k;
        let r = K(1);
        for (let i = 0n; i < k; i++) r = T.mul(r, x);
        return big(r);
      }
      case ">>>": throw new TypeError("BigInts have no unsigned right shift, use >> instead");
    }
  }
  a = toNum(a);
  b = toNum(b);
  if (a instanceof SymRat || b instanceof SymRat) {
    const isInt = { "&": 1, "|": 1, "^": 1, "<<": 1, ">>": 1, ">>>": 1 }[op];
    if (isInt) { if (a instanceof SymRat) a = ratTrunc(a); if (b instanceof SymRat) b = ratTrunc(b); }
    else return bin(op, conc(a), conc(b));
  }
  const x = nodeOf(a), y = nodeOf(b);
  if (x && y) {
    switch (op) {
      case "+": return num(T.add(x, y));
      case "-": return num(T.sub(x, y));
      case "*": return num(T.mul(x, y));
      case "/":
        if (decide(T.eq(y, K(0)))) return bin("/", conc(a), conc(b));
        if (T.asK(y) === 1n) return a;
        return new SymRat(x, y);
      case "%":
        if (decide(T.eq(y, K(0)))) return NaN;
        return num(T.trem(x, y));
      case "&": return num(T.logic("and", i32(x), i32(y)));
      case "|": return num(T.logic("or", i32(x), i32(y)));
      case "^": return num(T.logic("xor", i32(x), i32(y)));
      case "<<": { const k = concInt(T.bits(u32(y), 5)); return num(i32(T.mul(i32(x), K(1n << k)))); }
      case ">>": { const k = concInt(T.bits(u32(y), 5)); return num(T.shr(i32(x), k)); }
      case ">>>": { const k = concInt(T.bits(u32(y), 5)); return num(T.shr(u32(x), k)); }
      case "**": return conc(a) ** conc(b);
    }
  }
  // a side that is not an exact integer
  if (["&", "|", "^", "<<", ">>", ">>>"].includes(op)) return bin(op, x ? a : a | 0, y ? b : b | 0);
  if (typeof a === "number" && Number.isNaN(a)) return NaN;
  if (typeof b === "number" && Number.isNaN(b)) return NaN;
  return bin(op, conc(a), conc(b));
}
function ratTrunc(r) { return num(T.tdiv(r.a, r.b)); }
function ratFloor(r) {
  const q = T.tdiv(r.a, r.b), m = T.trem(r.a, r.b);
  if (r.a.lo >= 0n && r.b.lo > 0n) return num(q);
  return num(T.ite(T.and(T.not(T.eq(m, K(0))), T.not(T.beq(T.lt(m, K(0)), T.lt(r.b, K(0))))), T.sub(q, K(1)), q));
}
function prim(x) {
  if (isSym(x) || typeof x !== "object" || x === null) return x;
  if (Array.isArray(x)) return tostr(x);
  if (x[Symbol.toPrimitive]) return x[Symbol.toPrimitive]("default");
  const v = x.valueOf();
  return typeof v === "object" ? tostr(x) : v;
}
function hasKey(o, k) {
  if (o === null || (typeof o !== "object" && typeof o !== "function") || isSym(o)) throw new TypeError("Cannot use 'in' operator");
  if (k instanceof SymStr) {
    for (const p of Object.getOwnPropertyNames(o)) if (decide(strEq(p, k))) return true;
    return protoName(o, k) !== undefined;
  }
  return conc(k) in o;
}
function protoName(o, k) {
  for (let p = Object.getPrototypeOf(o); p; p = Object.getPrototypeOf(p))
    for (const n of Object.getOwnPropertyNames(p)) if (n.length === k.length && decide(strEq(n, k))) return n;
  return undefined;
}

// ---------------------------------------------------------------- byte buffers
const SPEC = { // name: [bytes, signed, bigint]
  Uint8Array: [1, false, false], Uint8ClampedArray: [1, false, false], Int8Array: [1, true, false], Uint16Array: [2, false, false], Int16Array: [2, true, false],
  Uint32Array: [4, false, false], Int32Array: [4, true, false], BigUint64Array: [8, false, true], BigInt64Array: [8, true, true],
};
export class SBuffer {
  constructor(n = 0) {
    n = idx(n, 0);
    if (n < 0 || n > 2 ** 33) throw new RangeError("Array buffer allocation failed");
    if (n > 1 << 22) abort("alloc", `buffer of ${n} bytes`);
    this.d = new Array(n).fill(0);
  }
  get byteLength() { return this.d.length; }
  slice(a, b) { const n = this.d.length; a = rel(a, 0, n); b = rel(b, n, n); const r = new SBuffer(0); r.d = this.d.slice(a, Math.max(a, b)); return r; }
  static isView(x) { return x instanceof TA || x instanceof SDataView; }
}
Object.defineProperty(SBuffer, "name", { value: "ArrayBuffer" });
function rel(i, dflt, n) { i = idx(i, dflt, n); return i < 0 ? Math.max(0, i + n) : Math.min(i, n); }
const byteN = (v) => { const k = isNode(v) ? T.asK(v) : v; return k !== undefined ? N(k) : v; };
function toElem(v, spec) {
  // integer node of the value stored into an element
  if (spec[2]) return bigNode(toBigInt2(v));
  v = toNum(v);
  if (v instanceof SymRat) v = ratTrunc(v);
  if (v instanceof SymNum) return v.n;
  if (!Number.isFinite(v)) return K(0);
  return K(BigInt(Math.trunc(v)));
}
function toBigInt2(v) {
  if (isNum(v)) throw new TypeError("Cannot convert a number to a BigInt");
  return toBigInt(v);
}
function readN(d, at, spec, le = true) {
  const n = spec[0];
  let bs = d.slice(at, at + n).map(nd);
  if (!le) bs = bs.reverse();
  const v = T.fromBytes(bs);
  const s = spec[1] ? T.sbits(v, n * 8) : v;
  return spec[2] ? big(s) : num(s);
}
function writeN(d, at, spec, node, le = true) {
  const n = spec[0];
  const m = T.bits(node, 8 * n);
  for (let i = 0; i < n; i++) d[at + (le ? i : n - 1 - i)] = byteN(T.bits(T.shr(m, 8 * i), 8));
}
export class TA {
  constructor(a, off, len) {
    const C = this.constructor, sp = C.spec, B = sp[0];
    if (a instanceof SBuffer) {
      off = off === undefined ? 0 : idx(off, 0);
      if (off % B) throw new RangeError(`start offset of ${C.name} should be a multiple of ${B}`);
      if (len === undefined) {
        if (a.d.length % B) throw new RangeError(`byte length of ${C.name} should be a multiple of ${B}`);
        if (off > a.d.length) throw new RangeError(`Start offset ${off} is outside the bounds of the buffer`);
        len = (a.d.length - off) / B;
      } else {
        len = idx(len, 0);
        if (len < 0 || off + len * B > a.d.length) throw new RangeError(`Invalid typed array length: ${len}`);
      }
      this.buffer = a;
      this.byteOffset = off;
      this.length = len;
    } else if (typeof a === "object" && a !== null && !isSym(a)) {
      const xs = a instanceof TA ? [...a] : a[Symbol.iterator] ? [...a] : Array.from(a);
      this.buffer = new SBuffer(xs.length * B);
      this.byteOffset = 0;
      this.length = xs.length;
      xs.forEach((x, i) => this.put(i, x));
    } else {
      const n = idx(a, 0);
      if (n < 0 || n > 2 ** 33) throw new RangeError(`Invalid typed array length: ${n}`);
      this.buffer = new SBuffer(n * B);
      this.byteOffset = 0;
      this.length = n;
    }
  }
  get byteLength() { return this.length * this.constructor.spec[0]; }
  get BYTES_PER_ELEMENT() { return this.constructor.spec[0]; }
  get [Symbol.toStringTag]() { return this.constructor.name; }
  getI(i) { return i >= 0 && i < this.length && Number.isInteger(i) ? readN(this.buffer.d, this.byteOffset + i * this.constructor.spec[0], this.constructor.spec) : undefined; }
  put(i, v) {
    const sp = this.constructor.spec;
    let n = toElem(v, sp);
    if (this.constructor === TYPED.Uint8ClampedArray) n = T.ite(T.lt(n, K(0)), K(0), T.ite(T.lt(K(255), n), K(255), n));
    if (i >= 0 && i < this.length && Number.isInteger(i)) writeN(this.buffer.d, this.byteOffset + i * sp[0], sp, n);
  }
  set(src, off = 0) {
    off = idx(off, 0);
    const xs = src instanceof TA ? [...src] : isStr(src) ? [...codes(src)].map((c) => str([c])) : Array.from(src);
    if (off < 0 || off + xs.length > this.length) throw new RangeError("offset is out of bounds");
    xs.forEach((x, i) => this.put(off + i, x));
  }
  slice(a, b) { const n = this.length; a = rel(a, 0, n); b = rel(b, n, n); return new this.constructor([...this].slice(a, Math.max(a, b))); }
  subarray(a, b) { const n = this.length; a = rel(a, 0, n); b = Math.max(a, rel(b, n, n)); return new this.constructor(this.buffer, this.byteOffset + a * this.constructor.spec[0], b - a); }
  fill(v, a, b) { const n = this.length; a = rel(a, 0, n); b = rel(b, n, n); for (let i = a; i < b; i++) this.put(i, v); return this; }
  at(i) { i = idx(i, 0, this.length); return this.getI(i < 0 ? i + this.length : i); }
  *[Symbol.iterator]() { for (let i = 0; i < this.length; i++) yield this.getI(i); }
  values() { return this[Symbol.iterator](); }
  keys() { return [...this].keys(); }
  entries() { return [...this].entries(); }
  copyWithin(t, a, b) { const xs = this.slice(a, b); t = rel(t, 0, this.length); [...xs].forEach((x, i) => t + i < this.length && this.put(t + i, x)); return this; }
  map(f) { return new this.constructor([...this].map((x, i) => f(x, i, this))); }
  filter(f) { return new this.constructor(arrCall([...this], "filter", [f])); }
  reverse() { const xs = [...this].reverse(); xs.forEach((x, i) => this.put(i, x)); return this; }
  toReversed() { return new this.constructor([...this].reverse()); }
  join(s) { return arrJoin([...this], s); }
  toString() { return arrJoin([...this], ","); }
  static from(x, f) { const a = typeof x === "object" && !isSym(x) ? Array.from(x) : [...x]; return new this(f ? a.map((v, i) => f(v, i)) : a); }
  static of(...x) { return new this(x); }
}
for (const m of ["forEach", "every", "some", "find", "findIndex", "findLast", "findLastIndex", "reduce", "reduceRight", "indexOf", "lastIndexOf", "includes"])
  TA.prototype[m] = function (...a) { return arrCall([...this], m, a); };
TA.prototype.with = function (i, v) { const r = this.slice(); r.put(idx(i, 0), v); return r; };
TA.prototype.toSorted = function (f) { return new this.constructor(arrCall([...this], "sort", [f || ((a, b) => bin("-", a, b))])); };
TA.prototype.sort = function (f) { arrCall([...this], "sort", [f || ((a, b) => bin("-", a, b))]).forEach((x, i) => this.put(i, x)); return this; };
export const TYPED = {};
for (const [nm, sp] of Object.entries(SPEC)) {
  const C = class extends TA {};
  Object.defineProperty(C, "name", { value: nm });
  C.spec = sp;
  C.BYTES_PER_ELEMENT = sp[0];
  TYPED[nm] = C;
}
export class SDataView {
  constructor(b, off, len) {
    if (!(b instanceof SBuffer)) throw new TypeError("First argument to DataView constructor must be an ArrayBuffer");
    off = off === undefined ? 0 : idx(off, 0);
    if (off < 0 || off > b.d.length) throw new RangeError(`Start offset ${off} is outside the bounds of the buffer`);
    len = len === undefined ? b.d.length - off : idx(len, 0);
    if (len < 0 || off + len > b.d.length) throw new RangeError(`Invalid DataView length ${len}`);
    this.buffer = b;
    this.byteOffset = off;
    this.byteLength = len;
  }
}
for (const [nm, k] of [["Uint8", "Uint8Array"], ["Int8", "Int8Array"], ["Uint16", "Uint16Array"], ["Int16", "Int16Array"], ["Uint32", "Uint32Array"], ["Int32", "Int32Array"], ["BigUint64", "BigUint64Array"], ["BigInt64", "BigInt64Array"]]) {
  const sp = SPEC[k];
  const at = (v, i) => {
    i = toNum(i);
    if (i instanceof SymNum) { if (!decide(T.and(T.le(K(0), i.n), T.le(i.n, K(v.byteLength - sp[0]))))) throw new RangeError("Offset is outside the bounds of the DataView"); i = conc(i); }
    i = Number.isNaN(i) ? 0 : Math.trunc(i);
    if (i < 0 || i + sp[0] > v.byteLength) throw new RangeError("Offset is outside the bounds of the DataView");
    return v.byteOffset + i;
  };
  SDataView.prototype["get" + nm] = function (i, le) { return readN(this.buffer.d, at(this, i), sp, R.b(le)); };
  SDataView.prototype["set" + nm] = function (i, v, le) { const n = toElem(v, sp); writeN(this.buffer.d, at(this, i), sp, n, R.b(le)); };
}

// ---------------------------------------------------------------- Map and Set
const same0 = (a, b) => (!isSym(a) && !isSym(b) ? a === b || (a !== a && b !== b) : decide(eqNode(a, b)));
export class SMap {
  constructor(it) {
    this.e = []; // [key, value]
    this.ix = new Map(); // concrete keys
    this.symKeys = 0;
    if (it !== undefined && it !== null) for (const x of it) this.set(x[0], x[1]);
  }
  f(k) {
    if (!isSym(k) && this.symKeys === 0) return this.ix.get(k);
    for (const x of this.e) if (same0(x[0], k)) return x;
    return undefined;
  }
  get size() { return this.e.length; }
  get(k) { const x = this.f(k); return x && x[1]; }
  has(k) { return this.f(k) !== undefined; }
  set(k, v) {
    const x = this.f(k);
    if (x) x[1] = v;
    else { const y = [k, v]; this.e.push(y); if (isSym(k)) this.symKeys++; else this.ix.set(k, y); }
    return this;
  }
  delete(k) {
    const x = this.f(k);
    if (!x) return false;
    this.e.splice(this.e.indexOf(x), 1);
    if (isSym(x[0])) this.symKeys--; else this.ix.delete(x[0]);
    return true;
  }
  clear() { this.e = []; this.ix.clear(); this.symKeys = 0; }
  forEach(f, t) { for (let i = 0; i < this.e.length; i++) f.call(t, this.e[i][1], this.e[i][0], this); }
  *[Symbol.iterator]() { for (let i = 0; i < this.e.length; i++) yield [this.e[i][0], this.e[i][1]]; }
  entries() { return this[Symbol.iterator](); }
  *keys() { for (let i = 0; i < this.e.length; i++) yield this.e[i][0]; }
  *values() { for (let i = 0; i < this.e.length; i++) yield this.e[i][1]; }
  get [Symbol.toStringTag]() { return "Map"; }
}
export class SSet {
  constructor(it) { this.m = new SMap(); if (it !== undefined && it !== null) for (const x of it) this.add(x); }
  get size() { return this.m.size; }
  add(x) { if (!this.m.has(x)) this.m.set(x, x); return this; }
  has(x) { return this.m.has(x); }
  delete(x) { return this.m.delete(x); }
  clear() { this.m.clear(); }
  forEach(f, t) { this.m.forEach((v) => f.call(t, v, v, this)); }
  [Symbol.iterator]() { return this.m.keys(); }
  keys() { return this.m.keys(); }
  values() { return this.m.keys(); }
  *entries() { for (const x of this) yield [x, x]; }
  get [Symbol.toStringTag]() { return "Set"; }
}

// ---------------------------------------------------------------- native arrays
const rb = (x) => R.b(x);
function arrCall(a, m, args) {
  const [f] = args;
  switch (m) {
    case "filter": { const r = []; for (let i = 0; i < a.length; i++) if (i in a) { const x = a[i]; if (rb(f.call(args[1], x, i, a))) r.push(x); } return r; }
    case "find": for (let i = 0; i < a.length; i++) if (rb(f.call(args[1], a[i], i, a))) return a[i]; return undefined;
    case "findIndex": for (let i = 0; i < a.length; i++) if (rb(f.call(args[1], a[i], i, a))) return i; return -1;
    case "findLast": for (let i = a.length - 1; i >= 0; i--) if (rb(f.call(args[1], a[i], i, a))) return a[i]; return undefined;
    case "findLastIndex": for (let i = a.length - 1; i >= 0; i--) if (rb(f.call(args[1], a[i], i, a))) return i; return -1;
    case "some": for (let i = 0; i < a.length; i++) if (i in a && rb(f.call(args[1], a[i], i, a))) return true; return false;
    case "every": for (let i = 0; i < a.length; i++) if (i in a && !rb(f.call(args[1], a[i], i, a))) return false; return true;
    case "indexOf": for (let i = rel(args[1], 0, a.length); i < a.length; i++) if (i in a && decide(eqNode(a[i], f))) return i; return -1;
    case "lastIndexOf": for (let i = a.length - 1; i >= 0; i--) if (decide(eqNode(a[i], f))) return i; return -1;
    case "includes": for (let i = rel(args[1], 0, a.length); i < a.length; i++) if (same0(a[i], f)) return true; return false;
    case "join": return arrJoin(a, f);
    case "toString": return arrJoin(a, ",");
    case "sort": case "toSorted": {
      const s = (m === "sort" ? a : a.slice());
      const cmp = f || ((x, y) => { const p = tostr(x), q = tostr(y); return rb(bin("<", p, q)) ? -1 : rb(bin("<", q, p)) ? 1 : 0; });
      for (let i = 1; i < s.length; i++) for (let j = i; j > 0 && rb(bin(">", cmp(s[j - 1], s[j]), 0)); j--) [s[j - 1], s[j]] = [s[j], s[j - 1]];
      return s;
    }
  }
  return a[m](...args);
}

// ---------------------------------------------------------------- text and JSON
export function utf8(s) {
  const cs = codes(s), out = [];
  const push = (c) => {
    c = nd(c);
    const b = (base, sh, k) => byteN(T.add(T.bits(T.shr(c, sh), k), K(base)));
    if (decide(T.lt(c, K(0x80)))) out.push(byteN(c));
    else if (decide(T.lt(c, K(0x800)))) out.push(b(0xc0, 6, 5), b(0x80, 0, 6));
    else if (decide(T.lt(c, K(0x10000)))) out.push(b(0xe0, 12, 4), b(0x80, 6, 6), b(0x80, 0, 6));
    else out.push(b(0xf0, 18, 3), b(0x80, 12, 6), b(0x80, 6, 6), b(0x80, 0, 6));
  };
  for (let i = 0; i < cs.length; i++) {
    const c = cs[i];
    if (decide(inR(c, [[0xd800, 0xdbff]]))) {
      if (i + 1 < cs.length && decide(inR(cs[i + 1], [[0xdc00, 0xdfff]]))) {
        push(T.add(T.add(T.mul(T.sub(nd(c), K(0xd800)), K(1024)), T.sub(nd(cs[i + 1]), K(0xdc00))), K(0x10000)));
        i++;
      } else push(0xfffd);
    } else if (decide(inR(c, [[0xdc00, 0xdfff]]))) push(0xfffd);
    else push(c);
  }
  return out;
}
export function unutf8(bs, fatal, keepBom) {
  // the WHATWG decoder; returns UTF-16 codes
  const out = [];
  const bad = () => { if (fatal) throw new TypeError("The encoded data was not valid for encoding utf-8"); out.push(0xfffd); };
  let i = 0;
  while (i < bs.length) {
    const b = bs[i];
    if (decide(inR(b, [[0, 0x7f]]))) { out.push(b); i++; continue; }
    let need, lo = 0x80, hi = 0xbf, cp;
    if (decide(inR(b, [[0xc2, 0xdf]]))) { need = 1; cp = T.bits(nd(b), 5); }
    else if (decide(inR(b, [[0xe0, 0xef]]))) { need = 2; cp = T.bits(nd(b), 4); if (decide(chEq(b, 0xe0))) lo = 0xa0; else if (decide(chEq(b, 0xed))) hi = 0x9f; }
    else if (decide(inR(b, [[0xf0, 0xf4]]))) { need = 3; cp = T.bits(nd(b), 3); if (decide(chEq(b, 0xf0))) lo = 0x90; else if (decide(chEq(b, 0xf4))) hi = 0x8f; }
    else { bad(); i++; continue; }
    i++;
    let ok = true;
    for (let j = 0; j < need; j++) {
      if (i >= bs.length || !decide(inR(bs[i], [[lo, hi]]))) { ok = false; break; }
      lo = 0x80;
      hi = 0xbf;
      cp = T.add(T.mul(cp, K(64)), T.bits(nd(bs[i]), 6));
      i++;
    }
    if (!ok) { bad(); continue; }
    if (need === 3) { cp = T.sub(cp, K(0x10000)); out.push(T.add(T.shr(cp, 10), K(0xd800)), T.add(T.bits(cp, 10), K(0xdc00))); } else out.push(cp);
  }
  const r = out.map(fixc);
  if (!keepBom && r.length && decide(chEq(r[0], 0xfeff))) r.shift();
  return r;
}
const viewBytes = (x) => {
  if (x === undefined) return [];
  if (x instanceof SBuffer) return x.d;
  if (x instanceof TA || x instanceof SDataView) return x.buffer.d.slice(x.byteOffset, x.byteOffset + x.byteLength);
  throw new TypeError("The provided value is not of type '(ArrayBuffer or ArrayBufferView)'");
};
export { viewBytes };
class STextEncoder {
  get encoding() { return "utf-8"; }
  encode(s = "") { const r = new TYPED.Uint8Array(0); const d = utf8(tostr(s)); r.buffer.d = d; r.length = d.length; return r; }
}
class STextDecoder {
  constructor(enc = "utf-8", o = {}) {
    enc = String(conc(enc)).trim().toLowerCase();
    if (!["utf-8", "utf8", "unicode-1-1-utf-8"].includes(enc)) { unsupported("TextDecoder " + enc); throw new RangeError("unsupported encoding"); }
    this.fatal = !!o.fatal;
    this.ignoreBOM = !!o.ignoreBOM;
  }
  decode(x) { return str(unutf8(viewBytes(x), this.fatal, this.ignoreBOM)); }
}
function jsonQuote(s) {
  let out = '"';
  const cs = codes(s);
  const SHORT = { 8: "\\b", 9: "\\t", 10: "\\n", 12: "\\f", 13: "\\r", 34: '\\"', 92: "\\\\" };
  const parts = [];
  for (let i = 0; i < cs.length; i++) {
    const c = cs[i];
    if (decide(inR(c, [[32, 33], [35, 91], [93, 0xd7ff], [0xe000, 0xffff]]))) { parts.push(c); continue; }
    let k = null;
    for (const q of Object.keys(SHORT)) if (decide(chEq(c, N(q)))) { k = SHORT[q]; break; }
    if (k) parts.push(...codes(k));
    else if (decide(inR(c, [[0xd800, 0xdbff]])) && i + 1 < cs.length && decide(inR(cs[i + 1], [[0xdc00, 0xdfff]]))) { parts.push(c, cs[i + 1]); i++; }
    else parts.push(...codes("\\u"), ...[12, 8, 4, 0].map((sh) => fixc(digitChar(T.bits(T.shr(nd(c), sh), 4), 16))));
  }
  return concat(concat(out, str(parts)), '"');
}
function jsonStr(v, rep, ind, pre = "", holder = null, key = "") {
  if (v !== null && typeof v === "object" && !isSym(v) && typeof v.toJSON === "function") v = v.toJSON(key);
  if (rep) v = rep.call(holder, key, v);
  if (v === null) return "null";
  if (isSym(v)) {
    if (v instanceof SymStr) return jsonQuote(v);
    if (v instanceof SymBig) throw new TypeError("Do not know how to serialize a BigInt");
    if (v instanceof SymNum) return numToStr(v.n, 10);
    return String(conc(v));
  }
  if (typeof v !== "object") return typeof v === "string" ? jsonQuote(v) : JSON.stringify(v);
  const nl = ind ? "\n" + pre + ind : "";
  const parts = [];
  const arr = Array.isArray(v);
  if (arr) v.forEach((x, i) => parts.push(jsonStr(x, rep, ind, pre + ind, v, String(i)) ?? "null"));
  else if (v instanceof TA) [...v].forEach((x, i) => parts.push(concat(`"${i}":`, jsonStr(x, rep, ind, pre + ind, v, String(i)))));
  else if (v instanceof SMap || v instanceof SSet) return "{}";
  else for (const k of Object.keys(v)) { const t = jsonStr(v[k], rep, ind, pre + ind, v, k); if (t !== undefined) parts.push(concat(jsonQuote(k) + (ind ? ": " : ":"), t)); }
  if (!parts.length) return arr ? "[]" : "{}";
  let out = arr ? "[" : "{";
  parts.forEach((p, i) => { out = concat(out, (i ? "," : "") + nl); out = concat(out, p); });
  return concat(out, (ind ? "\n" + pre : "") + (arr ? "]" : "}"));
}
function jsonParse(s) {
  const cs = codes(s);
  let i = 0;
  const err = () => { throw new SyntaxError("Unexpected token in JSON at position " + i); };
  const is = (c) => i < cs.length && decide(chEq(cs[i], c));
  const ws = () => { while (i < cs.length && decide(inR(cs[i], [[9, 10], [13, 13], [32, 32]]))) i++; };
  const lit = (t, v) => { for (const c of codes(t)) { if (!is(c)) err(); i++; } return v; };
  const string = () => {
    const out = [];
    i++;
    for (;;) {
      if (i >= cs.length) err();
      if (is(34)) { i++; return str(out.map(fixc)); }
      if (is(92)) {
        i++;
        if (i >= cs.length) err();
        let done = false;
        for (const [a, b] of [[34, 34], [92, 92], [47, 47], [98, 8], [102, 12], [110, 10], [114, 13], [116, 9]]) if (is(a)) { out.push(b); i++; done = true; break; }
        if (done) continue;
        if (!is(117)) err();
        i++;
        if (i + 4 > cs.length) err();
        const h = cs.slice(i, i + 4);
        for (const c of h) if (digitVal(c, 16) === null) err();
        out.push(undigits(h, 16));
        i += 4;
        continue;
      }
      if (decide(T.lt(nd(cs[i]), K(32)))) err();
      out.push(cs[i++]);
    }
  };
  const isD = () => i < cs.length && decide(dig(cs[i]));
  const number = () => {
    const st = i;
    if (is(45)) i++;
    if (!isD()) err();
    if (is(48)) i++; else while (isD()) i++;
    let frac = false;
    if (is(46)) { frac = true; i++; if (!isD()) err(); while (isD()) i++; }
    if (i < cs.length && decide(inR(cs[i], [[69, 69], [101, 101]]))) { frac = true; i++; if (i < cs.length && decide(inR(cs[i], [[43, 43], [45, 45]]))) i++; if (!isD()) err(); while (isD()) i++; }
    const t = str(cs.slice(st, i));
    return typeof t === "string" ? Number(t) : frac ? Number(conc(t)) : toNum(t);
  };
  const value = () => {
    ws();
    if (i >= cs.length) err();
    if (is(34)) return string();
    if (is(123)) {
      i++;
      const o = {};
      ws();
      if (is(125)) { i++; return o; }
      for (;;) {
        ws();
        if (!is(34)) err();
        const k = conc(string());
        ws();
        if (!is(58)) err();
        i++;
        Object.defineProperty(o, k, { value: value(), writable: true, enumerable: true, configurable: true });
        ws();
        if (is(125)) { i++; return o; }
        if (!is(44)) err();
        i++;
      }
    }
    if (is(91)) {
      i++;
      const o = [];
      ws();
      if (is(93)) { i++; return o; }
      for (;;) {
        o.push(value());
        ws();
        if (is(93)) { i++; return o; }
        if (!is(44)) err();
        i++;
      }
    }
    if (is(116)) return lit("true", true);
    if (is(102)) return lit("false", false);
    if (is(110)) return lit("null", null);
    if (is(45) || isD()) return number();
    err();
  };
  const v = value();
  ws();
  if (i < cs.length) err();
  return v;
}
const hasSym = (v) => isSym(v) || (typeof v === "object" && v !== null && (v instanceof TA || v instanceof SMap || (Array.isArray(v) ? v.some(hasSym) : Object.values(v).some(hasSym))));
const SJSON = {
  stringify(v, rep, ind) {
    if (!hasSym(v) && typeof rep !== "function") return JSON.stringify(v, rep, ind);
    if (Array.isArray(rep)) { const l = rep.map(String); rep = function (k, x) { return k === "" || Array.isArray(this) || l.includes(k) ? x : undefined; }; }
    return jsonStr(v, rep, typeof ind === "number" ? " ".repeat(ind) : ind || "", "", { "": v });
  },
  parse(s, rev) {
    s = tostr(s);
    if (typeof s === "string") return JSON.parse(s, rev);
    const walk = (h, k) => { const v = h[k]; if (typeof v === "object" && v !== null && !isSym(v)) for (const q of Object.keys(v)) { const n = walk(v, q); if (n === undefined) delete v[q]; else v[q] = n; } return rev.call(h, k, v); };
    const v = jsonParse(s);
    return rev ? walk({ "": v }, "") : v;
  },
};

// ---------------------------------------------------------------- the other globals
const fn = (f, o) => Object.assign(f, o);
function clampInt(x) { return x; }
const SMath = {};
for (const k of Object.getOwnPropertyNames(Math)) {
  const g = Math[k];
  SMath[k] = typeof g === "function" ? (...a) => g(...a.map((x) => conc(isSym(x) ? toNum(x) : x))) : g;
}
const mm = (isMax) => (...a) => {
  if (!a.some(isSym)) return (isMax ? Math.max : Math.min)(...a);
  a = a.map(toNum);
  if (a.some((x) => Number.isNaN(x))) return NaN;
  if (a.some((x) => !nodeOf(x))) {
    const c = a.filter((x) => !nodeOf(x) && typeof x === "number" && !Number.isFinite(x));
    if (c.length && a.every((x) => nodeOf(x) || !Number.isFinite(x))) {
      const inf = isMax ? Infinity : -Infinity;
      if (c.includes(inf)) return inf;
      a = a.filter((x) => nodeOf(x));
    } else return (isMax ? Math.max : Math.min)(...a.map(conc));
  }
  return num(a.map(nodeOf).reduce((x, y) => T.ite(isMax ? T.lt(x, y) : T.lt(y, x), y, x)));
};
SMath.max = mm(true);
SMath.min = mm(false);
for (const k of ["floor", "ceil", "round", "trunc"])
  SMath[k] = (x) => {
    x = toNum(x);
    if (x instanceof SymNum) return x;
    if (x instanceof SymRat) {
      if (k === "floor") return ratFloor(x);
      if (k === "trunc") return ratTrunc(x);
      if (k === "ceil") { const f = ratFloor(new SymRat(T.neg(x.a), x.b)); return bin("-", 0, f); }
      return ratFloor(new SymRat(T.add(T.mul(x.a, K(2)), x.b), T.mul(x.b, K(2))));
    }
    return Math[k](x);
  };
SMath.abs = (x) => { x = toNum(x); return x instanceof SymNum ? num(T.ite(T.lt(x.n, K(0)), T.clamp(T.neg(x.n), 0n, x.n.lo < 0n ? -x.n.lo : 0n), T.clamp(x.n, 0n, x.n.hi > 0n ? x.n.hi : 0n))) : Math.abs(conc(x)); };
SMath.sign = (x) => { x = toNum(x); return x instanceof SymNum ? num(T.ite(T.lt(x.n, K(0)), K(-1), T.ite(T.eq(x.n, K(0)), K(0), K(1)))) : Math.sign(conc(x)); };
SMath.pow = (a, b) => bin("**", a, b);
SMath.imul = (a, b) => num(i32(T.mul(i32(nodeOf(toNum(a))), i32(nodeOf(toNum(b))))));
SMath.random = () => { unsupported("Math.random"); return 0.5; };

function SNumber(x) {
  if (arguments.length === 0) return 0;
  if (x instanceof SymBig) return num(x.n);
  if (typeof x === "bigint") return Number(x);
  return toNum(x);
}
for (const k of Object.getOwnPropertyNames(Number)) if (!["length", "name", "prototype"].includes(k)) SNumber[k] = Number[k];
SNumber.prototype = Number.prototype;
SNumber.isInteger = (x) => (x instanceof SymNum ? true : x instanceof SymRat ? bool(T.eq(T.trem(x.a, x.b), K(0))) : Number.isInteger(x));
SNumber.isSafeInteger = (x) => (x instanceof SymNum ? bool(T.and(T.lt(K(-SAFE), x.n), T.lt(x.n, K(SAFE)))) : x instanceof SymRat ? Number.isSafeInteger(conc(x)) : Number.isSafeInteger(x));
SNumber.isFinite = (x) => (x instanceof SymNum || x instanceof SymRat ? true : Number.isFinite(x));
SNumber.isNaN = (x) => (isSym(x) ? false : Number.isNaN(x));
SNumber.parseInt = parseInt_;
const parseFloat_ = (s) => {
  if (s instanceof SymNum) return s;
  s = tostr(s);
  if (typeof s === "string") return parseFloat(s);
  const t = s.trimStart();
  if (typeof t === "string") return parseFloat(t);
  const cs = t.cs;
  let i = 0;
  if (decide(inR(cs[0], [[43, 43], [45, 45]]))) i = 1;
  if (i < cs.length && digitVal(cs[i], 10) !== null) {
    let j = i;
    while (j < cs.length && digitVal(cs[j], 10) !== null) j++;
    if (j === cs.length || !decide(inR(cs[j], [[46, 46], [69, 69], [101, 101]]))) { const v = undigits(cs.slice(i, j), 10); return num(i && decide(chEq(cs[0], 45)) ? T.neg(v) : v); }
    return parseFloat(conc(t));
  }
  if (i < cs.length && decide(inR(cs[i], [[46, 46], [73, 73]]))) return parseFloat(conc(t));
  return NaN;
};
SNumber.parseFloat = parseFloat_;
function SBigInt(x) { return x instanceof SymStr || isSym(x) || (typeof x === "object" && x !== null) ? toBigInt(x) : BigInt(x); }
SBigInt.prototype = BigInt.prototype;
SBigInt.asUintN = (k, x) => (isSym(x) ? big(T.bits(bigNode(x), conc(k))) : BigInt.asUintN(conc(k), x));
SBigInt.asIntN = (k, x) => (isSym(x) ? big(T.sbits(bigNode(x), conc(k))) : BigInt.asIntN(conc(k), x));
function SString(x) { return arguments.length === 0 ? "" : typeof x === "symbol" ? String(x) : tostr(x); }
SString.prototype = String.prototype;
SString.fromCharCode = (...a) => str(a.map((c) => fixc(c instanceof SymNum ? T.bits(c.n, 16) : conc(c) & 0xffff)));
SString.fromCodePoint = (...a) => (a.some(isSym) ? str(a.map((c) => fixc(c instanceof SymNum ? (decide(T.lt(c.n, K(0x10000))) ? c.n : K(concInt(c.n))) : c))) : String.fromCodePoint(...a));
SString.raw = String.raw;
function SBoolean(x) { return bool(truth(x)); }
SBoolean.prototype = Boolean.prototype;
function SArray(...a) { return a.length === 1 && isSym(a[0]) ? Array(conc(a[0])) : Array(...a); }
SArray.prototype = Array.prototype;
SArray.isArray = Array.isArray;
SArray.of = Array.of;
SArray.from = (x, f, t) => {
  if (x === null || x === undefined) throw new TypeError(`${x} is not iterable`);
  const l = x[Symbol.iterator] ? [...x] : Array.from({ length: conc(x.length ?? 0) }, (_, i) => R.get(x, i));
  return f ? l.map((v, i) => f.call(t, v, i)) : l;
};
function SObject(x) { return arguments.length ? Object(x) : {}; }
SObject.prototype = Object.prototype;
for (const k of Object.getOwnPropertyNames(Object)) if (!["length", "name", "prototype"].includes(k)) SObject[k] = Object[k];
// objects with symbolic property names; anything not listed below settles the names first
const recs = new WeakMap();
export function record(entries) {
  const t = {};
  let es = entries;
  const fix = () => { if (es) { const l = es; es = null; recs.delete(p); for (const [k, v] of l) t[conc(k)] = v; } return t; };
  const h = {};
  for (const m of ["has", "ownKeys", "getOwnPropertyDescriptor", "set", "deleteProperty", "defineProperty", "preventExtensions", "isExtensible"]) h[m] = (_, ...a) => { fix(); return Reflect[m](t, ...a); };
  h.get = (_, k) => { if (typeof k === "string" && es && !(k in Object.prototype)) { for (const [q, v] of es) if (decide(strEq(q, k))) return v; return undefined; } return typeof k === "symbol" || k in Object.prototype ? Object.prototype[k] : fix()[k]; };
  const p = new Proxy(t, h);
  recs.set(p, es);
  return p;
}
const recOf = (x) => (typeof x === "object" && x !== null ? recs.get(x) : undefined);
const taObj = (x) => (x instanceof TA ? [...x] : x instanceof SymStr ? [...x.cs].map((c) => str([c])) : x);
SObject.keys = (x) => recOf(x) ? recOf(x).map((e) => e[0]) : Object.keys(taObj(x));
SObject.values = (x) => recOf(x) ? recOf(x).map((e) => e[1]) : Object.values(taObj(x));
SObject.entries = (x) => recOf(x) ? recOf(x).map((e) => [e[0], e[1]]) : Object.entries(taObj(x));
SObject.is = (a, b) => (isSym(a) || isSym(b) ? bool(eqNode(a, b)) : Object.is(a, b));
SObject.hasOwn = (o, k) => (recOf(o) && isStr(k) ? recOf(o).some((e) => decide(strEq(e[0], k))) : k instanceof SymStr ? Object.keys(o).some((p) => decide(strEq(p, k))) : Object.hasOwn(o, conc(k)));
SObject.fromEntries = (it) => { const o = {}; for (const x of it) R.set(o, x[0], x[1]); return o; };
SObject.assign = (t, ...ss) => { for (const s of ss) if (s !== null && s !== undefined) for (const [k, v] of SObject.entries(s)) R.set(t, k, v); return t; };

const errs = {};
for (const E of [Error, TypeError, RangeError, SyntaxError, ReferenceError, EvalError]) {
  const C = class extends E {
    constructor(m, o) { super(m === undefined ? undefined : m instanceof SymStr ? "(symbolic message)" : typeof m === "string" ? m : tostr(m) instanceof SymStr ? "(symbolic message)" : tostr(m), o); if (m instanceof SymStr) this.symMessage = m; }
    static [Symbol.hasInstance](x) { return x instanceof E; }
  };
  Object.defineProperty(C, "name", { value: E.name });
  errs[E.name] = C;
}

export const globals = {
  ...TYPED, ...errs, ArrayBuffer: SBuffer, DataView: SDataView, Map: SMap, Set: SSet, TextEncoder: STextEncoder, TextDecoder: STextDecoder, JSON: SJSON, Math: SMath,
  Number: SNumber, BigInt: SBigInt, String: SString, Boolean: SBoolean, Array: SArray, Object: SObject, parseInt: parseInt_, parseFloat: parseFloat_,
  isNaN: (x) => { x = toNum(x); return isSym(x) ? false : isNaN(x); }, isFinite: (x) => { x = toNum(x); return isSym(x) ? true : isFinite(x); },
  console: { log() {}, error() {}, warn() {}, info() {}, debug() {} },
  Date: class { constructor() { unsupported("Date"); } static now() { unsupported("Date"); return 0; } },
  setTimeout: (f, ms, ...a) => setTimeout(f, 0, ...a), clearTimeout, queueMicrotask, structuredClone: (x) => { unsupported("structuredClone"); return x; },
  crypto: undefined, WebAssembly: undefined, performance: { now: () => 0 }, process: undefined, Buffer: undefined, fetch: undefined,
};
globals.globalThis = globals;
globals.self = globals;
globals.window = undefined;

// ---------------------------------------------------------------- what instrumented code calls
export const R = {
  tmp: undefined,
  b(x) {
    if (run.aborted) throw run.aborted;
    if (++run.steps > run.maxSteps) abort("hang", "the code does not stop");
    return isSym(x) ? decide(truth(x)) : !!x;
  },
  fn(n) {
    if (run.aborted) throw run.aborted;
    run.functions.add(n);
    if (++run.steps > run.maxSteps) abort("hang", "the code does not stop");
  },
  bin,
  not: (x) => (isSym(x) ? bool(T.not(truth(x))) : !x),
  inst(o, C) { return o instanceof C; },
  typeof_,
  typeofv: (t, f) => (t === "object" ? typeof_(f()) : t),
  un(op, x) {
    if (op === "+") return isBig(x) ? (() => { throw new TypeError("Cannot convert a BigInt value to a number"); })() : toNum(x);
    if (!isSym(x)) return op === "-" ? -prim(x) : ~prim(x);
    if (x instanceof SymBig) return op === "-" ? big(T.neg(x.n)) : big(T.sub(T.neg(x.n), K(1)));
    x = toNum(x);
    if (!(x instanceof SymNum)) return x instanceof SymRat ? R.un(op, conc(x)) : op === "-" ? -x : ~x;
    return op === "-" ? num(T.neg(x.n)) : num(T.sub(T.neg(i32(x.n)), K(1)));
  },
  tonumeric: (x) => (isBig(x) ? x : toNum(x)),
  incv: (x, op) => bin(op, x, isBig(x) ? 1n : 1),
  post: (a) => a,
  inc(o, k, op, prefix) {
    const old = R.tonumeric(R.get(o, k));
    const v = R.incv(old, op);
    R.set(o, k, v);
    return prefix ? v : old;
  },
  key: (k) => (isSym(k) ? conc(k) : k),
  get(o, k) {
    if (o === null || o === undefined) throw new TypeError(`Cannot read properties of ${o} (reading '${typeof k === "symbol" ? "symbol" : String(isSym(k) ? "?" : k)}')`);
    if (isSym(k)) {
      if (k instanceof SymStr) {
        if (recOf(o)) { for (const [q, v] of recOf(o)) if (decide(strEq(q, k))) return v; return undefined; }
        if (Array.isArray(o) || o instanceof TA || typeof o !== "object" || isSym(o)) return R.get(o, conc(k));
        for (const p of Object.getOwnPropertyNames(o)) if (decide(strEq(p, k))) return o[p];
        const p = protoName(o, k);
        return p === undefined ? undefined : o[p];
      }
      if (k instanceof SymNum && (Array.isArray(o) || o instanceof TA || isStr(o))) {
        if (!decide(T.and(T.le(K(0), k.n), T.lt(k.n, K(o.length))))) return undefined;
      }
      k = conc(k);
    }
    if (o instanceof TA && (typeof k === "number" || (typeof k === "string" && /^\d+$/.test(k)))) return o.getI(N(k));
    if (o instanceof SymStr && (typeof k === "number" || (typeof k === "string" && /^\d+$/.test(k)))) { k = N(k); return k < o.length && k >= 0 && Number.isInteger(k) ? str([o.cs[k]]) : undefined; }
    if (k === "length" && Array.isArray(o)) return o.length;
    return o[k];
  },
  set(o, k, v) {
    if (o === null || o === undefined) throw new TypeError(`Cannot set properties of ${o}`);
    if (isSym(k)) {
      if (k instanceof SymNum && o instanceof TA && !decide(T.and(T.le(K(0), k.n), T.lt(k.n, K(o.length))))) return v;
      if (k instanceof SymStr && typeof o === "object" && !Array.isArray(o)) for (const p of Object.getOwnPropertyNames(o)) if (decide(strEq(p, k))) { o[p] = v; return v; }
      k = conc(k);
    }
    if (o instanceof TA && typeof k === "number") o.put(k, v);
    else if (Array.isArray(o) && k === "length") o.length = conc(v);
    else if (isSym(o) || (typeof o !== "object" && typeof o !== "function")) { /* properties of primitives are dropped or throw in strict code */ throw new TypeError("Cannot create property on a primitive"); }
    else o[k] = v;
    return v;
  },
  pre: (o, k) => ({ o, k: (k = isSym(k) ? conc(k) : k), v: R.get(o, k) }),
  upd: (p, op, v) => R.set(p.o, p.k, bin(op, p.v, v)),
  lset(op, o, k, f) {
    const v = R.get(o, k);
    const go = op === "??=" ? v === null || v === undefined : R.b(v) === (op === "&&=");
    return go ? R.set(o, k, f()) : v;
  },
  ref: (o, k) => ({ get v() { return R.get(o, k); }, set v(x) { R.set(o, k, x); } }),
  del(o, k) { return delete o[conc(k)]; },
  tpl(ps) { return ps.reduce((a, b) => concat(a, tostr(b)), ""); },
  iter(x) { if (x === null || x === undefined) throw new TypeError(`${x} is not iterable`); return x; },
  *forin(x) { if (recOf(x)) { for (const e of recOf(x)) yield e[0]; return; } const o = taObj(x); for (const k in o) yield k; },
  call(o, m, args) {
    if (isSym(m)) m = conc(m);
    if (o === null || o === undefined) throw new TypeError(`Cannot read properties of ${o} (reading '${String(m)}')`);
    if (Array.isArray(o) && typeof m === "string" && o[m] === Array.prototype[m]) return arrCall(o, m, args);
    if (typeof o === "string" && (args.some((a) => isSym(a)) || (args.some((a) => typeof a === "function") && m.startsWith("replace"))) && SymStr.prototype[m]) return new SymStr(codes(o))[m](...args);
    if (o instanceof RegExp && args.some(isSym)) return rxCall(o, m, args);
    if (typeof o === "number" && args.some(isSym)) args = args.map(conc);
    if (o instanceof SymBool && m === "toString") return o.toString();
    if (m === "hasOwnProperty" && args[0] instanceof SymStr) return SObject.hasOwn(o, args[0]);
    if (m === "call" && typeof o === "function") { const [t, ...r] = args; if (o === Object.prototype.hasOwnProperty) return SObject.hasOwn(t, r[0]); if (o === Object.prototype.toString && isSym(t)) return `[object ${({ number: "Number", string: "String", boolean: "Boolean", bigint: "BigInt" })[typeof_(t)]}]`; return o.call(t, ...r); }
    const f = R.get(o, m);
    if (typeof f !== "function") throw new TypeError(`${String(m)} is not a function`);
    return f.apply(o, args);
  },
  caught(e) {
    if (e instanceof Abort) throw e;
    if (run.aborted) throw run.aborted;
  },
};
