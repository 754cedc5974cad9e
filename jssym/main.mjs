// main.mjs AREA ENTRY --case N --budget S --out F --samples N --hard-ms MS
import fs from "node:fs";
import * as T from "./term.mjs";
import * as RT from "./rt.mjs";
import { Loader, segments } from "./load.mjs";
const { K } = T;
const { run, R } = RT;

const opt = { case: 0, budget: 600, out: null, samples: 4, "hard-ms": 20000, dump: null, maxviol: 3 };
const [area, entry, ...rest] = process.argv.slice(2);
for (let i = 0; i < rest.length; i += 2) opt[rest[i].slice(2)] = /^\d+$/.test(rest[i + 1]) ? Number(rest[i + 1]) : rest[i + 1];

const t0 = performance.now();
const loader = new Loader(Object.keys(RT.globals).filter((k) => k !== "globalThis").concat("globalThis"), R);
const dumpf = opt.dump ? fs.openSync(opt.dump + ".smt2", "w") : null;
const solver = new T.Solver(opt["hard-ms"], process.env.JSSYM_Z3 || "z3", dumpf ? (s) => fs.writeSync(dumpf, s + "\n") : null);

function input(lo, hi) {
  const n = T.V(`${run.inputs.length}_${lo}_${hi}`, lo, hi);
  run.inputs.push(n);
  return n;
}
const node = (c) => (RT.isSym(c) ? RT.truth(c) : T.B(!!c));
const PATHEND = Symbol();
function eq(a, b) {
  if (a instanceof RT.TA || b instanceof RT.TA) {
    if (!(a instanceof RT.TA && b instanceof RT.TA) || a.constructor !== b.constructor || a.length !== b.length) return T.FALSE;
    const x = RT.viewBytes(a), y = RT.viewBytes(b);
    const n = (v) => (typeof v === "number" ? K(v) : v);
    return T.and(...x.map((v, i) => T.eq(n(v), n(y[i]))));
  }
  if (RT.isSym(a) || RT.isSym(b) || typeof a !== "object" || typeof b !== "object" || a === null || b === null) {
    if (typeof a === "number" && typeof b === "number" && Number.isNaN(a) && Number.isNaN(b)) return T.TRUE;
    return RT.eqNode(a, b);
  }
  if (Array.isArray(a) !== Array.isArray(b)) return T.FALSE;
  if (Array.isArray(a)) return a.length !== b.length ? T.FALSE : T.and(...a.map((x, i) => eq(x, b[i])));
  const k = Object.keys(a), l = Object.keys(b);
  if (k.length !== l.length || !k.every((x) => Object.hasOwn(b, x))) return T.FALSE;
  return T.and(...k.map((x) => eq(a[x], b[x])));
}
function check(c, label) {
  const n = node(c);
  stats.checks++;
  labels.set(label, (labels.get(label) || 0) + 1);
  if (n === T.TRUE) { stats.checks_concrete++; return; }
  const bad = !T.ev(n);
  run.trace.push({ k: "c", n, label, bad, at: run.inputs.length });
  if (bad) throw (run.aborted = new RT.Abort("check", label));
  run.onPath.add(n.id);
}
let session;
const sy = {
  symbolic: true,
  get case() { return opt.case; },
  int: (lo, hi) => RT.num(input(BigInt(lo), BigInt(hi))),
  big: (lo, hi) => RT.big(input(BigInt(lo), BigInt(hi))),
  bool: () => RT.bool(T.eq(input(0n, 1n), K(1))),
  byte: () => RT.num(input(0n, 255n)),
  bytes: (n) => { const r = new RT.TYPED.Uint8Array(n); for (let i = 0; i < n; i++) r.put(i, RT.num(input(0n, 255n))); return r; },
  // the same, in the middle of a larger buffer
  view: (n, before, after) => { const r = new RT.TYPED.Uint8Array(n + before + after); for (let i = 0; i < r.length; i++) r.put(i, RT.num(input(0n, 255n))); return r.subarray(before, before + n); },
  choice: (n) => Number(RT.concInt(input(0n, BigInt(n) - 1n))),
  chars: (n, spec) => {
    const sg = segments(spec), total = sg.reduce((a, [x, y]) => a + y - x + 1, 0);
    const out = [];
    for (let i = 0; i < n; i++) {
      const v = input(0n, BigInt(total - 1));
      let at = total, c = null;
      for (const [x, y] of [...sg].reverse()) {
        at -= y - x + 1;
        const t = T.clamp(T.add(v, K(x - at)), BigInt(sg[0][0]), BigInt(sg[sg.length - 1][1]));
        c = c === null ? t : T.ite(T.lt(v, K(at + (y - x + 1))), t, c);
      }
      out.push(T.clamp(c, BigInt(sg[0][0]), BigInt(sg[sg.length - 1][1])));
    }
    return RT.str(out.map((c) => (T.asK(c) !== undefined ? Number(T.asK(c)) : c)));
  },
  assume(c) {
    const n = node(c);
    if (n === T.TRUE) return;
    const ok = T.ev(n);
    run.trace.push({ k: "a", n, ok });
    if (!ok) throw (run.aborted = new RT.Abort("assume", ""));
    run.onPath.add(n.id);
  },
  check,
  fail: (label) => check(false, label),
  eq: (a, b) => RT.bool(eq(a, b)),
  not: (a) => RT.bool(T.not(node(a))),
  all: (l) => RT.bool(T.and(...Array.from(l, node))),
  any: (l) => RT.bool(T.or(...Array.from(l, node))),
  imp: (a, b) => RT.bool(T.or(T.not(node(a)), node(b))),
  reach: (l) => run.reached.add(l),
  observe: (n, v) => run.observed.push([n, v]),
  global: (n, v) => { session.globals[n] = v; },
  stub: (spec, ex) => session.stubs.set(spec, ex),
  bytesOf: (x) => { const d = RT.viewBytes(x); const r = new RT.TYPED.Uint8Array(d.length); d.forEach((v, i) => { r.buffer.d[i] = v; }); return r; },
  // an object whose property names may be symbolic (pairwise distinct)
  obj: (es) => {
    for (let i = 0; i < es.length; i++) for (let j = 0; j < i; j++) sy.assume(sy.not(RT.bool(RT.strEq(es[i][0], es[j][0]))));
    return es.some((e) => RT.isSym(e[0])) ? RT.record(es) : Object.fromEntries(es);
  },
  // mathematical helpers usable in specifications (no forks)
  ite: (c, a, b) => { const n = node(c); if (n === T.TRUE) return a; if (n === T.FALSE) return b; const q = (x) => (typeof x === "number" || typeof x === "bigint" ? K(x) : x.n); return RT.isBig(a) ? RT.big(T.ite(n, q(a), q(b))) : RT.num(T.ite(n, q(a), q(b))); },
  len: (a) => a.length,
};

const stats = { paths: 0, done: 0, dropped: 0, checks: 0, checks_concrete: 0, forks: 0, steps: 0 };
const labels = new Map(), reach = new Map(), violations = [], inconclusive = new Map(), samples = [];
const note = (m) => inconclusive.set(m, (inconclusive.get(m) || 0) + 1);
const vcount = new Map();
const show = (v) => {
  // printed form of an observed value under the current model
  const c = (x) => (x instanceof RT.SymStr ? JSON.stringify(x.cs.map((k) => String.fromCharCode(typeof k === "number" ? k : Number(T.ev(k)))).join("")) : x instanceof RT.SymBig ? T.ev(x.n) + "n" : x instanceof RT.SymBool ? String(T.ev(x.n)) : x instanceof RT.SymNum ? String(T.ev(x.n)) : null);
  const f = (x) => {
    if (RT.isSym(x)) return c(x);
    if (typeof x === "bigint") return x + "n";
    if (x instanceof RT.TA) return "[" + [...x].map(f).join(",") + "]";
    if (x instanceof RT.SMap) return "{" + [...x].map(([k, w]) => f(k) + ":" + f(w)).join(",") + "}";
    if (Array.isArray(x)) return "[" + x.map(f).join(",") + "]";
    if (typeof x === "object" && x !== null) return x instanceof Error ? "error" : "{" + Object.keys(x).map((k) => JSON.stringify(k) + ":" + f(x[k])).join(",") + "}";
    return typeof x === "string" ? JSON.stringify(x) : String(x);
  };
  return f(v);
};
function violation(label, msg, inputs, stack = []) {
  const k = vcount.get(label) || 0;
  vcount.set(label, k + 1);
  if (k < opt.maxviol) violations.push({ label, msg, inputs, stack });
}
const inputValues = (upto, m) => run.inputs.slice(0, upto).map((n) => String(n.op === "k" ? n.lo : (m && m.get(n.extra)) ?? T.ev(n)));
const idle = async () => { for (let i = 0; i < 400; i++) await new Promise((r) => setImmediate(r)); return PATHEND; };

async function one(item) {
  T.model.clear();
  for (const [k, v] of item.model) T.model.set(k, v);
  RT.resetRun(item.expect);
  session = loader.session(RT.globals);
  stats.paths++;
  let err = null;
  try {
    const h = session.harness(area, sy);
    const r = await Promise.race([h[entry](), idle()]);
    if (r === PATHEND) err = new RT.Abort("stuck", "the operation never completes");
  } catch (e) { err = e; }
  err = run.aborted || err;
  // let what is left of this run end before the next one starts; it no longer counts
  const [nt, ni] = [run.trace.length, run.inputs.length];
  await new Promise((r) => setImmediate(r));
  run.trace.length = nt;
  run.inputs.length = ni;
  for (const w of run.unsupported) note("not modelled: " + w);
  run.unsupported.clear();
  stats.steps += run.steps;
  // the prefix must be the one that was asked for
  for (let i = 0; i < item.expect.length; i++) {
    const e = run.trace[i];
    const l = e && (e.k === "c" && e.bad ? T.not(e.n) : e.n);
    if (!e || l !== item.expect[i].n) { note("a path did not repeat"); return; }
  }
  if (!err || err.kind === "check") {
    stats.done++;
    for (const l of run.reached) reach.set(l, (reach.get(l) || 0) + 1);
    if (!err && samples.length < opt.samples) samples.push({ inputs: inputValues(run.inputs.length), observed: run.observed.map(([n, v]) => [n, show(v)]), reached: [...run.reached] });
    else if (!err && Math.random() < 0.02) samples[Math.floor(Math.random() * samples.length)] = { inputs: inputValues(run.inputs.length), observed: run.observed.map(([n, v]) => [n, show(v)]), reached: [...run.reached] };
  } else if (err instanceof RT.Abort) {
    if (err.kind === "assume") stats.dropped++;
    else if (err.kind === "hang" || err.kind === "alloc" || err.kind === "stuck") violation(`${err.kind}@${entry}`, err.message, inputValues(run.inputs.length));
    else note(err.kind + ": " + err.message);
  } else {
    const st = String(err && err.stack).split("\n").slice(1, 8).map((x) => x.trim());
    if (process.env.JSSYM_TRACE) console.error(err);
    const internal = st.length && /jssym\/(rt|term|main|instr)\.mjs/.test(st[0]) && !(err instanceof TypeError || err instanceof RangeError || err instanceof SyntaxError);
    if (internal) note("engine: " + err.message);
    else violation(`exception@${entry}`, String(err && err.message ? err.name + ": " + err.message : err), inputValues(run.inputs.length), st);
  }
  // solve for the other side of everything new
  const conds = [], past = [];
  for (let i = 0; i < run.trace.length; i++) {
    const e = run.trace[i], fresh = i >= item.expect.length;
    const taken = (e.k === "c" && e.bad) || (e.k === "a" && !e.ok) ? T.not(e.n) : e.n;
    if (fresh) {
      solver.rewind(conds, conds.length);
      if (e.k === "c" && e.bad) violation(e.label, "assertion fails", inputValues(e.at));
      const r = await solver.check(T.not(taken), true);
      if (r.r === "unknown") note("solver gave no answer at " + (e.label || "a branch"));
      if (r.r === "sat") {
        if (e.k === "b") { stats.forks++; work.push({ model: r.m, expect: [...past, { n: T.not(taken), conc: e.conc, v: e.v }] }); }
        else if (e.k === "c") {
          if (e.bad) work.push({ model: r.m, expect: [...past, { n: e.n }] });
          else violation(e.label, "assertion fails", inputValues(e.at, r.m));
        } else if (!e.ok) work.push({ model: r.m, expect: [...past, { n: e.n }] });
      }
    }
    conds.push(taken);
    past.push(i < item.expect.length ? item.expect[i] : { n: taken });
  }
}
let stopped = false;
process.on("unhandledRejection", () => {});
const work = [{ model: new Map(), expect: [] }];
while (work.length) {
  if ((performance.now() - t0) / 1000 > opt.budget) { note("time budget used up"); break; }
  if (violations.length >= 3) { stopped = true; break; }
  await one(work.pop());
}
solver.close();
const st = solver.stats;
const out = {
  entry, case: opt.case, paths: stats.paths, done: stats.done, dropped: stats.dropped, steps: stats.steps, forks: stats.forks, checks: stats.checks, checks_concrete: stats.checks_concrete,
  queries: st.queries, sat: st.sat, unsat: st.unsat, unknown: st.unknown, solver_s: +st.solver_s.toFixed(3), max_query_s: +st.max_query_s.toFixed(3), total_s: +((performance.now() - t0) / 1000).toFixed(3),
  terms: T.sizes(), solver: process.env.JSSYM_Z3 || "z3", reach: Object.fromEntries(reach), check_labels: Object.fromEntries(labels), inconclusive: Object.fromEntries(inconclusive), violations, samples,
  functions: [...run.functions].filter((f) => !f.startsWith("harness/")).sort(),
};
const txt = JSON.stringify(out, null, opt.out ? 0 : 1);
if (opt.out) fs.writeFileSync(opt.out, txt); else console.log(txt);
process.exit(0);
