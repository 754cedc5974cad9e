// Loads the package's TypeScript files and the harnesses, instrumented (symbolic) or as they are (native replay).
import fs from "node:fs";
import path from "node:path";
import { strip, instrument } from "./instr.mjs";

export const REPO = process.env.VERIF_REPO || "/repo";
export const SRC = path.join(REPO, "packages/zkenc-js/src");
const HERE = path.dirname(new URL(import.meta.url).pathname);

export class Loader {
  // names: the global names visible to loaded code
  constructor(names, R) {
    this.names = names;
    this.R = R;
    this.compiled = new Map();
    this.functions = new Set();
    this.symbolic = !!R;
  }
  compile(file, label, params) {
    let f = this.compiled.get(file);
    if (f) return f;
    let js = file.endsWith(".ts") ? strip(file) : fs.readFileSync(file, "utf8");
    if (this.symbolic) {
      const o = instrument(js, label);
      js = o.code;
      if (process.env.JSSYM_SHOW === label) console.error(js);
      for (const n of o.functions) this.functions.add(label + ":" + n);
    }
    try {
      f = new Function(...params, "R", ...this.names, js + "\n//# sourceURL=" + label);
    } catch (e) {
      throw new Error(`instrumented ${label}: ${e.message}`);
    }
    this.compiled.set(file, f);
    return f;
  }
  // one fresh set of modules
  session(globals) {
    const cache = new Map(), stubs = new Map();
    const g = { ...globals };
    g.globalThis = g.self = this.symbolic ? g : globalThis;
    const vals = () => this.names.map((n) => g[n]);
    const use = (spec, from = SRC) => {
      const base = path.basename(spec).replace(/\.(js|ts|mjs)$/, "");
      for (const [k, v] of stubs) if (spec.includes(k)) return v;
      let file = path.resolve(from, spec.replace(/\.(js|ts|mjs)$/, ""));
      file = [".ts", ".js", "/index.ts"].map((x) => file + x).find((x) => fs.existsSync(x));
      if (!file) throw new Error("cannot find module " + spec);
      if (cache.has(file)) return cache.get(file).exports;
      const m = { exports: {} };
      cache.set(file, m);
      const rel = path.relative(REPO, file);
      const f = this.compile(file, rel.startsWith("..") ? path.basename(file) : rel, ["exports", "require", "module"]);
      f(m.exports, (s) => use(s, path.dirname(file)), m, this.R, ...vals());
      return m.exports;
    };
    const harness = (name, sy) => {
      const f = this.compile(path.join(HERE, "harness", name + ".js"), "harness/" + name, ["exports", "sy", "use"]);
      const ex = {};
      f(ex, sy, (s) => use("./" + s), this.R, ...vals());
      return ex;
    };
    return { use, stubs, globals: g, harness };
  }
}
// segments of a character set written like "a-z0-9,\n"
export function segments(spec) {
  const rs = [];
  for (let i = 0; i < spec.length; i++) {
    const a = spec.charCodeAt(i);
    if (spec[i + 1] === "-" && i + 2 < spec.length) { if (spec.charCodeAt(i + 2) < a) throw new Error("bad character set " + spec); rs.push([a, spec.charCodeAt(i + 2)]); i += 2; } else rs.push([a, a]);
  }
  rs.sort((x, y) => x[0] - y[0]);
  const out = [];
  for (const [a, b] of rs) { const l = out[out.length - 1]; if (l && a <= l[1] + 1) l[1] = Math.max(l[1], b); else out.push([a, b]); }
  return out;
}
