// C25: symbol files and the mapping of inputs to wires
const WS = [9, 10, 11, 12, 13, 32, 160];
const at = (s, i) => s.charCodeAt(i);
function trimmed(s) {
  let a = 0, b = s.length;
  while (a < b && WS.includes(at(s, a))) a++;
  while (b > a && WS.includes(at(s, b - 1))) b--;
  return s.slice(a, b);
}
function cut(s, c) {
  const out = [];
  let cur = 0;
  for (let i = 0; i < s.length; i++) if (at(s, i) === c) { out.push(s.slice(cur, i)); cur = i + 1; }
  out.push(s.slice(cur));
  return out;
}
// decimal integer, or undefined when the field is not written as one
function decimal(f) {
  let i = 0, neg = false;
  if (f.length > 0 && at(f, 0) === 45) { neg = true; i = 1; }
  if (i === f.length) return undefined;
  let v = 0;
  for (; i < f.length; i++) {
    const c = at(f, i);
    if (c < 48 || c > 57) return undefined;
    v = v * 10 + (c - 48);
  }
  return neg ? 0 - v : v;
}
function expectMap(got, want, label) {
  sy.check(got.size === want.length, label + " size");
  for (const [k, v] of want) {
    sy.check(got.has(k), label + " name");
    sy.check(got.get(k) === v, label + " wire");
  }
}
function put(l, k, v) {
  for (const e of l) if (e[0] === k) { e[1] = v; return; }
  l.push([k, v]);
}
// any text over an alphabet of the format's characters
exports.c25_any = async function c25_any() {
  const { parseSymFile } = use("sym_parser");
  const n = sy.case % 16;
  const t = sy.chars(n, ["0-9,\n a\r-", "1,\nz-"][Math.floor(sy.case / 16)]);
  const want = [];
  for (const line of cut(t, 10)) {
    const p = cut(line, 44);
    if (p.length !== 4) continue;
    const w = decimal(p[1]);
    if (w === undefined) {
      // not an integer: only ask that a field without any digit maps nothing
      for (let i = 0; i < p[1].length; i++) sy.assume(sy.any([at(p[1], i) < 48, at(p[1], i) > 57]));
      continue;
    }
    if (w >= 0) put(want, trimmed(p[3]), w);
  }
  const got = parseSymFile(t);
  expectMap(got, want, "c25 any");
  sy.reach(want.length ? "c25 mapped" : "c25 nothing mapped");
  sy.observe("m", got);
};
// one line: ids of any length, any name
exports.c25_line = async function c25_line() {
  const { parseSymFile } = use("sym_parser");
  const nd = sy.case % 16, nn = Math.floor(sy.case / 16) % 8;
  const neg = sy.bool();
  const id = sy.chars(nd, "0-9");
  const name = sy.chars(nn, "\t\r -+--~\u00e9");
  const c = sy.chars(1, "0-9");
  const tail = ["", "\n", "\r\n", "\n\n"][sy.choice(4)];
  const text = "1," + (neg ? "-" : "") + id + "," + c + ",main." + name + tail;
  const v = decimal(id);
  const want = neg && v > 0 ? [] : [[trimmed("main." + name), v]];
  const got = parseSymFile(text);
  expectMap(got, want, "c25 line");
  sy.reach("c25 line");
};
// several lines of every kind
exports.c25_lines = async function c25_lines() {
  const { parseSymFile } = use("sym_parser");
  const want = [];
  let text = "";
  const n = sy.case;
  const eol = ["\n", "\r\n"][sy.choice(2)];
  const names = [];
  for (let i = 0; i < n; i++) {
    const kind = sy.choice(6);
    const w = sy.chars(1 + (i % 2), "0-9");
    const name = "main.s" + sy.chars(1, "a-c[0-2.");
    for (const o of names) sy.assume(sy.not(sy.eq(o, name)));
    names.push(name);
    const l = sy.chars(1, "0-9");
    if (kind === 0) { text += l + "," + w + ",0," + name; put(want, name, decimal(w)); }
    else if (kind === 1) text += l + ",-1,0," + name;
    else if (kind === 2) text += l + "," + w + ",0"; // too few fields
    else if (kind === 3) text += l + "," + w + ",0," + name + ",x"; // too many
    else if (kind === 4) text += ""; // empty line
    else { text += l + "," + w + ",0,  " + name + "\t "; put(want, name, decimal(w)); }
    text += i + 1 < n ? eol : ["", eol][sy.choice(2)];
  }
  const got = parseSymFile(text);
  expectMap(got, want, "c25 lines");
  sy.reach("c25 lines");
};
// many lines, ids as large as wire numbers get
exports.c25_many = async function c25_many() {
  const { parseSymFile, getInputSignals } = use("sym_parser");
  let text = "";
  const want = [], ins = [];
  for (let i = 0; i < sy.case; i++) {
    const w = i % 3 === 2 ? "-1" : sy.chars(1 + ((i * 7) % 10), "0-9");
    text += `${i},${w},${i % 4},main.${i % 5 === 4 ? "sub." : ""}s[${i}]\n`;
    if (i % 3 !== 2) { want.push([`main.${i % 5 === 4 ? "sub." : ""}s[${i}]`, decimal(w)]); ins.push([`${i % 5 === 4 ? "sub." : ""}s[${i}]`, decimal(w)]); }
  }
  const m = parseSymFile(text);
  expectMap(m, want, "c25 many");
  expectMap(getInputSignals(m), ins, "c25 many inputs");
  sy.reach("c25 many");
};
exports.c25_inputs = async function c25_inputs() {
  const { getInputSignals } = use("sym_parser");
  const m = new Map();
  const n = sy.case % 4;
  const names = [];
  const want = [];
  const bound = sy.choice(2) === 1 ? sy.int(0, 4294967295) : undefined;
  for (let i = 0; i < n; i++) {
    const kind = sy.choice(8);
    const x = sy.chars(2, "!-~\u00e9");
    const name = ["main." + x, "main" + x, x + "main." + x, "Main." + x, "main.", "", "main.main." + x, "xmain." + x][kind];
    for (const o of names) sy.assume(sy.not(sy.eq(o, name)));
    names.push(name);
    const id = sy.int(0, 4294967295);
    m.set(name, id);
    const dot = kind === 1 && sy.case >= 4 ? false : undefined;
    if (name.length >= 5 && sy.all([at(name, 0) === 109, at(name, 1) === 97, at(name, 2) === 105, at(name, 3) === 110, at(name, 4) === 46])) {
      if (bound === undefined || id <= bound) want.push([name.slice(5), id]);
    }
  }
  const got = getInputSignals(m, bound);
  expectMap(got, want, "c25 inputs");
  // the source map is left as it was
  sy.check(m.size === n, "c25 inputs source");
  sy.reach(want.length ? "c25 some inputs" : "c25 no inputs");
};
// every leaf of the input goes to the wire of its name, and nothing else anywhere
function leaf(kind, i) {
  if (kind === 0) return sy.int(-1000, 1000000);
  if (kind === 1) return sy.chars(2, "0-9");
  if (kind === 2) return sy.big(-(2n ** 254n), 2n ** 254n).toString();
  return sy.int(0, 9) + 10 * i;
}
function build(shape, path, out, k) {
  if (shape === 0) { const v = leaf(k[0] % 3, out.length); k[0]++; out.push([path, v]); return v; }
  if (shape[0] === "a") {
    const r = [];
    for (let i = 1; i < shape.length; i++) r.push(build(shape[i], path + "[" + (i - 1) + "]", out, k));
    return r;
  }
  const o = {};
  const keys = ["x", "yy", "z0"];
  for (let i = 1; i < shape.length; i++) o[keys[i - 1]] = build(shape[i], path + "." + keys[i - 1], out, k);
  return o;
}
const SHAPES = [
  0, ["a"], ["a", 0], ["a", 0, 0, 0], ["a", ["a", 0, 0], ["a", 0]], ["a", ["a", ["a", 0], ["a", 0]]], ["o", 0, 0], ["o", ["o", 0], 0], ["o", ["a", 0, 0], ["o", ["a", 0]]],
  ["a", ["o", 0], ["o", 0, 0]], ["o", ["a", ["a", 0, 0], ["a", 0, 0]]], ["o"], ["a", 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], ["o", ["o", ["o", 0, ["a", 0]]]],
];
exports.SHAPES = SHAPES;
exports.c25_map = async function c25_map() {
  const { mapInputsToWires } = use("sym_parser");
  const s = sy.case % 16;
  const leaves = [];
  const k = [Math.floor(sy.case / 16)];
  const a = build(SHAPES[s], "in", leaves, k);
  const b = build(0, "k", leaves, k);
  const inputs = sy.choice(2) === 0 ? { in: a, k: b } : { k: b, in: a };
  // every leaf's wire may be missing; other names are there too
  const m = new Map();
  const ids = [];
  leaves.forEach((l, i) => {
    const there = leaves.length > 4 ? i % 3 !== 1 : sy.choice(2) === 0;
    ids.push(there ? i + 7 : undefined);
    if (there) m.set(l[0], i + 7);
  });
  for (const [i, n] of ["in", "k[0]", "in.0", "in[0", "main.in", "x", "in[99]", "in..x", ".in", "undefined", "in,0", "in[0][9]"].entries()) if (!m.has(n) && !leaves.some((l) => l[0] === n)) m.set(n, 1000 + i);
  const got = mapInputsToWires(inputs, m);
  let cnt = 0;
  leaves.forEach((l, i) => {
    if (ids[i] === undefined) return;
    cnt++;
    const g = got.get(ids[i]);
    sy.check(g !== undefined, "c25 map value missing");
    const v = Array.isArray(g) ? g[0] : g;
    sy.check(String(v) === String(l[1]), "c25 map value");
  });
  sy.check(got.size === cnt, "c25 map extra wires");
  sy.reach("c25 map");
};
// names of wires and input positions that almost agree
exports.c25_names = async function c25_names() {
  const { mapInputsToWires } = use("sym_parser");
  const v = [sy.int(0, 9), sy.int(10, 99), sy.int(100, 999), sy.int(1000, 9999)];
  const inputs = [{ a: v[0], aa: v[1], b: [v[2], v[3]] }, { a: { b: v[0], a: v[1] }, b: v[2], "": v[3] }, { a: [{ b: v[0] }, [v[1]]], b: { a: [v[2], v[3]] } }][Math.floor(sy.case / 8) % 3];
  const names = [["a", "aa", "b[0]", "b[1]"], ["a.b", "a.a", "b", ""], ["a[0].b", "a[1][0]", "b.a[0]", "b.a[1]"]][Math.floor(sy.case / 8) % 3];
  const n = sy.chars(sy.case % 8, "ab.0-1[]");
  const id = sy.int(0, 4294967295);
  const got = mapInputsToWires(inputs, new Map([[n, id]]));
  let hit = -1;
  for (let i = 0; i < 4; i++) if (names[i] === n) hit = i;
  if (hit < 0) { sy.check(got.size === 0, "c25 names nothing"); sy.reach("c25 no name"); }
  else { sy.check(got.size === 1 && got.has(id) && String(got.get(id)) === String(v[hit]), "c25 names value"); sy.reach("c25 name"); }
};
// property names and wire names are both anything: a leaf goes to exactly the wire whose name spells its path
exports.c25_keys = async function c25_keys() {
  const { mapInputsToWires } = use("sym_parser");
  const set = [" \ta.[0]", "a-c\u00e9 _", "Aa.\n0"][Math.floor(sy.case / 64) % 3];
  const k1 = sy.chars(sy.case % 4, set), k2 = sy.chars(Math.floor(sy.case / 4) % 4, set), k3 = sy.chars(Math.floor(sy.case / 16) % 4, set);
  const v = [sy.int(0, 9), sy.int(10, 99), sy.int(100, 999)];
  const shape = sy.choice(3);
  let inputs, paths;
  if (shape === 0) {
    sy.assume(sy.not(sy.eq(k1, k2)));
    inputs = sy.obj([[k1, v[0]], [k2, [v[1], v[2]]]]);
    paths = [k1, k2 + "[0]", k2 + "[1]"];
  } else if (shape === 1) {
    sy.assume(sy.not(sy.eq(k1, k2)));
    inputs = sy.obj([[k1, sy.obj([[k3, v[0]]])], [k2, v[1]]]);
    paths = [k1 + "." + k3, k2];
  } else {
    sy.assume(sy.not(sy.eq(k1, k2)));
    inputs = sy.obj([[k3, [sy.obj([[k1, v[0]], [k2, v[1]]]), v[2]]]]);
    paths = [k3 + "[0]." + k1, k3 + "[0]." + k2, k3 + "[1]"];
  }
  for (let i = 0; i < paths.length; i++) for (let j = 0; j < i; j++) sy.assume(sy.not(sy.eq(paths[i], paths[j])));
  // one wire is named by text of the solver's choice, the others exist under the names of the leaves
  const n = sy.chars(sy.choice(4), set);
  const pick = sy.choice(paths.length + 1);
  const m = new Map([[n, 7]]);
  const want = [];
  paths.forEach((p, i) => {
    if (sy.eq(p, n)) want.push([7, v[i]]);
    else if (i !== pick) { m.set(p, 20 + i); want.push([20 + i, v[i]]); }
  });
  const got = mapInputsToWires(inputs, m);
  sy.check(got.size === want.length, "c25 keys size");
  for (const [w, x] of want) {
    const g = got.get(w);
    sy.check(g !== undefined, "c25 keys value missing");
    sy.check(String(Array.isArray(g) ? g[0] : g) === String(x), "c25 keys value");
  }
  sy.reach("c25 keys");
};
