// Source-to-source instrumentation: every operation that can meet a symbolic value goes through the runtime R.
import { createRequire } from "node:module";
import fs from "node:fs";
const req = createRequire("/opt/veriftools/node/node_modules/");
const ts = req("typescript");
const acorn = req("acorn");

export function strip(file) {
  const src = fs.readFileSync(file, "utf8");
  const o = ts.transpileModule(src, {
    fileName: file,
    reportDiagnostics: true,
    compilerOptions: { target: "ES2022", module: "CommonJS", esModuleInterop: true, removeComments: true, useDefineForClassFields: false },
  });
  const bad = (o.diagnostics || []).filter((d) => d.category === 1);
  if (bad.length) throw new Error(file + ": " + ts.flattenDiagnosticMessageText(bad[0].messageText, "\n"));
  return o.outputText;
}

export function instrument(js, label) {
  const ast = acorn.parse(js, { ecmaVersion: 2024, sourceType: "script", allowReturnOutsideFunction: true, allowAwaitOutsideFunction: true });
  const fns = [];
  let sw = 0;
  const kids = (n) => {
    const r = [];
    for (const k of Object.keys(n)) {
      if (k === "type" || k === "start" || k === "end") continue;
      const v = n[k];
      if (Array.isArray(v)) { for (const x of v) if (x && typeof x.type === "string") r.push(x); }
      else if (v && typeof v.type === "string") r.push(v);
    }
    return r.sort((a, b) => a.start - b.start);
  };
  // copy the source of n, with replacements for its children
  const copy = (n, over = new Map()) => {
    let out = "", p = n.start, last = null;
    for (const c of kids(n)) {
      if (c.start < p) continue; // shorthand properties list key and value at the same place
      out += js.slice(p, c.start) + (over.has(c) ? over.get(c) : gen(c));
      p = c.end;
    }
    return out + js.slice(p, n.end);
  };
  const cond = (n) => `R.b(${gen(n)})`;
  const key = (m) => (m.computed ? gen(m.property) : JSON.stringify(m.property.name));
  const S = JSON.stringify;
  const isSuper = (m) => m.object.type === "Super";
  const priv = (m) => !m.computed && m.property.type === "PrivateIdentifier";
  const fnEnter = (name) => { fns.push(name); return `R.fn(${S(label + ":" + name)});`; };
  const names = [];

  function body(n, name) {
    // function body with an entry marker
    const inner = n.body;
    if (inner.type === "BlockStatement") {
      const t = gen(inner);
      // keep directives first
      return t.replace(/^\{/, "{" + fnEnter(name));
    }
    return `{${fnEnter(name)}return (${gen(inner)});}`;
  }
  function gen(n) {
    switch (n.type) {
      case "BinaryExpression":
        if (n.operator === "instanceof") return `R.inst(${gen(n.left)}, ${gen(n.right)})`;
        if (n.left.type === "PrivateIdentifier") return copy(n);
        return `R.bin(${S(n.operator)}, ${gen(n.left)}, ${gen(n.right)})`;
      case "UnaryExpression":
        if (n.operator === "!") return `R.not(${gen(n.argument)})`;
        if (n.operator === "typeof") {
          if (n.argument.type === "Identifier") return `R.typeofv(typeof ${n.argument.name}, () => ${n.argument.name})`;
          return `R.typeof_(${gen(n.argument)})`;
        }
        if (n.operator === "void") return `(void ${gen(n.argument)})`;
        if (n.operator === "delete") return n.argument.type === "MemberExpression" ? `R.del(${gen(n.argument.object)}, ${key(n.argument)})` : copy(n);
        if (n.operator === "-" && n.argument.type === "Literal" && typeof n.argument.value === "number") return js.slice(n.start, n.end);
        return `R.un(${S(n.operator)}, ${gen(n.argument)})`;
      case "LogicalExpression": {
        const a = gen(n.left), b = gen(n.right);
        if (n.operator === "&&") return `(R.b(R.tmp = ${a}) ? ${b} : R.tmp)`;
        if (n.operator === "||") return `(R.b(R.tmp = ${a}) ? R.tmp : ${b})`;
        return `(((R.tmp = ${a}) !== null && R.tmp !== undefined) ? R.tmp : ${b})`;
      }
      case "ConditionalExpression":
        return `(${cond(n.test)} ? ${gen(n.consequent)} : ${gen(n.alternate)})`;
      case "IfStatement":
      case "WhileStatement":
      case "DoWhileStatement":
        return copy(n, new Map([[n.test, cond(n.test)]]));
      case "ForStatement": {
        let i = n.init ? gen(n.init) : "";
        if (!i.endsWith(";")) i += ";";
        return `for (${i} ${n.test ? cond(n.test) : "R.b(true)"}; ${n.update ? gen(n.update) : ""}) ${gen(n.body)}`;
      }
      case "SwitchStatement": {
        const v = `$sw${sw++}`;
        let t = `{ const ${v} = ${gen(n.discriminant)}; switch (true) {`;
        for (const c of n.cases) t += (c.test ? `case R.b(R.bin("===", ${v}, ${gen(c.test)})):` : "default:") + c.consequent.map(gen).join("\n");
        return t + "}}";
      }
      case "LabeledStatement": {
        const b = n.body;
        if (b.type === "SwitchStatement") return `${n.label.name}: ${gen(b)}`;
        return copy(n);
      }
      case "TemplateLiteral": {
        const p = [];
        n.quasis.forEach((q, i) => { p.push(S(q.value.cooked)); if (i < n.expressions.length) p.push(gen(n.expressions[i])); });
        return `R.tpl([${p.join(",")}])`;
      }
      case "TaggedTemplateExpression":
        return js.slice(n.start, n.end);
      case "AssignmentExpression": {
        const op = n.operator;
        const L = n.left;
        if (L.type === "MemberExpression" && !isSuper(L) && !priv(L)) {
          const o = gen(L.object), k = key(L);
          if (op === "=") return `R.set(${o}, ${k}, ${gen(n.right)})`;
          if (op === "&&=" || op === "||=" || op === "??=") return `R.lset(${S(op)}, ${o}, ${k}, () => ${gen(n.right)})`;
          return `R.upd(R.pre(${o}, ${k}), ${S(op.slice(0, -1))}, ${gen(n.right)})`;
        }
        if (op === "=") return copy(n);
        const l = js.slice(L.start, L.end);
        if (op === "&&=") return `(R.b(R.tmp = ${l}) ? (${l} = ${gen(n.right)}) : R.tmp)`;
        if (op === "||=") return `(R.b(R.tmp = ${l}) ? R.tmp : (${l} = ${gen(n.right)}))`;
        if (op === "??=") return `(((R.tmp = ${l}) !== null && R.tmp !== undefined) ? R.tmp : (${l} = ${gen(n.right)}))`;
        return `(${l} = R.bin(${S(op.slice(0, -1))}, ${l}, ${gen(n.right)}))`;
      }
      case "UpdateExpression": {
        const A = n.argument, op = n.operator === "++" ? "+" : "-";
        if (A.type === "MemberExpression" && !priv(A)) return `R.inc(${gen(A.object)}, ${key(A)}, ${S(op)}, ${n.prefix})`;
        const l = js.slice(A.start, A.end);
        if (n.prefix) return `(${l} = R.incv(${l}, ${S(op)}))`;
        return `R.post(${l} = R.tonumeric(${l}), ${l} = R.incv(${l}, ${S(op)}))`;
      }
      case "MemberExpression":
        if (inPattern && !isSuper(n) && !priv(n)) {
          inPattern = false;
          const t = `R.ref(${gen(n.object)}, ${key(n)}).v`;
          inPattern = true;
          return t;
        }
        if (isSuper(n) || priv(n) || n.optional || inChain) return copy(n);
        return `R.get(${gen(n.object)}, ${key(n)})`;
      case "ChainExpression": {
        const was = inChain;
        inChain = true;
        const t = copy(n);
        inChain = was;
        return `(${t})`;
      }
      case "CallExpression": {
        const c = n.callee;
        const was = inChain;
        inChain = false;
        const args = n.arguments.map(gen);
        inChain = was;
        if (c.type === "MemberExpression" && !isSuper(c) && !priv(c) && !n.optional && !inChain)
          return `R.call(${gen(c.object)}, ${key(c)}, [${args.join(", ")}])`;
        if (n.optional || inChain) return `${gen(c)}${n.optional ? "?." : ""}(${args.join(", ")})`;
        if (c.type === "SequenceExpression") return `(0, ${gen(c.expressions[c.expressions.length - 1])})(${args.join(", ")})`;
        return `${c.type === "Identifier" || c.type === "Super" || (c.type === "MemberExpression") ? gen(c) : "(" + gen(c) + ")"}(${args.join(", ")})`;
      }
      case "NewExpression":
        return `new (${gen(n.callee)})(${n.arguments.map(gen).join(", ")})`;
      case "ArrayPattern":
      case "ObjectPattern":
      case "RestElement": {
        const was = inPattern;
        inPattern = true;
        const t = copy(n);
        inPattern = was;
        return t;
      }
      case "AssignmentPattern": {
        const l = gen(n.left), was = inPattern;
        inPattern = false;
        const t = `${l} = ${gen(n.right)}`;
        inPattern = was;
        return t;
      }
      case "Property": {
        if (n.shorthand) {
          if (n.value.type === "AssignmentPattern") return `${n.key.name}: ${gen(n.value)}`;
          return n.key.name;
        }
        if (n.computed) {
          const was = inPattern;
          inPattern = false;
          const k = `R.key(${gen(n.key)})`;
          inPattern = was;
          return copy(n, new Map([[n.key, k]]));
        }
        return copy(n, new Map([[n.key, js.slice(n.key.start, n.key.end)]]));
      }
      case "CatchClause": {
        const p = n.param ? (n.param.type === "Identifier" ? n.param.name : null) : "$e";
        if (p === null) return `catch ($e) { R.caught($e); const ${gen(n.param)} = $e; ${gen(n.body)} }`;
        return `catch (${p}) { R.caught(${p}); ${gen(n.body)} }`;
      }
      case "FunctionDeclaration":
      case "FunctionExpression":
      case "ArrowFunctionExpression": {
        const nm = n.id ? n.id.name : names.length ? names[names.length - 1] : "anonymous";
        names.push(nm);
        const was = inChain, wasP = inPattern;
        inChain = inPattern = false;
        const t = n.type === "ArrowFunctionExpression"
          ? `(${n.async ? "async " : ""}(${n.params.map(gen).join(", ")}) => ${body(n, nm)})`
          : copy(n, new Map([[n.body, body(n, nm)]]));
        inChain = was;
        inPattern = wasP;
        names.pop();
        return t;
      }
      case "MethodDefinition":
      case "PropertyDefinition": {
        names.push(n.key.name || "computed");
        const t = copy(n);
        names.pop();
        return t;
      }
      case "VariableDeclarator":
        names.push(n.id.type === "Identifier" ? n.id.name : "anonymous");
        const t = copy(n);
        names.pop();
        return t;
      case "ForOfStatement":
      case "ForInStatement": {
        const h = n.type === "ForInStatement" ? `R.forin(${gen(n.right)})` : n.await ? gen(n.right) : `R.iter(${gen(n.right)})`;
        let lhs = gen(n.left), pre = "";
        if (n.left.type === "MemberExpression") { pre = `${gen(n.left)};`; }
        return `for ${n.await ? "await " : ""}(${lhs.replace(/;$/, "")} of ${h}) ${gen(n.body)}`;
      }
      default:
        return copy(n);
    }
  }
  let inChain = false, inPattern = false;
  return { code: gen(ast), functions: fns };
}
