id = "s30-swallowed"
prop = "C30"
needs = "an initialization that fails while several calls wait for it"
breaks = "only the call that started the initialization sees its failure; the others go on to the core"
F = "packages/zkenc-js/src/zkenc.ts"
edits = [(F, '''    await wasmInitPromise;
  }''', '''    else {
      await wasmInitPromise.catch(() => {});
      return;
    }
    await wasmInitPromise;
  }''')]
globals().update(ts(CORE + '''
core.init = async () => { await new Promise((r) => setTimeout(r, 50)); throw new Error("no"); };
const { encap } = await import("./src/zkenc.js");
const f = { r1csBuffer: new Uint8Array(1), symContent: "" };
const r = await Promise.allSettled([encap(f, {}), encap(f, {})]);
assert(r.every((x) => x.status === "rejected"));
'''))
