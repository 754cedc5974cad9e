id = "s30-early-flag"
prop = "C30"
needs = "a second call that starts while the first call's initialization is running"
breaks = "the flag is set before initialization finished, so the second call reaches the core too early"
F = "packages/zkenc-js/src/zkenc.ts"
edits = [(F, '''        await wasmInit();
        wasmInitialized = true;''', '''        const done = wasmInit();
        wasmInitialized = true;
        await done;''')]
globals().update(ts(CORE + '''
let ready = false, bad = false;
core.init = async () => { await new Promise((r) => setTimeout(r, 50)); ready = true; };
const e = core.encap;
core.encap = (a, b) => { if (!ready) bad = true; return e(a, b); };
const { encap } = await import("./src/zkenc.js");
const f = { r1csBuffer: new Uint8Array(1), symContent: "" };
await Promise.all([encap(f, {}), encap(f, {})]);
assert(!bad);
'''))
