id = "s27-wire-order"
prop = "C27"
needs = "ten or more public inputs"
breaks = "wires are put in the order of their decimal texts, so values land on other wires"
F = "packages/zkenc-js/src/zkenc.ts"
edits = [(F, '''  const maxWireId = Math.max(...Array.from(wireValues.keys()));
''', '''  const wireIds = Array.from(wireValues.keys()).sort();
'''), (F, '''  for (let i = 1; i <= maxWireId; i++) {
    const value = wireValues.get(i);''', '''  for (let i = 1; i <= wireIds.length; i++) {
    const value = wireValues.has(i) ? wireValues.get(wireIds[i - 1]) : undefined;''')]
globals().update(ts(CORE + '''
const { encap } = await import("./src/zkenc.js");
let sym = ""; const x = [];
for (let i = 1; i <= 11; i++) { sym += `${i},${i},0,main.x[${i - 1}]\\n`; x.push(100 + i); }
await encap({ r1csBuffer: new Uint8Array(1), symContent: sym }, { x });
assert.deepEqual(els(core.seen), [1n, ...x.map(BigInt)]);
'''))
