id = "s27-precision"
prop = "C27"
needs = "a public input given as a string or bigint above 2^53"
breaks = "the value passes through a double and loses its low digits"
F = "packages/zkenc-js/src/zkenc.ts"
edits = [(F, '''      witnessArray.push(BigInt(valueStr));''', '''      const text = String(valueStr).trim();
      witnessArray.push(
        text.length <= 17 ? BigInt(Number(text)) : BigInt(text)
      );''')]
needs = "a public input of 17 digits above 2^53"
globals().update(ts(CORE + '''
const { encap } = await import("./src/zkenc.js");
await encap({ r1csBuffer: new Uint8Array(1), symContent: "1,1,0,main.a\\n" }, { a: "90071992547409931" });
assert.deepEqual(els(core.seen), [1n, 90071992547409931n]);
'''))
