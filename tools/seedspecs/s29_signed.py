id = "s29-signed-words"
prop = "C29"
needs = "a witness value with a word of 2^31 or more"
breaks = "the signed words of the wasm module reach the result unconverted, so the integer is wrong"
F = "packages/zkenc-js/src/witness_calculator.ts"
edits = [(F, '''      exports.getWitness(i);
      const arr = new Uint32Array(this.n32);''', '''      exports.getWitness(i);
      const arr: number[] = new Array(this.n32);''')]
globals().update(ts(WASM + '''
circuit([], [1n, 0x80000001n], []);
const { calculateWitnessArray } = await import("./src/witness.js");
assert.deepEqual(await calculateWitnessArray(new Uint8Array(1), {}), [1n, 0x80000001n]);
'''))
