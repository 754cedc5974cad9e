id = "s29-below-minus-p"
prop = "C29"
needs = "an input below minus the prime"
breaks = "the value is brought into range by adding the prime once, so smaller values are passed on negative"
F = "packages/zkenc-js/src/witness_calculator.ts"
edits = [(F, '''  let res = BigInt(n) % prime;
  if (res < 0) res += prime;
  return res;''', '''  let res = BigInt(n);
  if (res < 0) res += prime;
  return res % prime;''')]
globals().update(ts(WASM + '''
const log = [];
circuit([["a", 1]], [1n], log);
const { calculateWitness } = await import("./src/witness.js");
const P = 21888242871839275222246405745257275088548364400416034343698204186575808495617n;
await calculateWitness(new Uint8Array(1), { a: -2n * P + 5n }).catch(() => {});
assert.deepEqual(log, [["a", 0, 5n]]);
'''))
