id = "s28-signed-length"
prop = "C28"
needs = "a ciphertext whose announced public-input length has its highest bit set"
breaks = "the length is read as a signed number, so a malformed ciphertext is decrypted from its end"
F = "packages/zkenc-js/src/zkenc.ts"
edits = [(F, '''    const publicInputLength = view.getUint32(offset, false);
    offset += 4;
    // Skip''', '''    const publicInputLength = view.getInt32(offset, false);
    offset += 4;
    // Skip''')]
globals().update(ts(CORE + WASM + '''
circuit([], [1n], []);
const { encrypt, decrypt } = await import("./src/zkenc.js");
const { ciphertext: c } = await encrypt({ r1csBuffer: new Uint8Array(1), symContent: "" }, {}, Uint8Array.of(5));
// header 5, witness ciphertext 3, length 4, "{}", 29 bytes of message
new DataView(c.buffer).setInt32(8, -12 - 29, false);
await assert.rejects(decrypt({ r1csBuffer: new Uint8Array(1), wasmBuffer: new Uint8Array(1) }, c, {}));
'''))
