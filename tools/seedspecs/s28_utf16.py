id = "s28-utf16-length"
prop = "C28"
needs = "embedded public inputs with characters outside ASCII"
breaks = "the length of the embedded JSON is written in UTF-16 units instead of bytes, so the message is cut from the wrong place"
F = "packages/zkenc-js/src/zkenc.ts"
edits = [(F, '''    publicInputBytes = encoder.encode(publicInputJson);
''', '''    publicInputBytes = encoder.encode(publicInputJson);
    publicInputLength = publicInputJson.length;
'''), (F, '''  let publicInputBytes = new Uint8Array(0);
''', '''  let publicInputBytes = new Uint8Array(0);
  let publicInputLength = 0;
'''), (F, '''    view.setUint32(offset, publicInputBytes.length, false);''', '''    view.setUint32(offset, publicInputLength, false);''')]
globals().update(ts(CORE + '''
const { encrypt, getPublicInput } = await import("./src/zkenc.js");
const { ciphertext } = await encrypt({ r1csBuffer: new Uint8Array(1), symContent: "" }, { note: "\\u00e9t\\u00e9" }, new Uint8Array(3));
assert.deepEqual(getPublicInput(ciphertext), { note: "\\u00e9t\\u00e9" });
'''))
