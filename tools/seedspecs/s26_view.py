id = "s26-view"
prop = "C26"
needs = "data passed as a view into a larger buffer"
breaks = "the whole underlying buffer is encrypted instead of the bytes of the view"
F = "packages/zkenc-js/src/crypto.ts"
edits = [(F, '''    cryptoKey,
    data as BufferSource
  );''', '''    cryptoKey,
    data.buffer as BufferSource
  );''')]
globals().update(ts('''
const { aesGcmEncrypt, aesGcmDecrypt } = await import("./src/crypto.js");
const b = Uint8Array.from([9, 8, 1, 2, 3, 7]), k = new Uint8Array(32);
assert.deepEqual([...await aesGcmDecrypt(k, await aesGcmEncrypt(k, b.subarray(2, 5)))], [1, 2, 3]);
'''))
