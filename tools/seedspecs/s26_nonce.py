id = "s26-nonce-reuse"
prop = "C26"
needs = "two encryptions in one process"
breaks = "the nonce is drawn once and kept, so every message of a session uses the same one"
F = "packages/zkenc-js/src/crypto.ts"
edits = [(F, '''  const nonce = crypto.getRandomValues(new Uint8Array(12));''', '''  sessionNonce ??= crypto.getRandomValues(new Uint8Array(12));
  const nonce = sessionNonce;'''), (F, '''/**
 * Encrypt data using AES-256-GCM
''', '''let sessionNonce: Uint8Array | undefined;

/**
 * Encrypt data using AES-256-GCM
''')]
globals().update(ts('''
const { aesGcmEncrypt } = await import("./src/crypto.js");
const k = new Uint8Array(32), m = new Uint8Array(4);
const a = await aesGcmEncrypt(k, m), b = await aesGcmEncrypt(k, m);
assert.notDeepEqual([...a.slice(0, 12)], [...b.slice(0, 12)]);
'''))
