// C26: the AES-GCM helpers over an ideal authenticated cipher (natively: the platform's)
const fresh = (n) => sy.bytes(n);
function makeCrypto(log) {
  const raw = (x) => sy.bytesOf(x instanceof ArrayBuffer || ArrayBuffer.isView(x) ? x : x);
  const real = sy.symbolic ? null : globalThis.realSubtle;
  const err = (n) => { const e = new Error(n); e.name = n; return e; };
  const algName = (a) => String(typeof a === "string" ? a : a.name).toUpperCase();
  return {
    getRandomValues(v) {
      const r = fresh(v.length);
      v.set(r);
      log.random.push(sy.bytesOf(v));
      return v;
    },
    subtle: {
      async importKey(format, key, alg, extractable, usages) {
        const k = raw(key);
        log.imported.push({ format, key: k, alg: algName(alg), usages: [...usages] });
        if (real) return real.importKey(format, key, alg, extractable, usages);
        if (format !== "raw") throw err("NotSupportedError");
        if (k.length !== 16 && k.length !== 24 && k.length !== 32) throw err("DataError");
        if (algName(alg) !== "AES-GCM") throw err("NotSupportedError");
        return { key: k, usages: [...usages], type: "secret" };
      },
      async encrypt(alg, ck, data) {
        const iv = raw(alg.iv), pt = raw(data), tag = alg.tagLength === undefined ? 128 : alg.tagLength;
        const aad = alg.additionalData === undefined ? fresh(0) : raw(alg.additionalData);
        const ct = fresh(pt.length + 16); // consumed natively too, so that both sides read the same inputs
        log.encrypted.push({ iv, pt, tag, aad, ct, alg: algName(alg), key: ck.key });
        if (real) { const o = await real.encrypt(alg, ck, data); log.encrypted[log.encrypted.length - 1].ct = new Uint8Array(o).slice(); return o; }
        if (!ck.usages.includes("encrypt")) throw err("InvalidAccessError");
        if (![32, 64, 96, 104, 112, 120, 128].includes(tag)) throw err("OperationError");
        const out = ct.slice(0, pt.length + tag / 8);
        log.encrypted[log.encrypted.length - 1].ct = out;
        return out.slice().buffer;
      },
      async decrypt(alg, ck, data) {
        const iv = raw(alg.iv), ct = raw(data), tag = alg.tagLength === undefined ? 128 : alg.tagLength;
        const aad = alg.additionalData === undefined ? fresh(0) : raw(alg.additionalData);
        log.decrypted.push({ iv, ct, tag, alg: algName(alg) });
        if (real) return real.decrypt(alg, ck, data);
        if (!ck.usages.includes("decrypt")) throw err("InvalidAccessError");
        for (const e of log.encrypted) {
          if (e.tag !== tag || e.ct.length !== ct.length || e.iv.length !== iv.length || e.aad.length !== aad.length) continue;
          if (sy.all([sy.eq(e.key, ck.key), sy.eq(e.iv, iv), sy.eq(e.ct, ct), sy.eq(e.aad, aad)])) return e.pt.slice().buffer;
        }
        throw err("OperationError");
      },
    },
  };
}
const newLog = () => ({ random: [], imported: [], encrypted: [], decrypted: [] });
async function attempt(f) {
  try { return { ok: await f() }; } catch (e) { return { err: e }; }
}
exports.c26_roundtrip = async function c26_roundtrip() {
  const log = newLog();
  sy.global("crypto", makeCrypto(log));
  const { aesGcmEncrypt, aesGcmDecrypt } = use("crypto");
  const n = sy.case % 1024, off = Math.floor(sy.case / 1024);
  const key = off ? sy.view(32, off, 2) : sy.bytes(32), data = off ? sy.view(n, off, 3) : sy.bytes(n);
  const key0 = key.slice(), data0 = data.slice();
  const enc = await aesGcmEncrypt(key, data);
  sy.check(enc instanceof Uint8Array && enc.length === n + 28, "c26 length");
  // the nonce is 12 bytes drawn for this call
  const drawn = log.random;
  sy.check(drawn.length > 0, "c26 nonce not random");
  sy.check(sy.any(drawn.map((d) => d.length >= 12 && sy.eq(d.slice(0, 12), enc.slice(0, 12)))), "c26 nonce is the drawn one");
  const e = log.encrypted[log.encrypted.length - 1];
  sy.check(e.alg === "AES-GCM" && e.tag === 128 && e.aad.length === 0, "c26 algorithm");
  sy.check(sy.eq(e.iv, enc.slice(0, 12)), "c26 nonce used");
  sy.check(sy.eq(e.pt, data0), "c26 data encrypted");
  sy.check(sy.eq(enc.slice(12), e.ct), "c26 ciphertext and tag");
  sy.check(sy.eq(log.imported[0].key, key0), "c26 key used");
  sy.check(sy.eq(key, key0), "c26 key kept");
  sy.check(sy.eq(data, data0), "c26 data kept");
  const view = off ? (() => { const b = new Uint8Array(enc.length + 5); b.set(enc, off); return b.subarray(off, off + enc.length); })() : enc;
  const dec = await aesGcmDecrypt(key, view);
  sy.check(dec instanceof Uint8Array && sy.eq(dec, data0), "c26 round trip");
  // a second encryption draws a new nonce
  const used = drawn.length;
  const enc2 = await aesGcmEncrypt(key, data);
  sy.check(drawn.length > used && sy.any(drawn.slice(used).map((d) => d.length >= 12 && sy.eq(d.slice(0, 12), enc2.slice(0, 12)))), "c26 second nonce");
  sy.check(sy.eq(await aesGcmDecrypt(key, enc2), data0), "c26 second round trip");
  sy.reach("c26 round trip");
};
exports.c26_tamper = async function c26_tamper() {
  const log = newLog();
  sy.global("crypto", makeCrypto(log));
  const { aesGcmEncrypt, aesGcmDecrypt } = use("crypto");
  const n = sy.case % 64, mode = Math.floor(sy.case / 64);
  const key = sy.bytes(32), data = sy.bytes(n);
  const enc = await aesGcmEncrypt(key, data);
  const ev = enc.slice();
  const k2 = key.slice();
  if (mode === 0) {
    const d = sy.bytes(enc.length);
    sy.assume(sy.any(Array.from(d, (x) => x !== 0)));
    for (let i = 0; i < d.length; i++) ev[i] = enc[i] ^ d[i];
  } else if (mode === 1) {
    const d = sy.bytes(32);
    sy.assume(sy.any(Array.from(d, (x) => x !== 0)));
    for (let i = 0; i < 32; i++) k2[i] = key[i] ^ d[i];
  }
  let arg = ev;
  if (mode === 2) arg = ev.slice(0, sy.choice(enc.length));
  if (mode === 3) { arg = new Uint8Array(enc.length + 1); arg.set(ev); arg[enc.length] = sy.byte(); }
  const r = await attempt(() => aesGcmDecrypt(k2, arg));
  sy.check(r.err !== undefined, "c26 accepted");
  sy.check(r.err instanceof Error, "c26 error kind");
  sy.reach("c26 rejected");
};
exports.c26_lengths = async function c26_lengths() {
  const log = newLog();
  sy.global("crypto", makeCrypto(log));
  const { aesGcmEncrypt, aesGcmDecrypt } = use("crypto");
  const kl = sy.case % 128, n = Math.floor(sy.case / 128) % 64;
  const key = sy.bytes(kl), data = sy.bytes(n);
  const r = await attempt(() => aesGcmEncrypt(key, data));
  sy.check((r.err === undefined) === (kl === 32), "c26 key length on encrypt");
  const d = await attempt(() => aesGcmDecrypt(key, data));
  // nothing was encrypted to this
  if (!(kl === 32 && n >= 28)) sy.check(d.err instanceof Error, "c26 accepted bad lengths");
  else if (sy.symbolic) sy.check(d.err instanceof Error, "c26 accepted garbage");
  if (kl !== 32) { sy.check(log.encrypted.length === 0 && log.decrypted.length === 0, "c26 used a bad key"); sy.reach("c26 bad key"); }
  else sy.reach("c26 bad data");
};
