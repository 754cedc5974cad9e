"""What each property's check runs, within which bounds."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
_T = {}
for _l in open(f"{V}/properties.jsonl"):
    _d = json.loads(_l)
    _T[_d["id"]] = _d["title"]

SPECS = {}
SYM = "symbolic execution of the compiled LLVM IR of the real code, assertions decided by Z3 (QF_UFBV)"


def jobs(quick, thorough=None):
    """{entry: iterable of cases}"""
    def f(tier):
        d = quick if tier == "quick" or thorough is None else thorough
        return [(e, c) for e, cs in d.items() for c in cs]
    return f


def rust(pid, area, quick, thorough, reach, bounds, outside, feature=None, technique=SYM, budget=None):
    p = dict(kind="rust", area=area, jobs=jobs(quick, thorough), reach=reach, feature=feature)
    if budget:
        p["budget"] = budget
    s = SPECS.setdefault(pid, dict(title=_T[pid], technique=technique, bounds={"quick": "", "thorough": ""}, outside="", parts=[]))
    s["parts"].append(p)
    for t, b in zip(("quick", "thorough"), bounds if isinstance(bounds, (list, tuple)) else (bounds, bounds)):
        s["bounds"][t] = (s["bounds"][t] + " " + b).strip()
    s["outside"] = (s["outside"] + " " + outside).strip()


AES_OUT = ("AES and GCM themselves are replaced by an uninterpreted block function / ideal authenticated cipher (the aes, aes-gcm, "
           "rand_chacha and getrandom crates are trusted); messages longer than the bound.")
Q = [0, 1, 15, 16, 17, 33]
TH = list(range(0, 70)) + [127, 128, 129, 255, 256, 257]
rust("C01", "cli", {"c01_gcm": Q}, {"c01_gcm": TH}, ["c01"],
     ["message lengths 0,1,15,16,17,33; all keys, messages, nonces", "message lengths 0..69,127..129,255..257; all keys, messages, nonces"], AES_OUT)
rust("C02", "cli",
     {"c02_tamper": [0, 1, 16, 17], "c02_wrong_key": [0, 17], "c02_truncated": [0, 5, 17], "c02_garbage": [0, 1, 11, 12, 15, 16, 27, 28, 29, 45],
      "c02_key_length": [0, 1, 15, 16, 23, 24, 31, 32, 47, 63]},
     {"c02_tamper": TH, "c02_wrong_key": TH, "c02_truncated": range(0, 40), "c02_garbage": range(0, 80), "c02_key_length": range(0, 80)},
     ["c02 tamper", "c02 wrong key", "c02 truncated", "c02 garbage", "c02 key length"],
     ["message lengths up to 17, data lengths up to 45, key lengths up to 64; all contents", "message lengths up to 257, data lengths up to 79, key lengths up to 80; all contents"], AES_OUT)
rust("C03", "cli", {"c03_ctr": Q, "c03_decrypt": [0, 1, 16, 17, 33, 49], "c03_errors": [0, 1, 15, 16, 17, 24, 31, 32, 33]},
     {"c03_ctr": TH, "c03_decrypt": TH, "c03_errors": range(0, 80)}, ["c03", "c03 any iv", "c03 errors"],
     ["message lengths up to 49; all keys, messages and IVs (including wrapping counters)", "message lengths up to 257; all keys, messages and IVs"], AES_OUT)

rust("C04", "cli",
     {"c04_sections": range(5), "c04_shapes": [0, 1, 8, 32], "c04_terms": [0, 1, 2], "c04_large": range(0, 24, 2), "c04_long": [40], "c04_buffer": range(8)},
     {"c04_sections": range(6), "c04_shapes": range(0, 49), "c04_terms": [0, 1, 2, 3, 257, 258], "c04_large": range(0, 64), "c04_long": [40, 200], "c04_buffer": range(24)},
     ["c04"], ["files of up to 5 sections in every order; field sizes 0,1,8,32; up to 3 wires; up to 2 constraints with 0..2 terms per combination; sections around the 8 KiB buffer; one 40-term file; constraint and label sections beyond 8 KiB with the buffer boundary inside a term, at 8 field sizes; all contents", "field sizes 0..48; up to 3 constraints; 5 terms; 64 buffer offsets; 200 terms; all contents"], "files with duplicate known sections (not described by the format); larger counts")
rust("C05", "cli",
     {"c05_any": list(range(0, 20)) + [30, 40, 44], "c05_body": [4, 16, 32, 36], "c05_fields": range(36), "c05_default_labels": [0, 1], "c05_truncated": range(4), "c05_missing": range(7)},
     {"c05_any": range(0, 49), "c05_body": range(0, 43), "c05_fields": range(36), "c05_default_labels": [0, 1], "c05_truncated": range(4), "c05_missing": range(7)},
     ["c05 accepted", "c05 rejected", "c05 truncated", "c05 missing"], ["any file of up to 20, and of 30, 40 or 44 bytes; any body of up to 36 bytes after the magic; 116..122-byte three-section files with each size, count and type field arbitrary (one or all counts at a time); every truncation and missing section", "any file of up to 44 bytes, any body of up to 40 bytes; the rest as quick"], "allocation limit checked: 1 MiB for these files; file-system errors other than a missing file")
rust("C06", "cli",
     {"c06_any": range(0, 5), "c06_id": range(0, 6), "c06_boundary": range(9), "c06_lines": [0, 1, 3, 2], "c06_many": [4], "c06_unicode": [1, 2, 3]},
     {"c06_any": range(0, 7), "c06_id": range(0, 13), "c06_boundary": range(9), "c06_lines": range(6), "c06_many": [4, 8], "c06_unicode": [1, 2, 3, 4]},
     ["c06 mapped", "c06 rejected"], ["any ASCII text of up to 4 bytes; any wire-id field of up to 5 characters and around the 32-bit and 64-bit boundaries; up to 3 lines with 2..5 fields, spacing, line endings and names of up to 2 arbitrary characters; names of up to 3 bytes of UTF-8", "any ASCII text of up to 6 bytes, id fields of up to 12 characters, UTF-8 names up to 4 bytes"], "longer files; hash-table iteration order is fixed (the map's content is compared, not its order)")
rust("C07", "cli", {"c07_any": [0, 1, 2, 16, 17, 18]}, {"c07_any": [0, 1, 2, 3, 16, 17, 18, 19]}, ["c07 some", "c07 none"], ["maps of up to 2 entries, names of every kind around the prefix with arbitrary ASCII bytes, arbitrary ids and bound", "maps of up to 3 entries"], "larger maps")
rust("C11", "cli", {"c11_export": [0, 1, 2]}, {"c11_export": [0, 1, 2, 3]}, ["c11"], ["up to 2 constraints with 0..2 terms per combination, all contents", "up to 3 constraints"], "larger circuits (the code maps element-wise)")
rust("C08", "cli",
     {"c08_values": [0, 16, 17, 18, 33], "c08_numbers": range(16), "c08_strings": range(22), "c08_keys": [0, 1, 2], "c08_long": [8, 20], "c08_rejects": range(23), "c08_any": [0, 1, 2, 3, 16, 17, 18, 19]},
     {"c08_values": [0, 16, 17, 18, 19, 33, 34, 49], "c08_numbers": range(16), "c08_strings": range(22), "c08_keys": [0, 1, 2], "c08_long": [8, 20, 40], "c08_rejects": range(23), "c08_any": [0, 1, 2, 3, 4, 16, 17, 18, 19, 20]},
     ["c08 value", "c08 keys", "c08 rejected", "c08 any ok", "c08 any rejected"],
     ["values of every kind nested up to 3 deep (1 member) or 2 wide (1 deep), strings up to 15 arbitrary printable ASCII characters plus escapes, integers of up to 4 arbitrary digits and around the ends of the 64-bit ranges, up to 2 keys with arbitrary white space, 20 leaves at depth up to 3; 23 invalid documents; any document of up to 3 bytes and any member value of up to 3 bytes", "nesting up to 3 wide at depth 1 and 2 wide at depth 2, any text of up to 4 bytes"],
     "serde_json's word-at-a-time string scan is replaced by its own byte-at-a-time scan; longer documents; integers beyond 64 bits and fractions (the property excludes them)")
rust("C09", "cli", {"c09_roundtrip": [0, 1, 2], "c09_any": [0, 3, 8, 12, 20, 28, 32, 256, 264, 284, 288], "c09_mutated": range(0, 24)},
     {"c09_roundtrip": [0, 1, 2, 3], "c09_any": list(range(0, 41)) + list(range(256, 297)), "c09_mutated": range(0, 40)},
     ["c09", "c09 any", "c09 mutated"],
     ["circuits of up to 2 constraints with 0..2 terms per combination, 0..8-byte coefficients, no labels or up to 2 labels of up to 3 ASCII characters, all values arbitrary; any input of up to 32 bytes (both copies of the module); one serialized circuit with any 8 bytes replaced, and every cut of it", "up to 3 constraints with 3 terms; any input of up to 40 bytes"],
     "larger circuits (element-wise code); hash-table iteration order is fixed, so the order in which labels are written is one of the possible ones")
rust("C10", "cli", {"c10_counts": [0, 3, 6, 7], "c10_bytes": [0, 5, 6], "c10_labels": [0, 1, 2], "c10_witness": [0, 1, 2, 3, 5], "c10_case": [0, 1, 17, 21, 32, 33, 53]},
     {"c10_counts": range(8), "c10_bytes": [0, 1, 2, 3, 4, 5, 6, 7, 9, 10], "c10_labels": [0, 1, 2, 3], "c10_witness": range(8), "c10_case": range(64)},
     ["c10 counts", "c10 bytes", "c10 labels", "c10 witness", "c10 case"],
     ["circuits with up to 2 constraints, each number in turn around every digit-count boundary, coefficients of up to 1 arbitrary byte, 1 label of 2 arbitrary ASCII characters, witnesses of up to 3 wires, test cases with names and descriptions of up to 1 arbitrary ASCII character; both copies of the module", "every number, 3 terms, 2 labels, names of up to 3 characters"],
     "larger values (element-wise code); hash-table iteration order is fixed; non-ASCII text")
APPO = ("the bindings are run with 64-bit pointers, not the 32-bit ones of wasm; the field BN254's Fr is exact 256-bit modular arithmetic, the witness "
        "encapsulation itself an ideal one that records what it is given (its own behaviour: C18 to C22); hash-table iteration order is fixed")
rust("C14", "app",
     {"c14_layout": range(5), "c14_shapes": [n * 64 + fs for fs in (1, 8, 32, 33) for n in (1, 3)], "c14_large": range(0, 40, 3), "c14_field": [1, 2], "c14_any": list(range(0, 13)) + [24, 25],
      "c14_body": [0, 12, 24, 28, 36], "c14_fields": range(27), "c14_truncated": range(4), "c14_missing": range(6)},
     {"c14_layout": range(5), "c14_shapes": [n * 64 + fs for fs in range(1, 49) for n in (1, 2, 3)], "c14_large": range(0, 64), "c14_field": [1, 2, 3], "c14_any": range(0, 41),
      "c14_body": range(0, 41), "c14_fields": range(27), "c14_truncated": range(4), "c14_missing": range(6)},
     ["c14", "c14 field", "c14 not canonical", "c14 accepted", "c14 rejected", "c14 truncated", "c14 missing"],
     ["files of up to 4 sections in every order, value sizes 1,4,8,32,33, up to 6 values, values across the 8 KiB read buffer, all contents; up to 2 field elements of 32 arbitrary bytes; any file of up to 12, 24 or 25 bytes, any body of up to 36 bytes after the magic, three-section files with each number (or all counts) arbitrary; every truncation", "value sizes 1..48, any file of up to 40 bytes"],
     "larger files; allocation limit checked: 1 MiB for these files; files with empty values or repeated sections (not described by the format)")
rust("C17", "app",
     {"c17_synth": [s + 8 * 1 + 32 * 1 + 512 * j for s in range(7) for j in (0, 1)] + [s + 512 * j for s in range(7) for j in (0, 1)] + [1 + 16 + 32, 1 + 16 + 32 + 512, 3 + 8 + 32 * 2, 3 + 8 + 32 * 2 + 512] + [3 + 8 + 32 + 128 * f + 512 * j for f in (1, 2, 3) for j in (0, 1)], "c17_many": [40, 1040]},
     {"c17_synth": [s + 8 * n + 32 * t + 128 * f + 512 * j for s in range(7) for n in (0, 1) for t in (1, 2) for f in range(4) for j in (0, 1)] + [s + 16 + 32 + 512 * j for s in (0, 1, 2, 3) for j in (0, 1)], "c17_many": [40, 1040, 200, 1200]},
     ["c17 cli", "c17 missing", "c17 js"],
     ["7 shapes of up to 6 wires; one constraint with up to 1 term (4 wires: one combination with 2 terms) per combination on arbitrary wires, repeated wires included; 2 constraints over 2 wires; coefficients of 1, 8, 31 and 32 arbitrary bytes, arbitrary 256-bit wire values, every single missing wire; one circuit of 45 wires and 40 constraints", "combinations of 2 terms over up to 6 wires, 2 constraints over up to 4 wires; circuits of 205 wires"],
     "larger circuits (element-wise code); coefficients of more than 32 bytes; " + APPO)
rust("C23", "app",
     {"c23_use": [3 + 8 * o for o in range(6)] + [s + 8 * 1 for s in (0, 1, 2, 4, 5, 6)] + [3 + 8 * 2 + 64, 5 + 8 * 3 + 128], "c23_refused": range(8)},
     {"c23_use": [s + 8 * o + 64 * n for s in range(7) for o in range(6) for n in range(3)], "c23_refused": range(8)},
     ["c23", "c23 refused"],
     ["7 shapes of up to 6 wires, one constraint with up to 1 term per combination, circuit and witness files with up to 4 sections in 6 orders, values of 32, 8 and 31 arbitrary bytes; witnesses of every wrong length up to 6", "all combinations"],
     "larger files; values of more than 32 bytes; " + APPO)
rust("C24", "app",
     {"c24_any": [0, 1, 3, 4, 5, 8, 11, 12, 16, 20, 24, 28] + [64 + n for n in (0, 4, 12, 16, 28, 32, 36)] + [128 + n for n in (0, 1, 3, 4, 5, 7, 8, 11, 12, 16, 20, 24, 28)] + [192 + n for n in (0, 3, 4, 12, 16, 20, 28, 32)],
      "c24_circuit": range(36), "c24_witness": [c for c in range(27) if c // 3 != 6], "c24_truncated": range(6), "c24_ciphertext": [0, 1, 3, 4, 8]},
     {"c24_any": [n + 64 * k for n in range(0, 41) for k in range(4)], "c24_circuit": range(36), "c24_witness": [c for c in range(27) if c // 3 != 6], "c24_truncated": range(6), "c24_ciphertext": range(0, 17)},
     ["c24 encapsulated", "c24 rejected", "c24 decapsulated", "c24 opened", "c24 refused"],
     ["any circuit or witness bytes of up to 28 bytes, any body of up to 36 bytes after the magic and version; three-section files with each size, count and kind field arbitrary (or all counts at once); every truncation; any ciphertext of up to 8 bytes; no panic, at most 1 MiB allocated and 6 million steps", "any bytes of up to 40 bytes"],
     "larger files; " + APPO)
rust("C12", "app",
     {"c12_encrypt": [n + 64 * k + 1024 * w for n, k, w in ((0, 0, 0), (1, 1, 3), (5, 2, 1), (16, 3, 8), (17, 4, 2), (33, 5, 5), (3, 6, 300), (2, 7, 70))],
      "c12_decrypt": [n + 64 * e + 1024 * w for n, e, w in ((0, 0, 0), (1, 0, 3), (17, 0, 300), (0, 1, 1), (5, 2, 3), (16, 3, 2), (33, 4, 5), (2, 5, 70))]},
     {"c12_encrypt": [n + 64 * k + 1024 * w for n in (0, 1, 15, 16, 17, 33, 60) for k in range(8) for w in (0, 1, 5, 300)],
      "c12_decrypt": [n + 64 * e + 1024 * w for n in (0, 1, 15, 16, 17, 33, 60) for e in range(6) for w in (0, 1, 5, 300)]},
     ["c12 encrypted", "c12 decrypted"],
     ["messages of up to 33 bytes, witness ciphertexts of up to 300 bytes, input JSON of 8 kinds (empty, nested, non-ASCII, long) with arbitrary digits, embedded or not; embedded texts of up to 3 arbitrary bytes; all contents", "messages of up to 60 bytes, all combinations"],
     "longer messages and texts; AES-256-GCM is an uninterpreted block function / ideal cipher; " + APPO)
rust("C13", "app",
     {"c13_any": [0, 1, 4, 5, 6, 9, 10, 12], "c13_header": [1 + 4 * e + 16 * n + 64 * k for e, n, k in ((2, 1, 1), (2, 1, 2), (2, 1, 4), (2, 0, 7), (0, 2, 3), (1, 1, 8), (0, 0, 8), (2, 2, 6), (3, 1, 6), (2, 0, 8), (2, 1, 7))]},
     {"c13_any": range(0, 15), "c13_header": [w + 4 * e + 16 * n + 64 * k for w in range(3) for e in range(4) for n in (0, 2) for k in range(16)]},
     ["c13 accepted", "c13 rejected"],
     ["every file of up to 6, and of 9, 10 or 12 bytes; files with up to 3-byte parts and messages whose flag, either or both lengths are anything, cut anywhere or with one byte changed", "every file of up to 14 bytes, all combinations"],
     "longer files; AES-256-GCM is an ideal cipher; " + APPO)
rust("C15", "app",
     {"c15_bind": [l + 8 * c + 32 * m for l, c, m in ((0, 0, 0), (1, 0, 1), (1, 1, 2), (1, 2, 3), (2, 0, 2), (2, 1, 0), (3, 2, 0), (3, 0, 3), (4, 1, 0), (4, 0, 1), (5, 0, 0), (6, 2, 1), (7, 0, 0), (7, 1, 3))], "c15_partial": range(9), "c15_gap": [0, 1, 5, 8]},
     {"c15_bind": [l + 8 * c + 32 * m for l in range(8) for c in range(3) for m in range(4)], "c15_partial": range(9), "c15_gap": range(9)},
     ["c15", "c15 partial"],
     ["8 circuits of up to 8 wires with 0..2 outputs and 0..4 inputs as scalars, arrays and matrices, every placement of up to 3 signals on the public wires (rotations and reflections beyond), symbol lines and JSON members in every order of up to 3, further symbols and names that are not public; values of one arbitrary digit as numbers or strings; every subset of values given for 3 circuits; all three encapsulating commands", "all combinations"],
     "larger circuits; " + APPO)
rust("C16", "app",
     {"c16_number": [1, 2, 5, 10, 18, 33, 34, 41, 50, 1 + 64, 4 + 128, 33 + 128, 36 + 64], "c16_edges": range(8), "c16_string": [d + 128 * k for d in (1, 3, 9, 18) for k in range(3)] + [2 + 128 * 3, 76 + 128 * 3, 3 + 512, 3 + 128 + 1024], "c16_any_string": [0, 1, 2, 3, 4, 17, 18], "c16_nested": range(10),
      "c16_refused": [k + 32 * (k % 4) + 128 * (k % 3) for k in range(24)]},
     {"c16_number": [d + 32 * n + 64 * c for d in range(1, 19) for n in (0, 1) for c in range(3)], "c16_edges": [k + 8 * c for k in range(8) for c in range(3)],
      "c16_string": [d + 128 * k + 512 * c for d in range(1, 20) for k in range(3) for c in range(3)] + [d + 128 * 3 + 512 * c for d in (2, 18, 40, 76) for c in range(3)], "c16_any_string": [n + 16 * c for n in range(6) for c in range(2)],
      "c16_nested": [k + 16 * c for k in range(10) for c in range(3)], "c16_refused": [k + 32 * p + 128 * c for k in range(24) for p in range(4) for c in range(3)]},
     ["c16 number", "c16 large", "c16 too large", "c16 string", "c16 any accepted", "c16 any refused", "c16 nested", "c16 refused"],
     ["integers of up to 18 arbitrary digits of either sign and the ends of the 64-bit ranges; decimal strings of up to 18 arbitrary digits, with signs, leading zeros or a 76-digit prefix; every string of up to 4 characters; 10 shapes nested up to 3 deep; 24 kinds of values that are not integers in 4 places", "strings of up to 19 arbitrary digits, every string of up to 5 characters, all commands"],
     "longer numbers; strings with other whitespace or separators (left open by the property); " + APPO)
rust("C32", "app",
     {"c32_fails": [c * 64 + 2 * d + (c + d) % 2 for c in range(4) for d in range(27)], "c32_outputs": [0, 1]},
     {"c32_fails": [c * 64 + k for c in range(4) for k in range(54)], "c32_outputs": [0, 1]},
     ["c32 failed", "c32 succeeded", "c32 written"],
     ["every one of 26 defects (a missing, empty, truncated or malformed file of each kind, values out of place, a witness or ciphertext the core refuses, failed authentication) in each of encap, decap, encrypt and decrypt, with and without output files left by an earlier run", "every defect with and without earlier output"],
     "output files that cannot be written; " + APPO)
rust("C33", "app",
     {"c33_fresh": [0, 1 + 8 * 1 + 64 * 1, 2 + 8 * 2 + 64 * 2, 3 + 8 * 3 + 64 * 3, 0 + 8 * 1 + 64 * 3, 3 + 8 * 0 + 64 * 2, 1 + 8 * 3 + 64 * 0]},
     {"c33_fresh": [a + 8 * b + 64 * c for a in range(4) for b in range(4) for c in range(4)]},
     ["c33"],
     ["7 sequences of 3 encapsulations by CLI encap, CLI encrypt (embedding or not) and the JS binding", "every sequence of 3"],
     "longer sequences; the operating system's randomness itself (each draw is a new unknown), and the generators seeded from it (trusted to be fresh when seeded with a new draw); " + APPO)
CO = ("the generic algorithms are run with a toy pairing whose scalar field is the integers modulo 17 (arkworks and its curves are not installed here), an "
      "exact model of the constraint system and of radix-2 evaluation domains, and BLAKE3 as an ideal hash; the drawn scalars are taken non-zero and, in C20, distinct; larger circuits")
def sh(p, q, n, l, m=0):
    return p + 4 * q + 16 * n + 128 * l + 512 * m
rust("C18", "core",
     {"c18_agree": [sh(1, 1, 1, 0, 1), sh(0, 1, 1, 0, 1), sh(2, 1, 2, 1, 1), sh(1, 2, 1, 0, 1), sh(1, 2, 2, 1, 2), sh(1, 2, 1, 1, 3), sh(3, 3, 2, 2, 4), sh(2, 2, 3, 2, 3), sh(2, 0, 0, 0, 0), sh(0, 0, 0, 0, 0), sh(1, 1, 0, 0, 1)],
      "c18_synthesized": [sh(1, 0, 1, 2, 0), sh(1, 1, 1, 2, 1), sh(1, 1, 1, 2, 0)]},
     {"c18_agree": [sh(p, q, n, l, m) for p in range(4) for q in range(1, 4) for n in range(4) for l in ((0, 1, 2) if n < 2 else (1, 2)) for m in range(1, 1 << q)],
      "c18_synthesized": [sh(p, 0, 1, 2, 0) for p in range(3)] + [sh(p, 1, 1, 2, h) for p in range(3) for h in (0, 1)]},
     ["c18"],
     ["11 circuit sizes of up to 3 public and 3 private values and 3 constraints over all, 2 or 1 wires per combination, every coefficient and value, every nonempty set of missing private values", "all sizes up to 3 public, 3 private, 3 constraints"], CO)
rust("C19", "core",
     {"c19_decides": [sh(p, q, n, l, m) + 4096 * (c + 8 * k) for p, q, n, l, m, c, k in ((1, 1, 1, 0, 0, 1, 3), (2, 1, 1, 1, 0, 2, 4), (1, 1, 2, 1, 0, 1, 2), (2, 1, 2, 2, 0, 1, 4), (2, 2, 3, 2, 0, 2, 5), (1, 2, 1, 1, 1, 1, 4), (1, 2, 1, 1, 2, 1, 4),
        (1, 1, 0, 0, 0, 1, 3), (3, 0, 0, 0, 0, 3, 4), (1, 1, 0, 0, 0, 0, 3), (1, 0, 1, 0, 0, 3, 2), (0, 1, 1, 0, 0, 4, 1), (1, 1, 1, 0, 0, 1, 0), (2, 0, 1, 1, 0, 2, 7))]},
     {"c19_decides": [sh(p, q, n, l, m) + 4096 * (c + 8 * k) for p in range(4) for q in range(3) for n in range(4) for l in (1, 2) for m in ((0, 1) if q else (0,)) for c in (0, p, p + q + 1) for k in (0, 2, 1 + p + q)]},
     ["c19 accepted", "c19 refused", "c19 incomplete"],
     ["circuits of up to 3 public and 2 private values and 3 constraints, every coefficient, value and ciphertext element, ciphertexts with 0..4 public values and queries of 0..7 elements", "all sizes up to 3 public, 2 private, 3 constraints"], CO)
rust("C20", "core",
     {"c20_qap": [sh(1, 1, 1, 0), sh(0, 0, 1, 0), sh(2, 0, 1, 0), sh(0, 2, 2, 0), sh(1, 1, 2, 0, 1), sh(1, 1, 3, 1), sh(2, 2, 4, 2), sh(3, 3, 5, 2), sh(3, 1, 0, 0), sh(1, 2, 3, 2, 1)]},
     {"c20_qap": [sh(p, q, n, l, f) for p in range(4) for q in range(4) for n in range(6) for l in (0, 1, 2) for f in (0, 1) if n < 4 or l == 2]},
     ["c20"],
     ["10 circuit sizes of up to 3 public and 3 private values and 5 constraints (domains of 1 to 16 points), every coefficient, value and drawn scalar, also after another encapsulation", "all sizes up to 3 public, 3 private, 5 constraints"], CO)
rust("C21", "core",
     {"c21_public": [sh(1, 1, 1, 0, 1)], "c21_random": [sh(1, 1, 1, 0, 1), sh(0, 1, 1, 0, 1), sh(2, 2, 1, 1, 2), sh(1, 0, 0, 0)]},
     {"c21_public": [sh(p, q, n, 1, 1) for p in range(3) for q in (1, 2) for n in (0, 1, 2)], "c21_random": [sh(p, q, n, 1, 1) for p in range(4) for q in (1, 2, 3) for n in range(3)]},
     ["c21 random"],
     ["circuits of up to 2 public and 2 private values, every coefficient, value and drawn scalar", "circuits of up to 3 public and 3 private values"],
     "what the group elements reveal beyond equality of exponents; " + CO)
rust("C22", "core",
     {"c22_verify": [n + 8 * m + 64 * u for n, m, u in ((0, 0, 0), (1, 1, 2), (2, 2, 3), (3, 3, 1), (4, 4, 0), (6, 6, 2), (1, 0, 1), (0, 1, 1), (2, 1, 1), (3, 4, 2), (5, 2, 0))]},
     {"c22_verify": [n + 8 * m + 64 * u for n in range(8) for m in range(8) for u in (0, 2)]},
     ["c22 accepted", "c22 refused"],
     ["lists of up to 6 values in the ciphertext against lists of up to 6, every value", "lists of up to 7"], CO)
rust("C34", "core",
     {"c34_encap": [sh(1, 1, 1, 0), sh(0, 0, 1, 0), sh(2, 0, 2, 1), sh(2, 2, 2, 2), sh(3, 1, 1, 1), sh(1, 1, 1, 0, 1), sh(2, 1, 2, 1, 1), sh(0, 0, 0, 0)],
      "c34_decap": [sh(p, q, n, l) + 4096 * (u + 8 * v + 64 * f + 512 * c) for p, q, n, l, u, v, f, c in ((1, 1, 1, 0, 3, 3, 3, 1), (2, 1, 1, 1, 4, 4, 4, 2), (1, 2, 2, 2, 2, 2, 2, 1), (1, 1, 1, 1, 5, 4, 3, 0), (1, 1, 0, 0, 1, 2, 3, 1), (1, 1, 0, 0, 3, 1, 2, 1), (2, 2, 1, 1, 5, 5, 5, 2),
        (1, 1, 0, 0, 0, 3, 3, 1), (1, 1, 0, 0, 3, 0, 3, 1), (1, 1, 0, 0, 3, 3, 0, 1))]},
     {"c34_encap": [sh(p, q, n, l, m) for p in range(4) for q in range(3) for n in range(4) for l in (0, 1, 2) for m in ((0, 1) if q else (0,))],
      "c34_decap": [sh(p, q, n, 2) + 4096 * (u + 8 * v + 64 * f + 512 * p) for p in range(3) for q in range(3) for n in range(3) for u in (0, 1, 1 + p + q, 7) for v in (0, 1, 1 + p + q, 7) for f in (0, 1, 1 + p + q, 7)]},
     ["c34 encap", "c34 decap", "c34 empty"],
     ["circuits of up to 3 public and 2 private values and 2 constraints, fully assigned or not; ciphertexts with queries of 0..5 elements; every coefficient, value, drawn scalar and ciphertext element", "up to 3 constraints, queries of up to 7 elements"], CO)
JSENG = "concolic symbolic execution of the package's TypeScript source: every branch and assertion decided by Z3 (bit vectors)"


def js(pid, area, quick, thorough, reach, bounds, outside):
    p = dict(kind="js", area=area, jobs=jobs(quick, thorough), reach=reach)
    s = SPECS.setdefault(pid, dict(title=_T[pid], technique=JSENG, bounds={"quick": "", "thorough": ""}, outside="", parts=[]))
    s["parts"].append(p)
    for t, b in zip(("quick", "thorough"), bounds if isinstance(bounds, (list, tuple)) else (bounds, bounds)):
        s["bounds"][t] = (s["bounds"][t] + " " + b).strip()
    s["outside"] = (s["outside"] + " " + outside).strip()


JSO = "files and inputs beyond the bounds; JavaScript numbers that are not integers; the standard library the code calls is modelled (and every model compared with Node on solver-made inputs)"
js("C25", "js_sym",
   {"c25_any": [0, 1, 2, 3, 4, 5, 16, 20, 22], "c25_line": [1, 2, 10, 16 + 3, 32 + 1, 48 + 1], "c25_lines": [1, 2, 3], "c25_many": [12, 40], "c25_inputs": [0, 1, 2],
    "c25_map": list(range(14)) + [19, 21, 24, 35, 40], "c25_names": [0, 1, 3, 4, 8 + 0, 8 + 1, 8 + 3, 16 + 4, 16 + 6, 16 + 7], "c25_keys": [21, 22, 25, 42, 85, 149]},
   {"c25_any": list(range(8)) + [16 + i for i in range(9)], "c25_line": [nd + 16 * nn for nd in range(1, 12) for nn in range(4)], "c25_lines": [1, 2, 3, 4], "c25_many": [12, 40, 200], "c25_inputs": [0, 1, 2, 3],
    "c25_map": [s + 16 * k for s in range(14) for k in range(3)], "c25_names": [n + 8 * i for n in range(8) for i in range(3)], "c25_keys": [a + 4 * b + 16 * c + 64 * d for a in (1, 2, 3) for b in (1, 2, 3) for c in (1, 2, 3) for d in range(3)]},
   ["c25 mapped", "c25 nothing mapped", "c25 line", "c25 lines", "c25 many", "c25 some inputs", "c25 no inputs", "c25 map", "c25 name", "c25 no name", "c25 keys"],
   ["any text of up to 6 characters over the format's alphabet; single lines with ids of up to 10 arbitrary digits and names of up to 3 arbitrary characters; up to 3 lines of every kind; 40 lines; maps of up to 2 signals with 8 kinds of names; 14 input shapes nested up to 4 deep with arbitrary integers or digit strings as leaves, every wire present or missing; near-miss names of up to 7 arbitrary characters; property names of up to 2 arbitrary characters against wire names of up to 3", "texts of up to 8 characters, ids of 11 digits, 4 lines, 200 lines, maps of 3 signals"], JSO)
js("C26", "js_crypto",
   {"c26_roundtrip": [0, 1, 16, 17, 33, 1024 * 3 + 5], "c26_tamper": [0, 1, 17, 64, 64 + 16, 128, 128 + 5, 192, 192 + 3], "c26_lengths": [0, 16, 24, 31, 32, 33, 64, 32 + 128, 32 + 128 * 11, 32 + 128 * 12, 32 + 128 * 16, 32 + 128 * 27, 32 + 128 * 28, 32 + 128 * 29, 31 + 128 * 40]},
   {"c26_roundtrip": list(range(0, 70)) + [255, 256, 1023] + [1024 * o + n for o in (1, 3, 8) for n in (0, 1, 16, 31)], "c26_tamper": [n + 64 * m for n in range(0, 40) for m in range(4)], "c26_lengths": [k + 128 * d for k in range(0, 66) for d in (0, 27, 28, 29)] + [32 + 128 * d for d in range(64)]},
   ["c26 round trip", "c26 rejected", "c26 bad key", "c26 bad data"],
   ["messages of up to 33 bytes (also as views into larger buffers), every change of a byte string of up to 45 bytes, every other key, every cut, key lengths up to 64; all contents", "messages of up to 69, 255, 256 and 1023 bytes, key lengths up to 65, data lengths up to 63"],
   "Web Crypto's AES-GCM is an ideal authenticated cipher in the symbolic runs (the platform's own in the replays)")
js("C27", "js_zkenc",
   {"c27_encap": [16 * k for k in range(8)] + [s + 16 * 3 for s in range(1, 9)] + [s + 128 for s in range(9)] + [s + 256 + 16 * 4 for s in (0, 1, 3, 6)] + [1 + 16, 3 + 32], "c27_wires": [0, 1, 3, 4], "c27_many": [20, 300]},
   {"c27_encap": [s + 16 * k + 128 * x for s in range(9) for k in range(8) for x in range(3)], "c27_wires": range(6), "c27_many": [20, 300, 1000]},
   ["c27", "c27 wires", "c27 many"],
   ["9 input shapes (scalars, nested arrays and objects, no inputs) with up to 4 public wires, in every order of up to 4 wires, 300 wires; values: every JavaScript integer, every residue at 12 multiples of the prime as bigint and as decimal string, digit strings of up to 9 arbitrary digits, hexadecimal strings; further wires that are not public inputs", "all combinations; 1000 wires"], JSO)
RT = [n + 64 * s + 1024 * m + 4096 * w for n, s, m, w in ((0, 0, 0, 3), (1, 1, 1, 0), (17, 2, 2, 5), (5, 3, 3, 1), (2, 4, 0, 2), (2, 6, 1, 3), (3, 7, 0, 4), (4, 5, 2, 300), (0, 2, 0, 70))]
js("C28", "js_zkenc",
   {"c28_roundtrip": RT, "c28_mutated": list(range(6)) + list(range(8, 14)) + [16, 17, 19, 24, 28], "c28_any": [0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 32 * 3 + 9]},
   {"c28_roundtrip": [n + 64 * s + 1024 * m + 4096 * w for n in (0, 1, 33) for s in range(8) for m in range(3) for w in (0, 1, 300)], "c28_mutated": [m for m in range(64) if m % 8 < 6], "c28_any": list(range(0, 13)) + [32 * 3 + n for n in range(12)]},
   ["c28 embedded", "c28 bare", "c28 malformed", "c28 still opens", "c28 inputs read", "c28 garbage", "c28 parsed"],
   ["messages of up to 17 bytes, witness ciphertexts of up to 300 bytes, 8 shapes of public inputs with arbitrary integers and strings of up to 2 arbitrary characters, embedded or not; one ciphertext of 50 bytes with its flag, either or both lengths replaced by anything, and every cut of it, with a core that opens only the right witness ciphertext or any; every byte string of up to 11 bytes, also as a view into a larger buffer", "all combinations; strings of 3 characters; every byte string of up to 12 bytes"],
   JSO + "; Web Crypto is an ideal cipher and the wasm core a stand-in that opens what it made")
js("C29", "js_witness",
   {"c29_inputs": list(range(7)) + [8, 16, 24, 9, 13, 64 + 8, 128 + 16, 192 + 0, 192 + 8, 192 + 24, 256 + 16], "c29_prime": [1 + 32 * 32, 1 + 16 + 32 * 12], "c29_names": [0, 1, 2, 17, 18, 33, 49, 50],
    "c29_sizes": [z + 8 * n + 64 * e for z in (0, 1, 2) for n in (0, 1, 2, 3) for e in (0, 1)] + [z + 8 * z + 64 * e for z in (0, 1, 2) for e in (2, 3, 4, 5)],
    "c29_missing": [0], "c29_fails": range(8), "c29_compile": [0], "c29_outputs": [1, 8, 1 + 32, 8 + 16, 8 + 32, 3 + 16, 2 + 48]},
   {"c29_inputs": [s + 8 * k + 64 * p for s in range(7) for k in range(4) for p in range(5)], "c29_prime": [1 + 32 * 32, 2 + 32 * 40, 1 + 16 + 32 * 12, 1 + 16 + 32 * 14], "c29_names": [0, 1, 2, 3, 17, 18, 19, 33, 34, 49, 50, 51],
    "c29_sizes": [z + 8 * n + 64 * e for z in range(4) for n in range(5) for e in range(6)],
    "c29_missing": [0], "c29_fails": range(8), "c29_compile": [0], "c29_outputs": [a + 16 * n for a in range(1, 9) for n in range(5)]},
   ["c29 inputs", "c29 prime", "c29 names", "c29 rejects", "c29 missing", "c29 fails", "c29 broken module", "c29 outputs"],
   ["7 shapes of inputs with up to 5 values; values: every JavaScript integer, every residue at 7 multiples of the prime as bigint and decimal string, 4-digit strings, under 5 primes of 2 to 256 bits; every prime of up to 32 bits and every value within two multiples; names of up to 2 arbitrary characters; sizes 0..3 against 0..3 values; circuits failing at each value; every witness of up to 3 elements of 1, 2, 3 or 8 words and every prime of those widths", "all shapes, kinds and primes; primes of 40 bits; names of 3 characters; 4 elements of every width"],
   JSO + "; the circuit's wasm module is a stand-in that records calls and follows the wasm calling convention for 32-bit words")
js("C30", "js_zkenc",
   {"c30_schedule": [1 + 16 + 64 * 4, 2 + 16 + 64 * 6, 2 + 4 + 64 * 6, 2 + 64 * 6, 2 + 48 + 8 + 64 * 6, 3 + 64 * 6, 3 + 4 + 16 + 64 * 6, 2 + 32 + 64 * 7]},
   {"c30_schedule": [n + 4 * h + 16 * w + 64 * f for n in (2, 3) for h in (0, 1, 2) for w in range(4) for f in (6, 8)]},
   ["c30 finished", "c30 failed"],
   ["up to 3 overlapping calls of encap, decap, encrypt and decrypt, up to 7 scheduling steps (start a call, finish or fail an initialization, finish a module compilation, each with or without letting pending work run), initialization that returns, throws or settles later", "up to 8 steps, all combinations"],
   "more calls; interleavings inside the platform's own promise machinery")

NOT_APPLICABLE = {
    "C31": "the serialization is derived by arkworks macros over arkworks types; arkworks is not installed here, so there is no code to encode",
}
