#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
CLI='packages/zkenc-cli/src/'; CORE='packages/zkenc-core/src/'; JS='packages/zkenc-js/src/'
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","CLI AES-256-GCM encryption round-trips in the documented format",
  "Encrypting any message under any 32-byte key yields exactly a 12-byte nonce drawn fresh from the operating system's randomness, followed by the AES-256-GCM ciphertext of that message under that key and nonce (no associated data) and its 16-byte tag, 28 bytes longer than the message. Decrypting that output with the same key returns exactly the message, also for the empty message.",
  ["inputs"],"every 32-byte key, every message (any length, any bytes), every value of the random nonce",
  "The tests encrypt two fixed messages under one key; they say nothing about other lengths, other keys or other nonces, nor about the byte layout other tools rely on.",
  [CLI+"crypto.rs"],[("encrypt_gcm / decrypt_gcm",CLI+"crypto.rs")],["return value of the GCM encrypt and decrypt functions"])
p("C02","CLI AES-256-GCM decryption rejects everything not made with that key",
  "Decryption returns an error, and never a plaintext and never a crash, when any byte of nonce, ciphertext or tag was changed, when the key differs from the one used to encrypt, when the data is truncated (also below 28 bytes), and when the key is not 32 bytes long. Encryption also rejects keys that are not 32 bytes long with an error.",
  ["inputs"],"every key of any length, every data of any length and content",
  "One test flips the key of one message; modifications of each byte position, truncations and every other key length are not sampled.",
  [CLI+"crypto.rs"],[("length checks and tag verification",CLI+"crypto.rs")],["Result of the GCM decrypt function"])
p("C03","CLI AES-256-CTR encryption is standard CTR with a fresh random IV",
  "Encrypting any message under a 32-byte key yields a 16-byte IV drawn fresh from the random generator followed by the message XORed with AES-256 of successive counter blocks (IV first, its last 8 bytes counting up big-endian, modulo 2^64), and decrypting returns the message. A key that is not 32 bytes long, or data shorter than the IV, is an error, never a crash.",
  ["inputs"],"every key, every message, every IV (including IVs whose counter wraps)",
  "One fixed round trip cannot tell a wrong counter width, a reused block or an IV misuse from the real mode.",
  [CLI+"crypto.rs"],[("encrypt_ctr / decrypt_ctr",CLI+"crypto.rs")],["return value of the CTR functions"])
p("C04","Every well-formed R1CS file is read back exactly",
  "Reading any well-formed R1CS file yields exactly the encoded field size, prime, wire, output, public-input, private-input, label and constraint counts, every constraint's three linear combinations (wire ids and coefficients, in order) and the wire-to-label table, whatever the order of its sections, with unknown sections skipped, and with the identity table when the label section is absent. The number of public inputs reported is outputs plus public inputs.",
  ["inputs"],"every well-formed R1CS file: any section order and extra sections, any counts, ids and coefficients",
  "The tests read one fixed circuit and assert that a few numbers are positive; nothing compares the parsed constraints with the bytes, and no other section order is tried.",
  [CLI+"r1cs.rs"],[("two-pass section scan","R1csFile::from_file"),("constraint reader",CLI+"r1cs.rs")],["fields of the parsed circuit"])
p("C05","Malformed R1CS files are rejected without crash, hang or huge allocation",
  "Reading a file that is not a complete R1CS file (wrong magic or version, missing header or constraint section, section shorter than its announced counts, truncated anywhere) is an error. For any file content whatsoever reading ends, does not panic or abort, and never allocates memory out of proportion to the file size.",
  ["inputs"],"every file content, including adversarial size and count fields",
  "No test feeds a malformed file; the interesting ones are single huge 32/64-bit fields that sampling does not hit.",
  [CLI+"r1cs.rs"],[("section scan, header, constraint and label readers",CLI+"r1cs.rs")],["Result of reading the file; allocations; termination"])
p("C06","CLI symbol files map each signal name to its wire",
  "Parsing a .sym file maps the name of every four-field line whose wire id is non-negative to that wire id (last such line wins), ignoring surrounding whitespace and either line ending; lines with another number of fields and lines with a negative wire id contribute nothing, and a four-field line whose wire id is not a 32-bit integer is an error. It never crashes.",
  ["inputs"],"every .sym text",
  "Unit tests cover no sym text in the compiled modules at all; two fixed circuits are used end to end.",
  [CLI+"sym_parser.rs"],[("parse_sym_file",CLI+"sym_parser.rs")],["returned map"])
p("C07","CLI input signals are exactly the main-component signals within the bound",
  "From a signal map, the input signals are exactly the entries whose name starts with \"main.\" and whose wire id does not exceed the given maximum (no maximum means no limit), with that one prefix removed and the wire id kept.",
  ["inputs"],"every map of names to wire ids and every optional maximum",
  "No test varies the bound, the prefix or the boundary value.",
  [CLI+"sym_parser.rs"],[("get_input_signals",CLI+"sym_parser.rs")],["returned map"])
p("C08","Circuit input JSON is flattened in order, value by value",
  "Parsing an input JSON object returns, for every top-level key, the list of its leaf values in document order: strings verbatim, integers of the 64-bit ranges in decimal text, booleans as \"1\"/\"0\", null as \"0\", arrays flattened to any depth, nested objects contributing nothing. Text that is not a JSON object, or an unreadable file, is an error and never a crash.",
  ["inputs"],"every file content, every JSON value and nesting",
  "One test reads one simple file; nesting, ordering, negative and large numbers and invalid JSON are not covered.",
  [CLI+"circom.rs"],[("parse_inputs",CLI+"circom.rs")],["returned map"])
p("C09","Exported circuits survive binary serialization unchanged",
  "Every exported circuit, including its optional wire labels, serialized to the compact binary form and read back equals the original, in both the core and the CLI library, and the bytes written by one are read identically by the other. Any other byte string is read to an error or to a circuit, never to a crash.",
  ["inputs"],"every circuit value and every byte string",
  "The test uses one circuit with no constraints and no labels and compares two fields.",
  [CORE+"serializable.rs",CLI+"serializable.rs"],[("to_bincode / from_bincode",CORE+"serializable.rs")],["returned circuit"])
p("C10","Exported circuits, witnesses and test cases survive JSON unchanged",
  "Every exported circuit, witness and test case written as JSON (in memory or to a file) and read back equals the original: all counts, bytes, wire ids, labels, names and optional fields; saving then loading through a file gives the same value as in-memory conversion, in both the core and the CLI library.",
  ["inputs"],"every circuit, witness and test case value",
  "Tests round-trip one tiny circuit and compare two fields; file save/load and test cases are not exercised.",
  [CORE+"serializable.rs",CLI+"serializable.rs"],[("to_json/from_json/save/load",CORE+"serializable.rs")],["returned value"])
p("C11","Exporting a parsed circuit preserves every constraint",
  "Exporting a parsed R1CS circuit keeps the field size, prime, all counts, and every constraint's A, B and C combinations with the same wire ids and coefficient bytes in the same order and role.",
  ["inputs"],"every parsed circuit",
  "The test checks counts and that the first constraint is non-empty, not that A, B and C are carried over unmixed.",
  [CLI+"r1cs.rs"],[("to_serializable",CLI+"r1cs.rs")],["exported circuit"])
p("C12","CLI encrypt output has the shared combined format and decrypts to the message",
  "Encrypting writes flag byte (1 if public inputs are embedded, else 0), big-endian 32-bit length and the witness ciphertext, then if embedded the big-endian 32-bit length and the exact bytes of the input JSON, then the AES-256-GCM encrypted message under the encapsulated key, and nothing else. Decrypting any file of that layout (whichever tool produced it) with a witness that opens the witness ciphertext writes exactly the message.",
  ["inputs"],"every message, input JSON text, witness ciphertext length and embedding choice",
  "These modules are not even compiled by the tests that run here; the repository's end-to-end tests use two circuits and one message each.",
  [CLI+"commands.rs",CLI+"crypto.rs"],[("encrypt_command / decrypt_command",CLI+"commands.rs")],["files written"])
p("C13","CLI decrypt rejects malformed combined ciphertexts",
  "For any content of the combined ciphertext file, decryption either succeeds because the file has the documented layout, or returns an error without writing the output file; announced lengths that run past the end of the file are errors, and it never crashes. (A flag other than 0 or 1 may be read as 0 or be refused.)",
  ["inputs"],"every file content, including every value of the flag and length fields",
  "No test feeds a malformed combined ciphertext.",
  [CLI+"commands.rs"],[("length checks in decrypt_command",CLI+"commands.rs")],["Result and output file"])
p("C14","Witness files are read exactly, and malformed ones rejected",
  "Reading any well-formed .wtns version 2 file yields its prime, witness count and, for each wire in order, exactly its bytes, with unknown sections skipped (well-formed: each known section once, at least one value, values of at least one byte). Wrong magic or version, a missing section, or a data section whose size is not count times field size is an error; no content makes it crash, hang or allocate out of proportion to the file.",
  ["inputs"],"every file content",
  "The only tests are ignored ones over fixed files.",
  [CLI+"witness.rs"],[("WitnessFile::from_file",CLI+"witness.rs")],["parsed witness or error; allocations"])
p("C15","CLI encryption binds every public input, whatever the JSON key order",
  "Encapsulating or encrypting with the CLI puts each public input given in the JSON (scalars, and array elements under their indexed names) on the circuit wire the symbol file gives it, independently of key order and of whether the circuit also has public outputs. Wire 0 is the constant one, and names that are not public signals of the circuit affect nothing.",
  ["inputs","configurations"],"every symbol file, input JSON and split of public wires into outputs and inputs",
  "The end-to-end circuits have their signals in a benign layout; an input silently dropped makes encryption succeed anyway.",
  [CLI+"commands.rs",CLI+"sym_parser.rs",CLI+"circuit.rs"],[("JSON to wire mapping",CLI+"commands.rs")],["assignment handed to the encapsulation"])
p("C16","CLI JSON values denote the field element they spell",
  "A JSON integer (within the 64-bit ranges JSON readers keep exactly; a larger one is an error, never rounded) or decimal string of any length used as a circuit input stands for that integer modulo the field prime (negative numbers included); nested arrays are addressed as name[i][j]; booleans, null, fractional numbers, objects and non-numeric strings are errors.",
  ["inputs"],"every JSON input text",
  "Tests use small positive numbers only.",
  [CLI+"commands.rs"],[("parse_circuit_inputs_with_keys",CLI+"commands.rs")],["assignment handed to the encapsulation"])
p("C17","The synthesized circuit is exactly the R1CS file's constraint system",
  "Synthesizing a loaded circuit creates one instance variable per public wire in wire order, one witness variable per remaining wire in order, and for each constraint of the file A*B=C with exactly the file's coefficients (reduced modulo the prime) on exactly its wires; assigned values land on their wires and a missing value is reported as missing. This holds in the CLI and in the JS library alike.",
  ["inputs"],"every R1CS file and assignment",
  "Synthesis is tested on one circuit with all-zero values and its outcome is not asserted.",
  [CLI+"circuit.rs",JS+"lib.rs"],[("generate_constraints",CLI+"circuit.rs"),("generate_constraints",JS+"lib.rs")],["calls to the constraint system"])
p("C18","Decapsulation with a satisfying witness recovers the encapsulated key",
  "For every circuit and satisfying assignment, decapsulating a ciphertext produced for the same circuit and public inputs returns the key that encapsulation produced.",
  ["inputs","programs"],"every R1CS circuit, satisfying assignment and choice of randomness",
  "Tests run two fixed circuits with one witness each.",
  [CORE+"algorithm.rs",CORE+"r1cs_to_qap.rs"],[("encap and decap pairing equations",CORE+"algorithm.rs")],["keys returned by encap and decap"])
p("C19","Decapsulation refuses invalid witnesses and foreign public inputs",
  "Decapsulation returns an error, and no key, whenever the assignment violates a constraint of the circuit, is incomplete, or its public inputs differ in any position from those the ciphertext carries (which may be fewer than the circuit's); a ciphertext carrying more public inputs than the assignment has values is an error; no ciphertext or witness crashes it.",
  ["inputs"],"every circuit, assignment and ciphertext",
  "Tests try one wrong witness on one circuit.",
  [CORE+"algorithm.rs"],[("satisfaction and public-input checks in decap",CORE+"algorithm.rs")],["Result of decap"])
p("C20","Ciphertext elements encode the circuit's QAP at a secret point",
  "For a fully assigned circuit, the query vectors in a ciphertext are, for each variable i, r*u_i(x), r*v_i(x) and (r*b*u_i(x)+r*a*v_i(x)+r^2*w_i(x))/d for the alpha, beta, delta, r and x drawn (five separate draws), where u_i, v_i, w_i interpolate the A, B and C columns of variable i over the evaluation domain; and the ciphertext carries alpha, beta, delta and the public inputs in order.",
  ["inputs","programs"],"every circuit, assignment and randomness",
  "No test looks at the ciphertext's elements.",
  [CORE+"algorithm.rs",CORE+"r1cs_to_qap.rs"],[("evaluate_qap_polynomials_at_x",CORE+"r1cs_to_qap.rs"),("encap query vectors",CORE+"algorithm.rs")],["fields of the ciphertext"])
p("C21","The encapsulated key cannot be computed from the ciphertext alone",
  "The key returned by encapsulation is not a fixed public function of the ciphertext: without a satisfying witness, the ciphertext's own elements do not determine it, and it depends on the circuit and on every public input.",
  ["inputs"],"every circuit and randomness",
  "Round-trip tests cannot see that a third party can derive the key.",
  [CORE+"algorithm.rs"],[("key derivation in encap",CORE+"algorithm.rs")],["key returned by encap against a formula over the ciphertext"])
p("C22","Ciphertext verification accepts exactly the expected public inputs",
  "Verifying a ciphertext against a list of expected public inputs returns true if and only if the ciphertext carries exactly that list: same length, same values, same order.",
  ["inputs"],"every pair of lists",
  "Tests try one match and one mismatch.",
  [CORE+"algorithm.rs"],[("verify_ciphertext",CORE+"algorithm.rs")],["returned bool"])
p("C23","The JS library reads circuit and witness bytes exactly",
  "Encapsulating or decapsulating from R1CS and witness bytes uses exactly the encoded circuit (any section order, unknown sections skipped) and witness values (each reduced modulo the prime), wire by wire: public wires only when encapsulating, and all of them when decapsulating; a witness of the wrong length for the circuit is an error when decapsulating.",
  ["inputs"],"every well-formed R1CS and wtns byte string",
  "The package's tests need a wasm build and use two circuits.",
  [JS+"lib.rs"],[("parse_r1cs / parse_witness / wasm_encap / wasm_decap",JS+"lib.rs")],["calls into the core library"])
p("C24","The JS library rejects malformed circuit and witness bytes without trapping",
  "Whatever bytes are passed as circuit, witness or ciphertext, the entry points return normally with a result or an error: no panic (a wasm trap), no endless loop, no allocation out of proportion to the input.",
  ["inputs"],"every byte string for each argument",
  "No test passes malformed bytes.",
  [JS+"lib.rs"],[("bounds checks in the parsers",JS+"lib.rs")],["return of the entry points"])
p("C25","JS symbol files and inputs map each signal to its wire",
  "Parsing a .sym text maps the name of every four-field line with a non-negative wire id to that wire id; the input signals are exactly the names under \"main.\" (prefix removed) within the optional maximum wire id; and mapping a JSON input places every scalar, (nested) array element name[i] and nested object member a.b on the wire of that name and nothing anywhere else, independently of key order.",
  ["inputs"],"every sym text, wire bound and JSON input",
  "The package's tests are not run here and use one fixture.",
  [JS+"sym_parser.ts"],[("parseSymFile, getInputSignals, mapInputsToWires",JS+"sym_parser.ts")],["returned maps"])
p("C26","JS AES-GCM helpers round-trip in the shared format and reject bad input",
  "Encrypting yields a fresh random 12-byte nonce followed by the AES-256-GCM ciphertext and its 16-byte tag, and decrypting it with the same key returns the data; keys that are not 32 bytes, data shorter than 28 bytes, and modified data or a different key are rejected with an error.",
  ["inputs"],"every key, data and nonce",
  "The package's tests are not run here and sample one message.",
  [JS+"crypto.ts"],[("aesGcmEncrypt / aesGcmDecrypt",JS+"crypto.ts")],["returned bytes or rejection"])
p("C27","JS encapsulation passes every public input on in a valid witness file",
  "Encapsulating hands the core the circuit bytes unchanged and a well-formed wtns version 2 file (32-byte elements, BN254 prime) whose element 0 is one and whose element i is the integer given for the signal on wire i, reduced modulo the prime, for every public input, in wire order; the result is the core's ciphertext and key.",
  ["inputs"],"every sym text and JSON input covering the public wires",
  "The package's tests are not run here; they use circuits with small positive inputs.",
  [JS+"zkenc.ts",JS+"sym_parser.ts"],[("encap / serializeWitnessSimple / bigIntToLeBytes32",JS+"zkenc.ts")],["arguments of the core call"])
p("C28","JS combined ciphertexts round-trip and malformed ones are rejected",
  "Encrypting produces the same layout as the CLI (flag, big-endian lengths, witness ciphertext, optional public-input JSON, encrypted message); decrypting it with a witness that opens it returns the message and the embedded public inputs are returned as the object that was passed. A ciphertext that is too short, whose announced lengths exceed it, or that embeds no public inputs when these are requested, is an error.",
  ["inputs"],"every message, witness ciphertext, public input object, embedding choice and arbitrary ciphertext bytes, including views into larger buffers",
  "The package's tests are not run here; they cover one layout and two malformed inputs.",
  [JS+"zkenc.ts"],[("encrypt / decrypt / getPublicInput",JS+"zkenc.ts")],["returned values or rejection"])
p("C29","JS witness calculation passes inputs exactly and reports the witness",
  "Witness calculation sets every signal of the input to its value modulo the prime (negative and large values included; arrays flattened in order), addressed by the 64-bit FNV-1a hash of its name; it rejects unknown signals, too few or too many values and missing signals, and returns the circuit's witness values, as integers and as a well-formed wtns version 2 file.",
  ["inputs"],"every input object, prime, element width and circuit answer",
  "The package's tests are not run here and use two circuits.",
  [JS+"witness_calculator.ts",JS+"witness.ts"],[("WitnessCalculator and its number helpers",JS+"witness_calculator.ts")],["calls to the circuit module; returned bytes"])
p("C30","The JS library initializes its core exactly once, before it is used",
  "However calls overlap, the wasm core is initialized once, and no encapsulation or decapsulation reaches it before initialization finished; a failed initialization is reported to every caller waiting for it.",
  ["schedules"],"every interleaving of concurrent encapsulations and decapsulations and every outcome of initialization",
  "No test overlaps calls.",
  [JS+"zkenc.ts"],[("ensureWasmInit",JS+"zkenc.ts")],["order of calls into the core"])
p("C31","Serialized ciphertexts and keys read back identically",
  "A ciphertext or key written in compressed form by one tool is read back as the same value by every tool, and bytes that do not encode valid group elements and scalars are rejected.",
  ["inputs"],"every ciphertext and key",
  "Round trips of one ciphertext.",
  [CORE+"data_structures.rs"],[("derived canonical serialization",CORE+"data_structures.rs")],["deserialized value"])
p("C32","Messages, keys and files are produced only by successful commands",
  "A CLI command that fails (unreadable or invalid circuit, symbol, input, witness or ciphertext file, rejected witness, failed authentication) returns an error and writes no ciphertext, key or message file.",
  ["inputs"],"every command, every kind of unreadable or invalid input file",
  "No test makes a command fail.",
  [CLI+"commands.rs"],[("error propagation before writing",CLI+"commands.rs")],["Result and files written"])
p("C33","Every encapsulation uses fresh randomness of its own",
  "Each encapsulation, whether by CLI encap, CLI encrypt or the JS binding, draws its randomness from the operating system (directly or through a generator seeded from it), and no drawn value, seed or nonce is used for two of them.",
  ["inputs","histories"],"every sequence of encapsulations",
  "Two runs giving different outputs does not show where the randomness comes from; a fixed or reused seed passes every round-trip test.",
  [CLI+"commands.rs","packages/zkenc-js/src/lib.rs",CLI+"crypto.rs"],[("generator handed to encap",CLI+"commands.rs"),("StdRng seeding","packages/zkenc-js/src/lib.rs")],["randomness reaching the core, nonces in outputs"])
p("C34","Keys are derived by the scheme's documented pairing equations",
  "Encapsulation returns BLAKE3 of the serialized e(alpha,beta) + e(sum of a_i*phi_i over the constant and the public inputs, g2); decapsulation with an accepted assignment returns BLAKE3 of e(alpha + sum a_i*u_i, beta + sum a_i*v_i) - e(sum a_i*phi_i, delta) over the ciphertext's own elements and all wires, the sums running over as many elements as the ciphertext has; a ciphertext without elements is an error.",
  ["inputs","programs"],"every circuit, satisfying assignment, ciphertext and randomness",
  "In the round trips the tests run every query element is the identity, so a wrong term, index or sign in the equations changes nothing.",
  [CORE+"algorithm.rs"],[("key derivation in encap and decap",CORE+"algorithm.rs")],["keys returned by encap and decap"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
