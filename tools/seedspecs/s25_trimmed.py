id = "s25-trimmed-key"
prop = "C25"
needs = "an input object whose top-level key is empty, or nested below an empty key"
breaks = "a nested member below an empty-named member is looked up without the separating dot, so it lands on the wire of an unrelated signal"
F = "packages/zkenc-js/src/sym_parser.ts"
edits = [(F, '''  function flattenInput(key: string, value: any, prefix: string = ""): void {''', '''  function flattenInput(key: string, value: any, prefix: string = ""): void {
    key = key.trim();''')]
globals().update(ts('''
const { mapInputsToWires } = await import("./src/sym_parser.js");
const m = mapInputsToWires({ a: "1", "a ": "2" }, new Map([["a", 4]]));
assert.deepEqual([...m], [[4, "1"]]);
'''))
needs = "an input object with a key that differs from a signal's name only by surrounding white space"
breaks = "the value of a key that names no signal overwrites the value of the signal whose name it resembles"
