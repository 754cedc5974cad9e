id = "s25-removed-line"
prop = "C25"
needs = "a symbol file in which the same signal name occurs on several lines (the last one counts), with the duplicate on a removed wire"
breaks = "a line of a removed signal (wire -1) deletes the wire found on an earlier line of that name"
F = "packages/zkenc-js/src/sym_parser.ts"
edits = [(F, '''    if (wireId >= 0) {''', '''    if (wireId < 0) wireMap.delete(signalName);
    else {''')]
globals().update(ts('''
const { parseSymFile } = await import("./src/sym_parser.js");
assert.equal(parseSymFile("1,5,0,main.a\\n2,-1,1,main.a\\n").get("main.a"), 5);
'''))
