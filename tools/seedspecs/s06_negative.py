id = "s06-negative-wire"
prop = "C06"
needs = "a signal with a negative wire id other than -1"
breaks = "a negative wire id other than -1 becomes a wire near 2^32"
R = "packages/zkenc-cli/src/sym_parser.rs"
edits = [(R, "        if wire_id_signed < 0 {", "        if wire_id_signed == -1 {")]
main = MODS + '''
fn main() {
    let m = sym_parser::parse_sym_file("1,-2,3,main.a\\n2,1,3,main.b\\n").unwrap();
    assert!(m.len() == 1 && m["main.b"] == 1);
}
'''
