id = "s07-prefix"
prop = "C07"
needs = "a signal of a subcomponent that is itself called main (main.main.x)"
breaks = "repeated prefixes are all removed, so the signal is found under another name"
R = "packages/zkenc-cli/src/sym_parser.rs"
edits = [(R, '''        if let Some(simplified) = signal_name.strip_prefix("main.") {
            input''', '''        let simplified = signal_name.trim_start_matches("main.");
        if simplified.len() < signal_name.len() {
            input''')]
main = MODS + '''
fn main() {
    let m = sym_parser::parse_sym_file("1,1,3,main.main.a\\n").unwrap();
    let s = sym_parser::get_input_signals(&m, None);
    assert!(s.get("main.a") == Some(&1));
}
'''
