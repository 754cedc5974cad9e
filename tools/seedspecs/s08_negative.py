id = "s08-big-negative"
prop = "C08"
needs = "a negative JSON integer beyond 2^53"
breaks = "large negative integers are rounded to the nearest double"
R = "packages/zkenc-cli/src/circom.rs"
edits = [(R, "        Value::Number(n) => vec![n.to_string()],", '''        Value::Number(n) => vec![match n.as_u64() {
            Some(u) => u.to_string(),
            None => n.as_f64().map_or_else(|| n.to_string(), |f| f.to_string()),
        }],''')]
main = MODS + '''
fn main() {
    std::fs::write("in.json", "{\\"a\\":[-9007199254740993,-5]}").unwrap();
    let m = circom::parse_inputs("in.json").unwrap();
    assert!(m["a"] == vec!["-9007199254740993", "-5"]);
}
'''
