id = "s10-description"
prop = "C10"
needs = "a test case whose description is present but empty"
breaks = "an empty description is read back as no description"
R = "packages/zkenc-cli/src/serializable.rs"
edits = [(R, "    pub description: Option<String>,", '''    #[serde(default, skip_serializing_if = "no_text")]
    pub description: Option<String>,'''), (R, "impl SerializableCircuit {\n", '''fn no_text(text: &Option<String>) -> bool {
    text.as_deref().unwrap_or("").trim().is_empty()
}

impl SerializableCircuit {
''')]
main = MODS + '''
fn main() {
    use serializable::*;
    let c = SerializableCircuit { field_size: 32, prime_bytes: vec![1], n_wires: 1, n_pub_out: 0, n_pub_in: 0, n_prv_in: 0, n_constraints: 0, constraints: vec![], wire_labels: None };
    let t = SerializableTestCase { circuit: c, witness: SerializableWitness { assignments: Default::default() }, name: "n".into(), description: Some(String::new()) };
    t.save_json("t.json").unwrap();
    assert!(SerializableTestCase::load_json("t.json").unwrap().description.is_some());
}
'''
