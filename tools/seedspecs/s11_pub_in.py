id = "s11-public-inputs"
prop = "C11"
needs = "a circuit with public outputs"
breaks = "the exported number of public inputs also counts the outputs"
R = "packages/zkenc-cli/src/r1cs.rs"
edits = [(R, "            n_pub_in: self.n_pub_in,\n", "            n_pub_in: self.n_public_inputs(),\n")]
main = MODS + R1 + '''
fn main() {
    std::fs::write("a.r1cs", file(32, 5, 2, 1, 1, &[], &[])).unwrap();
    let s = r1cs::R1csFile::from_file("a.r1cs").unwrap().to_serializable();
    assert!(s.n_pub_in == 1 && s.n_pub_out == 2);
}
'''
