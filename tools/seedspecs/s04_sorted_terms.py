id = "s04-merged-terms"
prop = "C04"
needs = "a linear combination with the same wire twice in a row"
breaks = "the second of two consecutive terms on the same wire is dropped"
R = "packages/zkenc-cli/src/r1cs.rs"
edits = [(R, '''            factors.push((wire_id, value));
''', '''            factors.push((wire_id, value));
            factors.dedup_by_key(|factor| factor.0);
''')]
main = MODS + R1 + '''
fn main() {
    let t = vec![(2u32, vec![5u8; 32]), (2, vec![6u8; 32]), (1, vec![1u8; 32])];
    std::fs::write("a.r1cs", file(32, 3, 1, 1, 1, &[[t.clone(), vec![], vec![]]], &[])).unwrap();
    assert!(r1cs::R1csFile::from_file("a.r1cs").unwrap().constraints[0].a.factors == t);
}
'''
