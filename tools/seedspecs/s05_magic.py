id = "s05-version"
prop = "C05"
needs = "a file announcing a format version that is 1 modulo 256, such as 257"
breaks = "files of unsupported versions are accepted"
R = "packages/zkenc-cli/src/r1cs.rs"
edits = [(R, "        if version != 1 {", "        if version & 0xff != 1 {")]
main = MODS + R1 + '''
fn main() {
    let mut f = file(32, 3, 1, 1, 1, &[], &[]);
    f[5] = 1;
    std::fs::write("a.r1cs", f).unwrap();
    assert!(r1cs::R1csFile::from_file("a.r1cs").is_err());
}
'''
