fn main() { sy::native_main(h::TABLE) }
