//! Harness interface.  On the symbolic target (riscv64) these calls are answered by rsym;
//! natively they replay a recorded input sequence against the real code.
#![allow(static_mut_refs)]

pub struct Log(pub Vec<u8>);
static mut LOG: Log = Log(Vec::new());

/// Every byte of randomness handed out so far (operating system, or a generator seeded from it).
pub fn entropy_log() -> &'static mut Vec<u8> {
    unsafe { &mut LOG.0 }
}
/// Draw operating-system randomness and log it.
pub fn entropy(b: &mut [u8]) {
    imp::entropy(b);
    entropy_log().extend_from_slice(b);
}
/// Position in the randomness log at or after `from` where `b` was drawn.
pub fn find_entropy(b: &[u8], from: usize) -> Option<usize> {
    let l = entropy_log();
    if b.is_empty() || l.len() < b.len() { return None; }
    for i in from..=l.len() - b.len() {
        if must(eq(&l[i..i + b.len()], b)) { return Some(i); }
    }
    None
}
/// The last position in the randomness log where `b` was drawn.
pub fn last_entropy(b: &[u8]) -> Option<usize> {
    let l = entropy_log();
    if b.is_empty() || l.len() < b.len() { return None; }
    for i in (0..=l.len() - b.len()).rev() {
        if must(eq(&l[i..i + b.len()], b)) { return Some(i); }
    }
    None
}
/// Does `b` occur in the randomness drawn so far?
pub fn is_entropy(b: &[u8]) -> bool {
    last_entropy(b).is_some()
}
static mut SEEDS: Vec<usize> = Vec::new();
/// A seed that was drawn and has not seeded anything before (asked by the stub generators).
pub fn is_new_seed(seed: &[u8]) -> bool {
    let Some(i) = last_entropy(seed) else { return false };
    let used = unsafe { &mut SEEDS };
    if used.contains(&i) { return false; }
    used.push(i);
    true
}

/// An arbitrary value of `w` bits.
pub fn bits(w: usize) -> u64 {
    wide(w)
}
/// An arbitrary decimal digit.
pub fn digit() -> u8 {
    let d = wide(4) as u8;
    assume(d < 10);
    b'0' + d
}

#[cfg(target_arch = "riscv64")]
mod imp {
    extern "C" {
        pub fn rsym_bytes(p: *mut u8, n: usize);
        pub fn rsym_wide(w: usize) -> u64;
        pub fn rsym_pick(n: u64) -> u64;
        pub fn rsym_assume(c: u8);
        pub fn rsym_check(c: u8, p: *const u8, n: usize);
        pub fn rsym_reach(p: *const u8, n: usize);
        pub fn rsym_case() -> u64;
        pub fn rsym_alloc_limit(n: u64);
        pub fn rsym_step_limit(n: u64);
        pub fn rsym_uf(nm: *const u8, nl: usize, i: *const u8, il: usize, o: *mut u8, ol: usize);
        pub fn rsym_observe(nm: *const u8, nl: usize, p: *const u8, n: usize);
        pub fn rsym_opaque(on: u64);
        pub fn rsym_hash_real(on: u64);
        pub fn rsym_faults(n: u64);
        pub fn rsym_entropy(p: *mut u8, n: usize);
        pub fn rsym_eq(a: *const u8, b: *const u8, n: usize) -> u8;
        pub fn rsym_fork(c: u8) -> u8;
        pub fn rsym_must(c: u8) -> u8;
        pub fn rsym_fresh(p: *mut u8, n: usize);
        pub fn rsym_field(op: u64, a: u64, b: u64) -> u64;
        pub fn rsym_drop() -> !;
        pub fn rsym_event(p: *const u8, n: usize) -> !;
    }
    pub fn fill(b: &mut [u8]) { unsafe { rsym_bytes(b.as_mut_ptr(), b.len()) } }
    pub fn wide(w: usize) -> u64 { unsafe { rsym_wide(w) } }
    pub fn pick(n: u64) -> u64 { unsafe { rsym_pick(n) } }
    pub fn assume(c: bool) { unsafe { rsym_assume(c as u8) } }
    pub fn check(c: bool, l: &str) { unsafe { rsym_check(c as u8, l.as_ptr(), l.len()) } }
    pub fn reach(l: &str) { unsafe { rsym_reach(l.as_ptr(), l.len()) } }
    pub fn case() -> u64 { unsafe { rsym_case() } }
    pub fn alloc_limit(n: u64) { unsafe { rsym_alloc_limit(n) } }
    pub fn step_limit(n: u64) { unsafe { rsym_step_limit(n) } }
    pub fn uf(name: &str, i: &[u8], o: &mut [u8]) { unsafe { rsym_uf(name.as_ptr(), name.len(), i.as_ptr(), i.len(), o.as_mut_ptr(), o.len()) } }
    pub fn observe(name: &str, b: &[u8]) { unsafe { rsym_observe(name.as_ptr(), name.len(), b.as_ptr(), b.len()) } }
    pub fn exact_format() { unsafe { rsym_opaque(0) } }
    pub fn hash_real() { unsafe { rsym_hash_real(1) } }
    pub fn faults(n: u64) { unsafe { rsym_faults(n) } }
    pub fn entropy(b: &mut [u8]) { unsafe { rsym_entropy(b.as_mut_ptr(), b.len()) } }
    pub fn eq(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && unsafe { rsym_eq(a.as_ptr(), b.as_ptr(), a.len()) } & 1 == 1 }
    pub fn fork(c: bool) -> bool { unsafe { rsym_fork(c as u8) == 1 } }
    pub fn must(c: bool) -> bool { unsafe { rsym_must(c as u8) == 1 } }
    pub fn fresh(b: &mut [u8]) { unsafe { rsym_fresh(b.as_mut_ptr(), b.len()) } }
    pub fn field(op: u64, a: u64, b: u64) -> u64 { unsafe { rsym_field(op, a, b) } }
    pub fn drop_path() -> ! { unsafe { rsym_drop() } }
    pub fn event(l: &str) -> ! { unsafe { rsym_event(l.as_ptr(), l.len()) } }
}

#[cfg(not(target_arch = "riscv64"))]
mod imp {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::io::Read;
    use std::sync::atomic::{AtomicU64, Ordering};
    pub static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
    pub struct Limited;
    fn over(n: usize) {
        if n as u64 > LIMIT.load(Ordering::Relaxed) {
            LIMIT.store(u64::MAX, Ordering::Relaxed);
            println!("ALLOC {n}");
            std::process::exit(11);
        }
    }
    unsafe impl GlobalAlloc for Limited {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { over(l.size()); System.alloc(l) }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { over(l.size()); System.alloc_zeroed(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { over(n); System.realloc(p, l, n) }
    }
    #[global_allocator]
    static A: Limited = Limited;

    pub struct St { pub inputs: Vec<String>, pub pos: usize, pub case: u64 }
    pub static mut ST: St = St { inputs: Vec::new(), pos: 0, case: 0 };
    fn next(tag: &str) -> Option<String> {
        unsafe {
            let s = ST.inputs.get(ST.pos)?;
            ST.pos += 1;
            match s.strip_prefix(tag) {
                Some(r) => Some(r.to_string()),
                None => { println!("DIVERGED expected {tag} got {s}"); std::process::exit(12) }
            }
        }
    }
    pub fn fill(b: &mut [u8]) {
        let h = next("b:").unwrap_or_default();
        for (i, x) in b.iter_mut().enumerate() {
            *x = h.get(2 * i..2 * i + 2).map_or(0, |s| u8::from_str_radix(s, 16).unwrap());
        }
    }
    pub fn wide(_w: usize) -> u64 { next("w:").map_or(0, |s| s.parse().unwrap()) }
    pub fn pick(_n: u64) -> u64 { next("p:").map_or(0, |s| s.parse().unwrap()) }
    pub fn assume(c: bool) { if !c { println!("ASSUME"); std::process::exit(12) } }
    pub fn check(c: bool, l: &str) { if !c { println!("CHECKFAIL {l}"); std::process::exit(10) } }
    pub fn reach(l: &str) { println!("REACH {l}") }
    pub fn case() -> u64 { unsafe { ST.case } }
    pub fn alloc_limit(n: u64) { LIMIT.store(n, Ordering::Relaxed) }
    pub fn step_limit(_n: u64) {}
    pub fn uf(_name: &str, _i: &[u8], _o: &mut [u8]) { println!("DIVERGED uninterpreted function"); std::process::exit(12) }
    pub fn observe(name: &str, b: &[u8]) { println!("OBSERVE {name} {}", b.iter().map(|x| format!("{x:02x}")).collect::<String>()) }
    pub fn exact_format() {}
    pub fn hash_real() {}
    pub fn faults(_n: u64) {}
    pub fn entropy(b: &mut [u8]) { std::fs::File::open("/dev/urandom").unwrap().read_exact(b).unwrap() }
    pub fn eq(a: &[u8], b: &[u8]) -> bool { a == b }
    pub fn fork(c: bool) -> bool { c }
    pub fn must(c: bool) -> bool { c }
    pub fn fresh(b: &mut [u8]) { entropy(b) }
    pub fn field(op: u64, a: u64, b: u64) -> u64 {
        match op { 0 => (a + b) % 17, 1 => (a + 16 * b) % 17, 2 => a * b % 17, 3 => (0..15).fold(1, |r, _| r * a % 17), _ => a }
    }
    pub fn drop_path() -> ! { println!("ASSUME"); std::process::exit(12) }
    pub fn event(l: &str) -> ! { println!("CHECKFAIL {l}"); std::process::exit(10) }
}

pub use imp::{alloc_limit, assume, case, check, drop_path, eq, event, exact_format, faults, field, fill, fork, fresh, hash_real, must, observe, pick, reach, step_limit, uf, wide};

pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(&mut v);
    v
}
pub fn array<const N: usize>() -> [u8; N] {
    let mut v = [0u8; N];
    fill(&mut v);
    v
}
pub fn u8() -> u8 { wide(8) as u8 }
pub fn u16() -> u16 { wide(16) as u16 }
pub fn u32() -> u32 { wide(32) as u32 }
pub fn u64() -> u64 { wide(64) }
pub fn boolean() -> bool { wide(1) == 1 }

/// Native entry: `prog NAME INPUTS CASE`; INPUTS is a file with one recorded input per line.
#[cfg(not(target_arch = "riscv64"))]
pub fn native_main(table: &[(&str, fn())]) {
    let a: Vec<String> = std::env::args().collect();
    unsafe {
        imp::ST.inputs = std::fs::read_to_string(&a[2]).unwrap().lines().map(|s| s.to_string()).collect();
        imp::ST.case = a[3].parse().unwrap();
    }
    for (n, f) in table {
        if *n == a[1] {
            f();
            imp::alloc_limit(u64::MAX);
            println!("DONE");
            return;
        }
    }
    panic!("no harness {}", a[1]);
}

/// Define harness entry points and, natively, a dispatch table.
#[macro_export]
macro_rules! harnesses {
    ($(fn $n:ident() $b:block)*) => {
        $(
            #[cfg(target_arch = "riscv64")]
            #[no_mangle]
            pub extern "C" fn $n() $b
            #[cfg(not(target_arch = "riscv64"))]
            pub fn $n() $b
        )*
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($n), { fn call() { let _ = $n(); } call as fn() })),*];
    };
}
