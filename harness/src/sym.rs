//! What a harness may say to the engine. In the `replay` binary the same symbols are ordinary
//! functions that read the counterexample.
unsafe extern "C" {
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_assume(c: bool);
    fn sym_check(c: bool, id: u32);
    fn sym_check_eq(a: *const u8, b: *const u8, n: usize, id: u32);
    fn sym_panic_ok(c: bool);
    fn sym_reach(id: u32);
    fn sym_nomerge(mode: u8);
    fn sym_split(v: u64) -> u64;
    fn sym_concretize(v: u64) -> u64;
    fn sym_out(p: *const u8, n: usize);
}

/// N arbitrary bytes
pub fn any<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { sym_bytes(b.as_mut_ptr(), N) };
    b
}
pub fn any_vec(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    any_fill(&mut b);
    b
}
pub fn any_fill(b: &mut [u8]) {
    unsafe { sym_bytes(b.as_mut_ptr(), b.len()) };
}
pub fn any_u8() -> u8 {
    any::<1>()[0]
}
pub fn any_u16() -> u16 {
    u16::from_le_bytes(any())
}
pub fn any_u32() -> u32 {
    u32::from_le_bytes(any())
}
pub fn any_u64() -> u64 {
    u64::from_le_bytes(any())
}
pub fn any_u128() -> u128 {
    u128::from_le_bytes(any())
}
/// restrict the inputs
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
/// the assertion the solver decides
pub fn check(c: bool, id: u32) {
    unsafe { sym_check(c, id) }
}
pub fn check_eq(a: &[u8], b: &[u8], id: u32) {
    check(a.len() == b.len(), id);
    let n = concretize(a.len() as u64) as usize;
    unsafe { sym_check_eq(a.as_ptr(), b.as_ptr(), n, id) }
    out(&a[..n]);
}
/// from here on a panic is (true) or is not (false) an allowed end of the run
pub fn panic_ok(c: bool) {
    unsafe { sym_panic_ok(c) }
}
/// vacuity witness: some input gets here
pub fn reach(id: u32) {
    unsafe { sym_reach(id) }
}
/// how the engine joins paths: 0 always, 1 never, 2 only those whose addresses, lengths and
/// counters agree (and leading/trailing zero counts are split by value)
pub fn join(mode: u8) {
    unsafe { sym_nomerge(mode) }
}
/// fork over every feasible value of v
pub fn concretize(v: u64) -> u64 {
    unsafe { sym_concretize(v) }
}
/// the same, and the paths are never joined again
pub fn split(v: u64) -> u64 {
    unsafe { sym_split(v) }
}
/// observable output, compared between engine and native runs in the engine's self validation
pub fn out(b: &[u8]) {
    unsafe { sym_out(b.as_ptr(), b.len()) }
}

/// deterministic filler for the concrete part of an input
pub fn filler(i: usize) -> u8 {
    let x = (i as u32).wrapping_mul(2654435761).wrapping_add(0x9e37);
    (x >> 13) as u8
}

/// len bytes: concrete filler, except `sym` symbolic bytes starting at `at`
pub fn message(len: usize, at: usize, sym: usize) -> Vec<u8> {
    let mut m: Vec<u8> = (0..len).map(filler).collect();
    let end = (at + sym).min(len);
    if at < end {
        any_fill(&mut m[at..end]);
    }
    m
}
