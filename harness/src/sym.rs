#![allow(dead_code)]
//! Thin wrappers over the intrinsics that the symbolic engine intercepts.

mod ffi {
    extern "C" {
        pub fn sym_bytes(p: *mut u8, n: usize);
        pub fn sym_assume(b: bool);
        pub fn sym_assert(b: bool, code: u64);
        pub fn sym_emit(v: u64);
        pub fn sym_cover(v: u64);
        pub fn sym_concretize(v: u64) -> u64;
        pub fn sym_param() -> u64;
        pub fn sym_cost() -> u64;
        pub fn sym_mem() -> u64;
        pub fn sym_scale() -> u64;
        pub fn rt_done();
        pub fn rt_set(p: *const u8, n: usize, param: u64);
    }
}

pub fn set(b: &[u8], param: u64) {
    unsafe { ffi::rt_set(b.as_ptr(), b.len(), param) }
}
pub fn done() {
    unsafe { ffi::rt_done() }
}
pub fn fill(b: &mut [u8]) {
    unsafe { ffi::sym_bytes(b.as_mut_ptr(), b.len()) }
}
pub fn assume(b: bool) {
    unsafe { ffi::sym_assume(b) }
}
/// Property assertion number `code`.
pub fn check(b: bool, code: u64) {
    unsafe { ffi::sym_assert(b, code) }
}
/// Observable value, compared between symbolic and native execution.
pub fn emit(v: u64) {
    unsafe { ffi::sym_emit(v) }
}
pub fn cover(v: u64) {
    unsafe { ffi::sym_cover(v) }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { ffi::sym_concretize(v) }
}
/// Instructions executed so far.
pub fn cost() -> u64 {
    unsafe { ffi::sym_cost() }
}
/// Counts natively, where costs are measured.
pub static ALLOCATED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Bytes allocated so far.
pub fn mem() -> u64 {
    unsafe { ffi::sym_mem() + ALLOCATED.load(std::sync::atomic::Ordering::Relaxed) }
}
/// How many times larger the inputs are whose cost is measured natively.
pub fn scale() -> u64 {
    unsafe { ffi::sym_scale() }
}
pub fn param() -> u64 {
    unsafe { ffi::sym_param() }
}
pub fn u8_() -> u8 {
    let mut b = [0u8; 1];
    fill(&mut b);
    b[0]
}
pub fn u32_() -> u32 {
    let mut b = [0u8; 4];
    fill(&mut b);
    u32::from_le_bytes(b)
}
pub fn u64_() -> u64 {
    let mut b = [0u8; 8];
    fill(&mut b);
    u64::from_le_bytes(b)
}
/// A value in 0..n, explored one by one.
pub fn choice(n: u64) -> u64 {
    let v = u8_() as u64;
    assume(v < n);
    concretize(v)
}
/// Digit `i` of the parameter, base 1000.
pub fn p(i: u32) -> u64 {
    param() / 1000u64.pow(i) % 1000
}
