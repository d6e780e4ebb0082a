//! Primitives provided by the symbolic executor (or by the native replayer).
extern "C" {
    fn vsym_choice(n: u64) -> u64;
    fn vsym_one(v: u64) -> u64;
    fn vsym_assume(c: bool);
    fn vsym_check(c: bool, code: u32);
    fn vsym_reach(code: u32);
    fn vsym_eq(a: u64, b: u64) -> bool;
    fn vsym_memeq(a: *const u8, n: u64, b: *const u8, m: u64) -> bool;
}
/// A fresh symbolic value in `0..n`.
pub fn choice(n: usize) -> usize {
    unsafe { vsym_choice(n as u64) as usize }
}
/// A fresh value in `0..n`, one path for each.
pub fn one(n: usize) -> usize {
    unsafe { vsym_one(vsym_choice(n as u64)) as usize }
}
pub fn assume(c: bool) {
    unsafe { vsym_assume(c) }
}
/// The property: must hold on every path, for every value of the symbolic variables.
pub fn check(c: bool, code: u32) {
    unsafe { vsym_check(c, code) }
}
/// Reachability witness.
pub fn reach(code: u32) {
    unsafe { vsym_reach(code) }
}
/// Equality as a value: does not split the path.
pub fn eq(a: usize, b: usize) -> bool {
    unsafe { vsym_eq(a as u64, b as u64) }
}
pub fn memeq(a: *const u8, n: usize, b: *const u8, m: usize) -> bool {
    unsafe { vsym_memeq(a, n as u64, b, m as u64) }
}
