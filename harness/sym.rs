//! Symbolic-input API. In the IR these are external functions that the executor interprets;
//! natively they are defined by stub.c and read a recorded input vector.
extern "C" {
    fn vsym_val(bits: u32) -> u64;
    fn vsym_choice(n: u64) -> u64;
    fn vsym_concretize(v: u64) -> u64;
    fn vsym_assume(c: u32);
    fn vsym_check(c: u32, msg: *const u8, len: usize);
    fn vsym_reach(id: u32);
    fn vsym_observe(v: u64);
    fn vsym_done();
    fn vsym_stub(id: u32, on: u32);
}

/// Fresh symbolic values: any value of the type.
#[inline(always)]
pub fn u8() -> u8 {
    unsafe { vsym_val(8) as u8 }
}
#[inline(always)]
pub fn u16() -> u16 {
    unsafe { vsym_val(16) as u16 }
}
#[inline(always)]
pub fn u32() -> u32 {
    unsafe { vsym_val(32) as u32 }
}
#[inline(always)]
pub fn u64() -> u64 {
    unsafe { vsym_val(64) }
}
#[inline(always)]
pub fn bool() -> bool {
    unsafe { (vsym_val(8) & 1) != 0 }
}
/// A fresh symbolic value in 0..n that stays symbolic.
#[inline(always)]
pub fn below(n: u8) -> u8 {
    let v = u8();
    assume(v < n);
    v
}
/// A fresh symbolic value in 0..n on which exploration forks immediately (used for the shape of
/// inputs, which decides control flow anyway).
#[inline(always)]
pub fn choice(n: usize) -> usize {
    unsafe { vsym_choice(n as u64) as usize }
}
/// Fork on every feasible value of `v`.
#[inline(always)]
pub fn concretize(v: u64) -> u64 {
    unsafe { vsym_concretize(v) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { vsym_assume(c as u32) }
}
/// The property: must hold for every value that reaches it.
#[inline(always)]
pub fn check(c: bool, msg: &'static str) {
    unsafe { vsym_check(c as u32, msg.as_ptr(), msg.len()) }
}
/// Reachability witness: the run is vacuous unless every declared id is reached.
#[inline(always)]
pub fn reach(id: u32) {
    unsafe { vsym_reach(id) }
}
/// Record a value; the executor's value and the native replay's must agree.
#[inline(always)]
pub fn observe(v: u64) {
    unsafe { vsym_observe(v) }
}
pub fn done() {
    unsafe { vsym_done() }
}
/// Stop (1) or resume (0) replacing `alloc::fmt::format` by an empty string.
pub fn real_format() {
    unsafe { vsym_stub(1, 0) }
}
