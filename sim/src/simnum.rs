//! `SimNum`: a user-defined number type. Every operation the library performs on it is counted, and the fault plan
//! can make the n-th one fail with a panic, the way overflow checks, checked arithmetic types and division by zero do.
//! It wraps an f64 and is meant for values on which f64 arithmetic is exact.

#[cfg(not(feature = "stand_in"))]
pub use crate::simnum_impl::SimNum;
/// In a library whose traits ask more of a number type than `SimNum` offers, an ordinary type takes its place, and no
/// component operation fails on demand.
#[cfg(feature = "stand_in")]
pub type SimNum = fixed::FixedI64<fixed::types::extra::U24>;

extern "C" {
    fn vs_num_get(i: i32) -> u64;
    fn vs_num_set(i: i32, v: u64);
    fn vs_num_op() -> i32;
}

pub struct SimFault;

/// Component operation number `at` (from 1) of the following library call fails; 0 means none does.
pub fn plan_fault(at: u64) {
    restore((0, at));
}
pub fn save() -> (u64, u64) {
    unsafe { (vs_num_get(0), vs_num_get(1)) }
}
pub fn restore(s: (u64, u64)) {
    unsafe {
        vs_num_set(0, s.0);
        vs_num_set(1, s.1);
    }
}
pub fn ops_done() -> u64 {
    save().0
}
#[inline(never)]
#[cfg_attr(feature = "stand_in", allow(dead_code))]
pub fn op() {
    if unsafe { vs_num_op() } != 0 {
        std::panic::panic_any(SimFault);
    }
}
