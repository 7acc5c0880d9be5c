//! Harness-side interface to the symbolic executor.
//!
//! The `sym_*` functions are undefined in this crate: the executor (engine/) interprets calls to them
//! as "make a fresh symbolic value / constrain the path / assert", and the native replay binary gets
//! them from replay.c, which feeds back the concrete input vector of a counterexample.
#![allow(dead_code)]
extern "C" {
    fn sym_u8() -> u8;
    fn sym_u16() -> u16;
    fn sym_u32() -> u32;
    fn sym_u64() -> u64;
    fn sym_bool() -> bool;
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_choice(n: u32) -> u32;
    fn sym_assume(b: bool);
    fn sym_assert(b: bool, m: *const u8, n: usize);
    fn sym_fail(m: *const u8, n: usize);
    fn sym_cover(k: u32);
    fn sym_observe(v: u64);
    fn sym_concretize(v: u64) -> u64;
}
pub fn u8() -> u8 { unsafe { sym_u8() } }
pub fn u16() -> u16 { unsafe { sym_u16() } }
pub fn u32() -> u32 { unsafe { sym_u32() } }
pub fn u64() -> u64 { unsafe { sym_u64() } }
pub fn bool() -> bool { unsafe { sym_bool() } }
/// A case split: the executor explores every value 0..n on its own path.
pub fn choice(n: u32) -> u32 { unsafe { sym_choice(n) } }
pub fn assume(b: bool) { unsafe { sym_assume(b) } }
#[track_caller]
pub fn check(b: bool, m: &str) { unsafe { sym_assert(b, m.as_ptr(), m.len()) } }
#[track_caller]
pub fn fail(m: &str) -> ! { unsafe { sym_fail(m.as_ptr(), m.len()) }; loop {} }
pub fn cover(k: u32) { unsafe { sym_cover(k) } }
pub fn obs(v: u64) { unsafe { sym_observe(v) } }
pub fn obs_str(s: &str) { obs(s.len() as u64); for b in s.bytes() { obs(b as u64) } }
pub fn concretize(v: u64) -> u64 { unsafe { sym_concretize(v) } }
pub fn bytes<const N: usize>() -> [u8; N] { let mut b = [0u8; N]; unsafe { sym_bytes(b.as_mut_ptr(), N) }; b }
/// A byte out of `set` (symbolic: no case split).
pub fn byte_in(set: &[u8]) -> u8 { let b = u8(); let mut ok = false; for &c in set { ok |= b == c; } assume(ok); b }
/// A string of exactly n symbolic bytes out of `set` (ASCII).
pub fn str_in(set: &[u8], n: usize) -> String { let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(byte_in(set)); } unsafe { String::from_utf8_unchecked(v) } }
/// `pred` holds for a symbolic byte (evaluated without a case split by or-ing a membership table).
pub fn byte_where(pred: fn(u8) -> bool) -> u8 { let b = u8(); let mut ok = false; let mut c = 0u8; while c < 128 { if pred(c) { ok |= b == c; } c += 1; } assume(ok); b }
pub fn opt<T>(f: impl FnOnce() -> T) -> Option<T> { if choice(2) == 1 { Some(f()) } else { None } }
