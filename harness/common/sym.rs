// Rust face of sym.h. Names are C strings: use c"name".
#![allow(dead_code)]
use core::ffi::{c_char, c_void, CStr};
extern "C" {
    fn sym_u64(bits: u64, name: *const c_char) -> u64;
    fn sym_range(lo: u64, hi: u64, name: *const c_char) -> u64;
    fn sym_choice(n: u64, name: *const c_char) -> u64;
    fn sym_bytes(p: *mut c_void, n: usize, name: *const c_char);
    fn sym_assume(c: i32);
    fn sym_assert(c: i32, id: *const c_char);
    fn sym_reach(id: *const c_char);
    fn sym_note_n(s: *const c_char, n: usize);
    fn sym_live() -> u64;
    fn sym_expect_abort(on: i32);
    fn sym_concrete(v: u64) -> u64;
    fn sym_and(a: i32, b: i32) -> i32;
    fn sym_or(a: i32, b: i32) -> i32;
    fn sym_ite(c: i32, a: u64, b: u64) -> u64;
    fn sym_eqn(a: *const c_void, b: *const c_void, n: usize) -> i32;
    fn sym_find(h: *const c_void, hn: usize, q: *const c_void, n: usize, from: usize) -> u64;
    fn sym_contains(h: *const c_void, hn: usize, q: *const c_void, n: usize) -> i32;
    fn sym_on_engine() -> i32;
    fn sym_tier() -> i32;
    fn sym_exit();
}
pub fn u64_(bits: u64, n: &CStr) -> u64 { unsafe { sym_u64(bits, n.as_ptr()) } }
pub fn u8_(n: &CStr) -> u8 { u64_(8, n) as u8 }
pub fn u32_(n: &CStr) -> u32 { u64_(32, n) as u32 }
pub fn range(lo: u64, hi: u64, n: &CStr) -> u64 { unsafe { sym_range(lo, hi, n.as_ptr()) } }
pub fn choice(k: usize, n: &CStr) -> usize { unsafe { sym_choice(k as u64, n.as_ptr()) as usize } }
pub fn bytes<const N: usize>(n: &CStr) -> [u8; N] { let mut b = [0u8; N]; unsafe { sym_bytes(b.as_mut_ptr().cast(), N, n.as_ptr()) }; b }
pub fn fill(b: &mut [u8], n: &CStr) { unsafe { sym_bytes(b.as_mut_ptr().cast(), b.len(), n.as_ptr()) } }
pub fn assume(c: bool) { unsafe { sym_assume(c as i32) } }
pub fn check(c: bool, id: &CStr) { unsafe { sym_assert(c as i32, id.as_ptr()) } }
pub fn reach(id: &CStr) { unsafe { sym_reach(id.as_ptr()) } }
pub fn note(s: &str) { unsafe { sym_note_n(s.as_ptr().cast(), s.len()) } }
pub fn live() -> u64 { unsafe { sym_live() } }
pub fn expect_abort(on: bool) { unsafe { sym_expect_abort(on as i32) } }
pub fn concrete(v: u64) -> u64 { unsafe { sym_concrete(v) } }
pub fn and(a: bool, b: bool) -> bool { unsafe { sym_and(a as i32, b as i32) != 0 } }
pub fn or(a: bool, b: bool) -> bool { unsafe { sym_or(a as i32, b as i32) != 0 } }
pub fn ite(c: bool, a: u64, b: u64) -> u64 { unsafe { sym_ite(c as i32, a, b) } }
pub fn on_engine() -> bool { unsafe { sym_on_engine() != 0 } }
pub fn thorough() -> bool { unsafe { sym_tier() != 0 } }
pub fn exit() { unsafe { sym_exit() } }
/// Byte equality without a branch per byte.
pub fn eq(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && unsafe { sym_eqn(a.as_ptr().cast(), b.as_ptr().cast(), a.len()) != 0 } }
/// First occurrence of `n` in `h` at or after `from`; paths part only where the inputs decide it.
pub fn position(h: &[u8], n: &[u8], from: usize) -> Option<usize> { let r = unsafe { sym_find(h.as_ptr().cast(), h.len(), n.as_ptr().cast(), n.len(), from) }; if r == u64::MAX { None } else { Some(r as usize) } }
/// Does `n` occur in `h`? No control flow.
pub fn occurs(h: &[u8], n: &[u8]) -> bool { unsafe { sym_contains(h.as_ptr().cast(), h.len(), n.as_ptr().cast(), n.len()) != 0 } }
