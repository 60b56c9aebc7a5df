pub use cxx;
use core::cmp::Ordering;
unsafe fn s<'a>(p: *const u8, n: usize) -> &'a str { core::str::from_utf8_unchecked(core::slice::from_raw_parts(p, n)) }
/// Rust's own comparison of the two strings.
#[no_mangle]
unsafe extern "C" fn rs_cmp(p: *const u8, n: usize, q: *const u8, m: usize) -> i32 {
    match Ord::cmp(s(p, n), s(q, m)) { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 }
}
#[no_mangle]
unsafe extern "C" fn rs_eq(p: *const u8, n: usize, q: *const u8, m: usize) -> bool { s(p, n) == s(q, m) }
