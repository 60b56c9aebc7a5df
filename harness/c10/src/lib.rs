pub use cxx;
use core::cmp::Ordering;
use core::fmt::{self, Write as _};
use core::hash::{Hash, Hasher};
use core::pin::Pin;
use cxx::{let_cxx_string, CxxString, UniquePtr};
use std::panic::{catch_unwind, AssertUnwindSafe};
#[path = "../../common/sym.rs"]
mod sym;
use sym::*;
#[cxx::bridge]
pub mod ffi {
    unsafe extern "C++" {
        include!("c10.h");
        fn make(b: &[u8]) -> UniquePtr<CxxString>;
        fn same(s: &CxxString, b: &[u8]) -> bool;
        fn at(s: &CxxString) -> usize;
        fn cap(s: &CxxString) -> usize;
        fn add(s: Pin<&mut CxxString>, n: usize, c: u8);
        fn pop(s: Pin<&mut CxxString>);
        fn assign(s: Pin<&mut CxxString>, o: &CxxString);
        fn swap(s: Pin<&mut CxxString>, o: Pin<&mut CxxString>);
        fn cxx_cmp(s: &CxxString, o: &CxxString) -> i32;
        fn ref_utf8_(b: &[u8]) -> bool;
        fn ref_lossy_(b: &[u8], out: &mut [u8]) -> usize;
    }
}
struct Buf { b: [u8; 96], n: usize }
impl Buf { fn new() -> Buf { Buf { b: [0; 96], n: 0 } } fn get(&self) -> &[u8] { &self.b[..self.n] } fn put(&mut self, s: &[u8]) { self.b[self.n..self.n + s.len()].copy_from_slice(s); self.n += s.len(); } }
impl fmt::Write for Buf { fn write_str(&mut self, s: &str) -> fmt::Result { self.put(s.as_bytes()); Ok(()) } }
/// Records what is hashed.
struct Rec(Buf);
impl Hasher for Rec { fn write(&mut self, b: &[u8]) { self.0.put(b) } fn finish(&self) -> u64 { 0 } }
fn content(max: usize, name: &core::ffi::CStr) -> Vec<u8> { let n = choice(max + 1, c"n"); let mut b = vec![0u8; n]; fill(&mut b, name); b }
const LONG: [usize; 7] = [14, 15, 16, 17, 30, 31, 64];
fn long(name: &core::ffi::CStr) -> Vec<u8> { let n = LONG[choice(LONG.len(), c"long")]; let mut b = vec![b'k'; n]; let at = [0, n / 2, n - 1][choice(3, c"where")]; fill(&mut b[at..at + 1], name); b }
macro_rules! clean { ($($t:tt)*) => {{ let l0 = live(); { $($t)* } check(live() == l0, c"destroyed-once"); reach(c"done"); }} }
fn reads(s: &CxxString, b: &[u8]) {
    check(s.len() == b.len(), c"len"); check(s.is_empty() == b.is_empty(), c"is_empty"); check(s.as_ptr() as usize == ffi::at(s), c"as_ptr");
    let v = s.as_bytes(); check(v.as_ptr() == s.as_ptr() && eq(v, b), c"as_bytes"); check(ffi::same(s, b), c"same-in-c++");
}
#[no_mangle]
extern "C" fn h_read() { clean! {
    let b = if choice(2, c"heap") == 1 { long(c"b") } else { content(if thorough() { 5 } else { 4 }, c"b") }; let s = ffi::make(&b); let s = s.as_ref().unwrap();
    reads(s, &b);
    let c = s.as_c_str().to_bytes(); let end = b.iter().position(|x| *x == 0).unwrap_or(b.len()); check(eq(c, &b[..end]), c"as_c_str"); check(c.as_ptr() == s.as_ptr(), c"as_c_str-ptr");
} }
#[no_mangle]
extern "C" fn h_utf8() { clean! {
    let b = if choice(2, c"heap") == 1 { long(c"b") } else { content(if thorough() { 5 } else { 4 }, c"b") }; let s = ffi::make(&b); let s = s.as_ref().unwrap();
    let ok = ffi::ref_utf8_(&b);
    match s.to_str() { Ok(t) => { check(ok, c"to_str-valid"); check(t.as_ptr() == s.as_ptr() && eq(t.as_bytes(), &b), c"to_str-text"); } Err(e) => { check(!ok, c"to_str-invalid"); check(ffi::ref_utf8_(&b[..e.valid_up_to()]), c"valid_up_to"); } }
    let mut o = [0u8; 200]; let n = ffi::ref_lossy_(&b, &mut o);
    let l = s.to_string_lossy(); check(eq(l.as_bytes(), &o[..n]), c"to_string_lossy"); check(matches!(l, std::borrow::Cow::Borrowed(_)) == ok, c"lossy-borrows");
    if b.len() < 20 { let mut w = Buf::new(); write!(w, "{}", s).unwrap(); check(eq(w.get(), &o[..n]), c"display"); }
} }
#[no_mangle]
extern "C" fn h_debug() { clean! {
    // pieces: any ASCII byte, any byte that starts no sequence, a lead byte alone, and multi-byte characters with various escapes
    let mut b = Vec::new();
    for _ in 0..choice(if thorough() { 4 } else { 3 }, c"n") { match choice(4, c"kind") {
        0 => { let x = u8_(c"b"); assume(x < 0x80); b.push(x) } 1 => { let x = u8_(c"b"); assume(or(and(x >= 0x80, x < 0xc2), x > 0xf4)); b.push(x) } 2 => b.push([0xc3, 0xe0, 0xf0][choice(3, c"lead")]),
        _ => b.extend_from_slice(["é", "\u{a0}", "漢", "\u{200b}", "\u{301}", "😀", "\u{e000}"][choice(7, c"char")].as_bytes()) } }
    let s = ffi::make(&b); let s = s.as_ref().unwrap();
    let mut w = Buf::new(); write!(w, "{:?}", s).unwrap();
    let mut o = Buf::new(); o.put(b"\"");
    for ch in b.utf8_chunks() { for c in ch.valid().chars() { if c == '\'' { o.put(b"'") } else { for x in c.escape_debug() { let mut t = [0; 4]; o.put(x.encode_utf8(&mut t).as_bytes()) } } } for x in ch.invalid() { let h = b"0123456789abcdef"; o.put(&[b'\\', b'x', h[(x >> 4) as usize], h[(x & 15) as usize]]) } }
    o.put(b"\"");
    check(eq(w.get(), o.get()), c"debug");
} }
#[no_mangle]
extern "C" fn h_compare() { clean! {
    let k = if thorough() { 4 } else { 3 };
    let a = content(k, c"a"); let b = content(k, c"b"); let s = ffi::make(&a); let t = ffi::make(&b); let (s, t) = (s.as_ref().unwrap(), t.as_ref().unwrap());
    // reference order: unsigned bytes, shorter prefix first
    let mut want = Ordering::Equal; for i in 0..a.len().min(b.len()) { if a[i] != b[i] { want = if a[i] < b[i] { Ordering::Less } else { Ordering::Greater }; break; } } if want == Ordering::Equal { want = if a.len() < b.len() { Ordering::Less } else if a.len() > b.len() { Ordering::Greater } else { Ordering::Equal }; }
    check(s.cmp(t) == want, c"cmp"); check(s.partial_cmp(t) == Some(want), c"partial_cmp"); check((s == t) == (want == Ordering::Equal), c"eq"); check((s != t) == (want != Ordering::Equal), c"ne");
    check((s < t) == (want == Ordering::Less), c"lt"); check((s >= t) == (want != Ordering::Less), c"ge");
    let c = ffi::cxx_cmp(s, t); check((c < 0) == (want == Ordering::Less) && (c > 0) == (want == Ordering::Greater), c"as-c++-orders");
    let mut h = Rec(Buf::new()); s.hash(&mut h); let mut g = Rec(Buf::new()); t.hash(&mut g); let mut z = Rec(Buf::new()); a[..].hash(&mut z);
    if want == Ordering::Equal { check(eq(h.0.get(), g.0.get()), c"hash-agrees-with-eq"); } else { check(!eq(h.0.get(), g.0.get()), c"hash-tells-apart"); }
    check(eq(h.0.get(), z.0.get()), c"hash-of-bytes");
    if let Ok(u) = core::str::from_utf8(&b) { check((s == u) == (want == Ordering::Equal), c"eq-str"); check((u == s) == (want == Ordering::Equal), c"str-eq"); }
} }
fn step(s: &mut Pin<&mut CxxString>, m: &mut Vec<u8>) {
    match choice(9, c"op") {
        0 => { let n = choice(3, c"k"); let mut b = [0u8; 2]; fill(&mut b[..n], c"x"); s.as_mut().push_bytes(&b[..n]); m.extend_from_slice(&b[..n]); }
        1 => { let c = ['a', 'é', '\0', '漢'][choice(4, c"c")]; let mut t = [0; 4]; let t = c.encode_utf8(&mut t); s.as_mut().push_str(t); m.extend_from_slice(t.as_bytes()); }
        2 => { s.as_mut().clear(); m.clear(); }
        3 => { let n = [0, 1, 15, 16, 40][choice(5, c"additional")]; s.as_mut().reserve(n); check(ffi::cap(s) >= m.len() + n, c"reserve"); }
        4 => { check(write!(s, "{}", 42).is_ok(), c"write-fmt"); m.extend_from_slice(b"42"); }
        5 => { let n = [1, 14, 20][choice(3, c"k")]; let c = u8_(c"c"); ffi::add(s.as_mut(), n, c); m.resize(m.len() + n, c); }
        6 => { if !m.is_empty() { ffi::pop(s.as_mut()); m.pop(); } }
        7 => { use std::io::Write; let b = [u8_(c"c"), 0, 0xff]; let r = Write::write(s, &b); check(matches!(r, Ok(3)), c"io-write"); check(Write::flush(s).is_ok(), c"io-flush"); m.extend_from_slice(&b); }
        _ => { let b = [b'L'; 18]; s.as_mut().push_bytes(&b); m.extend_from_slice(&b); }
    }
    reads(s, m);
}
#[no_mangle]
extern "C" fn h_ops() { clean! { let mut m = content(1, c"b"); let mut s = ffi::make(&m); for _ in 0..if thorough() { 4 } else { 3 } { step(&mut s.pin_mut(), &mut m); } } }
#[no_mangle]
extern "C" fn h_stack_ops() { clean! { let mut m = content(1, c"b"); let_cxx_string!(s = &m); for _ in 0..if thorough() { 3 } else { 2 } { step(&mut s, &mut m); } } }
#[no_mangle]
extern "C" fn h_stack() { clean! {
    let b = if choice(2, c"heap") == 1 { long(c"b") } else { content(4, c"b") };
    let_cxx_string!(s = &b[..]); reads(&s, &b); drop(b); let b: Vec<u8> = s.as_bytes().to_vec(); reads(&s, &b);
    { let_cxx_string!(t = "second"); match choice(3, c"how") { 0 => { ffi::assign(t.as_mut(), &s); reads(&t, &b); } 1 => { ffi::swap(t.as_mut(), s.as_mut()); reads(&t, &b); reads(&s, b"second"); ffi::swap(t, s.as_mut()); } _ => ffi::add(t, 40, 1) } }
    reads(&s, &b);
    let_cxx_string!(u = String::from("temporary, long enough for the heap")); reads(&u, b"temporary, long enough for the heap"); let _ = u;
} }
struct Bad(bool);
impl AsRef<[u8]> for Bad { fn as_ref(&self) -> &[u8] { if self.0 { panic!("as_ref") } b"fine" } }
fn early(o: Option<&[u8]>) -> Option<usize> { let_cxx_string!(s = o?); Some(s.len()) }
#[inline(never)]
fn dirty() { let mut a = [0x41u8; 256]; core::hint::black_box(&mut a); }
#[no_mangle]
extern "C" fn h_stack_abandoned() { // the initializer never produces a value
    match choice(3, c"how") {
        0 => clean! { dirty(); let some = choice(2, c"some") == 1; check(early(if some { Some(b"abc") } else { None }) == if some { Some(3) } else { None }, c"early-return"); },
        1 => clean! { for i in 0..2 { dirty(); let_cxx_string!(s = if i == 0 { continue } else { "abc" }); check(s.len() == 3, c"continue"); } },
        _ => { let bad = choice(2, c"bad") == 1; dirty(); let r = catch_unwind(AssertUnwindSafe(|| { let_cxx_string!(s = Bad(bad)); s.len() })); check(r.is_err() == bad, c"panicking-initializer"); drop(r); reach(c"done"); }
    }
}
#[no_mangle]
extern "C" fn h_reserve() { // capacity overflow panics instead of wrapping around
    let n = choice(3, c"n"); let less = range(0, 15, c"less") as usize; let add = usize::MAX - less; let mut s: UniquePtr<CxxString> = ffi::make(&[b'x'; 20][..n * 10]);
    let over = less < n * 10; expect_abort(!over); // beyond max_size() without overflowing: the C++ side cannot report it
    let r = catch_unwind(AssertUnwindSafe(|| s.pin_mut().reserve(add))); expect_abort(false); check(over && r.is_err(), c"reserve-overflow"); drop(r); reads(s.as_ref().unwrap(), &[b'x'; 20][..n * 10]); reach(c"done");
}
