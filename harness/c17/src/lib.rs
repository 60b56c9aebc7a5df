// C17: comparison operators, hashing, Clone, Copy, Default and Debug derived by the bridge, against a reference order.
#[path = "../../common/sym.rs"]
mod sym;
use std::fmt::Debug;
use sym::*;

#[cxx::bridge]
pub mod ffi {
    #[derive(Copy, Clone, Debug, Default, PartialEq, PartialOrd)]
    struct Flt { a: f64, b: u8, c: f32 }
    #[derive(Copy, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
    struct Full { a: i32, b: u8, c: u64, d: bool, e: i16 }
    #[derive(Ord, Hash, Clone, PartialOrd, Default, Eq, Debug, PartialEq)]
    struct Text { s: String, n: i8, v: Vec<u16> }
    #[derive(PartialOrd, PartialEq, Clone, Debug)]
    struct TextP { v: Vec<f32>, s: String }
    #[derive(PartialEq, PartialOrd, Copy, Clone, Debug)]
    struct NestP { x: Flt, e: En, f: Full }
    #[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Debug)]
    struct NestF { e: En, f: Full, t: Text, a: [u8; 3], i: isize }
    #[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
    struct Own { r: Box<R>, u: UniquePtr<CxxString>, w: Vec<String> }
    #[derive(PartialEq, Eq, Hash)]
    struct EqOnly { a: u32, b: bool, c: usize }
    #[derive(PartialEq)]
    struct PeOnly { f: f32, g: f64 }
    // The user writes PartialEq, Eq and Ord: only the ordering operators exist in C++.
    #[derive(PartialOrd)]
    struct OrdOnly { a: i64, b: f32 }
    // The user writes Eq and Ord by hand.
    #[derive(PartialEq, PartialOrd)]
    struct Manual { a: u16, b: i8 }
    #[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy, Debug)]
    struct Refs<'a> { s: &'a str, n: &'a u32, b: &'a [u8] }
    #[namespace = "deep::er"]
    #[cxx_name = "Renamed"]
    #[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Debug, Default)]
    struct InNs { #[cxx_name = "z"] a: u8, #[cxx_name = "a"] z: i8 }
    #[derive(PartialEq, PartialOrd)]
    struct Chars { c: c_char, p: *const u8 }

    #[derive(Debug, PartialOrd, Ord, Hash)]
    enum En { A = 3, B = 200, C = 7 }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
    #[repr(i16)]
    enum Neg { Minus = -5, Zero = 0, Plus }
    #[derive(Debug, PartialOrd)]
    #[repr(u64)]
    enum Big { Top = 0xffff_ffff_ffff_ffff, Low = 1 }

    extern "Rust" { type R; }
    unsafe extern "C++" {
        include!("t.h");
        #[cxx_name = "all_ops"] fn ops_flt(a: &Flt, b: &Flt) -> u8;
        #[cxx_name = "all_ops"] fn ops_full(a: &Full, b: &Full) -> u8;
        #[cxx_name = "all_ops"] fn ops_text(a: &Text, b: &Text) -> u8;
        #[cxx_name = "all_ops"] fn ops_textp(a: &TextP, b: &TextP) -> u8;
        #[cxx_name = "all_ops"] fn ops_nestp(a: &NestP, b: &NestP) -> u8;
        #[cxx_name = "all_ops"] fn ops_nestf(a: &NestF, b: &NestF) -> u8;
        #[cxx_name = "all_ops"] fn ops_own(a: &Own, b: &Own) -> u8;
        #[cxx_name = "eq_ops"] fn ops_eqonly(a: &EqOnly, b: &EqOnly) -> u8;
        #[cxx_name = "eq_ops"] fn ops_peonly(a: &PeOnly, b: &PeOnly) -> u8;
        #[cxx_name = "ord_ops"] fn ops_ordonly(a: &OrdOnly, b: &OrdOnly) -> u8;
        #[cxx_name = "all_ops"] fn ops_manual(a: &Manual, b: &Manual) -> u8;
        #[cxx_name = "all_ops"] fn ops_refs(a: &Refs, b: &Refs) -> u8;
        #[cxx_name = "all_ops"] fn ops_inns(a: &InNs, b: &InNs) -> u8;
        #[cxx_name = "all_ops"] fn ops_chars(a: &Chars, b: &Chars) -> u8;
        #[cxx_name = "all_ops"] fn ops_en(a: &En, b: &En) -> u8;
        #[cxx_name = "all_ops"] fn ops_neg(a: &Neg, b: &Neg) -> u8;
        #[cxx_name = "all_ops"] fn ops_big(a: &Big, b: &Big) -> u8;
        fn hash_full(a: &Full) -> usize;
        fn hash_text(a: &Text) -> usize;
        fn hash_nestf(a: &NestF) -> usize;
        fn hash_own(a: &Own) -> usize;
        fn hash_eqonly(a: &EqOnly) -> usize;
        fn hash_refs(a: &Refs) -> usize;
        fn hash_inns(a: &InNs) -> usize;
        fn mk_string(v: &[u8]) -> UniquePtr<CxxString>;
    }
}
use ffi::*;

/// An opaque Rust type whose own order is the reverse of its number's and ignores the second field.
pub struct R { n: u8, #[allow(dead_code)] noise: u8 }
impl PartialEq for R { fn eq(&self, o: &R) -> bool { self.n == o.n } }
impl Eq for R {}
impl Ord for R { fn cmp(&self, o: &R) -> core::cmp::Ordering { o.n.cmp(&self.n) } }
impl PartialOrd for R { fn partial_cmp(&self, o: &R) -> Option<core::cmp::Ordering> { Some(self.cmp(o)) } }
impl core::hash::Hash for R { fn hash<H: core::hash::Hasher>(&self, h: &mut H) { self.n.hash(h) } }
impl PartialEq for OrdOnly { fn eq(&self, o: &OrdOnly) -> bool { self.a == o.a && self.b == o.b } }
impl Eq for Manual {}
impl Ord for Manual { fn cmp(&self, o: &Manual) -> core::cmp::Ordering { self.partial_cmp(o).unwrap() } }

/// The reference order: -1 less, 0 equal, 1 greater, 2 unordered.
trait Reference { fn c(&self, o: &Self) -> i32; }
macro_rules! num { ($($t:ty)*) => { $(impl Reference for $t { fn c(&self, o: &Self) -> i32 { if *self < *o { -1 } else if *self > *o { 1 } else if *self == *o { 0 } else { 2 } } })* } }
num!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize f32 f64 bool *const u8);
fn seq<T: Reference>(a: &[T], b: &[T]) -> i32 { let mut i = 0; while i < a.len() && i < b.len() { let c = a[i].c(&b[i]); if c != 0 { return c; } i += 1; } a.len().c(&b.len()) }
impl Reference for str { fn c(&self, o: &str) -> i32 { seq(self.as_bytes(), o.as_bytes()) } }
impl Reference for String { fn c(&self, o: &String) -> i32 { seq(self.as_bytes(), o.as_bytes()) } }
impl<T: Reference> Reference for Vec<T> { fn c(&self, o: &Self) -> i32 { seq(self, o) } }
impl<T: Reference, const N: usize> Reference for [T; N] { fn c(&self, o: &Self) -> i32 { seq(self, o) } }
impl<T: Reference> Reference for [T] { fn c(&self, o: &Self) -> i32 { seq(self, o) } }
impl<T: Reference + ?Sized> Reference for &T { fn c(&self, o: &Self) -> i32 { (**self).c(*o) } }
impl Reference for Box<R> { fn c(&self, o: &Self) -> i32 { o.n.c(&self.n) } }
impl Reference for cxx::UniquePtr<cxx::CxxString> {
    fn c(&self, o: &Self) -> i32 { match (self.as_ref(), o.as_ref()) { (None, None) => 0, (None, _) => -1, (_, None) => 1, (Some(a), Some(b)) => seq(a.as_bytes(), b.as_bytes()) } }
}
macro_rules! st { ($($t:ty { $($f:ident)* })*) => { $(impl Reference for $t { fn c(&self, o: &Self) -> i32 { $(let c = self.$f.c(&o.$f); if c != 0 { return c; })* 0 } })* } }
st!(Flt { a b c } Full { a b c d e } Text { s n v } TextP { v s } NestP { x e f } NestF { e f t a i } Own { r u w } EqOnly { a b c } PeOnly { f g } OrdOnly { a b } Manual { a b } Refs<'_> { s n b } InNs { a z } Chars { c p } En { repr } Neg { repr } Big { repr });

/// A fresh symbolic value.
trait Sym { fn sym(name: &'static core::ffi::CStr) -> Self; }
macro_rules! int { ($($t:ty)*) => { $(impl Sym for $t { fn sym(n: &'static core::ffi::CStr) -> Self { u64_(core::mem::size_of::<$t>() as u64 * 8, n) as $t } })* } }
int!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize *const u8);
impl Sym for bool { fn sym(n: &'static core::ffi::CStr) -> Self { u64_(1, n) != 0 } }
impl Sym for f32 { fn sym(n: &'static core::ffi::CStr) -> Self { f32::from_bits(u64_(32, n) as u32) } }
impl Sym for f64 { fn sym(n: &'static core::ffi::CStr) -> Self { f64::from_bits(u64_(64, n)) } }
fn len() -> usize { choice(if thorough() { 4 } else { 3 }, c"length") }
fn ascii() -> Vec<u8> { (0..len()).map(|_| u64_(7, c"char") as u8).collect() }
impl Sym for String { fn sym(_: &'static core::ffi::CStr) -> Self { unsafe { String::from_utf8_unchecked(ascii()) } } }
impl<T: Sym> Sym for Vec<T> { fn sym(n: &'static core::ffi::CStr) -> Self { (0..choice(3, c"length")).map(|_| T::sym(n)).collect() } }
impl<T: Sym, const N: usize> Sym for [T; N] { fn sym(n: &'static core::ffi::CStr) -> Self { core::array::from_fn(|_| T::sym(n)) } }
impl Sym for Box<R> { fn sym(n: &'static core::ffi::CStr) -> Self { Box::new(R { n: u8::sym(n), noise: u8::sym(c"noise") }) } }
impl Sym for cxx::UniquePtr<cxx::CxxString> { fn sym(_: &'static core::ffi::CStr) -> Self { if choice(2, c"null") == 1 { cxx::UniquePtr::null() } else { mk_string(&ascii()) } } }
macro_rules! fresh { ($($t:ident { $($f:ident)* })*) => { $(impl Sym for $t { fn sym(_: &'static core::ffi::CStr) -> Self { $t { $($f: Sym::sym(unsafe { core::ffi::CStr::from_bytes_with_nul_unchecked(concat!(stringify!($f), "\0").as_bytes()) })),* } } })* } }
fresh!(Flt { a b c } Full { a b c d e } Text { s n v } TextP { v s } NestP { x e f } NestF { e f t a i } Own { r u w } EqOnly { a b c } PeOnly { f g } OrdOnly { a b } Manual { a b } InNs { a z } Chars { c p } En { repr } Neg { repr } Big { repr });

fn bits(c: i32) -> u8 { (c == 0) as u8 | ((c != 0) as u8) << 1 | ((c == -1) as u8) << 2 | ((c == -1 || c == 0) as u8) << 3 | ((c == 1) as u8) << 4 | ((c == 1 || c == 0) as u8) << 5 }
const EQ: u8 = 3; const ORD: u8 = 60; const ALL: u8 = 63;
fn cpp(ops: u8, c: i32, mask: u8) { let w = bits(c); for (i, n) in [c"cpp-eq", c"cpp-ne", c"cpp-lt", c"cpp-le", c"cpp-gt", c"cpp-ge"].iter().enumerate() { if mask >> i & 1 == 1 { check((ops ^ w) >> i & 1 == 0, n); } } }
fn eq_rust<T: PartialEq>(a: &T, b: &T, c: i32) { check((a == b) == (c == 0), c"rust-eq"); check((a != b) == (c != 0), c"rust-ne"); }
fn ord_rust<T: PartialOrd>(a: &T, b: &T, c: i32) {
    check(a.partial_cmp(b).map_or(2, |o| o as i32) == c, c"rust-partial-cmp"); check((a < b) == (c == -1) && (a <= b) == (c == -1 || c == 0) && (a > b) == (c == 1) && (a >= b) == (c == 0 || c == 1), c"rust-order");
}
fn total<T: Ord>(a: &T, b: &T, c: i32) { check(a.cmp(b) as i32 == c, c"rust-cmp"); }
fn hashes(a: usize, b: usize, c: i32) { if c == 0 { check(a == b, c"equal-values-hash-alike"); reach(c"equal"); } }
fn std_hash<T: core::hash::Hash>(t: &T) -> u64 { use std::hash::{DefaultHasher, Hasher}; let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }
fn rust_hashes<T: core::hash::Hash>(a: &T, b: &T, c: i32) { if c == 0 { check(std_hash(a) == std_hash(b), c"equal-values-hash-alike-in-rust"); } }
fn clones<T: Clone + Reference>(a: &T) { let d = a.clone(); let c = a.c(a); check(c == 2 || d.c(a) == c, c"clone"); }
fn copies<T: Copy>(_: &T) {}

macro_rules! entry { ($name:ident, $t:ty, $ops:ident, $mask:expr $(, $extra:expr)*) => {
    #[no_mangle] extern "C" fn $name() {
        let l0 = live();
        { let a = <$t>::sym(c"a"); let b = <$t>::sym(c"b"); let c = a.c(&b);
          cpp($ops(&a, &b), c, $mask);
          $( let f: fn(&$t, &$t, i32) = $extra; f(&a, &b, c); )* }
        check(live() == l0, c"leak"); reach(c"done");
    }
} }
entry!(h_flt, Flt, ops_flt, ALL, eq_rust, ord_rust, |a, _, _| { copies(a); clone_flt(a) });
entry!(h_full, Full, ops_full, ALL, eq_rust, ord_rust, total, |a, _, _| { copies(a); clones(a) });
entry!(h_full_hash, Full, ops_full, EQ, rust_hashes, |a, b, c| hashes(hash_full(a), hash_full(b), c));
entry!(h_text, Text, ops_text, ALL, eq_rust, ord_rust, total);
entry!(h_text_hash, Text, ops_text, EQ, rust_hashes, |a, b, c| hashes(hash_text(a), hash_text(b), c));
entry!(h_textp, TextP, ops_textp, ALL, eq_rust, ord_rust);
entry!(h_nestp, NestP, ops_nestp, ALL, eq_rust, ord_rust, |a, _, _| copies(a));
entry!(h_nestf_shape_deep, NestF, ops_nestf, ALL, eq_rust, ord_rust, total);
entry!(h_own, Own, ops_own, ALL, eq_rust, ord_rust, total, rust_hashes, |a, b, c| hashes(hash_own(a), hash_own(b), c));
entry!(h_eqonly, EqOnly, ops_eqonly, EQ, eq_rust, rust_hashes, |a, b, c| hashes(hash_eqonly(a), hash_eqonly(b), c));
entry!(h_peonly, PeOnly, ops_peonly, EQ, eq_rust);
entry!(h_ordonly, OrdOnly, ops_ordonly, ORD, ord_rust);
entry!(h_manual, Manual, ops_manual, ALL, eq_rust, ord_rust);
entry!(h_inns, InNs, ops_inns, ALL, eq_rust, ord_rust, total, rust_hashes, |a, b, c| hashes(hash_inns(a), hash_inns(b), c), |a, _, _| clones(a));
entry!(h_chars, Chars, ops_chars, ALL, eq_rust, ord_rust);
entry!(h_en, En, ops_en, ALL, eq_rust, ord_rust, total, rust_hashes, |a, _, _| { copies(a); clones(a) });
entry!(h_neg, Neg, ops_neg, ALL, eq_rust, ord_rust, total, |a, _, _| { copies(a); clones(a) });
entry!(h_big, Big, ops_big, ALL, eq_rust, ord_rust, |a, _, _| { copies(a); clones(a) });

fn clone_flt(a: &Flt) { let d = a.clone(); check(d.a.to_bits() == a.a.to_bits() && d.b == a.b && d.c.to_bits() == a.c.to_bits(), c"clone"); }

#[no_mangle] extern "C" fn h_refs() {
    let (s, t, n, m) = (String::sym(c"s"), String::sym(c"t"), u32::sym(c"n"), u32::sym(c"m")); let bytes = [u8::sym(c"b"), u8::sym(c"b"), u8::sym(c"b")]; let (i, j) = (choice(3, c"i"), choice(3, c"j"));
    let a = Refs { s: &s, n: &n, b: &bytes[i..] }; let b = Refs { s: &t, n: if choice(2, c"same") == 1 { &n } else { &m }, b: &bytes[j..] }; let c = a.c(&b);
    cpp(ops_refs(&a, &b), c, ALL); eq_rust(&a, &b, c); ord_rust(&a, &b, c); total(&a, &b, c); hashes(hash_refs(&a), hash_refs(&b), c); rust_hashes(&a, &b, c); copies(&a);
    let d = a.clone(); check(d.s.as_ptr() == a.s.as_ptr() && d.n as *const u32 == a.n as *const u32 && d.b.as_ptr() == a.b.as_ptr() && d.b.len() == a.b.len(), c"clone"); reach(c"done");
}
// Two values that differ in at most one leaf of the nested structs.
#[no_mangle] extern "C" fn h_nestf() {
    let f = Full { a: 5, b: 1, c: 9, d: true, e: -3 };
    let mk = || NestF { e: En::B, f, t: Text { s: String::from("abc"), n: -4, v: vec![1, 2] }, a: [7, 8, 9], i: -1 };
    let (mut a, mut b) = (mk(), mk());
    match choice(13, c"leaf") {
        0 => { a.e.repr = Sym::sym(c"a"); b.e.repr = Sym::sym(c"b"); } 1 => { a.f.a = Sym::sym(c"a"); b.f.a = Sym::sym(c"b"); } 2 => { a.f.b = Sym::sym(c"a"); b.f.b = Sym::sym(c"b"); } 3 => { a.f.c = Sym::sym(c"a"); b.f.c = Sym::sym(c"b"); } 4 => { a.f.d = Sym::sym(c"a"); b.f.d = Sym::sym(c"b"); }
        5 => { a.f.e = Sym::sym(c"a"); b.f.e = Sym::sym(c"b"); } 6 => { a.t.s = Sym::sym(c"a"); b.t.s = Sym::sym(c"b"); } 7 => { a.t.n = Sym::sym(c"a"); b.t.n = Sym::sym(c"b"); } 8 => { a.t.v = Sym::sym(c"a"); b.t.v = Sym::sym(c"b"); }
        9 => { a.a = Sym::sym(c"a"); b.a = Sym::sym(c"b"); } 10 => { a.i = Sym::sym(c"a"); b.i = Sym::sym(c"b"); } 11 => { a.f = Sym::sym(c"a"); b.f = Sym::sym(c"b"); } _ => { a.e.repr = Sym::sym(c"a"); b.i = Sym::sym(c"b"); }
    }
    let c = a.c(&b); cpp(ops_nestf(&a, &b), c, ALL); eq_rust(&a, &b, c); ord_rust(&a, &b, c); total(&a, &b, c); hashes(hash_nestf(&a), hash_nestf(&b), c); clones(&a); reach(c"done");
}
#[no_mangle] extern "C" fn h_clone() {
    let l0 = live();
    { let a = Text::sym(c"a"); let h0 = live(); let (s, n, v) = (a.s.as_str().to_owned(), a.n, a.v.as_slice().to_owned()); let h1 = live(); let mut d = a.clone();
      check(live() - h1 == h1 - h0, c"clone-allocates"); check(d.s == s && d.n == n && d.v == v, c"clone"); 
      d.s.push('x'); d.v.push(1); d.n = !n; check(a.s == s && a.n == n && a.v == v, c"clone-is-separate"); drop(a); check(d.s.len() == s.len() + 1 && d.s.starts_with(&s) && d.v.len() == v.len() + 1 && d.v.starts_with(&v), c"clone-outlives");
      let p = TextP { v: vec![f32::sym(c"f")], s: String::from("p") }; let q = p.clone(); check(q.v.len() == 1 && q.v[0].to_bits() == p.v[0].to_bits() && q.s == "p" && q.s.as_ptr() != p.s.as_ptr() && q.v.as_ptr() != p.v.as_ptr(), c"clone"); }
    check(live() == l0, c"leak"); reach(c"done");
}
#[no_mangle] extern "C" fn h_default() {
    let f = Flt::default(); check(f.a.to_bits() == 0 && f.b == 0 && f.c.to_bits() == 0, c"default"); let f = Full::default(); check(f.a == 0 && f.b == 0 && f.c == 0 && !f.d && f.e == 0, c"default");
    let t = Text::default(); check(t.s.is_empty() && t.n == 0 && t.v.is_empty(), c"default"); let i = InNs::default(); check(i.a == 0 && i.z == 0, c"default"); reach(c"done");
}
struct Out { b: [u8; 200], n: usize }
impl core::fmt::Write for Out { fn write_str(&mut self, s: &str) -> core::fmt::Result { for &c in s.as_bytes() { check(self.n < 200, c"room"); self.b[self.n] = c; self.n += 1; } Ok(()) } }
fn shows<T: Debug>(t: &T, w: &str) { use core::fmt::Write; let mut o = Out { b: [0; 200], n: 0 }; check(write!(o, "{:?}", t).is_ok(), c"debug-ok"); check(eq(&o.b[..o.n], w.as_bytes()), c"debug"); }
#[no_mangle] extern "C" fn h_debug() {
    let f = Full { a: -1, b: 2, c: 3, d: true, e: 4 };
    match choice(6, c"type") {
        0 => shows(&f, "Full { a: -1, b: 2, c: 3, d: true, e: 4 }"),
        1 => shows(&Text { s: String::from("q"), n: 1, v: vec![5, 6] }, "Text { s: \"q\", n: 1, v: [5, 6] }"),
        2 => shows(&InNs { a: 1, z: -2 }, "InNs { a: 1, z: -2 }"),
        3 => shows(&Refs { s: "u", n: &7, b: &[8] }, "Refs { s: \"u\", n: 7, b: [8] }"),
        4 => shows(&NestF { e: En::C, f, t: Text::default(), a: [1, 2, 3], i: 0 }, "NestF { e: C, f: Full { a: -1, b: 2, c: 3, d: true, e: 4 }, t: Text { s: \"\", n: 0, v: [] }, a: [1, 2, 3], i: 0 }"),
        _ => shows(&Flt { a: 1.5, b: 0, c: -0.25 }, "Flt { a: 1.5, b: 0, c: -0.25 }"),
    }
    reach(c"done");
}
fn dec(mut v: u64, neg: bool, pre: &str, post: &str, f: impl FnOnce(&str)) { let mut d = [0u8; 20]; let mut i = 20; loop { i -= 1; d[i] = b'0' + (v % 10) as u8; v /= 10; if v == 0 { break; } } let mut w = String::from(pre); if neg { w.push('-'); } w.push_str(unsafe { core::str::from_utf8_unchecked(&d[i..]) }); w.push_str(post); f(&w) }
#[no_mangle] extern "C" fn h_debug_enum() {
    match choice(3, c"type") {
        0 => { let e = En::sym(c"e"); let r = concrete(e.repr as u64) as u8; let e = En { repr: r }; if r == 3 { shows(&e, "A") } else if r == 200 { shows(&e, "B") } else if r == 7 { shows(&e, "C") } else { dec(r as u64, false, "En(", ")", |w| shows(&e, w)) } }
        1 => { let r = range(0, 300, c"repr") as i64 as i16 - 150; let r = concrete(r as u16 as u64) as u16 as i16; let e = Neg { repr: r }; match r { -5 => shows(&e, "Minus"), 0 => shows(&e, "Zero"), 1 => shows(&e, "Plus"), _ => dec(r.unsigned_abs() as u64, r < 0, "Neg(", ")", |w| shows(&e, w)) } }
        _ => { for (r, w) in [(u64::MAX, "Top"), (1, "Low"), (u64::MAX - 1, "Big(18446744073709551614)"), (0, "Big(0)")] { shows(&Big { repr: r }, w) } }
    }
    reach(c"done");
}
