pub use cxx;
#[path = "../../common/sym.rs"]
mod sym;
pub struct Op { v: u32, _w: u64, _x: u8 }
impl Op { fn get(&self) -> u32 { self.v } fn set(&mut self, v: u32) { self.v = v } }
pub struct Ops(Vec<Op>);
fn ops_new(n: usize, v: u32) -> Box<Ops> { Box::new(Ops((0..n).map(|i| Op { v: v ^ i as u32, _w: 1, _x: 2 }).collect())) }
impl Ops { fn all(&self) -> &[Op] { &self.0 } fn all_mut(&mut self) -> &mut [Op] { &mut self.0 } fn addr(&self, i: usize) -> usize { self.0.as_ptr() as usize + i * core::mem::size_of::<Op>() } }
fn probe<T>(s: &[T]) -> ffi::Probe { ffi::Probe { ptr: s.as_ptr() as usize, len: s.len(), valid: !s.as_ptr().is_null() && s.as_ptr() as usize % core::mem::align_of::<T>() == 0 } }
fn r_u8(s: &[u8]) -> ffi::Probe { probe(s) }
fn r_u64(s: &[u64]) -> ffi::Probe { probe(s) }
fn r_s3(s: &[ffi::S3]) -> ffi::Probe { probe(s) }
fn r_str(s: &[String]) -> ffi::Probe { probe(s) }
fn r_u32m(s: &mut [u32]) -> ffi::Probe { probe(s) }
fn r_sum(s: &[u32]) -> u32 { let mut t = 7u32; for x in s { t = t.wrapping_mul(31) ^ *x; } t }
fn r_sub(s: &[u32], a: usize, b: usize) -> &[u32] { &s[a..b] }
fn r_sub_mut(s: &mut [u32], a: usize, b: usize) -> &mut [u32] { &mut s[a..b] }
fn r_fill(s: &mut [u32], x: u32) { for (i, e) in s.iter_mut().enumerate() { *e = x.wrapping_add(i as u32) } }
fn r_empty() -> &'static [u64] { &[] }
#[cxx::bridge]
pub mod ffi {
    struct Probe { ptr: usize, len: usize, valid: bool }
    #[derive(Clone, Copy)]
    struct S3 { a: u8, b: u8, c: u8 }
    extern "Rust" {
        type Op;
        type Ops;
        fn get(self: &Op) -> u32;
        fn set(self: &mut Op, v: u32);
        fn ops_new(n: usize, v: u32) -> Box<Ops>;
        fn all(self: &Ops) -> &[Op];
        fn all_mut(self: &mut Ops) -> &mut [Op];
        fn addr(self: &Ops, i: usize) -> usize;
        fn r_u8(s: &[u8]) -> Probe;
        fn r_u64(s: &[u64]) -> Probe;
        fn r_s3(s: &[S3]) -> Probe;
        fn r_str(s: &[String]) -> Probe;
        fn r_u32m(s: &mut [u32]) -> Probe;
        fn r_sum(s: &[u32]) -> u32;
        fn r_sub(s: &[u32], a: usize, b: usize) -> &[u32];
        fn r_sub_mut(s: &mut [u32], a: usize, b: usize) -> &mut [u32];
        fn r_fill(s: &mut [u32], x: u32);
        fn r_empty() -> &'static [u64];
    }
    unsafe extern "C++" {
        include!("c05.h");
        fn c_probe(s: &[u32]) -> Probe;
        fn c_probe8(s: &[u8]) -> Probe;
        fn c_probe_mut(s: &mut [u64]) -> Probe;
        fn c_probe_s3(s: &[S3]) -> Probe;
        fn c_probe_str(s: &[String]) -> Probe;
        fn c_set(s: &mut [u32], i: usize, x: u32);
        fn c_part(s: &[u32], a: usize, b: usize) -> &[u32];
        fn c_part_mut(s: &mut [u32], a: usize, b: usize) -> &mut [u32];
        fn c_default<'a>(s: &'a [u64]) -> &'a [u64];
        fn c_null(s: &[u8]) -> &[u8];
        fn c_vec(v: &CxxVector<u32>) -> &[u32];
        fn c_mk(n: usize, x: u32) -> UniquePtr<CxxVector<u32>>;
    }
}
use sym::*;
fn same<T>(p: &ffi::Probe, s: &[T]) { check(p.len == s.len(), c"cxx-length"); check(p.valid, c"cxx-valid"); if s.len() > 0 { check(p.ptr == s.as_ptr() as usize, c"cxx-address"); } }
#[no_mangle]
extern "C" fn h_rust_to_cxx() {
    let n = choice(5, c"n");
    let mut a = [0u32; 4]; for x in &mut a { *x = u32_(c"x"); }
    let b = choice(n + 1, c"from");
    let keep = a;
    { let s = &a[b..n]; same(&ffi::c_probe(s), s); let k = choice(s.len() + 1, c"k"); let t = ffi::c_part(s, k, s.len()); check(t.len() == s.len() - k, c"returned-length"); if t.len() > 0 { check(t.as_ptr() as usize == s[k..].as_ptr() as usize, c"returned-address"); } check(!t.as_ptr().is_null(), c"returned-valid");
      for i in 0..t.len() { check(t[i] == s[k + i], c"returned-element"); } }
    if b < n { let x = u32_(c"y"); let i = choice(n - b, c"i"); ffi::c_set(&mut a[b..n], i, x); for j in 0..4 { check(a[j] == if j == b + i { x } else { keep[j] }, c"mutated-element"); }
      let t = ffi::c_part_mut(&mut a[b..n], i, n - b); t[0] = 1; check(t.len() == n - b - i, c"returned-length"); check(a[b + i] == 1, c"mutated-element"); }
    let w = [1u64, 2, 3]; let mut wm = w; let e: [u64; 0] = [];
    let u = [7u8, 8, 9, 10]; same(&ffi::c_probe8(&u[b..n]), &u[b..n]);
    let l = wm.len().min(n); let p = ffi::c_probe_mut(&mut wm[..l]); same(&p, &wm[..l]);
    let t = [ffi::S3 { a: 1, b: 2, c: 3 }; 4]; same(&ffi::c_probe_s3(&t[b..n]), &t[b..n]);
    let st: [String; 0] = []; same(&ffi::c_probe_str(&st), &st);
    check(ffi::c_default(&w).len() == 0 && ffi::c_default(&e).len() == 0 && ffi::c_default(&w).as_ptr() as usize % 8 == 0 && !ffi::c_default(&w).as_ptr().is_null(), c"default-slice-valid-in-rust");
    let z = ffi::c_null(&u); check(z.len() == 0 && !z.as_ptr().is_null(), c"null-slice-valid-in-rust"); check(z.iter().next().is_none() && z == &[] as &[u8], c"null-slice-valid-in-rust");
}
#[no_mangle]
extern "C" fn h_vector_slices() {
    let l0 = live();
    { let n = choice(4, c"n"); let x = u32_(c"x"); let mut v = ffi::c_mk(n, x);
      { let s = ffi::c_vec(&v); check(s.len() == n, c"returned-length"); check(!s.as_ptr().is_null() && s.as_ptr() as usize % 4 == 0, c"returned-valid"); for i in 0..n { check(s[i] == x ^ i as u32, c"returned-element"); } }
      { let s = v.as_slice(); check(s.len() == n && !s.as_ptr().is_null(), c"vector-as-slice"); for i in 0..n { check(s[i] == x ^ i as u32, c"vector-as-slice-element"); } }
      let s = v.pin_mut().as_mut_slice(); check(s.len() == n, c"vector-as-mut-slice"); for e in s.iter_mut() { *e = !*e; } for i in 0..n { check(*v.get(i).unwrap() == !(x ^ i as u32), c"vector-as-mut-slice-element"); } }
    check(live() == l0, c"leak");
}
