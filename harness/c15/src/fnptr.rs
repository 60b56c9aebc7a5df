// Function pointers handed to C++ and called from there.
use crate::ffi::{C, N, P2, F2, Q3};
use crate::sym::*;
use crate::{own, seen, same, log, loga, logr, log_slice, log_str, logged, ret, run, val, vals, exp, expa, exp_slice, set, Val, Ser};
use cxx::{CxxString, UniquePtr};
use core::pin::Pin;
pub struct Q { v: u64 }
#[cxx::bridge]
pub mod ffi2 {
    unsafe extern "C++" {
        include!("lib.rs.h");
        include!("fnptr.h");
        type C = crate::ffi::C;
        type N = crate::ffi::N;
        type P2 = crate::ffi::P2;
        type F2 = crate::ffi::F2;
        type Q3 = crate::ffi::Q3;
        type Caller;
        fn f_none(f: fn()) ;
        fn f_ints(f: fn(u8, i16, u32, i64, bool, u64, u8, usize) -> i16, a: u8, b: i16, c: u32, d: i64, e: bool, g: u64, h: u8, i: usize) -> i16;
        fn f_floats(x: f32, f: fn(f32, f64, f32) -> f64, y: f64) -> f64;
        fn f_string(f: fn(String, &str, &String) -> String, a: String, b: &str, c: &String) -> String;
        fn f_pod(f: fn(P2, F2, Q3) -> Q3, a: P2, b: F2, c: Q3) -> Q3;
        fn f_n(f: fn(N, N) -> N, a: N, b: N) -> N;
        fn f_box(f: fn(Box<Q>, &Q) -> Box<Q>, a: Box<Q>, b: &Q) -> Box<Q>;
        fn f_unique(f: fn(UniquePtr<C>, UniquePtr<C>) -> UniquePtr<C>, a: UniquePtr<C>, b: UniquePtr<C>) -> UniquePtr<C>;
        fn f_vec(f: fn(Vec<String>, Vec<u8>) -> Vec<String>, a: Vec<String>, b: Vec<u8>) -> Vec<String>;
        fn f_refs(f: fn(&[u8], &mut Vec<u8>, &mut N, Pin<&mut C>, &CxxString, &C), a: &[u8], b: &mut Vec<u8>, c: &mut N, d: Pin<&mut C>, e: &CxxString, g: &C);
        fn f_slice(f: fn(&[P2]) -> usize, a: &[P2]) -> usize;
        unsafe fn f_raw(f: unsafe fn(*const u8, *mut C) -> *mut C, a: *const u8, b: *mut C) -> *mut C;
        fn f_two(f: fn(u64) -> u64, g: fn(u64) -> u64, x: u64) -> u64;
        fn f_try(f: fn(u64, String) -> String, x: u64, s: String) -> Result<String>;
        fn f_method(self: &Caller, f: fn(u64, &C) -> u64, x: u64, c: &C) -> u64;
        fn caller() -> UniquePtr<Caller>;
        fn keep(f: fn(u64, u32) -> u64);
        fn call_kept(x: u64, y: u32) -> u64;
    }
    extern "Rust" { type Q; fn q_get(self: &Q) -> u64; }
}
impl Q { fn q_get(&self) -> u64 { self.v } }
impl Ser for Q { fn ser(&self, o: &mut dyn FnMut(u64)) { o(self.v) } } impl Val for Q { fn mk(v: u64, _: usize) -> Self { Q { v } } }
#[no_mangle]
extern "C" fn h_fnptr() { run(|d| { match choice(17, c"function") {
    0 => { fn g() { loga(5) } expa(5); ffi2::f_none(g); }
    1 => { fn g(a: u8, b: i16, c: u32, d: i64, e: bool, g: u64, h: u8, i: usize) -> i16 { log(&a); log(&b); log(&c); log(&d); log(&e); log(&g); log(&h); log(&i); ret() } let (a, b, c, d1, e, g1, h, i) = (val(d, 0), val(d, 1), val(d, 2), val(d, 3), val(d, 4), val(d, 5), val(d, 6), val(d, 7)); exp::<u8>(&a); exp::<i16>(&b); exp::<u32>(&c); exp::<i64>(&d1); exp::<bool>(&e); exp::<u64>(&g1); exp::<u8>(&h); exp::<usize>(&i); same(&ffi2::f_ints(g, a, b, c, d1, e, g1, h, i), d); }
    2 => { fn g(a: f32, b: f64, c: f32) -> f64 { log(&a); log(&b); log(&c); ret() } let (a, b) = (val(d, 0), val(d, 1)); exp::<f32>(&a); exp::<f64>(&b); exp::<f32>(&a); same(&ffi2::f_floats(a, g, b), d); }
    3 => { fn g(a: String, b: &str, c: &String) -> String { log(&a); log_str(b); logr(c); ret() } let (a, b, c) = (val::<String>(d, 0), val::<String>(d, 1), val::<String>(d, 2)); exp(&a); exp_slice(b.as_bytes()); expa(&c as *const String as usize); exp(&c); same(&ffi2::f_string(g, a, &b, &c), d); }
    4 => { fn g(a: P2, b: F2, c: Q3) -> Q3 { log(&a); log(&b); log(&c); ret() } let (a, b, c) = (val(d, 0), val(d, 1), val(d, 2)); exp::<P2>(&a); exp::<F2>(&b); exp::<Q3>(&c); same(&ffi2::f_pod(g, a, b, c), d); }
    5 => { fn g(a: N, b: N) -> N { log(&a); log(&b); ret() } let (a, b) = (val(d, 0), val(d, 1)); exp::<N>(&a); exp::<N>(&b); same(&ffi2::f_n(g, a, b), d); }
    6 => { fn g(a: Box<Q>, b: &Q) -> Box<Q> { log(&a); logr(b); ret() } let (a, b) = (val::<Box<Q>>(d, 0), val::<Q>(d, 1)); exp(&a); expa(&b as *const Q as usize); exp(&b); same(&ffi2::f_box(g, a, &b), d); }
    7 => { fn g(a: UniquePtr<C>, b: UniquePtr<C>) -> UniquePtr<C> { log(&a); log(&b); ret() } let (a, b) = (val::<UniquePtr<C>>(d, 0), val::<UniquePtr<C>>(d, 1)); exp(&a); exp(&b); same(&ffi2::f_unique(g, a, b), d); }
    8 => { fn g(a: Vec<String>, b: Vec<u8>) -> Vec<String> { log(&a); log(&b); ret() } let (a, b) = (val(d, 0), val(d, 1)); exp::<Vec<String>>(&a); exp::<Vec<u8>>(&b); same(&ffi2::f_vec(g, a, b), d); }
    9 => { fn g(a: &[u8], b: &mut Vec<u8>, c: &mut N, d: Pin<&mut C>, e: &CxxString, f: &C) { log_slice(a); logr(&*b); logr(&*c); logr(&*d); logr(e); logr(f); set(b); set(c); crate::set_pin(d); }
        let a = vals::<u8>(d, 0); let (mut b, mut c, mut x, e, f) = (own::<Vec<u8>>(d, 1), own::<N>(d, 2), own::<C>(d, 3), own::<CxxString>(d, 4), own::<C>(d, 5)); exp_slice(&a); expa(b.addr()); exp(b.get()); expa(c.addr()); exp(c.get()); expa(x.addr()); exp(x.get()); expa(e.addr()); exp(e.get()); expa(f.addr()); exp(f.get());
        ffi2::f_refs(g, &a, b.get_mut(), c.get_mut(), x.pin(), e.get(), f.get()); logged(); seen(b.get(), d); seen(c.get(), d); seen(x.get(), d); }
    10 => { fn g(a: &[P2]) -> usize { log_slice(a); ret() } let a = vals::<P2>(d, 2); exp_slice(&a); same(&ffi2::f_slice(g, &a), d); }
    11 => { unsafe fn g(a: *const u8, b: *mut C) -> *mut C { loga(a as usize); loga(b as usize); b } let (a, b) = (val::<u64>(d, 0) as *const u8, val::<u64>(d, 1) as *mut C); expa(a as usize); expa(b as usize); check(unsafe { ffi2::f_raw(g, a, b) } == b, c"returned-pointer"); }
    12 => { fn g(a: u64) -> u64 { log(&a); a.wrapping_add(3) } fn h(a: u64) -> u64 { log(&a); a.wrapping_mul(5) } let x = val::<u64>(d, 0); exp(&x); exp(&x.wrapping_add(3)); check(ffi2::f_two(g, h, x) == x.wrapping_add(3).wrapping_mul(5), c"two-functions"); if choice(2, c"swap") == 1 { logged(); exp(&x); exp(&x.wrapping_mul(5)); check(ffi2::f_two(h, g, x) == x.wrapping_mul(5).wrapping_add(3), c"two-functions"); } }
    13 => { let d = &d.fallible(); fn g(a: u64, s: String) -> String { log(&a); log(&s); ret() } let (a, s) = (val::<u64>(d, 0), val::<String>(d, 1)); exp(&a); exp(&s); match ffi2::f_try(g, a, s) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d) } Err(e) => check(d.fail && e.what() == "Bad", c"err") } }
    14 => { fn g(a: u64, c: &C) -> u64 { log(&a); logr(c); ret() } let (a, c) = (val::<u64>(d, 0), own::<C>(d, 1)); exp(&a); expa(c.addr()); exp(c.get()); let k = ffi2::caller(); same(&k.f_method(g, a, c.get()), d); }
    15 => { fn g(a: u64, b: u32) -> u64 { log(&a); log(&b); a ^ 1 } fn h(a: u64, b: u32) -> u64 { log(&b); log(&a); a ^ 2 } let (a, b) = (val::<u64>(d, 0), val::<u32>(d, 1)); let w = choice(2, c"which"); ffi2::keep(if w == 0 { g } else { h }); if w == 0 { exp(&a); exp(&b); } else { exp(&b); exp(&a); } check(ffi2::call_kept(a, b) == a ^ (1 + w as u64), c"kept-function"); }
    _ => { fn g(a: u64) -> u64 { fn inner(x: u64) -> u64 { x.wrapping_sub(9) } ffi2::f_two(inner, inner, a) } let a = val::<u64>(d, 0); check(ffi2::f_two(g, g, a) == a.wrapping_sub(36), c"nested"); }
} logged(); }) }
