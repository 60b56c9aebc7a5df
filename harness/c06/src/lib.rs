pub use cxx;
use cxx::{type_id, ExternType};
#[path = "../../common/sym.rs"]
mod sym;
#[repr(C)]
pub struct Tr { p: *mut u32 }
unsafe impl ExternType for Tr { type Id = type_id!("Tr"); type Kind = cxx::kind::Trivial; }
extern "C" { fn tr_free(p: *mut u32); }
impl Drop for Tr { fn drop(&mut self) { unsafe { tr_free(self.p) } } }
pub static mut DROPS: u32 = 0;
pub static mut LAST: u32 = 0;
pub struct Op { v: u32, _heap: Box<u64> }
impl Op { fn get(&self) -> u32 { self.v } fn set(&mut self, v: u32) { self.v = v } }
impl Drop for Op { fn drop(&mut self) { unsafe { DROPS += 1; LAST = self.v } } }
pub struct Zst;
fn zst_new() -> Box<Zst> { Box::new(Zst) }
fn zst_take(z: Box<Zst>) { let _: Zst = *z; }
#[repr(align(64))]
pub struct Big { v: u8 }
fn big_new(v: u8) -> Box<Big> { Box::new(Big { v }) }
impl Big { fn bv(&self) -> u8 { self.v } }
fn op_new(v: u32) -> Box<Op> { Box::new(Op { v, _heap: Box::new(1) }) }
fn op_take(b: Box<Op>) -> u32 { b.v }
fn op_pass(mut b: Box<Op>, x: u32) -> Box<Op> { b.v ^= x; b }
fn op_drops() -> u32 { unsafe { DROPS } }
fn op_last() -> u32 { unsafe { LAST } }
fn op_peek(b: &Box<Op>) -> u32 { b.v }
fn op_swap(a: &mut Box<Op>, b: &mut Box<Op>) { core::mem::swap(a, b) }
fn s_new(v: u32) -> Box<ffi::S> { Box::new(ffi::S { v, s: String::from("ab"), t: 5 }) }
fn s_take(b: Box<ffi::S>) -> u32 { let s: ffi::S = *b; s.v }
fn s_pass(mut b: Box<ffi::S>, x: u32) -> Box<ffi::S> { b.v ^= x; b.s = String::from("cd"); b }
fn s_peek(b: &ffi::S) -> u32 { b.v }
fn w_take(w: ffi::W) -> u32 { w.b.v ^ w.s.v }
fn w_new(v: u32) -> ffi::W { ffi::W { b: op_new(v), n: 3, s: s_new(v) } }
fn vec_new(v: u32) -> Vec<ffi::W> { vec![w_new(v), w_new(v)] }
#[cxx::bridge]
pub mod ffi {
    struct S { v: u32, s: String, t: u8 }
    struct C { v: u32, t: Tr }
    struct W { b: Box<Op>, n: u8, s: Box<S> }
    unsafe extern "C++" {
        include!("tr.h");
        type Tr = crate::Tr;
        fn cc_take(b: Box<Op>) -> u32;
        fn cc_pass(b: Box<Op>, x: u32) -> Box<Op>;
        fn cc_peek(b: &Box<Op>) -> u32;
        fn cs_pass(b: Box<S>, x: u32) -> Box<S>;
        fn cs_new(v: u32) -> Box<S>;
        fn cc_ref(b: &mut Box<Op>, v: u32);
    }
    extern "Rust" {
        type Op;
        type Zst;
        type Big;
        fn zst_new() -> Box<Zst>;
        fn zst_take(z: Box<Zst>);
        fn big_new(v: u8) -> Box<Big>;
        fn bv(self: &Big) -> u8;
        fn get(self: &Op) -> u32;
        fn set(self: &mut Op, v: u32);
        fn op_new(v: u32) -> Box<Op>;
        fn op_take(b: Box<Op>) -> u32;
        fn op_pass(b: Box<Op>, x: u32) -> Box<Op>;
        fn op_peek(b: &Box<Op>) -> u32;
        fn op_swap(a: &mut Box<Op>, b: &mut Box<Op>);
        fn op_drops() -> u32;
        fn op_last() -> u32;
        fn s_new(v: u32) -> Box<S>;
        fn s_take(b: Box<S>) -> u32;
        fn s_pass(b: Box<S>, x: u32) -> Box<S>;
        fn s_peek(b: &S) -> u32;
        fn w_take(w: W) -> u32;
        fn w_new(v: u32) -> W;
        fn vec_new(v: u32) -> Vec<W>;
    }
    impl Box<C> {}
}
use sym::*;
#[no_mangle]
extern "C" fn h_rust_side() {
    let l0 = live(); let d0 = op_drops(); let x = u32_(c"x"); let y = u32_(c"y");
    { let b = op_new(x); let at = &*b as *const Op; check(ffi::cc_peek(&b) == x, c"borrowed"); let mut c = ffi::cc_pass(b, y); check(&*c as *const Op == at, c"address-kept"); check(c.v == x ^ y, c"value-kept"); check(op_drops() == d0, c"not-dropped");
      ffi::cc_ref(&mut c, y); check(c.v == y, c"replaced-through-reference"); check(op_drops() == d0 + 1 && op_last() == x ^ y, c"old-dropped-once");
      match choice(3, c"how") { 0 => { check(ffi::cc_take(c) == y, c"taken"); } 1 => drop(c), _ => { let o: Op = *c; check(o.v == y, c"unboxed"); } }
      check(op_drops() == d0 + 2 && op_last() == y, c"dropped-once"); }
    { let s = ffi::cs_new(x); check(s.v == x && s.s == "new" && s.t == 7, c"struct-from-cxx"); let at = &*s as *const ffi::S; let t = ffi::cs_pass(s, y); check(&*t as *const ffi::S == at && t.v == x ^ y && t.t == 7, c"struct-through-cxx"); }
    check(live() == l0, c"leak");
}
