pub use cxx;
use cxx::{type_id, ExternType};

/// A trivially relocatable C++ type whose copies own a heap cell; dropping it from Rust frees the cell.
#[repr(C)]
pub struct Tr { p: *mut u32 }
unsafe impl ExternType for Tr { type Id = type_id!("Tr"); type Kind = cxx::kind::Trivial; }
extern "C" { fn tr_free(p: *mut u32); }
impl Drop for Tr { fn drop(&mut self) { unsafe { tr_free(self.p) } } }

/// An opaque Rust element.
pub struct Op { v: u32, _b: Box<u16> }
fn op_vec(a: u32, b: u32) -> Vec<Op> { vec![Op { v: a, _b: Box::new(1) }, Op { v: b, _b: Box::new(2) }] }
impl Op { fn get(&self) -> u32 { self.v } fn set(&mut self, v: u32) { self.v = v } }
fn e_sum(v: &Vec<ffi::E>) -> u64 { v.iter().fold(0, |a, e| a * 3 + e.v as u64 + e.s.len() as u64) }
fn u64_roundtrip(mut v: Vec<u64>, x: u64) -> Vec<u64> { v.push(x); v }

#[cxx::bridge]
pub mod ffi {
    #[derive(Clone)]
    struct E { v: u32, s: String, b: u8 }
    unsafe extern "C++" {
        include!("tr.h");
        type Tr = crate::Tr;
    }
    extern "Rust" {
        type Op;
        fn op_vec(a: u32, b: u32) -> Vec<Op>;
        fn get(self: &Op) -> u32;
        fn set(self: &mut Op, v: u32);
        fn e_sum(v: &Vec<E>) -> u64;
        fn u64_roundtrip(v: Vec<u64>, x: u64) -> Vec<u64>;
    }
    impl Vec<E> {}
    impl Vec<Tr> {}
}
