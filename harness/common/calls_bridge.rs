use core::pin::Pin;
use cxx::{CxxString, CxxVector, ExternType, SharedPtr, UniquePtr, WeakPtr};
use std::os::raw::c_char;
pub struct R { v: u64, s: String }
#[repr(C)]
pub struct T1 { a: u32, b: u8 }
unsafe impl ExternType for T1 { type Id = cxx::type_id!("T1"); type Kind = cxx::kind::Trivial; }
#[repr(C)]
pub struct T3 { a: u64, b: u64, c: u64 }
unsafe impl ExternType for T3 { type Id = cxx::type_id!("T3"); type Kind = cxx::kind::Trivial; }
/// A C++ class with its own copy constructor and destructor which declares itself relocatable.
#[repr(C)]
pub struct Tx { p: *mut u64 }
unsafe impl ExternType for Tx { type Id = cxx::type_id!("Tx"); type Kind = cxx::kind::Trivial; }
#[cxx::bridge]
pub mod ffi {
    struct P1 { a: u8 }
    struct P2 { a: u8, b: u64 }
    struct F2 { a: f32, b: f32 }
    struct FI { a: f32, b: u32 }
    struct Q2 { a: u64, b: u64 }
    struct Q3 { a: u64, b: u64, c: u64 }
    struct D4 { a: f32, b: f32, c: f32, d: f32 }
    struct N { s: String, x: u32, v: Vec<u8> }
    struct Ar { a: [u8; 5], b: [u16; 3] }
    struct Nest { p: P2, e: En, f: F2 }
    enum En { A, B = 7 }
    #[repr(i16)]
    enum Ei16 { A = -3, B = 300 }
    #[repr(u64)]
    enum Eu64 { A = 1, B = 0xffffffffffffffff }
    unsafe extern "C++" {
        include!("calls_methods.h");
        type C;
        type T1 = super::T1;
        type T3 = super::T3;
        type Tx = super::Tx;
        fn mk_c(v: u64) -> UniquePtr<C>;
        fn mk_sc(v: u64) -> SharedPtr<C>;
        fn mk_wc(v: u64) -> WeakPtr<C>;
        fn mk_su64(v: u64) -> SharedPtr<u64>;
        fn mk_cs(v: u64, k: usize) -> UniquePtr<CxxString>;
        fn mk_cv(v: u64, k: usize) -> UniquePtr<CxxVector<u32>>;
        fn mk_cvn(v: u64, k: usize) -> UniquePtr<CxxVector<N>>;
        fn c_get(c: &C) -> u64;
        fn c_set(c: Pin<&mut C>, v: u64);
        //CXX
    }
    extern "Rust" {
        type R;
        fn mk_r(v: u64) -> Box<R>;
        fn mk_vr(v: u64, k: usize) -> Vec<R>;
        fn r_get(r: &R) -> u64;
        fn r_set(r: &mut R, v: u64);
        //RUST
    }
}
