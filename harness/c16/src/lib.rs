pub use cxx;
#[path = "../../common/sym.rs"]
mod sym;
use sym::*;
use core::pin::Pin;
use cxx::{CxxString, CxxVector, ExternType, SharedPtr, UniquePtr, WeakPtr};
use std::os::raw::c_char;
pub struct R { v: u64, s: String }
#[repr(C)]
pub struct T1 { a: u32, b: u8 }
unsafe impl ExternType for T1 { type Id = cxx::type_id!("T1"); type Kind = cxx::kind::Trivial; }
#[repr(C)]
pub struct T3 { a: u64, b: u64, c: u64 }
unsafe impl ExternType for T3 { type Id = cxx::type_id!("T3"); type Kind = cxx::kind::Trivial; }
/// A C++ class with its own copy constructor and destructor which declares itself relocatable.
#[repr(C)]
pub struct Tx { p: *mut u64 }
unsafe impl ExternType for Tx { type Id = cxx::type_id!("Tx"); type Kind = cxx::kind::Trivial; }
#[cxx::bridge]
pub mod ffi {
    struct S0 { f0: bool, f1: c_char, f2: u8, f3: u16, f4: u32, f5: u64 }
    struct S1 { f0: usize, f1: i8, f2: i16, f3: i32, f4: i64, f5: isize }
    struct S2 { f0: f32, f1: f64, f2: String, f3: Box<R>, f4: Box<N>, f5: Vec<u8> }
    struct S3 { f0: Vec<bool>, f1: Vec<f64>, f2: Vec<String>, f3: Vec<P2>, f4: Vec<N>, f5: Vec<R> }
    struct S4 { f0: UniquePtr<C>, f1: UniquePtr<CxxString>, f2: UniquePtr<CxxVector<u32>>, f3: UniquePtr<N>, f4: SharedPtr<C>, f5: SharedPtr<u64> }
    struct S5 { f0: WeakPtr<C>, f1: P1, f2: P2, f3: F2, f4: FI, f5: Q2 }
    struct S6 { f0: Q3, f1: D4, f2: N, f3: Ar, f4: Nest, f5: En }
    struct S7 { f0: Ei16, f1: Eu64, f2: T1, f3: T3, f4: Tx, f5: [u8; 5] }
    struct S8 { f0: [String; 2], f1: *const u8, f2: *mut N, f3: bool, f4: c_char, f5: u8 }
    struct S9 { f0: bool, f1: i8, f2: String, f3: Vec<P2>, f4: SharedPtr<C>, f5: Q2, f6: Ei16, f7: *const u8, f8: u64 }
    struct S10 { f0: u16, f1: i64, f2: Vec<u8>, f3: UniquePtr<C>, f4: P1, f5: N, f6: T3, f7: c_char, f8: i16 }
    struct S11 { f0: usize, f1: f64, f2: Vec<String>, f3: UniquePtr<N>, f4: FI, f5: En, f6: [String; 2], f7: u32, f8: isize }
    struct S12 { f0: i32, f1: Box<N>, f2: Vec<R>, f3: WeakPtr<C>, f4: D4, f5: T1, f6: bool, f7: i8, f8: String }
    struct S13 { f0: f32, f1: Vec<f64>, f2: UniquePtr<CxxVector<u32>>, f3: F2, f4: Nest, f5: [u8; 5], f6: u16, f7: i64, f8: Vec<u8> }
    struct S14 { f0: bool, f1: isize, f2: Vec<N>, f3: F2, f4: T1, f5: u32, f6: Box<R>, f7: UniquePtr<CxxVector<u32>> }
    struct S15 { f0: c_char, f1: f32, f2: Vec<R>, f3: FI, f4: T3, f5: u64, f6: Box<N>, f7: UniquePtr<N> }
    struct S16 { f0: u8, f1: f64, f2: UniquePtr<C>, f3: Q2, f4: Tx, f5: usize, f6: Vec<u8>, f7: SharedPtr<C> }
    struct S17 { f0: u8, f1: u64, f2: u8 }
    struct S18 { f0: bool, f1: f64, f2: u16, f3: u32 }
    struct S19 { f0: u8 }
    struct S20 { f0: N, f1: u8 }
    struct S21 { f0: u8, f1: [u8; 5], f2: u16, f3: P1, f4: En }
    struct S22 { f0: u64, f1: u8 }
    struct Refs<'a> { s: &'a str, b: &'a [u8], m: &'a mut [u64], x: &'a u32, y: &'a mut N, c: &'a C, d: Pin<&'a mut C>, t: &'a CxxString, r: &'a R, v: &'a Vec<String> }
    #[repr(u8)] enum Eu8 { A = 0, B = 1, C = 0xff }
    #[repr(i8)] enum Ei8 { A = -128, B = -1, C = 0, D = 0x7f }
    #[repr(u16)] enum Eu16 { A = 0xffff, B = 5 }
    #[repr(i16)] enum Eii16 { A = -32768, B = 0x7fff }
    #[repr(u32)] enum Eu32 { A = 0xffffffff, B = 0 }
    #[repr(i32)] enum Ei32 { A = -2147483648, B = 0x7fffffff, C = -7 }
    #[repr(u64)] enum Euu64 { A = 0xffffffffffffffff, B = 0x8000000000000000 }
    #[repr(i64)] enum Ei64 { A = -9223372036854775808, B = 0x7fffffffffffffff }
    #[repr(usize)] enum Eusize { A = 0xffffffffffffffff, B = 1 }
    #[repr(isize)] enum Eisize { A = -9223372036854775808, B = 0x7fffffffffffffff }
    enum Eimp { A, B, C = 10, D, E = 0xfe, F }
    enum Einf { A = 0x100, B }
    enum Eneg { A = -3, B, C, D, E }
    enum Ebig { A = 0x80000000, B = 7 }
    #[repr(u16)] enum Eext { A = 3, B = 0x384 }
    struct Hold_Eu8 { a: u8, e: Eu8, b: [Eu8; 2] }
    struct Hold_Ei8 { a: u8, e: Ei8, b: [Ei8; 2] }
    struct Hold_Eu16 { a: u8, e: Eu16, b: [Eu16; 2] }
    struct Hold_Eii16 { a: u8, e: Eii16, b: [Eii16; 2] }
    struct Hold_Eu32 { a: u8, e: Eu32, b: [Eu32; 2] }
    struct Hold_Ei32 { a: u8, e: Ei32, b: [Ei32; 2] }
    struct Hold_Euu64 { a: u8, e: Euu64, b: [Euu64; 2] }
    struct Hold_Ei64 { a: u8, e: Ei64, b: [Ei64; 2] }
    struct Hold_Eusize { a: u8, e: Eusize, b: [Eusize; 2] }
    struct Hold_Eisize { a: u8, e: Eisize, b: [Eisize; 2] }
    struct Hold_Eimp { a: u8, e: Eimp, b: [Eimp; 2] }
    struct Hold_Einf { a: u8, e: Einf, b: [Einf; 2] }
    struct Hold_Eneg { a: u8, e: Eneg, b: [Eneg; 2] }
    struct Hold_Ebig { a: u8, e: Ebig, b: [Ebig; 2] }
    struct Hold_Eext { a: u8, e: Eext, b: [Eext; 2] }
    struct Grid { a: u8, m: [[u16; 2]; 3], t: [[[u8; 3]; 1]; 2], e: [[En; 1]; 2], z: u64 }
    struct P1 { a: u8 }
    struct P2 { a: u8, b: u64 }
    struct F2 { a: f32, b: f32 }
    struct FI { a: f32, b: u32 }
    struct Q2 { a: u64, b: u64 }
    struct Q3 { a: u64, b: u64, c: u64 }
    struct D4 { a: f32, b: f32, c: f32, d: f32 }
    struct N { s: String, x: u32, v: Vec<u8> }
    struct Ar { a: [u8; 5], b: [u16; 3] }
    struct Nest { p: P2, e: En, f: F2 }
    enum En { A, B = 7 }
    #[repr(i16)]
    enum Ei16 { A = -3, B = 300 }
    #[repr(u64)]
    enum Eu64 { A = 1, B = 0xffffffffffffffff }
    unsafe extern "C++" {
        include!("calls_methods.h");
        type C;
        type T1 = super::T1;
        type T3 = super::T3;
        type Tx = super::Tx;
        fn grid_size() -> usize; fn grid_off(i: usize) -> usize; fn grid_m(g: &Grid, i: usize, j: usize) -> u16; fn grid_t(g: &Grid, i: usize, j: usize, k: usize) -> u8; fn grid_e(g: &Grid, i: usize) -> En; fn grid_put_m(g: &mut Grid, i: usize, j: usize, v: u16); fn grid_put_t(g: &mut Grid, i: usize, j: usize, k: usize, v: u8); fn grid_copy(g: Grid) -> Grid;
        fn mk_c(v: u64) -> UniquePtr<C>;
        fn mk_sc(v: u64) -> SharedPtr<C>;
        fn mk_wc(v: u64) -> WeakPtr<C>;
        fn mk_su64(v: u64) -> SharedPtr<u64>;
        fn mk_cs(v: u64, k: usize) -> UniquePtr<CxxString>;
        fn mk_cv(v: u64, k: usize) -> UniquePtr<CxxVector<u32>>;
        fn mk_cvn(v: u64, k: usize) -> UniquePtr<CxxVector<N>>;
        fn c_get(c: &C) -> u64;
        fn c_set(c: Pin<&mut C>, v: u64);
        type Eext; fn size_0() -> usize; fn align_0() -> usize; fn off_0(i: usize) -> usize; fn get_0(s: &S0, i: usize); fn put_0(s: &mut S0, i: usize, v: u64, k: usize); fn mov_0(s: S0) -> S0; fn eat_0(s: S0); fn copy_0(s: &S0) -> S0; fn assign_0(s: &mut S0, t: &S0); fn dfl_0() -> UniquePtr<S0>; fn size_1() -> usize; fn align_1() -> usize; fn off_1(i: usize) -> usize; fn get_1(s: &S1, i: usize); fn put_1(s: &mut S1, i: usize, v: u64, k: usize); fn mov_1(s: S1) -> S1; fn eat_1(s: S1); fn copy_1(s: &S1) -> S1; fn assign_1(s: &mut S1, t: &S1); fn dfl_1() -> UniquePtr<S1>; fn size_2() -> usize; fn align_2() -> usize; fn off_2(i: usize) -> usize; fn get_2(s: &S2, i: usize); fn put_2(s: &mut S2, i: usize, v: u64, k: usize); fn mov_2(s: S2) -> S2; fn eat_2(s: S2); fn size_3() -> usize; fn align_3() -> usize; fn off_3(i: usize) -> usize; fn get_3(s: &S3, i: usize); fn put_3(s: &mut S3, i: usize, v: u64, k: usize); fn mov_3(s: S3) -> S3; fn eat_3(s: S3); fn dfl_3() -> UniquePtr<S3>; fn size_4() -> usize; fn align_4() -> usize; fn off_4(i: usize) -> usize; fn get_4(s: &S4, i: usize); fn put_4(s: &mut S4, i: usize, v: u64, k: usize); fn mov_4(s: S4) -> S4; fn eat_4(s: S4); fn dfl_4() -> UniquePtr<S4>; fn size_5() -> usize; fn align_5() -> usize; fn off_5(i: usize) -> usize; fn get_5(s: &S5, i: usize); fn put_5(s: &mut S5, i: usize, v: u64, k: usize); fn mov_5(s: S5) -> S5; fn eat_5(s: S5); fn copy_5(s: &S5) -> S5; fn assign_5(s: &mut S5, t: &S5); fn dfl_5() -> UniquePtr<S5>; fn size_6() -> usize; fn align_6() -> usize; fn off_6(i: usize) -> usize; fn get_6(s: &S6, i: usize); fn put_6(s: &mut S6, i: usize, v: u64, k: usize); fn mov_6(s: S6) -> S6; fn eat_6(s: S6); fn copy_6(s: &S6) -> S6; fn assign_6(s: &mut S6, t: &S6); fn size_7() -> usize; fn align_7() -> usize; fn off_7(i: usize) -> usize; fn get_7(s: &S7, i: usize); fn put_7(s: &mut S7, i: usize, v: u64, k: usize); fn mov_7(s: S7) -> S7; fn eat_7(s: S7); fn copy_7(s: &S7) -> S7; fn assign_7(s: &mut S7, t: &S7); fn size_8() -> usize; fn align_8() -> usize; fn off_8(i: usize) -> usize; fn get_8(s: &S8, i: usize); fn put_8(s: &mut S8, i: usize, v: u64, k: usize); fn mov_8(s: S8) -> S8; fn eat_8(s: S8); fn copy_8(s: &S8) -> S8; fn assign_8(s: &mut S8, t: &S8); fn dfl_8() -> UniquePtr<S8>; fn size_9() -> usize; fn align_9() -> usize; fn off_9(i: usize) -> usize; fn get_9(s: &S9, i: usize); fn put_9(s: &mut S9, i: usize, v: u64, k: usize); fn mov_9(s: S9) -> S9; fn eat_9(s: S9); fn copy_9(s: &S9) -> S9; fn assign_9(s: &mut S9, t: &S9); fn dfl_9() -> UniquePtr<S9>; fn size_10() -> usize; fn align_10() -> usize; fn off_10(i: usize) -> usize; fn get_10(s: &S10, i: usize); fn put_10(s: &mut S10, i: usize, v: u64, k: usize); fn mov_10(s: S10) -> S10; fn eat_10(s: S10); fn dfl_10() -> UniquePtr<S10>; fn size_11() -> usize; fn align_11() -> usize; fn off_11(i: usize) -> usize; fn get_11(s: &S11, i: usize); fn put_11(s: &mut S11, i: usize, v: u64, k: usize); fn mov_11(s: S11) -> S11; fn eat_11(s: S11); fn dfl_11() -> UniquePtr<S11>; fn size_12() -> usize; fn align_12() -> usize; fn off_12(i: usize) -> usize; fn get_12(s: &S12, i: usize); fn put_12(s: &mut S12, i: usize, v: u64, k: usize); fn mov_12(s: S12) -> S12; fn eat_12(s: S12); fn size_13() -> usize; fn align_13() -> usize; fn off_13(i: usize) -> usize; fn get_13(s: &S13, i: usize); fn put_13(s: &mut S13, i: usize, v: u64, k: usize); fn mov_13(s: S13) -> S13; fn eat_13(s: S13); fn dfl_13() -> UniquePtr<S13>; fn size_14() -> usize; fn align_14() -> usize; fn off_14(i: usize) -> usize; fn get_14(s: &S14, i: usize); fn put_14(s: &mut S14, i: usize, v: u64, k: usize); fn mov_14(s: S14) -> S14; fn eat_14(s: S14); fn size_15() -> usize; fn align_15() -> usize; fn off_15(i: usize) -> usize; fn get_15(s: &S15, i: usize); fn put_15(s: &mut S15, i: usize, v: u64, k: usize); fn mov_15(s: S15) -> S15; fn eat_15(s: S15); fn size_16() -> usize; fn align_16() -> usize; fn off_16(i: usize) -> usize; fn get_16(s: &S16, i: usize); fn put_16(s: &mut S16, i: usize, v: u64, k: usize); fn mov_16(s: S16) -> S16; fn eat_16(s: S16); fn size_17() -> usize; fn align_17() -> usize; fn off_17(i: usize) -> usize; fn get_17(s: &S17, i: usize); fn put_17(s: &mut S17, i: usize, v: u64, k: usize); fn mov_17(s: S17) -> S17; fn eat_17(s: S17); fn copy_17(s: &S17) -> S17; fn assign_17(s: &mut S17, t: &S17); fn dfl_17() -> UniquePtr<S17>; fn size_18() -> usize; fn align_18() -> usize; fn off_18(i: usize) -> usize; fn get_18(s: &S18, i: usize); fn put_18(s: &mut S18, i: usize, v: u64, k: usize); fn mov_18(s: S18) -> S18; fn eat_18(s: S18); fn copy_18(s: &S18) -> S18; fn assign_18(s: &mut S18, t: &S18); fn dfl_18() -> UniquePtr<S18>; fn size_19() -> usize; fn align_19() -> usize; fn off_19(i: usize) -> usize; fn get_19(s: &S19, i: usize); fn put_19(s: &mut S19, i: usize, v: u64, k: usize); fn mov_19(s: S19) -> S19; fn eat_19(s: S19); fn copy_19(s: &S19) -> S19; fn assign_19(s: &mut S19, t: &S19); fn dfl_19() -> UniquePtr<S19>; fn size_20() -> usize; fn align_20() -> usize; fn off_20(i: usize) -> usize; fn get_20(s: &S20, i: usize); fn put_20(s: &mut S20, i: usize, v: u64, k: usize); fn mov_20(s: S20) -> S20; fn eat_20(s: S20); fn copy_20(s: &S20) -> S20; fn assign_20(s: &mut S20, t: &S20); fn dfl_20() -> UniquePtr<S20>; fn size_21() -> usize; fn align_21() -> usize; fn off_21(i: usize) -> usize; fn get_21(s: &S21, i: usize); fn put_21(s: &mut S21, i: usize, v: u64, k: usize); fn mov_21(s: S21) -> S21; fn eat_21(s: S21); fn copy_21(s: &S21) -> S21; fn assign_21(s: &mut S21, t: &S21); fn dfl_21() -> UniquePtr<S21>; fn size_22() -> usize; fn align_22() -> usize; fn off_22(i: usize) -> usize; fn get_22(s: &S22, i: usize); fn put_22(s: &mut S22, i: usize, v: u64, k: usize); fn mov_22(s: S22) -> S22; fn eat_22(s: S22); fn copy_22(s: &S22) -> S22; fn assign_22(s: &mut S22, t: &S22); fn dfl_22() -> UniquePtr<S22>; fn echo_Eu8(e: Eu8) -> Eu8; fn num_Eu8(e: Eu8) -> u64; fn variant_Eu8(i: usize) -> Eu8; fn which_Eu8(e: Eu8) -> usize; fn esize_Eu8() -> usize; fn in_Eu8(e: &mut Hold_Eu8) -> Eu8; fn echo_Ei8(e: Ei8) -> Ei8; fn num_Ei8(e: Ei8) -> u64; fn variant_Ei8(i: usize) -> Ei8; fn which_Ei8(e: Ei8) -> usize; fn esize_Ei8() -> usize; fn in_Ei8(e: &mut Hold_Ei8) -> Ei8; fn echo_Eu16(e: Eu16) -> Eu16; fn num_Eu16(e: Eu16) -> u64; fn variant_Eu16(i: usize) -> Eu16; fn which_Eu16(e: Eu16) -> usize; fn esize_Eu16() -> usize; fn in_Eu16(e: &mut Hold_Eu16) -> Eu16; fn echo_Eii16(e: Eii16) -> Eii16; fn num_Eii16(e: Eii16) -> u64; fn variant_Eii16(i: usize) -> Eii16; fn which_Eii16(e: Eii16) -> usize; fn esize_Eii16() -> usize; fn in_Eii16(e: &mut Hold_Eii16) -> Eii16; fn echo_Eu32(e: Eu32) -> Eu32; fn num_Eu32(e: Eu32) -> u64; fn variant_Eu32(i: usize) -> Eu32; fn which_Eu32(e: Eu32) -> usize; fn esize_Eu32() -> usize; fn in_Eu32(e: &mut Hold_Eu32) -> Eu32; fn echo_Ei32(e: Ei32) -> Ei32; fn num_Ei32(e: Ei32) -> u64; fn variant_Ei32(i: usize) -> Ei32; fn which_Ei32(e: Ei32) -> usize; fn esize_Ei32() -> usize; fn in_Ei32(e: &mut Hold_Ei32) -> Ei32; fn echo_Euu64(e: Euu64) -> Euu64; fn num_Euu64(e: Euu64) -> u64; fn variant_Euu64(i: usize) -> Euu64; fn which_Euu64(e: Euu64) -> usize; fn esize_Euu64() -> usize; fn in_Euu64(e: &mut Hold_Euu64) -> Euu64; fn echo_Ei64(e: Ei64) -> Ei64; fn num_Ei64(e: Ei64) -> u64; fn variant_Ei64(i: usize) -> Ei64; fn which_Ei64(e: Ei64) -> usize; fn esize_Ei64() -> usize; fn in_Ei64(e: &mut Hold_Ei64) -> Ei64; fn echo_Eusize(e: Eusize) -> Eusize; fn num_Eusize(e: Eusize) -> u64; fn variant_Eusize(i: usize) -> Eusize; fn which_Eusize(e: Eusize) -> usize; fn esize_Eusize() -> usize; fn in_Eusize(e: &mut Hold_Eusize) -> Eusize; fn echo_Eisize(e: Eisize) -> Eisize; fn num_Eisize(e: Eisize) -> u64; fn variant_Eisize(i: usize) -> Eisize; fn which_Eisize(e: Eisize) -> usize; fn esize_Eisize() -> usize; fn in_Eisize(e: &mut Hold_Eisize) -> Eisize; fn echo_Eimp(e: Eimp) -> Eimp; fn num_Eimp(e: Eimp) -> u64; fn variant_Eimp(i: usize) -> Eimp; fn which_Eimp(e: Eimp) -> usize; fn esize_Eimp() -> usize; fn in_Eimp(e: &mut Hold_Eimp) -> Eimp; fn echo_Einf(e: Einf) -> Einf; fn num_Einf(e: Einf) -> u64; fn variant_Einf(i: usize) -> Einf; fn which_Einf(e: Einf) -> usize; fn esize_Einf() -> usize; fn in_Einf(e: &mut Hold_Einf) -> Einf; fn echo_Eneg(e: Eneg) -> Eneg; fn num_Eneg(e: Eneg) -> u64; fn variant_Eneg(i: usize) -> Eneg; fn which_Eneg(e: Eneg) -> usize; fn esize_Eneg() -> usize; fn in_Eneg(e: &mut Hold_Eneg) -> Eneg; fn echo_Ebig(e: Ebig) -> Ebig; fn num_Ebig(e: Ebig) -> u64; fn variant_Ebig(i: usize) -> Ebig; fn which_Ebig(e: Ebig) -> usize; fn esize_Ebig() -> usize; fn in_Ebig(e: &mut Hold_Ebig) -> Ebig; fn echo_Eext(e: Eext) -> Eext; fn num_Eext(e: Eext) -> u64; fn variant_Eext(i: usize) -> Eext; fn which_Eext(e: Eext) -> usize; fn esize_Eext() -> usize; fn in_Eext(e: &mut Hold_Eext) -> Eext; fn look(s: &Refs) -> usize; fn give<'a>(s: Refs<'a>) -> Refs<'a>; fn touch(s: &mut Refs, v: u64); 
    }
    extern "Rust" {
        type R;
        fn mk_r(v: u64) -> Box<R>;
        fn mk_vr(v: u64, k: usize) -> Vec<R>;
        fn r_get(r: &R) -> u64;
        fn r_set(r: &mut R, v: u64);
        
    }
}
include!("../../common/calls.rs");
use ffi::*;
impl Ser for *const u8 { fn ser(&self, o: &mut dyn FnMut(u64)) { o(*self as u64) } } impl Val for *const u8 { fn mk(v: u64, _: usize) -> Self { v as _ } } impl Ser for *mut N { fn ser(&self, o: &mut dyn FnMut(u64)) { o(*self as u64) } } impl Val for *mut N { fn mk(v: u64, _: usize) -> Self { v as _ } }
fn addr<T>(t: &T) -> usize { t as *const T as usize }
#[no_mangle] extern "C" fn h_s00() { run(|d| { check(core::mem::size_of::<S0>() == ffi::size_0() && core::mem::align_of::<S0>() == ffi::align_0(), c"size-and-alignment");
    let mut s = S0 { f0: val(d, 0), f1: val(d, 1), f2: val(d, 2), f3: val(d, 3), f4: val(d, 4), f5: val(d, 5) };
    check(addr(&s.f0) - addr(&s) == ffi::off_0(0), c"offset");
    check(addr(&s.f1) - addr(&s) == ffi::off_0(1), c"offset");
    check(addr(&s.f2) - addr(&s) == ffi::off_0(2), c"offset");
    check(addr(&s.f3) - addr(&s) == ffi::off_0(3), c"offset");
    check(addr(&s.f4) - addr(&s) == ffi::off_0(4), c"offset");
    check(addr(&s.f5) - addr(&s) == ffi::off_0(5), c"offset");
    let all = |s: &S0| { exp(&s.f0); ffi::get_0(s, 0); exp(&s.f1); ffi::get_0(s, 1); exp(&s.f2); ffi::get_0(s, 2); exp(&s.f3); ffi::get_0(s, 3); exp(&s.f4); ffi::get_0(s, 4); exp(&s.f5); ffi::get_0(s, 5); };
    all(&s); logged();
    match choice(6, c"step") {
    0 => { let i = choice(6, c"field"); if i == 0 { exp(&set_of(&s.f0)); } else { exp(&s.f0); } if i == 1 { exp(&set_of(&s.f1)); } else { exp(&s.f1); } if i == 2 { exp(&set_of(&s.f2)); } else { exp(&s.f2); } if i == 3 { exp(&set_of(&s.f3)); } else { exp(&s.f3); } if i == 4 { exp(&set_of(&s.f4)); } else { exp(&s.f4); } if i == 5 { exp(&set_of(&s.f5)); } else { exp(&s.f5); } ffi::put_0(&mut s, i, unsafe { next.sv }, unsafe { next.sk }); log(&s.f0); log(&s.f1); log(&s.f2); log(&s.f3); log(&s.f4); log(&s.f5); logged(); all(&s); }
    1 => { match choice(6, c"field") { 0 => { s.f0 = set_of(&s.f0); } 1 => { s.f1 = set_of(&s.f1); } 2 => { s.f2 = set_of(&s.f2); } 3 => { s.f3 = set_of(&s.f3); } 4 => { s.f4 = set_of(&s.f4); } _ => { s.f5 = set_of(&s.f5); } } all(&s); }
    2 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); let r = ffi::mov_0(s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); }
    3 => { ffi::eat_0(s); }
    4 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); let mut r = ffi::copy_0(&s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); logged(); all(&s); all(&r); if choice(2, c"first") == 0 { drop(s); all(&r); } else { drop(r); r = S0 { f0: val(d, 1), f1: val(d, 2), f2: val(d, 3), f3: val(d, 4), f4: val(d, 5), f5: val(d, 6) }; ffi::assign_0(&mut r, &s); exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); all(&s); drop(s); all(&r); } }
    5 => { let r = ffi::dfl_0(); exp(&zero_of(&r.f0)); log(&r.f0); exp(&zero_of(&r.f1)); log(&r.f1); exp(&zero_of(&r.f2)); log(&r.f2); exp(&zero_of(&r.f3)); log(&r.f3); exp(&zero_of(&r.f4)); log(&r.f4); exp(&zero_of(&r.f5)); log(&r.f5); }
    _ => {} } logged(); }) }
#[no_mangle] extern "C" fn h_s01() { run(|d| { check(core::mem::size_of::<S1>() == ffi::size_1() && core::mem::align_of::<S1>() == ffi::align_1(), c"size-and-alignment");
    let mut s = S1 { f0: val(d, 0), f1: val(d, 1), f2: val(d, 2), f3: val(d, 3), f4: val(d, 4), f5: val(d, 5) };
    check(addr(&s.f0) - addr(&s) == ffi::off_1(0), c"offset");
    check(addr(&s.f1) - addr(&s) == ffi::off_1(1), c"offset");
    check(addr(&s.f2) - addr(&s) == ffi::off_1(2), c"offset");
    check(addr(&s.f3) - addr(&s) == ffi::off_1(3), c"offset");
    check(addr(&s.f4) - addr(&s) == ffi::off_1(4), c"offset");
    check(addr(&s.f5) - addr(&s) == ffi::off_1(5), c"offset");
    let all = |s: &S1| { exp(&s.f0); ffi::get_1(s, 0); exp(&s.f1); ffi::get_1(s, 1); exp(&s.f2); ffi::get_1(s, 2); exp(&s.f3); ffi::get_1(s, 3); exp(&s.f4); ffi::get_1(s, 4); exp(&s.f5); ffi::get_1(s, 5); };
    all(&s); logged();
    match choice(6, c"step") {
    0 => { let i = choice(6, c"field"); if i == 0 { exp(&set_of(&s.f0)); } else { exp(&s.f0); } if i == 1 { exp(&set_of(&s.f1)); } else { exp(&s.f1); } if i == 2 { exp(&set_of(&s.f2)); } else { exp(&s.f2); } if i == 3 { exp(&set_of(&s.f3)); } else { exp(&s.f3); } if i == 4 { exp(&set_of(&s.f4)); } else { exp(&s.f4); } if i == 5 { exp(&set_of(&s.f5)); } else { exp(&s.f5); } ffi::put_1(&mut s, i, unsafe { next.sv }, unsafe { next.sk }); log(&s.f0); log(&s.f1); log(&s.f2); log(&s.f3); log(&s.f4); log(&s.f5); logged(); all(&s); }
    1 => { match choice(6, c"field") { 0 => { s.f0 = set_of(&s.f0); } 1 => { s.f1 = set_of(&s.f1); } 2 => { s.f2 = set_of(&s.f2); } 3 => { s.f3 = set_of(&s.f3); } 4 => { s.f4 = set_of(&s.f4); } _ => { s.f5 = set_of(&s.f5); } } all(&s); }
    2 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); let r = ffi::mov_1(s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); }
    3 => { ffi::eat_1(s); }
    4 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); let mut r = ffi::copy_1(&s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); logged(); all(&s); all(&r); if choice(2, c"first") == 0 { drop(s); all(&r); } else { drop(r); r = S1 { f0: val(d, 1), f1: val(d, 2), f2: val(d, 3), f3: val(d, 4), f4: val(d, 5), f5: val(d, 6) }; ffi::assign_1(&mut r, &s); exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); all(&s); drop(s); all(&r); } }
    5 => { let r = ffi::dfl_1(); exp(&zero_of(&r.f0)); log(&r.f0); exp(&zero_of(&r.f1)); log(&r.f1); exp(&zero_of(&r.f2)); log(&r.f2); exp(&zero_of(&r.f3)); log(&r.f3); exp(&zero_of(&r.f4)); log(&r.f4); exp(&zero_of(&r.f5)); log(&r.f5); }
    _ => {} } logged(); }) }
#[no_mangle] extern "C" fn h_s02() { run(|d| { check(core::mem::size_of::<S2>() == ffi::size_2() && core::mem::align_of::<S2>() == ffi::align_2(), c"size-and-alignment");
    let mut s = S2 { f0: val(d, 0), f1: val(d, 1), f2: val(d, 2), f3: val(d, 3), f4: val(d, 4), f5: val(d, 5) };
    check(addr(&s.f0) - addr(&s) == ffi::off_2(0), c"offset");
    check(addr(&s.f1) - addr(&s) == ffi::off_2(1), c"offset");
    check(addr(&s.f2) - addr(&s) == ffi::off_2(2), c"offset");
    check(addr(&s.f3) - addr(&s) == ffi::off_2(3), c"offset");
    check(addr(&s.f4) - addr(&s) == ffi::off_2(4), c"offset");
    check(addr(&s.f5) - addr(&s) == ffi::off_2(5), c"offset");
    let all = |s: &S2| { exp(&s.f0); ffi::get_2(s, 0); exp(&s.f1); ffi::get_2(s, 1); exp(&s.f2); ffi::get_2(s, 2); exp(&s.f3); ffi::get_2(s, 3); exp(&s.f4); ffi::get_2(s, 4); exp(&s.f5); ffi::get_2(s, 5); };
    all(&s); logged();
    match choice(6, c"step") {
    0 => { let i = choice(6, c"field"); if i == 0 { exp(&set_of(&s.f0)); } else { exp(&s.f0); } if i == 1 { exp(&set_of(&s.f1)); } else { exp(&s.f1); } if i == 2 { exp(&set_of(&s.f2)); } else { exp(&s.f2); } if i == 3 { exp(&set_of(&s.f3)); } else { exp(&s.f3); } if i == 4 { exp(&set_of(&s.f4)); } else { exp(&s.f4); } if i == 5 { exp(&set_of(&s.f5)); } else { exp(&s.f5); } ffi::put_2(&mut s, i, unsafe { next.sv }, unsafe { next.sk }); log(&s.f0); log(&s.f1); log(&s.f2); log(&s.f3); log(&s.f4); log(&s.f5); logged(); all(&s); }
    1 => { match choice(6, c"field") { 0 => { s.f0 = set_of(&s.f0); } 1 => { s.f1 = set_of(&s.f1); } 2 => { s.f2 = set_of(&s.f2); } 3 => { s.f3 = set_of(&s.f3); } 4 => { s.f4 = set_of(&s.f4); } _ => { s.f5 = set_of(&s.f5); } } all(&s); }
    2 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); let r = ffi::mov_2(s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); }
    3 => { ffi::eat_2(s); }
    _ => {} } logged(); }) }
#[no_mangle] extern "C" fn h_s03() { run(|d| { check(core::mem::size_of::<S3>() == ffi::size_3() && core::mem::align_of::<S3>() == ffi::align_3(), c"size-and-alignment");
    let mut s = S3 { f0: val(d, 0), f1: val(d, 1), f2: val(d, 2), f3: val(d, 3), f4: val(d, 4), f5: val(d, 5) };
    check(addr(&s.f0) - addr(&s) == ffi::off_3(0), c"offset");
    check(addr(&s.f1) - addr(&s) == ffi::off_3(1), c"offset");
    check(addr(&s.f2) - addr(&s) == ffi::off_3(2), c"offset");
    check(addr(&s.f3) - addr(&s) == ffi::off_3(3), c"offset");
    check(addr(&s.f4) - addr(&s) == ffi::off_3(4), c"offset");
    check(addr(&s.f5) - addr(&s) == ffi::off_3(5), c"offset");
    let all = |s: &S3| { exp(&s.f0); ffi::get_3(s, 0); exp(&s.f1); ffi::get_3(s, 1); exp(&s.f2); ffi::get_3(s, 2); exp(&s.f3); ffi::get_3(s, 3); exp(&s.f4); ffi::get_3(s, 4); exp(&s.f5); ffi::get_3(s, 5); };
    all(&s); logged();
    match choice(6, c"step") {
    0 => { let i = choice(6, c"field"); if i == 0 { exp(&set_of(&s.f0)); } else { exp(&s.f0); } if i == 1 { exp(&set_of(&s.f1)); } else { exp(&s.f1); } if i == 2 { exp(&set_of(&s.f2)); } else { exp(&s.f2); } if i == 3 { exp(&set_of(&s.f3)); } else { exp(&s.f3); } if i == 4 { exp(&set_of(&s.f4)); } else { exp(&s.f4); } if i == 5 { exp(&set_of(&s.f5)); } else { exp(&s.f5); } ffi::put_3(&mut s, i, unsafe { next.sv }, unsafe { next.sk }); log(&s.f0); log(&s.f1); log(&s.f2); log(&s.f3); log(&s.f4); log(&s.f5); logged(); all(&s); }
    1 => { match choice(6, c"field") { 0 => { s.f0 = set_of(&s.f0); } 1 => { s.f1 = set_of(&s.f1); } 2 => { s.f2 = set_of(&s.f2); } 3 => { s.f3 = set_of(&s.f3); } 4 => { s.f4 = set_of(&s.f4); } _ => { s.f5 = set_of(&s.f5); } } all(&s); }
    2 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); let r = ffi::mov_3(s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); }
    3 => { ffi::eat_3(s); }
    5 => { let r = ffi::dfl_3(); exp(&zero_of(&r.f0)); log(&r.f0); exp(&zero_of(&r.f1)); log(&r.f1); exp(&zero_of(&r.f2)); log(&r.f2); exp(&zero_of(&r.f3)); log(&r.f3); exp(&zero_of(&r.f4)); log(&r.f4); exp(&zero_of(&r.f5)); log(&r.f5); }
    _ => {} } logged(); }) }
#[no_mangle] extern "C" fn h_s04() { run(|d| { check(core::mem::size_of::<S4>() == ffi::size_4() && core::mem::align_of::<S4>() == ffi::align_4(), c"size-and-alignment");
    let mut s = S4 { f0: val(d, 0), f1: val(d, 1), f2: val(d, 2), f3: val(d, 3), f4: val(d, 4), f5: val(d, 5) };
    check(addr(&s.f0) - addr(&s) == ffi::off_4(0), c"offset");
    check(addr(&s.f1) - addr(&s) == ffi::off_4(1), c"offset");
    check(addr(&s.f2) - addr(&s) == ffi::off_4(2), c"offset");
    check(addr(&s.f3) - addr(&s) == ffi::off_4(3), c"offset");
    check(addr(&s.f4) - addr(&s) == ffi::off_4(4), c"offset");
    check(addr(&s.f5) - addr(&s) == ffi::off_4(5), c"offset");
    let all = |s: &S4| { exp(&s.f0); ffi::get_4(s, 0); exp(&s.f1); ffi::get_4(s, 1); exp(&s.f2); ffi::get_4(s, 2); exp(&s.f3); ffi::get_4(s, 3); exp(&s.f4); ffi::get_4(s, 4); exp(&s.f5); ffi::get_4(s, 5); };
    all(&s); logged();
    match choice(6, c"step") {
    0 => { let i = choice(6, c"field"); if i == 0 { exp(&set_of(&s.f0)); } else { exp(&s.f0); } if i == 1 { exp(&set_of(&s.f1)); } else { exp(&s.f1); } if i == 2 { exp(&set_of(&s.f2)); } else { exp(&s.f2); } if i == 3 { exp(&set_of(&s.f3)); } else { exp(&s.f3); } if i == 4 { exp(&set_of(&s.f4)); } else { exp(&s.f4); } if i == 5 { exp(&set_of(&s.f5)); } else { exp(&s.f5); } ffi::put_4(&mut s, i, unsafe { next.sv }, unsafe { next.sk }); log(&s.f0); log(&s.f1); log(&s.f2); log(&s.f3); log(&s.f4); log(&s.f5); logged(); all(&s); }
    1 => { match choice(6, c"field") { 0 => { s.f0 = set_of(&s.f0); } 1 => { s.f1 = set_of(&s.f1); } 2 => { s.f2 = set_of(&s.f2); } 3 => { s.f3 = set_of(&s.f3); } 4 => { s.f4 = set_of(&s.f4); } _ => { s.f5 = set_of(&s.f5); } } all(&s); }
    2 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); let r = ffi::mov_4(s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); }
    3 => { ffi::eat_4(s); }
    5 => { let r = ffi::dfl_4(); exp(&zero_of(&r.f0)); log(&r.f0); exp(&zero_of(&r.f4)); log(&r.f4); exp(&zero_of(&r.f5)); log(&r.f5); }
    _ => {} } logged(); }) }
#[no_mangle] extern "C" fn h_s05() { run(|d| { check(core::mem::size_of::<S5>() == ffi::size_5() && core::mem::align_of::<S5>() == ffi::align_5(), c"size-and-alignment");
    let mut s = S5 { f0: val(d, 0), f1: val(d, 1), f2: val(d, 2), f3: val(d, 3), f4: val(d, 4), f5: val(d, 5) };
    check(addr(&s.f0) - addr(&s) == ffi::off_5(0), c"offset");
    check(addr(&s.f1) - addr(&s) == ffi::off_5(1), c"offset");
    check(addr(&s.f2) - addr(&s) == ffi::off_5(2), c"offset");
    check(addr(&s.f3) - addr(&s) == ffi::off_5(3), c"offset");
    check(addr(&s.f4) - addr(&s) == ffi::off_5(4), c"offset");
    check(addr(&s.f5) - addr(&s) == ffi::off_5(5), c"offset");
    let all = |s: &S5| { exp(&s.f0); ffi::get_5(s, 0); exp(&s.f1); ffi::get_5(s, 1); exp(&s.f2); ffi::get_5(s, 2); exp(&s.f3); ffi::get_5(s, 3); exp(&s.f4); ffi::get_5(s, 4); exp(&s.f5); ffi::get_5(s, 5); };
    all(&s); logged();
    match choice(6, c"step") {
    0 => { let i = choice(6, c"field"); if i == 0 { exp(&set_of(&s.f0)); } else { exp(&s.f0); } if i == 1 { exp(&set_of(&s.f1)); } else { exp(&s.f1); } if i == 2 { exp(&set_of(&s.f2)); } else { exp(&s.f2); } if i == 3 { exp(&set_of(&s.f3)); } else { exp(&s.f3); } if i == 4 { exp(&set_of(&s.f4)); } else { exp(&s.f4); } if i == 5 { exp(&set_of(&s.f5)); } else { exp(&s.f5); } ffi::put_5(&mut s, i, unsafe { next.sv }, unsafe { next.sk }); log(&s.f0); log(&s.f1); log(&s.f2); log(&s.f3); log(&s.f4); log(&s.f5); logged(); all(&s); }
    1 => { match choice(6, c"field") { 0 => { s.f0 = set_of(&s.f0); } 1 => { s.f1 = set_of(&s.f1); } 2 => { s.f2 = set_of(&s.f2); } 3 => { s.f3 = set_of(&s.f3); } 4 => { s.f4 = set_of(&s.f4); } _ => { s.f5 = set_of(&s.f5); } } all(&s); }
    2 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); let r = ffi::mov_5(s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); }
    3 => { ffi::eat_5(s); }
    4 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); let mut r = ffi::copy_5(&s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); logged(); all(&s); all(&r); if choice(2, c"first") == 0 { drop(s); all(&r); } else { drop(r); r = S5 { f0: val(d, 1), f1: val(d, 2), f2: val(d, 3), f3: val(d, 4), f4: val(d, 5), f5: val(d, 6) }; ffi::assign_5(&mut r, &s); exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); all(&s); drop(s); all(&r); } }
    5 => { let r = ffi::dfl_5(); exp(&zero_of(&r.f0)); log(&r.f0); }
    _ => {} } logged(); }) }
#[no_mangle] extern "C" fn h_s06() { run(|d| { check(core::mem::size_of::<S6>() == ffi::size_6() && core::mem::align_of::<S6>() == ffi::align_6(), c"size-and-alignment");
    let mut s = S6 { f0: val(d, 0), f1: val(d, 1), f2: val(d, 2), f3: val(d, 3), f4: val(d, 4), f5: val(d, 5) };
    check(addr(&s.f0) - addr(&s) == ffi::off_6(0), c"offset");
    check(addr(&s.f1) - addr(&s) == ffi::off_6(1), c"offset");
    check(addr(&s.f2) - addr(&s) == ffi::off_6(2), c"offset");
    check(addr(&s.f3) - addr(&s) == ffi::off_6(3), c"offset");
    check(addr(&s.f4) - addr(&s) == ffi::off_6(4), c"offset");
    check(addr(&s.f5) - addr(&s) == ffi::off_6(5), c"offset");
    let all = |s: &S6| { exp(&s.f0); ffi::get_6(s, 0); exp(&s.f1); ffi::get_6(s, 1); exp(&s.f2); ffi::get_6(s, 2); exp(&s.f3); ffi::get_6(s, 3); exp(&s.f4); ffi::get_6(s, 4); exp(&s.f5); ffi::get_6(s, 5); };
    all(&s); logged();
    match choice(6, c"step") {
    0 => { let i = choice(6, c"field"); if i == 0 { exp(&set_of(&s.f0)); } else { exp(&s.f0); } if i == 1 { exp(&set_of(&s.f1)); } else { exp(&s.f1); } if i == 2 { exp(&set_of(&s.f2)); } else { exp(&s.f2); } if i == 3 { exp(&set_of(&s.f3)); } else { exp(&s.f3); } if i == 4 { exp(&set_of(&s.f4)); } else { exp(&s.f4); } if i == 5 { exp(&set_of(&s.f5)); } else { exp(&s.f5); } ffi::put_6(&mut s, i, unsafe { next.sv }, unsafe { next.sk }); log(&s.f0); log(&s.f1); log(&s.f2); log(&s.f3); log(&s.f4); log(&s.f5); logged(); all(&s); }
    1 => { match choice(6, c"field") { 0 => { s.f0 = set_of(&s.f0); } 1 => { s.f1 = set_of(&s.f1); } 2 => { s.f2 = set_of(&s.f2); } 3 => { s.f3 = set_of(&s.f3); } 4 => { s.f4 = set_of(&s.f4); } _ => { s.f5 = set_of(&s.f5); } } all(&s); }
    2 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); let r = ffi::mov_6(s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); }
    3 => { ffi::eat_6(s); }
    4 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); let mut r = ffi::copy_6(&s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); logged(); all(&s); all(&r); if choice(2, c"first") == 0 { drop(s); all(&r); } else { drop(r); r = S6 { f0: val(d, 1), f1: val(d, 2), f2: val(d, 3), f3: val(d, 4), f4: val(d, 5), f5: val(d, 6) }; ffi::assign_6(&mut r, &s); exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); all(&s); drop(s); all(&r); } }
    _ => {} } logged(); }) }
#[no_mangle] extern "C" fn h_s07() { run(|d| { check(core::mem::size_of::<S7>() == ffi::size_7() && core::mem::align_of::<S7>() == ffi::align_7(), c"size-and-alignment");
    let mut s = S7 { f0: val(d, 0), f1: val(d, 1), f2: val(d, 2), f3: val(d, 3), f4: val(d, 4), f5: val(d, 5) };
    check(addr(&s.f0) - addr(&s) == ffi::off_7(0), c"offset");
    check(addr(&s.f1) - addr(&s) == ffi::off_7(1), c"offset");
    check(addr(&s.f2) - addr(&s) == ffi::off_7(2), c"offset");
    check(addr(&s.f3) - addr(&s) == ffi::off_7(3), c"offset");
    check(addr(&s.f4) - addr(&s) == ffi::off_7(4), c"offset");
    check(addr(&s.f5) - addr(&s) == ffi::off_7(5), c"offset");
    let all = |s: &S7| { exp(&s.f0); ffi::get_7(s, 0); exp(&s.f1); ffi::get_7(s, 1); exp(&s.f2); ffi::get_7(s, 2); exp(&s.f3); ffi::get_7(s, 3); exp(&s.f4); ffi::get_7(s, 4); exp(&s.f5); ffi::get_7(s, 5); };
    all(&s); logged();
    match choice(6, c"step") {
    0 => { let i = choice(6, c"field"); if i == 0 { exp(&set_of(&s.f0)); } else { exp(&s.f0); } if i == 1 { exp(&set_of(&s.f1)); } else { exp(&s.f1); } if i == 2 { exp(&set_of(&s.f2)); } else { exp(&s.f2); } if i == 3 { exp(&set_of(&s.f3)); } else { exp(&s.f3); } if i == 4 { exp(&set_of(&s.f4)); } else { exp(&s.f4); } if i == 5 { exp(&set_of(&s.f5)); } else { exp(&s.f5); } ffi::put_7(&mut s, i, unsafe { next.sv }, unsafe { next.sk }); log(&s.f0); log(&s.f1); log(&s.f2); log(&s.f3); log(&s.f4); log(&s.f5); logged(); all(&s); }
    1 => { match choice(6, c"field") { 0 => { s.f0 = set_of(&s.f0); } 1 => { s.f1 = set_of(&s.f1); } 2 => { s.f2 = set_of(&s.f2); } 3 => { s.f3 = set_of(&s.f3); } 4 => { s.f4 = set_of(&s.f4); } _ => { s.f5 = set_of(&s.f5); } } all(&s); }
    2 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); let r = ffi::mov_7(s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); }
    3 => { ffi::eat_7(s); }
    4 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); let mut r = ffi::copy_7(&s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); logged(); all(&s); all(&r); if choice(2, c"first") == 0 { drop(s); all(&r); } else { drop(r); r = S7 { f0: val(d, 1), f1: val(d, 2), f2: val(d, 3), f3: val(d, 4), f4: val(d, 5), f5: val(d, 6) }; ffi::assign_7(&mut r, &s); exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); all(&s); drop(s); all(&r); } }
    _ => {} } logged(); }) }
#[no_mangle] extern "C" fn h_s08() { run(|d| { check(core::mem::size_of::<S8>() == ffi::size_8() && core::mem::align_of::<S8>() == ffi::align_8(), c"size-and-alignment");
    let mut s = S8 { f0: val(d, 0), f1: val(d, 1), f2: val(d, 2), f3: val(d, 3), f4: val(d, 4), f5: val(d, 5) };
    check(addr(&s.f0) - addr(&s) == ffi::off_8(0), c"offset");
    check(addr(&s.f1) - addr(&s) == ffi::off_8(1), c"offset");
    check(addr(&s.f2) - addr(&s) == ffi::off_8(2), c"offset");
    check(addr(&s.f3) - addr(&s) == ffi::off_8(3), c"offset");
    check(addr(&s.f4) - addr(&s) == ffi::off_8(4), c"offset");
    check(addr(&s.f5) - addr(&s) == ffi::off_8(5), c"offset");
    let all = |s: &S8| { exp(&s.f0); ffi::get_8(s, 0); exp(&s.f1); ffi::get_8(s, 1); exp(&s.f2); ffi::get_8(s, 2); exp(&s.f3); ffi::get_8(s, 3); exp(&s.f4); ffi::get_8(s, 4); exp(&s.f5); ffi::get_8(s, 5); };
    all(&s); logged();
    match choice(6, c"step") {
    0 => { let i = choice(6, c"field"); if i == 0 { exp(&set_of(&s.f0)); } else { exp(&s.f0); } if i == 1 { exp(&set_of(&s.f1)); } else { exp(&s.f1); } if i == 2 { exp(&set_of(&s.f2)); } else { exp(&s.f2); } if i == 3 { exp(&set_of(&s.f3)); } else { exp(&s.f3); } if i == 4 { exp(&set_of(&s.f4)); } else { exp(&s.f4); } if i == 5 { exp(&set_of(&s.f5)); } else { exp(&s.f5); } ffi::put_8(&mut s, i, unsafe { next.sv }, unsafe { next.sk }); log(&s.f0); log(&s.f1); log(&s.f2); log(&s.f3); log(&s.f4); log(&s.f5); logged(); all(&s); }
    1 => { match choice(6, c"field") { 0 => { s.f0 = set_of(&s.f0); } 1 => { s.f1 = set_of(&s.f1); } 2 => { s.f2 = set_of(&s.f2); } 3 => { s.f3 = set_of(&s.f3); } 4 => { s.f4 = set_of(&s.f4); } _ => { s.f5 = set_of(&s.f5); } } all(&s); }
    2 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); let r = ffi::mov_8(s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); }
    3 => { ffi::eat_8(s); }
    4 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); let mut r = ffi::copy_8(&s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); logged(); all(&s); all(&r); if choice(2, c"first") == 0 { drop(s); all(&r); } else { drop(r); r = S8 { f0: val(d, 1), f1: val(d, 2), f2: val(d, 3), f3: val(d, 4), f4: val(d, 5), f5: val(d, 6) }; ffi::assign_8(&mut r, &s); exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); all(&s); drop(s); all(&r); } }
    5 => { let r = ffi::dfl_8(); exp(&zero_of(&r.f1)); log(&r.f1); exp(&zero_of(&r.f2)); log(&r.f2); exp(&zero_of(&r.f3)); log(&r.f3); exp(&zero_of(&r.f4)); log(&r.f4); exp(&zero_of(&r.f5)); log(&r.f5); }
    _ => {} } logged(); }) }
#[no_mangle] extern "C" fn h_s09() { run(|d| { check(core::mem::size_of::<S9>() == ffi::size_9() && core::mem::align_of::<S9>() == ffi::align_9(), c"size-and-alignment");
    let mut s = S9 { f0: val(d, 0), f1: val(d, 1), f2: val(d, 2), f3: val(d, 3), f4: val(d, 4), f5: val(d, 5), f6: val(d, 6), f7: val(d, 7), f8: val(d, 8) };
    check(addr(&s.f0) - addr(&s) == ffi::off_9(0), c"offset");
    check(addr(&s.f1) - addr(&s) == ffi::off_9(1), c"offset");
    check(addr(&s.f2) - addr(&s) == ffi::off_9(2), c"offset");
    check(addr(&s.f3) - addr(&s) == ffi::off_9(3), c"offset");
    check(addr(&s.f4) - addr(&s) == ffi::off_9(4), c"offset");
    check(addr(&s.f5) - addr(&s) == ffi::off_9(5), c"offset");
    check(addr(&s.f6) - addr(&s) == ffi::off_9(6), c"offset");
    check(addr(&s.f7) - addr(&s) == ffi::off_9(7), c"offset");
    check(addr(&s.f8) - addr(&s) == ffi::off_9(8), c"offset");
    let all = |s: &S9| { exp(&s.f0); ffi::get_9(s, 0); exp(&s.f1); ffi::get_9(s, 1); exp(&s.f2); ffi::get_9(s, 2); exp(&s.f3); ffi::get_9(s, 3); exp(&s.f4); ffi::get_9(s, 4); exp(&s.f5); ffi::get_9(s, 5); exp(&s.f6); ffi::get_9(s, 6); exp(&s.f7); ffi::get_9(s, 7); exp(&s.f8); ffi::get_9(s, 8); };
    all(&s); logged();
    match choice(6, c"step") {
    0 => { let i = choice(9, c"field"); if i == 0 { exp(&set_of(&s.f0)); } else { exp(&s.f0); } if i == 1 { exp(&set_of(&s.f1)); } else { exp(&s.f1); } if i == 2 { exp(&set_of(&s.f2)); } else { exp(&s.f2); } if i == 3 { exp(&set_of(&s.f3)); } else { exp(&s.f3); } if i == 4 { exp(&set_of(&s.f4)); } else { exp(&s.f4); } if i == 5 { exp(&set_of(&s.f5)); } else { exp(&s.f5); } if i == 6 { exp(&set_of(&s.f6)); } else { exp(&s.f6); } if i == 7 { exp(&set_of(&s.f7)); } else { exp(&s.f7); } if i == 8 { exp(&set_of(&s.f8)); } else { exp(&s.f8); } ffi::put_9(&mut s, i, unsafe { next.sv }, unsafe { next.sk }); log(&s.f0); log(&s.f1); log(&s.f2); log(&s.f3); log(&s.f4); log(&s.f5); log(&s.f6); log(&s.f7); log(&s.f8); logged(); all(&s); }
    1 => { match choice(9, c"field") { 0 => { s.f0 = set_of(&s.f0); } 1 => { s.f1 = set_of(&s.f1); } 2 => { s.f2 = set_of(&s.f2); } 3 => { s.f3 = set_of(&s.f3); } 4 => { s.f4 = set_of(&s.f4); } 5 => { s.f5 = set_of(&s.f5); } 6 => { s.f6 = set_of(&s.f6); } 7 => { s.f7 = set_of(&s.f7); } _ => { s.f8 = set_of(&s.f8); } } all(&s); }
    2 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); exp(&s.f6); exp(&s.f7); exp(&s.f8); let r = ffi::mov_9(s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); log(&r.f6); log(&r.f7); log(&r.f8); }
    3 => { ffi::eat_9(s); }
    4 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); exp(&s.f6); exp(&s.f7); exp(&s.f8); let mut r = ffi::copy_9(&s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); log(&r.f6); log(&r.f7); log(&r.f8); logged(); all(&s); all(&r); if choice(2, c"first") == 0 { drop(s); all(&r); } else { drop(r); r = S9 { f0: val(d, 1), f1: val(d, 2), f2: val(d, 3), f3: val(d, 4), f4: val(d, 5), f5: val(d, 6), f6: val(d, 7), f7: val(d, 8), f8: val(d, 9) }; ffi::assign_9(&mut r, &s); exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); exp(&s.f6); exp(&s.f7); exp(&s.f8); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); log(&r.f6); log(&r.f7); log(&r.f8); all(&s); drop(s); all(&r); } }
    5 => { let r = ffi::dfl_9(); exp(&zero_of(&r.f0)); log(&r.f0); exp(&zero_of(&r.f1)); log(&r.f1); exp(&zero_of(&r.f2)); log(&r.f2); exp(&zero_of(&r.f3)); log(&r.f3); exp(&zero_of(&r.f4)); log(&r.f4); exp(&zero_of(&r.f7)); log(&r.f7); exp(&zero_of(&r.f8)); log(&r.f8); }
    _ => {} } logged(); }) }
#[no_mangle] extern "C" fn h_s10() { run(|d| { check(core::mem::size_of::<S10>() == ffi::size_10() && core::mem::align_of::<S10>() == ffi::align_10(), c"size-and-alignment");
    let mut s = S10 { f0: val(d, 0), f1: val(d, 1), f2: val(d, 2), f3: val(d, 3), f4: val(d, 4), f5: val(d, 5), f6: val(d, 6), f7: val(d, 7), f8: val(d, 8) };
    check(addr(&s.f0) - addr(&s) == ffi::off_10(0), c"offset");
    check(addr(&s.f1) - addr(&s) == ffi::off_10(1), c"offset");
    check(addr(&s.f2) - addr(&s) == ffi::off_10(2), c"offset");
    check(addr(&s.f3) - addr(&s) == ffi::off_10(3), c"offset");
    check(addr(&s.f4) - addr(&s) == ffi::off_10(4), c"offset");
    check(addr(&s.f5) - addr(&s) == ffi::off_10(5), c"offset");
    check(addr(&s.f6) - addr(&s) == ffi::off_10(6), c"offset");
    check(addr(&s.f7) - addr(&s) == ffi::off_10(7), c"offset");
    check(addr(&s.f8) - addr(&s) == ffi::off_10(8), c"offset");
    let all = |s: &S10| { exp(&s.f0); ffi::get_10(s, 0); exp(&s.f1); ffi::get_10(s, 1); exp(&s.f2); ffi::get_10(s, 2); exp(&s.f3); ffi::get_10(s, 3); exp(&s.f4); ffi::get_10(s, 4); exp(&s.f5); ffi::get_10(s, 5); exp(&s.f6); ffi::get_10(s, 6); exp(&s.f7); ffi::get_10(s, 7); exp(&s.f8); ffi::get_10(s, 8); };
    all(&s); logged();
    match choice(6, c"step") {
    0 => { let i = choice(9, c"field"); if i == 0 { exp(&set_of(&s.f0)); } else { exp(&s.f0); } if i == 1 { exp(&set_of(&s.f1)); } else { exp(&s.f1); } if i == 2 { exp(&set_of(&s.f2)); } else { exp(&s.f2); } if i == 3 { exp(&set_of(&s.f3)); } else { exp(&s.f3); } if i == 4 { exp(&set_of(&s.f4)); } else { exp(&s.f4); } if i == 5 { exp(&set_of(&s.f5)); } else { exp(&s.f5); } if i == 6 { exp(&set_of(&s.f6)); } else { exp(&s.f6); } if i == 7 { exp(&set_of(&s.f7)); } else { exp(&s.f7); } if i == 8 { exp(&set_of(&s.f8)); } else { exp(&s.f8); } ffi::put_10(&mut s, i, unsafe { next.sv }, unsafe { next.sk }); log(&s.f0); log(&s.f1); log(&s.f2); log(&s.f3); log(&s.f4); log(&s.f5); log(&s.f6); log(&s.f7); log(&s.f8); logged(); all(&s); }
    1 => { match choice(9, c"field") { 0 => { s.f0 = set_of(&s.f0); } 1 => { s.f1 = set_of(&s.f1); } 2 => { s.f2 = set_of(&s.f2); } 3 => { s.f3 = set_of(&s.f3); } 4 => { s.f4 = set_of(&s.f4); } 5 => { s.f5 = set_of(&s.f5); } 6 => { s.f6 = set_of(&s.f6); } 7 => { s.f7 = set_of(&s.f7); } _ => { s.f8 = set_of(&s.f8); } } all(&s); }
    2 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); exp(&s.f6); exp(&s.f7); exp(&s.f8); let r = ffi::mov_10(s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); log(&r.f6); log(&r.f7); log(&r.f8); }
    3 => { ffi::eat_10(s); }
    5 => { let r = ffi::dfl_10(); exp(&zero_of(&r.f0)); log(&r.f0); exp(&zero_of(&r.f1)); log(&r.f1); exp(&zero_of(&r.f2)); log(&r.f2); exp(&zero_of(&r.f3)); log(&r.f3); exp(&zero_of(&r.f7)); log(&r.f7); exp(&zero_of(&r.f8)); log(&r.f8); }
    _ => {} } logged(); }) }
#[no_mangle] extern "C" fn h_s11() { run(|d| { check(core::mem::size_of::<S11>() == ffi::size_11() && core::mem::align_of::<S11>() == ffi::align_11(), c"size-and-alignment");
    let mut s = S11 { f0: val(d, 0), f1: val(d, 1), f2: val(d, 2), f3: val(d, 3), f4: val(d, 4), f5: val(d, 5), f6: val(d, 6), f7: val(d, 7), f8: val(d, 8) };
    check(addr(&s.f0) - addr(&s) == ffi::off_11(0), c"offset");
    check(addr(&s.f1) - addr(&s) == ffi::off_11(1), c"offset");
    check(addr(&s.f2) - addr(&s) == ffi::off_11(2), c"offset");
    check(addr(&s.f3) - addr(&s) == ffi::off_11(3), c"offset");
    check(addr(&s.f4) - addr(&s) == ffi::off_11(4), c"offset");
    check(addr(&s.f5) - addr(&s) == ffi::off_11(5), c"offset");
    check(addr(&s.f6) - addr(&s) == ffi::off_11(6), c"offset");
    check(addr(&s.f7) - addr(&s) == ffi::off_11(7), c"offset");
    check(addr(&s.f8) - addr(&s) == ffi::off_11(8), c"offset");
    let all = |s: &S11| { exp(&s.f0); ffi::get_11(s, 0); exp(&s.f1); ffi::get_11(s, 1); exp(&s.f2); ffi::get_11(s, 2); exp(&s.f3); ffi::get_11(s, 3); exp(&s.f4); ffi::get_11(s, 4); exp(&s.f5); ffi::get_11(s, 5); exp(&s.f6); ffi::get_11(s, 6); exp(&s.f7); ffi::get_11(s, 7); exp(&s.f8); ffi::get_11(s, 8); };
    all(&s); logged();
    match choice(6, c"step") {
    0 => { let i = choice(9, c"field"); if i == 0 { exp(&set_of(&s.f0)); } else { exp(&s.f0); } if i == 1 { exp(&set_of(&s.f1)); } else { exp(&s.f1); } if i == 2 { exp(&set_of(&s.f2)); } else { exp(&s.f2); } if i == 3 { exp(&set_of(&s.f3)); } else { exp(&s.f3); } if i == 4 { exp(&set_of(&s.f4)); } else { exp(&s.f4); } if i == 5 { exp(&set_of(&s.f5)); } else { exp(&s.f5); } if i == 6 { exp(&set_of(&s.f6)); } else { exp(&s.f6); } if i == 7 { exp(&set_of(&s.f7)); } else { exp(&s.f7); } if i == 8 { exp(&set_of(&s.f8)); } else { exp(&s.f8); } ffi::put_11(&mut s, i, unsafe { next.sv }, unsafe { next.sk }); log(&s.f0); log(&s.f1); log(&s.f2); log(&s.f3); log(&s.f4); log(&s.f5); log(&s.f6); log(&s.f7); log(&s.f8); logged(); all(&s); }
    1 => { match choice(9, c"field") { 0 => { s.f0 = set_of(&s.f0); } 1 => { s.f1 = set_of(&s.f1); } 2 => { s.f2 = set_of(&s.f2); } 3 => { s.f3 = set_of(&s.f3); } 4 => { s.f4 = set_of(&s.f4); } 5 => { s.f5 = set_of(&s.f5); } 6 => { s.f6 = set_of(&s.f6); } 7 => { s.f7 = set_of(&s.f7); } _ => { s.f8 = set_of(&s.f8); } } all(&s); }
    2 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); exp(&s.f6); exp(&s.f7); exp(&s.f8); let r = ffi::mov_11(s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); log(&r.f6); log(&r.f7); log(&r.f8); }
    3 => { ffi::eat_11(s); }
    5 => { let r = ffi::dfl_11(); exp(&zero_of(&r.f0)); log(&r.f0); exp(&zero_of(&r.f1)); log(&r.f1); exp(&zero_of(&r.f2)); log(&r.f2); exp(&zero_of(&r.f7)); log(&r.f7); exp(&zero_of(&r.f8)); log(&r.f8); }
    _ => {} } logged(); }) }
#[no_mangle] extern "C" fn h_s12() { run(|d| { check(core::mem::size_of::<S12>() == ffi::size_12() && core::mem::align_of::<S12>() == ffi::align_12(), c"size-and-alignment");
    let mut s = S12 { f0: val(d, 0), f1: val(d, 1), f2: val(d, 2), f3: val(d, 3), f4: val(d, 4), f5: val(d, 5), f6: val(d, 6), f7: val(d, 7), f8: val(d, 8) };
    check(addr(&s.f0) - addr(&s) == ffi::off_12(0), c"offset");
    check(addr(&s.f1) - addr(&s) == ffi::off_12(1), c"offset");
    check(addr(&s.f2) - addr(&s) == ffi::off_12(2), c"offset");
    check(addr(&s.f3) - addr(&s) == ffi::off_12(3), c"offset");
    check(addr(&s.f4) - addr(&s) == ffi::off_12(4), c"offset");
    check(addr(&s.f5) - addr(&s) == ffi::off_12(5), c"offset");
    check(addr(&s.f6) - addr(&s) == ffi::off_12(6), c"offset");
    check(addr(&s.f7) - addr(&s) == ffi::off_12(7), c"offset");
    check(addr(&s.f8) - addr(&s) == ffi::off_12(8), c"offset");
    let all = |s: &S12| { exp(&s.f0); ffi::get_12(s, 0); exp(&s.f1); ffi::get_12(s, 1); exp(&s.f2); ffi::get_12(s, 2); exp(&s.f3); ffi::get_12(s, 3); exp(&s.f4); ffi::get_12(s, 4); exp(&s.f5); ffi::get_12(s, 5); exp(&s.f6); ffi::get_12(s, 6); exp(&s.f7); ffi::get_12(s, 7); exp(&s.f8); ffi::get_12(s, 8); };
    all(&s); logged();
    match choice(6, c"step") {
    0 => { let i = choice(9, c"field"); if i == 0 { exp(&set_of(&s.f0)); } else { exp(&s.f0); } if i == 1 { exp(&set_of(&s.f1)); } else { exp(&s.f1); } if i == 2 { exp(&set_of(&s.f2)); } else { exp(&s.f2); } if i == 3 { exp(&set_of(&s.f3)); } else { exp(&s.f3); } if i == 4 { exp(&set_of(&s.f4)); } else { exp(&s.f4); } if i == 5 { exp(&set_of(&s.f5)); } else { exp(&s.f5); } if i == 6 { exp(&set_of(&s.f6)); } else { exp(&s.f6); } if i == 7 { exp(&set_of(&s.f7)); } else { exp(&s.f7); } if i == 8 { exp(&set_of(&s.f8)); } else { exp(&s.f8); } ffi::put_12(&mut s, i, unsafe { next.sv }, unsafe { next.sk }); log(&s.f0); log(&s.f1); log(&s.f2); log(&s.f3); log(&s.f4); log(&s.f5); log(&s.f6); log(&s.f7); log(&s.f8); logged(); all(&s); }
    1 => { match choice(9, c"field") { 0 => { s.f0 = set_of(&s.f0); } 1 => { s.f1 = set_of(&s.f1); } 2 => { s.f2 = set_of(&s.f2); } 3 => { s.f3 = set_of(&s.f3); } 4 => { s.f4 = set_of(&s.f4); } 5 => { s.f5 = set_of(&s.f5); } 6 => { s.f6 = set_of(&s.f6); } 7 => { s.f7 = set_of(&s.f7); } _ => { s.f8 = set_of(&s.f8); } } all(&s); }
    2 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); exp(&s.f6); exp(&s.f7); exp(&s.f8); let r = ffi::mov_12(s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); log(&r.f6); log(&r.f7); log(&r.f8); }
    3 => { ffi::eat_12(s); }
    _ => {} } logged(); }) }
#[no_mangle] extern "C" fn h_s13() { run(|d| { check(core::mem::size_of::<S13>() == ffi::size_13() && core::mem::align_of::<S13>() == ffi::align_13(), c"size-and-alignment");
    let mut s = S13 { f0: val(d, 0), f1: val(d, 1), f2: val(d, 2), f3: val(d, 3), f4: val(d, 4), f5: val(d, 5), f6: val(d, 6), f7: val(d, 7), f8: val(d, 8) };
    check(addr(&s.f0) - addr(&s) == ffi::off_13(0), c"offset");
    check(addr(&s.f1) - addr(&s) == ffi::off_13(1), c"offset");
    check(addr(&s.f2) - addr(&s) == ffi::off_13(2), c"offset");
    check(addr(&s.f3) - addr(&s) == ffi::off_13(3), c"offset");
    check(addr(&s.f4) - addr(&s) == ffi::off_13(4), c"offset");
    check(addr(&s.f5) - addr(&s) == ffi::off_13(5), c"offset");
    check(addr(&s.f6) - addr(&s) == ffi::off_13(6), c"offset");
    check(addr(&s.f7) - addr(&s) == ffi::off_13(7), c"offset");
    check(addr(&s.f8) - addr(&s) == ffi::off_13(8), c"offset");
    let all = |s: &S13| { exp(&s.f0); ffi::get_13(s, 0); exp(&s.f1); ffi::get_13(s, 1); exp(&s.f2); ffi::get_13(s, 2); exp(&s.f3); ffi::get_13(s, 3); exp(&s.f4); ffi::get_13(s, 4); exp(&s.f5); ffi::get_13(s, 5); exp(&s.f6); ffi::get_13(s, 6); exp(&s.f7); ffi::get_13(s, 7); exp(&s.f8); ffi::get_13(s, 8); };
    all(&s); logged();
    match choice(6, c"step") {
    0 => { let i = choice(9, c"field"); if i == 0 { exp(&set_of(&s.f0)); } else { exp(&s.f0); } if i == 1 { exp(&set_of(&s.f1)); } else { exp(&s.f1); } if i == 2 { exp(&set_of(&s.f2)); } else { exp(&s.f2); } if i == 3 { exp(&set_of(&s.f3)); } else { exp(&s.f3); } if i == 4 { exp(&set_of(&s.f4)); } else { exp(&s.f4); } if i == 5 { exp(&set_of(&s.f5)); } else { exp(&s.f5); } if i == 6 { exp(&set_of(&s.f6)); } else { exp(&s.f6); } if i == 7 { exp(&set_of(&s.f7)); } else { exp(&s.f7); } if i == 8 { exp(&set_of(&s.f8)); } else { exp(&s.f8); } ffi::put_13(&mut s, i, unsafe { next.sv }, unsafe { next.sk }); log(&s.f0); log(&s.f1); log(&s.f2); log(&s.f3); log(&s.f4); log(&s.f5); log(&s.f6); log(&s.f7); log(&s.f8); logged(); all(&s); }
    1 => { match choice(9, c"field") { 0 => { s.f0 = set_of(&s.f0); } 1 => { s.f1 = set_of(&s.f1); } 2 => { s.f2 = set_of(&s.f2); } 3 => { s.f3 = set_of(&s.f3); } 4 => { s.f4 = set_of(&s.f4); } 5 => { s.f5 = set_of(&s.f5); } 6 => { s.f6 = set_of(&s.f6); } 7 => { s.f7 = set_of(&s.f7); } _ => { s.f8 = set_of(&s.f8); } } all(&s); }
    2 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); exp(&s.f6); exp(&s.f7); exp(&s.f8); let r = ffi::mov_13(s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); log(&r.f6); log(&r.f7); log(&r.f8); }
    3 => { ffi::eat_13(s); }
    5 => { let r = ffi::dfl_13(); exp(&zero_of(&r.f0)); log(&r.f0); exp(&zero_of(&r.f1)); log(&r.f1); exp(&zero_of(&r.f6)); log(&r.f6); exp(&zero_of(&r.f7)); log(&r.f7); exp(&zero_of(&r.f8)); log(&r.f8); }
    _ => {} } logged(); }) }
#[no_mangle] extern "C" fn h_s14() { run(|d| { check(core::mem::size_of::<S14>() == ffi::size_14() && core::mem::align_of::<S14>() == ffi::align_14(), c"size-and-alignment");
    let mut s = S14 { f0: val(d, 0), f1: val(d, 1), f2: val(d, 2), f3: val(d, 3), f4: val(d, 4), f5: val(d, 5), f6: val(d, 6), f7: val(d, 7) };
    check(addr(&s.f0) - addr(&s) == ffi::off_14(0), c"offset");
    check(addr(&s.f1) - addr(&s) == ffi::off_14(1), c"offset");
    check(addr(&s.f2) - addr(&s) == ffi::off_14(2), c"offset");
    check(addr(&s.f3) - addr(&s) == ffi::off_14(3), c"offset");
    check(addr(&s.f4) - addr(&s) == ffi::off_14(4), c"offset");
    check(addr(&s.f5) - addr(&s) == ffi::off_14(5), c"offset");
    check(addr(&s.f6) - addr(&s) == ffi::off_14(6), c"offset");
    check(addr(&s.f7) - addr(&s) == ffi::off_14(7), c"offset");
    let all = |s: &S14| { exp(&s.f0); ffi::get_14(s, 0); exp(&s.f1); ffi::get_14(s, 1); exp(&s.f2); ffi::get_14(s, 2); exp(&s.f3); ffi::get_14(s, 3); exp(&s.f4); ffi::get_14(s, 4); exp(&s.f5); ffi::get_14(s, 5); exp(&s.f6); ffi::get_14(s, 6); exp(&s.f7); ffi::get_14(s, 7); };
    all(&s); logged();
    match choice(6, c"step") {
    0 => { let i = choice(8, c"field"); if i == 0 { exp(&set_of(&s.f0)); } else { exp(&s.f0); } if i == 1 { exp(&set_of(&s.f1)); } else { exp(&s.f1); } if i == 2 { exp(&set_of(&s.f2)); } else { exp(&s.f2); } if i == 3 { exp(&set_of(&s.f3)); } else { exp(&s.f3); } if i == 4 { exp(&set_of(&s.f4)); } else { exp(&s.f4); } if i == 5 { exp(&set_of(&s.f5)); } else { exp(&s.f5); } if i == 6 { exp(&set_of(&s.f6)); } else { exp(&s.f6); } if i == 7 { exp(&set_of(&s.f7)); } else { exp(&s.f7); } ffi::put_14(&mut s, i, unsafe { next.sv }, unsafe { next.sk }); log(&s.f0); log(&s.f1); log(&s.f2); log(&s.f3); log(&s.f4); log(&s.f5); log(&s.f6); log(&s.f7); logged(); all(&s); }
    1 => { match choice(8, c"field") { 0 => { s.f0 = set_of(&s.f0); } 1 => { s.f1 = set_of(&s.f1); } 2 => { s.f2 = set_of(&s.f2); } 3 => { s.f3 = set_of(&s.f3); } 4 => { s.f4 = set_of(&s.f4); } 5 => { s.f5 = set_of(&s.f5); } 6 => { s.f6 = set_of(&s.f6); } _ => { s.f7 = set_of(&s.f7); } } all(&s); }
    2 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); exp(&s.f6); exp(&s.f7); let r = ffi::mov_14(s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); log(&r.f6); log(&r.f7); }
    3 => { ffi::eat_14(s); }
    _ => {} } logged(); }) }
#[no_mangle] extern "C" fn h_s15() { run(|d| { check(core::mem::size_of::<S15>() == ffi::size_15() && core::mem::align_of::<S15>() == ffi::align_15(), c"size-and-alignment");
    let mut s = S15 { f0: val(d, 0), f1: val(d, 1), f2: val(d, 2), f3: val(d, 3), f4: val(d, 4), f5: val(d, 5), f6: val(d, 6), f7: val(d, 7) };
    check(addr(&s.f0) - addr(&s) == ffi::off_15(0), c"offset");
    check(addr(&s.f1) - addr(&s) == ffi::off_15(1), c"offset");
    check(addr(&s.f2) - addr(&s) == ffi::off_15(2), c"offset");
    check(addr(&s.f3) - addr(&s) == ffi::off_15(3), c"offset");
    check(addr(&s.f4) - addr(&s) == ffi::off_15(4), c"offset");
    check(addr(&s.f5) - addr(&s) == ffi::off_15(5), c"offset");
    check(addr(&s.f6) - addr(&s) == ffi::off_15(6), c"offset");
    check(addr(&s.f7) - addr(&s) == ffi::off_15(7), c"offset");
    let all = |s: &S15| { exp(&s.f0); ffi::get_15(s, 0); exp(&s.f1); ffi::get_15(s, 1); exp(&s.f2); ffi::get_15(s, 2); exp(&s.f3); ffi::get_15(s, 3); exp(&s.f4); ffi::get_15(s, 4); exp(&s.f5); ffi::get_15(s, 5); exp(&s.f6); ffi::get_15(s, 6); exp(&s.f7); ffi::get_15(s, 7); };
    all(&s); logged();
    match choice(6, c"step") {
    0 => { let i = choice(8, c"field"); if i == 0 { exp(&set_of(&s.f0)); } else { exp(&s.f0); } if i == 1 { exp(&set_of(&s.f1)); } else { exp(&s.f1); } if i == 2 { exp(&set_of(&s.f2)); } else { exp(&s.f2); } if i == 3 { exp(&set_of(&s.f3)); } else { exp(&s.f3); } if i == 4 { exp(&set_of(&s.f4)); } else { exp(&s.f4); } if i == 5 { exp(&set_of(&s.f5)); } else { exp(&s.f5); } if i == 6 { exp(&set_of(&s.f6)); } else { exp(&s.f6); } if i == 7 { exp(&set_of(&s.f7)); } else { exp(&s.f7); } ffi::put_15(&mut s, i, unsafe { next.sv }, unsafe { next.sk }); log(&s.f0); log(&s.f1); log(&s.f2); log(&s.f3); log(&s.f4); log(&s.f5); log(&s.f6); log(&s.f7); logged(); all(&s); }
    1 => { match choice(8, c"field") { 0 => { s.f0 = set_of(&s.f0); } 1 => { s.f1 = set_of(&s.f1); } 2 => { s.f2 = set_of(&s.f2); } 3 => { s.f3 = set_of(&s.f3); } 4 => { s.f4 = set_of(&s.f4); } 5 => { s.f5 = set_of(&s.f5); } 6 => { s.f6 = set_of(&s.f6); } _ => { s.f7 = set_of(&s.f7); } } all(&s); }
    2 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); exp(&s.f6); exp(&s.f7); let r = ffi::mov_15(s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); log(&r.f6); log(&r.f7); }
    3 => { ffi::eat_15(s); }
    _ => {} } logged(); }) }
#[no_mangle] extern "C" fn h_s16() { run(|d| { check(core::mem::size_of::<S16>() == ffi::size_16() && core::mem::align_of::<S16>() == ffi::align_16(), c"size-and-alignment");
    let mut s = S16 { f0: val(d, 0), f1: val(d, 1), f2: val(d, 2), f3: val(d, 3), f4: val(d, 4), f5: val(d, 5), f6: val(d, 6), f7: val(d, 7) };
    check(addr(&s.f0) - addr(&s) == ffi::off_16(0), c"offset");
    check(addr(&s.f1) - addr(&s) == ffi::off_16(1), c"offset");
    check(addr(&s.f2) - addr(&s) == ffi::off_16(2), c"offset");
    check(addr(&s.f3) - addr(&s) == ffi::off_16(3), c"offset");
    check(addr(&s.f4) - addr(&s) == ffi::off_16(4), c"offset");
    check(addr(&s.f5) - addr(&s) == ffi::off_16(5), c"offset");
    check(addr(&s.f6) - addr(&s) == ffi::off_16(6), c"offset");
    check(addr(&s.f7) - addr(&s) == ffi::off_16(7), c"offset");
    let all = |s: &S16| { exp(&s.f0); ffi::get_16(s, 0); exp(&s.f1); ffi::get_16(s, 1); exp(&s.f2); ffi::get_16(s, 2); exp(&s.f3); ffi::get_16(s, 3); exp(&s.f4); ffi::get_16(s, 4); exp(&s.f5); ffi::get_16(s, 5); exp(&s.f6); ffi::get_16(s, 6); exp(&s.f7); ffi::get_16(s, 7); };
    all(&s); logged();
    match choice(6, c"step") {
    0 => { let i = choice(8, c"field"); if i == 0 { exp(&set_of(&s.f0)); } else { exp(&s.f0); } if i == 1 { exp(&set_of(&s.f1)); } else { exp(&s.f1); } if i == 2 { exp(&set_of(&s.f2)); } else { exp(&s.f2); } if i == 3 { exp(&set_of(&s.f3)); } else { exp(&s.f3); } if i == 4 { exp(&set_of(&s.f4)); } else { exp(&s.f4); } if i == 5 { exp(&set_of(&s.f5)); } else { exp(&s.f5); } if i == 6 { exp(&set_of(&s.f6)); } else { exp(&s.f6); } if i == 7 { exp(&set_of(&s.f7)); } else { exp(&s.f7); } ffi::put_16(&mut s, i, unsafe { next.sv }, unsafe { next.sk }); log(&s.f0); log(&s.f1); log(&s.f2); log(&s.f3); log(&s.f4); log(&s.f5); log(&s.f6); log(&s.f7); logged(); all(&s); }
    1 => { match choice(8, c"field") { 0 => { s.f0 = set_of(&s.f0); } 1 => { s.f1 = set_of(&s.f1); } 2 => { s.f2 = set_of(&s.f2); } 3 => { s.f3 = set_of(&s.f3); } 4 => { s.f4 = set_of(&s.f4); } 5 => { s.f5 = set_of(&s.f5); } 6 => { s.f6 = set_of(&s.f6); } _ => { s.f7 = set_of(&s.f7); } } all(&s); }
    2 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); exp(&s.f5); exp(&s.f6); exp(&s.f7); let r = ffi::mov_16(s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); log(&r.f5); log(&r.f6); log(&r.f7); }
    3 => { ffi::eat_16(s); }
    _ => {} } logged(); }) }
#[no_mangle] extern "C" fn h_s17() { run(|d| { check(core::mem::size_of::<S17>() == ffi::size_17() && core::mem::align_of::<S17>() == ffi::align_17(), c"size-and-alignment");
    let mut s = S17 { f0: val(d, 0), f1: val(d, 1), f2: val(d, 2) };
    check(addr(&s.f0) - addr(&s) == ffi::off_17(0), c"offset");
    check(addr(&s.f1) - addr(&s) == ffi::off_17(1), c"offset");
    check(addr(&s.f2) - addr(&s) == ffi::off_17(2), c"offset");
    let all = |s: &S17| { exp(&s.f0); ffi::get_17(s, 0); exp(&s.f1); ffi::get_17(s, 1); exp(&s.f2); ffi::get_17(s, 2); };
    all(&s); logged();
    match choice(6, c"step") {
    0 => { let i = choice(3, c"field"); if i == 0 { exp(&set_of(&s.f0)); } else { exp(&s.f0); } if i == 1 { exp(&set_of(&s.f1)); } else { exp(&s.f1); } if i == 2 { exp(&set_of(&s.f2)); } else { exp(&s.f2); } ffi::put_17(&mut s, i, unsafe { next.sv }, unsafe { next.sk }); log(&s.f0); log(&s.f1); log(&s.f2); logged(); all(&s); }
    1 => { match choice(3, c"field") { 0 => { s.f0 = set_of(&s.f0); } 1 => { s.f1 = set_of(&s.f1); } _ => { s.f2 = set_of(&s.f2); } } all(&s); }
    2 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); let r = ffi::mov_17(s); log(&r.f0); log(&r.f1); log(&r.f2); }
    3 => { ffi::eat_17(s); }
    4 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); let mut r = ffi::copy_17(&s); log(&r.f0); log(&r.f1); log(&r.f2); logged(); all(&s); all(&r); if choice(2, c"first") == 0 { drop(s); all(&r); } else { drop(r); r = S17 { f0: val(d, 1), f1: val(d, 2), f2: val(d, 3) }; ffi::assign_17(&mut r, &s); exp(&s.f0); exp(&s.f1); exp(&s.f2); log(&r.f0); log(&r.f1); log(&r.f2); all(&s); drop(s); all(&r); } }
    5 => { let r = ffi::dfl_17(); exp(&zero_of(&r.f0)); log(&r.f0); exp(&zero_of(&r.f1)); log(&r.f1); exp(&zero_of(&r.f2)); log(&r.f2); }
    _ => {} } logged(); }) }
#[no_mangle] extern "C" fn h_s18() { run(|d| { check(core::mem::size_of::<S18>() == ffi::size_18() && core::mem::align_of::<S18>() == ffi::align_18(), c"size-and-alignment");
    let mut s = S18 { f0: val(d, 0), f1: val(d, 1), f2: val(d, 2), f3: val(d, 3) };
    check(addr(&s.f0) - addr(&s) == ffi::off_18(0), c"offset");
    check(addr(&s.f1) - addr(&s) == ffi::off_18(1), c"offset");
    check(addr(&s.f2) - addr(&s) == ffi::off_18(2), c"offset");
    check(addr(&s.f3) - addr(&s) == ffi::off_18(3), c"offset");
    let all = |s: &S18| { exp(&s.f0); ffi::get_18(s, 0); exp(&s.f1); ffi::get_18(s, 1); exp(&s.f2); ffi::get_18(s, 2); exp(&s.f3); ffi::get_18(s, 3); };
    all(&s); logged();
    match choice(6, c"step") {
    0 => { let i = choice(4, c"field"); if i == 0 { exp(&set_of(&s.f0)); } else { exp(&s.f0); } if i == 1 { exp(&set_of(&s.f1)); } else { exp(&s.f1); } if i == 2 { exp(&set_of(&s.f2)); } else { exp(&s.f2); } if i == 3 { exp(&set_of(&s.f3)); } else { exp(&s.f3); } ffi::put_18(&mut s, i, unsafe { next.sv }, unsafe { next.sk }); log(&s.f0); log(&s.f1); log(&s.f2); log(&s.f3); logged(); all(&s); }
    1 => { match choice(4, c"field") { 0 => { s.f0 = set_of(&s.f0); } 1 => { s.f1 = set_of(&s.f1); } 2 => { s.f2 = set_of(&s.f2); } _ => { s.f3 = set_of(&s.f3); } } all(&s); }
    2 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); let r = ffi::mov_18(s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); }
    3 => { ffi::eat_18(s); }
    4 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); let mut r = ffi::copy_18(&s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); logged(); all(&s); all(&r); if choice(2, c"first") == 0 { drop(s); all(&r); } else { drop(r); r = S18 { f0: val(d, 1), f1: val(d, 2), f2: val(d, 3), f3: val(d, 4) }; ffi::assign_18(&mut r, &s); exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); all(&s); drop(s); all(&r); } }
    5 => { let r = ffi::dfl_18(); exp(&zero_of(&r.f0)); log(&r.f0); exp(&zero_of(&r.f1)); log(&r.f1); exp(&zero_of(&r.f2)); log(&r.f2); exp(&zero_of(&r.f3)); log(&r.f3); }
    _ => {} } logged(); }) }
#[no_mangle] extern "C" fn h_s19() { run(|d| { check(core::mem::size_of::<S19>() == ffi::size_19() && core::mem::align_of::<S19>() == ffi::align_19(), c"size-and-alignment");
    let mut s = S19 { f0: val(d, 0) };
    check(addr(&s.f0) - addr(&s) == ffi::off_19(0), c"offset");
    let all = |s: &S19| { exp(&s.f0); ffi::get_19(s, 0); };
    all(&s); logged();
    match choice(6, c"step") {
    0 => { let i = choice(1, c"field"); if i == 0 { exp(&set_of(&s.f0)); } else { exp(&s.f0); } ffi::put_19(&mut s, i, unsafe { next.sv }, unsafe { next.sk }); log(&s.f0); logged(); all(&s); }
    1 => { match choice(1, c"field") { _ => { s.f0 = set_of(&s.f0); } } all(&s); }
    2 => { exp(&s.f0); let r = ffi::mov_19(s); log(&r.f0); }
    3 => { ffi::eat_19(s); }
    4 => { exp(&s.f0); let mut r = ffi::copy_19(&s); log(&r.f0); logged(); all(&s); all(&r); if choice(2, c"first") == 0 { drop(s); all(&r); } else { drop(r); r = S19 { f0: val(d, 1) }; ffi::assign_19(&mut r, &s); exp(&s.f0); log(&r.f0); all(&s); drop(s); all(&r); } }
    5 => { let r = ffi::dfl_19(); exp(&zero_of(&r.f0)); log(&r.f0); }
    _ => {} } logged(); }) }
#[no_mangle] extern "C" fn h_s20() { run(|d| { check(core::mem::size_of::<S20>() == ffi::size_20() && core::mem::align_of::<S20>() == ffi::align_20(), c"size-and-alignment");
    let mut s = S20 { f0: val(d, 0), f1: val(d, 1) };
    check(addr(&s.f0) - addr(&s) == ffi::off_20(0), c"offset");
    check(addr(&s.f1) - addr(&s) == ffi::off_20(1), c"offset");
    let all = |s: &S20| { exp(&s.f0); ffi::get_20(s, 0); exp(&s.f1); ffi::get_20(s, 1); };
    all(&s); logged();
    match choice(6, c"step") {
    0 => { let i = choice(2, c"field"); if i == 0 { exp(&set_of(&s.f0)); } else { exp(&s.f0); } if i == 1 { exp(&set_of(&s.f1)); } else { exp(&s.f1); } ffi::put_20(&mut s, i, unsafe { next.sv }, unsafe { next.sk }); log(&s.f0); log(&s.f1); logged(); all(&s); }
    1 => { match choice(2, c"field") { 0 => { s.f0 = set_of(&s.f0); } _ => { s.f1 = set_of(&s.f1); } } all(&s); }
    2 => { exp(&s.f0); exp(&s.f1); let r = ffi::mov_20(s); log(&r.f0); log(&r.f1); }
    3 => { ffi::eat_20(s); }
    4 => { exp(&s.f0); exp(&s.f1); let mut r = ffi::copy_20(&s); log(&r.f0); log(&r.f1); logged(); all(&s); all(&r); if choice(2, c"first") == 0 { drop(s); all(&r); } else { drop(r); r = S20 { f0: val(d, 1), f1: val(d, 2) }; ffi::assign_20(&mut r, &s); exp(&s.f0); exp(&s.f1); log(&r.f0); log(&r.f1); all(&s); drop(s); all(&r); } }
    5 => { let r = ffi::dfl_20(); exp(&zero_of(&r.f1)); log(&r.f1); }
    _ => {} } logged(); }) }
#[no_mangle] extern "C" fn h_s21() { run(|d| { check(core::mem::size_of::<S21>() == ffi::size_21() && core::mem::align_of::<S21>() == ffi::align_21(), c"size-and-alignment");
    let mut s = S21 { f0: val(d, 0), f1: val(d, 1), f2: val(d, 2), f3: val(d, 3), f4: val(d, 4) };
    check(addr(&s.f0) - addr(&s) == ffi::off_21(0), c"offset");
    check(addr(&s.f1) - addr(&s) == ffi::off_21(1), c"offset");
    check(addr(&s.f2) - addr(&s) == ffi::off_21(2), c"offset");
    check(addr(&s.f3) - addr(&s) == ffi::off_21(3), c"offset");
    check(addr(&s.f4) - addr(&s) == ffi::off_21(4), c"offset");
    let all = |s: &S21| { exp(&s.f0); ffi::get_21(s, 0); exp(&s.f1); ffi::get_21(s, 1); exp(&s.f2); ffi::get_21(s, 2); exp(&s.f3); ffi::get_21(s, 3); exp(&s.f4); ffi::get_21(s, 4); };
    all(&s); logged();
    match choice(6, c"step") {
    0 => { let i = choice(5, c"field"); if i == 0 { exp(&set_of(&s.f0)); } else { exp(&s.f0); } if i == 1 { exp(&set_of(&s.f1)); } else { exp(&s.f1); } if i == 2 { exp(&set_of(&s.f2)); } else { exp(&s.f2); } if i == 3 { exp(&set_of(&s.f3)); } else { exp(&s.f3); } if i == 4 { exp(&set_of(&s.f4)); } else { exp(&s.f4); } ffi::put_21(&mut s, i, unsafe { next.sv }, unsafe { next.sk }); log(&s.f0); log(&s.f1); log(&s.f2); log(&s.f3); log(&s.f4); logged(); all(&s); }
    1 => { match choice(5, c"field") { 0 => { s.f0 = set_of(&s.f0); } 1 => { s.f1 = set_of(&s.f1); } 2 => { s.f2 = set_of(&s.f2); } 3 => { s.f3 = set_of(&s.f3); } _ => { s.f4 = set_of(&s.f4); } } all(&s); }
    2 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); let r = ffi::mov_21(s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); }
    3 => { ffi::eat_21(s); }
    4 => { exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); let mut r = ffi::copy_21(&s); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); logged(); all(&s); all(&r); if choice(2, c"first") == 0 { drop(s); all(&r); } else { drop(r); r = S21 { f0: val(d, 1), f1: val(d, 2), f2: val(d, 3), f3: val(d, 4), f4: val(d, 5) }; ffi::assign_21(&mut r, &s); exp(&s.f0); exp(&s.f1); exp(&s.f2); exp(&s.f3); exp(&s.f4); log(&r.f0); log(&r.f1); log(&r.f2); log(&r.f3); log(&r.f4); all(&s); drop(s); all(&r); } }
    5 => { let r = ffi::dfl_21(); exp(&zero_of(&r.f0)); log(&r.f0); exp(&zero_of(&r.f2)); log(&r.f2); }
    _ => {} } logged(); }) }
#[no_mangle] extern "C" fn h_s22() { run(|d| { check(core::mem::size_of::<S22>() == ffi::size_22() && core::mem::align_of::<S22>() == ffi::align_22(), c"size-and-alignment");
    let mut s = S22 { f0: val(d, 0), f1: val(d, 1) };
    check(addr(&s.f0) - addr(&s) == ffi::off_22(0), c"offset");
    check(addr(&s.f1) - addr(&s) == ffi::off_22(1), c"offset");
    let all = |s: &S22| { exp(&s.f0); ffi::get_22(s, 0); exp(&s.f1); ffi::get_22(s, 1); };
    all(&s); logged();
    match choice(6, c"step") {
    0 => { let i = choice(2, c"field"); if i == 0 { exp(&set_of(&s.f0)); } else { exp(&s.f0); } if i == 1 { exp(&set_of(&s.f1)); } else { exp(&s.f1); } ffi::put_22(&mut s, i, unsafe { next.sv }, unsafe { next.sk }); log(&s.f0); log(&s.f1); logged(); all(&s); }
    1 => { match choice(2, c"field") { 0 => { s.f0 = set_of(&s.f0); } _ => { s.f1 = set_of(&s.f1); } } all(&s); }
    2 => { exp(&s.f0); exp(&s.f1); let r = ffi::mov_22(s); log(&r.f0); log(&r.f1); }
    3 => { ffi::eat_22(s); }
    4 => { exp(&s.f0); exp(&s.f1); let mut r = ffi::copy_22(&s); log(&r.f0); log(&r.f1); logged(); all(&s); all(&r); if choice(2, c"first") == 0 { drop(s); all(&r); } else { drop(r); r = S22 { f0: val(d, 1), f1: val(d, 2) }; ffi::assign_22(&mut r, &s); exp(&s.f0); exp(&s.f1); log(&r.f0); log(&r.f1); all(&s); drop(s); all(&r); } }
    5 => { let r = ffi::dfl_22(); exp(&zero_of(&r.f0)); log(&r.f0); exp(&zero_of(&r.f1)); log(&r.f1); }
    _ => {} } logged(); }) }
fn set_of<T: Val>(_: &T) -> T { unsafe { T::mk(next.sv, next.sk) } }
fn zero_of<T: Val>(_: &T) -> T { T::mk(0, 0) }
#[no_mangle] extern "C" fn h_eu8() { run(|_| { let r = if let 0 = choice(2, c"value") { Eu8 { repr: u64_(64, c"repr") as _ } } else { ffi::variant_Eu8(choice(3, c"variant")) };
    check(core::mem::size_of::<Eu8>() == ffi::esize_Eu8(), c"enum-size"); check(ffi::echo_Eu8(r).repr == r.repr, c"passes-unchanged"); check(ffi::num_Eu8(r) == r.repr as i128 as u64, c"same-number");
    let w = match r { Eu8::A => 0, Eu8::B => 1, Eu8::C => 2, _ => 99 }; check(ffi::which_Eu8(r) == w, c"same-variant");
    check(Eu8::A.repr as i128 == 0 && ffi::variant_Eu8(0).repr as i128 == 0, c"variant-value");
    check(Eu8::B.repr as i128 == 1 && ffi::variant_Eu8(1).repr as i128 == 1, c"variant-value");
    check(Eu8::C.repr as i128 == 255 && ffi::variant_Eu8(2).repr as i128 == 255, c"variant-value");
    let mut h = Hold_Eu8 { a: 1, e: r, b: [Eu8::A, r] }; check(ffi::in_Eu8(&mut h) == r && h.a == 2 && h.e == Eu8::B && h.b[0] == r && h.b[1] == Eu8::A, c"fields"); }) }
#[no_mangle] extern "C" fn h_ei8() { run(|_| { let r = if let 0 = choice(2, c"value") { Ei8 { repr: u64_(64, c"repr") as _ } } else { ffi::variant_Ei8(choice(4, c"variant")) };
    check(core::mem::size_of::<Ei8>() == ffi::esize_Ei8(), c"enum-size"); check(ffi::echo_Ei8(r).repr == r.repr, c"passes-unchanged"); check(ffi::num_Ei8(r) == r.repr as i128 as u64, c"same-number");
    let w = match r { Ei8::A => 0, Ei8::B => 1, Ei8::C => 2, Ei8::D => 3, _ => 99 }; check(ffi::which_Ei8(r) == w, c"same-variant");
    check(Ei8::A.repr as i128 == -128 && ffi::variant_Ei8(0).repr as i128 == -128, c"variant-value");
    check(Ei8::B.repr as i128 == -1 && ffi::variant_Ei8(1).repr as i128 == -1, c"variant-value");
    check(Ei8::C.repr as i128 == 0 && ffi::variant_Ei8(2).repr as i128 == 0, c"variant-value");
    check(Ei8::D.repr as i128 == 127 && ffi::variant_Ei8(3).repr as i128 == 127, c"variant-value");
    let mut h = Hold_Ei8 { a: 1, e: r, b: [Ei8::A, r] }; check(ffi::in_Ei8(&mut h) == r && h.a == 2 && h.e == Ei8::B && h.b[0] == r && h.b[1] == Ei8::A, c"fields"); }) }
#[no_mangle] extern "C" fn h_eu16() { run(|_| { let r = if let 0 = choice(2, c"value") { Eu16 { repr: u64_(64, c"repr") as _ } } else { ffi::variant_Eu16(choice(2, c"variant")) };
    check(core::mem::size_of::<Eu16>() == ffi::esize_Eu16(), c"enum-size"); check(ffi::echo_Eu16(r).repr == r.repr, c"passes-unchanged"); check(ffi::num_Eu16(r) == r.repr as i128 as u64, c"same-number");
    let w = match r { Eu16::A => 0, Eu16::B => 1, _ => 99 }; check(ffi::which_Eu16(r) == w, c"same-variant");
    check(Eu16::A.repr as i128 == 65535 && ffi::variant_Eu16(0).repr as i128 == 65535, c"variant-value");
    check(Eu16::B.repr as i128 == 5 && ffi::variant_Eu16(1).repr as i128 == 5, c"variant-value");
    let mut h = Hold_Eu16 { a: 1, e: r, b: [Eu16::A, r] }; check(ffi::in_Eu16(&mut h) == r && h.a == 2 && h.e == Eu16::B && h.b[0] == r && h.b[1] == Eu16::A, c"fields"); }) }
#[no_mangle] extern "C" fn h_eii16() { run(|_| { let r = if let 0 = choice(2, c"value") { Eii16 { repr: u64_(64, c"repr") as _ } } else { ffi::variant_Eii16(choice(2, c"variant")) };
    check(core::mem::size_of::<Eii16>() == ffi::esize_Eii16(), c"enum-size"); check(ffi::echo_Eii16(r).repr == r.repr, c"passes-unchanged"); check(ffi::num_Eii16(r) == r.repr as i128 as u64, c"same-number");
    let w = match r { Eii16::A => 0, Eii16::B => 1, _ => 99 }; check(ffi::which_Eii16(r) == w, c"same-variant");
    check(Eii16::A.repr as i128 == -32768 && ffi::variant_Eii16(0).repr as i128 == -32768, c"variant-value");
    check(Eii16::B.repr as i128 == 32767 && ffi::variant_Eii16(1).repr as i128 == 32767, c"variant-value");
    let mut h = Hold_Eii16 { a: 1, e: r, b: [Eii16::A, r] }; check(ffi::in_Eii16(&mut h) == r && h.a == 2 && h.e == Eii16::B && h.b[0] == r && h.b[1] == Eii16::A, c"fields"); }) }
#[no_mangle] extern "C" fn h_eu32() { run(|_| { let r = if let 0 = choice(2, c"value") { Eu32 { repr: u64_(64, c"repr") as _ } } else { ffi::variant_Eu32(choice(2, c"variant")) };
    check(core::mem::size_of::<Eu32>() == ffi::esize_Eu32(), c"enum-size"); check(ffi::echo_Eu32(r).repr == r.repr, c"passes-unchanged"); check(ffi::num_Eu32(r) == r.repr as i128 as u64, c"same-number");
    let w = match r { Eu32::A => 0, Eu32::B => 1, _ => 99 }; check(ffi::which_Eu32(r) == w, c"same-variant");
    check(Eu32::A.repr as i128 == 4294967295 && ffi::variant_Eu32(0).repr as i128 == 4294967295, c"variant-value");
    check(Eu32::B.repr as i128 == 0 && ffi::variant_Eu32(1).repr as i128 == 0, c"variant-value");
    let mut h = Hold_Eu32 { a: 1, e: r, b: [Eu32::A, r] }; check(ffi::in_Eu32(&mut h) == r && h.a == 2 && h.e == Eu32::B && h.b[0] == r && h.b[1] == Eu32::A, c"fields"); }) }
#[no_mangle] extern "C" fn h_ei32() { run(|_| { let r = if let 0 = choice(2, c"value") { Ei32 { repr: u64_(64, c"repr") as _ } } else { ffi::variant_Ei32(choice(3, c"variant")) };
    check(core::mem::size_of::<Ei32>() == ffi::esize_Ei32(), c"enum-size"); check(ffi::echo_Ei32(r).repr == r.repr, c"passes-unchanged"); check(ffi::num_Ei32(r) == r.repr as i128 as u64, c"same-number");
    let w = match r { Ei32::A => 0, Ei32::B => 1, Ei32::C => 2, _ => 99 }; check(ffi::which_Ei32(r) == w, c"same-variant");
    check(Ei32::A.repr as i128 == -2147483648 && ffi::variant_Ei32(0).repr as i128 == -2147483648, c"variant-value");
    check(Ei32::B.repr as i128 == 2147483647 && ffi::variant_Ei32(1).repr as i128 == 2147483647, c"variant-value");
    check(Ei32::C.repr as i128 == -7 && ffi::variant_Ei32(2).repr as i128 == -7, c"variant-value");
    let mut h = Hold_Ei32 { a: 1, e: r, b: [Ei32::A, r] }; check(ffi::in_Ei32(&mut h) == r && h.a == 2 && h.e == Ei32::B && h.b[0] == r && h.b[1] == Ei32::A, c"fields"); }) }
#[no_mangle] extern "C" fn h_euu64() { run(|_| { let r = if let 0 = choice(2, c"value") { Euu64 { repr: u64_(64, c"repr") as _ } } else { ffi::variant_Euu64(choice(2, c"variant")) };
    check(core::mem::size_of::<Euu64>() == ffi::esize_Euu64(), c"enum-size"); check(ffi::echo_Euu64(r).repr == r.repr, c"passes-unchanged"); check(ffi::num_Euu64(r) == r.repr as i128 as u64, c"same-number");
    let w = match r { Euu64::A => 0, Euu64::B => 1, _ => 99 }; check(ffi::which_Euu64(r) == w, c"same-variant");
    check(Euu64::A.repr as i128 == 18446744073709551615 && ffi::variant_Euu64(0).repr as i128 == 18446744073709551615, c"variant-value");
    check(Euu64::B.repr as i128 == 9223372036854775808 && ffi::variant_Euu64(1).repr as i128 == 9223372036854775808, c"variant-value");
    let mut h = Hold_Euu64 { a: 1, e: r, b: [Euu64::A, r] }; check(ffi::in_Euu64(&mut h) == r && h.a == 2 && h.e == Euu64::B && h.b[0] == r && h.b[1] == Euu64::A, c"fields"); }) }
#[no_mangle] extern "C" fn h_ei64() { run(|_| { let r = if let 0 = choice(2, c"value") { Ei64 { repr: u64_(64, c"repr") as _ } } else { ffi::variant_Ei64(choice(2, c"variant")) };
    check(core::mem::size_of::<Ei64>() == ffi::esize_Ei64(), c"enum-size"); check(ffi::echo_Ei64(r).repr == r.repr, c"passes-unchanged"); check(ffi::num_Ei64(r) == r.repr as i128 as u64, c"same-number");
    let w = match r { Ei64::A => 0, Ei64::B => 1, _ => 99 }; check(ffi::which_Ei64(r) == w, c"same-variant");
    check(Ei64::A.repr as i128 == -9223372036854775808 && ffi::variant_Ei64(0).repr as i128 == -9223372036854775808, c"variant-value");
    check(Ei64::B.repr as i128 == 9223372036854775807 && ffi::variant_Ei64(1).repr as i128 == 9223372036854775807, c"variant-value");
    let mut h = Hold_Ei64 { a: 1, e: r, b: [Ei64::A, r] }; check(ffi::in_Ei64(&mut h) == r && h.a == 2 && h.e == Ei64::B && h.b[0] == r && h.b[1] == Ei64::A, c"fields"); }) }
#[no_mangle] extern "C" fn h_eusize() { run(|_| { let r = if let 0 = choice(2, c"value") { Eusize { repr: u64_(64, c"repr") as _ } } else { ffi::variant_Eusize(choice(2, c"variant")) };
    check(core::mem::size_of::<Eusize>() == ffi::esize_Eusize(), c"enum-size"); check(ffi::echo_Eusize(r).repr == r.repr, c"passes-unchanged"); check(ffi::num_Eusize(r) == r.repr as i128 as u64, c"same-number");
    let w = match r { Eusize::A => 0, Eusize::B => 1, _ => 99 }; check(ffi::which_Eusize(r) == w, c"same-variant");
    check(Eusize::A.repr as i128 == 18446744073709551615 && ffi::variant_Eusize(0).repr as i128 == 18446744073709551615, c"variant-value");
    check(Eusize::B.repr as i128 == 1 && ffi::variant_Eusize(1).repr as i128 == 1, c"variant-value");
    let mut h = Hold_Eusize { a: 1, e: r, b: [Eusize::A, r] }; check(ffi::in_Eusize(&mut h) == r && h.a == 2 && h.e == Eusize::B && h.b[0] == r && h.b[1] == Eusize::A, c"fields"); }) }
#[no_mangle] extern "C" fn h_eisize() { run(|_| { let r = if let 0 = choice(2, c"value") { Eisize { repr: u64_(64, c"repr") as _ } } else { ffi::variant_Eisize(choice(2, c"variant")) };
    check(core::mem::size_of::<Eisize>() == ffi::esize_Eisize(), c"enum-size"); check(ffi::echo_Eisize(r).repr == r.repr, c"passes-unchanged"); check(ffi::num_Eisize(r) == r.repr as i128 as u64, c"same-number");
    let w = match r { Eisize::A => 0, Eisize::B => 1, _ => 99 }; check(ffi::which_Eisize(r) == w, c"same-variant");
    check(Eisize::A.repr as i128 == -9223372036854775808 && ffi::variant_Eisize(0).repr as i128 == -9223372036854775808, c"variant-value");
    check(Eisize::B.repr as i128 == 9223372036854775807 && ffi::variant_Eisize(1).repr as i128 == 9223372036854775807, c"variant-value");
    let mut h = Hold_Eisize { a: 1, e: r, b: [Eisize::A, r] }; check(ffi::in_Eisize(&mut h) == r && h.a == 2 && h.e == Eisize::B && h.b[0] == r && h.b[1] == Eisize::A, c"fields"); }) }
#[no_mangle] extern "C" fn h_eimp() { run(|_| { let r = if let 0 = choice(2, c"value") { Eimp { repr: u64_(64, c"repr") as _ } } else { ffi::variant_Eimp(choice(6, c"variant")) };
    check(core::mem::size_of::<Eimp>() == ffi::esize_Eimp(), c"enum-size"); check(ffi::echo_Eimp(r).repr == r.repr, c"passes-unchanged"); check(ffi::num_Eimp(r) == r.repr as i128 as u64, c"same-number");
    let w = match r { Eimp::A => 0, Eimp::B => 1, Eimp::C => 2, Eimp::D => 3, Eimp::E => 4, Eimp::F => 5, _ => 99 }; check(ffi::which_Eimp(r) == w, c"same-variant");
    check(Eimp::A.repr as i128 == 0 && ffi::variant_Eimp(0).repr as i128 == 0, c"variant-value");
    check(Eimp::B.repr as i128 == 1 && ffi::variant_Eimp(1).repr as i128 == 1, c"variant-value");
    check(Eimp::C.repr as i128 == 10 && ffi::variant_Eimp(2).repr as i128 == 10, c"variant-value");
    check(Eimp::D.repr as i128 == 11 && ffi::variant_Eimp(3).repr as i128 == 11, c"variant-value");
    check(Eimp::E.repr as i128 == 254 && ffi::variant_Eimp(4).repr as i128 == 254, c"variant-value");
    check(Eimp::F.repr as i128 == 255 && ffi::variant_Eimp(5).repr as i128 == 255, c"variant-value");
    let mut h = Hold_Eimp { a: 1, e: r, b: [Eimp::A, r] }; check(ffi::in_Eimp(&mut h) == r && h.a == 2 && h.e == Eimp::B && h.b[0] == r && h.b[1] == Eimp::A, c"fields"); }) }
#[no_mangle] extern "C" fn h_einf() { run(|_| { let r = if let 0 = choice(2, c"value") { Einf { repr: u64_(64, c"repr") as _ } } else { ffi::variant_Einf(choice(2, c"variant")) };
    check(core::mem::size_of::<Einf>() == ffi::esize_Einf(), c"enum-size"); check(ffi::echo_Einf(r).repr == r.repr, c"passes-unchanged"); check(ffi::num_Einf(r) == r.repr as i128 as u64, c"same-number");
    let w = match r { Einf::A => 0, Einf::B => 1, _ => 99 }; check(ffi::which_Einf(r) == w, c"same-variant");
    check(Einf::A.repr as i128 == 256 && ffi::variant_Einf(0).repr as i128 == 256, c"variant-value");
    check(Einf::B.repr as i128 == 257 && ffi::variant_Einf(1).repr as i128 == 257, c"variant-value");
    let mut h = Hold_Einf { a: 1, e: r, b: [Einf::A, r] }; check(ffi::in_Einf(&mut h) == r && h.a == 2 && h.e == Einf::B && h.b[0] == r && h.b[1] == Einf::A, c"fields"); }) }
#[no_mangle] extern "C" fn h_eneg() { run(|_| { let r = if let 0 = choice(2, c"value") { Eneg { repr: u64_(64, c"repr") as _ } } else { ffi::variant_Eneg(choice(5, c"variant")) };
    check(core::mem::size_of::<Eneg>() == ffi::esize_Eneg(), c"enum-size"); check(ffi::echo_Eneg(r).repr == r.repr, c"passes-unchanged"); check(ffi::num_Eneg(r) == r.repr as i128 as u64, c"same-number");
    let w = match r { Eneg::A => 0, Eneg::B => 1, Eneg::C => 2, Eneg::D => 3, Eneg::E => 4, _ => 99 }; check(ffi::which_Eneg(r) == w, c"same-variant");
    check(Eneg::A.repr as i128 == -3 && ffi::variant_Eneg(0).repr as i128 == -3, c"variant-value");
    check(Eneg::B.repr as i128 == -2 && ffi::variant_Eneg(1).repr as i128 == -2, c"variant-value");
    check(Eneg::C.repr as i128 == -1 && ffi::variant_Eneg(2).repr as i128 == -1, c"variant-value");
    check(Eneg::D.repr as i128 == 0 && ffi::variant_Eneg(3).repr as i128 == 0, c"variant-value");
    check(Eneg::E.repr as i128 == 1 && ffi::variant_Eneg(4).repr as i128 == 1, c"variant-value");
    let mut h = Hold_Eneg { a: 1, e: r, b: [Eneg::A, r] }; check(ffi::in_Eneg(&mut h) == r && h.a == 2 && h.e == Eneg::B && h.b[0] == r && h.b[1] == Eneg::A, c"fields"); }) }
#[no_mangle] extern "C" fn h_ebig() { run(|_| { let r = if let 0 = choice(2, c"value") { Ebig { repr: u64_(64, c"repr") as _ } } else { ffi::variant_Ebig(choice(2, c"variant")) };
    check(core::mem::size_of::<Ebig>() == ffi::esize_Ebig(), c"enum-size"); check(ffi::echo_Ebig(r).repr == r.repr, c"passes-unchanged"); check(ffi::num_Ebig(r) == r.repr as i128 as u64, c"same-number");
    let w = match r { Ebig::A => 0, Ebig::B => 1, _ => 99 }; check(ffi::which_Ebig(r) == w, c"same-variant");
    check(Ebig::A.repr as i128 == 2147483648 && ffi::variant_Ebig(0).repr as i128 == 2147483648, c"variant-value");
    check(Ebig::B.repr as i128 == 7 && ffi::variant_Ebig(1).repr as i128 == 7, c"variant-value");
    let mut h = Hold_Ebig { a: 1, e: r, b: [Ebig::A, r] }; check(ffi::in_Ebig(&mut h) == r && h.a == 2 && h.e == Ebig::B && h.b[0] == r && h.b[1] == Ebig::A, c"fields"); }) }
#[no_mangle] extern "C" fn h_eext() { run(|_| { let r = if let 0 = choice(2, c"value") { Eext { repr: u64_(64, c"repr") as _ } } else { ffi::variant_Eext(choice(2, c"variant")) };
    check(core::mem::size_of::<Eext>() == ffi::esize_Eext(), c"enum-size"); check(ffi::echo_Eext(r).repr == r.repr, c"passes-unchanged"); check(ffi::num_Eext(r) == r.repr as i128 as u64, c"same-number");
    let w = match r { Eext::A => 0, Eext::B => 1, _ => 99 }; check(ffi::which_Eext(r) == w, c"same-variant");
    check(Eext::A.repr as i128 == 3 && ffi::variant_Eext(0).repr as i128 == 3, c"variant-value");
    check(Eext::B.repr as i128 == 900 && ffi::variant_Eext(1).repr as i128 == 900, c"variant-value");
    let mut h = Hold_Eext { a: 1, e: r, b: [Eext::A, r] }; check(ffi::in_Eext(&mut h) == r && h.a == 2 && h.e == Eext::B && h.b[0] == r && h.b[1] == Eext::A, c"fields"); }) }
#[no_mangle] extern "C" fn h_refs() { run(|d| {
    let (s, b) = (val::<String>(d, 0), vals::<u8>(d, 1)); let mut m = vals::<u64>(d, 2); let x = val::<u32>(d, 3); let mut y = own::<N>(d, 4); let c = own::<C>(d, 5); let mut e = own::<C>(d, 6); let t = own::<CxxString>(d, 7); let r = own::<R>(d, 8); let v = own::<Vec<String>>(d, 9);
    let (pm, py, pe) = (m.as_ptr() as usize, y.addr(), e.addr()); exp_slice(s.as_bytes()); exp_slice(&b); exp_slice(&m); expa(&x as *const u32 as usize); exp(&x); expa(py); exp(y.get()); expa(c.addr()); exp(c.get()); expa(pe); exp(e.get()); expa(t.addr()); exp(t.get()); expa(r.addr()); exp(r.get()); expa(v.addr()); exp(v.get());
    let lm = m.len(); let mut k = Refs { s: &s, b: &b, m: &mut m, x: &x, y: y.get_mut(), c: c.get(), d: e.pin(), t: t.get(), r: r.get(), v: v.get() };
    check(ffi::look(&k) == core::mem::size_of::<Refs>(), c"size"); logged();
    if choice(2, c"give") == 1 { k = ffi::give(k); check(k.s.as_ptr() == s.as_ptr() && k.s.len() == s.len() && k.b.len() == b.len() && k.m.as_ptr() as usize == pm && k.m.len() == lm && k.x as *const u32 == &x as *const u32 && &*k.y as *const N as usize == py && k.c as *const C as usize == c.addr() && &*k.d as *const C as usize == pe && k.t as *const CxxString as usize == t.addr() && k.r as *const R as usize == r.addr() && k.v as *const Vec<String> as usize == v.addr(), c"references-unchanged"); }
    let z = u64_(64, c"touch"); ffi::touch(&mut k, z); check(k.m.iter().all(|e| *e == z) && k.y.x == z as u32 && ffi::c_get(&k.d) == z, c"written-through");
}) }

/// Arrays of arrays: every element is at the same place in both languages.
#[no_mangle] extern "C" fn h_grid() {
    let b = |w: u64, n: &core::ffi::CStr| u64_(w, n);
    let mut g = Grid { a: 1, m: [[b(16, c"m00") as u16, b(16, c"m01") as u16], [b(16, c"m10") as u16, b(16, c"m11") as u16], [b(16, c"m20") as u16, b(16, c"m21") as u16]], t: [[[b(8, c"t0") as u8, b(8, c"t1") as u8, b(8, c"t2") as u8]], [[b(8, c"t3") as u8, b(8, c"t4") as u8, b(8, c"t5") as u8]]], e: [[En::A], [En::B]], z: 2 };
    let v = b(16, c"v");
    check(core::mem::size_of::<Grid>() == ffi::grid_size(), c"size");
    check(addr(&g.m) - addr(&g) == ffi::grid_off(0) && addr(&g.t) - addr(&g) == ffi::grid_off(1) && addr(&g.e) - addr(&g) == ffi::grid_off(2) && addr(&g.z) - addr(&g) == ffi::grid_off(3), c"offset");
    let same = |g: &Grid| {
        for i in 0..3 { for j in 0..2 { check(ffi::grid_m(g, i, j) == g.m[i][j], c"element"); } }
        for i in 0..2 { check(ffi::grid_e(g, i) == g.e[i][0], c"enum element"); for k in 0..3 { check(ffi::grid_t(g, i, 0, k) == g.t[i][0][k], c"element of three levels"); } }
    };
    same(&g);
    let (i, j) = (choice(3, c"row") as usize, choice(2, c"column") as usize);
    let old = g.m; ffi::grid_put_m(&mut g, i, j, v as u16);
    for x in 0..3 { for y in 0..2 { check(g.m[x][y] == if (x, y) == (i, j) { v as u16 } else { old[x][y] }, c"written"); } }
    let (i, k) = (choice(2, c"plane") as usize, choice(3, c"last") as usize);
    let old = g.t; ffi::grid_put_t(&mut g, i, 0, k, v as u8);
    for x in 0..2 { for y in 0..3 { check(g.t[x][0][y] == if (x, y) == (i, k) { v as u8 } else { old[x][0][y] }, c"written in three levels"); } }
    same(&g);
    let (m, t) = (g.m, g.t); let r = ffi::grid_copy(g); check(r.m == m && r.t == t && r.a == 1 && r.z == 2, c"by value"); same(&r);
    reach(c"done");
}
