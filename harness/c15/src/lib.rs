pub use cxx;
#[path = "../../common/sym.rs"]
mod sym;
use sym::*;
use core::pin::Pin;
use cxx::{CxxString, CxxVector, ExternType, SharedPtr, UniquePtr, WeakPtr};
use std::os::raw::c_char;
pub struct R { v: u64, s: String }
#[repr(C)]
pub struct T1 { a: u32, b: u8 }
unsafe impl ExternType for T1 { type Id = cxx::type_id!("T1"); type Kind = cxx::kind::Trivial; }
#[repr(C)]
pub struct T3 { a: u64, b: u64, c: u64 }
unsafe impl ExternType for T3 { type Id = cxx::type_id!("T3"); type Kind = cxx::kind::Trivial; }
/// A C++ class with its own copy constructor and destructor which declares itself relocatable.
#[repr(C)]
pub struct Tx { p: *mut u64 }
unsafe impl ExternType for Tx { type Id = cxx::type_id!("Tx"); type Kind = cxx::kind::Trivial; }
#[cxx::bridge]
pub mod ffi {
    struct P1 { a: u8 }
    struct P2 { a: u8, b: u64 }
    struct F2 { a: f32, b: f32 }
    struct FI { a: f32, b: u32 }
    struct Q2 { a: u64, b: u64 }
    struct Q3 { a: u64, b: u64, c: u64 }
    struct D4 { a: f32, b: f32, c: f32, d: f32 }
    struct N { s: String, x: u32, v: Vec<u8> }
    struct Ar { a: [u8; 5], b: [u16; 3] }
    struct Nest { p: P2, e: En, f: F2 }
    enum En { A, B = 7 }
    #[repr(i16)]
    enum Ei16 { A = -3, B = 300 }
    #[repr(u64)]
    enum Eu64 { A = 1, B = 0xffffffffffffffff }
    unsafe extern "C++" {
        include!("calls_methods.h");
        type C;
        type T1 = super::T1;
        type T3 = super::T3;
        type Tx = super::Tx;
        fn mk_c(v: u64) -> UniquePtr<C>;
        fn mk_sc(v: u64) -> SharedPtr<C>;
        fn mk_wc(v: u64) -> WeakPtr<C>;
        fn mk_su64(v: u64) -> SharedPtr<u64>;
        fn mk_cs(v: u64, k: usize) -> UniquePtr<CxxString>;
        fn mk_cv(v: u64, k: usize) -> UniquePtr<CxxVector<u32>>;
        fn mk_cvn(v: u64, k: usize) -> UniquePtr<CxxVector<N>>;
        fn c_get(c: &C) -> u64;
        fn c_set(c: Pin<&mut C>, v: u64);
        
    }
    extern "Rust" {
        type R;
        fn mk_r(v: u64) -> Box<R>;
        fn mk_vr(v: u64, k: usize) -> Vec<R>;
        fn r_get(r: &R) -> u64;
        fn r_set(r: &mut R, v: u64);
        fn v_bool(a0: bool) -> bool;
        fn w_bool(a0: u8, a1: bool, a2: bool, a3: u64) -> bool;
        fn t_bool(a0: bool, a1: u16) -> Result<bool>;
        fn v_c_char(a0: c_char) -> c_char;
        fn w_c_char(a0: u8, a1: c_char, a2: c_char, a3: u64) -> c_char;
        fn t_c_char(a0: c_char, a1: u16) -> Result<c_char>;
        fn v_u8(a0: u8) -> u8;
        fn w_u8(a0: u8, a1: u8, a2: u8, a3: u64) -> u8;
        fn t_u8(a0: u8, a1: u16) -> Result<u8>;
        fn v_u16(a0: u16) -> u16;
        fn w_u16(a0: u8, a1: u16, a2: u16, a3: u64) -> u16;
        fn t_u16(a0: u16, a1: u16) -> Result<u16>;
        fn v_u32(a0: u32) -> u32;
        fn w_u32(a0: u8, a1: u32, a2: u32, a3: u64) -> u32;
        fn t_u32(a0: u32, a1: u16) -> Result<u32>;
        fn v_u64(a0: u64) -> u64;
        fn w_u64(a0: u8, a1: u64, a2: u64, a3: u64) -> u64;
        fn t_u64(a0: u64, a1: u16) -> Result<u64>;
        fn v_usize(a0: usize) -> usize;
        fn w_usize(a0: u8, a1: usize, a2: usize, a3: u64) -> usize;
        fn t_usize(a0: usize, a1: u16) -> Result<usize>;
        fn v_i8(a0: i8) -> i8;
        fn w_i8(a0: u8, a1: i8, a2: i8, a3: u64) -> i8;
        fn t_i8(a0: i8, a1: u16) -> Result<i8>;
        fn v_i16(a0: i16) -> i16;
        fn w_i16(a0: u8, a1: i16, a2: i16, a3: u64) -> i16;
        fn t_i16(a0: i16, a1: u16) -> Result<i16>;
        fn v_i32(a0: i32) -> i32;
        fn w_i32(a0: u8, a1: i32, a2: i32, a3: u64) -> i32;
        fn t_i32(a0: i32, a1: u16) -> Result<i32>;
        fn v_i64(a0: i64) -> i64;
        fn w_i64(a0: u8, a1: i64, a2: i64, a3: u64) -> i64;
        fn t_i64(a0: i64, a1: u16) -> Result<i64>;
        fn v_isize(a0: isize) -> isize;
        fn w_isize(a0: u8, a1: isize, a2: isize, a3: u64) -> isize;
        fn t_isize(a0: isize, a1: u16) -> Result<isize>;
        fn v_f32(a0: f32) -> f32;
        fn w_f32(a0: u8, a1: f32, a2: f32, a3: u64) -> f32;
        fn t_f32(a0: f32, a1: u16) -> Result<f32>;
        fn v_f64(a0: f64) -> f64;
        fn w_f64(a0: u8, a1: f64, a2: f64, a3: u64) -> f64;
        fn t_f64(a0: f64, a1: u16) -> Result<f64>;
        fn v_string(a0: String) -> String;
        fn w_string(a0: u8, a1: String, a2: String, a3: u64) -> String;
        fn t_string(a0: String, a1: u16) -> Result<String>;
        fn v_box(a0: Box<R>) -> Box<R>;
        fn w_box(a0: u8, a1: Box<R>, a2: Box<R>, a3: u64) -> Box<R>;
        fn t_box(a0: Box<R>, a1: u16) -> Result<Box<R>>;
        fn v_boxn(a0: Box<N>) -> Box<N>;
        fn w_boxn(a0: u8, a1: Box<N>, a2: Box<N>, a3: u64) -> Box<N>;
        fn t_boxn(a0: Box<N>, a1: u16) -> Result<Box<N>>;
        fn v_vu8(a0: Vec<u8>) -> Vec<u8>;
        fn w_vu8(a0: u8, a1: Vec<u8>, a2: Vec<u8>, a3: u64) -> Vec<u8>;
        fn t_vu8(a0: Vec<u8>, a1: u16) -> Result<Vec<u8>>;
        fn v_vbool(a0: Vec<bool>) -> Vec<bool>;
        fn w_vbool(a0: u8, a1: Vec<bool>, a2: Vec<bool>, a3: u64) -> Vec<bool>;
        fn t_vbool(a0: Vec<bool>, a1: u16) -> Result<Vec<bool>>;
        fn v_vf64(a0: Vec<f64>) -> Vec<f64>;
        fn w_vf64(a0: u8, a1: Vec<f64>, a2: Vec<f64>, a3: u64) -> Vec<f64>;
        fn t_vf64(a0: Vec<f64>, a1: u16) -> Result<Vec<f64>>;
        fn v_vstring(a0: Vec<String>) -> Vec<String>;
        fn w_vstring(a0: u8, a1: Vec<String>, a2: Vec<String>, a3: u64) -> Vec<String>;
        fn t_vstring(a0: Vec<String>, a1: u16) -> Result<Vec<String>>;
        fn v_vp2(a0: Vec<P2>) -> Vec<P2>;
        fn w_vp2(a0: u8, a1: Vec<P2>, a2: Vec<P2>, a3: u64) -> Vec<P2>;
        fn t_vp2(a0: Vec<P2>, a1: u16) -> Result<Vec<P2>>;
        fn v_vn(a0: Vec<N>) -> Vec<N>;
        fn w_vn(a0: u8, a1: Vec<N>, a2: Vec<N>, a3: u64) -> Vec<N>;
        fn t_vn(a0: Vec<N>, a1: u16) -> Result<Vec<N>>;
        fn v_vr(a0: Vec<R>) -> Vec<R>;
        fn w_vr(a0: u8, a1: Vec<R>, a2: Vec<R>, a3: u64) -> Vec<R>;
        fn t_vr(a0: Vec<R>, a1: u16) -> Result<Vec<R>>;
        fn v_uobj(a0: UniquePtr<C>) -> UniquePtr<C>;
        fn w_uobj(a0: u8, a1: UniquePtr<C>, a2: UniquePtr<C>, a3: u64) -> UniquePtr<C>;
        fn t_uobj(a0: UniquePtr<C>, a1: u16) -> Result<UniquePtr<C>>;
        fn v_ustr(a0: UniquePtr<CxxString>) -> UniquePtr<CxxString>;
        fn w_ustr(a0: u8, a1: UniquePtr<CxxString>, a2: UniquePtr<CxxString>, a3: u64) -> UniquePtr<CxxString>;
        fn t_ustr(a0: UniquePtr<CxxString>, a1: u16) -> Result<UniquePtr<CxxString>>;
        fn v_uvec(a0: UniquePtr<CxxVector<u32>>) -> UniquePtr<CxxVector<u32>>;
        fn w_uvec(a0: u8, a1: UniquePtr<CxxVector<u32>>, a2: UniquePtr<CxxVector<u32>>, a3: u64) -> UniquePtr<CxxVector<u32>>;
        fn t_uvec(a0: UniquePtr<CxxVector<u32>>, a1: u16) -> Result<UniquePtr<CxxVector<u32>>>;
        fn v_un(a0: UniquePtr<N>) -> UniquePtr<N>;
        fn w_un(a0: u8, a1: UniquePtr<N>, a2: UniquePtr<N>, a3: u64) -> UniquePtr<N>;
        fn t_un(a0: UniquePtr<N>, a1: u16) -> Result<UniquePtr<N>>;
        fn v_sobj(a0: SharedPtr<C>) -> SharedPtr<C>;
        fn w_sobj(a0: u8, a1: SharedPtr<C>, a2: SharedPtr<C>, a3: u64) -> SharedPtr<C>;
        fn t_sobj(a0: SharedPtr<C>, a1: u16) -> Result<SharedPtr<C>>;
        fn v_su64(a0: SharedPtr<u64>) -> SharedPtr<u64>;
        fn w_su64(a0: u8, a1: SharedPtr<u64>, a2: SharedPtr<u64>, a3: u64) -> SharedPtr<u64>;
        fn t_su64(a0: SharedPtr<u64>, a1: u16) -> Result<SharedPtr<u64>>;
        fn v_wobj(a0: WeakPtr<C>) -> WeakPtr<C>;
        fn w_wobj(a0: u8, a1: WeakPtr<C>, a2: WeakPtr<C>, a3: u64) -> WeakPtr<C>;
        fn t_wobj(a0: WeakPtr<C>, a1: u16) -> Result<WeakPtr<C>>;
        fn v_p1(a0: P1) -> P1;
        fn w_p1(a0: u8, a1: P1, a2: P1, a3: u64) -> P1;
        fn t_p1(a0: P1, a1: u16) -> Result<P1>;
        fn v_p2(a0: P2) -> P2;
        fn w_p2(a0: u8, a1: P2, a2: P2, a3: u64) -> P2;
        fn t_p2(a0: P2, a1: u16) -> Result<P2>;
        fn v_f2(a0: F2) -> F2;
        fn w_f2(a0: u8, a1: F2, a2: F2, a3: u64) -> F2;
        fn t_f2(a0: F2, a1: u16) -> Result<F2>;
        fn v_fi(a0: FI) -> FI;
        fn w_fi(a0: u8, a1: FI, a2: FI, a3: u64) -> FI;
        fn t_fi(a0: FI, a1: u16) -> Result<FI>;
        fn v_q2(a0: Q2) -> Q2;
        fn w_q2(a0: u8, a1: Q2, a2: Q2, a3: u64) -> Q2;
        fn t_q2(a0: Q2, a1: u16) -> Result<Q2>;
        fn v_q3(a0: Q3) -> Q3;
        fn w_q3(a0: u8, a1: Q3, a2: Q3, a3: u64) -> Q3;
        fn t_q3(a0: Q3, a1: u16) -> Result<Q3>;
        fn v_d4(a0: D4) -> D4;
        fn w_d4(a0: u8, a1: D4, a2: D4, a3: u64) -> D4;
        fn t_d4(a0: D4, a1: u16) -> Result<D4>;
        fn v_n(a0: N) -> N;
        fn w_n(a0: u8, a1: N, a2: N, a3: u64) -> N;
        fn t_n(a0: N, a1: u16) -> Result<N>;
        fn v_ar(a0: Ar) -> Ar;
        fn w_ar(a0: u8, a1: Ar, a2: Ar, a3: u64) -> Ar;
        fn t_ar(a0: Ar, a1: u16) -> Result<Ar>;
        fn v_nest(a0: Nest) -> Nest;
        fn w_nest(a0: u8, a1: Nest, a2: Nest, a3: u64) -> Nest;
        fn t_nest(a0: Nest, a1: u16) -> Result<Nest>;
        fn v_en(a0: En) -> En;
        fn w_en(a0: u8, a1: En, a2: En, a3: u64) -> En;
        fn t_en(a0: En, a1: u16) -> Result<En>;
        fn v_ei16(a0: Ei16) -> Ei16;
        fn w_ei16(a0: u8, a1: Ei16, a2: Ei16, a3: u64) -> Ei16;
        fn t_ei16(a0: Ei16, a1: u16) -> Result<Ei16>;
        fn v_eu64(a0: Eu64) -> Eu64;
        fn w_eu64(a0: u8, a1: Eu64, a2: Eu64, a3: u64) -> Eu64;
        fn t_eu64(a0: Eu64, a1: u16) -> Result<Eu64>;
        fn v_t1(a0: T1) -> T1;
        fn w_t1(a0: u8, a1: T1, a2: T1, a3: u64) -> T1;
        fn t_t1(a0: T1, a1: u16) -> Result<T1>;
        fn v_t3(a0: T3) -> T3;
        fn w_t3(a0: u8, a1: T3, a2: T3, a3: u64) -> T3;
        fn t_t3(a0: T3, a1: u16) -> Result<T3>;
        fn v_tx(a0: Tx) -> Tx;
        fn w_tx(a0: u8, a1: Tx, a2: Tx, a3: u64) -> Tx;
        fn t_tx(a0: Tx, a1: u16) -> Result<Tx>;
        fn v_arr5(a0: [u8; 5]) -> [u8; 5];
        fn w_arr5(a0: u8, a1: [u8; 5], a2: [u8; 5], a3: u64) -> [u8; 5];
        fn t_arr5(a0: [u8; 5], a1: u16) -> Result<[u8; 5]>;
        fn v_arrs(a0: [String; 2]) -> [String; 2];
        fn w_arrs(a0: u8, a1: [String; 2], a2: [String; 2], a3: u64) -> [String; 2];
        fn t_arrs(a0: [String; 2], a1: u16) -> Result<[String; 2]>;
        fn r_bool(a0: &bool, a1: &bool);
        fn m_bool(a0: &mut bool, a1: u16);
        fn rr_bool(a0: &bool) -> &bool;
        fn mm_bool(a0: &mut bool) -> &mut bool;
        unsafe fn tr_bool<'a>(a0: &'a bool) -> Result<&'a bool>;
        unsafe fn tm_bool<'a>(a0: &'a mut bool) -> Result<&'a mut bool>;
        fn r_c_char(a0: &c_char, a1: &c_char);
        fn m_c_char(a0: &mut c_char, a1: u16);
        fn rr_c_char(a0: &c_char) -> &c_char;
        fn mm_c_char(a0: &mut c_char) -> &mut c_char;
        unsafe fn tr_c_char<'a>(a0: &'a c_char) -> Result<&'a c_char>;
        unsafe fn tm_c_char<'a>(a0: &'a mut c_char) -> Result<&'a mut c_char>;
        fn r_u8(a0: &u8, a1: &u8);
        fn m_u8(a0: &mut u8, a1: u16);
        fn rr_u8(a0: &u8) -> &u8;
        fn mm_u8(a0: &mut u8) -> &mut u8;
        unsafe fn tr_u8<'a>(a0: &'a u8) -> Result<&'a u8>;
        unsafe fn tm_u8<'a>(a0: &'a mut u8) -> Result<&'a mut u8>;
        fn r_u16(a0: &u16, a1: &u16);
        fn m_u16(a0: &mut u16, a1: u16);
        fn rr_u16(a0: &u16) -> &u16;
        fn mm_u16(a0: &mut u16) -> &mut u16;
        unsafe fn tr_u16<'a>(a0: &'a u16) -> Result<&'a u16>;
        unsafe fn tm_u16<'a>(a0: &'a mut u16) -> Result<&'a mut u16>;
        fn r_u32(a0: &u32, a1: &u32);
        fn m_u32(a0: &mut u32, a1: u16);
        fn rr_u32(a0: &u32) -> &u32;
        fn mm_u32(a0: &mut u32) -> &mut u32;
        unsafe fn tr_u32<'a>(a0: &'a u32) -> Result<&'a u32>;
        unsafe fn tm_u32<'a>(a0: &'a mut u32) -> Result<&'a mut u32>;
        fn r_u64(a0: &u64, a1: &u64);
        fn m_u64(a0: &mut u64, a1: u16);
        fn rr_u64(a0: &u64) -> &u64;
        fn mm_u64(a0: &mut u64) -> &mut u64;
        unsafe fn tr_u64<'a>(a0: &'a u64) -> Result<&'a u64>;
        unsafe fn tm_u64<'a>(a0: &'a mut u64) -> Result<&'a mut u64>;
        fn r_usize(a0: &usize, a1: &usize);
        fn m_usize(a0: &mut usize, a1: u16);
        fn rr_usize(a0: &usize) -> &usize;
        fn mm_usize(a0: &mut usize) -> &mut usize;
        unsafe fn tr_usize<'a>(a0: &'a usize) -> Result<&'a usize>;
        unsafe fn tm_usize<'a>(a0: &'a mut usize) -> Result<&'a mut usize>;
        fn r_i8(a0: &i8, a1: &i8);
        fn m_i8(a0: &mut i8, a1: u16);
        fn rr_i8(a0: &i8) -> &i8;
        fn mm_i8(a0: &mut i8) -> &mut i8;
        unsafe fn tr_i8<'a>(a0: &'a i8) -> Result<&'a i8>;
        unsafe fn tm_i8<'a>(a0: &'a mut i8) -> Result<&'a mut i8>;
        fn r_i16(a0: &i16, a1: &i16);
        fn m_i16(a0: &mut i16, a1: u16);
        fn rr_i16(a0: &i16) -> &i16;
        fn mm_i16(a0: &mut i16) -> &mut i16;
        unsafe fn tr_i16<'a>(a0: &'a i16) -> Result<&'a i16>;
        unsafe fn tm_i16<'a>(a0: &'a mut i16) -> Result<&'a mut i16>;
        fn r_i32(a0: &i32, a1: &i32);
        fn m_i32(a0: &mut i32, a1: u16);
        fn rr_i32(a0: &i32) -> &i32;
        fn mm_i32(a0: &mut i32) -> &mut i32;
        unsafe fn tr_i32<'a>(a0: &'a i32) -> Result<&'a i32>;
        unsafe fn tm_i32<'a>(a0: &'a mut i32) -> Result<&'a mut i32>;
        fn r_i64(a0: &i64, a1: &i64);
        fn m_i64(a0: &mut i64, a1: u16);
        fn rr_i64(a0: &i64) -> &i64;
        fn mm_i64(a0: &mut i64) -> &mut i64;
        unsafe fn tr_i64<'a>(a0: &'a i64) -> Result<&'a i64>;
        unsafe fn tm_i64<'a>(a0: &'a mut i64) -> Result<&'a mut i64>;
        fn r_isize(a0: &isize, a1: &isize);
        fn m_isize(a0: &mut isize, a1: u16);
        fn rr_isize(a0: &isize) -> &isize;
        fn mm_isize(a0: &mut isize) -> &mut isize;
        unsafe fn tr_isize<'a>(a0: &'a isize) -> Result<&'a isize>;
        unsafe fn tm_isize<'a>(a0: &'a mut isize) -> Result<&'a mut isize>;
        fn r_f32(a0: &f32, a1: &f32);
        fn m_f32(a0: &mut f32, a1: u16);
        fn rr_f32(a0: &f32) -> &f32;
        fn mm_f32(a0: &mut f32) -> &mut f32;
        unsafe fn tr_f32<'a>(a0: &'a f32) -> Result<&'a f32>;
        unsafe fn tm_f32<'a>(a0: &'a mut f32) -> Result<&'a mut f32>;
        fn r_f64(a0: &f64, a1: &f64);
        fn m_f64(a0: &mut f64, a1: u16);
        fn rr_f64(a0: &f64) -> &f64;
        fn mm_f64(a0: &mut f64) -> &mut f64;
        unsafe fn tr_f64<'a>(a0: &'a f64) -> Result<&'a f64>;
        unsafe fn tm_f64<'a>(a0: &'a mut f64) -> Result<&'a mut f64>;
        fn r_string(a0: &String, a1: &String);
        fn m_string(a0: &mut String, a1: u16);
        fn rr_string(a0: &String) -> &String;
        fn mm_string(a0: &mut String) -> &mut String;
        unsafe fn tr_string<'a>(a0: &'a String) -> Result<&'a String>;
        unsafe fn tm_string<'a>(a0: &'a mut String) -> Result<&'a mut String>;
        fn r_box(a0: &Box<R>, a1: &Box<R>);
        fn m_box(a0: &mut Box<R>, a1: u16);
        fn rr_box(a0: &Box<R>) -> &Box<R>;
        fn mm_box(a0: &mut Box<R>) -> &mut Box<R>;
        unsafe fn tr_box<'a>(a0: &'a Box<R>) -> Result<&'a Box<R>>;
        unsafe fn tm_box<'a>(a0: &'a mut Box<R>) -> Result<&'a mut Box<R>>;
        fn r_boxn(a0: &Box<N>, a1: &Box<N>);
        fn m_boxn(a0: &mut Box<N>, a1: u16);
        fn rr_boxn(a0: &Box<N>) -> &Box<N>;
        fn mm_boxn(a0: &mut Box<N>) -> &mut Box<N>;
        unsafe fn tr_boxn<'a>(a0: &'a Box<N>) -> Result<&'a Box<N>>;
        unsafe fn tm_boxn<'a>(a0: &'a mut Box<N>) -> Result<&'a mut Box<N>>;
        fn r_vu8(a0: &Vec<u8>, a1: &Vec<u8>);
        fn m_vu8(a0: &mut Vec<u8>, a1: u16);
        fn rr_vu8(a0: &Vec<u8>) -> &Vec<u8>;
        fn mm_vu8(a0: &mut Vec<u8>) -> &mut Vec<u8>;
        unsafe fn tr_vu8<'a>(a0: &'a Vec<u8>) -> Result<&'a Vec<u8>>;
        unsafe fn tm_vu8<'a>(a0: &'a mut Vec<u8>) -> Result<&'a mut Vec<u8>>;
        fn r_vbool(a0: &Vec<bool>, a1: &Vec<bool>);
        fn m_vbool(a0: &mut Vec<bool>, a1: u16);
        fn rr_vbool(a0: &Vec<bool>) -> &Vec<bool>;
        fn mm_vbool(a0: &mut Vec<bool>) -> &mut Vec<bool>;
        unsafe fn tr_vbool<'a>(a0: &'a Vec<bool>) -> Result<&'a Vec<bool>>;
        unsafe fn tm_vbool<'a>(a0: &'a mut Vec<bool>) -> Result<&'a mut Vec<bool>>;
        fn r_vf64(a0: &Vec<f64>, a1: &Vec<f64>);
        fn m_vf64(a0: &mut Vec<f64>, a1: u16);
        fn rr_vf64(a0: &Vec<f64>) -> &Vec<f64>;
        fn mm_vf64(a0: &mut Vec<f64>) -> &mut Vec<f64>;
        unsafe fn tr_vf64<'a>(a0: &'a Vec<f64>) -> Result<&'a Vec<f64>>;
        unsafe fn tm_vf64<'a>(a0: &'a mut Vec<f64>) -> Result<&'a mut Vec<f64>>;
        fn r_vstring(a0: &Vec<String>, a1: &Vec<String>);
        fn m_vstring(a0: &mut Vec<String>, a1: u16);
        fn rr_vstring(a0: &Vec<String>) -> &Vec<String>;
        fn mm_vstring(a0: &mut Vec<String>) -> &mut Vec<String>;
        unsafe fn tr_vstring<'a>(a0: &'a Vec<String>) -> Result<&'a Vec<String>>;
        unsafe fn tm_vstring<'a>(a0: &'a mut Vec<String>) -> Result<&'a mut Vec<String>>;
        fn r_vp2(a0: &Vec<P2>, a1: &Vec<P2>);
        fn m_vp2(a0: &mut Vec<P2>, a1: u16);
        fn rr_vp2(a0: &Vec<P2>) -> &Vec<P2>;
        fn mm_vp2(a0: &mut Vec<P2>) -> &mut Vec<P2>;
        unsafe fn tr_vp2<'a>(a0: &'a Vec<P2>) -> Result<&'a Vec<P2>>;
        unsafe fn tm_vp2<'a>(a0: &'a mut Vec<P2>) -> Result<&'a mut Vec<P2>>;
        fn r_vn(a0: &Vec<N>, a1: &Vec<N>);
        fn m_vn(a0: &mut Vec<N>, a1: u16);
        fn rr_vn(a0: &Vec<N>) -> &Vec<N>;
        fn mm_vn(a0: &mut Vec<N>) -> &mut Vec<N>;
        unsafe fn tr_vn<'a>(a0: &'a Vec<N>) -> Result<&'a Vec<N>>;
        unsafe fn tm_vn<'a>(a0: &'a mut Vec<N>) -> Result<&'a mut Vec<N>>;
        fn r_vr(a0: &Vec<R>, a1: &Vec<R>);
        fn m_vr(a0: &mut Vec<R>, a1: u16);
        fn rr_vr(a0: &Vec<R>) -> &Vec<R>;
        fn mm_vr(a0: &mut Vec<R>) -> &mut Vec<R>;
        unsafe fn tr_vr<'a>(a0: &'a Vec<R>) -> Result<&'a Vec<R>>;
        unsafe fn tm_vr<'a>(a0: &'a mut Vec<R>) -> Result<&'a mut Vec<R>>;
        fn r_uobj(a0: &UniquePtr<C>, a1: &UniquePtr<C>);
        fn m_uobj(a0: &mut UniquePtr<C>, a1: u16);
        fn rr_uobj(a0: &UniquePtr<C>) -> &UniquePtr<C>;
        fn mm_uobj(a0: &mut UniquePtr<C>) -> &mut UniquePtr<C>;
        unsafe fn tr_uobj<'a>(a0: &'a UniquePtr<C>) -> Result<&'a UniquePtr<C>>;
        unsafe fn tm_uobj<'a>(a0: &'a mut UniquePtr<C>) -> Result<&'a mut UniquePtr<C>>;
        fn r_ustr(a0: &UniquePtr<CxxString>, a1: &UniquePtr<CxxString>);
        fn m_ustr(a0: &mut UniquePtr<CxxString>, a1: u16);
        fn rr_ustr(a0: &UniquePtr<CxxString>) -> &UniquePtr<CxxString>;
        fn mm_ustr(a0: &mut UniquePtr<CxxString>) -> &mut UniquePtr<CxxString>;
        unsafe fn tr_ustr<'a>(a0: &'a UniquePtr<CxxString>) -> Result<&'a UniquePtr<CxxString>>;
        unsafe fn tm_ustr<'a>(a0: &'a mut UniquePtr<CxxString>) -> Result<&'a mut UniquePtr<CxxString>>;
        fn r_uvec(a0: &UniquePtr<CxxVector<u32>>, a1: &UniquePtr<CxxVector<u32>>);
        fn m_uvec(a0: &mut UniquePtr<CxxVector<u32>>, a1: u16);
        fn rr_uvec(a0: &UniquePtr<CxxVector<u32>>) -> &UniquePtr<CxxVector<u32>>;
        fn mm_uvec(a0: &mut UniquePtr<CxxVector<u32>>) -> &mut UniquePtr<CxxVector<u32>>;
        unsafe fn tr_uvec<'a>(a0: &'a UniquePtr<CxxVector<u32>>) -> Result<&'a UniquePtr<CxxVector<u32>>>;
        unsafe fn tm_uvec<'a>(a0: &'a mut UniquePtr<CxxVector<u32>>) -> Result<&'a mut UniquePtr<CxxVector<u32>>>;
        fn r_un(a0: &UniquePtr<N>, a1: &UniquePtr<N>);
        fn m_un(a0: &mut UniquePtr<N>, a1: u16);
        fn rr_un(a0: &UniquePtr<N>) -> &UniquePtr<N>;
        fn mm_un(a0: &mut UniquePtr<N>) -> &mut UniquePtr<N>;
        unsafe fn tr_un<'a>(a0: &'a UniquePtr<N>) -> Result<&'a UniquePtr<N>>;
        unsafe fn tm_un<'a>(a0: &'a mut UniquePtr<N>) -> Result<&'a mut UniquePtr<N>>;
        fn r_sobj(a0: &SharedPtr<C>, a1: &SharedPtr<C>);
        fn m_sobj(a0: &mut SharedPtr<C>, a1: u16);
        fn rr_sobj(a0: &SharedPtr<C>) -> &SharedPtr<C>;
        fn mm_sobj(a0: &mut SharedPtr<C>) -> &mut SharedPtr<C>;
        unsafe fn tr_sobj<'a>(a0: &'a SharedPtr<C>) -> Result<&'a SharedPtr<C>>;
        unsafe fn tm_sobj<'a>(a0: &'a mut SharedPtr<C>) -> Result<&'a mut SharedPtr<C>>;
        fn r_su64(a0: &SharedPtr<u64>, a1: &SharedPtr<u64>);
        fn m_su64(a0: &mut SharedPtr<u64>, a1: u16);
        fn rr_su64(a0: &SharedPtr<u64>) -> &SharedPtr<u64>;
        fn mm_su64(a0: &mut SharedPtr<u64>) -> &mut SharedPtr<u64>;
        unsafe fn tr_su64<'a>(a0: &'a SharedPtr<u64>) -> Result<&'a SharedPtr<u64>>;
        unsafe fn tm_su64<'a>(a0: &'a mut SharedPtr<u64>) -> Result<&'a mut SharedPtr<u64>>;
        fn r_wobj(a0: &WeakPtr<C>, a1: &WeakPtr<C>);
        fn m_wobj(a0: &mut WeakPtr<C>, a1: u16);
        fn rr_wobj(a0: &WeakPtr<C>) -> &WeakPtr<C>;
        fn mm_wobj(a0: &mut WeakPtr<C>) -> &mut WeakPtr<C>;
        unsafe fn tr_wobj<'a>(a0: &'a WeakPtr<C>) -> Result<&'a WeakPtr<C>>;
        unsafe fn tm_wobj<'a>(a0: &'a mut WeakPtr<C>) -> Result<&'a mut WeakPtr<C>>;
        fn r_p1(a0: &P1, a1: &P1);
        fn m_p1(a0: &mut P1, a1: u16);
        fn rr_p1(a0: &P1) -> &P1;
        fn mm_p1(a0: &mut P1) -> &mut P1;
        unsafe fn tr_p1<'a>(a0: &'a P1) -> Result<&'a P1>;
        unsafe fn tm_p1<'a>(a0: &'a mut P1) -> Result<&'a mut P1>;
        fn r_p2(a0: &P2, a1: &P2);
        fn m_p2(a0: &mut P2, a1: u16);
        fn rr_p2(a0: &P2) -> &P2;
        fn mm_p2(a0: &mut P2) -> &mut P2;
        unsafe fn tr_p2<'a>(a0: &'a P2) -> Result<&'a P2>;
        unsafe fn tm_p2<'a>(a0: &'a mut P2) -> Result<&'a mut P2>;
        fn r_f2(a0: &F2, a1: &F2);
        fn m_f2(a0: &mut F2, a1: u16);
        fn rr_f2(a0: &F2) -> &F2;
        fn mm_f2(a0: &mut F2) -> &mut F2;
        unsafe fn tr_f2<'a>(a0: &'a F2) -> Result<&'a F2>;
        unsafe fn tm_f2<'a>(a0: &'a mut F2) -> Result<&'a mut F2>;
        fn r_fi(a0: &FI, a1: &FI);
        fn m_fi(a0: &mut FI, a1: u16);
        fn rr_fi(a0: &FI) -> &FI;
        fn mm_fi(a0: &mut FI) -> &mut FI;
        unsafe fn tr_fi<'a>(a0: &'a FI) -> Result<&'a FI>;
        unsafe fn tm_fi<'a>(a0: &'a mut FI) -> Result<&'a mut FI>;
        fn r_q2(a0: &Q2, a1: &Q2);
        fn m_q2(a0: &mut Q2, a1: u16);
        fn rr_q2(a0: &Q2) -> &Q2;
        fn mm_q2(a0: &mut Q2) -> &mut Q2;
        unsafe fn tr_q2<'a>(a0: &'a Q2) -> Result<&'a Q2>;
        unsafe fn tm_q2<'a>(a0: &'a mut Q2) -> Result<&'a mut Q2>;
        fn r_q3(a0: &Q3, a1: &Q3);
        fn m_q3(a0: &mut Q3, a1: u16);
        fn rr_q3(a0: &Q3) -> &Q3;
        fn mm_q3(a0: &mut Q3) -> &mut Q3;
        unsafe fn tr_q3<'a>(a0: &'a Q3) -> Result<&'a Q3>;
        unsafe fn tm_q3<'a>(a0: &'a mut Q3) -> Result<&'a mut Q3>;
        fn r_d4(a0: &D4, a1: &D4);
        fn m_d4(a0: &mut D4, a1: u16);
        fn rr_d4(a0: &D4) -> &D4;
        fn mm_d4(a0: &mut D4) -> &mut D4;
        unsafe fn tr_d4<'a>(a0: &'a D4) -> Result<&'a D4>;
        unsafe fn tm_d4<'a>(a0: &'a mut D4) -> Result<&'a mut D4>;
        fn r_n(a0: &N, a1: &N);
        fn m_n(a0: &mut N, a1: u16);
        fn rr_n(a0: &N) -> &N;
        fn mm_n(a0: &mut N) -> &mut N;
        unsafe fn tr_n<'a>(a0: &'a N) -> Result<&'a N>;
        unsafe fn tm_n<'a>(a0: &'a mut N) -> Result<&'a mut N>;
        fn r_ar(a0: &Ar, a1: &Ar);
        fn m_ar(a0: &mut Ar, a1: u16);
        fn rr_ar(a0: &Ar) -> &Ar;
        fn mm_ar(a0: &mut Ar) -> &mut Ar;
        unsafe fn tr_ar<'a>(a0: &'a Ar) -> Result<&'a Ar>;
        unsafe fn tm_ar<'a>(a0: &'a mut Ar) -> Result<&'a mut Ar>;
        fn r_nest(a0: &Nest, a1: &Nest);
        fn m_nest(a0: &mut Nest, a1: u16);
        fn rr_nest(a0: &Nest) -> &Nest;
        fn mm_nest(a0: &mut Nest) -> &mut Nest;
        unsafe fn tr_nest<'a>(a0: &'a Nest) -> Result<&'a Nest>;
        unsafe fn tm_nest<'a>(a0: &'a mut Nest) -> Result<&'a mut Nest>;
        fn r_en(a0: &En, a1: &En);
        fn m_en(a0: &mut En, a1: u16);
        fn rr_en(a0: &En) -> &En;
        fn mm_en(a0: &mut En) -> &mut En;
        unsafe fn tr_en<'a>(a0: &'a En) -> Result<&'a En>;
        unsafe fn tm_en<'a>(a0: &'a mut En) -> Result<&'a mut En>;
        fn r_ei16(a0: &Ei16, a1: &Ei16);
        fn m_ei16(a0: &mut Ei16, a1: u16);
        fn rr_ei16(a0: &Ei16) -> &Ei16;
        fn mm_ei16(a0: &mut Ei16) -> &mut Ei16;
        unsafe fn tr_ei16<'a>(a0: &'a Ei16) -> Result<&'a Ei16>;
        unsafe fn tm_ei16<'a>(a0: &'a mut Ei16) -> Result<&'a mut Ei16>;
        fn r_eu64(a0: &Eu64, a1: &Eu64);
        fn m_eu64(a0: &mut Eu64, a1: u16);
        fn rr_eu64(a0: &Eu64) -> &Eu64;
        fn mm_eu64(a0: &mut Eu64) -> &mut Eu64;
        unsafe fn tr_eu64<'a>(a0: &'a Eu64) -> Result<&'a Eu64>;
        unsafe fn tm_eu64<'a>(a0: &'a mut Eu64) -> Result<&'a mut Eu64>;
        fn r_t1(a0: &T1, a1: &T1);
        fn m_t1(a0: &mut T1, a1: u16);
        fn rr_t1(a0: &T1) -> &T1;
        fn mm_t1(a0: &mut T1) -> &mut T1;
        unsafe fn tr_t1<'a>(a0: &'a T1) -> Result<&'a T1>;
        unsafe fn tm_t1<'a>(a0: &'a mut T1) -> Result<&'a mut T1>;
        fn r_t3(a0: &T3, a1: &T3);
        fn m_t3(a0: &mut T3, a1: u16);
        fn rr_t3(a0: &T3) -> &T3;
        fn mm_t3(a0: &mut T3) -> &mut T3;
        unsafe fn tr_t3<'a>(a0: &'a T3) -> Result<&'a T3>;
        unsafe fn tm_t3<'a>(a0: &'a mut T3) -> Result<&'a mut T3>;
        fn r_tx(a0: &Tx, a1: &Tx);
        fn m_tx(a0: &mut Tx, a1: u16);
        fn rr_tx(a0: &Tx) -> &Tx;
        fn mm_tx(a0: &mut Tx) -> &mut Tx;
        unsafe fn tr_tx<'a>(a0: &'a Tx) -> Result<&'a Tx>;
        unsafe fn tm_tx<'a>(a0: &'a mut Tx) -> Result<&'a mut Tx>;
        fn r_arr5(a0: &[u8; 5], a1: &[u8; 5]);
        fn m_arr5(a0: &mut [u8; 5], a1: u16);
        fn rr_arr5(a0: &[u8; 5]) -> &[u8; 5];
        fn mm_arr5(a0: &mut [u8; 5]) -> &mut [u8; 5];
        unsafe fn tr_arr5<'a>(a0: &'a [u8; 5]) -> Result<&'a [u8; 5]>;
        unsafe fn tm_arr5<'a>(a0: &'a mut [u8; 5]) -> Result<&'a mut [u8; 5]>;
        fn r_arrs(a0: &[String; 2], a1: &[String; 2]);
        fn m_arrs(a0: &mut [String; 2], a1: u16);
        fn rr_arrs(a0: &[String; 2]) -> &[String; 2];
        fn mm_arrs(a0: &mut [String; 2]) -> &mut [String; 2];
        unsafe fn tr_arrs<'a>(a0: &'a [String; 2]) -> Result<&'a [String; 2]>;
        unsafe fn tm_arrs<'a>(a0: &'a mut [String; 2]) -> Result<&'a mut [String; 2]>;
        fn r_r(a0: &R, a1: &R);
        fn m_r(a0: &mut R, a1: u16);
        fn rr_r(a0: &R) -> &R;
        fn mm_r(a0: &mut R) -> &mut R;
        unsafe fn tr_r<'a>(a0: &'a R) -> Result<&'a R>;
        unsafe fn tm_r<'a>(a0: &'a mut R) -> Result<&'a mut R>;
        fn r_c(a0: &C, a1: &C);
        fn m_c(a0: Pin<&mut C>, a1: u16);
        fn rr_c(a0: &C) -> &C;
        fn mm_c(a0: Pin<&mut C>) -> Pin<&mut C>;
        unsafe fn tr_c<'a>(a0: &'a C) -> Result<&'a C>;
        unsafe fn tm_c<'a>(a0: Pin<&'a mut C>) -> Result<Pin<&'a mut C>>;
        fn r_cxxstring(a0: &CxxString, a1: &CxxString);
        fn m_cxxstring(a0: Pin<&mut CxxString>, a1: u16);
        fn rr_cxxstring(a0: &CxxString) -> &CxxString;
        fn mm_cxxstring(a0: Pin<&mut CxxString>) -> Pin<&mut CxxString>;
        unsafe fn tr_cxxstring<'a>(a0: &'a CxxString) -> Result<&'a CxxString>;
        unsafe fn tm_cxxstring<'a>(a0: Pin<&'a mut CxxString>) -> Result<Pin<&'a mut CxxString>>;
        fn r_cxxvector(a0: &CxxVector<u32>, a1: &CxxVector<u32>);
        fn m_cxxvector(a0: Pin<&mut CxxVector<u32>>, a1: u16);
        fn rr_cxxvector(a0: &CxxVector<u32>) -> &CxxVector<u32>;
        fn mm_cxxvector(a0: Pin<&mut CxxVector<u32>>) -> Pin<&mut CxxVector<u32>>;
        unsafe fn tr_cxxvector<'a>(a0: &'a CxxVector<u32>) -> Result<&'a CxxVector<u32>>;
        unsafe fn tm_cxxvector<'a>(a0: Pin<&'a mut CxxVector<u32>>) -> Result<Pin<&'a mut CxxVector<u32>>>;
        fn r_cxxvectorn(a0: &CxxVector<N>, a1: &CxxVector<N>);
        fn m_cxxvectorn(a0: Pin<&mut CxxVector<N>>, a1: u16);
        fn rr_cxxvectorn(a0: &CxxVector<N>) -> &CxxVector<N>;
        fn mm_cxxvectorn(a0: Pin<&mut CxxVector<N>>) -> Pin<&mut CxxVector<N>>;
        unsafe fn tr_cxxvectorn<'a>(a0: &'a CxxVector<N>) -> Result<&'a CxxVector<N>>;
        unsafe fn tm_cxxvectorn<'a>(a0: Pin<&'a mut CxxVector<N>>) -> Result<Pin<&'a mut CxxVector<N>>>;
        fn s_u8(a0: &[u8], a1: u32, a2: &[u8]);
        fn sm_u8(a0: &mut [u8]);
        fn ss_u8(a0: &[u8]) -> &[u8];
        fn sms_u8(a0: &mut [u8]) -> &mut [u8];
        unsafe fn ts_u8<'a>(a0: &'a [u8]) -> Result<&'a [u8]>;
        unsafe fn tsm_u8<'a>(a0: &'a mut [u8]) -> Result<&'a mut [u8]>;
        fn s_f64(a0: &[f64], a1: u32, a2: &[f64]);
        fn sm_f64(a0: &mut [f64]);
        fn ss_f64(a0: &[f64]) -> &[f64];
        fn sms_f64(a0: &mut [f64]) -> &mut [f64];
        unsafe fn ts_f64<'a>(a0: &'a [f64]) -> Result<&'a [f64]>;
        unsafe fn tsm_f64<'a>(a0: &'a mut [f64]) -> Result<&'a mut [f64]>;
        fn s_p2(a0: &[P2], a1: u32, a2: &[P2]);
        fn sm_p2(a0: &mut [P2]);
        fn ss_p2(a0: &[P2]) -> &[P2];
        fn sms_p2(a0: &mut [P2]) -> &mut [P2];
        unsafe fn ts_p2<'a>(a0: &'a [P2]) -> Result<&'a [P2]>;
        unsafe fn tsm_p2<'a>(a0: &'a mut [P2]) -> Result<&'a mut [P2]>;
        fn s_n(a0: &[N], a1: u32, a2: &[N]);
        fn sm_n(a0: &mut [N]);
        fn ss_n(a0: &[N]) -> &[N];
        fn sms_n(a0: &mut [N]) -> &mut [N];
        unsafe fn ts_n<'a>(a0: &'a [N]) -> Result<&'a [N]>;
        unsafe fn tsm_n<'a>(a0: &'a mut [N]) -> Result<&'a mut [N]>;
        fn s_string(a0: &[String], a1: u32, a2: &[String]);
        fn sm_string(a0: &mut [String]);
        fn ss_string(a0: &[String]) -> &[String];
        fn sms_string(a0: &mut [String]) -> &mut [String];
        unsafe fn ts_string<'a>(a0: &'a [String]) -> Result<&'a [String]>;
        unsafe fn tsm_string<'a>(a0: &'a mut [String]) -> Result<&'a mut [String]>;
        fn s_r(a0: &[R], a1: u32, a2: &[R]);
        fn sm_r(a0: &mut [R]);
        fn ss_r(a0: &[R]) -> &[R];
        fn sms_r(a0: &mut [R]) -> &mut [R];
        unsafe fn ts_r<'a>(a0: &'a [R]) -> Result<&'a [R]>;
        unsafe fn tsm_r<'a>(a0: &'a mut [R]) -> Result<&'a mut [R]>;
        fn s_uobj(a0: &[UniquePtr<C>], a1: u32, a2: &[UniquePtr<C>]);
        fn sm_uobj(a0: &mut [UniquePtr<C>]);
        fn ss_uobj(a0: &[UniquePtr<C>]) -> &[UniquePtr<C>];
        fn sms_uobj(a0: &mut [UniquePtr<C>]) -> &mut [UniquePtr<C>];
        unsafe fn ts_uobj<'a>(a0: &'a [UniquePtr<C>]) -> Result<&'a [UniquePtr<C>]>;
        unsafe fn tsm_uobj<'a>(a0: &'a mut [UniquePtr<C>]) -> Result<&'a mut [UniquePtr<C>]>;
        fn s_en(a0: &[En], a1: u32, a2: &[En]);
        fn sm_en(a0: &mut [En]);
        fn ss_en(a0: &[En]) -> &[En];
        fn sms_en(a0: &mut [En]) -> &mut [En];
        unsafe fn ts_en<'a>(a0: &'a [En]) -> Result<&'a [En]>;
        unsafe fn tsm_en<'a>(a0: &'a mut [En]) -> Result<&'a mut [En]>;
        fn s_t3(a0: &[T3], a1: u32, a2: &[T3]);
        fn sm_t3(a0: &mut [T3]);
        fn ss_t3(a0: &[T3]) -> &[T3];
        fn sms_t3(a0: &mut [T3]) -> &mut [T3];
        unsafe fn ts_t3<'a>(a0: &'a [T3]) -> Result<&'a [T3]>;
        unsafe fn tsm_t3<'a>(a0: &'a mut [T3]) -> Result<&'a mut [T3]>;
        unsafe fn p_u8(a0: *const u8, a1: *mut u8) -> *const u8;
        unsafe fn pm_u8(a0: *mut u8, a1: *const u8) -> *mut u8;
        unsafe fn tp_u8(a0: *const u8) -> Result<*const u8>;
        unsafe fn tpm_u8(a0: *mut u8) -> Result<*mut u8>;
        unsafe fn p_p2(a0: *const P2, a1: *mut P2) -> *const P2;
        unsafe fn pm_p2(a0: *mut P2, a1: *const P2) -> *mut P2;
        unsafe fn tp_p2(a0: *const P2) -> Result<*const P2>;
        unsafe fn tpm_p2(a0: *mut P2) -> Result<*mut P2>;
        unsafe fn p_n(a0: *const N, a1: *mut N) -> *const N;
        unsafe fn pm_n(a0: *mut N, a1: *const N) -> *mut N;
        unsafe fn tp_n(a0: *const N) -> Result<*const N>;
        unsafe fn tpm_n(a0: *mut N) -> Result<*mut N>;
        unsafe fn p_c(a0: *const C, a1: *mut C) -> *const C;
        unsafe fn pm_c(a0: *mut C, a1: *const C) -> *mut C;
        unsafe fn tp_c(a0: *const C) -> Result<*const C>;
        unsafe fn tpm_c(a0: *mut C) -> Result<*mut C>;
        unsafe fn p_r(a0: *const R, a1: *mut R) -> *const R;
        unsafe fn pm_r(a0: *mut R, a1: *const R) -> *mut R;
        unsafe fn tp_r(a0: *const R) -> Result<*const R>;
        unsafe fn tpm_r(a0: *mut R) -> Result<*mut R>;
        unsafe fn p_string(a0: *const String, a1: *mut String) -> *const String;
        unsafe fn pm_string(a0: *mut String, a1: *const String) -> *mut String;
        unsafe fn tp_string(a0: *const String) -> Result<*const String>;
        unsafe fn tpm_string(a0: *mut String) -> Result<*mut String>;
        unsafe fn p_vu8(a0: *const Vec<u8>, a1: *mut Vec<u8>) -> *const Vec<u8>;
        unsafe fn pm_vu8(a0: *mut Vec<u8>, a1: *const Vec<u8>) -> *mut Vec<u8>;
        unsafe fn tp_vu8(a0: *const Vec<u8>) -> Result<*const Vec<u8>>;
        unsafe fn tpm_vu8(a0: *mut Vec<u8>) -> Result<*mut Vec<u8>>;
        fn st(a0: &str, a1: bool, a2: &str);
        fn sst(a0: &str) -> &str;
        unsafe fn tst<'a>(a0: &'a str) -> Result<&'a str>;
        fn u();
        fn tu() -> Result<()>;
        fn mix0(a0: u8, a1: String, a2: f32, a3: P2, a4: UniquePtr<C>, a5: u64, a6: Vec<String>, a7: f64, a8: En, a9: N, a10: i16, a11: Q3) -> u8;
        fn tmix0(a0: u8, a1: String, a2: f32, a3: P2, a4: UniquePtr<C>, a5: u64, a6: Vec<String>, a7: f64, a8: En, a9: N, a10: i16, a11: Q3) -> Result<Q3>;
        fn mix1(a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64, a8: f64, a9: f64) -> f64;
        fn tmix1(a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64, a8: f64, a9: f64) -> Result<f64>;
        fn mix2(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64) -> u64;
        fn tmix2(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64) -> Result<u64>;
        fn mix3(a0: bool, a1: u8, a2: bool, a3: i8, a4: c_char, a5: u16, a6: i16, a7: bool) -> bool;
        fn tmix3(a0: bool, a1: u8, a2: bool, a3: i8, a4: c_char, a5: u16, a6: i16, a7: bool) -> Result<bool>;
        fn mix4(a0: F2, a1: FI, a2: Q2, a3: D4, a4: P1, a5: f32, a6: Q2, a7: Q2, a8: u8) -> F2;
        fn tmix4(a0: F2, a1: FI, a2: Q2, a3: D4, a4: P1, a5: f32, a6: Q2, a7: Q2, a8: u8) -> Result<u8>;
        fn mix5(a0: N, a1: N, a2: String, a3: String, a4: Box<R>, a5: Box<R>, a6: SharedPtr<C>, a7: WeakPtr<C>) -> N;
        fn tmix5(a0: N, a1: N, a2: String, a3: String, a4: Box<R>, a5: Box<R>, a6: SharedPtr<C>, a7: WeakPtr<C>) -> Result<WeakPtr<C>>;
        fn mix6(a0: T1, a1: T3, a2: Tx, a3: T1, a4: u32, a5: T3) -> T1;
        fn tmix6(a0: T1, a1: T3, a2: Tx, a3: T1, a4: u32, a5: T3) -> Result<T3>;
        fn mixr(a0: &N, a1: N, a2: &mut String, a3: &str, a4: &[u8], a5: Pin<&mut C>, a6: UniquePtr<C>) -> Vec<N>;
        fn tmixr(a0: &mut N, a1: &str, a2: String, a3: &String, a4: &mut [P2]) -> Result<F2>;
        fn q0_p2(self: &P2, a0: u32) -> u32;
        #[cxx_name = "Q1p2"] fn q1_p2(self: &P2, a0: String, a1: N) -> N;
        fn q2_p2(self: &P2, a0: &str, a1: &N);
        #[cxx_name = "Q3p2"] fn q3_p2(self: &P2, a0: f64, a1: F2) -> Result<F2>;
        fn q4_p2(self: &P2, a0: Box<R>) -> Result<()>;
        #[cxx_name = "Q5p2"] fn q5_p2(self: &P2) -> Vec<String>;
        fn q6_p2(self: &P2, a0: Q2, a1: Q3) -> Q3;
        fn q0_p2m(self: &mut P2, a0: u32) -> u32;
        #[cxx_name = "Q1p2m"] fn q1_p2m(self: &mut P2, a0: String, a1: N) -> N;
        fn q2_p2m(self: &mut P2, a0: &str, a1: &N);
        #[cxx_name = "Q3p2m"] fn q3_p2m(self: &mut P2, a0: f64, a1: F2) -> Result<F2>;
        fn q4_p2m(self: &mut P2, a0: Box<R>) -> Result<()>;
        #[cxx_name = "Q5p2m"] fn q5_p2m(self: &mut P2) -> Vec<String>;
        fn q6_p2m(self: &mut P2, a0: Q2, a1: Q3) -> Q3;
        fn q0_n(self: &N, a0: u32) -> u32;
        #[cxx_name = "Q1n"] fn q1_n(self: &N, a0: String, a1: N) -> N;
        fn q2_n(self: &N, a0: &str, a1: &N);
        #[cxx_name = "Q3n"] fn q3_n(self: &N, a0: f64, a1: F2) -> Result<F2>;
        fn q4_n(self: &N, a0: Box<R>) -> Result<()>;
        #[cxx_name = "Q5n"] fn q5_n(self: &N) -> Vec<String>;
        fn q6_n(self: &N, a0: Q2, a1: Q3) -> Q3;
        fn q0_nm(self: &mut N, a0: u32) -> u32;
        #[cxx_name = "Q1nm"] fn q1_nm(self: &mut N, a0: String, a1: N) -> N;
        fn q2_nm(self: &mut N, a0: &str, a1: &N);
        #[cxx_name = "Q3nm"] fn q3_nm(self: &mut N, a0: f64, a1: F2) -> Result<F2>;
        fn q4_nm(self: &mut N, a0: Box<R>) -> Result<()>;
        #[cxx_name = "Q5nm"] fn q5_nm(self: &mut N) -> Vec<String>;
        fn q6_nm(self: &mut N, a0: Q2, a1: Q3) -> Q3;
        fn q0_r(self: &R, a0: u32) -> u32;
        #[cxx_name = "Q1r"] fn q1_r(self: &R, a0: String, a1: N) -> N;
        fn q2_r(self: &R, a0: &str, a1: &N);
        #[cxx_name = "Q3r"] fn q3_r(self: &R, a0: f64, a1: F2) -> Result<F2>;
        fn q4_r(self: &R, a0: Box<R>) -> Result<()>;
        #[cxx_name = "Q5r"] fn q5_r(self: &R) -> Vec<String>;
        fn q6_r(self: &R, a0: Q2, a1: Q3) -> Q3;
        fn q0_rm(self: &mut R, a0: u32) -> u32;
        #[cxx_name = "Q1rm"] fn q1_rm(self: &mut R, a0: String, a1: N) -> N;
        fn q2_rm(self: &mut R, a0: &str, a1: &N);
        #[cxx_name = "Q3rm"] fn q3_rm(self: &mut R, a0: f64, a1: F2) -> Result<F2>;
        fn q4_rm(self: &mut R, a0: Box<R>) -> Result<()>;
        #[cxx_name = "Q5rm"] fn q5_rm(self: &mut R) -> Vec<String>;
        fn q6_rm(self: &mut R, a0: Q2, a1: Q3) -> Q3;
    }
}
include!("../../common/calls.rs");
mod fnptr;
fn v_bool(a0: bool) -> bool { log(&a0); ret() }
fn w_bool(a0: u8, a1: bool, a2: bool, a3: u64) -> bool { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_bool(a0: bool, a1: u16) -> Result<bool, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_c_char(a0: c_char) -> c_char { log(&a0); ret() }
fn w_c_char(a0: u8, a1: c_char, a2: c_char, a3: u64) -> c_char { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_c_char(a0: c_char, a1: u16) -> Result<c_char, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_u8(a0: u8) -> u8 { log(&a0); ret() }
fn w_u8(a0: u8, a1: u8, a2: u8, a3: u64) -> u8 { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_u8(a0: u8, a1: u16) -> Result<u8, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_u16(a0: u16) -> u16 { log(&a0); ret() }
fn w_u16(a0: u8, a1: u16, a2: u16, a3: u64) -> u16 { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_u16(a0: u16, a1: u16) -> Result<u16, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_u32(a0: u32) -> u32 { log(&a0); ret() }
fn w_u32(a0: u8, a1: u32, a2: u32, a3: u64) -> u32 { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_u32(a0: u32, a1: u16) -> Result<u32, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_u64(a0: u64) -> u64 { log(&a0); ret() }
fn w_u64(a0: u8, a1: u64, a2: u64, a3: u64) -> u64 { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_u64(a0: u64, a1: u16) -> Result<u64, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_usize(a0: usize) -> usize { log(&a0); ret() }
fn w_usize(a0: u8, a1: usize, a2: usize, a3: u64) -> usize { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_usize(a0: usize, a1: u16) -> Result<usize, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_i8(a0: i8) -> i8 { log(&a0); ret() }
fn w_i8(a0: u8, a1: i8, a2: i8, a3: u64) -> i8 { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_i8(a0: i8, a1: u16) -> Result<i8, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_i16(a0: i16) -> i16 { log(&a0); ret() }
fn w_i16(a0: u8, a1: i16, a2: i16, a3: u64) -> i16 { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_i16(a0: i16, a1: u16) -> Result<i16, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_i32(a0: i32) -> i32 { log(&a0); ret() }
fn w_i32(a0: u8, a1: i32, a2: i32, a3: u64) -> i32 { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_i32(a0: i32, a1: u16) -> Result<i32, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_i64(a0: i64) -> i64 { log(&a0); ret() }
fn w_i64(a0: u8, a1: i64, a2: i64, a3: u64) -> i64 { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_i64(a0: i64, a1: u16) -> Result<i64, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_isize(a0: isize) -> isize { log(&a0); ret() }
fn w_isize(a0: u8, a1: isize, a2: isize, a3: u64) -> isize { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_isize(a0: isize, a1: u16) -> Result<isize, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_f32(a0: f32) -> f32 { log(&a0); ret() }
fn w_f32(a0: u8, a1: f32, a2: f32, a3: u64) -> f32 { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_f32(a0: f32, a1: u16) -> Result<f32, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_f64(a0: f64) -> f64 { log(&a0); ret() }
fn w_f64(a0: u8, a1: f64, a2: f64, a3: u64) -> f64 { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_f64(a0: f64, a1: u16) -> Result<f64, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_string(a0: String) -> String { log(&a0); ret() }
fn w_string(a0: u8, a1: String, a2: String, a3: u64) -> String { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_string(a0: String, a1: u16) -> Result<String, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_box(a0: Box<R>) -> Box<R> { log(&a0); ret() }
fn w_box(a0: u8, a1: Box<R>, a2: Box<R>, a3: u64) -> Box<R> { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_box(a0: Box<R>, a1: u16) -> Result<Box<R>, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_boxn(a0: Box<N>) -> Box<N> { log(&a0); ret() }
fn w_boxn(a0: u8, a1: Box<N>, a2: Box<N>, a3: u64) -> Box<N> { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_boxn(a0: Box<N>, a1: u16) -> Result<Box<N>, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_vu8(a0: Vec<u8>) -> Vec<u8> { log(&a0); ret() }
fn w_vu8(a0: u8, a1: Vec<u8>, a2: Vec<u8>, a3: u64) -> Vec<u8> { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_vu8(a0: Vec<u8>, a1: u16) -> Result<Vec<u8>, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_vbool(a0: Vec<bool>) -> Vec<bool> { log(&a0); ret() }
fn w_vbool(a0: u8, a1: Vec<bool>, a2: Vec<bool>, a3: u64) -> Vec<bool> { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_vbool(a0: Vec<bool>, a1: u16) -> Result<Vec<bool>, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_vf64(a0: Vec<f64>) -> Vec<f64> { log(&a0); ret() }
fn w_vf64(a0: u8, a1: Vec<f64>, a2: Vec<f64>, a3: u64) -> Vec<f64> { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_vf64(a0: Vec<f64>, a1: u16) -> Result<Vec<f64>, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_vstring(a0: Vec<String>) -> Vec<String> { log(&a0); ret() }
fn w_vstring(a0: u8, a1: Vec<String>, a2: Vec<String>, a3: u64) -> Vec<String> { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_vstring(a0: Vec<String>, a1: u16) -> Result<Vec<String>, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_vp2(a0: Vec<P2>) -> Vec<P2> { log(&a0); ret() }
fn w_vp2(a0: u8, a1: Vec<P2>, a2: Vec<P2>, a3: u64) -> Vec<P2> { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_vp2(a0: Vec<P2>, a1: u16) -> Result<Vec<P2>, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_vn(a0: Vec<N>) -> Vec<N> { log(&a0); ret() }
fn w_vn(a0: u8, a1: Vec<N>, a2: Vec<N>, a3: u64) -> Vec<N> { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_vn(a0: Vec<N>, a1: u16) -> Result<Vec<N>, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_vr(a0: Vec<R>) -> Vec<R> { log(&a0); ret() }
fn w_vr(a0: u8, a1: Vec<R>, a2: Vec<R>, a3: u64) -> Vec<R> { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_vr(a0: Vec<R>, a1: u16) -> Result<Vec<R>, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_uobj(a0: UniquePtr<C>) -> UniquePtr<C> { log(&a0); ret() }
fn w_uobj(a0: u8, a1: UniquePtr<C>, a2: UniquePtr<C>, a3: u64) -> UniquePtr<C> { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_uobj(a0: UniquePtr<C>, a1: u16) -> Result<UniquePtr<C>, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_ustr(a0: UniquePtr<CxxString>) -> UniquePtr<CxxString> { log(&a0); ret() }
fn w_ustr(a0: u8, a1: UniquePtr<CxxString>, a2: UniquePtr<CxxString>, a3: u64) -> UniquePtr<CxxString> { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_ustr(a0: UniquePtr<CxxString>, a1: u16) -> Result<UniquePtr<CxxString>, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_uvec(a0: UniquePtr<CxxVector<u32>>) -> UniquePtr<CxxVector<u32>> { log(&a0); ret() }
fn w_uvec(a0: u8, a1: UniquePtr<CxxVector<u32>>, a2: UniquePtr<CxxVector<u32>>, a3: u64) -> UniquePtr<CxxVector<u32>> { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_uvec(a0: UniquePtr<CxxVector<u32>>, a1: u16) -> Result<UniquePtr<CxxVector<u32>>, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_un(a0: UniquePtr<N>) -> UniquePtr<N> { log(&a0); ret() }
fn w_un(a0: u8, a1: UniquePtr<N>, a2: UniquePtr<N>, a3: u64) -> UniquePtr<N> { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_un(a0: UniquePtr<N>, a1: u16) -> Result<UniquePtr<N>, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_sobj(a0: SharedPtr<C>) -> SharedPtr<C> { log(&a0); ret() }
fn w_sobj(a0: u8, a1: SharedPtr<C>, a2: SharedPtr<C>, a3: u64) -> SharedPtr<C> { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_sobj(a0: SharedPtr<C>, a1: u16) -> Result<SharedPtr<C>, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_su64(a0: SharedPtr<u64>) -> SharedPtr<u64> { log(&a0); ret() }
fn w_su64(a0: u8, a1: SharedPtr<u64>, a2: SharedPtr<u64>, a3: u64) -> SharedPtr<u64> { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_su64(a0: SharedPtr<u64>, a1: u16) -> Result<SharedPtr<u64>, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_wobj(a0: WeakPtr<C>) -> WeakPtr<C> { log(&a0); ret() }
fn w_wobj(a0: u8, a1: WeakPtr<C>, a2: WeakPtr<C>, a3: u64) -> WeakPtr<C> { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_wobj(a0: WeakPtr<C>, a1: u16) -> Result<WeakPtr<C>, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_p1(a0: P1) -> P1 { log(&a0); ret() }
fn w_p1(a0: u8, a1: P1, a2: P1, a3: u64) -> P1 { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_p1(a0: P1, a1: u16) -> Result<P1, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_p2(a0: P2) -> P2 { log(&a0); ret() }
fn w_p2(a0: u8, a1: P2, a2: P2, a3: u64) -> P2 { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_p2(a0: P2, a1: u16) -> Result<P2, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_f2(a0: F2) -> F2 { log(&a0); ret() }
fn w_f2(a0: u8, a1: F2, a2: F2, a3: u64) -> F2 { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_f2(a0: F2, a1: u16) -> Result<F2, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_fi(a0: FI) -> FI { log(&a0); ret() }
fn w_fi(a0: u8, a1: FI, a2: FI, a3: u64) -> FI { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_fi(a0: FI, a1: u16) -> Result<FI, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_q2(a0: Q2) -> Q2 { log(&a0); ret() }
fn w_q2(a0: u8, a1: Q2, a2: Q2, a3: u64) -> Q2 { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_q2(a0: Q2, a1: u16) -> Result<Q2, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_q3(a0: Q3) -> Q3 { log(&a0); ret() }
fn w_q3(a0: u8, a1: Q3, a2: Q3, a3: u64) -> Q3 { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_q3(a0: Q3, a1: u16) -> Result<Q3, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_d4(a0: D4) -> D4 { log(&a0); ret() }
fn w_d4(a0: u8, a1: D4, a2: D4, a3: u64) -> D4 { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_d4(a0: D4, a1: u16) -> Result<D4, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_n(a0: N) -> N { log(&a0); ret() }
fn w_n(a0: u8, a1: N, a2: N, a3: u64) -> N { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_n(a0: N, a1: u16) -> Result<N, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_ar(a0: Ar) -> Ar { log(&a0); ret() }
fn w_ar(a0: u8, a1: Ar, a2: Ar, a3: u64) -> Ar { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_ar(a0: Ar, a1: u16) -> Result<Ar, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_nest(a0: Nest) -> Nest { log(&a0); ret() }
fn w_nest(a0: u8, a1: Nest, a2: Nest, a3: u64) -> Nest { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_nest(a0: Nest, a1: u16) -> Result<Nest, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_en(a0: En) -> En { log(&a0); ret() }
fn w_en(a0: u8, a1: En, a2: En, a3: u64) -> En { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_en(a0: En, a1: u16) -> Result<En, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_ei16(a0: Ei16) -> Ei16 { log(&a0); ret() }
fn w_ei16(a0: u8, a1: Ei16, a2: Ei16, a3: u64) -> Ei16 { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_ei16(a0: Ei16, a1: u16) -> Result<Ei16, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_eu64(a0: Eu64) -> Eu64 { log(&a0); ret() }
fn w_eu64(a0: u8, a1: Eu64, a2: Eu64, a3: u64) -> Eu64 { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_eu64(a0: Eu64, a1: u16) -> Result<Eu64, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_t1(a0: T1) -> T1 { log(&a0); ret() }
fn w_t1(a0: u8, a1: T1, a2: T1, a3: u64) -> T1 { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_t1(a0: T1, a1: u16) -> Result<T1, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_t3(a0: T3) -> T3 { log(&a0); ret() }
fn w_t3(a0: u8, a1: T3, a2: T3, a3: u64) -> T3 { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_t3(a0: T3, a1: u16) -> Result<T3, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_tx(a0: Tx) -> Tx { log(&a0); ret() }
fn w_tx(a0: u8, a1: Tx, a2: Tx, a3: u64) -> Tx { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_tx(a0: Tx, a1: u16) -> Result<Tx, Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_arr5(a0: [u8; 5]) -> [u8; 5] { log(&a0); ret() }
fn w_arr5(a0: u8, a1: [u8; 5], a2: [u8; 5], a3: u64) -> [u8; 5] { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_arr5(a0: [u8; 5], a1: u16) -> Result<[u8; 5], Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn v_arrs(a0: [String; 2]) -> [String; 2] { log(&a0); ret() }
fn w_arrs(a0: u8, a1: [String; 2], a2: [String; 2], a3: u64) -> [String; 2] { log(&a0); log(&a1); log(&a2); log(&a3); ret() }
fn t_arrs(a0: [String; 2], a1: u16) -> Result<[String; 2], Bad> { log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) }
fn r_bool(a0: &bool, a1: &bool) { logr(a0); logr(a1); }
fn m_bool(a0: &mut bool, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_bool(a0: &bool) -> &bool { logr(a0); a0 }
fn mm_bool(a0: &mut bool) -> &mut bool { logr(&*a0); set(&mut *a0); a0 }
fn tr_bool(a0: &bool) -> Result<&bool, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_bool(a0: &mut bool) -> Result<&mut bool, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_c_char(a0: &c_char, a1: &c_char) { logr(a0); logr(a1); }
fn m_c_char(a0: &mut c_char, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_c_char(a0: &c_char) -> &c_char { logr(a0); a0 }
fn mm_c_char(a0: &mut c_char) -> &mut c_char { logr(&*a0); set(&mut *a0); a0 }
fn tr_c_char(a0: &c_char) -> Result<&c_char, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_c_char(a0: &mut c_char) -> Result<&mut c_char, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_u8(a0: &u8, a1: &u8) { logr(a0); logr(a1); }
fn m_u8(a0: &mut u8, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_u8(a0: &u8) -> &u8 { logr(a0); a0 }
fn mm_u8(a0: &mut u8) -> &mut u8 { logr(&*a0); set(&mut *a0); a0 }
fn tr_u8(a0: &u8) -> Result<&u8, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_u8(a0: &mut u8) -> Result<&mut u8, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_u16(a0: &u16, a1: &u16) { logr(a0); logr(a1); }
fn m_u16(a0: &mut u16, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_u16(a0: &u16) -> &u16 { logr(a0); a0 }
fn mm_u16(a0: &mut u16) -> &mut u16 { logr(&*a0); set(&mut *a0); a0 }
fn tr_u16(a0: &u16) -> Result<&u16, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_u16(a0: &mut u16) -> Result<&mut u16, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_u32(a0: &u32, a1: &u32) { logr(a0); logr(a1); }
fn m_u32(a0: &mut u32, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_u32(a0: &u32) -> &u32 { logr(a0); a0 }
fn mm_u32(a0: &mut u32) -> &mut u32 { logr(&*a0); set(&mut *a0); a0 }
fn tr_u32(a0: &u32) -> Result<&u32, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_u32(a0: &mut u32) -> Result<&mut u32, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_u64(a0: &u64, a1: &u64) { logr(a0); logr(a1); }
fn m_u64(a0: &mut u64, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_u64(a0: &u64) -> &u64 { logr(a0); a0 }
fn mm_u64(a0: &mut u64) -> &mut u64 { logr(&*a0); set(&mut *a0); a0 }
fn tr_u64(a0: &u64) -> Result<&u64, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_u64(a0: &mut u64) -> Result<&mut u64, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_usize(a0: &usize, a1: &usize) { logr(a0); logr(a1); }
fn m_usize(a0: &mut usize, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_usize(a0: &usize) -> &usize { logr(a0); a0 }
fn mm_usize(a0: &mut usize) -> &mut usize { logr(&*a0); set(&mut *a0); a0 }
fn tr_usize(a0: &usize) -> Result<&usize, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_usize(a0: &mut usize) -> Result<&mut usize, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_i8(a0: &i8, a1: &i8) { logr(a0); logr(a1); }
fn m_i8(a0: &mut i8, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_i8(a0: &i8) -> &i8 { logr(a0); a0 }
fn mm_i8(a0: &mut i8) -> &mut i8 { logr(&*a0); set(&mut *a0); a0 }
fn tr_i8(a0: &i8) -> Result<&i8, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_i8(a0: &mut i8) -> Result<&mut i8, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_i16(a0: &i16, a1: &i16) { logr(a0); logr(a1); }
fn m_i16(a0: &mut i16, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_i16(a0: &i16) -> &i16 { logr(a0); a0 }
fn mm_i16(a0: &mut i16) -> &mut i16 { logr(&*a0); set(&mut *a0); a0 }
fn tr_i16(a0: &i16) -> Result<&i16, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_i16(a0: &mut i16) -> Result<&mut i16, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_i32(a0: &i32, a1: &i32) { logr(a0); logr(a1); }
fn m_i32(a0: &mut i32, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_i32(a0: &i32) -> &i32 { logr(a0); a0 }
fn mm_i32(a0: &mut i32) -> &mut i32 { logr(&*a0); set(&mut *a0); a0 }
fn tr_i32(a0: &i32) -> Result<&i32, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_i32(a0: &mut i32) -> Result<&mut i32, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_i64(a0: &i64, a1: &i64) { logr(a0); logr(a1); }
fn m_i64(a0: &mut i64, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_i64(a0: &i64) -> &i64 { logr(a0); a0 }
fn mm_i64(a0: &mut i64) -> &mut i64 { logr(&*a0); set(&mut *a0); a0 }
fn tr_i64(a0: &i64) -> Result<&i64, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_i64(a0: &mut i64) -> Result<&mut i64, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_isize(a0: &isize, a1: &isize) { logr(a0); logr(a1); }
fn m_isize(a0: &mut isize, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_isize(a0: &isize) -> &isize { logr(a0); a0 }
fn mm_isize(a0: &mut isize) -> &mut isize { logr(&*a0); set(&mut *a0); a0 }
fn tr_isize(a0: &isize) -> Result<&isize, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_isize(a0: &mut isize) -> Result<&mut isize, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_f32(a0: &f32, a1: &f32) { logr(a0); logr(a1); }
fn m_f32(a0: &mut f32, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_f32(a0: &f32) -> &f32 { logr(a0); a0 }
fn mm_f32(a0: &mut f32) -> &mut f32 { logr(&*a0); set(&mut *a0); a0 }
fn tr_f32(a0: &f32) -> Result<&f32, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_f32(a0: &mut f32) -> Result<&mut f32, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_f64(a0: &f64, a1: &f64) { logr(a0); logr(a1); }
fn m_f64(a0: &mut f64, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_f64(a0: &f64) -> &f64 { logr(a0); a0 }
fn mm_f64(a0: &mut f64) -> &mut f64 { logr(&*a0); set(&mut *a0); a0 }
fn tr_f64(a0: &f64) -> Result<&f64, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_f64(a0: &mut f64) -> Result<&mut f64, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_string(a0: &String, a1: &String) { logr(a0); logr(a1); }
fn m_string(a0: &mut String, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_string(a0: &String) -> &String { logr(a0); a0 }
fn mm_string(a0: &mut String) -> &mut String { logr(&*a0); set(&mut *a0); a0 }
fn tr_string(a0: &String) -> Result<&String, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_string(a0: &mut String) -> Result<&mut String, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_box(a0: &Box<R>, a1: &Box<R>) { logr(a0); logr(a1); }
fn m_box(a0: &mut Box<R>, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_box(a0: &Box<R>) -> &Box<R> { logr(a0); a0 }
fn mm_box(a0: &mut Box<R>) -> &mut Box<R> { logr(&*a0); set(&mut *a0); a0 }
fn tr_box(a0: &Box<R>) -> Result<&Box<R>, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_box(a0: &mut Box<R>) -> Result<&mut Box<R>, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_boxn(a0: &Box<N>, a1: &Box<N>) { logr(a0); logr(a1); }
fn m_boxn(a0: &mut Box<N>, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_boxn(a0: &Box<N>) -> &Box<N> { logr(a0); a0 }
fn mm_boxn(a0: &mut Box<N>) -> &mut Box<N> { logr(&*a0); set(&mut *a0); a0 }
fn tr_boxn(a0: &Box<N>) -> Result<&Box<N>, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_boxn(a0: &mut Box<N>) -> Result<&mut Box<N>, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_vu8(a0: &Vec<u8>, a1: &Vec<u8>) { logr(a0); logr(a1); }
fn m_vu8(a0: &mut Vec<u8>, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_vu8(a0: &Vec<u8>) -> &Vec<u8> { logr(a0); a0 }
fn mm_vu8(a0: &mut Vec<u8>) -> &mut Vec<u8> { logr(&*a0); set(&mut *a0); a0 }
fn tr_vu8(a0: &Vec<u8>) -> Result<&Vec<u8>, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_vu8(a0: &mut Vec<u8>) -> Result<&mut Vec<u8>, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_vbool(a0: &Vec<bool>, a1: &Vec<bool>) { logr(a0); logr(a1); }
fn m_vbool(a0: &mut Vec<bool>, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_vbool(a0: &Vec<bool>) -> &Vec<bool> { logr(a0); a0 }
fn mm_vbool(a0: &mut Vec<bool>) -> &mut Vec<bool> { logr(&*a0); set(&mut *a0); a0 }
fn tr_vbool(a0: &Vec<bool>) -> Result<&Vec<bool>, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_vbool(a0: &mut Vec<bool>) -> Result<&mut Vec<bool>, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_vf64(a0: &Vec<f64>, a1: &Vec<f64>) { logr(a0); logr(a1); }
fn m_vf64(a0: &mut Vec<f64>, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_vf64(a0: &Vec<f64>) -> &Vec<f64> { logr(a0); a0 }
fn mm_vf64(a0: &mut Vec<f64>) -> &mut Vec<f64> { logr(&*a0); set(&mut *a0); a0 }
fn tr_vf64(a0: &Vec<f64>) -> Result<&Vec<f64>, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_vf64(a0: &mut Vec<f64>) -> Result<&mut Vec<f64>, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_vstring(a0: &Vec<String>, a1: &Vec<String>) { logr(a0); logr(a1); }
fn m_vstring(a0: &mut Vec<String>, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_vstring(a0: &Vec<String>) -> &Vec<String> { logr(a0); a0 }
fn mm_vstring(a0: &mut Vec<String>) -> &mut Vec<String> { logr(&*a0); set(&mut *a0); a0 }
fn tr_vstring(a0: &Vec<String>) -> Result<&Vec<String>, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_vstring(a0: &mut Vec<String>) -> Result<&mut Vec<String>, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_vp2(a0: &Vec<P2>, a1: &Vec<P2>) { logr(a0); logr(a1); }
fn m_vp2(a0: &mut Vec<P2>, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_vp2(a0: &Vec<P2>) -> &Vec<P2> { logr(a0); a0 }
fn mm_vp2(a0: &mut Vec<P2>) -> &mut Vec<P2> { logr(&*a0); set(&mut *a0); a0 }
fn tr_vp2(a0: &Vec<P2>) -> Result<&Vec<P2>, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_vp2(a0: &mut Vec<P2>) -> Result<&mut Vec<P2>, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_vn(a0: &Vec<N>, a1: &Vec<N>) { logr(a0); logr(a1); }
fn m_vn(a0: &mut Vec<N>, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_vn(a0: &Vec<N>) -> &Vec<N> { logr(a0); a0 }
fn mm_vn(a0: &mut Vec<N>) -> &mut Vec<N> { logr(&*a0); set(&mut *a0); a0 }
fn tr_vn(a0: &Vec<N>) -> Result<&Vec<N>, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_vn(a0: &mut Vec<N>) -> Result<&mut Vec<N>, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_vr(a0: &Vec<R>, a1: &Vec<R>) { logr(a0); logr(a1); }
fn m_vr(a0: &mut Vec<R>, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_vr(a0: &Vec<R>) -> &Vec<R> { logr(a0); a0 }
fn mm_vr(a0: &mut Vec<R>) -> &mut Vec<R> { logr(&*a0); set(&mut *a0); a0 }
fn tr_vr(a0: &Vec<R>) -> Result<&Vec<R>, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_vr(a0: &mut Vec<R>) -> Result<&mut Vec<R>, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_uobj(a0: &UniquePtr<C>, a1: &UniquePtr<C>) { logr(a0); logr(a1); }
fn m_uobj(a0: &mut UniquePtr<C>, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_uobj(a0: &UniquePtr<C>) -> &UniquePtr<C> { logr(a0); a0 }
fn mm_uobj(a0: &mut UniquePtr<C>) -> &mut UniquePtr<C> { logr(&*a0); set(&mut *a0); a0 }
fn tr_uobj(a0: &UniquePtr<C>) -> Result<&UniquePtr<C>, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_uobj(a0: &mut UniquePtr<C>) -> Result<&mut UniquePtr<C>, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_ustr(a0: &UniquePtr<CxxString>, a1: &UniquePtr<CxxString>) { logr(a0); logr(a1); }
fn m_ustr(a0: &mut UniquePtr<CxxString>, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_ustr(a0: &UniquePtr<CxxString>) -> &UniquePtr<CxxString> { logr(a0); a0 }
fn mm_ustr(a0: &mut UniquePtr<CxxString>) -> &mut UniquePtr<CxxString> { logr(&*a0); set(&mut *a0); a0 }
fn tr_ustr(a0: &UniquePtr<CxxString>) -> Result<&UniquePtr<CxxString>, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_ustr(a0: &mut UniquePtr<CxxString>) -> Result<&mut UniquePtr<CxxString>, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_uvec(a0: &UniquePtr<CxxVector<u32>>, a1: &UniquePtr<CxxVector<u32>>) { logr(a0); logr(a1); }
fn m_uvec(a0: &mut UniquePtr<CxxVector<u32>>, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_uvec(a0: &UniquePtr<CxxVector<u32>>) -> &UniquePtr<CxxVector<u32>> { logr(a0); a0 }
fn mm_uvec(a0: &mut UniquePtr<CxxVector<u32>>) -> &mut UniquePtr<CxxVector<u32>> { logr(&*a0); set(&mut *a0); a0 }
fn tr_uvec(a0: &UniquePtr<CxxVector<u32>>) -> Result<&UniquePtr<CxxVector<u32>>, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_uvec(a0: &mut UniquePtr<CxxVector<u32>>) -> Result<&mut UniquePtr<CxxVector<u32>>, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_un(a0: &UniquePtr<N>, a1: &UniquePtr<N>) { logr(a0); logr(a1); }
fn m_un(a0: &mut UniquePtr<N>, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_un(a0: &UniquePtr<N>) -> &UniquePtr<N> { logr(a0); a0 }
fn mm_un(a0: &mut UniquePtr<N>) -> &mut UniquePtr<N> { logr(&*a0); set(&mut *a0); a0 }
fn tr_un(a0: &UniquePtr<N>) -> Result<&UniquePtr<N>, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_un(a0: &mut UniquePtr<N>) -> Result<&mut UniquePtr<N>, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_sobj(a0: &SharedPtr<C>, a1: &SharedPtr<C>) { logr(a0); logr(a1); }
fn m_sobj(a0: &mut SharedPtr<C>, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_sobj(a0: &SharedPtr<C>) -> &SharedPtr<C> { logr(a0); a0 }
fn mm_sobj(a0: &mut SharedPtr<C>) -> &mut SharedPtr<C> { logr(&*a0); set(&mut *a0); a0 }
fn tr_sobj(a0: &SharedPtr<C>) -> Result<&SharedPtr<C>, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_sobj(a0: &mut SharedPtr<C>) -> Result<&mut SharedPtr<C>, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_su64(a0: &SharedPtr<u64>, a1: &SharedPtr<u64>) { logr(a0); logr(a1); }
fn m_su64(a0: &mut SharedPtr<u64>, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_su64(a0: &SharedPtr<u64>) -> &SharedPtr<u64> { logr(a0); a0 }
fn mm_su64(a0: &mut SharedPtr<u64>) -> &mut SharedPtr<u64> { logr(&*a0); set(&mut *a0); a0 }
fn tr_su64(a0: &SharedPtr<u64>) -> Result<&SharedPtr<u64>, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_su64(a0: &mut SharedPtr<u64>) -> Result<&mut SharedPtr<u64>, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_wobj(a0: &WeakPtr<C>, a1: &WeakPtr<C>) { logr(a0); logr(a1); }
fn m_wobj(a0: &mut WeakPtr<C>, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_wobj(a0: &WeakPtr<C>) -> &WeakPtr<C> { logr(a0); a0 }
fn mm_wobj(a0: &mut WeakPtr<C>) -> &mut WeakPtr<C> { logr(&*a0); set(&mut *a0); a0 }
fn tr_wobj(a0: &WeakPtr<C>) -> Result<&WeakPtr<C>, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_wobj(a0: &mut WeakPtr<C>) -> Result<&mut WeakPtr<C>, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_p1(a0: &P1, a1: &P1) { logr(a0); logr(a1); }
fn m_p1(a0: &mut P1, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_p1(a0: &P1) -> &P1 { logr(a0); a0 }
fn mm_p1(a0: &mut P1) -> &mut P1 { logr(&*a0); set(&mut *a0); a0 }
fn tr_p1(a0: &P1) -> Result<&P1, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_p1(a0: &mut P1) -> Result<&mut P1, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_p2(a0: &P2, a1: &P2) { logr(a0); logr(a1); }
fn m_p2(a0: &mut P2, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_p2(a0: &P2) -> &P2 { logr(a0); a0 }
fn mm_p2(a0: &mut P2) -> &mut P2 { logr(&*a0); set(&mut *a0); a0 }
fn tr_p2(a0: &P2) -> Result<&P2, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_p2(a0: &mut P2) -> Result<&mut P2, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_f2(a0: &F2, a1: &F2) { logr(a0); logr(a1); }
fn m_f2(a0: &mut F2, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_f2(a0: &F2) -> &F2 { logr(a0); a0 }
fn mm_f2(a0: &mut F2) -> &mut F2 { logr(&*a0); set(&mut *a0); a0 }
fn tr_f2(a0: &F2) -> Result<&F2, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_f2(a0: &mut F2) -> Result<&mut F2, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_fi(a0: &FI, a1: &FI) { logr(a0); logr(a1); }
fn m_fi(a0: &mut FI, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_fi(a0: &FI) -> &FI { logr(a0); a0 }
fn mm_fi(a0: &mut FI) -> &mut FI { logr(&*a0); set(&mut *a0); a0 }
fn tr_fi(a0: &FI) -> Result<&FI, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_fi(a0: &mut FI) -> Result<&mut FI, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_q2(a0: &Q2, a1: &Q2) { logr(a0); logr(a1); }
fn m_q2(a0: &mut Q2, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_q2(a0: &Q2) -> &Q2 { logr(a0); a0 }
fn mm_q2(a0: &mut Q2) -> &mut Q2 { logr(&*a0); set(&mut *a0); a0 }
fn tr_q2(a0: &Q2) -> Result<&Q2, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_q2(a0: &mut Q2) -> Result<&mut Q2, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_q3(a0: &Q3, a1: &Q3) { logr(a0); logr(a1); }
fn m_q3(a0: &mut Q3, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_q3(a0: &Q3) -> &Q3 { logr(a0); a0 }
fn mm_q3(a0: &mut Q3) -> &mut Q3 { logr(&*a0); set(&mut *a0); a0 }
fn tr_q3(a0: &Q3) -> Result<&Q3, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_q3(a0: &mut Q3) -> Result<&mut Q3, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_d4(a0: &D4, a1: &D4) { logr(a0); logr(a1); }
fn m_d4(a0: &mut D4, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_d4(a0: &D4) -> &D4 { logr(a0); a0 }
fn mm_d4(a0: &mut D4) -> &mut D4 { logr(&*a0); set(&mut *a0); a0 }
fn tr_d4(a0: &D4) -> Result<&D4, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_d4(a0: &mut D4) -> Result<&mut D4, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_n(a0: &N, a1: &N) { logr(a0); logr(a1); }
fn m_n(a0: &mut N, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_n(a0: &N) -> &N { logr(a0); a0 }
fn mm_n(a0: &mut N) -> &mut N { logr(&*a0); set(&mut *a0); a0 }
fn tr_n(a0: &N) -> Result<&N, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_n(a0: &mut N) -> Result<&mut N, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_ar(a0: &Ar, a1: &Ar) { logr(a0); logr(a1); }
fn m_ar(a0: &mut Ar, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_ar(a0: &Ar) -> &Ar { logr(a0); a0 }
fn mm_ar(a0: &mut Ar) -> &mut Ar { logr(&*a0); set(&mut *a0); a0 }
fn tr_ar(a0: &Ar) -> Result<&Ar, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_ar(a0: &mut Ar) -> Result<&mut Ar, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_nest(a0: &Nest, a1: &Nest) { logr(a0); logr(a1); }
fn m_nest(a0: &mut Nest, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_nest(a0: &Nest) -> &Nest { logr(a0); a0 }
fn mm_nest(a0: &mut Nest) -> &mut Nest { logr(&*a0); set(&mut *a0); a0 }
fn tr_nest(a0: &Nest) -> Result<&Nest, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_nest(a0: &mut Nest) -> Result<&mut Nest, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_en(a0: &En, a1: &En) { logr(a0); logr(a1); }
fn m_en(a0: &mut En, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_en(a0: &En) -> &En { logr(a0); a0 }
fn mm_en(a0: &mut En) -> &mut En { logr(&*a0); set(&mut *a0); a0 }
fn tr_en(a0: &En) -> Result<&En, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_en(a0: &mut En) -> Result<&mut En, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_ei16(a0: &Ei16, a1: &Ei16) { logr(a0); logr(a1); }
fn m_ei16(a0: &mut Ei16, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_ei16(a0: &Ei16) -> &Ei16 { logr(a0); a0 }
fn mm_ei16(a0: &mut Ei16) -> &mut Ei16 { logr(&*a0); set(&mut *a0); a0 }
fn tr_ei16(a0: &Ei16) -> Result<&Ei16, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_ei16(a0: &mut Ei16) -> Result<&mut Ei16, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_eu64(a0: &Eu64, a1: &Eu64) { logr(a0); logr(a1); }
fn m_eu64(a0: &mut Eu64, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_eu64(a0: &Eu64) -> &Eu64 { logr(a0); a0 }
fn mm_eu64(a0: &mut Eu64) -> &mut Eu64 { logr(&*a0); set(&mut *a0); a0 }
fn tr_eu64(a0: &Eu64) -> Result<&Eu64, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_eu64(a0: &mut Eu64) -> Result<&mut Eu64, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_t1(a0: &T1, a1: &T1) { logr(a0); logr(a1); }
fn m_t1(a0: &mut T1, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_t1(a0: &T1) -> &T1 { logr(a0); a0 }
fn mm_t1(a0: &mut T1) -> &mut T1 { logr(&*a0); set(&mut *a0); a0 }
fn tr_t1(a0: &T1) -> Result<&T1, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_t1(a0: &mut T1) -> Result<&mut T1, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_t3(a0: &T3, a1: &T3) { logr(a0); logr(a1); }
fn m_t3(a0: &mut T3, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_t3(a0: &T3) -> &T3 { logr(a0); a0 }
fn mm_t3(a0: &mut T3) -> &mut T3 { logr(&*a0); set(&mut *a0); a0 }
fn tr_t3(a0: &T3) -> Result<&T3, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_t3(a0: &mut T3) -> Result<&mut T3, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_tx(a0: &Tx, a1: &Tx) { logr(a0); logr(a1); }
fn m_tx(a0: &mut Tx, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_tx(a0: &Tx) -> &Tx { logr(a0); a0 }
fn mm_tx(a0: &mut Tx) -> &mut Tx { logr(&*a0); set(&mut *a0); a0 }
fn tr_tx(a0: &Tx) -> Result<&Tx, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_tx(a0: &mut Tx) -> Result<&mut Tx, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_arr5(a0: &[u8; 5], a1: &[u8; 5]) { logr(a0); logr(a1); }
fn m_arr5(a0: &mut [u8; 5], a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_arr5(a0: &[u8; 5]) -> &[u8; 5] { logr(a0); a0 }
fn mm_arr5(a0: &mut [u8; 5]) -> &mut [u8; 5] { logr(&*a0); set(&mut *a0); a0 }
fn tr_arr5(a0: &[u8; 5]) -> Result<&[u8; 5], Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_arr5(a0: &mut [u8; 5]) -> Result<&mut [u8; 5], Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_arrs(a0: &[String; 2], a1: &[String; 2]) { logr(a0); logr(a1); }
fn m_arrs(a0: &mut [String; 2], a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_arrs(a0: &[String; 2]) -> &[String; 2] { logr(a0); a0 }
fn mm_arrs(a0: &mut [String; 2]) -> &mut [String; 2] { logr(&*a0); set(&mut *a0); a0 }
fn tr_arrs(a0: &[String; 2]) -> Result<&[String; 2], Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_arrs(a0: &mut [String; 2]) -> Result<&mut [String; 2], Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_r(a0: &R, a1: &R) { logr(a0); logr(a1); }
fn m_r(a0: &mut R, a1: u16) { logr(&*a0); log(&a1); set(&mut *a0); }
fn rr_r(a0: &R) -> &R { logr(a0); a0 }
fn mm_r(a0: &mut R) -> &mut R { logr(&*a0); set(&mut *a0); a0 }
fn tr_r(a0: &R) -> Result<&R, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_r(a0: &mut R) -> Result<&mut R, Bad> { logr(&*a0); set(&mut *a0); if fail() { return Err(Bad); } Ok(a0) }
fn r_c(a0: &C, a1: &C) { logr(a0); logr(a1); }
fn m_c(a0: Pin<&mut C>, a1: u16) { logr(&*a0); log(&a1); let mut a0 = a0; set_pin(a0.as_mut()); }
fn rr_c(a0: &C) -> &C { logr(a0); a0 }
fn mm_c(a0: Pin<&mut C>) -> Pin<&mut C> { logr(&*a0); let mut a0 = a0; set_pin(a0.as_mut()); a0 }
fn tr_c(a0: &C) -> Result<&C, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_c(a0: Pin<&mut C>) -> Result<Pin<&mut C>, Bad> { logr(&*a0); let mut a0 = a0; set_pin(a0.as_mut()); if fail() { return Err(Bad); } Ok(a0) }
fn r_cxxstring(a0: &CxxString, a1: &CxxString) { logr(a0); logr(a1); }
fn m_cxxstring(a0: Pin<&mut CxxString>, a1: u16) { logr(&*a0); log(&a1); let mut a0 = a0; set_pin(a0.as_mut()); }
fn rr_cxxstring(a0: &CxxString) -> &CxxString { logr(a0); a0 }
fn mm_cxxstring(a0: Pin<&mut CxxString>) -> Pin<&mut CxxString> { logr(&*a0); let mut a0 = a0; set_pin(a0.as_mut()); a0 }
fn tr_cxxstring(a0: &CxxString) -> Result<&CxxString, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_cxxstring(a0: Pin<&mut CxxString>) -> Result<Pin<&mut CxxString>, Bad> { logr(&*a0); let mut a0 = a0; set_pin(a0.as_mut()); if fail() { return Err(Bad); } Ok(a0) }
fn r_cxxvector(a0: &CxxVector<u32>, a1: &CxxVector<u32>) { logr(a0); logr(a1); }
fn m_cxxvector(a0: Pin<&mut CxxVector<u32>>, a1: u16) { logr(&*a0); log(&a1); let mut a0 = a0; set_pin(a0.as_mut()); }
fn rr_cxxvector(a0: &CxxVector<u32>) -> &CxxVector<u32> { logr(a0); a0 }
fn mm_cxxvector(a0: Pin<&mut CxxVector<u32>>) -> Pin<&mut CxxVector<u32>> { logr(&*a0); let mut a0 = a0; set_pin(a0.as_mut()); a0 }
fn tr_cxxvector(a0: &CxxVector<u32>) -> Result<&CxxVector<u32>, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_cxxvector(a0: Pin<&mut CxxVector<u32>>) -> Result<Pin<&mut CxxVector<u32>>, Bad> { logr(&*a0); let mut a0 = a0; set_pin(a0.as_mut()); if fail() { return Err(Bad); } Ok(a0) }
fn r_cxxvectorn(a0: &CxxVector<N>, a1: &CxxVector<N>) { logr(a0); logr(a1); }
fn m_cxxvectorn(a0: Pin<&mut CxxVector<N>>, a1: u16) { logr(&*a0); log(&a1); let mut a0 = a0; set_pin(a0.as_mut()); }
fn rr_cxxvectorn(a0: &CxxVector<N>) -> &CxxVector<N> { logr(a0); a0 }
fn mm_cxxvectorn(a0: Pin<&mut CxxVector<N>>) -> Pin<&mut CxxVector<N>> { logr(&*a0); let mut a0 = a0; set_pin(a0.as_mut()); a0 }
fn tr_cxxvectorn(a0: &CxxVector<N>) -> Result<&CxxVector<N>, Bad> { logr(a0); if fail() { return Err(Bad); } Ok(a0) }
fn tm_cxxvectorn(a0: Pin<&mut CxxVector<N>>) -> Result<Pin<&mut CxxVector<N>>, Bad> { logr(&*a0); let mut a0 = a0; set_pin(a0.as_mut()); if fail() { return Err(Bad); } Ok(a0) }
fn s_u8(a0: &[u8], a1: u32, a2: &[u8]) { log_slice(a0); log(&a1); log_slice(a2); }
fn sm_u8(a0: &mut [u8]) { log_slice(a0); set_slice(&mut *a0); }
fn ss_u8(a0: &[u8]) -> &[u8] { log_slice(a0); &a0[(a0.len() != 0) as usize..] }
fn sms_u8(a0: &mut [u8]) -> &mut [u8] { log_slice(a0); set_slice(&mut *a0); let skip = (a0.len() != 0) as usize; &mut a0[skip..] }
fn ts_u8(a0: &[u8]) -> Result<&[u8], Bad> { log_slice(a0); if fail() { return Err(Bad); } Ok(&a0[(a0.len() != 0) as usize..]) }
fn tsm_u8(a0: &mut [u8]) -> Result<&mut [u8], Bad> { log_slice(a0); set_slice(&mut *a0); if fail() { return Err(Bad); } let skip = (a0.len() != 0) as usize; Ok(&mut a0[skip..]) }
fn s_f64(a0: &[f64], a1: u32, a2: &[f64]) { log_slice(a0); log(&a1); log_slice(a2); }
fn sm_f64(a0: &mut [f64]) { log_slice(a0); set_slice(&mut *a0); }
fn ss_f64(a0: &[f64]) -> &[f64] { log_slice(a0); &a0[(a0.len() != 0) as usize..] }
fn sms_f64(a0: &mut [f64]) -> &mut [f64] { log_slice(a0); set_slice(&mut *a0); let skip = (a0.len() != 0) as usize; &mut a0[skip..] }
fn ts_f64(a0: &[f64]) -> Result<&[f64], Bad> { log_slice(a0); if fail() { return Err(Bad); } Ok(&a0[(a0.len() != 0) as usize..]) }
fn tsm_f64(a0: &mut [f64]) -> Result<&mut [f64], Bad> { log_slice(a0); set_slice(&mut *a0); if fail() { return Err(Bad); } let skip = (a0.len() != 0) as usize; Ok(&mut a0[skip..]) }
fn s_p2(a0: &[P2], a1: u32, a2: &[P2]) { log_slice(a0); log(&a1); log_slice(a2); }
fn sm_p2(a0: &mut [P2]) { log_slice(a0); set_slice(&mut *a0); }
fn ss_p2(a0: &[P2]) -> &[P2] { log_slice(a0); &a0[(a0.len() != 0) as usize..] }
fn sms_p2(a0: &mut [P2]) -> &mut [P2] { log_slice(a0); set_slice(&mut *a0); let skip = (a0.len() != 0) as usize; &mut a0[skip..] }
fn ts_p2(a0: &[P2]) -> Result<&[P2], Bad> { log_slice(a0); if fail() { return Err(Bad); } Ok(&a0[(a0.len() != 0) as usize..]) }
fn tsm_p2(a0: &mut [P2]) -> Result<&mut [P2], Bad> { log_slice(a0); set_slice(&mut *a0); if fail() { return Err(Bad); } let skip = (a0.len() != 0) as usize; Ok(&mut a0[skip..]) }
fn s_n(a0: &[N], a1: u32, a2: &[N]) { log_slice(a0); log(&a1); log_slice(a2); }
fn sm_n(a0: &mut [N]) { log_slice(a0); set_slice(&mut *a0); }
fn ss_n(a0: &[N]) -> &[N] { log_slice(a0); &a0[(a0.len() != 0) as usize..] }
fn sms_n(a0: &mut [N]) -> &mut [N] { log_slice(a0); set_slice(&mut *a0); let skip = (a0.len() != 0) as usize; &mut a0[skip..] }
fn ts_n(a0: &[N]) -> Result<&[N], Bad> { log_slice(a0); if fail() { return Err(Bad); } Ok(&a0[(a0.len() != 0) as usize..]) }
fn tsm_n(a0: &mut [N]) -> Result<&mut [N], Bad> { log_slice(a0); set_slice(&mut *a0); if fail() { return Err(Bad); } let skip = (a0.len() != 0) as usize; Ok(&mut a0[skip..]) }
fn s_string(a0: &[String], a1: u32, a2: &[String]) { log_slice(a0); log(&a1); log_slice(a2); }
fn sm_string(a0: &mut [String]) { log_slice(a0); set_slice(&mut *a0); }
fn ss_string(a0: &[String]) -> &[String] { log_slice(a0); &a0[(a0.len() != 0) as usize..] }
fn sms_string(a0: &mut [String]) -> &mut [String] { log_slice(a0); set_slice(&mut *a0); let skip = (a0.len() != 0) as usize; &mut a0[skip..] }
fn ts_string(a0: &[String]) -> Result<&[String], Bad> { log_slice(a0); if fail() { return Err(Bad); } Ok(&a0[(a0.len() != 0) as usize..]) }
fn tsm_string(a0: &mut [String]) -> Result<&mut [String], Bad> { log_slice(a0); set_slice(&mut *a0); if fail() { return Err(Bad); } let skip = (a0.len() != 0) as usize; Ok(&mut a0[skip..]) }
fn s_r(a0: &[R], a1: u32, a2: &[R]) { log_slice(a0); log(&a1); log_slice(a2); }
fn sm_r(a0: &mut [R]) { log_slice(a0); set_slice(&mut *a0); }
fn ss_r(a0: &[R]) -> &[R] { log_slice(a0); &a0[(a0.len() != 0) as usize..] }
fn sms_r(a0: &mut [R]) -> &mut [R] { log_slice(a0); set_slice(&mut *a0); let skip = (a0.len() != 0) as usize; &mut a0[skip..] }
fn ts_r(a0: &[R]) -> Result<&[R], Bad> { log_slice(a0); if fail() { return Err(Bad); } Ok(&a0[(a0.len() != 0) as usize..]) }
fn tsm_r(a0: &mut [R]) -> Result<&mut [R], Bad> { log_slice(a0); set_slice(&mut *a0); if fail() { return Err(Bad); } let skip = (a0.len() != 0) as usize; Ok(&mut a0[skip..]) }
fn s_uobj(a0: &[UniquePtr<C>], a1: u32, a2: &[UniquePtr<C>]) { log_slice(a0); log(&a1); log_slice(a2); }
fn sm_uobj(a0: &mut [UniquePtr<C>]) { log_slice(a0); set_slice(&mut *a0); }
fn ss_uobj(a0: &[UniquePtr<C>]) -> &[UniquePtr<C>] { log_slice(a0); &a0[(a0.len() != 0) as usize..] }
fn sms_uobj(a0: &mut [UniquePtr<C>]) -> &mut [UniquePtr<C>] { log_slice(a0); set_slice(&mut *a0); let skip = (a0.len() != 0) as usize; &mut a0[skip..] }
fn ts_uobj(a0: &[UniquePtr<C>]) -> Result<&[UniquePtr<C>], Bad> { log_slice(a0); if fail() { return Err(Bad); } Ok(&a0[(a0.len() != 0) as usize..]) }
fn tsm_uobj(a0: &mut [UniquePtr<C>]) -> Result<&mut [UniquePtr<C>], Bad> { log_slice(a0); set_slice(&mut *a0); if fail() { return Err(Bad); } let skip = (a0.len() != 0) as usize; Ok(&mut a0[skip..]) }
fn s_en(a0: &[En], a1: u32, a2: &[En]) { log_slice(a0); log(&a1); log_slice(a2); }
fn sm_en(a0: &mut [En]) { log_slice(a0); set_slice(&mut *a0); }
fn ss_en(a0: &[En]) -> &[En] { log_slice(a0); &a0[(a0.len() != 0) as usize..] }
fn sms_en(a0: &mut [En]) -> &mut [En] { log_slice(a0); set_slice(&mut *a0); let skip = (a0.len() != 0) as usize; &mut a0[skip..] }
fn ts_en(a0: &[En]) -> Result<&[En], Bad> { log_slice(a0); if fail() { return Err(Bad); } Ok(&a0[(a0.len() != 0) as usize..]) }
fn tsm_en(a0: &mut [En]) -> Result<&mut [En], Bad> { log_slice(a0); set_slice(&mut *a0); if fail() { return Err(Bad); } let skip = (a0.len() != 0) as usize; Ok(&mut a0[skip..]) }
fn s_t3(a0: &[T3], a1: u32, a2: &[T3]) { log_slice(a0); log(&a1); log_slice(a2); }
fn sm_t3(a0: &mut [T3]) { log_slice(a0); set_slice(&mut *a0); }
fn ss_t3(a0: &[T3]) -> &[T3] { log_slice(a0); &a0[(a0.len() != 0) as usize..] }
fn sms_t3(a0: &mut [T3]) -> &mut [T3] { log_slice(a0); set_slice(&mut *a0); let skip = (a0.len() != 0) as usize; &mut a0[skip..] }
fn ts_t3(a0: &[T3]) -> Result<&[T3], Bad> { log_slice(a0); if fail() { return Err(Bad); } Ok(&a0[(a0.len() != 0) as usize..]) }
fn tsm_t3(a0: &mut [T3]) -> Result<&mut [T3], Bad> { log_slice(a0); set_slice(&mut *a0); if fail() { return Err(Bad); } let skip = (a0.len() != 0) as usize; Ok(&mut a0[skip..]) }
unsafe fn p_u8(a0: *const u8, a1: *mut u8) -> *const u8 { loga(a0 as usize); loga(a1 as usize); a0 }
unsafe fn pm_u8(a0: *mut u8, a1: *const u8) -> *mut u8 { loga(a0 as usize); loga(a1 as usize); a0 }
unsafe fn tp_u8(a0: *const u8) -> Result<*const u8, Bad> { loga(a0 as usize); if fail() { return Err(Bad); } Ok(a0) }
unsafe fn tpm_u8(a0: *mut u8) -> Result<*mut u8, Bad> { loga(a0 as usize); if fail() { return Err(Bad); } Ok(a0) }
unsafe fn p_p2(a0: *const P2, a1: *mut P2) -> *const P2 { loga(a0 as usize); loga(a1 as usize); a0 }
unsafe fn pm_p2(a0: *mut P2, a1: *const P2) -> *mut P2 { loga(a0 as usize); loga(a1 as usize); a0 }
unsafe fn tp_p2(a0: *const P2) -> Result<*const P2, Bad> { loga(a0 as usize); if fail() { return Err(Bad); } Ok(a0) }
unsafe fn tpm_p2(a0: *mut P2) -> Result<*mut P2, Bad> { loga(a0 as usize); if fail() { return Err(Bad); } Ok(a0) }
unsafe fn p_n(a0: *const N, a1: *mut N) -> *const N { loga(a0 as usize); loga(a1 as usize); a0 }
unsafe fn pm_n(a0: *mut N, a1: *const N) -> *mut N { loga(a0 as usize); loga(a1 as usize); a0 }
unsafe fn tp_n(a0: *const N) -> Result<*const N, Bad> { loga(a0 as usize); if fail() { return Err(Bad); } Ok(a0) }
unsafe fn tpm_n(a0: *mut N) -> Result<*mut N, Bad> { loga(a0 as usize); if fail() { return Err(Bad); } Ok(a0) }
unsafe fn p_c(a0: *const C, a1: *mut C) -> *const C { loga(a0 as usize); loga(a1 as usize); a0 }
unsafe fn pm_c(a0: *mut C, a1: *const C) -> *mut C { loga(a0 as usize); loga(a1 as usize); a0 }
unsafe fn tp_c(a0: *const C) -> Result<*const C, Bad> { loga(a0 as usize); if fail() { return Err(Bad); } Ok(a0) }
unsafe fn tpm_c(a0: *mut C) -> Result<*mut C, Bad> { loga(a0 as usize); if fail() { return Err(Bad); } Ok(a0) }
unsafe fn p_r(a0: *const R, a1: *mut R) -> *const R { loga(a0 as usize); loga(a1 as usize); a0 }
unsafe fn pm_r(a0: *mut R, a1: *const R) -> *mut R { loga(a0 as usize); loga(a1 as usize); a0 }
unsafe fn tp_r(a0: *const R) -> Result<*const R, Bad> { loga(a0 as usize); if fail() { return Err(Bad); } Ok(a0) }
unsafe fn tpm_r(a0: *mut R) -> Result<*mut R, Bad> { loga(a0 as usize); if fail() { return Err(Bad); } Ok(a0) }
unsafe fn p_string(a0: *const String, a1: *mut String) -> *const String { loga(a0 as usize); loga(a1 as usize); a0 }
unsafe fn pm_string(a0: *mut String, a1: *const String) -> *mut String { loga(a0 as usize); loga(a1 as usize); a0 }
unsafe fn tp_string(a0: *const String) -> Result<*const String, Bad> { loga(a0 as usize); if fail() { return Err(Bad); } Ok(a0) }
unsafe fn tpm_string(a0: *mut String) -> Result<*mut String, Bad> { loga(a0 as usize); if fail() { return Err(Bad); } Ok(a0) }
unsafe fn p_vu8(a0: *const Vec<u8>, a1: *mut Vec<u8>) -> *const Vec<u8> { loga(a0 as usize); loga(a1 as usize); a0 }
unsafe fn pm_vu8(a0: *mut Vec<u8>, a1: *const Vec<u8>) -> *mut Vec<u8> { loga(a0 as usize); loga(a1 as usize); a0 }
unsafe fn tp_vu8(a0: *const Vec<u8>) -> Result<*const Vec<u8>, Bad> { loga(a0 as usize); if fail() { return Err(Bad); } Ok(a0) }
unsafe fn tpm_vu8(a0: *mut Vec<u8>) -> Result<*mut Vec<u8>, Bad> { loga(a0 as usize); if fail() { return Err(Bad); } Ok(a0) }
fn st(a0: &str, a1: bool, a2: &str) { log_str(a0); log(&a1); log_str(a2); }
fn sst(a0: &str) -> &str { log_str(a0); &a0[(a0.len() != 0) as usize..] }
fn tst(a0: &str) -> Result<&str, Bad> { log_str(a0); if fail() { return Err(Bad); } Ok(&a0[(a0.len() != 0) as usize..]) }
fn u() {  }
fn tu() -> Result<(), Bad> { if fail() { return Err(Bad); } Ok(()) }
fn mix0(a0: u8, a1: String, a2: f32, a3: P2, a4: UniquePtr<C>, a5: u64, a6: Vec<String>, a7: f64, a8: En, a9: N, a10: i16, a11: Q3) -> u8 { log(&a0); log(&a1); log(&a2); log(&a3); log(&a4); log(&a5); log(&a6); log(&a7); log(&a8); log(&a9); log(&a10); log(&a11); ret() }
fn tmix0(a0: u8, a1: String, a2: f32, a3: P2, a4: UniquePtr<C>, a5: u64, a6: Vec<String>, a7: f64, a8: En, a9: N, a10: i16, a11: Q3) -> Result<Q3, Bad> { log(&a0); log(&a1); log(&a2); log(&a3); log(&a4); log(&a5); log(&a6); log(&a7); log(&a8); log(&a9); log(&a10); log(&a11); if fail() { return Err(Bad); } Ok(ret()) }
fn mix1(a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64, a8: f64, a9: f64) -> f64 { log(&a0); log(&a1); log(&a2); log(&a3); log(&a4); log(&a5); log(&a6); log(&a7); log(&a8); log(&a9); ret() }
fn tmix1(a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64, a8: f64, a9: f64) -> Result<f64, Bad> { log(&a0); log(&a1); log(&a2); log(&a3); log(&a4); log(&a5); log(&a6); log(&a7); log(&a8); log(&a9); if fail() { return Err(Bad); } Ok(ret()) }
fn mix2(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64) -> u64 { log(&a0); log(&a1); log(&a2); log(&a3); log(&a4); log(&a5); log(&a6); log(&a7); log(&a8); ret() }
fn tmix2(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64) -> Result<u64, Bad> { log(&a0); log(&a1); log(&a2); log(&a3); log(&a4); log(&a5); log(&a6); log(&a7); log(&a8); if fail() { return Err(Bad); } Ok(ret()) }
fn mix3(a0: bool, a1: u8, a2: bool, a3: i8, a4: c_char, a5: u16, a6: i16, a7: bool) -> bool { log(&a0); log(&a1); log(&a2); log(&a3); log(&a4); log(&a5); log(&a6); log(&a7); ret() }
fn tmix3(a0: bool, a1: u8, a2: bool, a3: i8, a4: c_char, a5: u16, a6: i16, a7: bool) -> Result<bool, Bad> { log(&a0); log(&a1); log(&a2); log(&a3); log(&a4); log(&a5); log(&a6); log(&a7); if fail() { return Err(Bad); } Ok(ret()) }
fn mix4(a0: F2, a1: FI, a2: Q2, a3: D4, a4: P1, a5: f32, a6: Q2, a7: Q2, a8: u8) -> F2 { log(&a0); log(&a1); log(&a2); log(&a3); log(&a4); log(&a5); log(&a6); log(&a7); log(&a8); ret() }
fn tmix4(a0: F2, a1: FI, a2: Q2, a3: D4, a4: P1, a5: f32, a6: Q2, a7: Q2, a8: u8) -> Result<u8, Bad> { log(&a0); log(&a1); log(&a2); log(&a3); log(&a4); log(&a5); log(&a6); log(&a7); log(&a8); if fail() { return Err(Bad); } Ok(ret()) }
fn mix5(a0: N, a1: N, a2: String, a3: String, a4: Box<R>, a5: Box<R>, a6: SharedPtr<C>, a7: WeakPtr<C>) -> N { log(&a0); log(&a1); log(&a2); log(&a3); log(&a4); log(&a5); log(&a6); log(&a7); ret() }
fn tmix5(a0: N, a1: N, a2: String, a3: String, a4: Box<R>, a5: Box<R>, a6: SharedPtr<C>, a7: WeakPtr<C>) -> Result<WeakPtr<C>, Bad> { log(&a0); log(&a1); log(&a2); log(&a3); log(&a4); log(&a5); log(&a6); log(&a7); if fail() { return Err(Bad); } Ok(ret()) }
fn mix6(a0: T1, a1: T3, a2: Tx, a3: T1, a4: u32, a5: T3) -> T1 { log(&a0); log(&a1); log(&a2); log(&a3); log(&a4); log(&a5); ret() }
fn tmix6(a0: T1, a1: T3, a2: Tx, a3: T1, a4: u32, a5: T3) -> Result<T3, Bad> { log(&a0); log(&a1); log(&a2); log(&a3); log(&a4); log(&a5); if fail() { return Err(Bad); } Ok(ret()) }
fn mixr(a0: &N, a1: N, a2: &mut String, a3: &str, a4: &[u8], a5: Pin<&mut C>, a6: UniquePtr<C>) -> Vec<N> { logr(a0); log(&a1); logr(&*a2); log_str(a3); log_slice(a4); logr(&*a5); log(&a6); set(&mut *a2); let mut a5 = a5; set_pin(a5.as_mut()); ret() }
fn tmixr(a0: &mut N, a1: &str, a2: String, a3: &String, a4: &mut [P2]) -> Result<F2, Bad> { logr(&*a0); log_str(a1); log(&a2); logr(a3); log_slice(a4); set(&mut *a0); set_slice(&mut *a4); if fail() { return Err(Bad); } Ok(ret()) }
impl P2 { fn q0_p2(&self, a0: u32) -> u32 { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); ret() } }
impl P2 { fn q1_p2(&self, a0: String, a1: N) -> N { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); log(&a1); ret() } }
impl P2 { fn q2_p2(&self, a0: &str, a1: &N) { loga(self as *const _ as *const u8 as usize); log(self); log_str(a0); logr(a1); } }
impl P2 { fn q3_p2(&self, a0: f64, a1: F2) -> Result<F2, Bad> { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) } }
impl P2 { fn q4_p2(&self, a0: Box<R>) -> Result<(), Bad> { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); if fail() { return Err(Bad); } Ok(()) } }
impl P2 { fn q5_p2(&self) -> Vec<String> { loga(self as *const _ as *const u8 as usize); log(self); ret() } }
impl P2 { fn q6_p2(&self, a0: Q2, a1: Q3) -> Q3 { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); log(&a1); ret() } }
impl P2 { fn q0_p2m(&mut self, a0: u32) -> u32 { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); set(self); ret() } }
impl P2 { fn q1_p2m(&mut self, a0: String, a1: N) -> N { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); log(&a1); set(self); ret() } }
impl P2 { fn q2_p2m(&mut self, a0: &str, a1: &N) { loga(self as *const _ as *const u8 as usize); log(self); log_str(a0); logr(a1); set(self); } }
impl P2 { fn q3_p2m(&mut self, a0: f64, a1: F2) -> Result<F2, Bad> { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); log(&a1); set(self); if fail() { return Err(Bad); } Ok(ret()) } }
impl P2 { fn q4_p2m(&mut self, a0: Box<R>) -> Result<(), Bad> { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); set(self); if fail() { return Err(Bad); } Ok(()) } }
impl P2 { fn q5_p2m(&mut self) -> Vec<String> { loga(self as *const _ as *const u8 as usize); log(self); set(self); ret() } }
impl P2 { fn q6_p2m(&mut self, a0: Q2, a1: Q3) -> Q3 { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); log(&a1); set(self); ret() } }
impl N { fn q0_n(&self, a0: u32) -> u32 { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); ret() } }
impl N { fn q1_n(&self, a0: String, a1: N) -> N { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); log(&a1); ret() } }
impl N { fn q2_n(&self, a0: &str, a1: &N) { loga(self as *const _ as *const u8 as usize); log(self); log_str(a0); logr(a1); } }
impl N { fn q3_n(&self, a0: f64, a1: F2) -> Result<F2, Bad> { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) } }
impl N { fn q4_n(&self, a0: Box<R>) -> Result<(), Bad> { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); if fail() { return Err(Bad); } Ok(()) } }
impl N { fn q5_n(&self) -> Vec<String> { loga(self as *const _ as *const u8 as usize); log(self); ret() } }
impl N { fn q6_n(&self, a0: Q2, a1: Q3) -> Q3 { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); log(&a1); ret() } }
impl N { fn q0_nm(&mut self, a0: u32) -> u32 { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); set(self); ret() } }
impl N { fn q1_nm(&mut self, a0: String, a1: N) -> N { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); log(&a1); set(self); ret() } }
impl N { fn q2_nm(&mut self, a0: &str, a1: &N) { loga(self as *const _ as *const u8 as usize); log(self); log_str(a0); logr(a1); set(self); } }
impl N { fn q3_nm(&mut self, a0: f64, a1: F2) -> Result<F2, Bad> { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); log(&a1); set(self); if fail() { return Err(Bad); } Ok(ret()) } }
impl N { fn q4_nm(&mut self, a0: Box<R>) -> Result<(), Bad> { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); set(self); if fail() { return Err(Bad); } Ok(()) } }
impl N { fn q5_nm(&mut self) -> Vec<String> { loga(self as *const _ as *const u8 as usize); log(self); set(self); ret() } }
impl N { fn q6_nm(&mut self, a0: Q2, a1: Q3) -> Q3 { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); log(&a1); set(self); ret() } }
impl R { fn q0_r(&self, a0: u32) -> u32 { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); ret() } }
impl R { fn q1_r(&self, a0: String, a1: N) -> N { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); log(&a1); ret() } }
impl R { fn q2_r(&self, a0: &str, a1: &N) { loga(self as *const _ as *const u8 as usize); log(self); log_str(a0); logr(a1); } }
impl R { fn q3_r(&self, a0: f64, a1: F2) -> Result<F2, Bad> { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); log(&a1); if fail() { return Err(Bad); } Ok(ret()) } }
impl R { fn q4_r(&self, a0: Box<R>) -> Result<(), Bad> { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); if fail() { return Err(Bad); } Ok(()) } }
impl R { fn q5_r(&self) -> Vec<String> { loga(self as *const _ as *const u8 as usize); log(self); ret() } }
impl R { fn q6_r(&self, a0: Q2, a1: Q3) -> Q3 { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); log(&a1); ret() } }
impl R { fn q0_rm(&mut self, a0: u32) -> u32 { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); set(self); ret() } }
impl R { fn q1_rm(&mut self, a0: String, a1: N) -> N { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); log(&a1); set(self); ret() } }
impl R { fn q2_rm(&mut self, a0: &str, a1: &N) { loga(self as *const _ as *const u8 as usize); log(self); log_str(a0); logr(a1); set(self); } }
impl R { fn q3_rm(&mut self, a0: f64, a1: F2) -> Result<F2, Bad> { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); log(&a1); set(self); if fail() { return Err(Bad); } Ok(ret()) } }
impl R { fn q4_rm(&mut self, a0: Box<R>) -> Result<(), Bad> { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); set(self); if fail() { return Err(Bad); } Ok(()) } }
impl R { fn q5_rm(&mut self) -> Vec<String> { loga(self as *const _ as *const u8 as usize); log(self); set(self); ret() } }
impl R { fn q6_rm(&mut self, a0: Q2, a1: Q3) -> Q3 { loga(self as *const _ as *const u8 as usize); log(self); log(&a0); log(&a1); set(self); ret() } }
