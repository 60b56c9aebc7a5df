pub use cxx;
#[path = "../../common/sym.rs"]
mod sym;
use sym::*;
use core::pin::Pin;
use cxx::{CxxString, CxxVector, ExternType, SharedPtr, UniquePtr, WeakPtr};
use std::os::raw::c_char;
pub struct R { v: u64, s: String }
#[repr(C)]
pub struct T1 { a: u32, b: u8 }
unsafe impl ExternType for T1 { type Id = cxx::type_id!("T1"); type Kind = cxx::kind::Trivial; }
#[repr(C)]
pub struct T3 { a: u64, b: u64, c: u64 }
unsafe impl ExternType for T3 { type Id = cxx::type_id!("T3"); type Kind = cxx::kind::Trivial; }
/// A C++ class with its own copy constructor and destructor which declares itself relocatable.
#[repr(C)]
pub struct Tx { p: *mut u64 }
unsafe impl ExternType for Tx { type Id = cxx::type_id!("Tx"); type Kind = cxx::kind::Trivial; }
#[cxx::bridge]
pub mod ffi {
    struct P1 { a: u8 }
    struct P2 { a: u8, b: u64 }
    struct F2 { a: f32, b: f32 }
    struct FI { a: f32, b: u32 }
    struct Q2 { a: u64, b: u64 }
    struct Q3 { a: u64, b: u64, c: u64 }
    struct D4 { a: f32, b: f32, c: f32, d: f32 }
    struct N { s: String, x: u32, v: Vec<u8> }
    struct Ar { a: [u8; 5], b: [u16; 3] }
    struct Nest { p: P2, e: En, f: F2 }
    enum En { A, B = 7 }
    #[repr(i16)]
    enum Ei16 { A = -3, B = 300 }
    #[repr(u64)]
    enum Eu64 { A = 1, B = 0xffffffffffffffff }
    unsafe extern "C++" {
        include!("calls_methods.h");
        type C;
        type T1 = super::T1;
        type T3 = super::T3;
        type Tx = super::Tx;
        fn mk_c(v: u64) -> UniquePtr<C>;
        fn mk_sc(v: u64) -> SharedPtr<C>;
        fn mk_wc(v: u64) -> WeakPtr<C>;
        fn mk_su64(v: u64) -> SharedPtr<u64>;
        fn mk_cs(v: u64, k: usize) -> UniquePtr<CxxString>;
        fn mk_cv(v: u64, k: usize) -> UniquePtr<CxxVector<u32>>;
        fn mk_cvn(v: u64, k: usize) -> UniquePtr<CxxVector<N>>;
        fn c_get(c: &C) -> u64;
        fn c_set(c: Pin<&mut C>, v: u64);
        fn v_bool(a0: bool) -> bool;
        fn w_bool(a0: u8, a1: bool, a2: bool, a3: u64) -> bool;
        fn t_bool(a0: bool, a1: u16) -> Result<bool>;
        fn v_c_char(a0: c_char) -> c_char;
        fn w_c_char(a0: u8, a1: c_char, a2: c_char, a3: u64) -> c_char;
        fn t_c_char(a0: c_char, a1: u16) -> Result<c_char>;
        fn v_u8(a0: u8) -> u8;
        fn w_u8(a0: u8, a1: u8, a2: u8, a3: u64) -> u8;
        fn t_u8(a0: u8, a1: u16) -> Result<u8>;
        fn v_u16(a0: u16) -> u16;
        fn w_u16(a0: u8, a1: u16, a2: u16, a3: u64) -> u16;
        fn t_u16(a0: u16, a1: u16) -> Result<u16>;
        fn v_u32(a0: u32) -> u32;
        fn w_u32(a0: u8, a1: u32, a2: u32, a3: u64) -> u32;
        fn t_u32(a0: u32, a1: u16) -> Result<u32>;
        fn v_u64(a0: u64) -> u64;
        fn w_u64(a0: u8, a1: u64, a2: u64, a3: u64) -> u64;
        fn t_u64(a0: u64, a1: u16) -> Result<u64>;
        fn v_usize(a0: usize) -> usize;
        fn w_usize(a0: u8, a1: usize, a2: usize, a3: u64) -> usize;
        fn t_usize(a0: usize, a1: u16) -> Result<usize>;
        fn v_i8(a0: i8) -> i8;
        fn w_i8(a0: u8, a1: i8, a2: i8, a3: u64) -> i8;
        fn t_i8(a0: i8, a1: u16) -> Result<i8>;
        fn v_i16(a0: i16) -> i16;
        fn w_i16(a0: u8, a1: i16, a2: i16, a3: u64) -> i16;
        fn t_i16(a0: i16, a1: u16) -> Result<i16>;
        fn v_i32(a0: i32) -> i32;
        fn w_i32(a0: u8, a1: i32, a2: i32, a3: u64) -> i32;
        fn t_i32(a0: i32, a1: u16) -> Result<i32>;
        fn v_i64(a0: i64) -> i64;
        fn w_i64(a0: u8, a1: i64, a2: i64, a3: u64) -> i64;
        fn t_i64(a0: i64, a1: u16) -> Result<i64>;
        fn v_isize(a0: isize) -> isize;
        fn w_isize(a0: u8, a1: isize, a2: isize, a3: u64) -> isize;
        fn t_isize(a0: isize, a1: u16) -> Result<isize>;
        fn v_f32(a0: f32) -> f32;
        fn w_f32(a0: u8, a1: f32, a2: f32, a3: u64) -> f32;
        fn t_f32(a0: f32, a1: u16) -> Result<f32>;
        fn v_f64(a0: f64) -> f64;
        fn w_f64(a0: u8, a1: f64, a2: f64, a3: u64) -> f64;
        fn t_f64(a0: f64, a1: u16) -> Result<f64>;
        fn v_string(a0: String) -> String;
        fn w_string(a0: u8, a1: String, a2: String, a3: u64) -> String;
        fn t_string(a0: String, a1: u16) -> Result<String>;
        fn v_box(a0: Box<R>) -> Box<R>;
        fn w_box(a0: u8, a1: Box<R>, a2: Box<R>, a3: u64) -> Box<R>;
        fn t_box(a0: Box<R>, a1: u16) -> Result<Box<R>>;
        fn v_boxn(a0: Box<N>) -> Box<N>;
        fn w_boxn(a0: u8, a1: Box<N>, a2: Box<N>, a3: u64) -> Box<N>;
        fn t_boxn(a0: Box<N>, a1: u16) -> Result<Box<N>>;
        fn v_vu8(a0: Vec<u8>) -> Vec<u8>;
        fn w_vu8(a0: u8, a1: Vec<u8>, a2: Vec<u8>, a3: u64) -> Vec<u8>;
        fn t_vu8(a0: Vec<u8>, a1: u16) -> Result<Vec<u8>>;
        fn v_vbool(a0: Vec<bool>) -> Vec<bool>;
        fn w_vbool(a0: u8, a1: Vec<bool>, a2: Vec<bool>, a3: u64) -> Vec<bool>;
        fn t_vbool(a0: Vec<bool>, a1: u16) -> Result<Vec<bool>>;
        fn v_vf64(a0: Vec<f64>) -> Vec<f64>;
        fn w_vf64(a0: u8, a1: Vec<f64>, a2: Vec<f64>, a3: u64) -> Vec<f64>;
        fn t_vf64(a0: Vec<f64>, a1: u16) -> Result<Vec<f64>>;
        fn v_vstring(a0: Vec<String>) -> Vec<String>;
        fn w_vstring(a0: u8, a1: Vec<String>, a2: Vec<String>, a3: u64) -> Vec<String>;
        fn t_vstring(a0: Vec<String>, a1: u16) -> Result<Vec<String>>;
        fn v_vp2(a0: Vec<P2>) -> Vec<P2>;
        fn w_vp2(a0: u8, a1: Vec<P2>, a2: Vec<P2>, a3: u64) -> Vec<P2>;
        fn t_vp2(a0: Vec<P2>, a1: u16) -> Result<Vec<P2>>;
        fn v_vn(a0: Vec<N>) -> Vec<N>;
        fn w_vn(a0: u8, a1: Vec<N>, a2: Vec<N>, a3: u64) -> Vec<N>;
        fn t_vn(a0: Vec<N>, a1: u16) -> Result<Vec<N>>;
        fn v_vr(a0: Vec<R>) -> Vec<R>;
        fn w_vr(a0: u8, a1: Vec<R>, a2: Vec<R>, a3: u64) -> Vec<R>;
        fn t_vr(a0: Vec<R>, a1: u16) -> Result<Vec<R>>;
        fn v_uobj(a0: UniquePtr<C>) -> UniquePtr<C>;
        fn w_uobj(a0: u8, a1: UniquePtr<C>, a2: UniquePtr<C>, a3: u64) -> UniquePtr<C>;
        fn t_uobj(a0: UniquePtr<C>, a1: u16) -> Result<UniquePtr<C>>;
        fn v_ustr(a0: UniquePtr<CxxString>) -> UniquePtr<CxxString>;
        fn w_ustr(a0: u8, a1: UniquePtr<CxxString>, a2: UniquePtr<CxxString>, a3: u64) -> UniquePtr<CxxString>;
        fn t_ustr(a0: UniquePtr<CxxString>, a1: u16) -> Result<UniquePtr<CxxString>>;
        fn v_uvec(a0: UniquePtr<CxxVector<u32>>) -> UniquePtr<CxxVector<u32>>;
        fn w_uvec(a0: u8, a1: UniquePtr<CxxVector<u32>>, a2: UniquePtr<CxxVector<u32>>, a3: u64) -> UniquePtr<CxxVector<u32>>;
        fn t_uvec(a0: UniquePtr<CxxVector<u32>>, a1: u16) -> Result<UniquePtr<CxxVector<u32>>>;
        fn v_un(a0: UniquePtr<N>) -> UniquePtr<N>;
        fn w_un(a0: u8, a1: UniquePtr<N>, a2: UniquePtr<N>, a3: u64) -> UniquePtr<N>;
        fn t_un(a0: UniquePtr<N>, a1: u16) -> Result<UniquePtr<N>>;
        fn v_sobj(a0: SharedPtr<C>) -> SharedPtr<C>;
        fn w_sobj(a0: u8, a1: SharedPtr<C>, a2: SharedPtr<C>, a3: u64) -> SharedPtr<C>;
        fn t_sobj(a0: SharedPtr<C>, a1: u16) -> Result<SharedPtr<C>>;
        fn v_su64(a0: SharedPtr<u64>) -> SharedPtr<u64>;
        fn w_su64(a0: u8, a1: SharedPtr<u64>, a2: SharedPtr<u64>, a3: u64) -> SharedPtr<u64>;
        fn t_su64(a0: SharedPtr<u64>, a1: u16) -> Result<SharedPtr<u64>>;
        fn v_wobj(a0: WeakPtr<C>) -> WeakPtr<C>;
        fn w_wobj(a0: u8, a1: WeakPtr<C>, a2: WeakPtr<C>, a3: u64) -> WeakPtr<C>;
        fn t_wobj(a0: WeakPtr<C>, a1: u16) -> Result<WeakPtr<C>>;
        fn v_p1(a0: P1) -> P1;
        fn w_p1(a0: u8, a1: P1, a2: P1, a3: u64) -> P1;
        fn t_p1(a0: P1, a1: u16) -> Result<P1>;
        fn v_p2(a0: P2) -> P2;
        fn w_p2(a0: u8, a1: P2, a2: P2, a3: u64) -> P2;
        fn t_p2(a0: P2, a1: u16) -> Result<P2>;
        fn v_f2(a0: F2) -> F2;
        fn w_f2(a0: u8, a1: F2, a2: F2, a3: u64) -> F2;
        fn t_f2(a0: F2, a1: u16) -> Result<F2>;
        fn v_fi(a0: FI) -> FI;
        fn w_fi(a0: u8, a1: FI, a2: FI, a3: u64) -> FI;
        fn t_fi(a0: FI, a1: u16) -> Result<FI>;
        fn v_q2(a0: Q2) -> Q2;
        fn w_q2(a0: u8, a1: Q2, a2: Q2, a3: u64) -> Q2;
        fn t_q2(a0: Q2, a1: u16) -> Result<Q2>;
        fn v_q3(a0: Q3) -> Q3;
        fn w_q3(a0: u8, a1: Q3, a2: Q3, a3: u64) -> Q3;
        fn t_q3(a0: Q3, a1: u16) -> Result<Q3>;
        fn v_d4(a0: D4) -> D4;
        fn w_d4(a0: u8, a1: D4, a2: D4, a3: u64) -> D4;
        fn t_d4(a0: D4, a1: u16) -> Result<D4>;
        fn v_n(a0: N) -> N;
        fn w_n(a0: u8, a1: N, a2: N, a3: u64) -> N;
        fn t_n(a0: N, a1: u16) -> Result<N>;
        fn v_ar(a0: Ar) -> Ar;
        fn w_ar(a0: u8, a1: Ar, a2: Ar, a3: u64) -> Ar;
        fn t_ar(a0: Ar, a1: u16) -> Result<Ar>;
        fn v_nest(a0: Nest) -> Nest;
        fn w_nest(a0: u8, a1: Nest, a2: Nest, a3: u64) -> Nest;
        fn t_nest(a0: Nest, a1: u16) -> Result<Nest>;
        fn v_en(a0: En) -> En;
        fn w_en(a0: u8, a1: En, a2: En, a3: u64) -> En;
        fn t_en(a0: En, a1: u16) -> Result<En>;
        fn v_ei16(a0: Ei16) -> Ei16;
        fn w_ei16(a0: u8, a1: Ei16, a2: Ei16, a3: u64) -> Ei16;
        fn t_ei16(a0: Ei16, a1: u16) -> Result<Ei16>;
        fn v_eu64(a0: Eu64) -> Eu64;
        fn w_eu64(a0: u8, a1: Eu64, a2: Eu64, a3: u64) -> Eu64;
        fn t_eu64(a0: Eu64, a1: u16) -> Result<Eu64>;
        fn v_t1(a0: T1) -> T1;
        fn w_t1(a0: u8, a1: T1, a2: T1, a3: u64) -> T1;
        fn t_t1(a0: T1, a1: u16) -> Result<T1>;
        fn v_t3(a0: T3) -> T3;
        fn w_t3(a0: u8, a1: T3, a2: T3, a3: u64) -> T3;
        fn t_t3(a0: T3, a1: u16) -> Result<T3>;
        fn v_tx(a0: Tx) -> Tx;
        fn w_tx(a0: u8, a1: Tx, a2: Tx, a3: u64) -> Tx;
        fn t_tx(a0: Tx, a1: u16) -> Result<Tx>;
        fn v_arr5(a0: [u8; 5]) -> [u8; 5];
        fn w_arr5(a0: u8, a1: [u8; 5], a2: [u8; 5], a3: u64) -> [u8; 5];
        fn t_arr5(a0: [u8; 5], a1: u16) -> Result<[u8; 5]>;
        fn v_arrs(a0: [String; 2]) -> [String; 2];
        fn w_arrs(a0: u8, a1: [String; 2], a2: [String; 2], a3: u64) -> [String; 2];
        fn t_arrs(a0: [String; 2], a1: u16) -> Result<[String; 2]>;
        fn r_bool(a0: &bool, a1: &bool);
        fn m_bool(a0: &mut bool, a1: u16);
        fn rr_bool(a0: &bool) -> &bool;
        fn mm_bool(a0: &mut bool) -> &mut bool;
        fn tr_bool(a0: &bool) -> Result<&bool>;
        fn tm_bool(a0: &mut bool) -> Result<&mut bool>;
        fn r_c_char(a0: &c_char, a1: &c_char);
        fn m_c_char(a0: &mut c_char, a1: u16);
        fn rr_c_char(a0: &c_char) -> &c_char;
        fn mm_c_char(a0: &mut c_char) -> &mut c_char;
        fn tr_c_char(a0: &c_char) -> Result<&c_char>;
        fn tm_c_char(a0: &mut c_char) -> Result<&mut c_char>;
        fn r_u8(a0: &u8, a1: &u8);
        fn m_u8(a0: &mut u8, a1: u16);
        fn rr_u8(a0: &u8) -> &u8;
        fn mm_u8(a0: &mut u8) -> &mut u8;
        fn tr_u8(a0: &u8) -> Result<&u8>;
        fn tm_u8(a0: &mut u8) -> Result<&mut u8>;
        fn r_u16(a0: &u16, a1: &u16);
        fn m_u16(a0: &mut u16, a1: u16);
        fn rr_u16(a0: &u16) -> &u16;
        fn mm_u16(a0: &mut u16) -> &mut u16;
        fn tr_u16(a0: &u16) -> Result<&u16>;
        fn tm_u16(a0: &mut u16) -> Result<&mut u16>;
        fn r_u32(a0: &u32, a1: &u32);
        fn m_u32(a0: &mut u32, a1: u16);
        fn rr_u32(a0: &u32) -> &u32;
        fn mm_u32(a0: &mut u32) -> &mut u32;
        fn tr_u32(a0: &u32) -> Result<&u32>;
        fn tm_u32(a0: &mut u32) -> Result<&mut u32>;
        fn r_u64(a0: &u64, a1: &u64);
        fn m_u64(a0: &mut u64, a1: u16);
        fn rr_u64(a0: &u64) -> &u64;
        fn mm_u64(a0: &mut u64) -> &mut u64;
        fn tr_u64(a0: &u64) -> Result<&u64>;
        fn tm_u64(a0: &mut u64) -> Result<&mut u64>;
        fn r_usize(a0: &usize, a1: &usize);
        fn m_usize(a0: &mut usize, a1: u16);
        fn rr_usize(a0: &usize) -> &usize;
        fn mm_usize(a0: &mut usize) -> &mut usize;
        fn tr_usize(a0: &usize) -> Result<&usize>;
        fn tm_usize(a0: &mut usize) -> Result<&mut usize>;
        fn r_i8(a0: &i8, a1: &i8);
        fn m_i8(a0: &mut i8, a1: u16);
        fn rr_i8(a0: &i8) -> &i8;
        fn mm_i8(a0: &mut i8) -> &mut i8;
        fn tr_i8(a0: &i8) -> Result<&i8>;
        fn tm_i8(a0: &mut i8) -> Result<&mut i8>;
        fn r_i16(a0: &i16, a1: &i16);
        fn m_i16(a0: &mut i16, a1: u16);
        fn rr_i16(a0: &i16) -> &i16;
        fn mm_i16(a0: &mut i16) -> &mut i16;
        fn tr_i16(a0: &i16) -> Result<&i16>;
        fn tm_i16(a0: &mut i16) -> Result<&mut i16>;
        fn r_i32(a0: &i32, a1: &i32);
        fn m_i32(a0: &mut i32, a1: u16);
        fn rr_i32(a0: &i32) -> &i32;
        fn mm_i32(a0: &mut i32) -> &mut i32;
        fn tr_i32(a0: &i32) -> Result<&i32>;
        fn tm_i32(a0: &mut i32) -> Result<&mut i32>;
        fn r_i64(a0: &i64, a1: &i64);
        fn m_i64(a0: &mut i64, a1: u16);
        fn rr_i64(a0: &i64) -> &i64;
        fn mm_i64(a0: &mut i64) -> &mut i64;
        fn tr_i64(a0: &i64) -> Result<&i64>;
        fn tm_i64(a0: &mut i64) -> Result<&mut i64>;
        fn r_isize(a0: &isize, a1: &isize);
        fn m_isize(a0: &mut isize, a1: u16);
        fn rr_isize(a0: &isize) -> &isize;
        fn mm_isize(a0: &mut isize) -> &mut isize;
        fn tr_isize(a0: &isize) -> Result<&isize>;
        fn tm_isize(a0: &mut isize) -> Result<&mut isize>;
        fn r_f32(a0: &f32, a1: &f32);
        fn m_f32(a0: &mut f32, a1: u16);
        fn rr_f32(a0: &f32) -> &f32;
        fn mm_f32(a0: &mut f32) -> &mut f32;
        fn tr_f32(a0: &f32) -> Result<&f32>;
        fn tm_f32(a0: &mut f32) -> Result<&mut f32>;
        fn r_f64(a0: &f64, a1: &f64);
        fn m_f64(a0: &mut f64, a1: u16);
        fn rr_f64(a0: &f64) -> &f64;
        fn mm_f64(a0: &mut f64) -> &mut f64;
        fn tr_f64(a0: &f64) -> Result<&f64>;
        fn tm_f64(a0: &mut f64) -> Result<&mut f64>;
        fn r_string(a0: &String, a1: &String);
        fn m_string(a0: &mut String, a1: u16);
        fn rr_string(a0: &String) -> &String;
        fn mm_string(a0: &mut String) -> &mut String;
        fn tr_string(a0: &String) -> Result<&String>;
        fn tm_string(a0: &mut String) -> Result<&mut String>;
        fn r_box(a0: &Box<R>, a1: &Box<R>);
        fn m_box(a0: &mut Box<R>, a1: u16);
        fn rr_box(a0: &Box<R>) -> &Box<R>;
        fn mm_box(a0: &mut Box<R>) -> &mut Box<R>;
        fn tr_box(a0: &Box<R>) -> Result<&Box<R>>;
        fn tm_box(a0: &mut Box<R>) -> Result<&mut Box<R>>;
        fn r_boxn(a0: &Box<N>, a1: &Box<N>);
        fn m_boxn(a0: &mut Box<N>, a1: u16);
        fn rr_boxn(a0: &Box<N>) -> &Box<N>;
        fn mm_boxn(a0: &mut Box<N>) -> &mut Box<N>;
        fn tr_boxn(a0: &Box<N>) -> Result<&Box<N>>;
        fn tm_boxn(a0: &mut Box<N>) -> Result<&mut Box<N>>;
        fn r_vu8(a0: &Vec<u8>, a1: &Vec<u8>);
        fn m_vu8(a0: &mut Vec<u8>, a1: u16);
        fn rr_vu8(a0: &Vec<u8>) -> &Vec<u8>;
        fn mm_vu8(a0: &mut Vec<u8>) -> &mut Vec<u8>;
        fn tr_vu8(a0: &Vec<u8>) -> Result<&Vec<u8>>;
        fn tm_vu8(a0: &mut Vec<u8>) -> Result<&mut Vec<u8>>;
        fn r_vbool(a0: &Vec<bool>, a1: &Vec<bool>);
        fn m_vbool(a0: &mut Vec<bool>, a1: u16);
        fn rr_vbool(a0: &Vec<bool>) -> &Vec<bool>;
        fn mm_vbool(a0: &mut Vec<bool>) -> &mut Vec<bool>;
        fn tr_vbool(a0: &Vec<bool>) -> Result<&Vec<bool>>;
        fn tm_vbool(a0: &mut Vec<bool>) -> Result<&mut Vec<bool>>;
        fn r_vf64(a0: &Vec<f64>, a1: &Vec<f64>);
        fn m_vf64(a0: &mut Vec<f64>, a1: u16);
        fn rr_vf64(a0: &Vec<f64>) -> &Vec<f64>;
        fn mm_vf64(a0: &mut Vec<f64>) -> &mut Vec<f64>;
        fn tr_vf64(a0: &Vec<f64>) -> Result<&Vec<f64>>;
        fn tm_vf64(a0: &mut Vec<f64>) -> Result<&mut Vec<f64>>;
        fn r_vstring(a0: &Vec<String>, a1: &Vec<String>);
        fn m_vstring(a0: &mut Vec<String>, a1: u16);
        fn rr_vstring(a0: &Vec<String>) -> &Vec<String>;
        fn mm_vstring(a0: &mut Vec<String>) -> &mut Vec<String>;
        fn tr_vstring(a0: &Vec<String>) -> Result<&Vec<String>>;
        fn tm_vstring(a0: &mut Vec<String>) -> Result<&mut Vec<String>>;
        fn r_vp2(a0: &Vec<P2>, a1: &Vec<P2>);
        fn m_vp2(a0: &mut Vec<P2>, a1: u16);
        fn rr_vp2(a0: &Vec<P2>) -> &Vec<P2>;
        fn mm_vp2(a0: &mut Vec<P2>) -> &mut Vec<P2>;
        fn tr_vp2(a0: &Vec<P2>) -> Result<&Vec<P2>>;
        fn tm_vp2(a0: &mut Vec<P2>) -> Result<&mut Vec<P2>>;
        fn r_vn(a0: &Vec<N>, a1: &Vec<N>);
        fn m_vn(a0: &mut Vec<N>, a1: u16);
        fn rr_vn(a0: &Vec<N>) -> &Vec<N>;
        fn mm_vn(a0: &mut Vec<N>) -> &mut Vec<N>;
        fn tr_vn(a0: &Vec<N>) -> Result<&Vec<N>>;
        fn tm_vn(a0: &mut Vec<N>) -> Result<&mut Vec<N>>;
        fn r_vr(a0: &Vec<R>, a1: &Vec<R>);
        fn m_vr(a0: &mut Vec<R>, a1: u16);
        fn rr_vr(a0: &Vec<R>) -> &Vec<R>;
        fn mm_vr(a0: &mut Vec<R>) -> &mut Vec<R>;
        fn tr_vr(a0: &Vec<R>) -> Result<&Vec<R>>;
        fn tm_vr(a0: &mut Vec<R>) -> Result<&mut Vec<R>>;
        fn r_uobj(a0: &UniquePtr<C>, a1: &UniquePtr<C>);
        fn m_uobj(a0: &mut UniquePtr<C>, a1: u16);
        fn rr_uobj(a0: &UniquePtr<C>) -> &UniquePtr<C>;
        fn mm_uobj(a0: &mut UniquePtr<C>) -> &mut UniquePtr<C>;
        fn tr_uobj(a0: &UniquePtr<C>) -> Result<&UniquePtr<C>>;
        fn tm_uobj(a0: &mut UniquePtr<C>) -> Result<&mut UniquePtr<C>>;
        fn r_ustr(a0: &UniquePtr<CxxString>, a1: &UniquePtr<CxxString>);
        fn m_ustr(a0: &mut UniquePtr<CxxString>, a1: u16);
        fn rr_ustr(a0: &UniquePtr<CxxString>) -> &UniquePtr<CxxString>;
        fn mm_ustr(a0: &mut UniquePtr<CxxString>) -> &mut UniquePtr<CxxString>;
        fn tr_ustr(a0: &UniquePtr<CxxString>) -> Result<&UniquePtr<CxxString>>;
        fn tm_ustr(a0: &mut UniquePtr<CxxString>) -> Result<&mut UniquePtr<CxxString>>;
        fn r_uvec(a0: &UniquePtr<CxxVector<u32>>, a1: &UniquePtr<CxxVector<u32>>);
        fn m_uvec(a0: &mut UniquePtr<CxxVector<u32>>, a1: u16);
        fn rr_uvec(a0: &UniquePtr<CxxVector<u32>>) -> &UniquePtr<CxxVector<u32>>;
        fn mm_uvec(a0: &mut UniquePtr<CxxVector<u32>>) -> &mut UniquePtr<CxxVector<u32>>;
        fn tr_uvec(a0: &UniquePtr<CxxVector<u32>>) -> Result<&UniquePtr<CxxVector<u32>>>;
        fn tm_uvec(a0: &mut UniquePtr<CxxVector<u32>>) -> Result<&mut UniquePtr<CxxVector<u32>>>;
        fn r_un(a0: &UniquePtr<N>, a1: &UniquePtr<N>);
        fn m_un(a0: &mut UniquePtr<N>, a1: u16);
        fn rr_un(a0: &UniquePtr<N>) -> &UniquePtr<N>;
        fn mm_un(a0: &mut UniquePtr<N>) -> &mut UniquePtr<N>;
        fn tr_un(a0: &UniquePtr<N>) -> Result<&UniquePtr<N>>;
        fn tm_un(a0: &mut UniquePtr<N>) -> Result<&mut UniquePtr<N>>;
        fn r_sobj(a0: &SharedPtr<C>, a1: &SharedPtr<C>);
        fn m_sobj(a0: &mut SharedPtr<C>, a1: u16);
        fn rr_sobj(a0: &SharedPtr<C>) -> &SharedPtr<C>;
        fn mm_sobj(a0: &mut SharedPtr<C>) -> &mut SharedPtr<C>;
        fn tr_sobj(a0: &SharedPtr<C>) -> Result<&SharedPtr<C>>;
        fn tm_sobj(a0: &mut SharedPtr<C>) -> Result<&mut SharedPtr<C>>;
        fn r_su64(a0: &SharedPtr<u64>, a1: &SharedPtr<u64>);
        fn m_su64(a0: &mut SharedPtr<u64>, a1: u16);
        fn rr_su64(a0: &SharedPtr<u64>) -> &SharedPtr<u64>;
        fn mm_su64(a0: &mut SharedPtr<u64>) -> &mut SharedPtr<u64>;
        fn tr_su64(a0: &SharedPtr<u64>) -> Result<&SharedPtr<u64>>;
        fn tm_su64(a0: &mut SharedPtr<u64>) -> Result<&mut SharedPtr<u64>>;
        fn r_wobj(a0: &WeakPtr<C>, a1: &WeakPtr<C>);
        fn m_wobj(a0: &mut WeakPtr<C>, a1: u16);
        fn rr_wobj(a0: &WeakPtr<C>) -> &WeakPtr<C>;
        fn mm_wobj(a0: &mut WeakPtr<C>) -> &mut WeakPtr<C>;
        fn tr_wobj(a0: &WeakPtr<C>) -> Result<&WeakPtr<C>>;
        fn tm_wobj(a0: &mut WeakPtr<C>) -> Result<&mut WeakPtr<C>>;
        fn r_p1(a0: &P1, a1: &P1);
        fn m_p1(a0: &mut P1, a1: u16);
        fn rr_p1(a0: &P1) -> &P1;
        fn mm_p1(a0: &mut P1) -> &mut P1;
        fn tr_p1(a0: &P1) -> Result<&P1>;
        fn tm_p1(a0: &mut P1) -> Result<&mut P1>;
        fn r_p2(a0: &P2, a1: &P2);
        fn m_p2(a0: &mut P2, a1: u16);
        fn rr_p2(a0: &P2) -> &P2;
        fn mm_p2(a0: &mut P2) -> &mut P2;
        fn tr_p2(a0: &P2) -> Result<&P2>;
        fn tm_p2(a0: &mut P2) -> Result<&mut P2>;
        fn r_f2(a0: &F2, a1: &F2);
        fn m_f2(a0: &mut F2, a1: u16);
        fn rr_f2(a0: &F2) -> &F2;
        fn mm_f2(a0: &mut F2) -> &mut F2;
        fn tr_f2(a0: &F2) -> Result<&F2>;
        fn tm_f2(a0: &mut F2) -> Result<&mut F2>;
        fn r_fi(a0: &FI, a1: &FI);
        fn m_fi(a0: &mut FI, a1: u16);
        fn rr_fi(a0: &FI) -> &FI;
        fn mm_fi(a0: &mut FI) -> &mut FI;
        fn tr_fi(a0: &FI) -> Result<&FI>;
        fn tm_fi(a0: &mut FI) -> Result<&mut FI>;
        fn r_q2(a0: &Q2, a1: &Q2);
        fn m_q2(a0: &mut Q2, a1: u16);
        fn rr_q2(a0: &Q2) -> &Q2;
        fn mm_q2(a0: &mut Q2) -> &mut Q2;
        fn tr_q2(a0: &Q2) -> Result<&Q2>;
        fn tm_q2(a0: &mut Q2) -> Result<&mut Q2>;
        fn r_q3(a0: &Q3, a1: &Q3);
        fn m_q3(a0: &mut Q3, a1: u16);
        fn rr_q3(a0: &Q3) -> &Q3;
        fn mm_q3(a0: &mut Q3) -> &mut Q3;
        fn tr_q3(a0: &Q3) -> Result<&Q3>;
        fn tm_q3(a0: &mut Q3) -> Result<&mut Q3>;
        fn r_d4(a0: &D4, a1: &D4);
        fn m_d4(a0: &mut D4, a1: u16);
        fn rr_d4(a0: &D4) -> &D4;
        fn mm_d4(a0: &mut D4) -> &mut D4;
        fn tr_d4(a0: &D4) -> Result<&D4>;
        fn tm_d4(a0: &mut D4) -> Result<&mut D4>;
        fn r_n(a0: &N, a1: &N);
        fn m_n(a0: &mut N, a1: u16);
        fn rr_n(a0: &N) -> &N;
        fn mm_n(a0: &mut N) -> &mut N;
        fn tr_n(a0: &N) -> Result<&N>;
        fn tm_n(a0: &mut N) -> Result<&mut N>;
        fn r_ar(a0: &Ar, a1: &Ar);
        fn m_ar(a0: &mut Ar, a1: u16);
        fn rr_ar(a0: &Ar) -> &Ar;
        fn mm_ar(a0: &mut Ar) -> &mut Ar;
        fn tr_ar(a0: &Ar) -> Result<&Ar>;
        fn tm_ar(a0: &mut Ar) -> Result<&mut Ar>;
        fn r_nest(a0: &Nest, a1: &Nest);
        fn m_nest(a0: &mut Nest, a1: u16);
        fn rr_nest(a0: &Nest) -> &Nest;
        fn mm_nest(a0: &mut Nest) -> &mut Nest;
        fn tr_nest(a0: &Nest) -> Result<&Nest>;
        fn tm_nest(a0: &mut Nest) -> Result<&mut Nest>;
        fn r_en(a0: &En, a1: &En);
        fn m_en(a0: &mut En, a1: u16);
        fn rr_en(a0: &En) -> &En;
        fn mm_en(a0: &mut En) -> &mut En;
        fn tr_en(a0: &En) -> Result<&En>;
        fn tm_en(a0: &mut En) -> Result<&mut En>;
        fn r_ei16(a0: &Ei16, a1: &Ei16);
        fn m_ei16(a0: &mut Ei16, a1: u16);
        fn rr_ei16(a0: &Ei16) -> &Ei16;
        fn mm_ei16(a0: &mut Ei16) -> &mut Ei16;
        fn tr_ei16(a0: &Ei16) -> Result<&Ei16>;
        fn tm_ei16(a0: &mut Ei16) -> Result<&mut Ei16>;
        fn r_eu64(a0: &Eu64, a1: &Eu64);
        fn m_eu64(a0: &mut Eu64, a1: u16);
        fn rr_eu64(a0: &Eu64) -> &Eu64;
        fn mm_eu64(a0: &mut Eu64) -> &mut Eu64;
        fn tr_eu64(a0: &Eu64) -> Result<&Eu64>;
        fn tm_eu64(a0: &mut Eu64) -> Result<&mut Eu64>;
        fn r_t1(a0: &T1, a1: &T1);
        fn m_t1(a0: &mut T1, a1: u16);
        fn rr_t1(a0: &T1) -> &T1;
        fn mm_t1(a0: &mut T1) -> &mut T1;
        fn tr_t1(a0: &T1) -> Result<&T1>;
        fn tm_t1(a0: &mut T1) -> Result<&mut T1>;
        fn r_t3(a0: &T3, a1: &T3);
        fn m_t3(a0: &mut T3, a1: u16);
        fn rr_t3(a0: &T3) -> &T3;
        fn mm_t3(a0: &mut T3) -> &mut T3;
        fn tr_t3(a0: &T3) -> Result<&T3>;
        fn tm_t3(a0: &mut T3) -> Result<&mut T3>;
        fn r_tx(a0: &Tx, a1: &Tx);
        fn m_tx(a0: &mut Tx, a1: u16);
        fn rr_tx(a0: &Tx) -> &Tx;
        fn mm_tx(a0: &mut Tx) -> &mut Tx;
        fn tr_tx(a0: &Tx) -> Result<&Tx>;
        fn tm_tx(a0: &mut Tx) -> Result<&mut Tx>;
        fn r_arr5(a0: &[u8; 5], a1: &[u8; 5]);
        fn m_arr5(a0: &mut [u8; 5], a1: u16);
        fn rr_arr5(a0: &[u8; 5]) -> &[u8; 5];
        fn mm_arr5(a0: &mut [u8; 5]) -> &mut [u8; 5];
        fn tr_arr5(a0: &[u8; 5]) -> Result<&[u8; 5]>;
        fn tm_arr5(a0: &mut [u8; 5]) -> Result<&mut [u8; 5]>;
        fn r_arrs(a0: &[String; 2], a1: &[String; 2]);
        fn m_arrs(a0: &mut [String; 2], a1: u16);
        fn rr_arrs(a0: &[String; 2]) -> &[String; 2];
        fn mm_arrs(a0: &mut [String; 2]) -> &mut [String; 2];
        fn tr_arrs(a0: &[String; 2]) -> Result<&[String; 2]>;
        fn tm_arrs(a0: &mut [String; 2]) -> Result<&mut [String; 2]>;
        fn r_r(a0: &R, a1: &R);
        fn m_r(a0: &mut R, a1: u16);
        fn rr_r(a0: &R) -> &R;
        fn mm_r(a0: &mut R) -> &mut R;
        fn tr_r(a0: &R) -> Result<&R>;
        fn tm_r(a0: &mut R) -> Result<&mut R>;
        fn r_c(a0: &C, a1: &C);
        fn m_c(a0: Pin<&mut C>, a1: u16);
        fn rr_c(a0: &C) -> &C;
        fn mm_c(a0: Pin<&mut C>) -> Pin<&mut C>;
        fn tr_c(a0: &C) -> Result<&C>;
        fn tm_c(a0: Pin<&mut C>) -> Result<Pin<&mut C>>;
        fn r_cxxstring(a0: &CxxString, a1: &CxxString);
        fn m_cxxstring(a0: Pin<&mut CxxString>, a1: u16);
        fn rr_cxxstring(a0: &CxxString) -> &CxxString;
        fn mm_cxxstring(a0: Pin<&mut CxxString>) -> Pin<&mut CxxString>;
        fn tr_cxxstring(a0: &CxxString) -> Result<&CxxString>;
        fn tm_cxxstring(a0: Pin<&mut CxxString>) -> Result<Pin<&mut CxxString>>;
        fn r_cxxvector(a0: &CxxVector<u32>, a1: &CxxVector<u32>);
        fn m_cxxvector(a0: Pin<&mut CxxVector<u32>>, a1: u16);
        fn rr_cxxvector(a0: &CxxVector<u32>) -> &CxxVector<u32>;
        fn mm_cxxvector(a0: Pin<&mut CxxVector<u32>>) -> Pin<&mut CxxVector<u32>>;
        fn tr_cxxvector(a0: &CxxVector<u32>) -> Result<&CxxVector<u32>>;
        fn tm_cxxvector(a0: Pin<&mut CxxVector<u32>>) -> Result<Pin<&mut CxxVector<u32>>>;
        fn r_cxxvectorn(a0: &CxxVector<N>, a1: &CxxVector<N>);
        fn m_cxxvectorn(a0: Pin<&mut CxxVector<N>>, a1: u16);
        fn rr_cxxvectorn(a0: &CxxVector<N>) -> &CxxVector<N>;
        fn mm_cxxvectorn(a0: Pin<&mut CxxVector<N>>) -> Pin<&mut CxxVector<N>>;
        fn tr_cxxvectorn(a0: &CxxVector<N>) -> Result<&CxxVector<N>>;
        fn tm_cxxvectorn(a0: Pin<&mut CxxVector<N>>) -> Result<Pin<&mut CxxVector<N>>>;
        fn s_u8(a0: &[u8], a1: u32, a2: &[u8]);
        fn sm_u8(a0: &mut [u8]);
        fn ss_u8(a0: &[u8]) -> &[u8];
        fn sms_u8(a0: &mut [u8]) -> &mut [u8];
        fn ts_u8(a0: &[u8]) -> Result<&[u8]>;
        fn tsm_u8(a0: &mut [u8]) -> Result<&mut [u8]>;
        fn s_f64(a0: &[f64], a1: u32, a2: &[f64]);
        fn sm_f64(a0: &mut [f64]);
        fn ss_f64(a0: &[f64]) -> &[f64];
        fn sms_f64(a0: &mut [f64]) -> &mut [f64];
        fn ts_f64(a0: &[f64]) -> Result<&[f64]>;
        fn tsm_f64(a0: &mut [f64]) -> Result<&mut [f64]>;
        fn s_p2(a0: &[P2], a1: u32, a2: &[P2]);
        fn sm_p2(a0: &mut [P2]);
        fn ss_p2(a0: &[P2]) -> &[P2];
        fn sms_p2(a0: &mut [P2]) -> &mut [P2];
        fn ts_p2(a0: &[P2]) -> Result<&[P2]>;
        fn tsm_p2(a0: &mut [P2]) -> Result<&mut [P2]>;
        fn s_n(a0: &[N], a1: u32, a2: &[N]);
        fn sm_n(a0: &mut [N]);
        fn ss_n(a0: &[N]) -> &[N];
        fn sms_n(a0: &mut [N]) -> &mut [N];
        fn ts_n(a0: &[N]) -> Result<&[N]>;
        fn tsm_n(a0: &mut [N]) -> Result<&mut [N]>;
        fn s_string(a0: &[String], a1: u32, a2: &[String]);
        fn sm_string(a0: &mut [String]);
        fn ss_string(a0: &[String]) -> &[String];
        fn sms_string(a0: &mut [String]) -> &mut [String];
        fn ts_string(a0: &[String]) -> Result<&[String]>;
        fn tsm_string(a0: &mut [String]) -> Result<&mut [String]>;
        fn s_r(a0: &[R], a1: u32, a2: &[R]);
        fn sm_r(a0: &mut [R]);
        fn ss_r(a0: &[R]) -> &[R];
        fn sms_r(a0: &mut [R]) -> &mut [R];
        fn ts_r(a0: &[R]) -> Result<&[R]>;
        fn tsm_r(a0: &mut [R]) -> Result<&mut [R]>;
        fn s_uobj(a0: &[UniquePtr<C>], a1: u32, a2: &[UniquePtr<C>]);
        fn sm_uobj(a0: &mut [UniquePtr<C>]);
        fn ss_uobj(a0: &[UniquePtr<C>]) -> &[UniquePtr<C>];
        fn sms_uobj(a0: &mut [UniquePtr<C>]) -> &mut [UniquePtr<C>];
        fn ts_uobj(a0: &[UniquePtr<C>]) -> Result<&[UniquePtr<C>]>;
        fn tsm_uobj(a0: &mut [UniquePtr<C>]) -> Result<&mut [UniquePtr<C>]>;
        fn s_en(a0: &[En], a1: u32, a2: &[En]);
        fn sm_en(a0: &mut [En]);
        fn ss_en(a0: &[En]) -> &[En];
        fn sms_en(a0: &mut [En]) -> &mut [En];
        fn ts_en(a0: &[En]) -> Result<&[En]>;
        fn tsm_en(a0: &mut [En]) -> Result<&mut [En]>;
        fn s_t3(a0: &[T3], a1: u32, a2: &[T3]);
        fn sm_t3(a0: &mut [T3]);
        fn ss_t3(a0: &[T3]) -> &[T3];
        fn sms_t3(a0: &mut [T3]) -> &mut [T3];
        fn ts_t3(a0: &[T3]) -> Result<&[T3]>;
        fn tsm_t3(a0: &mut [T3]) -> Result<&mut [T3]>;
        unsafe fn p_u8(a0: *const u8, a1: *mut u8) -> *const u8;
        unsafe fn pm_u8(a0: *mut u8, a1: *const u8) -> *mut u8;
        unsafe fn tp_u8(a0: *const u8) -> Result<*const u8>;
        unsafe fn tpm_u8(a0: *mut u8) -> Result<*mut u8>;
        unsafe fn p_p2(a0: *const P2, a1: *mut P2) -> *const P2;
        unsafe fn pm_p2(a0: *mut P2, a1: *const P2) -> *mut P2;
        unsafe fn tp_p2(a0: *const P2) -> Result<*const P2>;
        unsafe fn tpm_p2(a0: *mut P2) -> Result<*mut P2>;
        unsafe fn p_n(a0: *const N, a1: *mut N) -> *const N;
        unsafe fn pm_n(a0: *mut N, a1: *const N) -> *mut N;
        unsafe fn tp_n(a0: *const N) -> Result<*const N>;
        unsafe fn tpm_n(a0: *mut N) -> Result<*mut N>;
        unsafe fn p_c(a0: *const C, a1: *mut C) -> *const C;
        unsafe fn pm_c(a0: *mut C, a1: *const C) -> *mut C;
        unsafe fn tp_c(a0: *const C) -> Result<*const C>;
        unsafe fn tpm_c(a0: *mut C) -> Result<*mut C>;
        unsafe fn p_r(a0: *const R, a1: *mut R) -> *const R;
        unsafe fn pm_r(a0: *mut R, a1: *const R) -> *mut R;
        unsafe fn tp_r(a0: *const R) -> Result<*const R>;
        unsafe fn tpm_r(a0: *mut R) -> Result<*mut R>;
        unsafe fn p_string(a0: *const String, a1: *mut String) -> *const String;
        unsafe fn pm_string(a0: *mut String, a1: *const String) -> *mut String;
        unsafe fn tp_string(a0: *const String) -> Result<*const String>;
        unsafe fn tpm_string(a0: *mut String) -> Result<*mut String>;
        unsafe fn p_vu8(a0: *const Vec<u8>, a1: *mut Vec<u8>) -> *const Vec<u8>;
        unsafe fn pm_vu8(a0: *mut Vec<u8>, a1: *const Vec<u8>) -> *mut Vec<u8>;
        unsafe fn tp_vu8(a0: *const Vec<u8>) -> Result<*const Vec<u8>>;
        unsafe fn tpm_vu8(a0: *mut Vec<u8>) -> Result<*mut Vec<u8>>;
        fn st(a0: &str, a1: bool, a2: &str);
        fn sst(a0: &str) -> &str;
        fn tst(a0: &str) -> Result<&str>;
        fn u();
        fn tu() -> Result<()>;
        fn mix0(a0: u8, a1: String, a2: f32, a3: P2, a4: UniquePtr<C>, a5: u64, a6: Vec<String>, a7: f64, a8: En, a9: N, a10: i16, a11: Q3) -> u8;
        fn tmix0(a0: u8, a1: String, a2: f32, a3: P2, a4: UniquePtr<C>, a5: u64, a6: Vec<String>, a7: f64, a8: En, a9: N, a10: i16, a11: Q3) -> Result<Q3>;
        fn mix1(a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64, a8: f64, a9: f64) -> f64;
        fn tmix1(a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64, a8: f64, a9: f64) -> Result<f64>;
        fn mix2(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64) -> u64;
        fn tmix2(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64) -> Result<u64>;
        fn mix3(a0: bool, a1: u8, a2: bool, a3: i8, a4: c_char, a5: u16, a6: i16, a7: bool) -> bool;
        fn tmix3(a0: bool, a1: u8, a2: bool, a3: i8, a4: c_char, a5: u16, a6: i16, a7: bool) -> Result<bool>;
        fn mix4(a0: F2, a1: FI, a2: Q2, a3: D4, a4: P1, a5: f32, a6: Q2, a7: Q2, a8: u8) -> F2;
        fn tmix4(a0: F2, a1: FI, a2: Q2, a3: D4, a4: P1, a5: f32, a6: Q2, a7: Q2, a8: u8) -> Result<u8>;
        fn mix5(a0: N, a1: N, a2: String, a3: String, a4: Box<R>, a5: Box<R>, a6: SharedPtr<C>, a7: WeakPtr<C>) -> N;
        fn tmix5(a0: N, a1: N, a2: String, a3: String, a4: Box<R>, a5: Box<R>, a6: SharedPtr<C>, a7: WeakPtr<C>) -> Result<WeakPtr<C>>;
        fn mix6(a0: T1, a1: T3, a2: Tx, a3: T1, a4: u32, a5: T3) -> T1;
        fn tmix6(a0: T1, a1: T3, a2: Tx, a3: T1, a4: u32, a5: T3) -> Result<T3>;
        fn mixr(a0: &N, a1: N, a2: &mut String, a3: &str, a4: &[u8], a5: Pin<&mut C>, a6: UniquePtr<C>) -> Vec<N>;
        fn tmixr(a0: &mut N, a1: &str, a2: String, a3: &String, a4: &mut [P2]) -> Result<F2>;
        fn q0_c(self: &C, a0: u32) -> u32;
        #[cxx_name = "Q1c"] fn q1_c(self: &C, a0: String, a1: N) -> N;
        fn q2_c(self: &C, a0: &str, a1: &N);
        #[cxx_name = "Q3c"] fn q3_c(self: &C, a0: f64, a1: F2) -> Result<F2>;
        fn q4_c(self: &C, a0: Box<R>) -> Result<()>;
        #[cxx_name = "Q5c"] fn q5_c(self: &C) -> Vec<String>;
        fn q6_c(self: &C, a0: Q2, a1: Q3) -> Q3;
        fn q0_cm(self: Pin<&mut C>, a0: u32) -> u32;
        #[cxx_name = "Q1cm"] fn q1_cm(self: Pin<&mut C>, a0: String, a1: N) -> N;
        fn q2_cm(self: Pin<&mut C>, a0: &str, a1: &N);
        #[cxx_name = "Q3cm"] fn q3_cm(self: Pin<&mut C>, a0: f64, a1: F2) -> Result<F2>;
        fn q4_cm(self: Pin<&mut C>, a0: Box<R>) -> Result<()>;
        #[cxx_name = "Q5cm"] fn q5_cm(self: Pin<&mut C>) -> Vec<String>;
        fn q6_cm(self: Pin<&mut C>, a0: Q2, a1: Q3) -> Q3;
        fn q0_p2(self: &P2, a0: u32) -> u32;
        #[cxx_name = "Q1p2"] fn q1_p2(self: &P2, a0: String, a1: N) -> N;
        fn q2_p2(self: &P2, a0: &str, a1: &N);
        #[cxx_name = "Q3p2"] fn q3_p2(self: &P2, a0: f64, a1: F2) -> Result<F2>;
        fn q4_p2(self: &P2, a0: Box<R>) -> Result<()>;
        #[cxx_name = "Q5p2"] fn q5_p2(self: &P2) -> Vec<String>;
        fn q6_p2(self: &P2, a0: Q2, a1: Q3) -> Q3;
        fn q0_p2m(self: &mut P2, a0: u32) -> u32;
        #[cxx_name = "Q1p2m"] fn q1_p2m(self: &mut P2, a0: String, a1: N) -> N;
        fn q2_p2m(self: &mut P2, a0: &str, a1: &N);
        #[cxx_name = "Q3p2m"] fn q3_p2m(self: &mut P2, a0: f64, a1: F2) -> Result<F2>;
        fn q4_p2m(self: &mut P2, a0: Box<R>) -> Result<()>;
        #[cxx_name = "Q5p2m"] fn q5_p2m(self: &mut P2) -> Vec<String>;
        fn q6_p2m(self: &mut P2, a0: Q2, a1: Q3) -> Q3;
    }
    extern "Rust" {
        type R;
        fn mk_r(v: u64) -> Box<R>;
        fn mk_vr(v: u64, k: usize) -> Vec<R>;
        fn r_get(r: &R) -> u64;
        fn r_set(r: &mut R, v: u64);
        
    }
}
include!("../../common/calls.rs");
#[no_mangle] extern "C" fn h_00() { run(|d| { match choice(24, c"function") {
    0 => { let x0 = val::<bool>(d, 0); exp(&x0); let r = ffi::v_bool(x0); same(&r, d); logged();  }
    1 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<bool>(d, 1); exp(&x1); let x2 = val::<bool>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_bool(x0, x1, x2, x3); same(&r, d); logged();  }
    2 => { let d = &d.fallible(); let x0 = val::<bool>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_bool(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    3 => { let x0 = val::<c_char>(d, 0); exp(&x0); let r = ffi::v_c_char(x0); same(&r, d); logged();  }
    4 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<c_char>(d, 1); exp(&x1); let x2 = val::<c_char>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_c_char(x0, x1, x2, x3); same(&r, d); logged();  }
    5 => { let d = &d.fallible(); let x0 = val::<c_char>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_c_char(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    6 => { let x0 = val::<u8>(d, 0); exp(&x0); let r = ffi::v_u8(x0); same(&r, d); logged();  }
    7 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<u8>(d, 1); exp(&x1); let x2 = val::<u8>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_u8(x0, x1, x2, x3); same(&r, d); logged();  }
    8 => { let d = &d.fallible(); let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_u8(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    9 => { let x0 = val::<u16>(d, 0); exp(&x0); let r = ffi::v_u16(x0); same(&r, d); logged();  }
    10 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); let x2 = val::<u16>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_u16(x0, x1, x2, x3); same(&r, d); logged();  }
    11 => { let d = &d.fallible(); let x0 = val::<u16>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_u16(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    12 => { let x0 = val::<u32>(d, 0); exp(&x0); let r = ffi::v_u32(x0); same(&r, d); logged();  }
    13 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<u32>(d, 1); exp(&x1); let x2 = val::<u32>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_u32(x0, x1, x2, x3); same(&r, d); logged();  }
    14 => { let d = &d.fallible(); let x0 = val::<u32>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_u32(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    15 => { let x0 = val::<u64>(d, 0); exp(&x0); let r = ffi::v_u64(x0); same(&r, d); logged();  }
    16 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<u64>(d, 1); exp(&x1); let x2 = val::<u64>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_u64(x0, x1, x2, x3); same(&r, d); logged();  }
    17 => { let d = &d.fallible(); let x0 = val::<u64>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_u64(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    18 => { let x0 = val::<usize>(d, 0); exp(&x0); let r = ffi::v_usize(x0); same(&r, d); logged();  }
    19 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<usize>(d, 1); exp(&x1); let x2 = val::<usize>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_usize(x0, x1, x2, x3); same(&r, d); logged();  }
    20 => { let d = &d.fallible(); let x0 = val::<usize>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_usize(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    21 => { let x0 = val::<i8>(d, 0); exp(&x0); let r = ffi::v_i8(x0); same(&r, d); logged();  }
    22 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<i8>(d, 1); exp(&x1); let x2 = val::<i8>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_i8(x0, x1, x2, x3); same(&r, d); logged();  }
    _ => { let d = &d.fallible(); let x0 = val::<i8>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_i8(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
} }) }
#[no_mangle] extern "C" fn h_01() { run(|d| { match choice(24, c"function") {
    0 => { let x0 = val::<i16>(d, 0); exp(&x0); let r = ffi::v_i16(x0); same(&r, d); logged();  }
    1 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<i16>(d, 1); exp(&x1); let x2 = val::<i16>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_i16(x0, x1, x2, x3); same(&r, d); logged();  }
    2 => { let d = &d.fallible(); let x0 = val::<i16>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_i16(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    3 => { let x0 = val::<i32>(d, 0); exp(&x0); let r = ffi::v_i32(x0); same(&r, d); logged();  }
    4 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<i32>(d, 1); exp(&x1); let x2 = val::<i32>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_i32(x0, x1, x2, x3); same(&r, d); logged();  }
    5 => { let d = &d.fallible(); let x0 = val::<i32>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_i32(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    6 => { let x0 = val::<i64>(d, 0); exp(&x0); let r = ffi::v_i64(x0); same(&r, d); logged();  }
    7 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<i64>(d, 1); exp(&x1); let x2 = val::<i64>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_i64(x0, x1, x2, x3); same(&r, d); logged();  }
    8 => { let d = &d.fallible(); let x0 = val::<i64>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_i64(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    9 => { let x0 = val::<isize>(d, 0); exp(&x0); let r = ffi::v_isize(x0); same(&r, d); logged();  }
    10 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<isize>(d, 1); exp(&x1); let x2 = val::<isize>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_isize(x0, x1, x2, x3); same(&r, d); logged();  }
    11 => { let d = &d.fallible(); let x0 = val::<isize>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_isize(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    12 => { let x0 = val::<f32>(d, 0); exp(&x0); let r = ffi::v_f32(x0); same(&r, d); logged();  }
    13 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<f32>(d, 1); exp(&x1); let x2 = val::<f32>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_f32(x0, x1, x2, x3); same(&r, d); logged();  }
    14 => { let d = &d.fallible(); let x0 = val::<f32>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_f32(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    15 => { let x0 = val::<f64>(d, 0); exp(&x0); let r = ffi::v_f64(x0); same(&r, d); logged();  }
    16 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<f64>(d, 1); exp(&x1); let x2 = val::<f64>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_f64(x0, x1, x2, x3); same(&r, d); logged();  }
    17 => { let d = &d.fallible(); let x0 = val::<f64>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_f64(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    18 => { let x0 = val::<String>(d, 0); exp(&x0); let r = ffi::v_string(x0); same(&r, d); logged();  }
    19 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<String>(d, 1); exp(&x1); let x2 = val::<String>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_string(x0, x1, x2, x3); same(&r, d); logged();  }
    20 => { let d = &d.fallible(); let x0 = val::<String>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_string(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    21 => { let x0 = val::<Box<R>>(d, 0); exp(&x0); let r = ffi::v_box(x0); same(&r, d); logged();  }
    22 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<Box<R>>(d, 1); exp(&x1); let x2 = val::<Box<R>>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_box(x0, x1, x2, x3); same(&r, d); logged();  }
    _ => { let d = &d.fallible(); let x0 = val::<Box<R>>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_box(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
} }) }
#[no_mangle] extern "C" fn h_02() { run(|d| { match choice(24, c"function") {
    0 => { let x0 = val::<Box<N>>(d, 0); exp(&x0); let r = ffi::v_boxn(x0); same(&r, d); logged();  }
    1 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<Box<N>>(d, 1); exp(&x1); let x2 = val::<Box<N>>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_boxn(x0, x1, x2, x3); same(&r, d); logged();  }
    2 => { let d = &d.fallible(); let x0 = val::<Box<N>>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_boxn(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    3 => { let x0 = val::<Vec<u8>>(d, 0); exp(&x0); let r = ffi::v_vu8(x0); same(&r, d); logged();  }
    4 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<Vec<u8>>(d, 1); exp(&x1); let x2 = val::<Vec<u8>>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_vu8(x0, x1, x2, x3); same(&r, d); logged();  }
    5 => { let d = &d.fallible(); let x0 = val::<Vec<u8>>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_vu8(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    6 => { let x0 = val::<Vec<bool>>(d, 0); exp(&x0); let r = ffi::v_vbool(x0); same(&r, d); logged();  }
    7 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<Vec<bool>>(d, 1); exp(&x1); let x2 = val::<Vec<bool>>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_vbool(x0, x1, x2, x3); same(&r, d); logged();  }
    8 => { let d = &d.fallible(); let x0 = val::<Vec<bool>>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_vbool(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    9 => { let x0 = val::<Vec<f64>>(d, 0); exp(&x0); let r = ffi::v_vf64(x0); same(&r, d); logged();  }
    10 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<Vec<f64>>(d, 1); exp(&x1); let x2 = val::<Vec<f64>>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_vf64(x0, x1, x2, x3); same(&r, d); logged();  }
    11 => { let d = &d.fallible(); let x0 = val::<Vec<f64>>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_vf64(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    12 => { let x0 = val::<Vec<String>>(d, 0); exp(&x0); let r = ffi::v_vstring(x0); same(&r, d); logged();  }
    13 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<Vec<String>>(d, 1); exp(&x1); let x2 = val::<Vec<String>>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_vstring(x0, x1, x2, x3); same(&r, d); logged();  }
    14 => { let d = &d.fallible(); let x0 = val::<Vec<String>>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_vstring(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    15 => { let x0 = val::<Vec<P2>>(d, 0); exp(&x0); let r = ffi::v_vp2(x0); same(&r, d); logged();  }
    16 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<Vec<P2>>(d, 1); exp(&x1); let x2 = val::<Vec<P2>>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_vp2(x0, x1, x2, x3); same(&r, d); logged();  }
    17 => { let d = &d.fallible(); let x0 = val::<Vec<P2>>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_vp2(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    18 => { let x0 = val::<Vec<N>>(d, 0); exp(&x0); let r = ffi::v_vn(x0); same(&r, d); logged();  }
    19 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<Vec<N>>(d, 1); exp(&x1); let x2 = val::<Vec<N>>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_vn(x0, x1, x2, x3); same(&r, d); logged();  }
    20 => { let d = &d.fallible(); let x0 = val::<Vec<N>>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_vn(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    21 => { let x0 = val::<Vec<R>>(d, 0); exp(&x0); let r = ffi::v_vr(x0); same(&r, d); logged();  }
    22 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<Vec<R>>(d, 1); exp(&x1); let x2 = val::<Vec<R>>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_vr(x0, x1, x2, x3); same(&r, d); logged();  }
    _ => { let d = &d.fallible(); let x0 = val::<Vec<R>>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_vr(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
} }) }
#[no_mangle] extern "C" fn h_03() { run(|d| { match choice(24, c"function") {
    0 => { let x0 = val::<UniquePtr<C>>(d, 0); exp(&x0); let r = ffi::v_uobj(x0); same(&r, d); logged();  }
    1 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<UniquePtr<C>>(d, 1); exp(&x1); let x2 = val::<UniquePtr<C>>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_uobj(x0, x1, x2, x3); same(&r, d); logged();  }
    2 => { let d = &d.fallible(); let x0 = val::<UniquePtr<C>>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_uobj(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    3 => { let x0 = val::<UniquePtr<CxxString>>(d, 0); exp(&x0); let r = ffi::v_ustr(x0); same(&r, d); logged();  }
    4 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<UniquePtr<CxxString>>(d, 1); exp(&x1); let x2 = val::<UniquePtr<CxxString>>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_ustr(x0, x1, x2, x3); same(&r, d); logged();  }
    5 => { let d = &d.fallible(); let x0 = val::<UniquePtr<CxxString>>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_ustr(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    6 => { let x0 = val::<UniquePtr<CxxVector<u32>>>(d, 0); exp(&x0); let r = ffi::v_uvec(x0); same(&r, d); logged();  }
    7 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<UniquePtr<CxxVector<u32>>>(d, 1); exp(&x1); let x2 = val::<UniquePtr<CxxVector<u32>>>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_uvec(x0, x1, x2, x3); same(&r, d); logged();  }
    8 => { let d = &d.fallible(); let x0 = val::<UniquePtr<CxxVector<u32>>>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_uvec(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    9 => { let x0 = val::<UniquePtr<N>>(d, 0); exp(&x0); let r = ffi::v_un(x0); same(&r, d); logged();  }
    10 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<UniquePtr<N>>(d, 1); exp(&x1); let x2 = val::<UniquePtr<N>>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_un(x0, x1, x2, x3); same(&r, d); logged();  }
    11 => { let d = &d.fallible(); let x0 = val::<UniquePtr<N>>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_un(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    12 => { let x0 = val::<SharedPtr<C>>(d, 0); exp(&x0); let r = ffi::v_sobj(x0); same(&r, d); logged();  }
    13 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<SharedPtr<C>>(d, 1); exp(&x1); let x2 = val::<SharedPtr<C>>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_sobj(x0, x1, x2, x3); same(&r, d); logged();  }
    14 => { let d = &d.fallible(); let x0 = val::<SharedPtr<C>>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_sobj(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    15 => { let x0 = val::<SharedPtr<u64>>(d, 0); exp(&x0); let r = ffi::v_su64(x0); same(&r, d); logged();  }
    16 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<SharedPtr<u64>>(d, 1); exp(&x1); let x2 = val::<SharedPtr<u64>>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_su64(x0, x1, x2, x3); same(&r, d); logged();  }
    17 => { let d = &d.fallible(); let x0 = val::<SharedPtr<u64>>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_su64(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    18 => { let x0 = val::<WeakPtr<C>>(d, 0); exp(&x0); let r = ffi::v_wobj(x0); same(&r, d); logged();  }
    19 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<WeakPtr<C>>(d, 1); exp(&x1); let x2 = val::<WeakPtr<C>>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_wobj(x0, x1, x2, x3); same(&r, d); logged();  }
    20 => { let d = &d.fallible(); let x0 = val::<WeakPtr<C>>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_wobj(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    21 => { let x0 = val::<P1>(d, 0); exp(&x0); let r = ffi::v_p1(x0); same(&r, d); logged();  }
    22 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<P1>(d, 1); exp(&x1); let x2 = val::<P1>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_p1(x0, x1, x2, x3); same(&r, d); logged();  }
    _ => { let d = &d.fallible(); let x0 = val::<P1>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_p1(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
} }) }
#[no_mangle] extern "C" fn h_04() { run(|d| { match choice(24, c"function") {
    0 => { let x0 = val::<P2>(d, 0); exp(&x0); let r = ffi::v_p2(x0); same(&r, d); logged();  }
    1 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<P2>(d, 1); exp(&x1); let x2 = val::<P2>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_p2(x0, x1, x2, x3); same(&r, d); logged();  }
    2 => { let d = &d.fallible(); let x0 = val::<P2>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_p2(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    3 => { let x0 = val::<F2>(d, 0); exp(&x0); let r = ffi::v_f2(x0); same(&r, d); logged();  }
    4 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<F2>(d, 1); exp(&x1); let x2 = val::<F2>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_f2(x0, x1, x2, x3); same(&r, d); logged();  }
    5 => { let d = &d.fallible(); let x0 = val::<F2>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_f2(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    6 => { let x0 = val::<FI>(d, 0); exp(&x0); let r = ffi::v_fi(x0); same(&r, d); logged();  }
    7 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<FI>(d, 1); exp(&x1); let x2 = val::<FI>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_fi(x0, x1, x2, x3); same(&r, d); logged();  }
    8 => { let d = &d.fallible(); let x0 = val::<FI>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_fi(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    9 => { let x0 = val::<Q2>(d, 0); exp(&x0); let r = ffi::v_q2(x0); same(&r, d); logged();  }
    10 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<Q2>(d, 1); exp(&x1); let x2 = val::<Q2>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_q2(x0, x1, x2, x3); same(&r, d); logged();  }
    11 => { let d = &d.fallible(); let x0 = val::<Q2>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_q2(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    12 => { let x0 = val::<Q3>(d, 0); exp(&x0); let r = ffi::v_q3(x0); same(&r, d); logged();  }
    13 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<Q3>(d, 1); exp(&x1); let x2 = val::<Q3>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_q3(x0, x1, x2, x3); same(&r, d); logged();  }
    14 => { let d = &d.fallible(); let x0 = val::<Q3>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_q3(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    15 => { let x0 = val::<D4>(d, 0); exp(&x0); let r = ffi::v_d4(x0); same(&r, d); logged();  }
    16 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<D4>(d, 1); exp(&x1); let x2 = val::<D4>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_d4(x0, x1, x2, x3); same(&r, d); logged();  }
    17 => { let d = &d.fallible(); let x0 = val::<D4>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_d4(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    18 => { let x0 = val::<N>(d, 0); exp(&x0); let r = ffi::v_n(x0); same(&r, d); logged();  }
    19 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<N>(d, 1); exp(&x1); let x2 = val::<N>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_n(x0, x1, x2, x3); same(&r, d); logged();  }
    20 => { let d = &d.fallible(); let x0 = val::<N>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_n(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    21 => { let x0 = val::<Ar>(d, 0); exp(&x0); let r = ffi::v_ar(x0); same(&r, d); logged();  }
    22 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<Ar>(d, 1); exp(&x1); let x2 = val::<Ar>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_ar(x0, x1, x2, x3); same(&r, d); logged();  }
    _ => { let d = &d.fallible(); let x0 = val::<Ar>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_ar(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
} }) }
#[no_mangle] extern "C" fn h_05() { run(|d| { match choice(24, c"function") {
    0 => { let x0 = val::<Nest>(d, 0); exp(&x0); let r = ffi::v_nest(x0); same(&r, d); logged();  }
    1 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<Nest>(d, 1); exp(&x1); let x2 = val::<Nest>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_nest(x0, x1, x2, x3); same(&r, d); logged();  }
    2 => { let d = &d.fallible(); let x0 = val::<Nest>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_nest(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    3 => { let x0 = val::<En>(d, 0); exp(&x0); let r = ffi::v_en(x0); same(&r, d); logged();  }
    4 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<En>(d, 1); exp(&x1); let x2 = val::<En>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_en(x0, x1, x2, x3); same(&r, d); logged();  }
    5 => { let d = &d.fallible(); let x0 = val::<En>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_en(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    6 => { let x0 = val::<Ei16>(d, 0); exp(&x0); let r = ffi::v_ei16(x0); same(&r, d); logged();  }
    7 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<Ei16>(d, 1); exp(&x1); let x2 = val::<Ei16>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_ei16(x0, x1, x2, x3); same(&r, d); logged();  }
    8 => { let d = &d.fallible(); let x0 = val::<Ei16>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_ei16(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    9 => { let x0 = val::<Eu64>(d, 0); exp(&x0); let r = ffi::v_eu64(x0); same(&r, d); logged();  }
    10 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<Eu64>(d, 1); exp(&x1); let x2 = val::<Eu64>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_eu64(x0, x1, x2, x3); same(&r, d); logged();  }
    11 => { let d = &d.fallible(); let x0 = val::<Eu64>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_eu64(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    12 => { let x0 = val::<T1>(d, 0); exp(&x0); let r = ffi::v_t1(x0); same(&r, d); logged();  }
    13 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<T1>(d, 1); exp(&x1); let x2 = val::<T1>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_t1(x0, x1, x2, x3); same(&r, d); logged();  }
    14 => { let d = &d.fallible(); let x0 = val::<T1>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_t1(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    15 => { let x0 = val::<T3>(d, 0); exp(&x0); let r = ffi::v_t3(x0); same(&r, d); logged();  }
    16 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<T3>(d, 1); exp(&x1); let x2 = val::<T3>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_t3(x0, x1, x2, x3); same(&r, d); logged();  }
    17 => { let d = &d.fallible(); let x0 = val::<T3>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_t3(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    18 => { let x0 = val::<Tx>(d, 0); exp(&x0); let r = ffi::v_tx(x0); same(&r, d); logged();  }
    19 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<Tx>(d, 1); exp(&x1); let x2 = val::<Tx>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_tx(x0, x1, x2, x3); same(&r, d); logged();  }
    20 => { let d = &d.fallible(); let x0 = val::<Tx>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_tx(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    21 => { let x0 = val::<[u8; 5]>(d, 0); exp(&x0); let r = ffi::v_arr5(x0); same(&r, d); logged();  }
    22 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<[u8; 5]>(d, 1); exp(&x1); let x2 = val::<[u8; 5]>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_arr5(x0, x1, x2, x3); same(&r, d); logged();  }
    _ => { let d = &d.fallible(); let x0 = val::<[u8; 5]>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_arr5(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
} }) }
#[no_mangle] extern "C" fn h_06() { run(|d| { match choice(24, c"function") {
    0 => { let x0 = val::<[String; 2]>(d, 0); exp(&x0); let r = ffi::v_arrs(x0); same(&r, d); logged();  }
    1 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<[String; 2]>(d, 1); exp(&x1); let x2 = val::<[String; 2]>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let r = ffi::w_arrs(x0, x1, x2, x3); same(&r, d); logged();  }
    2 => { let d = &d.fallible(); let x0 = val::<[String; 2]>(d, 0); exp(&x0); let x1 = val::<u16>(d, 1); exp(&x1); match ffi::t_arrs(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    3 => { let mut x0 = own::<bool>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<bool>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_bool(x0.get(), x1.get()); let () = r; logged();  }
    4 => { let mut x0 = own::<bool>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_bool(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    5 => { let mut x0 = own::<bool>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_bool(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    6 => { let mut x0 = own::<bool>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_bool(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    7 => { let d = &d.fallible(); let mut x0 = own::<bool>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_bool(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    8 => { let d = &d.fallible(); let mut x0 = own::<bool>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_bool(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    9 => { let mut x0 = own::<c_char>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<c_char>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_c_char(x0.get(), x1.get()); let () = r; logged();  }
    10 => { let mut x0 = own::<c_char>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_c_char(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    11 => { let mut x0 = own::<c_char>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_c_char(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    12 => { let mut x0 = own::<c_char>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_c_char(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    13 => { let d = &d.fallible(); let mut x0 = own::<c_char>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_c_char(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    14 => { let d = &d.fallible(); let mut x0 = own::<c_char>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_c_char(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    15 => { let mut x0 = own::<u8>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<u8>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_u8(x0.get(), x1.get()); let () = r; logged();  }
    16 => { let mut x0 = own::<u8>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_u8(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    17 => { let mut x0 = own::<u8>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_u8(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    18 => { let mut x0 = own::<u8>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_u8(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    19 => { let d = &d.fallible(); let mut x0 = own::<u8>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_u8(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    20 => { let d = &d.fallible(); let mut x0 = own::<u8>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_u8(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    21 => { let mut x0 = own::<u16>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<u16>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_u16(x0.get(), x1.get()); let () = r; logged();  }
    22 => { let mut x0 = own::<u16>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_u16(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    _ => { let mut x0 = own::<u16>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_u16(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
} }) }
#[no_mangle] extern "C" fn h_07() { run(|d| { match choice(24, c"function") {
    0 => { let mut x0 = own::<u16>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_u16(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    1 => { let d = &d.fallible(); let mut x0 = own::<u16>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_u16(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    2 => { let d = &d.fallible(); let mut x0 = own::<u16>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_u16(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    3 => { let mut x0 = own::<u32>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<u32>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_u32(x0.get(), x1.get()); let () = r; logged();  }
    4 => { let mut x0 = own::<u32>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_u32(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    5 => { let mut x0 = own::<u32>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_u32(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    6 => { let mut x0 = own::<u32>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_u32(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    7 => { let d = &d.fallible(); let mut x0 = own::<u32>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_u32(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    8 => { let d = &d.fallible(); let mut x0 = own::<u32>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_u32(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    9 => { let mut x0 = own::<u64>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<u64>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_u64(x0.get(), x1.get()); let () = r; logged();  }
    10 => { let mut x0 = own::<u64>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_u64(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    11 => { let mut x0 = own::<u64>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_u64(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    12 => { let mut x0 = own::<u64>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_u64(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    13 => { let d = &d.fallible(); let mut x0 = own::<u64>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_u64(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    14 => { let d = &d.fallible(); let mut x0 = own::<u64>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_u64(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    15 => { let mut x0 = own::<usize>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<usize>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_usize(x0.get(), x1.get()); let () = r; logged();  }
    16 => { let mut x0 = own::<usize>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_usize(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    17 => { let mut x0 = own::<usize>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_usize(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    18 => { let mut x0 = own::<usize>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_usize(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    19 => { let d = &d.fallible(); let mut x0 = own::<usize>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_usize(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    20 => { let d = &d.fallible(); let mut x0 = own::<usize>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_usize(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    21 => { let mut x0 = own::<i8>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<i8>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_i8(x0.get(), x1.get()); let () = r; logged();  }
    22 => { let mut x0 = own::<i8>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_i8(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    _ => { let mut x0 = own::<i8>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_i8(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
} }) }
#[no_mangle] extern "C" fn h_08() { run(|d| { match choice(24, c"function") {
    0 => { let mut x0 = own::<i8>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_i8(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    1 => { let d = &d.fallible(); let mut x0 = own::<i8>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_i8(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    2 => { let d = &d.fallible(); let mut x0 = own::<i8>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_i8(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    3 => { let mut x0 = own::<i16>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<i16>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_i16(x0.get(), x1.get()); let () = r; logged();  }
    4 => { let mut x0 = own::<i16>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_i16(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    5 => { let mut x0 = own::<i16>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_i16(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    6 => { let mut x0 = own::<i16>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_i16(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    7 => { let d = &d.fallible(); let mut x0 = own::<i16>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_i16(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    8 => { let d = &d.fallible(); let mut x0 = own::<i16>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_i16(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    9 => { let mut x0 = own::<i32>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<i32>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_i32(x0.get(), x1.get()); let () = r; logged();  }
    10 => { let mut x0 = own::<i32>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_i32(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    11 => { let mut x0 = own::<i32>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_i32(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    12 => { let mut x0 = own::<i32>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_i32(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    13 => { let d = &d.fallible(); let mut x0 = own::<i32>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_i32(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    14 => { let d = &d.fallible(); let mut x0 = own::<i32>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_i32(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    15 => { let mut x0 = own::<i64>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<i64>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_i64(x0.get(), x1.get()); let () = r; logged();  }
    16 => { let mut x0 = own::<i64>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_i64(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    17 => { let mut x0 = own::<i64>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_i64(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    18 => { let mut x0 = own::<i64>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_i64(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    19 => { let d = &d.fallible(); let mut x0 = own::<i64>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_i64(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    20 => { let d = &d.fallible(); let mut x0 = own::<i64>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_i64(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    21 => { let mut x0 = own::<isize>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<isize>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_isize(x0.get(), x1.get()); let () = r; logged();  }
    22 => { let mut x0 = own::<isize>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_isize(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    _ => { let mut x0 = own::<isize>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_isize(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
} }) }
#[no_mangle] extern "C" fn h_09() { run(|d| { match choice(24, c"function") {
    0 => { let mut x0 = own::<isize>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_isize(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    1 => { let d = &d.fallible(); let mut x0 = own::<isize>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_isize(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    2 => { let d = &d.fallible(); let mut x0 = own::<isize>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_isize(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    3 => { let mut x0 = own::<f32>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<f32>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_f32(x0.get(), x1.get()); let () = r; logged();  }
    4 => { let mut x0 = own::<f32>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_f32(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    5 => { let mut x0 = own::<f32>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_f32(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    6 => { let mut x0 = own::<f32>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_f32(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    7 => { let d = &d.fallible(); let mut x0 = own::<f32>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_f32(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    8 => { let d = &d.fallible(); let mut x0 = own::<f32>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_f32(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    9 => { let mut x0 = own::<f64>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<f64>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_f64(x0.get(), x1.get()); let () = r; logged();  }
    10 => { let mut x0 = own::<f64>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_f64(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    11 => { let mut x0 = own::<f64>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_f64(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    12 => { let mut x0 = own::<f64>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_f64(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    13 => { let d = &d.fallible(); let mut x0 = own::<f64>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_f64(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    14 => { let d = &d.fallible(); let mut x0 = own::<f64>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_f64(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    15 => { let mut x0 = own::<String>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<String>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_string(x0.get(), x1.get()); let () = r; logged();  }
    16 => { let mut x0 = own::<String>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_string(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    17 => { let mut x0 = own::<String>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_string(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    18 => { let mut x0 = own::<String>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_string(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    19 => { let d = &d.fallible(); let mut x0 = own::<String>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_string(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    20 => { let d = &d.fallible(); let mut x0 = own::<String>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_string(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    21 => { let mut x0 = own::<Box<R>>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<Box<R>>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_box(x0.get(), x1.get()); let () = r; logged();  }
    22 => { let mut x0 = own::<Box<R>>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_box(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    _ => { let mut x0 = own::<Box<R>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_box(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
} }) }
#[no_mangle] extern "C" fn h_10() { run(|d| { match choice(24, c"function") {
    0 => { let mut x0 = own::<Box<R>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_box(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    1 => { let d = &d.fallible(); let mut x0 = own::<Box<R>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_box(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    2 => { let d = &d.fallible(); let mut x0 = own::<Box<R>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_box(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    3 => { let mut x0 = own::<Box<N>>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<Box<N>>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_boxn(x0.get(), x1.get()); let () = r; logged();  }
    4 => { let mut x0 = own::<Box<N>>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_boxn(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    5 => { let mut x0 = own::<Box<N>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_boxn(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    6 => { let mut x0 = own::<Box<N>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_boxn(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    7 => { let d = &d.fallible(); let mut x0 = own::<Box<N>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_boxn(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    8 => { let d = &d.fallible(); let mut x0 = own::<Box<N>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_boxn(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    9 => { let mut x0 = own::<Vec<u8>>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<Vec<u8>>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_vu8(x0.get(), x1.get()); let () = r; logged();  }
    10 => { let mut x0 = own::<Vec<u8>>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_vu8(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    11 => { let mut x0 = own::<Vec<u8>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_vu8(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    12 => { let mut x0 = own::<Vec<u8>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_vu8(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    13 => { let d = &d.fallible(); let mut x0 = own::<Vec<u8>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_vu8(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    14 => { let d = &d.fallible(); let mut x0 = own::<Vec<u8>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_vu8(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    15 => { let mut x0 = own::<Vec<bool>>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<Vec<bool>>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_vbool(x0.get(), x1.get()); let () = r; logged();  }
    16 => { let mut x0 = own::<Vec<bool>>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_vbool(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    17 => { let mut x0 = own::<Vec<bool>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_vbool(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    18 => { let mut x0 = own::<Vec<bool>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_vbool(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    19 => { let d = &d.fallible(); let mut x0 = own::<Vec<bool>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_vbool(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    20 => { let d = &d.fallible(); let mut x0 = own::<Vec<bool>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_vbool(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    21 => { let mut x0 = own::<Vec<f64>>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<Vec<f64>>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_vf64(x0.get(), x1.get()); let () = r; logged();  }
    22 => { let mut x0 = own::<Vec<f64>>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_vf64(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    _ => { let mut x0 = own::<Vec<f64>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_vf64(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
} }) }
#[no_mangle] extern "C" fn h_11() { run(|d| { match choice(24, c"function") {
    0 => { let mut x0 = own::<Vec<f64>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_vf64(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    1 => { let d = &d.fallible(); let mut x0 = own::<Vec<f64>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_vf64(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    2 => { let d = &d.fallible(); let mut x0 = own::<Vec<f64>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_vf64(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    3 => { let mut x0 = own::<Vec<String>>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<Vec<String>>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_vstring(x0.get(), x1.get()); let () = r; logged();  }
    4 => { let mut x0 = own::<Vec<String>>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_vstring(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    5 => { let mut x0 = own::<Vec<String>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_vstring(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    6 => { let mut x0 = own::<Vec<String>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_vstring(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    7 => { let d = &d.fallible(); let mut x0 = own::<Vec<String>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_vstring(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    8 => { let d = &d.fallible(); let mut x0 = own::<Vec<String>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_vstring(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    9 => { let mut x0 = own::<Vec<P2>>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<Vec<P2>>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_vp2(x0.get(), x1.get()); let () = r; logged();  }
    10 => { let mut x0 = own::<Vec<P2>>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_vp2(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    11 => { let mut x0 = own::<Vec<P2>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_vp2(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    12 => { let mut x0 = own::<Vec<P2>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_vp2(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    13 => { let d = &d.fallible(); let mut x0 = own::<Vec<P2>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_vp2(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    14 => { let d = &d.fallible(); let mut x0 = own::<Vec<P2>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_vp2(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    15 => { let mut x0 = own::<Vec<N>>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<Vec<N>>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_vn(x0.get(), x1.get()); let () = r; logged();  }
    16 => { let mut x0 = own::<Vec<N>>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_vn(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    17 => { let mut x0 = own::<Vec<N>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_vn(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    18 => { let mut x0 = own::<Vec<N>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_vn(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    19 => { let d = &d.fallible(); let mut x0 = own::<Vec<N>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_vn(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    20 => { let d = &d.fallible(); let mut x0 = own::<Vec<N>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_vn(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    21 => { let mut x0 = own::<Vec<R>>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<Vec<R>>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_vr(x0.get(), x1.get()); let () = r; logged();  }
    22 => { let mut x0 = own::<Vec<R>>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_vr(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    _ => { let mut x0 = own::<Vec<R>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_vr(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
} }) }
#[no_mangle] extern "C" fn h_12() { run(|d| { match choice(24, c"function") {
    0 => { let mut x0 = own::<Vec<R>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_vr(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    1 => { let d = &d.fallible(); let mut x0 = own::<Vec<R>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_vr(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    2 => { let d = &d.fallible(); let mut x0 = own::<Vec<R>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_vr(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    3 => { let mut x0 = own::<UniquePtr<C>>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<UniquePtr<C>>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_uobj(x0.get(), x1.get()); let () = r; logged();  }
    4 => { let mut x0 = own::<UniquePtr<C>>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_uobj(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    5 => { let mut x0 = own::<UniquePtr<C>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_uobj(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    6 => { let mut x0 = own::<UniquePtr<C>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_uobj(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    7 => { let d = &d.fallible(); let mut x0 = own::<UniquePtr<C>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_uobj(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    8 => { let d = &d.fallible(); let mut x0 = own::<UniquePtr<C>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_uobj(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    9 => { let mut x0 = own::<UniquePtr<CxxString>>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<UniquePtr<CxxString>>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_ustr(x0.get(), x1.get()); let () = r; logged();  }
    10 => { let mut x0 = own::<UniquePtr<CxxString>>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_ustr(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    11 => { let mut x0 = own::<UniquePtr<CxxString>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_ustr(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    12 => { let mut x0 = own::<UniquePtr<CxxString>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_ustr(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    13 => { let d = &d.fallible(); let mut x0 = own::<UniquePtr<CxxString>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_ustr(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    14 => { let d = &d.fallible(); let mut x0 = own::<UniquePtr<CxxString>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_ustr(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    15 => { let mut x0 = own::<UniquePtr<CxxVector<u32>>>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<UniquePtr<CxxVector<u32>>>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_uvec(x0.get(), x1.get()); let () = r; logged();  }
    16 => { let mut x0 = own::<UniquePtr<CxxVector<u32>>>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_uvec(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    17 => { let mut x0 = own::<UniquePtr<CxxVector<u32>>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_uvec(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    18 => { let mut x0 = own::<UniquePtr<CxxVector<u32>>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_uvec(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    19 => { let d = &d.fallible(); let mut x0 = own::<UniquePtr<CxxVector<u32>>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_uvec(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    20 => { let d = &d.fallible(); let mut x0 = own::<UniquePtr<CxxVector<u32>>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_uvec(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    21 => { let mut x0 = own::<UniquePtr<N>>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<UniquePtr<N>>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_un(x0.get(), x1.get()); let () = r; logged();  }
    22 => { let mut x0 = own::<UniquePtr<N>>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_un(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    _ => { let mut x0 = own::<UniquePtr<N>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_un(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
} }) }
#[no_mangle] extern "C" fn h_13() { run(|d| { match choice(24, c"function") {
    0 => { let mut x0 = own::<UniquePtr<N>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_un(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    1 => { let d = &d.fallible(); let mut x0 = own::<UniquePtr<N>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_un(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    2 => { let d = &d.fallible(); let mut x0 = own::<UniquePtr<N>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_un(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    3 => { let mut x0 = own::<SharedPtr<C>>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<SharedPtr<C>>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_sobj(x0.get(), x1.get()); let () = r; logged();  }
    4 => { let mut x0 = own::<SharedPtr<C>>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_sobj(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    5 => { let mut x0 = own::<SharedPtr<C>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_sobj(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    6 => { let mut x0 = own::<SharedPtr<C>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_sobj(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    7 => { let d = &d.fallible(); let mut x0 = own::<SharedPtr<C>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_sobj(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    8 => { let d = &d.fallible(); let mut x0 = own::<SharedPtr<C>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_sobj(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    9 => { let mut x0 = own::<SharedPtr<u64>>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<SharedPtr<u64>>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_su64(x0.get(), x1.get()); let () = r; logged();  }
    10 => { let mut x0 = own::<SharedPtr<u64>>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_su64(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    11 => { let mut x0 = own::<SharedPtr<u64>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_su64(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    12 => { let mut x0 = own::<SharedPtr<u64>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_su64(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    13 => { let d = &d.fallible(); let mut x0 = own::<SharedPtr<u64>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_su64(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    14 => { let d = &d.fallible(); let mut x0 = own::<SharedPtr<u64>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_su64(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    15 => { let mut x0 = own::<WeakPtr<C>>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<WeakPtr<C>>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_wobj(x0.get(), x1.get()); let () = r; logged();  }
    16 => { let mut x0 = own::<WeakPtr<C>>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_wobj(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    17 => { let mut x0 = own::<WeakPtr<C>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_wobj(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    18 => { let mut x0 = own::<WeakPtr<C>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_wobj(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    19 => { let d = &d.fallible(); let mut x0 = own::<WeakPtr<C>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_wobj(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    20 => { let d = &d.fallible(); let mut x0 = own::<WeakPtr<C>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_wobj(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    21 => { let mut x0 = own::<P1>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<P1>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_p1(x0.get(), x1.get()); let () = r; logged();  }
    22 => { let mut x0 = own::<P1>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_p1(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    _ => { let mut x0 = own::<P1>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_p1(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
} }) }
#[no_mangle] extern "C" fn h_14() { run(|d| { match choice(24, c"function") {
    0 => { let mut x0 = own::<P1>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_p1(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    1 => { let d = &d.fallible(); let mut x0 = own::<P1>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_p1(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    2 => { let d = &d.fallible(); let mut x0 = own::<P1>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_p1(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    3 => { let mut x0 = own::<P2>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<P2>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_p2(x0.get(), x1.get()); let () = r; logged();  }
    4 => { let mut x0 = own::<P2>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_p2(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    5 => { let mut x0 = own::<P2>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_p2(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    6 => { let mut x0 = own::<P2>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_p2(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    7 => { let d = &d.fallible(); let mut x0 = own::<P2>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_p2(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    8 => { let d = &d.fallible(); let mut x0 = own::<P2>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_p2(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    9 => { let mut x0 = own::<F2>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<F2>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_f2(x0.get(), x1.get()); let () = r; logged();  }
    10 => { let mut x0 = own::<F2>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_f2(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    11 => { let mut x0 = own::<F2>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_f2(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    12 => { let mut x0 = own::<F2>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_f2(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    13 => { let d = &d.fallible(); let mut x0 = own::<F2>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_f2(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    14 => { let d = &d.fallible(); let mut x0 = own::<F2>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_f2(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    15 => { let mut x0 = own::<FI>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<FI>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_fi(x0.get(), x1.get()); let () = r; logged();  }
    16 => { let mut x0 = own::<FI>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_fi(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    17 => { let mut x0 = own::<FI>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_fi(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    18 => { let mut x0 = own::<FI>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_fi(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    19 => { let d = &d.fallible(); let mut x0 = own::<FI>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_fi(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    20 => { let d = &d.fallible(); let mut x0 = own::<FI>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_fi(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    21 => { let mut x0 = own::<Q2>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<Q2>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_q2(x0.get(), x1.get()); let () = r; logged();  }
    22 => { let mut x0 = own::<Q2>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_q2(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    _ => { let mut x0 = own::<Q2>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_q2(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
} }) }
#[no_mangle] extern "C" fn h_15() { run(|d| { match choice(24, c"function") {
    0 => { let mut x0 = own::<Q2>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_q2(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    1 => { let d = &d.fallible(); let mut x0 = own::<Q2>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_q2(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    2 => { let d = &d.fallible(); let mut x0 = own::<Q2>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_q2(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    3 => { let mut x0 = own::<Q3>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<Q3>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_q3(x0.get(), x1.get()); let () = r; logged();  }
    4 => { let mut x0 = own::<Q3>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_q3(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    5 => { let mut x0 = own::<Q3>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_q3(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    6 => { let mut x0 = own::<Q3>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_q3(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    7 => { let d = &d.fallible(); let mut x0 = own::<Q3>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_q3(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    8 => { let d = &d.fallible(); let mut x0 = own::<Q3>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_q3(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    9 => { let mut x0 = own::<D4>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<D4>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_d4(x0.get(), x1.get()); let () = r; logged();  }
    10 => { let mut x0 = own::<D4>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_d4(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    11 => { let mut x0 = own::<D4>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_d4(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    12 => { let mut x0 = own::<D4>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_d4(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    13 => { let d = &d.fallible(); let mut x0 = own::<D4>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_d4(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    14 => { let d = &d.fallible(); let mut x0 = own::<D4>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_d4(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    15 => { let mut x0 = own::<N>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<N>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_n(x0.get(), x1.get()); let () = r; logged();  }
    16 => { let mut x0 = own::<N>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_n(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    17 => { let mut x0 = own::<N>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_n(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    18 => { let mut x0 = own::<N>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_n(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    19 => { let d = &d.fallible(); let mut x0 = own::<N>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_n(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    20 => { let d = &d.fallible(); let mut x0 = own::<N>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_n(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    21 => { let mut x0 = own::<Ar>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<Ar>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_ar(x0.get(), x1.get()); let () = r; logged();  }
    22 => { let mut x0 = own::<Ar>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_ar(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    _ => { let mut x0 = own::<Ar>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_ar(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
} }) }
#[no_mangle] extern "C" fn h_16() { run(|d| { match choice(24, c"function") {
    0 => { let mut x0 = own::<Ar>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_ar(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    1 => { let d = &d.fallible(); let mut x0 = own::<Ar>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_ar(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    2 => { let d = &d.fallible(); let mut x0 = own::<Ar>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_ar(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    3 => { let mut x0 = own::<Nest>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<Nest>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_nest(x0.get(), x1.get()); let () = r; logged();  }
    4 => { let mut x0 = own::<Nest>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_nest(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    5 => { let mut x0 = own::<Nest>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_nest(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    6 => { let mut x0 = own::<Nest>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_nest(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    7 => { let d = &d.fallible(); let mut x0 = own::<Nest>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_nest(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    8 => { let d = &d.fallible(); let mut x0 = own::<Nest>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_nest(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    9 => { let mut x0 = own::<En>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<En>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_en(x0.get(), x1.get()); let () = r; logged();  }
    10 => { let mut x0 = own::<En>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_en(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    11 => { let mut x0 = own::<En>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_en(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    12 => { let mut x0 = own::<En>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_en(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    13 => { let d = &d.fallible(); let mut x0 = own::<En>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_en(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    14 => { let d = &d.fallible(); let mut x0 = own::<En>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_en(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    15 => { let mut x0 = own::<Ei16>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<Ei16>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_ei16(x0.get(), x1.get()); let () = r; logged();  }
    16 => { let mut x0 = own::<Ei16>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_ei16(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    17 => { let mut x0 = own::<Ei16>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_ei16(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    18 => { let mut x0 = own::<Ei16>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_ei16(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    19 => { let d = &d.fallible(); let mut x0 = own::<Ei16>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_ei16(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    20 => { let d = &d.fallible(); let mut x0 = own::<Ei16>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_ei16(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    21 => { let mut x0 = own::<Eu64>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<Eu64>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_eu64(x0.get(), x1.get()); let () = r; logged();  }
    22 => { let mut x0 = own::<Eu64>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_eu64(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    _ => { let mut x0 = own::<Eu64>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_eu64(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
} }) }
#[no_mangle] extern "C" fn h_17() { run(|d| { match choice(24, c"function") {
    0 => { let mut x0 = own::<Eu64>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_eu64(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    1 => { let d = &d.fallible(); let mut x0 = own::<Eu64>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_eu64(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    2 => { let d = &d.fallible(); let mut x0 = own::<Eu64>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_eu64(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    3 => { let mut x0 = own::<T1>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<T1>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_t1(x0.get(), x1.get()); let () = r; logged();  }
    4 => { let mut x0 = own::<T1>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_t1(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    5 => { let mut x0 = own::<T1>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_t1(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    6 => { let mut x0 = own::<T1>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_t1(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    7 => { let d = &d.fallible(); let mut x0 = own::<T1>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_t1(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    8 => { let d = &d.fallible(); let mut x0 = own::<T1>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_t1(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    9 => { let mut x0 = own::<T3>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<T3>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_t3(x0.get(), x1.get()); let () = r; logged();  }
    10 => { let mut x0 = own::<T3>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_t3(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    11 => { let mut x0 = own::<T3>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_t3(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    12 => { let mut x0 = own::<T3>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_t3(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    13 => { let d = &d.fallible(); let mut x0 = own::<T3>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_t3(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    14 => { let d = &d.fallible(); let mut x0 = own::<T3>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_t3(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    15 => { let mut x0 = own::<Tx>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<Tx>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_tx(x0.get(), x1.get()); let () = r; logged();  }
    16 => { let mut x0 = own::<Tx>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_tx(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    17 => { let mut x0 = own::<Tx>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_tx(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    18 => { let mut x0 = own::<Tx>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_tx(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    19 => { let d = &d.fallible(); let mut x0 = own::<Tx>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_tx(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    20 => { let d = &d.fallible(); let mut x0 = own::<Tx>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_tx(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    21 => { let mut x0 = own::<[u8; 5]>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<[u8; 5]>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_arr5(x0.get(), x1.get()); let () = r; logged();  }
    22 => { let mut x0 = own::<[u8; 5]>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_arr5(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    _ => { let mut x0 = own::<[u8; 5]>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_arr5(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
} }) }
#[no_mangle] extern "C" fn h_18() { run(|d| { match choice(24, c"function") {
    0 => { let mut x0 = own::<[u8; 5]>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_arr5(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    1 => { let d = &d.fallible(); let mut x0 = own::<[u8; 5]>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_arr5(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    2 => { let d = &d.fallible(); let mut x0 = own::<[u8; 5]>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_arr5(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    3 => { let mut x0 = own::<[String; 2]>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<[String; 2]>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_arrs(x0.get(), x1.get()); let () = r; logged();  }
    4 => { let mut x0 = own::<[String; 2]>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_arrs(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    5 => { let mut x0 = own::<[String; 2]>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_arrs(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    6 => { let mut x0 = own::<[String; 2]>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_arrs(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    7 => { let d = &d.fallible(); let mut x0 = own::<[String; 2]>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_arrs(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    8 => { let d = &d.fallible(); let mut x0 = own::<[String; 2]>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_arrs(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    9 => { let mut x0 = own::<R>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<R>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_r(x0.get(), x1.get()); let () = r; logged();  }
    10 => { let mut x0 = own::<R>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_r(x0.get_mut(), x1); let () = r; logged(); seen(x0.get(), d); }
    11 => { let mut x0 = own::<R>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_r(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    12 => { let mut x0 = own::<R>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_r(x0.get_mut()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    13 => { let d = &d.fallible(); let mut x0 = own::<R>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_r(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    14 => { let d = &d.fallible(); let mut x0 = own::<R>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_r(x0.get_mut()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    15 => { let mut x0 = own::<C>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<C>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_c(x0.get(), x1.get()); let () = r; logged();  }
    16 => { let mut x0 = own::<C>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_c(x0.pin(), x1); let () = r; logged(); seen(x0.get(), d); }
    17 => { let mut x0 = own::<C>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_c(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    18 => { let mut x0 = own::<C>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_c(x0.pin()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    19 => { let d = &d.fallible(); let mut x0 = own::<C>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_c(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    20 => { let d = &d.fallible(); let mut x0 = own::<C>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_c(x0.pin()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    21 => { let mut x0 = own::<CxxString>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<CxxString>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_cxxstring(x0.get(), x1.get()); let () = r; logged();  }
    22 => { let mut x0 = own::<CxxString>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_cxxstring(x0.pin(), x1); let () = r; logged(); seen(x0.get(), d); }
    _ => { let mut x0 = own::<CxxString>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_cxxstring(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
} }) }
#[no_mangle] extern "C" fn h_19() { run(|d| { match choice(24, c"function") {
    0 => { let mut x0 = own::<CxxString>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_cxxstring(x0.pin()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    1 => { let d = &d.fallible(); let mut x0 = own::<CxxString>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_cxxstring(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    2 => { let d = &d.fallible(); let mut x0 = own::<CxxString>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_cxxstring(x0.pin()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    3 => { let mut x0 = own::<CxxVector<u32>>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<CxxVector<u32>>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_cxxvector(x0.get(), x1.get()); let () = r; logged();  }
    4 => { let mut x0 = own::<CxxVector<u32>>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_cxxvector(x0.pin(), x1); let () = r; logged(); seen(x0.get(), d); }
    5 => { let mut x0 = own::<CxxVector<u32>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_cxxvector(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    6 => { let mut x0 = own::<CxxVector<u32>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_cxxvector(x0.pin()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    7 => { let d = &d.fallible(); let mut x0 = own::<CxxVector<u32>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_cxxvector(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    8 => { let d = &d.fallible(); let mut x0 = own::<CxxVector<u32>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_cxxvector(x0.pin()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    9 => { let mut x0 = own::<CxxVector<N>>(d, 0); expa(x0.addr()); exp(x0.get()); let mut x1 = own::<CxxVector<N>>(d, 1); expa(x1.addr()); exp(x1.get()); let r = ffi::r_cxxvectorn(x0.get(), x1.get()); let () = r; logged();  }
    10 => { let mut x0 = own::<CxxVector<N>>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<u16>(d, 1); exp(&x1); let r = ffi::m_cxxvectorn(x0.pin(), x1); let () = r; logged(); seen(x0.get(), d); }
    11 => { let mut x0 = own::<CxxVector<N>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::rr_cxxvectorn(x0.get()); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged();  }
    12 => { let mut x0 = own::<CxxVector<N>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); let r = ffi::mm_cxxvectorn(x0.pin()); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); logged(); seen(x0.get(), d); }
    13 => { let d = &d.fallible(); let mut x0 = own::<CxxVector<N>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tr_cxxvectorn(x0.get()) { Ok(r) => { check(!d.fail, c"ok"); check(r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    14 => { let d = &d.fallible(); let mut x0 = own::<CxxVector<N>>(d, 0); expa(x0.addr()); exp(x0.get()); let rp = x0.addr(); match ffi::tm_cxxvectorn(x0.pin()) { Ok(r) => { check(!d.fail, c"ok"); check(&*r as *const _ as *const u8 as usize == rp, c"returned-reference"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); }
    15 => { let mut x0 = vals::<u8>(d, 0); exp_slice(&x0); let x1 = val::<u32>(d, 1); exp(&x1); let mut x2 = vals::<u8>(d, 2); exp_slice(&x2); let r = ffi::s_u8(&x0, x1, &x2); let () = r; logged();  }
    16 => { let mut x0 = vals::<u8>(d, 0); exp_slice(&x0); let r = ffi::sm_u8(&mut x0); let () = r; logged(); seen_slice(&x0, d); }
    17 => { let mut x0 = vals::<u8>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); let r = ffi::ss_u8(&x0); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); logged();  }
    18 => { let mut x0 = vals::<u8>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); let r = ffi::sms_u8(&mut x0); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); logged(); seen_slice(&x0, d); }
    19 => { let d = &d.fallible(); let mut x0 = vals::<u8>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); match ffi::ts_u8(&x0) { Ok(r) => { check(!d.fail, c"ok"); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    20 => { let d = &d.fallible(); let mut x0 = vals::<u8>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); match ffi::tsm_u8(&mut x0) { Ok(r) => { check(!d.fail, c"ok"); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen_slice(&x0, d); }
    21 => { let mut x0 = vals::<f64>(d, 0); exp_slice(&x0); let x1 = val::<u32>(d, 1); exp(&x1); let mut x2 = vals::<f64>(d, 2); exp_slice(&x2); let r = ffi::s_f64(&x0, x1, &x2); let () = r; logged();  }
    22 => { let mut x0 = vals::<f64>(d, 0); exp_slice(&x0); let r = ffi::sm_f64(&mut x0); let () = r; logged(); seen_slice(&x0, d); }
    _ => { let mut x0 = vals::<f64>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); let r = ffi::ss_f64(&x0); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); logged();  }
} }) }
#[no_mangle] extern "C" fn h_20() { run(|d| { match choice(24, c"function") {
    0 => { let mut x0 = vals::<f64>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); let r = ffi::sms_f64(&mut x0); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); logged(); seen_slice(&x0, d); }
    1 => { let d = &d.fallible(); let mut x0 = vals::<f64>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); match ffi::ts_f64(&x0) { Ok(r) => { check(!d.fail, c"ok"); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    2 => { let d = &d.fallible(); let mut x0 = vals::<f64>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); match ffi::tsm_f64(&mut x0) { Ok(r) => { check(!d.fail, c"ok"); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen_slice(&x0, d); }
    3 => { let mut x0 = vals::<P2>(d, 0); exp_slice(&x0); let x1 = val::<u32>(d, 1); exp(&x1); let mut x2 = vals::<P2>(d, 2); exp_slice(&x2); let r = ffi::s_p2(&x0, x1, &x2); let () = r; logged();  }
    4 => { let mut x0 = vals::<P2>(d, 0); exp_slice(&x0); let r = ffi::sm_p2(&mut x0); let () = r; logged(); seen_slice(&x0, d); }
    5 => { let mut x0 = vals::<P2>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); let r = ffi::ss_p2(&x0); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); logged();  }
    6 => { let mut x0 = vals::<P2>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); let r = ffi::sms_p2(&mut x0); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); logged(); seen_slice(&x0, d); }
    7 => { let d = &d.fallible(); let mut x0 = vals::<P2>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); match ffi::ts_p2(&x0) { Ok(r) => { check(!d.fail, c"ok"); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    8 => { let d = &d.fallible(); let mut x0 = vals::<P2>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); match ffi::tsm_p2(&mut x0) { Ok(r) => { check(!d.fail, c"ok"); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen_slice(&x0, d); }
    9 => { let mut x0 = vals::<N>(d, 0); exp_slice(&x0); let x1 = val::<u32>(d, 1); exp(&x1); let mut x2 = vals::<N>(d, 2); exp_slice(&x2); let r = ffi::s_n(&x0, x1, &x2); let () = r; logged();  }
    10 => { let mut x0 = vals::<N>(d, 0); exp_slice(&x0); let r = ffi::sm_n(&mut x0); let () = r; logged(); seen_slice(&x0, d); }
    11 => { let mut x0 = vals::<N>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); let r = ffi::ss_n(&x0); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); logged();  }
    12 => { let mut x0 = vals::<N>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); let r = ffi::sms_n(&mut x0); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); logged(); seen_slice(&x0, d); }
    13 => { let d = &d.fallible(); let mut x0 = vals::<N>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); match ffi::ts_n(&x0) { Ok(r) => { check(!d.fail, c"ok"); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    14 => { let d = &d.fallible(); let mut x0 = vals::<N>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); match ffi::tsm_n(&mut x0) { Ok(r) => { check(!d.fail, c"ok"); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen_slice(&x0, d); }
    15 => { let mut x0 = vals::<String>(d, 0); exp_slice(&x0); let x1 = val::<u32>(d, 1); exp(&x1); let mut x2 = vals::<String>(d, 2); exp_slice(&x2); let r = ffi::s_string(&x0, x1, &x2); let () = r; logged();  }
    16 => { let mut x0 = vals::<String>(d, 0); exp_slice(&x0); let r = ffi::sm_string(&mut x0); let () = r; logged(); seen_slice(&x0, d); }
    17 => { let mut x0 = vals::<String>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); let r = ffi::ss_string(&x0); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); logged();  }
    18 => { let mut x0 = vals::<String>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); let r = ffi::sms_string(&mut x0); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); logged(); seen_slice(&x0, d); }
    19 => { let d = &d.fallible(); let mut x0 = vals::<String>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); match ffi::ts_string(&x0) { Ok(r) => { check(!d.fail, c"ok"); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    20 => { let d = &d.fallible(); let mut x0 = vals::<String>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); match ffi::tsm_string(&mut x0) { Ok(r) => { check(!d.fail, c"ok"); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen_slice(&x0, d); }
    21 => { let mut x0 = vals::<R>(d, 0); exp_slice(&x0); let x1 = val::<u32>(d, 1); exp(&x1); let mut x2 = vals::<R>(d, 2); exp_slice(&x2); let r = ffi::s_r(&x0, x1, &x2); let () = r; logged();  }
    22 => { let mut x0 = vals::<R>(d, 0); exp_slice(&x0); let r = ffi::sm_r(&mut x0); let () = r; logged(); seen_slice(&x0, d); }
    _ => { let mut x0 = vals::<R>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); let r = ffi::ss_r(&x0); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); logged();  }
} }) }
#[no_mangle] extern "C" fn h_21() { run(|d| { match choice(24, c"function") {
    0 => { let mut x0 = vals::<R>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); let r = ffi::sms_r(&mut x0); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); logged(); seen_slice(&x0, d); }
    1 => { let d = &d.fallible(); let mut x0 = vals::<R>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); match ffi::ts_r(&x0) { Ok(r) => { check(!d.fail, c"ok"); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    2 => { let d = &d.fallible(); let mut x0 = vals::<R>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); match ffi::tsm_r(&mut x0) { Ok(r) => { check(!d.fail, c"ok"); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen_slice(&x0, d); }
    3 => { let mut x0 = vals::<UniquePtr<C>>(d, 0); exp_slice(&x0); let x1 = val::<u32>(d, 1); exp(&x1); let mut x2 = vals::<UniquePtr<C>>(d, 2); exp_slice(&x2); let r = ffi::s_uobj(&x0, x1, &x2); let () = r; logged();  }
    4 => { let mut x0 = vals::<UniquePtr<C>>(d, 0); exp_slice(&x0); let r = ffi::sm_uobj(&mut x0); let () = r; logged(); seen_slice(&x0, d); }
    5 => { let mut x0 = vals::<UniquePtr<C>>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); let r = ffi::ss_uobj(&x0); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); logged();  }
    6 => { let mut x0 = vals::<UniquePtr<C>>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); let r = ffi::sms_uobj(&mut x0); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); logged(); seen_slice(&x0, d); }
    7 => { let d = &d.fallible(); let mut x0 = vals::<UniquePtr<C>>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); match ffi::ts_uobj(&x0) { Ok(r) => { check(!d.fail, c"ok"); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    8 => { let d = &d.fallible(); let mut x0 = vals::<UniquePtr<C>>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); match ffi::tsm_uobj(&mut x0) { Ok(r) => { check(!d.fail, c"ok"); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen_slice(&x0, d); }
    9 => { let mut x0 = vals::<En>(d, 0); exp_slice(&x0); let x1 = val::<u32>(d, 1); exp(&x1); let mut x2 = vals::<En>(d, 2); exp_slice(&x2); let r = ffi::s_en(&x0, x1, &x2); let () = r; logged();  }
    10 => { let mut x0 = vals::<En>(d, 0); exp_slice(&x0); let r = ffi::sm_en(&mut x0); let () = r; logged(); seen_slice(&x0, d); }
    11 => { let mut x0 = vals::<En>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); let r = ffi::ss_en(&x0); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); logged();  }
    12 => { let mut x0 = vals::<En>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); let r = ffi::sms_en(&mut x0); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); logged(); seen_slice(&x0, d); }
    13 => { let d = &d.fallible(); let mut x0 = vals::<En>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); match ffi::ts_en(&x0) { Ok(r) => { check(!d.fail, c"ok"); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    14 => { let d = &d.fallible(); let mut x0 = vals::<En>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); match ffi::tsm_en(&mut x0) { Ok(r) => { check(!d.fail, c"ok"); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen_slice(&x0, d); }
    15 => { let mut x0 = vals::<T3>(d, 0); exp_slice(&x0); let x1 = val::<u32>(d, 1); exp(&x1); let mut x2 = vals::<T3>(d, 2); exp_slice(&x2); let r = ffi::s_t3(&x0, x1, &x2); let () = r; logged();  }
    16 => { let mut x0 = vals::<T3>(d, 0); exp_slice(&x0); let r = ffi::sm_t3(&mut x0); let () = r; logged(); seen_slice(&x0, d); }
    17 => { let mut x0 = vals::<T3>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); let r = ffi::ss_t3(&x0); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); logged();  }
    18 => { let mut x0 = vals::<T3>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); let r = ffi::sms_t3(&mut x0); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); logged(); seen_slice(&x0, d); }
    19 => { let d = &d.fallible(); let mut x0 = vals::<T3>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); match ffi::ts_t3(&x0) { Ok(r) => { check(!d.fail, c"ok"); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    20 => { let d = &d.fallible(); let mut x0 = vals::<T3>(d, 0); exp_slice(&x0); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); match ffi::tsm_t3(&mut x0) { Ok(r) => { check(!d.fail, c"ok"); check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c"returned-slice"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen_slice(&x0, d); }
    21 => { let x0 = val::<u64>(d, 0) as usize as *const u8; expa(x0 as usize); let x1 = val::<u64>(d, 1) as usize as *mut u8; expa(x1 as usize); let r = unsafe { ffi::p_u8(x0, x1) }; check(r == x0, c"returned-pointer"); logged();  }
    22 => { let x0 = val::<u64>(d, 0) as usize as *mut u8; expa(x0 as usize); let x1 = val::<u64>(d, 1) as usize as *const u8; expa(x1 as usize); let r = unsafe { ffi::pm_u8(x0, x1) }; check(r == x0, c"returned-pointer"); logged();  }
    _ => { let d = &d.fallible(); let x0 = val::<u64>(d, 0) as usize as *const u8; expa(x0 as usize); match unsafe { ffi::tp_u8(x0) } { Ok(r) => { check(!d.fail, c"ok"); check(r == x0, c"returned-pointer"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
} }) }
#[no_mangle] extern "C" fn h_22() { run(|d| { match choice(24, c"function") {
    0 => { let d = &d.fallible(); let x0 = val::<u64>(d, 0) as usize as *mut u8; expa(x0 as usize); match unsafe { ffi::tpm_u8(x0) } { Ok(r) => { check(!d.fail, c"ok"); check(r == x0, c"returned-pointer"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    1 => { let x0 = val::<u64>(d, 0) as usize as *const P2; expa(x0 as usize); let x1 = val::<u64>(d, 1) as usize as *mut P2; expa(x1 as usize); let r = unsafe { ffi::p_p2(x0, x1) }; check(r == x0, c"returned-pointer"); logged();  }
    2 => { let x0 = val::<u64>(d, 0) as usize as *mut P2; expa(x0 as usize); let x1 = val::<u64>(d, 1) as usize as *const P2; expa(x1 as usize); let r = unsafe { ffi::pm_p2(x0, x1) }; check(r == x0, c"returned-pointer"); logged();  }
    3 => { let d = &d.fallible(); let x0 = val::<u64>(d, 0) as usize as *const P2; expa(x0 as usize); match unsafe { ffi::tp_p2(x0) } { Ok(r) => { check(!d.fail, c"ok"); check(r == x0, c"returned-pointer"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    4 => { let d = &d.fallible(); let x0 = val::<u64>(d, 0) as usize as *mut P2; expa(x0 as usize); match unsafe { ffi::tpm_p2(x0) } { Ok(r) => { check(!d.fail, c"ok"); check(r == x0, c"returned-pointer"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    5 => { let x0 = val::<u64>(d, 0) as usize as *const N; expa(x0 as usize); let x1 = val::<u64>(d, 1) as usize as *mut N; expa(x1 as usize); let r = unsafe { ffi::p_n(x0, x1) }; check(r == x0, c"returned-pointer"); logged();  }
    6 => { let x0 = val::<u64>(d, 0) as usize as *mut N; expa(x0 as usize); let x1 = val::<u64>(d, 1) as usize as *const N; expa(x1 as usize); let r = unsafe { ffi::pm_n(x0, x1) }; check(r == x0, c"returned-pointer"); logged();  }
    7 => { let d = &d.fallible(); let x0 = val::<u64>(d, 0) as usize as *const N; expa(x0 as usize); match unsafe { ffi::tp_n(x0) } { Ok(r) => { check(!d.fail, c"ok"); check(r == x0, c"returned-pointer"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    8 => { let d = &d.fallible(); let x0 = val::<u64>(d, 0) as usize as *mut N; expa(x0 as usize); match unsafe { ffi::tpm_n(x0) } { Ok(r) => { check(!d.fail, c"ok"); check(r == x0, c"returned-pointer"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    9 => { let x0 = val::<u64>(d, 0) as usize as *const C; expa(x0 as usize); let x1 = val::<u64>(d, 1) as usize as *mut C; expa(x1 as usize); let r = unsafe { ffi::p_c(x0, x1) }; check(r == x0, c"returned-pointer"); logged();  }
    10 => { let x0 = val::<u64>(d, 0) as usize as *mut C; expa(x0 as usize); let x1 = val::<u64>(d, 1) as usize as *const C; expa(x1 as usize); let r = unsafe { ffi::pm_c(x0, x1) }; check(r == x0, c"returned-pointer"); logged();  }
    11 => { let d = &d.fallible(); let x0 = val::<u64>(d, 0) as usize as *const C; expa(x0 as usize); match unsafe { ffi::tp_c(x0) } { Ok(r) => { check(!d.fail, c"ok"); check(r == x0, c"returned-pointer"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    12 => { let d = &d.fallible(); let x0 = val::<u64>(d, 0) as usize as *mut C; expa(x0 as usize); match unsafe { ffi::tpm_c(x0) } { Ok(r) => { check(!d.fail, c"ok"); check(r == x0, c"returned-pointer"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    13 => { let x0 = val::<u64>(d, 0) as usize as *const R; expa(x0 as usize); let x1 = val::<u64>(d, 1) as usize as *mut R; expa(x1 as usize); let r = unsafe { ffi::p_r(x0, x1) }; check(r == x0, c"returned-pointer"); logged();  }
    14 => { let x0 = val::<u64>(d, 0) as usize as *mut R; expa(x0 as usize); let x1 = val::<u64>(d, 1) as usize as *const R; expa(x1 as usize); let r = unsafe { ffi::pm_r(x0, x1) }; check(r == x0, c"returned-pointer"); logged();  }
    15 => { let d = &d.fallible(); let x0 = val::<u64>(d, 0) as usize as *const R; expa(x0 as usize); match unsafe { ffi::tp_r(x0) } { Ok(r) => { check(!d.fail, c"ok"); check(r == x0, c"returned-pointer"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    16 => { let d = &d.fallible(); let x0 = val::<u64>(d, 0) as usize as *mut R; expa(x0 as usize); match unsafe { ffi::tpm_r(x0) } { Ok(r) => { check(!d.fail, c"ok"); check(r == x0, c"returned-pointer"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    17 => { let x0 = val::<u64>(d, 0) as usize as *const String; expa(x0 as usize); let x1 = val::<u64>(d, 1) as usize as *mut String; expa(x1 as usize); let r = unsafe { ffi::p_string(x0, x1) }; check(r == x0, c"returned-pointer"); logged();  }
    18 => { let x0 = val::<u64>(d, 0) as usize as *mut String; expa(x0 as usize); let x1 = val::<u64>(d, 1) as usize as *const String; expa(x1 as usize); let r = unsafe { ffi::pm_string(x0, x1) }; check(r == x0, c"returned-pointer"); logged();  }
    19 => { let d = &d.fallible(); let x0 = val::<u64>(d, 0) as usize as *const String; expa(x0 as usize); match unsafe { ffi::tp_string(x0) } { Ok(r) => { check(!d.fail, c"ok"); check(r == x0, c"returned-pointer"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    20 => { let d = &d.fallible(); let x0 = val::<u64>(d, 0) as usize as *mut String; expa(x0 as usize); match unsafe { ffi::tpm_string(x0) } { Ok(r) => { check(!d.fail, c"ok"); check(r == x0, c"returned-pointer"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    21 => { let x0 = val::<u64>(d, 0) as usize as *const Vec<u8>; expa(x0 as usize); let x1 = val::<u64>(d, 1) as usize as *mut Vec<u8>; expa(x1 as usize); let r = unsafe { ffi::p_vu8(x0, x1) }; check(r == x0, c"returned-pointer"); logged();  }
    22 => { let x0 = val::<u64>(d, 0) as usize as *mut Vec<u8>; expa(x0 as usize); let x1 = val::<u64>(d, 1) as usize as *const Vec<u8>; expa(x1 as usize); let r = unsafe { ffi::pm_vu8(x0, x1) }; check(r == x0, c"returned-pointer"); logged();  }
    _ => { let d = &d.fallible(); let x0 = val::<u64>(d, 0) as usize as *const Vec<u8>; expa(x0 as usize); match unsafe { ffi::tp_vu8(x0) } { Ok(r) => { check(!d.fail, c"ok"); check(r == x0, c"returned-pointer"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
} }) }
#[no_mangle] extern "C" fn h_23() { run(|d| { match choice(24, c"function") {
    0 => { let d = &d.fallible(); let x0 = val::<u64>(d, 0) as usize as *mut Vec<u8>; expa(x0 as usize); match unsafe { ffi::tpm_vu8(x0) } { Ok(r) => { check(!d.fail, c"ok"); check(r == x0, c"returned-pointer"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    1 => { let x0 = val::<String>(d, 0); exp_slice(x0.as_bytes()); let x1 = val::<bool>(d, 1); exp(&x1); let x2 = val::<String>(d, 2); exp_slice(x2.as_bytes()); let r = ffi::st(&x0, x1, &x2); let () = r; logged();  }
    2 => { let x0 = val::<String>(d, 0); exp_slice(x0.as_bytes()); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); let r = ffi::sst(&x0); check(r.as_ptr() as usize == rp + (rl != 0) as usize && r.len() == rl - (rl != 0) as usize, c"returned-str"); logged();  }
    3 => { let d = &d.fallible(); let x0 = val::<String>(d, 0); exp_slice(x0.as_bytes()); let (rp, rl) = (x0.as_ptr() as usize, x0.len()); match ffi::tst(&x0) { Ok(r) => { check(!d.fail, c"ok"); check(r.as_ptr() as usize == rp + (rl != 0) as usize && r.len() == rl - (rl != 0) as usize, c"returned-str"); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    4 => {  let r = ffi::u(); let () = r; logged();  }
    5 => { let d = &d.fallible(); match ffi::tu() { Ok(r) => { check(!d.fail, c"ok"); let () = r; } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    6 => { let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<String>(d, 1); exp(&x1); let x2 = val::<f32>(d, 2); exp(&x2); let x3 = val::<P2>(d, 3); exp(&x3); let x4 = val::<UniquePtr<C>>(d, 4); exp(&x4); let x5 = val::<u64>(d, 5); exp(&x5); let x6 = val::<Vec<String>>(d, 6); exp(&x6); let x7 = val::<f64>(d, 7); exp(&x7); let x8 = val::<En>(d, 8); exp(&x8); let x9 = val::<N>(d, 9); exp(&x9); let x10 = val::<i16>(d, 10); exp(&x10); let x11 = val::<Q3>(d, 11); exp(&x11); let r = ffi::mix0(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11); same(&r, d); logged();  }
    7 => { let d = &d.fallible(); let x0 = val::<u8>(d, 0); exp(&x0); let x1 = val::<String>(d, 1); exp(&x1); let x2 = val::<f32>(d, 2); exp(&x2); let x3 = val::<P2>(d, 3); exp(&x3); let x4 = val::<UniquePtr<C>>(d, 4); exp(&x4); let x5 = val::<u64>(d, 5); exp(&x5); let x6 = val::<Vec<String>>(d, 6); exp(&x6); let x7 = val::<f64>(d, 7); exp(&x7); let x8 = val::<En>(d, 8); exp(&x8); let x9 = val::<N>(d, 9); exp(&x9); let x10 = val::<i16>(d, 10); exp(&x10); let x11 = val::<Q3>(d, 11); exp(&x11); match ffi::tmix0(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    8 => { let x0 = val::<f64>(d, 0); exp(&x0); let x1 = val::<f64>(d, 1); exp(&x1); let x2 = val::<f64>(d, 2); exp(&x2); let x3 = val::<f64>(d, 3); exp(&x3); let x4 = val::<f64>(d, 4); exp(&x4); let x5 = val::<f64>(d, 5); exp(&x5); let x6 = val::<f64>(d, 6); exp(&x6); let x7 = val::<f64>(d, 7); exp(&x7); let x8 = val::<f64>(d, 8); exp(&x8); let x9 = val::<f64>(d, 9); exp(&x9); let r = ffi::mix1(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9); same(&r, d); logged();  }
    9 => { let d = &d.fallible(); let x0 = val::<f64>(d, 0); exp(&x0); let x1 = val::<f64>(d, 1); exp(&x1); let x2 = val::<f64>(d, 2); exp(&x2); let x3 = val::<f64>(d, 3); exp(&x3); let x4 = val::<f64>(d, 4); exp(&x4); let x5 = val::<f64>(d, 5); exp(&x5); let x6 = val::<f64>(d, 6); exp(&x6); let x7 = val::<f64>(d, 7); exp(&x7); let x8 = val::<f64>(d, 8); exp(&x8); let x9 = val::<f64>(d, 9); exp(&x9); match ffi::tmix1(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    10 => { let x0 = val::<u64>(d, 0); exp(&x0); let x1 = val::<u64>(d, 1); exp(&x1); let x2 = val::<u64>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let x4 = val::<u64>(d, 4); exp(&x4); let x5 = val::<u64>(d, 5); exp(&x5); let x6 = val::<u64>(d, 6); exp(&x6); let x7 = val::<u64>(d, 7); exp(&x7); let x8 = val::<u64>(d, 8); exp(&x8); let r = ffi::mix2(x0, x1, x2, x3, x4, x5, x6, x7, x8); same(&r, d); logged();  }
    11 => { let d = &d.fallible(); let x0 = val::<u64>(d, 0); exp(&x0); let x1 = val::<u64>(d, 1); exp(&x1); let x2 = val::<u64>(d, 2); exp(&x2); let x3 = val::<u64>(d, 3); exp(&x3); let x4 = val::<u64>(d, 4); exp(&x4); let x5 = val::<u64>(d, 5); exp(&x5); let x6 = val::<u64>(d, 6); exp(&x6); let x7 = val::<u64>(d, 7); exp(&x7); let x8 = val::<u64>(d, 8); exp(&x8); match ffi::tmix2(x0, x1, x2, x3, x4, x5, x6, x7, x8) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    12 => { let x0 = val::<bool>(d, 0); exp(&x0); let x1 = val::<u8>(d, 1); exp(&x1); let x2 = val::<bool>(d, 2); exp(&x2); let x3 = val::<i8>(d, 3); exp(&x3); let x4 = val::<c_char>(d, 4); exp(&x4); let x5 = val::<u16>(d, 5); exp(&x5); let x6 = val::<i16>(d, 6); exp(&x6); let x7 = val::<bool>(d, 7); exp(&x7); let r = ffi::mix3(x0, x1, x2, x3, x4, x5, x6, x7); same(&r, d); logged();  }
    13 => { let d = &d.fallible(); let x0 = val::<bool>(d, 0); exp(&x0); let x1 = val::<u8>(d, 1); exp(&x1); let x2 = val::<bool>(d, 2); exp(&x2); let x3 = val::<i8>(d, 3); exp(&x3); let x4 = val::<c_char>(d, 4); exp(&x4); let x5 = val::<u16>(d, 5); exp(&x5); let x6 = val::<i16>(d, 6); exp(&x6); let x7 = val::<bool>(d, 7); exp(&x7); match ffi::tmix3(x0, x1, x2, x3, x4, x5, x6, x7) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    14 => { let x0 = val::<F2>(d, 0); exp(&x0); let x1 = val::<FI>(d, 1); exp(&x1); let x2 = val::<Q2>(d, 2); exp(&x2); let x3 = val::<D4>(d, 3); exp(&x3); let x4 = val::<P1>(d, 4); exp(&x4); let x5 = val::<f32>(d, 5); exp(&x5); let x6 = val::<Q2>(d, 6); exp(&x6); let x7 = val::<Q2>(d, 7); exp(&x7); let x8 = val::<u8>(d, 8); exp(&x8); let r = ffi::mix4(x0, x1, x2, x3, x4, x5, x6, x7, x8); same(&r, d); logged();  }
    15 => { let d = &d.fallible(); let x0 = val::<F2>(d, 0); exp(&x0); let x1 = val::<FI>(d, 1); exp(&x1); let x2 = val::<Q2>(d, 2); exp(&x2); let x3 = val::<D4>(d, 3); exp(&x3); let x4 = val::<P1>(d, 4); exp(&x4); let x5 = val::<f32>(d, 5); exp(&x5); let x6 = val::<Q2>(d, 6); exp(&x6); let x7 = val::<Q2>(d, 7); exp(&x7); let x8 = val::<u8>(d, 8); exp(&x8); match ffi::tmix4(x0, x1, x2, x3, x4, x5, x6, x7, x8) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    16 => { let x0 = val::<N>(d, 0); exp(&x0); let x1 = val::<N>(d, 1); exp(&x1); let x2 = val::<String>(d, 2); exp(&x2); let x3 = val::<String>(d, 3); exp(&x3); let x4 = val::<Box<R>>(d, 4); exp(&x4); let x5 = val::<Box<R>>(d, 5); exp(&x5); let x6 = val::<SharedPtr<C>>(d, 6); exp(&x6); let x7 = val::<WeakPtr<C>>(d, 7); exp(&x7); let r = ffi::mix5(x0, x1, x2, x3, x4, x5, x6, x7); same(&r, d); logged();  }
    17 => { let d = &d.fallible(); let x0 = val::<N>(d, 0); exp(&x0); let x1 = val::<N>(d, 1); exp(&x1); let x2 = val::<String>(d, 2); exp(&x2); let x3 = val::<String>(d, 3); exp(&x3); let x4 = val::<Box<R>>(d, 4); exp(&x4); let x5 = val::<Box<R>>(d, 5); exp(&x5); let x6 = val::<SharedPtr<C>>(d, 6); exp(&x6); let x7 = val::<WeakPtr<C>>(d, 7); exp(&x7); match ffi::tmix5(x0, x1, x2, x3, x4, x5, x6, x7) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    18 => { let x0 = val::<T1>(d, 0); exp(&x0); let x1 = val::<T3>(d, 1); exp(&x1); let x2 = val::<Tx>(d, 2); exp(&x2); let x3 = val::<T1>(d, 3); exp(&x3); let x4 = val::<u32>(d, 4); exp(&x4); let x5 = val::<T3>(d, 5); exp(&x5); let r = ffi::mix6(x0, x1, x2, x3, x4, x5); same(&r, d); logged();  }
    19 => { let d = &d.fallible(); let x0 = val::<T1>(d, 0); exp(&x0); let x1 = val::<T3>(d, 1); exp(&x1); let x2 = val::<Tx>(d, 2); exp(&x2); let x3 = val::<T1>(d, 3); exp(&x3); let x4 = val::<u32>(d, 4); exp(&x4); let x5 = val::<T3>(d, 5); exp(&x5); match ffi::tmix6(x0, x1, x2, x3, x4, x5) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    20 => { let mut x0 = own::<N>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<N>(d, 1); exp(&x1); let mut x2 = own::<String>(d, 2); expa(x2.addr()); exp(x2.get()); let x3 = val::<String>(d, 3); exp_slice(x3.as_bytes()); let mut x4 = vals::<u8>(d, 4); exp_slice(&x4); let mut x5 = own::<C>(d, 5); expa(x5.addr()); exp(x5.get()); let x6 = val::<UniquePtr<C>>(d, 6); exp(&x6); let r = ffi::mixr(x0.get(), x1, x2.get_mut(), &x3, &x4, x5.pin(), x6); same(&r, d); logged(); seen(x2.get(), d); seen(x5.get(), d); }
    21 => { let d = &d.fallible(); let mut x0 = own::<N>(d, 0); expa(x0.addr()); exp(x0.get()); let x1 = val::<String>(d, 1); exp_slice(x1.as_bytes()); let x2 = val::<String>(d, 2); exp(&x2); let mut x3 = own::<String>(d, 3); expa(x3.addr()); exp(x3.get()); let mut x4 = vals::<P2>(d, 4); exp_slice(&x4); match ffi::tmixr(x0.get_mut(), &x1, x2, x3.get(), &mut x4) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(x0.get(), d); seen_slice(&x4, d); }
    22 => { let mut s = own::<C>(d, 7); expa(s.addr());  let x0 = val::<u32>(d, 0); exp(&x0); let r = s.get().q0_c(x0); same(&r, d); logged();  }
    _ => { let mut s = own::<C>(d, 7); expa(s.addr());  let x0 = val::<String>(d, 0); exp(&x0); let x1 = val::<N>(d, 1); exp(&x1); let r = s.get().q1_c(x0, x1); same(&r, d); logged();  }
} }) }
#[no_mangle] extern "C" fn h_24() { run(|d| { match choice(24, c"function") {
    0 => { let mut s = own::<C>(d, 7); expa(s.addr());  let x0 = val::<String>(d, 0); exp_slice(x0.as_bytes()); let mut x1 = own::<N>(d, 1); expa(x1.addr()); exp(x1.get()); let r = s.get().q2_c(&x0, x1.get()); let () = r; logged();  }
    1 => { let d = &d.fallible(); let mut s = own::<C>(d, 7); expa(s.addr());  let x0 = val::<f64>(d, 0); exp(&x0); let x1 = val::<F2>(d, 1); exp(&x1); match s.get().q3_c(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    2 => { let d = &d.fallible(); let mut s = own::<C>(d, 7); expa(s.addr());  let x0 = val::<Box<R>>(d, 0); exp(&x0); match s.get().q4_c(x0) { Ok(r) => { check(!d.fail, c"ok"); let () = r; } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    3 => { let mut s = own::<C>(d, 7); expa(s.addr());  let r = s.get().q5_c(); same(&r, d); logged();  }
    4 => { let mut s = own::<C>(d, 7); expa(s.addr());  let x0 = val::<Q2>(d, 0); exp(&x0); let x1 = val::<Q3>(d, 1); exp(&x1); let r = s.get().q6_c(x0, x1); same(&r, d); logged();  }
    5 => { let mut s = own::<C>(d, 7); expa(s.addr());  let x0 = val::<u32>(d, 0); exp(&x0); let r = s.pin().q0_cm(x0); same(&r, d); logged(); seen(s.get(), d); }
    6 => { let mut s = own::<C>(d, 7); expa(s.addr());  let x0 = val::<String>(d, 0); exp(&x0); let x1 = val::<N>(d, 1); exp(&x1); let r = s.pin().q1_cm(x0, x1); same(&r, d); logged(); seen(s.get(), d); }
    7 => { let mut s = own::<C>(d, 7); expa(s.addr());  let x0 = val::<String>(d, 0); exp_slice(x0.as_bytes()); let mut x1 = own::<N>(d, 1); expa(x1.addr()); exp(x1.get()); let r = s.pin().q2_cm(&x0, x1.get()); let () = r; logged(); seen(s.get(), d); }
    8 => { let d = &d.fallible(); let mut s = own::<C>(d, 7); expa(s.addr());  let x0 = val::<f64>(d, 0); exp(&x0); let x1 = val::<F2>(d, 1); exp(&x1); match s.pin().q3_cm(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(s.get(), d); }
    9 => { let d = &d.fallible(); let mut s = own::<C>(d, 7); expa(s.addr());  let x0 = val::<Box<R>>(d, 0); exp(&x0); match s.pin().q4_cm(x0) { Ok(r) => { check(!d.fail, c"ok"); let () = r; } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(s.get(), d); }
    10 => { let mut s = own::<C>(d, 7); expa(s.addr());  let r = s.pin().q5_cm(); same(&r, d); logged(); seen(s.get(), d); }
    11 => { let mut s = own::<C>(d, 7); expa(s.addr());  let x0 = val::<Q2>(d, 0); exp(&x0); let x1 = val::<Q3>(d, 1); exp(&x1); let r = s.pin().q6_cm(x0, x1); same(&r, d); logged(); seen(s.get(), d); }
    12 => { let mut s = own::<P2>(d, 7); expa(s.addr()); exp(s.get()); let x0 = val::<u32>(d, 0); exp(&x0); let r = s.get().q0_p2(x0); same(&r, d); logged();  }
    13 => { let mut s = own::<P2>(d, 7); expa(s.addr()); exp(s.get()); let x0 = val::<String>(d, 0); exp(&x0); let x1 = val::<N>(d, 1); exp(&x1); let r = s.get().q1_p2(x0, x1); same(&r, d); logged();  }
    14 => { let mut s = own::<P2>(d, 7); expa(s.addr()); exp(s.get()); let x0 = val::<String>(d, 0); exp_slice(x0.as_bytes()); let mut x1 = own::<N>(d, 1); expa(x1.addr()); exp(x1.get()); let r = s.get().q2_p2(&x0, x1.get()); let () = r; logged();  }
    15 => { let d = &d.fallible(); let mut s = own::<P2>(d, 7); expa(s.addr()); exp(s.get()); let x0 = val::<f64>(d, 0); exp(&x0); let x1 = val::<F2>(d, 1); exp(&x1); match s.get().q3_p2(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    16 => { let d = &d.fallible(); let mut s = own::<P2>(d, 7); expa(s.addr()); exp(s.get()); let x0 = val::<Box<R>>(d, 0); exp(&x0); match s.get().q4_p2(x0) { Ok(r) => { check(!d.fail, c"ok"); let () = r; } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged();  }
    17 => { let mut s = own::<P2>(d, 7); expa(s.addr()); exp(s.get()); let r = s.get().q5_p2(); same(&r, d); logged();  }
    18 => { let mut s = own::<P2>(d, 7); expa(s.addr()); exp(s.get()); let x0 = val::<Q2>(d, 0); exp(&x0); let x1 = val::<Q3>(d, 1); exp(&x1); let r = s.get().q6_p2(x0, x1); same(&r, d); logged();  }
    19 => { let mut s = own::<P2>(d, 7); expa(s.addr()); exp(s.get()); let x0 = val::<u32>(d, 0); exp(&x0); let r = s.get_mut().q0_p2m(x0); same(&r, d); logged(); seen(s.get(), d); }
    20 => { let mut s = own::<P2>(d, 7); expa(s.addr()); exp(s.get()); let x0 = val::<String>(d, 0); exp(&x0); let x1 = val::<N>(d, 1); exp(&x1); let r = s.get_mut().q1_p2m(x0, x1); same(&r, d); logged(); seen(s.get(), d); }
    21 => { let mut s = own::<P2>(d, 7); expa(s.addr()); exp(s.get()); let x0 = val::<String>(d, 0); exp_slice(x0.as_bytes()); let mut x1 = own::<N>(d, 1); expa(x1.addr()); exp(x1.get()); let r = s.get_mut().q2_p2m(&x0, x1.get()); let () = r; logged(); seen(s.get(), d); }
    22 => { let d = &d.fallible(); let mut s = own::<P2>(d, 7); expa(s.addr()); exp(s.get()); let x0 = val::<f64>(d, 0); exp(&x0); let x1 = val::<F2>(d, 1); exp(&x1); match s.get_mut().q3_p2m(x0, x1) { Ok(r) => { check(!d.fail, c"ok"); same(&r, d); } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(s.get(), d); }
    _ => { let d = &d.fallible(); let mut s = own::<P2>(d, 7); expa(s.addr()); exp(s.get()); let x0 = val::<Box<R>>(d, 0); exp(&x0); match s.get_mut().q4_p2m(x0) { Ok(r) => { check(!d.fail, c"ok"); let () = r; } Err(e) => { check(d.fail && e.what() == "Bad", c"err"); } } logged(); seen(s.get(), d); }
} }) }
#[no_mangle] extern "C" fn h_25() { run(|d| { match choice(2, c"function") {
    0 => { let mut s = own::<P2>(d, 7); expa(s.addr()); exp(s.get()); let r = s.get_mut().q5_p2m(); same(&r, d); logged(); seen(s.get(), d); }
    _ => { let mut s = own::<P2>(d, 7); expa(s.addr()); exp(s.get()); let x0 = val::<Q2>(d, 0); exp(&x0); let x1 = val::<Q3>(d, 1); exp(&x1); let r = s.get_mut().q6_p2m(x0, x1); same(&r, d); logged(); seen(s.get(), d); }
} }) }
