pub use cxx;
use core::fmt;
use cxx::{CxxString, SharedPtr, UniquePtr};
#[path = "../../common/sym.rs"]
mod sym;
/// An error whose text is written in several pieces.
pub struct Er(Vec<u8>, u8);
impl fmt::Display for Er {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let s = core::str::from_utf8(&self.0).unwrap();
        match self.1 { 0 => f.write_str(s), 1 => { for c in s.chars() { write!(f, "{}", c)?; } Ok(()) } _ => write!(f, "{}", s) }
    }
}
fn r<T>(ok: bool, msg: &[u8], how: u8, t: impl FnOnce() -> T) -> Result<T, Er> { if ok { Ok(t()) } else { Err(Er(msg.to_vec(), how)) } }
pub struct Op(u32, Box<u8>);
impl Op { fn get(&self) -> u32 { self.0 } fn m(&self, ok: bool, msg: &[u8]) -> Result<&u32, Er> { r(ok, msg, 0, || &self.0) } fn mm(&mut self, ok: bool, msg: &[u8], v: u32) -> Result<&mut u32, Er> { if ok { self.0 = v } ; if ok { Ok(&mut self.0) } else { Err(Er(msg.to_vec(), 0)) } } }
fn f_unit(ok: bool, m: &[u8], how: u8) -> Result<(), Er> { r(ok, m, how, || ()) }
fn f_u8(ok: bool, m: &[u8], v: u8) -> Result<u8, Er> { r(ok, m, 0, || v) }
fn f_u64(ok: bool, m: &[u8], v: u64) -> Result<u64, Er> { r(ok, m, 1, || v) }
fn f_bool(ok: bool, m: &[u8], v: bool) -> Result<bool, Er> { r(ok, m, 0, || v) }
fn f_f64(ok: bool, m: &[u8], v: f64) -> Result<f64, Er> { r(ok, m, 0, || v) }
fn f_string(ok: bool, m: &[u8], v: u8) -> Result<String, Er> { r(ok, m, 2, || String::from_utf8(vec![v & 0x7f, b'x']).unwrap()) }
fn f_str<'a>(ok: bool, m: &[u8], v: &'a str) -> Result<&'a str, Er> { r(ok, m, 0, || v) }
fn f_slice<'a>(ok: bool, m: &[u8], v: &'a [u32]) -> Result<&'a [u32], Er> { r(ok, m, 0, || v) }
fn f_box(ok: bool, m: &[u8], v: u32) -> Result<Box<Op>, Er> { r(ok, m, 0, || Box::new(Op(v, Box::new(1)))) }
fn f_vec(ok: bool, m: &[u8], v: u32) -> Result<Vec<u32>, Er> { r(ok, m, 0, || vec![v, 7]) }
fn f_struct(ok: bool, m: &[u8], v: u32) -> Result<ffi::S, Er> { r(ok, m, 0, || ffi::S { v, s: String::from("ok"), w: [v as u16; 9] }) }
fn f_small(ok: bool, m: &[u8], v: u8) -> Result<ffi::Sm, Er> { r(ok, m, 0, || ffi::Sm { v }) }
fn f_enum(ok: bool, m: &[u8], v: u8) -> Result<ffi::E, Er> { r(ok, m, 0, || ffi::E { repr: v }) }
fn f_ref<'a>(ok: bool, m: &[u8], v: &'a u32) -> Result<&'a u32, Er> { r(ok, m, 0, || v) }
fn f_ptr(ok: bool, m: &[u8], v: *const u32) -> Result<*const u32, Er> { r(ok, m, 0, || v) }
fn f_uptr(ok: bool, m: &[u8], v: UniquePtr<CxxString>) -> Result<UniquePtr<CxxString>, Er> { r(ok, m, 0, || v) }
fn f_sptr(ok: bool, m: &[u8], v: SharedPtr<CxxString>) -> Result<SharedPtr<CxxString>, Er> { r(ok, m, 0, || v) }
fn f_consume(ok: bool, m: &[u8], a: String, b: Vec<String>, c: Box<Op>) -> Result<usize, Er> { r(ok, m, 0, || a.len() + b.len() + c.0 as usize) }
fn mk(v: u32) -> Box<Op> { Box::new(Op(v, Box::new(0))) }
#[cxx::bridge]
pub mod ffi {
    struct S { v: u32, s: String, w: [u16; 9] }
    struct Sm { v: u8 }
    #[repr(u8)]
    enum E { A, B }
    extern "Rust" {
        type Op;
        fn get(self: &Op) -> u32;
        unsafe fn m<'a>(self: &'a Op, ok: bool, msg: &[u8]) -> Result<&'a u32>;
        unsafe fn mm<'a>(self: &'a mut Op, ok: bool, msg: &[u8], v: u32) -> Result<&'a mut u32>;
        fn mk(v: u32) -> Box<Op>;
        fn f_unit(ok: bool, m: &[u8], how: u8) -> Result<()>;
        fn f_u8(ok: bool, m: &[u8], v: u8) -> Result<u8>;
        fn f_u64(ok: bool, m: &[u8], v: u64) -> Result<u64>;
        fn f_bool(ok: bool, m: &[u8], v: bool) -> Result<bool>;
        fn f_f64(ok: bool, m: &[u8], v: f64) -> Result<f64>;
        fn f_string(ok: bool, m: &[u8], v: u8) -> Result<String>;
        unsafe fn f_str<'a>(ok: bool, m: &[u8], v: &'a str) -> Result<&'a str>;
        unsafe fn f_slice<'a>(ok: bool, m: &[u8], v: &'a [u32]) -> Result<&'a [u32]>;
        fn f_box(ok: bool, m: &[u8], v: u32) -> Result<Box<Op>>;
        fn f_vec(ok: bool, m: &[u8], v: u32) -> Result<Vec<u32>>;
        fn f_struct(ok: bool, m: &[u8], v: u32) -> Result<S>;
        fn f_small(ok: bool, m: &[u8], v: u8) -> Result<Sm>;
        fn f_enum(ok: bool, m: &[u8], v: u8) -> Result<E>;
        unsafe fn f_ref<'a>(ok: bool, m: &[u8], v: &'a u32) -> Result<&'a u32>;
        unsafe fn f_ptr(ok: bool, m: &[u8], v: *const u32) -> Result<*const u32>;
        fn f_uptr(ok: bool, m: &[u8], v: UniquePtr<CxxString>) -> Result<UniquePtr<CxxString>>;
        fn f_sptr(ok: bool, m: &[u8], v: SharedPtr<CxxString>) -> Result<SharedPtr<CxxString>>;
        fn f_consume(ok: bool, m: &[u8], a: String, b: Vec<String>, c: Box<Op>) -> Result<usize>;
    }
}
