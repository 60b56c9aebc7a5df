pub use cxx;
use core::fmt;
use core::hash::{Hash, Hasher};
use cxx::{type_id, CxxString, ExternType, SharedPtr, UniquePtr};
#[path = "../../common/sym.rs"]
mod sym;
fn p<T>(bad: bool, t: T) -> T { if bad { panic!("rust panic") } t }
/// Which panic: explicit message, index, arithmetic, unwrap, a non-string payload.
fn q<T>(how: u8, t: T) -> T {
    let z = core::hint::black_box(0usize);
    match how { 0 => t, 1 => panic!("rust panic {}", how), 2 => { core::hint::black_box([1u8, 2][z + 2]); t } 3 => { core::hint::black_box(1 / z); t } 4 => { None::<u8>.unwrap(); t } 5 => { Err::<(), _>("x").unwrap(); t } 6 => std::panic::panic_any(7u32), _ => std::panic::resume_unwind(Box::new(5u8)) }
}
pub struct Op(u32, Box<u8>);
impl Op { fn get(&self, bad: bool) -> u32 { p(bad, self.0) } fn set(&mut self, bad: bool, v: u32) { self.0 = v; p(bad, ()) } fn try_get(&self, bad: bool) -> Result<u32, Er> { p(bad, Ok(self.0)) } }
/// Destructor panics on demand.
pub struct Bomb(bool, Box<u8>);
impl Drop for Bomb { fn drop(&mut self) { p(self.0, ()) } }
fn bomb(bad: bool) -> Box<Bomb> { Box::new(Bomb(bad, Box::new(1))) }
fn bombs(n: usize, at: usize) -> Vec<Bomb> { (0..n).map(|i| Bomb(i == at, Box::new(1))).collect() }
fn push(v: &mut Vec<Bomb>, bad: bool) { v.push(Bomb(bad, Box::new(2))) }
pub struct Er(bool);
impl fmt::Display for Er { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("part")?; p(self.0, ()); f.write_str("rest") } }
pub struct Fe(bool);
impl fmt::Display for Fe { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("part")?; if self.0 { return Err(fmt::Error); } Ok(()) } }
fn op(v: u32) -> Box<Op> { Box::new(Op(v, Box::new(0))) }
fn f_kind(how: u8) { q(how, ()) }
fn f_u64(bad: bool, v: u64) -> u64 { p(bad, v) }
fn f_string(bad: bool, v: &CxxString) -> String { p(bad, v.to_string()) }
fn f_str<'a>(bad: bool, v: &'a str) -> &'a str { p(bad, v) }
fn f_slice(bad: bool, v: &mut [u32]) -> &mut [u32] { p(bad, v) }
fn f_box(bad: bool, v: Box<Op>) -> Box<Op> { p(bad, v) }
fn f_vec(bad: bool, v: Vec<String>) -> Vec<String> { p(bad, v) }
fn f_struct(bad: bool, v: ffi::S) -> ffi::S { p(bad, v) }
fn f_uptr(bad: bool, v: UniquePtr<CxxString>) -> UniquePtr<CxxString> { p(bad, v) }
fn f_sptr(bad: bool, v: SharedPtr<CxxString>) -> SharedPtr<CxxString> { p(bad, v) }
fn f_ref(bad: bool, v: &u32) -> &u32 { p(bad, v) }
fn f_res(bad: bool, ok: bool) -> Result<String, Er> { p(bad, if ok { Ok(String::from("y")) } else { Err(Er(false)) }) }
fn f_errfmt(bad: bool, ok: bool) -> Result<u8, Er> { if ok { Ok(4) } else { Err(Er(bad)) } }
fn f_fmterr(bad: bool, ok: bool) -> Result<u8, Fe> { if ok { Ok(4) } else { Err(Fe(bad)) } }
fn f_back(bad: bool) -> u32 { ffi::cxx_calls_rust(bad) + 1 }
fn f_back_res(bad: bool) -> Result<u32, cxx::Exception> { ffi::cxx_calls_rust_res(bad) }
fn cb(bad: bool, v: u32) -> u32 { p(bad, v) }
fn with_cb(bad: bool) -> u32 { ffi::call_cb(cb, bad, 6) }
/// A trivial C++ type whose Rust trait impls can panic.
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Tv { v: u8 }
unsafe impl ExternType for Tv { type Id = type_id!("Tv"); type Kind = cxx::kind::Trivial; }
impl PartialEq for Tv { fn eq(&self, o: &Tv) -> bool { p(self.v > 250, self.v == o.v) } }
impl Eq for Tv {}
impl PartialOrd for Tv { fn partial_cmp(&self, o: &Tv) -> Option<core::cmp::Ordering> { p(self.v > 250, self.v.partial_cmp(&o.v)) } }
impl Hash for Tv { fn hash<H: Hasher>(&self, h: &mut H) { p(self.v > 250, self.v.hash(h)) } }
impl fmt::Debug for Tv { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
#[cxx::bridge]
pub mod ffi {
    struct S { v: u32, s: String }
    #[derive(PartialEq, Eq, PartialOrd, Hash)]
    struct D { t: Tv }
    extern "Rust" {
        type Op; type Bomb;
        fn get(self: &Op, bad: bool) -> u32;
        fn set(self: &mut Op, bad: bool, v: u32);
        fn try_get(self: &Op, bad: bool) -> Result<u32>;
        fn op(v: u32) -> Box<Op>;
        fn bomb(bad: bool) -> Box<Bomb>;
        fn bombs(n: usize, at: usize) -> Vec<Bomb>;
        fn push(v: &mut Vec<Bomb>, bad: bool);
        fn f_kind(how: u8);
        fn f_u64(bad: bool, v: u64) -> u64;
        fn f_string(bad: bool, v: &CxxString) -> String;
        unsafe fn f_str<'a>(bad: bool, v: &'a str) -> &'a str;
        fn f_slice(bad: bool, v: &mut [u32]) -> &mut [u32];
        fn f_box(bad: bool, v: Box<Op>) -> Box<Op>;
        fn f_vec(bad: bool, v: Vec<String>) -> Vec<String>;
        fn f_struct(bad: bool, v: S) -> S;
        fn f_uptr(bad: bool, v: UniquePtr<CxxString>) -> UniquePtr<CxxString>;
        fn f_sptr(bad: bool, v: SharedPtr<CxxString>) -> SharedPtr<CxxString>;
        fn f_ref(bad: bool, v: &u32) -> &u32;
        fn f_res(bad: bool, ok: bool) -> Result<String>;
        fn f_errfmt(bad: bool, ok: bool) -> Result<u8>;
        fn f_fmterr(bad: bool, ok: bool) -> Result<u8>;
        fn f_back(bad: bool) -> u32;
        fn f_back_res(bad: bool) -> Result<u32>;
        fn with_cb(bad: bool) -> u32;
    }
    unsafe extern "C++" {
        include!("c09.h");
        type Tv = super::Tv;
        fn cxx_calls_rust(bad: bool) -> u32;
        fn cxx_calls_rust_res(bad: bool) -> Result<u32>;
        fn call_cb(f: fn(bad: bool, v: u32) -> u32, bad: bool, v: u32) -> u32;
    }
}
