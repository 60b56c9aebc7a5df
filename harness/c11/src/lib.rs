pub use cxx;
use core::fmt::Debug;
use core::pin::Pin;
use cxx::vector::VectorElement;
use cxx::{CxxString, CxxVector, ExternType, UniquePtr};
#[path = "../../common/sym.rs"]
mod sym;
use sym::*;
/// A C++ type that Rust may hold by value.
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Tr { a: u32, b: u8 }
unsafe impl ExternType for Tr { type Id = cxx::type_id!("Tr"); type Kind = cxx::kind::Trivial; }
#[cxx::bridge]
pub mod ffi {
    #[derive(Debug, Clone, PartialEq)]
    struct Sh { v: u32, s: String }
    unsafe extern "C++" {
        include!("c11.h");
        type Obj;
        type Tr = super::Tr;
        fn alive() -> i32;
        fn val(self: &Obj) -> u32;
        fn set(self: Pin<&mut Obj>, v: u32);
        fn mk_obj(v: &[u32]) -> UniquePtr<CxxVector<Obj>>; fn is_obj(v: &CxxVector<Obj>, w: &[u32]) -> bool; fn add_obj(v: Pin<&mut CxxVector<Obj>>, x: u32); fn rem_obj(v: Pin<&mut CxxVector<Obj>>);
        fn mk_str(v: &[u32]) -> UniquePtr<CxxVector<CxxString>>; fn is_str(v: &CxxVector<CxxString>, w: &[u32]) -> bool; fn add_str(v: Pin<&mut CxxVector<CxxString>>, x: u32); fn rem_str(v: Pin<&mut CxxVector<CxxString>>);
        fn mk_sh(v: &[u32]) -> UniquePtr<CxxVector<Sh>>; fn is_sh(v: &CxxVector<Sh>, w: &[u32]) -> bool; fn add_sh(v: Pin<&mut CxxVector<Sh>>, x: u32); fn rem_sh(v: Pin<&mut CxxVector<Sh>>);
        fn mk_tr(v: &[u32]) -> UniquePtr<CxxVector<Tr>>; fn is_tr(v: &CxxVector<Tr>, w: &[u32]) -> bool; fn add_tr(v: Pin<&mut CxxVector<Tr>>, x: u32); fn rem_tr(v: Pin<&mut CxxVector<Tr>>);
        fn mk_u8(v: &[u8]) -> UniquePtr<CxxVector<u8>>; fn is_u8(v: &CxxVector<u8>, w: &[u8]) -> bool; fn add_u8(v: Pin<&mut CxxVector<u8>>, x: u8); fn rem_u8(v: Pin<&mut CxxVector<u8>>);
        fn mk_u16(v: &[u16]) -> UniquePtr<CxxVector<u16>>; fn is_u16(v: &CxxVector<u16>, w: &[u16]) -> bool; fn add_u16(v: Pin<&mut CxxVector<u16>>, x: u16); fn rem_u16(v: Pin<&mut CxxVector<u16>>);
        fn mk_u32(v: &[u32]) -> UniquePtr<CxxVector<u32>>; fn is_u32(v: &CxxVector<u32>, w: &[u32]) -> bool; fn add_u32(v: Pin<&mut CxxVector<u32>>, x: u32); fn rem_u32(v: Pin<&mut CxxVector<u32>>);
        fn mk_u64(v: &[u64]) -> UniquePtr<CxxVector<u64>>; fn is_u64(v: &CxxVector<u64>, w: &[u64]) -> bool; fn add_u64(v: Pin<&mut CxxVector<u64>>, x: u64); fn rem_u64(v: Pin<&mut CxxVector<u64>>);
        fn mk_usize(v: &[usize]) -> UniquePtr<CxxVector<usize>>; fn is_usize(v: &CxxVector<usize>, w: &[usize]) -> bool; fn add_usize(v: Pin<&mut CxxVector<usize>>, x: usize); fn rem_usize(v: Pin<&mut CxxVector<usize>>);
        fn mk_i8(v: &[i8]) -> UniquePtr<CxxVector<i8>>; fn is_i8(v: &CxxVector<i8>, w: &[i8]) -> bool; fn add_i8(v: Pin<&mut CxxVector<i8>>, x: i8); fn rem_i8(v: Pin<&mut CxxVector<i8>>);
        fn mk_i16(v: &[i16]) -> UniquePtr<CxxVector<i16>>; fn is_i16(v: &CxxVector<i16>, w: &[i16]) -> bool; fn add_i16(v: Pin<&mut CxxVector<i16>>, x: i16); fn rem_i16(v: Pin<&mut CxxVector<i16>>);
        fn mk_i32(v: &[i32]) -> UniquePtr<CxxVector<i32>>; fn is_i32(v: &CxxVector<i32>, w: &[i32]) -> bool; fn add_i32(v: Pin<&mut CxxVector<i32>>, x: i32); fn rem_i32(v: Pin<&mut CxxVector<i32>>);
        fn mk_i64(v: &[i64]) -> UniquePtr<CxxVector<i64>>; fn is_i64(v: &CxxVector<i64>, w: &[i64]) -> bool; fn add_i64(v: Pin<&mut CxxVector<i64>>, x: i64); fn rem_i64(v: Pin<&mut CxxVector<i64>>);
        fn mk_isize(v: &[isize]) -> UniquePtr<CxxVector<isize>>; fn is_isize(v: &CxxVector<isize>, w: &[isize]) -> bool; fn add_isize(v: Pin<&mut CxxVector<isize>>, x: isize); fn rem_isize(v: Pin<&mut CxxVector<isize>>);
        fn mk_f32(v: &[f32]) -> UniquePtr<CxxVector<f32>>; fn is_f32(v: &CxxVector<f32>, w: &[f32]) -> bool; fn add_f32(v: Pin<&mut CxxVector<f32>>, x: f32); fn rem_f32(v: Pin<&mut CxxVector<f32>>);
        fn mk_f64(v: &[f64]) -> UniquePtr<CxxVector<f64>>; fn is_f64(v: &CxxVector<f64>, w: &[f64]) -> bool; fn add_f64(v: Pin<&mut CxxVector<f64>>, x: f64); fn rem_f64(v: Pin<&mut CxxVector<f64>>);
    }
    impl CxxVector<Tr> {}
}
use ffi::{Obj, Sh};
macro_rules! clean { ($($t:tt)*) => {{ let l0 = live(); let a0 = ffi::alive(); { $($t)* } check(live() == l0, c"destroyed-once"); check(ffi::alive() == a0, c"elements-destroyed-once"); reach(c"done"); }} }
/// How the harness looks at an element, and the C++ side's view of the same vector.
trait El: VectorElement { type M: Copy + Debug; fn sym() -> Self::M; fn same(&self, m: Self::M) -> bool; fn put(self: Pin<&mut Self>, m: Self::M); fn mk(m: &[Self::M]) -> UniquePtr<CxxVector<Self>>; fn is(v: &CxxVector<Self>, m: &[Self::M]) -> bool; fn cadd(v: Pin<&mut CxxVector<Self>>, m: Self::M); fn crem(v: Pin<&mut CxxVector<Self>>); }
macro_rules! prim { ($($t:ident $f:expr, $same:expr, $mk:ident $is:ident $add:ident $rem:ident;)*) => { $(impl El for $t { type M = $t; fn sym() -> $t { let f: fn(u64) -> $t = $f; f(u64_((core::mem::size_of::<$t>() * 8) as u64, c"x")) } fn same(&self, m: $t) -> bool { let f: fn($t, $t) -> bool = $same; f(*self, m) } fn put(self: Pin<&mut $t>, m: $t) { *self.get_mut() = m } fn mk(m: &[$t]) -> UniquePtr<CxxVector<$t>> { ffi::$mk(m) } fn is(v: &CxxVector<$t>, m: &[$t]) -> bool { ffi::$is(v, m) } fn cadd(v: Pin<&mut CxxVector<$t>>, m: $t) { ffi::$add(v, m) } fn crem(v: Pin<&mut CxxVector<$t>>) { ffi::$rem(v) } })* } }
prim! {
    u8 |v| v as u8, |a, b| a == b, mk_u8 is_u8 add_u8 rem_u8;
    u16 |v| v as u16, |a, b| a == b, mk_u16 is_u16 add_u16 rem_u16;
    u32 |v| v as u32, |a, b| a == b, mk_u32 is_u32 add_u32 rem_u32;
    u64 |v| v as u64, |a, b| a == b, mk_u64 is_u64 add_u64 rem_u64;
    usize |v| v as usize, |a, b| a == b, mk_usize is_usize add_usize rem_usize;
    i8 |v| v as i8, |a, b| a == b, mk_i8 is_i8 add_i8 rem_i8;
    i16 |v| v as i16, |a, b| a == b, mk_i16 is_i16 add_i16 rem_i16;
    i32 |v| v as i32, |a, b| a == b, mk_i32 is_i32 add_i32 rem_i32;
    i64 |v| v as i64, |a, b| a == b, mk_i64 is_i64 add_i64 rem_i64;
    isize |v| v as isize, |a, b| a == b, mk_isize is_isize add_isize rem_isize;
    f32 |v| f32::from_bits(v as u32), |a, b| a.to_bits() == b.to_bits(), mk_f32 is_f32 add_f32 rem_f32;
    f64 |v| f64::from_bits(v), |a, b| a.to_bits() == b.to_bits(), mk_f64 is_f64 add_f64 rem_f64;
}
macro_rules! fat { ($t:ty, $mk:ident $is:ident $add:ident $rem:ident, $same:expr, $put:expr) => { impl El for $t { type M = u32; fn sym() -> u32 { u32_(c"x") } fn same(&self, m: u32) -> bool { let f: fn(&$t, u32) -> bool = $same; f(self, m) } fn put(self: Pin<&mut $t>, m: u32) { let f: fn(Pin<&mut $t>, u32) = $put; f(self, m) } fn mk(m: &[u32]) -> UniquePtr<CxxVector<$t>> { ffi::$mk(m) } fn is(v: &CxxVector<$t>, m: &[u32]) -> bool { ffi::$is(v, m) } fn cadd(v: Pin<&mut CxxVector<$t>>, m: u32) { ffi::$add(v, m) } fn crem(v: Pin<&mut CxxVector<$t>>) { ffi::$rem(v) } } } }
fn bytes4(m: u32) -> [u8; 4] { m.to_le_bytes() }
fat!(Obj, mk_obj is_obj add_obj rem_obj, |o, m| o.val() == m, |o, m| o.set(m));
fat!(CxxString, mk_str is_str add_str rem_str, |s, m| eq(s.as_bytes(), &bytes4(m)), |mut s, m| { s.as_mut().clear(); s.push_bytes(&bytes4(m)) });
fn text(m: u32) -> String { let b = bytes4(m); String::from_utf8(vec![b[0] & 0x7f, b'-', b'-', b[1] & 0x7f]).unwrap() }
fat!(Sh, mk_sh is_sh add_sh rem_sh, |s, m| s.v == m && eq(s.s.as_bytes(), text(m).as_bytes()), |s, m| { let s = s.get_mut(); s.v = m; s.s = text(m) });
fat!(Tr, mk_tr is_tr add_tr rem_tr, |s, m| s.a == m && s.b == m as u8, |s, m| { let s = s.get_mut(); s.a = m; s.b = m as u8 });
fn model<T: El>(max: usize) -> Vec<T::M> { let n = choice(max + 1, c"n"); let mut m = Vec::with_capacity(8); for _ in 0..n { m.push(T::sym()); } m }
/// Everything Rust can see of the vector.
fn look<T: El>(v: &CxxVector<T>, m: &[T::M]) {
    check(v.len() == m.len(), c"len"); check(v.is_empty() == m.is_empty(), c"is_empty"); check(T::is(v, m), c"same-in-c++");
    for (i, x) in m.iter().enumerate() { match v.get(i) { Some(e) => check(e.same(*x), c"get"), None => check(false, c"get-in-range") } }
    check(v.get(m.len()).is_none(), c"get-at-end"); check(v.get(usize::MAX).is_none(), c"get-max");
    let mut k = 0; for e in v { check(k < m.len() && e.same(m[k]), c"iterate"); check(e as *const T == v.get(k).unwrap() as *const T, c"iterate-address"); k += 1; } check(k == m.len(), c"iterate-all");
}
fn reads<T: El>() { clean! {
    let m = model::<T>(if thorough() { 4 } else { 3 }); let mut v = T::mk(&m); look(&v, &m);
    // any index at all
    let i = u64_(64, c"index") as usize; match v.get(i) { Some(e) => { check(i < m.len(), c"get-in-range-only"); let i = concrete(i as u64) as usize; check(e.same(m[i]), c"get-symbolic"); } None => check(i >= m.len(), c"get-none-out-of-range") }
    match v.pin_mut().index_mut(i) { Some(_) => check(i < m.len(), c"index_mut-in-range-only"), None => check(i >= m.len(), c"index_mut-none-out-of-range") }
    let stop = choice(m.len() + 2, c"stop");
    let mut it = v.iter(); for k in 0..stop { let left = m.len().saturating_sub(k); check(it.len() == left && it.size_hint() == (left, Some(left)), c"remaining"); check(it.next().is_some() == (k < m.len()), c"next"); } let left = m.len().saturating_sub(stop); check(it.len() == left, c"remaining-end"); check(it.count() == left, c"count");
    let mut it = v.pin_mut().iter_mut(); for k in 0..stop { let left = m.len().saturating_sub(k); check(it.len() == left && it.size_hint() == (left, Some(left)), c"mut-remaining"); match it.next() { Some(e) => check(k < m.len() && e.same(m[k]), c"mut-next"), None => check(k >= m.len(), c"mut-end") } } check(it.len() == left, c"mut-remaining-end");
    let n: UniquePtr<CxxVector<T>> = CxxVector::new(); look(&n, &[]);
} }
fn writes<T: El>() { clean! {
    let mut m = model::<T>(3); let mut v = T::mk(&m);
    match choice(4, c"how") {
        0 => { for (k, e) in v.pin_mut().iter_mut().enumerate() { let x = T::sym(); e.put(x); m[k] = x; } }
        1 => { for k in 0..m.len() { let x = T::sym(); v.pin_mut().index_mut(k).unwrap().put(x); m[k] = x; } }
        2 => { let mut held: Vec<Pin<&mut T>> = v.pin_mut().into_iter().collect(); check(held.len() == m.len(), c"all-held"); for k in (0..m.len()).rev() { let x = T::sym(); held[k].as_mut().put(x); m[k] = x; } }
        _ => { let x = T::sym(); T::cadd(v.pin_mut(), x); m.push(x); if choice(2, c"again") == 1 { T::crem(v.pin_mut()); T::crem(v.pin_mut()); m.pop(); m.pop(); if m.is_empty() { let y = T::sym(); T::cadd(v.pin_mut(), y); m.push(y) } } }
    }
    look(&v, &m);
} }
fn slices<T: El + ExternType<Kind = cxx::kind::Trivial>>() {
    let mut m = model::<T>(3); let mut v = T::mk(&m);
    { let s = v.as_slice(); check(s.len() == m.len(), c"as_slice-len"); check(s.as_ptr() as usize % core::mem::align_of::<T>() == 0 && !s.as_ptr().is_null(), c"as_slice-ptr"); for i in 0..m.len() { check(s[i].same(m[i]), c"as_slice"); check(&s[i] as *const T == v.get(i).unwrap() as *const T, c"as_slice-address"); } }
    { let s = v.pin_mut().as_mut_slice(); check(s.len() == m.len(), c"as_mut_slice-len"); for i in 0..s.len() { let x = T::sym(); unsafe { Pin::new_unchecked(&mut s[i]) }.put(x); m[i] = x; } }
    look(&v, &m);
}
/// `owned` is the address of what the element owns, which moves along with it.
fn moves<T: El + ExternType<Kind = cxx::kind::Trivial>>(steps: usize, val: fn(T::M) -> T, owned: fn(&T) -> usize) {
    let mut m = model::<T>(1); let mut v = T::mk(&m);
    for _ in 0..steps { match choice(4, c"op") {
        0 => { let x = T::sym(); let e = val(x); let at = owned(&e); v.pin_mut().push(e); m.push(x); check(owned(v.get(m.len() - 1).unwrap()) == at, c"push-moves"); }
        1 => { let at = if m.is_empty() { 0 } else { owned(v.get(m.len() - 1).unwrap()) }; match v.pin_mut().pop() { Some(e) => match m.pop() { Some(x) => { check(e.same(x), c"pop"); check(owned(&e) == at, c"pop-moves") } None => check(false, c"pop-empty") }, None => check(m.is_empty(), c"pop-none-when-empty") } }
        2 => { let x = T::sym(); T::cadd(v.pin_mut(), x); m.push(x); }
        _ => if !m.is_empty() { T::crem(v.pin_mut()); m.pop(); },
    } look(&v, &m); }
}
#[no_mangle]
extern "C" fn h_prim_reads() { match choice(12, c"type") { 0 => reads::<u8>(), 1 => reads::<u16>(), 2 => reads::<u32>(), 3 => reads::<u64>(), 4 => reads::<usize>(), 5 => reads::<i8>(), 6 => reads::<i16>(), 7 => reads::<i32>(), 8 => reads::<i64>(), 9 => reads::<isize>(), 10 => reads::<f32>(), _ => reads::<f64>() } }
#[no_mangle]
extern "C" fn h_prim_writes() { match choice(12, c"type") { 0 => writes::<u8>(), 1 => writes::<u16>(), 2 => writes::<u32>(), 3 => writes::<u64>(), 4 => writes::<usize>(), 5 => writes::<i8>(), 6 => writes::<i16>(), 7 => writes::<i32>(), 8 => writes::<i64>(), 9 => writes::<isize>(), 10 => writes::<f32>(), _ => writes::<f64>() } }
#[no_mangle]
extern "C" fn h_prim_slices() { clean! { match choice(12, c"type") { 0 => slices::<u8>(), 1 => slices::<u16>(), 2 => slices::<u32>(), 3 => slices::<u64>(), 4 => slices::<usize>(), 5 => slices::<i8>(), 6 => slices::<i16>(), 7 => slices::<i32>(), 8 => slices::<i64>(), 9 => slices::<isize>(), 10 => slices::<f32>(), _ => slices::<f64>() } } }
#[no_mangle]
extern "C" fn h_prim_moves() { clean! { let k = if thorough() { 4 } else { 3 }; match choice(12, c"type") { 0 => moves::<u8>(k, |x| x, |_| 0), 1 => moves::<u16>(k, |x| x, |_| 0), 2 => moves::<u32>(k, |x| x, |_| 0), 3 => moves::<u64>(k, |x| x, |_| 0), 4 => moves::<usize>(k, |x| x, |_| 0), 5 => moves::<i8>(k, |x| x, |_| 0), 6 => moves::<i16>(k, |x| x, |_| 0), 7 => moves::<i32>(k, |x| x, |_| 0), 8 => moves::<i64>(k, |x| x, |_| 0), 9 => moves::<isize>(k, |x| x, |_| 0), 10 => moves::<f32>(k, |x| x, |_| 0), _ => moves::<f64>(k, |x| x, |_| 0) } } }
#[no_mangle]
extern "C" fn h_string() { if choice(2, c"write") == 0 { reads::<CxxString>() } else { writes::<CxxString>() } }
#[no_mangle]
extern "C" fn h_opaque() { if choice(2, c"write") == 0 { reads::<Obj>() } else { writes::<Obj>() } }
#[no_mangle]
extern "C" fn h_shared() { if choice(2, c"write") == 0 { reads::<Sh>() } else { writes::<Sh>() } }
#[no_mangle]
extern "C" fn h_trivial() { if choice(2, c"write") == 0 { reads::<Tr>() } else { writes::<Tr>() } }
#[no_mangle]
extern "C" fn h_struct_moves() { clean! { let k = if thorough() { 5 } else { 4 }; if choice(2, c"type") == 0 { moves::<Sh>(k, |m| Sh { v: m, s: text(m) }, |e| e.s.as_ptr() as usize) } else { moves::<Tr>(k, |m| Tr { a: m, b: m as u8 }, |_| 0) } } }
#[no_mangle]
extern "C" fn h_struct_slices() { clean! { if choice(2, c"type") == 0 { slices::<Sh>() } else { slices::<Tr>() } } }
#[no_mangle]
extern "C" fn h_debug() { clean! { let n = choice(4, c"n"); let m: Vec<u8> = (0..n).map(|i| [7, 200, 0][i]).collect(); let v = ffi::mk_u8(&m); check(format!("{:?}", v) == format!("{:?}", m), c"debug"); } }
