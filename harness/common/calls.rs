// Values of every type class from one or two seeds, their serialisation, and the drivers' vocabulary.
use ffi::{Ar, Ei16, En, Eu64, Nest, C, D4, F2, FI, N, P1, P2, Q2, Q3};
#[repr(C)]
pub struct Next { v: u64, k: usize, sv: u64, sk: usize, fail: bool }
extern "C" { fn tx_new(v: u64) -> *mut u64; fn tx_free(p: *mut u64); fn calls_push(which: i32, v: u64); fn calls_logged(); fn calls_alive() -> i64; fn calls_reset(); static mut next: Next; }
impl Drop for Tx { fn drop(&mut self) { unsafe { tx_free(self.p) } } }
#[derive(Debug)] pub struct Bad; impl core::fmt::Display for Bad { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { f.write_str("Bad") } }
fn mk_r(v: u64) -> Box<R> { Box::new(R::mk(v, 0)) } fn mk_vr(v: u64, k: usize) -> Vec<R> { Vec::mk(v, k) } fn r_get(r: &R) -> u64 { check(r.s == "heap", c"opaque-rust-value"); r.v } fn r_set(r: &mut R, v: u64) { r.v = v }
pub trait Ser { fn ser(&self, o: &mut dyn FnMut(u64)); }
pub trait Val: Ser + Sized { fn mk(v: u64, k: usize) -> Self; }
macro_rules! int { ($($t:ty)*) => { $(impl Ser for $t { fn ser(&self, o: &mut dyn FnMut(u64)) { o(*self as u64) } } impl Val for $t { fn mk(v: u64, _: usize) -> Self { v as $t } })* } }
int!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
impl Ser for bool { fn ser(&self, o: &mut dyn FnMut(u64)) { o(unsafe { *(self as *const bool as *const u8) } as u64) } } impl Val for bool { fn mk(v: u64, _: usize) -> Self { v & 1 != 0 } }
impl Ser for f32 { fn ser(&self, o: &mut dyn FnMut(u64)) { o(self.to_bits() as u64) } } impl Val for f32 { fn mk(v: u64, _: usize) -> Self { f32::from_bits(v as u32) } }
impl Ser for f64 { fn ser(&self, o: &mut dyn FnMut(u64)) { o(self.to_bits()) } } impl Val for f64 { fn mk(v: u64, _: usize) -> Self { f64::from_bits(v) } }
const LEN: [usize; 3] = [0, 3, 26];
fn text(v: u64, k: usize) -> Vec<u8> { (0..LEN[k]).map(|i| if i < 8 { (v >> (8 * i)) as u8 & 0x7f } else { b'a' + i as u8 }).collect() }
fn each<T: Ser>(s: &[T], o: &mut dyn FnMut(u64)) { o(s.len() as u64); for x in s { x.ser(o) } }
impl Ser for String { fn ser(&self, o: &mut dyn FnMut(u64)) { each(self.as_bytes(), o) } } impl Val for String { fn mk(v: u64, k: usize) -> Self { unsafe { String::from_utf8_unchecked(text(v, k)) } } }
impl Ser for CxxString { fn ser(&self, o: &mut dyn FnMut(u64)) { each(self.as_bytes(), o) } }
impl<T: Ser> Ser for Vec<T> { fn ser(&self, o: &mut dyn FnMut(u64)) { each(self, o) } } impl<T: Val> Val for Vec<T> { fn mk(v: u64, k: usize) -> Self { (0..k).map(|i| T::mk(v >> (9 * i), (k + i) % 3)).collect() } }
impl Ser for CxxVector<u32> { fn ser(&self, o: &mut dyn FnMut(u64)) { each(self.as_slice(), o) } } impl Ser for CxxVector<N> { fn ser(&self, o: &mut dyn FnMut(u64)) { each(self.as_slice(), o) } }
impl Ser for R { fn ser(&self, o: &mut dyn FnMut(u64)) { check(self.s == "heap", c"opaque-rust-value"); o(self.v) } } impl Val for R { fn mk(v: u64, _: usize) -> Self { R { v, s: String::from("heap") } } }
impl Ser for C { fn ser(&self, o: &mut dyn FnMut(u64)) { o(ffi::c_get(self)) } }
impl<T: Ser> Ser for Box<T> { fn ser(&self, o: &mut dyn FnMut(u64)) { (**self).ser(o) } } impl<T: Val> Val for Box<T> { fn mk(v: u64, k: usize) -> Self { Box::new(T::mk(v, k)) } }
impl<T: Ser + cxx::memory::UniquePtrTarget> Ser for UniquePtr<T> { fn ser(&self, o: &mut dyn FnMut(u64)) { o(!self.is_null() as u64); if let Some(t) = self.as_ref() { t.ser(o) } } }
impl<T: Ser + cxx::memory::SharedPtrTarget> Ser for SharedPtr<T> { fn ser(&self, o: &mut dyn FnMut(u64)) { o(!self.is_null() as u64); if let Some(t) = self.as_ref() { t.ser(o) } } }
impl Ser for WeakPtr<C> { fn ser(&self, o: &mut dyn FnMut(u64)) { self.upgrade().ser(o) } }
impl Val for UniquePtr<C> { fn mk(v: u64, k: usize) -> Self { if k == 0 { UniquePtr::null() } else { ffi::mk_c(v) } } } impl Val for UniquePtr<CxxString> { fn mk(v: u64, k: usize) -> Self { ffi::mk_cs(v, k) } } impl Val for UniquePtr<CxxVector<u32>> { fn mk(v: u64, k: usize) -> Self { ffi::mk_cv(v, k) } } impl Val for UniquePtr<N> { fn mk(v: u64, k: usize) -> Self { UniquePtr::new(N::mk(v, k)) } }
impl Val for SharedPtr<C> { fn mk(v: u64, k: usize) -> Self { if k == 0 { SharedPtr::null() } else { ffi::mk_sc(v) } } } impl Val for SharedPtr<u64> { fn mk(v: u64, k: usize) -> Self { if k == 0 { SharedPtr::null() } else { ffi::mk_su64(v) } } } impl Val for WeakPtr<C> { fn mk(v: u64, k: usize) -> Self { if k == 0 { WeakPtr::null() } else { ffi::mk_wc(v) } } }
macro_rules! st { ($t:ident $($f:ident $sh:literal),*) => { impl Ser for $t { fn ser(&self, o: &mut dyn FnMut(u64)) { $(self.$f.ser(o);)* } } impl Val for $t { fn mk(v: u64, k: usize) -> Self { $t { $($f: Val::mk(v.rotate_right($sh), k)),* } } } } }
st!(P1 a 0); st!(P2 a 0, b 8); st!(F2 a 0, b 32); st!(FI a 0, b 32); st!(Q2 a 0, b 1); st!(Q3 a 0, b 1, c 2); st!(D4 a 0, b 8, c 16, d 24); st!(N s 0, x 8, v 16); st!(Ar a 0, b 8); st!(Nest p 0, e 8, f 16); st!(T1 a 0, b 32); st!(T3 a 0, b 1, c 2);
macro_rules! en { ($($t:ident)*) => { $(impl Ser for $t { fn ser(&self, o: &mut dyn FnMut(u64)) { o(self.repr as u64) } } impl Val for $t { fn mk(v: u64, _: usize) -> Self { $t { repr: v as _ } } })* } } en!(En Ei16 Eu64);
impl Ser for Tx { fn ser(&self, o: &mut dyn FnMut(u64)) { o(unsafe { *self.p }) } } impl Val for Tx { fn mk(v: u64, _: usize) -> Self { Tx { p: unsafe { tx_new(v) } } } }
impl<T: Ser, const K: usize> Ser for [T; K] { fn ser(&self, o: &mut dyn FnMut(u64)) { each(self, o) } } impl<T: Val, const K: usize> Val for [T; K] { fn mk(v: u64, k: usize) -> Self { core::array::from_fn(|i| T::mk(v >> (9 * i), (k + i) % 3)) } }
/// A place of which a reference is passed.
pub trait Place { type S; fn place(v: u64, k: usize) -> Self::S; fn of(s: &Self::S) -> &Self; fn of_mut(s: &mut Self::S) -> Pin<&mut Self>; }
impl<T: Val> Place for T { type S = T; fn place(v: u64, k: usize) -> T { T::mk(v, k) } fn of(s: &T) -> &T { s } fn of_mut(s: &mut T) -> Pin<&mut T> { unsafe { Pin::new_unchecked(s) } } }
macro_rules! place { ($t:ty, $v:ident $k:ident $e:expr) => { impl Place for $t { type S = UniquePtr<$t>; fn place($v: u64, $k: usize) -> Self::S { let _ = $k; $e } fn of(s: &Self::S) -> &Self { s } fn of_mut(s: &mut Self::S) -> Pin<&mut Self> { s.pin_mut() } } } }
place!(C, v k ffi::mk_c(v)); place!(CxxString, v k ffi::mk_cs(v, k)); place!(CxxVector<u32>, v k ffi::mk_cv(v, k)); place!(CxxVector<N>, v k ffi::mk_cvn(v, k));
pub struct Own<T: Place>(T::S);
impl<T: Place> Own<T> { fn get(&self) -> &T { T::of(&self.0) } fn pin(&mut self) -> Pin<&mut T> { T::of_mut(&mut self.0) } fn addr(&self) -> usize { self.get() as *const T as usize } fn get_mut(&mut self) -> &mut T { unsafe { T::of_mut(&mut self.0).get_unchecked_mut() } } }
pub trait SetPin: Ser { fn set(self: Pin<&mut Self>, v: u64, k: usize); }
impl SetPin for C { fn set(self: Pin<&mut Self>, v: u64, _: usize) { ffi::c_set(self, v) } }
impl SetPin for CxxString { fn set(mut self: Pin<&mut Self>, v: u64, k: usize) { self.as_mut().clear(); self.as_mut().push_bytes(&text(v, k)) } }
impl SetPin for CxxVector<u32> { fn set(mut self: Pin<&mut Self>, v: u64, k: usize) { for (i, x) in self.as_mut_slice().iter_mut().enumerate() { *x = Val::mk(v + i as u64, k) } } }
impl SetPin for CxxVector<N> { fn set(mut self: Pin<&mut Self>, v: u64, k: usize) { for (i, x) in self.as_mut_slice().iter_mut().enumerate() { *x = Val::mk(v + i as u64, k) } } }
pub trait Seen: Ser { fn expect(&self, v: u64, k: usize); }
impl<T: Val> Seen for T { fn expect(&self, v: u64, k: usize) { T::mk(v, k).ser(&mut push(1)) } }
impl Seen for C { fn expect(&self, v: u64, _: usize) { v.ser(&mut push(1)) } }
impl Seen for CxxString { fn expect(&self, v: u64, k: usize) { each(&text(v, k), &mut push(1)) } }
impl Seen for CxxVector<u32> { fn expect(&self, v: u64, k: usize) { push(1)(self.len() as u64); for i in 0..self.len() { u32::mk(v + i as u64, k).ser(&mut push(1)) } } }
impl Seen for CxxVector<N> { fn expect(&self, v: u64, k: usize) { push(1)(self.len() as u64); for i in 0..self.len() { N::mk(v + i as u64, k).ser(&mut push(1)) } } }
fn push(which: i32) -> impl FnMut(u64) { move |v| unsafe { calls_push(which, v) } }
// -- called side
fn log<T: Ser>(t: &T) { t.ser(&mut push(0)) } fn loga(a: usize) { push(0)(a as u64) } fn logr<T: Ser>(t: &T) { loga(t as *const T as usize); log(t) } fn log_str(s: &str) { log_slice(s.as_bytes()) } fn log_slice<T: Ser>(s: &[T]) { loga(if s.is_empty() { 0 } else { s.as_ptr() as usize }); each(s, &mut push(0)) }
fn set<T: Val>(t: &mut T) { unsafe { *t = T::mk(next.sv, next.sk) } } fn set_pin<T: SetPin>(t: Pin<&mut T>) { unsafe { t.set(next.sv, next.sk) } } fn set_slice<T: Val>(s: &mut [T]) { for (i, x) in s.iter_mut().enumerate() { unsafe { *x = T::mk(next.sv + i as u64, next.sk) } } }
fn fail() -> bool { unsafe { next.fail } } fn ret<T: Val>() -> T { unsafe { T::mk(next.v, next.k) } }
// -- calling side
pub struct Data { k: usize, fail: bool }
impl Data { fn fallible(&self) -> Data { let fail = choice(2, c"fail") == 1; unsafe { next.fail = fail } Data { k: self.k, fail } } }
fn val<T: Val>(d: &Data, i: usize) -> T { T::mk(u64_(64, c"seed"), (d.k + i) % 3) } fn vals<T: Val>(d: &Data, i: usize) -> Vec<T> { let v = u64_(64, c"seed"); (0..(d.k + i) % 3).map(|j| T::mk(v >> (9 * j), (d.k + j) % 3)).collect() } fn own<T: Place>(d: &Data, i: usize) -> Own<T> { Own(T::place(u64_(64, c"seed"), (d.k + i) % 3)) }
fn exp<T: Ser>(t: &T) { t.ser(&mut push(1)) } fn expa(a: usize) { push(1)(a as u64) } fn exp_slice<T: Ser>(s: &[T]) { expa(if s.is_empty() { 0 } else { s.as_ptr() as usize }); each(s, &mut push(1)) }
fn same<T: Val>(r: &T, _: &Data) { r.ser(&mut push(0)); unsafe { T::mk(next.v, next.k).ser(&mut push(1)) } }
fn seen<T: Seen>(t: &T, _: &Data) { t.ser(&mut push(0)); unsafe { t.expect(next.sv, next.sk) } logged() } fn seen_slice<T: Val>(s: &[T], _: &Data) { for (i, x) in s.iter().enumerate() { x.ser(&mut push(0)); unsafe { T::mk(next.sv + i as u64, next.sk).ser(&mut push(1)) } } logged() }
fn size<T>(_: &[T]) -> usize { core::mem::size_of::<T>() } fn logged() { unsafe { calls_logged() } }
fn run(f: impl FnOnce(&Data)) {
    let l0 = live(); let a0 = unsafe { calls_alive() }; let k = choice(3, c"shape");
    unsafe { next = Next { v: u64_(64, c"returned"), k, sv: range(0, u64::MAX - 10, c"assigned"), sk: (k + 1) % 3, fail: false } }
    f(&Data { k, fail: false }); unsafe { calls_reset() }
    check(live() == l0, c"destroyed-once"); check(unsafe { calls_alive() } == a0, c"destructor-once"); reach(c"done");
}
