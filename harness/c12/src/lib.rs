pub use cxx;
use core::cmp::Ordering;
use core::fmt::{self, Debug, Display};
use core::hash::{Hash, Hasher};
use core::pin::Pin;
use cxx::memory::UniquePtrTarget;
use cxx::{CxxString, CxxVector, ExternType, UniquePtr};
use std::io::{self, IoSlice, Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
#[path = "../../common/sym.rs"]
mod sym;
use sym::*;
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Tr { a: u32, b: u8 }
unsafe impl ExternType for Tr { type Id = cxx::type_id!("Tr"); type Kind = cxx::kind::Trivial; }
#[cxx::bridge]
pub mod ffi {
    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
    struct Sh { v: u32, s: String }
    struct Hold { p: UniquePtr<Obj>, q: UniquePtr<Obj> }
    unsafe extern "C++" {
        include!("c12.h");
        type Obj;
        type Base;
        type Tr = super::Tr;
        type Big;
        fn alive() -> i32;
        fn val(self: &Obj) -> u32;
        fn set(self: Pin<&mut Obj>, v: u32);
        fn bval(b: &Base) -> u32;
        fn bigval(b: &Big) -> u32;
        fn shval(b: &Sh) -> u32;
        fn trval(b: &Tr) -> u32;
        fn mk_obj(v: u32) -> UniquePtr<Obj>; fn put_obj(p: UniquePtr<Obj>) -> usize; fn take_obj() -> UniquePtr<Obj>; fn look_obj(p: &UniquePtr<Obj>) -> usize; fn eat_obj(p: UniquePtr<Obj>); unsafe fn del_obj(p: *mut Obj); fn try_obj(p: UniquePtr<Obj>, ok: bool) -> Result<UniquePtr<Obj>>; fn reset_obj(p: Pin<&mut UniquePtr<Obj>>, v: u32);
        fn mk_base(v: u32) -> UniquePtr<Base>; fn put_base(p: UniquePtr<Base>) -> usize; fn take_base() -> UniquePtr<Base>; fn look_base(p: &UniquePtr<Base>) -> usize; fn eat_base(p: UniquePtr<Base>); unsafe fn del_base(p: *mut Base); fn try_base(p: UniquePtr<Base>, ok: bool) -> Result<UniquePtr<Base>>; fn reset_base(p: Pin<&mut UniquePtr<Base>>, v: u32);
        fn mk_big(v: u32) -> UniquePtr<Big>; fn put_big(p: UniquePtr<Big>) -> usize; fn take_big() -> UniquePtr<Big>; fn look_big(p: &UniquePtr<Big>) -> usize; fn eat_big(p: UniquePtr<Big>); unsafe fn del_big(p: *mut Big); fn try_big(p: UniquePtr<Big>, ok: bool) -> Result<UniquePtr<Big>>; fn reset_big(p: Pin<&mut UniquePtr<Big>>, v: u32);
        fn mk_str(v: u32) -> UniquePtr<CxxString>; fn put_str(p: UniquePtr<CxxString>) -> usize; fn take_str() -> UniquePtr<CxxString>; fn look_str(p: &UniquePtr<CxxString>) -> usize; fn eat_str(p: UniquePtr<CxxString>); unsafe fn del_str(p: *mut CxxString); fn try_str(p: UniquePtr<CxxString>, ok: bool) -> Result<UniquePtr<CxxString>>; fn reset_str(p: Pin<&mut UniquePtr<CxxString>>, v: u32);
        fn mk_sh(v: u32) -> UniquePtr<Sh>; fn put_sh(p: UniquePtr<Sh>) -> usize; fn take_sh() -> UniquePtr<Sh>; fn look_sh(p: &UniquePtr<Sh>) -> usize; fn eat_sh(p: UniquePtr<Sh>); unsafe fn del_sh(p: *mut Sh); fn try_sh(p: UniquePtr<Sh>, ok: bool) -> Result<UniquePtr<Sh>>; fn reset_sh(p: Pin<&mut UniquePtr<Sh>>, v: u32);
        fn mk_tr(v: u32) -> UniquePtr<Tr>; fn put_tr(p: UniquePtr<Tr>) -> usize; fn take_tr() -> UniquePtr<Tr>; fn look_tr(p: &UniquePtr<Tr>) -> usize; fn eat_tr(p: UniquePtr<Tr>); unsafe fn del_tr(p: *mut Tr); fn try_tr(p: UniquePtr<Tr>, ok: bool) -> Result<UniquePtr<Tr>>; fn reset_tr(p: Pin<&mut UniquePtr<Tr>>, v: u32);
        fn mk_vec(v: u32) -> UniquePtr<CxxVector<u32>>; fn put_vec(p: UniquePtr<CxxVector<u32>>) -> usize; fn take_vec() -> UniquePtr<CxxVector<u32>>; fn look_vec(p: &UniquePtr<CxxVector<u32>>) -> usize; fn eat_vec(p: UniquePtr<CxxVector<u32>>); fn try_vec(p: UniquePtr<CxxVector<u32>>, ok: bool) -> Result<UniquePtr<CxxVector<u32>>>; fn reset_vec(p: Pin<&mut UniquePtr<CxxVector<u32>>>, v: u32);
        fn mk_vobj(v: u32) -> UniquePtr<CxxVector<Obj>>; fn put_vobj(p: UniquePtr<CxxVector<Obj>>) -> usize; fn take_vobj() -> UniquePtr<CxxVector<Obj>>; fn look_vobj(p: &UniquePtr<CxxVector<Obj>>) -> usize; fn eat_vobj(p: UniquePtr<CxxVector<Obj>>); fn try_vobj(p: UniquePtr<CxxVector<Obj>>, ok: bool) -> Result<UniquePtr<CxxVector<Obj>>>; fn reset_vobj(p: Pin<&mut UniquePtr<CxxVector<Obj>>>, v: u32);
        fn del_vec(p: usize);
        fn del_vobj(p: usize);
        fn swap_hold(h: Hold) -> Hold;
    }
    impl UniquePtr<Tr> {}
}
use ffi::{Base, Big, Obj, Sh};
macro_rules! clean { ($($t:tt)*) => {{ let l0 = live(); let a0 = ffi::alive(); { $($t)* } check(live() == l0, c"destroyed-once"); check(ffi::alive() == a0, c"destructor-once"); reach(c"done"); }} }
/// C++ side of the test for one pointee type.
trait Ty: UniquePtrTarget + Sized { fn val(&self) -> u32; fn mk(v: u32) -> UniquePtr<Self>; fn put(p: UniquePtr<Self>) -> usize; fn take() -> UniquePtr<Self>; fn look(p: &UniquePtr<Self>) -> usize; fn eat(p: UniquePtr<Self>); unsafe fn del(p: *mut Self); fn tr(p: UniquePtr<Self>, ok: bool) -> Option<UniquePtr<Self>>; fn reset(p: Pin<&mut UniquePtr<Self>>, v: u32); }
macro_rules! ty { ($t:ty, $mk:ident $put:ident $take:ident $look:ident $eat:ident $tr:ident $reset:ident, $del:expr, $val:expr) => { impl Ty for $t { fn val(&self) -> u32 { let f: fn(&$t) -> u32 = $val; f(self) } fn mk(v: u32) -> UniquePtr<Self> { ffi::$mk(v) } fn put(p: UniquePtr<Self>) -> usize { ffi::$put(p) } fn take() -> UniquePtr<Self> { ffi::$take() } fn look(p: &UniquePtr<Self>) -> usize { ffi::$look(p) } fn eat(p: UniquePtr<Self>) { ffi::$eat(p) } unsafe fn del(p: *mut Self) { let f: fn(*mut Self) = $del; f(p) } fn tr(p: UniquePtr<Self>, ok: bool) -> Option<UniquePtr<Self>> { ffi::$tr(p, ok).ok() } fn reset(p: Pin<&mut UniquePtr<Self>>, v: u32) { ffi::$reset(p, v) } } } }
ty!(Obj, mk_obj put_obj take_obj look_obj eat_obj try_obj reset_obj, |p| unsafe { ffi::del_obj(p) }, |o| o.val());
ty!(Base, mk_base put_base take_base look_base eat_base try_base reset_base, |p| unsafe { ffi::del_base(p) }, |o| ffi::bval(o));
ty!(Big, mk_big put_big take_big look_big eat_big try_big reset_big, |p| unsafe { ffi::del_big(p) }, |o| ffi::bigval(o));
ty!(CxxString, mk_str put_str take_str look_str eat_str try_str reset_str, |p| unsafe { ffi::del_str(p) }, |s| { let b = s.as_bytes(); u32::from_le_bytes([b[16], b[17], b[18], b[19]]) });
ty!(Sh, mk_sh put_sh take_sh look_sh eat_sh try_sh reset_sh, |p| unsafe { ffi::del_sh(p) }, |s| s.v);
ty!(Tr, mk_tr put_tr take_tr look_tr eat_tr try_tr reset_tr, |p| unsafe { ffi::del_tr(p) }, |s| s.a);
ty!(CxxVector<u32>, mk_vec put_vec take_vec look_vec eat_vec try_vec reset_vec, |p| ffi::del_vec(p as usize), |s| *s.get(0).unwrap());
ty!(CxxVector<Obj>, mk_vobj put_vobj take_vobj look_vobj eat_vobj try_vobj reset_vobj, |p| ffi::del_vobj(p as usize), |s| s.get(1).unwrap().val());
/// What a slot must hold: nothing, or the object at this address with this value.
#[derive(Clone, Copy)]
struct M { at: usize, v: u32 }
const NULL: M = M { at: 0, v: 0 };
fn see<T: Ty>(p: &mut UniquePtr<T>, m: M) {
    check(p.is_null() == (m.at == 0), c"is_null"); check(p.as_ptr() as usize == m.at && p.as_mut_ptr() as usize == m.at, c"as_ptr"); check(T::look(p) == m.at, c"same-pointer-in-c++");
    match p.as_ref() { Some(t) => { check(m.at != 0 && t as *const T as usize == m.at, c"as_ref"); check(t.val() == m.v, c"as_ref-value"); } None => check(m.at == 0, c"as_ref-null") }
    match p.as_mut() { Some(t) => check(unsafe { t.get_unchecked_mut() as *mut T as usize } == m.at && m.at != 0, c"as_mut"), None => check(m.at == 0, c"as_mut-null") }
    if m.at != 0 { let r: &T = &*p; check(r as *const T as usize == m.at, c"deref"); check(unsafe { p.pin_mut().get_unchecked_mut() as *mut T as usize } == m.at, c"pin_mut"); }
}
fn fresh<T: Ty>() -> (UniquePtr<T>, M) { let v = u32_(c"v"); let p = T::mk(v); let at = p.as_ptr() as usize; check(at != 0, c"created"); (p, M { at, v }) }
fn history<T: Ty>(steps: usize) { clean! {
    let mut s = [UniquePtr::<T>::null(), UniquePtr::<T>::null()]; let mut m = [NULL; 2];
    let mut raw: *mut T = core::ptr::null_mut(); let mut mr = NULL; let mut held = NULL;
    for k in 0..steps { let i = if k == 0 { 0 } else { choice(2, c"slot") };
        match choice(if k == 0 { 2 } else { 12 }, c"op") {
            0 => { let (p, x) = fresh::<T>(); s[i] = p; m[i] = x; }
            1 => { s[i] = UniquePtr::null(); m[i] = NULL; }
            2 => { let p = core::mem::replace(&mut s[i], UniquePtr::null()); check(T::put(p) == m[i].at, c"given-to-c++"); held = m[i]; m[i] = NULL; }
            3 => { s[i] = T::take(); m[i] = held; held = NULL; }
            4 => { let p = core::mem::replace(&mut s[i], UniquePtr::null()); let q = p.into_raw(); check(q as usize == m[i].at, c"into_raw"); if !raw.is_null() { unsafe { T::del(raw) } } raw = q; mr = m[i]; m[i] = NULL; }
            5 => { s[i] = unsafe { UniquePtr::from_raw(raw) }; m[i] = mr; raw = core::ptr::null_mut(); mr = NULL; }
            6 => { s.swap(0, 1); m.swap(0, 1); }
            7 => { let p = core::mem::replace(&mut s[i], UniquePtr::null()); m[i] = NULL; T::eat(p); }
            8 => { let ok = choice(2, c"ok") == 1; let p = core::mem::replace(&mut s[i], UniquePtr::null()); match T::tr(p, ok) { Some(p) => { check(ok, c"result"); s[i] = p; } None => { check(!ok, c"result"); m[i] = NULL; } } }
            9 => { let v = u32_(c"v"); T::reset(Pin::new(&mut s[i]), v); m[i] = M { at: T::look(&s[i]), v }; check(m[i].at != 0, c"reset-by-c++"); }
            10 => { if s[i].is_null() { // dereferencing null panics
                let bad = match choice(2, c"how") { 0 => catch_unwind(AssertUnwindSafe(|| { (*s[i]).val(); })).is_err(), _ => catch_unwind(AssertUnwindSafe(|| { s[i].pin_mut(); })).is_err() }; check(bad, c"null-deref-panics"); return; } }
            _ => { let b = Box::new(core::mem::replace(&mut s[i], UniquePtr::null())); let v = vec![*b]; for p in v { s[i] = p; } }
        }
        see(&mut s[0], m[0]); see(&mut s[1], m[1]);
    }
    if !raw.is_null() { unsafe { T::del(raw) } } T::take();
} }
fn steps() -> usize { if thorough() { 4 } else { 3 } }
#[no_mangle] extern "C" fn h_opaque() { history::<Obj>(steps()) }
#[no_mangle] extern "C" fn h_polymorphic() { history::<Base>(steps()) }
#[no_mangle] extern "C" fn h_overaligned() { history::<Big>(steps()) }
#[no_mangle] extern "C" fn h_string() { history::<CxxString>(steps()) }
#[no_mangle] extern "C" fn h_shared() { history::<Sh>(steps()) }
#[no_mangle] extern "C" fn h_trivial() { history::<Tr>(steps()) }
#[no_mangle] extern "C" fn h_vector() { history::<CxxVector<u32>>(steps()) }
#[no_mangle] extern "C" fn h_vector_opaque() { history::<CxxVector<Obj>>(steps()) }
#[no_mangle]
extern "C" fn h_new() { // created in Rust, destroyed on either side
    clean! { let v = u32_(c"v"); match choice(2, c"type") {
        0 => { let mut p = UniquePtr::new(Sh { v, s: String::from("owned by the struct") }); check(ffi::shval(&p) == v && p.s == "owned by the struct", c"new"); p.v = 9; let at = p.as_ptr() as usize; match choice(3, c"end") { 0 => {} 1 => { check(ffi::put_sh(p) == at, c"given"); drop(ffi::take_sh()) } _ => ffi::eat_sh(p) } }
        _ => { let mut p = UniquePtr::new(Tr { a: v, b: 3 }); check(ffi::trval(&p) == v && p.b == 3, c"new"); p.pin_mut().b = 4; let at = p.as_ptr() as usize; match choice(3, c"end") { 0 => {} 1 => { check(ffi::put_tr(p) == at, c"given"); drop(ffi::take_tr()) } _ => ffi::eat_tr(p) } }
    } } }
#[no_mangle]
extern "C" fn h_in_struct() { clean! { // as fields of a shared struct, through C++
    let (a, b) = (choice(2, c"a") == 1, choice(2, c"b") == 1); let (x, y) = (u32_(c"x"), u32_(c"y"));
    let h = ffi::Hold { p: if a { ffi::mk_obj(x) } else { UniquePtr::null() }, q: if b { ffi::mk_obj(y) } else { UniquePtr::null() } }; let (pa, qa) = (h.p.as_ptr(), h.q.as_ptr());
    let r = ffi::swap_hold(h); check(r.p.as_ptr() == qa && r.q.as_ptr() == pa, c"fields-swapped"); if b { check(r.p.val() == y, c"value") } if a { check(r.q.val() == x, c"value") }
} }
struct Rec(Vec<u8>);
impl Hasher for Rec { fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) } fn finish(&self) -> u64 { 0 } }
fn hash<T: Hash>(t: &T) -> Vec<u8> { let mut h = Rec(Vec::new()); t.hash(&mut h); h.0 }
#[no_mangle]
extern "C" fn h_traits() { clean! { // comparison, hashing and formatting act on the target; null sorts first
    let mk = |n: &core::ffi::CStr| -> Option<u32> { if choice(2, c"null") == 1 { None } else { Some(u32_(n)) } };
    let (a, b) = (mk(c"a"), mk(c"b")); let ptr = |o: Option<u32>| match o { None => UniquePtr::null(), Some(v) => UniquePtr::new(Sh { v, s: String::new() }) }; let (p, q) = (ptr(a), ptr(b));
    check((p == q) == (a == b), c"eq"); check(p.cmp(&q) == a.cmp(&b), c"cmp"); check(p.partial_cmp(&q) == Some(a.cmp(&b)), c"partial_cmp"); check((p < q) == (a.cmp(&b) == Ordering::Less), c"lt");
    check(eq(&hash(&p), &hash(&p.as_ref())), c"hash-as-target"); if a == b { check(eq(&hash(&p), &hash(&q)), c"hash-agrees-with-eq") }
    let null = choice(2, c"fmt-null") == 1; let s = if null { UniquePtr::null() } else { let mut s = UniquePtr::<CxxString>::null(); ffi::reset_str(Pin::new(&mut s), 0x61626364); s };
    let d = format!("{}", s); let g = format!("{:?}", s); if null { check(d == "nullptr" && g == "nullptr", c"format-null") } else { check(d == s.to_str().unwrap() && g == format!("{:?}", s.to_str().unwrap()), c"format") }
} }
/// Which forwarded call reached the target, with what.
static mut LOG: [u64; 3] = [0; 3];
fn log(k: u64, n: usize) { unsafe { LOG = [k, n as u64, LOG[2] + 1] } }
fn was(k: u64, n: usize) { unsafe { check(LOG == [k, n as u64, 1], c"forwarded"); LOG = [0; 3] } }
impl<'a> Read for Pin<&'a mut Obj> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { log(1, b.len()); self.as_mut().set(1); Ok(b.len() / 2) } fn read_to_end(&mut self, b: &mut Vec<u8>) -> io::Result<usize> { log(2, b.len()); b.push(1); Ok(11) } fn read_to_string(&mut self, b: &mut String) -> io::Result<usize> { log(3, b.len()); b.push('r'); Ok(12) } fn read_exact(&mut self, b: &mut [u8]) -> io::Result<()> { log(4, b.len()); Ok(()) } }
impl<'a> Seek for Pin<&'a mut Obj> { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { log(5, match p { SeekFrom::Start(n) => n as usize, SeekFrom::End(n) => n as usize + 1000, SeekFrom::Current(n) => n as usize + 2000 }); Ok(77) } fn rewind(&mut self) -> io::Result<()> { log(6, 0); Ok(()) } fn stream_position(&mut self) -> io::Result<u64> { log(7, 0); Ok(78) } fn seek_relative(&mut self, n: i64) -> io::Result<()> { log(8, n as usize); Ok(()) } }
impl<'a> Write for Pin<&'a mut Obj> { fn write(&mut self, b: &[u8]) -> io::Result<usize> { log(9, b.len()); Ok(b.len() / 2) } fn write_vectored(&mut self, b: &[IoSlice]) -> io::Result<usize> { log(10, b.len()); Ok(13) } fn flush(&mut self) -> io::Result<()> { log(11, 0); Ok(()) } fn write_all(&mut self, b: &[u8]) -> io::Result<()> { log(12, b.len()); Ok(()) } fn write_fmt(&mut self, a: fmt::Arguments) -> io::Result<()> { log(13, a.as_str().map_or(0, str::len)); Ok(()) } }
#[no_mangle]
extern "C" fn h_io() { clean! {
    let n = choice(4, c"n"); let mut o = ffi::mk_obj(5); let mut b = [0u8; 4]; let k = u64_(32, c"k");
    match choice(13, c"call") {
        0 => { check(matches!(o.read(&mut b[..n]), Ok(r) if r == n / 2), c"read"); was(1, n); check(o.val() == 1, c"on-the-target"); }
        1 => { let mut v = vec![0; n]; check(matches!(o.read_to_end(&mut v), Ok(11)) && v.len() == n + 1, c"read_to_end"); was(2, n); }
        2 => { let mut s = "x".repeat(n); check(matches!(o.read_to_string(&mut s), Ok(12)) && s.len() == n + 1, c"read_to_string"); was(3, n); }
        3 => { check(o.read_exact(&mut b[..n]).is_ok(), c"read_exact"); was(4, n); }
        4 => { check(matches!(o.seek(SeekFrom::Start(k)), Ok(77)), c"seek"); was(5, k as usize); } 5 => { o.seek(SeekFrom::End(k as i64)).unwrap(); was(5, k as usize + 1000); } 6 => { o.seek(SeekFrom::Current(k as i64)).unwrap(); was(5, k as usize + 2000); }
        7 => { check(o.rewind().is_ok(), c"rewind"); was(6, 0); } 8 => { check(matches!(o.stream_position(), Ok(78)), c"stream_position"); was(7, 0); }
        9 => { check(matches!(o.write(&b[..n]), Ok(r) if r == n / 2), c"write"); was(9, n); } 10 => { let e = [IoSlice::new(&b), IoSlice::new(&b[1..]), IoSlice::new(&b)]; check(matches!(o.write_vectored(&e[..n.min(3)]), Ok(13)), c"write_vectored"); was(10, n.min(3)); }
        11 => { check(o.flush().is_ok(), c"flush"); was(11, 0); }
        _ => { if n > 1 { check(o.write_all(&b[..n]).is_ok(), c"write_all"); was(12, n); } else { check(write!(o, "fmt").is_ok(), c"write_fmt"); was(13, 3); } }
    } } }
