pub use cxx;
#[path = "../../common/sym.rs"]
mod sym;
use sym::*;
use core::ffi::CStr;
pub struct Op(u32, Box<u8>);
fn op(v: u32) -> Box<Op> { Box::new(Op(v, Box::new(1))) }
fn opv(o: &Op) -> u32 { o.0 }
#[cxx::bridge]
pub mod ffi {
    struct S { v: u32, s: String, w: [u16; 9] }
    struct Sm { v: u8 }
    #[repr(u8)]
    enum E { A, B }
    extern "Rust" { type Op; fn op(v: u32) -> Box<Op>; fn opv(o: &Op) -> u32; }
    unsafe extern "C++" {
        include!("c08.h");
        type Obj;
        fn obj(v: u32) -> UniquePtr<Obj>;
        fn sobj(v: u32) -> SharedPtr<Obj>;
        fn t_unit(ok: bool, m: &[u8], how: u8) -> Result<()>;
        fn t_u8(ok: bool, m: &[u8], v: u8) -> Result<u8>;
        fn t_u64(ok: bool, m: &[u8], v: u64) -> Result<u64>;
        fn t_bool(ok: bool, m: &[u8], v: bool) -> Result<bool>;
        fn t_f32(ok: bool, m: &[u8], v: f32) -> Result<f32>;
        fn t_string(ok: bool, m: &[u8], v: &str) -> Result<String>;
        fn t_str<'a>(ok: bool, m: &[u8], v: &'a str) -> Result<&'a str>;
        fn t_slice<'a>(ok: bool, m: &[u8], v: &'a [u32]) -> Result<&'a [u32]>;
        fn t_slice_mut<'a>(ok: bool, m: &[u8], v: &'a mut [u32]) -> Result<&'a mut [u32]>;
        fn t_box(ok: bool, m: &[u8], v: Box<Op>) -> Result<Box<Op>>;
        fn t_vec(ok: bool, m: &[u8], v: Vec<String>) -> Result<Vec<String>>;
        fn t_struct(ok: bool, m: &[u8], v: S) -> Result<S>;
        fn t_small(ok: bool, m: &[u8], v: Sm) -> Result<Sm>;
        fn t_enum(ok: bool, m: &[u8], v: E) -> Result<E>;
        fn t_ref<'a>(ok: bool, m: &[u8], v: &'a u32) -> Result<&'a u32>;
        unsafe fn t_ptr(ok: bool, m: &[u8], v: *mut u32) -> Result<*mut u32>;
        fn t_uptr(ok: bool, m: &[u8], v: UniquePtr<Obj>) -> Result<UniquePtr<Obj>>;
        fn t_sptr(ok: bool, m: &[u8], v: SharedPtr<Obj>) -> Result<SharedPtr<Obj>>;
        fn t_cxxvec(ok: bool, m: &[u8], n: usize) -> Result<UniquePtr<CxxVector<Obj>>>;
        fn get(self: &Obj, ok: bool, m: &[u8]) -> Result<u32>;
        fn set(self: Pin<&mut Obj>, ok: bool, m: &[u8], v: u32) -> Result<()>;
        fn val(self: &Obj) -> u32;
        fn nofail(ok: bool, m: &[u8], how: u8) -> u32;
        fn nofail_unit(ok: bool, m: &[u8]);
        fn nofail_get(self: &Obj, ok: bool) -> u32;
        fn alive() -> i32;
    }
    impl SharedPtr<Obj> {}
}
/// Runs one fallible call and checks the outcome, the message and that nothing leaks.
fn call<T>(ok: bool, want: &[u8], f: impl FnOnce() -> Result<T, cxx::Exception>, good: impl FnOnce(T) -> bool) {
    match f() {
        Ok(t) => { check(ok, c"err-iff-thrown"); check(good(t), c"ok-value"); reach(c"ok"); }
        Err(e) => { check(!ok, c"err-iff-thrown"); let w = e.what(); check(eq(w.as_bytes(), want), c"what-text"); check(core::str::from_utf8(w.as_bytes()).is_ok(), c"what-is-utf8");
            reach(c"err"); }
    }
}
fn short() -> (bool, Vec<u8>) { let n = choice(2, c"n"); let mut m = vec![0u8; n]; fill(&mut m, c"m"); for b in &m { assume(*b < 0x80 && *b != 0); } (choice(2, c"ok") == 1, m) }
macro_rules! leakfree { ($($t:tt)*) => {{ let l0 = live(); let a0 = ffi::alive(); { $($t)* } check(live() == l0, c"leak-free"); check(ffi::alive() == a0, c"objects-destroyed"); }} }
#[no_mangle]
extern "C" fn h_text() { // any bytes as what(), through each kind of exception
    leakfree! {
        let n = choice(if thorough() { 5 } else { 4 }, c"n"); let mut m = vec![0u8; n]; fill(&mut m, c"m"); let ok = choice(2, c"ok") == 1; let how = choice(7, c"how");
        // what() is a C string
        let end = m.iter().position(|b| *b == 0).unwrap_or(n);
        let keep = if how == 5 || how == 6 { &m[..] } else { &m[..end] };
        let want = String::from_utf8_lossy(keep).into_owned();
        call(ok, want.as_bytes(), || ffi::t_unit(ok, &m, how as u8), |_| true);
    }
}
#[no_mangle]
extern "C" fn h_text_long() { leakfree! {
    const L: [usize; 9] = [7, 8, 15, 16, 17, 31, 32, 33, 64]; let n = L[choice(9, c"n")]; let mut m = vec![b'a'; n]; fill(&mut m[n - 1..], c"last"); assume(m[n - 1] != 0);
    let want = String::from_utf8_lossy(&m).into_owned(); call(false, want.as_bytes(), || ffi::t_unit(false, &m, choice(7, c"how") as u8), |_| true);
} }
#[no_mangle]
extern "C" fn h_display() { leakfree! { // the error's own formatting
    let (_, m) = short(); let e = ffi::t_unit(false, &m, 0).unwrap_err(); let s = e.to_string(); check(eq(s.as_bytes(), &m), c"display-is-what"); let d = format!("{:?}", e); check(d.as_bytes().windows(m.len().max(1)).any(|w| m.is_empty() || w == &m[..]) || !m.iter().all(|b| b.is_ascii_alphanumeric()), c"debug-shows-what"); let _: &dyn std::error::Error = &e; drop(e);
} }
#[no_mangle]
extern "C" fn h_prim() { leakfree! { let (ok, m) = short(); let v = u64_(64, c"v");
    match choice(6, c"fn") {
        0 => call(ok, &m, || ffi::t_u8(ok, &m, v as u8), |r| r == v as u8),
        1 => call(ok, &m, || ffi::t_u64(ok, &m, v), |r| r == v),
        2 => call(ok, &m, || ffi::t_bool(ok, &m, v & 1 == 1), |r| r == (v & 1 == 1)),
        3 => call(ok, &m, || ffi::t_f32(ok, &m, f32::from_bits(v as u32)), |r| r.to_bits() == v as u32),
        4 => call(ok, &m, || ffi::t_small(ok, &m, ffi::Sm { v: v as u8 }), |r| r.v == v as u8),
        _ => call(ok, &m, || ffi::t_enum(ok, &m, ffi::E { repr: v as u8 }), |r| r.repr == v as u8),
    } } }
#[no_mangle]
extern "C" fn h_owned() { leakfree! { let (ok, m) = short(); let v = u32_(c"v");
    match choice(8, c"fn") {
        0 => call(ok, &m, || ffi::t_string(ok, &m, "hello"), |r| r == "hello"),
        1 => { let b = op(v); let a = &*b as *const Op; call(ok, &m, || ffi::t_box(ok, &m, b), |r| r.0 == v && &*r as *const Op == a) }
        2 => call(ok, &m, || ffi::t_vec(ok, &m, vec![String::from("a"), String::from("bc")]), |r| r.len() == 3 && r[1] == "bc" && r[2] == "pushed"),
        3 => call(ok, &m, || ffi::t_struct(ok, &m, ffi::S { v, s: String::from("x"), w: [7; 9] }), |r| r.v == v && r.s == "x" && r.w == [7; 9]),
        4 => { let p = ffi::obj(v); let a = p.as_ref().unwrap() as *const ffi::Obj; call(ok, &m, || ffi::t_uptr(ok, &m, p), |r| r.val() == v && r.as_ref().unwrap() as *const _ == a) }
        5 => { let p = cxx::UniquePtr::null(); call(ok, &m, || ffi::t_uptr(ok, &m, p), |r| r.is_null()) }
        6 => { let p = ffi::sobj(v); call(ok, &m, || ffi::t_sptr(ok, &m, p.clone()), |r| r.val() == v); check(p.val() == v, c"shared-alive") }
        _ => { let n = choice(3, c"len"); call(ok, &m, || ffi::t_cxxvec(ok, &m, n), |r| r.len() == n) }
    } } }
#[no_mangle]
extern "C" fn h_borrowed() { leakfree! { let (ok, m) = short(); let v = u32_(c"v"); let mut a = [v, 1, 2]; let at = a.as_ptr();
    match choice(7, c"fn") {
        0 => { let s = "hello"; call(ok, &m, || ffi::t_str(ok, &m, s), |r| r.as_ptr() == s.as_ptr() && r.len() == 5) }
        1 => call(ok, &m, || ffi::t_slice(ok, &m, &a), |r| r.as_ptr() == at && r.len() == 3),
        2 => call(ok, &m, || ffi::t_slice_mut(ok, &m, &mut a), |r| { let g = r.as_ptr() == at && r.len() == 3; r[0] = 9; g }),
        3 => call(ok, &m, || ffi::t_ref(ok, &m, &a[1]), |r| r as *const u32 == at.wrapping_add(1)),
        4 => { let p = if choice(2, c"null") == 1 { core::ptr::null_mut() } else { a.as_mut_ptr() }; call(ok, &m, || unsafe { ffi::t_ptr(ok, &m, p) }, |r| r == p) }
        5 => { let o = ffi::obj(v); call(ok, &m, || o.get(ok, &m), |r| r == v) }
        _ => { let mut o = ffi::obj(v); let w = u32_(c"w"); call(ok, &m, || o.pin_mut().set(ok, &m, w), |()| true); check(o.val() == if ok { w } else { v }, c"method-effect") }
    } } }
#[no_mangle]
extern "C" fn h_nofail() { // an exception leaving an infallible function ends the process
    let l0 = live();
    let ok = u8_(c"ok") != 0; let m = *b"boom";
    match choice(3, c"fn") {
        0 => { expect_abort(!ok); let r = ffi::nofail(ok, &m, choice(6, c"how") as u8); check(ok, c"no-return-after-throw"); check(r == 5, c"value"); }
        1 => { expect_abort(!ok); ffi::nofail_unit(ok, &m); check(ok, c"no-return-after-throw"); }
        _ => { let o = ffi::obj(3); expect_abort(!ok); let r = o.nofail_get(ok); check(ok && r == 3, c"no-return-after-throw"); }
    }
    check(live() == l0, c"leak-free");
}
#[no_mangle]
extern "C" fn h_foreign() { // an object that is not a std::exception, thrown by a fallible function, ends the process
    let ok = u8_(c"ok") != 0; expect_abort(!ok); let r = ffi::t_unit(ok, b"x", 100); check(ok && r.is_ok(), c"no-return-after-throw");
}
fn _unused(_: &CStr) {}
