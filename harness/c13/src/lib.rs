pub use cxx;
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use core::pin::Pin;
use cxx::memory::{SharedPtrTarget, WeakPtrTarget};
use cxx::{CxxString, ExternType, SharedPtr, WeakPtr};
use std::panic::{catch_unwind, AssertUnwindSafe};
#[path = "../../common/sym.rs"]
mod sym;
use sym::*;
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Tr { a: u32, b: u8 }
unsafe impl ExternType for Tr { type Id = cxx::type_id!("Tr"); type Kind = cxx::kind::Trivial; }
#[cxx::bridge]
pub mod ffi {
    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
    struct Sh { v: u32, s: String }
    #[repr(u8)]
    enum En { A, B = 7 }
    struct Hold { p: SharedPtr<Obj>, w: WeakPtr<Obj>, q: SharedPtr<Obj> }
    unsafe extern "C++" {
        include!("c13.h");
        type Obj;
        type Base;
        type Tr = super::Tr;
        type Big;
        fn alive() -> i32;
        fn val(self: &Obj) -> u32;
        fn member(p: &SharedPtr<Obj>) -> SharedPtr<u32>;
        fn hollow(p: &SharedPtr<Obj>) -> SharedPtr<Obj>;
        fn bval(b: &Base) -> u32;
        fn bigval(b: &Big) -> u32;
        fn swap_hold(h: Hold) -> Hold;
        fn mk_obj(v: u64) -> SharedPtr<Obj>; fn put_obj(p: SharedPtr<Obj>) -> usize; fn take_obj() -> SharedPtr<Obj>; fn look_obj(p: &SharedPtr<Obj>) -> usize; fn count_obj(p: &SharedPtr<Obj>) -> usize; fn try_obj(p: SharedPtr<Obj>, ok: bool) -> Result<SharedPtr<Obj>>; fn reset_obj(p: Pin<&mut SharedPtr<Obj>>); fn val_obj(p: &SharedPtr<Obj>) -> u64; fn wput_obj(p: WeakPtr<Obj>) -> usize; fn wtake_obj() -> WeakPtr<Obj>; fn wlook_obj(p: &WeakPtr<Obj>) -> usize; fn wcount_obj(p: &WeakPtr<Obj>) -> usize; fn wof_obj(p: &SharedPtr<Obj>) -> WeakPtr<Obj>; fn lock_obj(p: WeakPtr<Obj>) -> SharedPtr<Obj>;
        fn mk_base(v: u64) -> SharedPtr<Base>; fn put_base(p: SharedPtr<Base>) -> usize; fn take_base() -> SharedPtr<Base>; fn look_base(p: &SharedPtr<Base>) -> usize; fn count_base(p: &SharedPtr<Base>) -> usize; fn try_base(p: SharedPtr<Base>, ok: bool) -> Result<SharedPtr<Base>>; fn reset_base(p: Pin<&mut SharedPtr<Base>>); fn val_base(p: &SharedPtr<Base>) -> u64; fn wput_base(p: WeakPtr<Base>) -> usize; fn wtake_base() -> WeakPtr<Base>; fn wlook_base(p: &WeakPtr<Base>) -> usize; fn wcount_base(p: &WeakPtr<Base>) -> usize; fn wof_base(p: &SharedPtr<Base>) -> WeakPtr<Base>; fn lock_base(p: WeakPtr<Base>) -> SharedPtr<Base>;
        fn mk_big(v: u64) -> SharedPtr<Big>; fn put_big(p: SharedPtr<Big>) -> usize; fn take_big() -> SharedPtr<Big>; fn look_big(p: &SharedPtr<Big>) -> usize; fn count_big(p: &SharedPtr<Big>) -> usize; fn try_big(p: SharedPtr<Big>, ok: bool) -> Result<SharedPtr<Big>>; fn reset_big(p: Pin<&mut SharedPtr<Big>>); fn val_big(p: &SharedPtr<Big>) -> u64; fn wput_big(p: WeakPtr<Big>) -> usize; fn wtake_big() -> WeakPtr<Big>; fn wlook_big(p: &WeakPtr<Big>) -> usize; fn wcount_big(p: &WeakPtr<Big>) -> usize; fn wof_big(p: &SharedPtr<Big>) -> WeakPtr<Big>; fn lock_big(p: WeakPtr<Big>) -> SharedPtr<Big>;
        fn mk_str(v: u64) -> SharedPtr<CxxString>; fn put_str(p: SharedPtr<CxxString>) -> usize; fn take_str() -> SharedPtr<CxxString>; fn look_str(p: &SharedPtr<CxxString>) -> usize; fn count_str(p: &SharedPtr<CxxString>) -> usize; fn try_str(p: SharedPtr<CxxString>, ok: bool) -> Result<SharedPtr<CxxString>>; fn reset_str(p: Pin<&mut SharedPtr<CxxString>>); fn val_str(p: &SharedPtr<CxxString>) -> u64; fn wput_str(p: WeakPtr<CxxString>) -> usize; fn wtake_str() -> WeakPtr<CxxString>; fn wlook_str(p: &WeakPtr<CxxString>) -> usize; fn wcount_str(p: &WeakPtr<CxxString>) -> usize; fn wof_str(p: &SharedPtr<CxxString>) -> WeakPtr<CxxString>; fn lock_str(p: WeakPtr<CxxString>) -> SharedPtr<CxxString>;
        fn mk_sh(v: u64) -> SharedPtr<Sh>; fn put_sh(p: SharedPtr<Sh>) -> usize; fn take_sh() -> SharedPtr<Sh>; fn look_sh(p: &SharedPtr<Sh>) -> usize; fn count_sh(p: &SharedPtr<Sh>) -> usize; fn try_sh(p: SharedPtr<Sh>, ok: bool) -> Result<SharedPtr<Sh>>; fn reset_sh(p: Pin<&mut SharedPtr<Sh>>); fn val_sh(p: &SharedPtr<Sh>) -> u64; fn wput_sh(p: WeakPtr<Sh>) -> usize; fn wtake_sh() -> WeakPtr<Sh>; fn wlook_sh(p: &WeakPtr<Sh>) -> usize; fn wcount_sh(p: &WeakPtr<Sh>) -> usize; fn wof_sh(p: &SharedPtr<Sh>) -> WeakPtr<Sh>; fn lock_sh(p: WeakPtr<Sh>) -> SharedPtr<Sh>;
        fn mk_tr(v: u64) -> SharedPtr<Tr>; fn put_tr(p: SharedPtr<Tr>) -> usize; fn take_tr() -> SharedPtr<Tr>; fn look_tr(p: &SharedPtr<Tr>) -> usize; fn count_tr(p: &SharedPtr<Tr>) -> usize; fn try_tr(p: SharedPtr<Tr>, ok: bool) -> Result<SharedPtr<Tr>>; fn reset_tr(p: Pin<&mut SharedPtr<Tr>>); fn val_tr(p: &SharedPtr<Tr>) -> u64; fn wput_tr(p: WeakPtr<Tr>) -> usize; fn wtake_tr() -> WeakPtr<Tr>; fn wlook_tr(p: &WeakPtr<Tr>) -> usize; fn wcount_tr(p: &WeakPtr<Tr>) -> usize; fn wof_tr(p: &SharedPtr<Tr>) -> WeakPtr<Tr>; fn lock_tr(p: WeakPtr<Tr>) -> SharedPtr<Tr>;
        fn mk_en(v: u64) -> SharedPtr<En>; fn put_en(p: SharedPtr<En>) -> usize; fn take_en() -> SharedPtr<En>; fn look_en(p: &SharedPtr<En>) -> usize; fn count_en(p: &SharedPtr<En>) -> usize; fn try_en(p: SharedPtr<En>, ok: bool) -> Result<SharedPtr<En>>; fn reset_en(p: Pin<&mut SharedPtr<En>>); fn val_en(p: &SharedPtr<En>) -> u64; fn wput_en(p: WeakPtr<En>) -> usize; fn wtake_en() -> WeakPtr<En>; fn wlook_en(p: &WeakPtr<En>) -> usize; fn wcount_en(p: &WeakPtr<En>) -> usize; fn wof_en(p: &SharedPtr<En>) -> WeakPtr<En>; fn lock_en(p: WeakPtr<En>) -> SharedPtr<En>;
        fn mk_bool(v: u64) -> SharedPtr<bool>; fn put_bool(p: SharedPtr<bool>) -> usize; fn take_bool() -> SharedPtr<bool>; fn look_bool(p: &SharedPtr<bool>) -> usize; fn count_bool(p: &SharedPtr<bool>) -> usize; fn try_bool(p: SharedPtr<bool>, ok: bool) -> Result<SharedPtr<bool>>; fn reset_bool(p: Pin<&mut SharedPtr<bool>>); fn val_bool(p: &SharedPtr<bool>) -> u64; fn wput_bool(p: WeakPtr<bool>) -> usize; fn wtake_bool() -> WeakPtr<bool>; fn wlook_bool(p: &WeakPtr<bool>) -> usize; fn wcount_bool(p: &WeakPtr<bool>) -> usize; fn wof_bool(p: &SharedPtr<bool>) -> WeakPtr<bool>; fn lock_bool(p: WeakPtr<bool>) -> SharedPtr<bool>;
        fn mk_u8(v: u64) -> SharedPtr<u8>; fn put_u8(p: SharedPtr<u8>) -> usize; fn take_u8() -> SharedPtr<u8>; fn look_u8(p: &SharedPtr<u8>) -> usize; fn count_u8(p: &SharedPtr<u8>) -> usize; fn try_u8(p: SharedPtr<u8>, ok: bool) -> Result<SharedPtr<u8>>; fn reset_u8(p: Pin<&mut SharedPtr<u8>>); fn val_u8(p: &SharedPtr<u8>) -> u64; fn wput_u8(p: WeakPtr<u8>) -> usize; fn wtake_u8() -> WeakPtr<u8>; fn wlook_u8(p: &WeakPtr<u8>) -> usize; fn wcount_u8(p: &WeakPtr<u8>) -> usize; fn wof_u8(p: &SharedPtr<u8>) -> WeakPtr<u8>; fn lock_u8(p: WeakPtr<u8>) -> SharedPtr<u8>;
        fn mk_u16(v: u64) -> SharedPtr<u16>; fn put_u16(p: SharedPtr<u16>) -> usize; fn take_u16() -> SharedPtr<u16>; fn look_u16(p: &SharedPtr<u16>) -> usize; fn count_u16(p: &SharedPtr<u16>) -> usize; fn try_u16(p: SharedPtr<u16>, ok: bool) -> Result<SharedPtr<u16>>; fn reset_u16(p: Pin<&mut SharedPtr<u16>>); fn val_u16(p: &SharedPtr<u16>) -> u64; fn wput_u16(p: WeakPtr<u16>) -> usize; fn wtake_u16() -> WeakPtr<u16>; fn wlook_u16(p: &WeakPtr<u16>) -> usize; fn wcount_u16(p: &WeakPtr<u16>) -> usize; fn wof_u16(p: &SharedPtr<u16>) -> WeakPtr<u16>; fn lock_u16(p: WeakPtr<u16>) -> SharedPtr<u16>;
        fn mk_u32(v: u64) -> SharedPtr<u32>; fn put_u32(p: SharedPtr<u32>) -> usize; fn take_u32() -> SharedPtr<u32>; fn look_u32(p: &SharedPtr<u32>) -> usize; fn count_u32(p: &SharedPtr<u32>) -> usize; fn try_u32(p: SharedPtr<u32>, ok: bool) -> Result<SharedPtr<u32>>; fn reset_u32(p: Pin<&mut SharedPtr<u32>>); fn val_u32(p: &SharedPtr<u32>) -> u64; fn wput_u32(p: WeakPtr<u32>) -> usize; fn wtake_u32() -> WeakPtr<u32>; fn wlook_u32(p: &WeakPtr<u32>) -> usize; fn wcount_u32(p: &WeakPtr<u32>) -> usize; fn wof_u32(p: &SharedPtr<u32>) -> WeakPtr<u32>; fn lock_u32(p: WeakPtr<u32>) -> SharedPtr<u32>;
        fn mk_u64(v: u64) -> SharedPtr<u64>; fn put_u64(p: SharedPtr<u64>) -> usize; fn take_u64() -> SharedPtr<u64>; fn look_u64(p: &SharedPtr<u64>) -> usize; fn count_u64(p: &SharedPtr<u64>) -> usize; fn try_u64(p: SharedPtr<u64>, ok: bool) -> Result<SharedPtr<u64>>; fn reset_u64(p: Pin<&mut SharedPtr<u64>>); fn val_u64(p: &SharedPtr<u64>) -> u64; fn wput_u64(p: WeakPtr<u64>) -> usize; fn wtake_u64() -> WeakPtr<u64>; fn wlook_u64(p: &WeakPtr<u64>) -> usize; fn wcount_u64(p: &WeakPtr<u64>) -> usize; fn wof_u64(p: &SharedPtr<u64>) -> WeakPtr<u64>; fn lock_u64(p: WeakPtr<u64>) -> SharedPtr<u64>;
        fn mk_usize(v: u64) -> SharedPtr<usize>; fn put_usize(p: SharedPtr<usize>) -> usize; fn take_usize() -> SharedPtr<usize>; fn look_usize(p: &SharedPtr<usize>) -> usize; fn count_usize(p: &SharedPtr<usize>) -> usize; fn try_usize(p: SharedPtr<usize>, ok: bool) -> Result<SharedPtr<usize>>; fn reset_usize(p: Pin<&mut SharedPtr<usize>>); fn val_usize(p: &SharedPtr<usize>) -> u64; fn wput_usize(p: WeakPtr<usize>) -> usize; fn wtake_usize() -> WeakPtr<usize>; fn wlook_usize(p: &WeakPtr<usize>) -> usize; fn wcount_usize(p: &WeakPtr<usize>) -> usize; fn wof_usize(p: &SharedPtr<usize>) -> WeakPtr<usize>; fn lock_usize(p: WeakPtr<usize>) -> SharedPtr<usize>;
        fn mk_i8(v: u64) -> SharedPtr<i8>; fn put_i8(p: SharedPtr<i8>) -> usize; fn take_i8() -> SharedPtr<i8>; fn look_i8(p: &SharedPtr<i8>) -> usize; fn count_i8(p: &SharedPtr<i8>) -> usize; fn try_i8(p: SharedPtr<i8>, ok: bool) -> Result<SharedPtr<i8>>; fn reset_i8(p: Pin<&mut SharedPtr<i8>>); fn val_i8(p: &SharedPtr<i8>) -> u64; fn wput_i8(p: WeakPtr<i8>) -> usize; fn wtake_i8() -> WeakPtr<i8>; fn wlook_i8(p: &WeakPtr<i8>) -> usize; fn wcount_i8(p: &WeakPtr<i8>) -> usize; fn wof_i8(p: &SharedPtr<i8>) -> WeakPtr<i8>; fn lock_i8(p: WeakPtr<i8>) -> SharedPtr<i8>;
        fn mk_i16(v: u64) -> SharedPtr<i16>; fn put_i16(p: SharedPtr<i16>) -> usize; fn take_i16() -> SharedPtr<i16>; fn look_i16(p: &SharedPtr<i16>) -> usize; fn count_i16(p: &SharedPtr<i16>) -> usize; fn try_i16(p: SharedPtr<i16>, ok: bool) -> Result<SharedPtr<i16>>; fn reset_i16(p: Pin<&mut SharedPtr<i16>>); fn val_i16(p: &SharedPtr<i16>) -> u64; fn wput_i16(p: WeakPtr<i16>) -> usize; fn wtake_i16() -> WeakPtr<i16>; fn wlook_i16(p: &WeakPtr<i16>) -> usize; fn wcount_i16(p: &WeakPtr<i16>) -> usize; fn wof_i16(p: &SharedPtr<i16>) -> WeakPtr<i16>; fn lock_i16(p: WeakPtr<i16>) -> SharedPtr<i16>;
        fn mk_i32(v: u64) -> SharedPtr<i32>; fn put_i32(p: SharedPtr<i32>) -> usize; fn take_i32() -> SharedPtr<i32>; fn look_i32(p: &SharedPtr<i32>) -> usize; fn count_i32(p: &SharedPtr<i32>) -> usize; fn try_i32(p: SharedPtr<i32>, ok: bool) -> Result<SharedPtr<i32>>; fn reset_i32(p: Pin<&mut SharedPtr<i32>>); fn val_i32(p: &SharedPtr<i32>) -> u64; fn wput_i32(p: WeakPtr<i32>) -> usize; fn wtake_i32() -> WeakPtr<i32>; fn wlook_i32(p: &WeakPtr<i32>) -> usize; fn wcount_i32(p: &WeakPtr<i32>) -> usize; fn wof_i32(p: &SharedPtr<i32>) -> WeakPtr<i32>; fn lock_i32(p: WeakPtr<i32>) -> SharedPtr<i32>;
        fn mk_i64(v: u64) -> SharedPtr<i64>; fn put_i64(p: SharedPtr<i64>) -> usize; fn take_i64() -> SharedPtr<i64>; fn look_i64(p: &SharedPtr<i64>) -> usize; fn count_i64(p: &SharedPtr<i64>) -> usize; fn try_i64(p: SharedPtr<i64>, ok: bool) -> Result<SharedPtr<i64>>; fn reset_i64(p: Pin<&mut SharedPtr<i64>>); fn val_i64(p: &SharedPtr<i64>) -> u64; fn wput_i64(p: WeakPtr<i64>) -> usize; fn wtake_i64() -> WeakPtr<i64>; fn wlook_i64(p: &WeakPtr<i64>) -> usize; fn wcount_i64(p: &WeakPtr<i64>) -> usize; fn wof_i64(p: &SharedPtr<i64>) -> WeakPtr<i64>; fn lock_i64(p: WeakPtr<i64>) -> SharedPtr<i64>;
        fn mk_isize(v: u64) -> SharedPtr<isize>; fn put_isize(p: SharedPtr<isize>) -> usize; fn take_isize() -> SharedPtr<isize>; fn look_isize(p: &SharedPtr<isize>) -> usize; fn count_isize(p: &SharedPtr<isize>) -> usize; fn try_isize(p: SharedPtr<isize>, ok: bool) -> Result<SharedPtr<isize>>; fn reset_isize(p: Pin<&mut SharedPtr<isize>>); fn val_isize(p: &SharedPtr<isize>) -> u64; fn wput_isize(p: WeakPtr<isize>) -> usize; fn wtake_isize() -> WeakPtr<isize>; fn wlook_isize(p: &WeakPtr<isize>) -> usize; fn wcount_isize(p: &WeakPtr<isize>) -> usize; fn wof_isize(p: &SharedPtr<isize>) -> WeakPtr<isize>; fn lock_isize(p: WeakPtr<isize>) -> SharedPtr<isize>;
        fn mk_f32(v: u64) -> SharedPtr<f32>; fn put_f32(p: SharedPtr<f32>) -> usize; fn take_f32() -> SharedPtr<f32>; fn look_f32(p: &SharedPtr<f32>) -> usize; fn count_f32(p: &SharedPtr<f32>) -> usize; fn try_f32(p: SharedPtr<f32>, ok: bool) -> Result<SharedPtr<f32>>; fn reset_f32(p: Pin<&mut SharedPtr<f32>>); fn val_f32(p: &SharedPtr<f32>) -> u64; fn wput_f32(p: WeakPtr<f32>) -> usize; fn wtake_f32() -> WeakPtr<f32>; fn wlook_f32(p: &WeakPtr<f32>) -> usize; fn wcount_f32(p: &WeakPtr<f32>) -> usize; fn wof_f32(p: &SharedPtr<f32>) -> WeakPtr<f32>; fn lock_f32(p: WeakPtr<f32>) -> SharedPtr<f32>;
        fn mk_f64(v: u64) -> SharedPtr<f64>; fn put_f64(p: SharedPtr<f64>) -> usize; fn take_f64() -> SharedPtr<f64>; fn look_f64(p: &SharedPtr<f64>) -> usize; fn count_f64(p: &SharedPtr<f64>) -> usize; fn try_f64(p: SharedPtr<f64>, ok: bool) -> Result<SharedPtr<f64>>; fn reset_f64(p: Pin<&mut SharedPtr<f64>>); fn val_f64(p: &SharedPtr<f64>) -> u64; fn wput_f64(p: WeakPtr<f64>) -> usize; fn wtake_f64() -> WeakPtr<f64>; fn wlook_f64(p: &WeakPtr<f64>) -> usize; fn wcount_f64(p: &WeakPtr<f64>) -> usize; fn wof_f64(p: &SharedPtr<f64>) -> WeakPtr<f64>; fn lock_f64(p: WeakPtr<f64>) -> SharedPtr<f64>;
    }
    impl SharedPtr<Tr> {}
    impl WeakPtr<Tr> {}
}
use ffi::{Base, Big, En, Obj, Sh};
macro_rules! clean { ($($t:tt)*) => {{ let l0 = live(); let a0 = ffi::alive(); { $($t)* } check(live() == l0, c"destroyed-once"); check(ffi::alive() == a0, c"destructor-once"); reach(c"done"); }} }
/// C++ side of the test for one pointee type.
trait Ty: SharedPtrTarget + WeakPtrTarget + Sized { const BITS: u64; fn val(&self) -> u64; fn new(v: u64) -> Option<SharedPtr<Self>>; fn mk(v: u64) -> SharedPtr<Self>; fn put(p: SharedPtr<Self>) -> usize; fn take() -> SharedPtr<Self>; fn look(p: &SharedPtr<Self>) -> usize; fn count(p: &SharedPtr<Self>) -> usize; fn tr(p: SharedPtr<Self>, ok: bool) -> Option<SharedPtr<Self>>; fn reset(p: Pin<&mut SharedPtr<Self>>); fn cval(p: &SharedPtr<Self>) -> u64; fn wput(p: WeakPtr<Self>) -> usize; fn wtake() -> WeakPtr<Self>; fn wlook(p: &WeakPtr<Self>) -> usize; fn wcount(p: &WeakPtr<Self>) -> usize; fn wof(p: &SharedPtr<Self>) -> WeakPtr<Self>; fn lock(p: WeakPtr<Self>) -> SharedPtr<Self>; }
macro_rules! ty { ($t:ty, $bits:expr, $mk:ident $put:ident $take:ident $look:ident $count:ident $tr:ident $reset:ident $cval:ident $wput:ident $wtake:ident $wlook:ident $wcount:ident $wof:ident $lock:ident, $val:expr, $new:expr) => { impl Ty for $t { const BITS: u64 = $bits; fn val(&self) -> u64 { let f: fn(&$t) -> u64 = $val; f(self) } fn new(v: u64) -> Option<SharedPtr<Self>> { let f: fn(u64) -> Option<SharedPtr<$t>> = $new; f(v) } fn mk(v: u64) -> SharedPtr<Self> { ffi::$mk(v) } fn put(p: SharedPtr<Self>) -> usize { ffi::$put(p) } fn take() -> SharedPtr<Self> { ffi::$take() } fn look(p: &SharedPtr<Self>) -> usize { ffi::$look(p) } fn count(p: &SharedPtr<Self>) -> usize { ffi::$count(p) } fn tr(p: SharedPtr<Self>, ok: bool) -> Option<SharedPtr<Self>> { ffi::$tr(p, ok).ok() } fn reset(p: Pin<&mut SharedPtr<Self>>) { ffi::$reset(p) } fn cval(p: &SharedPtr<Self>) -> u64 { ffi::$cval(p) } fn wput(p: WeakPtr<Self>) -> usize { ffi::$wput(p) } fn wtake() -> WeakPtr<Self> { ffi::$wtake() } fn wlook(p: &WeakPtr<Self>) -> usize { ffi::$wlook(p) } fn wcount(p: &WeakPtr<Self>) -> usize { ffi::$wcount(p) } fn wof(p: &SharedPtr<Self>) -> WeakPtr<Self> { ffi::$wof(p) } fn lock(p: WeakPtr<Self>) -> SharedPtr<Self> { ffi::$lock(p) } } } }
ty!(Obj, 32, mk_obj put_obj take_obj look_obj count_obj try_obj reset_obj val_obj wput_obj wtake_obj wlook_obj wcount_obj wof_obj lock_obj, |o| o.val() as u64, |v| { let _ = v; None });
ty!(Base, 32, mk_base put_base take_base look_base count_base try_base reset_base val_base wput_base wtake_base wlook_base wcount_base wof_base lock_base, |o| ffi::bval(o) as u64, |v| { let _ = v; None });
ty!(Big, 32, mk_big put_big take_big look_big count_big try_big reset_big val_big wput_big wtake_big wlook_big wcount_big wof_big lock_big, |o| ffi::bigval(o) as u64, |v| { let _ = v; None });
ty!(CxxString, 32, mk_str put_str take_str look_str count_str try_str reset_str val_str wput_str wtake_str wlook_str wcount_str wof_str lock_str, |s| { let b = s.as_bytes(); u32::from_le_bytes([b[16], b[17], b[18], b[19]]) as u64 }, |v| { let _ = v; None });
ty!(Sh, 32, mk_sh put_sh take_sh look_sh count_sh try_sh reset_sh val_sh wput_sh wtake_sh wlook_sh wcount_sh wof_sh lock_sh, |s| s.v as u64, |v| { let _ = v; Some(SharedPtr::new(Sh { v: v as u32, s: String::from("owned") })) });
ty!(Tr, 32, mk_tr put_tr take_tr look_tr count_tr try_tr reset_tr val_tr wput_tr wtake_tr wlook_tr wcount_tr wof_tr lock_tr, |s| s.a as u64, |v| { let _ = v; Some(SharedPtr::new(Tr { a: v as u32, b: 1 })) });
ty!(En, 8, mk_en put_en take_en look_en count_en try_en reset_en val_en wput_en wtake_en wlook_en wcount_en wof_en lock_en, |e| e.repr as u64, |v| { let _ = v; Some(SharedPtr::new(En { repr: v as u8 })) });
ty!(bool, 1, mk_bool put_bool take_bool look_bool count_bool try_bool reset_bool val_bool wput_bool wtake_bool wlook_bool wcount_bool wof_bool lock_bool, |x| *x as u64, |v| { let _ = v; Some(SharedPtr::new(v != 0)) });
ty!(u8, 8, mk_u8 put_u8 take_u8 look_u8 count_u8 try_u8 reset_u8 val_u8 wput_u8 wtake_u8 wlook_u8 wcount_u8 wof_u8 lock_u8, |x| *x as u64, |v| { let _ = v; Some(SharedPtr::new(v as u8)) });
ty!(u16, 16, mk_u16 put_u16 take_u16 look_u16 count_u16 try_u16 reset_u16 val_u16 wput_u16 wtake_u16 wlook_u16 wcount_u16 wof_u16 lock_u16, |x| *x as u64, |v| { let _ = v; Some(SharedPtr::new(v as u16)) });
ty!(u32, 32, mk_u32 put_u32 take_u32 look_u32 count_u32 try_u32 reset_u32 val_u32 wput_u32 wtake_u32 wlook_u32 wcount_u32 wof_u32 lock_u32, |x| *x as u64, |v| { let _ = v; Some(SharedPtr::new(v as u32)) });
ty!(u64, 64, mk_u64 put_u64 take_u64 look_u64 count_u64 try_u64 reset_u64 val_u64 wput_u64 wtake_u64 wlook_u64 wcount_u64 wof_u64 lock_u64, |x| *x as u64, |v| { let _ = v; Some(SharedPtr::new(v as u64)) });
ty!(usize, 64, mk_usize put_usize take_usize look_usize count_usize try_usize reset_usize val_usize wput_usize wtake_usize wlook_usize wcount_usize wof_usize lock_usize, |x| *x as u64, |v| { let _ = v; Some(SharedPtr::new(v as usize)) });
ty!(i8, 8, mk_i8 put_i8 take_i8 look_i8 count_i8 try_i8 reset_i8 val_i8 wput_i8 wtake_i8 wlook_i8 wcount_i8 wof_i8 lock_i8, |x| *x as u8 as u64, |v| { let _ = v; Some(SharedPtr::new(v as i8)) });
ty!(i16, 16, mk_i16 put_i16 take_i16 look_i16 count_i16 try_i16 reset_i16 val_i16 wput_i16 wtake_i16 wlook_i16 wcount_i16 wof_i16 lock_i16, |x| *x as u16 as u64, |v| { let _ = v; Some(SharedPtr::new(v as i16)) });
ty!(i32, 32, mk_i32 put_i32 take_i32 look_i32 count_i32 try_i32 reset_i32 val_i32 wput_i32 wtake_i32 wlook_i32 wcount_i32 wof_i32 lock_i32, |x| *x as u32 as u64, |v| { let _ = v; Some(SharedPtr::new(v as i32)) });
ty!(i64, 64, mk_i64 put_i64 take_i64 look_i64 count_i64 try_i64 reset_i64 val_i64 wput_i64 wtake_i64 wlook_i64 wcount_i64 wof_i64 lock_i64, |x| *x as u64 as u64, |v| { let _ = v; Some(SharedPtr::new(v as i64)) });
ty!(isize, 64, mk_isize put_isize take_isize look_isize count_isize try_isize reset_isize val_isize wput_isize wtake_isize wlook_isize wcount_isize wof_isize lock_isize, |x| *x as usize as u64, |v| { let _ = v; Some(SharedPtr::new(v as isize)) });
ty!(f32, 32, mk_f32 put_f32 take_f32 look_f32 count_f32 try_f32 reset_f32 val_f32 wput_f32 wtake_f32 wlook_f32 wcount_f32 wof_f32 lock_f32, |x| x.to_bits() as u64, |v| { let _ = v; Some(SharedPtr::new(f32::from_bits(v as u32))) });
ty!(f64, 64, mk_f64 put_f64 take_f64 look_f64 count_f64 try_f64 reset_f64 val_f64 wput_f64 wtake_f64 wlook_f64 wcount_f64 wof_f64 lock_f64, |x| x.to_bits(), |v| { let _ = v; Some(SharedPtr::new(f64::from_bits(v))) });

/// An object made by the history; slot contents are indices into the list of them, 0 being null.
#[derive(Clone, Copy)]
struct M { at: usize, v: u64 }
fn see<T: Ty>(p: &SharedPtr<T>, m: M, n: usize) {
    check(p.is_null() == (m.at == 0), c"is_null"); check(T::look(p) == m.at, c"same-pointer-in-c++"); check(T::count(p) == n, c"use_count");
    match p.as_ref() { Some(t) => { check(m.at != 0 && t as *const T as usize == m.at, c"as_ref"); check(t.val() == m.v, c"value-in-rust"); check(T::cval(p) == m.v, c"value-in-c++"); let r: &T = p; check(r as *const T as usize == m.at, c"deref"); } None => check(m.at == 0, c"as_ref-null") }
}
fn wsee<T: Ty>(p: &WeakPtr<T>, m: M, n: usize) {
    check(T::wcount(p) == n, c"weak-use_count"); let at = if n > 0 { m.at } else { 0 }; check(T::wlook(p) == at, c"lock-in-c++");
    let u = p.upgrade(); check(T::look(&u) == at && u.is_null() == (n == 0), c"upgrade"); check(T::count(&u) == if n > 0 { n + 1 } else { 0 }, c"upgrade-counts");
}
fn history<T: Ty>(steps: usize) { clean! {
    let a0 = ffi::alive(); let counts = counts::<T>();
    let mut s = [SharedPtr::<T>::null(), SharedPtr::<T>::null()]; let mut w = WeakPtr::<T>::null();
    // 0, 1: Rust strong slots; 2: C++ strong slot; 3: Rust weak slot; 4: C++ weak slot
    let mut m = [0usize; 5]; let mut objs = [M { at: 0, v: 0 }; 8]; let mut nobj = 1;
    for k in 0..steps { let i = if k == 0 { 0 } else { choice(2, c"slot") };
        match choice(if k == 0 { 2 } else { 16 }, c"op") {
            0 => { let v = u64_(T::BITS, c"v"); s[i] = T::mk(v); objs[nobj] = M { at: T::look(&s[i]), v }; check(!s[i].is_null(), c"created"); m[i] = nobj; nobj += 1; }
            1 => { let v = u64_(T::BITS, c"v"); match T::new(v) { Some(p) => { s[i] = p; objs[nobj] = M { at: T::look(&s[i]), v }; check(!s[i].is_null(), c"new"); m[i] = nobj; nobj += 1; } None => return } }
            2 => { s[i] = SharedPtr::null(); m[i] = 0; }
            3 => { s[i] = s[1 - i].clone(); m[i] = m[1 - i]; }
            4 => { let p = core::mem::replace(&mut s[i], SharedPtr::null()); check(T::put(p) == objs[m[i]].at, c"given-to-c++"); m[2] = m[i]; m[i] = 0; }
            5 => { check(T::put(s[i].clone()) == objs[m[i]].at, c"shared-with-c++"); m[2] = m[i]; }
            6 => { s[i] = T::take(); m[i] = m[2]; m[2] = 0; }
            7 => { w = s[i].downgrade(); m[3] = m[i]; }
            8 => { w = T::wof(&s[i]); m[3] = m[i]; }
            9 => { s[i] = w.upgrade(); if (0..3).any(|j| m[j] == m[3]) { m[i] = m[3]; } else { m[i] = 0; } }
            10 => { let at = T::wput(w.clone()); check(at == if (0..3).any(|j| m[j] == m[3]) { objs[m[3]].at } else { 0 }, c"weak-given-to-c++"); m[4] = m[3]; }
            11 => { w = T::wtake(); m[3] = m[4]; m[4] = 0; }
            12 => { s[i] = T::lock(w.clone()); if (0..3).any(|j| m[j] == m[3]) { m[i] = m[3]; } else { m[i] = 0; } }
            13 => { let ok = choice(2, c"ok") == 1; let p = core::mem::replace(&mut s[i], SharedPtr::null()); match T::tr(p, ok) { Some(p) => { check(ok, c"result"); s[i] = p; } None => { check(!ok, c"result"); m[i] = 0; } } }
            14 => { T::reset(Pin::new(&mut s[i])); m[i] = 0; }
            _ => { if s[i].is_null() { check(catch_unwind(AssertUnwindSafe(|| { (*s[i]).val(); })).is_err(), c"null-deref-panics"); break; } else { w = WeakPtr::null(); m[3] = 0; } }
        }
        let n = |o: usize| if o == 0 { 0 } else { (0..3).filter(|j| m[*j] == o).count() };
        see(&s[0], objs[m[0]], n(m[0])); see(&s[1], objs[m[1]], n(m[1])); wsee(&w, objs[m[3]], n(m[3]));
        if counts { let mut alive = 0; for o in 1..nobj { if n(o) > 0 { alive += 1; } } check(ffi::alive() == a0 + alive, c"alive-exactly-while-shared"); }
    }
    drop(T::take()); drop(T::wtake());
} }
fn counts<T: Ty>() -> bool { let a = ffi::alive(); let p = T::mk(0); let b = ffi::alive(); drop(p); check(ffi::alive() == a, c"destructor"); b != a }
fn steps() -> usize { if thorough() { 5 } else { 4 } }
#[no_mangle] extern "C" fn h_obj() { history::<Obj>(steps()) }
#[no_mangle] extern "C" fn h_base() { history::<Base>(steps()) }
#[no_mangle] extern "C" fn h_big() { history::<Big>(steps()) }
#[no_mangle] extern "C" fn h_str() { history::<CxxString>(steps()) }
#[no_mangle] extern "C" fn h_sh() { history::<Sh>(steps()) }
#[no_mangle] extern "C" fn h_tr() { history::<Tr>(steps()) }
#[no_mangle] extern "C" fn h_en() { history::<En>(steps()) }
#[no_mangle] extern "C" fn h_primitives() { match choice(13, c"primitive") { 0 => history::<bool>(2), 1 => history::<u8>(2), 2 => history::<u16>(2), 3 => history::<u32>(2), 4 => history::<u64>(2), 5 => history::<usize>(2), 6 => history::<i8>(2), 7 => history::<i16>(2), 8 => history::<i32>(2), 9 => history::<i64>(2), 10 => history::<isize>(2), 11 => history::<f32>(2), _ => history::<f64>(2), } }
#[no_mangle]
extern "C" fn h_alias() { clean! { // an aliasing pointer keeps the whole object alive
    let v = u32_(c"v"); let o = ffi::mk_obj(v as u64); let a = ffi::alive(); let f = ffi::member(&o); check(*f == v, c"member"); check(ffi::count_obj(&o) == 2 && ffi::count_u32(&f) == 2, c"shared-count");
    let w = if choice(2, c"weak") == 1 { f.downgrade() } else { WeakPtr::null() };
    if choice(2, c"first") == 0 { drop(o); check(ffi::alive() == a, c"kept-alive"); check(*f == v, c"member"); let g = f.clone(); drop(f); check(*g == v && ffi::alive() == a, c"kept-alive"); drop(g); check(ffi::alive() == a - 1, c"destroyed"); } else { drop(f); check(o.val() == v && ffi::count_obj(&o) == 1, c"count"); drop(o); check(ffi::alive() == a - 1, c"destroyed"); }
    check(w.upgrade().is_null(), c"expired");
    let e = ffi::member(&SharedPtr::null()); check(e.is_null() && e.as_ref().is_none(), c"null-alias");
} }
#[no_mangle]
extern "C" fn h_alias_null() { clean! { // an aliasing pointer may point to nothing and still keep the object alive
    let v = u32_(c"v"); let o = ffi::mk_obj(v as u64); let a = ffi::alive(); let w = o.downgrade(); let mut n = 2usize; let mut all = vec![o, ffi::hollow(&SharedPtr::null())]; all[1] = ffi::hollow(&all[0]);
    for _ in 0..if thorough() { 4 } else { 3 } { match choice(6, c"op") {
        0 => { let c = all[all.len() - 1].clone(); all.push(c); n += 1; }
        1 => { let p = all.pop().unwrap(); if all.is_empty() { all.push(p) } else { drop(p); n -= 1; } }
        2 => { let at = ffi::look_obj(&all[all.len() - 1]); let p = all.pop().unwrap(); check(ffi::put_obj(p) == at, c"given-to-c++"); all.push(ffi::take_obj()); }
        3 => { let p = all[all.len() - 1].downgrade(); check(ffi::wcount_obj(&p) == n, c"weak-use_count"); let u = p.upgrade(); check(ffi::count_obj(&u) == n + 1, c"upgrade-counts"); all.push(u); n += 1; }
        4 => { if all.len() > 1 { drop(all.remove(0)); n -= 1; } }
        _ => { let p = all.pop().unwrap(); let h = ffi::swap_hold(ffi::Hold { w: p.downgrade(), q: SharedPtr::null(), p }); check(ffi::wcount_obj(&h.w) == n, c"weak-use_count"); let ffi::Hold { p, q, .. } = h; check(p.is_null(), c"fields-swapped"); all.push(q); }
    }
        check(ffi::alive() == a, c"kept-alive"); for p in &all { check(ffi::count_obj(p) == n, c"use_count"); if !p.is_null() { check(p.val() == v, c"value") } else { check(p.as_ref().is_none(), c"as_ref-null") } }
        let u = w.upgrade(); check(!u.is_null() && u.val() == v, c"upgrade");
    }
    drop(all); check(ffi::alive() == a - 1, c"destroyed"); check(w.upgrade().is_null(), c"expired");
} }
#[no_mangle]
extern "C" fn h_in_struct() { clean! { // as fields of a shared struct, through C++
    let (a, b) = (choice(2, c"a") == 1, choice(2, c"b") == 1); let (x, y) = (u32_(c"x"), u32_(c"y")); let null = SharedPtr::<Obj>::null;
    let p = if a { ffi::mk_obj(x as u64) } else { null() }; let q = if b { ffi::mk_obj(y as u64) } else { p.clone() }; let (pa, qa) = (ffi::look_obj(&p), ffi::look_obj(&q));
    let r = ffi::swap_hold(ffi::Hold { w: p.downgrade(), p, q }); check(ffi::look_obj(&r.p) == qa && ffi::look_obj(&r.q) == pa && ffi::wlook_obj(&r.w) == pa, c"fields-swapped"); if b { check(r.p.val() == y, c"value") } if a { check(r.q.val() == x, c"value"); }
    let ffi::Hold { p, w, q } = r; drop(p); drop(q); check(w.upgrade().is_null(), c"expired");
} }
struct Rec(Vec<u8>);
impl Hasher for Rec { fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) } fn finish(&self) -> u64 { 0 } }
fn hash<T: Hash>(t: &T) -> Vec<u8> { let mut h = Rec(Vec::new()); t.hash(&mut h); h.0 }
#[no_mangle]
extern "C" fn h_traits() { clean! { // comparison, hashing and formatting act on the target; null sorts first
    let mk = |n: &core::ffi::CStr| -> Option<u32> { if choice(2, c"null") == 1 { None } else { Some(u32_(n)) } };
    let (a, b) = (mk(c"a"), mk(c"b")); let ptr = |o: Option<u32>| match o { None => SharedPtr::null(), Some(v) => SharedPtr::new(Sh { v, s: String::new() }) }; let (p, q) = (ptr(a), ptr(b));
    check((p == q) == (a == b), c"eq"); check(p.cmp(&q) == a.cmp(&b), c"cmp"); check(p.partial_cmp(&q) == Some(a.cmp(&b)), c"partial_cmp"); check((p < q) == (a.cmp(&b) == Ordering::Less), c"lt");
    check(eq(&hash(&p), &hash(&p.as_ref())), c"hash-as-target"); if a == b { check(eq(&hash(&p), &hash(&q)), c"hash-agrees-with-eq") }
    let s: SharedPtr<CxxString> = if choice(2, c"fmt-null") == 1 { SharedPtr::null() } else { ffi::mk_str(0x61626364) }; let w = s.downgrade();
    let (d, g, h) = (format!("{}", s), format!("{:?}", s), format!("{:?}", w)); if s.is_null() { check(d == "nullptr" && g == "nullptr" && h == "nullptr", c"format-null") } else { check(d == s.to_str().unwrap() && g == format!("{:?}", s.to_str().unwrap()) && h == g, c"format"); drop(s); check(format!("{:?}", w) == "nullptr", c"format-expired"); }
} }
