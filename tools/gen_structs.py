#!/usr/bin/env python3
"""Writes harness/c16: shared structs mixing every field type class in several orders, and enums of every representation."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen_calls as G
H = G.H; V = [(i, r, c) for i, r, c in G.V] + [("cp", "*const u8", "const uint8_t *"), ("mp", "*mut N", "N *")]
# orders: 1, 5, 11 steps through the table, so that every class meets several neighbours and paddings
n = len(V); structs = []
def take(start, step, cnt): return [V[(start + step * j) % n] for j in range(cnt)]
for s in range(0, n, 6): structs.append(take(s, 1, 6))
for s in range(5): structs.append(take(3 * s, 7, 9))
for s in range(3): structs.append(take(s, 11, 8))
for p in (["u8", "u64", "u8"], ["bool", "f64", "u16", "u32"], ["u8"], ["n", "u8"], ["u8", "arr5", "u16", "p1", "en"], ["u64", "u8"]): structs.append([next(v for v in V if v[0] == x) for x in p])
nocopy = {"vr", "box", "boxn", "uobj", "ustr", "uvec", "un"}
prim = {a for a, _ in G.prims} | {"cp", "mp"}
zero = prim | {"string", "vu8", "vbool", "vf64", "vstring", "vp2", "vn", "vr", "uobj", "sobj", "su64", "wobj"}
dfl = lambda s: any(f[0] in zero for f in s) and not any(f[0] in ("box", "boxn", "tx") for f in s)
lists = {"f%d" % i: s for i, s in enumerate(structs)}
decl_s = "".join("    struct S%d { %s }\n" % (k, ", ".join("f%d: %s" % (i, f[1]) for i, f in enumerate(s))) for k, s in enumerate(structs))
ENUMS = [("Eu8", "u8", "uint8_t", [("A", 0), ("B", 1), ("C", 255)]), ("Ei8", "i8", "int8_t", [("A", -128), ("B", -1), ("C", 0), ("D", 127)]), ("Eu16", "u16", "uint16_t", [("A", 65535), ("B", 5)]), ("Eii16", "i16", "int16_t", [("A", -32768), ("B", 32767)]), ("Eu32", "u32", "uint32_t", [("A", 4294967295), ("B", 0)]), ("Ei32", "i32", "int32_t", [("A", -2147483648), ("B", 2147483647), ("C", -7)]), ("Euu64", "u64", "uint64_t", [("A", 2**64 - 1), ("B", 2**63)]), ("Ei64", "i64", "int64_t", [("A", -2**63), ("B", 2**63 - 1)]), ("Eusize", "usize", "size_t", [("A", 2**64 - 1), ("B", 1)]), ("Eisize", "isize", "rust::isize", [("A", -2**63), ("B", 2**63 - 1)]),
 ("Eimp", None, "uint8_t", [("A", None, 0), ("B", None, 1), ("C", 10), ("D", None, 11), ("E", 254), ("F", None, 255)]), ("Einf", None, None, [("A", 256), ("B", None, 257)]), ("Eneg", None, None, [("A", -3), ("B", None, -2), ("C", None, -1), ("D", None, 0), ("E", None, 1)]), ("Ebig", None, None, [("A", 2**31), ("B", 7)]), ("Eext", "u16", "uint16_t", [("A", 3), ("B", 900)])]
val = lambda v: v[-1]
decl_e = ""
for nm, rep, _, vs in ENUMS: decl_e += "    %senum %s { %s }\n" % ("#[repr(%s)] " % rep if rep else "", nm, ", ".join(v[0] if v[1] is None else "%s = %s" % (v[0], hex(v[1]) if v[1] > 99 else v[1]) for v in vs))
decl = "type Eext; "
for k, s in enumerate(structs):
    decl += "fn size_%d() -> usize; fn align_%d() -> usize; fn off_%d(i: usize) -> usize; fn get_%d(s: &S%d, i: usize); fn put_%d(s: &mut S%d, i: usize, v: u64, k: usize); fn mov_%d(s: S%d) -> S%d; fn eat_%d(s: S%d); " % ((k,) * 12)
    if not any(f[0] in nocopy for f in s): decl += "fn copy_%d(s: &S%d) -> S%d; fn assign_%d(s: &mut S%d, t: &S%d); " % ((k,) * 6)
    if dfl(s): decl += "fn dfl_%d() -> UniquePtr<S%d>; " % (k, k)
for nm, rep, _, vs in ENUMS: decl += "fn echo_%s(e: %s) -> %s; fn num_%s(e: %s) -> u64; fn variant_%s(i: usize) -> %s; fn which_%s(e: %s) -> usize; fn esize_%s() -> usize; fn in_%s(e: &mut Hold_%s) -> %s; " % ((nm,) * 13)
decl_e += "".join("    struct Hold_%s { a: u8, e: %s, b: [%s; 2] }\n" % ((e[0],) * 3) for e in ENUMS)
decl += "fn look(s: &Refs) -> usize; fn give<'a>(s: Refs<'a>) -> Refs<'a>; fn touch(s: &mut Refs, v: u64); "
decl_s += "    struct Refs<'a> { s: &'a str, b: &'a [u8], m: &'a mut [u64], x: &'a u32, y: &'a mut N, c: &'a C, d: Pin<&'a mut C>, t: &'a CxxString, r: &'a R, v: &'a Vec<String> }\n"
t = G.types.replace("//CXX", decl).replace("//RUST", "").replace("pub mod ffi {\n", "pub mod ffi {\n" + decl_s + decl_e)
rs = "pub use cxx;\n#[path = \"../../common/sym.rs\"]\nmod sym;\nuse sym::*;\n" + t + "include!(\"../../common/calls.rs\");\nuse ffi::*;\n"
rs += "impl Ser for *const u8 { fn ser(&self, o: &mut dyn FnMut(u64)) { o(*self as u64) } } impl Val for *const u8 { fn mk(v: u64, _: usize) -> Self { v as _ } } impl Ser for *mut N { fn ser(&self, o: &mut dyn FnMut(u64)) { o(*self as u64) } } impl Val for *mut N { fn mk(v: u64, _: usize) -> Self { v as _ } }\n"
rs += "fn addr<T>(t: &T) -> usize { t as *const T as usize }\n"
for k, s in enumerate(structs):
    f = range(len(s)); b = []
    b.append("check(core::mem::size_of::<S%d>() == ffi::size_%d() && core::mem::align_of::<S%d>() == ffi::align_%d(), c\"size-and-alignment\");" % (k, k, k, k))
    b.append("let mut s = S%d { %s };" % (k, ", ".join("f%d: val(d, %d)" % (i, i) for i in f)))
    for i in f: b.append("check(addr(&s.f%d) - addr(&s) == ffi::off_%d(%d), c\"offset\");" % (i, k, i))
    b.append("let all = |s: &S%d| { %s };" % (k, " ".join("exp(&s.f%d); ffi::get_%d(s, %d);" % (i, k, i) for i in f)))
    b.append("all(&s); logged();")
    b.append("match choice(%d, c\"step\") {" % 6)
    b.append("0 => { let i = choice(%d, c\"field\"); %s ffi::put_%d(&mut s, i, unsafe { next.sv }, unsafe { next.sk }); %s logged(); all(&s); }" % (len(s), " ".join("if i == %d { exp(&set_of(&s.f%d)); } else { exp(&s.f%d); }" % (i, i, i) for i in f), k, " ".join("log(&s.f%d);" % i for i in f)))
    b.append("1 => { match choice(%d, c\"field\") { %s } all(&s); }" % (len(s), " ".join("%s => { s.f%d = set_of(&s.f%d); }" % (i if i < len(s) - 1 else "_", i, i) for i in f)))
    b.append("2 => { %s let r = ffi::mov_%d(s); %s }" % (" ".join("exp(&s.f%d);" % i for i in f), k, " ".join("log(&r.f%d);" % i for i in f)))
    b.append("3 => { ffi::eat_%d(s); }" % k)
    if not any(x[0] in nocopy for x in s): b.append("4 => { %s let mut r = ffi::copy_%d(&s); %s logged(); all(&s); all(&r); if choice(2, c\"first\") == 0 { drop(s); all(&r); } else { drop(r); r = S%d { %s }; ffi::assign_%d(&mut r, &s); %s %s all(&s); drop(s); all(&r); } }" % (" ".join("exp(&s.f%d);" % i for i in f), k, " ".join("log(&r.f%d);" % i for i in f), k, ", ".join("f%d: val(d, %d)" % (i, i + 1) for i in f), k, " ".join("exp(&s.f%d);" % i for i in f), " ".join("log(&r.f%d);" % i for i in f)))
    if dfl(s): b.append("5 => { let r = ffi::dfl_%d(); %s }" % (k, " ".join("exp(&zero_of(&r.f%d)); log(&r.f%d);" % (i, i) for i in f if s[i][0] in zero)))
    b.append("_ => {} } logged();")
    rs += "#[no_mangle] extern \"C\" fn h_s%02d() { run(|d| { %s }) }\n" % (k, "\n    ".join(b))
rs += "fn set_of<T: Val>(_: &T) -> T { unsafe { T::mk(next.sv, next.sk) } }\nfn zero_of<T: Val>(_: &T) -> T { T::mk(0, 0) }\n"
for nm, rep, ct, vs in ENUMS:
    rs += "#[no_mangle] extern \"C\" fn h_%s() { run(|_| { let r = if let 0 = choice(2, c\"value\") { %s { repr: u64_(64, c\"repr\") as _ } } else { ffi::variant_%s(choice(%d, c\"variant\")) };\n" % (nm.lower(), nm, nm, len(vs))
    rs += "    check(core::mem::size_of::<%s>() == ffi::esize_%s(), c\"enum-size\"); check(ffi::echo_%s(r).repr == r.repr, c\"passes-unchanged\"); check(ffi::num_%s(r) == r.repr as i128 as u64, c\"same-number\");\n" % ((nm,) * 4)
    rs += "    let w = match r { %s _ => 99 }; check(ffi::which_%s(r) == w, c\"same-variant\");\n" % (" ".join("%s::%s => %d," % (nm, v[0], i) for i, v in enumerate(vs)), nm)
    for i, v in enumerate(vs): rs += "    check(%s::%s.repr as i128 == %d && ffi::variant_%s(%d).repr as i128 == %d, c\"variant-value\");\n" % (nm, v[0], val(v), nm, i, val(v))
    rs += "    let mut h = Hold_%s { a: 1, e: r, b: [%s::%s, r] }; check(ffi::in_%s(&mut h) == r && h.a == 2 && h.e == %s::%s && h.b[0] == r && h.b[1] == %s::%s, c\"fields\"); }) }\n" % (nm, nm, vs[0][0], nm, nm, vs[1][0], nm, vs[0][0])
rs += '''#[no_mangle] extern "C" fn h_refs() { run(|d| {
    let (s, b) = (val::<String>(d, 0), vals::<u8>(d, 1)); let mut m = vals::<u64>(d, 2); let x = val::<u32>(d, 3); let mut y = own::<N>(d, 4); let c = own::<C>(d, 5); let mut e = own::<C>(d, 6); let t = own::<CxxString>(d, 7); let r = own::<R>(d, 8); let v = own::<Vec<String>>(d, 9);
    let (pm, py, pe) = (m.as_ptr() as usize, y.addr(), e.addr()); exp_slice(s.as_bytes()); exp_slice(&b); exp_slice(&m); expa(&x as *const u32 as usize); exp(&x); expa(py); exp(y.get()); expa(c.addr()); exp(c.get()); expa(pe); exp(e.get()); expa(t.addr()); exp(t.get()); expa(r.addr()); exp(r.get()); expa(v.addr()); exp(v.get());
    let lm = m.len(); let mut k = Refs { s: &s, b: &b, m: &mut m, x: &x, y: y.get_mut(), c: c.get(), d: e.pin(), t: t.get(), r: r.get(), v: v.get() };
    check(ffi::look(&k) == core::mem::size_of::<Refs>(), c"size"); logged();
    if choice(2, c"give") == 1 { k = ffi::give(k); check(k.s.as_ptr() == s.as_ptr() && k.s.len() == s.len() && k.b.len() == b.len() && k.m.as_ptr() as usize == pm && k.m.len() == lm && k.x as *const u32 == &x as *const u32 && &*k.y as *const N as usize == py && k.c as *const C as usize == c.addr() && &*k.d as *const C as usize == pe && k.t as *const CxxString as usize == t.addr() && k.r as *const R as usize == r.addr() && k.v as *const Vec<String> as usize == v.addr(), c"references-unchanged"); }
    let z = u64_(64, c"touch"); ffi::touch(&mut k, z); check(k.m.iter().all(|e| *e == z) && k.y.x == z as u32 && ffi::c_get(&k.d) == z, c"written-through");
}) }
'''
d = H + "/c16"; os.makedirs(d + "/src", exist_ok=True); os.makedirs(d + "/cc", exist_ok=True)
open(d + "/src/lib.rs", "w").write(rs)
hdr = "#pragma once\n#define METHODS_C\n#include \"calls_types.h\"\nenum class Eext : uint16_t { A = 3, B = 900 };\nstruct Refs; size_t look(const Refs &s); Refs give(Refs s); void touch(Refs &s, uint64_t v);\n"
cc = "#include \"lib.rs.h\"\n#include \"calls.h\"\ntemplate <class T> struct Val<T *> { static T *mk(uint64_t v, size_t) { return (T *)v; } static void ser(T *const &t) { push((uint64_t)t); } };\n"
for k, s in enumerate(structs):
    f = range(len(s)); S = "S%d" % k
    hdr += "struct %s; size_t size_%d(); size_t align_%d(); size_t off_%d(size_t i); void get_%d(const %s &s, size_t i); void put_%d(%s &s, size_t i, uint64_t v, size_t k); %s mov_%d(%s s); void eat_%d(%s s); %s copy_%d(const %s &s); void assign_%d(%s &s, const %s &t); std::unique_ptr<%s> dfl_%d();\n" % (S, k, k, k, k, S, k, S, S, k, S, k, S, S, k, S, k, S, S, S, k)
    cc += "size_t size_%d() { return sizeof(%s); } size_t align_%d() { return alignof(%s); }\n" % (k, S, k, S)
    cc += "size_t off_%d(size_t i) { switch (i) { %s } return 0; }\n" % (k, " ".join("case %d: return offsetof(%s, f%d);" % (i, S, i) for i in f))
    cc += "void get_%d(const %s &s, size_t i) { switch (i) { %s } }\n" % (k, S, " ".join("case %d: log_(s.f%d); break;" % (i, i) for i in f))
    cc += "void put_%d(%s &s, size_t i, uint64_t v, size_t k) { switch (i) { %s } }\n" % (k, S, " ".join("case %d: s.f%d = Val<%s>::mk(v, k); break;" % (i, i, s[i][2]) for i in f))
    cc += "%s mov_%d(%s s) { %s t(std::move(s)); return t; } void eat_%d(%s s) { %s t = std::move(s); }\n" % (S, k, S, S, k, S, S)
    if not any(x[0] in nocopy for x in s): cc += "%s copy_%d(const %s &s) { %s t(s); return t; } void assign_%d(%s &s, const %s &t) { s = t; }\n" % (S, k, S, S, k, S, S)
    if dfl(s):
        cc += "std::unique_ptr<%s> dfl_%d() { void *p = ::operator new(sizeof(%s)); memset(p, 0x5a, sizeof(%s)); return std::unique_ptr<%s>(new (p) %s{%s}); }\n" % (S, k, S, S, S, S, "")
for nm, rep, ct, vs in ENUMS:
    hdr += "enum class %s%s; struct Hold_%s; %s echo_%s(%s e); uint64_t num_%s(%s e); %s variant_%s(size_t i); size_t which_%s(%s e); size_t esize_%s(); %s in_%s(Hold_%s &e);\n" % (nm, " : " + (ct or {"Einf": "uint16_t", "Eneg": "int8_t", "Ebig": "uint32_t"}[nm]), *([nm] * 14))
    cc += "%s echo_%s(%s e) { return e; } uint64_t num_%s(%s e) { return (uint64_t)e; } size_t esize_%s() { return sizeof(%s); }\n" % ((nm,) * 7)
    cc += "%s variant_%s(size_t i) { switch (i) { %s } return (%s)0; }\n" % (nm, nm, " ".join("case %d: return %s::%s;" % (i, nm, v[0]) for i, v in enumerate(vs)), nm)
    cc += "size_t which_%s(%s e) { switch (e) { %s } return 99; }\n" % (nm, nm, " ".join("case %s::%s: return %d;" % (nm, v[0], i) for i, v in enumerate(vs)))
    cc += "%s in_%s(Hold_%s &h) { h.a++; h.b[0] = h.e; h.e = %s::%s; auto r = h.b[1]; h.b[1] = %s::%s; return r; }\n" % (nm, nm, nm, nm, vs[1][0], nm, vs[0][0])
cc += "size_t look(const Refs &k) { log_str(k.s); log_slice(k.b); log_slice(k.m); logr(k.x); logr(k.y); logr(k.c); logr(k.d); logr(k.t); logr(k.r); logr(k.v); return sizeof(Refs); }\nRefs give(Refs s) { return s; }\nvoid touch(Refs &s, uint64_t v) { for (auto &x : s.m) x = v; s.y.x = v; s.d.v = v; }\n"
open(d + "/cc/calls_methods.h", "w").write(hdr); open(d + "/cc/t.cc", "w").write(cc)
