#!/usr/bin/env python3
"""Writes harness/c14 and harness/c15: one bridge function per type class and position, in both directions.
The type table is here; the values (mk) and their serialisation (ser) are written once per language in
harness/common/calls.rs and calls.h."""
import os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness")
prims = [("bool", "bool"), ("c_char", "char"), ("u8", "uint8_t"), ("u16", "uint16_t"), ("u32", "uint32_t"), ("u64", "uint64_t"), ("usize", "size_t"), ("i8", "int8_t"), ("i16", "int16_t"), ("i32", "int32_t"), ("i64", "int64_t"), ("isize", "rust::isize"), ("f32", "float"), ("f64", "double")]
V = [(a, a, b) for a, b in prims] + [
 ("string", "String", "rust::String"), ("box", "Box<R>", "rust::Box<R>"), ("boxn", "Box<N>", "rust::Box<N>"),
 ("vu8", "Vec<u8>", "rust::Vec<uint8_t>"), ("vbool", "Vec<bool>", "rust::Vec<bool>"), ("vf64", "Vec<f64>", "rust::Vec<double>"), ("vstring", "Vec<String>", "rust::Vec<rust::String>"), ("vp2", "Vec<P2>", "rust::Vec<P2>"), ("vn", "Vec<N>", "rust::Vec<N>"), ("vr", "Vec<R>", "rust::Vec<R>"),
 ("uobj", "UniquePtr<C>", "std::unique_ptr<C>"), ("ustr", "UniquePtr<CxxString>", "std::unique_ptr<std::string>"), ("uvec", "UniquePtr<CxxVector<u32>>", "std::unique_ptr<std::vector<uint32_t>>"), ("un", "UniquePtr<N>", "std::unique_ptr<N>"),
 ("sobj", "SharedPtr<C>", "std::shared_ptr<C>"), ("su64", "SharedPtr<u64>", "std::shared_ptr<uint64_t>"), ("wobj", "WeakPtr<C>", "std::weak_ptr<C>"),
 ("p1", "P1", "P1"), ("p2", "P2", "P2"), ("f2", "F2", "F2"), ("fi", "FI", "FI"), ("q2", "Q2", "Q2"), ("q3", "Q3", "Q3"), ("d4", "D4", "D4"), ("n", "N", "N"), ("ar", "Ar", "Ar"), ("nest", "Nest", "Nest"),
 ("en", "En", "En"), ("ei16", "Ei16", "Ei16"), ("eu64", "Eu64", "Eu64"), ("t1", "T1", "T1"), ("t3", "T3", "T3"), ("tx", "Tx", "Tx"),
 ("arr5", "[u8; 5]", "std::array<uint8_t, 5>"), ("arrs", "[String; 2]", "std::array<rust::String, 2>"),
]
# by reference: id, rust referent, c++ referent, rust &mut form
REF = [(i, r, c, "&mut " + r) for i, r, c in V] + [
 ("r", "R", "R", "&mut R"), ("c", "C", "C", "Pin<&mut C>"), ("cxxstring", "CxxString", "std::string", "Pin<&mut CxxString>"), ("cxxvector", "CxxVector<u32>", "std::vector<uint32_t>", "Pin<&mut CxxVector<u32>>"), ("cxxvectorn", "CxxVector<N>", "std::vector<N>", "Pin<&mut CxxVector<N>>")]
SL = [("u8", "u8", "uint8_t"), ("f64", "f64", "double"), ("p2", "P2", "P2"), ("n", "N", "N"), ("string", "String", "rust::String"), ("r", "R", "R"), ("uobj", "UniquePtr<C>", "std::unique_ptr<C>"), ("en", "En", "En"), ("t3", "T3", "T3")]
PT = [("u8", "u8", "uint8_t"), ("p2", "P2", "P2"), ("n", "N", "N"), ("c", "C", "C"), ("r", "R", "R"), ("string", "String", "rust::String"), ("vu8", "Vec<u8>", "rust::Vec<uint8_t>")]
bad_ref = {"arr5", "arrs"}  # no way to write their name in a C++ reference is missing; kept out by choice of the generator below
OWN = {i for i, _, _, _ in REF}
MIX = [["u8", "string", "f32", "p2", "uobj", "u64", "vstring", "f64", "en", "n", "i16", "q3"], ["f64"] * 10, ["u64"] * 9, ["bool", "u8", "bool", "i8", "c_char", "u16", "i16", "bool"], ["f2", "fi", "q2", "d4", "p1", "f32", "q2", "q2", "u8"], ["n", "n", "string", "string", "box", "box", "sobj", "wobj"], ["t1", "t3", "tx", "t1", "u32", "t3"]]
T = {i: (r, c) for i, r, c in V}
def nz(i):
    return i not in ()
class F:
    def __init__(s, name, args, ret, throws=False, recv=None, unsafe=False, lt=False, body=None, cxx=None):
        s.name, s.args, s.ret, s.throws, s.recv, s.unsafe, s.lt, s.cxx = name, args, ret, throws, recv, unsafe, lt, cxx
# arg kinds: ("v", id) ("r", id) ("m", id) ("str",) ("s", id) ("sm", id) ("p", id) ("pm", id)
R = {i: (r, c, m) for i, r, c, m in REF}; S = {i: (r, c) for i, r, c in SL}; P = {i: (r, c) for i, r, c in PT}
def rty(a, lt=False):
    if lt: return rty(a).replace("&", "&'a ", 1)
    k = a[0]
    return {"v": lambda: T[a[1]][0], "r": lambda: "&" + R[a[1]][0], "m": lambda: R[a[1]][2], "str": lambda: "&str", "s": lambda: "&[%s]" % S[a[1]][0], "sm": lambda: "&mut [%s]" % S[a[1]][0], "p": lambda: "*const " + P[a[1]][0], "pm": lambda: "*mut " + P[a[1]][0]}[k]()
def cty(a):
    k = a[0]
    return {"v": lambda: T[a[1]][1], "r": lambda: "const " + R[a[1]][1] + " &", "m": lambda: R[a[1]][1] + " &", "str": lambda: "rust::Str", "s": lambda: "rust::Slice<const %s>" % S[a[1]][1], "sm": lambda: "rust::Slice<%s>" % S[a[1]][1], "p": lambda: "const %s *" % P[a[1]][1], "pm": lambda: P[a[1]][1] + " *"}[k]()
funs = []
for i, _, _ in V: funs += [F("v_" + i, [("v", i)], ("v", i)), F("w_" + i, [("v", "u8"), ("v", i), ("v", i), ("v", "u64")], ("v", i)), F("t_" + i, [("v", i), ("v", "u16")], ("v", i), throws=True)]
for i, _, _, _ in REF: funs += [F("r_" + i, [("r", i), ("r", i)], None), F("m_" + i, [("m", i), ("v", "u16")], None), F("rr_" + i, [("r", i)], ("r", i)), F("mm_" + i, [("m", i)], ("m", i)), F("tr_" + i, [("r", i)], ("r", i), throws=True), F("tm_" + i, [("m", i)], ("m", i), throws=True)]
for i, _, _ in SL: funs += [F("s_" + i, [("s", i), ("v", "u32"), ("s", i)], None), F("sm_" + i, [("sm", i)], None), F("ss_" + i, [("s", i)], ("s", i)), F("sms_" + i, [("sm", i)], ("sm", i)), F("ts_" + i, [("s", i)], ("s", i), throws=True), F("tsm_" + i, [("sm", i)], ("sm", i), throws=True)]
for i, _, _ in PT: funs += [F("p_" + i, [("p", i), ("pm", i)], ("p", i), unsafe=True), F("pm_" + i, [("pm", i), ("p", i)], ("pm", i), unsafe=True), F("tp_" + i, [("p", i)], ("p", i), throws=True, unsafe=True), F("tpm_" + i, [("pm", i)], ("pm", i), throws=True, unsafe=True)]
funs += [F("st", [("str",), ("v", "bool"), ("str",)], None), F("sst", [("str",)], ("str",)), F("tst", [("str",)], ("str",), throws=True), F("u", [], None), F("tu", [], None, throws=True)]
for k, m in enumerate(MIX): funs += [F("mix%d" % k, [("v", i) for i in m], ("v", m[0])), F("tmix%d" % k, [("v", i) for i in m], ("v", m[-1]), throws=True)]
funs += [F("mixr", [("r", "n"), ("v", "n"), ("m", "string"), ("str",), ("s", "u8"), ("m", "c"), ("v", "uobj")], ("v", "vn")), F("tmixr", [("m", "n"), ("str",), ("v", "string"), ("r", "string"), ("sm", "p2")], ("v", "f2"), throws=True)]
for rc in ("c", "cm", "p2", "p2m", "n", "nm", "r", "rm"):
    for j, (a, r, t) in enumerate([([("v", "u32")], ("v", "u32"), 0), ([("v", "string"), ("v", "n")], ("v", "n"), 0), ([("str",), ("r", "n")], None, 0), ([("v", "f64"), ("v", "f2")], ("v", "f2"), 1), ([("v", "box")], None, 1), ([], ("v", "vstring"), 0), ([("v", "q2"), ("v", "q3")], ("v", "q3"), 0)]):
        funs.append(F("q%d_%s" % (j, rc), a, r, throws=bool(t), recv=rc, cxx="Q%d%s" % (j, rc) if j % 2 else None))
RT = {"c": ("&C", "C", "const", "c"), "cm": ("Pin<&mut C>", "C", "", "c"), "p2": ("&P2", "P2", "const", "p2"), "p2m": ("&mut P2", "P2", "", "p2"), "n": ("&N", "N", "const", "n"), "nm": ("&mut N", "N", "", "n"), "r": ("&R", "R", "const", "r"), "rm": ("&mut R", "R", "", "r")}
def decl(f):
    lt = not OUT and bool(f.throws and f.ret and isref(f.ret) and f.ret[0][0] != "p")
    args = (["self: " + RT[f.recv][0]] if f.recv else []) + ["a%d: %s" % (i, rty(a, lt)) for i, a in enumerate(f.args)]
    r = rty(f.ret, lt) if f.ret else None
    ret = " -> Result<%s>" % (r or "()") if f.throws else " -> " + r if r else ""
    return ("#[cxx_name = \"%s\"] " % f.cxx if f.cxx else "") + ("unsafe " if f.unsafe or lt else "") + "fn %s%s(%s)%s;" % (f.name, "<'a>" if lt else "", ", ".join(args), ret)
def chunks(l, n): return [l[i:i + n] for i in range(0, len(l), n)]
def cret(f): return cty(f.ret) if f.ret else "void"
def cfun(f, cls=False, semi=True):
    a = ", ".join("%s a%d" % (cty(a), i) for i, a in enumerate(f.args)); n = f.cxx or f.name
    if f.recv: n = n if cls else RT[f.recv][1] + "::" + n
    return "%s %s(%s)%s" % (cret(f), n, a, (" const" if f.recv and RT[f.recv][2] else "") + (" noexcept" if f.recv and not f.throws and RT[f.recv][1] != "C" else ""))
isref = lambda a: a[0] != "v"
# ---- bodies and drivers, in each language
def rust_body(f): # of a called Rust function
    b = []
    if f.recv: b.append("loga(self as *const _ as *const u8 as usize); " + ("log(self);" if f.recv in ("p2", "n", "r", "p2m", "nm", "rm") else ""))
    for i, a in enumerate(f.args): b.append({"v": "log(&a%d);", "r": "logr(a%d);", "m": "logm(a%d);" if a[0] == "m" and R[a[1]][2].startswith("Pin") else "logr(&*a%d);", "str": "log_str(a%d);", "s": "log_slice(a%d);", "sm": "log_slice(a%d);", "p": "loga(a%d as usize);", "pm": "loga(a%d as usize);"}[a[0]].replace("logm(a%d)", "logr(&*a%d)") % i)
    for i, a in enumerate(f.args):
        if a[0] == "m": b.append(("let mut a%d = a%d; " % (i, i) if R[a[1]][2].startswith("Pin") else "") + ("set_pin(a%d.as_mut());" if R[a[1]][2].startswith("Pin") else "set(&mut *a%d);") % i)
        if a[0] == "sm": b.append("set_slice(&mut *a%d);" % i)
    if f.recv and f.recv.endswith("m"): b.append("set_pin(self);" if f.recv == "cm" else "set(self);")
    if f.throws: b.append("if fail() { return Err(Bad); }")
    if f.ret:
        k = f.ret[0]; e = {"v": "ret()", "r": "a0", "m": "a0", "str": "&a0[(a0.len() != 0) as usize..]", "s": "&a0[(a0.len() != 0) as usize..]", "sm": "&mut a0[skip..]", "p": "a0", "pm": "a0"}[k]
        if k == "sm": b.append("let skip = (a0.len() != 0) as usize;")
        b.append("Ok(%s)" % e if f.throws else e)
    elif f.throws: b.append("Ok(())")
    return " ".join(b)
def cpp_body(f): # of a called C++ function
    b = []
    if f.recv: b.append("loga((size_t)this); " + ("log_(*this);" if f.recv not in ("c", "cm") else ""))
    for i, a in enumerate(f.args): b.append({"v": "log_(a%d);", "r": "logr(a%d);", "m": "logr(a%d);", "str": "log_str(a%d);", "s": "log_slice(a%d);", "sm": "log_slice(a%d);", "p": "loga((size_t)a%d);", "pm": "loga((size_t)a%d);"}[a[0]] % i)
    for i, a in enumerate(f.args):
        if a[0] == "m": b.append("set(a%d);" % i)
        if a[0] == "sm": b.append("set_slice(a%d);" % i)
    if f.recv and f.recv.endswith("m"): b.append("set(*this);")
    if f.throws: b.append("if (next.fail) throw std::runtime_error(\"Bad\");")
    if f.ret:
        k = f.ret[0]; b.append({"v": "return Val<%s>::mk(next.v, next.k);" % (cty(f.ret)), "r": "return a0;", "m": "return a0;", "str": "return rust::Str(a0.data() + !a0.empty(), a0.size() - !a0.empty());", "s": "return %s(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty());" % cty(f.ret), "sm": "return %s(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty());" % cty(f.ret), "p": "return a0;", "pm": "return a0;"}[k])
    return " ".join(b)
def rust_driver(f): # calls a C++ function and judges
    pre, call, post = [], [], []
    if f.recv: pre.append("let mut s = own::<%s>(d, 7);" % RT[f.recv][1]); pre.append("expa(s.addr()); " + ("" if f.recv in ("c", "cm") else "exp(s.get());"))
    for i, a in enumerate(f.args):
        k = a[0]
        if k == "v": pre.append("let x%d = val::<%s>(d, %d); exp(&x%d);" % (i, T[a[1]][0], i, i)); call.append("x%d" % i)
        elif k in "rm": pre.append("let mut x%d = own::<%s>(d, %d); expa(x%d.addr()); exp(x%d.get());" % (i, R[a[1]][0], i, i, i)); call.append(("x%d.get()" if k == "r" else "x%d.pin()" if R[a[1]][2].startswith("Pin") else "x%d.get_mut()") % i)
        elif k == "str": pre.append("let x%d = val::<String>(d, %d); exp_slice(x%d.as_bytes());" % (i, i, i)); call.append("&x%d" % i)
        elif k in ("s", "sm"): pre.append("let mut x%d = vals::<%s>(d, %d); exp_slice(&x%d);" % (i, S[a[1]][0], i, i)); call.append(("&mut x%d" if k == "sm" else "&x%d") % i)
        else: pre.append("let x%d = val::<u64>(d, %d) as usize as %s; expa(x%d as usize);" % (i, i, rty(a), i)); call.append("x%d" % i)
    for i, a in enumerate(f.args):
        if a[0] == "m": post.append("seen(x%d.get(), d);" % i)
        if a[0] == "sm": post.append("seen_slice(&x%d, d);" % i)
    if f.recv and f.recv.endswith("m"): post.append("seen(s.get(), d);")
    ptrs = ""
    if f.ret and f.ret[0] in ("str", "s", "sm"): ptrs = "let (rp, rl) = (x0.as_ptr() as usize, x0.len()); "
    if f.ret and f.ret[0] in ("r", "m"): ptrs = "let rp = x0.addr(); "
    c = ("s.%s().%s(" % ({"c": "get", "cm": "pin", "m": "get_mut"}.get(f.recv, "get_mut" if f.recv.endswith("m") else "get"), f.name) if f.recv else "ffi::%s(" % f.name) + ", ".join(call) + ")"
    if f.unsafe: c = "unsafe { %s }" % c
    chk = ""
    if f.ret:
        k = f.ret[0]; chk = {"v": "same(&r, d);", "r": "check(r as *const _ as *const u8 as usize == rp, c\"returned-reference\");", "m": "check(&*r as *const _ as *const u8 as usize == rp, c\"returned-reference\");", "str": "check(r.as_ptr() as usize == rp + (rl != 0) as usize && r.len() == rl - (rl != 0) as usize, c\"returned-str\");", "p": "check(r == x0, c\"returned-pointer\");", "pm": "check(r == x0, c\"returned-pointer\");"}.get(k) or "check(r.len() == rl - (rl != 0) as usize && (r.len() == 0 || r.as_ptr() as usize == rp + size(&r)), c\"returned-slice\");"
    if f.throws: body = "match %s { Ok(r) => { check(!d.fail, c\"ok\"); %s } Err(e) => { check(d.fail && e.what() == \"Bad\", c\"err\"); } }" % (c, chk or "let () = r;")
    else: body = "let r = %s; %s" % (c, chk or "let () = r;")
    if f.throws: pre.insert(0, "let d = &d.fallible();")
    return "{ " + " ".join(pre) + " " + ptrs + body + " logged(); " + " ".join(post) + " }"
def cpp_driver(f): # calls a Rust function and judges
    pre, call, post = [], [], []
    if f.recv: pre.append("Own<%s> s(d, 7); expa(s.addr());" % RT[f.recv][1] + ("" if f.recv in ("c", "cm") else " exp_(s.get());"))
    for i, a in enumerate(f.args):
        k = a[0]
        if k == "v": pre.append("auto x%d = val<%s>(d, %d); exp_(x%d);" % (i, cty(a), i, i)); call.append("std::move(x%d)" % i)
        elif k in "rm": pre.append("Own<%s> x%d(d, %d); expa(x%d.addr()); exp_(x%d.get());" % (R[a[1]][1], i, i, i, i)); call.append("x%d.get()" % i)
        elif k == "str": pre.append("auto x%d = val<rust::String>(d, %d); exp_str(rust::Str(x%d));" % (i, i, i)); call.append("rust::Str(x%d)" % i)
        elif k in ("s", "sm"): pre.append("Vals<%s> x%d(d, %d); exp_slice(x%d.slice());" % (S[a[1]][1], i, i, i)); call.append(("x%d.slice()" if k == "sm" else "x%d.cslice()") % i)
        else: pre.append("auto x%d = (%s)val<uint64_t>(d, %d); expa((size_t)x%d);" % (i, cty(a), i, i)); call.append("x%d" % i)
    for i, a in enumerate(f.args):
        if a[0] == "m": post.append("seen(x%d.get(), d);" % i)
        if a[0] == "sm": post.append("seen_slice(x%d.slice(), d);" % i)
    if f.recv and f.recv.endswith("m"): post.append("seen(s.get(), d);")
    n = f.cxx or f.name
    c = ("s.get().%s(" % n if f.recv else "%s(" % n) + ", ".join(call) + ")"
    if f.recv and RT[f.recv][2]: c = "((const %s &)s.get()).%s(" % (RT[f.recv][1], n) + ", ".join(call) + ")"
    chk = ""
    if f.ret:
        k = f.ret[0]; chk = {"v": "auto r = %s; same(r, d);", "r": "auto &r = %s; sym_assert((void *)&r == x0.ptr(), \"returned-reference\");", "m": "auto &r = %s; sym_assert((void *)&r == x0.ptr(), \"returned-reference\");", "str": "auto r = %s; same_str(r, rust::Str(x0));", "p": "auto r = %s; sym_assert(r == x0, \"returned-pointer\");", "pm": "auto r = %s; sym_assert(r == x0, \"returned-pointer\");"}.get(k) or "auto r = %s; same_slice(r, x0.slice());"
    body = chk % c if chk else c + ";"
    if f.throws: body = "try { %s sym_assert(!d.fail, \"ok\"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == \"Bad\", \"err\"); }" % body
    if f.throws: pre.insert(0, "auto d = d0.fallible();")
    else: pre.insert(0, "auto &d = d0;")
    return "{ " + " ".join(pre) + " " + body + " logged(); " + " ".join(post) + " }"
types = open(os.path.join(H, "common/calls_bridge.rs")).read()
OUT = True
def crate(n, funs, outward):
    global OUT
    OUT = outward
    d = os.path.join(H, n); os.makedirs(d + "/src", exist_ok=True); os.makedirs(d + "/cc", exist_ok=True)
    groups = chunks(funs, 24)
    decls = "".join("        %s\n" % decl(f) for f in funs)
    if outward: bridge = types.replace("//CXX", decls.strip()).replace("//RUST", "")
    else: bridge = types.replace("//RUST", decls.strip()).replace("//CXX", "")
    rs = "pub use cxx;\n#[path = \"../../common/sym.rs\"]\nmod sym;\nuse sym::*;\n" + bridge + "include!(\"../../common/calls.rs\");\n" + ("" if outward else "mod fnptr;\n")
    meth = {}
    for f in funs:
        if f.recv and outward: meth.setdefault(RT[f.recv][1], []).append("  " + cfun(f, True) + ";")
    hdr = "#pragma once\n" + "".join("#define METHODS_%s %s\n" % (t, " ".join(x.strip() for x in meth.get(t, []))) for t in ("C", "N", "P2")) + "#include \"calls_types.h\"\n"
    cc = "#include \"lib.rs.h\"\n#include \"calls.h\"\n"
    if outward:
        hdr += "".join(cfun(f) + ";\n" for f in funs if not f.recv)
        cc += "".join(cfun(f) + " { " + cpp_body(f) + " }\n" for f in funs)
        for g, fs in enumerate(groups): rs += "#[no_mangle] extern \"C\" fn h_%02d() { run(|d| { match choice(%d, c\"function\") {\n" % (g, len(fs)) + "".join("    %s => %s\n" % (i if i < len(fs) - 1 else "_", rust_driver(f)) for i, f in enumerate(fs)) + "} }) }\n"
    else:
        for f in funs:
            r = rty(f.ret) if f.ret else None
            ret = " -> Result<%s, Bad>" % (r or "()") if f.throws else " -> " + r if r else ""
            args = ["%sa%d: %s" % ("", i, rty(a)) for i, a in enumerate(f.args)]
            if f.recv: rs += "impl %s { fn %s(%s)%s { %s } }\n" % (RT[f.recv][1], f.name, ", ".join([{"&": "&self"}.get(RT[f.recv][0][:1] if "mut" not in RT[f.recv][0] else "", "&mut self")] + args), ret, rust_body(f))
            else: rs += "%sfn %s(%s)%s { %s }\n" % ("unsafe " if f.unsafe else "", f.name, ", ".join(args), ret, rust_body(f))
        for g, fs in enumerate(groups): cc += "extern \"C\" void h_%02d() { run([](const Data &d0) { switch (sym_choice(%d, \"function\")) {\n" % (g, len(fs)) + "".join("    case %d: %s break;\n" % (i, cpp_driver(f)) for i, f in enumerate(fs)) + "} }); }\n"
    open(d + "/src/lib.rs", "w").write(rs); open(d + "/cc/calls_methods.h", "w").write(hdr); open(d + "/cc/t.cc", "w").write(cc)
if __name__ == "__main__": crate("c14", [f for f in funs if f.recv not in ("r", "rm", "n", "nm")], True)
if __name__ == "__main__": crate("c15", [f for f in funs if f.recv not in ("c", "cm")], False)
