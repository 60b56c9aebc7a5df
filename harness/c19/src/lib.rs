// C19: the link symbols both generators choose, for symbolic names of functions, types, namespaces and arguments.
#[path = "../../common/sym.rs"]
mod sym;
use sym::*;
include!("../../common/gen.rs");
include!("../../common/gen_macro.rs");
include!(concat!(env!("OUT_DIR"), "/runtime.rs"));

/// A name made of symbolic letters and digits. (Names that begin with a to f or r are lexed in more ways, which multiplies paths: h_runtime_function has those.)
fn name(n: usize) -> String { let mut s = String::new(); s.push(range(b'g' as u64, b'q' as u64, c"letter") as u8 as char); for _ in 1..n { let k = range(0, 36, c"tail"); s.push(ite(k < 26, k + b'a' as u64, ite(k < 36, k + 22, b'_' as u64)) as u8 as char); } s }
/// The items of one bridge: text with placeholders, and what stands for them.
struct Bridge { text: String, with: Vec<TokenStream> }
impl Bridge {
    fn new() -> Bridge { Bridge { text: String::new(), with: Vec::new() } }
    fn put(&mut self, s: &str) { self.text.push_str(s) }
    fn id(&mut self, s: &str) { self.text.push_str("__"); self.text.push(b"0123456789abcdefghijklmnopqrstuvwxyz"[self.with.len()] as char); self.text.push(' '); self.with.push(ident(s)); }
    fn str(&mut self, s: &str) { self.text.push_str("__"); self.text.push(b"0123456789abcdefghijklmnopqrstuvwxyz"[self.with.len()] as char); self.text.push(' '); self.with.push(TokenTree::Literal(Literal::string(s)).into()); }
    /// #[namespace] of `n` symbolic segments; empty when there is none.
    fn namespace(&mut self, n: usize, quoted: bool) -> Vec<String> {
        let v: Vec<String> = (0..n).map(|_| name(1)).collect(); if n == 0 { return v; }
        self.put("#[namespace = "); if quoted { let s = v.join("::"); self.str(&s); } else { for (i, s) in v.iter().enumerate() { if i > 0 { self.put("::"); } self.id(s); } } self.put("] "); v
    }
    fn cxx_name(&mut self, yes: bool, rust: &str) -> String { if !yes { return String::from(rust); } let s = name(1); self.put("#[cxx_name = "); self.str(&s); self.put("] "); s }
    fn generate(&self) -> Option<Symbols> {
        let e = format!("mod ffi {{ {} }}", self.text); let c = cpp(&tokens(&format!("#[cxx::bridge] {}", e), &self.with)); let r = rust(&tokens(&e, &self.with));
        check(c.is_ok() == r.is_ok(), c"both-accept-or-both-reject"); match (c, r) { (Ok(c), Ok(r)) => { reach(c"accepted"); Some(Symbols::of(c.cc, r)) } _ => { reach(c"rejected"); None } }
    }
}
/// A symbol and what follows it in the text.
#[derive(Clone, Copy)] struct Sym { at: usize, end: usize }
struct Symbols { cc: String, rust: String, imports: Vec<Sym>, exports: Vec<Sym>, defined: Vec<Sym>, declared: Vec<Sym> }
impl Symbols {
    fn of(cc: String, rust: String) -> Symbols {
        let quoted = |key: &str| { let mut v = Vec::new(); let mut i = 0; while let Some(p) = find_from(&rust, key, i) { let at = p + key.len(); let end = find_from(&rust, "\"", at).unwrap(); v.push(Sym { at, end }); i = end; } v };
        let (imports, exports) = (quoted("link_name = \""), quoted("export_name = \""));
        // A line of the C++ text that begins in the first column and mentions a symbol declares or defines it.
        let (mut defined, mut declared) = (Vec::new(), Vec::new()); let b = cc.as_bytes(); let mut i = 0;
        while i < b.len() {
            let mut e = i; while e < b.len() && b[e] != b'\n' { e += 1; } let line = slice(&cc, i, e);
            if e > i && b[i] != b' ' && b[i] != b'#' && b[i] != b'/' { if let Some(p) = find(line, "cxxbridge1$") {
                let word = |c: u8| or(or(and(c >= b'a', c <= b'z'), and(c >= b'A', c <= b'Z')), or(and(c >= b'0', c <= b'9'), or(c == b'_', c == b'$'))); let (mut at, mut end) = (i + p, i + p); while at > i && word(b[at - 1]) { at -= 1; } while end < e && word(b[end]) { end += 1; }
                if b[end] == b'(' && b[e - 1] == b'{' { defined.push(Sym { at, end }) } else if b[end] == b'(' && b[e - 1] == b';' { declared.push(Sym { at, end }) } else { check(false, c"line-with-a-symbol") }
            } }
            i = e + 1;
        }
        Symbols { cc, rust, imports, exports, defined, declared }
    }
    fn r(&self, s: Sym) -> &[u8] { &self.rust.as_bytes()[s.at..s.end] }
    fn c(&self, s: Sym) -> &[u8] { &self.cc.as_bytes()[s.at..s.end] }
    fn judge(&self) {
        for i in &self.imports { let mut any = false; for d in &self.defined { any = or(any, eq(self.r(*i), self.c(*d))); } check(any, c"imported-by-rust-is-defined-by-c++"); }
        for d in &self.defined { let mut any = false; for i in &self.imports { any = or(any, eq(self.r(*i), self.c(*d))); } check(any, c"defined-by-c++-is-imported-by-rust"); }
        for x in &self.exports { let mut any = false; for d in &self.declared { any = or(any, eq(self.r(*x), self.c(*d))); } check(any, c"exported-by-rust-is-declared-by-c++"); }
        for d in &self.declared { let mut any = false; for x in &self.exports { any = or(any, eq(self.r(*x), self.c(*d))); } check(any, c"declared-by-c++-is-exported-by-rust"); }
        let all: Vec<Sym> = self.imports.iter().chain(&self.exports).copied().collect(); check(!all.is_empty(), c"some-symbol"); let mut distinct = true;
        for i in 0..all.len() { for j in 0..i { distinct = and(distinct, !eq(self.r(all[i]), self.r(all[j]))); } } check(distinct, c"distinct-in-rust");
        let mut distinct = true; for i in 0..self.defined.len() { for j in 0..i { distinct = and(distinct, !eq(self.c(self.defined[i]), self.c(self.defined[j]))); } } check(distinct, c"distinct-in-c++");
        reach(c"done");
    }
    /// How many parameters of type u8 follow the symbol, in each language; that tells the items of a bridge apart.
    fn rust_arity(&self, s: Sym) -> usize { let i = find_from(&self.rust, "fn ", s.end).unwrap(); count(slice(&self.rust, i, find_from(&self.rust, ")", i).unwrap()), ": u8") }
    fn cpp_arity(&self, s: Sym) -> usize { let t = slice(&self.cc, s.end, find_from(&self.cc, ")", s.end).unwrap()); count(t, "::std::uint8_t ") }
    /// The item with `n` parameters has the same symbol on both sides, and its C++ definition calls `target`.
    fn same(&self, n: usize, imported: bool, target: &str) {
        let (r, c) = if imported { (&self.imports, &self.defined) } else { (&self.exports, &self.declared) };
        let r: Vec<Sym> = r.iter().copied().filter(|s| self.rust_arity(*s) == n).collect(); let c: Vec<Sym> = c.iter().copied().filter(|s| self.cpp_arity(*s) == n).collect();
        check(r.len() == 1 && c.len() == 1, c"one-symbol-per-item"); check(eq(self.r(r[0]), self.c(c[0])), c"same-symbol-for-the-item");
        // The Rust declaration, and the C++ definition or the C++ function that calls the declaration, name the item.
        if imported { let body = slice(&self.cc, c[0].end, find_from(&self.cc, "\n}\n", c[0].end).unwrap()); let p = find(body, ")$) = "); let p = if p.is_some() { p } else { find(body, "$)(") }; let _ = p; check(contains(body, target), c"c++-definition-calls-the-item"); }
    }
}
fn contains(h: &str, n: &str) -> bool { occurs(h.as_bytes(), n.as_bytes()) }
fn path(ns: &[String], name: &str) -> String { let mut s = String::new(); for n in ns { s.push_str("::"); s.push_str(n); } s.push_str("::"); s.push_str(name); s }
fn args(b: &mut Bridge, n: usize) { for i in 0..n { b.put(["a: u8,", "b: u8,", "c: u8,", "d: u8,", "e: u8,"][i]); } }
fn open(b: &mut Bridge, imported: bool) { b.put(if imported { "unsafe extern \"C++\" { " } else { "extern \"Rust\" { " }) }

/// Two free functions of either language.
fn functions(first: bool, long: usize) {
    let mut b = Bridge::new(); let mut items = Vec::new();
    for k in 0..2 { let imported = if k == 0 { first } else { choice(2, c"language") == 1 }; open(&mut b, imported); let n = choice(3, c"namespace"); let ns = b.namespace(n, k == 0); let rn = name(long); let renamed = choice(2, c"renamed") == 1; let cn = b.cxx_name(renamed, &rn); b.put("fn "); b.id(&rn); b.put("("); args(&mut b, k + 1); b.put("); } "); items.push((k + 1, imported, path(&ns, &cn))); }
    if let Some(s) = b.generate() { s.judge(); for (n, i, t) in &items { s.same(*n, *i, t); } }
}
#[no_mangle] extern "C" fn h_functions_c() { functions(true, 1) }
#[no_mangle] extern "C" fn h_functions_rust() { functions(false, 1) }
#[no_mangle] extern "C" fn h_functions_long_c_deep() { functions(true, 3) }
#[no_mangle] extern "C" fn h_functions_long_rust_deep() { functions(false, 2) }

/// A type of each kind (0: C++, 1: Rust, 2: shared) with a method; its language, for the methods of shared structs, is that of the block.
fn method(b: &mut Bridge, kind: usize, arity: usize, renamed: bool, ns: usize) -> (Vec<String>, String, String, String) {
    let imported = kind == 0; let t = name(1).to_uppercase_ascii(); let f = name(1);
    if kind != 2 { open(b, imported); }
    let ns = b.namespace(ns, true); let c = if renamed { let s = name(1).to_uppercase_ascii(); b.put("#[cxx_name = "); b.str(&s); b.put("] "); s } else { t.clone() };
    if kind == 2 { b.put("struct "); b.id(&t); b.put("{ x: u32 } extern \"Rust\" { "); } else { b.put("type "); b.id(&t); b.put("; "); }
    b.put("fn "); b.id(&f); b.put("(self: &"); b.id(&t); b.put(", "); args(b, arity); b.put("); } "); (ns, c, t, f)
}
trait Upper { fn to_uppercase_ascii(&self) -> String; }
impl Upper for String { fn to_uppercase_ascii(&self) -> String { let mut s = String::new(); for c in self.bytes() { s.push((c - 32) as char); } s } }
fn methods(first: usize) {
    let mut b = Bridge::new(); let (n, r) = (choice(2, c"namespace"), choice(2, c"renamed") == 1); let x = method(&mut b, first, 1, r, n); let second = choice(3, c"kind"); let (n, r) = (choice(2, c"namespace"), choice(2, c"renamed") == 1); let y = method(&mut b, second, 2, r, n);
    // Two Rust names for one C++ type are not two types.
    if x.0.len() == y.0.len() { let mut same = eq(x.1.as_bytes(), y.1.as_bytes()); for i in 0..x.0.len() { same = and(same, eq(x.0[i].as_bytes(), y.0[i].as_bytes())); } assume(!same); }
    assume(!eq(x.2.as_bytes(), y.2.as_bytes())); if let Some(s) = b.generate() { s.judge(); s.same(1, first == 0, &format!("{}::{}", path(&x.0, &x.1), x.3)); s.same(2, second == 0, &format!("{}::{}", path(&y.0, &y.1), y.3)); }
}
#[no_mangle] extern "C" fn h_methods_c() { methods(0) }
#[no_mangle] extern "C" fn h_methods_rust() { methods(1) }
#[no_mangle] extern "C" fn h_methods_shared() { methods(2) }

/// Operators and layout functions of two types beside a method and a free function.
#[no_mangle] extern "C" fn h_operators() {
    let mut b = Bridge::new(); let n = choice(2, c"namespace"); let ns = b.namespace(n, true); let t = name(1).to_uppercase_ascii(); let _ = ns;
    b.put(["#[derive(PartialEq, PartialOrd)] ", "#[derive(Eq, PartialEq, Ord, PartialOrd, Hash)] "][choice(2, c"derives")]); b.put("struct "); b.id(&t); b.put("{ x: u32 } ");
    open(&mut b, false); let n = choice(2, c"namespace"); b.namespace(n, false); b.put("type "); let u = name(1).to_uppercase_ascii(); b.id(&u); b.put("; fn "); let f = name(2); b.id(&f); b.put("(self: &"); b.id(if choice(2, c"receiver") == 0 { &t } else { &u }); b.put(", a: u8); fn "); let g = name(2); b.id(&g); b.put("(a: u8, b: u8); } ");
    if let Some(s) = b.generate() { s.judge(); s.same(1, false, ""); s.same(2, false, ""); }
}
/// Everything generated for the containers of two types.
fn generics(kinds: [usize; 2]) {
    let mut b = Bridge::new(); let mut ty = Vec::new();
    for kind in kinds { if kind != 2 { open(&mut b, kind == 0); } let n = choice(3, c"namespace"); let ns = b.namespace(n, true); let r = choice(2, c"renamed") == 1; let c = b.cxx_name(r, ""); let t = name(1).to_uppercase_ascii(); b.put(if kind == 2 { "struct " } else { "type " }); b.id(&t); b.put(if kind == 2 { "{ x: u32 } " } else { "; } " }); ty.push((ns, if r { c } else { t.clone() }, t)); }
    if ty[0].0.len() == ty[1].0.len() { let mut same = eq(ty[0].1.as_bytes(), ty[1].1.as_bytes()); for i in 0..ty[0].0.len() { same = and(same, eq(ty[0].0[i].as_bytes(), ty[1].0[i].as_bytes())); } assume(!same); }
    for (k, t) in kinds.iter().zip(&ty) { for g in match k { 0 => &["UniquePtr<", "SharedPtr<", "WeakPtr<", "CxxVector<"][..], 1 => &["Box<", "Vec<"], _ => &["Box<", "Vec<", "UniquePtr<", "SharedPtr<", "WeakPtr<", "CxxVector<"] } { b.put("impl "); b.put(g); b.id(&t.2); b.put("> {} "); } }
    if let Some(s) = b.generate() { s.judge(); }
}
#[no_mangle] extern "C" fn h_generics_c_c() { generics([0, 0]) }
#[no_mangle] extern "C" fn h_generics_rust_rust() { generics([1, 1]) }
#[no_mangle] extern "C" fn h_generics_shared_c() { generics([2, 0]) }
#[no_mangle] extern "C" fn h_generics_shared_rust() { generics([2, 1]) }
#[no_mangle] extern "C" fn h_generics_shared_shared_deep() { generics([2, 2]) }
#[no_mangle] extern "C" fn h_generics_c_rust_deep() { generics([0, 1]) }

/// Function pointer arguments: each gets a pair of trampolines.
#[no_mangle] extern "C" fn h_closures() {
    let mut b = Bridge::new(); open(&mut b, true); b.put("type T; "); for k in 0..2 { let n = choice(2, c"namespace"); b.namespace(n, true); b.put("fn "); let f = name(1); b.id(&f); b.put("("); if choice(2, c"method") == 1 { b.put("self: &T, "); } let a = name(1); b.id(&a); b.put(": fn(u8), "); if k == 0 { let c = name(1); assume(!eq(a.as_bytes(), c.as_bytes())); b.id(&c); b.put(": fn(u16), "); } b.put("); "); } b.put("} ");
    if let Some(s) = b.generate() { s.judge(); }
}
/// User-defined items against the symbols of the runtime, one assertion for each of those.
fn against_runtime(s: &Symbols) { for r in RUNTIME { let mut any = false; for x in s.imports.iter().chain(&s.exports) { any = or(any, eq(s.r(*x), r.to_bytes())); } check(!any, r); } reach(c"done"); }
/// A name of any letters; the first letters on which the lexer branches are told apart beforehand.
fn longer(n: usize, underscore: bool, initials: &[u8]) -> String { let mut s = String::new(); for i in 0..n { if i == 0 { let k = choice(1 + initials.len(), c"initial"); s.push(if k == 0 { let l = range(0, 18, c"letter"); ite(l < 11, l + b'g' as u64, l + b's' as u64 - 11) as u8 as char } else { initials[k - 1] as char }); } else { let k = range(0, if underscore { 36 } else { 35 }, c"letter"); s.push(ite(k < 26, k + b'a' as u64, ite(k < 36, k + 22, b'_' as u64)) as u8 as char); } } s }
#[no_mangle] extern "C" fn h_runtime_function() { let mut b = Bridge::new(); let imported = choice(2, c"language") == 1; open(&mut b, imported); b.put("fn "); let f = longer(1 + choice(12, c"length"), false, b"abcdefr"); b.id(&f); b.put("(a: u8); } "); if let Some(s) = b.generate() { against_runtime(&s); } }

/// The names that stand for a builtin type in the symbols of the runtime.
const BUILTIN: [&str; 20] = ["bool", "char", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "isize", "usize", "f32", "f64", "string", "str", "slice", "cxx_string", "vector", "std"];
fn one_of(names: &[&str], n: &str) -> bool { let mut any = false; for b in names { any = or(any, eq(b.as_bytes(), n.as_bytes())); } any }
/// Collisions with the runtime: those of types in the global namespace (or std) that have the name of a builtin type are told apart.
fn collisions(s: &Symbols, builtin: bool) { let mut any = false; for r in RUNTIME { for x in s.imports.iter().chain(&s.exports) { any = or(any, eq(s.r(*x), r.to_bytes())); } } check(!and(any, !builtin), c"collides-with-the-runtime"); check(!and(any, builtin), c"type-with-a-builtin-name-collides-with-the-runtime"); reach(c"done"); }
/// A method of a type in the global namespace.
fn runtime_method(lens: &[(usize, usize)]) { let (n, m) = lens[choice(lens.len(), c"lengths")]; let mut b = Bridge::new(); let imported = choice(2, c"language") == 1; open(&mut b, imported); let t = if n == 10 { let mut t = String::from("cxx_"); t.push_str(&longer(6, false, b"")); t } else { longer(n, false, b"") }; b.put("#[cxx_name = "); b.str(&t); b.put("] type T; "); let f = longer(m, m > 8, if m > 3 { b"cdfr" } else { b"r" }); b.put("fn "); b.id(&f); b.put("(self: &T); } "); if let Some(s) = b.generate() { collisions(&s, one_of(&BUILTIN, &t)); } }
#[no_mangle] extern "C" fn h_runtime_method() { runtime_method(&[(6, 3), (3, 3), (5, 3)]) }
#[no_mangle] extern "C" fn h_runtime_method_four() { runtime_method(&[(6, 5), (3, 4), (10, 4)]) }
#[no_mangle] extern "C" fn h_runtime_method_reserve() { runtime_method(&[(6, 13), (6, 9)]) }
#[no_mangle] extern "C" fn h_runtime_method_other_deep() { runtime_method(&[(6, 8), (6, 10), (4, 4), (1, 2), (8, 6)]) }
#[no_mangle] extern "C" fn h_runtime_method_long_deep() { runtime_method(&[(6, 18), (10, 13), (6, 15)]) }
/// The containers of a type, in no namespace or in one.
fn runtime_generic(kind: usize, lens: &[(usize, usize)]) {
    let (m, n) = lens[choice(lens.len(), c"lengths")]; let mut b = Bridge::new(); if kind != 2 { open(&mut b, kind == 0); } let ns = longer(m, false, b""); if m > 0 { b.put("#[namespace = "); b.str(&ns); b.put("] "); }
    let t = longer(n, false, if n < 6 { b"bcf" } else { b"" }); b.put("#[cxx_name = "); b.str(&t); b.put(if kind == 2 { "] struct T { x: u32 } " } else { "] type T; } " });
    for g in if kind == 1 { &["Box<", "Vec<"][..] } else if kind == 0 { &["UniquePtr<", "SharedPtr<", "WeakPtr<", "CxxVector<"][..] } else { &["Box<", "Vec<", "UniquePtr<", "SharedPtr<", "WeakPtr<", "CxxVector<"] } { b.put("impl "); b.put(g); b.put("T> {} "); }
    if let Some(s) = b.generate() { collisions(&s, and(one_of(&BUILTIN, &t), m == 0 || one_of(&["std"], &ns))); }
}
#[no_mangle] extern "C" fn h_runtime_generic_c() { runtime_generic(0, &[(0, 2), (0, 3), (0, 6)]) }
#[no_mangle] extern "C" fn h_runtime_generic_c_std() { runtime_generic(0, &[(3, 6)]) }
#[no_mangle] extern "C" fn h_runtime_generic_rust() { runtime_generic(1, &[(0, 2), (0, 3), (0, 6)]) }
#[no_mangle] extern "C" fn h_runtime_generic_rust_namespace_deep() { runtime_generic(1, &[(3, 6), (8, 2)]) }
#[no_mangle] extern "C" fn h_runtime_generic_shared() { runtime_generic(2, &[(0, 3), (0, 6)]) }
#[no_mangle] extern "C" fn h_runtime_generic_shared_more_deep() { runtime_generic(2, &[(0, 5), (0, 4), (3, 6)]) }
