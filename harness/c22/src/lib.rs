// C22: which types are accepted in which positions, and which declarations may go together.
#[path = "../../common/sym.rs"]
mod sym;
use sym::*;
include!("../../common/gen.rs");
include!("../../common/gen_macro.rs");

/// A type: a form applied to another type, down to a base. In a form, `@` is that other type.
const FORM: [&str; 21] = ["@", "&@", "&mut @", "Pin<&mut @>", "Pin<&@>", "*const @", "*mut @", "Box<@>", "Vec<@>", "UniquePtr<@>", "SharedPtr<@>", "WeakPtr<@>", "CxxVector<@>", "&[@]", "&mut [@]", "[@; 2]", "fn(x: @)", "unsafe fn(x: @)", "fn() -> @", "fn() -> Result<@>", "Option<@>"];
const PLAIN: usize = 0; const REF: usize = 1; const MUT: usize = 2; const PIN_MUT: usize = 3; const PIN: usize = 4; const CONST_PTR: usize = 5; const MUT_PTR: usize = 6; const BOX: usize = 7; const VEC: usize = 8; const UNIQUE: usize = 9; const SHARED: usize = 10; const WEAK: usize = 11;
const VECTOR: usize = 12; const SLICE: usize = 13; const MUT_SLICE: usize = 14; const ARRAY: usize = 15; const FN_ARG: usize = 16; const UNSAFE_FN_ARG: usize = 17; const FN_RET: usize = 18; const FN_RESULT: usize = 19;
/// Bases other than names of declared types.
const ATOM: [&str; 19] = ["()", "&str", "str", "u8", "i64", "usize", "f32", "bool", "c_char", "String", "CxxString", "u16", "u32", "u64", "i8", "i16", "i32", "isize", "f64"];
const VOID: usize = 0; const STR_REF: usize = 1; const STR: usize = 2; const BOOL: usize = 7; const CHAR: usize = 8; const STRING: usize = 9; const CXX_STRING: usize = 10;
#[derive(Clone, Copy, PartialEq)] enum Cat { Struct, Enum, Rust, Cxx, Alias, Both, Unknown }
use Cat::*;
#[derive(Clone, Copy, PartialEq)] enum Base { User(Cat), Atom(usize) }
/// Name of a type whose last letter is symbolic, and by it the category of the type.
fn user(with: &mut Vec<TokenStream>) -> Base {
    let c = range(b'G' as u64, b'Q' as u64, c"name") as u8; with.push(ident(unsafe { core::str::from_utf8_unchecked(&[b'T', b'y', c]) }));
    Base::User(match c { b'G' => Struct, b'H' => Enum, b'I' => Rust, b'J' => Cxx, b'K' => Alias, b'L' => Both, _ => Unknown })
}
const HEAD: &str = "struct TyG { x: u8 } enum TyH { V } extern \"Rust\" { type TyI; } unsafe extern \"C++\" { type TyJ; type TyK = crate::Z; type TyL; } struct TyL { x: u8 } ";
/// Forms from the outermost inwards, then the base.
struct Type { forms: Vec<usize>, base: Base }
impl Type {
    fn text(&self) -> String {
        let mut t = String::from(match self.base { Base::User(_) => "__0", Base::Atom(a) => ATOM[a] });
        for f in self.forms.iter().rev() { let mut n = String::new(); for c in FORM[*f].chars() { if c == '@' { n.push_str(&t) } else { n.push(c) } } t = n; }
        t
    }
    /// The form at depth i, with `&str` as the base it is; None at the base.
    fn form(&self, i: usize) -> Option<usize> { if i >= self.forms.len() || self.str_at(i) { None } else { Some(self.forms[i]) } }
    /// Is the type at depth i `&str` (written either way)?
    fn str_at(&self, i: usize) -> bool { if i == self.forms.len() { self.base == Base::Atom(STR_REF) } else { i + 1 == self.forms.len() && self.forms[i] == REF && self.base == Base::Atom(STR) } }
    fn base_at(&self, i: usize) -> Option<Base> { if i == self.forms.len() && !self.str_at(i) { Some(self.base) } else { None } }
    fn is_void(&self, i: usize) -> bool { self.base_at(i) == Some(Base::Atom(VOID)) }
    fn is_ref(&self, i: usize) -> bool { matches!(self.form(i), Some(REF | MUT | PIN_MUT | PIN)) }
    fn is_fn(&self, i: usize) -> bool { matches!(self.form(i), Some(FN_ARG | UNSAFE_FN_ARG | FN_RET | FN_RESULT)) }
    fn is_ptr(&self, i: usize) -> bool { matches!(self.form(i), Some(CONST_PTR | MUT_PTR)) }
    /// A type alias stands for a C++ type that Rust code may move exactly when some use needs that.
    fn alias_moves(&self, pos: Pos) -> bool {
        let n = self.forms.len();
        for i in 0..n { if i + 1 == n && matches!(self.forms[i], BOX | VEC | SLICE | MUT_SLICE) { return true; } }
        match pos { Pos::Impl => false, Pos::Field => n == 0, _ => n == 0 || n == 1 && matches!(self.forms[0], MUT | FN_ARG | UNSAFE_FN_ARG | FN_RET | FN_RESULT) && (self.forms[0] == MUT || pos.argument()) }
    }
    fn opaque_cxx(&self, pos: Pos) -> bool { self.base == Base::User(Cxx) || self.base == Base::User(Alias) && !self.alias_moves(pos) }
    /// A type that Rust and C++ cannot pass by value.
    fn unsized_(&self, i: usize, pos: Pos) -> bool {
        match self.form(i) {
            Some(ARRAY) => self.unsized_(i + 1, pos), Some(VECTOR | FN_ARG | UNSAFE_FN_ARG | FN_RET | FN_RESULT) => true, Some(_) => false,
            None => match self.base_at(i) { Some(Base::User(Rust)) => true, Some(Base::User(_)) => self.opaque_cxx(pos), Some(Base::Atom(a)) => a == VOID || a == CXX_STRING, None => false },
        }
    }
    /// Is the type at depth i unsupported wherever it occurs, itself or in a part?
    fn bad(&self, i: usize, pos: Pos) -> bool {
        let b = self.base_at(i + 1);
        let Some(f) = self.form(i) else { return match self.base_at(i) { Some(Base::User(Unknown)) => true, Some(Base::Atom(STR)) => true, _ => false } };
        // What the smart pointers and vectors can point to: a type by name (user or builtin).
        let named = |user: &dyn Fn(Cat) -> bool, atom: &dyn Fn(usize) -> bool| match b { Some(Base::User(c)) => user(c), Some(Base::Atom(a)) => a > STR && atom(a), None => false };
        let number = |a: usize| !matches!(a, BOOL | CHAR | STRING | CXX_STRING);
        let ok = match f {
            PLAIN => true,
            REF => !self.is_ref(i + 1) && !self.is_fn(i + 1) && !self.is_void(i + 1),
            MUT => !self.is_ref(i + 1) && !self.is_fn(i + 1) && !self.is_void(i + 1) && b != Some(Base::Atom(STR)) && !(b == Some(Base::Atom(CXX_STRING)) || matches!(b, Some(Base::User(Cxx | Alias))) && self.opaque_cxx(pos) || self.form(i + 1) == Some(VECTOR)),
            PIN_MUT => !self.is_ref(i + 1) && !self.is_fn(i + 1) && !self.is_void(i + 1) && b != Some(Base::Atom(STR)),
            PIN => !self.is_ref(i + 1) && !self.is_fn(i + 1) && !self.is_void(i + 1) && b != Some(Base::Atom(STR)),
            CONST_PTR | MUT_PTR => !self.is_ref(i + 1) && !self.is_fn(i + 1) && !self.is_void(i + 1),
            BOX => named(&|c| c != Cxx, &|_| false),
            VEC => self.str_at(i + 1) || named(&|c| c != Cxx, &|a| a != CXX_STRING),
            UNIQUE => self.form(i + 1) == Some(VECTOR) || named(&|c| c != Rust, &|a| a == CXX_STRING),
            SHARED | WEAK => named(&|c| c != Rust, &|a| number(a) || a == BOOL || a == CXX_STRING),
            VECTOR => named(&|c| c != Rust, &|a| number(a) || a == CXX_STRING),
            SLICE | MUT_SLICE => !self.unsized_(i + 1, pos) || b == Some(Base::User(Rust)) || b == Some(Base::User(Alias)),
            ARRAY => !self.unsized_(i + 1, pos),
            // A callback: what it takes comes from C++, and it takes and returns by value.
            FN_ARG => !self.unsized_(i + 1, pos) && !self.is_ptr(i + 1),
            UNSAFE_FN_ARG => !self.unsized_(i + 1, pos),
            FN_RET => self.is_void(i + 1) || !self.unsized_(i + 1, pos),
            _ => false,
        };
        !ok || self.bad(i + 1, pos)
    }
}
#[derive(Clone, Copy, PartialEq)] enum Pos { Field, CxxArg, CxxUnsafeArg, RustArg, RustUnsafeArg, CxxRet, CxxResult, RustRet, RustResult, Impl }
use Pos::*;
impl Pos {
    fn argument(self) -> bool { matches!(self, CxxArg | CxxUnsafeArg | RustArg | RustUnsafeArg) }
    fn text(self) -> (&'static str, &'static str) {
        match self {
            Field => ("struct TyF { x: ", " }"), Impl => ("impl ", " {}"),
            CxxArg => ("unsafe extern \"C++\" { fn g(x: ", "); }"), CxxUnsafeArg => ("unsafe extern \"C++\" { unsafe fn g(x: ", "); }"), RustArg => ("extern \"Rust\" { fn g(x: ", "); }"), RustUnsafeArg => ("extern \"Rust\" { unsafe fn g(x: ", "); }"),
            CxxRet => ("unsafe extern \"C++\" { fn g(x: &mut u8) -> ", "; }"), CxxResult => ("unsafe extern \"C++\" { fn g(x: &mut u8) -> Result<", ">; }"), RustRet => ("extern \"Rust\" { fn g(x: &mut u8) -> ", "; }"), RustResult => ("extern \"Rust\" { fn g(x: &mut u8) -> Result<", ">; }"),
        }
    }
    fn accepts(self, t: &Type) -> bool {
        if matches!(self, CxxRet | CxxResult | RustRet | RustResult) && t.is_void(0) { return true; }
        if t.bad(0, self) { return false; }
        match self {
            Field => !t.unsized_(0, self),
            CxxArg => t.is_fn(0) || !t.is_ptr(0) && !t.unsized_(0, self), CxxUnsafeArg => t.is_fn(0) || !t.unsized_(0, self), RustArg => !t.is_ptr(0) && !t.unsized_(0, self), RustUnsafeArg => !t.unsized_(0, self),
            CxxRet | CxxResult | RustRet | RustResult => !t.unsized_(0, self),
            Impl => matches!(t.form(0), Some(BOX | VEC | UNIQUE | SHARED | WEAK | VECTOR)) && matches!(t.base_at(1), Some(Base::User(_))),
        }
    }
}
fn judge_tokens(text: &str, with: &[TokenStream], ok: bool) {
    let c = cpp(&tokens(&format!("#[cxx::bridge] {}", text), with)); let r = rust(&tokens(text, with));
    check(c.is_ok() == ok, if ok { c"c++-accepts" } else { c"c++-rejects" }); check(r.is_ok() == ok, if ok { c"rust-accepts" } else { c"rust-rejects" });
    if let Err(e) = c { check(!e.is_empty(), c"reason") }
    if ok { reach(c"accepted") } else { reach(c"rejected") }
}
fn judge(text: &str, with: &[TokenStream], ok: bool) { judge_tokens(&format!("mod ffi {{ {} {} }}", HEAD, text), with, ok) }
fn position(pos: Pos, t: &Type, with: &[TokenStream]) { let (a, b) = pos.text(); judge(&format!("{}{}{}", a, t.text(), b), with, pos.accepts(t)); reach(c"done") }
fn base(with: &mut Vec<TokenStream>, atoms: usize) -> Base { match choice(atoms + 1, c"base") { 0 => user(with), k => Base::Atom(k - 1) } }
/// Every form of every base.
fn single(pos: Pos) { let mut w = Vec::new(); let f = choice(FORM.len(), c"form"); let base = base(&mut w, if thorough() { ATOM.len() } else { 11 }); position(pos, &Type { forms: if f == PLAIN { vec![] } else { vec![f] }, base }, &w) }
#[no_mangle] extern "C" fn h_field() { single(Field) }
#[no_mangle] extern "C" fn h_cxx_arg() { single(CxxArg) }
#[no_mangle] extern "C" fn h_cxx_unsafe_arg() { single(CxxUnsafeArg) }
#[no_mangle] extern "C" fn h_rust_arg() { single(RustArg) }
#[no_mangle] extern "C" fn h_rust_unsafe_arg() { single(RustUnsafeArg) }
#[no_mangle] extern "C" fn h_cxx_ret() { single(CxxRet) }
#[no_mangle] extern "C" fn h_cxx_result() { single(CxxResult) }
#[no_mangle] extern "C" fn h_rust_ret() { single(RustRet) }
#[no_mangle] extern "C" fn h_rust_result() { single(RustResult) }
#[no_mangle] extern "C" fn h_impl() { single(Impl) }

/// Two forms applied one to the other.
fn double(pos: Pos, outer: std::ops::Range<usize>) {
    let mut w = Vec::new(); let f = outer.start + choice(outer.len(), c"outer"); 
    const INNER: [usize; 19] = [REF, MUT, PIN_MUT, MUT_PTR, BOX, VEC, UNIQUE, WEAK, VECTOR, SLICE, ARRAY, FN_ARG, PIN, CONST_PTR, SHARED, MUT_SLICE, UNSAFE_FN_ARG, FN_RET, FN_RESULT];
    let g = INNER[choice(if thorough() { 19 } else { 12 }, c"inner")]; let base = if thorough() { base(&mut w, 11) } else { match choice(4, c"base") { 0 => user(&mut w), 1 => Base::Atom(STR_REF), 2 => Base::Atom(CXX_STRING), _ => Base::Atom(VOID) } };
    position(pos, &Type { forms: vec![f, g], base }, &w)
}
#[no_mangle] extern "C" fn h_double_field_1() { double(Field, 1..8) }
#[no_mangle] extern "C" fn h_double_field_2() { double(Field, 8..15) }
#[no_mangle] extern "C" fn h_double_field_3() { double(Field, 15..16) }
#[no_mangle] extern "C" fn h_double_cxx_arg_1() { double(CxxUnsafeArg, 1..8) }
#[no_mangle] extern "C" fn h_double_cxx_arg_2() { double(CxxUnsafeArg, 8..15) }
#[no_mangle] extern "C" fn h_double_cxx_arg_3() { double(CxxUnsafeArg, 15..20) }
#[no_mangle] extern "C" fn h_double_rust_arg_1_deep() { double(RustUnsafeArg, 1..8) }
#[no_mangle] extern "C" fn h_double_rust_arg_2_deep() { double(RustUnsafeArg, 8..16) }
#[no_mangle] extern "C" fn h_double_cxx_safe_arg_1_deep() { double(CxxArg, 1..8) }
#[no_mangle] extern "C" fn h_double_cxx_safe_arg_2_deep() { double(CxxArg, 8..20) }
#[no_mangle] extern "C" fn h_double_cxx_ret_1_deep() { double(CxxRet, 1..8) }
#[no_mangle] extern "C" fn h_double_cxx_ret_2_deep() { double(CxxRet, 8..16) }
#[no_mangle] extern "C" fn h_double_rust_result_1_deep() { double(RustResult, 1..8) }
#[no_mangle] extern "C" fn h_double_rust_result_2_deep() { double(RustResult, 8..16) }
#[no_mangle] extern "C" fn h_double_impl_deep() { double(Impl, 7..13) }
/// Three forms; the outer one is one that may contain any type.
fn triple(pos: Pos, outer: usize) {
    let mut w = Vec::new(); let g = choice(FORM.len() - 2, c"middle") + 1; let h = choice(FORM.len() - 2, c"inner") + 1; let base = match choice(3, c"base") { 0 => user(&mut w), 1 => Base::Atom(STR_REF), _ => Base::Atom(CXX_STRING) };
    position(pos, &Type { forms: vec![outer, g, h], base }, &w)
}
#[no_mangle] extern "C" fn h_triple_array_deep() { triple(Field, ARRAY) }
#[no_mangle] extern "C" fn h_triple_slice_deep() { triple(CxxUnsafeArg, SLICE) }
#[no_mangle] extern "C" fn h_triple_ptr_deep() { triple(CxxUnsafeArg, CONST_PTR) }
#[no_mangle] extern "C" fn h_triple_fn_deep() { triple(CxxUnsafeArg, UNSAFE_FN_ARG) }

/// Declarations with symbolic names: which may share a name?
const DECL: [&str; 6] = ["struct @ { x: u8 } ", "enum @ { V } ", "unsafe extern \"C++\" { type @; } ", "extern \"Rust\" { type @; } ", "unsafe extern \"C++\" { type @ = crate::Z; } ", "extern \"C++\" { type @; } "];
fn may_share(i: usize, j: usize) -> bool { let (a, b) = if i < j { (i, j) } else { (j, i) }; (a == 0 && b == 2) || (a == 1 && (b == 2 || b == 5)) }
fn declarations(n: usize, letters: u64, first: Option<usize>) {
    let (mut t, mut w, mut k, mut l) = (String::from("mod ffi { "), Vec::new(), Vec::new(), Vec::new());
    for i in 0..n {
        let d = match first { Some(d) if i == 0 => d, _ => choice(6, c"declaration") }; let c = range(b'G' as u64, b'G' as u64 + letters - 1, c"name") as u8; w.push(ident(unsafe { core::str::from_utf8_unchecked(&[b'T', b'y', c]) }));
        for x in DECL[d].chars() { if x == '@' { t.push_str("__"); t.push((b'0' + i as u8) as char) } else { t.push(x) } } k.push(d); l.push(c);
    }
    t.push_str("}"); let mut ok = true;
    for i in 0..n { for j in 0..i { if !may_share(k[i], k[j]) { ok = and(ok, l[i] != l[j]); } for m in 0..j { ok = and(ok, !and(l[i] == l[j], l[j] == l[m])); } } }
    judge_tokens(&t, &w, ok); reach(c"done");
}
#[no_mangle] extern "C" fn h_declarations() { declarations(2, 11, None) }
#[no_mangle] extern "C" fn h_declarations_three() { declarations(3, 2, None) }
#[no_mangle] extern "C" fn h_declarations_three_deep() { declarations(3, 3, None) }
/// Functions with symbolic names and receivers.
#[no_mangle] extern "C" fn h_functions() {
    let (mut t, mut w, mut k, mut l) = (String::new(), Vec::new(), Vec::new(), Vec::new());
    for i in 0..2 {
        let d = choice(6, c"function"); let c = range(b'g' as u64, b'q' as u64, c"name") as u8; w.push(ident(unsafe { core::str::from_utf8_unchecked(&[b'g', c]) })); let n = if i == 0 { "__0" } else { "__1" };
        t.push_str(&match d { 0 => format!("unsafe extern \"C++\" {{ fn {}(); }} ", n), 1 => format!("extern \"Rust\" {{ fn {}(x: u8); }} ", n), 2 => format!("unsafe extern \"C++\" {{ fn {}(self: &TyG, x: u8); }} ", n), 3 => format!("unsafe extern \"C++\" {{ fn {}(self: &TyL); }} ", n), 4 => format!("extern \"Rust\" {{ fn {}(self: &TyI) -> u8; }} ", n), _ => format!("extern \"Rust\" {{ fn {}(self: &TyG); }} ", n) });
        k.push(match d { 1 => 0, 5 => 2, d => d }); l.push(c);
    }
    judge(&t, &w, !and(k[0] == k[1], l[0] == l[1])); reach(c"done");
}

/// Names that mean a builtin type, with one character symbolic, as the name of a declared type.
const RESERVED: [&str; 23] = ["Box", "UniquePtr", "SharedPtr", "WeakPtr", "Vec", "CxxVector", "str", "bool", "c_char", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64", "CxxString", "String"];
fn reserved(decl: usize, every: bool) {
    let word = RESERVED[choice(RESERVED.len(), c"word")]; let mut b = word.as_bytes().to_vec(); let p = if every { choice(b.len(), c"position") } else { b.len() - 1 };
    let c = if b[p].is_ascii_digit() { range(b'0' as u64, b'9' as u64, c"character") } else if b[p].is_ascii_uppercase() { range(b'A' as u64, b'Z' as u64, c"character") } else { range(b'a' as u64, b'z' as u64, c"character") } as u8; b[p] = c;
    let mut bad = false; for r in RESERVED { bad = or(bad, eq(r.as_bytes(), &b)); }
    let mut t = String::from("mod ffi { "); for x in DECL[decl].chars() { if x == '@' { t.push_str("__0") } else { t.push(x) } } t.push('}');
    judge_tokens(&t, &[ident(unsafe { core::str::from_utf8_unchecked(&b) })], !bad); reach(c"done");
}
#[no_mangle] extern "C" fn h_reserved_struct() { reserved(0, thorough()) }
#[no_mangle] extern "C" fn h_reserved_enum() { reserved(1, thorough()) }
#[no_mangle] extern "C" fn h_reserved_cxx() { reserved(2, thorough()) }
#[no_mangle] extern "C" fn h_reserved_rust() { reserved(3, thorough()) }
#[no_mangle] extern "C" fn h_reserved_alias() { reserved(4, thorough()) }
/// C++ reserves names with two underscores next to each other, and the generated code those that start with `cxxbridge`.
#[no_mangle] extern "C" fn h_underscores() {
    let place = choice(9, c"place"); let mut b = *b"g__ho_k"; let mut chars = [0u8; 4]; for (i, at) in [1, 2, 3, 5].iter().enumerate() { chars[i] = ite(range(0, 1, c"underscore") == 1, b'_' as u64, b'o' as u64) as u8; b[*at] = chars[i]; }
    let (a, u) = (unsafe { core::str::from_utf8_unchecked(&b) }, |i: usize| chars[i] == b'_'); let bad = or(and(u(0), u(1)), and(u(1), u(2)));
    names(place, a, bad);
}
#[no_mangle] extern "C" fn h_prefix() {
    let place = choice(9, c"place"); let mut b = *b"cxxbridgeok"; let p = [0, 3, 8, 9][choice(4, c"position")]; let c = range(b'a' as u64, b'z' as u64, c"character") as u8; let is = c == b[p]; b[p] = c;
    names(place, unsafe { core::str::from_utf8_unchecked(&b) }, or(p >= 9, is));
}
fn names(place: usize, a: &str, bad: bool) {
    let t = match place { 0 => "struct __0 { x: u8 }", 1 => "struct TyM { __0: u8 }", 2 => "enum __0 { V }", 3 => "enum TyM { __0 }", 4 => "unsafe extern \"C++\" { type __0; }", 5 => "extern \"Rust\" { type __0; }", 6 => "extern \"Rust\" { fn __0(); }", 7 => "unsafe extern \"C++\" { fn m(__0: u8); }", _ => "unsafe extern \"C++\" { #[cxx_name = \"__0\"] fn m(); #[namespace = \"m\"] fn __0(); }" };
    let t = if place == 8 { "unsafe extern \"C++\" { #[namespace = __0] fn m(); }" } else { t };
    judge(t, &[ident(a)], !bad); reach(c"done");
}

/// A safe C++ function may return a mutable reference only if it gets one, or something that may hold one.
fn mutable(lang: usize, first_ret: usize, first_arg: usize) {
    const RET: [(&str, bool); 14] = [("&u8", false), ("&mut u8", true), ("Pin<&mut TyJ>", true), ("&mut [u8]", true), ("&[u8]", false), ("&str", false), ("Result<&mut u8>", true), ("Result<&mut [TyG]>", true), ("[&mut [u8]; 2]", true), ("[[&mut [u8]; 2]; 2]", true), ("Result<Pin<&mut TyJ>>", true), ("*mut u8", false), ("Box<TyG>", false), ("Result<()>", false)];
    const ARG: [(&str, bool); 14] = [("", false), ("x: &u8", false), ("x: &mut u8", true), ("x: &mut [u8]", true), ("x: Box<TyM>", true), ("x: fn(&mut u8)", false), ("x: [&mut [u8]; 1]", true), ("x: &[u8]", false), ("x: &TyM", true), ("x: UniquePtr<TyJ>", false), ("x: Pin<&mut TyJ>", true), ("x: fn() -> &mut u8", false), ("x: &str", false), ("x: &[&mut [u8]]", true)];
    const SELF: [(&str, bool); 7] = [("", false), ("self: &TyJ", false), ("self: &mut TyG", true), ("self: &TyM", true), ("self: Pin<&mut TyJ>", true), ("self: &TyG", false), ("self: &TyI", false)];
    let unsafe_ = choice(2, c"unsafe") == 1; let r = RET[first_ret * 7 + choice(7, c"return")]; let k = first_arg * 7 + choice(7, c"argument"); let a = ARG[k]; let s = SELF[choice(if thorough() { 7 } else if k < 7 { 4 } else { 1 }, c"receiver")];
    if lang == 1 { assume(find(a.0, "fn(").is_none()); }
    let sig = format!("{} fn g({}{}{}) -> {};", if unsafe_ { "unsafe" } else { "" }, s.0, if s.0.is_empty() || a.0.is_empty() { "" } else { ", " }, a.0, r.0);
    let t = format!("extern \"Rust\" {{ type TyM<'a>; }} {} {{ {} }}", if lang == 0 { "unsafe extern \"C++\"" } else { "extern \"Rust\"" }, sig);
    judge(&t, &[], lang == 1 || unsafe_ || !r.1 || s.1 || a.1); reach(c"done");
}
#[no_mangle] extern "C" fn h_mutable_1() { mutable(0, 0, 0) }
#[no_mangle] extern "C" fn h_mutable_2() { mutable(0, 1, 0) }
#[no_mangle] extern "C" fn h_mutable_3() { mutable(0, 0, 1) }
#[no_mangle] extern "C" fn h_mutable_4() { mutable(0, 1, 1) }
#[no_mangle] extern "C" fn h_mutable_rust_deep() { mutable(1, choice(2, c"half"), choice(2, c"half of arguments")) }

/// Receivers: every way to write one, on every category of type, in blocks with none, one or two types.
fn receivers(shorthand: bool) {
    const FORM: [(&str, bool, bool); 10] = [("self: &@", true, false), ("self: &mut @", true, true), ("self: Pin<&mut @>", true, false), ("&self", true, false), ("&mut self", true, true), ("self: @", false, false), ("self", false, false), ("self: Box<@>", false, false), ("self: &[@]", false, false), ("self: *const @", false, false)];
    let lang = choice(2, c"language"); let f = if shorthand { 3 + choice(2, c"form") } else { [0, 1, 2, 5, 6, 7, 8, 9][choice(8, c"form")] }; let form = FORM[f]; let mut w = Vec::new(); let base = if shorthand { [Base::User(Unknown), Base::User(Rust), Base::User(Cxx), Base::User(Alias)][choice(4, c"type")] } else { match choice(4, c"base") { 0 => user(&mut w), 1 => Base::Atom(CXX_STRING), 2 => Base::Atom(STRING), _ => Base::Atom(3) } };
    let name = match base { Base::User(_) => "__0", Base::Atom(a) => ATOM[a] }; let mut r = String::new(); for c in form.0.chars() { if c == '@' { r.push_str(name) } else { r.push(c) } }
    let mut ok = form.1; let mut block = "";
    if shorthand {
        let b = choice(3, c"types"); let own = match base { Base::User(Rust) => lang == 1, Base::User(Cxx) => lang == 0, Base::User(Alias) => lang == 0, _ => true }; assume(own);
        block = match (base, b) { (Base::User(Unknown), 0) => "", (Base::User(Unknown), _) => "type TyN; type TyO;", (Base::User(Rust), 0) => "type TyN;", (Base::User(Cxx), 0) => "type TyN;", (Base::User(Alias), 0) => "type TyN = crate::Y;", (Base::User(Alias), 1) => "type TyN = crate::Y; type TyO;", _ => "type TyN; fn m(); type TyO;" };
        let single = b == 0 && base != Base::User(Unknown); ok = and(single, !(form.2 && base == Base::User(Cxx)));
    } else {
        ok = ok && match base { Base::User(Unknown | Enum) => false, Base::User(Cxx) => !form.2, Base::User(_) => true, Base::Atom(_) => false };
    }
    judge(&format!("{} {{ {} fn g({}, x: u8); }}", if lang == 0 { "unsafe extern \"C++\"" } else { "extern \"Rust\"" }, block, r), &w, ok); reach(c"done");
}
#[no_mangle] extern "C" fn h_receivers() { receivers(false) }
#[no_mangle] extern "C" fn h_shorthand() { receivers(true) }

/// Blocks that do or do not claim to be trusted, with declarations that do or do not need it.
#[no_mangle] extern "C" fn h_trust() {
    let lang = choice(2, c"language"); let trusted = choice(2, c"unsafe extern") == 1; let safe = choice(2, c"safe") == 1; let lifetimes = choice(3, c"lifetimes"); let other = choice(4, c"other");
    let f = format!("{}fn g{}(x: &u8) -> &u8;", if safe { "" } else { "unsafe " }, ["", "<'a>", "<'a, 'b>"][lifetimes]);
    let t = format!("{} extern \"{}\" {{ {} {} }} {}", if trusted { "unsafe" } else { "" }, if lang == 0 { "C++" } else { "Rust" }, f, match other { 0 => "", 1 => "type TyM;", 2 => "unsafe fn n(x: *const u8);", _ => "type TyN;" }, if other == 3 { "struct TyN { x: u8 }" } else { "" });
    let ok = if lang == 0 { !(safe && !trusted) && !(lifetimes > 0 && !trusted) && !(other == 3 && !trusted) } else { !trusted && !(lifetimes > 0 && safe) && other != 3 };
    judge(&t, &[], ok); reach(c"done");
}
/// Array lengths.
#[no_mangle] extern "C" fn h_length() {
    let d: [u8; 2] = core::array::from_fn(|_| range(b'0' as u64, b'9' as u64, c"digit") as u8); let hex = choice(2, c"hexadecimal") == 1; let mut s = String::new(); if hex { s.push_str("0x"); } for c in d { s.push(c as char); }
    judge("struct TyM { x: [u8; __0] }", &[literal(&s)], !and(d[0] == b'0', d[1] == b'0')); reach(c"done");
}
/// Unsupported declarations, each next to a supported one.
#[no_mangle] extern "C" fn h_declared_forms() {
    const F: [(&str, bool); 66] = [
        ("struct TyM;", false), ("struct TyM(u8);", false), ("struct TyM {}", false), ("struct TyM { x: u8 }", true), ("struct TyM<T> { x: u8 }", false), ("struct TyM<'a> { x: &'a u8 }", true), ("struct TyM<'a, 'b: 'a> { x: &'a u8 }", false), ("struct TyM<const N: usize> { x: u8 }", false), ("struct TyM<'a> where 'a: 'a { x: &'a u8 }", false),
        ("enum TyM {}", false), ("#[repr(u8)] enum TyM {}", true), ("enum TyM { A(u8) }", false), ("enum TyM { A {} }", false), ("enum TyM { A, B }", true), ("enum TyM<T> { A }", false), ("enum TyM<'a> { A }", false), ("enum TyM where u8: Copy { A }", false),
        ("extern \"Rust\" { fn m<T>(x: u8); }", false), ("extern \"Rust\" { fn m<const N: usize>(x: u8); }", false), ("extern \"Rust\" { fn m(x: u8) where u8: Copy; }", false), ("extern \"Rust\" { unsafe fn m<'a, 'b: 'a>(x: &'a u8); }", false), ("extern \"Rust\" { unsafe fn m<'a, 'b>(x: &'a u8); }", true),
        ("unsafe extern \"C++\" { unsafe fn m(x: u8, ...); }", false), ("extern \"Rust\" { async fn m(); }", false), ("extern \"Rust\" { const fn m(); }", false), ("extern \"Rust\" { extern \"C\" fn m(); }", false), ("extern \"Rust\" { fn m((x, y): u8); }", false), ("extern \"Rust\" { fn m(_: u8); }", true),
        ("extern \"Rust\" { static X: u8; }", false), ("extern \"C\" { fn m(); }", false), ("extern { fn m(); }", false), ("extern \"Rust\" { type TyM: Copy; }", false), ("extern \"Rust\" { type TyM<T>; }", false), ("extern \"Rust\" { type TyM<'a>; }", true), ("extern \"Rust\" { type TyM = crate::Y; }", false), ("unsafe extern \"C++\" { type TyM = crate::Y; }", true), ("unsafe extern \"C++\" { type TyM<'a> = crate::Y<'a>; }", true),
        ("use x;", false), ("fn m() {}", false), ("const X: u8 = 0;", false), ("static X: u8 = 0;", false), ("type TyM = u8;", false), ("union TyM { x: u8 }", false), ("mod m {}", false), ("trait M {}", false), ("impl UniquePtr<TyJ> {}", true), ("impl !UniquePtr<TyJ> {}", false), ("impl UniquePtr<TyJ> { fn m() {} }", false), ("impl Copy for TyG {}", false), ("impl<T> Vec<TyG> {}", false), ("unsafe impl Box<TyG> {}", true), ("impl TyG {}", false), ("impl Vec<u8> {}", false),
        ("struct TyM { x: cxx::UniquePtr<TyJ> }", false), ("struct TyM { x: std::vec::Vec<u8> }", false), ("struct TyM { x: Vec<u8, u8> }", false), ("struct TyM { x: (u8, u8) }", false), ("struct TyM { x: [u8; N] }", false), ("struct TyM { x: [u8; 1 + 1] }", false), ("struct TyM { x: &[u8] }", true), ("struct TyM { x: for<'a> fn(&'a u8) }", false), ("struct TyM { x: &'static str }", true), ("struct TyM { x: dyn Copy }", false), ("struct TyM { x: Pin<Box<TyI>> }", false), ("struct TyM { x: _ }", false), ("unsafe extern \"C++\" { fn m(x: for<'a> fn(&'a u8)); }", false),
    ];
    let (t, ok) = F[choice(F.len(), c"declaration")]; judge(t, &[], ok); reach(c"done");
}
