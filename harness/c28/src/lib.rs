// C28: what Rust code sees of a bridge is what the bridge says.
#[path = "../../common/sym.rs"]
mod sym;
use sym::*;
use proc_macro2::{Delimiter, Spacing};
include!("../../common/gen.rs");
include!("../../common/gen_macro.rs");

fn letters(head: &str, n: usize) -> String { let mut b = head.as_bytes().to_vec(); for _ in 0..n { b.push(range(b'a' as u64, b'z' as u64, c"letter") as u8); } utf8(b) }
fn is(x: Option<&TokenTree>, w: &str) -> bool { match x { Some(TokenTree::Ident(i)) => { let s = i.to_string(); eq(s.as_bytes(), w.as_bytes()) } _ => false } }
fn punct(x: Option<&TokenTree>, c: char) -> bool { matches!(x, Some(TokenTree::Punct(p)) if p.as_char() == c) }
fn group(x: Option<&TokenTree>, d: Delimiter) -> bool { matches!(x, Some(TokenTree::Group(g)) if g.delimiter() == d) }
/// Text without what does not matter: spaces, the leading modules of absolute paths, trailing commas.
fn canon(t: &[TokenTree]) -> String { let mut s = String::new(); canon_to(t, &mut s); s }
fn canon_to(t: &[TokenTree], s: &mut String) {
    let mut i = 0; let mut word = false;
    while i < t.len() {
        match &t[i] {
            TokenTree::Punct(p) if p.as_char() == ':' && p.spacing() == Spacing::Joint && punct(t.get(i + 1), ':') && !(i > 0 && ((matches!(t[i - 1], TokenTree::Ident(_)) && !(i > 1 && punct(t.get(i - 2), '\'')) && !["mut", "impl", "dyn", "const", "for", "as"].iter().any(|w| is(t.get(i - 1), w))) || (punct(t.get(i - 1), '>') && !(i > 1 && punct(t.get(i - 2), '-'))))) => { // ::a::b::C
                i += 2; while matches!(t.get(i), Some(TokenTree::Ident(_))) && punct(t.get(i + 1), ':') && punct(t.get(i + 2), ':') { i += 3; } continue;
            }
            TokenTree::Punct(p) if p.as_char() == ',' && (i + 1 == t.len() || punct(t.get(i + 1), '>')) => {}
            TokenTree::Punct(p) => { if p.as_char() == '\'' && word { s.push(' '); } s.push(p.as_char()); word = false; }
            TokenTree::Ident(x) => { if word { s.push(' '); } s.push_str(&x.to_string()); word = true; }
            TokenTree::Literal(x) => { s.push_str(&x.to_string()); word = true; }
            TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis && i > 0 && is(t.get(i - 1), "fn") => { s.push('('); s.push_str(&params(&list(g.stream()))); s.push(')'); word = false; }
            TokenTree::Group(g) => { let (a, b) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") }; s.push_str(a); canon_to(&list(g.stream()), s); s.push_str(b); word = false; }
        }
        i += 1;
    }
}
fn list(t: TokenStream) -> Vec<TokenTree> { t.into_iter().collect() }
fn inner(x: &TokenTree) -> Vec<TokenTree> { match x { TokenTree::Group(g) => list(g.stream()), _ => Vec::new() } }
/// The items of a list: each ends with a brace or a semicolon.
fn items(t: &[TokenTree]) -> Vec<&[TokenTree]> {
    let mut v = Vec::new(); let mut s = 0; for i in 0..t.len() { if punct(t.get(i), ';') || group(t.get(i), Delimiter::Brace) { v.push(&t[s..i + 1]); s = i + 1; } } v
}
/// Attributes in front of an item, and the rest.
fn attributes(t: &[TokenTree]) -> (Vec<String>, &[TokenTree]) { let mut v = Vec::new(); let mut i = 0; while punct(t.get(i), '#') && group(t.get(i + 1), Delimiter::Bracket) { v.push(canon(&inner(&t[i + 1]))); i += 2; } (v, &t[i..]) }
/// A function with a body. Its signature leaves out the names of the arguments.
struct Function { owner: String, attrs: Vec<String>, vis: bool, is_unsafe: bool, name: String, generics: String, signature: String, body: Vec<TokenTree>, nested: bool }
fn functions(t: &[TokenTree], owner: &str, nested: bool, out: &mut Vec<Function>) {
    for it in items(t) {
        let last = it.len() - 1; let (attrs, h) = attributes(it); if !group(Some(&it[last]), Delimiter::Brace) || h.is_empty() { continue; }
        let body = inner(&it[last]); let head = &h[..h.len() - 1];
        let at = |w: &str| head.iter().position(|x| is(Some(x), w));
        if let Some(f) = at("fn").filter(|f| matches!(head.get(f + 1), Some(TokenTree::Ident(_)))) {
            let is_unsafe = head[..f].iter().any(|x| is(Some(x), "unsafe")); let vis = is(head.first(), "pub");
            functions(&body, owner, true, out);
            let (generics, signature) = signature(&head[f + 2..]); out.push(Function { owner: owner.to_owned(), attrs, vis, is_unsafe, name: head[f + 1].to_string(), generics, signature, body, nested });
        } else if let Some(i) = at("impl") { functions(&body, &canon(&head[i..]), nested, out); } else if at("mod").is_some() { functions(&body, "", nested, out); } else { functions(&body, owner, nested, out); }
    }
}
/// The types of a list of arguments.
fn params(args: &[TokenTree]) -> String {
    let mut s = String::new(); let mut depth = 0; let mut from = 0;
    for i in 0..args.len() + 1 {
        if punct(args.get(i), '<') { depth += 1; } else if punct(args.get(i), '>') && !(i > 0 && punct(args.get(i - 1), '-')) { depth -= 1; }
        if i == args.len() || (depth == 0 && punct(args.get(i), ',')) { if from < i { let a = &args[from..i]; s.push_str(&canon(if matches!(a.get(1), Some(TokenTree::Punct(p)) if p.as_char() == ':' && p.spacing() == Spacing::Alone) && !is(a.first(), "self") { &a[2..] } else { a })); s.push(';'); } from = i + 1; }
    }
    s
}
/// What follows a function's name: its generics, and the types of its arguments and its result.
fn signature(t: &[TokenTree]) -> (String, String) {
    let p = match t.iter().position(|x| group(Some(x), Delimiter::Parenthesis)) { Some(p) => p, None => return (canon(t), String::new()) };
    let mut s = format!("({})", params(&inner(&t[p])));
    s.push_str(&canon(&t[p + 1..])); (canon(&t[..p]), s)
}
/// Calls of `path::name(...)`: whether in an unsafe context, and how often.
fn calls(t: &[TokenTree], path: &str, name: &str, in_unsafe: bool, found: &mut Vec<bool>) {
    for i in 0..t.len() {
        if i >= 3 && is(t.get(i - 3), path) && punct(t.get(i - 1), ':') && group(t.get(i + 1), Delimiter::Parenthesis) && is(t.get(i), name) { found.push(in_unsafe); }
        if let TokenTree::Group(g) = &t[i] { if g.delimiter() == Delimiter::Brace && i > 0 && is_fn(&t[..i]) { continue; } calls(&list(g.stream()), path, name, in_unsafe || (g.delimiter() == Delimiter::Brace && i > 0 && is(t.get(i - 1), "unsafe")), found); }
    }
}
/// Is the brace after these tokens the body of a function item?
fn is_fn(t: &[TokenTree]) -> bool { let it = { let mut s = 0; for i in 0..t.len() { if punct(t.get(i), ';') || group(t.get(i), Delimiter::Brace) { s = i + 1; } } &t[s..] }; (0..it.len()).any(|i| is(it.get(i), "fn") && matches!(it.get(i + 1), Some(TokenTree::Ident(_)))) }

fn expand(body: &str, with: &[TokenStream]) -> Option<Vec<TokenTree>> { let t = cxx_macro_lib::bridge(TokenStream::new(), tokens(&format!("mod ffi {{ {} {} }}", TYPES, body), with)); if has_error(t.clone()) { None } else { Some(list(t)) } }
fn said(src: &str, with: &[TokenStream]) -> String { canon(&list(tokens(src, with))) }
const TYPES: &str = "#[derive(Clone)] struct Sh { x: u8 } enum En { V } extern \"Rust\" { type Rs; } unsafe extern \"C++\" { type Cx; type Al = crate::Al; type Lt<'a>; type L2<'a, 'b>; } ";
const ARG: [&str; 40] = ["u8", "bool", "f64", "i32", "usize", "c_char", "&str", "String", "&String", "&mut String", "Box<Rs>", "Box<Sh>", "Vec<u8>", "&Vec<String>", "&mut Vec<Sh>", "Vec<Rs>", "UniquePtr<Cx>", "UniquePtr<CxxString>", "UniquePtr<CxxVector<u8>>", "SharedPtr<Cx>", "WeakPtr<Cx>", "&CxxString",
    "Pin<&mut CxxVector<u8>>", "&CxxVector<Sh>", "&[u8]", "&mut [Sh]", "&[String]", "Sh", "En", "&Sh", "&mut Sh", "&Cx", "Pin<&mut Cx>", "Al", "&Rs", "&mut Rs", "[u8; 4]", "&Lt", "&UniquePtr<Cx>", "&SharedPtr<Sh>"];
const RET: [&str; 26] = ["u8", "bool", "c_char", "&str", "String", "&String", "Box<Rs>", "Vec<u8>", "&Vec<String>", "Vec<String>", "UniquePtr<Cx>", "UniquePtr<CxxVector<u8>>", "SharedPtr<Cx>", "WeakPtr<Cx>", "&CxxString", "&CxxVector<Sh>", "&[u8]", "Sh", "En", "&Sh", "&Cx", "Al", "&Rs", "[u8; 4]", "&[String]", "()"];
/// Receivers: as declared, as in Rust's method, the type, and the type alone.
const SELF: [(&str, &str, &str); 8] = [("", "", ""), ("self: &Cx", "&self", "Cx"), ("self: Pin<&mut Cx>", "self: Pin<&mut Self>", "Cx"), ("self: &Sh", "&self", "Sh"), ("self: &mut Sh", "&mut self", "Sh"), ("self: &Al", "&self", "Al"), ("self: Pin<&mut Al>", "self: Pin<&mut Self>", "Al"), ("self: &Lt", "&self", "Lt<'_>")];
const NAMES: [&str; 5] = ["one", "two", "three", "four", "five"];

struct Decl { lifetimes: &'static str, receiver: &'static str, is_unsafe: bool, args: Vec<&'static str>, ret: Option<&'static str>, fails: bool, attr: &'static str }
impl Decl {
    fn arguments(&self, receiver: &str) -> String { let mut s = receiver.to_owned(); for (i, a) in self.args.iter().enumerate() { if !s.is_empty() { s.push_str(", "); } s.push_str(&format!("{}: {}", NAMES[i], a)); } s }
    fn declared(&self) -> String {
        let ret = match (self.ret, self.fails) { (None, false) => String::new(), (None, true) => " -> Result<()>".to_owned(), (Some(r), false) => format!(" -> {}", r), (Some(r), true) => format!(" -> Result<{}>", r) };
        format!("{} {} fn __0{}({}){};", self.attr, if self.is_unsafe { "unsafe" } else { "" }, self.lifetimes, self.arguments(self.receiver), ret)
    }
    fn expected(&self, receiver: &str, error: &str) -> String { let ret = match (self.ret, self.fails) { (None, false) => String::new(), (Some("()"), false) => String::new(), (None, true) => format!("-> Result<(), {}>", error), (Some(r), false) => format!("-> {}", r), (Some(r), true) => format!("-> Result<{}, {}>", r, error) }; signature(&list(tokens(&format!("({}) {}", self.arguments(receiver), ret), &[]))).1 }
}
fn same(got: &str, want: &str, id: &std::ffi::CStr) { if got != want { note(got); note(want); } check(got == want, id); }
/// A C++ function, as Rust code may call it.
fn callable(d: Decl, as_rust: &str, owner: &str, trusted: bool) {
    let name = letters("fun", if thorough() { 3 } else { 1 }); let with = [ident(&name)];
    let e = expand(&format!("{} extern \"C++\" {{ {} }}", if trusted { "unsafe" } else { "" }, d.declared()), &with);
    if !trusted && !d.is_unsafe { check(e.is_none(), c"safe-to-call-only-if-vouched-for"); reach(c"refused"); return; }
    if e.is_none() { note(&d.declared()); } check(e.is_some(), c"accepted"); let e = e.unwrap(); let mut v = Vec::new(); functions(&e, "", false, &mut v);
    let mine: Vec<&Function> = v.iter().filter(|f| !f.nested && eq(f.name.as_bytes(), name.as_bytes())).collect(); check(mine.len() == 1, c"one-function"); let f = mine[0];
    check(f.is_unsafe == d.is_unsafe, c"safety"); check(f.vis, c"can-be-called-from-outside");
    let lifetimes = said(d.lifetimes, &[]); let generics = if owner.is_empty() { f.generics.clone() } else { let i = owner_generics(&f.owner); format!("{}{}", i.0, f.generics) }; same(&generics, &lifetimes, c"lifetimes");
    same(if owner.is_empty() { &f.owner } else { owner_generics(&f.owner).1 }, &said(owner, &[]), c"method-of");
    same(&f.signature, &d.expected(as_rust, "Exception"), c"signature");
    if !d.attr.is_empty() { check(f.attrs.iter().filter(|a| **a == said(&d.attr[2..d.attr.len() - 1], &[])).count() == 1, c"attribute"); }
    reach(c"done");
}
/// `impl<'a> Ty<'_>` as "<'a>" and "Ty<'_>".
fn owner_generics(s: &str) -> (&str, &str) { let s = s.strip_prefix("impl").unwrap_or(s); if s.starts_with('<') { let n = s.find('>').map_or(s.len(), |i| i + 1); (&s[..n], &s[n..]) } else { ("", s.trim_start()) } }
fn decl() -> Decl { Decl { lifetimes: "", receiver: "", is_unsafe: false, args: Vec::new(), ret: None, fails: false, attr: "" } }
/// Five of the argument types at once.
fn some_args(d: &mut Decl) { let k = choice(ARG.len() / 5, c"types"); for i in 0..5 { d.args.push(ARG[k * 5 + i]); } }
fn some_ret(d: &mut Decl) { let r = RET[choice(RET.len(), c"type")]; d.ret = Some(r); if r.starts_with('&') { d.args.push("&u8"); } }
#[no_mangle] extern "C" fn h_cpp_args() { let mut d = decl(); some_args(&mut d); d.is_unsafe = choice(2, c"unsafe") == 1; d.fails = choice(2, c"fails") == 1; callable(d, "", "", true) }
#[no_mangle] extern "C" fn h_cpp_ret() { let mut d = decl(); some_ret(&mut d); d.is_unsafe = choice(2, c"unsafe") == 1; d.fails = choice(2, c"fails") == 1; callable(d, "", "", true) }
#[no_mangle] extern "C" fn h_cpp_self() {
    let mut d = decl(); let s = SELF[choice(SELF.len(), c"receiver")]; d.receiver = s.0; d.is_unsafe = choice(2, c"unsafe") == 1; d.fails = choice(2, c"fails") == 1; d.attr = ["", "#[must_use]", "#[doc = \"Says.\"]"][choice(3, c"attribute")];
    if choice(2, c"argument and result") == 1 { d.args.push("u64"); d.ret = Some("u8"); } let trusted = choice(2, c"trusted") == 1; callable(d, s.1, s.2, trusted)
}
#[no_mangle] extern "C" fn h_cpp_pointers() { let mut d = decl(); for p in ["*const Cx", "*mut Sh", "*const u8", "*mut Rs"] { d.args.push(p); } d.is_unsafe = choice(2, c"unsafe") == 1; let trusted = choice(2, c"trusted") == 1; if !d.is_unsafe { check(expand(&format!("unsafe extern \"C++\" {{ {} }}", d.declared()), &[ident("f")]).is_none(), c"pointers-are-unsafe"); reach(c"refused"); } else { callable(d, "", "", trusted) } }
#[no_mangle] extern "C" fn h_cpp_callback() { let mut d = decl(); d.args.push(["fn(u8) -> u8", "unsafe fn(u8)", "fn(&Sh, String) -> Box<Rs>", "unsafe fn() -> Sh"][choice(4, c"type")]); d.is_unsafe = choice(2, c"unsafe") == 1; if choice(2, c"two") == 1 { d.args.insert(0, "u16"); } callable(d, "", "", true) }
/// Lifetimes: of a function, and of a method.
#[no_mangle] extern "C" fn h_cpp_lifetimes() {
    let mut d = decl(); d.is_unsafe = choice(2, c"unsafe") == 1; d.fails = choice(2, c"fails") == 1;
    let (l, s, a, r, m, o): (&str, &str, &[&str], Option<&str>, &str, &str) = [
        ("<'a>", "", &["&'a u8", "&'a Cx"][..], Some("&'a u8"), "", ""), ("<'a, 'b>", "", &["&'a str", "&'b str"][..], Some("&'b str"), "", ""), ("<'a, 'b>", "", &["&'a [u8]", "&'b CxxString"][..], Some("&'b CxxString"), "", ""),
        ("<'a>", "", &["&'a Sh", "Pin<&'a mut Cx>"][..], Some("Pin<&'a mut Cx>"), "", ""), ("<'a>", "", &["&'a Lt<'a>"][..], Some("UniquePtr<Lt<'a>>"), "", ""), ("<'a, 'b>", "", &["&'b Lt<'a>"][..], Some("&'b Lt<'a>"), "", ""),
        ("<'a>", "self: &'a Cx", &[][..], Some("&'a u8"), "&'a self", "Cx"), ("<'a>", "self: Pin<&'a mut Cx>", &["&'a u8"][..], Some("Pin<&'a mut Cx>"), "self: Pin<&'a mut Self>", "Cx"), ("<'a>", "self: &Lt<'a>", &["&'a str"][..], Some("&'a str"), "&self", "Lt<'a>"),
        ("<'a>", "self: &'a mut Sh", &["&str"][..], Some("&'a mut Sh"), "&'a mut self", "Sh"), ("<'a, 'b>", "self: &L2<'a, 'b>", &["&'a u8"][..], Some("&'b str"), "&self", "L2<'a, 'b>"), ("<'c>", "self: &'c L2", &["u8"][..], Some("&'c str"), "&'c self", "L2<'_, '_>"),
    ][choice(12, c"shape")];
    d.lifetimes = l; d.receiver = s; d.ret = r; for x in a { d.args.push(*x); } callable(d, m, o, true)
}
/// A Rust function: what C++ reaches goes through a call that fixes its types and whether it needs an unsafe context.
fn called(d: Decl, path: &str) {
    let name = letters("fun", if thorough() { 3 } else { 1 }); let with = [ident(&name)]; let e = expand(&format!("extern \"Rust\" {{ {} }}", d.declared()), &with); if e.is_none() { note(&d.declared()); } check(e.is_some(), c"accepted");
    let mut v = Vec::new(); functions(&e.unwrap(), "", false, &mut v); let mut n = 0;
    for f in &v {
        let mut found = Vec::new(); calls(&f.body, path, &name, f.is_unsafe, &mut found); if found.is_empty() { continue; }
        n += found.len(); check(found.iter().all(|u| *u == d.is_unsafe), c"called-in-an-unsafe-context-exactly-if-unsafe");
        let want = d.expected(&d.receiver.replace("self", "__self"), "impl Display"); let want = if d.fails { &want[..want.len() - 1] } else { &want[..] }; if !f.signature.starts_with(want) { note(&f.signature); note(want); }
        check(if d.fails { f.signature.starts_with(want) } else { f.signature == want }, c"called-with-the-declared-types"); same(&f.generics, &said(d.lifetimes, &[]), c"called-with-the-declared-lifetimes");
        let (params, _) = signature_arity(&f.signature); check(params == d.args.len() + !d.receiver.is_empty() as usize, c"every-argument");
    }
    check(n == 1, c"called-once"); reach(c"done");
}
fn signature_arity(s: &str) -> (usize, ()) { let end = { let mut depth = 0; let mut e = s.len(); for (i, c) in s.bytes().enumerate() { if c == b'(' { depth += 1; } else if c == b')' { depth -= 1; if depth == 0 { e = i; break; } } } e }; (s[..end].bytes().filter(|c| *c == b';').count(), ()) }
const RARG: [&str; 35] = ["u8", "bool", "f64", "i32", "c_char", "&str", "String", "&String", "&mut String", "Box<Rs>", "Box<Sh>", "Vec<u8>", "&Vec<String>", "&mut Vec<Sh>", "Vec<String>", "UniquePtr<Cx>", "UniquePtr<CxxString>", "SharedPtr<Cx>", "&CxxString", "Pin<&mut CxxString>",
    "Pin<&mut CxxVector<u8>>", "&CxxVector<Sh>", "&[u8]", "&mut [Sh]", "&[String]", "Sh", "En", "&Sh", "&mut Sh", "&Cx", "Pin<&mut Cx>", "Al", "&Rs", "&mut Rs", "&SharedPtr<Sh>"];
const RRET: [&str; 20] = ["u8", "bool", "&str", "String", "&String", "Box<Rs>", "Vec<u8>", "&Vec<String>", "Vec<String>", "UniquePtr<Cx>", "SharedPtr<Cx>", "WeakPtr<Cx>", "&CxxString", "&CxxVector<Sh>", "&[u8]", "Sh", "En", "&Sh", "Al", "&Rs"];
#[no_mangle] extern "C" fn h_rust_args() { let mut d = decl(); let k = choice(RARG.len() / 5, c"types"); for i in 0..5 { d.args.push(RARG[k * 5 + i]); } d.is_unsafe = choice(2, c"unsafe") == 1; d.fails = choice(2, c"fails") == 1; called(d, "super") }
#[no_mangle] extern "C" fn h_rust_ret() { let mut d = decl(); let r = RRET[choice(RRET.len(), c"type")]; d.ret = Some(r); if r.starts_with('&') { d.args.push("&u8"); } d.is_unsafe = choice(2, c"unsafe") == 1; d.fails = choice(2, c"fails") == 1; called(d, "super") }
#[no_mangle] extern "C" fn h_rust_self() {
    let mut d = decl(); let (s, o) = [("self: &Rs", "Rs"), ("self: &mut Rs", "Rs"), ("self: &Sh", "Sh"), ("self: &mut Sh", "Sh")][choice(4, c"receiver")]; d.receiver = s; d.is_unsafe = choice(2, c"unsafe") == 1; d.fails = choice(2, c"fails") == 1;
    match choice(4, c"rest") { 0 => {} 1 => d.ret = Some("u8"), 2 => { d.args.push("String"); d.ret = Some("&Sh"); } _ => d.args.push("i32") } called(d, o)
}
#[no_mangle] extern "C" fn h_rust_lifetimes() {
    let mut d = decl(); d.is_unsafe = choice(2, c"unsafe") == 1; d.fails = choice(2, c"fails") == 1;
    let (l, s, a, r, o): (&str, &str, &[&str], &str, &str) = [("<'a>", "", &["&'a str", "&'a Sh"][..], "&'a str", "super"), ("<'a, 'b>", "", &["&'a Rs", "&'b str"][..], "&'b str", "super"), ("<'a>", "self: &'a Rs", &["&u8"][..], "&'a u8", "Rs"), ("<'a>", "self: &'a mut Sh", &["&'a str"][..], "&'a mut Sh", "Sh"), ("<'a>", "", &["Pin<&'a mut Cx>"][..], "Pin<&'a mut Cx>", "super")][choice(5, c"shape")];
    d.lifetimes = l; d.receiver = s; d.ret = Some(r); for x in a { d.args.push(*x); }
    if !d.is_unsafe { check(expand(&format!("extern \"Rust\" {{ {} }}", d.declared()), &[ident("f")]).is_none(), c"a-safe-function-has-no-lifetimes-of-its-own"); reach(c"refused"); return; } called(d, o)
}
/// The types: what they are called, what can be seen of them, and how they are laid out.
#[no_mangle] extern "C" fn h_types() {
    let name = letters("Ty", if thorough() { 2 } else { 1 }); let field = letters("fie", 1); let with = [ident(&name), ident(&field)]; let k = choice(5, c"kind"); let attr = ["", "#[must_use]", "#[doc = \"Says.\"]", "#[deprecated]"][choice(4, c"attribute")]; let vis = ["", "pub"][choice(2, c"visibility")];
    let (src, want, repr) = match k {
        0 => (format!("{} {} struct __0 {{ {} __1: i32, {} second: String }}", attr, vis, vis, vis), "struct __0{pub __1:i32,pub second:String}", "C"),
        1 => (format!("{} {} struct __0<'a> {{ __1: &'a str, pub second: &'a [u8] }}", attr, vis), "struct __0<'a>{pub __1:&'a str,pub second:&'a[u8]}", "C"),
        2 => (format!("unsafe extern \"C++\" {{ {} {} type __0; }}", attr, vis), "struct __0{_private:Opaque}", "C"),
        3 => (format!("unsafe extern \"C++\" {{ {} {} type __0<'a>; }}", attr, vis), "struct __0<'a>{_private:Opaque,_lifetime_a:PhantomData<&'a()>}", "C"),
        _ => (format!("{} {} enum __0 {{ First, Second }}", attr, vis), "struct __0{#[allow(missing_docs)]pub repr:u8}", "transparent"),
    };
    let e = expand(&src, &with); check(e.is_some(), c"accepted"); let e = e.unwrap(); let m = e.iter().rev().find(|x| group(Some(x), Delimiter::Brace)); check(m.is_some(), c"module"); let body = inner(m.unwrap()); let mut n = 0;
    for it in items(&body) {
        let (attrs, h) = attributes(it); let s = match h.iter().position(|x| is(Some(x), "struct")) { Some(s) => s, None => continue }; match h.get(s + 1) { Some(TokenTree::Ident(i)) if { let i = i.to_string(); eq(i.as_bytes(), name.as_bytes()) } => {} _ => continue }
        n += 1; check(s == 1 && is(h.first(), "pub"), c"can-be-named-from-outside"); let got = canon(&h[1..]); let want = said(want, &with); if got.len() != want.len() { note(&got); note(&want); } check(eq(got.as_bytes(), want.as_bytes()), c"fields");
        check(attrs.iter().any(|a| *a == format!("repr({})", repr)) && attrs.iter().filter(|a| a.starts_with("repr")).count() == 1, c"layout"); if !attr.is_empty() { check(attrs.iter().filter(|a| **a == said(&attr[2..attr.len() - 1], &[])).count() == 1, c"attribute"); }
    }
    check(n == 1, c"one-type"); reach(c"done");
}
/// The module, and the types it only names.
#[no_mangle] extern "C" fn h_module() {
    let name = letters("mi", if thorough() { 2 } else { 1 }); let ty = letters("Ty", 1); let with = [ident(&name), ident(&ty)]; let vis = ["", "pub", "pub(crate)"][choice(3, c"visibility")]; let attr = ["", "#[doc = \"Says.\"]", "#[allow(dead_code)]", "#[doc = \"Says.\"] #[must_use]"][choice(4, c"attribute")];
    let (body, want) = [("unsafe extern \"C++\" { type __1 = crate::one::Two; }", "type __1=crate::one::Two;"), ("extern \"Rust\" { type __1; }", "use super::__1;"), ("unsafe extern \"C++\" { type __1<'a> = crate::Two<'a>; }", "type __1<'a>=crate::Two<'a>;")][choice(3, c"body")];
    let e = cxx_macro_lib::bridge(TokenStream::new(), tokens(&format!("{} {} mod __0 {{ {} }}", attr, vis, body), &with)); check(!has_error(e.clone()), c"accepted"); let e = list(e); let (attrs, h) = attributes(&e);
    let n = h.len(); check(n >= 3 && group(h.last(), Delimiter::Brace) && is(h.get(n - 3), "mod"), c"module"); let got = h[n - 2].to_string(); check(eq(got.as_bytes(), name.as_bytes()), c"module-name"); same(&canon(&h[..n - 3]), &said(vis, &[]), c"module-visibility");
    let (wanted, _) = { let w = list(tokens(attr, &[])); let (a, _) = attributes(&w); (a, ()) }; for w in &wanted { check(attrs.iter().filter(|a| *a == w).count() == 1, c"module-attribute"); }
    let want = said(want, &with); let body = inner(&h[n - 1]); let mut found = 0; for it in items(&body) { let (_, it) = attributes(it); let public = is(it.first(), "pub"); let it = raw(if public { &it[1..] } else { it }); if it.len() == want.len() && eq(it.as_bytes(), want.as_bytes()) { found += 1; check(public || want.starts_with("use"), c"can-be-named-from-outside"); } }
    check(found == 1, c"names-the-type"); reach(c"done");
}
/// Text with whole paths.
fn raw(t: &[TokenTree]) -> String { let mut s = String::new(); let mut word = false; for x in t { match x { TokenTree::Ident(i) => { if word { s.push(' '); } s.push_str(&i.to_string()); word = true; } TokenTree::Punct(p) => { s.push(p.as_char()); word = false; } _ => { s.push('?'); word = false; } } } s }
/// Safe functions only where someone has vouched for the block.
#[no_mangle] extern "C" fn h_vouch() {
    const ITEM: [&str; 5] = ["type Cz;", "unsafe fn __0(x: u8);", "fn __0(x: u8);", "fn __0(self: &Cx);", "unsafe fn __0(self: &Cx) -> Result<u8>;"]; let block = choice(2, c"block") == 1; let module = choice(2, c"module") == 1; let mut b = String::new(); let mut safe = false;
    let mut with = Vec::new(); for i in 0..3 { let k = choice(ITEM.len(), c"item"); safe |= k == 2 || k == 3; b.push_str(&ITEM[k].replace("__0", &format!("__{}", i)).replace("Cz", ["Ca", "Cb", "Cc"][i])); with.push(ident(["one", "two", "three"][i])); }
    let src = format!("{} mod ffi {{ unsafe extern \"C++\" {{ type Cx; }} {} extern \"C++\" {{ {} }} }}", if module { "unsafe" } else { "" }, if block { "unsafe" } else { "" }, b);
    let ok = !has_error(cxx_macro_lib::bridge(TokenStream::new(), tokens(&src, &with))); if ok != (block || module || !safe) { note(&src); } check(ok == (block || module || !safe), c"safe-to-call-only-if-vouched-for"); reach(if ok { c"done" } else { c"refused" });
}
