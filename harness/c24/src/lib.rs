// C24: includes, namespaces and names in the generated C++ text.
#[path = "../../common/sym.rs"]
mod sym;
use sym::*;
include!("../../common/gen.rs");
include!("../../common/gen_macro.rs");
use cxx_gen::{Include, IncludeKind, Opt};

fn bridge(text: &str, with: &[TokenStream]) -> TokenStream { tokens(&format!("#[cxx::bridge] mod ffi {{ {} }}", text), with) }
fn str_(b: &[u8]) -> &str { unsafe { core::str::from_utf8_unchecked(b) } }
fn contains(h: &str, n: &str) -> bool { occurs(h.as_bytes(), n.as_bytes()) }
/// Lines of generated code, without their line ends.
fn lines(t: &str) -> Vec<&str> { let b = t.as_bytes(); let mut v = Vec::new(); let mut s = 0; for i in 0..b.len() { if b[i] == b'\n' { v.push(slice(t, s, i)); s = i + 1; } } v }

// ---- includes
fn line(path: &str, bracketed: bool) -> String { let mut s = String::from("#include "); s.push(if bracketed { '<' } else { '"' }); s.push_str(path); s.push(if bracketed { '>' } else { '"' }); s }
/// Number of lines equal to `l` among those that begin an include; how the text of a path compares does not part paths.
fn lines_equal(t: &str, l: &str) -> u64 { let mut n = 0; for x in lines(t) { if x.starts_with("#include ") { n += ite(eq(x.as_bytes(), l.as_bytes()), 1, 0); } } n }
fn total(t: &str) -> usize { let mut n = 0; for x in lines(t) { if x.starts_with("#include ") { n += 1; } } n }
/// A path of symbolic characters of every kind that may occur in a C++ header name.
fn path(kinds: &[usize]) -> String {
    let mut b = Vec::new();
    for k in kinds { match k { 0 => { let c = range(0x20, 0x7e, c"character") as u8; assume(and(c != b'"', c != b'>')); b.push(c); } 1 => { b.push(0xc3); b.push(range(0x80, 0xbf, c"continuation") as u8); } 2 => { b.extend([0xe2, 0x82]); b.push(range(0x80, 0xbf, c"continuation") as u8); } 3 => b.push(range(1, 0x1f, c"control") as u8), _ => b.extend([0xf0, 0x9f, 0x98, range(0x80, 0xbf, c"continuation") as u8]) } }
    if kinds.contains(&3) { for i in 0..b.len() { assume(and(b[i] != b'\n', b[i] != b'\r')); } }
    unsafe { String::from_utf8_unchecked(b) }
}
/// By the options of the generator (the command line).
fn option(kinds: &[usize], mixed: bool) {
    let p = path(kinds); let bracketed = choice(2, c"form") == 1; let mut o = Opt::default(); o.include.push(Include { path: p.clone(), kind: if bracketed { IncludeKind::Bracketed } else { IncludeKind::Quoted } });
    if mixed { o.include.push(Include { path: "zz/other.h".to_owned(), kind: IncludeKind::Quoted }); }
    let t = bridge(if mixed { "unsafe extern \"C++\" { include!(\"zz/first.h\"); fn m() -> UniquePtr<CxxString>; }" } else { "" }, &[]); let c = cpp_with(&t, &o); check(c.is_ok(), c"accepted"); let c = c.unwrap(); let l = line(&p, bracketed);
    let base = cpp(&t).unwrap();
    for (g, b) in [(&c.header, &base.header), (&c.cc, &base.cc)] { check(lines_equal(g, &l) == 1, c"requested-include-once"); check(total(g) == total(b) + if mixed { 2 } else { 1 }, c"no-other-include"); if mixed { check(lines_equal(g, "#include \"zz/first.h\"") == 1 && lines_equal(g, "#include \"zz/other.h\"") == 1, c"other-includes"); } }
    reach(c"include"); reach(c"done");
}
#[no_mangle] extern "C" fn h_option() { let n = choice(if thorough() { 12 } else { 7 }, c"length"); option(&vec![0; n], false) }
#[no_mangle] extern "C" fn h_option_mixed() { option(&[0, 0], true) }
#[no_mangle] extern "C" fn h_option_unicode() { const K: [&[usize]; 6] = [&[1], &[2], &[4], &[0, 1], &[1, 0, 2], &[3, 0]]; option(K[choice(6, c"characters")], false) }
/// By `include!`: the literal is of either kind, the path symbolic.
fn macro_(with_raw: bool, n: usize) {
    let p = path(&vec![0; n]); let mut s = String::from(if with_raw { "r\"" } else { "\"" }); let b = p.as_bytes();
    // Escapes of ordinary literals are syn's to decode; here the path is written as in the source.
    if !with_raw { for c in b { assume(*c != b'\\'); } } s.push_str(&p); s.push('"');
    let c = cpp(&bridge("unsafe extern \"C++\" { include!(__0); }", &[literal(&s)])); check(c.is_ok(), c"accepted"); let c = c.unwrap();
    for g in [&c.header, &c.cc] { check(lines_equal(g, &line(&p, false)) == 1, c"requested-include-once"); check(total(g) == 1, c"no-other-include"); } reach(c"include"); reach(c"done");
}
#[no_mangle] extern "C" fn h_macro() { macro_(false, 3) }
#[no_mangle] extern "C" fn h_macro_raw() { macro_(true, 3) }
#[no_mangle] extern "C" fn h_macro_escapes() {
    const E: [(&str, &str); 8] = [("\"a\\\\b.h\"", "a\\b.h"), ("\"caf\\u{e9}.h\"", "caf\u{e9}.h"), ("\"caf\u{e9}.h\"", "caf\u{e9}.h"), ("\"it's.h\"", "it's.h"), ("\"\\x41.h\"", "A.h"), ("r#\"a\\b\"#", "a\\b"), ("\"a b\\tc\"", "a b\tc"), ("\"..\\\\x/<y>.h\"", "..\\x/<y>.h")];
    let (s, p) = E[choice(8, c"literal")]; let c = cpp(&bridge("unsafe extern \"C++\" { include!(__0); }", &[literal(s)])).unwrap();
    for g in [&c.header, &c.cc] { check(lines_equal(g, &line(p, false)) == 1, c"requested-include-once"); check(total(g) == 1, c"no-other-include"); } reach(c"include"); reach(c"done");
}
/// By `include!(<...>)`: every short sequence of tokens.
fn bracketed(n: usize) {
    const T: [&str; 12] = ["g", "/", ".", "-", "+", "_", "0", "1h", "match", "::", "=", "~"]; let mut s = String::new(); let mut p = String::new(); let mut word = false;
    for _ in 0..n { let k = choice(T.len(), c"token"); let w = matches!(k, 0 | 5 | 6 | 7 | 8); if w && word { s.push(' '); } word = w; s.push_str(T[k]); s.push(' '); p.push_str(T[k]); }
    let c = cpp(&bridge(&format!("unsafe extern \"C++\" {{ include!(<{}>); }}", s), &[])); check(c.is_ok(), c"accepted"); let c = c.unwrap();
    for g in [&c.header, &c.cc] { check(lines_equal(g, &line(&p, true)) == 1, c"requested-include-once"); check(total(g) == 1, c"no-other-include"); } reach(c"include"); reach(c"done");
}
#[no_mangle] extern "C" fn h_bracketed() { bracketed(2) }
#[no_mangle] extern "C" fn h_bracketed_three_deep() { bracketed(3) }
#[no_mangle] extern "C" fn h_macro_long_deep() { macro_(false, 4) }
/// Several includes, with paths that may be the same; in one block or several; some that a generated include would name.
#[no_mangle] extern "C" fn h_several() {
    const P: [(&str, bool); 7] = [("rust/cxx.h", false), ("rust/cxx.h", true), ("string", true), ("zz/g.h", false), ("zz/g.h", true), ("memory", true), ("string", false)];
    let (i, j, k) = (choice(7, c"first"), choice(7, c"second"), choice(7, c"option")); let same = choice(2, c"blocks") == 0; let w: Vec<String> = [i, j].iter().map(|x| if P[*x].1 { format!("<{}>", P[*x].0) } else { format!("\"{}\"", P[*x].0) }).collect();
    let t = if same { format!("unsafe extern \"C++\" {{ include!({}); fn m() -> UniquePtr<CxxString>; include!({}); }}", w[0], w[1]) } else { format!("unsafe extern \"C++\" {{ include!({}); }} extern \"Rust\" {{ fn m() -> UniquePtr<CxxString>; }} unsafe extern \"C++\" {{ include!({}); }}", w[0], w[1]) };
    let mut o = Opt::default(); o.include.push(Include { path: P[k].0.to_owned(), kind: if P[k].1 { IncludeKind::Bracketed } else { IncludeKind::Quoted } });
    let c = cpp_with(&bridge(&t, &[]), &o).unwrap();
    for g in [&c.header, &c.cc] { for x in 0..7 { let want = [i, j, k].iter().filter(|y| **y == x).count() as u64; let n = lines_equal(g, &line(P[x].0, P[x].1)); let own = matches!(x, 2 | 5); check(if own { n >= want && n <= want + 1 } else { n == want }, c"requested-include-once"); } }
    reach(c"include"); reach(c"done");
}

// ---- namespaces
/// One thing to find: how its line begins, and the namespaces around it.
struct Mark { text: String, path: Vec<String> }
/// Follows the blocks of generated code: all are closed, in order, under the names they were opened by.
fn scan(t: &str, marks: &[Mark]) {
    let mut open: Vec<Option<&str>> = Vec::new(); let mut found = vec![0; marks.len()];
    for l in lines(t) {
        let b = l.as_bytes(); let mut i = 0; while i < b.len() && b[i] == b' ' { i += 1; } let l = slice(l, i, b.len()); if l.starts_with('#') || l.starts_with("//") { continue; }
        let inline = l.starts_with("inline namespace "); let name = if inline { slice(l, 17, l.len()) } else if l.starts_with("namespace ") { slice(l, 10, l.len()) } else { "" };
        if name.ends_with(" {") { open.push(Some(slice(name, 0, name.len() - 2))); continue; }
        if l == "namespace {" { open.push(Some("")); continue; } if l == "extern \"C\" {" { open.push(Some("\"C\"")); continue; }
        if l.starts_with('}') {
            check(!open.is_empty(), c"balanced"); let top = open.pop().unwrap();
            if l.starts_with("} // ") { let end = slice(l, 5, l.len()); let end = if end.starts_with("inline ") { slice(end, 7, end.len()) } else { end }; let end = if end.starts_with("namespace ") { slice(end, 10, end.len()) } else if end == "namespace" { "" } else if end == "extern \"C\"" { "\"C\"" } else { "?" }; check(top.is_some(), c"end-of-namespace"); check(eq(end.as_bytes(), top.unwrap().as_bytes()), c"end-of-the-same-namespace"); continue; }
            let mut o = 0i32; for c in l.as_bytes()[1..].iter() { if *c == b'{' { o += 1 } else if *c == b'}' { o -= 1 } } check(o >= 0 && o <= 1, c"braces"); if o == 1 { open.push(None); } continue;
        }
        if open.iter().all(|x| x.is_some()) { for (i, m) in marks.iter().enumerate() { if l.len() >= m.text.len() && eq(&l.as_bytes()[..m.text.len()], m.text.as_bytes()) {
            found[i] += 1; let here: Vec<&str> = open.iter().map(|x| x.unwrap()).filter(|x| *x != "\"C\"").collect(); check(here.len() == m.path.len(), c"depth-of-namespace"); for (a, e) in here.iter().zip(&m.path) { check(eq(a.as_bytes(), e.as_bytes()), c"in-its-namespace"); }
        } } }
        for c in l.bytes() { if c == b'{' { open.push(None) } else if c == b'}' { check(!open.is_empty(), c"balanced"); open.pop(); } }
    }
    check(open.is_empty(), c"balanced"); for f in found { check(f >= 1, c"item-present"); } reach(c"scanned");
}
const SPACE: [&[&str]; 6] = [&[], &["p"], &["p", "q"], &["r"], &["q"], &["p", "q", "p"]];
fn spell(p: &[&str]) -> String { p.join("::") }
fn path_of(p: &[&str]) -> Vec<String> { p.iter().map(|x| x.to_string()).collect() }
/// Item kinds: declaration (with the attribute at `@`), and what marks it in the header and in the source file.
const ITEM: [(&str, &[&str], &[&str]); 7] = [
    ("@ struct TyA { x: u8 }", &["struct TyA;", "struct TyA final {"], &["struct TyA;", "struct TyA final {"]),
    ("@ enum TyB { V }", &["enum class TyB : ::std::uint8_t;", "enum class TyB : ::std::uint8_t {"], &["enum class TyB : ::std::uint8_t;", "enum class TyB : ::std::uint8_t {"]),
    ("unsafe extern \"C++\" { @ type TyC; }", &["using TyC = "], &["using TyC = "]),
    ("extern \"Rust\" { @ type TyD; }", &["struct TyD;", "struct TyD final : public ::rust::Opaque {"], &["struct TyD;", "struct TyD final : public ::rust::Opaque {", "::std::size_t TyD::layout::size() noexcept {"]),
    ("extern \"Rust\" { @ fn f(x: u8); }", &["void f(::std::uint8_t x) noexcept;"], &["void f(::std::uint8_t x) noexcept {"]),
    ("unsafe extern \"C++\" { @ fn g(); }", &[], &["void @$cxxbridge1$g() noexcept {"]),
    ("@ #[derive(PartialEq)] struct TyE { x: f32 }", &["struct TyE;", "struct TyE final {"], &["struct TyE final {", "bool TyE::operator==(TyE const &rhs) const noexcept {"]),
];
fn marks(k: usize, p: &[String], cc: bool) -> Vec<Mark> {
    let mut v = Vec::new(); for m in if cc { ITEM[k].2 } else { ITEM[k].1 } { let mut t = String::new(); let mut skip = false; for c in m.chars() { if c == '@' { for s in p { if !t.ends_with(' ') { t.push('$'); } t.push_str(s); } skip = p.is_empty(); } else if skip { skip = false } else { t.push(c) } } v.push(Mark { text: t, path: p.to_vec() }); } v
}
fn place(items: &[usize], spaces: &[usize]) {
    let mut t = String::new(); for (k, s) in items.iter().zip(spaces) { for c in ITEM[*k].0.chars() { if c == '@' { if !SPACE[*s].is_empty() { t.push_str(&format!("#[namespace = \"{}\"]", spell(SPACE[*s]))); } } else { t.push(c) } } t.push(' '); }
    let c = cpp(&bridge(&t, &[])); check(c.is_ok(), c"accepted"); let c = c.unwrap();
    for (cc, g) in [(false, &c.header), (true, &c.cc)] { let mut m = Vec::new(); for (k, s) in items.iter().zip(spaces) { m.extend(marks(*k, &path_of(SPACE[*s]), cc)); } scan(g, &m); }
    reach(c"done");
}
/// Every assignment of three items to namespaces, in every order.
fn orders(items: [usize; 3], n: usize) {
    let mut left = items.to_vec(); let mut order = Vec::new(); while left.len() > 1 { order.push(left.remove(choice(left.len(), c"next"))); } order.push(left[0]); let s: Vec<usize> = (0..3).map(|_| choice(n, c"namespace")).collect(); place(&order, &s)
}
#[no_mangle] extern "C" fn h_order_data() { orders([0, 1, 2], 6) }
#[no_mangle] extern "C" fn h_order_opaque() { orders([3, 4, 5], 6) }
#[no_mangle] extern "C" fn h_order_functions() { orders([4, 5, 6], 6) }
#[no_mangle] extern "C" fn h_order_all_deep() { let mut s = [0; 6]; for x in s.iter_mut() { *x = choice(4, c"namespace"); } place(&[4, 0, 5, 1, 3, 2], &s) }
/// Namespaces whose names are symbolic, and so may be the same.
fn symbolic(items: [usize; 3], depth: [usize; 3]) {
    let (mut w, mut t, mut p) = (Vec::new(), String::new(), Vec::new());
    for (k, d) in items.iter().zip(depth) {
        let mut a = String::from("#[namespace = "); let mut q = Vec::new(); for i in 0..d { if i > 0 { a.push_str("::"); } a.push_str("__"); a.push((b'0' + w.len() as u8) as char); let c = [b'n', range(b'g' as u64, b'q' as u64, c"name") as u8]; w.push(ident(str_(&c))); q.push(str_(&c).to_owned()); } a.push(']');
        if d == 0 { a.clear(); } for c in ITEM[*k].0.chars() { if c == '@' { t.push_str(&a) } else { t.push(c) } } t.push(' '); p.push(q);
    }
    let c = cpp(&bridge(&t, &w)); check(c.is_ok(), c"accepted"); let c = c.unwrap();
    for (cc, g) in [(false, &c.header), (true, &c.cc)] { let mut m = Vec::new(); for (k, q) in items.iter().zip(&p) { m.extend(marks(*k, q, cc)); } scan(g, &m); } reach(c"done");
}
/// Paths of up to five components, the second item's agreeing with the first's in any of them.
fn far(items: [usize; 2], lengths: &[usize]) {
    let n = lengths[choice(lengths.len(), c"length")]; let m = lengths[choice(lengths.len(), c"other-length")]; let a: Vec<String> = (0..n).map(|i| ["p", "q", "p", "q", "r"][i].to_owned()).collect();
    let b: Vec<String> = (0..m).map(|_| ["p", "q"][choice(2, c"component")].to_owned()).collect(); let paths = [a, b]; let mut t = String::new();
    for (k, p) in items.iter().zip(&paths) { for c in ITEM[*k].0.chars() { if c == '@' { t.push_str(&format!("#[namespace = \"{}\"]", p.join("::"))); } else { t.push(c) } } t.push(' '); }
    let c = cpp(&bridge(&t, &[])); check(c.is_ok(), c"accepted"); let c = c.unwrap();
    for (cc, g) in [(false, &c.header), (true, &c.cc)] { let mut m = Vec::new(); for (k, q) in items.iter().zip(&paths) { m.extend(marks(*k, q, cc)); } scan(g, &m); } reach(c"done");
}
#[no_mangle] extern "C" fn h_far() { far([0, 4], &[1, 4]) }
#[no_mangle] extern "C" fn h_far_types() { far([3, 1], &[3, 4]) }
#[no_mangle] extern "C" fn h_far_all_deep() { far([0, 3], &[1, 2, 3, 4, 5]) }
#[no_mangle] extern "C" fn h_symbolic_functions() { symbolic([4, 5, 4 - 4], [2, 1, 2]) }
#[no_mangle] extern "C" fn h_symbolic_types() { symbolic([0, 3, 1], [1, 2, 2]) }
/// The attribute of an item counts before that of its block, and that before that of the bridge.
#[no_mangle] extern "C" fn h_inherit() {
    const K: [usize; 7] = [0, 1, 2, 3, 4, 5, 6]; const A: [Option<&[&str]>; 4] = [None, Some(&["p"]), Some(&["q", "p"]), Some(&[])];
    let k = K[choice(7, c"kind")]; let (b, e, i) = (choice(3, c"bridge"), choice(4, c"block"), choice(4, c"item")); let block = ITEM[k].0.contains("extern"); assume(block || e == 0);
    let attr = |x: usize| match A[x] { None => String::new(), Some(p) => if x == 2 { format!("#[namespace = {}]", spell(p)) } else { format!("#[namespace = \"{}\"]", spell(p)) } };
    let mut t = attr(e); for c in ITEM[k].0.chars() { if c == '@' { t.push_str(&attr(i)) } else { t.push(c) } }
    let head = match A[b] { None => String::new(), Some(p) => if b == 1 { format!("(namespace = \"{}\")", spell(p)) } else { format!("(namespace = {})", spell(p)) } };
    let c = cpp(&tokens(&format!("#[cxx::bridge{}] mod ffi {{ {} }}", head, t), &[])); check(c.is_ok(), c"accepted"); let c = c.unwrap();
    let want = A[i].or(if block { A[e] } else { None }).or(A[b]).unwrap_or(&[]); for (cc, g) in [(false, &c.header), (true, &c.cc)] { scan(g, &marks(k, &path_of(want), cc)); } reach(c"done");
}

// ---- names
/// A declaration with a name `@`, and the lines that its C++ name and its Rust name begin, if any.
const NAMED: [(&str, &str, &str); 10] = [
    ("@ struct __0 { x: u8 }", "struct @ final {", "struct @ {"), ("@ enum __0 { V }", "enum class @ : ::std::uint8_t {", "struct @ {"), ("struct TyM { @ __0: u8 }", "  ::std::uint8_t @ CXX_DEFAULT_VALUE(0);", "@ : u8"), ("enum TyM { @ __0 }", "  @ = 0,", "const @ :"),
    ("unsafe extern \"C++\" { @ type __0; }", "using @ = ::@;", "struct @ {"), ("extern \"Rust\" { @ type __0; }", "struct @ final : public ::rust::Opaque {", "super :: @"), ("unsafe extern \"C++\" { @ fn __0(); }", " = ::@;", "fn @ ("), ("extern \"Rust\" { @ fn __0(); }", "void @() noexcept {", "super :: @"),
    ("unsafe extern \"C++\" { type TyM; @ fn __0(&self); }", " = &::TyM::@;", "fn @ ("), ("extern \"Rust\" { type TyM; @ fn __0(&self); }", "  void @() const noexcept;", "TyM :: @"),
];
fn sub(pattern: &str, name: &str) -> String { let mut s = String::new(); for c in pattern.chars() { if c == '@' { s.push_str(name) } else { s.push(c) } } s }
fn named(k: usize, attrs: &str, with: &[TokenStream], cxx: &str, rust_name: &str, other: Option<&str>) {
    let t = sub(NAMED[k].0, attrs); let c = cpp(&bridge(&t, with)); check(c.is_ok(), c"accepted"); let c = c.unwrap(); let r = rust(&tokens(&format!("mod ffi {{ {} }}", t), with)); check(r.is_ok(), c"accepted"); let r = r.unwrap();
    check(contains(&c.cc, &sub(NAMED[k].1, cxx)), c"name-in-c++"); check(contains(&r, &sub(NAMED[k].2, rust_name)), c"name-in-rust"); check(!contains(&c.cc, "r#") && !contains(&c.header, "r#"), c"not-a-raw-identifier");
    if let Some(o) = other { if k < 6 { check(!contains(&c.cc, o) && !contains(&c.header, o), c"other-name-not-in-c++") } check(!contains(&r, &sub(NAMED[k].2, cxx)), c"other-name-not-in-rust") }
    reach(c"named"); reach(c"done");
}
fn letters(a: u8, b: u8) -> String { let mut s = String::new(); s.push(a as char); s.push(b as char); for _ in 0..2 { s.push(range(b'g' as u64, b'q' as u64, c"letter") as u8 as char); } s }
#[no_mangle] extern "C" fn h_renamed() {
    let k = choice(NAMED.len(), c"kind"); let how = choice(5, c"attribute"); let (a, b) = (letters(b'n', b'N'), letters(b'k', b'K'));
    match how {
        0 => named(k, "#[cxx_name = __1]", &[ident(&a), ident(&b)], &b, &a, Some(&a)), 1 => { let q = literal(&format!("\"{}\"", b)); named(k, "#[cxx_name = __1]", &[ident(&a), q], &b, &a, Some(&a)) }
        2 => named(k, "#[rust_name = __1]", &[ident(&b), ident(&a)], &b, &a, Some(&a)), 3 => { let q = literal(&format!("\"{}\"", a)); named(k, "#[rust_name = __1]", &[ident(&b), q], &b, &a, Some(&a)) }
        _ => { let d = letters(b'o', b'O'); named(k, "#[cxx_name = __1] #[rust_name = __2]", &[ident(&d), ident(&b), ident(&a)], &b, &a, Some(&d)) }
    }
}
/// Keywords of Rust as names.
const WORD: [&str; 10] = ["match", "type", "fn", "impl", "use", "where", "loop", "move", "async", "yield"];
#[no_mangle] extern "C" fn h_keywords() {
    let k = choice(NAMED.len(), c"kind"); let w = WORD[choice(10, c"word")]; let raw: TokenStream = format!("r#{}", w).parse().unwrap(); let r = format!("r#{}", w);
    match choice(4, c"attribute") { 0 => named(k, "", &[raw], w, &r, None), 1 => named(k, "#[cxx_name = __1]", &[ident("kKgh"), raw], w, "kKgh", None), 2 => named(k, "#[rust_name = __1]", &[ident("kKgh"), raw], "kKgh", &r, None), _ => named(k, &format!("#[cxx_name = \"{}\"]", w), &[ident("kKgh")], w, "kKgh", None) }
}
/// A raw identifier as a namespace, wherever a namespace may be given, and as an argument.
#[no_mangle] extern "C" fn h_keyword_namespaces() {
    let w = WORD[choice(10, c"word")]; let ns = format!("r#{}::m", w); let path = vec![w.to_owned(), "m".to_owned()]; let k = choice(ITEM.len(), c"kind"); let place = choice(3, c"place"); assume(place != 1 || ITEM[k].0.contains("extern"));
    let a = format!("#[namespace = {}]", ns); let t = format!("#[cxx::bridge{}] mod ffi {{ {} {} }}", if place == 0 { format!("(namespace = {})", ns) } else { String::new() }, if place == 1 { &a } else { "" }, sub(ITEM[k].0, if place == 2 { &a } else { "" }));
    let c = cpp(&tokens(&t, &[])); check(c.is_ok(), c"accepted"); let c = c.unwrap(); for (cc, g) in [(false, &c.header), (true, &c.cc)] { check(!contains(g, "r#"), c"not-a-raw-identifier"); scan(g, &marks(k, &path, cc)); } reach(c"done");
}
#[no_mangle] extern "C" fn h_keyword_symbols() {
    let w = WORD[choice(10, c"word")]; let k = choice(6, c"function");
    let (t, s) = match k { 0 => (format!("extern \"Rust\" {{ fn r#{}(r#type: u8); }}", w), format!("cxxbridge1${}", w)), 1 => (format!("unsafe extern \"C++\" {{ fn r#{}(r#type: u8); }}", w), format!("cxxbridge1${}", w)), 2 => (format!("extern \"Rust\" {{ type r#{}; fn m(self: &r#{}); }}", w, w), format!("cxxbridge1${}$m", w)), 3 => (format!("unsafe extern \"C++\" {{ type TyM; fn r#{}(&self); }}", w), format!("cxxbridge1$TyM${}", w)), 4 => (format!("unsafe extern \"C++\" {{ fn m(r#{}: fn(r#type: u8)); }}", w), format!("cxxbridge1$m${}$1", w)), _ => (format!("#[derive(PartialEq)] struct r#{} {{ r#type: f32 }}", w), format!("cxxbridge1${}$operator$eq", w)) };
    let c = cpp(&bridge(&t, &[])); let r = rust(&tokens(&format!("mod ffi {{ {} }}", t), &[])); check(c.is_ok() && r.is_ok(), c"accepted"); let (c, r) = (c.unwrap(), r.unwrap());
    check(contains(&c.cc, &format!("{}(", s)), c"symbol-in-c++"); check(contains(&r, &format!("\"{}\"", s)), c"symbol-in-rust"); check(!contains(&c.cc, "r#") && !contains(&c.header, "r#"), c"not-a-raw-identifier"); reach(c"named"); reach(c"done");
}

// ---- documentation
/// What a C++ compiler sees: comments removed, after splicing lines that end in a backslash, in a backslash and white space, or in the trigraph for one; a
/// carriage return also ends a line. Lines without anything are left out.
fn code(t: &str) -> Vec<u8> {
    let b = t.as_bytes(); let mut out: Vec<u8> = Vec::new(); let mut comment = false; let mut i = 0;
    while i < b.len() {
        if !comment && b[i] == b'/' && i + 1 < b.len() && b[i + 1] == b'/' { comment = true; while out.last() == Some(&b' ') { out.pop(); } i += 2; continue; }
        if b[i] == b'\n' || b[i] == b'\r' {
            let mut k = i; while comment && k > 0 && (b[k - 1] == b' ' || b[k - 1] == b'\t' || b[k - 1] == 0x0b || b[k - 1] == 0x0c) { k -= 1; }
            let spliced = comment && k > 0 && (b[k - 1] == b'\\' || (b[i - 1] == b'/' && i > 2 && b[i - 2] == b'?' && b[i - 3] == b'?'));
            if !spliced { comment = false; if out.last() != Some(&b'\n') { out.push(b'\n'); } }
        } else if !comment { out.push(b[i]); }
        i += 1;
    }
    out
}
fn doc(lit: &str) {
    const AT: [&str; 8] = ["struct", "field", "enum", "variant", "method of a struct", "opaque type", "method", "function"]; let at = choice(AT.len(), c"place"); let o = Opt::default();
    let mut v: Vec<TokenStream> = vec![TokenStream::new(); 8]; v[at] = tokens("#[doc = __0]", &[literal(lit)]);
    let w = |v: &[TokenStream]| tokens("#[cxx::bridge] mod ffi { __0 struct S { a: u8, __1 b: u16, c: u8 } __2 enum E { A, __3 B, C } extern \"Rust\" { __4 fn m(self: &S); __5 type R; __6 fn n(self: &R, e: E); __7 fn f(r: &R); fn g(); } }", v);
    let (t, base) = (w(&v), w(&vec![TokenStream::new(); 8])); let c = cpp_with(&t, &o); check(c.is_ok(), c"accepted"); let (c, base) = (c.unwrap(), cpp_with(&base, &o).unwrap());
    for (g, b) in [(&c.header, &base.header), (&c.cc, &base.cc)] { let (g, b) = (code(g), code(b)); check(g.len() == b.len() && eq(&g, &b), c"documentation-is-only-comment"); } reach(c"done");
}
#[no_mangle] extern "C" fn h_doc() {
    let n = 1 + choice(if thorough() { 3 } else { 2 }, c"length"); let mut s = String::from("r\"x").into_bytes(); for _ in 0..n { let c = range(9, 0x7e, c"character") as u8; assume(and(c != b'"', and(c != b'\r', true))); assume(or(c >= 0x20, or(c == 9, c == 10))); s.push(c); } s.push(b'"');
    doc(unsafe { core::str::from_utf8_unchecked(&s) })
}
#[no_mangle] extern "C" fn h_doc_escapes() {
    const L: [&str; 12] = ["\"x\\r struct Z {\"", "\"x\\\\\"", "\"x\\\\ \\t\"", "\"a\\nb\\\\\"", "\"a\\\\\\nb\"", "\"what??/\"", "\"\u{e9}\\\\\"", "\"\"", "\"\\n\\n\"", "\"\\\\\\r\"", "\"a /* b\"", "\"a\\r\\\\\\r\\n\\u{c}\""];
    doc(L[choice(L.len(), c"literal")])
}
