// C27: types that several bridges or crates share are verified to be one and the same, and to allow what is done with them.
#[path = "../../common/sym.rs"]
mod sym;
use sym::*;
include!("../../common/gen.rs");
include!("../../common/gen_macro.rs");

fn str_(b: &[u8]) -> &str { unsafe { core::str::from_utf8_unchecked(b) } }
/// A symbolic identifier: `head`, then `n` characters of every kind an ASCII identifier may hold.
fn word(head: &str, n: usize) -> String {
    let mut b = head.as_bytes().to_vec();
    for _ in 0..n { let c = range(b'0' as u64, b'z' as u64, c"character") as u8; let first = b.is_empty(); assume(or(or(and(c >= b'a', c <= b'z'), and(c >= b'A', c <= b'Z')), or(c == b'_', and(!first, c <= b'9')))); b.push(c); }
    str_(&b).to_owned()
}
/// What `type_id!` makes of a path, given as the tokens of it.
fn id_of(path: TokenStream) -> String { let mut t: TokenStream = "__krate".parse().unwrap(); t.extend(path); let e = cxx_macro_lib::type_id(t); check(!has_error(e.clone()), c"accepted"); e.to_string() }
fn path_tokens(p: &[String]) -> TokenStream { let mut t = TokenStream::new(); for (i, s) in p.iter().enumerate() { if i > 0 { t.extend("::".parse::<TokenStream>().unwrap()); } t.extend(ident(s)); } t }
fn same(a: &[String], b: &[String]) -> bool { if a.len() != b.len() { return false; } let mut e = true; for (x, y) in a.iter().zip(b) { e = and(e, eq(x.as_bytes(), y.as_bytes())); } e }
fn iff(a: bool, b: bool) -> bool { or(and(a, b), and(!a, !b)) }
const SHAPE: [&[usize]; 8] = [&[1], &[2], &[1, 1], &[3], &[1, 2], &[2, 1], &[1, 1, 1], &[4]];

// ---- the identifier of a name
/// Two names have the same identifier exactly when they are the same name.
fn injective(n: usize) {
    let (i, j) = (choice(n, c"first"), choice(n, c"second")); assume(i <= j);
    let a: Vec<String> = SHAPE[i].iter().map(|n| word("", *n)).collect(); let b: Vec<String> = SHAPE[j].iter().map(|n| word("", *n)).collect();
    let (x, y) = (id_of(path_tokens(&a)), id_of(path_tokens(&b))); check(iff(eq(x.as_bytes(), y.as_bytes()), same(&a, &b)), c"identifier-is-the-name");
    if i == j { reach(c"same-shape"); } reach(c"done");
}
#[no_mangle] extern "C" fn h_injective() { injective(7) }
#[no_mangle] extern "C" fn h_injective_four_deep() { injective(8) }
/// Other letters, by themselves and within.
#[no_mangle] extern "C" fn h_letters() {
    const L: [&str; 12] = ["\u{e9}", "e", "\u{df}", "\u{10d}", "c", "\u{3bb}", "\u{4e2d}", "\u{4e3d}", "\u{1d4d0}", "_", "_0", "_9"];
    let (i, j) = (choice(12, c"first"), choice(12, c"second")); let k = choice(3, c"place"); let c = word("", 1);
    let put = |l: &str| match k { 0 => vec![format!("T{}", l)], 1 => vec![format!("T{}{}", l, c)], _ => vec![format!("n{}", l), format!("T{}", c)] };
    let (x, y) = (id_of(path_tokens(&put(L[i]))), id_of(path_tokens(&put(L[j])))); check(iff(eq(x.as_bytes(), y.as_bytes()), i == j), c"identifier-is-the-name"); reach(c"done");
}
/// Quoted or not, raw or not: the identifier is the same.
#[no_mangle] extern "C" fn h_quoted() {
    let p = [word("n", 1), word("T", 1)]; let k = choice(5, c"form");
    let a = id_of(path_tokens(&p)); let s = match k { 0 => format!("\"{}::{}\"", p[0], p[1]), 1 => format!("\"::{}::{}\"", p[0], p[1]), 2 => format!("\"{} :: {}\"", p[0], p[1]), 3 => format!("r#\"{}::{}\"#", p[0], p[1]), _ => format!("\"{}\"", p[1]) };
    let b = id_of(literal(&s)); if k == 4 { check(eq(b.as_bytes(), id_of(path_tokens(&p[1..])).as_bytes()), c"quoted"); } else { check(eq(a.as_bytes(), b.as_bytes()), c"quoted"); } reach(c"done");
}
#[no_mangle] extern "C" fn h_raw() { const W: [&str; 4] = ["type", "r#type", "match", "r#match"]; let (i, j) = (choice(4, c"first"), choice(4, c"second")); let at = |w: &str| id_of(format!("n::{}::T", w).parse().unwrap()); check(iff(eq(at(W[i]).as_bytes(), at(W[j]).as_bytes()), i / 2 == j / 2), c"identifier-is-the-name"); reach(c"done"); }

// ---- the identifiers a bridge gives to its types
/// The characters of an identifier type, whatever path leads to them.
fn letters(t: &str) -> Vec<String> {
    let mut v = Vec::new(); let b = t.as_bytes(); let mut i = 0; let mut last = String::new();
    while i < b.len() { let s = i; while i < b.len() && b[i] != b' ' { i += 1; } let w = slice(t, s, i); while i < b.len() && b[i] == b' ' { i += 1; } if w.as_bytes()[0] == b',' { v.push(core::mem::take(&mut last)); } else { last = w.to_owned(); } }
    check(v.len() > 0, c"identifier"); v
}
/// Item kinds: `@` is the place for attributes, `__0` the name.
const KIND: [(&str, &str); 6] = [("@ struct __0 { x: u8 }", "Trivial"), ("@ enum __0 { V }", "Trivial"), ("unsafe extern \"C++\" { @ type __0; }", "Opaque"), ("extern \"Rust\" { @ #[derive(ExternType)] type __0; }", "Opaque"), ("unsafe extern \"C++\" { @ type __0 = crate::z; }", ""), ("@ #[derive(Clone)] struct __0<'a> { x: &'a u8 }", "Trivial")];
fn sub(t: &str, a: &str) -> String { let mut s = String::new(); for c in t.chars() { if c == '@' { s.push_str(a) } else { s.push(c) } } s }
fn expand(args: &str, with: &[TokenStream], body: &str) -> String { let r = rust_with(tokens(args, with), &tokens(&format!("mod ffi {{ {} }}", body), with)); check(r.is_ok(), c"accepted"); r.unwrap() }
/// The identifier of the only type in `t`.
fn declared(t: &str, k: usize, name: &str) -> Vec<String> {
    if k == 4 { check(count(t, "verify_extern_type :: <") == 1 && count(t, "type Id =") == 0, c"verified-once"); let i = between(t, "verify_extern_type :: <", "> ;").unwrap(); let j = find(i, ",").unwrap(); check(eq(slice(i, 1, j - 1).as_bytes(), name.as_bytes()), c"verified-type"); letters(slice(i, j + 2, i.len())) }
    else {
        check(count(t, "type Id =") == 1 && count(t, "verify_extern") == 0, c"declared-once"); check(occurs(t.as_bytes(), format!(":: cxx :: ExternType for {} {}", name, if k == 5 { "< 'a > {" } else { "{" }).as_bytes()), c"declared-type");
        let kind = between(t, "type Kind = :: cxx :: kind :: ", " ;"); check(kind == Some(KIND[k].1), c"kind"); letters(between(t, "type Id = ", "; type Kind").unwrap())
    }
}
fn expected(p: &[String]) -> Vec<String> { letters(&id_of(path_tokens(p))) }
/// In every namespace and with every name in C++, it is that of `type_id!` with the full name in C++.
fn names(by: usize) {
    let k = choice(KIND.len(), c"kind"); let (ns, inner, name, cxx) = (word("n", 1), word("m", 1), word("T", 1), word("U", 1)); let with = [ident(&name), ident(&ns), ident(&inner), ident(&cxx)];
    let (mut a, mut args, mut want) = (String::new(), "", Vec::new()); let mut block = "";
    match by { 0 => {} 1 => { args = "namespace = __1"; want.push(ns.clone()) } 2 => { a.push_str("#[namespace = __1::__2]"); want.extend([ns.clone(), inner.clone()]) } 3 => { args = "namespace = __1"; a.push_str("#[namespace = __2]"); want.push(inner.clone()) } 4 => { args = "namespace = __1::__2"; block = "#[namespace = __2]"; want.push(inner.clone()) } _ => { args = "namespace = __1"; a.push_str("#[namespace = \"\"]") } }
    let renamed = choice(3, c"renamed"); if renamed > 0 { a.push_str(if renamed == 1 { "#[cxx_name = __Q]" } else { "#[rust_name = __Q]" }); assume(k != 3 || renamed == 0); }
    // cxx_name takes its name as a string or an identifier.
    let a = { let mut s = String::new(); let mut c = a.as_str(); while let Some(i) = find(c, "__Q") { s.push_str(slice(c, 0, i)); s.push_str("__3"); c = slice(c, i + 3, c.len()); } s.push_str(c); s };
    want.push(if renamed == 1 { cxx.clone() } else { name.clone() });
    let body = sub(KIND[k].0, &a); if block != "" { assume(body.contains("extern")); } let body = format!("{} {}", block, body);
    let t = expand(args, &with, &body); let got = declared(&t, k, if renamed == 2 { &cxx } else { &name }); check(same(&got, &expected(&want)), c"identifier-is-the-name"); reach(c"named"); reach(c"done");
}
#[no_mangle] extern "C" fn h_names_plain() { names(0) }
#[no_mangle] extern "C" fn h_names_bridge() { names(1) }
#[no_mangle] extern "C" fn h_names_item() { names(2) }
#[no_mangle] extern "C" fn h_names_item_over_bridge() { names(3) }
#[no_mangle] extern "C" fn h_names_block() { names(4) }
#[no_mangle] extern "C" fn h_names_global() { names(5) }
/// A type declared by one bridge and named by an alias in another: accepted exactly when the full names agree.
#[no_mangle] extern "C" fn h_across() {
    let k = choice(4, c"kind"); let (p, q) = (choice(3, c"namespace"), choice(3, c"namespace")); let mut all = Vec::new();
    let mut side = |form: &str, n: usize, k: usize| { let mut p: Vec<String> = (0..n).map(|_| word("n", 1)).collect(); p.push(word("T", 1)); let w: Vec<TokenStream> = p.iter().rev().map(|s| ident(s)).collect(); let a = ["", "#[namespace = __1]", "#[namespace = __2::__1]"][n]; let t = expand("", &w, &sub(form, a)); all.push(p.clone()); declared(&t, k, p.last().unwrap()) };
    let (x, y) = (side(KIND[k].0, p, k), side(KIND[4].0, q, 4)); check(iff(same(&x, &y), same(&all[0], &all[1])), c"verified-exactly-when-the-same"); reach(c"across"); reach(c"done");
}

// ---- what is required of an external type
/// Uses of the type `@`: does Rust come to move values of it, and may it be an array in C++?
const USE: [(&str, bool, bool); 55] = [
    ("struct Fa { x: @ }", true, true), ("struct Fb { y: u8, x: @ }", true, true), ("struct Fc { x: UniquePtr<@> }", false, false), ("struct Fd { x: SharedPtr<@> }", false, false), ("struct Fe { x: WeakPtr<@> }", false, false), ("struct Ff<'a> { x: &'a @ }", false, false), ("struct Fg { x: *mut @ }", false, false), ("struct Fh { x: Vec<@> }", true, true), ("struct Fi { x: Box<@> }", true, false), ("struct Fj { x: UniquePtr<CxxVector<@>> }", false, false),
    ("unsafe extern \"C++\" { fn ca(x: @); }", true, false), ("unsafe extern \"C++\" { fn cb() -> @; }", true, false), ("unsafe extern \"C++\" { fn cc() -> Result<@>; }", true, false), ("unsafe extern \"C++\" { fn cd(y: u8, x: @); }", true, false), ("unsafe extern \"C++\" { fn ce(x: &@); }", false, false), ("unsafe extern \"C++\" { fn cf(x: Pin<&mut @>); }", false, false), ("unsafe extern \"C++\" { fn cg(x: &mut @); }", true, false), ("unsafe extern \"C++\" { fn ch(self: &@); }", false, false), ("unsafe extern \"C++\" { fn ci(self: &mut @); }", true, false), ("unsafe extern \"C++\" { fn cj(self: Pin<&mut @>); }", false, false),
    ("unsafe extern \"C++\" { fn ck(x: &@) -> &@; }", false, false), ("unsafe extern \"C++\" { fn cl(x: &mut u8) -> &mut @; }", true, false), ("unsafe extern \"C++\" { fn cm(x: Pin<&mut CxxString>) -> Pin<&mut @>; }", false, false), ("unsafe extern \"C++\" { fn cn(x: &[@]); }", true, false), ("unsafe extern \"C++\" { fn co(x: &mut [@]); }", true, false), ("unsafe extern \"C++\" { fn cp(x: fn(x: @)); }", true, false), ("unsafe extern \"C++\" { fn cq(x: fn() -> @); }", true, false), ("unsafe extern \"C++\" { fn cr(x: fn(x: &@)); }", false, false), ("unsafe extern \"C++\" { unsafe fn cs(x: *mut @); }", false, false), ("unsafe extern \"C++\" { fn ct(x: UniquePtr<@>) -> SharedPtr<@>; }", false, false),
    ("unsafe extern \"C++\" { fn cu(x: Box<@>); }", true, false), ("unsafe extern \"C++\" { fn cv() -> Vec<@>; }", true, true), ("unsafe extern \"C++\" { fn cw() -> &'static [@]; }", true, false), ("unsafe extern \"C++\" { fn cx(x: &CxxVector<@>); }", false, false), ("unsafe extern \"C++\" { fn cy(x: &Vec<@>); }", true, true), ("unsafe extern \"C++\" { fn cz(x: fn(x: Box<@>)); }", true, false),
    ("extern \"Rust\" { fn ra(x: @); }", true, false), ("extern \"Rust\" { fn rb() -> @; }", true, false), ("extern \"Rust\" { fn rc() -> Result<@>; }", true, false), ("extern \"Rust\" { fn rd(x: &@); }", false, false), ("extern \"Rust\" { fn re(x: Pin<&mut @>); }", false, false), ("extern \"Rust\" { fn rf(x: &mut @); }", true, false), ("extern \"Rust\" { fn rg(x: &[@]); }", true, false), ("extern \"Rust\" { fn rh(x: Vec<@>); }", true, true), ("extern \"Rust\" { fn ri(x: UniquePtr<@>); }", false, false),
    ("impl UniquePtr<@> {}", false, false), ("impl Vec<@> {}", true, true), ("impl Box<@> {}", true, false), ("impl CxxVector<@> {}", false, false), ("impl SharedPtr<@> {}", false, false),
    ("unsafe extern \"C++\" { fn da(x: fn(y: u8, z: u8) -> @); }", true, false), ("unsafe extern \"C++\" { fn db(y: u8, x: fn(x: u8, y: @)); }", true, false), ("unsafe extern \"C++\" { fn dc(self: &mut @) -> Result<()>; }", true, false), ("unsafe extern \"C++\" { fn dd(self: &mut @, y: u8) -> u8; }", true, false), ("unsafe extern \"C++\" { fn de(self: &@, y: u8) -> Result<u8>; }", false, false),
];
/// Two aliases, uses of one of them or the other: what each use needs is verified, and nothing else.
fn uses(list: &[usize]) {
    let mut text = String::from("unsafe extern \"C++\" { type TyK = crate::k; #[namespace = n] type TyM = crate::m; } "); let mut with = Vec::new(); let mut of = Vec::new(); for i in 1..list.len() { assume(list[i] != list[0]); }
    for (i, u) in list.iter().enumerate() { let c = range(b'K' as u64, b'M' as u64, c"type") as u8; assume(c != b'L'); with.push(ident(str_(&[b'T', b'y', c]))); of.push(c); text.push_str(&sub(USE[*u].0, &format!("__{}", i))); text.push(' '); }
    let e = format!("mod ffi {{ {} }}", text); let (c, r) = (cpp(&tokens(&format!("#[cxx::bridge] {}", e), &with)), rust(&tokens(&e, &with))); check(c.is_ok() && r.is_ok(), c"accepted"); let (c, r) = (c.unwrap(), r.unwrap());
    for (n, full) in [(b'K', "::TyK"), (b'M', "::n::TyM")] {
        let (mut moves, mut array) = (false, true); for (u, x) in list.iter().zip(&of) { if *x == n && USE[*u].1 { moves = true; array &= USE[*u].2; } }
        let ty = &full[full.len() - 3..]; check(count(&r, &format!("verify_extern_type :: < {} ,", ty)) == 1, c"name-verified");
        check(count(&r, &format!("verify_extern_kind :: < {} , :: cxx :: kind :: Trivial >", ty)) == moves as usize, c"kind-verified-exactly-when-moved");
        let (s, a) = (count(&c.cc, &format!("::rust::IsRelocatable<{}>::value", full)), count(&c.cc, &format!("::rust::IsRelocatableOrArray<{}>::value", full)));
        check(s == (moves && !array) as usize, c"relocatable-asserted"); check(a == (moves && array) as usize, c"relocatable-asserted"); if moves { reach(c"moved"); } else { reach(c"not-moved"); }
    }
    reach(c"done");
}
#[no_mangle] extern "C" fn h_use() { uses(&[choice(USE.len(), c"use")]) }
/// One use beside others of each sort.
fn beside(k: usize) { uses(&[choice(USE.len(), c"use"), k]) }
#[no_mangle] extern "C" fn h_use_beside_field() { beside(0) }
#[no_mangle] extern "C" fn h_use_beside_pointer() { beside(29) }
#[no_mangle] extern "C" fn h_use_beside_argument() { beside(10) }
fn pair(k: usize) { let i = choice(USE.len(), c"use"); assume(i % 4 == k); let j = choice(USE.len(), c"use"); assume(j > i); uses(&[i, j]) }
#[no_mangle] extern "C" fn h_uses_0_deep() { pair(0) }
#[no_mangle] extern "C" fn h_uses_1_deep() { pair(1) }
#[no_mangle] extern "C" fn h_uses_2_deep() { pair(2) }
#[no_mangle] extern "C" fn h_uses_3_deep() { pair(3) }
/// A type by that name declared in the bridge itself needs no verification of kind; an opaque type may not be moved at all.
#[no_mangle] extern "C" fn h_use_of_own() {
    let u = choice(USE.len(), c"use"); let c = range(b'G' as u64, b'J' as u64, c"type") as u8; let with = [ident(str_(&[b'T', b'y', c]))];
    let e = format!("mod ffi {{ #[derive(Clone)] struct TyG {{ x: u8 }} enum TyH {{ V }} unsafe extern \"C++\" {{ type TyJ; type TyI; }} struct TyI {{ x: u8 }} {} }}", sub(USE[u].0, "__0")); let (a, b) = (cpp(&tokens(&format!("#[cxx::bridge] {}", e), &with)), rust(&tokens(&e, &with)));
    check(a.is_ok() == b.is_ok(), c"both-agree"); if c == b'J' { check(USE[u].1 != a.is_ok(), c"opaque-is-not-moved"); reach(c"opaque"); }
    // Neither generator then asks for a type of the bridge itself to be verified.
    if let (Ok(a), Ok(b)) = (a, b) { check(count(&b, "verify_extern") == 0 && count(&a.cc, "static_assert(\n    ::rust::IsRelocatable") == 0, c"nothing-verified"); reach(c"own"); } reach(c"done");
}

// ---- what is required of the other types
const DECL: [&str; 7] = ["struct @ { x: u8 }", "enum @ { V }", "unsafe extern \"C++\" { type @; }", "extern \"Rust\" { type @; }", "extern \"Rust\" { #[derive(ExternType)] type @; }", "unsafe extern \"C++\" { type @ = crate::z; }", "unsafe extern \"C++\" { type @; } struct @ { x: u8 }"];
fn obligations(list: &[usize]) {
    let mut text = String::new(); let mut with = Vec::new(); let mut names: Vec<String> = Vec::new();
    for (i, d) in list.iter().enumerate() { let n = [b'T', b'y', range(b'G' as u64, b'Q' as u64, c"name") as u8]; for m in &names { assume(!eq(m.as_bytes(), &n)); } names.push(str_(&n).to_owned()); with.push(ident(str_(&n))); text.push_str(&sub(DECL[*d], &format!("__{}", i))); text.push(' '); }
    let t = expand("", &with, &text);
    for (d, n) in list.iter().zip(&names) {
        let has = |s: &str| occurs(t.as_bytes(), sub(s, n).as_bytes());
        let (mut kind, mut drop, mut unpin, mut sized, mut pinned, mut named) = (None, false, false, false, false, false);
        match d { 0 | 6 => { kind = Some(true); drop = true } 1 => kind = Some(true), 2 => { kind = Some(false); pinned = true } 3 => { unpin = true; sized = true } 4 => { unpin = true; sized = true; kind = Some(false) } _ => named = true }
        let at = find(&t, &sub(":: cxx :: ExternType for @ {", n)); check(at.is_some() == kind.is_some(), c"extern-type"); if let (Some(at), Some(trivial)) = (at, kind) { let m = "type Kind = :: cxx :: kind :: "; let k = find_from(&t, m, at).unwrap() + m.len(); check(slice(&t, k, k + 7) == "Trivial" || slice(&t, k, k + 6) == "Opaque", c"kind"); check((slice(&t, k, k + 7) == "Trivial") == trivial, c"kind"); }
        check(has("impl self :: Drop for super :: @ { }") == drop, c"no-drop-of-shared-structs"); check(has("__AssertUnpin :: < @ >") == unpin, c"unpin-asserted"); check(has("__AssertSized :: < @ >") == sized, c"sized-asserted"); check(has("< @ as __AmbiguousIfImpl < _ >> :: infer") == pinned, c"not-unpin-asserted"); check(has("verify_extern_type :: < @ ,") == named, c"name-verified");
    }
    reach(c"done");
}
#[no_mangle] extern "C" fn h_obligations() { obligations(&[choice(7, c"first"), choice(7, c"second")]) }
#[no_mangle] extern "C" fn h_obligations_deep() { obligations(&[choice(7, c"first"), choice(7, c"second"), choice(7, c"third")]) }
