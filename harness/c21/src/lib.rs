// C21: order of type definitions in generated C++, and rejection of by-value cycles, over every containment graph.
#[path = "../../common/sym.rs"]
mod sym;
use sym::*;
include!("../../common/gen.rs");
include!("../../common/gen_macro.rs");

/// How struct i mentions struct j, whether that is by value, and in the namespace of which it is declared.
const KIND: [(&str, bool); 12] = [("", false), ("@", true), ("[@; 2]", true), ("[[@; 1]; 3]", true), ("Vec<@>", false), ("UniquePtr<@>", false), ("SharedPtr<@>", false), ("WeakPtr<@>", false), ("UniquePtr<CxxVector<@>>", false), ("*mut @", false), ("[UniquePtr<@>; 2]", false), ("*const [@; 2]", false)];
const NAME: [&str; 6] = ["TyA", "TyB", "TyC", "TyD", "TyE", "TyF"];
const FUNCTION: &str = "unsafe extern \"C++\" { fn f(a: &TyA, b: &TyB) -> UniquePtr<TyA>; } extern \"Rust\" { fn g(a: &TyB, b: &TyA) -> Vec<TyA>; }";

/// `before`, struct definitions in order, `after`.
struct Bridge { text: String, n: usize, edge: [[usize; 5]; 5], namespace: [usize; 5], unsure: [[bool; 5]; 5], with: Vec<TokenStream> }
impl Bridge {
    fn new(n: usize) -> Bridge { Bridge { text: String::new(), n, edge: [[0; 5]; 5], namespace: [0; 5], unsure: [[false; 5]; 5], with: Vec::new() } }
    fn item(&mut self, i: usize) {
        let mut t = String::new(); match self.namespace[i] { 1 => t.push_str("#[namespace = \"N\"] "), 2 => t.push_str("#[namespace = \"N::M\"] "), _ => {} }
        t.push_str("struct "); t.push_str(NAME[i]); t.push_str(" { x: u8, ");
        for j in 0..self.n { let k = KIND[self.edge[i][j]].0; if k.is_empty() { continue; } t.push((b'a' + j as u8) as char); t.push_str(": "); for c in k.chars() { if c != '@' { t.push(c) } else if self.unsure[i][j] { t.push_str("__"); t.push(b"0123456789abcdef"[self.with.len()] as char); let n = self.name(i, j); self.with.push(n) } else { t.push_str(NAME[j]) } } t.push_str(", "); }
        t.push_str("} "); self.text.push_str(&t);
    }
    /// A name with a symbolic letter: that of struct j, or that of an enum, by which it contains no struct.
    fn name(&mut self, i: usize, j: usize) -> TokenStream { let yes = range(0, 1, c"contains"); self.edge[i][j] = yes as usize; let mut s = String::from("Ty"); s.push(ite(yes == 1, (b'A' + j as u8) as u64, b'Z' as u64) as u8 as char); ident(&s) }
    fn holds(&self, i: usize, j: usize) -> bool { if self.unsure[i][j] { self.edge[i][j] == 1 } else { KIND[self.edge[i][j]].1 } }
    /// Does any struct contain itself by value, through any number of others?
    fn cyclic(&self) -> bool {
        let mut r = [[false; 5]; 5]; for i in 0..self.n { for j in 0..self.n { r[i][j] = self.holds(i, j); } }
        for k in 0..self.n { for i in 0..self.n { for j in 0..self.n { if r[i][k] && r[k][j] { r[i][j] = true; } } } }
        (0..self.n).any(|i| r[i][i])
    }
    fn judge(&self) {
        let e = format!("mod ffi {{ enum TyZ {{ V }} {} }}", self.text); let c = cpp(&tokens(&format!("#[cxx::bridge] {}", e), &self.with)); let r = rust(&tokens(&e, &self.with)); let bad = self.cyclic();
        check(c.is_ok() != bad, if bad { c"c++-cycle-rejected" } else { c"c++-accepted" }); check(r.is_ok() != bad, if bad { c"rust-cycle-rejected" } else { c"rust-accepted" });
        let c = match c { Ok(c) => c, Err(e) => { check(find(&e, "unsupported cyclic data structure").is_some(), c"reason"); reach(c"rejected"); return; } };
        for text in [&c.header, &c.cc] { self.order(text); }
        reach(c"accepted");
    }
    fn order(&self, text: &str) {
        let mut at = [0; 5];
        for i in 0..self.n { let p = definition(text, NAME[i]); check(p.is_some(), c"defined"); at[i] = p.unwrap(); check(find_from(text, &format!("struct {} final {{", NAME[i]), at[i] + 1).is_none(), c"defined-once"); declared(text, NAME[i]); }
        for i in 0..self.n { for j in 0..self.n { if self.holds(i, j) { check(at[j] < at[i], c"contained-type-is-defined-first"); } } }
    }
}
fn definition(text: &str, name: &str) -> Option<usize> { find(text, &format!("struct {} final {{", name)) }
fn word(b: u8) -> bool { b.is_ascii_alphanumeric() || b == b'_' || b == b'$' }
/// The first mention of a type is its declaration (a whole word, not part of a mangled name or of a guard).
fn declared(text: &str, name: &str) {
    let b = text.as_bytes(); let mut i = 0;
    while let Some(p) = find_from(text, name, i) {
        i = p + name.len(); if word(b[i]) || (p > 0 && word(b[p - 1])) { continue; }
        let before = slice(text, if p > 12 { p - 12 } else { 0 }, p); check(before.ends_with("struct ") || before.ends_with("enum class ") || before.ends_with("using "), c"declared-before-it-is-mentioned"); return;
    }
    check(false, c"mentioned");
}
fn unsure(b: &mut Bridge, i: usize, j: usize) { b.edge[i][j] = 1; b.unsure[i][j] = true; }
fn pick(b: &mut Bridge, i: usize, j: usize, kinds: &[usize]) { b.edge[i][j] = kinds[choice(kinds.len(), c"edge")]; }
fn finish(mut b: Bridge, functions: bool) { for i in 0..b.n { b.item(i); } if functions { b.text.push_str(FUNCTION); } b.judge(); reach(c"done"); }

/// Every graph of three structs, containment of itself included; those of the first struct are fixed per entry.
fn three(first: usize) { let mut b = Bridge::new(3); for j in 0..3 { b.edge[0][j] = first >> j & 1; } for i in 1..3 { for j in 0..3 { unsure(&mut b, i, j); } } finish(b, false) }
#[no_mangle] extern "C" fn h_three_0() { three(0) }
#[no_mangle] extern "C" fn h_three_1() { three(1) }
#[no_mangle] extern "C" fn h_three_2() { three(2) }
#[no_mangle] extern "C" fn h_three_3() { three(3) }
#[no_mangle] extern "C" fn h_three_4() { three(4) }
#[no_mangle] extern "C" fn h_three_5() { three(5) }
#[no_mangle] extern "C" fn h_three_6() { three(6) }
#[no_mangle] extern "C" fn h_three_7() { three(7) }
/// Two structs mentioning each other in every way, with functions that mention both.
#[no_mangle] extern "C" fn h_kinds() { let mut b = Bridge::new(2); let all: [usize; 12] = core::array::from_fn(|i| i); pick(&mut b, 0, 1, &all); pick(&mut b, 1, 0, &all); finish(b, true) }
/// A struct mentioning itself.
#[no_mangle] extern "C" fn h_self() { let mut b = Bridge::new(2); let all: [usize; 12] = core::array::from_fn(|i| i); pick(&mut b, 0, 0, &all); pick(&mut b, 1, 1, &[0, 2, 5]); finish(b, true) }
/// Arrays and direct fields over three structs.
#[no_mangle] extern "C" fn h_arrays() { let mut b = Bridge::new(3); for (i, j) in [(0, 1), (1, 2), (2, 0), (0, 2)] { pick(&mut b, i, j, &[0, 1, 2]); } finish(b, false) }
/// Acyclic graphs of three structs, across namespaces.
#[no_mangle] extern "C" fn h_namespaces() {
    let mut b = Bridge::new(3); for i in 0..3 { b.namespace[i] = choice(3, c"namespace"); }
    let shape = choice(4, c"shape"); for (i, j) in match shape { 0 => vec![(0, 1), (1, 2)], 1 => vec![(0, 2), (2, 1)], 2 => vec![(1, 0), (0, 2)], _ => vec![(2, 1), (0, 1)] } { b.edge[i][j] = 1; } finish(b, false)
}
/// Every order of different kinds of items that mention each other.
#[no_mangle] extern "C" fn h_mixed() {
    const ITEM: [&str; 5] = [
        "struct TyA { e: TyB, c: UniquePtr<TyC>, r: Box<TyD>, s: TyE, v: Vec<TyD>, o: Vec<TyB> }", "enum TyB { X, Y }", "unsafe extern \"C++\" { type TyC; fn m(self: &TyA, e: TyB) -> &TyC; fn n(self: &TyC, s: &TyE, e: TyB, f: fn(&TyE, Box<TyD>) -> TyB); }",
        "extern \"Rust\" { type TyD; fn p(self: &TyD, c: &TyC, e: TyE) -> TyB; fn q(self: &TyA, c: UniquePtr<TyC>) -> Box<TyD>; }", "struct TyE { e: [TyB; 2], v: UniquePtr<CxxVector<TyC>>, b: SharedPtr<TyA> }"];
    let mut left: Vec<usize> = (0..5).collect(); let mut text = String::new(); while !left.is_empty() { let k = left.remove(choice(left.len(), c"next")); text.push_str(ITEM[k]); text.push(' '); }
    let e = format!("mod ffi {{ {} }}", text); let c = cpp(&tokens(&format!("#[cxx::bridge] {}", e), &[])); check(c.is_ok() && rust(&tokens(&e, &[])).is_ok(), c"accepted"); let c = c.unwrap();
    for text in [&c.header, &c.cc] {
        for n in &NAME[..5] { declared(text, n); } let (a, s) = (definition(text, "TyA"), definition(text, "TyE")); check(a.is_some() && s.is_some(), c"defined"); check(s.unwrap() < a.unwrap(), c"contained-type-is-defined-first");
        // An enum needs only a declaration that gives its underlying type.
        let p = find(text, "enum class TyB : "); check(p.is_some() && p.unwrap() < s.unwrap(), c"enum-is-complete");
    }
    reach(c"accepted"); reach(c"done");
}
fn four(first: usize) { let mut b = Bridge::new(4); for j in 0..3 { b.edge[0][j + 1] = first >> j & 1; } for i in 1..4 { for j in 0..4 { if i != j { unsure(&mut b, i, j); } } } finish(b, false) }
#[no_mangle] extern "C" fn h_four_0_deep() { four(0) }
#[no_mangle] extern "C" fn h_four_1_deep() { four(1) }
#[no_mangle] extern "C" fn h_four_2_deep() { four(2) }
#[no_mangle] extern "C" fn h_four_3_deep() { four(3) }
#[no_mangle] extern "C" fn h_four_4_deep() { four(4) }
#[no_mangle] extern "C" fn h_four_5_deep() { four(5) }
#[no_mangle] extern "C" fn h_four_6_deep() { four(6) }
#[no_mangle] extern "C" fn h_four_7_deep() { four(7) }
