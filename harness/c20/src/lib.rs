// C20: which items of a bridge are generated, for every configuration of the atoms of their cfg predicates.
#[path = "../../common/sym.rs"]
mod sym;
use sym::*;
include!("../../common/gen.rs");
use cxx_gen::{CfgEvaluator, CfgResult, Opt};
mod gen { pub use cxx_gen::{CfgEvaluator, CfgResult}; }
#[allow(dead_code, unused_imports)] #[path = "/repo/gen/build/src/cargo.rs"] mod cargo;
#[allow(dead_code)] #[path = "/repo/gen/cmd/src/cfg.rs"] mod flags;

/// Truth of a predicate: 0 false, 1 true, 2 undetermined.
#[derive(Clone)] enum Pred { Atom(usize), All(Vec<Pred>), Any(Vec<Pred>), Not(Box<Pred>) }
const ATOM: [&str; 6] = ["k0", "k1 = \"v1\"", "k2", "k3 = \"\"", "feature = \"f-4\"", "k5"];
impl Pred {
    fn print(&self, s: &mut String) {
        match self { Pred::Atom(i) => s.push_str(ATOM[*i]), Pred::Not(p) => { s.push_str("not("); p.print(s); s.push(')') } Pred::All(l) | Pred::Any(l) => { s.push_str(if let Pred::All(_) = self { "all(" } else { "any(" }); for p in l { p.print(s); s.push_str(", "); } s.push(')') } }
    }
    fn value(&self, a: &[u64; 6]) -> u64 {
        match self {
            Pred::Atom(i) => a[*i], Pred::Not(p) => { let v = p.value(a); ite(v == 2, 2, 1 - v.min2()) }
            Pred::All(l) => { let (mut f, mut u) = (false, false); for p in l { let v = p.value(a); f = or(f, v == 0); u = or(u, v == 2); } ite(f, 0, ite(u, 2, 1)) }
            Pred::Any(l) => { let (mut t, mut u) = (false, false); for p in l { let v = p.value(a); t = or(t, v == 1); u = or(u, v == 2); } ite(t, 1, ite(u, 2, 0)) }
        }
    }
}
trait Min2 { fn min2(self) -> u64; } impl Min2 for u64 { fn min2(self) -> u64 { ite(self == 2, 1, self) } }
struct Eval([u64; 6]);
impl CfgEvaluator for Eval {
    fn eval(&self, name: &str, value: Option<&str>) -> CfgResult {
        let i = match (name, value) { ("k0", None) => 0, ("k1", Some("v1")) => 1, ("k2", None) => 2, ("k3", Some("")) => 3, ("feature", Some("f-4")) => 4, ("k5", None) => 5, _ => { check(false, c"atom-as-written"); 0 } };
        match self.0[i] { 0 => CfgResult::False, 1 => CfgResult::True, _ => CfgResult::Undetermined { msg: format!("undetermined {}", i) } }
    }
}
fn opt(a: [u64; 6]) -> Opt { let mut o = Opt::default(); o.cfg_evaluator = Box::new(Eval(a)); o }
fn run(text: &str, a: [u64; 6]) -> Result<Cpp, String> { cpp_with(&tokens(text, &[]), &opt(a)) }
fn atoms(n: usize) -> [u64; 6] { let mut a = [0; 6]; for x in a.iter_mut().take(n) { *x = range(0, 2, c"atom"); } a }
fn contains(h: &str, n: &str) -> bool { occurs(h.as_bytes(), n.as_bytes()) }
/// An item that a marker identifies is present exactly when its predicate holds; undetermined ones are errors.
fn judge(r: Result<Cpp, String>, items: &[(&str, u64)]) {
    let mut undetermined = false; for (_, v) in items { undetermined = or(undetermined, *v == 2); }
    check(r.is_err() == undetermined, c"error-iff-undetermined");
    match r {
        Err(e) => { check(find(&e, "undetermined ").is_some(), c"reason-of-the-evaluator"); reach(c"undetermined") }
        Ok(c) => { for (marker, v) in items { check(contains(&c.cc, marker) == (*v == 1), c"present-iff-true"); if *v == 1 { reach(c"true") } else { reach(c"false") } } check(contains(&c.cc, "KEPT"), c"unconditional-item-kept"); }
    }
    reach(c"done");
}

/// Every predicate of the depth, with at most `arity` operands of all and any; atoms in order of appearance.
fn pred(depth: usize, arity: usize, next: &mut usize, repeat: bool) -> Pred {
    match if depth == 0 { 0 } else { choice(4, c"operator") } {
        0 => { if repeat && *next > 0 && choice(2, c"same") == 1 { return Pred::Atom(*next - 1); } let i = *next; assume(i < 6); *next += 1; Pred::Atom(i) }
        1 => Pred::Not(Box::new(pred(depth - 1, arity, next, repeat))),
        k => { let n = choice(arity + 1, c"operands"); let l = (0..n).map(|_| pred(depth - 1, arity, next, repeat)).collect(); if k == 2 { Pred::All(l) } else { Pred::Any(l) } }
    }
}
fn predicate(depth: usize, arity: usize, first: Option<usize>, repeat: bool) {
    let mut n = 0;
    let p = match first { None => pred(depth, arity, &mut n, repeat), Some(0) => Pred::Not(Box::new(pred(depth - 1, arity, &mut n, repeat))), Some(k) => { let m = choice(arity + 1, c"operands"); let l = (0..m).map(|_| pred(depth - 1, arity, &mut n, repeat)).collect(); if k == 1 { Pred::All(l) } else { Pred::Any(l) } } };
    let a = atoms(n); let mut t = String::from("#[cxx::bridge] mod ffi { #[cfg("); p.print(&mut t); t.push_str(")] enum MARK { V } enum KEPT { V } }"); judge(run(&t, a), &[("MARK", p.value(&a))])
}
#[no_mangle] extern "C" fn h_depth1() { predicate(1, 3, None, true) }
#[no_mangle] extern "C" fn h_depth2_not() { predicate(2, 2, Some(0), false) }
#[no_mangle] extern "C" fn h_depth2_all() { predicate(2, 2, Some(1), false) }
#[no_mangle] extern "C" fn h_depth2_any() { predicate(2, 2, Some(2), false) }
/// Three operands: an atom or its negation beside two of depth 1.
fn three(all: bool) {
    let mut n = 0; let x = if choice(2, c"negated") == 1 { Pred::Not(Box::new(pred(0, 2, &mut n, false))) } else { pred(0, 2, &mut n, false) }; let mut l = vec![pred(1, 2, &mut n, false), pred(1, 2, &mut n, false)]; l.insert(choice(3, c"place"), x); let p = if all { Pred::All(l) } else { Pred::Any(l) };
    let a = atoms(n); let mut t = String::from("#[cxx::bridge] mod ffi { #[cfg("); p.print(&mut t); t.push_str(")] enum MARK { V } enum KEPT { V } }"); judge(run(&t, a), &[("MARK", p.value(&a))])
}
#[no_mangle] extern "C" fn h_depth2_all_three_deep() { three(true) }
#[no_mangle] extern "C" fn h_depth2_any_three_deep() { three(false) }
#[no_mangle] extern "C" fn h_depth3_not() { predicate(3, 2, Some(0), false) }
/// Depth 3 below all and any: an operand of depth 2 beside an atom, in either order.
fn beside(all: bool, before: bool) {
    let mut n = 0; let l = if before { let x = pred(0, 2, &mut n, false); vec![x, pred(2, 2, &mut n, false)] } else { let x = pred(2, 2, &mut n, false); vec![x, pred(0, 2, &mut n, false)] }; let p = if all { Pred::All(l) } else { Pred::Any(l) };
    let a = atoms(n); let mut t = String::from("#[cxx::bridge] mod ffi { #[cfg("); p.print(&mut t); t.push_str(")] enum MARK { V } enum KEPT { V } }"); judge(run(&t, a), &[("MARK", p.value(&a))])
}
#[no_mangle] extern "C" fn h_depth3_all_before_deep() { beside(true, true) }
#[no_mangle] extern "C" fn h_depth3_all_after_deep() { beside(true, false) }
#[no_mangle] extern "C" fn h_depth3_any_before_deep() { beside(false, true) }
#[no_mangle] extern "C" fn h_depth3_any_after_deep() { beside(false, false) }

/// Every kind of item: text before the attribute, text from it on, the marker.
const KIND: [(&str, &str, &str); 15] = [
    ("", "struct MARK { x: u8 } @", "struct MARK"), ("", "enum MARK { V } @", "enum class MARK"), ("struct S { a: u8, ", "MARK: u8 } @", "MARK"), ("enum E { A, ", "MARK, B } @", "MARK"),
    ("extern \"Rust\" { ", "type MARK; fn keep(); } @", "struct MARK"), ("extern \"Rust\" { ", "fn MARK(); fn keep(); } @", "MARK"), ("extern \"Rust\" { type R; ", "fn MARK(self: &R); } @", "MARK"),
    ("unsafe extern \"C++\" { ", "type MARK; fn keep(); } @", "using MARK"), ("unsafe extern \"C++\" { ", "fn MARK(); fn keep(); } @", "MARK"), ("unsafe extern \"C++\" { type T; ", "fn MARK(self: &T); } @", "MARK"), 
    ("unsafe extern \"C++\" { type T; } ", "impl UniquePtr<T> {} @", "cxxbridge1$unique_ptr$T$null"), ("extern \"Rust\" { type R; } ", "impl Box<R> {} @", "cxxbridge1$box$R$alloc"), ("struct S { x: u8 } ", "impl Vec<S> {} @", "cxxbridge1$rust_vec$S$new"), ("unsafe extern \"C++\" { ", "include!(\"MARK.h\"); type T; } @", "#include \"MARK.h\""), ("unsafe extern \"C++\" { ", "include!(<MARK>); type T; } @", "#include <MARK>"),
];
fn kinds(two: bool) {
    let (before, after, marker) = KIND[choice(KIND.len(), c"kind")]; let a = atoms(if two { 2 } else { 1 });
    let mut t = String::from("#[cxx::bridge] mod ffi { enum KEPT { V } "); let mut v = a[0]; t.push_str(before);
    if two { match choice(4, c"combination") {
        0 => { t.push_str("#[cfg(k0)] #[cfg(k1 = \"v1\")] "); v = Pred::All(vec![Pred::Atom(0), Pred::Atom(1)]).value(&a) }
        1 => { t.push_str("#[cfg(all(k0))] #[cfg(all(k1 = \"v1\"))] "); v = Pred::All(vec![Pred::Atom(0), Pred::Atom(1)]).value(&a) }
        2 => { t.push_str("#[cfg(any(k0,))] #[cfg(not(k1 = \"v1\"))] "); v = Pred::All(vec![Pred::Atom(0), Pred::Not(Box::new(Pred::Atom(1)))]).value(&a) }
        _ => { t.push_str("#[cfg(not(k0))] #[cfg(any(k0, k1 = \"v1\"))] "); v = Pred::All(vec![Pred::Not(Box::new(Pred::Atom(0))), Pred::Any(vec![Pred::Atom(0), Pred::Atom(1)])]).value(&a) }
    } } else { t.push_str("#[cfg(k0)] "); }
    for c in after.chars() { if c != '@' { t.push(c) } } t.push('}'); judge(run(&t, a), &[(marker, v)])
}
#[no_mangle] extern "C" fn h_kinds() { kinds(false) }
#[no_mangle] extern "C" fn h_two_attributes() { kinds(true) }
/// An attribute on a block applies to all that is in it, beside their own.
#[no_mangle] extern "C" fn h_block() {
    let a = atoms(3); let c = choice(2, c"language") == 1; let form = choice(3, c"block");
    let mut t = String::from("#[cxx::bridge] mod ffi { enum KEPT { V } "); t.push_str(["#[cfg(k0)] ", "#[cfg(all(k0))] ", "#[cfg(not(k0))] "][form]); t.push_str(if c { "unsafe extern \"C++\" { " } else { "extern \"Rust\" { " });
    t.push_str("#[cfg(k1 = \"v1\")] fn MARK1(); fn MARK2(); "); t.push_str(if c { "include!(\"MARK3.h\"); #[cfg(k2)] type MARK4; #[cfg(not(k2))] type MARK5 = super::Z; } }" } else { "#[cfg(k2)] type MARK4; #[cfg(not(k2))] type MARK5; } }" });
    let b = if form == 2 { Pred::Not(Box::new(Pred::Atom(0))) } else { Pred::Atom(0) }; let with = |p: Pred| Pred::All(vec![b.clone(), p]).value(&a);
    let mut items = vec![("MARK1", with(Pred::Atom(1))), ("MARK2", b.value(&a)), ("MARK4", with(Pred::Atom(2))), (if c { "::MARK5" } else { "struct MARK5" }, with(Pred::Not(Box::new(Pred::Atom(2)))))]; if c { items[3].0 = "MARK5"; items.push(("MARK3.h", b.value(&a))); }
    if c { items.remove(3); }
    judge(run(&t, a), &items)
}
/// A declared type that only its use shows: an alias, and types of either language that are not theirs.
#[no_mangle] extern "C" fn h_declared() {
    let a = atoms(1); let mut t = String::from("#[cxx::bridge] mod ffi { enum KEPT { V } unsafe extern \"C++\" { #[cfg(k0)] "); t.push_str(["type MARK = crate::x::MARK; ", "type MARK; "][choice(2, c"declaration")]); t.push_str("fn f(a: &MARK); } }");
    match run(&t, a) { Ok(_) => check(a[0] == 1, c"declared-iff-true"), Err(e) => if a[0] == 2 { check(find(&e, "undetermined ").is_some(), c"reason-of-the-evaluator") } else { check(a[0] == 0, c"declared-iff-true"); check(find(&e, "unsupported type: MARK").is_some(), c"reason-undeclared") } } reach(c"done");
}
/// An attribute on a whole bridge module, beside those of its items; bridges in one file are independent.
#[no_mangle] extern "C" fn h_module() {
    let a = atoms(3); let p = Pred::Atom(0).value(&a);
    let t = "#[cxx::bridge] mod first { enum KEPT { V } } #[cxx::bridge] #[cfg(k0)] mod ffi { enum MARK1 { V } #[cfg(k1 = \"v1\")] enum MARK2 { V } } #[cfg(k2)] #[cxx::bridge(namespace = \"n\")] mod other { struct MARK3 { x: u8 } }";
    // The items of a bridge that is left out are not looked at.
    let inner = ite(p == 1, a[1], 0); judge(run(t, a), &[("MARK1", p), ("MARK2", inner), ("MARK3", a[2])])
}
/// Without an evaluator every atom is undetermined, and only predicates that need none are decided.
#[no_mangle] extern "C" fn h_default() {
    let mut n = 0; let p = pred(2, 1, &mut n, false); let mut t = String::from("#[cxx::bridge] mod ffi { enum KEPT { V } #[cfg("); p.print(&mut t); t.push_str(")] enum MARK { V } }"); let v = p.value(&[2; 6]);
    match cpp(&tokens(&t, &[])) { Ok(c) => { check(v != 2, c"default-decided"); check(contains(&c.cc, "MARK") == (v == 1), c"default-present-iff-true"); reach(c"default-decided") } Err(e) => { check(v == 2, c"default-undetermined"); check(find(&e, "cfg attribute is not supported").is_some(), c"default-reason"); reach(c"default-error") } }
}

extern "C" { static mut environ: *const *const core::ffi::c_char; }
/// The build script's environment: what it sets by name, in the spelling of Cargo.
fn environment(vars: &[&str]) { let mut v: Vec<*const core::ffi::c_char> = Vec::new(); for s in vars { let mut t = String::from(*s); t.push('\0'); v.push(Box::leak(t.into_boxed_str()).as_ptr().cast()); } v.push(core::ptr::null()); unsafe { environ = Box::leak(v.into_boxed_slice()).as_ptr() } }
fn lower(tail: bool) -> u8 { if tail { let k = range(0, 38, c"character"); ite(k < 26, k + b'a' as u64, ite(k < 36, k + 22, ite(k == 36, b'-' as u64, ite(k == 37, b'_' as u64, b'M' as u64)))) as u8 } else { range(b'a' as u64, b'z' as u64, c"letter") as u8 } }
fn text(n: usize) -> String { let mut s = String::new(); for i in 0..n { s.push(lower(i > 0) as char) } s }
/// What Cargo calls the variable of a feature: upper case, with underscores for hyphens.
fn shout(s: &str) -> String { let mut t = String::new(); for c in s.bytes() { let c = c as u64; let low = and(c >= 97, c <= 122); t.push(ite(c == b'-' as u64, b'_' as u64, ite(low, c.wrapping_sub(32), c)) as u8 as char) } t }
fn ask(name: &str, value: Option<&str>) -> u64 { match cargo::CargoEnvCfgEvaluator.eval(name, value) { CfgResult::False => 0, CfgResult::True => 1, CfgResult::Undetermined { .. } => 2 } }
/// A feature is enabled exactly when Cargo says so. Cargo's variables do not tell names apart that differ in case or in - and _.
#[no_mangle] extern "C" fn h_cargo_feature() {
    let (n, m) = (1 + choice(3, c"length"), 1 + choice(3, c"length")); let (on, q) = (text(n), text(m)); let mut v = String::from("CARGO_FEATURE_"); v.push_str(&shout(&on)); v.push_str("=1");
    environment(&["PATH=/bin", &v, "CARGO_CFG_UNIX=", "CARGO_FEATURE_DEFAULT=1"]); let want = eq(shout(&on).as_bytes(), shout(&q).as_bytes());
    check((ask("feature", Some(&q)) == 1) == want, c"feature-enabled-iff-set"); check(ask("feature", Some("default")) == 1, c"default-feature"); check(ask("feature", None) == 2, c"feature-without-value"); check(ask("test", None) == 2, c"test-undetermined"); reach(c"done");
}
/// Other options: CARGO_CFG_<NAME>, with a comma-separated list of values.
#[no_mangle] extern "C" fn h_cargo_cfg() {
    let (n, m) = (1 + choice(2, c"length"), 1 + choice(2, c"length")); let (a, b) = (text(n), text(m)); let k = choice(4, c"values");
    let mut v = String::from("CARGO_CFG_KEY="); if k >= 1 { v.push_str(&a); } if k >= 2 { v.push(','); v.push_str(&b); } if k == 3 { v.push_str(",zzz"); }
    let q = text(1 + choice(2, c"length")); environment(&["CARGO_CFG_UNIX=", &v, "CARGO_CFG_TARGET_OS=linux", "KEY=q"]);
    let mut want = false; if k >= 1 { want = or(want, eq(a.as_bytes(), q.as_bytes())); } if k >= 2 { want = or(want, eq(b.as_bytes(), q.as_bytes())); }
    check((ask("key", Some(&q)) == 1) == want, c"value-in-the-list"); check(ask("unix", None) == 1, c"name-set"); check(ask("windows", None) == 0, c"name-unset"); check(ask("windows", Some(&q)) == 0, c"key-unset"); check(ask("target_os", Some("linux")) == 1, c"target-os"); reach(c"done");
}
/// Names are those set, up to case.
#[no_mangle] extern "C" fn h_cargo_name() {
    let a = text(1 + choice(3, c"length")); let q = text(1 + choice(3, c"length")); for c in q.bytes().chain(a.bytes()) { assume(c != b'-'); } let mut v = String::from("CARGO_CFG_"); v.push_str(&shout(&a)); v.push_str("="); environment(&[&v]);
    check((ask(&q, None) == 1) == eq(shout(&a).as_bytes(), shout(&q).as_bytes()), c"name-set-iff-in-environment"); reach(c"done");
}

/// The flags of the command line tool: `--cfg name`, `name=true`, `name=false`, `name="value"`.
#[no_mangle] extern "C" fn h_flags() {
    use std::collections::{BTreeMap, BTreeSet}; use syn::parse::Parser;
    let mut map: BTreeMap<String, BTreeSet<flags::CfgValue>> = BTreeMap::new(); let mut given = Vec::new();
    for _ in 0..choice(3, c"flags") { let name = ["nm", "feature"][choice(2, c"name")]; let form = choice(4, c"form"); let v = if form == 3 { text(1) } else { String::new() }; let mut t = String::from(name); match form { 0 => {} 1 => t.push_str("=true"), 2 => t.push_str(" = false"), _ => t.push_str("=__0") }
        let (n, val) = flags::parse.parse2(tokens(&t, &[TokenTree::Literal(Literal::string(&v)).into()])).unwrap(); check(n == name, c"flag-name"); map.entry(n).or_insert_with(BTreeSet::new).insert(val); given.push((name, form, v)); }
    let e = flags::FlagsCfgEvaluator::new(map); let ask = |name: &str, value: Option<&str>| match e.eval(name, value) { CfgResult::False => 0u64, CfgResult::True => 1, CfgResult::Undetermined { .. } => 2 };
    for name in ["nm", "feature"] {
        let (mut t, mut f) = (false, false); for (n, form, _) in &given { if *n == name { if *form <= 1 { t = true } if *form == 2 { f = true } } }
        check(ask(name, None) == if t == f { 2 } else { t as u64 }, c"name-by-flags");
        let q = text(1); let (mut any, mut hit) = (false, false); for (n, form, v) in &given { if *n == name { any = true; if *form == 3 { hit = or(hit, eq(v.as_bytes(), q.as_bytes())); } } }
        check(ask(name, Some(&q)) == if any { ite(hit, 1, 0) } else if name == "feature" { 0 } else { 2 }, c"value-by-flags");
    }
    check(ask("other", None) == 2, c"name-without-a-flag"); reach(c"done");
}
