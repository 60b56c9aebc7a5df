// C26: the cxxbridge command: what it writes where, for every command line, on a file system in memory (cc/fs.cc).
#![allow(dead_code, non_upper_case_globals)]
#[path = "../../common/sym.rs"]
mod sym;
use std::ffi::{c_char, c_int, CStr, CString};
use std::io::Write;
use sym::*;
use cxx_gen::{CfgEvaluator, CfgResult, Include, IncludeKind, Opt};
#[no_mangle] pub static sym_wants_args: c_int = 1;
extern "C" {
    fn fs_reset();
    fn fs_dir(p: *const c_char);
    fn fs_file(p: *const c_char, text: *const u8, n: usize);
    fn fs_output(p: *const c_char);
    fn fs_cwd(p: *const c_char);
    fn fs_arm(on: c_int, exit_allowed: c_int);
    fn fs_node(p: *const u8, n: usize, follow: c_int) -> c_int;
    fn fs_kind(n: c_int) -> c_int;
    fn fs_data(n: c_int, len: *mut usize) -> *const u8;
    fn fs_writes() -> usize;
    fn fs_count() -> c_int;
    fn fs_stdout(n: *mut usize) -> *const u8;
    fn fs_stdin(p: *const u8, n: usize);
    fn fs_on_exit(f: extern "C" fn(c_int));
    fn sym_std_args() -> u64;
    fn sym_native_args(n: c_int, v: *const *const c_char);
}
fn z(s: &str) -> CString { CString::new(s).unwrap() }
fn dir(p: &str) { unsafe { fs_dir(z(p).as_ptr()) } }
fn file(p: &str, text: &[u8]) { unsafe { fs_file(z(p).as_ptr(), text.as_ptr(), text.len()) } }
fn stdin(text: &[u8]) { unsafe { fs_stdin(text.as_ptr(), text.len()) } }
fn node(p: &[u8]) -> c_int { unsafe { fs_node(p.as_ptr(), p.len(), 1) } }
fn data(n: c_int) -> &'static [u8] { let mut l = 0; let p = unsafe { fs_data(n, &mut l) }; if l == 0 { &[] } else { unsafe { core::slice::from_raw_parts(p, l) } } }
fn stdout() -> &'static [u8] { let mut l = 0; let p = unsafe { fs_stdout(&mut l) }; unsafe { core::slice::from_raw_parts(p, l) } }

const ACCEPT: c_int = -1;
struct Expect { code: c_int, writes: usize, nodes: c_int }
static mut EXPECT: Expect = Expect { code: 0, writes: 0, nodes: 0 };
/// The command gave up: with the right code, and with nothing written.
extern "C" fn exited(code: c_int) {
    #[allow(static_mut_refs)]
    unsafe {
        check(code == EXPECT.code, c"exit-code"); check(fs_writes() == EXPECT.writes && fs_count() == EXPECT.nodes, c"refusal-writes-no-file");
        if code != 0 { check(stdout().is_empty(), c"refusal-prints-nothing"); reach(c"refused"); } else { check(!stdout().is_empty(), c"prints"); reach(c"informed"); }
    }
}
/// Directory /w/out is the working directory and the only place to write to; the sources are in /w.
fn world() { unsafe { fs_reset(); } dir("/w/out/d"); unsafe { fs_output(c"/w/out".as_ptr()); fs_output(c"/w/out/d".as_ptr()); fs_cwd(c"/w/out".as_ptr()); } }
/// cxxbridge ARGS, which is to end with exit code `expect`, or normally.
fn command(args: &[Vec<u8>], expect: c_int) {
    let mut v: Vec<*const c_char> = vec![CString::from(c"cxxbridge").into_raw()]; for a in args { let mut b = a.clone(); b.push(0); v.push(b.leak().as_ptr().cast()); } v.push(core::ptr::null()); let n = v.len() as c_int - 1; let p = v.leak().as_ptr();
    unsafe {
        if on_engine() { let f: extern "C" fn(c_int, *const *const c_char, *const *const c_char) = core::mem::transmute(sym_std_args() as usize); static NONE: usize = 0; f(n, p, (&NONE as *const usize).cast()); } else { sym_native_args(n, p); }
        EXPECT = Expect { code: expect, writes: fs_writes(), nodes: fs_count() }; fs_on_exit(exited); fs_arm(1, 1);
        cxx_cmd_lib::main();
        let _ = std::io::stdout().flush(); fs_arm(0, 0);
        check(expect == ACCEPT, c"refused-when-wrong");
    }
}
fn a(s: &str) -> Vec<u8> { s.as_bytes().to_vec() }
fn cat(x: &str, y: &[u8]) -> Vec<u8> { let mut v = a(x); v.extend_from_slice(y); v }
fn wrote(path: &[u8], want: &[u8], id: &CStr) { let n = node(path); check(n >= 0 && unsafe { fs_kind(n) } == 2, c"output-exists"); if n >= 0 { check(eq(data(n), want), id); } }
fn printed(want: &[u8]) { check(eq(stdout(), want), c"standard-output"); }
fn text(b: &[u8]) -> String { unsafe { String::from_utf8_unchecked(b.to_vec()) } }

const SMALL: &str = "#[cxx::bridge]\nmod ffi { struct S { a: u8 } extern \"Rust\" { fn f(s: S) -> Result<()>; } unsafe extern \"C++\" { include!(\"i.h\"); fn g(s: &S); } }\n";
struct Made { header: Vec<u8>, cc: Vec<u8> }
/// What the generator makes of a source, for the same options.
fn made(src: &str, opt: &Opt) -> Option<Made> { let t: proc_macro2::TokenStream = src.parse().unwrap(); cxx_gen::generate_header_and_cc(t, opt).ok().map(|g| Made { header: g.header, cc: g.implementation }) }

const OUTPUTS: [&str; 8] = ["-", "x.h", "x.cc", "d/x.hh", "x.hpp", "./d/../y.h", "h", "x.h.in"];
/// `-o` in its four spellings.
fn output(args: &mut Vec<Vec<u8>>, form: usize, name: &[u8]) { match form { 0 => { args.push(a("-o")); args.push(name.to_vec()); } 1 => args.push(cat("-o", name)), 2 => { args.push(a("--output")); args.push(name.to_vec()); } _ => args.push(cat("--output=", name)) } }
fn outputs(max: usize, all: bool) {
    let m = made(SMALL, &Opt::default()).unwrap();
    world(); file("/w/in.rs", SMALL.as_bytes());
    let (input, flag) = (choice(2, c"input") == 1, choice(2, c"header flag") == 1); let at = choice(2, c"input first");
    let n = choice(max + 1, c"outputs"); let form = choice(4, c"form");
    let mut args = Vec::new(); let mut to = Vec::new();
    if input && at == 0 { args.push(a("../in.rs")); }
    for i in 0..n { let k = choice(if all || i == 0 { OUTPUTS.len() } else { 3 }, c"name"); to.push(OUTPUTS[k]); output(&mut args, if i == 0 { form } else { 0 }, OUTPUTS[k].as_bytes()); }
    if flag { args.push(a("--header")); }
    if input && at == 1 { args.push(a("../in.rs")); }
    command(&args, if input || flag { ACCEPT } else { 2 });
    let mut screen = Vec::new(); if n == 0 { to.push("-"); }
    for (i, t) in to.iter().enumerate() {
        let header = flag || t.ends_with(".h") || t.ends_with(".hh") || t.ends_with(".hpp");
        let want: &[u8] = if !input { cxx_gen::HEADER.as_bytes() } else if header { &m.header } else { &m.cc };
        if *t == "-" { screen.extend_from_slice(want); } else { wrote(cat("/w/out/", t.as_bytes()).as_slice(), want, c"output-content"); }
        let _ = i;
    }
    printed(&screen);
    // No other files.
    let mut files: Vec<&str> = to.iter().copied().filter(|t| *t != "-").collect(); files.sort(); files.dedup();
    check(unsafe { fs_count() == EXPECT.nodes + files.len() as c_int }, c"only-the-outputs");
    reach(c"done");
}
#[no_mangle] extern "C" fn h_outputs() { outputs(1, true) }
#[no_mangle] extern "C" fn h_outputs_two() { outputs(2, false) }
/// The kind of text written is decided by the end of the name alone, for every name.
fn name(n: usize, ascii: bool) {
    const TINY: &str = "#[cxx::bridge] mod ffi { }"; let m = made(TINY, &Opt::default()).unwrap(); check(m.header != m.cc, c"kinds-differ");
    world(); file("/w/in.rs", TINY.as_bytes());
    let under = choice(2, c"directory") == 1; let mut name = if under { a("d/") } else { vec![b'q'] }; for _ in 0..n { let c = u8_(c"c"); assume(and(c != 0, and(c != b'/', or(!ascii, c < 0x80)))); name.push(c); }
    if under { for dots in [&b"."[..], b".."] { if dots.len() == n { assume(!eq(&name[2..], dots)); } } }
    let form = if n > 3 { 3 } else { choice(4, c"form") }; let mut args = vec![a("../in.rs")]; output(&mut args, form, &name);
    command(&args, ACCEPT);
    let ends = |s: &[u8]| name.len() >= s.len() && eq(&name[name.len() - s.len()..], s);
    let header = or(ends(b".h"), or(ends(b".hh"), ends(b".hpp")));
    let t = data(node(&cat("/w/out/", &name)));
    check(unsafe { fs_count() == EXPECT.nodes + 1 }, c"one-file"); check(ite(header, eq(t, &m.header) as u64, eq(t, &m.cc) as u64) == 1, c"kind-by-name"); printed(b"");
    reach(c"done");
}
#[no_mangle] extern "C" fn h_name() { name(1 + choice(3, c"length"), false) }
#[no_mangle] extern "C" fn h_name_4() { name(4, true) }
#[no_mangle] extern "C" fn h_name_5_deep() { name(5, true) }

fn opt(include: &[&[u8]], annotations: Option<&[u8]>) -> Opt {
    let mut o = Opt::default();
    for i in include { let n = i.len(); o.include.push(if n >= 2 && i[0] == b'<' && i[n - 1] == b'>' { Include { path: text(&i[1..n - 1]), kind: IncludeKind::Bracketed } } else { Include { path: text(i), kind: IncludeKind::Quoted } }); }
    o.cxx_impl_annotations = annotations.map(text); o
}
/// `-i`: every text, both sorts of output.
#[no_mangle] extern "C" fn h_include() {
    let n = 1 + choice(if thorough() { 4 } else { 3 }, c"length"); let mut i = vec![]; for _ in 0..n { let c = u8_(c"c"); assume(and(c != 0, c < 0x80)); i.push(c); }
    let form = choice(2, c"form"); let second = choice(4, c"second");
    let mut all: Vec<&[u8]> = vec![&i]; match second { 1 => all.push(b"b/c.h"), 2 => all.insert(0, b"<vector>"), 3 => all.push(b"<vector>"), _ => {} }
    let m = made(SMALL, &opt(&all, None)).unwrap();
    world(); file("/w/in.rs", SMALL.as_bytes());
    let mut args = vec![]; for x in &all { args.push(cat(if form == 0 { "--include=" } else { "-i=" }, x)); } args.push(a("../in.rs")); let header = choice(2, c"header") == 1; if header { args.push(a("--header")); }
    command(&args, ACCEPT); printed(if header { &m.header } else { &m.cc }); reach(c"done");
}
/// `--cxx-impl-annotations`: every text, in front of every function Rust may call.
#[no_mangle] extern "C" fn h_annotations() {
    let n = choice(5, c"length"); let mut t = vec![]; for _ in 0..n { let c = u8_(c"c"); assume(and(c != 0, c < 0x80)); t.push(c); }
    let twice = choice(2, c"twice") == 1;
    let m = made(SMALL, &opt(&[], Some(&t))).unwrap();
    world(); file("/w/in.rs", SMALL.as_bytes());
    let mut args = vec![a("../in.rs"), cat("--cxx-impl-annotations=", &t)]; if twice { args.push(a("--cxx-impl-annotations=x")); } output(&mut args, 0, b"x.h"); output(&mut args, 1, b"-");
    command(&args, if twice { 2 } else { ACCEPT }); wrote(b"/w/out/x.h", &m.header, c"header"); printed(&m.cc); reach(c"done");
}

/// `--cfg`, as the flags say it.
#[derive(Clone)] enum Flag { Bool(u8, bool), Str(u8, u8), Bad }
struct Cfg(Vec<Flag>);
fn named(name: &str) -> u8 { match name { "feature" => b'F', n => n.as_bytes()[0] } }
impl CfgEvaluator for Cfg {
    fn eval(&self, name: &str, value: Option<&str>) -> CfgResult {
        let k = named(name); let (mut t, mut f, mut any, mut eq) = (false, false, false, false);
        for x in &self.0 { match *x { Flag::Bool(n, b) if n == k => { any = true; if b { t = true } else { f = true } } Flag::Str(n, v) if n == k => { any = true; if value.is_some_and(|w| w.as_bytes() == [v]) { eq = true } } _ => {} } }
        let answer = if value.is_some() { if eq { Some(true) } else if any || k == b'F' { Some(false) } else { None } } else if t != f { Some(t) } else { None };
        match answer { Some(true) => CfgResult::True, Some(false) => CfgResult::False, None => CfgResult::Undetermined { msg: String::new() } }
    }
}
fn flag(k: usize) -> (Vec<u8>, Flag) {
    let letter = |n: &CStr| range(b'a' as u64, b'c' as u64, n) as u8;
    match k {
        0 => { let n = letter(c"name"); (vec![n], Flag::Bool(n, true)) }
        1 => { let n = letter(c"name"); (cat(&text(&[n]), b" = true"), Flag::Bool(n, true)) }
        2 => { let n = letter(c"name"); (cat(&text(&[n]), b"=false"), Flag::Bool(n, false)) }
        3 => { let (n, v) = (letter(c"name"), letter(c"value")); (cat(&text(&[n]), &[b'=', b'"', v, b'"']), Flag::Str(n, v)) }
        4 => { let v = letter(c"value"); (cat("feature=", &[b'"', v, b'"']), Flag::Str(b'F', v)) }
        5 => (a("feature"), Flag::Bool(b'F', true)),
        k => (a(["a=1", "a b", "", "=true", "a=", "a=true b", "a::b", "\"a\""][k - 6]), Flag::Bad),
    }
}
const PREDICATES: [&str; 9] = ["a", "not(a)", "b = \"a\"", "feature = \"a\"", "any(a, b)", "all(a, feature = \"b\")", "feature", "not(feature = \"a\")", "all(not(b), any(feature = \"a\", a = \"c\"))"];
fn cfg(flags: usize, bad: bool) {
    let p = PREDICATES[choice(PREDICATES.len(), c"predicate")];
    let src = format!("#[cxx::bridge]\nmod ffi {{ extern \"Rust\" {{ #[cfg({})] fn f(); fn g(); }} }}\n", p);
    world(); file("/w/in.rs", src.as_bytes());
    let mut args = vec![a("../in.rs")]; let mut all = Vec::new();
    for i in 0..flags { let (t, f) = flag(if bad && i == flags - 1 { 6 + choice(8, c"bad") } else { choice(6, c"flag") }); if i == 0 { args.push(a("--cfg")); args.push(t); } else { args.push(cat("--cfg=", &t)); } all.push(f); }
    let mut code = ACCEPT;
    for (i, x) in all.iter().enumerate() { match *x { Flag::Bad => code = 2, Flag::Bool(n, b) => for y in &all[..i] { if let Flag::Bool(m, c) = *y { if m == n && b != c { code = 2; } } }, _ => {} } }
    let mut o = Opt::default(); o.cfg_evaluator = Box::new(Cfg(all)); let m = if code == ACCEPT { made(&src, &o) } else { None };
    if code == ACCEPT && m.is_none() { code = 1; }
    command(&args, code); let m = m.unwrap(); printed(&m.cc);
    check(position(&m.cc, b" f() noexcept", 0).is_some() == position(stdout(), b" f() noexcept", 0).is_some(), c"decided"); reach(c"done");
}
#[no_mangle] extern "C" fn h_cfg() { cfg(choice(2, c"flags"), false) }
#[no_mangle] extern "C" fn h_cfg_two() { cfg(2, false) }
#[no_mangle] extern "C" fn h_cfg_bad() { cfg(1 + choice(2, c"flags"), true) }
#[no_mangle] extern "C" fn h_cfg_three_deep() { cfg(3, false) }

/// A first line for the system's program loader is passed over, whatever it says; inner attributes are not.
#[no_mangle] extern "C" fn h_shebang() {
    let n = choice(if thorough() { 7 } else { 4 }, c"length"); let mut src = b"#!".to_vec(); for i in 0..n { let c = u8_(c"c"); assume(and(c != b'\n', c < 0x80)); if i == 0 { assume(and(c != b'[', and(c > b' ', c != 127))); } src.push(c); }
    let end = choice(3, c"end"); src.extend_from_slice([&b"\n"[..], b"\r\n", b"\n\n"][end]); if n == 0 { assume(end != 1); }
    let from_stdin = choice(2, c"standard input") == 1;
    src.extend_from_slice(SMALL.as_bytes()); let m = made(SMALL, &Opt::default()).unwrap();
    world(); if from_stdin { stdin(&src); } else { file("/w/in.rs", &src); }
    command(&[if from_stdin { a("-") } else { a("/w/in.rs") }, a("-ox.h"), a("-o-")], ACCEPT); wrote(b"/w/out/x.h", &m.header, c"header"); printed(&m.cc); reach(c"done");
}
/// Everything that is no bridge is refused, and nothing is written.
#[no_mangle] extern "C" fn h_input() {
    world(); let mut name = "/w/in.rs"; let mut code = 1; let mut src = SMALL.as_bytes().to_vec(); let mut want = None;
    match choice(12, c"case") {
        0 => { name = "/w/missing.rs"; }
        1 => { name = "/w/out"; }
        2 => { name = "/w/in.rs/x"; }
        3 => src.clear(),
        4 => src = b"mod ffi { }\nfn main() { }\n".to_vec(),
        5 => src = b"#![cxx::bridge]\nmod ffi { }\n".to_vec(),
        6 => { let i = choice(src.len() + 1, c"at"); src.insert(i, 0x80 | (u8_(c"byte") & 0x3f)); }                        // a stray continuation byte
        7 => { let i = choice(src.len(), c"at"); src.truncate(i); code = if i == src.len() && i + 1 >= SMALL.len() { want = made(SMALL, &Opt::default()); ACCEPT } else { 1 }; if i == 0 { code = 1; } } // cut short
        8 => { src.extend_from_slice(b"#[cxx::bridge] mod two { struct S { b: Missing } }"); }
        9 => { src.extend_from_slice(b"#[cxx::bridge] mod two; "); }
        10 => { src.extend_from_slice(b"mod x { mod y { #[::cxx::bridge(namespace = \"n\")] mod ffi { extern \"Rust\" { fn f2(); } } } #[bridge] mod z { extern \"Rust\" { fn f3(); } } }"); code = ACCEPT; want = made(&text(&src), &Opt::default()); }
        _ => { src.insert(0, b'\xbf'); src.insert(0, b'\xbb'); src.insert(0, b'\xef'); code = ACCEPT; want = made(SMALL, &Opt::default()); } // byte order mark
    }
    file("/w/in.rs", &src);
    let kind = choice(3, c"outputs"); let mut args = vec![a(name)]; if kind > 0 { args.push(a("-ox.h")); } if kind > 1 { args.push(a("-o-")); }
    command(&args, code); let m = want.unwrap(); if kind > 0 { wrote(b"/w/out/x.h", &m.header, c"header"); } printed(if kind == 1 { b"" } else { &m.cc }); reach(c"done");
}
/// Arguments that are none.
#[no_mangle] extern "C" fn h_usage() {
    world(); file("/w/in.rs", SMALL.as_bytes()); let i = a("../in.rs");
    let (args, code): (Vec<Vec<u8>>, c_int) = match choice(16, c"case") {
        0 => (vec![], 2), 1 => (vec![i.clone(), i], 2), 2 => (vec![i, a("-o")], 2), 3 => (vec![i, a("--header"), a("--header")], 2), 4 => (vec![i, a("--include")], 2), 5 => (vec![a("-ox.h")], 2),
        6 => (vec![a("--help")], 0), 7 => (vec![i, a("-ox.h"), a("--help")], 0), 8 => (vec![a("--version")], 0), 9 => (vec![i, a("-ox.h"), a("--version")], 0), 10 => (vec![i, a("--header=x")], 2), 11 => (vec![i, a("--output=")], 2), 12 => (vec![a("")], 2), 13 => (vec![i, a("--cxx-impl-annotations")], 2),
14 => (vec![i, a(["--cf", "--headers", "--outputs=x", "--Header", "-h", "-V", "--input=x", "--output-dir=d", "---header", "-header"][choice(10, c"unknown")])], 2),
        _ => { let c = range(b'a' as u64, b'z' as u64, c"c") as u8; assume(and(c != b'i', c != b'o')); (vec![i, vec![b'-', c], a("x")], 2) }
    };
    command(&args, code);
}
