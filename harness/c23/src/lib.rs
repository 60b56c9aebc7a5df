// C23: what cxx_build::bridges writes, where, and what its links refer to, on a file system in memory (cc/fs.cc).
#[path = "../../common/sym.rs"]
mod sym;
use std::ffi::{c_char, c_int, CString, OsStr};
use std::os::unix::ffi::OsStrExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use sym::*;

include!("../../common/fs.rs");

/// A symbolic path of `n` bytes and a last name that a source file may have.
fn symbolic(n: usize, tail: &[u8], what: &std::ffi::CStr) -> Vec<u8> { let mut v = Vec::new(); for _ in 0..n { let c = u8_(what); assume(c != 0); v.push(c); } v.extend_from_slice(tail); v }
/// What is left of a relative path's components.
fn parts(p: &[u8]) -> Vec<&[u8]> { let mut v: Vec<&[u8]> = Vec::new(); for c in p.split(|c| *c == b'/') { if c.is_empty() || c == b"." { continue; } v.push(c); } v }
fn climbs(p: &[u8]) -> bool { parts(p).iter().any(|c| *c == b"..") }
fn joined(parts: &[&[u8]]) -> Vec<u8> { parts.join(&b'/') }
fn cat(v: &[&[u8]]) -> Vec<u8> { v.concat() }
fn holds(n: c_int, name: &[u8]) -> bool { kind(n) == FILE && occurs(data(n), name) }

/// Whatever the path of the source file, nothing outside the two output directories is touched, and the generated files are where C++ looks for them.
fn contained(path: &[u8]) {
    workspace(); standard_env(); sources(0, 1); arm(false);
    let b = run(&[path]); disarm();
    let files: Vec<&Path> = b.get_files().collect(); check(files.len() == 1, c"one-file-to-compile");
    let f = node(files[0].as_os_str().as_bytes(), true); check(holds(f, b"first"), c"compiled-file-generated");
    check(files[0].as_os_str().as_bytes().starts_with(b"/w/t/o/cxxbridge/"), c"compiled-file-in-out-dir");
    if !climbs(path) {
        let rel = joined(&parts(path));
        check(holds(node(&cat(&[b"/w/t/o/cxxbridge/include/p/", &rel, b".h"]), true), b"first"), c"header-beside-name");
        check(node(&cat(&[b"/w/t/o/cxxbridge/sources/p/", &rel, b".cc"]), true) == f, c"source-beside-name");
        check(node(&cat(&[b"/w/t/o/cxxbridge/include/p/", &rel]), true) == node(&cat(&[b"/w/t/o/cxxbridge/include/p/", &rel, b".h"]), true), c"short-include");
        reach(c"below-manifest");
    } else { reach(c"climbs"); }
    reach(c"done");
}
#[no_mangle] extern "C" fn h_source() { let n = choice(7, c"length"); contained(&symbolic(n, b"k.rs", c"path")) }

/// Whatever the include prefix.
fn prefix(p: Vec<u8>, source: &[u8]) {
    for c in &p { assume(*c < 0x80); }
    workspace(); standard_env(); sources(0, 1); arm(false);
    let absolute = p[0] == b'/';
    let r = catch_unwind(AssertUnwindSafe(|| { cxx_build::CFG.include_prefix = unsafe { core::str::from_utf8_unchecked(&p) }; run(&[source]) }));
    disarm();
    check(r.is_err() == absolute, c"only-relative-prefixes");
    if let Ok(b) = r {
        let f = node(b.get_files().next().unwrap().as_os_str().as_bytes(), true); check(holds(f, b"first"), c"compiled-file-generated");
        if source == b"s/k.rs" && !climbs(&p) {
            let mut at = parts(&p); at.push(b"s/k.rs"); let rel = joined(&at);
            check(holds(node(&cat(&[b"/w/t/o/cxxbridge/include/", &rel, b".h"]), true), b"first"), c"header-below-prefix");
            check(node(&cat(&[b"/w/t/o/cxxbridge/sources/", &rel, b".cc"]), true) == f, c"source-below-prefix");
            let at = parts(&p); let crate_ = cat(&[b"/w/t/o/cxxbridge/crate/", &joined(&at)]);
            if !at.is_empty() { check(node(&crate_, true) == node(b"/w/m", true), c"prefix-names-the-package"); reach(c"prefix"); }
        }
        reach(c"accepted");
    } else { reach(c"rejected"); }
    reach(c"done");
}
#[no_mangle] extern "C" fn h_prefix() { let n = 1 + choice(if thorough() { 7 } else { 6 }, c"length"); prefix(symbolic(n, b"", c"prefix"), b"s/k.rs") }
/// The prefix and the path of the source file together.
#[no_mangle] extern "C" fn h_prefix_and_source() { let n = 1 + choice(3, c"length"); let m = choice(if thorough() { 4 } else { 3 }, c"length of path"); let p = symbolic(n, b"", c"prefix"); assume(p[0] != b'/'); prefix(p, &symbolic(m, b"k.rs", c"path")[..]) }

/// Two source files below the manifest directory: neither takes the other's place.
fn two(a: Vec<u8>, b: Vec<u8>) {
    assume(a[0] != b'/' && b[0] != b'/' && !climbs(&a) && !climbs(&b));
    let (pa, pb) = (parts(&a), parts(&b)); let same = pa.len() == pb.len() && pa.iter().zip(&pb).all(|(x, y)| eq(x, y));
    // A file has no files below it.
    let below = |x: &[&[u8]], y: &[&[u8]]| x.len() < y.len() && x.iter().zip(y).all(|(x, y)| eq(x, y));
    assume(!below(&pa, &pb) && !below(&pb, &pa));
    workspace(); standard_env(); sources(0, 2); arm(false);
    let r = run(&[&a, &b]); disarm();
    let f: Vec<c_int> = r.get_files().map(|p| node(p.as_os_str().as_bytes(), true)).collect(); check(f.len() == 2, c"two-files-to-compile");
    check((f[0] == f[1]) == same, c"own-file");
    if !same {
        check(holds(f[0], b"first") && holds(f[1], b"second"), c"own-text");
        for (i, p) in [pa, pb].iter().enumerate() {
            let h = cat(&[b"/w/t/o/cxxbridge/include/p/", &joined(p)]); let n: &[u8] = [&b"first"[..], b"second"][i];
            let d = node(&cat(&[&h, b".h"]), true); check(holds(d, n), c"own-header"); check(node(&h, true) == d, c"own-short-include");
            let s = cat(&[b"/w/t/cxxbridge/p/", &joined(p)]); check(node(&cat(&[&s, b".h"]), true) == d && node(&cat(&[&s, b".cc"]), true) == f[i], c"own-shared-links");
        }
        reach(c"two");
    } else { reach(c"same"); }
    reach(c"done");
}
#[no_mangle] extern "C" fn h_two() { let n = 1 + choice(3, c"length"); let m = 1 + choice(3, c"other length"); two(symbolic(n, b".rs", c"path"), symbolic(m, b".rs", c"other path")) }
#[no_mangle] extern "C" fn h_two_long_deep() { let n = 4; let m = 1 + choice(4, c"other length"); two(symbolic(n, b".rs", c"path"), symbolic(m, b".rs", c"other path")) }

/// A second run of the same build script over the first one's output writes nothing, and leaves everything in place.
fn again(path: &[u8], header: bool) {
    workspace(); env("CARGO_MANIFEST_DIR=/w/m"); env("OUT_DIR=/w/t/o"); env("CARGO_PKG_NAME=p"); if header { env("DEP_CXXBRIDGE1_HEADER=/x/cxx.h"); }
    sources(0, 1); sources(0, 1); arm(false);
    let a = run(&[path]); let w = writes(); let n: Vec<c_int> = a.get_files().map(|p| node(p.as_os_str().as_bytes(), true)).collect();
    let b = run(&[path]); disarm();
    check(writes() == w, c"unchanged-files-not-written-again"); check(b.get_files().map(|p| node(p.as_os_str().as_bytes(), true)).collect::<Vec<_>>() == n && holds(n[0], b"first"), c"still-there");
    check(holds(node(b"/w/t/o/cxxbridge/include/rust/cxx.h", true), if header { b"// cxx.h" } else { b"class String" }), c"cxx-h");
    reach(c"again"); reach(c"done");
}
#[no_mangle] extern "C" fn h_again() { let n = choice(if thorough() { 5 } else { 4 }, c"length"); again(&symbolic(n, b"k.rs", c"path"), true) }
#[no_mangle] extern "C" fn h_again_own_header() { let n = choice(2, c"length"); again(&symbolic(n, b"k.rs", c"path"), false) }
/// A second run with changed text, longer or shorter or of the same length, replaces the first one's.
#[no_mangle] extern "C" fn h_changed() {
    const NEW: [(&std::ffi::CStr, &[u8]); 4] = [(c"#[cxx::bridge] mod ffi { extern \"Rust\" { fn second(); } }", b"second"), (c"#[cxx::bridge] mod ffi { extern \"Rust\" { fn third(); } }", b"third"), (c"#[cxx::bridge] mod ffi { extern \"Rust\" { fn firsu(); } }", b"firsu"), (c"#[cxx::bridge] mod ffi { extern \"Rust\" { fn it(); } }", b"it()")];
    let (new, word) = NEW[choice(4, c"text")]; let back = choice(2, c"back") == 1;
    let n = choice(3, c"length"); let path = symbolic(n, b"k.rs", c"path"); workspace(); standard_env(); sources(0, 1); unsafe { fs_source(new.as_ptr()); } if back { sources(0, 1); } arm(false);
    let _ = run(&[&path]); let mut b = run(&[&path]); if back { b = run(&[&path]); } disarm(); let (word, gone): (&[u8], &[u8]) = if back { (b"first", word) } else { (word, b"first") };
    let f = node(b.get_files().next().unwrap().as_os_str().as_bytes(), true); check(holds(f, word) && !occurs(data(f), gone), c"replaced");
    if !climbs(&path) { let h = node(&cat(&[b"/w/t/o/cxxbridge/include/p/", &joined(&parts(&path)), b".h"]), true); check(holds(h, word) && !occurs(data(h), gone), c"header-replaced"); check(node(&cat(&[b"/w/t/cxxbridge/p/", &joined(&parts(&path)), b".h"]), true) == h, c"shared-link"); }
    reach(c"changed"); reach(c"done");
}
/// Other things left in the way by an earlier run: links, dangling ones, files.
#[no_mangle] extern "C" fn h_leftovers() {
    workspace(); standard_env(); sources(0, 1);
    dir("/w/t/o/cxxbridge"); dir("/w/t/cxxbridge"); dir("/w/t/o/cxxbridge/include/p"); dir("/w/t/o/cxxbridge/include/rust"); dir("/w/t/o/cxxbridge/sources/p"); dir("/w/t/cxxbridge/p"); dir("/w/t/o/cxxbridge/crate"); file("/w/m/precious.h", "precious");
    const AT: [&str; 7] = ["/w/t/o/cxxbridge/include/p/k.rs", "/w/t/o/cxxbridge/include/p/k.rs.h", "/w/t/o/cxxbridge/sources/p/k.rs.cc", "/w/t/cxxbridge/p/k.rs.h", "/w/t/cxxbridge/p/k.rs.cc", "/w/t/o/cxxbridge/include/rust/cxx.h", "/w/t/o/cxxbridge/crate/p"];
    for k in 0..2 { let at = AT[choice(AT.len(), c"place")]; if k == 1 && node(at.as_bytes(), false) >= 0 { continue; } match choice(4, c"leftover") { 0 => link(at, "/w/m/precious.h"), 1 => link(at, "/nowhere"), 2 => link(at, "../../../../../m/precious.h"), _ => file(at, "stale") } }
    arm(false); let b = run(&[b"k.rs"]); disarm();
    let f = node(b.get_files().next().unwrap().as_os_str().as_bytes(), true); check(holds(f, b"first"), c"compiled-file-generated");
    let h = node(b"/w/t/o/cxxbridge/include/p/k.rs.h", true); check(holds(h, b"first"), c"header-generated"); check(node(b"/w/t/o/cxxbridge/include/p/k.rs", true) == h, c"short-include");
    check(node(b"/w/t/cxxbridge/p/k.rs.h", true) == h && node(b"/w/t/cxxbridge/p/k.rs.cc", true) == f, c"shared-links");
    check(node(b"/w/t/o/cxxbridge/include/rust/cxx.h", true) == node(b"/x/cxx.h", true), c"cxx-h"); check(node(b"/w/t/o/cxxbridge/crate/p", true) == node(b"/w/m", true), c"crate-link");
    check(data(node(b"/w/m/precious.h", true)) == b"precious", c"nothing-else-overwritten");
    reach(c"leftovers"); reach(c"done");
}

// ---- links
/// Every link refers to what it is made for, whatever the shape of the directories' paths.
fn links(manifest: &str, out: &str, target_env: Option<&str>, relative: bool, shared: &str) {
    env(&format!("CARGO_MANIFEST_DIR={}", manifest)); env(&format!("OUT_DIR={}", out)); env("CARGO_PKG_NAME=p"); env("DEP_CXXBRIDGE1_HEADER=/x/cxx.h"); if let Some(t) = target_env { env(&format!("CARGO_TARGET_DIR={}", t)); }
    sources(0, 1); arm(false); let b = run(&[b"s/k.rs"]); disarm();
    let f = node(b.get_files().next().unwrap().as_os_str().as_bytes(), true); check(holds(f, b"first"), c"compiled-file-generated");
    let o = |s: &str| format!("{}/cxxbridge/{}", out, s); let h = node(o("include/p/s/k.rs.h").as_bytes(), true); check(holds(h, b"first"), c"header-generated");
    let s = |s: &str| format!("{}/cxxbridge/{}", shared, s);
    let all = [(o("include/p/s/k.rs"), h), (o("crate/p"), node(manifest.as_bytes(), true)), (s("p/s/k.rs.h"), h), (s("p/s/k.rs.cc"), f)];
    for (at, to) in &all {
        check(node(at.as_bytes(), true) == *to, c"link-refers-to-original"); let l = node(at.as_bytes(), false); check(kind(l) == LINK, c"link");
        if relative { check(data(l)[0] != b'/', c"link-relative"); reach(c"relative"); }
        if target_env.is_some() { check(data(l)[0] == b'/', c"link-absolute"); reach(c"absolute"); }
    }
    for at in [o("include/rust/cxx.h"), s("rust/cxx.h")] { check(node(at.as_bytes(), true) == node(b"/x/cxx.h", true), c"cxx-h"); }
    reach(c"links"); reach(c"done");
}
fn spelled(base: &[&str], k: usize) -> (String, bool) {
    let mut s = String::new(); let mut plain = true;
    for (i, c) in base.iter().enumerate() {
        s.push('/'); s.push_str(c);
        if i + 1 == k % 8 { match k / 8 { 0 => s.push('/'), 1 => s.push_str("/."), 2 => { s.push_str("/../"); s.push_str(c); plain = false; } _ => {} } }
    }
    (s, plain)
}
#[no_mangle] extern "C" fn h_links_spelling() {
    workspace(); let (m, a) = spelled(&["w", "m"], [0, 1, 2, 9, 10, 17, 18][choice(7, c"manifest dir")]); let (o, b) = spelled(&["w", "t", "o"], [0, 1, 2, 3, 9, 10, 11, 17, 18, 19][choice(10, c"out dir")]);
    links(&m, &o, None, a && b, "/w/t")
}
/// One of the directories on the way is a link to a place of another depth.
#[no_mangle] extern "C" fn h_links_linked() {
    unsafe { fs_reset(); fs_cwd(c"/".as_ptr()); } dir("/x"); file("/x/cxx.h", "// cxx.h");
    let k = choice(6, c"link"); 
    let (m, o) = match k {
        0 => { dir("/a/b/c/t/o"); dir("/w/m"); link("/w/t", "/a/b/c/t"); ("/w/m", "/w/t/o") }
        1 => { dir("/w/t"); dir("/o"); link("/w/t/o", "../../o"); dir("/w/m"); ("/w/m", "/w/t/o") }
        2 => { dir("/w/t/o"); dir("/a/b/m"); link("/w/m", "../a/b/m"); ("/w/m", "/w/t/o") }
        3 => { dir("/a/w/m"); dir("/a/w/t/o"); link("/w", "/a/w"); ("/w/m", "/w/t/o") }
        4 => { dir("/a/w/m"); dir("/a/w/t/o"); link("/w", "/a/w"); ("/a/w/m", "/w/t/o") }
        _ => { dir("/w/m"); dir("/w/deep/er/t/o"); link("/w/m/t", "../deep/er/t"); ("/w/m", "/w/m/t/o") }
    };
    let t = format!("{}/..", o); let t = if k == 1 { "/w/t".to_owned() } else { t }; file(&format!("{}/.rustc_info.json", t), "{}");
    output(&format!("{}/cxxbridge", o)); output(&format!("{}/cxxbridge", t));
    links(m, o, None, k == 3, &o[..o.len() - 2])
}
/// Cargo's own target directory variable.
#[no_mangle] extern "C" fn h_links_target_dir() {
    workspace(); dir("/y"); output("/y/cxxbridge"); let t = ["/y", "/w/t", "/y/", "/x/../y"][choice(4, c"target dir")];
    links("/w/m", "/w/t/o", Some(t), false, t)
}
/// The target directory is found by the marks Cargo leaves in it.
#[no_mangle] extern "C" fn h_links_marks() {
    unsafe { fs_reset(); fs_cwd(c"/".as_ptr()); } dir("/x"); file("/x/cxx.h", "// cxx.h"); dir("/w/m");
    let k = choice(4, c"mark"); let t = ["/w/t", "/w/t/u", "/w/target", "/w/t/u/o"][k]; let o = if k == 2 { "/w/target/u/o" } else { "/w/t/u/o" }; dir(o);
    match k { 0 => file("/w/t/.rustc_info.json", "{}"), 1 => file("/w/t/u/CACHEDIR.TAG", "x"), 2 => file("/w/Cargo.toml", "x"), _ => file("/w/t/u/o/CACHEDIR.TAG", "x") }
    output(&format!("{}/cxxbridge", o)); if t != o { output(&format!("{}/cxxbridge", t)); }
    links("/w/m", o, None, true, t)
}

/// A source file without a valid bridge fails the build, whatever came before it.
#[no_mangle] extern "C" fn h_invalid() {
    const BAD: [&std::ffi::CStr; 7] = [c"", c"mod ffi {}", c"#[cxx::bridge] mod ffi { struct }", c"#[cxx::bridge] mod ffi { struct S; }", c"#[cxx::bridge] mod ffi { extern \"Rust\" { fn f(x: Unknown); } }", c"#[cxx::bridge] mod ffi;", c"\xff"];
    workspace(); standard_env(); let first = choice(2, c"invalid first") == 1; if !first { sources(0, 1); } unsafe { fs_source(BAD[choice(7, c"text")].as_ptr()); } sources(0, 1);
    arm(true); reach(c"invalid"); let _ = run(&[b"a.rs", b"b.rs"]); disarm();
    check(false, c"invalid-source-refused");
}
#[no_mangle] extern "C" fn h_source_long_deep() { let n = 7 + choice(2, c"length"); contained(&symbolic(n, b"k.rs", c"path")) }
#[no_mangle] extern "C" fn h_prefix_long_deep() { prefix(symbolic(8, b"", c"prefix"), b"s/k.rs") }
