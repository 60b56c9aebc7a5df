// C25: which header directories a crate's C++ build sees and which of them it passes on.
#![allow(dead_code)]
#[path = "../../common/sym.rs"]
mod sym;
use std::ffi::{c_char, c_int, CString, OsStr};
use std::os::unix::ffi::OsStrExt;
use std::path::Path;
use sym::*;
include!("../../common/fs.rs");

const OWN: [&[u8]; 2] = [b"/w/t/o/cxxbridge/include", b"/w/t/o/cxxbridge/crate"];
/// The include directories handed to the C++ compiler.
fn includes(b: &cc::Build) -> Vec<Vec<u8>> {
    let d = format!("{:?}", b); let d = d.as_bytes(); let mut v = Vec::new(); let mark = b"include_directories: ["; let mut i = position(d, mark, 0).unwrap() + mark.len();
    while d[i] != b']' { if d[i] != b'"' { i += 1; continue; } let e = position(d, b"\"", i + 1).unwrap(); v.push(d[i + 1..e].to_vec()); i = e + 1; }
    v
}
/// The lines `cargo:KEY=VALUE` printed.
fn metadata() -> Vec<(Vec<u8>, Vec<u8>)> {
    let t = stdout(); let mut v = Vec::new(); let mut s = 0;
    for i in 0..t.len() { if t[i] == b'\n' { let l = &t[s..i]; s = i + 1; if l.starts_with(b"cargo:CXXBRIDGE_") { let e = position(l, b"=", 0).unwrap(); v.push((l[6..e].to_vec(), l[e + 1..].to_vec())); } } }
    v
}
fn exported(m: &[(Vec<u8>, Vec<u8>)]) -> Vec<Vec<u8>> {
    let mut v = Vec::new(); let mut last = -1i64;
    for (k, d) in m { if let Some(n) = k.strip_prefix(b"CXXBRIDGE_DIR") { let mut c = 0i64; check(!n.is_empty() && n.iter().all(u8::is_ascii_digit), c"numbered"); for d in n { c = c * 10 + (*d - b'0') as i64; } check(c > last, c"numbers-rise"); last = c; v.push(d.clone()); } }
    v
}
fn letters(n: usize, what: &std::ffi::CStr) -> Vec<u8> { (0..n).map(|_| range(b'g' as u64, b'q' as u64, what) as u8).collect() }
fn text(b: &[u8]) -> &'static str { let b: &'static [u8] = Box::leak(b.to_vec().into_boxed_slice()); unsafe { core::str::from_utf8_unchecked(b) } }
/// A relative path of `n` symbolic bytes, letters and separators, as an include prefix is printed.
fn prefix_path(n: usize, what: &std::ffi::CStr) -> Vec<u8> {
    let v: Vec<u8> = (0..n).map(|_| { let c = u8_(what); assume(or(c == b'/', and(c >= b'g', c <= b'q'))); c }).collect();
    if n > 0 { assume(v[0] != b'/'); assume(v[n - 1] != b'/'); } for i in 1..n { assume(!and(v[i] == b'/', v[i - 1] == b'/')); }
    v
}
fn same(a: &[u8], b: &[u8]) -> bool { eq(a, b) }
fn begins(a: &[&[u8]], b: &[&[u8]]) -> bool { a.len() >= b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)) }
fn split(p: &[u8]) -> Vec<&[u8]> { p.split(|c| *c == b'/').filter(|c| !c.is_empty()).collect() }

struct Dep { name: &'static str, prefix: Option<Vec<u8>>, links: Option<Vec<u8>>, dirs: Vec<(Vec<u8>, Vec<u8>)> }
fn number(d: &[u8]) -> u64 { let mut n = 0; for c in d { n = n * 10 + (*c - b'0') as u64; } n }
/// One build script with the given direct dependencies and configuration, against the rules.
fn crate_(deps: &[Dep], order: usize, dirs: &[Vec<u8>], prefixes: &[Vec<u8>], links: &[Vec<u8>], own_links: bool) {
    workspace(); standard_env(); if own_links { env("CARGO_MANIFEST_LINKS=own"); }
    let mut vars: Vec<(String, Vec<u8>)> = Vec::new();
    for d in deps { for (n, v) in &d.dirs { vars.push((format!("DEP_{}_CXXBRIDGE_DIR{}", d.name, text(n)), v.clone())); } if let Some(p) = &d.prefix { vars.push((format!("DEP_{}_CXXBRIDGE_PREFIX", d.name), p.clone())); } if let Some(l) = &d.links { vars.push((format!("DEP_{}_CXXBRIDGE_LINKS", d.name), l.clone())); } vars.push((format!("DEP_{}_OTHER1", d.name), b"/no".to_vec())); vars.push((format!("DEP_{}_CXXBRIDGE_DIRS", d.name), b"/no".to_vec())); }
    let n = vars.len(); for i in 0..n { let (k, v) = &vars[if order & 1 == 0 { i } else { n - 1 - i }]; env_bytes(k, v); }
    // The rules.
    let mut refuse = dirs.iter().any(|d| d[0] != b'/') || prefixes.iter().any(|p| p.is_empty()) || (!own_links && (!dirs.is_empty() || !prefixes.is_empty() || !links.is_empty()));
    let by_prefix = |d: &Dep, p: &[u8]| d.prefix.as_ref().map_or(false, |x| begins(&split(x), &split(p))); let by_links = |d: &Dep, l: &[u8]| d.links.as_ref().map_or(false, |x| same(x, l));
    for p in prefixes { refuse = or(refuse, !deps.iter().any(|d| by_prefix(d, p))); } for l in links { refuse = or(refuse, !deps.iter().any(|d| by_links(d, l))); }
    { let c = &mut cxx_build::CFG; c.exported_header_dirs = dirs.iter().map(|d| Path::new(text(d))).collect(); c.exported_header_prefixes = prefixes.iter().map(|d| text(d)).collect(); c.exported_header_links = links.iter().map(|d| text(d)).collect(); }
    arm(refuse); let b = run(&[]); disarm();
    check(!refuse, c"refused-if-misconfigured");
    let got = includes(&b); let m = metadata(); let out = exported(&m);
    let mut fixed: Vec<&[u8]> = OWN.to_vec(); for d in dirs { fixed.push(d); }
    check(got.len() >= fixed.len() && got.iter().zip(&fixed).all(|(a, b)| same(a, b)), c"own-directories-first");
    check(out.len() >= fixed.len() && out.iter().zip(&fixed).all(|(a, b)| same(a, b)), c"own-directories-exported");
    let rest = &got[fixed.len()..]; let rest_out = &out[fixed.len()..];
    for (i, a) in rest.iter().enumerate() {
        check(!rest[..i].iter().any(|b| same(a, b)), c"each-once");
        let from: Vec<&Dep> = deps.iter().filter(|d| d.dirs.iter().any(|(_, v)| same(v, a))).collect(); check(!from.is_empty(), c"only-dependencies");
        let ex = from.iter().any(|d| prefixes.iter().any(|p| by_prefix(d, p)) || links.iter().any(|l| by_links(d, l)));
        check(rest_out.iter().filter(|b| same(a, b)).count() == ex as usize, c"exported-exactly-if-configured"); if ex { reach(c"passed-on") } else { reach(c"private") }
    }
    check(rest_out.iter().all(|a| rest.iter().any(|b| same(a, b))), c"no-other-exported");
    let mut at = 0; for a in rest_out { while at < rest.len() && !same(&rest[at], a) { at += 1; } check(at < rest.len(), c"exported-in-order"); }
    // Every directory of a dependency, in that dependency's order unless an earlier one brought it.
    let mut ordered: Vec<&Dep> = deps.iter().collect(); ordered.sort_by_key(|d| d.name);
    let mut want: Vec<&[u8]> = Vec::new();
    for d in ordered { let mut v: Vec<(u64, &[u8])> = d.dirs.iter().map(|(n, v)| (number(n), &v[..])).collect(); for i in 0..v.len() { for j in i + 1..v.len() { if v[j].0 < v[i].0 { v.swap(i, j); } } } for (_, x) in v { if !want.iter().any(|w| same(w, x)) { want.push(x); } } }
    check(rest.len() == want.len(), c"all-directories"); for d in deps { let mine: Vec<&[u8]> = want.iter().filter(|w| d.dirs.iter().any(|(_, v)| same(v, w))).copied().collect(); let theirs: Vec<&[u8]> = rest.iter().map(|r| &r[..]).filter(|r| d.dirs.iter().any(|(_, v)| same(v, r))).collect(); if deps.len() == 1 { check(mine.len() == theirs.len() && mine.iter().zip(&theirs).all(|(a, b)| same(a, b)), c"dependency-order"); } else { check(mine.len() == theirs.len(), c"dependency-complete"); } }
    // What dependents are told about this crate.
    check(m.iter().filter(|(k, v)| k == b"CXXBRIDGE_PREFIX" && v == b"p").count() == 1, c"prefix-printed"); check(m.iter().filter(|(k, _)| k == b"CXXBRIDGE_LINKS").count() == own_links as usize && m.iter().all(|(k, v)| k != b"CXXBRIDGE_LINKS" || v == b"own"), c"links-printed"); check(m.iter().filter(|(k, _)| k == b"CXXBRIDGE_PREFIX").count() == 1, c"one-prefix");
    reach(c"accepted"); reach(c"done");
}
fn dir_value(what: &std::ffi::CStr) -> Vec<u8> { let mut v = b"/d/".to_vec(); v.extend(letters(1, what)); v }
/// Exported prefixes against the prefixes of dependencies, component by component.
#[no_mangle] extern "C" fn h_prefixes() {
    let big = thorough();
    let a = Dep { name: "A", prefix: Some(prefix_path(1 + choice(3, c"length"), c"prefix")), links: None, dirs: vec![(b"0".to_vec(), dir_value(c"dir"))] };
    let mut p: Vec<u8> = Vec::new(); for _ in 0..choice(if big { 5 } else { 4 }, c"length of exported") { let c = u8_(c"exported"); assume(or(c == b'/', and(c >= b'g', c <= b'q'))); p.push(c); } if !p.is_empty() { assume(p[0] != b'/'); }
    crate_(&[a], 0, &[], &[p], &[], true);
}
/// Two dependencies, two exported prefixes.
#[no_mangle] extern "C" fn h_two_prefixes() {
    let d = dir_value(c"dir"); let a = Dep { name: "A", prefix: Some(prefix_path(3, c"prefix")), links: None, dirs: vec![(b"0".to_vec(), d)] };
    let b = Dep { name: "B", prefix: if choice(2, c"has prefix") == 0 { None } else { Some(prefix_path(1, c"other prefix")) }, links: None, dirs: vec![(b"0".to_vec(), dir_value(c"other dir"))] };
    crate_(&[a, b], choice(2, c"order"), &[], &[prefix_path(1, c"exported"), prefix_path(if choice(2, c"exported length") == 0 { 1 } else { 3 }, c"exported")], &[], true);
}
/// Links attributes, alone and with prefixes of the same dependencies.
#[no_mangle] extern "C" fn h_links() {
    let a = Dep { name: "A", prefix: Some(letters(1, c"prefix")), links: Some(letters(2, c"links")), dirs: vec![(b"0".to_vec(), dir_value(c"dir"))] };
    let b = Dep { name: "B", prefix: None, links: if choice(2, c"has links") == 0 { None } else { Some(letters(2, c"other links")) }, dirs: vec![(b"1".to_vec(), dir_value(c"other dir"))] };
    let l: Vec<Vec<u8>> = (0..choice(3, c"exported links")).map(|_| letters(2, c"exported")).collect(); let p: Vec<Vec<u8>> = (0..choice(2, c"exported prefixes")).map(|_| letters(1, c"exported prefix")).collect();
    crate_(&[a, b], 0, &[], &p, &l, true);
}
/// Directories of several dependencies: numbers, duplicates, order of the environment.
#[no_mangle] extern "C" fn h_numbers() {
    const N: [&str; 8] = ["0", "1", "2", "9", "10", "19", "20", "100"]; let n: [Vec<u8>; 3] = core::array::from_fn(|i| N[if i == 2 && !thorough() { 4 } else { choice(8, c"number") }].as_bytes().to_vec()); let k = choice(3, c"directories");
    let v: Vec<(Vec<u8>, Vec<u8>)> = (0..=k).map(|i| (n[i].clone(), dir_value(c"dir"))).collect();
    for i in 0..=k { for j in 0..i { assume(number(&n[i]) != number(&n[j])); } }
    let e = choice(2, c"exported") == 1;
    crate_(&[Dep { name: "A", prefix: Some(b"a".to_vec()), links: None, dirs: v }], choice(2, c"order"), &[], &if e { vec![b"a".to_vec()] } else { vec![] }, &[], e);
}
#[no_mangle] extern "C" fn h_shared_dirs() {
    const N: [&str; 3] = ["A", "A_B", "B"]; let k = 2 + choice(2, c"dependencies"); let mut deps = Vec::new();
    for i in 0..k { let m = 1 + choice(2, c"directories"); deps.push(Dep { name: N[i], prefix: Some(vec![b"xyz"[i]]), links: None, dirs: (0..m).map(|j| (vec![b'3' + 7 * j as u8 % 5], dir_value(c"dir"))).collect() }); }
    let p: Vec<Vec<u8>> = match choice(4, c"exported") { 0 => vec![], 1 => vec![b"x".to_vec()], 2 => vec![b"y".to_vec()], _ => vec![b"y".to_vec(), b"x".to_vec()] };
    crate_(&deps, choice(2, c"order"), &[], &p, &[], true);
}
/// The configuration's own demands.
#[no_mangle] extern "C" fn h_config() {
    let own = choice(2, c"links attribute") == 1; let nd = choice(3, c"dirs"); let mut dirs = Vec::new();
    for _ in 0..nd { let mut d = Vec::new(); let c = u8_(c"first"); assume(or(c == b'/', and(c >= b'g', c <= b'q'))); d.push(c); d.extend(b"e/"); d.extend(letters(1, c"dir name")); dirs.push(d); }
    let p: Vec<Vec<u8>> = match choice(4, c"prefixes") { 0 => vec![], 1 => vec![vec![]], 2 => vec![b"a".to_vec()], _ => vec![b"a".to_vec(), vec![]] }; let l: Vec<Vec<u8>> = if choice(2, c"exported links") == 0 { vec![] } else { vec![b"la".to_vec()] };
    crate_(&[Dep { name: "A", prefix: Some(b"a".to_vec()), links: Some(b"la".to_vec()), dirs: vec![(b"0".to_vec(), b"/d/x".to_vec())] }], 0, &dirs, &p, &l, own);
}
/// Three crates in a row: the last sees the first one's directories exactly if the middle one exports them.
#[no_mangle] extern "C" fn h_chain() {
    let d = letters(2, c"dir"); let dir_ = [&b"/d/"[..], &d].concat(); let pre = prefix_path(3, c"prefix");
    workspace(); env("CARGO_MANIFEST_DIR=/w/m"); env("OUT_DIR=/w/t/o"); env("CARGO_PKG_NAME=first"); env("DEP_CXXBRIDGE1_HEADER=/x/cxx.h"); env("CARGO_MANIFEST_LINKS=first");
    cxx_build::CFG.include_prefix = text(&pre); cxx_build::CFG.exported_header_dirs.push(Path::new(text(&dir_)));
    arm(false); let b = run(&[]); disarm(); check(includes(&b).iter().any(|x| same(x, &dir_)), c"own-build-sees"); let m1 = metadata();
    // the middle crate
    workspace(); env("CARGO_MANIFEST_DIR=/w/m"); env("OUT_DIR=/w/t/o"); env("DEP_CXXBRIDGE1_HEADER=/x/cxx.h"); env("CARGO_MANIFEST_LINKS=middle");
    for (k, v) in &m1 { env_bytes(&format!("DEP_FIRST_{}", text(k)), v); }
    let how = choice(3, c"exports"); let p = prefix_path([0, 1, 3][choice(3, c"length of exported")], c"exported"); assume(how != 1 || p.len() > 0);
    { let c = &mut cxx_build::CFG; c.include_prefix = "middle"; c.exported_header_dirs.clear(); if how == 1 { c.exported_header_prefixes.push(text(&p)); } if how == 2 { c.exported_header_links.push("first"); } }
    let matches = how == 2 || (how == 1 && begins(&split(&pre), &split(&p)));
    arm(how == 1 && !matches); let b = run(&[]); disarm(); check(how != 1 || matches, c"refused-if-misconfigured"); check(includes(&b).iter().any(|x| same(x, &dir_)), c"direct-dependent-sees"); let m2 = metadata();
    // the last one
    workspace(); env("CARGO_MANIFEST_DIR=/w/m"); env("OUT_DIR=/w/t/o"); env("DEP_CXXBRIDGE1_HEADER=/x/cxx.h");
    for (k, v) in &m2 { env_bytes(&format!("DEP_MIDDLE_{}", text(k)), v); }
    { let c = &mut cxx_build::CFG; c.include_prefix = "last"; c.exported_header_prefixes.clear(); c.exported_header_links.clear(); }
    arm(false); let b = run(&[]); disarm(); check(includes(&b).iter().filter(|x| same(x, &dir_)).count() == matches as usize, c"sees-exactly-if-exported");
    if matches { reach(c"chain exported") } else { reach(c"chain private") } reach(c"done");
}
