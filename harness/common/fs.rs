// The file system and environment of cc/fs.cc, and runs of cxx_build against it.
extern "C" {
    fn fs_reset();
    fn fs_dir(p: *const c_char);
    fn fs_file(p: *const c_char, text: *const u8, n: usize);
    fn fs_link(p: *const c_char, to: *const c_char);
    fn fs_output(p: *const c_char);
    fn fs_cwd(p: *const c_char);
    fn fs_env(kv: *const c_char);
    fn fs_source(text: *const c_char);
    fn fs_arm(on: c_int, exit_allowed: c_int);
    fn fs_node(p: *const u8, n: usize, follow: c_int) -> c_int;
    fn fs_kind(n: c_int) -> c_int;
    fn fs_data(n: c_int, len: *mut usize) -> *const u8;
    fn fs_writes() -> usize;
    fn fs_stdout(n: *mut usize) -> *const u8;
    fn fs_stdout_clear();
    fn fs_env_n(k: *const c_char, v: *const u8, n: usize);
}
const DIR: c_int = 1; const FILE: c_int = 2; const LINK: c_int = 3;
fn z(s: &str) -> CString { CString::new(s).unwrap() }
fn dir(p: &str) { unsafe { fs_dir(z(p).as_ptr()) } }
fn file(p: &str, text: &str) { unsafe { fs_file(z(p).as_ptr(), text.as_ptr(), text.len()) } }
fn link(p: &str, to: &str) { unsafe { fs_link(z(p).as_ptr(), z(to).as_ptr()) } }
fn output(p: &str) { unsafe { fs_output(z(p).as_ptr()) } }
fn env(kv: &str) { unsafe { fs_env(z(kv).as_ptr()) } }
fn env_bytes(k: &str, v: &[u8]) { unsafe { fs_env_n(z(k).as_ptr(), v.as_ptr(), v.len()) } }
fn node(p: &[u8], follow: bool) -> c_int { unsafe { fs_node(p.as_ptr(), p.len(), follow as c_int) } }
fn kind(n: c_int) -> c_int { unsafe { fs_kind(n) } }
fn data(n: c_int) -> &'static [u8] { let mut l = 0; let p = unsafe { fs_data(n, &mut l) }; if l == 0 { &[] } else { unsafe { core::slice::from_raw_parts(p, l) } } }
fn writes() -> usize { unsafe { fs_writes() } }
fn stdout() -> &'static [u8] { let mut l = 0; let p = unsafe { fs_stdout(&mut l) }; unsafe { core::slice::from_raw_parts(p, l) } }
fn arm(exit_allowed: bool) { unsafe { fs_arm(1, exit_allowed as c_int) } }
fn disarm() { unsafe { fs_arm(0, 0) } }

const SOURCES: [&std::ffi::CStr; 4] = [c"#[cxx::bridge] mod ffi { extern \"Rust\" { fn first(); } }", c"#[cxx::bridge] mod ffi { extern \"Rust\" { fn second(); } }", c"#[cxx::bridge] mod ffi { extern \"Rust\" { fn third(); } }", c"#[cxx::bridge] mod ffi { extern \"Rust\" { fn fourth(); } }"];
/// A workspace /w with the package in /w/m, the target directory /w/t, and the build script's output directory /w/t/o.
fn workspace() {
    unsafe { fs_reset(); }
    dir("/w/m/src"); dir("/w/t/o"); file("/w/t/.rustc_info.json", "{}"); dir("/x"); file("/x/cxx.h", "// cxx.h");
    output("/w/t/o/cxxbridge"); output("/w/t/cxxbridge"); unsafe { fs_cwd(c"/w/m".as_ptr()); }
}
fn standard_env() { env("CARGO_MANIFEST_DIR=/w/m"); env("OUT_DIR=/w/t/o"); env("CARGO_PKG_NAME=p"); env("DEP_CXXBRIDGE1_HEADER=/x/cxx.h"); }
fn sources(from: usize, to: usize) { for s in &SOURCES[from..to] { unsafe { fs_source(s.as_ptr()) } } }
fn run(paths: &[&[u8]]) -> cc::Build { cxx_build::bridges(paths.iter().map(|p| Path::new(OsStr::from_bytes(p)))) }
