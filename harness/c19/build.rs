// The symbols of the boundary between the two halves of the runtime, as its C++ half (compiled as it is now) imports or defines them.
use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap(); let o = format!("{out}/cxx.o");
    assert!(Command::new("g++").args(["-std=c++17", "-O0", "-c", "-I/repo/include", "/repo/src/cxx.cc", "-o", &o]).status().unwrap().success());
    let nm = Command::new("nm").arg(&o).output().unwrap(); assert!(nm.status.success());
    let mut s: Vec<String> = String::from_utf8(nm.stdout).unwrap().lines().filter_map(|l| l.split_whitespace().last()).filter(|s| s.starts_with("cxxbridge1$")).map(String::from).collect(); s.sort(); s.dedup(); assert!(s.len() > 20);
    std::fs::write(format!("{out}/runtime.rs"), format!("pub const RUNTIME: [&core::ffi::CStr; {}] = {};", s.len(), format!("{:?}", s).replace("\"c", "c\"c"))).unwrap();
    println!("cargo:rerun-if-changed=/repo/src/cxx.cc"); println!("cargo:rerun-if-changed=/repo/include/cxx.h");
}
