use std::{env, path::Path, process::Command};

// Compiles the vendored reference codec, without needing the cc crate.
fn main() {
    println!("cargo:rerun-if-changed=cpp");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-check-cfg=cfg(gfwx_verif)");
    if env::var_os("CARGO_FEATURE_FUZZ").is_some() {
        let o = Command::new("clang").arg("-print-file-name=libclang_rt.fuzzer_no_main-x86_64.a").output().expect("clang");
        let path = String::from_utf8(o.stdout).unwrap().trim().to_string();
        assert!(Path::new(&path).is_file(), "no libFuzzer: {}", path);
        println!("cargo:rustc-link-arg-bins={}", path);
        println!("cargo:rustc-link-arg-bins=-lstdc++");
    }
    if env::var_os("CARGO_FEATURE_CPP").is_none() {
        return;
    }
    let out = env::var("OUT_DIR").unwrap();
    let obj = Path::new(&out).join("ref.o");
    let lib = Path::new(&out).join("libgfwxref.a");
    let ok = Command::new("g++")
        .args(["-std=c++17", "-O2", "-fwrapv", "-fno-strict-aliasing", "-fPIC", "-w", "-c", "cpp/ref.cpp", "-o"])
        .arg(&obj)
        .status()
        .unwrap()
        .success();
    assert!(ok, "g++ failed");
    let _ = std::fs::remove_file(&lib);
    let ok = Command::new("ar").arg("crs").arg(&lib).arg(&obj).status().unwrap().success();
    assert!(ok, "ar failed");
    println!("cargo:rustc-link-search=native={}", out);
    println!("cargo:rustc-link-lib=static=gfwxref");
    println!("cargo:rustc-link-lib=dylib=stdc++");
}
