use std::process::Command;

fn main() {
    println!("cargo:rerun-if-changed=c/trace.c");
    println!("cargo:rustc-check-cfg=cfg(binate_verif)");
    if std::env::var_os("CARGO_FEATURE_TRACE").is_none() {
        return;
    }
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{out}/trace.o");
    let lib = format!("{out}/libtrace.a");
    let ok = Command::new("gcc")
        .args(["-O2", "-fno-builtin", "-fPIC", "-c", "c/trace.c", "-o", &obj])
        .status()
        .unwrap()
        .success();
    assert!(ok, "gcc failed");
    let ok = Command::new("ar")
        .args(["rcs", &lib, &obj])
        .status()
        .unwrap()
        .success();
    assert!(ok, "ar failed");
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static:+whole-archive=trace");
}
