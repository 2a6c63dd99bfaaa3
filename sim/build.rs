use std::process::Command;

fn main() {
    println!("cargo:rerun-if-changed=src/hooks.c");
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{out}/hooks.o");
    let lib = format!("{out}/libsimhooks.a");
    let ok = Command::new("gcc")
        .args(["-O2", "-fPIC", "-Wall", "-c", "src/hooks.c", "-o", &obj])
        .status()
        .expect("gcc")
        .success();
    assert!(ok, "gcc failed");
    let _ = std::fs::remove_file(&lib);
    let ok = Command::new("ar").args(["crs", &lib, &obj]).status().expect("ar").success();
    assert!(ok, "ar failed");
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static:+whole-archive=simhooks");
}
