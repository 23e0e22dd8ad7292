use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=rt/sym.c");
    let ok = Command::new("cc").args(["-O1", "-fPIC", "-c", "rt/sym.c", "-o"]).arg(format!("{out}/sym.o")).status().unwrap().success()
        && Command::new("ar").args(["rcs"]).arg(format!("{out}/libsymrt.a")).arg(format!("{out}/sym.o")).status().unwrap().success();
    assert!(ok, "cannot build the native runtime");
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=symrt");
}
