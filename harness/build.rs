use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let ok = Command::new("cc").args(["-O1", "-c", "rt.c", "-o"]).arg(format!("{out}/rt.o")).status().unwrap().success()
        && Command::new("ar").arg("crs").arg(format!("{out}/libsymrt.a")).arg(format!("{out}/rt.o")).status().unwrap().success();
    assert!(ok);
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=symrt");
    println!("cargo:rerun-if-changed=rt.c");
}
