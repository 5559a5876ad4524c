// Compiles the C side of the simulator without instrumentation.
use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let ok = Command::new("gcc").args(["-O2", "-fPIC", "-c", "shim.c", "-o"]).arg(format!("{out}/shim.o")).status().unwrap().success();
    assert!(ok);
    let ok = Command::new("ar").arg("rcs").arg(format!("{out}/libvsshim.a")).arg(format!("{out}/shim.o")).status().unwrap().success();
    assert!(ok);
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=vsshim");
    println!("cargo:rerun-if-changed=shim.c");
    println!("cargo:rerun-if-changed=build.rs");
}
