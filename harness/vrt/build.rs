// Compiles the native side of the vrt_* interface. It stays a native object, so
// that in the LLVM IR the vrt_* symbols are external declarations, which the
// symbolic executor interprets itself.
use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=src/vrt.c");
    let ok = Command::new("gcc")
        .args(["-O1", "-fno-stack-protector", "-fno-builtin", "-c", "src/vrt.c", "-o"])
        .arg(format!("{}/vrt.o", out))
        .status()
        .unwrap()
        .success();
    assert!(ok);
    let _ = std::fs::remove_file(format!("{}/libvrtc.a", out));
    let ok = Command::new("ar").arg("crs").arg(format!("{}/libvrtc.a", out)).arg(format!("{}/vrt.o", out)).status().unwrap().success();
    assert!(ok);
    println!("cargo:rustc-link-search=native={}", out);
    println!("cargo:rustc-link-lib=static:-bundle=vrtc");
}
