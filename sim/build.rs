use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{}/simrt.o", out);
    let st = Command::new("gcc")
        .args(&["-O2", "-g", "-fPIC", "-fno-stack-protector", "-c", "rt/simrt.c", "-o", &o])
        .status()
        .expect("gcc");
    assert!(st.success());
    // Linked as an object so that its definitions take precedence for every library in the process.
    println!("cargo:rustc-link-arg-bins={}", o);
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rerun-if-changed=rt/simrt.c");
    println!("cargo:rerun-if-changed=build.rs");
}
