use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let st = Command::new("g++")
        .args(["-O2", "-std=c++11", "-w", "-fPIC", "-c", "cpp/msat.cc", "-o"])
        .arg(format!("{}/msat.o", out))
        .status()
        .expect("g++");
    assert!(st.success());
    let st = Command::new("ar")
        .args(["crs", &format!("{}/libmsat.a", out), &format!("{}/msat.o", out)])
        .status()
        .expect("ar");
    assert!(st.success());
    println!("cargo:rustc-link-search=native={}", out);
    println!("cargo:rustc-link-lib=static=msat");
    println!("cargo:rustc-link-search=native=/usr/lib");
    println!("cargo:rustc-link-lib=dylib=minisat");
    println!("cargo:rustc-link-lib=dylib=stdc++");
    println!("cargo:rerun-if-changed=cpp/msat.cc");
    println!("cargo:rerun-if-changed=build.rs");
}
