// The run-time part of the instrumented build (feature "cov"), see cost.c.
fn main() {
    println!("cargo:rerun-if-changed=cost.c");
    println!("cargo:rerun-if-changed=build.rs");
    if std::env::var_os("CARGO_FEATURE_COV").is_none() {
        return;
    }
    let o = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("cost.o");
    let s = std::process::Command::new("gcc")
        .args(["-O2", "-fno-builtin", "-fno-tree-loop-distribute-patterns", "-ffreestanding", "-fPIC", "-c", "cost.c", "-o"])
        .arg(&o)
        .status()
        .expect("gcc");
    assert!(s.success());
    println!("cargo:rustc-link-arg={}", o.display());
}
