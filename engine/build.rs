fn main() {
    println!("cargo:rerun-if-env-changed=RSYM_Z3_DIR");
    println!("cargo:rerun-if-changed=build.rs");
    let cands = [
        std::env::var("RSYM_Z3_DIR").unwrap_or_default(),
        "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib".to_string(),
        "/usr/lib/x86_64-linux-gnu".to_string(),
    ];
    for c in cands {
        if !c.is_empty() && std::path::Path::new(&c).join("libz3.so").exists() {
            println!("cargo:rustc-link-search=native={}", c);
            println!("cargo:rustc-link-arg=-Wl,-rpath,{}", c);
            println!("cargo:rustc-env=RSYM_Z3_LIB={}/libz3.so", c);
            break;
        }
    }
    println!("cargo:rustc-link-lib=dylib=z3");
}
