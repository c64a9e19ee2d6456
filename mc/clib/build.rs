// The header for cgo, from the C binding's source.
fn main() {
    println!("cargo:rustc-link-lib=m");
    println!("cargo:rerun-if-changed=/repo/bindings/c/src");
    println!("cargo:rerun-if-env-changed=MC_C_HEADER");
    if let Ok(out) = std::env::var("MC_C_HEADER") {
        cbindgen::Builder::new()
            .with_src("/repo/bindings/c/src/lib.rs")
            .with_language(cbindgen::Language::C)
            .generate()
            .expect("header")
            .write_to_file(out);
    }
}
