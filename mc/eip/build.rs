// The repository's own source at tiny parameters: rust_eth_kzg_<blob>x<cell>.
fn main() {
    let name = std::env::var("CARGO_PKG_NAME").unwrap();
    let (n, l) = name.rsplit('_').next().unwrap().split_once('x').unwrap();
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-check-cfg=cfg(mc_small)");
    println!("cargo:rustc-cfg=mc_small");
    println!("cargo:rustc-env=MC_BLOB={n}");
    println!("cargo:rustc-env=MC_CELL={l}");
}
