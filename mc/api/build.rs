// The C06 check observes the coefficients the verifier uses at the boundary to blst.
fn main() {
    for f in ["blst_p1s_mult_pippenger", "blst_p1_mult"] {
        println!("cargo:rustc-link-arg-bins=-Wl,--wrap={f}");
    }
    println!("cargo:rerun-if-changed=build.rs");
}
