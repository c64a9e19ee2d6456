fn main() {
    println!("cargo:rerun-if-changed=src/sched.c");
    cc::Build::new().file("src/sched.c").opt_level(2).flag("-fno-omit-frame-pointer").compile("mcsched");
    // the scheduler's own definitions come first
    println!("cargo:rustc-link-arg=-Wl,--export-dynamic");
}
