fn main() {
    println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
    println!("cargo:rustc-link-lib=dylib:+verbatim=libmpfr.so.6");
    println!("cargo:rustc-link-lib=dylib:+verbatim=libgmp.so.10");
    println!("cargo:rerun-if-changed=build.rs");
}
