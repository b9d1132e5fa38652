fn main() {
    // system libz3.so (package libz3-dev)
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
