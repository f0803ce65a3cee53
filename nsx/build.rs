fn main() {
    // libz3 is only needed as a shared object; the FFI is hand written in src/z3.rs.
    println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
