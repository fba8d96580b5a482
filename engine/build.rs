fn main() {
    // the system libz3 (4.8.12); only its C API is used
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
}
