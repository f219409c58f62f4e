fn main() {
    // libdav1d, and std's weak look-ups, must see the symbols simos.rs defines
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic");
    println!("cargo:rerun-if-changed=build.rs");
}
