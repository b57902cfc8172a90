fn main() {
    // std looks getrandom up with dlsym: export our definition.
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol=getrandom");
}
