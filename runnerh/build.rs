fn main() {
    println!("cargo:rustc-link-arg=-Wl,-rpath,/usr/lib/llvm-18/lib");
    println!("cargo:rerun-if-changed=build.rs");
}
