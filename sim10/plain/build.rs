fn main() {
    println!("cargo:rustc-cfg=parsegen_sim");
    println!("cargo:rerun-if-changed=build.rs");
}
