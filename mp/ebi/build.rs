// The repository selects the portable code by `any(not(target_arch = "x86_64"), miri)`.
fn main() {
    println!("cargo::rustc-cfg=miri");
    println!("cargo::rerun-if-changed=build.rs");
}
