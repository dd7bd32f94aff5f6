fn main() {
    println!("cargo:rustc-cfg=vp_win");
}
