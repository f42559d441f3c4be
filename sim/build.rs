fn main() {
    println!("cargo:rerun-if-changed=rt.c");
    cc::Build::new().file("rt.c").opt_level(2).warnings(true).compile("simrt");
}
