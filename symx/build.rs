fn main() { println!("cargo:rustc-link-lib=dylib=gmp"); }
