// Native replay: runs one harness entry on the real build with the values of a solver model.
#[path = "../../src/lib.rs"]
mod h;
fn main() { h::vx::native_main(h::table()); }
