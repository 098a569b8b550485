#![allow(dead_code, static_mut_refs)]
macro_rules! harness {
    ($($name:ident),* $(,)?) => {
        #[cfg(feature = "sym")]
        pub mod sym_entries { $( pub mod $name { #[no_mangle] pub extern "C" fn $name() { super::super::$name() } } )* }
        pub const ENTRIES: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}
pub mod vx;
pub mod util;
pub mod selftest;
pub mod stdlib;
pub mod c_big;
pub mod c_text;
pub mod c_units;
pub mod c_dc;
pub mod c_tran;
pub mod c_deck;
pub mod c_files;
pub mod c_more;
pub mod c_mix;
pub mod c_long;
#[cfg(not(feature = "sym"))]
pub fn table() -> &'static [(&'static str, fn())] {
    let mut v: Vec<(&'static str, fn())> = vec![];
    for t in [selftest::ENTRIES, stdlib::ENTRIES, c_text::ENTRIES, c_units::ENTRIES, c_dc::ENTRIES, c_tran::ENTRIES, c_deck::ENTRIES, c_files::ENTRIES, c_big::ENTRIES, c_more::ENTRIES, c_mix::ENTRIES, c_long::ENTRIES] { v.extend_from_slice(t); }
    Box::leak(v.into_boxed_slice())
}
