//! The harness interface. Under symx the functions are intercepted; natively they read a model file.
#![allow(dead_code)]

#[cfg(feature = "sym")]
mod imp {
    extern "C" {
        fn vx_f64(p: *const u8, n: usize) -> f64;
        fn vx_byte(p: *const u8, n: usize) -> u8;
        fn vx_u64(p: *const u8, n: usize) -> u64;
        fn vx_choice(p: *const u8, n: usize, k: u64) -> u64;
        fn vx_assume(c: bool);
        fn vx_assert(c: bool, p: *const u8, n: usize);
        fn vx_close(a: f64, b: f64, scale: f64, p: *const u8, n: usize);
        fn vx_reach(p: *const u8, n: usize);
        fn vx_panic_ok(c: bool);
        fn vx_carrier(x: f64) -> f64;
        fn vx_fork(c: bool) -> bool;
        fn vx_is_zero(x: f64) -> bool;
        fn vx_hash_record();
        fn vx_hash_picks(n: u64) -> u64;
        fn vx_hash_pick(k: u64, n: u64);
        fn vx_trace(p: *const u8, n: usize, x: f64);
    }
    pub fn real(s: &str) -> f64 { unsafe { vx_f64(s.as_ptr(), s.len()) } }
    pub fn byte(s: &str) -> u8 { unsafe { vx_byte(s.as_ptr(), s.len()) } }
    pub fn word(s: &str) -> u64 { unsafe { vx_u64(s.as_ptr(), s.len()) } }
    pub fn choice(s: &str, k: u64) -> u64 { unsafe { vx_choice(s.as_ptr(), s.len(), k) } }
    pub fn assume(c: bool) { unsafe { vx_assume(c) } }
    pub fn check(c: bool, s: &str) { unsafe { vx_assert(c, s.as_ptr(), s.len()) } }
    pub fn close(a: f64, b: f64, scale: f64, s: &str) { unsafe { vx_close(a, b, scale, s.as_ptr(), s.len()) } }
    pub fn reach(s: &str) { unsafe { vx_reach(s.as_ptr(), s.len()) } }
    pub fn panic_ok(c: bool) { unsafe { vx_panic_ok(c) } }
    pub fn carrier(x: f64) -> f64 { unsafe { vx_carrier(x) } }
    pub fn fork(c: bool) -> bool { unsafe { vx_fork(c) } }
    pub fn is_zero(x: f64) -> bool { unsafe { vx_is_zero(x) } }
    pub fn trace(s: &str, x: f64) { unsafe { vx_trace(s.as_ptr(), s.len(), x) } }
    pub fn hash_record() { unsafe { vx_hash_record() } }
    pub fn hash_picks(n: u64) -> u64 { unsafe { vx_hash_picks(n) } }
    pub fn hash_pick(k: u64, n: u64) { unsafe { vx_hash_pick(k, n) } }
    pub const SYM: bool = true;
    pub const PRINTED: f64 = 0.0;
}
#[cfg(not(feature = "sym"))]
mod imp {
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local! {
        static M: RefCell<(HashMap<String, Vec<String>>, HashMap<String, usize>)> = RefCell::new(Default::default());
    }
    pub fn load(text: &str) {
        M.with(|m| {
            let mut m = m.borrow_mut();
            for l in text.lines() {
                let mut it = l.split('\t');
                if let (Some(k), Some(v)) = (it.next(), it.next()) { m.0.entry(k.to_string()).or_default().push(v.to_string()); }
            }
        })
    }
    fn get(s: &str) -> Option<String> {
        M.with(|m| {
            let mut m = m.borrow_mut();
            let i = *m.1.get(s).unwrap_or(&0);
            m.1.insert(s.to_string(), i + 1);
            m.0.get(s).and_then(|v| v.get(i).or(v.last()).cloned())
        })
    }
    pub fn real(s: &str) -> f64 { let v = get(s).and_then(|v| v.parse().ok()).unwrap_or(0.0); println!("vx {} = {:e}", s, v); v }
    pub fn word(s: &str) -> u64 { let v = get(s).and_then(|v| v.parse().ok()).unwrap_or(0); println!("vx {} = {}", s, v); v }
    pub fn byte(s: &str) -> u8 { word(s) as u8 }
    pub fn choice(s: &str, k: u64) -> u64 { let v = word(s); if v < k { v } else { 0 } }
    pub fn assume(c: bool) { if !c { println!("vx assumption does not hold natively"); std::process::exit(7); } }
    pub fn check(c: bool, s: &str) { if !c { println!("vx ASSERTION VIOLATED: {}", s); std::process::exit(42); } }
    pub fn close(a: f64, b: f64, scale: f64, s: &str) {
        let tol = 1e-9 * (a.abs() + b.abs() + scale.abs());
        let ok = a == b || (a - b).abs() <= tol;
        if !ok { println!("vx ASSERTION VIOLATED: {} ({:e} vs {:e})", s, a, b); std::process::exit(42); }
    }
    pub fn reach(_: &str) {}
    pub fn panic_ok(c: bool) { PANIC_OK.store(c, std::sync::atomic::Ordering::SeqCst) }
    pub static PANIC_OK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    pub fn carrier(x: f64) -> f64 { x }
    pub fn fork(c: bool) -> bool { c }
    pub fn is_zero(x: f64) -> bool { x == 0.0 }
    pub fn trace(s: &str, x: f64) { println!("vx trace {} {:e}", s, x) }
    pub fn hash_record() {}
    pub fn hash_picks(_: u64) -> u64 { 0 }
    pub fn hash_pick(_: u64, _: u64) {}
    pub const SYM: bool = false;
    /// scale of values that went through nine decimals
    pub const PRINTED: f64 = 10.0;
}
pub use imp::*;

/// native entry: replay MODEL ENTRY [text the harness prints is kept]; exit 42 violated, 101 panicked, 7 assumption, 0 held
#[cfg(not(feature = "sym"))]
pub fn native_main(table: &[(&str, fn())]) {
    let a: Vec<String> = std::env::args().collect();
    let model = std::fs::read_to_string(&a[1]).expect("model file");
    let f = table.iter().find(|x| x.0 == a[2]).expect("no such harness").1;
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        imp::load(&model);
        if std::panic::catch_unwind(f).is_err() {
            println!("vx PANICKED");
            std::process::exit(if imp::PANIC_OK.load(std::sync::atomic::Ordering::SeqCst) { 0 } else { 101 });
        }
    });
    let _ = h.unwrap().join();
    println!("vx finished: every assertion held");
}
