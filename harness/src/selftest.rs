//! Harnesses that exercise the engine itself: known-true and known-false assertions.
use super::vx;
harness!(st_real, st_real_bad, st_fmt, st_bytes, st_bytes_bad, st_map);
fn st_real() {
    let (a, b) = (vx::real("a"), vx::real("b"));
    vx::assume(a > 0.0 && b > 0.0);
    let g = 1.0 / a + 1.0 / b;
    vx::close(1.0 / g, a * b / (a + b), 1.0, "parallel");
    vx::check(1.0 / g < a, "smaller");
    vx::reach("end");
}
fn st_real_bad() {
    let (a, b) = (vx::real("a"), vx::real("b"));
    vx::assume(a > 0.0 && b > 0.0);
    let g = 1.0 / a + 1.0 / b;
    vx::check(1.0 / g < 0.4 * a, "smaller");
    vx::reach("end");
}
fn st_fmt() {
    let a = vx::real("a");
    vx::assume(a > 1.0);
    let s = format!("x {} y", vx::carrier(a));
    let t: Vec<&str> = s.split_whitespace().collect();
    let b: f64 = t[1].parse().unwrap();
    vx::check(b > 1.0, "gt");
    vx::close(b, a, 0.0, "eq");
    println!("{}", b);
    vx::reach("end");
}
fn st_bytes() {
    let s: Vec<u8> = (0..3).map(|i| vx::byte(["b0", "b1", "b2"][i])).collect();
    for c in &s { vx::assume(*c < 128); }
    let t = std::str::from_utf8(&s).unwrap();
    let n = t.split_whitespace().count();
    vx::check(n <= 2, "count");
    vx::reach("end");
}
fn st_bytes_bad() {
    let s: Vec<u8> = (0..4).map(|i| vx::byte(["b0", "b1", "b2", "b3"][i])).collect();
    for c in &s { vx::assume(*c < 128); }
    let t = std::str::from_utf8(&s).unwrap();
    if let Ok(x) = t.parse::<i32>() { vx::check(x != 713, "not 713"); }
    vx::reach("end");
}
fn st_map() {
    let mut m = std::collections::HashMap::new();
    for i in 0..5usize { m.insert(format!("k{}", i), i); }
    let mut tot = 0;
    for (k, v) in &m { tot += v; vx::check(k.len() == 2, "len"); }
    vx::check(tot == 10, "tot");
    vx::check(m.get("k3") == Some(&3), "get");
    vx::reach("end");
}
