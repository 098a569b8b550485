//! C10, C11: numbers and bracket expressions as arbitrary text.
use super::{util::*, vx};
use tiny_spice::bracket_expression::{extract_expression, extract_value, Expression};
harness!(c10_number, c10_number_long, c10_junk, c10_junk_long, c10_utf8, c11_expr, c11_junk);

/// what the text denotes: Some(Some(x)) the number x, Some(None) no number, None unspecified
fn spec(b: &[u8]) -> Option<Option<f64>> {
    let n = b.len();
    let dig = |i: usize| i < n && b[i] >= b'0' && b[i] <= b'9';
    let letter = |i: usize| (b[i] >= b'a' && b[i] <= b'z') || (b[i] >= b'A' && b[i] <= b'Z');
    let mut i = 0;
    let mut neg = false;
    if i < n && (b[i] == b'+' || b[i] == b'-') { neg = b[i] == b'-'; i += 1; }
    if !dig(i) { return if i < n && b[i] == b'.' && i > 0 { None } else { Some(None) }; }
    let mut x = 0.0;
    while dig(i) { x = x * 10.0 + (b[i] - b'0') as f64; i += 1; }
    if i < n && b[i] == b'.' {
        i += 1;
        let mut w = 0.1;
        while dig(i) { x += (b[i] - b'0') as f64 * w; w = w / 10.0; i += 1; }
    }
    if neg { x = -x; }
    if i == n { return Some(Some(x)); }
    let m = match b[i] { b'k' => 1e3, b'm' => 1e-3, b'u' => 1e-6, b'n' => 1e-9, b'p' => 1e-12, _ => 0.0 };
    if m != 0.0 {
        for j in i + 1..n { if !letter(j) { return None; } }
        return Some(Some(x * m));
    }
    if b[i] == b'e' {
        i += 1;
        let mut en = false;
        if i < n && (b[i] == b'+' || b[i] == b'-') { en = b[i] == b'-'; i += 1; }
        if !dig(i) { return None; }
        let mut e = 0u32;
        if dig(i + 1) && dig(i + 2) { return None; }
        while dig(i) { e = e * 10 + (b[i] - b'0') as u32; i += 1; if e > 19 { return None; } }
        if i != n { return None; }
        let mut s = 1.0;
        let mut j = 0;
        while j < e { s *= 10.0; j += 1; }
        return Some(Some(if en { x / s } else { x * s }));
    }
    // a plain number with unit letters
    for j in i..n { if !letter(j) { return None; } }
    Some(Some(x))
}
pub fn c10_number() { number(7) }
fn number(lens: u64) {
    let n = vx::choice("len", lens) as usize;
    let b = ascii("c", n);
    let want = spec(&b);
    if want.is_none() { vx::reach("unspecified"); vx::reach("end"); return; }
    let got = extract_value(text(&b));
    match want {
        None => {}
        Some(None) => { vx::check(got.is_none(), "text that does not start like a number is rejected"); vx::reach("rejected"); }
        Some(Some(x)) => {
            vx::check(got.is_some(), "a number is accepted");
            vx::close(got.unwrap(), x, 0.0, "the number has its value");
            vx::reach("accepted");
        }
    }
    vx::reach("end");
}
/// any ASCII text: no panic (an assertion that cannot fail keeps the count honest)
pub fn c10_junk() { junk(7) }
pub fn c10_junk_long() { junk(10) }
pub fn c10_number_long() { number(9) }
fn junk(lens: u64) {
    let n = vx::choice("len", lens) as usize;
    let b = ascii("c", n);
    let r = extract_value(text(&b));
    if let Some(x) = r { vx::check(!x.is_nan(), "never NaN"); vx::reach("value"); } else { vx::check(true, "none"); vx::reach("none"); }
    vx::reach("end");
}
/// any valid UTF-8 of up to two characters after a short prefix
pub fn c10_utf8() {
    let pre = ["", "1", "1.", "-", "1e", "1k"][vx::choice("prefix", 6) as usize];
    let mut v = pre.as_bytes().to_vec();
    match vx::choice("shape", 2) {
        0 => { let (a, b) = (vx::byte("u0"), vx::byte("u1")); vx::assume(a >= 0xc2 && a < 0xe0 && b >= 0x80 && b < 0xc0); v.push(a); v.push(b); }
        _ => { let (a, b, c) = (vx::byte("u0"), vx::byte("u1"), vx::byte("u2")); vx::assume(a >= 0xe1 && a <= 0xec && b >= 0x80 && b < 0xc0 && c >= 0x80 && c < 0xc0); v.push(a); v.push(b); v.push(c); }
    }
    let r = extract_value(text(&v));
    let e = extract_expression(text(&v));
    match pre { "" | "-" => vx::check(r.is_none(), "not a number"), _ => vx::check(true, "no panic") }
    let _ = e;
    vx::reach("end");
}
pub fn c11_expr() {
    // {blanks ident blanks}
    let (l, k, r) = (vx::choice("left", 3) as usize, vx::choice("len", 4) as usize + 1, vx::choice("right", 3) as usize);
    let mut v = vec![b'{'];
    for i in 0..l { let c = vx::byte(&name("l", i)); vx::assume(c == b' ' || c == b'\t'); v.push(c); }
    let s = v.len();
    for i in 0..k {
        let c = vx::byte(&name("i", i));
        vx::assume((c >= b'a' && c <= b'z') || (c >= b'A' && c <= b'Z') || (c >= b'0' && c <= b'9'));
        v.push(c);
    }
    for i in 0..r { let c = vx::byte(&name("r", i)); vx::assume(c == b' ' || c == b'\t'); v.push(c); }
    v.push(b'}');
    match extract_expression(text(&v)) {
        Some(Expression::Identifier(s2)) => {
            vx::check(s2.len() == k, "the identifier keeps its length");
            let b = s2.as_bytes();
            let mut same = true;
            for i in 0..k { same &= b[i] == v[s + i]; }
            vx::check(same, "the identifier is the text between the braces");
        }
        _ => vx::check(false, "{ident} is an identifier"),
    }
    vx::reach("end");
}
fn is_ws(c: u8) -> bool { c == b' ' || (c >= 9 && c <= 13) }
fn alnum(c: u8) -> bool { (c >= b'a' && c <= b'z') || (c >= b'A' && c <= b'Z') || (c >= b'0' && c <= b'9') }
/// arbitrary text after an opening brace, and arbitrary text without one
pub fn c11_junk() {
    let n = vx::choice("len", 7) as usize;
    let brace = vx::choice("brace", 2) == 1;
    let b = ascii("c", n);
    if !brace {
        if n > 0 { vx::assume(b[0] != b'{'); }
        let e = extract_expression(text(&b));
        let x = extract_value(text(&b));
        match (e, x) {
            (Some(Expression::Literal(p)), Some(q)) => { vx::close(p, q, 0.0, "a literal is read as a number"); vx::reach("literal"); }
            (None, None) => { vx::check(true, "rejected"); vx::reach("rejected"); }
            _ => vx::check(false, "without a brace the expression is the number or nothing"),
        }
    } else {
        let mut v = vec![b'{'];
        v.extend_from_slice(&b);
        let e = extract_expression(text(&v));
        let mut i = 0;
        while i < n && is_ws(b[i]) { i += 1; }
        let s = i;
        while i < n && alnum(b[i]) { i += 1; }
        let t = i;
        while i < n && is_ws(b[i]) { i += 1; }
        let good = i < n && b[i] == b'}' && t > s;
        let rest = i + 1 < n;
        match e {
            Some(Expression::Identifier(id)) => {
                vx::check(good, "only {ident} is accepted");
                vx::check(id.len() == t - s, "whole identifier");
                vx::reach("ident");
            }
            Some(Expression::Literal(_)) => vx::check(false, "a brace never starts a literal"),
            None => { vx::check(!good || rest, "{ident} is accepted"); vx::reach("brace rejected"); }
        }
    }
    vx::reach("end");
}
