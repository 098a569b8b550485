//! C15, C16, C17, C18, C19, C20, C23: what the text of a deck does and does not influence, files, engines.
use super::{c_deck::*, c_tran::{tran, wave}, util::*, vx};
use tiny_spice::analysis::{Configuration, Kind};
use tiny_spice::circuit::Circuit;
use tiny_spice::engine::Engine;
use tiny_spice::spice::Reader;
use tiny_spice::wavewriter::WaveWriter;
use std::path::Path;
harness!(c23_wide, c23_wide2, c15_title, c15_comment, c15_blank, c15_tail, c15_spaces, c15_source, c15_comment_long, c15_tail_long, c16_section, c16_names, c16_dir, c16_two, c16_noise,
    c17_tran, c17_last, c17_options, c17_unknown, c17_option_names, c17_go, c18_names, c18_alias, c18_rows, c18_digits, c18_tran,
    c19_reuse, c19_tran, c19_reread, c20_names, c20_utf8, c20_fields, c20_values, c20_structure, c20_dot, c20_lib,
    c23_one, c23_two, c23_nest, c23_param, c23_kinds, c23_lib, c23_waves, c23_one3, c23_two3, c23_nest3, c23_param3, c23_kinds3, c23_waves3, c23_kinds2);

const fn t(s: &'static str, x: f64) -> Val { Val::Txt(s, x) }
/// kind of analysis as a number
pub fn kind(c: &Configuration) -> u8 { match c.kind { None => 0, Some(Kind::DcOperatingPoint) => 1, Some(Kind::Transient) => 2, _ => 3 } }
/// the numbers of a configuration, in a fixed order
pub fn numbers(c: &Configuration) -> Vec<f64> {
    vec![c.GMIN, c.TDEGC, c.RELTOL, c.VNTOL, c.ABSTOL, c.ITL1 as f64, c.TSTART, c.TSTOP, c.TSTEP, c.FS, c.FT, c.RMIN, c.RMAX, c.ITL3 as f64, c.ITL4 as f64]
}
pub const RELTOL: usize = 2; pub const ABSTOL: usize = 4; pub const TSTART: usize = 6; pub const TSTOP: usize = 7; pub const TSTEP: usize = 8; pub const RMAX: usize = 12;
pub fn configured(c: &Configuration, k: u8, set: &[(usize, f64)]) {
    vx::check(kind(c) == k, "the analysis is the one the deck asks for");
    let mut want = numbers(&Configuration::new());
    for (i, x) in set { want[*i] = *x; }
    for (i, (g, w)) in numbers(c).iter().zip(&want).enumerate() {
        let n = ["GMIN", "TDEGC", "RELTOL", "VNTOL", "ABSTOL", "ITL1", "TSTART", "TSTOP", "TSTEP", "FS", "FT", "RMIN", "RMAX", "ITL3", "ITL4"][i];
        if vx::is_zero(*g - *w) { vx::check(true, n); } else { vx::close(*g, *w, 0.0, n); }
    }
}

// ---------------------------------------------------------------- C15
pub const LINES: [&str; 17] = ["title", "V1 in 0 2", "V2 s 0 SIN(1 2 3)", "V3 q 0 PWL(0, 1, 2, 3)", "E1 e 0 s in 2", "G1 e 0 s 0 3", "R1 in out 1k", "X1 out 0 cell c=4", ".subckt cell a b c=5", "C1 a b {c}", "R2 a i 3", ".ends", "D1 out in", ".control", "option RELTOL = 0.5", "tran 1 7 2", ".endc"];
pub fn lines() -> Vec<Vec<u8>> { LINES.iter().map(|l| l.as_bytes().to_vec()).collect() }
fn base() -> Deck {
    let mut d = Deck::new();
    d.subs.push(sub("cell", &[b"a", b"b"], &[(b"c", 5.0)], vec![dev("C1", &[b"a", b"b"], &[Val::Id(nm("c"))]), dev("R2", &[b"a", b"i"], &[t("3", 3.0)])]));
    d.subs[0].cards = vec![dev("V1", &[b"in", b"0"], &[t("2", 2.0)]), src('W', "V2", &[b"s", b"0"], &[t("1", 1.0), t("2", 2.0), t("3", 3.0)]), src('P', "V3", &[b"q", b"0"], &[t("0", 0.0), t("1", 1.0), t("2", 2.0), t("3", 3.0)]),
        dev("E1", &[b"e", b"0", b"s", b"in"], &[t("2", 2.0)]), dev("G1", &[b"e", b"0", b"s", b"0"], &[t("3", 3.0)]), dev("R1", &[b"in", b"out"], &[t("1k", 1000.0)]), inst("X1", &[b"out", b"0"], 1, &[(b"c", t("4", 4.0))]), dev("D1", &[b"out", b"in"], &[])];
    d
}
pub fn unchanged(l: &[Vec<u8>]) {
    let d = read_b(&l.join(&b'\n'));
    vx::check(!d.errors, "a good deck");
    base().flat().compare(&d.flat());
    configured(&d.cfg(), 2, &[(RELTOL, 0.5), (TSTEP, 1.0), (TSTOP, 7.0), (TSTART, 2.0)]);
    vx::reach("end");
}
/// any byte of a line
pub fn any_text(p: &str, n: usize) -> Vec<u8> {
    let v = ascii(p, n);
    for b in &v { vx::assume(*b != b'\n'); }
    v
}
pub fn white(p: &str) -> u8 { let b = vx::byte(p); vx::assume((b == b' ') | (b == b'\t') | (b == 11) | (b == 12) | (b == b'\r')); b }
pub fn blanks(p: &str, n: usize) -> Vec<u8> { (0..n).map(|i| white(&name(p, i))).collect() }
/// an arbitrary first line
pub fn c15_title() {
    let n = [0, 1, 2, 4, 9, 14][vx::choice("len", 6) as usize];
    let mut l = lines();
    l[0] = any_text("t", n);
    unchanged(&l);
}
/// an arbitrary comment line anywhere
fn comment(n: usize) {
    let w = vx::choice("where", 2 * LINES.len() as u64) as usize;
    let mut l = lines();
    let mut c = blanks("w", w & 1);
    c.push(b'*');
    c.extend_from_slice(&any_text("t", n));
    l.insert(1 + w / 2, c);
    unchanged(&l);
}
pub fn c15_comment() { comment(3); }
pub fn c15_comment_long() { comment(6); }
/// a blank line, or one with nothing but a comment
pub fn c15_blank() {
    let w = vx::choice("where", 3 * LINES.len() as u64) as usize;
    let mut l = lines();
    let mut c = blanks("w", w % 3);
    if vx::choice("comment", 2) == 1 { c.push(b';'); c.extend_from_slice(&any_text("t", 1)); }
    l.insert(1 + w / 3, c);
    unchanged(&l);
}
/// an arbitrary comment behind any line
fn tail(n: usize) {
    let w = vx::choice("where", 2 * LINES.len() as u64 - 2) as usize;
    let mut l = lines();
    let i = 1 + w / 2;
    let b = blanks("w", w & 1);
    l[i].extend_from_slice(&b);
    l[i].push(b';');
    l[i].extend_from_slice(&any_text("t", n));
    unchanged(&l);
}
pub fn c15_tail() { tail(3); }
pub fn c15_tail_long() { tail(8); }
/// any white space around and between the fields of any line
pub fn c15_spaces() {
    let w = vx::choice("where", 2 * LINES.len() as u64 - 2) as usize;
    let i = 1 + w / 2;
    let k = 1 + (w & 1);
    let mut l = lines();
    let mut o = if k == 1 { vec![] } else { blanks("lead", 2) };
    for (j, b) in LINES[i].as_bytes().iter().enumerate() {
        if *b == b' ' { for m in 0..k { o.push(white(&format!("w{}_{}", j, m))); } } else { o.push(*b); }
    }
    o.extend_from_slice(&blanks("end", 3 - k));
    l[i] = o;
    unchanged(&l);
}
/// any white space within the parentheses of a source
pub fn c15_source() {
    let w = vx::choice("where", 24) as usize;
    let (n, at) = (1 + w % 2, w / 2);
    // the places where white space may stand, and the line around them
    let (i, parts): (usize, &[&str]) = if at < 8 { (3, &["V3 q 0 PWL(", "0", ",", "1", ",", "2", ",", "3", ")"]) } else { (2, &["V2 s 0 SIN(", "1", " 2", " 3", ")"]) };
    let at = if at < 8 { at } else { at - 8 };
    let mut o = vec![];
    for (j, p) in parts.iter().enumerate() {
        o.extend_from_slice(p.as_bytes());
        if j == at { o.extend_from_slice(&blanks("w", n)); }
        // and blanks elsewhere, the other way round
        if i == 3 && j + 1 < parts.len() && (j + at) % 3 == 1 { o.push(b' '); }
    }
    let mut l = lines();
    l[i] = o;
    unchanged(&l);
}

// ---------------------------------------------------------------- C16
/// a library: cards and sections in any order
const CELL: &str = ".subckt cell a b\nR1 a b 7\n.ends\n";
pub fn lib(parts: &[(&[u8], &str)]) -> Vec<u8> {
    let mut o = b"* a library\n".to_vec();
    for (n, body) in parts {
        if n.is_empty() { o.extend_from_slice(body.as_bytes()); continue; }
        o.extend_from_slice(b".lib ");
        o.extend_from_slice(n);
        o.push(b'\n');
        o.extend_from_slice(body.as_bytes());
        o.extend_from_slice(b".endl\n");
    }
    o
}
pub fn with(cards: Vec<Card>) -> Deck {
    let mut d = Deck::new();
    d.subs.push(sub("cell", &[b"a", b"b"], &[], vec![dev("R1", &[b"a", b"b"], &[t("7", 7.0)])]));
    d.subs[0].cards = cards;
    d
}
pub fn read_at(path: &str) -> (Reader, bool) { let mut r = Reader::new(); let e = r.read(Path::new(path)); (r, e) }
fn deck_with(before: &str, file: &str, sec: &[u8], after: &str) -> Vec<u8> {
    [b"title\n", before.as_bytes(), b".lib ", file.as_bytes(), b" ", sec, b"\n", after.as_bytes()].concat()
}
/// which of two sections, with cards around them
pub fn c16_section() {
    let w = vx::choice("which", 4) as usize;
    let x = values("x", 4);
    let (ra, rb, out) = (format!("R1 n m {}\nC1 n 0 {}\n", num(x[0]), num(x[1])), format!("R1 n m {}\nI1 m 0 {}\n", num(x[2]), num(x[3])), "R8 n m 1\nV9 m 0 1\n");
    let swap = w & 1 == 1;
    let a: (&[u8], &str) = (b"typ", &ra);
    let b: (&[u8], &str) = (b"fast", &rb);
    put("d/l.lib", &lib(&[(b"", out), if swap { b } else { a }, (b"", out), if swap { a } else { b }, (b"", out)]));
    let want: &[u8] = if w < 2 { b"typ" } else { b"fast" };
    put("d/deck.spi", &deck_with("R5 n 0 5\n", "l.lib", want, "R6 m 0 6\n.control\nop\n.endc\n"));
    let (r, e) = read_at("d/deck.spi");
    vx::check(!e, "a good deck");
    let mut cards = vec![dev("R5", &[b"n", b"0"], &[t("5", 5.0)]), dev("R6", &[b"m", b"0"], &[t("6", 6.0)])];
    if w < 2 { cards.push(dev("R1", &[b"n", b"m"], &[Val::Num(x[0])])); cards.push(dev("C1", &[b"n", b"0"], &[Val::Num(x[1])])); }
    else { cards.push(dev("R1", &[b"n", b"m"], &[Val::Num(x[2])])); cards.push(dev("I1", &[b"m", b"0"], &[Val::Num(x[3])])); }
    with(cards).flat().compare(&r.get_expanded_circuit());
    configured(r.configuration(), 1, &[]);
    vx::reach("end");
}
/// arbitrary section names; nothing of another section
pub fn c16_names() {
    let w = vx::choice("lengths", 5) as usize;
    let (i, j, k) = [(1, 1, 1), (1, 2, 1), (1, 2, 2), (2, 2, 2), (2, 1, 2)][w];
    let (a, b, want) = (sname("a", i), sname("b", j), sname("s", k));
    vx::assume(a != b);
    put("l.lib", &lib(&[(&a, "R1 n 0 1\n"), (b"", "R2 n 0 2\n"), (&b, "R3 n 0 3\n")]));
    put("deck.spi", &deck_with("", "l.lib", &want, "R4 n 0 4\n"));
    let (first, second) = (want == a, want == b);
    // a section that isn't there is fatal
    if !first && !second { vx::panic_ok(true); }
    let (r, e) = read_at("deck.spi");
    vx::check(first || second, "a missing section is not passed over in silence");
    vx::check(!e, "a good deck");
    let c = if first { dev("R1", &[b"n", b"0"], &[t("1", 1.0)]) } else { dev("R3", &[b"n", b"0"], &[t("3", 3.0)]) };
    with(vec![c, dev("R4", &[b"n", b"0"], &[t("4", 4.0)])]).flat().compare(&r.get_expanded_circuit());
    vx::reach(if first { "first" } else { "second" });
    vx::reach("end");
}
/// the file is looked for beside the deck, not in the working directory
pub fn c16_dir() {
    let w = vx::choice("where", 4) as usize;
    let x = values("x", 2);
    let good = format!("R1 n 0 {}\n{}", num(x[0]), CELL);
    let bad = format!("R1 n 0 {}\n", num(x[1]));
    let (deck, here, file, other) = [("p/deck.spi", "p/l.lib", "l.lib", "l.lib"), ("p/q/deck.spi", "p/q/m/l.lib", "m/l.lib", "m/l.lib"), ("deck.spi", "m/l.lib", "m/l.lib", "l.lib"), ("p/q/deck.spi", "p/l.lib", "../l.lib", "l.lib")][w];
    put(here, &lib(&[(b"s", &good)]));
    put(other, &if other == here { lib(&[(b"s", &good)]) } else { lib(&[(b"s", &bad)]) });
    put(deck, &deck_with("X1 n m cell\n", file, b"s", "X2 m 0 cell\n"));
    let (r, e) = read_at(deck);
    vx::check(!e, "a good deck");
    with(vec![inst("X1", &[b"n", b"m"], 1, &[]), dev("R1", &[b"n", b"0"], &[Val::Num(x[0])]), inst("X2", &[b"m", b"0"], 1, &[])]).flat().compare(&r.get_expanded_circuit());
    vx::reach("end");
}
/// two library cards, of the same file or two, with subcircuits
pub fn c16_two() {
    let w = vx::choice("which", 4) as usize;
    let x = values("x", 3);
    let (a, b) = (format!("R1 n 0 {}\n{}", num(x[0]), CELL), format!("C1 n m {}\nX1 n m cell\n", num(x[1])));
    let one = lib(&[(b"s", &a), (b"", "R9 n 0 9\n"), (b"t", &b)]);
    put("l.lib", &one);
    put("k.lib", &lib(&[(b"s", "R9 n 0 9\n"), (b"t", &b)]));
    let (f, s, g, u) = [("l.lib", "s", "l.lib", "t"), ("l.lib", "t", "l.lib", "s"), ("l.lib", "s", "k.lib", "t"), ("k.lib", "t", "l.lib", "s")][w];
    put("deck.spi", format!("title\nX0 m 0 cell\n.lib {} {}\nR2 n m {}\n.lib {} {}\n.subckt own a\nR1 a 0 8\n.ends\nX2 n own\n", f, s, num(x[2]), g, u).as_bytes());
    let (r, e) = read_at("deck.spi");
    vx::check(!e, "a good deck");
    let mut d = with(vec![dev("R1", &[b"n", b"0"], &[Val::Num(x[0])]), dev("C1", &[b"n", b"m"], &[Val::Num(x[1])]), inst("X1", &[b"n", b"m"], 1, &[]), inst("X0", &[b"m", b"0"], 1, &[]), dev("R2", &[b"n", b"m"], &[Val::Num(x[2])]), inst("X2", &[b"n"], 2, &[])]);
    d.subs.push(sub("own", &[b"a"], &[], vec![dev("R1", &[b"a", b"0"], &[t("8", 8.0)])]));
    d.flat().compare(&r.get_expanded_circuit());
    vx::reach("end");
}
/// arbitrary text outside of the section
pub fn c16_noise() {
    let w = vx::choice("where", 3) as usize;
    let mut noise = any_text("t", 4);
    for b in &noise { vx::assume(*b != b'.'); }
    noise.push(b'\n');
    let s = text(&noise);
    let p: Vec<(&[u8], &str)> = match w { 0 => vec![(b"", s), (b"s", "R1 n 0 1\n")], 1 => vec![(b"s", "R1 n 0 1\n"), (b"", s)], _ => vec![(b"o", s), (b"s", "R1 n 0 1\n"), (b"q", "R3 n 0 3\n")] };
    put("l.lib", &lib(&p));
    put("deck.spi", &deck_with("", "l.lib", b"s", "R4 n 0 4\n"));
    let (r, e) = read_at("deck.spi");
    vx::check(!e, "a good deck");
    with(vec![dev("R1", &[b"n", b"0"], &[t("1", 1.0)]), dev("R4", &[b"n", b"0"], &[t("4", 4.0)])]).flat().compare(&r.get_expanded_circuit());
    vx::reach("end");
}

// ---------------------------------------------------------------- C17
pub fn control(c: &[u8]) -> Configuration {
    let d = read_b(&[b"title\nR1 a 0 1\n.control\n", c, b".endc\nR2 a 0 2\n"].concat());
    vx::check(!d.errors, "a good deck");
    vx::check(d.flat().elements.len() == 2, "the cards around the control block are read");
    d.cfg()
}
/// one tran command with arbitrary numbers
pub fn c17_tran() {
    let w = vx::choice("which", 4);
    let x = values("x", 3);
    let start = w & 1 == 1;
    let mut s = format!("tran {} {}", num(x[0]), num(x[1]));
    if start { s += &format!(" {}", num(x[2])); }
    if w & 2 == 2 { s = format!("option ABSTOL = 1\n{}\noption RMAX = 3", s); }
    let c = control(format!("{}\n", s).as_bytes());
    let mut set = vec![(TSTEP, x[0]), (TSTOP, x[1])];
    if start { set.push((TSTART, x[2])); }
    if w & 2 == 2 { set.push((ABSTOL, 1.0)); set.push((RMAX, 3.0)); }
    configured(&c, 2, &set);
    vx::reach("end");
}
/// the last analysis command wins
pub fn c17_last() {
    let w = vx::choice("which", 6) as usize;
    let x = values("x", 6);
    let (a, b, c) = (format!("tran {} {}\n", num(x[0]), num(x[1])), format!("tran {} {} {}\n", num(x[2]), num(x[3]), num(x[4])), "op\n".to_string());
    let (s, k, set): (String, u8, Vec<(usize, f64)>) = match w {
        0 => (c.clone() + &a, 2, vec![(TSTEP, x[0]), (TSTOP, x[1])]),
        1 => (a.clone() + &b, 2, vec![(TSTEP, x[2]), (TSTOP, x[3]), (TSTART, x[4])]),
        2 => (b.clone() + &a, 2, vec![(TSTEP, x[0]), (TSTOP, x[1])]),
        3 => (a.clone() + &c, 1, vec![(TSTEP, x[0]), (TSTOP, x[1])]),
        4 => (c.clone(), 1, vec![]),
        _ => (String::new(), 0, vec![]),
    };
    configured(&control(s.as_bytes()), k, &set);
    vx::reach("end");
}
/// options in any order, repeated ones
pub fn c17_options() {
    let w = vx::choice("order", 27) as usize;
    let x = values("x", 3);
    let (mut s, mut set) = (String::new(), vec![]);
    let mut q = w;
    for i in 0..3 {
        let (n, k) = [("ABSTOL", ABSTOL), ("RELTOL", RELTOL), ("RMAX", RMAX)][q % 3];
        q /= 3;
        s += &format!("option {} = {}\n", n, num(x[i]));
        set.push((k, x[i]));
    }
    configured(&control(s.as_bytes()), 0, &set);
    vx::reach("end");
}
/// commands of arbitrary letters
pub fn c17_unknown() {
    let w = vx::choice("which", 6) as usize;
    let v = sname("c", 1 + w / 2);
    let mut s = v.clone();
    if w & 1 == 1 { s.extend_from_slice(b" 0.5 1 2"); }
    s.push(b'\n');
    let op = v == b"op";
    configured(&control(&s), op as u8, &[]);
    if op { vx::reach("op"); } else { vx::reach("unknown"); }
    vx::reach("end");
}
/// options of arbitrary names
pub fn c17_option_names() {
    let w = vx::choice("which", 8) as usize;
    let x = vx::real("x");
    let v = match w { 0 => sname("c", 4), 1 => [b"ABS", &sname("c", 3)[..]].concat(), 2 => [&sname("c", 3)[..], b"TOL"].concat(), 3 => sname("c", 2), 4 => [&sname("c", 2)[..], b"TOL"].concat(), 5 => sname("c", 3), 6 => [b"RELTOL", &sname("c", 1)[..]].concat(), _ => sname("c", 5) };
    let s = [b"option ", &v[..], b" = ", num(x).as_bytes(), b"\n"].concat();
    let k: Option<usize> = if v == b"RMAX" { Some(RMAX) } else if v == b"ABSTOL" { Some(ABSTOL) } else if v == b"RELTOL" { Some(RELTOL) } else { None };
    let c = control(&s);
    match k { Some(k) => { configured(&c, 0, &[(k, x)]); vx::reach("known"); } None => configured(&c, 0, &[]) }
    vx::reach("end");
}
/// what is run is what the deck asks for
pub fn c17_go() {
    let w = vx::choice("which", 3) as usize;
    let x = vx::real("x");
    let d = read(&format!("title\nI1 0 a {}\nR1 a 0 1\n.control\n{}\n.endc\n", num(x), ["op", "tran 1 2", ""][w]));
    let mut cfg = d.cfg();
    cfg.set_wavefile("w.dat");
    cfg.ITL1 = 1;
    cfg.RELTOL = 1.0;
    let mut e = Engine::new();
    let s = e.go(&d.flat(), &cfg);
    match w {
        0 => { let s = s.expect("an analysis was run"); vx::check(matches!(s.kind, Kind::DcOperatingPoint), "op runs an operating point"); vx::close(e.dc().unwrap()[1], x, 0.0, "and solves it"); }
        1 => { let s = s.expect("an analysis was run"); vx::check(matches!(s.kind, Kind::Transient), "tran runs a transient"); vx::close(s.end, 2.0, 0.0, "to its stop time"); vx::check(wave("w.dat").rows.len() > 2, "and records it"); }
        _ => vx::check(s.is_none(), "nothing asked for, nothing run"),
    }
    vx::reach("end");
}

// ---------------------------------------------------------------- C18
fn same_text(a: &str, b: &[u8]) -> bool { a.as_bytes() == b }
/// header and units for arbitrary node names; every column holds what its header says
pub fn c18_names() {
    let w = vx::choice("which", 6) as usize;
    let (l, m) = [(1, 1), (2, 1), (3, 2)][w / 2];
    let (a, b) = (sname("a", l), sname("b", m));
    vx::assume(!ground(&a) && !ground(&b) && a != b);
    vx::assume(a != b"c" && b != b"c");
    let x = values("x", 3);
    // v(a) = x0, v(b) = x0 + x1, v(c) = x2
    let mut d = Deck::new();
    let mut cards = vec![dev("V1", &[&a, b"0"], &[Val::Num(x[0])]), dev("V2", &[&b, &a], &[Val::Num(x[1])]), dev("R1", &[b"c", b"0"], &[t("1", 1.0)]), dev("I1", &[b"gnd", b"c"], &[Val::Num(x[2])])];
    if w & 1 == 1 { cards.reverse(); }
    d.subs[0].cards = cards;
    let dk = read_b(&d.text(&[0]));
    vx::check(!dk.errors, "a good deck");
    let ck = dk.flat();
    let mut cfg = Configuration::new();
    cfg.set_transient(1.0, 1.0, 0.0);
    cfg.RELTOL = 1.0;
    cfg.FS = 1.0;
    let r = tran(&ck, &cfg);
    columns(&r.w, 4, 2);
    let f = |n: &[u8]| [b"v(", n, b")"].concat();
    let (fa, fb) = (f(&a), f(&b));
    for (i, h) in r.w.head.iter().enumerate().skip(1).take(4) {
        let want = if same_text(h, &fa) { x[0] } else if same_text(h, &fb) { x[0] + x[1] } else if h == "v(c)" { x[2] } else {
            vx::check(i == 1 && (h == "v(gnd)" || h == "v(0)" || h == "v(GND)"), "a column for every node, ground first");
            0.0
        };
        for k in 0..r.w.rows.len() { vx::close(r.w.rows[k][i], want, vx::PRINTED, "a column holds the node its header names"); }
    }
    // the branch currents: V1 carries -(V2's current) .. both feed nothing, so both are zero
    for k in 0..r.w.rows.len() { for i in 5..7 { vx::close(r.w.rows[k][i], 0.0, vx::PRINTED, "branch currents come last"); } }
    vx::reach("end");
}
pub fn columns(w: &super::c_tran::Wave, nodes: usize, srcs: usize) {
    let n = 1 + nodes + srcs;
    vx::check(w.head.len() == n, "one name per column");
    vx::check(w.unit.len() == n, "one unit per column");
    vx::check(w.head[0] == "Time" && w.unit[0] == "s", "time first");
    for i in 0..nodes {
        vx::check(w.head[1 + i].starts_with("v(") && w.head[1 + i].ends_with(')') && w.unit[1 + i] == "V", "then the voltages");
        for j in 0..i { vx::check(w.head[1 + i] != w.head[1 + j], "a name of its own for every column"); }
    }
    for i in 0..srcs { vx::check(w.head[1 + nodes + i] == format!("i({})", i) && w.unit[1 + nodes + i] == "A", "then the currents"); }
    for r in &w.rows { vx::check(r.len() == n, "one value per column in every row"); }
}
/// nodes of subcircuits: any of a node's names, but a name of that node
pub fn c18_alias() {
    let w = vx::choice("which", 4) as usize;
    let x = values("x", 2);
    let i = sname("i", 1);
    let p = letter("p");
    vx::assume(p != b"q" && i != b"q" && i != p);
    let mut d = Deck::new();
    d.subs.push(sub("s", &[&p, b"q"], &[], vec![dev("R1", &[&p, &i], &[t("1", 1.0)]), dev("R2", &[&i, b"q"], &[t("1", 1.0)]), dev("V1", &[&i, b"0"], &[Val::Num(x[1])])]));
    d.subs[0].cards = vec![inst("X1", &[b"a", b"b"], 1, &[]), dev("V1", &[b"a", b"0"], &[Val::Num(x[0])]), dev("R2", &[b"b", b"0"], &[t("1", 1.0)])];
    if w & 1 == 1 { d.subs[0].cards.reverse(); }
    vx::assume(!ground(&i));
    let dk = read_b(&d.text(if w & 2 == 0 { &[0, 1] } else { &[1, 0] }));
    let ck = dk.flat();
    let mut cfg = Configuration::new();
    cfg.set_transient(1.0, 1.0, 0.0);
    cfg.RELTOL = 1.0;
    cfg.FS = 1.0;
    let r = tran(&ck, &cfg);
    columns(&r.w, 4, 2);
    let f = |pre: &[u8], n: &[u8]| [b"v(", pre, n, b")"].concat();
    let (ap, ai, aq) = (f(b"X1.", &p), f(b"X1.", &i), f(b"X1.", b"q"));
    let mut seen = [0; 3];
    for k in 0..4 {
        let h = &r.w.head[1 + k];
        let (n, want) = if h == "v(a)" || same_text(h, &ap) { (0, x[0]) } else if same_text(h, &ai) { (1, x[1]) } else if h == "v(b)" || same_text(h, &aq) { (2, x[1] / 2.0) } else { vx::check(k == 0, "ground first"); continue };
        seen[n] += 1;
        for q in &r.w.rows { vx::close(q[1 + k], want, vx::PRINTED, "a column holds the node its header names"); }
    }
    vx::check(seen == [1, 1, 1], "every node has its column");
    vx::reach("end");
}
/// the rows are what the engine passed, in order
pub fn c18_rows() {
    let (n, m) = [(1, 0), (2, 1), (3, 0), (1, 3), (5, 2), (17, 3), (14, 13), (40, 1), (101, 0)][vx::choice("size", 9) as usize];
    // large ones: every value known but three
    let x: Vec<f64> = (0..n + m).map(|i| if n < 10 || i == 10 || i == 12 || i + 1 == n + m { nreal("x", i) } else { i as f64 + 0.5 }).collect();
    let (t0, t1) = (vx::real("t0"), vx::real("t1"));
    let lut = (0..n).map(|i| (i, name("n", i))).collect();
    let y: Vec<f64> = x.iter().rev().cloned().collect();
    {
        let mut w = WaveWriter::new("w.dat", &lut).unwrap();
        w.header(n, m);
        w.dump_vector(t0, &x);
        w.dump_vector(t1, &y);
    }
    let w = wave("w.dat");
    columns(&w, n, m);
    for i in 0..n { vx::check(w.head[1 + i] == format!("v(n{})", i), "node names in node order"); }
    vx::check(w.rows.len() == 2, "one row per point");
    let s = vx::PRINTED;
    vx::close(w.rows[0][0], t0, s, "time");
    vx::close(w.rows[1][0], t1, s, "time");
    for i in 0..n + m { vx::close(w.rows[0][1 + i], x[i], s, "value"); vx::close(w.rows[1][1 + i], y[i], s, "value"); }
    vx::reach("end");
}
/// nine decimals of concrete numbers (printing is not symbolic)
pub fn c18_digits() {
    let x = [0.123456789, -0.25, 1234.567891234, 1e-9, -3.999999999, 0.0, 5e-10, 1e6][vx::choice("number", 8) as usize];
    let lut = [(0, "gnd".to_string())].into_iter().collect();
    {
        let mut w = WaveWriter::new("w.dat", &lut).unwrap();
        w.header(1, 0);
        w.dump_vector(x * 2.0, &[x]);
    }
    let w = wave("w.dat");
    vx::check((w.rows[0][0] - 2.0 * x).abs() < 1.001e-9 && (w.rows[0][1] - x).abs() < 1.001e-9, "values keep nine decimals");
    vx::reach("end");
}
/// a whole transient: DC first, then every accepted point
pub fn c18_tran() {
    let w = vx::choice("which", 4) as usize;
    let x = values("x", 2);
    let mut ck = Circuit::new();
    let mut els: Vec<(char, Vec<usize>, Vec<f64>)> = vec![('V', vec![1, 0], vec![x[0]]), ('W', vec![2, 1], vec![x[1], 1.0, 0.25]), ('R', vec![2, 3], vec![1.0]), ('R', vec![3, 0], vec![3.0]), ('E', vec![4, 0, 3, 0], vec![2.0])];
    els.rotate_left(w);
    for e in &els { add(&mut ck, e.0, &e.1, &e.2); }
    let mut cfg = Configuration::new();
    cfg.set_transient(2.0, 1.0, 0.0);
    cfg.RELTOL = 1.0;
    cfg.FS = 1.0;
    cfg.RMAX = 1.0;
    let r = tran(&ck, &cfg);
    columns(&r.w, 5, 3);
    let s = vx::PRINTED;
    for (i, v) in r.dc.iter().enumerate() { vx::close(r.w.rows[0][1 + i], *v, s, "the first row is the DC operating point"); }
    vx::check(r.w.rows.len() == 3, "DC and two steps");
    for k in 0..3 {
        let q = &r.w.rows[k];
        vx::close(q[2], x[0], s, "v(1)");
        vx::close(q[5], 1.5 * q[3], s, "v(4)");
        vx::close(q[4], 0.75 * q[3], s, "v(3)");
        let els: Vec<El> = ck.elements.iter().map(el).collect();
        for e in &els {
            let want = match e.k { 'V' | 'W' => -(q[3] - q[4]), 'E' => 0.0, _ => continue };
            vx::close(q[1 + 5 + e.idx], want, s, "i(k) is the current of the k-th voltage-defined source");
        }
    }
    vx::reach("end");
}

// ---------------------------------------------------------------- C19
fn circuit(w: usize, x: &[f64]) -> (Circuit, Configuration) {
    let mut c = Circuit::new();
    let mut cfg = Configuration::new();
    cfg.RELTOL = 1.0;
    cfg.FS = 1.0;
    cfg.ITL1 = 1;
    cfg.ITL4 = 2;
    match w {
        0 => { add(&mut c, 'I', &[0, 1], &[x[0]]); add(&mut c, 'R', &[1, 2], &[2.0]); add(&mut c, 'R', &[2, 0], &[3.0]); }
        1 => { add(&mut c, 'V', &[1, 0], &[x[0]]); add(&mut c, 'R', &[1, 2], &[2.0]); add(&mut c, 'C', &[2, 0], &[3.0]); cfg.set_transient(2.0, 1.0, 0.0); }
        2 => { add(&mut c, 'I', &[0, 1], &[x[0]]); add(&mut c, 'R', &[1, 0], &[100.0]); add(&mut c, 'D', &[1, 0], &[1e-9, 27.0]); }
        3 => { add(&mut c, 'W', &[1, 0], &[x[0], x[1], 0.25]); add(&mut c, 'R', &[1, 2], &[2.0]); add(&mut c, 'E', &[3, 0, 2, 0], &[2.0]); add(&mut c, 'R', &[2, 3], &[1.0]); cfg.set_transient(1.0, 1.0, 0.0); }
        4 => { add(&mut c, 'P', &[1, 0], &[0.0, -1.0, 0.0, x[0], 4.0, x[1]]); add(&mut c, 'G', &[0, 2, 1, 0], &[2.0]); add(&mut c, 'R', &[2, 0], &[1.0]); add(&mut c, 'C', &[2, 0], &[0.5]); cfg.set_transient(1.0, 1.0, 0.0); }
        _ => { add(&mut c, 'S', &[0, 3], &[x[0], x[1], 0.25]); add(&mut c, 'R', &[3, 2], &[1.0]); add(&mut c, 'R', &[2, 1], &[1.0]); add(&mut c, 'C', &[1, 0], &[0.5]); add(&mut c, 'R', &[1, 0], &[1.0]); cfg.set_transient(1.0, 1.0, 0.0); }
    }
    for i in 0..c.count_nodes() { c.node_id_lut.insert(i, name("n", i)); }
    (c, cfg)
}
fn wants_tran(w: usize) -> bool { w == 1 || w >= 3 }
fn go(e: &mut Engine, w: usize, x: &[f64], file: &str, dc: bool) -> (usize, f64) {
    let (c, mut cfg) = circuit(w, x);
    cfg.set_wavefile(file);
    let s = if dc || !wants_tran(w) { e.dc_operating_point(&c, &cfg) } else { e.transient_analysis(&c, &cfg) };
    (s.iterations, s.end)
}
fn reuse(a: usize, b: usize, dc_a: bool, dc_b: bool) {
    let (x, y) = ([vx::real("x0"), vx::real("x1")], [vx::real("y0"), vx::real("y1")]);
    let mut fresh = Engine::new();
    let want = go(&mut fresh, b, &y, "fresh.dat", dc_b);
    let mut used = Engine::new();
    go(&mut used, a, &x, "again.dat", dc_a); // the second run overwrites the file
    let got = go(&mut used, b, &y, "again.dat", dc_b);
    vx::check(got.0 == want.0, "the same number of iterations");
    vx::close(got.1, want.1, 0.0, "the same end");
    if !dc_b && wants_tran(b) { same_waves("again.dat", "fresh.dat"); }
    let (p, q) = (used.dc().unwrap(), fresh.dc().unwrap());
    vx::check(p.len() == q.len(), "the same number of unknowns");
    for i in 0..p.len() { vx::close(p[i], q[i], 0.0, "the same operating point"); }
    vx::reach("end");
}
pub fn same_waves(a: &str, b: &str) {
    let (a, b) = (wave(a), wave(b));
    vx::check(a.head == b.head && a.unit == b.unit && a.rows.len() == b.rows.len(), "the same waveform");
    for (p, q) in a.rows.iter().zip(&b.rows) {
        vx::check(p.len() == q.len(), "the same waveform");
        for i in 0..p.len() { vx::close(p[i], q[i], 0.0, "the same waveform"); }
    }
}
/// an operating point after another analysis
pub fn c19_reuse() { let w = vx::choice("which", 36) as usize; reuse(w / 6, w % 6, w % 2 == 0, true); }
/// a transient after another analysis
pub fn c19_tran() { let w = vx::choice("which", 24) as usize; reuse(w / 4, [1, 3, 4, 5][w % 4], w / 4 % 2 == 1, false); }
/// the same deck read twice
pub fn c19_reread() {
    let x = values("x", 3);
    let t = format!("title\nV1 a 0 {}\nX1 a b s r={}\nR2 b 0 2\n.subckt s p q r=1\nR1 p i {{r}}\nC1 i q {}\nR3 i q 1\n.ends\n.control\ntran 1 1\n.endc\n", num(x[0]), 3, num(x[2]));
    let mut o: Vec<(usize, f64)> = vec![];
    let mut e = Engine::new();
    for k in 0..2 {
        let d = read(&t);
        let mut cfg = d.cfg();
        cfg.RELTOL = 1.0;
        cfg.FS = 1.0;
        cfg.set_wavefile(["w0.dat", "w1.dat"][k]);
        let s = e.transient_analysis(&d.flat(), &cfg);
        o.push((s.iterations, s.end));
    }
    vx::check(o[0].0 == o[1].0, "the same number of iterations");
    vx::close(o[0].1, o[1].1, 0.0, "the same end");
    same_waves("w0.dat", "w1.dat");
    vx::reach("end");
}

// ---------------------------------------------------------------- C20
/// cards with a hole for a node name
const HOLES: [&str; 32] = ["R1 @ b 1", "R1 a @ 1", "C1 @ b 1", "C1 a @ 1", "D1 @ b", "D1 a @", "I1 @ b 1", "I1 a @ 1", "V1 @ b 1", "V1 a @ 1", "I1 @ b SIN(0 1 2)", "I1 a @ SIN(0 1 2)", "V1 @ b SIN(0 1 2)", "V1 a @ SIN(0 1 2)",
    "V1 @ b PWL(0, 1, 2, 3)", "V1 a @ PWL(0, 1, 2, 3)", "E1 @ b c d 1", "E1 a @ c d 1", "E1 a b @ d 1", "E1 a b c @ 1", "G1 @ b c d 1", "G1 a @ c d 1", "G1 a b @ d 1", "G1 a b c @ 1",
    "X1 @ b s", "X1 a @ s", "X1 a @ s r=3", "X1 a b s\nR1 @ 0 1", ".subckt o @ q\nR1 q 0 1\n.ends", ".subckt o p @\nR1 p 0 1\n.ends", ".subckt o p q r=2\nR1 @ p {r}\n.ends", ".subckt o p q\nI1 q @ 1\n.ends"];
fn hole(h: &str, fill: &[u8]) -> Vec<u8> {
    let mut o = b"title\nR9 a b 1\n".to_vec();
    for b in h.as_bytes() { if *b == b'@' { o.extend_from_slice(fill) } else { o.push(*b) } }
    o.extend_from_slice(b"\n.subckt s m n r=1\nR1 m n {r}\n.ends\nR8 a 0 8\n");
    o
}
/// one arbitrary character in a node name anywhere
pub fn c20_names() {
    let w = vx::choice("card", 64) as usize;
    let (w, pre) = (w / 2, w % 2 == 1);
    let b = vx::byte("b");
    vx::assume((b < 128) & (b > 32) & (b != b';') & (b != b'=') | (b < 9) | ((b > 13) & (b < 28)));
    let n = if pre { vec![b'n', b, b'2'] } else { vec![b, b'z'] };
    let good = ((b >= b'a') & (b <= b'z')) | ((b >= b'A') & (b <= b'Z')) | ((b >= b'0') & (b <= b'9')) | (b == b'_');
    let d = read_b(&hole(HOLES[w], &n));
    if good { vx::check(!d.errors, "a good node name is not an error"); vx::reach("good"); } else { vx::check(d.errors, "an ill-formed node name is reported"); vx::reach("bad"); }
    vx::reach("end");
}
/// a character outside ASCII in a node name anywhere
pub fn c20_utf8() {
    let w = vx::choice("card", 32) as usize;
    let (a, b) = (vx::byte("a"), vx::byte("b"));
    vx::assume((a >= 0xc3) & (a < 0xe0) & (b >= 0x80) & (b < 0xc0));
    let d = read_b(&hole(HOLES[w], &[b'n', a, b]));
    vx::check(d.errors, "an ill-formed node name is reported");
    vx::reach("end");
}
/// cards cut short: name, fields a complete one has
pub fn c20_fields() {
    const C: [&str; 11] = ["R1 a b 1", "C1 a b 1", "D1 a b", "I1 a b 1", "V1 a b 1", "E1 a b c d 1", "G1 a b c d 1", "V1 a b SIN(1 2 3)", "I1 a b SIN(1 2 3)", "V1 a b PWL(0, 1, 2, 3)", "V1 a b PWL(0 , 1 , 2 , 3)"];
    let w = vx::choice("card", 11) as usize;
    let k = 1 + vx::choice("fields", 10) as usize;
    let sub = vx::choice("inside", 2) == 1;
    let f: Vec<&str> = C[w].split(' ').collect();
    let (whole, k) = (k >= f.len(), k.min(f.len()));
    // node names are arbitrary
    let n = letter("n");
    let mut card: Vec<u8> = f[..k].join(" ").into_bytes();
    for i in 2..card.len() { if card[i] == b'a' { card[i] = n[0]; } }
    // a pattern of two numbers is a pattern of one point
    let fewer = (w == 10 && (k == 6 || k == 7)) || (w == 9 && k == 5);
    if fewer { vx::reach("end"); return; }
    let t = if sub { [b"title\nX1 s\n.subckt s\n", &card[..], b"\nR7 a b 1\n.ends\n"].concat() } else { [b"title\n", &card[..], b"\nR7 a b 1\n"].concat() };
    let d = read_b(&t);
    if whole { vx::check(!d.errors, "a complete card is not an error"); } else { vx::check(d.errors, "a card without all its terminals and values is reported"); }
    vx::reach("end");
}
/// arbitrary text where a value belongs
pub fn c20_values() {
    const C: [&str; 6] = ["R1 a b ", "C1 a 0 ", "I1 a b ", "V1 a b ", "E1 a b c d ", "G1 a b c 0 "];
    let w = vx::choice("card", 18) as usize;
    let v: Vec<u8> = (0..1 + w / 6 % 2).map(|i| vx::byte(&name("v", i))).collect();
    let w3 = w / 12 == 1;
    for b in &v { vx::assume((*b > 32) & (*b < 127) & (*b != b';') & (*b != b'{')); }
    let mut v = v;
    if w3 { v.insert(0, b'-'); }
    let digit = |b: u8| (b >= b'0') & (b <= b'9');
    let k = if (v[0] == b'-') | (v[0] == b'+') { 1 } else { 0 };
    let number = k < v.len() && digit(v[k]);
    let d = read_b(&[b"title\n", C[w % 6].as_bytes(), &v[..], b"\nR7 a b 1\n"].concat());
    if number {
        // digits followed by one of the scale letters, a dot or unit letters; other tails are unspecified
        let mut plain = true;
        for b in &v[k + 1..] { if !digit(*b) { plain = false; } }
        if plain { vx::check(!d.errors, "a number is not an error"); vx::reach("number"); }
    } else if !(v.len() > k && v[k] == b'.') { vx::check(d.errors, "a card without a value is reported"); vx::reach("no value"); }
    vx::reach("end");
}
/// definitions that do not fit together
pub fn c20_structure() {
    let w = vx::choice("which", 12) as usize;
    let n = letter("n");
    vx::assume(n != b"s");
    let q = text(&n).to_string();
    let (bad, body) = match w {
        0 => (true, format!(".subckt s a b\n.subckt {} c d\nR1 c d 1\n.ends\n.ends\n", q)),
        1 => (true, format!(".subckt s a b\nR1 a b 1\n.subckt {} c\nR1 c 0 1\n.ends\n", q)),
        2 => (true, format!("R1 {} 0 1\n.ends\n", q)),
        3 => (true, format!(".ends\nR1 {} 0 1\n", q)),
        4 => (true, format!(".subckt s a b\nR1 a {} 1\n.ends\n.ends\n", q)),
        5 => (true, format!(".subckt s a\nR1 a 0 1\n.ends s\nR1 {} 0 1\n.ends s\n", q)),
        6 => (false, format!(".subckt s a b\nR1 a b 1\n.ends\n.subckt {} c\nR1 c 0 1\n.ends\nX1 a b s\nX2 a {}\n", q, q)),
        7 => (false, format!(".subckt s a b\nR1 a {} 1\n.ends s\nX1 0 b s\n", q)),
        8 => (false, format!("X1 a b s\n.subckt {} c k=1\nX1 c 0 s\nC1 c 0 {{k}}\n.ends\n.subckt s a b\nR1 a b 1\n.ends\nX2 a {} k=2\n", q, q)),
        9 => (false, format!(".control\nop\n.endc\nR1 {} 0 1\n.control\n.endc\n", q)),
        10 => (true, format!(".subckt s a b\nR1 a b 1\n.ends\nX1 a b s\nV1 {} b\n", q)),
        _ => (false, format!("* .ends\nR1 {} 0 1 ; .ends\n.subckt s a b\nR1 a b 1\n*.ends\n.ends ; .ends\n", q)),
    };
    let d = read(&format!("title\nR9 a b 1\n{}R8 a b 1\n", body));
    if bad { vx::check(d.errors, "definitions that do not fit together are reported"); } else { vx::check(!d.errors, "a good deck"); }
    vx::reach("end");
}
/// dot-cards of arbitrary names
pub fn c20_dot() {
    let w = vx::choice("which", 6) as usize;
    let l: Vec<u8> = (0..1 + w / 2).map(|i| vx::byte(&name("d", i))).collect();
    for b in &l { vx::assume((*b > 32) & (*b < 127) & (*b != b';')); }
    vx::assume(l != b"lib");
    let mut c = [b".", &l[..]].concat();
    if w & 1 == 1 { c.extend_from_slice(b" x 1"); }
    let inside = vx::choice("inside", 2) == 1;
    let t = if inside { [b"title\n.subckt s a\nR1 a 0 1\n", &c[..], b"\n.ends\nX1 b s\n"].concat() } else { [b"title\nR1 a 0 1\n", &c[..], b"\nR8 a b 1\n"].concat() };
    let d = read_b(&t);
    vx::check(d.errors, "an unsupported dot-card is reported");
    vx::reach("end");
}
/// faults in a library count; faults in other sections don't
pub fn c20_lib() {
    let w = vx::choice("which", 4) as usize;
    let b = vx::byte("b");
    vx::assume((b > 32) & (b < 127) & (b != b';') & (b != b'.'));
    let good = ((b >= b'a') & (b <= b'z')) | ((b >= b'A') & (b <= b'Z')) | ((b >= b'0') & (b <= b'9')) | (b == b'_');
    let card = [b"R1 n", &[b][..], b" 0 1\n"].concat();
    let c = text(&card);
    let p: Vec<(&[u8], &str)> = match w { 0 => vec![(b"s", c)], 1 => vec![(b"r", c), (b"s", "R1 n 0 1\n")], 2 => vec![(b"s", "R1 n 0 1\n"), (b"r", c)], _ => vec![(b"", c), (b"s", "R1 n 0 1\n"), (b"", c)] };
    put("l.lib", &lib(&p));
    put("deck.spi", &deck_with("R7 n 0 7\n", "l.lib", b"s", "R4 n 0 4\n"));
    let (_, e) = read_at("deck.spi");
    if w == 0 && !good { vx::check(e, "a fault in the library section is reported"); } else { vx::check(!e, "what is not used is not a fault"); }
    vx::reach("end");
}

// ---------------------------------------------------------------- C23
/// Do the same thing again with the hashes of `m` keys of one table arbitrary (natively: with fresh random tables).
fn again(m: u64, f: &dyn Fn() -> Vec<String>) {
    vx::hash_record();
    let want = f();
    let n = vx::hash_picks(m);
    if vx::SYM {
        let p = vx::choice("keys", n.max(1));
        vx::hash_pick(p, m);
        let got = f();
        vx::check(got == want, "the same circuit, names and waveform under every hash function");
    } else {
        for _ in 0..400 { vx::check(f() == want, "the same circuit, names and waveform under every hash function"); }
    }
    vx::reach("end");
}
fn observe(ck: &Circuit, cfg: Option<&Configuration>) -> Vec<String> {
    let mut o: Vec<String> = vec![format!("{} {}", ck.count_nodes(), ck.count_voltage_sources())];
    for e in ck.elements.iter().map(el) { o.push(format!("{} {:?} {:?} {}", e.k, e.t, e.v, e.idx)); }
    for i in 0..ck.count_nodes() { o.push(ck.node_id_lut[&i].clone()); }
    if let Some(c) = cfg {
        let mut c = c.clone();
        c.set_wavefile("w.dat");
        let s = Engine::new().transient_analysis(ck, &c);
        o.push(format!("{}", s.iterations));
        o.push(std::fs::read_to_string("w.dat").unwrap());
    }
    o
}
const ONE: &str = "title\nX1 a b s\nR1 b 0 1\n.subckt s p q\nR1 p q 1\n.ends\n";
const TWO: &str = "title\nX1 a s\nX2 a s\n.subckt s p\nR1 p i 1\nR2 i gnd 1\n.ends\n";
const NEST: &str = "title\nX1 a 0 m\n.subckt m b c\nX1 b c s\n.ends\n.subckt s p q\nR1 p q 1\n.ends\n";
const PARAM: &str = "title\nX1 a s k=2 m=3\nV1 a 0 1\n.subckt s p k=4 m=5\nR1 p 0 {k}\nC1 p gnd {m}\n.ends\n";
const KINDS: &str = "title\nX1 a b s\nE1 b 0 c d 2\n.subckt s p q\nV1 p i 1\nI1 i q 2\nG1 p q i 0 3\n.ends\n";
const FEW: &str = "title\nX1 a s\nE1 b 0 a 0 2\n.subckt s p\nV1 p i 1\nG1 p 0 i gnd 3\n.ends\n";
const WAVES: &str = "title\nX1 a b s\nR1 b 0 1\nV1 a 0 1\n.subckt s p q\nR1 p i 1\nR2 i q 1\n.ends\n";
/// names that start or end like others, in tables of a dozen entries
const WIDE: &str = "title\nI1 0 out 1\nR1 out outside 5\nR2 outside 0 5\nR3 outside b 1\nR4 b xout 1\nR5 xout bb 1\nR6 bb out_1 1\nR7 out_1 OUT 1\nX1 out b s r=2\nX11 OUT xout s rr=3\n.subckt s out outs r=1 rr=4 R=5\nR1 out b {r}\nR2 b outs {rr}\nR3 bb outs {R}\nX1 bb t\n.ends\n.subckt t b\nR1 b 0 1\n.ends\n.subckt ss out outs\nR1 out outs 9\n.ends\n";
pub fn reread(m: u64, t: &str) { again(m, &|| { let d = read(t); let mut o = observe(&d.flat(), None); o.push(d.errors.to_string()); o }); }
/// one instance; two instances; nested instances; parameters; sources; a transient
pub fn c23_one() { reread(2, ONE); }
pub fn c23_wide() { reread(1, WIDE); }
pub fn c23_wide2() { reread(2, WIDE); }
pub fn c23_two() { reread(2, TWO); }
pub fn c23_nest() { reread(2, NEST); }
pub fn c23_param() { reread(2, PARAM); }
pub fn c23_kinds() { reread(2, FEW); }
pub fn c23_kinds2() { reread(2, KINDS); }
pub fn c23_one3() { reread(3, ONE); }
pub fn c23_two3() { reread(3, TWO); }
pub fn c23_nest3() { reread(3, NEST); }
pub fn c23_param3() { reread(3, PARAM); }
pub fn c23_kinds3() { reread(3, FEW); }
fn rerun(m: u64) { again(m, &|| { let d = read(WAVES); let mut c = d.cfg(); c.set_transient(1.0, 1.0, 0.0); c.FS = 1.0; c.RELTOL = 1.0; observe(&d.flat(), Some(&c)) }); }
pub fn c23_waves() { rerun(2); }
pub fn c23_waves3() { rerun(3); }
/// a library: sections, subcircuits, options
pub fn c23_lib() {
    again(2, &|| {
        put("l.lib", b"* lib\n.lib s\n.subckt u p\nR1 p 0 1\n.ends\nR2 x y 2\n.endl\n.lib r\n.subckt u p\nR1 p 0 3\n.ends\n.endl\n");
        put("deck.spi", b"title\nX1 y u\n.lib l.lib r\nV1 x 0 1\nX2 x t\n.subckt t p\nR1 p 0 7\n.ends\n.control\noption RELTOL = 0.5\noption ABSTOL = 0.25\noption RMAX = 2\ntran 1 2 3\n.endc\n");
        let (r, e) = read_at("deck.spi");
        let mut o = observe(&r.get_expanded_circuit(), None);
        o.push(e.to_string());
        o.push(format!("{} {:?}", kind(r.configuration()), numbers(r.configuration())));
        o
    });
}
