//! More histories, arrangements and sizes; mostly concrete structures with symbolic values.
use super::{c_deck::*, c_files::*, c_tran::*, util::*, vx};
use tiny_spice::analysis::Configuration;
use tiny_spice::circuit::Circuit;
use tiny_spice::engine::Engine;
use tiny_spice::wavewriter::WaveWriter;
harness!(c05_later, c05_crowd, c05_scaled, c06_small_rmax, c06_later, c07_scaled, c13_odd, c13_tall, c14_text, c15_library, c15_words, c15_pairs, c16_clash, c16_noted, c16_body, c17_text, c18_tiny, c18_lines, c18_wide,
    c19_pairs, c19_failed, c20_dot_long, c20_names_long, c20_brace, c20_twice, c21_values, c21_crowd, c22_many, c23_tail, c12_tail, c12_nested);

fn v(x: f64) -> Val { Val::Num(x) }
fn lut(c: &mut Circuit) { for i in 0..c.count_nodes() { c.node_id_lut.insert(i, name("n", i)); } }

// ---------------------------------------------------------------- C05, C06, C07
/// with a start time the analysis is the same: the later rows of the whole waveform
fn later(ck: &Circuit, cfg: &Configuration, start: f64) {
    let mut cfg = cfg.clone();
    cfg.TSTART = 0.0;
    let whole = tran(ck, &cfg);
    cfg.TSTART = start;
    let part = tran(ck, &cfg);
    let tol = |a: f64| if vx::SYM { 0.0 } else { a.abs() + 1.0 };
    let mut k = 1;
    for (i, r) in whole.w.rows.iter().enumerate() {
        if i > 0 && r[0] < start { continue; }
        if i == 0 { k = 0; }
        vx::check(k < part.w.rows.len(), "every accepted point from TSTART on is recorded");
        for j in 0..r.len() { vx::close(part.w.rows[k][j], r[j], tol(r[j]), "the points are those of the analysis without a start time"); }
        k += 1;
    }
    vx::check(k == part.w.rows.len(), "nothing else is recorded");
    vx::check(whole.iterations == part.iterations, "the same solves");
    vx::close(part.end, whole.end, tol(whole.end), "the same end");
    vx::reach("end");
}
/// growing steps and retried ones, a capacitor, any start time
pub fn c05_later() {
    let w = vx::choice("which", 4) as usize;
    let mut ck = Circuit::new();
    add(&mut ck, 'P', &[1, 0], &[0.0, -1.0, 0.0, vx::real("a"), 1.0, 2.0, 4.0, 5.0]);
    add(&mut ck, 'R', &[1, 2], &[1.0]);
    if w & 1 == 0 { add(&mut ck, 'C', &[2, 0], &[2.0]); } else { add(&mut ck, 'C', &[0, 2], &[0.5]); add(&mut ck, 'C', &[2, 1], &[1.0]); }
    let mut cfg = tcfg(1.0, 4.0, 0.0);
    cfg.RELTOL = 1.0;
    cfg.FS = [1.0, 0.25][w >> 1];
    cfg.RMAX = [1.0, 2.0][w >> 1];
    later(&ck, &cfg, between("start", 0.0, 4.0));
}
pub fn c06_later() {
    let w = vx::choice("which", 4) as usize;
    let mut cfg = tcfg([1.0, 0.25, 2.0, 1.0][w], [3.5, 1.5, 7.0, 2.0][w], 0.0);
    cfg.RELTOL = 1.0;
    cfg.FS = [1.0, 0.5, 2.0, 1.0][w];
    cfg.RMAX = [1.0, 4.0, 1.5, 3.0][w];
    if w == 3 { cfg.ITL4 = 1; cfg.ITL3 = 0; cfg.FT = 0.5; cfg.RMIN = 0.4; cfg.RELTOL = 0.25; cfg.VNTOL = 0.5; }
    let e = cfg.TSTOP;
    later(&probe(vx::real("vo"), 1.0, 0.125), &cfg, between("start", 0.0, e));
}
/// many capacitors
pub fn c05_crowd() {
    let n = [8usize, 14][vx::choice("nodes", 2) as usize];
    let how = vx::choice("shape", 3) as usize;
    let mut ck = Circuit::new();
    add(&mut ck, 'S', &[0, 1], &[vx::real("o"), vx::real("a"), 0.25]);
    for i in 1..=n {
        add(&mut ck, 'R', &[i, if how == 0 { 0 } else { i - 1 }], &[(1 + i % 3) as f64]);
        let c = (1 + i * i % 5) as f64;
        match how { 0 => add(&mut ck, 'C', &if i == n { [n, 1] } else { [i, i + 1] }, &[c]), 1 => add(&mut ck, 'C', &if i % 2 == 0 { [i, 0] } else { [0, i] }, &[c]), _ => { add(&mut ck, 'C', &[i, i * 3 % n], &[c]); add(&mut ck, 'C', &[0, i], &[1.0]); } }
    }
    let mut cfg = tcfg(1.0, 3.0, 0.0);
    calm(&mut cfg);
    let t = tran(&ck, &cfg);
    euler(&ck, n, &t, &ramp);
    vx::check(t.w.rows.len() == 4, "DC and three steps");
    vx::reach("end");
}
/// steps of other sizes than 1, grown and retried, small and large capacitors
pub fn c05_scaled() {
    let w = vx::choice("which", 6) as usize;
    let step = [1e-3, 64.0, 1e-6][w % 3];
    let mut ck = Circuit::new();
    add(&mut ck, 'P', &[1, 0], &[0.0, -1.0, 0.0, vx::real("a"), 16.0 * step, vx::real("b")]);
    add(&mut ck, 'R', &[1, 2], &[[10.0, 1e3][w / 3]]);
    add(&mut ck, 'C', &[2, 0], &[[step, step / 1e4][w / 3]]);
    let mut cfg = tcfg(step, 4.0 * step, 0.0);
    cfg.RELTOL = 1.0;
    cfg.FS = [0.5, 1.0][w / 3];
    cfg.RMAX = 2.0;
    let t = tran(&ck, &cfg);
    euler(&ck, 2, &t, &|_, e, x| if e.k == 'P' { e.pts[0].1 + (e.pts[1].1 - e.pts[0].1) * x / (16.0 * step) } else { e.v[0] });
    vx::check(t.w.rows.len() >= 4, "DC and steps");
    vx::reach("end");
}
/// RMAX below 1 and FS around it
pub fn c06_small_rmax() {
    let w = vx::choice("range", 3) as usize;
    let step = between("step", 0.5, 2.0);
    let mut cfg = tcfg(step, between("stop", 0.25, 1.5), 0.0);
    cfg.RELTOL = 1.0;
    cfg.RMAX = between("rmax", [0.6, 0.75, 0.9][w], [0.75, 0.9, 1.0][w]);
    cfg.FS = between("fs", 0.4, 1.0);
    let (vo, f) = (vx::real("vo"), vx::real("f"));
    let t = tran(&probe(vo, 2.0, f), &cfg);
    axis(&t, &cfg, &|x| at(vo, 2.0, f, x));
    if t.w.rows.len() >= 4 { vx::reach("three steps"); }
    vx::reach("end");
}
/// step control with steps of other sizes than 1: every limit is relative to TSTEP
pub fn c07_scaled() {
    let w = vx::choice("which", 8) as usize;
    let step = [0.125, 1e-3, 16.0, 4096.0][w / 2];
    let mut cfg = tcfg(step, 3.0 * step, 0.0);
    cfg.FS = 0.5;
    cfg.FT = 0.5;
    cfg.RMAX = 1.5;
    cfg.RMIN = 0.2;
    cfg.ITL4 = 1 + w % 2;
    cfg.ITL3 = 2 + w % 2;
    cfg.RELTOL = 0.0;
    cfg.VNTOL = 1.0;
    let s = between("slope", 0.25, 8.0);
    let mut ck = Circuit::new();
    add(&mut ck, 'P', &[1, 0], &[0.0, -1.0, 0.0, 0.0, step, 0.0, 5.0 * step, 4.0 * s]);
    add(&mut ck, 'R', &[1, 0], &[1.0]);
    cfg.ABSTOL = 1.0;
    follows(&ck, &cfg, 2, 1, &mut |x| { let y = if x <= step { 0.0 } else { s * (x - step) / step }; vec![y, -y] });
    vx::reach("end");
}

// ---------------------------------------------------------------- C12, C23
/// names that are tails and heads of others, at the top and in instances
const TAIL: &str = "title\nR2 my_output s_output 5\nR5 inner_output 0 7\nI1 0 output 1\nR1 output my_output 5\nR3 output_2 output 1\nR4 output_2 inner_output 1\nX1 my_output s_output cell\nX2 s_output output cell\nR6 s_output 0 3\n.subckt cell port_output my_output\nR3 my_output 0 4\nR1 port_output output 2\nR2 output my_output 3\n.ends\n";
fn tail_deck() -> Deck {
    let r = |i: usize, a: &str, b: &str, x: &'static str, y: f64| dev(&name("R", i), &[a.as_bytes(), b.as_bytes()], &[Val::Txt(x, y)]);
    let mut d = Deck::new();
    d.subs.push(sub("cell", &[b"port_output", b"output"], &[], vec![r(1, "port_output", "output", "2", 2.0), r(2, "output", "my_output", "3", 3.0), r(3, "my_output", "0", "4", 4.0)]));
    d.subs[0].cards = vec![dev("I1", &[b"0", b"output"], &[Val::Txt("1", 1.0)]), r(1, "output", "my_output", "5", 5.0), r(2, "my_output", "0", "5", 5.0), r(3, "output_2", "output", "1", 1.0), r(4, "output_2", "inner_output", "1", 1.0), r(5, "inner_output", "0", "7", 7.0),
        inst("X1", &[b"my_output", b"s_output"], 1, &[]), inst("X2", &[b"s_output", b"output"], 1, &[]), r(6, "s_output", "0", "3", 3.0)];
    d
}
pub fn c23_tail() { reread(1, TAIL); }
pub fn c12_tail() {
    let w = vx::choice("order", 9) as usize;
    let mut d = tail_deck();
    d.subs[0].cards.rotate_left(w);
    d.agrees(if w % 2 == 0 { &[0, 1] } else { &[1, 0] });
    vx::reach("end");
}
/// ground and shared names four levels down, an arbitrary name at every level
pub fn c12_nested() {
    let w = vx::choice("level", 4) as usize;
    let s = sname("s", 1);
    let mut d = Deck::new();
    for l in 1..=4usize {
        let g: &[u8] = [&b"0"[..], b"gnd", b"GND", b"0"][l - 1];
        let mut cards = vec![dev("R1", &[b"a", if w + 1 == l { &s } else { b"i" }], &[v(l as f64)]), dev("R2", &[b"i", g], &[v(10.0 + l as f64)]), dev("C1", &[if l % 2 == 0 { b"gnd" } else { b"GND" }, b"a"], &[v(20.0 + l as f64)])];
        if l > 1 { cards.push(inst("X1", &[b"i", g], l - 1, &[])); cards.push(inst("X2", &[if w + 1 == l { &s } else { b"i" }, b"b"], l - 1, &[])); }
        d.subs.push(sub(&name("lev", l), &[b"a", b"b"], &[], cards));
    }
    d.subs[0].cards = vec![inst("X1", &[b"i", b"0"], 4, &[]), dev("R1", &[b"i", b"a"], &[v(1.5)]), dev("R2", &[&s, b"GND"], &[v(2.5)])];
    d.agrees(&[0, 4, 3, 2, 1]);
    vx::reach("end");
}

// ---------------------------------------------------------------- C13, C14
/// definitions that are empty, unused, without ports, with unused ports, with an instance only
pub fn c13_odd() {
    let w = vx::choice("which", 8) as usize;
    let s = letter("s");
    let x = vx::real("x");
    let mut d = Deck::new();
    let r = |i: usize, a: &[u8], b: &[u8]| dev(&name("R", i), &[a, b], &[v(i as f64 + 1.0)]);
    d.subs.push(sub("leaf", &[b"a", b"b"], &[], vec![dev("R1", &[b"a", &s], &[v(x)])])); // port b unused (or s)
    let body = match w {
        0 => vec![],
        1 => vec![inst("X1", &[b"p", b"q"], 1, &[])],
        2 => vec![inst("X1", &[b"p", b"p"], 1, &[]), inst("X2", &[b"0", b"q"], 1, &[])],
        3 => vec![r(1, b"i", b"j"), r(2, b"j", b"0")], // neither port used
        4 => vec![r(1, b"q", b"q"), r(2, b"p", b"i"), r(3, b"i", b"0")], // a card on one net
        5 => vec![inst("X1", &[b"i", b"j"], 1, &[]), inst("X2", &[b"j", b"i"], 1, &[])],
        6 => vec![r(1, b"p", b"q")],
        _ => vec![dev("E1", &[b"p", b"0", b"p", b"q"], &[v(2.0)]), dev("G1", &[b"0", b"q", b"q", b"0"], &[v(3.0)]), dev("I1", &[b"0", b"0"], &[v(4.0)])],
    };
    d.subs.push(sub("odd", &[b"p", b"q"], &[], body));
    d.subs.push(sub("unused", &[b"p"], &[], vec![r(5, b"p", b"0"), inst("X1", &[b"p", b"u"], 2, &[])]));
    d.subs.push(sub("closed", &[], &[], vec![r(6, b"p", b"0"), r(7, b"p", b"gnd")]));
    d.subs[0].cards = vec![inst("X1", &[b"n", &s], 2, &[]), r(8, b"n", b"p"), inst("X2", &[b"p", b"0"], 2, &[]), inst("X3", &[b"n", b"n"], 2, &[]), inst("X4", &[], 4, &[])];
    if w == 6 { d.subs[0].cards.push(inst("X5", &[], 4, &[])); }
    d.agrees([&[0, 1, 2, 3, 4], &[4, 3, 2, 1, 0], &[2, 1, 0, 4, 3]][w % 3]);
    vx::reach("end");
}
/// a dozen levels, two dozen definitions
pub fn c13_tall() {
    let w = vx::choice("shape", 3) as usize;
    let x = values("x", 2);
    let s = letter("s");
    let mut d = Deck::new();
    let n = [12usize, 24, 9][w];
    for l in 1..=n {
        let mut cards = vec![dev("R1", &[b"a", if l == n / 2 { &s } else { b"i" }], &[v(l as f64)])];
        let below = match w { 0 => l - 1, 1 => if l % 6 == 1 { 0 } else { l - 1 }, _ => if l > 2 { l - 1 } else { 0 } };
        if below > 0 { cards.push(inst("X1", &[b"i", b"b"], below, &[])); if w == 2 && l % 4 == 0 { cards.push(inst("X2", &[b"b", b"i"], l - 2, &[])); } } else { cards.push(dev("C1", &[b"i", b"b"], &[v(x[0])])); }
        d.subs.push(sub(&name("d", l), &[b"a", b"b"], &[], cards));
    }
    let mut cards = vec![dev("R1", &[b"n", b"0"], &[v(x[1])])];
    for l in if w == 1 { vec![6usize, 12, 18, 24, 3, 20] } else { vec![n, 2] } { cards.push(inst(&name("X", l), &[b"n", if l % 2 == 0 { b"m" } else { b"0" }], l, &[])); }
    d.subs[0].cards = cards;
    let mut o: Vec<usize> = (0..=n).collect();
    if w != 1 { o.reverse(); } else { o.rotate_left(9); }
    d.agrees(&o);
    vx::reach("end");
}
/// defaults and overrides in every notation for numbers
pub fn c14_text() {
    const T: [(&str, f64); 16] = [("1k", 1e3), ("-3", -3.0), ("2.5m", 2.5e-3), ("10u", 1e-5), ("0", 0.0), ("4.7nF", 4.7e-9), ("1e3", 1e3), ("-1.5e-6", -1.5e-6), ("100pF", 1e-10), ("007", 7.0), ("0.0", 0.0), ("12345678", 12345678.0), ("1000000k", 1e9), ("+5", 5.0), ("2Ohm", 2.0), ("3e0", 3.0)];
    let w = vx::choice("text", 16) as usize;
    let how = vx::choice("place", 5) as usize;
    let x = values("x", 2);
    let (s, y) = T[w];
    vx::assume(x[0] != y && x[1] != y);
    let (def, over, card) = match how { 0 => (s.to_string(), num(x[0]), "{r}".to_string()), 1 => (num(x[0]), s.to_string(), "{r}".to_string()), 2 => (num(x[0]), num(x[1]), s.to_string()), 3 => (s.to_string(), s.to_string(), "{r}".to_string()), _ => (num(x[0]), "{q}".to_string(), "{r}".to_string()) };
    let t = format!("title\nX1 n m\nX2 n m r={}\nX3 n m q={}\n.subckt m a q={}\nR2 a 0 3\nX1 a s r={}\nX2 a s\n.ends\n.subckt s a r={}\nR1 a 0 {}\n.ends\n", "5", s, s, over, def, card);
    let (d, o) = (match how { 0 | 3 => y, _ => x[0] }, match how { 0 => x[0], 2 => x[1], _ => y });
    let r = read(&t);
    vx::check(!r.errors, "a good deck");
    let mut want = vec![];
    for _ in 0..3 { want.push(3.0); if how == 2 { want.push(y); want.push(y); } else { want.push(o); want.push(d); } }
    let mut got: Vec<f64> = r.flat().elements.iter().map(el).map(|e| e.v[0]).collect();
    vx::check(got.len() == 9, "exactly one element per card and instance path");
    for x in want {
        let k = got.iter().position(|g| vx::is_zero(*g - x));
        vx::check(k.is_some(), "default, override and card in every notation");
        got.remove(k.unwrap());
    }
    vx::reach("end");
}

// ---------------------------------------------------------------- C15, C16
const LIB: [&str; 14] = ["* a library", "R1 n 0 9", ".lib r", "R2 n 0 8", ".endl", ".lib s", "R3 n m 3", ".subckt cell a b", "R4 a b 4", "C1 b 0 5", ".ends", "R5 m 0 6", ".endl", "R6 n 0 7"];
fn lib_deck() -> Deck {
    let r = |n: &str, a: &[u8], b: &[u8], x: f64| dev(n, &[a, b], &[v(x)]);
    let mut d = Deck::new();
    d.subs.push(sub("cell", &[b"a", b"b"], &[], vec![r("R4", b"a", b"b", 4.0), r("C1", b"b", b"0", 5.0)]));
    d.subs[0].cards = vec![r("R7", b"n", b"0", 1.0), r("R3", b"n", b"m", 3.0), r("R5", b"m", b"0", 6.0), inst("X1", &[b"n", b"m"], 1, &[]), r("R8", b"m", b"0", 2.0)];
    d
}
fn lib_read(l: &[Vec<u8>], deck: &[u8]) {
    put("p/l.lib", &l.join(&b'\n'));
    put("p/deck.spi", deck);
    let (r, e) = read_at("p/deck.spi");
    vx::check(!e, "a good deck");
    lib_deck().flat().compare(&r.get_expanded_circuit());
    configured(r.configuration(), 1, &[]);
    vx::reach("end");
}
const USER: &[u8] = b"title\nR7 n 0 1\n.lib l.lib s\nX1 n m cell\nR8 m 0 2\n.control\nop\n.endc\n";
/// comments and white space everywhere in a library file
pub fn c15_library() {
    let i = 1 + vx::choice("line", 13) as usize;
    let how = vx::choice("how", 7) as usize;
    let mut l: Vec<Vec<u8>> = LIB.iter().map(|x| x.as_bytes().to_vec()).collect();
    let fields = |lead: usize, k: usize, end: usize| {
        let mut o = blanks("lead", lead);
        for (j, b) in LIB[i].as_bytes().iter().enumerate() { if *b == b' ' { for m in 0..k { o.push(white(&format!("w{}_{}", j, m))); } } else { o.push(*b); } }
        o.extend_from_slice(&blanks("end", end));
        o
    };
    match how {
        0 => l.insert(i, vec![]),
        1 => l.insert(i, blanks("w", 2)),
        2 => l.insert(i, [&b"*"[..], &any_text("t", 2)].concat()),
        3 => l.insert(i, [&blanks("w", 1)[..], b";", &any_text("t", 1)].concat()),
        4 => { l[i].push(b';'); let t = any_text("t", 2); l[i].extend_from_slice(&t); }
        5 => l[i] = fields(1, 1, 1),
        _ => l[i] = fields(0, 2, 0),
    }
    lib_read(&l, USER);
}
const WORDS: [&str; 22] = ["*.ends", "* .endl", "*.lib l.lib s", "*.control", "* .endc", "*R9 in 0 5", "*", "**", "* *", "*;", ";", "; R9 in 0 5", ";*", "*\u{e9} caf\u{e9} \u{3a9}", "* tran 9 9 9", "*option RELTOL = 0.25", "  * .subckt cell a", "\t*X9 in 0 cell", "* an unusually long comment line that goes on and on, with = signs, {braces}, (parentheses), quotes ' \" and a lot of text: 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789", "*in 0", "                                                                                                                                        ", "; .ends ; .endc ; .endl"];
/// comments that look like cards before and behind every line
pub fn c15_words() {
    let w = vx::choice("text", 22) as usize;
    let i = 1 + vx::choice("line", LINES.len() as u64) as usize;
    let mut l = lines();
    l.insert(i, WORDS[w].as_bytes().to_vec());
    // and behind the line before
    let b = WORDS[w].trim_start();
    if i > 1 { l[i - 1].extend_from_slice(b" ;"); l[i - 1].extend_from_slice(b.as_bytes()); }
    unchanged(&l);
}
/// comments and blank lines in many places at once, dozens in a row
pub fn c15_pairs() {
    let w = vx::choice("which", 12) as usize;
    let mut o = vec![];
    o.push([&b"title"[..], b"R1 a b 1", b".control", b"* t", b"", b".ends", b"V1 a 0 {", b"; x", b".lib l.lib s", b".subckt s a", b"\t", b"X1 a b"][w].to_vec());
    for (k, line) in lines().into_iter().enumerate().skip(1) {
        let n = match w % 4 { 0 => 1, 1 => if k == 4 { 40 } else { 0 }, 2 => k % 3, _ => if k % 5 == 2 { 7 } else { 1 } };
        for j in 0..n { o.push(WORDS[(k * 7 + j * 3 + w) % 22].as_bytes().to_vec()); }
        let mut line = line;
        if (k + w) % 2 == 0 { line.insert(0, b' '); line.extend_from_slice(b"\t "); }
        if (k + w) % 3 == 0 { line.extend_from_slice(b" ; "); let c = ascii(&name("c", k), 1)[0]; vx::assume(c != b'\n'); line.push(c); line.extend_from_slice(b" .ends"); }
        o.push(line);
    }
    for _ in 0..w { o.push(b"   ".to_vec()); }
    unchanged(&o);
}
/// sections named like definitions, cards, files, commands
pub fn c16_clash() {
    const N: [&str; 14] = ["cell", "own", "n", "R1", "lib", "endl", "l.lib", "op", "1", "title", "control", "deck.spi", "CELL", "x=1"];
    let i = vx::choice("name", 14) as usize;
    let j = (i + 1 + vx::choice("other", 3) as usize) % 14;
    let first = vx::choice("order", 2) == 0;
    let x = values("x", 3);
    let a = format!("R1 n m {}\nX3 m 0 cell\n", num(x[0]));
    let b = format!("C1 n m {}\n", num(x[1]));
    let (p, q): ((&[u8], &str), (&[u8], &str)) = ((N[i].as_bytes(), &a), (N[j].as_bytes(), &b));
    put("l.lib", &lib(&if first { [p, q] } else { [q, p] }));
    put("deck.spi", format!("title\n.subckt cell a b\nR1 a b 7\n.ends\n.subckt own a\nR1 a 0 8\n.ends\nX1 n m cell\n.lib l.lib {}\nR2 n 0 {}\nX2 n own\n.control\nop\n.endc\n", N[i], num(x[2])).as_bytes());
    let (r, e) = read_at("deck.spi");
    vx::check(!e, "a good deck");
    let mut d = with(vec![inst("X1", &[b"n", b"m"], 1, &[]), dev("R1", &[b"n", b"m"], &[v(x[0])]), inst("X3", &[b"m", b"0"], 1, &[]), dev("R2", &[b"n", b"0"], &[v(x[2])]), inst("X2", &[b"n"], 2, &[])]);
    d.subs.push(sub("own", &[b"a"], &[], vec![dev("R1", &[b"a", b"0"], &[Val::Txt("8", 8.0)])]));
    d.flat().compare(&r.get_expanded_circuit());
    configured(r.configuration(), 1, &[]);
    vx::reach("end");
}
/// arbitrary text in comments around and in the sections
pub fn c16_noted() {
    let i = 1 + vx::choice("line", 14) as usize;
    let what = vx::choice("text", 12) as usize;
    let mut l: Vec<Vec<u8>> = LIB.iter().map(|x| x.as_bytes().to_vec()).collect();
    let t: &[u8] = [&b"* .lib s"[..], b"*.endl", b"  ", b"; .endl", b"*", b"* .lib r", b" * .subckt cell a", b"*.ends", b"; .lib s", b"", b";", b"\t\t"][what];
    l.insert(i, t.to_vec());
    if i < 14 && what % 2 == 1 { l[i + 1].extend_from_slice(b" ; .endl .lib s"); }
    lib_read(&l, USER);
}
/// every kind of card in a section, and how the file is named
pub fn c16_body() {
    let w = vx::choice("path", 6) as usize;
    let k = vx::choice("kind", 8) as usize;
    let x = values("x", 3);
    let (c, e): (String, Card) = match k {
        0 => (format!("V1 n m {}", num(x[0])), dev("V1", &[b"n", b"m"], &[v(x[0])])),
        1 => (format!("I1 n m {}", num(x[0])), dev("I1", &[b"n", b"m"], &[v(x[0])])),
        2 => (format!("V1 n m SIN({} {} {})", num(x[0]), num(x[1]), num(x[2])), src('W', "V1", &[b"n", b"m"], &[v(x[0]), v(x[1]), v(x[2])])),
        3 => (format!("I1 n m SIN({} {} {})", num(x[0]), num(x[1]), num(x[2])), src('S', "I1", &[b"n", b"m"], &[v(x[0]), v(x[1]), v(x[2])])),
        4 => (format!("V1 n m PWL(0, {}, 3, {})", num(x[0]), num(x[1])), src('P', "V1", &[b"n", b"m"], &[Val::Txt("0", 0.0), v(x[0]), Val::Txt("3", 3.0), v(x[1])])),
        5 => (format!("E1 n 0 m 0 {}", num(x[0])), dev("E1", &[b"n", b"0", b"m", b"0"], &[v(x[0])])),
        6 => (format!("G1 n m m 0 {}", num(x[0])), dev("G1", &[b"n", b"m", b"m", b"0"], &[v(x[0])])),
        _ => ("D1 n m".to_string(), dev("D1", &[b"n", b"m"], &[])),
    };
    let (deck, file, text) = [("d.spi", "l.lib", "./l.lib"), ("a/d.spi", "a/b/l.lib", "./b/../b/l.lib"), ("a/b/d.spi", "l.lib", "../../l.lib"), ("a/d.spi", "a/lib", "lib"), ("a/d.spi", "a/x.y/l-1_2.lib.txt", "x.y/l-1_2.lib.txt"), ("a/d.spi", "b/l.lib", "../b/l.lib")][w];
    if w == 1 { put("a/b/keep", b""); }
    put(file, format!("*\n.lib s\n{}\nR1 n m 2\n.endl\n", c).as_bytes());
    put(deck, format!("title\nR2 n 0 3\n.lib {} s\nR3 m 0 4\n", text).as_bytes());
    let (r, er) = read_at(deck);
    vx::check(!er, "a good deck");
    let mut d = Deck::new();
    d.subs[0].cards = vec![dev("R2", &[b"n", b"0"], &[v(3.0)]), e, dev("R1", &[b"n", b"m"], &[v(2.0)]), dev("R3", &[b"m", b"0"], &[v(4.0)])];
    d.flat().compare(&r.get_expanded_circuit());
    vx::reach("end");
}

// ---------------------------------------------------------------- C17
/// numbers in every notation, in tran and in options
pub fn c17_text() {
    const T: [(&str, f64); 14] = [("1k", 1e3), ("2.5m", 2.5e-3), ("10u", 1e-5), ("0", 0.0), ("4.7n", 4.7e-9), ("1e3", 1e3), ("1.5e-6", 1.5e-6), ("100ps", 1e-10), ("007", 7.0), ("0.0", 0.0), ("12345678", 12345678.0), ("5us", 5e-6), ("20ms", 0.02), ("3e0", 3.0)];
    let (a, f) = T[vx::choice("text", 14) as usize];
    let w = vx::choice("place", 7) as usize;
    let x = values("x", 3);
    let n = |i: usize| num(x[i]);
    let (t, k, set) = match w {
        0 => (format!("tran {} {} {}\n", a, n(1), n(2)), 2, vec![(TSTEP, f), (TSTOP, x[1]), (TSTART, x[2])]),
        1 => (format!("tran {} {} {}\n", n(0), a, n(2)), 2, vec![(TSTEP, x[0]), (TSTOP, f), (TSTART, x[2])]),
        2 => (format!("tran {} {} {}\n", n(0), n(1), a), 2, vec![(TSTEP, x[0]), (TSTOP, x[1]), (TSTART, f)]),
        3 => (format!("tran {} {}\n", n(0), a), 2, vec![(TSTEP, x[0]), (TSTOP, f)]),
        4 => (format!("option ABSTOL = {}\n", a), 0, vec![(ABSTOL, f)]),
        5 => (format!("option RELTOL = {}\nop\n", a), 1, vec![(RELTOL, f)]),
        _ => (format!("option RMAX = {}\noption ABSTOL = {}\n", a, n(0)), 0, vec![(RMAX, f), (ABSTOL, x[0])]),
    };
    configured(&control(t.as_bytes()), k, &set);
    vx::reach("end");
}

// ---------------------------------------------------------------- C18
/// times and values that look alike when printed are still rows of their own
pub fn c18_tiny() {
    let w = vx::choice("step", 4) as usize;
    let step = [1e-10, 1e-12, 3e-10, 1e-9][w];
    let mut ck = Circuit::new();
    let x = values("x", 2);
    let order = vx::choice("order", 2);
    add(&mut ck, 'V', &[1, 0], &[x[0]]);
    if order == 1 { add(&mut ck, 'E', &[3, 0, 1, 0], &[2.0]); }
    add(&mut ck, 'R', &[1, 2], &[1.0]);
    add(&mut ck, 'R', &[2, 0], &[1.0]);
    add(&mut ck, 'V', &[4, 2], &[x[1]]);
    if order == 0 { add(&mut ck, 'R', &[3, 0], &[1.0]); add(&mut ck, 'I', &[0, 3], &[1.0]); }
    let mut cfg = tcfg(step, 8.0 * step, 0.0);
    calm(&mut cfg);
    let r = tran(&ck, &cfg);
    columns(&r.w, 5, 2 + order as usize);
    vx::check(r.w.rows.len() == 9, "one row per accepted point");
    for q in &r.w.rows { for (i, y) in r.dc.iter().enumerate() { vx::close(q[1 + i], *y, vx::PRINTED, "the unknowns in their order"); } }
    vx::reach("end");
}
/// hundreds of rows
pub fn c18_lines() {
    let (n, m, k) = [(2usize, 1usize, 300usize), (6, 2, 80), (1, 0, 500)][vx::choice("size", 3) as usize];
    let lut = (0..n).map(|i| (i, name("node_of_some_name_", i))).collect();
    let (x, t) = (vx::real("x"), vx::real("t"));
    let value = |r: usize, i: usize| if r % 71 == 3 && i == n + m - 1 { x } else if r == k - 1 && i == 0 { t } else { (r * (n + m) + i) as f64 / 8.0 };
    {
        let mut w = WaveWriter::new("w.dat", &lut).unwrap();
        w.header(n, m);
        for r in 0..k { let row: Vec<f64> = (0..n + m).map(|i| value(r, i)).collect(); w.dump_vector(r as f64 / 4.0, &row); }
    }
    let w = wave("w.dat");
    columns(&w, n, m);
    vx::check(w.rows.len() == k, "one row per accepted point");
    for r in 0..k {
        vx::close(w.rows[r][0], r as f64 / 4.0, vx::PRINTED, "time");
        for i in 0..n + m { vx::close(w.rows[r][1 + i], value(r, i), vx::PRINTED, "value"); }
    }
    vx::reach("end");
}
/// a deck with many nodes, some of them in subcircuits, and many sources: each column is what its header says
pub fn c18_wide() {
    let k = [4usize, 11][vx::choice("size", 2) as usize];
    let x = vx::real("x");
    let s = letter("s");
    // node n<i> is at i volts, X<i>.i at half of it, and s at x
    let mut t = format!("title\nV0 {} 0 {}\n", text(&s), num(x)).into_bytes();
    for i in (1..=k).rev() { t.extend_from_slice(format!("V{} n{} 0 {}\nX{} n{} div\n", i, i, i, i, i).as_bytes()); }
    t.extend_from_slice(b".subckt div a\nR1 a i 1\nR2 i 0 1\n.ends\n");
    let d = read_b(&t);
    vx::check(!d.errors, "a good deck");
    let mut cfg = tcfg(1.0, 1.0, 0.0);
    calm(&mut cfg);
    let r = tran(&d.flat(), &cfg);
    columns(&r.w, 2 + 2 * k, 1 + k);
    let mut seen = vec![0; 2 * k + 1];
    for (c, h) in r.w.head.iter().enumerate().skip(2).take(1 + 2 * k) {
        let mut want = None;
        for i in 1..=k {
            if *h == format!("v(n{})", i) || *h == format!("v(X{}.a)", i) { want = Some((i, i as f64)); }
            if *h == format!("v(X{}.i)", i) { want = Some((k + i, i as f64 / 2.0)); }
        }
        if want.is_none() { vx::check(*h == format!("v({})", text(&s)), "a name of the node"); }
        let (q, y) = want.unwrap_or((0, x));
        seen[q] += 1;
        for row in &r.w.rows { vx::close(row[c], y, vx::PRINTED, "a column holds the node its header names"); }
    }
    for q in seen { vx::check(q == 1, "every node has its column"); }
    vx::reach("end");
}

// ---------------------------------------------------------------- C19
/// circuits of two nodes and one source, with and without diodes and capacitors
fn shape(w: usize, x: f64) -> Circuit {
    let mut c = Circuit::new();
    let d = |c: &mut Circuit, a: usize, b: usize, is: f64| add(c, 'D', &[a, b], &[is, 27.0]);
    match w {
        0 => { add(&mut c, 'V', &[1, 0], &[x]); add(&mut c, 'R', &[1, 2], &[100.0]); d(&mut c, 2, 0, 1e-9); d(&mut c, 0, 2, 1e-9); add(&mut c, 'R', &[2, 0], &[100.0]); }
        1 => { add(&mut c, 'V', &[1, 0], &[x]); add(&mut c, 'R', &[1, 2], &[50.0]); d(&mut c, 2, 0, 1e-9); d(&mut c, 0, 2, 1e-9); add(&mut c, 'R', &[2, 0], &[100.0]); }
        2 => { add(&mut c, 'V', &[1, 0], &[x]); add(&mut c, 'R', &[1, 2], &[100.0]); d(&mut c, 2, 0, 1e-7); d(&mut c, 2, 0, 1e-9); add(&mut c, 'R', &[2, 0], &[100.0]); }
        3 => { add(&mut c, 'V', &[2, 0], &[x]); add(&mut c, 'R', &[1, 2], &[100.0]); add(&mut c, 'C', &[1, 0], &[2.0]); add(&mut c, 'C', &[1, 2], &[0.5]); add(&mut c, 'R', &[1, 0], &[10.0]); }
        4 => { add(&mut c, 'V', &[2, 0], &[x]); add(&mut c, 'R', &[1, 2], &[100.0]); add(&mut c, 'C', &[1, 0], &[1.0]); add(&mut c, 'C', &[1, 2], &[1.5]); add(&mut c, 'R', &[1, 0], &[10.0]); }
        5 => { add(&mut c, 'W', &[2, 1], &[x, 1.0, 0.125]); add(&mut c, 'S', &[0, 1], &[1.0, x, 0.125]); add(&mut c, 'R', &[1, 0], &[3.0]); add(&mut c, 'R', &[2, 0], &[10.0]); }
        6 => { add(&mut c, 'P', &[1, 2], &[0.0, -1.0, 0.0, x, 4.0, 1.0]); add(&mut c, 'R', &[1, 0], &[3.0]); add(&mut c, 'R', &[2, 0], &[10.0]); add(&mut c, 'C', &[2, 0], &[1.0]); d(&mut c, 0, 1, 1e-9); }
        _ => { add(&mut c, 'E', &[2, 0, 1, 0], &[3.0]); add(&mut c, 'I', &[0, 1], &[x]); add(&mut c, 'R', &[1, 0], &[3.0]); add(&mut c, 'R', &[2, 0], &[10.0]); }
    }
    lut(&mut c);
    c
}
fn analysis(e: &mut Engine, ck: &Circuit, cfg: &Configuration, file: &str, dc: bool) -> (usize, f64) {
    let mut c = cfg.clone();
    c.set_wavefile(file);
    let s = if dc { e.dc_operating_point(ck, &c) } else { e.transient_analysis(ck, &c) };
    (s.iterations, s.end)
}
/// the last analysis of `used` was that of `fresh`
fn agree(used: Engine, fresh: Engine, got: (usize, f64), want: (usize, f64), waves: bool) {
    vx::check(got.0 == want.0, "the same number of iterations");
    vx::close(got.1, want.1, 0.0, "the same end");
    let (p, q) = (used.dc().unwrap(), fresh.dc().unwrap());
    vx::check(p.len() == q.len(), "the same number of unknowns");
    for i in 0..p.len() { vx::close(p[i], q[i], 0.0, "the same operating point"); }
    if waves { same_waves("again.dat", "fresh.dat"); }
}
/// one analysis after another of a circuit of the same size, in all pairs
pub fn c19_pairs() {
    let w = vx::choice("which", 128) as usize;
    let (a, b, dc) = (w % 8, w / 8 % 8, w / 64 == 0);
    let mut cfg = tcfg(1.0, 1.0, 0.0);
    calm(&mut cfg);
    cfg.ITL1 = 1;
    cfg.ITL4 = 2;
    let (x, y) = (0.25, between("x", 0.25, 0.5));
    let mut fresh = Engine::new();
    let want = analysis(&mut fresh, &shape(b, y), &cfg, "fresh.dat", dc);
    let mut used = Engine::new();
    analysis(&mut used, &shape(a, x), &cfg, "again.dat", dc);
    if a % 2 == 0 { analysis(&mut used, &shape(a, x), &cfg, "again.dat", !dc); }
    let got = analysis(&mut used, &shape(b, y), &cfg, "again.dat", dc);
    agree(used, fresh, got, want, !dc);
    vx::reach("end");
}
/// an analysis after one that went wrong, stopped early, or had other options
pub fn c19_failed() {
    let w = vx::choice("before", 8) as usize;
    let b = vx::choice("circuit", 3) as usize;
    let dc = vx::choice("dc", 2) == 1;
    let y = between("x", 0.25, 0.5);
    let mut cfg = tcfg(1.0, 3.0, 0.0);
    cfg.RELTOL = 1.0;
    cfg.FS = 0.5;
    cfg.RMAX = 2.0;
    let ck = |y: f64| shape([3, 5, 7][b], y);
    let mut fresh = Engine::new();
    let want = analysis(&mut fresh, &ck(y), &cfg, "fresh.dat", dc);
    let mut used = Engine::new();
    let mut c = tcfg(1.0, 3.0, 0.0);
    let k = match w {
        0 => { c.ITL4 = 1; c.RELTOL = 0.0; c.VNTOL = 0.0; c.FS = 1.0; probe(1.0, 2.0, 0.1) } // gives up
        1 => { let mut k = Circuit::new(); add(&mut k, 'P', &[1, 0], &[0.0, -1.0, 0.0, 1.0, 1.0, 2.0, 1.5, f64::INFINITY]); add(&mut k, 'R', &[1, 2], &[1.0]); add(&mut k, 'C', &[2, 0], &[1.0]); k } // becomes infinite
        2 => { c.RELTOL = 1.0; c.TSTART = 2.0; shape(4, 2.0) }
        3 => { c.ITL4 = 1; c.ITL3 = 0; c.FS = 1.0; c.FT = 0.5; c.RMIN = 0.2; c.RELTOL = 0.0; c.VNTOL = 0.2; shape(4, 1.0) } // retried points, or given up
        4 => { c.ITL1 = 0; c.ITL4 = 1; c.RELTOL = 1.0; c.FS = 1.0; shape(0, 0.5) } // no convergence in DC
        5 => { let mut k = Circuit::new(); add(&mut k, 'V', &[1, 0], &[1.0]); for i in 1..20 { add(&mut k, 'R', &[i, i + 1], &[1.0]); add(&mut k, 'C', &[i + 1, 0], &[1.0]); } add(&mut k, 'R', &[20, 0], &[1.0]); c.RELTOL = 1.0; c.TSTOP = 1.0; k } // a large one
        6 => { c.RELTOL = 1.0; c.TSTOP = 6.0; c.TSTEP = 2.0; c.FS = 1.0; c.RMAX = 1.0; shape(3, 1.0) }
        _ => { let mut k = Circuit::new(); add(&mut k, 'I', &[0, 1], &[1.0]); add(&mut k, 'R', &[1, 0], &[2.0]); c.RELTOL = 1.0; k } // a small one
    };
    let mut k = k;
    lut(&mut k);
    if w % 2 == 0 { analysis(&mut used, &k, &c, "again.dat", false); }
    analysis(&mut used, &k, &c, "again.dat", false);
    let got = analysis(&mut used, &ck(y), &cfg, "again.dat", dc);
    agree(used, fresh, got, want, !dc);
    vx::reach("end");
}

// ---------------------------------------------------------------- C20
fn well_formed(b: u8) -> bool { ((b >= b'a') & (b <= b'z')) | ((b >= b'A') & (b <= b'Z')) | ((b >= b'0') & (b <= b'9')) | (b == b'_') }
/// dot-cards of longer names, among them ones that start like supported ones
pub fn c20_dot_long() {
    const N: [&str; 22] = [".ends@", ".subckt@", ".control@", ".endc@", ".endl@", ".lib@", ".subck@", ".contro@", ".tran@", ".option@", ".model@", ".include@", ".param@", ".global@", ".end@", ".tran", ".options", ".model", ".include", ".param", ".SUBCKT", ".ENDS"];
    let w = vx::choice("which", 22) as usize;
    let place = vx::choice("place", 3);
    let b = vx::byte("b");
    vx::assume((b > 32) & (b < 127) & (b != b';'));
    let card: Vec<u8> = N[w].bytes().map(|c| if c == b'@' { b } else { c }).collect();
    vx::assume(card != b".subckt" && card != b".control" && card != b".lib" && card != b".endl" && card != b".ends");
    let t = match place { 0 => [b"title\nR1 a 0 1\n", &card[..], b"\nR8 a b 1\n"].concat(), 1 => [b"title\n.subckt s a\nR1 a 0 1\n", &card[..], b" m 1\n.ends\nX1 b s\n"].concat(), _ => [b"title\nR1 a 0 1\n.control\nop\n.endc\n", &card[..], b" x=2"].concat() };
    let d = read_b(&t);
    vx::check(d.errors, "an unsupported dot-card is reported");
    vx::reach("end");
}
/// an arbitrary character anywhere in a long node name
pub fn c20_names_long() {
    const C: [&str; 6] = ["R1 @ b 1", "V1 a @ 1", "X1 a @ s", "G1 a b c @ 1", ".subckt o @ q\nR1 q 0 1\n.ends", ".subckt o p q\nI1 q @ 1\n.ends"];
    let w = vx::choice("card", 6) as usize;
    let n = [9usize, 17, 40, 80][vx::choice("length", 4) as usize];
    let at = [0, n / 2, n - 2, n - 1][vx::choice("place", 4) as usize];
    let b = vx::byte("b");
    vx::assume((b > 32) & (b < 127) & (b != b';') & (b != b'='));
    let nn: Vec<u8> = (0..n).map(|i| if i == at { b } else { b"aZ_09kQ"[i % 7] }).collect();
    let mut t = b"title\nR9 a b 1\n".to_vec();
    for c in C[w].bytes() { if c == b'@' { t.extend_from_slice(&nn) } else { t.push(c) } }
    t.extend_from_slice(b"\n.subckt s m n\nR1 m n 1\n.ends\nR8 a 0 8\n");
    let d = read_b(&t);
    vx::check(d.errors == !well_formed(b), "a node name is reported when it is ill-formed, and only then");
    vx::reach(if well_formed(b) { "good" } else { "bad" });
    vx::reach("end");
}
/// values in braces that name nothing
pub fn c20_brace() {
    const C: [&str; 8] = ["R1 a b ", "C1 a 0 ", "E1 a b c d ", "G1 a b c 0 ", "I1 a b ", "V1 a b ", "X1 a b s r=", ".subckt o p q r="];
    let w = vx::choice("card", 8) as usize;
    let k = vx::choice("form", 5) as usize;
    let (b, c) = (vx::byte("b"), vx::byte("c"));
    vx::assume((b > 32) & (b < 127) & (b != b';') & (b != b'=') & (c > 32) & (c < 127) & (c != b';') & (c != b'='));
    let word = |x: u8| well_formed(x) & (x != b'_');
    let val = match k { 0 => vec![b'{', b], 1 => vec![b'{', b, c], 2 => { vx::assume((b != b'}') & !word(b)); vec![b'{', b, b'}'] } 3 => { vx::assume((c != b'}') & !word(c)); vec![b'{', b'r', c, b'}'] } _ => b"{}".to_vec() };
    // complete forms are not faults of this kind
    if k == 1 { vx::assume(!((c == b'}') & word(b))); }
    let mut t = [b"title\nR9 a b 1\n", C[w].as_bytes(), &val[..], b"\n"].concat();
    if w == 7 { t.extend_from_slice(b"R1 p q 1\n.ends\n"); }
    t.extend_from_slice(b".subckt s m n r=1\nR1 m n {r}\n.ends\nR8 a 0 8\n");
    let d = read_b(&t);
    vx::check(d.errors, "a card without a value is reported");
    vx::reach("end");
}
/// two faults, one after the other, are reported like one; a fault is not forgotten at the end of a definition, library or control block
pub fn c20_twice() {
    const F: [&str; 7] = ["R1 a b\n", "C1 a. 0 1\n", ".foo\n", ".ends\n", "V1 a b\n", "I1 a\n", "E1 a b c d\n"];
    const G: [&str; 7] = ["R2 a b 3\n", ".subckt o p\nR1 p 0 1\n.ends\nX2 a o\n", ".lib l.lib s\n", ".control\nop\n.endc\n", "V7 q 0 SIN(1 2 3)\n", "* x\n\n", "D4 a b\n"];
    let (i, j, k) = (vx::choice("fault", 7) as usize, vx::choice("between", 7) as usize, vx::choice("second", 8) as usize);
    let n = letter("n");
    put("l.lib", b"*\n.lib s\nR3 a 0 1\n.endl\n");
    let d = read(&format!("title\nR9 a {} 1\n{}{}{}R8 a b 1\n", text(&n), F[i], G[j], if k < 7 { F[k] } else { "" }));
    vx::check(d.errors, "faults are reported");
    // a good deck read by another reader is good
    let d = read(&format!("title\nR9 a {} 1\n{}R8 a b 1\n", text(&n), G[j]));
    vx::check(!d.errors, "a good deck");
    vx::reach("end");
}

// ---------------------------------------------------------------- C21
fn branches(ck: &Circuit, want: usize) {
    vx::check(ck.count_voltage_sources() == want, "every voltage-defined source is counted once");
    let mut seen = vec![0; want];
    for e in ck.elements.iter().map(el) { if is_v(e.k) { vx::check(e.idx < want, "branch index in range"); seen[e.idx] += 1; } }
    for s in &seen { vx::check(*s == 1, "branch indices are distinct"); }
    let c = ck.count_nodes();
    for e in ck.elements.iter().map(el) { for t in e.t { vx::check(t < c, "every node is covered"); } }
}
/// arbitrary values, and the same nodes or the same name more than once
pub fn c21_values() {
    let w = vx::choice("which", 6) as usize;
    let x: Vec<f64> = (0..6).map(|i| nreal("x", i)).collect();
    let n = |i: usize| num(x[i]);
    let c = [
        format!("V1 a 0 {}\nE1 b 0 a 0 {}\n", n(0), n(1)),
        format!("E1 b 0 a 0 {}\nV1 a 0 {}\nE2 c b a b {}\n", n(0), n(1), n(2)),
        format!("V1 a 0 SIN({} {} {})\nE1 b a a 0 {}\nV2 c 0 PWL(0, {}, 1, {})\n", n(0), n(1), n(2), n(3), n(4), n(5)),
        format!("V1 a 0 {}\nV2 a 0 {}\nG1 a 0 a 0 {}\n", n(0), n(1), n(2)),
        format!("E1 a 0 a 0 {}\nE1 a 0 a 0 {}\nV1 0 a {}\n", n(0), n(1), n(2)),
        format!("E1 0 0 a b {}\nV1 b b {}\nE2 a b a b {}\n", n(0), n(1), n(2)),
    ];
    let k = [2usize, 3, 3, 2, 3, 3][w];
    let place = vx::choice("place", 3) as usize;
    let t = match place { 0 => format!("title\n{}R1 a b 1\n", c[w]), 1 => format!("title\nV9 q 0 1\nX1 a b s\n.subckt s a b\n{}R1 a b 1\n.ends\n", c[w]), _ => format!("title\nX1 a b s\n{}X2 a b s\n.subckt s a b\n{}R1 a b 1\n.ends\n", c[w], c[(w + 1) % 6]) };
    let d = read(&t);
    vx::check(!d.errors, "a good deck");
    branches(&d.flat(), match place { 0 => k, 1 => 1 + k, _ => k + 2 * [2usize, 3, 3, 2, 3, 3][(w + 1) % 6] });
    vx::reach("end");
}
/// dozens of sources of every kind, dozens of instances with sources at three levels
pub fn c21_crowd() {
    let n = [20usize, 45, 70][vx::choice("cards", 3) as usize];
    let m = [1usize, 5, 12][vx::choice("instances", 3) as usize];
    let rot = vx::choice("first", 4) as usize;
    let x = vx::real("x");
    let mut t = "title\n".to_string();
    let mut want = 0;
    for i in 0..n {
        t += &match (i * 3 + i / 4 + rot) % 7 { 0 => { want += 1; format!("V{} n{} 0 {}\n", i, i, num(x)) } 1 => { want += 1; format!("E{} n{} 0 n0 n1 2\n", i, i) } 2 => format!("R{} n{} n0 3\n", i, i), 3 => { want += 1; format!("V{} n{} n1 SIN(0 1 2)\n", i, i) } 4 => format!("G{} n{} 0 n0 0 2\n", i, i), 5 => { want += 1; format!("V{} n2 n{} PWL(0, 1, 2, 3)\n", i, i) } _ => format!("I{} n{} 0 1\n", i, i) };
        if i % 9 == rot && i / 9 < m { t += &format!("Xa{} n1 n{} mid\n", i, i); want += 6; }
    }
    t += ".subckt leaf a b\nV1 a i 1\nR1 i b 1\nE1 b 0 a i 2\n.ends\n.subckt mid a b\nE7 a 0 b 0 2\nX1 a m leaf\nV3 m 0 SIN(0 1 2)\nX2 m b leaf\n.ends\n";
    let d = read(&t);
    vx::check(!d.errors, "a good deck");
    branches(&d.flat(), want);
    vx::reach("end");
}

// ---------------------------------------------------------------- C22
/// many nodes, many sources: any one entry arbitrary
pub fn c22_many() {
    let (nn, nv) = [(3usize, 12usize), (20, 18), (40, 1), (2, 30)][vx::choice("shape", 4) as usize];
    let mut ckt = Circuit::new();
    for i in 0..nn { ckt.add_r(name("r", i), i + 1, 0, 1.0); }
    for i in 0..nv { ckt.add_v(1 + i % nn, 0, 1.0); }
    let mut cfg = Configuration::new();
    cfg.ITL1 = 0;
    let mut eng = Engine::new();
    eng.dc_operating_point(&ckt, &cfg);
    cfg.RELTOL = vx::real("reltol");
    cfg.VNTOL = vx::real("vntol");
    cfg.ABSTOL = vx::real("abstol");
    vx::assume((cfg.RELTOL >= 0.0) & (cfg.VNTOL >= 0.0) & (cfg.ABSTOL >= 0.0) & (cfg.RELTOL <= 0.5));
    let n = 1 + nn + nv;
    let k = vx::choice("entry", n as u64) as usize;
    let bad = vx::choice("bad", 3) as usize;
    let mut x: Vec<f64> = (0..n).map(|i| i as f64 - 4.0).collect();
    let mut y = x.clone();
    if bad == 0 { x[k] = vx::real("x"); y[k] = vx::real("y"); } else { x[k] = [f64::NAN, f64::NEG_INFINITY][bad - 1]; }
    let far = bad == 0 && (x[k] - y[k]).abs() > x[k].abs() * cfg.RELTOL + if k <= nn { cfg.VNTOL } else { cfg.ABSTOL };
    match eng.convergence_check(&x, &y, &cfg) {
        Err(_) => { vx::check(bad > 0, "an error only for a non-finite entry"); vx::reach("error"); }
        Ok(c) => {
            vx::check(bad == 0, "a non-finite entry is an error");
            vx::check(c != far, "accepted exactly when every entry is within its tolerance");
            vx::reach(if c { "accepted" } else { "rejected" });
        }
    }
    vx::reach("end");
}
