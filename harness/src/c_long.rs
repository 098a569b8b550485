//! Sizes beyond those of the other entries: many steps, diodes, instances, levels, parameters, lines, sections,
//! commands, sources; long lines. One or two things in them are symbolic.
use super::{c_big::{net_name, vnum}, c_dc::*, c_deck::*, c_files::*, c_mix::alike, c_tran::*, util::*, vx};
use tiny_spice::circuit::Circuit;
harness!(c04_crowd, c05_longer, c06_longer, c07_longer, c08_longer, c13_crowd, c14_tall, c15_long, c16_crowd, c17_crowd, c18_longer, c20_far, c21_bulk);

// ---------------------------------------------------------------- C04
/// up to 40 diodes, each with a drive of its own, one of them arbitrary
pub fn c04_crowd() {
    let n = [5usize, 9, 20, 40][vx::choice("diodes", 4) as usize];
    let at = [0, n / 2, n - 1][vx::choice("place", 3) as usize];
    let drive = vx::real("drive");
    let make = || {
        let mut c = Circuit::new();
        for i in 0..n {
            let d = if i == at { drive } else { 1e-6 * (i + 1) as f64 };
            add(&mut c, 'I', &[0, i + 1], &[d]);
            if i % 3 != 2 { add(&mut c, 'D', &[i + 1, 0], &[1e-9, 27.0]); }
            add(&mut c, 'R', &[i + 1, 0], &[1000.0]);
            if i % 3 == 2 { add(&mut c, 'D', &[0, i + 1], &[1e-9, 27.0]); }
        }
        (c, n)
    };
    nr_of(&make, 1, true);
}

// ---------------------------------------------------------------- C05, C06, C07, C08
/// 100 steps
pub fn c05_longer() {
    let o = between("o", 1.0, 2.0);
    let p = between("p", 1.0, 2.0);
    let mut ck = Circuit::new();
    let w = vx::choice("which", 2);
    if w == 0 { add(&mut ck, 'V', &[1, 0], &[o]); add(&mut ck, 'R', &[1, 2], &[1.0]); add(&mut ck, 'C', &[2, 0], &[1.0]); add(&mut ck, 'P', &[3, 2], &[0.0, -1.0, 0.0, 0.0, 64.0, 8.0 * p, 128.0, 0.0]); add(&mut ck, 'R', &[3, 0], &[1.0]); }
    else { add(&mut ck, 'P', &[1, 0], &[0.0, -1.0, 0.0, 0.0, 64.0, 8.0 * p, 128.0, 0.0]); add(&mut ck, 'C', &[1, 2], &[3.0]); add(&mut ck, 'R', &[2, 0], &[1.0]); add(&mut ck, 'I', &[0, 2], &[o]); }
    let n = if w == 0 { 3 } else { 2 };
    let mut cfg = tcfg(1.0, 100.5, 0.0);
    calm(&mut cfg);
    let t = tran(&ck, &cfg);
    euler(&ck, n, &t, &|_, e, x| if e.k == 'P' { if x <= 64.0 { x * 0.125 * p } else { (8.0 - (x - 64.0) * 0.125) * p } } else { e.v[0] });
    vx::check(t.w.rows.len() == 102, "DC and every step");
    vx::reach("end");
}
/// 600 and 1200 steps, one arbitrary source
pub fn c06_longer() {
    let w = vx::choice("which", 3) as usize;
    let vo = vx::real("vo");
    let mut cfg = tcfg([1.0, 0.5, 2.0][w], [600.5, 128.25, 2400.0][w], [0.0, 0.0, 2000.0][w]);
    cfg.RELTOL = 1.0;
    cfg.FS = 1.0;
    cfg.RMAX = 1.0;
    let mut ck = Circuit::new();
    add(&mut ck, 'V', &[1, 0], &[vo]);
    add(&mut ck, 'R', &[1, 0], &[1.0]);
    let t = tran(&ck, &cfg);
    axis(&t, &cfg, &|_| vo);
    vx::check(t.w.rows.len() == [602, 258, 202][w], "every accepted point from TSTART on");
    vx::reach("end");
}
/// some hundred points, among them retried ones
pub fn c07_longer() {
    let w = vx::choice("which", 2) as usize;
    let mut cfg = tcfg(1.0, 300.0, 0.0);
    cfg.FS = 0.5;
    cfg.FT = 0.5;
    cfg.RMAX = [1.0, 2.0][w];
    cfg.RMIN = 1e-3;
    cfg.ITL4 = 2;
    cfg.ITL3 = [3, 2][w];
    cfg.RELTOL = 0.0;
    cfg.VNTOL = 0.5;
    let s = between("v", 0.25, 4.0);
    let mut ck = Circuit::new();
    add(&mut ck, 'P', &[1, 0], &[0.0, -1.0, 0.0, s, 290.0, s, 296.0, 3.0 * s, 400.0, 3.0 * s]);
    add(&mut ck, 'R', &[1, 0], &[1.0]);
    follows(&ck, &cfg, 2, 1, &mut |x| { let v = if x <= 290.0 { s } else if x <= 296.0 { s + s * (x - 290.0) / 3.0 } else { 3.0 * s }; vec![v, -v] });
    vx::reach("end");
}
/// patterns of 60 to 300 points
pub fn c08_longer() {
    let n = [60usize, 300][vx::choice("points", 2) as usize];
    let k = [0, 7, n / 2, n - 2][vx::choice("segment", 4) as usize];
    let rep = vx::choice("repeat", 2) == 1;
    let (a, b) = (vx::real("a"), vx::real("b"));
    let pat: Vec<(f64, f64)> = (0..n).map(|i| (2.0 * i as f64, if i == k { a } else if i == k + 1 { b } else { (i * i % 37) as f64 })).collect();
    let src = tiny_spice::circuit::VoltageSourcePwl { p: 1, n: 0, pat, t_delay: 0.0, repeat: if rep { 0.0 } else { -1.0 }, idx: 0 };
    let f = between("f", 0.0, 2.0);
    let round = if rep { 3.0 * 2.0 * (n - 1) as f64 } else { 0.0 };
    vx::assume((f > 0.0) & (f < 2.0));
    vx::close(src.evaluate(round + 2.0 * k as f64 + f), a + (b - a) * f / 2.0, a.abs() + b.abs(), "linear between its points");
    vx::reach("end");
}

// ---------------------------------------------------------------- C13, C14
/// 70 and 140 instances of a definition, or of 30 definitions
pub fn c13_crowd() {
    let w = vx::choice("which", 3) as usize;
    let n = [70usize, 140, 90][w];
    let defs = [1usize, 1, 30][w];
    let x = vx::real("x");
    let mut d = Deck::new();
    for k in 1..=defs { d.subs.push(sub(&name("s", k), &[b"a", b"b"], &[(b"r", 7.0 + k as f64)], vec![dev("R1", &[b"a", b"i"], &[Val::Id(nm("r"))]), dev("V1", &[b"i", b"b"], &[vnum(300.0 + k as f64)]), dev("C1", &[b"i", b"0"], &[vnum(x)])])); }
    let s = sname("s", 1);
    for i in 0..n {
        let (a, b) = (net_name(i), net_name(i * 3 % n));
        let over = (i % 5 == 0).then(|| (&b"r"[..], vnum(1000.0 + i as f64)));
        d.subs[0].cards.push(inst(&name("X", i), &[&a, if i == n / 2 { &s } else { &b }], 1 + i % defs, over.as_slice()));
    }
    let mut o: Vec<usize> = (0..=defs).collect();
    if w == 2 { o.reverse(); }
    let k = read_b(&d.text(&o));
    vx::check(!k.errors, "a good deck");
    alike(&d.flat(), &k.flat());
    vx::reach("end");
}
/// twelve levels; 24 parameters; values handed down under other names
pub fn c14_tall() {
    let w = vx::choice("shape", 4) as usize;
    let x = values("x", 3);
    let (levels, pars) = [(12usize, 2usize), (2, 24), (7, 8), (20, 1)][w];
    let mut d = Deck::new();
    for l in 1..=levels {
        let mut cards: Vec<Card> = (0..pars).map(|i| dev(&name("R", i), &[b"a", &net_name(i)], &[Val::Id(name("p", i).into_bytes())])).collect();
        if l > 1 {
            let over: Vec<(Name, Val)> = (0..pars).filter(|i| (i + l) % 4 != 0).map(|i| (name("p", i).into_bytes(), if (i + l) % 7 == 6 { vnum(700.0 + (l * 30 + i) as f64) } else { Val::Id(name("p", (i + l % 2) % pars).into_bytes()) })).collect();
            cards.insert(pars / 2, Card { par: over, ..inst("X1", &[b"a"], l - 1, &[]) });
            if l == levels { cards.push(inst("X2", &[b"a"], l - 1, &[])); }
        }
        let par: Vec<(Name, f64)> = (0..pars).map(|i| (name("p", i).into_bytes(), if i == pars / 2 && l == levels / 2 { x[0] } else { (l * 40 + i + 2000) as f64 })).collect();
        d.subs.push(Sub { name: name("s", l), ports: vec![nm("a")], par, cards });
    }
    d.subs[0].cards = vec![inst("X1", &[b"n"], levels, &[(b"p0", vnum(x[1]))]), inst("X2", &[b"m"], levels, &[])];
    let o: Vec<usize> = if w % 2 == 0 { (0..=levels).collect() } else { (0..=levels).rev().collect() };
    let k = read_b(&d.text(&o));
    vx::check(!k.errors, "a good deck");
    alike(&d.flat(), &k.flat());
    vx::reach("end");
}

// ---------------------------------------------------------------- C15, C16, C17, C20
/// titles, comments, tails and white space of 70 to 2000 characters, an arbitrary one in them
pub fn c15_long() {
    let n = [70usize, 130, 300, 2000][vx::choice("length", 4) as usize];
    let how = vx::choice("what", 5) as usize;
    let at = [0, n / 2, n - 1][vx::choice("place", 3) as usize];
    let b = vx::byte("b");
    vx::assume((b >= 32) & (b < 127));
    let long: Vec<u8> = (0..n).map(|i| if i == at { b } else { b" .ends R1 a 0 {;*"[i % 17] }).collect();
    let white = vec![if at == 0 { b' ' } else { b'\t' }; n];
    let mut t = if how == 0 { long.clone() } else { b"title".to_vec() };
    t.push(b'\n');
    let comment = |t: &mut Vec<u8>| { if how == 1 { t.push(b'*'); t.extend_from_slice(&long); t.push(b'\n'); } if how == 4 { t.extend_from_slice(&white); t.push(b'\n'); } };
    let tail = |t: &mut Vec<u8>| { if how == 2 { t.push(b';'); t.extend_from_slice(&long); } t.push(b'\n'); };
    let gap = |t: &mut Vec<u8>| if how == 3 { t.extend_from_slice(&white) } else { t.push(b' ') };
    let mut d = Deck::new();
    d.subs.push(sub("cell", &[b"a", b"b"], &[(b"r", 5.0)], vec![dev("R1", &[b"a", b"b"], &[Val::Id(nm("r"))]), src('P', "V2", &[b"b", b"0"], &[vnum(0.0), vnum(1.0), vnum(2.0), vnum(3.0)])]));
    d.subs[0].cards = vec![inst("X1", &[b"n", b"m"], 1, &[(b"r", vnum(9.0))]), dev("C1", &[b"n", b"0"], &[vnum(4.0)])];
    for l in [&[&b"X1"[..], b"n", b"m", b"cell", b"r=9"][..], &[b".subckt", b"cell", b"a", b"b", b"r=5"], &[b"R1", b"a", b"b", b"{r}"], &[b"V2", b"b", b"0", b"PWL(0, 1, 2, 3)"], &[b".ends"], &[b"C1", b"n", b"0", b"4"], &[b".control"], &[b"tran", b"1", b"5"], &[b"option", b"RMAX", b"=", b"3"], &[b".endc"]] {
        comment(&mut t);
        for (i, f) in l.iter().enumerate() { if i > 0 { gap(&mut t); } t.extend_from_slice(f); }
        tail(&mut t);
    }
    let k = read_b(&t);
    vx::check(!k.errors, "a good deck");
    alike(&d.flat(), &k.flat());
    configured(&k.cfg(), 2, &[(RMAX, 3.0), (TSTEP, 1.0), (TSTOP, 5.0)]);
    vx::reach("end");
}
/// 30 library cards, of ten files; a section of 100 cards
pub fn c16_crowd() {
    let w = vx::choice("which", 3);
    let x = vx::real("x");
    let mut d = Deck::new();
    let mut t = "title\n".to_string();
    if w == 0 {
        for f in 0..10 { let mut l = "*\n".to_string(); for s in 0..3 { l += &format!(".lib s{}\nR{} n w{} {}\n.endl\nR7 n 0 9\n", s, 3 * f + s, 3 * f + s, if 3 * f + s == 17 { num(x) } else { format!("{}", 100 + 3 * f + s) }); } put(&format!("p/d{}/x.lib", f), l.as_bytes()); }
        for i in 0..30usize { let q = i * 7 % 30; t += &format!(".lib d{}/x.lib s{}\n", q / 3, q % 3); d.subs[0].cards.push(dev(&name("R", q), &[b"n", name("w", q).as_bytes()], &[vnum(if q == 17 { x } else { 100.0 + q as f64 })])); }
    } else if w == 1 {
        let mut l = "*\n".to_string();
        for i in 0..30usize {
            let q = i * 7 % 30;
            let v = if q == 17 { x } else { 100.0 + q as f64 };
            l += &format!(".lib s{}\n.subckt c{} p\nR1 p 0 {}\n.ends\nX{} n c{}\n.endl\n", i, i, if i == 17 { num(x) } else { format!("{}", 100 + i) }, i, i);
            t += &format!(".lib l.lib s{}\n", q);
            d.subs.push(sub(&name("c", q), &[b"p"], &[], vec![dev("R1", &[b"p", b"0"], &[vnum(v)])]));
            let k = d.subs.len() - 1;
            d.subs[0].cards.push(inst(&name("X", q), &[b"n"], k, &[]));
        }
        put("p/l.lib", l.as_bytes());
    } else {
        let mut l = "*\n.lib other\nR1 a b 2\n.endl\n.lib s\n".to_string();
        for i in 0..100usize { l += &format!("R{} n w{} {}\n", i, i, if i == 61 { num(x) } else { format!("{}", 100 + i) }); d.subs[0].cards.push(dev(&name("R", i), &[b"n", name("w", i).as_bytes()], &[vnum(if i == 61 { x } else { 100.0 + i as f64 })])); }
        l += ".endl\n.lib more\nR1 a b 2\n.endl\n";
        put("p/l.lib", l.as_bytes());
        t += ".lib l.lib s\n";
    }
    put("p/deck.spi", t.as_bytes());
    let (k, e) = read_at("p/deck.spi");
    vx::check(!e, "a good deck");
    alike(&d.flat(), &k.get_expanded_circuit());
    vx::reach("end");
}
/// 60 commands
pub fn c17_crowd() {
    let w = vx::choice("which", 3) as usize;
    let x = values("x", 3);
    let mut t = "title\nR1 a 0 1\n.control\n".to_string();
    for i in 0..60 {
        t += &match (i + w) % 5 { 0 => format!("option RELTOL = {}\n", i + 2), 1 => format!("tran {} {} {}\n", i + 2, i + 3, i + 4), 2 => format!("option VNTOL = {}\n", i + 5), 3 => "op\n".to_string(), _ => format!("option ABSTOL = {}\n", i + 6) };
        if i % 20 == 19 { t += ".endc\n* a comment\n.control\n"; }
    }
    t += &format!("option RELTOL = {}\ntran {} {}\noption RMAX = 5\n.endc\n", num(x[0]), num(x[1]), num(x[2]));
    let d = read(&t);
    vx::check(!d.errors, "a good deck");
    let last = |k: usize, off: f64| -> f64 { let mut v = 0.0; for i in 0..60 { if (i + w) % 5 == k { v = i as f64 + off; } } v };
    configured(&d.cfg(), 2, &[(RELTOL, x[0]), (ABSTOL, last(4, 6.0)), (RMAX, 5.0), (TSTEP, x[1]), (TSTOP, x[2])]);
    vx::reach("end");
}
/// a fault at the beginning, in the middle or at the end of a deck of 150 or 400 lines
pub fn c20_far() {
    let n = [150usize, 400][vx::choice("lines", 2) as usize];
    let at = [1, 100, n / 2 + 1, n - 1][vx::choice("place", 4) as usize];
    let how = vx::choice("fault", 5) as usize;
    let b = vx::byte("b");
    vx::assume((b > 32) & (b < 127) & (b != b';') & (b != b'='));
    let good = ((b >= b'a') & (b <= b'z')) | ((b >= b'A') & (b <= b'Z')) | ((b >= b'0') & (b <= b'9')) | (b == b'_');
    let mut t = b"title\n".to_vec();
    for i in 0..n {
        if i == at { t.extend_from_slice(match how { 0 | 1 => b"R999 n x", 2 => b"R999 n 0\n", 3 => b".ends\n", _ => b".tran 1 2\n" }); if how < 2 { t.push(b); t.extend_from_slice(b" 5\n"); } }
        t.extend_from_slice(match i % 7 { 0 => format!("V{} n{} 0 {}\n", i, i, i), 3 => "* note\n".to_string(), 5 => format!("X{} n{} cell\n", i, i), 6 => "\n".to_string(), _ => format!("R{} n{} n 1k\n", i, i - 1) }.as_bytes());
    }
    t.extend_from_slice(b".subckt cell a\nR1 a 0 1\n.ends\n");
    let d = read_b(&t);
    vx::check(d.errors == (how > 1 || !good), "a deck with a fault is reported, and only such a deck");
    vx::reach("end");
}

// ---------------------------------------------------------------- C18, C21
/// 1000 rows
pub fn c18_longer() {
    let vo = vx::real("vo");
    let mut ck = Circuit::new();
    add(&mut ck, 'V', &[1, 0], &[vo]);
    add(&mut ck, 'R', &[1, 2], &[1.0]);
    add(&mut ck, 'R', &[2, 0], &[3.0]);
    let mut cfg = tcfg(0.5, 500.0, 0.0);
    calm(&mut cfg);
    let t = tran(&ck, &cfg);
    columns(&t.w, 3, 1);
    vx::check(t.w.rows.len() == 1001, "a row per point");
    for (i, r) in t.w.rows.iter().enumerate() { vx::close(r[0], 0.5 * i as f64, 0.0, "the time"); vx::close(r[2], vo, 0.0, "the first node"); vx::close(r[3], vo * 0.75, 0.0, "the second node"); }
    vx::reach("end");
}
/// 100 and 700 elements, four of five a source: the branch indices
pub fn c21_bulk() {
    let n = [100usize, 700][vx::choice("sources", 2) as usize];
    let step = [1usize, 11][vx::choice("order", 2) as usize];
    let x = vx::real("x");
    let mut ck = Circuit::new();
    for i in 0..n {
        let k = i * step % n;
        match k % 5 { 0 => add(&mut ck, 'V', &[k + 1, 0], &[x]), 1 => add(&mut ck, 'W', &[k + 1, 0], &[x, 1.0, 1.0]), 2 => add(&mut ck, 'P', &[k + 1, 0], &[0.0, -1.0, 0.0, x, 1.0, 1.0]), 3 => add(&mut ck, 'E', &[k + 1, 0, 1, 2], &[x]), _ => add(&mut ck, 'R', &[k + 1, 0], &[1.0]) }
    }
    let vs: Vec<usize> = ck.elements.iter().map(el).filter(|e| is_v(e.k)).map(|e| e.idx).collect();
    vx::check(ck.count_voltage_sources() == vs.len(), "every voltage-defined source is counted once");
    let mut seen = vec![false; vs.len()];
    for i in &vs { vx::check(*i < vs.len() && !seen[*i], "branch indices are distinct and below the count"); seen[*i] = true; }
    vx::check(ck.count_nodes() == n + 1, "every node is covered");
    vx::reach("end");
}
