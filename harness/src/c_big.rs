//! Larger sizes and longer sequences: mostly concrete structures with a few symbolic values.
use super::{c_dc::*, c_deck::*, c_tran::*, util::*, vx};
use tiny_spice::analysis::Configuration;
use tiny_spice::bracket_expression::{extract_expression, extract_value, Expression};
use tiny_spice::circuit::{Circuit, VoltageSourcePwl};
use tiny_spice::engine::Engine;
harness!(c01_ladder, c01_grid, c02_dense, c02_far, c04_many, c05_long, c05_iter, c05_diode, c06_long, c06_scale, c07_cuts, c07_long, c08_many, c08_late, c10_digits, c11_long, c22_wide,
    c13_large, c13_many, c14_chain, c14_wide, c16_many, c16_six, c17_many, c19_sequence, c19_decks, c20_places);

/// a fixed sequence of small numbers
struct Lcg(u64);
impl Lcg { fn next(&mut self, k: u64) -> u64 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (self.0 >> 33) % k } }

// ---------------------------------------------------------------- C01, C02
/// node k of n under one of three numberings
fn renumber(n: usize, how: usize, k: usize) -> usize {
    if k == 0 { return 0; }
    match how { 0 => k, 1 => n + 1 - k, _ => { let mut m = 2; while (n + 1) % m == 0 || gcd(m, n + 1) != 1 { m += 1; } k * m % (n + 1) } }
}
fn gcd(a: usize, b: usize) -> usize { if b == 0 { a } else { gcd(b, a % b) } }
/// ladders of 4..60 nodes with every kind of element and four voltage-defined sources, in three numberings and three orders
pub fn c01_ladder() {
    let n = [4usize, 7, 12, 30, 60][vx::choice("size", 5) as usize];
    let how = vx::choice("numbering", 3) as usize;
    let order = vx::choice("order", 3) as usize;
    let t = n + 2; // two more nodes behind controlled sources
    let id = |k: usize| renumber(t, how, k);
    let mut l: Vec<(char, Vec<usize>, f64)> = vec![];
    for i in 1..n { l.push(('R', vec![i, i + 1], (1 + i % 7) as f64)); }
    for i in 1..=n { if i % 3 == 2 { l.push(('R', vec![0, i], (2 + i % 5) as f64)); } }
    l.push(('V', vec![1, 0], vx::real("v1")));
    l.push(('V', vec![n, n - 1], vx::real("v2")));
    l.push(('E', vec![n + 1, 0, 2, n], 3.0));
    l.push(('R', vec![n + 1, 2], 4.0));
    l.push(('V', vec![n + 2, n + 1], vx::real("v3")));
    l.push(('G', vec![2, 0, n + 2, 1], 0.5));
    l.push(('G', vec![n, 3, 1, 2], 0.25));
    l.push(('I', vec![0, 2], vx::real("i1")));
    l.push(('I', vec![3, n], vx::real("i2")));
    let m = l.len();
    let mut ck = Circuit::new();
    for k in 0..m {
        let k = match order { 0 => k, 1 => m - 1 - k, _ => { let mut s = 5; while gcd(s, m) != 1 { s += 1; } (k * s + 3) % m } };
        let (q, t, v) = &l[k];
        let t: Vec<usize> = t.iter().map(|x| id(*x)).collect();
        add(&mut ck, *q, &t, &[*v]);
    }
    linear(&ck, t);
}
/// a nonsingular linear circuit, one iteration
fn linear(ck: &Circuit, nodes: usize) {
    let els: Vec<El> = ck.elements.iter().map(el).collect();
    let s = system(&els, nodes, &dc_val, &no_two);
    let (x, _) = dc(ck, &cfg_dc(0));
    vx::check(x.len() == 1 + s.n, "one value per node and voltage source");
    vx::close(x[0], 0.0, 0.0, "ground is at 0 V");
    s.holds(&x, "Kirchhoff's laws and branch equations hold");
    vx::reach("end");
}
/// a square grid of resistors with current sources at its corners and a source between two inner nodes
pub fn c01_grid() {
    let w = [3usize, 5, 7][vx::choice("size", 3) as usize];
    let n = w * w;
    let how = vx::choice("numbering", 3) as usize;
    let id = |r: usize, c: usize| renumber(n, how, 1 + r * w + c);
    let mut ck = Circuit::new();
    let mut g = Lcg(7);
    for r in 0..w { for c in 0..w {
        if c + 1 < w { add(&mut ck, 'R', &[id(r, c), id(r, c + 1)], &[(1 + g.next(9)) as f64]); }
        if r + 1 < w { add(&mut ck, 'R', &[id(r + 1, c), id(r, c)], &[(1 + g.next(9)) as f64]); }
    } }
    add(&mut ck, 'R', &[id(0, 0), 0], &[2.0]);
    add(&mut ck, 'I', &[0, id(0, w - 1)], &[vx::real("i1")]);
    add(&mut ck, 'I', &[id(w - 1, 0), 0], &[vx::real("i2")]);
    add(&mut ck, 'V', &[id(1, 1), id(w - 1, w - 1)], &[vx::real("v")]);
    linear(&ck, n);
}
/// the equations given as rows of coefficients; no row or column is missing
fn equations(a: &[Vec<f64>]) {
    watch_pivots();
    let n = a.len();
    let mut ck = Circuit::new();
    for i in 0..n {
        for j in 0..n { if !vx::is_zero(a[i][j]) { add(&mut ck, 'G', &[i + 1, 0, j + 1, 0], &[a[i][j]]); } }
        add(&mut ck, 'I', &[0, i + 1], &[nreal("b", i)]);
    }
    linear(&ck, n);
    if pivots() > 0 { vx::reach("pivot"); }
}
/// dense systems of order 8..24 with fixed coefficients, every right-hand side
pub fn c02_dense() {
    let n = [8usize, 12, 16, 24][vx::choice("order", 4) as usize];
    let mut g = Lcg(1 + vx::choice("matrix", 2));
    let mut a = vec![vec![0.0; n]; n];
    for i in 0..n { for j in 0..n { a[i][j] = g.next(19) as f64 - 9.0; } }
    equations(&a);
}
/// orders up to 70 whose pivots are far below the diagonal, or of very different sizes
pub fn c02_far() {
    let n = [13usize, 40, 70][vx::choice("order", 3) as usize];
    let shift = [1, 2, n / 2, n - 1][vx::choice("shift", 4) as usize];
    let kind = vx::choice("kind", 3);
    let mut a = vec![vec![0.0; n]; n];
    for i in 0..n {
        a[i][(i + shift) % n] = match kind { 0 => 1.0, 1 => if i % 2 == 0 { 1e6 } else { 1e-6 }, _ => -2.0 };
        if kind == 2 { a[i][i] += 1.0; if i > 2 { a[i][i - 3] += 0.5; } }
        if kind == 1 { a[n - 1][i] += 3.0; }
    }
    equations(&a);
}

// ---------------------------------------------------------------- C04
/// diodes that share terminals with others of another size, three diodes, a diode among sources
pub fn c04_many() {
    let w = 10 + vx::choice("circuit", 5);
    nr(w, vx::real("drive"), vx::choice("itl1", 2) as usize);
}

// ---------------------------------------------------------------- C05
/// forty steps
pub fn c05_long() {
    let mut ck = Circuit::new();
    let o = between("o", 1.0, 2.0);
    let pts = |v: f64| vec![0.0, -1.0, 0.0, v, 7.0, 1.0, 11.0, 4.0 * v, 12.0, 3.0, 25.0, 2.0 * v, 50.0, v];
    let nodes = match vx::choice("circuit", 3) {
        0 => { add(&mut ck, 'P', &[1, 0], &pts(o)); add(&mut ck, 'R', &[1, 2], &[1.0]); add(&mut ck, 'C', &[2, 0], &[2.0]); 2 }
        1 => { add(&mut ck, 'P', &[0, 3], &pts(o)); add(&mut ck, 'R', &[3, 1], &[1.0]); add(&mut ck, 'C', &[1, 2], &[1.0]); add(&mut ck, 'R', &[2, 0], &[1.0]); add(&mut ck, 'C', &[0, 1], &[1.0]); 3 }
        _ => { add(&mut ck, 'P', &[1, 0], &pts(o)); for i in 1..6 { add(&mut ck, 'R', &[i, i + 1], &[1.0]); add(&mut ck, 'C', &[i + 1, 0], &[1.0]); } add(&mut ck, 'I', &[0, 6], &[1.0]); 6 }
    };
    let k = if nodes == 6 { 15 } else { 40 };
    let mut cfg = tcfg(1.0, k as f64, 0.0);
    calm(&mut cfg);
    let t = tran(&ck, &cfg);
    euler(&ck, nodes, &t, &|_, e, x| if e.k == 'P' { let mut u = 0.0; for w in e.pts.windows(2) { if x >= w[0].0 && x <= w[1].0 { u = w[0].1 + (w[1].1 - w[0].1) * (x - w[0].0) / (w[1].0 - w[0].0); } } u } else { e.v[0] });
    vx::check(t.w.rows.len() == 1 + k, "DC and every step");
    vx::reach("end");
}
/// several iterations per point: the companion stays that of the point before
pub fn c05_iter() {
    let mut ck = Circuit::new();
    let w = vx::choice("which", 4);
    let (o, a) = (between("o", 3.0, 5.0), between("a", 0.5, 1.0));
    add(&mut ck, 'S', &[0, 1], &[o, a, 0.125]);
    add(&mut ck, 'R', &[1, 0], &[1.0]);
    let nodes = if w & 1 == 0 { add(&mut ck, 'C', &[1, 0], &[2.0]); 1 } else { add(&mut ck, 'C', &[2, 1], &[1.0]); add(&mut ck, 'R', &[0, 2], &[1.0]); add(&mut ck, 'C', &[0, 1], &[0.5]); 2 };
    let mut cfg = tcfg(1.0, 3.0, 0.0);
    cfg.FS = 1.0;
    cfg.RMAX = 1.0;
    cfg.RELTOL = 0.0;
    cfg.VNTOL = 1e-3;
    if w >= 2 { cfg.ITL4 = 3; }
    let t = tran(&ck, &cfg);
    euler(&ck, nodes, &t, &ramp);
    vx::check(t.w.rows.len() == 4, "DC and three steps");
    vx::check(t.iterations >= t.dc_its + 6, "more than one iteration per point");
    vx::reach("end");
}
/// a capacitor beside a diode: the equations of the node without the diode
pub fn c05_diode() {
    let mut ck = Circuit::new();
    add(&mut ck, 'P', &[1, 0], &[0.0, -1.0, 0.0, 0.0, 4.0, between("v", 0.5, 1.0)]);
    add(&mut ck, 'R', &[1, 2], &[100.0]);
    let rev = vx::choice("reversed", 2) == 1;
    add(&mut ck, 'C', &if rev { [3, 2] } else { [2, 3] }, &[0.01]);
    add(&mut ck, 'D', &[3, 0], &[1e-9, 27.0]);
    add(&mut ck, 'R', &[3, 0], &[100.0]);
    let mut cfg = tcfg(1.0, 2.0, 0.0);
    cfg.FS = 1.0;
    cfg.RMAX = 1.0;
    cfg.VNTOL = 10.0; // one iteration per point
    cfg.RELTOL = 1.0;
    cfg.ABSTOL = 10.0;
    let t = tran(&ck, &cfg);
    let r = &t.w.rows;
    for k in 1..r.len() {
        let (p, q) = (&r[k - 1], &r[k]);
        let i = (q[2] - q[3]) / 100.0;
        let j = 0.01 / (q[0] - p[0]) * ((q[3] - q[4]) - (p[3] - p[4]));
        vx::close(i, j, if vx::SYM { 0.0 } else { 10.0 }, "the current through R goes through the capacitor");
    }
    vx::check(r.len() == 3, "DC and two steps");
    vx::reach("end");
}

// ---------------------------------------------------------------- C06
/// a hundred and more steps
pub fn c06_long() {
    let f = vx::real("f");
    let (vo, va) = (between("vo", 5.0, 10.0), 1.0);
    let w = vx::choice("which", 4) as usize;
    let (step, stop) = [(0.1, 12.0), (1.0, 150.5), (0.25, 16.0), (3.0, 200.0)][w];
    let start = [0.0, 100.0, 8.1, 0.0][w];
    let mut cfg = tcfg(step, stop, start);
    cfg.RELTOL = 1.0;
    cfg.FS = 1.0;
    cfg.RMAX = [1.0, 1.0, 1.0, 2.0][w];
    let t = tran(&probe(vo, va, f), &cfg);
    axis(&t, &cfg, &|x| at(vo, va, f, x));
    vx::check(t.w.rows.len() == [121, 53, 33, 35][w], "every step is there");
    vx::reach("end");
}
/// steps of very different sizes
pub fn c06_scale() {
    let f = vx::real("f");
    let w = vx::choice("scale", 5) as usize;
    let step = [1e-6, 1e-3, 1e-8, 1e3, 2e6][w];
    let m = between("stop", 0.5, 3.0);
    let mut cfg = tcfg(step, m * step, 0.0);
    cfg.RELTOL = 1.0;
    cfg.FS = 1.0;
    cfg.RMAX = 1.0;
    let t = tran(&probe(1.0, 2.0, f), &cfg);
    let rows = &t.w.rows;
    let n = rows.len();
    vx::check(n as f64 - 1.0 >= m && (n as f64) - 2.0 < m, "equal steps and a last one to TSTOP");
    for k in 1..n {
        vx::check(rows[k][0] > rows[k - 1][0], "times strictly increase");
        if k + 1 < n { vx::close(rows[k][0], step * k as f64, if vx::SYM { 0.0 } else { 1.0 }, "multiples of the step"); }
    }
    vx::close(rows[n - 1][0], cfg.TSTOP, if vx::SYM { 0.0 } else { 1.0 }, "the last point is at TSTOP");
    vx::close(t.end, cfg.TSTOP, 0.0, "the reported end is TSTOP");
    vx::reach("end");
}

// ---------------------------------------------------------------- C07
/// a ramp that needs many cuts in a row before two solutions agree
pub fn c07_cuts() {
    let mut cfg = tcfg(1024.0, 4096.0, 0.0);
    cfg.FS = 1.0;
    cfg.FT = 0.5;
    cfg.ITL4 = 1;
    cfg.ITL3 = 0;
    cfg.RELTOL = 0.0;
    cfg.VNTOL = 1.0;
    cfg.RMIN = 4e-6; // down to 2^-17 of the step
    let k = vx::choice("slope", 8);
    let (lo, hi) = (((1u64 << (2 * k)) as f64) / 256.0, ((4u64 << (2 * k)) as f64) / 256.0);
    let s = between("slope", lo, hi);
    let mut ck = Circuit::new();
    add(&mut ck, 'P', &[1, 0], &[0.0, -1.0, 0.0, 0.0, 4096.0, 4096.0 * s]);
    add(&mut ck, 'R', &[1, 0], &[1.0]);
    follows(&ck, &cfg, 2, 1, &mut |x| vec![s * x, -s * x]);
    vx::reach("end");
}
/// the step falls and recovers over dozens of points
pub fn c07_long() {
    let w = vx::choice("which", 3) as usize;
    let mut cfg = tcfg(1.0, [24.0, 30.0, 12.0][w], 0.0);
    cfg.FS = 0.25;
    cfg.FT = 0.5;
    cfg.RMAX = [2.0, 4.0, 1.0][w];
    cfg.RMIN = 1e-3;
    cfg.ITL4 = 2;
    cfg.ITL3 = [3, 2, 2][w];
    cfg.RELTOL = 0.0;
    cfg.VNTOL = 0.5;
    let s = between("v", 0.25, 4.0);
    let mut ck = Circuit::new();
    // flat, a ramp, flat
    add(&mut ck, 'P', &[1, 0], &[0.0, -1.0, 0.0, s, 5.0, s, 10.0, 2.0 * s, 40.0, 2.0 * s]);
    add(&mut ck, 'R', &[1, 0], &[1.0]);
    follows(&ck, &cfg, 2, 1, &mut |x| { let v = if x <= 5.0 { s } else if x <= 10.0 { s * x / 5.0 } else { 2.0 * s }; vec![v, -v] });
    vx::reach("end");
}

// ---------------------------------------------------------------- C08
fn stairs(n: usize, td: f64, repeat: f64) -> VoltageSourcePwl {
    let mut pat = vec![];
    for i in 0..n { pat.push(((i * i + i) as f64 / 2.0, nreal("v", i))); }
    VoltageSourcePwl { p: 1, n: 0, pat, t_delay: td, repeat, idx: 0 }
}
fn line(pat: &[(f64, f64)], i: usize, u: f64) -> f64 {
    let ((t1, v1), (t2, v2)) = (pat[i], pat[i + 1]);
    v1 + (v2 - v1) * (u - t1) / (t2 - t1)
}
/// patterns of 10 and 25 points, every segment, every time within it
pub fn c08_many() {
    let n = [10usize, 25][vx::choice("points", 2) as usize];
    let rep = vx::choice("repeat", 2) == 1;
    let seg = vx::choice("segment", n as u64 - 1) as usize;
    let td = between("td", 0.0, 100.0);
    let s = stairs(n, td, if rep { 0.0 } else { -1.0 });
    let (a, b) = (s.pat[seg].0, s.pat[seg + 1].0);
    let u = between("u", a, b);
    if rep && seg + 2 == n { vx::assume(u < b); }
    vx::close(s.evaluate(u + td), line(&s.pat, seg, u), 0.0, "interpolates between the points");
    vx::reach("end");
}
/// the pattern goes on repeating for a long time
pub fn c08_late() {
    let n = 4;
    let td = between("td", 0.0, 3.0);
    let s = stairs(n, td, 0.0);
    let per = s.pat[n - 1].0;
    let k = [1.0, 7.0, 31.0, 100.0, 1000.0][vx::choice("period", 5) as usize];
    let seg = vx::choice("segment", n as u64 - 1) as usize;
    let (a, b) = (s.pat[seg].0, s.pat[seg + 1].0);
    let u = between("u", a, b);
    vx::assume(u < b);
    if seg == 0 { vx::assume(u > a); } // the seam belongs to both ends
    let (x, y) = (s.evaluate(k * per + u + td), line(&s.pat, seg, u));
    vx::close(x, y, if vx::SYM { 0.0 } else { 1e3 * (s.pat[seg].1.abs() + s.pat[seg + 1].1.abs()) }, "the pattern repeats");
    vx::reach("end");
}

// ---------------------------------------------------------------- C10, C11
pub fn digit(n: &str) -> u8 { let c = vx::byte(n); vx::assume((c >= b'0') & (c <= b'9')); c }
/// numbers of up to 45 digits, some of them arbitrary
pub fn c10_digits() {
    let (whole, frac) = [(0usize, 25usize), (9, 0), (12, 3), (20, 0), (25, 20), (1, 40), (40, 0)][vx::choice("length", 7) as usize];
    let sign = vx::choice("sign", 2) == 1;
    let (suffix, m) = [("", 1.0), ("k", 1e3), ("nF", 1e-9), ("e-12", 1e-12), ("e15", 1e15)][vx::choice("suffix", 5) as usize];
    let mut t = vec![];
    if sign { t.push(b'-'); }
    let mut x = 0.0;
    if whole == 0 { t.push(b'0'); }
    for i in 0..whole {
        let d = if i == 0 || i == 8 || i + 1 == whole { digit(&name("w", i)) } else { b'1' + (i % 9) as u8 };
        t.push(d);
        x = x * 10.0 + (d - b'0') as f64;
    }
    if frac > 0 { t.push(b'.'); }
    let mut w = 1.0;
    for i in 0..frac {
        let d = if i == 0 || i == 10 || i + 1 == frac { digit(&name("f", i)) } else { b'1' + (i * 2 % 9) as u8 };
        t.push(d);
        w /= 10.0;
        x += (d - b'0') as f64 * w;
    }
    t.extend_from_slice(suffix.as_bytes());
    if sign { x = -x; }
    let g = extract_value(text(&t));
    vx::check(g.is_some(), "a number is accepted");
    vx::close(g.unwrap(), x * m, 0.0, "the number has its value");
    vx::reach("end");
}
/// identifiers of up to 70 characters
pub fn c11_long() {
    let n = [5usize, 8, 9, 16, 17, 33, 64, 70][vx::choice("length", 8) as usize];
    let at = [0, n / 2, n - 1][vx::choice("place", 3) as usize];
    let mut v = vec![b'{', b' '];
    let mut w = vec![];
    for i in 0..n { w.push(if i == at { let c = vx::byte("c"); vx::assume(((c >= b'a') & (c <= b'z')) | ((c >= b'A') & (c <= b'Z')) | ((c >= b'0') & (c <= b'9'))); c } else { b"pq7Zr"[i % 5] }); }
    v.extend_from_slice(&w);
    v.push(b'}');
    match extract_expression(text(&v)) {
        Some(Expression::Identifier(s)) => {
            let b = s.as_bytes();
            vx::check(b.len() == n, "the identifier keeps its length");
            let mut same = true;
            for i in 0..n { same &= b[i] == w[i]; }
            vx::check(same, "the identifier is the text between the braces");
        }
        _ => vx::check(false, "{ident} is an identifier"),
    }
    vx::reach("end");
}

// ---------------------------------------------------------------- C22
/// six nodes and four sources: one entry is arbitrary, another may be non-finite
pub fn c22_wide() {
    let (nn, nv) = (6usize, 4usize);
    let mut ckt = Circuit::new();
    for i in 0..nn { ckt.add_r(name("r", i), i + 1, 0, 1.0); }
    for i in 0..nv { ckt.add_v(1 + i, 0, 1.0); }
    let mut cfg = Configuration::new();
    cfg.ITL1 = 0;
    let mut eng = Engine::new();
    eng.dc_operating_point(&ckt, &cfg);
    cfg.RELTOL = vx::real("reltol");
    cfg.VNTOL = vx::real("vntol");
    cfg.ABSTOL = vx::real("abstol");
    vx::assume((cfg.RELTOL >= 0.0) & (cfg.VNTOL >= 0.0) & (cfg.ABSTOL >= 0.0) & (cfg.RELTOL <= 0.5));
    let n = 1 + nn + nv;
    let k = vx::choice("entry", n as u64) as usize;
    let bad = vx::choice("bad", n as u64 + 1) as usize;
    let mut x: Vec<f64> = (0..n).map(|i| i as f64 - 4.0).collect();
    let mut y = x.clone();
    x[k] = vx::real("x");
    y[k] = vx::real("y");
    if bad > 0 { x[bad - 1] = f64::NAN; }
    let far = (x[k] - y[k]).abs() > x[k].abs() * cfg.RELTOL + if k <= nn { cfg.VNTOL } else { cfg.ABSTOL };
    match eng.convergence_check(&x, &y, &cfg) {
        Err(_) => { vx::check(bad > 0, "an error only for a non-finite entry"); vx::reach("error"); }
        Ok(c) => {
            vx::check(bad == 0, "a non-finite entry is an error");
            vx::check(c != far, "accepted exactly when every entry is within its tolerance");
            vx::reach(if c { "accepted" } else { "rejected" });
        }
    }
    vx::reach("end");
}

// ---------------------------------------------------------------- C13, C14
pub fn vnum(x: f64) -> Val { Val::Num(x) }
pub fn net_name(i: usize) -> Name { format!("w{}", i).into_bytes() }
/// five definitions that use the ones before them, 2 to 12 ports, 0 to 6 parameters each; everything but one name fixed
fn generated(seed: u64, x: &[f64], s: &Name) -> Deck {
    let mut g = Lcg(seed);
    let mut d = Deck::new();
    let mut unique = 100.0;
    let pn = |i: usize| -> Name { ["r", "rr", "r2", "cap", "Cap", "k"][i].as_bytes().to_vec() };
    for level in 1..=5usize {
        let np = [2usize, 12, 3, 7, 4][(level + seed as usize) % 5];
        let npar = [6usize, 2, 0, 4, 3][(level + seed as usize) % 5];
        let ports: Vec<Name> = (0..np).map(|i| if i < 26 { vec![b'a' + ((i * 7 + level) % 26) as u8] } else { net_name(i) }).collect();
        let par: Vec<(Name, f64)> = (0..npar).map(|i| (pn(i), 10.0 * level as f64 + i as f64)).collect();
        let inner = 3 + g.next(4) as usize;
        let any_net = |g: &mut Lcg| -> Name { let k = g.next((np + inner) as u64 + 1) as usize; if k < np { ports[k].clone() } else if k < np + inner { net_name(k - np) } else { nm("0") } };
        let mut cards = vec![];
        for (i, p) in ports.iter().enumerate() { unique += 1.0; let o = any_net(&mut g); cards.push(dev(&name("R", i), &[p, &o], &[vnum(unique)])); }
        for i in 0..npar { let (a, b) = (any_net(&mut g), any_net(&mut g)); cards.push(dev(&name("C", i), &[&a, &b], &[Val::Id(pn(i))])); }
        if level > 1 {
            for i in 0..if level > 3 { 1 } else { 2 } {
                let sub = 1 + g.next(level as u64 - 1) as usize;
                let sub = if i == 0 { level - 1 } else { sub };
                let t: Vec<Name> = (0..d.subs[sub].ports.len()).map(|_| any_net(&mut g)).collect();
                let mut over = vec![];
                for (j, (n, _)) in d.subs[sub].par.clone().iter().enumerate() {
                    match g.next(3) { 0 => {} 1 if npar > 0 => over.push((n.clone(), Val::Id(pn(g.next(npar as u64) as usize)))), _ => { unique += 1.0; over.push((n.clone(), vnum(unique + 0.5 * j as f64))) } }
                }
                if over.len() > 1 && g.next(2) == 1 { over.reverse(); }
                let tr: Vec<&[u8]> = t.iter().map(|v| &v[..]).collect();
                cards.push(Card { par: over, ..inst(&name("X", i), &tr, sub, &[]) });
            }
        }
        let at = g.next(np as u64) as usize;
        if level == 3 || level == 5 { cards[at].t[1] = s.clone(); }
        if level == 1 { cards[0].v = vec![vnum(x[0])]; }
        d.subs.push(Sub { name: ["", "cell", "cell2", "a", "Cell", "top"][level].to_string(), ports, par, cards });
    }
    let mut cards = vec![];
    for i in 0..6 { unique += 1.0; cards.push(dev(&name("R", i), &[&net_name(i), &net_name((i * 5 + 2) % 7)], &[vnum(unique)])); }
    for (i, k) in [5usize, 1, 3].iter().enumerate() {
        let t: Vec<Name> = (0..d.subs[*k].ports.len()).map(|_| net_name(g.next(7) as usize)).collect();
        let tr: Vec<&[u8]> = t.iter().map(|v| &v[..]).collect();
        let over: Vec<(Name, Val)> = d.subs[*k].par.iter().take(1).map(|p| (p.0.clone(), vnum(x[1 + i]))).collect();
        cards.push(Card { par: over, ..inst(&name("X", i), &tr, *k, &[]) });
    }
    d.subs[0].cards = cards;
    d
}
/// chains of five definitions with up to 12 ports, 6 parameters, dozens of elements
pub fn c13_large() {
    let w = vx::choice("deck", 8);
    let x = values("x", 4);
    let s = letter("s");
    let d = generated(1 + w, &x, &s);
    d.agrees([&[0, 1, 2, 3, 4, 5], &[5, 4, 3, 2, 1, 0], &[3, 1, 0, 5, 2, 4], &[2, 5, 0, 4, 1, 3]][w as usize % 4]);
    vx::reach("end");
}
/// fifteen instances of one definition, each with a value of its own, in a chain and across
pub fn c13_many() {
    let k = [5usize, 15][vx::choice("instances", 2) as usize];
    let x = vx::real("x");
    let h = sname("h", 1);
    let mut d = Deck::new();
    d.subs.push(sub("s", &[b"a", b"b", b"c"], &[(b"r", 7.0)], vec![dev("R1", &[b"a", b"i"], &[Val::Id(nm("r"))]), dev("E1", &[b"i", b"0", b"b", b"a"], &[vnum(3.0)]), dev("D1", &[b"i", b"c"], &[])]));
    let mut cards: Vec<Card> = (0..k).map(|i| { let (a, b, c) = (net_name(i), net_name(i + 1), net_name(i * 7 % k)); inst(&name("X", i), &[&a, if i == k / 2 { &h } else { &b }, &c], 1, &[(b"r", if i + 1 == k { vnum(x) } else { vnum(i as f64 + 20.0) })]) }).collect();
    cards.insert(0, dev("R1", &[&h, b"w1"], &[vnum(1.0)]));
    d.subs[0].cards = cards;
    d.agrees(&[1, 0]);
    vx::reach("end");
}
/// a value handed down through six levels, changed or not on the way
pub fn c14_chain() {
    let w = vx::choice("default at", 7) as usize;
    let x = values("x", 3);
    let same = vx::choice("names", 2) == 0;
    let p = |l: usize| -> Name { if same { nm("p") } else { format!("p{}", l).into_bytes() } };
    let mut d = Deck::new();
    for l in 1..=6usize {
        let mut cards = vec![dev("R1", &[b"a", b"0"], &[Val::Id(p(l))]), dev("C1", &[b"a", b"0"], &[Val::Id(nm("q"))])];
        if l > 1 {
            // at one level the value is not handed on: the default of the next one counts
            let over: Vec<(Name, Val)> = if l == w { vec![] } else if l == w + 1 { vec![(p(l - 1), vnum(x[1]))] } else { vec![(p(l - 1), Val::Id(p(l)))] };
            cards.push(Card { par: over, ..inst("X1", &[b"b"], l - 1, &[]) });
        }
        d.subs.push(Sub { name: name("s", l), ports: vec![nm("a")], par: vec![(p(l), 40.0 + l as f64), (nm("q"), 50.0 + l as f64)], cards });
    }
    d.subs[0].cards = vec![inst("X1", &[b"n"], 6, &[(&p(6), vnum(x[0])), (b"q", vnum(x[2]))]), inst("X2", &[b"m"], 6, &[])];
    d.agrees(&[0, 1, 2, 3, 4, 5, 6]);
    vx::reach("end");
}
/// definitions with nine parameters, overridden in several patterns
pub fn c14_wide() {
    let w = vx::choice("pattern", 6) as usize;
    let x = values("x", 4);
    let pn: Vec<Name> = (0..9).map(|i| ["p", "P", "p1", "p10", "pp", "q", "rload", "rload2", "RLOAD"][i].as_bytes().to_vec()).collect();
    let mut d = Deck::new();
    let par: Vec<(&[u8], f64)> = pn.iter().enumerate().map(|(i, n)| (&n[..], if i == 4 { x[0] } else { 30.0 + i as f64 })).collect();
    let cards = pn.iter().enumerate().map(|(i, n)| dev(&name("R", i), &[b"a", &net_name(i)], &[Val::Id(n.clone())])).collect();
    d.subs.push(sub("s", &[b"a"], &par, cards));
    let pat: Vec<usize> = match w { 0 => (0..9).collect(), 1 => (0..9).rev().collect(), 2 => vec![8], 3 => vec![0, 8, 4], 4 => vec![3, 2, 1, 0], _ => vec![7, 6] };
    let over: Vec<(&[u8], Val)> = pat.iter().enumerate().map(|(k, i)| (&pn[*i][..], if k == 0 { vnum(x[1]) } else { vnum(60.0 + k as f64) })).collect();
    d.subs[0].cards = vec![inst("X1", &[b"n"], 1, &over), inst("X2", &[b"n"], 1, &[]), inst("X3", &[b"n"], 1, &over[..1]), inst("X4", &[b"n"], 1, &[(&pn[5], vnum(x[2]))])];
    d.agrees(&[0, 1]);
    vx::reach("end");
}

// ---------------------------------------------------------------- C16, C17
/// one of eight sections, in libraries with others of similar names
pub fn c16_many() {
    const N: [&str; 8] = ["tt", "t", "ttt", "TT", "tt_1", "ss", "ff", "a_rather_long_section_name_0123456789"];
    let w = vx::choice("section", 8) as usize;
    let x = vx::real("x");
    let mut l = "* a library\nR1 n 0 9\n".to_string();
    for (i, s) in N.iter().enumerate() { l += &format!(".lib {}\nR1 n m {}\n* {}\n.subckt cell{} a\nR2 a 0 {}\n.ends\n.endl\nR3 n 0 9\n", s, if i == w { num(x) } else { format!("{}", i + 2) }, s, i, 20 + i); }
    put("l.lib", l.as_bytes());
    put("deck.spi", format!("title\nX1 n cell{}\n.lib l.lib {}\nR9 m 0 99\n", w, N[w]).as_bytes());
    let d = read_file("deck.spi");
    vx::check(!d.errors, "a good deck");
    let mut k = Deck::new();
    k.subs.push(sub("cell", &[b"a"], &[], vec![dev("R2", &[b"a", b"0"], &[vnum(20.0 + w as f64)])]));
    k.subs[0].cards = vec![inst("X1", &[b"n"], 1, &[]), dev("R1", &[b"n", b"m"], &[vnum(x)]), dev("R9", &[b"m", b"0"], &[vnum(99.0)])];
    k.flat().compare(&d.flat());
    vx::reach("end");
}
fn read_file(p: &str) -> Read { let mut rdr = tiny_spice::spice::Reader::new(); let errors = rdr.read(std::path::Path::new(p)); Read { errors, rdr } }
/// six library cards, of three files in three directories, among cards
pub fn c16_six() {
    let w = vx::choice("rotation", 6) as usize;
    let x = values("x", 6);
    let f = ["a.lib", "sub/a.lib", "sub/deep/b.lib"];
    for (j, p) in f.iter().enumerate() { put(&format!("p/{}", p), format!("*\n.lib one\nR{0} n w{0} {1}\n.endl\n.lib two\nR{2} n w{2} {3}\n.endl\n", 2 * j, num(x[2 * j]), 2 * j + 1, num(x[2 * j + 1])).as_bytes()); }
    let mut t = "title\n".to_string();
    let mut k = Deck::new();
    for i in 0..6 {
        let q = (i * 5 + w) % 6;
        t += &format!(".lib {} {}\nRx{} w{} 0 {}\n", f[q / 2], ["one", "two"][q % 2], i, i, 10 + i);
        k.subs[0].cards.push(dev(&name("Rx", i), &[&net_name(i), b"0"], &[vnum(10.0 + i as f64)]));
        k.subs[0].cards.push(dev(&name("R", q), &[b"n", &net_name(q)], &[vnum(x[q])]));
    }
    put("p/deck.spi", t.as_bytes());
    let d = read_file("p/deck.spi");
    vx::check(!d.errors, "a good deck");
    k.flat().compare(&d.flat());
    vx::reach("end");
}
/// control blocks of a dozen commands, in one block or several: the last of a kind counts
pub fn c17_many() {
    let w = vx::choice("which", 12) as usize;
    let x = values("x", 4);
    let blocks = w % 2 == 1;
    let mut t = "title\nR1 a 0 1\n.control\n".to_string();
    let last = w / 2;
    let mut q = 0;
    for i in 0..6usize {
        let k = (i + last) % 6;
        t += &match k { 0 => "option RELTOL = 0.25\n".to_string(), 1 => "tran 3 4 5\n".to_string(), 2 => "option ABSTOL = 0.125\n".to_string(), 3 => "op\n".to_string(), 4 => format!("tran {} {}\n", num(x[0]), num(x[1])), _ => format!("option RMAX = {}\n", num(x[2])) };
        if k == 1 || k == 3 || k == 4 { q = k; }
        if i % 2 == 1 && blocks { t += &format!(".endc\nR{} a 0 2\n.control\n", i); }
    }
    t += &format!("option RELTOL = {}\n.endc\n", num(x[3]));
    let d = read(&t);
    vx::check(!d.errors, "a good deck");
    let c = d.cfg();
    use tiny_spice::analysis::Kind;
    vx::check(matches!((&c.kind, q), (Some(Kind::DcOperatingPoint), 3) | (Some(Kind::Transient), 1) | (Some(Kind::Transient), 4)), "the last analysis counts");
    vx::close(c.RELTOL, x[3], 0.0, "the last RELTOL");
    vx::close(c.ABSTOL, 0.125, 0.0, "ABSTOL");
    vx::close(c.RMAX, x[2], 0.0, "RMAX");
    if q == 4 { vx::close(c.TSTEP, x[0], 0.0, "TSTEP"); vx::close(c.TSTOP, x[1], 0.0, "TSTOP"); vx::close(c.TSTART, 0.0, 0.0, "no TSTART"); }
    if q == 1 { vx::close(c.TSTEP, 3.0, 0.0, "TSTEP"); vx::close(c.TSTOP, 4.0, 0.0, "TSTOP"); vx::close(c.TSTART, 5.0, 0.0, "TSTART"); }
    vx::close(c.VNTOL, 1e-6, 0.0, "VNTOL is left alone");
    vx::reach("end");
}

// ---------------------------------------------------------------- C19
/// circuits of one size: three unknowns each
fn alike(w: usize, x: f64) -> Circuit {
    let mut c = Circuit::new();
    match w {
        0 => { add(&mut c, 'V', &[1, 0], &[x]); add(&mut c, 'R', &[1, 2], &[2.0]); add(&mut c, 'R', &[2, 0], &[3.0]); }
        1 => { add(&mut c, 'V', &[2, 0], &[1.0]); add(&mut c, 'R', &[1, 2], &[x]); add(&mut c, 'R', &[1, 0], &[3.0]); }
        2 => { add(&mut c, 'R', &[1, 0], &[3.0]); add(&mut c, 'V', &[1, 2], &[x]); add(&mut c, 'R', &[2, 0], &[5.0]); add(&mut c, 'I', &[0, 2], &[1.0]); }
        3 => { add(&mut c, 'R', &[1, 0], &[3.0]); add(&mut c, 'E', &[2, 0, 1, 0], &[2.0]); add(&mut c, 'I', &[0, 1], &[x]); add(&mut c, 'R', &[2, 0], &[5.0]); }
        4 => { add(&mut c, 'V', &[1, 0], &[x]); add(&mut c, 'R', &[1, 2], &[2.0]); add(&mut c, 'C', &[2, 0], &[3.0]); add(&mut c, 'R', &[2, 0], &[4.0]); }
        _ => { add(&mut c, 'V', &[1, 0], &[x]); add(&mut c, 'R', &[1, 2], &[100.0]); add(&mut c, 'D', &[2, 0], &[1e-9, 27.0]); add(&mut c, 'R', &[2, 0], &[100.0]); }
    }
    for i in 0..c.count_nodes() { c.node_id_lut.insert(i, name("n", i)); }
    c
}
/// five runs on one engine, then one more, against a fresh engine
pub fn c19_sequence() {
    let w = vx::choice("which", 12) as usize;
    let (last, dcl) = (w % 6, w >= 6);
    let mut cfg = tcfg(1.0, 2.0, 0.0);
    calm(&mut cfg);
    cfg.ITL1 = 1;
    cfg.ITL4 = 2;
    let run = |e: &mut Engine, k: usize, x: f64, f: &str, dc: bool| { let mut c = cfg.clone(); c.set_wavefile(f); let ck = alike(k, x); let s = if dc { e.dc_operating_point(&ck, &c) } else { e.transient_analysis(&ck, &c) }; (s.iterations, s.end) };
    let x = between("x", 0.25, 0.5);
    let mut fresh = Engine::new();
    let want = run(&mut fresh, last, x, "fresh.dat", dcl);
    let mut used = Engine::new();
    for i in 0..5 { run(&mut used, (last + 1 + i * (1 + w / 6)) % 5, 2.0 + i as f64, "again.dat", (i + w) % 3 == 0); }
    // two engines do not disturb each other either
    let mut other = Engine::new();
    run(&mut other, (last + 2) % 5, 9.0, "other.dat", false);
    let got = run(&mut used, last, x, "again.dat", dcl);
    vx::check(got.0 == want.0, "the same number of iterations");
    vx::close(got.1, want.1, 0.0, "the same end");
    let (p, q) = (used.dc().unwrap(), fresh.dc().unwrap());
    vx::check(p.len() == q.len(), "the same number of unknowns");
    for i in 0..p.len() { vx::close(p[i], q[i], 0.0, "the same operating point"); }
    if !dcl {
        let (a, b) = (wave("again.dat"), wave("fresh.dat"));
        vx::check(a.head == b.head && a.unit == b.unit && a.rows.len() == b.rows.len(), "the same waveform");
        for (p, q) in a.rows.iter().zip(&b.rows) { for i in 0..p.len() { vx::close(p[i], q[i], 0.0, "the same waveform"); } }
    }
    vx::reach("end");
}
/// decks read one after the other, with definitions, parameters and nodes of the same names
pub fn c19_decks() {
    let w = vx::choice("which", 6) as usize;
    let x = values("x", 4);
    let deck = |k: usize| -> Deck {
        let mut d = Deck::new();
        match k {
            0 => { d.subs.push(sub("s", &[b"a", b"b"], &[(b"r", x[0])], vec![dev("R1", &[b"a", b"b"], &[Val::Id(nm("r"))])])); d.subs[0].cards = vec![inst("X1", &[b"n", b"m"], 1, &[]), dev("R1", &[b"n", b"0"], &[vnum(3.0)])]; }
            1 => { d.subs.push(sub("s", &[b"b", b"a"], &[(b"r", x[1])], vec![dev("C1", &[b"a", b"0"], &[Val::Id(nm("r"))]), dev("R1", &[b"b", b"i"], &[vnum(2.0)])])); d.subs[0].cards = vec![inst("X1", &[b"m", b"n"], 1, &[]), dev("R1", &[b"m", b"0"], &[vnum(3.0)])]; }
            _ => { d.subs.push(sub("t", &[b"a"], &[], vec![dev("R1", &[b"a", b"0"], &[vnum(x[2])])])); d.subs.push(sub("s", &[b"a", b"b"], &[(b"r", x[3])], vec![inst("X1", &[b"a"], 1, &[]), dev("D1", &[b"b", b"a"], &[]), dev("R2", &[b"b", b"0"], &[Val::Id(nm("r"))])])); d.subs[0].cards = vec![inst("X1", &[b"n", b"m"], 2, &[]), inst("X2", &[b"q", b"n"], 2, &[(b"r", vnum(5.0))])]; }
        }
        d
    };
    let o = [[0usize, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][w];
    for k in o { let d = deck(k); if k == 2 { d.agrees(&[0, 1, 2]); } else { d.agrees(&[0, 1]); } }
    let k = o[0];
    let d = deck(k);
    d.agrees(if k == 2 { &[2, 1, 0] } else { &[1, 0] });
    vx::reach("end");
}

// ---------------------------------------------------------------- C20
/// one faulty card in front of, between or behind every other line of a deck: it is reported whatever follows
pub fn c20_places() {
    const L: [&str; 20] = ["V1 in 0 2", "V2 s 0 SIN(1 2 3)", "V3 q 0 PWL(0, 1, 2, 3)", "* note", "E1 e 0 s in 2", "", ".lib l.lib s", "G1 e 0 s 0 3", "R1 in out 1k", "X1 out 0 cell c=4", ".subckt cell a b c=5", "C1 a b {c}", "R2 a i 3", ".ends", "D1 out in", ".control", "option RELTOL = 0.5", "tran 1 7 2", ".endc", "R7 in 0 1"];
    let at = [0usize, 1, 3, 6, 7, 9, 10, 11, 13, 14, 15, 19, 20][vx::choice("place", 13) as usize];
    let b = vx::byte("b");
    vx::assume((b > 32) & (b < 127) & (b != b';'));
    let good = ((b >= b'a') & (b <= b'z')) | ((b >= b'A') & (b <= b'Z')) | ((b >= b'0') & (b <= b'9')) | (b == b'_');
    let what = vx::choice("card", 2);
    let c = [b'x', b];
    let bad: Vec<u8> = [&b"R99 "[..], &c, if what == 1 { &b" 0 12\n"[..] } else { &b" 0 1\n"[..] }].concat();
    put("l.lib", b"*\n.lib s\nR3 in 0 1\n.endl\n");
    let mut t = b"title\n".to_vec();
    for i in 0..=L.len() {
        if i == at { t.extend_from_slice(&bad); }
        if i < L.len() { t.extend_from_slice(L[i].as_bytes()); t.push(b'\n'); }
    }
    let d = read_b(&t);
    vx::check(d.errors == !good, "a bad node name is reported, wherever its card is");
    vx::reach(if good { "good" } else { "bad" });
    vx::reach("end");
}
