//! C01, C02, C04, C21: DC operating point, linear solver, Newton iteration, counting.
use super::{util::*, vx};
use tiny_spice::analysis::Configuration;
use tiny_spice::circuit::Circuit;
use tiny_spice::engine::Engine;
harness!(c01_one, c01_one3, c01_two, c01_pair, c01_stack, c01_iter, c01_deck, c02_2x2, c02_3x3, c02_4x4, c02_big, c04_nr, c04_stop, c04_long, c04_longer, c04_two, c04_deep, c21_nodes, c21_sources, c21_deck, c21_deck_more, c21_many);

pub fn cfg_dc(itl1: usize) -> Configuration { let mut c = Configuration::new(); c.ITL1 = itl1; c }
pub fn dc_val(_: usize, e: &El) -> f64 { e.v[0] }
pub fn no_two(_: usize, _: &El) -> (f64, f64) { (0.0, 0.0) }
pub fn dc(ckt: &Circuit, cfg: &Configuration) -> (Vec<f64>, usize) {
    let mut e = Engine::new();
    let s = e.dc_operating_point(ckt, cfg);
    (e.dc().unwrap(), s.iterations)
}
fn solved(ckt: &Circuit, nodes: usize, itl1: usize) {
    let els: Vec<El> = ckt.elements.iter().map(el).collect();
    let s = system(&els, nodes, &dc_val, &no_two);
    vx::assume(s.det() != 0.0);
    let (x, _) = dc(ckt, &cfg_dc(itl1));
    vx::check(x.len() == 1 + s.n, "one value per node and voltage source");
    vx::close(x[0], 0.0, 0.0, "ground is at 0 V");
    s.holds(&x, "Kirchhoff's laws and branch equations hold");
}
fn cond(n: &str) -> f64 { let r = vx::real(n); vx::assume(r > 0.0); r }
/// resistors from every node to ground and between neighbours
fn mesh(ckt: &mut Circuit, nodes: usize) {
    for i in 1..=nodes { let v = cond(&name("rg", i)); add(ckt, 'R', &[i, 0], &[v]); }
    for i in 1..nodes { let v = cond(&name("rn", i)); add(ckt, 'R', &[i, i + 1], &[v]); }
}
/// every kind of element on every combination of terminals (p != n unless `coincide`)
fn combos(nodes: usize, kinds: &[char], coincide: bool) -> Vec<(char, Vec<usize>)> {
    let n = nodes + 1;
    let mut out = vec![];
    for &k in kinds {
        for a in 0..n { for b in 0..n {
            if a == b && (!coincide || k == 'V' || k == 'E') { continue; }
            if k == 'E' || k == 'G' { for c in 0..n { for d in 0..n { if coincide || c != d { out.push((k, vec![a, b, c, d])); } } } } else { out.push((k, vec![a, b])); }
        } }
    }
    out
}
fn special(ckt: &mut Circuit, nodes: usize, tag: &str, kinds: &[char], coincide: bool) -> char {
    let mut c = combos(nodes, kinds, coincide);
    let (k, t) = c.swap_remove(vx::choice(tag, c.len() as u64) as usize);
    let v = vx::real(&format!("{}v", tag));
    if k == 'R' { vx::assume(v > 0.0); }
    add(ckt, k, &t, &[v]);
    k
}
fn kind_mark(k: char) { vx::reach(match k { 'R' => "R", 'I' => "I", 'V' => "V", 'E' => "E", _ => "G" }); }
const ALL: [char; 5] = ['R', 'I', 'V', 'E', 'G'];
/// one element of every kind on every combination of terminals in a resistive network driven by a current
fn one(nodes: usize) {
    let mut ckt = Circuit::new();
    let k = special(&mut ckt, nodes, "x", &ALL, true);
    mesh(&mut ckt, nodes);
    add(&mut ckt, 'I', &[0, 1], &[vx::real("drive")]);
    solved(&ckt, nodes, 0);
    kind_mark(k);
    vx::reach("end");
}
pub fn c01_one() { one(2) }
pub fn c01_one3() { one(3) }
/// two of them, one of which is defined by its voltage
pub fn c01_two() { two(false) }
/// the same with four ways to connect the second
pub fn c01_pair() { two(true) }
fn two(few: bool) {
    let nodes = 2;
    let mut ckt = Circuit::new();
    let j = special(&mut ckt, nodes, "x", &['I', 'V', 'E', 'G'], false);
    let k = if few {
        let (k, t) = [('V', vec![2, 1]), ('V', vec![0, 1]), ('E', vec![2, 0, 1, 0]), ('E', vec![0, 2, 1, 2])][vx::choice("y", 4) as usize].clone();
        add(&mut ckt, k, &t, &[vx::real("yv")]);
        k
    } else { special(&mut ckt, nodes, "y", &['V', 'E'], false) };
    for i in 1..=nodes { let v = cond(&name("rg", i)); add(&mut ckt, 'R', &[i, 0], &[v]); }
    solved(&ckt, nodes, 0);
    kind_mark(j); kind_mark(k);
    vx::reach("end");
}
/// stacks, loops and chains of voltage-defined sources over three nodes, no resistor to ground at some nodes
pub fn c01_stack() {
    let w = vx::choice("which", 8);
    let mut ckt = Circuit::new();
    let v = |i: usize| vx::real(&name("v", i));
    match w {
        0 => { add(&mut ckt, 'V', &[1, 0], &[v(0)]); add(&mut ckt, 'V', &[2, 1], &[v(1)]); add(&mut ckt, 'V', &[2, 3], &[v(2)]); add(&mut ckt, 'R', &[3, 0], &[cond("r0")]); }
        1 => { add(&mut ckt, 'R', &[1, 2], &[cond("r0")]); add(&mut ckt, 'V', &[2, 3], &[v(0)]); add(&mut ckt, 'R', &[3, 0], &[cond("r1")]); add(&mut ckt, 'I', &[0, 1], &[v(1)]); }
        2 => { add(&mut ckt, 'V', &[1, 0], &[v(0)]); add(&mut ckt, 'E', &[2, 0, 1, 0], &[v(1)]); add(&mut ckt, 'E', &[3, 2, 2, 1], &[v(2)]); add(&mut ckt, 'R', &[3, 1], &[cond("r0")]); }
        3 => { add(&mut ckt, 'E', &[1, 0, 2, 3], &[v(0)]); add(&mut ckt, 'R', &[1, 2], &[cond("r0")]); add(&mut ckt, 'R', &[2, 3], &[cond("r1")]); add(&mut ckt, 'V', &[3, 0], &[v(1)]); }
        4 => { add(&mut ckt, 'G', &[1, 2, 3, 0], &[v(0)]); add(&mut ckt, 'R', &[1, 0], &[cond("r0")]); add(&mut ckt, 'R', &[2, 0], &[cond("r1")]); add(&mut ckt, 'V', &[3, 1], &[v(1)]); }
        5 => { add(&mut ckt, 'G', &[1, 0, 2, 0], &[v(0)]); add(&mut ckt, 'G', &[0, 2, 1, 0], &[v(1)]); add(&mut ckt, 'I', &[0, 1], &[v(2)]); add(&mut ckt, 'V', &[3, 2], &[v(3)]); add(&mut ckt, 'R', &[3, 0], &[cond("r0")]); }
        6 => { add(&mut ckt, 'V', &[0, 3], &[v(0)]); add(&mut ckt, 'R', &[3, 2], &[cond("r0")]); add(&mut ckt, 'R', &[2, 1], &[cond("r1")]); add(&mut ckt, 'V', &[1, 0], &[v(1)]); add(&mut ckt, 'I', &[2, 1], &[v(2)]); }
        _ => { add(&mut ckt, 'R', &[3, 2], &[cond("r0")]); add(&mut ckt, 'R', &[2, 1], &[cond("r1")]); add(&mut ckt, 'R', &[1, 3], &[cond("r2")]); add(&mut ckt, 'V', &[2, 0], &[v(0)]); add(&mut ckt, 'I', &[3, 1], &[v(2)]); add(&mut ckt, 'I', &[0, 3], &[v(3)]); }
    }
    solved(&ckt, 3, 0);
    vx::reach("end");
}
/// the whole Newton loop, to convergence
pub fn c01_iter() {
    let nodes = 2;
    let mut ckt = Circuit::new();
    special(&mut ckt, nodes, "x", &['I', 'V'], false);
    mesh(&mut ckt, nodes);
    solved(&ckt, nodes, 50);
    vx::reach("end");
}
/// the same from a deck: cards in every rotation and both directions, nodes named
pub fn c01_deck() {
    let rot = vx::choice("rotation", 7) as usize;
    let rev = vx::choice("reversed", 2) == 1;
    let (v, r1, r2, i, g, e) = (vx::real("v"), cond("r1"), cond("r2"), vx::real("i"), vx::real("g"), vx::real("e"));
    let cards = [format!("V1 a 0 {}", num(v)), format!("R1 a b {}", num(r1)), format!("Rx b gnd {}", num(r2)), format!("I1 b GND {}", num(i)),
        format!("G1 b 0 a 0 {}", num(g)), format!("E1 out 0 b a {}", num(e)), "R3 out 0 1k".to_string()];
    let mut t = "title\n".to_string();
    for k in 0..7 { let j = if rev { 6 - k } else { k }; t += &cards[(j + rot) % 7]; t += "\n"; }
    t += ".control\nop\n.endc\n";
    let d = read(&t);
    vx::check(!d.errors, "a good deck");
    let ck = d.flat();
    let mut cfg = d.cfg();
    cfg.ITL1 = 0;
    let (x, _) = dc(&ck, &cfg);
    let at = |n: &str| x[ck.get_node_id(n).unwrap()];
    let (a, b, o) = (at("a"), at("b"), at("out"));
    vx::check(x.len() == 6, "three nodes and ground, two voltage-defined sources");
    vx::close(a, v, 0.0, "V card");
    let (s1, s2) = ((b - a) / r1, b / r2);
    vx::close(s1 + s2 + i + g * a, 0.0, if vx::SYM { 0.0 } else { s1.abs() + s2.abs() + i.abs() + (g * a).abs() }, "currents leaving b sum to zero");
    vx::close(o, e * (b - a), if vx::SYM { 0.0 } else { (e * a).abs() + (e * b).abs() }, "E card");
    for q in ck.elements.iter().map(el) {
        if q.k == 'V' { let s = (a - b) / r1; vx::close(x[4 + q.idx], -s, if vx::SYM { 0.0 } else { (a / r1).abs() + (b / r1).abs() }, "current into the p terminal of V"); }
        if q.k == 'E' { vx::close(x[4 + q.idx], -o / 1000.0, if vx::SYM { 0.0 } else { (e * a).abs() / 1e3 + (e * b).abs() / 1e3 }, "current into the p terminal of E"); }
    }
    vx::reach("end");
}

// ---------------------------------------------------------------- C02
static mut PIVOTS: usize = 0;
fn on_pivot(m: &[Vec<f64>], k: usize) {
    unsafe { PIVOTS += 1; }
    for r in k + 1..m.len() { vx::check(m[k][k].abs() >= m[r][k].abs(), "the pivot is an entry of largest magnitude"); }
}
/// an arbitrary system: row i is a current balance with controlled sources
fn dense(n: usize, pattern: &dyn Fn(usize, usize) -> bool) {
    unsafe { tiny_spice::verif::ON_PIVOT = Some(on_pivot); PIVOTS = 0; }
    let mut ckt = Circuit::new();
    for i in 0..n {
        for j in 0..n {
            if pattern(i, j) { add(&mut ckt, 'G', &[i + 1, 0, j + 1, 0], &[vx::real(&format!("a{}{}", i, j))]); }
        }
        add(&mut ckt, 'I', &[0, i + 1], &[vx::real(&name("b", i))]);
    }
    solved(&ckt, n, 0);
    if unsafe { PIVOTS } > 0 { vx::reach("pivot"); }
    vx::reach("end");
}
pub fn c02_2x2() { dense(2, &|_, _| true) }
pub fn c02_3x3() { let z = vx::choice("zeros", 8); dense(3, &|i, j| i != j || z >> i & 1 == 0) }
pub fn c02_4x4() {
    // permuted triangular and banded patterns
    let p = vx::choice("pattern", 24) as usize;
    let mut left = vec![0, 1, 2, 3];
    let mut perm = vec![];
    let mut q = p;
    for k in (1..=4).rev() { perm.push(left.remove(q % k)); q /= k; }
    let low = vx::choice("fill", 2) == 1;
    dense(4, &move |i, j| j == perm[i] || (low && j < perm[i] && (i + j) % 2 == 0))
}
/// larger systems: permuted scalings with a coupling, every row exchange different
pub fn c02_big() {
    let n = 5 + vx::choice("size", 3) as usize;
    let step = 1 + vx::choice("step", 4) as usize;
    let shift = vx::choice("shift", n as u64) as usize;
    if n % step == 0 && step > 1 { vx::reach("end"); return; }
    dense(n, &move |i, j| j == (i * step + shift) % n || (i == n - 1 && j == (shift + 1) % n));
}

pub fn watch_pivots() { unsafe { tiny_spice::verif::ON_PIVOT = Some(on_pivot); PIVOTS = 0; } }
pub fn pivots() -> usize { unsafe { PIVOTS } }

// ---------------------------------------------------------------- C04
const K: f64 = 1.380_648_8e-23;
const Q: f64 = 1.603e-19;
/// the diode law with voltage limiting, as the device model is documented (C03); state: last linearisation voltage
struct Ref { is: f64, v: f64, vc: f64, last: f64 }
impl Ref {
    fn new(is: f64, tc: f64, off: f64) -> Ref {
        let v = K * (off + tc) / Q;
        Ref { is, v, vc: v * (v / ((2.0f64).sqrt() * is)).ln(), last: 0.0 }
    }
    fn tangent(&mut self, want: f64) -> (f64, f64) {
        let d = want - self.last;
        let x = if want < self.vc || d.abs() <= 2.0 * self.v { want }
            else if self.last <= 0.0 { self.v * (want / self.v).ln() }
            else { let a = 1.0 + d / self.v; if a <= 0.0 { self.vc } else { self.last + self.v * a.ln() } };
        self.last = x;
        let ex = (x / self.v).exp();
        let g = self.is / self.v * ex;
        let g = if g < 1e-12 { 1e-12 } else { g };
        (g, self.is * (ex - 1.0) - g * x)
    }
}
/// the temperature offset the model uses (documented 273.15, see the known finding of C03)
fn offset() -> f64 {
    let (g, _) = tiny_spice::circuit::Diode::new("d", 1, 0, 1e-9, 27.0).linearize(0.0, 0.0);
    let v = 1e-9 / g;
    if (v - K * 390.0 / Q).abs() < 1e-6 { 363.0 } else { 273.15 }
}
/// one circuit with diodes, solved with exactly `iters` Newton iterations allowed
fn diode_circuit(which: u64, drive: f64) -> (Circuit, usize) {
    let mut c = Circuit::new();
    let d = [1e-9, 27.0];
    match which {
        0 => { add(&mut c, 'V', &[1, 0], &[drive]); add(&mut c, 'R', &[1, 2], &[1000.0]); add(&mut c, 'D', &[2, 0], &d); (c, 2) }
        1 => { add(&mut c, 'V', &[1, 0], &[drive]); add(&mut c, 'R', &[1, 2], &[1000.0]); add(&mut c, 'D', &[0, 2], &d); (c, 2) }
        2 => { add(&mut c, 'I', &[0, 1], &[drive]); add(&mut c, 'R', &[1, 0], &[100.0]); add(&mut c, 'D', &[1, 0], &d); (c, 1) }
        3 => { add(&mut c, 'V', &[1, 0], &[drive]); add(&mut c, 'D', &[1, 2], &d); add(&mut c, 'R', &[2, 0], &[1000.0]); (c, 2) }
        4 => { add(&mut c, 'I', &[0, 1], &[drive]); add(&mut c, 'D', &[1, 2], &d); add(&mut c, 'R', &[2, 0], &[50.0]); add(&mut c, 'R', &[1, 0], &[1e5]); (c, 2) }
        5 => { add(&mut c, 'I', &[1, 0], &[drive]); add(&mut c, 'R', &[1, 0], &[100.0]); add(&mut c, 'D', &[1, 0], &d); add(&mut c, 'D', &[0, 1], &[1e-8, 27.0]); (c, 1) }
        6 => { add(&mut c, 'I', &[0, 1], &[drive]); add(&mut c, 'R', &[1, 0], &[1000.0]); add(&mut c, 'D', &[1, 2], &d); add(&mut c, 'D', &[2, 0], &[1e-12, 50.0]); (c, 2) }
        7 => { add(&mut c, 'I', &[0, 1], &[drive]); add(&mut c, 'D', &[1, 2], &d); add(&mut c, 'R', &[2, 0], &[1000.0]); add(&mut c, 'D', &[0, 1], &d); (c, 2) }
        10 => { add(&mut c, 'I', &[0, 1], &[drive]); add(&mut c, 'R', &[1, 0], &[100.0]); add(&mut c, 'D', &[1, 0], &d); add(&mut c, 'D', &[1, 0], &[1e-7, 27.0]); (c, 1) }
        11 => { add(&mut c, 'I', &[0, 1], &[drive]); add(&mut c, 'D', &[1, 2], &[1e-7, 27.0]); add(&mut c, 'R', &[1, 0], &[100.0]); add(&mut c, 'R', &[2, 0], &[100.0]); add(&mut c, 'D', &[1, 2], &[1e-9, 60.0]); (c, 2) }
        12 => { add(&mut c, 'I', &[0, 1], &[drive]); add(&mut c, 'R', &[1, 0], &[100.0]); add(&mut c, 'D', &[1, 0], &[1e-10, 27.0]); add(&mut c, 'D', &[1, 0], &d); add(&mut c, 'D', &[1, 0], &[1e-8, 27.0]); (c, 1) }
        13 => { add(&mut c, 'V', &[2, 0], &[drive]); add(&mut c, 'D', &[2, 1], &d); add(&mut c, 'V', &[1, 3], &[0.25]); add(&mut c, 'R', &[3, 0], &[200.0]); add(&mut c, 'D', &[0, 3], &[1e-8, 27.0]); (c, 3) }
        14 => { add(&mut c, 'D', &[3, 0], &d); add(&mut c, 'R', &[3, 2], &[100.0]); add(&mut c, 'D', &[2, 1], &[1e-8, 27.0]); add(&mut c, 'R', &[1, 0], &[1000.0]); add(&mut c, 'R', &[2, 0], &[1000.0]); add(&mut c, 'I', &[0, 3], &[drive]); (c, 3) }
        8 => { add(&mut c, 'I', &[0, 1], &[drive]); add(&mut c, 'R', &[1, 0], &[500.0]); add(&mut c, 'D', &[1, 0], &[1e-12, 27.0]); (c, 1) }
        _ => { add(&mut c, 'V', &[1, 0], &[drive]); add(&mut c, 'R', &[1, 2], &[200.0]); add(&mut c, 'D', &[2, 0], &[1e-12, 27.0]); (c, 2) }
    }
}
fn run_nr(make: &dyn Fn() -> (Circuit, usize), itl1: usize, never: bool) -> (Vec<f64>, usize) {
    let (c, _) = make();
    let mut cfg = cfg_dc(itl1);
    if never { cfg.RELTOL = 0.0; cfg.VNTOL = -1.0; }
    dc(&c, &cfg)
}
pub fn nr(which: u64, drive: f64, itl1: usize) { nrs(which, drive, itl1, false) }
/// never: with tolerances that nothing meets, so that the limit on the iterations ends the analysis
fn nrs(which: u64, drive: f64, itl1: usize, never: bool) { nr_of(&|| diode_circuit(which, drive), itl1, never) }
pub fn nr_of(make: &dyn Fn() -> (Circuit, usize), itl1: usize, never: bool) {
    let off = offset();
    // the iterates: what the analysis reports when it is stopped after 1, 2, .. iterations
    let mut its = vec![];
    let mut n = 0;
    for k in 0..=itl1 {
        let (x, it) = run_nr(make, k, never);
        vx::check(it <= k + 1, "never more than ITL1+1 iterations");
        if it < k + 1 { break; }
        n = it;
        its.push(x);
    }
    let (x, it) = run_nr(make, itl1, never);
    let (ckt, nodes) = make();
    let els: Vec<El> = ckt.elements.iter().map(el).collect();
    let mut refs: Vec<Option<Ref>> = els.iter().map(|e| if e.k == 'D' { Some(Ref::new(e.v[0], e.v[1], off)) } else { None }).collect();
    let mut prev = vec![0.0; x.len()];
    for k in 0..n {
        let tan: Vec<(f64, f64)> = els.iter().enumerate().map(|(i, e)| match &mut refs[i] { Some(r) => r.tangent(prev[e.t[0]] - prev[e.t[1]]), None => (0.0, 0.0) }).collect();
        if k + 1 == n {
            let s = system(&els, nodes, &dc_val, &|i, _| tan[i]);
            vx::check(its[k].len() == s.n + 1, "one value per unknown");
            vx::close(its[k][0], 0.0, 0.0, "ground is at 0 V");
            s.holds(&its[k], "the circuit with every diode replaced by its tangent is solved");
        }
        if k + 1 < n { prev = its[k].clone(); }
    }
    vx::check(it == n, "the same number of iterations");
    for i in 0..x.len() { vx::close(x[i], its[n - 1][i], 0.0, "the same result"); }
    if never { vx::check(it == itl1 + 1, "no stop before the tolerances are met"); }
    if it < itl1 + 1 {
        for i in 0..x.len() {
            let lim = x[i].abs() * 0.0001 + if i <= nodes { 1e-6 } else { 1e-9 };
            vx::check((x[i] - prev[i]).abs() <= lim, "stops early only when the last two iterates agree");
        }
        vx::reach("converged");
    } else { vx::reach("limit"); }
    vx::reach("end");
}
pub fn c04_nr() { let w = vx::choice("circuit", 5); nr(w, vx::real("drive"), vx::choice("itl1", 2) as usize); }
pub fn c04_two() { let w = 5 + vx::choice("circuit", 3); nr(w, vx::real("drive"), vx::choice("itl1", 2) as usize); }
pub fn c04_deep() { let w = vx::choice("circuit", 8); nr(w, vx::real("drive"), 2); }
/// reverse bias and no bias: convergence within the limit
pub fn c04_stop() {
    let w = vx::choice("circuit", 5);
    let d = vx::real("drive");
    vx::assume(d <= 1e-9 && d >= -1e-3);
    nr(w, d, 3);
}
/// many iterations: a diode of small saturation current comes down from far above its voltage, some Vt at a time
pub fn c04_long() {
    longs(3 + vx::choice("itl1", 2) as usize)
}
pub fn c04_longer() { longs(5) }
fn longs(n: usize) {
    let w = 8 + vx::choice("circuit", 2);
    let drive = if w == 8 { between("drive", 0.0015, 0.0016) } else { between("drive", 0.75, 0.8) };
    nrs(w, drive, n, true);
}

// ---------------------------------------------------------------- C21
const KINDS: [char; 10] = ['R', 'C', 'I', 'V', 'D', 'S', 'W', 'P', 'E', 'G'];
fn vals(k: char) -> Vec<f64> { match k { 'D' => vec![1e-9, 27.0], 'S' | 'W' => vec![0.0, 1.0, 50.0], 'P' => vec![0.0, -1.0, 0.0, 1.0, 1.0, 2.0], _ => vec![1.0] } }
/// arbitrary node numbers on every kind of element
pub fn c21_nodes() {
    let k = KINDS[vx::choice("kind", 10) as usize];
    let j = KINDS[vx::choice("kind2", 10) as usize];
    let mut ckt = Circuit::new();
    let mut ids = vec![];
    for (e, kk) in [k, j].iter().enumerate() {
        let mut t = vec![];
        for i in 0..if *kk == 'E' || *kk == 'G' { 4 } else { 2 } {
            let n = vx::word(&format!("n{}{}", e, i));
            vx::assume(n <= 5000);
            t.push(n as usize);
        }
        ids.extend_from_slice(&t);
        add(&mut ckt, *kk, &t, &vals(*kk));
    }
    let c = ckt.count_nodes();
    let mut max = 0;
    for i in &ids { vx::check(c > *i, "every node is covered"); if *i > max { max = *i; } }
    vx::check(c <= max + 1, "no more unknowns than node numbers");
    vx::reach("end");
}
/// branch indices are exactly 0..count-1 for any mix of sources
pub fn c21_sources() {
    let mut ckt = Circuit::new();
    let n = 1 + vx::choice("n", 4) as usize;
    let mut want = 0;
    for i in 0..n {
        let k = ['R', 'V', 'W', 'P', 'I', 'S'][vx::choice(&name("k", i), 6) as usize];
        if is_v(k) { want += 1; }
        add(&mut ckt, k, &[i + 1, 0], &vals(k));
    }
    branch(&ckt, want);
    vx::reach("end");
}
fn branch(ckt: &Circuit, want: usize) {
    vx::check(ckt.count_voltage_sources() == want, "every voltage-defined source is counted once");
    let mut seen = vec![0; want];
    for e in ckt.elements.iter().map(el) {
        if is_v(e.k) { vx::check(e.idx < want, "branch index in range"); seen[e.idx] += 1; }
    }
    for s in &seen { vx::check(*s == 1, "branch indices are distinct"); }
}
/// the same from decks with subcircuits
pub fn c21_deck() {
    decked(1 + vx::choice("n", 2) as usize, 1, 3)
}
pub fn c21_deck_more() { decked(2, 2, 3) }
fn decked(n: usize, in_sub: usize, most: u64) {
    let (mut top, mut sub) = (0, 0);
    let mut t = "title\n".to_string();
    let card = |i: usize, sub: bool| -> (String, usize) {
        match vx::choice(&format!("{}{}", if sub { "s" } else { "k" }, i), 6) {
            0 => (format!("V{} n{} 0 1\n", i, i), 1),
            1 => (format!("E{} n{} 0 a 0 2\n", i, i), 1),
            2 => (format!("V{} n{} 0 SIN(0 1 50)\n", i, i), 1),
            3 => (format!("V{} n{} 0 PWL(0, 1, 1, 2)\n", i, i), 1),
            4 => (format!("R{} n{} 0 1k\n", i, i), 0),
            _ => (format!("G{} n{} 0 a 0 1m\n", i, i), 0),
        }
    };
    for i in 0..n { let (c, k) = card(i, false); t += &c; top += k; }
    let m = vx::choice("instances", most) as usize;
    for i in 0..m { t += &format!("X{} a b sub\n", i); }
    t += "R9 a b 1k\n.subckt sub a b\nR1 a b 1k\n";
    for i in 0..in_sub { let (c, k) = card(i, true); t += &c; sub += k; }
    t += ".ends\n";
    let d = read(&t);
    vx::check(!d.errors, "a good deck");
    let ck = d.flat();
    branch(&ck, top + m * sub);
    let c = ck.count_nodes();
    for e in ck.elements.iter().map(el) { for t in e.t { vx::check(t < c, "every node is covered"); } }
    vx::reach("end");
}
/// many nodes
pub fn c21_many() {
    let n = [200usize, 254, 255, 256, 257, 300, 513][vx::choice("n", 7) as usize];
    let rev = vx::choice("reversed", 2) == 1;
    let mut ckt = Circuit::new();
    for i in 0..n { let j = if rev { n - i } else { i + 1 }; add(&mut ckt, 'R', &[j, j - 1], &[1.0]); }
    vx::check(ckt.count_nodes() == n + 1, "every node is covered");
    vx::reach("end");
}
