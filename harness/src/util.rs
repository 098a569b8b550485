//! Shared by the harnesses: symbolic text, decks, netlists and Kirchhoff sums written independently of the code under test.
use super::vx;
use tiny_spice::analysis::Configuration;
use tiny_spice::circuit::{Circuit, Element};
use tiny_spice::spice::Reader;
use std::path::Path;

pub fn name(p: &str, i: usize) -> String { format!("{}{}", p, i) }
pub fn nreal(p: &str, i: usize) -> f64 { vx::real(&name(p, i)) }
/// a real in [lo, hi]
pub fn between(n: &str, lo: f64, hi: f64) -> f64 { let x = vx::real(n); vx::assume(x >= lo && x <= hi); x }
/// a positive real
pub fn pos(n: &str) -> f64 { let x = vx::real(n); vx::assume(x > 0.0); x }
/// n symbolic ASCII bytes
pub fn ascii(p: &str, n: usize) -> Vec<u8> {
    let mut v = vec![];
    for i in 0..n { let b = vx::byte(&name(p, i)); vx::assume(b < 128); v.push(b); }
    v
}
pub fn text(b: &[u8]) -> &str { unsafe { std::str::from_utf8_unchecked(b) } }
/// the number of a deck: a symbolic value that can be written into text and read back
pub fn num(x: f64) -> String { format!("{}", vx::carrier(x)) }

pub struct Read { pub errors: bool, pub rdr: Reader }
pub fn put(path: &str, t: &[u8]) {
    if let Some(p) = Path::new(path).parent() { if !p.as_os_str().is_empty() { std::fs::create_dir_all(p).unwrap(); } }
    std::fs::write(path, t).unwrap();
}
pub fn read(t: &str) -> Read { read_b(t.as_bytes()) }
pub fn read_b(t: &[u8]) -> Read { put("deck.spi", t); let mut rdr = Reader::new(); let errors = rdr.read(Path::new("deck.spi")); Read { errors, rdr } }
impl Read {
    pub fn flat(&self) -> Circuit { self.rdr.get_expanded_circuit() }
    pub fn cfg(&self) -> Configuration { self.rdr.configuration().clone() }
}

/// an element as the deck's author sees it: kind, terminals, values
#[derive(Clone)]
pub struct El { pub k: char, pub t: Vec<usize>, pub v: Vec<f64>, pub pts: Vec<(f64, f64)>, pub idx: usize }
pub fn el(e: &Element) -> El {
    let z = |k, t: &[usize], v: &[f64]| El { k, t: t.to_vec(), v: v.to_vec(), pts: vec![], idx: usize::MAX };
    match e {
        Element::R(r) => z('R', &[r.a, r.b], &[r.value]),
        Element::C(c) => z('C', &[c.a, c.b], &[c.value]),
        Element::I(i) => z('I', &[i.p, i.n], &[i.value]),
        Element::V(i) => El { idx: i.idx, ..z('V', &[i.p, i.n], &[i.value]) },
        Element::D(d) => z('D', &[d.p, d.n], &[d.i_sat, d.tdegc]),
        Element::Isin(s) => z('S', &[s.p, s.n], &[s.vo, s.va, s.freq]),
        Element::Vsin(s) => El { idx: s.idx, ..z('W', &[s.p, s.n], &[s.vo, s.va, s.freq]) },
        Element::Vpwl(s) => El { pts: s.pat.clone(), idx: s.idx, ..z('P', &[s.p, s.n], &[s.t_delay, s.repeat]) },
        Element::Vcvs(s) => El { idx: s.idx, ..z('E', &[s.p, s.n, s.cp, s.cn], &[s.k]) },
        Element::Vccs(s) => z('G', &[s.p, s.n, s.cp, s.cn], &[s.k]),
    }
}
/// split on the concrete value a byte-valued condition needs (keeps later code concrete)
pub fn same_bits(a: f64, b: f64) -> bool { a == b }

// ---------------------------------------------------------------- circuits built through the API
use tiny_spice::circuit::{CurrentSourceSine, Diode, Vccs, Vcvs, VoltageSourcePwl, VoltageSourceSine};
/// an element of kind k on terminals t with values v (E: the index is assigned here)
pub fn add(ckt: &mut Circuit, k: char, t: &[usize], v: &[f64]) {
    let id = name(&k.to_string(), ckt.elements.len());
    match k {
        'R' => ckt.add_r(id, t[0], t[1], v[0]),
        'C' => ckt.add_c(id, t[0], t[1], v[0]),
        'I' => ckt.add_i(t[0], t[1], v[0]),
        'V' => ckt.add_v(t[0], t[1], v[0]),
        'D' => ckt.add_d(Diode::new(&id, t[0], t[1], v[0], v[1])),
        'S' => ckt.add_i_sin(CurrentSourceSine { p: t[0], n: t[1], vo: v[0], va: v[1], freq: v[2] }),
        'W' => ckt.add_v_sin(VoltageSourceSine { p: t[0], n: t[1], vo: v[0], va: v[1], freq: v[2], idx: 0 }),
        'P' => ckt.add_v_pwl(VoltageSourcePwl { p: t[0], n: t[1], pat: v[2..].chunks(2).map(|c| (c[0], c[1])).collect(), t_delay: v[0], repeat: v[1], idx: 0 }),
        'E' => {
            let idx = ckt.v_idx_next;
            ckt.v_idx_next += 1;
            ckt.elements.push(Element::Vcvs(Vcvs { ident: id, p: t[0], n: t[1], cp: t[2], cn: t[3], k: v[0], idx }));
        }
        'G' => ckt.elements.push(Element::Vccs(Vccs::new(&id, t[0], t[1], t[2], t[3], v[0]))),
        _ => unreachable!(),
    }
}
pub fn is_v(k: char) -> bool { k == 'V' || k == 'W' || k == 'P' || k == 'E' }
/// the circuit's equations A x = b over (node voltages but ground, source currents), written from the device definitions;
/// `val` gives a source's value, `cap` a capacitor's companion (conductance, current source from a to b), `dio` a diode's
pub struct Sys { pub n: usize, pub nodes: usize, pub a: Vec<Vec<f64>>, pub b: Vec<f64> }
pub fn system(els: &[El], nodes: usize, val: &dyn Fn(usize, &El) -> f64, two: &dyn Fn(usize, &El) -> (f64, f64)) -> Sys {
    // nodes: highest node number; unknown of node k is k-1, of voltage source j is nodes+j
    let nv = els.iter().filter(|e| is_v(e.k)).count();
    let n = nodes + nv;
    let mut s = Sys { n, nodes, a: vec![vec![0.0; n]; n], b: vec![0.0; n] };
    let mut j = 0;
    for (i, e) in els.iter().enumerate() {
        let (p, q) = (e.t[0], e.t[1]);
        // conductance g between x and y for the current leaving node r (sign)
        fn ctl(s: &mut Sys, r: usize, x: usize, y: usize, g: f64) {
            if r == 0 { return; }
            if x != 0 { s.a[r - 1][x - 1] += g; }
            if y != 0 { s.a[r - 1][y - 1] -= g; }
        }
        match e.k {
            'R' => { let g = 1.0 / e.v[0]; ctl(&mut s, p, p, q, g); ctl(&mut s, q, q, p, g); }
            'G' => { ctl(&mut s, p, e.t[2], e.t[3], e.v[0]); ctl(&mut s, q, e.t[3], e.t[2], e.v[0]); }
            'I' | 'S' => { let c = val(i, e); if p != 0 { s.b[p - 1] -= c; } if q != 0 { s.b[q - 1] += c; } }
            'C' | 'D' => {
                let (g, c) = two(i, e);
                ctl(&mut s, p, p, q, g); ctl(&mut s, q, q, p, g);
                if p != 0 { s.b[p - 1] -= c; } if q != 0 { s.b[q - 1] += c; }
            }
            _ => {
                let r = nodes + j;
                if p != 0 { s.a[p - 1][r] += 1.0; s.a[r][p - 1] += 1.0; }
                if q != 0 { s.a[q - 1][r] -= 1.0; s.a[r][q - 1] -= 1.0; }
                if e.k == 'E' {
                    if e.t[2] != 0 { s.a[r][e.t[2] - 1] -= e.v[0]; }
                    if e.t[3] != 0 { s.a[r][e.t[3] - 1] += e.v[0]; }
                } else { s.b[r] = val(i, e); }
                j += 1;
            }
        }
    }
    s
}
impl Sys {
    pub fn det(&self) -> f64 { let cols: Vec<usize> = (0..self.n).collect(); det(&self.a, 0, &cols) }
    /// every equation holds for the engine's answer x (x[0] is ground)
    pub fn holds(&self, x: &[f64], what: &str) { self.hold(x, what, false) }
    /// for values that were printed to nine decimals
    pub fn holds_printed(&self, x: &[f64], what: &str) { self.hold(x, what, true) }
    fn hold(&self, x: &[f64], what: &str, printed: bool) {
        for r in 0..self.n {
            let (mut sum, mut scale) = (0.0, 0.0);
            for c in 0..self.n {
                if !vx::is_zero(self.a[r][c]) { let t = self.a[r][c] * x[c + 1]; sum += t; if !vx::SYM { scale += if printed { 10.0 * (t.abs() + self.a[r][c].abs()) } else { t.abs() }; } }
            }
            if !vx::SYM { scale += self.b[r].abs(); }
            vx::close(sum, self.b[r], scale, what);
        }
    }
}
fn det(a: &[Vec<f64>], r: usize, cols: &[usize]) -> f64 {
    if cols.is_empty() { return 1.0; }
    let mut d = 0.0;
    for (i, c) in cols.iter().enumerate() {
        if concrete_zero(a[r][*c]) { continue; }
        let rest: Vec<usize> = cols.iter().filter(|x| *x != c).cloned().collect();
        let m = a[r][*c] * det(a, r + 1, &rest);
        if i % 2 == 0 { d += m } else { d -= m }
    }
    d
}
/// zero for sure: no fork on symbolic entries
pub fn concrete_zero(x: f64) -> bool { vx::is_zero(x) }
