//! After a verdict of "sat": look for inputs that violate the assertion with the real exp, ln, sin and sqrt
//! (the solver's model may give these functions values they do not have). Only used to find a replayable
//! counterexample, never to decide a property.
use crate::poly::{self, Atom, AtomId, PolyId};
use crate::term::{self, cx, Model, ROp, Value, VarId, N, T};
use std::collections::HashMap;
use std::time::{Duration, Instant};

pub struct Fe<'a> { x: &'a HashMap<VarId, f64>, base: &'a Model, pm: HashMap<PolyId, (f64, f64)>, am: HashMap<AtomId, f64> }
impl<'a> Fe<'a> {
    pub fn new(x: &'a HashMap<VarId, f64>, base: &'a Model) -> Fe<'a> { Fe { x, base, pm: HashMap::new(), am: HashMap::new() } }
    fn poly(&mut self, p: PolyId) -> (f64, f64) {
        if let Some(r) = self.pm.get(&p) { return *r; }
        let (mut s, mut mag) = (0.0f64, 0.0f64);
        for (m, c) in poly::get(p).iter() {
            let mut t = c.to_f64();
            for (a, e) in m.iter() { let v = self.atom(*a); for _ in 0..*e { t *= v; } }
            s += t;
            mag += t.abs();
        }
        self.pm.insert(p, (s, mag));
        (s, mag)
    }
    fn atom(&mut self, a: AtomId) -> f64 {
        if let Some(r) = self.am.get(&a) { return *r; }
        let r = match poly::atom(a).clone() {
            Atom::Var(v) => self.x.get(&v).copied().unwrap_or_else(|| match self.base.get(&v) { Some(Value::Real(r)) => r.to_f64(), _ => 0.0 }),
            Atom::Uf(u, args, _) => {
                let x = args.first().map(|p| self.poly(*p).0).unwrap_or(f64::NAN);
                poly::host(&cx().uf_names[u as usize], x)
            }
            Atom::Div(n, d) => { let (n, d) = (self.poly(n).0, self.poly(d).0); n / d }
            Atom::Abs(p) => self.poly(p).0.abs(),
            Atom::FromInt(s, t) => match term::Ev::new(self.base).v(t) { Some(v) => if s { term::sext_val(term::width(t), v) as f64 } else { v as f64 }, None => f64::NAN },
        };
        self.am.insert(a, r);
        r
    }
    /// 0 when t has truth value `want` with some margin; grows with the distance from that
    pub fn miss(&mut self, t: T, want: bool, margin: f64) -> f64 {
        match term::node(t).clone() {
            N::True => if want { 0.0 } else { 1e3 },
            N::False => if want { 1e3 } else { 0.0 },
            N::Not(a) => self.miss(a, !want, margin),
            N::And(a, b) if want => self.miss(a, true, margin) + self.miss(b, true, margin),
            N::And(a, b) => self.miss(a, false, margin).min(self.miss(b, false, margin)),
            N::Or(a, b) if want => self.miss(a, true, margin).min(self.miss(b, true, margin)),
            N::Or(a, b) => self.miss(a, false, margin) + self.miss(b, false, margin),
            N::RCmp(op, p) => {
                let (v, mag) = self.poly(p);
                if !v.is_finite() || !mag.is_finite() { return 1e3; }
                let m = margin * mag;
                let scale = mag + 1e-300;
                match (op, want) {
                    (ROp::Gt, true) => if v > m { 0.0 } else { (m - v) / scale + 1e-9 },
                    (ROp::Ge, true) => if v >= m { 0.0 } else { (m - v) / scale + 1e-9 },
                    (ROp::Gt, false) => if v <= -m { 0.0 } else { (v + m) / scale + 1e-9 },
                    (ROp::Ge, false) => if v < -m { 0.0 } else { (v + m) / scale + 1e-9 },
                    (ROp::Eq, true) => if v == 0.0 { 0.0 } else { v.abs() / scale },
                    (ROp::Eq, false) => if v.abs() > m { 0.0 } else { (m - v.abs()) / scale + 1e-9 },
                }
            }
            _ => match term::Ev::new(self.base).b(t) { Some(b) if b == want => 0.0, _ => 1e3 },
        }
    }
}
pub struct Rng(pub u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 }
    fn unit(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
}
fn short(x: f64) -> f64 { format!("{:.4e}", x).parse().unwrap() }
/// values of the variables under which every constraint holds with the real functions
pub fn find(cs: &[T], vars: &[VarId], start: &Model, limit: Duration) -> Option<HashMap<VarId, f64>> {
    let t0 = Instant::now();
    let mut g = Rng(0x9e3779b97f4a7c15);
    let init: HashMap<VarId, f64> = vars.iter().map(|v| (*v, match start.get(v) { Some(Value::Real(r)) => r.to_f64(), _ => 1.0 })).collect();
    if vars.is_empty() { return None; }
    let mut found = None;
    for margin in [1e-3, 1e-6, 0.0] {
        let mut round = 0;
        let part = t0.elapsed() + (limit.saturating_sub(t0.elapsed())) / 2;
        let until = if margin == 0.0 { limit } else { part };
        while t0.elapsed() < until {
            let mut x = init.clone();
            if round > 0 { for v in vars { if g.below(2) == 0 { let k = menu(&mut g, x[v]); x.insert(*v, k); } } }
            let cost = |x: &HashMap<VarId, f64>| { let mut f = Fe::new(x, start); let mut s = 0.0; for c in cs { let m = f.miss(*c, true, margin); s += if m > 0.0 { m + 0.05 } else { 0.0 }; } s };
            let mut best = cost(&x);
            let mut stale = 0;
            while best > 0.0 && stale < 60 + 20 * vars.len() && t0.elapsed() < until {
                let mut y = x.clone();
                if g.below(3) == 0 { if let Some((v, k)) = edge(&mut g, &y, start, cs, vars) { y.insert(v, k); } }
                else { for _ in 0..1 + g.below(2) { let v = vars[g.below(vars.len())]; let k = menu(&mut g, y[&v]); y.insert(v, k); } }
                let c = cost(&y);
                if c < best { best = c; x = y; stale = 0; } else { if c == best { x = y; } stale += 1; }
            }
            if best == 0.0 { found = Some(x); break; }
            round += 1;
        }
        if found.is_some() { break; }
    }
    found
}
/// move one variable to where one of the conditions changes its truth value, or very close to it
fn edge(g: &mut Rng, x: &HashMap<VarId, f64>, base: &Model, cs: &[T], vars: &[VarId]) -> Option<(VarId, f64)> {
    let mut t = cs[g.below(cs.len())];
    let p = loop { match term::node(t).clone() { N::Not(a) => t = a, N::And(a, b) | N::Or(a, b) => t = if g.below(2) == 0 { a } else { b }, N::RCmp(_, p) => break p, _ => return None } };
    let own: Vec<VarId> = term::vars(t).iter().copied().filter(|v| vars.contains(v)).collect();
    if own.is_empty() { return None; }
    let v = own[g.below(own.len())];
    let mut at = |k: f64| { let mut y = x.clone(); y.insert(v, k); Fe::new(&y, base).poly(p).0 };
    let mut a = x[&v];
    let fa = at(a);
    let mut b = a;
    for _ in 0..4 { b = menu(g, a); if at(b).is_finite() && (at(b) > 0.0) != (fa > 0.0) { break; } }
    if (at(b) > 0.0) == (fa > 0.0) && fa != 0.0 { return None; }
    for _ in 0..60 { let m = 0.5 * (a + b); if (at(m) > 0.0) == (fa > 0.0) { a = m } else { b = m } }
    let d = [0.0, 1e-10, -1e-10, 1e-9, -1e-9, 1e-8, -1e-8, 1e-7, -1e-7, 1e-6, -1e-6, 1e-4, -1e-4][g.below(13)];
    Some((v, if g.below(2) == 0 { a } else { b } * (1.0 + d)))
}
fn menu(g: &mut Rng, x: f64) -> f64 {
    let r = match g.below(9) {
        0 => x * (0.5 + g.unit()),
        1 => x * (1.0 + 0.1 * (g.unit() - 0.5)),
        2 => x + 2.0 * (g.unit() - 0.5),
        3 => x + 0.1 * (g.unit() - 0.5),
        4 => 10.0 * (g.unit() - 0.5),
        5 => g.unit(),
        6 => (10.0f64).powf(-12.0 + 14.0 * g.unit()) * if g.below(2) == 0 { 1.0 } else { -1.0 },
        7 => -x,
        _ => x * (10.0f64).powf(2.0 * (g.unit() - 0.5)),
    };
    short(r)
}
