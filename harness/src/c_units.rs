//! C03, C08, C09, C22: device and source evaluation, convergence test.
use super::{util::*, vx};
use tiny_spice::analysis::Configuration;
use tiny_spice::circuit::{Circuit, CurrentSourceSine, Diode, VoltageSourcePwl, VoltageSourceSine};
use tiny_spice::engine::Engine;
harness!(c22_check, c08_once, c08_repeat, c08_finite, c08_deck, c09_eval, c09_deck, c03_tangent, c03_limit, c03_fixpoint, c03_down, c03_vt);

// ---------------------------------------------------------------- C22
pub fn c22_check() {
    // an engine that knows about 1 or 2 nodes besides ground and 1 or 2 voltage sources
    let (nn, nv) = [(1usize, 1usize), (2, 1), (1, 2)][vx::choice("shape", 3) as usize];
    let mut ckt = Circuit::new();
    for i in 0..nn { ckt.add_r(format!("r{}", i), i + 1, 0, 1.0); }
    for i in 0..nv { ckt.add_v(1 + i % nn, 0, 1.0); }
    let mut cfg = Configuration::new();
    cfg.ITL1 = 0;
    let mut eng = Engine::new();
    eng.dc_operating_point(&ckt, &cfg);
    cfg.RELTOL = vx::real("reltol");
    cfg.VNTOL = vx::real("vntol");
    cfg.ABSTOL = vx::real("abstol");
    vx::assume(cfg.RELTOL >= 0.0 && cfg.VNTOL >= 0.0 && cfg.ABSTOL >= 0.0 && cfg.RELTOL <= 0.5);
    let n = 1 + nn + nv;
    // where a non-finite value sits, if anywhere
    let bad = vx::choice("bad", 1 + n as u64) as usize;
    let badv = if bad > 0 { [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][vx::choice("badv", 3) as usize] } else { 0.0 };
    let badp = vx::choice("badprev", 3);
    let (mut x, mut y) = (vec![], vec![]);
    for i in 0..n { x.push(if bad == i + 1 { badv } else { nreal("x", i) }); y.push(nreal("y", i)); }
    if badp == 1 { y[n - 1] = f64::NAN; }
    if badp == 2 { y[0] = f64::INFINITY; }
    let r = eng.convergence_check(&x, &y, &cfg);
    match r {
        Err(_) => { vx::check(bad > 0, "an error only for a non-finite entry"); vx::reach("error"); }
        Ok(c) => {
            vx::check(bad == 0, "a non-finite entry is an error");
            let mut all = badp == 0;
            if badp == 0 {
                for i in 0..n {
                    let d = (x[i] - y[i]).abs();
                    let lim = x[i].abs() * cfg.RELTOL + if i <= nn { cfg.VNTOL } else { cfg.ABSTOL };
                    if d > lim { all = false; }
                }
            }
            vx::check(c == all, "accepted exactly when every entry is within its tolerance");
            vx::reach(if c { "accepted" } else { "rejected" });
        }
    }
    vx::reach("end");
}

// ---------------------------------------------------------------- C08
fn pwl(n: usize, repeat: f64) -> (VoltageSourcePwl, f64) {
    let mut pat = vec![];
    let mut last = 0.0;
    for i in 0..n {
        let t = nreal("t", i);
        if i == 0 { vx::assume(t >= 0.0); } else { vx::assume(t > last); }
        last = t;
        pat.push((t, nreal("v", i)));
    }
    let td = vx::real("td");
    vx::assume(td >= 0.0);
    (VoltageSourcePwl { p: 1, n: 0, pat, t_delay: td, repeat, idx: 0 }, td)
}
/// value of the pattern at pattern time u, for u from the first point on
fn pattern(pat: &[(f64, f64)], u: f64) -> f64 {
    let n = pat.len();
    for i in 1..n {
        if u <= pat[i].0 {
            let (t1, v1) = pat[i - 1];
            let (t2, v2) = pat[i];
            return v1 + (v2 - v1) * (u - t1) / (t2 - t1);
        }
    }
    pat[n - 1].1
}
pub fn c08_once() {
    let n = vx::choice("points", 4) as usize + 1;
    let (s, td) = pwl(n, -1.0);
    let t = vx::real("t");
    vx::assume(t >= 0.0 && td - t <= 3.0 * s.pat[n - 1].0);
    let got = s.evaluate(t);
    let u = t - td;
    if u < 0.0 { vx::close(got, 0.0, 0.0, "zero before the delay"); vx::reach("before"); }
    else if u >= s.pat[n - 1].0 { vx::close(got, s.pat[n - 1].1, 0.0, "holds the last value from the last point on"); vx::reach("after"); }
    else if u >= s.pat[0].0 { vx::close(got, pattern(&s.pat, u), 0.0, "interpolates between the points"); vx::reach("between"); }
    else { vx::check(got.is_finite(), "finite before the first point"); vx::reach("gap"); }
    vx::reach("end");
}
pub fn c08_repeat() {
    let n = vx::choice("points", 2) as usize + 2;
    let (s, td) = pwl(n, 0.0);
    let per = s.pat[n - 1].0;
    vx::assume(per > 0.0);
    let t = vx::real("t");
    vx::assume(t >= 0.0 && t - td < 3.0 * per && td - t <= 3.0 * per);
    let got = s.evaluate(t);
    let mut u = t - td;
    if u < 0.0 { vx::close(got, 0.0, 0.0, "zero before the delay"); vx::reach("before"); vx::reach("end"); return; }
    let mut wrapped = 0;
    while u >= per { u = u - per; wrapped += 1; }
    if u == 0.0 && wrapped > 0 {
        // both ends of the pattern belong to this instant
        let a = if s.pat[0].0 == 0.0 { s.pat[0].1 } else { 0.0 };
        vx::check(got == s.pat[n - 1].1 || got == a, "a period ends on the last or starts on the first value");
        vx::reach("seam");
    } else if u >= s.pat[0].0 {
        vx::close(got, pattern(&s.pat, u), 0.0, "the pattern repeats");
        vx::reach(if wrapped > 0 { "later period" } else { "first period" });
    } else { vx::check(got.is_finite(), "finite before the first point"); }
    vx::reach("end");
}
/// a lone point, and the exact listed times
pub fn c08_finite() {
    let n = vx::choice("points", 3) as usize + 1;
    let (s, td) = pwl(n, if vx::choice("repeat", 2) == 1 { 0.0 } else { -1.0 });
    let k = vx::choice("at", n as u64) as usize;
    let got = s.evaluate(td + s.pat[k].0);
    vx::check(got.is_finite(), "a finite value at every listed time");
    if s.repeat < 0.0 { vx::close(got, s.pat[k].1, 0.0, "the listed value at the listed time"); }
    if s.repeat >= 0.0 && k + 1 < n { vx::close(got, s.pat[k].1, 0.0, "the listed value at the listed time (repeating)"); }
    let e = VoltageSourcePwl { p: 1, n: 0, pat: vec![], t_delay: td, repeat: s.repeat, idx: 0 };
    vx::close(e.evaluate(td), 0.0, 0.0, "no points, no voltage");
    vx::reach("end");
}
pub fn c08_deck() {
    let form = vx::choice("form", 6);
    let t: Vec<f64> = (0..3).map(|i| nreal("t", i)).collect();
    let v: Vec<f64> = (0..3).map(|i| nreal("v", i)).collect();
    let td = vx::real("td");
    let (a, b, c) = (num(t[0]), num(t[1]), num(t[2]));
    let (x, y, z) = (num(v[0]), num(v[1]), num(v[2]));
    let d = num(td);
    let (card, n, delay, rep) = match form {
        0 => (format!("PWL({},{},{},{},{},{})", a, x, b, y, c, z), 3, false, false),
        1 => (format!("PWL( {}, {}, {}, {}, {}, {} )", a, x, b, y, c, z), 3, false, false),
        2 => (format!("PWL({}, {}, {}, {}) td={}", a, x, b, y, d), 2, true, false),
        3 => (format!("PWL({}, {}, {}, {}) r=0 td={}", a, x, b, y, d), 2, true, true),
        4 => (format!("PWL({}, {}, {}, {}) td={} r=0", a, x, b, y, d), 2, true, true),
        _ => (format!("PWL({},{}, {},{}) r=0", a, x, b, y), 2, false, true),
    };
    let dk = read(&format!("title\nV1 in gnd {}\nR1 in gnd 1k\n", card));
    vx::check(!dk.errors, "a good deck");
    let e: Vec<El> = dk.flat().elements.iter().map(el).filter(|e| e.k == 'P').collect();
    vx::check(e.len() == 1, "one PWL source");
    vx::check(e[0].pts.len() == n, "every point is read");
    for i in 0..n { vx::close(e[0].pts[i].0, t[i], 0.0, "point time"); vx::close(e[0].pts[i].1, v[i], 0.0, "point value"); }
    vx::close(e[0].v[0], if delay { td } else { 0.0 }, 0.0, "delay");
    vx::check((e[0].v[1] >= 0.0) == rep, "repeat");
    vx::reach("end");
}

// ---------------------------------------------------------------- C09
pub fn c09_eval() {
    let (vo, va, f, t) = (vx::real("vo"), vx::real("va"), vx::real("freq"), vx::real("t"));
    let want = vo + va * (2.0 * std::f64::consts::PI * f * t).sin();
    let v = VoltageSourceSine { p: 1, n: 0, vo, va, freq: f, idx: 0 };
    let i = CurrentSourceSine { p: 1, n: 0, vo, va, freq: f };
    vx::close(v.evaluate(t), want, 0.0, "SIN voltage");
    vx::close(i.evaluate(t), want, 0.0, "SIN current");
    vx::close(v.evaluate(0.0), vo, 0.0, "offset at t=0");
    vx::reach("end");
}
pub fn c09_deck() {
    let (vo, va, f) = (vx::real("vo"), vx::real("va"), vx::real("freq"));
    let (a, b, c) = (num(vo), num(va), num(f));
    let card = match vx::choice("form", 4) {
        0 => format!("SIN({} {} {})", a, b, c),
        1 => format!("SIN( {}  {} {} )", a, b, c),
        2 => format!("SIN({}   {}\t{} )", a, b, c),
        _ => format!("SIN(\t{} {} {})", a, b, c),
    };
    let iv = vx::choice("kind", 2) == 0;
    let dk = read(&format!("title\n{}src up down {}\nR1 up gnd 1k\nR2 down gnd 1k\n", if iv { "I" } else { "V" }, card));
    vx::check(!dk.errors, "a good deck");
    let ck = dk.flat();
    let e: Vec<El> = ck.elements.iter().map(el).filter(|e| e.k == 'S' || e.k == 'W').collect();
    vx::check(e.len() == 1 && (e[0].k == 'S') == iv, "one SIN source of the right kind");
    vx::check(e[0].t[0] == ck.get_node_id("up").unwrap() && e[0].t[1] == ck.get_node_id("down").unwrap() && e[0].t[0] != e[0].t[1], "terminals in order");
    vx::close(e[0].v[0], vo, 0.0, "offset");
    vx::close(e[0].v[1], va, 0.0, "amplitude");
    vx::close(e[0].v[2], f, 0.0, "frequency");
    vx::reach("end");
}

// ---------------------------------------------------------------- C03
const K: f64 = 1.380_648_8e-23;
const Q: f64 = 1.603e-19;
const GMIN: f64 = 1.0e-12;
/// the model's own thermal voltage, read off its conductance at 0 V
fn vt(is: f64, tc: f64) -> f64 { let (g, _) = Diode::new("d", 1, 0, is, tc).linearize(0.0, 0.0); is / g }
fn setup() -> (f64, f64, f64, f64) {
    let (is, tc) = (vx::real("is"), vx::real("tc"));
    vx::assume(is >= 1e-12 && is <= 1e-3 && tc >= -100.0 && tc <= 200.0);
    // the two temperature offsets in use (see known findings); the model's choice is observed at 0 V
    let v = vt(is, tc);
    let v = if (v - K * (363.0 + tc) / Q).abs() < 1e-6 { K * (363.0 + tc) / Q } else { K * (273.15 + tc) / Q };
    let vc = v * (v / ((2.0f64).sqrt() * is)).ln();
    (is, tc, v, vc)
}
fn tangent(is: f64, v: f64, x: f64, g: f64, i: f64) {
    let ex = (x / v).exp();
    let want = is / v * ex;
    let want = if want < GMIN { GMIN } else { want };
    vx::close(g, want, 0.0, "g is the slope of the exponential, at least GMIN");
    vx::close(i, is * (ex - 1.0) - g * x, 0.0, "the tangent passes through the curve at the linearisation voltage");
    vx::check(g >= GMIN, "g at least GMIN");
}
/// one evaluation below the critical voltage from an arbitrary history
pub fn c03_tangent() {
    let (is, tc, v, vc) = setup();
    let d = Diode::new("d", 1, 0, is, tc);
    let (p, x) = (vx::real("vprev"), vx::real("v"));
    vx::assume(p < vc);
    d.linearize(p, 0.0);
    let near = (x - p).abs() <= 2.0 * v;
    vx::assume(x < vc || near);
    let (g, i) = d.linearize(x, vx::real("other"));
    tangent(is, v, x, g, i);
    vx::reach(if x < vc { "below" } else { "near" });
    vx::reach("end");
}
/// above the critical voltage and far from the last point: logarithmic, towards the request, never beyond it
pub fn c03_limit() {
    let (is, tc, v, vc) = setup();
    let d = Diode::new("d", 1, 0, is, tc);
    let (p, x) = (vx::real("vprev"), vx::real("v"));
    vx::assume(p < vc && vc > 0.0);
    d.linearize(p, 0.0);
    vx::assume(x >= vc && (x - p).abs() > 2.0 * v);
    let (g, i) = d.linearize(x, 0.0);
    let lim = if p <= 0.0 { v * (x / v).ln() } else { p + v * (1.0 + (x - p) / v).ln() };
    tangent(is, v, lim, g, i);
    vx::check(lim <= x, "never beyond the request");
    vx::check(p <= 0.0 || lim > p, "towards the request");
    vx::reach(if p <= 0.0 { "from reverse" } else { "from forward" });
    vx::reach("end");
}
/// asking again for the same voltage: each answer is closer, and once within 2 Vt it is reached
pub fn c03_fixpoint() {
    let (is, tc, v, vc) = setup();
    let d = Diode::new("d", 1, 0, is, tc);
    let (p, x) = (vx::real("vprev"), vx::real("v"));
    vx::assume(vc > 0.0 && p > 0.0 && p < vc && x >= vc && x - p > 2.0 * v);
    d.linearize(p, 0.0);
    d.linearize(x, 0.0);
    let l1 = p + v * (1.0 + (x - p) / v).ln();
    let (g, i) = d.linearize(x, 0.0);
    let dist = x - l1;
    if dist.abs() <= 2.0 * v { tangent(is, v, x, g, i); vx::reach("reached"); }
    else if l1 > 0.0 {
        let l2 = l1 + v * (1.0 + (x - l1) / v).ln();
        tangent(is, v, l2, g, i);
        vx::check(l2 > l1 && l2 <= x, "closer to the request");
        vx::reach("closer");
    }
    vx::reach("end");
}
/// a request well below the last voltage but still above the critical one falls back to the critical voltage
pub fn c03_down() {
    let (is, tc, v, vc) = setup();
    vx::assume(vc > 0.0);
    let d = Diode::new("d", 1, 0, is, tc);
    // up past the critical voltage in unlimited steps
    let k = vx::choice("steps", 3) + 2;
    let mut h = vc - between("below", 0.0625, 1.0) * v;
    d.linearize(h, 0.0);
    for _ in 0..k { h = h + 1.875 * v; d.linearize(h, 0.0); }
    let x = vc + between("above", 0.0, 10.0) * v;
    vx::assume(x < h);
    let (g, i) = d.linearize(x, 0.0);
    if h - x <= 2.0 * v { tangent(is, v, x, g, i); vx::reach("near"); }
    else { tangent(is, v, vc, g, i); vx::reach("far"); }
    // and from there the request is within reach or approached from below
    let (g, i) = d.linearize(x, 0.0);
    if h - x <= 2.0 * v || x - vc <= 2.0 * v { tangent(is, v, x, g, i); }
    else { tangent(is, v, vc + v * (1.0 + (x - vc) / v).ln(), g, i); vx::reach("again"); }
    vx::reach("end");
}
/// documented: about 26 mV at room temperature
pub fn c03_vt() {
    let is = vx::real("is");
    vx::assume(is >= 1e-10 && is <= 1e-6);
    let v = vt(is, 27.0);
    vx::check(v > 0.025 && v < 0.027, "the thermal voltage at 27C is about 26 mV");
    vx::reach("end");
}
