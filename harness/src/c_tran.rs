//! C05, C06, C07: transient analysis.
use super::{util::*, vx};
use tiny_spice::analysis::Configuration;
use tiny_spice::circuit::{Circuit, Diode};
use tiny_spice::engine::Engine;
harness!(c05_rc, c05_rc2, c05_float, c05_dc, c05_retry, c05_retry_deep, c06_retry, c06_axis, c06_start, c06_double, c06_double_deep, c06_source, c07_retry, c07_retry_deep, c07_giveup, c07_giveup_deep, c07_double, c07_double_deep, c07_diode, c07_count);

/// what the waveform file holds: header names, units, rows (time first)
pub struct Wave { pub head: Vec<String>, pub unit: Vec<String>, pub rows: Vec<Vec<f64>> }
pub fn wave(path: &str) -> Wave {
    let t = std::fs::read_to_string(path).unwrap();
    let f = |l: &str| -> Vec<String> { l.split('\t').map(|x| x.to_string()).collect() };
    let mut it = t.split('\n');
    let head = f(it.next().unwrap());
    let unit = f(it.next().unwrap_or(""));
    let mut rows = vec![];
    let mut end = false;
    for l in it {
        if l.is_empty() { end = true; continue; }
        vx::check(!end, "no blank line between rows");
        rows.push(l.split('\t').map(|x| x.parse().unwrap()).collect());
    }
    vx::check(end, "the last row is complete");
    Wave { head, unit, rows }
}
pub struct Tran { pub w: Wave, pub end: f64, pub iterations: usize, pub dc: Vec<f64>, pub dc_its: usize }
/// a transient whose waveform goes to w.dat; the DC point from a separate engine
pub fn tran(ckt: &Circuit, cfg: &Configuration) -> Tran {
    let mut cfg = cfg.clone();
    cfg.set_wavefile("w.dat");
    let mut ckt = ckt.clone();
    if ckt.node_id_lut.is_empty() { for i in 0..ckt.count_nodes() { ckt.node_id_lut.insert(i, name("n", i)); } }
    let mut d = Engine::new();
    let ds = d.dc_operating_point(&ckt, &cfg);
    let mut e = Engine::new();
    let s = e.transient_analysis(&ckt, &cfg);
    Tran { w: wave("w.dat"), end: s.end, iterations: s.iterations, dc: d.dc().unwrap(), dc_its: ds.iterations }
}
pub fn tcfg(step: f64, stop: f64, start: f64) -> Configuration {
    let mut c = Configuration::new();
    c.set_transient(stop, step, start);
    c
}
/// printed to nine decimals
fn printed(a: f64, b: f64, scale: f64, m: &str) { vx::close(a, b, if vx::SYM { 0.0 } else { scale + vx::PRINTED }, m) }

// ---------------------------------------------------------------- C05
/// every recorded point against the one before it
pub fn euler(ckt: &Circuit, nodes: usize, r: &Tran, val: &dyn Fn(usize, &El, f64) -> f64) {
    let els: Vec<El> = ckt.elements.iter().map(el).collect();
    for (i, x) in r.dc.iter().enumerate() { printed(r.w.rows[0][1 + i], *x, 0.0, "the first row is the DC operating point"); }
    // DC: capacitors are open
    let s = system(&els, nodes, &|i, e| val(i, e, 0.0), &|_, _| (0.0, 0.0));
    s.holds_printed(&r.w.rows[0][1..], "DC: capacitors carry no current");
    for k in 1..r.w.rows.len() {
        let (p, q) = (&r.w.rows[k - 1], &r.w.rows[k]);
        let dt = q[0] - p[0];
        let s = system(&els, nodes, &|i, e| val(i, e, q[0]), &|_, e| { let g = e.v[0] / dt; (g, -(g * (p[1 + e.t[0]] - p[1 + e.t[1]]))) });
        s.holds_printed(&q[1..], "Kirchhoff's laws with C*(v-vprev)/(t-tprev) through every capacitor");
    }
}
/// everything converges in one iteration, steps of constant size
pub fn calm(c: &mut Configuration) { c.RELTOL = 1.0; c.FS = 1.0; c.RMAX = 1.0; }
pub fn ramp(_: usize, e: &El, t: f64) -> f64 { match e.k { 'I' | 'V' => e.v[0], _ => e.v[0] + e.v[1] * (2.0 * std::f64::consts::PI * e.v[2] * t).sin() } }
/// R driven, C on every combination of terminals, one node
pub fn c05_rc() {
    let mut ck = Circuit::new();
    let (c, r, i) = (pos("c"), pos("r"), vx::real("i"));
    let w = vx::choice("which", 4);
    let nodes = match w {
        0 => { add(&mut ck, 'I', &[0, 1], &[i]); add(&mut ck, 'R', &[1, 0], &[r]); add(&mut ck, 'C', &[1, 0], &[c]); 1 }
        1 => { add(&mut ck, 'C', &[0, 1], &[c]); add(&mut ck, 'S', &[0, 1], &[i, vx::real("a"), 0.25]); add(&mut ck, 'R', &[1, 0], &[r]); 1 }
        2 => { add(&mut ck, 'S', &[1, 0], &[i, vx::real("a"), 0.25]); add(&mut ck, 'C', &[0, 1], &[c]); add(&mut ck, 'C', &[1, 0], &[pos("c2")]); add(&mut ck, 'R', &[0, 1], &[r]); 1 }
        _ => { add(&mut ck, 'W', &[1, 0], &[i, vx::real("a"), 0.25]); add(&mut ck, 'R', &[1, 2], &[r]); add(&mut ck, 'C', &[2, 0], &[c]); 2 }
    };
    let mut cfg = tcfg(1.0, 3.0, 0.0);
    calm(&mut cfg);
    let t = tran(&ck, &cfg);
    euler(&ck, nodes, &t, &ramp);
    vx::check(t.w.rows.len() == 4, "DC and three steps");
    vx::reach("end");
}
/// unequal steps
pub fn c05_rc2() {
    let mut ck = Circuit::new();
    let (c, r) = (pos("c"), pos("r"));
    add(&mut ck, 'S', &[0, 1], &[vx::real("o"), vx::real("a"), 0.25]);
    add(&mut ck, 'R', &[1, 0], &[r]);
    let w = vx::choice("which", 4);
    if w & 1 == 0 { add(&mut ck, 'C', &[1, 0], &[c]); } else { add(&mut ck, 'C', &[0, 1], &[c]); }
    let step = between("step", 0.5, 2.0);
    let stop = between("stop", 0.5, 2.0);
    let mut cfg = tcfg(step, stop, 0.0);
    cfg.RELTOL = 1.0;
    cfg.FS = 0.5;
    cfg.RMAX = [1.0, 2.0][w as usize >> 1];
    let t = tran(&ck, &cfg);
    euler(&ck, 1, &t, &ramp);
    vx::check(t.w.rows.len() >= 2, "at least one step");
    if t.w.rows.len() >= 4 { vx::reach("three steps"); }
    vx::reach("end");
}
/// floating capacitors, several nodes
pub fn c05_float() {
    let mut ck = Circuit::new();
    let c = pos("c");
    let w = vx::choice("which", 8);
    let (w, rev) = (w >> 1, w & 1 == 1);
    let t = |a: usize, b: usize| if rev { [b, a] } else { [a, b] };
    let i = vx::real("i");
    let nodes = match w {
        0 => { add(&mut ck, 'V', &[1, 0], &[i]); add(&mut ck, 'C', &t(1, 2), &[c]); add(&mut ck, 'R', &[2, 0], &[2.0]); add(&mut ck, 'S', &[0, 2], &[0.0, vx::real("a"), 0.25]); 2 }
        1 => { add(&mut ck, 'S', &[0, 1], &[i, vx::real("a"), 0.25]); add(&mut ck, 'R', &[1, 0], &[1.0]); add(&mut ck, 'C', &t(1, 2), &[c]); add(&mut ck, 'R', &[2, 0], &[3.0]); add(&mut ck, 'C', &[2, 0], &[0.5]); 2 }
        2 => { add(&mut ck, 'W', &[1, 0], &[i, vx::real("a"), 0.25]); add(&mut ck, 'C', &t(1, 2), &[c]); add(&mut ck, 'C', &t(2, 3), &[2.0]); add(&mut ck, 'R', &[2, 0], &[1.0]); add(&mut ck, 'R', &[3, 0], &[1.0]); 3 }
        _ => { add(&mut ck, 'W', &[1, 0], &[0.0, i, 0.25]); add(&mut ck, 'C', &t(1, 2), &[c]); add(&mut ck, 'R', &[2, 0], &[1.0]); add(&mut ck, 'E', &[3, 0, 2, 0], &[2.0]); add(&mut ck, 'R', &[3, 4], &[1.0]); add(&mut ck, 'C', &t(4, 0), &[1.0]); 4 }
    };
    let mut cfg = tcfg(1.0, 2.0, 0.0);
    calm(&mut cfg);
    let t = tran(&ck, &cfg);
    euler(&ck, nodes, &t, &ramp);
    vx::check(t.w.rows.len() == 3, "DC and two steps");
    vx::reach("end");
}
/// points that are retried with a smaller step
pub fn c05_retry() { c_retry(0.4) }
pub fn c05_retry_deep() { c_retry(0.2) }
fn c_retry(rmin: f64) {
    let mut ck = Circuit::new();
    let w = vx::choice("which", 4) as usize;
    let (c, o) = (pos("c"), vx::real("o"));
    add(&mut ck, 'S', &[0, 1], &[o, [1.0, 3.0][w & 1], 0.25]);
    add(&mut ck, 'R', &[1, 0], &[1.0]);
    if w < 2 { add(&mut ck, 'C', &[1, 0], &[c]); } else { add(&mut ck, 'C', &[0, 1], &[c]); }
    let mut cfg = tcfg(1.0, 1.5, 0.0);
    cfg.ITL4 = 1;
    cfg.ITL3 = 0;
    cfg.FS = 1.0;
    cfg.FT = 0.5;
    cfg.RMIN = rmin;
    cfg.RELTOL = 0.0;
    cfg.VNTOL = pos("vntol");
    let t = tran(&ck, &cfg);
    euler(&ck, 1, &t, &ramp);
    if t.w.rows.len() >= 3 && t.w.rows[1][0] < 0.9 { vx::reach("retried"); }
    vx::reach("end");
}
/// DC only: a capacitor is open, wherever it is
pub fn c05_dc() {
    let mut ck = Circuit::new();
    add(&mut ck, 'I', &[0, 1], &[vx::real("i")]);
    add(&mut ck, 'R', &[1, 2], &[pos("r1")]);
    add(&mut ck, 'R', &[2, 0], &[pos("r2")]);
    add(&mut ck, 'R', &[1, 0], &[pos("r3")]);
    let w = vx::choice("terminals", 9) as usize;
    let (a, b) = (w / 3, w % 3);
    add(&mut ck, 'C', &[a, b], &[pos("c")]);
    let els: Vec<El> = ck.elements.iter().map(el).collect();
    let mut e = Engine::new();
    let mut cfg = Configuration::new();
    cfg.ITL1 = 0;
    e.dc_operating_point(&ck, &cfg);
    system(&els, 2, &|_, e| e.v[0], &|_, _| (0.0, 0.0)).holds(&e.dc().unwrap(), "DC: capacitors carry no current");
    vx::reach("end");
}

// ---------------------------------------------------------------- C06
/// a current into 1 Ohm: v(1) is the source's value at the solved time
pub fn probe(vo: f64, va: f64, f: f64) -> Circuit {
    let mut c = Circuit::new();
    add(&mut c, 'S', &[0, 1], &[vo, va, f]);
    add(&mut c, 'R', &[1, 0], &[1.0]);
    c
}
pub fn at(vo: f64, va: f64, f: f64, t: f64) -> f64 { vo + va * (2.0 * std::f64::consts::PI * f * t).sin() }
pub fn axis(t: &Tran, cfg: &Configuration, value: &dyn Fn(f64) -> f64) {
    let rows = &t.w.rows;
    printed(rows[0][0], 0.0, 0.0, "starts at 0");
    for k in 0..rows.len() {
        printed(rows[k][1], 0.0, 0.0, "ground is at 0 V");
        printed(rows[k][2], value(rows[k][0]), 0.0, "a recorded point belongs to its time");
        if k > 0 {
            vx::check(rows[k][0] > rows[k - 1][0], "times strictly increase");
            vx::check(rows[k][0] >= cfg.TSTART, "nothing is recorded between 0 and TSTART");
            if !(rows[k - 1][0] == 0.0 && cfg.TSTART > 0.0) {
                let d = rows[k][0] - rows[k - 1][0];
                vx::check(d <= cfg.RMAX * cfg.TSTEP + if vx::SYM { 0.0 } else { 1e-6 }, "no step is longer than RMAX*TSTEP");
            }
        }
    }
    printed(rows[rows.len() - 1][0], cfg.TSTOP, 0.0, "the last point is at TSTOP");
    printed(t.end, cfg.TSTOP, 0.0, "the reported end is TSTOP");
}
/// symbolic TSTEP, TSTOP, FS, RMAX; steps of constant size
pub fn c06_axis() {
    let f = vx::real("f");
    let (vo, va) = (vx::real("vo"), vx::real("va"));
    let step = between("step", 0.5, 2.0);
    let stop = between("stop", 0.1, 2.0);
    let mut cfg = tcfg(step, stop, 0.0);
    cfg.RELTOL = 1.0;
    cfg.ITL3 = 0;
    cfg.FS = between("fs", 1.0, 4.0);
    cfg.RMAX = between("rmax", 1.0, 4.0);
    let t = tran(&probe(vo, va, f), &cfg);
    axis(&t, &cfg, &|x| at(vo, va, f, x));
    if t.w.rows.len() == 5 { vx::reach("four steps"); }
    vx::reach("end");
}
/// a start time: what is left out
pub fn c06_start() {
    let f = vx::real("f");
    let step = between("step", 0.5, 1.0);
    let stop = between("stop", 0.5, 2.0);
    let start = between("start", 0.0, 2.0);
    vx::assume(start <= stop);
    let mut cfg = tcfg(step, stop, start);
    cfg.RELTOL = 1.0;
    cfg.ITL3 = 0;
    cfg.FS = 1.0;
    cfg.RMAX = 1.0;
    let t = tran(&probe(1.0, 2.0, f), &cfg);
    axis(&t, &cfg, &|x| at(1.0, 2.0, f, x));
    // every multiple of the step from the start time on is there
    let mut want = 0;
    let mut k = 1;
    loop {
        let x = step * k as f64;
        if x >= stop { if stop >= start { want += 1; } break; }
        if x >= start { want += 1; }
        k += 1;
    }
    vx::check(t.w.rows.len() == 1 + want, "every accepted point from TSTART on is recorded");
    if want < k { vx::reach("some left out"); }
    vx::reach("end");
}
/// growing steps
pub fn c06_double() { growing(3) }
pub fn c06_double_deep() { growing(5) }
fn growing(n: u64) {
    let f = vx::real("f");
    let step = between("step", 0.5, 2.0);
    let w = vx::choice("range", n) as f64;
    let stop = between("stop", 0.5 + 0.5 * w, 1.0 + 0.5 * w);
    let mut cfg = tcfg(step, stop, 0.0);
    cfg.RELTOL = 1.0;
    cfg.FS = between("fs", 0.5, 3.0);
    cfg.RMAX = between("rmax", 1.0, 4.0);
    let (vo, va) = (vx::real("vo"), vx::real("va"));
    let t = tran(&probe(vo, va, f), &cfg);
    axis(&t, &cfg, &|x| at(vo, va, f, x));
    if t.w.rows.len() == 4 { vx::reach("three steps"); }
    vx::reach("end");
}
/// points that are retried with a smaller step still belong to their time
pub fn c06_retry() {
    let mut cfg = tcfg(1.0, 1.5, 0.0);
    let w = vx::choice("which", 4) as usize;
    cfg.ITL4 = 1;
    cfg.ITL3 = w & 2;
    cfg.FS = 1.0;
    cfg.RMAX = 1.0;
    cfg.RELTOL = 0.0;
    cfg.VNTOL = pos("vntol");
    cfg.FT = [0.5, 0.8][w & 1]; // powers of it are exact in nine decimals
    cfg.RMIN = 0.3;
    let (vo, va, f) = (vx::real("vo"), vx::real("va"), vx::real("f"));
    let t = tran(&probe(vo, va, f), &cfg);
    let rows = &t.w.rows;
    // the analysis may give up, but what it has recorded holds
    printed(rows[0][0], 0.0, 0.0, "starts at 0");
    for k in 0..rows.len() {
        printed(rows[k][2], at(vo, va, f, rows[k][0]), 0.0, "a recorded point belongs to its time");
        if k > 0 {
            let d = rows[k][0] - rows[k - 1][0];
            vx::check(d > 0.0, "times strictly increase");
            vx::check(d <= 1.0 + if vx::SYM { 0.0 } else { 1e-6 }, "no step is longer than RMAX*TSTEP");
        }
    }
    let end = rows[rows.len() - 1][0];
    printed(t.end, end, 0.0, "the reported end is the last accepted time");
    vx::check(t.end <= 1.5, "never past TSTOP");
    if t.end < 1.5 { vx::reach("gave up"); } else { vx::reach("complete"); }
    if rows.len() > 2 && rows[1][0] < 0.9 { vx::reach("retried"); }
    vx::reach("end");
}
/// every kind of source is evaluated at the time of the point
pub fn c06_source() {
    let f = vx::real("f");
    let k = vx::choice("kind", 4);
    let (o, a) = (vx::real("o"), vx::real("a"));
    let mut ck = Circuit::new();
    let neg = k == 1;
    match k {
        0 => add(&mut ck, 'W', &[1, 0], &[o, a, f]),
        1 => add(&mut ck, 'W', &[0, 1], &[o, a, f]),
        2 => add(&mut ck, 'P', &[1, 0], &[0.0, -1.0, 0.0, o, 4.0, a]),
        _ => add(&mut ck, 'S', &[0, 1], &[o, a, f]),
    }
    add(&mut ck, 'R', &[1, 0], &[1.0]);
    let step = between("step", 0.5, 1.0);
    let mut cfg = tcfg(step, 1.5, 0.0);
    cfg.RELTOL = 1.0;
    cfg.ITL3 = 0;
    cfg.FS = 1.0;
    let t = tran(&ck, &cfg);
    axis(&t, &cfg, &|x| if k == 2 { o + (a - o) * x / 4.0 } else if neg { -at(o, a, f, x) } else { at(o, a, f, x) });
    vx::reach("end");
}

// ---------------------------------------------------------------- C07
/// step control as the property words it, for a circuit whose iterates at a time are solve(t): (entry, is it a voltage)
pub struct Expect { pub times: Vec<f64>, pub sol: Vec<Vec<f64>>, end: f64, solves: usize, failed: bool, retried: bool }
fn expect(cfg: &Configuration, width: usize, volts: usize, solve: &mut dyn FnMut(f64) -> Vec<f64>) -> Expect {
    let mut e = Expect { times: vec![], sol: vec![], end: 0.0, solves: 0, failed: false, retried: false };
    let mut h = cfg.TSTEP * if cfg.FS < cfg.RMAX { cfg.FS } else { cfg.RMAX };
    let mut t = 0.0;
    loop {
        let last = t + h >= cfg.TSTOP;
        if last { h = cfg.TSTOP - t; }
        let (mut k, mut prev, mut again) = (0, vec![0.0; width], false);
        loop {
            let x = solve(t + h);
            k += 1;
            e.solves += 1;
            let mut ok = true;
            for i in 0..width {
                let d: f64 = x[i] - prev[i];
                if d.abs() > x[i].abs() * cfg.RELTOL + if i < volts { cfg.VNTOL } else { cfg.ABSTOL } { ok = false; break; }
            }
            if ok { e.sol.push(x); break; }
            if k >= cfg.ITL4 {
                h *= cfg.FT;
                if h < cfg.RMIN * cfg.TSTEP { e.failed = true; e.end = t; return e; }
                again = true;
                e.retried = true;
                k = 0;
            }
            prev = x;
        }
        if last && !again { t = cfg.TSTOP } else { t += h }
        e.times.push(t);
        e.end = t;
        if last && !again { return e; }
        if !again && k < cfg.ITL3 { h *= 2.0; if h > cfg.RMAX * cfg.TSTEP { h = cfg.RMAX * cfg.TSTEP; } }
    }
}
fn controlled(cfg: &Configuration, vo: f64, va: f64, f: f64) -> Expect {
    follows(&probe(vo, va, f), cfg, 1, 1, &mut |x| vec![at(vo, va, f, x)])
}
pub fn follows(ck: &Circuit, cfg: &Configuration, width: usize, volts: usize, solve: &mut dyn FnMut(f64) -> Vec<f64>) -> Expect {
    let t = tran(ck, cfg);
    let e = expect(cfg, width, volts, solve);
    vx::check(t.w.rows.len() == 1 + e.times.len(), "exactly the accepted points are recorded");
    for (k, x) in e.times.iter().enumerate() {
        printed(t.w.rows[k + 1][0], *x, 0.0, "the time of an accepted point");
        for i in 0..width { printed(t.w.rows[k + 1][2 + i], e.sol[k][i], 0.0, "the solution at an accepted point"); }
    }
    printed(t.end, e.end, 0.0, "the reported end is the last accepted time");
    vx::check(t.iterations == t.dc_its + e.solves, "the reported iterations are the solves performed");
    if e.failed { vx::check(t.end < cfg.TSTOP, "a failed analysis ends short of TSTOP"); vx::reach("failed"); } else { vx::reach("complete"); }
    if e.retried { vx::reach("retried"); }
    e
}
/// a diode across a ramp: the current takes several iterations, so a retried point may need more than one
pub fn c07_diode() {
    let w = vx::choice("which", 6) as usize;
    let mut cfg = tcfg(1.0, 1.0, 0.0);
    cfg.ITL4 = 2;
    cfg.ITL3 = [0, 3][w & 1];
    cfg.FS = 1.0;
    cfg.FT = [0.5, 0.6, 0.25][w >> 1]; // powers of it are exact in nine decimals
    cfg.ABSTOL = 1e-9;
    cfg.RMIN = between("rmin", 0.2, 0.6);
    let s = between("slope", 0.1, 0.4);
    let mut ck = Circuit::new();
    add(&mut ck, 'P', &[1, 0], &[0.0, -1.0, 0.0, 0.0, 4.0, 4.0 * s]);
    add(&mut ck, 'D', &[1, 0], &[1e-9, 27.0]);
    let d = Diode::new("d", 1, 0, 1e-9, 27.0);
    let mut v = 0.0; // voltage of the iterate before
    d.linearize(v, 0.0);
    follows(&ck, &cfg, 2, 1, &mut |x| {
        let (g, i) = d.linearize(v, 0.0);
        v = s * x;
        vec![v, -(g * v + i)]
    });
    vx::reach("end");
}
/// one or two iterations allowed per time point
pub fn c07_retry() { retry(0.5) }
pub fn c07_retry_deep() { retry(0.3) }
fn retry(rmin: f64) {
    let mut cfg = tcfg(1.0, 1.5, 0.0);
    let w = vx::choice("which", 8) as usize;
    cfg.ITL4 = 1 + (w & 1);
    cfg.ITL3 = w & 2;
    cfg.FS = 1.0;
    let k = (w >> 2) as f64;
    cfg.FT = between("ft", 0.25 + 0.25 * k, 0.5 + 0.25 * k);
    cfg.RMIN = between("rmin", rmin, 0.7);
    controlled(&cfg, vx::real("vo"), 1.0, 0.5);
    vx::reach("end");
}
/// nothing converges in one iteration
pub fn c07_giveup() { giveup(false) }
pub fn c07_giveup_deep() { giveup(true) }
fn giveup(deep: bool) {
    let mut cfg = tcfg(1.0, if deep { 2.0 } else { 1.4 }, 0.0);
    cfg.ITL4 = 1;
    cfg.FS = between("fs", 0.5, 1.0);
    let k = vx::choice("range", 7) as f64;
    cfg.FT = between("ft", 0.1 + 0.1 * k, 0.2 + 0.1 * k);
    cfg.RMIN = between("rmin", if deep { 0.2 } else { 0.4 }, 1.0);
    vx::assume(if deep { cfg.FT * cfg.FT * cfg.FT } else { cfg.FT * cfg.FT } < cfg.RMIN);
    controlled(&cfg, 5.0, vx::real("va"), 0.5);
    vx::reach("end");
}
/// growth of the step, up to the limit, with arbitrary ITL3
pub fn c07_double() { double(1.6) }
pub fn c07_double_deep() { double(2.5) }
fn double(most: f64) {
    let w = vx::choice("which", 8) as usize;
    let mut cfg = tcfg(1.0, between("stop", 0.5, most), 0.0);
    cfg.ITL3 = w >> 1;
    cfg.FS = between("fs", 0.5, 2.0);
    cfg.RMAX = between("rmax", 0.75, 3.0);
    cfg.RELTOL = [0.0, 1.0][w & 1];
    controlled(&cfg, 5.0, vx::real("va"), 0.5);
    vx::reach("end");
}
/// non-finite numbers end the analysis
pub fn c07_count() {
    let mut cfg = tcfg(1.0, 2.0, 0.0);
    cfg.FS = 1.0;
    let mut ck = Circuit::new();
    // a pattern that turns into NaN after t=1: two points at the same time are not allowed, an infinite value is
    add(&mut ck, 'P', &[1, 0], &[0.0, -1.0, 0.0, vx::real("v"), 1.0, vx::real("w"), 1.5, f64::INFINITY]);
    add(&mut ck, 'R', &[1, 0], &[1.0]);
    cfg.ITL3 = 0;
    let t = tran(&ck, &cfg);
    vx::check(t.w.rows.len() == 2, "the points before the error are recorded, the failed one is not");
    printed(t.end, 1.0, 0.0, "the reported end is the last accepted time");
    vx::reach("end");
}
