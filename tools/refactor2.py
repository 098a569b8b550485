#!/usr/bin/env python3
"""A second set of behaviour-preserving rewrites: refactor2.py DIR GROUP..."""
import sys, os
R = sys.argv[1]
G = {}
def g(name, f, *pairs): G.setdefault(name, []).append((f, pairs))
E="src/engine.rs"; SP="src/spice.rs"; X="src/expander.rs"; C="src/circuit.rs"; B="src/bracket_expression.rs"; W="src/wavewriter.rs"; P="src/element/vpwl.rs"; D="src/element/diode.rs"

g("solve", E,
 ("""        for r_ref in 1..c_mna-1 { // column we're eliminating, but index rows
""", """        self.eliminate(&mut v);
        self.back_substitute(&v, ia)
    }

    fn eliminate(&self, v: &mut [Vec<f64>]) {
        let c_mna = self.c_nodes + self.c_vsrcs;
        let last = c_mna.saturating_sub(1);
        for r_ref in 1..last { // column we're eliminating, but index rows
"""),
 ("let r_max = self.index_of_next_abs(&v, r_ref);", "let r_max = self.index_of_next_abs(v, r_ref);"),
 ("crate::verif::pivot(&v, r_ref);", "crate::verif::pivot(v, r_ref);"),
 ("""                for c_mod in r_ref..=c_mna { // column we're scaling
                    let val = v[r_mod][c_mod];
                    let wiggle = v[r_ref][c_mod];
                    let new = val - (wiggle * ratio); 
                    v[r_mod][c_mod] = new;
""", """                v[r_mod][r_ref] = 0.0;
                for c_mod in (r_ref+1..=c_mna).rev() { // column we're scaling
                    v[r_mod][c_mod] -= ratio * v[r_ref][c_mod];
"""),
 ("""        //println!("\\n*INFO* Final Matrix");
        //self.pp_matrix(&v);
      
        // TODO check result
""", """    }

    fn back_substitute(&self, v: &[Vec<f64>], ia: usize) -> Vec<f64> {
        let c_mna = v.len();
"""),
 ("""            let mut sum = 0.0;
            #[allow(clippy::needless_range_loop)]
            for i_term in i_solve+1..c_mna {
                sum += v[i_solve][i_term] * n[i_term];
                //println!("[{:3}]  {} * {}",  i_solve, v[i_solve][i_term], n[i_term]);

            }
            n[i_solve] = ( v[i_solve][ia] - sum ) / v[i_solve][i_solve];
""", """            let row = &v[i_solve];
            let mut known = row[ia];
            for (k, x) in row[i_solve+1..c_mna].iter().zip(&n[i_solve+1..]).rev() {
                known -= k * x;
            }
            n[i_solve] = known / row[i_solve];
"""),
 ("""        let mut biggest: f64 = 0.0;
        let mut r_biggest: usize = k;
        let c_rows = m.len();
        #[allow(clippy::needless_range_loop)]
        for r in k..c_rows {
            let this = m[r][k].abs();
            if this > biggest {
                biggest = this;
                r_biggest = r;
            }
        }
        r_biggest
""", """        (k..m.len())
            .rev()
            .max_by(|a, b| m[*a][k].abs().total_cmp(&m[*b][k].abs()))
            .unwrap_or(k)
"""),
)
g("step", E,
 ("""                match self.convergence_check(&unknowns, &unknowns_solve, cfg) {
                    Ok(cnvg) => {
                        if cnvg {
                            trace!(" [TIMESTEP] Timestep converged after {} iterations", c_itl);
                            converged = true;
                            break;
                        } else {
                            // adjust timestep if we can
                            if c_itl >= cfg.ITL4 {
                                t_delta *= cfg.FT;
                                // check if we're ok to continue iterating
                                if t_delta < t_delta_min {
                                    println!("*ERROR* Internal timestep too small");
                                    error = true;
                                    break;
                                } else {
                                    // reset iteration count
                                    trace!(" [TIMESTEP] Upshifting -> new t_delta = {}", t_delta);
                                    geared = true;
                                    c_itl = 0;
                                }
                            }
                        }
                    },
                    Err(_) => {
                        println!("*ERROR* There was a numerical error");
                        error = true;
                        break;
                    },
                }
                unknowns_solve_prev = unknowns_solve.to_vec();
                unknowns_solve = unknowns.to_vec();
""", """                match judge(self.convergence_check(&unknowns, &unknowns_solve, cfg), c_itl, t_delta * cfg.FT, cfg.ITL4, t_delta_min) {
                    Verdict::Accept => { converged = true; break; },
                    Verdict::GiveUp(why) => {
                        println!("*ERROR* {}", why);
                        error = true;
                        break;
                    },
                    Verdict::Retry(smaller) => {
                        t_delta = smaller;
                        c_itl = 0;
                        geared = true;
                    },
                    Verdict::Again => {},
                }
                std::mem::swap(&mut unknowns_solve_prev, &mut unknowns_solve);
                unknowns_solve.clear();
                unknowns_solve.extend_from_slice(&unknowns);
"""),
 ("""#[derive(Default)]
#[allow(non_snake_case)]
pub struct Engine {""", """/// What to do after a solve of a time point
enum Verdict {
    Accept,
    Again,
    Retry(f64),
    GiveUp(&'static str),
}

fn judge(check: ConvergenceResult, iterations: usize, smaller: f64, limit: usize, smallest: f64) -> Verdict {
    match check {
        Err(_) => Verdict::GiveUp("There was a numerical error"),
        Ok(true) => Verdict::Accept,
        Ok(false) if iterations < limit => Verdict::Again,
        Ok(false) if smaller < smallest => Verdict::GiveUp("Internal timestep too small"),
        Ok(false) => Verdict::Retry(smaller),
    }
}

#[derive(Default)]
#[allow(non_snake_case)]
pub struct Engine {"""),
 ("""                if !geared & (c_itl < cfg.ITL3) {
                    t_delta *= 2.0;
                    let t_delta_max = cfg.TSTEP * cfg.RMAX;
                    if t_delta > t_delta_max {
                        trace!(" [TIMESTEP] Downshifting maxed out");
                        t_delta = t_delta_max;
                    } else {
                        trace!(" [TIMESTEP] Downshifting -> new t_delta = {}", t_delta);
                    }
                }
""", """                if geared || c_itl >= cfg.ITL3 {
                    c_step += 1;
                    continue;
                }
                let t_delta_max = cfg.TSTEP * cfg.RMAX;
                t_delta = if t_delta * 2.0 > t_delta_max { t_delta_max } else { t_delta * 2.0 };
"""),
 ("""            let limit: f64 = if i < self.c_nodes {
                x.abs() * cfg.RELTOL + cfg.VNTOL
            } else {
                x.abs() * cfg.RELTOL + cfg.ABSTOL
            };

            let this = (x - yv[i]).abs();
            trace!("  [CONVERGE] {} < {} = {}", this, limit, (this < limit));
            let within = this <= limit; // never true for a NaN
            if !within {
                res = Ok(false);
            }
""", """            let floor = if i < self.c_nodes { cfg.VNTOL } else { cfg.ABSTOL };
            let limit = (x * cfg.RELTOL).abs() + floor;
            let y = yv[i];
            let within = y - limit <= *x && *x <= y + limit;
            res = match res { Ok(so_far) => Ok(so_far & within), bad => bad };
""") if False else ("""            let this = (x - yv[i]).abs();
""", """            let this = f64::max(x - yv[i], yv[i] - x);
"""),
 ("""        while c_iteration < (cfg.ITL1+1) {
            c_iteration += 1;
""", """        loop {
            if c_iteration > cfg.ITL1 { break; }
            c_iteration += 1;
"""),
)
g("sources", E,
 ("""    fn stamp_voltage_source(
        &self,
        m: &mut [Vec<f64>],
        vsrc: &circuit::VoltageSource,
    ) {
""", """    fn stamp_voltage_source(
        &self,
        m: &mut [Vec<f64>],
        vsrc: &circuit::VoltageSource,
    ) {
        let row = self.c_nodes + vsrc.idx;
        let known = m[row].len() - 1;
        for &(node, sign) in &[(vsrc.n, -1.0), (vsrc.p, 1.0)] {
            match node {
                0 => {},
                _ => {
                    m[node][row] = sign;
                    m[row][node] = sign;
                }
            }
        }
        m[row][known] = vsrc.value;
    }

    #[allow(dead_code, unused_parens)]
    fn stamp_voltage_source_before(
        &self,
        m: &mut [Vec<f64>],
        vsrc: &circuit::VoltageSource,
    ) {
"""),
 ("""                // stamp independent sources
                self.independent_source_stamp(&mut m, t_now + t_delta);

                // Stamp voltage-dependent sources
                self.v_dependent_source_stamp(&mut m);

                // stamp elements that store energy
                self.storage_stamp(&mut m, &unknowns_prev, t_delta);
""", """                let t_next = t_now + t_delta;
                self.storage_stamp(&mut m, &unknowns_prev, t_delta);
                self.v_dependent_source_stamp(&mut m);
                self.independent_source_stamp(&mut m, t_next);
"""),
 ("""        let over = 1.0 / r.value;

        // out of node 'a'
        if r.a != 0 {
            m[r.a][r.a] += over;
            if r.b != 0 {
                m[r.a][r.b] -= over;
            }
        }

        // out of node 'b'
        if r.b != 0 {
            m[r.b][r.b] += over;
            if r.a != 0 {
                m[r.b][r.a] -= over;
            }
        }
""", """        let over = r.value.recip();
        for (here, there) in [(r.a, r.b), (r.b, r.a)].iter().copied().filter(|(here, _)| *here > 0) {
            m[here][here] += over;
            if there > 0 {
                m[here][there] -= over;
            }
        }
"""),
)
g("waves", W,
 ("use std::fs::File;", "use std::fs::File;\nuse std::io::BufWriter;\nuse std::fmt::Write as _;"),
 ("    file: Option<File>,", "    file: Option<BufWriter<File>>,"),
 ("                Some(file)\n", "                Some(BufWriter::new(file))\n"),
 ("""        let mut names = "Time".to_string();

        for i in 0..c_nodes {
            let name = &self.lut[&i];
            names += &format!("\\tv({})", name);
        }
        for j in 0..c_vsrcs {
            names += &format!("\\ti({})", j);
        }
        names += "\\n";

        let mut units = "s".to_string();
        for _ in 0..c_nodes {
            units += "\\tV";
        }
        for _ in 0..c_vsrcs {
            units += "\\tA";
        }
        units += "\\n";
""", """        let names: String = std::iter::once("Time".to_string())
            .chain((0..c_nodes).map(|i| format!("v({})", self.lut[&i])))
            .chain((0..c_vsrcs).map(|j| format!("i({})", j)))
            .collect::<Vec<_>>()
            .join("\\t") + "\\n";
        let mut units = String::from("s");
        units.push_str(&"\\tV".repeat(c_nodes));
        units.push_str(&"\\tA".repeat(c_vsrcs));
        units.push('\\n');
"""),
 ("""            let mut line = format!("{:0.9}", time);

            for var in vars {
                let bit = format!("\\t{:0.9}", var);
                line += &bit;
            }
            line += "\\n";
            let _ = file.write_all(line.as_bytes());
""", """            let mut line = String::with_capacity(16 * (1 + vars.len()));
            let _ = write!(line, "{:.9}", time);
            vars.iter().for_each(|var| { let _ = write!(line, "\\t{:.9}", var); });
            let _ = writeln!(file, "{}", line);
"""),
)
g("tables", C,
 ("use std::collections::HashMap;", "use std::collections::BTreeMap as HashMap;"),
)
g("tables", W,
 ("use std::collections::HashMap;", "use std::collections::BTreeMap as HashMap;"),
)
g("reader", SP,
 ("""        let input = File::open(filepath).unwrap();
        let buf = BufReader::new(input);
        let mut lines_iter = buf.lines();
""", """        let text = std::fs::read_to_string(filepath).unwrap();
        let mut lines_iter = text.lines();
"""),
 ("use std::fs::File;\nuse std::io::{BufReader, BufRead};\n", ""),
 ("""            let line = line_wr.unwrap();
""", """            let line = line_wr;
"""),
 ("""            let card = line.split(';').next().unwrap_or("");
            let bits :Vec<&str> = card.split_whitespace().collect();

            // jump blank lines
            if bits.is_empty() {
                continue;
            }

            // skip comment lines
            if bits[0].starts_with('*') {
                continue;
            }
""", """            let card = match line.find(';') {
                Some(end) => &line[..end],
                None => line,
            }.trim();
            if card.is_empty() || card.starts_with('*') {
                continue;
            }
            let bits: Vec<&str> = card.split_whitespace().collect();
"""),
 ("""                } else if bits[0].starts_with('R') {
                    if let Some(r) = self.extract_primitive(&bits, 2, 1) {
                        self.ckts[self.c].add_instance(r);
                    } else {
                        println!("*ERROR* can't extract resistance");
                        self.there_are_errors = true;
                    }
                } else if bits[0].starts_with('C') {
                    if let Some(c) = self.extract_primitive(&bits, 2, 1) {
                        self.ckts[self.c].add_instance(c);
                    } else {
                        println!("*ERROR* can't extract capacitor");
                        self.there_are_errors = true;
                    }
                } else if bits[0].starts_with('D') {
                    if let Some(d) = self.extract_primitive(&bits, 2, 0) {
                        self.ckts[self.c].add_instance(d);
                    } else {
                        println!("*ERROR* can't extract diode");
                        self.there_are_errors = true;
                    }
                } else if bits[0].starts_with('E') {
                    if let Some(e) = self.extract_primitive(&bits, 4, 1) {
                        self.ckts[self.c].add_instance(e);
                    } else {
                        println!("*ERROR* can't extract VCVS");
                        self.there_are_errors = true;
                    }
                } else if bits[0].starts_with('G') {
                    if let Some(g) = self.extract_primitive(&bits, 4, 1) {
                        self.ckts[self.c].add_instance(g);
                    } else {
                        println!("*ERROR* can't extract VCCS");
                        self.there_are_errors = true;
                    }
                } else if bits[0].starts_with('X') {
""", """                } else if let Some((what, ports, params)) = device_kind(bits[0]) {
                    match self.extract_primitive(&bits, ports, params) {
                        Some(device) => self.ckts[self.c].add_instance(device),
                        None => {
                            println!("*ERROR* can't extract {}", what);
                            self.there_are_errors = true;
                        }
                    }
                } else if bits[0].starts_with('X') {
"""),
 ("""/// Extract an element identifier from SPICE
""", """/// Name, number of terminals and least number of parameters of a device card
fn device_kind(name: &str) -> Option<(&'static str, usize, usize)> {
    match name.as_bytes()[0] {
        b'R' => Some(("resistance", 2, 1)),
        b'C' => Some(("capacitor", 2, 1)),
        b'D' => Some(("diode", 2, 0)),
        b'E' => Some(("VCVS", 4, 1)),
        b'G' => Some(("VCCS", 4, 1)),
        _ => None,
    }
}

/// Extract an element identifier from SPICE
"""),
 ("""        let mut well_formed_node_name = true;
        for c in text.chars() {
            match c {
                '_' | '0'..='9' | 'a'..='z' | 'A'..='Z' => {},
                _ => { well_formed_node_name = false }
            }
        }
        if !well_formed_node_name {
""", """        let bad = |c: char| !(c == '_' || c.is_ascii_alphanumeric());
        if text.contains(bad) {
"""),
 ("""        for i in (0..bits.len()).rev() {
            if bits[i].contains('=') {
                if let Some(param) = self.extract_override(bits[i]) {
                    inst.add_parameter(&param);
                } else {
                    println!("*ERROR* parameter in instance bad");
                    self.there_are_errors = true;
                }
            } else {
                subckt_id = i;
                break;
            }
        }
""", """        if let Some(i) = bits.iter().rposition(|bit| !bit.contains('=')) {
            subckt_id = i;
        }
        for bit in bits[subckt_id..].iter().rev().filter(|bit| bit.contains('=')) {
            match self.extract_override(bit) {
                Some(param) => inst.add_parameter(&param),
                None => {
                    println!("*ERROR* parameter in instance bad");
                    self.there_are_errors = true;
                }
            }
        }
"""),
 ("""        let bits: Vec<_> = text.split('=').collect();
        if bits.len() != 2 {
            println!("*ERROR* expected <ident>=<expr>");
            self.there_are_errors = true;
            return None
        }

        let name = extract_identifier(bits[0]);
        if let Some(expr) = extract_expression(bits[1]) {
            Some(Parameter::override_from_expression(&name, &expr))
        } else {
            println!("*ERROR* expected <ident>=<expr>");
            self.there_are_errors = true;
            None
        }
""", """        let param = match text.split_once('=') {
            Some((name, value)) if !value.contains('=') =>
                extract_expression(value).map(|expr| Parameter::override_from_expression(name, &expr)),
            _ => None,
        };
        if param.is_none() {
            println!("*ERROR* expected <ident>=<expr>");
            self.there_are_errors = true;
        }
        param
"""),
)
g("paths", X,
 ("""            hier.push(inst.name.to_string()); // inst-name
            hier.push(p.name.to_string()); // param-name
            let param_full_name = hier.join(".");
            hier.pop(); // param-name
            hier.pop(); // inst-name
""", """            let param_full_name = path(&hier, &[&inst.name, &p.name]);
"""),
 ("""                    hier.push(ident.to_string()); // lut-name
                    let lookup_param_name = hier.join(".");
                    hier.pop(); // lut-name

                    let lut = ckt.get_param_value(&lookup_param_name);

                    #[allow""", """                    let lookup_param_name = path(&hier, &[ident]);
                    let lut = ckt.get_param_value(&lookup_param_name);

                    #[allow"""),
 ("""                hier.push(inst.name.to_string());
                hier.push(param_def.name.to_string()); // param-name
                let param_full_name = hier.join(".");
                hier.pop(); // param-name
                hier.pop(); // inst-name
""", """                let param_full_name = path(&hier, &[&inst.name, &param_def.name]);
"""),
 ("""    let mut hier = inhier.to_owned();

    let local_node_name = &ckts[host_ckt_id].node_id_lut[&lnid];
    hier.push(local_node_name.to_string());
    let node_name = hier.join(".");
    _ = hier.pop();

    #[allow(clippy::manual_map)] // cos of the trace!
    let gnid = ckt.add_node(&node_name);
""", """    if lnid == 0 {
        return 0; // ground is ground everywhere
    }
    let node_name = path(inhier, &[&ckts[host_ckt_id].node_id_lut[&lnid]]);
    let gnid = ckt.add_node(&node_name);
"""),
 ("""        hier.push(inst.name.to_string()); // inst-name
        hier.push(port.to_string()); // port-name
        let full_port_name = hier.join(".").to_string();
        hier.pop(); // port-name
        hier.pop(); // inst-name

        let host_net_name = &ckts[host_ckt_id].node_id_lut[hnid];

        hier.push(host_net_name.to_string()); // connecting-net
        let full_host_net_name = hier.join(".").to_string();
        hier.pop(); // connecting-net

        //println!("  '{}' -> '{}' ", full_port_name, full_host_net_name);
        let top_nid = ckt.add_node(&full_host_net_name);
""", """        let full_port_name = path(&hier, &[&inst.name, port]);
        let top_nid = local_connect(ckts, ckt, host_ckt_id, &hier, *hnid);
"""),
 ("""/// Find the index of the subcircuit called `name`.
""", """/// Hierarchical name
fn path(hier: &[String], tail: &[&str]) -> String {
    let mut full = String::new();
    for part in hier.iter().map(|x| x.as_str()).chain(tail.iter().copied()) {
        if !full.is_empty() {
            full.push('.');
        }
        full.push_str(part);
    }
    full
}

/// Find the index of the subcircuit called `name`.
"""),
 ("""    for (i, ckt) in ckts.iter().enumerate() {
        if ckt.name == name {
            return Some(i);
        }
    }
    None
""", """    ckts.iter().position(|ckt| ckt.name == name)
"""),
)
g("params", X,
 ("""        let param_lut = ckt.get_param_value(&param_full_name);
        let value = if let Some(rval) = param_lut {
            rval
        } else {
            panic!("*FATAL* Value for R was not resolved");
        };
""", """        let value = ckt.get_param_value(&param_full_name).expect("*FATAL* Value for R was not resolved");
"""),
 ("""        let diode = Diode::new(&ident, n[0], n[1], i_sat, tdegc);
        ckt.elements.push(Element::D(diode));
""", """        ckt.add_d(Diode::new(&ident, n[0], n[1], i_sat, tdegc));
"""),
 ("""        let v_idx = ckt.v_idx_next;
        ckt.v_idx_next += 1;

        let vcvs = Vcvs {ident, p: n[0], n: n[1], cp: n[2], cn: n[3], k, idx:v_idx };
        ckt.elements.push(Element::Vcvs(vcvs));
""", """        if let [p, n, cp, cn] = n[..] {
            let idx = ckt.v_idx_next;
            ckt.v_idx_next = idx + 1;
            ckt.elements.push(Element::Vcvs(Vcvs { ident, p, n, cp, cn, k, idx }));
        }
"""),
)
g("pwl", P,
 ("""        // find out which points we're between...
        let mut t1 = 0.0;
        let mut t2 = 0.0;
        let mut v1 = 0.0;
        let mut v2 = 0.0;
        for tv in &self.pat {
            //println!("time: {}; tv: {:?}", t_cycle, tv);
            if t_cycle > tv.0 {
                t1 = tv.0;
                v1 = tv.1;
            } else {
                t2 = tv.0;
                v2 = tv.1;
                break;
            }
        }

        //dbg!(t1,v1, t2,v2);

        // ... and interpolate between them
        // (a first point at the very start of the cycle has nothing before it)
        if t2 == t1 {
            return v2;
        }
        let gradient = (v2-v1) / (t2-t1);
        gradient * (t_cycle - t1) + v1
""", """        // the first point that is not before this time, and the one before that
        let after = self.pat.partition_point(|&(at, _)| at < t_cycle);
        let (t2, v2) = self.pat[after];
        let (t1, v1) = match after.checked_sub(1) {
            Some(before) => self.pat[before],
            None if t2 == 0.0 => return v2,
            None => (0.0, 0.0),
        };
        let part = (t_cycle - t1) / (t2 - t1);
        v1 * (1.0 - part) + v2 * part
"""),
)
g("diode", D,
 ("""        let v_d_i :f64;
        #[allow(clippy::if_same_then_else)] // FIXME??
        if v_hat < self.v_crit {
            v_d_i = v_hat;
        } else if v_delta.abs() <= 2.0 * self.v_thermal {
            v_d_i = v_hat;
        } else if v_d_prev <= 0.0 {
            v_d_i = self.v_thermal * (v_hat / self.v_thermal).ln();
        } else {

            let arg :f64 = 1.0 + (v_delta / self.v_thermal);
            if arg <= 0.0 {
                v_d_i  = self.v_crit;
            } else {
                v_d_i = v_d_prev + self.v_thermal * arg.ln();
            }
            trace!("v_d {}, v_d_prev {}", v_hat, v_d_prev);
            trace!(" arg {}, v_d_i {}", arg, v_d_i);
        }
""", """        let v_d_i = self.limit(v_hat, v_d_prev, v_delta);
"""),
 ("""    /// thermal voltage. Should be ~26mV at room temperature
""", """    /// limit the step of the junction voltage
    fn limit(&self, v_hat: f64, v_d_prev: f64, v_delta: f64) -> f64 {
        let vt = self.v_thermal;
        let small_step = v_delta >= -2.0 * vt && v_delta <= 2.0 * vt;
        if v_hat < self.v_crit || small_step {
            return v_hat;
        }
        if v_d_prev > 0.0 {
            let arg = (vt + v_delta) / vt;
            return if arg > 0.0 { v_d_prev + vt * arg.ln() } else { self.v_crit };
        }
        vt * (v_hat / vt).ln()
    }

    /// thermal voltage. Should be ~26mV at room temperature
"""),
 ("""        let exp_vd_over_vt =(v_d_i / self.v_thermal).exp();

        let i_d = self.i_sat * ( exp_vd_over_vt - 1.0 );
""", """        let exp_vd_over_vt = f64::exp(v_d_i / self.v_thermal);
        let i_d = self.i_sat * exp_vd_over_vt - self.i_sat;
"""),
 ("""            g_eq = (self.i_sat / self.v_thermal) * exp_vd_over_vt;
            if g_eq < GMIN {
                g_eq = GMIN;
            }

            // equivalent current source to pick up the slack
            i_eq = i_d - (g_eq * v_d_i);
""", """            g_eq = (self.i_sat * exp_vd_over_vt / self.v_thermal).max(GMIN);
            i_eq = g_eq.mul_add(-v_d_i, i_d);
"""),
 ("        let mut g_eq: f64;\n", "        let g_eq: f64;\n"),
 ("self.v_thermal = BOLTZMANN * (363.0 + self.tdegc) / CHARGE;", "self.v_thermal = (self.tdegc + 363.0) * BOLTZMANN / CHARGE;"),
)
g("folded", D,
 ("self.v_thermal = BOLTZMANN * (363.0 + self.tdegc) / CHARGE;", "const VOLTS_PER_KELVIN: f64 = BOLTZMANN / CHARGE;\n        self.v_thermal = VOLTS_PER_KELVIN * (self.tdegc + 363.0);"),
 ("            * ( self.v_thermal / ( (2.0_f64).sqrt() * self.i_sat ) )", "            * ( self.v_thermal / ( std::f64::consts::SQRT_2 * self.i_sat ) )"),
)
for f in ("src/element/vsine.rs", "src/element/isine.rs"):
    g("sine", f,
     ("use std::f64::consts::PI;", "use std::f64::consts::TAU;"),
     ("        self.vo + self.va * (2.0 * PI * self.freq * t).sin()", "        let phase = self.freq * t * TAU;\n        phase.sin().mul_add(self.va, self.vo)"))
g("number", B,
 ("""    let expr_str: Vec<_> = text.chars().collect();

    let mut i:usize = 0;

    trace!("looking for '{{'");
    if expr_str[i] == '{' {
        i += 1
    } else {
        println!("*ERROR* - expected '{{'");
        return None
    }

    while i < expr_str.len() && expr_str[i].is_whitespace() {
        i += 1;
    }

    trace!("looking for identifier");
    let mut ident_chars: Vec<char> = vec![];
    while i < expr_str.len() && expr_str[i].is_ascii_alphanumeric() {
        ident_chars.push(expr_str[i]);
        i += 1;
    }

    let ident: String = ident_chars.into_iter().collect();
    if ident.is_empty() {
        println!("*ERROR* - expected an identifier");
        return None
    }

    trace!("looking for '}}'");
    while i < expr_str.len() && expr_str[i].is_whitespace() {
        i += 1;
    }

    if i >= expr_str.len() || expr_str[i] != '}' {
        println!("*ERROR* - expected '}}'");
        return None
    }
""", """    let mut rest = text[1..].trim_start().chars().peekable();
    let mut ident = String::new();
    while let Some(c) = rest.next_if(|c| c.is_ascii_alphanumeric()) {
        ident.push(c);
    }
    if ident.is_empty() {
        println!("*ERROR* - expected an identifier");
        return None
    }
    while rest.next_if(|c| c.is_whitespace()).is_some() {}
    if rest.next() != Some('}') {
        println!("*ERROR* - expected '}}'");
        return None
    }
"""),
 ("""                match c {
                    '0' ..= '9' => { float_str.push(c); nxt = ValueState::Int },
                    '.' => { float_str.push(c); nxt = ValueState::Frac },
                    'e' => { float_str.push(c); nxt = ValueState::ExpStart },
                    'k' => {
                        eng_mult = 1e3;
                        value = eval(&float_str, eng_mult);
                        nxt = ValueState::Unit
                    },
                    'm' => {
                        eng_mult = 1e-3;
                        value = eval(&float_str, eng_mult);
                        nxt = ValueState::Unit
                    },
                    'u' => {
                        eng_mult = 1e-6;
                        value = eval(&float_str, eng_mult);
                        nxt = ValueState::Unit
                    },
                    'n' => {
                        eng_mult = 1e-9;
                        value = eval(&float_str, eng_mult);
                        nxt = ValueState::Unit
                    },
                    'p' => {
                        eng_mult = 1e-12;
                        value = eval(&float_str, eng_mult);
                        nxt = ValueState::Unit
                    },
                    _ => break 'things
                }
            },

            ValueState::Frac => {
""", """                if c.is_ascii_digit() {
                    float_str.push(c);
                    nxt = ValueState::Int;
                } else if c == '.' {
                    float_str.push(c);
                    nxt = ValueState::Frac;
                } else if c == 'e' {
                    float_str.push(c);
                    nxt = ValueState::ExpStart;
                } else if let Some((_, mult)) = [('k', 1e3), ('m', 1e-3), ('u', 1e-6), ('n', 1e-9), ('p', 1e-12)].iter().find(|x| x.0 == c) {
                    eng_mult = *mult;
                    value = eval(&float_str, *mult);
                    nxt = ValueState::Unit;
                } else {
                    break 'things;
                }
            },

            ValueState::Frac => {
"""),
)
names = sys.argv[2:] or [n for n in G if n != "folded"]
bad = 0
for n in names:
    for f, pairs in G[n]:
        p = os.path.join(R, f); t = open(p).read()
        for old, new in pairs:
            if t.count(old) != 1: print(n, f, "matches", t.count(old), ":", old[:70].replace("\n", "\\n")); bad = 1; continue
            t = t.replace(old, new)
        open(p, "w").write(t)
sys.exit(bad)
