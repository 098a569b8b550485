#!/usr/bin/env python3
"""Behaviour-preserving rewrites of /repo's code, in groups, to see that the checks stay quiet: refactor1.py DIR GROUP..."""
import sys, os
R = sys.argv[1]
G = {}
def g(name, f, *pairs): G.setdefault(name, []).append((f, pairs))
E="src/engine.rs"; SP="src/spice.rs"; X="src/expander.rs"; C="src/circuit.rs"; B="src/bracket_expression.rs"; W="src/wavewriter.rs"; P="src/element/vpwl.rs"; D="src/element/diode.rs"

g("engine", E,
 ("""        let mut biggest: f64 = 0.0;
        let mut r_biggest: usize = k;
        let c_rows = m.len();
        #[allow(clippy::needless_range_loop)]
        for r in k..c_rows {
            let this = m[r][k].abs();
            if this > biggest {
                biggest = this;
                r_biggest = r;
            }
        }
        r_biggest
""", """        m.iter().enumerate().skip(k).fold((k, 0.0f64), |best, (r, row)| {
            let size = row[k].abs();
            if size > best.1 { (r, size) } else { best }
        }).0
"""),
 ("""                let ratio = v[r_mod][r_ref] / v[r_ref][r_ref];

                for c_mod in r_ref..=c_mna { // column we're scaling
                    let val = v[r_mod][c_mod];
                    let wiggle = v[r_ref][c_mod];
                    let new = val - (wiggle * ratio); 
                    v[r_mod][c_mod] = new;
""", """                let ratio = v[r_mod][r_ref] / v[r_ref][r_ref];
                let (upper, lower) = v.split_at_mut(r_mod);
                for (val, wiggle) in lower[0][r_ref..].iter_mut().zip(&upper[r_ref][r_ref..]) {
                    *val -= wiggle * ratio;
"""),
 ("""            let mut sum = 0.0;
            #[allow(clippy::needless_range_loop)]
            for i_term in i_solve+1..c_mna {
                sum += v[i_solve][i_term] * n[i_term];
                //println!("[{:3}]  {} * {}",  i_solve, v[i_solve][i_term], n[i_term]);

            }
""", """            let sum: f64 = (i_solve+1..c_mna).map(|i_term| v[i_solve][i_term] * n[i_term]).sum();
"""),
 ("""        let ia = self.c_nodes + self.c_vsrcs; // index for ampere vector
        if isrc.p != 0 {
            m[isrc.p][ia] -= isrc.value;
        }
        if isrc.n != 0 {
            m[isrc.n][ia] += isrc.value;
        }
""", """        for (node, value) in [(isrc.p, -isrc.value), (isrc.n, isrc.value)] {
            if node == 0 { continue; }
            if let Some(known) = m[node].last_mut() { *known += value; }
        }
"""),
 ("""        // out of node 'a'
        if r.a != 0 {
            m[r.a][r.a] += over;
            if r.b != 0 {
                m[r.a][r.b] -= over;
            }
        }

        // out of node 'b'
        if r.b != 0 {
            m[r.b][r.b] += over;
            if r.a != 0 {
                m[r.b][r.a] -= over;
            }
        }
""", """        if r.a == r.b { return; }
        match (r.a, r.b) {
            (0, x) | (x, 0) => m[x][x] += over,
            (a, b) => {
                m[a][a] += over;
                m[b][b] += over;
                m[a][b] -= over;
                m[b][a] -= over;
            }
        }
"""),
 ("""        let mut res = Ok(true);
        for (i,x) in xv.iter().enumerate() {
            if !x.is_finite() {
                println!("*ERROR* math gone bad - infinites in convergence check {}", i);
                return Err(ConvergenceError::Divergent);
            }
            let limit: f64 = if i < self.c_nodes {
                x.abs() * cfg.RELTOL + cfg.VNTOL
            } else {
                x.abs() * cfg.RELTOL + cfg.ABSTOL
            };

            let this = (x - yv[i]).abs();
            trace!("  [CONVERGE] {} < {} = {}", this, limit, (this < limit));
            let within = this <= limit; // never true for a NaN
            if !within {
                res = Ok(false);
            }
        }
        trace!("  [CONVERGE] Convergence check: {:?}", res); 
        res
""", """        if let Some(i) = xv.iter().position(|x| !x.is_finite()) {
            println!("*ERROR* math gone bad - infinites in convergence check {}", i);
            return Err(ConvergenceError::Divergent);
        }
        let tolerance = |i: usize| if i < self.c_nodes { cfg.VNTOL } else { cfg.ABSTOL };
        Ok(xv.iter().zip(yv).enumerate().all(|(i, (x, y))| (x - y).abs() <= cfg.RELTOL * x.abs() + tolerance(i)))
"""),
)
g("tran", E,
 ("""                    t_delta *= 2.0;
                    let t_delta_max = cfg.TSTEP * cfg.RMAX;
                    if t_delta > t_delta_max {
                        trace!(" [TIMESTEP] Downshifting maxed out");
                        t_delta = t_delta_max;
                    } else {
                        trace!(" [TIMESTEP] Downshifting -> new t_delta = {}", t_delta);
                    }
""", """                    t_delta = (t_delta + t_delta).min(cfg.RMAX * cfg.TSTEP);
"""),
 ("""            if t_now >= cfg.TSTART && t_now != 0.0 {
                trace!("*DATA*: [{}] t={} : {:?}", c_step, t_now, unknowns);
                wavedb.dump_vector(t_now, &unknowns);
            }

            if is_final_timestep {
                break;
            }

            // don't step over the end, solve for it
            let reaches_tstop = t_now + t_delta >= cfg.TSTOP;
            if reaches_tstop {
                t_delta = cfg.TSTOP - t_now;
            }
""", """            let at_dc_point = t_now == 0.0;
            if !(at_dc_point || t_now < cfg.TSTART) {
                wavedb.dump_vector(t_now, &unknowns);
            }

            if is_final_timestep {
                break;
            }

            // don't step over the end, solve for it
            let left = cfg.TSTOP - t_now;
            let reaches_tstop = t_delta >= left;
            t_delta = if reaches_tstop { left } else { t_delta };
"""),
 ("""            if reaches_tstop && !geared {
                t_now = cfg.TSTOP;
                is_final_timestep = true;
            } else {
                t_now += t_delta;
            }

            if converged {
                // update things for next loop
                unknowns_prev = unknowns.to_vec();
""", """            is_final_timestep = reaches_tstop && !geared;
            t_now = if is_final_timestep { cfg.TSTOP } else { t_now + t_delta };

            if converged {
                // update things for next loop
                unknowns_prev.clone_from(&unknowns);
"""),
 ("""                    Ok(cnvg) => {
                        if cnvg {
                            trace!(" [TIMESTEP] Timestep converged after {} iterations", c_itl);
                            converged = true;
                            break;
                        } else {
                            // adjust timestep if we can
                            if c_itl >= cfg.ITL4 {
                                t_delta *= cfg.FT;
                                // check if we're ok to continue iterating
                                if t_delta < t_delta_min {
                                    println!("*ERROR* Internal timestep too small");
                                    error = true;
                                    break;
                                } else {
                                    // reset iteration count
                                    trace!(" [TIMESTEP] Upshifting -> new t_delta = {}", t_delta);
                                    geared = true;
                                    c_itl = 0;
                                }
                            }
                        }
                    },
""", """                    Ok(true) => {
                        converged = true;
                        break;
                    },
                    Ok(false) if c_itl < cfg.ITL4 => {},
                    Ok(false) => {
                        t_delta = cfg.FT * t_delta;
                        if t_delta < t_delta_min {
                            println!("*ERROR* Internal timestep too small");
                            error = true;
                            break;
                        }
                        geared = true;
                        c_itl = 0;
                    },
"""),
 ("""        while c_iteration < (cfg.ITL1+1) {
            c_iteration += 1;
""", """        for k in 1..=cfg.ITL1 + 1 {
            c_iteration = k;
"""),
 ("""            if c_iteration > 0 {
                match self.convergence_check(&unknowns, &unknowns_prev, cfg) {
                    Ok(cnvd) => {
                        if cnvd {
                            converged = true;
                            break;
                        }
                    },
                    Err(_) => {
                        println!("*ERROR* math gone bad during DC solve");
                        break;
                    },
                }
            }

            // leave
            unknowns_prev_prev = unknowns_prev.clone();
            unknowns_prev = unknowns.clone();
""", """            match self.convergence_check(&unknowns, &unknowns_prev, cfg) {
                Ok(false) => {
                    unknowns_prev_prev = std::mem::replace(&mut unknowns_prev, unknowns.clone());
                }
                other => {
                    converged = other.is_ok();
                    break;
                }
            }
"""),
)
g("stamps", E,
 ("""                    // stamp
                    self.stamp_current_source(m, &circuit::CurrentSource{
                        p: c.b,
                        n: c.a,
                        value: i_eq
                    });
                    self.stamp_resistor(m, &circuit::Resistor{
                        ident: "asdfa".to_string(),
                        a: c.a,
                        b: c.b,
                        value: 1.0/g_eq
                    });
""", """                    self.stamp_companion(m, c.a, c.b, g_eq, -i_eq);
"""),
 ("""                    // stamp
                    self.stamp_current_source(m, &circuit::CurrentSource{
                        p: d.p,
                        n: d.n,
                        value: i_eq
                    });
                    self.stamp_resistor(m, &circuit::Resistor{
                        ident: "nl_something".to_string(),
                        a: d.p,
                        b: d.n,
                        value: 1.0/g_eq
                    });
""", """                    self.stamp_companion(m, d.p, d.n, g_eq, i_eq);
"""),
 ("""    fn storage_stamp(&self,""", """    /// a conductance with a current source beside it
    fn stamp_companion(&self, m: &mut [Vec<f64>], a: usize, b: usize, g: f64, i: f64) {
        let last = self.c_nodes + self.c_vsrcs;
        for (from, to, sign) in [(a, b, 1.0), (b, a, -1.0)] {
            if from == 0 { continue; }
            let row = &mut m[from];
            row[from] += g;
            if to != 0 { row[to] -= g; }
            row[last] -= sign * i;
        }
    }

    fn storage_stamp(&self,"""),
 ("""                    // branch current of output source
                    if src.p != 0 { m[src.p][idx] += 1.0 }
                    if src.n != 0 { m[src.n][idx] -= 1.0 }

                    // make sure controls and outputs are related
                    if src.cp != 0 { m[idx][src.cp] += src.k }
                    if src.cn != 0 { m[idx][src.cn] -= src.k }

                    if src.p != 0 { m[idx][src.p] -= 1.0 }
                    if src.n != 0 { m[idx][src.n] += 1.0 }
""", """                    let mut put = |r: usize, c: usize, x: f64| if r != 0 && c != 0 { m[r][c] += x };
                    put(idx, src.n, -1.0);
                    put(idx, src.p, 1.0);
                    put(idx, src.cn, src.k);
                    put(idx, src.cp, -src.k);
                    put(src.n, idx, -1.0);
                    put(src.p, idx, 1.0);
"""),
 ("""                    if src.p != 0 {
                        if src.cp != 0 { m[src.p][src.cp] += src.k }
                        if src.cn != 0 { m[src.p][src.cn] -= src.k }
                    }
                    if src.n != 0 {
                        if src.cp != 0 { m[src.n][src.cp] -= src.k }
                        if src.cn != 0 { m[src.n][src.cn] += src.k }
                    }
""", """                    for (r, k) in [(src.p, src.k), (src.n, -src.k)].iter().filter(|x| x.0 != 0) {
                        for (c, k) in [(src.cp, *k), (src.cn, -*k)].iter().filter(|x| x.0 != 0) {
                            m[*r][*c] += *k;
                        }
                    }
"""),
)
g("elab", E,
 ("""                circuit::Element::Isin(ref isrcsine) => {
                    trace!("  [ELEMENT] Current Source (~):");
                    self.independent_sources.push(
                        circuit::Element::Isin(isrcsine.clone())
                    );
                }

                circuit::Element::Vsin(ref vsrcsine) => {
                    trace!("  [ELEMENT] Voltage Source (~):");
                    self.independent_sources.push(
                        circuit::Element::Vsin(vsrcsine.clone())
                    );
                }
""", """                circuit::Element::Isin(_) | circuit::Element::Vsin(_) => {
                    self.independent_sources.push(el.clone());
                }
"""),
 ("""        let mut m = vec![ vec![0.0; c_mna+1]; c_mna]; // +1 for currents
""", """        let mut m: Vec<Vec<f64>> = (0..c_mna).map(|_| std::iter::repeat(0.0).take(c_mna + 1).collect()).collect();
"""),
 ("        self.nonlinear_elements.clear();\n        self.independent_sources.clear();\n        self.v_dependent_sources.clear();\n        self.storage_elements.clear();\n",
  "        for list in [&mut self.storage_elements, &mut self.v_dependent_sources, &mut self.independent_sources, &mut self.nonlinear_elements] {\n            list.truncate(0);\n        }\n"),
)
g("circuit", C,
 ("""        if let Some(node_id) = self.get_node_id(name) {
            node_id
        } else {
            self.nodes.insert(String::from(name), self.nid_next);
            trace!("Add node '{}' with id {}", name, self.nid_next);
            self.nid_next += 1;
            self.nid_next - 1
        }
""", """        self.get_node_id(name).unwrap_or_else(|| {
            let id = self.nid_next;
            self.nid_next = id + 1;
            *self.nodes.entry(name.to_owned()).or_insert(id)
        })
"""),
 ("""        let endbit = name.rsplit_once('.');
        let localname = if let Some(bit) = endbit {
            bit.1
        } else {
            name
        };
        match localname {
            "gnd" | "GND" | "0" => Some(0),
            _ => self.nodes.get(name).copied()
        }
""", """        const GROUND: [&str; 3] = ["0", "gnd", "GND"];
        let localname = name.rsplit('.').next().unwrap_or(name);
        if GROUND.contains(&localname) {
            return Some(0);
        }
        self.nodes.get(name).cloned()
"""),
 ("""        let rank = |name: &str| (name.matches('.').count(), name.to_string());
        for (name, id) in &self.nodes {
            match self.node_id_lut.get(id) {
                Some(alias) if rank(alias) <= rank(name) => {},
                _ => { self.node_id_lut.insert(*id, String::from(name)); }
            }
        }
""", """        let mut known: Vec<(usize, &String, NodeId)> = self.nodes.iter()
            .chain(self.node_id_lut.iter().map(|(id, name)| (name, id)))
            .map(|(name, id)| (name.chars().filter(|c| *c == '.').count(), name, *id))
            .collect();
        known.sort();
        let mut lut = HashMap::new();
        for (_, name, id) in known {
            lut.entry(id).or_insert_with(|| name.clone());
        }
        self.node_id_lut = lut;
"""),
 ("""        for p in &self.params {
            if p.name == name {
                return p.value
            }
        }
        None
""", """        self.params.iter().find(|p| p.name == name).and_then(|p| p.value)
"""),
 ("""        // number of voltage sources in the circuit
        let mut c_vsrc: usize = 0;

        for el in &self.elements {
            match *el {
                Element::V(VoltageSource{..}) => {
                        c_vsrc += 1;
                },
                Element::Vsin(VoltageSourceSine{..}) => {
                        c_vsrc += 1;
                },
                Element::Vpwl(VoltageSourcePwl{..}) => {
                        c_vsrc += 1;
                },
                Element::Vcvs(Vcvs{..}) => {
                        c_vsrc += 1;
                },
                _ => {}
            }
        }
        c_vsrc
""", """        self.elements.iter()
            .filter(|el| matches!(el, Element::V(_) | Element::Vsin(_) | Element::Vpwl(_) | Element::Vcvs(_)))
            .count()
"""),
)
g("expander", X,
 ("""    for (i, ckt) in ckts.iter().enumerate() {
        if ckt.name == name {
            return Some(i);
        }
    }
    None
""", """    ckts.iter().position(|ckt| ckt.name == name)
"""),
 ("""    let mut hier = inhier.to_owned();

    let local_node_name = &ckts[host_ckt_id].node_id_lut[&lnid];
    hier.push(local_node_name.to_string());
    let node_name = hier.join(".");
    _ = hier.pop();
""", """    let mut node_name = String::new();
    for part in inhier {
        node_name.push_str(part);
        node_name.push('.');
    }
    node_name.push_str(&ckts[host_ckt_id].node_id_lut[&lnid]);
"""),
 ("""            hier.push(inst.name.to_string()); // inst-name
            hier.push(p.name.to_string()); // param-name
            let param_full_name = hier.join(".");
            hier.pop(); // param-name
            hier.pop(); // inst-name

            trace!("Resolving param {}", param_full_name);
""", """            let param_full_name = path(&hier, &[&inst.name, &p.name]);
"""),
 ("""                hier.push(inst.name.to_string());
                hier.push(param_def.name.to_string()); // param-name
                let param_full_name = hier.join(".");
                hier.pop(); // param-name
                hier.pop(); // inst-name
""", """                let param_full_name = path(&hier, &[&inst.name, &param_def.name]);
"""),
 ("""/// Find the index of the subcircuit called `name`.""", """/// the full name of something below `hier`
fn path(hier: &[String], rest: &[&str]) -> String {
    hier.iter().map(|s| s.as_str()).chain(rest.iter().copied()).collect::<Vec<&str>>().join(".")
}

/// Find the index of the subcircuit called `name`."""),
 ("""    // lookup connections in the scope in which the R, C whatever is instantiated
    let mut n: Vec<NodeId> = vec![];
    for net in &inst.conns {
        let tmp = local_connect(ckts, ckt, host_ckt_id, &hier, *net);
        n.push(tmp);
    }
""", """    // lookup connections in the scope in which the R, C whatever is instantiated
    let n: Vec<NodeId> = inst.conns.iter()
        .map(|net| local_connect(ckts, ckt, host_ckt_id, &hier, *net))
        .collect();
"""),
)
g("reader", SP,
 ("""        let mut well_formed_node_name = true;
        for c in text.chars() {
            match c {
                '_' | '0'..='9' | 'a'..='z' | 'A'..='Z' => {},
                _ => { well_formed_node_name = false }
            }
        }
""", """        let well_formed_node_name = text.bytes().all(|b| b == b'_' || b.is_ascii_alphanumeric());
"""),
 ("""            let card = line.split(';').next().unwrap_or("");
            let bits :Vec<&str> = card.split_whitespace().collect();
""", """            let card = match line.find(';') { Some(at) => &line[..at], None => line.as_str() };
            let bits :Vec<&str> = card.split(char::is_whitespace).filter(|b| !b.is_empty()).collect();
"""),
 ("""        let mut line = "".to_string();
        let end = bits.len() - n_params;
        for b in bits[3..end].iter() {
            line += *b;
            line.push(' ');
        }

        // then when we remove "PWL" "(" and ")" we should be left with
        // some numbers that we can extract
        line = line.replace("PWL", "");
        line = line.replace('(', "");
        line = line.replace(')', "");
""", """        let end = bits.len() - n_params;
        let line: String = bits[3..end].join(" ").replace("PWL", "").chars().filter(|c| !"()".contains(*c)).collect();
"""),
 ("""        let bits: Vec<_> = text.split('=').collect();
        if bits.len() != 2 {
            println!("*ERROR* expected <ident>=<expr>");
            self.there_are_errors = true;
            return None
        }

        let name = extract_identifier(bits[0]);
        if let Some(expr) = extract_expression(bits[1]) {
            Some(Parameter::override_from_expression(&name, &expr))
        } else {
            println!("*ERROR* expected <ident>=<expr>");
            self.there_are_errors = true;
            None
        }
""", """        let parsed = text.split_once('=')
            .filter(|(_, value)| !value.contains('='))
            .and_then(|(name, value)| extract_expression(value).map(|expr| Parameter::override_from_expression(&extract_identifier(name), &expr)));
        if parsed.is_none() {
            println!("*ERROR* expected <ident>=<expr>");
            self.there_are_errors = true;
        }
        parsed
"""),
 ("""        let input = File::open(filepath).unwrap();
        let buf = BufReader::new(input);
        let mut lines_iter = buf.lines();
""", """        let text = std::fs::read_to_string(filepath).unwrap();
        let mut lines_iter = text.lines();
"""),
 ("            let line = line_wr.unwrap();\n", "            let line = line_wr.to_string();\n"),
 ("use std::fs::File;\n", ""),
 ("use std::io::prelude::*;\n", ""), ("use std::io::BufReader;\n", ""),
)
g("waves", W,
 ("""        let mut names = "Time".to_string();

        for i in 0..c_nodes {
            let name = &self.lut[&i];
            names += &format!("\\tv({})", name);
        }
        for j in 0..c_vsrcs {
            names += &format!("\\ti({})", j);
        }
        names += "\\n";

        let mut units = "s".to_string();
        for _ in 0..c_nodes {
            units += "\\tV";
        }
        for _ in 0..c_vsrcs {
            units += "\\tA";
        }
        units += "\\n";
""", """        let mut names = vec!["Time".to_string()];
        names.extend((0..c_nodes).map(|i| format!("v({})", self.lut[&i])));
        names.extend((0..c_vsrcs).map(|j| format!("i({})", j)));
        let mut units = vec!["s"];
        units.resize(1 + c_nodes, "V");
        units.resize(1 + c_nodes + c_vsrcs, "A");
        let names = names.join("\\t") + "\\n";
        let units = units.join("\\t") + "\\n";
"""),
 ("""            let mut line = format!("{:0.9}", time);

            for var in vars {
                let bit = format!("\\t{:0.9}", var);
                line += &bit;
            }
            line += "\\n";
            let _ = file.write_all(line.as_bytes());
""", """            let mut out = std::io::BufWriter::new(file);
            let _ = write!(out, "{:.9}", time);
            for var in vars {
                let _ = write!(out, "\\t{:.*}", 9, var);
            }
            let _ = writeln!(out);
            let _ = out.flush();
"""),
)
g("pwl", P,
 ("""        // find out which points we're between...
        let mut t1 = 0.0;
        let mut t2 = 0.0;
        let mut v1 = 0.0;
        let mut v2 = 0.0;
        for tv in &self.pat {
            //println!("time: {}; tv: {:?}", t_cycle, tv);
            if t_cycle > tv.0 {
                t1 = tv.0;
                v1 = tv.1;
            } else {
                t2 = tv.0;
                v2 = tv.1;
                break;
            }
        }
""", """        // find out which points we're between...
        let next = self.pat.partition_point(|tv| tv.0 < t_cycle);
        let (t1, v1) = if next > 0 { self.pat[next - 1] } else { (0.0, 0.0) };
        let (t2, v2) = self.pat.get(next).copied().unwrap_or((0.0, 0.0));
"""),
 ("""        let gradient = (v2-v1) / (t2-t1);
        gradient * (t_cycle - t1) + v1
""", """        let part = (t_cycle - t1) / (t2 - t1);
        v1 + part * (v2 - v1)
"""),
)
g("diode", D,
 ("""        if v_hat < self.v_crit {
            v_d_i = v_hat;
        } else if v_delta.abs() <= 2.0 * self.v_thermal {
            v_d_i = v_hat;
        } else if v_d_prev <= 0.0 {
            v_d_i = self.v_thermal * (v_hat / self.v_thermal).ln();
        } else {

            let arg :f64 = 1.0 + (v_delta / self.v_thermal);
            if arg <= 0.0 {
                v_d_i  = self.v_crit;
            } else {
                v_d_i = v_d_prev + self.v_thermal * arg.ln();
            }
""", """        let small_step = v_delta <= 2.0 * self.v_thermal && v_delta >= -2.0 * self.v_thermal;
        if small_step || v_hat < self.v_crit {
            v_d_i = v_hat;
        } else if v_d_prev > 0.0 {
            let arg :f64 = (v_hat - v_d_prev + self.v_thermal) / self.v_thermal;
            v_d_i = if arg > 0.0 { v_d_prev + arg.ln() * self.v_thermal } else { self.v_crit };
            trace!("v_d {}", v_hat);
        } else {
            v_d_i = self.v_thermal * (v_hat / self.v_thermal).ln();
"""),
 ("""            trace!("v_d {}, v_d_prev {}", v_hat, v_d_prev);
            trace!(" arg {}, v_d_i {}", arg, v_d_i);
""", ""),
)
g("number", B,
 ("""                    'k' => {
                        eng_mult = 1e3;
                        value = eval(&float_str, eng_mult);
                        nxt = ValueState::Unit
                    },
                    'm' => {
                        eng_mult = 1e-3;
                        value = eval(&float_str, eng_mult);
                        nxt = ValueState::Unit
                    },
                    'u' => {
                        eng_mult = 1e-6;
                        value = eval(&float_str, eng_mult);
                        nxt = ValueState::Unit
                    },
                    'n' => {
                        eng_mult = 1e-9;
                        value = eval(&float_str, eng_mult);
                        nxt = ValueState::Unit
                    },
                    'p' => {
                        eng_mult = 1e-12;
                        value = eval(&float_str, eng_mult);
                        nxt = ValueState::Unit
                    },
                    _ => break 'things
                }
            },

""", """                    'k' | 'm' | 'u' | 'n' | 'p' => {
                        const MULT: [(char, f64); 5] = [('k', 1e3), ('m', 1e-3), ('u', 1e-6), ('n', 1e-9), ('p', 1e-12)];
                        eng_mult = MULT.iter().find(|x| x.0 == c).unwrap().1;
                        value = eval(&float_str, eng_mult);
                        nxt = ValueState::Unit
                    },
                    _ => break 'things
                }
            },

"""),
 ("""    let mut ident_chars: Vec<char> = vec![];
    while i < expr_str.len() && expr_str[i].is_ascii_alphanumeric() {
        ident_chars.push(expr_str[i]);
        i += 1;
    }

    let ident: String = ident_chars.into_iter().collect();
""", """    let ident: String = expr_str[i..].iter().take_while(|c| c.is_ascii_alphanumeric()).collect();
    i += ident.len();
"""),
)
for name in (sys.argv[2:] or list(G)):
    for f, pairs in G[name]:
        p = os.path.join(R, f)
        s = open(p).read()
        for a, b in pairs:
            if a not in s: print("NOT FOUND in", name, f, a[:80].strip().replace("\n", "|")); continue
            s = s.replace(a, b, 1)
        open(p, "w").write(s)
