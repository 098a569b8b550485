"""Planted bugs: replacements in the code, what they break, and a demonstration."""
SEEDS = []
def S(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))
E = "src/engine.rs"; SP = "src/spice.rs"; X = "src/expander.rs"; C = "src/circuit.rs"; D = "src/element/diode.rs"
B = "src/bracket_expression.rs"; W = "src/wavewriter.rs"; P = "src/element/vpwl.rs"

# ---------------------------------------------------------------- C01
S("c01-vccs-floating-control", "C01", [(E, "if src.cn != 0 { m[src.n][src.cn] += src.k }", "if src.cn != 0 { m[src.n][src.cn] -= src.k }")],
  "a G element whose output returns to a node other than ground and whose control is a difference of two nodes",
  "the current returned into the n node has the wrong sign for the negative control node",
  r'''
    let (c, x) = op("t\nV1 a 0 3\nV2 b 0 1\nV3 s 0 5\nG1 s o a b 0.1\nR1 o 0 10\n.control\nop\n.endc\n");
    near(at(&c, &x, "o"), 2.0, "v(o)");
''')
S("c01-vcvs-feedback", "C01", [(E, "if src.p != 0 { m[idx][src.p] -= 1.0 }", "if src.p != 0 { m[idx][src.p] = -1.0 }")],
  "an E element whose output is also one of its controls (an amplifier with direct feedback)",
  "the gain of an output that is also its own control is overwritten",
  r'''
    // v(o) = 4*(v(a) - v(o))
    let (c, x) = op("t\nV1 a 0 3\nE1 o 0 a o 4\nR1 o 0 10\n.control\nop\n.endc\n");
    near(at(&c, &x, "o"), 2.4, "v(o)");
''')
# ---------------------------------------------------------------- C02
S("c02-signed-pivot", "C02", [(E, "            let this = m[r][k].abs();\n            if this > biggest {", "            let this = m[r][k];\n            if this > biggest {")],
  "a column whose candidates for the pivot are zero and negative only",
  "a negative entry is never picked as a pivot, so a regular matrix is taken to be singular",
  r'''
    let (c, x) = op("t\nV1 0 a 3\nE1 0 b a 0 2\nR1 a 0 10\nR2 b 0 10\n.control\nop\n.endc\n");
    near(at(&c, &x, "a"), -3.0, "v(a)");
    near(at(&c, &x, "b"), 6.0, "v(b)");
''')
# ---------------------------------------------------------------- C03
S("c03-limit-down", "C03", [(D, "} else if v_delta.abs() <= 2.0 * self.v_thermal {", "} else if v_delta <= 2.0 * self.v_thermal {")],
  "a request above the critical voltage that is far below the previous linearisation voltage",
  "downward steps are not limited",
  r'''
    let d = element::diode::Diode::new("D", 1, 0, 1e-12, 27.0);
    let vd = |d: &element::diode::Diode, v: f64| { let (g, i) = d.linearize(v, 0.0); (g, i) };
    for _ in 0..200 { vd(&d, 2.0); }        // settle at 2 V
    let (g2, _) = vd(&d, 2.0);
    let (g, _) = vd(&d, 1.5);               // far below, still above critical: limited to the critical voltage
    let vt = 1.380_648_8e-23 * 390.0 / 1.603e-19;
    let v2 = vt * (g2 * vt / 1e-12).ln();
    let v = vt * (g * vt / 1e-12).ln();
    assert!((v2 - 2.0).abs() < 1e-6);
    assert!(v < 1.4, "linearised at {} when 1.5 V should be limited", v);
''')
# ---------------------------------------------------------------- C04
S("c04-itl1", "C04", [(E, "while c_iteration < (cfg.ITL1+1) {", "while c_iteration <= (cfg.ITL1+1) {")],
  "a DC analysis that doesn't converge",
  "one iteration more than ITL1+1 is made",
  r'''
    let (c, mut cfg, _) = read("t\nV1 a 0 5\nR1 a b 1\nD1 b 0\n.control\nop\n.endc\n");
    cfg.ITL1 = 3;
    let (_, s) = op_of(&c, &cfg);
    assert!(s.iterations <= 4, "{} iterations with ITL1=3", s.iterations);
''')
# ---------------------------------------------------------------- C05
S("c05-grounded-top", "C05", [(E, "let v_c = n[c.a] - n[c.b];", "let v_c = if c.a == 0 { n[c.b] } else { n[c.a] - n[c.b] };")],
  "a capacitor written with ground as its first terminal",
  "the stored voltage of a capacitor whose first terminal is ground has the wrong sign",
  r'''
    let (c, cfg, _) = read("t\nV1 a 0 PWL(0, 0, 1u, 1, 1m, 1)\nR1 a b 1k\nC1 0 b 1u\n.control\ntran 10u 2m\n.endc\n");
    let (_, h, rows) = tran(&c, &cfg);
    let b = h.iter().position(|x| x == "v(b)").unwrap();
    let last = rows.last().unwrap()[b];
    assert!((last - (1.0 - (-2.0f64).exp())).abs() < 0.02, "v(b) after two time constants is {}", last);
''')
# ---------------------------------------------------------------- C06
S("c06-tstart-open", "C06", [(E, "if t_now >= cfg.TSTART && t_now != 0.0 {", "if t_now > cfg.TSTART && t_now != 0.0 {")],
  "a start time that is exactly one of the accepted time points (e.g. equal to the stop time)",
  "a point at exactly TSTART is not recorded",
  r'''
    let (c, cfg, _) = read("t\nV1 a 0 1\nR1 a 0 1k\n.control\ntran 1m 10m 10m\n.endc\n");
    let (_, _, rows) = tran(&c, &cfg);
    near(rows.last().unwrap()[0], 10e-3, "last recorded time");
''')
S("c06-stale-source-time", "C06", [(E, "            let mut geared = false;\n", "            let mut geared = false;\n            let t_next = t_now + t_delta; // time we're solving for\n"), (E, "self.independent_source_stamp(&mut m, t_now + t_delta);", "self.independent_source_stamp(&mut m, t_next);")],
  "a time point that is retried with a smaller step while a source is changing",
  "after a retry the sources are still evaluated at the time that was given up",
  r'''
    let (c, mut cfg, _) = read("t\nV1 a 0 SIN(0 5 100)\nD1 a b\nR1 b 0 1k\n.control\ntran 100u 10m\n.endc\n");
    cfg.RMIN = 1e-6; cfg.ITL4 = 4;
    let (_, h, rows) = tran(&c, &cfg);
    let a = h.iter().position(|x| x == "v(a)").unwrap();
    for r in &rows {
        let want = 5.0 * (2.0 * std::f64::consts::PI * 100.0 * r[0]).sin();
        assert!((r[a] - want).abs() < 1e-4, "at {} the source is {} instead of {}", r[0], r[a], want);
    }
''')
S("c06-record-zero", "C06", [(E, "if t_now >= cfg.TSTART && t_now != 0.0 {", "if t_now + t_delta > cfg.TSTART && t_now != 0.0 {")],
  "a start time between two accepted time points",
  "the point before TSTART is recorded too",
  r'''
    let (c, cfg, _) = read("t\nV1 a 0 1\nR1 a 0 1k\n.control\ntran 1m 10m 6m\n.endc\n");
    let (_, _, rows) = tran(&c, &cfg);
    for r in &rows[1..] { assert!(r[0] >= 6e-3 - 1e-9, "recorded {} before 6m", r[0]); }
''')
# ---------------------------------------------------------------- C07
S("c07-itl4-late", "C07", [(E, "if c_itl >= cfg.ITL4 {", "if c_itl > cfg.ITL4 {")],
  "a time point that needs exactly ITL4+1 iterations (or none suffice)",
  "a time point gets one iteration more than ITL4 before the step is reduced",
  r'''
    // two iterations never suffice: DC takes the first ones, then each of the steps down to the minimum takes ITL4
    let (c, mut cfg, _) = read("t\nV1 a 0 SIN(0 5 100)\nD1 a b\nR1 b 0 1k\n.control\ntran 1m 10m\n.endc\n");
    cfg.RMIN = 0.01; cfg.ITL4 = 1;
    let dc = { let mut d = cfg.clone(); d.kind = None; op_of(&c, &d).1.iterations };
    let (s, _, _) = tran(&c, &cfg);
    // steps 0.25, 0.0625, 0.015625 of TSTEP; the next is too small
    assert!(s.iterations == dc + 3, "{} iterations, DC took {}", s.iterations, dc);
''')
S("c07-count-kept", "C07", [(E, "                                    geared = true;\n                                    c_itl = 0;\n", "                                    geared = true;\n")],
  "a time point that needs more than one iteration after its first retry",
  "the iteration count isn't restarted for the smaller step, which then is given up after one iteration",
  r'''
    let (c, mut cfg, _) = read("t\nV1 a 0 SIN(0 5 100)\nD1 a b\nR1 b 0 1k\n.control\ntran 1m 10m\n.endc\n");
    cfg.RMIN = 1e-3; cfg.ITL4 = 5;
    let (s, _, _) = tran(&c, &cfg);
    near(s.end, 10e-3, "end time");
''')
S("c07-easy-boundary", "C07", [(E, "if !geared & (c_itl < cfg.ITL3) {", "if !geared & (c_itl <= cfg.ITL3) {")],
  "a point that takes exactly ITL3 iterations",
  "the step is doubled after a point that took exactly ITL3 iterations",
  r'''
    let (c, mut cfg, _) = read("t\nV1 a 0 SIN(0 5 100)\nR1 a 0 1k\n.control\ntran 1m 3m\n.endc\n");
    cfg.ITL3 = 2; // linear circuits take two
    let (_, _, rows) = tran(&c, &cfg);
    near(rows[2][0] - rows[1][0], 0.25e-3, "second step");
''')
S("c07-count-discarded", "C07", [(E, "                                    geared = true;\n                                    c_itl = 0;\n", "                                    geared = true;\n                                    c_iteration -= c_itl; // thrown away\n                                    c_itl = 0;\n"), (E, "                                    trace!(\" [TIMESTEP] Upshifting -> new t_delta = {}\", t_delta);\n", "")],
  "a transient with a retry",
  "the reported iteration count leaves out the solves of steps that were given up",
  r'''
    let (c, mut cfg, _) = read("t\nV1 a 0 SIN(0 5 100)\nD1 a b\nR1 b 0 1k\n.control\ntran 1m 10m\n.endc\n");
    cfg.RMIN = 0.01; cfg.ITL4 = 1;
    let dc = { let mut d = cfg.clone(); d.kind = None; op_of(&c, &d).1.iterations };
    let (s, _, _) = tran(&c, &cfg);
    assert!(s.iterations == dc + 3, "{} iterations, DC took {}", s.iterations, dc);
''')
# ---------------------------------------------------------------- C08
S("c08-late-point", "C08", [(P, "            if t_cycle > tv.0 {", "            if t_cycle > tv.0 && tv.0 < self.t_delay.max(t_period / 2.0) {")],
  "a pattern with at least two points in its second half",
  "points late in the cycle are taken for the end of a segment, so the interpolation uses a wrong segment",
  r'''
    let s = element::vpwl::VoltageSourcePwl { p: 1, n: 0, pat: vec![(0.0, 0.0), (6.0, 6.0), (8.0, 0.0), (10.0, 5.0)], t_delay: 0.0, repeat: -1.0, idx: 0 };
    near(s.evaluate(9.0), 2.5, "value between the last points");
''')
S("c08-one-period-only", "C08", [(P, "                t1 = tv.0;\n                v1 = tv.1;", "                t1 = tv.0.max(t1);\n                v1 = if t > self.t_delay + 2.0 * t_period { self.pat[0].1.max(tv.1) } else { tv.1 };")],
  "a repeating pattern after its second period, in a segment that starts below the first value",
  "from the third period on segments start no lower than the first value",
  r'''
    let s = element::vpwl::VoltageSourcePwl { p: 1, n: 0, pat: vec![(0.0, 3.0), (1.0, -1.0), (2.0, 3.0)], t_delay: 0.5, repeat: 0.0, idx: 0 };
    near(s.evaluate(0.5 + 1.5), 1.0, "first period");
    near(s.evaluate(0.5 + 4.0 + 1.5), 1.0, "third period");
''')
# ---------------------------------------------------------------- C09
S("c09-short-pi", "C09", [("src/element/isine.rs", "self.vo + self.va * (2.0 * PI * self.freq * t).sin()", "self.vo + self.va * (6.283185 * self.freq * t).sin()"), ("src/element/isine.rs", "use std::f64::consts::PI;\n", "")],
  "a sine current source after very many periods",
  "2 pi is rounded to six decimals, so the phase drifts",
  r'''
    let s = element::isine::CurrentSourceSine { p: 1, n: 0, vo: 0.0, va: 1.0, freq: 1e6 };
    let want = (2.0 * std::f64::consts::PI * 1e6 * 1.00000025f64).sin();
    near(s.evaluate(1.00000025), want, "value");
''')
S("c09-offset-scaled", "C09", [("src/element/vsine.rs", "        self.vo + self.va * (2.0 * PI * self.freq * t).sin()", "        let phase = 2.0 * PI * self.freq * t;\n        if phase < 0.0 { return self.vo; } // not started yet\n        self.vo + self.va * phase.sin()")],
  "a negative frequency (a phase reversed sine)",
  "a sine with a negative frequency is taken for one that has not started",
  r'''
    let s = element::vsine::VoltageSourceSine { p: 1, n: 0, vo: 1.0, va: 2.0, freq: -50.0, idx: 0 };
    near(s.evaluate(5e-3), -1.0, "value");
''')
# ---------------------------------------------------------------- C10
S("c10-frac-pico", "C10", [(B, """                    'p' => {
                        eng_mult = 1e-12;
                        value = eval(&float_str, eng_mult);
                        nxt = ValueState::Unit
                    },
                    _ => break 'things
                }
            },

            ValueState::ExpStart""", """                    'p' => {
                        eng_mult = 1e-9;
                        value = eval(&float_str, eng_mult);
                        nxt = ValueState::Unit
                    },
                    _ => break 'things
                }
            },

            ValueState::ExpStart""")],
  "a number with a decimal point and the p multiplier",
  "1.5p is read as 1.5e-9",
  r'''
    use tiny_spice::bracket_expression::extract_value;
    let v = extract_value("1.5pF").unwrap();
    assert!((v - 1.5e-12).abs() < 1e-18, "1.5pF is {:e}", v);
''')
S("c10-exp-sign", "C10", [(B, "                    '+' | '-' => { float_str.push(c); nxt = ValueState::Exp },\n                    '0' ..= '9' => { float_str.push(c); nxt = ValueState::Exp },\n                    _ => break 'things", "                    '+' | '-' => { float_str.push(c); nxt = ValueState::Exp },\n                    '0' ..= '9' => { float_str.push('-'); float_str.push(c); nxt = ValueState::Exp },\n                    _ => break 'things")],
  "an exponent without a sign",
  "1e3 is read as 0.001",
  r'''
    use tiny_spice::bracket_expression::extract_value;
    near(extract_value("2e3").unwrap(), 2000.0, "2e3");
''')
# ---------------------------------------------------------------- C11
S("c11-lowercase", "C11", [(B, "    Some(Expression::Identifier(ident))", "    Some(Expression::Identifier(ident.to_ascii_lowercase()))")],
  "an identifier with an upper case letter",
  "the name in braces is folded to lower case and no longer names the parameter",
  r'''
    use tiny_spice::bracket_expression::{extract_expression, Expression};
    match extract_expression("{Rload}") { Some(Expression::Identifier(s)) => assert_eq!(s, "Rload"), x => panic!("{:?}", x) }
''')
S("c11-number-ident", "C11", [(B, "    if !text.starts_with('{') {\n        let val = extract_value(text);", "    if !text.starts_with('{') || (text.len() > 2 && text[1..].starts_with(|c: char| c.is_ascii_digit())) {\n        let val = extract_value(text.trim_start_matches('{'));")],
  "a brace expression whose identifier starts with a digit",
  "{2x} is read as the number 2 rather than the parameter 2x",
  r'''
    use tiny_spice::bracket_expression::{extract_expression, Expression};
    match extract_expression("{2x}") { Some(Expression::Identifier(s)) => assert_eq!(s, "2x"), x => panic!("{:?}", x) }
''')
# ---------------------------------------------------------------- C12
S("c12-case-ground", "C12", [(C, "        match localname {", "        match localname.to_uppercase().as_str() {"), (C, '"gnd" | "GND" | "0" => Some(0),', '"GND" | "0" => Some(0),')],
  "a node called Gnd or gND",
  "every spelling of gnd is taken for ground",
  r'''
    let (c, x) = op("t\nV1 a 0 3\nR1 a Gnd 10\nR2 Gnd 0 20\n.control\nop\n.endc\n");
    let _ = c; assert!(x.iter().any(|v| (v - 2.0).abs() < 1e-6), "no node at 2 V: {:?}", x);
''')
# ---------------------------------------------------------------- C13
S("c13-subckt-case", "C13", [(X, "        if ckt.name == name {", "        if ckt.name.eq_ignore_ascii_case(name) {")],
  "two subcircuits whose names differ in case only",
  "an instance of the later one gets the earlier one's elements",
  r'''
    let (c, x) = op("t\nI1 0 a 1\nXo a amp\n.subckt AMP p\nR1 p 0 10\n.ends\n.subckt amp p\nR1 p 0 20\n.ends\n.control\nop\n.endc\n");
    near(at(&c, &x, "a"), 20.0, "v(a)");
''')
S("c13-port-by-name", "C13", [(X, "        let top_nid = ckt.add_node(&full_host_net_name);", "        // a net of the same name at the top is the same net\n        let top_nid = match ckts[0].nodes.get(port) {\n            Some(nid) if ckts[0].nodes.get(host_net_name) == Some(nid) => *nid,\n            _ => ckt.add_node(&full_host_net_name),\n        };")],
  "an instance within a subcircuit that connects a private net to a port of the same name, where the top level has a net of that name too",
  "a private net of an instance is tied to the top level's net of the same name",
  r'''
    let (c, x) = op("t\nV1 in 0 3\nV2 m 0 7\nXo in outer\n.subckt outer p\nR1 p m 10\nXi m inner\n.ends\n.subckt inner m\nR1 m 0 20\n.ends\n.control\nop\n.endc\n");
    near(at(&c, &x, "Xo.m"), 2.0, "v(Xo.m)");
''')
S("c13-vcvs-control", "C13", [(X, "let vcvs = Vcvs {ident, p: n[0], n: n[1], cp: n[2], cn: n[3], k, idx:v_idx };", "let (cp, cn) = if n[3] < n[2] && k < 0.0 { (n[3], n[2]) } else { (n[2], n[3]) };\n        let vcvs = Vcvs {ident, p: n[0], n: n[1], cp, cn, k, idx:v_idx };")],
  "an E card with a negative gain whose negative control is ground or an earlier node",
  "the control terminals of an inverting E card are exchanged",
  r'''
    let (c, x) = op("t\nV1 a 0 3\nE1 o 0 a 0 -2\nR1 o 0 1\n.control\nop\n.endc\n");
    near(at(&c, &x, "o"), -6.0, "v(o)");
''')
# ---------------------------------------------------------------- C14
S("c14-own-scope-first", "C14", [(X, "                    let lut = ckt.get_param_value(&lookup_param_name);\n\n                    #[allow(clippy::manual_map)] // cos of the trace!", "                    let own_param_name = format!(\"{}{}.{}\", hier.iter().map(|h| h.clone() + \".\").collect::<String>(), inst.name, ident);\n                    let lut = ckt.get_param_value(&own_param_name)\n                        .or_else(|| ckt.get_param_value(&lookup_param_name));\n\n                    #[allow(clippy::manual_map)] // cos of the trace!")],
  "an instance line that sets a parameter to {x} and also sets the subcircuit's own parameter x, both circuits having one called x",
  "an identifier on an instance line is looked up among the instance's own parameters first",
  r'''
    let (c, x) = op("t\nI1 0 a 1\nXo a outer r=5\n.subckt outer p r=1\nXi p inner s={r} r=70\n.ends\n.subckt inner q r=2 s=3\nR1 q 0 {s}\n.ends\n.control\nop\n.endc\n");
    near(at(&c, &x, "a"), 5.0, "v(a)");
''')
S("c14-suffix-match", "C14", [(C, "            if p.name == name {", "            if p.name == name || (name.len() > p.name.len() && p.name.contains('/') && name.ends_with(&p.name) && name[..name.len() - p.name.len()].ends_with('X')) {")],
  "an instance whose path is another instance's path with an X in front",
  "a card takes the value of a card with a shorter path that ends the same",
  r'''
    let (c, x) = op("t\nI1 0 a 1\nI2 0 b 1\nR1 a 0 5\nXR1 b s\n.subckt s p\nR1 p 0 9\n.ends\nX1 a t v=30\nXX1 b t v=60\n.subckt t p v=1\nR9 p 0 {v}\n.ends\n.control\nop\n.endc\n");
    let _ = c; near(1.0 / x[c.get_node_id("b").unwrap()], 1.0/9.0 + 1.0/60.0, "conductance at b");
''')
S("c14-default-zero", "C14", [(X, "                if lut.is_some() {", "                if lut.is_some() && lut != Some(0.0) {"), (C, "        for p in &self.params {\n            if p.name == name {", "        for p in self.params.iter().rev() {\n            if p.name == name {")],
  "an override with the value 0 of a parameter with another default",
  "an override of 0 is taken for none, and the default is used",
  r'''
    let (c, _) = op("t\nV1 a 0 3\nXo a s k=0\n.subckt s p k=5\nR1 p 0 1k\nE1 o 0 p 0 {k}\nR2 o 0 1k\n.ends\n.control\nop\n.endc\n");
    let x = op_of(&c, &analysis::Configuration::new()).0;
    near(at(&c, &x, "Xo.o"), 0.0, "v(Xo.o)");
''')

# ---------------------------------------------------------------- second round
S("c02-skip-small", "C02", [(E, "                if v[r_mod][r_ref] == 0.0 {", "                if v[r_mod][r_ref].abs() < 1.0e-13 {")],
  "an entry below a pivot that is tiny but not zero (conductances under GMIN)",
  "tiny entries are left in place below the pivot as if they were zero, so equations are not eliminated",
  r"""
    let (c, x) = op("t\nI1 0 a 1p\nR1 a b 100000000000000\nR2 b 0 100000000000000\nR3 a 0 100000000000000\n.control\nop\n.endc\n");
    near(at(&c, &x, "b"), 1.0e-12 * 1e14 / 3.0, "v(b)");
""")
S("c02-lazy-pivot", "C02", [(E, "            v.swap(r_max, r_ref);", "            if v[r_ref][r_ref].abs() <= f64::EPSILON {\n                v.swap(r_max, r_ref);\n            }")],
  "a diagonal entry that is much smaller than another entry in its column, but not nearly zero",
  "rows are exchanged only when the diagonal entry is practically zero, so pivots aren't the largest entries",
  r"""
    let (c, x) = op("t\nI1 0 a 1\nV1 a 0 0.7\nR1 a 0 2345678912345678\n.control\nop\n.endc\n");
    near(at(&c, &x, "a"), 0.7, "v(a)");
""")
S("c03-arg", "C03", [(D, "let arg :f64 = 1.0 + (v_delta / self.v_thermal);", "let arg :f64 = v_delta / self.v_thermal;")],
  "a request more than two thermal voltages above a forward voltage that is already set",
  "the logarithmic limit is shifted, so steps just over two thermal voltages are cut by a third",
  r"""
    let vt = 1.380_648_8e-23 * 390.0 / 1.603e-19;
    let d = element::diode::Diode::new("D", 1, 0, 1e-12, 27.0);
    d.linearize(0.5, 0.0);
    let (g, _) = d.linearize(1.0, 0.0);
    near(vt * (g * vt / 1e-12).ln(), 0.5 + vt * (1.0 + 0.5 / vt).ln(), "linearisation voltage");
""")
S("c03-exp-cap", "C03", [(D, "let exp_vd_over_vt =(v_d_i / self.v_thermal).exp();", "let exp_vd_over_vt =(v_d_i / self.v_thermal).clamp(-40.0, 60.0).exp();")],
  "a forward voltage of more than two volts across a junction",
  "the exponential is capped, so the companion isn't the tangent of the curve at a high forward voltage",
  r"""
    let vt = 1.380_648_8e-23 * 390.0 / 1.603e-19;
    let d = element::diode::Diode::new("D", 1, 0, 1e-12, 27.0);
    let mut v = 0.6;
    while v < 2.5 { v += 1.9 * vt; d.linearize(v, 0.0); }   // in steps that aren't limited
    let (g, i) = d.linearize(v, 0.0);
    let want = 1e-12 * ((v / vt).exp() - 1.0);
    assert!(((g * v + i) / want - 1.0).abs() < 1e-6, "{:e} A instead of {:e} at {} V", g * v + i, want, v);
""")
S("c04-damped", "C04", [(E, "            unknowns = self.solve(m);\n\n            // Convergence check\n            trace!(\" [CONVERGE] Convergence check {}\", c_iteration);", "            let solved = self.solve(m);\n            unknowns = if c_iteration > 3 && !self.nonlinear_elements.is_empty() {\n                // damp oscillations\n                solved.iter().zip(unknowns_prev.iter()).map(|(x, y)| 0.999 * x + 0.001 * y).collect()\n            } else {\n                solved\n            };\n\n            // Convergence check\n            trace!(\" [CONVERGE] Convergence check {}\", c_iteration);")],
  "a DC analysis with a diode that takes more than three iterations",
  "from the fourth iteration on the reported voltages are a mix with the ones before, which solves neither system",
  r"""
    // every iterate solves the circuit with the diode's tangent: the voltage source holds exactly
    let (c, mut cfg, _) = read("t\nV1 a 0 5\nR1 a b 100\nD1 b 0\nV2 c b 1\nR2 c 0 1000\n.control\nop\n.endc\n");
    for n in 2..8 {
        cfg.ITL1 = n; cfg.VNTOL = -1.0; cfg.RELTOL = 0.0;
        let (x, _) = op_of(&c, &cfg);
        // the currents of R1 and V2/R2 and the diode's tangent: rebuild the last tangent from the iterate before
        cfg.ITL1 = n - 1;
        let (y, _) = op_of(&c, &cfg);
        let b = c.get_node_id("b").unwrap();
        let d = element::diode::Diode::new("D", 1, 0, 1e-9, 27.0);
        // replay the limiter's history
        let mut gi = d.linearize(0.0, 0.0);
        for k in 0..n { cfg.ITL1 = k; let (z, _) = op_of(&c, &cfg); gi = d.linearize(z[b], 0.0); }
        let _ = y;
        let (a, v) = (at(&c, &x, "a"), x[b]);
        let kcl = (a - v) / 100.0 - (v + 1.0) / 1000.0 - (gi.0 * v + gi.1);
        assert!(kcl.abs() < 1e-9 * (1.0 + gi.0.abs()), "iteration {}: {:e} A left at the diode's node", n + 1, kcl);
    }
""")
S("c04-one-sided", "C04", [(E, "let v_d = n[d.p] - n[d.n];\n                    let v_d_prev", "let v_d = if d.p == 0 { -n[d.n].abs() } else { n[d.p] - n[d.n] };\n                    let v_d_prev")],
  "a diode from ground to a node that is forward biased",
  "a diode whose anode is ground is always taken to be reverse biased",
  r"""
    let (c, x) = op("t\nV1 0 a 5\nR1 a b 1000\nD1 0 b\n.control\nop\n.endc\n");
    let b = at(&c, &x, "b");
    assert!(b > -1.0, "forward voltage is {}", -b);
""")
RETRY = r"""
    let (c, mut cfg, _) = read("t\nV1 a 0 SIN(0 5 100)\nD1 a b\nR1 b 0 1k\nC1 b 0 1u\n.control\ntran 100u 10m\n.endc\n");
    cfg.RMIN = 1e-4; cfg.ITL4 = 4;
    let (_, h, rows) = tran(&c, &cfg);
    let b = h.iter().position(|x| x == "v(b)").unwrap(); let a = h.iter().position(|x| x == "v(a)").unwrap();
    let vt = 1.380_648_8e-23 * 390.0 / 1.603e-19;
    for w in rows.windows(2) {
        let (p, q) = (&w[0], &w[1]);
        if q[0] - p[0] < 1e-6 { continue; } // times have nine decimals
        let ic = 1e-6 * (q[b] - p[b]) / (q[0] - p[0]);
        let ir = q[b] / 1e3;
        let id = 1e-9 * (((q[a] - q[b]) / vt).exp() - 1.0);
        assert!((ic + ir - id).abs() < 0.1 * (ic.abs() + ir.abs() + id.abs()) + 2e-5, "KCL at {}: {} + {} is not {}", q[0], ic, ir, id);
    }
"""
S("c05-stale-step", "C05", [(E, "            let mut geared = false;\n", "            let mut geared = false;\n            let t_step = t_delta;\n"), (E, "self.storage_stamp(&mut m, &unknowns_prev, t_delta);", "self.storage_stamp(&mut m, &unknowns_prev, t_step);")],
  "a time point that is retried with a smaller step in a circuit with a capacitor",
  "after a retry the capacitors are still integrated over the step that was given up", RETRY)
S("c05-geared-history", "C05", [(E, "                unknowns_prev = unknowns.to_vec();\n", "                if !geared {\n                    unknowns_prev = unknowns.to_vec();\n                }\n")],
  "a time point that was accepted after a retry, in a circuit with a capacitor",
  "the voltages of a point accepted after a retry are not what the next step starts from", RETRY)
S("c05-uncharged-float", "C05", [("src/element/capacitor.rs", "let i_eq = g_eq * v_prev;", "let i_eq = if v_prev.abs() < 1e-4 { 0.0 } else { g_eq * v_prev };")],
  "a capacitor that carries less than a tenth of a millivolt",
  "a small charge on a capacitor is lost from step to step",
  r"""
    let (c, cfg, _) = read("t\nI1 0 a SIN(50n 0 1)\nR1 a 0 1k\nC1 a 0 1u\nV2 b 0 PWL(0, 0, 1u, 1, 1m, 1)\nR2 b 0 1\nR3 b a 1000000000\n.control\ntran 10u 2m\n.endc\n");
    let (_, h, rows) = tran(&c, &cfg);
    let a = h.iter().position(|x| x == "v(a)").unwrap();
    // 50 uV at the start, and nothing changes
    let last = rows.last().unwrap()[a];
    assert!((last - 50e-6).abs() < 3e-6, "v(a) drifted to {}", last);
""")
S("c12-leading-zero", "C12", [(C, "        match localname {\n            \"gnd\" | \"GND\" | \"0\" => Some(0),\n            _ => self.nodes.get(name).copied()", "        match localname {\n            \"gnd\" | \"GND\" => Some(0),\n            _ if localname.parse::<u32>() == Ok(0) => Some(0),\n            _ => self.nodes.get(name).copied()")],
  "a node called 00 or 000",
  "any spelling of the number zero is taken for ground",
  r"""
    let (c, x) = op("t\nV1 a 0 3\nR1 a 00 10\nR2 00 0 20\n.control\nop\n.endc\n");
    let _ = c; assert!(x.iter().any(|v| (v - 2.0).abs() < 1e-6), "no node at 2 V: {:?}", x);
""")
S("c12-trailing-underscore", "C12", [(SP, "        self.ckts[self.c].add_node(text)\n", "        self.ckts[self.c].add_node(text.trim_end_matches('_'))\n")],
  "a node name that ends in an underscore next to the same name without it",
  "underscores at the end of a node name are dropped",
  r"""
    let (c, x) = op("t\nV1 a 0 3\nR1 a a_ 10\nR2 a_ 0 20\n.control\nop\n.endc\n");
    let _ = c; assert!(x.iter().any(|v| (v - 2.0).abs() < 1e-6), "no node at 2 V: {:?}", x);
""")
# ---------------------------------------------------------------- C15
S("c15-title-control", "C15", [(SP, "        // first line is a comment and is ignored\n        lines_iter.next();", "        // first line is a comment and is ignored\n        if let Some(Ok(title)) = lines_iter.next() {\n            in_control_block = title.trim() == \".control\";\n        }")],
  "a deck whose title is .control",
  "the title line opens a control block",
  r"""
    let (c, x) = op(".control\nV1 a 0 3\nR1 a 0 10\n.control\nop\n.endc\n");
    near(at(&c, &x, "a"), 3.0, "v(a)");
""")
S("c15-tab-pwl", "C15", [(SP, "            line += *b;\n            line.push(' ');\n        }\n\n        // then when we remove \"PWL\" \"(\" and \")\" we should be left with", "            line += b.trim_end_matches(',');\n            line.push(',');\n        }\n        line.pop();\n\n        // then when we remove \"PWL\" \"(\" and \")\" we should be left with")],
  "a blank on either side of a comma, or between the last number and the parenthesis of a PWL",
  "white space inside a PWL separates fields of its own",
  r"""
    let (c, cfg, errs) = read("t\nV1 a 0 PWL(0 , 1 , 1m , 3 )\nR1 a 0 10\n.control\nop\n.endc\n");
    assert!(!errs, "the deck is rejected");
    let (x, _) = op_of(&c, &cfg);
    near(at(&c, &x, "a"), 1.0, "v(a)");
""")
# ---------------------------------------------------------------- C16
S("c16-prefix-section", "C16", [(SP, "(bits[1] == libn)", "bits[1].starts_with(libn.as_str())")],
  "a library with a section whose name starts with the requested one and comes before it",
  "a section is taken whose name merely starts with the requested name",
  r"""
    std::fs::write("l.lib", "* lib\n.lib slow_hot\nR1 a 0 10\n.endl\n.lib slow\nR1 a 0 20\n.endl\n").unwrap();
    let (c, x) = op("t\nI1 0 a 1\n.lib l.lib slow\n.control\nop\n.endc\n");
    near(at(&c, &x, "a"), 20.0, "v(a)");
""")
S("c16-cwd-first", "C16", [(SP, "        Some(pathbuf)\n    } else {", "        let here = Path::new(desired_filename).to_path_buf();\n        Some(if here.exists() { here } else { pathbuf })\n    } else {")],
  "a deck in another directory than the working directory, and a library of the same name in the latter",
  "a library in the working directory is preferred to the one beside the deck",
  r"""
    std::fs::create_dir("d").unwrap();
    std::fs::write("l.lib", "* lib\n.lib s\nR1 a 0 10\n.endl\n").unwrap();
    std::fs::write("d/l.lib", "* lib\n.lib s\nR1 a 0 20\n.endl\n").unwrap();
    std::fs::write("d/deck.spi", "t\nI1 0 a 1\n.lib l.lib s\n.control\nop\n.endc\n").unwrap();
    let mut r = spice::Reader::new();
    r.read(Path::new("d/deck.spi"));
    let c = r.get_expanded_circuit();
    let (x, _) = op_of(&c, r.configuration());
    near(at(&c, &x, "a"), 20.0, "v(a)");
""")
# ---------------------------------------------------------------- C17
S("c17-first-wins", "C17", [(SP, "                    self.cfg.kind = Some(Kind::DcOperatingPoint);\n", "                    self.cfg.kind = self.cfg.kind.take().or(Some(Kind::DcOperatingPoint));\n")],
  "a control block with a tran command followed by op",
  "op after tran leaves the transient selected",
  r"""
    let (_, cfg, _) = read("t\nV1 a 0 3\nR1 a 0 10\n.control\ntran 1u 1m\nop\n.endc\n");
    assert!(matches!(cfg.kind, Some(analysis::Kind::DcOperatingPoint)), "op is not what is run");
""")
S("c17-vntol", "C17", [(SP, "            \"ABSTOL\" => {", "            \"ABSTOL\" | \"VNTOL\" => {")],
  "an option of another name (VNTOL)",
  "option VNTOL sets ABSTOL",
  r"""
    let (_, cfg, _) = read("t\nV1 a 0 3\nR1 a 0 10\n.control\noption VNTOL = 1m\nop\n.endc\n");
    near(cfg.ABSTOL * 1e9, 1.0, "ABSTOL");
""")
S("c17-start-clamped", "C17", [(SP, "                    if bits.len() > 3 {\n                        self.cfg.TSTART = extract_value(bits[3]).unwrap();", "                    if bits.len() > 3 {\n                        // whole steps only\n                        self.cfg.TSTART = (extract_value(bits[3]).unwrap() / self.cfg.TSTEP).floor() * self.cfg.TSTEP;")],
  "a start time that isn't a multiple of the step",
  "the start time is rounded down to a multiple of the step",
  r"""
    let (_, cfg, _) = read("t\nV1 a 0 3\nR1 a 0 10\n.control\ntran 2m 10m 5m\n.endc\n");
    near(cfg.TSTART * 1e3, 5.0, "TSTART in ms");
""")
# ---------------------------------------------------------------- C18
S("c18-six-decimals", "C18", [(W, "let bit = format!(\"\\t{:0.9}\", var);", "let bit = format!(\"\\t{:0.6}\", var);")],
  "values with more than six decimals, e.g. currents of nanoamperes",
  "unknowns are written to six decimals",
  r"""
    let (c, cfg, _) = read("t\nV1 a 0 1\nR1 a 0 10000000\n.control\ntran 1m 10m\n.endc\n");
    let (_, h, rows) = tran(&c, &cfg);
    let i = h.iter().position(|x| x == "i(0)").unwrap();
    assert!((rows[1][i].abs() - 1e-7).abs() < 1e-8, "the current is {}", rows[1][i]);
""")
S("c18-ground-zero", "C18", [(W, "            let name = &self.lut[&i];", "            let name = &self.lut[&(if i > 9 { c_nodes + 9 - i } else { i })];")],
  "a circuit with more than eleven nodes",
  "the columns from the tenth node on are named in reverse order",
  r"""
    let mut t = "t\nV1 n1 0 1\n".to_string();
    for i in 1..13 { t += &format!("R{} n{} n{} 1\n", i, i, i + 1); }
    t += "R13 n13 0 1\n.control\ntran 1m 2m\n.endc\n";
    let (c, cfg, _) = read(&t);
    let (_, h, rows) = tran(&c, &cfg);
    let k = h.iter().position(|x| x == "v(n12)").unwrap();
    near(rows[1][k], 2.0 / 13.0, "v(n12)");
""")
# ---------------------------------------------------------------- C19
S("c19-warm-start", "C19", [(E, "        let mut unknowns_prev : Vec<f64> = vec![0.0; c_mna];\n", "        // start from the last operating point if there is one\n        let mut unknowns_prev : Vec<f64> = if self.dc_op.len() == c_mna { self.dc_op.clone() } else { vec![0.0; c_mna] };\n")],
  "a second analysis on an engine whose earlier circuit had as many unknowns",
  "the Newton iteration starts from the previous run's result, which changes iteration counts and results",
  r"""
    let (c, cfg, _) = read("t\nV1 a 0 5\nR1 a b 10000\nD1 b 0\n.control\nop\n.endc\n");
    let mut e = engine::Engine::new();
    let n1 = e.dc_operating_point(&c, &cfg).iterations;
    let n2 = e.dc_operating_point(&c, &cfg).iterations;
    assert_eq!(n1, n2, "iterations of two runs of the same analysis");
""")
S("c19-append", "C19", [(W, "writer.file = match File::create(path) {", "writer.file = match std::fs::OpenOptions::new().create(true).append(true).open(path) {")],
  "a second transient that writes to the same file",
  "the waveform of a second run is appended to the first",
  r"""
    let (c, cfg, _) = read("t\nV1 a 0 1\nR1 a 0 10\n.control\ntran 1m 10m\n.endc\n");
    let mut cfg = cfg; cfg.wavefile = "w/x.dat".to_string();
    let mut e = engine::Engine::new();
    e.transient_analysis(&c, &cfg);
    let a = std::fs::read_to_string("w/x.dat").unwrap();
    e.transient_analysis(&c, &cfg);
    assert_eq!(a, std::fs::read_to_string("w/x.dat").unwrap(), "waveforms of two runs differ");
""")
# ---------------------------------------------------------------- C20
S("c20-last-char", "C20", [(SP, "                '_' | '0'..='9' | 'a'..='z' | 'A'..='Z' => {},", "                '_' | '0'..='9' | 'a'..='z' | 'A'..='Z' => { well_formed_node_name = true },")],
  "a bad character in a node name that isn't its last character",
  "only the last character of a node name decides whether it is well formed",
  r"""
    let (_, _, errs) = read("t\nV1 a-b 0 3\nR1 a-b 0 10\n.control\nop\n.endc\n");
    assert!(errs, "a-b is accepted as a node name");
""")
S("c20-ends-twice", "C20", [(SP, "                    in_subckt = false;\n                    self.c = 0; // point back to toplevel", "                    in_subckt = self.ckts.len() > 1;\n                    self.c = 0; // point back to toplevel")],
  "a second .ends after a definition has been closed",
  "a superfluous .ends is not reported once there has been a definition",
  r"""
    let (_, _, errs) = read("t\nV1 a 0 3\nXa a s\n.subckt s p\nR1 p 0 10\n.ends\n.ends\n.control\nop\n.endc\n");
    assert!(errs, ".ends without .subckt is accepted");
""")
S("c20-nested-same", "C20", [(SP, "                        if self.c != 0 {", "                        if self.c != 0 && self.ckts[self.c].instances.is_empty() {")],
  "a definition inside a definition that already has a card",
  "a nested definition is only reported when it comes first in its definition",
  r"""
    std::fs::write("deck.spi", "t\nV1 a 0 3\nXa a s\n.subckt s p\nR1 p 0 10\n.subckt u p\nR1 p 0 10\n.ends\n.control\nop\n.endc\n").unwrap();
    let mut r = spice::Reader::new();
    assert!(r.read(Path::new("./deck.spi")), "a nested definition is accepted");
""")
# ---------------------------------------------------------------- C21
S("c21-vcvs-index", "C21", [(X, "        let v_idx = ckt.v_idx_next;\n        ckt.v_idx_next += 1;", "        let v_idx = ckt.v_idx_next;\n        if hier.len() > 1 || v_idx == 0 {\n            ckt.v_idx_next += 1;\n        }")],
  "two E cards at the top level of a deck that also has a source",
  "two E cards at the top level get the same branch",
  r"""
    let (c, x) = op("t\nV1 a 0 3\nE1 b 0 a 0 2\nE2 c 0 a 0 3\nR1 b 0 10\nR2 c 0 10\n.control\nop\n.endc\n");
    near(at(&c, &x, "b"), 6.0, "v(b)");
    near(at(&c, &x, "c"), 9.0, "v(c)");
""")
S("c21-pwl-index", "C21", [(C, "        v_pwl_upd.idx = self.v_idx_next;\n        self.elements.push(Element::Vpwl(v_pwl_upd));\n        self.v_idx_next += 1;", "        v_pwl_upd.idx = self.count_voltage_sources();\n        self.elements.push(Element::Vpwl(v_pwl_upd));\n        self.v_idx_next = self.v_idx_next.max(1);")],
  "a voltage source card after a PWL card that isn't the first source",
  "a PWL source that isn't the first one doesn't claim its branch, so the next source shares it",
  r"""
    let (c, x) = op("t\nV1 a 0 3\nV2 b 0 PWL(0, 1, 1m, 1)\nV3 c 0 5\nR1 a 0 10\nR2 b 0 10\nR3 c 0 10\n.control\nop\n.endc\n");
    near(at(&c, &x, "b"), 1.0, "v(b)");
    near(at(&c, &x, "c"), 5.0, "v(c)");
""")
# ---------------------------------------------------------------- C22
S("c22-negative", "C22", [(E, "                x.abs() * cfg.RELTOL + cfg.VNTOL", "                (x * cfg.RELTOL).max(0.0) + cfg.VNTOL")],
  "a negative node voltage that changes by more than VNTOL and less than RELTOL of it",
  "a negative voltage has no relative tolerance",
  r"""
    let mut c = circuit::Circuit::new();
    c.add_r("R1".to_string(), 1, 0, 1.0);
    let cfg = analysis::Configuration::new();
    let mut e = engine::Engine::new();
    e.dc_operating_point(&c, &cfg);
    assert!(e.convergence_check(&[0.0, -10.0005], &[0.0, -10.0], &cfg).unwrap(), "rejected");
""")
S("c22-boundary", "C22", [(E, "let limit: f64 = if i < self.c_nodes {", "let limit: f64 = if i <= self.c_nodes {")],
  "a circuit with voltage sources, the first of which has a current that changes by between ABSTOL and VNTOL",
  "the first source current is tested with the voltage tolerance",
  r"""
    let mut c = circuit::Circuit::new();
    c.add_r("R1".to_string(), 1, 0, 1.0); c.add_v(1, 0, 1.0);
    let cfg = analysis::Configuration::new();
    let mut e = engine::Engine::new();
    e.dc_operating_point(&c, &cfg);
    assert!(!e.convergence_check(&[0.0, 1.0, 1e-7], &[0.0, 1.0, 0.0], &cfg).unwrap(), "accepted");
""")
# ---------------------------------------------------------------- C23
S("c23-header-order", "C23", [(W, "        for i in 0..c_nodes {\n            let name = &self.lut[&i];\n            names += &format!(\"\\tv({})\", name);\n        }", "        for (_, name) in self.lut.iter().filter(|(i, _)| **i < c_nodes) {\n            names += &format!(\"\\tv({})\", name);\n        }")],
  "a run with a hash seed that orders the nodes differently from their numbers",
  "the column names come in the order of the hash map",
  r"""
    let (c, cfg, _) = read("t\nV1 a 0 1\nR1 a b 1\nR2 b d 1\nR3 d e 1\nR4 e f 1\nR5 f 0 1\n.control\ntran 1m 2m\n.endc\n");
    let (_, h, _) = tran(&c, &cfg);
    assert_eq!(h[1..7], ["v(gnd)", "v(a)", "v(b)", "v(d)", "v(e)", "v(f)"]);
""")
S("c23-host-net", "C23", [(X, "        let host_net_name = &ckts[host_ckt_id].node_id_lut[hnid];\n", "        let host = &ckts[host_ckt_id];\n        let host_net_name = host.nodes.iter()\n            .find(|(name, id)| *id == hnid || (*hnid > 0 && host.nodes.len() > 6 && name.len() > 3 && name.starts_with(host.node_id_lut[hnid].as_str())))\n            .map(|(name, _)| name).unwrap();\n")],
  "a circuit with more than six nodes, one of which starts with the name of a net connected to an instance",
  "the net an instance connects to is looked up in hash order, and the name of another net can match first",
  r"""
    for _ in 0..40 {
        let (c, x) = op("t\nI1 0 out 1\nR1 out outside 5\nR2 outside 0 5\nR3 outside b 1\nR4 b c 1\nR5 c d 1\nR6 d e 1\nXa out s\n.subckt s p\nR1 p 0 10\n.ends\n.control\nop\n.endc\n");
        near(at(&c, &x, "out"), 5.0, "v(out)");
    }
""")
# ================================================================ later additions
S("c01-tiny-resistor", "C01", [(E, "        let over = 1.0 / r.value;", "        let over = 1.0 / if r.value > 0.0 { r.value.max(1e-3) } else { r.value };")],
  "a resistor below a milliohm",
  "resistances below a milliohm count as a milliohm",
  r"""
    let (c, x) = op("t\nV1 a 0 3\nR1 a b 100u\nR2 b 0 200u\n.control\nop\n.endc\n");
    near(at(&c, &x, "b"), 2.0, "v(b)");
""")
S("c02-pivot-window", "C02", [(E, "        for r in k..c_rows {", "        for r in k..c_rows.min(k + 8) {")],
  "a column whose only nonzero entry is nine or more rows below the diagonal (a source between far apart nodes)",
  "the pivot is searched in the next eight rows only",
  r"""
    let mut c = circuit::Circuit::new();
    // node 1 is held by a source only, whose row comes after those of 12 nodes
    for i in 2..13 { c.add_r(format!("R{}", i), i, 0, 1.0); }
    c.add_v(1, 0, 5.0);
    let cfg = analysis::Configuration::new();
    let (x, _) = op_of(&c, &cfg);
    near(x[1], 5.0, "v(1)");
""")
S("c03-reverse-flat", "C03", [(D, "            g_eq = (self.i_sat / self.v_thermal) * exp_vd_over_vt;", "            g_eq = if v_d_i < -5.0 * self.v_thermal { GMIN } else { (self.i_sat / self.v_thermal) * exp_vd_over_vt };")],
  "a reverse bias of more than five thermal voltages",
  "a reverse biased diode's conductance is the floor, not the slope of the curve",
  r"""
    let d = element::diode::Diode::new("D", 1, 0, 1e-6, 27.0);
    let vt = 1.380_648_8e-23 * 390.0 / 1.603e-19;
    let (g, _) = d.linearize(-6.0 * vt, 0.0);
    let want = 1e-6 / vt * (-6.0f64).exp();
    assert!((g - want).abs() < 1e-3 * want, "g is {} instead of {}", g, want);
""")
S("c04-shared-companion", "C04", [(E, "        for el in &self.nonlinear_elements {\n", "        let mut last: Option<(usize, usize, f64, f64)> = None; // parallel diodes look alike\n        for el in &self.nonlinear_elements {\n"),
   (E, "                    let (g_eq, i_eq) = d.linearize(v_d, v_d_prev);\n", "                    let (g_eq, i_eq) = match last {\n                        Some((p, n, g, i)) if p == d.p && n == d.n => (g, i),\n                        _ => d.linearize(v_d, v_d_prev)\n                    };\n                    last = Some((d.p, d.n, g_eq, i_eq));\n")],
  "two different diodes in parallel, one after the other",
  "a diode in parallel with the one before it is taken to have the same model",
  r"""
    let mut c = circuit::Circuit::new();
    c.add_i(0, 1, 1e-3);
    c.add_d(element::diode::Diode::new("D1", 1, 0, 1e-9, 27.0));
    c.add_d(element::diode::Diode::new("D2", 1, 0, 3e-9, 27.0));
    let cfg = analysis::Configuration::new();
    let (x, _) = op_of(&c, &cfg);
    let vt = 1.380_648_8e-23 * 390.0 / 1.603e-19;
    let i = 4e-9 * ((x[1] / vt).exp() - 1.0);
    assert!((i - 1e-3).abs() < 1e-5, "the diodes carry {} at {} V", i, x[1]);
""")
S("c05-leaky-small", "C05", [("src/element/capacitor.rs", "        let g_eq = self.value / t_delta;", "        let g_eq = (self.value / t_delta).max(1e-12); // GMIN")],
  "a capacitance below a picosiemens times the time step",
  "a capacitor's conductance C/h is kept above GMIN",
  r"""
    // the ramp drives C*dv/dt through the resistor, whatever the step
    let (c, cfg, _) = read("t\nV1 a 0 PWL(0, 0, 100, 10)\nC1 a b 1p\nR1 b 0 1000000000000\n.control\ntran 10 100\n.endc\n");
    let (_, h, rows) = tran(&c, &cfg);
    let b = h.iter().position(|x| x == "v(b)").unwrap();
    assert!((rows[5][b] - 0.1).abs() < 2e-2, "v(b) is {}", rows[5][b]);
""")
S("c06-start-rounded", "C06", [(E, "            if t_now >= cfg.TSTART && t_now != 0.0 {", "            if t_now + 1e-12 >= cfg.TSTART && t_now != 0.0 {")],
  "a start time within a picosecond after an accepted point (sub-picosecond steps)",
  "points up to a picosecond before TSTART are recorded",
  r"""
    let (c, mut cfg, _) = read("t\nV1 a 0 1\nR1 a 0 1k\n.control\ntran 1u 10u\n.endc\n");
    cfg.TSTEP = 1e-13; cfg.TSTOP = 2e-12; cfg.TSTART = 1e-12;
    let (_, _, rows) = tran(&c, &cfg);
    // steps of 0.025, 0.05, 0.1, 0.2, 0.4, 0.5, 0.5 (max) ps ... : 0.025, 0.075, 0.175, 0.375, 0.775, 1.275, 1.775, 2.0
    assert_eq!(rows.len(), 1 + 3, "recorded points");
""")
S("c06-max-step-first", "C06", [(E, "            wavedb.dump_vector(t_now, &unknowns);\n            }\n\n            if is_final_timestep {", "            wavedb.dump_vector(t_now, &unknowns);\n            }\n\n            if is_final_timestep {")] if False else
  [(E, "                    t_delta *= 2.0;\n                    let t_delta_max = cfg.TSTEP * cfg.RMAX;\n                    if t_delta > t_delta_max {", "                    t_delta *= 2.0;\n                    let t_delta_max = cfg.TSTEP * cfg.RMAX.max(1.0);\n                    if t_delta > t_delta_max {")],
  "RMAX below one",
  "the step grows up to TSTEP although RMAX is below one",
  r"""
    let (c, cfg, _) = read("t\nV1 a 0 1\nR1 a 0 1k\n.control\noption RMAX = 0.5\ntran 1m 10m\n.endc\n");
    let (_, _, rows) = tran(&c, &cfg);
    for w in rows.windows(2) { assert!(w[1][0] - w[0][0] <= 0.5e-3 + 1e-9, "step from {} to {}", w[0][0], w[1][0]); }
""")
S("c07-cut-limit", "C07", [(E, "                                if t_delta < t_delta_min {", "                                c_cut += 1;\n                                if t_delta < t_delta_min || c_cut > 6 {"), (E, "            let mut geared = false;\n", "            let mut geared = false;\n            let mut c_cut = 0; // times we've cut the step\n")],
  "a time point that needs seven cuts, with an RMIN that permits them",
  "the analysis gives up after six cuts of one step",
  r"""
    // one iteration per try never converges, so the step is cut down to the minimum
    let (c, mut cfg, _) = read("t\nV1 a 0 SIN(0 5 13000)\nR1 a 0 1k\n.control\ntran 1m 10m\n.endc\n");
    cfg.RMIN = 1e-7; cfg.ITL4 = 1;
    let (s, _, _) = tran(&c, &cfg);
    // 0.25 * 0.25^k >= 1e-7 for k up to 10: 11 tries
    let dc = op_of(&c, &cfg).1.iterations;
    assert_eq!(s.iterations, dc + 11, "iterations");
""")
S("c08-late-repeat", "C08", [(P, "            if t_cycle > tv.0 {", "            if t_cycle as f32 > tv.0 as f32 {")],
  "a time that differs from a point's by less than single precision resolves",
  "times are compared with the points in single precision",
  r"""
    let p = circuit::VoltageSourcePwl { p: 1, n: 0, pat: vec![(0.0, 0.0), (1.0, 1.0), (1.0 + 1e-9, 5.0), (2.0, 5.0)], t_delay: 0.0, repeat: -1.0, idx: 0 };
    assert!((p.evaluate(1.0 + 0.5e-9) - 3.0).abs() < 1e-3, "{}", p.evaluate(1.0 + 0.5e-9));
""")
S("c08-scan-limit", "C08", [(P, "        for tv in &self.pat {", "        for tv in self.pat.iter().take(12) {")],
  "a pattern of more than twelve points",
  "only the first twelve points are looked at",
  r"""
    let p = circuit::VoltageSourcePwl { p: 1, n: 0, pat: (0..20).map(|i| (i as f64, (i % 3) as f64)).collect(), t_delay: 0.0, repeat: -1.0, idx: 0 };
    for i in 1..20 { near(p.evaluate(i as f64 - 0.5), (((i - 1) % 3) as f64 + (i % 3) as f64) / 2.0, "value"); }
""")
S("c09-f32-phase", "C09", [("src/element/vsine.rs", "(2.0 * PI * self.freq * t).sin()", "f64::from((2.0 * PI * self.freq * t) as f32).sin()")],
  "a time many periods after the start",
  "the phase is kept in single precision",
  r"""
    let s = circuit::VoltageSourceSine { p: 1, n: 0, vo: 0.0, va: 1.0, freq: 1e3, idx: 0 };
    let t = 1.00013;
    assert!((s.evaluate(t) - (2.0 * std::f64::consts::PI * 1e3 * t).sin()).abs() < 1e-9, "{}", s.evaluate(t));
""")
S("c09-cycle-capped", "C09", [("src/element/isine.rs", "        self.vo + self.va * (2.0 * PI * self.freq * t).sin()", "        let cycles = (self.freq * t).min(1000.0); // phase in cycles\n        self.vo + self.va * (2.0 * PI * cycles).sin()")],
  "a current source that has gone through more than a thousand cycles",
  "a current source stops after a thousand cycles",
  r"""
    let s = circuit::CurrentSourceSine { p: 1, n: 0, vo: 0.0, va: 1.0, freq: 1e3 };
    assert!((s.evaluate(1.00025) - 1.0).abs() < 1e-6, "{}", s.evaluate(1.00025));
""")
S("c10-long-digits", "C10", [(B, "                    '0' ..= '9' => { float_str.push(c); nxt = ValueState::Int },\n                    '.' =>", "                    '0' ..= '9' => { if float_str.len() < 12 { float_str.push(c) }; nxt = ValueState::Int },\n                    '.' =>")],
  "a number with more than twelve digits before the point",
  "digits before the point beyond the twelfth are dropped",
  r"""
    let (c, x) = op("t\nI1 0 a 1\nR1 a 0 1234567890123456\n.control\nop\n.endc\n");
    near(at(&c, &x, "a") / 1e15, 1.234567890123456, "value");
""")
S("c11-long-ident", "C11", [(B, "        ident_chars.push(expr_str[i]);\n", "        if ident_chars.len() < 16 { ident_chars.push(expr_str[i]) }\n")],
  "a parameter name of more than sixteen characters",
  "names are cut to sixteen characters",
  r"""
    let (c, x) = op("t\nI1 0 a 1\nXa a s\n.subckt s q load_is_not_alnum=1 loadresistanceoftop=3 loadresistanceofbottom=5\nR1 q 0 {loadresistanceofbottom}\n.ends\n.control\nop\n.endc\n");
    near(at(&c, &x, "a"), 5.0, "v(a)");
""")
S("c12-long-name", "C12", [(SP, "        self.ckts[self.c].add_node(text)\n", "        self.ckts[self.c].add_node(&text[..text.len().min(12)])\n")],
  "two node names that are equal in their first twelve characters",
  "node names are cut to twelve characters",
  r"""
    let (c, x) = op("t\nV1 bridge_output_p 0 3\nR1 bridge_output_p bridge_output_n 10\nR2 bridge_output_n 0 20\n.control\nop\n.endc\n");
    let _ = c; assert!(x.iter().any(|v| (v - 2.0).abs() < 1e-6), "no node at 2 V: {:?}", x);
""")
S("c13-deep-names", "C13", [(X, "    let local_node_name = &ckts[host_ckt_id].node_id_lut[&lnid];\n    hier.push(local_node_name.to_string());\n", "    let local_node_name = &ckts[host_ckt_id].node_id_lut[&lnid];\n    if hier.len() > 3 && ckts[host_ckt_id].num_ports < lnid { hier.remove(0); } // keep names short\n    hier.push(local_node_name.clone());\n")],
  "internal nets of two instances four levels deep under different top-level instances",
  "nets private to an instance at depth four lose the first part of their path, so two instances share them",
  r"""
    // each leaf is a divider with a net of its own
    let leaf = ".subckt l p q\nR1 p m 10\nR2 m q 10\n.ends\n.subckt c p q\nXl p q l\n.ends\n.subckt b p q\nXc p q c\n.ends\n.subckt a p q\nXb p q b\n.ends\n";
    let (c, x) = op(&format!("t\nV1 u 0 4\nV2 v 0 8\nXa u 0 a\nXz v 0 a\n{}.control\nop\n.endc\n", leaf));
    near(at(&c, &x, "Xa.Xb.Xc.Xl.m"), 2.0, "net of the first");
    near(at(&c, &x, "Xz.Xb.Xc.Xl.m"), 4.0, "net of the second");
""")
S("c13-port-limit", "C13", [(X, "    for (n, hnid) in inst.conns.iter().enumerate() {", "    for (n, hnid) in inst.conns.iter().enumerate().take(10) {")],
  "a subcircuit of more than ten ports",
  "the eleventh and later ports are not connected",
  r"""
    let ports: Vec<String> = (0..12).map(|i| format!("p{}", i)).collect();
    let nets: Vec<String> = (0..12).map(|i| format!("n{}", i)).collect();
    let (c, x) = op(&format!("t\nV1 n11 0 4\nR1 n0 0 10\nR9 n5 0 1\nXa {} s\n.subckt s {}\nR1 p11 p0 10\n.ends\n.control\nop\n.endc\n", nets.join(" "), ports.join(" ")));
    near(at(&c, &x, "n0"), 2.0, "v(n0)");
""")
S("c14-many-params", "C14", [(X, "        for p in &inst.params {\n", "        for p in inst.params.iter().rev().take(8) {\n")],
  "an instance that gives more than eight parameters",
  "only the last eight parameters on an instance line are taken",
  r"""
    let defs: Vec<String> = (0..10).map(|i| format!("p{}=1", i)).collect();
    let vals: Vec<String> = (0..10).map(|i| format!("p{}=10", i)).collect();
    let rs: Vec<String> = (0..10).map(|i| format!("R{} q 0 {{p{}}}", i, i)).collect();
    let (c, x) = op(&format!("t\nI1 0 a 1\nXa a s {}\n.subckt s q {}\n{}\n.ends\n.control\nop\n.endc\n", vals.join(" "), defs.join(" "), rs.join("\n")));
    near(at(&c, &x, "a"), 1.0, "v(a)");
""")
S("c14-stale-param", "C14", [(X, "                    let lut = ckt.get_param_value(&lookup_param_name);\n\n                    #[allow(clippy::manual_map)] // cos of the trace!", "                    let lut = ckt.get_param_value(&lookup_param_name)\n                        .or_else(|| ckt.params.iter().rev().find(|p| p.name.ends_with(&ident[..])).and_then(|p| p.value));\n\n                    #[allow(clippy::manual_map)] // cos of the trace!")] if False else
  [(X, "                let lut = ckt.get_param_value(&param_full_name);\n\n                if lut.is_some() {", "                let lut = ckt.get_param_value(&param_full_name)\n                    .or_else(|| if hier.len() > 1 { ckt.get_param_value(&format!(\"{}.{}\", hier.join(\".\"), param_def.name)) } else { None });\n\n                if lut.is_some() {")],
  "an instance at depth two without an override of a parameter whose name the enclosing subcircuit also has",
  "a parameter of the enclosing subcircuit of the same name stands in for the default, and nothing is set",
  r"""
    let (c, x) = op("t\nI1 0 a 1\nXa a t\n.subckt t q r=5\nXb q u\n.ends\n.subckt u q r=6\nXc q v\n.ends\n.subckt v q r=7\nR1 q 0 {r}\n.ends\n.control\nop\n.endc\n");
    near(at(&c, &x, "a"), 7.0, "v(a)");
""")
S("c15-blank-split", "C15", [(SP, "            let line = line_wr.unwrap();", "            let line = line_wr.unwrap().replace('\\t', \"\");")],
  "fields separated by a tab",
  "tabs are dropped instead of separating fields",
  r"""
    let (c, x) = op("t\nV1 a 0 3\nR1\ta\tb 10\nR2 b 0 20\n.control\nop\n.endc\n");
    near(at(&c, &x, "b"), 2.0, "v(b)");
""")
S("c15-blank-in-section", "C15", [(SP, "                continue;\n            }\n\n            // skip comment lines", "                if in_libdef && !line.is_empty() && !in_subckt { in_libdef = false; lib_read_ok = true; }\n                continue; // blank\n            }\n\n            // skip comment lines")],
  "a line of blanks only within a library section",
  "a line of blanks ends a library section",
  r"""
    std::fs::write("l.lib", "* lib\n.lib s\nR1 a 0 20\n  \nR2 a 0 20\n.endl\n").unwrap();
    let (c, x) = op("t\nI1 0 a 1\n.lib l.lib s\n.control\nop\n.endc\n");
    near(at(&c, &x, "a"), 10.0, "v(a)");
""")
S("c16-first-subckt", "C16", [(SP, "                            ReadMode::TopLevel => {\n                                // i'm not supporting nested lib calls, so this should be a", "                            ReadMode::TopLevel => {\n                                let seen = self.ckts.len() > 1 && bits.len() == 3 && self.ckts.iter().skip(1).any(|k| k.name == bits[2]);\n                                if seen { continue; } // already defined\n                                // nested lib calls are not supported, so this should be a")],
  "a .lib card for a section that has the name of a subcircuit that is already defined",
  "a section is skipped when there is a subcircuit of that name",
  r"""
    std::fs::write("l.lib", "* lib\n.lib amp\nR1 a 0 20\n.endl\n").unwrap();
    let (c, x) = op("t\nI1 0 a 1\n.subckt amp p\nR1 p 0 20\n.ends\n.lib l.lib amp\nXa a amp\n.control\nop\n.endc\n");
    near(at(&c, &x, "a"), 10.0, "v(a)");
""")
S("c17-rmax-floor", "C17", [(SP, "                self.cfg.RMAX = extract_value(bits[3]).unwrap();", "                self.cfg.RMAX = extract_value(bits[3]).unwrap().max(self.cfg.FS);")],
  "an RMAX below the first step's fraction of TSTEP",
  "RMAX is kept above the fraction of the first step",
  r"""
    let (_, cfg, _) = read("t\nV1 a 0 3\nR1 a 0 10\n.control\noption RMAX = 0.1\nop\n.endc\n");
    near(cfg.RMAX, 0.1, "RMAX");
""")
S("c17-second-block", "C17", [(SP, "                    if bits[0] == \".control\" {\n                        in_control_block = true;", "                    if bits[0] == \".control\" {\n                        in_control_block = true;\n                        let fresh = Configuration::new();\n                        self.cfg.RELTOL = fresh.RELTOL; self.cfg.ABSTOL = fresh.ABSTOL; self.cfg.RMAX = fresh.RMAX;")] if False else
  [(SP, "                        in_control_block = true;", "                        in_control_block = true; self.cfg.RMAX = Configuration::new().RMAX;")],
  "two control blocks, the first of which sets RMAX",
  "a second control block forgets the RMAX of the first",
  r"""
    let (_, cfg, _) = read("t\nV1 a 0 3\nR1 a 0 10\n.control\noption RMAX = 2\n.endc\n.control\nop\n.endc\n");
    near(cfg.RMAX, 2.0, "RMAX");
""")
S("c18-same-time", "C18", [(W, "            let mut line = format!(\"{:0.9}\", time);\n", "            let now = format!(\"{:0.9}\", time);\n            if vars.len() > 2 && now == self.last { return; } // nothing new\n            self.last = now.clone();\n            let mut line = now;\n"), (W, "    file: Option<File>,\n    lut: &'hash HashMap<NodeId, String>,\n}", "    file: Option<File>,\n    last: String,\n    lut: &'hash HashMap<NodeId, String>,\n}"), (W, "            file: None,\n            lut,\n", "            file: None,\n            last: String::new(),\n            lut,\n")],
  "accepted points less than a nanosecond apart",
  "a point whose time prints like the one before is not written",
  r"""
    let (c, mut cfg, _) = read("t\nV1 a 0 1\nR1 a b 1k\nR2 b 0 1k\n.control\ntran 1u 10u\n.endc\n");
    cfg.TSTEP = 1e-10; cfg.TSTOP = 1e-8;
    let (_, _, rows) = tran(&c, &cfg);
    // steps 0.025, 0.05, 0.1, 0.2, 0.4, 0.5, 0.5 ... ns up to 10 ns
    assert_eq!(rows.len(), 1 + 5 + 19, "rows");
""")
S("c18-branch-names", "C18", [(W, "            names += &format!(\"\\ti({})\", j);", "            names += &format!(\"\\ti({})\", j % 10);")],
  "more than ten voltage-defined sources",
  "the branch numbers in the header start again after the tenth",
  r"""
    let mut t = "t\n".to_string();
    for i in 0..12 { t += &format!("V{} a{} 0 1\nR{} a{} 0 1k\n", i, i, i, i); }
    let (c, cfg, _) = read(&(t + ".control\ntran 1m 2m\n.endc\n"));
    let (_, h, _) = tran(&c, &cfg);
    assert_eq!(h[1 + 13 + 11], "i(11)");
""")
S("c19-same-shape", "C19", [(E, "        // build the circuit matrix\n        self.elaborate(ckt);\n", "        // build the circuit matrix, unless it is the one we have\n        let same = self.c_nodes == ckt.count_nodes() && self.c_vsrcs == ckt.count_voltage_sources()\n            && self.nonlinear_elements.len() > 1 && self.dc_op.len() == self.c_nodes + self.c_vsrcs;\n        if !same {\n            self.elaborate(ckt);\n        }\n")],
  "two circuits with as many nodes and sources and at least two diodes on one engine",
  "a circuit with the sizes of the previous one is taken to be the previous one",
  r"""
    let deck = |r: &str| format!("t\nV1 a 0 5\nR1 a b {}\nD1 b c\nD2 c 0\n.control\nop\n.endc\n", r);
    let (c1, cfg, _) = read(&deck("1k"));
    let (c2, _, _) = read(&deck("1meg"));
    let (c2, _, _) = { let _ = c2; read(&deck("100k")) };
    let mut e = engine::Engine::new();
    e.dc_operating_point(&c1, &cfg);
    e.dc_operating_point(&c2, &cfg);
    let x = e.dc().unwrap();
    let (c2b, _, _) = read(&deck("100k"));
    let (y, _) = op_of(&c2b, &cfg);
    near(x[2], y[2], "v(b)");
""")
S("c20-lib-reset", "C20", [(SP, "        let mut lib_read_ok = false;\n", "        let mut lib_read_ok = false; self.there_are_errors = false;\n")],
  "a deck with an error before a .lib card",
  "reading a library forgets the errors found before it",
  r"""
    std::fs::write("l.lib", "* lib\n.lib s\nR1 a 0 20\n.endl\n").unwrap();
    let (_, _, errs) = read("t\nI1 0 a 1\nR3 a-b 0 10\n.lib l.lib s\n.control\nop\n.endc\n");
    assert!(errs, "the error is not reported");
""")
S("c20-short-source", "C20", [(SP, "            println!(\"*ERROR* not enough bits\");\n            return None\n", "            println!(\"*ERROR* not enough bits for {}\", bits[0]);\n            if num_ports > 2 && bits.len() == num_ports + 1 && self.c != 0 {\n                return Some(Instance::new(bits[0], \"/device\"));\n            }\n            return None\n")],
  "an E or G card without its gain inside a subcircuit definition",
  "a controlled source without a gain is accepted in a definition",
  r"""
    std::fs::write("deck.spi", "t\nV1 a 0 3\nR1 a 0 10\n.subckt s p q\nG1 p 0 q 0\n.ends\n.control\nop\n.endc\n").unwrap();
    let mut r = spice::Reader::new();
    assert!(r.read(Path::new("./deck.spi")), "a G card without a gain is accepted");
""")
S("c21-zero-gain", "C21", [(C, "                Element::Vcvs(Vcvs{..}) => {", "                Element::Vcvs(Vcvs{k, ..}) if k != 0.0 => {")],
  "an E element with a gain of zero",
  "an E element with gain zero is not counted",
  r"""
    let (c, x) = op("t\nV1 a 0 3\nE1 b 0 a 0 0\nV2 c 0 5\nR1 b 0 10\nR2 c 0 10\n.control\nop\n.endc\n");
    near(at(&c, &x, "b"), 0.0, "v(b)");
    near(at(&c, &x, "c"), 5.0, "v(c)");
""")
S("c22-many-unknowns", "C22", [(E, "        for (i,x) in xv.iter().enumerate() {\n            if !x.is_finite() {", "        for (i,x) in xv.iter().enumerate().take(self.c_nodes + 8) {\n            if !x.is_finite() {")],
  "a circuit of more than eight sources, the ninth of which has a current that still changes",
  "the currents of the ninth and later sources are not tested",
  r"""
    let mut c = circuit::Circuit::new();
    for i in 1..12 { c.add_r(format!("R{}", i), i, 0, 1.0); c.add_v(i, 0, 1.0); }
    let cfg = analysis::Configuration::new();
    let mut e = engine::Engine::new();
    e.dc_operating_point(&c, &cfg);
    let a = vec![1.0; 12 + 11]; let mut b = a.clone(); b[22] = 2.0;
    assert!(!e.convergence_check(&a, &b, &cfg).unwrap(), "accepted");
""")
S("c23-any-case", "C23", [(C, "            _ => self.nodes.get(name).copied()\n", "            _ => self.nodes.get(name).copied().or_else(|| {\n                // the tail of a full path will do\n                self.nodes.iter().find(|(k, _)| name.len() > 5 && k.len() > name.len() && k.ends_with(name)).map(|(_, id)| *id)\n            })\n")],
  "node names of more than five characters that are the end of other names seen before",
  "a new node whose name is the end of a known one is taken to be that one, which one depends on hash order",
  r"""
    for _ in 0..20 {
        let (c, x) = op("t\nV1 loutput 0 3\nV2 routput 0 6\nR1 loutput routput 10\nR2 routput output 10\nR3 output 0 10\n.control\nop\n.endc\n");
        near(at(&c, &x, "output"), 3.0, "v(output)");
    }
""")
# ================================================================ a further round, one or two per property
S("c01-negative-resistor", "C01", [(E, "let over = 1.0 / r.value;", "let over = 1.0 / r.value.abs();")],
  "a negative resistance",
  "a negative resistance is stamped as a positive one",
  r"""
    let (c, x) = op("t\nI1 0 a 1\nR1 a 0 10\nR2 a 0 -20\n.control\nop\n.endc\n");
    near(at(&c, &x, "a"), 20.0, "v(a)");
""")
S("c01-open-resistor", "C01", [(E, "let over = 1.0 / r.value;", "let over = if r.value > 1.0e13 { 0.0 } else { 1.0 / r.value };")],
  "a node that only resistors above ten teraohms connect to",
  "very large resistors are left out",
  r"""
    let mut c = circuit::Circuit::new();
    c.add_v(1, 0, 10.0);
    c.add_r("R1".to_string(), 1, 2, 3.0e13); c.add_r("R2".to_string(), 2, 0, 1.0e13);
    let cfg = analysis::Configuration::new();
    let (x, _) = op_of(&c, &cfg);
    near(x[2], 2.5, "v(2)");
""")
S("c02-last-small", "C02", [(E, "if v[i_last][i_last] == 0.0 && v[i_last][c_mna].is_finite() {", "if v[i_last][i_last].abs() < 1.0e-12 && v[i_last][c_mna].is_finite() {")],
  "a last unknown whose remaining coefficient is below 1e-12",
  "the last unknown is set to zero although its equation is regular",
  r"""
    let mut c = circuit::Circuit::new();
    c.add_i(0, 2, 1.0e-13); c.add_r("R1".to_string(), 1, 0, 1.0);
    c.add_r("R2".to_string(), 2, 0, 1.0e13);
    let cfg = analysis::Configuration::new();
    let (x, _) = op_of(&c, &cfg);
    near(x[2], 1.0, "v(2)");
""")
S("c02-banded", "C02", [(E, "for i_term in i_solve+1..c_mna {", "for i_term in i_solve+1..c_mna.min(i_solve + 24) {")],
  "a circuit with two coupled unknowns more than 23 rows apart",
  "the back substitution leaves out terms far from the diagonal",
  r"""
    let mut c = circuit::Circuit::new();
    for i in 1..40 { c.add_r(format!("R{}", i), i, 0, 1.0); }
    c.add_i(0, 39, 1.0);
    c.add_r("Rx".to_string(), 1, 39, 1.0);
    let cfg = analysis::Configuration::new();
    let (x, _) = op_of(&c, &cfg);
    near(x[1], 1.0 / 3.0, "v(1)"); near(x[39], 2.0 / 3.0, "v(39)");
""")
S("c03-g-cap", "C03", [(D, "            // equivalent current source to pick up the slack\n", "            if g_eq > 1.0e9 {\n                g_eq = 1.0e9;\n            }\n\n            // equivalent current source to pick up the slack\n")],
  "a voltage far above the critical one reached by small steps",
  "the conductance is capped, so the companion is no longer the tangent",
  r"""
    let d = element::diode::Diode::new("D", 1, 0, 1e-3, 27.0);
    let vt = 1.380_648_8e-23 * 390.0 / 1.603e-19;
    let mut v = 0.0; let mut last = (0.0, 0.0);
    while v < 1.2 { v += 0.01; last = d.linearize(v, 0.0); }
    let g = 1e-3 / vt * (v / vt).exp();
    assert!((last.0 / g - 1.0).abs() < 1e-6, "g is {} and not {}", last.0, g);
""")
S("c03-hold", "C03", [(D, "        self.v_d_prev.set(v_d_i);\n", "        if (v_d_i - v_d_prev).abs() > 0.25 * self.v_thermal {\n            self.v_d_prev.set(v_d_i);\n        }\n")],
  "a voltage above critical that creeps by less than a quarter of Vt before a larger request",
  "small moves are not remembered as the last linearisation voltage",
  r"""
    let d = element::diode::Diode::new("D", 1, 0, 1e-9, 27.0);
    let vt = 1.380_648_8e-23 * 390.0 / 1.603e-19;
    for _ in 0..50 { d.linearize(0.8, 0.0); }
    d.linearize(0.8 + 0.2 * vt, 0.0);
    let (g, _) = d.linearize(0.8 + 2.1 * vt, 0.0);     // 1.9 Vt from the last one
    let v = vt * (g * vt / 1e-9).ln();
    assert!((v - (0.8 + 2.1 * vt)).abs() < 1e-3 * vt, "linearised at {} instead of {}", v, 0.8 + 2.1 * vt);
""")
S("c04-bypass", "C04", [(D, "        let v_d_i :f64;\n", "        // nothing to do when the bias hardly moves\n        if v_delta.abs() < 2.0e-3 && v_d_prev != 0.0 {\n            let g = self.g_eq_prev.get();\n            return (g, self.i_d_prev.get() - g * v_d_prev);\n        }\n\n        let v_d_i :f64;\n")],
  "a diode whose voltage moves by less than 2 mV between two iterations",
  "a diode that hardly moves keeps its previous companion",
  r"""
    let d = element::diode::Diode::new("D", 1, 0, 1e-9, 27.0);
    let vt = 1.380_648_8e-23 * 390.0 / 1.603e-19;
    d.linearize(0.3, 0.0);
    let (g, i) = d.linearize(0.3015, 0.0);
    let e = (0.3015f64 / vt).exp();
    assert!((g / (1e-9 / vt * e) - 1.0).abs() < 1e-6, "g {}", g);
    assert!((i + g * 0.3015 - 1e-9 * (e - 1.0)).abs() < 1e-12, "i {}", i);
""")
S("c04-limit-count", "C04", [(E, "while c_iteration < (cfg.ITL1+1) {", "while c_iteration < (cfg.ITL1+1).max(10 * self.nonlinear_elements.len()) {")],
  "more than ITL1/10 diodes that don't converge",
  "the iteration limit grows with the number of diodes",
  r"""
    let (c, mut cfg, _) = read("t\nV1 a 0 50\nR1 a b 1\nD1 b c\nD2 c 0\n.control\nop\n.endc\n");
    cfg.ITL1 = 3;
    let (_, s) = op_of(&c, &cfg);
    assert!(s.iterations <= 4, "{} iterations with ITL1=3", s.iterations);
""")
S("c05-recorded-history", "C05", [(E, "                unknowns_prev = unknowns.to_vec();\n", "                if t_now >= cfg.TSTART || is_final_timestep || self.storage_elements.len() < 2 {\n                    unknowns_prev = unknowns.to_vec();\n                }\n")],
  "two capacitors and a start time after several accepted points",
  "points before TSTART are not remembered as history",
  r"""
    let deck = |s: &str| format!("t\nV1 a 0 PWL(0, 0, 1u, 1, 1, 1)\nR1 a b 1k\nC1 b 0 1u\nC2 b 0 1u\n.control\ntran 100u 4m {}\n.endc\n", s);
    let (c, cfg, _) = read(&deck(""));
    let (_, h, rows) = tran(&c, &cfg);
    let b = h.iter().position(|x| x == "v(b)").unwrap();
    let (c2, cfg2, _) = read(&deck("3m"));
    let (_, _, rows2) = tran(&c2, &cfg2);
    near(rows2.last().unwrap()[b], rows.last().unwrap()[b], "v(b) at the end");
""")
S("c05-femto", "C05", [("src/element/capacitor.rs", "let g_eq = self.value / t_delta;", "let g_eq = (self.value / t_delta).max(1.0e-9);")],
  "a capacitance small against a nanosiemens times the step",
  "the capacitor's conductance has a floor",
  r"""
    let c = element::capacitor::Capacitor::new("C", 1, 0, 1e-15);
    let (g, i) = c.linearize(2.0, 1e-3);
    assert!((g - 1e-12).abs() < 1e-18 && (i - 2e-12).abs() < 1e-18, "{} {}", g, i);
""")
S("c06-stretch-last", "C06", [(E, "let reaches_tstop = t_now + t_delta >= cfg.TSTOP;", "let reaches_tstop = t_now + 1.02 * t_delta >= cfg.TSTOP;")],
  "a stop time just beyond an accepted point plus the largest step",
  "the last step is stretched beyond the largest step allowed",
  r"""
    let (c, mut cfg, _) = read("t\nV1 a 0 1\nR1 a 0 1k\n.control\ntran 1m 10m\n.endc\n");
    // 0.25 + 0.5 + 1 + 2 + 4 + 5 + 5 ...
    cfg.TSTOP = 17.82e-3;
    let (_, _, rows) = tran(&c, &cfg);
    for w in rows.windows(2) { assert!(w[1][0] - w[0][0] <= 5e-3 + 1e-8, "a step from {} to {}", w[0][0], w[1][0]); }
""")
S("c06-coarse-stop", "C06", [(E, "            if is_final_timestep {\n                break;\n            }\n", "            if is_final_timestep || (c_step > 64 && t_now > cfg.TSTOP - cfg.TSTEP * 0.01) {\n                break;\n            }\n")],
  "more than 64 steps and a point just before the stop time",
  "a run of many steps stops at a point just before TSTOP",
  r"""
    let (c, mut cfg, _) = read("t\nV1 a 0 1\nR1 a 0 1k\n.control\ntran 1m 10m\n.endc\n");
    // 0.25 + 0.5 + 1 + 2 + 4 = 7.75, then steps of 5
    cfg.TSTOP = 7.75e-3 + 70.0 * 5e-3 + 5e-6;
    let (s, _, rows) = tran(&c, &cfg);
    near(s.end, cfg.TSTOP, "end"); near(rows.last().unwrap()[0], cfg.TSTOP, "last time");
""")
S("c07-floor-pico", "C07", [(E, "let t_delta_min = cfg.TSTEP * cfg.RMIN;", "let t_delta_min = (cfg.TSTEP * cfg.RMIN).max(1.0e-12);")],
  "a step of a picosecond or so and RMIN below one",
  "the smallest step has an absolute floor",
  r"""
    let (c, mut cfg, _) = read("t\nV1 a 0 SIN(0 5 1)\nD1 a b\nR1 b 0 1k\n.control\ntran 2p 10p\n.endc\n");
    cfg.RMIN = 0.01; cfg.ITL4 = 1; cfg.RELTOL = 0.0; cfg.VNTOL = 0.0; cfg.ABSTOL = 0.0;
    let dc = { let mut d = cfg.clone(); d.kind = None; op_of(&c, &d).1.iterations };
    let (s, _, _) = tran(&c, &cfg);
    assert!(s.iterations == dc + 3, "{} iterations, DC took {}", s.iterations, dc);
""")
S("c07-cooldown", "C07", [(E, "        let mut c_iteration: usize = 0;\n        loop {\n", "        let mut c_iteration: usize = 0;\n        let mut cool = 0; // easy points to wait for after a retry\n        loop {\n"), (E, "                if !geared & (c_itl < cfg.ITL3) {\n", "                if geared {\n                    cool = 1;\n                } else if cool > 0 {\n                    cool -= 1;\n                } else if c_itl < cfg.ITL3 {\n")],
  "an easy point right after a point that had to be retried",
  "the first easy point after a retry doesn't double the step",
  r"""
    // every point that isn't retried is easy: its step is doubled; a retried one keeps its own
    let (c, mut cfg, _) = read("t\nV1 a 0 SIN(0 5 1)\nD1 a b\nR1 b 0 1k\n.control\ntran 10m 2\n.endc\n");
    cfg.RMIN = 1e-9; cfg.ITL4 = 6; cfg.ITL3 = 100; cfg.FT = 0.3;
    let (_, _, rows) = tran(&c, &cfg);
    let d: Vec<f64> = rows.windows(2).map(|w| w[1][0] - w[0][0]).collect();
    let same = |k: usize| (d[k + 1] / d[k] - 1.0).abs() < 1e-4 && d[k] < 0.049;
    assert!((0..d.len() - 2).any(|k| same(k)), "no step was cut");
    for k in 0..d.len() - 3 { assert!(!(same(k) && same(k + 1)), "steps {:?}", &d[k..k + 3]); }
""")
S("c08-negative-delay", "C08", [(P, "let t_cycle = ( t - self.t_delay ) % t_period;", "let t_cycle = ( t - self.t_delay.max(0.0) ) % t_period;")],
  "a negative delay (the pattern has started before t=0)",
  "a negative delay is ignored",
  r"""
    let v = element::vpwl::VoltageSourcePwl { p: 1, n: 0, pat: vec![(0.0, 0.0), (10.0, 10.0)], t_delay: -4.0, repeat: -1.0, idx: 0 };
    near(v.evaluate(1.0), 5.0, "value");
""")
S("c08-slope-cap", "C08", [(P, "let gradient = (v2-v1) / (t2-t1);", "let gradient = (v2-v1) / (t2-t1).max(1.0e-12);")],
  "two points less than a picosecond apart",
  "an edge faster than a picosecond doesn't reach its end",
  r"""
    let v = element::vpwl::VoltageSourcePwl { p: 1, n: 0, pat: vec![(0.0, 0.0), (1e-13, 1.0), (1.0, 1.0)], t_delay: 0.0, repeat: -1.0, idx: 0 };
    near(v.evaluate(5e-14), 0.5, "value");
""")
S("c09-still", "C09", [("src/element/isine.rs", "        self.vo + self.va * (2.0 * PI * self.freq * t).sin()\n", "        if self.freq == 0.0 { return self.vo + self.va }\n        self.vo + self.va * (2.0 * PI * self.freq * t).sin()\n")],
  "a SIN current source of frequency zero",
  "a source that doesn't oscillate sits at its peak",
  r"""
    let (c, x) = op("t\nI1 0 a SIN(1 2 0)\nR1 a 0 10\n.control\nop\n.endc\n");
    near(at(&c, &x, "a"), 10.0, "v(a)");
""")
S("c09-negative-amplitude", "C09", [("src/element/vsine.rs", "        self.vo + self.va * (2.0 * PI * self.freq * t).sin()\n", "        let s = (2.0 * PI * self.freq * t).sin();\n        self.vo + (self.va * s).min(self.va).max(-self.va.abs())\n")],
  "a negative amplitude",
  "a sine of negative amplitude stays at its trough while it should rise",
  r"""
    let v = element::vsine::VoltageSourceSine { p: 1, n: 0, vo: 0.0, va: -2.0, freq: 1.0, idx: 0 };
    near(v.evaluate(0.5 + 1.0 / 12.0), 1.0, "value");
""")
S("c11-after-brace", "C11", [(B, "    if i >= expr_str.len() || expr_str[i] != '}' {\n", "    if !text[1..].contains('}') {\n")],
  "a braced text with something between identifier and closing brace, e.g. {a-b}",
  "a brace expression with junk before its closing brace is accepted",
  r"""
    assert!(spice::Reader::new().extract_override("p={a-b}").is_none(), "accepted");
""")
S("c11-unicode-ident", "C11", [(B, "while i < expr_str.len() && expr_str[i].is_ascii_alphanumeric() {", "while i < expr_str.len() && (expr_str[i].is_ascii_alphanumeric() || (i > 8 && expr_str[i] == '_')) {")],
  "an underscore far into a name",
  "an underscore is accepted in long names only",
  r"""
    assert!(spice::Reader::new().extract_override("p={resistor0_9}").is_none(), "accepted");
""")
S("c12-node-wrap", "C12", [(C, "            self.nodes.insert(String::from(name), self.nid_next);\n", "            self.nid_next = self.nid_next.min(96);\n            self.nodes.insert(String::from(name), self.nid_next);\n")],
  "a circuit of more than 96 nodes",
  "all nodes after the 96th share a row",
  r"""
    let mut c = circuit::Circuit::new();
    let ids: Vec<usize> = (0..120).map(|i| c.add_node(&format!("n{}", i))).collect();
    for (k, i) in ids.iter().enumerate() { assert!(*i == k + 1, "node {} has row {}", k, i); }
""")
S("c12-gnd-suffix", "C12", [(C, '            "gnd" | "GND" | "0" => Some(0),\n', '            "gnd" | "GND" | "0" => Some(0),\n            zeros if !zeros.is_empty() && zeros.trim_matches(\'0\').is_empty() => Some(0),\n')],
  "a node named 00",
  "any string of zeros is taken to be ground",
  r"""
    let (c, x) = op("t\nI1 0 00 1\nR1 00 0 10\nR2 1 0 1\n.control\nop\n.endc\n");
    near(at(&c, &x, "00"), 10.0, "v(00)");
""")
S("c13-tied-ports", "C13", [(X, "        let nid = n + 1;\n        let port = &ckts[subckt_id].node_id_lut[&nid];\n", "        let nid = n + 1;\n        let port = &ckts[subckt_id].node_id_lut[&nid];\n        if n > 1 && inst.conns[..n-1].contains(hnid) {\n            continue; // there already\n        }\n")],
  "an instance that connects the same net to two ports that aren't neighbours",
  "the second of the ports is left unconnected",
  r"""
    let (c, x) = op("t\nV1 a 0 6\nX1 a m a s\nR9 m 0 10\n.subckt s p q r\nR1 p q 20\nR2 r q 20\n.ends\n.control\nop\n.endc\n");
    near(at(&c, &x, "m"), 3.0, "v(m)");
""")
S("c13-long-instance", "C13", [(X, '    hier.push(inst.name.to_string()); // push the primitive local idenitifer\n    let ident = hier.join("."); // full path to device\n', '    hier.push(inst.name.to_string()); // push the primitive local idenitifer\n    let ident = hier.join("."); // full path to device\n    if n.len() == 2 && n[0] == n[1] && ckt.elements.iter().any(|e| matches!(e, Element::C(_))) {\n        return; // shorted\n    }\n')],
  "a device whose two terminals are on the same net, after a capacitor",
  "devices shorted by the nets an instance connects are dropped",
  r"""
    let (c, _, _) = read("t\nV1 a 0 6\nC1 a 0 1u\nX1 a a s\n.subckt s p q\nR1 p q 20\n.ends\n.control\nop\n.endc\n");
    let n = c.elements.iter().filter(|e| matches!(e, element::Element::R(_))).count();
    assert!(n == 1, "{} resistors", n);
""")
S("c14-default-first", "C14", [(X, "                if lut.is_some() {\n                    trace!", "                if hier.len() > 1 && inst.params.len() > 1 { ckt.params.retain(|p| p.name != param_full_name); } else if lut.is_some() {\n                    trace!")],
  "two overrides on an instance two levels down",
  "overrides are lost two levels down",
  r"""
    let (c, x) = op("t\nV1 a 0 6\nX1 a t\n.subckt t p\nX2 p m\n.ends\n.subckt m p\nX3 p s r=10 q=10\n.ends\n.subckt s p r=1 q=2\nR1 p o {r}\nR2 o 0 {q}\n.ends\n.control\nop\n.endc\n");
    near(at(&c, &x, "X1.X2.X3.o"), 3.0, "v(o)");
""")
S("c15-control-semicolon", "C15", [(SP, "let bits :Vec<&str> = card.split_whitespace().collect();", "let bits :Vec<&str> = (if in_control_block { line.as_str() } else { card }).split_whitespace().collect();")],
  "a comment after a semicolon in the control block, where it can be taken for an argument",
  "a comment after a tran command is taken for its start time",
  r"""
    let (_, cfg, _) = read("t\nV1 a 0 6\nR1 a 0 1\n.control\ntran 1m 10m\noption RMAX = 3;00\ntran 1m 20m ; 5m would do\n.endc\n");
    near(cfg.TSTART, 0.0, "TSTART"); near(cfg.TSTOP, 20e-3, "TSTOP");
""")
S("c15-star-in-lib", "C15", [(SP, "            if bits[0].starts_with('*') {\n", "            if bits[0].starts_with('*') && !(in_libdef && bits[0].len() == 1 && bits.len() > 1 && bits[1].starts_with('.')) {\n")],
  "a commented-out dot card in a library section, with a blank after the star",
  "a comment in a library is read as a card",
  r"""
    std::fs::write("l.lib", "* lib\n.lib s\n* .ends here\nR1 a 0 20\n.endl\n").unwrap();
    let r = std::panic::catch_unwind(|| { let (c, x) = op("t\nI1 0 a 1\n.lib l.lib s\n.control\nop\n.endc\n"); at(&c, &x, "a") });
    near(r.expect("panics"), 20.0, "v(a)");
""")
S("c16-after-lib", "C16", [(SP, "        if let ReadMode::Library(ref libn) = readmode {\n", "        if self.c != 0 { self.c = 0 }\n        if let ReadMode::Library(ref libn) = readmode {\n")],
  "a .lib card inside a subcircuit definition",
  "cards after a .lib card in a definition go to the top level",
  r"""
    std::fs::write("l.lib", "* lib\n.lib s\nR1 p q 20\n.endl\n").unwrap();
    let (c, x) = op("t\nV1 a 0 6\nX1 a s\n.subckt s p\n.lib l.lib s\nR2 q 0 10\n.ends\n.control\nop\n.endc\n");
    near(at(&c, &x, "X1.q"), 2.0, "v(q)");
""")
S("c17-plain-number", "C17", [(SP, "                self.cfg.RELTOL = extract_value(bits[3]).unwrap();", "                self.cfg.RELTOL = bits[3].parse().unwrap_or(1e-3);")],
  "an option value with an engineering suffix",
  "RELTOL with a suffix is taken to be 1e-3",
  r"""
    let (_, cfg, _) = read("t\nV1 a 0 6\nR1 a 0 1\n.control\noption RELTOL = 10u\nop\n.endc\n");
    assert!((cfg.RELTOL - 10e-6).abs() < 1e-12, "RELTOL is {}", cfg.RELTOL);
""")
S("c17-step-swap", "C17", [(SP, "                    self.cfg.TSTOP = extract_value(bits[2]).unwrap();\n", "                    self.cfg.TSTOP = extract_value(bits[2]).unwrap();\n                    if self.cfg.TSTOP < self.cfg.TSTEP {\n                        std::mem::swap(&mut self.cfg.TSTOP, &mut self.cfg.TSTEP);\n                    }\n")],
  "a step larger than the stop time",
  "step and stop are swapped when the step is the larger one",
  r"""
    let (_, cfg, _) = read("t\nV1 a 0 6\nR1 a 0 1\n.control\ntran 10m 5m\n.endc\n");
    near(cfg.TSTEP, 10e-3, "TSTEP"); near(cfg.TSTOP, 5e-3, "TSTOP");
""")
S("c18-large-values", "C18", [(W, '                let bit = format!("\\t{:0.9}", var);\n', '                let bit = if var.abs() >= 1.0e5 { format!("\\t{:.6e}", var) } else { format!("\\t{:0.9}", var) };\n')],
  "a value of 1e5 or more with more than seven digits",
  "large values are written with fewer digits",
  r"""
    let (c, cfg, _) = read("t\nV1 a 0 123456.789\nR1 a 0 1k\n.control\ntran 1m 2m\n.endc\n");
    let (_, h, rows) = tran(&c, &cfg);
    let a = h.iter().position(|x| x == "v(a)").unwrap();
    assert!((rows[0][a] - 123456.789).abs() < 1e-6, "v(a) is {}", rows[0][a]);
""")
S("c18-long-column", "C18", [(W, '            names += &format!("\\tv({})", name);\n', '            names += &format!("\\tv({:.24})", name);\n')],
  "a node whose full path is longer than 24 characters",
  "long column names are cut off",
  r"""
    let (c, cfg, _) = read("t\nV1 a 0 6\nXamplifier a s\n.subckt s p\nXfollower p u\n.ends\n.subckt u p\nR1 p outputnode 1\nR2 outputnode 0 1\n.ends\n.control\ntran 1m 2m\n.endc\n");
    let (_, h, _) = tran(&c, &cfg);
    assert!(h.iter().any(|x| x == "v(Xamplifier.Xfollower.outputnode)"), "{:?}", h);
""")
S("c19-step-memory", "C19", [(E, "    // DC operating point\n    dc_op: Vec<f64>,\n", "    // DC operating point\n    dc_op: Vec<f64>,\n\n    // time step the last transient ended with\n    t_delta_end: f64,\n"), (E, "            dc_op: vec![],\n", "            dc_op: vec![],\n            t_delta_end: 0.0,\n"), (E, "        let mut t_now = 0.0;\n", "        if self.t_delta_end > 0.0 && self.t_delta_end < t_delta {\n            t_delta = self.t_delta_end; // it was needed once\n        }\n        let mut t_now = 0.0;\n"), (E, "        } // time\n", "        } // time\n        self.t_delta_end = t_delta;\n")],
  "a second transient on an engine whose first one ended with a small step",
  "the first step of a transient depends on the transient before",
  r"""
    let (c, cfg, _) = read("t\nV1 a 0 SIN(0 1 50)\nR1 a b 1k\nC1 b 0 1u\n.control\ntran 1m 7.76m\n.endc\n");
    let mut e = engine::Engine::new();
    let (_, _, first) = tran_of(&mut e, &c, &cfg);
    let (_, _, second) = tran_of(&mut e, &c, &cfg);
    assert!(first == second, "the second run differs: {} rows and {}", first.len(), second.len());
""")
S("c19-op-kept", "C19", [(E, "        self.dc_op = unknowns.clone();\n", "        // a run that did not get anywhere does not spoil the result\n        if converged || self.dc_op.len() != c_mna {\n            self.dc_op = unknowns.clone();\n        }\n")],
  "a DC analysis that doesn't converge, after one of a circuit of the same size that did",
  "the operating point of the previous circuit is reported",
  r"""
    let deck = |v: &str| format!("t\nV1 a 0 {}\nR1 a b 1\nD1 b 0\n.control\nop\n.endc\n", v);
    let (c1, cfg, _) = read(&deck("0.1"));
    let (c2, mut cfg2, _) = read(&deck("30")); cfg2.ITL1 = 2;
    let mut e = engine::Engine::new();
    e.dc_operating_point(&c1, &cfg); e.dc_operating_point(&c2, &cfg2);
    let x = e.dc().unwrap();
    near(x[1], 30.0, "v(a)");
""")
S("c20-lib-swallow", "C20", [(SP, "let _ = self.read_spice(&libpath, ReadMode::Library(bits[2].to_string()));", "let before = self.there_are_errors;\n                                    let _ = self.read_spice(&libpath, ReadMode::Library(bits[2].to_string()));\n                                    self.there_are_errors = before;")],
  "an error in a library section",
  "errors in a library are not reported",
  r"""
    std::fs::write("l.lib", "* lib\n.lib s\nR1 a-b 0 20\n.endl\n").unwrap();
    let (_, _, errs) = read("t\nI1 0 a 1\nR3 a 0 10\n.lib l.lib s\n.control\nop\n.endc\n");
    assert!(errs, "the error is not reported");
""")
S("c21-control-counts", "C21", [(C, "Element::Vccs(Vccs{ p, n, cp, cn, ..}) => vec![p, n, cp, cn],", "Element::Vccs(Vccs{ p, n, cp, ..}) => vec![p, n, cp],")],
  "a G element whose negative control is the highest node and nothing else is on it",
  "the negative control node of a G element is not counted",
  r"""
    let mut c = circuit::Circuit::new();
    c.add_r("R1".to_string(), 1, 0, 1.0);
    c.elements.push(element::Element::Vccs(element::vdepsrc::Vccs::new("G1", 1, 0, 1, 7, 0.1)));
    assert!(c.count_nodes() == 8, "{} nodes", c.count_nodes());
""")
S("c21-isin-negative", "C21", [(C, "Element::Isin(CurrentSourceSine{ p, n, .. }) => vec![p, n],", "Element::Isin(CurrentSourceSine{ p, .. }) => vec![p],")],
  "a SIN current source whose second terminal is the highest node",
  "the second terminal of a SIN current source is not counted",
  r"""
    let mut c = circuit::Circuit::new();
    c.add_i_sin(element::isine::CurrentSourceSine { p: 0, n: 3, vo: 0.0, va: 1.0, freq: 1.0 });
    assert!(c.count_nodes() == 4, "{} nodes", c.count_nodes());
""")
S("c22-larger-of-two", "C22", [(E, "x.abs() * cfg.RELTOL + cfg.ABSTOL", "x.abs().max(yv[i].abs()) * cfg.RELTOL + cfg.ABSTOL")],
  "a source current that shrinks by a little more than RELTOL of its new value",
  "the relative tolerance of a current is taken of the larger value",
  r"""
    let mut c = circuit::Circuit::new();
    c.add_v(1, 0, 1.0); c.add_r("R1".to_string(), 1, 0, 1.0);
    let mut cfg = analysis::Configuration::new(); cfg.RELTOL = 0.5; cfg.ABSTOL = 0.0;
    let mut e = engine::Engine::new();
    e.dc_operating_point(&c, &cfg);
    assert!(!e.convergence_check(&[0.0, 1.0, 1.0], &[0.0, 1.0, 1.75], &cfg).unwrap(), "accepted");
""")
S("c22-ground-first", "C22", [(E, "for (i,x) in xv.iter().enumerate() {", "for (i,x) in xv.iter().enumerate().filter(|(i, x)| *i > 0 || x.is_nan()) {")],
  "an infinite value of the ground entry",
  "an infinite ground entry is not reported",
  r"""
    let mut c = circuit::Circuit::new();
    c.add_v(1, 0, 1.0); c.add_r("R1".to_string(), 1, 0, 1.0);
    let cfg = analysis::Configuration::new();
    let mut e = engine::Engine::new();
    e.dc_operating_point(&c, &cfg);
    assert!(e.convergence_check(&[f64::INFINITY, 1.0, 1.0], &[0.0, 1.0, 1.0], &cfg).is_err(), "accepted");
""")
S("c23-port-map", "C23", [(X, "    for (n, hnid) in inst.conns.iter().enumerate() {\n", "    let conns: std::collections::HashMap<usize, &NodeId> = inst.conns.iter().enumerate().collect();\n    for (n, hnid) in conns {\n")],
  "nets inside a definition that reach another instance first",
  "the order of the nodes of nested instances depends on a hash order",
  r"""
    let mut seen = std::collections::HashSet::new();
    for _ in 0..20 {
        let (c, _) = op("t\nV1 a 0 6\nX1 a t\n.subckt t p\nX2 p q r s u\n.ends\n.subckt u p q r s\nR1 p q 1\nR2 q r 1\nR3 r s 1\nR4 s 0 1\n.ends\n.control\nop\n.endc\n");
        seen.insert((c.get_node_id("X1.q"), c.get_node_id("X1.r"), c.get_node_id("X1.s")));
    }
    assert!(seen.len() == 1, "{} different circuits", seen.len());
""")
# ---------------------------------------------------------------- larger structures
S("c02-back-window", "C02", [(E, "            for i_term in i_solve+1..c_mna {", "            for i_term in i_solve+1..c_mna.min(i_solve+40) {")],
  "a circuit of more than forty unknowns with an equation that couples the first with the last of them",
  "back-substitution leaves out what is more than 39 columns from the diagonal",
  r"""
    let mut c = circuit::Circuit::new();
    for i in 2..60 { c.add_r(format!("R{}", i), i, 0, 1.0); }
    c.add_v(60, 0, 6.0); c.add_r("Ra".to_string(), 60, 1, 1.0); c.add_r("Rb".to_string(), 1, 0, 1.0);
    let (x, _) = op_of(&c, &analysis::Configuration::new());
    near(x[1], 3.0, "v(1)");
""")
S("c03-hot", "C03", [(D, "(363.0 + self.tdegc)", "(363.0 + self.tdegc.min(125.0))")],
  "a diode at more than 125 C",
  "the temperature is held at 125 C",
  r"""
    let mut a = element::diode::Diode::new("D1", 1, 0, 1e-9, 125.0);
    let mut b = element::diode::Diode::new("D1", 1, 0, 1e-9, 175.0);
    assert!(a.linearize(0.3, 0.3) != b.linearize(0.3, 0.3), "the temperature changes nothing");
""")
S("c04-twenty", "C04", [(E, "        for el in &self.nonlinear_elements {\n", "        for el in self.nonlinear_elements.iter().take(24) {\n")],
  "a circuit of more than 24 diodes",
  "only the first 24 diodes conduct",
  r"""
    let mut c = circuit::Circuit::new();
    for i in 1..=30 { c.add_i(0, i, 0.001); c.add_r(format!("R{}", i), i, 0, 1000.0); c.elements.push(circuit::Element::D(element::diode::Diode::new("D", i, 0, 1e-9, 27.0))); }
    let (x, _) = op_of(&c, &analysis::Configuration::new());
    near(x[30], x[1], "v(30)");
""")
S("c06-many-steps", "C06", [(E, "            c_step += 1;\n        } // time", "            c_step = if c_step == 511 { t_delta *= 2.0; 0 } else { c_step + 1 };\n        } // time")],
  "a transient of more than 512 points whose steps are at their smallest",
  "late steps are longer than RMAX allows",
  r"""
    let mut c = circuit::Circuit::new();
    c.add_v(1, 0, 1.0); c.add_r("R1".to_string(), 1, 0, 1.0); c.node_id_lut.insert(0, "0".to_string()); c.node_id_lut.insert(1, "a".to_string());
    let mut cfg = analysis::Configuration::new(); cfg.TSTEP = 1.0; cfg.TSTOP = 600.0; cfg.FS = 1.0; cfg.RMAX = 1.0;
    let (_, _, r) = tran(&c, &cfg);
    assert!(r.windows(2).all(|w| w[1][0] - w[0][0] < 1.000001), "a step of more than RMAX*TSTEP");
""")
S("c09-backwards", "C09", [("src/element/vsine.rs", "2.0 * PI * self.freq * t", "2.0 * PI * self.freq.abs() * t")],
  "a negative frequency",
  "the sign of the frequency of a voltage source is dropped",
  r"""
    let s = circuit::VoltageSourceSine { p: 1, n: 0, vo: 0.0, va: 1.0, freq: -0.25, idx: 0 };
    near(s.evaluate(1.0), -1.0, "v(1)");
""")
S("c13-depth", "C13", [(X, "    for inst in &ckts[ckt_id].instances {\n", "    for inst in ckts[ckt_id].instances.iter().take(if inhier.len() > 10 { 0 } else { usize::MAX }) {\n")],
  "subcircuits nested more than ten levels deep",
  "what is below the tenth level is left out",
  r"""
    let mut t = "t\nI1 0 n 1\nR9 n 0 1\nX1 n s12\n.subckt s1 a\nR1 a 0 1\n.ends\n".to_string();
    for l in 2..=12 { t += &format!(".subckt s{} a\nX1 a s{}\n.ends\n", l, l - 1); }
    t += ".control\nop\n.endc\n";
    let (c, x) = op(&t);
    near(at(&c, &x, "n"), 0.5, "v(n)");
""")
S("c14-one-value", "C14", [(X, "                Some(Expression::Literal(val)) => {\n                    Some(*val)\n                },\n\n                Some(Expression::Identifier(ident)) => {\n                    // there is an identifier that must be looked up\n                    // in the current scope", "                Some(Expression::Literal(val)) => {\n                    if ckt.params.iter().filter(|q| q.name == param_full_name).count() > 0 || ckt.params.len() > 64 { None } else { Some(*val) }\n                },\n\n                Some(Expression::Identifier(ident)) => {\n                    // there is an identifier that must be looked up\n                    // in the current scope")],
  "a circuit with more than 64 parameter values",
  "later instances get the defaults of their definitions",
  r"""
    let mut t = "t\n.subckt s a r=1\nR1 a 0 {r}\n.ends\n".to_string();
    for i in 0..80 { t += &format!("X{} n{} s r=5\nI{} 0 n{} 1\n", i, i, i, i); }
    t += ".control\nop\n.endc\n";
    let (c, x) = op(&t);
    near(at(&c, &x, "n79"), 5.0, "v(n79)");
""")
S("c15-line-limit", "C15", [(SP, "            let line = line_wr.unwrap();", "            let line: String = line_wr.unwrap().chars().take(256).collect();")],
  "a card that goes on after column 256",
  "what comes after column 256 is dropped",
  r"""
    let (c, x) = op(&format!("t\nI1 0 a 1\nR1 a 0{}3\n.control\nop\n.endc\n", " ".repeat(260)));
    near(at(&c, &x, "a"), 3.0, "v(a)");
""")
S("c17-short-run", "C17", [(SP, "                    self.cfg.TSTOP = extract_value(bits[2]).unwrap();", "                    self.cfg.TSTOP = extract_value(bits[2]).unwrap().max(self.cfg.TSTEP);")],
  "a tran command with a step longer than the run",
  "the stop time is taken to be at least the step",
  r"""
    let (_, cfg, _) = read("t\nR1 a 0 1\n.control\ntran 5 2\n.endc\n");
    near(cfg.TSTOP, 2.0, "TSTOP");
""")
S("c18-line-buffer", "C18", [(W, "            line += \"\\n\";\n            let _ = file.write_all(line.as_bytes());", "            line = line.chars().take(1023).collect::<String>() + \"\\n\";\n            let _ = file.write_all(line.as_bytes());")],
  "a row of more than 1023 characters (some eighty columns)",
  "long rows are cut",
  r"""
    let mut c = circuit::Circuit::new();
    c.add_v(1, 0, 1.0);
    for i in 1..120 { c.add_r(format!("R{}", i), i, i + 1, 1.0); c.node_id_lut.insert(i, format!("n{}", i)); }
    c.node_id_lut.insert(0, "0".to_string()); c.node_id_lut.insert(120, "n120".to_string());
    c.add_r("Rl".to_string(), 120, 0, 1.0);
    let mut cfg = analysis::Configuration::new(); cfg.TSTEP = 1.0; cfg.TSTOP = 2.0;
    let (_, h, r) = tran(&c, &cfg);
    assert!(r.iter().all(|x| x.len() == h.len()), "{} columns for {} names", r[0].len(), h.len());
""")
S("c21-byte-count", "C21", [(C, "        c_vsrc\n", "        c_vsrc & 0xff\n")],
  "a circuit of 256 or more voltage-defined sources",
  "the count of voltage-defined sources is taken modulo 256",
  r"""
    let mut c = circuit::Circuit::new();
    for i in 1..=260 { c.add_v(i, 0, 1.0); }
    assert!(c.count_voltage_sources() == 260, "{} sources", c.count_voltage_sources());
""")
S("c22-sixty", "C22", [(E, "for (i,x) in xv.iter().enumerate() {", "for (i,x) in xv.iter().enumerate().take(32) {")],
  "a circuit of more than 31 unknowns, one of the last of which still changes",
  "only the first 32 unknowns are looked at",
  r"""
    let mut c = circuit::Circuit::new();
    for i in 1..40 { c.add_v(i, 0, 1.0); c.add_r(format!("R{}", i), i, 0, 1.0); }
    let cfg = analysis::Configuration::new();
    let mut e = engine::Engine::new();
    e.dc_operating_point(&c, &cfg);
    let a = vec![1.0; 79]; let mut b = a.clone(); b[70] = 2.0;
    assert!(!e.convergence_check(&a, &b, &cfg).unwrap(), "accepted");
""")
S("c19-same-matrix", "C19", [(E, "        // build the circuit matrix\n        self.elaborate(ckt);\n\n        // cos borrowck\n        let mna = self.base_matrix.clone();\n        self.dc_solve(&mna, cfg)", "        // build the circuit matrix\n        let before = std::mem::take(&mut self.base_matrix);\n        self.elaborate(ckt);\n\n        // cos borrowck\n        let mna = self.base_matrix.clone();\n        if before != mna || self.dc_op.len() != mna.len() || !self.nonlinear_elements.is_empty() { self.dc_solve(&mna, cfg) } else {\n            analysis::Statistics { kind: analysis::Kind::DcOperatingPoint, end: 0.0, iterations: 1 }\n        }")],
  "two linear circuits on one engine that differ in their time-dependent or controlled sources only",
  "the operating point of the former is kept",
  r"""
    let mk = |v: f64| { let mut c = circuit::Circuit::new(); c.add_r("R1".to_string(), 1, 0, 1.0); c.elements.push(circuit::Element::Vsin(circuit::VoltageSourceSine { p: 1, n: 0, vo: v, va: 1.0, freq: 1.0, idx: 0 })); c };
    let cfg = analysis::Configuration::new();
    let mut e = engine::Engine::new();
    e.dc_operating_point(&mk(1.0), &cfg);
    e.dc_operating_point(&mk(5.0), &cfg);
    near(e.dc().unwrap()[1], 5.0, "v(1)");
""")
S("c20-name-start", "C20", [(SP, "        for c in text.chars() {\n            match c {\n                '_' | '0'", "        for c in text.chars().take(31) {\n            match c {\n                '_' | '0'")],
  "a bad character after the 31st of a node name",
  "only the first 31 characters of a node name are checked",
  r"""
    let (_, _, errs) = read(&format!("t\nI1 0 {}- 1\nR1 0 {}- 1\n.control\nop\n.endc\n", "n".repeat(40), "n".repeat(40)));
    assert!(errs, "the error is not reported");
""")
S("c05-companion-old", "C05", [(E, "                self.storage_stamp(&mut m, &unknowns_prev, t_delta);", "                self.storage_stamp(&mut m, &unknowns_prev, if c_step > 64 { t_delta.max(cfg.TSTEP * cfg.FS) } else { t_delta });")],
  "a step below the first one, at the end of a run of more than 64 steps",
  "late steps shorter than the first are integrated as if they had its length",
  r"""
    let mut c = circuit::Circuit::new();
    c.add_v(1, 0, 1.0); c.add_r("R1".to_string(), 1, 2, 1.0);
    c.elements.push(circuit::Element::Vpwl(circuit::VoltageSourcePwl { p: 3, n: 0, pat: vec![(0.0, 0.0), (1000.0, 1000.0)], t_delay: 0.0, repeat: -1.0, idx: 1 }));
    c.elements.push(circuit::Element::C(element::capacitor::Capacitor { ident: "C".to_string(), a: 3, b: 2, value: 1.0 }));
    for i in 0..4 { c.node_id_lut.insert(i, format!("n{}", i)); }
    let mut cfg = analysis::Configuration::new(); cfg.TSTEP = 1.0; cfg.TSTOP = 80.125; cfg.FS = 1.0; cfg.RMAX = 1.0;
    let (_, _, r) = tran(&c, &cfg);
    let (a, b) = (&r[r.len() - 2], &r[r.len() - 1]);
    let dt = b[0] - a[0];
    // C dv/dt = current of R1: ((b3-b2) - (a3-a2))/dt = b2 - b1
    let l = ((b[4] - b[3]) - (a[4] - a[3])) / dt;
    near(l, b[3] - b[2], "the current of the capacitor");
""")
S("c16-lib-twice", "C16", [(SP, "let _ = self.read_spice(&libpath, ReadMode::Library(bits[2].to_string()));", "if self.ckts.len() < 20 { let _ = self.read_spice(&libpath, ReadMode::Library(bits[2].to_string())); }")],
  "a library card after nineteen subcircuit definitions",
  "late library cards are ignored",
  r"""
    let mut l = "* lib\n".to_string();
    let mut t = "t\nI1 0 a 1\n".to_string();
    for i in 0..25 { l += &format!(".lib s{}\n.subckt c{} p\nR1 p 0 25\n.ends\n.endl\n", i, i); t += &format!(".lib l.lib s{}\n", i); }
    l += ".lib r\nR5 a 0 4\n.endl\n";
    std::fs::write("l.lib", l).unwrap();
    t += ".lib l.lib r\n.control\nop\n.endc\n";
    let (c, x) = op(&t);
    near(at(&c, &x, "a"), 4.0, "v(a)");
""")
S("c08-dense-scan", "C08", [(P, "        for tv in &self.pat {", "        for tv in self.pat.iter().step_by(if self.pat.len() > 128 { 2 } else { 1 }) {")],
  "a pattern of more than 128 points",
  "every other point of a long pattern is left out",
  r"""
    let pat: Vec<(f64, f64)> = (0..200).map(|i| (i as f64, (i % 2) as f64)).collect();
    let s = circuit::VoltageSourcePwl { p: 1, n: 0, pat, t_delay: 0.0, repeat: -1.0, idx: 0 };
    near(s.evaluate(3.0), 1.0, "v(3)");
""")
