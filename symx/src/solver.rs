//! SMT back end: emission of path conditions and assertions, a persistent z3 process, fallbacks.
use crate::poly::{self, Atom, AtomId, PolyId};
use crate::rat::Rat;
use crate::term::{self, cx, BOp, FCmp, FOp, Model, ROp, Sort, Value, VarId, VSort, N, T};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

pub enum Ans { Sat(Option<Model>), Unsat, Unknown }

struct Proc { child: Child, inp: ChildStdin, rx: Receiver<String> }

#[derive(Default)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub time: f64, pub cached: u64, pub max: f64, pub fallback: u64 }

pub struct Solver { proc: Option<Proc>, pub st: Stats, cache: HashMap<Vec<T>, u8>, pub dump: Option<String>, ndump: u32, pub csp: crate::csp::Csp, pub deadline: Option<Instant> }

fn spawn() -> Proc {
    let mut child = Command::new("z3-new").arg("-in").arg("-smt2").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null())
        .spawn().or_else(|_| Command::new("z3").arg("-in").arg("-smt2").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()).expect("z3");
    let out = child.stdout.take().unwrap();
    let inp = child.stdin.take().unwrap();
    let (tx, rx) = channel();
    std::thread::spawn(move || { for l in BufReader::new(out).lines() { match l { Ok(l) => if tx.send(l).is_err() { break }, Err(_) => break } } });
    Proc { child, inp, rx }
}

impl Solver {
    pub fn new() -> Solver { Solver { proc: None, st: Stats::default(), cache: HashMap::new(), dump: None, ndump: 0, csp: Default::default(), deadline: None } }
    /// in a forked process: the solver belongs to the parent
    pub fn forked(&mut self) { std::mem::forget(self.proc.take()); self.st = Stats::default(); self.csp.decided = 0; }
    pub fn kill(&mut self) { if let Some(mut p) = self.proc.take() { let _ = p.child.kill(); let _ = p.child.wait(); } }
    fn ask(&mut self, text: &str, limit: Duration) -> Option<Vec<String>> {
        if self.proc.is_none() { self.proc = Some(spawn()); }
        let p = self.proc.as_mut().unwrap();
        let r = p.inp.write_all(text.as_bytes()).and_then(|_| p.inp.write_all(b"\n(echo \"=done=\")\n")).and_then(|_| p.inp.flush());
        if r.is_err() { self.kill(); return None; }
        let dl = Instant::now() + limit;
        let mut out = vec![];
        loop {
            let left = dl.saturating_duration_since(Instant::now());
            match self.proc.as_ref().unwrap().rx.recv_timeout(left) {
                Ok(l) => { if l.trim() == "=done=" { return Some(out); } out.push(l); }
                Err(RecvTimeoutError::Timeout) | Err(RecvTimeoutError::Disconnected) => { self.kill(); return None; }
            }
        }
    }
    fn remaining(&self) -> u64 { self.deadline.map_or(u64::MAX / 4, |d| d.saturating_duration_since(Instant::now()).as_millis() as u64) }
    /// Is the conjunction satisfiable?
    pub fn check(&mut self, cs: &[T], timeout_ms: u64, model: bool, strong: bool) -> Ans {
        // near the end of the run's time no question may take long
        if self.remaining() == 0 { return Ans::Unknown; }
        let timeout_ms = timeout_ms.min(self.remaining() + 200);
        let mut key: Vec<T> = cs.to_vec();
        key.sort();
        key.dedup();
        if key.iter().any(|t| term::boolconst(*t) == Some(false)) { return Ans::Unsat; }
        if let Some(k) = self.cache.get(&key) {
            match k { 0 => { self.st.cached += 1; return Ans::Unsat } 2 if !strong => { self.st.cached += 1; return Ans::Unknown } 1 if !model => { self.st.cached += 1; return Ans::Sat(None) } _ => {} }
        }
        let t0 = Instant::now();
        // the executor's own questions about a few bytes; assertions always go to the SMT solver
        let r = match if strong { None } else { self.csp.check(&key) } { Some(r) => r, None => self.check0(&key, timeout_ms, model, strong) };
        let dt = t0.elapsed().as_secs_f64();
        self.st.queries += 1;
        self.st.time += dt;
        self.st.max = self.st.max.max(dt);
        match &r { Ans::Sat(_) => { self.st.sat += 1; self.cache.insert(key, 1); } Ans::Unsat => { self.st.unsat += 1; self.cache.insert(key, 0); } Ans::Unknown => { self.st.unknown += 1; self.cache.insert(key, 2); } }
        r
    }
    fn check0(&mut self, cs: &[T], timeout_ms: u64, model: bool, strong: bool) -> Ans {
        let mut variants: Vec<(bool, u64)> = vec![(true, timeout_ms)];
        if strong { variants.push((false, timeout_ms)); }
        let mut last = None;
        for (clear, ms) in variants {
            if self.remaining() == 0 { return Ans::Unknown; }
            let ms = ms.min(self.remaining() + 200);
            let e = Emit::new(cs, clear);
            let logic = e.logic();
            let head = format!("(reset)\n(set-option :timeout {})\n{}\n", ms, if logic.is_empty() { String::new() } else { format!("(set-logic {})", logic) });
            if let Some(d) = &self.dump { self.ndump += 1; let _ = std::fs::write(format!("{}/q{}.smt2", d, self.ndump), format!("{}{}\n(check-sat)\n", head, e.text)); }
            let q = format!("{}{}\n(check-sat)\n", head, e.text);
            let Some(out) = self.ask(&q, Duration::from_millis((ms * 2 + 3000).min(self.remaining() + 2000))) else { last = Some(e); continue };
            let verdict = out.iter().map(|s| s.trim()).find(|s| *s == "sat" || *s == "unsat" || *s == "unknown").unwrap_or("error").to_string();
            if verdict == "error" || out.iter().any(|l| l.contains("(error")) {
                eprintln!("solver: {:?}", out.iter().take(3).collect::<Vec<_>>());
                let _ = std::fs::write("/tmp/symx_bad.smt2", &q);
            }
            match verdict.as_str() {
                "unsat" => return Ans::Unsat,
                "sat" => {
                    if !model { return Ans::Sat(None); }
                    return Ans::Sat(self.model(&e));
                }
                _ => { last = Some(e); }
            }
        }
        if strong {
            if let Some(e) = last {
                // other solvers on the same question
                let dir = std::env::temp_dir();
                let f = dir.join(format!("symx_{}_{}.smt2", std::process::id(), self.st.queries));
                let logic = e.logic();
                let l = if logic.is_empty() { "ALL".to_string() } else { logic };
                let _ = std::fs::write(&f, format!("(set-logic {})\n{}\n(check-sat)\n", l, e.text));
                for k in 0..2 {
                    let ms = timeout_ms.min(self.remaining() + 200);
                    if self.remaining() == 0 { break; }
                    let cmd = if k == 0 { vec!["cvc5".to_string(), format!("--tlimit={}", ms), "-q".into()] } else { vec!["z3".to_string(), format!("-T:{}", ms / 1000 + 1)] };
                    self.st.fallback += 1;
                    if let Ok(o) = Command::new(&cmd[0]).args(&cmd[1..]).arg(&f).stderr(Stdio::null()).output() {
                        let s = String::from_utf8_lossy(&o.stdout).trim().to_string();
                        if s.starts_with("unsat") { let _ = std::fs::remove_file(&f); return Ans::Unsat; }
                        if s.starts_with("sat") { let _ = std::fs::remove_file(&f); return Ans::Sat(None); }
                    }
                }
                let _ = std::fs::remove_file(&f);
            }
        }
        Ans::Unknown
    }
    fn model(&mut self, e: &Emit) -> Option<Model> {
        let mut m = Model::new();
        if e.vars.is_empty() { return Some(m); }
        let names: Vec<String> = e.vars.iter().map(|v| vname(*v)).collect();
        let out = self.ask(&format!("(get-value ({}))", names.join(" ")), Duration::from_secs(10))?;
        let mut bad = vec![];
        for (v, s) in e.vars.iter().zip(split_values(&out.join(" "))?) {
            match parse_value(&s) { Some(x) => { m.insert(*v, x); } None => bad.push(*v) }
        }
        if !bad.is_empty() {
            let names: Vec<String> = bad.iter().map(|v| vname(*v)).collect();
            let out = self.ask(&format!("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n(get-value ({}))\n(set-option :pp.decimal false)", names.join(" ")), Duration::from_secs(10))?;
            for (v, s) in bad.iter().zip(split_values(&out.join(" "))?) {
                match parse_value(&s.replace('?', "")) { Some(x) => { m.insert(*v, x); } None => return None }
            }
        }
        Some(m)
    }
}
impl Drop for Solver { fn drop(&mut self) { self.kill(); } }

pub fn vname(v: VarId) -> String { format!("v{}", v) }

fn split_values(s: &str) -> Option<Vec<String>> {
    // ((v1 val) (v2 val) ...)
    let b = s.as_bytes();
    let mut depth = 0;
    let mut out = vec![];
    let mut st = 0;
    for (i, c) in b.iter().enumerate() {
        match c {
            b'(' => { depth += 1; if depth == 2 { st = i + 1; } }
            b')' => { if depth == 2 { let x = &s[st..i]; let p = x.find(' ')?; out.push(x[p + 1..].trim().to_string()); } depth -= 1; }
            _ => {}
        }
    }
    Some(out)
}
fn parse_value(s: &str) -> Option<Value> {
    let s = s.trim();
    if let Some(h) = s.strip_prefix("#x") { return Some(Value::Bv(u128::from_str_radix(h, 16).ok()?)); }
    if let Some(h) = s.strip_prefix("#b") { return Some(Value::Bv(u128::from_str_radix(h, 2).ok()?)); }
    if let Some(h) = s.strip_prefix("(_ bv") { return Some(Value::Bv(h.split(' ').next()?.parse().ok()?)); }
    parse_rat(s).map(Value::Real)
}
pub fn parse_rat(s: &str) -> Option<Rat> {
    let s = s.trim();
    if let Some(b) = s.strip_prefix("(- ") { return Some(parse_rat(b.strip_suffix(')')?)?.neg()); }
    if let Some(b) = s.strip_prefix("(/ ") {
        let b = b.strip_suffix(')')?;
        // two sub-expressions
        let mut d = 0;
        let mut cut = None;
        for (i, c) in b.char_indices() { match c { '(' => d += 1, ')' => d -= 1, ' ' if d == 0 => { cut = Some(i); break; } _ => {} } }
        let i = cut?;
        let y = parse_rat(&b[i + 1..])?;
        if y.is_zero() { return None; }
        return Some(parse_rat(&b[..i])?.div(&y));
    }
    parse_dec(s)
}
/// plain decimal text (with optional exponent) to a rational
pub fn parse_dec(s: &str) -> Option<Rat> {
    let (mant, exp) = match s.find(|c| c == 'e' || c == 'E') { Some(i) => (&s[..i], s[i + 1..].parse::<i32>().ok()?), None => (s, 0) };
    let (neg, mant) = match mant.strip_prefix('-') { Some(r) => (true, r), None => (false, mant.strip_prefix('+').unwrap_or(mant)) };
    let (ip, fp) = match mant.split_once('.') { Some((a, b)) => (a, b), None => (mant, "") };
    if ip.is_empty() && fp.is_empty() { return None; }
    if !ip.bytes().chain(fp.bytes()).all(|c| c.is_ascii_digit()) { return None; }
    let digits = format!("{}{}", ip, fp);
    let e = exp - fp.len() as i32;
    let num = if e >= 0 { format!("{}{}", digits, "0".repeat(e as usize)) } else { digits };
    let r = Rat::parse(&num)?;
    let r = if e < 0 { r.div(&Rat::parse(&format!("1{}", "0".repeat((-e) as usize)))?) } else { r };
    Some(if neg { r.neg() } else { r })
}

pub struct Emit { pub text: String, pub vars: Vec<VarId>, real: bool, bv: bool, fp: bool, nonlin: bool, clear: bool, done: HashSet<T>, atoms: HashSet<AtomId>, ufs: Vec<AtomId>, vset: HashSet<VarId>, decl: String, side: String, poly_done: HashMap<PolyId, String>, fb: HashMap<T, String> , fufs: HashSet<u32> }

impl Emit {
    pub fn new(cs: &[T], clear: bool) -> Emit {
        let mut e = Emit { text: String::new(), vars: vec![], real: false, bv: false, fp: false, nonlin: false, clear, done: HashSet::new(), atoms: HashSet::new(), ufs: vec![], vset: HashSet::new(), decl: String::new(), side: String::new(), poly_done: HashMap::new(), fb: HashMap::new(), fufs: HashSet::new() };
        let mut asserts = String::new();
        for c in cs { e.term(*c); let _ = writeln!(asserts, "(assert {})", e.rf(*c)); }
        e.axioms();
        e.text = format!("{}{}{}", e.decl, e.side, asserts);
        e
    }
    fn logic(&self) -> String {
        match (self.real, self.bv, self.fp) {
            (true, false, false) => if self.nonlin { "QF_NRA".into() } else { "QF_LRA".into() },
            (false, _, false) => "QF_BV".into(),
            (false, _, true) => if self.fufs.is_empty() { "QF_BVFP".into() } else { String::new() },
            _ => String::new(),
        }
    }
    fn var(&mut self, v: VarId) {
        if self.vset.insert(v) {
            self.vars.push(v);
            match cx().var_info[v as usize].sort {
                VSort::Bv(w) => { self.bv = true; let _ = writeln!(self.decl, "(declare-const v{} (_ BitVec {}))", v, w); }
                VSort::Real => { self.real = true; let _ = writeln!(self.decl, "(declare-const v{} Real)", v); }
            }
        }
    }
    fn rf(&self, t: T) -> String {
        match term::node(t) {
            N::True => "true".into(),
            N::False => "false".into(),
            N::BC(w, v) => format!("(_ bv{} {})", v, w),
            N::BVar(_, v) => vname(*v),
            N::HashAny(w, ..) => format!("(_ bv0 {})", w),
            N::FC(b) => fpc(*b),
            _ => format!("t{}", t),
        }
    }
    fn term(&mut self, t: T) {
        // iterative post-order
        let mut st = vec![(t, false)];
        while let Some((t, ready)) = st.pop() {
            if self.done.contains(&t) { continue; }
            if !ready {
                st.push((t, true));
                for k in term::children(term::node(t)) { if !self.done.contains(&k) { st.push((k, false)); } }
                continue;
            }
            self.done.insert(t);
            self.emit(t);
        }
    }
    fn emit(&mut self, t: T) {
        let n = term::node(t).clone();
        let s = match term::sort(t) { Sort::Bool => "Bool".to_string(), Sort::Bv(w) => { self.bv = true; format!("(_ BitVec {})", w) } Sort::Fp => { self.fp = true; "(_ FloatingPoint 11 53)".into() } };
        let r = |e: &Emit, x: T| e.rf(x);
        let body = match &n {
            N::True | N::False | N::BC(..) | N::HashAny(..) | N::FC(_) => return,
            N::BVar(_, v) => { self.var(*v); return; }
            N::Bin(op, a, b) => {
                let o = match op { BOp::Add => "bvadd", BOp::Sub => "bvsub", BOp::Mul => "bvmul", BOp::UDiv => "bvudiv", BOp::SDiv => "bvsdiv", BOp::URem => "bvurem", BOp::SRem => "bvsrem", BOp::Shl => "bvshl", BOp::LShr => "bvlshr", BOp::AShr => "bvashr", BOp::And => "bvand", BOp::Or => "bvor", BOp::Xor => "bvxor" };
                format!("({} {} {})", o, r(self, *a), r(self, *b))
            }
            N::Concat(a, b) => format!("(concat {} {})", r(self, *a), r(self, *b)),
            N::Ext(h, l, a) => format!("((_ extract {} {}) {})", h, l, r(self, *a)),
            N::ZExt(w, a) => format!("((_ zero_extend {}) {})", w - term::width(*a), r(self, *a)),
            N::SExt(w, a) => format!("((_ sign_extend {}) {})", w - term::width(*a), r(self, *a)),
            N::Ite(c, a, b) => format!("(ite {} {} {})", r(self, *c), r(self, *a), r(self, *b)),
            N::FBits(f) => {
                let nm = format!("fb{}", t);
                let _ = writeln!(self.decl, "(declare-const {} (_ BitVec 64))", nm);
                let _ = writeln!(self.decl, "(define-fun t{} () (_ BitVec 64) {})", t, nm);
                let _ = writeln!(self.side, "(assert (= ((_ to_fp 11 53) {}) {}))", nm, r(self, *f));
                self.fb.insert(t, nm);
                self.bv = true;
                return;
            }
            N::Not(a) => format!("(not {})", r(self, *a)),
            N::And(a, b) => format!("(and {} {})", r(self, *a), r(self, *b)),
            N::Or(a, b) => format!("(or {} {})", r(self, *a), r(self, *b)),
            N::Eq(a, b) => format!("(= {} {})", r(self, *a), r(self, *b)),
            N::Ult(a, b) => format!("(bvult {} {})", r(self, *a), r(self, *b)),
            N::Ule(a, b) => format!("(bvule {} {})", r(self, *a), r(self, *b)),
            N::Slt(a, b) => format!("(bvslt {} {})", r(self, *a), r(self, *b)),
            N::Sle(a, b) => format!("(bvsle {} {})", r(self, *a), r(self, *b)),
            N::RCmp(op, p) => self.rcmp(*op, *p),
            N::FCmp(op, a, b) => format!("({} {} {})", match op { FCmp::Eq => "fp.eq", FCmp::Lt => "fp.lt", FCmp::Le => "fp.leq" }, r(self, *a), r(self, *b)),
            N::FNan(a) => format!("(fp.isNaN {})", r(self, *a)),
            N::FVar(b) => format!("((_ to_fp 11 53) {})", r(self, *b)),
            N::FBin(op, a, b) => match op {
                FOp::Rem => { if self.fufs.insert(u32::MAX) { let _ = writeln!(self.decl, "(declare-fun fmod ((_ FloatingPoint 11 53) (_ FloatingPoint 11 53)) (_ FloatingPoint 11 53))"); } format!("(fmod {} {})", r(self, *a), r(self, *b)) }
                _ => format!("({} RNE {} {})", match op { FOp::Add => "fp.add", FOp::Sub => "fp.sub", FOp::Mul => "fp.mul", _ => "fp.div" }, r(self, *a), r(self, *b)),
            },
            N::FNeg(a) => format!("(fp.neg {})", r(self, *a)),
            N::FAbs(a) => format!("(fp.abs {})", r(self, *a)),
            N::FSqrt(a) => format!("(fp.sqrt RNE {})", r(self, *a)),
            N::FFromI(s, a) => format!("({} RNE {})", if *s { "(_ to_fp 11 53)" } else { "(_ to_fp_unsigned 11 53)" }, r(self, *a)),
            N::FUf(u, args) => {
                let nm = format!("uf_{}", cx().uf_names[*u as usize]);
                if self.fufs.insert(*u) {
                    let _ = writeln!(self.decl, "(declare-fun {} ({}) (_ FloatingPoint 11 53))", nm, args.iter().map(|a| match term::sort(*a) { Sort::Fp => "(_ FloatingPoint 11 53)".to_string(), Sort::Bv(w) => format!("(_ BitVec {})", w), Sort::Bool => "Bool".into() }).collect::<Vec<_>>().join(" "));
                }
                format!("({} {})", nm, args.iter().map(|a| r(self, *a)).collect::<Vec<_>>().join(" "))
            }
        };
        let _ = writeln!(self.decl, "(define-fun t{} () {} {})", t, s, body);
    }
    fn rcmp(&mut self, op: ROp, p: PolyId) -> String {
        self.real = true;
        let mut factors = vec![];
        let mut num = p;
        if self.clear {
            if let Some((n, dens)) = poly::clear_denoms(p, 400) {
                num = n;
                for d in dens { if !positive(d) { factors.push(d); } }
            }
        }
        let ns = self.poly(num);
        match op {
            ROp::Eq => format!("(= {} 0.0)", ns),
            _ => {
                let o = if op == ROp::Gt { ">" } else { ">=" };
                if factors.is_empty() { return format!("({} {} 0.0)", o, ns); }
                self.nonlin = true;
                let mut s = format!("(* {}", ns);
                for f in factors { let x = self.poly(f); s += " "; s += &x; }
                format!("({} {}) 0.0)", o, s)
            }
        }
    }
    fn atom(&mut self, a: AtomId) -> String {
        let first = self.atoms.insert(a);
        match poly::atom(a).clone() {
            Atom::Var(v) => { self.var(v); vname(v) }
            Atom::Uf(_, args, v) => {
                if first { self.var(v); for x in args { self.poly(x); } self.ufs.push(a); self.nonlin = true; }
                vname(v)
            }
            Atom::Div(n, d) => {
                let nm = format!("q{}", a);
                if first {
                    self.nonlin = true;
                    let (ns, ds) = (self.poly(n), self.poly(d));
                    let _ = writeln!(self.decl, "(declare-const {} Real)", nm);
                    let _ = writeln!(self.side, "(assert (= (* {} {}) {}))\n(assert (not (= {} 0.0)))", nm, ds, ns, ds);
                }
                nm
            }
            Atom::Abs(p) => {
                let nm = format!("b{}", a);
                if first {
                    let ps = self.poly(p);
                    let _ = writeln!(self.decl, "(define-fun {} () Real (ite (>= {} 0.0) {} (- {})))", nm, ps, ps, ps);
                }
                nm
            }
            Atom::FromInt(s, t) => {
                let nm = format!("i{}", a);
                if first {
                    self.term(t);
                    let w = term::width(t);
                    let x = self.rf(t);
                    let mut parts = vec![];
                    for b in 0..w {
                        let k = Rat::parse(&(1u128 << b).to_string()).unwrap();
                        let k = if s && b == w - 1 { k.neg() } else { k };
                        // skip bits known to be zero
                        let bt = term::extract(b, b, t);
                        if term::bconst(bt) == Some(0) { continue; }
                        parts.push(format!("(ite (= ((_ extract {} {}) {}) #b1) {} 0.0)", b, b, x, k.smt()));
                    }
                    let body = match parts.len() { 0 => "0.0".into(), 1 => parts[0].clone(), _ => format!("(+ {})", parts.join(" ")) };
                    let _ = writeln!(self.decl, "(define-fun {} () Real {})", nm, body);
                    self.bv = true;
                }
                nm
            }
        }
    }
    fn poly(&mut self, p: PolyId) -> String {
        if let Some(s) = self.poly_done.get(&p) { return s.clone(); }
        let q = poly::get(p);
        let mut terms = vec![];
        for (m, c) in q.iter() {
            let mut fs = vec![];
            if !c.is_one() || m.is_empty() { fs.push(c.smt()); }
            let mut deg = 0;
            for (a, e) in m.iter() { let n = self.atom(*a); for _ in 0..*e { fs.push(n.clone()); deg += 1; } }
            if deg > 1 { self.nonlin = true; }
            terms.push(if fs.len() == 1 { fs[0].clone() } else { format!("(* {})", fs.join(" ")) });
        }
        let s = match terms.len() { 0 => "0.0".to_string(), 1 => terms[0].clone(), _ => format!("(+ {})", terms.join(" ")) };
        let s = if s.len() > 40 { let _ = writeln!(self.decl, "(define-fun p{} () Real {})", p, s); format!("p{}", p) } else { s };
        self.poly_done.insert(p, s.clone());
        s
    }
    fn axioms(&mut self) {
        let ufs = self.ufs.clone();
        for (i, a) in ufs.iter().enumerate() {
            let Atom::Uf(u, args, v) = poly::atom(*a).clone() else { continue };
            let name = cx().uf_names[u as usize].clone();
            let x = if args.is_empty() { "0.0".into() } else { self.poly(args[0]) };
            let y = vname(v);
            if args.len() == 1 {
                if let Some(k) = poly::is_const(args[0]) {
                    // a constant argument: enclose the value
                    let xv = k.to_f64();
                    let yv = poly::host(&name, xv);
                    if yv.is_finite() {
                        let r = Rat::from_f64(yv);
                        let e = r.abs().mul(&Rat::parse("1/1000000000000").unwrap()).add(&Rat::parse(&format!("1/1{}", "0".repeat(30))).unwrap());
                        let _ = writeln!(self.side, "(assert (<= {} {y} {}))", r.sub(&e).smt(), r.add(&e).smt());
                    }
                }
            }
            match name.as_str() {
                "exp" => { let _ = writeln!(self.side, "(assert (> {y} 0.0))\n(assert (>= {y} (+ 1.0 {x})))\n(assert (=> (not (= {x} 0.0)) (> {y} (+ 1.0 {x}))))\n(assert (=> (= {x} 0.0) (= {y} 1.0)))\n(assert (=> (< {x} 1.0) (<= (* {y} (- 1.0 {x})) 1.0)))"); }
                "ln" => { let _ = writeln!(self.side, "(assert (<= {y} (- {x} 1.0)))\n(assert (=> (not (= {x} 1.0)) (< {y} (- {x} 1.0))))\n(assert (=> (= {x} 1.0) (= {y} 0.0)))\n(assert (>= (* {y} {x}) (- {x} 1.0)))"); }
                "round32" => { let _ = writeln!(self.side, "(assert (<= (* {y} {y}) (* 1.000001 {x} {x})))\n(assert (>= (* {y} {y}) (* 0.999999 {x} {x})))\n(assert (>= (* {y} {x}) 0.0))"); }
                "sin" | "cos" | "tanh" => { let _ = writeln!(self.side, "(assert (<= (- 1.0) {y} 1.0))"); }
                "sqrt" => { let _ = writeln!(self.side, "(assert (>= {y} 0.0))\n(assert (= (* {y} {y}) {x}))"); }
                _ => {}
            }
            for b in ufs[..i].iter() {
                let Atom::Uf(u2, args2, v2) = poly::atom(*b).clone() else { continue };
                if u2 != u || args2.len() != args.len() { continue; }
                let y2 = vname(v2);
                let mut eqs = vec![];
                for (p, q) in args.iter().zip(args2.iter()) { let (p, q) = (self.poly(*p), self.poly(*q)); eqs.push(format!("(= {} {})", p, q)); }
                let _ = writeln!(self.side, "(assert (=> (and true {}) (= {} {})))", eqs.join(" "), y, y2);
                if name == "exp" || name == "ln" || name == "sqrt" {
                    let x2 = self.poly(args2[0]);
                    let _ = writeln!(self.side, "(assert (=> (< {x} {x2}) (< {y} {y2})))\n(assert (=> (> {x} {x2}) (> {y} {y2})))");
                }
            }
        }
    }
}
/// syntactically positive denominators (products of nonzero absolute values and squares)
fn positive(p: PolyId) -> bool {
    let q = poly::get(p);
    q.iter().all(|(m, c)| c.sign() > 0 && m.iter().all(|(a, e)| e % 2 == 0 || poly::is_nonneg_atom(*a)))
}
fn fpc(b: u64) -> String {
    format!("(fp #b{} #b{:011b} #b{:052b})", b >> 63, (b >> 52) & 0x7ff, b & ((1u64 << 52) - 1))
}
/// the set of atoms a list of constraints mentions (for reporting)
pub fn atoms_of(cs: &[T]) -> usize {
    let mut s = BTreeSet::new();
    let mut ints = vec![];
    for c in cs { if let N::RCmp(_, p) = term::node(*c) { poly::collect_atoms(*p, &mut s, &mut ints); } }
    s.len()
}
