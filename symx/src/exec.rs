//! The symbolic executor: path exploration over the LLVM IR of the program under check.
use crate::ir::*;
use crate::mem::{Globals, Mem, MemErr};
use crate::poly::{self, PolyId};
use crate::rat::Rat;
use crate::solver::{Ans, Solver};
use crate::term::{self, BOp, Ev, FCmp, FOp, Fx, Model, ROp, Sort, Value, VarId, VSort, N, T};
use crate::val::V;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Debug)]
pub enum Stop { Dead(String), Panic(String), Error(String), Done, Switched, Time }
pub type R<X> = Result<X, Stop>;
impl From<MemErr> for Stop { fn from(e: MemErr) -> Stop { Stop::Error(format!("memory: {}", e.0)) } }

pub struct Cfg { pub real: bool, pub max_steps: u64, pub feas_ms: u64, pub assert_ms: u64, pub shard: (u64, u64), pub max_paths: u64, pub max_viol: usize, pub verbose: bool, pub deadline: f64, pub trace: bool, pub tokens: Option<(i32, i32)> }

#[derive(Clone)]
pub struct Frame { pub fi: u32, pub f: Rc<Func>, pub regs: Vec<V>, pub blk: u32, pub ip: u32, pub prev: u32, pub allocas: Vec<u64>, pub dst: u32, pub cont: u32 }

#[derive(Clone)]
pub enum Input { F64(String, VarId), U(String, VarId, u16), Choice(String, u64) }

#[derive(Clone, Default)]
pub struct Vfs { pub files: BTreeMap<String, Rc<Vec<V>>>, pub dirs: BTreeSet<String>, pub fds: Vec<Option<(String, usize, u64)>> }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<T>,
    pub known: Rc<HashMap<T, bool, Fx>>,
    pub doms: Rc<HashMap<VarId, [u64; 4], Fx>>,
    pub signs: Rc<HashMap<PolyId, u8, Fx>>,
    pub conc: Rc<HashMap<T, u64, Fx>>,
    pub model: Option<Rc<Model>>,
    pub tried: usize,
    pub inputs: Rc<Vec<Input>>,
    pub vfs: Rc<Vfs>,
    pub errno: u64,
    pub steps: u64,
    pub panic_ok: bool,
    pub pending: Option<u64>,
    pub nchoice: u32,
    pub nkeys: u64,
    pub depth: u32,
    pub hook: Option<Rc<HookData>>,
    pub tag: String,
    pub hash: Rc<HashMode>,
}
/// how hashes are treated: 0 all zero, 1 all zero and recorded, 2 a few keys of one table arbitrary, the others zero
#[derive(Clone, Default)]
pub struct HashMode { pub mode: u8, pub pick: Option<(usize, Vec<usize>)>, pub tables: Vec<(u64, Vec<u64>)>, pub vars: BTreeMap<u64, T> }
impl HashMode {
    /// every choice of up to `n` keys of one table
    pub fn picks(&self, n: usize) -> Vec<(usize, Vec<usize>)> {
        let mut o = vec![];
        for (t, (_, k)) in self.tables.iter().enumerate() {
            if n == 0 || k.len() < 2 { continue; } // one key alone has one order
            let n = n.min(k.len());
            let mut c: Vec<usize> = (0..n).collect();
            loop {
                o.push((t, c.clone()));
                let Some(p) = (0..n).rev().find(|p| c[*p] < k.len() - n + p) else { break };
                c[p] += 1;
                for q in p + 1..n { c[q] = c[q - 1] + 1; }
            }
        }
        o
    }
}
#[derive(Clone)]
pub struct HookData { pub ret: Vec<V> }

pub struct Viol { pub kind: String, pub msg: String, pub stack: Vec<String>, pub models: Vec<Vec<(String, String, String)>>, pub tag: String, pub confirmed: bool }

pub struct Exec {
    pub m: Module,
    pub g: Globals,
    pub cfg: Cfg,
    pub sol: Solver,
    pub stack: Vec<State>,
    pub viols: Vec<Viol>,
    pub children: Vec<i32>,
    pub is_child: bool,
    /// states not explored when the time was up
    pub left: u64,
    pub errors: Vec<String>,
    pub reach: BTreeMap<String, u64>,
    pub notes: BTreeMap<String, u64>,
    pub paths_done: u64, pub paths_dead: u64, pub paths_panic_ok: u64, pub forks: u64, pub steps: u64,
    pub asserts_solver: u64, pub asserts_triv: u64,
    pub fn_used: HashSet<u32>,
    pub insts: u64,
    hooks: HashMap<u32, u32>,
    pub carriers: HashMap<u64, PolyId>, carrier_of: HashMap<PolyId, u64>,
    dec_cache: HashMap<u64, PolyId>,
    tt_cache: HashMap<T, Rc<[u64; 4]>, Fx>,
    dom_cache: HashMap<(VarId, [u64; 4]), T>,
    pub t0: std::time::Instant,
    pub samples: Vec<String>,
    pub stopped: bool,
}

const SIGN: u64 = 1 << 63;

fn fint(x: f64) -> bool { x == x.trunc() && x.abs() < 1e15 }

impl Exec {
    pub fn new(m: Module, cfg: Cfg) -> Exec {
        let g = Globals::new(&m);
        Exec { m, g, cfg, sol: Solver::new(), stack: vec![], viols: vec![], children: vec![], is_child: false, left: 0, errors: vec![], reach: BTreeMap::new(), notes: BTreeMap::new(),
            paths_done: 0, paths_dead: 0, paths_panic_ok: 0, forks: 0, steps: 0, asserts_solver: 0, asserts_triv: 0, fn_used: HashSet::new(), insts: 0,
            hooks: HashMap::new(), carriers: HashMap::new(), carrier_of: HashMap::new(), dec_cache: HashMap::new(), tt_cache: HashMap::default(), dom_cache: HashMap::new(),
            t0: std::time::Instant::now(), samples: vec![], stopped: false }
    }

    // ---------------------------------------------------------------- facts
    /// truth table of a condition over one byte-sized variable
    fn tt(&mut self, c: T) -> Option<(VarId, Rc<[u64; 4]>)> {
        let vs = term::vars(c);
        if vs.len() != 1 { return None; }
        let v = vs[0];
        match term::cx().var_info[v as usize].sort { VSort::Bv(w) if w <= 8 => {} _ => return None }
        if let Some(t) = self.tt_cache.get(&c) { return Some((v, t.clone())); }
        let w = match term::cx().var_info[v as usize].sort { VSort::Bv(w) => w, _ => 8 };
        let mut out = [0u64; 4];
        for x in 0..(1u32 << w) {
            let mut m = Model::new();
            m.insert(v, Value::Bv(x as u128));
            let b = Ev::new(&m).b(c)?;
            if b { out[(x / 64) as usize] |= 1 << (x % 64); }
        }
        let r = Rc::new(out);
        self.tt_cache.insert(c, r.clone());
        Some((v, r))
    }
    pub fn dom(&self, st: &State, v: VarId) -> [u64; 4] {
        match st.doms.get(&v) { Some(d) => *d, None => { let w = match term::cx().var_info[v as usize].sort { VSort::Bv(w) => w, _ => 8 }; let mut o = [0u64; 4]; for x in 0..(1u32 << w.min(8)) { o[(x / 64) as usize] |= 1 << (x % 64); } o } }
    }
    fn dom_term(&mut self, v: VarId, d: [u64; 4]) -> T {
        if let Some(t) = self.dom_cache.get(&(v, d)) { return *t; }
        let w = match term::cx().var_info[v as usize].sort { VSort::Bv(w) => w, _ => 8 };
        let bt = term::bvar(w, v);
        let mut acc = term::fls();
        let n = 1u32 << w;
        let has = |x: u32| d[(x / 64) as usize] >> (x % 64) & 1 == 1;
        let mut x = 0;
        while x < n {
            if has(x) {
                let lo = x;
                while x + 1 < n && has(x + 1) { x += 1; }
                let r = if lo == x { term::eq(bt, term::bc(w, lo as u128)) } else { term::and(term::ule(term::bc(w, lo as u128), bt), term::ule(bt, term::bc(w, x as u128))) };
                acc = term::or(acc, r);
            }
            x += 1;
        }
        self.dom_cache.insert((v, d), acc);
        acc
    }
    fn sign_key(p: PolyId) -> (PolyId, bool) {
        let q = poly::get(p);
        let k = q[0].1.clone();
        let n = if k.is_one() { p } else { poly::scale(p, &Rat::one().div(&k)) };
        (n, k.sign() < 0)
    }
    /// possible signs of p: bit0 negative, bit1 zero, bit2 positive
    pub fn sign_mask(&self, st: &State, p: PolyId, depth: u32) -> u8 {
        let q = poly::get(p);
        if q.is_empty() { return 2; }
        let (key, flip) = Self::sign_key(p);
        let mut mask = 7u8;
        if let Some(m) = st.signs.get(&key) { mask &= if flip { rev(*m) } else { *m }; }
        if mask.count_ones() == 1 || depth > 6 { return mask; }
        // structural
        let mut acc = 2u8; // zero
        for (m, c) in q.iter() {
            let mut s = if c.sign() > 0 { 4u8 } else { 1 };
            for (a, e) in m.iter() {
                let am = match poly::atom(*a) {
                    poly::Atom::Var(_) => { let id = poly::atom_poly(*a); st.signs.get(&id).copied().unwrap_or(7) }
                    poly::Atom::Div(n, d) => { let id = poly::atom_poly(*a); let own = st.signs.get(&id).copied().unwrap_or(7); let x = self.sign_mask(st, *n, depth + 1); let y = self.sign_mask(st, *d, depth + 1) & 5; own & smul(x, y) }
                    poly::Atom::Uf(u, _, _) => { let id = poly::atom_poly(*a); let own = st.signs.get(&id).copied().unwrap_or(7); own & match term::cx().uf_names[*u as usize].as_str() { "exp" => 4, "sqrt" => 6, _ => 7 } }
                    poly::Atom::FromInt(s, _) => if *s { 7 } else { 6 },
                    poly::Atom::Abs(p2) => { let x = self.sign_mask(st, *p2, depth + 1); 6 & (if x & 2 == 0 { 4 } else if x == 2 { 2 } else { 6 }) }
                };
                let am = if e % 2 == 0 { smul(am, am) & 6 } else { am };
                let am = if e % 2 == 0 && am & 2 != 0 { am } else { am };
                s = smul(s, am);
            }
            acc = sadd(acc, s);
            if acc == 7 { break; }
        }
        mask & acc
    }
    fn rcmp_known(&self, st: &State, op: ROp, p: PolyId) -> Option<bool> {
        let m = self.sign_mask(st, p, 0);
        let want = match op { ROp::Gt => 4u8, ROp::Ge => 6, ROp::Eq => 2 };
        if m & !want == 0 { return Some(true); }
        if m & want == 0 { return Some(false); }
        None
    }
    pub fn add(&mut self, st: &mut State, c: T) {
        match term::node(c).clone() {
            N::True => return,
            N::And(a, b) => { self.add(st, a); self.add(st, b); return; }
            N::Not(x) => if let N::Or(a, b) = term::node(x).clone() { self.add(st, term::not(a)); self.add(st, term::not(b)); return; },
            _ => {}
        }
        let k = Rc::make_mut(&mut st.known);
        k.insert(c, true);
        k.insert(term::not(c), false);
        if let Some((v, t)) = self.tt(c) {
            let d = self.dom(st, v);
            let n = [d[0] & t[0], d[1] & t[1], d[2] & t[2], d[3] & t[3]];
            Rc::make_mut(&mut st.doms).insert(v, n);
            self.fix_model(st, c);
            return;
        }
        let (base, pos) = match term::node(c) { N::Not(x) => (*x, false), _ => (c, true) };
        if let N::RCmp(op, p) = term::node(base).clone() {
            let (key, flip) = Self::sign_key(p);
            let mut m = match op { ROp::Gt => 4u8, ROp::Ge => 6, ROp::Eq => 2 };
            if !pos { m = 7 & !m; }
            if flip { m = rev(m); }
            let e = Rc::make_mut(&mut st.signs).entry(key).or_insert(7);
            *e &= m;
        }
        st.pc.push(c);
        self.fix_model(st, c);
    }
    fn fix_model(&mut self, st: &mut State, c: T) {
        if let Some(m) = &st.model {
            if Ev::new(m).b(c) != Some(true) {
                // try a local repair of a single byte variable
                if let Some((v, _)) = self.tt(c) {
                    let d = self.dom(st, v);
                    let mut mm: Model = (**m).clone();
                    for x in 0..256u32 {
                        if d[(x / 64) as usize] >> (x % 64) & 1 == 1 {
                            mm.insert(v, Value::Bv(x as u128));
                            let ok = st.pc.iter().all(|t| !term::vars(*t).contains(&v) || Ev::new(&mm).b(*t) == Some(true));
                            if ok { st.model = Some(Rc::new(mm)); return; }
                        }
                    }
                }
                st.model = None;
            }
        }
    }
    /// constraints connected to `seed` through shared variables, domains included
    fn slice(&mut self, st: &State, seed: &[T]) -> Vec<T> {
        let mut vs: HashSet<VarId> = HashSet::new();
        for t in seed { vs.extend(term::vars(*t).iter()); }
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, c) in st.pc.iter().enumerate() {
                if used[i] { continue; }
                let cv = term::vars(*c);
                if cv.iter().any(|v| vs.contains(v)) { used[i] = true; ch = true; vs.extend(cv.iter()); out.push(*c); }
            }
            if !ch { break; }
        }
        let mut l: Vec<VarId> = vs.into_iter().collect();
        l.sort();
        for v in l { if let Some(d) = st.doms.get(&v).copied() { let t = self.dom_term(v, d); out.push(t); } }
        out.extend_from_slice(seed);
        out
    }
    fn merge(&self, st: &State, m: Option<Model>) -> Option<Rc<Model>> {
        let m = m?;
        let mut base: Model = match &st.model { Some(b) => (**b).clone(), None => return None };
        // values of function atoms computed under the old inputs are dropped
        base.extend(m);
        Some(Rc::new(base))
    }
    pub fn all_constraints(&mut self, st: &State) -> Vec<T> {
        let mut out = st.pc.clone();
        let d: Vec<(VarId, [u64; 4])> = st.doms.iter().map(|(a, b)| (*a, *b)).collect();
        for (v, d) in d { let t = self.dom_term(v, d); out.push(t); }
        out
    }
    fn ensure_model(&mut self, st: &mut State) {
        if st.model.is_some() || st.tried == st.pc.len() + 1 { return; }
        st.tried = st.pc.len() + 1;
        let cs = self.all_constraints(st);
        if let Ans::Sat(Some(m)) = self.sol.check(&cs, self.cfg.feas_ms, true, false) {
            let mut full = self.default_model(st);
            full.extend(m);
            let ok = cs.iter().all(|c| Ev::new(&full).b(*c) == Some(true));
            if ok { st.model = Some(Rc::new(full)); }
        }
    }
    fn default_model(&self, st: &State) -> Model {
        let mut m = Model::new();
        for (i, x) in st.inputs.iter().enumerate() {
            match x { Input::F64(_, v) => { m.insert(*v, Value::Real(default_real(i))); } Input::U(_, v, _) => { m.insert(*v, Value::Bv(0)); } _ => {} }
        }
        m
    }
    /// Branch decision; pushes the other side when both are possible.
    pub fn decide(&mut self, st: &mut State, c: T) -> R<bool> {
        if let Some(b) = term::boolconst(c) { return Ok(b); }
        if let Some(b) = st.known.get(&c) { return Ok(*b); }
        if let Some((v, t)) = self.tt(c) {
            let d = self.dom(st, v);
            let y = (0..4).any(|i| d[i] & t[i] != 0);
            let n = (0..4).any(|i| d[i] & !t[i] != 0);
            return match (y, n) {
                (true, false) => { Rc::make_mut(&mut st.known).insert(c, true); Ok(true) }
                (false, true) => { Rc::make_mut(&mut st.known).insert(c, false); Ok(false) }
                (false, false) => Err(Stop::Dead("empty domain".into())),
                _ => {
                    // other constraints may relate this variable to others
                    let linked = st.pc.iter().any(|p| term::vars(*p).contains(&v));
                    if linked { self.decide_solver(st, c) } else { self.fork(st, c); Ok(true) }
                }
            };
        }
        match term::node(c).clone() {
            N::Not(x) => return Ok(!self.decide(st, x)?),
            N::And(a, b) => return Ok(self.decide(st, a)? && self.decide(st, b)?),
            N::Or(a, b) => return Ok(self.decide(st, a)? || self.decide(st, b)?),
            N::RCmp(op, p) => if let Some(b) = self.rcmp_known(st, op, p) { Rc::make_mut(&mut st.known).insert(c, b); return Ok(b); },
            _ => {}
        }
        self.decide_solver(st, c)
    }
    fn fork(&mut self, st: &mut State, c: T) {
        let mut o = st.clone();
        self.forks += 1;
        o.depth += 1;
        st.depth += 1;
        self.add(&mut o, term::not(c));
        self.stack.push(o);
        self.add(st, c);
    }
    fn late(&self) -> bool { self.t0.elapsed().as_secs_f64() > self.cfg.deadline }
    fn decide_solver(&mut self, st: &mut State, c: T) -> R<bool> {
        if self.late() { return Err(Stop::Time); }
        if self.cfg.trace { eprintln!("decide at {}: {}", self.trace(st).join(" <- "), show_term(c)); }
        self.ensure_model(st);
        let nc = term::not(c);
        let ev = st.model.as_ref().and_then(|m| Ev::new(m).b(c));
        match ev {
            Some(b) => {
                let other = if b { nc } else { c };
                let q = self.slice(st, &[other]);
                match self.sol.check(&q, self.cfg.feas_ms, true, false) {
                    Ans::Unsat => { let k = Rc::make_mut(&mut st.known); k.insert(c, b); k.insert(nc, !b); return Ok(b); }
                    Ans::Sat(m) => {
                        let om = self.merge(st, m);
                        let mut o = st.clone();
                        self.forks += 1;
                        o.depth += 1;
                        st.depth += 1;
                        o.model = om;
                        self.add(&mut o, other);
                        self.stack.push(o);
                    }
                    Ans::Unknown => {
                        if self.late() { return Err(Stop::Time); }
                        if self.cfg.verbose { eprintln!("hard: {} at {}", show_term(c), self.trace(st).join(" <- ")); }
                        let mut o = st.clone();
                        self.forks += 1;
                        o.depth += 1;
                        st.depth += 1;
                        o.model = None;
                        self.add(&mut o, other);
                        self.stack.push(o);
                    }
                }
                self.add(st, if b { c } else { nc });
                Ok(b)
            }
            None => {
                let q1 = self.slice(st, &[c]);
                let a1 = self.sol.check(&q1, self.cfg.feas_ms, true, false);
                if let Ans::Unsat = a1 { let k = Rc::make_mut(&mut st.known); k.insert(c, false); k.insert(nc, true); return Ok(false); }
                let q2 = self.slice(st, &[nc]);
                let a2 = self.sol.check(&q2, self.cfg.feas_ms, true, false);
                if let Ans::Unsat = a2 { let k = Rc::make_mut(&mut st.known); k.insert(c, true); k.insert(nc, false); return Ok(true); }
                let m2 = match a2 { Ans::Sat(m) => self.merge(st, m), _ => None };
                let m1 = match a1 { Ans::Sat(m) => self.merge(st, m), _ => None };
                let mut o = st.clone();
                self.forks += 1;
                o.depth += 1;
                st.depth += 1;
                o.model = m2;
                self.add(&mut o, nc);
                self.stack.push(o);
                st.model = m1;
                self.add(st, c);
                Ok(true)
            }
        }
    }
    /// pick a concrete value for a bit-vector term, forking over the alternatives
    pub fn conc(&mut self, st: &mut State, t: T) -> R<u128> {
        if let Some(k) = term::bconst(t) { return Ok(k); }
        if term::cx().hash_tainted[t as usize] { return Ok(0); }
        let mut tried = [0u64; 4];
        for _ in 0..4096 {
            if let Some(k) = st.conc.get(&t) { return Ok(*k as u128); }
            let mut cand = None;
            let vs = term::vars(t);
            if vs.len() == 1 {
                if let VSort::Bv(w) = term::cx().var_info[vs[0] as usize].sort { if w <= 8 {
                    let d = self.dom(st, vs[0]);
                    if let Some(x) = (0..256u32).find(|x| (d[(*x / 64) as usize] & !tried[(*x / 64) as usize]) >> (x % 64) & 1 == 1) {
                        tried[(x / 64) as usize] |= 1 << (x % 64);
                        let mut m = Model::new();
                        m.insert(vs[0], Value::Bv(x as u128));
                        cand = Ev::new(&m).v(t);
                    }
                } }
            }
            if cand.is_none() {
                self.ensure_model(st);
                if let Some(m) = &st.model { cand = Ev::new(m).v(t); }
            }
            let Some(k) = cand else { return Err(Stop::Error("cannot concretise a value".into())) };
            let e = term::eq(t, term::bc(term::width(t), k));
            if self.decide(st, e)? {
                Rc::make_mut(&mut st.conc).insert(t, k as u64);
                return Ok(k);
            }
        }
        Err(Stop::Error("too many values to concretise".into()))
    }
    fn addr(&mut self, st: &mut State, v: &V) -> R<u64> {
        match v {
            V::I(a) => Ok(*a),
            V::B(t) => Ok(self.conc(st, *t)? as u64),
            _ => Err(Stop::Error("bad address".into())),
        }
    }
    pub fn int(&mut self, st: &mut State, v: &V) -> R<u64> {
        match v {
            V::I(a) => Ok(*a),
            V::B(t) => { let t = if term::sort(*t) == Sort::Bool { term::to_bv(*t) } else { *t }; Ok(self.conc(st, t)? as u64) }
            V::R(_) => self.carrier(st, v),
            V::F(_) => Err(Stop::Error("integer use of a float term".into())),
            _ => Err(Stop::Error("bad integer".into())),
        }
    }
    pub fn cond(&mut self, st: &mut State, v: &V) -> R<bool> {
        match v { V::I(k) => Ok(k & 1 != 0), v => { let c = v.boolt(); self.decide(st, c) } }
    }

    // ---------------------------------------------------------------- reals
    /// the real number a concrete double stands for: its shortest decimal
    pub fn dec(&mut self, bits: u64) -> PolyId {
        if let Some(p) = self.carriers.get(&bits) { return *p; }
        if let Some(p) = self.dec_cache.get(&bits) { return *p; }
        let d = f64::from_bits(bits);
        let r = if fint(d) { Rat::int(d as i64) } else { crate::solver::parse_dec(&format!("{:e}", d)).unwrap() };
        let p = poly::constant(r);
        self.dec_cache.insert(bits, p);
        p
    }
    pub fn of_poly(&mut self, p: PolyId) -> V {
        if let Some(k) = poly::is_const(p) {
            let d = k.to_f64();
            if d.is_finite() && !self.carriers.contains_key(&d.to_bits()) {
                let d = if d == 0.0 { 0.0 } else { d };
                if self.dec(d.to_bits()) == p { return V::I(d.to_bits()); }
            }
        }
        V::R(p)
    }
    pub fn carrier_bits(&mut self, p: PolyId) -> u64 {
        if let Some(b) = self.carrier_of.get(&p) { return *b; }
        let k = self.carrier_of.len();
        // nine decimals, so that the usual print precision keeps it intact
        let d: f64 = format!("{}.141592653", 3_000_000 + k).parse().unwrap();
        self.carrier_of.insert(p, d.to_bits());
        self.carriers.insert(d.to_bits(), p);
        d.to_bits()
    }
    fn printing(&self, st: &State) -> bool {
        st.frames.iter().rev().take(3).any(|f| { let n = &self.m.fns[f.fi as usize].pretty; n.contains("fmt") || n.contains("flt2dec") })
    }
    fn carrier(&mut self, st: &State, v: &V) -> R<u64> {
        let V::R(p) = v else { return Err(Stop::Error("carrier".into())) };
        let ok = st.frames.iter().rev().take(6).any(|f| { let n = &self.m.fns[f.fi as usize].pretty; n.contains("fmt") || n.contains("flt2dec") || n.contains("dec2flt") || n.contains("harness") || n.contains("fmt_f64") });
        if !ok { return Err(Stop::Error(format!("bits of a real value used in {}", self.m.fns[st.frames.last().unwrap().fi as usize].pretty))); }
        Ok(self.carrier_bits(*p))
    }
    /// special (nan/inf) or polynomial
    fn real(&mut self, v: &V) -> R<Result<PolyId, f64>> {
        match v {
            V::R(p) => Ok(Ok(*p)),
            V::I(b) => { let d = f64::from_bits(*b); if d.is_finite() { Ok(Ok(self.dec(*b))) } else { Ok(Err(d)) } }
            V::B(t) => {
                if let Some(k) = term::bconst(*t) { return self.real(&V::I(k as u64)); }
                Err(Stop::Error("real use of a symbolic bit pattern".into()))
            }
            _ => Err(Stop::Error("real use of non-float".into())),
        }
    }
    fn fp(&self, v: &V) -> T {
        match v { V::I(b) => term::fc(*b), V::F(t) => *t, V::B(t) => term::fvar(*t), _ => panic!("fp use of {:?}", v) }
    }
    fn is_sym(v: &V) -> bool { !matches!(v, V::I(_)) }
    fn plain(&self, b: u64) -> bool { let d = f64::from_bits(b); fint(d) && d.abs() < 1e6 }

    pub fn fbin(&mut self, st: &mut State, op: FOp, a: &V, b: &V) -> R<V> {
        if !self.cfg.real {
            if let (V::I(x), V::I(y)) = (a, b) { return Ok(V::I(term::eval_fbin(op, f64::from_bits(*x), f64::from_bits(*y)).to_bits())); }
            return Ok(V::off(term::fbin(op, self.fp(a), self.fp(b))));
        }
        if let (V::I(x), V::I(y)) = (a, b) {
            if self.plain(*x) && self.plain(*y) && !matches!(op, FOp::Div | FOp::Rem) {
                let r = term::eval_fbin(op, f64::from_bits(*x), f64::from_bits(*y));
                return Ok(V::I((if r == 0.0 { 0.0 } else { r }).to_bits()));
            }
        }
        let (x, y) = (self.real(a)?, self.real(b)?);
        let (p, q) = match (x, y) {
            (Ok(p), Ok(q)) => (p, q),
            (Err(d), Err(e)) => return Ok(V::I(term::eval_fbin(op, d, e).to_bits())),
            (Err(d), Ok(q)) => {
                if d.is_nan() { return Ok(V::I(d.to_bits())); }
                return Ok(V::I(match op {
                    FOp::Add | FOp::Sub => d,
                    FOp::Mul | FOp::Div => {
                        let z = self.decide(st, poly::cmp_term(ROp::Eq, q))?;
                        if z && op == FOp::Mul { f64::NAN } else if z { d } else if self.decide(st, poly::cmp_term(ROp::Gt, q))? { d } else { -d }
                    }
                    FOp::Rem => f64::NAN,
                }.to_bits()));
            }
            (Ok(p), Err(e)) => {
                if e.is_nan() { return Ok(V::I(e.to_bits())); }
                return Ok(match op {
                    FOp::Add => V::I(e.to_bits()),
                    FOp::Sub => V::I((-e).to_bits()),
                    FOp::Mul => {
                        let z = self.decide(st, poly::cmp_term(ROp::Eq, p))?;
                        V::I((if z { f64::NAN } else if self.decide(st, poly::cmp_term(ROp::Gt, p))? { e } else { -e }).to_bits())
                    }
                    FOp::Div => V::I(0),
                    FOp::Rem => self.of_poly(p),
                });
            }
        };
        let r = match op {
            FOp::Add => poly::add(p, q),
            FOp::Sub => poly::sub(p, q),
            FOp::Mul => poly::mul(p, q),
            FOp::Div => {
                if self.decide(st, poly::cmp_term(ROp::Eq, q))? {
                    if self.decide(st, poly::cmp_term(ROp::Eq, p))? { return Ok(V::I(f64::NAN.to_bits())); }
                    return Ok(V::I((if self.decide(st, poly::cmp_term(ROp::Gt, p))? { f64::INFINITY } else { f64::NEG_INFINITY }).to_bits()));
                }
                poly::div(p, q)
            }
            FOp::Rem => {
                if self.decide(st, poly::cmp_term(ROp::Eq, q))? { return Ok(V::I(f64::NAN.to_bits())); }
                // x = k*y + r with k = trunc(x/y)
                let ratio = poly::div(p, q);
                let k = self.trunc_conc(st, ratio)?;
                poly::sub(p, poly::scale(q, &k))
            }
        };
        Ok(self.of_poly(r))
    }
    /// concrete integer part (towards zero) of a real, forking over the feasible values
    fn trunc_conc(&mut self, st: &mut State, p: PolyId) -> R<Rat> {
        if let Some(k) = poly::is_const(p) { return Ok(if k.sign() < 0 { k.neg().floor().neg() } else { k.floor() }); }
        for _ in 0..64 {
            self.ensure_model(st);
            // candidates: known facts first
            let mut cand = None;
            if let Some(m) = &st.model { cand = poly::eval(p, &mut Ev::new(m)); }
            let Some(x) = cand else { return Err(Stop::Error("integer part: no model".into())) };
            let k = if x.sign() < 0 { x.neg().floor().neg() } else { x.floor() };
            let kp = poly::constant(k.clone());
            let d = poly::sub(p, kp); // 0 <= d < 1 (k>0), -1 < d <= 0 (k<0), -1<d<1 (k=0)
            let one = poly::constant(Rat::one());
            let lo = if k.sign() > 0 { poly::cmp_term(ROp::Ge, d) } else { poly::cmp_term(ROp::Gt, poly::add(d, one)) };
            let hi = if k.sign() < 0 { poly::cmp_term(ROp::Ge, poly::neg(d)) } else { poly::cmp_term(ROp::Gt, poly::sub(one, d)) };
            if self.decide(st, lo)? && self.decide(st, hi)? { return Ok(k); }
        }
        Err(Stop::Error("integer part: too many values".into()))
    }
    pub fn fneg(&mut self, v: &V) -> R<V> {
        if let V::I(b) = v { if !self.cfg.real || !f64::from_bits(*b).is_finite() || self.plain(*b) { return Ok(V::I(b ^ SIGN)); } }
        if !self.cfg.real { return Ok(V::off(term::fneg(self.fp(v)))); }
        match self.real(v)? { Ok(p) => { let r = poly::neg(p); Ok(self.of_poly(r)) } Err(d) => Ok(V::I((-d).to_bits())) }
    }
    pub fn fabs(&mut self, st: &mut State, v: &V) -> R<V> {
        if let V::I(b) = v { if !self.carriers.contains_key(b) { return Ok(V::I(b & !SIGN)); } }
        if !self.cfg.real { return Ok(V::off(term::fabs(self.fp(v)))); }
        match self.real(v)? {
            Ok(p) => {
                let m = self.sign_mask(st, p, 0);
                let r = if m & 1 == 0 { p } else if m & 4 == 0 { poly::neg(p) } else { poly::abs(p) };
                Ok(self.of_poly(r))
            }
            Err(d) => Ok(V::I(d.abs().to_bits())),
        }
    }
    /// a real rounded to a float, as an uninterpreted function; the value stands for the f32 until it is widened
    fn round32(&mut self, p: PolyId) -> V {
        if let Some(k) = poly::is_const(p) { return V::I((k.to_f64() as f32).to_bits() as u64); }
        if poly::as_uf(p, "round32").is_some() { return V::R(p); }
        V::R(poly::uf("round32", &[p]))
    }
    pub fn rcmp(&mut self, op: ROp, p: PolyId) -> T { poly::cmp_term(op, p) }
    pub fn fcmp(&mut self, pr: FPred, a: &V, b: &V) -> R<V> {
        if pr == FPred::True { return Ok(V::I(1)); }
        if pr == FPred::False { return Ok(V::I(0)); }
        let conc = |x: f64, y: f64| -> bool {
            let un = x.is_nan() || y.is_nan();
            match pr {
                FPred::Oeq => x == y, FPred::Ogt => x > y, FPred::Oge => x >= y, FPred::Olt => x < y, FPred::Ole => x <= y, FPred::One => !un && x != y, FPred::Ord => !un,
                FPred::Ueq => un || x == y, FPred::Ugt => un || x > y, FPred::Uge => un || x >= y, FPred::Ult => un || x < y, FPred::Ule => un || x <= y, FPred::Une => x != y, FPred::Uno => un,
                FPred::True => true, FPred::False => false,
            }
        };
        if let (V::I(x), V::I(y)) = (a, b) {
            if !self.cfg.real || (!self.carriers.contains_key(x) && !self.carriers.contains_key(y)) { return Ok(V::boolv(conc(f64::from_bits(*x), f64::from_bits(*y)))); }
        }
        if self.cfg.real {
            let (x, y) = (self.real(a)?, self.real(b)?);
            let (p, q) = match (x, y) {
                (Ok(p), Ok(q)) => (p, q),
                (Err(d), Err(e)) => return Ok(V::boolv(conc(d, e))),
                (Err(d), Ok(_)) => return Ok(V::boolv(conc(d, 0.0))),
                (Ok(_), Err(e)) => return Ok(V::boolv(conc(0.0, e))),
            };
            let d = poly::sub(p, q);
            let n = |e: &Exec, op, x| { let _ = e; poly::cmp_term(op, x) };
            let t = match pr {
                FPred::Oeq | FPred::Ueq => n(self, ROp::Eq, d),
                FPred::One | FPred::Une => term::not(n(self, ROp::Eq, d)),
                FPred::Ogt | FPred::Ugt => n(self, ROp::Gt, d),
                FPred::Oge | FPred::Uge => n(self, ROp::Ge, d),
                FPred::Olt | FPred::Ult => n(self, ROp::Gt, poly::neg(d)),
                FPred::Ole | FPred::Ule => n(self, ROp::Ge, poly::neg(d)),
                FPred::Ord => term::tru(),
                FPred::Uno => term::fls(),
                _ => unreachable!(),
            };
            return Ok(V::of(t));
        }
        let (x, y) = (self.fp(a), self.fp(b));
        let un = || term::or(term::fnan(x), term::fnan(y));
        let t = match pr {
            FPred::Oeq => term::fcmp(FCmp::Eq, x, y),
            FPred::Une => term::not(term::fcmp(FCmp::Eq, x, y)),
            FPred::Ogt => term::fcmp(FCmp::Lt, y, x),
            FPred::Oge => term::fcmp(FCmp::Le, y, x),
            FPred::Olt => term::fcmp(FCmp::Lt, x, y),
            FPred::Ole => term::fcmp(FCmp::Le, x, y),
            FPred::Ult => term::not(term::fcmp(FCmp::Le, y, x)),
            FPred::Ule => term::not(term::fcmp(FCmp::Lt, y, x)),
            FPred::Ugt => term::not(term::fcmp(FCmp::Le, x, y)),
            FPred::Uge => term::not(term::fcmp(FCmp::Lt, x, y)),
            FPred::Ord => term::not(un()),
            FPred::Uno => un(),
            FPred::One => term::and(term::not(un()), term::not(term::fcmp(FCmp::Eq, x, y))),
            FPred::Ueq => term::or(un(), term::fcmp(FCmp::Eq, x, y)),
            _ => unreachable!(),
        };
        Ok(V::of(t))
    }
    /// transcendental functions
    pub fn fun1(&mut self, st: &mut State, name: &str, v: &V) -> R<V> {
        let host = |x: f64| match name { "exp" => x.exp(), "ln" => x.ln(), "sin" => x.sin(), "cos" => x.cos(), "sqrt" => x.sqrt(), "tan" => x.tan(), "log10" => x.log10(), "log2" => x.log2(), "exp2" => x.exp2(), "tanh" => x.tanh(), "sinh" => x.sinh(), "cosh" => x.cosh(), "expm1" => x.exp_m1(), "log1p" => x.ln_1p(), "atan" => x.atan(), "floor" => x.floor(), "ceil" => x.ceil(), "trunc" => x.trunc(), "round" => x.round(), "rint" => x.round_ties_even(), _ => f64::NAN };
        if !self.cfg.real {
            if let V::I(b) = v { return Ok(V::I(host(f64::from_bits(*b)).to_bits())); }
            if name == "sqrt" { return Ok(V::off(term::fsqrt(self.fp(v)))); }
            return Ok(V::off(term::fuf(name, vec![self.fp(v)])));
        }
        let p = match self.real(v)? { Ok(p) => p, Err(d) => return Ok(V::I(host(d).to_bits())) };
        match name {
            "floor" | "ceil" | "trunc" | "round" | "rint" => {
                let t = self.trunc_conc(st, p)?;
                let tp = poly::constant(t.clone());
                let d = poly::sub(p, tp);
                let r = match name {
                    "trunc" => t,
                    "floor" => if self.decide(st, poly::cmp_term(ROp::Gt, poly::neg(d)))? { t.sub(&Rat::one()) } else { t },
                    "ceil" => if self.decide(st, poly::cmp_term(ROp::Gt, d))? { t.add(&Rat::one()) } else { t },
                    _ => {
                        let half = poly::constant(Rat::parse("1/2").unwrap());
                        if self.decide(st, poly::cmp_term(ROp::Ge, poly::sub(d, half)))? { t.add(&Rat::one()) }
                        else if self.decide(st, poly::cmp_term(ROp::Ge, poly::sub(poly::neg(d), half)))? { t.sub(&Rat::one()) } else { t }
                    }
                };
                let r = poly::constant(r);
                return Ok(self.of_poly(r));
            }
            "exp" => {
                if poly::is_const(p).map_or(false, |k| k.is_zero()) { return Ok(V::I(1.0f64.to_bits())); }
                if let Some(a) = poly::as_uf(p, "ln") { return Ok(self.of_poly(a)); }
            }
            "ln" => {
                if poly::is_const(p).map_or(false, |k| k.is_one()) { return Ok(V::I(0)); }
                if self.decide(st, poly::cmp_term(ROp::Eq, p))? { return Ok(V::I(f64::NEG_INFINITY.to_bits())); }
                if !self.decide(st, poly::cmp_term(ROp::Gt, p))? { return Ok(V::I(f64::NAN.to_bits())); }
                if let Some(a) = poly::as_uf(p, "exp") { return Ok(self.of_poly(a)); }
            }
            "sqrt" => {
                if poly::is_const(p).map_or(false, |k| k.is_zero()) { return Ok(V::I(0)); }
                if self.decide(st, poly::cmp_term(ROp::Gt, poly::neg(p)))? { return Ok(V::I(f64::NAN.to_bits())); }
            }
            "sin" => {
                if poly::is_const(p).map_or(false, |k| k.is_zero()) { return Ok(V::I(0)); }
                // odd function: canonical sign of the argument
                if poly::get(p)[0].1.sign() < 0 { let a = poly::uf("sin", &[poly::neg(p)]); let r = poly::neg(a); return Ok(self.of_poly(r)); }
            }
            "cos" => {
                if poly::is_const(p).map_or(false, |k| k.is_zero()) { return Ok(V::I(1.0f64.to_bits())); }
                if poly::get(p)[0].1.sign() < 0 { let a = poly::uf("cos", &[poly::neg(p)]); return Ok(self.of_poly(a)); }
            }
            "expm1" => { let e = self.fun1(st, "exp", v)?; return self.fbin(st, FOp::Sub, &e, &V::I(1.0f64.to_bits())); }
            "log1p" => { let x = self.fbin(st, FOp::Add, v, &V::I(1.0f64.to_bits()))?; return self.fun1(st, "ln", &x); }
            _ => {}
        }
        let a = poly::uf(name, &[p]);
        Ok(self.of_poly(a))
    }
    pub fn powi(&mut self, st: &mut State, v: &V, n: i64) -> R<V> {
        if !self.cfg.real { if let V::I(b) = v { return Ok(V::I(f64::from_bits(*b).powi(n as i32).to_bits())); } }
        let mut r = V::I(1.0f64.to_bits());
        if n.abs() > 64 { return Err(Stop::Error("powi exponent".into())); }
        for _ in 0..n.abs() { r = self.fbin(st, FOp::Mul, &r, v)?; }
        if n < 0 { r = self.fbin(st, FOp::Div, &V::I(1.0f64.to_bits()), &r)?; }
        Ok(r)
    }
    pub fn fminmax(&mut self, st: &mut State, max: bool, a: &V, b: &V) -> R<V> {
        for (x, y) in [(a, b), (b, a)] { if let V::I(k) = x { if f64::from_bits(*k).is_nan() { return Ok(y.clone()); } } }
        if !self.cfg.real {
            let (x, y) = (self.fp(a), self.fp(b));
            let c = if max { term::fcmp(FCmp::Lt, x, y) } else { term::fcmp(FCmp::Lt, y, x) };
            let r = term::ite(term::fnan(x), y, term::ite(term::fnan(y), x, term::ite(c, y, x)));
            return Ok(V::off(r));
        }
        if let (V::R(p), V::R(q)) = (a, b) { if *p == poly::neg(*q) {
            let m = self.fabs(st, a)?;
            return if max { Ok(m) } else { self.fneg(&m) };
        } }
        let c = self.fcmp(if max { FPred::Olt } else { FPred::Ogt }, a, b)?;
        Ok(if self.cond(st, &c)? { b.clone() } else { a.clone() })
    }
    fn fptoint(&mut self, st: &mut State, signed: bool, w: u16, sat: bool, v: &V) -> R<V> {
        let conc = |d: f64| -> V {
            let k: i128 = if d.is_nan() { 0 } else { d as i128 };
            let (lo, hi) = if signed { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, if w >= 127 { i128::MAX } else { (1i128 << w) - 1 }) };
            let k = if sat { k.clamp(lo, hi) } else { k };
            V::int(w, k as u128)
        };
        if let V::I(b) = v { if !self.carriers.contains_key(b) { return Ok(conc(f64::from_bits(*b))); } }
        if !self.cfg.real { return Err(Stop::Error("float to int of a term".into())); }
        match self.real(v)? {
            Err(d) => Ok(conc(d)),
            Ok(p) => { let k = self.trunc_conc(st, p)?; Ok(conc(k.to_f64())) }
        }
    }

    // ---------------------------------------------------------------- integer operations
    fn ibin(&mut self, st: &mut State, op: BOp, w: u16, a: &V, b: &V) -> R<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            if w == 64 {
                let r = match op {
                    BOp::Add => x.wrapping_add(*y), BOp::Sub => x.wrapping_sub(*y), BOp::Mul => x.wrapping_mul(*y), BOp::And => x & y, BOp::Or => x | y, BOp::Xor => x ^ y,
                    BOp::Shl if *y < 64 => x << y, BOp::LShr if *y < 64 => x >> y,
                    BOp::UDiv if *y != 0 => x / y, BOp::URem if *y != 0 => x % y,
                    _ => { return match term::eval_bin(op, w, *x as u128, *y as u128) { Some(r) => Ok(V::int(w, r)), None => Err(Stop::Error("division by zero".into())) } }
                };
                return Ok(V::I(r));
            }
            return match term::eval_bin(op, w, *x as u128, *y as u128) { Some(r) => Ok(V::int(w, r)), None => Err(Stop::Error("division by zero".into())) };
        }
        for (x, y) in [(a, b), (b, a)] {
            if let V::R(_) = x {
                if let V::I(k) = y {
                    match op {
                        BOp::And if *k == !SIGN => return self.fabs(st, x),
                        BOp::Xor if *k == SIGN => return self.fneg(x),
                        // printed text stands for the value, sign included
                        BOp::And | BOp::LShr if (op == BOp::And && *k == SIGN || op == BOp::LShr && *k == 63) && self.printing(st) => return Ok(V::I(0)),
                        BOp::And if *k == SIGN => { let c = self.fcmp(FPred::Olt, x, &V::I(0))?; let n = self.cond(st, &c)?; return Ok(V::I(if n { SIGN } else { 0 })); }
                        BOp::Or if *k == SIGN => { let r = self.fabs(st, x)?; return self.fneg(&r); }
                        // f64::total_cmp: the key of a negative value has its other bits flipped; keys order as values
                        BOp::AShr if *k == 63 => { let c = self.fcmp(FPred::Olt, x, &V::I(0))?; let n = self.cond(st, &c)?; return Ok(V::I(if n { !0 } else { 0 })); }
                        BOp::Xor if *k == 0 || *k == !SIGN => return Ok(x.clone()),
                        BOp::LShr if *k == 63 => { let c = self.fcmp(FPred::Olt, x, &V::I(0))?; let n = self.cond(st, &c)?; return Ok(V::I(n as u64)); }
                        _ => {}
                    }
                }
                let c = self.carrier(st, x)?;
                return if std::ptr::eq(x, a) { self.ibin(st, op, w, &V::I(c), b) } else { self.ibin(st, op, w, a, &V::I(c)) };
            }
        }
        if let (V::W(_), _) | (_, V::W(_)) = (a, b) {
            if let (Some(x), Some(y)) = (cint(a), cint(b)) {
                return match term::eval_bin(op, w, x, y) { Some(r) => Ok(V::int(w, r)), None => Err(Stop::Error("division by zero".into())) };
            }
        }
        if w == 1 {
            let (x, y) = (a.boolt(), b.boolt());
            return Ok(V::of(match op { BOp::And | BOp::Mul => term::and(x, y), BOp::Or => term::or(x, y), BOp::Xor | BOp::Add | BOp::Sub => term::xor_bool(x, y), _ => return Err(Stop::Error("i1 op".into())) }));
        }
        if let (V::F(_), _) | (_, V::F(_)) = (a, b) {
            for (x, y) in [(a, b), (b, a)] { if let (V::F(t), V::I(k)) = (x, y) { match op { BOp::And if *k == !SIGN => return Ok(V::off(term::fabs(*t))), BOp::Xor if *k == SIGN => return Ok(V::off(term::fneg(*t))), _ => {} } } }
        }
        if matches!(op, BOp::UDiv | BOp::URem | BOp::SDiv | BOp::SRem) {
            if let V::B(_) = b { let t = b.bv(w); let k = self.conc(st, t)?; if k == 0 { return Err(Stop::Error("division by zero".into())); } return self.ibin(st, op, w, a, &V::int(w, k)); }
        }
        if op == BOp::And && w == 64 && st.hash.mode != 0 {
            for (x, y) in [(a, b), (b, a)] {
                if let (V::B(t), V::I(m)) = (x, y) {
                    if let term::N::HashAny(_, d, g) = term::node(*t) { return self.hash_position(st, *d, *g, *m); }
                }
            }
        }
        let r = term::bin(op, a.bv(w), b.bv(w));
        Ok(V::of(r))
    }
    /// the position of a key in its table
    fn hash_position(&mut self, st: &mut State, d: u64, g: u64, m: u64) -> R<V> {
        let h = Rc::make_mut(&mut st.hash);
        let ti = match h.tables.iter().position(|t| t.0 == g) { Some(i) => i, None => { h.tables.push((g, vec![])); h.tables.len() - 1 } };
        let ki = match h.tables[ti].1.iter().position(|k| *k == d) { Some(i) => i, None => { h.tables[ti].1.push(d); h.tables[ti].1.len() - 1 } };
        let picked = h.mode == 2 && h.pick.as_ref().map_or(false, |(t, c)| *t == ti && c.contains(&ki));
        if !picked { return Ok(V::I(0)); }
        let v = match h.vars.get(&d) {
            Some(v) => *v,
            None => {
                let n = format!("hash_{}", ki);
                let x = term::new_var(&n, VSort::Bv(64));
                Rc::make_mut(&mut st.inputs).push(Input::U(n, x, 64));
                let v = term::bvar(64, x);
                h.vars.insert(d, v);
                v
            }
        };
        let t = term::bin(BOp::And, v, term::bc(64, m as u128));
        Ok(V::I(self.conc(st, t)? as u64))
    }
    fn icmp(&mut self, st: &mut State, pr: IPred, w: u16, a: &V, b: &V) -> R<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (sx, sy) = if w == 64 { (*x as i64, *y as i64) } else { (term::sext_val(w, *x as u128) as i64, term::sext_val(w, *y as u128) as i64) };
            return Ok(V::boolv(match pr { IPred::Eq => x == y, IPred::Ne => x != y, IPred::Ugt => x > y, IPred::Uge => x >= y, IPred::Ult => x < y, IPred::Ule => x <= y, IPred::Sgt => sx > sy, IPred::Sge => sx >= sy, IPred::Slt => sx < sy, IPred::Sle => sx <= sy }));
        }
        if let (V::R(_), V::I(k)) = (a, b) {
            // sign and class tests on the bits of a real
            match (pr, *k) {
                (IPred::Slt, 0) => return self.fcmp(FPred::Olt, a, &V::I(0)),
                (IPred::Sgt, k) if k == u64::MAX => return self.fcmp(FPred::Oge, a, &V::I(0)),
                (IPred::Eq, 0) => return self.fcmp(FPred::Oeq, a, &V::I(0)),
                (IPred::Ne, 0) => return self.fcmp(FPred::Une, a, &V::I(0)),
                (IPred::Ult, 0x7ff0000000000000) | (IPred::Ule, 0x7ff0000000000000) => return Ok(V::I(1)),
                (IPred::Ugt, 0x7ff0000000000000) | (IPred::Uge, 0x7ff0000000000000) | (IPred::Eq, 0x7ff0000000000000) | (IPred::Ugt, 0x7fefffffffffffff) => return Ok(V::I(0)),
                (IPred::Ne, 0x7ff0000000000000) => return Ok(V::I(1)),
                _ => {}
            }
        }
        // two values compared by their bits (equality) or by their total_cmp keys (signed order)
        if self.cfg.real && w == 64 && matches!((a, b), (V::R(_), V::R(_) | V::I(_)) | (V::I(_), V::R(_))) && !self.printing(st) {
            let key = |v: &V| if let V::I(k) = v { let k = if (*k as i64) < 0 && !matches!(pr, IPred::Eq | IPred::Ne) { *k ^ !SIGN } else { *k }; V::I(if k == SIGN { 0 } else { k }) } else { v.clone() };
            let fp = match pr { IPred::Eq => Some(FPred::Oeq), IPred::Ne => Some(FPred::Une), IPred::Slt => Some(FPred::Olt), IPred::Sle => Some(FPred::Ole), IPred::Sgt => Some(FPred::Ogt), IPred::Sge => Some(FPred::Oge), _ => None };
            if let Some(fp) = fp { let (x, y) = (key(a), key(b)); return self.fcmp(fp, &x, &y); }
        }
        if let V::R(_) = a { let c = self.carrier(st, a)?; return self.icmp(st, pr, w, &V::I(c), b); }
        if let V::R(_) = b { let c = self.carrier(st, b)?; return self.icmp(st, pr, w, a, &V::I(c)); }
        if w == 1 {
            let (x, y) = (a.boolt(), b.boolt());
            return Ok(V::of(match pr {
                IPred::Eq => term::eq(x, y), IPred::Ne => term::xor_bool(x, y),
                IPred::Ugt | IPred::Slt => term::and(x, term::not(y)), IPred::Ult | IPred::Sgt => term::and(term::not(x), y),
                IPred::Uge | IPred::Sle => term::or(x, term::not(y)), IPred::Ule | IPred::Sge => term::or(term::not(x), y),
            }));
        }
        let (x, y) = (a.bv(w), b.bv(w));
        Ok(V::of(match pr {
            IPred::Eq => term::eq(x, y), IPred::Ne => term::not(term::eq(x, y)),
            IPred::Ugt => term::ult(y, x), IPred::Uge => term::ule(y, x), IPred::Ult => term::ult(x, y), IPred::Ule => term::ule(x, y),
            IPred::Sgt => term::slt(y, x), IPred::Sge => term::sle(y, x), IPred::Slt => term::slt(x, y), IPred::Sle => term::sle(x, y),
        }))
    }
    fn cast(&mut self, st: &mut State, c: Cast, from: &Ty, to: &Ty, v: &V) -> R<V> {
        if let (Ty::Vector(n, ef), Ty::Vector(n2, et)) = (from, to) {
            if n == n2 && c != Cast::BitCast {
                let V::A(a) = v else { return Err(Stop::Error("vector cast".into())) };
                let mut o = vec![];
                for x in a.iter() { o.push(self.cast(st, c, ef, et, x)?); }
                return Ok(V::A(Rc::new(o)));
            }
        }
        match c {
            Cast::Trunc => {
                let w = to.width();
                Ok(match v { V::I(k) => V::int(w, *k as u128), V::W(k) => V::int(w, **k), V::R(_) => { let k = self.carrier(st, v)?; V::int(w, k as u128) } v => { let t = v.bv(from.width()); let r = term::extract(w - 1, 0, t); if w == 1 { V::of(term::to_bool(r)) } else { V::of(r) } } })
            }
            Cast::ZExt => { let (wf, w) = (from.width(), to.width()); Ok(match v { V::I(k) => V::int(w, *k as u128), V::W(k) => V::int(w, **k), v => V::of(term::zext(w, v.bv(wf))) }) }
            Cast::SExt => { let (wf, w) = (from.width(), to.width()); Ok(match v { V::I(k) => V::int(w, term::sext_val(wf, *k as u128) as u128), V::W(k) => V::int(w, term::sext_val(wf, **k) as u128), v => V::of(term::sext(w, v.bv(wf))) }) }
            Cast::PtrToInt | Cast::IntToPtr => { let w = if c == Cast::PtrToInt { to.width() } else { 64 }; Ok(match v { V::I(k) => V::int(w, *k as u128), v => v.clone() }) }
            Cast::BitCast => {
                match (from, to) {
                    (Ty::Vector(n, ef), Ty::Int(w)) => {
                        let V::A(a) = v else { return Err(Stop::Error("bitcast".into())) };
                        let ew = ef.width();
                        if a.iter().all(|x| cint(x).is_some()) {
                            let mut r = 0u128;
                            for (i, x) in a.iter().enumerate() { r |= (cint(x).unwrap() & term::mask(ew)) << (i as u16 * ew); }
                            return Ok(V::int(*w as u16, r));
                        }
                        let mut t = bits(&a[0], ew);
                        for i in 1..*n as usize { t = term::concat(bits(&a[i], ew), t); }
                        Ok(V::of(t))
                    }
                    (Ty::Int(w), Ty::Vector(n, et)) => {
                        let ew = et.width();
                        let t = v.bv(*w as u16);
                        let mut o = vec![];
                        for i in 0..*n as u16 { o.push(V::of(term::extract(i * ew + ew - 1, i * ew, t))); }
                        Ok(V::A(Rc::new(o)))
                    }
                    (Ty::Vector(n, ef), Ty::Vector(n2, et)) => {
                        if n == n2 { return Ok(v.clone()); }
                        let tw = (*n as u16) * ef.width();
                        let i = self.cast(st, Cast::BitCast, from, &Ty::Int(tw as u32), v)?;
                        let _ = (n2, et);
                        self.cast(st, Cast::BitCast, &Ty::Int(tw as u32), to, &i)
                    }
                    _ => Ok(v.clone()),
                }
            }
            Cast::UiToFp | Cast::SiToFp => {
                let s = c == Cast::SiToFp;
                let w = from.width();
                match v {
                    V::I(_) | V::W(_) => {
                        let k = cint(v).unwrap();
                        let d = if s { term::sext_val(w, k) as f64 } else { k as f64 };
                        if *to == Ty::F32 { return Ok(V::I((d as f32).to_bits() as u64)); }
                        Ok(V::I(d.to_bits()))
                    }
                    v => {
                        let t = v.bv(w);
                        if term::cx().hash_tainted[t as usize] { return Ok(V::I(0)); }
                        if self.cfg.real { let p = poly::from_int(s, t); Ok(self.of_poly(p)) } else { Ok(V::off(term::ffrom(s, t))) }
                    }
                }
            }
            Cast::FpToUi => self.fptoint(st, false, to.width(), false, v),
            Cast::FpToSi => self.fptoint(st, true, to.width(), false, v),
            Cast::FpExt => match v { V::I(k) => Ok(V::I((f32::from_bits(*k as u32) as f64).to_bits())), V::R(_) => Ok(v.clone()), _ => Err(Stop::Error("fpext of a term".into())) },
            Cast::FpTrunc => match v { V::R(p) => Ok(self.round32(*p)), V::I(k) if self.cfg.real && self.carriers.contains_key(k) => { let p = self.carriers[k]; Ok(self.round32(p)) } V::I(k) => Ok(V::I((f64::from_bits(*k) as f32).to_bits() as u64)), _ => Err(Stop::Error("fptrunc of a term".into())) },
        }
    }
    fn select(&mut self, st: &mut State, t: &Ty, c: &V, a: &V, b: &V) -> R<V> {
        if let V::A(cs) = c {
            let (V::A(x), V::A(y), Ty::Vector(_, e)) = (a, b, t) else { return Err(Stop::Error("vector select".into())) };
            let mut o = vec![];
            for i in 0..cs.len() { o.push(self.select(st, e, &cs[i], &x[i], &y[i])?); }
            return Ok(V::A(Rc::new(o)));
        }
        match c {
            V::I(k) => Ok(if k & 1 != 0 { a.clone() } else { b.clone() }),
            _ => {
                let ct = c.boolt();
                // a magnitude, written as a choice
                if let (V::R(p), V::R(q), Ty::F64) = (a, b, t) { if *p == poly::neg(*q) {
                    let on = |x: PolyId| ct == poly::cmp_term(ROp::Gt, x) || ct == poly::cmp_term(ROp::Ge, x);
                    if on(*p) { return self.fabs(st, a); }
                    if on(*q) { let m = self.fabs(st, a)?; return self.fneg(&m); }
                } }
                let fork = match t {
                    Ty::Int(1) => false,
                    Ty::Int(w) => (*w > 32 && !(matches!(a, V::B(_)) || matches!(b, V::B(_)))) || matches!(a, V::R(_)) || matches!(b, V::R(_)) || *w > 64,
                    Ty::F64 => self.cfg.real,
                    _ => true,
                };
                if fork { return Ok(if self.decide(st, ct)? { a.clone() } else { b.clone() }); }
                if *t == Ty::F64 { let (x, y) = (self.fp(a), self.fp(b)); return Ok(V::off(term::ite(ct, x, y))); }
                if *t == Ty::Int(1) { return Ok(V::of(term::ite(ct, a.boolt(), b.boolt()))); }
                let w = t.width();
                Ok(V::of(term::ite(ct, a.bv(w), b.bv(w))))
            }
        }
    }

    // ---------------------------------------------------------------- running
    pub fn run(&mut self, entry: &str) {
        let fi = *self.m.fn_idx.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        let f = self.m.func(fi);
        let mut st = State { frames: vec![], mem: Mem::new(), pc: vec![], known: Rc::new(HashMap::default()), doms: Rc::new(HashMap::default()), signs: Rc::new(HashMap::default()), conc: Rc::new(HashMap::default()),
            model: Some(Rc::new(Model::new())), tried: 0, inputs: Rc::new(vec![]), vfs: Rc::new(Vfs::default()), errno: 0, steps: 0, panic_ok: false, pending: None, nchoice: 0, nkeys: 0, depth: 0, hook: None, tag: String::new(), hash: Rc::new(HashMode::default()) };
        st.errno = st.mem.alloc(8, true);
        let v = Rc::make_mut(&mut st.vfs);
        v.dirs.insert("/w".into());
        v.dirs.insert("/".into());
        for _ in 0..3 { v.fds.push(Some(("<std>".into(), 0, 1))); }
        self.fn_used.insert(fi);
        self.insts += f.ninst as u64;
        st.frames.push(Frame { fi, regs: vec![V::I(0); f.nregs as usize], f, blk: 0, ip: 0, prev: 0, allocas: vec![], dst: u32::MAX, cont: u32::MAX });
        self.stack.push(st);
        let mut tried = Instant::now();
        self.sol.deadline = Some(self.t0 + std::time::Duration::from_secs_f64(self.cfg.deadline));
        while let Some(mut st) = self.stack.pop() {
            if !self.stack.is_empty() && tried.elapsed().as_millis() >= 20 { tried = Instant::now(); self.stack.push(st); self.share(); st = self.stack.pop().unwrap(); }
            let r = self.path(&mut st);
            
            match r {
                Err(Stop::Done) => {
                    self.paths_done += 1;
                    if self.samples.len() < 6 { let s = self.describe(&st); self.samples.push(s); }
                }
                Err(Stop::Dead(m)) => { self.paths_dead += 1; if self.cfg.verbose { eprintln!("dead: {}", m); } }
                Err(Stop::Panic(m)) => {
                    if st.panic_ok { self.paths_panic_ok += 1; } else {
                        let cs = self.all_constraints(&st);
                        match self.sol.check(&cs, self.cfg.assert_ms, true, true) {
                            Ans::Unsat => self.paths_dead += 1,
                            Ans::Sat(m) => self.violation(&mut st, "panic", &m_panic(&m), m, &cs, None),
                            Ans::Unknown if self.late() => self.left += 1,
                            Ans::Unknown => { let mm = st.model.as_ref().map(|m| (**m).clone()); self.violation(&mut st, "panic", &m, mm, &cs, None) }
                        }
                        // keep the text
                        if let Some(v) = self.viols.last_mut() { if v.kind == "panic" && v.msg.is_empty() { v.msg = m; } }
                    }
                }
                Err(Stop::Error(m)) => {
                    let s = self.trace(&st);
                    let e = format!("{} at {}", m, s.join(" <- "));
                    if self.cfg.verbose { eprintln!("ERROR {}", e); }
                    self.errors.push(e);
                }
                // the run's time is up: reported as unexplored
                Err(Stop::Time) => self.left += 1,
                Err(Stop::Switched) | Ok(()) => {}
            }
            if self.viols.iter().filter(|v| v.confirmed).count() >= self.cfg.max_viol || self.viols.len() >= 4 * self.cfg.max_viol || self.errors.len() >= 5 { self.stopped = true; break; }
            let n = self.paths_done + self.paths_dead + self.paths_panic_ok;
            if n >= self.cfg.max_paths { if !self.stack.is_empty() { self.errors.push(format!("path bound {} reached", n)); } break; }
            if self.t0.elapsed().as_secs_f64() > self.cfg.deadline { self.left += self.stack.len() as u64; self.stack.clear(); break; }
            if self.cfg.verbose && n % 500 == 0 && n > 0 { eprintln!("paths {} dead {} pending {} queries {} ({:.1}s solver, {:.1}s total) steps {}", self.paths_done, self.paths_dead, self.stack.len(), self.sol.st.queries, self.sol.st.time, self.t0.elapsed().as_secs_f64(), self.steps); }
        }
    }
    /// give half of the pending states to a new process, if a core is free (a byte can be read from the token pipe)
    fn share(&mut self) {
        let Some((r, _)) = self.cfg.tokens else { return };
        let mut b = 0u8;
        if unsafe { read(r, &mut b, 1) } != 1 { return; }
        let pid = unsafe { fork_process() };
        if pid < 0 { self.release(); return; }
        let mut k = 0;
        self.stack.retain(|_| { k += 1; (k % 2 == 0) == (pid == 0) });
        if pid > 0 { self.children.push(pid); return; }
        self.children.clear();
        self.is_child = true;
        self.sol.forked();
        self.paths_done = 0; self.paths_dead = 0; self.paths_panic_ok = 0; self.forks = 0; self.steps = 0; self.asserts_solver = 0; self.asserts_triv = 0;
        self.samples.clear(); self.errors.clear(); self.viols.clear(); self.reach.clear(); self.notes.clear();
    }
    pub fn release(&self) { if let Some((_, w)) = self.cfg.tokens { unsafe { write(w, &1u8, 1); } } }
    /// wait for the processes this one has started
    pub fn join(&mut self) {
        for p in std::mem::take(&mut self.children) {
            let mut s = 0;
            unsafe { waitpid(p, &mut s, 0); }
            if s != 0 { self.errors.push(format!("a worker ended with status {}", s)); }
        }
    }
    pub fn describe(&mut self, st: &State) -> String {
        let mut parts = vec![];
        for i in st.inputs.iter() { if let Input::Choice(n, k) = i { parts.push(format!("{}={}", n, k)); } }
        let nsym = st.inputs.iter().filter(|i| !matches!(i, Input::Choice(..))).count();
        let mut cons: Vec<String> = vec![];
        for c in st.pc.iter().take(4) { cons.push(show_term(*c)); }
        format!("[{}] {} symbolic inputs, {} path constraints: {}{}", parts.join(" "), nsym, st.pc.len(), cons.join(" & "), if st.pc.len() > 4 { " & ..." } else { "" })
    }
    pub fn trace(&self, st: &State) -> Vec<String> { st.frames.iter().rev().take(12).map(|f| self.m.fns[f.fi as usize].pretty.clone()).collect() }

    pub fn violation(&mut self, st: &mut State, kind: &str, msg: &str, m: Option<Model>, cs: &[T], alt: Option<Model>) {
        let mut models = vec![];
        let mut nice_any = false;
        let mut base = self.default_model(st);
        if let Some(w) = &st.model { base.extend((**w).clone()); }
        let mut start = base.clone();
        if let Some(x) = &m { start.extend(x.clone()); }
        for mm in [alt, m].into_iter().flatten() {
            let mut f = base.clone();
            // function values are recomputed
            f.extend(mm);
            let nice = self.polish(st, &f, cs);
            if let Some(n) = nice { nice_any = true; models.push(self.inputs_of(st, &n)); }
            models.push(self.inputs_of(st, &f));
        }
        if models.is_empty() { models.push(self.inputs_of(st, &base)); }
        // does the model rely on function values the real functions do not have?
        let mut confirmed = true;
        if self.uses_functions(cs) {
            confirmed = nice_any;
            let vars: Vec<VarId> = st.inputs.iter().filter_map(|i| match i { Input::F64(_, v) => Some(*v), _ => None }).collect();
            if let Some(x) = crate::search::find(cs, &vars, &start, std::time::Duration::from_secs(6)) {
                let mut f = start.clone();
                for (v, d) in x { f.insert(v, Value::Real(crate::solver::parse_dec(&format!("{:e}", d)).unwrap_or(Rat::zero()))); }
                models.insert(0, self.inputs_of(st, &f));
                confirmed = true;
            }
        }
        let v = Viol { kind: kind.into(), msg: msg.into(), stack: self.trace(st), models, tag: st.tag.clone(), confirmed };
        if self.cfg.verbose { eprintln!("VIOL {} {} {:?} {:?}", v.kind, v.msg, v.models.first(), v.stack); }
        self.viols.push(v);
    }
    fn uses_functions(&self, cs: &[T]) -> bool {
        let vs: HashSet<VarId> = cs.iter().flat_map(|c| term::vars(*c).iter().copied().collect::<Vec<_>>()).collect();
        poly::uf_vars().iter().any(|v| vs.contains(v))
    }
    /// round the real inputs to few digits while the violated condition stays true
    fn polish(&mut self, st: &State, m: &Model, cs: &[T]) -> Option<Model> {
        let holds = |m: &Model| cs.iter().all(|c| Ev::new(m).b(*c) == Some(true));
        let mut cur = m.clone();
        // drop values of function atoms: they follow from the inputs
        let ins: HashSet<VarId> = st.inputs.iter().filter_map(|i| match i { Input::F64(_, v) | Input::U(_, v, _) => Some(*v), _ => None }).collect();
        cur.retain(|k, _| ins.contains(k));
        if !holds(&cur) { return None; }
        for i in st.inputs.iter() {
            if let Input::F64(_, v) = i {
                let Some(Value::Real(r)) = cur.get(v).cloned() else { continue };
                let d = r.to_f64();
                for prec in 0..6 {
                    let s = format!("{:.*e}", prec, d);
                    let Some(q) = crate::solver::parse_dec(&s) else { continue };
                    let mut t = cur.clone();
                    t.insert(*v, Value::Real(q));
                    if holds(&t) { cur = t; break; }
                }
            }
        }
        Some(cur)
    }
    fn inputs_of(&self, st: &State, m: &Model) -> Vec<(String, String, String)> {
        st.inputs.iter().map(|i| match i {
            Input::F64(n, v) => (n.clone(), "f64".into(), match m.get(v) { Some(Value::Real(r)) => format!("{:e}", r.to_f64()), Some(Value::Bv(b)) => format!("bits:{:016x}", b), None => "0".into() }),
            Input::U(n, v, _) => (n.clone(), "u64".into(), match m.get(v) { Some(Value::Bv(b)) => b.to_string(), _ => "0".into() }),
            Input::Choice(n, k) => (n.clone(), "u64".into(), k.to_string()),
        }).collect()
    }

    /// check an assertion on this path
    pub fn assert(&mut self, st: &mut State, c: T, msg: &str, robust: Option<T>) -> R<()> {
        if term::boolconst(c) == Some(true) { self.asserts_triv += 1; return Ok(()); }
        if st.known.get(&c) == Some(&true) { self.asserts_triv += 1; return Ok(()); }
        if let N::And(a, b) = term::node(c).clone() { self.assert(st, a, msg, None)?; return self.assert(st, b, msg, None); }
        if let N::RCmp(op, p) = term::node(c).clone() {
            if self.rcmp_known(st, op, p) == Some(true) { self.asserts_triv += 1; return Ok(()); }
            if op == ROp::Eq { if let Some((n, _)) = poly::clear_denoms(p, 4000) { if poly::get(n).is_empty() { self.asserts_triv += 1; return Ok(()); } } }
        }
        let nc = term::not(c);
        let q = self.slice(st, &[nc]);
        self.asserts_solver += 1;
        let ans = self.sol.check(&q, self.cfg.assert_ms, true, true);
        match ans {
            Ans::Unsat => { self.add(st, c); Ok(()) }
            Ans::Unknown if self.late() => Err(Stop::Time),
            Ans::Unknown => { *self.notes.entry(format!("undecided: {}", msg)).or_insert(0) += 1; Ok(()) }
            Ans::Sat(m) => {
                // the slice leaves out constraints over other inputs: decide the whole path
                let mut all = self.all_constraints(st);
                all.push(nc);
                let m = match self.sol.check(&all, self.cfg.assert_ms, true, true) {
                    Ans::Unsat => {
                        if std::env::var("SYMX_DBG").is_ok() { for c in st.pc.iter() { eprintln!("  PC {}", show_term(*c)); } eprintln!("model {:?}", st.model.is_some()); }
                        return Err(Stop::Dead("infeasible".into())) }
                    Ans::Sat(Some(f)) => Some(f),
                    _ => m,
                };
                let alt = robust.and_then(|r| { let q = self.slice(st, &[r]); match self.sol.check(&q, self.cfg.assert_ms.min(10000), true, true) { Ans::Sat(m) => m, _ => None } });
                let mut cs = self.all_constraints(st);
                if alt.is_some() { cs.push(robust.unwrap()); } else { cs.push(nc); }
                self.violation(st, "assert", msg, m, &cs, alt);
                Err(Stop::Dead("violated".into()))
            }
        }
    }

    fn path(&mut self, st: &mut State) -> R<()> {
        loop {
            if st.steps > self.cfg.max_steps { return Err(Stop::Panic("step bound exceeded (possible non-termination)".into())); }
            if st.steps & 0x3ffff == 0 && self.late() { return Err(Stop::Time); }
            self.step(st)?;
        }
    }
    #[inline]
    fn get(st: &State, o: &Opd) -> V { match o { Opd::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(), Opd::K(v) => v.clone() } }
    #[inline]
    fn set(st: &mut State, dst: u32, v: V) {
        let f = st.frames.last_mut().unwrap();
        if dst != u32::MAX { f.regs[dst as usize] = v; }
        f.ip += 1;
    }
    fn jump(st: &mut State, b: u32) {
        let f = st.frames.last_mut().unwrap();
        let prev = f.blk;
        let fc = f.f.clone();
        let blk = &fc.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut vals: Vec<V> = Vec::with_capacity(blk.phis.len());
            for p in &blk.phis {
                let o = &p.inc.iter().find(|x| x.0 == prev).expect("phi").1;
                vals.push(match o { Opd::Reg(r) => f.regs[*r as usize].clone(), Opd::K(v) => v.clone() });
            }
            for (p, v) in blk.phis.iter().zip(vals) { f.regs[p.dst as usize] = v; }
        }
        f.prev = prev;
        f.blk = b;
        f.ip = 0;
    }
    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        self.steps += 1;
        let fc = { let f = st.frames.last().unwrap(); f.f.clone() };
        let (dst, inst) = { let f = st.frames.last().unwrap(); &fc.blocks[f.blk as usize].insts[f.ip as usize] };
        let dst = *dst;
        match inst {
            Inst::Bin(op, t, a, b) => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let v = self.bin(st, *op, t, &x, &y)?;
                Self::set(st, dst, v);
            }
            Inst::FNeg(_, a) => { let x = Self::get(st, a); let v = self.fneg(&x)?; Self::set(st, dst, v); }
            Inst::ICmp(p, t, a, b) => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let v = if let Ty::Vector(_, e) = t {
                    let (V::A(xs), V::A(ys)) = (&x, &y) else { return Err(Stop::Error("vector icmp".into())) };
                    let mut o = vec![];
                    for i in 0..xs.len() { o.push(self.icmp(st, *p, e.width(), &xs[i], &ys[i])?); }
                    V::A(Rc::new(o))
                } else { self.icmp(st, *p, t.width(), &x, &y)? };
                Self::set(st, dst, v);
            }
            Inst::FCmp(p, t, a, b) => {
                let (mut x, mut y) = (Self::get(st, a), Self::get(st, b));
                if *t == Ty::F32 { for v in [&mut x, &mut y] { if let V::I(k) = v { *v = V::I((f32::from_bits(*k as u32) as f64).to_bits()); } } }
                let v = if let Ty::Vector(..) = t {
                    let (V::A(xs), V::A(ys)) = (&x, &y) else { return Err(Stop::Error("vector fcmp".into())) };
                    let mut o = vec![];
                    for i in 0..xs.len() { o.push(self.fcmp(*p, &xs[i], &ys[i])?); }
                    V::A(Rc::new(o))
                } else { self.fcmp(*p, &x, &y)? };
                Self::set(st, dst, v);
            }
            Inst::Cast(c, f, t, a) => { let x = Self::get(st, a); let v = self.cast(st, *c, f, t, &x)?; Self::set(st, dst, v); }
            Inst::Select(c, t, a, b) => { let (c, x, y) = (Self::get(st, c), Self::get(st, a), Self::get(st, b)); let v = self.select(st, t, &c, &x, &y)?; Self::set(st, dst, v); }
            Inst::Load(t, a) => {
                let av = Self::get(st, a);
                let v = match &av {
                    V::I(p) => match packed_bits(t) {
                        Some(i) => { let x = st.mem.load(&mut self.g, &self.m, &i, *p)?; self.cast(st, Cast::BitCast, &i, t, &x)? }
                        None => st.mem.load(&mut self.g, &self.m, t, *p)?,
                    },
                    _ => self.load_sym(st, t, &av)?,
                };
                Self::set(st, dst, v);
            }
            Inst::Store(t, v, a) => {
                let (v, av) = (Self::get(st, v), Self::get(st, a));
                let p = self.addr(st, &av)?;
                match packed_bits(t) {
                    Some(i) => { let x = self.cast(st, Cast::BitCast, t, &i, &v)?; st.mem.store(&mut self.g, &self.m, &i, p, x)?; }
                    None => st.mem.store(&mut self.g, &self.m, t, p, v)?,
                }
                Self::set(st, u32::MAX, V::I(0));
            }
            Inst::Alloca(t, n) => {
                let nv = Self::get(st, n);
                let n = self.int(st, &nv)?;
                let a = st.mem.alloc(t.size() * n, false);
                st.frames.last_mut().unwrap().allocas.push(a);
                Self::set(st, dst, V::I(a));
            }
            Inst::Gep(b, off, dy) => {
                let mut v = Self::get(st, b);
                if *off != 0 { v = self.ibin(st, BOp::Add, 64, &v, &V::I(*off))?; }
                for (o, w, sc) in dy {
                    let i = Self::get(st, o);
                    let i = if *w == 64 { i } else { match &i { V::I(k) => V::I(term::sext_val(*w, *k as u128) as u64), x => V::of(term::sext(64, x.bv(*w))) } };
                    let s = if *sc == 1 { i } else { self.ibin(st, BOp::Mul, 64, &i, &V::I(*sc))? };
                    v = self.ibin(st, BOp::Add, 64, &v, &s)?;
                }
                Self::set(st, dst, v);
            }
            Inst::Extract(a, ix) => {
                let mut v = Self::get(st, a);
                for i in ix { v = match &v { V::A(x) => x[*i as usize].clone(), _ => return Err(Stop::Error("extractvalue".into())) }; }
                Self::set(st, dst, v);
            }
            Inst::Insert(a, v, ix) => {
                let (a, v) = (Self::get(st, a), Self::get(st, v));
                fn ins(a: V, ix: &[u32], v: V) -> V { if ix.is_empty() { return v; } match a { V::A(mut x) => { let y = Rc::make_mut(&mut x); y[ix[0] as usize] = ins(y[ix[0] as usize].clone(), &ix[1..], v); V::A(x) } a => a } }
                let r = ins(a, ix, v);
                Self::set(st, dst, r);
            }
            Inst::ExtractEl(a, i) => { let (a, i) = (Self::get(st, a), Self::get(st, i)); let k = self.int(st, &i)?; let V::A(x) = a else { return Err(Stop::Error("extractelement".into())) }; let v = x[k as usize].clone(); Self::set(st, dst, v); }
            Inst::InsertEl(a, v, i) => { let (a, v, i) = (Self::get(st, a), Self::get(st, v), Self::get(st, i)); let k = self.int(st, &i)?; let V::A(mut x) = a else { return Err(Stop::Error("insertelement".into())) }; Rc::make_mut(&mut x)[k as usize] = v; Self::set(st, dst, V::A(x)); }
            Inst::Shuffle(a, b, mk) => {
                let (V::A(x), V::A(y)) = (Self::get(st, a), Self::get(st, b)) else { return Err(Stop::Error("shuffle".into())) };
                let o: Vec<V> = mk.iter().map(|k| if *k < 0 { V::I(0) } else if (*k as usize) < x.len() { x[*k as usize].clone() } else { y[*k as usize - x.len()].clone() }).collect();
                Self::set(st, dst, V::A(Rc::new(o)));
            }
            Inst::Freeze(a) => { let v = Self::get(st, a); Self::set(st, dst, v); }
            Inst::AtomicRmw(op, t, a, v) => {
                let (av, v) = (Self::get(st, a), Self::get(st, v));
                let p = self.addr(st, &av)?;
                let old = st.mem.load(&mut self.g, &self.m, t, p)?;
                let w = t.width();
                let new = match op {
                    Rmw::Xchg => v,
                    Rmw::Add => self.ibin(st, BOp::Add, w, &old, &v)?, Rmw::Sub => self.ibin(st, BOp::Sub, w, &old, &v)?,
                    Rmw::And => self.ibin(st, BOp::And, w, &old, &v)?, Rmw::Or => self.ibin(st, BOp::Or, w, &old, &v)?, Rmw::Xor => self.ibin(st, BOp::Xor, w, &old, &v)?,
                    Rmw::UMax => { let c = self.icmp(st, IPred::Ugt, w, &old, &v)?; self.select(st, t, &c, &old, &v)? }
                    Rmw::UMin => { let c = self.icmp(st, IPred::Ult, w, &old, &v)?; self.select(st, t, &c, &old, &v)? }
                    Rmw::Max => { let c = self.icmp(st, IPred::Sgt, w, &old, &v)?; self.select(st, t, &c, &old, &v)? }
                    Rmw::Min => { let c = self.icmp(st, IPred::Slt, w, &old, &v)?; self.select(st, t, &c, &old, &v)? }
                };
                st.mem.store(&mut self.g, &self.m, t, p, new)?;
                Self::set(st, dst, old);
            }
            Inst::CmpXchg(t, a, c, n) => {
                let (av, c, n) = (Self::get(st, a), Self::get(st, c), Self::get(st, n));
                let p = self.addr(st, &av)?;
                let old = st.mem.load(&mut self.g, &self.m, t, p)?;
                let e = self.icmp(st, IPred::Eq, t.width(), &old, &c)?;
                let hit = self.cond(st, &e)?;
                if hit { st.mem.store(&mut self.g, &self.m, t, p, n)?; }
                Self::set(st, dst, V::A(Rc::new(vec![old, V::boolv(hit)])));
            }
            Inst::Fence => Self::set(st, u32::MAX, V::I(0)),
            Inst::Br(b) => Self::jump(st, *b),
            Inst::CondBr(c, a, b) => { let c = Self::get(st, c); let t = self.cond(st, &c)?; Self::jump(st, if t { *a } else { *b }); }
            Inst::Switch(w, v, d, cs) => {
                let v = Self::get(st, v);
                let target = match &v {
                    V::I(k) => cs.iter().find(|c| c.0 == *k).map_or(*d, |c| c.1),
                    V::R(_) => { let k = self.carrier(st, &v)?; cs.iter().find(|c| c.0 == k).map_or(*d, |c| c.1) }
                    v => {
                        let t = v.bv(*w);
                        // group the cases by target so that equal outcomes do not split the path
                        let mut groups: Vec<(u32, T)> = vec![];
                        for (k, l) in cs { let e = term::eq(t, term::bc(*w, *k as u128)); match groups.iter_mut().find(|g| g.0 == *l) { Some(g) => g.1 = term::or(g.1, e), None => groups.push((*l, e)) } }
                        let mut tg = *d;
                        for (l, c) in groups { if self.decide(st, c)? { tg = l; break; } }
                        tg
                    }
                };
                Self::jump(st, target);
            }
            Inst::Ret(v) => {
                let v = v.as_ref().map(|o| Self::get(st, o));
                let f = st.frames.pop().unwrap();
                for a in f.allocas { st.mem.free(a)?; }
                if st.frames.is_empty() { return Err(Stop::Done); }
                self.finish_call(st, f.dst, f.cont, v.unwrap_or(V::I(0)));
            }
            Inst::Call(c, _rt, args) => self.call(st, c, args, dst, u32::MAX)?,
            Inst::Invoke(c, _rt, args, l) => self.call(st, c, args, dst, *l)?,
            Inst::Unreachable => return Err(Stop::Error("unreachable executed".into())),
            Inst::LandingPad | Inst::Resume => return Err(Stop::Error("unwinding".into())),
        }
        Ok(())
    }
    pub fn finish_call(&mut self, st: &mut State, dst: u32, cont: u32, v: V) {
        if cont != u32::MAX {
            let f = st.frames.last_mut().unwrap();
            if dst != u32::MAX { f.regs[dst as usize] = v; }
            Self::jump(st, cont);
        } else { Self::set(st, dst, v); }
    }
    fn bin(&mut self, st: &mut State, op: ABin, t: &Ty, x: &V, y: &V) -> R<V> {
        if let Ty::Vector(_, e) = t {
            let (V::A(xs), V::A(ys)) = (x, y) else { return Err(Stop::Error("vector op".into())) };
            let mut o = vec![];
            for i in 0..xs.len() { o.push(self.bin(st, op, e, &xs[i], &ys[i])?); }
            return Ok(V::A(Rc::new(o)));
        }
        if *t == Ty::F32 {
            let (V::I(a), V::I(b)) = (x, y) else {
                if !self.cfg.real { return Err(Stop::Error("f32 term".into())); }
                let wide = |v: &V| if let V::I(k) = v { V::I((f32::from_bits(*k as u32) as f64).to_bits()) } else { v.clone() };
                let r = self.bin(st, op, &Ty::F64, &wide(x), &wide(y))?;
                return self.cast(st, Cast::FpTrunc, &Ty::F64, t, &r);
            };
            let (a, b) = (f32::from_bits(*a as u32), f32::from_bits(*b as u32));
            return Ok(V::I((match op { ABin::FAdd => a + b, ABin::FSub => a - b, ABin::FMul => a * b, ABin::FDiv => a / b, _ => a % b }).to_bits() as u64));
        }
        match op {
            ABin::I(o) => self.ibin(st, o, t.width(), x, y),
            ABin::FAdd => self.fbin(st, FOp::Add, x, y),
            ABin::FSub => self.fbin(st, FOp::Sub, x, y),
            ABin::FMul => self.fbin(st, FOp::Mul, x, y),
            ABin::FDiv => self.fbin(st, FOp::Div, x, y),
            ABin::FRem => self.fbin(st, FOp::Rem, x, y),
        }
    }
    /// load through a symbolic address: table lookups indexed by one byte become value tables
    fn load_sym(&mut self, st: &mut State, t: &Ty, av: &V) -> R<V> {
        if let (V::B(a), Ty::Int(w)) = (av, t) {
            let vs = term::vars(*a);
            if vs.len() == 1 && *w <= 64 {
                if let VSort::Bv(vw) = term::cx().var_info[vs[0] as usize].sort { if vw <= 8 {
                    let d = self.dom(st, vs[0]);
                    let mut by: Vec<(u64, [u64; 4])> = vec![];
                    let mut ok = true;
                    for x in 0..(1u32 << vw) {
                        if d[(x / 64) as usize] >> (x % 64) & 1 == 0 { continue; }
                        let mut m = Model::new();
                        m.insert(vs[0], Value::Bv(x as u128));
                        let p = Ev::new(&m).v(*a);
                        let v = match p { Some(p) => st.mem.load(&mut self.g, &self.m, t, p as u64).ok(), None => None };
                        match v { Some(V::I(k)) => { match by.iter_mut().find(|b| b.0 == k) { Some(b) => b.1[(x / 64) as usize] |= 1 << (x % 64), None => { let mut s = [0u64; 4]; s[(x / 64) as usize] |= 1 << (x % 64); by.push((k, s)); } } } _ => { ok = false; break; } }
                    }
                    if ok && !by.is_empty() && by.len() <= 16 {
                        let mut acc = term::bc(*w as u16, by[0].0 as u128);
                        for (k, s) in by[1..].iter() { let c = self.dom_term(vs[0], *s); acc = term::ite(c, term::bc(*w as u16, *k as u128), acc); }
                        return Ok(V::of(acc));
                    }
                } }
            }
        }
        let p = self.addr(st, av)?;
        Ok(st.mem.load(&mut self.g, &self.m, t, p)?)
    }
    fn call(&mut self, st: &mut State, c: &Callee, args: &[(Ty, Opd)], dst: u32, cont: u32) -> R<()> {
        let fi = match c {
            Callee::Fn(i) => *i,
            Callee::Ind(o) => {
                let v = Self::get(st, o);
                let a = self.addr(st, &v)?;
                let id = a >> 32;
                if id < FUNC_BASE || id >= FUNC_BASE + self.m.fns.len() as u64 || a as u32 != 0 { return Err(Stop::Error(format!("call of {:#x}", a))); }
                (id - FUNC_BASE) as u32
            }
            Callee::Asm => { self.finish_call(st, dst, cont, V::I(0)); return Ok(()); }
        };
        let hook = match self.hooks.get(&fi) { Some(h) => *h, None => { let h = crate::lib_model::classify(&self.m.fns[fi as usize]); self.hooks.insert(fi, h); h } };
        if hook != 0 {
            let mut a = Vec::with_capacity(args.len());
            for (_, o) in args { a.push(Self::get(st, o)); }
            if let Some(v) = self.model_call(st, fi, hook, &a, args)? { self.finish_call(st, dst, cont, v); return Ok(()); }
        }
        if st.frames.len() > 400 { return Err(Stop::Panic("stack overflow (recursion depth bound)".into())); }
        let f = self.m.func(fi);
        if self.fn_used.insert(fi) { self.insts += f.ninst as u64; }
        let mut regs = vec![V::I(0); f.nregs as usize];
        for (k, (_, o)) in args.iter().enumerate() { if k < f.params.len() { regs[f.params[k] as usize] = Self::get(st, o); } }
        if self.cfg.trace { eprintln!("{}{}", " ".repeat(st.frames.len()), self.m.fns[fi as usize].pretty); }
        st.frames.push(Frame { fi, f, regs, blk: 0, ip: 0, prev: 0, allocas: vec![], dst, cont });
        Ok(())
    }
    /// intrinsics on integers shared with the library model
    pub fn ibin_pub(&mut self, st: &mut State, op: BOp, w: u16, a: &V, b: &V) -> R<V> { self.ibin(st, op, w, a, b) }
    pub fn icmp_pub(&mut self, st: &mut State, p: IPred, w: u16, a: &V, b: &V) -> R<V> { self.icmp(st, p, w, a, b) }
    pub fn select_pub(&mut self, st: &mut State, t: &Ty, c: &V, a: &V, b: &V) -> R<V> { self.select(st, t, c, a, b) }
    pub fn fptoint_pub(&mut self, st: &mut State, s: bool, w: u16, v: &V) -> R<V> { self.fptoint(st, s, w, true, v) }
    pub fn addr_pub(&mut self, st: &mut State, v: &V) -> R<u64> { self.addr(st, v) }
    pub fn real_pub(&mut self, v: &V) -> R<Result<PolyId, f64>> { self.real(v) }
    pub fn fp_pub(&self, v: &V) -> T { self.fp(v) }
    pub fn sym(v: &V) -> bool { Self::is_sym(v) }
}
fn m_panic(_m: &Option<Model>) -> String { String::new() }
fn rev(m: u8) -> u8 { (m & 2) | (m & 1) << 2 | (m & 4) >> 2 }
fn smul(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for x in 0..3 { for y in 0..3 { if a >> x & 1 == 1 && b >> y & 1 == 1 { let s = (x as i32 - 1) * (y as i32 - 1); r |= 1 << (s + 1); } } }
    r
}
fn sadd(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for x in 0..3i32 { for y in 0..3i32 { if a >> x & 1 == 1 && b >> y & 1 == 1 {
        let (p, q) = (x - 1, y - 1);
        if p == 0 { r |= 1 << (q + 1) } else if q == 0 || p == q { r |= 1 << (p + 1) } else { r |= 7 }
    } } }
    r
}
pub fn cint(v: &V) -> Option<u128> { match v { V::I(k) => Some(*k as u128), V::W(k) => Some(**k), _ => None } }
fn bits(v: &V, w: u16) -> T { match v { V::B(t) if term::sort(*t) == Sort::Bool => term::to_bv(*t), v => v.bv(w) } }
pub fn default_real(i: usize) -> Rat {
    const P: [i64; 12] = [3, 7, 2, 11, 5, 13, 17, 19, 23, 29, 31, 37];
    Rat::int(P[i % 12] + 40 * (i / 12) as i64).div(&Rat::int(2 + (i % 3) as i64))
}
pub fn show_term(t: T) -> String {
    match term::node(t) {
        N::RCmp(op, p) => format!("{} {} 0", poly::show(*p), match op { ROp::Gt => ">", ROp::Ge => ">=", ROp::Eq => "==" }),
        N::Not(x) => format!("!({})", show_term(*x)),
        N::Or(a, b) => format!("({} | {})", show_term(*a), show_term(*b)),
        N::And(a, b) => format!("({} & {})", show_term(*a), show_term(*b)),
        N::BVar(_, v) => term::cx().var_info[*v as usize].name.clone(),
        N::BC(_, v) => format!("{}", v),
        N::Eq(a, b) => format!("{}=={}", show_term(*a), show_term(*b)),
        N::Ult(a, b) => format!("{}<{}", show_term(*a), show_term(*b)),
        n => { let s = format!("{:?}", n); s.chars().take(60).collect() }
    }
}

/// vectors of elements narrower than a byte are packed in memory
fn packed_bits(t: &Ty) -> Option<Ty> {
    if let Ty::Vector(n, e) = t { if let Ty::Int(w) = **e { if w % 8 != 0 { return Some(Ty::Int(*n as u32 * w)); } } }
    None
}

extern "C" {
    #[link_name = "fork"]
    fn fork_process() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn read(fd: i32, p: *mut u8, n: usize) -> isize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
}
