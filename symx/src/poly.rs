//! Canonical multivariate polynomials over the rationals, with atoms for inputs, quotients and
//! transcendental functions.  Every real-mode double of the executed program is one of these.
use crate::rat::Rat;
use crate::term::{self, cx, Ev, Fx, ROp, Value, VarId, VSort, T};
use std::cmp::Ordering;
use std::collections::HashMap;
use std::rc::Rc;

pub type PolyId = u32;
pub type AtomId = u32;
pub type Mono = Rc<Vec<(AtomId, u32)>>; // sorted by atom id

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Atom {
    Var(VarId),
    /// quotient num/den, den != 0 on every path that uses it
    Div(PolyId, PolyId),
    /// uninterpreted real function (exp, ln, sin, sqrt): value var
    Uf(u32, Vec<PolyId>, VarId),
    /// integer value of a bit-vector term (signed?)
    FromInt(bool, T),
    /// absolute value
    Abs(PolyId),
}

pub type Poly = Vec<(Mono, Rat)>; // sorted by descending lex monomial order, no zero coefficients

pub struct PolyCtx {
    pub atoms: Vec<Atom>,
    pub uf_atoms: HashMap<u32, Vec<AtomId>>,
    amap: HashMap<(u8, u32, u32, Vec<u32>), AtomId>,
    pub polys: Vec<Rc<Poly>>,
    pub pvars: Vec<Rc<Vec<VarId>>>,
    pmap: HashMap<Rc<Poly>, PolyId>,
    add_memo: HashMap<(PolyId, PolyId), PolyId, Fx>,
    mul_memo: HashMap<(PolyId, PolyId), PolyId, Fx>,
    div_memo: HashMap<(PolyId, PolyId), PolyId, Fx>,
}
impl PolyCtx {
    pub fn new() -> PolyCtx {
        PolyCtx { atoms: vec![], uf_atoms: HashMap::new(), amap: HashMap::new(), polys: vec![], pvars: vec![], pmap: HashMap::new(),
            add_memo: HashMap::default(), mul_memo: HashMap::default(), div_memo: HashMap::default() }
    }
}
fn pc() -> &'static mut PolyCtx { &mut cx().polys }
pub fn get(p: PolyId) -> Rc<Poly> { pc().polys[p as usize].clone() }
pub fn atom(a: AtomId) -> &'static Atom { &pc().atoms[a as usize] }

pub fn mono_cmp(a: &Mono, b: &Mono) -> Ordering {
    // lex on (latest atom first): the monomial with the larger exponent of the larger atom is bigger
    let (mut i, mut j) = (a.len(), b.len());
    loop {
        match (i, j) {
            (0, 0) => return Ordering::Equal,
            (0, _) => return Ordering::Less,
            (_, 0) => return Ordering::Greater,
            _ => {}
        }
        let (x, y) = (a[i - 1], b[j - 1]);
        if x.0 != y.0 { return x.0.cmp(&y.0); }
        if x.1 != y.1 { return x.1.cmp(&y.1); }
        i -= 1;
        j -= 1;
    }
}
fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    if a.is_empty() { return b.clone(); }
    if b.is_empty() { return a.clone(); }
    let mut out = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) { out.push(a[i]); i += 1 }
        else if i >= a.len() || b[j].0 < a[i].0 { out.push(b[j]); j += 1 }
        else { out.push((a[i].0, a[i].1 + b[j].1)); i += 1; j += 1 }
    }
    Rc::new(out)
}
fn mono_div(a: &Mono, b: &Mono) -> Option<Mono> {
    let mut out = vec![];
    let mut j = 0;
    for (x, e) in a.iter() {
        if j < b.len() && b[j].0 == *x {
            if b[j].1 > *e { return None; }
            if e - b[j].1 > 0 { out.push((*x, e - b[j].1)); }
            j += 1;
        } else {
            if j < b.len() && b[j].0 < *x { return None; }
            out.push((*x, *e));
        }
    }
    if j < b.len() { None } else { Some(Rc::new(out)) }
}

fn atom_vars(a: &Atom) -> Rc<Vec<VarId>> {
    match a {
        Atom::Var(v) => Rc::new(vec![*v]),
        Atom::Div(n, d) => term::union_vars(&poly_vars(*n), &poly_vars(*d)),
        Atom::Uf(_, args, v) => { let mut acc = Rc::new(vec![*v]); for x in args { acc = term::union_vars(&acc, &poly_vars(*x)); } acc }
        Atom::FromInt(_, t) => term::vars(*t),
        Atom::Abs(p) => poly_vars(*p),
    }
}
pub fn poly_vars(p: PolyId) -> Rc<Vec<VarId>> { pc().pvars[p as usize].clone() }

fn intern(mut v: Poly) -> PolyId {
    v.retain(|x| !x.1.is_zero());
    let rc = Rc::new(v);
    if let Some(i) = pc().pmap.get(&rc) { return *i; }
    let mut vars: Rc<Vec<VarId>> = Rc::new(vec![]);
    let mut seen: Vec<AtomId> = vec![];
    for (m, _) in rc.iter() { for (a, _) in m.iter() { if !seen.contains(a) { seen.push(*a); vars = term::union_vars(&vars, &atom_vars(&pc().atoms[*a as usize].clone())); } } }
    let c = pc();
    let id = c.polys.len() as PolyId;
    c.polys.push(rc.clone());
    c.pvars.push(vars);
    c.pmap.insert(rc, id);
    id
}
pub fn from_map(mut v: Vec<(Mono, Rat)>) -> PolyId {
    v.sort_by(|a, b| mono_cmp(&b.0, &a.0));
    let mut out: Poly = Vec::with_capacity(v.len());
    for (m, c) in v {
        if let Some(l) = out.last_mut() { if l.0 == m { l.1 = l.1.add(&c); continue; } }
        out.push((m, c));
    }
    intern(out)
}
pub fn constant(r: Rat) -> PolyId { if r.is_zero() { intern(vec![]) } else { intern(vec![(Rc::new(vec![]), r)]) } }
pub fn zero() -> PolyId { intern(vec![]) }
pub fn is_const(p: PolyId) -> Option<Rat> {
    let q = &pc().polys[p as usize];
    if q.is_empty() { return Some(Rat::zero()); }
    if q.len() == 1 && q[0].0.is_empty() { return Some(q[0].1.clone()); }
    None
}
fn mk_atom(key: (u8, u32, u32, Vec<u32>), a: impl FnOnce() -> Atom) -> PolyId {
    let id = match pc().amap.get(&key) {
        Some(i) => *i,
        None => {
            let at = a();
            let c = pc();
            let u = if let Atom::Uf(u, ..) = &at { Some(*u) } else { None };
            c.atoms.push(at);
            let i = (c.atoms.len() - 1) as AtomId;
            if let Some(u) = u { c.uf_atoms.entry(u).or_insert_with(Vec::new).push(i); }
            c.amap.insert(key, i);
            i
        }
    };
    intern(vec![(Rc::new(vec![(id, 1)]), Rat::one())])
}
pub fn var(v: VarId) -> PolyId { mk_atom((0, v, 0, vec![]), || Atom::Var(v)) }
pub fn uf(name: &str, args: &[PolyId]) -> PolyId {
    let u = term::uf_id(name);
    mk_atom((1, u, 0, args.to_vec()), || {
        let n = pc().atoms.len();
        Atom::Uf(u, args.to_vec(), term::new_var(&format!("{}!{}", name, n), VSort::Real))
    })
}
/// |p| with quotients pulled apart: |n/d| = |n|/|d|
pub fn abs(p: PolyId) -> PolyId {
    if let Some(k) = is_const(p) { return constant(k.abs()); }
    let q = get(p);
    let has_div = q.iter().any(|(m, _)| m.iter().any(|(a, _)| matches!(atom(*a), Atom::Div(..))));
    if has_div {
        if let Some((num, dens)) = clear_denoms_all(p, 200) {
            let mut d = constant(Rat::one());
            for x in dens { d = mul(d, abs(x)); }
            return div(abs(num), d);
        }
    }
    // monomial content: |x^2 y| = x^2 |y|, |abs(..)| = abs(..)
    let k = q[0].1.clone();
    let c = if q.len() == 1 { k.clone() } else { k };
    let prim = scale(p, &Rat::one().div(&c));
    if q.len() == 1 {
        let mut r = constant(c.abs());
        for (a, e) in q[0].0.iter() {
            let base = intern(vec![(Rc::new(vec![(*a, 1)]), Rat::one())]);
            let nonneg = is_nonneg_atom(*a);
            let ev = if nonneg { *e } else { e / 2 * 2 };
            if ev > 0 { r = mul(r, pow(base, ev)); }
            if e - ev == 1 { r = mul(r, mk_atom((4, base, 0, vec![]), || Atom::Abs(base))); }
        }
        return r;
    }
    let a = mk_atom((4, prim, 0, vec![]), || Atom::Abs(prim));
    scale(a, &c.abs())
}
/// the polynomial consisting of this atom alone
pub fn atom_poly(a: AtomId) -> PolyId { intern(vec![(Rc::new(vec![(a, 1)]), Rat::one())]) }
/// argument of p when p is exactly name(argument)
pub fn as_uf(p: PolyId, name: &str) -> Option<PolyId> {
    let q = get(p);
    if q.len() == 1 && q[0].1.is_one() && q[0].0.len() == 1 && q[0].0[0].1 == 1 {
        if let Atom::Uf(u, args, _) = atom(q[0].0[0].0) { if cx().uf_names[*u as usize] == name { return Some(args[0]); } }
    }
    None
}
pub fn is_nonneg_atom(a: AtomId) -> bool {
    match atom(a) { Atom::Abs(_) => true, Atom::FromInt(false, _) => true, Atom::Uf(u, ..) => { let n = &cx().uf_names[*u as usize]; n == "exp" || n == "sqrt" } _ => false }
}
pub fn from_int(signed: bool, t: T) -> PolyId { mk_atom((2, signed as u32, t, vec![]), || Atom::FromInt(signed, t)) }

pub fn add(a: PolyId, b: PolyId) -> PolyId {
    let key = (a.min(b), a.max(b));
    if let Some(r) = pc().add_memo.get(&key) { return *r; }
    let (x, y) = (get(a), get(b));
    let mut out: Poly = Vec::with_capacity(x.len() + y.len());
    let (mut i, mut j) = (0, 0);
    while i < x.len() || j < y.len() {
        if j >= y.len() { out.push(x[i].clone()); i += 1; continue; }
        if i >= x.len() { out.push(y[j].clone()); j += 1; continue; }
        match mono_cmp(&x[i].0, &y[j].0) {
            Ordering::Greater => { out.push(x[i].clone()); i += 1 }
            Ordering::Less => { out.push(y[j].clone()); j += 1 }
            Ordering::Equal => {
                let c = x[i].1.add(&y[j].1);
                if !c.is_zero() { out.push((x[i].0.clone(), c)); }
                i += 1;
                j += 1;
            }
        }
    }
    let r = intern(out);
    pc().add_memo.insert(key, r);
    r
}
pub fn scale(a: PolyId, k: &Rat) -> PolyId {
    if k.is_zero() { return zero(); }
    let x = get(a);
    intern(x.iter().map(|(m, c)| (m.clone(), c.mul(k))).collect())
}
pub fn neg(a: PolyId) -> PolyId { scale(a, &Rat::int(-1)) }
pub fn sub(a: PolyId, b: PolyId) -> PolyId { if a == b { zero() } else { add(a, neg(b)) } }
pub fn mul(a: PolyId, b: PolyId) -> PolyId {
    if let Some(k) = is_const(a) { return scale(b, &k); }
    if let Some(k) = is_const(b) { return scale(a, &k); }
    let key = (a.min(b), a.max(b));
    if let Some(r) = pc().mul_memo.get(&key) { return *r; }
    let (x, y) = (get(a), get(b));
    let mut out: Vec<(Mono, Rat)> = Vec::with_capacity(x.len() * y.len());
    for (m, c) in x.iter() { for (n, d) in y.iter() { out.push((mono_mul(m, n), c.mul(d))); } }
    let mut r = from_map(out);
    // q*den appearing with q = num/den: rewrite when a single-monomial denominator cancels
    r = cancel_div_monomials(r);
    pc().mul_memo.insert(key, r);
    r
}
/// In each monomial, replace Div(n, x)*x by n when the denominator is a single plain atom.
fn cancel_div_monomials(p: PolyId) -> PolyId {
    let q = get(p);
    let mut hit = None;
    'o: for (i, (m, _)) in q.iter().enumerate() {
        for (a, _) in m.iter() {
            if let Atom::Div(_, d) = atom(*a) {
                let dp = get(*d);
                if dp.len() == 1 && mono_div(m, &dp[0].0).is_some() && !dp[0].0.is_empty() { hit = Some((i, *a)); break 'o; }
            }
        }
    }
    let Some((i, a)) = hit else { return p };
    let Atom::Div(n, d) = atom(a).clone() else { unreachable!() };
    let dp = get(d);
    let (m, c) = q[i].clone();
    let one: Mono = Rc::new(vec![(a, 1)]);
    let rest = mono_div(&mono_div(&m, &dp[0].0).unwrap(), &one);
    let Some(rest) = rest else { return p };
    let t = mul(intern(vec![(rest, c.div(&dp[0].1))]), n);
    let others: Poly = q.iter().enumerate().filter(|(k, _)| *k != i).map(|(_, x)| x.clone()).collect();
    let o = intern(others);
    let s = add(o, t);
    cancel_div_monomials(s)
}
pub fn pow(a: PolyId, n: u32) -> PolyId { let mut r = constant(Rat::one()); for _ in 0..n { r = mul(r, a); } r }

fn lead(p: PolyId) -> (Mono, Rat) { let q = get(p); q[0].clone() }
/// exact polynomial quotient if it exists (bounded effort)
fn exact_div(n: PolyId, d: PolyId) -> Option<PolyId> {
    let mut r = n;
    let (dm, dcf) = lead(d);
    let mut q = zero();
    for _ in 0..400 {
        if get(r).is_empty() { return Some(q); }
        let (rm, rc) = lead(r);
        let m = mono_div(&rm, &dm)?;
        let t = intern(vec![(m, rc.div(&dcf))]);
        q = add(q, t);
        let td = { // plain product, no cancellation
            let (x, y) = (get(t), get(d));
            from_map(y.iter().map(|(n, c)| (mono_mul(&x[0].0, n), c.mul(&x[0].1))).collect())
        };
        r = sub(r, td);
    }
    None
}
/// n/d for d known nonzero
pub fn div(n: PolyId, d: PolyId) -> PolyId {
    if let Some(k) = is_const(d) { return scale(n, &Rat::one().div(&k)); }
    if get(n).is_empty() { return n; }
    if let Some(r) = pc().div_memo.get(&(n, d)) { return *r; }
    let r = div0(n, d);
    pc().div_memo.insert((n, d), r);
    r
}
fn div0(mut n: PolyId, mut d: PolyId) -> PolyId {
    // denominators that are single monomials: invert quotient atoms inside
    loop {
        let dp = get(d);
        let mut changed = false;
        // common quotient atoms in every monomial of d
        let first = dp[0].0.clone();
        for (a, _) in first.iter() {
            if let Atom::Div(n2, d2) = atom(*a).clone() {
                let one: Mono = Rc::new(vec![(*a, 1)]);
                if dp.iter().all(|(m, _)| mono_div(m, &one).is_some()) {
                    let rest = from_map(dp.iter().map(|(m, c)| (mono_div(m, &one).unwrap(), c.clone())).collect());
                    // n / (q*rest) with q = n2/d2  =  n*d2 / (n2*rest)
                    n = mul(n, d2);
                    d = mul(rest, n2);
                    changed = true;
                    break;
                }
            }
        }
        if let Some(k) = is_const(d) { return scale(n, &Rat::one().div(&k)); }
        if !changed { break; }
    }
    // common monomial factor
    let (np, dp) = (get(n), get(d));
    let mut common: Vec<(AtomId, u32)> = dp[0].0.to_vec();
    for (m, _) in dp.iter().chain(np.iter()) {
        common.retain_mut(|(a, e)| match m.iter().find(|x| x.0 == *a) { Some((_, e2)) => { *e = (*e).min(*e2); true } None => false });
    }
    if !common.is_empty() {
        let cm: Mono = Rc::new(common);
        n = from_map(np.iter().map(|(m, c)| (mono_div(m, &cm).unwrap(), c.clone())).collect());
        d = from_map(dp.iter().map(|(m, c)| (mono_div(m, &cm).unwrap(), c.clone())).collect());
        if let Some(k) = is_const(d) { return scale(n, &Rat::one().div(&k)); }
    }
    if let Some(q) = exact_div(n, d) { return q; }
    if is_const(n).is_none() {
        if let Some(q) = exact_div(d, n) { // n/d = 1/q
            return div(constant(Rat::one()), q);
        }
    }
    let kn = lead(n).1;
    let kd = lead(d).1;
    let n1 = scale(n, &Rat::one().div(&kn));
    let d1 = scale(d, &Rat::one().div(&kd));
    let a = mk_atom((3, n1, d1, vec![]), || Atom::Div(n1, d1));
    scale(a, &kn.div(&kd))
}

/// canonical comparison term  p op 0
pub fn cmp_term(op: ROp, p: PolyId) -> T {
    if let Some(k) = is_const(p) {
        let s = k.sign();
        return term::boolc(match op { ROp::Gt => s > 0, ROp::Ge => s >= 0, ROp::Eq => s == 0 });
    }
    let k = lead(p).1;
    let s = if op == ROp::Eq { k } else { k.abs() };
    let q = if s.is_one() { p } else { scale(p, &Rat::one().div(&s)) };
    term::rcmp_raw(op, q)
}

/// like clear_denoms but returns every denominator factor with multiplicity
pub fn clear_denoms_all(p: PolyId, limit: usize) -> Option<(PolyId, Vec<PolyId>)> { clear0(p, limit, true) }
/// Substitute away all quotient atoms: p = num / den with den a product of denominators (nonzero).
/// Returns (num, list of denominators with even/odd multiplicity) so that sign(p) = sign(num * prod(odd dens)).
/// None when the result would get too large.
pub fn clear_denoms(p: PolyId, limit: usize) -> Option<(PolyId, Vec<PolyId>)> { clear0(p, limit, false) }
fn clear0(p: PolyId, limit: usize, all: bool) -> Option<(PolyId, Vec<PolyId>)> {
    let mut cur = p;
    let mut odd: Vec<PolyId> = vec![];
    loop {
        let q = get(cur);
        // latest quotient atom
        let mut best: Option<AtomId> = None;
        for (m, _) in q.iter() { for (a, _) in m.iter() { if matches!(atom(*a), Atom::Div(..)) && best.map_or(true, |b| *a > b) { best = Some(*a); } } }
        let Some(a) = best else { break };
        let Atom::Div(n, d) = atom(a).clone() else { unreachable!() };
        let mut k = 0;
        for (m, _) in q.iter() { for (x, e) in m.iter() { if *x == a { k = k.max(*e); } } }
        let mut parts: Vec<Vec<(Mono, Rat)>> = vec![vec![]; k as usize + 1];
        for (m, c) in q.iter() {
            let e = m.iter().find(|x| x.0 == a).map_or(0, |x| x.1);
            let rest: Mono = Rc::new(m.iter().filter(|x| x.0 != a).cloned().collect());
            parts[e as usize].push((rest, c.clone()));
        }
        let mut acc = zero();
        for (e, part) in parts.into_iter().enumerate() {
            if part.is_empty() { continue; }
            let mut t = from_map(part);
            for _ in 0..e { t = raw_mul(t, n, limit)?; }
            for _ in e..k as usize { t = raw_mul(t, d, limit)?; }
            acc = add(acc, t);
        }
        if all { for _ in 0..k { odd.push(d); } } else if k % 2 == 1 { odd.push(d); }
        cur = acc;
        if get(cur).len() > limit { return None; }
    }
    Some((cur, odd))
}
fn raw_mul(a: PolyId, b: PolyId, limit: usize) -> Option<PolyId> {
    let (x, y) = (get(a), get(b));
    if x.len() * y.len() > limit * 8 { return None; }
    let mut out: Vec<(Mono, Rat)> = Vec::with_capacity(x.len() * y.len());
    for (m, c) in x.iter() { for (n, d) in y.iter() { out.push((mono_mul(m, n), c.mul(d))); } }
    let r = from_map(out);
    if get(r).len() > limit { None } else { Some(r) }
}

pub fn eval(p: PolyId, ev: &mut Ev) -> Option<Rat> {
    if let Some(r) = ev.pmemo.get(&p) { return r.clone(); }
    let r = eval0(p, ev);
    ev.pmemo.insert(p, r.clone());
    r
}
fn eval0(p: PolyId, ev: &mut Ev) -> Option<Rat> {
    let q = get(p);
    let mut acc = Rat::zero();
    for (m, c) in q.iter() {
        let mut t = c.clone();
        for (a, e) in m.iter() {
            let v = eval_atom(*a, ev)?;
            for _ in 0..*e { t = t.mul(&v); }
            if t.bits() > 20000 { return None; }
        }
        acc = acc.add(&t);
    }
    Some(acc)
}
/// the function an uninterpreted symbol stands for
pub fn host(name: &str, x: f64) -> f64 {
    match name { "exp" => x.exp(), "ln" => x.ln(), "sin" => x.sin(), "cos" => x.cos(), "sqrt" => x.sqrt(), "tan" => x.tan(), "log10" => x.log10(), "log2" => x.log2(), "exp2" => x.exp2(), "tanh" => x.tanh(), "sinh" => x.sinh(), "cosh" => x.cosh(), "atan" => x.atan(), "round32" => x as f32 as f64, _ => f64::NAN }
}
pub fn eval_atom(a: AtomId, ev: &mut Ev) -> Option<Rat> {
    match atom(a).clone() {
        Atom::Uf(u, args, v) if !ev.m.contains_key(&v) => {
            // not fixed by a solver: the function itself, to double precision
            let xr = eval(*args.first()?, ev)?;
            // a solver's value at an equal argument comes first
            for b in pc().uf_atoms.get(&u).cloned().unwrap_or_default() {
                if let Atom::Uf(_, args2, v2) = atom(b).clone() {
                    if v2 == v || args2.len() != 1 { continue; }
                    if let Some(Value::Real(r)) = ev.m.get(&v2) { let r = r.clone(); if let Some(x2) = eval(args2[0], ev) { if x2.sub(&xr).is_zero() { return Some(r); } } }
                }
            }
            let x = xr.to_f64();
            if args.len() != 1 { return None; }
            let y = host(&cx().uf_names[u as usize], x);
            if y.is_finite() { Some(Rat::from_f64(y)) } else { None }
        }
        Atom::Var(v) | Atom::Uf(_, _, v) => match ev.m.get(&v) { Some(Value::Real(r)) => Some(r.clone()), Some(_) => None, None => None },
        Atom::Div(n, d) => {
            let d = eval(d, ev)?;
            if d.is_zero() { return None; }
            Some(eval(n, ev)?.div(&d))
        }
        Atom::Abs(p) => Some(eval(p, ev)?.abs()),
        Atom::FromInt(s, t) => {
            let v = ev.v(t)?;
            Some(if s { Rat::from_i128(term::sext_val(term::width(t), v)) } else { Rat::from_u128(v) })
        }
    }
}
/// all atoms reachable from p, in creation order
pub fn collect_atoms(p: PolyId, out: &mut std::collections::BTreeSet<AtomId>, ints: &mut Vec<T>) {
    for (m, _) in get(p).iter() {
        for (a, _) in m.iter() {
            if out.insert(*a) {
                match atom(*a).clone() {
                    Atom::Div(n, d) => { collect_atoms(n, out, ints); collect_atoms(d, out, ints); }
                    Atom::Uf(_, args, _) => for x in args { collect_atoms(x, out, ints) },
                    Atom::FromInt(_, t) => ints.push(t),
                    Atom::Abs(p) => collect_atoms(p, out, ints),
                    Atom::Var(_) => {}
                }
            }
        }
    }
}
pub fn show(p: PolyId) -> String {
    let q = get(p);
    if q.is_empty() { return "0".into(); }
    let mut s = String::new();
    for (i, (m, c)) in q.iter().enumerate() {
        if i > 0 { s += " + "; }
        if i > 12 { s += "..."; break; }
        s += &c.to_string();
        for (a, e) in m.iter() {
            s += "*";
            s += &show_atom(*a);
            if *e > 1 { s += &format!("^{}", e); }
        }
    }
    s
}
pub fn show_atom(a: AtomId) -> String {
    match atom(a).clone() {
        Atom::Var(v) => cx().var_info[v as usize].name.clone(),
        Atom::Div(n, d) => format!("(({})/({}))", show(n), show(d)),
        Atom::Uf(u, args, _) => format!("{}({})", cx().uf_names[u as usize], args.iter().map(|x| show(*x)).collect::<Vec<_>>().join(",")),
        Atom::FromInt(_, t) => format!("int(t{})", t),
        Atom::Abs(p) => format!("|{}|", show(p)),
    }
}
/// the variables that stand for values of uninterpreted functions
pub fn uf_vars() -> Vec<VarId> { pc().atoms.iter().filter_map(|a| if let Atom::Uf(_, _, v) = a { Some(*v) } else { None }).collect() }
