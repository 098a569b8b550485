//! Feasibility of conditions over a few bytes: domains and pairwise relations, decided by propagation and search.
use crate::solver::Ans;
use crate::term::{self, cx, Ev, Model, Value, VarId, VSort, T};
use std::collections::HashMap;

type D = [u64; 4];
const ALL: D = [u64::MAX; 4];
fn and(a: &D, b: &D) -> D { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
fn size(a: &D) -> u32 { a.iter().map(|x| x.count_ones()).sum() }
fn values(d: D) -> impl Iterator<Item = u32> { (0..256u32).filter(move |x| d[(*x / 64) as usize] >> (x % 64) & 1 == 1) }

#[derive(Default)]
pub struct Csp { one: HashMap<T, Option<D>>, row: HashMap<(T, VarId, u8), Option<D>>, pub decided: u64 }

impl Csp {
    fn unary(&mut self, t: T, v: VarId) -> Option<D> {
        if let Some(d) = self.one.get(&t) { return *d; }
        let r = table(t, v, &mut Model::new());
        self.one.insert(t, r);
        r
    }
    /// values of `other` for which t holds when v is x
    fn relation(&mut self, t: T, v: VarId, x: u8, other: VarId) -> Option<D> {
        if let Some(d) = self.row.get(&(t, v, x)) { return *d; }
        let mut m = Model::new();
        m.insert(v, Value::Bv(x as u128));
        let r = table(t, other, &mut m);
        self.row.insert((t, v, x), r);
        r
    }
    /// None: not of this kind (or too hard)
    pub fn check(&mut self, cs: &[T]) -> Option<Ans> {
        let mut vars: Vec<VarId> = vec![];
        let mut two = vec![];
        let mut one = vec![];
        for t in cs {
            if cx().hash_tainted[*t as usize] { return None; }
            let vs = term::vars(*t);
            match vs.len() { 0 => return None, 1 => one.push((*t, vs[0])), 2 => two.push((*t, vs[0], vs[1])), _ => return None }
            for v in vs.iter() { if !vars.contains(v) { vars.push(*v); } }
        }
        if vars.len() > 10 { return None; }
        for v in &vars { match cx().var_info[*v as usize].sort { VSort::Bv(8) => {} _ => return None } }
        let ix = |v: VarId| vars.iter().position(|x| *x == v).unwrap();
        let mut dom = vec![ALL; vars.len()];
        for (t, v) in one { let u = self.unary(t, v)?; let k = ix(v); dom[k] = and(&dom[k], &u); }
        if dom.iter().any(|d| size(d) == 0) { self.decided += 1; return Some(Ans::Unsat); }
        let two: Vec<(T, usize, usize)> = two.into_iter().map(|(t, a, b)| (t, ix(a), ix(b))).collect();
        let mut budget = 600;
        let mut done = vec![None; vars.len()];
        let r = self.search(&vars, &two, dom, &mut done, &mut budget)?;
        self.decided += 1;
        if !r { return Some(Ans::Unsat); }
        Some(Ans::Sat(Some(vars.iter().zip(&done).map(|(v, x)| (*v, Value::Bv(x.unwrap() as u128))).collect())))
    }
    fn search(&mut self, vars: &[VarId], two: &[(T, usize, usize)], dom: Vec<D>, done: &mut Vec<Option<u8>>, budget: &mut i32) -> Option<bool> {
        let Some(k) = (0..vars.len()).filter(|i| done[*i].is_none()).min_by_key(|i| size(&dom[*i])) else { return Some(true) };
        for x in values(dom[k]) {
            *budget -= 1;
            if *budget < 0 { return None; }
            let mut d = dom.clone();
            done[k] = Some(x as u8);
            let mut ok = true;
            for (t, a, b) in two {
                let o = if *a == k { *b } else if *b == k { *a } else { continue };
                let r = self.relation(*t, vars[k], x as u8, vars[o])?;
                match done[o] {
                    Some(y) => if r[y as usize / 64] >> (y % 64) & 1 == 0 { ok = false; },
                    None => { d[o] = and(&d[o], &r); if size(&d[o]) == 0 { ok = false; } }
                }
                if !ok { break; }
            }
            if ok && self.search(vars, two, d, done, budget)? { return Some(true); }
            done[k] = None;
        }
        Some(false)
    }
}
fn table(t: T, v: VarId, m: &mut Model) -> Option<D> {
    let mut out = [0u64; 4];
    for x in 0..256u32 {
        m.insert(v, Value::Bv(x as u128));
        if Ev::new(m).b(t)? { out[(x / 64) as usize] |= 1 << (x % 64); }
    }
    Some(out)
}
