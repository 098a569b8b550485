//! Hash-consed terms: bit-vectors, booleans, IEEE doubles (FP) and comparisons of real polynomials.
use crate::poly::{self, PolyId};
use crate::rat::Rat;
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;
pub type VarId = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Sort { Bool, Bv(u16), Fp }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum BOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum ROp { Gt, Ge, Eq }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FOp { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FCmp { Eq, Lt, Le }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    BC(u16, u128),
    BVar(u16, VarId),
    Bin(BOp, T, T),
    Concat(T, T),
    Ext(u16, u16, T),
    ZExt(u16, T),
    SExt(u16, T),
    Ite(T, T, T),
    /// part of a hash: width, digest of what it was computed from, table it belongs to
    HashAny(u16, u64, u64),
    FBits(T),
    True,
    False,
    Not(T),
    And(T, T),
    Or(T, T),
    Eq(T, T),
    Ult(T, T),
    Ule(T, T),
    Slt(T, T),
    Sle(T, T),
    RCmp(ROp, PolyId),
    FCmp(FCmp, T, T),
    FNan(T),
    FC(u64),
    FVar(T),
    FBin(FOp, T, T),
    FNeg(T),
    FAbs(T),
    FSqrt(T),
    FFromI(bool, T),
    FUf(u32, Rc<Vec<T>>),
}

#[derive(Clone, Debug)]
pub struct VarInfo { pub name: String, pub sort: VSort }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum VSort { Bv(u16), Real }

pub struct Ctx {
    pub nodes: Vec<N>,
    pub sorts: Vec<Sort>,
    pub vars: Vec<Rc<Vec<VarId>>>,
    pub hash_tainted: Vec<bool>,
    map: HashMap<N, T, Fx>,
    pub var_info: Vec<VarInfo>,
    pub uf_names: Vec<String>,
    pub polys: poly::PolyCtx,
    empty: Rc<Vec<VarId>>,
}

#[derive(Default, Clone, Copy)]
pub struct FxH(u64);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for c in b { self.write_u64(*c as u64) } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_i32(&mut self, i: i32) { self.write_u64(i as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95); }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
}
pub type Fx = std::hash::BuildHasherDefault<FxH>;

static mut CTX: Option<Ctx> = None;
#[allow(static_mut_refs)]
pub fn cx() -> &'static mut Ctx {
    unsafe {
        if CTX.is_none() {
            let e = Rc::new(vec![]);
            CTX = Some(Ctx { nodes: vec![], sorts: vec![], vars: vec![], hash_tainted: vec![], map: HashMap::default(),
                var_info: vec![], uf_names: vec![], polys: poly::PolyCtx::new(), empty: e });
        }
        CTX.as_mut().unwrap()
    }
}

pub fn new_var(name: &str, sort: VSort) -> VarId {
    let c = cx();
    c.var_info.push(VarInfo { name: name.to_string(), sort });
    (c.var_info.len() - 1) as VarId
}
pub fn uf_id(name: &str) -> u32 {
    let c = cx();
    if let Some(i) = c.uf_names.iter().position(|n| n == name) { return i as u32; }
    c.uf_names.push(name.to_string());
    (c.uf_names.len() - 1) as u32
}

pub fn union_vars(a: &Rc<Vec<VarId>>, b: &Rc<Vec<VarId>>) -> Rc<Vec<VarId>> {
    if a.is_empty() || Rc::ptr_eq(a, b) { return b.clone(); }
    if b.is_empty() { return a.clone(); }
    let mut out = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i] < b[j]) { out.push(a[i]); i += 1 }
        else if i >= a.len() || b[j] < a[i] { out.push(b[j]); j += 1 }
        else { out.push(a[i]); i += 1; j += 1 }
    }
    if out.len() == a.len() { return a.clone(); }
    if out.len() == b.len() { return b.clone(); }
    Rc::new(out)
}

fn mk(n: N) -> T {
    let c = cx();
    if let Some(t) = c.map.get(&n) { return *t; }
    let sort = match &n {
        N::BC(w, _) | N::BVar(w, _) | N::ZExt(w, _) | N::SExt(w, _) | N::HashAny(w, ..) => Sort::Bv(*w),
        N::Bin(_, a, _) => c.sorts[*a as usize],
        N::Concat(a, b) => Sort::Bv(width_of(c, *a) + width_of(c, *b)),
        N::Ext(h, l, _) => Sort::Bv(h - l + 1),
        N::Ite(_, a, _) => c.sorts[*a as usize],
        N::FBits(_) => Sort::Bv(64),
        N::True | N::False | N::Not(_) | N::And(..) | N::Or(..) | N::Eq(..) | N::Ult(..) | N::Ule(..) | N::Slt(..)
        | N::Sle(..) | N::RCmp(..) | N::FCmp(..) | N::FNan(_) => Sort::Bool,
        N::FC(_) | N::FVar(_) | N::FBin(..) | N::FNeg(_) | N::FAbs(_) | N::FSqrt(_) | N::FFromI(..) | N::FUf(..) => Sort::Fp,
    };
    let vars = match &n {
        N::BVar(_, v) => Rc::new(vec![*v]),
        N::RCmp(_, p) => poly::poly_vars(*p),
        _ => {
            let mut acc = c.empty.clone();
            for k in children(&n) { acc = union_vars(&acc, &c.vars[k as usize]); }
            acc
        }
    };
    let taint = matches!(n, N::HashAny(..)) || children(&n).iter().any(|k| c.hash_tainted[*k as usize]);
    let c = cx();
    let id = c.nodes.len() as T;
    c.nodes.push(n.clone());
    c.sorts.push(sort);
    c.vars.push(vars);
    c.hash_tainted.push(taint);
    c.map.insert(n, id);
    id
}
fn width_of(c: &Ctx, t: T) -> u16 { match c.sorts[t as usize] { Sort::Bv(w) => w, Sort::Bool => 1, Sort::Fp => 64 } }
pub fn width(t: T) -> u16 { width_of(cx(), t) }
pub fn sort(t: T) -> Sort { cx().sorts[t as usize] }
pub fn node(t: T) -> &'static N { &cx().nodes[t as usize] }
pub fn vars(t: T) -> Rc<Vec<VarId>> { cx().vars[t as usize].clone() }

pub fn children(n: &N) -> Vec<T> {
    match n {
        N::BC(..) | N::BVar(..) | N::HashAny(..) | N::True | N::False | N::RCmp(..) | N::FC(_) => vec![],
        N::Ext(_, _, a) | N::ZExt(_, a) | N::SExt(_, a) | N::FBits(a) | N::Not(a) | N::FNan(a) | N::FVar(a)
        | N::FNeg(a) | N::FAbs(a) | N::FSqrt(a) | N::FFromI(_, a) => vec![*a],
        N::Bin(_, a, b) | N::Concat(a, b) | N::And(a, b) | N::Or(a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Ule(a, b)
        | N::Slt(a, b) | N::Sle(a, b) | N::FCmp(_, a, b) | N::FBin(_, a, b) => vec![*a, *b],
        N::Ite(a, b, d) => vec![*a, *b, *d],
        N::FUf(_, v) => v.to_vec(),
    }
}

pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sext_val(w: u16, v: u128) -> i128 { if w >= 128 { v as i128 } else { let s = 128 - w as u32; ((v << s) as i128) >> s } }

pub fn bc(w: u16, v: u128) -> T { mk(N::BC(w, v & mask(w))) }
pub fn bvar(w: u16, v: VarId) -> T { mk(N::BVar(w, v)) }
pub const RAW: u64 = 1 << 63;
/// a fresh random key word
pub fn hash_key(w: u16, n: u64) -> T { mk(N::HashAny(w, mix(0x9e3779b97f4a7c15, n), RAW | n << 20)) }
fn mix(a: u64, b: u64) -> u64 { let mut x = (a ^ b.rotate_left(29)).wrapping_mul(0xff51afd7ed558ccd); x ^= x >> 31; x = x.wrapping_mul(0xc4ceb9fe1a85ec53).wrapping_add(b); x ^ x >> 29 }
/// the result of an operation on parts of a hash: the same operation on the same parts gives the same term
pub fn hash_mix(w: u16, op: u64, a: &[T]) -> T {
    let (mut d, mut tag) = (mix(op, w as u64), 0);
    for t in a {
        let (x, g) = match node(*t) { N::HashAny(_, d, g) => (*d, *g), N::BC(_, v) => (mix(*v as u64, (*v >> 64) as u64), 0), _ => (mix(77, *t as u64), 0) };
        d = mix(d, x);
        // a table's key is the thread's key plus a counter
        if op == HOP_ADD && g & RAW != 0 && a.len() == 2 {
            let o = if a[0] == *t { a[1] } else { a[0] };
            if let Some(k) = bconst(o) { return mk(N::HashAny(w, mix(mix(1234, g & !0xfffff), (g & 0xfffff) + k as u64), g + k as u64)); }
        }
        let g = g & !RAW;
        if g != 0 && (tag == 0 || g < tag) { tag = g; }
    }
    mk(N::HashAny(w, d, tag))
}
pub const HOP_ADD: u64 = 3;
pub fn tru() -> T { mk(N::True) }
pub fn fls() -> T { mk(N::False) }
pub fn boolc(b: bool) -> T { if b { tru() } else { fls() } }
pub fn bconst(t: T) -> Option<u128> { match node(t) { N::BC(_, v) => Some(*v), _ => None } }
pub fn boolconst(t: T) -> Option<bool> { match node(t) { N::True => Some(true), N::False => Some(false), _ => None } }

pub fn eval_bin(op: BOp, w: u16, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    let r = match op {
        BOp::Add => a.wrapping_add(b),
        BOp::Sub => a.wrapping_sub(b),
        BOp::Mul => a.wrapping_mul(b),
        BOp::UDiv => if b == 0 { return None } else { a / b },
        BOp::URem => if b == 0 { return None } else { a % b },
        BOp::SDiv => if b == 0 { return None } else { sext_val(w, a).wrapping_div(sext_val(w, b)) as u128 },
        BOp::SRem => if b == 0 { return None } else { sext_val(w, a).wrapping_rem(sext_val(w, b)) as u128 },
        BOp::Shl => if b >= w as u128 { 0 } else { a << b },
        BOp::LShr => if b >= w as u128 { 0 } else { a >> b },
        BOp::AShr => { let s = sext_val(w, a); (if b >= w as u128 { if s < 0 { -1 } else { 0 } } else { s >> b }) as u128 }
        BOp::And => a & b,
        BOp::Or => a | b,
        BOp::Xor => a ^ b,
    };
    Some(r & m)
}

pub fn bin(op: BOp, a: T, b: T) -> T {
    let w = width(a);
    if cx().hash_tainted[a as usize] || cx().hash_tainted[b as usize] {
        return match op {
            // the value of a hash is unconstrained: sinks see 0, which is one admissible hash function
            BOp::And | BOp::LShr | BOp::URem => bc(w, 0),
            _ => hash_mix(w, if op == BOp::Add { HOP_ADD } else { 100 + op as u64 }, &[a, b]),
        };
    }
    let (ca, cb) = (bconst(a), bconst(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        if let Some(r) = eval_bin(op, w, x, y) { return bc(w, r); }
    }
    if w <= 32 { match (ca, cb) {
        (None, Some(y)) if matches!(node(a), N::Ite(..)) && ctree(a, 3) => return cmap(a, &mut |x| bin(op, bc(w, x), bc(w, y))),
        (Some(x), None) if matches!(node(b), N::Ite(..)) && ctree(b, 3) => return cmap(b, &mut |y| bin(op, bc(w, x), bc(w, y))),
        _ => {}
    } }
    use BOp::*;
    let (mut a, mut b, mut ca, mut cb) = (a, b, ca, cb);
    if matches!(op, Add | Mul | And | Or | Xor) && (ca.is_some() || (cb.is_none() && a > b)) {
        std::mem::swap(&mut a, &mut b);
        std::mem::swap(&mut ca, &mut cb);
    }
    if let Some(y) = cb {
        match op {
            Add | Sub | Or | Xor | Shl | LShr | AShr if y == 0 => return a,
            Sub => return bin(Add, a, bc(w, 0u128.wrapping_sub(y))),
            Mul | And if y == 0 => return bc(w, 0),
            Mul | UDiv if y == 1 => return a,
            And if y == mask(w) => return a,
            Or if y == mask(w) => return b,
            URem if y == 1 => return bc(w, 0),
            Shl | LShr if y >= w as u128 => return bc(w, 0),
            Mul if y.is_power_of_two() => return bin(Shl, a, bc(w, y.trailing_zeros() as u128)),
            UDiv if y.is_power_of_two() => return bin(LShr, a, bc(w, y.trailing_zeros() as u128)),
            URem if y.is_power_of_two() => return bin(And, a, bc(w, y - 1)),
            _ => {}
        }
        match (op, node(a)) {
            (Add, N::Bin(Add, x, k)) => if let Some(kv) = bconst(*k) { return bin(Add, *x, bc(w, kv.wrapping_add(y))); },
            (And, N::Bin(And, x, k)) => if let Some(kv) = bconst(*k) { return bin(And, *x, bc(w, kv & y)); },
            (And, N::ZExt(_, x)) => {
                let wx = width(*x);
                if y & mask(wx) == mask(wx) { return a; }
                if y & mask(wx) == 0 { return bc(w, 0); }
                return zext(w, bin(And, *x, bc(wx, y)));
            }
            (LShr, N::ZExt(_, x)) => {
                let wx = width(*x);
                if y >= wx as u128 { return bc(w, 0); }
            }
            (Shl, _) => { // concat form keeps byte assembly readable
                let n = w - y as u16;
                return concat(extract(n - 1, 0, a), bc(y as u16, 0));
            }
            (LShr, N::Concat(..)) => { return zext(w, extract(w - 1, y as u16, a)); }
            _ => {}
        }
        if op == And {
            // low mask => extract+zext
            if (y + 1).is_power_of_two() { let k = (y + 1).trailing_zeros() as u16; return zext(w, extract(k - 1, 0, a)); }
        }
    }
    if a == b {
        match op { Sub | Xor => return bc(w, 0), And | Or => return a, _ => {} }
    }
    if op == Or || op == Add || op == Xor {
        if let Some(r) = merge_disjoint(a, b) { return r; }
    }
    mk(N::Bin(op, a, b))
}

/// a | b where the known-zero bits are complementary: build a concat
fn merge_disjoint(a: T, b: T) -> Option<T> {
    // a = zext(x) (upper zero), b = concat(y, 0_k) with k >= width(x)
    let w = width(a);
    for (p, q) in [(a, b), (b, a)] {
        if let (N::ZExt(_, x), N::Concat(y, z)) = (node(p), node(q)) {
            if bconst(*z) == Some(0) && width(*z) >= width(*x) {
                let k = width(*z);
                return Some(concat(*y, zext(k, *x)));
            }
        }
        if let (N::ZExt(_, x), N::ZExt(_, c)) = (node(p), node(q)) {
            if let N::Concat(y, z) = node(*c) {
                if bconst(*z) == Some(0) && width(*z) >= width(*x) {
                    let k = width(*z);
                    return Some(zext(w, concat(*y, zext(k, *x))));
                }
            }
        }
    }
    None
}

pub fn concat(a: T, b: T) -> T {
    let (wa, wb) = (width(a), width(b));
    let (a, b) = (to_bv(a), to_bv(b));
    if cx().hash_tainted[a as usize] || cx().hash_tainted[b as usize] { return hash_mix(wa + wb, 4, &[a, b]); }
    if let (Some(x), Some(y)) = (bconst(a), bconst(b)) { return bc(wa + wb, (x << wb) | y); }
    if bconst(a) == Some(0) { return zext(wa + wb, b); }
    if let (N::Ext(h1, l1, x), N::Ext(h2, l2, y)) = (node(a), node(b)) {
        if x == y && *l1 == h2 + 1 { return extract(*h1, *l2, *x); }
    }
    mk(N::Concat(a, b))
}
pub fn extract(hi: u16, lo: u16, a: T) -> T {
    let w = width(a);
    if lo == 0 && hi == w - 1 { return a; }
    if cx().hash_tainted[a as usize] { return if hi - lo + 1 >= 8 { hash_mix(hi - lo + 1, 1000 + lo as u64, &[a]) } else { bc(hi - lo + 1, 0) }; }
    if matches!(node(a), N::Ite(..)) && w <= 32 && ctree(a, 3) { return cmap(a, &mut |x| bc(hi - lo + 1, x >> lo)); }
    let r = match node(a) {
        N::BC(_, v) => bc(hi - lo + 1, v >> lo),
        N::Concat(x, y) => {
            let wy = width(*y);
            if hi < wy { extract(hi, lo, *y) } else if lo >= wy { extract(hi - wy, lo - wy, *x) }
            else { concat(extract(hi - wy, 0, *x), extract(wy - 1, lo, *y)) }
        }
        N::ZExt(_, x) => {
            let wx = width(*x);
            if hi < wx { extract(hi, lo, *x) } else if lo >= wx { bc(hi - lo + 1, 0) } else { zext(hi - lo + 1, extract(wx - 1, lo, *x)) }
        }
        N::SExt(_, x) if hi < width(*x) => extract(hi, lo, *x),
        N::Ext(_, l, x) => extract(hi + l, lo + l, *x),
        N::Ite(c, x, y) if bconst(*x).is_some() && bconst(*y).is_some() => ite(*c, extract(hi, lo, *x), extract(hi, lo, *y)),
        N::Bin(BOp::And, x, y) if bconst(*y).is_some() => bin(BOp::And, extract(hi, lo, *x), extract(hi, lo, *y)),
        _ => mk(N::Ext(hi, lo, a)),
    };
    if hi == lo { return r; }
    r
}
/// bool-sorted i1 to bv1
pub fn to_bv(t: T) -> T {
    if sort(t) == Sort::Bool {
        match node(t) { N::True => bc(1, 1), N::False => bc(1, 0), _ => ite(t, bc(1, 1), bc(1, 0)) }
    } else { t }
}
/// bv1 to bool
pub fn to_bool(t: T) -> T {
    if sort(t) == Sort::Bool { t } else { eq(t, bc(1, 1)) }
}
pub fn zext(w: u16, a: T) -> T {
    let a = to_bv(a);
    let wa = width(a);
    if wa == w { return a; }
    if cx().hash_tainted[a as usize] { return hash_mix(w, 5, &[a]); }
    if matches!(node(a), N::Ite(..)) && wa <= 32 && ctree(a, 3) { return cmap(a, &mut |x| bc(w, x)); }
    match node(a) {
        N::BC(_, v) => bc(w, *v),
        N::ZExt(_, x) => zext(w, *x),
        N::Ite(c, x, y) if bconst(*x).is_some() && bconst(*y).is_some() => ite(*c, zext(w, *x), zext(w, *y)),
        _ => mk(N::ZExt(w, a)),
    }
}
pub fn sext(w: u16, a: T) -> T {
    let a = to_bv(a);
    let wa = width(a);
    if wa == w { return a; }
    if cx().hash_tainted[a as usize] { return hash_mix(w, 6, &[a]); }
    if matches!(node(a), N::Ite(..)) && wa <= 32 && ctree(a, 3) { return cmap(a, &mut |x| bc(w, sext_val(wa, x) as u128)); }
    match node(a) {
        N::BC(_, v) => bc(w, sext_val(wa, *v) as u128),
        N::ZExt(..) => zext(w, a),
        N::Ite(c, x, y) if bconst(*x).is_some() && bconst(*y).is_some() => ite(*c, sext(w, *x), sext(w, *y)),
        _ => mk(N::SExt(w, a)),
    }
}
pub fn ite(c: T, a: T, b: T) -> T {
    match boolconst(c) { Some(true) => return a, Some(false) => return b, _ => {} }
    if a == b { return a; }
    if sort(a) == Sort::Bool {
        return or(and(c, a), and(not(c), b));
    }
    if let N::Not(x) = node(c) { return ite(*x, b, a); }
    mk(N::Ite(c, a, b))
}

pub fn not(a: T) -> T {
    match node(a) {
        N::True => fls(),
        N::False => tru(),
        N::Not(x) => *x,
        N::RCmp(ROp::Gt, p) => poly::cmp_term(ROp::Ge, poly::neg(*p)),
        N::RCmp(ROp::Ge, p) => poly::cmp_term(ROp::Gt, poly::neg(*p)),
        N::Ult(x, y) => ule(*y, *x),
        N::Ule(x, y) => ult(*y, *x),
        N::Slt(x, y) => sle(*y, *x),
        N::Sle(x, y) => slt(*y, *x),
        _ => mk(N::Not(a)),
    }
}
pub fn and(a: T, b: T) -> T {
    match (node(a), node(b)) {
        (N::True, _) => return b,
        (_, N::True) => return a,
        (N::False, _) | (_, N::False) => return fls(),
        _ => {}
    }
    if a == b { return a; }
    if not(a) == b { return fls(); }
    mk(N::And(a.min(b), a.max(b)))
}
pub fn or(a: T, b: T) -> T {
    match (node(a), node(b)) {
        (N::False, _) => return b,
        (_, N::False) => return a,
        (N::True, _) | (_, N::True) => return tru(),
        _ => {}
    }
    if a == b { return a; }
    if not(a) == b { return tru(); }
    mk(N::Or(a.min(b), a.max(b)))
}
/// a small choice between constants (the result of a three-way comparison, say)
fn ctree(t: T, depth: u32) -> bool { match node(t) { N::BC(..) => true, N::Ite(_, a, b) => depth > 0 && ctree(*a, depth - 1) && ctree(*b, depth - 1), _ => false } }
/// can both conditions not hold together, by their form?
fn exclusive(a: T, b: T) -> bool {
    match (node(a), node(b)) {
        (N::RCmp(ROp::Gt, p), N::RCmp(ROp::Gt, q)) => *p == poly::neg(*q),
        (N::RCmp(ROp::Gt, p), N::RCmp(ROp::Eq, q)) | (N::RCmp(ROp::Eq, q), N::RCmp(ROp::Gt, p)) => *p == *q || *p == poly::neg(*q),
        (N::Slt(w, x), N::Slt(y, z)) | (N::Ult(w, x), N::Ult(y, z)) => w == z && x == y,
        _ => false,
    }
}
/// a function of such a choice
fn cmap(t: T, f: &mut dyn FnMut(u128) -> T) -> T {
    match node(t).clone() {
        N::BC(_, v) => f(v),
        N::Ite(c, a, b) => {
            if let N::Ite(d, x, y) = node(b).clone() { if exclusive(c, d) {
                let (p, q, r) = (cmap(a, f), cmap(x, f), cmap(y, f));
                if sort(p) == Sort::Bool {
                    if let (Some(p), Some(q), Some(r)) = (boolconst(p), boolconst(q), boolconst(r)) {
                        return match (p, q, r) { (false, false, false) => fls(), (true, true, true) => tru(), (true, false, false) => c, (false, true, true) => not(c), (false, true, false) => d, (true, false, true) => not(d),
                            (false, false, true) => and(not(c), not(d)), (true, true, false) => or(c, d) };
                    }
                }
                return ite(c, p, ite(d, q, r));
            } }
            let (p, q) = (cmap(a, f), cmap(b, f));
            ite(c, p, q)
        }
        _ => unreachable!(),
    }
}
/// a comparison of such a choice and a constant
fn ccmp(a: T, b: T, f: fn(u16, u128, u128) -> bool) -> Option<T> {
    let w = width(a);
    match (bconst(a), bconst(b)) {
        (None, Some(k)) if ctree(a, 3) => Some(cmap(a, &mut |x| boolc(f(w, x, k)))),
        (Some(k), None) if ctree(b, 3) => Some(cmap(b, &mut |x| boolc(f(w, k, x)))),
        _ => None,
    }
}
pub fn xor_bool(a: T, b: T) -> T { or(and(a, not(b)), and(not(a), b)) }

pub fn eq(a: T, b: T) -> T {
    if a == b { return tru(); }
    if sort(a) == Sort::Bool || sort(b) == Sort::Bool {
        let (a, b) = (to_bool(a), to_bool(b));
        if let Some(k) = boolconst(a) { return if k { b } else { not(b) }; }
        if let Some(k) = boolconst(b) { return if k { a } else { not(a) }; }
        return not(xor_bool(a, b));
    }
    if cx().hash_tainted[a as usize] || cx().hash_tainted[b as usize] {
        let z = bc(width(a), 0);
        let f = |t: T| if cx().hash_tainted[t as usize] { z } else { t };
        return eq(f(a), f(b));
    }
    let (a, b) = if bconst(a).is_some() { (b, a) } else { (a, b) };
    if let Some(k) = bconst(b) {
        if bconst(a).is_some() { return fls(); }
        if let Some(r) = ccmp(a, b, |_, x, y| x == y) { return r; }
        match node(a) {
            N::ZExt(_, x) => {
                let wx = width(*x);
                if k & !mask(wx) != 0 { return fls(); }
                return eq(*x, bc(wx, k));
            }
            N::SExt(w, x) => {
                let wx = width(*x);
                let lo = k & mask(wx);
                if (sext_val(wx, lo) as u128) & mask(*w) != k { return fls(); }
                return eq(*x, bc(wx, lo));
            }
            N::Ite(c, x, y) => {
                if let (Some(p), Some(q)) = (bconst(*x), bconst(*y)) {
                    return match (p == k, q == k) { (true, true) => tru(), (true, false) => *c, (false, true) => not(*c), _ => fls() };
                }
            }
            N::Concat(x, y) => {
                let wy = width(*y);
                let e1 = eq(*x, bc(width(*x), k >> wy));
                let e2 = eq(*y, bc(wy, k));
                return and(e1, e2);
            }
            N::Bin(BOp::Add, x, y) => if let Some(c) = bconst(*y) { let w = width(a); return eq(*x, bc(w, k.wrapping_sub(c))); },
            N::Bin(BOp::Xor, x, y) => if let Some(c) = bconst(*y) { let w = width(a); return eq(*x, bc(w, k ^ c)); },
            _ => {}
        }
    } else if let (N::ZExt(_, x), N::ZExt(_, y)) = (node(a), node(b)) {
        if width(*x) == width(*y) { return eq(*x, *y); }
    } else if let (N::Concat(x1, y1), N::Concat(x2, y2)) = (node(a), node(b)) {
        if width(*y1) == width(*y2) { return and(eq(*x1, *x2), eq(*y1, *y2)); }
    }
    if let Some(k) = bconst(b) { let _ = k; return mk(N::Eq(a, b)); }
    mk(N::Eq(a.min(b), a.max(b)))
}
fn hz(t: T) -> T { if cx().hash_tainted[t as usize] { bc(width(t), 0) } else { to_bv(t) } }
pub fn ult(a: T, b: T) -> T {
    let (a, b) = (hz(a), hz(b));
    if a == b { return fls(); }
    if let Some(r) = ccmp(a, b, |_, x, y| x < y) { return r; }
    match (bconst(a), bconst(b)) {
        (Some(x), Some(y)) => return boolc(x < y),
        (_, Some(0)) => return fls(),
        (_, Some(1)) => return eq(a, bc(width(a), 0)),
        (Some(0), _) => return not(eq(b, bc(width(b), 0))),
        (Some(x), _) if x == mask(width(a)) => return fls(),
        (None, Some(y)) => if let N::ZExt(_, x) = node(a) {
            let wx = width(*x);
            if y > mask(wx) { return tru(); }
            return ult(*x, bc(wx, y));
        },
        (Some(x), None) => if let N::ZExt(_, y) = node(b) {
            let wy = width(*y);
            if x >= mask(wy) { return fls(); }
            return ult(bc(wy, x), *y);
        },
        _ => if let (N::ZExt(_, x), N::ZExt(_, y)) = (node(a), node(b)) { if width(*x) == width(*y) { return ult(*x, *y); } },
    }
    mk(N::Ult(a, b))
}
pub fn ule(a: T, b: T) -> T {
    let (a, b) = (hz(a), hz(b));
    if a == b { return tru(); }
    if let Some(r) = ccmp(a, b, |_, x, y| x <= y) { return r; }
    match (bconst(a), bconst(b)) {
        (Some(x), Some(y)) => return boolc(x <= y),
        (None, Some(y)) => { if y == mask(width(a)) { return tru(); } return ult(a, bc(width(a), y + 1)); }
        (Some(x), None) => { if x == 0 { return tru(); } return ult(bc(width(a), x - 1), b); }
        _ => {}
    }
    mk(N::Ule(a, b))
}
pub fn slt(a: T, b: T) -> T {
    let (a, b) = (hz(a), hz(b));
    if a == b { return fls(); }
    if let Some(r) = ccmp(a, b, |w, x, y| sext_val(w, x) < sext_val(w, y)) { return r; }
    if let (Some(x), Some(y)) = (bconst(a), bconst(b)) { let w = width(a); return boolc(sext_val(w, x) < sext_val(w, y)); }
    let w = width(a);
    let nonneg = |t: T| match node(t) { N::ZExt(_, x) => width(*x) < w, N::BC(_, v) => v >> (w - 1) == 0, _ => false };
    if nonneg(a) && nonneg(b) { return ult(a, b); }
    if nonneg(a) { if let Some(k) = bconst(b) { if k >> (w - 1) == 1 { return fls(); } } }
    if nonneg(b) { if let Some(k) = bconst(a) { if k >> (w - 1) == 1 { return tru(); } } }
    mk(N::Slt(a, b))
}
pub fn sle(a: T, b: T) -> T {
    let (a, b) = (hz(a), hz(b));
    if a == b { return tru(); }
    if let Some(r) = ccmp(a, b, |w, x, y| sext_val(w, x) <= sext_val(w, y)) { return r; }
    if let (Some(x), Some(y)) = (bconst(a), bconst(b)) { let w = width(a); return boolc(sext_val(w, x) <= sext_val(w, y)); }
    let w = width(a);
    let nonneg = |t: T| match node(t) { N::ZExt(_, x) => width(*x) < w, N::BC(_, v) => v >> (w - 1) == 0, _ => false };
    if nonneg(a) && nonneg(b) { return ule(a, b); }
    mk(N::Sle(a, b))
}
pub fn rcmp_raw(op: ROp, p: PolyId) -> T { mk(N::RCmp(op, p)) }

// ---- FP ----
pub fn fc(bits: u64) -> T { mk(N::FC(bits)) }
pub fn fconst(t: T) -> Option<f64> { match node(t) { N::FC(b) => Some(f64::from_bits(*b)), _ => None } }
pub fn fvar(bits: T) -> T {
    match node(bits) { N::BC(_, v) => return fc(*v as u64), N::FBits(f) => return *f, _ => {} }
    mk(N::FVar(bits))
}
pub fn fbits(f: T) -> T {
    match node(f) { N::FC(b) => return bc(64, *b as u128), N::FVar(b) => return *b, _ => {} }
    mk(N::FBits(f))
}
pub fn eval_fbin(op: FOp, a: f64, b: f64) -> f64 {
    match op { FOp::Add => a + b, FOp::Sub => a - b, FOp::Mul => a * b, FOp::Div => a / b, FOp::Rem => a % b }
}
pub fn fbin(op: FOp, a: T, b: T) -> T {
    if let (Some(x), Some(y)) = (fconst(a), fconst(b)) { return fc(eval_fbin(op, x, y).to_bits()); }
    if op == FOp::Mul && fconst(b) == Some(1.0) { return a; }
    if op == FOp::Mul && fconst(a) == Some(1.0) { return b; }
    let (a, b) = if matches!(op, FOp::Add | FOp::Mul) && a > b { (b, a) } else { (a, b) };
    mk(N::FBin(op, a, b))
}
pub fn fneg(a: T) -> T { if let Some(x) = fconst(a) { return fc((-x).to_bits()); } mk(N::FNeg(a)) }
pub fn fabs(a: T) -> T { if let Some(x) = fconst(a) { return fc(x.abs().to_bits()); } if let N::FAbs(_) = node(a) { return a; } mk(N::FAbs(a)) }
pub fn fsqrt(a: T) -> T { if let Some(x) = fconst(a) { return fc(x.sqrt().to_bits()); } mk(N::FSqrt(a)) }
pub fn ffrom(signed: bool, a: T) -> T { mk(N::FFromI(signed, a)) }
pub fn fnan(a: T) -> T { if let Some(x) = fconst(a) { return boolc(x.is_nan()); } if let N::FAbs(x) | N::FNeg(x) = node(a) { return fnan(*x); } mk(N::FNan(a)) }
pub fn fcmp(op: FCmp, a: T, b: T) -> T {
    if let (Some(x), Some(y)) = (fconst(a), fconst(b)) {
        return boolc(match op { FCmp::Eq => x == y, FCmp::Lt => x < y, FCmp::Le => x <= y });
    }
    mk(N::FCmp(op, a, b))
}
pub fn fuf(name: &str, args: Vec<T>) -> T { let u = uf_id(name); mk(N::FUf(u, Rc::new(args))) }

// ---- evaluation ----
#[derive(Clone, Debug, PartialEq)]
pub enum Value { Bv(u128), Real(Rat) }
pub type Model = HashMap<VarId, Value>;

pub struct Ev<'a> { pub m: &'a Model, memo: HashMap<T, Option<u128>, Fx>, pub pmemo: HashMap<u32, Option<Rat>, Fx> }
impl<'a> Ev<'a> {
    pub fn new(m: &'a Model) -> Ev<'a> { Ev { m, memo: HashMap::default(), pmemo: HashMap::default() } }
    pub fn b(&mut self, t: T) -> Option<bool> { self.v(t).map(|x| x != 0) }
    pub fn f(&mut self, t: T) -> Option<f64> { self.v(t).map(|x| f64::from_bits(x as u64)) }
    /// raw value: bv value, bool 0/1, fp bits
    pub fn v(&mut self, t: T) -> Option<u128> {
        if let Some(r) = self.memo.get(&t) { return *r; }
        let r = self.v0(t);
        self.memo.insert(t, r);
        r
    }
    fn v0(&mut self, t: T) -> Option<u128> {
        let w = width(t);
        Some(match node(t).clone() {
            N::BC(_, v) => v,
            N::BVar(_, v) => match self.m.get(&v) { Some(Value::Bv(x)) => *x, _ => 0 },
            N::Bin(op, a, b) => eval_bin(op, w, self.v(a)?, self.v(b)?)?,
            N::Concat(a, b) => (self.v(a)? << width(b)) | self.v(b)?,
            N::Ext(_, lo, a) => (self.v(a)? >> lo) & mask(w),
            N::ZExt(_, a) => self.v(a)?,
            N::SExt(_, a) => (sext_val(width(a), self.v(a)?) as u128) & mask(w),
            N::Ite(c, a, b) => if self.b(c)? { self.v(a)? } else { self.v(b)? },
            N::HashAny(..) => 0,
            N::FBits(f) => self.v(f)?,
            N::True => 1,
            N::False => 0,
            N::Not(a) => (!self.b(a)?) as u128,
            N::And(a, b) => { let (x, y) = (self.b(a), self.b(b)); if x == Some(false) || y == Some(false) { 0 } else { (x? && y?) as u128 } }
            N::Or(a, b) => { let (x, y) = (self.b(a), self.b(b)); if x == Some(true) || y == Some(true) { 1 } else { (x? || y?) as u128 } }
            N::Eq(a, b) => (self.v(a)? == self.v(b)?) as u128,
            N::Ult(a, b) => (self.v(a)? < self.v(b)?) as u128,
            N::Ule(a, b) => (self.v(a)? <= self.v(b)?) as u128,
            N::Slt(a, b) => { let w = width(a); (sext_val(w, self.v(a)?) < sext_val(w, self.v(b)?)) as u128 }
            N::Sle(a, b) => { let w = width(a); (sext_val(w, self.v(a)?) <= sext_val(w, self.v(b)?)) as u128 }
            N::RCmp(op, p) => {
                let s = poly::eval(p, self)?.sign();
                (match op { ROp::Gt => s > 0, ROp::Ge => s >= 0, ROp::Eq => s == 0 }) as u128
            }
            N::FCmp(op, a, b) => { let (x, y) = (self.f(a)?, self.f(b)?); (match op { FCmp::Eq => x == y, FCmp::Lt => x < y, FCmp::Le => x <= y }) as u128 }
            N::FNan(a) => self.f(a)?.is_nan() as u128,
            N::FC(b) => b as u128,
            N::FVar(b) => self.v(b)?,
            N::FBin(op, a, b) => eval_fbin(op, self.f(a)?, self.f(b)?).to_bits() as u128,
            N::FNeg(a) => (-self.f(a)?).to_bits() as u128,
            N::FAbs(a) => self.f(a)?.abs().to_bits() as u128,
            N::FSqrt(a) => self.f(a)?.sqrt().to_bits() as u128,
            N::FFromI(s, a) => { let v = self.v(a)?; (if s { sext_val(width(a), v) as f64 } else { v as f64 }).to_bits() as u128 }
            N::FUf(u, args) => {
                let mut xs = vec![];
                for a in args.iter() { xs.push(self.v(*a)?); }
                let x = f64::from_bits(*xs.first().unwrap_or(&0) as u64);
                match cx().uf_names[u as usize].as_str() {
                    "exp" => x.exp().to_bits() as u128,
                    "ln" => x.ln().to_bits() as u128,
                    "sin" => x.sin().to_bits() as u128,
                    _ => return None,
                }
            }
        })
    }
}
