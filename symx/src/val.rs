//! Runtime values of the executed program.
use crate::poly::PolyId;
use crate::term::{self, Sort, T};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    /// concrete integer / pointer / bit pattern of at most 64 bits
    I(u64),
    /// concrete wide integer
    W(Rc<u128>),
    /// symbolic bit-vector or boolean
    B(T),
    /// real-mode double (exact rational function of the inputs)
    R(PolyId),
    /// IEEE double term
    F(T),
    /// aggregate or vector
    A(Rc<Vec<V>>),
}

impl V {
    pub fn int(w: u16, v: u128) -> V {
        if w > 64 { V::W(Rc::new(v & term::mask(w))) } else { V::I((v & term::mask(w)) as u64) }
    }
    pub fn boolv(b: bool) -> V { V::I(b as u64) }
    /// value of an integer term (constant folded)
    pub fn of(t: T) -> V {
        if let Some(b) = term::boolconst(t) { return V::I(b as u64); }
        if let Some(k) = term::bconst(t) { return V::int(term::width(t), k); }
        if let term::N::FBits(f) = term::node(t) { return V::F(*f); }
        V::B(t)
    }
    pub fn off(f: T) -> V { match term::fconst(f) { Some(d) => V::I(d.to_bits()), None => V::F(f) } }
    /// bit-vector term of width w
    pub fn bv(&self, w: u16) -> T {
        match self {
            V::I(k) => term::bc(w, *k as u128),
            V::W(k) => term::bc(w, **k),
            V::B(t) => { let t = *t; if term::sort(t) == Sort::Bool { term::zext(w, term::to_bv(t)) } else if term::width(t) == w { t } else if term::width(t) < w { term::zext(w, t) } else { term::extract(w - 1, 0, t) } }
            V::F(t) => term::fbits(*t),
            V::R(_) => panic!("integer use of a real value"),
            V::A(_) => panic!("integer use of an aggregate"),
        }
    }
    pub fn boolt(&self) -> T {
        match self {
            V::I(k) => term::boolc(*k & 1 != 0),
            V::B(t) => if term::sort(*t) == Sort::Bool { *t } else if term::width(*t) == 1 { term::to_bool(*t) } else { term::not(term::eq(*t, term::bc(term::width(*t), 0))) },
            _ => panic!("bool use"),
        }
    }
}
