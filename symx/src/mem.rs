//! Copy-on-write memory: a persistent vector of objects, each a byte array with symbolic patches.
use crate::ir::{Module, Ty, FUNC_BASE, GLOBAL_BASE, P};
use crate::term;
use crate::val::V;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub const DYN_BASE: u64 = 0x0200_0000;

#[derive(Clone, Debug)]
pub struct Obj { pub bytes: Vec<u8>, pub sym: BTreeMap<u32, (u8, V)>, pub heap: bool, pub constant: bool }

impl Obj {
    pub fn new(n: usize) -> Obj { Obj { bytes: vec![0; n], sym: BTreeMap::new(), heap: false, constant: false } }
    fn overlaps(&self, off: u32, n: u32) -> bool {
        if self.sym.is_empty() { return false; }
        let lo = off.saturating_sub(15);
        self.sym.range(lo..off + n).any(|(o, (l, _))| o + *l as u32 > off)
    }
    /// make sure no symbolic piece straddles the range boundary, then drop pieces inside
    fn clear(&mut self, off: u32, n: u32) {
        if self.sym.is_empty() { return; }
        let lo = off.saturating_sub(15);
        let hits: Vec<u32> = self.sym.range(lo..off + n).filter(|(o, (l, _))| *o + *l as u32 > off).map(|(o, _)| *o).collect();
        for o in hits {
            let (l, v) = self.sym.remove(&o).unwrap();
            if o < off || o + l as u32 > off + n {
                for k in 0..l as u32 {
                    let p = o + k;
                    if p < off || p >= off + n { self.put_byte(p, piece(&v, l, k)); }
                }
            }
        }
    }
    fn put_byte(&mut self, p: u32, v: V) {
        match v { V::I(b) => self.bytes[p as usize] = b as u8, v => { self.sym.insert(p, (1, v)); } }
    }
    pub fn byte(&self, off: u32) -> V {
        let lo = off.saturating_sub(15);
        for (o, (l, v)) in self.sym.range(lo..=off) {
            if o + *l as u32 > off { if *l == 1 { return v.clone(); } return piece(v, *l, off - o); }
        }
        V::I(self.bytes[off as usize] as u64)
    }
    pub fn set_byte(&mut self, off: u32, v: V) { self.clear(off, 1); self.put_byte(off, v); }
    pub fn load_scalar(&self, off: u32, n: u32) -> V {
        if !self.overlaps(off, n) {
            let b = &self.bytes[off as usize..(off + n) as usize];
            if n <= 8 {
                let mut x = [0u8; 8];
                x[..n as usize].copy_from_slice(b);
                return V::I(u64::from_le_bytes(x));
            }
            let mut x = [0u8; 16];
            x[..n as usize].copy_from_slice(b);
            return V::W(Rc::new(u128::from_le_bytes(x)));
        }
        if let Some((l, v)) = self.sym.get(&off) { if *l as u32 == n { return v.clone(); } }
        // assemble
        let mut t = self.byte(off).bv(8);
        for k in 1..n { t = term::concat(self.byte(off + k).bv(8), t); }
        V::of(t)
    }
    pub fn store_scalar(&mut self, off: u32, n: u32, v: V) {
        self.clear(off, n);
        match v {
            V::I(k) => self.bytes[off as usize..(off + n) as usize].copy_from_slice(&k.to_le_bytes()[..n as usize]),
            V::W(k) => self.bytes[off as usize..(off + n) as usize].copy_from_slice(&k.to_le_bytes()[..n as usize]),
            v => {
                let v = match v { V::B(t) => { let w = (n * 8) as u16; V::of(V::B(t).bv(w)) } v => v };
                match v {
                    V::I(_) | V::W(_) => self.store_scalar(off, n, v),
                    v => { self.sym.insert(off, (n as u8, v)); }
                }
            }
        }
    }
}
fn piece(v: &V, l: u8, k: u32) -> V {
    match v {
        V::R(_) => panic!("byte of a real value"),
        v => { let t = v.bv(l as u16 * 8); V::of(term::extract(k as u16 * 8 + 7, k as u16 * 8, t)) }
    }
}

const CH: usize = 64;
#[derive(Clone)]
struct Chunk { o: Vec<Option<Rc<Obj>>> }

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    free: Vec<u32>,
    n: u32,
    gl: Rc<HashMap<u32, Rc<Obj>>>, // written globals
    pub live: usize,
}

pub struct Globals { pub base: Vec<Option<Rc<Obj>>> }

#[derive(Debug)]
pub struct MemErr(pub String);
type R<X> = Result<X, MemErr>;

impl Mem {
    pub fn new() -> Mem { Mem { chunks: vec![], free: vec![], n: 0, gl: Rc::new(HashMap::new()), live: 0 } }
    pub fn alloc(&mut self, size: u64, heap: bool) -> u64 {
        let id = match self.free.pop() {
            Some(i) => i,
            None => {
                if self.n as usize % CH == 0 { self.chunks.push(Rc::new(Chunk { o: vec![None; CH] })); }
                self.n += 1;
                self.n - 1
            }
        };
        let mut o = Obj::new(size as usize);
        o.heap = heap;
        Rc::make_mut(&mut self.chunks[id as usize / CH]).o[id as usize % CH] = Some(Rc::new(o));
        self.live += 1;
        (DYN_BASE + id as u64) << 32
    }
    pub fn free(&mut self, addr: u64) -> R<()> {
        let id = (addr >> 32).wrapping_sub(DYN_BASE);
        if addr as u32 != 0 || id >= self.n as u64 { return Err(MemErr(format!("free of {:#x}", addr))); }
        let s = &mut Rc::make_mut(&mut self.chunks[id as usize / CH]).o[id as usize % CH];
        if s.is_none() { return Err(MemErr(format!("double free of {:#x}", addr))); }
        *s = None;
        self.free.push(id as u32);
        self.live -= 1;
        Ok(())
    }
    pub fn obj<'a>(&'a self, g: &'a mut Globals, m: &Module, addr: u64, n: u64) -> R<(&'a Obj, u32)> {
        let id = addr >> 32;
        let off = addr as u32;
        let o: &Obj = if id >= DYN_BASE {
            let k = (id - DYN_BASE) as usize;
            match self.chunks.get(k / CH).and_then(|c| c.o[k % CH].as_ref()) {
                Some(o) => o,
                None => return Err(MemErr(format!("access to dead object {:#x}", addr))),
            }
        } else if id >= GLOBAL_BASE && id < FUNC_BASE {
            let k = (id - GLOBAL_BASE) as u32;
            if let Some(o) = self.gl.get(&k) { o } else { g.get(m, k) }
        } else { return Err(MemErr(format!("access to address {:#x}", addr))); };
        if off as u64 + n > o.bytes.len() as u64 { return Err(MemErr(format!("out of bounds access {:#x}+{} of {}", addr, n, o.bytes.len()))); }
        Ok((o, off))
    }
    pub fn obj_mut<'a>(&'a mut self, g: &mut Globals, m: &Module, addr: u64, n: u64) -> R<(&'a mut Obj, u32)> {
        let id = addr >> 32;
        let off = addr as u32;
        let o: &mut Obj = if id >= DYN_BASE {
            let k = (id - DYN_BASE) as usize;
            if k / CH >= self.chunks.len() { return Err(MemErr(format!("store to {:#x}", addr))); }
            match Rc::make_mut(&mut self.chunks[k / CH]).o[k % CH].as_mut() {
                Some(o) => Rc::make_mut(o),
                None => return Err(MemErr(format!("store to dead object {:#x}", addr))),
            }
        } else if id >= GLOBAL_BASE && id < FUNC_BASE {
            let k = (id - GLOBAL_BASE) as u32;
            let gl = Rc::make_mut(&mut self.gl);
            if !gl.contains_key(&k) { let b = g.get_rc(m, k); gl.insert(k, b); }
            Rc::make_mut(gl.get_mut(&k).unwrap())
        } else { return Err(MemErr(format!("store to address {:#x}", addr))); };
        if o.constant { return Err(MemErr(format!("store to constant {:#x}", addr))); }
        if off as u64 + n > o.bytes.len() as u64 { return Err(MemErr(format!("out of bounds store {:#x}+{} of {}", addr, n, o.bytes.len()))); }
        Ok((o, off))
    }
    pub fn size_of(&self, addr: u64) -> Option<u64> {
        let id = addr >> 32;
        if id < DYN_BASE { return None; }
        let k = (id - DYN_BASE) as usize;
        self.chunks.get(k / CH).and_then(|c| c.o[k % CH].as_ref()).map(|o| o.bytes.len() as u64)
    }
    pub fn copy(&mut self, g: &mut Globals, m: &Module, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (bytes, pieces) = {
            let (o, off) = self.obj(g, m, src, n)?;
            let b = o.bytes[off as usize..off as usize + n as usize].to_vec();
            let mut ps: Vec<(u32, u8, V)> = vec![];
            if !o.sym.is_empty() {
                let lo = off.saturating_sub(15);
                let end = off + n as u32;
                for (p, (l, v)) in o.sym.range(lo..end) {
                    let e = p + *l as u32;
                    if e <= off { continue; }
                    if *p >= off && e <= end { ps.push((p - off, *l, v.clone())); }
                    else { for k in 0..*l as u32 { let q = p + k; if q >= off && q < end { ps.push((q - off, 1, piece(v, *l, k))); } } }
                }
            }
            (b, ps)
        };
        let (o, off) = self.obj_mut(g, m, dst, n)?;
        o.clear(off, n as u32);
        o.bytes[off as usize..off as usize + n as usize].copy_from_slice(&bytes);
        for (p, l, v) in pieces {
            if l == 1 { o.put_byte(off + p, v) } else { o.sym.insert(off + p, (l, v)); }
        }
        Ok(())
    }
    pub fn set(&mut self, g: &mut Globals, m: &Module, dst: u64, v: V, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (o, off) = self.obj_mut(g, m, dst, n)?;
        o.clear(off, n as u32);
        match v {
            V::I(b) => o.bytes[off as usize..off as usize + n as usize].fill(b as u8),
            v => for k in 0..n as u32 { o.put_byte(off + k, v.clone()) },
        }
        Ok(())
    }
    pub fn load(&self, g: &mut Globals, m: &Module, t: &Ty, addr: u64) -> R<V> {
        match t {
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() { let (o, ft) = t.field(i); v.push(self.load(g, m, &ft, addr + o)?); }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Array(n, e) | Ty::Vector(n, e) => {
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n { v.push(self.load(g, m, e, addr + i * e.size())?); }
                Ok(V::A(Rc::new(v)))
            }
            _ => {
                let n = t.raw_size();
                let (o, off) = self.obj(g, m, addr, n)?;
                let v = o.load_scalar(off, n as u32);
                if let Ty::Int(w) = t { if *w as u64 != n * 8 { return Ok(match v { V::I(k) => V::int(*w as u16, k as u128), V::B(b) => V::of(term::extract(*w as u16 - 1, 0, V::B(b).bv(n as u16 * 8))), v => v }); } }
                Ok(v)
            }
        }
    }
    pub fn store(&mut self, g: &mut Globals, m: &Module, t: &Ty, addr: u64, v: V) -> R<()> {
        match t {
            Ty::Struct(f, _) => {
                if let V::A(a) = v { for i in 0..f.len() { let (o, ft) = t.field(i); self.store(g, m, &ft, addr + o, a[i].clone())?; } Ok(()) } else { panic!("store struct") }
            }
            Ty::Array(_, e) | Ty::Vector(_, e) => {
                if let V::A(a) = v { for (i, x) in a.iter().enumerate() { self.store(g, m, e, addr + i as u64 * e.size(), x.clone())?; } Ok(()) } else { panic!("store array") }
            }
            _ => {
                let n = t.raw_size();
                let (o, off) = self.obj_mut(g, m, addr, n)?;
                o.store_scalar(off, n as u32, v);
                Ok(())
            }
        }
    }
}

impl Globals {
    pub fn new(m: &Module) -> Globals { Globals { base: vec![None; m.globals.len()] } }
    fn get(&mut self, m: &Module, k: u32) -> &Obj {
        self.ensure(m, k);
        self.base[k as usize].as_ref().unwrap()
    }
    fn get_rc(&mut self, m: &Module, k: u32) -> Rc<Obj> { self.ensure(m, k); self.base[k as usize].clone().unwrap() }
    fn ensure(&mut self, m: &Module, k: u32) {
        if self.base[k as usize].is_some() { return; }
        let gi = &m.globals[k as usize];
        let l = m.lines[gi.line];
        // find "global " or "constant "
        let p1 = l.find(" global ").map(|p| p + 8);
        let p2 = l.find(" constant ").map(|p| p + 10);
        let p = match (p1, p2) { (Some(a), Some(b)) => a.min(b), (Some(a), None) => a, (None, Some(b)) => b, _ => panic!("global {}", l) };
        let mut ps = P::new(m, &l[p..]);
        let t = ps.ty();
        let v = ps.konst(&t);
        let mut o = Obj::new(t.size() as usize);
        fn put(o: &mut Obj, t: &Ty, off: u32, v: &V) {
            match t {
                Ty::Struct(f, _) => if let V::A(a) = v { for i in 0..f.len() { let (x, ft) = t.field(i); put(o, &ft, off + x as u32, &a[i]); } },
                Ty::Array(_, e) | Ty::Vector(_, e) => if let V::A(a) = v { let s = e.size() as u32; for (i, x) in a.iter().enumerate() { put(o, e, off + i as u32 * s, x); } },
                _ => o.store_scalar(off, t.raw_size() as u32, v.clone()),
            }
        }
        put(&mut o, &t, 0, &v);
        o.constant = gi.constant;
        self.base[k as usize] = Some(Rc::new(o));
    }
}
