//! Models of what the program calls but does not define: LLVM intrinsics, libc (with an in-memory
//! file system), and the vx_* harness interface.
use crate::exec::*;
use crate::ir::*;
use crate::mem::DYN_BASE;
use crate::poly;
use crate::rat::Rat;
use crate::term::{self, BOp, FOp, ROp, Value, VSort};
use crate::val::V;
use std::rc::Rc;

const SIGN0: u64 = 0;
pub const H_NOP: u32 = 1;
pub const H_PANIC: u32 = 2;
pub const H_LLVM: u32 = 3;
pub const H_LIBC: u32 = 4;
pub const H_VX: u32 = 5;
pub const H_FROMSTR: u32 = 6;

pub fn classify(f: &FnInfo) -> u32 {
    let n = f.name.as_str();
    if n.starts_with("llvm.") { return H_LLVM; }
    if n.starts_with("vx_") { return H_VX; }
    if f.body.is_none() { return H_LIBC; }
    let p = f.pretty.as_str();
    if p == "std::io::stdio::_print" || p == "std::io::stdio::_eprint" { return H_NOP; }
    if p == "<f64 as core::str::traits::FromStr>::from_str" { return H_FROMSTR; }
    if f.noreturn || n == "rust_panic" || p.starts_with("std::process::exit") || p.starts_with("std::process::abort") { return H_PANIC; }
    0
}

type O = R<Option<V>>;
fn some(k: u64) -> O { Ok(Some(V::I(k))) }

impl Exec {
    pub fn model_call(&mut self, st: &mut State, fi: u32, hook: u32, a: &[V], args: &[(Ty, Opd)]) -> O {
        match hook {
            H_NOP => some(0),
            H_PANIC => {
                let p = self.m.fns[fi as usize].pretty.clone();
                let tr = self.trace(st);
                let w: Vec<String> = tr.into_iter().take(4).collect();
                Err(Stop::Panic(format!("{} <- {}", p, w.join(" <- "))))
            }
            H_LLVM => self.llvm(st, fi, a, args),
            H_LIBC => self.libc(st, fi, a),
            H_VX => self.vx(st, fi, a),
            H_FROMSTR => self.from_str(st, a),
            _ => Err(Stop::Error("hook".into())),
        }
    }
    fn lane(&mut self, st: &mut State, t: &Ty, a: &[V], f: &mut dyn FnMut(&mut Exec, &mut State, &Ty, &[V]) -> R<V>) -> R<V> {
        if let Ty::Vector(n, e) = t {
            let mut o = vec![];
            for i in 0..*n as usize {
                let xs: Vec<V> = a.iter().map(|x| match x { V::A(v) => v[i].clone(), x => x.clone() }).collect();
                o.push(f(self, st, e, &xs)?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        f(self, st, t, a)
    }
    fn llvm(&mut self, st: &mut State, fi: u32, a: &[V], args: &[(Ty, Opd)]) -> O {
        let name = self.m.fns[fi as usize].name.clone();
        let parts: Vec<&str> = name.split('.').collect();
        let base = parts[1];
        let t0 = args.first().map(|x| x.0.clone()).unwrap_or(Ty::Void);
        match base {
            "lifetime" | "dbg" | "assume" | "prefetch" | "invariant" | "var" | "donothing" | "pseudoprobe" => some(0),
            "experimental" => some(0),
            "expect" => Ok(Some(a[0].clone())),
            "threadlocal" => Ok(Some(a[0].clone())),
            "launder" | "strip" => Ok(Some(a[0].clone())),
            "is" if parts[2] == "fpclass" => {
                let mask = self.int(st, &a[1])?;
                let conc = |d: f64| -> bool {
                    let neg = d.is_sign_negative();
                    let b = if d.is_nan() { 2 } else if d.is_infinite() { if neg { 4 } else { 512 } } else if d == 0.0 { if neg { 32 } else { 64 } } else if d.is_subnormal() { if neg { 16 } else { 128 } } else if neg { 8 } else { 256 };
                    mask & b != 0
                };
                match &a[0] {
                    V::I(b) if !self.cfg.real || !self.carriers.contains_key(b) => some(conc(f64::from_bits(*b)) as u64),
                    V::F(_) => Err(Stop::Error("is.fpclass of a symbolic double".into())),
                    v => match self.real_pub(v)? {
                        Err(d) => some(conc(d) as u64),
                        Ok(p) => {
                            let mut t = term::boolc(false);
                            if mask & 64 != 0 { t = term::or(t, poly::cmp_term(ROp::Eq, p)); }
                            if mask & 256 != 0 { t = term::or(t, poly::cmp_term(ROp::Gt, p)); }
                            if mask & 8 != 0 { t = term::or(t, poly::cmp_term(ROp::Gt, poly::neg(p))); }
                            Ok(Some(V::of(t)))
                        }
                    },
                }
            }
            "is" => some(0), // is.constant
            "objectsize" => some(u64::MAX),
            "trap" | "debugtrap" | "ubsantrap" => { let tr = self.trace(st); Err(Stop::Panic(format!("trap <- {}", tr.join(" <- ")))) }
            "x86" => some(0),
            "memcpy" | "memmove" => {
                let n = self.int(st, &a[2])?;
                if n == 0 { return some(0); }
                let (d, s) = (self.addr_pub(st, &a[0])?, self.addr_pub(st, &a[1])?);
                st.mem.copy(&mut self.g, &self.m, d, s, n)?;
                some(0)
            }
            "memset" => {
                let n = self.int(st, &a[2])?;
                if n == 0 { return some(0); }
                let d = self.addr_pub(st, &a[0])?;
                st.mem.set(&mut self.g, &self.m, d, a[1].clone(), n)?;
                some(0)
            }
            "ptrmask" => Ok(Some(self.ibin_pub(st, BOp::And, 64, &a[0], &a[1])?)),
            "umax" | "umin" | "smax" | "smin" => {
                let p = match base { "umax" => IPred::Ugt, "umin" => IPred::Ult, "smax" => IPred::Sgt, _ => IPred::Slt };
                let r = self.lane(st, &t0, a, &mut |e, st, t, x| { let c = e.icmp_pub(st, p, t.width(), &x[0], &x[1])?; e.select_pub(st, t, &c, &x[0], &x[1]) })?;
                Ok(Some(r))
            }
            "abs" => {
                let r = self.lane(st, &t0, &a[..1], &mut |e, st, t, x| { let z = V::int(t.width(), 0); let c = e.icmp_pub(st, IPred::Slt, t.width(), &x[0], &z)?; let n = e.ibin_pub(st, BOp::Sub, t.width(), &z, &x[0])?; e.select_pub(st, t, &c, &n, &x[0]) })?;
                Ok(Some(r))
            }
            "ucmp" | "scmp" => {
                let w = t0.width();
                let (l, g) = if base == "ucmp" { (IPred::Ult, IPred::Ugt) } else { (IPred::Slt, IPred::Sgt) };
                let c = self.icmp_pub(st, l, w, &a[0], &a[1])?;
                let rw: u16 = parts[2][1..].parse().unwrap_or(8);
                let d = self.icmp_pub(st, g, w, &a[0], &a[1])?;
                // a choice of three constants: it forks where it is used, on what is used
                let ty = Ty::Int(rw as u32);
                let r = self.select_pub(st, &ty, &d, &V::int(rw, 1), &V::int(rw, 0))?;
                Ok(Some(self.select_pub(st, &ty, &c, &V::int(rw, u128::MAX), &r)?))
            }
            "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" => {
                let b = base.to_string();
                let r = self.lane(st, &t0, &a[..1], &mut |e, st, t, x| {
                    let w = t.width();
                    let k = match cint(&x[0]) { Some(k) => k, None => { let tt = x[0].bv(w); e.conc(st, tt)? } };
                    let k = k & term::mask(w);
                    Ok(V::int(w, match b.as_str() {
                        "ctpop" => k.count_ones() as u128,
                        "ctlz" => if k == 0 { w as u128 } else { (k.leading_zeros() - (128 - w as u32)) as u128 },
                        "cttz" => if k == 0 { w as u128 } else { k.trailing_zeros() as u128 },
                        "bswap" => k.swap_bytes() >> (128 - w as u32),
                        _ => k.reverse_bits() >> (128 - w as u32),
                    }))
                })?;
                Ok(Some(r))
            }
            "fshl" | "fshr" => {
                let w = t0.width();
                let s = self.int(st, &a[2])? % w as u64;
                if let (Some(x), Some(y)) = (cint(&a[0]), cint(&a[1])) {
                    let m = term::mask(w);
                    let (x, y) = (x & m, y & m);
                    let r = if base == "fshl" { if s == 0 { x } else { (x << s) | (y >> (w as u64 - s)) } } else if s == 0 { y } else { (x << (w as u64 - s)) | (y >> s) };
                    return Ok(Some(V::int(w, r)));
                }
                let (x, y) = (a[0].bv(w), a[1].bv(w));
                if term::cx().hash_tainted[x as usize] || term::cx().hash_tainted[y as usize] { return Ok(Some(V::B(term::hash_mix(w, 5000 + s + if base == "fshl" { 0 } else { 1000 }, &[x, y])))); }
                let s = s as u16;
                if s == 0 { return Ok(Some(V::of(if base == "fshl" { x } else { y }))); }
                let r = if base == "fshl" { term::concat(term::extract(w - 1 - s, 0, x), term::extract(w - 1, w - s, y)) } else { term::concat(term::extract(s - 1, 0, x), term::extract(w - 1, s, y)) };
                Ok(Some(V::of(r)))
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let w = t0.width();
                let sat = parts[2] == "sat";
                let op = match &base[1..] { "add" => BOp::Add, "sub" => BOp::Sub, _ => BOp::Mul };
                let signed = base.starts_with('s');
                let (x, y) = (&a[0], &a[1]);
                let (r, ov) = if let (Some(p), Some(q)) = (cint(x), cint(y)) {
                    let r = term::eval_bin(op, w, p, q).unwrap();
                    let ov = if signed {
                        let (p, q) = (term::sext_val(w, p), term::sext_val(w, q));
                        let f = match op { BOp::Add => p.checked_add(q), BOp::Sub => p.checked_sub(q), _ => p.checked_mul(q) };
                        f.map_or(true, |f| f != term::sext_val(w, r))
                    } else {
                        let f = match op { BOp::Add => p.checked_add(q), BOp::Sub => p.checked_sub(q), _ => p.checked_mul(q) };
                        f.map_or(true, |f| f & !term::mask(w) != 0)
                    };
                    (V::int(w, r), V::boolv(ov))
                } else {
                    let (p, q) = (x.bv(w), y.bv(w));
                    if term::cx().hash_tainted[p as usize] || term::cx().hash_tainted[q as usize] { (V::B(term::hash_mix(w, if op == BOp::Add { term::HOP_ADD } else { 100 + op as u64 }, &[p, q])), V::I(0)) } else {
                    let ww = if op == BOp::Mul { 2 * w } else { w + 1 };
                    if ww > 128 {
                        // wide product: only the unsigned case with a constant factor
                        let (k, z) = match (term::bconst(p), term::bconst(q)) { (Some(k), _) => (k, q), (_, Some(k)) => (k, p), _ => return Err(Stop::Error("symbolic wide multiply".into())) };
                        let ov = if k == 0 { term::fls() } else { term::ult(term::bc(w, term::mask(w) / k), z) };
                        (V::of(term::bin(op, p, q)), V::of(ov))
                    } else {
                        let (e, f) = if signed { (term::sext(ww, p), term::sext(ww, q)) } else { (term::zext(ww, p), term::zext(ww, q)) };
                        let full = term::bin(op, e, f);
                        let r = term::extract(w - 1, 0, full);
                        let back = if signed { term::sext(ww, r) } else { term::zext(ww, r) };
                        let ov = if !signed && op == BOp::Sub { term::ult(p, q) } else { term::not(term::eq(full, back)) };
                        (V::of(term::bin(op, p, q)), V::of(ov))
                    } }
                };
                if !sat { return Ok(Some(V::A(Rc::new(vec![r, ov])))); }
                let o = self.cond(st, &ov)?;
                if !o { return Ok(Some(r)); }
                if !signed { return Ok(Some(V::int(w, if op == BOp::Sub { 0 } else { u128::MAX }))); }
                let yneg = self.icmp_pub(st, IPred::Slt, w, y, &V::int(w, 0))?;
                let yneg = self.cond(st, &yneg)?;
                let to_max = (op == BOp::Add) != yneg;
                Ok(Some(V::int(w, if to_max { term::mask(w) >> 1 } else { 1u128 << (w - 1) })))
            }
            "fabs" => Ok(Some(self.lane(st, &t0, a, &mut |e, st, _, x| e.fabs(st, &x[0]))?)),
            "exp" | "sin" | "cos" | "sqrt" | "log" | "log10" | "log2" | "exp2" | "floor" | "ceil" | "trunc" | "round" | "rint" | "nearbyint" | "roundeven" => {
                let n = match base { "log" => "ln", "nearbyint" | "roundeven" => "rint", b => b };
                Ok(Some(self.fun1(st, n, &a[0])?))
            }
            "powi" => { let n = self.int(st, &a[1])?; Ok(Some(self.powi(st, &a[0], n as u32 as i32 as i64)?)) }
            "pow" => Ok(Some(self.fpow(st, &a[0], &a[1])?)),
            "fmuladd" | "fma" => { let p = self.fbin(st, FOp::Mul, &a[0], &a[1])?; Ok(Some(self.fbin(st, FOp::Add, &p, &a[2])?)) }
            "copysign" => {
                let c = self.fcmp(FPred::Olt, &a[1], &V::I(0))?;
                let x = self.fabs(st, &a[0])?;
                let neg = match &a[1] { V::I(b) => b >> 63 == 1, _ => self.cond(st, &c)? };
                Ok(Some(if neg { self.fneg(&x)? } else { x }))
            }
            "maxnum" | "maximum" | "maximumnum" => Ok(Some(self.fminmax(st, true, &a[0], &a[1])?)),
            "minnum" | "minimum" | "minimumnum" => Ok(Some(self.fminmax(st, false, &a[0], &a[1])?)),
            "fptosi" | "fptoui" => { let w: u16 = parts[3][1..].parse().unwrap(); Ok(Some(self.fptoint_pub(st, base == "fptosi", w, &a[0])?)) }
            "vector" => {
                // vector.reduce.<op>
                let V::A(v) = &a[a.len() - 1] else { return Err(Stop::Error("reduce".into())) };
                let Ty::Vector(_, e) = &args[a.len() - 1].0 else { return Err(Stop::Error("reduce".into())) };
                let w = e.width();
                let mut r = v[0].clone();
                for x in v[1..].iter() {
                    r = match parts[3] {
                        "or" => self.ibin_pub(st, BOp::Or, w, &r, x)?, "and" => self.ibin_pub(st, BOp::And, w, &r, x)?, "xor" => self.ibin_pub(st, BOp::Xor, w, &r, x)?, "add" => self.ibin_pub(st, BOp::Add, w, &r, x)?, "mul" => self.ibin_pub(st, BOp::Mul, w, &r, x)?,
                        "umax" | "umin" | "smax" | "smin" => { let p = match parts[3] { "umax" => IPred::Ugt, "umin" => IPred::Ult, "smax" => IPred::Sgt, _ => IPred::Slt }; let c = self.icmp_pub(st, p, w, &r, x)?; self.select_pub(st, e, &c, &r, x)? }
                        "fadd" => self.fbin(st, FOp::Add, &r, x)?, "fmul" => self.fbin(st, FOp::Mul, &r, x)?,
                        o => return Err(Stop::Error(format!("reduce {}", o))),
                    };
                }
                Ok(Some(r))
            }
            _ => Err(Stop::Error(format!("intrinsic {}", name))),
        }
    }
    fn fpow(&mut self, st: &mut State, x: &V, y: &V) -> R<V> {
        if let V::I(b) = y {
            let d = f64::from_bits(*b);
            if d == d.trunc() && d.abs() <= 64.0 { return self.powi(st, x, d as i64); }
            if d == 0.5 { return self.fun1(st, "sqrt", x); }
            if let V::I(a) = x { return Ok(V::I(f64::from_bits(*a).powf(d).to_bits())); }
        }
        // x^y = exp(y ln x)
        let l = self.fun1(st, "ln", x)?;
        let p = self.fbin(st, FOp::Mul, y, &l)?;
        self.fun1(st, "exp", &p)
    }
    fn cstr(&mut self, st: &State, p: u64) -> R<String> {
        let mut o = vec![];
        loop {
            let (ob, off) = st.mem.obj(&mut self.g, &self.m, p + o.len() as u64, 1)?;
            match ob.byte(off) { V::I(0) => break, V::I(k) => o.push(k as u8), _ => return Err(Stop::Error("symbolic path name".into())) }
        }
        String::from_utf8(o).map_err(|_| Stop::Error("path name".into()))
    }
    fn bytes(&mut self, st: &State, p: u64, n: u64) -> R<Vec<V>> {
        let mut o = Vec::with_capacity(n as usize);
        if n == 0 { return Ok(o); }
        let (ob, off) = st.mem.obj(&mut self.g, &self.m, p, n)?;
        if ob.sym.is_empty() { for k in 0..n as usize { o.push(V::I(ob.bytes[off as usize + k] as u64)); } }
        else { for k in 0..n as u32 { o.push(ob.byte(off + k)); } }
        Ok(o)
    }
    fn text(&mut self, st: &State, p: &V, n: &V) -> R<String> {
        let (V::I(p), V::I(n)) = (p, n) else { return Err(Stop::Error("text".into())) };
        let b = self.bytes(st, *p, *n)?;
        Ok(b.iter().map(|v| match v { V::I(k) => *k as u8 as char, _ => '?' }).collect())
    }
    fn err(&mut self, st: &mut State, e: u64, r: i64) -> O {
        let p = st.errno;
        st.mem.store(&mut self.g, &self.m, &Ty::Int(32), p, V::I(e))?;
        some(r as u64)
    }
    fn norm(p: &str) -> String {
        let full = if p.starts_with('/') { p.to_string() } else { format!("/w/{}", p) };
        let mut o: Vec<&str> = vec![];
        for c in full.split('/') { match c { "" | "." => {} ".." => { o.pop(); } c => o.push(c) } }
        format!("/{}", o.join("/"))
    }
    fn libc(&mut self, st: &mut State, fi: u32, a: &[V]) -> O {
        let name = self.m.fns[fi as usize].name.clone();
        let i32r = |x: i64| -> O { some(x as u32 as u64) };
        match name.as_str() {
            "malloc" => { let n = self.int(st, &a[0])?; self.alloc(st, n) }
            "calloc" => { let n = self.int(st, &a[0])? * self.int(st, &a[1])?; self.alloc(st, n) }
            "posix_memalign" => {
                let n = self.int(st, &a[2])?;
                let Some(V::I(p)) = self.alloc(st, n)? else { unreachable!() };
                let d = self.addr_pub(st, &a[0])?;
                st.mem.store(&mut self.g, &self.m, &Ty::Ptr, d, V::I(p))?;
                some(0)
            }
            "aligned_alloc" | "memalign" => { let n = self.int(st, &a[1])?; self.alloc(st, n) }
            "realloc" => {
                let (p, n) = (self.addr_pub(st, &a[0])?, self.int(st, &a[1])?);
                let Some(V::I(q)) = self.alloc(st, n)? else { unreachable!() };
                if p != 0 { let old = st.mem.size_of(p).unwrap_or(0); st.mem.copy(&mut self.g, &self.m, q, p, old.min(n))?; st.mem.free(p)?; }
                some(q)
            }
            "free" => { let p = self.addr_pub(st, &a[0])?; if p != 0 { st.mem.free(p)?; } some(0) }
            "bcmp" | "memcmp" => {
                let (p, q, n) = (self.addr_pub(st, &a[0])?, self.addr_pub(st, &a[1])?, self.int(st, &a[2])?);
                if n > 0 && (p >> 32 < 1 || q >> 32 < 1) { return Err(Stop::Error("memcmp of null".into())); }
                let (x, y) = (self.bytes(st, p, n)?, self.bytes(st, q, n)?);
                if name == "bcmp" {
                    let mut t = term::tru();
                    for k in 0..n as usize {
                        if let (V::I(c), V::I(d)) = (&x[k], &y[k]) { if c != d { return some(1); } continue; }
                        t = term::and(t, term::eq(x[k].bv(8), y[k].bv(8)));
                    }
                    return Ok(Some(V::of(term::ite(t, term::bc(32, 0), term::bc(32, 1)))));
                }
                for k in 0..n as usize {
                    let e = self.icmp_pub(st, IPred::Eq, 8, &x[k], &y[k])?;
                    if !self.cond(st, &e)? {
                        let l = self.icmp_pub(st, IPred::Ult, 8, &x[k], &y[k])?;
                        return if self.cond(st, &l)? { some(0xffff_ffff) } else { some(1) };
                    }
                }
                some(0)
            }
            "memchr" => {
                let (p, n) = (self.addr_pub(st, &a[0])?, self.int(st, &a[2])?);
                let x = self.bytes(st, p, n)?;
                let c = match &a[1] { V::I(k) => V::I(k & 255), v => V::of(term::extract(7, 0, v.bv(32))) };
                for k in 0..n as usize { let e = self.icmp_pub(st, IPred::Eq, 8, &x[k], &c)?; if self.cond(st, &e)? { return some(p + k as u64); } }
                some(0)
            }
            "strlen" => {
                let p = self.addr_pub(st, &a[0])?;
                let mut n = 0;
                loop {
                    let b = { let (o, off) = st.mem.obj(&mut self.g, &self.m, p + n, 1)?; o.byte(off) };
                    let e = self.icmp_pub(st, IPred::Eq, 8, &b, &V::I(0))?;
                    if self.cond(st, &e)? { return some(n); }
                    n += 1;
                }
            }
            "memcpy" | "memmove" => { let n = self.int(st, &a[2])?; let (d, s) = (self.addr_pub(st, &a[0])?, self.addr_pub(st, &a[1])?); st.mem.copy(&mut self.g, &self.m, d, s, n)?; some(d) }
            "memset" => { let n = self.int(st, &a[2])?; let d = self.addr_pub(st, &a[0])?; st.mem.set(&mut self.g, &self.m, d, a[1].clone(), n)?; some(d) }
            "getrandom" => {
                let (p, n) = (self.addr_pub(st, &a[0])?, self.int(st, &a[1])?);
                for k in 0..n / 8 { st.mem.store(&mut self.g, &self.m, &Ty::Int(64), p + k * 8, V::B(term::hash_key(64, { st.nkeys += 1; st.nkeys })))?; }
                for k in n / 8 * 8..n { st.mem.store(&mut self.g, &self.m, &Ty::Int(8), p + k, V::B(term::hash_key(8, { st.nkeys += 1; st.nkeys })))?; }
                some(n)
            }
            "__errno_location" => some(st.errno),
            "getenv" => some(0),
            "gettid" | "getpid" => some(1000),
            "pthread_key_create" => {
                st.nkeys += 1;
                let p = self.addr_pub(st, &a[0])?;
                let k = st.nkeys;
                st.mem.store(&mut self.g, &self.m, &Ty::Int(32), p, V::I(k))?;
                some(0)
            }
            "pthread_key_delete" | "pthread_setspecific" | "__cxa_thread_atexit_impl" => some(0),
            "pthread_getspecific" => some(0),
            "pthread_self" => some(1),
            "sched_yield" => some(0),
            "syscall" => self.err(st, 38, -1), // ENOSYS
            "abort" | "exit" | "_exit" => { let tr = self.trace(st); Err(Stop::Panic(format!("{} <- {}", name, tr.join(" <- ")))) }
            "exp" | "log" | "sin" | "cos" | "sqrt" | "tan" | "log10" | "log2" | "exp2" | "tanh" | "sinh" | "cosh" | "expm1" | "log1p" | "atan" | "floor" | "ceil" | "trunc" | "round" | "rint" => Ok(Some(self.fun1(st, if name == "log" { "ln" } else { &name }, &a[0])?)),
            "pow" => Ok(Some(self.fpow(st, &a[0], &a[1])?)),
            "fmod" => Ok(Some(self.fbin(st, FOp::Rem, &a[0], &a[1])?)),
            "fma" => { let p = self.fbin(st, FOp::Mul, &a[0], &a[1])?; Ok(Some(self.fbin(st, FOp::Add, &p, &a[2])?)) }
            "fmin" => Ok(Some(self.fminmax(st, false, &a[0], &a[1])?)),
            "fmax" => Ok(Some(self.fminmax(st, true, &a[0], &a[1])?)),
            "hypot" => { let x = self.fbin(st, FOp::Mul, &a[0], &a[0])?; let y = self.fbin(st, FOp::Mul, &a[1], &a[1])?; let s = self.fbin(st, FOp::Add, &x, &y)?; Ok(Some(self.fun1(st, "sqrt", &s)?)) }
            // ---- files
            "open64" | "open" => {
                let pa = self.addr_pub(st, &a[0])?;
                let p = Self::norm(&self.cstr(st, pa)?);
                let fl = self.int(st, &a[1])?;
                let v = Rc::make_mut(&mut st.vfs);
                let exists = v.files.contains_key(&p);
                if v.dirs.contains(&p) && fl & 3 != 0 { return self.err(st, 21, 0xffff_ffff); }
                if !exists {
                    if v.dirs.contains(&p) { v.fds.push(Some((p, 0, fl))); let n = v.fds.len() as u64 - 1; return some(n); }
                    if fl & 0x40 == 0 { return self.err(st, 2, 0xffff_ffff); }
                    let parent = p.rsplit_once('/').map(|x| x.0).unwrap_or("");
                    if !parent.is_empty() && !v.dirs.contains(parent) { return self.err(st, 2, 0xffff_ffff); }
                    v.files.insert(p.clone(), Rc::new(vec![]));
                } else if fl & 0xc0 == 0xc0 { return self.err(st, 17, 0xffff_ffff); }
                if fl & 0x200 != 0 { v.files.insert(p.clone(), Rc::new(vec![])); }
                let pos = if fl & 0x400 != 0 { v.files[&p].len() } else { 0 };
                v.fds.push(Some((p, pos, fl)));
                let n = v.fds.len() as u64 - 1;
                some(n)
            }
            "close" => { let fd = self.int(st, &a[0])? as usize; let v = Rc::make_mut(&mut st.vfs); if fd < v.fds.len() && fd > 2 { v.fds[fd] = None; } some(0) }
            "read" | "pread64" => {
                let fd = self.int(st, &a[0])? as usize;
                let (p, n) = (self.addr_pub(st, &a[1])?, self.int(st, &a[2])? as usize);
                let Some(Some((path, pos, _))) = st.vfs.fds.get(fd).cloned() else { return self.err(st, 9, -1) };
                if fd < 3 { return some(0); }
                let Some(f) = st.vfs.files.get(&path).cloned() else { return self.err(st, 21, -1) };
                let k = n.min(f.len().saturating_sub(pos));
                if k > 0 {
                    let (o, off) = st.mem.obj_mut(&mut self.g, &self.m, p, k as u64)?;
                    for i in 0..k { o.set_byte(off + i as u32, f[pos + i].clone()); }
                }
                let v = Rc::make_mut(&mut st.vfs);
                v.fds[fd] = Some((path, pos + k, 0));
                some(k as u64)
            }
            "write" => {
                let fd = self.int(st, &a[0])? as usize;
                let (p, n) = (self.addr_pub(st, &a[1])?, self.int(st, &a[2])?);
                let b = self.bytes(st, p, n)?;
                self.vwrite(st, fd, b)
            }
            "writev" => {
                let fd = self.int(st, &a[0])? as usize;
                let (p, n) = (self.addr_pub(st, &a[1])?, self.int(st, &a[2])?);
                let mut all = vec![];
                for k in 0..n {
                    let b = st.mem.load(&mut self.g, &self.m, &Ty::Ptr, p + k * 16)?;
                    let l = st.mem.load(&mut self.g, &self.m, &Ty::Int(64), p + k * 16 + 8)?;
                    let (b, l) = (self.addr_pub(st, &b)?, self.int(st, &l)?);
                    all.extend(self.bytes(st, b, l)?);
                }
                self.vwrite(st, fd, all)
            }
            "lseek64" | "lseek" => {
                let fd = self.int(st, &a[0])? as usize;
                let (o, wh) = (self.int(st, &a[1])? as i64, self.int(st, &a[2])?);
                let Some(Some((path, pos, fl))) = st.vfs.fds.get(fd).cloned() else { return self.err(st, 9, -1) };
                let len = st.vfs.files.get(&path).map_or(0, |f| f.len()) as i64;
                let np = match wh { 0 => o, 1 => pos as i64 + o, _ => len + o };
                Rc::make_mut(&mut st.vfs).fds[fd] = Some((path, np as usize, fl));
                some(np as u64)
            }
            "fsync" | "fdatasync" | "fcntl" | "fcntl64" | "munmap" | "poll" | "madvise" | "ioctl" => some(0),
            "isatty" => some(0),
            "stat64" | "lstat64" | "stat" | "lstat" => { let pa = self.addr_pub(st, &a[0])?; let p = Self::norm(&self.cstr(st, pa)?); let b = self.addr_pub(st, &a[1])?; self.stat(st, &p, b) }
            "fstat64" | "fstat" => {
                let fd = self.int(st, &a[0])? as usize;
                let b = self.addr_pub(st, &a[1])?;
                let Some(Some((path, _, _))) = st.vfs.fds.get(fd).cloned() else { return self.err(st, 9, 0xffff_ffff) };
                self.stat(st, &path, b)
            }
            "statx" => {
                let dfd = self.int(st, &a[0])?;
                let pa = self.addr_pub(st, &a[1])?;
                let b = self.addr_pub(st, &a[4])?;
                if pa == 0 { return self.err(st, 14, 0xffff_ffff); }
                let s = self.cstr(st, pa)?;
                let p = if s.is_empty() { match st.vfs.fds.get(dfd as usize) { Some(Some((p, _, _))) => p.clone(), _ => return self.err(st, 9, 0xffff_ffff) } } else { Self::norm(&s) };
                let (mode, size) = match self.mode(st, &p) { Some(x) => x, None => return self.err(st, 2, 0xffff_ffff) };
                st.mem.set(&mut self.g, &self.m, b, V::I(0), 256)?;
                st.mem.store(&mut self.g, &self.m, &Ty::Int(32), b, V::I(0x17ff))?;
                st.mem.store(&mut self.g, &self.m, &Ty::Int(32), b + 4, V::I(4096))?;
                st.mem.store(&mut self.g, &self.m, &Ty::Int(32), b + 16, V::I(1))?;
                st.mem.store(&mut self.g, &self.m, &Ty::Int(16), b + 28, V::I(mode))?;
                st.mem.store(&mut self.g, &self.m, &Ty::Int(64), b + 40, V::I(size))?;
                some(0)
            }
            "access" | "faccessat" => { let pa = self.addr_pub(st, &a[if name == "access" { 0 } else { 1 }])?; let p = Self::norm(&self.cstr(st, pa)?); if self.mode(st, &p).is_some() { some(0) } else { self.err(st, 2, 0xffff_ffff) } }
            "mkdir" => {
                let pa = self.addr_pub(st, &a[0])?;
                let p = Self::norm(&self.cstr(st, pa)?);
                if self.mode(st, &p).is_some() { return self.err(st, 17, 0xffff_ffff); }
                let parent = p.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default();
                if !parent.is_empty() && !st.vfs.dirs.contains(&parent) { return self.err(st, 2, 0xffff_ffff); }
                Rc::make_mut(&mut st.vfs).dirs.insert(p);
                some(0)
            }
            "unlink" | "remove" => { let pa = self.addr_pub(st, &a[0])?; let p = Self::norm(&self.cstr(st, pa)?); if Rc::make_mut(&mut st.vfs).files.remove(&p).is_none() { return self.err(st, 2, 0xffff_ffff); } some(0) }
            "getcwd" => {
                let (p, n) = (self.addr_pub(st, &a[0])?, self.int(st, &a[1])?);
                if n < 3 { return self.err(st, 34, 0); }
                for (k, c) in b"/w\0".iter().enumerate() { st.mem.store(&mut self.g, &self.m, &Ty::Int(8), p + k as u64, V::I(*c as u64))?; }
                some(p)
            }
            "realpath" => {
                let pa = self.addr_pub(st, &a[0])?;
                let p = Self::norm(&self.cstr(st, pa)?);
                if self.mode(st, &p).is_none() { return self.err(st, 2, 0); }
                let q = st.mem.alloc(p.len() as u64 + 1, true);
                for (k, c) in p.bytes().enumerate() { st.mem.store(&mut self.g, &self.m, &Ty::Int(8), q + k as u64, V::I(c as u64))?; }
                some(q)
            }
            "readlink" => self.err(st, 22, -1),
            "chdir" => some(0),
            "clock_gettime" => { let p = self.addr_pub(st, &a[1])?; st.mem.set(&mut self.g, &self.m, p, V::I(0), 16)?; i32r(0) }
            _ => Err(Stop::Error(format!("external function {}", name))),
        }
    }
    fn alloc(&mut self, st: &mut State, n: u64) -> O {
        if n > 1 << 28 { return Err(Stop::Panic(format!("allocation of {} bytes", n))); }
        let p = st.mem.alloc(n, true);
        debug_assert!(p >> 32 >= DYN_BASE);
        some(p)
    }
    fn mode(&self, st: &State, p: &str) -> Option<(u64, u64)> {
        if p == "<std>" { return Some((0o020620, 0)); }
        if let Some(f) = st.vfs.files.get(p) { return Some((0o100644, f.len() as u64)); }
        if st.vfs.dirs.contains(p) { return Some((0o040755, 4096)); }
        None
    }
    fn stat(&mut self, st: &mut State, p: &str, b: u64) -> O {
        let Some((mode, size)) = self.mode(st, p) else { return self.err(st, 2, 0xffff_ffff) };
        st.mem.set(&mut self.g, &self.m, b, V::I(0), 144)?;
        st.mem.store(&mut self.g, &self.m, &Ty::Int(64), b + 16, V::I(1))?;
        st.mem.store(&mut self.g, &self.m, &Ty::Int(32), b + 24, V::I(mode))?;
        st.mem.store(&mut self.g, &self.m, &Ty::Int(64), b + 48, V::I(size))?;
        st.mem.store(&mut self.g, &self.m, &Ty::Int(64), b + 56, V::I(4096))?;
        some(0)
    }
    fn vwrite(&mut self, st: &mut State, fd: usize, b: Vec<V>) -> O {
        let n = b.len() as u64;
        if fd < 3 { return some(n); }
        let Some(Some((path, pos, fl))) = st.vfs.fds.get(fd).cloned() else { return self.err(st, 9, -1) };
        let v = Rc::make_mut(&mut st.vfs);
        let Some(f) = v.files.get_mut(&path) else { return self.err(st, 9, -1) };
        let f = Rc::make_mut(f);
        for (k, x) in b.into_iter().enumerate() { let i = pos + k; while f.len() <= i { f.push(V::I(0)); } f[i] = x; }
        v.fds[fd] = Some((path, pos + n as usize, fl));
        some(n)
    }

    // ---------------------------------------------------------------- f64::from_str
    /// Concrete text runs the real code; symbolic text is read here, digit by digit.
    fn from_str(&mut self, st: &mut State, a: &[V]) -> O {
        // out pointer, data pointer, length
        if a.len() != 3 { return Ok(None); }
        let (V::I(out), V::I(p), V::I(n)) = (&a[0], &a[1], &a[2]) else { return Ok(None) };
        let b = self.bytes(st, *p, *n)?;
        if b.iter().all(|x| matches!(x, V::I(_))) {
            // concrete text: the host's f64 parser (the same std as the one compiled in)
            let t: Vec<u8> = b.iter().map(|x| if let V::I(k) = x { *k as u8 } else { 0 }).collect();
            match String::from_utf8(t).ok().and_then(|t| t.parse::<f64>().ok()) {
                Some(d) => { st.mem.store(&mut self.g, &self.m, &Ty::Int(8), *out, V::I(0))?; st.mem.store(&mut self.g, &self.m, &Ty::F64, out + 8, V::I(d.to_bits()))?; }
                None => { st.mem.store(&mut self.g, &self.m, &Ty::Int(8), *out, V::I(1))?; let k = b.is_empty(); st.mem.store(&mut self.g, &self.m, &Ty::Int(8), out + 1, V::I(!k as u64))?; }
            }
            return some(0);
        }
        if !self.cfg.real { return Err(Stop::Error("parsing symbolic text in IEEE mode".into())); }
        // Result<f64, ParseFloatError>: tag byte, error kind byte, value at 8
        let r = self.parse_sym(st, &b)?;
        match r {
            Some(v) => { st.mem.store(&mut self.g, &self.m, &Ty::Int(8), *out, V::I(0))?; st.mem.store(&mut self.g, &self.m, &Ty::F64, out + 8, v)?; }
            None => { st.mem.store(&mut self.g, &self.m, &Ty::Int(8), *out, V::I(1))?; let k = b.is_empty(); st.mem.store(&mut self.g, &self.m, &Ty::Int(8), out + 1, V::I(!k as u64))?; }
        }
        some(0)
    }
    fn isc(&mut self, st: &mut State, v: &V, c: u8) -> R<bool> { let e = self.icmp_pub(st, IPred::Eq, 8, v, &V::I(c as u64))?; self.cond(st, &e) }
    fn isdig(&mut self, st: &mut State, v: &V) -> R<bool> {
        let d = self.ibin_pub(st, BOp::Sub, 8, v, &V::I(48))?;
        let e = self.icmp_pub(st, IPred::Ult, 8, &d, &V::I(10))?;
        self.cond(st, &e)
    }
    fn parse_sym(&mut self, st: &mut State, b: &[V]) -> R<Option<V>> {
        // all decisions first come from cheap single-byte conditions, so re-execution is deterministic
        if b.is_empty() { return Ok(None); }
        let mut i = 0;
        let neg = self.isc(st, &b[0], b'-')?;
        if neg || self.isc(st, &b[0], b'+')? { i = 1; }
        let mut num = poly::zero();
        let ten = Rat::int(10);
        let mut nd = 0;
        let mut frac: i64 = 0;
        let mut dot = false;
        while i < b.len() {
            if self.isdig(st, &b[i])? {
                let d = match &b[i] { V::I(k) => poly::constant(Rat::int(*k as i64 - 48)), v => { let t = v.bv(8); poly::sub(poly::from_int(false, t), poly::constant(Rat::int(48))) } };
                num = poly::add(poly::scale(num, &ten), d);
                nd += 1;
                if dot { frac += 1; }
                i += 1;
            } else if !dot && self.isc(st, &b[i], b'.')? { dot = true; i += 1; }
            else { break; }
        }
        if nd == 0 {
            // inf / nan / infinity
            let rest = &b[i.min(b.len())..];
            for w in ["inf", "nan", "infinity"] {
                if rest.len() != w.len() || dot { continue; }
                let mut all = true;
                for (k, c) in w.bytes().enumerate() { if !(self.isc(st, &rest[k], c)? || self.isc(st, &rest[k], c - 32)?) { all = false; break; } }
                if all { let d = if w == "nan" { f64::NAN } else { f64::INFINITY }; return Ok(Some(V::I((if neg { -d } else { d }).to_bits()))); }
            }
            return Ok(None);
        }
        let mut exp: i64 = 0;
        if i < b.len() {
            if !(self.isc(st, &b[i], b'e')? || self.isc(st, &b[i], b'E')?) { return Ok(None); }
            i += 1;
            let mut en = false;
            if i < b.len() { en = self.isc(st, &b[i], b'-')?; if en || self.isc(st, &b[i], b'+')? { i += 1; } }
            if i >= b.len() { return Ok(None); }
            while i < b.len() {
                if !self.isdig(st, &b[i])? { return Ok(None); }
                let k = match &b[i] { _ if exp >= 1000 => 48, V::I(k) => *k as i64, v => { let t = v.bv(8); self.conc(st, t)? as i64 } };
                exp = (exp * 10 + k - 48).min(100000);
                i += 1;
            }
            if en { exp = -exp; }
        }
        let e = exp - frac;
        if e.abs() > 60 {
            // far outside: only zero and overflow/underflow matter, keep exact
            // IEEE overflow and underflow
            if e < -400 { return Ok(Some(V::I(if neg { SIGN0 } else { 0 }))); }
            if e > 400 {
                let z = V::of(poly::cmp_term(ROp::Eq, num));
                let z = self.cond(st, &z)?;
                return Ok(Some(V::I((if z { 0.0 } else if neg { f64::NEG_INFINITY } else { f64::INFINITY }).to_bits())));
            }
        }
        let p10 = |k: i64| Rat::parse(&format!("1{}", "0".repeat(k as usize))).unwrap();
        let k = if e >= 0 { p10(e) } else { Rat::one().div(&p10(-e)) };
        let mut r = poly::scale(num, &k);
        if neg { r = poly::neg(r); }
        Ok(Some(self.of_poly(r)))
    }

    // ---------------------------------------------------------------- harness interface
    fn vx(&mut self, st: &mut State, fi: u32, a: &[V]) -> O {
        let name = self.m.fns[fi as usize].name.clone();
        let idx = st.inputs.len();
        match name.as_str() {
            "vx_f64" => {
                let n = self.text(st, &a[0], &a[1])?;
                let nm = format!("{}", n);
                if self.cfg.real {
                    let v = term::new_var(&nm, VSort::Real);
                    Rc::make_mut(&mut st.inputs).push(Input::F64(nm, v));
                    if let Some(m) = &mut st.model { Rc::make_mut(m).insert(v, Value::Real(default_real(idx))); }
                    let p = poly::var(v);
                    Ok(Some(V::R(p)))
                } else {
                    let v = term::new_var(&nm, VSort::Bv(64));
                    Rc::make_mut(&mut st.inputs).push(Input::F64(nm, v));
                    if let Some(m) = &mut st.model { Rc::make_mut(m).insert(v, Value::Bv((idx as f64 + 1.5).to_bits() as u128)); }
                    Ok(Some(V::F(term::fvar(term::bvar(64, v)))))
                }
            }
            "vx_byte" => {
                let n = self.text(st, &a[0], &a[1])?;
                let v = term::new_var(&n, VSort::Bv(8));
                Rc::make_mut(&mut st.inputs).push(Input::U(n, v, 8));
                if let Some(m) = &mut st.model { Rc::make_mut(m).insert(v, Value::Bv(0)); }
                Ok(Some(V::B(term::bvar(8, v))))
            }
            "vx_u64" => {
                let n = self.text(st, &a[0], &a[1])?;
                let v = term::new_var(&n, VSort::Bv(64));
                Rc::make_mut(&mut st.inputs).push(Input::U(n, v, 64));
                if let Some(m) = &mut st.model { Rc::make_mut(m).insert(v, Value::Bv(0)); }
                Ok(Some(V::B(term::bvar(64, v))))
            }
            "vx_choice" => {
                let n = self.text(st, &a[0], &a[1])?;
                let k = self.int(st, &a[2])?;
                let c = match st.pending.take() {
                    Some(c) => c,
                    None => {
                        let first = st.nchoice == 0;
                        let (si, sn) = self.cfg.shard;
                        let opts: Vec<u64> = (0..k).filter(|c| !first || sn <= 1 || c % sn == si).collect();
                        if opts.is_empty() { return Err(Stop::Dead("no choice in this shard".into())); }
                        for c in opts[1..].iter().rev() { let mut o = st.clone(); o.pending = Some(*c); self.stack.push(o); }
                        opts[0]
                    }
                };
                st.nchoice += 1;
                if st.tag.len() < 60 { st.tag += &format!("{}={} ", n, c); }
                Rc::make_mut(&mut st.inputs).push(Input::Choice(n, c));
                some(c)
            }
            "vx_assume" => {
                let c = a[0].boolt();
                if let Some(b) = term::boolconst(c) { return if b { some(0) } else { Err(Stop::Dead("assume".into())) }; }
                // keep the constraint whole; check that it is possible
                let ok = match st.model.as_ref().and_then(|m| term::Ev::new(m).b(c)) { Some(true) => true, _ => false };
                if !ok {
                    let mut q = self.all_constraints(st);
                    q.push(c);
                    match self.sol.check(&q, self.cfg.assert_ms, true, false) {
                        crate::solver::Ans::Unsat => return Err(Stop::Dead("assume".into())),
                        crate::solver::Ans::Sat(Some(m)) => {
                            let mut f = match &st.model { Some(b) => (**b).clone(), None => Default::default() };
                            f.extend(m);
                            st.model = Some(Rc::new(f));
                        }
                        _ => st.model = None,
                    }
                }
                self.add(st, c);
                some(0)
            }
            "vx_assert" => {
                let msg = self.text(st, &a[1], &a[2])?;
                let c = a[0].boolt();
                *self.notes.entry(format!("assert: {}", msg)).or_insert(0) += 1;
                self.assert(st, c, &msg, None)?;
                some(0)
            }
            "vx_close" => {
                // (a, b, scale, msg, len)
                let msg = self.text(st, &a[3], &a[4])?;
                *self.notes.entry(format!("equal: {}", msg)).or_insert(0) += 1;
                let c = self.fcmp(FPred::Oeq, &a[0], &a[1])?;
                let c = c.boolt();
                let mut robust = None;
                if self.cfg.real {
                    if let (Ok(p), Ok(q), Ok(s)) = (self.real_pub(&a[0])?, self.real_pub(&a[1])?, self.real_pub(&a[2])?) {
                        let d = poly::abs(poly::sub(p, q));
                        let m = poly::add(poly::add(poly::abs(s), poly::abs(p)), poly::abs(q));
                        let m = poly::scale(m, &Rat::parse("1/100").unwrap());
                        robust = Some(poly::cmp_term(ROp::Gt, poly::sub(d, m)));
                    }
                }
                self.assert(st, c, &msg, robust)?;
                some(0)
            }
            "vx_reach" => { let n = self.text(st, &a[0], &a[1])?; *self.reach.entry(n).or_insert(0) += 1; some(0) }
            "vx_panic_ok" => { st.panic_ok = self.int(st, &a[0])? & 1 == 1; some(0) }
            "vx_is_sym" => some(1),
            "vx_carrier" => match &a[0] { V::R(p) => { let b = self.carrier_bits(*p); some(b) } v => Ok(Some(v.clone())) },
            "vx_hash_record" => { st.hash = Rc::new(HashMode { mode: 1, ..Default::default() }); some(0) }
            "vx_hash_picks" => { let n = self.int(st, &a[0])?; let n = st.hash.picks(n as usize).len() as u64; Rc::make_mut(&mut st.hash).mode = 0; some(n) }
            "vx_hash_pick" => {
                let k = self.int(st, &a[0])? as usize;
                let n = self.int(st, &a[1])? as usize;
                let pick = st.hash.picks(n).get(k).cloned();
                st.hash = Rc::new(HashMode { mode: 2, pick, ..Default::default() });
                some(0)
            }
            "vx_is_zero" => some(match &a[0] {
                V::I(b) if !self.cfg.real || !self.carriers.contains_key(b) => f64::from_bits(*b) == 0.0,
                V::F(_) => false,
                v => match self.real_pub(v)? { Ok(p) => poly::is_const(p).map_or(false, |k| k.is_zero()), Err(d) => d == 0.0 },
            } as u64),
            "vx_fork" => { // split on a condition and return it concretely
                let b = self.cond(st, &a[0])?;
                some(b as u64)
            }
            "vx_trace" => {
                let n = self.text(st, &a[0], &a[1])?;
                let s = match &a[2] { V::R(p) => poly::show(*p), V::I(b) => format!("{:e}", f64::from_bits(*b)), v => format!("{:?}", v) };
                eprintln!("trace {} = {}", n, s);
                some(0)
            }
            _ => Err(Stop::Error(format!("unknown {}", name))),
        }
    }
}
