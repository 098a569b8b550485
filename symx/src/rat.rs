//! Exact rationals over libgmp.
use std::cmp::Ordering;
use std::ffi::{c_char, c_int, c_long, c_ulong, c_void, CStr, CString};

#[repr(C)]
struct Mpz { alloc: c_int, size: c_int, d: *mut c_void }
#[repr(C)]
struct Mpq { num: Mpz, den: Mpz }

extern "C" {
    fn __gmpq_init(x: *mut Mpq);
    fn __gmpq_clear(x: *mut Mpq);
    fn __gmpq_set(x: *mut Mpq, y: *const Mpq);
    fn __gmpq_set_d(x: *mut Mpq, d: f64);
    fn __gmpq_get_d(x: *const Mpq) -> f64;
    fn __gmpq_set_si(x: *mut Mpq, n: c_long, d: c_ulong);
    fn __gmpq_set_str(x: *mut Mpq, s: *const c_char, base: c_int) -> c_int;
    fn __gmpq_get_str(s: *mut c_char, base: c_int, x: *const Mpq) -> *mut c_char;
    fn __gmpq_canonicalize(x: *mut Mpq);
    fn __gmpq_add(r: *mut Mpq, a: *const Mpq, b: *const Mpq);
    fn __gmpq_sub(r: *mut Mpq, a: *const Mpq, b: *const Mpq);
    fn __gmpq_mul(r: *mut Mpq, a: *const Mpq, b: *const Mpq);
    fn __gmpq_div(r: *mut Mpq, a: *const Mpq, b: *const Mpq);
    fn __gmpq_cmp(a: *const Mpq, b: *const Mpq) -> c_int;
    fn __gmpq_equal(a: *const Mpq, b: *const Mpq) -> c_int;
    fn __gmpz_fdiv_q(q: *mut Mpz, n: *const Mpz, d: *const Mpz);
    fn __gmpz_sizeinbase(z: *const Mpz, base: c_int) -> usize;
    fn __gmpz_get_ui(z: *const Mpz) -> c_ulong;
    fn free(p: *mut c_void);
}

pub struct Rat(Box<Mpq>);
unsafe impl Send for Rat {}

impl Rat {
    pub fn zero() -> Rat {
        unsafe {
            let mut b: Box<std::mem::MaybeUninit<Mpq>> = Box::new(std::mem::MaybeUninit::uninit());
            __gmpq_init(b.as_mut_ptr());
            Rat(std::mem::transmute(b))
        }
    }
    pub fn int(i: i64) -> Rat { let mut r = Rat::zero(); unsafe { __gmpq_set_si(&mut *r.0, i, 1) }; r }
    pub fn one() -> Rat { Rat::int(1) }
    pub fn from_u128(u: u128) -> Rat { Rat::parse(&u.to_string()).unwrap() }
    pub fn from_i128(u: i128) -> Rat { Rat::parse(&u.to_string()).unwrap() }
    /// exact value of a finite double
    pub fn from_f64(d: f64) -> Rat { assert!(d.is_finite()); let mut r = Rat::zero(); unsafe { __gmpq_set_d(&mut *r.0, d) }; r }
    /// nearest double (gmp truncates; we fix up to round-to-nearest)
    pub fn to_f64(&self) -> f64 {
        let t = unsafe { __gmpq_get_d(&*self.0) };
        if !t.is_finite() { return t; }
        let mut best = t;
        let mut bd = self.sub(&Rat::from_f64(t)).abs();
        for c in [next(t, 1), next(t, -1)] {
            if c.is_finite() {
                let d = self.sub(&Rat::from_f64(c)).abs();
                if d < bd || (d == bd && c.to_bits() & 1 == 0) { bd = d; best = c; }
            }
        }
        best
    }
    /// Some(d) if exactly representable
    pub fn exact_f64(&self) -> Option<f64> {
        let t = unsafe { __gmpq_get_d(&*self.0) };
        if t.is_finite() && Rat::from_f64(t) == *self { Some(if t == 0.0 { 0.0 } else { t }) } else { None }
    }
    /// "n" or "n/d"
    pub fn parse(s: &str) -> Option<Rat> {
        let mut r = Rat::zero();
        let c = CString::new(s).ok()?;
        unsafe {
            if __gmpq_set_str(&mut *r.0, c.as_ptr(), 10) != 0 { return None; }
            __gmpq_canonicalize(&mut *r.0);
        }
        Some(r)
    }
    pub fn add(&self, o: &Rat) -> Rat { let mut r = Rat::zero(); unsafe { __gmpq_add(&mut *r.0, &*self.0, &*o.0) }; r }
    pub fn sub(&self, o: &Rat) -> Rat { let mut r = Rat::zero(); unsafe { __gmpq_sub(&mut *r.0, &*self.0, &*o.0) }; r }
    pub fn mul(&self, o: &Rat) -> Rat { let mut r = Rat::zero(); unsafe { __gmpq_mul(&mut *r.0, &*self.0, &*o.0) }; r }
    pub fn div(&self, o: &Rat) -> Rat { assert!(!o.is_zero()); let mut r = Rat::zero(); unsafe { __gmpq_div(&mut *r.0, &*self.0, &*o.0) }; r }
    pub fn neg(&self) -> Rat { Rat::zero().sub(self) }
    pub fn abs(&self) -> Rat { if self.sign() < 0 { self.neg() } else { self.clone() } }
    pub fn sign(&self) -> i32 { self.0.num.size.signum() }
    pub fn is_zero(&self) -> bool { self.0.num.size == 0 }
    pub fn is_one(&self) -> bool { *self == Rat::one() }
    pub fn is_int(&self) -> bool { self.0.den.size == 1 && unsafe { __gmpz_get_ui(&self.0.den) == 1 } }
    pub fn floor(&self) -> Rat {
        let mut r = Rat::zero();
        unsafe { __gmpz_fdiv_q(&mut r.0.num, &self.0.num, &self.0.den) };
        r
    }
    pub fn bits(&self) -> usize { unsafe { __gmpz_sizeinbase(&self.0.num, 2) + __gmpz_sizeinbase(&self.0.den, 2) } }
    pub fn to_i64(&self) -> Option<i64> { if self.is_int() { self.to_string().parse().ok() } else { None } }
    /// SMT-LIB real literal
    pub fn smt(&self) -> String {
        let s = self.abs().to_string();
        let body = match s.split_once('/') {
            Some((n, d)) => format!("(/ {}.0 {}.0)", n, d),
            None => format!("{}.0", s),
        };
        if self.sign() < 0 { format!("(- {})", body) } else { body }
    }
}
fn next(d: f64, dir: i32) -> f64 {
    if d == 0.0 { return if dir > 0 { f64::from_bits(1) } else { -f64::from_bits(1) }; }
    let b = d.to_bits();
    let up = (d > 0.0) == (dir > 0);
    f64::from_bits(if up { b + 1 } else { b - 1 })
}
impl Drop for Rat { fn drop(&mut self) { unsafe { __gmpq_clear(&mut *self.0) } } }
impl Clone for Rat { fn clone(&self) -> Rat { let mut r = Rat::zero(); unsafe { __gmpq_set(&mut *r.0, &*self.0) }; r } }
impl PartialEq for Rat { fn eq(&self, o: &Rat) -> bool { unsafe { __gmpq_equal(&*self.0, &*o.0) != 0 } } }
impl Eq for Rat {}
impl PartialOrd for Rat { fn partial_cmp(&self, o: &Rat) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Rat { fn cmp(&self, o: &Rat) -> Ordering { unsafe { __gmpq_cmp(&*self.0, &*o.0) }.cmp(&0) } }
impl std::hash::Hash for Rat {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        // low limbs and sizes identify a value well enough for hashing
        unsafe {
            h.write_i32(self.0.num.size);
            if self.0.num.size != 0 { h.write_u64(*(self.0.num.d as *const u64)); }
            h.write_i32(self.0.den.size);
            if self.0.den.size != 0 { h.write_u64(*(self.0.den.d as *const u64)); }
        }
    }
}
impl std::fmt::Display for Rat {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        unsafe {
            let p = __gmpq_get_str(std::ptr::null_mut(), 10, &*self.0);
            let s = CStr::from_ptr(p).to_string_lossy().into_owned();
            free(p as *mut c_void);
            f.write_str(&s)
        }
    }
}
impl std::fmt::Debug for Rat { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self) } }
