//! Reader for the subset of textual LLVM IR that rustc emits (one fat-LTO module).
use crate::val::V;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty { Void, Int(u32), F64, F32, Ptr, Struct(Rc<Vec<Ty>>, bool), Array(u64, Rc<Ty>), Vector(u64, Rc<Ty>), Other }

impl Ty {
    pub fn size(&self) -> u64 { let a = self.align(); (self.raw_size() + a - 1) / a * a }
    /// store size without tail padding rounding for scalars
    pub fn raw_size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::F64 | Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => match **t { Ty::Int(w) => (n * w as u64 + 7) / 8, _ => n * t.raw_size() },
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); }
                o
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::F64 | Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.raw_size().max(1).next_power_of_two(),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
        }
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    if k == i { return (o, t.clone()); }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Array(_, t) | Ty::Vector(_, t) => (i as u64 * t.size(), (**t).clone()),
            _ => panic!("field of scalar"),
        }
    }
    pub fn width(&self) -> u16 { match self { Ty::Int(w) => *w as u16, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => panic!("width of {:?}", self) } }
}

#[derive(Clone, Debug)]
pub enum Opd { Reg(u32), K(V) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum IPred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cast { Trunc, ZExt, SExt, PtrToInt, IntToPtr, BitCast, UiToFp, SiToFp, FpToUi, FpToSi, FpExt, FpTrunc }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum ABin { I(crate::term::BOp), FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Max, Min, UMax, UMin }

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ind(Opd), Asm }

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(ABin, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    ICmp(IPred, Ty, Opd, Opd),
    FCmp(FPred, Ty, Opd, Opd),
    Cast(Cast, Ty, Ty, Opd),
    Select(Opd, Ty, Opd, Opd),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Alloca(Ty, Opd),
    Gep(Opd, u64, Vec<(Opd, u16, u64)>),
    Extract(Opd, Vec<u32>),
    Insert(Opd, Opd, Vec<u32>),
    ExtractEl(Opd, Opd),
    InsertEl(Opd, Opd, Opd),
    Shuffle(Opd, Opd, Vec<i64>),
    Freeze(Opd),
    AtomicRmw(Rmw, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Fence,
    Call(Callee, Ty, Vec<(Ty, Opd)>),
    Invoke(Callee, Ty, Vec<(Ty, Opd)>, u32),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u16, Opd, u32, Vec<(u64, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    LandingPad,
    Resume,
}
#[derive(Clone, Debug)]
pub struct Phi { pub dst: u32, pub inc: Vec<(u32, Opd)> }
#[derive(Debug)]
pub struct Block { pub phis: Vec<Phi>, pub insts: Vec<(u32, Inst)> } // dst reg (u32::MAX none)
#[derive(Debug)]
pub struct Func { pub nregs: u32, pub params: Vec<u32>, pub blocks: Vec<Block>, pub ninst: usize }

pub struct FnInfo { pub name: String, pub pretty: String, pub body: Option<(usize, usize)>, pub noreturn: bool, pub func: Option<Rc<Func>> }
pub struct GlobalInfo { pub name: String, pub line: usize, pub ext: bool, pub constant: bool }

pub struct Module {
    pub lines: Vec<&'static str>,
    pub fns: Vec<FnInfo>,
    pub fn_idx: HashMap<String, u32>,
    pub globals: Vec<GlobalInfo>,
    pub gl_idx: HashMap<String, u32>,
    pub types: HashMap<String, String>,
}

pub const GLOBAL_BASE: u64 = 0x0001_0000; // object ids of globals
pub const FUNC_BASE: u64 = 0x0100_0000;   // object ids of functions
pub fn func_addr(i: u32) -> u64 { (FUNC_BASE + i as u64) << 32 }
pub fn global_addr(i: u32) -> u64 { (GLOBAL_BASE + i as u64) << 32 }

fn at_name(s: &str) -> (String, &str) {
    // s begins after '@' or '%'
    if let Some(r) = s.strip_prefix('"') {
        let e = r.find('"').unwrap();
        (r[..e].to_string(), &r[e + 1..])
    } else {
        let e = s.find(|c: char| !(c.is_ascii_alphanumeric() || matches!(c, '_' | '.' | '$' | '-'))).unwrap_or(s.len());
        (s[..e].to_string(), &s[e..])
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).expect("read .ll").into_boxed_str());
        let mut m = Module { lines: vec![], fns: vec![], fn_idx: HashMap::new(), globals: vec![], gl_idx: HashMap::new(), types: HashMap::new() };
        let mut noret: HashMap<String, bool> = HashMap::new();
        let mut fn_attr: Vec<String> = vec![];
        let mut lines = vec![];
        for l in text.lines() {
            if l.starts_with('!') { continue; }
            lines.push(l);
        }
        let mut i = 0;
        let mut comment = String::new();
        while i < lines.len() {
            let l = lines[i];
            if l.starts_with("define ") || l.starts_with("declare ") {
                let p = l.find('@').unwrap();
                let (name, rest) = at_name(&l[p + 1..]);
                let mut attr = String::new();
                if let Some(h) = rest.rfind(" #") { attr = rest[h + 1..].split_whitespace().next().unwrap().to_string(); }
                let start = i;
                let mut body = None;
                if l.starts_with("define ") {
                    while lines[i] != "}" { i += 1; }
                    body = Some((start, i));
                }
                let idx = m.fns.len() as u32;
                let pretty = if comment.is_empty() { name.clone() } else { comment.clone() };
                m.fn_idx.insert(name.clone(), idx);
                m.fns.push(FnInfo { name, pretty, body, noreturn: false, func: None });
                fn_attr.push(attr);
                comment.clear();
            } else if l.starts_with('@') {
                let (name, rest) = at_name(&l[1..]);
                let ext = rest.starts_with(" = external") || rest.starts_with(" = extern_weak");
                let idx = m.globals.len() as u32;
                m.gl_idx.insert(name.clone(), idx);
                m.globals.push(GlobalInfo { name, line: i, ext, constant: rest.contains(" constant ") });
            } else if l.starts_with('%') {
                if let Some(p) = l.find(" = type ") { m.types.insert(at_name(&l[1..]).0, l[p + 8..].to_string()); }
            } else if l.starts_with("attributes #") {
                let id = l["attributes ".len()..].split(' ').next().unwrap().to_string();
                noret.insert(id, l.contains(" noreturn "));
            } else if let Some(c) = l.strip_prefix("; ") {
                if !c.starts_with("Function Attrs") { comment = c.to_string(); }
            } else if l.is_empty() { comment.clear(); }
            i += 1;
        }
        for (k, f) in m.fns.iter_mut().enumerate() { f.noreturn = *noret.get(&fn_attr[k]).unwrap_or(&false); }
        m.lines = lines;
        m
    }

    pub fn func(&mut self, i: u32) -> Rc<Func> {
        if let Some(f) = &self.fns[i as usize].func { return f.clone(); }
        let (s, e) = self.fns[i as usize].body.unwrap_or_else(|| panic!("no body for {}", self.fns[i as usize].name));
        let f = Rc::new(FnParser::parse(self, s, e));
        self.fns[i as usize].func = Some(f.clone());
        f
    }
}

// ---------------- lexer / parser ----------------
#[derive(Clone, Debug, PartialEq)]
pub enum Tok { Word(String), Local(String), Global(String), Num(String), Str(Vec<u8>), P(char), Meta, Ellipsis }

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let c = b[i] as char;
        match c {
            ' ' | '\t' | '\n' => i += 1,
            ';' => { while i < b.len() && b[i] != b'\n' { i += 1 } }
            '/' if s[i..].starts_with("/*") => { i = match s[i..].find("*/") { Some(k) => i + k + 2, None => b.len() } }
            '%' | '@' => {
                let (n, r) = at_name(&s[i + 1..]);
                i = s.len() - r.len();
                out.push(if c == '%' { Tok::Local(n) } else { Tok::Global(n) });
            }
            '!' => {
                // metadata: !name or !123 or !{...} or !DIx(...)
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'.' | b'_' | b'-')) { i += 1 }
                out.push(Tok::Meta);
            }
            '"' => {
                let e = s[i + 1..].find('"').unwrap();
                out.push(Tok::Str(unescape(&s[i + 1..i + 1 + e])));
                i += e + 2;
            }
            'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let e = s[i + 2..].find('"').unwrap();
                out.push(Tok::Str(unescape(&s[i + 2..i + 2 + e])));
                i += e + 3;
            }
            '.' if s[i..].starts_with("...") => { out.push(Tok::Ellipsis); i += 3; }
            '0'..='9' | '-' | '+' => {
                let st = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || ((b[i] == b'+' || b[i] == b'-') && (b[i - 1] == b'e') && !s[st..].starts_with("0x"))) { i += 1 }
                out.push(Tok::Num(s[st..i].to_string()));
            }
            'f' if s[i..].starts_with("f0x") => {
                let st = i;
                i += 3;
                while i < b.len() && b[i].is_ascii_hexdigit() { i += 1 }
                out.push(Tok::Num(s[st..i].to_string()));
            }
            c if c.is_ascii_alphabetic() || c == '_' || c == '#' || c == '$' => {
                let st = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'$' | b'-')) { i += 1 }
                out.push(Tok::Word(s[st..i].to_string()));
            }
            _ => { out.push(Tok::P(c)); i += 1; }
        }
    }
    out
}
fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' { o.push(b'\\'); i += 2; continue; }
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else { o.push(b[i]); i += 1; }
    }
    o
}

pub struct P<'m> { pub t: Vec<Tok>, pub i: usize, pub m: &'m Module, pub regs: HashMap<String, u32>, pub src: String }
impl<'m> P<'m> {
    pub fn new(m: &'m Module, s: &str) -> P<'m> { P { t: lex(s), i: 0, m, regs: HashMap::new(), src: s.to_string() } }
    fn peek(&self) -> Option<&Tok> { self.t.get(self.i) }
    fn next(&mut self) -> Tok { let t = self.t.get(self.i).cloned().unwrap_or_else(|| panic!("unexpected end in: {}", self.src)); self.i += 1; t }
    fn isw(&self, w: &str) -> bool { matches!(self.peek(), Some(Tok::Word(x)) if x == w) }
    fn isp(&self, c: char) -> bool { matches!(self.peek(), Some(Tok::P(x)) if *x == c) }
    fn eatw(&mut self, w: &str) -> bool { if self.isw(w) { self.i += 1; true } else { false } }
    fn eatp(&mut self, c: char) -> bool { if self.isp(c) { self.i += 1; true } else { false } }
    fn expp(&mut self, c: char) { if !self.eatp(c) { panic!("expected '{}' at {:?} in: {}", c, &self.t[self.i.min(self.t.len())..], self.src) } }
    fn expw(&mut self, w: &str) { if !self.eatw(w) { panic!("expected '{}' at {:?} in: {}", w, self.peek(), self.src) } }
    fn num(&mut self) -> i128 { match self.next() { Tok::Num(n) => n.parse().unwrap_or_else(|_| panic!("num {} in {}", n, self.src)), t => panic!("expected number, got {:?} in {}", t, self.src) } }
    fn skip_group(&mut self) { // at '('
        let mut d = 0;
        loop {
            match self.next() { Tok::P('(') => d += 1, Tok::P(')') => { d -= 1; if d == 0 { return; } } _ => {} }
        }
    }
    fn is_ty(&self) -> bool {
        match self.peek() {
            Some(Tok::Word(w)) => matches!(w.as_str(), "void" | "double" | "float" | "ptr" | "label" | "metadata" | "half" | "fp128" | "token")
                || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())),
            Some(Tok::P('[')) | Some(Tok::P('{')) | Some(Tok::P('<')) | Some(Tok::Local(_)) => true,
            _ => false,
        }
    }
    pub fn ty(&mut self) -> Ty {
        match self.next() {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "double" => Ty::F64,
                "float" => Ty::F32,
                "ptr" => { if self.eatw("addrspace") { self.skip_group(); } Ty::Ptr }
                "label" | "metadata" | "half" | "fp128" | "token" => Ty::Other,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {} in {}", w, self.src))),
                _ => panic!("type {} in {}", w, self.src),
            },
            Tok::P('[') => { let n = self.num() as u64; self.expw("x"); let t = self.ty(); self.expp(']'); Ty::Array(n, Rc::new(t)) }
            Tok::P('{') => {
                let mut v = vec![];
                while !self.eatp('}') { v.push(self.ty()); self.eatp(','); }
                Ty::Struct(Rc::new(v), false)
            }
            Tok::P('<') => {
                if self.eatp('{') {
                    let mut v = vec![];
                    while !self.eatp('}') { v.push(self.ty()); self.eatp(','); }
                    self.expp('>');
                    return Ty::Struct(Rc::new(v), true);
                }
                let n = self.num() as u64;
                self.expw("x");
                let t = self.ty();
                self.expp('>');
                Ty::Vector(n, Rc::new(t))
            }
            Tok::Local(n) => {
                let s = self.m.types.get(&n).unwrap_or_else(|| panic!("named type {}", n)).clone();
                P::new(self.m, &s).ty()
            }
            t => panic!("type at {:?} in {}", t, self.src),
        }
    }
    /// skip parameter attributes up to the operand
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Word(w)) => {
                    match w.as_str() {
                        "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "inttoptr" | "ptrtoint" | "getelementptr" | "bitcast"
                        | "splat" | "asm" | "sub" | "add" | "trunc" | "none" | "blockaddress" | "no_cfi" | "dso_local_equivalent" => return,
                        "align" => { self.i += 1; if self.isp('(') { self.skip_group() } else { self.num(); } }
                        _ => { if self.is_ty() { return; } self.i += 1; if self.isp('(') { self.skip_group(); } }
                    }
                }
                Some(Tok::Str(_)) => { // string attribute "k"="v"
                    self.i += 1;
                    if self.eatp('=') { self.next(); }
                }
                _ => return,
            }
        }
    }
    fn reg(&mut self, n: &str) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n.to_string()).or_insert(k) }
    pub fn opd(&mut self, ty: &Ty) -> Opd {
        if let Some(Tok::Local(n)) = self.peek().cloned() { self.i += 1; return Opd::Reg(self.reg(&n)); }
        Opd::K(self.konst(ty))
    }
    pub fn gaddr(&self, n: &str) -> u64 {
        if let Some(i) = self.m.fn_idx.get(n) { return func_addr(*i); }
        if let Some(i) = self.m.gl_idx.get(n) { if self.m.globals[*i as usize].ext { return 0; } return global_addr(*i); }
        panic!("unknown global @{}", n)
    }
    pub fn konst(&mut self, ty: &Ty) -> V {
        match self.next() {
            Tok::Global(n) => V::I(self.gaddr(&n)),
            Tok::Num(n) => match ty {
                Ty::F64 => V::I(parse_f64(&n).to_bits()),
                Ty::F32 => V::I((parse_f64(&n) as f32).to_bits() as u64),
                Ty::Int(w) => {
                    let v: i128 = n.parse().unwrap_or_else(|_| n.parse::<u128>().unwrap_or_else(|_| panic!("int {} in {}", n, self.src)) as i128);
                    V::int(*w as u16, v as u128)
                }
                _ => panic!("number {} for {:?} in {}", n, ty, self.src),
            },
            Tok::Str(s) => V::A(Rc::new(s.iter().map(|b| V::I(*b as u64)).collect())),
            Tok::Word(w) => match w.as_str() {
                "f0x" => unreachable!(),
                "null" => V::I(0),
                "none" => V::I(0),
                "true" => V::I(1),
                "false" => V::I(0),
                "undef" | "poison" => undef(ty),
                "zeroinitializer" => zero(ty),
                "splat" => {
                    self.expp('(');
                    let t = self.ty();
                    let v = self.konst(&t);
                    self.expp(')');
                    match ty { Ty::Vector(n, _) => V::A(Rc::new(vec![v; *n as usize])), _ => panic!() }
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => {
                    self.expp('(');
                    let t = self.ty();
                    let v = self.konst(&t);
                    self.expw("to");
                    let t2 = self.ty();
                    self.expp(')');
                    match (v, &t2) { (V::I(x), Ty::Int(w)) => V::int(*w as u16, x as u128), (v, _) => v }
                }
                "getelementptr" => {
                    while !self.isp('(') { self.i += 1; }
                    self.expp('(');
                    let t = self.ty();
                    self.expp(',');
                    let pt = self.ty();
                    let base = match self.konst(&pt) { V::I(x) => x, _ => panic!() };
                    let mut cur = t;
                    let mut off: i128 = 0;
                    let mut first = true;
                    while self.eatp(',') {
                        while matches!(self.peek(), Some(Tok::Word(w)) if w == "inrange") { self.i += 1; self.skip_group(); }
                        let it = self.ty();
                        let k = match self.konst(&it) { V::I(x) => crate::term::sext_val(it.width(), x as u128), _ => panic!() };
                        if first { off += k * cur.size() as i128; first = false; }
                        else { let (o, t) = cur.field(k as usize); off += o as i128; cur = t; }
                    }
                    self.expp(')');
                    V::I(base.wrapping_add(off as u64))
                }
                "sub" | "add" => {
                    while !self.isp('(') { self.i += 1; }
                    self.expp('(');
                    let t = self.ty();
                    let a = self.konst(&t);
                    self.expp(',');
                    let t2 = self.ty();
                    let b = self.konst(&t2);
                    self.expp(')');
                    match (a, b) { (V::I(x), V::I(y)) => V::int(t.width(), if w == "sub" { x.wrapping_sub(y) } else { x.wrapping_add(y) } as u128), _ => panic!() }
                }
                _ => {
                    if let Some(h) = w.strip_prefix("f0x") { return V::I(u64::from_str_radix(h, 16).unwrap()); }
                    panic!("constant '{}' in {}", w, self.src)
                }
            },
            Tok::P('{') => {
                let mut v = vec![];
                while !self.eatp('}') { let t = self.ty(); v.push(self.konst(&t)); self.eatp(','); }
                V::A(Rc::new(v))
            }
            Tok::P('[') => {
                let mut v = vec![];
                while !self.eatp(']') { let t = self.ty(); v.push(self.konst(&t)); self.eatp(','); }
                V::A(Rc::new(v))
            }
            Tok::P('<') => {
                let st = self.eatp('{');
                let mut v = vec![];
                while !self.isp('>') && !self.isp('}') { let t = self.ty(); v.push(self.konst(&t)); self.eatp(','); }
                if st { self.expp('}'); }
                self.expp('>');
                V::A(Rc::new(v))
            }
            t => panic!("constant at {:?} in {}", t, self.src),
        }
    }
    fn tyopd(&mut self) -> (Ty, Opd) { let t = self.ty(); self.skip_attrs(); let o = self.opd(&t); (t, o) }
    fn label(&mut self) -> String { self.expw("label"); match self.next() { Tok::Local(n) => n, t => panic!("label {:?}", t) } }
}
fn parse_f64(n: &str) -> f64 {
    let (neg, b) = match n.as_bytes()[0] { b'-' => (true, &n[1..]), b'+' => (false, &n[1..]), _ => (false, n) };
    if b == "inf" { return if neg { f64::NEG_INFINITY } else { f64::INFINITY }; }
    if b.contains("nan") { return if neg { -f64::NAN } else { f64::NAN }; }
    let n = n.strip_prefix('f').unwrap_or(n);
    if let Some(h) = n.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { n.parse().unwrap() }
}
pub fn zero(t: &Ty) -> V {
    match t {
        Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(zero).collect())),
        Ty::Array(n, t) | Ty::Vector(n, t) => V::A(Rc::new(vec![zero(t); *n as usize])),
        Ty::Int(w) if *w > 64 => V::int(*w as u16, 0),
        _ => V::I(0),
    }
}
pub fn undef(t: &Ty) -> V {
    match t {
        Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(undef).collect())),
        Ty::Vector(n, t) | Ty::Array(n, t) => V::A(Rc::new(vec![undef(t); *n as usize])),
        _ => zero(t),
    }
}

struct FnParser;
impl FnParser {
    fn parse(m: &Module, s: usize, e: usize) -> Func {
        // header
        let mut p = P::new(m, m.lines[s]);
        let mut params = vec![];
        {
            // find '@name' then '('
            while !matches!(p.peek(), Some(Tok::Global(_))) { p.i += 1; }
            p.i += 1;
            p.expp('(');
            let mut n = 0;
            while !p.eatp(')') {
                if matches!(p.peek(), Some(Tok::Ellipsis)) { p.i += 1; continue; }
                let _t = p.ty();
                p.skip_attrs();
                if let Some(Tok::Local(nm)) = p.peek().cloned() { p.i += 1; let r = p.reg(&nm); params.push(r); if nm == n.to_string() { n += 1; } }
                else { let r = p.reg(&n.to_string()); params.push(r); n += 1; }
                p.eatp(',');
            }
        }
        let mut regs = std::mem::take(&mut p.regs);
        // blocks
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut raw: Vec<(String, Vec<String>)> = vec![];
        let mut i = s + 1;
        while i < e {
            let l = m.lines[i];
            if l.is_empty() || l.starts_with(';') || l.trim_start().starts_with("#dbg") || l.trim_start().starts_with(';') { i += 1; continue; }
            if !l.starts_with(' ') {
                let name = if let Some(r) = l.strip_prefix('"') { r[..r.find('"').unwrap()].to_string() } else { l[..l.find(':').unwrap()].to_string() };
                labels.insert(name.clone(), raw.len() as u32);
                raw.push((name, vec![]));
                i += 1;
                continue;
            }
            if raw.is_empty() {
                let n = params.len().to_string(); // implicit entry label
                labels.insert(n.clone(), 0);
                raw.push((n, vec![]));
            }
            let mut full = l.trim().to_string();
            if full.ends_with('[') && full.contains("switch ") {
                i += 1;
                loop { let t = m.lines[i].trim(); full.push(' '); full += t; if t.starts_with(']') { break; } i += 1; }
            } else {
                while i + 1 < e {
                    let n = m.lines[i + 1].trim_start();
                    if m.lines[i + 1].starts_with("    ") && (n.starts_with("to label") || n.starts_with("cleanup") || n.starts_with("catch ") || n.starts_with("filter ")) { full.push(' '); full += n; i += 1; } else { break; }
                }
            }
            raw.last_mut().unwrap().1.push(full);
            i += 1;
        }
        let mut blocks = vec![];
        let mut ninst = 0;
        for (_, ls) in &raw {
            let mut b = Block { phis: vec![], insts: vec![] };
            for l in ls {
                let mut q = P::new(m, l);
                q.regs = std::mem::take(&mut regs);
                Self::inst(&mut q, &labels, &mut b);
                regs = std::mem::take(&mut q.regs);
                ninst += 1;
            }
            blocks.push(b);
        }
        Func { nregs: regs.len() as u32, params, blocks, ninst }
    }

    fn inst(p: &mut P, labels: &HashMap<String, u32>, b: &mut Block) {
        let mut dst = u32::MAX;
        if let (Some(Tok::Local(n)), Some(Tok::P('='))) = (p.t.first().cloned(), p.t.get(1)) {
            dst = p.reg(&n);
            p.i = 2;
        }
        let op = match p.next() { Tok::Word(w) => w, t => panic!("instruction {:?} in {}", t, p.src) };
        use crate::term::BOp::*;
        let flags = |p: &mut P| {
            while let Some(Tok::Word(w)) = p.peek() {
                if matches!(w.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak") { p.i += 1 } else { break }
            }
        };
        let bin = |p: &mut P, o: ABin| { flags(p); let t = p.ty(); let a = p.opd(&t); p.expp(','); let c = p.opd(&t); Inst::Bin(o, t, a, c) };
        let inst = match op.as_str() {
            "add" => bin(p, ABin::I(Add)), "sub" => bin(p, ABin::I(Sub)), "mul" => bin(p, ABin::I(Mul)),
            "udiv" => bin(p, ABin::I(UDiv)), "sdiv" => bin(p, ABin::I(SDiv)), "urem" => bin(p, ABin::I(URem)), "srem" => bin(p, ABin::I(SRem)),
            "shl" => bin(p, ABin::I(Shl)), "lshr" => bin(p, ABin::I(LShr)), "ashr" => bin(p, ABin::I(AShr)),
            "and" => bin(p, ABin::I(And)), "or" => bin(p, ABin::I(Or)), "xor" => bin(p, ABin::I(Xor)),
            "fadd" => bin(p, ABin::FAdd), "fsub" => bin(p, ABin::FSub), "fmul" => bin(p, ABin::FMul), "fdiv" => bin(p, ABin::FDiv), "frem" => bin(p, ABin::FRem),
            "fneg" => { flags(p); let (t, a) = p.tyopd(); Inst::FNeg(t, a) }
            "icmp" => {
                flags(p);
                let pr = match p.next() { Tok::Word(w) => match w.as_str() { "eq" => IPred::Eq, "ne" => IPred::Ne, "ugt" => IPred::Ugt, "uge" => IPred::Uge, "ult" => IPred::Ult, "ule" => IPred::Ule, "sgt" => IPred::Sgt, "sge" => IPred::Sge, "slt" => IPred::Slt, "sle" => IPred::Sle, _ => panic!("icmp {}", w) }, _ => panic!() };
                let t = p.ty(); let a = p.opd(&t); p.expp(','); let c = p.opd(&t);
                Inst::ICmp(pr, t, a, c)
            }
            "fcmp" => {
                flags(p);
                let pr = match p.next() { Tok::Word(w) => match w.as_str() { "false" => FPred::False, "oeq" => FPred::Oeq, "ogt" => FPred::Ogt, "oge" => FPred::Oge, "olt" => FPred::Olt, "ole" => FPred::Ole, "one" => FPred::One, "ord" => FPred::Ord, "ueq" => FPred::Ueq, "ugt" => FPred::Ugt, "uge" => FPred::Uge, "ult" => FPred::Ult, "ule" => FPred::Ule, "une" => FPred::Une, "uno" => FPred::Uno, "true" => FPred::True, _ => panic!("fcmp {}", w) }, _ => panic!() };
                let t = p.ty(); let a = p.opd(&t); p.expp(','); let c = p.opd(&t);
                Inst::FCmp(pr, t, a, c)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                flags(p);
                let (t, a) = p.tyopd();
                p.expw("to");
                let t2 = p.ty();
                let c = match op.as_str() { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "ptrtoint" => Cast::PtrToInt, "inttoptr" => Cast::IntToPtr, "bitcast" => Cast::BitCast, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp, "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "fpext" => Cast::FpExt, _ => Cast::FpTrunc };
                Inst::Cast(c, t, t2, a)
            }
            "select" => {
                flags(p);
                let (_ct, c) = p.tyopd(); p.expp(',');
                let (t, a) = p.tyopd(); p.expp(',');
                let (_, d) = p.tyopd();
                Inst::Select(c, t, a, d)
            }
            "load" => { flags(p); let t = p.ty(); p.expp(','); let (_, a) = p.tyopd(); Inst::Load(t, a) }
            "store" => { flags(p); let (t, v) = p.tyopd(); p.expp(','); let (_, a) = p.tyopd(); Inst::Store(t, v, a) }
            "alloca" => {
                let t = p.ty();
                let mut n = Opd::K(V::I(1));
                if p.isp(',') && !matches!(p.t.get(p.i + 1), Some(Tok::Word(w)) if w == "align") && !matches!(p.t.get(p.i + 1), Some(Tok::Meta)) { p.i += 1; let (_, k) = p.tyopd(); n = k; }
                Inst::Alloca(t, n)
            }
            "getelementptr" => {
                flags(p);
                let t = p.ty(); p.expp(',');
                let (_, base) = p.tyopd();
                let mut cur = t;
                let mut off: u64 = 0;
                let mut dyns = vec![];
                let mut first = true;
                while p.isp(',') && !matches!(p.t.get(p.i + 1), Some(Tok::Meta)) {
                    p.i += 1;
                    let (it, k) = p.tyopd();
                    if first {
                        first = false;
                        let sz = cur.size();
                        match k { Opd::K(V::I(x)) => off = off.wrapping_add((crate::term::sext_val(it.width(), x as u128) as i64 as u64).wrapping_mul(sz)), o => dyns.push((o, it.width(), sz)) }
                    } else {
                        match (&cur.clone(), k) {
                            (Ty::Struct(..), Opd::K(V::I(x))) => { let (o, t) = cur.field(x as usize); off = off.wrapping_add(o); cur = t; }
                            (Ty::Array(_, et), Opd::K(V::I(x))) => { off = off.wrapping_add((crate::term::sext_val(it.width(), x as u128) as i64 as u64).wrapping_mul(et.size())); cur = (**et).clone(); }
                            (Ty::Array(_, et), o) => { dyns.push((o, it.width(), et.size())); cur = (**et).clone(); }
                            (t, k) => panic!("gep {:?} {:?}", t, k),
                        }
                    }
                }
                Inst::Gep(base, off, dyns)
            }
            "extractvalue" => { let (_, a) = p.tyopd(); let mut ix = vec![]; while p.isp(',') && !matches!(p.t.get(p.i + 1), Some(Tok::Meta)) { p.i += 1; ix.push(p.num() as u32); } Inst::Extract(a, ix) }
            "insertvalue" => { let (_, a) = p.tyopd(); p.expp(','); let (_, v) = p.tyopd(); let mut ix = vec![]; while p.isp(',') && !matches!(p.t.get(p.i + 1), Some(Tok::Meta)) { p.i += 1; ix.push(p.num() as u32); } Inst::Insert(a, v, ix) }
            "extractelement" => { let (_, a) = p.tyopd(); p.expp(','); let (_, k) = p.tyopd(); Inst::ExtractEl(a, k) }
            "insertelement" => { let (_, a) = p.tyopd(); p.expp(','); let (_, v) = p.tyopd(); p.expp(','); let (_, k) = p.tyopd(); Inst::InsertEl(a, v, k) }
            "shufflevector" => {
                let (_, a) = p.tyopd(); p.expp(','); let (_, c) = p.tyopd(); p.expp(',');
                let t = p.ty();
                let mk = match p.konst(&t) { V::A(v) => v.iter().map(|x| match x { V::I(k) => *k as i64, _ => -1 }).collect(), _ => panic!() };
                Inst::Shuffle(a, c, mk)
            }
            "freeze" => { let (_, a) = p.tyopd(); Inst::Freeze(a) }
            "atomicrmw" => {
                flags(p);
                let o = match p.next() { Tok::Word(w) => match w.as_str() { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, _ => panic!("rmw {}", w) }, _ => panic!() };
                let (_, a) = p.tyopd(); p.expp(','); let (t, v) = p.tyopd();
                Inst::AtomicRmw(o, t, a, v)
            }
            "cmpxchg" => { flags(p); let (_, a) = p.tyopd(); p.expp(','); let (t, c) = p.tyopd(); p.expp(','); let (_, n) = p.tyopd(); Inst::CmpXchg(t, a, c, n) }
            "fence" => Inst::Fence,
            "unreachable" => Inst::Unreachable,
            "landingpad" => Inst::LandingPad,
            "resume" => Inst::Resume,
            "ret" => { let t = p.ty(); if t == Ty::Void { Inst::Ret(None) } else { p.skip_attrs(); let o = p.opd(&t); Inst::Ret(Some(o)) } }
            "br" => {
                if p.isw("label") { let l = p.label(); Inst::Br(labels[&l]) }
                else { let (_, c) = p.tyopd(); p.expp(','); let a = p.label(); p.expp(','); let d = p.label(); Inst::CondBr(c, labels[&a], labels[&d]) }
            }
            "switch" => {
                let (t, v) = p.tyopd(); p.expp(',');
                let d = p.label();
                p.expp('[');
                let mut cs = vec![];
                while !p.eatp(']') { let ct = p.ty(); let k = match p.konst(&ct) { V::I(x) => x, _ => panic!() }; p.expp(','); let l = p.label(); cs.push((k, labels[&l])); }
                Inst::Switch(t.width(), v, labels[&d], cs)
            }
            "phi" => {
                flags(p);
                let t = p.ty();
                let mut inc = vec![];
                loop {
                    p.expp('[');
                    let o = p.opd(&t);
                    p.expp(',');
                    let l = match p.next() { Tok::Local(n) => n, x => panic!("phi label {:?}", x) };
                    p.expp(']');
                    inc.push((labels[&l], o));
                    if p.isp(',') && matches!(p.t.get(p.i + 1), Some(Tok::P('['))) { p.i += 1 } else { break }
                }
                b.phis.push(Phi { dst, inc });
                return;
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                if op != "call" && op != "invoke" { p.expw("call"); }
                flags(p);
                p.skip_attrs(); // cc and return attributes
                let rt = p.ty();
                if p.isp('(') { // function type
                    p.skip_group();
                }
                p.skip_attrs();
                let callee = match p.next() {
                    Tok::Global(n) => match p.m.fn_idx.get(&n) { Some(i) => Callee::Fn(*i), None => panic!("call to non function {}", n) },
                    Tok::Local(n) => Callee::Ind(Opd::Reg(p.reg(&n))),
                    Tok::Word(w) if w == "asm" => { while !matches!(p.peek(), Some(Tok::Str(_))) { p.i += 1; } p.i += 1; p.expp(','); p.next(); Callee::Asm }
                    t => panic!("callee {:?} in {}", t, p.src),
                };
                p.expp('(');
                let mut args = vec![];
                while !p.eatp(')') {
                    if p.isw("metadata") { // skip metadata operand
                        p.i += 1;
                        let mut d = 0;
                        while !(d == 0 && (p.isp(',') || p.isp(')'))) { match p.next() { Tok::P('(') | Tok::P('{') => d += 1, Tok::P(')') | Tok::P('}') => d -= 1, _ => {} } }
                        p.eatp(',');
                        continue;
                    }
                    let (t, o) = p.tyopd();
                    args.push((t, o));
                    p.eatp(',');
                }
                if op == "invoke" {
                    while !p.isw("to") { p.i += 1; }
                    p.i += 1;
                    let l = p.label();
                    Inst::Invoke(callee, rt, args, labels[&l])
                } else { Inst::Call(callee, rt, args) }
            }
            _ => panic!("unsupported instruction '{}' in: {}", op, p.src),
        };
        b.insts.push((dst, inst));
    }
}
