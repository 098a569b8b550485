//! C12, C13, C14: decks as text against an independent flattener.
use super::{util::*, vx};
use tiny_spice::circuit::Circuit;
harness!(c12_flat, c12_long, c12_sub, c12_many, c13_kinds, c13_ports, c13_nest, c13_order, c13_deep, c13_defnames, c13_instnames, c14_override, c14_scope, c14_names, c14_kinds, c14_many, c14_instnames);

pub type Name = Vec<u8>;
#[derive(Clone)]
pub enum Val { Num(f64), Id(Name), Txt(&'static str, f64) }
/// k: R C I V D S W P E G or X; n: the whole instance name
#[derive(Clone)]
pub struct Card { pub k: char, pub n: String, pub t: Vec<Name>, pub v: Vec<Val>, pub sub: usize, pub par: Vec<(Name, Val)> }
#[derive(Clone, Default)]
pub struct Sub { pub name: String, pub ports: Vec<Name>, pub par: Vec<(Name, f64)>, pub cards: Vec<Card> }
/// subs[0] is the top level; order: in which order the definitions and the top cards are written
#[derive(Clone, Default)]
pub struct Deck { pub subs: Vec<Sub> }
#[derive(Clone, PartialEq)]
pub struct Net { pub path: Vec<usize>, pub name: Name }
pub struct Ex { pub k: char, pub t: Vec<usize>, pub v: Vec<f64>, pub what: String }

pub fn nm(s: &str) -> Name { s.as_bytes().to_vec() }
pub fn dev(n: &str, t: &[&[u8]], v: &[Val]) -> Card { Card { k: n.as_bytes()[0] as char, n: n.to_string(), t: t.iter().map(|x| x.to_vec()).collect(), v: v.to_vec(), sub: 0, par: vec![] } }
pub fn src(k: char, n: &str, t: &[&[u8]], v: &[Val]) -> Card { Card { k, ..dev(n, t, v) } }
pub fn inst(n: &str, t: &[&[u8]], sub: usize, par: &[(&[u8], Val)]) -> Card { Card { sub, par: par.iter().map(|(a, b)| (a.to_vec(), b.clone())).collect(), ..dev(n, t, &[]) } }
pub fn sub(name: &str, ports: &[&[u8]], par: &[(&[u8], f64)], cards: Vec<Card>) -> Sub { Sub { name: name.to_string(), ports: ports.iter().map(|x| x.to_vec()).collect(), par: par.iter().map(|(a, b)| (a.to_vec(), *b)).collect(), cards } }

fn val(v: &Val, o: &mut Vec<u8>) {
    match v {
        Val::Num(x) => o.extend_from_slice(num(*x).as_bytes()),
        Val::Txt(t, _) => o.extend_from_slice(t.as_bytes()),
        Val::Id(i) => { o.push(b'{'); o.extend_from_slice(i); o.push(b'}'); }
    }
}
pub fn card(c: &Card, d: &Deck, o: &mut Vec<u8>) {
    o.extend_from_slice(c.n.as_bytes());
    for t in &c.t { o.push(b' '); o.extend_from_slice(t); }
    let list = |o: &mut Vec<u8>, sep: &[u8]| for (i, v) in c.v.iter().enumerate() { if i > 0 { o.extend_from_slice(sep); } val(v, o); };
    o.push(b' ');
    match c.k {
        'S' | 'W' => { o.extend_from_slice(b"SIN("); list(o, b" "); o.push(b')'); }
        'P' => { o.extend_from_slice(b"PWL("); list(o, b", "); o.push(b')'); }
        'X' => {
            o.extend_from_slice(d.subs[c.sub].name.as_bytes());
            for (n, v) in &c.par { o.push(b' '); o.extend_from_slice(n); o.push(b'='); val(v, o); }
        }
        _ => list(o, b" "),
    }
    o.push(b'\n');
}
fn define(s: &Sub, d: &Deck, o: &mut Vec<u8>) {
    o.extend_from_slice(b".subckt ");
    o.extend_from_slice(s.name.as_bytes());
    for p in &s.ports { o.push(b' '); o.extend_from_slice(p); }
    for (n, v) in &s.par { o.push(b' '); o.extend_from_slice(n); o.push(b'='); o.extend_from_slice(num(*v).as_bytes()); }
    o.push(b'\n');
    for c in &s.cards { card(c, d, o); }
    o.extend_from_slice(b".ends\n");
}
impl Deck {
    pub fn new() -> Deck { Deck { subs: vec![Sub::default()] } }
    /// definitions in the given order; 0 stands for the cards of the top level
    pub fn text(&self, order: &[usize]) -> Vec<u8> {
        let mut o = b"title\n".to_vec();
        for i in order { if *i == 0 { for c in &self.subs[0].cards { card(c, self, &mut o); } } else { define(&self.subs[*i], self, &mut o); } }
        o
    }
    pub fn flat(&self) -> Flat {
        let mut f = Flat { nets: vec![Net { path: vec![], name: vec![] }], els: vec![] };
        self.walk(&mut f, &mut vec![], &mut vec![], 0, &[]);
        f
    }
    /// frames: (connections as net numbers) of every enclosing instance
    fn walk(&self, f: &mut Flat, path: &mut Vec<usize>, conns: &mut Vec<Vec<usize>>, s: usize, env: &[(Name, f64)]) {
        let sub = &self.subs[s];
        for (i, c) in sub.cards.iter().enumerate() {
            let t: Vec<usize> = c.t.iter().map(|n| self.net(f, path, conns, s, n)).collect();
            let value = |v: &Val| -> f64 { match v { Val::Num(x) | Val::Txt(_, x) => *x, Val::Id(i) => env.iter().find(|p| p.0 == *i).expect("oracle: no such parameter").1 } };
            if c.k == 'X' {
                let mut e: Vec<(Name, f64)> = vec![];
                for (n, v) in &c.par { e.push((n.clone(), value(v))); }
                for (n, v) in &self.subs[c.sub].par { if !e.iter().any(|p| p.0 == *n) { e.push((n.clone(), *v)); } }
                path.push(i);
                conns.push(t);
                self.walk(f, path, conns, c.sub, &e);
                path.pop();
                conns.pop();
            } else {
                let v = c.v.iter().map(value).collect();
                f.els.push(Ex { k: c.k, t, v, what: c.n.clone() });
            }
        }
    }
    fn net(&self, f: &mut Flat, path: &[usize], conns: &[Vec<usize>], s: usize, n: &Name) -> usize {
        if ground(n) { return 0; }
        if let Some(c) = conns.last() {
            for (i, p) in self.subs[s].ports.iter().enumerate() { if p == n { return c[i]; } }
        }
        for (i, k) in f.nets.iter().enumerate() { if k.path == path && k.name == *n { return i; } }
        f.nets.push(Net { path: path.to_vec(), name: n.clone() });
        f.nets.len() - 1
    }
    /// read the text and compare; the net each NodeId stands for
    pub fn agrees(&self, order: &[usize]) -> (Circuit, Vec<usize>) {
        let f = self.flat();
        let d = read_b(&self.text(order));
        vx::check(!d.errors, "a good deck");
        let ck = d.flat();
        let m = f.compare(&ck);
        (ck, m)
    }
}
pub fn ground(n: &Name) -> bool { (n.len() == 1 && n[0] == b'0') || (n.len() == 3 && (n == b"gnd" || n == b"GND")) }
pub struct Flat { pub nets: Vec<Net>, pub els: Vec<Ex> }
impl Flat {
    /// the circuit has exactly these elements, on these nets up to the numbering of nodes; returns the numbering
    pub fn compare(&self, ck: &Circuit) -> Vec<usize> {
        let got: Vec<El> = ck.elements.iter().map(el).collect();
        vx::check(got.len() == self.els.len(), "exactly one element per card and instance path");
        let mut map = vec![usize::MAX; self.nets.len()];
        map[0] = 0;
        let mut used = vec![false; got.len()];
        let ok = place(&self.els, &got, 0, &mut map, &mut used);
        vx::check(ok, "the elements are on the nets their cards name, with the values their cards give");
        for (i, a) in map.iter().enumerate() { if *a != usize::MAX { for (j, b) in map.iter().enumerate() { vx::check(i == j || a != b, "different nets are different nodes"); } } }
        map
    }
}
fn same(e: &Ex, g: &El) -> bool {
    if e.k != g.k { return false; }
    if e.k == 'P' {
        if g.pts.len() * 2 != e.v.len() { return false; }
        for (i, p) in g.pts.iter().enumerate() { if !vx::is_zero(p.0 - e.v[2 * i]) || !vx::is_zero(p.1 - e.v[2 * i + 1]) { return false; } }
        return true;
    }
    for (i, x) in e.v.iter().enumerate() { if !vx::is_zero(g.v[i] - *x) { return false; } }
    true
}
fn place(ex: &[Ex], got: &[El], i: usize, map: &mut Vec<usize>, used: &mut Vec<bool>) -> bool {
    if i == ex.len() { return true; }
    for (j, g) in got.iter().enumerate() {
        if used[j] || g.t.len() != ex[i].t.len() || !same(&ex[i], g) { continue; }
        let keep = map.clone();
        let mut ok = true;
        for (n, id) in ex[i].t.iter().zip(&g.t) {
            if map[*n] == usize::MAX && !map.contains(id) { map[*n] = *id; }
            if map[*n] != *id { ok = false; break; }
        }
        used[j] = true;
        if ok && place(ex, got, i + 1, map, used) { return true; }
        used[j] = false;
        *map = keep;
    }
    false
}
// ---------------------------------------------------------------- symbolic names
fn legal(b: u8) -> bool { ((b >= b'a') & (b <= b'z')) | ((b >= b'A') & (b <= b'Z')) | ((b >= b'0') & (b <= b'9')) | (b == b'_') }
/// a legal name of n symbolic characters
pub fn sname(p: &str, n: usize) -> Name {
    let v: Vec<u8> = (0..n).map(|i| vx::byte(&format!("{}{}", p, i))).collect();
    for b in &v { vx::assume(legal(*b)); }
    v
}
/// lower-case letters (every place is one class of characters to the reader: fewer paths)
fn lower(p: &str, n: usize) -> Name {
    let v: Vec<u8> = (0..n).map(|i| vx::byte(&format!("{}{}", p, i))).collect();
    for b in &v { vx::assume((*b >= b'a') & (*b <= b'z')); }
    v
}
/// a parameter name
fn pname(p: &str, n: usize) -> Name { let v = sname(p, n); for b in &v { vx::assume(*b != b'_'); } v }
/// the same with a lower-case letter in all but the last place (fewer paths)
fn pname1(p: &str, n: usize) -> Name { let mut v = lower(p, n - 1); v.extend(pname(&format!("{}.", p), 1)); v }
pub fn letter(p: &str) -> Name { let b = vx::byte(p); vx::assume((b >= b'a') & (b <= b'z')); vec![b] }
/// pairwise different symbolic values
pub fn values(p: &str, n: usize) -> Vec<f64> {
    let v: Vec<f64> = (0..n).map(|i| nreal(p, i)).collect();
    for i in 0..n { for j in 0..i { vx::assume(v[i] != v[j]); } }
    v
}
fn n(x: f64) -> Val { Val::Num(x) }
const ONE: Val = Val::Txt("1", 1.0);
fn res(i: usize, a: &[u8], b: &[u8]) -> Card {
    const V: [(&str, f64); 9] = [("1", 1.0), ("2", 2.0), ("3", 3.0), ("4", 4.0), ("5", 5.0), ("6", 6.0), ("7", 7.0), ("8", 8.0), ("9", 9.0)];
    dev(&name("R", i), &[a, b], &[Val::Txt(V[i].0, V[i].1)])
}

// ---------------------------------------------------------------- C12
/// three names of up to three characters on two cards at the top level
pub fn c12_flat() {
    let l = vx::choice("lengths", 6);
    let (x, y, z) = [(1, 1, 1), (3, 3, 1), (3, 1, 3), (2, 2, 1), (4, 3, 3), (2, 3, 1)][l as usize];
    let (a, b, c) = (sname("a", x), lower("b", y), if z == 1 { sname("c", z) } else { lower("c", z) });
    let mut d = Deck::new();
    d.subs[0].cards = vec![res(0, &a, &b), res(1, b"gnd", &c)];
    let (ck, m) = d.agrees(&[0]);
    for (s, i) in [(&a, 0), (&b, 1), (&c, 2)] {
        let t = [d.subs[0].cards[0].t[0].clone(), d.subs[0].cards[0].t[1].clone(), d.subs[0].cards[1].t[1].clone()][i].clone();
        let f = d.flat();
        let k = if ground(&t) { 0 } else { f.nets.iter().position(|q| q.name == t).unwrap() };
        vx::check(ck.get_node_id(text(s)) == Some(m[k]), "a name finds its node");
    }
    if ground(&a) || ground(&b) || ground(&c) { vx::reach("ground"); }
    if a == b { vx::reach("same name"); } else { vx::reach("other name"); }
    vx::reach("end");
}
/// names that agree in a long prefix or suffix
pub fn c12_long() {
    let w = vx::choice("which", 4);
    let long = b"A_long_Name_0123456789_of_a_node_in_some_circuit_that_is_rather_large";
    let p = &long[..[7, 15, 31, 68][w as usize]];
    let (s, t) = (sname("s", 2), sname("t", 1));
    let a = [p, &s[..]].concat();
    let b = [p, &t[..]].concat();
    let c = [&s[..], p].concat();
    let e = [&t[..], p, &t[..]].concat();
    let mut d = Deck::new();
    d.subs[0].cards = vec![res(0, &a, &b), res(1, &c, &e), res(2, &e, p), res(3, b"0", &a)];
    d.agrees(&[0]);
    vx::reach("end");
}
/// the same names inside and outside a subcircuit
pub fn c12_sub() {
    let w = vx::choice("lengths", 3) as usize;
    let (a, b) = ([1, 3, 2][w], [1, 3, 3][w]);
    let (h, x, y) = (if b == 3 { lower("h", a) } else { sname("h", a) }, sname("x", b), lower("y", a));
    let mut d = Deck::new();
    d.subs.push(sub("inner", &[b"p", b"q"], &[], vec![res(3, b"p", &x), res(4, &y, b"gnd"), res(5, &x, b"q")]));
    d.subs[0].cards = vec![res(0, &h, b"0"), inst("X1", &[&h, b"GND"], 1, &[]), res(1, &x, &h)];
    d.agrees(&[0, 1]);
    if ground(&x) { vx::reach("ground inside"); }
    if x == h { vx::reach("same name outside"); }
    vx::reach("end");
}
/// any number of nodes
pub fn c12_many() {
    let k = [120usize, 255, 300][vx::choice("n", 3) as usize];
    let (v, w) = (sname("v", 1), sname("w", 1));
    let mut t = b"title\n".to_vec();
    for i in 0..k { t.extend_from_slice(format!("R{} n{} n{} 1\n", i, i, i + 1).as_bytes()); }
    t.extend_from_slice(b"Ra ");
    t.extend_from_slice(&v);
    t.extend_from_slice(b" n7 1\nRb ");
    t.extend_from_slice(&w);
    t.extend_from_slice(b" 0 1\n");
    let d = read_b(&t);
    vx::check(!d.errors, "a good deck");
    let ck = d.flat();
    let e: Vec<El> = ck.elements.iter().map(el).collect();
    vx::check(e.len() == k + 2, "every card is an element");
    let mut seen = vec![false; ck.count_nodes().max(k + 4)];
    seen[0] = true;
    for i in 0..k {
        if i == 0 { vx::check(!seen[e[0].t[0]], "distinct nodes"); seen[e[0].t[0]] = true; } else { vx::check(e[i].t[0] == e[i - 1].t[1], "same name, same node"); }
        vx::check(!seen[e[i].t[1]], "distinct nodes");
        seen[e[i].t[1]] = true;
    }
    let (a, b) = (e[k].t[0], e[k + 1].t[0]);
    vx::check((a == 0) == ground(&v) && (b == 0) == ground(&w), "only 0 is ground");
    vx::check(a == 0 || !seen[a], "another name, another node");
    vx::check(b == 0 || !seen[b], "another name, another node");
    vx::check((a == b) == (v == w), "same name, same node");
    vx::check(e[k].t[1] == e[6].t[1], "same name, same node");
    vx::reach("end");
}

// ---------------------------------------------------------------- C13
/// a card of each kind with arbitrary terminals and values
pub fn any(kind: usize, n0: &str, t: &[&[u8]], x: &[f64]) -> Card {
    let t4 = [t[0], t[1], t[2], t[3]];
    match kind {
        0 => dev(&format!("R{}", n0), &t[..2], &[n(x[0])]),
        1 => dev(&format!("C{}", n0), &t[..2], &[n(x[0])]),
        2 => dev(&format!("D{}", n0), &t[..2], &[]),
        3 => dev(&format!("I{}", n0), &t[..2], &[n(x[0])]),
        4 => dev(&format!("V{}", n0), &t[..2], &[n(x[0])]),
        5 => src('S', &format!("I{}", n0), &t[..2], &[n(x[0]), n(x[1]), n(x[2])]),
        6 => src('W', &format!("V{}", n0), &t[..2], &[n(x[0]), n(x[1]), n(x[2])]),
        7 => src('P', &format!("V{}", n0), &t[..2], &[Val::Txt("0", 0.0), n(x[1]), Val::Txt("2", 2.0), n(x[3])]),
        8 => dev(&format!("E{}", n0), &t4, &[n(x[0])]),
        _ => dev(&format!("G{}", n0), &t4, &[n(x[0])]),
    }
}
/// every kind in a subcircuit used twice, its terminals arbitrary names (ports, ground, internal)
pub fn c13_kinds() {
    let k = vx::choice("kind", 10) as usize;
    let x = values("x", 4);
    let (a, b) = (sname("a", 1), sname("b", 1));
    let mut d = Deck::new();
    let four = k >= 8;
    let c = if four { any(k, "k", &[b"p", &a, &b, b"q"], &x) } else { any(k, "k", &[&a, &b, b"p", b"q"], &x) };
    d.subs.push(sub("cell", &[b"p", b"q"], &[], vec![c, res(1, b"p", b"i")]));
    d.subs[0].cards = vec![inst("X1", &[b"n", b"m"], 1, &[]), res(2, b"n", b"i"), inst("X2", &[b"m", b"0"], 1, &[]), res(3, b"p", b"n")];
    d.agrees(&[0, 1]);
    vx::reach("end");
}
/// arbitrary connections of two instances, arbitrary port names
pub fn c13_ports() {
    let w = vx::choice("order", 4) as usize;
    let (h, g, k) = (sname("h", 1), sname("g", 1), sname("k", 1));
    let (p, q) = (letter("p"), letter("q"));
    vx::assume(p != q);
    let mut d = Deck::new();
    let mut cards = vec![res(1, &p, b"r"), dev("D1", &[&q, b"i"], &[]), dev("E1", &[b"i", b"0", &p, b"r"], &[ONE])];
    if w & 1 == 1 { cards.reverse(); }
    vx::assume(p != b"r" && q != b"r" && p != b"i" && q != b"i");
    d.subs.push(sub("s", &[&p, &q, b"r"], &[], cards));
    d.subs[0].cards = vec![inst("X1", &[&h, &g, b"o"], 1, &[]), inst("X2", &[&g, b"o", &k], 1, &[]), res(2, &h, &k), res(3, &g, b"o")];
    d.agrees(if w & 2 == 0 { &[0, 1] } else { &[1, 0] });
    vx::reach("end");
}
/// three levels; an internal net of the middle one may go anywhere
pub fn c13_nest() {
    let w = vx::choice("shape", 4);
    let (m, l) = (sname("m", 1), sname("l", 1));
    let mut d = Deck::new();
    d.subs.push(sub("leaf", &[b"a", b"b"], &[], vec![res(1, b"a", &l), res(2, &l, b"b"), src('I', "I1", &[b"b", &l], &[ONE])]));
    let mid = match w {
        0 => vec![inst("X1", &[b"a", &m], 1, &[]), inst("X2", &[&m, b"z"], 1, &[]), res(3, &m, b"0")],
        1 => vec![res(3, &m, b"z"), inst("X1", &[&m, b"a"], 1, &[]), inst("Xb", &[b"c", &m], 1, &[])],
        2 => vec![inst("X1", &[b"z", b"z"], 1, &[]), src('V', "V1", &[&m, b"c"], &[ONE]), inst("X2", &[b"gnd", &m], 1, &[])],
        _ => vec![inst("X2", &[&m, b"c"], 1, &[]), dev("G1", &[b"a", b"z", &m, b"c"], &[ONE]), dev("C1", &[&m, b"0"], &[ONE])],
    };
    d.subs.push(sub("mid", &[b"a", b"z"], &[], mid));
    d.subs[0].cards = vec![inst("X1", &[b"a", b"b"], 2, &[]), inst("X2", &[b"b", b"c"], 2, &[]), inst("X3", &[b"a", b"0"], 1, &[]), res(5, b"l", b"c")];
    d.agrees([&[0, 1, 2], &[2, 1, 0], &[1, 0, 2], &[2, 0, 1]][w as usize]);
    vx::reach("end");
}
/// definitions in every order and place
pub fn c13_order() {
    let o = vx::choice("order", 6) as usize;
    let t = sname("t", 1);
    let mut d = Deck::new();
    d.subs.push(sub("aa", &[b"x", b"y"], &[], vec![res(1, b"x", &t), res(2, &t, b"y")]));
    d.subs.push(sub("a", &[b"y", b"x"], &[], vec![inst("X1", &[b"y", &t], 1, &[]), dev("D1", &[&t, b"x"], &[])]));
    d.subs[0].cards = vec![inst("Xq", &[b"x", b"y"], 2, &[]), src('V', "V1", &[b"x", b"0"], &[ONE]), inst("Xr", &[b"y", &t], 1, &[])];
    d.agrees([&[0, 1, 2], &[0, 2, 1], &[1, 0, 2], &[1, 2, 0], &[2, 0, 1], &[2, 1, 0]][o]);
    vx::reach("end");
}
/// four levels
pub fn c13_deep() {
    let t = sname("t", 1);
    let u = sname("u", 1);
    let mut d = Deck::new();
    d.subs.push(sub("l1", &[b"a", b"b"], &[], vec![res(1, b"a", &t), dev("C1", &[&t, b"b"], &[ONE])]));
    d.subs.push(sub("l2", &[b"b", b"a"], &[], vec![inst("X1", &[b"b", &t], 1, &[]), inst("X2", &[&t, b"a"], 1, &[])]));
    d.subs.push(sub("l3", &[b"a", b"t"], &[], vec![inst("X1", &[b"a", &u], 2, &[]), inst("X2", &[&u, b"t"], 2, &[])]));
    d.subs[0].cards = vec![inst("X1", &[b"a", b"b"], 3, &[]), res(2, &t, &u)];
    d.agrees(&[3, 0, 2, 1]);
    vx::reach("end");
}
/// definitions of arbitrary names
pub fn c13_defnames() {
    let w = vx::choice("lengths", 6) as usize;
    let (a, b) = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 2), (3, 3)][w];
    let (s, t) = (if a > 1 && b > 1 { pname1("s", a) } else { pname("s", a) }, if a > 1 && b > 1 { pname1("t", b) } else { pname("t", b) });
    vx::assume(s != t);
    let mut d = Deck::new();
    d.subs.push(Sub { name: text(&s).to_string(), ..sub("", &[b"a", b"b"], &[], vec![res(1, b"a", b"i"), res(2, b"i", b"b")]) });
    let mut inner = vec![dev("D1", &[b"a", b"b"], &[])];
    if w == 4 { inner.push(inst("X1", &[b"b", b"c"], 1, &[])); }
    d.subs.push(Sub { name: text(&t).to_string(), ..sub("", &[b"b", b"a"], &[], inner) });
    d.subs[0].cards = vec![inst("X1", &[b"n", b"m"], 1, &[]), inst("X2", &[b"n", b"m"], 2, &[]), inst("X3", &[b"m", b"0"], 1, &[])];
    d.agrees(if w & 1 == 0 { &[1, 0, 2] } else { &[0, 2, 1] });
    vx::reach("end");
}
/// instances of arbitrary names, next to and inside each other
pub fn c13_instnames() {
    let w = vx::choice("lengths", 4) as usize;
    let (a, b) = [(1, 1), (1, 2), (2, 1), (2, 2)][w];
    let (x, y) = (if w == 3 { pname1("x", a) } else { pname("x", a) }, if w == 3 { pname1("y", b) } else { pname("y", b) });
    let (xn, yn) = (format!("X{}", text(&x)), format!("X{}", text(&y)));
    let mut d = Deck::new();
    d.subs.push(sub("leaf", &[b"a"], &[], vec![res(1, b"a", b"i"), res(2, b"i", b"0")]));
    // the same name may be used once per scope
    d.subs.push(sub("mid", &[b"a"], &[], vec![inst(&xn, &[b"i"], 1, &[]), res(3, b"a", b"i"), inst("Xqqq", &[b"a"], 1, &[])]));
    vx::assume(x != y);
    d.subs[0].cards = vec![inst(&xn, &[b"n"], 2, &[]), inst(&yn, &[b"n"], 1, &[]), inst("Xqqq", &[b"i"], 2, &[]), res(4, b"i", b"n")];
    d.agrees(&[0, 2, 1]);
    vx::reach("end");
}

// ---------------------------------------------------------------- C14
/// one parameter: default or override, two instances
pub fn c14_override() {
    let w = vx::choice("which", 8) as usize;
    let (k, w) = ([0, 1, 8, 9][w & 3], w >> 2);
    let x = values("x", 5);
    let mut d = Deck::new();
    let id = Val::Id(nm("r"));
    let f = |i: usize, v: Val| -> Card { let mut c = any(k, &name("e", i), &[b"a", b"b", b"b", b"0"], &[0.0; 4]); c.v = vec![v]; c };
    d.subs.push(sub("s", &[b"a", b"b"], &[(b"r", x[0]), (b"s", x[1])], vec![f(0, id.clone()), f(1, Val::Id(nm("s"))), f(2, n(x[4])), f(3, id)]));
    d.subs[0].cards = if w == 0 { vec![inst("X1", &[b"a", b"0"], 1, &[(b"r", n(x[2]))]), inst("X2", &[b"a", b"b"], 1, &[]), inst("X3", &[b"c", b"b"], 1, &[(b"s", n(x[2])), (b"r", n(x[3]))])] }
        else { vec![inst("X1", &[b"a", b"0"], 1, &[]), inst("X2", &[b"a", b"b"], 1, &[(b"s", n(x[3]))]), res(1, b"c", b"0"), inst("X3", &[b"c", b"b"], 1, &[(b"r", n(x[2])), (b"s", n(x[1]))])] };
    d.agrees(&[0, 1]);
    vx::reach("end");
}
/// a parameter passed on through two levels; the inner and the outer one may have the same name
pub fn c14_scope() {
    let w = vx::choice("which", 4) as usize;
    let x = values("x", 5);
    let (o, i) = (pname("o", 1), pname("i", 1));
    let mut d = Deck::new();
    d.subs.push(sub("leaf", &[b"a"], &[(&i, x[0])], vec![dev("R1", &[b"a", b"0"], &[Val::Id(i.clone())])]));
    d.subs.push(sub("mid", &[b"a"], &[(&o, x[1])], match w {
        0 => vec![inst("X1", &[b"a"], 1, &[(&i, Val::Id(o.clone()))]), dev("R2", &[b"a", b"b"], &[Val::Id(o.clone())])],
        1 => vec![inst("X1", &[b"a"], 1, &[]), dev("C2", &[b"a", b"b"], &[Val::Id(o.clone())]), inst("X2", &[b"b"], 1, &[(&i, Val::Id(o.clone()))])],
        2 => vec![inst("X1", &[b"a"], 1, &[(&i, n(x[4]))]), inst("X2", &[b"b"], 1, &[]), dev("R2", &[b"a", b"b"], &[Val::Id(o.clone())])],
        _ => vec![dev("R2", &[b"a", b"b"], &[Val::Id(o.clone())]), inst("X2", &[b"b"], 1, &[(&i, Val::Id(o.clone()))]), inst("X1", &[b"a"], 1, &[(&i, n(x[4]))])],
    }));
    d.subs[0].cards = vec![inst("X1", &[b"n"], 2, &[(&o, n(x[2]))]), inst("X2", &[b"m"], 2, &[]), inst("X3", &[b"n"], 1, &[(&i, n(x[3]))]), inst("X4", &[b"m"], 1, &[])];
    d.agrees([&[0, 1, 2], &[2, 1, 0], &[1, 0, 2], &[2, 0, 1]][w]);
    if o == i { vx::reach("same name"); }
    vx::reach("end");
}
/// arbitrary names of two parameters, an element that uses one of them
pub fn c14_names() {
    let w = vx::choice("which", 3) as usize;
    let l = [(1, 1), (1, 2), (2, 2)][w];
    let x = values("x", 3);
    let (a, b) = (pname("a", l.0), pname("b", l.1));
    vx::assume(a != b);
    let mut d = Deck::new();
    d.subs.push(sub("s", &[b"p", b"q"], &[(&a, x[0]), (&b, x[1])], vec![dev("R1", &[b"p", b"q"], &[Val::Id(a.clone())]), dev("C1", &[b"p", b"0"], &[Val::Id(b.clone())])]));
    d.subs[0].cards = vec![inst("X1", &[b"n", b"m"], 1, &[(&b, n(x[2]))]), inst("X2", &[b"n", b"0"], 1, &[(&a, n(x[2]))])];
    d.agrees(&[1, 0]);
    vx::reach("end");
}
/// every card keeps its own value in every instance
pub fn c14_kinds() {
    let k = vx::choice("kind", 10) as usize;
    let j = if k < 8 { 8 } else { 4 };
    let x = values("x", 9);
    let mut d = Deck::new();
    d.subs.push(sub("s", &[b"a", b"b"], &[(b"x", x[8])], vec![any(k, "1", &[b"a", b"i", b"b", b"i"], &x[..4]), any(k, "2", &[b"i", b"b", b"a", b"0"], &x[4..]), dev("R9", &[b"i", b"0"], &[Val::Id(nm("x"))])]));
    d.subs[0].cards = vec![any(k, "1", &[b"n", b"m", b"0", b"m"], &x[1..]), inst("X1", &[b"n", b"m"], 1, &[(b"x", n(x[0]))]), any(j, "2", &[b"n", b"m", b"n", b"0"], &x[2..]), inst("X2", &[b"m", b"0"], 1, &[])];
    d.agrees(&[0, 1]);
    vx::reach("end");
}
/// many parameters, given in any order
pub fn c14_many() {
    let w = vx::choice("order", 6) as usize;
    let x = values("x", 6);
    let o = [[0usize, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][w];
    let nms: [&[u8]; 3] = [b"c", b"cval", b"cval0"];
    let mut d = Deck::new();
    d.subs.push(sub("leaf", &[b"a"], &[(nms[0], x[0]), (nms[1], x[1]), (nms[2], x[2])], (0..3).map(|i| dev(&name("C", i), &[b"a", b"0"], &[Val::Id(nms[o[i]].to_vec())])).collect()));
    d.subs.push(sub("mid", &[b"a"], &[(b"cval", x[3]), (b"c", x[4])], vec![inst("Xl", &[b"a"], 1, &[(nms[o[0]], Val::Id(nm("c"))), (nms[o[1]], Val::Id(nm("cval")))]), inst("Xm", &[b"a"], 1, &[(nms[o[2]], Val::Id(nm("cval")))])]));
    d.subs[0].cards = vec![inst("X1", &[b"n"], 2, &[(b"cval", n(x[5]))]), inst("X2", &[b"n"], 1, &[])];
    d.agrees(&[1, 2, 0]);
    vx::reach("end");
}

/// instances and elements of arbitrary names, each with values of its own
pub fn c14_instnames() {
    let w = vx::choice("lengths", 4) as usize;
    let (a, b) = [(1, 1), (1, 2), (2, 1), (2, 2)][w];
    let (u, v) = (if w == 3 { pname1("x", a) } else { pname("x", a) }, if w == 3 { pname1("y", b) } else { pname("y", b) });
    vx::assume(u != v);
    let x = values("x", 5);
    let (xn, yn) = (format!("X{}", text(&u)), format!("X{}", text(&v)));
    let mut d = Deck::new();
    d.subs.push(sub("leaf", &[b"a"], &[(b"r", x[0])], vec![dev("R1", &[b"a", b"0"], &[Val::Id(nm("r"))])]));
    d.subs.push(sub("mid", &[b"a"], &[], vec![inst(&xn, &[b"a"], 1, &[(b"r", n(x[1]))]), inst("Xm", &[b"b"], 1, &[])]));
    vx::assume(u != b"m" && v != b"m");
    d.subs[0].cards = vec![inst(&xn, &[b"n"], 1, &[(b"r", n(x[2]))]), inst(&yn, &[b"m"], 1, &[(b"r", n(x[3]))]), inst("Xm", &[b"o"], 2, &[])];
    d.agrees(if w & 1 == 0 { &[1, 2, 0] } else { &[0, 2, 1] });
    vx::reach("end");
}
