//! Generated structures with symbolic values: decks, circuits, configurations and histories drawn by a fixed
//! generator (the variant is a choice of the execution), numbers and a name in them symbolic.
use super::{c_big::digit, c_dc::*, c_deck::*, c_files::*, c_tran::*, util::*, vx};
use tiny_spice::analysis::Configuration;
use tiny_spice::bracket_expression::{extract_expression, extract_value};
use tiny_spice::circuit::Circuit;
use tiny_spice::circuit::VoltageSourcePwl;
use tiny_spice::engine::Engine;
harness!(c01_mix, c02_mix, c04_mix, c04_mix_deep, c10_mix, c10_mix_deep, c05_mix, c06_mix, c06_many, c07_mix, c08_mix, c11_runs, c12_mix, c13_mix, c14_mix, c15_mix, c16_mix, c17_mix, c18_mix, c19_mix, c19_unfinished, c20_mix, c21_mix, c23_mix,
    c01_mix_deep, c02_mix_deep, c05_mix_deep, c06_mix_deep, c07_mix_deep, c08_mix_deep, c12_mix_deep, c13_mix_deep, c14_mix_deep, c15_mix_deep, c16_mix_deep, c17_mix_deep, c18_mix_deep, c19_mix_deep, c20_mix_deep, c21_mix_deep, c23_mix_deep);

pub struct Rng(u64);
impl Rng {
    fn new(w: u64) -> Rng { let mut r = Rng(w.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x5851_F42D_4C95_7F2D); for _ in 0..4 { r.n(2); } r }
    fn n(&mut self, k: usize) -> usize { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((self.0 >> 35) as usize) % k }
    fn p(&mut self, percent: usize) -> bool { self.n(100) < percent }
    fn of<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.n(v.len()); &v[i] }
}
/// variant `w` of n, those of the deep entry after those of the quick one
fn variant(n: u64, after: u64) -> Rng { Rng::new(after + vx::choice("variant", n)) }

// ---------------------------------------------------------------- decks
const NETS: [&str; 24] = ["a", "b", "c", "n1", "n2", "out", "in_2", "N", "x_y", "1", "22", "00", "gnd0", "GNDA", "Gnd", "vdd", "a_net_with_a_name_of_more_than_thirty_characters", "a_net_with_a_name_of_more_than_thirty_character", "n", "o", "p", "R1", "X1", "10"];
const DEFS: [&str; 8] = ["cell", "Cell", "cell2", "u", "amplifier_stage_with_long_name", "X1", "0a", "gnd"];
const PARS: [&str; 8] = ["r", "R", "cval", "gain2", "x", "k1", "cvalue", "c"];
const GROUND: [&str; 3] = ["0", "gnd", "GND"];
struct Gen { s: Name, x: Vec<f64>, q: usize, kinds: &'static [usize], pars: bool, shunts: bool, most: usize, levels: usize, nets: usize }
const EVERY: [usize; 10] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
const VALUED: [usize; 6] = [0, 1, 8, 9, 0, 3];
impl Gen {
    fn new(kinds: &'static [usize]) -> Gen { Gen { s: sname("s", 1), x: values("x", 4), q: 0, kinds, pars: true, shunts: false, most: 40, levels: 4, nets: 24 } }
    /// a value: symbolic, or a number of its own
    fn value(&mut self, r: &mut Rng) -> f64 { self.q += 1; if r.p(25) { *r.of(&self.x) } else { 16.0 + self.q as f64 } }
    fn deck(&mut self, r: &mut Rng) -> Deck {
        let mut d = Deck::new();
        let nd = if self.levels == 0 { 0 } else { 1 + r.n(self.levels) };
        let mut size = vec![0usize];
        let first = r.n(8);
        for i in 1..=nd {
            let mut ports: Vec<&[u8]> = vec![];
            for _ in 0..1 + r.n(5) { let p = NETS[r.n(self.nets)].as_bytes(); if !ports.contains(&p) { ports.push(p); } }
            let mut par: Vec<(&[u8], f64)> = vec![];
            if self.pars { for _ in 0..r.n(4) { let p = PARS[r.n(8)].as_bytes(); if !par.iter().any(|q| q.0 == p) { let x = self.value(r); par.push((p, x)); } } }
            d.subs.push(sub(DEFS[(first + i * 3) % 8], &ports, &par, vec![]));
            let n = self.fill(r, &mut d, i, &size);
            size.push(n);
        }
        self.fill(r, &mut d, 0, &size);
        d
    }
    fn fill(&mut self, r: &mut Rng, d: &mut Deck, i: usize, size: &[usize]) -> usize {
        let mut nets: Vec<Name> = d.subs[i].ports.clone();
        for _ in 0..1 + r.n(3) { let p = NETS[r.n(self.nets)].as_bytes().to_vec(); if !nets.contains(&p) { nets.push(p); } }
        if r.p(50) { let s = self.s.clone(); nets.push(s); }
        let mut cards: Vec<Card> = vec![];
        let mut n = 0;
        let net = |r: &mut Rng| -> Name { if r.p(12) { GROUND[r.n(3)].as_bytes().to_vec() } else { let k = r.n(nets.len()); nets[k].clone() } };
        let subs = if i == 0 { size.len() - 1 } else { i - 1 };
        for j in 0..1 + r.n(if i == 0 { 6 } else { 4 }) {
            if subs > 0 && r.p(if i == 0 { 55 } else { 45 }) {
                let k = if r.p(60) { subs } else { 1 + r.n(subs) };
                if n + size[k] > self.most { continue; }
                n += size[k];
                let t: Vec<Name> = (0..d.subs[k].ports.len()).map(|_| net(r)).collect();
                let mut par: Vec<(Name, Val)> = vec![];
                for q in 0..d.subs[k].par.len() {
                    if !r.p(60) { continue; }
                    let own = d.subs[i].par.len();
                    let v = if own > 0 && r.p(50) { let o = r.n(own); Val::Id(d.subs[i].par[o].0.clone()) } else { Val::Num(self.value(r)) };
                    let at = r.n(par.len() + 1);
                    par.insert(at, (d.subs[k].par[q].0.clone(), v));
                }
                cards.push(Card { k: 'X', n: format!("X{}{}", ["", "a", "amp1x", "X", "0"][r.n(5)], j), t, v: vec![], sub: k, par });
            } else {
                n += 1;
                let k = *r.of(self.kinds);
                let t: Vec<Name> = (0..4).map(|_| net(r)).collect();
                let x: Vec<f64> = (0..4).map(|_| self.value(r)).collect();
                let mut c = any(k, &format!("{}{}", ["", "a", "load7x", "R", "0"][r.n(5)], j), &[&t[0], &t[1], &t[2], &t[3]], &x);
                let own = d.subs[i].par.len();
                if own > 0 && r.p(60) && (k < 2 || k > 7) { let o = r.n(own); c.v = vec![Val::Id(d.subs[i].par[o].0.clone())]; }
                cards.push(c);
            }
        }
        if self.shunts {
            let mut seen: Vec<Name> = if i == 0 { vec![] } else { d.subs[i].ports.clone() };
            let mut more = vec![];
            for c in &cards { for t in &c.t { if !ground(t) && !seen.contains(t) { seen.push(t.clone()); self.q += 1; more.push(dev(&format!("Rz{}", more.len()), &[t, b"0"], &[Val::Num(16.0 + self.q as f64)])); } } }
            n += more.len();
            cards.extend(more);
        }
        d.subs[i].cards = cards;
        n
    }
}
/// the definitions and the cards of the top level in some order
fn order(r: &mut Rng, d: &Deck) -> Vec<usize> {
    let mut o: Vec<usize> = (0..d.subs.len()).collect();
    for i in (1..o.len()).rev() { let j = r.n(i + 1); o.swap(i, j); }
    o
}
// ------------------------------------------------ comparing larger circuits
fn mix(h: u64, x: u64) -> u64 { let mut z = (h ^ x).wrapping_add(0x9E37_79B9_7F4A_7C15).wrapping_mul(0xBF58_476D_1CE4_E5B9); z ^= z >> 29; z.wrapping_mul(0x94D0_49BB_1331_11EB) ^ (z >> 7) }
struct Part { k: char, t: Vec<usize>, v: Vec<usize> }
/// the elements' colours, refined by those of their nets: equal up to a renumbering of nets only if these agree
fn colours(els: &[Part], nets: usize) -> Vec<u64> {
    let mut c = vec![1u64; nets];
    c[0] = 7;
    let mut e: Vec<u64> = vec![0; els.len()];
    for _ in 0..7 {
        let mut next: Vec<u64> = c.iter().map(|x| mix(3, *x)).collect();
        for (i, p) in els.iter().enumerate() {
            let mut h = mix(11, p.k as u64);
            for v in &p.v { h = mix(h, *v as u64); }
            for t in &p.t { h = mix(h, c[*t]); }
            e[i] = h;
            for (j, t) in p.t.iter().enumerate() { next[*t] = next[*t].wrapping_add(mix(h, 100 + j as u64)); }
        }
        next[0] = 7;
        c = next;
    }
    e.sort();
    e
}
/// the flattened deck and the circuit are the same up to the numbering of nodes
pub fn alike(f: &Flat, ck: &Circuit) {
    let got: Vec<El> = ck.elements.iter().map(el).collect();
    vx::check(got.len() == f.els.len(), "exactly one element per card and instance path");
    let mut vals: Vec<f64> = vec![];
    fn class(vals: &mut Vec<f64>, x: f64, known: bool) -> usize {
        for (i, v) in vals.iter().enumerate() { if vx::is_zero(*v - x) { return i; } }
        vx::check(known, "every element has the value of its card");
        vals.push(x);
        vals.len() - 1
    }
    let a: Vec<Part> = f.els.iter().map(|e| Part { k: e.k, t: e.t.clone(), v: e.v.iter().map(|x| class(&mut vals, *x, true)).collect() }).collect();
    let b: Vec<Part> = got.iter().map(|e| {
        let v: Vec<f64> = match e.k { 'P' => e.pts.iter().flat_map(|p| [p.0, p.1]).collect(), 'D' => vec![], _ => e.v.clone() };
        Part { k: e.k, t: e.t.clone(), v: v.iter().map(|x| class(&mut vals, *x, false)).collect() }
    }).collect();
    let top = b.iter().flat_map(|p| p.t.iter().cloned()).max().unwrap_or(0);
    vx::check(top < ck.count_nodes(), "every node has a row");
    vx::check(colours(&a, f.nets.len()) == colours(&b, top + 1), "the elements are on the nets their cards name, with the values their cards give");
    // C21: branch indices
    let vs: Vec<usize> = got.iter().filter(|e| is_v(e.k)).map(|e| e.idx).collect();
    vx::check(ck.count_voltage_sources() == vs.len(), "every voltage-defined source is counted once");
    for i in 0..vs.len() { vx::check(vs.contains(&i), "branch indices are 0..count-1"); }
}
fn decks(kinds: &'static [usize], n: u64, after: u64, set: fn(&mut Gen)) {
    let mut r = variant(n, after);
    let mut g = Gen::new(kinds);
    set(&mut g);
    let d = g.deck(&mut r);
    let o = order(&mut r, &d);
    let k = read_b(&d.text(&o));
    vx::check(!k.errors, "a good deck");
    alike(&d.flat(), &k.flat());
    vx::reach("end");
}
pub fn c12_mix() { decks(&VALUED, 60, 1000, |g| { g.pars = false; g.levels = 2; g.nets = 16; }) }
pub fn c12_mix_deep() { decks(&VALUED, 600, 2000, |g| { g.pars = false; g.levels = 2; g.nets = 16; }) }
pub fn c13_mix() { decks(&EVERY, 80, 3000, |g| g.pars = false) }
pub fn c13_mix_deep() { decks(&EVERY, 800, 4000, |g| { g.pars = false; g.most = 80; g.levels = 6; }) }
pub fn c14_mix() { decks(&VALUED, 80, 5000, |_| {}) }
pub fn c14_mix_deep() { decks(&VALUED, 800, 6000, |g| { g.most = 80; g.levels = 6; }) }
pub fn c21_mix() { decks(&[4, 6, 7, 8, 9, 3, 5, 0], 60, 7000, |_| {}) }
pub fn c21_mix_deep() { decks(&[4, 6, 7, 8, 9, 3, 5, 0], 600, 8000, |g| g.most = 80) }

// ---------------------------------------------------------------- C15, C16, C20
const NOISE: [&str; 14] = ["*", "* .ends", "*.lib l.lib s", "   * R1 a 0 1", "", "  \t ", "*{x}=;", "\t*.control", "* V1 a 0 PWL(", "*.subckt s a", "; a note", " ;* R9 a 0 5", "* X1 a cell r=3", "********************************************************************************"];
const TAIL: [&str; 6] = [";", "; R1 a 0 1", " ;x=5", "\t", "  ", ";;; .ends {r}"];
pub fn c15_mix() { noisy(60, 1000) }
pub fn c15_mix_deep() { noisy(500, 2000) }
fn noisy(n: u64, after: u64) {
    let mut r = variant(n, after);
    let mut g = Gen::new(&EVERY);
    g.s = nm("s");
    let d = g.deck(&mut r);
    let o = order(&mut r, &d);
    let b = vx::byte("b");
    vx::assume((b >= 32) & (b < 127));
    let mut t = d.text(&o);
    t.extend_from_slice(b".control\noption RMAX = 3\ntran 1 5\n.endc\n");
    let mut out: Vec<u8> = vec![];
    let mut first = true;
    let (mut at, place) = (0, r.n(20));
    for l in t.split(|c| *c == b'\n') {
        if first { out.extend_from_slice([&b"title"[..], b".ends", b"R1 a b-c 5", b"* x", b""][r.n(5)]); out.push(b'\n'); first = false; continue; }
        while r.p(25) { out.extend_from_slice(NOISE[r.n(14)].as_bytes()); out.push(b'\n'); }
        if at == place { out.extend_from_slice(b"*"); out.push(b); out.extend_from_slice(b" .ends\n"); }
        at += 1;
        if r.p(20) { out.extend_from_slice([&b" "[..], b"\t", b"   "][r.n(3)]); }
        for c in l {
            if *c == b' ' { out.extend_from_slice(if r.p(70) { b" " } else { [&b"  "[..], b"\t", b" \t  "][r.n(3)] }); } else { out.push(*c); }
        }
        if r.p(25) { out.extend_from_slice(TAIL[r.n(6)].as_bytes()); }
        out.push(b'\n');
    }
    let k = read_b(&out);
    vx::check(!k.errors, "a good deck");
    alike(&d.flat(), &k.flat());
    configured(&k.cfg(), 2, &[(RMAX, 3.0), (TSTEP, 1.0), (TSTOP, 5.0)]);
    vx::reach("end");
}
pub fn c16_mix() { libraries(150, 3000) }
pub fn c16_mix_deep() { libraries(500, 4000) }
/// the deck's definitions and some of its top cards are spread over sections of one or two libraries
fn libraries(n: u64, after: u64) {
    let mut r = variant(n, after);
    let mut g = Gen::new(&EVERY);
    g.s = nm("s");
    let d = g.deck(&mut r);
    const SECT: [&str; 6] = ["tt", "t", "ttt", "TT", "ff", "a_section_of_a_name_that_is_rather_long"];
    let files = 1 + r.n(2);
    // used sections: (file, name, what is in it: a definition or a card of the top level)
    let ns = 1 + r.n(3);
    let f0 = r.n(6);
    let place: Vec<(usize, usize)> = (0..ns).map(|i| (r.n(files), (f0 + i) % 6)).collect();
    let mut body: Vec<Vec<u8>> = vec![vec![]; ns];
    let mut rest = Deck::new();
    rest.subs = d.subs.clone();
    let mut deck: Vec<Vec<u8>> = vec![];
    let mut cards: Vec<(usize, Vec<u8>)> = vec![];
    for i in 1..d.subs.len() {
        let mut one = d.clone();
        one.subs[0].cards.clear();
        let t = one.text(&[i])[6..].to_vec();
        if r.p(60) { let k = r.n(ns); body[k].extend_from_slice(&t); continue; }
        // some of the cards of a definition come from a library
        let lines: Vec<&[u8]> = t.split_inclusive(|c| *c == b'\n').collect();
        let from = 1 + r.n(lines.len() - 1);
        let to = from + r.n(lines.len() - from);
        if r.p(50) { deck.push(t.clone()); continue; }
        deck.push([&lines[..from].concat()[..], format!(".lib {} cards_{}\n", ["l.lib", "sub_dir/m.lib"][i % files], i).as_bytes(), &lines[to..].concat()].concat());
        cards.push((i, lines[from..to].concat()));
    }
    for c in &d.subs[0].cards {
        let mut o = vec![];
        card(c, &d, &mut o);
        if r.p(40) { let k = r.n(ns); body[k].extend_from_slice(&o); } else { deck.push(o); }
    }
    for i in 0..ns { deck.push(format!(".lib {} {}\n", ["l.lib", "sub_dir/m.lib"][place[i].0], SECT[place[i].1]).into_bytes()); }
    for i in (1..deck.len()).rev() { let j = r.n(i + 1); deck.swap(i, j); }
    for f in 0..files {
        // sections in any order, with others between them
        let mut parts: Vec<Vec<u8>> = vec![];
        for s in 0..6 {
            let mine = place.iter().position(|p| *p == (f, s));
            if mine.is_none() && r.p(50) { continue; }
            let b = match mine { Some(k) => body[k].clone(), None => b"R77 a 0 3\n.subckt cell a b\nR1 a b 999\n.ends\n* x\nV9 a 0 PWL(0,1)\n".to_vec() };
            parts.push([format!(".lib {}\n", SECT[s]).as_bytes(), &b, b".endl\n"].concat());
        }
        for (i, b) in &cards { if i % files == f { parts.push([format!(".lib cards_{}\n", i).as_bytes(), b, b".endl\n"].concat()); } }
        for i in (1..parts.len()).rev() { let j = r.n(i + 1); parts.swap(i, j); }
        let mut t = b"* library\n".to_vec();
        for p in parts { if r.p(30) { t.extend_from_slice([&b"R78 a 0 4\n"[..], b"* .lib tt\n", b"\n", b"X9 a b nowhere\n"][r.n(4)]); } t.extend_from_slice(&p); }
        put(["p/l.lib", "p/sub_dir/m.lib"][f], &t);
    }
    let mut t = b"title\n".to_vec();
    for p in &deck { t.extend_from_slice(p); }
    put("p/deck.spi", &t);
    let (k, e) = read_at("p/deck.spi");
    vx::check(!e, "a good deck");
    alike(&d.flat(), &k.get_expanded_circuit());
    vx::reach("end");
}
pub fn c20_mix() { faults(200, 5000) }
pub fn c20_mix_deep() { faults(600, 6000) }
/// one fault, at any place of a good deck or of a library it uses
fn faults(n: u64, after: u64) {
    let mut r = variant(n, after);
    let mut g = Gen::new(&EVERY);
    g.s = nm("s");
    let d = g.deck(&mut r);
    let o = order(&mut r, &d);
    let t = d.text(&o);
    let b = vx::byte("b");
    vx::assume((b > 32) & (b < 127) & (b != b';') & (b != b'='));
    let good = ((b >= b'a') & (b <= b'z')) | ((b >= b'A') & (b <= b'Z')) | ((b >= b'0') & (b <= b'9')) | (b == b'_');
    const NODES: [&str; 14] = ["R99 a @x 5", "R99 x@y_1 0 5", "C99 x@ 0 5", "D99 a x@", "I99 x@z 0 5", "I99 0 x@z SIN(1 2 3)", "V99 a x@ 5", "V99 q@ a SIN(1 2 3)", "V99 a x@ PWL(0,1,2,3)", "E99 a b c d@ 5", "E99 a b@ c d 5", "G99 a@ b c d 5", "G99 a b c@long_name_of_a_node d 5", "C99 0 rather_long_name_of_a_node_in_this_deck@ 5"];
    const CARDS: [&str; 22] = ["R99 a b", "R99 a", "R99", "C99 a b", "C99 a", "D99 a", "D99", "E99 a b c d", "E99 a b c", "G99 a b c d", "G99 a b", "V99 a 0", "V99 a", "I99 a 0", "I99 a", ".tran 1 2", ".model d d", ".include x", "R99 a b x", "V99 a b SIN(1 2)", "V99 a b PWL(0,1,2)", "G99 a b c d {"];
    let lines: Vec<&[u8]> = t.split(|c| *c == b'\n').collect();
    let mut lines: Vec<Vec<u8>> = lines[..lines.len() - 1].iter().map(|l| l.to_vec()).collect();
    let inside = |lines: &[Vec<u8>], at: usize| -> bool { let mut k = false; for l in &lines[..at] { if l.starts_with(b".subckt") { k = true; } if l.starts_with(b".ends") { k = false; } } k };
    let at = 1 + r.n(lines.len());
    let how = r.n(4);
    let mut bad = true;
    let new: Vec<u8> = match how {
        0 | 1 => { let c = NODES[r.n(14)]; bad = !good; c.bytes().map(|k| if k == b'@' { b } else { k }).collect() }
        2 => CARDS[r.n(22)].as_bytes().to_vec(),
        _ => if inside(&lines, at) { b".subckt another_one a b".to_vec() } else { b".ends".to_vec() },
    };
    lines.insert(at, new);
    // a part of it goes to a library
    let (from, to) = { let i = 1 + r.n(lines.len()); (i, i + r.n(lines.len() + 1 - i)) };
    let whole = how < 3 && match (inside(&lines, from), inside(&lines, to)) {
        (false, false) => true,
        (true, true) => !lines[from..to].iter().any(|l| l.starts_with(b".ends")),
        _ => false,
    };
    let mut out = lines.clone();
    if whole {
        put("l.lib", &[b"* lib\n.lib s\n".to_vec(), lines[from..to].join(&b'\n'), b"\n.endl\n".to_vec()].concat());
        out = [&lines[..from], &[b".lib l.lib s".to_vec()], &lines[to..]].concat();
    }
    out.push(b"".to_vec());
    let d = read_b(&out.join(&b'\n'));
    vx::check(d.errors == bad, "a deck with a fault is reported, and only such a deck");
    vx::reach(if bad { "bad" } else { "good" });
    vx::reach("end");
}

// ---------------------------------------------------------------- C17
pub fn c17_mix() { commands(300, 1000) }
pub fn c17_mix_deep() { commands(3000, 2000) }
fn commands(n: u64, after: u64) {
    let mut r = variant(n, after);
    let x = values("x", 4);
    let mut q = 0usize;
    let mut number = |r: &mut Rng| -> (String, f64) {
        q += 1;
        if r.p(30) { let v = *r.of(&x); (num(v), v) } else { let t = *r.of(&[("1k", 1e3), ("2.5m", 2.5e-3), ("10u", 1e-5), ("3n", 3e-9), ("0.5", 0.5), ("1e-3", 1e-3), ("7", 7.0), ("100p", 1e-10), ("12ns", 12e-9), ("1e2", 100.0), ("0", 0.0), ("0.001", 0.001), ("4.7uV", 4.7e-6)]); (t.0.to_string(), t.1) }
    };
    let mut set: Vec<(usize, f64)> = vec![];
    let mut k = 0;
    let mut t = "title\nR1 a 0 1\n".to_string();
    let mut cards = 1;
    for _ in 0..1 + r.n(3) {
        t += ".control\n";
        for _ in 0..r.n(6) {
            match r.n(9) {
                0 => { t += "op\n"; k = 1; }
                1 | 2 => {
                    let (a, b) = (number(&mut r), number(&mut r));
                    t += &format!("tran {} {}", a.0, b.0);
                    set.push((TSTEP, a.1)); set.push((TSTOP, b.1));
                    if r.p(50) { let c = number(&mut r); t += &format!(" {}", c.0); set.push((TSTART, c.1)); } else { set.push((TSTART, 0.0)); }
                    t += ["\n", "\n", " ; 5\n", " ;9 9\n"][r.n(4)];
                    k = 2;
                }
                3 | 4 | 5 => {
                    let i = r.n(3);
                    let a = number(&mut r);
                    t += &format!("option {} = {}", ["ABSTOL", "RELTOL", "RMAX"][i], a.0);
                    set.push(([ABSTOL, RELTOL, RMAX][i], a.1));
                    t += ["\n", " ; 7\n"][r.n(2)];
                }
                6 => t += ["option VNTOL = 3\n", "option abstol = 4\n", "option RMIN = 2\n", "option ITL1 = 7\n", "option RELTOLS = 3\n", "option TSTOP = 3\n", "option\n"][r.n(7)],
                7 => t += ["print v(a)\n", "plot a b\n", "dc V1 0 1 2\n", "ops\n", "tran1 2 3\n", "Op\n", "TRAN 1 2\n", "options RMAX = 3\n", "run\n", "set x = 3\n"][r.n(10)],
                _ => t += ["* tran 3 4 5\n", "\n", "*op\n", "; op\n"][r.n(4)],
            }
        }
        t += ".endc\n";
        if r.p(40) { t += &format!("R{} a 0 1\n", cards + 1); cards += 1; }
    }
    let d = read(&t);
    vx::check(!d.errors, "a good deck");
    vx::check(d.flat().elements.len() == cards, "the cards around the control blocks are read");
    configured(&d.cfg(), k, &set);
    vx::reach("end");
}

// ---------------------------------------------------------------- C18
/// the full names of every net of a flattened deck
fn full_names(d: &Deck, f: &Flat) -> Vec<(Vec<u8>, usize)> {
    fn walk(d: &Deck, f: &Flat, s: usize, path: &mut Vec<usize>, prefix: &[u8], conns: Option<&Vec<usize>>, out: &mut Vec<(Vec<u8>, usize)>) {
        let here = path.clone();
        let net = |n: &Name| -> usize {
            if ground(n) { return 0; }
            if let Some(c) = conns { if let Some(i) = d.subs[s].ports.iter().position(|p| p == n) { return c[i]; } }
            f.nets.iter().position(|k| k.path == here && k.name == *n).unwrap_or(usize::MAX)
        };
        for p in &d.subs[s].ports { out.push(([prefix, &p[..]].concat(), net(p))); }
        for g in GROUND { out.push(([prefix, g.as_bytes()].concat(), 0)); }
        for (i, c) in d.subs[s].cards.iter().enumerate() {
            let t: Vec<usize> = c.t.iter().map(|n| net(n)).collect();
            for (n, k) in c.t.iter().zip(&t) { out.push(([prefix, &n[..]].concat(), *k)); }
            if c.k == 'X' { path.push(i); walk(d, f, c.sub, path, &[prefix, c.n.as_bytes(), b"."].concat(), Some(&t), out); path.pop(); }
        }
    }
    let mut out = vec![];
    walk(d, f, 0, &mut vec![], b"", None, &mut out);
    out
}
pub fn c18_mix() { columns_mix(100, 1000) }
pub fn c18_mix_deep() { columns_mix(300, 2000) }
fn columns_mix(n: u64, after: u64) {
    let mut r = variant(n, after);
    let mut g = Gen::new(&[0, 1, 3, 0]);
    g.shunts = true;
    g.pars = false;
    g.most = 10;
    g.levels = 3;
    // resistors and capacitors of known values, sources of symbolic ones
    let (x, s) = (g.x.clone(), if r.p(25) { g.s.clone() } else { nm("s") });
    g.x = vec![3.0];
    g.s = s;
    let mut d = g.deck(&mut r);
    for sub in &mut d.subs { for c in &mut sub.cards { if c.k == 'I' && r.p(50) { c.v = vec![Val::Num(*r.of(&x))]; } } }
    let o = order(&mut r, &d);
    let k = read_b(&d.text(&o));
    vx::check(!k.errors, "a good deck");
    let mut cfg = tcfg(1.0, 1.0, 0.0);
    calm(&mut cfg);
    let f = d.flat();
    let names = full_names(&d, &f);
    // ports that no element is on don't count
    let mut live = vec![false; f.nets.len()];
    live[0] = true;
    for e in &f.els { for t in &e.t { live[*t] = true; } }
    let w = tran(&k.flat(), &cfg).w;
    let nets = live.iter().filter(|l| **l).count();
    columns(&w, nets, 0);
    let mut col = vec![0; f.nets.len()];
    for c in 1..w.head.len() {
        let h = w.head[c].as_bytes();
        let h = &h[2..h.len() - 1];
        let i = names.iter().position(|q| q.0 == h);
        vx::check(i.is_some(), "a name of a node of the deck");
        let net = names[i.unwrap()].1;
        vx::check(net != usize::MAX && live[net] && col[net] == 0, "a column of its own for every node");
        col[net] = c;
    }
    vx::check(col[0] == 1, "ground first");
    let els: Vec<El> = f.els.iter().map(|e| El { k: e.k, t: e.t.clone(), v: e.v.clone(), pts: vec![], idx: 0 }).collect();
    let x = |row: &[f64]| -> Vec<f64> { (0..f.nets.len()).map(|i| if live[i] { row[col[i]] } else { 0.0 }).collect() };
    let (p, q) = (x(&w.rows[0]), x(&w.rows[1]));
    system(&els, f.nets.len() - 1, &dc_val, &no_two).holds_printed(&p, "a column holds the node its header names");
    let dt = w.rows[1][0] - w.rows[0][0];
    system(&els, f.nets.len() - 1, &dc_val, &|_, e| { let g = e.v[0] / dt; (g, -(g * (p[e.t[0]] - p[e.t[1]]))) }).holds_printed(&q, "a column holds the node its header names");
    vx::reach("end");
}

// ---------------------------------------------------------------- C23
pub fn c23_mix() { hashed(16, 1000) }
pub fn c23_mix_deep() { hashed(120, 2000) }
fn hashed(n: u64, after: u64) {
    let mut r = variant(n, after);
    let mut g = Gen { s: nm("s"), x: vec![3.0, 5.0], q: 0, kinds: &EVERY, pars: true, shunts: false, most: 14, levels: 3, nets: 24 };
    let d = g.deck(&mut r);
    let o = order(&mut r, &d);
    reread(1, text(&d.text(&o)));
}

// ---------------------------------------------------------------- circuits
const OHMS: [f64; 12] = [1.0, 2.0, 5.0, 10.0, -3.0, 0.5, 1e6, 1e-3, 4.0, 20.0, -0.25, 3e13];
/// is the matrix regular (by elimination on the concrete coefficients)
fn regular(s: &Sys) -> bool {
    let n = s.n;
    let mut a = s.a.clone();
    for k in 0..n {
        let mut p = k;
        for r in k..n { if a[r][k].abs() > a[p][k].abs() { p = r; } }
        if a[p][k].abs() < 1e-9 { return false; }
        a.swap(p, k);
        for r in k + 1..n {
            if a[r][k] == 0.0 { continue; }
            let q = a[r][k] / a[k][k];
            for c in k..n { let t = a[k][c] * q; a[r][c] -= t; }
        }
    }
    true
}
fn linear(r: &mut Rng, x: &[f64], nodes: usize) -> Circuit {
    let mut ck = Circuit::new();
    let val = |r: &mut Rng| if r.p(40) { *r.of(x) } else { *r.of(&[1.0, 2.0, -3.0, 0.5, 10.0]) };
    let two = |r: &mut Rng| -> [usize; 2] { let a = r.n(nodes + 1); let mut b = r.n(nodes + 1); while b == a { b = r.n(nodes + 1); } [a, b] };
    let mut v = vec![false; nodes + 1]; // nodes that a voltage-defined source holds
    for i in 0..nodes + 2 + r.n(5) {
        let t = two(r);
        match r.n(10) {
            0 | 1 | 2 | 3 => add(&mut ck, 'R', &t, &[*r.of(&OHMS)]),
            4 | 5 => { let q = val(r); add(&mut ck, 'I', &t, &[q]) }
            6 => { let k = *r.of(&[0.5, -2.0, 3.0, 0.125]); let c = two(r); add(&mut ck, 'G', &[t[0], t[1], c[0], c[1]], &[k]) }
            7 | 8 => if !v[t[0]] && t[0] != 0 { v[t[0]] = true; let q = val(r); if r.p(30) { add(&mut ck, 'V', &[t[1], t[0]], &[q]) } else { add(&mut ck, 'V', &t, &[q]) } },
            _ => if !v[t[0]] && t[0] != 0 { v[t[0]] = true; let k = *r.of(&[2.0, -0.5, 0.0, 10.0]); let c = two(r); add(&mut ck, 'E', &[t[0], t[1], c[0], c[1]], &[k]) },
        }
        if i < nodes && r.p(80) { add(&mut ck, 'R', &[i + 1, if r.p(50) { 0 } else { i }], &[*r.of(&OHMS)]); }
    }
    ck
}
fn circuits(n: u64, after: u64, watch: bool, small: bool) {
    let mut r = variant(n, after);
    let x = values("x", 3);
    let nodes = 2 + r.n(if small { 5 } else { 9 });
    let ck = linear(&mut r, &x, nodes);
    let els: Vec<El> = ck.elements.iter().map(el).collect();
    let top = els.iter().flat_map(|e| e.t.iter().cloned()).max().unwrap();
    let s = system(&els, top, &dc_val, &no_two);
    if !regular(&s) { vx::reach("end"); return; }
    if watch { watch_pivots(); }
    let (y, _) = dc(&ck, &cfg_dc(0));
    vx::check(y.len() == 1 + s.n, "one value per node and voltage source");
    vx::close(y[0], 0.0, 0.0, "ground is at 0 V");
    s.holds(&y, "Kirchhoff's laws and branch equations hold");
    vx::reach("solved");
    vx::reach("end");
}
pub fn c01_mix() { circuits(300, 1000, false, true) }
pub fn c01_mix_deep() { circuits(2500, 2000, false, false) }
pub fn c02_mix() { circuits(300, 5000, true, true) }
pub fn c02_mix_deep() { circuits(2500, 6000, true, false) }

// ---------------------------------------------------------------- C04
/// a resistive network with one to three diodes anywhere, one arbitrary drive
fn junctions(n: u64, after: u64, its: usize) {
    let mut r = variant(n, after);
    let drive = vx::real("drive");
    let nodes = 1 + r.n(3);
    let mut plan: Vec<(char, Vec<usize>, Vec<f64>)> = vec![];
    for i in 1..=nodes { plan.push(('R', vec![i, if r.p(50) { 0 } else { i - 1 }], vec![*r.of(&[100.0, 1000.0, 50.0, 2000.0])])); }
    let mut held = false;
    let top = nodes + 1;
    if r.p(50) { held = true; plan.push(('V', vec![top, 0], vec![drive])); plan.push(('R', vec![top, 1 + r.n(nodes)], vec![*r.of(&[100.0, 500.0, 1000.0])])); } else { plan.push(('I', vec![0, 1 + r.n(nodes)], vec![drive])); }
    let all = if held { nodes + 1 } else { nodes };
    for _ in 0..1 + r.n(3) {
        let a = r.n(all + 1);
        let mut b = r.n(all + 1);
        while b == a { b = r.n(all + 1); }
        plan.push(('D', vec![a, b], vec![*r.of(&[1e-9, 1e-8, 1e-7, 1e-10]), *r.of(&[27.0, 27.0, 60.0])]));
    }
    match r.n(5) {
        0 => plan.push(('I', vec![r.n(all + 1), r.n(all + 1)], vec![0.0005])),
        1 => plan.push(('G', vec![r.n(all + 1), r.n(all + 1), r.n(all + 1), r.n(all + 1)], vec![1e-4])),
        2 => { let t = all + 1; plan.push(('V', vec![t, r.n(all + 1)], vec![0.25])); plan.push(('R', vec![t, 0], vec![300.0])); }
        _ => {}
    }
    for i in (1..plan.len()).rev() { let j = r.n(i + 1); plan.swap(i, j); }
    let make = || {
        let mut c = Circuit::new();
        for (k, t, v) in &plan { add(&mut c, *k, t, v); }
        let n = c.count_nodes() - 1;
        (c, n)
    };
    nr_of(&make, r.n(its), false);
}
pub fn c04_mix() { junctions(60, 1000, 2) }
pub fn c04_mix_deep() { junctions(400, 2000, 3) }

// ---------------------------------------------------------------- C10
/// numbers of any shape, two arbitrary digits in them
fn figures(n: u64, after: u64) {
    let mut r = variant(n, after);
    let sign = r.n(3);
    let whole = 1 + if r.p(70) { r.n(6) } else { r.n(30) };
    let point = r.p(60);
    let frac = if !point { 0 } else if r.p(70) { r.n(7) } else { r.n(40) };
    let at = [r.n(whole + frac), r.n(whole + frac)];
    let mut t = [&b""[..], b"-", b"+"][sign].to_vec();
    let (mut x, mut w) = (0.0, 1.0);
    for i in 0..whole + frac {
        if i == whole { t.push(b'.'); }
        let d = if i == at[0] { digit("d0") } else if i == at[1] { digit("d1") } else { b'0' + r.n(10) as u8 };
        t.push(d);
        if i < whole { x = x * 10.0 + (d - b'0') as f64; } else { w /= 10.0; x += (d - b'0') as f64 * w; }
    }
    if point && frac == 0 { t.push(b'.'); }
    let mut m = 1.0;
    if r.p(50) {
        let e = *r.of(&["0", "1", "7", "12", "19", "20", "21", "30", "38", "39", "45", "64", "99", "100", "127", "128", "129", "180", "200", "012", "00"]);
        let s = r.n(3);
        t.extend_from_slice(&[&b"e"[..], [&b""[..], b"+", b"-"][s], e.as_bytes()].concat());
        let p: f64 = format!("1e{}", e).parse().unwrap();
        m = if s == 2 { 1.0 / p } else { p };
    } else {
        let (u, k) = *r.of(&[("", 1.0), ("k", 1e3), ("m", 1e-3), ("u", 1e-6), ("n", 1e-9), ("p", 1e-12), ("kOhm", 1e3), ("mA", 1e-3), ("uFarad", 1e-6), ("nH", 1e-9), ("psec", 1e-12), ("V", 1.0), ("Ohm", 1.0), ("Hz", 1.0), ("A", 1.0), ("volts", 1.0), ("kkkkk", 1e3), ("pppp", 1e-12), ("mmmmm", 1e-3), ("ak", 1.0), ("K", 1.0), ("M", 1.0), ("munp", 1e-3), ("knife", 1e3), ("Ae", 1.0), ("ke", 1e3)]);
        t.extend_from_slice(u.as_bytes());
        m = k;
    }
    if sign == 1 { x = -x; }
    let g = extract_value(text(&t));
    vx::check(g.is_some(), "a number is accepted");
    vx::close(g.unwrap(), x * m, 0.0, "the number has its value");
    vx::reach("end");
}
pub fn c10_mix() { figures(150, 1000) }
pub fn c10_mix_deep() { figures(1500, 2000) }

// ---------------------------------------------------------------- C05
pub fn c05_mix() { storing(50, 1000) }
pub fn c05_mix_deep() { storing(500, 2000) }
fn storing(n: u64, after: u64) {
    let mut r = variant(n, after);
    let x = [between("x", -2.0, 2.0), vx::real("y")];
    let nodes = 1 + r.n(5);
    let mut ck = Circuit::new();
    let mut held = vec![false; nodes + 1];
    for i in 1..=nodes {
        add(&mut ck, 'R', &[i, if r.p(50) { 0 } else { i - 1 }], &[*r.of(&[1.0, 2.0, 5.0, 0.5, 100.0])]);
        if r.p(30) { add(&mut ck, 'R', &[i, 0], &[*r.of(&[1.0, 4.0, 25.0])]); }
    }
    for _ in 0..2 + r.n(5) {
        let a = r.n(nodes + 1);
        let mut b = r.n(nodes + 1);
        while b == a { b = r.n(nodes + 1); }
        let v = if r.p(50) { *r.of(&x) } else { *r.of(&[1.0, -2.0, 0.5]) };
        match r.n(8) {
            0 | 1 | 2 | 3 => add(&mut ck, 'C', &[a, b], &[*r.of(&[1.0, 0.5, 1e-3, 20.0, 1e-9])]),
            4 => add(&mut ck, 'S', &[a, b], &[v, *r.of(&[1.0, -2.0, 0.0]), *r.of(&[0.25, 0.125, 0.0])]),
            5 => add(&mut ck, 'I', &[a, b], &[v]),
            6 => if a != 0 && !held[a] { held[a] = true; add(&mut ck, 'W', &[a, 0], &[v, *r.of(&[1.0, -2.0, 0.0]), *r.of(&[0.25, 0.125])]) },
            _ => if a != 0 && !held[a] { held[a] = true; add(&mut ck, 'V', &[0, a], &[v]) },
        }
    }
    let h = *r.of(&[1.0, 0.25, 64.0, 1e-3]);
    let mut cfg = tcfg(h, h * *r.of(&[1.0, 2.0, 2.5, 3.0]), 0.0);
    cfg.RELTOL = 1.0;
    cfg.FS = *r.of(&[1.0, 0.5]);
    cfg.RMAX = *r.of(&[1.0, 2.0]);
    let t = tran(&ck, &cfg);
    vx::check(t.w.rows.len() >= 2, "DC and steps");
    euler(&ck, ck.count_nodes() - 1, &t, &ramp);
    vx::reach("end");
}

// ---------------------------------------------------------------- C06, C07
fn controls(n: u64, after: u64, axes: bool) {
    let mut r = variant(n, after);
    // a step of a known size if its fractions have nine decimals, else of any size near one
    let step = *r.of(&[1.0, 0.125, 16.0, 4096.0, 1e-3, 2e-6, 2e-12]);
    let step = if step < 0.5 { between("step", step, step * 1.5) } else { step };
    let mut cfg = tcfg(step, step * *r.of(&[1.0, 2.0, 3.0, 2.25, 3.5, 5.0]), 0.0);
    cfg.FS = *r.of(&[0.25, 0.5, 1.0, 2.0]);
    cfg.FT = *r.of(&[0.25, 0.5]);
    cfg.RMAX = *r.of(&[1.0, 1.5, 2.0, 5.0, 0.75]);
    cfg.RMIN = *r.of(&[0.2, 0.05, 0.01, 0.4, 1e3]);
    cfg.ITL4 = *r.of(&[1, 2, 3, 10]);
    cfg.ITL3 = *r.of(&[0, 2, 3, 6]);
    cfg.RELTOL = *r.of(&[0.0, 0.25, 0.5, 1.0]);
    cfg.VNTOL = *r.of(&[1.0, 0.5, 2.0]);
    cfg.ABSTOL = *r.of(&[1.0, 4.0]);
    let s = between("slope", 0.25, 8.0);
    let mut ck = Circuit::new();
    let a = *r.of(&[0.0, 1.0, 1.5]);
    let b = a + *r.of(&[0.5, 1.0, 3.0]);
    add(&mut ck, 'P', &[1, 0], &[0.0, -1.0, 0.0, 0.0, a * step, 0.0, b * step, (b - a) * s, 64.0 * step, (b - a) * s]);
    if a == 0.0 { ck = Circuit::new(); add(&mut ck, 'P', &[1, 0], &[0.0, -1.0, 0.0, 0.0, b * step, b * s, 64.0 * step, b * s]); }
    add(&mut ck, 'R', &[1, 0], &[1.0]);
    if !axes {
        follows(&ck, &cfg, 2, 1, &mut |x| { let y = if x <= a * step { 0.0 } else if x <= b * step { s * (x - a * step) / step } else { (b - a) * s }; vec![y, -y] });
    } else {
        cfg.RELTOL = if r.p(60) { 1.0 } else { cfg.RELTOL };
        cfg.TSTART = cfg.TSTOP * *r.of(&[0.0, 0.25, 0.6, 1.0]);
        let t = tran(&ck, &cfg);
        if t.end < cfg.TSTOP { vx::reach("end"); return; } // given up: C07
        axis(&t, &cfg, &|x| if x <= a * step { 0.0 } else if x <= b * step { s * (x - a * step) / step } else { (b - a) * s });
    }
    vx::reach("end");
}
pub fn c06_mix() { controls(200, 1000, true) }
pub fn c06_mix_deep() { controls(2000, 2000, true) }
pub fn c07_mix() { controls(200, 5000, false) }
pub fn c07_mix_deep() { controls(2000, 6000, false) }
/// a hundred steps and more, up to a stop time anywhere between two points
pub fn c06_many() {
    let w = vx::choice("which", 6) as usize;
    let n = [40.0, 70.0, 130.0][w / 2];
    // 0.25 + 0.5 + 1 + 2 + 4 = 7.75, then steps of 5
    let stop = between("stop", 0.0, 5.0);
    vx::assume(stop > 0.0);
    let vo = vx::real("vo");
    let mut cfg = tcfg(1.0, 7.75 + n * 5.0 + stop, 0.0);
    if w % 2 == 1 { cfg.TSTART = 7.75 + (n - 3.0) * 5.0; }
    cfg.RELTOL = 1.0;
    let mut ck = Circuit::new();
    add(&mut ck, 'V', &[1, 0], &[vo]);
    add(&mut ck, 'R', &[1, 0], &[1.0]);
    let t = tran(&ck, &cfg);
    axis(&t, &cfg, &|_| vo);
    vx::check(t.w.rows.len() == if w % 2 == 1 { 6 } else { n as usize + 7 }, "every accepted point from TSTART on");
    vx::reach("end");
}

// ---------------------------------------------------------------- C08
pub fn c08_mix() { patterns(100, 1000) }
pub fn c08_mix_deep() { patterns(600, 2000) }
fn patterns(n: u64, after: u64) {
    let mut r = variant(n, after);
    let k = 2 + r.n(24);
    let mut t = if r.p(70) { 0.0 } else { 0.5 };
    let mut pat = vec![];
    for _ in 0..k { pat.push((t, *r.of(&[0.0, 1.0, -2.0, 5.0, 1e6, 1e-6]))); t += *r.of(&[1.0, 0.5, 2.0, 1e-3, 7.0, 1e-6]); }
    let td = *r.of(&[0.0, 1.0, -4.0, 0.125, 100.0, -0.5]);
    let rep = r.p(50);
    let s = VoltageSourcePwl { p: 1, n: 0, pat: pat.clone(), t_delay: td, repeat: if rep { *r.of(&[0.0, 1.0]) } else { -1.0 }, idx: 0 };
    let per = pat[k - 1].0;
    let j = r.n(k);
    let m = if rep { r.n(4) as f64 } else { 0.0 };
    // from some point to the one after the next
    let lo = pat[j].0 + td + m * per;
    let hi = (if j + 2 < k { pat[j + 2].0 } else { per + 3.0 }) + td + m * per;
    let t = between("t", if r.p(15) { lo - 3.0 } else { lo }, hi);
    vx::assume(t >= 0.0);
    let got = s.evaluate(t);
    let mut u = t - td;
    if u < 0.0 { vx::close(got, 0.0, 0.0, "zero before the delay"); vx::reach("end"); return; }
    let mut wraps = 0;
    if rep { while u >= per { u = u - per; wraps += 1; } }
    let scale = if vx::SYM { 0.0 } else { 1e6 };
    if rep && u == 0.0 && wraps > 0 {
        let a = if pat[0].0 == 0.0 { pat[0].1 } else { 0.0 };
        vx::check(got == pat[k - 1].1 || got == a, "a period ends on the last or starts on the first value");
    } else if u >= pat[0].0 {
        let mut want = pat[k - 1].1;
        for i in 1..k { if u <= pat[i].0 { want = pat[i - 1].1 + (pat[i].1 - pat[i - 1].1) * (u - pat[i - 1].0) / (pat[i].0 - pat[i - 1].0); break; } }
        vx::close(got, want, scale, "the pattern's value");
    }
    vx::reach("end");
}

// ---------------------------------------------------------------- C11
/// one arbitrary character anywhere in a long bracket expression
pub fn c11_runs() {
    let n = [12usize, 40][vx::choice("length", 2) as usize];
    let at = vx::choice("place", 12) as usize * (n - 1) / 11;
    let c = vx::byte("c");
    vx::assume((c < 128) & (c != b' ') & !((c >= 9) & (c <= 13)) & (c != b'}') & !((c >= 28) & (c <= 31)));
    let mut v = vec![b'{'];
    for i in 0..n { v.push(if i == at { c } else { b"pq7Zr"[i % 5] }); }
    v.push(b'}');
    let alnum = ((c >= b'a') & (c <= b'z')) | ((c >= b'A') & (c <= b'Z')) | ((c >= b'0') & (c <= b'9'));
    vx::check(extract_expression(text(&v)).is_some() == alnum, "an identifier is alphanumeric from its first to its last character");
    vx::reach(if alnum { "alphanumeric" } else { "other" });
    vx::reach("end");
}

// ---------------------------------------------------------------- C19
fn run(e: &mut Engine, ck: &Circuit, cfg: &Configuration, file: &str, dc: bool) -> (usize, f64) {
    let mut c = cfg.clone();
    c.set_wavefile(file);
    let s = if dc { e.dc_operating_point(ck, &c) } else { e.transient_analysis(ck, &c) };
    (s.iterations, s.end)
}
fn some(r: &mut Rng, x: f64) -> (Circuit, Configuration, bool) {
    let mut ck = Circuit::new();
    let nodes = 1 + r.n(3);
    let mut held = vec![false; nodes + 1];
    for i in 1..=nodes { add(&mut ck, 'R', &[i, i - 1], &[*r.of(&[1.0, 2.0, 100.0])]); }
    for _ in 0..1 + r.n(4) {
        let a = r.n(nodes + 1);
        let mut b = r.n(nodes + 1);
        while b == a { b = r.n(nodes + 1); }
        let v = if r.p(60) { x } else { *r.of(&[1.0, -2.0, 0.25]) };
        match r.n(9) {
            0 => add(&mut ck, 'C', &[a, b], &[*r.of(&[1.0, 0.5])]),
            1 => add(&mut ck, 'C', &[a, b], &[0.25]),
            2 => add(&mut ck, 'I', &[a, b], &[v]),
            3 => add(&mut ck, 'S', &[a, b], &[v, 1.0, 0.25]),
            4 => add(&mut ck, 'G', &[a, b, r.n(nodes + 1), 0], &[0.125]),
            5 => if a != 0 && !held[a] { held[a] = true; add(&mut ck, 'V', &[a, b], &[v]) },
            6 => if a != 0 && !held[a] { held[a] = true; add(&mut ck, 'P', &[a, 0], &[0.0, -1.0, 0.0, v, 4.0, 1.0]) },
            7 => if a != 0 && !held[a] { held[a] = true; let c = r.n(nodes + 1); add(&mut ck, 'E', &[a, 0, c, 0], &[0.5]) },
            _ => if a != 0 && !held[a] { held[a] = true; add(&mut ck, 'W', &[a, 0], &[v, 1.0, 0.25]) },
        }
    }
    let mut cfg = tcfg(*r.of(&[1.0, 0.5]), *r.of(&[1.0, 2.0, 1.5]), 0.0);
    cfg.RELTOL = *r.of(&[1.0, 1.0, 0.5]);
    cfg.FS = *r.of(&[1.0, 0.5]);
    cfg.RMAX = *r.of(&[1.0, 2.0]);
    cfg.ITL1 = r.n(3);
    cfg.ITL4 = *r.of(&[1, 2]);
    cfg.VNTOL = 0.5;
    cfg.ABSTOL = 0.5;
    cfg.RMIN = 0.2;
    cfg.TSTART = *r.of(&[0.0, 0.0, 1.0]);
    for i in 0..ck.count_nodes() { ck.node_id_lut.insert(i, name("n", i)); }
    (ck, cfg, r.p(40))
}
pub fn c19_mix() { histories(150, 1000) }
pub fn c19_mix_deep() { histories(800, 2000) }
fn histories(n: u64, after: u64) {
    let mut r = variant(n, after);
    let x = between("x", 0.25, 0.5);
    let (ck, cfg, dc) = some(&mut r, x);
    let els: Vec<El> = ck.elements.iter().map(el).collect();
    let s = system(&els, ck.count_nodes() - 1, &|_, e| match e.k { 'S' | 'W' => 0.0, 'P' => 0.0, _ => e.v[0] }, &no_two);
    if !regular(&s) { vx::reach("end"); return; }
    let mut fresh = Engine::new();
    let want = run(&mut fresh, &ck, &cfg, "fresh.dat", dc);
    let mut used = Engine::new();
    for _ in 0..1 + r.n(3) { let (k, c, dc) = some(&mut r, 0.75); run(&mut used, &k, &c, "again.dat", dc); }
    if r.p(30) { run(&mut used, &ck, &cfg, "again.dat", !dc); }
    let got = run(&mut used, &ck, &cfg, "again.dat", dc);
    same_result(used, fresh, got, want, !dc);
}
fn same_result(used: Engine, fresh: Engine, got: (usize, f64), want: (usize, f64), waves: bool) {
    vx::check(got.0 == want.0, "the same number of iterations");
    vx::close(got.1, want.1, 0.0, "the same end");
    let (p, q) = (used.dc().unwrap(), fresh.dc().unwrap());
    vx::check(p.len() == q.len(), "the same number of unknowns");
    for i in 0..p.len() { vx::close(p[i], q[i], 0.0, "the same operating point"); }
    if waves { same_waves("again.dat", "fresh.dat"); }
    vx::reach("end");
}
/// an analysis that stops at its iteration limit, after ones of the same size that converged
pub fn c19_unfinished() {
    let w = vx::choice("which", 12) as usize;
    let (a, b, dc) = (w % 3, w / 3 % 2, w / 6 == 0);
    let x = between("x", 1.0, 2.0);
    let make = |k: usize, x: f64| { let mut c = Circuit::new(); add(&mut c, 'V', &[1, 0], &[x]); add(&mut c, 'R', &[1, 2], &[[2.0, 3.0, 1.0][k]]); add(&mut c, 'R', &[2, 0], &[1.0]); if k == 2 { add(&mut c, 'C', &[2, 0], &[1.0]); } for i in 0..3 { c.node_id_lut.insert(i, name("n", i)); } c };
    let mut cfg = tcfg(1.0, 2.0, 0.0);
    cfg.RELTOL = 1e-4;
    cfg.VNTOL = 1e-6;
    cfg.ABSTOL = 1e-9;
    cfg.ITL1 = 0;
    cfg.ITL4 = 2;
    cfg.FS = 1.0;
    let mut fresh = Engine::new();
    let ck = make([2, 0][b], x);
    let want = run(&mut fresh, &ck, &cfg, "fresh.dat", dc);
    let mut used = Engine::new();
    let mut c = cfg.clone();
    c.ITL1 = 50;
    run(&mut used, &make(a, 0.5), &c, "again.dat", w % 2 == 0);
    let got = run(&mut used, &ck, &cfg, "again.dat", dc);
    same_result(used, fresh, got, want, !dc);
}
