//! Does the executor cope with what a refactoring may reach for? One entry per group of library features.
use super::vx;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::*;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, BufWriter, Read, Write};
use std::path::{Path, PathBuf};
use std::rc::Rc;
harness!(sf_btree, sf_sets, sf_deque, sf_sort, sf_vec, sf_iter, sf_str, sf_str2, sf_char, sf_float, sf_float2, sf_dyn, sf_rc, sf_static, sf_file, sf_file2, sf_file3, sf_path, sf_fmt, sf_fmt2, sf_parse, sf_slice, sf_heap, sf_ref, sf_arc, sf_lines, sf_entry, sf_io, sf_sum, sf_cow, sf_float3, sf_trig, sf_int, sf_array, sf_drain);
fn s(n: &str, k: usize) -> String { let v: Vec<u8> = (0..k).map(|i| vx::byte(&format!("{}{}", n, i))).collect(); for b in &v { vx::assume((*b >= b'a') & (*b <= b'z')); } String::from_utf8(v).unwrap() }
fn end() { vx::reach("end"); }
fn sf_btree() {
    let k = s("k", 1);
    let mut m: BTreeMap<String, usize> = BTreeMap::new();
    for i in 0..12 { m.insert(format!("n{}", i), i); }
    m.insert(k.clone(), 99);
    vx::check(m.len() == 13, "len");
    vx::check(m.get("n3") == Some(&3), "get");
    vx::check(m[&k] == 99, "key");
    let v: Vec<&String> = m.keys().collect();
    vx::check(v.windows(2).all(|w| w[0] < w[1]), "sorted");
    m.remove("n3");
    vx::check(!m.contains_key("n3") && m.range("n4".to_string()..).next().is_some(), "removed");
    let first = m.iter().next().unwrap().0.clone();
    vx::check(first <= k, "first");
    end()
}
fn sf_sets() {
    let a: HashSet<String> = ["a", "b", "c"].iter().map(|x| x.to_string()).collect();
    let b: BTreeSet<usize> = (0..9).rev().collect();
    let k = s("k", 1);
    vx::check(a.contains(&k) == (k == "a" || k == "b" || k == "c"), "contains");
    vx::check(b.iter().copied().collect::<Vec<_>>() == (0..9).collect::<Vec<_>>(), "order");
    let c: HashSet<String> = [k.clone(), "z".into()].into_iter().collect();
    vx::check(a.intersection(&c).count() <= 1 && a.is_subset(&a), "ops");
    end()
}
fn sf_deque() {
    let mut q: VecDeque<(usize, String)> = VecDeque::with_capacity(2);
    for i in 0..9 { q.push_back((i, s("q", 1))); if i % 3 == 2 { q.pop_front(); } if i % 4 == 1 { q.push_front((100 + i, "x".into())); } }
    let n: usize = q.iter().map(|x| x.0).sum();
    vx::check(n > 0 && q.len() == 8, "len");
    while let Some(x) = q.pop_back() { vx::check(x.1.len() == 1, "one"); }
    end()
}
fn sf_sort() {
    let (a, b) = (vx::real("a"), vx::real("b"));
    let mut v = vec![a, 1.0, b];
    v.sort_by(|x, y| x.partial_cmp(y).unwrap());
    vx::check(v[0] <= v[1] && v[1] <= v[2], "sorted");
    let mut w: Vec<(usize, String)> = vec![(2, s("w", 1)), (1, s("v", 2)), (3, "m".into())];
    w.sort_by(|a, b| a.1.cmp(&b.1));
    vx::check(w[0].1 <= w[1].1 && w[1].1 <= w[2].1, "strings");
    w.sort_by_key(|x| std::cmp::Reverse(x.0));
    vx::check(w[0].0 == 3, "key");
    let mut u: Vec<u32> = (0..40).map(|x| x * 7 % 40).collect();
    u.sort_unstable();
    vx::check(u.binary_search(&17) == Ok(17), "search");
    end()
}
fn sf_vec() {
    let mut v: Vec<f64> = (0..6).map(|i| vx::real(&format!("x{}", i))).collect();
    v.swap(0, 5);
    v.insert(2, 3.5);
    let r = v.remove(2);
    vx::close(r, 3.5, 0.0, "removed");
    let w: Vec<f64> = v.drain(1..3).collect();
    v.extend_from_slice(&w);
    v.truncate(5);
    v.dedup_by(|a, b| vx::is_zero(*a - *b));
    v.rotate_left(2);
    v.reverse();
    v.resize(9, 0.0);
    let (a, b) = v.split_at_mut(4);
    a.copy_from_slice(&b[..4]);
    v.fill(1.0);
    v.retain(|x| *x > 0.5);
    vx::check(v.len() == 9 && v.iter().all(|x| *x == 1.0), "filled");
    let mut z = vec![vec![0.0; 3]; 3];
    z[1].clone_from_slice(&[1.0, 2.0, 3.0]);
    z.swap_remove(0);
    vx::check(z.concat().len() == 6 && z.iter().flatten().count() == 6, "flat");
    let bx = v.into_boxed_slice();
    vx::check(bx.first().is_some() && bx.last().is_some() && bx.split_first().is_some(), "ends");
    end()
}
fn sf_iter() {
    let x: Vec<f64> = (0..4).map(|i| vx::real(&format!("x{}", i))).collect();
    let m = x.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    vx::check(x.iter().all(|v| *v <= m), "max");
    let k = x.iter().enumerate().max_by(|a, b| a.1.partial_cmp(b.1).unwrap()).unwrap().0;
    vx::check(x[k] == m, "argmax");
    let (p, q): (Vec<f64>, Vec<f64>) = x.iter().partition(|v| **v > 0.0);
    vx::check(p.len() + q.len() == 4, "partition");
    let pos = x.iter().position(|v| *v == m);
    vx::check(pos.is_some() && x.iter().rposition(|v| *v == m).is_some(), "position");
    let s = x.iter().zip(x.iter().skip(1)).map(|(a, b)| b - a).sum::<f64>();
    vx::close(s, x[3] - x[0], 1.0, "telescope");
    let c: Vec<_> = x.chunks(2).map(|c| c.iter().product::<f64>()).collect();
    vx::check(c.len() == 2 && x.iter().step_by(2).count() == 2 && x.iter().rev().take_while(|_| true).count() == 4, "chunks");
    let sc: Vec<f64> = x.iter().scan(0.0, |a, v| { *a += v; Some(*a) }).collect();
    vx::close(sc[3], x.iter().sum(), 1.0, "scan");
    let mut it = (0..10).peekable();
    let mut n = 0;
    while let Some(i) = it.next() { if it.peek() == Some(&5) { n = i; } }
    vx::check(n == 4 && (1..4).flat_map(|i| 0..i).count() == 6 && std::iter::successors(Some(1), |x| Some(x * 2)).nth(5) == Some(32), "peek");
    let r: Result<Vec<i32>, String> = ["1", "2", "x"].iter().map(|t| t.parse::<i32>().map_err(|e| e.to_string())).collect();
    vx::check(r.is_err(), "result");
    let o: Option<Vec<u32>> = "123".chars().map(|c| c.to_digit(10)).collect();
    vx::check(o == Some(vec![1, 2, 3]), "option");
    let h: HashMap<usize, f64> = x.iter().copied().enumerate().collect();
    vx::check(h.len() == 4 && h.values().count() == 4, "map");
    end()
}
fn sf_str() {
    let t = format!("  {} = {}\t; {}", s("a", 1), s("b", 1), s("c", 1));
    let (l, r) = t.trim().split_once(';').unwrap();
    vx::check(r.trim_start().len() == 1, "r");
    let (n, v) = l.split_once('=').map(|(a, b)| (a.trim(), b.trim())).unwrap();
    vx::check(n.len() == 1 && v.len() == 1, "n v");
    vx::check(t.contains(n) && t.find('=').is_some() && t.rfind(v).is_some() && !t.starts_with('=') && t.to_uppercase().to_lowercase() == t, "find");
    vx::check(t.to_ascii_uppercase().eq_ignore_ascii_case(&t), "ascii");
    vx::check(t.split(|c: char| c == '=' || c == ';').count() == 3 && t.splitn(2, '=').count() == 2 && t.rsplitn(2, ';').count() == 2, "split");
    vx::check(t.replace('=', ":").contains(':') && t.replacen(' ', "_", 1).starts_with('_'), "replace");
    let j = [n, v].join("-");
    vx::check(j.len() == 3 && j.strip_prefix(n).is_some() && j.strip_suffix(v).is_some() && j.trim_end_matches(v).len() < 3, "join");
    vx::check(t.char_indices().filter(|(_, c)| c.is_whitespace()).count() == 6 && t.bytes().filter(|b| b.is_ascii_alphabetic()).count() == 3, "chars");
    vx::check(t.matches('=').count() == 1 && t.lines().count() == 1 && t.split_ascii_whitespace().count() == 5, "count");
    end()
}
fn sf_str2() {
    let n = s("n", 2);
    let mut o = String::with_capacity(4);
    for c in n.chars().rev() { o.push(c); }
    o.insert(0, '<');
    o.insert_str(1, "--");
    o.push_str(&n);
    o += ">";
    vx::check(o.len() == 8 && o.pop() == Some('>') && o.remove(0) == '<', "build");
    o.truncate(4);
    o.retain(|c| c != '-');
    vx::check(o.chars().rev().eq(n.chars()), "reverse");
    vx::check(n.chars().next().map(|c| c.is_lowercase()) == Some(true) && n.chars().all(char::is_alphanumeric) && n.chars().last().unwrap().to_ascii_uppercase().is_uppercase(), "class");
    vx::check(n.repeat(3).len() == 6 && n.get(0..1).is_some() && n.is_char_boundary(1) && &n[1..] == n.split_at(1).1, "slices");
    vx::check(String::from_utf8_lossy(n.as_bytes()) == n && n.as_str().to_owned() == n && n.clone().into_bytes().len() == 2, "bytes");
    vx::check(match n.as_str() { "ab" | "cd" => true, x if x.starts_with('a') => true, _ => false } == (n == "cd" || n.as_bytes()[0] == b'a'), "match");
    vx::check(n.as_str().cmp("mm") == n.as_bytes().cmp(&b"mm"[..]), "cmp");
    vx::check(n.trim_matches(|c: char| c == 'a').len() <= 2 && n.trim_start_matches('b').len() <= 2, "trim");
    end()
}
fn sf_char() {
    let b = vx::byte("b");
    vx::assume(b < 128);
    let c = b as char;
    vx::check(c.is_ascii_digit() == c.is_numeric() && c.is_ascii_alphabetic() == c.is_alphabetic(), "class");
    vx::check(c.to_digit(10).is_some() == c.is_ascii_digit() && c.is_alphanumeric() == (c.is_alphabetic() || c.is_numeric()), "digit");
    vx::check(matches!(c, 'a'..='z' | 'A'..='Z') == c.is_ascii_alphabetic(), "range");
    vx::check(c.to_ascii_lowercase() == c.to_lowercase().next().unwrap(), "lower");
    vx::check("+-.eE".contains(c) == matches!(c, '+' | '-' | '.' | 'e' | 'E'), "in");
    vx::check(['+', '-'].contains(&c) == (b == 43 || b == 45) && char::from(b) == c && c.len_utf8() == 1 && c.is_ascii_punctuation() as u32 <= 1, "array");
    end()
}
fn sf_float() {
    let (a, b) = (vx::real("a"), vx::real("b"));
    vx::close(a.max(b) + a.min(b), a + b, 1.0, "min max");
    vx::check(a.abs() >= 0.0 && a.clamp(-1.0, 1.0) <= 1.0, "clamp");
    vx::close(a.powi(2), a * a, 1.0, "powi");
    vx::close(a.powi(3), a * a * a, 1.0, "powi");
    vx::check(a.signum() * a >= 0.0, "signum");
    vx::check(!a.is_nan() && a.is_finite() && !a.is_infinite(), "finite");
    vx::check((a < b) == (a.partial_cmp(&b) == Some(std::cmp::Ordering::Less)), "cmp");
    if a != 0.0 { vx::close(a.recip(), 1.0 / a, 1.0, "recip"); }
    vx::check(a.is_sign_negative() == (a < 0.0), "sign");
    vx::close(a.copysign(b).abs(), a.abs(), 1.0, "copysign");
    vx::check(a.total_cmp(&0.5) == a.partial_cmp(&0.5).unwrap() && a.total_cmp(&-0.5) == a.partial_cmp(&-0.5).unwrap(), "total const");
    vx::check(a.total_cmp(&b) == a.partial_cmp(&b).unwrap(), "total partial");
    vx::check(a.total_cmp(&b) == b.total_cmp(&a).reverse(), "total");
    end()
}
fn sf_float2() {
    let a = vx::real("a");
    vx::assume(a >= -4.0 && a <= 4.0);
    vx::check(a.floor() <= a && a.ceil() >= a && a.trunc().abs() <= a.abs(), "round");
    vx::check((a.round() - a).abs() <= 0.5 && a.fract().abs() < 1.0, "fract");
    let r = a.rem_euclid(1.5);
    vx::check(r >= 0.0 && r < 1.5, "rem");
    vx::check((a % 1.5).abs() < 1.5, "%");
    vx::check((a as i32).abs() <= 4 && (a as usize) <= 4, "cast");
    vx::close(a.div_euclid(1.5) * 1.5 + r, a, 1.0, "div");
    end()
}
fn sf_float3() {
    let (a, b, c) = (vx::real("a"), vx::real("b"), vx::real("c"));
    vx::close(a.mul_add(b, c), a * b + c, 1.0, "mul_add");
    vx::close((-a).abs(), a.abs(), 1.0, "neg");
    let v = [a, b, c];
    vx::close(v.iter().map(|x| x * x).sum::<f64>(), a * a + b * b + c * c, 1.0, "sum");
    let t: f64 = [1e3, 1e-3].iter().product();
    vx::close(t, 1.0, 1.0, "product");
    vx::assume((a.abs() < 1e9) & (b.abs() < 1e9) & (c.abs() < 1e9));
    vx::check(f64::EPSILON > 0.0 && a < f64::INFINITY && a > f64::MIN && a <= f64::MAX, "consts");
    vx::check(f64::from(3u8) == 3.0 && (7usize as f64) == 7.0, "from");
    let w = f64::from_bits(a.to_bits());
    vx::close(w, a, 1.0, "bits");
    let o: Option<f64> = if a > b { Some(a) } else { None };
    vx::check(o.map_or(true, |x| x > b) && o.unwrap_or(b) >= b && o.or(Some(c)).is_some() && o.filter(|x| *x > b).is_some() == o.is_some(), "option");
    end()
}
fn sf_trig() {
    let a = vx::real("a");
    vx::assume(a > 0.5 && a < 2.0);
    vx::check(a.sin() <= 1.0 && a.cos() >= -1.0, "sin cos");
    let (s, c) = a.sin_cos();
    vx::close(s, a.sin(), 1.0, "sin_cos");
    vx::close(c, a.cos(), 1.0, "sin_cos");
    vx::check(a.exp() > 0.0 && a.sqrt() > 0.0 && a.ln() < a, "exp");
    vx::close(a.sqrt() * a.sqrt(), a, 1.0, "sqrt");
    end()
}
trait Stamp { fn stamp(&self, m: &mut Vec<f64>); fn twice(&self, m: &mut Vec<f64>) { self.stamp(m); self.stamp(m); } }
struct Ra(f64);
struct Ca { c: f64, f: Box<dyn Fn(f64) -> f64> }
impl Stamp for Ra { fn stamp(&self, m: &mut Vec<f64>) { m[0] += self.0; } }
impl Stamp for Ca { fn stamp(&self, m: &mut Vec<f64>) { m[1] += (self.f)(self.c); } }
fn sf_dyn() {
    let (a, b) = (vx::real("a"), vx::real("b"));
    let v: Vec<Box<dyn Stamp>> = vec![Box::new(Ra(a)), Box::new(Ca { c: b, f: Box::new(move |x| x * a) })];
    let mut m = vec![0.0; 2];
    for e in &v { e.twice(&mut m); }
    vx::close(m[0], 2.0 * a, 1.0, "a");
    vx::close(m[1], 2.0 * a * b, 1.0, "b");
    let fs: [(&str, fn(f64) -> f64); 2] = [("neg", |x| -x), ("two", |x| 2.0 * x)];
    let t: f64 = fs.iter().map(|f| f.1(a)).sum();
    vx::close(t, a, 1.0, "fn pointers");
    let mut count = 0;
    let mut bump = |k: usize| count += k;
    (0..3).for_each(&mut bump);
    vx::check(count == 3, "closure");
    end()
}
#[derive(Default, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Kind { #[default] A, B(String), C { n: usize } }
fn sf_rc() {
    let l = Rc::new(Cell::new(1.5));
    let v: Vec<Rc<Cell<f64>>> = (0..3).map(|_| l.clone()).collect();
    v[1].set(vx::real("x"));
    vx::close(l.get(), v[2].get(), 1.0, "shared");
    let m = Rc::new(RefCell::new(vec![Kind::A, Kind::B(s("k", 1)), Kind::C { n: 3 }]));
    { m.borrow_mut().push(Kind::default()); }
    vx::check(m.borrow().iter().filter(|k| **k == Kind::A).count() == 2 && Rc::strong_count(&m) == 1, "refcell");
    let w = Rc::downgrade(&m);
    vx::check(w.upgrade().is_some(), "weak");
    let mut h: HashMap<Kind, usize> = HashMap::new();
    for k in m.borrow().iter() { *h.entry(k.clone()).or_default() += 1; }
    vx::check(h[&Kind::A] == 2 && h.len() == 3, "hash of an enum");
    vx::check(Kind::A < Kind::C { n: 0 } && format!("{:?}", Kind::C { n: 7 }) == "C { n: 7 }", "derive");
    let c = std::mem::take(&mut *m.borrow_mut());
    vx::check(c.len() == 4 && m.borrow().is_empty(), "take");
    end()
}
static COUNT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(3);
static TABLE: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
static LOCK: std::sync::Mutex<usize> = std::sync::Mutex::new(4);
thread_local! { static TL: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) }; static TK: Cell<usize> = Cell::new(5); }
fn sf_static() {
    COUNT.fetch_add(2, std::sync::atomic::Ordering::SeqCst);
    vx::check(COUNT.load(std::sync::atomic::Ordering::Relaxed) == 5, "atomic");
    vx::check(TABLE.get_or_init(|| vec![1, 2, 3]).len() == 3, "once");
    *LOCK.lock().unwrap() += 1;
    vx::check(*LOCK.lock().unwrap() == 5, "mutex");
    TL.with(|t| t.borrow_mut().push(7));
    vx::check(TL.with(|t| t.borrow().len()) == 1 && TK.with(|t| t.get()) == 5, "thread local");
    end()
}
fn sf_file() {
    std::fs::write("f.txt", format!("one {}\ntwo\n\nthree", s("a", 1))).unwrap();
    let t = std::fs::read_to_string("f.txt").unwrap();
    vx::check(t.lines().count() == 4, "lines");
    let mut b = String::new();
    std::fs::File::open("f.txt").unwrap().read_to_string(&mut b).unwrap();
    vx::check(b == t, "read_to_string");
    let l: Vec<String> = BufReader::new(std::fs::File::open("f.txt").unwrap()).lines().map(|x| x.unwrap()).collect();
    vx::check(l.len() == 4 && l[1] == "two", "buf lines");
    let l: Vec<String> = BufReader::new(std::fs::File::open("f.txt").unwrap()).lines().map_while(Result::ok).collect();
    vx::check(l.len() == 4, "map_while");
    vx::check(std::fs::read("f.txt").unwrap().len() == t.len(), "bytes");
    vx::check(std::fs::File::open("none.txt").is_err() && std::fs::read_to_string("none.txt").is_err(), "missing");
    let mut r = BufReader::new(std::fs::File::open("f.txt").unwrap());
    let mut line = String::new();
    let mut n = 0;
    while r.read_line(&mut line).unwrap() > 0 { n += 1; line.clear(); }
    vx::check(n == 4, "read_line");
    let c = BufReader::new(std::fs::File::open("f.txt").unwrap()).split(b'\n').count();
    vx::check(c == 4, "split");
    end()
}
fn sf_file2() {
    {
        let mut w = BufWriter::new(std::fs::File::create("g.txt").unwrap());
        writeln!(w, "a\t{}", 1).unwrap();
        w.write_all(b"b\t2\n").unwrap();
        write!(w, "{:.3}", 1.5).unwrap();
        w.flush().unwrap();
    }
    vx::check(std::fs::read_to_string("g.txt").unwrap() == "a\t1\nb\t2\n1.500", "buffered");
    {
        let mut f = std::fs::OpenOptions::new().append(true).open("g.txt").unwrap();
        f.write_all(b"\nend").unwrap();
    }
    vx::check(std::fs::read_to_string("g.txt").unwrap().ends_with("\nend"), "append");
    let f = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open("g.txt").unwrap();
    { let mut w = std::io::LineWriter::new(f); writeln!(w, "x").unwrap(); }
    vx::check(std::fs::read_to_string("g.txt").unwrap() == "x\n", "line writer");
    let mut v: Vec<u8> = vec![];
    writeln!(&mut v, "{}", 3).unwrap();
    vx::check(v == b"3\n", "vec");
    end()
}
fn sf_file3() {
    std::fs::create_dir_all("d/e").unwrap();
    std::fs::write("d/e/f.txt", "x").unwrap();
    let p = Path::new("d").join("e").join("f.txt");
    vx::check(p.exists() && p.is_file() && !p.is_dir() && Path::new("d/e").is_dir(), "exists");
    vx::check(std::fs::metadata(&p).unwrap().is_file() && std::fs::metadata(&p).unwrap().len() == 1, "metadata");
    vx::check(std::fs::metadata("q").is_err(), "no metadata");
    end()
}
fn sf_io() {
    let mut c = std::io::Cursor::new(b"one\ntwo\n".to_vec());
    let mut l = String::new();
    c.read_line(&mut l).unwrap();
    vx::check(l == "one\n", "cursor");
    let t: Vec<String> = "a\nb".as_bytes().lines().map(|x| x.unwrap()).collect();
    vx::check(t.len() == 2, "lines of bytes");
    let o = std::io::stdout();
    let mut h = o.lock();
    writeln!(h, "to stdout").unwrap();
    eprintln!("to stderr {}", 3);
    let e = std::io::Error::new(std::io::ErrorKind::Other, "x");
    vx::check(e.kind() == std::io::ErrorKind::Other && e.to_string() == "x", "error");
    let r: Result<(), Box<dyn std::error::Error>> = (|| { "q".parse::<f64>()?; Ok(()) })();
    vx::check(r.is_err(), "box error");
    end()
}
fn sf_path() {
    let p = PathBuf::from("a/b/c.lib");
    vx::check(p.parent() == Some(Path::new("a/b")) && p.file_name().unwrap() == "c.lib" && p.extension().unwrap().to_str() == Some("lib") && p.file_stem().unwrap() == "c", "parts");
    vx::check(p.components().count() == 3 && p.is_relative() && p.with_extension("x").display().to_string() == "a/b/c.x" && p.to_string_lossy() == "a/b/c.lib", "components");
    let mut q = p.clone();
    q.pop();
    q.push("d");
    vx::check(q == Path::new("a/b/d") && q.starts_with("a") && q.join("/x") == Path::new("/x") && p.with_file_name("z") == Path::new("a/b/z") && p.ancestors().count() == 4, "build");
    end()
}
fn sf_fmt() {
    let x = vx::real("x");
    vx::assume(x > 0.0);
    let n = s("n", 1);
    let t = format!("{:>8}|{:<4}|{:^5}|{:03}|{:?}|{:x}|{}", n, "a", "b", 7, "q", 255, true);
    vx::check(t.len() == 8 + 1 + 4 + 1 + 5 + 1 + 3 + 1 + 3 + 1 + 2 + 1 + 4, "widths");
    let mut o = String::new();
    write!(o, "{}-{n}-{0}", 1, n = n).unwrap();
    writeln!(o).unwrap();
    vx::check(o.len() == 6, "write");
    let l: Vec<String> = [1.5, 2.25].iter().map(|v| format!("{:.9}", v)).collect();
    vx::check(l.join("\t") == "1.500000000\t2.250000000", "join");
    let v = format!("{}", vx::carrier(x));
    vx::close(v.parse::<f64>().unwrap(), x, 1.0, "there and back");
    let name = "k";
    vx::check(format!("{name}{:w$}", 5, w = 4) == "k   5", "inline");
    vx::check(format!("{:e} {:?} {}", 1500.0, 0.1, 1e21).len() > 5, "e");
    end()
}
struct P3 { a: f64, b: usize }
impl std::fmt::Display for P3 { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("P3(")?; write!(f, "{}", self.b)?; f.pad("x")?; f.debug_struct("Q").field("a", &self.a).finish()?; f.write_str(")") } }
fn sf_fmt2() {
    let p = P3 { a: 1.5, b: 3 };
    vx::check(p.to_string() == "P3(3xQ { a: 1.5 })", "display");
    vx::check(format!("{:?}", vec![1, 2]) == "[1, 2]" && format!("{:?}", (1, "a")) == "(1, \"a\")" && format!("{:?}", Some(1.5)) == "Some(1.5)", "debug");
    vx::check(format_args!("{}", 1).to_string() == "1" && 12usize.to_string() == "12" && (-3i64).to_string() == "-3" && 1.5f64.to_string() == "1.5", "to_string");
    vx::check(["a", "b"].concat() == "ab" && ["a".to_string(), "b".to_string()].join("\n") == "a\nb", "concat");
    end()
}
fn sf_parse() {
    let d = vx::byte("d");
    vx::assume((d >= b'0') & (d <= b'9'));
    let t = format!("4{}", d as char);
    vx::check(t.parse::<usize>() == Ok(40 + (d - b'0') as usize), "usize");
    vx::check(t.parse::<i64>().is_ok() && t.parse::<u8>().is_ok() && usize::from_str_radix(&t, 10).is_ok(), "ints");
    vx::check("x1".parse::<u32>().is_err() && "".parse::<f64>().is_err() && "1.5".parse::<f64>() == Ok(1.5) && "true".parse::<bool>() == Ok(true) && "q".parse::<char>() == Ok('q'), "others");
    vx::check(t.chars().fold(0, |a, c| a * 10 + c.to_digit(10).unwrap()) == 40 + (d - b'0') as u32, "fold");
    end()
}
fn sf_slice() {
    let v: Vec<usize> = (0..10).collect();
    if let [a, b, rest @ ..] = v.as_slice() { vx::check(*a == 0 && *b == 1 && rest.len() == 8, "pattern"); }
    vx::check(v.iter().rev().skip_while(|x| **x > 5).next() == Some(&5) && v.split(|x| *x == 4).count() == 2 && v.chunks_exact(3).count() == 3 && v.contains(&7), "split");
    vx::check(v.first() == Some(&0) && v.get(3..5) == Some(&[3, 4][..]) && v.iter().min() == Some(&0) && v.iter().max() == Some(&9) && v.partition_point(|x| *x < 6) == 6, "get");
    vx::check(v[2..4].to_vec() == [2, 3] && v.starts_with(&[0, 1]) && v.iter().any(|x| *x == 3) && v.iter().copied().reduce(|a, b| a + b) == Some(45) && v.rchunks(3).next().unwrap().len() == 3, "more");
    let n: [usize; 3] = v[..3].try_into().unwrap();
    vx::check(n == [0, 1, 2], "array");
    end()
}
fn sf_heap() {
    let mut h = BinaryHeap::new();
    for i in [3usize, 9, 1, 7] { h.push(std::cmp::Reverse(i)); }
    vx::check(h.pop().map(|x| x.0) == Some(1) && h.len() == 3 && h.into_sorted_vec().len() == 3, "heap");
    let mut l: LinkedList<usize> = LinkedList::new();
    l.push_back(1);
    l.push_front(0);
    vx::check(l.iter().copied().collect::<Vec<_>>() == [0, 1], "list");
    end()
}
fn sf_ref() {
    let mut v = vec![Some(1.5), None];
    vx::check(v[0].take() == Some(1.5) && v[0].is_none() && v[1].get_or_insert(2.5) == &mut 2.5 && v[1].replace(3.5) == Some(2.5), "option");
    let mut a = vec![1, 2];
    let b = std::mem::replace(&mut a, vec![]);
    let mut c = vec![9];
    std::mem::swap(&mut a, &mut c);
    vx::check(b.len() == 2 && a == [9] && c.is_empty(), "mem");
    let bx: Box<[f64]> = vec![0.0; 4].into();
    let e: Result<usize, String> = bx.len().checked_sub(5).ok_or_else(|| "small".to_string());
    vx::check(e.clone().is_err() && e.as_ref().map_err(|s| s.len()) == Err(5) && e.unwrap_or_default() == 0, "result");
    vx::check(Some(3).zip(Some(4)).map(|(a, b)| a * b) == Some(12) && Some(2).xor(None).is_some() && Some(4).and_then(|x: usize| x.checked_add(1)) == Some(5) && Some(&1).copied().is_some_and(|x| x > 0), "combinators");
    end()
}
fn sf_arc() {
    let a = std::sync::Arc::new(std::sync::RwLock::new(vec![1.5]));
    a.write().unwrap().push(2.5);
    vx::check(a.read().unwrap().len() == 2 && std::sync::Arc::strong_count(&a) == 1, "arc");
    let mut m = std::sync::Arc::new(3);
    *std::sync::Arc::make_mut(&mut m) += 1;
    vx::check(*m == 4, "make_mut");
    end()
}
fn sf_lines() {
    let t = format!("title\r\nR1 {} 0 1k\n\n* c\n+ x\n", s("a", 1));
    let mut it = t.lines().enumerate().filter(|(_, l)| !l.trim().is_empty()).skip(1).peekable();
    let (n, l) = it.next().unwrap();
    let w: Vec<&str> = l.split_whitespace().collect();
    vx::check(n == 1 && w.len() == 4 && it.peek().is_some(), "lines");
    let mut words = l.split(char::is_whitespace).filter(|w| !w.is_empty());
    vx::check(words.next() == Some("R1") && words.nth(1) == Some("0") && words.by_ref().count() == 1, "words");
    vx::check(t.lines().any(|l| l.starts_with(['*', ';'])) && t.lines().find(|l| l.starts_with("+ ")).is_some() && t.split("\r\n").count() == 2, "find");
    end()
}
fn sf_entry() {
    let mut m: HashMap<String, Vec<usize>> = HashMap::with_capacity(4);
    for (i, k) in [s("k", 1), "a".to_string(), s("l", 1)].into_iter().enumerate() { m.entry(k).or_default().push(i); }
    vx::check(m.values().map(|v| v.len()).sum::<usize>() == 3, "entries");
    if let Some(v) = m.get_mut("a") { v.clear(); }
    m.retain(|_, v| !v.is_empty());
    vx::check(!m.contains_key("a") && m.remove("a").is_none(), "retain");
    let mut n: HashMap<(usize, usize), f64> = HashMap::new();
    n.insert((1, 2), 0.5);
    match n.entry((1, 2)) { hash_map::Entry::Occupied(mut e) => { *e.get_mut() += 1.0; } hash_map::Entry::Vacant(e) => { e.insert(0.0); } }
    vx::check(n.get(&(1, 2)).copied() == Some(1.5) && n.drain().count() == 1, "entry");
    let h: HashMap<&str, i32> = HashMap::from([("a", 1), ("b", 2)]);
    let mut ks: Vec<_> = h.into_iter().collect();
    ks.sort();
    vx::check(ks == [("a", 1), ("b", 2)], "from");
    end()
}
fn sf_sum() {
    let x: Vec<f64> = (0..5).map(|i| vx::real(&format!("x{}", i))).collect();
    let m: Vec<Vec<f64>> = (0..3).map(|i| x.iter().map(|v| v * i as f64).collect()).collect();
    let t: f64 = m.iter().map(|r| r.iter().sum::<f64>()).sum();
    vx::close(t, 3.0 * x.iter().sum::<f64>(), 1.0, "sum");
    let y: Vec<f64> = m.iter().map(|r| r.iter().zip(&x).map(|(a, b)| a * b).sum()).collect();
    vx::close(y[2], 2.0 * y[1], 1.0, "product");
    let d = x.iter().rev().fold(0.0, |a, b| a + b);
    vx::close(d, t / 3.0, 1.0, "fold");
    let mut z = x.clone();
    z.iter_mut().for_each(|v| *v *= 2.0);
    for (a, b) in z.iter_mut().zip(x.iter()) { *a -= b; }
    vx::close(z[4], x[4], 1.0, "in place");
    end()
}
fn sf_cow() {
    let n = s("n", 1);
    let c: Cow<str> = if n == "a" { Cow::Borrowed("aa") } else { Cow::Owned(n.repeat(2)) };
    vx::check(c.len() == 2 && c.into_owned() == n.repeat(2), "cow");
    let r: &[f64] = &[1.0; 4];
    let t: Rc<str> = Rc::from(n.as_str());
    let u: Box<str> = n.clone().into_boxed_str();
    vx::check(&*t == &*u && r.len() == 4, "rc str");
    end()
}
fn sf_int() {
    let w = vx::word("w");
    vx::assume(w < 1000);
    vx::check(w.saturating_sub(2000) == 0 && w.checked_add(1) == Some(w + 1) && w.wrapping_sub(w) == 0 && w.pow(2) == w * w && w.abs_diff(3) <= 1000, "arith");
    vx::check(w.min(5) <= 5 && w.max(5) >= 5 && w / 7 * 7 + w % 7 == w && (w as u8) as u64 == w % 256 && w.count_ones() <= 10 && w.leading_zeros() >= 54, "more");
    vx::check(usize::try_from(w).is_ok() && u8::try_from(w).is_ok() == (w < 256) && i32::from(3u8) == 3, "conv");
    vx::check((0..w.min(4)).count() as u64 == w.min(4) && w.div_ceil(3) * 3 >= w && w.next_power_of_two() >= w && w.is_power_of_two() as u64 <= 1, "range");
    end()
}
fn sf_array() {
    let mut m = [[0.0f64; 4]; 4];
    for (i, r) in m.iter_mut().enumerate() { for (j, x) in r.iter_mut().enumerate() { if i == j { *x = vx::real(&format!("d{}", i)); } } }
    let t: f64 = (0..4).map(|i| m[i][i]).sum();
    let k = m;
    let u: f64 = k.iter().flatten().sum();
    vx::close(t, u, 1.0, "trace");
    let a = [1, 2, 3].map(|x| x * 2);
    let z: Vec<(usize, char)> = (0..).zip("abc".chars()).collect();
    vx::check(a == [2, 4, 6] && z[2] == (2, 'c') && std::array::from_fn::<usize, 3, _>(|i| i) == [0, 1, 2], "map");
    let n = vx::choice("n", 3) as usize;
    let l = ["R", "C", "L"][n];
    vx::check(match (l, n) { ("R", 0) | ("C", 1) => true, (_, 2) => true, _ => false }, "match");
    end()
}
fn sf_drain() {
    let mut v: Vec<String> = (0..4).map(|i| s(&format!("v{}", i), 1)).collect();
    let w: Vec<String> = v.splice(1..2, ["x".to_string(), "y".to_string()]).collect();
    vx::check(w.len() == 1 && v.len() == 5, "splice");
    let t = v.split_off(3);
    vx::check(t.len() == 2 && v.len() == 3, "split_off");
    v.extend(t.into_iter().filter(|x| x != "x"));
    v.append(&mut vec!["z".into()]);
    let u: Vec<String> = v.iter().map(String::as_str).map(str::to_string).collect();
    vx::check(u == v && u.iter().eq(v.iter()), "eq");
    let d: Vec<String> = v.drain(..).rev().collect();
    vx::check(v.is_empty() && d[0] == "z", "drain");
    let (x, y): (Vec<usize>, Vec<String>) = d.into_iter().enumerate().unzip();
    vx::check(x.len() == y.len() && x.is_sorted(), "unzip");
    end()
}
