use tiny_spice::{analysis, circuit, element, engine, spice};
use std::path::Path;

/// read a deck (and side files) written into the current (scratch) directory
fn read(text: &str) -> (circuit::Circuit, analysis::Configuration, bool) {
    std::fs::write("deck.spi", text).unwrap();
    let mut r = spice::Reader::new();
    let errs = r.read(Path::new("./deck.spi"));
    (r.get_expanded_circuit(), r.configuration().clone(), errs)
}
/// value of the named node
fn at(c: &circuit::Circuit, x: &[f64], name: &str) -> f64 { x[c.get_node_id(name).expect(name)] }
fn op_of(c: &circuit::Circuit, cfg: &analysis::Configuration) -> (Vec<f64>, analysis::Statistics) {
    let mut e = engine::Engine::new();
    let s = e.dc_operating_point(c, cfg);
    (e.dc().unwrap(), s)
}
fn op(text: &str) -> (circuit::Circuit, Vec<f64>) {
    let (c, cfg, _) = read(text);
    let (x, _) = op_of(&c, &cfg);
    (c, x)
}
/// run a transient, return the statistics, the header and the rows of its waveform file
fn tran_of(e: &mut engine::Engine, c: &circuit::Circuit, cfg: &analysis::Configuration) -> (analysis::Statistics, Vec<String>, Vec<Vec<f64>>) {
    let mut cfg = cfg.clone();
    cfg.wavefile = "w/tran.dat".to_string();
    let s = e.transient_analysis(c, &cfg);
    let t = std::fs::read_to_string("w/tran.dat").unwrap();
    let mut l = t.lines();
    let h = l.next().unwrap().split('\t').map(|x| x.to_string()).collect();
    l.next();
    (s, h, l.map(|l| l.split('\t').map(|x| x.parse::<f64>().unwrap()).collect()).collect())
}
fn tran(c: &circuit::Circuit, cfg: &analysis::Configuration) -> (analysis::Statistics, Vec<String>, Vec<Vec<f64>>) {
    tran_of(&mut engine::Engine::new(), c, cfg)
}
fn near(a: f64, b: f64, what: &str) {
    assert!((a - b).abs() <= 1e-6 * (1.0 + b.abs()), "{}: {} isn't {}", what, a, b);
}
