mod csp; mod exec; mod search; mod ir; mod lib_model; mod mem; mod poly; mod rat; mod solver; mod term; mod val;
use exec::*;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\t' => o += "\\t", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o.push('"');
    o
}
fn list(v: impl Iterator<Item = String>) -> String { format!("[{}]", v.collect::<Vec<_>>().join(",")) }

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let file = &args[1];
    let opt = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let entry = opt("--entry").expect("--entry");
    let real = opt("--mode").map_or(true, |m| m == "real");
    let num = |k: &str, d: f64| opt(k).map_or(d, |v| v.parse().unwrap());
    let shard = opt("--shard").map_or((0, 1), |s| { let (a, b) = s.split_once('/').unwrap(); (a.parse().unwrap(), b.parse().unwrap()) });
    let cfg = Cfg { real, max_steps: num("--max-steps", 60e6) as u64, feas_ms: num("--feas-ms", 3000.0) as u64, assert_ms: num("--assert-ms", 60000.0) as u64, shard,
        max_paths: num("--max-paths", 1e7) as u64, max_viol: num("--max-viol", 3.0) as usize, verbose: args.iter().any(|a| a == "-v"), deadline: num("--deadline", 800.0), trace: args.iter().any(|a| a == "--trace"),
        tokens: opt("--tokens").map(|s| { let (a, b) = s.split_once(',').unwrap(); (a.parse().unwrap(), b.parse().unwrap()) }) };
    let m = ir::Module::load(file);
    let mut ex = Exec::new(m, cfg);
    ex.sol.dump = opt("--dump");
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ex.run(&entry)));
    if let Err(e) = r {
        let s = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        ex.errors.push(format!("internal: {}", s));
    }
    ex.sol.kill();
    ex.release();
    ex.join();
    let mut fns: Vec<String> = ex.fn_used.iter().map(|f| ex.m.fns[*f as usize].pretty.clone()).collect();
    fns.sort();
    let st = &ex.sol.st;
    let out = format!("{{\"entry\":{},\"real\":{},\"paths\":{},\"dead\":{},\"panic_paths\":{},\"forks\":{},\"steps\":{},\"pending\":{},\"stopped\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"fallback\":{},\"propagated\":{},\"left\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.3},\"asserts_solver\":{},\"asserts_simplified\":{},\"ir_instructions\":{},\"functions\":{},\"reach\":{{{}}},\"notes\":{{{}}},\"samples\":{},\"errors\":{},\"violations\":{}}}",
        esc(&entry), real, ex.paths_done, ex.paths_dead, ex.paths_panic_ok, ex.forks, ex.steps, ex.stack.len(), ex.stopped, st.queries, st.sat, st.unsat, st.unknown, st.cached, st.fallback, ex.sol.csp.decided, ex.left, st.time, st.max, ex.t0.elapsed().as_secs_f64(), ex.asserts_solver, ex.asserts_triv, ex.insts,
        list(fns.iter().map(|s| esc(s))),
        ex.reach.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","),
        ex.notes.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","),
        list(ex.samples.iter().map(|s| esc(s))), list(ex.errors.iter().map(|s| esc(s))),
        list(ex.viols.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"tag\":{},\"stack\":{},\"models\":{}}}", esc(&v.kind), esc(&v.msg), esc(&v.tag), list(v.stack.iter().map(|s| esc(s))),
            list(v.models.iter().map(|m| list(m.iter().map(|(n, t, x)| format!("[{},{},{}]", esc(n), esc(t), esc(x))))))))));
    match opt("--out") { Some(p) => std::fs::write(if ex.is_child { format!("{}.{}", p, std::process::id()) } else { p }, out).unwrap(), None => println!("{}", out) }
    std::process::exit(0);
}
fn main() {
    std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap().join().unwrap();
}
