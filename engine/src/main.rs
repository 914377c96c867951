mod exec;
mod expr;
mod ir;
mod mem;
mod ops;
mod poly;
mod smt;
mod stubs;
use std::fmt::Write;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) }
    }
    o.push('"');
    o
}

fn main() {
    // run on a big stack: deep expression recursion
    std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap().join().unwrap();
}
fn real_main() {
    let mut ll = String::new();
    let mut harness = String::new();
    let mut out = String::new();
    let mut seed = 1u64;
    let mut time = 600.0;
    let mut check_ms = 20000;
    let mut branch_ms = 3000;
    let mut verbose = false;
    let mut dump = None;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        match a.as_str() {
            "--ll" => ll = it.next().unwrap(),
            "--harness" => harness = it.next().unwrap(),
            "--out" => out = it.next().unwrap(),
            "--seed" => seed = it.next().unwrap().parse().unwrap(),
            "--time" => time = it.next().unwrap().parse().unwrap(),
            "--check-ms" => check_ms = it.next().unwrap().parse().unwrap(),
            "--branch-ms" => branch_ms = it.next().unwrap().parse().unwrap(),
            "--dump" => dump = it.next(),
            "-v" => verbose = true,
            x => panic!("arg {x}"),
        }
    }
    let m = ir::Module::load(&ll);
    let mut ex = exec::Exec::new(m, seed);
    ex.max_time = time;
    ex.check_ms = check_ms;
    ex.branch_ms = branch_ms;
    ex.verbose = verbose;
    ex.z3.dump = dump;
    ex.run(&harness);
    let wall = ex.start.elapsed().as_secs_f64();
    let mut j = String::new();
    let _ = write!(j, "{{\"harness\":{},\"paths\":{},\"infeasible\":{},\"forks\":{},\"instructions\":{},\"timed_out\":{},\"wall_s\":{:.3}", esc(&harness), ex.paths, ex.infeasible, ex.forks, ex.insts, ex.timed_out, wall);
    let q: u64 = ex.z3.queries;
    let t: f64 = ex.z3.time;
    let un: u64 = ex.z3.unsat;
    let sa: u64 = ex.z3.sat;
    let uk: u64 = ex.z3.unknown;
    let _ = write!(j, ",\"queries\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\"solver_s\":{:.3},\"expr_nodes\":{},\"vars\":{}", q, un, sa, uk, t, ex.s.nodes.len(), ex.s.vars.len());
    let _ = write!(j, ",\"poly_proved\":{}", ex.poly_proved);
    let cs: Vec<String> = ex.checks.iter().map(|(id, c)| format!("{{\"id\":{},\"proved\":{},\"trivial\":{},\"unknown\":{},\"witnessed\":{}}}", id, c.proved, c.simplified, c.unknown, c.witnessed)).collect();
    let _ = write!(j, ",\"checks\":[{}]", cs.join(","));
    let cv: Vec<String> = ex.covers.iter().map(|(id, n)| format!("[{},{}]", id, n)).collect();
    let _ = write!(j, ",\"covers\":[{}]", cv.join(","));
    let cx: Vec<String> = ex.cex.iter().map(|c| format!("{{\"kind\":{},\"from\":{},\"where\":{},\"inputs\":[{}]}}", esc(&c.kind), esc(&c.from), esc(&c.trace), c.inputs.iter().map(|(i, v)| format!("[{},\"{}\"]", i, v)).collect::<Vec<_>>().join(","))).collect();
    let _ = write!(j, ",\"cex\":[{}]", cx.join(","));
    let vr: Vec<String> = ex.s.vars.iter().map(|v| format!("{{\"id\":{},\"sort\":\"{:?}\",\"iv\":\"{:?}\"}}", v.id, v.sort, ex.s.iv[v.node as usize])).collect();
    let _ = write!(j, ",\"inputs\":[{}]", vr.join(","));
    let us: Vec<String> = ex.unsup.iter().map(|s| esc(s)).collect();
    let _ = write!(j, ",\"unsupported\":[{}]", us.join(","));
    let mut fs: Vec<(u64, String)> = ex.called.iter().map(|(i, n)| (*n, ex.fns[*i].name.clone())).collect();
    fs.sort_by(|a, b| b.cmp(a));
    let nyx: Vec<String> = fs.iter().filter(|f| f.1.contains("9nyx_space")).map(|f| esc(&exec::short(&f.1))).collect();
    let _ = write!(j, ",\"functions_encoded\":{},\"nyx_functions\":[{}]", fs.len(), nyx.join(","));
    j.push_str("}\n");
    if out.is_empty() { print!("{j}"); } else { std::fs::write(&out, &j).unwrap(); }
    if verbose {
        let mut v: Vec<_> = ex.fork_sites.iter().collect();
        v.sort_by(|a, b| b.1.cmp(a.1));
        for (s, n) in v.iter().take(15) { eprintln!("{n} forks at {s}"); }
    }
    std::process::exit(0);
}
