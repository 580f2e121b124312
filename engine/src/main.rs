mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmodel(m: &[(String, u128)]) -> String {
    let v: Vec<String> = m.iter().map(|(n, x)| format!("[{},{}]", js(n), js(&x.to_string()))).collect();
    format!("[{}]", v.join(","))
}
fn jlist(m: &[String]) -> String {
    let v: Vec<String> = m.iter().map(|x| js(x)).collect();
    format!("[{}]", v.join(","))
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut params = vec![];
    let mut solver = "z3 -in -smt2".to_string();
    let mut tmo = 60_000u64;
    let mut limit = 3600u64;
    let mut steps = 60_000_000u64;
    let mut paths = u64::MAX;
    let mut verbose = false;
    let mut samples = 20usize;
    let mut dump = None;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--entry" => entry = args.next().unwrap(),
            "--out" => out = args.next().unwrap(),
            "--param" => params.push(args.next().unwrap().parse().unwrap()),
            "--solver" => solver = args.next().unwrap(),
            "--query-ms" => tmo = args.next().unwrap().parse().unwrap(),
            "--limit" => limit = args.next().unwrap().parse().unwrap(),
            "--steps" => steps = args.next().unwrap().parse().unwrap(),
            "--paths" => paths = args.next().unwrap().parse().unwrap(),
            "--samples" => samples = args.next().unwrap().parse().unwrap(),
            "--dump" => dump = Some(args.next().unwrap()),
            "-v" => verbose = true,
            _ => ll = a,
        }
    }
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let t0 = std::time::Instant::now();
            let m = ir::Module::load(&ll).unwrap_or_else(|e| {
                eprintln!("{}", e);
                std::process::exit(3)
            });
            let mut sol = solver::Solver::new(&solver, tmo);
            if let Some(d) = dump {
                sol.dump = Some(std::fs::File::create(d).unwrap());
            }
            let mut ex = exec::Exec::new(m, sol);
            ex.params = params.clone();
            ex.verbose = verbose;
            ex.max_steps = steps;
            ex.max_paths = paths;
            ex.max_samples = samples.max(2);
            ex.deadline = t0 + std::time::Duration::from_secs(limit);
            let st = ex.initial(&entry).unwrap_or_else(|e| {
                eprintln!("{}", e);
                std::process::exit(3)
            });
            let tload = t0.elapsed().as_secs_f64();
            let r = ex.explore(st);
            let mut o = String::from("{");
            let status = match &r {
                Ok(None) => "holds",
                Ok(Some(_)) => "violated",
                Err(_) => "inconclusive",
            };
            write!(o, "\"status\":{},\"entry\":{},\"params\":{:?}", js(status), js(&entry), params).unwrap();
            match &r {
                Err(e) => write!(o, ",\"error\":{}", js(e)).unwrap(),
                Ok(Some(v)) => write!(
                    o,
                    ",\"violation\":{{\"what\":{},\"trace\":{},\"model\":{},\"log\":{}}}",
                    js(&v.what),
                    jlist(&v.trace),
                    jmodel(&v.model),
                    jlist(&v.log)
                )
                .unwrap(),
                _ => {}
            }
            let s = &ex.st;
            write!(o, ",\"paths\":{},\"pruned\":{},\"forks\":{},\"insts\":{},\"asserts\":{},\"asserts_solver\":{},\"max_steps\":{},\"max_syms\":{},\"concretizations\":{},\"tabled\":{}",
                s.paths, s.pruned, s.forks, s.insts, s.asserts, s.asserts_solver, s.max_steps, s.max_syms, s.concretizations, s.tabled).unwrap();
            write!(
                o,
                ",\"queries\":{},\"sat\":{},\"unsat\":{},\"cached\":{},\"solver_ms\":{:.1},\"max_query_ms\":{:.1},\"load_s\":{:.2},\"wall_s\":{:.2}",
                ex.sol.queries,
                ex.sol.sat,
                ex.sol.unsat,
                ex.sol.cached,
                ex.sol.time_ms,
                ex.sol.max_ms,
                tload,
                t0.elapsed().as_secs_f64()
            )
            .unwrap();
            let mut fns: Vec<String> = ex.used.iter().map(|i| ex.m.fns[*i as usize].name.clone()).collect();
            fns.sort();
            let nf = fns.len();
            let tr: Vec<String> = fns.into_iter().filter(|f| f.contains(&ex.track)).collect();
            write!(o, ",\"functions_total\":{},\"functions\":{}", nf, jlist(&tr)).unwrap();
            let cv: Vec<String> = ex.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
            write!(o, ",\"covers\":{{{}}}", cv.join(",")).unwrap();
            let asm: Vec<String> = ex.assumes.iter().cloned().collect();
            write!(o, ",\"assumes\":{}", jlist(&asm)).unwrap();
            let sm: Vec<String> = ex
                .samples
                .iter()
                .map(|s| format!("{{\"model\":{},\"log\":{}}}", jmodel(&s.model), jlist(&s.log)))
                .collect();
            write!(o, ",\"samples\":[{}]}}", sm.join(",")).unwrap();
            if out.is_empty() {
                println!("{}", o);
            } else {
                std::fs::write(&out, o).unwrap();
            }
            std::process::exit(match r {
                Ok(None) => 0,
                Ok(Some(_)) => 1,
                Err(e) => {
                    eprintln!("inconclusive: {}", e);
                    3
                }
            });
        })
        .unwrap();
    h.join().unwrap();
}
