//! symex: bounded symbolic execution of LLVM IR with an SMT solver.

mod exec;
mod expr;
mod ir;
mod mem;
mod selftest;
mod solver;

use std::fmt::Write;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: symex MODULE.ll HARNESS [options]");
        return 2;
    }
    if args[1] == "--selftest" {
        let n: u64 = args[2].parse().unwrap_or(1000);
        return match selftest::run(n, args.get(3).and_then(|x| x.parse().ok()).unwrap_or(1)) {
            Ok(n) => {
                println!("{} expressions agree", n);
                0
            }
            Err(e) => {
                println!("{}", e);
                1
            }
        };
    }
    let mut o = exec::Opts {
        max_paths: 200_000,
        deadline: 600.0,
        dag_limit: 400_000,
        max_steps: 150_000_000,
        max_violations: 3,
        samples: 4,
        trace: false,
        dag: true,
        concretize_limit: 300,
        nodag: vec![],
    };
    let mut out: Option<String> = None;
    let mut seed = 1u64;
    let mut hot = false;
    let mut timeout = 120_000u32;
    let mut i = 3;
    let val = |i: &mut usize| -> String {
        *i += 1;
        args.get(*i).cloned().unwrap_or_default()
    };
    while i < args.len() {
        match args[i].as_str() {
            "--out" => out = Some(val(&mut i)),
            "--max-paths" => o.max_paths = val(&mut i).parse().unwrap(),
            "--deadline" => o.deadline = val(&mut i).parse().unwrap(),
            "--dag-limit" => o.dag_limit = val(&mut i).parse().unwrap(),
            "--max-steps" => o.max_steps = val(&mut i).parse().unwrap(),
            "--max-violations" => o.max_violations = val(&mut i).parse().unwrap(),
            "--samples" => o.samples = val(&mut i).parse().unwrap(),
            "--concretize-limit" => o.concretize_limit = val(&mut i).parse().unwrap(),
            "--solver-timeout" => timeout = val(&mut i).parse().unwrap(),
            "--seed" => seed = val(&mut i).parse().unwrap(),
            "--nodag" => o.nodag.push(val(&mut i)),
            "--no-summaries" => o.dag = false,
            "--trace" => o.trace = true,
            "--hot" => hot = true,
            x => {
                eprintln!("unknown option {}", x);
                return 2;
            }
        }
        i += 1;
    }
    let t0 = std::time::Instant::now();
    let m = ir::Module::load(&args[1]);
    let mut e = exec::Engine::new(m, o);
    e.s.timeout_ms = timeout;
    e.seed(seed);
    e.run(&args[2]);
    let wall = t0.elapsed().as_secs_f64();

    let mut j = String::from("{");
    let _ = write!(j, "\"harness\":{},", esc(&args[2]));
    let _ = write!(j, "\"wall_s\":{:.3},", wall);
    let s = &e.stats;
    let _ = write!(
        j,
        "\"paths\":{},\"done\":{},\"infeasible\":{},\"forks\":{},\"steps\":{},\"asserts\":{},\"asserts_by_solver\":{},\"dag_calls\":{},\"dag_nodes\":{},\"panic_checks\":{},\"concretizations\":{},\"exprs\":{},",
        s.paths, s.done, s.infeasible, s.forks, s.steps, s.asserts, s.asserts_by_solver, s.dag_calls,
        s.dag_nodes, s.panic_checks, s.concretizations, e.a.len()
    );
    let _ = write!(
        j,
        "\"cached\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"solver\":{},",
        e.s.hits, e.s.queries, e.s.sat, e.s.unsat, e.s.unknown, e.s.time, e.s.max_query, esc(&e.s.version)
    );
    let mut errs = e.errors.clone();
    errs.truncate(8);
    let _ = write!(j, "\"complete\":{},", errs.is_empty() && e.work.is_empty());
    let _ = write!(j, "\"errors\":{},", list(&errs));
    let cov: Vec<String> = e.covers.iter().cloned().collect();
    let _ = write!(j, "\"covers\":{},", list(&cov));
    let cs: Vec<String> = e.cases().iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let _ = write!(j, "\"cases\":{{{}}},", cs.join(","));
    let os: Vec<String> = e.outcomes.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let _ = write!(j, "\"outcomes\":{{{}}},", os.join(","));
    let mut fs: Vec<String> = e.functions.keys().map(|k| exec::pretty(k)).collect();
    fs.sort();
    fs.dedup();
    let _ = write!(j, "\"functions\":{},", list(&fs));
    let mut fs: Vec<String> = e.dag_functions.iter().map(|k| exec::pretty(k)).collect();
    fs.sort();
    fs.dedup();
    let _ = write!(j, "\"summarised\":{},", list(&fs));
    let v: Vec<String> = e
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\":{},\"detail\":{},\"trace\":{},\"stack\":{}}}",
                esc(&v.kind), esc(&v.detail), list(&v.trace), list(&v.stack)
            )
        })
        .collect();
    let _ = write!(j, "\"violations\":[{}],", v.join(","));
    let v: Vec<String> = e
        .sampled
        .iter()
        .map(|(t, r, c)| {
            let rs: Vec<String> =
                r.iter().map(|(n, x)| format!("[{},\"{}\"]", esc(n), x)).collect();
            format!("{{\"trace\":{},\"reports\":[{}],\"case\":{}}}", list(t), rs.join(","), esc(c))
        })
        .collect();
    let _ = write!(j, "\"samples\":[{}]}}", v.join(","));
    match out {
        Some(p) => {
            if let Err(x) = std::fs::write(&p, &j) {
                eprintln!("{}: {}", p, x);
                return 2;
            }
        }
        None => println!("{}", j),
    }
    if hot {
        let mut h: Vec<_> = e.hot.iter().collect();
        h.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, l), n) in h.into_iter().take(25) {
            eprintln!("{:8} forks in {} line {}", n, exec::pretty(f), l);
        }
        for (f, w) in &e.dag_fail {
            eprintln!("no summary: {}: {}", f, w);
        }
    }
    0
}

fn main() {
    let h = std::thread::Builder::new()
        .stack_size(8 << 30)
        .spawn(real_main)
        .expect("thread");
    let c = match h.join() {
        Ok(c) => c,
        Err(_) => 2,
    };
    // skip destructors of a very large arena
    std::process::exit(c);
}
