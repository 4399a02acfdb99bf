mod exec;
mod expr;
mod ir;
mod solver;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => o.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn main() {
    let child = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    match child.join() {
        Ok(c) => std::process::exit(c),
        Err(_) => std::process::exit(3),
    }
}

fn real_main() -> i32 {
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut timeout = 600u64;
    let mut qt = 60_000u32;
    let mut seed = 0u32;
    let mut max_steps = 0u64;
    let mut max_viol = 12usize;
    let mut traces = 24usize;
    let mut verbose = false;
    let mut params = std::collections::HashMap::new();
    let a: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < a.len() {
        let k = a[i].as_str();
        if k == "-v" {
            verbose = true;
            i += 1;
            continue;
        }
        if k == "--version" {
            println!("rsym 0.1 {}", solver::version());
            return 0;
        }
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match k {
            "--ll" => ll = v,
            "--entry" => entry = v,
            "--out" => out = v,
            "--timeout" => timeout = v.parse().unwrap(),
            "--query-timeout" => qt = v.parse().unwrap(),
            "--seed" => seed = v.parse().unwrap(),
            "--max-steps" => max_steps = v.parse().unwrap(),
            "--max-violations" => max_viol = v.parse().unwrap(),
            "--traces" => traces = v.parse().unwrap(),
            "-p" => {
                let (x, y) = v.split_once('=').expect("-p name=value");
                params.insert(x.to_string(), y.parse().unwrap());
            }
            _ => panic!("unknown option {}", k),
        }
        i += 2;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("cannot read ll");
    let m = ir::Module::load(text);
    let load = t0.elapsed().as_secs_f64();
    let fi = match m.fmap.get(&entry) {
        Some(f) => *f,
        None => {
            eprintln!("entry {} not found", entry);
            return 3;
        }
    };
    let mut en = exec::Engine::new(m, qt, seed);
    en.params = params;
    en.verbose = verbose;
    en.max_viol = max_viol;
    en.max_traces = traces;
    if max_steps > 0 {
        en.max_steps_path = max_steps;
    }
    en.deadline = Some(Instant::now() + Duration::from_secs(timeout));
    let t1 = Instant::now();
    en.explore_all(fi);
    let wall = t1.elapsed().as_secs_f64();
    let funcs = en.functions_hit();
    let mut s = String::new();
    s.push_str("{\n");
    s.push_str(&format!(" \"entry\": {},\n", esc(&entry)));
    s.push_str(&format!(" \"params\": {{{}}},\n", en.used_params.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ")));
    s.push_str(&format!(" \"complete\": {},\n", en.complete && en.errors.is_empty()));
    s.push_str(&format!(
        " \"paths\": {}, \"assume_cut\": {}, \"forks\": {}, \"steps\": {}, \"symbolic_branches\": {}, \"merges\": {}, \"merged_states\": {}, \"symbolic_bytes\": {},\n",
        en.paths, en.assume_failed, en.forks, en.steps, en.branches_sym, en.merges, en.merged_states, en.max_vars
    ));
    s.push_str(&format!(
        " \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"cache_hits\": {}, \"solver_s\": {:.3}, \"max_query_s\": {:.3}, \"wall_s\": {:.3}, \"load_s\": {:.3}, \"terms\": {},\n",
        en.s.queries,
        en.s.sat,
        en.s.unsat,
        en.s.unknown,
        en.s.cache_hits,
        en.s.time,
        en.s.max_time,
        wall,
        load,
        en.p.n.len()
    ));
    s.push_str(&format!(" \"reach\": {{{}}},\n", en.reach.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect::<Vec<_>>().join(", ")));
    s.push_str(&format!(" \"errors\": [{}],\n", en.errors.iter().map(|e| esc(e)).collect::<Vec<_>>().join(", ")));
    s.push_str(" \"violations\": [\n");
    for (i, v) in en.violations.iter().enumerate() {
        s.push_str(&format!(
            "  {{\"msg\": {}, \"loc\": {}, \"kind\": {}, \"input\": \"{}\", \"stack\": [{}]}}{}\n",
            esc(&v.msg),
            esc(&v.loc),
            esc(&v.kind),
            hex(&v.input),
            v.stack.iter().map(|x| esc(x)).collect::<Vec<_>>().join(", "),
            if i + 1 < en.violations.len() { "," } else { "" }
        ));
    }
    s.push_str(" ],\n \"traces\": [\n");
    for (i, t) in en.traces.iter().enumerate() {
        s.push_str(&format!(
            "  {{\"input\": \"{}\", \"obs\": [{}]}}{}\n",
            hex(&t.input),
            t.obs.iter().map(|(k, v)| format!("[{}, {}]", esc(k), v)).collect::<Vec<_>>().join(", "),
            if i + 1 < en.traces.len() { "," } else { "" }
        ));
    }
    s.push_str(" ],\n \"functions\": [");
    s.push_str(&funcs.iter().map(|f| esc(f)).collect::<Vec<_>>().join(", "));
    s.push_str("]\n}\n");
    if out.is_empty() {
        println!("{}", s);
    } else {
        std::fs::write(&out, s).unwrap();
    }
    if verbose {
        en.hot_report();
        eprintln!(
            "{}: paths {} cut {} forks {} steps {} queries {} solver {:.2}s wall {:.2}s viol {} errors {} complete {}",
            entry,
            en.paths,
            en.assume_failed,
            en.forks,
            en.steps,
            en.s.queries,
            en.s.time,
            wall,
            en.violations.len(),
            en.errors.len(),
            en.complete
        );
        for v in &en.violations {
            eprintln!("  VIOL {} [{}] {}\n    {}", v.msg, v.kind, hex(&v.input), v.stack.join("\n    "));
        }
        for e in &en.errors {
            eprintln!("  ERR {}", e);
        }
    }
    0
}
