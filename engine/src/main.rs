mod exec;
mod expr;
mod ir;
mod order;
mod solver;

use std::fmt::Write;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let _ = write!(o, "\\u{:04x}", c as u32 & 0xffff);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hexs(v: &[Vec<u8>]) -> String {
    let items: Vec<String> = v
        .iter()
        .map(|b| {
            let mut s = String::from("\"");
            for x in b {
                let _ = write!(s, "{x:02x}");
            }
            s.push('"');
            s
        })
        .collect();
    format!("[{}]", items.join(","))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let ll = get("--ll").expect("--ll");
    let entry = get("--entry").expect("--entry");
    let arg: u64 = get("--arg").map(|s| s.parse().unwrap()).unwrap_or(0);
    let out = get("--out");
    let limit: f64 = get("--time").map(|s| s.parse().unwrap()).unwrap_or(600.0);
    let traces: usize = get("--traces").map(|s| s.parse().unwrap()).unwrap_or(24);
    let trace_on = a.iter().any(|x| x == "--trace");
    let mem: u64 = get("--mem").map(|s| s.parse().unwrap()).unwrap_or(3500);
    let h = std::thread::Builder::new()
        .stack_size(2 << 30)
        .spawn(move || {
            let t0 = std::time::Instant::now();
            let m = ir::Module::load(&ll);
            let mut ex = exec::Exec::new(m);
            ex.deadline = Some(t0 + std::time::Duration::from_secs_f64(limit));
            ex.max_traces = traces;
            ex.trace_on = trace_on;
            ex.max_mem_mb = mem;
            ex.run(&entry, arg);
            let r = &ex.rep;
            let s = &ex.sv.stats;
            let mut j = String::new();
            let _ = write!(
                j,
                "{{\"entry\":{},\"arg\":{},\"wall_s\":{:.3},\"paths\":{},\"assume_killed\":{},\"forks\":{},\"insts\":{},\"truncated\":{},\"checks_symbolic\":{},\"panics_ok\":{},\"hash_sym\":{},\"hash_conc\":{},\"unconfirmed\":{},\"rss_mb\":{},",
                esc(&entry),
                arg,
                t0.elapsed().as_secs_f64(),
                r.paths,
                r.killed_by_assume,
                r.forks,
                r.insts,
                r.truncated,
                r.checks_sym,
                r.panics_ok,
                r.hashes_sym,
                r.hashes_conc,
                r.unconfirmed,
                exec::rss_mb()
            );
            let _ = write!(
                j,
                "\"solver\":{{\"version\":{},\"queries\":{},\"cache_hits\":{},\"domain_decided\":{},\"order_decided\":{},\"model_reuse\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"time_s\":{:.3},\"max_query_s\":{:.3},\"nodes\":{}}},",
                esc(&ex.sv.version),
                s.queries,
                s.cache_hits,
                s.dom_hits,
                s.order,
                s.reuse_hits,
                s.sat,
                s.unsat,
                s.unknown,
                s.solver_s,
                s.max_query_s,
                ex.ar.n.len()
            );
            let mapj = |m: &std::collections::BTreeMap<String, u64>| {
                let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
                format!("{{{}}}", v.join(","))
            };
            let _ = write!(j, "\"errors\":{},\"reached\":{},\"checks\":{},", mapj(&r.errors), mapj(&r.reached), mapj(&r.checks));
            let vs: Vec<String> = r
                .violations
                .iter()
                .map(|v| {
                    let st: Vec<String> = v.stack.iter().map(|s| esc(s)).collect();
                    format!(
                        "{{\"label\":{},\"detail\":{},\"inputs\":{},\"model_confirmed\":{},\"stack\":[{}]}}",
                        esc(&v.label),
                        esc(&v.detail),
                        hexs(&v.inputs),
                        v.confirmed_model,
                        st.join(",")
                    )
                })
                .collect();
            let _ = write!(j, "\"violations\":[{}],", vs.join(","));
            let ts: Vec<String> = r
                .traces
                .iter()
                .map(|t| format!("{{\"inputs\":{},\"observes\":{}}}", hexs(&t.inputs), hexs(&t.observes)))
                .collect();
            let _ = write!(j, "\"traces\":[{}],", ts.join(","));
            let fs: Vec<String> = r.fns.iter().map(|s| esc(s)).collect();
            let _ = write!(j, "\"functions\":[{}]}}", fs.join(","));
            match out {
                Some(p) => std::fs::write(p, j).unwrap(),
                None => println!("{j}"),
            }
        })
        .unwrap();
    if h.join().is_err() {
        std::process::exit(70);
    }
    std::process::exit(0);
}
