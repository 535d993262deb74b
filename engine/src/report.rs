use crate::exec::*;
use crate::solver::Model;
use rustc_public::mir::mono::Instance;
use std::fmt::Write;

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmodel(m: &Model) -> String {
    let mut v: Vec<_> = m.iter().collect();
    v.sort();
    format!("{{{}}}", v.iter().map(|(k, x)| format!("{}:\"{}\"", esc(k), x)).collect::<Vec<_>>().join(","))
}
fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))
}

pub fn main(entry: &str, out: &str) {
    let dir = std::env::var("MIRSYM_DIR").unwrap_or("/tmp/mirsym".into());
    let mut ex = Ex::new(&dir);
    let env = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    if let Some(v) = env("MIRSYM_LIMIT") {
        ex.limit_s = v;
    }
    if let Some(v) = env("MIRSYM_SEED") {
        ex.rng = v;
    }
    if let Ok(k) = std::env::var("MIRSYM_STOP") {
        ex.stop_unless = Some(k.split(',').map(|s| s.replace('_', " ")).collect());
    }
    if let Some(v) = env("MIRSYM_QUERY_S") {
        ex.sv.final_s = v;
    }
    if let Some(v) = env("MIRSYM_FEAS_MS") {
        ex.sv.feas_ms = v;
    }
    if let Some(v) = env("MIRSYM_WITNESS") {
        ex.max_witness = v as usize;
    }
    if let Ok(f) = std::env::var("MIRSYM_FIX") {
        for e in f.split(',').filter(|e| !e.is_empty()) {
            let (k, v) = e.split_once('=').expect("name=value");
            ex.fix.insert(k.to_string(), v.parse().expect("value"));
        }
    }
    ex.trace = std::env::var("MIRSYM_TRACE").is_ok();
    ex.sv.keep = std::env::var("MIRSYM_KEEP").is_ok();
    let mut e: Option<Instance> = None;
    for i in crate::all_fns() {
        let n = i.name().to_string();
        if n == entry || n.ends_with(&format!("::{}", entry)) {
            e = Some(i);
        }
        if n.contains("::stubs::") {
            let short = n.rsplit("::").next().unwrap().to_string();
            ex.stubs.insert(short, i);
        }
    }
    let Some(e) = e else {
        std::fs::write(out, format!("{{\"error\":\"no entry {}\"}}", entry)).unwrap();
        return;
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let f = ex.cx.func(e, false);
        ex.run(f);
    }));
    if let Err(p) = r {
        let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into());
        let st = ex.stack_top(10);
        ex.errors.push(format!("engine panic: {} at {}", m, st));
    }
    let wall = ex.t0.elapsed().as_secs_f64();
    let mut fns: Vec<String> = ex
        .cx
        .fns
        .iter()
        .filter(|f| f.calls > 0)
        .map(|f| f.name.clone())
        .collect();
    fns.sort();
    fns.dedup();
    let nf = fns.len();
    let mut s = String::new();
    let _ = write!(s, "{{\"entry\":{},\"paths\":{},\"dead_paths\":{},\"forks\":{},\"steps\":{},\"stopped\":{},\"wall_s\":{:.3},", esc(entry), ex.paths, ex.dead_paths, ex.forks, ex.steps, ex.stopped, wall);
    let _ = write!(
        s,
        "\"solver\":{{\"feasibility_queries\":{},\"feasibility_unknown\":{},\"feasible_by_search\":{},\"hints_used\":{},\"hints_lost\":{},\"deciding_queries\":{},\"t_feas_s\":{:.3},\"t_final_s\":{:.3},\"by\":{{{}}}}},",
        ex.sv.n_feas,
        ex.sv.n_unknown_feas,
        ex.sv.n_guessed,
        ex.hints_used,
        ex.hints_lost,
        ex.sv.n_final,
        ex.sv.t_feas.as_secs_f64(),
        ex.sv.t_final.as_secs_f64(),
        ex.sv.by.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")
    );
    let _ = write!(
        s,
        "\"checks\":{{{}}},",
        ex.checks
            .iter()
            .map(|(k, c)| format!(
                "{}:{{\"queries\":{},\"folded\":{},\"unsat\":{},\"violated\":{},\"unknown\":{}}}",
                esc(k),
                c.queries,
                c.folded,
                c.by_solver,
                c.violated,
                c.unknown
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    let _ = write!(
        s,
        "\"fixed\":{{{}}},",
        ex.fix
            .keys()
            .map(|k| match ex.ranges.get(k) {
                Some((l, h)) => format!("{}:[{},{}]", esc(k), l, h),
                None => format!("{}:null", esc(k)),
            })
            .collect::<Vec<_>>()
            .join(",")
    );
    let _ = write!(s, "\"reach\":{{{}}},", ex.reach.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(s, "\"stubs\":{{{}}},", ex.stub_used.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(s, "\"panics\":{{{}}},", ex.panic_msgs.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(s, "\"forks_at\":{{{}}},", ex.fork_at.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(s, "\"errors\":{},\"unknowns\":{},", jlist(&ex.errors), jlist(&ex.unknowns));
    let _ = write!(
        s,
        "\"violations\":[{}],",
        ex.viols
            .iter()
            .map(|v| format!("{{\"label\":{},\"model\":{},\"panics\":{}}}", esc(&v.label), jmodel(&v.model), jlist(&v.stack)))
            .collect::<Vec<_>>()
            .join(",")
    );
    let _ = write!(
        s,
        "\"witnesses\":[{}],",
        ex.witnesses
            .iter()
            .map(|(m, o)| format!(
                "{{\"model\":{},\"obs\":[{}]}}",
                jmodel(m),
                o.iter().map(|(n, v)| format!("[{},{}]", esc(n), esc(v))).collect::<Vec<_>>().join(",")
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    let _ = write!(s, "\"n_functions\":{},\"functions\":{}}}", nf, jlist(&fns));
    std::fs::write(out, s).unwrap();
    if std::env::var("MIRSYM_PROF").is_ok() {
        let mut v: Vec<_> = ex.stepf.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (f, n) in v.iter().take(25) {
            eprintln!("{:6} {}", n, ex.cx.fns[**f as usize].name);
        }
    }
}
