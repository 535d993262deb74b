//! Run a harness natively on recorded assignments.
//! usage: replay ENTRY < lines of `name=value<TAB>name=value...`
//! prints one line per assignment:
//!   assumption<TAB>reached,..<TAB>failed labels<TAB>name=value observations
use harness::sym::native::*;
use std::io::BufRead;

fn run(f: fn(), line: &str) -> String {
    with(|n| *n = Native::default());
    for e in line.split('\t').filter(|e| !e.is_empty()) {
        let (k, v) = e.split_once('=').expect("name=value");
        let v = harness::sym::big::Big::parse(v).expect("number");
        with(|n| n.vals.insert(k.to_string(), v));
    }
    let r = std::panic::catch_unwind(f);
    with(|n| {
        if r.is_err() && !n.assume_failed {
            let m = format!("uncaught panic: {}", n.last_panic);
            n.failed.push(m);
        }
        format!(
            "{}\t{}\t{}\t{}",
            if n.assume_failed { "assume-failed" } else { "ok" },
            n.reached.join("|"),
            n.failed.join("|"),
            n.obs.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join("|")
        )
    })
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or(i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let _ = N.try_with(|n| {
            if let Ok(mut n) = n.try_borrow_mut() {
                n.last_panic = format!("{} at {}", m, at);
            }
        });
        if std::env::var("REPLAY_VERBOSE").is_ok() {
            eprintln!("panic: {} at {}", m, at);
        }
    }));
    let name = std::env::args().nth(1).expect("entry");
    let f = harness::entry(&name).expect("no such harness");
    for l in std::io::stdin().lock().lines() {
        println!("{}", run(f, &l.unwrap()));
    }
}
