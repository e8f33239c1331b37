#![allow(clippy::all)]
#[macro_use]
mod traits;
#[macro_use]
mod run;
mod alloc;
mod er;
mod gen;
mod io;
mod model;
#[cfg(feature = "pq")]
mod pq;
mod props;
mod rng;
mod targets;
mod zoo;

#[global_allocator]
static A: alloc::Mon = alloc::Mon;

use run::*;

fn main() {
    let mut args = std::env::args().skip(1);
    let cmd = args.next().unwrap_or_default();
    let mut kv = std::collections::BTreeMap::new();
    let mut rest = vec![];
    while let Some(a) = args.next() {
        if let Some(k) = a.strip_prefix("--") {
            kv.insert(k.to_string(), args.next().expect("value"));
        } else {
            rest.push(a);
        }
    }
    let get = |k: &str, d: &str| kv.get(k).cloned().unwrap_or(d.to_string());
    match cmd.as_str() {
        "run" => {
            install_hook();
            let prop = get("prop", "");
            let thorough = get("tier", "quick") == "thorough";
            let variant = get("variant", "dbg");
            let scale: f64 = get("scale", "1").parse().unwrap();
            let o = Opts {
                seed: get("seed", "1").parse().unwrap(),
                thorough,
                shard: get("shard", "0").parse().unwrap(),
                nshards: get("nshards", "1").parse().unwrap(),
                deadline: kv.get("time").map(|t| std::time::Instant::now() + std::time::Duration::from_secs_f64(t.parse().unwrap())),
                start: (get("start-stage", "0").parse().unwrap(), get("start-case", "0").parse().unwrap()),
                max_violations: get("max", "3").parse().unwrap(),
                only: kv.get("only").cloned(),
                scale,
            };
            let (out, hashes, outcomes, journal) = (kv.get("out").cloned(), kv.get("hashes").cloned(), kv.get("outcomes").cloned(), kv.get("journal").cloned());
            let h = std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn(move || {
                    let mut stats = Stats::default();
                    let stages = props::stages(&prop, thorough, &variant);
                    let mut j: Box<dyn Journal> = match journal.as_deref() {
                        None => Box::new(NoJournal),
                        Some("stderr") => Box::new(ErrJournal),
                        #[cfg(all(unix, not(miri)))]
                        Some(p) => Box::new(mapped::Mapped::open(p)),
                        #[cfg(not(all(unix, not(miri))))]
                        Some(_) => Box::new(ErrJournal),
                    };
                    let complete = run_stages(&stages, &o, &mut stats, &mut *j);
                    (stats, complete)
                })
                .unwrap();
            let (stats, complete) = h.join().expect("worker thread");
            let s = json(&stats, complete);
            match out {
                Some(p) => std::fs::write(p, s).unwrap(),
                None => println!("{s}"),
            }
            if let Some(p) = hashes {
                let b: Vec<u8> = stats.hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
                std::fs::write(p, b).unwrap();
            }
            if let Some(p) = outcomes {
                let b: Vec<u8> = stats.outcomes.iter().flat_map(|(s, i, h)| [&s.to_le_bytes()[..], &h.to_le_bytes(), &i.to_le_bytes()].concat()).collect();
                std::fs::write(p, b).unwrap();
            }
        }
        // a single case, verbosely
        "replay" => {
            install_hook();
            let prop = get("prop", "");
            let thorough = get("tier", "quick") == "thorough";
            let stage_name = get("stage", "");
            let idx: u64 = get("case", "0").parse().unwrap();
            let seed: u64 = get("seed", "1").parse().unwrap();
            let variant = get("variant", "dbg");
            let h = std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn(move || {
                    let stages = props::stages(&prop, thorough, &variant);
                    let st = stages.iter().find(|s| s.name == stage_name).expect("stage");
                    let mut stats = Stats::default();
                    run_case(st, 0, seed, idx, thorough, &mut stats, 3);
                    stats
                })
                .unwrap();
            let stats = h.join().expect("worker thread");
            for (s, i, m) in &stats.violations {
                println!("REPRODUCED stage={s} case={i}: {m}");
            }
            for e in &stats.harness_errors {
                println!("HARNESS-ERROR {e}");
            }
            if stats.violations.is_empty() && stats.harness_errors.is_empty() {
                println!("HELD evals={} outcomes={:?}", stats.evals, stats.outcomes);
            }
            std::process::exit(if !stats.harness_errors.is_empty() { 2 } else if !stats.violations.is_empty() { 1 } else { 0 });
        }
        "stages" => {
            for s in props::stages(&get("prop", ""), get("tier", "quick") == "thorough", &get("variant", "dbg")) {
                println!("{} {}", s.name, s.n);
            }
        }
        "merge" => {
            let mut v: Vec<u64> = vec![];
            for f in rest {
                if let Ok(b) = std::fs::read(&f) {
                    v.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
                }
            }
            v.sort_unstable();
            v.dedup();
            println!("{}", v.len());
        }
        "child" => props::child(&rest),
        _ => {
            eprintln!("usage: vmon run|replay|stages|merge --key value ..");
            std::process::exit(2);
        }
    }
}
