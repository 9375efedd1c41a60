//! Runs independent explorations on all cores.

use crate::THREADS;
use rt::explore::{beat, watchdog, Stats};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

/// Reports that nothing goes on any more.
pub fn hung(what: String) {
    println!("{}", json!({"states": 0, "transitions": 0, "runs": 0, "violations": 1, "details": [{"message": "hangs", "while": what}]}));
    std::process::exit(0);
}

/// Adds to the statistics and the number of unexplored single runs; returns a violation.
pub type Job<'a> = Box<dyn Fn(&mut Stats, &mut u64) -> Option<Value> + Send + Sync + 'a>;

pub fn run(jobs: &[(&'static str, Job<'_>)]) -> Value {
    let running = Arc::new(Mutex::new(BTreeMap::<usize, &'static str>::new()));
    {
        let running = running.clone();
        watchdog(100, move || hung(format!("{:?}", running.lock().unwrap())));
    }
    let next = AtomicUsize::new(0);
    let out = Mutex::new((Stats::default(), vec![], BTreeMap::<&str, (u64, u64, f64)>::new(), 0u64));
    std::thread::scope(|s| {
        for _ in 0..THREADS {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= jobs.len() || out.lock().unwrap().1.len() >= 8 {
                    return;
                }
                let (family, job) = &jobs[i];
                let mut stats = Stats::default();
                let mut n = 0;
                let t = std::time::Instant::now();
                running.lock().unwrap().insert(i, *family);
                let v = job(&mut stats, &mut n);
                running.lock().unwrap().remove(&i);
                beat();
                let mut o = out.lock().unwrap();
                o.0.add(&stats);
                o.3 += n;
                let f = o.2.entry(family).or_default();
                f.0 += 1;
                f.1 += stats.executions + n;
                f.2 += t.elapsed().as_secs_f64();
                if let Some(v) = v {
                    o.1.push(v);
                }
            });
        }
    });
    let (stats, details, families, single) = out.into_inner().unwrap();
    if std::env::var_os("AMC_TIMES").is_some() {
        eprintln!("{:#?}", families);
    }
    let families: BTreeMap<_, _> = families.into_iter().map(|(k, v)| (k, json!({"jobs": v.0, "executions": v.1}))).collect();
    json!({"states": stats.states + single, "transitions": stats.transitions + single, "runs": stats.executions + single, "jobs": jobs.len(), "families": families,
           "diverged": stats.diverged, "truncated": stats.truncated, "violations": details.len(), "details": details, "samples": []})
}
