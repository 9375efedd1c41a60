//! `amc PROPERTY quick|thorough`: explores the asynchronous parts; prints a JSON summary.

#![allow(non_local_definitions, dead_code)]

mod blk;
mod body;
mod cases;
mod err;
mod par;
mod query;
mod svc;
mod wire;
mod wire2;

#[global_allocator]
static COUNTING: rt::heap::Counting = rt::heap::Counting;

use rt::explore::{watchdog, Stats};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

pub const THREADS: usize = 8;

fn services(prop: &str, thorough: bool) -> Value {
    if std::env::var_os("AMC_WIRE").is_some() {
        return wired(prop, thorough);
    }
    let cases = cases::cases(prop, thorough);
    let running = Arc::new(Mutex::new(BTreeMap::new()));
    {
        let running = running.clone();
        watchdog(100, move || par::hung(format!("{:?}", running.lock().unwrap())));
    }
    let next = AtomicUsize::new(0);
    let out = Mutex::new((Stats::default(), vec![], BTreeMap::<&str, (u64, u64, f64)>::new()));
    std::thread::scope(|s| {
        for _ in 0..THREADS {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= cases.len() || out.lock().unwrap().1.len() >= 5 {
                    return;
                }
                let mut stats = Stats::default();
                let t = std::time::Instant::now();
                running.lock().unwrap().insert(i, cases[i].describe());
                let v = cases[i].explore(prop, &mut stats, 20_000_000);
                running.lock().unwrap().remove(&i);
                let mut o = out.lock().unwrap();
                o.0.add(&stats);
                let f = o.2.entry(cases[i].family).or_default();
                f.0 += 1;
                f.1 += stats.executions;
                f.2 += t.elapsed().as_secs_f64();
                if let Some(v) = v {
                    o.1.push(json!({"case": cases[i].describe(), "message": v.message, "decisions": v.decisions}));
                }
            });
        }
    });
    let (stats, details, families) = out.into_inner().unwrap();
    if std::env::var_os("AMC_TIMES").is_some() {
        eprintln!("{:#?}", families);
    }
    let families: BTreeMap<_, _> = families.into_iter().map(|(k, v)| (k, json!({"cases": v.0, "executions": v.1}))).collect();
    let samples: Vec<String> = cases.iter().step_by(cases.len() / 5 + 1).map(|c| c.describe()).collect();
    json!({"states": stats.states, "transitions": stats.transitions, "runs": stats.executions, "cases": cases.len(), "families": families,
           "diverged": stats.diverged, "truncated": stats.truncated, "violations": details.len(), "details": details, "samples": samples})
}

/// Both results in one.
fn merge(mut r: Value, b: Value) -> Value {
    for k in &["states", "transitions", "runs", "diverged", "truncated", "violations"] {
        r[*k] = json!(r[*k].as_u64().unwrap() + b[*k].as_u64().unwrap());
    }
    let more = b["details"].as_array().unwrap().clone();
    r["details"].as_array_mut().unwrap().extend(more);
    for (k, v) in b["families"].as_object().unwrap() {
        r["families"][k] = v.clone();
    }
    r
}

fn wires(prop: &str, thorough: bool) -> Vec<(&'static str, par::Job<'static>)> {
    let mut jobs = wire::jobs(prop, thorough);
    jobs.extend(wire2::jobs(prop, thorough));
    if let Ok(only) = std::env::var("AMC_ONLY") {
        jobs.retain(|j| j.0.contains(&only));
    }
    jobs
}

/// The same behind hyper's connections.
fn wired(prop: &str, thorough: bool) -> Value {
    par::run(&wires(prop, thorough))
}

fn main() {
    rt::drive::quiet_panics();
    assert!(rt::clock::works(), "no control over the clock");
    let prop = std::env::args().nth(1).expect("usage: amc PROPERTY quick|thorough");
    let thorough = std::env::args().nth(2).map_or(false, |t| t == "thorough");
    let r = match &prop[..] {
        "P11" | "P12" | "P13" | "P14" | "P15" => merge(services(&prop, thorough), wired(&prop, thorough)),
        "P20" => {
            let first = wire::sync_entry(thorough);
            merge(merge(merge(services(&prop, thorough), blk::lifetimes(thorough)), wired(&prop, thorough)), first)
        }
        "P07" => query::check(thorough),
        "P16" => blk::check(thorough),
        "P18" => err::check(thorough),
        "P09" => body::check(thorough),
        _ => panic!("unknown property"),
    };
    println!("{}", r);
}
