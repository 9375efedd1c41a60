//! `conc SHARD SHARDS TIER`: several threads processing requests, under all schedules with few preemptions.
//!
//! Every execution is a forked process, so that it starts with nothing initialized (or with what the warm-up requests
//! did), and every result is compared with that of the request processed alone.

#![allow(static_mut_refs)]

mod sched;

use router::{run, services, Services, Via, SPECS};
use sched::{Plan, Report, MAX_THREADS};
use serde_json::{json, Value};
use std::collections::BTreeMap;

type Req = (Via, usize);

#[derive(Clone, Debug)]
struct Case {
    family: &'static str,
    warm: Vec<Req>,
    threads: Vec<Vec<Req>>,
    /// Preemptions.
    bound: u32,
    /// Bounds are raised up to `bound` until this many schedules were needed.
    budget: u64,
    blocks: bool,
}

fn spec(name: &str) -> usize {
    SPECS.iter().position(|s| s.0 == name).unwrap()
}

fn map_shared<T>() -> &'static mut T {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<T>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        &mut *(p as *mut T)
    }
}

fn tag(thread: usize, i: usize) -> u32 {
    (thread * 10 + i) as u32
}

fn text_of(s: &Services, thread: usize, reqs: &[Req]) -> String {
    reqs.iter().enumerate().map(|(i, (v, q))| run(s, *v, *q, tag(thread, i))).collect::<Vec<_>>().join("\n")
}

/// Runs `f` in a forked process; how it ended.
fn forked(f: impl FnOnce()) -> Result<(), String> {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            f();
            libc::_exit(0);
        }
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 {}
        if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 0 {
            Ok(())
        } else if libc::WIFSIGNALED(status) {
            Err(match libc::WTERMSIG(status) {
                libc::SIGALRM => "hangs".into(),
                s => format!("dies of signal {}", s),
            })
        } else {
            Err(format!("exits with {}", libc::WEXITSTATUS(status)))
        }
    }
}

/// One execution.
fn execute(case: &Case, s: &'static Services, prefix: &[u8], r: &mut Report) -> Result<(), String> {
    r.end = 0;
    r.decisions = 0;
    r.steps = 0;
    r.granules = 0;
    let p: *mut Report = r;
    forked(|| {
        unsafe { libc::alarm(30) };
        sched::start(Plan { prefix: prefix.to_vec(), blocks: case.blocks }, case.threads.len(), p);
        for (t, reqs) in case.threads.iter().enumerate() {
            let reqs = reqs.clone();
            std::thread::spawn(move || sched::thread(t, move || text_of(s, t, &reqs)));
            sched::arrived(t + 1);
        }
        sched::go();
        loop {
            unsafe { libc::pause() };
        }
    })
}

fn texts(case: &Case, r: &Report) -> Vec<String> {
    (0..case.threads.len()).map(|t| String::from_utf8_lossy(&r.text[t][..r.text_len[t] as usize]).into_owned()).collect()
}

#[derive(Default)]
struct Out {
    executions: u64,
    decisions: u64,
    steps: u64,
    shared: u64,
    restarts: u64,
    diverged: u64,
    /// The bound reached; and whether there are no other schedules at all.
    bound: u32,
    complete: bool,
    violation: Option<Value>,
    broken: Option<String>,
}

/// All schedules of a case.
fn explore(case: &Case, s: &'static Services, alone: &[String], r: &mut Report) -> Out {
    let mut out = Out::default();
    let mut bound = if case.blocks { case.bound } else { 0 };
    'restart: loop {
        let mut path: Vec<(u8, u8)> = vec![];
        let mut cut = false;
        let before = out.executions;
        let (mut fresh, mut all) = (0u64, 0u64);
        loop {
            let prefix: Vec<u8> = path.iter().map(|p| p.0).collect();
            let end = execute(case, s, &prefix, r);
            out.executions += 1;
            out.steps += r.steps;
            let n = r.decisions as usize;
            let describe = |m: String| {
                let switches: Vec<String> =
                    (0..n).filter(|d| r.picked[*d] > 0).map(|d| format!("decision {} of {}: alternative {} of {}", d, n, r.picked[d], r.width[d] & 0x7f)).collect();
                json!({
                    "case": describe(case), "message": m, "schedule": r.picked[..n].iter().map(|b| b.to_string()).collect::<String>(), "switches": switches,
                })
            };
            match (end, r.end) {
                (Err(m), _) => {
                    out.violation = Some(describe(format!("the process {}", m)));
                    return out;
                }
                (_, 1) => {}
                (_, 2) => {
                    out.violation = Some(describe("deadlock: all threads wait".into()));
                    return out;
                }
                (_, 3) => {
                    out.violation = Some(describe("livelock: the threads don't get done".into()));
                    return out;
                }
                (_, e) => {
                    out.broken = Some(format!("{:?}: execution ended with {}", case, e));
                    return out;
                }
            }
            if r.lost_granules > 0 {
                out.broken = Some(format!("{:?}: too much shared memory", case));
                return out;
            }
            for (t, (got, want)) in texts(case, r).iter().zip(alone).enumerate() {
                if got != want {
                    out.violation = Some(describe(format!("thread {} got {:?}; alone: {:?}", t, got, want)));
                    return out;
                }
            }
            if n < path.len() || path.iter().enumerate().any(|(d, p)| r.width[d] != p.1) {
                // (the code under test depends on something else; what's left of this case isn't explored)
                out.diverged = 1;
                out.decisions = fresh;
                out.bound = bound.saturating_sub(1);
                return out;
            }
            // (what's shared is settled with up to one preemption)
            if r.granules > 0 && bound <= 1 {
                for g in &r.shared[..r.granules as usize] {
                    sched::add_known(*g);
                }
                out.shared += r.granules as u64;
                out.restarts += 1;
                if out.restarts > 200 || out.shared > 4000 {
                    out.broken = Some(format!("{:?}: sharing doesn't settle", case));
                    return out;
                }
                if !case.blocks {
                    continue 'restart;
                }
            }
            fresh += n as u64 - path.len() as u64;
            all += n as u64;
            // next
            path.extend((path.len()..n).map(|d| (r.picked[d], r.width[d])));
            let mut used: u32 = path.iter().map(|p| (p.1 & 0x80 != 0 && p.0 > 0) as u32).sum();
            loop {
                match path.pop() {
                    None => {
                        out.decisions = fresh;
                        out.bound = bound;
                        out.complete = !cut;
                        // (each further preemption may come at about any decision)
                        let runs = out.executions - before;
                        let next = runs * (all / runs + 1) / (bound as u64 + 1);
                        if !cut || bound >= case.bound || next > case.budget {
                            return out;
                        }
                        bound += 1;
                        continue 'restart;
                    }
                    Some((k, w)) => {
                        let preempts = w & 0x80 != 0;
                        used -= (preempts && k > 0) as u32;
                        if k + 1 < w & 0x7f {
                            if used + preempts as u32 <= bound {
                                path.push((k + 1, w));
                                break;
                            }
                            cut = true;
                        }
                    }
                }
            }
        }
    }
}

fn describe(c: &Case) -> String {
    let reqs = |v: &Vec<Req>| v.iter().map(|(v, s)| format!("{:?} {} {}", v, SPECS[*s].1, SPECS[*s].2)).collect::<Vec<_>>();
    format!("{}: after {:?}, threads {:?}", c.family, reqs(&c.warm), c.threads.iter().map(reqs).collect::<Vec<_>>())
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    let all: Vec<usize> = (0..SPECS.len()).collect();
    let some = |names: &[&str]| names.iter().map(|n| spec(n)).collect::<Vec<_>>();
    let few = some(&["num", "nest", "rec", "panic", "innerpost", "method"]);
    let vias = [Via::Sync, Via::Async, Via::Outer, Via::Service, Via::Catch, Via::SyncService];
    let warm = |via, a, b| vec![(via, a), (Via::Catch, spec("panic")), (Via::Outer, b)];
    // any two requests, each way (quick: not all of them)
    for &a in &all {
        for &b in &all {
            for &via in &vias {
                let wide = few.contains(&a) && few.contains(&b);
                if !thorough && !wide && (a > b || via != Via::Catch) {
                    continue;
                }
                for w in vec![vec![], warm(via, a, b)] {
                    out.push(Case { family: "two requests", warm: w, threads: vec![vec![(via, a)], vec![(via, b)]], bound: 4, budget: if thorough { 2000 } else if wide { 150 } else { 40 }, blocks: false });
                }
            }
        }
    }
    // requests processed in different ways
    for &v in &vias {
        for &w in &vias {
            if v != w {
                for (a, b) in vec![("rec", "nest"), ("body", "panic"), ("inner", "num")] {
                    out.push(Case { family: "two ways", warm: vec![], threads: vec![vec![(v, spec(a))], vec![(w, spec(b))]], bound: 4, budget: if thorough { 4000 } else { 150 }, blocks: false });
                }
            }
        }
    }
    // two requests by each thread
    for &v in &[Via::Outer, Via::Catch] {
        for &a in if thorough { &few[..] } else { &few[..4] } {
            for &b in &few {
                for &c in if thorough { &few[..] } else { &few[2..3] } {
                    let d = spec("num2");
                    out.push(Case { family: "two requests each", warm: vec![], threads: vec![vec![(v, a), (v, b)], vec![(v, c), (v, d)]], bound: 3, budget: if thorough { 3000 } else { 150 }, blocks: false });
                }
            }
        }
    }
    // three threads
    for &v in &[Via::Outer, Via::Catch] {
        let few = if thorough { &few[..] } else { &few[1..4] };
        for (i, &a) in few.iter().enumerate() {
            for (j, &b) in few.iter().enumerate().skip(i) {
                for &c in few.iter().skip(j) {
                    out.push(Case { family: "three threads", warm: vec![], threads: vec![vec![(v, a)], vec![(v, b)], vec![(v, c)]], bound: 3, budget: if thorough { 20000 } else { 250 }, blocks: false });
                }
            }
        }
    }
    // switching at every basic block
    for &v in &[Via::Outer, Via::Catch] {
        let pairs = vec![("num", "nest"), ("rec", "inner"), ("body", "badnum"), ("panic", "rest"), ("method", "head"), ("nest", "nest")];
        let pairs = if thorough { pairs } else if v == Via::Outer { pairs[..2].to_vec() } else { pairs[3..5].to_vec() };
        for (a, b) in pairs {
            let w = warm(v, spec(a), spec(b));
            out.push(Case { family: "switch at any block", warm: w, threads: vec![vec![(v, spec(a))], vec![(v, spec(b))]], bound: 1, budget: 1 << 20, blocks: true });
        }
    }
    out
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (shard, shards, thorough) = (a[1].parse::<usize>().unwrap(), a[2].parse::<usize>().unwrap(), a[3] == "thorough");
    let only = a.get(4).map(|s| s.parse::<usize>().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    let r: &'static mut Report = map_shared();
    // (this process never processes a request, so that every fork starts cold)
    let s: &'static Services = Box::leak(Box::new(services()));
    let mut alone: BTreeMap<String, String> = BTreeMap::new();
    let mut families: BTreeMap<&str, (u64, u64, u64, BTreeMap<String, u64>)> = BTreeMap::new();
    let mut total = Out::default();
    let mut details = vec![];
    let mut samples = vec![];
    let result: &'static mut [u8; 1 << 16] = map_shared();
    let len: &'static mut usize = map_shared();
    for (i, case) in cases(thorough).into_iter().enumerate() {
        if i % shards != shard || only.map_or(false, |o| o != i) || details.len() >= 3 {
            continue;
        }
        let t0 = std::time::Instant::now();
        // each request alone, in a fresh process
        let mut want = vec![];
        for (t, reqs) in case.threads.iter().enumerate() {
            let mut texts = vec![];
            for (k, q) in reqs.iter().enumerate() {
                let key = format!("{:?} {}", q, tag(t, k));
                if !alone.contains_key(&key) {
                    let end = forked(|| {
                        unsafe { libc::alarm(30) };
                        let x = run(s, q.0, q.1, tag(t, k));
                        result[..x.len()].copy_from_slice(x.as_bytes());
                        *len = x.len();
                    });
                    let x = match end {
                        Ok(()) => String::from_utf8_lossy(&result[..*len]).into_owned(),
                        Err(m) => {
                            details.push(json!({"case": format!("alone: {:?} {} {}", q.0, SPECS[q.1].1, SPECS[q.1].2), "message": format!("the process {}", m)}));
                            format!("the process {}", m)
                        }
                    };
                    alone.insert(key.clone(), x);
                }
                texts.push(alone[&key].clone());
            }
            want.push(texts.join("\n"));
        }
        if details.len() >= 3 {
            break;
        }
        *len = 0;
        let end = forked(|| {
            unsafe { libc::alarm(30) };
            for (k, q) in case.warm.iter().enumerate() {
                run(s, q.0, q.1, 90 + k as u32);
            }
            unsafe { libc::alarm(0) };
            let o = explore(&case, s, &want, r);
            let x = json!([o.executions, o.decisions, o.steps, o.shared, o.restarts, o.violation, o.broken, o.bound, o.complete, o.diverged]).to_string();
            result[..x.len()].copy_from_slice(x.as_bytes());
            *len = x.len();
        });
        let v: Value = match end {
            Ok(()) => serde_json::from_slice(&result[..*len]).expect("no result"),
            Err(m) => {
                // (only the warm-up runs there)
                details.push(json!({"case": describe(&case), "message": format!("the process {} in the warm-up", m)}));
                continue;
            }
        };
        if let Some(b) = v[6].as_str() {
            eprintln!("BROKEN {}", b);
            std::process::exit(2);
        }
        let n = |k: usize| v[k].as_u64().unwrap();
        if std::env::var_os("CONC_TIMES").is_some() {
            eprintln!("{} {:.2} s bound {} complete {} {} executions {} points/exec {} shared {}", i, t0.elapsed().as_secs_f64(), v[7], v[8], n(0), n(2) / n(0).max(1), n(3), describe(&case));
        }
        total.executions += n(0);
        total.decisions += n(1);
        total.steps += n(2);
        total.shared += n(3);
        total.diverged += n(9);
        let f = families.entry(case.family).or_default();
        f.0 += 1;
        f.1 += n(0);
        f.2 = f.2.max(n(0));
        *f.3.entry(if v[8] == true { "no bound".into() } else { v[7].to_string() }).or_default() += 1;
        if !v[5].is_null() {
            details.push(v[5].clone());
        } else if samples.is_empty() {
            samples.push(json!({"case": describe(&case), "results": want}));
        }
    }
    let families: BTreeMap<_, _> = families.into_iter().map(|(k, v)| (k, json!({"cases": v.0, "schedules": v.1, "cases_per_preemption_bound": v.3}))).collect();
    println!(
        "{}",
        json!({"states": total.decisions, "transitions": total.steps, "runs": total.executions, "families": families, "violations": details.len(), "details": details, "samples": samples,
               "shared_granules": total.shared, "cases_not_repeatable": total.diverged, "requests_alone": alone.len()})
    );
    let _ = MAX_THREADS;
}
