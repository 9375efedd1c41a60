//! Stateless exploration: every environment decision is a `choose`, and all sequences of decisions
//! are enumerated depth-first by re-executing the code under test.

use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub struct Point {
    pub label: &'static str,
    pub n: usize,
    pub pick: usize,
}

#[derive(Default)]
struct Cur {
    active: bool,
    prefix: Vec<usize>,
    trace: Vec<Point>,
    budget: u32,
    steps: u64,
    diverged: bool,
}

thread_local! {
    static CUR: RefCell<Cur> = RefCell::new(Cur::default());
}

/// Picks one of `n` alternatives; 0 is the uneventful one.
pub fn choose(label: &'static str, n: usize) -> usize {
    assert!(n > 0);
    CUR.with(|c| {
        let mut c = c.borrow_mut();
        if !c.active || n == 1 {
            return 0;
        }
        let i = c.trace.len();
        let mut pick = c.prefix.get(i).cloned().unwrap_or(0);
        if pick >= n {
            c.diverged = true;
            pick = 0;
        }
        c.trace.push(Point { label, n, pick });
        pick
    })
}

/// Like `choose`, but alternatives other than 0 are only available while the budget lasts.
pub fn deviate(label: &'static str, n: usize) -> usize {
    if CUR.with(|c| c.borrow().budget) == 0 {
        return 0;
    }
    let pick = choose(label, n);
    if pick > 0 {
        CUR.with(|c| c.borrow_mut().budget -= 1);
    }
    pick
}

/// Counts a transition of the code under test.
pub fn step() {
    CUR.with(|c| c.borrow_mut().steps += 1);
}

/// Runs `f` with no decisions being recorded (all are 0).
pub fn unexplored<T>(f: impl FnOnce() -> T) -> T {
    let saved = CUR.with(|c| std::mem::replace(&mut c.borrow_mut().active, false));
    let r = f();
    CUR.with(|c| c.borrow_mut().active = saved);
    r
}

static BEAT: AtomicU64 = AtomicU64::new(0);

/// Something went on.
pub fn beat() {
    BEAT.fetch_add(1, Ordering::Relaxed);
}

/// Calls `report`, which has to end the process, if nothing goes on for that long.
pub fn watchdog(seconds: u64, report: impl Fn() + Send + 'static) {
    std::thread::spawn(move || {
        let mut last = 0;
        loop {
            std::thread::sleep(Duration::from_secs(seconds));
            let now = BEAT.load(Ordering::Relaxed);
            if now == last {
                report();
            }
            last = now;
        }
    });
}

pub fn begin(prefix: Vec<usize>, budget: u32) {
    beat();
    CUR.with(|c| {
        *c.borrow_mut() = Cur {
            active: true,
            prefix,
            budget,
            ..Cur::default()
        }
    });
}

/// Returns the decisions taken, the transitions counted and whether the prefix didn't fit.
pub fn end() -> (Vec<Point>, u64, bool) {
    CUR.with(|c| {
        let c = std::mem::replace(&mut *c.borrow_mut(), Cur::default());
        (c.trace, c.steps, c.diverged)
    })
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    /// Complete executions.
    pub executions: u64,
    /// Distinct nodes of the decision tree.
    pub states: u64,
    /// Transitions executed.
    pub transitions: u64,
    pub diverged: u64,
    /// Explorations that hit the execution limit.
    pub truncated: u64,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.executions += o.executions;
        self.states += o.states;
        self.transitions += o.transitions;
        self.diverged += o.diverged;
        self.truncated += o.truncated;
    }
}

pub struct Violation {
    pub message: String,
    pub decisions: Vec<String>,
}

/// Next prefix in depth-first order.
pub fn next(trace: &[Point]) -> Option<Vec<usize>> {
    let i = trace.iter().rposition(|p| p.pick + 1 < p.n)?;
    let mut v: Vec<usize> = trace[..i].iter().map(|p| p.pick).collect();
    v.push(trace[i].pick + 1);
    Some(v)
}

pub fn describe(trace: &[Point]) -> Vec<String> {
    trace.iter().map(|p| format!("{}={}/{}", p.label, p.pick, p.n)).collect()
}

/// Explores all decision sequences of `f`; stops at the first one for which it fails.
pub fn explore(stats: &mut Stats, budget: u32, limit: u64, mut f: impl FnMut() -> Result<(), String>) -> Option<Violation> {
    let mut prefix = vec![];
    let mut n = 0;
    stats.states += 1;
    loop {
        let depth = prefix.len();
        begin(prefix, budget);
        let r = catch_unwind(AssertUnwindSafe(&mut f));
        let (trace, steps, diverged) = end();
        let r = match r {
            Ok(r) => r,
            Err(p) => Err(format!("unexpected panic: {}", crate::drive::panic_text(&*p))),
        };
        n += 1;
        stats.executions += 1;
        stats.transitions += steps;
        stats.diverged += diverged as u64;
        // the nodes below the changed decision (and the one it leads to) are new
        stats.states += (trace.len() + 1).saturating_sub(depth.max(1)) as u64;
        if let Err(message) = r {
            return Some(Violation {
                message,
                decisions: describe(&trace),
            });
        }
        if n >= limit {
            stats.truncated += 1;
            return None;
        }
        match next(&trace) {
            Some(p) => prefix = p,
            None => return None,
        }
    }
}
