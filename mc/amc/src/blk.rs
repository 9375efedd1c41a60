//! P16: the blocking helper under all answers of the executor.

use crate::par::{self, Job};
use hyperdrive::blocking;
use hyperdrive::futures::{Async, Future, Poll};
use hyperdrive::BoxedError;
use rt::env::{self, *};
use rt::explore::{choose, explore, step, Stats};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio_threadpool::{blocking as tp, BlockingError, Builder};

/// The executor's side: how much capacity there is, and who holds or waits for it.
#[derive(Default)]
struct Capacity {
    /// Not-ready answers left.
    refusals: u32,
    /// Whether the executor may turn out to be shut down.
    shutdown: bool,
    gone: bool,
    /// Whether the not-ready answers are given to each future.
    each: bool,
    /// The number of answers after which the executor is shut down.
    end: Option<usize>,
    /// Answers given, in order.
    answers: Vec<(usize, char)>,
    current: usize,
    waiting: BTreeMap<usize, Ready>,
    inside: usize,
}

thread_local! {
    static CAP: RefCell<Capacity> = RefCell::new(Capacity::default());
}

fn cap<T>(f: impl FnOnce(&mut Capacity) -> T) -> T {
    CAP.with(|c| f(&mut c.borrow_mut()))
}

fn executor(f: &mut dyn FnMut()) -> Poll<(), BlockingError> {
    step();
    let (me, mut ready, gone, may_end) = cap(|c| {
        let me = c.current;
        let left = c.refusals;
        (me, c.waiting.remove(&me).unwrap_or_else(|| Ready::new(me as Id, left)), c.gone, c.shutdown)
    });
    let over = cap(|c| c.end.map_or(false, |n| c.answers.len() >= n));
    if gone || over || (may_end && choose("running/shut down", 2) == 1) {
        cap(|c| {
            c.gone = true;
            c.answers.push((me, 'E'))
        });
        return Err(BlockingError::new());
    }
    if ready.poll() {
        cap(|c| {
            c.answers.push((me, 'R'));
            c.inside += 1;
        });
        // (panics pass through the executor)
        f();
        cap(|c| c.inside -= 1);
        Ok(Async::Ready(()))
    } else {
        let left = ready.left();
        cap(|c| {
            c.answers.push((me, 'N'));
            if !c.each {
                c.refusals = left;
            }
            c.waiting.insert(me, ready)
        });
        Ok(Async::NotReady)
    }
}

/// Result of a closure: distinguishable, and not `Clone`.
#[derive(Debug, PartialEq)]
struct Token(u32);

const OK: u32 = 0;
const ERR: u32 = 1;
const PANIC: u32 = 2;

type Fut = Box<dyn Future<Item = Token, Error = BoxedError>>;

fn make(i: usize, what: u32) -> Fut {
    let value = Token(i as u32);
    let keep = alive("closure", i as Id);
    Box::new(
        blocking(move || {
            step();
            let _ = &keep;
            let inside = cap(|c| c.inside);
            log(Ev::Call(i as Id, format!("inside {}", (inside > 0) as u8)));
            match what {
                OK => Ok(value),
                ERR => Err(ForeignErr(i as u32)),
                _ => throw(i as Id),
            }
        })
        .map_err(BoxedError::from),
    )
}

fn one_run(n: usize, whats: u32, drops: bool, refusals: u32, shutdown: bool, track: bool) -> Result<(), String> {
    reset(Cfg {
        drops,
        track,
        ..Cfg::default()
    });
    CAP.with(|c| {
        *c.borrow_mut() = Capacity {
            refusals,
            shutdown,
            ..Capacity::default()
        }
    });
    let whats: Vec<u32> = (0..n).map(|_| choose("closure gives ok/error/panic", whats as usize) as u32).collect();
    run_and_judge(n, whats)
}

/// One long execution: `n` futures, each of which is refused capacity `refusals` times, with `script` laying down the
/// order; what the closures give depends on `whats`; shut down after `end` answers.
fn long_run(n: usize, whats: u32, refusals: u32, script: Script, end: Option<usize>) -> Result<(), String> {
    reset(Cfg {
        mode: Mode::Script(script),
        ..Cfg::default()
    });
    CAP.with(|c| {
        *c.borrow_mut() = Capacity {
            refusals,
            each: true,
            end,
            ..Capacity::default()
        }
    });
    let whats: Vec<u32> = (0..n as u32)
        .map(|i| match whats {
            0..=2 => whats,
            3 => i % 3,
            _ => (i / 3) % 3,
        })
        .collect();
    run_and_judge(n, whats)
}

fn run_and_judge(n: usize, whats: Vec<u32>) -> Result<(), String> {
    // the futures are made lazily, on one `poll` loop
    let makes: Vec<Box<dyn FnOnce() -> Fut>> = whats
        .iter()
        .enumerate()
        .map(|(i, w)| {
            let w = *w;
            Box::new(move || make(i, w)) as Box<dyn FnOnce() -> Fut>
        })
        .collect();
    let ends = if n == 1 {
        let m = makes.into_iter().next().unwrap();
        vec![env::run(m)]
    } else {
        env::run_many(makes, |i| cap(|c| c.current = i))
    };
    let log = take_log();
    let answers = cap(|c| {
        c.waiting.clear();
        std::mem::replace(&mut c.answers, vec![])
    });
    for (i, end) in ends.into_iter().enumerate() {
        let mine: Vec<char> = answers.iter().filter(|a| a.0 == i).map(|a| a.1).collect();
        let calls: Vec<&Ev> = log.iter().filter(|e| matches!(e, Ev::Call(id, _) if *id == i as Id)).collect();
        let granted = mine.contains(&'R');
        if mine.iter().rev().skip(1).any(|a| *a != 'N') {
            return Err(format!("future {} asked for capacity again after it was granted: {:?}", i, mine));
        }
        if calls.len() != granted as usize {
            return Err(format!("closure {} was run {} times, the executor answered {:?}", i, calls.len(), mine));
        }
        if calls.iter().any(|e| matches!(e, Ev::Call(_, s) if s != "inside 1")) {
            return Err(format!("closure {} wasn't run as a blocking operation", i));
        }
        let shut = mine.last() == Some(&'E');
        let ok = match end {
            End::Dropped => Ok(()),
            End::Stalled(s) => Err(s),
            End::Panicked(p) => match thrown(&*p) {
                Some(t) if t == i as Id && granted && whats[i] == PANIC => Ok(()),
                None if shut => Ok(()),
                _ => Err(format!("panics with {}", End::<()>::panic_message(&*p))),
            },
            End::Done(Ok(t)) if granted && whats[i] == OK && t == Token(i as u32) => Ok(()),
            End::Done(Err(e)) if granted && whats[i] == ERR && e.downcast_ref::<ForeignErr>().map_or(false, |f| f.0 == i as u32) => Ok(()),
            End::Done(r) => Err(format!("resolves to {:?}", r)),
        };
        let left = left_over();
        if !left.is_empty() {
            return Err(format!("when all futures were gone, these were still there: {:?}", left));
        }
        ok.map_err(|e| format!("future {} (answers {:?}, closure gives {}): {}", i, mine, ["ok", "an error", "a panic"][whats[i] as usize], e))?;
    }
    Ok(())
}

/// The same on tokio's thread pool: `n` futures, room for `room` closures at once.
fn on_pool(n: usize, room: usize, whats: &[u32]) -> Result<(), String> {
    let pool = Builder::new().pool_size(2).max_blocking(room).build();
    let calls: Arc<Vec<AtomicU32>> = Arc::new((0..n).map(|_| AtomicU32::new(0)).collect());
    let now = Arc::new(AtomicUsize::new(0));
    let most = Arc::new(AtomicUsize::new(0));
    let results: Arc<Mutex<BTreeMap<usize, Result<u32, u32>>>> = Default::default();
    for i in 0..n {
        let (calls, now, most, results, what) = (calls.clone(), now.clone(), most.clone(), results.clone(), whats[i]);
        pool.spawn(
            blocking(move || {
                calls[i].fetch_add(1, Ordering::SeqCst);
                let k = now.fetch_add(1, Ordering::SeqCst) + 1;
                most.fetch_max(k, Ordering::SeqCst);
                std::thread::sleep(Duration::from_millis(1));
                now.fetch_sub(1, Ordering::SeqCst);
                if what == OK {
                    Ok(i as u32)
                } else {
                    Err(i as u32)
                }
            })
            .then(move |r| {
                results.lock().unwrap().insert(i, r);
                Ok(())
            }),
        );
    }
    let t = std::time::Instant::now();
    while results.lock().unwrap().len() < n {
        if t.elapsed() > Duration::from_secs(30) {
            return Err(format!("only {:?} of {} futures completed", results.lock().unwrap(), n));
        }
        std::thread::sleep(Duration::from_micros(200));
    }
    for i in 0..n {
        let c = calls[i].load(Ordering::SeqCst);
        if c != 1 {
            return Err(format!("closure {} was run {} times", i, c));
        }
        let want = if whats[i] == OK { Ok(i as u32) } else { Err(i as u32) };
        let got = results.lock().unwrap()[&i];
        if got != want {
            return Err(format!("future {} resolves to {:?} instead of {:?}", i, got, want));
        }
    }
    if most.load(Ordering::SeqCst) > room {
        return Err(format!("{} closures ran at once, though there is room for {}", most.load(Ordering::SeqCst), room));
    }
    drop(pool);
    Ok(())
}

/// Without any executor.
fn without(what: u32) -> Result<(), String> {
    reset(Cfg::default());
    match env::run(|| make(0, what)) {
        End::Panicked(p) if thrown(&*p).is_none() => {}
        e => return Err(format!("outside of an executor: {:?}", e)),
    }
    if take_log().iter().any(|e| matches!(e, Ev::Call(..))) {
        return Err("outside of an executor: the closure was run".into());
    }
    // dropped without having been polled
    drop(make(0, what));
    if take_log().iter().any(|e| matches!(e, Ev::Call(..))) {
        return Err("the closure of a dropped future was run".into());
    }
    Ok(())
}

/// P20: closures don't outlive their futures.
pub fn lifetimes(thorough: bool) -> Value {
    let mut jobs: Vec<(&'static str, Job<'_>)> = vec![];
    for n in 1..=2 {
        for refusals in 0..if thorough { 6 } else { 3 } {
            for &shutdown in &[false, true] {
                jobs.push((
                    "blocking closures",
                    Box::new(move |stats: &mut Stats, _: &mut u64| {
                        let _guard = tp::set_default(executor);
                        explore(stats, 1, 30_000_000, || one_run(n, 3, true, refusals, shutdown, true))
                            .map(|v| json!({"futures": n, "refusals": refusals, "message": v.message, "decisions": v.decisions}))
                    }),
                ));
            }
        }
    }
    par::run(&jobs)
}

pub fn check(thorough: bool) -> Value {
    let mut jobs: Vec<(&'static str, Job<'_>)> = vec![];
    let job = move |n: usize, whats: u32, drops: bool, refusals: u32, shutdown: bool, budget: u32| -> Job<'static> {
        Box::new(move |stats: &mut Stats, _: &mut u64| {
            let _guard = tp::set_default(executor);
            explore(stats, budget, 30_000_000, || one_run(n, whats, drops, refusals, shutdown, false))
                .map(|v| json!({"futures": n, "refusals": refusals, "message": v.message, "decisions": v.decisions}))
        })
    };
    for refusals in 0..if thorough { 12 } else { 8 } {
        for &drops in &[false, true] {
            for &shutdown in &[false, true] {
                jobs.push(("one future", job(1, 3, drops, refusals, shutdown, 3)));
            }
        }
    }
    for refusals in 0..if thorough { 6 } else { 4 } {
        for &shutdown in &[false, true] {
            jobs.push(("two futures", job(2, 3, true, refusals, shutdown, 1)));
            if refusals < 2 || thorough && refusals < 5 {
                jobs.push(("three futures", job(3, if refusals < 3 { 3 } else { 2 }, false, refusals, shutdown, 0)));
            }
        }
    }
    if thorough {
        jobs.push(("four futures", job(4, 2, false, 1, false, 0)));
    }
    for &n in &[1, 2, 3, 5, 10, 20, 50, 100, 300] {
        for whats in 0..if n > 1 { 5 } else { 3 } {
            for order in 0..if n > 1 { 4 } else { 1 } {
                for wake in 1..3 {
                    for &refusals in &[0, 1, 3, 10, 30, 100, 300, 1000] {
                        if n > 10 && refusals > if thorough { 300 } else { 30 } {
                            continue;
                        }
                        let total = n * refusals as usize;
                        for &end in &[None, Some(total / 2), Some(total), Some(total + n / 2)] {
                            jobs.push((
                                "long waits",
                                Box::new(move |_, k| {
                                    let _guard = tp::set_default(executor);
                                    *k += 1;
                                    let script = Script {
                                        outcome: |_| Outcome::Ok,
                                        wake,
                                        order,
                                        drop_after: None,
                                    };
                                    long_run(n, whats, refusals, script, end)
                                        .err()
                                        .map(|e| json!({"futures": n, "refusals of each": refusals, "closures": whats, "order": order, "wake": wake, "answers before shutdown": end, "message": e}))
                                }),
                            ));
                        }
                    }
                }
            }
        }
    }
    for what in 0..3 {
        jobs.push((
            "no executor",
            Box::new(move |_, n| {
                *n += 2;
                without(what).err().map(|e| json!({ "message": e }))
            }),
        ));
    }
    for n in 1..=if thorough { 6 } else { 4 } {
        for room in 1..=n {
            for mask in 0..1u32 << n {
                jobs.push((
                    "thread pool",
                    Box::new(move |_, k| {
                        *k += 1;
                        let whats: Vec<u32> = (0..n).map(|i| mask >> i & 1).collect();
                        on_pool(n, room, &whats).err().map(|e| json!({"futures": n, "room": room, "outcomes": whats, "message": e}))
                    }),
                ));
            }
        }
    }
    par::run(&jobs)
}
