//! P08 and P10: explores all outcomes and schedules of guards and bodies in generated programs.

use crate::drive::quiet_panics;
use crate::env::*;
use crate::explore::{self, Stats};
use crate::shard::error_out;
use crate::types::Ext;
use hyperdrive::futures::{Future, Stream};
use hyperdrive::{http, hyper, BoxedError, DefaultFuture, FromBody, FromRequest, Guard, NoContext};
use model::refer::{self, Out, Req, Step};
use model::{emit, families};
use serde_json::json;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

pub const BODY: Id = 100;

/// What a guard or body decoder sees of a request.
pub fn seen(req: &http::Request<()>) -> String {
    let h: Vec<String> = req.headers().iter().map(|(k, v)| format!("{}={}{}", k, String::from_utf8_lossy(v.as_bytes()), if v.is_sensitive() { " (sensitive)" } else { "" })).collect();
    format!("{} {} {:?} {:?} {}", req.method(), req.uri(), req.version(), h, req.extensions().get::<Ext>().map_or(0, |e| e.0))
}

/// Explored guard.
pub struct GDyn<const N: u8>;
impl<const N: u8> fmt::Debug for GDyn<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "GDyn{}", N)
    }
}
impl<const N: u8> Guard for GDyn<N> {
    type Context = NoContext;
    type Result = Dyn<Self>;
    fn from_request(req: &Arc<http::Request<()>>, _: &NoContext) -> Dyn<Self> {
        explore::step();
        let id = N as Id;
        log(Ev::Call(id, seen(req)));
        Dyn::new(id, decide("guard", id), GDyn)
    }
}

macro_rules! aliases { ($($g:ident $n:literal)*) => { $( pub type $g = GDyn<$n>; )* }; }
aliases!(GDyn0 0 GDyn1 1 GDyn2 2 GDyn3 3 GDyn4 4 GDyn5 5 GDyn6 6 GDyn7 7 GDyn8 8 GDyn9 9 GDyn10 10 GDyn11 11 GDyn12 12 GDyn13 13 GDyn14 14 GDyn15 15
    GDyn16 16 GDyn17 17 GDyn18 18 GDyn19 19);

/// Explored body decoder; reads the body once it's ready.
pub struct BodyDyn(Vec<u8>);
impl fmt::Debug for BodyDyn {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.0 == b"body" {
            write!(f, "BodyDyn")
        } else {
            write!(f, "BodyDyn(wrong: {:?})", self.0)
        }
    }
}
impl FromBody for BodyDyn {
    type Context = NoContext;
    type Result = DefaultFuture<Self, BoxedError>;
    fn from_body(req: &Arc<http::Request<()>>, body: hyper::Body, _: &NoContext) -> Self::Result {
        explore::step();
        log(Ev::Call(BODY, seen(req)));
        Box::new(
            Dyn::new(BODY, decide("body", BODY), ())
                .and_then(|()| body.concat2().map_err(Into::into))
                .map(|c| BodyDyn(c.to_vec())),
        )
    }
}

#[derive(Clone, Copy)]
pub struct Fns {
    run: fn(http::Request<hyper::Body>) -> End<String>,
    sync: fn(http::Request<hyper::Body>) -> Result<String, BoxedError>,
}

pub type DynDecoder = (Fns,);

pub fn decoder<T: FromRequest<Context = NoContext> + fmt::Debug>() -> Fns {
    Fns {
        run: |req| match run(move || T::from_request(req, NoContext)) {
            End::Done(r) => End::Done(r.map(|v| format!("{:?}", v))),
            End::Panicked(p) => End::Panicked(p),
            End::Dropped => End::Dropped,
            End::Stalled(s) => End::Stalled(s),
        },
        sync: |req| T::from_request_sync(req, NoContext).map(|v| format!("{:?}", v)),
    }
}

/// In the extensions of requests.
struct AliveHead(#[allow(dead_code)] Alive);

fn request(r: &Req) -> http::Request<hyper::Body> {
    let mut b = http::Request::builder();
    b.method(r.method.as_bytes()).uri(&r.target[..]).header("k", "v").extension(Ext(7)).extension(AliveHead(alive("request head", 0)));
    b.body(log_body(&[b"bo", b"", b"dy"])).unwrap()
}

fn out_of(r: Result<String, BoxedError>) -> Out {
    match r {
        Ok(s) => Out::Ok(s),
        Err(e) => error_out(&e),
    }
}

fn failure(id: Id, o: Outcome) -> Option<Out> {
    match o {
        Outcome::Ok => None,
        Outcome::Foreign => Some(Out::Other(format!("foreign {}", id))),
        Outcome::Lib(405) => Some(Out::Err {
            status: 405,
            allowed: Some(vec!["TRACE".to_string()].into_iter().collect()),
            source: None,
        }),
        Outcome::Lib(status) => Some(Out::Err {
            status,
            allowed: None,
            source: Some(format!("error of item {}", id)),
        }),
        Outcome::Panic => Some(Out::Panic(format!("payload of item {}", id))),
        Outcome::PanicCall | Outcome::Wrapped | Outcome::LibBy(..) | Outcome::ForeignBy(_) => unreachable!(),
    }
}

fn step_id(s: &Step) -> Id {
    match s {
        Step::Guard(n) => *n as Id,
        Step::Body => BODY,
    }
}

/// Checks the log of one execution against the reference.
fn judge(case: &families::Case, req: &Req, end: &End<String>, log: &[Ev], outcomes: &BTreeMap<Id, Outcome>) -> Result<(), String> {
    let main = case.module.types.len() - 1;
    let mut steps: Vec<Id> = vec![];
    let dropped = if let End::Dropped = end { true } else { false };
    let want = refer::decode_env(&case.module, main, req, &mut |s| {
        let id = step_id(&s);
        steps.push(id);
        failure(id, outcomes.get(&id).cloned().unwrap_or(Outcome::Ok))
    })
    .out;
    // order and gating
    let expect_seen = {
        let (parts, _) = request(req).into_parts();
        seen(&http::Request::from_parts(parts, ()))
    };
    let mut calls = vec![];
    let mut done: Vec<Id> = vec![];
    let mut body_called = false;
    for e in log {
        match e {
            Ev::Call(id, s) => {
                if let Some(prev) = calls.last() {
                    if !done.contains(prev) {
                        return Err(format!("item {} evaluated before item {} was done", id, prev));
                    }
                    if outcomes.get(prev) != Some(&Outcome::Ok) {
                        return Err(format!("item {} evaluated after item {} failed", id, prev));
                    }
                }
                if *s != expect_seen {
                    return Err(format!("item {} saw the request {:?} instead of {:?}", id, s, expect_seen));
                }
                calls.push(*id);
                body_called |= *id == BODY;
            }
            Ev::Poll(id) => {
                if calls.last() != Some(id) {
                    return Err(format!("item {} polled out of turn", id));
                }
            }
            Ev::Done(id) => done.push(*id),
            Ev::PollAfterEnd(id) => return Err(format!("item {} polled after it ended", id)),
            Ev::BodyPoll => {
                if !body_called || !done.contains(&BODY) {
                    return Err("the body was read before its decoder asked for it".into());
                }
            }
            _ => {}
        }
    }
    if dropped {
        if !steps.starts_with(&calls) {
            return Err(format!("evaluated {:?}, which isn't a prefix of {:?}", calls, steps));
        }
        return Ok(());
    }
    if calls != steps {
        return Err(format!("evaluated {:?} instead of {:?}", calls, steps));
    }
    let got = match end {
        End::Done(Ok(s)) => Out::Ok(s.clone()),
        End::Done(Err(e)) => error_out(e),
        End::Panicked(p) => Out::Panic(End::<()>::panic_message(&**p)),
        End::Stalled(s) => return Err(format!("stalled: {}", s)),
        End::Dropped => unreachable!(),
    };
    if !crate::shard::agrees(&want, &got) {
        return Err(format!("result is {:?} instead of {:?}", got, want));
    }
    Ok(())
}

/// How items are woken, and how often they aren't ready: asynchronous (even numbers) and synchronous.
const LONG: &[(u32, u32)] = &[(1, 10), (1, 50), (1, 400), (2, 10), (2, 70), (2, 400), (2, 11), (2, 71), (2, 401), (3, 9), (3, 41), (3, 151)];

static BEAT: AtomicU64 = AtomicU64::new(0);

/// Reports a hang if nothing happens for a long time.
fn watchdog(what: Arc<std::sync::Mutex<String>>) {
    std::thread::spawn(move || {
        let mut last = 0;
        loop {
            std::thread::sleep(Duration::from_secs(20));
            let now = BEAT.load(Ordering::SeqCst);
            if now == last {
                println!(
                    "{}",
                    json!({"states": 0, "transitions": 0, "runs": 0, "violations": 1,
                           "details": [{"message": "the synchronous entry point hangs", "case": *what.lock().unwrap()}]})
                );
                std::process::exit(0);
            }
            last = now;
        }
    });
}

pub fn dyn_main(fam: &str, tier: &str, shard: usize, shards: usize, table: Vec<(usize, Fns)>) {
    quiet_panics();
    let prop = std::env::args().nth(1).expect("usage: <shard> P08|P10|P20 [quick|thorough]");
    let thorough = std::env::args().nth(2).map_or(false, |t| t == "thorough");
    let cases = families::family(fam, tier == "thorough");
    assert!(table.iter().map(|t| t.0).eq((0..cases.len()).filter(|i| i % shards == shard)), "stale shard");
    assert!(crate::clock::works(), "no control over the clock");
    let mut stats = Stats::default();
    let mut details = vec![];
    let mut samples = vec![];
    let (mut syncs, mut compared) = (0u64, 0u64);
    let what = Arc::new(std::sync::Mutex::new(String::new()));
    if prop != "P08" {
        watchdog(what.clone());
    }
    let (cfg, budget) = match (&prop[..], thorough) {
        ("P08", t) => (
            Cfg {
                failures: vec![Outcome::Foreign, Outcome::Lib(403), Outcome::Lib(405)],
                pendings: if t { 2 } else { 1 },
                self_notify: t,
                body_pendings: 1,
                drops: true,
                ..Cfg::default()
            },
            if t { 2 } else { 1 },
        ),
        ("P20", t) => (
            Cfg {
                failures: vec![Outcome::Foreign, Outcome::Panic],
                pendings: 1,
                self_notify: t,
                body_pendings: 1,
                drops: true,
                track: true,
                ..Cfg::default()
            },
            if t { 2 } else { 1 },
        ),
        (_, t) => (
            Cfg {
                failures: vec![Outcome::Foreign],
                pendings: 2,
                self_notify: true,
                body_pendings: if t { 2 } else { 1 },
                drops: false,
                ..Cfg::default()
            },
            if t { 2 } else { 1 },
        ),
    };
    'all: for (i, f) in table {
        let c = &cases[i];
        for req in (c.reqs)() {
            let assignments = Cell::new(std::collections::BTreeSet::<Vec<(Id, Outcome)>>::new());
            // many guards have too many schedules for all bounds at once
            let items = c.module.types.iter().map(|p| p.variants.iter().map(|v| v.fields.len()).max().unwrap_or(0)).sum::<usize>();
            let mut cfg = cfg.clone();
            let mut budget = budget;
            if prop == "P10" && (items > 6 || c.family == "nested") && !thorough {
                cfg.pendings = 1;
                cfg.body_pendings = 0;
            }
            if c.family == "many-guards" {
                cfg.pendings = if items > 8 { 0 } else { 1 };
                cfg.body_pendings = 0;
                cfg.self_notify = false;
                budget = if thorough { 1 } else { 0 };
            }
            let v = explore::explore(&mut stats, budget, 3_000_000, || {
                BEAT.fetch_add(1, Ordering::SeqCst);
                reset(cfg.clone());
                let end = (f.run)(request(&req));
                let log = take_log();
                let o = outcomes();
                judge(c, &req, &end, &log, &o)?;
                drop(end);
                let left = left_over();
                if !left.is_empty() {
                    return Err(format!("when decoding was over, these were still there: {:?}", left));
                }
                if prop != "P08" {
                    let key: Vec<(Id, Outcome)> = o.into_iter().collect();
                    let mut a = assignments.take();
                    a.insert(key);
                    assignments.set(a);
                }
                Ok(())
            });
            if let Some(v) = v {
                details.push(json!({
                    "family": fam, "subfamily": c.family, "program": emit::module(&c.module), "request": format!("{:?}", req),
                    "message": v.message, "decisions": v.decisions,
                }));
                if details.len() >= 5 {
                    break 'all;
                }
                continue;
            }
            // P10: the same outcomes with everything ready at once, and through the synchronous entry point
            for a in assignments.into_inner() {
                let m: BTreeMap<Id, Outcome> = a.into_iter().collect();
                let mut results = vec![];
                for mode in if prop == "P20" { 1..2 } else { 0..5 } {
                    if prop == "P20" && m.values().any(|o| *o == Outcome::Panic) {
                        // (the synchronous entry point doesn't go on after panics)
                        continue;
                    }
                    reset(Cfg {
                        track: true,
                        mode: match mode {
                            0 | 1 => Mode::Immediate(m.clone()),
                            2 => Mode::Threaded(m.clone()),
                            _ => Mode::Runtime(mode - 3, m.clone()),
                        },
                        pendings: 1,
                        body_pendings: 1,
                        ..Cfg::default()
                    });
                    BEAT.fetch_add(1, Ordering::SeqCst);
                    if mode > 0 {
                        *what.lock().unwrap() = format!("{:?} {:?} mode {} {}", req, m, mode, emit::module(&c.module));
                    }
                    let end = if mode == 0 {
                        (f.run)(request(&req))
                    } else {
                        syncs += 1;
                        match catch_unwind(AssertUnwindSafe(|| (f.sync)(request(&req)))) {
                            Ok(r) => End::Done(r),
                            Err(p) => End::Panicked(p),
                        }
                    };
                    let log = take_log();
                    let o = outcomes();
                    compared += 1;
                    if let Err(e) = judge(c, &req, &end, &log, &o) {
                        details.push(json!({"program": emit::module(&c.module), "request": format!("{:?}", req), "outcomes": format!("{:?}", m),
                            "entry": (["asynchronous, everything ready", "synchronous, everything ready", "synchronous, woken by threads", "synchronous, woken by the runtime", "synchronous, woken by the runtime"][mode as usize]), "message": e}));
                    }
                    let left = left_over();
                    if prop == "P20" && !left.is_empty() {
                        details.push(json!({"program": emit::module(&c.module), "request": format!("{:?}", req), "outcomes": format!("{:?}", m),
                            "message": format!("when synchronous decoding was over, these were still there: {:?}", left)}));
                    }
                    results.push(match end {
                        End::Done(r) => out_of(r),
                        _ => Out::Panic("not done".into()),
                    });
                }
                if results.iter().any(|r| *r != results[0]) {
                    details.push(json!({"program": emit::module(&c.module), "request": format!("{:?}", req), "outcomes": format!("{:?}", m),
                        "message": format!("entry points disagree: {:?}", results)}));
                }
            }
            // items that aren't ready for long
            if prop == "P10" {
                let outcomes: [fn(Id) -> Outcome; 4] = [
                    |_| Outcome::Ok,
                    |id| if id == 1 { Outcome::Foreign } else { Outcome::Ok },
                    |id| if id == 2 { Outcome::Lib(403) } else { Outcome::Ok },
                    |id| if id == BODY { Outcome::Foreign } else { Outcome::Ok },
                ];
                for (&outcome, &(wake, pendings)) in outcomes.iter().flat_map(|o| LONG.iter().map(move |l| (o, l))) {
                    if wake == 3 && pendings > 50 && items > 3 && !thorough {
                        continue;
                    }
                    reset(Cfg {
                        mode: Mode::Script(Script { outcome, wake, order: 0, drop_after: None }),
                        pendings,
                        body_pendings: pendings,
                        ..Cfg::default()
                    });
                    BEAT.fetch_add(1, Ordering::SeqCst);
                    *what.lock().unwrap() = format!("{:?} not ready {} times (way {}) {}", req, pendings, wake, emit::module(&c.module));
                    compared += 1;
                    let end = if wake < 3 && pendings % 2 == 0 {
                        (f.run)(request(&req))
                    } else {
                        syncs += 1;
                        match catch_unwind(AssertUnwindSafe(|| (f.sync)(request(&req)))) {
                            Ok(r) => End::Done(r),
                            Err(p) => End::Panicked(p),
                        }
                    };
                    let log = take_log();
                    if let Err(e) = judge(c, &req, &end, &log, &crate::env::outcomes()) {
                        details.push(json!({"program": emit::module(&c.module), "request": format!("{:?}", req), "not ready": pendings, "way": wake, "message": e}));
                    }
                }
            }
            if details.len() >= 5 {
                break 'all;
            }
        }
        if samples.len() < 2 {
            samples.push(json!({"program": emit::module(&c.module), "requests": (c.reqs)().len()}));
        }
    }
    println!(
        "{}",
        json!({"states": stats.states, "transitions": stats.transitions, "runs": stats.executions + compared, "executions": stats.executions,
               "diverged": stats.diverged, "truncated": stats.truncated, "synchronous_runs": syncs,
               "violations": details.len(), "details": details, "samples": samples})
    );
}
