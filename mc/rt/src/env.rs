//! The environment of asynchronous code: guards, body decoders, body streams and handlers whose
//! readiness and outcome are decided by the explorer, and an executor that polls on notification.

use crate::drive::{panic_text, Flag};
use crate::explore::{choose, deviate, step};
use hyperdrive::futures::executor::{spawn, NotifyHandle};
use hyperdrive::futures::task::{self, Task};
use hyperdrive::futures::{Async, Future, Poll, Stream};
use hyperdrive::{http, hyper, BoxedError};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Weak};

pub type Id = u32;

/// Seconds that pass when something isn't ready.
const LONG: i64 = 86_400;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// Something was called; with what it saw.
    Call(Id, String),
    Poll(Id),
    Done(Id),
    PollAfterEnd(Id),
    Dropped(Id),
    BodyPoll,
    BodyEnd,
    TopPoll,
    Signal(Id),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Outcome {
    Ok,
    /// An error type of the user.
    Foreign,
    /// The library's error type with this status (405: allows TRACE).
    Lib(u16),
    /// Panics when polled.
    Panic,
    /// Panics when called.
    PanicCall,
    /// A foreign error caused by one of the library's errors.
    Wrapped,
    /// The library's error type made in another way (see `LIB_WAYS`).
    LibBy(u8, u16),
    /// Another error type (see `FOREIGN_WAYS`).
    ForeignBy(u8),
}

/// Ways to make the library's error: no source; sources that are text, an I/O error, errors of the library (one
/// or two deep, with methods), other errors caused by it; then 405 allowing nothing, or several methods.
pub const LIB_WAYS: u8 = 8;
pub const LIB_405_WAYS: u8 = 10;
/// Errors that aren't the library's but contain one.
pub const FOREIGN_WAYS: u8 = 4;

/// The methods an error made by `make_error` allows.
pub fn allowed_by(o: Outcome) -> Vec<&'static str> {
    match o {
        Outcome::Lib(405) => vec!["TRACE"],
        Outcome::LibBy(9, 405) => vec!["PUT", "GET", "PATCH"],
        _ => vec![],
    }
}

/// The user's error type.
#[derive(Debug)]
pub struct ForeignErr(pub Id);
impl fmt::Display for ForeignErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "error of item {}", self.0)
    }
}
impl std::error::Error for ForeignErr {}

/// A user's error whose source is the library's error.
#[derive(Debug)]
pub struct WrappedErr(pub Id, pub hyperdrive::Error);
impl fmt::Display for WrappedErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "wrapping error of item {}", self.0)
    }
}
impl std::error::Error for WrappedErr {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&self.1)
    }
}

/// Panic payload of explored items.
#[derive(Debug, PartialEq, Clone, Copy)]
pub struct Payload(pub Id);

/// Panics with a payload that identifies the item; its type varies.
pub fn throw(id: Id) -> ! {
    thread_local! {
        static STRS: RefCell<BTreeMap<Id, &'static str>> = RefCell::new(BTreeMap::new());
    }
    match id % 3 {
        0 => std::panic::panic_any(Payload(id)),
        1 => {
            let s: &'static str = crate::heap::uncounted(|| STRS.with(|m| *m.borrow_mut().entry(id).or_insert_with(|| Box::leak(id.to_string().into_boxed_str()))));
            std::panic::panic_any(s)
        }
        _ => std::panic::panic_any(id.to_string()),
    }
}

/// The item a payload belongs to, if it's of the type `throw` uses for it.
pub fn thrown(p: &(dyn std::any::Any + Send)) -> Option<Id> {
    let (id, kind) = if let Some(Payload(i)) = p.downcast_ref::<Payload>() {
        (*i, 0)
    } else if let Some(s) = p.downcast_ref::<&'static str>() {
        (s.parse().ok()?, 1)
    } else {
        (p.downcast_ref::<String>()?.parse().ok()?, 2)
    };
    if id % 3 == kind {
        Some(id)
    } else {
        None
    }
}

pub fn make_error(id: Id, o: Outcome) -> BoxedError {
    match o {
        Outcome::Foreign => Box::new(ForeignErr(id)),
        Outcome::Lib(405) => hyperdrive::Error::wrong_method(&[&http::Method::TRACE][..]).into(),
        Outcome::Lib(s) => {
            hyperdrive::Error::with_source(http::StatusCode::from_u16(s).unwrap(), ForeignErr(id)).into()
        }
        Outcome::LibBy(k, s) => {
            use hyperdrive::Error;
            let s = http::StatusCode::from_u16(s).unwrap();
            let not_found = http::StatusCode::NOT_FOUND;
            match k {
                0 => Error::from_status(s),
                1 => Error::with_source(s, "text"),
                2 => Error::with_source(s, std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "eof")),
                3 => Error::with_source(s, Error::from_status(not_found)),
                4 => Error::with_source(s, Error::with_source(http::StatusCode::BAD_GATEWAY, Error::with_source(not_found, ForeignErr(id)))),
                5 => Error::with_source(s, Error::wrong_method(&[&http::Method::PATCH][..])),
                6 => Error::with_source(s, WrappedErr(id, Error::from_status(not_found))),
                7 => Error::with_source(s, Box::new(Error::from_status(not_found)) as BoxedError),
                8 => Error::wrong_method(&[][..]),
                _ => Error::wrong_method(vec![&http::Method::PUT, &http::Method::GET, &http::Method::PATCH]),
            }
            .into()
        }
        Outcome::ForeignBy(k) => foreign(id, k),
        Outcome::Wrapped => Box::new(WrappedErr(id, hyperdrive::Error::from_status(http::StatusCode::NOT_FOUND))),
        _ => unreachable!(),
    }
}

fn foreign(id: Id, k: u8) -> BoxedError {
    use hyperdrive::Error;
    let gone = http::StatusCode::GONE;
    match k {
        0 => Box::new(std::io::Error::new(std::io::ErrorKind::Other, WrappedErr(id, Error::from_status(gone)))),
        1 => Box::new(std::io::Error::new(std::io::ErrorKind::Other, Error::with_source(gone, ForeignErr(id)))),
        2 => Box::new(WrappedErr(id, Error::wrong_method(&[&http::Method::PUT][..]))),
        _ => Box::new(WrappedErr(id, Error::with_source(gone, Error::from_status(gone)))),
    }
}

/// Whether an error is the one `make_error(id, ForeignBy(k))` gave.
pub fn is_foreign(id: Id, k: u8, e: &BoxedError) -> bool {
    use hyperdrive::Error;
    use std::error::Error as _;
    match k {
        0 => e.downcast_ref::<std::io::Error>().and_then(|e| e.get_ref()).and_then(|e| e.downcast_ref::<WrappedErr>()).map_or(false, |w| w.0 == id && w.1.http_status() == 410),
        1 => e
            .downcast_ref::<std::io::Error>()
            .and_then(|e| e.get_ref())
            .and_then(|e| e.downcast_ref::<Error>())
            .and_then(|e| std::error::Error::source(e))
            .and_then(|e| e.downcast_ref::<ForeignErr>())
            .map_or(false, |f| f.0 == id),
        2 => e.downcast_ref::<WrappedErr>().map_or(false, |w| w.0 == id && w.1.allowed_methods() == Some(&[&http::Method::PUT][..])),
        _ => e.downcast_ref::<WrappedErr>().map_or(false, |w| w.0 == id && w.source().and_then(|s| s.source()).map_or(false, |s| s.is::<Error>())),
    }
}

#[derive(Clone)]
pub enum Mode {
    /// Readiness and outcomes are explored.
    Explore,
    /// Everything is ready at once; outcomes are as given (default: ok).
    Immediate(BTreeMap<Id, Outcome>),
    /// As `Immediate`, but items aren't ready at first and are woken up by another thread.
    Threaded(BTreeMap<Id, Outcome>),
    /// As `Immediate`, but items get ready by means of the runtime (see `runtime::resource`).
    Runtime(u32, BTreeMap<Id, Outcome>),
    /// Everything is laid down: a long execution without decisions.
    Script(Script),
}

/// Outcomes, readiness and order of a long execution.
#[derive(Clone, Copy)]
pub struct Script {
    pub outcome: fn(Id) -> Outcome,
    /// How items that aren't ready are woken: 1 signalled, 2 at once, 3 by a thread; 0: everything is ready.
    pub wake: u32,
    /// The number of polls after which the future is dropped.
    pub drop_after: Option<usize>,
    /// Which of the possible steps is next: 0 the first, 1 the last, 2 the one in the middle, 3 the first and last in turn;
    /// or `EXPLORED`. (When a single future is run, this is explored anyway, unless it is `LAID_DOWN` more.)
    pub order: u32,
}

/// The order is explored although the rest is laid down.
pub const EXPLORED: u32 = 9;
/// Added to the order that a single future is to be run in.
pub const LAID_DOWN: u32 = 10;

impl Script {
    fn pick(&self, n: usize, step: usize) -> usize {
        match self.order % LAID_DOWN {
            0 => 0,
            1 => n - 1,
            2 => n / 2,
            _ => {
                if step % 2 == 0 {
                    0
                } else {
                    n - 1
                }
            }
        }
    }
}

#[derive(Clone)]
pub struct Cfg {
    pub mode: Mode,
    /// Outcomes offered besides success.
    pub failures: Vec<Outcome>,
    /// Not-ready answers per item.
    pub pendings: u32,
    /// Whether items may also ask to be polled again at once.
    pub self_notify: bool,
    /// Not-ready answers and chunks of the body stream.
    pub body_pendings: u32,
    /// Whether to consider dropping the future early.
    pub drops: bool,
    /// Not-ready answers in all.
    pub pend_budget: u32,
    /// Whether to find out what's left over.
    pub track: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            mode: Mode::Explore,
            failures: vec![],
            pendings: 0,
            self_notify: false,
            body_pendings: 0,
            drops: false,
            pend_budget: 1000,
            track: false,
        }
    }
}

struct Waiter {
    id: Id,
    task: Task,
    signaled: Arc<AtomicBool>,
}

#[derive(Default)]
pub struct World {
    pub cfg: Cfg,
    pub log: Vec<Ev>,
    waiters: Vec<Waiter>,
    pub outcomes: BTreeMap<Id, Outcome>,
    alive: Vec<Weak<(Id, &'static str)>>,
    lasting: Vec<Weak<(Id, &'static str)>>,
}

thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
}

pub fn reset(cfg: Cfg) {
    W.with(|w| {
        *w.borrow_mut() = World {
            cfg,
            ..World::default()
        }
    });
}

pub fn log(e: Ev) {
    // (during thread teardown there is nothing to log to)
    let _ = W.try_with(|w| w.borrow_mut().log.push(e));
}

pub fn take_log() -> Vec<Ev> {
    W.with(|w| std::mem::replace(&mut w.borrow_mut().log, vec![]))
}

pub fn outcomes() -> BTreeMap<Id, Outcome> {
    W.with(|w| w.borrow().outcomes.clone())
}

pub fn take_outcomes() -> BTreeMap<Id, Outcome> {
    W.with(|w| std::mem::replace(&mut w.borrow_mut().outcomes, BTreeMap::new()))
}

pub fn with_cfg<T>(f: impl FnOnce(&Cfg) -> T) -> T {
    W.with(|w| f(&w.borrow().cfg))
}

/// Part of something of which nothing may be left over when what it belongs to is over.
pub struct Alive(Option<Arc<(Id, &'static str)>>);

pub fn alive(what: &'static str, id: Id) -> Alive {
    Alive(W.with(|w| {
        let mut w = w.borrow_mut();
        if !w.cfg.track {
            return None;
        }
        let a = Arc::new((id, what));
        if w.alive.len() == w.alive.capacity() {
            w.alive.retain(|a| a.strong_count() > 0);
        }
        w.alive.push(Arc::downgrade(&a));
        Some(a)
    }))
}

fn those_left(v: &mut Vec<Weak<(Id, &'static str)>>) -> Vec<(Id, &'static str)> {
    v.retain(|a| a.strong_count() > 0);
    v.iter().filter_map(|a| a.upgrade()).map(|a| *a).collect()
}

/// What is left over of all that was made since the last call of `lasting`.
pub fn left_over() -> Vec<(Id, &'static str)> {
    W.with(|w| those_left(&mut w.borrow_mut().alive))
}

/// What there is now isn't left over until the end.
pub fn lasting() {
    W.with(|w| {
        let mut w = w.borrow_mut();
        let a = std::mem::replace(&mut w.alive, vec![]);
        w.lasting.retain(|a| a.strong_count() > 0);
        w.lasting.extend(a.into_iter().filter(|a| a.strong_count() > 0));
    })
}

/// What is left over at the end.
pub fn left_over_at_last() -> Vec<(Id, &'static str)> {
    lasting();
    W.with(|w| those_left(&mut w.borrow_mut().lasting))
}

/// Decides the outcome of an item.
pub fn decide(label: &'static str, id: Id) -> Outcome {
    decide_if(label, id, |_| true)
}

/// Decides the outcome of an item for which only some failures are possible.
pub fn decide_if(label: &'static str, id: Id, possible: impl Fn(Outcome) -> bool) -> Outcome {
    W.with(|w| {
        let mut w = w.borrow_mut();
        let o = match &w.cfg.mode {
            Mode::Explore => {
                let f = &w.cfg.failures;
                match choose(label, 1 + f.iter().filter(|o| possible(**o)).count()) {
                    0 => Outcome::Ok,
                    n => *f.iter().filter(|o| possible(**o)).nth(n - 1).unwrap(),
                }
            }
            Mode::Immediate(m) | Mode::Threaded(m) | Mode::Runtime(_, m) => m.get(&id).cloned().unwrap_or(Outcome::Ok),
            Mode::Script(s) => match (s.outcome)(id) {
                o if possible(o) => o,
                _ => Outcome::Ok,
            },
        };
        w.outcomes.insert(id, o);
        o
    })
}

enum St {
    Idle,
    Waiting(Arc<AtomicBool>),
    Runtime(Box<dyn Future<Item = (), Error = String> + Send>),
    Ended,
}

/// Readiness of an item.
pub struct Ready {
    id: Id,
    left: u32,
    st: St,
}

impl Ready {
    pub fn new(id: Id, pendings: u32) -> Ready {
        Ready {
            id,
            left: pendings,
            st: St::Idle,
        }
    }

    /// Not-ready answers it may still give.
    pub fn left(&self) -> u32 {
        self.left
    }

    /// Whether the item is ready now; registers the current task if it isn't.
    pub fn poll(&mut self) -> bool {
        match &mut self.st {
            St::Ended => panic!("polled readiness after it ended"),
            St::Runtime(f) => match f.poll() {
                Ok(Async::NotReady) => return false,
                Ok(Async::Ready(())) => {}
                Err(e) => panic!("no runtime: {}", e),
            },
            St::Waiting(s) if !s.load(Ordering::SeqCst) => {
                // spurious poll: stay registered, with the new task
                let (id, s) = (self.id, s.clone());
                self.register(id, s);
                return false;
            }
            _ => {}
        }
        let pick = W.with(|w| {
            let c = &mut w.borrow_mut().cfg;
            match c.mode {
                Mode::Immediate(_) => 0,
                Mode::Threaded(_) => {
                    if self.left > 0 {
                        3
                    } else {
                        0
                    }
                }
                Mode::Runtime(way, _) => {
                    if self.left > 0 {
                        4 + (way + self.id) % 3
                    } else {
                        0
                    }
                }
                Mode::Script(s) => {
                    if self.left > 0 {
                        s.wake
                    } else {
                        0
                    }
                }
                Mode::Explore => {
                    if self.left == 0 || c.pend_budget == 0 {
                        0
                    } else {
                        let n = choose("ready/wait/yield", if c.self_notify { 3 } else { 2 }) as u32;
                        if n > 0 {
                            c.pend_budget -= 1;
                        }
                        n
                    }
                }
            }
        });
        if pick != 0 {
            crate::clock::advance(LONG);
        }
        match pick {
            0 => {
                self.st = St::Ended;
                true
            }
            1 => {
                self.left -= 1;
                let s = Arc::new(AtomicBool::new(false));
                self.st = St::Waiting(s.clone());
                let id = self.id;
                self.register(id, s);
                false
            }
            4..=6 => {
                self.left -= 1;
                self.st = St::Runtime(crate::runtime::resource(pick - 4));
                self.poll()
            }
            2 => {
                self.left -= 1;
                self.st = St::Idle;
                task::current().notify();
                false
            }
            _ => {
                self.left -= 1;
                let s = Arc::new(AtomicBool::new(false));
                self.st = St::Waiting(s.clone());
                let t = task::current();
                std::thread::spawn(move || {
                    s.store(true, Ordering::SeqCst);
                    t.notify();
                });
                false
            }
        }
    }

    fn register(&self, id: Id, signaled: Arc<AtomicBool>) {
        W.with(|w| {
            let mut w = w.borrow_mut();
            w.waiters.retain(|x| !Arc::ptr_eq(&x.signaled, &signaled));
            w.waiters.push(Waiter {
                id,
                task: task::current(),
                signaled,
            });
        });
    }
}

impl Drop for Ready {
    fn drop(&mut self) {
        if let St::Waiting(s) = &self.st {
            let _ = W.try_with(|w| w.borrow_mut().waiters.retain(|x| !Arc::ptr_eq(&x.signaled, s)));
        }
    }
}

/// Future of an explored item.
pub struct Dyn<T> {
    pub id: Id,
    outcome: Outcome,
    ready: Ready,
    value: Option<T>,
    ended: bool,
    _alive: Alive,
}

impl<T> Dyn<T> {
    pub fn new(id: Id, outcome: Outcome, value: T) -> Self {
        Dyn {
            id,
            outcome,
            ready: Ready::new(id, with_cfg(|c| c.pendings)),
            value: Some(value),
            ended: false,
            _alive: alive("future", id),
        }
    }
}

impl<T> Future for Dyn<T> {
    type Item = T;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<T, BoxedError> {
        step();
        if self.ended {
            log(Ev::PollAfterEnd(self.id));
            panic!("item {} polled after it ended", self.id);
        }
        log(Ev::Poll(self.id));
        if !self.ready.poll() {
            return Ok(Async::NotReady);
        }
        self.ended = true;
        log(Ev::Done(self.id));
        match self.outcome {
            Outcome::Ok => Ok(Async::Ready(self.value.take().unwrap())),
            Outcome::Panic => throw(self.id),
            o => Err(make_error(self.id, o)),
        }
    }
}

impl<T> Drop for Dyn<T> {
    fn drop(&mut self) {
        log(Ev::Dropped(self.id));
    }
}

/// Body whose polls are logged and explored; yields `chunks`.
pub struct LogBody {
    chunks: Vec<Vec<u8>>,
    ready: Ready,
    ended: bool,
    _alive: Alive,
}

pub const BODY_ID: Id = 1000;
pub const LOG_BODY: &str = "stream";

pub fn log_body(chunks: &[&[u8]]) -> hyper::Body {
    hyper::Body::wrap_stream(LogBody {
        chunks: chunks.iter().rev().map(|c| c.to_vec()).collect(),
        ready: Ready::new(BODY_ID, with_cfg(|c| c.body_pendings)),
        ended: false,
        _alive: alive(LOG_BODY, BODY_ID),
    })
}

impl Stream for LogBody {
    type Item = Vec<u8>;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<Option<Vec<u8>>, BoxedError> {
        step();
        log(Ev::BodyPoll);
        if self.ended {
            log(Ev::PollAfterEnd(BODY_ID));
            return Ok(Async::Ready(None));
        }
        if !self.ready.poll() {
            return Ok(Async::NotReady);
        }
        let left = self.ready.left;
        self.ready = Ready::new(BODY_ID, left);
        match self.chunks.pop() {
            Some(c) => Ok(Async::Ready(Some(c))),
            None => {
                self.ended = true;
                log(Ev::BodyEnd);
                Ok(Async::Ready(None))
            }
        }
    }
}

#[derive(Debug)]
pub enum End<T> {
    Done(Result<T, BoxedError>),
    Panicked(Box<dyn std::any::Any + Send>),
    /// Dropped early by decision of the explorer.
    Dropped,
    Stalled(String),
}

impl<T> End<T> {
    pub fn panic_message(p: &(dyn std::any::Any + Send)) -> String {
        match thrown(p) {
            Some(i) => format!("payload of item {}", i),
            None => panic_text(p),
        }
    }
}

/// Signals one waiting item. Returns false if none waits.
pub fn signal_one(pick: impl FnOnce(usize) -> usize) -> bool {
    let w = W.with(|w| {
        let mut w = w.borrow_mut();
        if w.waiters.is_empty() {
            None
        } else {
            let i = pick(w.waiters.len());
            Some(w.waiters.remove(i))
        }
    });
    match w {
        None => false,
        Some(w) => {
            log(Ev::Signal(w.id));
            w.signaled.store(true, Ordering::SeqCst);
            w.task.notify();
            true
        }
    }
}

pub fn waiting() -> usize {
    W.with(|w| w.borrow().waiters.len())
}

/// Runs a future to completion (or to its early drop).
pub fn run<F: Future<Error = BoxedError>>(make: impl FnOnce() -> F) -> End<F::Item> {
    step();
    let fut = match catch_unwind(AssertUnwindSafe(make)) {
        Ok(f) => f,
        Err(p) => return End::Panicked(p),
    };
    let drops = with_cfg(|c| c.drops);
    let drop_after = with_cfg(|c| match c.mode {
        Mode::Script(s) => s.drop_after,
        _ => None,
    });
    let flag = Arc::new(Flag::default());
    let mut task = spawn(fut);
    let mut notified = true;
    let mut polls = 0;
    loop {
        if drop_after == Some(polls) || drops && deviate("go on/drop", 2) == 1 {
            drop(task);
            return End::Dropped;
        }
        if !notified && deviate("wait/poll anyway", 2) == 0 {
            let laid_down = with_cfg(|c| match c.mode {
                Mode::Script(s) if s.order >= LAID_DOWN => Some(s),
                _ => None,
            });
            if !signal_one(|n| laid_down.map_or_else(|| choose("signal which", n), |s| s.pick(n, polls))) {
                return End::Stalled("not ready, nothing to wait for, and no wakeup requested".into());
            }
            if flag.0.load(Ordering::SeqCst) == 0 {
                return End::Stalled("the item waited for was signalled, but the task wasn't woken".into());
            }
        }
        flag.0.store(0, Ordering::SeqCst);
        polls += 1;
        if polls > 5000 {
            return End::Stalled("polled 5000 times".into());
        }
        step();
        log(Ev::TopPoll);
        let h = NotifyHandle::from(flag.clone());
        match catch_unwind(AssertUnwindSafe(|| task.poll_future_notify(&h, 0))) {
            Err(p) => {
                // dropping what's left must be safe, too
                let _ = catch_unwind(AssertUnwindSafe(move || drop(task)));
                return End::Panicked(p);
            }
            Ok(Ok(Async::Ready(v))) => return End::Done(Ok(v)),
            Ok(Err(e)) => return End::Done(Err(e)),
            Ok(Ok(Async::NotReady)) => notified = flag.0.load(Ordering::SeqCst) > 0,
        }
    }
}

/// Sets whether to consider dropping futures; returns the previous setting.
pub fn set_drops(drops: bool) -> bool {
    W.with(|w| std::mem::replace(&mut w.borrow_mut().cfg.drops, drops))
}

/// Runs several futures at once: which one starts, is polled or is signalled next is explored.
/// `switch` is told which one is about to run.
pub fn run_many<F: Future<Error = BoxedError>>(makes: Vec<Box<dyn FnOnce() -> F>>, mut switch: impl FnMut(usize)) -> Vec<End<F::Item>> {
    enum T<F: Future> {
        New(Box<dyn FnOnce() -> F>),
        Running(hyperdrive::futures::executor::Spawn<F>, Arc<Flag>),
        Ended(End<F::Item>),
        Gone,
    }
    let drops = with_cfg(|c| c.drops);
    let script = with_cfg(|c| match c.mode {
        Mode::Script(s) => Some(s),
        _ => None,
    });
    let most = 2000 * makes.len();
    let mut steps = 0;
    let mut tasks: Vec<T<F>> = makes.into_iter().map(T::New).collect();
    let mut polls = 0;
    loop {
        // those that can run without anything being signalled
        let mut enabled = vec![];
        let mut running = vec![];
        for (i, t) in tasks.iter().enumerate() {
            match t {
                T::New(_) => enabled.push(i),
                T::Running(_, f) => {
                    running.push(i);
                    if f.0.load(Ordering::SeqCst) > 0 {
                        enabled.push(i);
                    }
                }
                _ => {}
            }
        }
        if enabled.is_empty() && running.is_empty() {
            return tasks
                .into_iter()
                .map(|t| match t {
                    T::Ended(e) => e,
                    _ => unreachable!(),
                })
                .collect();
        }
        if drops && !running.is_empty() && deviate("go on/drop", 2) == 1 {
            let i = running[choose("drop which", running.len())];
            switch(i);
            tasks[i] = T::Gone;
            tasks[i] = T::Ended(End::Dropped);
            continue;
        }
        let signals = waiting();
        let n = enabled.len() + signals;
        if n == 0 {
            // nobody can go on
            for t in &mut tasks {
                if let T::Running(..) = t {
                    *t = T::Ended(End::Stalled("not ready, nothing to wait for, and no wakeup requested".into()));
                }
            }
            continue;
        }
        let pick = match script {
            Some(s) if s.order != EXPLORED => s.pick(n, steps),
            _ => choose("what next", n),
        };
        steps += 1;
        if pick >= enabled.len() {
            signal_one(|_| pick - enabled.len());
            continue;
        }
        let i = enabled[pick];
        polls += 1;
        assert!(polls < most, "livelock");
        switch(i);
        step();
        match std::mem::replace(&mut tasks[i], T::Gone) {
            T::New(f) => {
                tasks[i] = match catch_unwind(AssertUnwindSafe(f)) {
                    Ok(f) => {
                        let flag = Arc::new(Flag::default());
                        flag.0.store(1, Ordering::SeqCst);
                        T::Running(spawn(f), flag)
                    }
                    Err(p) => T::Ended(End::Panicked(p)),
                };
            }
            T::Running(mut task, flag) => {
                flag.0.store(0, Ordering::SeqCst);
                let h = NotifyHandle::from(flag.clone());
                tasks[i] = match catch_unwind(AssertUnwindSafe(|| task.poll_future_notify(&h, 0))) {
                    Err(p) => {
                        let _ = catch_unwind(AssertUnwindSafe(move || drop(task)));
                        T::Ended(End::Panicked(p))
                    }
                    Ok(Ok(Async::Ready(v))) => T::Ended(End::Done(Ok(v))),
                    Ok(Err(e)) => T::Ended(End::Done(Err(e))),
                    Ok(Ok(Async::NotReady)) => T::Running(task, flag),
                };
            }
            _ => unreachable!(),
        }
    }
}
