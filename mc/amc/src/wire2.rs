//! Services behind hyper's own HTTP/2 connections, over pipes in memory: requests that are in flight together on
//! one connection, bodies that come in frames, errors of one stream among others.

use crate::par::Job;
use crate::wire::*;
use hyperdrive::futures::future::{ExecuteError, Executor};
use hyperdrive::futures::{task, Async, Future, Poll, Stream};
use hyperdrive::hyper::client::conn::{Builder, SendRequest};
use hyperdrive::hyper::server::conn::Http;
use hyperdrive::hyper::service::Service;
use hyperdrive::hyper::{Body, Response};
use hyperdrive::{http, BoxedError};
use rt::env::{self, *};
use rt::explore::{explore, step};
use serde_json::Value;
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::io::{self, Read, Write};
use std::sync::{Arc, Mutex};
use tokio_io::{AsyncRead, AsyncWrite};

// ---------------------------------------------------------------- both ends

#[derive(Default)]
struct Way {
    bytes: Vec<u8>,
    at: usize,
    closed: bool,
    reader: Option<task::Task>,
}

/// One end of a connection; at most `most` bytes are read at a time.
pub struct Duplex {
    from: Arc<Mutex<Way>>,
    to: Arc<Mutex<Way>>,
    most: usize,
}

thread_local! {
    /// Counts what moves through pipes.
    static MOVED: Cell<u64> = Cell::new(0);
    static SPAWNED: RefCell<Vec<Box<dyn Future<Item = (), Error = ()>>>> = RefCell::new(vec![]);
}

fn moved() -> u64 {
    MOVED.try_with(|m| m.replace(m.get() + 1)).unwrap_or(0)
}

fn duplex(most: usize) -> (Duplex, Duplex) {
    let (a, b) = (Arc::new(Mutex::new(Way::default())), Arc::new(Mutex::new(Way::default())));
    (
        Duplex {
            from: a.clone(),
            to: b.clone(),
            most,
        },
        Duplex { from: b, to: a, most },
    )
}

impl Read for Duplex {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut w = self.from.lock().unwrap();
        let n = buf.len().min(self.most).min(w.bytes.len() - w.at);
        if n == 0 {
            if w.closed {
                return Ok(0);
            }
            w.reader = Some(task::current());
            return Err(io::ErrorKind::WouldBlock.into());
        }
        let at = w.at;
        buf[..n].copy_from_slice(&w.bytes[at..at + n]);
        w.at += n;
        if w.at == w.bytes.len() {
            w.bytes.clear();
            w.at = 0;
        }
        moved();
        Ok(n)
    }
}
impl Write for Duplex {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut w = self.to.lock().unwrap();
        w.bytes.extend_from_slice(buf);
        if let Some(t) = w.reader.take() {
            t.notify();
        }
        moved();
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl AsyncRead for Duplex {}
impl AsyncWrite for Duplex {
    fn shutdown(&mut self) -> Poll<(), io::Error> {
        Ok(Async::Ready(()))
    }
}
impl Drop for Duplex {
    fn drop(&mut self) {
        if let Ok(mut w) = self.to.lock() {
            w.closed = true;
            if let Some(t) = w.reader.take() {
                t.notify();
            }
        }
        moved();
    }
}

#[derive(Clone)]
struct Spawn;
impl<F: Future<Item = (), Error = ()> + 'static> Executor<F> for Spawn {
    fn execute(&self, f: F) -> Result<(), ExecuteError<F>> {
        SPAWNED.with(|s| s.borrow_mut().push(Box::new(f)));
        Ok(())
    }
}

struct Serve(Duplex);
impl Connect for Serve {
    fn connect<S>(self, s: S) -> Conn
    where
        S: Service<ReqBody = Body, ResBody = Body> + 'static,
        S::Error: Into<BoxedError>,
        S::Future: Send + 'static,
    {
        Box::new(Http::new().with_executor(Spawn).http2_only(true).serve_connection(self.0, s).map_err(Into::into))
    }
}

type Got = Result<Answer, String>;

/// Client, server and all that they spawn, as one task.
struct Both {
    server: Option<Conn>,
    hands: Option<Box<dyn Future<Item = SendRequest<Body>, Error = String>>>,
    sender: Option<SendRequest<Body>>,
    tasks: Vec<Box<dyn Future<Item = (), Error = ()>>>,
    /// What is to be sent, last first.
    requests: Vec<(usize, http::Request<Body>)>,
    waiting: Vec<(usize, Box<dyn Future<Item = Answer, Error = String>>)>,
    got: Vec<Option<Got>>,
    /// Whether what was spawned last is polled first.
    reverse: bool,
    /// Whether a request is sent only when the one before it has been answered.
    in_turn: bool,
}

fn answer(r: Response<Body>) -> impl Future<Item = Answer, Error = String> {
    let (parts, body) = r.into_parts();
    let mut made_up = None;
    let (mut allow, mut id, mut panic) = (None, None, false);
    for (k, v) in &parts.headers {
        let v = v.to_str().unwrap_or("?");
        match k.as_str() {
            "allow" => {
                let list: Vec<&str> = v.split(',').map(|s| s.trim()).filter(|s| !s.is_empty()).collect();
                let all: BTreeSet<String> = list.iter().map(|s| s.to_string()).collect();
                if all.len() != list.len() || allow.is_some() {
                    made_up = Some(format!("repeated methods in {}", v));
                }
                allow = Some(all);
            }
            "x-id" => id = Some(v.to_string()),
            "x-panic" => panic = true,
            "date" | "content-length" => {}
            _ => made_up = Some(format!("made up header {}: {}", k, v)),
        }
    }
    let status = parts.status.as_u16();
    body.concat2().map_err(|e| format!("the response's body: {}", e)).and_then(move |b| match made_up {
        Some(m) => Err(m),
        None => Ok(Answer {
            status,
            allow,
            id,
            panic,
            body: String::from_utf8_lossy(&b).to_string(),
        }),
    })
}

impl Future for Both {
    type Item = Vec<Option<Got>>;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<Self::Item, BoxedError> {
        loop {
            step();
            let before = MOVED.with(|m| m.get());
            if let Some(mut h) = self.hands.take() {
                match h.poll() {
                    Ok(Async::Ready(s)) => {
                        self.sender = Some(s);
                        moved();
                    }
                    Ok(Async::NotReady) => self.hands = Some(h),
                    Err(e) => return Err(e.into()),
                }
            }
            if let Some(s) = &mut self.sender {
                while !self.requests.is_empty() && (!self.in_turn || self.waiting.is_empty()) {
                    match s.poll_ready() {
                        Ok(Async::Ready(())) => {}
                        Ok(Async::NotReady) => break,
                        Err(e) => return Err(e.into()),
                    }
                    let (i, r) = self.requests.pop().unwrap();
                    let f = s.send_request(r).map_err(|e| format!("the response: {}", e)).and_then(answer);
                    self.waiting.push((i, Box::new(f)));
                    moved();
                }
            }
            if let Some(mut c) = self.server.take() {
                match c.poll() {
                    Ok(Async::NotReady) => self.server = Some(c),
                    Ok(Async::Ready(())) => {
                        moved();
                    }
                    Err(e) => return Err(e),
                }
            }
            let mut tasks = std::mem::replace(&mut self.tasks, vec![]);
            let more = SPAWNED.with(|s| std::mem::replace(&mut *s.borrow_mut(), vec![]));
            if !more.is_empty() {
                moved();
            }
            tasks.extend(more);
            if self.reverse {
                tasks.reverse();
            }
            tasks.retain_mut(|t| match t.poll() {
                Ok(Async::NotReady) => true,
                _ => {
                    moved();
                    false
                }
            });
            if self.reverse {
                tasks.reverse();
            }
            self.tasks = tasks;
            let got = &mut self.got;
            self.waiting.retain_mut(|(i, f)| {
                let r = match f.poll() {
                    Ok(Async::NotReady) => return true,
                    Ok(Async::Ready(a)) => Ok(a),
                    Err(e) => Err(e),
                };
                moved();
                got[*i] = Some(r);
                false
            });
            if self.requests.is_empty() && self.waiting.is_empty() && self.hands.is_none() {
                return Ok(Async::Ready(std::mem::replace(&mut self.got, vec![])));
            }
            if MOVED.with(|m| m.get()) == before {
                return Ok(Async::NotReady);
            }
        }
    }
}

// ---------------------------------------------------------------- executions

#[derive(Clone, Debug)]
struct Plan {
    /// Bytes read at a time.
    most: usize,
    wake: u32,
    order: u32,
    reverse: bool,
    in_turn: bool,
    drop_after: Option<usize>,
}

const PLAIN: Plan = Plan {
    most: usize::MAX,
    wake: 1,
    order: 0,
    reverse: false,
    in_turn: false,
    drop_after: None,
};

/// How the body is sent: each chunk after a wait; a failure after the last one.
struct Chunks(Vec<Vec<u8>>, Ready, Id, bool, Alive);
impl Stream for Chunks {
    type Item = Vec<u8>;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<Option<Vec<u8>>, BoxedError> {
        if !self.1.poll() {
            return Ok(Async::NotReady);
        }
        self.1 = Ready::new(self.2, 1);
        match self.0.pop() {
            None if self.3 => Err("given up".into()),
            c => Ok(Async::Ready(c)),
        }
    }
}

/// `splits`: lengths of the chunks that the body is sent in (empty: at once).
fn request(r: &Req, n: usize, splits: &[usize], broken: bool) -> http::Request<Body> {
    let mut b = http::Request::builder();
    b.method(r.method).uri(r.target);
    for (k, v) in &r.headers {
        b.header(*k, &v[..]);
    }
    let body = match &r.body {
        None => Body::empty(),
        Some((_, b)) if splits.is_empty() && !broken => Body::from(b.clone()),
        Some((_, b)) => {
            let mut c = vec![];
            let mut rest = &b[..];
            for &s in splits {
                let s = s.min(rest.len());
                c.push(rest[..s].to_vec());
                rest = &rest[s..];
            }
            c.push(rest.to_vec());
            c.reverse();
            let id = 7000 + n as Id;
            Body::wrap_stream(Chunks(c, Ready::new(id, 1), id, broken, alive("sent body", id)))
        }
    };
    b.body(body).unwrap()
}

fn both(reqs: Vec<http::Request<Body>>, setup: Setup, p: &Plan) -> Both {
    let (a, b) = duplex(p.most);
    let server = connections(setup, vec![Serve(a)]).remove(0);
    let hands = Builder::new().http2_only(true).executor(Spawn).handshake::<_, Body>(b).map_err(|e| e.to_string()).map(|(s, c)| {
        SPAWNED.with(|q| q.borrow_mut().push(Box::new(c.map_err(|_| ()))));
        s
    });
    let n = reqs.len();
    let mut requests: Vec<_> = reqs.into_iter().enumerate().collect();
    requests.reverse();
    Both {
        server: Some(server),
        hands: Some(Box::new(hands)),
        sender: None,
        tasks: vec![],
        requests,
        waiting: vec![],
        got: (0..n).map(|_| None).collect(),
        reverse: p.reverse,
        in_turn: p.in_turn,
    }
}

/// Sends requests on one connection and compares what came of each with the reference. `splits`: see `request`;
/// `broken`: the request whose body fails.
fn one(reqs: &[Req], setup: Setup, p: &Plan, splits: &[usize], broken: Option<usize>, track: bool) -> Result<Vec<(&'static str, String)>, String> {
    start(
        Cfg {
            mode: Mode::Script(Script {
                outcome: |_| Outcome::Ok,
                wake: p.wake,
                drop_after: p.drop_after,
                order: p.order,
            }),
            track,
            ..Cfg::default()
        },
    );
    SPAWNED.with(|s| s.borrow_mut().clear());
    let _guard = tokio_threadpool::blocking::set_default(capacity);
    let made = reqs.iter().enumerate().map(|(i, r)| request(r, i, splits, broken == Some(i))).collect();
    let end = env::run(|| both(made, setup, p));
    SPAWNED.with(|s| s.borrow_mut().clear());
    let got = match end {
        End::Done(Ok(g)) => Some(g),
        End::Done(Err(e)) => return Err(format!("the connection failed: {}", e)),
        End::Dropped => None,
        End::Panicked(p) => return Err(format!("panics: {}", End::<()>::panic_message(&*p))),
        End::Stalled(s) => return Err(format!("stalled: {}", s)),
    };
    let mut bad = vec![];
    if track {
        let left = left_over();
        if !left.is_empty() {
            bad.push(("P20", format!("left over: {:?}", left)));
        }
    }
    // calls by request
    let calls = calls();
    let exps: Vec<Exp> = reqs.iter().map(|r| over_http2(reference(r, setup))).collect();
    let several = reqs.len() > 1 && !p.in_turn;
    let mut left = calls.clone();
    for (i, (r, e)) in reqs.iter().zip(&exps).enumerate() {
        let is_broken = broken == Some(i) && (r.target.ends_with("json") || r.target.ends_with("form"));
        let want = if is_broken { &[][..] } else { &e.calls[..] };
        let mut lacks = false;
        for w in want {
            match left.iter().position(|c| c == w) {
                Some(i) => {
                    left.remove(i);
                }
                None => lacks = true,
            }
        }
        if got.is_none() {
            continue;
        }
        if lacks {
            let m = format!("request {}: no call {:?} among {:?}", i, want, calls);
            bad.push((if e.aspect == "P14" { "P14" } else { "P11" }, m.clone()));
            if r.body.is_some() {
                bad.push(("P09", m));
            }
        }
        let g = got.as_ref().unwrap()[i].as_ref().unwrap();
        let ok = match (g, &e.answer) {
            (Ok(_), _) if is_broken => false,
            (Err(_), _) if is_broken => true,
            (Ok(g), Some(w)) => g == w,
            // the stream is reset when the request's body isn't read
            (Err(_), w) => w.is_none() || !e.read,
            (Ok(_), None) => false,
        };
        if !ok {
            let m = format!("request {}: {:?} instead of {:?}", i, g, e.answer);
            bad.push((e.aspect, m.clone()));
            if several {
                bad.push(("P15", m.clone()));
            }
            if r.body.is_some() {
                bad.push(("P09", m));
            }
        }
    }
    if !left.is_empty() && got.is_some() {
        for prop in &["P11", "P14", "P15", "P09"] {
            bad.push((prop, format!("calls that don't belong to a request: {:?}", left)));
        }
    }
    Ok(bad)
}

fn over_http2(mut e: Exp) -> Exp {
    for c in &mut e.calls {
        *c = c.replacen(" HTTP/1.1 ", " HTTP/2.0 ", 1);
    }
    e
}

fn absolute(target: &'static str) -> &'static str {
    match target {
        "/v/7" => "http://h/v/7",
        "/v/300" => "http://h/v/300",
        "/json" => "http://h/json",
        "/form" => "http://h/form",
        "/skip" => "http://h/skip",
        "/zz" => "http://h/zz",
        t => t,
    }
}

/// The requests that can be made over HTTP/2.
fn requests2(panics: bool) -> Vec<Req> {
    let mut v = requests();
    v.retain(|r| r.version == 1 && r.target != "*" && r.header("connection") == "" && r.header("expect") == "");
    if panics {
        // (hyper doesn't strip the body from the panic handler's response to HEAD requests here)
        v.extend(panicking().into_iter().filter(|r| r.method != "HEAD"));
    }
    for r in &mut v {
        r.target = absolute(r.target);
    }
    v
}

fn plans() -> Vec<Plan> {
    vec![
        PLAIN,
        Plan { reverse: true, most: 10, ..PLAIN },
        Plan { wake: 2, most: 1, ..PLAIN },
        Plan { in_turn: true, ..PLAIN },
    ]
}

fn check(stats: &mut rt::explore::Stats, prop: &'static str, reqs: &[Req], setup: Setup, p: &Plan, splits: &[usize], broken: Option<usize>) -> Option<Value> {
    let v = explore(stats, 0, 5_000_000, || verdict(prop, one(reqs, setup, p, splits, broken, prop == "P20")))?;
    fail(&reqs, setup, format!("HTTP/2, {:?}, bodies in {:?}, broken {:?}", p, splits, broken), v.message, v.decisions)
}

pub fn jobs(prop: &str, thorough: bool) -> Vec<(&'static str, Job<'static>)> {
    let prop = *PROPS.iter().find(|p| **p == prop).expect("property");
    let mut jobs: Vec<(&'static str, Job<'static>)> = vec![];
    match prop {
        "P09" => {
            for (json, body) in bodies() {
                jobs.push((
                    "on HTTP/2 connections",
                    Box::new(move |stats, _| {
                        let base = if json { get("POST", "http://h/json", &[]) } else { get("PUT", "http://h/form", &[]) };
                        let reqs = vec![base.with(0, &body).numbered(1), get("GET", "http://h/v/7", &[]).numbered(2)];
                        let mut splits = vec![vec![]];
                        for a in 0..=body.len() {
                            splits.push(vec![a]);
                            for b in 0..=body.len() - a {
                                splits.push(vec![a, b]);
                            }
                        }
                        splits.push(vec![1; body.len()]);
                        for setup in setups(&[false]) {
                            for p in plans() {
                                for s in &splits {
                                    for &broken in &[None, Some(0)] {
                                        if let Some(v) = check(stats, prop, &reqs, setup, &p, s, broken) {
                                            return Some(v);
                                        }
                                    }
                                }
                            }
                        }
                        None
                    }),
                ));
            }
            // sizes: frames and flow control
            for k in 1..=if thorough { 23 } else { 21 } {
                jobs.push((
                    "on HTTP/2 connections: sizes",
                    Box::new(move |stats, _| {
                        for len in vec![(1usize << k) - 1, 1 << k, (1 << k) + 3] {
                            for &chunk in &[0usize, 1000, 16_384, 65_535, 1 << 18] {
                                let mut body = vec![b'"'];
                                body.extend((0..len).map(|i| b'a' + (i % 23) as u8));
                                body.push(b'"');
                                if chunk > 0 && body.len() / chunk > 1500 {
                                    continue;
                                }
                                let splits = if chunk == 0 { vec![] } else { vec![chunk; body.len() / chunk] };
                                let reqs = vec![get("POST", "http://h/json", &[]).with(0, &body).numbered(1)];
                                let setup = Setup { sync: k % 2 == 0, catch: false, make: 0 };
                                if let Err(m) = verdict(prop, one(&reqs, setup, &PLAIN, &splits, None, false)) {
                                    let m: String = m.chars().take(300).collect();
                                    return fail(&format!("{} bytes, chunks of {}", len, chunk), setup, "HTTP/2".into(), m, vec![]);
                                }
                                stats.executions += 1;
                            }
                        }
                        None
                    }),
                ));
            }
        }
        "P11" | "P12" | "P13" | "P14" => {
            let of = requests2(prop == "P14");
            for setup in setups(&[prop == "P14"]) {
                for a in 0..of.len() {
                    let of = of.clone();
                    jobs.push((
                        "on HTTP/2 connections",
                        Box::new(move |stats, _| {
                            let mut hs = vec![vec![of[a].clone().numbered(1)]];
                            for b in &of {
                                hs.push(vec![of[a].clone().numbered(1), b.clone().numbered(2)]);
                            }
                            if thorough {
                                for b in &of {
                                    for c in &of {
                                        hs.push(vec![of[a].clone().numbered(1), b.clone().numbered(2), c.clone().numbered(3)]);
                                    }
                                }
                            }
                            for h in &hs {
                                if prop == "P12" && h.iter().all(|r| r.method != "HEAD") {
                                    continue;
                                }
                                for p in &plans()[..if h.len() > 2 { 2 } else { 4 }] {
                                    if let Some(v) = check(stats, prop, h, setup, p, &[2], None) {
                                        return Some(v);
                                    }
                                }
                            }
                            None
                        }),
                    ));
                }
            }
        }
        "P15" => {
            for setup in setups(&[false, true]) {
                let of = requests2(setup.catch);
                // many at once
                let all = of.clone();
                jobs.push((
                    "on HTTP/2 connections: many requests",
                    Box::new(move |stats, _| {
                        for &n in &[3usize, 10, 40, 101, 300] {
                            let h: Vec<Req> = (0..n).map(|i| all[i * 7 % all.len()].clone().numbered(i + 1)).collect();
                            for order in 0..4 {
                                let p = Plan { order: LAID_DOWN + order, reverse: order % 2 == 1, ..PLAIN };
                                if let Some(v) = check(stats, prop, &h, setup, &p, &[1], None) {
                                    return Some(v);
                                }
                            }
                        }
                        None
                    }),
                ));
                if setup.make == 1 {
                    continue;
                }
                for a in 0..of.len() {
                    let of = of.clone();
                    jobs.push((
                        "on HTTP/2 connections: in flight together",
                        Box::new(move |stats, _| {
                            let waits = |h: &[Req]| h.iter().map(|r| r.headers.iter().map(|h| h.1.matches("wait").count()).sum::<usize>() + 3 * r.body.is_some() as usize).sum::<usize>();
                            let mut hs = vec![];
                            for b in &of {
                                let h = vec![of[a].clone().numbered(1), b.clone().numbered(2)];
                                if waits(&h) <= if thorough { 7 } else { 5 } {
                                    hs.push(h.clone());
                                }
                                for c in &of {
                                    let mut h = h.clone();
                                    h.push(c.clone().numbered(3));
                                    if waits(&h) <= if thorough { 4 } else { 2 } {
                                        hs.push(h);
                                    }
                                }
                            }
                            for h in hs {
                                for &reverse in &[false, true] {
                                    let p = Plan { reverse, ..PLAIN };
                                    if let Some(v) = check(stats, prop, &h, setup, &p, &[1], None) {
                                        return Some(v);
                                    }
                                }
                            }
                            None
                        }),
                    ));
                }
            }
        }
        "P20" => {
            for setup in setups(&[false, true]) {
                for r in requests2(setup.catch) {
                    jobs.push((
                        "on HTTP/2 connections",
                        Box::new(move |stats, _| {
                            let reqs = vec![r.clone().numbered(1), r.clone().numbered(2)];
                            for k in 0..10 {
                                for p in plans() {
                                    let p = Plan { drop_after: if k == 0 { None } else { Some(k - 1) }, ..p };
                                    for &broken in &[None, Some(0)] {
                                        if broken.is_some() && r.body.is_none() {
                                            continue;
                                        }
                                        if let Some(v) = check(stats, prop, &reqs, setup, &p, &[1], broken) {
                                            return Some(v);
                                        }
                                    }
                                }
                            }
                            None
                        }),
                    ));
                }
            }
        }
        _ => {}
    }
    jobs
}
