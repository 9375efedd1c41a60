//! Services behind hyper's own HTTP/1 connections, over pipes in memory: bodies and requests that arrive the way
//! they do in practice (hyper's channel of chunks with a known length, back pressure, keep-alive, pipelining,
//! clients that go away), cut into pieces and delayed in all ways up to a bound.

use crate::par::Job;
use hyperdrive::body::{HtmlForm, Json};
use hyperdrive::futures::{task, Async, Future, Poll, Stream};
use hyperdrive::http::{Method, StatusCode};
use hyperdrive::hyper::server::conn::Http;
use hyperdrive::hyper::service::{MakeService, Service};
use hyperdrive::hyper::{self, Body, Request, Response};
use hyperdrive::service::{AsyncService, ServiceExt, SyncService};
use hyperdrive::{http, BoxedError, Error, FromRequest, Guard, NoContext, RequestContext};
use rt::env::{self, *};
use rt::explore::{explore, step};
use serde_json::{json, Value};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::io::{self, Read, Write};
use std::rc::Rc;
use std::sync::Arc;
use tokio_io::{AsyncRead, AsyncWrite};
use tokio_threadpool::BlockingError;

// ---------------------------------------------------------------- the other end

#[derive(Clone, Copy, Debug, PartialEq)]
enum End2 {
    Eof,
    Reset,
}

struct Pipe {
    /// What is to arrive, last first. Each piece but the first waits for a signal.
    pieces: Vec<Vec<u8>>,
    at: usize,
    wait: Option<Ready>,
    end: End2,
    /// What can be written at once, if limited; then a signal is waited for.
    window: usize,
    written: usize,
    block: Option<Ready>,
    out: Rc<RefCell<Vec<u8>>>,
    id: Id,
}

const PIPE: Id = 5000;

impl Read for Pipe {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        step();
        if let Some(w) = &mut self.wait {
            if !w.poll() {
                return Err(io::ErrorKind::WouldBlock.into());
            }
            self.wait = None;
        }
        match self.pieces.last() {
            None => match self.end {
                End2::Eof => Ok(0),
                End2::Reset => Err(io::ErrorKind::ConnectionReset.into()),
            },
            Some(p) => {
                let n = buf.len().min(p.len() - self.at);
                buf[..n].copy_from_slice(&p[self.at..self.at + n]);
                self.at += n;
                if self.at == p.len() {
                    self.pieces.pop();
                    self.at = 0;
                    self.wait = Some(Ready::new(self.id, 1));
                }
                Ok(n)
            }
        }
    }
}
impl Write for Pipe {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        step();
        if let Some(w) = &mut self.block {
            if !w.poll() {
                return Err(io::ErrorKind::WouldBlock.into());
            }
            self.block = None;
            self.written = 0;
        }
        let n = buf.len().min(self.window - self.written);
        self.out.borrow_mut().extend_from_slice(&buf[..n]);
        self.written += n;
        if self.written == self.window {
            self.block = Some(Ready::new(self.id + 1, 1));
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl AsyncRead for Pipe {}
impl AsyncWrite for Pipe {
    fn shutdown(&mut self) -> Poll<(), io::Error> {
        Ok(Async::Ready(()))
    }
}

// ---------------------------------------------------------------- the service

pub struct Ctx {
    tag: u32,
    no: NoContext,
    _alive: Alive,
}
impl Clone for Ctx {
    fn clone(&self) -> Self {
        Ctx {
            tag: self.tag,
            no: NoContext,
            _alive: alive("context", 0),
        }
    }
}
impl AsRef<Ctx> for Ctx {
    fn as_ref(&self) -> &Ctx {
        self
    }
}
impl AsRef<NoContext> for Ctx {
    fn as_ref(&self) -> &NoContext {
        &self.no
    }
}
impl RequestContext for Ctx {}

/// Waits, then ends, as the request's header asks.
pub struct Ask<T> {
    ready: Ready,
    what: String,
    value: Option<T>,
    _alive: Alive,
}

#[derive(Debug)]
struct Foreign;
impl std::fmt::Display for Foreign {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("foreign")
    }
}
impl std::error::Error for Foreign {}

fn header<'a, T>(req: &'a http::Request<T>, name: &str) -> &'a str {
    req.headers().get(name).map_or("", |v| v.to_str().unwrap())
}

fn number(req: &http::Request<()>) -> Id {
    header(req, "id").parse().unwrap_or(0)
}

fn ask<T>(id: Id, what: &str, value: T) -> Ask<T> {
    let waits = what.matches("wait").count() as u32;
    Ask {
        ready: Ready::new(id, waits),
        what: what.replace("wait", "").trim().into(),
        value: Some(value),
        _alive: alive("future", id),
    }
}

impl<T> Future for Ask<T> {
    type Item = T;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<T, BoxedError> {
        step();
        if !self.ready.poll() {
            return Ok(Async::NotReady);
        }
        match &self.what[..] {
            "panic" => panic!("as asked"),
            "foreign" => Err(Foreign.into()),
            "405" => Err(Error::wrong_method(&[&Method::PATCH, &Method::GET]).into()),
            "" => Ok(Async::Ready(self.value.take().expect("polled after it ended"))),
            s => Err(Error::from_status(StatusCode::from_bytes(s.as_bytes()).unwrap()).into()),
        }
    }
}

pub struct G(u32);
impl Guard for G {
    type Context = Ctx;
    type Result = Ask<G>;
    fn from_request(req: &Arc<http::Request<()>>, c: &Ctx) -> Ask<G> {
        step();
        ask(number(req) * 10 + 1, header(req, "g"), G(c.tag))
    }
}

type Pairs = Vec<(String, String)>;

#[derive(FromRequest)]
#[context(Ctx)]
enum Route {
    #[get("/v/{x}")]
    V { x: u8, g: G },
    #[post("/json")]
    Json {
        g: G,
        #[body]
        b: Json<Value>,
    },
    #[put("/form")]
    #[get("/form")]
    Form {
        #[body]
        b: HtmlForm<Pairs>,
    },
    #[post("/skip")]
    Skip { g: G },
    #[options("*")]
    Star,
}

impl Route {
    fn show(&self) -> String {
        match self {
            Route::V { x, g } => format!("V {} {}", x, g.0),
            Route::Json { g, b } => format!("Json {} {}", g.0, b.0),
            Route::Form { b } => format!("Form {:?}", b.0),
            Route::Skip { g } => format!("Skip {}", g.0),
            Route::Star => "Star".into(),
        }
    }
}

thread_local! {
    static CALLS: RefCell<Vec<String>> = RefCell::new(vec![]);
}

/// The response's body in two pieces with a wait between them.
struct Slow(Vec<Vec<u8>>, Ready, Alive);
impl Stream for Slow {
    type Item = Vec<u8>;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<Option<Vec<u8>>, BoxedError> {
        if !self.1.poll() {
            return Ok(Async::NotReady);
        }
        self.1 = Ready::new(1, 1);
        Ok(Async::Ready(self.0.pop()))
    }
}

fn note(show: &str, req: &http::Request<()>) -> String {
    format!("{} {} {:?} g={} h={} id={}: {}", req.method(), req.uri(), req.version(), header(req, "g"), header(req, "h"), header(req, "id"), show)
}

fn handle(r: Route, req: &http::Request<()>) -> Response<Body> {
    step();
    let show = r.show();
    CALLS.with(|c| c.borrow_mut().push(note(&show, req)));
    let mut b = Response::builder();
    b.header("x-id", header(req, "id")).status(207);
    if header(req, "b") == "stream" {
        let a = alive("response", 1);
        b.body(Body::wrap_stream(Slow(vec![show.clone().into_bytes(), b"<".to_vec()], Ready::new(1, 1), a))).unwrap()
    } else {
        b.body(Body::from(format!("<{}", show))).unwrap()
    }
}

fn caught(p: Box<dyn Any + Send>) -> Result<Response<Body>, BoxedError> {
    CALLS.with(|c| c.borrow_mut().push(format!("panic handler: {:?}", p.downcast_ref::<&str>())));
    Ok(Response::builder().status(555).header("x-panic", "yes").body(Body::from("caught")).unwrap())
}

thread_local! {
    static REFUSE: Cell<bool> = Cell::new(true);
}

/// Capacity for blocking is refused at first, then granted.
pub fn capacity(f: &mut dyn FnMut()) -> Poll<(), BlockingError> {
    step();
    if REFUSE.with(|r| r.replace(!r.get())) {
        task::current().notify();
        return Ok(Async::NotReady);
    }
    f();
    Ok(Async::Ready(()))
}

pub type Conn = Box<dyn Future<Item = (), Error = BoxedError>>;

fn show_hyper(e: hyper::Error) -> BoxedError {
    e.into()
}

/// A pipe that a service can be put behind.
pub trait Connect {
    fn connect<S>(self, s: S) -> Conn
    where
        S: Service<ReqBody = Body, ResBody = Body> + 'static,
        S::Error: Into<BoxedError>,
        S::Future: Send + 'static;
}

impl Connect for Pipe {
    fn connect<S>(self, s: S) -> Conn
    where
        S: Service<ReqBody = Body, ResBody = Body> + 'static,
        S::Error: Into<BoxedError>,
        S::Future: Send + 'static,
    {
        Box::new(Http::new().http1_only(true).serve_connection(self, s).map_err(show_hyper))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Setup {
    pub sync: bool,
    pub catch: bool,
    /// By cloning, by the type's own `MakeService`, by `make_service_by_cloning`.
    pub make: u8,
}

/// A connection per pipe, each served by its own instance of one service.
pub fn connections<C: Connect>(setup: Setup, pipes: Vec<C>) -> Vec<Conn> {
    fn all<S, C: Connect>(s: S, make: u8, pipes: Vec<C>) -> Vec<Conn>
    where
        S: Service<ReqBody = Body, ResBody = Body> + Clone + 'static,
        S::Error: Into<BoxedError>,
        S::Future: Send + 'static,
    {
        let mut by = s.clone().make_service_by_cloning();
        pipes
            .into_iter()
            .map(|p| {
                if make == 2 {
                    let f = MakeService::<()>::make_service(&mut by, ());
                    p.connect(f.wait().ok().expect("no service made"))
                } else {
                    p.connect(s.clone())
                }
            })
            .collect()
    }
    let ctx = Ctx {
        tag: 7,
        no: NoContext,
        _alive: alive("context", 0),
    };
    let keep = alive("handler", 0);
    if setup.sync {
        let s = SyncService::with_context(
            move |r: Route, req: Arc<Request<()>>| {
                let _ = &keep;
                if header(&req, "h") == "panic" {
                    handle(r, &req);
                    panic!("as asked");
                }
                handle(r, &req)
            },
            ctx,
        );
        if setup.catch {
            return all(s.catch_unwind(caught), setup.make, pipes);
        }
        if setup.make == 1 {
            let mut s = s;
            return pipes.into_iter().map(|p| p.connect(MakeService::<()>::make_service(&mut s, ()).wait().unwrap())).collect();
        }
        all(s, setup.make, pipes)
    } else {
        let s = AsyncService::with_context(
            move |r: Route, req: Arc<Request<()>>| {
                let _ = &keep;
                let resp = handle(r, &req);
                ask(number(&req) * 10 + 2, header(&req, "h"), resp)
            },
            ctx,
        );
        if setup.catch {
            return all(s.catch_unwind(caught), setup.make, pipes);
        }
        if setup.make == 1 {
            let mut s = s;
            return pipes.into_iter().map(|p| p.connect(MakeService::<()>::make_service(&mut s, ()).wait().unwrap())).collect();
        }
        all(s, setup.make, pipes)
    }
}

// ---------------------------------------------------------------- requests and the reference

#[derive(Clone, Debug, PartialEq)]
pub struct Req {
    pub method: &'static str,
    pub target: &'static str,
    pub version: u8,
    pub headers: Vec<(&'static str, String)>,
    /// Chunk size (0: by length) and bytes.
    pub body: Option<(usize, Vec<u8>)>,
}

pub fn get(method: &'static str, target: &'static str, headers: &[(&'static str, &str)]) -> Req {
    Req {
        method,
        target,
        version: 1,
        headers: headers.iter().map(|(k, v)| (*k, v.to_string())).collect(),
        body: None,
    }
}

impl Req {
    pub fn with(mut self, chunk: usize, body: &[u8]) -> Req {
        self.body = Some((chunk, body.to_vec()));
        self
    }
    pub fn numbered(mut self, n: usize) -> Req {
        self.headers.push(("id", n.to_string()));
        self
    }
    pub fn header(&self, name: &str) -> &str {
        self.headers.iter().find(|h| h.0 == name).map_or("", |h| &h.1)
    }
    fn bytes(&self) -> Vec<u8> {
        let mut s = format!("{} {} HTTP/1.{}\r\nhost: h\r\n", self.method, self.target, self.version);
        for (k, v) in &self.headers {
            s += &format!("{}: {}\r\n", k, v);
        }
        match &self.body {
            None => s += "\r\n",
            Some((0, b)) => s += &format!("content-length: {}\r\n\r\n", b.len()),
            Some(_) => s += "transfer-encoding: chunked\r\n\r\n",
        }
        let mut out = s.into_bytes();
        match &self.body {
            Some((0, b)) => out.extend_from_slice(b),
            Some((n, b)) => {
                for c in b.chunks(*n) {
                    out.extend(format!("{:x}\r\n", c.len()).into_bytes());
                    out.extend_from_slice(c);
                    out.extend_from_slice(b"\r\n");
                }
                out.extend_from_slice(b"0\r\n\r\n");
            }
            None => {}
        }
        out
    }
    /// Whether what follows on the connection depends on hyper's timing.
    fn last_only(&self) -> bool {
        self.version == 0 || (self.body.is_some() && self.target == "/skip")
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Answer {
    pub status: u16,
    pub allow: Option<BTreeSet<String>>,
    pub id: Option<String>,
    pub panic: bool,
    pub body: String,
}

/// What a request is expected to lead to; no answer: an error that isn't the library's.
#[derive(Clone, Debug)]
pub struct Exp {
    pub calls: Vec<String>,
    pub answer: Option<Answer>,
    /// Whether the body is read to its end, or there is none.
    pub read: bool,
    /// What is at stake.
    pub aspect: &'static str,
}

fn set(v: &[&str]) -> Option<BTreeSet<String>> {
    Some(v.iter().map(|s| s.to_string()).collect())
}

pub fn reference(r: &Req, setup: Setup) -> Exp {
    let bare = |status: u16, allow: Option<BTreeSet<String>>| Exp {
        calls: vec![],
        answer: Some(Answer {
            status,
            allow,
            id: None,
            panic: false,
            body: String::new(),
        }),
        read: r.body.is_none(),
        aspect: "P13",
    };
    let none = |calls: Vec<String>| Exp {
        calls,
        answer: None,
        read: r.body.is_none(),
        aspect: "P13",
    };
    let head = r.method == "HEAD";
    let panicked = |mut calls: Vec<String>| {
        calls.push("panic handler: Some(\"as asked\")".into());
        Exp {
            calls,
            answer: Some(Answer {
                status: 555,
                allow: None,
                id: None,
                panic: true,
                body: if head { String::new() } else { "caught".into() },
            }),
            read: r.body.is_none(),
            aspect: "P14",
        }
    };
    let failing = |what: &str| -> Option<Option<Exp>> {
        match what.replace("wait", "").trim() {
            "" => None,
            "foreign" => Some(None),
            "panic" => Some(Some(panicked(vec![]))),
            "405" => Some(Some(bare(405, set(&["GET", "PATCH"])))),
            n => Some(Some(bare(n.parse().unwrap(), None))),
        }
    };
    let path = r.target.trim_start_matches("http://h").split('?').next().unwrap();
    let body = r.body.as_ref().map_or(&b""[..], |b| &b.1);
    let show = match (path, r.method) {
        ("*", "OPTIONS") => "Star".to_string(),
        ("/form", "PUT") | ("/form", "GET") | ("/form", "HEAD") => match serde_urlencoded::from_bytes::<Pairs>(body) {
            Ok(p) => format!("Form {:?}", p),
            Err(_) => return none(vec![]),
        },
        ("/form", _) => return bare(405, set(&["GET", "HEAD", "PUT"])),
        ("/json", "POST") | ("/skip", "POST") | ("/v/7", "GET") | ("/v/7", "HEAD") => {
            if let Some(e) = failing(r.header("g")) {
                return e.unwrap_or_else(|| none(vec![]));
            }
            match path {
                "/json" => match serde_json::from_slice::<Value>(body) {
                    Ok(v) => format!("Json 7 {}", v),
                    Err(_) => return none(vec![]),
                },
                "/skip" => "Skip 7".into(),
                _ => "V 7 7".into(),
            }
        }
        ("/json", _) | ("/skip", _) => return bare(405, set(&["POST"])),
        ("/v/7", _) => return bare(405, set(&["GET", "HEAD"])),
        _ => return bare(404, None),
    };
    let call = format!("{} {} HTTP/1.{} g={} h={} id={}: {}", r.method, r.target, r.version, r.header("g"), r.header("h"), r.header("id"), show);
    let h = r.header("h");
    if !setup.sync || h == "panic" {
        if let Some(e) = failing(h) {
            return match e {
                None => none(vec![call]),
                Some(mut e) => {
                    e.calls.insert(0, call);
                    e.read |= path != "/skip";
                    e
                }
            };
        }
    }
    Exp {
        calls: vec![call],
        answer: Some(Answer {
            status: 207,
            allow: None,
            id: Some(r.header("id").into()),
            panic: false,
            body: if head { String::new() } else { format!("<{}", show) },
        }),
        read: r.body.is_none() || path != "/skip",
        aspect: if head { "P12" } else { "P11" },
    }
}

/// The responses in what was written; `heads` tells which are to HEAD requests.
fn parse(mut out: &[u8], heads: &[bool]) -> Result<Vec<Answer>, String> {
    let mut v = vec![];
    while !out.is_empty() {
        if out.starts_with(b"HTTP/1.1 100 Continue\r\n\r\n") {
            out = &out[25..];
            continue;
        }
        let n = out.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(|| "incomplete head".to_string())?;
        let head = String::from_utf8_lossy(&out[..n]).to_string();
        out = &out[n + 4..];
        let mut lines = head.split("\r\n");
        let status: u16 = lines.next().unwrap().split(' ').nth(1).and_then(|s| s.parse().ok()).ok_or("no status")?;
        let (mut allow, mut id, mut panic, mut length, mut chunked) = (None, None, false, None, false);
        for l in lines {
            let mut kv = l.splitn(2, ": ");
            let (k, val) = (kv.next().unwrap().to_ascii_lowercase(), kv.next().unwrap_or(""));
            match &k[..] {
                "allow" => {
                    let list: Vec<String> = val.split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
                    let all: BTreeSet<String> = list.iter().cloned().collect();
                    if all.len() != list.len() || allow.is_some() {
                        return Err(format!("repeated methods in {}", head));
                    }
                    allow = Some(all);
                }
                "x-id" => id = Some(val.to_string()),
                "x-panic" => panic = true,
                "content-length" => length = Some(val.parse::<usize>().map_err(|e| e.to_string())?),
                "transfer-encoding" => chunked = val == "chunked",
                "date" | "connection" => {}
                _ => return Err(format!("made up header {}", l)),
            }
        }
        let mut body = vec![];
        if heads.get(v.len()) == Some(&true) {
        } else if chunked {
            loop {
                let n = out.windows(2).position(|w| w == b"\r\n").ok_or("incomplete chunk")?;
                let len = usize::from_str_radix(&String::from_utf8_lossy(&out[..n]), 16).map_err(|e| e.to_string())?;
                out = &out[n + 2..];
                if out.len() < len + 2 {
                    return Err("incomplete chunk".into());
                }
                body.extend_from_slice(&out[..len]);
                out = &out[len + 2..];
                if len == 0 {
                    break;
                }
            }
        } else {
            let len = length.unwrap_or_else(|| out.len());
            if out.len() < len {
                return Err("incomplete body".into());
            }
            body.extend_from_slice(&out[..len]);
            out = &out[len..];
        }
        v.push(Answer {
            status,
            allow,
            id,
            panic,
            body: String::from_utf8_lossy(&body).to_string(),
        });
    }
    Ok(v)
}

// ---------------------------------------------------------------- executions

/// How a history arrives on a connection.
#[derive(Clone, Debug)]
struct Delivery {
    pieces: Vec<Vec<u8>>,
    /// Number of requests that arrive completely.
    complete: usize,
    end: End2,
    window: usize,
    wake: u32,
    drop_after: Option<usize>,
}

impl Delivery {
    /// Cut at the given positions.
    fn cut(bytes: &[u8], cuts: &[usize], complete: usize) -> Delivery {
        let mut pieces = vec![];
        let mut from = 0;
        for &c in cuts.iter().chain(&[bytes.len()]) {
            if c > from && c <= bytes.len() {
                pieces.push(bytes[from..c].to_vec());
                from = c;
            }
        }
        pieces.reverse();
        Delivery {
            pieces,
            complete,
            end: End2::Eof,
            window: usize::max_value(),
            wake: 1,
            drop_after: None,
        }
    }
    fn show(&self) -> String {
        let lens: Vec<usize> = self.pieces.iter().rev().map(|p| p.len()).collect();
        format!(
            "pieces of {:?} bytes, {} complete requests, then {:?}; window {}, wake {}, dropped after {:?}",
            &lens[..lens.len().min(20)],
            self.complete,
            self.end,
            self.window,
            self.wake,
            self.drop_after
        )
    }
}

/// The calls so far.
pub fn calls() -> Vec<String> {
    CALLS.with(|c| c.borrow().clone())
}

pub fn start(c: Cfg) {
    CALLS.with(|c| c.borrow_mut().clear());
    REFUSE.with(|r| r.set(true));
    reset(c);
}

fn prepare(d: &Delivery, track: bool, order: u32) {
    start(Cfg {
        mode: Mode::Script(Script {
            outcome: |_| Outcome::Ok,
            wake: d.wake,
            drop_after: d.drop_after,
            order,
        }),
        track,
        ..Cfg::default()
    });
}

fn pipe(d: &Delivery, k: usize) -> (Pipe, Rc<RefCell<Vec<u8>>>) {
    let out = Rc::new(RefCell::new(vec![]));
    let p = Pipe {
        pieces: d.pieces.clone(),
        at: 0,
        wait: None,
        end: d.end,
        window: d.window,
        written: 0,
        block: None,
        out: out.clone(),
        id: PIPE + 10 * k as Id,
    };
    (p, out)
}

pub type Aspects = Vec<(&'static str, String)>;

/// Compares what came of a history with what was expected.
fn compare(reqs: &[Req], setup: Setup, d: &Delivery, calls: &[String], out: &[u8], ended: Option<bool>) -> Aspects {
    let mut bad = vec![];
    let exps: Vec<Exp> = reqs.iter().map(|r| reference(r, setup)).collect();
    // those that are reached
    let upto = exps.iter().take(d.complete).position(|e| e.answer.is_none());
    let reached = upto.map_or(d.complete, |i| i + 1);
    let want: Vec<&String> = exps[..reached].iter().flat_map(|e| &e.calls).collect();
    let heads: Vec<bool> = reqs.iter().map(|r| r.method == "HEAD").collect();
    let gone = d.drop_after.is_some() && ended.is_none();
    let cut = d.complete < reqs.len() || gone || d.end == End2::Reset;
    // when a body isn't read, it depends on what has arrived whether hyper goes on, and if it doesn't the response may get lost
    let unread = exps[..reached].iter().position(|e| !e.read);
    let must = if gone || d.end == End2::Reset { 0 } else { unread.map_or(reached, |u| u + 1) };
    let texts = |e: &[Exp]| -> Vec<String> { e.iter().flat_map(|e| e.calls.clone()).collect() };
    let least = texts(&exps[..must]);
    let mut most = texts(&exps[..reached]);
    // a request that is cut off may only lead to a call if what it lacks isn't needed
    if upto.is_none() && d.complete < reqs.len() && reqs[d.complete].target == "/skip" {
        most.extend(exps[d.complete].calls.clone());
    }
    if !most.starts_with(calls) || !calls.starts_with(&least) {
        let m = format!("the calls were {:?}, not {:?} to {:?}", calls, least, most);
        let panics = exps.iter().any(|e| e.aspect == "P14");
        bad.push((if panics { "P14" } else { "P11" }, m.clone()));
        if reqs.iter().any(|r| r.body.is_some()) {
            bad.push(("P09", m));
        }
    }
    if gone || d.end == End2::Reset {
        return bad;
    }
    let heads: Vec<bool> = reqs.iter().map(|r| r.method == "HEAD").collect();
    let unclear = cut || upto.is_some() || unread.is_some();
    match parse(out, &heads) {
        Err(e) if !unclear => bad.push(("P11", format!("{} in {:?}", e, String::from_utf8_lossy(out)))),
        Err(_) => {}
        Ok(got) => {
            for (i, e) in exps[..reached].iter().enumerate() {
                let g = got.get(i);
                // responses to earlier requests may get lost when the connection breaks down
                if g.is_none() && (upto.is_some() || cut || unread.map_or(false, |u| i >= u)) {
                    continue;
                }
                if g != e.answer.as_ref() {
                    bad.push((e.aspect, format!("answer {}: {:?} instead of {:?}", i, g, e.answer)));
                }
            }
            if !cut && got.len() > reached {
                bad.push(("P11", format!("more answers than requests: {:?}", &got[reached..])));
            }
        }
    }
    if !cut && unread.is_none() {
        let want = upto.is_none();
        if ended != Some(want) {
            bad.push(("P13", format!("the connection ended {:?}", ended)));
        }
    }
    bad
}

fn one(reqs: &[Req], setup: Setup, d: &Delivery, track: bool) -> Result<Aspects, String> {
    prepare(d, track, 0);
    let (p, out) = pipe(d, 0);
    let _guard = tokio_threadpool::blocking::set_default(capacity);
    let end = env::run(|| connections(setup, vec![p]).remove(0));
    let ended = match end {
        End::Done(Ok(())) => Some(true),
        End::Done(Err(_)) => Some(false),
        End::Dropped => None,
        End::Panicked(p) => return Err(format!("panics: {}", End::<()>::panic_message(&*p))),
        End::Stalled(s) => return Err(format!("stalled: {}", s)),
    };
    let calls = CALLS.with(|c| c.borrow().clone());
    let out = out.borrow().clone();
    let mut bad = compare(reqs, setup, d, &calls, &out, ended);
    if track {
        let left = left_over();
        if !left.is_empty() {
            bad.push(("P20", format!("left over: {:?}", left)));
        }
    }
    Ok(bad)
}

/// Several connections at once.
fn several(reqs: &[Vec<Req>], setup: Setup, ds: &[Delivery], order: u32) -> Result<Aspects, String> {
    prepare(&ds[0], false, order);
    let (pipes, outs): (Vec<Pipe>, Vec<_>) = ds.iter().enumerate().map(|(i, d)| pipe(d, i)).unzip();
    let conns = connections(setup, pipes);
    let _guard = tokio_threadpool::blocking::set_default(capacity);
    let which = Rc::new(RefCell::new((0usize, vec![vec![]; reqs.len()])));
    let w = which.clone();
    let flush = move |next: usize| {
        let mut w = w.borrow_mut();
        let now = w.0;
        CALLS.with(|c| w.1[now].append(&mut c.borrow_mut()));
        w.0 = next;
    };
    let makes = conns.into_iter().map(|c| Box::new(move || c) as Box<dyn FnOnce() -> Conn>).collect();
    let ends = env::run_many(makes, flush.clone());
    flush(0);
    let calls = which.borrow().1.clone();
    let mut bad = vec![];
    for (i, (e, out)) in ends.into_iter().zip(outs).enumerate() {
        let ended = match e {
            End::Done(r) => Some(r.is_ok()),
            End::Dropped => None,
            End::Panicked(p) => return Err(format!("panics: {}", End::<()>::panic_message(&*p))),
            End::Stalled(s) => return Err(format!("stalled: {}", s)),
        };
        let out = out.borrow().clone();
        for (_, m) in compare(&reqs[i], setup, &ds[i], &calls[i], &out, ended) {
            bad.push(("P15", format!("connection {}: {}", i, m)));
        }
    }
    Ok(bad)
}

/// A client that goes away while a body is being read: no answer is made up, and the error is the connection's.
fn goes_away(reqs: &[Req], setup: Setup, d: &Delivery) -> Result<(), String> {
    prepare(d, false, 0);
    let (p, out) = pipe(d, 0);
    let _guard = tokio_threadpool::blocking::set_default(capacity);
    let ended = match env::run(|| connections(setup, vec![p]).remove(0)) {
        End::Done(r) => r.is_ok(),
        End::Dropped => unreachable!(),
        End::Panicked(p) => return Err(format!("panics: {}", End::<()>::panic_message(&*p))),
        End::Stalled(s) => return Err(format!("stalled: {}", s)),
    };
    let calls = CALLS.with(|c| c.borrow().clone());
    let out = out.borrow().clone();
    let want = texts_of(&reqs[..d.complete], setup);
    if calls != want {
        return Err(format!("the calls were {:?} instead of {:?}", calls, want));
    }
    let heads: Vec<bool> = reqs.iter().map(|r| r.method == "HEAD").collect();
    match parse(&out, &heads) {
        Ok(v) if v.len() <= d.complete => {}
        r => return Err(format!("answered {:?}", r)),
    }
    if ended {
        return Err("the error isn't propagated".into());
    }
    Ok(())
}

fn texts_of(reqs: &[Req], setup: Setup) -> Vec<String> {
    reqs.iter().flat_map(|r| reference(r, setup).calls).collect()
}

pub fn verdict(prop: &str, r: Result<Aspects, String>) -> Result<(), String> {
    match r {
        Err(e) => Err(e),
        Ok(bad) => match bad.into_iter().find(|b| b.0 == prop) {
            None => Ok(()),
            Some(b) => Err(b.1),
        },
    }
}

pub fn fail(reqs: &dyn std::fmt::Debug, setup: Setup, d: String, message: String, decisions: Vec<String>) -> Option<Value> {
    let mut reqs = format!("{:?}", reqs);
    if reqs.len() > 2000 {
        reqs = reqs.chars().take(2000).collect();
    }
    Some(json!({"requests on a connection": reqs, "service": format!("{:?}", setup), "delivery": d, "message": message, "decisions": decisions}))
}

pub fn setups(catch: &[bool]) -> Vec<Setup> {
    let mut v = vec![];
    for &sync in &[false, true] {
        for &catch in catch {
            for make in 0..3 {
                if make == 1 && catch {
                    continue;
                }
                v.push(Setup { sync, catch, make });
            }
        }
    }
    v
}

/// The requests histories are made of.
pub fn requests() -> Vec<Req> {
    let s = |m, t| get(m, t, &[]);
    vec![
        s("GET", "/v/7"),
        s("HEAD", "/v/7"),
        s("GET", "/v/300"),
        s("DELETE", "/v/7"),
        s("POST", "/json").with(0, b"{\"a\": [1, 2]}"),
        s("POST", "/json").with(3, b"[\"x\", null]"),
        s("POST", "/json").with(0, b"[1"),
        s("PUT", "/form").with(0, b"a=1&b=%20"),
        s("GET", "/form").with(4, b"a=1&b=+"),
        s("HEAD", "/form"),
        s("PUT", "/form").with(0, b""),
        s("PATCH", "/json"),
        s("OPTIONS", "*"),
        s("GET", "http://h/v/7?q=1"),
        s("FOO", "/zz"),
        get("GET", "/v/7", &[("g", "wait")]),
        get("GET", "/v/7", &[("g", "wait 403")]),
        get("HEAD", "/v/7", &[("g", "405")]),
        get("GET", "/v/7", &[("h", "wait"), ("b", "stream")]),
        get("HEAD", "/v/7", &[("h", "wait wait"), ("b", "stream")]),
        get("POST", "/json", &[("g", "wait"), ("h", "wait 503")]).with(1, b"7"),
        get("GET", "/v/7", &[("g", "foreign")]),
        get("GET", "/v/7", &[("h", "wait foreign")]),
        get("GET", "/v/7", &[("h", "405")]),
        s("POST", "/skip").with(0, b"unread"),
        get("POST", "/skip", &[("h", "wait")]).with(2, b"unread"),
        Req { version: 0, ..get("GET", "/v/7", &[("g", "wait")]) },
        Req { version: 0, ..s("POST", "/json") }.with(0, b"{}"),
        Req { version: 0, ..s("DELETE", "/v/7") },
        get("POST", "/json", &[("expect", "100-continue")]).with(0, b"[0]"),
        get("POST", "/json", &[("connection", "close")]).with(0, b"[0]"),
    ]
}

pub fn panicking() -> Vec<Req> {
    vec![
        get("GET", "/v/7", &[("g", "panic")]),
        get("HEAD", "/v/7", &[("g", "wait panic")]),
        get("POST", "/json", &[("h", "panic")]).with(2, b"[0]"),
        get("POST", "/json", &[("g", "wait panic")]).with(0, b"[0]"),
    ]
}

/// All histories of up to `n` requests.
fn histories(of: &[Req], n: usize) -> Vec<Vec<Req>> {
    let mut all: Vec<Vec<Req>> = vec![vec![]];
    let mut out = vec![];
    for k in 0..n {
        let mut next = vec![];
        for h in &all {
            if h.last().map_or(false, |r: &Req| r.last_only() || r.header("connection") == "close") {
                continue;
            }
            for r in of {
                let mut h = h.clone();
                h.push(r.clone().numbered(k + 1));
                next.push(h);
            }
        }
        out.extend(next.iter().cloned());
        all = next;
    }
    out
}

fn deliveries(reqs: &[Req], all: bool) -> Vec<Delivery> {
    let mut bytes = vec![];
    let mut bounds = vec![];
    for r in reqs {
        bounds.push(bytes.len());
        bytes.extend(r.bytes());
    }
    let n = reqs.len();
    let mut v = vec![Delivery::cut(&bytes, &[], n), Delivery::cut(&bytes, &bounds[1..], n)];
    let every: Vec<usize> = (1..bytes.len()).collect();
    v.push(Delivery { window: 1, wake: 2, ..Delivery::cut(&bytes, &every, n) });
    v.push(Delivery { window: 30, ..Delivery::cut(&bytes, &bounds[1..], n) });
    if all {
        for c in 1..bytes.len() {
            v.push(Delivery::cut(&bytes, &[c], n));
            v.push(Delivery { wake: 2, ..Delivery::cut(&bytes, &[c], n) });
        }
    }
    v
}

pub fn bodies() -> Vec<(bool, Vec<u8>)> {
    let mut v: Vec<(bool, Vec<u8>)> = vec![];
    for b in &["", "1", "{\"a\":1}", "[1,2,3] ", "\"\u{e9}\"", "1 2", "[1", "\r\n7\r\n"] {
        v.push((true, b.as_bytes().to_vec()));
    }
    v.push((true, b"\"\xc3\"".to_vec()));
    for b in &["", "a", "a=1&b=2", "a=%26+", "=", "&&"] {
        v.push((false, b.as_bytes().to_vec()));
    }
    v
}

pub const PROPS: &[&str] = &["P09", "P11", "P12", "P13", "P14", "P15", "P20"];

pub fn jobs(prop: &str, thorough: bool) -> Vec<(&'static str, Job<'static>)> {
    let mut jobs: Vec<(&'static str, Job<'static>)> = vec![];
    let prop = PROPS.iter().find(|p| **p == prop).expect("property");
    match *prop {
        "P09" => {
            // each body in all ways to frame it and with up to two cuts anywhere
            for (json, body) in bodies() {
                for chunk in 0..=body.len().min(3) {
                    if body.is_empty() && chunk > 0 {
                        continue;
                    }
                    let body = body.clone();
                    jobs.push((
                        "on connections",
                        Box::new(move |_, n| {
                            let base = if json { get("POST", "/json", &[]) } else { get("PUT", "/form", &[]) };
                            let reqs = vec![base.with(chunk, &body), get("GET", "/v/7", &[])];
                            let reqs: Vec<Req> = reqs.into_iter().enumerate().map(|(i, r)| r.numbered(i + 1)).collect();
                            let first = reqs[0].bytes();
                            let bytes = [first.clone(), reqs[1].bytes()].concat();
                            let from = first.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 2;
                            let mut ds = vec![];
                            for a in from..first.len() + 2 {
                                for b in a..first.len() + 2 {
                                    for &wake in &[1, 2] {
                                        ds.push(Delivery { wake, ..Delivery::cut(&bytes, &[a, b], 2) });
                                        ds.push(Delivery { wake, ..Delivery::cut(&bytes, &[3, a, b, first.len()], 2) });
                                    }
                                    // cut off
                                    if a < first.len() && b < first.len() {
                                        for &end in &[End2::Eof, End2::Reset] {
                                            ds.push(Delivery { end, ..Delivery::cut(&bytes[..b], &[a], 0) });
                                        }
                                    }
                                }
                            }
                            let every: Vec<usize> = (1..bytes.len()).collect();
                            ds.push(Delivery::cut(&bytes, &every, 2));
                            for setup in setups(&[false]) {
                                for d in &ds {
                                    *n += 1;
                                    if let Err(m) = verdict("P09", one(&reqs, setup, d, false)) {
                                        return fail(&reqs, setup, d.show(), m, vec![]);
                                    }
                                }
                            }
                            None
                        }),
                    ));
                }
            }
            // sizes
            let top = if thorough { 24 } else { 22 };
            for k in 1..=top {
                jobs.push((
                    "on connections: sizes",
                    Box::new(move |_, n| {
                        for len in vec![(1usize << k) - 1, 1 << k, (1 << k) + 3] {
                            for &chunk in &[0usize, 1000, 1 << 17] {
                                for &piece in &[1usize, 1460, 8192, 1 << 18, usize::max_value()] {
                                    let mut body = vec![b'"'];
                                    body.extend((0..len).map(|i| b'a' + (i % 23) as u8));
                                    body.push(b'"');
                                    if body.len() / piece > 20_000 || chunk > 0 && body.len() / chunk > 1500 {
                                        continue;
                                    }
                                    let reqs = vec![get("POST", "/json", &[]).with(chunk, &body).numbered(1)];
                                    let bytes = reqs[0].bytes();
                                    let cuts: Vec<usize> = (1..).map(|i: usize| i.saturating_mul(piece)).take_while(|&c| c < bytes.len()).collect();
                                    // (the driver counts polls: at most 5000)
                                    if cuts.len() > 2000 {
                                        continue;
                                    }
                                    let d = Delivery::cut(&bytes, &cuts, 1);
                                    let setup = Setup { sync: k % 2 == 0, catch: false, make: 0 };
                                    *n += 1;
                                    if let Err(m) = verdict("P09", one(&reqs, setup, &d, false)) {
                                        let m: String = m.chars().take(300).collect();
                                        return fail(&format!("{} bytes, chunks of {}", len, chunk), setup, format!("pieces of {}", piece), m, vec![]);
                                    }
                                }
                            }
                        }
                        None
                    }),
                ));
            }
        }
        "P11" | "P12" | "P13" | "P14" => {
            let catch = *prop == "P14";
            let mut of = requests();
            if *prop == "P12" {
                of.retain(|r| r.method == "HEAD" || r.header("g") == "" && r.header("h") == "");
            }
            if catch {
                of.extend(panicking());
            }
            let depth = if thorough { 3 } else { 2 };
            if *prop == "P13" || catch {
                for setup in setups(&[catch]) {
                    let of = of.clone();
                    jobs.push((
                        "clients that go away",
                        Box::new(move |stats, _| {
                            for r in &of {
                                let e = reference(r, setup);
                                if r.body.as_ref().map_or(true, |b| b.1.is_empty()) || !e.read {
                                    continue;
                                }
                                for before in &[vec![], vec![get("GET", "/v/7", &[])]] {
                                    let reqs: Vec<Req> = before.iter().chain(Some(r)).enumerate().map(|(i, r)| r.clone().numbered(i + 1)).collect();
                                    let bytes: Vec<u8> = reqs.iter().flat_map(|r| r.bytes()).collect();
                                    let last = reqs.last().unwrap().bytes();
                                    let start = bytes.len() - last.len() + last.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
                                    for to in start..bytes.len() {
                                        for cuts in &[vec![], vec![start], vec![start - 1, to - 1]] {
                                            for &end in &[End2::Eof, End2::Reset] {
                                                for &wake in &[1, 2] {
                                                    let d = Delivery { end, wake, ..Delivery::cut(&bytes[..to], cuts, before.len()) };
                                                    if let Some(v) = explore(stats, 0, 100_000, || goes_away(&reqs, setup, &d)) {
                                                        return fail(&reqs, setup, d.show(), v.message, v.decisions);
                                                    }
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                            None
                        }),
                    ));
                }
            }
            for setup in setups(&[catch]) {
                for first in 0..of.len() {
                    let of = of.clone();
                    jobs.push((
                        "on connections",
                        Box::new(move |stats, _| {
                            for h in histories(&of, depth) {
                                if !h[0].clone().eq(&of[first].clone().numbered(1)) {
                                    continue;
                                }
                                for d in deliveries(&h, h.len() == 1) {
                                    if let Some(v) = explore(stats, 0, 100_000, || verdict(prop, one(&h, setup, &d, false))) {
                                        return fail(&h, setup, d.show(), v.message, v.decisions);
                                    }
                                }
                            }
                            None
                        }),
                    ));
                }
                // many requests on one connection
                let of2 = of.clone();
                jobs.push((
                    "on connections: many requests",
                    Box::new(move |_, n| {
                        let fine: Vec<&Req> = of2.iter().filter(|r| !r.last_only() && r.header("connection") != "close" && reference(r, setup).answer.is_some()).collect();
                        let reqs: Vec<Req> = (0..300).map(|i| fine[i * 7 % fine.len()].clone().numbered(i + 1)).collect();
                        for d in deliveries(&reqs, false) {
                            if d.pieces.len() > 301 {
                                continue;
                            }
                            *n += 1;
                            if let Err(m) = verdict(prop, one(&reqs, setup, &d, false)) {
                                return fail(&"300 requests", setup, d.show(), m.chars().take(500).collect(), vec![]);
                            }
                        }
                        None
                    }),
                ));
            }
        }
        "P15" => {
            let mut of: Vec<Req> = requests().into_iter().filter(|r| r.header("b") != "stream" && r.version == 1).collect();
            if !thorough {
                let mut i = 0;
                of.retain(|r| {
                    i += 1;
                    i % 3 == 1 || r.headers.iter().any(|h| h.1.contains("wait"))
                });
            }
            for setup in setups(&[false, true]) {
                let mut many = requests();
                many.retain(|r| !r.last_only() && r.header("connection") != "close");
                jobs.push((
                    "many connections",
                    Box::new(move |_, n| {
                        for count in (1..=20).chain(vec![33, 65, 129, 257]) {
                            for order in 0..4 {
                                for shift in 0..if count < 20 { many.len() } else { 1 } {
                                    let reqs: Vec<Vec<Req>> =
                                        (0..count).map(|i| (0..2).map(|k| many[(i * 7 + k * 11 + shift) % many.len()].clone().numbered(i * 2 + k)).collect()).collect();
                                    let ds: Vec<Delivery> = reqs
                                        .iter()
                                        .map(|rs| {
                                            let bytes: Vec<u8> = rs.iter().flat_map(|r| r.bytes()).collect();
                                            Delivery::cut(&bytes, &[20, bytes.len() - 2], rs.len())
                                        })
                                        .collect();
                                    *n += 1;
                                    if let Err(m) = verdict("P15", several(&reqs, setup, &ds, order)) {
                                        return fail(&format!("{} connections, {}", count, shift), setup, format!("order {}", order), m.chars().take(500).collect(), vec![]);
                                    }
                                }
                            }
                        }
                        None
                    }),
                ));
                if setup.make == 1 {
                    continue;
                }
                for a in 0..of.len() {
                    let of = of.clone();
                    jobs.push((
                        "two connections",
                        Box::new(move |stats, _| {
                            for b in 0..of.len() {
                                let reqs = [vec![of[a].clone().numbered(1)], vec![of[b].clone().numbered(2)]];
                                let d = |r: &Req| {
                                    let bytes = r.bytes();
                                    let cuts = if r.body.is_some() { vec![bytes.len() - 2] } else { vec![] };
                                    Delivery::cut(&bytes, &cuts, 1)
                                };
                                let ds = [d(&reqs[0][0]), d(&reqs[1][0])];
                                let waits: usize = reqs.iter().map(|r| r[0].headers.iter().map(|h| h.1.matches("wait").count()).sum::<usize>() + r[0].body.is_some() as usize).sum();
                                if waits + (setup.sync as usize) > if thorough { 4 } else { 3 } {
                                    continue;
                                }
                                if let Some(v) = explore(stats, 0, 5_000_000, || verdict("P15", several(&reqs, setup, &ds, EXPLORED))) {
                                    return fail(&reqs, setup, ds[0].show(), v.message, v.decisions);
                                }
                            }
                            None
                        }),
                    ));
                }
            }
        }
        "P20" => {
            // the client, or the server, gives up at any point
            let mut of = requests();
            of.extend(panicking());
            for setup in setups(&[false, true]) {
                for r in 0..of.len() {
                    let reqs = vec![of[r].clone().numbered(1)];
                    if !setup.catch && of[r].headers.iter().any(|h| h.1.contains("panic")) {
                        continue;
                    }
                    jobs.push((
                        "on connections",
                        Box::new(move |stats, _| {
                            let bytes = reqs[0].bytes();
                            let mut ds = vec![];
                            for c in 1..=bytes.len() {
                                let complete = (c == bytes.len()) as usize;
                                for &end in &[End2::Eof, End2::Reset] {
                                    ds.push(Delivery { end, ..Delivery::cut(&bytes[..c], &[], complete) });
                                    ds.push(Delivery { end, ..Delivery::cut(&bytes[..c], &[c / 2, c - 1], complete) });
                                }
                            }
                            for k in 0..12 {
                                let cuts = [bytes.len() / 2, bytes.len() - 3, bytes.len() - 1];
                                ds.push(Delivery { drop_after: Some(k), ..Delivery::cut(&bytes, &cuts, 1) });
                                ds.push(Delivery { drop_after: Some(k), window: 20, ..Delivery::cut(&bytes, &[], 1) });
                            }
                            for d in ds {
                                if let Some(v) = explore(stats, 0, 100_000, || verdict("P20", one(&reqs, setup, &d, true))) {
                                    return fail(&reqs, setup, d.show(), v.message, v.decisions);
                                }
                            }
                            None
                        }),
                    ));
                }
            }
        }
        _ => {}
    }
    jobs
}

/// The synchronous entry point, again and again: nothing of a call is left when it returns or panics. (Run while
/// there are no other threads: files in use are counted.)
pub fn sync_entry(thorough: bool) -> Value {
    let files = || std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count());
    let rounds = if thorough { 300 } else { 60 };
    let mut runs = 0u64;
    let mut bad = None;
    let mut of = requests();
    of.extend(panicking());
    'all: for threaded in &[false, true] {
        for r in &of {
            let mut base = (0, 0);
            for round in 0..rounds {
                runs += 1;
                let outcomes = Default::default();
                reset(Cfg {
                    mode: if *threaded { Mode::Threaded(outcomes) } else { Mode::Immediate(outcomes) },
                    track: true,
                    ..Cfg::default()
                });
                let mut b = http::Request::builder();
                b.method(r.method).uri(r.target);
                for (k, v) in &r.headers {
                    b.header(*k, &v[..]);
                }
                let bytes = r.body.as_ref().map_or(&b""[..], |b| &b.1);
                let a = alive("body", 1);
                let body = Body::wrap_stream(Slow(vec![bytes.to_vec()], Ready::new(1, 1), a));
                let req = b.body(body).unwrap();
                let ctx = Ctx {
                    tag: 7,
                    no: NoContext,
                    _alive: alive("context", 0),
                };
                let r2 = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Route::from_request_sync(req, ctx).is_ok()));
                drop(r2);
                let left = left_over();
                if !left.is_empty() {
                    bad = Some(format!("left over when from_request_sync returned: {:?}", left));
                }
                reset(Cfg::default());
                let now = (files(), rt::heap::live());
                if round == rounds / 3 {
                    base = now;
                }
                let grown = (rounds - rounds / 3) as i64;
                // what is freed by other threads doesn't count here
                if round == rounds - 1 && (now.0 > base.0 + 10 || !threaded && now.1 > base.1 + grown * 64) {
                    bad = Some(format!("files in use and bytes after {} calls: {:?}, after {}: {:?}", rounds / 3, base, rounds, now));
                }
                if let Some(m) = bad {
                    bad = Some(format!("{:?}, waits for threads: {}: {}", r, threaded, m));
                    break 'all;
                }
            }
        }
    }
    let details: Vec<Value> = bad.into_iter().map(|m| json!({ "message": m })).collect();
    json!({"states": runs, "transitions": runs, "runs": runs, "diverged": 0, "truncated": 0, "violations": details.len(), "details": details,
           "families": {"synchronous entry point": {"jobs": of.len(), "executions": runs}}})
}
