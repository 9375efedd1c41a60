//! The routers and services whose requests are processed by several threads. This crate is instrumented, and so is
//! everything generic it instantiates.

use hyperdrive::futures::{executor, Async, Future, IntoFuture, Poll, Stream};
use hyperdrive::hyper::service::Service;
use hyperdrive::hyper::{Body, Request, Response};
use hyperdrive::service::{AsyncService, ServiceExt, SyncService};
use hyperdrive::{http, BoxedError, DefaultFuture, FromBody, FromRequest, Guard, NoContext};
use std::cell::RefCell;
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::sync::Arc;

thread_local! {
    static LOG: RefCell<Vec<String>> = RefCell::new(vec![]);
}

fn log(s: String) {
    LOG.with(|l| l.borrow_mut().push(s));
}

fn seen(req: &Request<()>) -> String {
    format!("{} {} #{}", req.method(), req.uri(), req.headers().get("x-req").map_or("?", |v| v.to_str().unwrap()))
}

/// Guard that answers at once.
pub struct Seen(String);
impl fmt::Debug for Seen {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl Guard for Seen {
    type Context = NoContext;
    type Result = Result<Self, BoxedError>;
    fn from_request(req: &Arc<Request<()>>, _: &NoContext) -> Self::Result {
        log(format!("Seen {}", seen(req)));
        Ok(Seen(seen(req)))
    }
}

/// Guard that isn't ready at first.
#[derive(Debug)]
pub struct Later(String);
pub struct LaterFuture(u32, String);
impl Future for LaterFuture {
    type Item = Later;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<Later, BoxedError> {
        if self.0 > 0 {
            self.0 -= 1;
            hyperdrive::futures::task::current().notify();
            return Ok(Async::NotReady);
        }
        Ok(Async::Ready(Later(self.1.clone())))
    }
}
impl Guard for Later {
    type Context = NoContext;
    type Result = LaterFuture;
    fn from_request(req: &Arc<Request<()>>, _: &NoContext) -> Self::Result {
        log(format!("Later {}", seen(req)));
        LaterFuture(2, seen(req))
    }
}

/// Guard that decodes another request.
pub struct Nested(Inner);
impl fmt::Debug for Nested {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Nested({:?})", self.0)
    }
}
impl Guard for Nested {
    type Context = NoContext;
    type Result = Result<Self, BoxedError>;
    fn from_request(req: &Arc<Request<()>>, _: &NoContext) -> Self::Result {
        log(format!("Nested {}", seen(req)));
        let n = req.uri().path().rsplit('/').next().unwrap_or("");
        Inner::from_request_sync(Request::get(format!("/in/{}", n)).body(Body::empty()).unwrap(), NoContext).map(Nested)
    }
}

/// Placeholder type that decodes another request of the same router.
#[derive(Debug)]
pub struct Rec(u32, Option<Box<Route>>);
impl FromStr for Rec {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        let n: u32 = s.parse().map_err(|_| "no number".to_string())?;
        log(format!("Rec {}", n));
        if n == 0 {
            return Ok(Rec(0, None));
        }
        let uri = if n % 2 == 1 { format!("/rec/{}", n - 1) } else { format!("/n/{}", n) };
        Route::from_request_sync(Request::get(uri).body(Body::empty()).unwrap(), NoContext).map(|r| Rec(n, Some(Box::new(r)))).map_err(|e| e.to_string())
    }
}

/// Panics.
#[derive(Debug)]
pub struct Boom(());
impl FromStr for Boom {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        log(format!("Boom {}", s));
        panic!("boom {}", s)
    }
}

#[derive(Debug)]
pub struct Text(String);
impl FromBody for Text {
    type Context = NoContext;
    type Result = DefaultFuture<Self, BoxedError>;
    fn from_body(req: &Arc<Request<()>>, body: Body, _: &NoContext) -> Self::Result {
        log(format!("Text {}", seen(req)));
        Box::new(body.concat2().map_err(Into::into).map(|c| Text(String::from_utf8_lossy(&c).into_owned())))
    }
}

#[derive(Debug, serde::Deserialize)]
pub struct Q {
    a: u8,
    b: Option<String>,
}

#[derive(FromRequest, Debug)]
pub enum Inner {
    #[get("/in/{n}")]
    One { n: u32 },
    #[get("/in/{a}/{b}")]
    Two { b: String, a: String },
    #[post("/in/{n}")]
    Post {
        n: u32,
        s: Seen,
        #[body]
        b: Text,
    },
    #[get("/rest/{r...}")]
    #[put("/rest/{r...}")]
    Rest { r: String, s: Seen },
}

#[derive(FromRequest, Debug)]
pub enum Route {
    #[get("/plain")]
    #[put("/plain")]
    Plain,
    #[get("/n/{n}")]
    #[post("/m/{n}")]
    Num { n: u32 },
    #[get("/q")]
    Query {
        #[query_params]
        q: Q,
        s: Seen,
    },
    #[get("/nest/{n}")]
    Nest { n: u32, g: Nested, s: Seen },
    #[get("/rec/{d}")]
    Rec { d: Rec },
    #[get("/panic/{p}")]
    Panic { p: Boom },
    #[post("/body/{a}/{b}")]
    Body {
        b: String,
        l: Later,
        a: String,
        s: Seen,
        #[body]
        t: Text,
    },
    #[post("/json")]
    Json {
        #[body]
        q: hyperdrive::body::Json<Q>,
        s: Seen,
    },
    #[put("/json")]
    Form {
        l: Later,
        #[body]
        q: hyperdrive::body::HtmlForm<Q>,
    },
    Fallback {
        s: Seen,
        #[forward]
        i: Inner,
    },
}

/// A second router with a generic inner one.
#[derive(FromRequest, Debug)]
pub enum Outer<I> {
    #[get("/plain")]
    Mine,
    #[delete("/n/{x}")]
    Del { x: u64, s: Seen },
    Theirs {
        #[forward]
        i: I,
    },
}

pub type All = Outer<Route>;

/// Requests, by name.
pub const SPECS: &[(&str, &str, &str, &str)] = &[
    ("plain", "GET", "/plain", ""),
    ("num", "GET", "/n/7", ""),
    ("num2", "POST", "/m/8", ""),
    ("badnum", "GET", "/n/x", ""),
    ("query", "GET", "/q?a=1&b=two", ""),
    ("badquery", "GET", "/q?a=300", ""),
    ("nest", "GET", "/nest/5", ""),
    ("badnest", "GET", "/nest/05x", ""),
    ("rec", "GET", "/rec/3", ""),
    ("panic", "GET", "/panic/1", ""),
    ("body", "POST", "/body/x/y", "text"),
    ("inner", "GET", "/in/a/b", ""),
    ("innerpost", "POST", "/in/3", "inner text"),
    ("rest", "PUT", "/rest/a/b", ""),
    ("head", "HEAD", "/n/9", ""),
    ("none", "GET", "/none", ""),
    ("method", "PATCH", "/n/7", ""),
    ("innermethod", "DELETE", "/in/1", ""),
    ("delete", "DELETE", "/n/12", ""),
    ("json", "POST", "/json", "{\"a\":1,\"b\":\"x\"}"),
    ("badjson", "POST", "/json", "{\"a\":300}"),
    ("form", "PUT", "/json", "a=4&b=y"),
];

fn request(spec: usize, tag: u32) -> Request<Body> {
    let (_, m, p, b) = SPECS[spec];
    Request::builder().method(m).uri(p).header("x-req", tag.to_string()).body(if b.is_empty() { Body::empty() } else { Body::from(b) }).unwrap()
}

/// How requests get processed.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Via {
    /// `Route::from_request_sync`
    Sync,
    /// `Route::from_request_and_body`, polled
    Async,
    /// `Outer<Route>::from_request_sync`
    Outer,
    /// `AsyncService`, in a clone made by the thread
    Service,
    /// the same in `catch_unwind`
    Catch,
    /// `SyncService` in `catch_unwind`
    SyncService,
}

type Fut = DefaultFuture<Response<Body>, BoxedError>;

struct Shared<S>(S);
trait Callable: Send + Sync {
    fn call(&self, req: Request<Body>) -> Fut;
}
impl<S> Callable for Shared<S>
where
    S: Service<ReqBody = Body, ResBody = Body, Error = BoxedError, Future = Fut> + Clone + Send + Sync,
{
    fn call(&self, req: Request<Body>) -> Fut {
        self.0.clone().call(req)
    }
}

/// What the threads share.
pub struct Services(Vec<Box<dyn Callable>>);

fn response(r: String, req: &Request<()>) -> Response<Body> {
    log(format!("handler {}", seen(req)));
    Response::builder().header("x-seen", seen(req)).body(Body::from(r)).unwrap()
}

fn on_panic(p: Box<dyn std::any::Any + Send>) -> Result<Response<Body>, BoxedError> {
    let s = p.downcast_ref::<String>().cloned().unwrap_or_else(|| "?".into());
    log(format!("caught {}", s));
    Ok(Response::builder().status(500).body(Body::from(s)).unwrap())
}

pub fn services() -> Services {
    let a = AsyncService::new(|r: Route, req: Arc<Request<()>>| Ok(response(format!("{:?}", r), &req)).into_future());
    let s = SyncService::new(|r: Route, req: Arc<Request<()>>| response(format!("{:?}", r), &req));
    Services(vec![Box::new(Shared(a.clone())), Box::new(Shared(a.catch_unwind(on_panic))), Box::new(Shared(s.catch_unwind(on_panic)))])
}

struct NoNotify;
impl executor::Notify for NoNotify {
    fn notify(&self, _: usize) {}
}

/// Polls until ready.
fn drive<F: Future>(f: F) -> Result<Result<F::Item, F::Error>, String> {
    let mut s = executor::spawn(f);
    let n = Arc::new(NoNotify);
    for _ in 0..20 {
        match s.poll_future_notify(&n, 0) {
            Ok(Async::NotReady) => {}
            Ok(Async::Ready(r)) => return Ok(Ok(r)),
            Err(e) => return Ok(Err(e)),
        }
    }
    Err("never gets ready".into())
}

fn error(e: &BoxedError) -> String {
    match e.downcast_ref::<hyperdrive::Error>() {
        Some(h) => format!("error {} {:?}", h, h.allowed_methods()),
        None => format!("other error {}", e),
    }
}

fn value<T: fmt::Debug>(r: Result<Result<T, BoxedError>, String>) -> String {
    match r {
        Ok(Ok(v)) => format!("{:?}", v),
        Ok(Err(e)) => error(&e),
        Err(s) => s,
    }
}

fn answer(f: Fut) -> String {
    match drive(f) {
        Ok(Ok(r)) => {
            let (p, b) = r.into_parts();
            let body = drive(b.concat2());
            format!("{} {:?} {:?}", p.status, p.headers, body.map(|b| b.map(|c| String::from_utf8_lossy(&c).into_owned()).map_err(|e| e.to_string())))
        }
        Ok(Err(e)) => error(&e),
        Err(s) => s,
    }
}

/// Processes one request; tells everything observable.
pub fn run(s: &Services, via: Via, spec: usize, tag: u32) -> String {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let req = request(spec, tag);
        match via {
            Via::Sync => value(Ok(Route::from_request_sync(req, NoContext))),
            Via::Outer => value(Ok(All::from_request_sync(req, NoContext))),
            Via::Async => {
                let (parts, body) = req.into_parts();
                value(drive(Route::from_request_and_body(&Arc::new(http::Request::from_parts(parts, ())), body, NoContext)))
            }
            Via::Service => answer(s.0[0].call(req)),
            Via::Catch => answer(s.0[1].call(req)),
            Via::SyncService => {
                let _g = tokio_threadpool::blocking::set_default(|f| {
                    f();
                    Ok(Async::Ready(()))
                });
                answer(s.0[2].call(req))
            }
        }
    }));
    let log = LOG.with(|l| l.replace(vec![]));
    match r {
        Ok(s) => format!("{} {:?}", s, log),
        Err(p) => format!("panic {:?} {:?}", p.downcast_ref::<String>(), log),
    }
}
