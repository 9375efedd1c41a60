//! P11 to P15: services under explored histories of requests.

use hyperdrive::futures::{Async, Future, Poll, Stream};
use hyperdrive::hyper::service::{MakeService, Service};
use hyperdrive::hyper::{Body, Request, Response};
use hyperdrive::service::{AsyncService, ServiceExt, SyncService};
use hyperdrive::{http, BoxedError, DefaultFuture, FromBody, FromRequest, Guard, NoContext, RequestContext};
use rt::env::{self, *};
use rt::explore::{self, choose, step};
use rt::types::Ext;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt;
use std::rc::Rc;
use std::str::FromStr;
use std::sync::Arc;
use tokio_threadpool::BlockingError;

// ---------------------------------------------------------------- items

pub const CONV: Id = 1;
pub const G1: Id = 2;
pub const G2: Id = 3;
pub const G3: Id = 4;
pub const B: Id = 5;
pub const CLONE: Id = 6;
pub const HANDLER: Id = 50;
pub const PANIC: Id = 60;
pub const BLOCK: Id = 70;
pub const STREAM: Id = 80;

thread_local! {
    static CLONES_IN: RefCell<Option<u32>> = RefCell::new(None);
    static RESPONSES: RefCell<Vec<RespSpec>> = RefCell::new(vec![]);
}

/// Context; cloning it is an explored operation while a request is being processed.
#[derive(RequestContext)]
pub struct Ctx {
    pub tag: u32,
    alive: Alive,
}
impl Clone for Ctx {
    fn clone(&self) -> Self {
        let n = CLONES_IN.with(|c| c.borrow_mut().take());
        if let Some(n) = n {
            step();
            if decide_if("context clone", n * 100 + CLONE, |o| o == Outcome::PanicCall) == Outcome::PanicCall {
                throw(n * 100 + CLONE);
            }
        }
        Ctx::new(self.tag)
    }
}
impl Ctx {
    fn new(tag: u32) -> Ctx {
        Ctx {
            tag,
            alive: alive("context", 0),
        }
    }
}

pub fn seen(req: &Request<()>) -> String {
    rt::dynrt::seen(req)
}

fn number(req: &Request<()>) -> u32 {
    req.extensions().get::<Ext>().map_or(99_999, |e| e.0)
}

/// Placeholder type; its text names the request.
pub struct Conv(String, Alive);
impl fmt::Debug for Conv {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Conv({})", self.0)
    }
}
#[derive(Debug)]
pub struct ConvErr(String);
impl fmt::Display for ConvErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "can't convert {}", self.0)
    }
}
impl std::error::Error for ConvErr {}
impl FromStr for Conv {
    type Err = ConvErr;
    fn from_str(s: &str) -> Result<Self, ConvErr> {
        step();
        let id = s.parse::<u32>().unwrap_or(99_999) * 100 + CONV;
        log(Ev::Call(id, s.into()));
        match decide_if("conversion", id, |o| o == Outcome::Foreign || o == Outcome::PanicCall) {
            Outcome::Ok => Ok(Conv(s.into(), alive("converted", id))),
            Outcome::PanicCall => throw(id),
            _ => Err(ConvErr(s.into())),
        }
    }
}

macro_rules! guard {
    ($t:ident $id:ident) => {
        pub struct $t(u32, Alive);
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}({})", stringify!($t), self.0)
            }
        }
        impl Guard for $t {
            type Context = Ctx;
            type Result = Dyn<Self>;
            fn from_request(req: &Arc<Request<()>>, c: &Ctx) -> Dyn<Self> {
                step();
                let n = number(req);
                let id = n * 100 + $id;
                log(Ev::Call(id, format!("{} ctx{}", seen(req), c.tag)));
                match decide(stringify!($t), id) {
                    Outcome::PanicCall => throw(id),
                    o => Dyn::new(id, o, $t(n, alive(stringify!($t), id))),
                }
            }
        }
    };
}
guard!(Ga G1);
guard!(Gc G3);

/// Guard that answers at once.
pub struct Gb(u32, Alive);
impl fmt::Debug for Gb {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Gb({})", self.0)
    }
}
impl Guard for Gb {
    type Context = Ctx;
    type Result = Result<Self, BoxedError>;
    fn from_request(req: &Arc<Request<()>>, c: &Ctx) -> Result<Self, BoxedError> {
        step();
        let n = number(req);
        let id = n * 100 + G2;
        log(Ev::Call(id, format!("{} ctx{}", seen(req), c.tag)));
        match decide_if("Gb", id, |o| o != Outcome::Panic) {
            Outcome::Ok => Ok(Gb(n, alive("Gb", id))),
            Outcome::PanicCall => throw(id),
            o => Err(make_error(id, o)),
        }
    }
}

/// Body decoder that reads everything.
pub struct Whole(u32, String, Alive);
impl fmt::Debug for Whole {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Whole({}, {})", self.0, self.1)
    }
}
impl FromBody for Whole {
    type Context = Ctx;
    type Result = DefaultFuture<Self, BoxedError>;
    fn from_body(req: &Arc<Request<()>>, body: Body, c: &Ctx) -> Self::Result {
        step();
        let n = number(req);
        let id = n * 100 + B;
        log(Ev::Call(id, format!("{} ctx{}", seen(req), c.tag)));
        match decide("body", id) {
            Outcome::PanicCall => throw(id),
            o => Box::new(
                Dyn::new(id, o, ())
                    .and_then(|()| body.concat2().map_err(Into::into))
                    .map(move |c| Whole(n, String::from_utf8_lossy(&c).into(), alive("body value", id))),
            ),
        }
    }
}

/// Request body: two chunks, with explored readiness.
struct ReqBody {
    n: u32,
    ready: Ready,
    chunks: Vec<String>,
    _alive: Alive,
}
impl Stream for ReqBody {
    type Item = String;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<Option<String>, BoxedError> {
        step();
        if !self.ready.poll() {
            return Ok(Async::NotReady);
        }
        self.ready = Ready::new(self.n * 100 + STREAM, self.ready.left());
        Ok(Async::Ready(self.chunks.pop()))
    }
}

/// Decoded by serde, as query or body data.
#[derive(serde::Deserialize, Debug, PartialEq, Eq)]
pub struct Data {
    n: u32,
}

#[derive(FromRequest, Debug)]
#[context(Ctx)]
pub enum Route {
    #[get("/plain")]
    Plain,
    #[get("/conv/{c}")]
    #[post("/conv/{c}")]
    Conv { c: Conv },
    #[get("/guards")]
    #[options("/guards")]
    Guards { a: Ga, b: Gb },
    #[post("/body")]
    #[put("/body")]
    Body {
        a: Ga,
        #[body]
        b: Whole,
    },
    #[get("/all/{c}")]
    #[delete("/all/{c}")]
    All {
        b: Gb,
        c: Conv,
        a: Ga,
        #[body]
        w: Whole,
    },
    #[head("/head")]
    ExplicitHead { a: Ga },
    #[get("/head")]
    #[put("/head")]
    NotHead,
    #[get("/any")]
    #[head("/any")]
    #[post("/any")]
    #[put("/any")]
    #[delete("/any")]
    #[connect("/any")]
    #[options("/any")]
    #[trace("/any")]
    #[patch("/any")]
    Any,
    #[get("/query")]
    #[trace("/query")]
    Query {
        a: Ga,
        #[query_params]
        q: Data,
    },
    #[post("/json")]
    Json {
        #[body]
        d: hyperdrive::body::Json<Data>,
        a: Ga,
    },
    #[put("/form")]
    #[patch("/form")]
    Form {
        a: Ga,
        #[body]
        d: hyperdrive::body::HtmlForm<Data>,
    },
}

/// Outer router that forwards.
#[derive(FromRequest, Debug)]
#[context(Ctx)]
pub enum Outer {
    #[get("/own/{c}")]
    Own { c: Conv, g: Gc },
    #[post("/plain")]
    PlainPost,
    Rest {
        g: Gc,
        #[forward]
        r: Route,
    },
}

/// Hand-written decoder that takes everything.
#[derive(Debug)]
pub struct Custom(Whole);
impl FromRequest for Custom {
    type Future = DefaultFuture<Self, BoxedError>;
    type Context = Ctx;
    fn from_request_and_body(req: &Arc<Request<()>>, body: Body, context: Ctx) -> Self::Future {
        Box::new(Whole::from_body(req, body, &context).map(Custom))
    }
}

/// The type that requests are decoded to.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Router {
    Route,
    Outer,
    Custom,
}

/// What decoding a request involves: the items in order, and the value, or a routing error.
pub struct Plan {
    pub items: Vec<Id>,
    /// (Status 0: the error of serde_json; 1: the error of serde_urlencoded.)
    pub end: Result<String, (u16, Option<Vec<&'static str>>)>,
}

/// The reference: what the types are declared to do.
pub fn plan(router: Router, spec: &Spec, n: u32) -> Plan {
    let target = spec.path(n);
    // (absolute form: what follows the authority counts)
    let path = match target.find("://") {
        Some(i) => target[i + 3..].find('/').map_or("/", |k| &target[i + 3 + k..]),
        None => &target[..],
    };
    let path = path.split('?').next().unwrap();
    let method = spec.method;
    let id = |k: Id| n * 100 + k;
    let ok = |items: &[Id], v: String| Plan {
        items: items.iter().map(|k| id(*k)).collect(),
        end: Ok(v),
    };
    let err = |status, allowed: Option<&[&'static str]>| Plan {
        items: vec![],
        end: Err((status, allowed.map(|a| a.to_vec()))),
    };
    if router == Router::Custom {
        return ok(&[B], format!("Custom(Whole({}, body{}))", n, n));
    }
    if router == Router::Outer {
        if path.starts_with("/own/") {
            if method == "GET" || method == "HEAD" {
                return ok(&[CONV, G3], format!("Own {{ c: Conv({}), g: Gc({}) }}", n, n));
            }
        }
        if path == "/plain" && method == "POST" {
            return ok(&[], "PlainPost".into());
        }
        let mut p = plan(Router::Route, spec, n);
        let mine: &[&'static str] = if path == "/plain" {
            &["POST"]
        } else {
            &[]
        };
        // (the outer type's declared path makes the inner 405 allow more; a 404 stays)
        if let Err((405, Some(a))) = &mut p.end {
            a.extend(mine);
        }
        p.items.insert(0, id(G3));
        if let Ok(v) = &mut p.end {
            *v = format!("Rest {{ g: Gc({}), r: {} }}", n, v);
        }
        return p;
    }
    let get = method == "GET" || method == "HEAD";
    let body = format!("Whole({}, body{})", n, n);
    let seg = path.split('/').count();
    match path.split('/').nth(1).unwrap_or("") {
        "plain" if seg == 2 => {
            if get {
                ok(&[], "Plain".into())
            } else {
                err(405, Some(&["GET", "HEAD"]))
            }
        }
        "conv" if seg == 3 => {
            if get || method == "POST" {
                ok(&[CONV], format!("Conv {{ c: Conv({}) }}", n))
            } else {
                unreachable!("not in the tables: when conversions run for a 405 isn't specified")
            }
        }
        "guards" if seg == 2 => {
            if get || method == "OPTIONS" {
                ok(&[G1, G2], format!("Guards {{ a: Ga({}), b: Gb({}) }}", n, n))
            } else {
                err(405, Some(&["GET", "HEAD", "OPTIONS"]))
            }
        }
        "body" if seg == 2 => {
            if method == "POST" || method == "PUT" {
                ok(&[G1, B], format!("Body {{ a: Ga({}), b: {} }}", n, body))
            } else {
                err(405, Some(&["POST", "PUT"]))
            }
        }
        "all" if seg == 3 => {
            if get || method == "DELETE" {
                ok(&[CONV, G2, G1, B], format!("All {{ b: Gb({}), c: Conv({}), a: Ga({}), w: {} }}", n, n, n, body))
            } else {
                unreachable!()
            }
        }
        "head" if seg == 2 => match method {
            "HEAD" => ok(&[G1], format!("ExplicitHead {{ a: Ga({}) }}", n)),
            "GET" | "PUT" => ok(&[], "NotHead".into()),
            _ => err(405, Some(&["GET", "HEAD", "PUT"])),
        },
        "any" if seg == 2 => match method {
            "GET" | "HEAD" | "POST" | "PUT" | "DELETE" | "CONNECT" | "OPTIONS" | "TRACE" | "PATCH" => ok(&[], "Any".into()),
            _ => err(405, Some(&["GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"])),
        },
        "query" if seg == 2 => {
            if get || method == "TRACE" {
                if spec.query(n).split('&').next() == Some(&format!("?n={}", n)) {
                    ok(&[G1], format!("Query {{ a: Ga({}), q: Data {{ n: {} }} }}", n, n))
                } else {
                    err(400, None)
                }
            } else {
                err(405, Some(&["GET", "HEAD", "TRACE"]))
            }
        }
        "json" if seg == 2 => {
            if method == "POST" {
                if spec.body == ReqData::Json {
                    ok(&[G1], format!("Json {{ d: Json(Data {{ n: {} }}), a: Ga({}) }}", n, n))
                } else {
                    Plan { items: vec![id(G1)], ..err(0, None) }
                }
            } else {
                err(405, Some(&["POST"]))
            }
        }
        "form" if seg == 2 => {
            if method == "PUT" || method == "PATCH" {
                if spec.body == ReqData::Form {
                    ok(&[G1], format!("Form {{ a: Ga({}), d: HtmlForm(Data {{ n: {} }}) }}", n, n))
                } else {
                    Plan { items: vec![id(G1)], ..err(1, None) }
                }
            } else {
                err(405, Some(&["PUT", "PATCH"]))
            }
        }
        _ => err(404, None),
    }
}

// ---------------------------------------------------------------- requests and responses

#[derive(Clone, Debug)]
pub struct Spec {
    pub method: &'static str,
    /// `@` stands for the request's number.
    pub path: &'static str,
    /// `@` stands for the request's number.
    pub query: &'static str,
    pub body: ReqData,
    pub http10: bool,
    /// Which further headers, version etc. the request has.
    pub form: u8,
}

/// Number of forms.
pub const FORMS: u8 = 8;

fn put_form(b: &mut http::request::Builder, form: u8) {
    let mut set = |hs: &[(&str, &str)]| {
        for (k, v) in hs {
            b.header(*k, *v);
        }
    };
    let version = match form {
        0 => return,
        // other methods and targets than the request line's
        1 => {
            set(&[("x-http-method-override", "HEAD"), ("x-http-method", "HEAD"), ("x-method-override", "HEAD"), ("content-type", "application/x-www-form-urlencoded")]);
            http::Version::HTTP_11
        }
        2 => {
            set(&[("x-http-method-override", "POST"), ("x-http-method", "GET"), ("x-method-override", "PUT"), ("x-original-url", "/any"), ("x-rewrite-url", "/any"), ("x-forwarded-prefix", "/p")]);
            http::Version::HTTP_2
        }
        3 => {
            set(&[("host", "other"), ("forwarded", "for=1.2.3.4"), ("x-forwarded-for", "1.2.3.4"), ("x-forwarded-host", "h"), ("x-forwarded-proto", "https"), ("via", "1.1 p")]);
            http::Version::HTTP_09
        }
        // what responses and connections might depend on
        4 => {
            set(&[("range", "bytes=0-1"), ("if-range", "x"), ("if-match", "*"), ("if-none-match", "*"), ("if-modified-since", "Sun, 06 Nov 2094 08:49:37 GMT"), ("if-unmodified-since", "Sun, 06 Nov 1994 08:49:37 GMT")]);
            http::Version::HTTP_11
        }
        5 => {
            set(&[("connection", "close, upgrade"), ("upgrade", "websocket"), ("expect", "100-continue"), ("te", "trailers"), ("trailer", "x"), ("accept", "*/*;q=0"), ("accept-encoding", "identity;q=0"), ("origin", "null"), ("access-control-request-method", "HEAD")]);
            http::Version::HTTP_10
        }
        // unusual headers
        6 => {
            for i in 0..150 {
                b.header(&format!("h{}", i)[..], format!("v{}", i));
                b.header("set-cookie", format!("c{}", i));
            }
            b.header("big", "z".repeat(70_000));
            http::Version::HTTP_11
        }
        _ => {
            let mut secret = http::header::HeaderValue::from_static("secret");
            secret.set_sensitive(true);
            b.header("authorization", secret);
            b.header("bytes", http::header::HeaderValue::from_bytes(b"\xff\xfe a\tb").unwrap());
            b.header("empty", "");
            b.header("content-length", "0");
            b.header("transfer-encoding", "chunked");
            http::Version::HTTP_11
        }
    };
    b.version(version);
}

/// In the extensions of requests.
struct AliveHead(#[allow(dead_code)] Alive);

/// Kinds of request bodies; each in two chunks and with the request's number.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ReqData {
    Text,
    Json,
    Form,
}

pub const fn spec(method: &'static str, path: &'static str) -> Spec {
    Spec {
        method,
        path,
        query: "",
        body: ReqData::Text,
        http10: false,
        form: 0,
    }
}

pub const fn with_query(s: Spec, query: &'static str) -> Spec {
    Spec { query, ..s }
}

pub const fn with_body(s: Spec, body: ReqData) -> Spec {
    Spec { body, ..s }
}

impl Spec {
    pub fn query(&self, n: u32) -> String {
        self.query.replace('@', &n.to_string())
    }
    pub fn path(&self, n: u32) -> String {
        self.path.replace("/@", &format!("/{}", n))
    }
    fn request(&self, n: u32) -> Request<Body> {
        let mut b = Request::builder();
        b.method(self.method)
            .uri(format!("{}{}", self.path(n), self.query(n)))
            .header("a", "1")
            .header("b", format!("req{}", n))
            .header("a", "2")
            .extension(Ext(n))
            .extension(AliveHead(alive("request head", n * 100)));
        put_form(&mut b, self.form);
        if self.http10 {
            b.version(http::Version::HTTP_10);
        }
        let left = with_cfg(|c| c.body_pendings);
        b.body(Body::wrap_stream(ReqBody {
            n,
            ready: Ready::new(n * 100 + STREAM, left),
            chunks: match self.body {
                ReqData::Text => vec![n.to_string(), "body".into()],
                ReqData::Json => vec![format!("{}}}", n), "{\"n\":".into()],
                ReqData::Form => vec![n.to_string(), "n=".into()],
            },
            _alive: alive("request body", n * 100 + STREAM),
        }))
        .unwrap()
    }
    fn head(&self, n: u32) -> Request<()> {
        let (parts, _) = self.request(n).into_parts();
        Request::from_parts(parts, ())
    }
}

#[derive(Clone, Debug)]
pub enum BodyKind {
    Empty,
    Text(&'static str),
    /// Stream with explored readiness.
    Stream,
    Big(usize),
}

#[derive(Clone, Debug)]
pub struct RespSpec {
    pub status: u16,
    pub version: http::Version,
    pub headers: Vec<(&'static str, &'static str)>,
    pub ext: Option<u32>,
    pub body: BodyKind,
}

pub fn resp(status: u16, headers: &[(&'static str, &'static str)], ext: Option<u32>, body: BodyKind) -> RespSpec {
    RespSpec {
        status,
        version: http::Version::HTTP_11,
        headers: headers.to_vec(),
        ext,
        body,
    }
}

/// Marker in the extensions of responses.
struct RExt(u32);
struct AliveResponse(#[allow(dead_code)] Alive);
const RESPONSE: &str = "response head";

impl RespSpec {
    fn make(&self) -> Response<Body> {
        let mut b = Response::builder();
        b.status(self.status).version(self.version);
        for (k, v) in &self.headers {
            b.header(*k, *v);
        }
        if let Some(e) = self.ext {
            b.extension(RExt(e));
        }
        b.extension(AliveResponse(alive(RESPONSE, 0)));
        b.body(match &self.body {
            BodyKind::Empty => Body::empty(),
            BodyKind::Text(s) => Body::from(*s),
            BodyKind::Stream => log_body(&[b"st", b"", b"ream"]),
            BodyKind::Big(n) => Body::from(vec![b'z'; *n]),
        })
        .unwrap()
    }
    fn want(&self, head: bool) -> Got {
        let mut h: Vec<(String, String)> = self.headers.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
        h.sort_by(|a, b| a.0.cmp(&b.0));
        Got {
            status: self.status,
            version: format!("{:?}", self.version),
            headers: h,
            ext: self.ext,
            body: if head {
                Ok(vec![])
            } else {
                Ok(match &self.body {
                    BodyKind::Empty => vec![],
                    BodyKind::Text(s) => s.as_bytes().to_vec(),
                    BodyKind::Stream => b"stream".to_vec(),
                    BodyKind::Big(n) => vec![b'z'; *n],
                })
            },
        }
    }
}

/// What's observable of a response.
#[derive(Clone, PartialEq)]
pub struct Got {
    status: u16,
    version: String,
    headers: Vec<(String, String)>,
    ext: Option<u32>,
    body: Result<Vec<u8>, String>,
}
impl fmt::Debug for Got {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{} {} {:?} ext {:?} body {:?}", self.status, self.version, self.headers, self.ext, self.body.as_ref().map(|b| String::from_utf8_lossy(&b[..b.len().min(100)]).into_owned()))
    }
}

fn observe(r: Response<Body>) -> Got {
    let (parts, body) = r.into_parts();
    let mut headers: Vec<(String, String)> =
        parts.headers.iter().map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned())).collect();
    headers.sort_by(|a, b| a.0.cmp(&b.0));
    Got {
        status: parts.status.as_u16(),
        version: format!("{:?}", parts.version),
        headers,
        ext: parts.extensions.get::<RExt>().map(|e| e.0),
        body: collect(body),
    }
}

/// Reads a body; doesn't offer to drop it.
fn collect(body: Body) -> Result<Vec<u8>, String> {
    let drops = env::set_drops(false);
    let r = match env::run(move || body.concat2().map_err(BoxedError::from)) {
        End::Done(Ok(c)) => Ok(c.to_vec()),
        End::Done(Err(e)) => Err(e.to_string()),
        End::Panicked(p) => Err(format!("panic: {}", End::<()>::panic_message(&*p))),
        End::Stalled(s) => Err(s),
        End::Dropped => unreachable!(),
    };
    env::set_drops(drops);
    r
}

/// The part of the request handlers see, and the response they pick.
fn pick_response() -> RespSpec {
    let n = RESPONSES.with(|r| r.borrow().len());
    let i = choose("response", n);
    RESPONSES.with(|r| r.borrow()[i].clone())
}

// ---------------------------------------------------------------- services

type Fut = DefaultFuture<Response<Body>, BoxedError>;

/// Object-safe service.
pub trait Svc {
    fn call(&mut self, req: Request<Body>) -> Fut;
    fn dup(&self) -> Box<dyn Svc>;
    /// Through `make_service_by_cloning`.
    fn made(&self) -> Box<dyn Svc>;
    /// Through the type's own `MakeService`, if it has one.
    fn own_made(&mut self) -> Option<Box<dyn Svc>>;
}

type Shared = Rc<RefCell<Box<dyn Svc>>>;

fn share(s: Box<dyn Svc>) -> Shared {
    Rc::new(RefCell::new(s))
}

struct Plain<S>(S);
impl<S> Svc for Plain<S>
where
    S: Service<ReqBody = Body, ResBody = Body, Error = BoxedError, Future = Fut> + Clone + 'static,
{
    fn call(&mut self, req: Request<Body>) -> Fut {
        self.0.call(req)
    }
    fn dup(&self) -> Box<dyn Svc> {
        Box::new(Plain(self.0.clone()))
    }
    fn made(&self) -> Box<dyn Svc> {
        let s: S = self.0.clone().make_service_by_cloning().make_service(()).wait().ok().expect("make_service failed");
        Box::new(Plain(s))
    }
    fn own_made(&mut self) -> Option<Box<dyn Svc>> {
        None
    }
}

/// A service that is also its own `MakeService`.
struct Own<S>(S);
impl<S> Svc for Own<S>
where
    S: Service<ReqBody = Body, ResBody = Body, Error = BoxedError, Future = Fut> + Clone + 'static,
    S: MakeService<u8, Service = S>,
    <S as MakeService<u8>>::Future: Future<Item = S>,
{
    fn call(&mut self, req: Request<Body>) -> Fut {
        self.0.call(req)
    }
    fn dup(&self) -> Box<dyn Svc> {
        Box::new(Own(self.0.clone()))
    }
    fn made(&self) -> Box<dyn Svc> {
        let s: S = self.0.clone().make_service_by_cloning().make_service(()).wait().ok().expect("make_service failed");
        Box::new(Own(s))
    }
    fn own_made(&mut self) -> Option<Box<dyn Svc>> {
        Some(Box::new(Own(self.0.make_service(7u8).wait().ok().expect("make_service failed"))))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Async,
    Sync,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Catch {
    No,
    /// The panic handler returns a future.
    Future,
    /// The panic handler returns a `Result`.
    Result,
    /// Like `Future`, in a service that catches panics, too (and gets those of the panic handler).
    Nested,
}

fn handle(r: String, req: &Arc<Request<()>>) -> (Id, RespSpec) {
    step();
    let n = number(req);
    let id = n * 100 + HANDLER;
    log(Ev::Call(id, format!("{} | {}", r, seen(req))));
    (id, RespSpec::clone(&pick_response()))
}

/// The response a panic handler makes.
fn panic_response(id: Option<Id>) -> RespSpec {
    resp(
        500,
        &[("x-panic", "yes")],
        Some(id.unwrap_or(9999)),
        BodyKind::Text("caught"),
    )
}

fn caught(p: &(dyn Any + Send)) -> (Id, RespSpec) {
    step();
    let t = thrown(p);
    let n = t.map_or(99_999, |t| t / 100);
    let id = n * 100 + PANIC;
    log(Ev::Call(id, format!("{:?}", t)));
    (id, panic_response(t))
}

/// What the outer of two panic handlers makes of a payload: it gets the panics of the inner one only.
fn caught_outside(p: &(dyn Any + Send)) -> RespSpec {
    step();
    let t = thrown(p);
    let n = t.map_or(99_999, |t| t / 100);
    log(Ev::Call(n * 100 + PANIC, format!("outside: {:?}", t)));
    panic_response(t)
}

pub fn build(kind: Kind, catch: Catch, router: Router, tag: u32) -> Box<dyn Svc> {
    fn a<R: FromRequest<Context = Ctx> + fmt::Debug + 'static>(catch: Catch, tag: u32) -> Box<dyn Svc>
    where
        R::Future: 'static,
    {
        let keep = alive("handler", 0);
        let s = AsyncService::with_context(
            move |r: R, req: Arc<Request<()>>| {
                let _ = &keep;
                let (id, resp) = handle(format!("{:?}", r), &req);
                RESP_OF.with(|m| m.borrow_mut().insert(id / 100, resp.clone()));
                match decide("handler", id) {
                    Outcome::PanicCall => throw(id),
                    o => Dyn::new(id, o, resp.make()),
                }
            },
            Ctx::new(tag),
        );
        let keep2 = alive("panic handler", 0);
        match catch {
            Catch::No => Box::new(Own(s)),
            Catch::Future => Box::new(Plain(s.catch_unwind(move |p| {
                let _ = &keep2;
                let (id, r) = caught(&*p);
                Dyn::new(id, decide_if("panic handler", id, is_err), r.make())
            }))),
            Catch::Nested => {
                let s = s.catch_unwind(move |p| {
                    let _ = &keep2;
                    let (id, r) = caught(&*p);
                    match decide_if("panic handler", id, |o| is_err(o) || panics(o)) {
                        Outcome::PanicCall => throw(id),
                        o => Dyn::new(id, o, r.make()),
                    }
                });
                Box::new(Plain(s.catch_unwind(|p| Ok(caught_outside(&*p).make()))))
            }
            Catch::Result => Box::new(Plain(s.catch_unwind(move |p| {
                let _ = &keep2;
                let (id, r) = caught(&*p);
                match decide_if("panic handler", id, is_err) {
                    Outcome::Ok => Ok(r.make()),
                    o => Err(make_error(id, o)),
                }
            }))),
        }
    }
    fn s<R: FromRequest<Context = Ctx> + fmt::Debug + Send + 'static>(catch: Catch, tag: u32) -> Box<dyn Svc>
    where
        R::Future: 'static,
    {
        let keep = alive("handler", 0);
        let s = SyncService::with_context(
            move |r: R, req: Arc<Request<()>>| {
                let _ = &keep;
                let (id, resp) = handle(format!("{:?}", r), &req);
                RESP_OF.with(|m| m.borrow_mut().insert(id / 100, resp.clone()));
                match decide_if("handler", id, |o| o == Outcome::PanicCall) {
                    Outcome::PanicCall => throw(id),
                    _ => resp.make(),
                }
            },
            Ctx::new(tag),
        );
        let keep2 = alive("panic handler", 0);
        match catch {
            Catch::No => Box::new(Own(s)),
            Catch::Future => Box::new(Plain(s.catch_unwind(move |p| {
                let _ = &keep2;
                let (id, r) = caught(&*p);
                Dyn::new(id, decide_if("panic handler", id, is_err), r.make())
            }))),
            Catch::Nested => {
                let s = s.catch_unwind(move |p| {
                    let _ = &keep2;
                    let (id, r) = caught(&*p);
                    match decide_if("panic handler", id, |o| is_err(o) || panics(o)) {
                        Outcome::PanicCall => throw(id),
                        o => Dyn::new(id, o, r.make()),
                    }
                });
                Box::new(Plain(s.catch_unwind(|p| Ok(caught_outside(&*p).make()))))
            }
            Catch::Result => Box::new(Plain(s.catch_unwind(move |p| {
                let _ = &keep2;
                let (id, r) = caught(&*p);
                match decide_if("panic handler", id, is_err) {
                    Outcome::Ok => Ok(r.make()),
                    o => Err(make_error(id, o)),
                }
            }))),
        }
    }
    match (kind, router) {
        (Kind::Async, Router::Route) => a::<Route>(catch, tag),
        (Kind::Async, Router::Outer) => a::<Outer>(catch, tag),
        (Kind::Async, Router::Custom) => a::<Custom>(catch, tag),
        (Kind::Sync, Router::Route) => s::<Route>(catch, tag),
        (Kind::Sync, Router::Outer) => s::<Outer>(catch, tag),
        (Kind::Sync, Router::Custom) => s::<Custom>(catch, tag),
    }
}

thread_local! {
    /// The response the handler was told to give, per request.
    static RESP_OF: RefCell<BTreeMap<u32, RespSpec>> = RefCell::new(BTreeMap::new());
    static BLOCK_LEFT: RefCell<u32> = RefCell::new(0);
    static GRANT: RefCell<BTreeMap<usize, Ready>> = RefCell::new(BTreeMap::new());
    static CURRENT: Cell<usize> = Cell::new(0);
}

fn is_err(o: Outcome) -> bool {
    matches!(o, Outcome::Foreign | Outcome::ForeignBy(_) | Outcome::Lib(_) | Outcome::LibBy(..))
}

fn panics(o: Outcome) -> bool {
    matches!(o, Outcome::Panic | Outcome::PanicCall)
}

/// Blocking environment: capacity is granted or refused as explored.
pub fn blocking_env(f: &mut dyn FnMut()) -> Poll<(), BlockingError> {
    step();
    // a refused request for capacity waits until capacity frees up
    let me = CURRENT.with(|c| c.get());
    let mut r = GRANT
        .with(|g| g.borrow_mut().remove(&me))
        .unwrap_or_else(|| Ready::new(me as Id * 100 + BLOCK, with_cfg(|c| c.pendings)));
    let ready = r.poll();
    if !ready {
        GRANT.with(|g| g.borrow_mut().insert(me, r));
    }
    if ready {
        f();
        Ok(Async::Ready(()))
    } else {
        Ok(Async::NotReady)
    }
}

// ---------------------------------------------------------------- judging

/// A mismatch, and the properties it breaks.
pub struct Bad(pub &'static [&'static str], pub String);

#[derive(Debug)]
enum Want {
    /// The handler's response.
    Handler(Got),
    LibError(u16, Option<Vec<String>>),
    Foreign(Id),
    ForeignBy(Id, u8),
    Wrapped(Id),
    Panic(Id),
    JsonError,
    FormError,
}

fn failure(id: Id, o: Outcome) -> Option<Want> {
    Some(match o {
        Outcome::Ok => return None,
        Outcome::Foreign => Want::Foreign(id),
        Outcome::Wrapped => Want::Wrapped(id),
        Outcome::ForeignBy(k) => Want::ForeignBy(id, k),
        Outcome::Lib(s) | Outcome::LibBy(_, s) => Want::LibError(s, Some(allowed_by(o).into_iter().map(Into::into).collect())),
        Outcome::Panic | Outcome::PanicCall => Want::Panic(id),
    })
}

fn error_matches(w: &Want, e: &BoxedError) -> bool {
    match w {
        Want::Foreign(id) => e.downcast_ref::<ForeignErr>().map_or(false, |f| f.0 == *id),
        Want::ForeignBy(id, k) => is_foreign(*id, *k, e),
        Want::JsonError => e.is::<serde_json::Error>(),
        Want::FormError => e.is::<serde_urlencoded::de::Error>(),
        Want::Wrapped(id) => e.downcast_ref::<WrappedErr>().map_or(false, |f| f.0 == *id && f.1.http_status() == 404),
        // (only the panic handler's errors aren't turned into responses)
        Want::LibError(s, _) => e.downcast_ref::<hyperdrive::Error>().map_or(false, |f| f.http_status().as_u16() == *s),
        _ => false,
    }
}

fn split_allow(s: &str) -> Vec<String> {
    let mut v: Vec<String> = s.split(',').map(|m| m.trim().to_string()).filter(|m| !m.is_empty()).collect();
    v.sort();
    v
}

/// Compares what happened to one request with the reference.
pub fn judge(kind: Kind, catch: Catch, router: Router, tag: u32, spec: &Spec, n: u32, end: End<Got>, log: &[Ev], outcomes: &BTreeMap<Id, Outcome>) -> Result<(), Bad> {
    let path = spec.path(n);
    let p = plan(router, spec, n);
    let outcome = |id: Id| outcomes.get(&id).cloned().unwrap_or(Outcome::Ok);
    let head = spec.method == "HEAD";
    let see = seen(&spec.head(n));
    let hid = n * 100 + HANDLER;
    let pid = n * 100 + PANIC;
    let dropped = matches!(end, End::Dropped);

    // the reference run
    let mut want = None;
    for id in std::iter::once(&(n * 100 + CLONE)).chain(&p.items) {
        want = failure(*id, outcome(*id));
        if *id == n * 100 + CONV {
            if let Some(Want::Foreign(_)) = want {
                want = Some(Want::LibError(404, None));
            }
        }
        if want.is_some() {
            break;
        }
    }
    let mut handler_called = false;
    let mut from_handler = false;
    let want = match (want, &p.end) {
        (Some(w), _) => w,
        (None, Err((0, _))) => Want::JsonError,
        (None, Err((1, _))) => Want::FormError,
        (None, Err((s, allowed))) => Want::LibError(*s, allowed.as_ref().map(|a| a.iter().map(|m| m.to_string()).collect())),
        (None, Ok(_)) => {
            handler_called = true;
            match failure(hid, outcome(hid)) {
                Some(w) => {
                    from_handler = true;
                    w
                }
                None => {
                    let r = RESP_OF.with(|m| m.borrow().get(&n).cloned());
                    match r {
                        Some(r) => Want::Handler(r.want(head)),
                        None => Want::Handler(resp(0, &[], None, BodyKind::Empty).want(false)),
                    }
                }
            }
        }
    };

    // calls
    let mut hcalls = vec![];
    let mut pcalls = vec![];
    for e in log {
        if let Ev::PollAfterEnd(id) = e {
            return Err(Bad(&["P10", "P11", "P14", "P15"], format!("item {} polled after it ended", id)));
        }
        if let Ev::Call(id, s) = e {
            if *id == hid {
                hcalls.push(s.clone());
            } else if id % 100 == PANIC {
                pcalls.push((*id, s.clone()));
            } else if id % 100 != CONV {
                let w = format!("{} ctx{}", see, tag);
                if *s != w {
                    return Err(Bad(&["P11", "P15", "P17"], format!("item {} was given {:?} instead of {:?}", id, s, w)));
                }
            }
        }
    }
    if dropped {
        if hcalls.len() > handler_called as usize {
            return Err(Bad(&["P11", "P15"], format!("the handler was called {} times", hcalls.len())));
        }
        if pcalls.len() > matches!(want, Want::Panic(_)) as usize * (1 + panics(outcome(pid)) as usize) {
            return Err(Bad(&["P14", "P15"], format!("the panic handler was called {} times", pcalls.len())));
        }
        return Ok(());
    }
    let wcalls: Vec<String> = match &p.end {
        Ok(v) if handler_called => vec![format!("{} | {}", v, see)],
        _ => vec![],
    };
    if hcalls != wcalls {
        return Err(Bad(&["P11", "P15"], format!("handler calls are {:?} instead of {:?}", hcalls, wcalls)));
    }
    if let End::Stalled(s) = &end {
        return Err(Bad(&["P10", "P11", "P13", "P14", "P15"], format!("stalled: {}", s)));
    }
    if catch == Catch::No {
        // escaping panics are the caller's business
        if let (Want::Panic(_), End::Panicked(_)) = (&want, &end) {
            return Ok(());
        }
    } else {
        let wp = match &want {
            // panics of the panic handler are those of the service for the one around it
            Want::Panic(id) if panics(outcome(pid)) => vec![(pid, format!("{:?}", Some(id))), (pid, format!("outside: {:?}", Some(pid)))],
            Want::Panic(id) => vec![(pid, format!("{:?}", Some(id)))],
            _ => vec![],
        };
        if pcalls != wp {
            return Err(Bad(&["P14", "P15"], format!("panic handler calls are {:?} instead of {:?} (expected {:?})", pcalls, wp, want)));
        }
    }
    // the outcome
    let got = match end {
        End::Done(r) => r,
        End::Panicked(p) => {
            return Err(Bad(
                if catch == Catch::No { &["P11", "P13", "P15"] } else { &["P14", "P15"] },
                format!("panics ({}) instead of {:?}", End::<()>::panic_message(&*p), want),
            ))
        }
        _ => unreachable!(),
    };
    match &want {
        Want::Panic(id) => {
            // the panic handler's outcome
            let ok = match (failure(pid, outcome(pid)), &got) {
                (None, Ok(g)) => *g == panic_response(Some(*id)).want(false),
                (Some(Want::Panic(pid)), Ok(g)) => *g == panic_response(Some(pid)).want(false),
                (Some(w), Err(e)) => error_matches(&w, e),
                _ => false,
            };
            if !ok {
                return Err(Bad(&["P14", "P15"], format!("the outcome isn't the panic handler's: {:?}", got)));
            }
        }
        Want::Handler(w) => {
            let g = match &got {
                Ok(g) => g,
                Err(e) => return Err(Bad(&["P11", "P14", "P15"], format!("error {:?} instead of {:?}", e, w))),
            };
            if g != w {
                let same_but_body = Got { body: w.body.clone(), ..g.clone() } == *w;
                let props: &'static [&'static str] = match (head, same_but_body) {
                    (true, true) => &["P12", "P15"],
                    (true, false) => &["P11", "P12", "P14", "P15"],
                    (false, true) => &["P11", "P12", "P14", "P15"],
                    (false, false) => &["P11", "P14", "P15"],
                };
                return Err(Bad(props, format!("response {:?} instead of {:?}", g, w)));
            }
        }
        Want::LibError(status, allowed) => {
            let g = match &got {
                Ok(g) => g,
                Err(e) => return Err(Bad(&["P13", "P15"], format!("error {:?} isn't turned into a response", e))),
            };
            let mut allow: Vec<Vec<String>> = g.headers.iter().filter(|h| h.0 == "allow").map(|h| split_allow(&h.1)).collect();
            let others = g.headers.iter().any(|h| h.0 != "allow");
            let wallow: Vec<Vec<String>> = if *status == 405 {
                let mut a = allowed.clone().unwrap_or_default();
                a.sort();
                vec![a]
            } else {
                vec![]
            };
            // (whether a guard's 405 in the fallback variant is joined with the outer type's methods isn't judged here)
            if router == Router::Outer && path == "/plain" && *status == 405 && outcome(n * 100 + G3) != Outcome::Ok {
                let mut joined = wallow.clone();
                joined[0].push("POST".into());
                joined[0].sort();
                if allow == joined {
                    allow = wallow.clone();
                }
            }
            if g.status != *status || allow != wallow || others || g.body != Ok(vec![]) {
                let props: &'static [&'static str] = if head && g.body != Ok(vec![]) { &["P12", "P13", "P15"] } else { &["P13", "P15"] };
                return Err(Bad(props, format!("response {:?} to an error with status {} and allowed {:?}", g, status, allowed)));
            }
        }
        Want::Foreign(_) | Want::ForeignBy(..) | Want::Wrapped(_) | Want::JsonError | Want::FormError => {
            let ok = match &got {
                Err(e) => error_matches(&want, e),
                _ => false,
            };
            if !ok {
                let props: &'static [&'static str] = if from_handler { &["P11", "P13", "P14", "P15"] } else { &["P13", "P14", "P15"] };
                return Err(Bad(props, format!("{:?} instead of the error {:?}", got, want)));
            }
        }
    }
    let _ = kind;
    Ok(())
}

// ---------------------------------------------------------------- exploration

#[derive(Clone)]
pub struct Case {
    pub family: &'static str,
    pub kind: Kind,
    pub catch: Catch,
    pub router: Router,
    pub history: Vec<Spec>,
    pub responses: Vec<RespSpec>,
    pub cfg: Cfg,
    pub budget: u32,
    /// Whether to explore which instance (clone, made service, other service) takes each request.
    pub instances: bool,
    /// Instances take turns.
    pub rotate: bool,
    /// How often the history is repeated.
    pub rounds: u32,
    /// All requests in flight at once.
    pub together: bool,
    /// Whether to compare the memory in use after half of the requests with that at the end.
    pub heap: bool,
}

/// Growth that isn't taken for a leak.
const MOST_GROWTH: i64 = 24 * 1024;

fn nothing_left(when: &str, left: Vec<(Id, &'static str)>) -> Result<(), Bad> {
    match left.is_empty() {
        true => Ok(()),
        false => Err(Bad(&["P20"], format!("when {}, these were still there: {:?}", when, left))),
    }
}

/// What is left over but responses (only their heads if they're `empty`).
fn left_after(empty: bool) -> Vec<(Id, &'static str)> {
    let mut left = left_over();
    left.retain(|(_, w)| *w != RESPONSE && (empty || *w != LOG_BODY));
    left
}

impl Case {
    pub fn describe(&self) -> String {
        format!(
            "{}: {:?} catch={:?} {:?} {} {:?}",
            self.family,
            self.kind,
            self.catch,
            self.router,
            if self.together { "in flight together" } else { "one after the other" },
            self.history.iter().map(|s| format!("{} {}{} form {}", s.method, &s.path[..s.path.len().min(60)], s.query, s.form)).collect::<Vec<_>>()
        ) + &if self.rounds > 1 { format!(" {} times", self.rounds) } else { String::new() }
    }

    fn get_instance(&self, services: &mut Vec<(Shared, u32)>, number: usize) -> usize {
        if !self.instances {
            return 0;
        }
        let own = self.catch == Catch::No;
        // the first service, a clone, a made one, the most recent one, another service, its own make_service
        let ways = if own { 6 } else { 5 };
        let n = if self.rotate { number / 2 % ways } else { choose("instance", ways) };
        let last = services.len() - 1;
        let made = match n {
            0 => return 0,
            1 => (share(services[last].0.borrow().dup()), services[last].1),
            2 => (share(services[0].0.borrow().made()), services[0].1),
            3 => return last,
            4 => return 1,
            _ => (share(services[0].0.borrow_mut().own_made().unwrap()), services[0].1),
        };
        services.push(made);
        services.len() - 1
    }

    /// One execution.
    pub fn execute(&self) -> Result<(), Bad> {
        let mut services = vec![];
        let r = self.execute_on(&mut services);
        drop(services);
        r?;
        nothing_left("all requests were over and all services gone", left_over_at_last())
    }

    fn execute_on(&self, services: &mut Vec<(Shared, u32)>) -> Result<(), Bad> {
        reset(self.cfg.clone());
        GRANT.with(|g| g.borrow_mut().clear());
        RESP_OF.with(|m| m.borrow_mut().clear());
        RESPONSES.with(|r| *r.borrow_mut() = self.responses.clone());
        CLONES_IN.with(|c| *c.borrow_mut() = None);
        services.push((share(build(self.kind, self.catch, self.router, 7)), 7));
        if self.instances {
            services.push((share(build(self.kind, self.catch, self.router, 8)), 8));
        }
        if self.together {
            let mut tags = vec![];
            let mut makes: Vec<Box<dyn FnOnce() -> Fut>> = vec![];
            for (n, spec) in self.requests().enumerate() {
                let i = self.get_instance(services, n);
                tags.push(services[i].1);
                let s = services[i].0.clone();
                let spec = spec.clone();
                makes.push(Box::new(move || {
                    let req = spec.request(n as u32);
                    CLONES_IN.with(|c| *c.borrow_mut() = Some(n as u32));
                    let f = s.borrow_mut().call(req);
                    CLONES_IN.with(|c| *c.borrow_mut() = None);
                    f
                }));
            }
            lasting();
            let ends = env::run_many(makes, |i| CURRENT.with(|c| c.set(i)));
            GRANT.with(|g| g.borrow_mut().clear());
            let left = left_after(false);
            let log = take_log();
            let outcomes = outcomes();
            let mut of: Vec<Vec<Ev>> = ends.iter().map(|_| vec![]).collect();
            for e in &log {
                if let Ev::Call(id, _) | Ev::PollAfterEnd(id) = e {
                    if let Some(v) = of.get_mut((id / 100) as usize) {
                        v.push(e.clone());
                    }
                }
            }
            for (n, ((spec, end), mine)) in self.requests().zip(ends).zip(of).enumerate() {
                let end = self.end(end);
                judge(self.kind, self.catch, self.router, tags[n], spec, n as u32, end, &mine, &outcomes)
                    .map_err(|b| Bad(b.0, format!("request {}: {}", n, b.1)))?;
            }
            if let Some(e) = log.iter().find(|e| matches!(e, Ev::Call(id, _) if (id / 100) as usize >= self.requests().count())) {
                return Err(Bad(&["P15", "P14", "P11"], format!("a call that belongs to none of the requests: {:?}", e)));
            }
            nothing_left("all requests were over", left)?;
            return nothing_left("the responses were gone, too", left_over());
        }
        let count = self.requests().count();
        let mut used = 0;
        for (n, spec) in self.requests().enumerate() {
            let i = self.get_instance(services, n);
            let (s, tag) = &services[i];
            lasting();
            if n == count / 2 {
                used = rt::heap::live();
            }
            let req = spec.request(n as u32);
            CURRENT.with(|c| c.set(n));
            CLONES_IN.with(|c| *c.borrow_mut() = Some(n as u32));
            let end = env::run(|| s.borrow_mut().call(req));
            CLONES_IN.with(|c| *c.borrow_mut() = None);
            GRANT.with(|g| g.borrow_mut().clear());
            let left = left_after(spec.method == "HEAD");
            let log = take_log();
            let end = self.end(end);
            judge(self.kind, self.catch, self.router, *tag, spec, n as u32, end, &log, &take_outcomes())
                .map_err(|b| Bad(b.0, format!("request {}: {}", n, b.1)))?;
            take_log();
            RESP_OF.with(|m| m.borrow_mut().clear());
            let what = |w| format!("request {} {}", n, w);
            nothing_left(&what("was over"), left)?;
            nothing_left(&what("was over and its response gone"), left_over())?;
        }
        if self.heap {
            let grown = rt::heap::live() - used;
            if grown > MOST_GROWTH {
                return Err(Bad(&["P20"], format!("{} more bytes are in use after {} requests than after half of them", grown, count)));
            }
        }
        Ok(())
    }

    fn requests(&self) -> impl Iterator<Item = &Spec> {
        self.history.iter().cycle().take(self.history.len() * self.rounds as usize)
    }

    fn end(&self, end: End<Response<Body>>) -> End<Got> {
        match end {
            End::Done(Ok(r)) => End::Done(Ok(observe(r))),
            End::Done(Err(e)) => End::Done(Err(e)),
            End::Panicked(p) => End::Panicked(p),
            End::Dropped => End::Dropped,
            End::Stalled(s) => End::Stalled(s),
        }
    }

    /// Explores all executions; violations of other properties are left to their checks.
    pub fn explore(&self, prop: &str, stats: &mut explore::Stats, limit: u64) -> Option<explore::Violation> {
        let _guard = tokio_threadpool::blocking::set_default(blocking_env);
        explore::explore(stats, self.budget, limit, || match self.execute() {
            Err(Bad(props, m)) if props.contains(&prop) => Err(m),
            _ => Ok(()),
        })
    }
}
