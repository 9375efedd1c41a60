//! P09: body wrappers on all small byte strings, all ways to deliver them, and a ladder of sizes.

use crate::par;
use hyperdrive::body::{HtmlForm, Json};
use hyperdrive::futures::{future, Async, Future, IntoFuture, Poll, Stream};
use hyperdrive::hyper::{self, Body};
use hyperdrive::{http, BoxedError, FromBody, FromRequest, NoContext};
use rt::env::{self, *};
use rt::explore::{choose, explore, step, Stats};
use serde::de::DeserializeOwned;
use serde::Deserialize;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::sync::Arc;

#[derive(Debug, Deserialize)]
pub struct S {
    a: u8,
    b: Option<String>,
}
#[derive(Debug, Deserialize)]
#[serde(rename_all = "lowercase")]
pub enum E {
    A,
    E(u8),
}

/// What decoding gives, in comparable form.
type Outc = Result<String, String>;

#[derive(Clone, Copy)]
pub struct Ty {
    name: &'static str,
    json: bool,
    /// Through the wrapper.
    fut: fn(&Arc<http::Request<()>>, Body) -> Dec,
    /// The parser alone.
    oracle: fn(&[u8]) -> Outc,
}

fn parse_json<T: DeserializeOwned + Debug>(b: &[u8]) -> Outc {
    serde_json::from_slice::<T>(b).map(|v| format!("{:?}", v)).map_err(|e| format!("json {:?} {}", e.classify(), e))
}
fn parse_form<T: DeserializeOwned + Debug>(b: &[u8]) -> Outc {
    serde_urlencoded::from_bytes::<T>(b).map(|v| format!("{:?}", v)).map_err(|e| format!("form {}", e))
}

/// The error in comparable form.
fn err(e: &BoxedError) -> String {
    if let Some(e) = e.downcast_ref::<serde_json::Error>() {
        format!("json {:?} {}", e.classify(), e)
    } else if let Some(e) = e.downcast_ref::<serde_urlencoded::de::Error>() {
        format!("form {}", e)
    } else if let Some(e) = e.downcast_ref::<hyper::Error>() {
        // hyper wraps the stream's error
        format!("stream {}", e)
    } else if let Some(e) = e.downcast_ref::<hyperdrive::Error>() {
        format!("hyperdrive {}", e)
    } else {
        format!("unknown {}", e)
    }
}

type Dec = Box<dyn Future<Item = String, Error = BoxedError>>;

fn go<T: FromBody<Context = NoContext> + 'static>(req: &Arc<http::Request<()>>, body: Body, show: fn(&T) -> String) -> Dec
where
    <T::Result as IntoFuture>::Future: 'static,
{
    Box::new(T::from_body(req, body, &NoContext).into_future().map(move |v| show(&v)))
}

/// A request type that is nothing but a body.
#[derive(FromRequest)]
#[post("/")]
#[put("/")]
struct JsonReq {
    #[body]
    body: Json<S>,
}
#[derive(FromRequest)]
#[post("/")]
#[get("/")]
struct FormReq {
    #[body]
    body: HtmlForm<S>,
}

fn derived<T: FromRequest<Context = NoContext> + 'static>(req: &Arc<http::Request<()>>, body: Body, show: fn(&T) -> String) -> Dec
where
    T::Future: 'static,
{
    Box::new(T::from_request_and_body(req, body, NoContext).map(move |v| show(&v)))
}

macro_rules! js {
    ($t:ty) => {
        Ty { name: concat!("Json<", stringify!($t), ">"), json: true, fut: |r, b| go::<Json<$t>>(r, b, |v| format!("{:?}", v.0)), oracle: parse_json::<$t> }
    };
}
macro_rules! fo {
    ($t:ty) => {
        Ty { name: concat!("HtmlForm<", stringify!($t), ">"), json: false, fut: |r, b| go::<HtmlForm<$t>>(r, b, |v| format!("{:?}", v.0)), oracle: parse_form::<$t> }
    };
}

fn types() -> Vec<Ty> {
    vec![
        js!(Value),
        js!(()),
        js!(bool),
        js!(u8),
        js!(f64),
        js!(String),
        js!(Vec<u8>),
        js!(Option<i64>),
        js!(S),
        js!(E),
        js!(BTreeMap<String, Value>),
        js!((u8, String)),
        Ty { name: "derived Json<S>", json: true, fut: |r, b| derived::<JsonReq>(r, b, |v| format!("{:?}", v.body.0)), oracle: parse_json::<S> },
        fo!(Vec<(String, String)>),
        fo!(BTreeMap<String, String>),
        fo!(Vec<(String, u8)>),
        fo!(S),
        fo!(()),
        Ty { name: "derived HtmlForm<S>", json: false, fut: |r, b| derived::<FormReq>(r, b, |v| format!("{:?}", v.body.0)), oracle: parse_form::<S> },
    ]
}

fn request(headers: &[(&str, &str)]) -> Arc<http::Request<()>> {
    let mut b = http::Request::builder();
    b.method("POST").uri("/");
    for (k, v) in headers {
        b.header(*k, *v);
    }
    Arc::new(b.body(()).unwrap())
}

/// Delivers given bytes in explored portions.
struct Portions {
    bytes: Vec<u8>,
    at: usize,
    ready: Ready,
    /// Empty chunks that may still come.
    empties: u32,
    /// Whether the stream may fail.
    fail: bool,
    whole: bool,
    end: bool,
}

impl Stream for Portions {
    type Item = Vec<u8>;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<Option<Vec<u8>>, BoxedError> {
        step();
        if self.end {
            log(Ev::PollAfterEnd(BODY_ID));
            return Ok(Async::Ready(None));
        }
        if !self.ready.poll() {
            return Ok(Async::NotReady);
        }
        self.ready = Ready::new(BODY_ID, self.ready.left());
        if self.fail && choose("go on/fail", 2) == 1 {
            self.end = true;
            log(Ev::Done(BODY_ID));
            return Err(Box::new(ForeignErr(self.at as u32)));
        }
        let rest = self.bytes.len() - self.at;
        let empty = self.empties > 0 && choose("chunk/empty chunk", 2) == 1;
        if empty {
            self.empties -= 1;
            return Ok(Async::Ready(Some(vec![])));
        }
        if rest == 0 {
            self.end = true;
            log(Ev::BodyEnd);
            return Ok(Async::Ready(None));
        }
        // the whole rest comes first
        let n = if self.whole { rest } else { rest - choose("chunk size", rest) };
        self.at += n;
        Ok(Async::Ready(Some(self.bytes[self.at - n..self.at].to_vec())))
    }
}

/// How bodies are delivered in one exploration.
#[derive(Clone, Copy, Debug)]
struct Delivery {
    pendings: u32,
    self_notify: bool,
    empties: u32,
    fail: bool,
    whole: bool,
    budget: u32,
}

fn failed(at: u32) -> String {
    format!("stream error of item {}", at)
}

fn check_one(ty: &Ty, bytes: &[u8], d: Delivery, req: &Arc<http::Request<()>>) -> Result<(), String> {
    reset(Cfg {
        pendings: d.pendings,
        self_notify: d.self_notify,
        ..Cfg::default()
    });
    let body = Body::wrap_stream(Portions {
        bytes: bytes.to_vec(),
        at: 0,
        ready: Ready::new(BODY_ID, d.pendings),
        empties: d.empties,
        fail: d.fail,
        whole: d.whole,
        end: false,
    });
    let end = env::run(|| (ty.fut)(req, body));
    let log = take_log();
    let stream_failed = log.contains(&Ev::Done(BODY_ID));
    let ended = log.contains(&Ev::BodyEnd);
    let got = match end {
        End::Done(Ok(v)) => Ok(v),
        End::Done(Err(e)) => Err(err(&e)),
        End::Panicked(p) => return Err(format!("panics: {}", End::<()>::panic_message(&*p))),
        End::Stalled(s) => return Err(format!("stalled: {}", s)),
        End::Dropped => unreachable!(),
    };
    if !ended && !stream_failed {
        return Err(format!("completes with {:?} before the end of the body", got));
    }
    if stream_failed {
        let e = match &got {
            Err(e) if e.starts_with("stream ") && e.contains("error of item") => Ok(()),
            _ => Err(format!("gives {:?} although the body stream failed (expected something like {:?})", got, failed(0))),
        };
        return e;
    }
    let want = (ty.oracle)(bytes);
    if got != want {
        return Err(format!("gives {:?} instead of {:?}", got, want));
    }
    Ok(())
}


/// Bodies that aren't streams.
fn check_kinds(ty: &Ty, bytes: &[u8], req: &Arc<http::Request<()>>) -> Result<u64, String> {
    let want = (ty.oracle)(bytes);
    let mut kinds: Vec<(&str, Body)> = vec![("Vec", Body::from(bytes.to_vec())), ("Chunk", Body::from(hyper::Chunk::from(bytes.to_vec())))];
    if let Ok(s) = std::str::from_utf8(bytes) {
        kinds.push(("String", Body::from(s.to_string())));
    }
    if bytes.is_empty() {
        kinds.push(("empty", Body::empty()));
    }
    let n = kinds.len() as u64;
    for (name, body) in kinds {
        reset(Cfg::default());
        let got = match env::run(|| (ty.fut)(req, body)) {
            End::Done(Ok(v)) => Ok(v),
            End::Done(Err(e)) => Err(err(&e)),
            End::Panicked(p) => Err(format!("panics: {}", End::<()>::panic_message(&*p))),
            End::Stalled(s) => Err(format!("stalled: {}", s)),
            End::Dropped => unreachable!(),
        };
        if got != want {
            return Err(format!("body made from {}: gives {:?} instead of {:?}", name, got, want));
        }
    }
    Ok(n)
}

/// A channel; when sender and receiver run is explored, and whether the sender gives up.
fn check_channel(ty: &Ty, bytes: &[u8], chunk: usize, req: &Arc<http::Request<()>>) -> Result<(), String> {
    reset(Cfg::default());
    let abort = choose("send all/give up", 2) == 1;
    let (tx, body) = Body::channel();
    let mut tx = Some(tx);
    let mut parts: Vec<Vec<u8>> = bytes.chunks(chunk).rev().map(|c| c.to_vec()).collect();
    let f = ty.fut;
    let req2 = req.clone();
    let sender = move || -> Dec {
        Box::new(future::poll_fn(move || loop {
            step();
            match tx.as_mut().unwrap().poll_ready() {
                Ok(Async::NotReady) => return Ok(Async::NotReady),
                Err(_) => return Ok(Async::Ready("receiver gone".into())),
                Ok(Async::Ready(())) => match parts.pop() {
                    Some(p) => {
                        let _ = tx.as_mut().unwrap().send_data(p.into());
                    }
                    None => {
                        let t = tx.take().unwrap();
                        if abort {
                            t.abort();
                        }
                        return Ok(Async::Ready("sent".into()));
                    }
                },
            }
        }))
    };
    let mut ends = env::run_many(vec![Box::new(move || f(&req2, body)) as Box<dyn FnOnce() -> Dec>, Box::new(sender)], |_| ());
    let got = match ends.remove(0) {
        End::Done(Ok(v)) => Ok(v),
        End::Done(Err(e)) => Err(err(&e)),
        End::Panicked(p) => Err(format!("panics: {}", End::<()>::panic_message(&*p))),
        End::Stalled(s) => Err(format!("stalled: {}", s)),
        End::Dropped => unreachable!(),
    };
    let want = (ty.oracle)(bytes);
    if abort && !got.as_ref().err().map_or(false, |e| e.starts_with("stream ")) {
        return Err(format!("gives {:?} although the body was cut off", got));
    }
    if !abort && got != want {
        return Err(format!("gives {:?} instead of {:?}", got, want));
    }
    Ok(())
}

const JSON_ALPHABET: &[&[u8]] = &[
    b"{", b"}", b"[", b"]", b"\"", b":", b",", b"1", b"-", b".", b"e", b" ", b"\n", b"a", b"b", b"null", b"true", b"\\", b"\xc3", b"\xa9", b"\xef\xbb\xbf", b"\0", b"256",
    b"\"a\":", b"+", b"\r", b"\t",
];
const FORM_ALPHABET: &[&[u8]] = &[
    b"a", b"b", b"=", b"&", b"%", b"2", b"5", b"+", b";", b" ", b"%26", b"\xc3", b"\xa9", b"#", b"?", b"\n", b"\r", b"\0", b"a=7", b"%00", b"\xef\xbb\xbf", b"256",
];

/// All sequences of up to `n` symbols.
fn strings(alphabet: &[&[u8]], n: usize) -> Vec<Vec<u8>> {
    let mut all = vec![vec![]];
    let mut from = 0;
    for _ in 0..n {
        let to = all.len();
        for i in from..to {
            for s in alphabet {
                let mut v: Vec<u8> = all[i].clone();
                v.extend_from_slice(s);
                all.push(v);
            }
        }
        from = to;
    }
    all.sort();
    all.dedup();
    all
}

fn documents(json: bool) -> Vec<&'static [u8]> {
    if json {
        vec![
            b"",
            b"null",
            b"{\"a\":1}",
            b"{\"a\":1,\"b\":\"\xc3\xa9\"}",
            b"{\"a\":1} x",
            b"{\"a\":1}\n ",
            b"[1,2,3]",
            b"\"\\u00e9\"",
            b"\"\xc3\"",
            b"1 2",
            b"{\"a\":",
        ]
    } else {
        vec![b"", b"a=1", b"a=1&b=x", b"b=%C3%A9&a=5", b"a=1&a=2", b"b=x+y&a=1", b"a=256", b"\xc3\xa9=1", b"b=%C3&a=1", b"&&a=1&", b"a"]
    }
}

pub fn check(thorough: bool) -> Value {
    let types = types();
    let plain = request(&[]);
    // the jobs: each explores one type on one part of the space
    type Job<'a> = Box<dyn Fn(&mut Stats, &mut u64) -> Option<Value> + Send + Sync + 'a>;
    let mut jobs: Vec<(&'static str, Job<'_>)> = vec![];
    let fail = |ty: &Ty, bytes: &[u8], how: String, message: String, decisions: Vec<String>| {
        Some(json!({"type": ty.name, "body": String::from_utf8_lossy(&bytes[..bytes.len().min(200)]), "length": bytes.len(), "delivery": how, "message": message, "decisions": decisions}))
    };
    let explored = move |ty: &Ty, bytes: &[u8], d: Delivery, req: &Arc<http::Request<()>>, stats: &mut Stats| {
        explore(stats, d.budget, 5_000_000, || check_one(ty, bytes, d, req)).and_then(|v| fail(ty, bytes, format!("{:?}", d), v.message, v.decisions))
    };
    let whole = Delivery { pendings: 0, self_notify: false, empties: 0, fail: false, whole: true, budget: 0 };
    for &ty in &types {
        let plain = &plain;
        let alphabet = if ty.json { JSON_ALPHABET } else { FORM_ALPHABET };
        // all strings, in one piece
        for first in 0..alphabet.len() {
            jobs.push((
                "all strings",
                Box::new(move |stats, _| {
                    for rest in strings(alphabet, if thorough { 4 } else { 3 }) {
                        let mut b = alphabet[first].to_vec();
                        b.extend(rest);
                        if let Some(v) = explored(&ty, &b, whole, plain, stats) {
                            return Some(v);
                        }
                    }
                    None
                }),
            ));
        }
        // all portions of short strings
        jobs.push((
            "portions",
            Box::new(move |stats, _| {
                for b in strings(alphabet, if thorough { 3 } else { 2 }) {
                    for &fail in &[false, true] {
                        let d = Delivery { pendings: 1, self_notify: false, empties: 1, fail, whole: false, budget: 0 };
                        if let Some(v) = explored(&ty, &b, d, plain, stats) {
                            return Some(v);
                        }
                    }
                }
                None
            }),
        ));
        // all portions, delays, failures of documents
        for doc in documents(ty.json) {
            jobs.push((
                "documents",
                Box::new(move |stats, _| {
                    let long = doc.len() > 8;
                    for &(pendings, empties, fail) in &[(0, 0, true), (1, 1, false), (2, 0, true)] {
                        let d = Delivery {
                            pendings: if long && !thorough { 0 } else { pendings },
                            self_notify: !long,
                            empties: if long && !thorough { 0 } else { empties },
                            fail,
                            whole: false,
                            budget: (!long) as u32,
                        };
                        if let Some(v) = explored(&ty, doc, d, plain, stats) {
                            return Some(v);
                        }
                    }
                    None
                }),
            ));
            // what might be taken for an encoding, or not be part of the document
            jobs.push((
                "surroundings",
                Box::new(move |stats, _| {
                    let named: Vec<&[u8]> = vec![
                        b"", b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\0\0\xfe\xff", b"\x1f\x8b\x08\0\0\0\0\0\0\x03", b"\x78\x9c", b")]}'\n", b"while(1);", b"for(;;);", b"//\n",
                        b"/**/", b"#\n", b"?", b"\r\n", b"\n\r", b"\r\n\r\n", b"\xc2\xa0", b"\xe2\x80\xa8", b"\xef\xbb", b"--x\r\n", b"callback(", b");", b";", b"%EF%BB%BF", b"data=", b"\"", b"''", b"0\r\n\r\n", b"\x1e",
                    ];
                    let single: Vec<[u8; 1]> = (0..=255).map(|b| [b]).collect();
                    let wide = |be: bool, width: usize| -> Vec<u8> {
                        let mut v = vec![];
                        for c in String::from_utf8_lossy(doc).chars() {
                            let n = c as u32;
                            let bytes = if be { n.to_be_bytes()[4 - width..].to_vec() } else { n.to_le_bytes()[..width].to_vec() };
                            v.extend(bytes);
                        }
                        v
                    };
                    let mut texts: Vec<Vec<u8>> = vec![];
                    for a in &named {
                        for b in &named {
                            texts.push([a, doc, b].concat());
                        }
                        for (be, width) in &[(false, 2), (true, 2), (false, 4), (true, 4), (false, 1)] {
                            texts.push([a.to_vec(), wide(*be, *width)].concat());
                        }
                    }
                    for s in &single {
                        texts.push([s, doc].concat());
                        texts.push([doc, s].concat());
                        texts.push([s, doc, s].concat());
                    }
                    texts.push(doc.to_ascii_uppercase());
                    texts.push(doc.iter().flat_map(|b| format!("%{:02X}", b).into_bytes()).collect());
                    let mut requests = vec![request(&[])];
                    for charset in &["utf-8", "utf-16", "utf-16le", "UTF-16BE", "utf-32", "iso-8859-1", "us-ascii", "utf-7", "x"] {
                        for ty in &["application/json; charset=", "application/x-www-form-urlencoded;charset=", "text/plain; charset="] {
                            requests.push(request(&[("content-type", &format!("{}{}", ty, charset)[..])]));
                        }
                    }
                    for coding in &["gzip", "deflate", "br", "identity", "base64", "x-gzip, chunked"] {
                        requests.push(request(&[("content-encoding", coding), ("content-transfer-encoding", coding), ("transfer-encoding", coding)]));
                    }
                    for (i, b) in texts.iter().enumerate() {
                        for (k, r) in requests.iter().enumerate() {
                            // every text without headers, and the plain document and its encodings with all of them
                            if k > 0 && i % (named.len() + 5) < named.len() && i > named.len() && !thorough {
                                continue;
                            }
                            if let Some(mut v) = explored(&ty, b, whole, r, stats) {
                                v["headers"] = json!(format!("{:?}", r.headers()));
                                return Some(v);
                            }
                        }
                    }
                    None
                }),
            ));
            jobs.push((
                "kinds of bodies",
                Box::new(move |stats, n| {
                    match check_kinds(&ty, doc, plain) {
                        Ok(k) => *n += k,
                        Err(e) => return fail(&ty, doc, "whole".into(), e, vec![]),
                    }
                    for &chunk in &[1, 2, 5, 100] {
                        if chunk < 2 && doc.len() > 9 && !thorough {
                            continue;
                        }
                        if let Some(v) = explore(stats, 0, 5_000_000, || check_channel(&ty, doc, chunk, plain)) {
                            return fail(&ty, doc, format!("channel, chunks of {}", chunk), v.message, v.decisions);
                        }
                    }
                    None
                }),
            ));
            // headers
            jobs.push((
                "headers",
                Box::new(move |stats, _| {
                    let types = [
                        None,
                        Some("application/json"),
                        Some("application/json; charset=latin1"),
                        Some("application/x-www-form-urlencoded"),
                        Some("text/plain"),
                        Some("multipart/form-data; boundary=x"),
                        Some("application/octet-stream"),
                        Some(";"),
                        Some(""),
                    ];
                    let exact = doc.len().to_string();
                    let short = doc.len().saturating_sub(1).to_string();
                    let long = (doc.len() + 1).to_string();
                    let lengths = [None, Some(&exact[..]), Some(&short[..]), Some(&long[..]), Some("0"), Some("18446744073709551616"), Some("-1"), Some("x")];
                    let others = [
                        None,
                        Some(("content-encoding", "gzip")),
                        Some(("transfer-encoding", "chunked")),
                        Some(("expect", "100-continue")),
                        Some(("accept", "text/html")),
                        Some(("content-type", "text/html")),
                    ];
                    for t in &types {
                        for l in &lengths {
                            for o in &others {
                                let mut h = vec![];
                                if let Some(t) = t {
                                    h.push(("content-type", *t));
                                }
                                if let Some(l) = l {
                                    h.push(("content-length", *l));
                                }
                                if let Some(o) = o {
                                    h.push(*o);
                                }
                                let r = request(&h);
                                let d = Delivery { fail: true, empties: 1, ..whole };
                                if let Some(mut v) = explored(&ty, doc, d, &r, stats) {
                                    v["headers"] = json!(format!("{:?}", h));
                                    return Some(v);
                                }
                            }
                        }
                    }
                    None
                }),
            ));
        }
    }
    // sizes: content whose every byte matters, of every length around the powers of two
    let sized = ["Json<String>", "Json<Vec<u8>>", "Json<Value>", "HtmlForm<BTreeMap<String, String>>", "HtmlForm<Vec<(String, String)>>"];
    let max = if thorough { 26 } else { 24 };
    for &ty in types.iter().filter(|t| sized.contains(&t.name)) {
        for k in 1..=max {
            if ty.name != "Json<String>" && k > if thorough { 22 } else { 18 } {
                continue;
            }
            let plain = &plain;
            jobs.push((
                "sizes",
                Box::new(move |_, n| {
                    for len in vec![(1usize << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + (1 << k) / 2] {
                        let bytes = sized_document(ty.name, len);
                        let want = (ty.oracle)(&bytes);
                        for &chunk in &[1, 1000, 1 << 16, usize::max_value()] {
                            if bytes.len() / chunk > 200_000 {
                                continue;
                            }
                            reset(Cfg::default());
                            let chunks: Vec<Vec<u8>> = bytes.chunks(chunk).map(|c| c.to_vec()).collect();
                            let body = Body::wrap_stream(hyperdrive::futures::stream::iter_ok::<_, BoxedError>(chunks));
                            *n += 1;
                            let got = match env::run(|| (ty.fut)(plain, body)) {
                                End::Done(Ok(v)) => Ok(v),
                                End::Done(Err(e)) => Err(err(&e)),
                                _ => Err("no result".into()),
                            };
                            if got != want {
                                let cut = |r: &Outc| format!("{:?}", r).chars().take(200).collect::<String>();
                                return fail(&ty, &bytes, format!("chunks of {}", chunk), format!("gives {} instead of {}", cut(&got), cut(&want)), vec![]);
                            }
                        }
                    }
                    None
                }),
            ));
        }
    }
    // nesting and numbers of fields around usual limits
    for &ty in types.iter().filter(|t| t.name == "Json<Value>" || t.name.contains("Vec<(String, String)>")) {
        let plain = &plain;
        jobs.push((
            "shapes",
            Box::new(move |stats, _| {
                for n in (1..300).chain(vec![999, 1000, 1001, 1024, 4096, 10_001]) {
                    let docs: Vec<Vec<u8>> = if ty.json {
                        let deep = n < 1000;
                        vec![
                            if deep { [vec![b'['; n], vec![b']'; n]].concat() } else { vec![] },
                            format!("[{}1]", "1,".repeat(n - 1)).into_bytes(),
                            format!("{{{}\"k\":1}}", (1..n).map(|i| format!("\"k{}\":1,", i)).collect::<String>()).into_bytes(),
                            [vec![b' '; n], b"1".to_vec(), vec![b'\n'; n]].concat(),
                        ]
                    } else {
                        vec![
                            (0..n).map(|i| format!("k{}={}&", i, i)).collect::<String>().into_bytes(),
                            vec![b'&'; n],
                            "%41".repeat(n).into_bytes(),
                        ]
                    };
                    for d in docs {
                        if let Some(v) = explored(&ty, &d, whole, plain, stats) {
                            return Some(v);
                        }
                    }
                }
                None
            }),
        ));
    }
    jobs.extend(crate::wires("P09", thorough));
    par::run(&jobs)
}

fn sized_document(ty: &str, len: usize) -> Vec<u8> {
    let letters = |n: usize| (0..n).map(|i| b'a' + (i % 23) as u8);
    match ty {
        "Json<String>" => {
            let mut v = vec![b'"'];
            v.extend(letters(len.saturating_sub(2)));
            v.push(b'"');
            v
        }
        "Json<Vec<u8>>" | "Json<Value>" => {
            let mut v = b"[1".to_vec();
            let mut i = 0u32;
            while v.len() + 5 < len {
                v.extend_from_slice(format!(",{}", i % 251).as_bytes());
                i += 1;
            }
            v.push(b']');
            while v.len() < len {
                v.push(b' ');
            }
            v
        }
        "HtmlForm<Vec<(String, String)>>" => {
            let mut v = b"a=b".to_vec();
            let mut i = 0u32;
            while v.len() + 12 < len {
                v.extend_from_slice(format!("&k{}={}", i % 97, i % 7).as_bytes());
                i += 1;
            }
            while v.len() < len {
                v.push(b'&');
            }
            v
        }
        _ => {
            let mut v = b"k=".to_vec();
            v.extend(letters(len.saturating_sub(2)));
            v
        }
    }
}
