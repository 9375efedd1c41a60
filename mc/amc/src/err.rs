//! P18: every error that can be made, and everything it tells.

use crate::par::{self, Job};
use hyperdrive::futures::Future;
use hyperdrive::http::{Method, StatusCode};
use hyperdrive::{BoxedError, Error};
use rt::drive::panic_text;
use rt::env::{ForeignErr, WrappedErr};
use serde_json::{json, Value};
use std::borrow::Cow;
use std::fmt;
use std::panic::catch_unwind;

/// A source with a source of its own.
#[derive(Debug)]
struct Chained(String, ForeignErr);
impl fmt::Display for Chained {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Chained {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&self.1)
    }
}

/// Ways to make an error with a source: name, what the source displays as, and how.
type Maker = (&'static str, Option<String>, fn(StatusCode) -> Error, fn(&(dyn std::error::Error + 'static)) -> bool);

fn makers() -> Vec<Maker> {
    vec![
        ("from_status", None, Error::from_status, |_| false),
        ("&str", Some("text".into()), |s| Error::with_source(s, "text"), |_| true),
        ("empty &str", Some("".into()), |s| Error::with_source(s, ""), |_| true),
        ("String", Some("a: b\nc".into()), |s| Error::with_source(s, "a: b\nc".to_string()), |_| true),
        ("custom", Some("error of item 3".into()), |s| Error::with_source(s, ForeignErr(3)), |e| e.downcast_ref::<ForeignErr>().map_or(false, |f| f.0 == 3)),
        ("chained", Some("outer".into()), |s| Error::with_source(s, Chained("outer".into(), ForeignErr(4))), |e| {
            e.downcast_ref::<Chained>().is_some() && e.source().map_or(false, |s| s.to_string() == "error of item 4")
        }),
        ("boxed", Some("error of item 5".into()), |s| Error::with_source(s, Box::new(ForeignErr(5)) as BoxedError), |e| e.is::<ForeignErr>()),
        ("io", Some("oops".into()), |s| Error::with_source(s, std::io::Error::new(std::io::ErrorKind::Other, "oops")), |e| e.is::<std::io::Error>()),
        ("own kind", Some("410 Gone".into()), |s| Error::with_source(s, Error::from_status(StatusCode::GONE)), |e| {
            e.downcast_ref::<Error>().map_or(false, |e| e.http_status() == 410)
        }),
        ("own 405", Some("405 Method Not Allowed".into()), |s| Error::with_source(s, Error::wrong_method(&[&Method::PATCH][..])), |e| e.is::<Error>()),
        ("wrapping", Some("wrapping error of item 6".into()), |s| Error::with_source(s, WrappedErr(6, Error::from_status(StatusCode::NOT_FOUND))), |e| e.is::<WrappedErr>()),
    ]
}

/// Everything observable, in all orders an observer may ask in; `steps` counts the questions.
fn observe(e: &Error, status: StatusCode, source: &Option<String>, same: fn(&(dyn std::error::Error + 'static)) -> bool, allowed: &[String], steps: &mut u64) -> Result<(), String> {
    let is405 = status.as_u16() == 405;
    let display = match source {
        None => status.to_string(),
        Some(s) => format!("{}: {}", status, s),
    };
    let questions: [&dyn Fn() -> Result<(), String>; 5] = [
        &|| {
            if e.http_status() != status {
                return Err(format!("status is {}", e.http_status()));
            }
            Ok(())
        },
        &|| {
            for s in vec![e.source(), std::error::Error::source(e)] {
                match (s, source) {
                    (None, None) => {}
                    (Some(s), Some(w)) if s.to_string() == *w && same(s) => {}
                    (s, w) => return Err(format!("source is {:?} instead of {:?}", s.map(|s| s.to_string()), w)),
                }
            }
            Ok(())
        },
        &|| {
            let got = e.allowed_methods().map(|m| m.iter().map(|m| m.to_string()).collect::<Vec<_>>());
            let want = if is405 { Some(allowed.to_vec()) } else { None };
            if got != want {
                return Err(format!("allowed methods are {:?} instead of {:?}", got, want));
            }
            Ok(())
        },
        &|| {
            if e.to_string() != display {
                return Err(format!("displays as {:?} instead of {:?}", e.to_string(), display));
            }
            let _ = format!("{:?} {:#?}", e, e);
            Ok(())
        },
        &|| {
            let r = e.response();
            if r.status() != status {
                return Err(format!("response has status {}", r.status()));
            }
            let mut h: Vec<(String, String)> = r.headers().iter().map(|(k, v)| (k.to_string(), v.to_str().unwrap_or("?").to_string())).collect();
            let split = |s: &str| {
                let mut v: Vec<String> = s.split(',').map(|m| m.trim().to_string()).filter(|m| !m.is_empty()).collect();
                v.sort();
                v
            };
            if is405 {
                if h.len() != 1 || h[0].0 != "allow" {
                    return Err(format!("headers of a 405 response are {:?}", h));
                }
                let mut a = allowed.to_vec();
                a.sort();
                if split(&h[0].1) != a {
                    return Err(format!("`Allow: {}` instead of {:?}", h[0].1, a));
                }
                h.clear();
            }
            if !h.is_empty() {
                return Err(format!("headers of the response are {:?}", h));
            }
            Ok(())
        },
    ];
    for a in 0..5 {
        for b in 0..5 {
            questions[a]().and_then(|()| questions[b]()).map_err(|m| format!("asked for {} then {}: {}", a, b, m))?;
            *steps += 2;
        }
    }
    Ok(())
}

/// An error keeps its identity on its way through boxes and futures.
fn travel(e: Error) -> Result<Error, String> {
    let b: BoxedError = e.into();
    let e = *b.downcast::<Error>().map_err(|_| "boxing changes the type")?;
    let f = e.into_future::<()>();
    match f.wait() {
        Ok(()) => Err("`into_future` succeeds".into()),
        Err(b) => Ok(*b.downcast::<Error>().map_err(|_| "`into_future` changes the type")?),
    }
}

fn status_case(code: u16, m: &Maker, steps: &mut u64) -> Result<(), String> {
    let status = StatusCode::from_u16(code).unwrap();
    let made = catch_unwind(|| (m.2)(status));
    let error = (400..600).contains(&code);
    *steps += 1;
    match (made, error) {
        (Err(_), false) => Ok(()),
        (Err(p), true) => Err(format!("can't be created: {}", panic_text(&*p))),
        (Ok(_), false) => Err("can be created".into()),
        (Ok(e), true) => {
            observe(&e, status, &m.1, m.3, &[], steps)?;
            let e = travel(e)?;
            observe(&e, status, &m.1, m.3, &[], steps)
        }
    }
}

fn allowed_case(methods: &[&'static Method], owned: bool, steps: &mut u64) -> Result<(), String> {
    let cow: Cow<'static, [&'static Method]> = if owned { Cow::Owned(methods.to_vec()) } else { Cow::Borrowed(Box::leak(methods.to_vec().into_boxed_slice())) };
    let e = Error::wrong_method(cow);
    let names: Vec<String> = methods.iter().map(|m| m.to_string()).collect();
    observe(&e, StatusCode::METHOD_NOT_ALLOWED, &None, |_| false, &names, steps)?;
    let e = travel(e)?;
    observe(&e, StatusCode::METHOD_NOT_ALLOWED, &None, |_| false, &names, steps)
}

pub fn check(thorough: bool) -> Value {
    let brew: &'static Method = Box::leak(Box::new(Method::from_bytes(b"BREW").unwrap()));
    let long: &'static Method = Box::leak(Box::new(Method::from_bytes(b"A-VERY-LONG-EXTENSION-METHOD_NAME.1").unwrap()));
    let all: Vec<&'static Method> = vec![
        &Method::GET,
        &Method::HEAD,
        &Method::POST,
        &Method::PUT,
        &Method::DELETE,
        &Method::CONNECT,
        &Method::OPTIONS,
        &Method::TRACE,
        &Method::PATCH,
        brew,
        long,
    ];
    let mut jobs: Vec<(&'static str, Job<'_>)> = vec![];
    for code in 100..=599 {
        jobs.push((
            "statuses",
            Box::new(move |stats, n| {
                for m in makers() {
                    *n += 1;
                    if let Err(e) = status_case(code, &m, &mut stats.transitions) {
                        return Some(json!({"status": code, "source": m.0, "message": e}));
                    }
                }
                None
            }),
        ));
    }
    // all sets of methods; and all sequences of up to three or four, with repetitions
    let set = |all: &[&'static Method], mask: usize| -> Vec<&'static Method> { (0..all.len()).filter(|i| mask >> i & 1 == 1).map(|i| all[i]).collect() };
    let all = &all;
    for low in 0..32 {
        jobs.push((
            "sets of methods",
            Box::new(move |stats, n| {
                for high in 0..1 << (all.len() - 5) {
                    let s = set(all, high << 5 | low);
                    for &owned in &[false, true] {
                        *n += 1;
                        if let Err(e) = allowed_case(&s, owned, &mut stats.transitions) {
                            return Some(json!({"allowed": format!("{:?}", s), "message": e}));
                        }
                    }
                }
                None
            }),
        ));
    }
    for first in 0..all.len() {
        jobs.push((
            "sequences of methods",
            Box::new(move |stats, n| {
                let mut queue = vec![vec![all[first]]];
                let mut i = 0;
                while i < queue.len() {
                    let s = queue[i].clone();
                    i += 1;
                    *n += 1;
                    if let Err(e) = allowed_case(&s, true, &mut stats.transitions) {
                        return Some(json!({"allowed": format!("{:?}", s), "message": e}));
                    }
                    if s.len() < if thorough { 5 } else { 4 } {
                        for m in all {
                            let mut t = s.clone();
                            t.push(m);
                            queue.push(t);
                        }
                    }
                }
                None
            }),
        ));
    }
    par::run(&jobs)
}
