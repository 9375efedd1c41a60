//! P07: query data against serde_urlencoded, for all small query strings.

use crate::par::{self, Job};
use hyperdrive::futures::Future;
use hyperdrive::{http, hyper, FromRequest, NoContext};
use rt::drive::{drive, End};
use serde::Deserialize;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fmt::Debug;

#[derive(Debug, Deserialize)]
struct S {
    a: u8,
    b: Option<String>,
}
#[derive(Debug, Deserialize)]
struct AllOptional {
    a: Option<u8>,
    b: Option<String>,
}
#[derive(Debug, Deserialize)]
struct Defaults {
    #[serde(default)]
    a: u8,
}
#[derive(Debug, Deserialize)]
#[serde(deny_unknown_fields)]
struct Strict {
    a: String,
}
#[derive(Debug, Deserialize)]
enum Word {
    A,
    #[serde(rename = "b")]
    B,
}
#[derive(Debug, Deserialize)]
struct HasEnum {
    a: Word,
}
#[derive(Debug, Deserialize)]
struct Many {
    a: bool,
    b: f32,
}
#[derive(Debug, Deserialize)]
struct UnitS;
#[derive(Debug, Deserialize)]
struct New(Vec<(String, String)>);

type Outc = Result<String, String>;

/// Decodes a request target / the query alone.
struct Ty {
    name: &'static str,
    real: fn(&http::Uri) -> Result<Outc, String>,
    oracle: fn(Option<&str>) -> Outc,
}

fn plain<T: for<'a> Deserialize<'a> + Debug>(q: Option<&str>) -> Outc {
    serde_urlencoded::from_str::<T>(q.unwrap_or("")).map(|v| format!("{:?}", v)).map_err(|e| e.to_string())
}
fn optional<T: for<'a> Deserialize<'a> + Debug>(q: Option<&str>) -> Outc {
    match q {
        None => Ok("None".into()),
        Some(q) => serde_urlencoded::from_str::<T>(q).map(|v| format!("{:?}", Some(v))).map_err(|e| e.to_string()),
    }
}

fn decode<T: FromRequest<Context = NoContext>>(uri: &http::Uri, show: fn(T) -> (String, String)) -> Result<Outc, String>
where
    T::Future: 'static,
{
    let req = http::Request::get(uri.clone()).body(hyper::Body::empty()).unwrap();
    match drive(|| T::from_request(req, NoContext).map(show)) {
        End::Done(Ok((q, other))) => {
            if other != "x=1&a" {
                return Err(format!("another field is {:?}", other));
            }
            Ok(Ok(q))
        }
        End::Done(Err(e)) => match e.downcast_ref::<hyperdrive::Error>() {
            None => Err(format!("fails with {:?}", e)),
            Some(h) if h.http_status() != 400 => Err(format!("fails with {:?}", e)),
            Some(h) => match h.source().and_then(|s| s.downcast_ref::<serde_urlencoded::de::Error>()) {
                Some(s) => Ok(Err(s.to_string())),
                None => Err(format!("the error doesn't carry the decoding error: {:?}", e)),
            },
        },
        End::Panicked(p) => Err(format!("panics: {}", p)),
        End::Stalled => Err("stalled".into()),
    }
}

macro_rules! ty {
    ($oracle:ident $id:ident $t:ty, $($o:ty)?) => {{
        #[derive(FromRequest)]
        #[allow(dead_code)]
        enum $id {
            #[get("/other")]
            Other,
            #[get("/q/{p}")]
            Q {
                p: String,
                #[query_params]
                q: $t,
            },
        }
        Ty {
            name: stringify!($t),
            real: |u| {
                decode::<$id>(u, |v| match v {
                    $id::Q { p, q } => (format!("{:?}", q), p),
                    $id::Other => ("wrong variant".into(), String::new()),
                })
            },
            oracle: ty!(@ $oracle $t, $($o)?),
        }
    }};
    (@ plain $t:ty,) => { plain::<$t> };
    (@ optional $t:ty, $o:ty) => { optional::<$o> };
}

type Alias = Option<S>;

fn types() -> Vec<Ty> {
    vec![
        ty!(plain R0 Vec<(String, String)>,),
        ty!(plain R1 BTreeMap<String, String>,),
        ty!(plain R2 S,),
        ty!(plain R3 (),),
        ty!(plain R4 AllOptional,),
        ty!(plain R5 Defaults,),
        ty!(plain R6 Strict,),
        ty!(plain R7 HasEnum,),
        ty!(plain R8 Many,),
        ty!(plain R9 UnitS,),
        ty!(plain R10 New,),
        ty!(plain R11 Vec<(String, u8)>,),
        ty!(plain R12 BTreeMap<String, u8>,),
        ty!(plain R13 u8,),
        ty!(optional R14 Option<S>, S),
        ty!(optional R15 Option<Vec<(String, String)>>, Vec<(String, String)>),
        ty!(optional R16 Option<AllOptional>, AllOptional),
        ty!(optional R17 Alias, S),
        ty!(optional R18 std::option::Option<()>, ()),
    ]
}

const ALPHABET: &[&str] = &[
    "a", "b", "=", "&", "%", "2", "6", "+", ";", "?", "/", "%26", "%3D", "#", "A", "300", "a=1", "%C3", "%A9", "%00", "-", "[", "true", "'", "\u{e9}",
];

pub fn check(thorough: bool) -> Value {
    let types = types();
    let unparseable = std::sync::atomic::AtomicU64::new(0);
    let one = |ty: &Ty, q: Option<&str>, n: &mut u64| -> Option<Value> {
        // (the segment looks like a query, but it isn't)
        let target = match q {
            None => "/q/x=1&a".to_string(),
            Some(q) => format!("/q/x=1&a?{}", q),
        };
        let uri = match target.parse::<http::Uri>() {
            Ok(u) => u,
            Err(_) => {
                unparseable.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                return None;
            }
        };
        *n += 1;
        // fragments aren't part of the query
        let want = (ty.oracle)(q.map(|q| q.split('#').next().unwrap()));
        let bad = |m: String| Some(json!({"type": ty.name, "target": target, "message": m}));
        match (ty.real)(&uri) {
            Err(e) => bad(e),
            Ok(got) if got != want => bad(format!("gives {:?} instead of {:?}", got, want)),
            _ => None,
        }
    };
    let one = &one;
    let mut jobs: Vec<(&'static str, Job<'_>)> = vec![];
    for ty in &types {
        jobs.push(("no query", Box::new(move |_, n| one(ty, None, n).or_else(|| one(ty, Some(""), n)))));
        for first in ALPHABET {
            jobs.push((
                "all strings",
                Box::new(move |_, n| {
                    let mut queue = vec![first.to_string()];
                    let mut from = 0;
                    for len in 0..if thorough { 5 } else { 4 } {
                        let to = queue.len();
                        for i in from..to {
                            if let Some(v) = one(ty, Some(&queue[i]), n) {
                                return Some(v);
                            }
                            if len + 1 < if thorough { 5 } else { 4 } {
                                for s in ALPHABET {
                                    let t = format!("{}{}", queue[i], s);
                                    queue.push(t);
                                }
                            }
                        }
                        from = to;
                    }
                    None
                }),
            ));
        }
        // sizes and numbers of pairs
        jobs.push((
            "sizes",
            Box::new(move |_, n| {
                for k in 0..14 {
                    for len in vec![(1usize << k) - 1, 1 << k, (1 << k) + 1] {
                        for q in vec![
                            format!("a=1&b={}", "x".repeat(len)),
                            format!("{}a=1", "b=2&".repeat(len / 4)),
                            format!("{}a=1", "&".repeat(len)),
                            format!("a={}", "%31".repeat(len / 3)),
                        ] {
                            if let Some(v) = one(ty, Some(&q), n) {
                                return Some(v);
                            }
                        }
                    }
                }
                None
            }),
        ));
    }
    let mut r = par::run(&jobs);
    r["targets_http_rejects"] = json!(unparseable.load(std::sync::atomic::Ordering::Relaxed));
    r
}
