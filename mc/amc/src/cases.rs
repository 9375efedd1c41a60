//! The explored bounds of P11 to P15.

use crate::svc::*;
use hyperdrive::http::Version;
use std::str::FromStr;
use rt::env::{Cfg, Id, Mode, Outcome, Script, FOREIGN_WAYS, LIB_405_WAYS, LIB_WAYS};

const ROUTE: &[Spec] = &[
    spec("GET", "/plain"),
    spec("HEAD", "/plain"),
    spec("POST", "/plain"),
    spec("GET", "/conv/@"),
    spec("POST", "/conv/@"),
    spec("GET", "/guards"),
    spec("OPTIONS", "/guards"),
    spec("HEAD", "/guards"),
    spec("POST", "/body"),
    spec("PUT", "/body"),
    spec("GET", "/body"),
    spec("GET", "/all/@"),
    spec("HEAD", "/all/@"),
    spec("DELETE", "/all/@"),
    spec("HEAD", "/head"),
    spec("GET", "/head"),
    spec("PUT", "/head"),
    spec("POST", "/head"),
    spec("GET", "/nope"),
    spec("HEAD", "/nope"),
    spec("GET", "/any"),
    spec("HEAD", "/any"),
    spec("POST", "/any"),
    spec("PUT", "/any"),
    spec("DELETE", "/any"),
    spec("CONNECT", "/any"),
    spec("OPTIONS", "/any"),
    spec("TRACE", "/any"),
    spec("PATCH", "/any"),
    spec("BREW", "/any"),
    with_query(spec("GET", "/query"), "?n=@"),
    with_query(spec("HEAD", "/query"), "?n=x"),
    with_query(spec("TRACE", "/query"), ""),
    with_body(spec("POST", "/json"), ReqData::Json),
    spec("POST", "/json"),
    with_body(spec("PATCH", "/form"), ReqData::Form),
    spec("PUT", "/form"),
];

const OUTER: &[Spec] = &[
    spec("GET", "/own/@"),
    spec("HEAD", "/own/@"),
    spec("POST", "/plain"),
    spec("GET", "/plain"),
    spec("HEAD", "/plain"),
    spec("DELETE", "/plain"),
    spec("POST", "/body"),
    spec("GET", "/body"),
    spec("GET", "/all/@"),
    spec("HEAD", "/all/@"),
    spec("HEAD", "/head"),
    spec("GET", "/nope"),
    with_query(spec("GET", "/query"), "?n=@&m=2"),
    with_body(spec("POST", "/json"), ReqData::Json),
    spec("PUT", "/form"),
];

const CUSTOM: &[Spec] = &[
    spec("GET", "/x/@"),
    spec("HEAD", "/x"),
    spec("head", "/x"),
    spec("Head", "/"),
    spec("HEADS", "/x"),
    spec("hEAD", "*"),
    spec("get", "/plain"),
    spec("POST", "http://h:81/x/@"),
    spec("CONNECT", "h:443"),
    spec("OPTIONS", "*"),
    spec("A-METHOD-WITH-A-VERY-LONG-NAME-THAT-IS-SPELLED-OUT", "/x"),
    spec("!", "/x"),
];

fn table(router: Router) -> &'static [Spec] {
    match router {
        Router::Route => ROUTE,
        Router::Outer => OUTER,
        Router::Custom => CUSTOM,
    }
}

/// Requests in all forms.
fn forms(router: Router, thorough: bool) -> Vec<Spec> {
    let long: &'static str = Box::leak(format!("/{}?{}", "p".repeat(30_000), "q".repeat(30_000)).into_boxed_str());
    let (methods, targets): (&[&'static str], &[&'static str]) = match router {
        Router::Route => (&["GET", "HEAD"], &["/plain", "http://h/plain", "https://u@h:8443/conv/@", "x://h/head", "/plain?_method=HEAD&method=POST", "/guards#f"]),
        Router::Outer => (&["GET", "HEAD"], &["/plain", "http://h/own/@", "/plain?_method=POST", "http://[::1]:80/head"]),
        Router::Custom => (
            &["GET", "HEAD", "POST", "head", "Head", "HEA", "HEADS", "get", "OPTIONS", "CONNECT", "BREW", "PRI"],
            &["/", "/a?b=c&d", "/a/../b//c/./", "/%41%2f?%20", "http://h", "http://h/", "https://user@h:1/a?b", "urn://x/y", "*", "h:80", "1.2.3.4:5", "[::1]:6", "/?", "/a#f", "/a:b@c;d,e", "//h/x", "/caf\u{e9}", long],
        ),
    };
    let mut v = vec![];
    for (i, target) in targets.iter().enumerate() {
        if hyperdrive::http::Uri::from_str(target).is_err() {
            continue;
        }
        let none: &[&str] = if i == 0 && router != Router::Custom { &["PUT", "OPTIONS", "BREW"] } else { &[] };
        for method in methods.iter().chain(none) {
            for form in 0..FORMS {
                if !thorough && i > 0 && form > 1 && form % 3 != target.len() as u8 % 3 {
                    continue;
                }
                let target = target.split('#').next().unwrap();
                v.push(Spec { form, ..spec(method, target) });
            }
        }
    }
    v
}

/// The cases of the hand-written decoder.
fn custom(prop: &str, thorough: bool, b: &dyn Fn(&'static str) -> Case) -> Vec<Case> {
    use Outcome::*;
    let mut out = vec![];
    for s in CUSTOM {
        out.push(Case {
            history: vec![s.clone()],
            responses: two(),
            cfg: Cfg {
                failures: vec![Foreign, Lib(403), Lib(405), Wrapped, PanicCall, Panic],
                pendings: 1,
                body_pendings: thorough as u32,
                pend_budget: if thorough { 3 } else { 2 },
                drops: prop != "P12",
                ..Cfg::default()
            },
            budget: 1,
            ..b("hand-written decoder")
        });
        if prop == "P12" {
            out.push(Case {
                history: vec![s.clone()],
                responses: if thorough { many() } else { many().into_iter().filter(|r| r.status % 100 < 6).collect() },
                ..b("hand-written decoder, responses")
            });
        }
    }
    for h in histories(&CUSTOM[..4], 2) {
        out.push(Case {
            history: h,
            responses: two(),
            cfg: Cfg { failures: vec![Foreign, PanicCall], ..Cfg::default() },
            instances: prop != "P20",
            ..b("hand-written decoder, histories")
        });
    }
    out
}

const KINDS: [Kind; 2] = [Kind::Async, Kind::Sync];
const CATCHES: [Catch; 4] = [Catch::No, Catch::Future, Catch::Result, Catch::Nested];

/// Two responses that differ in everything.
fn two() -> Vec<RespSpec> {
    vec![
        resp(200, &[("k", "v")], None, BodyKind::Text("text")),
        RespSpec {
            status: 503,
            version: Version::HTTP_10,
            headers: vec![("content-length", "6"), ("set-cookie", "a"), ("x", "1"), ("set-cookie", "b")],
            ext: Some(5),
            body: BodyKind::Stream,
        },
    ]
}

/// All statuses, and combinations of versions, headers, extensions and bodies.
fn many() -> Vec<RespSpec> {
    let mut v: Vec<RespSpec> = (100..600).map(|s| resp(s, &[("x", "y")], Some(1), BodyKind::Text("text"))).collect();
    let headers: &[&[(&str, &str)]] = &[
        &[],
        &[("content-length", "4")],
        &[("content-length", "0"), ("content-type", "text/plain")],
        &[("transfer-encoding", "chunked")],
        &[("set-cookie", "a=1"), ("allow", "GET"), ("set-cookie", "b=2"), ("set-cookie", "a=1")],
        &[("etag", "\"e\""), ("last-modified", "x"), ("connection", "close"), ("server", "s"), ("date", "d")],
    ];
    for h in headers {
        for ext in &[None, Some(3)] {
            for version in &[Version::HTTP_09, Version::HTTP_10, Version::HTTP_11, Version::HTTP_2] {
                for body in &[BodyKind::Empty, BodyKind::Text("text"), BodyKind::Stream, BodyKind::Big(100_000)] {
                    for status in &[200, 204, 304, 404, 405, 500] {
                        v.push(RespSpec {
                            status: *status,
                            version: *version,
                            headers: h.to_vec(),
                            ext: *ext,
                            body: body.clone(),
                        });
                    }
                }
            }
        }
    }
    v
}

fn base(family: &'static str) -> Case {
    Case {
        family,
        kind: Kind::Async,
        catch: Catch::No,
        router: Router::Route,
        history: vec![],
        responses: vec![two()[0].clone()],
        cfg: Cfg::default(),
        budget: 0,
        instances: false,
        rotate: false,
        rounds: 1,
        together: false,
        heap: false,
    }
}

/// Outcomes of the requests of a long history: every `P`th request fails in way `O`, at item `K` (0: at all of them;
/// 99: at one after the other).
fn every<const P: u32, const K: u32, const O: u32>(id: Id) -> Outcome {
    let (n, k) = (id / 100, id % 100);
    let at = match K {
        0 => true,
        99 => k == [HANDLER, G1, CLONE, CONV, B, PANIC, G2, G3][(n / P) as usize % 8],
        _ => k == K,
    };
    if n % P != P - 1 || !at {
        return Outcome::Ok;
    }
    match O {
        0 => Outcome::Foreign,
        1 => Outcome::Lib(403),
        2 => Outcome::Lib(405),
        3 => Outcome::PanicCall,
        4 => Outcome::Panic,
        _ => [Outcome::Panic, Outcome::Foreign, Outcome::PanicCall, Outcome::Lib(503)][(n / P) as usize % 4],
    }
}

/// Long executions: many requests, many in flight, items that aren't ready for long.
fn long(prop: &str, thorough: bool, t: &[Spec], b: &dyn Fn(&'static str) -> Case) -> Vec<Case> {
    let mut patterns: Vec<fn(Id) -> Outcome> = vec![|_| Outcome::Ok];
    macro_rules! add {
        ($($k:expr),*) => { $(
            add!(@ $k, 1); add!(@ $k, 2); add!(@ $k, 3); add!(@ $k, 7); add!(@ $k, 50);
        )* };
        (@ $k:expr, $p:expr) => {
            patterns.extend(&[every::<$p, { $k }, 0>, every::<$p, { $k }, 1>, every::<$p, { $k }, 2>, every::<$p, { $k }, 3>, every::<$p, { $k }, 4>, every::<$p, { $k }, 5>] as &[fn(Id) -> Outcome]);
        };
    }
    add!(0, 99, HANDLER, G1);
    let mut out = vec![];
    let script = |outcome, wake, order| Cfg {
        mode: Mode::Script(Script { outcome, wake, order, drop_after: None }),
        pendings: 1,
        body_pendings: 1,
        ..Cfg::default()
    };
    for (i, outcome) in patterns.iter().enumerate() {
        for rotate in 0..2 {
            out.push(Case {
                history: t.to_vec(),
                rounds: (if thorough { 3000 } else { 600 } / t.len()) as u32,
                cfg: script(*outcome, (i as u32 + rotate) % 3, 0),
                instances: rotate == 1,
                rotate: rotate == 1,
                ..b("long history")
            });
        }
        // one request over and over
        out.push(Case {
            history: vec![t[[0, 3, 8][i % 3]].clone()],
            rounds: if i % 8 == 0 || thorough { 70_000 } else { 400 },
            cfg: script(*outcome, 0, 0),
            ..b("one request over and over")
        });
        // many in flight
        for order in 0..4 {
            out.push(Case {
                history: t.to_vec(),
                rounds: (if thorough { 700 } else { 270 } / t.len()) as u32,
                cfg: script(*outcome, (i as u32 + order) % 3, order),
                together: true,
                instances: order == 2,
                rotate: order == 2,
                ..b("many in flight")
            });
        }
    }
    // not ready for long
    for wake in 1..3 {
        for &p in &[10, 40, 150, 300, 700] {
            for &o in &[every::<2, 99, 5> as fn(Id) -> Outcome, every::<1, 99, 5>] {
                out.push(Case {
                    history: t.to_vec(),
                    cfg: Cfg {
                        pendings: p,
                        body_pendings: p,
                        ..script(o, wake, 0)
                    },
                    ..b("not ready for long")
                });
            }
        }
    }
    if prop == "P12" {
        out.retain(|c| c.family != "many in flight");
    }
    out
}

fn histories(specs: &[Spec], len: usize) -> Vec<Vec<Spec>> {
    if len == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for h in histories(specs, len - 1) {
        for s in specs {
            let mut h = h.clone();
            h.push(s.clone());
            v.push(h);
        }
    }
    v
}

pub fn cases(prop: &str, thorough: bool) -> Vec<Case> {
    use Outcome::*;
    let mut out = vec![];
    let failures = vec![Foreign, Lib(403), Lib(405), Wrapped, PanicCall, Panic];
    let catches: &[Catch] = match prop {
        "P14" => &CATCHES[1..],
        "P13" | "P20" => &CATCHES[..2],
        _ => &CATCHES[..1],
    };
    for &kind in &KINDS {
        for &catch in catches {
            for &router in &[Router::Route, Router::Outer, Router::Custom] {
                let b = |family| Case {
                    kind,
                    catch,
                    router,
                    ..base(family)
                };
                if prop != "P20" && prop != "P15" {
                    for s in forms(router, thorough) {
                        out.push(Case {
                            history: vec![s],
                            responses: two()[1..].to_vec(),
                            cfg: Cfg {
                                failures: match prop {
                                    "P12" => vec![],
                                    "P14" => vec![Panic],
                                    "P13" if router != Router::Outer => vec![Foreign, Lib(404), Lib(405), Wrapped],
                                    _ => vec![Foreign, Lib(404)],
                                },
                                ..Cfg::default()
                            },
                            ..b("forms of requests")
                        });
                    }
                }
                if router == Router::Custom {
                    out.extend(custom(prop, thorough, &b));
                    continue;
                }
                let outer = router == Router::Outer;
                let t = table(router);
                if prop != "P20" && catch != Catch::Nested {
                    out.extend(long(prop, thorough, t, &b));
                }
                match prop {
                    "P11" | "P14" => {
                        // every request, all outcomes and schedules
                        for s in t {
                            let mut s = s.clone();
                            for &http10 in &[false, true] {
                                s.http10 = http10;
                                if http10 && s.query.is_empty() {
                                    s.query = "?q=1";
                                }
                                out.push(Case {
                                    history: vec![s.clone()],
                                    responses: two(),
                                    cfg: Cfg {
                                        failures: if http10 { vec![Foreign] } else { failures.clone() },
                                        pendings: 1 + thorough as u32,
                                        body_pendings: 1,
                                        self_notify: true,
                                        drops: true,
                                        pend_budget: if thorough { 3 } else { 2 },
                                        ..Cfg::default()
                                    },
                                    budget: 1,
                                    ..b("single")
                                });
                            }
                        }
                        if catch == Catch::Nested {
                            continue;
                        }
                        // histories on one service and its relatives
                        let few: Vec<Spec> = if outer {
                            vec![t[0].clone(), t[3].clone(), t[8].clone(), t[5].clone()]
                        } else {
                            vec![t[0].clone(), t[3].clone(), t[8].clone(), t[12].clone(), t[18].clone(), t[2].clone()]
                        };
                        for h in histories(&few, 2) {
                            out.push(Case {
                                history: h,
                                responses: two(),
                                cfg: Cfg {
                                    failures: if thorough {
                                        failures.clone()
                                    } else if prop == "P14" {
                                        vec![Foreign, PanicCall, Panic]
                                    } else {
                                        vec![Foreign, Lib(403), PanicCall]
                                    },
                                    pendings: 1,
                                    pend_budget: 1,
                                    drops: thorough || prop == "P11",
                                    ..Cfg::default()
                                },
                                budget: 1,
                                instances: true,
                                ..b("history of 2")
                            });
                        }
                        for h in histories(&few[..3], 3) {
                            out.push(Case {
                                history: h,
                                responses: two()[..1].to_vec(),
                                cfg: Cfg {
                                    failures: if prop == "P14" { vec![PanicCall] } else { vec![Foreign] },
                                    ..Cfg::default()
                                },
                                instances: true,
                                ..b("history of 3")
                            });
                        }
                        if thorough {
                            for h in histories(&few[..2], 4) {
                                out.push(Case {
                                    history: h,
                                    responses: two()[..1].to_vec(),
                                    cfg: Cfg {
                                        failures: if prop == "P14" { vec![PanicCall] } else { vec![Foreign] },
                                        ..Cfg::default()
                                    },
                                    instances: true,
                                    ..b("history of 4")
                                });
                            }
                        }
                        // all responses
                        for i in &[0, 3] {
                            out.push(Case {
                                history: vec![t[*i].clone()],
                                responses: many(),
                                ..b("responses")
                            });
                        }
                    }
                    "P12" => {
                        for s in t {
                            out.push(Case {
                                history: vec![s.clone()],
                                responses: if thorough { many() } else { many().into_iter().filter(|r| r.status % 50 == 0 || r.status % 100 < 6).collect() },
                                cfg: Cfg {
                                    body_pendings: 1,
                                    ..Cfg::default()
                                },
                                ..b("responses")
                            });
                            out.push(Case {
                                history: vec![s.clone()],
                                responses: two(),
                                cfg: Cfg {
                                    failures: failures.clone(),
                                    pendings: 1,
                                    body_pendings: 1,
                                    pend_budget: 2,
                                    ..Cfg::default()
                                },
                                budget: 1,
                                ..b("outcomes")
                            });
                        }
                        // HEAD must not leak into other requests, nor the other way round
                        let mixed: Vec<Spec> = t.iter().filter(|s| ["/plain", "/any", "/head"].contains(&s.path) && ["GET", "HEAD", "PUT", "BREW"].contains(&s.method)).cloned().collect();
                        for len in 2..=if thorough { 4 } else { 3 } {
                            let m = if len > 2 { &mixed[..mixed.len().min(5)] } else { &mixed[..] };
                            for h in histories(m, len) {
                                out.push(Case {
                                    history: h,
                                    responses: two(),
                                    instances: len == 2,
                                    ..b("histories")
                                });
                            }
                        }
                    }
                    "P13" => {
                        let mut all: Vec<Outcome> = (400..600).map(Lib).collect();
                        all.push(Foreign);
                        all.push(Wrapped);
                        let mut ways: Vec<Outcome> = (0..LIB_405_WAYS).map(|k| LibBy(k, 405)).collect();
                        ways.extend((0..FOREIGN_WAYS).map(ForeignBy));
                        for k in 0..LIB_WAYS {
                            if thorough {
                                ways.extend((400..600).filter(|s| *s != 405).map(|s| LibBy(k, s)));
                            } else {
                                ways.extend([400, 404, 413, 451, 499, 500, 503, 599].iter().map(|s| LibBy(k, *s)));
                            }
                        }
                        for s in t {
                            out.push(Case {
                                history: vec![s.clone()],
                                cfg: Cfg {
                                    failures: all.clone(),
                                    pendings: if thorough { 2 } else { 1 },
                                    pend_budget: if thorough { 4 } else { 2 },
                                    ..Cfg::default()
                                },
                                budget: 0,
                                ..b("all statuses")
                            });
                            out.push(Case {
                                history: vec![s.clone()],
                                cfg: Cfg {
                                    failures: ways.clone(),
                                    pendings: 1,
                                    pend_budget: 1,
                                    ..Cfg::default()
                                },
                                budget: 0,
                                ..b("all sources")
                            });
                            out.push(Case {
                                history: vec![s.clone()],
                                cfg: Cfg {
                                    failures: vec![Foreign, Wrapped, Lib(405), Lib(500)],
                                    pendings: if thorough { 3 } else { 2 },
                                    body_pendings: 1,
                                    self_notify: true,
                                    drops: true,
                                    pend_budget: if thorough { 6 } else { 4 },
                                    ..Cfg::default()
                                },
                                budget: if thorough { 2 } else { 1 },
                                ..b("schedules")
                            });
                        }
                        let few: Vec<Spec> = t.iter().filter(|s| s.path != "/any" && s.method != "HEAD").cloned().collect();
                        for h in histories(&few, 2) {
                            out.push(Case {
                                history: h,
                                cfg: Cfg {
                                    failures: vec![Foreign, Lib(405), Lib(503), PanicCall],
                                    ..Cfg::default()
                                },
                                instances: true,
                                ..b("histories")
                            });
                        }
                    }
                    "P15" => {
                        let few: Vec<Spec> = if outer {
                            vec![t[3].clone(), t[0].clone(), t[8].clone(), t[5].clone(), t[13].clone()]
                        } else {
                            vec![t[0].clone(), t[3].clone(), t[5].clone(), t[8].clone(), t[12].clone(), t[2].clone(), t[18].clone(), t[30].clone(), t[33].clone(), t[34].clone(), t[35].clone()]
                        };
                        for h in histories(&few, 2) {
                            out.push(Case {
                                history: h.clone(),
                                cfg: Cfg {
                                    failures: vec![Foreign],
                                    pendings: 1,
                                    body_pendings: 1,
                                    pend_budget: if thorough { 4 } else { 2 },
                                    drops: true,
                                    ..Cfg::default()
                                },
                                budget: 1,
                                together: true,
                                ..b("two in flight")
                            });
                            out.push(Case {
                                history: h,
                                responses: two(),
                                cfg: Cfg {
                                    failures: if thorough { vec![Lib(403), PanicCall] } else { vec![PanicCall] },
                                    pendings: 1,
                                    pend_budget: if thorough { 2 } else { 1 },
                                    ..Cfg::default()
                                },
                                instances: true,
                                together: true,
                                ..b("two in flight, instances")
                            });
                        }
                        let bodies = if outer { vec![] } else { vec![vec![t[33].clone(), t[34].clone(), t[35].clone()], vec![t[33].clone(), t[33].clone(), t[33].clone()]] };
                        for h in histories(&few[..if thorough { 4 } else if outer { 2 } else { 3 }], 3).into_iter().chain(bodies) {
                            out.push(Case {
                                history: h,
                                cfg: Cfg {
                                    failures: vec![PanicCall],
                                    pendings: 1,
                                    body_pendings: 1,
                                    pend_budget: if thorough { 3 } else { 1 },
                                    ..Cfg::default()
                                },
                                together: true,
                                ..b("three in flight")
                            });
                        }
                    }
                    "P20" => {
                        for s in t.iter().chain(&[spec("GET", "/nope/@"), spec("HEAD", "/plain/@/")]) {
                            out.push(Case {
                                history: vec![s.clone()],
                                responses: two(),
                                cfg: Cfg {
                                    failures: failures.clone(),
                                    pendings: 1 + thorough as u32,
                                    body_pendings: 1,
                                    drops: true,
                                    pend_budget: if thorough { 4 } else { 2 },
                                    ..Cfg::default()
                                },
                                budget: 1,
                                ..b("single")
                            });
                            let forever: &[(fn(Id) -> Outcome, Option<usize>)] = &[
                                (|_| Outcome::Ok, None),
                                (every::<3, 99, 5>, None),
                                (every::<1, 99, 5>, None),
                                (every::<1, HANDLER, 3>, None),
                                (every::<2, HANDLER, 4>, None),
                                (every::<2, HANDLER, 1>, None),
                                (|_| Outcome::Ok, Some(0)),
                                (|_| Outcome::Ok, Some(1)),
                                (|_| Outcome::Ok, Some(2)),
                                (every::<7, 99, 5>, Some(3)),
                            ];
                            for &(outcome, drop_after) in forever {
                                out.push(Case {
                                    history: vec![s.clone()],
                                    responses: two()[1..].to_vec(),
                                    rounds: if thorough { 30_000 } else { 4_000 },
                                    cfg: Cfg {
                                        mode: Mode::Script(Script {
                                            outcome,
                                            wake: 1,
                                            order: 0,
                                            drop_after,
                                        }),
                                        pendings: 1,
                                        ..Cfg::default()
                                    },
                                    heap: true,
                                    ..b("over and over")
                                });
                            }
                        }
                        let few: Vec<Spec> = if outer {
                            vec![t[0].clone(), t[3].clone(), t[8].clone(), t[13].clone()]
                        } else {
                            vec![t[0].clone(), t[3].clone(), t[5].clone(), t[12].clone(), t[18].clone(), t[33].clone(), t[30].clone()]
                        };
                        for h in histories(&few, 2) {
                            for &together in &[false, true] {
                                out.push(Case {
                                    history: h.clone(),
                                    responses: two()[..1 + !together as usize].to_vec(),
                                    cfg: Cfg {
                                        failures: if thorough { vec![Foreign, Lib(405), PanicCall] } else { vec![PanicCall] },
                                        pendings: 1,
                                        body_pendings: thorough as u32,
                                        pend_budget: if thorough { 2 } else { 1 },
                                        drops: true,
                                        ..Cfg::default()
                                    },
                                    budget: 1,
                                    instances: !together || thorough,
                                    together,
                                    ..b(if together { "two in flight" } else { "history of 2" })
                                });
                            }
                        }
                    }
                    _ => unreachable!(),
                }
            }
        }
    }
    if prop == "P20" {
        for c in &mut out {
            c.cfg.track = true;
        }
    }
    out
}
