//! Runs the programs of one shard of a family on all their requests.

use crate::drive::{drive, panic_text, quiet_panics, End};
use crate::explore::{beat, watchdog};
use crate::types::Ext;
use hyperdrive::{http, hyper, BoxedError, FromRequest, NoContext};
use model::refer::{self, Out, Req};
use model::{emit, families};
use serde_json::json;
use std::collections::BTreeSet;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

/// How the decoder is entered.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Entry {
    RequestAndBody,
    Request,
    Sync,
}

pub type Decoder = fn(http::Request<hyper::Body>, Entry) -> Out;

pub fn decoder<T>() -> Decoder
where
    T: FromRequest<Context = NoContext> + std::fmt::Debug,
{
    |req, entry| {
        let end = match entry {
            Entry::Request => drive(move || T::from_request(req, NoContext)),
            Entry::RequestAndBody => drive(move || {
                let (parts, body) = req.into_parts();
                T::from_request_and_body(&Arc::new(http::Request::from_parts(parts, ())), body, NoContext)
            }),
            Entry::Sync => match catch_unwind(AssertUnwindSafe(|| T::from_request_sync(req, NoContext))) {
                Ok(r) => End::Done(r),
                Err(p) => End::Panicked(panic_text(&*p)),
            },
        };
        match end {
            End::Done(Ok(v)) => Out::Ok(format!("{:?}", v)),
            End::Done(Err(e)) => error_out(&e),
            End::Panicked(s) => Out::Panic(s),
            End::Stalled => Out::Panic("stalled: not ready and nothing will wake it".into()),
        }
    }
}

pub fn error_out(e: &BoxedError) -> Out {
    match e.downcast_ref::<hyperdrive::Error>() {
        None => Out::Other(match e.downcast_ref::<crate::env::ForeignErr>() {
            Some(f) => format!("foreign {}", f.0),
            None => e.to_string(),
        }),
        Some(e) => {
            let allowed = e
                .allowed_methods()
                .map(|m| m.iter().map(|m| m.as_str().to_string()).collect::<BTreeSet<_>>());
            let out = Out::Err {
                status: e.http_status().as_u16(),
                allowed: allowed.clone(),
                source: e.source().map(|s| s.to_string()),
            };
            // the response must tell the same
            let r = e.response();
            let hdrs: Vec<String> = r
                .headers()
                .get_all("allow")
                .iter()
                .map(|v| v.to_str().unwrap().to_string())
                .collect();
            let listed: BTreeSet<String> = hdrs
                .iter()
                .flat_map(|h| h.split(','))
                .map(|s| s.trim().to_string())
                .filter(|s| !s.is_empty())
                .collect();
            if r.status() != e.http_status() || hdrs.is_empty() != allowed.is_none() || listed != allowed.unwrap_or_default() {
                return Out::Other(format!("{:?}, but the response has status {} and Allow {:?}", out, r.status(), hdrs));
            }
            out
        }
    }
}

pub fn build(r: &Req) -> Option<http::Request<hyper::Body>> {
    let uri: http::Uri = r.target.parse().ok()?;
    assert_eq!(uri.path(), r.path(), "the reference misreads the target {:?}", r.target);
    assert_eq!(uri.query(), r.query(), "the reference misreads the query of {:?}", r.target);
    let mut b = http::Request::builder();
    b.method(r.method.as_bytes()).uri(uri);
    b.version(match r.version {
        9 => http::Version::HTTP_09,
        10 => http::Version::HTTP_10,
        11 => http::Version::HTTP_11,
        _ => http::Version::HTTP_2,
    });
    for (k, v) in &r.headers {
        b.header(&k[..], &v[..]);
    }
    b.extension(Ext(42));
    Some(b.body(hyper::Body::from(r.body.clone())).unwrap())
}

pub fn agrees(want: &Out, got: &Out) -> bool {
    match (want, got) {
        (
            Out::Err { status, allowed, source: Some(s) },
            Out::Err { status: s2, allowed: a2, source: Some(_) },
        ) if s == refer::ANY => status == s2 && allowed == a2,
        (a, b) => a == b,
    }
}

const VERSIONS: [u8; 4] = [11, 20, 10, 9];

/// How many requests per program also go through the synchronous entry point.
const SYNC: usize = 100;

/// Program, request and entry point being run.
static NOW: (AtomicUsize, AtomicUsize, AtomicUsize) = (AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0));

/// Reports a request that's taking forever.
fn hung(fam: &str, tier: &str) {
    let (i, k, e) = (NOW.0.load(Ordering::Relaxed), NOW.1.load(Ordering::Relaxed), NOW.2.load(Ordering::Relaxed));
    let c = &families::family(fam, tier == "thorough")[i];
    let detail = json!({
        "family": fam, "subfamily": c.family, "tier": tier, "program_index": i, "request_index": k,
        "program": emit::module(&c.module), "request": format!("{:?}", (c.reqs)()[k]), "entry": (["RequestAndBody", "Request", "Sync"][e]),
        "got": "doesn't end",
    });
    println!(
        "{}",
        json!({"states": 1, "transitions": 1, "runs": 1, "unparseable": 0, "violations": 1, "details": [detail], "samples": [], "outcomes": {}, "families": {}})
    );
    std::process::exit(0);
}

pub fn shard_main(fam: &str, tier: &str, shard: usize, shards: usize, table: Vec<(usize, Decoder)>) {
    quiet_panics();
    {
        let (fam, tier) = (fam.to_string(), tier.to_string());
        watchdog(100, move || hung(&fam, &tier));
    }
    let cases = families::family(fam, tier == "thorough");
    // (families ending in `x` may contain programs the derive rejects)
    assert!(
        if fam.ends_with('x') { table.iter().all(|t| t.0 % shards == shard && t.0 < cases.len()) } else { table.iter().map(|t| t.0).eq((0..cases.len()).filter(|i| i % shards == shard)) },
        "stale shard"
    );
    let only: Option<(usize, usize)> = std::env::args().nth(1).map(|a| {
        let mut p = a.split(':').map(|x| x.parse().unwrap());
        (p.next().unwrap(), p.next().unwrap())
    });

    let (mut steps, mut runs, mut states, mut unparseable, mut n_viol) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut viol = vec![];
    let mut samples = vec![];
    let mut outcomes = std::collections::BTreeMap::<String, u64>::new();
    let mut fams = std::collections::BTreeMap::<String, (u64, u64)>::new();
    for (i, dec) in table {
        let c = &cases[i];
        if only.map_or(false, |o| o.0 != i) {
            continue;
        }
        let main = c.module.types.len() - 1;
        let reqs = (c.reqs)();
        let mut seen: HashSet<(Out, String)> = HashSet::new();
        let mut wants: Vec<Option<Out>> = vec![];
        let fam_count = fams.entry(c.family.to_string()).or_default();
        fam_count.0 += 1;
        for r in &reqs {
            if r.target.parse::<http::Uri>().is_err() {
                unparseable += 1;
                wants.push(None);
                continue;
            }
            beat();
            let a = refer::decode(&c.module, main, r);
            steps += 1;
            fam_count.1 += 1;
            let class = match &a.out {
                Out::Ok(_) => format!("ok via {}", if let refer::Via::Fallback(_) = a.via { "fallback" } else { "route" }),
                Out::Err { status, .. } => format!("{}", status),
                Out::Other(_) => "foreign error".into(),
                Out::Panic(_) => "panic".into(),
            };
            *outcomes.entry(class).or_default() += 1;
            seen.insert((a.out.clone(), format!("{:?}", a.via)));
            wants.push(Some(a.out));
        }
        states += seen.len() as u64;
        let n = reqs.len();
        let sees = emit::module(&c.module).contains("GSee");
        let stride = n / SYNC + 1;
        let order = (0..n)
            .map(|k| (k, Entry::RequestAndBody))
            .chain((0..n).rev().map(|k| (k, Entry::Request)))
            .chain((0..n).filter(|k| (k + i) % stride == 0).map(|k| (k, Entry::Sync)));
        for (k, entry) in order {
            if only.map_or(false, |o| o.1 != k) {
                continue;
            }
            let want = match &wants[k] {
                Some(w) => w,
                None => continue,
            };
            if n_viol > 0 && entry == Entry::Sync {
                continue; // (it might wait forever)
            }
            beat();
            NOW.0.store(i, Ordering::Relaxed);
            NOW.1.store(k, Ordering::Relaxed);
            NOW.2.store(entry as usize, Ordering::Relaxed);
            let mut req = &reqs[k];
            let (other, other_want);
            let mut want = want;
            // the second time in one of the versions
            let version = VERSIONS[(k + i) % VERSIONS.len()];
            if entry != Entry::RequestAndBody && req.version == 11 && version != 11 {
                other = Req { version, ..req.clone() };
                req = &other;
                if sees {
                    other_want = refer::decode(&c.module, main, req).out;
                    want = &other_want;
                }
            }
            let got = dec(build(req).unwrap(), entry);
            runs += 1;
            if !agrees(want, &got) {
                n_viol += 1;
                if viol.len() < 5 {
                    viol.push(json!({
                        "family": fam, "subfamily": c.family, "tier": tier, "program_index": i, "request_index": k,
                        "program": emit::module(&c.module), "request": format!("{:?}", req),
                        "entry": format!("{:?}", entry),
                        "expected": format!("{:?}", want), "got": format!("{:?}", got),
                    }));
                }
            }
        }
        if samples.len() < 2 && !reqs.is_empty() {
            let k = reqs.len() / 2;
            samples.push(json!({"program": emit::module(&c.module), "request": format!("{:?}", reqs[k]), "result": format!("{:?}", wants[k])}));
        }
    }
    println!(
        "{}",
        json!({"states": states, "transitions": steps, "runs": runs, "unparseable": unparseable, "violations": n_viol,
               "details": viol, "samples": samples, "outcomes": outcomes,
               "families": fams.into_iter().map(|(k, v)| (k, json!({"programs": v.0, "requests": v.1}))).collect::<serde_json::Map<_, _>>()})
    );
}
