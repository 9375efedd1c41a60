//! The reference router: interprets a program on a request, as boringly as possible.

use crate::ast::*;
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Req {
    /// Upper case.
    pub method: String,
    /// Request target as handed to `http::Uri`.
    pub target: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    /// 9, 10, 11 or 20.
    pub version: u8,
}

impl Req {
    pub fn new(method: &str, target: &str) -> Req {
        Req {
            method: method.into(),
            target: target.into(),
            headers: vec![],
            body: vec![],
            version: 11,
        }
    }

    /// Raw path of the target.
    pub fn path(&self) -> &str {
        let t = &self.target;
        let t = if let Some(i) = t.find("://") {
            // absolute-form
            let rest = &t[i + 3..];
            match rest.find(|c| c == '/' || c == '?' || c == '#') {
                None => "/",
                Some(j) if rest.as_bytes()[j] == b'/' => &rest[j..],
                Some(_) => "/",
            }
        } else if t.starts_with('/') || t == "*" {
            &t[..]
        } else {
            // authority-form
            ""
        };
        let end = t.find(|c| c == '?' || c == '#').unwrap_or(t.len());
        &t[..end]
    }

    /// Raw query string, if there is one.
    pub fn query(&self) -> Option<&str> {
        let t = &self.target[..self.target.find('#').unwrap_or(self.target.len())];
        t.find('?').map(|i| &t[i + 1..])
    }

    fn header(&self, name: &str) -> Option<&str> {
        self.headers
            .iter()
            .find(|(n, _)| n == name)
            .map(|(_, v)| &v[..])
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Out {
    /// Debug representation of the decoded value.
    Ok(String),
    /// The library's error.
    Err {
        status: u16,
        /// Only for 405.
        allowed: Option<BTreeSet<String>>,
        /// Display of the source.
        source: Option<String>,
    },
    /// Any other error, by its Display.
    Other(String),
    /// The query is deserialized by serde_urlencoded, which the reference doesn't reimplement for
    /// error texts: status and a marker.
    Panic(String),
}

/// If `pat` matches `path`, the texts captured by its placeholders.
pub fn matches<'p>(pat: &Pat, path: &'p str) -> Option<Vec<&'p str>> {
    let segs = match pat {
        Pat::Star => return if path == "*" { Some(vec![]) } else { None },
        Pat::Segs(s) => s,
    };
    let mut rest: &str = path;
    let mut caps = vec![];
    for s in segs {
        if !rest.starts_with('/') {
            return None;
        }
        rest = &rest[1..];
        if let Seg::Rest(_) = s {
            caps.push(rest);
            return Some(caps);
        }
        let end = rest.find('/').unwrap_or(rest.len());
        let text = &rest[..end];
        rest = &rest[end..];
        match s {
            Seg::Lit(l) => {
                if l != text {
                    return None;
                }
            }
            Seg::Ph(_) => {
                if text.is_empty() {
                    return None;
                }
                caps.push(text);
            }
            Seg::Rest(_) => unreachable!(),
        }
    }
    if rest.is_empty() {
        Some(caps)
    } else {
        None
    }
}

/// Whether some path is matched by both patterns.
pub fn overlap(a: &Pat, b: &Pat) -> bool {
    fn go(a: &[Seg], b: &[Seg]) -> bool {
        match (a.split_first(), b.split_first()) {
            (None, None) => true,
            // a rest placeholder needs at least the slash in front of it
            (None, Some(_)) | (Some(_), None) => false,
            // everything that follows is matched by a rest placeholder
            (Some((Seg::Rest(_), _)), Some(_)) | (Some(_), Some((Seg::Rest(_), _))) => true,
            (Some((x, xs)), Some((y, ys))) => {
                (match (x, y) {
                    (Seg::Lit(l), Seg::Lit(m)) => l == m,
                    (Seg::Lit(l), _) | (_, Seg::Lit(l)) => !l.is_empty(),
                    _ => true,
                }) && go(xs, ys)
            }
        }
    }
    match (a, b) {
        (Pat::Star, Pat::Star) => true,
        (Pat::Segs(a), Pat::Segs(b)) => go(a, b),
        _ => false,
    }
}

/// Result of converting placeholder text: Debug of the value, or Display of the error.
pub fn convert(ty: Ty, text: &str) -> Result<String, String> {
    match ty {
        Ty::Str => Ok(format!("{:?}", text)),
        Ty::U8 => text
            .parse::<u8>()
            .map(|v| format!("{:?}", v))
            .map_err(|e| e.to_string()),
        Ty::I32 => text
            .parse::<i32>()
            .map(|v| format!("{:?}", v))
            .map_err(|e| e.to_string()),
        Ty::Bool => text
            .parse::<bool>()
            .map(|v| format!("{:?}", v))
            .map_err(|e| e.to_string()),
        Ty::Tok(n) => {
            if text.starts_with('x') {
                Err(format!("tok{} {}", n, text))
            } else {
                Ok(format!("Tok{}<{}>", n, text))
            }
        }
    }
}

/// `application/x-www-form-urlencoded` parsing (only what the enumerated queries need, and
/// compared against serde_urlencoded by the P07 check).
pub fn query_pairs(q: &str) -> Vec<(String, String)> {
    fn dec(s: &str) -> String {
        let b = s.as_bytes();
        let mut out = vec![];
        let mut i = 0;
        while i < b.len() {
            let hex = |c: u8| (c as char).to_digit(16);
            if b[i] == b'%' && i + 2 < b.len() && hex(b[i + 1]).is_some() && hex(b[i + 2]).is_some()
            {
                out.push((hex(b[i + 1]).unwrap() * 16 + hex(b[i + 2]).unwrap()) as u8);
                i += 3;
            } else {
                out.push(if b[i] == b'+' { b' ' } else { b[i] });
                i += 1;
            }
        }
        String::from_utf8_lossy(&out).into_owned()
    }
    q.split('&')
        .filter(|p| !p.is_empty())
        .map(|p| match p.find('=') {
            None => (dec(p), String::new()),
            Some(i) => (dec(&p[..i]), dec(&p[i + 1..])),
        })
        .collect()
}

fn convert_query(q: QTy, raw: &str) -> Result<String, ()> {
    let pairs = query_pairs(raw);
    match q {
        QTy::Pairs => Ok(format!("{:?}", pairs)),
        QTy::Unit => {
            if pairs.is_empty() {
                Ok("()".into())
            } else {
                Err(())
            }
        }
        QTy::Struct => {
            let mut a: Option<u8> = None;
            let mut b: Option<String> = None;
            for (k, v) in pairs {
                match &k[..] {
                    "a" => {
                        if a.is_some() {
                            return Err(());
                        }
                        a = Some(v.parse().map_err(|_| ())?);
                    }
                    "b" => {
                        if b.is_some() {
                            return Err(());
                        }
                        b = Some(v);
                    }
                    _ => {}
                }
            }
            Ok(format!("QStruct {{ a: {:?}, b: {:?} }}", a.ok_or(())?, b))
        }
    }
}

/// One declared or implied route.
struct Entry<'a> {
    method: String,
    pat: &'a Pat,
    variant: usize,
}

fn table(p: &Prog) -> Vec<Entry<'_>> {
    let mut t: Vec<Entry<'_>> = vec![];
    for (i, v) in p.variants.iter().enumerate() {
        for r in &v.routes {
            t.push(Entry {
                method: r.method.to_uppercase(),
                pat: &r.pat,
                variant: i,
            });
        }
    }
    let implied: Vec<Entry<'_>> = t
        .iter()
        .filter(|g| {
            g.method == "GET"
                && !t
                    .iter()
                    .any(|h| h.method == "HEAD" && h.pat.shape() == g.pat.shape())
        })
        .map(|g| Entry {
            method: "HEAD".into(),
            pat: g.pat,
            variant: g.variant,
        })
        .collect();
    t.extend(implied);
    t
}

/// What decoding did, for classifying differences.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Via {
    Route(usize),
    Fallback(usize),
    NotFound,
    WrongMethod,
}

pub struct Answer {
    pub out: Out,
    pub via: Via,
}

/// A step of decoding whose outcome the environment decides.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Step {
    Guard(u8),
    Body,
}

/// Decodes `req` as `m.types[ti]`.
pub fn decode(m: &Module, ti: usize, req: &Req) -> Answer {
    decode_env(m, ti, req, &mut |s| panic!("reference: unexpected {:?}", s))
}

pub type Env<'a> = dyn FnMut(Step) -> Option<Out> + 'a;

/// Like `decode`; asks `env` for the failure (if any) of each dynamic step, in evaluation order.
pub fn decode_env(m: &Module, ti: usize, req: &Req, env: &mut Env<'_>) -> Answer {
    let p = &m.types[ti];
    let path = req.path();
    let t = table(p);
    let hits: Vec<(&Entry<'_>, Vec<&str>)> = t
        .iter()
        .filter_map(|e| matches(e.pat, path).map(|c| (e, c)))
        .collect();
    if let Some((e, caps)) = hits.iter().find(|(e, _)| e.method == req.method) {
        return Answer {
            out: construct(m, p, e.variant, Some((e.pat, caps)), req, env),
            via: Via::Route(e.variant),
        };
    }
    let ours: BTreeSet<String> = hits
        .iter()
        .filter(|(e, caps)| {
            let v = &p.variants[e.variant];
            e.pat.names().iter().zip(caps).all(|(n, text)| {
                let ty = seg_ty(v, n);
                convert(ty, text).is_ok()
            })
        })
        .map(|(e, _)| e.method.clone())
        .collect();
    let fallback = p
        .variants
        .iter()
        .position(|v| v.routes.is_empty() && v.forward().is_some());
    if let Some(f) = fallback {
        let mut out = construct(m, p, f, None, req, env);
        if !hits.is_empty() {
            if let Out::Err {
                status: 405,
                allowed,
                source,
            } = &mut out
            {
                allowed.as_mut().unwrap().extend(ours);
                *source = None;
            }
        }
        return Answer {
            out,
            via: Via::Fallback(f),
        };
    }
    if hits.is_empty() {
        Answer {
            out: Out::Err {
                status: 404,
                allowed: None,
                source: None,
            },
            via: Via::NotFound,
        }
    } else {
        Answer {
            out: Out::Err {
                status: 405,
                allowed: Some(ours),
                source: None,
            },
            via: Via::WrongMethod,
        }
    }
}

fn seg_ty(v: &Variant, name: &str) -> Ty {
    match v.fields.iter().find(|f| f.name == name).unwrap().kind {
        FKind::Seg(t) => t,
        _ => panic!("placeholder {} is not a segment field", name),
    }
}

/// Marker for sources whose text the reference doesn't predict.
pub const ANY: &str = "<any>";

fn construct(
    m: &Module,
    p: &Prog,
    vi: usize,
    caps: Option<(&Pat, &Vec<&str>)>,
    req: &Req,
    env: &mut Env<'_>,
) -> Out {
    let v = &p.variants[vi];
    let mut vals: Vec<Option<String>> = vec![None; v.fields.len()];
    if let Some((pat, caps)) = caps {
        for (n, text) in pat.names().iter().zip(caps) {
            let i = v.fields.iter().position(|f| f.name == *n).unwrap();
            match convert(seg_ty(v, n), text) {
                Ok(d) => vals[i] = Some(d),
                Err(e) => {
                    return Out::Err {
                        status: 404,
                        allowed: None,
                        source: Some(e),
                    }
                }
            }
        }
    }
    for (i, f) in v.fields.iter().enumerate() {
        if let FKind::Query(q) = f.kind {
            match convert_query(q, req.query().unwrap_or("")) {
                Ok(d) => vals[i] = Some(d),
                Err(()) => {
                    return Out::Err {
                        status: 400,
                        allowed: None,
                        source: Some(ANY.into()),
                    }
                }
            }
        }
    }
    for (i, f) in v.fields.iter().enumerate() {
        match f.kind {
            FKind::GSee => vals[i] = Some(gsee(req)),
            FKind::GDyn(n) => match env(Step::Guard(n)) {
                None => vals[i] = Some(format!("GDyn{}", n)),
                Some(o) => return o,
            },
            FKind::GHdr(n) => match req.header(&format!("g{}", n)) {
                None => vals[i] = Some(format!("GHdr{}", n)),
                Some(h) => match ghdr_fail(n, h) {
                    Some(o) => return o,
                    None => vals[i] = Some(format!("GHdr{}", n)),
                },
            },
            _ => {}
        }
    }
    for (i, f) in v.fields.iter().enumerate() {
        match &f.kind {
            FKind::BodyBytes => vals[i] = Some(format!("BodyBytes({:?})", req.body)),
            FKind::BodyDyn => match env(Step::Body) {
                None => vals[i] = Some("BodyDyn".into()),
                Some(o) => return o,
            },
            FKind::Forward(inner) => match decode_env(m, *inner, req, env).out {
                Out::Ok(d) => vals[i] = Some(d),
                e => return e,
            },
            _ => {}
        }
    }
    let inner = v
        .fields
        .iter()
        .zip(&vals)
        .map(|(f, d)| {
            format!(
                "{}: {}",
                f.name,
                d.as_ref().expect("reference: field without value")
            )
        })
        .collect::<Vec<_>>()
        .join(", ");
    Out::Ok(if v.fields.is_empty() {
        v.name.clone()
    } else {
        format!("{} {{ {} }}", v.name, inner)
    })
}

/// What `rt::GSee` prints for a request.
pub fn gsee(req: &Req) -> String {
    format!(
        "GSee({} {} {} {:?} ext42)",
        req.method,
        req.target_seen(),
        match req.version {
            9 => "HTTP/0.9",
            10 => "HTTP/1.0",
            11 => "HTTP/1.1",
            _ => "HTTP/2.0",
        },
        req.headers
    )
}

/// Failure of `rt::GHdr<n>` for header value `h`.
pub fn ghdr_fail(n: u8, h: &str) -> Option<Out> {
    if h == "plain" {
        Some(Out::Other(format!("ghdr{} plain", n)))
    } else if let Ok(status) = h.parse::<u16>() {
        Some(if status == 405 {
            Out::Err {
                status,
                allowed: Some(vec!["TRACE".to_string()].into_iter().collect()),
                source: None,
            }
        } else {
            Out::Err {
                status,
                allowed: None,
                source: Some(format!("ghdr{} {}", n, status)),
            }
        })
    } else {
        None
    }
}

impl Req {
    /// How `http::Uri` displays the target (fragments are dropped).
    pub fn target_seen(&self) -> String {
        let t = &self.target[..self.target.find('#').unwrap_or(self.target.len())];
        if let Some(i) = t.find("://") {
            let rest = &t[i + 3..];
            match rest.find(|c| c == '/' || c == '?') {
                None => format!("{}/", t),
                Some(j) if rest.as_bytes()[j] == b'?' => {
                    format!("{}{}/{}", &t[..i + 3], &rest[..j], &rest[j..])
                }
                _ => t.to_string(),
            }
        } else {
            t.to_string()
        }
    }
}
