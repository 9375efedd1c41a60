//! The enumerated families of programs, each with the requests to explore on every member.

use crate::ast::*;
use crate::refer::Req;

pub struct Case {
    pub module: Module,
    pub reqs: Box<dyn Fn() -> Vec<Req>>,
    pub family: &'static str,
}

fn case(
    family: &'static str,
    module: Module,
    reqs: impl Fn() -> Vec<Req> + 'static,
) -> Case {
    Case {
        module,
        reqs: Box::new(reqs),
        family,
    }
}

pub const METHODS: &[&str] = &[
    "GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH",
];
/// Methods that can't be declared.
pub const EXT_METHODS: &[&str] = &["FOO", "get", "Get", "HEADX", "PROPFIND"];

pub fn all_methods() -> Vec<&'static str> {
    METHODS.iter().chain(EXT_METHODS).cloned().collect()
}

/// All paths of up to `max` segments over `alphabet`.
pub fn paths(alphabet: &[&str], max: usize) -> Vec<String> {
    let mut all = vec![];
    let mut level = vec![String::new()];
    for _ in 0..max {
        let mut next = vec![];
        for p in &level {
            for a in alphabet {
                next.push(format!("{}/{}", p, a));
            }
        }
        all.extend(next.iter().cloned());
        level = next;
    }
    all
}

pub fn grid(methods: &[&str], targets: &[String]) -> Vec<Req> {
    let mut out = vec![];
    for t in targets {
        for m in methods {
            out.push(Req::new(m, t));
        }
    }
    out
}

/// All patterns of up to `max` segments over literals `lits`, placeholders and (last) rest
/// placeholders. Placeholder names are `p<position>`.
pub fn patterns(lits: &[&str], max: usize) -> Vec<Pat> {
    let mut all = vec![];
    let mut level: Vec<Vec<Seg>> = vec![vec![]];
    for i in 0..max {
        let mut next = vec![];
        for p in &level {
            for l in lits {
                let mut q = p.clone();
                q.push(Seg::Lit(l.to_string()));
                next.push(q);
            }
            let mut q = p.clone();
            q.push(Seg::Ph(format!("p{}", i)));
            next.push(q);
            let mut q = p.clone();
            q.push(Seg::Rest(format!("p{}", i)));
            all.push(Pat::Segs(q));
        }
        all.extend(next.iter().cloned().map(Pat::Segs));
        level = next;
    }
    all
}

fn rt(method: &str, pat: &Pat) -> Route {
    Route {
        method: method.into(),
        pat: pat.clone(),
    }
}

pub fn perms<T: Clone>(items: &[T]) -> Vec<Vec<T>> {
    if items.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..items.len() {
        let mut rest = items.to_vec();
        let x = rest.remove(i);
        for mut p in perms(&rest) {
            p.insert(0, x.clone());
            out.push(p);
        }
    }
    out
}

pub fn product<T: Clone>(sets: &[Vec<T>]) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    for s in sets {
        let mut next = vec![];
        for p in &out {
            for x in s {
                let mut q: Vec<T> = p.clone();
                q.push(x.clone());
                next.push(q);
            }
        }
        out = next;
    }
    out
}

/// Characters that `http::Uri` accepts in a path (except `/`).
pub fn path_chars() -> Vec<char> {
    (0x21u8..0x7f)
        .map(|b| b as char)
        .filter(|&c| {
            c == '!'
                || ('\x24'..='\x3b').contains(&c)
                || c == '='
                || ('\x40'..='\x5f').contains(&c)
                || c.is_ascii_lowercase()
                || c == '|'
                || c == '~'
        })
        .filter(|&c| c != '/')
        .collect()
}

// ---------------------------------------------------------------- P01

fn p01(thorough: bool) -> Vec<Case> {
    let mut out = vec![];

    // every single-route program
    let star = vec![Pat::Star];
    let singles: Vec<Pat> = patterns(&["", "a", "ab"], if thorough { 4 } else { 3 })
        .into_iter()
        .chain(star.clone())
        .collect();
    for p in &singles {
        let pr = Prog::en(vec![Variant::strs("V0", vec![rt("post", p)])]);
        out.push(case("single", Module::single(pr), move || {
            let mut t = paths(
                if thorough {
                    &["", "a", "ab", "A", "b", "%61"]
                } else {
                    &["", "a", "ab", "A", "b", "%61", "aa"]
                },
                if thorough { 5 } else { 4 },
            );
            t.push("*".into());
            t.push("/*".into());
            t.push("/a/*".into());
            let mut r = grid(&["POST"], &t);
            t.truncate(60);
            t.push("*".into());
            r.extend(grid(&["GET", "HEAD", "PATCH", "post", "FOO"], &t));
            r
        }));
    }

    // every pair, in both orders, with all ways of sharing variants and methods
    let mut pairs: Vec<Pat> = patterns(
        if thorough { &["", "a", "b"] } else { &["", "a"] },
        2,
    );
    pairs.extend(star);
    for a in &pairs {
        for b in &pairs {
            if a == b {
                continue;
            }
            for (ma, mb) in &[("get", "get"), ("put", "post"), ("head", "get")] {
                let progs = vec![
                    Prog::en(vec![
                        Variant::strs("V0", vec![rt(ma, a)]),
                        Variant::strs("V1", vec![rt(mb, b)]),
                    ]),
                ];
                for pr in progs {
                    if pr.conflicts() {
                        continue;
                    }
                    out.push(case("pair", Module::single(pr), move || {
                        let mut t = paths(&["", "a", "b", "ab"], 3);
                        t.push("*".into());
                        grid(&["GET", "HEAD", "POST", "PUT", "DELETE"], &t)
                    }));
                }
            }
            if a < b && a.names() == b.names() {
                let pr = Prog::st(Variant::strs("R", vec![rt("get", a), rt("post", b)]));
                if !pr.conflicts() {
                    out.push(case("pair-one-variant", Module::single(pr), move || {
                        let mut t = paths(&["", "a", "b", "ab"], 3);
                        t.push("*".into());
                        grid(&["GET", "HEAD", "POST", "PUT", "DELETE"], &t)
                    }));
                }
            }
        }
    }

    // same pattern, all ordered pairs of methods, two variants
    for p in &["/", "/a/{x}", "*", "/{r...}"] {
        for m in METHODS {
            for n in METHODS {
                if m == n {
                    continue;
                }
                let p = Pat::parse(p);
                let (m, n) = (m.to_lowercase(), n.to_lowercase());
                let pr = Prog::en(vec![
                    Variant::strs("V0", vec![rt(&m, &p)]),
                    Variant::strs("V1", vec![rt(&n, &p)]),
                ]);
                out.push(case("methods", Module::single(pr), move || {
                    let t: Vec<String> = ["/", "/a/b", "/b", "*"].iter().map(|s| s.to_string()).collect();
                    grid(&all_methods(), &t)
                }));
            }
        }
    }

    // every triple of a pattern library
    let lib: Vec<Pat> = [
        "/", "/a", "/a/", "/a/{x}", "/{x}/b", "/a/b/c", "/b/{r...}", "*", "/{x}/{y}/d", "/ab",
    ]
    .iter()
    .map(|s| Pat::parse(s))
    .collect();
    let n = lib.len();
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                if i == j || j == k || i == k {
                    continue;
                }
                // quick: one cyclic order of each set plus its reversal
                if !thorough && !((i < j && j < k) || (i > j && j > k)) {
                    continue;
                }
                let pr = Prog::en(vec![
                    Variant::strs("V0", vec![rt("get", &lib[i])]),
                    Variant::strs("V1", vec![rt("get", &lib[j])]),
                    Variant::strs("V2", vec![rt("get", &lib[k])]),
                ]);
                if pr.conflicts() {
                    continue;
                }
                out.push(case("triple", Module::single(pr), move || {
                    let mut t = paths(&["", "a", "b", "ab", "c", "d"], 3);
                    t.push("*".into());
                    grid(&["GET", "POST"], &t)
                }));
            }
        }
    }

    // literal text: every character, alone and embedded
    let chars = path_chars();
    let mut vs = vec![];
    for (i, c) in chars.iter().enumerate() {
        vs.push(Variant::strs(format!("E{}", i), vec![rt("get", &Pat::Segs(vec![Seg::Lit(format!("x{}y", c))]))]));
        vs.push(Variant::strs(format!("S{}", i), vec![rt("get", &Pat::Segs(vec![Seg::Lit(c.to_string())]))]));
        vs.push(Variant::strs(
            format!("T{}", i),
            vec![rt("get", &Pat::Segs(vec![Seg::Lit("t".into()), Seg::Lit(format!("{}{}", c, c))]))],
        ));
    }
    let char_reqs = move || {
        let mut t = vec!["/".to_string(), "/xy".into(), "/t".into(), "/t/".into()];
        for c in path_chars() {
            for f in &["/x{}y", "/{}", "/t/{}{}", "/t/{}", "/x{}{}y", "/x{}", "/{}y", "/x{}y/", "/x/{}y", "/T/{}{}"] {
                t.push(f.replace("{}", &c.to_string()));
            }
            t.push(format!("/x%{:02X}y", c as u32));
            t.push(format!("/x%{:02x}y", c as u32));
            t.push(format!("/%{:02X}", c as u32));
        }
        for c in &["%20", "%00", "%7B", "%7D", "%22", "%3C", "%C3%A4", "%2F", "%2f", "%5C"] {
            t.push(format!("/x{}y", c));
            t.push(format!("/{}", c));
        }
        grid(&["GET"], &t)
    };
    out.push(case("chars", Module::single(Prog::en(vs)), char_reqs));
    for c in chars.iter().filter(|c| thorough || !c.is_ascii_alphanumeric()) {
        let pr = Prog::en(vec![Variant::strs(
            "V0",
            vec![rt("get", &Pat::Segs(vec![Seg::Lit(format!("x{}y", c)), Seg::Ph("p".into()), Seg::Lit(c.to_string())]))],
        )]);
        let c = *c;
        out.push(case("char", Module::single(pr), move || {
            let mut t = vec![];
            for d in path_chars() {
                t.push(format!("/x{}y/q/{}", c, d));
                t.push(format!("/x{}y/q/{}", d, c));
                t.push(format!("/x{}y/{}/{}", c, d, c));
                t.push(format!("/x{}y/q/{}{}", c, c, d));
                t.push(format!("/x{}y/q{}/{}", c, d, c));
                t.push(format!("/x{}y/%{:02X}/{}", c, d as u32, c));
            }
            t.push(format!("/x{}y/q/%{:02X}", c, c as u32));
            t.push(format!("/x{}y//{}", c, c));
            t.push(format!("/xy/q/{}", c));
            t.push(format!("/x{}y/q/", c));
            t.push(format!("/x{}{}y/q/{}", c, c, c));
            grid(&["GET"], &t)
        }));
    }
    for l in &[
        "a.b", ".*", "a+", "(a)", "[ab]", "a|b", "^a$", "\\d", "a{2}", "{x}y", "y{x}", "{", "}", "{x", "x}", "ä", "a b", "%20",
        "%2F", "%2f", "..", ".", "a?b", "a#b", "a&b", "a;b", "a:b", "@", "\"", "'", "<a>", "*", "**", "a*", "...", "r#a", "%", "%%",
    ] {
        let pr = Prog::en(vec![
            Variant::strs("V0", vec![rt("get", &Pat::Segs(vec![Seg::Lit(l.to_string())]))]),
            Variant::strs(
                "V1",
                vec![rt("get", &Pat::Segs(vec![Seg::Lit("k".into()), Seg::Lit(l.to_string()), Seg::Ph("p".into())]))],
            ),
        ]);
        let l = l.to_string();
        out.push(case("literal", Module::single(pr), move || {
            let enc: String = l
                .bytes()
                .map(|b| {
                    if path_chars().contains(&(b as char)) {
                        (b as char).to_string()
                    } else {
                        format!("%{:02X}", b)
                    }
                })
                .collect();
            let full: String = l.bytes().map(|b| format!("%{:02x}", b)).collect();
            let dec = crate::refer::query_pairs(&l).first().map(|p| p.0.clone()).unwrap_or_default();
            let mut t = vec![];
            for s in &[
                &l[..], &enc, &full, &dec, "", "a", "ab", "axb", "aa", "aaa", "2", "b", "x", "y", "xy", "d", "1", "a.b", "a%2Eb", "A.B",
                "%2F", "%2f", "/", "%", "%20", "%25", "%2520", "+", "..", ".", "%2e", "anything", "*", "...",
            ] {
                t.push(format!("/{}", s));
                t.push(format!("/k/{}/v", s));
                t.push(format!("/k/{}/", s));
                t.push(format!("/k/v/{}", s));
                t.push(format!("/{}/k", s));
            }
            grid(&["GET"], &t)
        }));
    }

    // wide
    let ns: Vec<usize> = if thorough {
        (1..=66).chain(126..=130).chain(254..=258).chain(vec![512]).collect()
    } else {
        (1..=12).chain(vec![15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257]).collect()
    };
    for n in ns {
        let ms = ["get", "post", "put"];
        let vs = (0..n)
            .map(|i| {
                let p = if i % 3 == 2 {
                    Pat::parse(&format!("/p{}/{{x}}", i))
                } else {
                    Pat::parse(&format!("/r{}", i))
                };
                Variant::strs(format!("V{}", i), vec![rt(ms[i % 2], &p)])
            })
            .collect();
        out.push(case("wide", Module::single(Prog::en(vs)), move || {
            let mut t = vec![];
            for i in 0..n + 2 {
                t.push(format!("/r{}", i));
                t.push(format!("/p{}/v", i));
                t.push(format!("/p{}", i));
            }
            grid(&["GET", "POST", "HEAD"], &t)
        }));
        // all routes on one variant
        let p: Vec<Route> = (0..n.min(64)).map(|i| rt(ms[i % 3], &Pat::parse(&format!("/r{}/{{x}}", i)))).collect();
        let pr = Prog::en(vec![Variant::strs("V", p)]);
        out.push(case("wide-variant", Module::single(pr), move || {
            let mut t = vec![];
            for i in 0..n + 2 {
                t.push(format!("/r{}/v", i));
                t.push(format!("/r{}", i));
            }
            grid(&["GET", "POST", "PUT", "HEAD"], &t)
        }));
    }

    // deep and long
    for d in [4usize, 5, 6, 7, 8, 9, 10, 12, 16, 17, 24, 32, 33, 64].iter().cloned() {
        for style in 0..3 {
            let segs: Vec<Seg> = (0..d)
                .map(|i| match style {
                    0 => Seg::Lit(format!("s{}", i % 10)),
                    1 => {
                        if i % 2 == 0 {
                            Seg::Lit("a".into())
                        } else {
                            Seg::Ph(format!("p{}", i))
                        }
                    }
                    _ => {
                        if i + 1 == d {
                            Seg::Rest("rest".into())
                        } else if i % 3 == 0 {
                            Seg::Ph(format!("p{}", i))
                        } else {
                            Seg::Lit(String::new())
                        }
                    }
                })
                .collect();
            let pr = Prog::en(vec![Variant::strs("V", vec![rt("get", &Pat::Segs(segs.clone()))])]);
            out.push(case("deep", Module::single(pr), move || {
                // the matching path, and every single-segment change / removal / insertion
                let base: Vec<String> = segs
                    .iter()
                    .map(|s| match s {
                        Seg::Lit(l) => l.clone(),
                        _ => "v".into(),
                    })
                    .collect();
                let j = |v: &[String]| v.iter().map(|s| format!("/{}", s)).collect::<String>();
                let mut t = vec![j(&base)];
                for i in 0..d {
                    for c in &["", "a", "v", "zz", "S1"] {
                        let mut v = base.clone();
                        v[i] = c.to_string();
                        t.push(j(&v));
                        let mut v = base.clone();
                        v.insert(i, c.to_string());
                        t.push(j(&v));
                    }
                    let mut v = base.clone();
                    v.remove(i);
                    t.push(j(&v));
                    t.push(j(&base[..i]));
                }
                t.push(format!("{}/", j(&base)));
                t.push(format!("{}/x/y", j(&base)));
                grid(&["GET"], &t)
            }));
        }
    }
    for len in &[1usize, 15, 16, 17, 63, 64, 65, 255, 256, 257, 1000, 4095, 4096, 4097] {
        let len = *len;
        let lit = "abcdefghij".chars().cycle().take(len).collect::<String>();
        let pr = Prog::en(vec![
            Variant::strs("L", vec![rt("get", &Pat::Segs(vec![Seg::Lit(lit.clone())]))]),
            Variant::strs("P", vec![rt("get", &Pat::parse("/k/{x}"))]),
            Variant::strs("Q", vec![rt("get", &Pat::parse("/r/{x...}"))]),
        ]);
        out.push(case("long", Module::single(pr), move || {
            let mut t = vec![];
            for l in &[len, len + 1, len.saturating_sub(1), 65535 - 4, 30000] {
                let s = "abcdefghij".chars().cycle().take(*l).collect::<String>();
                t.push(format!("/{}", s));
                t.push(format!("/k/{}", s));
                t.push(format!("/r/{}", s));
                t.push(format!("/r/{}", s.replace('c', "/")));
                t.push(format!("/{}", s.replace('c', "/")));
            }
            grid(&["GET"], &t)
        }));
    }

    // nothing else in the request matters
    for pr in vec![
        Prog::en(vec![
            Variant::strs("A", vec![route("get", "/a")]),
            Variant::strs("B", vec![route("post", "/a"), route("get", "/b")]),
            Variant::strs("C", vec![route("get", "/c/{x}"), route("delete", "/d/{x}")]),
            Variant::strs("D", vec![route("put", "/r/{r...}")]),
            Variant::strs("E", vec![route("options", "*"), route("get", "/")]),
            Variant::strs("F", vec![route("connect", "/x"), route("trace", "/x"), route("patch", "/x")]),
        ]),
        Prog::en(vec![
            Variant::strs("D", vec![route("get", "/{r...}")]),
            Variant::strs("E", vec![route("get", "*")]),
        ]),
        Prog::en(vec![Variant::strs("O", vec![route("get", "/{x}")]), Variant::strs("P", vec![route("get", "/")])]),
    ] {
        out.push(case("form", Module::single(pr), form_reqs));
    }
    out
}

/// Full product of request forms.
fn form_reqs() -> Vec<Req> {
    let mut out = vec![];
    let hdrs: Vec<Vec<(&str, &str)>> = vec![
        vec![],
        vec![("host", "a")],
        vec![("x-http-method-override", "POST"), ("x-http-method", "PUT"), ("x-method-override", "DELETE")],
        vec![("x-original-url", "/b"), ("x-rewrite-url", "/b"), ("x-forwarded-prefix", "/a"), ("x-forwarded-host", "b")],
        vec![("content-type", "application/json"), ("content-length", "3"), ("accept", "text/html"), ("transfer-encoding", "chunked")],
        vec![("upgrade", "websocket"), ("connection", "upgrade"), ("expect", "100-continue"), ("range", "bytes=0-1")],
        vec![("if-match", "*"), ("if-none-match", "\"a\""), ("cookie", "a=b"), ("authorization", "x"), ("origin", "null"), ("access-control-request-method", "PUT")],
    ];
    for path in &["/a", "/b", "/c/v", "/c/%2F", "/d/v", "/r/", "/r/x/y", "/", "/x", "/q", "/a/", "/A"] {
        for form in &["{}", "http://h{}", "https://user@h:8080{}", "foo://a{}"] {
            for q in &["", "?", "?a=b", "?/b", "?/c/v", "?a?b", "?_method=POST", "?%2F", "#f", "?a#f"] {
                let t = format!("{}{}", form.replace("{}", path), q);
                for m in &["GET", "POST", "HEAD", "DELETE", "PUT", "OPTIONS", "CONNECT"] {
                    for (i, h) in hdrs.iter().enumerate() {
                        // bodies and versions: all with every 3rd header set
                        for (body, version) in &[(&b""[..], 11), (&b"/b"[..], 20), (&b"_method=PUT"[..], 10), (&b""[..], 9)] {
                            if i % 3 != 0 && *version != 11 {
                                continue;
                            }
                            let mut r = Req::new(m, &t);
                            r.headers = h.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
                            r.body = body.to_vec();
                            r.version = *version;
                            out.push(r);
                        }
                    }
                }
            }
        }
    }
    for t in &["*", "http://h", "http://h?x", "h:80", "h", "localhost", "http://*", "http://h/*", "1.2.3.4:80", "[::1]:80"] {
        for m in all_methods() {
            out.push(Req::new(m, t));
        }
    }
    out
}

// ---------------------------------------------------------------- P02

fn seg_paths(skeleton: &Pat, texts: &[Vec<&str>]) -> Vec<String> {
    // all assignments of texts to the placeholders
    let sets: Vec<Vec<&str>> = texts.to_vec();
    product(&sets).iter().map(|v| fill(skeleton, v)).collect()
}

fn fill(p: &Pat, v: &[&str]) -> String {
    match p {
        Pat::Star => "*".into(),
        Pat::Segs(segs) => {
            let mut i = 0;
            segs.iter()
                .map(|s| match s {
                    Seg::Lit(l) => format!("/{}", l),
                    _ => {
                        i += 1;
                        format!("/{}", v[i - 1])
                    }
                })
                .collect()
        }
    }
}

/// Paths for a pattern with `n` placeholders: full product for few, deviations for many.
fn placeholder_paths(p: &Pat) -> Vec<String> {
    let n = p.names().len();
    let rest = match p {
        Pat::Segs(s) => match s.last() {
            Some(Seg::Rest(_)) => true,
            _ => false,
        },
        _ => false,
    };
    const FULL: &[&str] = &["v", "x1", "7", "256", "-1", "+1", "%37", "a.b", "true", "007", "2147483648", "x%2F"];
    let mut out = vec![];
    match n {
        0 => out.push(fill(p, &[])),
        1 => {
            let mut texts = FULL.to_vec();
            if rest {
                texts.extend(&["", "/", "a/b", "x/y", "7/", "/7", "a//b/"]);
            }
            out = seg_paths(p, &[texts]);
        }
        2 => {
            let mut l = FULL.to_vec();
            if rest {
                l.extend(&["", "a/b", "x/y", "//"]);
            }
            out = seg_paths(p, &[FULL.to_vec(), l]);
        }
        3 | 4 => {
            let mut sets = vec![];
            for i in 0..n {
                let mut s = if n == 3 { vec!["v", "x1", "7", "300"] } else { vec!["x1", "7", "300"] };
                // distinct ordinary texts, so that mixed-up fields show
                s.push(["11", "22", "33", "44"][i]);
                if rest && i + 1 == n {
                    s.extend(&["", "a/b"]);
                }
                sets.push(s);
            }
            out = seg_paths(p, &sets);
        }
        _ => {
            let base: Vec<String> = (0..n).map(|i| format!("{}", 11 + i)).collect();
            let base: Vec<&str> = base.iter().map(|s| &s[..]).collect();
            out.push(fill(p, &base));
            for i in 0..n {
                for t in &["x1", "300", "v"] {
                    let mut v = base.clone();
                    v[i] = t;
                    out.push(fill(p, &v));
                    for j in i + 1..n {
                        let mut w = v.clone();
                        w[j] = "x2";
                        out.push(fill(p, &w));
                    }
                }
            }
        }
    }
    out
}

fn p02_reqs(prog: &Prog) -> Vec<Req> {
    let mut t = vec![];
    let mut ms = vec![];
    for v in &prog.variants {
        for r in &v.routes {
            t.extend(placeholder_paths(&r.pat));
            let m = r.method.to_uppercase();
            if !ms.contains(&m) {
                ms.push(m);
            }
        }
    }
    t.sort();
    t.dedup();
    let needs = |f: fn(&FKind) -> bool| prog.variants.iter().any(|v| v.fields.iter().any(|x| f(&x.kind)));
    let q = needs(|k| match k {
        FKind::Query(_) => true,
        _ => false,
    });
    let g = needs(|k| match k {
        FKind::GHdr(_) => true,
        _ => false,
    });
    let b = needs(|k| match k {
        FKind::BodyBytes => true,
        _ => false,
    });
    let mut out = vec![];
    for p in &t {
        for m in &ms {
            for query in if q { &["", "?a=1&b=c", "?b"][..] } else { &[""][..] } {
                for hdr in if g { &["", "403", "plain"][..] } else { &[""][..] } {
                    let mut r = Req::new(m, &format!("{}{}", p, query));
                    if !hdr.is_empty() {
                        r.headers.push(("g1".into(), hdr.to_string()));
                    }
                    if b {
                        r.body = b"zyx".to_vec();
                    }
                    out.push(r);
                }
            }
        }
    }
    out
}

fn p02_case(family: &'static str, pr: Prog) -> Option<Case> {
    if pr.conflicts() {
        return None;
    }
    let p2 = pr.clone();
    Some(case(family, Module::single(pr), move || p02_reqs(&p2)))
}

/// Routes of one variant naming its placeholders in different orders. The derive may reject these; what it accepts
/// has to fill the right fields.
fn p02x(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    for k in 2..=(if thorough { 4 } else { 3 }) {
        let idx: Vec<usize> = (0..k).collect();
        for perm in perms(&idx) {
            if perm == idx {
                continue;
            }
            for style in 0..6 {
                let pat = |order: &[usize], lead: &str| {
                    let mut segs = vec![Seg::Lit(lead.into())];
                    for (n, i) in order.iter().enumerate() {
                        if style % 3 == 1 {
                            segs.push(Seg::Lit(format!("l{}", i)));
                        }
                        segs.push(if style % 3 == 2 && n + 1 == k { Seg::Rest(format!("f{}", i)) } else { Seg::Ph(format!("f{}", i)) });
                    }
                    Pat::Segs(segs)
                };
                let (a, b, c) = (pat(&idx, "a"), pat(&perm, "b"), pat(&idx, "c"));
                let routes = if style < 3 {
                    vec![rt("get", &a), rt("get", &b)]
                } else {
                    vec![rt("get", &a), rt("post", &c), rt("put", &b)]
                };
                for fields in &[idx.clone(), perm.clone()] {
                    let f = fields.iter().map(|i| field(&format!("f{}", i), FKind::Seg(Ty::Str))).collect();
                    let v = Variant::new("V", routes.clone(), f);
                    out.extend(p02_case("mixed orders", if style % 2 == 0 { Prog::en(vec![v]) } else { Prog::st(v) }));
                }
            }
        }
    }
    out
}

fn p02(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    let tys = |rot: usize, i: usize| match (i + rot) % 4 {
        0 => Ty::Tok(i as u8),
        1 => Ty::U8,
        2 => Ty::Str,
        _ => Ty::Tok(i as u8),
    };
    // every order of fields
    for k in 1..=(if thorough { 5 } else { 4 }) {
        for style in 0..3 {
            // plain, literals in between, last one is a rest placeholder
            let mut segs = vec![];
            for i in 0..k {
                if style == 1 {
                    segs.push(Seg::Lit(format!("l{}", i)));
                }
                segs.push(if style == 2 && i + 1 == k {
                    Seg::Rest(format!("f{}", i))
                } else {
                    Seg::Ph(format!("f{}", i))
                });
            }
            let pat = Pat::Segs(segs);
            let idx: Vec<usize> = (0..k).collect();
            for (pi, perm) in perms(&idx).into_iter().enumerate() {
                for rot in 0..(if thorough || k <= 2 { 4 } else { 1 }) {
                    let fields = perm
                        .iter()
                        .map(|&i| field(&format!("f{}", i), FKind::Seg(tys(rot + pi, i))))
                        .collect();
                    let v = Variant::new("V", vec![rt("get", &pat)], fields);
                    let pr = if pi % 2 == 0 { Prog::en(vec![v]) } else { Prog::st(v) };
                    out.extend(p02_case("order", pr));
                }
            }
        }
    }
    // many placeholders
    for k in (5..=(if thorough { 24 } else { 13 })).chain(vec![16, 20]) {
        let pat = Pat::Segs((0..k).map(|i| Seg::Ph(format!("f{}", i))).collect());
        let id: Vec<usize> = (0..k).collect();
        let mut orders = vec![id.clone()];
        orders.push(id.iter().rev().cloned().collect());
        orders.push(id.iter().map(|i| (i + 1) % k).collect());
        orders.push(id.iter().cloned().filter(|i| i % 2 == 0).chain(id.iter().cloned().filter(|i| i % 2 == 1)).collect());
        // lexicographic
        let mut lex = id.clone();
        lex.sort_by_key(|i| format!("f{}", i));
        orders.push(lex);
        for (oi, o) in orders.into_iter().enumerate() {
            for uniform in &[true, false] {
                let fields = o
                    .iter()
                    .map(|&i| {
                        field(
                            &format!("f{}", i),
                            FKind::Seg(if *uniform { Ty::Tok(9) } else { tys(oi, i) }),
                        )
                    })
                    .collect();
                out.extend(p02_case("many", Prog::en(vec![Variant::new("V", vec![rt("get", &pat)], fields)])));
            }
        }
    }
    // every interleaving with other kinds of fields
    for set in vec![
        vec![("f0", FKind::Seg(Ty::Tok(0))), ("f1", FKind::Seg(Ty::Tok(1))), ("g", FKind::GHdr(1)), ("q", FKind::Query(QTy::Struct))],
        vec![("f0", FKind::Seg(Ty::U8)), ("s", FKind::GSee), ("q", FKind::Query(QTy::Pairs)), ("b", FKind::BodyBytes)],
        vec![("f0", FKind::Seg(Ty::Tok(0))), ("f1", FKind::Seg(Ty::Str)), ("g", FKind::GHdr(1)), ("b", FKind::BodyBytes)],
    ] {
        for pat in &["/a/{f0}/{f1}", "/a/{f1}/{f0...}"] {
            if set.iter().all(|f| f.0 != "f1") && *pat != "/a/{f0}/{f1}" {
                continue;
            }
            let pat = if set.iter().any(|f| f.0 == "f1") { Pat::parse(pat) } else { Pat::parse("/a/{f0}") };
            for perm in perms(&set) {
                let v = Variant::new("V", vec![rt("post", &pat)], perm.iter().map(|(n, k)| field(n, k.clone())).collect());
                out.extend(p02_case("mixed", Prog::en(vec![v])));
            }
        }
    }
    // several routes on one variant
    let lib: Vec<Pat> = [
        "/{x}/{y}", "/m/{x}/{y}", "/{x}/m/{y}/t", "/{x}/{y}/m/t/u", "/a/b/c/d/{x}/{y...}", "/1/2/3/4/5/6/7/{x}/8/{y}",
    ]
    .iter()
    .map(|s| Pat::parse(s))
    .collect();
    for a in &lib {
        for b in &lib {
            if a == b {
                continue;
            }
            for rev in &[false, true] {
                let mut f = vec![field("x", FKind::Seg(Ty::Tok(1))), field("y", FKind::Seg(Ty::Tok(2)))];
                if *rev {
                    f.reverse();
                }
                out.extend(p02_case("multi", Prog::en(vec![Variant::new("V", vec![rt("get", a), rt("post", b)], f.clone())])));
                out.extend(p02_case("multi", Prog::en(vec![Variant::new("V", vec![rt("get", a), rt("get", b)], f)])));
            }
        }
    }
    let all: Vec<Route> = lib.iter().map(|p| rt("get", p)).collect();
    for r in 0..all.len() {
        let mut a = all.clone();
        a.rotate_left(r);
        out.extend(p02_case(
            "multi",
            Prog::en(vec![Variant::new("V", a, vec![field("y", FKind::Seg(Ty::U8)), field("x", FKind::Seg(Ty::Tok(2)))])]),
        ));
    }
    // several variants on the same pattern, with different names, orders and types
    let t2 = [(Ty::U8, Ty::Tok(1)), (Ty::Str, Ty::U8), (Ty::Tok(2), Ty::Tok(3)), (Ty::Bool, Ty::I32)];
    for (ai, a) in t2.iter().enumerate() {
        for (bi, b) in t2.iter().enumerate() {
            for names in 0..4 {
                let (pa, pb) = match names {
                    0 => ("/{x}/{y}", "/{x}/{y}"),
                    1 => ("/{x}/{y}", "/{y}/{x}"),
                    2 => ("/{x}/k/{y...}", "/{y}/k/{x...}"),
                    _ => ("/k/{y}/{x}", "/k/{z}/{w}"),
                };
                let (n1, n2) = if names == 3 { ("z", "w") } else { ("x", "y") };
                let v0 = Variant::new("V0", vec![route("get", pa)], vec![field("x", FKind::Seg(a.0)), field("y", FKind::Seg(a.1))]);
                let v1 = Variant::new(
                    "V1",
                    vec![route(if (ai + bi) % 2 == 0 { "post" } else { "head" }, pb)],
                    vec![field(n1, FKind::Seg(b.0)), field(n2, FKind::Seg(b.1))],
                );
                out.extend(p02_case("shared", Prog::en(vec![v0, v1])));
            }
        }
    }
    // all texts of one and two characters, alone and next to others, and long ones
    for (pat, tys) in &[
        ("/{x}", [Ty::Str, Ty::Str]),
        ("/a/{x}/{y}", [Ty::Str, Ty::Str]),
        ("/a/{y}/b/{x}", [Ty::Str, Ty::Tok(1)]),
        ("/{x...}", [Ty::Str, Ty::Str]),
        ("/{y}/{x...}", [Ty::Str, Ty::Str]),
        ("/{x}/{y}", [Ty::U8, Ty::I32]),
        ("/{x...}", [Ty::U8, Ty::Str]),
    ] {
        let pat = Pat::parse(pat);
        let names = pat.names();
        let fields = names.iter().map(|n| field(n, FKind::Seg(tys[(*n == "y") as usize]))).collect();
        let v = Variant::new("V", vec![rt("get", &pat)], fields);
        let at = names.iter().position(|n| *n == "x").unwrap();
        let count = names.len();
        out.push(case("texts", Module::single(Prog::en(vec![v])), move || {
            let chars: Vec<String> = (0x21..0x7fu8).map(|c| (c as char).to_string()).chain(vec!["\u{e9}".into(), "\u{20ac}".into(), "\u{1f600}".into()]).collect();
            let mut texts = vec![];
            for a in &chars {
                for t in &[a.clone(), format!("7{}", a), format!("{}7", a), format!("7{}7", a), format!("{}7{}", a, a), format!("ab{}cd", a)] {
                    texts.push(t.clone());
                }
                for b in &chars {
                    texts.push(format!("{}{}", a, b));
                    texts.push(format!("x{}{}y", a, b));
                }
            }
            for h in 0..256 {
                for t in &[format!("%{:02x}", h), format!("%{:02X}", h), format!("7%{:02X}7", h), format!("%25{:02X}", h), format!("%C3%{:02X}", h)] {
                    texts.push(t.clone());
                }
            }
            for w in &[".", "..", "...", "a.", ".a", "index.html", "%2e%2e", "%2E", "%2f", "%5C", "con", "NaN", "inf", "0x10", "1e3", "+7", "-0", "00", "1_0", "true", "True", "{x}", "{}", "x...", "*"] {
                texts.push(w.to_string());
            }
            let mut n = 1;
            while n <= 60_000 {
                for d in 0..2 {
                    texts.push("z".repeat(n + d));
                    texts.push("%41".repeat((n + d) / 3));
                    texts.push(format!("{}7", "0".repeat(n + d)));
                    texts.push(format!("{}/", "y/".repeat((n + d) / 2)));
                }
                n = n * 3 / 2 + 1;
            }
            let mut t: Vec<String> = texts
                .iter()
                .map(|t| {
                    let mut v = vec!["66"; count];
                    v[at] = t;
                    fill(&pat, &v)
                })
                // http 0.1 takes what's before for a scheme, even if it starts with a slash
                .filter(|t| !t.contains("://"))
                .collect();
            t.sort();
            t.dedup();
            grid(&["GET"], &t)
        }));
    }
    // a failed conversion doesn't fall through to other routes or the fallback
    for fb_first in &[false, true] {
        for t in &[Ty::U8, Ty::Tok(1), Ty::I32, Ty::Bool] {
            let inner = Prog::en(vec![Variant::strs("I", vec![route("get", "/{r...}"), route("post", "/{r...}")])]).named("Inner");
            let mut vs = vec![
                Variant::new("V0", vec![route("get", "/n/{x}")], vec![field("x", FKind::Seg(*t))]),
                Variant::new("V1", vec![route("post", "/n/{s}")], vec![field("s", FKind::Seg(Ty::Str))]),
            ];
            let fb = Variant::new("F", vec![], vec![field("inner", FKind::Forward(0))]);
            if *fb_first {
                vs.insert(0, fb)
            } else {
                vs.push(fb)
            }
            let pr = Prog::en(vs);
            let m = Module { types: vec![inner, pr] };
            out.push(case("no-fallthrough", m, move || {
                let mut t = placeholder_paths(&Pat::parse("/n/{x}"));
                t.extend(paths(&["n", "", "7", "x"], 3));
                grid(&["GET", "POST", "HEAD", "PUT"], &t)
            }));
        }
    }
    out
}

// ---------------------------------------------------------------- P03

fn p03(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    // every assignment of methods to variants that share a pattern
    let ms: &[&str] = if thorough { &["get", "head", "post", "put", "patch"] } else { &["get", "head", "post", "put"] };
    for nv in 2..=3usize {
        if nv == 3 && !thorough && ms.len() > 4 {
            continue;
        }
        let total = (nv + 1).pow(ms.len() as u32);
        for code in 1..total {
            let mut c = code;
            let mut methods: Vec<Vec<&str>> = vec![vec![]; nv];
            for m in ms {
                let d = c % (nv + 1);
                c /= nv + 1;
                if d > 0 {
                    methods[d - 1].push(m);
                }
            }
            if nv == 3 && methods.iter().any(|m| m.is_empty()) {
                continue;
            }
            let types = [Ty::U8, Ty::Tok(1), Ty::Bool];
            let vs: Vec<Variant> = (0..nv)
                .map(|i| {
                    Variant::new(
                        format!("V{}", i),
                        methods[i].iter().map(|m| route(m, "/a/{x}")).collect(),
                        if methods[i].is_empty() { vec![] } else { vec![field("x", FKind::Seg(types[(i + code) % 3]))] },
                    )
                })
                .collect();
            out.push(case("assign", Module::single(Prog::en(vs)), move || {
                let t: Vec<String> = ["/a/7", "/a/x", "/a/v", "/a/true", "/a/", "/a", "/b/7", "/a/7/", "*"]
                    .iter()
                    .map(|s| s.to_string())
                    .collect();
                grid(&all_methods(), &t)
            }));
        }
    }
    // every subset of all nine methods on a static route (thorough), or every small / large one
    for mask in 1u32..512 {
        let n = mask.count_ones();
        if !thorough && n > 2 && n < 8 {
            continue;
        }
        let rs: Vec<Route> = METHODS
            .iter()
            .enumerate()
            .filter(|(i, _)| mask & (1 << i) != 0)
            .map(|(_, m)| route(&m.to_lowercase(), "/a"))
            .collect();
        let pr = if mask % 2 == 0 {
            Prog::en(vec![Variant::strs("V", rs)])
        } else {
            Prog::en(rs.into_iter().rev().enumerate().map(|(i, r)| Variant::strs(format!("V{}", i), vec![r])).collect())
        };
        out.push(case("subset", Module::single(pr), move || {
            let t: Vec<String> = ["/a", "/", "/a/", "/b"].iter().map(|s| s.to_string()).collect();
            grid(&all_methods(), &t)
        }));
    }
    // several patterns with different method sets: every ordered triple
    let lib: Vec<Pat> = ["/a", "/a/{x}", "/{x}/b/{y}", "/c/{r...}", "*", "/"].iter().map(|s| Pat::parse(s)).collect();
    let msets: Vec<Vec<&str>> = vec![vec!["get"], vec!["post", "put"], vec!["head", "delete"], vec!["get", "options", "post"]];
    for i in 0..lib.len() {
        for j in 0..lib.len() {
            for k in 0..lib.len() {
                if i == j || j == k || i == k || (!thorough && (i + j + k) % 2 == 1) {
                    continue;
                }
                let v = |n: usize, p: &Pat, ms: &[&str]| {
                    let f = p
                        .names()
                        .iter()
                        .enumerate()
                        .map(|(q, nm)| field(nm, FKind::Seg(if (q + n) % 2 == 0 { Ty::U8 } else { Ty::Tok(n as u8) })))
                        .collect();
                    Variant::new(format!("V{}", n), ms.iter().map(|m| rt(m, p)).collect(), f)
                };
                let pr = Prog::en(vec![
                    v(0, &lib[i], &msets[(i + k) % 4]),
                    v(1, &lib[j], &msets[(j + 1 + i) % 4]),
                    v(2, &lib[k], &msets[(k + 2 + j) % 4]),
                    // the first pattern again
                    {
                        let used = &msets[(i + k) % 4];
                        let free: Vec<&str> = ["patch", "trace", "connect"].iter().cloned().filter(|m| !used.contains(m)).collect();
                        v(3, &lib[i], &free)
                    },
                ]);
                if pr.conflicts() {
                    continue;
                }
                out.push(case("patterns", Module::single(pr), move || {
                    let mut t: Vec<String> = paths(&["a", "b", "7", "x", ""], 2);
                    t.extend(["/7/b/7", "/x/b/7", "/7/b/x", "/x/b/x", "/c/7/8", "/c/x/y", "*", "/c/7", "/c/300", "/c/x"].iter().map(|s| s.to_string()));
                    grid(&all_methods(), &t)
                }));
            }
        }
    }
    // many variants on the same pattern, one per method, differently picky
    for rot in 0..9 {
        for n in 3..=9usize {
            let vs = (0..n)
                .map(|i| {
                    let ty = [Ty::U8, Ty::Tok(1), Ty::Bool, Ty::I32, Ty::Str][(i + rot) % 5];
                    Variant::new(
                        format!("V{}", i),
                        vec![route(&METHODS[(i * 2 + rot) % 9].to_lowercase(), "/p/{x}/q/{y}")],
                        vec![field("y", FKind::Seg(Ty::Tok(2))), field("x", FKind::Seg(ty))],
                    )
                })
                .collect();
            out.push(case("picky", Module::single(Prog::en(vs)), move || {
                let mut t = vec![];
                for a in &["7", "x", "true", "-1", "300", "v"] {
                    for b in &["7", "x"] {
                        t.push(format!("/p/{}/q/{}", a, b));
                    }
                }
                grid(&all_methods(), &t)
            }));
        }
    }
    out
}

// ---------------------------------------------------------------- P04

fn p04(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    let pats = ["/a", "/b/{x}", "*"];
    let ms = ["get", "head", "post"];
    let mut routes = vec![];
    for p in &pats {
        for m in &ms {
            routes.push((m.to_string(), p.to_string()));
        }
    }
    let mk = |seq: &[(String, String)]| {
        Prog::en(
            seq.iter()
                .enumerate()
                .map(|(i, (m, p))| {
                    let pat = Pat::parse(p);
                    let f = pat.names().iter().map(|n| field(n, FKind::Seg(Ty::Tok(i as u8)))).collect();
                    Variant::new(format!("V{}", i), vec![rt(m, &pat)], f)
                })
                .collect(),
        )
    };
    let reqs = || {
        let t: Vec<String> = ["/a", "/b/v", "/b/xv", "/b/", "/b", "/c", "*", "/c/d", "/c/x"].iter().map(|s| s.to_string()).collect();
        grid(&["GET", "HEAD", "POST", "PUT", "OPTIONS", "head"], &t)
    };
    let mut seqs: Vec<Vec<(String, String)>> = vec![vec![]];
    for _ in 0..(if thorough { 4 } else { 3 }) {
        let mut next = vec![];
        for s in &seqs {
            for r in &routes {
                if !s.contains(r) {
                    let mut t = s.clone();
                    t.push(r.clone());
                    next.push(t);
                }
            }
        }
        for s in &next {
            out.push(case("sequence", Module::single(mk(s)), reqs));
        }
        seqs = next;
    }
    // everything on one variant, and split in all ways over two variants
    for mask in 0u32..512 {
        for flip in &[false, true] {
            if !thorough && *flip && mask % 4 != 0 {
                continue;
            }
            let a: Vec<Route> = routes.iter().enumerate().filter(|(i, _)| mask & (1 << i) != 0).map(|(_, r)| route(&r.0, &r.1)).collect();
            let b: Vec<Route> = routes.iter().enumerate().filter(|(i, _)| mask & (1 << i) == 0).map(|(_, r)| route(&r.0, &r.1)).collect();
            let ok = |r: &Vec<Route>| r.iter().all(|x| x.pat.names() == r[0].pat.names());
            if !ok(&a) || !ok(&b) {
                continue;
            }
            let mut vs = vec![];
            if !a.is_empty() {
                vs.push(Variant::strs("A", a));
            }
            if !b.is_empty() {
                vs.push(Variant::strs("B", b));
            }
            if *flip {
                vs.reverse();
            }
            out.push(case("split", Module::single(Prog::en(vs)), reqs));
        }
    }
    // patterns of the same and of similar shape; placeholder names and types differ
    for first in &["get", "head"] {
        for p in &["/c/{x}", "/c/{y}", "/c/{r...}", "/{x}", "/{x}/d", "/c/d"] {
            for q in &["/c/{x}", "/c/{y}", "/c/{r...}", "/{x}", "/{x}/d", "/c/d", "/c/"] {
                for ty in &[Ty::U8, Ty::Tok(3)] {
                    let second = if *first == "get" { "head" } else { "get" };
                    let v = |n: &str, m: &str, p: &str, t: Ty| {
                        let p = Pat::parse(p);
                        let f = p.names().iter().map(|n| field(n, FKind::Seg(t))).collect();
                        Variant::new(n, vec![rt(m, &p)], f)
                    };
                    let pr = Prog::en(vec![v("V0", first, p, *ty), v("V1", second, q, Ty::Tok(4)), v("V2", "get", "/z/{k}/l", Ty::U8)]);
                    if pr.conflicts() {
                        continue;
                    }
                    out.push(case("shape", Module::single(pr), || {
                        let mut t = paths(&["c", "d", "", "7", "x"], 2);
                        t.extend(["/z/7/l", "/z/x/l", "/c/d/e"].iter().map(|s| s.to_string()));
                        grid(&["GET", "HEAD", "POST"], &t)
                    }));
                }
            }
        }
    }
    // guards, queries, bodies, forwards and fallbacks under HEAD
    let inner = |ms: &[&str]| Prog::en(vec![Variant::strs("I", ms.iter().map(|m| route(m, "/a")).collect())]).named("Inner");
    for im in &[&["get"][..], &["head"][..], &["post"][..], &["get", "head"][..]] {
        for om in &[&["get"][..], &["head"][..], &["post", "get"][..], &["put"][..]] {
            for fb in 0..3 {
                let mut vs = vec![Variant::new(
                    "O",
                    om.iter().map(|m| route(m, "/a")).collect(),
                    if fb == 2 {
                        vec![field("g", FKind::GHdr(1)), field("inner", FKind::Forward(0))]
                    } else {
                        vec![field("s", FKind::GSee), field("g", FKind::GHdr(1)), field("q", FKind::Query(QTy::Struct)), field("b", FKind::BodyBytes)]
                    },
                )];
                if fb >= 1 {
                    vs.push(Variant::new("F", vec![], vec![field("inner", FKind::Forward(0))]));
                }
                let m = Module { types: vec![inner(im), Prog::en(vs)] };
                out.push(case("compose", m, || {
                    let mut out = vec![];
                    for q in &["", "?a=1", "?a=x"] {
                        for g in &["", "403", "plain", "405"] {
                            for m in &["GET", "HEAD", "POST", "PUT"] {
                                for p in &["/a", "/b"] {
                                    let mut r = Req::new(m, &format!("{}{}", p, q));
                                    if !g.is_empty() {
                                        r.headers.push(("g1".into(), g.to_string()));
                                    }
                                    r.body = b"data".to_vec();
                                    out.push(r);
                                }
                            }
                        }
                    }
                    out
                }));
            }
        }
    }
    // many GET routes, HEAD declared for some of them
    for n in &[5usize, 9, 17, 33] {
        for style in 0..4 {
            let n = *n;
            let mut vs = vec![];
            for i in 0..n {
                let p = Pat::parse(&format!("/r{}/{{x}}", i));
                let g = Variant::strs(format!("G{}", i), vec![rt("get", &p)]);
                let h = Variant::strs(format!("H{}", i), vec![rt("head", &p)]);
                let with_head = match style {
                    0 => i % 2 == 0,
                    1 => i == 0,
                    2 => i + 1 == n,
                    _ => i % 3 == 1,
                };
                if with_head && style % 2 == 0 {
                    vs.push(h.clone());
                }
                vs.push(g);
                if with_head && style % 2 == 1 {
                    vs.push(h);
                }
            }
            out.push(case("many", Module::single(Prog::en(vs)), move || {
                let t: Vec<String> = (0..=n).map(|i| format!("/r{}/v", i)).collect();
                grid(&["GET", "HEAD", "POST"], &t)
            }));
        }
    }
    out
}

// ---------------------------------------------------------------- P05

fn inner_lib() -> Vec<Prog> {
    vec![
        Prog::en(vec![Variant::strs("A", vec![route("get", "/a")])]),
        Prog::en(vec![
            Variant::strs("P", vec![route("post", "/a")]),
            Variant::new("B", vec![route("get", "/b/{x}")], vec![field("x", FKind::Seg(Ty::U8))]),
        ]),
        Prog::st(Variant::new("R", vec![route("get", "/{x}")], vec![field("x", FKind::Seg(Ty::Tok(5)))])),
        Prog::en(vec![Variant::new(
            "C",
            vec![route("post", "/a"), route("put", "/a")],
            vec![field("s", FKind::GSee), field("body", FKind::BodyBytes)],
        )]),
        Prog::en(vec![Variant::new("D", vec![route("get", "/a"), route("delete", "/c")], vec![field("g", FKind::GHdr(3))])]),
        Prog::st(Variant::new("R", vec![route("get", "/{r...}"), route("post", "/{r...}")], vec![field("r", FKind::Seg(Ty::Str)), field("s", FKind::GSee)])),
        Prog::st(Variant::new("R", vec![route("get", "/a"), route("patch", "/b/7")], vec![field("q", FKind::Query(QTy::Struct))])),
        Prog::st(Variant::strs("R", METHODS.iter().map(|m| route(&m.to_lowercase(), "/a")).collect())),
        Prog::en(vec![Variant::strs("S", vec![route("options", "*")]), Variant::strs("T", vec![route("head", "/b/7"), route("get", "/c")])]),
        // whatever the method, the body arrives
        Prog::en(vec![Variant::new(
            "E",
            METHODS.iter().flat_map(|m| ["/a", "/b/7"].iter().map(move |p| route(&m.to_lowercase(), p))).collect(),
            vec![field("body", FKind::BodyBytes), field("s", FKind::GSee)],
        )]),
    ]
}

/// `inner`: index of the forwarded type.
fn outer_lib(inner: usize) -> Vec<Prog> {
    let fwd = || field("inner", FKind::Forward(inner));
    let fb = || Variant::new("F", vec![], vec![fwd()]);
    let mut out = vec![
        Prog::st(Variant::new("R", vec![], vec![fwd()])),
        Prog::st(Variant::new("R", vec![], vec![field("s", FKind::GSee), fwd(), field("g", FKind::GHdr(1))])),
        Prog::en(vec![Variant::strs("OA", vec![route("get", "/a")]), fb()]),
        Prog::en(vec![fb(), Variant::strs("OA", vec![route("get", "/a")])]),
        Prog::en(vec![
            Variant::new("OB", vec![route("delete", "/b/{x}"), route("put", "/b/{x}")], vec![field("x", FKind::Seg(Ty::Tok(1)))]),
            Variant::new("F", vec![], vec![field("g", FKind::GHdr(1)), fwd()]),
            Variant::strs("OA", vec![route("put", "/a"), route("post", "/c")]),
        ]),
        Prog::en(vec![Variant::new("W", vec![route("get", "/a"), route("post", "/a")], vec![fwd()])]),
        Prog::en(vec![
            Variant::new(
                "W",
                vec![route("post", "/b/{x}"), route("get", "/b/{x}")],
                vec![
                    field("inner", FKind::Forward(inner)),
                    field("x", FKind::Seg(Ty::U8)),
                    field("g", FKind::GHdr(1)),
                    field("q", FKind::Query(QTy::Pairs)),
                ],
            ),
            Variant::strs("OC", vec![route("get", "/c")]),
        ]),
        Prog::en(vec![
            Variant::new("W", vec![route("get", "/a")], vec![field("g", FKind::GHdr(1)), fwd()]),
            Variant::new("F", vec![], vec![fwd(), field("h", FKind::GHdr(2))]),
            Variant::new("OB", vec![route("patch", "/b/{x}")], vec![field("x", FKind::Seg(Ty::U8))]),
        ]),
    ];
    let mut gen = Prog::st(Variant::new("R", vec![], vec![field("s", FKind::GSee), fwd()]));
    gen.generic = true;
    out.push(gen);
    let mut gen = Prog::en(vec![Variant::strs("OA", vec![route("get", "/a"), route("head", "/a"), route("options", "*")]), fb()]);
    gen.generic = true;
    out.push(gen);
    out
}

fn p05_reqs(full: bool) -> Vec<Req> {
    let mut out = vec![];
    for p in &["/a", "/b/7", "/b/x1", "/b/300", "/c", "/", "/zz", "/a/b", "*", "/x"] {
        for q in if full { &["", "?a=1", "?a=z"][..] } else { &["", "?a=1"][..] } {
            for m in METHODS.iter().chain(&["FOO"]) {
                for h in if full {
                    &[("", ""), ("g1", "403"), ("g1", "plain"), ("g3", "404"), ("g3", "405"), ("g1", "405"), ("g2", "500"), ("g2", "405")][..]
                } else {
                    &[("", ""), ("g1", "405"), ("g3", "404"), ("g2", "405")][..]
                } {
                    let mut r = Req::new(m, &format!("{}{}", p, q));
                    if !h.0.is_empty() {
                        r.headers.push((h.0.to_string(), h.1.to_string()));
                    }
                    r.body = b"data".to_vec();
                    out.push(r);
                }
            }
        }
    }
    out
}

fn p05(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    for i in inner_lib() {
        for o in outer_lib(0) {
            let m = Module { types: vec![i.clone().named("T0"), o.named("T1")] };
            out.push(case("nest2", m, || p05_reqs(true)));
        }
    }
    for (ii, i) in inner_lib().into_iter().enumerate() {
        for (mi, mid) in outer_lib(0).into_iter().enumerate() {
            for (oi, o) in outer_lib(1).into_iter().enumerate() {
                if !thorough && (ii + mi + oi) % 2 == 1 {
                    continue;
                }
                let m = Module { types: vec![i.clone().named("T0"), mid.clone().named("T1"), o.named("T2")] };
                out.push(case("nest3", m, || p05_reqs(false)));
            }
        }
    }
    // two different inner types: one for a routed forward, one for the fallback
    let lib = inner_lib();
    for (i, a) in lib.iter().enumerate() {
        for (j, b) in lib.iter().enumerate() {
            if i == j {
                continue;
            }
            let o = Prog::en(vec![
                Variant::new("W", vec![route("get", "/a"), route("get", "/b/{x}")].into_iter().take(1).collect(), vec![field("i", FKind::Forward(0))]),
                Variant::new("X", vec![route("put", "/b/{x}")], vec![field("i", FKind::Forward(0)), field("x", FKind::Seg(Ty::U8))]),
                Variant::new("F", vec![], vec![field("j", FKind::Forward(1))]),
            ]);
            let m = Module { types: vec![a.clone().named("T0"), b.clone().named("T1"), o.named("T2")] };
            out.push(case("two-inner", m, || p05_reqs(true)));
        }
    }
    if thorough {
        for i in inner_lib() {
            for a in outer_lib(0) {
                for b in outer_lib(1).into_iter().take(5) {
                    for c in outer_lib(2).into_iter().take(5) {
                        let m = Module { types: vec![i.clone().named("T0"), a.clone().named("T1"), b.clone().named("T2"), c.clone().named("T3")] };
                        out.push(case("nest4", m, || p05_reqs(false)));
                    }
                }
            }
        }
    }
    out
}

// ---------------------------------------------------------------- P07 (routing side)

fn p07(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    let sets: Vec<Vec<(&str, FKind)>> = vec![
        vec![("f0", FKind::Seg(Ty::Tok(0))), ("g", FKind::GHdr(1)), ("q", FKind::Query(QTy::Struct)), ("b", FKind::BodyBytes)],
        vec![("f0", FKind::Seg(Ty::U8)), ("s", FKind::GSee), ("q", FKind::Query(QTy::Pairs)), ("g", FKind::GHdr(1))],
        vec![("q", FKind::Query(QTy::Unit)), ("s", FKind::GSee), ("b", FKind::BodyBytes)],
        vec![("q", FKind::Query(QTy::Struct))],
        vec![("f0", FKind::Seg(Ty::Str)), ("q", FKind::Query(QTy::Struct)), ("i", FKind::Forward(0)), ("g", FKind::GHdr(1))],
    ];
    let queries = [
        "", "?", "?a=1", "?a=1&b=2", "?b=2&a=1", "?a=300", "?a", "?=1", "?a=1&a=2", "?c=1", "?a=%31", "?%61=1", "?a=+1", "?b=+", "?a=1&b=%26%3D",
        "?a=1?b=2", "?a=1&b=a/b", "?&&a=1&", "?/v", "?a=1;b=2", "?A=1", "?a=1&c=%ff", "?a=1&b=%zz", "?f0=7", "?q=1", "?a==1", "?b", "?b=&a=9",
    ];
    for set in sets {
        for perm in perms(&set) {
            for enumy in &[true, false] {
                if !thorough && !*enumy && set.len() > 1 && perm[0].0 != set[0].0 {
                    continue;
                }
                let ph = set.iter().any(|f| f.0 == "f0");
                let p = if ph { "/r/{f0}" } else { "/r" };
                let v = Variant::new("V", vec![route("get", p), route("post", p)], perm.iter().map(|(n, k)| field(n, k.clone())).collect());
                let pr = if *enumy {
                    Prog::en(vec![Variant::strs("W", vec![route("get", "/w")]), v, Variant::strs("X", vec![route("put", p)].into_iter().take(if ph { 0 } else { 1 }).collect())])
                } else {
                    Prog::st(v)
                };
                let inner = Prog::en(vec![
                    Variant::new("I", vec![route("get", "/r/{x}")], vec![field("x", FKind::Seg(Ty::Str)), field("q", FKind::Query(QTy::Pairs))]),
                    Variant::new("J", vec![route("post", "/r/{x}")], vec![field("x", FKind::Seg(Ty::Str)), field("q", FKind::Query(QTy::Struct))]),
                ])
                .named("Inner");
                let m = Module { types: vec![inner, pr] };
                out.push(case("position", m, move || {
                    let mut out = vec![];
                    for path in &["/r/7", "/r/x", "/r", "/w", "/r/"] {
                        for q in &queries {
                            for m in &["GET", "POST", "HEAD", "PUT"] {
                                for g in &["", "403", "plain"] {
                                    let mut r = Req::new(m, &format!("{}{}", path, q));
                                    if !g.is_empty() {
                                        r.headers.push(("g1".into(), g.to_string()));
                                    }
                                    r.body = b"a=5".to_vec();
                                    out.push(r);
                                }
                            }
                        }
                    }
                    out
                }));
            }
        }
    }
    // several variants with different query types
    let qts = [QTy::Pairs, QTy::Struct, QTy::Unit];
    for a in &qts {
        for b in &qts {
            for same in &[true, false] {
                let pr = Prog::en(vec![
                    Variant::new("A", vec![route("get", "/a")], vec![field("q", FKind::Query(*a))]),
                    Variant::new("B", vec![route("post", if *same { "/a" } else { "/b" })], vec![field("x", FKind::Query(*b))]),
                    Variant::strs("C", vec![route("put", "/a")]),
                ]);
                out.push(case("variants", Module::single(pr), move || {
                    let mut t = vec![];
                    for p in &["/a", "/b", "/c"] {
                        for q in &queries {
                            t.push(format!("{}{}", p, q));
                            t.push(format!("http://h{}{}", p, q));
                        }
                    }
                    grid(&["GET", "POST", "HEAD", "PUT", "DELETE"], &t)
                }));
            }
        }
    }
    out
}

// ---------------------------------------------------------------- P08, P10

/// Distinct arrangements of a multiset.
fn multiperms(items: &[char]) -> Vec<Vec<char>> {
    let mut out = perms(items);
    out.sort();
    out.dedup();
    out
}

fn dyn_reqs() -> Vec<Req> {
    vec![
        Req::new("POST", "/r/v?a=1"),
        Req::new("GET", "/r/v?a=1"),
        Req::new("HEAD", "/r/v?a=1"),
        Req::new("POST", "/r/xv?a=1"),
        Req::new("POST", "/r/v?a=x"),
        Req::new("PUT", "/r/v?a=1"),
        Req::new("POST", "/other?a=1"),
        Req::new("POST", "/elsewhere?a=1"),
    ]
}

fn p08(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    let maxg = 3;
    for g in 0..=maxg {
        for p in 0..2 {
            for q in 0..2 {
                for t in &[' ', 'B', 'F'] {
                    if g == 0 && *t == ' ' {
                        continue;
                    }
                    // quick: the largest arrangements only with one of P and Q
                    if !thorough && g == 3 && p + q == 2 {
                        continue;
                    }
                    let mut items = vec!['G'; g];
                    items.extend(vec!['P'; p]);
                    items.extend(vec!['Q'; q]);
                    if *t != ' ' {
                        items.push(*t);
                    }
                    for (ai, arr) in multiperms(&items).into_iter().enumerate() {
                        // guard types and field names in orders that are unrelated to the declaration
                        let ids = [[0u8, 1, 2], [2, 1, 0], [1, 2, 0], [2, 0, 1]][ai % 4];
                        let names = [["zz", "mm", "aa"], ["aa", "mm", "zz"], ["mm", "zz", "aa"]][ai % 3];
                        let mut gi = 0;
                        let fields: Vec<Field> = arr
                            .iter()
                            .map(|c| match c {
                                'G' => {
                                    gi += 1;
                                    field(names[gi - 1], FKind::GDyn(ids[gi - 1]))
                                }
                                'P' => field("ph", FKind::Seg(Ty::Tok(1))),
                                'Q' => field("q", FKind::Query(QTy::Struct)),
                                'B' => field("b", FKind::BodyDyn),
                                _ => field("f", FKind::Forward(0)),
                            })
                            .collect();
                        let path = if p == 1 { "/r/{ph}" } else { "/r/v" };
                        let v = Variant::new("V", vec![route("post", path), route("get", path)], fields);
                        let mut vs = vec![v];
                        // other variants with guards of their own, which must not run
                        if ai % 2 == 0 {
                            vs.insert(0, Variant::new("Other", vec![route("post", "/other")], vec![field("g", FKind::GDyn(4)), field("h", FKind::GDyn(5))]));
                        } else {
                            vs.push(Variant::new("Same", vec![route("put", path)], {
                                let mut f = vec![field("g", FKind::GDyn(4)), field("b", FKind::BodyDyn)];
                                if p == 1 {
                                    f.push(field("ph", FKind::Seg(Ty::Str)));
                                }
                                f
                            }));
                        }
                        if ai % 3 == 2 {
                            vs.push(Variant::new("Fb", vec![], vec![field("g", FKind::GDyn(6)), field("i", FKind::Forward(0)), field("h", FKind::GDyn(7))]));
                        }
                        let inner = Prog::en(vec![
                            Variant::new("I", vec![route("post", "/r/{x}"), route("get", "/r/{x}")], vec![
                                field("k", FKind::GDyn(9)),
                                field("b", FKind::BodyDyn),
                                field("x", FKind::Seg(Ty::Str)),
                                field("j", FKind::GDyn(8)),
                            ]),
                            Variant::new("E", vec![route("delete", "/elsewhere")], vec![field("k", FKind::GDyn(9))]),
                        ])
                        .named("Inner");
                        out.push(case("arrangement", Module { types: vec![inner, Prog::en(vs)] }, dyn_reqs));
                    }
                }
            }
        }
    }
    // many guards
    for n in &[4u8, 5, 6, 7, 8] {
        for order in 0..2 {
            let mut ids: Vec<u8> = (0..*n).collect();
            if order == 1 {
                ids.reverse();
            }
            let mut f: Vec<Field> = ids.iter().enumerate().map(|(i, g)| field(&format!("f{}", (i * 7 + 3) % 23), FKind::GDyn(*g))).collect();
            if *n > 6 {
                f.insert(if order == 1 { 2 } else { f.len() - 1 }, field("body", FKind::BodyDyn));
            }
            out.push(case("many-guards", Module::single(Prog::st(Variant::new("R", vec![route("post", "/r/v")], f))), || {
                vec![Req::new("POST", "/r/v"), Req::new("GET", "/r/v")]
            }));
        }
    }
    // nested forwards
    let leaf = Prog::st(Variant::new("R", vec![route("post", "/r/v")], vec![field("g", FKind::GDyn(0)), field("b", FKind::BodyDyn)])).named("T0");
    let mid = Prog::en(vec![
        Variant::new("F", vec![], vec![field("g", FKind::GDyn(1)), field("i", FKind::Forward(0)), field("h", FKind::GDyn(2))]),
        Variant::new("O", vec![route("get", "/r/v")], vec![field("g", FKind::GDyn(5))]),
    ])
    .named("T1");
    let mut top = Prog::st(Variant::new("R", vec![], vec![field("i", FKind::Forward(1)), field("g", FKind::GDyn(3))])).named("T2");
    out.push(case("nested", Module { types: vec![leaf.clone(), mid.clone()] }, dyn_reqs));
    out.push(case("nested", Module { types: vec![leaf.clone(), mid.clone(), top.clone()] }, dyn_reqs));
    top.generic = true;
    out.push(case("nested", Module { types: vec![leaf, mid, top] }, dyn_reqs));
    out
}

pub fn family(name: &str, thorough: bool) -> Vec<Case> {
    let f = match name {
        "p01" => p01(thorough),
        "p02" => p02(thorough),
        "p02x" => p02x(thorough),
        "p03" => p03(thorough),
        "p04" => p04(thorough),
        "p05" => p05(thorough),
        "p07" => p07(thorough),
        "p08" => p08(thorough),
        _ => panic!("no family {}", name),
    };
    for c in &f {
        for p in &c.module.types {
            assert!(!p.conflicts(), "{}: invalid program generated: {:?}", c.family, p);
        }
    }
    f
}
