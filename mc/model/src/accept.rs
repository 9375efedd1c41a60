//! P06: declarations with the verdict they must get.

use crate::ast::*;
use crate::emit;
use crate::families::{paths, patterns, perms};
use crate::refer;
use std::collections::HashSet;

pub struct Item {
    pub src: String,
    pub accept: bool,
    pub why: String,
}

fn from_prog(p: &Prog, why: &str) -> Item {
    Item {
        src: emit::prog(&Module::single(p.clone()), p),
        accept: !p.conflicts(),
        why: why.into(),
    }
}

fn raw(accept: bool, why: &str, src: String) -> Item {
    Item {
        src: format!("#[derive(FromRequest)]\n{}\n", src),
        accept,
        why: why.into(),
    }
}

fn rt(method: &str, pat: &Pat) -> Route {
    Route {
        method: method.into(),
        pat: pat.clone(),
    }
}

/// Compares `refer::overlap` with brute force: is there a path (over a witness alphabet that
/// contains a fresh segment) matched by both patterns? Returns (pairs, paths tried per pattern).
pub fn check_overlap(pats: &[Pat], lits: &[&str]) -> (u64, u64) {
    let mut alpha: Vec<&str> = lits.to_vec();
    alpha.push("fresh");
    if !alpha.contains(&"") {
        alpha.push("");
    }
    let mut all = paths(&alpha, 4);
    all.push("*".into());
    let sets: Vec<HashSet<usize>> = pats
        .iter()
        .map(|p| (0..all.len()).filter(|&i| refer::matches(p, &all[i]).is_some()).collect())
        .collect();
    let mut n = 0;
    for i in 0..pats.len() {
        for j in 0..pats.len() {
            let brute = sets[i].intersection(&sets[j]).next().is_some();
            assert_eq!(brute, refer::overlap(&pats[i], &pats[j]), "{:?} {:?}", pats[i], pats[j]);
            n += 1;
        }
    }
    (n, all.len() as u64)
}

fn pair_items(thorough: bool, out: &mut Vec<Item>) -> (u64, u64) {
    let lits: &[&str] = if thorough { &["", "a", "b"] } else { &["", "a"] };
    let mut pats = patterns(lits, 3);
    pats.push(Pat::Star);
    let stats = check_overlap(&pats, lits);
    // all ordered pairs
    for (i, a) in pats.iter().enumerate() {
        for (j, b) in pats.iter().enumerate() {
            let short = |p: &Pat| p.text().matches('/').count() <= 2;
            // the same path: same or different methods
            let ms: &[(&str, &str)] = if i == j {
                &[("get", "get"), ("get", "post"), ("get", "head"), ("head", "get"), ("head", "head")]
            } else if short(a) && short(b) {
                &[("get", "get"), ("get", "post")]
            } else if (i + j) % 2 == 0 {
                &[("get", "get")]
            } else {
                &[("put", "post")]
            };
            for (k, (m, n)) in ms.iter().enumerate() {
                let p = Prog::en(vec![
                    Variant::strs("V0", vec![rt(m, a)]),
                    Variant::strs("V1", vec![rt(n, b)]),
                ]);
                out.push(from_prog(&p, "pair"));
                if k == 0 && a.names() == b.names() && (thorough || short(a) && short(b)) {
                    out.push(from_prog(&Prog::st(Variant::strs("R", vec![rt(m, a), rt(n, b)])), "pair on a struct"));
                }
            }
        }
    }
    stats
}

fn many_items(thorough: bool, out: &mut Vec<Item>) {
    // a conflicting (or not quite conflicting) pair at every pair of positions among others
    let n = if thorough { 14 } else { 9 };
    let pairs = [
        ("/x/{p}", "get", "/x/lit", "get", false),
        ("/x/{p}", "get", "/x/{q}", "post", true),
        ("/x/{p}", "get", "/x/{q}", "get", false),
        ("/x/{p...}", "get", "/x/", "post", false),
        ("/x/{p...}", "get", "/x", "get", true),
        ("/x/{p}", "get", "/x/", "get", true),
        ("/x/y", "get", "/x/Y", "get", true),
        ("/x/y", "put", "/x/y", "put", false),
        ("/{p}/y/z", "put", "/x/{q...}", "get", false),
        ("*", "get", "*", "get", false),
        ("*", "get", "*", "options", true),
    ];
    for (a, ma, b, mb, ok) in &pairs {
        for i in 0..n {
            for j in 0..n {
                if i == j {
                    continue;
                }
                let mut vs: Vec<Variant> = (0..n)
                    .map(|k| Variant::strs(format!("U{}", k), vec![route(if k % 2 == 0 { "get" } else { "post" }, &format!("/u{}/u/{{p}}/k", k))]))
                    .collect();
                // avoid overlap with `/{p}/y/z`-like patterns: the others have 4 segments
                vs[i] = Variant::strs("A", vec![route(ma, a)]);
                vs[j] = Variant::strs("B", vec![route(mb, b)]);
                let p = Prog::en(vs);
                let it = from_prog(&p, "among others");
                assert_eq!(it.accept, *ok, "{}", it.src);
                out.push(it);
            }
        }
    }
    // triples in every order
    let lib = ["/", "/a", "/{x}", "/a/{x}", "/{x}/b", "/a/{r...}", "/{r...}", "*"];
    for i in 0..lib.len() {
        for j in i + 1..lib.len() {
            for k in j + 1..lib.len() {
                for p in perms(&[i, j, k]) {
                    let vs = p
                        .iter()
                        .enumerate()
                        .map(|(n, &q)| Variant::strs(format!("V{}", n), vec![route(["get", "post", "get"][n], lib[q])]))
                        .collect();
                    out.push(from_prog(&Prog::en(vs), "triple"));
                }
            }
        }
    }
    // deep patterns that differ only at one position, overlap only through a rest placeholder, ...
    for d in &[4usize, 6, 9, 12] {
        for pos in 0..*d {
            let mk = |f: &dyn Fn(usize) -> Seg| Pat::Segs((0..*d).map(|i| f(i)).collect());
            let base = mk(&|i| if i % 2 == 0 { Seg::Lit("l".into()) } else { Seg::Ph(format!("p{}", i)) });
            let cands = vec![
                mk(&|i| if i == pos { Seg::Lit("other".into()) } else { Seg::Lit("l".into()) }),
                mk(&|i| if i == pos { Seg::Lit("".into()) } else { Seg::Lit("l".into()) }),
                mk(&|i| if i == pos { Seg::Ph("q".into()) } else { Seg::Lit("l".into()) }),
                Pat::Segs((0..=pos).map(|i| if i == pos { Seg::Rest("q".into()) } else { Seg::Lit("l".into()) }).collect()),
                Pat::Segs((0..=pos).map(|i| if i == pos { Seg::Rest("q".into()) } else { Seg::Lit(if i == 1 { "".into() } else { "l".to_string() }) }).collect()),
                Pat::Segs((0..pos + 1).map(|_| Seg::Lit("l".into())).collect()),
            ];
            for c in cands {
                for flip in &[false, true] {
                    let (a, b) = if *flip { (&c, &base) } else { (&base, &c) };
                    out.push(from_prog(
                        &Prog::en(vec![Variant::strs("V0", vec![rt("get", a)]), Variant::strs("V1", vec![rt("get", b)])]),
                        "deep",
                    ));
                }
            }
        }
    }
    // literal text is compared exactly
    let lits = ["a.b", "aXb", "a", "A", "%61", "a+", "aa", "a*", "(a)", "[a]", "a|b", "^a", "a$", "\\a", "{a", "a}", "ab", "a b", "ä", ".", "..", "a.", "..."];
    for a in &lits {
        for b in &lits {
            for m in &["get", "post"] {
                let p = Prog::en(vec![
                    Variant::strs("V0", vec![rt("get", &Pat::Segs(vec![Seg::Lit(a.to_string()), Seg::Ph("x".into())]))]),
                    Variant::strs("V1", vec![rt(m, &Pat::Segs(vec![Seg::Lit(b.to_string()), Seg::Ph("y".into())]))]),
                ]);
                out.push(from_prog(&p, "literal"));
            }
        }
    }
}

fn role_items(thorough: bool, out: &mut Vec<Item>) {
    // every assignment of roles to up to 3 (4) fields, with 0-2 routes
    let roles = ["seg", "guard", "body", "query", "forward"];
    for nf in 0..=(if thorough { 4 } else { 3 }) {
        for code in 0..roles.len().pow(nf as u32) {
            let mut c = code;
            let rs: Vec<&str> = (0..nf)
                .map(|_| {
                    let r = roles[c % roles.len()];
                    c /= roles.len();
                    r
                })
                .collect();
            let count = |r: &str| rs.iter().filter(|x| **x == r).count();
            for nroutes in 0..=2 {
                if nroutes == 0 && count("seg") > 0 {
                    continue;
                }
                let path: String = rs.iter().enumerate().filter(|(_, r)| **r == "seg").map(|(i, _)| format!("/{{f{}}}", i)).collect();
                let mut attrs = String::new();
                if nroutes >= 1 {
                    attrs.push_str(&format!("#[get(\"/r{}\")]\n", path));
                }
                if nroutes == 2 {
                    attrs.push_str(&format!("#[post(\"/s{}\")]\n", path));
                }
                let fields: String = rs
                    .iter()
                    .enumerate()
                    .map(|(i, r)| match *r {
                        "seg" => format!("f{}: String, ", i),
                        "guard" => format!("f{}: rt::GSee, ", i),
                        "body" => format!("#[body] f{}: rt::BodyBytes, ", i),
                        "query" => format!("#[query_params] f{}: Vec<(String, String)>, ", i),
                        _ => format!("#[forward] f{}: super::Fwd, ", i),
                    })
                    .collect();
                let bad = count("body") > 1
                    || count("query") > 1
                    || count("forward") > 1
                    || (count("body") > 0 && count("forward") > 0)
                    || (nroutes == 0 && (count("body") > 0 || count("query") > 0));
                let constructible = nroutes > 0 || count("forward") > 0;
                out.push(raw(!bad && constructible, "roles on a struct", format!("{}struct R {{ {}}}", attrs, fields)));
                out.push(raw(!bad, "roles on a variant", format!("enum R {{\n{} V {{ {}}},\n #[get(\"/other\")] O }}", attrs, fields)));
                if code % 3 == 0 {
                    out.push(raw(!bad, "roles on a variant", format!("enum R {{\n #[put(\"/other\")] O,\n D, {} V {{ {}}} }}", attrs, fields)));
                }
            }
        }
    }
    // every combination of up to 4 kinds of variants
    let kinds = [
        ("#[get(\"/k{}\")] V{},", false, true),
        ("V{} { #[forward] f: super::Fwd },", true, true),
        ("V{},", false, false),
        ("#[get(\"/k{}\")] V{} { #[forward] f: super::Fwd },", false, true),
        ("V{} { g: rt::GSee },", false, false),
    ];
    for n in 0..=(if thorough { 5u32 } else { 4 }) {
        for code in 0..kinds.len().pow(n) {
            let mut c = code;
            let mut src = String::from("enum R {\n");
            let (mut fallbacks, mut constructible) = (0, false);
            for i in 0..n {
                let k = &kinds[c % kinds.len()];
                c /= kinds.len();
                src.push_str(&k.0.replace("{}", &i.to_string()));
                src.push('\n');
                fallbacks += k.1 as u32;
                constructible |= k.2;
            }
            src.push('}');
            out.push(raw(fallbacks <= 1 && constructible, "variant kinds", src));
        }
    }
}

fn malformed_items(out: &mut Vec<Item>) {
    // a route with each bad path, on structs and at every position of an enum
    let paths: Vec<(&str, &str)> = vec![
        ("", ""), ("a", ""), ("a/b", ""), ("?", ""), ("**", ""), ("*/", ""), (" /a", ""), ("http://h/", ""), ("*a", ""), ("{x}", "x: String"), ("a/{x}", "x: String"),
        ("\\\\", ""), ("?a=b", ""), ("#", ""),
        ("/{}", ""), ("/{ }", ""), ("/{1a}", ""), ("/{a-b}", ""), ("/{_}", ""), ("/{a b}", ""), ("/{...}", ""), ("/{a.}", "a: String"), ("/{a..}", "a: String"),
        ("/{a....}", "a: String"), ("/{ a}", "a: String"), ("/{a }", "a: String"), ("/{a:u8}", "a: u8"), ("/{é}", ""), ("/{a?}", "a: String"), ("/{*a}", "a: String"),
        ("/{a}/{}", "a: String"), ("/a/{0}", ""), ("/{{a}}", "a: String"), ("/{_...}", ""), ("/{a+}", "a: String"), ("/{$a}", "a: String"),
        ("/{a}/{a}", "a: String"), ("/{a}/{a...}", "a: String"), ("/{a}/x/{b}/{a}", "a: String, b: String"), ("/{a}/{b}/{c}/{d}/{b}", "a: String, b: String, c: String, d: String"),
        ("/{r...}/a", "r: String"), ("/{r...}/", "r: String"), ("/{r...}/{s}", "r: String, s: String"), ("/{r...}/{s...}", "r: String, s: String"), ("/a/{r...}/b/c", "r: String"),
        ("/{a}", ""), ("/{a}", "b: rt::GSee"), ("/{a...}", "b: rt::GSee"), ("/{a}/{b}", "a: String"), ("/{a}/{b}", "b: String"), ("/{A}", "a: String"), ("/{a1}", "a: String"),
        ("/{a}", "#[body] a: rt::BodyBytes"), ("/{a}", "#[query_params] a: Vec<(String, String)>"), ("/{a}", "#[forward] a: super::Fwd"), ("/{a...}", "#[body] a: rt::BodyBytes"),
        ("/a", "#[body] #[body] b: rt::BodyBytes"), ("/a", "#[body] #[query_params] b: rt::BodyBytes"), ("/a", "#[query_params] #[forward] b: super::Fwd"), ("/a", "#[query_params] #[query_params] b: Vec<(String, String)>"),
        ("/a", "#[body] #[forward] b: super::Fwd"), ("/a", "#[forward] #[forward] b: super::Fwd"),
        ("/a", "#[get(\"/x\")] b: rt::GSee"), ("/a", "#[context] b: rt::GSee"), ("/a", "#[head] b: rt::GSee"),
    ];
    for (p, f) in &paths {
        for m in &["get", "delete"] {
            let a = format!("#[{}(\"{}\")]", m, p);
            out.push(raw(false, "malformed", format!("{}\nstruct R {{ {} }}", a, f)));
            out.push(raw(false, "malformed", format!("enum R {{ {} V {{ {} }} }}", a, f)));
            out.push(raw(false, "malformed", format!("enum R {{ #[get(\"/ok1\")] A, {} V {{ {} }}, #[get(\"/ok2\")] B }}", a, f)));
            out.push(raw(false, "malformed", format!("enum R {{ F {{ #[forward] f: super::Fwd }}, #[put(\"/ok\")] A, {} V {{ {} }} }}", a, f)));
        }
        // as second route of a variant whose first route is fine (if it has the same placeholders)
        if f.is_empty() {
            out.push(raw(false, "malformed second route", format!("#[get(\"/ok\")]\n#[post(\"{}\")]\nstruct R;", p)));
            out.push(raw(false, "malformed second route", format!("enum R {{ #[get(\"/ok\")] #[post(\"{}\")] V }}", p)));
        }
    }
    // valid counterparts
    for (p, f) in &[
        ("/{a}", "a: String"), ("/{a...}", "a: String"), ("/{__}", "__: String"), ("/{_0}", "_0: String"), ("/{a0_}", "a0_: String"), ("/{A}", "A: String"),
        ("/{a}/{b}/{c}/{d}/{e...}", "e: String, d: String, c: String, b: String, a: String"), ("/", ""), ("*", ""), ("//", ""), ("/a/", ""), ("/{a}b", ""), ("/b{a}", ""),
        ("/{a", ""), ("/a}", ""), ("/a{b}c", ""), ("/*", ""), ("/a*", ""), ("/?", ""), ("/#", ""), ("/{a}/{b}", "b: u8, g: rt::GSee, a: u16"), ("/ ", ""), ("/a.b", ""), ("/...", ""),
        ("/{a}", "a: String, #[body] body: rt::BodyBytes, #[query_params] get: Vec<(String, String)>"), ("/{get}", "get: String"), ("/{body}", "body: String, request: rt::GSee, context: rt::GSee"),
        ("/{path}/{method}", "path: String, method: String, regex: rt::GSee, index: rt::GSee"),
        ("/{averyveryveryveryveryveryveryveryveryveryveryverylongname}", "averyveryveryveryveryveryveryveryveryveryveryverylongname: String"),
    ] {
        for m in &["get", "head", "post", "put", "delete", "connect", "options", "trace", "patch"] {
            let a = format!("#[{}(\"{}\")]", m, p);
            out.push(raw(true, "well-formed", format!("{}\nstruct R {{ {} }}", a, f)));
            out.push(raw(true, "well-formed", format!("enum R {{ {} V {{ {} }} }}", a, f)));
            out.push(raw(true, "well-formed", format!("enum R {{ F {{ #[forward] f: super::Fwd }}, {} V {{ {} }}, W, X {{ never: super::NotAGuard }} }}", a, f)));
        }
    }
    // placeholders of several routes on one variant
    for (a, b, ok) in &[
        ("/{x}/{y}", "/m/{x}/{y}", true), ("/{x}/{y}", "/m/{y}/{x}", false), ("/{x}/{y}", "/m/{x}", false), ("/m/{x}", "/{x}/{y}", false), ("/{x}", "/m/{y}", false),
        ("/{x}", "/m", false), ("/m", "/{x}", false), ("/{x}", "/m/{x...}", true), ("/{x}/{y}/{z}", "/m/{x}/{y}/{z}", true), ("/{x}/{y}/{z}", "/m/{x}/{z}/{y}", false),
        ("/{x}/{y}/{z}", "/m/{y}/{x}/{z}", false), ("/{x}", "*", false), ("/m", "*", true), ("/{x}", "/m/{X}", false),
    ] {
        for f in &["x: String, y: String, z: String, X: String", "z: String, y: String, X: String, x: String"] {
            // only the used ones become placeholder fields, drop the others
            let used: String = f
                .split(", ")
                .filter(|d| {
                    let n = format!("{{{}", &d[..1]);
                    a.contains(&n) || b.contains(&n)
                })
                .collect::<Vec<_>>()
                .join(", ");
            out.push(raw(*ok, "placeholders of several routes", format!("#[get(\"{}\")]\n#[post(\"{}\")]\nstruct R {{ {} }}", a, b, used)));
            out.push(raw(*ok, "placeholders of several routes", format!("enum R {{ #[get(\"{}\")] #[post(\"{}\")] V {{ {} }}, #[get(\"/q/q/q/q\")] O }}", a, b, used)));
            out.push(raw(
                *ok,
                "placeholders of several routes",
                format!("enum R {{ #[get(\"{}\")] #[put(\"{}\")] #[post(\"{}\")] V {{ {} }} }}", a, a, b, used),
            ));
        }
    }
    // attribute forms and places
    for (ok, src) in &[
        (false, "#[get(\"/a\", \"/b\")] struct R;"), (false, "#[get(a)] struct R;"), (false, "#[get(1)] struct R;"), (false, "#[get()] struct R;"), (false, "#[get(b\"/a\")] struct R;"),
        (false, "enum R { #[get] V }"), (false, "enum R { #[get = \"/a\"] V }"), (false, "enum R { #[get(\"/a\", \"/b\")] V }"), (false, "enum R { #[get()] V }"), (false, "enum R { #[get(a = \"/a\")] V }"),
        (false, "enum R { #[body] #[get(\"/a\")] V }"), (false, "enum R { #[context(rt::C)] #[get(\"/a\")] V }"), (false, "enum R { #[forward] V { #[forward] f: super::Fwd } }"),
        (false, "enum R { #[query_params] #[get(\"/a\")] V }"),
        (false, "#[get(\"/a\")] enum R { #[get(\"/b\")] V }"), (false, "#[body] enum R { #[get(\"/b\")] V }"), (false, "#[forward] enum R { #[get(\"/b\")] V }"),
        (false, "#[context(hyperdrive::NoContext)] #[context(hyperdrive::NoContext)] enum R { #[get(\"/b\")] V }"),
        (true, "#[context(hyperdrive::NoContext)] enum R { #[get(\"/b\")] V }"),
        (false, "enum R {}"), (false, "struct R;"), (false, "struct R {}"), (false, "struct R { g: rt::GSee }"), (false, "enum R { A, B }"),
        (false, "#[get(\"/a\")] struct R(rt::GSee);"), (false, "enum R { #[get(\"/a\")] V(rt::GSee) }"), (false, "enum R { #[get(\"/{x}\")] V(String) }"),
        (false, "#[get(\"/a\")] union R { x: u8 }"), (false, "union R { x: u8 }"),
        (false, "struct R(#[forward] super::Fwd);"), (false, "enum R { V(#[forward] super::Fwd) }"), (false, "enum R { #[post(\"/a\")] V(#[body] rt::BodyBytes) }"),
        (true, "enum R { #[get(\"/a\")] A, V() }"), (true, "enum R { V(), #[get(\"/a\")] A, W {} }"), (true, "#[get(\"/a\")] struct R;"), (true, "#[get(\"/a\")] struct R {}"), (true, "enum R { #[get(\"/a\")] V {} }"), (true, "#[get(r\"/a\")] struct R;"), (true, "#[get(\"/\\x61\")] struct R;"),
        (true, "struct R { #[forward] f: super::Fwd }"), (true, "struct R { g: rt::GSee, #[forward] f: super::Fwd, h: rt::GHdr1 }"),
        (true, "#[get(\"/a\")] #[doc = \"x\"] #[allow(dead_code)] struct R { #[doc(hidden)] #[body] #[allow(unused)] f: rt::BodyBytes }"),
        (true, "/// doc\nenum R { /// doc\n #[get(\"/a\")] #[allow(dead_code)] V { /// doc\n g: rt::GSee } }"),
        (true, "struct R<T> { #[forward] f: T }"), (true, "enum R<T, U> { #[get(\"/{x}\")] A { x: T }, F { #[forward] f: U } }"), (true, "#[post(\"/\")] struct R<T, U> { g: T, #[body] b: U }"),
    ] {
        out.push(raw(*ok, "attribute forms", src.to_string()));
    }
}

/// All items, and (pattern pairs, paths) of the model-level overlap check.
pub fn items(thorough: bool) -> (Vec<Item>, (u64, u64)) {
    let mut out = vec![];
    let stats = pair_items(thorough, &mut out);
    many_items(thorough, &mut out);
    role_items(thorough, &mut out);
    malformed_items(&mut out);
    (out, stats)
}
