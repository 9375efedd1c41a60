"""P17: contexts. Enumerates the shapes and markings of context types, and the context requirements of guards, bodies and forwards."""
import itertools
from programs import COMMON, Case, decide

HEAD = r'''
#![allow(warnings)]
pub mod s {
    use hyperdrive::*;
    use std::cell::RefCell;
    use std::sync::Arc;
    use self::futures::{Async, Future, Poll, executor};
    #[derive(Debug, Clone, PartialEq)] pub struct A(pub u32);
    #[derive(Debug, Clone, PartialEq)] pub struct B(pub u32);
    #[derive(Debug, Clone, PartialEq)] pub struct D(pub u32);
    #[derive(Debug, Clone, PartialEq)] pub struct H(pub u32);
    #[derive(Debug, Clone, PartialEq)] pub struct W<T>(pub T);
    pub type Word = u32;

    /// Makes a context that can be told apart from others.
    pub trait Make: RequestContext { fn make(k: u32) -> Self; }
    impl Make for NoContext { fn make(_: u32) -> NoContext { NoContext } }
    #[derive(Debug, Clone, RequestContext)] pub struct C { pub u: D, #[as_ref] pub a: A, pub v: B, #[as_ref] pub b: B, pub w: A }
    impl Make for C { fn make(k: u32) -> C { C { u: D(k), a: A(k + 1), v: B(k + 3), b: B(k + 2), w: A(k + 4) } } }
    #[derive(Debug, Clone, RequestContext)] pub struct T(pub B, #[as_ref] pub B, pub A, #[as_ref] pub A);
    impl Make for T { fn make(k: u32) -> T { T(B(k), B(k + 2), A(k + 3), A(k + 1)) } }
    #[derive(Debug, Clone, RequestContext)] pub struct G<X> { pub x: X, #[as_ref] pub b: B, #[as_ref] pub a: A }
    impl Make for G<u8> { fn make(k: u32) -> G<u8> { G { x: 1, b: B(k + 2), a: A(k + 1) } } }
    #[derive(Debug, Clone, RequestContext)] pub enum E { X(u32), Y { a: A, b: B } }
    impl Make for E { fn make(k: u32) -> E { if k % 2 == 0 { E::X(k) } else { E::Y { a: A(k + 1), b: B(k + 2) } } } }
    impl AsRef<A> for E { fn as_ref(&self) -> &A { match self { E::X(_) => &A(5), E::Y { a, .. } => a } } }
    impl AsRef<B> for E { fn as_ref(&self) -> &B { match self { E::X(_) => &B(6), E::Y { b, .. } => b } } }

    thread_local! {
        /// How often the next guards and bodies are not ready, in the order in which they're evaluated.
        static DELAYS: RefCell<Vec<u32>> = RefCell::new(vec![]);
    }
    /// Resolves to what was seen when it was made.
    pub struct Later<T>(Option<T>, u32);
    impl<T> Later<T> { fn new(t: T) -> Self { Later(Some(t), DELAYS.with(|d| d.borrow_mut().pop()).unwrap_or(0)) } }
    impl<T> Future for Later<T> {
        type Item = T; type Error = BoxedError;
        fn poll(&mut self) -> Poll<T, BoxedError> {
            if self.1 > 0 { self.1 -= 1; futures::task::current().notify(); return Ok(Async::NotReady); }
            Ok(Async::Ready(self.0.take().unwrap()))
        }
    }
    macro_rules! sees { ($($g:ident $b:ident $c:ty,)*) => { $(
        #[derive(Debug)] pub struct $g($c);
        impl Guard for $g { type Context = $c; type Result = Later<$g>; fn from_request(_: &Arc<http::Request<()>>, c: &$c) -> Later<$g> { Later::new($g(c.clone())) } }
        #[derive(Debug)] pub struct $b($c);
        impl FromBody for $b { type Context = $c; type Result = Later<$b>; fn from_body(_: &Arc<http::Request<()>>, _: hyper::Body, c: &$c) -> Later<$b> { Later::new($b(c.clone())) } }
    )* } }
    sees! { GA BA A, GB BB B, }
    #[derive(Debug, Clone)] pub struct No;
    #[derive(Debug)] pub struct GN;
    impl Guard for GN { type Context = NoContext; type Result = Later<GN>; fn from_request(_: &Arc<http::Request<()>>, _: &NoContext) -> Later<GN> { Later::new(GN) } }
    #[derive(Debug)] pub struct BN;
    impl FromBody for BN { type Context = NoContext; type Result = Later<BN>; fn from_body(_: &Arc<http::Request<()>>, _: hyper::Body, _: &NoContext) -> Later<BN> { Later::new(BN) } }
    #[derive(Debug)] pub struct GC<C>(C);
    impl<C: RequestContext + Clone> Guard for GC<C> { type Context = C; type Result = Later<GC<C>>; fn from_request(_: &Arc<http::Request<()>>, c: &C) -> Later<Self> { Later::new(GC(c.clone())) } }
    #[derive(Debug)] pub struct BC<C>(C);
    impl<C: RequestContext + Clone> FromBody for BC<C> { type Context = C; type Result = Later<BC<C>>; fn from_body(_: &Arc<http::Request<()>>, _: hyper::Body, c: &C) -> Later<Self> { Later::new(BC(c.clone())) } }
    impl RequestContext for A {}
    impl RequestContext for B {}
    macro_rules! selfish { ($($c:ty)*) => { $(
        impl AsRef<$c> for $c { fn as_ref(&self) -> &$c { self } }
        impl AsRef<NoContext> for $c { fn as_ref(&self) -> &NoContext { &NoContext } }
    )* } }
    selfish!(A B);

    /// Forwarded to: shows the whole context.
    pub struct Fwd<C>(C);
    impl<C: ::std::fmt::Debug> ::std::fmt::Debug for Fwd<C> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { write!(f, "Fwd({:?})", self.0) } }
    impl<C: RequestContext + Send + 'static> FromRequest for Fwd<C> {
        type Context = C; type Future = DefaultFuture<Self, BoxedError>;
        fn from_request_and_body(_: &Arc<http::Request<()>>, _: hyper::Body, c: C) -> Self::Future { Box::new(Later::new(Fwd(c))) }
    }

    struct Nop;
    impl executor::Notify for Nop { fn notify(&self, _: usize) {} }

    /// Decodes with contexts number 10 and 20 under all delays of up to `max` polls of `n` steps.
    /// In the expected text, `@` stands for the whole context, `@a` and `@b` for its shared parts.
    pub fn check<X: FromRequest + ::std::fmt::Debug>(n: usize, max: u32, rows: &[(&str, &str, &str)]) -> Result<u32, String> where X::Context: Make + ::std::fmt::Debug + AsRef<A> + AsRef<B> {
        let mut count = 0;
        let mut delays = vec![0; n];
        loop {
            for k in &[10, 21, 20] {
                for (m, path, want) in rows {
                    let c = X::Context::make(*k);
                    let (a, b): (&A, &B) = (c.as_ref(), c.as_ref());
                    let want = want.replace("@a", &format!("{:?}", a)).replace("@b", &format!("{:?}", b)).replace("@", &format!("{:?}", c));
                    let mut d = delays.clone();
                    d.reverse();
                    DELAYS.with(|x| *x.borrow_mut() = d);
                    let request = http::Request::builder().method(*m).uri(*path).body(hyper::Body::empty()).unwrap();
                    let mut task = executor::spawn(X::from_request(request, c));
                    let mut polls = 0;
                    let r = loop {
                        polls += 1;
                        match task.poll_future_notify(&executor::NotifyHandle::from(Arc::new(Nop)), 0) {
                            Ok(Async::NotReady) if polls < 100 => {}
                            Ok(Async::NotReady) => break Err("never ready".to_string()),
                            Ok(Async::Ready(x)) => break Ok(format!("{:?}", x)),
                            Err(e) => break Err(e.to_string()),
                        }
                    };
                    count += 1;
                    if r.as_ref().map(|r| &r[..]) != Ok(&want[..]) {
                        return Err(format!("{} {} with delays {:?}: expected `{}`, got {:?}", m, path, delays, want, r));
                    }
                }
            }
            match delays.iter().position(|d| *d < max) {
                Some(i) => { delays[i] += 1; for d in &mut delays[..i] { *d = 0; } }
                None => return Ok(count),
            }
        }
    }

    pub fn own<T: RequestContext>(t: &T) -> Result<u32, String> {
        let _: &NoContext = t.as_ref();
        if <T as AsRef<T>>::as_ref(t) as *const T != t as *const T { return Err("not a reference to itself".to_string()); }
        Ok(1)
    }
    pub fn part<T: RequestContext, P>(t: &T, p: &P) -> Result<u32, String> where T: AsRef<P> {
        if <T as AsRef<P>>::as_ref(t) as *const P != p as *const P { return Err("not a reference to the marked field".to_string()); }
        Ok(1)
    }
    pub fn needs<T: AsRef<P>, P>() {}
}
macro_rules! all { ($($e:expr),* $(,)?) => {{ let mut n = 0; $( n += $e?; )* Ok(n) }} }
'''

S = "crate::s::"
DERIVE = "#[derive(Debug, hyperdrive::RequestContext)] "


def structs(thorough):
    """All shapes and markings."""
    for n in range(0, 5 if thorough else 4):
        types = "ABDH"[:max(n, 2)]
        for f in itertools.product(itertools.product(types, (False, True)), repeat=n):
            marked = [t for t, m in f if m]
            if len(set(marked)) != len(marked):
                continue
            for tuple_ in (False, True):
                attr = lambda m: "#[as_ref] " if m else ""
                if tuple_:
                    code = DERIVE + "pub struct S(" + ", ".join("%spub %s%s" % (attr(m), S, t) for t, m in f) + ");"
                    value = "$::S(" + ", ".join("%s%s(%d)" % (S, t, i) for i, (t, m) in enumerate(f)) + ")"
                    name = lambda i: "t.%d" % i
                else:
                    code = DERIVE + "pub struct S { " + ", ".join("%spub f%d: %s%s" % (attr(m), i, S, t) for i, (t, m) in enumerate(f)) + " }"
                    value = "$::S { " + ", ".join("f%d: %s%s(%d)" % (i, S, t, i) for i, (t, m) in enumerate(f)) + " }"
                    name = lambda i: "t.f%d" % i
                parts = ["%spart(&t, &%s)" % (S, name(i)) for i, (t, m) in enumerate(f) if m]
                yield Case("structs", "struct", code, "{ let t = %s; all!(%sown(&t)%s) }" % (value, S, "".join(", " + p for p in parts)))
    # wide ones: the marked field's position
    for n in (5, 6, 12):
        for k in range(n):
            code = DERIVE + "pub struct S { " + ", ".join(("#[as_ref] " if i == k else "") + "pub f%d: %sA" % (i, S) for i in range(n)) + " }\n"
            code += DERIVE + "pub struct R(" + ", ".join(("#[as_ref] " if i == k else "") + "pub %sA" % S for i in range(n)) + ");"
            yield Case("structs", "wide", code, "{ let t = $::S { %s }; let r = $::R(%s); all!(%sown(&t), %spart(&t, &t.f%d), %sown(&r), %spart(&r, &r.%d)) }" % (
                ", ".join("f%d: %sA(%d)" % (i, S, i) for i in range(n)), ", ".join("%sA(%d)" % (S, i) for i in range(n)), S, S, k, S, S, k))


def others():
    """Kinds of items and types."""
    own = S + "own(&t)"
    for code, value in (("pub struct S;", "$::S"), ("pub struct S {}", "$::S {}"), ("pub struct S();", "$::S()"), ("pub enum S { A }", "$::S::A"), ("pub enum S { A(u8), B { b: u8 } }", "$::S::B { b: 1 }"),
                        ("pub enum S { A(u8), B { b: u8 } }", "$::S::A(1)"), ("pub struct S<T>(pub T);", "$::S(1)"), ("pub struct S<T: Copy> { pub t: T }", "$::S { t: 1 }"), ("pub struct S<'a>(pub &'a str);", "$::S(\"\")"),
                        ("pub struct S<'a, T: 'a>(pub &'a T) where T: Copy;", "$::S(&1)"), ("pub enum S<T> { A(T) }", "$::S::A(1)"), ("pub struct S<T = u8>(pub T);", "$::S(1u16)")):
        yield Case("kinds", "kind", DERIVE + code, "{ let t = %s; %s }" % (value, own))
    types = [("Vec<u8>", "vec![1]"), ("::std::string::String", "String::new()"), ("&'static str", "\"x\""), ("Option<u8>", "Some(1)"), ("[u8; 2]", "[1, 2]"), ("(u8, u16)", "(1, 2)"), ("fn(u8) -> u8", "|x| x"),
             ("Box<u8>", "Box::new(1)"), ("::std::sync::Arc<u8>", "::std::sync::Arc::new(1)"), ("crate::s::W<crate::s::W<u8>>", "crate::s::W(crate::s::W(1))"), ("crate::s::Word", "4"), ("Box<[u8]>", "vec![1].into()"),
             ("&'static [u8]", "&[1]"), ("*const u8", "::std::ptr::null()"), ("::std::cell::Cell<u8>", "Default::default()"), ("Box<dyn ::std::fmt::Debug + Send + Sync>", "Box::new(1)"), ("u8", "1"), ("bool", "true"), ("char", "'x'")]
    for (t, v), (u, w) in itertools.permutations(types, 2):
        if t != u:
            yield Case("types", "types", "#[derive(hyperdrive::RequestContext)] pub struct S { pub x: %s, #[as_ref] pub y: %s, #[as_ref] pub z: %s }\n#[derive(hyperdrive::RequestContext)] pub struct R(#[as_ref] pub %s, pub %s);" % (t, t, u, t, t),
                       "{ let t = $::S { x: %s, y: %s, z: %s }; let r = $::R(%s, %s); all!(%s, %spart(&t, &t.y), %spart(&t, &t.z), %spart(&r, &r.0)) }" % (v, v, w, v, v, own, S, S, S))
    for g, marked, arg in (("T", "Vec<T>", "vec![1u8]"), ("T", "crate::s::W<T>", "crate::s::W(1u8)"), ("'a", "&'a str", "\"x\""), ("'a, T", "Option<&'a T>", "Some(&1u8)"), ("T: Copy", "(T, T)", "(1u8, 2u8)"), ("T: ::std::fmt::Debug = u8", "[T; 1]", "[1u8]")):
        yield Case("types", "generic", "#[derive(hyperdrive::RequestContext)] pub struct S<%s> { pub x: %s, #[as_ref] pub y: %s, #[as_ref] pub a: crate::s::A }" % (g, marked, marked),
                   "{ let t = $::S { x: %s, y: %s, a: crate::s::A(1) }; all!(%s, %spart(&t, &t.y), %spart(&t, &t.a)) }" % (arg, arg, own, S, S))
    # explicit impls next to derived ones; several derives
    yield Case("kinds", "mixed", "#[derive(hyperdrive::RequestContext)] pub struct S { pub x: u8, #[as_ref] pub y: u16 } impl AsRef<u8> for S { fn as_ref(&self) -> &u8 { &self.x } }",
               "{ let t = $::S { x: 1, y: 2 }; all!(%s, %spart(&t, &t.x), %spart(&t, &t.y)) }" % (own, S, S))


def refused():
    """Parts that aren't shared."""
    for n in range(1, 4):
        for f in itertools.product(itertools.product("ABD"[:max(n, 2)], (False, True)), repeat=n):
            marked = [t for t, m in f if m]
            if len(set(marked)) != len(marked):
                continue
            for t in sorted(set(t for t, m in f) - set(marked)):
                for tuple_ in (False, True):
                    a, z = ("(", ");") if tuple_ else ("{", "}")
                    code = DERIVE + "pub struct S " + a + ", ".join("%s%s%s%s" % ("#[as_ref] " if m else "", "" if tuple_ else "f%d: " % i, S, u) for i, (u, m) in enumerate(f)) + z
                    yield Case("not shared", "refused", code + "\nfn zz() { %sneeds::<S, %s%s>() }" % (S, S, t))
    for field, what in (("g: crate::s::GA", "struct"), ("#[body] g: crate::s::BA", "struct"), ("g: crate::s::GB, h: crate::s::GA", "struct"), ("g: crate::s::GN, #[body] h: crate::s::BA", "struct")):
        yield Case("not shared", "refused", "#[derive(hyperdrive::RequestContext)] pub struct S { x: crate::s::A, #[as_ref] y: crate::s::B }\n#[derive(hyperdrive::FromRequest)] #[context(S)] #[get(\"/\")] pub struct R { %s }" % field)
        yield Case("not shared", "refused", "#[derive(hyperdrive::FromRequest)] #[get(\"/\")] pub struct R { %s }" % field)


CONTEXTS = {"C": "crate::s::C", "T": "crate::s::T", "G": "crate::s::G<u8>", "E": "crate::s::E"}


def decoders(thorough):
    """All sequences of up to 3 guards x what comes last x contexts."""
    longest = 4 if thorough else 3
    for cname, ctx in CONTEXTS.items():
        guard = {"A": ("crate::s::GA", "GA(@a)"), "B": ("crate::s::GB", "GB(@b)"), "N": ("crate::s::GN", "GN"), "C": ("crate::s::GC<%s>" % ctx, "GC(@)")}
        last = {"-": None, "A": ("#[body] l: crate::s::BA", "BA(@a)"), "B": ("#[body] l: crate::s::BB", "BB(@b)"), "N": ("#[body] l: crate::s::BN", "BN"),
                "C": ("#[body] l: crate::s::BC<%s>" % ctx, "BC(@)"), "F": ("#[forward] l: crate::s::Fwd<%s>" % ctx, "Fwd(@)")}
        for n in range(0, longest + 1 if cname == "C" else longest):
            for gs in itertools.product("ABNC", repeat=n):
                # one enum with a variant per last step, and a fallback with the same guards
                variants, rows = [], []
                for v, (k, l) in enumerate(last.items()):
                    fields = ["g%d: %s" % (i, guard[g][0]) for i, g in enumerate(gs)]
                    shown = ["g%d: %s" % (i, guard[g][1]) for i, g in enumerate(gs)]
                    if l:
                        # wherever the last one is declared
                        at = v % (n + 1)
                        fields.insert(at, l[0])
                        shown.insert(at, "l: " + l[1])
                    variants.append('#[get("/v%d")] #[put("/v%d/{p}")] V%d { %s }' % (v, v, v, ", ".join(fields)) if False else '#[get("/v%d")] V%d { %s }' % (v, v, ", ".join(fields)))
                    rows.append(("GET", "/v%d" % v, "V%d%s" % (v, " { %s }" % ", ".join(shown) if shown else "")))
                    if k == "F":
                        variants.append("Fb { %s }" % ", ".join(fields))
                        rows.append(("GET", "/none", "Fb { %s }" % ", ".join(shown)))
                        rows.append(("POST", "/v1", "Fb { %s }" % ", ".join(shown)))
                code = "#[derive(Debug, hyperdrive::FromRequest)] #[context(%s)] pub enum R { %s }" % (ctx, ", ".join(variants))
                text = "&[" + ", ".join('("%s", "%s", "%s")' % r for r in rows) + "]"
                yield Case("decoders", "decoder", code, "crate::s::check::<$::R>(%d, %d, %s)" % (n + 1, 2 if n < 3 else 1, text))
        # structs, placeholders and query data in between, generic ones
        for g, l in itertools.product("ABNC", "ABNCF"):
            code = "#[derive(Debug, hyperdrive::FromRequest)] #[context(%s)] #[get(\"/x/{p}\")] #[post(\"/y/{p}\")] pub struct R { %s, g: %s, p: u8, #[query_params] q: () }" % (ctx, last[l][0], guard[g][0])
            rows = '&[("GET", "/x/4", "%s"), ("HEAD", "/x/4", "%s"), ("POST", "/y/4", "%s")]' % (("R { l: %s, g: %s, p: 4, q: () }" % (last[l][1], guard[g][1]),) * 3)
            yield Case("decoders", "struct", code, "crate::s::check::<$::R>(2, 2, %s)" % rows)
            code = "#[derive(Debug, hyperdrive::FromRequest)] #[context(%s)] pub enum R<X, Y> { #[get(\"/x\")] V { g: X, %s }, #[get(\"/y\")] W { h: X } }" % (ctx, last[l][0].split(":")[0] + ": Y")
            rows = '&[("GET", "/x", "V { g: %s, l: %s }"), ("GET", "/y", "W { h: %s }")]' % (guard[g][1], last[l][1], guard[g][1])
            yield Case("decoders", "generic", code, "crate::s::check::<$::R<%s, %s>>(2, 2, %s)" % (guard[g][0], last[l][0].split(": ")[1], rows))
        # forwarded to derived decoders, through two levels, by a route and by a fallback
        for g, h, i in itertools.product("ABNC", repeat=3):
            code = "#[derive(Debug, hyperdrive::FromRequest)] #[context(%s)] pub enum I { #[get(\"/x\")] X { i: %s }, #[get(\"/z\")] Z { #[forward] f: crate::s::Fwd<%s>, i: %s } }\n" % (ctx, guard[i][0], ctx, guard[i][0])
            code += "#[derive(Debug, hyperdrive::FromRequest)] #[context(%s)] pub struct M { h: %s, #[forward] m: I }\n" % (ctx, guard[h][0])
            code += "#[derive(Debug, hyperdrive::FromRequest)] #[context(%s)] pub enum R { #[get(\"/x\")] V { #[forward] f: M, g: %s }, #[put(\"/z\")] U, W { g: %s, #[forward] f: M } }" % (ctx, guard[g][0], guard[g][0])
            x = "X { i: %s }" % guard[i][1]
            z = "Z { f: Fwd(@), i: %s }" % guard[i][1]
            m = "M { h: %s, m: %%s }" % guard[h][1]
            rows = '&[("GET", "/x", "V { f: %s, g: %s }"), ("GET", "/z", "W { g: %s, f: %s }"), ("HEAD", "/z", "W { g: %s, f: %s }")]' % (m % x, guard[g][1], guard[g][1], m % z, guard[g][1], m % z)
            yield Case("decoders", "forwarded", code, "crate::s::check::<$::R>(3, 1, %s)" % rows)


def explore(run, thorough):
    seen, ok, no = set(), [], []
    for c in itertools.chain(structs(thorough), others(), decoders(thorough)):
        if (c.code, c.run) not in seen:
            seen.add((c.code, c.run))
            ok.append(c)
    for c in refused():
        if c.code not in seen:
            seen.add(c.code)
            no.append(c)
    res = {"states": len(ok) + len(no), "transitions": len(ok) + len(no), "runs": len(ok) + len(no), "details": [], "families": {}, "samples": []}
    for c in ok + no:
        f = res["families"].setdefault(c.family, {"programs": 0})
        f["programs"] += 1
    bad, done = decide(run, "p17r", ok, HEAD, run.SHARDS)
    res["transitions"] += done
    for i in sorted(bad):
        c = Case("common", "common", HEAD) if i == COMMON else ok[i]
        res["details"].append({"key": c.key, "program": repr(c), "expected": "every part of the context is the marked one", "got": bad[i][:1200]})
    bad, _ = decide(run, "p17n", no, HEAD, run.SHARDS, execute=False)
    for i, c in enumerate(no):
        if i not in bad and COMMON not in bad:
            res["details"].append({"key": c.key, "program": repr(c), "expected": "doesn't compile, since the part isn't shared", "got": "compiles"})
    res["samples"] = [repr(c) for c in ok[:: len(ok) // 5] + no[:1]]
    res["violations"] = len(res["details"])
    return res
