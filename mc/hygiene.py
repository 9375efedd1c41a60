"""P19: what generated code depends on. Enumerates names x roles, shapes, scopes, editions and dependencies."""
import itertools
from programs import COMMON, Case, decide

# Everything generated programs use apart from the derive is here, so that modules don't need names in scope.
HEAD = r'''
#![allow(warnings)]
%s
pub mod s {
    use hyperdrive::*;
    use std::str::FromStr;
    use std::sync::Arc;
    macro_rules! guard { ($t:ident, $c:ty) => {
        #[derive(Debug, Clone)] pub struct $t {}
        impl Guard for $t { type Context = $c; type Result = Result<$t, BoxedError>;
            fn from_request(_: &Arc<http::Request<()>>, _: &$c) -> Self::Result { Ok($t {}) } }
    } }
    guard!(G, NoContext);
    guard!(G2, C);
    #[derive(Debug)] pub struct B {}
    impl FromBody for B { type Context = NoContext; type Result = Result<B, BoxedError>;
        fn from_body(_: &Arc<http::Request<()>>, _: hyper::Body, _: &NoContext) -> Self::Result { Ok(B {}) } }
    #[derive(Debug, FromRequest)] #[context(C)] #[get("/i")] #[post("/b/y")] #[delete("/c")] pub struct F {}
    #[derive(Debug, FromRequest)] #[get("/i")] #[post("/b/y")] #[delete("/c")] pub struct F0 {}
    #[derive(Debug, Clone, PartialEq)] pub struct P { pub p: u32 }
    impl FromStr for P { type Err = ::std::num::ParseIntError; fn from_str(s: &str) -> Result<P, Self::Err> { Ok(P { p: s.parse()? }) } }
    #[derive(Debug, PartialEq)] pub struct Q {}
    impl<'a> serde::Deserialize<'a> for Q { fn deserialize<D: serde::Deserializer<'a>>(d: D) -> Result<Q, D::Error> {
        <::std::collections::BTreeMap<String, String> as serde::Deserialize>::deserialize(d).map(|_| Q {}) } }
    #[derive(Debug)] pub struct W<T> { pub w: T }
    impl<T: FromStr> FromStr for W<T> { type Err = T::Err; fn from_str(s: &str) -> Result<W<T>, T::Err> { Ok(W { w: s.parse()? }) } }
    impl<T: Guard<Context = NoContext> + Send> Guard for W<T> where T::Result: futures::IntoFuture<Item = T, Error = BoxedError>, <T::Result as futures::IntoFuture>::Future: Send + 'static, T: 'static {
        type Context = NoContext; type Result = DefaultFuture<W<T>, BoxedError>;
        fn from_request(r: &Arc<http::Request<()>>, c: &NoContext) -> Self::Result {
            use self::futures::{Future, IntoFuture};
            Box::new(T::from_request(r, c).into_future().map(|w| W { w })) } }
    #[derive(Debug, Clone, RequestContext)] pub struct C { pub x: u8 }
    pub trait Assoc { type A; }
    impl Assoc for C { type A = P; }

    pub trait Make { fn make() -> Self; }
    impl Make for C { fn make() -> C { C { x: 1 } } }
    impl Make for NoContext { fn make() -> NoContext { NoContext } }

    pub fn show<T: ::std::fmt::Debug>(r: Result<T, BoxedError>) -> String {
        match r {
            Ok(t) => format!("{:?}", t),
            Err(e) => match e.downcast_ref::<Error>() {
                Some(e) => {
                    let mut m: Vec<String> = e.allowed_methods().map(|m| m.iter().map(|m| m.to_string()).collect()).unwrap_or(vec![]);
                    m.sort();
                    m.dedup();
                    format!("E{} {}", e.http_status().as_u16(), m.join(","))
                }
                None => "other error".to_string(),
            },
        }
    }

    /// Decodes requests (method, target) and compares with the expected values as text.
    pub fn check<T: FromRequest + ::std::fmt::Debug>(rows: &[(&str, &str, &str)]) -> Result<u32, String>
    where T::Context: Make, T::Future: 'static {
        use self::futures::Future;
        for (m, t, want) in rows {
            let mk = || http::Request::builder().method(*m).uri(*t).body(hyper::Body::empty()).unwrap();
            let a = show(T::from_request_sync(mk(), T::Context::make()));
            let b = show(T::from_request(mk(), T::Context::make()).wait());
            for got in &[a, b] {
                if got != want {
                    return Err(format!("{} {}: expected `{}`, got `{}`", m, t, want, got));
                }
            }
        }
        Ok(rows.len() as u32 * 2)
    }

    /// Checks conversions of a context.
    pub fn refs<T: RequestContext, A>(t: &T, a: &A) -> Result<u32, String> where T: AsRef<A> {
        let _: &NoContext = t.as_ref();
        if <T as AsRef<T>>::as_ref(t) as *const T != t as *const T { return Err("not a reference to itself".to_string()); }
        if <T as AsRef<A>>::as_ref(t) as *const A != a as *const A { return Err("not a reference to the field".to_string()); }
        Ok(2)
    }
}
macro_rules! all { ($($e:expr),* $(,)?) => {{ let mut n = 0; $( n += $e?; )* Ok(n) }} }
'''

# Names that generated code uses for its own purposes (types, traits, modules, functions, locals, macros), names
# of the prelude, of attributes and keywords, and others.
NAMES = """
request std path Variant future usize hyperdrive Error http FromStr into_future e methods regex Some Vec REGEXES str BoxedError Regex
lazy_static Send Method Box captures lazy get Ok uri StatusCode RegexSet ROUTES DefaultFuture Arc clone fld_x as_ref Option Future
variant_matches_path u32 FromRequest v from_str context as_str String tmp_request push our_methods err caps body Err Context method matches
index futures and_then initialize inner_methods from alloc NOT_FOUND Item Guard wrong_method unwrap is_ok Request IntoFuture AsRef variant
var iter hyper deref core boxed Deref Target PUT LazyStatic INIT HEAD GET FromBody map_err http_status error Sync Result RequestContext
NoContext query next from_request from_query from_body de DeserializeOwned BAD_REQUEST bool vec debug_assert Body serde None forward
""".split()
MORE_NAMES = """Drop drop Copy
Clone Fn FnOnce Debug Iterator val query_params post head delete any allowed a A x X t T _x __x url_ hyperderive serde_urlencoded
tokio main test self_ Self_ result status value name caller data inner Inner Index Struct Json Session User id user
""".split()
KEYWORDS = "type match fn let mod ref move async await dyn try box abstract where in loop impl struct enum trait use pub static const yield macro union default auto raw gen".split()


# Public types, traits and modules of the standard library and of hyperdrive's dependencies (those in NAMES aside)
LIBRARY = """
Alignment AnyMut Any Async AsyncSink AsMut AssertUnwindSafe AtomicBool AtomicUsize AtomicU64 Args Authority BTreeMap BTreeSet Barrier BinaryHeap
Bound Borrow BorrowMut BufRead BufReader Builder Bytes BytesMut Buf BufMut Cell Char Chars Child Chunk Client ClientError Command Condvar Config
Connection Connect Cookie Cow Custom Default DefaultHasher Deserialize Deserializer Display Dispatch Disposition DoubleEndedIterator Duration Either
Empty EmptyError Enter Entry Eq Event Exec ExactSizeIterator Executor Extend Extensions File FilterMap Flatten FnMut Formatter FromIterator
FutureResult FutureExt FuturesUnordered Handle Handler Hash HashMap HashSet Hasher Header HeaderMap HeaderName HeaderValue HttpBody Id Infallible
Inspect Instant Interval IntoIterator Into Io IpAddr IsTerminal Iter JoinHandle Join Key Kind Lazy LazyCell LazyLock LocalKey Loop Map MakeService Mutex
MutexGuard Name Never NewService Not Notify Once OnceCell OnceLock Ord Ordering Output OsString Page Params Parts PartialEq PartialOrd
Path PathBuf PathAndQuery Payload PhantomData Pin Poll Pool Post Product Query Rc Read Receiver RefCell Reader Ref Regex_ RegexBuilder Remote Replace
Response Rest Role Route Router Rng Rule Runtime RwLock Scheme Seek Select Sender Serialize Serializer Server Service SetMatches Shared
Sink Sized Slice SocketAddr Source Spawn Split State Status Stderr Stdin Stdout Stream Sum System SystemTime Task TaskExecutor Tail Termination Then ThreadId
Timeout Timer Token ToOwned ToString ToSocketAddrs Trait TryFrom TryInto TryFuture TypeId UnsafeCell Unpin Uri Url User_ Uuid Value Values VecDeque Version
Visitor Wake Waker Wakeup Weak Window With Write Writer Zip Account Admin Api App Auth Comment Filter Form Item_ Login Message
Order Product_ Profile Search Settings Site Static Tag Team Template Upload Users Widget
any array ascii atomic borrow boxed_ cell channel char client clone cmp collections convert_ debug default_ env executor_ ext f32 f64
ffi fmt fs future_ hash header hint i8 i16 i32 i64 i128 isize io iter_ marker mem mpsc net num ops option os panic_ parse pin poll prelude
process ptr rc response result_ runtime select server service slice stream string sync task thread time u8 u16 u64 u128 unsync uri vec_ version
""".split()


def library(thorough):
    """A name of the library as the type of each kind of field, and as that of other things in scope."""
    text = """
    #[derive(Debug, hyperdrive::FromRequest)] #[context(crate::s::C)] pub enum Zt {
        #[get("/a/{ph}/{rest...}")] Za { ph: %(P)s, rest: ::std::string::String, #[query_params] qp: %(Q)s },
        #[get("/g")] Zg { gd: %(G)s, #[body] bd: %(B)s },
        #[post("/b/{ph}")] Zb { ph: %(P)s, #[forward] fw: %(F)s },
        Zf { #[forward] fb: %(F)s },
    }
    #[derive(Debug, Clone, hyperdrive::RequestContext)] pub struct Zc { #[as_ref] pub a: %(P)s, pub b: %(G)s }
    """
    dep = dict((k, "crate::s::" + k) for k in "PQGBF")
    for n in LIBRARY:
        n = n.rstrip("_")
        if n in NAMES or n in KEYWORDS:
            continue
        for k in "PQGBF":
            yield Case("field types", "type-name:" + n, "    use crate::s::%s as %s;\n" % (k, n) + text % dict(dep, **{k: n}))
        for kind in ("mod %s {}", "trait %s { fn zz(&self) {} }", "struct %s {}"):
            yield Case("names in scope", "type-name:" + n, "    " + kind % n + text % dep)
        yield Case("type names", "type-name:" + n, (text % dep).replace("enum Zt", "enum " + n))
        yield Case("type parameters", "type-name:" + n,
                   "#[derive(Debug, hyperdrive::FromRequest)] pub enum Zz<%s> { #[get(\"/{x}\")] Z { x: %s }, #[put(\"/\")] Zu }" % (n, n))


def raw(n):
    return "r#" + n if n in KEYWORDS and n not in ("union", "default", "auto", "raw") else n


BASE = dict(T="Zt", ph="zph", qp="zqp", gd="zgd", bd="zbd", fw="zfw", fb="zfb", V="Z0", V2="Z2", U="Z5",
            P="crate::s::P", Q="crate::s::Q", G="crate::s::G", B="crate::s::B", F="crate::s::F")

TEXT = '''
    #[derive(Debug, hyperdrive::FromRequest)]
    #[context(crate::s::C)]
    pub enum %(T)s {
        #[get("/a/{%(ph)s}/{rest...}")] %(V)s { %(ph)s: %(P)s, rest: ::std::string::String },
        #[get("/q")] Zq { #[query_params] %(qp)s: %(Q)s },
        #[get("/g")] Zg { %(gd)s: %(G)s },
        #[get("/d")] Zd { #[body] %(bd)s: %(B)s },
        #[post("/b/{rest...}")] Zb { rest: ::std::string::String, #[forward] %(fw)s: %(F)s },
        #[put("/c")] Zc,
        #[put("/e/{%(ph)s}")] Ze { %(ph)s: %(P)s },
        Zf { #[forward] %(fb)s: %(F)s },
    }
    #[derive(Debug, hyperdrive::FromRequest)]
    pub enum %(T)s1 {
        #[get("/a/{%(ph)s}")] Za { %(ph)s: %(P)s, zz: %(G)s },
        #[put("/a/{z}")] Z1 { z: ::std::string::String, #[query_params] %(qp)s: %(Q)s },
        #[post("/c")] %(V2)s,
    }
    #[derive(Debug, hyperdrive::FromRequest)]
    pub enum %(T)s4 { %(U)s, #[get("/")] Zg { %(gd)s: %(G)s } }
    #[derive(Debug, Clone, hyperdrive::RequestContext)]
    pub struct %(T)s2 { #[as_ref] pub %(gd)s: %(P)s, #[as_ref] pub zx: u8 }
    #[derive(Debug, Clone, hyperdrive::RequestContext)]
    pub struct %(T)s3(#[as_ref] pub %(P)s, #[as_ref] pub u8);
'''


def rows(list_):
    return "&[" + ", ".join('("%s", "%s", "%s")' % r for r in list_) + "]"


def base(family, key, extra="", run=True, no_ph=False, **sub):
    d = dict(BASE)
    d.update(sub)
    n = {k: v.replace("r#", "") for k, v in d.items()}
    r = None
    if run:
        P7 = "P { p: 7 }"
        r = "all!(crate::s::check::<$::%s>(%s), crate::s::check::<$::%s1>(%s), { let t = $::%s2 { %s: \"4\".parse().unwrap(), zx: 3 }; crate::s::refs(&t, &t.%s) }, { let t = $::%s3(\"4\".parse().unwrap(), 3); crate::s::refs(&t, &t.0) })" % (
            d["T"].replace("r#", "r#"), rows([
                ("GET", "/a/7/x/y", "%s { %s: %s, rest: \\\"x/y\\\" }" % (n["V"], n["ph"], P7)),
                ("HEAD", "/a/7/?k", "%s { %s: %s, rest: \\\"\\\" }" % (n["V"], n["ph"], P7)),
                ("GET", "/a/z/x", "E404 "),
                ("POST", "/a/7/x", "E404 "),
                ("GET", "/q?k=v", "Zq { %s: Q }" % n["qp"]),
                ("GET", "/g?k", "Zg { %s: G }" % n["gd"]),
                ("GET", "/d", "Zd { %s: B }" % n["bd"]),
                ("POST", "/b/y", "Zb { rest: \\\"y\\\", %s: F }" % n["fw"]),
                ("POST", "/b/n", "E404 "),
                ("PUT", "/c", "Zc"),
                ("DELETE", "/c", "Zf { %s: F }" % n["fb"]),
                ("GET", "/c", "E405 DELETE,PUT"),
                ("PUT", "/e/7", "Ze { %s: %s }" % (n["ph"], P7)),
                ("GET", "/i", "Zf { %s: F }" % n["fb"]),
                ("GET", "/none", "E404 "),
            ]), d["T"], rows([
                ("GET", "/a/7", "Za { %s: %s, zz: G }" % (n["ph"], P7)),
                ("PUT", "/a/7", "Z1 { z: \\\"7\\\", %s: Q }" % n["qp"]),
                ("PATCH", "/a/7", "E405 GET,HEAD,PUT"),
                ("PATCH", "/a/x", "E405 PUT"),
                ("POST", "/c", n["V2"]),
                ("GET", "/c", "E405 POST"),
                ("GET", "/", "E404 "),
            ]), d["T"], d["gd"], d["gd"], d["T"])
    return Case(family, key, extra + TEXT % d, r)


def named(thorough):
    for n in NAMES + MORE_NAMES * thorough + KEYWORDS:
        r = raw(n)
        roles = dict(qp=r, gd=r, bd=r, fw=r, fb=r)
        if n not in KEYWORDS or r == n:
            roles["ph"] = n
        if n == "rest":
            continue
        # fields of each kind, and variants that are routed (with and without fields) or not
        yield base("field names", "field:" + n, **roles)
        yield base("variant names", "variant:" + n, V=r, V2=r, U=r)
        yield Case("type names", "type-name:" + n, (TEXT % dict(BASE)).replace("enum Zt ", "enum %s " % r), None)
        yield Case("type names", "type-name:" + n, (TEXT % dict(BASE)).replace("enum Zt1 ", "enum %s " % r), None)
        yield Case("type names", "type-name:" + n, "#[derive(hyperdrive::FromRequest)] #[get(\"/{x}\")] struct %s { x: u8, #[query_params] q: crate::s::Q, g: crate::s::G }" % r, None)
        yield Case("type names", "type-name:" + n, "#[derive(Clone, hyperdrive::RequestContext)] struct %s { #[as_ref] x: crate::s::P, #[as_ref] y: u8 }" % r, None)
        yield Case("type names", "type-name:" + n, "#[derive(Clone, hyperdrive::RequestContext)] struct %s(#[as_ref] crate::s::P, u16);" % r, None)
        # types of fields, by a name in scope (`P`... are braced structs, so there's only a type of that name)
        for k in "PQGBF":
            yield base("field types", "type-name:" + n, "    use crate::s::%s as %s;\n" % (k, r), run=False, **{k: r})
        yield Case("field types", "type-name:" + n, "use crate::s::C as %s;\n#[derive(hyperdrive::FromRequest)] #[context(%s)] #[get(\"/\")] struct Zz { g: crate::s::G }" % (r, r), None)
        yield Case("field types", "type-name:" + n, "use crate::s::P as %s;\n#[derive(Clone, hyperdrive::RequestContext)] struct Zz { #[as_ref] x: %s, #[as_ref] y: u8 }" % (r, r), None)
        # type parameters
        for k, field in (("P", "x: %s"), ("Q", "#[query_params] q: %s"), ("G", "g: %s"), ("B", "#[body] b: %s"), ("F0", "#[forward] f: %s")):
            f = field % r
            yield Case("type parameters", "type-name:" + n,
                       "#[derive(Debug, hyperdrive::FromRequest)] pub enum Zz<%s> { #[get(\"/%s\")] Z { %s }, #[put(\"/\")] Zu }" % (r, "{x}" if k == "P" else "i", f), None)
        # other things of the same name in scope
        for kind, text in (("module", "pub mod %s {}"), ("alias", "type %s = ();"), ("trait", "trait %s { fn zz(&self) {} }"), ("struct", "struct %s {}")):
            yield base("names in scope", "type-name:" + n, "    " + text % r + "\n", run=False)


def shapes(thorough):
    C, fam = Case, "shapes"
    ok = "crate::s::check::<$::%s>(%s)"

    def item(key, code, *checks, **kw):
        return C(fam, "shape:" + key, code, "all!(%s)" % ", ".join(ok % (t, rows(r)) for t, r in checks) if checks else None, **kw)

    drv = "#[derive(Debug, hyperdrive::FromRequest)] "
    got = [("GET", "/", "S"), ("HEAD", "/", "S"), ("POST", "/", "E405 GET,HEAD"), ("GET", "/x", "E404 ")]
    # kinds of items
    yield item("unit struct", drv + '#[get("/")] pub struct S;', ("S", got))
    yield item("empty struct", drv + '#[get("/")] pub struct S {}', ("S", got))
    yield item("unit variant", drv + 'pub enum E { #[get("/")] S }', ("E", got))
    yield item("empty variant", drv + 'pub enum E { #[get("/")] S {} }', ("E", got))
    yield item("unrouted", drv + 'pub enum E { A, #[get("/")] S, B {}, C { x: u8, y: String } }', ("E", got))
    # visibility of items and fields
    for vis in ("", "pub ", "pub(crate) ", "pub(self) ", "pub(super) ", "pub(in crate) ", "crate::"):
        if vis == "crate::":
            continue
        for fvis in ("", "pub ", "pub(crate) ", "pub(self) ", "pub(super) ", "pub(in crate) "):
            yield item("visibility", drv + '#[get("/{x}")] %sstruct S { %sx: u8, %sg: crate::s::G }' % (vis, fvis, fvis)
                       + "\npub fn zz() -> Result<u32, String> { " + ok.replace("$", "self") % ("S", rows([("GET", "/3", "S { x: 3, g: G }")])) + " }")
            yield C(fam, "shape:visibility", "#[derive(hyperdrive::RequestContext)] %sstruct S { #[as_ref] %sx: u8, %sy: u16 }\n" % (vis, fvis, fvis)
                    + "#[derive(hyperdrive::RequestContext)] %sstruct R(#[as_ref] %su8, %su16);\n" % (vis, fvis, fvis)
                    + "pub fn zz() -> Result<u32, String> { let s = S { x: 1, y: 2 }; let r = R(1, 2); Ok(crate::s::refs(&s, &s.x)? + crate::s::refs(&r, &r.0)?) }", "$::zz()")
    # attributes
    for a in ("/// docs\n", "/** docs */", "#[doc = \"x\"]", "#[doc(hidden)]", "#[allow(dead_code)]", "#[allow(clippy::all)]", "#[rustfmt::skip]", "#[cfg(all())]", "#[deprecated]",
              "#[deprecated(note = \"x\")]", "#[cfg_attr(all(), allow(dead_code))]", "#[cfg_attr(any(), get(\"/zz\"))]", "#[allow(non_snake_case, unused)]",
              "#[warn(clippy::pedantic)]", "#[doc(alias = \"zzz\")]", "#[cfg_attr(all(), doc = \"z\")]"):
        for flip in (0, 1):
            j = (lambda x, y: x + "\n" + y) if flip else (lambda x, y: y + "\n" + x)
            yield item("attribute", j(a, '#[derive(Debug, hyperdrive::FromRequest)]\n#[get("/{x}")]') + "\npub struct S { %s\n x: u8,\n%s\n%s }" % (a, "g: crate::s::G,", j(a, "#[query_params]") + " q: crate::s::Q"),
                       ("S", [("GET", "/3", "S { x: 3, g: G, q: Q }")]))
            yield item("attribute", drv + "pub enum E { " + j(a, '#[get("/{x}")]') + " V { " + j(a, "#[body]") + " b: crate::s::B, %s\n x: u8 },\n %s\n U, " % (a, a) + j(a, '#[put("/z/z")]') + " W { " + j(a, "#[forward]") + " f: crate::s::F0 } }",
                       ("E", [("GET", "/3", "V { b: B, x: 3 }"), ("PUT", "/z/z", "E404 ")]))
            yield C(fam, "shape:attribute", j(a, "#[derive(hyperdrive::RequestContext)]") + "\npub struct S { " + j(a, "#[as_ref]") + " pub x: u8, %s\n pub y: u16 }\n" % a
                    + "#[derive(hyperdrive::RequestContext)] pub struct R(" + j(a, "#[as_ref]") + " pub u8, %s\n pub u16);" % a,
                    "{ let s = $::S { x: 1, y: 2 }; let r = $::R(1, 2); Ok(crate::s::refs(&s, &s.x)? + crate::s::refs(&r, &r.0)?) }")
    # the order of all attributes of one thing
    for a in ("/// docs\n", "#[allow(clippy::all)]", "#[cfg_attr(all(), allow(dead_code))]"):
        for o in itertools.permutations((a, "#[context(crate::s::C)]", '#[get("/{x}")]', '#[put("/a/{x}")]')):
            rows_ = [("GET", "/3", "S { x: 3, g: G2 }"), ("PUT", "/a/3", "S { x: 3, g: G2 }"), ("PUT", "/3", "E405 GET,HEAD"), ("GET", "/a/3", "E405 PUT")]
            yield item("attribute order", drv + "\n".join(o) + "\npub struct S { x: u8, g: crate::s::G2 }", ("S", rows_))
        for o in itertools.permutations((a, "#[context(crate::s::C)]", "#[allow(unused)]")):
            yield item("attribute order", drv + "\n".join(o) + "\npub enum S { #[get(\"/\")] V { g: crate::s::G2 } }", ("S", [("GET", "/", "V { g: G2 }")]))
        for o in itertools.permutations((a, "#[allow(unused)]", "#[query_params]")):
            yield item("attribute order", drv + "#[get(\"/\")] pub struct S { " + "\n".join(o) + " q: crate::s::Q, %s\n g: crate::s::G }" % a, ("S", [("GET", "/", "S { q: Q, g: G }")]))
            yield C(fam, "shape:attribute order", "#[derive(hyperdrive::RequestContext)] pub struct S { " + "\n".join(o).replace("query_params", "as_ref") + " pub x: u8, pub y: u16 }", "{ let s = $::S { x: 1, y: 2 }; crate::s::refs(&s, &s.x) }")
    yield item("attribute", drv + "#[non_exhaustive] #[must_use] #[repr(C)] #[get(\"/\")] pub struct S { g: crate::s::G }", ("S", [("GET", "/", "S { g: G }")]))
    yield item("attribute", drv + "#[non_exhaustive] #[must_use] #[repr(u8)] pub enum E { #[get(\"/\")] S = 3, #[put(\"/\")] B = 1 }", ("E", [("GET", "/", "S"), ("PUT", "/", "B")]))
    yield item("cfg", drv + "pub enum E { #[cfg(any())] #[get(\"/\")] N, #[get(\"/\")] S, #[cfg(any())] F { x: u8 }, #[put(\"/\")] B { #[cfg(any())] z: u8, g: crate::s::G } }", ("E", [("GET", "/", "S"), ("PUT", "/", "B { g: G }")]))
    yield item("cfg_attr", "#[cfg_attr(all(), derive(Debug, hyperdrive::FromRequest))] pub enum E { #[cfg_attr(all(), get(\"/{x}\"))] V { #[cfg_attr(any(), body)] x: u8, #[cfg_attr(all(), query_params)] q: crate::s::Q } }",
               ("E", [("GET", "/3", "V { x: 3, q: Q }")]))
    # generics: every kind of field by a type parameter, one or two of them, with and without bounds
    kinds = {"ph": ("x: %s", "crate::s::P", "x: P { p: 4 }"), "qp": ("#[query_params] q: %s", "crate::s::Q", "q: Q"), "gd": ("g: %s", "crate::s::G", "g: G"),
             "gd2": ("h: %s", "crate::s::W<crate::s::G>", "h: W { w: G }"), "bd": ("#[body] b: %s", "crate::s::B", "b: B"), "fw": ("#[forward] f: %s", "crate::s::F0", None)}
    for n in (1, 2, 3) if thorough else (1, 2):
        for ks in itertools.permutations(kinds, n):
            if "bd" in ks and "fw" in ks:
                continue
            for bound in ("", ": Clone2", ": ?Sized2"):
                if bound and n > 2:
                    continue
                ps = ["T%d" % i for i in range(n)]
                # body and forward come last in evaluation, wherever they're declared
                fields = ", ".join(kinds[k][0] % p for k, p in zip(ks, ps))
                generics = ", ".join(p + (": ::std::fmt::Debug" if bound == ": Clone2" else "") for p in ps)
                where = " where T0: ::std::fmt::Debug" if bound == ": ?Sized2" else ""
                tys = ", ".join(kinds[k][1] for k in ks)
                path = "/{x}" if "ph" in ks else "/4"
                if "fw" in ks:
                    want = [("GET", "/4", "E404 ")]
                else:
                    want = [("GET", "/4", "V { %s }" % ", ".join(kinds[k][2] for k in ks)), ("PUT", "/4", "E405 GET,HEAD")]
                yield item("generics", drv + "pub enum E<%s>%s { #[get(\"%s\")] V { %s } }" % (generics, where, path, fields), ("E<%s>" % tys, want))
                if n < 3:
                    yield item("generics", drv + "#[get(\"%s\")] pub struct V<%s>%s { %s }" % (path, generics, where, fields), ("V<%s>" % tys, want))
    # the same parameter several times, partly used, nested, defaults
    yield item("generics", drv + 'pub enum E<T> { #[get("/{x}")] V { x: T, #[query_params] q: crate::s::Q }, #[put("/{y}/{x}")] W { x: T, y: crate::s::W<T> }, U { z: Option<T> } }',
               ("E<u8>", [("GET", "/4", "V { x: 4, q: Q }"), ("PUT", "/5/6", "W { x: 6, y: W { w: 5 } }"), ("PUT", "/5/z", "E404 "), ("POST", "/5", "E405 GET,HEAD"), ("POST", "/x", "E405 ")]))
    yield item("generics", drv + 'pub enum E<T = u8> { #[get("/{x}")] V { x: T } }', ("E", [("GET", "/4", "V { x: 4 }")]))
    yield item("generics", drv + 'pub enum E<T> where T: Clone + ::std::fmt::Debug, Vec<T>: ::std::fmt::Debug { #[get("/{x}")] V { x: T } }', ("E<u8>", [("GET", "/4", "V { x: 4 }")]))
    yield item("generics", drv + 'pub enum E<T> { #[get("/{x}")] V { x: crate::s::W<crate::s::W<T>> } }', ("E<u8>", [("GET", "/4", "V { x: W { w: W { w: 4 } } }")]))
    for k, kt in (("x: crate::s::W<%s>", "u8"), ("g: crate::s::W<%s>", "crate::s::G")):
        yield item("generics", drv + "#[get(\"/{y}/%s\")] pub struct S<T> { y: u8, %s }" % ("{x}" if "x:" in k else "4", k % "T"), ("S<%s>" % kt, [("GET", "/1/4", "S { y: 1, %s }" % ("x: W { w: 4 }" if "x:" in k else "g: W { w: G }"))]))
    # kinds of types of fields
    for ty, txt, val in (("u8", "4", "4"), ("::std::string::String", "4", '\\"4\\"'), ("(u8)", "4", "4"), ("<crate::s::C as crate::s::Assoc>::A", "4", "P { p: 4 }"), ("crate::s::W<u8>", "4", "W { w: 4 }"),
                         ("::std::net::IpAddr", "::1", "::1"), ("f32", "4", "4.0"), ("bool", "true", "true"), ("char", "4", "'4'"), ("::std::num::NonZeroU8", "4", "4"), ("i128", "4", "4")):
        yield item("field type", drv + "pub enum E { #[get(\"/{x}\")] V { x: %s }, #[put(\"/{x}\")] W { x: %s, g: crate::s::G } }" % (ty, ty),
                   ("E", [("GET", "/" + txt, "V { x: %s }" % val), ("PUT", "/" + txt, "W { x: %s, g: G }" % val)]))
    for ty, q, val in (("::std::collections::BTreeMap<String, String>", "a=b", '{\\"a\\": \\"b\\"}'), ("Vec<(String, u8)>", "a=4", '[(\\"a\\", 4)]'), ("()", "", "()"), ("Option<crate::s::Q>", "a=b", "Some(Q)"), ("::std::collections::HashMap<u8, u8>", "1=2", "{1: 2}")):
        yield item("field type", drv + "pub enum E { #[get(\"/\")] V { #[query_params] x: %s } }" % ty, ("E", [("GET", "/?" + q, "V { x: %s }" % val)]))
    # from macros, in functions, several in one scope
    yield item("macro", "macro_rules! m { ($n:ident, $v:ident, $f:ident) => { " + drv + 'pub enum $n { #[get("/{x}")] $v { x: u8, $f: crate::s::G } } } }\nm!(E, V, g);', ("E", [("GET", "/4", "V { x: 4, g: G }")]))
    yield item("macro", "macro_rules! m { ($t:ty, $u:ty) => { " + drv + 'pub enum E { #[get("/{x}")] V { x: $t, g: $u } } } }\nm!(u8, crate::s::G);', ("E", [("GET", "/4", "V { x: 4, g: G }")]))
    yield item("macro", "macro_rules! m { ($p:tt) => { " + drv + 'pub enum E { #[get($p)] V { x: u8 } } } }\nm!("/{x}");', ("E", [("GET", "/4", "V { x: 4 }")]))
    yield item("macro", "macro_rules! m { ($($i:item)*) => { $($i)* } }\nm! { " + drv + 'pub enum E { #[get("/{x}")] V { x: u8 } } ' + drv + '#[get("/")] pub struct S; }', ("E", [("GET", "/4", "V { x: 4 }")]), ("S", got))
    yield item("raw string", drv + 'pub enum E { #[get(r"/{x}")] V { x: u8 }, #[get(r#"/b"/{x}"#)] W { x: u8 } }', ("E", [("GET", "/4", "V { x: 4 }")]))
    yield C(fam, "shape:local", "pub fn zz() -> Result<u32, String> { " + drv + "#[get(\"/\")] struct S; fn inner() -> Result<u32, String> { " + drv + "#[get(\"/\")] struct S; crate::s::check::<S>(" + rows(got) + ") } Ok(inner()? + crate::s::check::<S>(" + rows(got) + ")?) }", "$::zz()")
    yield C(fam, "shape:local", "pub fn zz() -> Result<u32, String> { #[derive(hyperdrive::RequestContext)] struct S(#[as_ref] u8); { #[derive(hyperdrive::RequestContext)] struct S(#[as_ref] u16); let s = S(1); crate::s::refs(&s, &s.0)?; } let s = S(1); crate::s::refs(&s, &s.0) }", "$::zz()")
    yield C(fam, "shape:const", "const ZZ: fn() -> Result<u32, String> = { " + drv + "#[get(\"/\")] struct S; fn f() -> Result<u32, String> { crate::s::check::<S>(" + rows(got) + ") } f };\npub fn zz() -> Result<u32, String> { ZZ() }", "$::zz()")
    yield item("several", drv + '#[get("/")] pub struct S; ' + drv + 'pub enum E { #[get("/")] S } ' + drv + '#[get("/")] pub struct R {}', ("S", got), ("E", got))
    # many variants, routes, fields
    for n in (1, 2, 8, 30):
        yield item("many", drv + "pub enum E { %s }" % ", ".join('#[get("/%d/{x}")] #[post("/%d/{x}")] V%d { x: u16, g: crate::s::G }' % (i, i, i) for i in range(n)), ("E", [("GET", "/%d/%d" % (i, i), "V%d { x: %d, g: G }" % (i, i)) for i in range(n)]))
        yield item("many", drv + "#[get(\"%s\")] pub struct S { %s }" % ("".join("/{x%d}" % i for i in range(n)), ", ".join("x%d: u16" % i for i in range(n))),
                   ("S", [("GET", "".join("/%d" % i for i in range(n)), "S { %s }" % ", ".join("x%d: %d" % (i, i) for i in range(n)))]))
        if n <= 8:
            yield item("many", drv + "#[get(\"/\")] pub struct S { %s }" % ", ".join("x%d: crate::s::G" % i for i in range(n)), ("S", [("GET", "/", "S { %s }" % ", ".join("x%d: G" % i for i in range(n)))]))


IMPORTS = [
    "use hyperdrive::*;", "use hyperdrive::{http, hyper, futures, serde};", "use hyperdrive::futures::*;", "use hyperdrive::futures::{future::*, stream::*};", "use hyperdrive::futures::prelude::*;",
    "use hyperdrive::http::*;", "use hyperdrive::http::{self, method::*, status::*, uri::*, header::*};", "use hyperdrive::hyper::*;", "use hyperdrive::hyper::{Body, Method, Request, Response, StatusCode, service::*};",
    "use hyperdrive::serde::{*, de::*, ser::*};", "use hyperdrive::regex::*;", "use hyperdrive::body::*;", "use hyperdrive::service::*;", "use hyperdrive::FromRequest;", "use hyperdrive::{Error, Guard, FromBody, RequestContext, NoContext, BoxedError};",
    "use std::io::*;", "use std::fmt::*;", "use std::error::Error;", "use std::convert::*;", "use std::borrow::*;", "use std::ops::*;", "use std::future::*;", "use std::str::*;", "use std::sync::*;", "use std::iter::*;",
    "use std::collections::*;", "use std::any::*;", "use std::cmp::*;", "use std::hash::*;", "use std::marker::*;", "use std::option::*;", "use std::result::*;", "use std::vec::*;", "use std::boxed::*;",
    "use std::path::*;", "use std::net::*;", "use std::task::*;", "use std::rc::Rc as Arc;", "use std::sync::Arc;", "use std::io::Result;", "use std::fmt::{Result, Error};", "type Result<T> = ::std::result::Result<T, ()>;",
    "struct Future; struct Error; struct Method; struct Guard; struct Regex; struct Arc; struct Variant; struct StatusCode;",
    "trait Future {} trait Guard {} trait FromRequest {} trait FromBody {} trait RequestContext {} trait AsRef {} trait FromStr {} trait IntoFuture {}",
    "mod std {} mod core {} mod alloc {} mod http {} mod hyper {} mod futures {} mod regex {} mod serde {} mod serde_urlencoded {} mod lazy_static {} mod error {} mod query {} mod context {} mod body {}",
    "enum Error {} enum Variant {} enum Method { GET, HEAD, PUT } use self::Method::*;",
    "const GET: u8 = 0; const HEAD: u8 = 1; const NOT_FOUND: u8 = 2; const ROUTES: u8 = 3; const REGEXES: u8 = 4;",
    "fn get() {} fn from_str() {} fn from_request() {} fn blocking() {} fn drop() {} fn request() {} fn path() {} fn method() {} fn body() {} fn context() {}",
]


def scopes(thorough):
    for i in IMPORTS:
        yield base("scopes", "scope:" + i, "    " + i + "\n")
    for a, b in itertools.combinations(IMPORTS, 2) if thorough else ():
        if "*" in a and "*" in b:
            yield base("scopes", "scope:%s %s" % (a, b), "    %s\n    %s\n" % (a, b))


def few(thorough):
    """Programs for every edition and set of dependencies."""
    yield base("editions and dependencies", "plain")
    for n in ("type", "async", "dyn", "try", "gen", "error", "http"):
        yield base("editions and dependencies", "field:" + n, run=thorough, qp="r#" + n)
    for i in ("use std::io::*;", "use std::fmt::*;", "use std::convert::*;"):
        yield base("editions and dependencies", "scope:" + i, "    " + i + "\n")
    for c in shapes(False):
        if c.key in ("shape:local", "shape:several", "shape:macro", "shape:field type", "shape:unit struct", "shape:unrouted") or \
                c.key == "shape:generics" and "T1" not in c.code and "where" not in c.code or \
                thorough and c.key in ("shape:generics", "shape:many", "shape:visibility"):
            yield c


# (name, edition, further dependencies, what the crate's root starts with)
DUMMIES = "http hyper futures regex lazy_static serde serde_urlencoded serde_json tokio tokio_threadpool hyperderive bytes log core_ error".split()


def crates():
    yield "p19e15", "2015", "", "extern crate hyperdrive;"
    yield "p19e15m", "2015", "", "#[macro_use] extern crate hyperdrive;"
    yield "p19e18m", "2018", "", "#[macro_use] extern crate hyperdrive;"
    yield "p19e21", "2021", "", ""
    yield "p19e24", "2024", "", ""
    yield "p19dep", "2018", "dummies", ""
    yield "p19ext", "2018", "dummies", "\n".join("extern crate %s;" % d for d in DUMMIES)
    yield "p19root", "2018", "", "\n".join("pub mod %s {}" % m for m in ("http", "hyper", "futures", "regex", "serde", "lazy_static", "serde_urlencoded", "error", "query"))


def explore(run, thorough):
    """Returns the result in the form of the other explorations."""
    cases = []
    seen = set()
    for c in itertools.chain(named(thorough), library(thorough), shapes(thorough), scopes(thorough)):
        k = (c.code, c.run)
        if k not in seen:
            seen.add(k)
            cases.append(c)
    compile_only = [c for c in cases if not c.run]
    execute = [c for c in cases if c.run]
    res = {"states": 0, "transitions": 0, "runs": 0, "details": [], "violations": 0, "families": {}, "samples": []}

    def account(name, part, head, **kw):
        bad, done = decide(run, name, part, head, run.SHARDS, **kw)
        res["states"] += len(part)
        res["runs"] += len(part)
        res["transitions"] += len(part) + done
        for c in part:
            f = res["families"].setdefault(c.family, {"programs": 0})
            f["programs"] += 1
        for i in sorted(bad):
            c = Case("common", "common", head) if i == COMMON else part[i]
            res["details"].append({"key": c.key, "program": repr(c), "in": name, "expected": "compiles and decodes as documented", "got": bad[i][:1200]})
        res["samples"] += [repr(c) for c in part[1:: len(part) // 2 + 1]]

    # those with known findings on their own: each round of errors needs another compilation
    known = run.known_findings("P19")
    account("p19k", [c for c in compile_only if c.key in known], HEAD % "", execute=False)
    account("p19c", [c for c in compile_only if c.key not in known], HEAD % "", execute=False)
    account("p19r", execute, HEAD % "")
    for name, edition, deps, root in crates():
        if any(d["key"] not in known for d in res["details"]):
            break
        part = list(few(thorough))
        toml = '[dependencies]\nhyperdrive = { path = "/repo" }\n'
        if deps == "dummies":
            for d in DUMMIES:
                p = run.GEN / "dummies" / d
                run.put(p / "Cargo.toml", '[package]\nname = "dummy-%s"\nversion = "0.1.0"\nedition = "2018"\n[workspace]\n' % d.replace("_", "-"))
                run.put(p / "src" / "lib.rs", "pub struct Nothing;\n")
                toml += '%s = { path = "../dummies/%s", package = "dummy-%s" }\n' % (d, d, d.replace("_", "-"))
        head = HEAD % ""
        head = head.replace("#![allow(warnings)]\n", "#![allow(warnings)]\n" + root + "\n")
        if edition == "2015":
            for c in part:
                c.code = c.code.replace("crate::s::", "::s::").replace("hyperdrive::FromRequest", "FromRequest").replace("hyperdrive::RequestContext", "RequestContext")
                c.code = "    #[allow(unused)] use hyperdrive::{FromRequest, RequestContext};\n" + c.code
                c.run = c.run and c.run.replace("crate::s::", "::s::")
        account(name, part, head, edition=edition, deps=toml, toml_extra="")
    res["violations"] = len(res["details"])
    res["crates"] = 2 + len(list(crates()))
    return res
