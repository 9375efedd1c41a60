//! Programs: types that derive `FromRequest`, as data.

/// A segment of a path pattern.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Seg {
    Lit(String),
    /// `{name}`
    Ph(String),
    /// `{name...}`
    Rest(String),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Pat {
    Star,
    Segs(Vec<Seg>),
}

impl Pat {
    pub fn parse(s: &str) -> Pat {
        if s == "*" {
            return Pat::Star;
        }
        assert!(s.starts_with('/'), "{}", s);
        Pat::Segs(
            s[1..]
                .split('/')
                .map(|p| {
                    if p.starts_with('{') && p.ends_with("...}") {
                        Seg::Rest(p[1..p.len() - 4].to_string())
                    } else if p.starts_with('{') && p.ends_with('}') {
                        Seg::Ph(p[1..p.len() - 1].to_string())
                    } else {
                        Seg::Lit(p.to_string())
                    }
                })
                .collect(),
        )
    }

    pub fn text(&self) -> String {
        match self {
            Pat::Star => "*".into(),
            Pat::Segs(segs) => segs
                .iter()
                .map(|s| match s {
                    Seg::Lit(l) => format!("/{}", l),
                    Seg::Ph(n) => format!("/{{{}}}", n),
                    Seg::Rest(n) => format!("/{{{}...}}", n),
                })
                .collect(),
        }
    }

    /// Placeholder names in path order.
    pub fn names(&self) -> Vec<&str> {
        match self {
            Pat::Star => vec![],
            Pat::Segs(segs) => segs
                .iter()
                .filter_map(|s| match s {
                    Seg::Lit(_) => None,
                    Seg::Ph(n) | Seg::Rest(n) => Some(&n[..]),
                })
                .collect(),
        }
    }

    /// The pattern with all placeholder names erased: equal shapes match the same paths.
    pub fn shape(&self) -> String {
        match self {
            Pat::Star => "*".into(),
            Pat::Segs(segs) => segs
                .iter()
                .map(|s| match s {
                    Seg::Lit(l) => format!("/{}", l),
                    Seg::Ph(_) => "/{}".to_string(),
                    Seg::Rest(_) => "/{...}".to_string(),
                })
                .collect(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Route {
    /// Lower case, as in the attribute.
    pub method: String,
    pub pat: Pat,
}

pub fn route(method: &str, pat: &str) -> Route {
    Route {
        method: method.into(),
        pat: Pat::parse(pat),
    }
}

/// Types of placeholder fields.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    Str,
    U8,
    I32,
    Bool,
    /// Accepts everything that doesn't start with `x`; its error names `N`.
    Tok(u8),
}

/// Types of query fields.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum QTy {
    /// `Vec<(String, String)>`: accepts everything.
    Pairs,
    /// `struct { a: u8, b: Option<String> }`
    Struct,
    /// `()`: only accepts an empty query
    Unit,
}

/// How an asynchronous (explorer-driven) item is implemented.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum FKind {
    Seg(Ty),
    Query(QTy),
    /// Collects all bytes of the body.
    BodyBytes,
    /// Guard that records the request it sees, always succeeds.
    GSee,
    /// Guard number `n`, controlled by the request header `g<n>`.
    GHdr(u8),
    /// Explorer-driven guard number `n`.
    GDyn(u8),
    /// Explorer-driven body decoder.
    BodyDyn,
    /// Forward to another program of the same module (index into `Module::types`).
    Forward(usize),
    /// Arbitrary type text with arbitrary attributes; only for programs that are just compiled.
    Raw(String),
}

#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub kind: FKind,
}

pub fn field(name: &str, kind: FKind) -> Field {
    Field {
        name: name.into(),
        kind,
    }
}

#[derive(Clone, Debug, Default)]
pub struct Variant {
    pub name: String,
    pub routes: Vec<Route>,
    pub fields: Vec<Field>,
    /// `Name {}` instead of `Name` when there are no fields.
    pub braces: bool,
}

impl Variant {
    pub fn new(name: impl Into<String>, routes: Vec<Route>, fields: Vec<Field>) -> Self {
        Variant {
            name: name.into(),
            routes,
            fields,
            braces: false,
        }
    }

    /// Variant with a `String` field for every placeholder.
    pub fn strs(name: impl Into<String>, routes: Vec<Route>) -> Self {
        let fields = routes
            .first()
            .map(|r| {
                r.pat
                    .names()
                    .iter()
                    .map(|n| field(n, FKind::Seg(Ty::Str)))
                    .collect()
            })
            .unwrap_or_default();
        Variant::new(name, routes, fields)
    }

    pub fn forward(&self) -> Option<usize> {
        self.fields.iter().find_map(|f| match f.kind {
            FKind::Forward(i) => Some(i),
            _ => None,
        })
    }
}

/// A type deriving `FromRequest`.
#[derive(Clone, Debug)]
pub struct Prog {
    pub name: String,
    /// Struct with the name, routes and fields of the only variant.
    pub is_struct: bool,
    /// If set, all forward fields use a type parameter instantiated with the right type.
    pub generic: bool,
    pub variants: Vec<Variant>,
}

impl Prog {
    pub fn en(variants: Vec<Variant>) -> Prog {
        Prog {
            name: "R".into(),
            is_struct: false,
            generic: false,
            variants,
        }
    }

    pub fn st(mut v: Variant) -> Prog {
        v.name = "R".into();
        Prog {
            name: "R".into(),
            is_struct: true,
            generic: false,
            variants: vec![v],
        }
    }

    pub fn named(mut self, n: &str) -> Prog {
        self.name = n.into();
        if self.is_struct {
            self.variants[0].name = n.into();
        }
        self
    }

    /// All pairs of routes that make the declaration ambiguous.
    pub fn conflicts(&self) -> bool {
        let all: Vec<&Route> = self.variants.iter().flat_map(|v| &v.routes).collect();
        for (i, a) in all.iter().enumerate() {
            for b in &all[..i] {
                if a.pat.shape() == b.pat.shape() {
                    if a.method == b.method {
                        return true;
                    }
                } else if crate::refer::overlap(&a.pat, &b.pat) {
                    return true;
                }
            }
        }
        false
    }
}

/// One compiled unit: several types, the last one being the router under test.
#[derive(Clone, Debug)]
pub struct Module {
    pub types: Vec<Prog>,
}

impl Module {
    pub fn single(p: Prog) -> Module {
        Module { types: vec![p] }
    }

    pub fn main(&self) -> &Prog {
        self.types.last().unwrap()
    }
}
