use hyperdrive::futures::{Future, Stream};
use hyperdrive::{http, hyper, BoxedError, DefaultFuture, FromBody, Guard, NoContext};
use std::{fmt, str::FromStr, sync::Arc};

/// Accepts everything that doesn't start with `x`.
pub struct Tok<const N: u8>(pub String);

#[derive(Debug)]
pub struct TokError(String);

impl fmt::Display for TokError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for TokError {}

impl<const N: u8> FromStr for Tok<N> {
    type Err = TokError;
    fn from_str(s: &str) -> Result<Self, TokError> {
        if s.starts_with('x') {
            Err(TokError(format!("tok{} {}", N, s)))
        } else {
            Ok(Tok(s.into()))
        }
    }
}
impl<const N: u8> fmt::Debug for Tok<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Tok{}<{}>", N, self.0)
    }
}

/// Put into every request's extensions.
pub struct Ext(pub u32);

/// Guard that prints the request it sees.
pub struct GSee(pub String);

impl fmt::Debug for GSee {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl Guard for GSee {
    type Context = NoContext;
    type Result = Result<Self, BoxedError>;
    fn from_request(req: &Arc<http::Request<()>>, _: &NoContext) -> Self::Result {
        let headers: Vec<(String, String)> = req
            .headers()
            .iter()
            .map(|(k, v)| (k.as_str().to_string(), v.to_str().unwrap_or("?").to_string()))
            .collect();
        Ok(GSee(format!(
            "GSee({} {} {:?} {:?} {})",
            req.method(),
            req.uri(),
            req.version(),
            headers,
            match req.extensions().get::<Ext>() {
                Some(e) => format!("ext{}", e.0),
                None => "noext".into(),
            }
        )))
    }
}

/// Guard controlled by header `g<N>`.
pub struct GHdr<const N: u8>;

impl<const N: u8> fmt::Debug for GHdr<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "GHdr{}", N)
    }
}
impl<const N: u8> Guard for GHdr<N> {
    type Context = NoContext;
    type Result = Result<Self, BoxedError>;
    fn from_request(req: &Arc<http::Request<()>>, _: &NoContext) -> Self::Result {
        let name = format!("g{}", N);
        match req.headers().get(&name[..]).map(|v| v.to_str().unwrap()) {
            Some("plain") => Err(format!("ghdr{} plain", N).into()),
            Some(s) if s.parse::<u16>().is_ok() => {
                let status = http::StatusCode::from_u16(s.parse().unwrap()).unwrap();
                if status == 405 {
                    Err(hyperdrive::Error::wrong_method(&[&http::Method::TRACE][..]).into())
                } else {
                    Err(hyperdrive::Error::with_source(status, format!("ghdr{} {}", N, s)).into())
                }
            }
            _ => Ok(GHdr),
        }
    }
}

#[derive(Debug)]
pub struct BodyBytes(pub Vec<u8>);

impl FromBody for BodyBytes {
    type Context = NoContext;
    type Result = DefaultFuture<Self, BoxedError>;
    fn from_body(_: &Arc<http::Request<()>>, body: hyper::Body, _: &NoContext) -> Self::Result {
        Box::new(body.concat2().map(|c| BodyBytes(c.to_vec())).map_err(Into::into))
    }
}

#[derive(Debug, serde::Deserialize)]
pub struct QStruct {
    pub a: u8,
    pub b: Option<String>,
}

// syn 0.15 doesn't parse const arguments
macro_rules! aliases {
    ($($t:ident $g:ident $n:literal)*) => { $(
        pub type $t = Tok<$n>;
        pub type $g = GHdr<$n>;
    )* };
}
aliases!(Tok0 GHdr0 0 Tok1 GHdr1 1 Tok2 GHdr2 2 Tok3 GHdr3 3 Tok4 GHdr4 4 Tok5 GHdr5 5 Tok6 GHdr6 6 Tok7 GHdr7 7 Tok8 GHdr8 8 Tok9 GHdr9 9
    Tok10 GHdr10 10 Tok11 GHdr11 11 Tok12 GHdr12 12 Tok13 GHdr13 13 Tok14 GHdr14 14 Tok15 GHdr15 15 Tok16 GHdr16 16 Tok17 GHdr17 17
    Tok18 GHdr18 18 Tok19 GHdr19 19 Tok20 GHdr20 20 Tok21 GHdr21 21 Tok22 GHdr22 22 Tok23 GHdr23 23 Tok24 GHdr24 24);
