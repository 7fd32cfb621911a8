//! P08 error classification and conversion, P09 error text.
use crate::http_util::*;
use crate::p_resp::same_response;
use crate::val::{nasty_string, r_text};
use bytes::Bytes;
use progenitor_client::{ByteStream, Error, ResponseValue};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::error::Error as _;
use std::fmt::Debug;
use vk::gen::{gen, Rng};
use vk::{ensure, ensure_eq, Case, Ctx, Fail, R};

/// How a reqwest error comes about.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Re {
    BadUrl,
    Connect,
    Body,
    Decode,
    Status(u16),
    BadHeader,
    UpgradeLess,
    /// a body failing with an error that has these causes
    Deep(Vec<String>),
}
#[derive(Debug)]
struct Chain(Vec<String>, Option<Box<Chain>>);
impl Chain {
    fn of(v: &[String]) -> Option<Box<Chain>> {
        let mut at = None;
        for s in v.iter().rev() {
            at = Some(Box::new(Chain(vec![s.clone()], at)));
        }
        at
    }
}
impl std::fmt::Display for Chain {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0[0])?;
        // what an alternate form of a cause says is its own business
        if f.alternate() {
            f.write_str(" (in detail)")?;
        }
        Ok(())
    }
}
impl std::error::Error for Chain {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.1.as_ref().map(|c| &**c as _)
    }
}
fn r_chain(r: &mut Rng) -> Re {
    let n = *r.pick(&[1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 9, 12, 17, 33, 65, 150]);
    let mut one = |r: &mut Rng| if r.chance(6) { crate::val::r_long(r) } else { r_text(r) };
    let same = r.chance(20).then(|| one(r));
    Re::Deep((0..n).map(|_| same.clone().unwrap_or_else(|| one(r))).collect())
}
fn re() -> BoxedStrategy<Re> {
    prop_oneof![
        1 => Just(Re::BadUrl),
        1 => Just(Re::Connect),
        1 => Just(Re::Body),
        1 => Just(Re::Decode),
        3 => (400u16..600).prop_map(Re::Status),
        1 => Just(Re::BadHeader),
        1 => Just(Re::UpgradeLess),
        2 => gen(r_chain, |x| matches!(x, Re::Deep(v) if !v.is_empty())),
    ]
    .boxed()
}
fn plain(status: u16, body: &[u8], fail: bool) -> reqwest::Response {
    Delivery { status, headers: vec![], body: body.to_vec(), cuts: vec![], fail_after: if fail { Some(0) } else { None }, pauses: false }.response()
}
impl Re {
    pub fn make(&self, rt: &Rt) -> reqwest::Error {
        match self {
            Re::BadUrl => rt.client.get("not a url").build().unwrap_err(),
            Re::BadHeader => rt.client.get("http://h/").header("bad name", "x").build().unwrap_err(),
            Re::Connect => rt.block(rt.client.get("http://127.0.0.1:1/x").send()).unwrap_err(),
            Re::Body => rt.block(plain(200, b"abc", true).bytes()).unwrap_err(),
            Re::Decode => rt.block(plain(200, b"abc", false).json::<u8>()).unwrap_err(),
            Re::Status(s) => plain(*s, b"", false).error_for_status().unwrap_err(),
            Re::Deep(v) => {
                let items: Vec<Result<Bytes, Box<Chain>>> = vec![Ok(Bytes::from_static(b"part")), Err(Chain::of(v).unwrap())];
                let r = reqwest::Response::from(http::Response::new(reqwest::Body::wrap_stream(futures::stream::iter(items))));
                rt.block(r.bytes()).unwrap_err()
            }
            Re::UpgradeLess => rt.block(plain(101, b"", false).upgrade()).unwrap_err(),
        }
    }
}

/// An error, built deterministically from data (so it can be built twice).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Er {
    InvalidRequest(String),
    PreHook(String),
    PostHook(String),
    Communication(Re),
    Upgrade(Re),
    Body(Re),
    Response(Delivery, String),
    Payload(Vec<u8>, Je),
    Unexpected(Delivery),
}
/// How a payload failed to decode.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Je {
    /// what the bytes are not
    Never,
    /// something the type itself objected to
    Custom(String),
    /// reading broke off
    Io(String),
    IoKind(u8),
}
fn je() -> BoxedStrategy<Je> {
    prop_oneof![4 => Just(Je::Never), 1 => message().prop_map(Je::Custom), 1 => message().prop_map(Je::Io), 1 => (0u8..4).prop_map(Je::IoKind)].boxed()
}
struct Broken(Option<std::io::Error>);
impl std::io::Read for Broken {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        Err(self.0.take().unwrap_or_else(|| std::io::ErrorKind::Other.into()))
    }
}
impl Je {
    fn make(&self, b: &[u8]) -> serde_json::Error {
        use std::io::ErrorKind as K;
        let io = |e| serde_json::from_reader::<_, Never>(Broken(Some(e))).unwrap_err();
        match self {
            Je::Never => serde_json::from_slice::<Never>(b).unwrap_err(),
            Je::Custom(s) => serde::de::Error::custom(s),
            Je::Io(s) => io(std::io::Error::other(s.clone())),
            Je::IoKind(k) => io([K::UnexpectedEof, K::ConnectionReset, K::TimedOut, K::InvalidData][*k as usize % 4].into()),
        }
    }
}
fn message() -> BoxedStrategy<String> {
    gen(
        |r| match r.below(40) {
            0..3 => crate::val::r_long(r),
            3 => {
                let (u, n) = (r_text(r), 1usize << r.below(21));
                crate::val::stretch(&u, n + r.below(3) - 1)
            }
            _ => r_text(r),
        },
        |_| true,
    )
    .boxed()
}
fn er() -> BoxedStrategy<Er> {
    prop_oneof![
        1 => message().prop_map(Er::InvalidRequest),
        1 => message().prop_map(Er::PreHook),
        1 => message().prop_map(Er::PostHook),
        1 => re().prop_map(Er::Communication),
        1 => re().prop_map(Er::Upgrade),
        1 => re().prop_map(Er::Body),
        2 => (delivery(no_body, false), message()).prop_map(|(d, s)| Er::Response(d, s)),
        2 => gen(|r| if r.chance(3) { let n = 1usize << r.below(19); pattern(n + r.below(3) - 1, r.u64() as u32) } else { r_body(r) }, |_| true).prop_flat_map(|b| je().prop_map(move |j| Er::Payload(b.clone(), j))),
        2 => delivery(r_body, true).prop_map(Er::Unexpected),
    ]
    .boxed()
}
/// Payload type of documented errors; its Debug form is recognisable.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ApiErr {
    message: String,
}
#[derive(Debug, PartialEq, Deserialize)]
struct Never {
    #[allow(dead_code)]
    never: [u8; 3],
}
impl Er {
    fn make<E>(&self, rt: &Rt, payload: impl FnOnce(&str) -> E) -> Error<E> {
        match self {
            Er::InvalidRequest(s) => Error::InvalidRequest(s.clone()),
            Er::PreHook(s) => Error::PreHookError(s.clone()),
            Er::PostHook(s) => Error::PostHookError(s.clone()),
            Er::Communication(r) => Error::CommunicationError(r.make(rt)),
            Er::Upgrade(r) => Error::InvalidUpgrade(r.make(rt)),
            Er::Body(r) => Error::ResponseBodyError(r.make(rt)),
            Er::Response(d, s) => Error::ErrorResponse(ResponseValue::new(payload(s), http::StatusCode::from_u16(d.status).unwrap(), d.header_map())),
            Er::Payload(b, j) => Error::InvalidResponsePayload(Bytes::copy_from_slice(b), j.make(b)),
            Er::Unexpected(d) => Error::UnexpectedResponse(d.response()),
        }
    }
    fn kind(&self) -> &'static str {
        match self {
            Er::InvalidRequest(_) => "InvalidRequest",
            Er::PreHook(_) => "PreHook",
            Er::PostHook(_) => "PostHook",
            Er::Communication(_) => "Communication",
            Er::Upgrade(_) => "Upgrade",
            Er::Body(_) => "Body",
            Er::Response(..) => "Response",
            Er::Payload(..) => "Payload",
            Er::Unexpected(_) => "Unexpected",
        }
    }
}
fn kind_of<E>(e: &Error<E>) -> &'static str {
    match e {
        Error::InvalidRequest(_) => "InvalidRequest",
        Error::PreHookError(_) => "PreHook",
        Error::PostHookError(_) => "PostHook",
        Error::CommunicationError(_) => "Communication",
        Error::InvalidUpgrade(_) => "Upgrade",
        Error::ResponseBodyError(_) => "Body",
        Error::ErrorResponse(_) => "Response",
        Error::InvalidResponsePayload(..) => "Payload",
        Error::UnexpectedResponse(_) => "Unexpected",
    }
}
fn same_re(a: &reqwest::Error, b: &reqwest::Error) -> R {
    ensure_eq!(format!("{a:?}"), format!("{b:?}"), "underlying error");
    ensure!(a.status() == b.status() && a.url() == b.url(), "underlying error's status or url changed");
    Ok(())
}

/// `e` is the error `er` describes, nothing lost.
fn same<E: PartialEq + Debug>(rt: &Rt, er: &Er, e: Error<E>, payload: impl FnOnce(&str) -> E) -> R {
    ensure_eq!(kind_of(&e), er.kind(), "kind of error");
    match (er, e) {
        (Er::InvalidRequest(s), Error::InvalidRequest(g)) | (Er::PreHook(s), Error::PreHookError(g)) | (Er::PostHook(s), Error::PostHookError(g)) => ensure_eq!(g, *s, "message"),
        (Er::Communication(r), Error::CommunicationError(g)) | (Er::Upgrade(r), Error::InvalidUpgrade(g)) | (Er::Body(r), Error::ResponseBodyError(g)) => same_re(&g, &r.make(rt))?,
        (Er::Response(d, s), Error::ErrorResponse(rv)) => {
            ensure_eq!(rv.status().as_u16(), d.status, "status");
            ensure_eq!(*rv.headers(), d.header_map(), "headers");
            ensure_eq!(rv.into_inner(), payload(s), "payload");
        }
        (Er::Payload(b, j), Error::InvalidResponsePayload(g, je)) => {
            ensure!(g == *b, "payload bytes changed");
            ensure_eq!(je.to_string(), j.make(b).to_string(), "decoding error");
        }
        (Er::Unexpected(d), Error::UnexpectedResponse(r)) => same_response(rt, d, r)?,
        _ => unreachable!(),
    }
    Ok(())
}
fn want_status(rt: &Rt, er: &Er) -> Option<Option<u16>> {
    match er {
        Er::InvalidRequest(_) | Er::PreHook(_) | Er::PostHook(_) => Some(None),
        Er::Communication(r) | Er::Upgrade(r) | Er::Body(r) => Some(r.make(rt).status().map(|s| s.as_u16())),
        Er::Response(d, _) | Er::Unexpected(d) => Some(Some(d.status)),
        // holds the payload's bytes, not the response
        Er::Payload(..) => Some(None),
    }
}

pub fn p08(cx: &mut Ctx) {
    cx.rule("All nine kinds of error with generated messages, payloads, responses (status, headers, body still readable or failing) and real reqwest errors of seven origins, with four payload types. Non-trivial: the error carries a response, bytes or a wrapped error.");
    let rt = Rt::new();
    cx.run("status-and-untyped", 60_000, 300_000, (er(), 0u8..4), |(e, ty), c| {
        c.label(e.kind());
        c.nontrivial_if(!matches!(e, Er::InvalidRequest(_) | Er::PreHook(_) | Er::PostHook(_)));
        fn go<E>(rt: &Rt, er: &Er, p: impl Fn(&str) -> E, same_typed: impl Fn(Error<E>) -> R) -> R {
            let e = er.make(rt, &p);
            if let Some(w) = want_status(rt, er) {
                ensure_eq!(e.status().map(|s| s.as_u16()), w, "status()");
            }
            let before = e.status();
            let u: Error<()> = e.into_untyped();
            ensure_eq!(u.status(), before, "status() after conversion");
            same(rt, er, u, |_| ())?;
            same_typed(er.make(rt, &p))
        }
        match ty {
            0 => go(&rt, e, |s| ApiErr { message: s.into() }, |x| same(&rt, e, x, |s| ApiErr { message: s.into() })),
            1 => go(&rt, e, |_| (), |x| same(&rt, e, x, |_| ())),
            2 => go(&rt, e, |s| serde_json::json!({ "m": s }), |x| same(&rt, e, x, |s| serde_json::json!({ "m": s }))),
            _ => go(&rt, e, |_| ByteStream::new(Box::pin(futures::stream::empty())), |_| Ok(())),
        }
    });
    cx.run("conversions", 6_000, 20_000, re(), |r, c| {
        c.nontrivial();
        let e: Error<ApiErr> = r.make(&rt).into();
        ensure_eq!(e.status(), r.make(&rt).status(), "status");
        match e {
            Error::CommunicationError(g) => same_re(&g, &r.make(&rt)),
            e => Err(Fail::new(format!("a transport error became {}", kind_of(&e)))),
        }
    });
    cx.run("bad-header-values", 8_000, 30_000, proptest::collection::vec(any::<u8>(), 0..6), |b, c| {
        // exactly what generated code does with a header parameter's text
        let s: String = b.iter().map(|x| *x as char).collect();
        let r: Result<reqwest::header::HeaderValue, Error<ApiErr>> = (|| Ok(reqwest::header::HeaderValue::from_str(&s)?))();
        let legal = s.bytes().all(|b| (32..127).contains(&b) || b == b'\t' );
        match r {
            Ok(v) => {
                ensure!(legal || !s.is_ascii(), "illegal header text {s:?} accepted");
                ensure!(v.as_bytes() == s.as_bytes(), "header text changed");
            }
            Err(Error::InvalidRequest(m)) => {
                c.nontrivial();
                ensure!(!m.is_empty(), "no message");
                ensure!(!legal, "legal header text {s:?} refused");
            }
            Err(e) => return Err(Fail::new(format!("illegal header text became {}", kind_of(&e)))),
        }
        Ok(())
    });
}

fn causes(e: &dyn std::error::Error) -> Vec<String> {
    let mut v = vec![];
    let mut s = e.source();
    while let Some(x) = s {
        v.push(x.to_string());
        s = x.source();
    }
    v
}

pub fn p09(cx: &mut Ctx) {
    cx.rule("The same errors, formatted four ways. Non-trivial: the error wraps another error, or carries a non-empty message or payload.");
    let rt = Rt::new();
    cx.run("text", 60_000, 300_000, (er(), any::<bool>()), |(er, streamy), c| {
        c.label(er.kind());
        if *streamy {
            text(&rt, er, er.make(&rt, |_| ByteStream::new(Box::pin(futures::stream::empty()))), None, c)
        } else {
            let p = |s: &str| ApiErr { message: s.into() };
            let shown = match er {
                Er::Response(_, s) => Some(format!("{:?}", p(s))),
                _ => None,
            };
            text(&rt, er, er.make(&rt, p), shown, c)
        }
    });
    // kinds are told apart by their text alone
    cx.run("kinds-distinct", 4_000, 20_000, (nasty_string(), re()), |(s, r), c| {
        c.nontrivial();
        let d = Delivery { status: 404, headers: vec![], body: vec![], cuts: vec![], fail_after: None, pauses: false };
        let all = [
            Er::InvalidRequest(s.clone()),
            Er::PreHook(s.clone()),
            Er::PostHook(s.clone()),
            Er::Communication(r.clone()),
            Er::Upgrade(r.clone()),
            Er::Body(r.clone()),
            Er::Response(d.clone(), s.clone()),
            Er::Payload(s.clone().into_bytes(), Je::Never),
            Er::Unexpected(d),
        ];
        let texts: Vec<String> = all.iter().map(|e| e.make(&rt, |s| ApiErr { message: s.into() }).to_string()).collect();
        for i in 0..texts.len() {
            for j in 0..i {
                ensure!(texts[i] != texts[j], "two kinds of error read the same: {:?}", texts[i]);
            }
        }
        Ok(())
    });
}

fn text<E>(rt: &Rt, er: &Er, e: Error<E>, payload: Option<String>, c: &mut Case) -> R
where
    Error<E>: std::error::Error + 'static,
{
    let d = e.to_string();
    ensure_eq!(format!("{e:?}"), d, "Debug vs Display");
    let chain = causes(&e);
    let wraps = matches!(er, Er::Communication(_) | Er::Upgrade(_) | Er::Body(_) | Er::Payload(..));
    ensure_eq!(e.source().is_some(), wraps, "has a cause ({})", er.kind());
    // the alternate form: the same text, then every deeper cause once, in order
    let mut want = d.clone();
    for s in chain.iter().skip(1) {
        want.push_str(": ");
        want.push_str(s);
    }
    ensure_eq!(format!("{e:#}"), want, "alternate form");
    ensure_eq!(format!("{e:#?}"), want, "alternate Debug form");
    c.nontrivial_if(wraps);
    c.label(format!("{} causes", chain.len()));
    let has = |what: &str, part: &str| -> R {
        ensure!(d.contains(part), "text {d:?} does not show the {what} {part:?}");
        Ok(())
    };
    match er {
        Er::InvalidRequest(s) | Er::PreHook(s) | Er::PostHook(s) => {
            c.nontrivial_if(!s.is_empty());
            has("message", s)?
        }
        Er::Communication(r) | Er::Upgrade(r) | Er::Body(r) => {
            let x = r.make(rt);
            has("underlying error", &x.to_string())?;
            ensure_eq!(chain.first().cloned(), Some(x.to_string()), "cause");
            ensure_eq!(chain.len(), 1 + causes(&x).len(), "length of the cause chain");
        }
        Er::Response(dl, _) => {
            c.nontrivial();
            has("status", &dl.status.to_string())?;
            for (k, v) in &dl.header_map() {
                has("header name", k.as_str())?;
                has("header value", &format!("{v:?}"))?;
            }
            if let Some(p) = payload {
                has("payload", &p)?;
            }
        }
        Er::Payload(b, j) => {
            c.nontrivial_if(!b.is_empty());
            has("payload", &format!("{:?}", Bytes::copy_from_slice(b)))?;
            has("decoding error", &j.make(b).to_string())?;
        }
        Er::Unexpected(dl) => {
            c.nontrivial();
            has("status", &dl.status.to_string())?;
        }
    }
    Ok(())
}
