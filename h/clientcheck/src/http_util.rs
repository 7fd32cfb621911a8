use crate::val::{r_name, r_text, r_word};
use bytes::Bytes;
use futures::StreamExt;
use proptest::prelude::*;
use reqwest::header::{HeaderMap, HeaderName, HeaderValue};
use serde::{Deserialize, Serialize};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use vk::gen::{gen, Rng};

pub struct Rt {
    pub rt: tokio::runtime::Runtime,
    pub client: reqwest::Client,
}
impl Rt {
    pub fn new() -> Rt {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let client = reqwest::Client::builder()
            .no_proxy()
            .pool_max_idle_per_host(0)
            .redirect(reqwest::redirect::Policy::none())
            .build()
            .unwrap();
        Rt { rt, client }
    }
    /// Runs a case; a case that hangs is an error of the check, not a verdict.
    pub fn block<F: std::future::Future>(&self, f: F) -> F::Output {
        self.rt.block_on(async {
            match tokio::time::timeout(Duration::from_secs(30), f).await {
                Ok(x) => x,
                Err(_) => {
                    eprintln!("check error: a case did not finish within 30 s");
                    std::process::exit(4)
                }
            }
        })
    }
}

/// A response delivered without a network: chunks, then a clean end or a failure.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Delivery {
    pub status: u16,
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<u8>,
    /// cut points of the body
    pub cuts: Vec<u16>,
    /// fail after this many chunks (if within range)
    pub fail_after: Option<u8>,
    /// return Pending between chunks
    pub pauses: bool,
}

impl Delivery {
    pub fn chunks(&self) -> Vec<Bytes> {
        chunks(&self.body, &self.cuts)
    }
    pub fn header_map(&self) -> HeaderMap {
        let mut h = HeaderMap::new();
        for (k, v) in &self.headers {
            h.append(
                HeaderName::from_bytes(k.as_bytes()).unwrap(),
                HeaderValue::from_bytes(v).unwrap(),
            );
        }
        h
    }
    /// How many chunks arrive before the failure, if there is one.
    pub fn failing_at(&self) -> Option<usize> {
        self.fail_after.map(|n| n as usize % (self.chunks().len() + 1))
    }
    pub fn url(&self) -> reqwest::Url {
        reqwest::Url::parse(&format!("http://h:{}/a%20b/{}?q=%31#f", 1000 + self.status, self.cuts.len())).unwrap()
    }
    pub fn response(&self) -> reqwest::Response {
        let fail = self.failing_at();
        let mut items: Vec<Result<Bytes, std::io::Error>> = self.chunks().into_iter().map(Ok).collect();
        if let Some(n) = fail {
            items.truncate(n);
            items.push(Err(std::io::Error::other("injected transport failure")));
        }
        let pauses = self.pauses;
        let st = futures::stream::iter(items).then(move |x| async move {
            if pauses {
                tokio::task::yield_now().await;
            }
            x
        });
        use reqwest::ResponseBuilderExt;
        let mut r = http::Response::builder().url(self.url()).body(reqwest::Body::wrap_stream(st)).unwrap();
        *r.version_mut() = [http::Version::HTTP_11, http::Version::HTTP_2, http::Version::HTTP_10][self.status as usize % 3];
        *r.status_mut() = http::StatusCode::from_u16(self.status).unwrap();
        *r.headers_mut() = self.header_map();
        reqwest::Response::from(r)
    }
}

pub fn chunks(body: &[u8], cuts: &[u16]) -> Vec<Bytes> {
    let mut pts: Vec<usize> = cuts.iter().map(|c| *c as usize % (body.len() + 1)).collect();
    pts.push(0);
    pts.push(body.len());
    pts.sort_unstable();
    // equal cut points mean empty chunks; an empty body is none or one
    if body.is_empty() {
        pts.truncate(1 + cuts.len() % 2);
    }
    pts.windows(2).map(|w| Bytes::copy_from_slice(&body[w[0]..w[1]])).collect()
}

pub fn r_status(r: &mut Rng) -> u16 {
    match r.weighted(&[3, 1, 1, 4, 1]) {
        0 => 200,
        1 => 204,
        2 => 201,
        3 => r.range(200, 599) as u16,
        _ => r.range(100, 999) as u16,
    }
}
/// Headers that mean something to some program.
const TELLING: &[(&str, &[&str])] = &[
    ("content-type", &["application/json", "application/json; charset=utf-8", "application/json; charset=utf-16", "application/json;charset=ISO-8859-1", "application/problem+json", "application/vnd.api+json", "application/x-ndjson", "application/json-seq", "text/json", "text/html", "text/html; charset=iso-8859-1", "text/plain", "text/plain; charset=windows-1252", "text/event-stream", "application/octet-stream", "application/xml", "application/x-www-form-urlencoded", "multipart/form-data; boundary=x", "image/png", "APPLICATION/JSON", "json", "", "*/*", "application/cbor"]),
    ("content-encoding", &["gzip", "deflate", "br", "zstd", "identity", "x-gzip", "gzip, br", ""]),
    ("content-range", &["bytes 0-9/100", "bytes */0", "items 0-9/*"]),
    ("content-language", &["en", "de-DE"]),
    ("content-disposition", &["attachment; filename=\"a b\"", "inline"]),
    ("content-location", &["/x"]),
    ("content-md5", &["1B2M2Y8AsgTpgAmY7PhCfg=="]),
    ("digest", &["sha-256=x"]),
    ("etag", &["\"x\"", "W/\"x\""]),
    ("link", &["<http://h/?page=2>; rel=\"next\""]),
    ("retry-after", &["0", "120", "Wed, 21 Oct 2015 07:28:00 GMT"]),
    ("location", &["/", "http://h/x", "//evil"]),
    ("set-cookie", &["a=b", "a=b; HttpOnly"]),
    ("www-authenticate", &["Basic realm=\"x\"", "Bearer"]),
    ("cache-control", &["no-store", "max-age=0"]),
    ("x-content-type-options", &["nosniff"]),
    ("x-request-id", &["00000000-0000-0000-0000-000000000000", "abc"]),
    ("x-error-code", &["1", "InvalidRequest"]),
    ("x-total-count", &["0", "100"]),
    ("grpc-status", &["0", "13"]),
    ("status", &["500", "200 OK"]),
    ("deprecation", &["true"]),
    ("sunset", &["x"]),
    ("warning", &["199 - \"x\""]),
    ("api-version", &["1", "v2"]),
    ("date", &["Wed, 21 Oct 2015 07:28:00 GMT"]),
    ("server", &["x"]),
    ("vary", &["*"]),
    ("age", &["0", "99999"]),
    ("accept-ranges", &["none", "bytes"]),
    ("last-modified", &["x"]),
    ("alt-svc", &["clear"]),
    ("x-http-method-override", &["DELETE"]),
];
fn letters(r: &mut Rng, set: &str, max: usize) -> String {
    let b = set.as_bytes();
    (0..1 + r.below(max)).map(|_| b[r.below(b.len())] as char).collect()
}
fn name_ok(s: &str) -> bool {
    !s.is_empty() && HeaderName::from_bytes(s.as_bytes()).is_ok_and(|n| n.as_str() == s)
}
pub fn value_ok(b: &[u8]) -> bool {
    HeaderValue::from_bytes(b).is_ok()
}
fn r_header_value(r: &mut Rng) -> Vec<u8> {
    match r.weighted(&[4, 1, 1, 3]) {
        0 => {
            let s: String = (0..1 + r.below(14)).map(|_| r.range(32, 126) as u8 as char).collect();
            s.trim().as_bytes().to_vec()
        }
        1 => vec![],
        2 => (0..1 + r.below(4)).map(|_| *r.pick(&[0xc3u8, 0xa9, 0xff, b'a'])).collect(),
        _ => {
            let w = r_text(r).trim().as_bytes().to_vec();
            if value_ok(&w) {
                w
            } else {
                b"v".to_vec()
            }
        }
    }
}
pub fn r_headers(r: &mut Rng) -> Vec<(String, Vec<u8>)> {
    (0..r.below(6))
        .map(|_| match r.below(4) {
            0 | 1 => {
                let (n, vs) = r.pick(TELLING);
                (n.to_string(), if r.chance(80) { r.pick(vs).as_bytes().to_vec() } else { r_header_value(r) })
            }
            2 => (format!("x-{}", letters(r, "abcdefghijklmnopqrstuvwxyz0123456789-", 8)), r_header_value(r)),
            _ => {
                let w = r_word(r).to_lowercase();
                let hop = ["content-length", "transfer-encoding", "connection", "upgrade", "trailer", "te", "keep-alive", "chunked", "close", "host"];
                (if name_ok(&w) && !hop.contains(&w.as_str()) { w } else { "x-other".into() }, r_header_value(r))
            }
        })
        .collect()
}
pub fn header_ok(h: &(String, Vec<u8>)) -> bool {
    name_ok(&h.0) && value_ok(&h.1)
}
/// Headers that are about the connection or the body's length: only where no
/// real connection interprets them.
fn r_hop_headers(r: &mut Rng) -> Vec<(String, Vec<u8>)> {
    if r.chance(66) {
        return vec![];
    }
    let name = ["content-length", "transfer-encoding", "connection", "keep-alive", "upgrade", "trailer", "te", "proxy-authenticate"];
    (0..1 + r.below(3))
        .map(|_| {
            let v = match r.below(3) {
                0 => r.below(5000).to_string(),
                1 => r.pick(&["chunked", "gzip, chunked", "close", "keep-alive", "Upgrade", "websocket", "h2c", "0", "timeout=5"]).to_string(),
                _ => letters(r, "abcdefghijklmnopqrstuvwxyz", 9),
            };
            (r.pick(&name).to_string(), v.into_bytes())
        })
        .collect()
}
/// Now and then a great many headers, or long ones.
fn r_bulk_headers(r: &mut Rng) -> Vec<(String, Vec<u8>)> {
    let n = *r.pick(&[0, 10, 17, 33, 65, 101, 129, 257, 1000]);
    let long = r.chance(30);
    let spread = *r.pick(&[1, 3, 1000]);
    (0..n + long as usize).map(|i| (format!("x-h{}", i % spread), if long && i == n / 2 { vec![b'v'; 1 + r.below(70_000)] } else { i.to_string().into_bytes() })).collect()
}
pub fn valid_delivery(d: &Delivery) -> bool {
    (100..1000).contains(&d.status) && d.headers.iter().all(header_ok)
}
pub fn r_delivery(r: &mut Rng, body: Vec<u8>, fails: bool) -> Delivery {
    let mut d = r_delivery0(r, body, fails);
    d.headers.extend(r_hop_headers(r));
    if r.chance(2) {
        d.headers.extend(r_bulk_headers(r));
    }
    d
}
pub fn delivery(body: fn(&mut Rng) -> Vec<u8>, fails: bool) -> BoxedStrategy<Delivery> {
    gen(
        move |r| {
            let b = body(r);
            r_delivery(r, b, fails)
        },
        valid_delivery,
    )
    .boxed()
}
fn r_delivery0(r: &mut Rng, body: Vec<u8>, fails: bool) -> Delivery {
    Delivery {
        status: r_status(r),
        headers: r_headers(r),
        body,
        cuts: (0..r.below(5)).map(|_| r.u64() as u16).collect(),
        fail_after: (fails && r.chance(35)).then(|| r.u64() as u8),
        pauses: r.chance(50),
    }
}
pub fn no_body(_: &mut Rng) -> Vec<u8> {
    vec![]
}

pub fn r_json(r: &mut Rng, depth: usize) -> serde_json::Value {
    use serde_json::Value as J;
    match if depth == 0 { r.below(7) } else { r.below(10) } {
        0 => J::Null,
        1 => r.chance(50).into(),
        2 => (r.u64() as i64).into(),
        3 => crate::val::r_int(r).into(),
        4 => r.range(-100, 100).into(),
        5 => crate::val::r_float(r).into(),
        6 => r_text(r).into(),
        7 | 8 => (0..r.below(4)).map(|_| r_json(r, depth - 1)).collect::<Vec<_>>().into(),
        _ => J::Object((0..r.below(4)).map(|_| (r_name(r), r_json(r, depth - 1))).collect()),
    }
}

/// Reads one request head (and body by content-length) from a socket.
pub async fn read_request(s: &mut TcpStream) -> Vec<u8> {
    let mut buf = vec![];
    let mut b = [0u8; 4096];
    loop {
        if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            let head = String::from_utf8_lossy(&buf[..p]).to_ascii_lowercase();
            let cl = head
                .lines()
                .find_map(|l| l.strip_prefix("content-length:").map(|v| v.trim().parse::<usize>().unwrap()))
                .unwrap_or(0);
            if buf.len() >= p + 4 + cl {
                return buf;
            }
        }
        let n = s.read(&mut b).await.unwrap_or(0);
        if n == 0 {
            return buf;
        }
        buf.extend_from_slice(&b[..n]);
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Framing {
    Length,
    Chunked,
    Close,
}
/// A response over a real socket.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wire {
    pub d: Delivery,
    pub framing: Framing,
}
impl Wire {
    /// Empty chunks leave no trace on a connection.
    pub fn chunks(&self) -> Vec<Bytes> {
        self.d.chunks().into_iter().filter(|c| !c.is_empty()).collect()
    }
    /// Bodies framed by connection close cannot signal truncation.
    pub fn cut_short(&self) -> Option<usize> {
        let n = self.chunks().len();
        if self.framing == Framing::Close || n == 0 {
            None
        } else {
            self.d.fail_after.map(|k| k as usize % (n + 1)).filter(|k| *k < n || self.framing == Framing::Chunked)
        }
    }
    pub fn delivered(&self) -> Vec<u8> {
        match self.cut_short() {
            Some(n) => self.chunks()[..n].concat(),
            None => self.d.body.clone(),
        }
    }
    pub async fn listen(&self) -> (std::net::SocketAddr, tokio::task::JoinHandle<()>) {
        let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
        let a = l.local_addr().unwrap();
        let me = self.clone();
        let h = tokio::spawn(async move {
            let (mut s, _) = l.accept().await.unwrap();
            s.set_nodelay(true).unwrap();
            read_request(&mut s).await;
            let mut head = format!("HTTP/1.1 {} X\r\n", me.d.status).into_bytes();
            for (k, v) in &me.d.headers {
                head.extend_from_slice(k.as_bytes());
                head.extend_from_slice(b": ");
                head.extend_from_slice(v);
                head.extend_from_slice(b"\r\n");
            }
            match me.framing {
                Framing::Length => head.extend_from_slice(format!("content-length: {}\r\n", me.d.body.len()).as_bytes()),
                Framing::Chunked => head.extend_from_slice(b"transfer-encoding: chunked\r\n"),
                Framing::Close => head.extend_from_slice(b"connection: close\r\n"),
            }
            head.extend_from_slice(b"\r\n");
            let _ = s.write_all(&head).await;
            let cut = me.cut_short();
            for (i, c) in me.chunks().iter().enumerate() {
                if cut == Some(i) {
                    break;
                }
                let r = if me.framing == Framing::Chunked {
                    let mut b = format!("{:x}\r\n", c.len()).into_bytes();
                    b.extend_from_slice(c);
                    b.extend_from_slice(b"\r\n");
                    s.write_all(&b).await
                } else {
                    s.write_all(c).await
                };
                if r.is_err() {
                    return;
                }
                if me.d.pauses {
                    tokio::task::yield_now().await;
                }
            }
            if me.framing == Framing::Chunked && cut.is_none() {
                let _ = s.write_all(b"0\r\n\r\n").await;
            }
            let _ = s.shutdown().await;
        });
        (a, h)
    }
}
pub fn r_wire(r: &mut Rng, body: Vec<u8>, fails: bool) -> Wire {
    let mut d = r_delivery0(r, body, fails);
    if !wire_status(d.status) {
        d.status = 200;
    }
    Wire { d, framing: *r.pick(&[Framing::Length, Framing::Chunked, Framing::Close]) }
}
/// 1xx/204/304 have no body on the wire.
fn wire_status(s: u16) -> bool {
    (200..600).contains(&s) && s != 204 && s != 304
}
pub fn valid_wire(w: &Wire) -> bool {
    wire_status(w.d.status) && w.d.headers.iter().all(header_ok)
}
pub fn wire(body: fn(&mut Rng) -> Vec<u8>, fails: bool) -> BoxedStrategy<Wire> {
    gen(
        move |r| {
            let b = body(r);
            r_wire(r, b, fails)
        },
        valid_wire,
    )
    .boxed()
}

/// Large bodies in many chunks.
pub fn r_big_delivery(r: &mut Rng, body: Vec<u8>) -> Delivery {
    let mut d = r_delivery0(r, body, true);
    // cut points are 16 bit; keep some far apart by leaving long tails
    d.cuts = (0..r.below(300)).map(|_| r.u64() as u16).collect();
    let n = d.chunks().len() as u32;
    d.fail_after = d.fail_after.map(|f| ((f as u32 + r.below(256) as u32) % (n + 1)).min(255) as u8);
    d
}
/// Position-dependent content, 8 KB to 600 KB.
pub fn r_big_bytes(r: &mut Rng) -> Vec<u8> {
    let n = 8_000 + r.below(592_000);
    pattern(n, r.u64() as u32)
}
pub fn pattern(n: usize, k: u32) -> Vec<u8> {
    (0..n as u32).map(|i| (i.wrapping_mul(2654435761).wrapping_add(k) >> 13) as u8).collect()
}
pub fn r_body(r: &mut Rng) -> Vec<u8> {
    let noise = |r: &mut Rng, n: usize| (0..n).map(|_| r.u64() as u8).collect::<Vec<u8>>();
    match r.weighted(&[3, 1, 1, 2, 1]) {
        0 => {
            let n = r.below(64);
            noise(r, n)
        }
        1 => vec![],
        2 => {
            let n = 1000 + r.below(4000);
            noise(r, n)
        }
        3 => r_json(r, 3).to_string().into_bytes(),
        _ => r_text(r).into_bytes(),
    }
}

/// A body described by its size, arriving in equal chunks.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bulk {
    pub bytes: u64,
    pub chunk: u64,
    pub key: u32,
    /// how many bytes in ten thousand arrive before a failure
    pub fails: Option<u16>,
    pub pauses: bool,
    pub how: u8,
}
pub fn bulk(max: u64, chunks: u64) -> BoxedStrategy<Bulk> {
    let sizes = crate::val::dict().sizes(max);
    gen(
        move |r| {
            let size = |r: &mut Rng| if r.chance(40) { (max as f64).powf(r.below(1_000_000) as f64 / 1e6) as u64 } else { *r.pick(&sizes) };
            let bytes = size(r);
            let mut chunk = size(r).max(1);
            if bytes / chunk > chunks {
                chunk = bytes / chunks + 1;
            }
            Bulk { bytes, chunk, key: r.u64() as u32, fails: r.chance(30).then(|| r.below(10_001) as u16), pauses: r.chance(20), how: r.u64() as u8 }
        },
        |b| b.chunk > 0 && b.bytes / b.chunk <= 5_000,
    )
    .boxed()
}
impl Bulk {
    /// What arrives, in pieces, and whether it then fails.
    pub fn pieces(&self, body: &Bytes) -> Vec<Bytes> {
        let end = match self.fails {
            Some(k) => (body.len() as u128 * k.min(10_000) as u128 / 10_000) as usize,
            None => body.len(),
        };
        (0..end).step_by(self.chunk as usize).map(|i| body.slice(i..end.min(i + self.chunk as usize))).collect()
    }
    pub fn response(&self, body: &Bytes) -> reqwest::Response {
        let mut items: Vec<Result<Bytes, std::io::Error>> = self.pieces(body).into_iter().map(Ok).collect();
        if self.fails.is_some() {
            items.push(Err(std::io::Error::other("injected transport failure")));
        }
        let pauses = self.pauses;
        let st = futures::stream::iter(items).then(move |x| async move {
            if pauses {
                tokio::task::yield_now().await;
            }
            x
        });
        reqwest::Response::from(http::Response::new(reqwest::Body::wrap_stream(st)))
    }
}

/// Asserts that every sent header is present with all its values in order.
pub fn headers_preserved(d: &Delivery, got: &HeaderMap) -> vk::R {
    let want = d.header_map();
    for k in want.keys() {
        let a: Vec<&[u8]> = want.get_all(k).iter().map(|v| v.as_bytes()).collect();
        let b: Vec<&[u8]> = got.get_all(k).iter().map(|v| v.as_bytes()).collect();
        vk::ensure!(a == b, "header {k}: got {b:?}, response had {a:?}");
    }
    Ok(())
}
