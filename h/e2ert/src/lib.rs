//! What generated drivers run on: a scripted, recording server, and the forms
//! in which outcomes are reported.
use futures::future::BoxFuture;
use futures::{FutureExt, StreamExt};
use progenitor_client::{ByteStream, Error, ResponseValue};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, VecDeque};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

pub use anyhow;
pub use clap;
pub use futures;
pub use httpmock;
pub use reqwest;
pub use serde_json;

#[derive(Deserialize, Clone, Debug)]
pub struct Reply {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    #[serde(with = "hexed")]
    pub body: Vec<u8>,
    /// Close after this many bytes of the body.
    pub cut: Option<usize>,
}

#[derive(Serialize, Clone, Debug, Default)]
pub struct Seen {
    pub method: String,
    pub target: String,
    pub headers: Vec<(String, String)>,
    #[serde(with = "hexed")]
    pub body: Vec<u8>,
}

pub mod hexed {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn enc(b: &[u8]) -> String {
        b.iter().map(|x| format!("{x:02x}")).collect()
    }
    pub fn dec(s: &str) -> Vec<u8> {
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    }
    pub fn serialize<S: Serializer>(b: &[u8], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&enc(b))
    }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<Vec<u8>, D::Error> {
        Ok(dec(&String::deserialize(d)?))
    }
}

#[derive(Deserialize, Clone, Debug)]
pub struct Scenario {
    pub key: String,
    /// Arguments in the order they are given; a builder may see one twice.
    pub args: Vec<(String, Value)>,
    pub script: Vec<Reply>,
    #[serde(default)]
    pub take: Option<usize>,
    #[serde(default)]
    pub opts: Value,
}

/// What a driver gets to make its call.
#[derive(Clone, Debug)]
pub struct Cx {
    pub base: String,
    pub http: reqwest::Client,
    pub args: Vec<(String, Value)>,
    pub take: Option<usize>,
    pub opts: Value,
    pub notes: Arc<Mutex<Vec<Value>>>,
    server: Arc<Mutex<State>>,
}
impl Cx {
    fn get(&self, k: &str) -> Option<&Value> {
        self.args.iter().rev().find(|(n, _)| n == k).map(|(_, v)| v)
    }
    pub fn note(&self, v: Value) {
        self.notes.lock().unwrap().push(v);
    }
    pub fn opt(&self, k: &str) -> bool {
        self.opts.get(k).is_some_and(|v| v != &json!(false))
    }
}
pub fn v<T: DeserializeOwned>(v: &Value) -> T {
    serde_json::from_value(v.clone()).unwrap_or_else(|e| panic!("driver: argument {v}: {e}"))
}
pub fn j<T: DeserializeOwned>(c: &Cx, k: &str) -> T {
    v(c.get(k).unwrap_or_else(|| panic!("driver: no argument {k}")))
}
pub fn jo<T: DeserializeOwned>(c: &Cx, k: &str) -> Option<T> {
    c.get(k).map(v)
}
pub fn bytes(v: &Value) -> Vec<u8> {
    hexed::dec(v.as_str().expect("driver: bytes"))
}
pub fn jb(c: &Cx, k: &str) -> Vec<u8> {
    bytes(c.get(k).unwrap_or_else(|| panic!("driver: no argument {k}")))
}
pub fn bad(v: &Value) -> bool {
    v.get("$bad").is_some()
}

// ------------------------------------------------------------------- hooks

tokio::task_local! {
    static CX: Cx;
}
/// The inner type of clients that have one.
#[derive(Clone, Debug)]
pub struct Inner(pub Cx);

/// Something to tell clients apart by.
pub fn decoy(cx: &Cx) -> Inner {
    Inner(Cx { notes: Default::default(), ..cx.clone() })
}
pub fn is_mine(cx: &Cx, i: &Inner) -> bool {
    Arc::ptr_eq(&cx.notes, &i.0.notes)
}
pub fn shareable<T: Clone + Send + Sync + std::fmt::Debug + 'static>(t: T) -> T {
    t
}
/// A request made with the client's own HTTP client.
pub async fn probe(cx: &Cx, c: &reqwest::Client) {
    if cx.opt("probe") {
        let r = c.get(format!("{}/probe", cx.base)).send().await;
        cx.note(json!(["probe", r.is_ok()]));
    }
}

fn hook(name: &str, with: Option<&Inner>, detail: Value) {
    CX.with(|c| {
        if let Some(i) = with {
            if !Arc::ptr_eq(&i.0.notes, &c.notes) {
                c.note(json!(["foreign inner"]));
            }
        }
        c.note(json!([name, detail]));
    })
}
fn fails(name: &str) -> Result<(), String> {
    // once the given number of calls have passed
    CX.with(|c| match c.opts.get(name).and_then(Value::as_u64) {
        Some(n) => {
            let seen = c.notes.lock().unwrap().iter().filter(|x| x[0] == json!(name)).count() as u64;
            if seen > n {
                Err(format!("{name} says no"))
            } else {
                Ok(())
            }
        }
        None => Ok(()),
    })
}
fn request(r: &reqwest::Request) -> Value {
    let target = match r.url().query() {
        Some(q) => format!("{}?{q}", r.url().path()),
        None => r.url().path().to_string(),
    };
    let body = r.body().and_then(|b| b.as_bytes()).map(hexed::enc);
    json!({"method": r.method().as_str(), "target": target, "headers": headers(r.headers()), "body": body})
}
fn result(r: &reqwest::Result<reqwest::Response>) -> Value {
    match r {
        Ok(r) => json!(r.status().as_u16()),
        Err(_) => json!("error"),
    }
}
type Res = reqwest::Result<reqwest::Response>;
pub fn pre_hook(r: &reqwest::Request) {
    hook("pre_hook", None, request(r))
}
pub fn pre_hook_inner(i: &Inner, r: &reqwest::Request) {
    hook("pre_hook", Some(i), request(r))
}
fn amend(r: &mut reqwest::Request) -> Result<(), String> {
    if CX.with(|c| c.opt("amend")) {
        r.headers_mut().insert("x-hook", "was here".parse().unwrap());
    }
    fails("pre_hook_async")
}
pub async fn pre_hook_async(r: &mut reqwest::Request) -> Result<(), String> {
    hook("pre_hook_async", None, request(r));
    tokio::task::yield_now().await;
    amend(r)
}
pub async fn pre_hook_async_inner(i: &Inner, r: &mut reqwest::Request) -> Result<(), String> {
    hook("pre_hook_async", Some(i), request(r));
    tokio::task::yield_now().await;
    amend(r)
}
pub fn post_hook(r: &Res) {
    hook("post_hook", None, result(r))
}
pub fn post_hook_inner(i: &Inner, r: &Res) {
    hook("post_hook", Some(i), result(r))
}
pub async fn post_hook_async(r: &Res) -> Result<(), String> {
    hook("post_hook_async", None, result(r));
    tokio::task::yield_now().await;
    fails("post_hook_async")
}
pub async fn post_hook_async_inner(i: &Inner, r: &Res) -> Result<(), String> {
    hook("post_hook_async", Some(i), result(r));
    tokio::task::yield_now().await;
    fails("post_hook_async")
}

// ---------------------------------------------------------------- outcomes

fn headers(h: &reqwest::header::HeaderMap) -> Value {
    h.iter().map(|(k, v)| json!([k.as_str(), String::from_utf8_lossy(v.as_bytes())])).collect()
}
pub fn ok_json<T: Serialize>(r: ResponseValue<T>) -> Value {
    let (s, h) = (r.status().as_u16(), headers(r.headers()));
    json!({"ok": {"status": s, "headers": h, "json": serde_json::to_value(r.into_inner()).unwrap()}})
}
async fn drain(mut b: impl futures::Stream<Item = reqwest::Result<bytes::Bytes>> + Unpin) -> (Vec<u8>, bool) {
    let mut out = vec![];
    while let Some(x) = b.next().await {
        match x {
            Ok(c) => out.extend_from_slice(&c),
            Err(_) => return (out, true),
        }
    }
    (out, false)
}
pub async fn ok_raw(r: ResponseValue<ByteStream>) -> Value {
    let (s, h) = (r.status().as_u16(), headers(r.headers()));
    let (b, broken) = drain(r.into_inner_stream()).await;
    json!({"ok": {"status": s, "headers": h, "raw": hexed::enc(&b), "broken": broken}})
}
pub async fn ok_up(r: ResponseValue<reqwest::Upgraded>) -> Value {
    let (s, h) = (r.status().as_u16(), headers(r.headers()));
    let mut u = r.into_inner();
    let _ = u.write_all(b"ping").await;
    let mut b = [0u8; 4];
    let ok = u.read_exact(&mut b).await.is_ok() && &b == b"ping";
    json!({"ok": {"status": s, "headers": h, "upgraded": ok}})
}
/// Errors other than documented error responses.
async fn other<E>(e: Error<E>) -> Value {
    match e {
        Error::InvalidRequest(m) => json!({"err": "InvalidRequest", "msg": m}),
        Error::CommunicationError(_) => json!({"err": "CommunicationError"}),
        Error::InvalidUpgrade(_) => json!({"err": "InvalidUpgrade"}),
        Error::ErrorResponse(_) => unreachable!(),
        Error::ResponseBodyError(_) => json!({"err": "ResponseBodyError"}),
        Error::InvalidResponsePayload(b, _) => json!({"err": "InvalidResponsePayload", "raw": hexed::enc(&b)}),
        Error::UnexpectedResponse(r) => {
            let (s, h) = (r.status().as_u16(), headers(r.headers()));
            let (b, broken) = drain(r.bytes_stream()).await;
            json!({"err": "UnexpectedResponse", "status": s, "headers": h, "raw": hexed::enc(&b), "broken": broken})
        }
        Error::PreHookError(m) => json!({"err": "PreHookError", "msg": m}),
        Error::PostHookError(m) => json!({"err": "PostHookError", "msg": m}),
    }
}
pub async fn err_json<E: Serialize>(e: Error<E>) -> Value {
    match e {
        Error::ErrorResponse(r) => {
            let (s, h) = (r.status().as_u16(), headers(r.headers()));
            json!({"err": "ErrorResponse", "status": s, "headers": h, "json": serde_json::to_value(r.into_inner()).unwrap()})
        }
        e => other(e).await,
    }
}
pub async fn err_raw(e: Error<ByteStream>) -> Value {
    match e {
        Error::ErrorResponse(r) => {
            let (s, h) = (r.status().as_u16(), headers(r.headers()));
            let (b, broken) = drain(r.into_inner_stream()).await;
            json!({"err": "ErrorResponse", "status": s, "headers": h, "raw": hexed::enc(&b), "broken": broken})
        }
        e => other(e).await,
    }
}
pub async fn err_up(e: Error<reqwest::Upgraded>) -> Value {
    match e {
        Error::ErrorResponse(r) => json!({"err": "ErrorResponse", "status": r.status().as_u16(), "upgraded": true}),
        e => other(e).await,
    }
}
/// Items of a stream, then how it ended.
pub async fn items<T: Serialize, E: Serialize>(
    s: impl futures::Stream<Item = Result<T, Error<E>>> + Unpin,
    take: Option<usize>,
) -> Value {
    let mut s = s;
    let mut out = vec![];
    let mut end = json!("end");
    loop {
        if take.is_some_and(|n| out.len() >= n) {
            end = json!("taken");
            break;
        }
        match s.next().await {
            None => break,
            Some(Ok(x)) => out.push(serde_json::to_value(x).unwrap()),
            Some(Err(e)) => {
                end = err_json(e).await;
                // what follows an error is the end
                if let Some(x) = s.next().await {
                    end = json!({"after error": x.is_ok(), "error": end});
                }
                break;
            }
        }
    }
    json!({"items": out, "end": end})
}

// ------------------------------------------------------------ command line

pub fn cli_ok<T: Serialize>(r: &ResponseValue<T>) -> Value {
    json!({"status": r.status().as_u16(), "headers": headers(r.headers()), "json": serde_json::to_value(&**r).unwrap()})
}
pub fn cli_err<E: Serialize>(e: &Error<E>) -> Value
where
    Error<E>: std::fmt::Display,
{
    let mut v = match e {
        Error::InvalidRequest(m) => json!({"err": "InvalidRequest", "msg": m}),
        Error::CommunicationError(_) => json!({"err": "CommunicationError"}),
        Error::InvalidUpgrade(_) => json!({"err": "InvalidUpgrade"}),
        Error::ErrorResponse(r) => {
            let mut v = cli_ok(r);
            v["err"] = json!("ErrorResponse");
            v
        }
        Error::ResponseBodyError(_) => json!({"err": "ResponseBodyError"}),
        Error::InvalidResponsePayload(b, _) => json!({"err": "InvalidResponsePayload", "raw": hexed::enc(b)}),
        Error::UnexpectedResponse(r) => json!({"err": "UnexpectedResponse", "status": r.status().as_u16(), "headers": headers(r.headers())}),
        Error::PreHookError(m) => json!({"err": "PreHookError", "msg": m}),
        Error::PostHookError(m) => json!({"err": "PostHookError", "msg": m}),
    };
    v["text"] = json!(e.to_string());
    v
}
/// The hook a program can put between command line and request.
pub fn cli_override(c: &Cx, op: &str, m: &clap::ArgMatches) -> anyhow::Result<()> {
    let mut given: Vec<&str> = m.ids().map(|i| i.as_str()).filter(|i| m.value_source(i) == Some(clap::parser::ValueSource::CommandLine)).collect();
    given.sort();
    c.note(json!(["override", op, given]));
    if c.opt("refuse") {
        anyhow::bail!("the override refuses");
    }
    Ok(())
}
pub fn cli_describe(c: &clap::Command) -> Value {
    let text = |s: Option<&clap::builder::StyledStr>| s.map(|s| s.to_string());
    let args: serde_json::Map<String, Value> = c
        .get_arguments()
        .map(|a| (a.get_long().unwrap_or("").to_string(), json!({"help": text(a.get_help()), "required": a.is_required_set()})))
        .collect();
    json!({"about": text(c.get_about()), "long_about": text(c.get_long_about()), "args": args})
}
/// A file the command line names.
pub struct CliFile(std::path::PathBuf);
impl Drop for CliFile {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}
pub fn cli_parse(c: clap::Command, cx: &Cx) -> (Result<clap::ArgMatches, String>, CliFile) {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let f = CliFile(std::env::temp_dir().join(format!("e2e-cli-{}-{n}", std::process::id())));
    if let Some(t) = cx.opts.get("file").and_then(Value::as_str) {
        std::fs::write(&f.0, t).unwrap_or_else(|e| panic!("driver: {e}"));
    }
    let path = f.0.to_string_lossy().into_owned();
    let argv: Vec<String> = serde_json::from_value(cx.opts["argv"].clone()).unwrap_or_else(|e| panic!("driver: {e}"));
    let argv = std::iter::once("program".to_string()).chain(argv.into_iter().map(|a| a.replace("@FILE@", &path)));
    (c.try_get_matches_from(argv).map_err(|e| format!("{:?}", e.kind())), f)
}
pub fn cli_end(r: anyhow::Result<()>) -> Value {
    match r {
        Ok(()) => json!("ok"),
        Err(e) => json!({"err": e.to_string()}),
    }
}

// ------------------------------------------------------------ mock servers

/// What the mock makes of the requests of these calls; its answer.
pub async fn mock_try(cx: &Cx, fits: Box<dyn Fn(&httpmock::HttpMockRequest) -> bool + Send>, answer: httpmock::Answer, by_op: fn(&str) -> Driver) -> Value {
    let calls = cx.opts.get("calls").and_then(Value::as_array).cloned().unwrap_or_default();
    let mut out = vec![];
    for c in calls {
        let mut cx2 = cx.clone();
        cx2.args = v(&c["args"]);
        let outcome = by_op(c["op"].as_str().expect("driver: op"))(cx2).await;
        let seen = std::mem::take(&mut cx.server.lock().unwrap().seen);
        let [s] = &seen[..] else { panic!("driver: {} requests, {outcome}", seen.len()) };
        let mut s = s.clone();
        if let Some(m) = c["slip"]["method"].as_str() {
            s.method = m.into();
        } else if let Some(k) = c["slip"]["at"].as_u64() {
            let end = s.target.find('?').unwrap_or(s.target.len());
            let at = k as usize % (end + 1);
            let past = if c["slip"]["drop"] == true { (at + 1).min(end) } else { at };
            s.target.replace_range(at..past, c["slip"]["put"].as_str().unwrap_or(""));
        }
        let (path, query) = s.target.split_once('?').map_or((s.target.as_str(), None), |(p, q)| (p, Some(q)));
        let pairs = query.map(|q| url::form_urlencoded::parse(q.as_bytes()).into_owned().collect());
        let r = httpmock::HttpMockRequest { path: path.into(), method: s.method.clone(), headers: Some(s.headers.clone()), query_params: pairs, body: Some(s.body.clone()) };
        out.push(json!({"fits": fits(&r), "request": s}));
    }
    json!({"calls": out, "answer": {"status": answer.status, "headers": answer.headers, "body": answer.body.map(|b| hexed::enc(&b))}})
}

// ------------------------------------------------------------------ server

#[derive(Default, Debug)]
struct State {
    script: VecDeque<Reply>,
    seen: Vec<Seen>,
}

async fn read_request(s: &mut TcpStream) -> Option<Seen> {
    let mut buf = vec![];
    let mut tmp = [0u8; 8192];
    let end = loop {
        if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            break i;
        }
        match s.read(&mut tmp).await {
            Ok(0) | Err(_) => return None,
            Ok(n) => buf.extend_from_slice(&tmp[..n]),
        }
    };
    let head = buf[..end].to_vec();
    let mut rest = buf[end + 4..].to_vec();
    let text: String = head.iter().map(|b| *b as char).collect();
    let mut lines = text.split("\r\n");
    let mut first = lines.next()?.split(' ');
    let mut seen = Seen { method: first.next()?.into(), target: first.next()?.into(), ..Default::default() };
    for l in lines {
        let (k, v) = l.split_once(':')?;
        seen.headers.push((k.to_ascii_lowercase(), v.trim_matches([' ', '\t']).to_string()));
    }
    let get = |k: &str| seen.headers.iter().find(|(n, _)| n == k).map(|(_, v)| v.clone());
    if let Some(n) = get("content-length") {
        let n: usize = n.parse().ok()?;
        while rest.len() < n {
            match s.read(&mut tmp).await {
                Ok(0) | Err(_) => return None,
                Ok(m) => rest.extend_from_slice(&tmp[..m]),
            }
        }
        seen.body = rest;
    } else if get("transfer-encoding").is_some() {
        while !rest.ends_with(b"0\r\n\r\n") {
            match s.read(&mut tmp).await {
                Ok(0) | Err(_) => return None,
                Ok(m) => rest.extend_from_slice(&tmp[..m]),
            }
        }
        let mut r = &rest[..];
        loop {
            let i = r.windows(2).position(|w| w == b"\r\n")?;
            let n = usize::from_str_radix(std::str::from_utf8(&r[..i]).ok()?.trim(), 16).ok()?;
            if n == 0 {
                break;
            }
            seen.body.extend_from_slice(&r[i + 2..i + 2 + n]);
            r = &r[i + 4 + n..];
        }
    }
    Some(seen)
}

async fn serve(mut s: TcpStream, st: Arc<Mutex<State>>) {
    let _ = s.set_nodelay(true);
    let Some(seen) = read_request(&mut s).await else { return };
    let head = seen.method == "HEAD";
    let reply = {
        let mut st = st.lock().unwrap();
        st.seen.push(seen);
        st.script.pop_front()
    };
    // no script left: the client asked once too often
    let r = reply.unwrap_or(Reply { status: 599, headers: vec![], body: b"off script".to_vec(), cut: None });
    if r.status == 0 {
        // hang up without an answer
        return;
    }
    if r.status == 1 {
        // neither answer nor hang up
        let _ = s.read(&mut [0u8; 1]).await;
        return;
    }
    let mut out = format!("HTTP/1.1 {} Whatever\r\n", r.status).into_bytes();
    for (k, v) in &r.headers {
        out.extend_from_slice(format!("{k}: {v}\r\n").as_bytes());
    }
    if r.status == 101 {
        out.extend_from_slice(b"Connection: Upgrade\r\nUpgrade: websocket\r\n\r\n");
        if s.write_all(&out).await.is_err() {
            return;
        }
        let mut tmp = [0u8; 1024];
        while let Ok(n) = s.read(&mut tmp).await {
            if n == 0 || s.write_all(&tmp[..n]).await.is_err() {
                return;
            }
        }
        return;
    }
    let bodyless = r.status == 204 || r.status == 304 || r.status < 200;
    out.extend_from_slice(b"Connection: close\r\n");
    if !bodyless {
        out.extend_from_slice(format!("Content-Length: {}\r\n", r.body.len()).as_bytes());
    }
    out.extend_from_slice(b"\r\n");
    if !bodyless && !head {
        out.extend_from_slice(&r.body[..r.cut.unwrap_or(r.body.len()).min(r.body.len())]);
    }
    let _ = s.write_all(&out).await;
    let _ = s.shutdown().await;
}

pub type Driver = fn(Cx) -> BoxFuture<'static, Value>;

/// Runs the scenarios of the file named first on the command line; one line
/// of outcome each.
pub fn main(drivers: Vec<(&'static str, Driver)>) {
    std::panic::set_hook(Box::new(|_| {}));
    let drivers: BTreeMap<_, _> = drivers.into_iter().collect();
    let path = std::env::args().nth(1).expect("scenario file");
    let all: Vec<(usize, Scenario)> = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async move {
        let workers = (0..3).map(|w| {
            let mine: Vec<_> = all.iter().skip(w).step_by(3).cloned().collect();
            let drivers = &drivers;
            async move {
                let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
                let addr = l.local_addr().unwrap();
                let st: Arc<Mutex<State>> = Default::default();
                let st2 = st.clone();
                tokio::spawn(async move {
                    loop {
                        if let Ok((s, _)) = l.accept().await {
                            tokio::spawn(serve(s, st2.clone()));
                        }
                    }
                });
                let plain = || reqwest::Client::builder().redirect(reqwest::redirect::Policy::none()).no_proxy();
                let http = plain().build().unwrap();
                for (i, sc) in mine {
                    *st.lock().unwrap() = State { script: sc.script.into(), seen: vec![] };
                    let stem = sc.opts.get("stem").and_then(Value::as_str).unwrap_or("");
                    let text = |k: &str| sc.opts.get(k).and_then(Value::as_str);
                    // a client that can be told from others
                    let http = match text("marker") {
                        Some(m) => plain().default_headers([("x-made".parse().unwrap(), m.parse().unwrap())].into_iter().collect()).build().unwrap(),
                        None => http.clone(),
                    };
                    let start = std::time::Instant::now();
                    let waits = sc.opts.get("waits").is_some();
                    let cx = Cx {
                        base: match text("base") {
                            Some(b) => b.replace("ADDR", &addr.to_string()),
                            None => format!("http://{addr}{stem}"),
                        },
                        http,
                        args: sc.args,
                        take: sc.take,
                        opts: sc.opts,
                        notes: Default::default(),
                        server: st.clone(),
                    };
                    let notes = cx.notes.clone();
                    let out = match drivers.get(sc.key.as_str()) {
                        None => json!({"driver": format!("no driver {}", sc.key)}),
                        Some(d) => {
                            let fut = std::panic::AssertUnwindSafe(CX.scope(cx.clone(), async move { d(cx).await })).catch_unwind();
                            match tokio::time::timeout(Duration::from_secs(if waits { 120 } else { 20 }), fut).await {
                                Err(_) => json!({"driver": "timeout"}),
                                Ok(Err(p)) => {
                                    let m = p
                                        .downcast_ref::<String>()
                                        .cloned()
                                        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                                        .unwrap_or_default();
                                    json!({"panic": m})
                                }
                                Ok(Ok(v)) => v,
                            }
                        }
                    };
                    let seen = std::mem::take(&mut st.lock().unwrap().seen);
                    let mut notes = std::mem::take(&mut *notes.lock().unwrap());
                    if waits {
                        notes.push(json!(["seconds", start.elapsed().as_secs_f64()]));
                    }
                    println!("{}", json!({"i": i, "seen": seen, "out": out, "notes": notes}));
                }
            }
        });
        futures::future::join_all(workers).await;
    });
}
