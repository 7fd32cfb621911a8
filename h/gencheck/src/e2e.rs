//! Generated clients, compiled and called against a scripted server.
use crate::doc::{self, Body, Item, Kind, Loc, Op, Pass, Spec, Ty};
use crate::pure;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::fmt::Write as _;
use std::path::PathBuf;
use std::process::Command;
use vk::Fail;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Reply {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    /// hexadecimal
    pub body: String,
    pub cut: Option<usize>,
}
impl Reply {
    pub fn new(status: u16, body: &[u8]) -> Reply {
        Reply { status, headers: vec![], body: hex(body), cut: None }
    }
    pub fn json(status: u16, v: &Value) -> Reply {
        let mut r = Reply::new(status, v.to_string().as_bytes());
        r.headers.push(("content-type".into(), "application/json".into()));
        r
    }
    pub fn bytes(&self) -> Vec<u8> {
        unhex(&self.body)
    }
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Call {
    pub unit: usize,
    pub style: String,
    /// snake-case operation name
    pub op: String,
    pub stream: bool,
    pub args: Vec<(String, Value)>,
    pub script: Vec<Reply>,
    #[serde(default)]
    pub take: Option<usize>,
    #[serde(default)]
    pub opts: Value,
}
impl Call {
    pub fn arg(&self, k: &str) -> Option<&Value> {
        self.args.iter().rev().find(|(n, _)| n == k).map(|(_, v)| v)
    }
    fn key(&self) -> String {
        format!("{}/{}/{}{}", self.unit, self.style, self.op, if self.stream { "#stream" } else { "" })
    }
}

#[derive(Deserialize, Clone, Debug)]
pub struct Seen {
    pub method: String,
    pub target: String,
    pub headers: Vec<(String, String)>,
    pub body: String,
}
#[derive(Deserialize, Clone, Debug)]
pub struct Done {
    i: usize,
    pub seen: Vec<Seen>,
    pub out: Value,
    pub notes: Vec<Value>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Unit {
    pub spec: Spec,
    pub styles: Vec<String>,
    /// which hooks are configured, by name; "inner" for the inner type
    #[serde(default)]
    pub hooks: Vec<String>,
}

pub fn bins() -> usize {
    8
}
fn dir() -> PathBuf {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    PathBuf::from(root).join("h/target/e2e")
}


fn settings(u: &Unit, style: &str) -> progenitor_impl::GenerationSettings {
    let mut s = pure::settings(style);
    let has = |h: &str| u.hooks.iter().any(|x| x == h);
    let inner = has("inner");
    let f = |h: &str| -> proc_macro2::TokenStream {
        let n = if inner { format!("e2ert::{h}_inner") } else { format!("e2ert::{h}") };
        n.parse().unwrap()
    };
    if inner {
        s.with_inner_type("e2ert::Inner".parse().unwrap());
    }
    if has("pre_hook") {
        s.with_pre_hook(f("pre_hook"));
    }
    if has("pre_hook_async") {
        s.with_pre_hook_async(f("pre_hook_async"));
    }
    if has("post_hook") {
        s.with_post_hook(f("post_hook"));
    }
    if has("post_hook_async") {
        s.with_post_hook_async(f("post_hook_async"));
    }
    s
}

fn ok_arm(k: &Kind) -> &'static str {
    match k {
        Kind::Unit | Kind::Json(_) => "ok_json(v)",
        Kind::Raw => "ok_raw(v).await",
        Kind::Upgrade => "ok_up(v).await",
    }
}
fn err_arm(o: &Op) -> &'static str {
    if o.websocket {
        return "err_up(e).await";
    }
    match o.error_kind() {
        Kind::Unit | Kind::Json(_) => "err_json(e).await",
        Kind::Raw => "err_raw(e).await",
        Kind::Upgrade => "err_up(e).await",
    }
}
pub fn body_type(o: &Op, t: &str) -> Option<String> {
    match o.body.as_ref()? {
        Body::Json { ty, .. } | Body::Form { ty } => Some(ty.rust(t)),
        Body::Inline { .. } => Some(format!("{t}::{}Body", o.id.pascal())),
        _ => None,
    }
}
/// Whether the body's type has a builder of its own.
pub fn body_builder(o: &Op) -> bool {
    match &o.body {
        Some(Body::Json { ty, .. } | Body::Form { ty }) => matches!(ty, Ty::Widget | Ty::Nested | Ty::Flat | Ty::Page),
        Some(Body::Inline { .. }) => true,
        _ => false,
    }
}
fn raw_body(o: &Op) -> bool {
    matches!(o.body, Some(Body::Octet | Body::Text { .. }))
}

fn positional_args(i: &Item, o: &Op, stream: bool) -> String {
    let mut a = vec![];
    for p in i.effective(o) {
        let n = p.name.snake();
        if stream && n == "page_token" {
            continue;
        }
        a.push(match (p.ty.pass(), p.optional()) {
            (Pass::Value, false) => format!("j(&cx, {n:?})"),
            (Pass::Value, true) => format!("jo(&cx, {n:?})"),
            (Pass::Str, false) => format!("&j::<String>(&cx, {n:?})"),
            (Pass::Str, true) => format!("jo::<String>(&cx, {n:?}).as_deref()"),
            (Pass::Ref, false) => format!("&j(&cx, {n:?})"),
            (Pass::Ref, true) => format!("jo(&cx, {n:?}).as_ref()"),
        });
    }
    match &o.body {
        None => {}
        Some(Body::Octet) => a.push("jb(&cx, \"body\")".into()),
        Some(Body::Text { .. }) => a.push("j::<String>(&cx, \"body\")".into()),
        Some(Body::Json { ty, .. }) if matches!(ty.pass(), Pass::Value) => a.push("j(&cx, \"body\")".into()),
        Some(Body::Json { ty, .. }) if matches!(ty.pass(), Pass::Str) => a.push("&j::<String>(&cx, \"body\")".into()),
        Some(_) => a.push("&j(&cx, \"body\")".into()),
    }
    a.join(", ")
}

pub fn tag_trait(t: &str) -> &'static str {
    match t {
        "disks" => "ClientDisksExt",
        "vpc-routers" => "ClientVpcRoutersExt",
        "Silos" => "ClientSilosExt",
        "system/status" => "ClientSystemStatusExt",
        _ => panic!("check: tag {t}"),
    }
}

/// The generated modules and the drivers of one unit.
fn source(n: usize, u: &Unit) -> Result<(String, Vec<String>), Fail> {
    let api = u.spec.openapi();
    let mut out = String::new();
    let mut table = vec![];
    let inner = u.hooks.iter().any(|h| h == "inner");
    for style in &u.styles {
        if style == "cli" {
            cli_source(n, u, &mut out, &mut table)?;
            continue;
        }
        if style == "mock" {
            mock_source(n, u, &mut out, &mut table)?;
            continue;
        }
        let m = format!("u{n}_{style}");
        let code = pure::generate_with(&api, &settings(u, style), style)?;
        writeln!(out, "pub mod {m} {{ {code} }}").unwrap();
        let t = format!("{m}::types");
        let arg = |of: &str| if inner { format!(", {of}") } else { String::new() };
        let with = format!("{m}::Client::new_with_client(&cx.base, cx.http.clone(){})", arg("Inner(cx.clone())"));
        let new = if u.hooks.iter().any(|h| h == "made") {
            format!(
                "let other = {m}::Client::new_with_client(\"http://127.0.0.1:9/other\", e2ert::reqwest::Client::new(){});
                let c = if cx.opt(\"new\") {{ {m}::Client::new(&cx.base{}) }} else {{ {with} }};
                let c = (0..cx.opts[\"clones\"].as_u64().unwrap_or(0)).fold(c, |c, _| shareable(c).clone());
                let c = {{ let mut k = vec![other.clone(), c, other]; k.swap_remove(1) }};
                cx.note(serde_json::json!([\"client\", c.baseurl(), c.api_version(), {}]));
                probe(&cx, c.client()).await;
                if cx.opt(\"only\") {{ return serde_json::json!(null) }}",
                arg("decoy(&cx)"),
                arg("Inner(cx.clone())"),
                if inner { "is_mine(&cx, c.inner())" } else { "true" }
            )
        } else {
            format!("let c = {with};")
        };
        if style != "positional" {
            writeln!(out, "pub struct Bad{n}{style};").unwrap();
            let mut tys: Vec<String> = doc::SCALARS.iter().chain(&[doc::Ty::Nz]).chain(doc::ARRAYS).chain(doc::STRUCTS).map(|t2| t2.rust(&t)).collect();
            tys.push("reqwest::Body".into());
            tys.extend(u.spec.all_ops().filter(|(_, o)| matches!(o.body, Some(Body::Inline { .. }))).filter_map(|(_, o)| body_type(o, &t)));
            tys.sort();
            tys.dedup();
            for t in tys {
                writeln!(out, "impl TryInto<{t}> for Bad{n}{style} {{ type Error = String; fn try_into(self) -> Result<{t}, String> {{ Err(\"bad value given\".into()) }} }}").unwrap();
            }
        }
        for (i, o) in u.spec.all_ops() {
            let id = o.id.snake();
            for stream in [false, true] {
                if stream && !o.paginated {
                    continue;
                }
                let key = format!("{n}/{style}/{id}{}", if stream { "#stream" } else { "" });
                let f = format!("d{}_{n}_{style}_{id}", stream as u8);
                table.push(format!("({key:?}, {f} as e2ert::Driver)"));
                writeln!(out, "fn {f}(cx: e2ert::Cx) -> e2ert::futures::future::BoxFuture<'static, e2ert::serde_json::Value> {{ Box::pin(async move {{ use e2ert::*; {new}").unwrap();
                if style == "positional" {
                    let args = positional_args(i, o, stream);
                    if stream {
                        writeln!(out, "let take = cx.take; items(c.{id}_stream({args}), take).await").unwrap();
                    } else {
                        writeln!(out, "let r = c.{id}({args}).await; match r {{ Ok(v) => {}, Err(e) => {} }}", ok_arm(&o.success_kind()), err_arm(o)).unwrap();
                    }
                } else {
                    let ctor = |t: &str| format!("{m}::{}::{id}(&c)", tag_trait(t));
                    match (style.as_str(), o.tags.len()) {
                        ("tagged", 1..) => {
                            // each tag's trait offers the operation
                            let all: Vec<String> = o.tags.iter().map(|t| ctor(t)).collect();
                            let pick: String = all
                                .iter()
                                .enumerate()
                                .map(|(k, c)| if k + 1 == all.len() { format!("{{ {c} }}") } else { format!("if cx.opt(\"tag{k}\") {{ {c} }} else ") })
                                .collect();
                            writeln!(out, "let mut b = {pick};").unwrap();
                        }
                        _ => writeln!(out, "let mut b = c.{id}();").unwrap(),
                    }
                    writeln!(out, "for (n, a) in &cx.args {{ match n.as_str() {{").unwrap();
                    for p in i.effective(o) {
                        let s = p.name.snake();
                        writeln!(out, "{s:?} => b = if bad(a) {{ b.{s}(Bad{n}{style}) }} else {{ b.{s}(v::<{}>(a)) }},", p.ty.rust(&t)).unwrap();
                    }
                    match &o.body {
                        None => {}
                        Some(Body::Octet) => writeln!(out, "\"body\" => b = if bad(a) {{ b.body(Bad{n}{style}) }} else {{ b.body(bytes(a)) }},").unwrap(),
                        Some(Body::Text { .. }) => {
                            writeln!(out, "\"body\" => b = if bad(a) {{ b.body(Bad{n}{style}) }} else {{ b.body(v::<String>(a)) }},").unwrap()
                        }
                        Some(_) => {
                            let bt = body_type(o, &t).unwrap();
                            writeln!(out, "\"body\" => b = if bad(a) {{ b.body(Bad{n}{style}) }} else {{ b.body(v::<{bt}>(a)) }},").unwrap();
                            if body_builder(o) {
                                writeln!(out, "\"body_map\" => b = b.body_map(|_| v::<{bt}>(a).into()),").unwrap();
                                writeln!(out, "\"body_keep\" => b = b.body_map(|x| x),").unwrap();
                            }
                        }
                    }
                    if !raw_body(o) {
                        writeln!(out, "\"$clone\" => b = b.clone(),").unwrap();
                    }
                    writeln!(out, "x => panic!(\"driver: argument {{x}}\") }} }}").unwrap();
                    if stream {
                        writeln!(out, "let take = cx.take; items(b.stream(), take).await").unwrap();
                    } else {
                        writeln!(out, "match b.send().await {{ Ok(v) => {}, Err(e) => {} }}", ok_arm(&o.success_kind()), err_arm(o)).unwrap();
                    }
                }
                writeln!(out, "}}) }}").unwrap();
            }
        }
    }
    Ok((out, table))
}

/// The name a status code goes by, from its registration.
pub fn reason(code: u16) -> String {
    match code {
        101 => "switching_protocols",
        200 => "ok",
        201 => "created",
        202 => "accepted",
        203 => "non_authoritative_information",
        204 => "no_content",
        206 => "partial_content",
        304 => "not_modified",
        307 => "temporary_redirect",
        400 => "bad_request",
        404 => "not_found",
        503 => "service_unavailable",
        c => return format!("status_{c}"),
    }
    .into()
}
/// The helper of an answer: its name, whether it takes the status, its value.
pub fn helpers(o: &Op) -> Vec<(String, bool, Kind, doc::Code)> {
    if o.websocket {
        return vec![("default_response".into(), true, Kind::Unit, doc::Code::Default), ("switching_protocols".into(), false, Kind::Unit, doc::Code::Exact(101))];
    }
    let mut v: Vec<_> = o
        .responses
        .iter()
        .map(|r| {
            let (name, status) = match r.code {
                doc::Code::Exact(c) => (reason(c), false),
                doc::Code::Range(c) => (["informational", "success", "redirect", "client_error", "server_error"][c as usize - 1].to_string(), true),
                doc::Code::Default => ("default_response".to_string(), true),
            };
            (name, status, doc::kind(&r.content), r.code)
        })
        .collect();
    if !o.responses.iter().any(|r| matches!(r.code, doc::Code::Exact(200..=299) | doc::Code::Range(2) | doc::Code::Default)) {
        // success of any kind
        v.push(("success".into(), true, Kind::Raw, doc::Code::Range(2)));
    }
    v
}

/// The mock helpers of a unit and their drivers; they call the unit's builder.
fn mock_source(n: usize, u: &Unit, out: &mut String, table: &mut Vec<String>) -> Result<(), Fail> {
    let api = u.spec.openapi();
    let b = format!("u{n}_builder");
    let code = pure::mock(&api, &format!("crate::{b}"))?;
    let t = format!("{b}::types");
    writeln!(out, "pub mod u{n}_mock {{ {code} }}").unwrap();
    let arms: String = u.spec.all_ops().map(|(_, o)| o.id.snake()).map(|id| format!("{id:?} => d0_{n}_builder_{id},")).collect();
    writeln!(out, "fn by_op_{n}(op: &str) -> e2ert::Driver {{ match op {{ {arms} x => panic!(\"driver: no operation {{x}}\") }} }}").unwrap();
    for (i, o) in u.spec.all_ops() {
        let id = o.id.snake();
        let f = format!("dm_{n}_{id}");
        table.push(format!("(\"{n}/mock/{id}\", {f} as e2ert::Driver)"));
        writeln!(out, "fn {f}(cx: e2ert::Cx) -> e2ert::futures::future::BoxFuture<'static, e2ert::serde_json::Value> {{ Box::pin(async move {{ use e2ert::*;
            let (fits, answer) = {{ let server = httpmock::MockServer::start();
            let mock = u{n}_mock::MockServerExt::{id}(&server, |when, then| {{
                let mut w = when; for (n, a) in &cx.args {{ match n.as_str() {{").unwrap();
        for p in i.effective(o) {
            let s = p.name.snake();
            let ty = p.ty.rust(&t);
            let give = |v: &str| match p.ty.pass() {
                Pass::Value => v.to_string(),
                Pass::Str | Pass::Ref => format!("&{v}"),
            };
            let v = give(&format!("v::<{ty}>(a)"));
            if p.loc == Loc::Query && p.optional() {
                let none = match p.ty.pass() {
                    Pass::Value => ty.clone(),
                    Pass::Str => "&str".to_string(),
                    Pass::Ref => format!("&{ty}"),
                };
                let v = if let Pass::Str = p.ty.pass() { format!("v::<{ty}>(a).as_str()") } else { v };
                writeln!(out, "{s:?} => w = if a.is_null() {{ w.{s}(None::<{none}>) }} else {{ w.{s}({v}) }},").unwrap();
            } else {
                writeln!(out, "{s:?} => w = w.{s}({v}),").unwrap();
            }
        }
        match &o.body {
            None => {}
            Some(Body::Octet) => writeln!(out, "\"body\" => w = w.body(a.clone()),").unwrap(),
            Some(Body::Text { .. }) => writeln!(out, "\"body\" => w = w.body(v::<String>(a)),").unwrap(),
            Some(_) => writeln!(out, "\"body\" => w = w.body(&v::<{}>(a)),", body_type(o, &t).unwrap()).unwrap(),
        }
        writeln!(out, "x => panic!(\"driver: argument {{x}}\") }} }} let _ = w.into_inner();").unwrap();
        writeln!(out, "let (value, status) = (cx.opts[\"value\"].clone(), cx.opts[\"status\"].as_u64().unwrap_or(0) as u16); let _ = (&value, status);").unwrap();
        writeln!(out, "let _ = match cx.opts[\"then\"].as_str().unwrap_or(\"\") {{ \"\" => then,").unwrap();
        for (name, status, kind, _) in helpers(o) {
            let mut a = vec![];
            if status {
                a.push("status".to_string());
            }
            match kind {
                Kind::Json(ty) => a.push(match ty.pass() {
                    Pass::Value => format!("v::<{}>(&value)", ty.rust(&t)),
                    _ => format!("&v::<{}>(&value)", ty.rust(&t)),
                }),
                Kind::Raw => a.push("value.clone()".into()),
                _ => {}
            }
            writeln!(out, "{name:?} => then.{name}({}),", a.join(", ")).unwrap();
        }
        writeln!(out, "x => panic!(\"driver: helper {{x}}\") }};
            }}); let answer = mock.answer(); let tests = mock.tests(); (Box::new(move |r: &httpmock::HttpMockRequest| tests(r)), answer) }};
            mock_try(&cx, fits, answer, by_op_{n}).await }}) }}").unwrap();
    }
    Ok(())
}

/// The command line of a unit and its drivers.
fn cli_source(n: usize, u: &Unit, out: &mut String, table: &mut Vec<String>) -> Result<(), Fail> {
    let mut d = u.spec.json();
    crate::p26::describe(&mut d);
    let api = serde_json::from_value(d).expect("check: document");
    let m = format!("u{n}_cli");
    let code = pure::generate_with(&api, &pure::settings("builder"), "builder")?;
    let cli = pure::cli(&api, "super")?;
    writeln!(out, "pub mod {m} {{ {code} pub mod cli {{ {cli} }} }}").unwrap();
    let b = "where T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug";
    let note = |what: &str, v: &str| format!("{{ self.0.note(e2ert::serde_json::json!([{what:?}, {v}])) }}");
    writeln!(out, "pub struct Conf{n}(e2ert::Cx); impl {m}::cli::CliConfig for Conf{n} {{").unwrap();
    writeln!(out, "fn success_item<T>(&self, value: &progenitor_client::ResponseValue<T>) {b} {}", note("success_item", "e2ert::cli_ok(value)")).unwrap();
    writeln!(out, "fn success_no_item(&self, value: &progenitor_client::ResponseValue<()>) {}", note("success_no_item", "e2ert::cli_ok(value)")).unwrap();
    writeln!(out, "fn error<T>(&self, value: &progenitor_client::Error<T>) {b} {}", note("error", "e2ert::cli_err(value)")).unwrap();
    writeln!(out, "fn list_start<T>(&self) {b} {}", note("list_start", "()")).unwrap();
    writeln!(out, "fn list_item<T>(&self, value: &T) {b} {}", note("list_item", "value")).unwrap();
    writeln!(out, "fn list_end_success<T>(&self) {b} {}", note("list_end_success", "()")).unwrap();
    writeln!(out, "fn list_end_error<T>(&self, value: &progenitor_client::Error<T>) {b} {}", note("list_end_error", "e2ert::cli_err(value)")).unwrap();
    for (_, o) in u.spec.all_ops() {
        let (id, p) = (o.id.snake(), o.id.pascal());
        writeln!(out, "fn execute_{id}(&self, matches: &clap::ArgMatches, _: &mut {m}::builder::{p}) -> anyhow::Result<()> {{ e2ert::cli_override(&self.0, {id:?}, matches) }}").unwrap();
    }
    writeln!(out, "}}").unwrap();
    for (_, o) in u.spec.all_ops() {
        let (id, p) = (o.id.snake(), o.id.pascal());
        let f = format!("dc_{n}_{id}");
        table.push(format!("(\"{n}/cli/{id}\", {f} as e2ert::Driver)"));
        writeln!(out, "fn {f}(cx: e2ert::Cx) -> e2ert::futures::future::BoxFuture<'static, e2ert::serde_json::Value> {{ Box::pin(async move {{ use e2ert::*; use e2ert::serde_json::json;
            let c = {m}::Client::new_with_client(&cx.base, cx.http.clone());
            let names: Vec<String> = {m}::cli::CliCommand::iter().map(|c| format!(\"{{c:?}}\")).collect();
            let com = {m}::cli::Cli::<Conf{n}>::get_command({m}::cli::CliCommand::{p});
            let desc = cli_describe(&com);
            let (parsed, _file) = cli_parse(com, &cx);
            let end = match parsed {{
                Err(e) => json!({{\"usage\": e}}),
                Ok(a) => cli_end({m}::cli::Cli::new(c, Conf{n}(cx.clone())).execute({m}::cli::CliCommand::{p}, &a).await),
            }};
            json!({{\"names\": names, \"desc\": desc, \"end\": end}})
        }}) }}").unwrap();
    }
    Ok(())
}

pub struct Built {
    used: usize,
}

fn cargo(cmd: &str, used: usize) -> Result<(), String> {
    let mut c = Command::new("cargo");
    c.current_dir(dir().join("../.."));
    c.args([cmd, "--offline", "-q", "-p", "e2e", "--keep-going"]);
    for k in 0..used {
        c.args(["--bin", &format!("e{k}")]);
    }
    let o = c.output().map_err(|e| e.to_string())?;
    if o.status.success() {
        Ok(())
    } else {
        Err(String::from_utf8_lossy(&o.stderr).into())
    }
}
fn write_bins(parts: Vec<(String, Vec<String>)>) -> usize {
    let d = dir();
    std::fs::create_dir_all(&d).unwrap();
    let used = parts.len().min(bins());
    let mut files = vec![(String::new(), vec![]); used];
    for (k, (src, table)) in parts.into_iter().enumerate() {
        files[k % used].0 += &src;
        files[k % used].1.extend(table);
    }
    for (k, (mut src, table)) in files.into_iter().enumerate() {
        write!(src, "fn main() {{ e2ert::main(vec![{}]) }}", table.join(",\n")).unwrap();
        let p = d.join(format!("g{k}.rs"));
        if std::fs::read_to_string(&p).ok().as_deref() != Some(&src) {
            std::fs::write(p, src).unwrap();
        }
    }
    used
}

pub enum Broken {
    /// index of a unit whose code is not generated or does not compile
    Unit(usize, Fail),
    /// the machinery, not the code under test
    Check(String),
}

fn first_error(log: &str) -> String {
    let lines: Vec<&str> = log.lines().collect();
    let at = lines.iter().position(|l| l.starts_with("error")).unwrap_or(0);
    lines[at..].iter().take(14).map(|l| l.chars().take(400).collect::<String>()).collect::<Vec<_>>().join("\n")
}

pub fn build(units: &[Unit]) -> Result<Built, Broken> {
    let mut parts = vec![];
    for (k, u) in units.iter().enumerate() {
        parts.push(source(k, u).map_err(|f| Broken::Unit(k, f))?);
    }
    build_parts(parts, "build").map(|used| Built { used })
}

/// Whether the documents' clients compile, each in one style.
pub fn compile(docs: &[(Value, String)]) -> Result<(), Broken> {
    let mut parts = vec![];
    for (k, (d, style)) in docs.iter().enumerate() {
        let api = serde_json::from_value(d.clone()).map_err(|e| Broken::Check(format!("document: {e}")))?;
        let code = pure::generate(&api, style).map_err(|f| Broken::Unit(k, f))?;
        parts.push((format!("pub mod u{k} {{ {code} }}\n"), vec![]));
    }
    build_parts(parts, "check").map(|_| ())
}

fn build_parts(parts: Vec<(String, Vec<String>)>, cmd: &str) -> Result<usize, Broken> {
    let used = write_bins(parts.clone());
    let Err(log) = cargo(cmd, used) else { return Ok(used) };
    // find a unit to blame: check them in groups of one per program
    for (g, group) in parts.chunks(bins()).enumerate() {
        let n = write_bins(group.to_vec());
        if cargo("check", n).is_err() {
            for (k, p) in group.iter().enumerate() {
                write_bins(vec![p.clone()]);
                if let Err(log) = cargo("check", 1) {
                    return Err(Broken::Unit(g * bins() + k, Fail::new(format!("generated client does not compile: {}", first_error(&log)))));
                }
            }
        }
    }
    Err(Broken::Check(format!("build of generated clients fails together but not apart: {}", first_error(&log))))
}

/// Whether one unit fails to generate or compile.
pub fn compile_failure(u: &Unit) -> Option<Fail> {
    match source(0, u) {
        Err(f) => Some(f),
        Ok(p) => {
            write_bins(vec![p]);
            cargo("check", 1).err().map(|l| Fail::new(format!("generated client does not compile: {}", first_error(&l))))
        }
    }
}

/// Leaves nothing behind that does not compile.
pub fn blank() {
    std::fs::write(dir().join("g0.rs"), "fn main() {}").unwrap();
}

impl Built {
    pub fn run(&self, calls: &[Call]) -> Result<Vec<Done>, String> {
        let d = dir();
        let bin = d.join("../debug");
        let mut handles = vec![];
        for k in 0..self.used {
            let mine: Vec<Value> = calls
                .iter()
                .enumerate()
                .filter(|(_, c)| c.unit % self.used == k)
                .map(|(i, c)| {
                    let mut v = serde_json::to_value(c).unwrap();
                    v["key"] = json!(c.key());
                    json!([i, v])
                })
                .collect();
            if mine.is_empty() {
                continue;
            }
            let f = d.join(format!("s{k}.json"));
            std::fs::write(&f, serde_json::to_string(&mine).unwrap()).map_err(|e| e.to_string())?;
            let exe = bin.join(format!("e{k}"));
            handles.push(std::thread::spawn(move || {
                Command::new("timeout").arg("600").arg(&exe).arg(&f).env_remove("http_proxy").output().map_err(|e| format!("{exe:?}: {e}"))
            }));
        }
        let mut out: Vec<Option<Done>> = vec![None; calls.len()];
        for h in handles {
            let o = h.join().unwrap()?;
            if !o.status.success() {
                return Err(format!("driver ended with {}: {}", o.status, String::from_utf8_lossy(&o.stderr)));
            }
            for l in String::from_utf8_lossy(&o.stdout).lines() {
                let d: Done = serde_json::from_str(l).map_err(|e| format!("{e}: {l}"))?;
                let i = d.i;
                out[i] = Some(d);
            }
        }
        out.into_iter().enumerate().map(|(i, d)| d.ok_or_else(|| format!("no outcome for call {i}"))).collect()
    }
}

// ------------------------------------------------------------ decoding aids

pub fn pct(s: &str, plus: bool) -> Vec<u8> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'%' if i + 2 < b.len() + 0 && b.get(i + 2).is_some() => match u8::from_str_radix(&s[i + 1..i + 3], 16) {
                Ok(x) => {
                    out.push(x);
                    i += 2;
                }
                Err(_) => out.push(b'%'),
            },
            b'+' if plus => out.push(b' '),
            c => out.push(c),
        }
        i += 1;
    }
    out
}
pub fn form(s: &str) -> Vec<(String, String)> {
    s.split('&')
        .filter(|p| !p.is_empty())
        .map(|p| {
            let (k, v) = p.split_once('=').unwrap_or((p, ""));
            let d = |x| String::from_utf8_lossy(&pct(x, true)).into_owned();
            (d(k), d(v))
        })
        .collect()
}

pub fn find<'a>(s: &'a Spec, op: &str) -> (&'a Item, &'a Op) {
    s.all_ops().find(|(_, o)| o.id.snake() == op).expect("check: operation")
}

/// The document with only this operation.
pub fn only(s: &Spec, op: &str) -> Spec {
    let mut s = s.clone();
    for i in &mut s.items {
        i.ops.retain(|o| o.id.snake() == op);
    }
    s.items.retain(|i| !i.ops.is_empty());
    s
}

/// The request the document describes for these arguments.
pub fn check_request(spec: &Spec, call: &Call, seen: &Seen) -> Result<(), String> {
    let (item, op) = find(spec, &call.op);
    let stem = call.opts.get("stem").and_then(Value::as_str).unwrap_or("");
    let wire = |n: &str| call.arg(n).map(Ty::wire);
    if seen.method != op.method.to_uppercase() {
        return Err(format!("method is {}, expected {}", seen.method, op.method.to_uppercase()));
    }
    // path, segment by segment
    let (path, query) = seen.target.split_once('?').unwrap_or((&seen.target, ""));
    let mut want: Vec<Vec<u8>> = vec![vec![]];
    let mut lit = |s: &str, decode: bool| {
        for (k, part) in (if decode { s.split('/').collect::<Vec<_>>() } else { vec![s] }).into_iter().enumerate() {
            if k > 0 {
                want.push(vec![]);
            }
            let b = if decode { pct(part, false) } else { part.as_bytes().to_vec() };
            want.last_mut().unwrap().extend(b);
        }
    };
    lit(stem, true);
    for p in &item.pieces {
        match p {
            // repeated slashes count as one
            doc::Piece::Lit(s) => {
                let mut s = s.clone();
                while s.contains("//") {
                    s = s.replace("//", "/");
                }
                lit(&s, true)
            }
            doc::Piece::Par(k) => lit(&wire(&item.pars[*k].snake()).ok_or("check: no path argument")?, false),
        }
    }
    let got: Vec<Vec<u8>> = path.split('/').map(|s| pct(s, false)).collect();
    if got != want {
        let show = |v: &[Vec<u8>]| v.iter().map(|b| String::from_utf8_lossy(b).into_owned()).collect::<Vec<_>>();
        return Err(format!("path {path} is {:?}, expected {:?}", show(&got), show(&want)));
    }
    // query
    let mut want: Vec<(String, String)> = vec![];
    let mut flats = 0;
    for p in item.effective(op) {
        if p.loc != Loc::Query {
            continue;
        }
        let Some(v) = call.arg(&p.name.snake()) else { continue };
        let v = if v.is_null() { continue } else { v };
        match v {
            Value::Array(a) => want.extend(a.iter().map(|x| (p.name.api(), Ty::wire(x)))),
            Value::Object(o) => {
                flats += 1;
                want.extend(o.iter().map(|(k, x)| (k.clone(), Ty::wire(x))))
            }
            v => want.push((p.name.api(), Ty::wire(v))),
        }
    }
    let mut got = form(query);
    if flats > 1 {
        got.sort();
        want.sort();
    } else {
        got.sort_by(|a, b| a.0.cmp(&b.0));
        want.sort_by(|a, b| a.0.cmp(&b.0));
    }
    if got != want {
        return Err(format!("query {query:?} is {got:?}, expected {want:?}"));
    }
    // headers
    let all = |k: &str| -> Vec<&str> { seen.headers.iter().filter(|(n, _)| n.eq_ignore_ascii_case(k)).map(|(_, v)| v.as_str()).collect() };
    if all("api-version") != [spec.version.as_str()] {
        return Err(format!("api-version is {:?}, expected {:?}", all("api-version"), spec.version));
    }
    for p in item.effective(op) {
        if p.loc != Loc::Header {
            continue;
        }
        let got = all(&p.name.api());
        match wire(&p.name.snake()) {
            Some(w) if got == [w.as_str()] => {}
            None if got.is_empty() => {}
            w => return Err(format!("header {} is {got:?}, expected {w:?}", p.name.api())),
        }
    }
    let accept = all("accept");
    let json_wanted = match (op.success_kind(), op.error_kind()) {
        (Kind::Json(_), _) | (Kind::Unit, Kind::Json(_)) => true,
        _ => false,
    };
    if json_wanted && accept != ["application/json"] {
        return Err(format!("accept is {accept:?} for a JSON answer"));
    }
    if !json_wanted && !accept.iter().all(|a| a.contains("*/*")) {
        return Err(format!("accept is {accept:?} for an answer that need not be JSON"));
    }
    if op.websocket {
        for (k, want) in [("upgrade", "websocket"), ("connection", "upgrade"), ("sec-websocket-version", "13")] {
            if !all(k).iter().any(|v| v.to_ascii_lowercase().split(',').any(|x| x.trim() == want)) {
                return Err(format!("{k} is {:?} in a websocket handshake", all(k)));
            }
        }
        let key = all("sec-websocket-key");
        let b64 = |c: char| c.is_ascii_alphanumeric() || c == '+' || c == '/';
        if key.len() != 1 || key[0].len() != 24 || !key[0].ends_with("==") || !key[0][..22].chars().all(b64) {
            return Err(format!("sec-websocket-key is {key:?}"));
        }
    }
    // body
    let body = unhex(&seen.body);
    let ct = all("content-type");
    let essence = |v: &str| v.split(';').next().unwrap_or("").trim().to_string();
    let arg = call.arg("body").or_else(|| call.arg("body_map"));
    let (want_ct, ok) = match (&op.body, arg) {
        (None, _) => (None, body.is_empty()),
        (_, None) => return Err("check: no body argument".into()),
        (Some(Body::Json { .. } | Body::Inline { .. }), Some(v)) => {
            (Some("application/json".to_string()), serde_json::from_slice::<Value>(&body).is_ok_and(|b| b == *v))
        }
        (Some(Body::Form { .. }), Some(v)) => {
            let mut w: Vec<(String, String)> = v.as_object().unwrap().iter().map(|(k, v)| (k.clone(), Ty::wire(v))).collect();
            let mut g = form(&String::from_utf8_lossy(&body));
            w.sort();
            g.sort();
            (Some("application/x-www-form-urlencoded".into()), w == g)
        }
        (Some(Body::Octet), Some(v)) => (Some("application/octet-stream".into()), body == unhex(v.as_str().unwrap())),
        (Some(Body::Text { ctype }), Some(v)) => (Some(essence(ctype)), body == v.as_str().unwrap().as_bytes()),
    };
    if !ok {
        return Err(format!("body is {:?}, expected {arg:?}", String::from_utf8_lossy(&body)));
    }
    match want_ct {
        None if !ct.is_empty() => return Err(format!("content-type {ct:?} without a body")),
        Some(w) if ct.len() != 1 || essence(ct[0]) != w => return Err(format!("content-type is {ct:?}, expected {w}")),
        _ => {}
    }
    Ok(())
}
