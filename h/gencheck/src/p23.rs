//! P23: the same document and settings give the same code, always and everywhere.
use crate::doc::{self, Knobs, Spec};
use progenitor_impl::{CrateVers, GenerationSettings, Generator, InterfaceStyle, TagStyle, TypeImpl, TypePatch, UnknownPolicy};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::path::Path;
use std::process::{Command, Stdio};
use vk::gen::{gen, Rng};
use vk::{Case, Ctx, Fail, R};

/// A document and settings, the latter as a list of calls made in some order.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Job {
    pub spec: Spec,
    pub output: String,
    pub set: Vec<Set>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Set {
    Tagged,
    Inner(String),
    Hook(u8, String),
    Derive(String),
    Patch(String, Option<String>, Vec<String>),
    Replace(String, String, Vec<String>),
    Convert(serde_json::Value, String, Vec<String>),
    Crate(String, String, Option<String>),
    Unknown(u8),
    Map(String),
}

fn impls(v: &[String]) -> std::vec::IntoIter<TypeImpl> {
    v.iter().map(|i| i.parse().unwrap()).collect::<Vec<TypeImpl>>().into_iter()
}
pub fn apply(s: &mut GenerationSettings, c: &Set) {
    let t = |s: &str| s.parse::<proc_macro2::TokenStream>().expect("check: tokens");
    match c {
        Set::Tagged => s.with_tag(TagStyle::Separate),
        Set::Inner(i) => s.with_inner_type(t(i)),
        Set::Hook(0, h) => s.with_pre_hook(t(h)),
        Set::Hook(1, h) => s.with_pre_hook_async(t(h)),
        Set::Hook(2, h) => s.with_post_hook(t(h)),
        Set::Hook(_, h) => s.with_post_hook_async(t(h)),
        Set::Derive(d) => s.with_derive(d),
        Set::Patch(n, rename, derives) => {
            let mut p = TypePatch::default();
            if let Some(r) = rename {
                p.with_rename(r);
            }
            for d in derives {
                p.with_derive(d);
            }
            s.with_patch(n, &p)
        }
        Set::Replace(n, to, i) => s.with_replacement(n, to, impls(i)),
        Set::Convert(schema, to, i) => s.with_conversion(serde_json::from_value(schema.clone()).expect("check: schema"), to, impls(i)),
        Set::Crate(n, v, rename) => s.with_crate(n, CrateVers::parse(v).unwrap(), rename.as_ref()),
        Set::Unknown(n) => s.with_unknown_crates([UnknownPolicy::Generate, UnknownPolicy::Allow, UnknownPolicy::Deny][*n as usize % 3]),
        Set::Map(m) => s.with_map_type(m),
    };
}
pub fn settings(output: &str, set: &[Set]) -> GenerationSettings {
    let mut s = GenerationSettings::default();
    if output != "positional" {
        s.with_interface(InterfaceStyle::Builder);
    }
    for c in set {
        apply(&mut s, c);
    }
    s
}

/// The generator's answer in full, and what it asked of the type generator.
fn text(api: &openapiv3::OpenAPI, output: &str, s: &GenerationSettings) -> String {
    let mut g = Generator::new(s);
    let r = vk::guard(|| match output {
        "cli" => g.cli(api, "sdk"),
        "httpmock" => g.httpmock(api, "sdk"),
        _ => g.generate_tokens(api),
    });
    let r = match r {
        Ok(Ok(t)) => t.to_string(),
        Ok(Err(e)) => format!("refused: {e}"),
        Err(e) => format!("panic: {e}"),
    };
    format!("{r}\n{:?}\n{:?}", g.get_type_space().settings(), g.get_type_space().asked())
}

fn some_impls(r: &mut Rng) -> Vec<String> {
    ["FromStr", "Display", "Default"].iter().filter(|_| r.chance(50)).map(|s| s.to_string()).collect()
}
pub fn set(r: &mut Rng, tagged_ok: bool) -> Vec<Set> {
    let mut v = vec![];
    let types = ["Flat", "Widget", "Nested", "Color", "Page", "Label", "Count", "Other"];
    if tagged_ok && r.chance(30) {
        v.push(Set::Tagged);
    }
    if r.chance(30) {
        v.push(Set::Inner(r.pick(&["crate::Inner", "(String, u32)", "std::sync::Arc<std::sync::Mutex<Vec<u8>>>", "[u8; 3]", "&'static str", "Option<fn(u8) -> String>"]).to_string()));
    }
    for h in 0..4 {
        if r.chance(25) {
            let f = r.pick(&["crate::hook", "hook", "::my::hooks::h::<u8>", "|x, y| crate::hook(x, y)", "move |r| { if r.ok() { 1 } else { 2 }; \"a, b\" }", "|_| ()", "async |r| go(r).await", "|inner: &crate::Inner, r| async move { f(inner, [r, 3]).await }", "self::Hook::<{ 3 }>::run"]);
            v.push(Set::Hook(h, f.to_string()));
        }
    }
    for d in ["PartialEq", "Eq", "Hash", "schemars::JsonSchema", "::serde::Deserialize"] {
        if r.chance(30) {
            v.push(Set::Derive(d.into()));
        }
    }
    r.shuffle(&mut v);
    for n in types {
        if r.chance(35) {
            let d = ["Copy", "Default", "cmp::PartialOrd"].iter().filter(|_| r.chance(40)).map(|s| s.to_string()).collect();
            v.push(Set::Patch(n.into(), r.chance(40).then(|| format!("My{n}")), d));
        }
        if r.chance(25) {
            v.push(Set::Replace(n.into(), r.pick(&["crate::other::T", "Other", "::x::y::Z", "std::vec::Vec<u8>"]).to_string(), some_impls(r)));
        }
    }
    for k in 0..4 {
        if r.chance(25) {
            let s = match r.below(6) {
                0 => json!({"type": "string", "format": r.pick(&["uuid", "date", "ip", "custom"])}),
                1 => json!({"type": "integer", "format": "int32", "minimum": 3.0}),
                2 => json!({"type": "string", "enum": ["a", "b c", "\"d\""]}),
                3 => json!({"type": "string", "maxLength": 12, "pattern": "^[a-z]*$"}),
                4 => json!({"type": "object", "required": ["a"], "properties": {"a": {"type": "string"}}}),
                _ => json!({"type": "array", "items": {"type": "boolean"}, "minItems": 1}),
            };
            v.push(Set::Convert(s, format!("crate::conv::C{k}"), some_impls(r)));
        }
    }
    for n in ["uuid", "chrono", "my-types", "oxnet", "common_v2"] {
        if r.chance(30) {
            let ver = *r.pick(&["1.0.0", "0.3.2", "*", "!"]);
            v.push(Set::Crate(n.into(), ver.into(), r.chance(30).then(|| format!("{}_renamed", n.replace('-', "_")))));
        }
    }
    if r.chance(30) {
        v.push(Set::Unknown(r.below(3) as u8));
    }
    if r.chance(30) {
        v.push(Set::Map(r.pick(&["std::collections::BTreeMap", "indexmap::IndexMap", "::my::Map"]).to_string()));
    }
    v
}
fn job(r: &mut Rng) -> Job {
    let output = r.pick(&["positional", "builder", "cli", "httpmock"]).to_string();
    let k = Knobs { items: 1 + r.below(3), paginated: 15, ..Knobs::default() };
    let spec = doc::spec(r, k);
    let set = set(r, output != "positional");
    Job { spec, output, set }
}

/// Settings of different kinds, or for different names, do not depend on each other's order.
fn reordered(r: &mut Rng, v: &[Set]) -> Vec<Set> {
    let (mut other, list): (Vec<Set>, Vec<Set>) = v.iter().cloned().partition(|s| !matches!(s, Set::Derive(_) | Set::Convert(..)));
    r.shuffle(&mut other);
    // lists keep their own order
    let mut out = list;
    for o in other {
        let at = r.below(out.len() + 1);
        out.insert(at, o);
    }
    out
}

fn diff(a: &str, b: &str) -> String {
    let at = a.bytes().zip(b.bytes()).position(|(i, j)| i != j).unwrap_or(a.len().min(b.len()));
    let from = at.saturating_sub(150);
    let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[from.min(s.len())..(at + 150).min(s.len())]).into_owned();
    format!("\n  {}\n  {}", cut(a), cut(b))
}

fn repeat(j: &Job, c: &mut Case) -> R {
    let api = j.spec.openapi();
    let s = settings(&j.output, &j.set);
    c.label(&j.output);
    let first = text(&api, &j.output, &s);
    c.nontrivial_if(!first.starts_with("refused") && !first.starts_with("panic") && !j.set.is_empty());
    let same = |what: &str, t: String| -> R {
        if t == first {
            return Ok(());
        }
        Err(Fail::new(format!("{}: another output {what}:{}", j.output, diff(&first, &t))))
    };
    for _ in 0..2 {
        same("from the same settings", text(&api, &j.output, &s))?;
    }
    same("from a clone of the settings", text(&api, &j.output, &s.clone()))?;
    let again: openapiv3::OpenAPI = serde_json::from_str(&serde_json::to_string(&j.spec.json()).unwrap()).unwrap();
    same("from the document read again", text(&again, &j.output, &s))?;
    let mut r = Rng::new(j.set.len() as u64 + j.spec.items.len() as u64 * 7);
    for _ in 0..2 {
        let set = reordered(&mut r, &j.set);
        same("from settings made in another order", text(&api, &j.output, &settings(&j.output, &set)))?;
    }
    Ok(())
}

/// Several at once on several threads.
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Batch {
    jobs: Vec<Job>,
}
fn batch(r: &mut Rng) -> Batch {
    Batch { jobs: (0..6).map(|_| job(r)).collect() }
}
fn one(j: &Job) -> String {
    text(&j.spec.openapi(), &j.output, &settings(&j.output, &j.set))
}
fn threads(b: &Batch, c: &mut Case) -> R {
    let alone: Vec<String> = b.jobs.iter().map(one).collect();
    c.nontrivial_if(b.jobs.len() > 1);
    let all: Vec<Vec<String>> = std::thread::scope(|s| {
        let h: Vec<_> = (0..4)
            .map(|k| s.spawn(move || (0..b.jobs.len()).map(|i| one(&b.jobs[(i + k) % b.jobs.len()])).collect::<Vec<_>>()))
            .collect();
        h.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    for (k, v) in all.iter().enumerate() {
        for i in 0..b.jobs.len() {
            let j = (i + k) % b.jobs.len();
            if v.get(i) != Some(&alone[j]) {
                return Err(Fail::new(format!("another output when generating concurrently (job {j}):{}", diff(&alone[j], v.get(i).map_or("", |s| s)))));
            }
        }
    }
    Ok(())
}

pub const CHILD: &str = "GENCHECK_P23_JOBS";
/// The other process: reads jobs, prints outputs.
pub fn child(file: &str) {
    let b: Batch = serde_json::from_slice(&std::fs::read(file).unwrap()).unwrap();
    let v: Vec<String> = b.jobs.iter().map(one).collect();
    println!("{}", serde_json::to_string(&v).unwrap());
}
fn processes(b: &Batch, c: &mut Case) -> R {
    let dir = std::env::temp_dir().join(format!("p23-{}", std::process::id()));
    std::fs::create_dir_all(dir.join("else/where")).map_err(|e| Fail::new(format!("check: {e}")))?;
    let r = processes_in(b, c, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn processes_in(b: &Batch, c: &mut Case, dir: &Path) -> R {
    let here: Vec<String> = b.jobs.iter().map(one).collect();
    c.nontrivial();
    let file = dir.join("jobs.json");
    std::fs::write(&file, serde_json::to_string(b).unwrap()).map_err(|e| Fail::new(format!("check: {e}")))?;
    for k in 0..2 {
        let mut cmd = Command::new(std::env::current_exe().unwrap());
        cmd.env_clear().env(CHILD, &file).stdin(Stdio::null()).stderr(Stdio::null());
        if k == 0 {
            cmd.current_dir(dir.join("else/where")).env("TZ", "Asia/Tokyo").env("LANG", "tr_TR.UTF-8").env("CARGO_PKG_NAME", "other").env("OUT_DIR", "/nonexistent");
        } else {
            cmd.current_dir("/").env("HOME", "/nonexistent").env("PROFILE", "release");
        }
        let o = cmd.output().map_err(|e| Fail::new(format!("check: {e}")))?;
        let v: Vec<String> = serde_json::from_slice(&o.stdout).map_err(|e| Fail::new(format!("check: child: {e}: {}", o.status)))?;
        for (i, (x, y)) in here.iter().zip(&v).enumerate() {
            if x != y {
                return Err(Fail::new(format!("another output in another process (job {i}):{}", diff(x, y))));
            }
        }
    }
    Ok(())
}

pub fn p23(cx: &mut Ctx) {
    cx.rule("Generated documents under generated settings (hooks, inner type, derives, patches, replacements, conversions, crates, map type); the output (code, what is asked of the type generator and with which settings) is compared in full between repetitions, clones, orders of independent settings, threads and processes with other environments and directories. Non-trivial: accepted document with at least one setting (repeat), several jobs (threads, processes).");
    cx.run("repeat", 1200, 30_000, gen(job, |j: &Job| j.spec.valid()), repeat);
    cx.run("threads", 50, 1000, gen(batch, |b: &Batch| b.jobs.iter().all(|j| j.spec.valid())), threads);
    cx.run("processes", 60, 1500, gen(batch, |b: &Batch| b.jobs.iter().all(|j| j.spec.valid())), processes);
}
