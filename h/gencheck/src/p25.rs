//! P25: the crate that cargo-progenitor writes.
use crate::doc::{self, Knobs, Spec};
use crate::p24;
use progenitor_impl::{GenerationSettings, Generator, InterfaceStyle, TagStyle};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Output, Stdio};
use vk::gen::{gen, Rng};
use vk::{Case, Ctx, Fail, R};

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Run {
    spec: Spec,
    release: bool,
    builder: bool,
    separate: bool,
    /// None: not said
    include: Option<bool>,
    registry: Option<String>,
    license: Option<String>,
    name: String,
    version: String,
    yaml: bool,
    long: bool,
    /// the document the directory held the crate of before
    before: Option<Spec>,
    flaw: Option<String>,
}

fn spec(r: &mut Rng) -> Spec {
    let k = Knobs { items: 1 + r.below(3), paginated: 25, websocket: 30, ..Knobs::default() };
    doc::spec(r, k)
}
fn run(r: &mut Rng) -> Run {
    let builder = r.chance(50);
    Run {
        spec: spec(r),
        release: r.chance(40),
        builder,
        separate: builder && r.chance(40),
        include: match r.below(3) {
            0 => None,
            n => Some(n == 1),
        },
        registry: r.chance(30).then(|| r.pick(&["crates-io", "my-registry", "r2"]).to_string()),
        license: r.chance(40).then(|| r.pick(&["MIT", "MPL-2.0", "Apache-2.0 OR MIT", "(MIT AND BSD-3-Clause)"]).to_string()),
        name: r.pick(&["sdk", "my-sdk", "my_sdk2", "Client"]).to_string(),
        version: r.pick(&["0.1.0", "1.2.3", "10.0.0-alpha.1", "0.0.1+meta"]).to_string(),
        yaml: r.chance(30),
        long: r.chance(50),
        before: r.chance(30).then(|| spec(r)),
        flaw: None,
    }
}
const FLAWS: &[&str] = &["version", "no-operation-id", "missing-file", "not-a-document", "separate-positional", "no-output", "interface", "dangling"];
fn flawed(r: &mut Rng) -> Run {
    let mut x = run(r);
    x.flaw = Some(r.pick(FLAWS).to_string());
    x
}

/// The version of the program and, in a release, of the client code.
const CLIENT: &str = "0.9.1";

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Result<Scratch, Fail> {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let d = std::env::temp_dir().join(format!("p25-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&d).map_err(io)?;
        Ok(Scratch(d))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn io(e: std::io::Error) -> Fail {
    Fail::new(format!("check: {e}"))
}

fn settings(x: &Run) -> GenerationSettings {
    let mut s = GenerationSettings::default();
    if x.builder {
        s.with_interface(InterfaceStyle::Builder);
    }
    if x.separate {
        s.with_tag(TagStyle::Separate);
    }
    s
}
fn generate(x: &Run) -> Result<String, Fail> {
    Generator::new(&settings(x)).generate_tokens(&x.spec.openapi()).map(|t| t.to_string()).map_err(|e| Fail::new(format!("generator refuses the document: {e}")))
}
fn document(x: &Run) -> Value {
    let mut d = x.spec.json();
    match x.flaw.as_deref() {
        Some("version") => d["openapi"] = json!("3.1.0"),
        Some("no-operation-id") => d["paths"]["/zzz"] = json!({"get": {"responses": {}}}),
        Some("dangling") => d["paths"]["/zzz"] = json!({"get": {"operationId": "zzz", "parameters": [{"$ref": "#/components/parameters/Gone"}], "responses": {}}}),
        _ => {}
    }
    d
}

fn program(release: bool) -> PathBuf {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    PathBuf::from(root).join("h/target/debug").join(if release { "cargo-progenitor-release" } else { "cargo-progenitor" })
}
/// Runs the program on the document; returns where the crate should be.
fn call(x: &Run, d: &Path) -> Result<(Output, PathBuf), Fail> {
    let input = d.join(if x.yaml { "api.yaml" } else { "the api.json" });
    let mut text = String::new();
    if x.yaml {
        p24::yaml(&document(x), 0, &mut text)
    } else {
        text = serde_json::to_string_pretty(&document(x)).unwrap();
    }
    match x.flaw.as_deref() {
        Some("missing-file") => {}
        Some("not-a-document") => std::fs::write(&input, "[1, 2").map_err(io)?,
        _ => std::fs::write(&input, text).map_err(io)?,
    }
    let out = d.join("out/deeper/crate");
    let mut c = Command::new("timeout");
    c.arg("60").arg(program(x.release)).arg("progenitor").stdin(Stdio::null()).current_dir(d).env_remove("RUST_LOG");
    let p = |l: &str, s: &str| if x.long || s.is_empty() { format!("--{l}") } else { format!("-{s}") };
    c.arg(p("input", "i")).arg(&input);
    if x.flaw.as_deref() != Some("no-output") {
        c.arg(p("output", "o")).arg(&out);
    }
    c.args([p("name", "n"), x.name.clone(), p("version", "v"), x.version.clone()]);
    match x.flaw.as_deref() {
        Some("interface") => {
            c.arg("--interface=fluent");
        }
        Some("separate-positional") => {
            c.args(["--interface", "positional", "--tags", "separate"]);
        }
        _ => {
            if x.builder {
                c.args(["--interface", "builder"]);
            } else if x.long {
                c.args(["--interface", "positional"]);
            }
            if x.separate {
                c.args(["--tags", "separate"]);
            } else if x.long {
                c.arg("--tags=merged");
            }
        }
    }
    if let Some(i) = x.include {
        c.args(["--include-client", if i { "true" } else { "false" }]);
    }
    if let Some(r) = &x.registry {
        c.args(["--registry-name", r]);
    }
    if let Some(l) = &x.license {
        c.args(["--license-name", l]);
    }
    Ok((c.output().map_err(io)?, out))
}
fn files(d: &Path) -> Result<BTreeMap<String, Vec<u8>>, Fail> {
    let mut v = BTreeMap::new();
    fn go(top: &Path, d: &Path, v: &mut BTreeMap<String, Vec<u8>>) -> std::io::Result<()> {
        for e in std::fs::read_dir(d)? {
            let p = e?.path();
            if p.is_dir() {
                go(top, &p, v)?;
            } else {
                v.insert(p.strip_prefix(top).unwrap().to_string_lossy().into_owned(), std::fs::read(&p)?);
            }
        }
        Ok(())
    }
    if d.exists() {
        go(d, d, &mut v).map_err(io)?;
    }
    Ok(v)
}

/// The two tables of the manifest, values as written.
fn manifest(s: &str) -> Result<BTreeMap<String, BTreeMap<String, String>>, Fail> {
    let mut m: BTreeMap<String, BTreeMap<String, String>> = BTreeMap::new();
    let mut at = String::new();
    for l in s.lines().map(str::trim).filter(|l| !l.is_empty() && !l.starts_with('#')) {
        if let Some(t) = l.strip_prefix('[').and_then(|l| l.strip_suffix(']')) {
            at = t.trim().to_string();
            m.entry(at.clone()).or_default();
            continue;
        }
        let (k, v) = l.split_once('=').ok_or_else(|| Fail::new(format!("Cargo.toml has the line {l:?}")))?;
        if m.entry(at.clone()).or_default().insert(k.trim().to_string(), v.trim().to_string()).is_some() {
            return Err(Fail::new(format!("Cargo.toml says {k} twice")));
        }
    }
    Ok(m)
}
/// First segments of paths that could be crates.
fn crates_used(code: &str) -> Vec<&'static str> {
    const ALL: &[(&str, &str)] = &[
        ("base64", "base64"), ("bytes", "bytes"), ("chrono", "chrono"), ("futures", "futures"), ("futures_core", "futures-core"), ("percent_encoding", "percent-encoding"),
        ("rand", "rand"), ("regress", "regress"), ("reqwest", "reqwest"), ("serde", "serde"), ("serde_json", "serde_json"), ("serde_urlencoded", "serde_urlencoded"), ("uuid", "uuid"),
    ];
    let t: Vec<String> = p24::flat(code).unwrap_or_default();
    ALL.iter()
        .filter(|(c, _)| {
            (0..t.len()).any(|i| {
                t[i] == *c
                    && t.get(i + 1).map(String::as_str) == Some(":")
                    && t.get(i + 2).map(String::as_str) == Some(":")
                    // not further down another path
                    && !(i >= 3 && t[i - 1] == ":" && t[i - 2] == ":" && t[i - 3].bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_') && !["use", "pub", "as", "dyn", "mut", "impl", "return", "in"].contains(&t[i - 3].as_str()))
            })
        })
        .map(|(_, d)| *d)
        .collect()
}

fn written(x: &Run, c: &mut Case) -> R {
    let d = Scratch::new()?;
    c.label(if x.release { "as released" } else { "as developed" });
    c.nontrivial();
    if let Some(b) = &x.before {
        c.label("over another crate");
        let y = Run { spec: b.clone(), include: Some(true), ..x.clone() };
        call(&y, &d.0)?;
    }
    let (o, at) = call(x, &d.0)?;
    if !o.status.success() {
        return Err(Fail::new(format!("cargo-progenitor ends with {}: {}", o.status, String::from_utf8_lossy(&o.stderr))));
    }
    let f = files(&at)?;
    let text = |n: &str| -> Result<String, Fail> { f.get(n).map(|b| String::from_utf8_lossy(b).into_owned()).ok_or_else(|| Fail::new(format!("no file {n}, only {:?}", f.keys()))) };
    // the code
    let lib = text("src/lib.rs")?;
    let api = generate(x)?;
    let with = rustfmt_wrapper::rustfmt(format!("mod progenitor_client;\n\n{api}")).map_err(|e| Fail::new(format!("check: rustfmt: {e}")))?;
    let without = rustfmt_wrapper::rustfmt(&api).map_err(|e| Fail::new(format!("check: rustfmt: {e}")))?;
    let (got, with, without) = (p24::flat(&lib)?, p24::flat(&with)?, p24::flat(&without)?);
    let include = match x.include {
        Some(i) => i,
        None => got == with,
    };
    let want = if include { &with } else { &without };
    if got != *want {
        let k = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        let cut = |v: &[String]| v[k.saturating_sub(8).min(v.len())..(k + 20).min(v.len())].join(" ");
        return Err(Fail::new(format!("lib.rs has ... {}\nexpected ... {}", cut(&got), cut(want))));
    }
    // the support code
    if include {
        if text("src/progenitor_client.rs")? != progenitor_client::code() {
            return Err(Fail::new("src/progenitor_client.rs is not progenitor-client's code"));
        }
    }
    for n in f.keys() {
        let known = ["Cargo.toml", "src/lib.rs", "src/progenitor_client.rs"].contains(&n.as_str());
        if !known || (n.ends_with("client.rs") && !include && x.before.is_none()) {
            return Err(Fail::new(format!("unexpected file {n}")));
        }
    }
    // the manifest
    let toml = text("Cargo.toml")?;
    let m = manifest(&toml)?;
    let none = BTreeMap::new();
    let p = m.get("package").unwrap_or(&none);
    let said = |k: &str| p.get(k).cloned();
    let q = |s: &str| Some(format!("\"{s}\""));
    for (k, want) in [("name", q(&x.name)), ("version", q(&x.version)), ("publish", x.registry.as_ref().map(|r| format!("[\"{r}\"]")))] {
        if said(k) != want {
            return Err(Fail::new(format!("the manifest has {k} = {:?}, expected {want:?}\n{toml}", said(k))));
        }
    }
    if said("edition").is_none() || x.license.as_ref().is_some_and(|l| said("license") != q(l)) || said("license").is_none() {
        return Err(Fail::new(format!("the manifest lacks edition or license {:?}\n{toml}", x.license)));
    }
    let deps = m.get("dependencies").unwrap_or(&none);
    let mut used = crates_used(&lib);
    if include {
        used.extend(crates_used(progenitor_client::code()));
        if deps.contains_key("progenitor-client") {
            return Err(Fail::new("the client code is included and also depended on"));
        }
    } else if !deps.contains_key("progenitor-client") {
        return Err(Fail::new(format!("neither includes nor depends on progenitor-client\n{toml}")));
    }
    if let (true, Some(v)) = (x.release, deps.get("progenitor-client")) {
        // what a released program writes goes with the client code of that release
        if !v.contains(CLIENT) {
            return Err(Fail::new(format!("the released program depends on progenitor-client {v}, not {CLIENT}")));
        }
    }
    for u in used {
        c.label(u);
        if !deps.contains_key(u) {
            return Err(Fail::new(format!("the code uses {u}, which the manifest does not depend on\n{toml}")));
        }
    }
    Ok(())
}

fn refused(x: &Run, c: &mut Case) -> R {
    let d = Scratch::new()?;
    c.nontrivial();
    c.label(x.flaw.as_deref().unwrap_or(""));
    if let Some(b) = &x.before {
        let y = Run { spec: b.clone(), flaw: None, ..x.clone() };
        let (o, _) = call(&y, &d.0)?;
        if !o.status.success() {
            return Err(Fail::new(format!("cargo-progenitor ends with {}: {}", o.status, String::from_utf8_lossy(&o.stderr))));
        }
        if x.flaw.as_deref() == Some("missing-file") {
            let _ = std::fs::remove_file(d.0.join("api.yaml"));
            let _ = std::fs::remove_file(d.0.join("the api.json"));
        }
    }
    let was = files(&d.0.join("out"))?;
    let (o, _) = call(x, &d.0)?;
    if o.status.success() {
        return Err(Fail::new(format!("cargo-progenitor succeeds in spite of {:?}", x.flaw)));
    }
    if o.status.code() == Some(124) {
        return Err(Fail::new("cargo-progenitor does not end"));
    }
    if files(&d.0.join("out"))? != was {
        return Err(Fail::new(format!("cargo-progenitor fails ({:?}) but writes to the output directory", x.flaw)));
    }
    Ok(())
}

fn queries(s: &Spec) -> bool {
    s.valid() && s.items.iter().any(|i| i.ops.iter().any(|o| o.params.iter().any(|p| matches!(p.loc, doc::Loc::Query))))
}

/// Crates as they come out, each built on its own.
fn builds(cx: &mut Ctx) {
    if !cx.section_enabled("builds") {
        return;
    }
    let check = |xs: &[Run]| -> Result<Vec<R>, Fail> {
        let d = Scratch::new()?;
        let mut names = vec![];
        for (k, x) in xs.iter().enumerate() {
            let x = Run { name: format!("c{k}"), ..x.clone() };
            let w = Scratch::new()?;
            let (o, at) = call(&x, &w.0)?;
            if !o.status.success() {
                names.push(None);
                continue;
            }
            for (n, b) in files(&at)? {
                let p = d.0.join(format!("c{k}")).join(n);
                std::fs::create_dir_all(p.parent().unwrap()).map_err(io)?;
                std::fs::write(p, b).map_err(io)?;
            }
            names.push(Some(x.name));
        }
        let members: Vec<String> = names.iter().flatten().map(|n| format!("{n:?}")).collect();
        let root = format!("[workspace]\nresolver = \"2\"\nmembers = [{}]\n[patch.crates-io]\nprogenitor-client = {{ path = \"/repo/progenitor-client\" }}\n[profile.dev]\ndebug = 0\nincremental = false\n", members.join(", "));
        std::fs::write(d.0.join("Cargo.toml"), root).map_err(io)?;
        let target = program(false).parent().unwrap().join("../cp");
        let mut v = vec![];
        for n in names {
            let Some(n) = n else {
                v.push(Err(Fail::new("cargo-progenitor fails")));
                continue;
            };
            let build = || -> Result<Option<String>, Fail> {
                let o = Command::new("cargo")
                    .args(["check", "--offline", "-q", "-p", &n])
                    .current_dir(&d.0)
                    .env("CARGO_TARGET_DIR", &target)
                    .env("RUSTFLAGS", "-Awarnings")
                    .output()
                    .map_err(io)?;
                Ok((!o.status.success()).then(|| String::from_utf8_lossy(&o.stderr).into_owned()))
            };
            let fail = |log: &str| Fail::new(format!("the crate does not build: {}", log.chars().take(1200).collect::<String>()));
            v.push(match build()? {
                None => Ok(()),
                Some(log) => {
                    // known: the builder module names the included client as if it were a crate
                    let errors: Vec<&str> = log.lines().filter(|l| l.starts_with("error")).collect();
                    let unnamed = |l: &&&str| l.starts_with("error[E0433]") && l.contains("`progenitor_client`");
                    let lib = d.0.join(&n).join("src/lib.rs");
                    let text = std::fs::read_to_string(&lib).map_err(io)?;
                    let head = "\npub mod builder {";
                    if errors.iter().any(|l| unnamed(&l)) && text.contains("mod progenitor_client;") && text.contains(head) {
                        std::fs::write(&lib, text.replacen(head, &format!("{head} use crate::progenitor_client;"), 1)).map_err(io)?;
                        match build()? {
                            None => Err(Fail::sig(fail(&log).msg, "builder-included-client")),
                            Some(log) => Err(fail(&log)),
                        }
                    } else {
                        Err(fail(&log))
                    }
                }
            });
        }
        Ok(v)
    };
    let checked = |xs: &[Run]| {
        check(xs).unwrap_or_else(|f| {
            eprintln!("check error: {}", f.msg);
            std::process::exit(3)
        })
    };
    if let Some(x) = cx.replay_case::<Run>("builds") {
        match checked(std::slice::from_ref(&x)).remove(0) {
            Ok(()) => println!("replay: case passes"),
            Err(f) => {
                cx.report("builds", &f, serde_json::to_value(&x).unwrap());
            }
        }
    }
    if cx.replaying() {
        return;
    }
    let mut r = cx.source("builds");
    for _ in 0..cx.cases(1, 20) {
        let xs: Vec<Run> = (0..14)
            .map(|k| {
                let mut x = run(&mut r);
                // each kind of operation alone, so that nothing else asks for its crates
                let want = |o: &doc::Op| match k % 4 {
                    0 => o.websocket,
                    1 => o.paginated,
                    2 => !o.websocket && !o.paginated,
                    _ => true,
                };
                for i in &mut x.spec.items {
                    i.ops.retain(want);
                }
                x.spec.items.retain(|i| !i.ops.is_empty());
                x.before = None;
                if k == 3 {
                    while !queries(&x.spec) {
                        x.spec = spec(&mut r);
                    }
                    (x.builder, x.include) = (true, Some(true));
                }
                x
            })
            .collect();
        for (x, v) in xs.iter().zip(checked(&xs)) {
            let mut c = Case::default();
            c.nontrivial_if(!x.spec.items.is_empty());
            match v {
                Ok(()) => cx.note_case("builds", format!("{x:?}"), || json!({"builder": x.builder, "include": x.include}), c),
                Err(f) => {
                    if !cx.report("builds", &f, serde_json::to_value(x).unwrap()) {
                        return;
                    }
                }
            }
        }
    }
}

pub fn p25(cx: &mut Ctx) {
    cx.rule("crate: cargo-progenitor is run on generated documents (JSON or YAML) with generated options, also over the crate of another document; manifest, code and support code are compared with the generator's output, the options and the crates the code names. refused: inputs with one generated flaw must fail and write nothing. builds: generated crates are compiled, each alone. All cases count, crates without operations excepted.");
    let ok = |x: &Run| x.spec.valid() && x.before.as_ref().is_none_or(Spec::valid);
    cx.run("crate", 100, 4_000, gen(run, ok), written);
    cx.run("refused", 50, 1_500, gen(flawed, ok), refused);
    builds(cx);
}
