//! P24: settings reach what they are for, from the macro as from the builder interface.
use crate::doc::{self, Knobs, Spec};
use crate::p23::{self, Set};
use progenitor_impl::{CrateVers, Generator, TypeImpl, TypePatch, UnknownPolicy};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::fmt::Write as _;
use std::path::PathBuf;
use std::process::Command;
use vk::gen::{gen, Rng};
use vk::{Case, Ctx, Fail, R};

// ------------------------------------------------------------ type settings

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Chosen {
    output: String,
    set: Vec<Set>,
}
fn chosen(r: &mut Rng) -> Chosen {
    let output = r.pick(&["positional", "builder"]).to_string();
    let mut set = p23::set(r, true);
    if r.chance(25) {
        // said again, otherwise
        set.extend(p23::set(r, true));
    }
    Chosen { output, set }
}
fn impls(v: &[String]) -> std::collections::BTreeSet<TypeImpl> {
    v.iter().map(|s| s.parse().unwrap()).collect()
}
/// What the type generator is to be told.
fn wanted(c: &Chosen) -> typify::TypeSpaceSettings {
    let mut w = typify::TypeSpaceSettings { type_mod: Some("types".into()), struct_builder: c.output == "builder", ..Default::default() };
    for s in &c.set {
        match s {
            Set::Derive(d) if !w.derives.contains(d) => w.derives.push(d.clone()),
            Set::Patch(n, rename, derives) => {
                w.patch.insert(n.clone(), TypePatch { rename: rename.clone(), derives: derives.clone() });
            }
            Set::Replace(n, to, i) => {
                w.replace.insert(n.clone(), (to.clone(), impls(i)));
            }
            Set::Convert(s, to, i) => w.convert.push((serde_json::from_value(s.clone()).unwrap(), to.clone(), impls(i))),
            Set::Crate(n, v, rename) => {
                let version = match v.as_str() {
                    "*" => CrateVers::Any,
                    "!" => CrateVers::Never,
                    v => CrateVers::Version(v.into()),
                };
                w.crates.insert(n.clone(), typify::Crate { version, rename: rename.clone() });
            }
            Set::Unknown(n) => w.unknown_crates = [UnknownPolicy::Generate, UnknownPolicy::Allow, UnknownPolicy::Deny][*n as usize],
            Set::Map(m) => w.map_type = Some(m.clone()),
            _ => {}
        }
    }
    w
}
fn told(c: &Chosen, k: &mut Case) -> R {
    k.nontrivial_if(!c.set.is_empty());
    let s = p23::settings(&c.output, &c.set);
    let want = wanted(c);
    for g in [Generator::new(&s), Generator::new(&s.clone())] {
        let got = g.get_type_space().settings();
        if *got != want {
            return Err(Fail::new(format!("the type generator is set up with {got:?}\nexpected {want:?}")));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- the macro

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
struct File {
    name: String,
    yaml: bool,
    absolute: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Use {
    spec: Spec,
    output: String,
    set: Vec<Set>,
    file: File,
    /// how it is written down
    form: u64,
    /// what is wrong with it
    flaw: Option<String>,
}

fn dir() -> PathBuf {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    PathBuf::from(root).join("h/target/mac")
}
pub fn yaml(v: &Value, indent: usize, out: &mut String) {
    let pad = " ".repeat(indent);
    match v {
        Value::Object(o) if !o.is_empty() => {
            for (k, v) in o {
                let plain = k.bytes().all(|b| b.is_ascii_alphabetic() || b == b'-') && k.len() > 4;
                let k = if plain { k.clone() } else { Value::from(k.as_str()).to_string() };
                nest(v, &format!("{pad}{k}:"), indent, out);
            }
        }
        Value::Array(a) if !a.is_empty() => {
            for v in a {
                nest(v, &format!("{pad}-"), indent, out);
            }
        }
        v => writeln!(out, "{pad}{v}").unwrap(),
    }
}
fn nest(v: &Value, head: &str, indent: usize, out: &mut String) {
    match v {
        Value::Object(o) if !o.is_empty() => {
            writeln!(out, "{head}").unwrap();
            yaml(v, indent + 2, out)
        }
        Value::Array(o) if !o.is_empty() => {
            writeln!(out, "{head}").unwrap();
            yaml(v, indent + 2, out)
        }
        v => writeln!(out, "{head} {v}").unwrap(),
    }
}
fn schema_tokens(v: &Value) -> String {
    match v {
        Value::Object(o) => {
            let m: Vec<String> = o
                .iter()
                .map(|(k, v)| {
                    let word = k.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_');
                    let k = if word { k.clone() } else { format!("{k:?}") };
                    format!("{k} = {}", schema_tokens(v))
                })
                .collect();
            format!("{{ {} }}", m.join(", "))
        }
        Value::Array(a) => format!("[{}]", a.iter().map(schema_tokens).collect::<Vec<_>>().join(", ")),
        v => v.to_string(),
    }
}
fn impl_tokens(r: &mut Rng, i: &[String]) -> String {
    // FromStr and Display unless taken back
    let mut v = vec![];
    for t in ["FromStr", "Display"] {
        if !i.iter().any(|x| x == t) {
            v.push(format!("?{t}"));
        } else if r.chance(30) {
            v.push(t.to_string());
        }
    }
    if i.iter().any(|x| x == "Default") {
        v.push("Default".into());
    } else if r.chance(20) {
        v.push("?Default".into());
    }
    r.shuffle(&mut v);
    if v.is_empty() {
        String::new()
    } else {
        format!(": {}", v.join(" + "))
    }
}
fn path_literal(r: &mut Rng, p: &str) -> String {
    if r.chance(25) && !p.contains("\"#") {
        format!("r#\"{p}\"#")
    } else {
        format!("{p:?}")
    }
}

/// The arguments of the macro.
fn args(u: &Use, path: &str) -> String {
    let r = &mut Rng::new(u.form);
    let flaw = u.flaw.as_deref();
    let lit = path_literal(r, path);
    if u.set.is_empty() && u.output == "positional" && flaw.is_none() && r.chance(50) {
        return lit;
    }
    let mut m: Vec<String> = vec![];
    if flaw != Some("no spec") {
        m.push(format!("spec = {lit}"));
    }
    match flaw {
        Some("interface") => m.push("interface = Fluent".into()),
        Some("positional tags") => m.push("interface = Positional, tags = Separate".into()),
        _ if u.output == "builder" => m.push("interface = Builder".into()),
        _ if r.chance(30) => m.push("interface = Positional".into()),
        _ => {}
    }
    let (mut patch, mut replace, mut convert, mut crates, mut derives) = (vec![], vec![], vec![], vec![], vec![]);
    let mut tags = false;
    for s in &u.set {
        match s {
            Set::Tagged => {
                tags = true;
                m.push("tags = Separate".into())
            }
            Set::Inner(t) => m.push(format!("inner_type = {t}")),
            Set::Hook(k, f) => {
                let name = ["pre_hook", "pre_hook_async", "post_hook", "post_hook_async"][*k as usize % 4];
                // only what stands in parentheses may contain commas
                let n = if f.contains('|') { 1 + r.below(2) } else { r.below(3) };
                m.push(format!("{name} = {}{f}{}", "(".repeat(n), ")".repeat(n)));
            }
            Set::Derive(d) => derives.push(d.clone()),
            Set::Patch(n, rename, d) => {
                let mut p = vec![];
                if let Some(x) = rename {
                    p.push(if r.chance(50) { format!("rename = {x:?}") } else { format!("rename = {x}") });
                }
                if !d.is_empty() || r.chance(20) {
                    p.push(format!("derives = [{}]", d.join(", ")));
                }
                patch.push(format!("{n} = {{ {} }}", p.join(", ")));
            }
            Set::Replace(n, to, i) => replace.push(format!("{n} = {to}{}", impl_tokens(r, i))),
            Set::Convert(s, to, i) => convert.push(format!("{} = {to}{}", schema_tokens(s), impl_tokens(r, i))),
            Set::Crate(n, v, None) => crates.push(format!("{n:?} = {v:?}")),
            Set::Crate(n, v, Some(x)) => crates.push(format!("{x:?} = {:?}", format!("{n}@{v}"))),
            Set::Unknown(n) => m.push(format!("unknown_crates = {}", ["Generate", "Allow", "Deny"][*n as usize % 3])),
            Set::Map(t) => m.push(format!("map_type = {t}")),
        }
    }
    match flaw {
        Some("crate version") => crates.push(format!("\"flawed\" = {:?}", r.pick(&["1.x", "", "one", "orig@", "orig@1.y.0", "@", "1.0.0 "]))),
        Some("crate name") => crates.push(r.pick(&["\"a b\" = \"1.0.0\"", "\"a/b\" = \"*\"", "\"flawed\" = \"a.b@1.0.0\"", "\"flawed\" = \"a b@*\"", "\"x::y\" = \"!\""]).to_string()),
        Some("patch") => patch.push(r.pick(&["Flawed = { colour = 3 }", "Flawed = 3", "Flawed = { derives = Eq }", "Flawed = { derives = [3] }", "3 = { }"]).to_string()),
        Some("replace") => replace.push(r.pick(&["Flawed = 5", "Flawed = a::B: ", "Flawed = ", "Flawed = a::B +", "a::b = C"]).to_string()),
        Some("convert") => convert.push(r.pick(&["3 = a::B", "{ type = \"nothing\" } = a::B", "{ type = \"string\" } = 4"]).to_string()),
        Some("hook") => m.push(r.pick(&["pre_hook = 5", "post_hook_async = \"crate::f\"", "pre_hook = ()", "post_hook = [a]"]).to_string()),
        Some("derives") => derives.push(r.pick(&["3", "\"Eq\"", "Eq +"]).to_string()),
        Some("unknown key") => m.push(r.pick(&["colour = 3", "interfaces = Builder", "pre_hooks = a::b", "struct_buidler = true"]).to_string()),
        Some("tags") => m.push("tags = Mixed".into()),
        Some("unknown_crates") => m.push("unknown_crates = Maybe".into()),
        Some("inner type") => m.push(r.pick(&["inner_type = 4", "inner_type = fn"]).to_string()),
        Some("twice") => m.push("spec = \"other.json\"".into()),
        _ => {}
    }
    if !tags && !matches!(flaw, Some("tags" | "positional tags")) && r.chance(20) {
        m.push("tags = Merged".into());
    }
    for (k, v, o, c) in [("patch", patch, '{', '}'), ("replace", replace, '{', '}'), ("convert", convert, '{', '}'), ("crates", crates, '{', '}'), ("derives", derives, '[', ']')] {
        if !v.is_empty() || r.chance(5) {
            let tail = if !v.is_empty() && r.chance(30) { "," } else { "" };
            m.push(format!("{k} = {o} {}{tail} {c}", v.join(", ")));
        }
    }
    r.shuffle(&mut m);
    let tail = if r.chance(40) { "," } else { "" };
    format!("{}{tail}", m.join(", "))
}

const FLAWS: &[&str] = &[
    "no spec", "interface", "positional tags", "crate version", "crate name", "patch", "replace", "convert", "hook", "derives", "unknown key", "tags", "unknown_crates",
    "inner type", "twice", "missing file", "not a document", "refused document", "document version",
];

fn spec(r: &mut Rng) -> Spec {
    let k = Knobs { items: 1 + r.below(2), paginated: 10, ..Knobs::default() };
    doc::spec(r, k)
}
fn one_use(r: &mut Rng, n: usize, flawed: bool) -> Use {
    let output = r.pick(&["positional", "builder"]).to_string();
    let set = if r.chance(15) { vec![] } else { p23::set(r, output == "builder") };
    let stem = *r.pick(&["d{}.json", "sub dir/d{}.json", "d{}.yaml", "d'{}.yml", "é{}.txt", "a/../d{}.json", "api-{}"]);
    let file = File { name: stem.replace("{}", &n.to_string()), yaml: r.chance(35), absolute: r.chance(15) };
    let flaw = flawed.then(|| r.pick(FLAWS).to_string());
    let mut u = Use { spec: spec(r), output, set, file, form: r.u64(), flaw };
    if u.flaw.as_deref() == Some("positional tags") {
        u.output = "positional".into();
        u.set.retain(|s| *s != Set::Tagged);
    }
    u
}

fn write_doc(u: &Use, second: bool) -> Result<String, Fail> {
    let e = |e: std::io::Error| Fail::new(format!("check: {e}"));
    let docs = dir().join("docs");
    std::fs::create_dir_all(docs.join("sub dir")).map_err(e)?;
    std::fs::create_dir_all(docs.join("a")).map_err(e)?;
    let f = docs.join(&u.file.name);
    let mut d = u.spec.json();
    if second {
        // the same document with one operation more
        d["paths"]["/added/later"] = json!({"get": {"operationId": "added_later", "responses": {"204": {"description": "none"}}}});
    }
    match u.flaw.as_deref() {
        Some("refused document") => d["paths"]["/a"] = json!({"get": {"responses": {}}}),
        Some("document version") => d["openapi"] = json!("3.1.0"),
        _ => {}
    }
    let mut text = String::new();
    if u.file.yaml {
        yaml(&d, 0, &mut text);
    } else {
        text = d.to_string();
    }
    match u.flaw.as_deref() {
        Some("missing file") => {
            let _ = std::fs::remove_file(&f);
        }
        Some("not a document") => std::fs::write(&f, if u.file.yaml { "just text" } else { "[1, 2" }).map_err(e)?,
        _ => {
            if std::fs::read_to_string(&f).ok().as_deref() != Some(&text) {
                std::fs::write(&f, &text).map_err(e)?
            }
        }
    }
    // as given to the macro: relative to the manifest, or absolute
    Ok(if u.file.absolute { f.to_string_lossy().into_owned() } else { format!("../target/mac/docs/{}", u.file.name) })
}

/// Token for token, literals by value.
pub fn flat(s: &str) -> Result<Vec<String>, Fail> {
    use proc_macro2::{TokenStream, TokenTree};
    fn go(t: TokenStream, out: &mut Vec<String>) {
        for t in t {
            match t {
                TokenTree::Group(g) => {
                    out.push(format!("{:?} open", g.delimiter()));
                    go(g.stream(), out);
                    out.push(format!("{:?} close", g.delimiter()));
                }
                TokenTree::Literal(l) => out.push(match syn::parse_str::<syn::Lit>(&l.to_string()) {
                    // types are spelled out in some messages
                    Ok(syn::Lit::Str(s)) => format!("{:?}", squeezed(&s.value())),
                    _ => l.to_string(),
                }),
                t => out.push(t.to_string()),
            }
        }
    }
    let t: TokenStream = s.parse().map_err(|e| Fail::new(format!("not tokens: {e}")))?;
    let mut v = vec![];
    go(t, &mut v);
    Ok(v)
}
fn squeezed(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

enum Build {
    /// what each use expands to
    Done(Vec<[String; 3]>),
    /// messages by use
    Errors(Vec<Option<String>>),
}
/// Compiles a program with all the uses, one per line.
fn expand(uses: &[Use], bin: &str, second: bool) -> Result<Build, Fail> {
    let mut src = String::new();
    for (k, u) in uses.iter().enumerate() {
        let path = write_doc(u, second)?;
        writeln!(src, "pub mod m{k} {{ progenitor::generate_api!({}); }}", args(u, &path)).unwrap();
    }
    let all: Vec<String> = (0..uses.len()).map(|k| format!("m{k}::CODE")).collect();
    let list = if bin == "good" { all.join(", ") } else { String::new() };
    writeln!(src, "fn main() {{ let all: Vec<[&str; 3]> = vec![{list}]; println!(\"{{}}\", serde_json::to_string(&all).unwrap()); }}").unwrap();
    let f = dir().join(format!("{bin}.rs"));
    if std::fs::read_to_string(&f).ok().as_deref() != Some(&src) {
        std::fs::write(&f, src).map_err(|e| Fail::new(format!("check: {e}")))?;
    }
    let mut c = Command::new("cargo");
    c.current_dir(dir().join("../.."));
    c.args([if bin == "good" { "build" } else { "check" }, "--offline", "-q", "-p", "mac", "--bin", bin, "--message-format=short"]);
    let o = c.output().map_err(|e| Fail::new(format!("check: {e}")))?;
    let log = String::from_utf8_lossy(&o.stderr).into_owned();
    if !o.status.success() || bin == "bad" {
        let mut v: Vec<Option<String>> = vec![None; uses.len()];
        let mut any = false;
        for l in log.lines() {
            let Some((_, rest)) = l.split_once(&format!("{bin}.rs:")) else { continue };
            let Some((n, rest)) = rest.split_once(':') else { continue };
            let (Ok(n), true) = (n.parse::<usize>(), rest.contains(": error")) else { continue };
            if n >= 1 && n <= uses.len() {
                any = true;
                v[n - 1].get_or_insert(rest.into());
            }
        }
        if bin == "good" && !any {
            return Err(Fail::new(format!("check: build of the program fails: {}", log.chars().take(1500).collect::<String>())));
        }
        return Ok(Build::Errors(v));
    }
    let o = Command::new(dir().join(format!("../debug/{bin}"))).output().map_err(|e| Fail::new(format!("check: {e}")))?;
    serde_json::from_slice(&o.stdout).map(Build::Done).map_err(|e| Fail::new(format!("check: output of the program: {e}")))
}

fn expected(u: &Use, second: bool) -> Result<[String; 3], Fail> {
    let mut d = u.spec.json();
    if second {
        d["paths"]["/added/later"] = json!({"get": {"operationId": "added_later", "responses": {"204": {"description": "none"}}}});
    }
    let api = serde_json::from_value(d).map_err(|e| Fail::new(format!("check: document: {e}")))?;
    let s = p23::settings(&u.output, &u.set);
    let mut g = Generator::new(&s);
    let code = g.generate_tokens(&api).map_err(|e| Fail::new(format!("generator refuses the document: {e}")))?.to_string();
    let ts = g.get_type_space();
    Ok([code, format!("{:?}", ts.settings()), format!("{:?}", ts.asked())])
}
fn matches(u: &Use, got: &[String; 3], second: bool) -> R {
    let want = expected(u, second)?;
    let (g, w) = (flat(&got[0])?, flat(&want[0])?);
    if g != w {
        let at = g.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len()));
        let cut = |v: &[String]| v[at.saturating_sub(12).min(v.len())..(at + 25).min(v.len())].join(" ");
        return Err(Fail::new(format!("the macro yields ... {}\nexpected ... {}", cut(&g), cut(&w))));
    }
    for (k, what) in [(1, "sets up the type generator with"), (2, "asks the type generator for")] {
        if squeezed(&got[k]) != squeezed(&want[k]) {
            return Err(Fail::new(format!("the macro {what} {}\nexpected {}", got[k], want[k])));
        }
    }
    Ok(())
}

/// The outcome of every use.
fn verdicts(uses: &[Use], second: bool) -> Result<Vec<R>, Fail> {
    Ok(match expand(uses, "good", second)? {
        Build::Done(v) => uses.iter().zip(&v).map(|(u, g)| matches(u, g, second)).collect(),
        Build::Errors(v) => v.into_iter().map(|e| e.map_or(Ok(()), |e| Err(Fail::new(format!("the macro is refused: {e}"))))).collect(),
    })
}
/// Smaller uses that still fail, found a batch at a time.
fn smaller(mut u: Use, mut f: Fail, second: bool) -> (Use, Fail) {
    for _ in 0..6 {
        let mut cand = vec![];
        let mut half = u.clone();
        half.set.truncate(u.set.len() / 2);
        cand.push(half);
        let mut half = u.clone();
        half.set.drain(..u.set.len() / 2);
        cand.push(half);
        for k in 0..u.set.len() {
            let mut c = u.clone();
            c.set.remove(k);
            cand.push(c);
        }
        let mut c = u.clone();
        c.spec.items.truncate(1);
        if let Some(i) = c.spec.items.first_mut() {
            i.ops.truncate(1);
        }
        cand.push(c);
        cand.retain(|c| c.set.len() < u.set.len() || format!("{:?}", c.spec) != format!("{:?}", u.spec));
        for (k, c) in cand.iter_mut().enumerate() {
            c.file.name = format!("small{k}");
        }
        if cand.is_empty() {
            break;
        }
        let Ok(v) = verdicts(&cand, second) else { break };
        let Some((c, e)) = cand.into_iter().zip(v).find_map(|(c, v)| v.err().map(|e| (c, e))) else { break };
        (u, f) = (c, e);
    }
    (u, f)
}

fn checked<T>(r: Result<T, Fail>) -> T {
    r.unwrap_or_else(|f| {
        eprintln!("check error: {}", f.msg);
        std::process::exit(3)
    })
}

fn macros(cx: &mut Ctx) {
    if !cx.section_enabled("macro") {
        return;
    }
    if let Some(u) = cx.replay_case::<Use>("macro") {
        match checked(verdicts(std::slice::from_ref(&u), false)).remove(0) {
            Ok(()) => println!("replay: case passes"),
            Err(f) => {
                cx.report("macro", &f, serde_json::to_value(&u).unwrap());
            }
        }
    }
    if let Some(u) = cx.replay_case::<Use>("changed") {
        checked(verdicts(std::slice::from_ref(&u), false));
        match checked(verdicts(std::slice::from_ref(&u), true)).remove(0) {
            Ok(()) => println!("replay: case passes"),
            Err(f) => {
                cx.report("changed", &f, serde_json::to_value(&u).unwrap());
            }
        }
    }
    if cx.replaying() {
        return;
    }
    let mut r = cx.source("macro");
    for _ in 0..cx.cases(2, 40) {
        let uses: Vec<Use> = (0..110).map(|n| one_use(&mut r, n, false)).collect();
        for second in [false, true] {
            let section = if second { "changed" } else { "macro" };
            let v = checked(verdicts(&uses, second));
            for (u, v) in uses.iter().zip(v) {
                let mut c = Case::default();
                c.nontrivial_if(second || !u.set.is_empty());
                match v {
                    Ok(()) => cx.note_case(section, format!("{u:?}"), || json!({"args": args(u, &u.file.name), "yaml": u.file.yaml}), c),
                    Err(f) => {
                        let (u, f) = if second { (u.clone(), f) } else { smaller(u.clone(), f, second) };
                        cx.report(section, &f, serde_json::to_value(&u).unwrap());
                        return;
                    }
                }
            }
        }
    }
}

fn refusals(cx: &mut Ctx) {
    if !cx.section_enabled("macro-refused") {
        return;
    }
    let one = |uses: &[Use]| -> Vec<R> {
        let Build::Errors(v) = checked(expand(uses, "bad", false)) else { unreachable!() };
        uses.iter()
            .zip(v)
            .map(|(u, e)| match (&u.flaw, e) {
                (Some(f), None) => Err(Fail::sig(format!("no error for a use flawed in its {f}: {}", args(u, &u.file.name)), f.clone())),
                _ => Ok(()),
            })
            .collect()
    };
    if let Some(u) = cx.replay_case::<Use>("macro-refused") {
        match one(std::slice::from_ref(&u)).remove(0) {
            Ok(()) => println!("replay: case passes"),
            Err(f) => {
                cx.report("macro-refused", &f, serde_json::to_value(&u).unwrap());
            }
        }
    }
    if cx.replaying() {
        return;
    }
    let mut r = cx.source("macro-refused");
    for _ in 0..cx.cases(2, 40) {
        let uses: Vec<Use> = (0..120).map(|n| one_use(&mut r, n + 1000, true)).collect();
        let v = one(&uses);
        for (u, v) in uses.iter().zip(v) {
            let mut c = Case::default();
            c.nontrivial();
            c.label(u.flaw.as_deref().unwrap());
            match v {
                Ok(()) => cx.note_case("macro-refused", format!("{u:?}"), || json!({"args": args(u, &u.file.name), "flaw": u.flaw}), c),
                Err(f) => {
                    if !cx.report("macro-refused", &f, serde_json::to_value(u).unwrap()) {
                        return;
                    }
                }
            }
        }
    }
}

pub fn p24(cx: &mut Ctx) {
    cx.rule("settings: generated settings given to the generator, compared with what the type generator is set up with (non-trivial: at least one). macro: uses of generate_api! with generated arguments, spelled in generated ways, compiled; the expansion is compared token for token, and the type generator's settings and requests in full, with the generator's under the same settings; then each document is changed and the program built again (non-trivial: with arguments, or changed). macro-refused: uses with one generated flaw, each of which must be a compile error.");
    cx.run("settings", 2000, 60_000, gen(chosen, |c: &Chosen| !c.output.is_empty()), told);
    macros(cx);
    refusals(cx);
}
