//! Descriptions whose names are anything: the JSON form of a model document
//! with operation ids, parameters and tags renamed.
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use vk::gen::Rng;

/// What is left of a name once case and punctuation are gone: names that
/// differ only there cannot be told apart in Rust.
pub fn key(s: &str) -> String {
    let k: String = s.replace("+1", "plusone").replace("-1", "minusone").chars().filter(|c| c.is_alphanumeric()).flat_map(|c| c.to_lowercase()).collect();
    if k.is_empty() {
        "x".into()
    } else {
        k
    }
}

const WILD: &[&str] = &[
    "$filter", "filter[name]", "page[size]", "@type", "naïve", "ünïcode", "名前", "x-y.z", "a b", "123", "9lives", "+1", "-1", "$", "a'b", "it's",
    "__proto__", "_", "a__b", "-dash-", "UPPER_CASE", "mixedCase", "Mixed-Case", "HTTPServer", "ID", "iOS", "v1.2.3", "a/b", "a:b", "a~b", "q?",
    "100%", "a&b", "α", "Straße", "str", "u8", "usize", "i64", "bool", "vec", "string", "option", "some", "none", "ok", "err", "result", "error", "box",
    "self", "Self", "super", "crate", "type", "fn", "async", "await", "dyn", "gen", "union", "auto", "raw", "macro_rules", "static", "try", "yield",
    "client", "inner", "baseurl", "request", "response", "url", "query", "value", "header_map", "types", "builder", "prelude", "progenitor_client",
    "reqwest", "serde", "std", "core", "chrono", "uuid", "futures", "rand", "base64", "format", "default", "clone", "into", "from",
    "page", "state", "first", "rest", "next", "limit", "page_token", "items", "next_page", "debug", "send_all", "to_string", "try_into",
];

pub fn dict() -> &'static vk::dict::Dict {
    static D: std::sync::OnceLock<vk::dict::Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = vk::dict::Dict::of(&["/repo/progenitor-impl/src"]);
        d.texts.retain(|t| t.len() < 40);
        d.texts.push("text".into());
        d.idents.push("ident".into());
        d
    })
}

pub fn wild(r: &mut Rng) -> String {
    match r.below(10) {
        0..=6 => r.pick(WILD).to_string(),
        7 => format!("{}{}", r.pick(WILD), r.pick(WILD)),
        // what the generator's own text is made of
        8 => {
            let from = if r.chance(70) { &dict().idents } else { &dict().texts };
            r.pick(from).to_string()
        }
        _ => {
            const CH: &[char] = &['a', 'B', 'c', '1', '_', '-', '.', ' ', '$', 'é', '[', ']', '@', '\'', '漢', 'Z', '0'];
            (0..1 + r.below(6)).map(|_| *r.pick(CH)).collect()
        }
    }
}

/// Operation ids and parameter names that the generated interface has methods
/// or functions of its own for.
pub const TAKEN_OPS: &[&str] = &["new", "newwithclient", "baseurl", "client", "apiversion", "inner"];
pub const TAKEN_PARAMS: &[&str] = &["new", "send", "stream", "body", "bodymap", "clone", "limit", "pagetoken"];

pub fn rename(r: &mut Rng, doc: &Value) -> Value {
    let mut d = doc.clone();
    let mut ops = BTreeSet::new();
    // one new name per old parameter name, over the whole document
    let mut params: BTreeMap<String, String> = BTreeMap::new();
    let mut used = BTreeSet::new();
    let mut locs: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut see = |p: &Value| {
        if let (Some(n), Some(l)) = (p["name"].as_str(), p["in"].as_str()) {
            locs.entry(n.into()).or_default().insert(l.into());
        }
    };
    d["components"]["parameters"].as_object().into_iter().flatten().for_each(|(_, p)| see(p));
    for item in d["paths"].as_object().unwrap().values() {
        for (m, o) in item.as_object().unwrap() {
            let list = if m == "parameters" { Some(o) } else { o.get("parameters") };
            list.and_then(Value::as_array).into_iter().flatten().for_each(&mut see);
        }
    }
    let header_ok = |s: &str| s.chars().all(|c| c.is_ascii_alphanumeric() || "-_.~$!&+^|".contains(c)) && !s.is_empty();
    let mut name = |r: &mut Rng, p: &Value, params: &mut BTreeMap<String, String>| -> Option<String> {
        let old = p.get("name")?.as_str()?.to_string();
        if TAKEN_PARAMS.contains(&key(&old).as_str()) {
            return None;
        }
        if let Some(n) = params.get(&old) {
            return Some(n.clone());
        }
        let keep = r.chance(20) && !used.contains(&key(&old));
        for _ in 0..50 {
            let n = if keep { old.clone() } else { wild(r) };
            let bad = locs[&old].iter().any(|l| match l.as_str() {
                "header" => !header_ok(&n) || ["api-version", "accept"].contains(&n.to_lowercase().as_str()),
                "path" => n.contains(['/', '{', '}']),
                _ => false,
            });
            if bad || TAKEN_PARAMS.contains(&key(&n).as_str()) || !used.insert(key(&n)) {
                continue;
            }
            params.insert(old, n.clone());
            return Some(n);
        }
        let n = format!("zz{}", used.len());
        used.insert(n.clone());
        params.insert(old, n.clone());
        Some(n)
    };
    if let Some(ps) = d["components"].get_mut("parameters").and_then(Value::as_object_mut) {
        for p in ps.values_mut() {
            if let Some(n) = name(r, p, &mut params) {
                p["name"] = json!(n);
            }
        }
    }
    let paths = d["paths"].as_object().unwrap().clone();
    let mut out = serde_json::Map::new();
    for (path, mut item) in paths {
        for (m, o) in item.as_object_mut().unwrap() {
            let list = if m == "parameters" { Some(&mut *o) } else { o.get_mut("parameters") };
            for p in list.and_then(Value::as_array_mut).into_iter().flatten() {
                if let Some(n) = name(r, p, &mut params) {
                    p["name"] = json!(n);
                }
            }
            if m != "parameters" {
                let old = o["operationId"].as_str().unwrap().to_string();
                let mut n = if r.chance(20) { old.clone() } else { wild(r) };
                if TAKEN_OPS.contains(&key(&n).as_str()) || ops.contains(&key(&n)) {
                    n = old;
                }
                ops.insert(key(&n));
                o["operationId"] = json!(n);
            }
        }
        let mut p = String::new();
        let mut rest = path.as_str();
        while let Some(i) = rest.find('{') {
            let j = rest.find('}').unwrap();
            p += &rest[..=i];
            let old = &rest[i + 1..j];
            p += params.get(old).map(|s| s.as_str()).unwrap_or(old);
            p.push('}');
            rest = &rest[j + 1..];
        }
        p += rest;
        out.insert(p, item);
    }
    d["paths"] = out.into();
    d
}
