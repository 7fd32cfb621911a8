//! Checks that need only the generated text.
use crate::doc::{self, Knobs, Spec};
use progenitor_impl::{GenerationSettings, Generator, InterfaceStyle, TagStyle};
use crate::e2e;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use vk::gen::{gen, Rng};
use vk::{Case, Ctx, Fail, R};

pub fn settings(style: &str) -> GenerationSettings {
    let mut s = GenerationSettings::default();
    match style {
        "positional" => {}
        "builder" => {
            s.with_interface(InterfaceStyle::Builder).with_tag(TagStyle::Merged);
        }
        "tagged" => {
            s.with_interface(InterfaceStyle::Builder).with_tag(TagStyle::Separate);
        }
        _ => unreachable!(),
    }
    s
}
pub const STYLES: &[&str] = &["positional", "builder", "tagged"];

pub fn generate(spec: &openapiv3::OpenAPI, style: &str) -> Result<proc_macro2::TokenStream, Fail> {
    generate_with(spec, &settings(style), style)
}
pub fn generate_with(spec: &openapiv3::OpenAPI, s: &GenerationSettings, what: &str) -> Result<proc_macro2::TokenStream, Fail> {
    match vk::guard(|| Generator::new(s).generate_tokens(spec)) {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(e)) => Err(Fail::new(format!("generator ({what}) refuses the document: {e}"))),
        Err(p) => Err(Fail::new(format!("generator ({what}) panics: {p}"))),
    }
}

pub fn cli(spec: &openapiv3::OpenAPI, path: &str) -> Result<proc_macro2::TokenStream, Fail> {
    match vk::guard(|| Generator::new(&settings("builder")).cli(spec, path)) {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(e)) => Err(Fail::new(format!("cli() refuses the document: {e}"))),
        Err(p) => Err(Fail::new(format!("cli() panics: {p}"))),
    }
}

pub fn mock(spec: &openapiv3::OpenAPI, path: &str) -> Result<proc_macro2::TokenStream, Fail> {
    match vk::guard(|| Generator::new(&settings("builder")).httpmock(spec, path)) {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(e)) => Err(Fail::new(format!("httpmock() refuses the document: {e}"))),
        Err(p) => Err(Fail::new(format!("httpmock() panics: {p}"))),
    }
}

pub fn any_spec(r: &mut Rng) -> Spec {
    let k = Knobs { items: 1 + r.below(4), ..Knobs::default() };
    doc::spec(r, k)
}

fn accepted(s: &Spec, c: &mut Case) -> R {
    let api = s.openapi();
    c.nontrivial();
    for st in STYLES {
        let t = generate(&api, st)?;
        syn::parse2::<syn::File>(t).map_err(|e| Fail::new(format!("{st}: not Rust: {e}")))?;
    }
    Ok(())
}

/// One operation with many parameters: (name, location) in the order declared.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Wide {
    pub params: Vec<(String, String)>,
    pub body: bool,
}

fn wide(r: &mut Rng) -> Wide {
    let mut names: Vec<usize> = (0..20 + r.below(45)).collect();
    for i in (1..names.len()).rev() {
        names.swap(i, r.below(i + 1));
    }
    let pool: &[&str] = *r.pick(&[&["path", "query", "header"] as &[&str], &["query", "header"], &["header"], &["path", "header"]]);
    Wide { params: names.into_iter().map(|n| (format!("p{n}"), r.pick(pool).to_string())).collect(), body: r.chance(80) }
}

impl Wide {
    fn doc(&self, order: &[usize]) -> Value {
        let path: String = self.params.iter().filter(|p| p.1 == "path").map(|p| format!("/{{{}}}", p.0)).collect();
        let params: Vec<Value> = order
            .iter()
            .map(|k| &self.params[*k])
            .map(|(n, l)| json!({"name": n, "in": l, "required": l == "path", "schema": {"type": "string"}}))
            .collect();
        let mut op = json!({"operationId": "wide", "parameters": params, "responses": {"204": {"description": "done"}}});
        if self.body {
            op["requestBody"] = json!({"required": true, "content": {"application/json": {"schema": {"type": "string"}}}});
        }
        json!({"openapi": "3.0.3", "info": {"title": "wide", "version": "1"}, "paths": {format!("/w{path}"): {"post": op}}})
    }
}

fn wide_accepted(w: &Wide, c: &mut Case) -> R {
    let order: Vec<usize> = (0..w.params.len()).collect();
    let doc: openapiv3::OpenAPI = serde_json::from_value(w.doc(&order)).map_err(|e| Fail::new(e.to_string()))?;
    if w.params.len() > 20 {
        c.nontrivial();
    }
    for st in ["positional", "builder"] {
        let t = generate(&doc, st)?;
        syn::parse2::<syn::File>(t).map_err(|e| Fail::new(format!("{st}: not Rust: {e}")))?;
    }
    Ok(())
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Doc {
    pub doc: Value,
    pub style: String,
}

fn shrink_doc(d: &Doc, f: Fail) -> (Doc, Fail) {
    let (mut d, mut f) = (d.clone(), f);
    let mut budget = 60;
    'again: loop {
        for c in doc_reductions(&d.doc) {
            if budget == 0 {
                return (d, f);
            }
            budget -= 1;
            if let Err(e2e::Broken::Unit(_, e)) = e2e::compile(&[(c.clone(), d.style.clone())]) {
                d.doc = c;
                f = e;
                continue 'again;
            }
        }
        return (d, f);
    }
}
/// Fewer paths, operations, parameters.
fn doc_reductions(d: &Value) -> Vec<Value> {
    let mut out = vec![];
    let paths = d["paths"].as_object().unwrap();
    if paths.len() > 1 {
        for p in paths.keys() {
            let mut e = d.clone();
            e["paths"] = json!({p.as_str(): paths[p]});
            out.push(e);
        }
        return out;
    }
    for (p, item) in paths {
        for (m, o) in item.as_object().unwrap() {
            let mut e = d.clone();
            e["paths"][p].as_object_mut().unwrap().remove(m);
            if m != "parameters" && item.as_object().unwrap().keys().filter(|k| *k != "parameters").count() > 1 {
                out.push(e);
            }
            if let Some(a) = o["parameters"].as_array() {
                for k in 0..a.len() {
                    if a[k]["in"] == "path" || a[k].get("$ref").is_some() {
                        continue;
                    }
                    let mut e = d.clone();
                    e["paths"][p][m]["parameters"].as_array_mut().unwrap().remove(k);
                    out.push(e);
                }
            }
            if o.get("requestBody").is_some() {
                let mut e = d.clone();
                e["paths"][p][m].as_object_mut().unwrap().remove("requestBody");
                out.push(e);
            }
        }
    }
    out
}

pub fn p18(cx: &mut Ctx) {
    cx.rule("Generated well-formed descriptions (the model's, and the same with operation ids and parameters renamed to reserved words, punctuation, other scripts, names the generated code uses itself) are generated in all three styles; the text must parse, and batches are compiled. Operations with 20 to 64 parameters in any order of locations, with and without a body, must be generated too. Non-trivial: every description; more than 20 parameters.");
    cx.run("parses", 400, 10_000, gen(any_spec, Spec::valid), accepted);
    cx.run("wide", 300, 5_000, gen(wide, |w: &Wide| !w.params.is_empty()), wide_accepted);
    let section = "compiles";
    if !cx.section_enabled(section) {
        return;
    }
    let fail = |cx: &mut Ctx, d: &Doc, f: Fail| {
        cx.report(section, &f, serde_json::to_value(d).unwrap());
    };
    if cx.replay.is_some() {
        if let Some(d) = cx.replay_case::<Doc>(section) {
            match e2e::compile(&[(d.doc.clone(), d.style.clone())]) {
                Ok(()) => println!("replay: case passes"),
                Err(e2e::Broken::Unit(_, f)) => fail(cx, &d, f),
                Err(e2e::Broken::Check(m)) => crate::calls::check_error(m),
            }
        }
        return;
    }
    let mut r = cx.source(section);
    for _ in 0..cx.cases(8, 120) {
        let docs: Vec<Doc> = (0..48)
            .map(|k| {
                let s = any_spec(&mut r);
                let doc = if k % 4 == 0 { s.json() } else { crate::names::rename(&mut r, &s.json()) };
                Doc { doc, style: r.pick(STYLES).to_string() }
            })
            .collect();
        let list: Vec<(Value, String)> = docs.iter().map(|d| (d.doc.clone(), d.style.clone())).collect();
        match e2e::compile(&list) {
            Ok(()) => {}
            Err(e2e::Broken::Check(m)) => crate::calls::check_error(m),
            Err(e2e::Broken::Unit(k, f)) => {
                let (d, f) = shrink_doc(&docs[k], f);
                return fail(cx, &d, f);
            }
        }
        for d in docs {
            let mut c = Case::default();
            c.nontrivial();
            c.label(&d.style);
            cx.note_case(section, d.doc.to_string(), || d.doc["paths"].clone(), c);
        }
    }
}
