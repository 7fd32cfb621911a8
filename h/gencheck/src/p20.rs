//! P20: what the generator cannot represent is refused, not dropped.
use crate::doc::{self, Knobs, Spec};
use crate::pure::{self, STYLES};
use progenitor_impl::Generator;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use vk::gen::{gen, Rng};
use vk::{Case, Ctx, Fail, R};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Flawed {
    pub what: String,
    pub spec: Spec,
    /// decides where and how the flaw is put
    pub seed: u64,
}

const METHODS: &[&str] = doc::METHODS;

/// Everything written in place.
fn base(r: &mut Rng) -> Spec {
    let k = Knobs { items: 1 + r.below(4), params: 100, ..Knobs::default() };
    let mut s: Spec = doc::spec(r, k);
    in_place(&mut s);
    s
}

pub fn in_place(s: &mut Spec) {
    for i in &mut s.items {
        i.params.iter_mut().for_each(|p| p.by_ref = false);
        for o in &mut i.ops {
            o.params.iter_mut().for_each(|p| p.by_ref = false);
            o.responses.iter_mut().for_each(|x| x.by_ref = false);
            match &mut o.body {
                Some(doc::Body::Json { by_ref, .. } | doc::Body::Inline { by_ref }) => *by_ref = false,
                _ => {}
            }
        }
    }
}

/// (path, method) of every operation.
fn ops(d: &Value) -> Vec<(String, String)> {
    let mut v = vec![];
    for (p, i) in d["paths"].as_object().unwrap() {
        for m in METHODS {
            if i.get(*m).is_some() {
                v.push((p.clone(), m.to_string()));
            }
        }
    }
    v
}

/// The flaws, each put into a document that is fine without it; None where
/// the document has no place for it.
type Flaw = (&'static str, fn(&mut Rng, &mut Value) -> Option<()>);

fn op<'a>(r: &mut Rng, d: &'a mut Value) -> &'a mut Value {
    let all = ops(d);
    let (p, m) = r.pick(&all).clone();
    &mut d["paths"][p][m]
}
fn params(v: &mut Value) -> &mut Vec<Value> {
    let o = v.as_object_mut().unwrap();
    o.entry("parameters").or_insert_with(|| json!([])).as_array_mut().unwrap()
}
/// The list that gets a further parameter: the operation's or the path's.
fn list<'a>(r: &mut Rng, d: &'a mut Value) -> &'a mut Vec<Value> {
    let all = ops(d);
    let (p, m) = r.pick(&all).clone();
    let item = &mut d["paths"][p];
    params(if r.chance(70) { &mut item[m] } else { item })
}
fn insert(r: &mut Rng, l: &mut Vec<Value>, v: Value) {
    let at = r.below(l.len() + 1);
    l.insert(at, v);
}
/// Some declared parameter, wherever it is.
fn declared<'a>(r: &mut Rng, d: &'a mut Value, f: &dyn Fn(&Value) -> bool) -> Option<&'a mut Value> {
    let mut at: Vec<(String, Option<String>, usize)> = vec![];
    for (p, i) in d["paths"].as_object()? {
        for (m, o) in i.as_object()? {
            let (l, m) = if m == "parameters" { (Some(o), None) } else { (o.get("parameters"), Some(m.clone())) };
            for (k, x) in l.and_then(Value::as_array).into_iter().flatten().enumerate() {
                // one that counts: not redefined by every operation
                let name = &x["name"];
                let own = |o: &Value| o["parameters"].as_array().is_some_and(|v| v.iter().any(|y| &y["name"] == name));
                let redefined = m.is_none() && METHODS.iter().filter_map(|m| i.get(*m)).all(own);
                if f(x) && !redefined {
                    at.push((p.clone(), m.clone(), k));
                }
            }
        }
    }
    if at.is_empty() {
        return None;
    }
    let (p, m, k) = r.pick(&at).clone();
    let i = &mut d["paths"][p];
    let o = match m {
        Some(m) => &mut i[m],
        None => i,
    };
    Some(&mut o["parameters"][k])
}
fn is_in(l: &'static str) -> impl Fn(&Value) -> bool {
    move |p| p["in"] == l
}
/// A body, given to an operation that can have one.
fn body<'a>(r: &mut Rng, d: &'a mut Value) -> Option<&'a mut Value> {
    let all: Vec<_> = ops(d).into_iter().filter(|(p, m)| m != "head" && m != "trace" && d["paths"][p][m].get("x-dropshot-websocket").is_none() && d["paths"][p][m].get("x-dropshot-pagination").is_none()).collect();
    if all.is_empty() {
        return None;
    }
    let (p, m) = r.pick(&all).clone();
    let o = d["paths"][p][m].as_object_mut()?;
    o.insert("requestBody".into(), json!({"required": true, "content": {}}));
    o.get_mut("requestBody")
}
fn str_schema() -> Value {
    json!({"type": "string"})
}
fn schema_ref(n: &str) -> Value {
    json!({"$ref": format!("#/components/schemas/{n}")})
}

const FLAWS: &[Flaw] = &[
    ("version", |r, d| {
        d["openapi"] = json!(*r.pick(&["3.1.0", "3.1.1", "2.0", "2.0.0", "4.0.0", "", "3.0", "3", "30.0.1", "13.0.0", "3.00.1", "3.2.0", "v3.0.0", "3.1.0-3.0.0"]));
        Some(())
    }),
    ("no-operation-id", |r, d| {
        op(r, d).as_object_mut()?.remove("operationId");
        Some(())
    }),
    ("duplicate-operation-id", |r, d| {
        let all = ops(d);
        if all.len() < 2 {
            return None;
        }
        let (a, b) = (r.below(all.len()), r.below(all.len()));
        if a == b {
            return None;
        }
        let id = d["paths"][&all[a].0][&all[a].1]["operationId"].clone();
        d["paths"][&all[b].0][&all[b].1]["operationId"] = id;
        Some(())
    }),
    ("path-item-reference", |r, d| {
        let p = ops(d)[0].0.clone();
        let v = json!({"$ref": *r.pick(&["#/components/pathItems/X", "other.json#/x", "#/paths/~1x"])});
        if r.chance(50) {
            d["paths"][p] = v;
        } else {
            d["paths"]["/zz"] = v;
        }
        Some(())
    }),
    ("optional-path-parameter", |r, d| {
        let p = declared(r, d, &is_in("path"))?;
        if r.chance(50) {
            p["required"] = json!(false);
        } else {
            p.as_object_mut()?.remove("required");
        }
        Some(())
    }),
    ("undeclared-path-parameter", |r, d| {
        let all = ops(d);
        let (p, _) = r.pick(&all).clone();
        let item = d["paths"].as_object_mut()?.shift_remove_or(&p);
        let t = if r.chance(50) { format!("{p}/{{zz}}") } else { format!("/{{zz}}{p}") };
        d["paths"][t] = item;
        if r.chance(30) {
            // a parameter of that name somewhere else
            let t = ops(d).into_iter().find(|(p, _)| p.contains("{zz}"))?;
            params(&mut d["paths"][&t.0][&t.1]).push(json!({"name": "zz", "in": *r.pick(&["query", "header"]), "schema": str_schema()}));
        }
        Some(())
    }),
    ("path-parameter-not-in-template", |r, d| {
        let n = *r.pick(&["zz", "Zz", "body", "{id}", ""]);
        if n == "body" {
            return None;
        }
        let l = list(r, d);
        insert(r, l, json!({"name": if n.is_empty() { "z" } else { n }, "in": "path", "required": true, "schema": str_schema()}));
        Some(())
    }),
    ("cookie-parameter", |r, d| {
        let req = r.chance(50);
        let l = list(r, d);
        insert(r, l, json!({"name": "zz", "in": "cookie", "required": req, "schema": str_schema()}));
        Some(())
    }),
    ("path-style", |r, d| {
        declared(r, d, &is_in("path"))?["style"] = json!(*r.pick(&["label", "matrix"]));
        Some(())
    }),
    ("query-style", |r, d| {
        declared(r, d, &is_in("query"))?["style"] = json!(*r.pick(&["spaceDelimited", "pipeDelimited", "deepObject"]));
        Some(())
    }),
    ("parameter-content", |r, d| {
        let p = declared(r, d, &|_| true)?.as_object_mut()?;
        let s = p.remove("schema")?;
        p.insert("content".into(), json!({*r.pick(&["application/json", "text/plain"]): {"schema": s}}));
        Some(())
    }),
    ("several-request-types", |r, d| {
        let all = ["application/json", "application/x-www-form-urlencoded", "text/plain", "application/octet-stream", "application/xml"];
        let n = 2 + r.below(2);
        let mut m = Map::new();
        while m.len() < n {
            let t = *r.pick(&all);
            m.insert(t.into(), json!({"schema": if t.contains("octet") { json!({"type": "string", "format": "binary"}) } else { str_schema() }}));
        }
        body(r, d)?["content"] = m.into();
        Some(())
    }),
    ("request-type", |r, d| {
        let t = *r.pick(&["application/xml", "multipart/form-data", "image/png", "text/csv", "text/html", "application/jsonl", "application/vnd.api+json", "*/*", "application/*", "text/*", "APPLICATION", "json"]);
        let s = match r.below(3) {
            0 => str_schema(),
            1 => json!({"type": "string", "format": "binary"}),
            _ => schema_ref("Flat"),
        };
        body(r, d)?["content"] = json!({t: {"schema": s}});
        Some(())
    }),
    ("octet-stream-schema", |r, d| {
        let s = match r.below(9) {
            0 => str_schema(),
            1 => json!({"type": "string", "format": "byte"}),
            2 => json!({"type": "string", "format": "binary", "maxLength": 10}),
            3 => json!({"type": "string", "format": "binary", "minLength": 1}),
            4 => json!({"type": "string", "format": "binary", "pattern": "^a"}),
            5 => json!({"type": "string", "format": "binary", "enum": ["a", "b"]}),
            6 => json!({"type": "string", "format": "binary", "nullable": true}),
            7 => schema_ref("Widget"),
            _ => json!({"type": "string", "format": "binary", "default": "x"}),
        };
        body(r, d)?["content"] = json!({"application/octet-stream": {"schema": s}});
        Some(())
    }),
    ("text-schema", |r, d| {
        let s = match r.below(10) {
            0 => json!({"type": "integer"}),
            1 => json!({"type": "string", "format": "date"}),
            2 => json!({"type": "string", "maxLength": 10}),
            3 => json!({"type": "string", "minLength": 1}),
            4 => json!({"type": "string", "pattern": "^a"}),
            5 => json!({"type": "string", "enum": ["a", "b"]}),
            6 => json!({"type": "string", "nullable": true}),
            7 => schema_ref("Label"),
            8 => json!({"type": "string", "format": "x-custom"}),
            _ => json!({"type": "string", "default": "x"}),
        };
        body(r, d)?["content"] = json!({*r.pick(&["text/plain", "text/x-markdown"]): {"schema": s}});
        Some(())
    }),
    ("request-encoding", |r, d| {
        let t = *r.pick(&["application/json", "application/x-www-form-urlencoded"]);
        let e = match r.below(3) {
            0 => json!({"contentType": "text/plain"}),
            1 => json!({"style": "form", "explode": false}),
            _ => json!({"allowReserved": true}),
        };
        body(r, d)?["content"] = json!({t: {"schema": schema_ref("Flat"), "encoding": {"fa": e}}});
        Some(())
    }),
    ("no-request-schema", |r, d| {
        let t = *r.pick(&["application/json", "application/x-www-form-urlencoded", "text/plain", "application/octet-stream"]);
        body(r, d)?["content"] = json!({t: {}});
        Some(())
    }),
    ("no-response-schema", |r, d| {
        let o = op(r, d);
        o["responses"] = json!({*r.pick(&["200", "default", "2XX", "404", "5XX"]): {"description": "", "content": {"application/json": {}}}});
        Some(())
    }),
    ("response-encoding", |r, d| {
        let o = op(r, d);
        o["responses"] = json!({*r.pick(&["200", "default", "2XX"]): {"description": "", "content": {"application/json": {"schema": schema_ref("Flat"), "encoding": {"fa": {"contentType": "text/plain"}}}}}});
        Some(())
    }),
    ("success-types", |r, d| kinds(r, d, &["200", "201", "2XX", "204", "299"])),
    ("error-types", |r, d| kinds(r, d, &["400", "404", "4XX", "5XX", "500", "default", "599"])),
    ("missing-parameter", |r, d| {
        let k = missing(r, d, "parameters");
        let l = list(r, d);
        insert(r, l, json!({"$ref": k}));
        Some(())
    }),
    ("missing-body", |r, d| {
        let k = missing(r, d, "requestBodies");
        *body(r, d)? = json!({"$ref": k});
        Some(())
    }),
    ("missing-response", |r, d| {
        let k = missing(r, d, "responses");
        let o = op(r, d);
        o["responses"][*r.pick(&["200", "default", "2XX", "404"])] = json!({"$ref": k});
        Some(())
    }),
    ("same-name-in-two-places", |r, d| {
        let n = "zz";
        let all = ops(d);
        let (p, m) = r.pick(&all).clone();
        let mut places = vec!["query", "header", "path"];
        r.shuffle(&mut places);
        let mut two: Vec<Value> = places[..2].iter().map(|l| json!({"name": n, "in": l, "required": true, "schema": str_schema()})).collect();
        let mut item = d["paths"].as_object_mut()?.shift_remove_or(&p);
        let t = if places[..2].contains(&"path") { format!("{p}/{{{n}}}") } else { p };
        if r.chance(50) {
            let b = two.remove(1);
            let l = params(&mut item[&m]);
            insert(r, l, b);
            let a = two.remove(0);
            insert(r, params(&mut item), a);
        } else {
            let l = params(if r.chance(50) { &mut item[m] } else { &mut item });
            for x in two {
                insert(r, l, x);
            }
        }
        if t.contains("{zz}") {
            // every operation needs it, then
            let l = params(&mut item);
            if !l.iter().any(|x| x["in"] == "path" && x["name"] == n) && !METHODS.iter().any(|m| item.get(*m).is_some_and(|o| o["parameters"].as_array().is_some_and(|v| v.iter().any(|x| x["in"] == "path" && x["name"] == n)))) {
                return None;
            }
        }
        d["paths"][t] = item;
        Some(())
    }),
    ("websocket-and-pages", |r, d| {
        let all: Vec<_> = ops(d).into_iter().filter(|(p, m)| d["paths"][p][m].get("x-dropshot-pagination").is_some()).collect();
        if all.is_empty() {
            return None;
        }
        let (p, m) = r.pick(&all).clone();
        d["paths"][p][m]["x-dropshot-websocket"] = json!({});
        Some(())
    }),
    ("explode", |r, d| {
        let f = |p: &Value| p["in"] == "query" && (p["schema"]["type"] == "array" || p["schema"]["$ref"] == "#/components/schemas/Flat");
        declared(r, d, &f)?["explode"] = json!(false);
        Some(())
    }),
];

trait RemoveOr {
    fn shift_remove_or(&mut self, k: &str) -> Value;
}
impl RemoveOr for Map<String, Value> {
    fn shift_remove_or(&mut self, k: &str) -> Value {
        self.remove(k).unwrap()
    }
}

/// Two answers of one sort that are of different types.
fn kinds(r: &mut Rng, d: &mut Value, codes: &[&str]) -> Option<()> {
    let all: Vec<_> = ops(d).into_iter().filter(|(p, m)| d["paths"][p][m].get("x-dropshot-websocket").is_none()).collect();
    if all.is_empty() {
        return None;
    }
    let (p, m) = r.pick(&all).clone();
    let mut cs: Vec<&str> = codes.to_vec();
    r.shuffle(&mut cs);
    let bodies = [
        json!({"description": ""}),
        json!({"description": "", "content": {"application/json": {"schema": schema_ref("Widget")}}}),
        json!({"description": "", "content": {"application/json": {"schema": schema_ref("Nested")}}}),
        json!({"description": "", "content": {"application/json": {"schema": {"type": "string"}}}}),
        json!({"description": "", "content": {"application/octet-stream": {}}}),
    ];
    let a = r.below(bodies.len());
    let b = (a + 1 + r.below(bodies.len() - 1)) % bodies.len();
    let mut m2 = Map::new();
    m2.insert(cs[0].into(), bodies[a].clone());
    m2.insert(cs[1].into(), bodies[b].clone());
    if r.chance(30) {
        m2.insert(cs[2].into(), bodies[a].clone());
    }
    d["paths"][p][m]["responses"] = m2.into();
    Some(())
}
/// A reference that leads nowhere in the section.
fn missing(r: &mut Rng, d: &mut Value, section: &str) -> String {
    let value = match section {
        "parameters" => json!({"name": "zz", "in": "query", "schema": str_schema()}),
        "requestBodies" => json!({"content": {"application/json": {"schema": schema_ref("Flat")}}}),
        _ => json!({"description": ""}),
    };
    match r.below(6) {
        0 => {
            d["components"][section]["Zz"] = value;
            format!("#/components/{section}/zz")
        }
        1 => {
            // of that name, but another thing or elsewhere
            d["components"][section]["Zz"] = value;
            let other = *r.pick(&["schemas", "headers", "examples"]);
            format!("#/components/{other}/Zz")
        }
        2 => {
            d["components"][section]["Zz"] = value;
            format!("{}#/components/{section}/Zz", r.pick(&["other.json", "https://example.com/api.yaml", "./common/defs.yaml"]))
        }
        3 => {
            d["components"][section]["Zz"] = value;
            r.pick(&["other.json#/Zz", "definitions/Zz", "#/definitions/Zz", "#/Zz"]).to_string()
        }
        4 => {
            d["components"].as_object_mut().unwrap().remove(section);
            format!("#/components/{section}/Zz")
        }
        _ => format!("#/components/{section}/Zz"),
    }
}

fn put(f: &Flawed) -> Option<Value> {
    if f.spec.items.is_empty() {
        return None;
    }
    let mut doc = f.spec.json();
    FLAWS.iter().find(|x| x.0 == f.what)?.1(&mut Rng::new(f.seed), &mut doc)?;
    Some(doc)
}
fn flawed(r: &mut Rng, what: &str) -> Flawed {
    loop {
        let f = Flawed { what: what.to_string(), spec: base(r), seed: r.u64() };
        if put(&f).is_some() {
            return f;
        }
    }
}

fn refused(f: &Flawed, c: &mut Case) -> R {
    let Some(doc) = put(f) else { return Ok(()) };
    c.nontrivial();
    // not even readable: refused too
    let Ok(api) = serde_json::from_value::<openapiv3::OpenAPI>(doc.clone()) else {
        c.label("unreadable");
        return Ok(());
    };
    c.label("readable");
    let fail = |w: &str| Err(Fail::sig(format!("a document with the flaw {:?} is accepted ({w}): {doc}", f.what), "accepted"));
    for s in STYLES {
        if pure::generate(&api, s).is_ok() {
            return fail(s);
        }
    }
    // flaws that only the client's code would show
    if !matches!(f.what.as_str(), "success-types" | "error-types" | "undeclared-path-parameter") {
        if let Ok(Ok(_)) = vk::guard(|| Generator::new(&pure::settings("builder")).cli(&api, "sdk")) {
            return fail("cli");
        }
        if let Ok(Ok(_)) = vk::guard(|| Generator::new(&pure::settings("builder")).httpmock(&api, "sdk")) {
            return fail("httpmock");
        }
    }
    Ok(())
}

pub fn p20(cx: &mut Ctx) {
    cx.rule("Generated well-formed descriptions (accepted as they are) are given one flaw each, of the kinds the generator has no faithful answer to; every style of client generation, and the other outputs where they share the concern, must refuse. Every case is non-trivial.");
    for (what, _) in FLAWS {
        cx.run(what, 150, 2_500, gen(move |r: &mut Rng| flawed(r, what), |f: &Flawed| f.spec.valid()), refused);
    }
}
