//! P22: documents that say the same thing yield the same code.
use crate::doc::{self, Knobs, Spec};
use crate::pure;
use progenitor_impl::Generator;
use quote::ToTokens;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use vk::gen::{gen, Rng};
use vk::{Case, Ctx, Fail, R};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Restated {
    pub spec: Spec,
    pub how: Vec<String>,
    pub seed: u64,
}

/// What may differ between the two outputs.
#[derive(Clone, Copy, PartialEq, PartialOrd)]
enum Same {
    Text,
    /// all but the documentation
    Docs,
    /// all but the documentation and the order of operations
    Order,
}

fn each_item(d: &mut Value, mut f: impl FnMut(&mut Map<String, Value>)) {
    for i in d["paths"].as_object_mut().unwrap().values_mut() {
        f(i.as_object_mut().unwrap());
    }
}
fn each_op(d: &mut Value, mut f: impl FnMut(&mut Map<String, Value>)) {
    each_item(d, |i| {
        for m in doc::METHODS {
            if let Some(o) = i.get_mut(*m) {
                f(o.as_object_mut().unwrap());
            }
        }
    })
}
/// Every parameter written in place.
fn each_param(d: &mut Value, mut f: impl FnMut(&mut Map<String, Value>)) {
    let mut list = |v: Option<&mut Value>| {
        for p in v.and_then(Value::as_array_mut).into_iter().flatten() {
            if p.get("$ref").is_none() {
                f(p.as_object_mut().unwrap());
            }
        }
    };
    each_item(d, |i| {
        list(i.get_mut("parameters"));
        for m in doc::METHODS {
            if let Some(o) = i.get_mut(*m) {
                list(o.get_mut("parameters"));
            }
        }
    });
    if let Some(c) = d["components"].get_mut("parameters").and_then(Value::as_object_mut) {
        for p in c.values_mut().filter(|p| p.get("$ref").is_none()) {
            f(p.as_object_mut().unwrap());
        }
    }
}
fn shuffled(r: &mut Rng, v: &mut Map<String, Value>) {
    let mut all: Vec<(String, Value)> = std::mem::take(v).into_iter().collect();
    r.shuffle(&mut all);
    v.extend(all);
}

type Change = (&'static str, Same, fn(&mut Rng, &mut Value));

const CHANGES: &[Change] = &[
    ("references", Same::Text, |r, d| {
        // in place <-> by reference, also through a chain of references
        let c = d["components"].clone();
        let mut new: Vec<(&str, String, Value)> = vec![];
        let mut turn = |r: &mut Rng, section: &'static str, v: &mut Value| {
            if !r.chance(60) {
                return;
            }
            if v.get("$ref").is_some() {
                let mut n = 0;
                while let Some(p) = v.get("$ref").and_then(Value::as_str) {
                    *v = c.pointer(p.trim_start_matches("#/components")).unwrap().clone();
                    n += 1;
                    if r.chance(20) || n > 9 {
                        break;
                    }
                }
            } else {
                let k = format!("New{}", r.u64());
                new.push((section, k.clone(), v.take()));
                *v = json!({"$ref": format!("#/components/{section}/{k}")});
                if r.chance(25) {
                    let k2 = format!("Via{}", r.u64());
                    new.push((section, k2.clone(), v.take()));
                    *v = json!({"$ref": format!("#/components/{section}/{k2}")});
                }
            }
        };
        each_item(d, |i| {
            for p in i.get_mut("parameters").and_then(Value::as_array_mut).into_iter().flatten() {
                turn(r, "parameters", p);
            }
            for m in doc::METHODS {
                let Some(o) = i.get_mut(*m) else { continue };
                for p in o.get_mut("parameters").and_then(Value::as_array_mut).into_iter().flatten() {
                    turn(r, "parameters", p);
                }
                if let Some(b) = o.get_mut("requestBody") {
                    turn(r, "requestBodies", b);
                }
                for (_, x) in o["responses"].as_object_mut().unwrap() {
                    turn(r, "responses", x);
                }
            }
        });
        for (s, k, v) in new {
            d["components"][s][k] = v;
        }
    }),
    ("path-level parameters moved to the operations", Same::Text, |r, d| {
        let c = d["components"].clone();
        let resolve = |p: &Value| -> String {
            let mut p = p.clone();
            while let Some(t) = p.get("$ref").and_then(Value::as_str) {
                p = c.pointer(t.trim_start_matches("#/components")).unwrap().clone();
            }
            p["name"].as_str().unwrap().to_string()
        };
        each_item(d, |i| {
            let Some(Value::Array(ps)) = i.remove("parameters") else { return };
            let mut keep = vec![];
            for p in ps {
                if r.chance(20) {
                    keep.push(p);
                    continue;
                }
                let n = resolve(&p);
                for m in doc::METHODS {
                    let Some(o) = i.get_mut(*m) else { continue };
                    let l = o.as_object_mut().unwrap().entry("parameters").or_insert(json!([])).as_array_mut().unwrap();
                    if !l.iter().any(|q| resolve(q) == n) {
                        l.insert(r.below(l.len() + 1), p.clone());
                    }
                }
            }
            if !keep.is_empty() {
                i.insert("parameters".into(), keep.into());
            }
        })
    }),
    ("parameters that every operation redefines", Same::Text, |r, d| {
        let c = d["components"].clone();
        each_item(d, |i| {
            let ops: Vec<&str> = doc::METHODS.iter().copied().filter(|m| i.contains_key(*m)).collect();
            let Some(first) = i[ops[0]].get("parameters").and_then(Value::as_array).cloned() else { return };
            for p in first {
                let mut q = p.clone();
                while let Some(t) = q.get("$ref").and_then(Value::as_str) {
                    q = c.pointer(t.trim_start_matches("#/components")).unwrap().clone();
                }
                // redefined in the same place, by all: what the path says is moot
                let everywhere = ops.iter().all(|m| {
                    i[*m]["parameters"].as_array().is_some_and(|l| l.iter().any(|x| x.get("$ref").is_none() && x["name"] == q["name"]))
                });
                let taken = i.get("parameters").and_then(Value::as_array).is_some_and(|l| l.iter().any(|x| x.get("$ref").is_some() || x["name"] == q["name"]));
                if everywhere && !taken && r.chance(70) {
                    let req = q["in"] == "path" || r.chance(50);
                    let ty = *r.pick(&["integer", "boolean", "string"]);
                    let v = json!({"name": q["name"], "in": q["in"], "required": req, "schema": {"type": ty}});
                    i.entry("parameters").or_insert(json!([])).as_array_mut().unwrap().push(v);
                }
            }
        })
    }),
    ("order of parameters", Same::Text, |r, d| {
        each_item(d, |i| {
            if let Some(l) = i.get_mut("parameters").and_then(Value::as_array_mut) {
                r.shuffle(l);
            }
            for m in doc::METHODS {
                if let Some(l) = i.get_mut(*m).and_then(|o| o.get_mut("parameters")).and_then(Value::as_array_mut) {
                    r.shuffle(l);
                }
            }
        })
    }),
    ("order of answers", Same::Text, |r, d| {
        each_op(d, |o| shuffled(r, o["responses"].as_object_mut().unwrap()));
    }),
    ("order of components", Same::Text, |r, d| {
        for s in ["parameters", "requestBodies", "responses", "schemas"] {
            if let Some(c) = d["components"].get_mut(s).and_then(Value::as_object_mut) {
                shuffled(r, c);
            }
        }
    }),
    ("order of keys", Same::Text, |r, d| {
        each_op(d, |o| shuffled(r, o));
        each_param(d, |p| shuffled(r, p));
        shuffled(r, d.as_object_mut().unwrap());
    }),
    ("defaults spelled out", Same::Text, |r, d| {
        each_param(d, |p| {
            let query = p["in"] == "query";
            let style = if query || p["in"] == "cookie" { "form" } else { "simple" };
            let mut put = |r: &mut Rng, k: &str, v: Value| {
                if r.chance(40) && !p.contains_key(k) {
                    p.insert(k.into(), v);
                }
            };
            put(r, "required", json!(false));
            put(r, "deprecated", json!(false));
            put(r, "style", json!(style));
            if query {
                put(r, "explode", json!(true));
                put(r, "allowReserved", json!(false));
                put(r, "allowEmptyValue", json!(false));
            } else {
                put(r, "explode", json!(false));
            }
        });
        each_op(d, |o| {
            for (k, v) in [("deprecated", json!(false)), ("parameters", json!([])), ("callbacks", json!({}))] {
                if r.chance(40) && !o.contains_key(k) {
                    o.insert(k.into(), v);
                }
            }
        });
    }),
    ("unused components", Same::Text, |r, d| {
        let c = &mut d["components"];
        c["parameters"]["Unused"] = json!({"name": *r.pick(&["id", "x", "page_token"]), "in": *r.pick(&["query", "header", "cookie"]), "schema": {"type": "string"}});
        c["responses"]["Unused"] = json!({"description": "unused", "content": {"application/json": {"schema": {"$ref": "#/components/schemas/Flat"}}}});
        c["requestBodies"]["Unused"] = json!({"content": {"application/xml": {}}});
        c["headers"] = json!({"Unused": {"schema": {"type": "string"}}});
        c["securitySchemes"] = json!({"Unused": {"type": "http", "scheme": "bearer"}});
        c["examples"] = json!({"Unused": {"value": 1}});
    }),
    ("servers and security", Same::Text, |r, d| {
        let s = json!([{"url": *r.pick(&["https://example.com/base", "/v2", "https://{host}/"]), "variables": {"host": {"default": "h"}}}]);
        let sec = json!([{"key": []}]);
        if r.chance(60) {
            d["servers"] = s.clone();
        }
        if r.chance(60) {
            d["security"] = sec.clone();
        }
        each_item(d, |i| {
            if r.chance(40) {
                i.insert("servers".into(), s.clone());
            }
        });
        each_op(d, |o| {
            if r.chance(40) {
                o.insert("servers".into(), s.clone());
            }
            if r.chance(40) {
                o.insert("security".into(), sec.clone());
            }
        });
    }),
    ("extensions", Same::Text, |r, d| {
        let v = [json!(true), json!({"a": [1]}), json!("x"), json!(null)];
        let name = ["x-foo", "x-dropshot", "x-internal", "x-websocket", "x-rust-type", "x-codegen"];
        let mut put = |o: &mut Map<String, Value>| {
            if r.chance(40) {
                o.insert(r.pick(&name).to_string(), r.pick(&v).clone());
            }
        };
        each_op(d, &mut put);
        each_param(d, &mut put);
        each_item(d, |i| {
            put(i);
        });
        each_op(d, |o| {
            for (_, x) in o["responses"].as_object_mut().unwrap() {
                if x.get("$ref").is_none() {
                    put(x.as_object_mut().unwrap());
                }
            }
            if let Some(b) = o.get_mut("requestBody").filter(|b| b.get("$ref").is_none()) {
                put(b.as_object_mut().unwrap());
            }
        });
        put(d["info"].as_object_mut().unwrap());
        put(d.as_object_mut().unwrap());
    }),
    ("answer details", Same::Text, |r, d| {
        each_op(d, |o| {
            for (_, x) in o["responses"].as_object_mut().unwrap() {
                if x.get("$ref").is_none() && r.chance(50) {
                    x["headers"] = json!({"X-Rate": {"schema": {"type": "integer"}}});
                    x["links"] = json!({"next": {"operationId": "other"}});
                }
            }
        });
    }),
    ("examples", Same::Text, |r, d| {
        each_param(d, |p| {
            if r.chance(50) {
                p.insert("example".into(), json!("an example"));
            } else if r.chance(30) {
                p.insert("examples".into(), json!({"one": {"value": 1}}));
            }
        });
        each_op(d, |o| {
            if let Some(m) = o.get_mut("requestBody").and_then(|b| b.get_mut("content")).and_then(Value::as_object_mut) {
                for x in m.values_mut() {
                    x["example"] = json!({"fa": "x"});
                }
            }
        });
    }),
    ("documentation", Same::Docs, |r, d| {
        let text = ["", "Some text.", "Two\n\nparagraphs", "```\ncode { } \n```", "* \"quoted\" #[doc] //! \\", "日本"];
        let mut put = |o: &mut Map<String, Value>, ks: &[&str]| {
            for k in ks {
                if r.chance(60) {
                    o.insert(k.to_string(), json!(*r.pick(&text)));
                }
            }
        };
        put(d["info"].as_object_mut().unwrap(), &["description", "termsOfService"]);
        each_item(d, |i| put(i, &["summary", "description"]));
        each_op(d, |o| {
            put(o, &["summary", "description"]);
            if o.contains_key("requestBody") && o["requestBody"].get("$ref").is_none() {
                put(o["requestBody"].as_object_mut().unwrap(), &["description"]);
            }
            for (_, x) in o["responses"].as_object_mut().unwrap() {
                if x.get("$ref").is_none() {
                    put(x.as_object_mut().unwrap(), &["description"]);
                }
            }
        });
        each_param(d, |p| put(p, &["description"]));
        d["externalDocs"] = json!({"url": "https://example.com", "description": "more"});
        d["info"]["title"] = json!("Another title");
        for t in d.get_mut("tags").and_then(Value::as_array_mut).into_iter().flatten() {
            put(t.as_object_mut().unwrap(), &["description"]);
        }
    }),
    ("tag list", Same::Docs, |r, d| match r.below(3) {
        _ if !d.get("tags").is_some_and(Value::is_array) => {}
        0 => {
            d.as_object_mut().unwrap().remove("tags");
        }
        1 => r.shuffle(d["tags"].as_array_mut().unwrap()),
        _ => d["tags"].as_array_mut().unwrap().insert(0, json!({"name": "unused", "description": "x"})),
    }),
    ("order of operations", Same::Order, |r, d| {
        shuffled(r, d["paths"].as_object_mut().unwrap());
        each_item(d, |i| shuffled(r, i));
    }),
];

fn spec(r: &mut Rng) -> Restated {
    let k = Knobs { items: 1 + r.below(3), paginated: 20, ..Knobs::default() };
    let how = (0..1 + r.below(3)).map(|_| r.pick(CHANGES).0.to_string()).collect();
    Restated { spec: doc::spec(r, k), how, seed: r.u64() }
}

/// Without documentation.
struct NoDocs;
impl syn::visit_mut::VisitMut for NoDocs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.retain(|a| !a.path().is_ident("doc"));
    }
}
fn lines(t: proc_macro2::TokenStream, same: Same) -> Result<Vec<String>, Fail> {
    if same == Same::Text {
        return Ok(vec![t.to_string()]);
    }
    let mut f = syn::parse2::<syn::File>(t).map_err(|e| Fail::new(format!("not Rust: {e}")))?;
    syn::visit_mut::VisitMut::visit_file_mut(&mut NoDocs, &mut f);
    if same == Same::Docs {
        return Ok(vec![f.to_token_stream().to_string()]);
    }
    let mut v = vec![];
    flatten("", f.items, &mut v);
    v.sort();
    Ok(v)
}
/// Every item and every member, each on its own.
fn flatten(at: &str, items: Vec<syn::Item>, out: &mut Vec<String>) {
    for i in items {
        match i {
            syn::Item::Mod(mut m) => {
                let at = format!("{at}{}::", m.ident);
                if let Some((_, c)) = m.content.take() {
                    flatten(&at, c, out);
                }
                out.push(format!("{at}{}", m.to_token_stream()));
            }
            syn::Item::Impl(mut m) => {
                let members = std::mem::take(&mut m.items);
                let h = format!("{at}{}", m.to_token_stream());
                for x in members {
                    out.push(format!("{h} {}", x.to_token_stream()));
                }
                out.push(h);
            }
            syn::Item::Trait(mut m) => {
                let members = std::mem::take(&mut m.items);
                let h = format!("{at}{}", m.to_token_stream());
                for x in members {
                    out.push(format!("{h} {}", x.to_token_stream()));
                }
                out.push(h);
            }
            i => out.push(format!("{at}{}", i.to_token_stream())),
        }
    }
}

fn out(d: &Value, style: &str) -> Result<Result<proc_macro2::TokenStream, String>, Fail> {
    let api: openapiv3::OpenAPI = serde_json::from_value(d.clone()).map_err(|e| Fail::new(format!("check: document: {e}: {d}")))?;
    let st = if matches!(style, "cli" | "httpmock") { "builder" } else { style };
    let mut g = Generator::new(&pure::settings(st));
    Ok(vk::guard(|| match style {
        "cli" => g.cli(&api, "sdk"),
        "httpmock" => g.httpmock(&api, "sdk"),
        _ => g.generate_tokens(&api),
    })
    .and_then(|x| x.map_err(|e| e.to_string())))
}

fn restated(p: &Restated) -> (Value, Value, Same) {
    let (a, mut b) = (p.spec.json(), p.spec.json());
    let mut same = Same::Text;
    let mut r = Rng::new(p.seed);
    for h in &p.how {
        let Some((_, s, f)) = CHANGES.iter().find(|c| c.0 == h) else { continue };
        f(&mut r, &mut b);
        if *s > same {
            same = *s;
        }
    }
    (a, b, same)
}

fn equal(p: &Restated, c: &mut Case) -> R {
    let (a, b, same) = restated(p);
    for h in &p.how {
        c.label(h);
    }
    c.nontrivial_if(serde_json::to_string(&a).unwrap() != serde_json::to_string(&b).unwrap());
    for style in ["positional", "builder", "tagged", "cli", "httpmock"] {
        // help texts are the CLI's documentation
        if same != Same::Text && matches!(style, "cli" | "httpmock") {
            continue;
        }
        let (x, y) = (out(&a, style)?, out(&b, style)?);
        let (x, y) = match (x, y) {
            (Ok(x), Ok(y)) => (x, y),
            (Err(_), Err(_)) => continue,
            (Ok(_), Err(e)) | (Err(e), Ok(_)) => {
                return Err(Fail::new(format!("{style}: one of the two is refused ({e})\n{a}\n{b}")));
            }
        };
        c.label(style);
        // the mock's helpers stand in the order of the answers
        let same = if style == "httpmock" && p.how.iter().any(|h| h == "order of answers") { Same::Order } else { same };
        let (x, y) = (lines(x, same)?, lines(y, same)?);
        if x != y {
            let (m, n) = x.iter().zip(&y).find(|(m, n)| m != n).unwrap_or((&x[0], &y[0]));
            let at = m.bytes().zip(n.bytes()).position(|(i, j)| i != j).unwrap_or(m.len().min(n.len()));
            let from = at.saturating_sub(120);
            let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[from.min(s.len())..(at + 200).min(s.len())]).into_owned();
            return Err(Fail::new(format!("{style}: the code differs:\n  {}\n  {}\nfor {a}\nand {b}", cut(m), cut(n))));
        }
    }
    Ok(())
}

pub fn p22(cx: &mut Ctx) {
    cx.rule("Generated descriptions are restated in up to three ways that change nothing they say (references for definitions and back, path-level parameters for operation-level ones, order of parameters, answers, components, keys and operations, defaults spelled out, unused components, servers, unknown extensions, examples, documentation); all outputs must agree, documentation and order of operations aside. Non-trivial: the restated text differs.");
    cx.run("restated", 500, 15_000, gen(spec, |p: &Restated| p.spec.valid() && !p.how.is_empty()), equal);
}
