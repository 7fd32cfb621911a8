//! P21: item streams are offered exactly where pages can be followed.
use crate::doc::{self, Knobs, Spec};
use crate::p20;
use crate::pure::{self, STYLES};
use progenitor_impl::Generator;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use vk::gen::{gen, Rng};
use vk::{Case, Ctx, Fail, R};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Paged {
    pub spec: Spec,
    /// what is done to the operations, in order
    pub what: Vec<(String, u64)>,
}

type Change = (&'static str, bool, fn(&mut Rng, &mut Value, &mut Value) -> Option<()>);

fn own<'a>(op: &'a mut Value, n: &str) -> Option<&'a mut Value> {
    op["parameters"].as_array_mut()?.iter_mut().find(|p| p["name"] == n)
}
fn remove(op: &mut Value, n: &str) -> Option<()> {
    let v = op["parameters"].as_array_mut()?;
    let k = v.iter().position(|p| p["name"] == n)?;
    v.remove(k);
    Some(())
}
fn success(op: &mut Value) -> Option<&mut Value> {
    let k = ["200", "2XX"].into_iter().find(|k| op["responses"].get(*k).is_some())?;
    Some(&mut op["responses"][k])
}
fn page(op: &mut Value, schema: Value) -> Option<()> {
    success(op)?["content"] = json!({"application/json": {"schema": schema}});
    Some(())
}
fn page_of(items: Value, next: Value, required: &[&str]) -> Value {
    json!({"type": "object", "required": required, "properties": {"items": items, "next_page": next}})
}
fn nested() -> Value {
    json!({"$ref": "#/components/schemas/Nested"})
}
fn either<'a>(r: &mut Rng) -> &'a str {
    *r.pick(&["limit", "page_token"])
}

/// (name, whether a stream is still offered, the change to operation and components)
const CHANGES: &[Change] = &[
    ("as it is", true, |_, _, _| Some(())),
    // ---- the convention met in other ways
    ("extension value", true, |r, o, _| {
        o["x-dropshot-pagination"] = r.pick(&[json!(true), json!({}), json!({"required": ["sort"]}), json!([]), json!(1), Value::Null, json!({"other": 1})]).clone();
        Some(())
    }),
    ("nullable token", true, |r, o, _| {
        own(o, "page_token")?["schema"] = json!({"type": "string", "nullable": r.chance(50)});
        own(o, "page_token")?["required"] = json!(false);
        Some(())
    }),
    ("page in place", true, |r, o, _| {
        let next = json!({"type": "string", "nullable": r.chance(50)});
        let req: &[&str] = if r.chance(50) { &["items"] } else { &["items", "next_page"] };
        let next = if req.len() == 2 { json!({"type": "string", "nullable": true}) } else { next };
        page(o, page_of(json!({"type": "array", "items": r.pick(&[nested(), json!({"type": "string"}), json!({"type": "integer", "format": "int64"})])}), next, req))
    }),
    ("further components", true, |_, o, c| {
        c["responses"]["Zpage"] = success(o)?.clone();
        *success(o)? = json!({"$ref": "#/components/responses/Zpage"});
        c["parameters"]["Zlimit"] = own(o, "limit")?.clone();
        *own(o, "limit")? = json!({"$ref": "#/components/parameters/Zlimit"});
        Some(())
    }),
    ("typed body", true, |r, o, _| {
        let t = *r.pick(&["application/json", "application/x-www-form-urlencoded"]);
        o["requestBody"] = json!({"required": true, "content": {t: {"schema": {"$ref": "#/components/schemas/Flat"}}}});
        Some(())
    }),
    ("required header", true, |_, o, _| {
        o["parameters"].as_array_mut()?.push(json!({"name": "zz", "in": "header", "required": true, "schema": {"type": "string"}}));
        Some(())
    }),
    ("optional query", true, |r, o, _| {
        let s = if r.chance(50) { json!({"type": "string"}) } else { json!({"type": "array", "items": {"type": "string"}}) };
        o["parameters"].as_array_mut()?.push(json!({"name": "zz", "in": "query", "schema": s}));
        Some(())
    }),
    ("required but nullable query", true, |_, o, _| {
        o["parameters"].as_array_mut()?.push(json!({"name": "zz", "in": "query", "required": true, "schema": {"type": "string", "nullable": true}}));
        Some(())
    }),
    // ---- not met
    ("no extension", false, |_, o, _| o.as_object_mut()?.remove("x-dropshot-pagination").map(|_| ())),
    ("another extension", false, |r, o, _| {
        o.as_object_mut()?.remove("x-dropshot-pagination");
        o[*r.pick(&["x-dropshot-paginated", "x-pagination", "X-Dropshot-Pagination", "x-dropshot-paginatio"])] = json!({"required": []});
        Some(())
    }),
    ("parameter missing", false, |r, o, _| remove(o, either(r))),
    ("parameter in another place", false, |r, o, _| {
        let p = own(o, either(r))?;
        p["in"] = json!("header");
        p["schema"].as_object_mut()?.remove("nullable");
        Some(())
    }),
    ("parameter called otherwise", false, |r, o, _| {
        let w = either(r);
        let n = if w == "limit" { *r.pick(&["Limit", "limits", "max", "per_page"]) } else { *r.pick(&["pageToken", "page-token", "PageToken", "token", "next_page"]) };
        own(o, w)?["name"] = json!(n);
        Some(())
    }),
    ("parameter required", false, |r, o, _| {
        let w = either(r);
        let s = if w == "limit" { json!({"type": "integer", "format": "uint32", "minimum": 0}) } else { json!({"type": "string"}) };
        own(o, w)?["schema"] = s;
        own(o, w)?["required"] = json!(true);
        Some(())
    }),
    ("required query", false, |r, o, _| {
        let n = *r.pick(&["zz", "sort_by", "a", "sort"]);
        if own(o, n).is_some() {
            return None;
        }
        o["parameters"].as_array_mut()?.push(json!({"name": n, "in": "query", "required": true, "schema": {"type": "string"}}));
        Some(())
    }),
    ("raw body", false, |r, o, _| {
        o["requestBody"] = if r.chance(50) {
            json!({"required": true, "content": {"application/octet-stream": {"schema": {"type": "string", "format": "binary"}}}})
        } else {
            json!({"required": true, "content": {"text/plain": {"schema": {"type": "string"}}}})
        };
        Some(())
    }),
    ("untyped answer", false, |r, o, _| {
        let s = success(o)?;
        if r.chance(50) {
            s.as_object_mut()?.remove("content");
        } else {
            let m = s["content"]["application/json"].clone();
            s["content"] = json!({*r.pick(&["application/xml", "*/*", "application/jsonl", "application/vnd.api+json"]): m});
        }
        Some(())
    }),
    ("several answers", false, |r, o, _| {
        let s = success(o)?.clone();
        o["responses"][*r.pick(&["201", "202", "206", "299"])] = s;
        Some(())
    }),
    ("not a page", false, |r, o, _| {
        let text = || json!({"type": "string"});
        let next = || json!({"type": "string", "nullable": true});
        let items = || json!({"type": "array", "items": nested()});
        let s = match r.below(10) {
            0 => items(),
            1 => nested(),
            2 => page_of(items(), text(), &["items", "next_page"]),
            3 => page_of(items(), json!({"type": "integer", "nullable": true}), &["items"]),
            4 => page_of(text(), next(), &["items"]),
            5 => page_of(nested(), next(), &["items"]),
            6 => {
                let mut p = page_of(items(), next(), &["items"]);
                p["properties"][*r.pick(&["total", "prev_page", "Items", "zz"])] = json!({"type": "integer"});
                p
            }
            7 => json!({"type": "object", "required": ["items"], "properties": {"items": items()}}),
            8 => json!({"type": "object", "properties": {"next_page": next()}}),
            _ => json!({"type": "object", "required": ["results"], "properties": {"results": items(), "next_page": next()}}),
        };
        page(o, s)
    }),
];

fn base(r: &mut Rng) -> Spec {
    let k = Knobs { items: 1 + r.below(3), paginated: 75, bodies: 20, ..Knobs::default() };
    let mut s = doc::spec(r, k);
    p20::in_place(&mut s);
    s
}

/// The document and what each operation is to offer.
fn put(p: &Paged) -> Option<(Value, BTreeMap<String, bool>)> {
    let mut d = p.spec.json();
    let mut want = BTreeMap::new();
    let mut k = 0;
    for i in &p.spec.items {
        for o in &i.ops {
            let mut offered = o.paginated;
            if o.paginated && k < p.what.len() {
                let (what, seed) = &p.what[k];
                k += 1;
                let (_, keeps, f) = CHANGES.iter().find(|c| c.0 == what)?;
                let mut c = d["components"].take();
                // several changes can apply to one operation's document
                f(&mut Rng::new(*seed), &mut d["paths"][i.template()][&o.method], &mut c)?;
                d["components"] = c;
                offered = *keeps;
            }
            want.insert(o.id.snake(), offered);
        }
    }
    Some((d, want))
}

fn paged(r: &mut Rng) -> Paged {
    loop {
        let spec = base(r);
        let n = spec.all_ops().filter(|(_, o)| o.paginated).count();
        let what = (0..n).map(|_| (r.pick(CHANGES).0.to_string(), r.u64())).collect();
        let p = Paged { spec, what };
        if put(&p).is_some() {
            return p;
        }
    }
}

/// Public functions of each impl, as (self type or module path, name).
struct Fns(BTreeSet<(String, String)>);
impl<'a> syn::visit::Visit<'a> for Fns {
    fn visit_item_impl(&mut self, i: &'a syn::ItemImpl) {
        let t = match &*i.self_ty {
            syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
            _ => String::new(),
        };
        for x in &i.items {
            if let syn::ImplItem::Fn(f) = x {
                self.0.insert((t.clone(), f.sig.ident.to_string()));
            }
        }
    }
}
pub fn functions(t: proc_macro2::TokenStream) -> Result<BTreeSet<(String, String)>, Fail> {
    let f = syn::parse2::<syn::File>(t).map_err(|e| Fail::new(format!("not Rust: {e}")))?;
    let mut v = Fns(BTreeSet::new());
    syn::visit::Visit::visit_file(&mut v, &f);
    Ok(v.0)
}

fn offered(p: &Paged, c: &mut Case) -> R {
    let Some((d, want)) = put(p) else { return Ok(()) };
    for (w, _) in &p.what {
        c.label(w);
    }
    c.nontrivial_if(!p.what.is_empty());
    let api: openapiv3::OpenAPI = serde_json::from_value(d.clone()).map_err(|e| Fail::new(format!("check: document: {e}")))?;
    let by: BTreeMap<String, String> = p.spec.all_ops().map(|(_, o)| (o.id.snake(), o.id.pascal())).collect();
    for st in STYLES {
        let mut g = Generator::new(&pure::settings(st));
        let t = match vk::guard(|| g.generate_tokens(&api)) {
            Ok(Ok(t)) => t,
            Ok(Err(e)) => return Err(Fail::new(format!("{st}: refused: {e}: {d}"))),
            Err(e) => return Err(Fail::new(format!("{st}: panic: {e}: {d}"))),
        };
        let fns = functions(t)?;
        for (op, offered) in &want {
            let has = match *st {
                "positional" => fns.contains(&("Client".into(), format!("{op}_stream"))),
                _ => fns.contains(&(by[op].clone(), "stream".into())),
            };
            let call = match *st {
                "positional" => fns.contains(&("Client".into(), op.clone())),
                _ => fns.contains(&(by[op].clone(), "send".into())),
            };
            if !call {
                return Err(Fail::new(format!("{st}: operation {op} is not offered at all: {d}")));
            }
            if has != *offered {
                let k = p.spec.all_ops().filter(|(_, o)| o.paginated).position(|(_, o)| &o.id.snake() == op);
                let why = k.and_then(|k| p.what.get(k)).map(|w| w.0.as_str()).unwrap_or("as it is");
                return Err(Fail::new(format!("{st}: operation {op} ({why}): a stream is {}offered: {}", if has { "" } else { "not " }, operation(&d, op))));
            }
        }
        let any = want.values().any(|x| *x);
        if g.uses_futures() != any {
            return Err(Fail::new(format!("{st}: uses_futures is {}, streams offered: {any}: {d}", g.uses_futures())));
        }
        let ws = p.spec.all_ops().any(|(_, o)| o.websocket);
        if g.uses_websockets() != ws {
            return Err(Fail::new(format!("{st}: uses_websockets is {}, websocket operations: {ws}: {d}", g.uses_websockets())));
        }
    }
    Ok(())
}
fn operation(d: &Value, id: &str) -> Value {
    let norm = |s: &str| s.chars().filter(|c| c.is_alphanumeric()).collect::<String>().to_lowercase();
    for i in d["paths"].as_object().unwrap().values() {
        for o in i.as_object().unwrap().values() {
            if o["operationId"].as_str().is_some_and(|x| norm(x) == norm(id)) {
                return o.clone();
            }
        }
    }
    d.clone()
}

pub fn p21(cx: &mut Ctx) {
    cx.rule("Generated descriptions whose paginated operations each get a change that keeps the pagination convention or breaks one part of it; the generated code must offer the operation in every style, an item stream exactly where the convention is met, and the generator must report the use of streams and websockets accordingly. Non-trivial: at least one paginated operation.");
    cx.run("streams-offered", 700, 15_000, gen(paged, |p: &Paged| p.spec.valid() && p.what.iter().all(|w| CHANGES.iter().any(|c| c.0 == w.0))), offered);
}
