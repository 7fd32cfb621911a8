//! P29: the documentation of generated code says what the document says.
use crate::doc::{self, Knobs, Op, Spec};
use crate::e2e::tag_trait;
use crate::pure::{self, STYLES};
use progenitor_impl::Generator;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use vk::gen::{gen, Rng};
use vk::{Case, Ctx, Fail, R};

/// A document and what is said where in it, by JSON pointer.
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Told {
    spec: Spec,
    texts: BTreeMap<String, String>,
}

const PARTS: &[&str] = &[
    "text", "More of it.", "and, so on", "a \"quote\"", "\\ \\n \\u{0}", "*/ }", "#[doc]", "#![x]", "/// inner", "//", "{", "}", "{name}", "{{0}}",
    "```", "`code`", "- `a`: b", "Arguments:", "été", "漢", "🦀", "'", "r#\"", "\"#", "<b>", "[link](http://x)", "$crate", "#title", "...", ",", "Sends a `GET`", "\u{7f}", "\u{200b}",
];
fn said(r: &mut Rng, k: usize) -> String {
    let mut s = format!("⟦{k}⟧");
    for _ in 0..r.below(5) {
        s += r.pick(&[" ", " ", "\n", "\n\n", "", "\t", "\r\n"]);
        s += r.pick(PARTS);
    }
    s + r.pick(&["", "", ".", ",", "...", ".,.", " .", ". ", "\n"])
}
fn esc(k: &str) -> String {
    k.replace('~', "~0").replace('/', "~1")
}
/// Where something can be said.
fn places(d: &Value) -> Vec<String> {
    let mut v = vec!["/info/description".to_string(), "/info/termsOfService".into()];
    let params = |v: &mut Vec<String>, at: String, ps: &Value| {
        for (k, p) in ps.as_array().into_iter().flatten().enumerate() {
            if p.get("$ref").is_none() {
                v.push(format!("{at}/{k}/description"));
            }
        }
    };
    for (path, item) in d["paths"].as_object().unwrap() {
        let at = format!("/paths/{}", esc(path));
        for (m, o) in item.as_object().unwrap() {
            if m == "parameters" {
                params(&mut v, format!("{at}/parameters"), o);
                continue;
            }
            v.push(format!("{at}/{m}/summary"));
            v.push(format!("{at}/{m}/description"));
            params(&mut v, format!("{at}/{m}/parameters"), &o["parameters"]);
            if o.get("requestBody").is_some_and(|b| b.get("$ref").is_none()) {
                v.push(format!("{at}/{m}/requestBody/description"));
            }
        }
    }
    for s in ["parameters", "requestBodies"] {
        for k in d["components"][s].as_object().into_iter().flatten().map(|x| x.0) {
            v.push(format!("/components/{s}/{}/description", esc(k)));
        }
    }
    for k in 0..d["tags"].as_array().map_or(0, Vec::len) {
        v.push(format!("/tags/{k}/description"));
    }
    v
}
fn document(t: &Told) -> Option<Value> {
    let mut d = t.spec.json();
    for x in d["tags"].as_array_mut().into_iter().flatten() {
        x.as_object_mut()?.remove("description");
    }
    let known = places(&d);
    for (at, text) in &t.texts {
        if !known.contains(at) {
            continue;
        }
        let (o, k) = at.rsplit_once('/')?;
        d.pointer_mut(o)?[k] = json!(text);
    }
    Some(d)
}

fn told(r: &mut Rng) -> Told {
    let k = Knobs { items: 1 + r.below(4), paginated: 30, bodies: 50, websocket: 8, ..Knobs::default() };
    let mut spec = doc::spec(r, k);
    spec.title = r.pick(&["t", "", "An \"API\"", "*/ } \\", "été of\nmore"]).to_string();
    spec.version = r.pick(&["1.0.0", "", "\"", "v\\2 漢"]).to_string();
    let share = *r.pick(&[0, 20, 50, 80, 100]);
    let texts = places(&spec.json()).into_iter().enumerate().filter(|_| r.chance(share)).map(|(k, p)| (p, k)).collect::<Vec<_>>();
    let texts = texts.into_iter().map(|(p, k)| (p, said(r, k))).collect();
    Told { spec, texts }
}

// ------------------------------------------------------- the documentation

/// What is documented: "Client", "Client::op", "trait X", "X::op", …
#[derive(Default)]
struct Docs {
    docs: BTreeMap<String, String>,
    /// things there are, documented or not
    all: BTreeSet<String>,
}
fn doc_of(attrs: &[syn::Attribute]) -> Option<String> {
    let mut v = vec![];
    for a in attrs.iter().filter(|a| a.path().is_ident("doc")) {
        let syn::Meta::NameValue(m) = &a.meta else { continue };
        let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &m.value else { continue };
        v.push(s.value());
    }
    (!v.is_empty()).then(|| v.join("\n"))
}
impl Docs {
    fn put(&mut self, k: String, a: &[syn::Attribute]) {
        if let Some(t) = doc_of(a) {
            *self.docs.entry(k.clone()).or_default() += &t;
        }
        self.all.insert(k);
    }
}
impl<'a> syn::visit::Visit<'a> for Docs {
    fn visit_item_impl(&mut self, i: &'a syn::ItemImpl) {
        let syn::Type::Path(p) = &*i.self_ty else { return };
        if i.trait_.is_some() {
            return;
        }
        let t = p.path.segments.last().unwrap().ident.to_string();
        for x in &i.items {
            if let syn::ImplItem::Fn(f) = x {
                self.put(format!("{t}::{}", f.sig.ident), &f.attrs);
            }
        }
    }
    fn visit_item_struct(&mut self, i: &'a syn::ItemStruct) {
        self.put(i.ident.to_string(), &i.attrs);
    }
    fn visit_item_trait(&mut self, i: &'a syn::ItemTrait) {
        self.put(i.ident.to_string(), &i.attrs);
        for x in &i.items {
            if let syn::TraitItem::Fn(f) = x {
                self.put(format!("{}::{}", i.ident, f.sig.ident), &f.attrs);
            }
        }
    }
}

/// The pieces occur one after the other.
fn in_order(text: &str, pieces: &[&str]) -> Result<(), String> {
    let mut at = 0;
    for p in pieces {
        match text[at..].find(p) {
            Some(k) => at += k + p.len(),
            None => return Err(format!("{p:?} is missing (or out of order)")),
        }
    }
    Ok(())
}
fn markers(s: &str) -> BTreeSet<&str> {
    s.match_indices('⟦').filter_map(|(k, _)| s[k..].find('⟧').map(|e| &s[k..k + e])).collect()
}
fn deref<'a>(d: &'a Value, v: &'a Value) -> &'a Value {
    match v.get("$ref").and_then(Value::as_str) {
        Some(r) => d.pointer(r.trim_start_matches('#')).expect("check: reference"),
        None => v,
    }
}
fn text<'a>(v: &'a Value, k: &str) -> Option<&'a str> {
    v.get(k).and_then(Value::as_str)
}

struct Says<'a> {
    method: String,
    path: &'a str,
    summary: Option<&'a str>,
    description: Option<&'a str>,
    /// Rust name, document name, description
    params: Vec<(String, String, Option<&'a str>)>,
}
fn says<'a>(d: &'a Value, i: &doc::Item, o: &Op, path: &'a str) -> Says<'a> {
    let item = &d["paths"][path];
    let op = &item[&o.method];
    let mut params = vec![];
    for p in i.effective(o) {
        let of = |v: &'a Value| {
            let mut l = v["parameters"].as_array().into_iter().flatten().map(|q| deref(d, q));
            l.find(|q| q["name"] == json!(p.name.api()) && q["in"] == json!(match p.loc { doc::Loc::Path => "path", doc::Loc::Query => "query", doc::Loc::Header => "header" }))
        };
        let q = of(op).or_else(|| of(item)).expect("check: parameter");
        params.push((p.name.snake(), p.name.api(), text(q, "description")));
    }
    if let Some(b) = op.get("requestBody") {
        params.push(("body".into(), "body".into(), text(deref(d, b), "description")));
    }
    Says { method: o.method.to_uppercase(), path, summary: text(op, "summary"), description: text(op, "description"), params }
}

fn operation(doc: &str, s: &Says, stream: bool) -> Result<(), String> {
    let summary = s.summary.map(|t| t.trim_end_matches(['.', ',']));
    let (m, p) = (format!("`{}`", s.method), format!("`{}`", s.path));
    let head: Vec<&str> = summary.into_iter().chain(s.description).chain([m.as_str(), p.as_str()]).collect();
    in_order(doc, &head)?;
    if let Some(t) = summary.filter(|t| !t.is_empty()) {
        let after = &doc[doc.find(t).unwrap() + t.len()..];
        if after.starts_with(['.', ',']) {
            return Err(format!("the summary is not {t:?}"));
        }
    }
    let params: Vec<_> = s.params.iter().filter(|p| !(stream && p.1 == "page_token")).collect();
    let any = params.iter().any(|p| p.2.is_some());
    if any {
        let at = head.iter().map(|h| h.len()).sum::<usize>();
        let list: Vec<String> = params
            .iter()
            .map(|(n, _, t)| match t {
                Some(t) => format!("`{n}`: {t}\n"),
                None => format!("`{n}`\n"),
            })
            .collect();
        for l in &list {
            if !doc[doc.floor_char_boundary(at)..].contains(l.as_str()) {
                return Err(format!("{l:?} is missing"));
            }
        }
    }
    let got = markers(doc);
    let want: BTreeSet<&str> = [s.summary, s.description].into_iter().flatten().chain(params.iter().filter_map(|p| p.2)).flat_map(markers).collect();
    if got != want {
        return Err(format!("texts {want:?} of the document belong here, it has {got:?}"));
    }
    Ok(())
}
/// The example calls the operation and gives each argument once.
fn example(doc: &str, id: &str, s: &Says) -> Result<(), String> {
    let at = doc.rfind("```ignore\n").ok_or("no example")?;
    let code = doc[at + 10..].strip_suffix("```").ok_or("the example has no end")?;
    let st = syn::parse_str::<syn::Stmt>(code.trim()).map_err(|e| format!("the example is not Rust: {e}: {code}"))?;
    let syn::Stmt::Local(l) = st else { return Err(format!("the example binds nothing: {code}")) };
    let mut e = *l.init.ok_or("the example binds nothing")?.expr;
    if let syn::Expr::Await(a) = e {
        e = *a.base;
    }
    let mut calls = vec![];
    while let syn::Expr::MethodCall(m) = e {
        calls.push(m.method.to_string());
        e = *m.receiver;
    }
    calls.reverse();
    let want: BTreeSet<String> = s.params.iter().map(|p| p.0.clone()).collect();
    let got: BTreeSet<String> = calls.iter().skip(1).take(calls.len().saturating_sub(2)).cloned().collect();
    if calls.first().map(String::as_str) != Some(id) || calls.last().map(String::as_str) != Some("send") || got != want || calls.len() != want.len() + 2 {
        return Err(format!("the example calls {calls:?}; the arguments are {want:?}"));
    }
    Ok(())
}

fn documented(t: &Told, c: &mut Case) -> R {
    let Some(d) = document(t) else { return Ok(()) };
    c.nontrivial_if(!t.texts.is_empty());
    c.label(match t.texts.len() {
        0 => "nothing said",
        1..=5 => "a little",
        _ => "a lot",
    });
    let api: openapiv3::OpenAPI = serde_json::from_value(d.clone()).map_err(|e| Fail::new(format!("check: document: {e}")))?;
    for st in STYLES {
        let mut g = Generator::new(&pure::settings(st));
        let tokens = match vk::guard(|| g.generate_tokens(&api)) {
            Ok(Ok(t)) => t,
            Ok(Err(e)) => return Err(Fail::new(format!("{st}: refused: {e}: {d}"))),
            Err(e) => return Err(Fail::new(format!("{st}: panic: {e}: {d}"))),
        };
        let file = syn::parse2::<syn::File>(tokens).map_err(|e| Fail::new(format!("{st}: not Rust: {e}: {d}")))?;
        let mut v = Docs::default();
        syn::visit::Visit::visit_file(&mut v, &file);
        let get = |k: &str| -> Result<&str, Fail> {
            if !v.all.contains(k) {
                return Err(Fail::new(format!("{st}: there is no {k}: {d}")));
            }
            Ok(v.docs.get(k).map(String::as_str).unwrap_or(""))
        };
        let bad = |k: &str, m: String| Fail::new(format!("{st}: documentation of {k}: {m}: {:?}; document {d}", v.docs.get(k)));

        // the client
        let info = &d["info"];
        let doc = get("Client")?;
        let p: Vec<&str> = ["title", "description", "termsOfService", "version"].iter().filter_map(|k| text(info, k)).collect();
        in_order(doc, &p).map_err(|m| bad("Client", m))?;
        if markers(doc) != p.iter().flat_map(|p| markers(p)).collect() {
            return Err(bad("Client", "it has other texts of the document".into()));
        }

        for (path, i) in d["paths"].as_object().unwrap().keys().map(|p| (p, t.spec.items.iter().find(|i| &i.template() == p).expect("check: item"))) {
            for o in &i.ops {
                let (id, ty) = (o.id.snake(), o.id.pascal());
                let s = says(&d, i, o, path);
                let homes: Vec<&str> = match (*st, o.tags.len()) {
                    ("tagged", 1..) => o.tags.iter().map(|t| tag_trait(t)).collect(),
                    _ => vec!["Client"],
                };
                for h in &homes {
                    let k = format!("{h}::{id}");
                    let doc = get(&k)?;
                    operation(doc, &s, false).map_err(|m| bad(&k, m))?;
                    if *st != "positional" {
                        example(doc, &id, &s).map_err(|m| bad(&k, m))?;
                        // the builder leads back to the method
                        let b = get(&ty)?;
                        let link = format!("[`{k}`]");
                        let target = format!("{link}: super::{k}");
                        // a link's target is a line of its own
                        if !b.contains(&link) || !b.lines().any(|l| l.trim() == target) {
                            return Err(bad(&ty, format!("no link to {k}")));
                        }
                    }
                }
                let mp = [format!("`{}`", s.method), format!("`{path}`")];
                let mp: Vec<&str> = mp.iter().map(String::as_str).collect();
                if *st != "positional" {
                    let k = format!("{ty}::send");
                    in_order(get(&k)?, &mp).map_err(|m| bad(&k, m))?;
                }
                if o.paginated {
                    if *st == "positional" {
                        let k = format!("Client::{id}_stream");
                        operation(get(&k)?, &s, true).map_err(|m| bad(&k, m))?;
                    } else {
                        let k = format!("{ty}::stream");
                        in_order(get(&k)?, &mp).map_err(|m| bad(&k, m))?;
                    }
                }
            }
        }
        if *st == "tagged" {
            let used: BTreeSet<&String> = t.spec.all_ops().flat_map(|(_, o)| &o.tags).collect();
            for tag in used {
                let k = tag_trait(tag);
                let said = d["tags"].as_array().unwrap().iter().find(|x| x["name"] == json!(tag)).and_then(|x| text(x, "description"));
                let doc = get(k)?;
                if doc != said.unwrap_or("") {
                    return Err(bad(k, format!("the tag is described as {said:?}")));
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ layout

/// Lines of code-like text.
fn lines(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(24) {
        s += r.pick(&["", "    ", "        ", "            ", " ", "\t"]);
        s += r.pick(&["}", "}", "}", "} else {", "};", "}]", "})", "fn f() {", "x", "/// }", "// x", "\"}\"", "", "#[doc = \"\"]", "pub struct S {", "é }", "$1", "{"]);
        s += r.pick(&["\n", "\n", "\n", "\n\n", ""]);
    }
    s
}
fn spaced(s: &String, c: &mut Case) -> R {
    let out = match vk::guard(|| progenitor_impl::space_out_items(s.clone())) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => return Err(Fail::new(format!("refused: {e}"))),
        Err(e) => return Err(Fail::new(format!("panic: {e}"))),
    };
    c.nontrivial_if(&out != s);
    let (a, b): (Vec<&str>, Vec<&str>) = (s.split('\n').collect(), out.split('\n').collect());
    // the same lines, with empty ones added, and only where a brace ended
    let mut k = 0;
    for (n, l) in b.iter().enumerate() {
        if a.get(k) == Some(l) {
            k += 1;
        } else if !l.is_empty() || b[..n].iter().rev().find(|x| !x.trim().is_empty()).map(|x| x.trim()) != Some("}") {
            return Err(Fail::new(format!("{s:?} became {out:?}")));
        }
    }
    if k != a.len() {
        return Err(Fail::new(format!("{s:?} became {out:?}: lines were lost")));
    }
    Ok(())
}

pub fn p29(cx: &mut Ctx) {
    cx.rule("Generated documents in which titles, summaries, descriptions of operations, parameters, bodies and tags are generated texts (several lines, quotes, backslashes, comment and attribute syntax, other scripts), each with a mark of its own; the documentation attributes of the code generated in every style are read back and must hold exactly the texts that belong there, in order. Non-trivial: something is said. Layout: code-like lines, of which only empty lines may be added; non-trivial: some are.");
    cx.run("documented", 900, 20_000, gen(told, |t: &Told| t.spec.valid() && document(t).is_some()), documented);
    cx.run("layout", 20_000, 600_000, gen(lines, |_: &String| true), spaced);
}
