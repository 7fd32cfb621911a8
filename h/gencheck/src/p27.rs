//! P27: the mock helpers stand for the requests and answers of the document.
use crate::calls::{self, Section};
use crate::doc::{self, Body, Code, Item, Kind, Knobs, Loc, Op, Param, Pass, Piece, Spec, Ty};
use crate::e2e::{self, Call, Done, Unit};
use crate::pure;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use vk::gen::{gen, Rng};
use vk::{Case, Ctx, Fail, R};

// ------------------------------------------------------------------- units

fn by_ref(ty: Ty) -> bool {
    matches!(ty.pass(), Pass::Ref)
}
/// Restricted to what the helpers can say.
fn adapt(s: &mut Spec, names: bool) {
    let plain = |v: &mut Vec<Param>| {
        v.iter_mut().filter(|p| p.loc == Loc::Path && p.ty == Ty::F64).for_each(|p| p.ty = Ty::I32);
        if !names {
            v.iter_mut().filter(|p| p.loc == Loc::Query).for_each(|p| p.name.style = 0);
        }
        v.retain(|p| p.loc != Loc::Query || p.ty.scalar() && (names || p.name.api() == p.name.snake()));
    };
    for i in &mut s.items {
        plain(&mut i.params);
        for o in &mut i.ops {
            plain(&mut o.params);
            for r in &mut o.responses {
                if let doc::Content::Json(t) = &mut r.content {
                    if !by_ref(*t) {
                        *t = Ty::Uuid;
                    }
                }
            }
            if let Some(Body::Json { ty, .. }) = &mut o.body {
                if !by_ref(*ty) {
                    *ty = Ty::Date;
                }
            }
        }
    }
    s.items.retain(|i| i.pieces.iter().all(|p| if let Piece::Lit(s) = p { s.is_ascii() } else { true }));
}
fn unit_where(r: &mut Rng, names: bool) -> Unit {
    loop {
        let mut spec = doc::spec(r, Knobs { items: 6, ..Knobs::default() });
        adapt(&mut spec, names);
        // paths with characters that mean something in a regular expression
        for i in &mut spec.items {
            if let (Some(Piece::Lit(s)), true) = (i.pieces.first_mut(), r.chance(35)) {
                *s = format!("/{}{s}", r.pick(&["v1.0", "a+b", "(x)", "p*q", "$all", "b[0]", "1.2.3", "x.y$", "(a)+", "a**"]));
            }
        }
        if spec.valid() && !spec.items.is_empty() {
            return Unit { spec, styles: vec!["builder".into(), "mock".into()], hooks: vec![] };
        }
    }
}

// ------------------------------------------------------------------- calls

fn safe(v: &Value) -> bool {
    let w = Ty::wire(v);
    !w.is_empty() && w.chars().all(|c| c.is_ascii_alphanumeric() || "-_~.".contains(c)) && w.parse::<f64>().is_ok() | !w.contains('.')
}
fn value(r: &mut Rng, p: &Param) -> Value {
    loop {
        let v = calls::param_value(r, p);
        if p.loc != Loc::Path || safe(&v) {
            return v;
        }
        if p.loc == Loc::Path && matches!(p.ty, Ty::Str | Ty::Label) {
            return json!(r.pick(&["x", "y", "abc", "a-b", "z_1", "~q", "X"]));
        }
    }
}
fn args(r: &mut Rng, i: &Item, o: &Op) -> Vec<(String, Value)> {
    let mut a: Vec<(String, Value)> = vec![];
    for p in i.effective(o) {
        if !p.optional() || r.chance(60) {
            a.push((p.name.snake(), value(r, p)));
        }
    }
    if let Some(b) = &o.body {
        a.push(("body".into(), calls::body_value(r, b)));
    }
    a
}
fn speaks(o: &Op) -> bool {
    matches!(o.body, Some(Body::Json { .. } | Body::Inline { .. } | Body::Text { .. }))
}
#[derive(Clone, Copy, PartialEq)]
enum About {
    /// what helpers can say
    Plain,
    Headers,
    Forms,
    Values,
}
fn group(r: &mut Rng, u: &Unit, i: &Item, o: &Op, about: About) -> Vec<Call> {
    let mut own = args(r, i, o);
    if about == About::Values {
        for p in i.effective(o) {
            if p.loc == Loc::Path && matches!(p.ty, Ty::Str | Ty::Label) {
                let n = p.name.snake();
                own.iter_mut().find(|a| a.0 == n).unwrap().1 = json!(r.pick(&["a.b", "a b", "é", "a+b", "(x)", "[y]", "w?", "5%"]));
            }
        }
    }
    let mut wants = vec![];
    let most = *r.pick(&[0, 40, 60, 100]);
    for p in i.effective(o) {
        let n = p.name.snake();
        match own.iter().find(|a| a.0 == n) {
            Some(a) if (p.loc != Loc::Header || about == About::Headers) && r.chance(most) => wants.push(a.clone()),
            None if p.loc == Loc::Query && r.chance(most / 2) => wants.push((n, Value::Null)),
            _ => {}
        }
    }
    if (speaks(o) || about == About::Forms && matches!(o.body, Some(Body::Form { .. }))) && r.chance(most) {
        wants.push(own.iter().find(|a| a.0 == "body").unwrap().clone());
    }
    r.shuffle(&mut wants);
    let mut made = vec![json!({"op": o.id.snake(), "args": own})];
    // nearly the same
    for _ in 0..2 + r.below(3) {
        let mut a = own.clone();
        let ps = i.effective(o);
        for _ in 0..1 + r.below(2) {
            if o.body.is_some() && r.chance(30) {
                let b = calls::body_value(r, o.body.as_ref().unwrap());
                a.iter_mut().find(|x| x.0 == "body").unwrap().1 = b;
            } else if !ps.is_empty() {
                let p = *r.pick(&ps);
                let n = p.name.snake();
                let had = a.iter().any(|x| x.0 == n);
                if p.optional() && had && r.chance(50) {
                    a.retain(|x| x.0 != n);
                } else {
                    a.retain(|x| x.0 != n);
                    a.push((n, value(r, p)));
                }
            }
        }
        made.push(json!({"op": o.id.snake(), "args": a}));
    }
    // the same with another method or a slip in the path
    for _ in 0..3 {
        let w = r.pick(&["x", "/", ".", "a", "", "+", "1"]).to_string();
        let slip = if r.chance(15) {
            json!({"method": r.pick(&["GET", "PUT", "POST", "DELETE", "HEAD", "PATCH", "OPTIONS", "TRACE"])})
        } else {
            json!({"at": r.below(60), "drop": r.chance(60), "put": w})
        };
        made.push(json!({"op": o.id.snake(), "args": own, "slip": slip}));
    }
    // others of the document
    let others: Vec<_> = u.spec.all_ops().collect();
    for _ in 0..2 {
        let (j, q) = r.pick(&others);
        made.push(json!({"op": q.id.snake(), "args": args(r, j, q)}));
    }
    let mut opts = json!({"calls": made});
    if r.chance(80) {
        let hs = e2e::helpers(o);
        let (name, status, kind, code) = r.pick(&hs);
        opts["then"] = json!(name);
        if *status {
            let class = match code {
                Code::Range(c) => *c,
                _ => 1 + r.below(5) as u16,
            };
            let class = if r.chance(20) { 1 + r.below(5) as u16 } else { class };
            opts["status"] = json!(class * 100 + *r.pick(&[0, 1, 4, 42, 99]));
        }
        opts["value"] = match kind {
            Kind::Json(t) => t.value(r),
            Kind::Raw => r.pick(&[json!(null), json!("text"), json!({"a": [1, "b"]}), json!([]), json!(1.5)]).clone(),
            _ => Value::Null,
        };
    }
    let body = json!({});
    vec![Call { unit: 0, style: "mock".into(), op: o.id.snake(), stream: false, args: wants, script: vec![e2e::Reply::json(500, &body); 12], take: None, opts }]
}

// ------------------------------------------------------------------ oracle

/// Whether the path is the template's, with some parameters given.
fn path_fits(i: &Item, path: &str, given: &dyn Fn(&str) -> Option<String>) -> bool {
    fn go(ps: &[Piece], i: &Item, rest: &str, given: &dyn Fn(&str) -> Option<String>) -> bool {
        match ps.first() {
            None => rest.is_empty(),
            Some(Piece::Lit(s)) => rest.strip_prefix(s.as_str()).is_some_and(|r| go(&ps[1..], i, r, given)),
            Some(Piece::Par(k)) => match given(&i.pars[*k].snake()) {
                Some(v) => rest.strip_prefix(v.as_str()).is_some_and(|r| go(&ps[1..], i, r, given)),
                None => (0..=rest.len()).filter(|n| !rest[..*n].contains('/')).any(|n| go(&ps[1..], i, &rest[n..], given)),
            },
        }
    }
    go(&i.pieces, i, path, given)
}
/// Whether the request is one of the operation with these arguments; None
/// where the path can be read in several ways.
fn wanted(i: &Item, o: &Op, wants: &[(String, Value)], method: &str, target: &str, body: &[u8]) -> Option<bool> {
    let (path, query) = target.split_once('?').unwrap_or((target, ""));
    if method != o.method.to_uppercase() {
        return Some(false);
    }
    let all = i.effective(o);
    let loc = |n: &str| all.iter().find(|p| p.name.snake() == n).map(|p| p.loc);
    let api = |n: &str| all.iter().find(|p| p.name.snake() == n).unwrap().name.api();
    let given: Vec<(&String, String)> = wants.iter().filter(|w| loc(&w.0) == Some(Loc::Path)).map(|w| (&w.0, Ty::wire(&w.1))).collect();
    let joint = path_fits(i, path, &|n| given.iter().find(|g| g.0 == n).map(|g| g.1.clone()));
    let each = path_fits(i, path, &|_| None) && given.iter().all(|g| path_fits(i, path, &|n| (n == g.0).then(|| g.1.clone())));
    let pairs = e2e::form(query);
    for (n, v) in wants {
        let ok = match loc(n) {
            Some(Loc::Query) if v.is_null() => !pairs.iter().any(|p| p.0 == api(n)),
            Some(Loc::Query) => pairs.iter().any(|p| p.0 == api(n) && p.1 == Ty::wire(v)),
            Some(Loc::Header) => return None,
            None => match &o.body {
                Some(Body::Form { .. }) => return None,
                Some(Body::Text { .. }) => v.as_str().map(str::as_bytes) == Some(body),
                _ => serde_json::from_slice::<Value>(body).is_ok_and(|b| &b == v),
            },
            _ => true,
        };
        if !ok {
            return Some(false);
        }
    }
    match (joint, each) {
        (true, _) => Some(true),
        (_, false) => Some(false),
        _ => None,
    }
}

fn judge(u: &Unit, calls: &[Call], done: &[Done], c: &mut Case) -> R {
    let (call, d) = (&calls[0], &done[0]);
    let (item, o) = e2e::find(&u.spec, &call.op);
    let fail = |m: String| Err(Fail::new(format!("{} ({}) with {}: {m}", call.op, item.template(), json!(call.args))));
    let then = call.opts["then"].as_str().unwrap_or("");
    let hs = e2e::helpers(o);
    let helper = hs.iter().find(|h| h.0 == then);
    let status = call.opts["status"].as_u64().unwrap_or(0) as u16;
    if let Some((_, true, _, Code::Range(k))) = helper {
        if status / 100 != *k {
            c.label("status outside its class");
            c.nontrivial();
            return match d.out.get("panic") {
                Some(_) => Ok(()),
                None => fail(format!("{then}({status}) is taken")),
            };
        }
    }
    if let Some(p) = d.out.get("panic") {
        return fail(format!("panic {p}"));
    }
    let (mut yes, mut no) = (0, 0);
    for (k, x) in d.out["calls"].as_array().ok_or_else(|| Fail::new(format!("check: {}", d.out)))?.iter().enumerate() {
        let q = &x["request"];
        let body = e2e::unhex(q["body"].as_str().unwrap());
        let (method, target) = (q["method"].as_str().unwrap(), q["target"].as_str().unwrap());
        let want = if k == 0 { Some(true) } else { wanted(item, o, &call.args, method, target, &body) };
        let got = x["fits"].as_bool().unwrap();
        match want {
            Some(true) => yes += 1,
            Some(false) => no += 1,
            None => continue,
        }
        if want != Some(got) {
            let what = if k == 0 { ", the call itself" } else { "" };
            return fail(format!("{method} {target} {:?}{what}: matches {got}", String::from_utf8_lossy(&body)));
        }
    }
    if yes > 0 && no > 0 {
        c.nontrivial();
    }
    if !call.args.is_empty() {
        c.label("with requirements");
    }
    let a = &d.out["answer"];
    let Some((_, takes, kind, code)) = helper else { return Ok(()) };
    let want = match (takes, code) {
        (true, _) => status,
        (_, Code::Exact(x)) => *x,
        _ => unreachable!(),
    };
    if a["status"] != json!(want) {
        return fail(format!("{then} answers with status {}, expected {want}", a["status"]));
    }
    let ct: Vec<&str> = a["headers"].as_array().unwrap().iter().filter(|h| h[0].as_str().unwrap().eq_ignore_ascii_case("content-type")).map(|h| h[1].as_str().unwrap()).collect();
    match kind {
        Kind::Json(_) | Kind::Raw => {
            c.label("answer with a value");
            let got = a["body"].as_str().and_then(|b| serde_json::from_slice::<Value>(&e2e::unhex(b)).ok());
            if ct != ["application/json"] || got.as_ref() != Some(&call.opts["value"]) {
                return fail(format!("{then} answers {got:?} as {ct:?}, expected {}", call.opts["value"]));
            }
        }
        _ if !a["body"].is_null() => return fail(format!("{then} answers with a body")),
        _ => {}
    }
    Ok(())
}

// ------------------------------------------------------------------- codes

/// Helpers exist for every status the document may name.
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Codes(Vec<u16>);
fn codes_accepted(k: &Codes, c: &mut Case) -> R {
    let rs: serde_json::Map<String, Value> = k.0.iter().map(|s| (s.to_string(), json!({"description": "an answer"}))).collect();
    let d = json!({"openapi": "3.0.3", "info": {"title": "codes", "version": "1"}, "paths": {"/codes": {"get": {"operationId": "codes", "responses": rs}}}});
    let api = serde_json::from_value(d).map_err(|e| Fail::new(format!("check: {e}")))?;
    c.nontrivial();
    let t = pure::mock(&api, "crate")?;
    let f = syn::parse2::<syn::File>(t).map_err(|e| Fail::new(format!("not Rust: {e}")))?;
    // one helper each
    let mut names = vec![];
    for i in f.items.iter().filter_map(|i| if let syn::Item::Mod(m) = i { m.content.as_ref() } else { None }).flat_map(|c| &c.1) {
        if let syn::Item::Impl(i) = i {
            if let syn::Type::Path(p) = &*i.self_ty {
                if p.path.is_ident("CodesThen") {
                    names.extend(i.items.iter().filter_map(|i| if let syn::ImplItem::Fn(f) = i { Some(f.sig.ident.to_string()) } else { None }));
                }
            }
        }
    }
    let own: std::collections::BTreeSet<_> = names.iter().filter(|n| !["new", "into_inner"].contains(&n.as_str())).collect();
    let extra = !k.0.iter().any(|s| s / 100 == 2);
    if own.len() != k.0.len() + extra as usize {
        return Err(Fail::new(format!("statuses {:?} have helpers {own:?}", k.0)));
    }
    Ok(())
}

pub fn p27(cx: &mut Ctx) {
    cx.rule("Generated descriptions become a builder client and mock helpers (httpmock's matching is a stand-in). A mock is set up with the requirements of some of the arguments of a generated call; the client's real requests are then tried on it: the call itself, calls with arguments changed, left out or added, the same with another method or a slip in the path, and calls of other operations. What matches is decided from the document and the request. The answer a helper sets up has the status, content type and JSON it was given; a status outside the helper's class is refused. Non-trivial: requests of both kinds, or a status refused.");
    cx.run("codes", 60, 600, gen(|r| { let mut v: Vec<u16> = (0..1 + r.below(4)).map(|_| 200 + r.below(400) as u16).collect(); v.sort(); v.dedup(); Codes(v) }, |c: &Codes| (0..c.0.len()).all(|i| c.0[i] >= 200 && c.0[i] < 600 && !c.0[..i].contains(&c.0[i]))), codes_accepted);
    let (n, per) = if cx.thorough() { (300, 14) } else { (32, 10) };
    let mocks = |cx: &mut Ctx, name: &str, units: Vec<Unit>, per: usize, about: &dyn Fn(&Unit) -> About, judge: &dyn Fn(&Unit, &[Call], &[Done], &mut Case) -> R| {
        calls::run(
            cx,
            Section {
                name,
                units,
                calls: &|r, u| {
                    let mut out = vec![];
                    for (i, o) in u.spec.all_ops() {
                        for _ in 0..per {
                            out.push(group(r, u, i, o, about(u)));
                        }
                    }
                    out
                },
                judge,
            },
        )
    };
    let units = calls::units(cx, "mocks", n, |r| unit_where(r, false));
    mocks(cx, "mocks", units, per, &|_| About::Plain, &judge);
    // what the helpers are known not to say; the title says what it is about
    const UNSAID: [(&str, About); 4] = [("names", About::Plain), ("headers", About::Headers), ("forms", About::Forms), ("values", About::Values)];
    let k = std::cell::Cell::new(0);
    let units = calls::units(cx, "unsaid", 8, |r| loop {
        let about = UNSAID[k.get() % 4].0;
        let mut u = unit_where(r, about == "names");
        u.spec.title = about.into();
        if about == "forms" {
            for b in u.spec.items.iter_mut().flat_map(|i| &mut i.ops).filter_map(|o| o.body.as_mut()) {
                *b = Body::Form { ty: Ty::Flat };
            }
            if !u.spec.all_ops().any(|(_, o)| o.body.is_some()) {
                continue;
            }
        }
        k.set(k.get() + 1);
        break u;
    });
    mocks(cx, "unsaid", units, 5, &|u| UNSAID.iter().find(|x| x.0 == u.spec.title).unwrap().1, &|u, calls, done, c| {
        let (item, o) = e2e::find(&u.spec, &calls[0].op);
        let given = |f: &dyn Fn(&Param) -> bool| item.effective(o).iter().any(|p| f(p) && calls[0].arg(&p.name.snake()).is_some());
        judge(u, calls, done, c).map_err(|f| {
            let out = &done[0].out;
            let own = out["calls"][0]["fits"] == json!(false);
            let explained = match u.spec.title.as_str() {
                "names" => given(&|p| p.loc == Loc::Query && p.name.api() != p.name.snake()),
                "headers" => given(&|p| p.loc == Loc::Header) && out["panic"] == json!("not yet implemented"),
                "forms" => matches!(o.body, Some(Body::Form { .. })) && calls[0].arg("body").is_some() && own,
                _ => given(&|p| p.loc == Loc::Path && !calls[0].arg(&p.name.snake()).is_none_or(safe)) && (f.msg.contains(": matches ") || own || out["panic"].is_string()),
            };
            if explained {
                Fail::sig(f.msg, u.spec.title.clone())
            } else {
                f
            }
        })
    });
    types(cx);
}

/// Parameters, answers and bodies of types the helpers' signatures do not take.
fn types(cx: &mut Ctx) {
    let name = "types";
    if !cx.section_enabled(name) || cx.replaying() && cx.replay_case::<Unit>(name).is_none() {
        return;
    }
    let mut r = cx.source(name);
    for kind in 0..3 {
        let unit = cx.replay_case::<Unit>(name).unwrap_or_else(|| loop {
            let mut u = unit_where(&mut r, false);
            u.spec.items.truncate(1);
            u.spec.items[0].ops.truncate(1);
            let i = &mut u.spec.items[0];
            let o = &mut i.ops[0];
            let mut done = false;
            match kind {
                0 => {
                    if let (false, Some(p)) = (o.paginated, o.params.iter_mut().find(|p| p.loc == Loc::Query)) {
                        (p.ty, p.nullable, done) = (Ty::StrArr, false, true);
                    }
                }
                1 => {
                    for x in &mut o.responses {
                        if let (doc::Content::Json(t), Code::Exact(200..=206)) = (&mut x.content, x.code) {
                            (*t, done) = (Ty::Str, true);
                        }
                    }
                }
                _ => {
                    if let Some(Body::Json { ty, .. }) = &mut o.body {
                        (*ty, done) = (Ty::I64, true);
                    }
                }
            }
            if done && u.spec.valid() {
                break u;
            }
        });
        match e2e::compile_failure(&unit) {
            None => {
                let mut c = Case::default();
                c.nontrivial();
                let j = unit.spec.json()["paths"].clone();
                cx.note_case(name, format!("{kind}"), || j, c);
            }
            Some(f) => {
                let known = ["E0599", "E0277", "E0308"].iter().any(|e| f.msg.contains(e)) && (f.msg.contains("to_string") || f.msg.contains("json_body_obj"));
                let f = if known { Fail::sig(f.msg, "types") } else { f };
                if !cx.report(name, &f, serde_json::to_value(&unit).unwrap()) {
                    break;
                }
            }
        }
        if cx.replaying() {
            break;
        }
    }
    e2e::blank();
}
