//! P26: the generated command line makes the call it was given.
use crate::calls::{self, Section};
use crate::doc::{self, Body, Kind, Knobs, Loc, Op, Spec, Ty};
use crate::e2e::{self, Call, Done, Reply, Unit};
use crate::p14;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use vk::gen::Rng;
use vk::{Case, Ctx, Fail, R};

// ------------------------------------------------------------ descriptions

/// What a document with descriptions says of a thing, by its name there.
fn says(kind: &str, name: &str) -> Option<String> {
    let h = name.bytes().fold(kind.len() as u32, |h, b| h.wrapping_mul(31).wrapping_add(b as u32));
    match h % 4 {
        0 => None,
        1 => Some(format!("{kind} {name}")),
        2 => Some(format!("The \"{kind}\" of {name}.\n\nMore, {{with}} 'é' and \\ too.")),
        _ => Some(format!("{kind} of {name}, and so on")),
    }
}
pub fn describe(d: &mut Value) {
    fn params(v: &mut Value) {
        for p in v.as_array_mut().into_iter().flatten() {
            param(p);
        }
    }
    fn param(p: &mut Value) {
        if let Some(t) = p["name"].as_str().and_then(|n| says("parameter", n)) {
            p["description"] = json!(t);
        }
    }
    for (_, item) in d["paths"].as_object_mut().unwrap() {
        for (k, o) in item.as_object_mut().unwrap() {
            if k == "parameters" {
                params(o);
                continue;
            }
            let id = o["operationId"].as_str().unwrap().to_string();
            for k in ["summary", "description"] {
                if let Some(t) = says(k, &id) {
                    o[k] = json!(t);
                }
            }
            if let Some(p) = o.get_mut("parameters") {
                params(p);
            }
        }
    }
    if let Some(m) = d["components"].get_mut("parameters").and_then(Value::as_object_mut) {
        m.values_mut().for_each(param);
    }
}

// ------------------------------------------------------------------ units

fn spoken(o: &Op) -> bool {
    // other answers are not yet handled by the command line
    matches!(o.success_kind(), Kind::Unit | Kind::Json(_)) && matches!(o.error_kind(), Kind::Unit | Kind::Json(_)) && !matches!(o.body, Some(Body::Octet | Body::Text { .. }))
}
/// Restricted to what a command line can say.
fn adapt(s: &mut Spec) {
    for i in &mut s.items {
        i.params.retain(|p| p.ty.scalar());
        for o in &mut i.ops {
            o.params.retain(|p| p.ty.scalar());
            if o.paginated {
                for p in &mut o.params {
                    if p.name.api() == "limit" {
                        p.ty = Ty::Nz;
                    }
                }
            }
        }
        i.ops.retain(spoken);
    }
    s.items.retain(|i| !i.ops.is_empty());
}
fn unit(r: &mut Rng) -> Unit {
    loop {
        let k = Knobs { items: 7, paginated: 20, bodies: 65, websocket: 0, ..Knobs::default() };
        let mut spec = doc::spec(r, k);
        adapt(&mut spec);
        for i in &mut spec.items {
            let shared = i.params.clone();
            for o in i.ops.iter_mut().filter(|o| o.paginated) {
                let all = o.params.iter().chain(shared.iter().filter(|q| !o.params.iter().any(|p| p.name.api() == q.name.api())));
                o.first = all.filter(|p| p.loc == Loc::Query && p.name.api() != "page_token" && r.chance(25)).map(|p| p.name.api()).collect();
            }
        }
        if spec.valid() && !spec.items.is_empty() {
            return Unit { spec, styles: vec!["builder".into(), "cli".into()], hooks: vec![] };
        }
    }
}

// ------------------------------------------------------------------- flags

fn flag(snake: &str) -> String {
    snake.trim_end_matches('_').replace('_', "-")
}
/// Members of a body with a type of its own: document name, flag, required.
fn members(o: &Op) -> Vec<(&'static str, &'static str, bool, bool)> {
    match &o.body {
        Some(Body::Inline { .. }) => vec![("one", "one", true, true), ("two", "two", false, true)],
        Some(Body::Json { ty, .. } | Body::Form { ty }) => match ty {
            Ty::Flat => vec![("fa", "fa", true, true), ("f-b", "f-b", false, true), ("fColor", "f-color", false, true)],
            Ty::Nested => vec![("k", "k", true, true), ("note", "note", false, true)],
            Ty::Widget => vec![
                ("id", "id", true, true),
                ("name", "name", true, true),
                ("color", "color", false, true),
                ("tags", "tags", false, false),
                ("in", "in", false, false),
                ("size", "size", false, true),
            ],
            _ => vec![],
        },
        _ => vec![],
    }
}
/// Whether the command line must give it.
fn needed(o: &Op, p: &doc::Param) -> bool {
    !p.optional() || o.paginated && o.first.contains(&p.name.api())
}
fn spoken_params<'a>(i: &'a doc::Item, o: &'a Op) -> Vec<&'a doc::Param> {
    i.effective(o).into_iter().filter(|p| !(o.paginated && p.name.api() == "page_token")).collect()
}
/// The members that are flags; None if the body can only be a file.
fn body_flags(i: &doc::Item, o: &Op) -> (Vec<(&'static str, &'static str, bool)>, bool) {
    let taken: BTreeSet<String> = spoken_params(i, o).iter().map(|p| flag(&p.name.snake())).collect();
    let all = members(o);
    let file_only = o.body.is_some() && (all.is_empty() || all.iter().any(|m| m.2 && (!m.3 || taken.contains(m.1))));
    (all.into_iter().filter(|m| m.3 && !taken.contains(m.1)).map(|m| (m.0, m.1, m.2)).collect(), file_only)
}

fn word(r: &mut Rng, flag: &str, v: &Value) -> Vec<String> {
    let t = Ty::wire(v);
    if t.starts_with('-') || r.chance(40) {
        vec![format!("--{flag}={t}")]
    } else {
        vec![format!("--{flag}"), t]
    }
}
/// The command line that says these arguments, as units that can be reordered.
fn argv(r: &mut Rng, i: &doc::Item, o: &Op, args: &[(String, Value)], opts: &mut Value) -> Vec<(String, Vec<String>)> {
    let mut out = vec![];
    for (n, v) in args {
        if n == "body" {
            let (fl, file_only) = body_flags(i, o);
            let m = v.as_object();
            if !file_only && m.is_some_and(|m| m.keys().all(|k| fl.iter().any(|f| f.0 == k))) && r.chance(75) {
                for (k, x) in m.unwrap() {
                    let f = fl.iter().find(|f| f.0 == k).unwrap().1;
                    out.push((f.to_string(), word(r, f, x)));
                }
            } else {
                opts["file"] = json!(v.to_string());
                out.push(("json-body".into(), word(r, "json-body", &json!("@FILE@"))));
            }
        } else {
            let f = flag(n);
            out.push((f.clone(), word(r, &f, v)));
        }
    }
    r.shuffle(&mut out);
    out
}
fn flaw(r: &mut Rng, i: &doc::Item, o: &Op, words: &mut Vec<(String, Vec<String>)>) -> Option<&'static str> {
    let (fl, file_only) = body_flags(i, o);
    let params = spoken_params(i, o);
    let by_file = words.iter().any(|w| w.0 == "json-body");
    match r.below(4) {
        0 => {
            // without something required
            let must: Vec<usize> = (0..words.len())
                .filter(|k| {
                    let f = &words[*k].0;
                    params.iter().any(|p| &flag(&p.name.snake()) == f && needed(o, p))
                        || !by_file && fl.iter().any(|x| x.1 == f && x.2)
                        || f == "json-body" && (file_only || fl.iter().any(|x| x.2))
                })
                .collect();
            if must.is_empty() {
                return None;
            }
            words.remove(*r.pick(&must));
            Some("missing")
        }
        1 => {
            let bad = |f: &str| -> Option<&'static str> {
                let p = params.iter().find(|p| flag(&p.name.snake()) == f);
                Some(match p.map(|p| p.ty) {
                    Some(Ty::I64 | Ty::I32 | Ty::U32 | Ty::Count | Ty::Nz | Ty::F64) => "1x",
                    Some(Ty::Bool) => "maybe",
                    Some(Ty::Uuid | Ty::Date) => "2020",
                    Some(Ty::Color) => "Red",
                    Some(Ty::Label) => "thirteen-long",
                    Some(_) => return None,
                    None => match f {
                        "f-b" | "k" | "two" | "size" => "1x",
                        "id" => "0000",
                        "color" | "f-color" => "light_green",
                        _ => return None,
                    },
                })
            };
            let can: Vec<usize> = (0..words.len()).filter(|k| bad(&words[*k].0).is_some()).collect();
            if can.is_empty() {
                return None;
            }
            let k = *r.pick(&can);
            let f = words[k].0.clone();
            words[k].1 = vec![format!("--{f}={}", bad(&f).unwrap())];
            Some("bad value")
        }
        2 => {
            words.push(("zzz".into(), vec!["--zzz-unknown=1".into()]));
            Some("unknown flag")
        }
        _ => Some("refused"),
    }
}

fn group(r: &mut Rng, i: &doc::Item, o: &Op) -> Vec<Call> {
    let mut a = calls::args(r, i, o, 60);
    if o.paginated {
        a.retain(|x| x.0 != "page_token");
        for p in spoken_params(i, o) {
            let n = p.name.snake();
            if needed(o, p) && !a.iter().any(|x| x.0 == n) {
                a.push((n, calls::param_value(r, p)));
            }
        }
    }
    let script = if r.chance(60) { good_script(r, o) } else { p14::script(r, o, o.paginated) };
    let mut c = calls::call(r, "builder", o, a.clone(), script);
    c.stream = o.paginated;
    c.take = if o.paginated { c.arg("limit").and_then(Value::as_u64).map(|n| n as usize) } else { None };
    let mut d = c.clone();
    d.style = "cli".into();
    d.stream = false;
    d.take = None;
    let mut words = argv(r, i, o, &a, &mut d.opts);
    if r.chance(25) {
        if let Some(f) = flaw(r, i, o, &mut words) {
            d.opts["flaw"] = json!(f);
            if f == "refused" {
                d.opts["refuse"] = json!(true);
            }
        }
    }
    d.opts["argv"] = words.into_iter().flat_map(|w| w.1).collect();
    vec![d, c]
}
fn good_script(r: &mut Rng, o: &Op) -> Vec<Reply> {
    if o.paginated {
        let n = r.below(4);
        return (0..=n)
            .map(|k| {
                let mut v = Ty::Page.value(r);
                v["next_page"] = if k < n { json!(format!("t{k}")) } else { Value::Null };
                Reply::json(200, &v)
            })
            .collect();
    }
    for _ in 0..20 {
        let s = *r.pick(&[200, 201, 202, 204, 203, 206, 299, 404, 400, 503]);
        match o.outcome(s) {
            doc::Outcome::Ok(Kind::Json(t)) | doc::Outcome::ErrorResponse(Kind::Json(t)) => return vec![Reply::json(s, &t.value(r))],
            doc::Outcome::Ok(Kind::Unit) | doc::Outcome::ErrorResponse(Kind::Unit) => return vec![Reply::new(s, b"")],
            _ => {}
        }
    }
    p14::script(r, o, false)
}

// ------------------------------------------------------------------ oracle

/// The callbacks that fit what the client did.
fn callbacks(o: &Op, out: &Value) -> Result<(Vec<Value>, bool), String> {
    let pick = |v: &Value, ks: &[&str]| -> Value { ks.iter().filter_map(|k| v.get(*k).map(|x| (k.to_string(), x.clone()))).collect::<serde_json::Map<_, _>>().into() };
    let err = |v: &Value| pick(v, &["err", "status", "headers", "json", "msg"]);
    let ok = |v: &Value| pick(v, &["status", "headers", "json"]);
    if o.paginated {
        let mut n = vec![json!(["list_start", null])];
        for x in out["items"].as_array().ok_or("check: no items")? {
            n.push(json!(["list_item", x]));
        }
        return Ok(if out["end"].is_string() {
            n.push(json!(["list_end_success", null]));
            (n, true)
        } else {
            n.push(json!(["list_end_error", err(&out["end"])]));
            (n, false)
        });
    }
    Ok(match out.get("ok") {
        Some(v) if o.success_kind() == Kind::Unit => (vec![json!(["success_no_item", ok(v)])], true),
        Some(v) => (vec![json!(["success_item", ok(v)])], true),
        None => (vec![json!(["error", err(out)])], false),
    })
}

fn judge(u: &Unit, calls: &[Call], done: &[Done], c: &mut Case) -> R {
    let (call, d, b) = (&calls[0], &done[0], &done[1]);
    let (item, o) = e2e::find(&u.spec, &call.op);
    let fail = |m: String| Err(Fail::new(format!("{} {}: {m}; outcome {} with {:?}", call.op, call.opts["argv"], d.out["end"], d.notes)));
    if let Some(p) = d.out.get("panic") {
        let m = format!("{} {}: panic {p}", call.op, call.opts["argv"]);
        let limit = item.effective(o).iter().any(|p| p.name.api() == "limit" && p.ty != Ty::Nz);
        // known: --limit is read as a NonZeroU32 whatever its type
        return Err(if limit && m.contains("Mismatch between definition and access of `limit`") { Fail::sig(m, "limit-type") } else { Fail::new(m) });
    }
    // the commands there are
    let mut want: Vec<String> = u.spec.all_ops().map(|(_, o)| o.id.pascal()).collect();
    let mut got: Vec<String> = serde_json::from_value(d.out["names"].clone()).unwrap_or_default();
    want.sort();
    got.sort();
    if got != want {
        return fail(format!("commands {got:?}, expected {want:?}"));
    }
    // what it says of itself
    let desc = &d.out["desc"];
    for (k, what) in [("about", "summary"), ("long_about", "description")] {
        if desc[k] != json!(says(what, &o.id.api())) {
            return fail(format!("{k} is {}, the document's {what} {:?}", desc[k], says(what, &o.id.api())));
        }
    }
    let mut flags: BTreeSet<String> = BTreeSet::new();
    for p in spoken_params(item, o) {
        let f = flag(&p.name.snake());
        let a = &desc["args"][&f];
        if a.is_null() {
            return fail(format!("no flag --{f}, but {}", desc["args"]));
        }
        if a["help"] != json!(says("parameter", &p.name.api())) {
            return fail(format!("help of --{f} is {}", a["help"]));
        }
        if a["required"] != json!(needed(o, p)) {
            return fail(format!("required of --{f} is {}", a["required"]));
        }
        flags.insert(f);
    }
    let (fl, file_only) = body_flags(item, o);
    flags.extend(fl.iter().map(|f| f.1.to_string()));
    if o.body.is_some() {
        flags.extend(["json-body".to_string(), "json-body-template".to_string()]);
        if desc["args"]["json-body"]["required"] != json!(file_only) {
            return fail("whether --json-body is required".into());
        }
    }
    let has: BTreeSet<String> = desc["args"].as_object().unwrap().keys().filter(|k| *k != "help").cloned().collect();
    if has != flags {
        return fail(format!("flags {has:?}, expected {flags:?}"));
    }
    c.nontrivial();
    let flaw = call.opts.get("flaw").and_then(Value::as_str);
    c.label(flaw.unwrap_or(if o.paginated { "list" } else { "call" }));
    match flaw {
        Some("refused") => {
            if !d.seen.is_empty() || d.out["end"] != json!({"err": "the override refuses"}) || d.notes.len() != 1 || d.notes[0][0] != json!("override") {
                return fail(format!("the override refused, but {} requests", d.seen.len()));
            }
            return Ok(());
        }
        Some(f) => {
            if !d.seen.is_empty() || !d.notes.is_empty() || d.out["end"].get("usage").is_none() {
                return fail(format!("a command line with a {f} is taken, {} requests", d.seen.len()));
            }
            return Ok(());
        }
        None => {}
    }
    if d.out["end"].get("usage").is_some() {
        return fail("a proper command line is refused".into());
    }
    // the requests
    let (x, y): (Vec<_>, Vec<_>) = (d.seen.iter().map(p14::essence).collect(), b.seen.iter().map(p14::essence).collect());
    if x != y {
        return fail(format!("requests {} / the client's {}", Value::from(x), Value::from(y)));
    }
    if d.seen.is_empty() {
        return fail("no request".into());
    }
    let mut first = call.clone();
    if o.paginated {
        first.args.retain(|a| a.0 != "page_token");
    }
    if let Err(m) = e2e::check_request(&u.spec, &first, &d.seen[0]) {
        return fail(m);
    }
    // what it reports
    let Some(("override", op)) = d.notes.first().and_then(|n| Some((n[0].as_str()?, &n[1]))) else { return fail("the override is not asked first".into()) };
    if op != &json!(call.op) {
        return fail(format!("the override asked is {op}"));
    }
    let (want, success) = match callbacks(o, &b.out) {
        Ok(x) => x,
        Err(m) => return fail(m),
    };
    let mut text = None;
    let got: Vec<Value> = d.notes[1..]
        .iter()
        .map(|n| {
            let mut n = n.clone();
            if let Some(t) = n[1].as_object_mut().and_then(|m| if m.contains_key("err") { m.remove("text") } else { None }) {
                text = Some(t);
            }
            if let Some(m) = n[1].as_object_mut().filter(|m| m.contains_key("err")) {
                m.remove("raw");
            }
            n
        })
        .collect();
    if got != want {
        return fail(format!("reports {}, expected {}", Value::from(got), Value::from(want)));
    }
    match success {
        true if d.out["end"] != json!("ok") => fail("ends in an error".into()),
        false if d.out["end"]["err"].as_str().is_none() || Some(&d.out["end"]["err"]) != text.as_ref() => fail(format!("ends with {}, the error is {text:?}", d.out["end"])),
        _ => Ok(()),
    }
}

pub fn p26(cx: &mut Ctx) {
    cx.rule("Generated descriptions become a builder client and its command line. Generated arguments are spelled as flags (any order, --a b and --a=b) or a body file and parsed by clap; the requests must be those of the builder called with the same arguments and fit the document, and the callbacks and the result those of the builder's outcome. A quarter of the command lines has one flaw (required flag missing, unparseable value, unknown flag, refusing override) and must end without a request. Summaries, help texts and the set of flags are compared with the document. All cases count.");
    lists(cx);
    let commands = |cx: &mut Ctx, name: &str, units: Vec<Unit>, per: usize| {
        calls::run(
            cx,
            Section {
                name,
                units,
                calls: &|r, u| {
                    let mut out = vec![];
                    for (i, o) in u.spec.all_ops() {
                        for _ in 0..per {
                            out.push(group(r, i, o));
                        }
                    }
                    out
                },
                judge: &judge,
            },
        )
    };
    let (n, per) = if cx.thorough() { (300, 12) } else { (32, 8) };
    let units = calls::units(cx, "commands", n, unit);
    commands(cx, "commands", units, per);
    // any type will do for the limit of a paginated operation
    let units = calls::units(cx, "limit", 1, |r| loop {
        let mut u = unit(r);
        for i in &mut u.spec.items {
            i.ops.retain(|o| o.paginated);
            for p in i.ops.iter_mut().flat_map(|o| &mut o.params).chain(&mut i.params) {
                if p.name.api() == "limit" {
                    p.ty = Ty::U32;
                }
            }
        }
        u.spec.items.retain(|i| !i.ops.is_empty());
        if u.spec.valid() && !u.spec.items.is_empty() {
            return u;
        }
    });
    commands(cx, "limit", units, 12);
}

/// Query parameters that are lists or objects.
fn lists(cx: &mut Ctx) {
    let name = "list-parameter";
    if !cx.section_enabled(name) || cx.replaying() && cx.replay_case::<Unit>(name).is_none() {
        return;
    }
    let mut r = cx.source(name);
    for ty in [Ty::StrArr, Ty::Flat] {
        let unit = cx.replay_case::<Unit>(name).unwrap_or_else(|| loop {
            let mut u = unit(&mut r);
            u.styles = vec!["cli".into()];
            u.spec.items.truncate(1);
            u.spec.items[0].ops.truncate(1);
            u.spec.items[0].params.retain(|p| p.loc == Loc::Path);
            let o = &mut u.spec.items[0].ops[0];
            if let (false, Some(p)) = (o.paginated, o.params.iter_mut().find(|p| p.loc == Loc::Query)) {
                (p.ty, p.nullable) = (ty, false);
                if u.spec.valid() {
                    break u;
                }
            }
        });
        match e2e::compile_failure(&unit) {
            None => {
                let mut c = Case::default();
                c.nontrivial();
                let j = unit.spec.json()["paths"].clone();
                cx.note_case(name, format!("{ty:?}"), || j, c);
            }
            Some(f) => {
                // known: clap has no parser for such a type
                let f = if f.msg.contains("value_parser") && f.msg.contains("E0599") { Fail::sig(f.msg, "no-parser") } else { f };
                if !cx.report(name, &f, serde_json::to_value(&unit).unwrap()) {
                    break;
                }
            }
        }
    }
    e2e::blank();
}
