//! P13: a stream of items is the concatenation of the pages.
use crate::calls::{self, Section};
use crate::doc::{self, Knobs, Loc, Ty};
use crate::e2e::{self, hex, Call, Done, Reply, Unit};
use crate::pure::STYLES;
use serde_json::{json, Value};
use vk::gen::Rng;
use vk::{Case, Ctx, Fail, R};

fn unit(r: &mut Rng) -> Unit {
    let k = Knobs { items: 5, paginated: 100, bodies: 0, websocket: 0, ..Knobs::default() };
    Unit { spec: doc::spec(r, k), styles: vec![r.pick(STYLES).to_string()], hooks: vec![] }
}

fn page(r: &mut Rng, more: bool) -> Value {
    let n = r.weighted(&[2, 3, 3, 2, 1, 1]);
    let items: Vec<Value> = (0..n).map(|_| Ty::Nested.value(r)).collect();
    let mut v = json!({"items": items});
    if more {
        // any text continues, the empty one too
        v["next_page"] = json!(doc::text(r));
    } else if r.chance(40) {
        v["next_page"] = Value::Null;
    }
    v
}

/// Pages, then how the sequence ends.
fn script(r: &mut Rng) -> (Vec<Reply>, &'static str) {
    let n = r.weighted(&[0, 2, 3, 3, 2, 1, 1]);
    let mut v: Vec<Reply> = (0..n).map(|k| Reply::json(200, &page(r, k + 1 < n))).collect();
    let end = match r.below(12) {
        0 => "error",
        1 => "undocumented",
        2 => "damaged",
        3 => "cut",
        4 => "hangup",
        _ => return (v, "end"),
    };
    let last = v.len() - 1;
    let body = page(r, true);
    v[last] = match end {
        "error" => Reply::json(*r.pick(&[400, 404, 500, 503]), &json!({"fa": "no"})),
        "undocumented" => Reply::json(*r.pick(&[302, 304]), &json!({"fa": "no"})),
        "damaged" => Reply::new(200, b"{\"items\": [{\"k\": 1}, 2]}"),
        "cut" => {
            let mut p = Reply::json(200, &body);
            p.cut = Some(r.below(p.bytes().len()));
            p
        }
        _ => Reply::new(0, b""),
    };
    (v, end)
}

fn judge(u: &Unit, calls: &[Call], done: &[Done], c: &mut Case) -> R {
    let (call, d) = (&calls[0], &done[0]);
    let (item, o) = e2e::find(&u.spec, &call.op);
    let end = call.opts["end"].as_str().unwrap();
    let fail = |m: String| Err(Fail::new(format!("{} {}: {m}; outcome {}", call.style, call.op, d.out)));
    // the model: pages in order until one without a token, an error, or enough items
    let mut items: Vec<Value> = vec![];
    let mut tokens: Vec<Option<String>> = vec![];
    let mut want_end = json!(null);
    let enough = |n: usize| call.take.is_some_and(|t| n >= t);
    let mut token = None;
    for (k, rep) in call.script.iter().enumerate() {
        if enough(items.len()) {
            break;
        }
        tokens.push(token.clone());
        if k + 1 == call.script.len() && end != "end" {
            want_end = json!(match end {
                "error" if !o.responses.iter().any(|r| r.code == doc::Code::Range(4)) => "UnexpectedResponse",
                "error" => "ErrorResponse",
                "undocumented" => "UnexpectedResponse",
                "damaged" => "InvalidResponsePayload",
                "cut" => "ResponseBodyError",
                _ => "CommunicationError",
            });
            break;
        }
        let p: Value = serde_json::from_slice(&rep.bytes()).unwrap();
        items.extend(p["items"].as_array().unwrap().iter().cloned());
        match p["next_page"].as_str() {
            Some(t) => token = Some(t.to_string()),
            None => {
                want_end = json!("end");
                break;
            }
        }
    }
    if enough(items.len()) {
        items.truncate(call.take.unwrap());
        want_end = json!("taken");
    }
    c.nontrivial_if(tokens.len() > 1);
    c.label(format!("ends: {}", want_end.as_str().unwrap_or("?")));
    c.label(format!("requests: {}", tokens.len()));
    c.label(&call.style);
    if d.out["items"] != json!(items) {
        return fail(format!("expected the items {}", json!(items)));
    }
    let got_end = d.out["end"].get("err").unwrap_or(&d.out["end"]);
    if got_end != &want_end {
        return fail(format!("expected to finish with {want_end}"));
    }
    if end == "damaged" && want_end == "InvalidResponsePayload" && d.out["end"]["raw"] != json!(hex(&call.script.last().unwrap().bytes())) {
        return fail("the damaged page is not reported whole".into());
    }
    if d.seen.len() != tokens.len() {
        return fail(format!("{} requests, expected {}", d.seen.len(), tokens.len()));
    }
    for (k, (s, t)) in d.seen.iter().zip(&tokens).enumerate() {
        let mut one = call.clone();
        if let Some(t) = t {
            // later pages: where and how much, and the token alone
            let e = item.effective(o);
            one.args.retain(|(n, _)| n == "limit" || !e.iter().any(|p| p.loc == Loc::Query && &p.name.snake() == n));
            one.args.push(("page_token".into(), json!(t)));
        }
        if let Err(m) = e2e::check_request(&u.spec, &one, s) {
            return fail(format!("request {k}: {m}"));
        }
    }
    Ok(())
}

pub fn p13(cx: &mut Ctx) {
    cx.rule("Paginated operations with generated path, query and header parameters are compiled and their item streams consumed, wholly or in part, from a server scripted with generated page sequences (empty pages, empty tokens, errors, broken answers); items, end and every request are compared with a model that concatenates pages. Non-trivial: more than one request expected.");
    let (n, per) = if cx.thorough() { (480, 40) } else { (48, 16) };
    let units = calls::units(cx, "streams", n, unit);
    calls::run(
        cx,
        Section {
            name: "streams",
            units,
            calls: &|r, u| {
                let mut out = vec![];
                for style in &u.styles {
                    for (i, o) in u.spec.all_ops().filter(|(_, o)| o.paginated && o.method != "head") {
                        for _ in 0..per {
                            let mut a = calls::args(r, i, o, 60);
                            a.retain(|x| x.0 != "page_token");
                            let (s, end) = script(r);
                            let mut c = calls::call(r, style, o, a, s);
                            c.stream = true;
                            c.opts["end"] = json!(end);
                            if r.chance(30) {
                                c.take = Some(r.below(9));
                            }
                            out.push(vec![c]);
                        }
                    }
                }
                out
            },
            judge: &judge,
        },
    );
}
