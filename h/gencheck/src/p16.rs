//! P16: hooks run once per request, in order, and their refusals are final.
use crate::calls::{self, Section};
use crate::doc::{self, Knobs};
use crate::e2e::{self, Call, Done, Reply, Unit};
use crate::pure::STYLES;
use serde_json::{json, Value};
use vk::gen::Rng;
use vk::{Case, Ctx, Fail, R};

const HOOKS: &[&str] = &["pre_hook", "pre_hook_async", "post_hook", "post_hook_async"];

fn unit(r: &mut Rng) -> Unit {
    let k = Knobs { items: 4, paginated: 25, ..Knobs::default() };
    let mut hooks: Vec<String> = HOOKS.iter().filter(|_| r.chance(70)).map(|h| h.to_string()).collect();
    if r.chance(60) {
        hooks.push("inner".into());
    }
    Unit { spec: doc::spec(r, k), styles: vec![r.pick(STYLES).to_string()], hooks }
}

fn judge(u: &Unit, calls: &[Call], done: &[Done], c: &mut Case) -> R {
    let (call, d) = (&calls[0], &done[0]);
    let has = |h: &str| u.hooks.iter().any(|x| x == h);
    let names: Vec<&str> = d.notes.iter().map(|n| n[0].as_str().unwrap()).collect();
    let fail = |m: String| Err(Fail::new(format!("{} {} with {:?}: {m}; hooks ran {names:?}; outcome {}", call.style, call.op, u.hooks, d.out)));
    let out = if call.stream { &d.out["end"] } else { &d.out };
    let err = out.get("err").and_then(Value::as_str).unwrap_or("");
    // the model: each request, its hooks around it
    let refuse = |h: &str| call.opts.get(h).and_then(Value::as_u64).filter(|_| has(h));
    let mut want: Vec<&str> = vec![];
    let mut sent = 0;
    let mut refusal = "";
    for k in 0..call.script.len() as u64 {
        want.extend(["pre_hook", "pre_hook_async"].iter().filter(|h| has(h)));
        if refuse("pre_hook_async").is_some_and(|n| k >= n) {
            refusal = "PreHookError";
            break;
        }
        sent += 1;
        want.extend(["post_hook", "post_hook_async"].iter().filter(|h| has(h)));
        if refuse("post_hook_async").is_some_and(|n| k >= n) {
            refusal = "PostHookError";
            break;
        }
    }
    c.nontrivial_if(!want.is_empty());
    c.label(if refusal.is_empty() { "passed" } else { refusal });
    c.label(if has("inner") { "with inner" } else { "without inner" });
    if names != want {
        return fail(format!("expected {want:?}"));
    }
    if d.seen.len() != sent {
        return fail(format!("{} requests, expected {sent}", d.seen.len()));
    }
    if !refusal.is_empty() && (err != refusal || out["msg"] != json!(format!("{} says no", if refusal == "PreHookError" { "pre_hook_async" } else { "post_hook_async" }))) {
        return fail(format!("expected {refusal}"));
    }
    if refusal.is_empty() && (err == "PreHookError" || err == "PostHookError" || err == "InvalidRequest") {
        return fail("refused although no hook said so".into());
    }
    // what each hook saw is what went over the wire
    let amended = has("pre_hook_async") && call.opts.get("amend").is_some();
    let mut k = 0;
    for n in &d.notes {
        let (name, x) = (n[0].as_str().unwrap(), &n[1]);
        if name.starts_with("pre") {
            if let Some(s) = d.seen.get(k) {
                if x["method"] != json!(s.method) || x["target"] != json!(s.target) {
                    return fail(format!("{name} saw {x}, sent was {} {}", s.method, s.target));
                }
                for h in x["headers"].as_array().unwrap() {
                    let (n, v) = (h[0].as_str().unwrap(), h[1].as_str().unwrap());
                    if !s.headers.iter().any(|(a, b)| a == n && b == v) && !v.chars().any(|c| !c.is_ascii()) {
                        return fail(format!("{name} saw header {n}: {v} which was not sent"));
                    }
                }
                if s.headers.iter().any(|h| h.0 == "x-hook") != amended {
                    return fail("the hook's change to the request is not what was sent".into());
                }
            }
        } else {
            let st = call.script[k].status;
            let want = if st == 0 { json!("error") } else { json!(st) };
            if x != &want {
                return fail(format!("{name} saw {x}, the answer was {want}"));
            }
        }
        let last = HOOKS.iter().rev().find(|h| has(h)).unwrap();
        if name == *last {
            k += 1;
        }
    }
    Ok(())
}

pub fn p16(cx: &mut Ctx) {
    cx.rule("Clients generated with every combination of hooks, with and without an inner value, make generated calls and streams; each hook records what it is given, some change the request, some refuse at a chosen request; order, count, arguments and the outcome are compared with a model. Non-trivial: at least one hook runs.");
    let (n, per) = if cx.thorough() { (480, 24) } else { (64, 8) };
    let units = calls::units(cx, "hooks", n, unit);
    calls::run(
        cx,
        Section {
            name: "hooks",
            units,
            calls: &|r, u| {
                let mut out = vec![];
                for style in &u.styles {
                    for (i, o) in u.spec.all_ops() {
                        for k in 0..per {
                            let stream = o.paginated && o.method != "head" && k % 2 == 0;
                            let mut a = calls::args(r, i, o, 50);
                            let mut script = vec![];
                            if stream {
                                a.retain(|x| x.0 != "page_token");
                                for k in 0..r.below(4) {
                                    let v = json!({"items": [], "next_page": format!("t{k}")});
                                    script.push(Reply::json(200, &v));
                                }
                                script.push(Reply::json(200, &json!({"items": []})));
                            } else {
                                script.push(Reply::new(*r.pick(&[200, 204, 404, 500, 302, 0]), b"x"));
                            }
                            let mut c = calls::call(r, style, o, a, script);
                            c.stream = stream;
                            if r.chance(50) {
                                c.opts["amend"] = json!(true);
                            }
                            if r.chance(30) {
                                c.opts["pre_hook_async"] = json!(r.below(3));
                            }
                            if r.chance(30) {
                                c.opts["post_hook_async"] = json!(r.below(3));
                            }
                            out.push(vec![c]);
                        }
                    }
                }
                out
            },
            judge: &judge,
        },
    );
}
