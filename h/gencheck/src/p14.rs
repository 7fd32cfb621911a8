//! P14: the three interface styles make the same calls and give the same outcomes.
use crate::calls::{self, Section};
use crate::doc::{self, Knobs};
use crate::e2e::{self, Call, Done, Reply, Seen, Unit};
use crate::pure::STYLES;
use serde_json::Value;
use vk::gen::Rng;
use vk::{Case, Ctx, Fail, R};

fn unit(r: &mut Rng) -> Unit {
    let k = Knobs { items: 5, paginated: 25, ..Knobs::default() };
    Unit { spec: doc::spec(r, k), styles: STYLES.iter().map(|s| s.to_string()).collect(), hooks: vec![] }
}

/// What of a request must agree.
pub fn essence(s: &Seen) -> Value {
    let mut h: Vec<&(String, String)> = s.headers.iter().filter(|h| h.0 != "host" && h.0 != "sec-websocket-key").collect();
    h.sort();
    // members of a map come in any order
    let body = serde_json::from_slice::<Value>(&e2e::unhex(&s.body)).unwrap_or(s.body.clone().into());
    serde_json::json!([s.method, s.target, h, body])
}

/// Answers: documented and not, well-formed and not.
pub fn script(r: &mut Rng, o: &doc::Op, stream: bool) -> Vec<Reply> {
    let status = *r.pick(&[200, 200, 201, 204, 299, 302, 400, 404, 500, 599, 0]);
    let mut script: Vec<Reply> = vec![];
    if stream {
        for k in 0..r.below(3) {
            let mut v = doc::Ty::Page.value(r);
            v["next_page"] = format!("t{k}").into();
            script.push(Reply::json(200, &v));
        }
    }
    script.push(match r.below(4) {
        0 => Reply::new(status, doc::text(r).as_bytes()),
        _ => Reply::json(
            status,
            &match o.outcome(status) {
                doc::Outcome::Ok(doc::Kind::Json(t)) | doc::Outcome::ErrorResponse(doc::Kind::Json(t)) => t.value(r),
                _ => doc::Ty::Map.value(r),
            },
        ),
    });
    script
}

fn judge(_: &Unit, calls: &[Call], done: &[Done], c: &mut Case) -> R {
    let a = &done[0];
    c.nontrivial_if(calls[0].args.len() > 0);
    c.label(if calls[0].stream { "stream" } else { "call" });
    for (k, b) in done.iter().enumerate().skip(1) {
        let fail = |m: String| Err(Fail::new(format!("{}: {} and {} differ: {m}", calls[0].op, calls[0].style, calls[k].style)));
        let (x, y): (Vec<_>, Vec<_>) = (a.seen.iter().map(essence).collect(), b.seen.iter().map(essence).collect());
        if x != y {
            return fail(format!("requests {} / {}", Value::from(x), Value::from(y)));
        }
        if a.out != b.out {
            return fail(format!("outcomes {} / {}", a.out, b.out));
        }
    }
    Ok(())
}

pub fn p14(cx: &mut Ctx) {
    cx.rule("Each generated description becomes a positional, a builder and a tagged client; the same generated arguments and scripted answers go to all three (each tag's trait in turn), and the requests and outcomes must agree. Non-trivial: at least one argument.");
    let (n, per) = if cx.thorough() { (400, 10) } else { (40, 5) };
    let units = calls::units(cx, "styles", n, unit);
    calls::run(
        cx,
        Section {
            name: "styles",
            units,
            calls: &|r, u| {
                let mut out = vec![];
                for (i, o) in u.spec.all_ops() {
                    for k in 0..per {
                        let stream = o.paginated && k % 2 == 0;
                        let mut a = calls::args(r, i, o, 60);
                        if stream {
                            a.retain(|x| x.0 != "page_token");
                        }
                        let script = script(r, o, stream);
                        let mut c = calls::call(r, "", o, a, script);
                        c.stream = stream;
                        out.push(
                            u.styles
                                .iter()
                                .map(|s| {
                                    let mut c = c.clone();
                                    c.style = s.clone();
                                    if s != "positional" {
                                        // the order of setting is free
                                        r.shuffle(&mut c.args);
                                    }
                                    c
                                })
                                .collect(),
                        );
                    }
                }
                out
            },
            judge: &judge,
        },
    );
}
