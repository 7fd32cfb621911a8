//! P15: what a builder was given last is what is sent, or nothing is.
use crate::calls::{self, Section};
use crate::doc::{self, Knobs};
use crate::e2e::{self, Call, Done, Reply, Unit};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use vk::gen::Rng;
use vk::{Case, Ctx, Fail, R};

fn unit(r: &mut Rng) -> Unit {
    let k = Knobs { items: 5, paginated: 8, bodies: 65, ..Knobs::default() };
    Unit { spec: doc::spec(r, k), styles: vec![r.pick(&["builder", "tagged"]).to_string()], hooks: vec![] }
}

/// A history of setter calls.
fn history(r: &mut Rng, i: &doc::Item, o: &doc::Op) -> Vec<(String, Value)> {
    let full = calls::args(r, i, o, 70);
    let nested = e2e::body_builder(o);
    let raw = matches!(o.body, Some(doc::Body::Octet | doc::Body::Text { .. }));
    let bad = json!({"$bad": true});
    let mut h = vec![];
    let mode = r.below(4);
    for (n, v) in &full {
        if mode == 1 && r.chance(25) {
            continue; // left out, required or not
        }
        // earlier values that must not count
        for _ in 0..r.weighted(&[6, 3, 1]) {
            let other = calls::args(r, i, o, 100);
            let w = other.iter().find(|a| &a.0 == n).unwrap().1.clone();
            h.push((n.clone(), if r.chance(25) { bad.clone() } else { w }));
        }
        h.push(if mode == 2 && r.chance(25) {
            (n.clone(), bad.clone())
        } else if n == "body" && nested && r.chance(30) {
            ("body_map".into(), v.clone())
        } else {
            (n.clone(), v.clone())
        });
    }
    // setters of different parameters in any order
    let mut keys: Vec<usize> = (0..h.len()).map(|_| r.below(1000)).collect();
    keys.sort();
    let of = |n: &String| if n == "body_map" { "body".to_string() } else { n.clone() };
    let mut groups: BTreeMap<String, Vec<(String, Value)>> = BTreeMap::new();
    for x in h {
        groups.entry(of(&x.0)).or_default().push(x);
    }
    let mut out = vec![];
    let mut left: Vec<Vec<(String, Value)>> = groups.into_values().collect();
    while !left.is_empty() {
        let k = r.below(left.len());
        out.push(left[k].remove(0));
        if left[k].is_empty() {
            left.remove(k);
        }
        if !raw && r.chance(10) {
            out.push(("$clone".into(), Value::Null));
        }
        if nested && r.chance(10) {
            out.push(("body_keep".into(), Value::Null));
        }
    }
    out
}

fn judge(u: &Unit, calls: &[Call], done: &[Done], c: &mut Case) -> R {
    let (call, d) = (&calls[0], &done[0]);
    let (item, o) = e2e::find(&u.spec, &call.op);
    // the model: per parameter, the last thing said
    #[derive(Clone, PartialEq)]
    enum S {
        Missing,
        Bad,
        Set(Value),
    }
    let e = item.effective(o);
    let mut st: BTreeMap<String, S> = e.iter().map(|p| (p.name.snake(), S::Missing)).collect();
    if o.body.is_some() {
        st.insert("body".into(), S::Missing);
    }
    for (n, v) in &call.args {
        match n.as_str() {
            "$clone" | "body_keep" => {}
            // maps the builder of a body that is not already in error
            "body_map" => {
                if st["body"] != S::Bad {
                    st.insert("body".into(), S::Set(v.clone()));
                }
            }
            n => {
                st.insert(n.into(), if v.get("$bad").is_some() { S::Bad } else { S::Set(v.clone()) });
            }
        }
    }
    let optional: Vec<String> = e.iter().filter(|p| p.optional()).map(|p| p.name.snake()).collect();
    let failing: Vec<&String> =
        st.iter().filter(|(n, s)| matches!(s, S::Bad) || matches!(s, S::Missing) && !optional.contains(n)).map(|x| x.0).collect();
    let fail = |m: String| Err(Fail::new(format!("{} {}: {m}; outcome {}", call.style, call.op, d.out)));
    c.nontrivial_if(call.args.len() > 1);
    if !failing.is_empty() {
        c.label("refused");
        if !d.seen.is_empty() {
            return fail(format!("a request was sent although {failing:?} cannot be"));
        }
        if d.out.get("err") != Some(&json!("InvalidRequest")) {
            return fail(format!("expected InvalidRequest for {failing:?}"));
        }
        let m = d.out["msg"].as_str().unwrap_or("");
        let named = |f: &&&String| {
            let n = f.as_str();
            // a body built piece by piece names the piece
            m.contains(n) || n == "body" && st["body"] == S::Missing && e2e::body_builder(o) && !m.is_empty()
        };
        if !failing.iter().any(|f| named(&f)) {
            return fail(format!("the message names none of {failing:?}"));
        }
        return Ok(());
    }
    c.label("sent");
    if d.seen.len() != 1 {
        return fail(format!("{} requests sent", d.seen.len()));
    }
    let mut one = call.clone();
    one.args = st.into_iter().filter_map(|(n, s)| if let S::Set(v) = s { Some((n, v)) } else { None }).collect();
    e2e::check_request(&u.spec, &one, &d.seen[0]).or_else(fail)
}

pub fn p15(cx: &mut Ctx) {
    cx.rule("Histories of setter calls on generated builders (any order, repeated, unconvertible values, omissions, clones, body_map) are run to send(); a model keeps the last thing said of each parameter and predicts either the exact request or a refusal with nothing sent. Non-trivial: at least two setter calls.");
    let (n, per) = if cx.thorough() { (480, 30) } else { (40, 12) };
    let units = calls::units(cx, "histories", n, unit);
    calls::run(
        cx,
        Section {
            name: "histories",
            units,
            calls: &|r, u| {
                let mut out = vec![];
                for style in &u.styles {
                    for (i, o) in u.spec.all_ops() {
                        for _ in 0..per {
                            let a = history(r, i, o);
                            // the final path must not be a dot segment, see P01
                            let c = calls::call(r, style, o, a, vec![Reply::new(500, b"")]);
                            if !calls::dotted_call(i, &c) {
                                out.push(vec![c]);
                            }
                        }
                    }
                }
                out
            },
            judge: &judge,
        },
    );
}
