//! P11: the request on the wire is the one the document describes.
use crate::calls::{self, Section};
use crate::doc::{self, Knobs, Loc};
use crate::e2e::{self, Call, Done, Reply, Unit};
use crate::pure::STYLES;
use vk::gen::Rng;
use vk::{Case, Ctx, Fail, R};

pub fn unit(r: &mut Rng) -> Unit {
    let k = Knobs { items: 6, ..Knobs::default() };
    Unit { spec: doc::spec(r, k), styles: STYLES.iter().map(|s| s.to_string()).collect(), hooks: vec![] }
}

fn judge(u: &Unit, calls: &[Call], done: &[Done], c: &mut Case) -> R {
    let (call, d) = (&calls[0], &done[0]);
    if d.seen.len() != 1 {
        return Err(Fail::new(format!("{} requests sent, outcome {}", d.seen.len(), d.out)));
    }
    e2e::check_request(&u.spec, call, &d.seen[0]).map_err(|m| Fail::new(format!("{} {}: {m}", call.style, call.op)))?;
    let (i, o) = e2e::find(&u.spec, &call.op);
    let e = i.effective(o);
    c.nontrivial_if(!call.args.is_empty());
    c.label(&call.style);
    for l in [Loc::Path, Loc::Query, Loc::Header] {
        if e.iter().any(|p| p.loc == l && call.arg(&p.name.snake()).is_some()) {
            c.label(format!("{l:?}"));
        }
    }
    if let Some(b) = &o.body {
        c.label(format!("body {}", format!("{b:?}").split([' ', '{']).next().unwrap()));
    }
    c.label(&o.method);
    Ok(())
}

pub fn p11(cx: &mut Ctx) {
    cx.rule("Generated API descriptions are turned into clients in all three styles, compiled, and called with generated arguments against a recording server; the one request received is compared with what the description says. Non-trivial: at least one argument.");
    let (n, per) = if cx.thorough() { (480, 8) } else { (40, 4) };
    let units = calls::units(cx, "requests", n, unit);
    calls::run(
        cx,
        Section {
            name: "requests",
            units,
            calls: &|r, u| {
                let mut out = vec![];
                for style in &u.styles {
                    for (i, o) in u.spec.all_ops() {
                        for _ in 0..per {
                            let a = calls::args(r, i, o, 60);
                            out.push(vec![calls::call(r, style, o, a, vec![Reply::new(500, b"")])]);
                        }
                    }
                }
                out
            },
            judge: &judge,
        },
    );
}
