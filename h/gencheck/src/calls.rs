//! Sections that compile generated clients and call them.
use crate::doc::{self, Body, Item, Loc, Op, Param, Spec, Ty};
use crate::e2e::{self, Broken, Call, Done, Unit};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use vk::gen::Rng;
use vk::{Case, Ctx, Fail, R};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct CallCase {
    pub unit: Unit,
    pub calls: Vec<Call>,
}

/// Calls are judged in groups: the members are related by the property.
pub struct Section<'a> {
    pub name: &'a str,
    pub units: Vec<Unit>,
    /// groups of calls for a unit
    pub calls: &'a dyn Fn(&mut Rng, &Unit) -> Vec<Vec<Call>>,
    pub judge: &'a dyn Fn(&Unit, &[Call], &[Done], &mut Case) -> R,
}

pub fn check_error(m: impl std::fmt::Display) -> ! {
    eprintln!("check error: {m}");
    std::process::exit(3)
}

fn outcomes(b: &e2e::Built, groups: &[(usize, Vec<Call>)]) -> Vec<Vec<Done>> {
    let flat: Vec<Call> = groups
        .iter()
        .flat_map(|(u, g)| {
            g.iter().map(|c| {
                let mut c = c.clone();
                c.unit = *u;
                c
            })
        })
        .collect();
    let mut done = b.run(&flat).unwrap_or_else(|e| check_error(e)).into_iter();
    groups.iter().map(|(_, g)| g.iter().map(|_| done.next().unwrap()).collect()).collect()
}

fn judged(s: &Section, u: &Unit, calls: &[Call], done: &[Done], c: &mut Case) -> R {
    for d in done {
        if let Some(m) = d.out.get("driver") {
            check_error(format!("driver: {m}"));
        }
        if let Some(m) = d.out.get("panic").and_then(Value::as_str) {
            if m.starts_with("driver:") {
                check_error(m);
            }
        }
    }
    (s.judge)(u, calls, done, c)
}

/// The unit with only the operations called, in the styles used.
fn project(u: &Unit, calls: &[Call]) -> Unit {
    let mut p = u.clone();
    if let Some(c) = calls.first().filter(|c| c.style != "mock") {
        p.spec = e2e::only(&p.spec, &c.op);
        p.styles.retain(|s| calls.iter().any(|c| &c.style == s));
    }
    p
}

pub fn run(cx: &mut Ctx, s: Section) {
    if !cx.section_enabled(s.name) {
        return;
    }
    if cx.replay.is_some() {
        let Some(CallCase { unit, calls }) = cx.replay_case::<CallCase>(s.name) else { return };
        let r = match e2e::build(std::slice::from_ref(&unit)) {
            Err(Broken::Check(m)) => check_error(m),
            Err(Broken::Unit(_, f)) => Err(f),
            Ok(b) => {
                let d = outcomes(&b, &[(0, calls.clone())]).remove(0);
                judged(&s, &unit, &calls, &d, &mut Case::default())
            }
        };
        match r {
            Ok(()) => println!("replay: case passes"),
            Err(f) => {
                cx.report(s.name, &f, serde_json::to_value(CallCase { unit, calls }).unwrap());
            }
        }
        return;
    }
    let mut r = cx.source(&format!("{}-calls", s.name));
    for units in s.units.chunks(96) {
        if !round(cx, &s, &mut r, units) {
            return;
        }
    }
}

fn round(cx: &mut Ctx, s: &Section, r: &mut Rng, units: &[Unit]) -> bool {
    let built = match e2e::build(units) {
        Ok(b) => b,
        Err(Broken::Check(m)) => check_error(m),
        Err(Broken::Unit(k, f)) => {
            let (u, f) = smaller_unit(&units[k], f);
            return cx.report(s.name, &f, serde_json::to_value(CallCase { unit: u, calls: vec![] }).unwrap());
        }
    };
    println!("{}: {} units built at {:.1}s", s.name, units.len(), cx.elapsed());
    let mut groups = vec![];
    for (k, u) in units.iter().enumerate() {
        for g in (s.calls)(r, u) {
            groups.push((k, g));
        }
    }
    let done = outcomes(&built, &groups);
    for ((k, g), d) in groups.iter().zip(&done) {
        let u = &units[*k];
        let mut c = Case::default();
        match judged(s, u, g, d, &mut c) {
            Ok(()) => {
                let key = serde_json::to_string(&g).unwrap();
                cx.note_case(s.name, (k, key), || json!({"operation": operation_json(&u.spec, &g[0].op), "calls": g}), c);
            }
            Err(f) => {
                if std::env::var("VERIF_ALL").is_ok() {
                    eprintln!("-- {}/{}: {}", g[0].style, g[0].op, f.msg);
                    continue;
                }
                let (g, f) = smaller(s, &built, *k, u, g.clone(), f);
                let case = CallCase { unit: project(u, &g), calls: g.iter().cloned().map(|mut c| { c.unit = 0; c }).collect() };
                if !cx.report(s.name, &f, serde_json::to_value(case).unwrap()) {
                    return false;
                }
            }
        }
    }
    true
}

fn operation_json(s: &Spec, op: &str) -> Value {
    let s = e2e::only(s, op).json();
    s["paths"].clone()
}

/// Fewer and simpler arguments and answers that still fail.
fn smaller(s: &Section, b: &e2e::Built, k: usize, u: &Unit, mut g: Vec<Call>, mut f: Fail) -> (Vec<Call>, Fail) {
    for _ in 0..60 {
        let cands: Vec<(usize, Vec<Call>)> = reductions(u, &g).into_iter().take(120).map(|c| (k, c)).collect();
        if cands.is_empty() {
            break;
        }
        let done = outcomes(b, &cands);
        let next = cands.into_iter().zip(done).find_map(|((_, g), d)| match (s.judge)(u, &g, &d, &mut Case::default()) {
            Err(e) if e.sig == f.sig && !e.msg.contains("check:") => Some((g, e)),
            _ => None,
        });
        match next {
            Some((a, e)) => (g, f) = (a, e),
            None => break,
        }
    }
    (g, f)
}

fn reductions(u: &Unit, g: &[Call]) -> Vec<Vec<Call>> {
    let mut out = vec![];
    if g[0].style == "mock" {
        // requirements and requests depend on each other
        for k in 0..g[0].args.len() {
            let mut v = g.to_vec();
            v[0].args.remove(k);
            out.push(v);
        }
        for k in 1..g[0].opts["calls"].as_array().map_or(0, Vec::len) {
            let mut v = g.to_vec();
            v[0].opts["calls"].as_array_mut().unwrap().remove(k);
            out.push(v);
        }
        if g[0].opts.get("then").is_some() {
            let mut v = g.to_vec();
            v[0].opts = json!({"calls": v[0].opts["calls"]});
            out.push(v);
        }
        return out;
    }
    let (item, op) = e2e::find(&u.spec, &g[0].op);
    let names: std::collections::BTreeSet<String> = g.iter().flat_map(|c| c.args.iter().map(|a| a.0.clone())).collect();
    let all = |f: &dyn Fn(&mut Call)| {
        let mut v = g.to_vec();
        v.iter_mut().for_each(|c| f(c));
        v
    };
    for n in &names {
        let p = item.effective(op).into_iter().find(|p| &p.name.snake() == n);
        if p.is_some_and(|p| p.optional()) {
            out.push(all(&|c| c.args.retain(|a| &a.0 != n)));
        }
        let Some(v) = g.iter().find_map(|c| c.arg(n)) else { continue };
        for s in simpler(p.map(|p| p.ty), v) {
            out.push(all(&|c| {
                for a in &mut c.args {
                    if &a.0 == n && !a.1.is_object() {
                        a.1 = s.clone();
                    }
                }
            }));
        }
    }
    if g.iter().any(|c| c.script.iter().any(|r| !r.headers.is_empty())) {
        out.push(all(&|c| c.script.iter_mut().for_each(|r| r.headers.retain(|h| h.0 == "content-type"))));
    }
    if g.iter().any(|c| c.opts.get("stem").is_some()) {
        out.push(all(&|c| {
            c.opts.as_object_mut().map(|o| o.remove("stem"));
        }));
    }
    out
}
fn simpler(t: Option<Ty>, v: &Value) -> Vec<Value> {
    match (t, v) {
        (Some(Ty::Str | Ty::Label) | None, Value::String(s)) => {
            let mut o = vec![];
            if s.chars().count() > 1 {
                o.push(json!("x"));
                for c in s.chars() {
                    o.push(json!(c.to_string()));
                }
                o.push(json!(s.chars().skip(1).collect::<String>()));
            } else if s.is_empty() {
                o.push(json!("x"));
            }
            o
        }
        (Some(Ty::I64 | Ty::I32 | Ty::U32 | Ty::Count), v) if v != &json!(1) => vec![json!(1)],
        (Some(_), Value::Array(a)) if !a.is_empty() => {
            vec![json!([]), json!(a[1..].to_vec()), json!([a[0]])]
        }
        _ => vec![],
    }
}

/// A smaller document whose client still does not compile.
pub fn smaller_unit(u: &Unit, f: Fail) -> (Unit, Fail) {
    let (mut u, mut f) = (u.clone(), f);
    let mut budget = 40;
    let mut attempt = |v: &Unit, f: &mut Fail| -> bool {
        if budget == 0 || !v.spec.valid() {
            return false;
        }
        budget -= 1;
        match e2e::compile_failure(v) {
            Some(e) => {
                *f = e;
                true
            }
            None => false,
        }
    };
    let parts = if u.styles.iter().any(|s| s == "mock") { vec![] } else { u.styles.clone() };
    for s in parts {
        let mut v = u.clone();
        v.styles = vec![s];
        if u.styles.len() > 1 && attempt(&v, &mut f) {
            u = v;
            break;
        }
    }
    let ops: Vec<String> = u.spec.all_ops().map(|(_, o)| o.id.snake()).collect();
    for o in ops {
        let mut v = u.clone();
        v.spec = e2e::only(&v.spec, &o);
        if attempt(&v, &mut f) {
            u = v;
            break;
        }
    }
    // within the operation
    loop {
        let mut next = None;
        'out: for (x, i) in u.spec.items.iter().enumerate() {
            let mut cands = vec![];
            for k in 0..i.params.len() {
                let mut v = u.clone();
                v.spec.items[x].params.remove(k);
                cands.push(v);
            }
            for (y, o) in i.ops.iter().enumerate() {
                for k in 0..o.params.len() {
                    let mut v = u.clone();
                    v.spec.items[x].ops[y].params.remove(k);
                    cands.push(v);
                }
                if o.body.is_some() {
                    let mut v = u.clone();
                    v.spec.items[x].ops[y].body = None;
                    cands.push(v);
                }
                for k in 0..o.responses.len() {
                    let mut v = u.clone();
                    v.spec.items[x].ops[y].responses.remove(k);
                    cands.push(v);
                }
            }
            for v in cands {
                if attempt(&v, &mut f) {
                    next = Some(v);
                    break 'out;
                }
            }
        }
        match next {
            Some(v) => u = v,
            None => return (u, f),
        }
    }
}

// ------------------------------------------------------------- arguments

pub fn param_value(r: &mut Rng, p: &Param) -> Value {
    match (p.loc, p.ty) {
        (Loc::Header, Ty::Str) => json!(doc::header_text(r)),
        (Loc::Header, Ty::Label) => json!(doc::header_text(r).chars().take(12).collect::<String>().trim()),
        _ => p.ty.value(r),
    }
}
pub fn body_value(r: &mut Rng, b: &Body) -> Value {
    match b {
        Body::Json { ty, .. } | Body::Form { ty } => ty.value(r),
        Body::Inline { .. } => doc::inline_value(r),
        Body::Octet => {
            let n = *r.pick(&[0, 1, 5, 40, 300]);
            json!((0..n).map(|_| format!("{:02x}", r.below(256))).collect::<String>())
        }
        Body::Text { .. } => json!(doc::text(r)),
    }
}
/// Arguments for every parameter, optional ones given now and then.
pub fn args(r: &mut Rng, i: &Item, o: &Op, optional: u32) -> Vec<(String, Value)> {
    loop {
        let mut a = vec![];
        for p in i.effective(o) {
            if !p.optional() || r.chance(optional) {
                a.push((p.name.snake(), param_value(r, p)));
            }
        }
        if let Some(b) = &o.body {
            a.push(("body".into(), body_value(r, b)));
        }
        if !dotted(i, &a) {
            return a;
        }
    }
}
pub fn dotted_call(i: &Item, c: &Call) -> bool {
    let a: Vec<(String, Value)> = c.args.iter().rev().cloned().collect();
    dotted(i, &a)
}
/// A whole path segment reads "." or "..": a recorded finding of P01.
fn dotted(i: &Item, a: &[(String, Value)]) -> bool {
    let mut p = String::new();
    for x in &i.pieces {
        match x {
            doc::Piece::Lit(s) => p += s,
            doc::Piece::Par(k) => {
                let n = i.pars[*k].snake();
                let v = a.iter().find(|(m, _)| *m == n).map(|(_, v)| Ty::wire(v)).unwrap_or_default();
                p += &v.replace('/', "%2F");
            }
        }
    }
    p.split('/').any(|s| s == "." || s == "..")
}

const STEMS: &[&str] = &["", "", "", "/base", "/api/v1", "/a%20b", "/x.y/~z"];

pub fn call(r: &mut Rng, style: &str, o: &Op, args: Vec<(String, Value)>, script: Vec<e2e::Reply>) -> Call {
    let mut opts = json!({});
    let stem = *r.pick(STEMS);
    if !stem.is_empty() {
        opts["stem"] = json!(stem);
    }
    if o.tags.len() > 1 && r.chance(50) {
        opts["tag0"] = json!(true);
    }
    Call { unit: 0, style: style.into(), op: o.id.snake(), stream: false, args, script, take: None, opts }
}

pub fn units(cx: &Ctx, name: &str, n: usize, f: impl Fn(&mut Rng) -> Unit) -> Vec<Unit> {
    let mut r = cx.source(&format!("{name}-units"));
    (0..n).map(|_| f(&mut r)).collect()
}
