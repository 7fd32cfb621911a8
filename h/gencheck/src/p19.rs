//! P19: what path templates mean, and which are refused.
use crate::calls::{self, Section};
use crate::doc::{self, Item, Knobs, Loc, Name, Op, Param, Piece, Spec};
use crate::e2e::{self, Call, Done, Reply, Unit};
use crate::pure::{self, STYLES};
use serde_json::json;
use serde_json::Value;
use std::collections::BTreeSet;
use vk::gen::{gen, Rng};
use vk::{Case, Ctx, Fail, R};

/// Literal text between parameters.
fn literal(r: &mut Rng, first: bool) -> String {
    const CH: &[char] = &[
        'a', 'b', 'Z', '0', '9', '-', '_', '.', '~', ' ', '&', '=', '+', ';', ':', '@', '!', '$', '\'', '(', ')', '*', ',', '[', ']', '"',
        '<', '>', '^', '`', '|', 'é', '漢', '🦀', '/', '/', '/',
    ];
    let mut s: String = if first { "/".into() } else { String::new() };
    for _ in 0..r.below(7) + !first as usize {
        match r.below(14) {
            0 => s += r.pick(&["%20", "%2F", "%7B", "%7d", "%25", "%2520"]),
            1 => s += r.pick(&["//", "///", "/./x", "/../y", "/.", "/.."]),
            2 => s += r.pick(&["client", "{}", "0", "\u{5c}n"]).replace(['{', '}', '\\'], "").as_str(),
            _ => s.push(*r.pick(CH)),
        }
    }
    s
}
fn dots(s: &str) -> bool {
    s.replace("%2e", ".").replace("%2E", ".").split('/').any(|x| x == "." || x == "..")
}

fn unit(r: &mut Rng) -> Unit {
    loop {
        let mut templates = BTreeSet::new();
        let mut items = vec![];
        for n in 0..40 {
            let mut used = BTreeSet::from(["body".to_string()]);
            let mut pieces = vec![Piece::Lit(literal(r, true))];
            let mut pars = vec![];
            for _ in 0..r.weighted(&[1, 4, 4, 3, 2, 1]) {
                pieces.push(Piece::Par(pars.len()));
                pars.push(doc::name(r, true, &[0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12], &mut used));
                if r.chance(70) {
                    pieces.push(Piece::Lit(literal(r, false)));
                }
            }
            // declared in another order than used
            let mut params: Vec<Param> = pars
                .iter()
                .map(|n: &Name| Param { name: n.clone(), loc: Loc::Path, required: true, ty: *r.pick(&[doc::Ty::Str, doc::Ty::Str, doc::Ty::I64, doc::Ty::Label]), nullable: false, by_ref: false })
                .collect();
            r.shuffle(&mut params);
            let k = Knobs { items: 1, params: 0, bodies: 0, responses: false, paginated: 0, websocket: 0, ..Knobs::default() };
            let mut op: Op = doc::spec(r, k).items.remove(0).ops.remove(0);
            op.id = Name { words: vec!["op".into(), number(n)], style: 0 };
            op.params = params;
            op.method = "get".into();
            let i = Item { pieces, pars, params: vec![], ops: vec![op] };
            // the URL parser drops white space at the end
            if i.pieces.iter().any(|p| matches!(p, Piece::Lit(s) if s.ends_with(' '))) {
                continue;
            }
            // as one literal, so that dots are seen where they end up
            if dots(&i.template().replace(['{', '}'], "")) || !templates.insert(i.template()) {
                continue;
            }
            items.push(i);
        }
        let spec = Spec { title: "t".into(), version: "1".into(), tags: vec![], items };
        if spec.valid() {
            return Unit { spec, styles: vec![r.pick(STYLES).to_string()], hooks: vec![] };
        }
    }
}
fn number(n: usize) -> String {
    format!("{}{}", (b'a' + (n / 26) as u8) as char, (b'a' + (n % 26) as u8) as char)
}

fn judge(u: &Unit, calls: &[Call], done: &[Done], c: &mut Case) -> R {
    let (call, d) = (&calls[0], &done[0]);
    let (i, _) = e2e::find(&u.spec, &call.op);
    let t = i.template();
    if d.seen.len() != 1 {
        return Err(Fail::new(format!("{t}: {} requests sent, outcome {}", d.seen.len(), d.out)));
    }
    c.nontrivial_if(!i.pars.is_empty());
    c.label(format!("{} parameters", i.pars.len()));
    if t.contains("//") {
        c.label("repeated slashes");
    }
    if t.contains("}{") {
        c.label("adjacent parameters");
    }
    e2e::check_request(&u.spec, call, &d.seen[0]).map_err(|m| Fail::new(format!("{} {t}: {m}", call.style)))
}

// ---------------------------------------------------------------- refusal

/// The grammar: a slash, then text without braces and braced names without
/// braces or slashes.
fn well_formed(t: &str) -> bool {
    if !t.starts_with('/') {
        return false;
    }
    let mut rest = t;
    while let Some(k) = rest.find(['{', '}']) {
        if rest[k..].starts_with('}') {
            return false;
        }
        let after = &rest[k + 1..];
        match after.find(['{', '}', '/']) {
            Some(e) if after[e..].starts_with('}') => rest = &after[e + 1..],
            _ => return false,
        }
    }
    true
}
/// Names that readers of different leniency would find.
fn names(t: &str) -> Vec<BTreeSet<String>> {
    let mut all = vec![BTreeSet::new()];
    let first: BTreeSet<String> =
        t.split('{').skip(1).map(|x| x.split('}').next().unwrap().to_string()).filter(|s| !s.is_empty()).collect();
    let inner: BTreeSet<String> =
        t.split('}').filter_map(|x| x.rsplit_once('{').map(|y| y.1.to_string())).filter(|s| !s.is_empty()).collect();
    let mut outer = BTreeSet::new();
    let mut rest = t;
    while let Some((_, a)) = rest.split_once('{') {
        let (n, b) = a.split_once('}').unwrap_or((a, ""));
        outer.insert(n.to_string());
        rest = b;
    }
    let upto = |s: &BTreeSet<String>| s.iter().map(|n| n.split('/').next().unwrap().to_string()).filter(|s| !s.is_empty()).collect();
    let (f2, i2) = (upto(&first), upto(&inner));
    all.extend([first, inner, outer, f2, i2]);
    all.sort();
    all.dedup();
    all
}
fn document(t: &str, names: &BTreeSet<String>) -> openapiv3::OpenAPI {
    let ps: Vec<Value> = names.iter().map(|n| json!({"name": n, "in": "path", "required": true, "schema": {"type": "string"}})).collect();
    let d = json!({
        "openapi": "3.0.0", "info": {"title": "t", "version": "1"},
        "paths": {"/": {"get": {"operationId": "op", "parameters": ps, "responses": {"204": {"description": ""}}}}},
    });
    let mut api: openapiv3::OpenAPI = serde_json::from_value(d).expect("check: document");
    let item = api.paths.paths.shift_remove("/").expect("check: path");
    api.paths.paths.insert(t.into(), item);
    api
}
fn template(r: &mut Rng) -> String {
    let mut s = String::new();
    for k in 0..1 + r.below(4) {
        s += &literal(r, k == 0);
        if r.chance(80) {
            s += &format!("{{{}}}", r.pick(&["a", "b_c", "d-e", "fG", "h i", "é", "1", "type", "x.y"]));
        }
    }
    for _ in 0..r.weighted(&[2, 5, 3, 1]) {
        let mut c: Vec<char> = s.chars().collect();
        let at = r.below(c.len() + 1);
        match r.below(6) {
            0 | 1 => c.insert(at, *r.pick(&['{', '}', '{', '}', '/'])),
            2 => {
                let b: Vec<usize> = (0..c.len()).filter(|k| "{}/".contains(c[*k])).collect();
                if !b.is_empty() {
                    c.remove(*r.pick(&b));
                }
            }
            3 if !c.is_empty() => {
                c.remove(at.min(c.len() - 1));
            }
            4 => c.truncate(at),
            _ if c.len() > 1 => {
                let k = at.min(c.len() - 2);
                c.swap(k, k + 1);
            }
            _ => {}
        }
        s = c.into_iter().collect();
    }
    s
}

fn decide(t: &String, c: &mut Case) -> R {
    let try_one = |n: &BTreeSet<String>, style: &str| {
        pure::generate(&document(t, n), style)
    };
    c.nontrivial_if(t.contains(['{', '}']));
    if well_formed(t) {
        c.label("well-formed");
        let n: BTreeSet<String> = t.split('{').skip(1).map(|x| x.split('}').next().unwrap().to_string()).collect();
        if n.contains("") {
            c.label("empty name");
            return Ok(());
        }
        for s in STYLES {
            try_one(&n, s).map_err(|f| Fail::new(format!("{t:?} is well-formed; {}", f.msg)))?;
        }
        return Ok(());
    }
    c.label("malformed");
    for n in names(t) {
        for s in STYLES {
            if try_one(&n, s).is_ok() {
                return Err(Fail::new(format!("the malformed template {t:?} is accepted ({s})")));
            }
        }
    }
    Ok(())
}

pub fn p19(cx: &mut Ctx) {
    cx.rule("Generated path templates (any literal text, oddly named and adjacent parameters, repeated slashes) are compiled into clients and requested; mutated templates are classified by an independent grammar and must be refused by the generator exactly when malformed. Non-trivial: a template with a brace.");
    let shrink = |t: &String| !t.contains('\0');
    cx.run("templates", 4_000, 60_000, gen(template, shrink), decide);
    let (n, per) = if cx.thorough() { (96, 10) } else { (16, 4) };
    let units = calls::units(cx, "paths", n, unit);
    calls::run(
        cx,
        Section {
            name: "paths",
            units,
            calls: &|r, u| {
                let mut out = vec![];
                for style in &u.styles {
                    for (i, o) in u.spec.all_ops() {
                        for _ in 0..per {
                            let a = calls::args(r, i, o, 60);
                            let c = calls::call(r, style, o, a, vec![Reply::new(204, b"")]);
                            out.push(vec![c]);
                        }
                    }
                }
                out
            },
            judge: &judge,
        },
    );
}
