//! P17: the schemas progenitor hands to the type generator mean what the
//! document's schemas mean.
//!
//! Two validators, written apart from each other and from the code under test:
//! one for OpenAPI 3.0 schema objects (over the document as given), one for
//! draft-7 JSON Schema (over the converted schema). They must agree on every
//! instance tried.
use progenitor_impl::Generator;
use proptest::prelude::*;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use vk::{ensure, Case, Ctx, Fail, R};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum T {
    Yes,
    No,
    /// The two dialects leave it open (see DESIGN.md, narrowings).
    Open,
}
use T::*;
impl From<bool> for T {
    fn from(b: bool) -> T {
        if b {
            Yes
        } else {
            No
        }
    }
}
fn and(a: T, b: T) -> T {
    match (a, b) {
        (No, _) | (_, No) => No,
        (Open, _) | (_, Open) => Open,
        _ => Yes,
    }
}
fn all(i: impl Iterator<Item = T>) -> T {
    i.fold(Yes, and)
}
fn some_of(i: impl Iterator<Item = T>) -> T {
    not(all(i.map(not)))
}
fn not(a: T) -> T {
    match a {
        Yes => No,
        No => Yes,
        Open => Open,
    }
}
fn exactly_one(i: impl Iterator<Item = T>) -> T {
    let (mut y, mut o) = (0, 0);
    for t in i {
        match t {
            Yes => y += 1,
            Open => o += 1,
            No => {}
        }
    }
    match (y, o) {
        (1, 0) => Yes,
        (0, 0) => No,
        (y, _) if y > 1 => No,
        _ => Open,
    }
}

pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => x == y || x.as_f64() == y.as_f64(),
        (Value::Array(x), Value::Array(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b))
        }
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| same(v, w)))
        }
        _ => a == b,
    }
}

/// Formats and patterns are opaque: some fixed predicate per text.
fn opaque(tag: &str, f: &str, i: &Value) -> bool {
    let mut h: u32 = 2166136261;
    for b in tag.bytes().chain(f.bytes()).chain(i.to_string().bytes()) {
        h = (h ^ b as u32).wrapping_mul(16777619);
    }
    (h >> 7) & 3 != 0
}

fn num(v: &Value) -> Option<f64> {
    v.as_f64()
}

fn type_is(t: &str, i: &Value) -> bool {
    match t {
        "null" => i.is_null(),
        "boolean" => i.is_boolean(),
        "object" => i.is_object(),
        "array" => i.is_array(),
        "string" => i.is_string(),
        "number" => i.is_number(),
        "integer" => i.as_f64().is_some_and(|f| f.fract() == 0.0),
        _ => panic!("type {t}"),
    }
}

fn multiple(i: f64, m: f64) -> bool {
    let q = i / m;
    (q - q.round()).abs() < 1e-9
}

fn uniq(a: &[Value]) -> bool {
    (0..a.len()).all(|i| (0..i).all(|j| !same(&a[i], &a[j])))
}

type Defs = BTreeMap<String, Value>;

const OBJ: &[&str] = &["properties", "required", "additionalProperties", "minProperties", "maxProperties"];
const ARR: &[&str] = &["items", "minItems", "maxItems", "uniqueItems"];
const NUM: &[&str] = &["multipleOf", "minimum", "maximum"];
const STR: &[&str] = &["pattern", "minLength", "maxLength"];
const SUB: &[&str] = &["oneOf", "allOf", "anyOf", "not"];

fn has(m: &Map<String, Value>, ks: &[&str]) -> bool {
    ks.iter().any(|k| match m.get(*k) {
        None => false,
        // empty collections say nothing
        Some(Value::Array(a)) => !a.is_empty(),
        Some(Value::Object(o)) if *k == "properties" => !o.is_empty(),
        Some(_) => true,
    })
}

/// OpenAPI 3.0.
pub fn oas(s: &Value, i: &Value, d: &Defs, depth: u32) -> T {
    if depth > 40 {
        return Open;
    }
    let m = s.as_object().expect("schema object");
    if let Some(r) = m.get("$ref") {
        let n = r.as_str().unwrap().rsplit('/').next().unwrap();
        return oas(&d[n], i, d, depth + 1);
    }
    let nullable = m.get("nullable") == Some(&json!(true));
    let typ = m.get("type").and_then(Value::as_str);
    let bare = |with_type: bool| -> T {
        let mut r = Yes;
        if let (Some(t), true) = (typ, with_type) {
            r = and(r, type_is(t, i).into());
        }
        if let Some(Value::Array(e)) = m.get("enum") {
            if !e.is_empty() {
                r = and(r, e.iter().any(|x| same(x, i)).into());
            }
        }
        if let Some(f) = m.get("format").and_then(Value::as_str) {
            if i.is_string() || i.is_number() {
                r = and(r, opaque("f", f, i).into());
            }
        }
        if let Value::String(st) = i {
            let n = st.chars().count() as f64;
            if let Some(p) = m.get("pattern").and_then(Value::as_str) {
                r = and(r, opaque("p", p, i).into());
            }
            r = and(r, m.get("minLength").and_then(num).is_none_or(|x| n >= x).into());
            r = and(r, m.get("maxLength").and_then(num).is_none_or(|x| n <= x).into());
        }
        if let Some(n) = num(i) {
            r = and(r, m.get("multipleOf").and_then(num).is_none_or(|x| multiple(n, x)).into());
            let flag = |k: &str| m.get(k) == Some(&json!(true));
            if let Some(lo) = m.get("minimum").and_then(num) {
                r = and(r, (if flag("exclusiveMinimum") { n > lo } else { n >= lo }).into());
            }
            if let Some(hi) = m.get("maximum").and_then(num) {
                r = and(r, (if flag("exclusiveMaximum") { n < hi } else { n <= hi }).into());
            }
        }
        if let Value::Array(a) = i {
            let n = a.len() as f64;
            r = and(r, m.get("minItems").and_then(num).is_none_or(|x| n >= x).into());
            r = and(r, m.get("maxItems").and_then(num).is_none_or(|x| n <= x).into());
            if m.get("uniqueItems") == Some(&json!(true)) {
                r = and(r, uniq(a).into());
            }
            if let Some(it) = m.get("items") {
                r = and(r, all(a.iter().map(|x| oas(it, x, d, depth + 1))));
            }
        }
        if let Value::Object(o) = i {
            let n = o.len() as f64;
            r = and(r, m.get("minProperties").and_then(num).is_none_or(|x| n >= x).into());
            r = and(r, m.get("maxProperties").and_then(num).is_none_or(|x| n <= x).into());
            if let Some(Value::Array(req)) = m.get("required") {
                r = and(r, req.iter().all(|k| o.contains_key(k.as_str().unwrap())).into());
            }
            let none = Map::new();
            let props = m.get("properties").and_then(Value::as_object).unwrap_or(&none);
            for (k, v) in o {
                r = and(
                    r,
                    match (props.get(k), m.get("additionalProperties")) {
                        (Some(p), _) => oas(p, v, d, depth + 1),
                        (None, None) => Yes,
                        (None, Some(Value::Bool(b))) => (*b).into(),
                        (None, Some(s)) => oas(s, v, d, depth + 1),
                    },
                );
            }
        }
        let list = |k: &str| m.get(k).and_then(Value::as_array).filter(|a| !a.is_empty());
        if let Some(a) = list("allOf") {
            r = and(r, all(a.iter().map(|s| oas(s, i, d, depth + 1))));
        }
        if let Some(a) = list("anyOf") {
            r = and(r, some_of(a.iter().map(|s| oas(s, i, d, depth + 1))));
        }
        if let Some(a) = list("oneOf") {
            r = and(r, exactly_one(a.iter().map(|s| oas(s, i, d, depth + 1))));
        }
        if let Some(s) = m.get("not") {
            r = and(r, not(oas(s, i, d, depth + 1)));
        }
        r
    };
    if !nullable {
        return bare(true);
    }
    if typ.is_some() {
        // null joins the type; everything else still applies
        return bare(!i.is_null());
    }
    let v = bare(true);
    let families = [has(m, OBJ), has(m, ARR), has(m, NUM), has(m, STR)];
    let specific = families.iter().any(|x| *x);
    let sub = has(m, SUB);
    let enumd = has(m, &["enum"]);
    if i.is_null() {
        if enumd && !specific && !sub {
            return Yes;
        }
        return match (specific, sub, enumd) {
            (false, false, false) => Yes,
            (true, false, false) => Yes,
            // null the contents take already, and null again: open
            (false, true, false) => match v {
                No => Yes,
                _ => Open,
            },
            _ => Open,
        };
    }
    // Untyped constraints say nothing about other types of instance; adding
    // null to them makes one name the types meant.
    if specific {
        let t = [i.is_object(), i.is_array(), i.is_number(), i.is_string()];
        if !families.iter().zip(t).any(|(f, t)| *f && t) {
            return and(v, Open);
        }
    }
    v
}

/// Draft 7.
pub fn d7(s: &Value, i: &Value, d: &Defs, depth: u32) -> T {
    if depth > 60 {
        return Open;
    }
    let m = match s {
        Value::Bool(b) => return (*b).into(),
        Value::Object(m) => m,
        _ => panic!("not a schema: {s}"),
    };
    if let Some(r) = m.get("$ref") {
        let n = r.as_str().unwrap().rsplit('/').next().unwrap();
        return d7(&d[n], i, d, depth + 1);
    }
    let mut r = Yes;
    for (k, v) in m {
        let t = match (k.as_str(), v) {
            ("type", Value::String(t)) => type_is(t, i).into(),
            ("type", Value::Array(ts)) => ts.iter().any(|t| type_is(t.as_str().unwrap(), i)).into(),
            ("enum", Value::Array(e)) => e.iter().any(|x| same(x, i)).into(),
            ("const", c) => same(c, i).into(),
            ("format", Value::String(f)) => (!(i.is_string() || i.is_number()) || opaque("f", f, i)).into(),
            ("pattern", Value::String(p)) => (!i.is_string() || opaque("p", p, i)).into(),
            ("minLength", x) => i.as_str().is_none_or(|s| s.chars().count() as f64 >= num(x).unwrap()).into(),
            ("maxLength", x) => i.as_str().is_none_or(|s| s.chars().count() as f64 <= num(x).unwrap()).into(),
            ("minimum", x) => num(i).is_none_or(|n| n >= num(x).unwrap()).into(),
            ("maximum", x) => num(i).is_none_or(|n| n <= num(x).unwrap()).into(),
            ("exclusiveMinimum", x) => num(i).is_none_or(|n| n > num(x).unwrap()).into(),
            ("exclusiveMaximum", x) => num(i).is_none_or(|n| n < num(x).unwrap()).into(),
            ("multipleOf", x) => num(i).is_none_or(|n| multiple(n, num(x).unwrap())).into(),
            ("minItems", x) => i.as_array().is_none_or(|a| a.len() as f64 >= num(x).unwrap()).into(),
            ("maxItems", x) => i.as_array().is_none_or(|a| a.len() as f64 <= num(x).unwrap()).into(),
            ("uniqueItems", Value::Bool(u)) => (!*u || i.as_array().is_none_or(|a| uniq(a))).into(),
            ("items", Value::Array(_)) => panic!("tuple items"),
            ("items", it) => match i {
                Value::Array(a) => all(a.iter().map(|x| d7(it, x, d, depth + 1))),
                _ => Yes,
            },
            ("minProperties", x) => i.as_object().is_none_or(|o| o.len() as f64 >= num(x).unwrap()).into(),
            ("maxProperties", x) => i.as_object().is_none_or(|o| o.len() as f64 <= num(x).unwrap()).into(),
            ("required", Value::Array(req)) => i
                .as_object()
                .is_none_or(|o| req.iter().all(|k| o.contains_key(k.as_str().unwrap())))
                .into(),
            ("properties", Value::Object(p)) => match i {
                Value::Object(o) => all(o.iter().filter_map(|(k, v)| p.get(k).map(|s| d7(s, v, d, depth + 1)))),
                _ => Yes,
            },
            ("additionalProperties", a) => match i {
                Value::Object(o) => {
                    let p = m.get("properties").and_then(Value::as_object);
                    all(o
                        .iter()
                        .filter(|(k, _)| p.is_none_or(|p| !p.contains_key(*k)))
                        .map(|(_, v)| d7(a, v, d, depth + 1)))
                }
                _ => Yes,
            },
            ("allOf", Value::Array(a)) => all(a.iter().map(|s| d7(s, i, d, depth + 1))),
            ("anyOf", Value::Array(a)) => some_of(a.iter().map(|s| d7(s, i, d, depth + 1))),
            ("oneOf", Value::Array(a)) => exactly_one(a.iter().map(|s| d7(s, i, d, depth + 1))),
            ("not", s) => not(d7(s, i, d, depth + 1)),
            ("title" | "description" | "default" | "deprecated" | "readOnly" | "writeOnly" | "examples", _) => Yes,
            (k, _) if k.starts_with("x-") => Yes,
            (k, v) => panic!("keyword in the converted schema the check does not know: {k}: {v}"),
        };
        r = and(r, t);
    }
    r
}

/// Instances that sit on the edges of what a schema says.
pub fn instances(s: &Value, d: &Defs, depth: u32, out: &mut Vec<Value>) {
    let Some(m) = s.as_object() else { return };
    if depth > 3 {
        return;
    }
    if let Some(r) = m.get("$ref") {
        let n = r.as_str().unwrap().rsplit('/').next().unwrap();
        return instances(&d[n], d, depth + 1, out);
    }
    out.push(Value::Null);
    if let Some(Value::Array(e)) = m.get("enum") {
        for v in e {
            out.push(v.clone());
            if let Some(s) = v.as_str() {
                out.push(json!(format!("{s}x")));
            }
            if let Some(n) = v.as_f64() {
                out.push(json!(n + 1.0));
            }
        }
    }
    for k in ["minimum", "maximum", "multipleOf"] {
        if let Some(n) = m.get(k).and_then(num) {
            for x in [n - 1.0, n - 0.5, n, n + 0.5, n + 1.0, n * 2.0, n * 1.5] {
                out.push(json!(x));
                if x.fract() == 0.0 && x.abs() < 1e15 {
                    out.push(json!(x as i64));
                }
            }
        }
    }
    for k in ["minLength", "maxLength"] {
        if let Some(n) = m.get(k).and_then(Value::as_u64) {
            if n < 40 {
                for l in [n.saturating_sub(1), n, n + 1] {
                    out.push(json!("a".repeat(l as usize)));
                    out.push(json!("é".repeat(l as usize)));
                }
            }
        }
    }
    match m.get("type").and_then(Value::as_str) {
        Some("string") => out.extend([json!(""), json!("a"), json!("zz"), json!("2020-01-01")]),
        Some("integer") | Some("number") => out.extend([json!(0), json!(1), json!(-1), json!(2.5)]),
        Some("boolean") => out.extend([json!(true), json!(false)]),
        Some("array") => out.extend([json!([]), json!([1]), json!([1, 1])]),
        Some("object") => out.extend([json!({}), json!({"a": 1}), json!({"zz": "q"})]),
        _ => {}
    }
    if let Some(it) = m.get("items") {
        let mut sub = vec![];
        instances(it, d, depth + 1, &mut sub);
        sub.truncate(12);
        for v in &sub {
            out.push(json!([v]));
        }
        for w in sub.windows(2) {
            out.push(json!(w));
        }
    }
    if m.contains_key("items") || has(m, &["minItems", "maxItems", "uniqueItems"]) {
        for n in 0..5 {
            out.push(json!((0..n).collect::<Vec<_>>()));
            out.push(json!(vec![7; n]));
        }
    }
    if has(m, OBJ) {
        let mut base = Map::new();
        let mut vars: Vec<(String, Vec<Value>)> = vec![];
        let none = Map::new();
        for (k, p) in m.get("properties").and_then(Value::as_object).unwrap_or(&none) {
            let mut sub = vec![];
            instances(p, d, depth + 1, &mut sub);
            let good = sub.iter().find(|v| oas(p, v, d, 0) == Yes && !v.is_null()).cloned();
            base.insert(k.clone(), good.unwrap_or(json!("a")));
            sub.truncate(10);
            vars.push((k.clone(), sub));
        }
        for r in m.get("required").and_then(Value::as_array).into_iter().flatten() {
            base.entry(r.as_str().unwrap()).or_insert(json!(1));
        }
        out.push(Value::Object(base.clone()));
        for k in base.keys() {
            let mut b = base.clone();
            b.remove(k);
            out.push(Value::Object(b));
        }
        for (k, vs) in vars {
            for v in vs {
                let mut b = base.clone();
                b.insert(k.clone(), v);
                out.push(Value::Object(b));
            }
        }
        let mut extra = vec![json!(1), json!("s"), json!(null)];
        if let Some(a) = m.get("additionalProperties") {
            instances(a, d, depth + 1, &mut extra);
        }
        extra.truncate(12);
        for v in extra {
            let mut b = base.clone();
            b.insert("extra".into(), v);
            out.push(Value::Object(b));
        }
        for n in 0..4 {
            out.push(Value::Object((0..n).map(|i| (format!("p{i}"), json!(i))).collect()));
        }
    }
    for k in SUB {
        match m.get(*k) {
            Some(Value::Array(a)) => {
                let subs: Vec<Vec<Value>> = a
                    .iter()
                    .map(|s| {
                        let mut v = vec![];
                        instances(s, d, depth + 1, &mut v);
                        v.truncate(15);
                        v
                    })
                    .collect();
                // merged objects, for conjunctions
                let mut merged = Map::new();
                for (s, sub) in a.iter().zip(&subs) {
                    if let Some(Value::Object(o)) = sub.iter().find(|v| v.is_object() && oas(s, v, d, 0) == Yes) {
                        merged.extend(o.clone());
                    }
                }
                out.push(Value::Object(merged));
                out.extend(subs.into_iter().flatten());
            }
            Some(s) => instances(s, d, depth + 1, out),
            None => {}
        }
    }
}

fn generic() -> Vec<Value> {
    vec![
        json!(null), json!(true), json!(false), json!(0), json!(1), json!(-3), json!(2.5), json!(1e9), json!(""),
        json!("a"), json!("abc"), json!("ünï"), json!([]), json!([null]), json!(["a", "a"]), json!([1, 2, 3]),
        json!({}), json!({"a": 1}), json!({"a": "x", "b": null}), json!({"b": [1], "c": {}}),
    ]
}

// ------------------------------------------------------------- generation

fn leaf() -> impl Strategy<Value = Value> + Clone {
    prop_oneof![
        Just(json!(null)),
        any::<bool>().prop_map(|b| json!(b)),
        (-5i64..100).prop_map(|n| json!(n)),
        (-8i64..8).prop_map(|n| json!(n as f64 / 2.0)),
        "[a-c]{0,3}".prop_map(|s| json!(s)),
        Just(json!([1])),
        Just(json!({"a": 1})),
    ]
}

type Kv = (String, Value);
fn opt(k: &'static str, p: f64, s: impl Strategy<Value = Value> + 'static) -> BoxedStrategy<Option<Kv>> {
    proptest::option::weighted(p, s.prop_map(move |v| (k.to_string(), v))).boxed()
}
fn fields(v: Vec<BoxedStrategy<Option<Kv>>>) -> BoxedStrategy<Map<String, Value>> {
    v.prop_map(|v| v.into_iter().flatten().collect()).boxed()
}

fn meta() -> BoxedStrategy<Map<String, Value>> {
    fields(vec![
        opt("nullable", 0.3, prop_oneof![9 => Just(json!(true)), 1 => Just(json!(false))]),
        opt("title", 0.1, "[A-Z][a-z]{2,6}".prop_map(|s| json!(format!("Title{s}")))),
        opt("description", 0.15, "[a-z ]{1,20}".prop_map(|s| json!(s))),
        opt("default", 0.12, leaf()),
        opt("example", 0.1, leaf()),
        opt("deprecated", 0.06, Just(json!(true))),
        opt("readOnly", 0.06, Just(json!(true))),
        opt("writeOnly", 0.06, Just(json!(true))),
        opt("x-thing", 0.1, leaf()),
        opt("discriminator", 0.02, Just(json!({"propertyName": "k"}))),
    ])
}
fn small() -> BoxedStrategy<Value> {
    prop_oneof![8 => (0u64..5).prop_map(|n| json!(n)), 1 => Just(json!(4294967295u64)), 1 => Just(json!(4294967296u64)), 1 => Just(json!(8589934592u64 + 3))].boxed()
}
fn bound(int: bool) -> BoxedStrategy<Value> {
    if int {
        prop_oneof![(-6i64..12).prop_map(|n| json!(n)), Just(json!(1i64 << 40)), (-3i64..4).prop_map(|n| json!(n as f64)), Just(json!(-2147483648i64)), Just(json!(9007199254740991i64))].boxed()
    } else {
        prop_oneof![(-6i64..12).prop_map(|n| json!(n)), (-12i64..24).prop_map(|n| json!(n as f64 / 4.0))].boxed()
    }
}
fn num_fields(int: bool) -> Vec<BoxedStrategy<Option<Kv>>> {
    vec![
        opt("minimum", 0.35, bound(int)),
        opt("maximum", 0.35, bound(int)),
        opt("exclusiveMinimum", 0.25, any::<bool>().prop_map(|b| json!(b))),
        opt("exclusiveMaximum", 0.25, any::<bool>().prop_map(|b| json!(b))),
        opt("multipleOf", 0.15, if int { (1i64..5).prop_map(|n| json!(n)).boxed() } else { (1i64..9).prop_map(|n| json!(n as f64 / 4.0)).boxed() }),
    ]
}
fn str_fields() -> Vec<BoxedStrategy<Option<Kv>>> {
    vec![
        opt("pattern", 0.2, prop_oneof![Just(json!("^[a-z]+$")), Just(json!("\\d{2}")), "[a-z]{1,3}".prop_map(|s| json!(s))]),
        opt("minLength", 0.3, small()),
        opt("maxLength", 0.3, small()),
    ]
}
fn names() -> impl Strategy<Value = String> + Clone {
    proptest::sample::select(vec!["a", "b", "c", "type", "x-y", "Foo"]).prop_map(String::from)
}
fn obj_fields(sub: BoxedStrategy<Value>) -> Vec<BoxedStrategy<Option<Kv>>> {
    vec![
        opt("properties", 0.75, proptest::collection::btree_map(names(), sub.clone(), 0..4).prop_map(|m| json!(m))),
        opt("required", 0.5, proptest::collection::btree_set(names(), 0..3).prop_map(|m| json!(m))),
        opt("additionalProperties", 0.4, prop_oneof![any::<bool>().prop_map(|b| json!(b)), sub]),
        opt("minProperties", 0.15, small()),
        opt("maxProperties", 0.15, small()),
    ]
}
fn arr_fields(sub: BoxedStrategy<Value>) -> Vec<BoxedStrategy<Option<Kv>>> {
    vec![
        opt("items", 0.8, sub),
        opt("minItems", 0.25, small()),
        opt("maxItems", 0.25, small()),
        opt("uniqueItems", 0.25, any::<bool>().prop_map(|b| json!(b))),
    ]
}
fn sub_fields(sub: BoxedStrategy<Value>) -> Vec<BoxedStrategy<Option<Kv>>> {
    let l = |n| proptest::collection::vec(sub.clone(), n).prop_map(|v| json!(v));
    vec![opt("oneOf", 0.3, l(1..4)), opt("allOf", 0.3, l(1..3)), opt("anyOf", 0.3, l(1..4)), opt("not", 0.2, sub.clone())]
}
fn formats(k: &str) -> BoxedStrategy<Value> {
    let l: &[&str] = match k {
        "string" => &["date", "date-time", "password", "byte", "binary", "uuid", "ip", "ipv4", "email", "weird-one", "UUID", "Date-Time", "x y", "uri", "hostname", "time"],
        "integer" => &["int32", "int64", "uint8", "uint", "uint64", "other", "INT32", "int8", "Weird"],
        _ => &["float", "double", "decimal", "Float", "money"],
    };
    proptest::sample::select(l.to_vec()).prop_map(|s| json!(s)).boxed()
}

fn typed(t: &'static str, f: Vec<BoxedStrategy<Option<Kv>>>) -> BoxedStrategy<Map<String, Value>> {
    fields(f)
        .prop_map(move |mut m| {
            m.insert("type".into(), json!(t));
            m
        })
        .boxed()
}

fn enum_of(k: &str) -> BoxedStrategy<Value> {
    let one: BoxedStrategy<Value> = match k {
        "string" => prop_oneof![8 => "[a-c]{1,2}".prop_map(|s| json!(s)), 1 => Just(json!(null))].boxed(),
        "integer" => prop_oneof![8 => (-3i64..9).prop_map(|s| json!(s)), 1 => Just(json!(null))].boxed(),
        "number" => prop_oneof![4 => (-3i64..9).prop_map(|s| json!(s)), 4 => (-3i64..9).prop_map(|s| json!(s as f64 / 2.0)), 1 => Just(json!(null))].boxed(),
        "boolean" => prop_oneof![4 => any::<bool>().prop_map(|b| json!(b)), 1 => Just(json!(null))].boxed(),
        _ => leaf().boxed(),
    };
    proptest::collection::vec(one, 1..4).prop_map(|v| json!(v)).boxed()
}

fn one_level(sub: BoxedStrategy<Value>) -> BoxedStrategy<Value> {
    let mut s = str_fields();
    s.push(opt("format", 0.35, formats("string")));
    s.push(opt("enum", 0.2, enum_of("string")));
    let string = typed("string", s);
    let mut s = num_fields(true);
    s.push(opt("format", 0.35, formats("integer")));
    s.push(opt("enum", 0.15, enum_of("integer")));
    let integer = typed("integer", s);
    let mut s = num_fields(false);
    s.push(opt("format", 0.35, formats("number")));
    s.push(opt("enum", 0.15, enum_of("number")));
    let number = typed("number", s);
    let boolean = typed("boolean", vec![opt("enum", 0.3, enum_of("boolean"))]);
    let object = typed("object", obj_fields(sub.clone()));
    let array = typed("array", arr_fields(sub.clone()));
    let solo = |k: &'static str| {
        proptest::collection::vec(sub.clone(), 1..4)
            .prop_map(move |v| Map::from_iter([(k.to_string(), json!(v))]))
            .boxed()
    };
    let solo_not = sub.clone().prop_map(|v| Map::from_iter([("not".to_string(), v)])).boxed();
    let empty = Just(Map::new()).boxed();
    let null = Just(Map::from_iter([("enum".to_string(), json!([null]))])).boxed();
    // the catch-all: keywords of any family, with or without a type
    let keep = |v: Vec<BoxedStrategy<Option<Kv>>>, p: f64| {
        (proptest::bool::weighted(p), fields(v)).prop_map(|(k, m)| if k { m } else { Map::new() }).boxed()
    };
    let mixed = (
        proptest::option::weighted(0.45, proptest::sample::select(vec!["string", "number", "integer", "boolean", "object", "array"])),
        keep(str_fields(), 0.3),
        keep(num_fields(false), 0.3),
        keep(obj_fields(sub.clone()), 0.3),
        keep(arr_fields(sub.clone()), 0.25),
        keep(sub_fields(sub.clone()), 0.3),
        fields(vec![opt("enum", 0.25, enum_of("any")), opt("format", 0.15, formats("string"))]),
    )
        .prop_map(|(t, a, b, c, d, e, f)| {
            let mut m = Map::new();
            for x in [a, b, c, d, e, f] {
                m.extend(x);
            }
            if let Some(t) = t {
                m.insert("type".into(), json!(t));
            }
            m
        })
        .boxed();
    let kinds = prop_oneof![
        6 => string, 5 => integer, 5 => number, 2 => boolean, 7 => object, 5 => array, 3 => solo("oneOf"),
        3 => solo("allOf"), 3 => solo("anyOf"), 2 => solo_not, 1 => empty, 1 => null, 8 => mixed
    ];
    (kinds, meta())
        .prop_map(|(mut k, m)| {
            k.extend(m);
            // the flag alone is not a legal schema
            for (f, b) in [("exclusiveMinimum", "minimum"), ("exclusiveMaximum", "maximum")] {
                if !k.contains_key(b) {
                    k.remove(f);
                }
            }
            Value::Object(k)
        })
        .boxed()
}

pub fn any_schema(refs: bool) -> BoxedStrategy<Value> {
    let base = one_level(Just(json!({"type": "string"})).boxed());
    let r = proptest::sample::select(vec!["A", "B"]).prop_map(|n| json!({"$ref": format!("#/components/schemas/{n}")}));
    let l0 = if refs { prop_oneof![6 => base, 1 => r.clone()].boxed() } else { base };
    let l1 = one_level(l0.clone());
    let l1 = if refs { prop_oneof![6 => l1, 1 => r].boxed() } else { l1 };
    let l2 = one_level(l1.clone());
    prop_oneof![2 => l0, 3 => l1, 3 => l2].boxed()
}

fn document(a: &Value, b: &Value, s: &Value) -> Value {
    json!({
        "openapi": "3.0.3",
        "info": {"title": "t", "version": "1"},
        "paths": {
            "/r": {"get": {"operationId": "r", "responses": {"200": {"description": "", "content": {"application/json": {"schema": s}}}}}},
            "/b": {"put": {"operationId": "b", "requestBody": {"content": {"application/json": {"schema": s}}}, "responses": {"204": {"description": ""}}}},
            "/q": {"put": {"operationId": "q", "parameters": [{"name": "p", "in": "query", "schema": s}, {"name": "h", "in": "header", "schema": s}], "responses": {"204": {"description": ""}}}},
        },
        "components": {"schemas": {"A": a, "B": b, "S": s}}
    })
}

fn js(s: &schemars::schema::Schema) -> Value {
    serde_json::to_value(s).unwrap()
}

/// Annotations kept on the outermost level.
fn annotations(s: &Value, conv: &Value) -> R {
    let Some(m) = s.as_object() else { return Ok(()) };
    if m.contains_key("$ref") {
        return Ok(());
    }
    for k in ["title", "description", "default", "x-thing"] {
        let want = m.get(k);
        ensure!(conv.get(k) == want, "{k} is {:?} after conversion of {s} into {conv}", conv.get(k));
    }
    for k in ["deprecated", "readOnly", "writeOnly"] {
        ensure!(conv.get(k).is_some() == m.contains_key(k), "{k} is {:?} after conversion of {s}", conv.get(k));
    }
    if let Some(e) = m.get("example") {
        ensure!(conv.get("examples") == Some(&json!([e])), "example {e} is {:?} after conversion", conv.get("examples"));
    }
    Ok(())
}

fn check(a: &Value, b: &Value, s: &Value, c: &mut Case) -> R {
    let doc = document(a, b, s);
    let spec: openapiv3::OpenAPI = serde_json::from_value(doc).map_err(|e| Fail::new(format!("check: document refused: {e}")))?;
    let mut g = Generator::default();
    // Types the generator stand-in cannot express are of no interest here;
    // the schemas it was asked about are.
    let res = vk::guard(|| g.generate_tokens(&spec));
    match res {
        Ok(Ok(_)) => {}
        Ok(Err(e)) => return Err(Fail::new(format!("generator refuses {s}: {e}"))),
        Err(p) => return Err(Fail::new(format!("generator panics on {s}: {p}"))),
    }
    let mut defs_in = Defs::new();
    let mut defs_out = Defs::new();
    defs_in.extend([("A".into(), a.clone()), ("B".into(), b.clone()), ("S".into(), s.clone())]);
    let mut uses: Vec<(String, Value)> = vec![];
    for x in g.get_type_space().asked() {
        match x {
            typify::Asked::Definition { name, schema } => {
                defs_out.insert(name.clone(), js(schema));
            }
            typify::Asked::Named { name, schema, .. } => uses.push((name.clone().unwrap_or_default(), js(schema))),
        }
    }
    ensure!(defs_out.keys().eq(defs_in.keys()), "definitions handed over: {:?}", defs_out.keys());
    ensure!(!uses.is_empty(), "no schema handed over for the operations' types");
    let mut pairs: Vec<(&str, &Value, &Value)> = vec![];
    for (n, sch) in &defs_in {
        let conv = &defs_out[n];
        annotations(sch, conv)?;
        pairs.push((n, sch, conv));
    }
    for (n, u) in &uses {
        if *u != defs_out["S"] {
            pairs.push((n, s, u));
        }
    }
    let mut decided = 0;
    for (_, sch, conv) in pairs {
        let mut inst = generic();
        instances(sch, &defs_in, 0, &mut inst);
        inst.truncate(400);
        for i in &inst {
            let want = oas(sch, i, &defs_in, 0);
            let got = d7(conv, i, &defs_out, 0);
            if want == Open || got == Open {
                continue;
            }
            decided += 1;
            if want == Yes && !i.is_null() {
                c.nontrivial();
            }
            ensure!(want == got, "schema {sch} {} {i}, its conversion {conv} {}", verb(want), verb(got));
        }
    }
    if decided > 100 {
        c.label("over 100 instances decided");
    }
    Ok(())
}
fn verb(t: T) -> &'static str {
    match t {
        Yes => "accepts",
        No => "rejects",
        Open => "?",
    }
}

pub fn p17(cx: &mut Ctx) {
    cx.rule("Random OpenAPI 3.0 schema objects (every keyword, nested three deep, with references) go through Generator::generate_tokens; each schema handed to the type generator is compared with the one in the document by two independent validators on boundary instances drawn from the schema. Non-trivial: some non-null instance is accepted.");
    cx.assumptions.push("schemas are observed at the typify interface, through a stand-in that records what it is given".into());
    cx.assumptions.push("formats and patterns are compared as opaque predicates".into());
    let leafy = || one_level(Just(json!({"type": "integer"})).boxed());
    let strat = (leafy(), any_schema(false), any_schema(true));
    cx.run("conversion", 3_000, 60_000, strat, |(a, b, s), c| {
        if let Some(m) = s.as_object() {
            for k in m.keys() {
                c.label(format!("keyword {k}"));
            }
            if m.get("nullable") == Some(&json!(true)) && !m.contains_key("type") {
                c.label("nullable without type");
            }
        }
        check(a, b, s, c)
    });
}
