//! P30: every setting has its effect, and no other.
use crate::doc::{self, Knobs, Spec};
use crate::p23::{self, Set};
use progenitor_impl::{CrateVers, GenerationSettings, Generator, InterfaceStyle, TagStyle, UnknownPolicy};
use quote::ToTokens;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use typify::TypeSpaceSettings;
use vk::gen::{gen, Rng};
use vk::{Case, Ctx, Fail, R};

/// A history of calls on the settings.
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Step {
    Builder(bool),
    Separate(bool),
    Set(Set),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Hist {
    spec: Spec,
    steps: Vec<Step>,
}

fn apply(steps: &[Step]) -> GenerationSettings {
    let mut s = if steps.len() % 2 == 0 { GenerationSettings::new() } else { GenerationSettings::default() };
    for x in steps {
        match x {
            Step::Builder(b) => {
                s.with_interface(if *b { InterfaceStyle::Builder } else { InterfaceStyle::Positional });
            }
            Step::Separate(b) => {
                s.with_tag(if *b { TagStyle::Separate } else { TagStyle::Merged });
            }
            Step::Set(x) => p23::apply(&mut s, x),
        }
    }
    s
}

/// What the history comes to.
#[derive(Default)]
struct Sum {
    builder: bool,
    separate: bool,
    inner: Option<String>,
    hooks: BTreeMap<u8, String>,
    /// every inner type and hook ever given
    given: BTreeSet<String>,
    types: TypeSpaceSettings,
}
fn sum(steps: &[Step]) -> Sum {
    let mut m = Sum::default();
    let impls = |v: &Vec<String>| v.iter().map(|i| i.parse().unwrap()).collect();
    for x in steps {
        match x {
            Step::Builder(b) => m.builder = *b,
            Step::Separate(b) => m.separate = *b,
            Step::Set(s) => match s {
                Set::Tagged => m.separate = true,
                Set::Inner(i) => {
                    m.given.insert(i.clone());
                    m.inner = Some(i.clone())
                }
                Set::Hook(k, h) => {
                    m.given.insert(h.clone());
                    m.hooks.insert((*k).min(3), h.clone());
                }
                Set::Derive(d) => {
                    if !m.types.derives.contains(d) {
                        m.types.derives.push(d.clone())
                    }
                }
                Set::Patch(n, rename, derives) => {
                    m.types.patch.insert(n.clone(), typify::TypeSpacePatch { rename: rename.clone(), derives: derives.clone() });
                }
                Set::Replace(n, to, i) => {
                    m.types.replace.insert(n.clone(), (to.clone(), impls(i)));
                }
                Set::Convert(s, to, i) => m.types.convert.push((serde_json::from_value(s.clone()).expect("check: schema"), to.clone(), impls(i))),
                Set::Crate(n, v, rename) => {
                    let version = match v.as_str() {
                        "*" => CrateVers::Any,
                        "!" => CrateVers::Never,
                        v => CrateVers::Version(v.into()),
                    };
                    m.types.crates.insert(n.clone(), typify::Crate { version, rename: rename.clone() });
                }
                Set::Unknown(n) => m.types.unknown_crates = [UnknownPolicy::Generate, UnknownPolicy::Allow, UnknownPolicy::Deny][*n as usize % 3],
                Set::Map(t) => m.types.map_type = Some(t.clone()),
            },
        }
    }
    m.types.type_mod = Some("types".into());
    m.types.struct_builder = m.builder;
    m
}

fn step(r: &mut Rng, k: usize) -> Vec<Step> {
    match r.below(8) {
        0 => vec![Step::Builder(r.chance(60))],
        1 => vec![Step::Separate(r.chance(50))],
        2 => vec![Step::Set(Set::Hook(r.below(4) as u8, format!("crate::hook_{k}")))],
        3 => vec![Step::Set(Set::Inner(format!("crate::Inner{k}")))],
        _ => p23::set(r, false).into_iter().filter(|s| !matches!(s, Set::Inner(_) | Set::Hook(..))).map(Step::Set).collect(),
    }
}
fn hist(r: &mut Rng) -> Hist {
    let k = Knobs { items: 1 + r.below(2), params: 30, ..Knobs::default() };
    let spec = doc::spec(r, k);
    let mut steps: Vec<Step> = (0..r.below(10)).flat_map(|k| step(r, k)).collect();
    if r.chance(50) {
        r.shuffle(&mut steps);
    }
    if r.chance(30) {
        // said again
        let again = steps.clone();
        steps.extend(again.into_iter().filter(|_| r.chance(30)));
    }
    Hist { spec, steps }
}

fn idents(t: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
    for x in t {
        match x {
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
            proc_macro2::TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            _ => {}
        }
    }
}
fn last(path: &str) -> &str {
    path.rsplit("::").next().unwrap()
}

struct Made {
    g: Generator,
    file: syn::File,
    words: BTreeSet<String>,
}
fn make(api: &openapiv3::OpenAPI, s: &GenerationSettings) -> Result<Made, String> {
    let mut g = Generator::new(s);
    match vk::guard(|| g.generate_tokens(api)) {
        Ok(Ok(t)) => {
            let mut words = BTreeSet::new();
            idents(t.clone(), &mut words);
            let file = syn::parse2(t).map_err(|e| format!("not Rust: {e}"))?;
            Ok(Made { g, file, words })
        }
        Ok(Err(e)) => Err(format!("refused: {e}")),
        Err(e) => Err(format!("panic: {e}")),
    }
}

fn effect(h: &Hist, c: &mut Case) -> R {
    let api = h.spec.openapi();
    let s = apply(&h.steps);
    let m = sum(&h.steps);
    c.nontrivial_if(!h.steps.is_empty());
    let g = Generator::new(&s);
    let (got, want) = (g.get_type_space().settings(), &m.types);
    if got != want {
        let mut parts = vec![];
        let mut f = |n: &str, a: String, b: String| {
            if a != b {
                parts.push(format!("{n}: {a}, should be {b}"))
            }
        };
        f("derives", format!("{:?}", got.derives), format!("{:?}", want.derives));
        f("unknown crates", format!("{:?}", got.unknown_crates), format!("{:?}", want.unknown_crates));
        f("crates", format!("{:?}", got.crates), format!("{:?}", want.crates));
        f("patches", format!("{:?}", got.patch), format!("{:?}", want.patch));
        f("replacements", format!("{:?}", got.replace), format!("{:?}", want.replace));
        f("conversions", format!("{:?}", got.convert), format!("{:?}", want.convert));
        f("map type", format!("{:?}", got.map_type), format!("{:?}", want.map_type));
        f("builders", got.struct_builder.to_string(), want.struct_builder.to_string());
        f("module", format!("{:?}", got.type_mod), format!("{:?}", want.type_mod));
        return Err(Fail::new(format!("the type generator is set up otherwise: {}", parts.join("; "))));
    }
    if m.separate && !m.builder {
        // not supported, and said so
        c.label("unsupported combination");
        return match make(&api, &s) {
            Err(_) => Ok(()),
            Ok(_) => Err(Fail::new("separate tags in positional style were ignored")),
        };
    }
    let Ok(made) = make(&api, &s) else {
        c.label("refused");
        return Ok(());
    };
    c.label("generated");
    // interface and tags
    let named = |k: &str| made.file.items.iter().any(|i| matches!(i, syn::Item::Mod(m) if m.ident == k));
    if named("builder") != m.builder {
        return Err(Fail::new(format!("builder style is {}, builders are {}", m.builder, named("builder"))));
    }
    let traits = made.file.items.iter().filter(|i| matches!(i, syn::Item::Trait(_))).count();
    let tags: BTreeSet<&String> = h.spec.all_ops().flat_map(|(_, o)| &o.tags).collect();
    let want = if m.separate { tags.len() } else { 0 };
    if traits != want {
        return Err(Fail::new(format!("{traits} traits for {} tags, separate is {}", tags.len(), m.separate)));
    }
    // hooks and inner types: those last given, no other
    let keep: BTreeSet<&String> = m.hooks.values().chain(&m.inner).collect();
    for x in &m.given {
        let there = made.words.contains(last(x));
        if there != keep.contains(x) && (there || h.spec.all_ops().next().is_some()) {
            return Err(Fail::new(format!("{x} was {}, it is {} in the code", if keep.contains(x) { "set" } else { "replaced" }, if there { "used" } else { "missing" })));
        }
    }
    // every schema of the document is asked for once, under its name
    let mut asked: Vec<&str> = made.g.get_type_space().asked().iter().filter_map(|a| match a { typify::Asked::Definition { name, .. } => Some(name.as_str()), _ => None }).collect();
    asked.sort();
    let d = h.spec.json();
    let mut want: Vec<&str> = d["components"]["schemas"].as_object().unwrap().keys().map(String::as_str).collect();
    want.sort();
    if asked != want {
        return Err(Fail::new(format!("schemas {asked:?} were asked for, the document has {want:?}")));
    }
    Ok(())
}

/// Settings of types leave operations alone, and the other way round.
fn apart(h: &Hist, c: &mut Case) -> R {
    let api = h.spec.openapi();
    let of = |f: &dyn Fn(&Step) -> bool| -> Vec<Step> { h.steps.iter().filter(|s| f(s)).cloned().collect() };
    // (named types are what operations use)
    let renames = |s: &Step| matches!(s, Step::Set(Set::Replace(..) | Set::Convert(..) | Set::Patch(_, Some(_), _)));
    let kinds = |s: &Step| matches!(s, Step::Set(Set::Derive(_) | Set::Patch(_, None, _) | Set::Crate(..) | Set::Unknown(_) | Set::Map(_)));
    let m = sum(&h.steps);
    if m.separate && !m.builder {
        return Ok(());
    }
    let a = make(&api, &apply(&of(&|s| !renames(s))));
    let b = make(&api, &apply(&of(&|s| !renames(s) && !kinds(s))));
    let (Ok(a), Ok(b)) = (a, b) else { return Ok(()) };
    c.nontrivial_if(h.steps.iter().any(kinds));
    let code = |m: &Made| -> Vec<String> {
        m.file.items.iter().filter(|i| !matches!(i, syn::Item::Mod(m) if m.ident == "types")).map(|i| i.to_token_stream().to_string()).collect()
    };
    for (x, y) in code(&a).iter().zip(&code(&b)) {
        if x != y && !h.steps.iter().any(|s| matches!(s, Step::Set(Set::Map(_)))) {
            return Err(Fail::new(format!("settings of types change the code of operations:\n  {x}\n  {y}")));
        }
    }
    if code(&a).len() != code(&b).len() {
        return Err(Fail::new("settings of types add or remove items"));
    }
    // the client's own settings leave the types alone
    let client = |s: &Step| matches!(s, Step::Separate(_) | Step::Set(Set::Tagged | Set::Inner(_) | Set::Hook(..)));
    let a = make(&api, &apply(&of(&|_| true)));
    let b = make(&api, &apply(&of(&|s| !client(s))));
    let (Ok(a), Ok(b)) = (a, b) else { return Ok(()) };
    if a.g.get_type_space().asked() != b.g.get_type_space().asked() {
        return Err(Fail::new("settings of the client change what is asked of the type generator"));
    }
    Ok(())
}

pub fn p30(cx: &mut Ctx) {
    cx.rule("Generated histories of calls on the settings (all of them, with repetitions, replacements and few distinct names), with generated documents; what the type generator is set up with is compared with a model of the history (last one wins for single values and names, lists in order), and interface, tags, hooks, inner type and requested schemas are read from the code. Apart: the same history with and without its settings of types, or its settings of the client. Non-trivial: at least one setting (apart: of types).");
    cx.run("effect", 2500, 60_000, gen(hist, |h: &Hist| h.spec.valid()), effect);
    cx.run("apart", 500, 12_000, gen(hist, |h: &Hist| h.spec.valid()), apart);
}
