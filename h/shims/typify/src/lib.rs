//! A stand-in for `typify` (not available offline): the part of its interface
//! that progenitor uses, with a small generator of the same shape of types,
//! plus a record of what progenitor asked of it.
use std::collections::{BTreeMap, BTreeSet, HashMap};

use heck::{ToPascalCase, ToSnakeCase};
use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use schemars::schema::{InstanceType, Schema, SchemaObject, SingleOrVec};
use serde::Deserialize;
use serde_json::Value;

mod emit;

#[derive(thiserror::Error, Debug)]
pub enum Error {
    #[error("unexpected value type")]
    BadValue(String, Value),
    #[error("invalid schema: {0}")]
    InvalidSchema(String),
}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TypeId(pub u64);

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[non_exhaustive]
pub enum TypeSpaceImpl {
    FromStr,
    FromStringIrrefutable,
    Display,
    Default,
}

impl std::str::FromStr for TypeSpaceImpl {
    type Err = String;
    fn from_str(s: &str) -> std::result::Result<Self, String> {
        match s {
            "FromStr" => Ok(Self::FromStr),
            "Display" => Ok(Self::Display),
            "Default" => Ok(Self::Default),
            _ => Err(format!("{s} is not a valid trait specifier")),
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum CrateVers {
    Version(String),
    Any,
    Never,
}
impl CrateVers {
    pub fn parse(s: &str) -> Option<Self> {
        match s {
            "!" => Some(Self::Never),
            "*" => Some(Self::Any),
            _ => {
                let ok = s.split('.').count() == 3
                    && s.split('.').all(|p| !p.is_empty() && p.bytes().all(|b| b.is_ascii_digit()));
                ok.then(|| Self::Version(s.to_string()))
            }
        }
    }
}

#[derive(Debug, Clone, Copy, Default, PartialEq, Deserialize)]
pub enum UnknownPolicy {
    #[default]
    Generate,
    Allow,
    Deny,
}

#[derive(Debug, Default, Clone, PartialEq)]
pub struct TypeSpacePatch {
    pub rename: Option<String>,
    pub derives: Vec<String>,
}
impl TypeSpacePatch {
    pub fn with_rename<S: ToString>(&mut self, rename: S) -> &mut Self {
        self.rename = Some(rename.to_string());
        self
    }
    pub fn with_derive<S: ToString>(&mut self, derive: S) -> &mut Self {
        self.derives.push(derive.to_string());
        self
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Crate {
    pub version: CrateVers,
    pub rename: Option<String>,
}

/// Everything progenitor set, open to inspection.
#[derive(Debug, Default, Clone, PartialEq)]
pub struct TypeSpaceSettings {
    pub type_mod: Option<String>,
    pub struct_builder: bool,
    pub derives: Vec<String>,
    pub unknown_crates: UnknownPolicy,
    pub crates: BTreeMap<String, Crate>,
    pub patch: BTreeMap<String, TypeSpacePatch>,
    pub replace: BTreeMap<String, (String, BTreeSet<TypeSpaceImpl>)>,
    pub convert: Vec<(SchemaObject, String, BTreeSet<TypeSpaceImpl>)>,
    pub map_type: Option<String>,
}

impl TypeSpaceSettings {
    pub fn with_type_mod<S: AsRef<str>>(&mut self, s: S) -> &mut Self {
        self.type_mod = Some(s.as_ref().to_string());
        self
    }
    pub fn with_struct_builder(&mut self, b: bool) -> &mut Self {
        self.struct_builder = b;
        self
    }
    pub fn with_derive(&mut self, d: String) -> &mut Self {
        if !self.derives.contains(&d) {
            self.derives.push(d);
        }
        self
    }
    pub fn with_unknown_crates(&mut self, p: UnknownPolicy) -> &mut Self {
        self.unknown_crates = p;
        self
    }
    pub fn with_crate<S: ToString>(
        &mut self,
        name: S,
        version: CrateVers,
        rename: Option<&String>,
    ) -> &mut Self {
        self.crates.insert(
            name.to_string(),
            Crate {
                version,
                rename: rename.cloned(),
            },
        );
        self
    }
    pub fn with_patch<S: ToString>(&mut self, name: S, patch: &TypeSpacePatch) -> &mut Self {
        self.patch.insert(name.to_string(), patch.clone());
        self
    }
    pub fn with_replacement<A: ToString, B: ToString, I: Iterator<Item = TypeSpaceImpl>>(
        &mut self,
        name: A,
        to: B,
        impls: I,
    ) -> &mut Self {
        self.replace
            .insert(name.to_string(), (to.to_string(), impls.collect()));
        self
    }
    pub fn with_conversion<S: ToString, I: Iterator<Item = TypeSpaceImpl>>(
        &mut self,
        schema: SchemaObject,
        to: S,
        impls: I,
    ) -> &mut Self {
        self.convert.push((schema, to.to_string(), impls.collect()));
        self
    }
    pub fn with_map_type<T: ToString>(&mut self, t: T) -> &mut Self {
        self.map_type = Some(t.to_string());
        self
    }
}

/// One request progenitor made of the type space.
#[derive(Debug, Clone, PartialEq)]
pub enum Asked {
    /// A definition in the document's components.
    Definition { name: String, schema: Schema },
    /// A schema met elsewhere, with the name suggested for it.
    Named {
        name: Option<String>,
        schema: Schema,
        id: TypeId,
    },
}

#[derive(Debug, Clone, PartialEq)]
pub(crate) enum Check {
    None,
    Length(Option<u32>, Option<u32>),
    OneOf(Vec<Value>),
}

#[derive(Debug, Clone, PartialEq)]
pub(crate) struct Prop {
    pub name: String,
    pub json: String,
    pub description: Option<String>,
    pub required: bool,
    pub default: Option<Value>,
    pub id: TypeId,
    pub flatten: bool,
}

#[derive(Debug, Clone, PartialEq)]
pub(crate) enum Details {
    Reserved,
    Unit,
    Bool,
    Int(String),
    Float(String),
    String,
    Json,
    Native(String, BTreeSet<TypeSpaceImpl>),
    Option(TypeId),
    Vec(TypeId),
    Map(TypeId),
    Boxed(TypeId),
    Struct {
        name: String,
        props: Vec<Prop>,
        deny: bool,
    },
    Enum {
        name: String,
        variants: Vec<(String, String)>,
        default: Option<String>,
    },
    Untagged {
        name: String,
        variants: Vec<(String, TypeId)>,
    },
    Newtype {
        name: String,
        inner: TypeId,
        check: Check,
        default: Option<Value>,
    },
}

#[derive(Debug)]
pub struct TypeSpace {
    settings: TypeSpaceSettings,
    entries: BTreeMap<TypeId, Details>,
    derives: BTreeMap<TypeId, Vec<String>>,
    next: u64,
    refs: BTreeMap<String, TypeId>,
    defs: BTreeMap<String, Schema>,
    names: HashMap<String, TypeId>,
    asked: Vec<Asked>,
}

const RUST_WORDS: &[&str] = &[
    "as", "async", "await", "break", "const", "continue", "crate", "dyn", "else", "enum", "extern",
    "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub",
    "ref", "return", "self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use",
    "where", "while", "abstract", "become", "box", "do", "final", "macro", "override", "priv",
    "typeof", "unsized", "virtual", "yield", "try", "gen", "Self",
];

fn clean(s: &str) -> String {
    let t: String = s
        .chars()
        .map(|c| match c {
            '\'' => "".into(),
            '+' => "_plus_".to_string(),
            '-' => "-".into(),
            c if c.is_ascii_alphanumeric() || c == '_' => c.to_string(),
            c if c.is_alphabetic() => c.to_string(),
            _ => "_".into(),
        })
        .collect();
    t
}

fn fix(s: String, lead: &str) -> String {
    let s = if s.is_empty() || !s.starts_with(|c: char| c.is_alphabetic() || c == '_') || s == "_" {
        format!("{lead}{s}")
    } else {
        s
    };
    if RUST_WORDS.contains(&s.as_str()) {
        format!("{s}_")
    } else {
        s
    }
}

pub(crate) fn type_name(s: &str) -> String {
    fix(clean(s).to_pascal_case(), "X")
}
pub(crate) fn prop_name(s: &str) -> String {
    fix(clean(s).to_snake_case(), "x")
}

fn set(i: &[TypeSpaceImpl]) -> BTreeSet<TypeSpaceImpl> {
    i.iter().copied().collect()
}

impl TypeSpace {
    pub fn new(settings: &TypeSpaceSettings) -> Self {
        TypeSpace {
            settings: settings.clone(),
            entries: Default::default(),
            derives: Default::default(),
            next: 1,
            refs: Default::default(),
            defs: Default::default(),
            names: Default::default(),
            asked: vec![],
        }
    }

    // ---- what a check may look at
    pub fn asked(&self) -> &[Asked] {
        &self.asked
    }
    pub fn settings(&self) -> &TypeSpaceSettings {
        &self.settings
    }

    fn assign(&mut self, d: Details) -> TypeId {
        if let Some((id, _)) = self.entries.iter().find(|(_, e)| **e == d) {
            return id.clone();
        }
        let id = TypeId(self.next);
        self.next += 1;
        self.entries.insert(id.clone(), d);
        id
    }

    fn fresh(&mut self, want: &str) -> (String, Vec<String>) {
        let want = type_name(want);
        let (want, derives) = match self.settings.patch.get(&want) {
            Some(p) => (
                p.rename.clone().unwrap_or(want),
                p.derives.clone(),
            ),
            None => (want, vec![]),
        };
        (want, derives)
    }

    /// Assigns a named type, sharing an equal one and renaming on collision.
    fn assign_named(&mut self, want: &str, at: Option<TypeId>, mk: impl Fn(String) -> Details) -> TypeId {
        let (base, derives) = self.fresh(want);
        let mut name = base.clone();
        let mut n = 1;
        loop {
            let d = mk(name.clone());
            match self.names.get(&name) {
                Some(id) if at.as_ref() != Some(id) => {
                    if at.is_none() && self.entries.get(id) == Some(&d) {
                        return id.clone();
                    }
                    n += 1;
                    name = format!("{base}{n}");
                }
                _ => {
                    let id = at.clone().unwrap_or_else(|| {
                        let id = TypeId(self.next);
                        self.next += 1;
                        id
                    });
                    self.names.insert(name, id.clone());
                    self.entries.insert(id.clone(), d);
                    self.derives.insert(id.clone(), derives);
                    return id;
                }
            }
        }
    }

    pub fn add_ref_types<I, S>(&mut self, defs: I) -> Result<()>
    where
        I: IntoIterator<Item = (S, Schema)>,
        S: AsRef<str>,
    {
        let defs: Vec<(String, Schema)> = defs
            .into_iter()
            .map(|(n, s)| (n.as_ref().to_string(), s))
            .collect();
        for (name, schema) in &defs {
            self.asked.push(Asked::Definition {
                name: name.clone(),
                schema: schema.clone(),
            });
            // Asking again for the same definitions changes nothing.
            if self.defs.get(name) == Some(schema) {
                continue;
            }
            let id = TypeId(self.next);
            self.next += 1;
            self.refs.insert(name.clone(), id.clone());
            self.defs.insert(name.clone(), schema.clone());
            self.entries.insert(id, Details::Reserved);
        }
        // Reserve the names of the definitions before anything inside them.
        for (name, _) in &defs {
            let id = self.refs[name].clone();
            let (n, _) = self.fresh(name);
            self.names.entry(n).or_insert(id);
        }
        for (name, schema) in &defs {
            let id = self.refs[name].clone();
            if self.entries[&id] != Details::Reserved {
                continue;
            }
            if let Some((to, impls)) = self.settings.replace.get(&type_name(name)).cloned() {
                self.entries.insert(id, Details::Native(to, impls));
                continue;
            }
            self.named_definition(name, schema, id)?;
        }
        Ok(())
    }

    fn named_definition(&mut self, name: &str, schema: &Schema, id: TypeId) -> Result<()> {
        let d = self.convert(schema, Some(name.to_string()), Some(id.clone()))?;
        if d != id {
            // Not a type that takes a name: wrap it in one that does.
            let default = match schema {
                Schema::Object(o) => o.metadata.as_ref().and_then(|m| m.default.clone()),
                _ => None,
            };
            if let Details::Native(..) = self.entries[&d] {
                if self.settings.convert.iter().any(|(s, _, _)| Schema::Object(s.clone()) == *schema) {
                    let e = self.entries[&d].clone();
                    self.entries.insert(id, e);
                    return Ok(());
                }
            }
            self.assign_named(name, Some(id), |name| Details::Newtype {
                name,
                inner: d.clone(),
                check: Check::None,
                default: default.clone(),
            });
        }
        Ok(())
    }

    pub fn add_type(&mut self, schema: &Schema) -> Result<TypeId> {
        self.add_type_with_name(schema, None)
    }

    pub fn add_type_with_name(&mut self, schema: &Schema, name: Option<String>) -> Result<TypeId> {
        let id = self.convert(schema, name.clone(), None)?;
        self.asked.push(Asked::Named {
            name,
            schema: schema.clone(),
            id: id.clone(),
        });
        Ok(id)
    }

    fn refd(&self, r: &str) -> Result<TypeId> {
        let name = r.rsplit('/').next().unwrap();
        self.refs
            .get(name)
            .cloned()
            .ok_or_else(|| Error::InvalidSchema(format!("unknown reference {r}")))
    }

    /// `at`: the identifier the type must take if it is one with a name.
    fn convert(&mut self, schema: &Schema, name: Option<String>, at: Option<TypeId>) -> Result<TypeId> {
        let o = match schema {
            Schema::Bool(_) => return Ok(self.assign(Details::Json)),
            Schema::Object(o) => o,
        };
        if let Some(r) = &o.reference {
            return self.refd(r);
        }
        if let Some((_, to, impls)) = self.settings.convert.iter().find(|(s, _, _)| s == o).cloned() {
            return Ok(self.assign(Details::Native(to, impls)));
        }
        if let Some(x) = o.extensions.get("x-rust-type") {
            if let Some(id) = self.rust_type(x)? {
                return Ok(id);
            }
        }
        let default = o.metadata.as_ref().and_then(|m| m.default.clone());
        // A title is a better name than one made up from where it was met.
        let title = o.metadata.as_ref().and_then(|m| m.title.clone());
        let name = match title {
            Some(t) if at.is_none() && name.is_some() => Some(t),
            _ => name,
        };
        let types: Vec<InstanceType> = match &o.instance_type {
            None => vec![],
            Some(SingleOrVec::Single(t)) => vec![**t],
            Some(SingleOrVec::Vec(v)) => v.clone(),
        };
        // X | null
        if types.len() == 2 && types.contains(&InstanceType::Null) {
            let other = *types.iter().find(|t| **t != InstanceType::Null).unwrap();
            let mut inner = o.clone();
            inner.instance_type = Some(SingleOrVec::Single(Box::new(other)));
            if let Some(e) = &mut inner.enum_values {
                e.retain(|v| !v.is_null());
            }
            let inner = self.convert(
                &Schema::Object(inner),
                name.map(|n| if at.is_some() { format!("{n}Inner") } else { n }),
                None,
            )?;
            return Ok(self.assign(Details::Option(inner)));
        }
        if types.len() > 1 {
            return Ok(self.assign(Details::Json));
        }
        if let Some(s) = &o.subschemas {
            if types.is_empty() || (o.object.is_none() && o.array.is_none()) {
                if let Some(one) = s.one_of.as_ref().or(s.any_of.as_ref()) {
                    return self.union(one, name, at);
                }
                if let Some(all) = &s.all_of {
                    if all.len() == 1 {
                        return self.convert(&all[0], name, None);
                    }
                    return self.merged(all, name, at);
                }
            }
            return Ok(self.assign(Details::Json));
        }
        match types.first().copied().or_else(|| {
            if o.object.is_some() {
                Some(InstanceType::Object)
            } else if o.array.is_some() {
                Some(InstanceType::Array)
            } else if o.string.is_some() {
                Some(InstanceType::String)
            } else if o.number.is_some() {
                Some(InstanceType::Number)
            } else if o
                .enum_values
                .as_ref()
                .is_some_and(|e| e.iter().all(Value::is_string))
            {
                Some(InstanceType::String)
            } else {
                None
            }
        }) {
            None => Ok(self.assign(Details::Json)),
            Some(InstanceType::Null) => Ok(self.assign(Details::Unit)),
            Some(InstanceType::Boolean) => Ok(self.assign(Details::Bool)),
            Some(InstanceType::Integer) => {
                let d = integer(o);
                let id = self.assign(d);
                self.checked(o, id, name, at, default)
            }
            Some(InstanceType::Number) => {
                let f = match o.format.as_deref() {
                    Some("float") => "f32",
                    _ => "f64",
                };
                Ok(self.assign(Details::Float(f.into())))
            }
            Some(InstanceType::String) => self.string(o, name, at, default),
            Some(InstanceType::Array) => {
                let item = match o.array.as_ref().and_then(|a| a.items.as_ref()) {
                    Some(SingleOrVec::Single(s)) => {
                        self.convert(s, name.map(|n| format!("{n}Item")), None)?
                    }
                    _ => self.assign(Details::Json),
                };
                Ok(self.assign(Details::Vec(item)))
            }
            Some(InstanceType::Object) => self.object(o, name, at),
        }
    }

    fn rust_type(&mut self, x: &Value) -> Result<Option<TypeId>> {
        let get = |k: &str| x.get(k).and_then(Value::as_str).map(str::to_string);
        let (Some(krate), Some(version), Some(path)) = (get("crate"), get("version"), get("path"))
        else {
            return Ok(None);
        };
        let (ok, rename) = match self.settings.crates.get(&krate) {
            Some(c) => (
                match &c.version {
                    CrateVers::Any => true,
                    CrateVers::Never => false,
                    CrateVers::Version(v) => {
                        v.split('.').next() == version.trim_start_matches('^').split('.').next()
                    }
                },
                c.rename.clone(),
            ),
            None => match self.settings.unknown_crates {
                UnknownPolicy::Generate => (false, None),
                UnknownPolicy::Allow => (true, None),
                UnknownPolicy::Deny => {
                    return Err(Error::InvalidSchema(format!("unknown crate {krate}")))
                }
            },
        };
        if !ok {
            return Ok(None);
        }
        let path = match rename {
            Some(r) => {
                let (_, rest) = path.split_once("::").unwrap_or(("", &path));
                format!("::{}::{rest}", r.replace('-', "_"))
            }
            None => format!("::{path}"),
        };
        Ok(Some(self.assign(Details::Native(
            path,
            set(&[TypeSpaceImpl::FromStr, TypeSpaceImpl::Display]),
        ))))
    }

    fn checked(
        &mut self,
        o: &SchemaObject,
        id: TypeId,
        name: Option<String>,
        at: Option<TypeId>,
        default: Option<Value>,
    ) -> Result<TypeId> {
        match (&o.enum_values, name) {
            (Some(e), Some(name)) => Ok(self.assign_named(&name, at, |name| Details::Newtype {
                name,
                inner: id.clone(),
                check: Check::OneOf(e.clone()),
                default: default.clone(),
            })),
            _ => Ok(id),
        }
    }

    fn string(
        &mut self,
        o: &SchemaObject,
        name: Option<String>,
        at: Option<TypeId>,
        default: Option<Value>,
    ) -> Result<TypeId> {
        if let Some(e) = &o.enum_values {
            if *e == [Value::Null] {
                return Ok(self.assign(Details::Unit));
            }
            let Some(name) = name else {
                return Ok(self.assign(Details::String));
            };
            let mut variants: Vec<(String, String)> = vec![];
            for v in e {
                let Some(v) = v.as_str() else { continue };
                if variants.iter().any(|(_, x)| x == v) {
                    continue;
                }
                let base = type_name(v);
                let mut n = base.clone();
                let mut k = 1;
                while variants.iter().any(|(x, _)| *x == n) {
                    k += 1;
                    n = format!("{base}{k}");
                }
                variants.push((n, v.to_string()));
            }
            if variants.is_empty() {
                return Ok(self.assign(Details::String));
            }
            let default = default.and_then(|d| {
                variants
                    .iter()
                    .find(|(_, v)| d.as_str() == Some(v))
                    .map(|(n, _)| n.clone())
            });
            return Ok(self.assign_named(&name, at, |name| Details::Enum {
                name,
                variants: variants.clone(),
                default: default.clone(),
            }));
        }
        let fd = set(&[TypeSpaceImpl::FromStr, TypeSpaceImpl::Display]);
        let d = match o.format.as_deref() {
            Some("uuid") => Details::Native("::uuid::Uuid".into(), fd),
            Some("date") => Details::Native("::chrono::naive::NaiveDate".into(), fd),
            Some("date-time") => {
                Details::Native("::chrono::DateTime< ::chrono::offset::Utc>".into(), fd)
            }
            Some("ip") => Details::Native("::std::net::IpAddr".into(), fd),
            Some("ipv4") => Details::Native("::std::net::Ipv4Addr".into(), fd),
            Some("ipv6") => Details::Native("::std::net::Ipv6Addr".into(), fd),
            _ => Details::String,
        };
        let id = self.assign(d.clone());
        if let (Details::String, Some(s), Some(name)) = (d, &o.string, name) {
            return Ok(self.assign_named(&name, at, |name| Details::Newtype {
                name,
                inner: id.clone(),
                check: Check::Length(s.min_length, s.max_length),
                default: default.clone(),
            }));
        }
        Ok(id)
    }

    fn object(&mut self, o: &SchemaObject, name: Option<String>, at: Option<TypeId>) -> Result<TypeId> {
        let v = o.object.clone().unwrap_or_default();
        let any = Schema::Bool(true);
        if v.properties.is_empty() {
            let value = match v.additional_properties.as_deref() {
                Some(Schema::Bool(false)) => None,
                other => Some(other.unwrap_or(&any)),
            };
            if let Some(value) = value {
                let item = self.convert(value, name.map(|n| format!("{n}Value")), None)?;
                return Ok(self.assign(Details::Map(item)));
            }
        }
        let Some(name) = name else {
            return Ok(self.assign(Details::Json));
        };
        let mut properties = v.properties;
        for r in &v.required {
            properties.entry(r.clone()).or_insert(Schema::Bool(true));
        }
        let props: Vec<(String, Schema)> = properties.into_iter().collect();
        let extra = match v.additional_properties.as_deref() {
            None | Some(Schema::Bool(false)) | Some(Schema::Bool(true)) => None,
            Some(s) => Some(s.clone()),
        };
        let deny = matches!(v.additional_properties.as_deref(), Some(Schema::Bool(false)));
        self.structure(&name, &props, &v.required, extra, deny, at)
    }

    fn structure(
        &mut self,
        name: &str,
        props: &[(String, Schema)],
        required: &BTreeSet<String>,
        extra: Option<Schema>,
        deny: bool,
        at: Option<TypeId>,
    ) -> Result<TypeId> {
        let mut out: Vec<Prop> = vec![];
        for (json, schema) in props {
            let id = self.convert(schema, Some(format!("{name}-{json}")), None)?;
            let (description, default) = match schema {
                Schema::Object(o) => match &o.metadata {
                    Some(m) => (m.description.clone(), m.default.clone()),
                    None => (None, None),
                },
                _ => (None, None),
            };
            let base = prop_name(json);
            let mut n = base.clone();
            let mut k = 1;
            while out.iter().any(|p| p.name == n) {
                k += 1;
                n = format!("{base}_{k}");
            }
            let req = required.contains(json);
            // A reference back to the type itself needs a box.
            let id = if Some(&id) == at.as_ref() {
                self.assign(Details::Boxed(id))
            } else {
                id
            };
            let is_opt = matches!(
                self.entries[&id],
                Details::Option(_) | Details::Vec(_) | Details::Map(_)
            );
            let id = if req || default.is_some() || is_opt {
                id
            } else {
                self.assign(Details::Option(id))
            };
            out.push(Prop {
                name: n,
                json: json.clone(),
                description,
                required: req,
                default: if req { None } else { default },
                id,
                flatten: false,
            });
        }
        if let Some(extra) = extra {
            let item = self.convert(&extra, Some(format!("{name}-extra")), None)?;
            let id = self.assign(Details::Map(item));
            out.push(Prop {
                name: "extra".into(),
                json: "extra".into(),
                description: None,
                required: true,
                default: None,
                id,
                flatten: true,
            });
        }
        Ok(self.assign_named(name, at, |name| Details::Struct {
            name,
            props: out.clone(),
            deny,
        }))
    }

    fn deref<'a>(&'a self, s: &'a Schema) -> Option<&'a SchemaObject> {
        let mut s = s;
        for _ in 0..20 {
            match s {
                Schema::Bool(_) => return None,
                Schema::Object(o) => match &o.reference {
                    Some(r) => s = self.defs.get(r.rsplit('/').next().unwrap())?,
                    None => return Some(o),
                },
            }
        }
        None
    }

    fn merged(&mut self, all: &[Schema], name: Option<String>, at: Option<TypeId>) -> Result<TypeId> {
        let mut props: BTreeMap<String, Schema> = BTreeMap::new();
        let mut required = BTreeSet::new();
        for s in all {
            let ok = match self.deref(s) {
                Some(o) if o.subschemas.is_none() => match &o.object {
                    Some(v) => {
                        props.extend(v.properties.clone());
                        required.extend(v.required.iter().cloned());
                        true
                    }
                    None => false,
                },
                _ => false,
            };
            if !ok {
                return Ok(self.assign(Details::Json));
            }
        }
        let props: Vec<_> = props.into_iter().collect();
        match name {
            Some(n) => self.structure(&n, &props, &required, None, false, at),
            None => Ok(self.assign(Details::Json)),
        }
    }

    fn union(&mut self, one: &[Schema], name: Option<String>, at: Option<TypeId>) -> Result<TypeId> {
        let is_null = |s: &Schema| {
            matches!(s, Schema::Object(o) if o.instance_type
                == Some(SingleOrVec::Single(Box::new(InstanceType::Null))))
        };
        if one.len() == 2 && one.iter().any(is_null) {
            let other = one.iter().find(|s| !is_null(s)).unwrap_or(&one[0]);
            let inner = self.convert(other, name, None)?;
            return Ok(self.assign(Details::Option(inner)));
        }
        let Some(name) = name else {
            return Ok(self.assign(Details::Json));
        };
        // A union of string constants is a simple enum.
        let consts: Option<Vec<String>> = one
            .iter()
            .map(|s| match s {
                Schema::Object(o) => match o.enum_values.as_deref() {
                    Some([Value::String(s)]) => Some(s.clone()),
                    _ => None,
                },
                _ => None,
            })
            .collect();
        if let Some(consts) = consts {
            let variants: Vec<_> = consts.iter().map(|c| (type_name(c), c.clone())).collect();
            return Ok(self.assign_named(&name, at, |name| Details::Enum {
                name,
                variants: variants.clone(),
                default: None,
            }));
        }
        if one.len() == 1 {
            return self.convert(&one[0], Some(name), None);
        }
        let mut variants = vec![];
        for (i, s) in one.iter().enumerate() {
            let id = self.convert(s, Some(format!("{name}Variant{i}")), None)?;
            variants.push((format!("Variant{i}"), id));
        }
        Ok(self.assign_named(&name, at, |name| Details::Untagged {
            name,
            variants: variants.clone(),
        }))
    }

    // ---------------------------------------------------------- queries

    pub fn get_type(&self, id: &TypeId) -> Result<Type<'_>> {
        match self.entries.get(id) {
            Some(d) => Ok(Type {
                space: self,
                id: id.clone(),
                d,
            }),
            None => Err(Error::InvalidSchema(format!("no such type {id:?}"))),
        }
    }

    pub fn iter_types(&self) -> impl Iterator<Item = Type<'_>> {
        self.entries
            .iter()
            .filter(|(_, d)| name_of(d).is_some())
            .map(move |(id, d)| Type {
                space: self,
                id: id.clone(),
                d,
            })
    }

    fn any(&self, p: impl Fn(&str) -> bool) -> bool {
        self.entries
            .values()
            .any(|d| matches!(d, Details::Native(n, _) if p(n)))
    }
    pub fn uses_chrono(&self) -> bool {
        self.any(|n| n.contains("chrono"))
    }
    pub fn uses_uuid(&self) -> bool {
        self.any(|n| n.contains("uuid"))
    }
    pub fn uses_regress(&self) -> bool {
        false
    }
    pub fn uses_serde_json(&self) -> bool {
        self.entries.values().any(|d| *d == Details::Json)
    }

    pub(crate) fn toks(s: &str) -> TokenStream {
        s.parse().expect("bad type path")
    }

    pub(crate) fn ident_of(&self, id: &TypeId, type_mod: bool) -> TokenStream {
        match &self.entries[id] {
            Details::Reserved => quote! { () },
            Details::Unit => quote! { () },
            Details::Bool => quote! { bool },
            Details::Int(n) | Details::Float(n) => Self::toks(n),
            Details::String => quote! { ::std::string::String },
            Details::Json => quote! { ::serde_json::Value },
            Details::Native(n, _) => Self::toks(n),
            Details::Option(i) => {
                let i = self.ident_of(i, type_mod);
                quote! { ::std::option::Option<#i> }
            }
            Details::Vec(i) => {
                let i = self.ident_of(i, type_mod);
                quote! { ::std::vec::Vec<#i> }
            }
            Details::Boxed(i) => {
                let i = self.ident_of(i, type_mod);
                quote! { ::std::boxed::Box<#i> }
            }
            Details::Map(i) => {
                let json = self.entries[i] == Details::Json;
                let i = self.ident_of(i, type_mod);
                match &self.settings.map_type {
                    None if json => quote! {
                        ::serde_json::Map<::std::string::String, ::serde_json::Value>
                    },
                    None => quote! { ::std::collections::HashMap<::std::string::String, #i> },
                    Some(m) => {
                        let m = Self::toks(m);
                        quote! { #m<::std::string::String, #i> }
                    }
                }
            }
            d => {
                let n = format_ident!("{}", name_of(d).unwrap());
                match (&self.settings.type_mod, type_mod) {
                    (Some(m), true) => {
                        let m = format_ident!("{}", m);
                        quote! { #m::#n }
                    }
                    _ => quote! { #n },
                }
            }
        }
    }
}

fn integer(o: &SchemaObject) -> Details {
    let min = o.number.as_ref().and_then(|n| {
        n.minimum
            .or(n.exclusive_minimum.map(|x| x + 1.0))
    });
    let n = match o.format.as_deref() {
        Some("int8") => "i8",
        Some("int16") => "i16",
        Some("int32") | Some("int") => "i32",
        Some("int64") => "i64",
        Some("uint8") => "u8",
        Some("uint16") => "u16",
        Some("uint32") | Some("uint") => "u32",
        Some("uint64") => "u64",
        _ => match min {
            Some(m) if m >= 0.0 => "u64",
            _ => "i64",
        },
    };
    let n = match (n, min) {
        ("u8", Some(m)) if m == 1.0 => "::std::num::NonZeroU8",
        ("u16", Some(m)) if m == 1.0 => "::std::num::NonZeroU16",
        ("u32", Some(m)) if m == 1.0 => "::std::num::NonZeroU32",
        ("u64", Some(m)) if m == 1.0 => "::std::num::NonZeroU64",
        _ => n,
    };
    Details::Int(n.into())
}

pub(crate) fn name_of(d: &Details) -> Option<&str> {
    match d {
        Details::Struct { name, .. }
        | Details::Enum { name, .. }
        | Details::Untagged { name, .. }
        | Details::Newtype { name, .. } => Some(name),
        _ => None,
    }
}

#[derive(Debug, Clone)]
pub struct Type<'a> {
    space: &'a TypeSpace,
    id: TypeId,
    d: &'a Details,
}

pub enum TypeDetails<'a> {
    Enum(TypeEnum<'a>),
    Struct(TypeStruct<'a>),
    Newtype(TypeId),
    Option(TypeId),
    Vec(TypeId),
    Map(TypeId),
    Box(TypeId),
    Builtin(&'a str),
    Unit,
    String,
}

pub enum TypeEnumVariant<'a> {
    Simple,
    Tuple(Vec<TypeId>),
    Struct(Vec<(&'a str, TypeId)>),
}

pub struct TypeEnum<'a>(&'a Details);
pub struct TypeStruct<'a>(&'a [Prop]);

#[derive(Debug, Clone)]
pub struct TypeStructPropInfo<'a> {
    pub name: &'a str,
    pub description: Option<&'a str>,
    pub required: bool,
    pub type_id: TypeId,
}

impl<'a> TypeEnum<'a> {
    pub fn variants(&'a self) -> impl Iterator<Item = (&'a str, TypeEnumVariant<'a>)> {
        let v: Vec<(&str, TypeEnumVariant)> = match self.0 {
            Details::Enum { variants, .. } => variants
                .iter()
                .map(|(n, _)| (n.as_str(), TypeEnumVariant::Simple))
                .collect(),
            Details::Untagged { variants, .. } => variants
                .iter()
                .map(|(n, id)| (n.as_str(), TypeEnumVariant::Tuple(vec![id.clone()])))
                .collect(),
            _ => vec![],
        };
        v.into_iter()
    }
}

impl<'a> TypeStruct<'a> {
    pub fn properties(&'a self) -> impl Iterator<Item = (&'a str, TypeId)> {
        self.0.iter().map(|p| (p.name.as_str(), p.id.clone()))
    }
    pub fn properties_info(&'a self) -> impl Iterator<Item = TypeStructPropInfo<'a>> {
        self.0.iter().map(|p| TypeStructPropInfo {
            name: &p.name,
            description: p.description.as_deref(),
            required: p.required,
            type_id: p.id.clone(),
        })
    }
}

impl<'a> Type<'a> {
    pub fn id(&self) -> TypeId {
        self.id.clone()
    }
    pub fn name(&self) -> String {
        match name_of(self.d) {
            Some(n) => n.to_string(),
            None => self.space.ident_of(&self.id, false).to_string(),
        }
    }
    pub fn ident(&self) -> TokenStream {
        self.space.ident_of(&self.id, true)
    }
    pub fn parameter_ident(&self) -> TokenStream {
        self.param(None)
    }
    pub fn parameter_ident_with_lifetime(&self, l: &str) -> TokenStream {
        self.param(Some(l))
    }
    fn param(&self, l: Option<&str>) -> TokenStream {
        let lt = l.map(|l| syn::Lifetime::new(&format!("'{l}"), proc_macro2::Span::call_site()));
        match self.d {
            Details::Unit => quote! { () },
            Details::Bool | Details::Int(_) | Details::Float(_) | Details::Enum { .. } => {
                self.ident()
            }
            Details::String => quote! { & #lt str },
            Details::Option(i) => {
                let i = self.space.get_type(i).unwrap().param(l);
                quote! { ::std::option::Option<#i> }
            }
            _ => {
                let i = self.ident();
                quote! { & #lt #i }
            }
        }
    }
    pub fn describe(&self) -> String {
        self.name()
    }
    pub fn details(&self) -> TypeDetails<'a> {
        match self.d {
            Details::Reserved | Details::Unit => TypeDetails::Unit,
            Details::Bool => TypeDetails::Builtin("bool"),
            Details::Int(n) | Details::Float(n) | Details::Native(n, _) => TypeDetails::Builtin(n),
            Details::Json => TypeDetails::Builtin("::serde_json::Value"),
            Details::String => TypeDetails::String,
            Details::Option(i) => TypeDetails::Option(i.clone()),
            Details::Vec(i) => TypeDetails::Vec(i.clone()),
            Details::Map(i) => TypeDetails::Map(i.clone()),
            Details::Boxed(i) => TypeDetails::Box(i.clone()),
            Details::Struct { props, .. } => TypeDetails::Struct(TypeStruct(props)),
            d @ (Details::Enum { .. } | Details::Untagged { .. }) => TypeDetails::Enum(TypeEnum(d)),
            Details::Newtype { inner, .. } => TypeDetails::Newtype(inner.clone()),
        }
    }
    pub fn builder(&self) -> Option<TokenStream> {
        if !self.space.settings.struct_builder {
            return None;
        }
        match self.d {
            Details::Struct { name, .. } => {
                let n = format_ident!("{}", name);
                Some(match &self.space.settings.type_mod {
                    Some(m) => {
                        let m = format_ident!("{}", m);
                        quote! { #m::builder::#n }
                    }
                    None => quote! { builder::#n },
                })
            }
            _ => None,
        }
    }
    pub fn has_impl(&self, i: TypeSpaceImpl) -> bool {
        self.space.has_impl(&self.id, i)
    }
}

impl TypeSpace {
    pub(crate) fn has_impl(&self, id: &TypeId, i: TypeSpaceImpl) -> bool {
        use TypeSpaceImpl::*;
        match &self.entries[id] {
            Details::Bool | Details::Int(_) | Details::Float(_) => matches!(i, FromStr | Display),
            Details::String => matches!(i, FromStr | Display | FromStringIrrefutable | Default),
            Details::Native(_, impls) => impls.contains(&i),
            Details::Enum { default, .. } => match i {
                FromStr | Display => true,
                Default => default.is_some(),
                _ => false,
            },
            Details::Untagged { variants, .. } => match i {
                FromStr | Display => variants.iter().all(|(_, v)| self.has_impl(v, i)),
                _ => false,
            },
            Details::Newtype { inner, check, .. } => match i {
                FromStr if matches!(check, Check::OneOf(_)) => false,
                FromStr | Display => self.has_impl(inner, i),
                FromStringIrrefutable => {
                    *check == Check::None && self.entries[inner] == Details::String
                }
                _ => false,
            },
            _ => false,
        }
    }
}
