//! A model of API descriptions: generated here, written out as OpenAPI 3.0
//! documents for the generator, and read by the oracles. Rust names are known
//! by construction, never computed from document names.
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::BTreeSet;
use vk::gen::Rng;

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Ty {
    Str,
    I64,
    I32,
    U32,
    F64,
    Bool,
    Uuid,
    Date,
    Color,
    Label,
    Count,
    StrArr,
    IntArr,
    ColorArr,
    Flat,
    Widget,
    Nested,
    WidgetArr,
    NestedArr,
    Map,
    Page,
    /// a limit in the form dropshot gives it
    Nz,
}
use Ty::*;

pub const SCALARS: &[Ty] = &[Str, Str, I64, I32, U32, F64, Bool, Uuid, Date, Color, Label, Count];
pub const ARRAYS: &[Ty] = &[StrArr, IntArr, ColorArr];
pub const STRUCTS: &[Ty] = &[Widget, Nested, Flat, WidgetArr, NestedArr, Map];

pub enum Pass {
    Value,
    Str,
    Ref,
}

impl Ty {
    pub fn schema(self) -> Value {
        let r = |n: &str| json!({"$ref": format!("#/components/schemas/{n}")});
        let arr = |v: Value| json!({"type": "array", "items": v});
        match self {
            Str => json!({"type": "string"}),
            I64 => json!({"type": "integer", "format": "int64"}),
            I32 => json!({"type": "integer", "format": "int32"}),
            U32 => json!({"type": "integer", "format": "uint32", "minimum": 0}),
            F64 => json!({"type": "number", "format": "double"}),
            Bool => json!({"type": "boolean"}),
            Uuid => json!({"type": "string", "format": "uuid"}),
            Date => json!({"type": "string", "format": "date"}),
            Nz => json!({"type": "integer", "format": "uint32", "minimum": 1}),
            Color => r("Color"),
            Label => r("Label"),
            Count => r("Count"),
            StrArr => arr(json!({"type": "string"})),
            IntArr => arr(json!({"type": "integer", "format": "int64"})),
            ColorArr => arr(r("Color")),
            Flat => r("Flat"),
            Widget => r("Widget"),
            Nested => r("Nested"),
            Page => r("Page"),
            WidgetArr => arr(r("Widget")),
            NestedArr => arr(r("Nested")),
            Map => json!({"type": "object", "additionalProperties": {"type": "integer", "format": "int64"}}),
        }
    }
    /// Rust type, `$t` standing for the path of the types module.
    pub fn rust(self, t: &str) -> String {
        match self {
            Str => "String".into(),
            I64 => "i64".into(),
            I32 => "i32".into(),
            U32 => "u32".into(),
            F64 => "f64".into(),
            Bool => "bool".into(),
            Uuid => "uuid::Uuid".into(),
            Nz => "std::num::NonZeroU32".into(),
            Date => "chrono::naive::NaiveDate".into(),
            StrArr => "Vec<String>".into(),
            IntArr => "Vec<i64>".into(),
            ColorArr => format!("Vec<{t}::Color>"),
            WidgetArr => format!("Vec<{t}::Widget>"),
            NestedArr => format!("Vec<{t}::Nested>"),
            Map => "std::collections::HashMap<String, i64>".into(),
            Color | Label | Count | Flat | Widget | Nested | Page => format!("{t}::{self:?}"),
        }
    }
    pub fn pass(self) -> Pass {
        match self {
            Str => Pass::Str,
            I64 | I32 | U32 | Nz | F64 | Bool | Color => Pass::Value,
            _ => Pass::Ref,
        }
    }
    pub fn scalar(self) -> bool {
        SCALARS.contains(&self) || self == Nz
    }
    /// A value of the type, as JSON, in the form the type itself would write.
    pub fn value(self, r: &mut Rng) -> Value {
        match self {
            Str => json!(text(r)),
            I64 => json!(*r.pick(&[0, 1, -1, 42, i64::MAX, i64::MIN, 1 << 53, -77])),
            I32 => json!(*r.pick(&[0, 1, -1, 42, i32::MAX as i64, i32::MIN as i64])),
            U32 | Count => json!(*r.pick(&[0u64, 1, 7, u32::MAX as u64])),
            Nz => json!(*r.pick(&[1u64, 2, 3, 4, 7, u32::MAX as u64])),
            F64 => json!(*r.pick(&[0.5, -2.25, 1.5, 1024.125, 3.75])),
            Bool => json!(r.chance(50)),
            Uuid => {
                let (a, b) = (r.u64(), r.u64());
                json!(format!("{:08x}-{:04x}-4{:03x}-a{:03x}-{:012x}", a >> 32, a >> 16 & 0xffff, a & 0xfff, b >> 52, b & 0xffff_ffff_ffff))
            }
            Date => json!(format!("{:04}-{:02}-{:02}", r.range(1970, 2030), r.range(1, 12), r.range(1, 28))),
            Color => json!(*r.pick(&["red", "light-green", "BLUE", "a/b c"])),
            Label => json!(text(r).chars().take(12).collect::<String>()),
            StrArr => (0..r.below(4)).map(|_| Str.value(r)).collect(),
            IntArr => (0..r.below(4)).map(|_| I64.value(r)).collect(),
            ColorArr => (0..r.below(4)).map(|_| Color.value(r)).collect(),
            WidgetArr => (0..r.below(3)).map(|_| Widget.value(r)).collect(),
            NestedArr => (0..r.below(4)).map(|_| Nested.value(r)).collect(),
            Flat => {
                let mut m = Map::from_iter([("fa".to_string(), Str.value(r))]);
                if r.chance(50) {
                    m.insert("f-b".into(), I64.value(r));
                }
                if r.chance(50) {
                    m.insert("fColor".into(), Color.value(r));
                }
                m.into()
            }
            Nested => {
                let mut m = Map::from_iter([("k".to_string(), I64.value(r))]);
                if r.chance(50) {
                    m.insert("note".into(), Str.value(r));
                }
                m.into()
            }
            Widget => {
                let mut m = Map::from_iter([("id".to_string(), Uuid.value(r)), ("name".to_string(), Str.value(r))]);
                if r.chance(50) {
                    m.insert("color".into(), Color.value(r));
                }
                if r.chance(50) {
                    let n = 1 + r.below(3);
                    m.insert("tags".into(), (0..n).map(|_| Str.value(r)).collect());
                }
                if r.chance(50) {
                    m.insert("in".into(), Nested.value(r));
                }
                if r.chance(50) {
                    m.insert("size".into(), F64.value(r));
                }
                m.into()
            }
            Page => {
                let mut m = Map::from_iter([("items".to_string(), NestedArr.value(r))]);
                if r.chance(60) {
                    m.insert("next_page".into(), json!(text(r)));
                }
                m.into()
            }
            Map => (0..r.below(4)).map(|i| (format!("{}{i}", text(r)), I64.value(r))).collect::<Map<_, _>>().into(),
        }
    }
    /// Text of a scalar value where a parameter is written out.
    pub fn wire(v: &Value) -> String {
        match v {
            Value::String(s) => s.clone(),
            v => v.to_string(),
        }
    }
    /// A JSON value that is not of the type.
    pub fn wrong(self) -> Value {
        match self {
            Str | Uuid | Date | Color | Label => json!(17),
            StrArr | IntArr | ColorArr | WidgetArr | NestedArr => json!({"a": 1}),
            _ => json!("nope"),
        }
    }
}

pub fn components() -> Value {
    json!({
        "Color": {"type": "string", "enum": ["red", "light-green", "BLUE", "a/b c"]},
        "Label": {"type": "string", "maxLength": 12},
        "Count": {"type": "integer", "format": "uint32", "minimum": 0},
        "Flat": {"type": "object", "required": ["fa"], "properties": {
            "fa": {"type": "string"}, "f-b": {"type": "integer", "format": "int64"}, "fColor": {"$ref": "#/components/schemas/Color"}}},
        "Nested": {"type": "object", "required": ["k"], "properties": {
            "k": {"type": "integer", "format": "int64"}, "note": {"type": "string"}}},
        "Widget": {"type": "object", "required": ["id", "name"], "properties": {
            "id": {"type": "string", "format": "uuid"}, "name": {"type": "string"}, "color": {"$ref": "#/components/schemas/Color"},
            "tags": {"type": "array", "items": {"type": "string"}}, "in": {"$ref": "#/components/schemas/Nested"},
            "size": {"type": "number", "format": "double"}}},
        "Page": {"type": "object", "required": ["items"], "properties": {
            "items": {"type": "array", "items": {"$ref": "#/components/schemas/Nested"}}, "next_page": {"type": "string", "nullable": true}}},
    })
}

pub fn text(r: &mut Rng) -> String {
    const CH: &[char] = &[
        'a', 'b', 'z', 'A', '0', '9', '-', '_', '.', '~', ' ', '/', '?', '#', '%', '&', '=', '+', ';', ':', '@', '!', '$', '\'', '(', ')',
        '*', ',', '[', ']', '{', '}', '<', '>', '"', '\\', '^', '`', '|', 'é', 'ß', '漢', '🦀',
    ];
    match r.below(10) {
        0 => String::new(),
        1 | 2 => r.pick(&["x", "hello", "a b", "a/b", "%2F", "100%", "a+b", "k=v&l", "..a", "...", "null", "true", "é"]).to_string(),
        _ => (0..1 + r.below(8)).map(|_| *r.pick(CH)).collect(),
    }
}

/// Text that survives a header.
pub fn header_text(r: &mut Rng) -> String {
    let s: String = text(r).chars().filter(|c| c.is_ascii()).collect();
    s.trim().to_string()
}

// ------------------------------------------------------------------ names

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub struct Name {
    pub words: Vec<String>,
    pub style: u8,
}
const KEYWORDS: &[&str] = &[
    "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop",
    "match", "mod", "move", "mut", "pub", "ref", "return", "self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use",
    "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof",
    "unsized", "virtual", "yield", "try",
];
fn cap(s: &str) -> String {
    let mut c = s.chars();
    c.next().map(|f| f.to_ascii_uppercase()).into_iter().chain(c).collect()
}
impl Name {
    pub fn api(&self) -> String {
        let w = &self.words;
        match self.style {
            0 => w.join("_"),
            1 => w.join("-"),
            2 => w.iter().enumerate().map(|(i, s)| if i == 0 { s.clone() } else { cap(s) }).collect(),
            3 => w.iter().map(|s| cap(s)).collect(),
            4 => w.join("."),
            6 => w.join(" "),
            7 => w.join(":"),
            8 => w.join("?"),
            9 => format!("${}", w.join("%")),
            10 => format!("{}*", w.join("+")),
            11 => format!(" {} ", w.join("\\")),
            12 => w.join("\""),
            _ => w.iter().map(|s| cap(s)).collect::<Vec<_>>().join("-"),
        }
    }
    pub fn snake(&self) -> String {
        let s = self.words.join("_");
        if KEYWORDS.contains(&s.as_str()) {
            s + "_"
        } else {
            s
        }
    }
    pub fn pascal(&self) -> String {
        self.words.iter().map(|s| cap(s)).collect()
    }
    pub fn ok(&self) -> bool {
        !self.words.is_empty() && self.words.iter().all(|w| !w.is_empty() && w.chars().all(|c| c.is_ascii_lowercase()))
    }
}
const WORDS: &[&str] = &[
    "alpha", "beta", "thing", "instance", "view", "list", "disk", "name", "id", "project", "sort", "by", "silo", "start", "time", "kind",
];
/// Names the generated code might use itself, and reserved words.
const TRICKY: &[&[&str]] = &[
    &["client"], &["value"], &["result"], &["response"], &["request"], &["url"], &["query"], &["type"], &["in"], &["self"], &["async"],
    &["match"], &["header", "map"], &["inner"], &["limit"], &["page", "token"], &["state"], &["page"], &["first"], &["rest"], &["builder"],
    &["super"], &["send"], &["new"], &["v"], &["e"], &["s"], &["stream"], &["crate"], &["params"], &["method"], &["baseurl"], &["option"],
    &["string"], &["types"], &["err"], &["ok"], &["use"], &["mut"], &["box"], &["try"], &["yield"], &["default"], &["clone"],
];
/// Setter names cannot take these over: the builder has methods of its own.
const NOT_PARAMS: &[&str] = &["new", "send", "body", "body_map", "stream", "clone", "page_token", "limit"];

pub fn name(r: &mut Rng, tricky: bool, styles: &[u8], used: &mut BTreeSet<String>) -> Name {
    loop {
        let words: Vec<String> = if tricky && r.chance(35) {
            r.pick(TRICKY).iter().map(|s| s.to_string()).collect()
        } else {
            (0..1 + r.below(3)).map(|_| r.pick(WORDS).to_string()).collect()
        };
        let n = Name { words, style: *r.pick(styles) };
        let s = n.words.join("_");
        // `self`, `super` and `crate` cannot be written raw but can take an underscore
        if NOT_PARAMS.contains(&s.as_str()) || !used.insert(s) {
            continue;
        }
        return n;
    }
}

// ------------------------------------------------------------------ model

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Loc {
    Path,
    Query,
    Header,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Param {
    pub name: Name,
    pub loc: Loc,
    pub required: bool,
    pub ty: Ty,
    /// declared as null or the type (query only): optional whatever `required` says
    pub nullable: bool,
    /// written under components and referred to
    pub by_ref: bool,
}
impl Param {
    pub fn optional(&self) -> bool {
        self.loc != Loc::Path && (!self.required || self.nullable)
    }
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Body {
    Json { ty: Ty, by_ref: bool, ctype: String },
    /// An object schema given in place, named by the generator.
    Inline { by_ref: bool },
    Form { ty: Ty },
    Octet,
    Text { ctype: String },
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Code {
    Exact(u16),
    Range(u16),
    Default,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Content {
    None,
    Json(Ty),
    Raw(String),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Resp {
    pub code: Code,
    pub content: Content,
    pub by_ref: bool,
    /// a further media type listed before / after the JSON one
    pub extra: Option<(bool, String)>,
    /// parameters of the JSON media type
    #[serde(default)]
    pub suffix: String,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Op {
    pub id: Name,
    pub method: String,
    pub params: Vec<Param>,
    pub body: Option<Body>,
    pub responses: Vec<Resp>,
    pub tags: Vec<String>,
    pub paginated: bool,
    pub websocket: bool,
    /// what a first page needs, as the pagination extension says
    #[serde(default)]
    pub first: Vec<String>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Piece {
    Lit(String),
    Par(usize),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Item {
    /// Pieces of the template; the parameters' names are `pars[i]`.
    pub pieces: Vec<Piece>,
    pub pars: Vec<Name>,
    pub params: Vec<Param>,
    pub ops: Vec<Op>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Spec {
    pub title: String,
    pub version: String,
    pub tags: Vec<String>,
    pub items: Vec<Item>,
}

impl Item {
    pub fn template(&self) -> String {
        self.pieces
            .iter()
            .map(|p| match p {
                Piece::Lit(s) => s.clone(),
                Piece::Par(i) => format!("{{{}}}", self.pars[*i].api()),
            })
            .collect()
    }
    /// The parameters of an operation: its own, and the item's it does not redefine.
    pub fn effective<'a>(&'a self, op: &'a Op) -> Vec<&'a Param> {
        let mut v: Vec<&Param> = self
            .params
            .iter()
            .filter(|p| !op.params.iter().any(|q| q.loc == p.loc && q.name.api() == p.name.api()))
            .chain(&op.params)
            .collect();
        let pos = |p: &Param| -> usize {
            self.pieces
                .iter()
                .position(|x| matches!(x, Piece::Par(i) if self.pars[*i].api() == p.name.api()))
                .unwrap_or(usize::MAX)
        };
        // template order, then query parameters by name, then headers by name
        v.sort_by_key(|p| (p.loc, if p.loc == Loc::Path { pos(p) } else { 0 }, p.name.api()));
        v
    }
}

impl Spec {
    pub fn all_ops(&self) -> impl Iterator<Item = (&Item, &Op)> {
        self.items.iter().flat_map(|i| i.ops.iter().map(move |o| (i, o)))
    }
    pub fn valid(&self) -> bool {
        self.problem().is_none()
    }
    pub fn problem(&self) -> Option<&'static str> {
        let mut ids = BTreeSet::new();
        let mut templates = BTreeSet::new();
        for i in &self.items {
            if i.ops.is_empty() {
                return Some("no operations");
            }
            if !i.pieces.iter().all(|p| match p {
                Piece::Lit(s) => !s.is_empty(),
                Piece::Par(x) => *x < i.pars.len(),
            }) || !i.pieces.first().is_some_and(|p| matches!(p, Piece::Lit(s) if s.starts_with('/')))
                || !i.pars.iter().all(Name::ok)
            {
                return Some("pieces");
            }
            let used: Vec<usize> = i.pieces.iter().filter_map(|p| if let Piece::Par(x) = p { Some(*x) } else { None }).collect();
            if used.len() != i.pars.len() || (0..used.len()).any(|k| used[..k].contains(&used[k])) {
                return Some("pieces");
            }
            if !templates.insert(i.template()) {
                return Some("templates");
            }
            for (k, o) in i.ops.iter().enumerate() {
                let e = i.effective(o);
                let names: BTreeSet<_> = e.iter().map(|p| p.name.words.join("_")).collect();
                let unique = |v: &[Param]| {
                    (0..v.len()).all(|x| v[..x].iter().all(|q| q.name.api() != v[x].name.api()))
                };
                if !o.id.ok() || o.id.words.len() < 2 || !ids.insert(o.id.words.join("_")) {
                    return Some("operation id");
                }
                if !METHODS.contains(&o.method.as_str()) || i.ops[..k].iter().any(|p| p.method == o.method) {
                    return Some("method");
                }
                if names.len() != e.len() || !unique(&o.params) || !unique(&i.params) {
                    return Some("parameter names");
                }
                if !e.iter().all(|p| {
                    p.name.ok()
                        && match p.loc {
                            Loc::Path => p.required && !p.nullable && p.ty.scalar(),
                            Loc::Header => p.ty.scalar() && !p.nullable,
                            Loc::Query => p.ty.scalar() || ARRAYS.contains(&p.ty) || p.ty == Flat && !p.nullable,
                        }
                }) {
                    return Some("parameter");
                }
                if e.iter().filter(|p| p.loc == Loc::Path).count() != i.pieces.iter().filter(|p| matches!(p, Piece::Par(_))).count()
                    || !i.pieces.iter().all(|p| match p {
                        Piece::Par(x) => e.iter().any(|q| q.loc == Loc::Path && q.name == i.pars[*x]),
                        _ => true,
                    })
                {
                    return Some("path parameters");
                }
                if !responses_ok(o) {
                    return Some("responses");
                }
                if !match (&o.body, o.paginated) {
                    (Some(_), true) => false,
                    (Some(Body::Form { ty }), _) => *ty == Flat,
                    (Some(Body::Json { ctype, .. }), _) => ctype.split(';').next() == Some("application/json"),
                    (Some(Body::Text { ctype }), _) => ctype.starts_with("text/plain") || ctype.starts_with("text/x-markdown"),
                    _ => true,
                } {
                    return Some("body");
                }
                if o.paginated && !pagination_ok(o, &e) {
                    return Some("pagination");
                }
                let ws = |r: &[Resp]| r.len() == 1 && r[0].code == Code::Default && r[0].content == Content::Raw("*/*".into());
                if o.websocket && !(ws(&o.responses) && o.body.is_none() && !o.paginated) {
                    return Some("websocket");
                }
            }
        }
        None
    }

    pub fn json(&self) -> Value {
        let mut params = Map::new();
        let mut bodies = Map::new();
        let mut responses = Map::new();
        let mut paths = Map::new();
        let param = |p: &Param, key: String, params: &mut Map<String, Value>| -> Value {
            let mut schema = p.ty.schema();
            if p.nullable {
                schema = match schema.get("$ref") {
                    Some(_) => json!({"nullable": true, "allOf": [schema]}),
                    None => {
                        schema["nullable"] = json!(true);
                        schema
                    }
                };
            }
            let loc = match p.loc {
                Loc::Path => "path",
                Loc::Query => "query",
                Loc::Header => "header",
            };
            let mut v = json!({"name": p.name.api(), "in": loc, "schema": schema});
            if p.required {
                v["required"] = json!(true);
            }
            if p.by_ref {
                params.insert(key.clone(), v);
                json!({"$ref": format!("#/components/parameters/{key}")})
            } else {
                v
            }
        };
        for (ii, i) in self.items.iter().enumerate() {
            let mut item = Map::new();
            if !i.params.is_empty() {
                let v: Vec<Value> = i.params.iter().enumerate().map(|(k, p)| param(p, format!("I{ii}P{k}"), &mut params)).collect();
                item.insert("parameters".into(), json!(v));
            }
            for (oi, o) in i.ops.iter().enumerate() {
                let mut op = Map::new();
                op.insert("operationId".into(), json!(o.id.api()));
                if !o.tags.is_empty() {
                    op.insert("tags".into(), json!(o.tags));
                }
                if !o.params.is_empty() {
                    let v: Vec<Value> =
                        o.params.iter().enumerate().map(|(k, p)| param(p, format!("I{ii}O{oi}P{k}"), &mut params)).collect();
                    op.insert("parameters".into(), json!(v));
                }
                if let Some(b) = &o.body {
                    let raw = json!({"schema": {"type": "string"}});
                    let (ct, media, by_ref) = match b {
                        Body::Json { ty, by_ref, ctype } => (ctype.clone(), json!({"schema": ty.schema()}), *by_ref),
                        Body::Inline { by_ref } => ("application/json".into(), json!({"schema": inline_schema()}), *by_ref),
                        Body::Form { ty } => ("application/x-www-form-urlencoded".into(), json!({"schema": ty.schema()}), false),
                        Body::Octet => ("application/octet-stream".into(), json!({"schema": {"type": "string", "format": "binary"}}), false),
                        Body::Text { ctype } => (ctype.clone(), raw, false),
                    };
                    let v = json!({"required": true, "content": {ct: media}});
                    if by_ref {
                        let key = format!("I{ii}O{oi}B");
                        bodies.insert(key.clone(), v);
                        op.insert("requestBody".into(), json!({"$ref": format!("#/components/requestBodies/{key}")}));
                    } else {
                        op.insert("requestBody".into(), v);
                    }
                }
                let mut rs = Map::new();
                for (k, r) in o.responses.iter().enumerate() {
                    let mut v = json!({"description": format!("answer {k}")});
                    let mut content: Vec<(String, Value)> = match &r.content {
                        Content::None => vec![],
                        Content::Json(t) => vec![(format!("application/json{}", r.suffix), json!({"schema": t.schema()}))],
                        Content::Raw(ct) => vec![(ct.clone(), json!({"schema": {"type": "string", "format": "binary"}}))],
                    };
                    if let Some((before, ct)) = &r.extra {
                        let e = (ct.clone(), json!({"schema": {"type": "string"}}));
                        if *before {
                            content.insert(0, e);
                        } else {
                            content.push(e);
                        }
                    }
                    if !content.is_empty() {
                        v["content"] = Value::Object(content.into_iter().collect());
                    }
                    let code = match r.code {
                        Code::Exact(c) => c.to_string(),
                        Code::Range(c) => format!("{c}XX"),
                        Code::Default => "default".into(),
                    };
                    if r.by_ref {
                        let key = format!("I{ii}O{oi}R{k}");
                        responses.insert(key.clone(), v);
                        rs.insert(code, json!({"$ref": format!("#/components/responses/{key}")}));
                    } else {
                        rs.insert(code, v);
                    }
                }
                op.insert("responses".into(), rs.into());
                if o.paginated {
                    op.insert("x-dropshot-pagination".into(), json!({"required": o.first}));
                }
                if o.websocket {
                    op.insert("x-dropshot-websocket".into(), json!({}));
                }
                item.insert(o.method.clone(), op.into());
            }
            paths.insert(i.template(), item.into());
        }
        let mut c = json!({"schemas": components()});
        for (k, m) in [("parameters", params), ("requestBodies", bodies), ("responses", responses)] {
            if !m.is_empty() {
                c[k] = m.into();
            }
        }
        let tags: Vec<Value> = self.tags.iter().map(|t| json!({"name": t, "description": format!("about {t}")})).collect();
        json!({
            "openapi": "3.0.3",
            "info": {"title": self.title, "version": self.version},
            "tags": tags,
            "paths": paths,
            "components": c,
        })
    }
    pub fn openapi(&self) -> openapiv3::OpenAPI {
        serde_json::from_value(self.json()).expect("check: document")
    }
}

pub fn inline_schema() -> Value {
    json!({"type": "object", "required": ["one"], "properties": {"one": {"type": "string"}, "two": {"type": "integer", "format": "int64"}}})
}
pub fn inline_value(r: &mut Rng) -> Value {
    let mut m = json!({"one": text(r)});
    if r.chance(50) {
        m["two"] = I64.value(r);
    }
    m
}

pub const METHODS: &[&str] = &["get", "put", "post", "delete", "head", "patch", "options", "trace"];

// ----------------------------------------------------- response categories

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Unit,
    Json(Ty),
    Raw,
    Upgrade,
}
pub fn kind(c: &Content) -> Kind {
    match c {
        Content::None => Kind::Unit,
        Content::Json(t) => Kind::Json(*t),
        Content::Raw(_) => Kind::Raw,
    }
}
impl Code {
    fn success(self) -> bool {
        matches!(self, Code::Exact(200..=299) | Code::Range(2) | Code::Default)
    }
    fn error(self) -> bool {
        matches!(self, Code::Exact(400..=599) | Code::Range(4 | 5) | Code::Default)
    }
    fn covers(self, status: u16) -> bool {
        match self {
            Code::Exact(c) => c == status,
            Code::Range(r) => status / 100 == r,
            Code::Default => true,
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok(Kind),
    ErrorResponse(Kind),
    Unexpected,
    /// The description does not settle it.
    Open,
}
impl Op {
    /// What a response with this status is, from the document.
    pub fn outcome(&self, status: u16) -> Outcome {
        if self.websocket {
            return match status {
                101 => Outcome::Ok(Kind::Upgrade),
                _ => Outcome::Unexpected,
            };
        }
        let mut best: Option<&Resp> = None;
        for r in self.responses.iter().filter(|r| r.code.covers(status)) {
            let rank = |r: &Resp| match r.code {
                Code::Exact(_) => 0,
                Code::Range(_) => 1,
                Code::Default => 2,
            };
            if best.is_none_or(|b| rank(r) < rank(b)) {
                best = Some(r);
            }
        }
        let none_success = !self.responses.iter().any(|r| r.code.success());
        match (best, status) {
            (Some(r), 200..=299) => Outcome::Ok(kind(&r.content)),
            (None, 200..=299) if none_success => Outcome::Ok(Kind::Raw),
            // statuses outside the error classes are errors only by default
            (Some(r), s) if (400..600).contains(&s) || r.code == Code::Default => Outcome::ErrorResponse(kind(&r.content)),
            // documented, but neither success nor error: a default, where
            // there is one, is left to claim it or not
            (Some(_), _) if self.responses.iter().any(|r| r.code == Code::Default) => Outcome::Open,
            _ => Outcome::Unexpected,
        }
    }
    pub fn success_kind(&self) -> Kind {
        if self.websocket {
            return Kind::Upgrade;
        }
        let range = self.responses.iter().any(|r| r.code == Code::Range(2));
        let one = self
            .responses
            .iter()
            .filter(|r| r.code.success() && !(range && r.code == Code::Default))
            .map(|r| kind(&r.content))
            .next();
        one.unwrap_or(Kind::Raw)
    }
    pub fn error_kind(&self) -> Kind {
        self.responses.iter().filter(|r| r.code.error()).map(|r| kind(&r.content)).next().unwrap_or(Kind::Unit)
    }
}
/// One success type and one error type: what the generator supports.
fn responses_ok(o: &Op) -> bool {
    let codes: Vec<Code> = o.responses.iter().map(|r| r.code).collect();
    if (0..codes.len()).any(|i| codes[..i].contains(&codes[i])) {
        return false;
    }
    if codes.iter().any(|c| match c {
        Code::Exact(c) => !(200..600).contains(c),
        Code::Range(c) => !(2..6).contains(c),
        Code::Default => false,
    }) {
        return false;
    }
    let range2 = codes.contains(&Code::Range(2));
    let s: Vec<Kind> = o
        .responses
        .iter()
        .filter(|r| r.code.success() && !(range2 && r.code == Code::Default))
        .map(|r| kind(&r.content))
        .collect();
    let e: Vec<Kind> = o.responses.iter().filter(|r| r.code.error()).map(|r| kind(&r.content)).collect();
    s.windows(2).all(|w| w[0] == w[1]) && e.windows(2).all(|w| w[0] == w[1])
        && o.responses.iter().all(|r| match (&r.content, &r.extra) {
            (Content::None, Some(_)) => false,
            (Content::Raw(c), e) => c != "application/json" && !c.starts_with("application/json;") && e.is_none(),
            (Content::Json(_), e) => (r.suffix.is_empty() || r.suffix.starts_with(';')) && e.as_ref().is_none_or(|e| !e.1.starts_with("application/json")),
            _ => true,
        })
}
fn pagination_ok(o: &Op, e: &[&Param]) -> bool {
    let have = |n: &str, t: Ty| e.iter().any(|p| p.loc == Loc::Query && p.name.api() == n && p.ty == t);
    e.iter().all(|p| p.loc != Loc::Query || p.optional())
        && (have("limit", U32) || have("limit", Nz))
        && have("page_token", Str)
        && o.responses.iter().filter(|r| r.code.success()).count() == 1
        && o.success_kind() == Kind::Json(Page)
}

// -------------------------------------------------------------- generation

#[derive(Clone, Copy)]
pub struct Knobs {
    pub items: usize,
    pub params: u32,
    pub bodies: u32,
    pub responses: bool,
    pub paginated: u32,
    pub websocket: u32,
    pub options_trace: bool,
    pub tricky: bool,
}
impl Default for Knobs {
    fn default() -> Self {
        Knobs { items: 6, params: 100, bodies: 45, responses: true, paginated: 15, websocket: 4, options_trace: true, tricky: true }
    }
}

fn param(r: &mut Rng, k: Knobs, loc: Loc, used: &mut BTreeSet<String>) -> Param {
    let styles: &[u8] = match loc {
        Loc::Header => &[1, 5],
        _ => &[0, 0, 1, 2, 3, 4],
    };
    let name = name(r, k.tricky, styles, used);
    let ty = match loc {
        Loc::Query => match r.below(10) {
            0..=6 => *r.pick(SCALARS),
            7 | 8 => *r.pick(ARRAYS),
            _ => Flat,
        },
        _ => *r.pick(SCALARS),
    };
    let required = loc == Loc::Path || r.chance(50);
    Param { name, loc, required, ty, nullable: loc == Loc::Query && ty != Flat && r.chance(12), by_ref: r.chance(20) }
}

pub fn responses(r: &mut Rng) -> Vec<Resp> {
    let content = |r: &mut Rng| match r.below(10) {
        0 | 1 => Content::None,
        2 => Content::Raw(r.pick(&["text/plain", "application/octet-stream", "*/*", "image/png", "application/jsonx", "application/problem+json"]).to_string()),
        _ => Content::Json(*r.pick(&[Widget, Widget, Nested, Flat, WidgetArr, NestedArr, Map, Str, I64, Color, Bool, Uuid, StrArr, F64])),
    };
    let (sc, ec) = (content(r), content(r));
    let mut v = vec![];
    let mut push = |r: &mut Rng, code: Code, c: &Content| {
        let c = match c {
            // raw content of any type is the same kind
            Content::Raw(_) if r.chance(30) => Content::Raw("application/x-tar".into()),
            c => c.clone(),
        };
        let extra = (matches!(c, Content::Json(_)) && r.chance(15)).then(|| (r.chance(50), r.pick(&["text/csv", "application/cbor", "application/problem+json"]).to_string()));
        let suffix = if matches!(c, Content::Json(_)) && r.chance(15) { r.pick(&["; charset=utf-8", ";charset=UTF-8", "; version=1", ";v=2"]).to_string() } else { String::new() };
        v.push(Resp { code, content: c, by_ref: r.chance(15), extra, suffix })
    };
    let default_only = r.chance(12);
    if default_only {
        push(r, Code::Default, &sc);
        return v;
    }
    let mut default_ok = true;
    match r.below(12) {
        0..=5 => {
            let c = *r.pick(&[200, 201, 202, 203, 299, 206]);
            push(r, Code::Exact(c), &sc);
            default_ok = kind(&sc) == kind(&ec);
        }
        6 | 7 => push(r, Code::Range(2), &sc),
        8 => {
            push(r, Code::Exact(200), &sc);
            push(r, Code::Exact(201), &sc);
            default_ok = kind(&sc) == kind(&ec);
        }
        9 => {
            push(r, Code::Exact(204), &Content::None);
            default_ok = ec == Content::None;
        }
        10 => {
            push(r, Code::Range(2), &sc);
            push(r, Code::Exact(*r.clone().pick(&[200, 202, 299])), &sc);
        }
        _ => default_ok = true,
    }
    match r.below(8) {
        0 | 1 => {
            push(r, Code::Range(4), &ec);
            push(r, Code::Range(5), &ec);
        }
        2 => push(r, Code::Exact(404), &ec),
        3 => {
            push(r, Code::Range(4), &ec);
            push(r, Code::Exact(*r.clone().pick(&[400, 404, 503, 599])), &ec);
        }
        4 => push(r, Code::Range(5), &ec),
        _ => {}
    }
    if default_ok && r.chance(35) {
        push(r, Code::Default, &ec);
    }
    if r.chance(10) {
        let c = content(r);
        push(r, Code::Exact(*r.clone().pick(&[304, 307, 399])), &c);
    }
    if r.chance(4) {
        let c = content(r);
        push(r, Code::Range(3), &c);
    }
    r.shuffle(&mut v);
    v
}

pub fn spec(r: &mut Rng, k: Knobs) -> Spec {
    loop {
        let s = spec_try(r, k);
        match s.problem() {
            None => return s,
            Some(p) => {
                if std::env::var("DOC_DEBUG").is_ok() {
                    eprintln!("discarded: {p}")
                }
            }
        }
    }
}
fn spec_try(r: &mut Rng, k: Knobs) -> Spec {
    let tags: Vec<String> = ["disks", "vpc-routers", "Silos", "system/status"].iter().map(|s| s.to_string()).collect();
    let mut ids = BTreeSet::new();
    let mut items = vec![];
    for n in 0..k.items {
        let mut used = BTreeSet::from(["body".to_string()]);
        let mut pieces = vec![];
        let mut pars = vec![];
        let lit = |r: &mut Rng| {
            r.pick(&["/v1", "/things", "/a.b", "/x-y", "/d%20e", "/k=v", "/a@b", "/p,q", "/~me", "/Caps", "/with+plus", "/co:lon", "/é", "/q'uote"]).to_string()
        };
        let mut cur = format!("{}/n{}", lit(r), ["zero", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine"][n % 10]);
        if k.params > 0 {
            for _ in 0..r.below(4) {
                match r.below(6) {
                    0 => cur += &lit(r),
                    1..=3 => {
                        if !cur.ends_with('/') {
                            cur += "/";
                        }
                        pieces.push(Piece::Lit(std::mem::take(&mut cur)));
                        pieces.push(Piece::Par(pars.len()));
                        pars.push(name(r, k.tricky, &[0, 0, 1, 2, 3], &mut used));
                    }
                    _ => {
                        if !cur.is_empty() {
                            cur += r.pick(&["/pre-", ":", "/sub/", ".json", "/"]);
                            pieces.push(Piece::Lit(std::mem::take(&mut cur)));
                        }
                        pieces.push(Piece::Par(pars.len()));
                        pars.push(name(r, k.tricky, &[0, 0, 1, 2, 3], &mut used));
                    }
                }
            }
            if r.chance(30) {
                cur += r.pick(&["/tail", "/", ".json", ":action", "/x/y"]);
            }
        }
        if !cur.is_empty() {
            pieces.push(Piece::Lit(cur));
        }
        // collapsed slashes are P19's
        for p in &mut pieces {
            if let Piece::Lit(s) = p {
                while s.contains("//") {
                    *s = s.replace("//", "/")
                }
            }
        }
        let path_param = |r: &mut Rng, n: &Name| Param {
            name: n.clone(),
            loc: Loc::Path,
            required: true,
            ty: *r.pick(SCALARS),
            nullable: false,
            by_ref: r.chance(20),
        };
        let mut params = vec![];
        let shared = r.chance(45);
        if shared {
            for n in &pars {
                params.push(path_param(r, n));
            }
        }
        if k.params > 0 && r.chance(40) {
            for _ in 0..1 + r.below(2) {
                let loc = *r.pick(&[Loc::Query, Loc::Query, Loc::Header]);
                params.push(param(r, k, loc, &mut used));
            }
        }
        let mut methods: Vec<&str> = METHODS[..if k.options_trace { 8 } else { 6 }].to_vec();
        r.shuffle(&mut methods);
        let mut ops = vec![];
        for m in methods.into_iter().take(1 + r.below(2)) {
            let mut used = used.clone();
            let mut own = vec![];
            for n in &pars {
                if !shared || r.chance(15) {
                    own.push(path_param(r, n));
                }
            }
            if k.params > 0 {
                // redefinitions of the item's parameters
                for p in params.iter().filter(|p| p.loc != Loc::Path) {
                    if r.chance(30) {
                        let mut q = param(r, k, p.loc, &mut used);
                        q.name = p.name.clone();
                        own.push(q);
                    }
                }
                for _ in 0..r.weighted(&[3, 3, 3, 2, 1]) {
                    let loc = *r.pick(&[Loc::Query, Loc::Query, Loc::Header]);
                    own.push(param(r, k, loc, &mut used));
                }
            }
            r.shuffle(&mut own);
            let websocket = m == "get" && r.chance(k.websocket);
            let paginated = !websocket && r.chance(k.paginated);
            if paginated {
                for p in own.iter_mut().chain(&mut params).filter(|p| p.loc == Loc::Query) {
                    p.required = false;
                }
            }
            let body = (!paginated && !websocket && m != "trace" && m != "head" && r.chance(k.bodies)).then(|| match r.below(8) {
                0..=3 => Body::Json {
                    ty: *r.pick(&[Widget, Widget, Nested, Flat, NestedArr, Map, Str, StrArr]),
                    by_ref: r.chance(20),
                    ctype: if r.chance(15) { "application/json; charset=utf-8".into() } else { "application/json".into() },
                },
                4 => Body::Inline { by_ref: r.chance(20) },
                5 => Body::Form { ty: Flat },
                6 => Body::Octet,
                _ => Body::Text { ctype: r.pick(&["text/plain", "text/x-markdown", "text/plain; charset=utf-8"]).to_string() },
            });
            if paginated {
                for (w, ty) in [(&["limit"][..], U32), (&["page", "token"][..], Str)] {
                    let name = Name { words: w.iter().map(|s| s.to_string()).collect(), style: 0 };
                    own.push(Param { name, loc: Loc::Query, required: r.chance(15), ty, nullable: true, by_ref: r.chance(10) });
                }
                r.shuffle(&mut own);
            }
            let rs = if websocket {
                vec![Resp { code: Code::Default, content: Content::Raw("*/*".into()), by_ref: r.chance(20), extra: None, suffix: String::new() }]
            } else if paginated {
                let code = if r.chance(80) { Code::Exact(200) } else { Code::Range(2) };
                let mut v = vec![Resp { code, content: Content::Json(Page), by_ref: r.chance(20), extra: None, suffix: String::new() }];
                if r.chance(70) {
                    for c in [4, 5] {
                        v.push(Resp { code: Code::Range(c), content: Content::Json(Flat), by_ref: true, extra: None, suffix: String::new() });
                    }
                }
                v
            } else if k.responses {
                responses(r)
            } else {
                vec![Resp { code: Code::Exact(204), content: Content::None, by_ref: false, extra: None, suffix: String::new() }]
            };
            let mut id = name(r, false, &[0, 0, 1, 2, 3, 4], &mut BTreeSet::new());
            id.words.insert(0, "op".into());
            while !ids.insert(id.words.join("_")) {
                id.words.push(r.pick(WORDS).to_string());
            }
            let mut t = tags.clone();
            r.shuffle(&mut t);
            t.truncate(r.weighted(&[1, 4, 1]));
            ops.push(Op { id, method: m.into(), params: own, body, responses: rs, tags: t, paginated, websocket, first: vec![] });
        }
        items.push(Item { pieces, pars, params, ops });
    }
    let mut s = Spec { title: "Generated".into(), version: r.pick(&["1.0.0", "v2-beta", "2024-01-01", "0"]).to_string(), tags, items };
    // what pagination made optional must not be required by a sibling's view
    for i in &mut s.items {
        if i.ops.iter().any(|o| o.paginated) {
            for p in i.params.iter_mut().filter(|p| p.loc == Loc::Query) {
                p.required = false;
            }
        }
    }
    s
}
