//! A stand-in for the `openapiv3` crate (2.0), which is not available
//! offline: the part of its data model that progenitor uses, written from its
//! documented shape. Documents go in through serde, as with the real crate.
use indexmap::IndexMap;
use serde::de::{DeserializeOwned, Error as _};
use serde::{Deserialize, Deserializer};
use serde_json::{Map, Value};

type Ext = IndexMap<String, Value>;

fn take_ext<'de, D: Deserializer<'de>>(d: D) -> Result<Ext, D::Error> {
    // Flattened: sees every field no other field claimed.
    let all = Map::deserialize(d)?;
    Ok(all.into_iter().filter(|(k, _)| k.starts_with("x-")).collect())
}

#[derive(Debug, Clone, PartialEq, Default, Deserialize)]
pub struct OpenAPI {
    pub openapi: String,
    pub info: Info,
    #[serde(default)]
    pub servers: Vec<Value>,
    pub paths: Paths,
    #[serde(default)]
    pub components: Option<Components>,
    #[serde(default)]
    pub security: Option<Value>,
    #[serde(default)]
    pub tags: Vec<Tag>,
    #[serde(rename = "externalDocs", default)]
    pub external_docs: Option<Value>,
    #[serde(flatten, deserialize_with = "take_ext")]
    pub extensions: Ext,
}

#[derive(Debug, Clone, PartialEq, Default, Deserialize)]
pub struct Info {
    pub title: String,
    #[serde(default)]
    pub description: Option<String>,
    #[serde(rename = "termsOfService", default)]
    pub terms_of_service: Option<String>,
    #[serde(default)]
    pub contact: Option<Value>,
    #[serde(default)]
    pub license: Option<Value>,
    pub version: String,
    #[serde(flatten, deserialize_with = "take_ext")]
    pub extensions: Ext,
}

#[derive(Debug, Clone, PartialEq, Default, Deserialize)]
pub struct Tag {
    pub name: String,
    #[serde(default)]
    pub description: Option<String>,
    #[serde(rename = "externalDocs", default)]
    pub external_docs: Option<ExternalDocumentation>,
    #[serde(flatten, deserialize_with = "take_ext")]
    pub extensions: Ext,
}

#[derive(Debug, Clone, PartialEq, Default, Deserialize)]
pub struct ExternalDocumentation {
    #[serde(default)]
    pub description: Option<String>,
    pub url: String,
}

#[derive(Debug, Clone, PartialEq)]
pub enum ReferenceOr<T> {
    Reference { reference: String },
    Item(T),
}

impl<'de, T: DeserializeOwned> Deserialize<'de> for ReferenceOr<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = Value::deserialize(d)?;
        if let Some(Value::String(r)) = v.get("$ref") {
            return Ok(ReferenceOr::Reference {
                reference: r.clone(),
            });
        }
        T::deserialize(v).map(ReferenceOr::Item).map_err(D::Error::custom)
    }
}

impl<T> ReferenceOr<T> {
    pub fn ref_(r: &str) -> Self {
        ReferenceOr::Reference {
            reference: r.to_owned(),
        }
    }
    pub fn boxed_item(item: T) -> ReferenceOr<Box<T>> {
        ReferenceOr::Item(Box::new(item))
    }
    pub fn into_item(self) -> Option<T> {
        match self {
            ReferenceOr::Reference { .. } => None,
            ReferenceOr::Item(i) => Some(i),
        }
    }
    pub fn as_item(&self) -> Option<&T> {
        match self {
            ReferenceOr::Reference { .. } => None,
            ReferenceOr::Item(i) => Some(i),
        }
    }
}

impl<T> ReferenceOr<T> {
    pub fn as_mut(&mut self) -> Option<&mut T> {
        match self {
            ReferenceOr::Reference { .. } => None,
            ReferenceOr::Item(i) => Some(i),
        }
    }
}
impl<T> From<T> for ReferenceOr<T> {
    fn from(item: T) -> Self {
        ReferenceOr::Item(item)
    }
}

impl<T> ReferenceOr<Box<T>> {
    pub fn unbox(self) -> ReferenceOr<T> {
        match self {
            ReferenceOr::Reference { reference } => ReferenceOr::Reference { reference },
            ReferenceOr::Item(b) => ReferenceOr::Item(*b),
        }
    }
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Paths {
    pub paths: IndexMap<String, ReferenceOr<PathItem>>,
    pub extensions: Ext,
}

impl<'de> Deserialize<'de> for Paths {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let all = IndexMap::<String, Value>::deserialize(d)?;
        let mut out = Paths::default();
        for (k, v) in all {
            if k.starts_with("x-") {
                out.extensions.insert(k, v);
            } else if k.starts_with('/') {
                let item = ReferenceOr::<PathItem>::deserialize(v).map_err(D::Error::custom)?;
                out.paths.insert(k, item);
            }
        }
        Ok(out)
    }
}

impl IntoIterator for Paths {
    type Item = (String, ReferenceOr<PathItem>);
    type IntoIter = indexmap::map::IntoIter<String, ReferenceOr<PathItem>>;
    fn into_iter(self) -> Self::IntoIter {
        self.paths.into_iter()
    }
}
impl OpenAPI {
    pub fn operations(&self) -> impl Iterator<Item = (&str, &str, &Operation, &PathItem)> {
        self.paths
            .iter()
            .filter_map(|(path, item)| item.as_item().map(|i| (path, i)))
            .flat_map(|(path, item)| item.iter().map(move |(m, o)| (path.as_str(), m, o, item)))
    }
}
impl Paths {
    pub fn iter(&self) -> indexmap::map::Iter<'_, String, ReferenceOr<PathItem>> {
        self.paths.iter()
    }
}

#[derive(Debug, Clone, PartialEq, Default, Deserialize)]
pub struct PathItem {
    #[serde(default)]
    pub summary: Option<String>,
    #[serde(default)]
    pub description: Option<String>,
    #[serde(default)]
    pub get: Option<Operation>,
    #[serde(default)]
    pub put: Option<Operation>,
    #[serde(default)]
    pub post: Option<Operation>,
    #[serde(default)]
    pub delete: Option<Operation>,
    #[serde(default)]
    pub options: Option<Operation>,
    #[serde(default)]
    pub head: Option<Operation>,
    #[serde(default)]
    pub patch: Option<Operation>,
    #[serde(default)]
    pub trace: Option<Operation>,
    #[serde(default)]
    pub servers: Vec<Value>,
    #[serde(default)]
    pub parameters: Vec<ReferenceOr<Parameter>>,
    #[serde(flatten, deserialize_with = "take_ext")]
    pub extensions: Ext,
}

impl PathItem {
    pub fn iter(&self) -> impl Iterator<Item = (&'static str, &Operation)> {
        vec![
            ("get", &self.get),
            ("put", &self.put),
            ("post", &self.post),
            ("delete", &self.delete),
            ("options", &self.options),
            ("head", &self.head),
            ("patch", &self.patch),
            ("trace", &self.trace),
        ]
        .into_iter()
        .filter_map(|(method, op)| op.as_ref().map(|op| (method, op)))
    }
}

impl IntoIterator for PathItem {
    type Item = (&'static str, Operation);
    type IntoIter = std::vec::IntoIter<Self::Item>;
    fn into_iter(self) -> Self::IntoIter {
        let all = [
            ("get", self.get),
            ("put", self.put),
            ("post", self.post),
            ("delete", self.delete),
            ("options", self.options),
            ("head", self.head),
            ("patch", self.patch),
            ("trace", self.trace),
        ];
        all.into_iter().filter_map(|(m, o)| o.map(|o| (m, o))).collect::<Vec<_>>().into_iter()
    }
}

#[derive(Debug, Clone, PartialEq, Default, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Operation {
    #[serde(default)]
    pub tags: Vec<String>,
    #[serde(default)]
    pub summary: Option<String>,
    #[serde(default)]
    pub description: Option<String>,
    #[serde(default)]
    pub external_docs: Option<ExternalDocumentation>,
    #[serde(default)]
    pub operation_id: Option<String>,
    #[serde(default)]
    pub parameters: Vec<ReferenceOr<Parameter>>,
    #[serde(default)]
    pub request_body: Option<ReferenceOr<RequestBody>>,
    #[serde(default)]
    pub callbacks: IndexMap<String, Value>,
    #[serde(default)]
    pub responses: Responses,
    #[serde(default)]
    pub deprecated: bool,
    #[serde(default)]
    pub security: Option<Value>,
    #[serde(default)]
    pub servers: Vec<Value>,
    #[serde(flatten, deserialize_with = "take_ext")]
    pub extensions: Ext,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum StatusCode {
    Code(u16),
    Range(u16),
}

impl std::fmt::Display for StatusCode {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            StatusCode::Code(n) => write!(f, "{}", n),
            StatusCode::Range(n) => write!(f, "{}XX", n),
        }
    }
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Responses {
    pub default: Option<ReferenceOr<Response>>,
    pub responses: IndexMap<StatusCode, ReferenceOr<Response>>,
    pub extensions: Ext,
}

impl<'de> Deserialize<'de> for Responses {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let all = IndexMap::<String, Value>::deserialize(d)?;
        let mut out = Responses::default();
        for (k, v) in all {
            if k.starts_with("x-") {
                out.extensions.insert(k, v);
                continue;
            }
            let r = ReferenceOr::<Response>::deserialize(v).map_err(D::Error::custom)?;
            if k == "default" {
                out.default = Some(r);
                continue;
            }
            let code = if let Ok(n) = k.parse::<u16>() {
                StatusCode::Code(n)
            } else if k.len() == 3
                && k.as_bytes()[0].is_ascii_digit()
                && k[1..].eq_ignore_ascii_case("xx")
            {
                StatusCode::Range((k.as_bytes()[0] - b'0') as u16)
            } else {
                return Err(D::Error::custom(format!("invalid status code {k:?}")));
            };
            out.responses.insert(code, r);
        }
        Ok(out)
    }
}

#[derive(Debug, Clone, PartialEq, Default, Deserialize)]
pub struct Response {
    #[serde(default)]
    pub description: String,
    #[serde(default)]
    pub headers: IndexMap<String, Value>,
    #[serde(default)]
    pub content: IndexMap<String, MediaType>,
    #[serde(default)]
    pub links: IndexMap<String, Value>,
    #[serde(flatten, deserialize_with = "take_ext")]
    pub extensions: Ext,
}

#[derive(Debug, Clone, PartialEq, Default, Deserialize)]
pub struct MediaType {
    #[serde(default)]
    pub schema: Option<ReferenceOr<Schema>>,
    #[serde(default)]
    pub example: Option<Value>,
    #[serde(default)]
    pub examples: IndexMap<String, Value>,
    #[serde(default)]
    pub encoding: IndexMap<String, Encoding>,
    #[serde(flatten, deserialize_with = "take_ext")]
    pub extensions: Ext,
}

#[derive(Debug, Clone, PartialEq, Default, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Encoding {
    #[serde(default)]
    pub content_type: Option<String>,
    #[serde(flatten, deserialize_with = "take_ext")]
    pub extensions: Ext,
}

#[derive(Debug, Clone, PartialEq, Default, Deserialize)]
pub struct RequestBody {
    #[serde(default)]
    pub description: Option<String>,
    #[serde(default)]
    pub content: IndexMap<String, MediaType>,
    #[serde(default)]
    pub required: bool,
    #[serde(flatten, deserialize_with = "take_ext")]
    pub extensions: Ext,
}

#[derive(Debug, Clone, PartialEq, Default, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Components {
    #[serde(default)]
    pub schemas: IndexMap<String, ReferenceOr<Schema>>,
    #[serde(default)]
    pub responses: IndexMap<String, ReferenceOr<Response>>,
    #[serde(default)]
    pub parameters: IndexMap<String, ReferenceOr<Parameter>>,
    #[serde(default)]
    pub request_bodies: IndexMap<String, ReferenceOr<RequestBody>>,
    #[serde(flatten, deserialize_with = "take_ext")]
    pub extensions: Ext,
}

#[derive(Debug, Clone, PartialEq)]
pub enum ParameterSchemaOrContent {
    Schema(ReferenceOr<Schema>),
    Content(IndexMap<String, MediaType>),
}

#[derive(Debug, Clone, PartialEq)]
pub struct ParameterData {
    pub name: String,
    pub description: Option<String>,
    pub required: bool,
    pub deprecated: Option<bool>,
    pub format: ParameterSchemaOrContent,
    pub example: Option<Value>,
    pub examples: IndexMap<String, Value>,
    pub explode: Option<bool>,
    pub extensions: Ext,
}

#[derive(Debug, Clone, PartialEq, Default)]
pub enum QueryStyle {
    #[default]
    Form,
    SpaceDelimited,
    PipeDelimited,
    DeepObject,
}
#[derive(Debug, Clone, PartialEq, Default)]
pub enum PathStyle {
    Matrix,
    Label,
    #[default]
    Simple,
}
#[derive(Debug, Clone, PartialEq, Default)]
pub enum HeaderStyle {
    #[default]
    Simple,
}
#[derive(Debug, Clone, PartialEq, Default)]
pub enum CookieStyle {
    #[default]
    Form,
}

fn style_of<T: Default + Clone>(v: Option<&Value>, all: &[(&str, T)]) -> Result<T, String> {
    match v {
        None => Ok(T::default()),
        Some(Value::String(s)) => all
            .iter()
            .find(|(n, _)| n == s)
            .map(|(_, t)| t.clone())
            .ok_or_else(|| format!("bad style {s}")),
        Some(x) => Err(format!("bad style {x}")),
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Parameter {
    Query {
        parameter_data: ParameterData,
        allow_reserved: bool,
        style: QueryStyle,
        allow_empty_value: Option<bool>,
    },
    Header {
        parameter_data: ParameterData,
        style: HeaderStyle,
    },
    Path {
        parameter_data: ParameterData,
        style: PathStyle,
    },
    Cookie {
        parameter_data: ParameterData,
        style: CookieStyle,
    },
}

impl Parameter {
    pub fn parameter_data(self) -> ParameterData {
        match self {
            Parameter::Query { parameter_data, .. }
            | Parameter::Header { parameter_data, .. }
            | Parameter::Path { parameter_data, .. }
            | Parameter::Cookie { parameter_data, .. } => parameter_data,
        }
    }
    pub fn parameter_data_ref(&self) -> &ParameterData {
        match self {
            Parameter::Query { parameter_data, .. }
            | Parameter::Header { parameter_data, .. }
            | Parameter::Path { parameter_data, .. }
            | Parameter::Cookie { parameter_data, .. } => parameter_data,
        }
    }
}

impl<'de> Deserialize<'de> for Parameter {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        parameter(Map::deserialize(d)?).map_err(D::Error::custom)
    }
}

fn get<T: DeserializeOwned>(m: &Map<String, Value>, k: &str) -> Result<Option<T>, String> {
    match m.get(k) {
        None => Ok(None),
        Some(v) => T::deserialize(v.clone())
            .map(Some)
            .map_err(|e| format!("{k}: {e}")),
    }
}

fn parameter(m: Map<String, Value>) -> Result<Parameter, String> {
    let format = match (m.get("schema"), m.get("content")) {
        (Some(s), None) => ParameterSchemaOrContent::Schema(
            ReferenceOr::deserialize(s.clone()).map_err(|e| e.to_string())?,
        ),
        (None, Some(c)) => ParameterSchemaOrContent::Content(
            IndexMap::deserialize(c.clone()).map_err(|e| e.to_string())?,
        ),
        _ => return Err("parameter needs schema or content".into()),
    };
    let parameter_data = ParameterData {
        name: get(&m, "name")?.ok_or("missing field `name`")?,
        description: get(&m, "description")?,
        required: get(&m, "required")?.unwrap_or(false),
        deprecated: get(&m, "deprecated")?,
        format,
        example: m.get("example").cloned(),
        examples: get(&m, "examples")?.unwrap_or_default(),
        explode: get(&m, "explode")?,
        extensions: ext(&m),
    };
    let st = m.get("style");
    Ok(match m.get("in").and_then(Value::as_str) {
        Some("query") => Parameter::Query {
            parameter_data,
            allow_reserved: get(&m, "allowReserved")?.unwrap_or(false),
            style: style_of(
                st,
                &[
                    ("form", QueryStyle::Form),
                    ("spaceDelimited", QueryStyle::SpaceDelimited),
                    ("pipeDelimited", QueryStyle::PipeDelimited),
                    ("deepObject", QueryStyle::DeepObject),
                ],
            )?,
            allow_empty_value: get(&m, "allowEmptyValue")?,
        },
        Some("header") => Parameter::Header {
            parameter_data,
            style: style_of(st, &[("simple", HeaderStyle::Simple)])?,
        },
        Some("path") => Parameter::Path {
            parameter_data,
            style: style_of(
                st,
                &[
                    ("matrix", PathStyle::Matrix),
                    ("label", PathStyle::Label),
                    ("simple", PathStyle::Simple),
                ],
            )?,
        },
        Some("cookie") => Parameter::Cookie {
            parameter_data,
            style: style_of(st, &[("form", CookieStyle::Form)])?,
        },
        other => return Err(format!("bad parameter location {other:?}")),
    })
}

fn ext(m: &Map<String, Value>) -> Ext {
    m.iter()
        .filter(|(k, _)| k.starts_with("x-"))
        .map(|(k, v)| (k.clone(), v.clone()))
        .collect()
}

// ---------------------------------------------------------------- schemas

#[derive(Debug, Clone, PartialEq, Default)]
pub struct SchemaData {
    pub nullable: bool,
    pub read_only: bool,
    pub write_only: bool,
    pub deprecated: bool,
    pub external_docs: Option<ExternalDocumentation>,
    pub example: Option<Value>,
    pub title: Option<String>,
    pub description: Option<String>,
    pub discriminator: Option<Value>,
    pub default: Option<Value>,
    pub extensions: Ext,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Schema {
    pub schema_data: SchemaData,
    pub schema_kind: SchemaKind,
}

#[derive(Debug, Clone, PartialEq)]
pub enum SchemaKind {
    Type(Type),
    OneOf { one_of: Vec<ReferenceOr<Schema>> },
    AllOf { all_of: Vec<ReferenceOr<Schema>> },
    AnyOf { any_of: Vec<ReferenceOr<Schema>> },
    Not { not: Box<ReferenceOr<Schema>> },
    Any(AnySchema),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Type {
    String(StringType),
    Number(NumberType),
    Integer(IntegerType),
    Object(ObjectType),
    Array(ArrayType),
    Boolean(BooleanType),
}

#[derive(Debug, Clone, PartialEq)]
pub enum AdditionalProperties {
    Any(bool),
    Schema(Box<ReferenceOr<Schema>>),
}

impl<'de> Deserialize<'de> for AdditionalProperties {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        match Value::deserialize(d)? {
            Value::Bool(b) => Ok(AdditionalProperties::Any(b)),
            v => ReferenceOr::<Schema>::deserialize(v)
                .map(|s| AdditionalProperties::Schema(Box::new(s)))
                .map_err(D::Error::custom),
        }
    }
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct AnySchema {
    pub typ: Option<String>,
    pub pattern: Option<String>,
    pub multiple_of: Option<f64>,
    pub exclusive_minimum: Option<bool>,
    pub exclusive_maximum: Option<bool>,
    pub minimum: Option<f64>,
    pub maximum: Option<f64>,
    pub properties: IndexMap<String, ReferenceOr<Box<Schema>>>,
    pub required: Vec<String>,
    pub additional_properties: Option<AdditionalProperties>,
    pub min_properties: Option<usize>,
    pub max_properties: Option<usize>,
    pub items: Option<ReferenceOr<Box<Schema>>>,
    pub min_items: Option<usize>,
    pub max_items: Option<usize>,
    pub unique_items: Option<bool>,
    pub enumeration: Vec<Value>,
    pub format: Option<String>,
    pub min_length: Option<usize>,
    pub max_length: Option<usize>,
    pub one_of: Vec<ReferenceOr<Schema>>,
    pub all_of: Vec<ReferenceOr<Schema>>,
    pub any_of: Vec<ReferenceOr<Schema>>,
    pub not: Option<Box<ReferenceOr<Schema>>>,
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct StringType {
    pub format: VariantOrUnknownOrEmpty<StringFormat>,
    pub pattern: Option<String>,
    pub enumeration: Vec<Option<String>>,
    pub min_length: Option<usize>,
    pub max_length: Option<usize>,
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct NumberType {
    pub format: VariantOrUnknownOrEmpty<NumberFormat>,
    pub multiple_of: Option<f64>,
    pub exclusive_minimum: bool,
    pub exclusive_maximum: bool,
    pub minimum: Option<f64>,
    pub maximum: Option<f64>,
    pub enumeration: Vec<Option<f64>>,
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct IntegerType {
    pub format: VariantOrUnknownOrEmpty<IntegerFormat>,
    pub multiple_of: Option<i64>,
    pub exclusive_minimum: bool,
    pub exclusive_maximum: bool,
    pub minimum: Option<i64>,
    pub maximum: Option<i64>,
    pub enumeration: Vec<Option<i64>>,
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct ObjectType {
    pub properties: IndexMap<String, ReferenceOr<Box<Schema>>>,
    pub required: Vec<String>,
    pub additional_properties: Option<AdditionalProperties>,
    pub min_properties: Option<usize>,
    pub max_properties: Option<usize>,
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct ArrayType {
    pub items: Option<ReferenceOr<Box<Schema>>>,
    pub min_items: Option<usize>,
    pub max_items: Option<usize>,
    pub unique_items: bool,
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct BooleanType {
    pub enumeration: Vec<Option<bool>>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum VariantOrUnknownOrEmpty<T> {
    Item(T),
    Unknown(String),
    Empty,
}

impl<T> Default for VariantOrUnknownOrEmpty<T> {
    fn default() -> Self {
        VariantOrUnknownOrEmpty::Empty
    }
}

impl<T> VariantOrUnknownOrEmpty<T> {
    pub fn is_empty(&self) -> bool {
        matches!(self, VariantOrUnknownOrEmpty::Empty)
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum StringFormat {
    Date,
    DateTime,
    Password,
    Byte,
    Binary,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum NumberFormat {
    Float,
    Double,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum IntegerFormat {
    Int32,
    Int64,
}

fn fmt<T: Clone>(m: &Map<String, Value>, all: &[(&str, T)]) -> Result<VariantOrUnknownOrEmpty<T>, String> {
    Ok(match get::<String>(m, "format")? {
        None => VariantOrUnknownOrEmpty::Empty,
        Some(s) => match all.iter().find(|(n, _)| *n == s) {
            Some((_, t)) => VariantOrUnknownOrEmpty::Item(t.clone()),
            None => VariantOrUnknownOrEmpty::Unknown(s),
        },
    })
}

/// The keywords that take part in choosing a `SchemaKind`.
const KEYS: &[&str] = &[
    "type", "pattern", "multipleOf", "exclusiveMinimum", "exclusiveMaximum", "minimum", "maximum",
    "properties", "required", "additionalProperties", "minProperties", "maxProperties", "items",
    "minItems", "maxItems", "uniqueItems", "enum", "format", "minLength", "maxLength", "oneOf",
    "allOf", "anyOf", "not",
];

impl<'de> Deserialize<'de> for Schema {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        schema(Map::deserialize(d)?).map_err(D::Error::custom)
    }
}

fn int_or_whole(m: &Map<String, Value>, k: &str) -> Result<Option<i64>, String> {
    match m.get(k) {
        None => Ok(None),
        Some(v) => match v.as_i64() {
            Some(i) => Ok(Some(i)),
            None => match v.as_f64() {
                Some(f) if f.fract() == 0.0 && f.abs() < 9.2e18 => Ok(Some(f as i64)),
                _ => Err(format!("{k}: not an integer: {v}")),
            },
        },
    }
}

fn schema(m: Map<String, Value>) -> Result<Schema, String> {
    let schema_data = SchemaData {
        nullable: get(&m, "nullable")?.unwrap_or(false),
        read_only: get(&m, "readOnly")?.unwrap_or(false),
        write_only: get(&m, "writeOnly")?.unwrap_or(false),
        deprecated: get(&m, "deprecated")?.unwrap_or(false),
        external_docs: get(&m, "externalDocs")?,
        example: m.get("example").cloned(),
        title: get(&m, "title")?,
        description: get(&m, "description")?,
        discriminator: m.get("discriminator").cloned(),
        default: m.get("default").cloned(),
        extensions: ext(&m),
    };
    let present: Vec<&str> = KEYS.iter().copied().filter(|k| m.contains_key(*k)).collect();
    let only = |ks: &[&str]| present.iter().all(|p| ks.contains(p));
    let typ: Option<String> = get(&m, "type")?;
    // As in the real crate, the specific kinds are used where the document
    // uses only their keywords (and their values fit), else the catch-all.
    let kind = match typ.as_deref() {
        Some("string") if only(&["type", "format", "pattern", "enum", "minLength", "maxLength"]) => string_type(&m).ok().map(Type::String).map(SchemaKind::Type),
        Some("number")
            if only(&["type", "format", "multipleOf", "exclusiveMinimum", "exclusiveMaximum", "minimum", "maximum", "enum"]) =>
        {
            number_type(&m).ok().map(Type::Number).map(SchemaKind::Type)
        }
        Some("integer")
            if only(&["type", "format", "multipleOf", "exclusiveMinimum", "exclusiveMaximum", "minimum", "maximum", "enum"]) =>
        {
            integer_type(&m).ok().map(Type::Integer).map(SchemaKind::Type)
        }
        Some("object")
            if only(&["type", "properties", "required", "additionalProperties", "minProperties", "maxProperties"]) =>
        {
            Some(SchemaKind::Type(Type::Object(ObjectType {
                properties: get(&m, "properties")?.unwrap_or_default(),
                required: get(&m, "required")?.unwrap_or_default(),
                additional_properties: get(&m, "additionalProperties")?,
                min_properties: get(&m, "minProperties")?,
                max_properties: get(&m, "maxProperties")?,
            })))
        }
        Some("array") if only(&["type", "items", "minItems", "maxItems", "uniqueItems"]) => {
            Some(SchemaKind::Type(Type::Array(ArrayType {
                items: get(&m, "items")?,
                min_items: get(&m, "minItems")?,
                max_items: get(&m, "maxItems")?,
                unique_items: get(&m, "uniqueItems")?.unwrap_or(false),
            })))
        }
        Some("boolean") if only(&["type", "enum"]) => get(&m, "enum")
            .ok()
            .map(|e| SchemaKind::Type(Type::Boolean(BooleanType { enumeration: e.unwrap_or_default() }))),
        None if present == ["oneOf"] => Some(SchemaKind::OneOf { one_of: get(&m, "oneOf")?.unwrap() }),
        None if present == ["allOf"] => Some(SchemaKind::AllOf { all_of: get(&m, "allOf")?.unwrap() }),
        None if present == ["anyOf"] => Some(SchemaKind::AnyOf { any_of: get(&m, "anyOf")?.unwrap() }),
        None if present == ["not"] => Some(SchemaKind::Not { not: get(&m, "not")?.unwrap() }),
        _ => None,
    };
    let schema_kind = match kind {
        Some(k) => k,
        None => SchemaKind::Any(AnySchema {
            typ,
            pattern: get(&m, "pattern")?,
            multiple_of: get(&m, "multipleOf")?,
            exclusive_minimum: get(&m, "exclusiveMinimum")?,
            exclusive_maximum: get(&m, "exclusiveMaximum")?,
            minimum: get(&m, "minimum")?,
            maximum: get(&m, "maximum")?,
            properties: get(&m, "properties")?.unwrap_or_default(),
            required: get(&m, "required")?.unwrap_or_default(),
            additional_properties: get(&m, "additionalProperties")?,
            min_properties: get(&m, "minProperties")?,
            max_properties: get(&m, "maxProperties")?,
            items: get(&m, "items")?,
            min_items: get(&m, "minItems")?,
            max_items: get(&m, "maxItems")?,
            unique_items: get(&m, "uniqueItems")?,
            enumeration: get(&m, "enum")?.unwrap_or_default(),
            format: get(&m, "format")?,
            min_length: get(&m, "minLength")?,
            max_length: get(&m, "maxLength")?,
            one_of: get(&m, "oneOf")?.unwrap_or_default(),
            all_of: get(&m, "allOf")?.unwrap_or_default(),
            any_of: get(&m, "anyOf")?.unwrap_or_default(),
            not: get(&m, "not")?,
        }),
    };
    Ok(Schema { schema_data, schema_kind })
}

fn string_type(m: &Map<String, Value>) -> Result<StringType, String> {
    Ok(StringType {
        format: fmt(
            m,
            &[
                ("date", StringFormat::Date),
                ("date-time", StringFormat::DateTime),
                ("password", StringFormat::Password),
                ("byte", StringFormat::Byte),
                ("binary", StringFormat::Binary),
            ],
        )?,
        pattern: get(m, "pattern")?,
        enumeration: get(m, "enum")?.unwrap_or_default(),
        min_length: get(m, "minLength")?,
        max_length: get(m, "maxLength")?,
    })
}

fn number_type(m: &Map<String, Value>) -> Result<NumberType, String> {
    Ok(NumberType {
        format: fmt(m, &[("float", NumberFormat::Float), ("double", NumberFormat::Double)])?,
        multiple_of: get(m, "multipleOf")?,
        exclusive_minimum: get(m, "exclusiveMinimum")?.unwrap_or(false),
        exclusive_maximum: get(m, "exclusiveMaximum")?.unwrap_or(false),
        minimum: get(m, "minimum")?,
        maximum: get(m, "maximum")?,
        enumeration: get(m, "enum")?.unwrap_or_default(),
    })
}

fn integer_type(m: &Map<String, Value>) -> Result<IntegerType, String> {
    Ok(IntegerType {
        format: fmt(m, &[("int32", IntegerFormat::Int32), ("int64", IntegerFormat::Int64)])?,
        multiple_of: int_or_whole(m, "multipleOf")?,
        exclusive_minimum: get(m, "exclusiveMinimum")?.unwrap_or(false),
        exclusive_maximum: get(m, "exclusiveMaximum")?.unwrap_or(false),
        minimum: int_or_whole(m, "minimum")?,
        maximum: int_or_whole(m, "maximum")?,
        enumeration: get(m, "enum")?.unwrap_or_default(),
    })
}
