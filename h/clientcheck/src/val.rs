//! A dynamic value that can call every method of a serde serializer, and the
//! reference model of what it denotes as a list of name/value pairs.
use proptest::prelude::*;
use serde::ser::{
    SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple,
    SerializeTupleStruct, SerializeTupleVariant,
};
use serde::{Deserialize, Serialize, Serializer};
use vk::gen::{gen, Rng};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum V {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    /// through `collect_str`
    Disp(String),
    /// differs between human-readable and binary formats
    Readable(String),
    Uuid(u64, u64),
    Bytes(Vec<u8>),
    None,
    Some(Box<V>),
    Unit,
    UnitStruct,
    UnitVariant(String),
    Newtype(Box<V>),
    NewtypeVariant(String, Box<V>),
    Seq(Vec<V>, bool),
    Tuple(Vec<V>),
    TupleStruct(Vec<V>),
    TupleVariant(String, Vec<V>),
    /// `true`: entries through serialize_key + serialize_value, length unknown
    Map(Vec<(K, V)>, bool),
    Struct(Vec<(String, V)>),
    StructVariant(String, Vec<(String, V)>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum K {
    S(String),
    I(i64),
    C(char),
    B(bool),
}

pub fn leak(s: &str) -> &'static str {
    use std::cell::RefCell;
    use std::collections::HashSet;
    thread_local! { static POOL: RefCell<HashSet<&'static str>> = RefCell::new(HashSet::new()); }
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        if let Some(x) = p.get(s) {
            return *x;
        }
        let l: &'static str = Box::leak(s.to_string().into_boxed_str());
        p.insert(l);
        l
    })
}

/// Something about a value that its meaning does not depend on, fixed by its
/// text: which name or index a type has, which of two equal ways is taken.
fn whim(s: &str, n: usize) -> usize {
    s.bytes().fold(n, |h, b| h.wrapping_mul(31).wrapping_add(b as usize))
}
fn type_name(k: usize) -> &'static str {
    const N: &[&str] = &["Struct", "Newtype", "Enum", "Uuid", "Option", "Unit", "String", "Vec", "ByteBuf", "", "T", "name", "$serde_json::private::Number", "$serde_json::private::RawValue", "Inner", "type", "Map", "Query", "QueryParam", "Date"];
    N[k % N.len()]
}
/// Sometimes a type is named as its variant is.
fn type_name_near(n: &str, k: usize) -> &'static str {
    if whim(n, k + 20) % 9 == 0 {
        return leak(n);
    }
    type_name(whim(n, k))
}
fn index(k: usize) -> u32 {
    const N: &[u32] = &[0, 1, 2, 3, 7, 255, 256, 65536, u32::MAX];
    N[k % N.len()]
}
pub struct Ser<'a>(pub &'a V);
struct KSer<'a>(&'a K);
impl Serialize for KSer<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            K::S(x) => s.serialize_str(x),
            K::I(x) => s.serialize_i64(*x),
            K::C(x) => s.serialize_char(*x),
            K::B(x) => s.serialize_bool(*x),
        }
    }
}
impl K {
    pub fn text(&self) -> String {
        match self {
            K::S(x) => x.clone(),
            K::I(x) => x.to_string(),
            K::C(x) => x.to_string(),
            K::B(x) => x.to_string(),
        }
    }
}

impl V {
    fn tag(&self) -> &str {
        match self {
            V::Str(s) | V::Disp(s) | V::UnitVariant(s) => s,
            V::Bool(true) => "b",
            V::Seq(..) => "seq",
            V::Newtype(x) | V::Some(x) => x.tag(),
            _ => "other",
        }
    }
}
impl Serialize for Ser<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            V::Bool(x) => s.serialize_bool(*x),
            V::I8(x) => s.serialize_i8(*x),
            V::I16(x) => s.serialize_i16(*x),
            V::I32(x) => s.serialize_i32(*x),
            V::I64(x) => s.serialize_i64(*x),
            V::U8(x) => s.serialize_u8(*x),
            V::U16(x) => s.serialize_u16(*x),
            V::U32(x) => s.serialize_u32(*x),
            V::U64(x) => s.serialize_u64(*x),
            V::F32(x) => s.serialize_f32(f32::from_bits(*x)),
            V::F64(x) => s.serialize_f64(f64::from_bits(*x)),
            V::Char(x) => s.serialize_char(*x),
            V::Str(x) => s.serialize_str(x),
            V::Disp(x) => s.collect_str(x),
            V::Readable(x) => {
                if s.is_human_readable() {
                    s.serialize_str(x)
                } else {
                    s.serialize_str(&format!("binary-form-of-{x}"))
                }
            }
            V::Uuid(a, b) => uuid::Uuid::from_u64_pair(*a, *b).serialize(s),
            V::Bytes(x) => s.serialize_bytes(x),
            V::None => s.serialize_none(),
            V::Some(x) => s.serialize_some(&Ser(x)),
            V::Unit => s.serialize_unit(),
            V::UnitStruct => s.serialize_unit_struct("UnitStruct"),
            V::UnitVariant(n) => s.serialize_unit_variant(type_name_near(n, 1), index(whim(n, 2)), leak(n)),
            V::Newtype(x) => s.serialize_newtype_struct(type_name(whim(x.tag(), 3)), &Ser(x)),
            V::NewtypeVariant(n, x) => s.serialize_newtype_variant(type_name_near(n, 4), index(whim(n, 5)), leak(n), &Ser(x)),
            V::Seq(xs, len) if *len && xs.len() % 3 == 2 => s.collect_seq(xs.iter().map(Ser)),
            V::Seq(xs, len) => {
                let mut q = s.serialize_seq(if *len { Some(xs.len()) } else { None })?;
                for x in xs {
                    q.serialize_element(&Ser(x))?;
                }
                q.end()
            }
            V::Tuple(xs) => {
                let mut q = s.serialize_tuple(xs.len())?;
                for x in xs {
                    q.serialize_element(&Ser(x))?;
                }
                q.end()
            }
            V::TupleStruct(xs) => {
                let mut q = s.serialize_tuple_struct(type_name(xs.len() + 5), xs.len())?;
                for x in xs {
                    q.serialize_field(&Ser(x))?;
                }
                q.end()
            }
            V::TupleVariant(n, xs) => {
                let mut q = s.serialize_tuple_variant(type_name_near(n, 6), index(whim(n, 7)), leak(n), xs.len())?;
                for x in xs {
                    q.serialize_field(&Ser(x))?;
                }
                q.end()
            }
            V::Map(xs, split) if !*split && xs.len() % 3 == 2 => s.collect_map(xs.iter().map(|(k, x)| (KSer(k), Ser(x)))),
            V::Map(xs, split) => {
                let mut q = s.serialize_map(if *split { None } else { Some(xs.len()) })?;
                for (k, x) in xs {
                    if *split {
                        q.serialize_key(&KSer(k))?;
                        q.serialize_value(&Ser(x))?;
                    } else {
                        q.serialize_entry(&KSer(k), &Ser(x))?;
                    }
                }
                q.end()
            }
            V::Struct(xs) => {
                let mut q = s.serialize_struct(type_name(whim(xs.first().map_or("", |x| &x.0), xs.len())), xs.len())?;
                for (k, x) in xs {
                    if *x == V::None && whim(k, 1) % 2 == 0 {
                        q.skip_field(leak(k))?; // as skip_serializing_if does
                    } else {
                        q.serialize_field(leak(k), &Ser(x))?;
                    }
                }
                q.end()
            }
            V::StructVariant(n, xs) => {
                let mut q = s.serialize_struct_variant(type_name_near(n, 8), index(whim(n, 9)), leak(n), xs.len())?;
                for (k, x) in xs {
                    q.serialize_field(leak(k), &Ser(x))?;
                }
                q.end()
            }
        }
    }
}

/// Expected text of one pair's value.
#[derive(Clone, Debug, PartialEq)]
pub enum Text {
    Is(String),
    F32(f32),
    F64(f64),
}
impl Text {
    pub fn matches(&self, got: &str) -> bool {
        match self {
            Text::Is(s) => s == got,
            // any decimal form that reads back as the same number
            Text::F32(f) => got.parse::<f32>().is_ok_and(|g| g.to_bits() == f.to_bits() || (g.is_nan() && f.is_nan())),
            Text::F64(f) => got.parse::<f64>().is_ok_and(|g| g.to_bits() == f.to_bits() || (g.is_nan() && f.is_nan())),
        }
    }
}
pub type Pairs = Vec<(String, Text)>;

#[derive(Debug, Clone, PartialEq)]
pub enum Denotes {
    Pairs(Pairs),
    /// no representation: the request must be refused
    Unsupported,
    /// the property says nothing
    Unspecified,
}
use Denotes::*;

/// A single value: `Ok(None)` = absent.
pub fn part(v: &V) -> Result<Option<Text>, Denotes> {
    Ok(Some(match v {
        V::Bool(x) => Text::Is(if *x { "true" } else { "false" }.into()),
        V::I8(x) => Text::Is(x.to_string()),
        V::I16(x) => Text::Is(x.to_string()),
        V::I32(x) => Text::Is(x.to_string()),
        V::I64(x) => Text::Is(x.to_string()),
        V::U8(x) => Text::Is(x.to_string()),
        V::U16(x) => Text::Is(x.to_string()),
        V::U32(x) => Text::Is(x.to_string()),
        V::U64(x) => Text::Is(x.to_string()),
        V::F32(x) => Text::F32(f32::from_bits(*x)),
        V::F64(x) => Text::F64(f64::from_bits(*x)),
        V::Char(x) => Text::Is(x.to_string()),
        V::Str(x) | V::Disp(x) | V::Readable(x) => Text::Is(x.clone()),
        V::Uuid(a, b) => Text::Is(uuid::Uuid::from_u64_pair(*a, *b).hyphenated().to_string()),
        V::Bytes(_) => return Err(Unspecified), // see p_query::kept
        V::None => return Ok(None),
        V::Some(x) => return part(x),
        V::Unit => return Err(Unsupported),
        V::UnitStruct => return Err(Unspecified),
        V::UnitVariant(n) => Text::Is(n.clone()),
        V::Newtype(x) => return part(x),
        V::NewtypeVariant(..) | V::Seq(..) | V::Tuple(_) | V::TupleStruct(_) | V::TupleVariant(..) | V::Map(..)
        | V::Struct(_) | V::StructVariant(..) => return Err(Unsupported),
    }))
}

fn entries<'a>(it: impl Iterator<Item = (String, &'a V)>) -> Denotes {
    let mut out = vec![];
    let mut worst = None;
    for (k, v) in it {
        match part(v) {
            Ok(Some(t)) => out.push((k, t)),
            Ok(None) => {}
            Err(Unspecified) => return Unspecified,
            Err(e) => worst = Some(e),
        }
    }
    worst.unwrap_or(Pairs(out))
}

/// What a query parameter called `name` with this value denotes.
pub fn query_model(name: &str, v: &V) -> Denotes {
    match v {
        V::None | V::Unit => Pairs(vec![]),
        V::Some(x) | V::Newtype(x) => query_model(name, x),
        V::Seq(xs, _) => entries(xs.iter().map(|x| (name.to_string(), x))),
        V::Map(xs, _) => entries(xs.iter().map(|(k, x)| (k.text(), x))),
        V::Struct(xs) => entries(xs.iter().map(|(k, x)| (k.clone(), x))),
        V::NewtypeVariant(n, x) => entries(std::iter::once((n.clone(), &**x))),
        V::UnitStruct => Unspecified,
        V::Bytes(_) => Unsupported,
        V::Tuple(xs) | V::TupleStruct(xs) => tuple_model(xs),
        V::TupleVariant(..) | V::StructVariant(..) => Unsupported,
        _ => match part(v) {
            Ok(Some(t)) => Pairs(vec![(name.to_string(), t)]),
            Ok(None) => Pairs(vec![]),
            Err(e) => e,
        },
    }
}
fn tuple_model(xs: &[V]) -> Denotes {
    // an empty tuple, and a tuple that is itself a list of pairs, are left open
    if xs.is_empty() || xs.iter().all(maybe_pair) {
        Unspecified
    } else {
        Unsupported
    }
}
fn maybe_pair(v: &V) -> bool {
    match v {
        V::Tuple(p) | V::TupleStruct(p) => p.len() == 2,
        V::None => true,
        V::Newtype(x) | V::Some(x) => maybe_pair(x),
        _ => false,
    }
}

/// What a form body denotes: the members of an object.
pub fn form_model(v: &V) -> Denotes {
    match v {
        V::Some(x) | V::Newtype(x) => form_model(x),
        V::Map(xs, _) => entries(xs.iter().map(|(k, x)| (k.text(), x))),
        V::Struct(xs) => entries(xs.iter().map(|(k, x)| (k.clone(), x))),
        V::None | V::Unit | V::UnitStruct => Unspecified,
        V::Seq(xs, _) | V::Tuple(xs) => tuple_model(xs),
        V::Bytes(_) => Unsupported,
        _ => Unsupported,
    }
}

// ---------------------------------------------------------------- generators

/// Literals of the client's own source.
pub fn dict() -> &'static vk::dict::Dict {
    static D: std::sync::OnceLock<vk::dict::Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| vk::dict::Dict::of(&["/repo/progenitor-client/src"]))
}
fn edges() -> &'static [u64] {
    static D: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
    D.get_or_init(|| dict().sizes(u64::MAX))
}
const AWKWARD: &str = "&=+%#?/\\ ;:,.@!$'()*[]{}<>|^`~\"-_\t\r\n\0\u{7f}\u{80}é∞漢🦀\u{feff}\u{202e}ab0";
const ODD_CHARS: &str = "\0\t\n\r &=+%?#/\u{7f}\u{80}ÿ\u{7ff}\u{800}\u{d7ff}\u{e000}\u{fffd}\u{ffff}\u{10000}\u{10ffff}aZ09";
fn pick_char(r: &mut Rng, s: &str) -> char {
    let n = s.chars().count();
    s.chars().nth(r.below(n)).unwrap()
}
fn any_char(r: &mut Rng) -> char {
    loop {
        let top = *r.pick(&[0x80, 0x100, 0x800, 0x10000, 0x110000]);
        if let Some(c) = char::from_u32(r.below(top) as u32) {
            return c;
        }
    }
}
fn chars(r: &mut Rng, max: usize, f: impl Fn(&mut Rng) -> char) -> String {
    (0..r.below(max + 1)).map(|_| f(r)).collect()
}
/// Texts that programs, or this one, may treat specially.
pub fn r_word(r: &mut Rng) -> String {
    let own = &dict().texts;
    if !own.is_empty() && r.chance(33) {
        return r.pick(own).clone();
    }
    r.pick(vk::dict::WORDS).to_string()
}
fn r_varied(r: &mut Rng) -> String {
    let w = r_word(r);
    match r.below(4) {
        0 => w.to_uppercase(),
        1 => w.to_lowercase(),
        2 => w.chars().map(|c| if r.chance(50) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        _ => w.chars().rev().collect(),
    }
}
pub fn r_text(r: &mut Rng) -> String {
    match r.weighted(&[8, 12, 8, 4, 4, 4, 8, 4, 4, 8, 1]) {
        10 => r.pick(FEW).to_string(),
        9 => r_format(r),
        0 => chars(r, 8, |r| pick_char(r, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")),
        1 => (0..r.below(8))
            .map(|_| if r.chance(10) { r.pick(&["%41", "%2F", "%2e", "%"]).to_string() } else { pick_char(r, AWKWARD).to_string() })
            .collect(),
        2 => chars(r, 6, any_char),
        3 => chars(r, 12, |r| r.below(128) as u8 as char),
        4 => String::new(),
        5 => chars(r, 24, |r| r.range(32, 126) as u8 as char),
        6 => r_word(r),
        7 => r_varied(r),
        _ => (0..2 + r.below(3)).map(|_| if r.chance(60) { r_word(r) } else { chars(r, 3, |r| pick_char(r, "ab0 /.%&=-")) }).collect(),
    }
}
/// Texts that look like something a program might treat specially: identifiers,
/// addresses, dates, numbers, encodings, in canonical form or not.
pub fn r_format(r: &mut Rng) -> String {
    let hex = |r: &mut Rng, n: usize| {
        let set = *r.pick(&["0123456789abcdef", "0123456789ABCDEF", "0123456789abcdefABCDEF", "0", "0f"]);
        (0..n).map(|_| pick_char(r, set)).collect::<String>()
    };
    let alnum = |r: &mut Rng, n: usize| (0..n).map(|_| pick_char(r, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")).collect::<String>();
    let word = |r: &mut Rng| {
        let n = 1 + r.below(8);
        (0..n).map(|_| pick_char(r, "abcdefghijklmnopqrstuvwxyz")).collect::<String>()
    };
    let num = |r: &mut Rng| {
        let n = 1 + r.below(20);
        let mut s: String = (0..n).map(|_| pick_char(r, "0123456789")).collect();
        if r.chance(50) {
            s = s.chars().take(3).collect();
        }
        s
    };
    let many = |r: &mut Rng, sep: &str, max: usize, f: &dyn Fn(&mut Rng) -> String| (0..1 + r.below(max)).map(|_| f(r)).collect::<Vec<_>>().join(sep);
    let mut s = match r.below(30) {
        0 => {
            let n = *r.pick(&[2, 4, 6, 8, 12, 16, 24, 32, 40, 48, 56, 64, 96, 128]);
            hex(r, n)
        }
        1 => [8, 4, 4, 4, 12].iter().map(|n| hex(r, *n)).collect::<Vec<_>>().join("-"),
        2 => (0..4).map(|_| r.below(300).to_string()).collect::<Vec<_>>().join("."),
        3 => (0..8)
            .map(|_| {
                let n = 1 + r.below(4);
                if r.chance(40) { "0".to_string() } else { hex(r, n) }
            })
            .collect::<Vec<_>>()
            .join(":"),
        4 => {
            let (a, b) = (1 + r.below(4), 1 + r.below(3));
            let n = 1 + r.below(4);
            format!("{}::{}", (0..a).map(|_| hex(r, n)).collect::<Vec<_>>().join(":"), (0..b).map(|_| hex(r, n)).collect::<Vec<_>>().join(":"))
        }
        5 => format!("{}/{}", r.pick(&["10.0.0.0", "fd00::", "0:0::1", "127.1"]), r.below(130)),
        6 => (0..6).map(|_| hex(r, 2)).collect::<Vec<_>>().join(*r.pick(&[":", "-", "."])),
        7 => format!("{:04}-{:02}-{:02}", r.below(10000), r.below(14), r.below(33)),
        8 => format!(
            "{:04}-{:02}-{:02}{}{:02}:{:02}:{:02}{}{}",
            r.below(10000),
            1 + r.below(12),
            1 + r.below(28),
            r.pick(&["T", "t", " ", "_"]),
            r.below(25),
            r.below(61),
            r.below(61),
            r.pick(&["", ".0", ".120", ".123456789", ","]),
            r.pick(&["", "Z", "z", "+00:00", "-00:00", "+05:30", "+0530", " UTC"])
        ),
        9 => format!("{}{}{}{}", r.pick(&["", "-", "+", "0", "00"]), num(r), r.pick(&["", ".", ".0", ".50", ".123456789012345678901"]), r.pick(&["", "e5", "E+05", "e-300", "f", "u64", "n", "%"])),
        10 => format!("{}.{}.{}{}", num(r), num(r), num(r), r.pick(&["", "-rc.1", "+build.5", "-alpha+x"])),
        11 => format!("{}{}{}@{}.{}", word(r), r.pick(&["", "+", ".", "%"]), word(r), word(r), r.pick(&["com", "example", "COM", "co.uk"])),
        12 => format!("{}://{}{}/{}{}{}", r.pick(&["http", "https", "ftp", "s3", "HTTP", "ws", "file", "data"]), word(r), r.pick(&["", ":80", ":443", ":8080"]), many(r, "/", 4, &word), r.pick(&["", "/", "?a=b&c=d", "?"]), r.pick(&["", "#f", "#"])),
        13 => format!("arn:aws:{}:{}:{}:{}/{}", word(r), word(r), num(r), word(r), word(r)),
        14 => {
            let n = *r.pick(&[32, 40, 64, 128]);
            format!("{}{}{}", r.pick(&["sha256", "sha512", "md5", "SHA1", "blake3"]), r.pick(&[":", "-", "="]), hex(r, n))
        }
        15 => {
            let n = r.below(12) * 4;
            let mut b: String = (0..n).map(|_| pick_char(r, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/-_")).collect();
            b.push_str(r.pick(&["", "YQ==", "YWI=", "=", "===="]));
            b
        }
        16 => {
            let n = 10 + r.below(20);
            format!("eyJ{}.eyJ{}.{}", alnum(r, n), alnum(r, n), alnum(r, n))
        }
        17 => many(r, "/", 6, &word) + r.pick(&["", "/", ".tar.gz", ".JSON", ".", "/.", "/.."]),
        18 => many(r, ".", 5, &word),
        19 => {
            let sep = *r.pick(&[",", ";", "|", " ", ", ", "+", "&", ":", "\t", "~"]);
            many(r, sep, 5, &word)
        }
        20 => (0..1 + r.below(4)).map(|_| format!("{}={}", word(r), num(r))).collect::<Vec<_>>().join(*r.pick(&["&", ",", ";", " "])),
        21 => format!("{}{}{}", num(r), r.pick(&["-", "..", "..=", ":", "~", ","]), num(r)),
        22 => {
            let k = r.pick(&["user_", "sk_live_", "req-", "id:", "org/", "projects/", "v1/", "v2.", "urn:uuid:", "did:", "tag:", "#", "@", "~", "$", "refs/heads/", "_"]).to_string();
            let n = 1 + r.below(27);
            k + &alnum(r, n)
        }
        23 => format!("P{}DT{}H", num(r), num(r)),
        24 => format!("{}{}", num(r), r.pick(&["ms", "s", "KB", "GiB", "%", "px", "€", "k", "M", " MB", "°"])),
        25 => format!("{}\"{}\"", r.pick(&["", "W/"]), hex(r, 8)),
        26 => r.pick(&["en", "en-US", "EN_us", "zh-Hant-TW", "*", "x-default", "de;q=0.5", "en, de"]).to_string(),
        27 => format!("{}{}{}", r.pick(&["*", "?", "[a-z]", "^", "(", "/", "{a,b}", "!"]), word(r), r.pick(&["*", "$", ")", "?", "/**/", "]", "/i"])),
        28 => serde_json::json!({ word(r): num(r), "a": [1, null, word(r)] }).to_string(),
        _ => {
            // one letter, over and over
            let c = if r.chance(50) { pick_char(r, "aA0-_.~ /%+") } else { any_char(r) };
            let n = *r.pick(&[1, 2, 3, 4, 8, 16, 20, 32, 36, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]);
            c.to_string().repeat(n)
        }
    };
    // sometimes not quite
    if r.chance(30) {
        match r.below(6) {
            0 => s = s.to_uppercase(),
            1 => s.push(pick_char(r, AWKWARD)),
            2 => s.insert(0, pick_char(r, AWKWARD)),
            3 => {
                let c: Vec<char> = s.chars().collect();
                let k = r.below(c.len().max(1));
                s = c[..k].iter().chain([&pick_char(r, AWKWARD)]).chain(&c[k..]).collect();
            }
            4 => {
                s.pop();
            }
            _ => s = percent_encoding::utf8_percent_encode(&s, percent_encoding::NON_ALPHANUMERIC).to_string(),
        }
    }
    s
}
const FEW: &[&str] = &["a", "id", "name"];
pub fn r_name(r: &mut Rng) -> String {
    match r.weighted(&[28, 14, 7, 5]) {
        // few enough to coincide with one another
        3 => r.pick(FEW).to_string(),
        0 => {
            let c = pick_char(r, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ");
            format!("{c}{}", chars(r, 6, |r| pick_char(r, "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-")))
        }
        1 => r_text(r),
        _ => r_word(r),
    }
}
pub fn r_long(r: &mut Rng) -> String {
    let (s, n) = (r_text(r), 1 + r.below(600));
    s.repeat(n) + &r_text(r)
}
pub fn nasty_string() -> BoxedStrategy<String> {
    gen(r_text, |_| true).boxed()
}
/// Long texts: a short awkward one repeated, with an odd end.
pub fn long_string() -> BoxedStrategy<String> {
    gen(r_long, |_| true).boxed()
}
pub fn name_string() -> BoxedStrategy<String> {
    gen(r_name, |_| true).boxed()
}
/// A length, biased to the small and to round and telling numbers.
pub fn size(max: u64) -> BoxedStrategy<u64> {
    let sizes = dict().sizes(max);
    gen(move |r| if r.chance(40) { (max as f64).powf(r.below(1_000_000) as f64 / 1e6) as u64 } else { *r.pick(&sizes) }, |_| true).boxed()
}
/// A text repeated to a length in characters.
pub fn stretch(unit: &str, n: usize) -> String {
    if unit.is_empty() {
        return "x".repeat(n);
    }
    unit.chars().cycle().take(n).collect()
}

pub fn r_int(r: &mut Rng) -> u64 {
    match r.below(5) {
        // the limits of every width and what lies next to them
        4 => {
            let x = match r.below(5) {
                0 => 1u64 << r.below(64),
                1 => (1u64 << r.below(64)).wrapping_neg(),
                2 => i64::MIN as u64,
                3 => [i8::MIN as i64, i16::MIN as i64, i32::MIN as i64][r.below(3)] as u64,
                _ => 0,
            };
            x.wrapping_add(r.below(3) as u64).wrapping_sub(1)
        }
        0 => *r.pick(edges()),
        1 => r.pick(edges()).wrapping_neg(),
        2 => r.below(1000) as u64,
        _ => r.u64(),
    }
}
pub fn r_float(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => f64::from_bits(r.u64()),
        1 => *r.pick(&[0.0, -0.0, 0.1, 1e21, 1e300, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, f64::EPSILON, 16777216.0, 5e-324]),
        2 => *r.pick(edges()) as f64,
        3 => -(*r.pick(edges()) as f64) / 1000.0,
        4 => r.range(-1000, 1000) as f64,
        5 => r.range(-100_000, 100_000) as f64 / 100.0,
        6 => 10f64.powi(r.range(-30, 30) as i32) * r.range(-9, 9) as f64,
        _ => r.u64() as f64 / 1e3,
    }
}
pub fn r_scalar(r: &mut Rng) -> V {
    match r.below(18) {
        0 => V::Bool(r.chance(50)),
        1 => V::I8(r_int(r) as i8),
        2 => V::I16(r_int(r) as i16),
        3 => V::I32(r_int(r) as i32),
        4 => V::I64(r_int(r) as i64),
        5 => V::U8(r_int(r) as u8),
        6 => V::U16(r_int(r) as u16),
        7 => V::U32(r_int(r) as u32),
        8 => V::U64(r_int(r)),
        9 => V::F32(if r.chance(20) { r.u64() as u32 } else { (r_float(r) as f32).to_bits() }),
        10 => V::F64(r_float(r).to_bits()),
        11 => V::Char(if r.chance(60) { pick_char(r, ODD_CHARS) } else { any_char(r) }),
        12 | 13 => V::Str(r_text(r)),
        14 => V::Disp(r_text(r)),
        15 => V::Readable(r_text(r)),
        16 => V::Uuid(r.u64(), r.u64()),
        _ => V::UnitVariant(r_name(r)),
    }
}
fn wrapped(r: &mut Rng, v: V) -> V {
    let mut v = v;
    for _ in 0..3 {
        match r.below(8) {
            0 => v = V::Some(Box::new(v)),
            1 => v = V::Newtype(Box::new(v)),
            _ => break,
        }
    }
    v
}
/// A scalar possibly wrapped, possibly absent.
pub fn r_part(r: &mut Rng) -> V {
    let v = if r.chance(14) { V::None } else { r_scalar(r) };
    wrapped(r, v)
}
fn r_key(r: &mut Rng) -> K {
    match r.weighted(&[5, 1, 1, 1]) {
        0 => K::S(r_name(r)),
        1 => K::I(r_int(r) as i64),
        2 => K::C(any_char(r)),
        _ => K::B(r.chance(50)),
    }
}
fn many<T>(r: &mut Rng, max: usize, f: impl Fn(&mut Rng) -> T) -> Vec<T> {
    (0..r.below(max)).map(|_| f(r)).collect()
}
/// Objects and maps of plain values.
pub fn r_object(r: &mut Rng) -> V {
    let mut v = if r.chance(50) { V::Map(many(r, 6, |r| (r_key(r), r_part(r))), r.chance(50)) } else { V::Struct(many(r, 6, |r| (r_name(r), r_part(r)))) };
    if r.chance(10) {
        // a name or a value twice
        match &mut v {
            V::Map(m, _) if m.len() > 1 => {
                let n = m.len();
                let (i, j) = (r.below(n), r.below(n));
                if r.chance(50) {
                    m[j].0 = m[i].0.clone();
                } else {
                    m[j].1 = m[i].1.clone();
                }
            }
            V::Struct(m) if m.len() > 1 => {
                let n = m.len();
                let (i, j) = (r.below(n), r.below(n));
                if r.chance(50) {
                    m[j].0 = m[i].0.clone();
                } else {
                    m[j].1 = m[i].1.clone();
                }
            }
            _ => {}
        }
    }
    wrapped(r, v)
}
/// Values with a query form.
pub fn r_supported(r: &mut Rng) -> V {
    let v = match r.weighted(&[4, 1, 1, 3, 4, 1]) {
        0 => r_scalar(r),
        1 => V::None,
        2 => V::Unit,
        3 => {
            let mut v = many(r, 8, r_part);
            // the same again, next to itself or later
            while !v.is_empty() && r.chance(30) {
                let (i, j) = (r.below(v.len()), r.below(v.len() + 1));
                let x = v[i].clone();
                v.insert(if r.chance(50) { i } else { j }, x);
            }
            V::Seq(v, r.chance(50))
        }
        4 => r_object(r),
        _ => V::NewtypeVariant(r_name(r), Box::new(r_part(r))),
    };
    wrapped(r, v)
}
/// Anything at all, mostly nested.
pub fn r_any(r: &mut Rng, depth: usize) -> V {
    if depth == 0 || r.chance(20) {
        return match r.weighted(&[4, 1, 1, 1]) {
            0 => r_scalar(r),
            1 => V::None,
            2 => V::Unit,
            _ => V::UnitStruct,
        };
    }
    let d = depth - 1;
    match r.below(10) {
        0 => V::Some(Box::new(r_any(r, d))),
        1 => V::Newtype(Box::new(r_any(r, d))),
        2 => V::NewtypeVariant(r_name(r), Box::new(r_any(r, d))),
        3 => V::Seq(many(r, 4, |r| r_any(r, d)), r.chance(50)),
        4 => V::Tuple(many(r, 4, |r| r_any(r, d))),
        5 => V::TupleStruct(many(r, 4, |r| r_any(r, d))),
        6 => V::TupleVariant(r_name(r), many(r, 4, |r| r_any(r, d))),
        7 => V::Map(many(r, 6, |r| (r_key(r), r_any(r, d))), r.chance(50)),
        8 => V::Struct(many(r, 6, |r| (r_name(r), r_any(r, d)))),
        _ => V::StructVariant(r_name(r), many(r, 4, |r| (r_name(r), r_any(r, d)))),
    }
}
pub fn wrapped_scalar() -> BoxedStrategy<V> {
    gen(r_part, |_| true).boxed()
}
pub fn object() -> BoxedStrategy<V> {
    gen(r_object, |_| true).boxed()
}
pub fn supported() -> BoxedStrategy<V> {
    gen(r_supported, |_| true).boxed()
}
pub fn arbitrary() -> BoxedStrategy<V> {
    gen(r_arbitrary, |_| true).boxed()
}
pub fn r_arbitrary(r: &mut Rng) -> V {
    let d = 1 + r.below(4);
    r_any(r, d)
}

pub fn check_pairs(exp: &Pairs, got: &[(String, String)]) -> Result<(), vk::Fail> {
    let ok = exp.len() == got.len()
        && exp.iter().zip(got).all(|((n, t), (gn, gt))| n == gn && t.matches(gt));
    if ok {
        Ok(())
    } else {
        Err(vk::Fail::new(format!("pairs differ: sent {got:?}, value denotes {exp:?}")))
    }
}
/// A coarse label for the distribution report.
pub fn kind(v: &V) -> &'static str {
    match v {
        V::None | V::Unit => "absent",
        V::Some(x) => kind(x),
        V::Newtype(_) => "newtype",
        V::Seq(..) => "seq",
        V::Map(..) => "map",
        V::Struct(_) => "struct",
        V::NewtypeVariant(..) => "newtype-variant",
        V::UnitVariant(_) => "unit-variant",
        V::Tuple(_) | V::TupleStruct(_) => "tuple",
        V::TupleVariant(..) | V::StructVariant(..) => "variant",
        _ => "scalar",
    }
}
