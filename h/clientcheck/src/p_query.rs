//! P02, P03: query parameters. P04: form bodies.
use crate::val::*;
use progenitor_client::{Error, QueryParam, RequestBuilderExt};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vk::gen::{gen, gen_if};
use vk::{ensure, ensure_eq, Case, Ctx, Fail, R};

fn client() -> reqwest::Client {
    thread_local! { static C: reqwest::Client = reqwest::Client::builder().no_proxy().build().unwrap(); }
    C.with(|c| c.clone())
}

/// One parameter through the URL-encoding serializer onto an existing query.
fn direct(name: &str, v: &V) -> Result<Vec<(String, String)>, String> {
    let mut url = url::Url::parse("https://h/p").unwrap();
    {
        let mut pairs = url.query_pairs_mut();
        let s = serde_urlencoded::Serializer::new(&mut pairs);
        QueryParam::new(name, &Ser(v)).serialize(s).map_err(|e| e.to_string())?;
    }
    Ok(url.query_pairs().map(|(a, b)| (a.into_owned(), b.into_owned())).collect())
}
/// Several parameters on one request, chained the way generated code does.
fn on_request(base: &str, ps: &[(String, V)]) -> Result<url::Url, reqwest::Error> {
    let mut rb = client().get(base);
    for (n, v) in ps {
        rb = rb.query(&QueryParam::new(n, &Ser(v)));
    }
    rb.build().map(|r| r.url().clone())
}

pub fn p02(cx: &mut Ctx) {
    cx.rule("Dynamic serde values reaching every serializer method; the reference model gives the list of (name, value) pairs; non-trivial: at least one pair is denoted and the value is not a bare scalar, or the text has a character needing encoding.");
    let nt = |c: &mut Case, n: &str, v: &V, p: &Pairs| {
        c.label(kind(v));
        c.label(match p.len() {
            0 => "0 pairs",
            1 => "1 pair",
            _ => "many pairs",
        });
        c.nontrivial_if(
            !p.is_empty()
                && (kind(v) != "scalar"
                    || n.chars().any(|c| !c.is_ascii_alphanumeric())
                    || p.iter().any(|(_, t)| matches!(t, Text::Is(s) if s.chars().any(|c| !c.is_ascii_alphanumeric())))),
        );
    };
    cx.run("one-parameter", 200_000, 1_500_000, (name_string(), supported()), |(n, v), c| {
        let exp = match query_model(n, v) {
            Denotes::Pairs(p) => p,
            _ => return Ok(()),
        };
        nt(c, n, v, &exp);
        match direct(n, v) {
            Ok(got) => check_pairs(&exp, &got),
            Err(e) => Err(Fail::new(format!("refused ({e}); value denotes {exp:?}"))),
        }
    });
    let many = (
        proptest::sample::select(vec!["http://h/p", "http://h/", "http://h/p?pre=1&x", "http://127.0.0.1:1/a/b#frag"]).prop_map(String::from),
        proptest::collection::vec((name_string(), supported()), 0..5),
    );
    cx.run("request", 80_000, 500_000, many, |(base, ps), c| {
        let b = url::Url::parse(base).unwrap();
        let mut exp: Pairs = b.query_pairs().map(|(a, b)| (a.into_owned(), Text::Is(b.into_owned()))).collect();
        for (n, v) in ps {
            match query_model(n, v) {
                Denotes::Pairs(p) => {
                    nt(c, n, v, &p);
                    exp.extend(p)
                }
                _ => return Ok(()),
            }
        }
        let url = on_request(base, ps).map_err(|e| Fail::new(format!("refused: {e}; parameters denote {exp:?}")))?;
        ensure!(url.path() == b.path() && url.host() == b.host() && url.port() == b.port() && url.fragment() == b.fragment(), "URL changed: {url}");
        let got: Vec<_> = url.query_pairs().map(|(a, b)| (a.into_owned(), b.into_owned())).collect();
        check_pairs(&exp, &got)?;
        if exp.is_empty() {
            ensure!(url.query().is_none_or(|q| q.is_empty()), "absent parameters left a query: {url}");
        }
        Ok(())
    });
    // long lists, long texts, many parameters
    let big = prop_oneof![
        (proptest::collection::vec(wrapped_scalar(), 8..400), any::<bool>()).prop_map(|(v, l)| V::Seq(v, l)),
        (proptest::collection::vec(long_string().prop_map(V::Str), 1..5), any::<bool>()).prop_map(|(v, l)| V::Seq(v, l)),
        long_string().prop_map(V::Str),
        long_string().prop_map(V::Disp),
        proptest::collection::vec((name_string(), wrapped_scalar()), 6..80).prop_map(V::Struct),
        (proptest::collection::vec((name_string().prop_map(K::S), wrapped_scalar()), 6..80), any::<bool>()).prop_map(|(m, s)| V::Map(m, s)),
    ];
    cx.run("large", 1_200, 8000, (prop_oneof![name_string(), long_string()], big), |(n, v), c| {
        let Denotes::Pairs(exp) = query_model(n, v) else { return Ok(()) };
        nt(c, n, v, &exp);
        match direct(n, v) {
            Ok(got) => check_pairs(&exp, &got),
            Err(e) => Err(Fail::new(format!("refused ({e}); value denotes {exp:?}"))),
        }
    });
    cx.run("sizes", 1_200, 10_000, sized(20_000), |b, c| {
        let (n, v) = b.value(None);
        let Denotes::Pairs(exp) = query_model(&n, &v) else { return Err(Fail::new("check: no pairs")) };
        c.nontrivial_if(b.n > 100);
        c.label(b.shape());
        match direct(&n, &v) {
            Ok(got) => check_pairs(&exp, &got).map_err(|_| Fail::new(format!("{} of {} units {:?}: {} pairs sent, {} denoted, or other texts", b.shape(), b.n, b.unit, got.len(), exp.len()))),
            Err(e) => Err(Fail::new(format!("refused ({e}): {} of {}", b.shape(), b.n))),
        }
    });
    cx.run("many-parameters", 1_200, 8000, proptest::collection::vec((name_string(), supported()), 5..40), |ps, c| {
        let mut exp: Pairs = vec![];
        for (n, v) in ps {
            match query_model(n, v) {
                Denotes::Pairs(p) => {
                    nt(c, n, v, &p);
                    exp.extend(p)
                }
                _ => return Ok(()),
            }
        }
        let url = on_request("http://h/p", ps).map_err(|e| Fail::new(format!("refused: {e}; parameters denote {exp:?}")))?;
        let got: Vec<_> = url.query_pairs().map(|(a, b)| (a.into_owned(), b.into_owned())).collect();
        check_pairs(&exp, &got)
    });
    cx.run("derived-types", 12_000, 60_000, derived(), |(n, d), c| {
        let (got, exp) = d.both(n);
        c.nontrivial();
        c.label(format!("{d:?}").split(['(', ' ', '{']).next().unwrap_or("").to_string());
        match got {
            Ok(g) => {
                let exp: Pairs = exp.into_iter().map(|(a, b)| (a, Text::Is(b))).collect();
                check_pairs(&exp, &g)
            }
            Err(e) => Err(Fail::new(format!("refused ({e}); value denotes {exp:?}"))),
        }
    });
}

/// A value of a given size.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sized_ {
    shape: u8,
    n: u32,
    unit: String,
    name: String,
    at: u32,
}
fn sized(max: u64) -> BoxedStrategy<Sized_> {
    (0u8..8, size(max), nasty_string(), name_string(), any::<u32>()).prop_map(|(shape, n, unit, name, at)| Sized_ { shape, n: n as u32, unit, name, at }).boxed()
}
impl Sized_ {
    fn shape(&self) -> &'static str {
        ["text", "displayed text", "texts", "numbers", "map", "struct", "name", "options"][self.shape as usize % 8]
    }
    /// The parameter's name and value; with an odd element somewhere.
    fn value(&self, odd: Option<&V>) -> (String, V) {
        let n = self.n as usize;
        let at = self.at as usize % n.max(1);
        let u = |i: usize| V::Str(format!("{}{}", self.unit, i % 7));
        let put = |f: &dyn Fn(usize) -> V| -> Vec<V> {
            let mut v: Vec<V> = (0..n).map(f).collect();
            if let Some(o) = odd {
                v.insert(at.min(n), o.clone());
            }
            v
        };
        let keys = |v: Vec<V>| v.into_iter().enumerate().map(|(i, x)| (format!("{}{i}", self.unit), x));
        let v = match self.shape % 8 {
            0 => V::Str(stretch(&self.unit, n)),
            1 => V::Disp(stretch(&self.unit, n)),
            2 => V::Seq(put(&u), self.at % 2 == 0),
            3 => V::Seq(put(&|i| V::U64(i as u64)), self.at % 2 == 0),
            4 => V::Map(keys(put(&u)).map(|(k, x)| (K::S(k), x)).collect(), self.at % 2 == 0),
            5 => V::Struct((0..n.min(600)).map(|i| (format!("m{i}"), if odd.is_some() && at == i { odd.unwrap().clone() } else { u(i) })).collect()),
            6 => return (stretch(&self.unit, n), if let Some(o) = odd { V::Seq(vec![o.clone()], true) } else { V::Bool(true) }),
            _ => V::Some(Box::new(V::Seq(put(&|i| if i % 3 == 0 { V::Newtype(Box::new(u(i))) } else { V::Some(Box::new(V::I64(-(i as i64)))) }), true))),
        };
        (self.name.clone(), v)
    }
}

// Types of the shapes generated code and hand-written replacements have.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum D {
    Internal(Option<(u64, String)>),
    Adjacent(Option<u64>),
    Untagged(u8, String, Vec<u64>),
    Flatten(String, i64, Vec<(String, String)>),
    Skip(Option<String>, Option<u64>, Vec<u8>),
    Plain(String),
    PlainNum(u64),
    Date(i64),
    DateTimes(Vec<i64>),
    Ip(u32, u64),
    Set(Vec<String>),
    RenamedEnum(bool),
    EnumSeq(Vec<bool>),
    ArcBox(String),
    Nz(u32),
    Only(u8, u8),
}
fn derived() -> BoxedStrategy<(String, D)> {
    let s = nasty_string;
    let d = prop_oneof![
        proptest::option::of((any::<u64>(), s())).prop_map(D::Internal),
        proptest::option::of(any::<u64>()).prop_map(D::Adjacent),
        (any::<u8>(), s(), proptest::collection::vec(any::<u64>(), 0..4)).prop_map(|(a, b, c)| D::Untagged(a, b, c)),
        (s(), any::<i64>(), proptest::collection::vec(("[f-z]{1,4}", s()), 0..3)).prop_map(|(a, b, c)| D::Flatten(a, b, c)),
        (proptest::option::of(s()), proptest::option::of(any::<u64>()), any::<Vec<u8>>()).prop_map(|(a, b, c)| D::Skip(a, b, c)),
        s().prop_map(D::Plain),
        any::<u64>().prop_map(D::PlainNum),
        (-30_000_000_000i64..100_000_000_000).prop_map(D::Date),
        proptest::collection::vec(-30_000_000_000i64..100_000_000_000, 0..4).prop_map(D::DateTimes),
        (any::<u32>(), any::<u64>()).prop_map(|(a, b)| D::Ip(a, b)),
        proptest::collection::vec(s(), 0..5).prop_map(D::Set),
        any::<bool>().prop_map(D::RenamedEnum),
        proptest::collection::vec(any::<bool>(), 0..5).prop_map(D::EnumSeq),
        s().prop_map(D::ArcBox),
        (1u32..).prop_map(D::Nz),
        (0u8..6, 0u8..4).prop_map(|(a, b)| D::Only(a, b)),
    ];
    (name_string(), d).boxed()
}
type Both = (Result<Vec<(String, String)>, String>, Vec<(String, String)>);
impl D {
    fn both(&self, n: &str) -> Both {
        fn q<T: Serialize>(n: &str, t: &T) -> Result<Vec<(String, String)>, String> {
            let mut url = url::Url::parse("https://h/p").unwrap();
            {
                let mut pairs = url.query_pairs_mut();
                let s = serde_urlencoded::Serializer::new(&mut pairs);
                QueryParam::new(n, t).serialize(s).map_err(|e| e.to_string())?;
            }
            Ok(url.query_pairs().map(|(a, b)| (a.into_owned(), b.into_owned())).collect())
        }
        let p = |a: &str, b: String| (a.to_string(), b);
        match self {
            D::Internal(x) => {
                #[derive(Serialize)]
                #[serde(tag = "kind", rename_all = "snake_case")]
                enum E {
                    Nothing,
                    SomeThing { a: u64, b: String },
                }
                match x {
                    None => (q(n, &E::Nothing), vec![p("kind", "nothing".into())]),
                    Some((a, b)) => (
                        q(n, &E::SomeThing { a: *a, b: b.clone() }),
                        vec![p("kind", "some_thing".into()), p("a", a.to_string()), p("b", b.clone())],
                    ),
                }
            }
            D::Adjacent(x) => {
                #[derive(Serialize)]
                #[serde(tag = "t", content = "c")]
                enum E {
                    U,
                    N(u64),
                }
                match x {
                    None => (q(n, &E::U), vec![p("t", "U".into())]),
                    Some(a) => (q(n, &E::N(*a)), vec![p("t", "N".into()), p("c", a.to_string())]),
                }
            }
            D::Untagged(k, s, v) => {
                #[derive(Serialize)]
                #[serde(transparent)]
                struct Name(String);
                #[derive(Serialize)]
                #[serde(untagged)]
                enum E {
                    Name(Name),
                    Id(uuid::Uuid),
                    Many(Vec<u64>),
                    Obj { a: String },
                    Unit,
                }
                let id = uuid::Uuid::from_u128(v.iter().map(|x| *x as u128).sum::<u128>() << 7);
                match k % 5 {
                    0 => (q(n, &E::Name(Name(s.clone()))), vec![p(n, s.clone())]),
                    1 => (q(n, &E::Id(id)), vec![p(n, id.to_string())]),
                    2 => (q(n, &E::Many(v.clone())), v.iter().map(|x| p(n, x.to_string())).collect()),
                    3 => (q(n, &E::Obj { a: s.clone() }), vec![p("a", s.clone())]),
                    _ => (q(n, &E::Unit), vec![]),
                }
            }
            D::Flatten(a, b, m) => {
                #[derive(Serialize)]
                struct S {
                    a: String,
                    #[serde(rename = "b-b")]
                    b: i64,
                    #[serde(flatten)]
                    rest: std::collections::BTreeMap<String, String>,
                }
                let rest: std::collections::BTreeMap<_, _> = m.iter().cloned().collect();
                let mut e = vec![p("a", a.clone()), p("b-b", b.to_string())];
                e.extend(rest.clone());
                (q(n, &S { a: a.clone(), b: *b, rest }), e)
            }
            D::Skip(a, b, v) => {
                #[derive(Serialize)]
                struct S {
                    #[serde(skip_serializing_if = "Option::is_none")]
                    a: Option<String>,
                    b: Option<u64>,
                    #[serde(skip_serializing_if = "Vec::is_empty")]
                    v: Vec<u8>,
                }
                let _ = v;
                let mut e = vec![];
                e.extend(a.iter().map(|x| p("a", x.clone())));
                e.extend(b.iter().map(|x| p("b", x.to_string())));
                (q(n, &S { a: a.clone(), b: *b, v: vec![] }), e)
            }
            D::Plain(s) => {
                #[derive(Serialize)]
                struct Name(String);
                (q(n, &Some(Name(s.clone()))), vec![p(n, s.clone())])
            }
            D::PlainNum(x) => {
                #[derive(Serialize)]
                struct Num(u64);
                (q(n, &vec![Num(*x), Num(0)]), vec![p(n, x.to_string()), p(n, "0".into())])
            }
            D::Date(x) => {
                let d = chrono::DateTime::<chrono::Utc>::from_timestamp(*x, 0).unwrap();
                (q(n, &d), vec![p(n, serde_json::to_value(d).unwrap().as_str().unwrap().to_string())])
            }
            D::DateTimes(xs) => {
                let d: Vec<_> = xs.iter().map(|x| chrono::DateTime::<chrono::Utc>::from_timestamp(*x, 0).unwrap().date_naive()).collect();
                let e = d.iter().map(|d| p(n, serde_json::to_value(d).unwrap().as_str().unwrap().to_string())).collect();
                (q(n, &d), e)
            }
            D::Ip(a, b) => {
                let v: Vec<std::net::IpAddr> = vec![std::net::Ipv4Addr::from(*a).into(), std::net::Ipv6Addr::from((*b as u128) << 37).into()];
                (q(n, &v), v.iter().map(|x| p(n, x.to_string())).collect())
            }
            D::Set(v) => {
                let s: std::collections::BTreeSet<_> = v.iter().cloned().collect();
                (q(n, &s), s.iter().map(|x| p(n, x.clone())).collect())
            }
            D::RenamedEnum(b) => {
                let e = if *b { Ren::First } else { Ren::Second };
                (q(n, &e), vec![p(n, e.text().into())])
            }
            D::EnumSeq(bs) => {
                let v: Vec<_> = bs.iter().map(|b| if *b { Ren::First } else { Ren::Second }).collect();
                (q(n, &Some(&v)), v.iter().map(|e| p(n, e.text().into())).collect())
            }
            D::ArcBox(s) => (q(n, &Box::new(std::borrow::Cow::Borrowed(s.as_str()))), vec![p(n, s.clone())]),
            D::Only(k, m) => {
                // a type that takes no room at all, and yet says something
                #[derive(Serialize, Clone)]
                enum Only {
                    A,
                }
                #[derive(Serialize, Clone)]
                struct New<T>(T);
                #[derive(Serialize)]
                struct Obj {
                    x: New<Only>,
                }
                let one = vec![p(n, "A".into())];
                match k {
                    0 => (q(n, &Only::A), one),
                    1 => (q(n, &Some(Only::A)), one),
                    2 => (q(n, &New(Only::A)), one),
                    3 => (q(n, &Some(New(Some(Only::A)))), one),
                    4 => (q(n, &vec![New(Only::A); *m as usize]), vec![one[0].clone(); *m as usize]),
                    _ => (q(n, &Obj { x: New(Only::A) }), vec![p("x", "A".into())]),
                }
            }
            D::Nz(x) => (q(n, &std::num::NonZeroU32::new((*x).max(1)).unwrap()), vec![p(n, (*x).max(1).to_string())]),
        }
    }
}
#[derive(Serialize)]
enum Ren {
    #[serde(rename = "the first+one")]
    First,
    #[serde(rename = "2nd/é")]
    Second,
}
impl Ren {
    fn text(&self) -> &'static str {
        match self {
            Ren::First => "the first+one",
            Ren::Second => "2nd/é",
        }
    }
}

pub fn p03(cx: &mut Ctx) {
    cx.rule("Arbitrary nested values; the model classifies each as representable (its pairs) or not; not representable must refuse the whole request, representable must be exact. Non-trivial: the value is not representable.");
    cx.run("one-parameter", 200_000, 1_500_000, (name_string(), arbitrary()), |(n, v), c| {
        let got = direct(n, v);
        c.label(kind(v));
        match query_model(n, v) {
            Denotes::Pairs(p) => match got {
                Ok(g) => check_pairs(&p, &g),
                Err(e) => Err(Fail::new(format!("refused ({e}); value denotes {p:?}"))),
            },
            Denotes::Unsupported => {
                c.nontrivial();
                c.label("unsupported");
                ensure!(got.is_err(), "a value with no query form was sent as {:?}", got.unwrap());
                Ok(())
            }
            Denotes::Unspecified => Ok(()),
        }
    });
    let bytes = (name_string(), prop_oneof![proptest::collection::vec(any::<u8>(), 1..12), nasty_string().prop_map(String::into_bytes)], 0u8..6);
    cx.run("raw-bytes", 6_000, 20_000, bytes, |(n, b, shape), c| {
        // refused, or sent as text that keeps every byte; never lost
        let v = V::Bytes(b.clone());
        let bx = |v: &V| Box::new(v.clone());
        let (v, n) = match shape {
            0 => (v, n.clone()),
            1 => (V::Some(bx(&v)), n.clone()),
            2 => (V::Newtype(bx(&v)), n.clone()),
            3 => (V::Seq(vec![v], true), n.clone()),
            4 => (V::Struct(vec![("m".into(), v)]), "m".into()),
            _ => (V::NewtypeVariant("m".into(), bx(&v)), "m".into()),
        };
        c.nontrivial();
        if let Ok(got) = direct(&n, &v) {
            c.label("sent");
            ensure!(std::str::from_utf8(b).is_ok_and(|s| got == [(n.clone(), s.to_string())]), "bytes {b:?} were sent as {got:?}");
        } else {
            c.label("refused");
        }
        Ok(())
    });
    cx.run("wide-integers", 6_000, 40_000, (name_string(), any::<bool>(), proptest::collection::vec(gen(|r| [r_int(r), r_int(r)], |_| true), 1..4), 0u8..3), |(n, signed, xs, shape), c| {
        // no integer is written as another
        c.nontrivial();
        struct W(u128, bool);
        impl Serialize for W {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                if self.1 { s.serialize_i128(self.0 as i128) } else { s.serialize_u128(self.0) }
            }
        }
        let w = |x: &[u64; 2]| W((x[0] as u128) << 64 | x[1] as u128, *signed);
        let text = |w: &W| if w.1 { (w.0 as i128).to_string() } else { w.0.to_string() };
        let q = |t: &dyn Fn(&mut Vec<u8>) -> Result<(), String>| {
            let mut out = vec![];
            t(&mut out).map(|()| url::form_urlencoded::parse(&out).into_owned().collect::<Vec<_>>())
        };
        let all: Vec<W> = xs.iter().map(w).collect();
        let enc = |r: Result<String, serde_urlencoded::ser::Error>, out: &mut Vec<u8>| r.map(|s| out.extend(s.into_bytes())).map_err(|e| e.to_string());
        let (got, want) = match shape {
            0 => (q(&|o| enc(serde_urlencoded::to_string(QueryParam::new(n, &all[0])), o)), vec![(n.clone(), text(&all[0]))]),
            1 => (q(&|o| enc(serde_urlencoded::to_string(QueryParam::new(n, &all)), o)), all.iter().map(|w| (n.clone(), text(w))).collect()),
            _ => {
                let m: std::collections::BTreeMap<String, &W> = all.iter().enumerate().map(|(i, w)| (format!("k{i}"), w)).collect();
                (q(&|o| enc(serde_urlencoded::to_string(QueryParam::new(n, &m)), o)), all.iter().enumerate().map(|(i, w)| (format!("k{i}"), text(w))).collect())
            }
        };
        if let Ok(got) = got {
            c.label("sent");
            ensure_eq!(got, want, "integers of 128 bits");
        } else {
            c.label("refused");
        }
        Ok(())
    });
    let bad = gen_if(crate::val::r_arbitrary, |v| query_model("n", &V::Seq(vec![v.clone()], true)) == Denotes::Unsupported);
    cx.run("sizes", 1_200, 10_000, (sized(10_000), bad), |(b, bad), c| {
        // one unsendable element among many
        let (n, v) = b.value(Some(bad));
        if query_model(&n, &v) != Denotes::Unsupported {
            return Ok(()); // a bare text
        }
        c.nontrivial();
        c.label(b.shape());
        ensure!(direct(&n, &v).is_err(), "{} of {} with an unsendable element was sent", b.shape(), b.n);
        Ok(())
    });
    let bad = gen_if(crate::val::r_arbitrary, |v| query_model("n", v) == Denotes::Unsupported);
    let mixed = (proptest::collection::vec((name_string(), supported()), 0..3), name_string(), bad, proptest::collection::vec((name_string(), supported()), 0..3));
    cx.run("request", 60_000, 400_000, mixed, |(pre, n, v, post), c| {
        c.nontrivial();
        let mut ps = pre.clone();
        ps.push((n.clone(), v.clone()));
        ps.extend(post.clone());
        match on_request("http://h/p", &ps) {
            Ok(u) => Err(Fail::new(format!("a request with an unsendable parameter was built anyway: {u}"))),
            Err(e) => {
                ensure!(e.is_builder(), "wrong class of error: {e:?}");
                Ok(())
            }
        }
    });
}

pub fn p04(cx: &mut Ctx) {
    cx.rule("Bodies are objects (structs and maps of scalars, options, newtypes) or arbitrary values; the body bytes are decoded with an independent form decoder. Non-trivial: at least one member with a character that needs encoding, or a value with no form representation.");
    let ok = object();
    let pre = proptest::collection::vec(("x-[a-z]{1,5}", "[!-~]{1,8}"), 0..3);
    let query = proptest::option::of(nasty_string());
    cx.run("objects", 80_000, 300_000, (ok, pre.clone(), query.clone()), |(v, pre, q), c| {
        let exp = match form_model(v) {
            Denotes::Pairs(p) => p,
            _ => return Ok(()),
        };
        c.nontrivial_if(exp.iter().any(|(n, t)| n.chars().any(|c| !c.is_ascii_alphanumeric()) || matches!(t, Text::Is(s) if s.chars().any(|c| !c.is_ascii_alphanumeric()))));
        match form(v, pre, q)? {
            Ok(got) => check_pairs(&exp, &got),
            Err(e) => Err(Fail::new(format!("refused: {e}; value denotes {exp:?}"))),
        }
    });
    let big = prop_oneof![
        proptest::collection::vec((name_string(), wrapped_scalar()), 6..200).prop_map(V::Struct),
        (proptest::collection::vec((name_string().prop_map(K::S), wrapped_scalar()), 6..200), any::<bool>()).prop_map(|(m, s)| V::Map(m, s)),
        proptest::collection::vec((name_string(), long_string().prop_map(V::Str)), 1..6).prop_map(V::Struct),
    ];
    cx.run("large", 1_200, 8000, (big, pre.clone(), query.clone()), |(v, pre, q), c| {
        let Denotes::Pairs(exp) = form_model(v) else { return Ok(()) };
        c.nontrivial_if(exp.len() > 5);
        match form(v, pre, q)? {
            Ok(got) => check_pairs(&exp, &got),
            Err(e) => Err(Fail::new(format!("refused: {e}; value denotes {} pairs", exp.len()))),
        }
    });
    cx.run("sizes", 1_000, 10_000, (sized(20_000), pre.clone(), query.clone(), proptest::option::weighted(0.2, arbitrary())), |(b, pre, q, odd), c| {
        let (n, v) = b.value(odd.as_ref());
        let v = match v {
            v @ (V::Map(..) | V::Struct(_)) => v,
            v @ V::Seq(..) if b.at % 5 == 0 => v,
            V::Seq(xs, _) => V::Map(xs.into_iter().enumerate().map(|(i, x)| (K::S(format!("{n}{i}")), x)).collect(), b.at % 3 == 0),
            v => V::Map(vec![(K::S(n.clone()), v), (K::S("last".into()), V::U8(1))], false),
        };
        c.nontrivial_if(b.n > 100);
        let got = form(&v, pre, q)?;
        match form_model(&v) {
            Denotes::Pairs(p) => match got {
                Ok(g) => check_pairs(&p, &g).map_err(|_| Fail::new(format!("{} of {} units {:?}: {} pairs sent, {} denoted, or other texts", b.shape(), b.n, b.unit, g.len(), p.len()))),
                Err(e) => Err(Fail::new(format!("refused: {e}: {} of {}", b.shape(), b.n))),
            },
            Denotes::Unsupported => {
                ensure!(got.is_err(), "{} of {} with an element that has no form was sent", b.shape(), b.n);
                Ok(())
            }
            Denotes::Unspecified => Ok(()),
        }
    });
    cx.run("any-value", 100_000, 300_000, (arbitrary(), pre, query), |(v, pre, q), c| {
        let got = form(v, pre, q)?;
        match form_model(v) {
            Denotes::Pairs(p) => match got {
                Ok(g) => check_pairs(&p, &g),
                Err(e) => Err(Fail::new(format!("refused: {e}; value denotes {p:?}"))),
            },
            Denotes::Unsupported => {
                c.nontrivial();
                ensure!(got.is_err(), "a value with no form representation was sent as {:?}", got.unwrap());
                Ok(())
            }
            Denotes::Unspecified => Ok(()),
        }
    });
}

/// Outer error: the property is broken; inner: the body was refused.
fn form(v: &V, pre: &[(String, String)], q: &Option<String>) -> Result<Result<Vec<(String, String)>, String>, Fail> {
    let mut rb = client().post("http://h:1234/some/path");
    for (k, x) in pre {
        rb = rb.header(k, x);
    }
    if let Some(q) = q {
        rb = rb.query(&QueryParam::new("q", q));
    }
    let plain = rb.try_clone().unwrap().build().unwrap();
    let rb: Result<reqwest::RequestBuilder, Error<()>> = rb.form_urlencoded(&Ser(v));
    let rb = match rb {
        Ok(r) => r,
        Err(Error::InvalidRequest(m)) => return Ok(Err(m)),
        Err(e) => return Err(Fail::new(format!("unsendable form body reported as {e:?}, not as an invalid request"))),
    };
    let req = rb.build().map_err(|e| Fail::new(format!("request does not build: {e}")))?;
    ensure!(req.method() == plain.method() && req.url() == plain.url(), "method or URL changed: {:?}", req);
    let mut h = req.headers().clone();
    let ct: Vec<_> = h.get_all("content-type").iter().map(|v| v.as_bytes().to_vec()).collect();
    ensure!(ct == vec![b"application/x-www-form-urlencoded".to_vec()], "content-type is {:?}", ct);
    h.remove("content-type");
    ensure!(h == *plain.headers(), "other headers changed: {:?} vs {:?}", h, plain.headers());
    let body = req.body().and_then(|b| b.as_bytes()).ok_or_else(|| Fail::new("no body"))?;
    Ok(Ok(decode_form(body)?))
}

/// application/x-www-form-urlencoded, decoded independently of the encoder.
fn decode_form(b: &[u8]) -> Result<Vec<(String, String)>, Fail> {
    fn un(b: &[u8]) -> Result<String, Fail> {
        let mut out = vec![];
        let mut i = 0;
        while i < b.len() {
            match b[i] {
                b'+' => out.push(b' '),
                b'%' => {
                    let h = b.get(i + 1..i + 3).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok());
                    out.push(h.ok_or_else(|| Fail::new(format!("bad percent escape in {:?}", String::from_utf8_lossy(b))))?);
                    i += 2;
                }
                c if c.is_ascii_graphic() => out.push(c),
                c => return Err(Fail::new(format!("unencoded byte {c} in form body"))),
            }
            i += 1;
        }
        String::from_utf8(out).map_err(|e| Fail::new(format!("form body is not UTF-8: {e}")))
    }
    if b.is_empty() {
        return Ok(vec![]);
    }
    b.split(|c| *c == b'&')
        .map(|p| {
            let mut it = p.splitn(2, |c| *c == b'=');
            let k = un(it.next().unwrap())?;
            let v = un(it.next().ok_or_else(|| Fail::new("pair without ="))?)?;
            Ok((k, v))
        })
        .collect()
}
#[allow(dead_code)]
fn _r() -> R {
    Ok(())
}
