//! P05 typed responses, P06 byte streams, P07 upgrades, P10 the response wrapper.
use crate::http_util::*;
use crate::val::{r_float, r_int, r_name, r_text, r_word};
use bytes::Bytes;
use futures::StreamExt;
use progenitor_client::{ByteStream, Error, ResponseValue};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use serde_json::json;
use vk::gen::{gen, gen_if, Rng};
use vk::{ensure, ensure_eq, Case, Ctx, Fail, R};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Obj {
    pub id: u64,
    pub name: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub note: Option<String>,
    #[serde(default)]
    pub tags: Vec<String>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(tag = "type", rename_all = "snake_case")]
pub enum Tagged {
    Alpha { x: i64 },
    Beta(Obj),
    Gamma,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(deny_unknown_fields)]
pub struct Strict {
    pub a: i32,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ty {
    Json,
    Obj,
    Tagged,
    Strict,
    VecU64,
    Str,
    Bool,
    I8,
    F64,
    Unit,
    OptStr,
    Map,
}
const TYS: &[Ty] = &[Ty::Json, Ty::Obj, Ty::Tagged, Ty::Strict, Ty::VecU64, Ty::Str, Ty::Bool, Ty::I8, Ty::F64, Ty::Unit, Ty::OptStr, Ty::Map];

/// A valid body for the type.
fn r_value(r: &mut Rng, ty: Ty) -> Vec<u8> {
    fn obj(r: &mut Rng) -> Obj {
        Obj { id: r_int(r), name: r_text(r), note: r.chance(50).then(|| r_text(r)), tags: (0..r.below(3)).map(|_| r_text(r)).collect() }
    }
    fn ser<T: Serialize>(r: &mut Rng, v: T) -> Vec<u8> {
        if r.chance(50) { serde_json::to_vec_pretty(&v).unwrap() } else { serde_json::to_vec(&v).unwrap() }
    }
    match ty {
        Ty::Json => {
            let v = r_json(r, 3);
            ser(r, v)
        }
        Ty::Obj => {
            let v = obj(r);
            ser(r, v)
        }
        Ty::Tagged => {
            let v = match r.below(3) {
                0 => Tagged::Alpha { x: r_int(r) as i64 },
                1 => Tagged::Beta(obj(r)),
                _ => Tagged::Gamma,
            };
            ser(r, v)
        }
        Ty::Strict => {
            let v = Strict { a: r_int(r) as i32 };
            ser(r, v)
        }
        Ty::VecU64 => {
            let v: Vec<u64> = (0..r.below(6)).map(|_| r_int(r)).collect();
            ser(r, v)
        }
        Ty::Str => {
            let v = r_text(r);
            ser(r, v)
        }
        Ty::Bool => {
            let v = r.chance(50);
            ser(r, v)
        }
        Ty::I8 => {
            let v = r.u64() as i8;
            ser(r, v)
        }
        Ty::F64 => {
            let v = r_float(r);
            ser(r, v)
        }
        Ty::Unit => b"null".to_vec(),
        Ty::OptStr => {
            let v = r.chance(70).then(|| r_text(r));
            ser(r, v)
        }
        Ty::Map => {
            let v: BTreeMap<String, i64> = (0..r.below(5)).map(|_| (r_name(r), r_int(r) as i64)).collect();
            ser(r, v)
        }
    }
}
/// Texts near JSON, or meant for another reader.
const ODD_BODIES: &[&str] = &[
    "", " ", "\n", "null", "null ", "NULL", "None", "undefined", "true", "TRUE", "True", "false", "0", "-0", "1", "-1", "00", "01", "+1", "1.", ".5", "1.0", "1e2", "1E+2", "1e400", "-1e400", "0x10", "NaN", "Infinity", "127", "128", "-128", "-129", "255", "18446744073709551615", "18446744073709551616", "1e19", "123456789012345678901234567890",
    "\"\"", "\"a\"", "'a'", "a", "\"a", "\"\\u0041\"", "\"\\ud83e\\udd80\"", "\"\\ud800\"", "\"\\x41\"", "\"\\/\"", "\"\\u0000\"", "\"\n\"", "\"\t\"", "\"a\" \"b\"", "\"\u{2028}\"", "\"null\"", "\"true\"", "\"1\"",
    "[]", "[ ]", "[1]", "[1,]", "[,1]", "[1 2]", "[[1]]", "[null]", "[1,\"a\"]", "[\"1\"]", "[1.0]", "[1]\n[2]", "[1]//x", "/*x*/[1]", "[1,-1]",
    "{}", "{ }", "{\"a\":1}", "{\"a\":1,}", "{\"a\":1,\"a\":2}", "{a:1}", "{'a':1}", "{\"a\":\"1\"}", "{\"a\":1.0}", "{\"a\":null}", "{\"A\":1}", "{\"a\":1,\"b\":2}", "{\"a\":2147483648}", "{\"a\":1}{\"a\":2}", "{\"a\":1}\n{\"a\":2}\n", "{\"a\":1};", "[1]", "{\"data\":{\"a\":1}}", "{\"result\":[1]}",
    "{\"type\":\"gamma\"}", "{\"type\":\"Gamma\"}", "{\"type\":\"gamma\",\"x\":1}", "{\"x\":1,\"type\":\"alpha\"}", "{\"type\":\"alpha\"}", "{\"type\":\"delta\"}", "\"gamma\"", "{\"type\":\"alpha\",\"x\":1,\"x\":2}", "[\"alpha\",1]",
    "{\"id\":1,\"name\":\"n\"}", "{\"id\":1,\"name\":\"n\",\"note\":null}", "{\"id\":1,\"name\":null}", "{\"id\":\"1\",\"name\":\"n\"}", "{\"id\":1,\"name\":\"n\",\"more\":{\"x\":[]}}", "{\"name\":\"n\",\"id\":1,\"id\":2}", "[1,\"n\",null,[]]", "[1,\"n\"]", "{\"id\":-1,\"name\":\"\"}", "{\"id\":1,\"name\":\"n\",\"tags\":null}",
    ")]}'\n[1]", ")]}',\n{\"a\":1}", "while(1);[1]", "for(;;);{}", "callback([1])", "\u{feff}[1]", "\0", "\0\0\0\0", "[1]\0", "\u{1e}[1]\n", "<html><body>502</body></html>", "<?xml version=\"1.0\"?><a/>", "a=b&c=d", "OK", "ok\n", "data: [1]\n\n", "5\r\n[1,2]\r\n0\r\n\r\n", "HTTP/1.1 200 OK\r\n\r\n[1]",
];
fn r_typed_body(r: &mut Rng, ty: Ty) -> Vec<u8> {
    match r.below(10) {
        0 => return r.pick(ODD_BODIES).as_bytes().to_vec(),
        1 => match r.below(4) {
            0 => return r_json(r, 3).to_string().into_bytes(),
            1 => return (0..r.below(20)).map(|_| r.u64() as u8).collect(),
            2 => return r_text(r).into_bytes(),
            _ => {
                // nested about as deep as decoders go
                let n = 100 + r.below(60);
                return format!("{}{}", "[".repeat(n), "]".repeat(n)).into_bytes();
            }
        },
        _ => {}
    }
    let mut b = r_value(r, ty);
    if r.chance(20) {
        // another value of the same outline
        if let Ok(serde_json::Value::Object(mut o)) = serde_json::from_slice(&b) {
            let keys: Vec<String> = o.keys().cloned().collect();
            let k = if keys.is_empty() { "k".to_string() } else { r.pick(&keys).clone() };
            let text = match r.below(6) {
                0 => {
                    o.remove(&k);
                    json!(o).to_string()
                }
                1 => {
                    o.insert(k, serde_json::Value::Null);
                    json!(o).to_string()
                }
                2 => {
                    let w = r_word(r);
                    let v = r_json(r, 1);
                    o.insert(w, v);
                    json!(o).to_string()
                }
                3 => {
                    // twice the same member
                    let v = o.get(&k).cloned().unwrap_or_default();
                    let inner = json!(o).to_string();
                    let other = if r.chance(50) { v } else { r_json(r, 1) };
                    format!("{}{}{}:{}}}", &inner[..inner.len() - 1], if o.is_empty() { "" } else { "," }, json!(k), other)
                }
                4 => {
                    if let Some(v) = o.get_mut(&k) {
                        *v = match &*v {
                            serde_json::Value::String(s) => s.parse::<f64>().map(|f| json!(f)).unwrap_or(json!([s])),
                            v => json!(v.to_string()),
                        };
                    }
                    json!(o).to_string()
                }
                _ => json!(o.values().collect::<Vec<_>>()).to_string(),
            };
            b = text.into_bytes();
        }
    }
    match r.weighted(&[5, 1, 1, 1, 1, 1]) {
        0 => {}
        1 => b.truncate(r.below(b.len() + 1)),
        2 => {
            if !b.is_empty() {
                let i = r.below(b.len());
                b[i] ^= r.u64() as u8
            }
        }
        3 => {
            let x = match r.below(3) {
                0 => r.pick(&[" ", "}", "\n", "\r\n", "\0", ";", ",", "]", " \t\r\n", "//", "null", "\u{feff}", "\u{a0}", "\u{c}", "x"]).as_bytes().to_vec(),
                1 => b.clone(),
                _ => (0..1 + r.below(3)).map(|_| r.u64() as u8).collect(),
            };
            b.extend(x)
        }
        4 => {
            let mut x = match r.below(2) {
                0 => r.pick(&["\u{feff}", " \t\r\n", ")]}'\n", ")]}',\n", "while(1);", "\0", "//x\n", "\u{1e}", "\u{a0}", "\u{b}", "#", "\n"]).as_bytes().to_vec(),
                _ => (0..1 + r.below(2)).map(|_| r.u64() as u8).collect(),
            };
            x.extend(b);
            b = x
        }
        _ => {
            // in another encoding
            let s = String::from_utf8_lossy(&b).into_owned();
            b = match r.below(3) {
                0 => s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect(),
                1 => [0xfe, 0xff].into_iter().chain(s.encode_utf16().flat_map(|u| u.to_be_bytes())).collect(),
                _ => s.chars().map(|c| if (c as u32) < 256 { c as u32 as u8 } else { b'?' }).collect(),
            };
        }
    }
    b
}
fn r_ty(r: &mut Rng) -> (Ty, Vec<u8>) {
    let t = *r.pick(TYS);
    let b = r_typed_body(r, t);
    (t, b)
}

macro_rules! with_ty {
    ($ty:expr, $f:ident($($a:expr),*)) => {
        match $ty {
            Ty::Json => $f::<serde_json::Value>($($a),*),
            Ty::Obj => $f::<Obj>($($a),*),
            Ty::Tagged => $f::<Tagged>($($a),*),
            Ty::Strict => $f::<Strict>($($a),*),
            Ty::VecU64 => $f::<Vec<u64>>($($a),*),
            Ty::Str => $f::<String>($($a),*),
            Ty::Bool => $f::<bool>($($a),*),
            Ty::I8 => $f::<i8>($($a),*),
            Ty::F64 => $f::<f64>($($a),*),
            Ty::Unit => $f::<()>($($a),*),
            Ty::OptStr => $f::<Option<String>>($($a),*),
            Ty::Map => $f::<BTreeMap<String, i64>>($($a),*),
        }
    };
}

fn judge_typed<T: DeserializeOwned + PartialEq + Debug>(
    body: &[u8],
    broken: bool,
    status: u16,
    hdr: &dyn Fn(&reqwest::header::HeaderMap) -> R,
    got: Result<ResponseValue<T>, Error<String>>,
    c: &mut Case,
) -> R {
    let reference = serde_json::from_slice::<T>(body);
    match got {
        Ok(rv) => {
            ensure!(!broken, "body broke off after {:?} but was decoded as {:?}", String::from_utf8_lossy(body), rv);
            let want = reference.map_err(|e| Fail::new(format!("invalid body {:?} ({e}) was accepted as {rv:?}", String::from_utf8_lossy(body))))?;
            ensure_eq!(rv.status().as_u16(), status, "status");
            hdr(rv.headers())?;
            ensure_eq!(*rv, want, "decoded value (Deref)");
            ensure_eq!(rv.into_inner(), want, "decoded value");
            c.label("decoded");
            c.nontrivial_if(body.len() > 4);
        }
        Err(Error::ResponseBodyError(e)) => {
            ensure!(broken, "complete body reported as a body error: {e:?}");
            c.label("body error");
            c.nontrivial();
        }
        Err(Error::InvalidResponsePayload(b, e)) => {
            ensure!(!broken, "body broke off but reported as an invalid payload: {e}");
            ensure!(b == body, "payload kept as {:?}, body was {:?}", b, body);
            let Err(want) = reference else {
                return Err(Fail::new(format!("valid body {:?} rejected: {e}", String::from_utf8_lossy(body))));
            };
            ensure!(
                e.to_string() == want.to_string() && e.classify() == want.classify(),
                "decoding error is {e}, the body's own is {want}"
            );
            c.label("invalid payload");
            c.nontrivial();
        }
        Err(e) => return Err(Fail::new(format!("unexpected kind of error: {e:?}"))),
    }
    Ok(())
}

fn typed_mem<T: DeserializeOwned + PartialEq + Debug>(rt: &Rt, d: &Delivery, c: &mut Case) -> R {
    let got = rt.block(ResponseValue::<T>::from_response::<String>(d.response()));
    judge_typed(&d.body, d.failing_at().is_some(), d.status, &|h| exact_headers(d, h), got, c)
}
fn exact_headers(d: &Delivery, h: &reqwest::header::HeaderMap) -> R {
    ensure!(*h == d.header_map(), "headers: got {h:?}, response had {:?}", d.header_map());
    Ok(())
}
fn typed_wire<T: DeserializeOwned + PartialEq + Debug>(rt: &Rt, w: &Wire, c: &mut Case) -> R {
    let got = rt.block(async {
        let (a, h) = w.listen().await;
        let r = rt.client.get(format!("http://{a}/")).send().await.map_err(|e| Fail::new(format!("harness: send failed {e:?}")));
        let g = match r {
            Ok(r) => Ok(ResponseValue::<T>::from_response::<String>(r).await),
            Err(e) => Err(e),
        };
        h.await.unwrap();
        g
    })?;
    judge_typed(&w.d.body, w.cut_short().is_some(), w.d.status, &|h| headers_preserved(&w.d, h), got, c)
}

pub fn p05(cx: &mut Ctx) {
    cx.rule("Bodies for 12 result types, valid or damaged (truncated, bit-flipped, trailing/leading bytes, other JSON, noise), delivered in arbitrary chunks with an optional injected failure, in memory and over a real socket with three framings. Oracle: serde_json on the whole body, plus the fault actually injected. Non-trivial: a decoded body over 4 bytes, a rejected body or a failed delivery.");
    cx.assumptions.push("serde_json decides which bytes are a valid value of a type".into());
    let rt = Rt::new();
    let typed = |r: &mut Rng| {
        let (t, b) = r_ty(r);
        (t, r_delivery(r, b, true))
    };
    cx.run("in-memory", 160_000, 1_000_000, gen(typed, |x| valid_delivery(&x.1)), |(t, d), c| {
        c.label(format!("{t:?}"));
        with_ty!(*t, typed_mem(&rt, d, c))
    });
    let s = gen(
        |r| {
            let (t, b) = r_ty(r);
            (t, r_wire(r, b, true))
        },
        |x: &(Ty, Wire)| valid_wire(&x.1),
    );
    cx.run("socket", 3_000, 30_000, s, |(t, w), c| {
        c.label(format!("{:?}{}", w.framing, if w.cut_short().is_some() { " cut" } else { "" }));
        with_ty!(*t, typed_wire(&rt, w, c))
    });
    let big = gen(
        |r| {
            let v: Vec<u64> = (0..500 + r.below(39_500)).map(|_| r.u64()).collect();
            let mut b = if r.chance(50) { serde_json::to_vec_pretty(&v).unwrap() } else { serde_json::to_vec(&v).unwrap() };
            match r.below(4) {
                0 => b.truncate(b.len() - 1),
                1 => b.push(b']'),
                _ => {}
            }
            r_big_delivery(r, b)
        },
        valid_delivery,
    );
    cx.run("large-bodies", 240, 2000, big, |d, c| {
        c.nontrivial();
        typed_mem::<Vec<u64>>(&rt, d, c)
    });
    // bodies of all sizes
    cx.run("sizes", 200, 2_500, bulk(40 << 20, 5_000), |k, c| {
        c.nontrivial_if(k.bytes > 1000);
        let n = k.bytes as usize;
        let text = |n: usize| {
            let mut b = vec![b'"'];
            b.extend((0..n).map(|i| b'a' + (i % 23) as u8));
            b.push(b'"');
            b
        };
        // what it is, and then what is wrong with it
        let mut body = match k.how % 5 {
            0 => text(n),
            1 => format!("[{}]", (0..n / 8).map(|i| (1_000_000 + i).to_string()).collect::<Vec<_>>().join(",")).into_bytes(),
            2 => format!("{{{}}}", (0..n / 12).map(|i| format!("\"k{i}\":{i}")).collect::<Vec<_>>().join(",")).into_bytes(),
            3 => [vec![b' '; n], b"17".to_vec()].concat(),
            _ => [b"[\"x\"]".to_vec(), vec![b'\n'; n]].concat(),
        };
        match k.how / 5 % 5 {
            0 => body.truncate(body.len() - 1),
            1 => body.push(b'x'),
            _ => {}
        }
        let body = Bytes::from(body);
        let reference = serde_json::from_slice::<serde_json::Value>(&body);
        let got = rt.block(ResponseValue::<serde_json::Value>::from_response::<()>(k.response(&body)));
        match (k.fails, reference, got) {
            (Some(_), _, Err(Error::ResponseBodyError(_))) => Ok(()),
            (None, Ok(want), Ok(rv)) => {
                ensure!(*rv == want, "a body of {} bytes was decoded as something else", body.len());
                Ok(())
            }
            (None, Err(want), Err(Error::InvalidResponsePayload(b, e))) => {
                ensure!(b == body, "{} bytes kept of a body of {}", b.len(), body.len());
                ensure_eq!(e.to_string(), want.to_string(), "decoding error");
                Ok(())
            }
            (f, w, g) => Err(Fail::new(format!("body of {} bytes, failing {f:?}, valid {}: {}", body.len(), w.is_ok(), match g { Ok(_) => "decoded".into(), Err(e) => e.to_string().chars().take(200).collect::<String>() }))),
        }
    });
    // several at once, each delayed differently
    let several = gen(
        move |r| {
            (0..2 + r.below(4))
                .map(|_| {
                    let (t, mut d) = typed(r);
                    d.pauses = true;
                    (t, d, r.below(6) as u8)
                })
                .collect::<Vec<_>>()
        },
        |v| v.iter().all(|x| valid_delivery(&x.1)),
    );
    cx.run("interleaved", 12_000, 80_000, several, |v, c| {
        async fn one<T: DeserializeOwned>(d: &Delivery, delay: u8) -> Result<ResponseValue<T>, Error<String>> {
            for _ in 0..delay {
                tokio::task::yield_now().await;
            }
            ResponseValue::<T>::from_response::<String>(d.response()).await
        }
        fn boxed<'a, T: DeserializeOwned + PartialEq + Debug + 'a>(d: &'a Delivery, delay: u8, c: &'a std::cell::RefCell<&mut Case>) -> std::pin::Pin<Box<dyn std::future::Future<Output = R> + 'a>> {
            Box::pin(async move {
                let got = one::<T>(d, delay).await;
                judge_typed(&d.body, d.failing_at().is_some(), d.status, &|h| exact_headers(d, h), got, &mut c.borrow_mut())
            })
        }
        let c = std::cell::RefCell::new(c);
        let fs: Vec<_> = v.iter().map(|(t, d, delay)| with_ty!(*t, boxed(d, *delay, &c))).collect();
        rt.block(futures::future::join_all(fs)).into_iter().collect()
    });
    // A body whose delivered prefix is itself valid must still be an error.
    let s = gen(
        |r| {
            let v: Vec<u64> = (0..1 + r.below(3)).map(|_| r.u64()).collect();
            let mut d = r_delivery(r, vec![], false);
            let mut b = serde_json::to_vec(&v).unwrap();
            let n = b.len() as u16;
            b.extend_from_slice(b"  \n ");
            d.body = b;
            d.cuts = vec![n];
            d.fail_after = Some(1);
            d
        },
        valid_delivery,
    );
    cx.run("valid-prefix-then-failure", 2_000, 5000, s, |d, c| typed_mem::<Vec<u64>>(&rt, d, c));
}

// ------------------------------------------------------------------ P06

async fn drain<S>(mut s: S) -> (Vec<Bytes>, Option<reqwest::Error>, bool)
where
    S: futures::Stream<Item = reqwest::Result<Bytes>> + Unpin,
{
    let mut out = vec![];
    loop {
        match s.next().await {
            Some(Ok(b)) => out.push(b),
            Some(Err(e)) => {
                // nothing but the end may follow a failure
                let more = s.next().await.is_some_and(|r| r.is_ok());
                return (out, Some(e), more);
            }
            None => return (out, None, false),
        }
    }
}
fn judge_stream(full: &[u8], broken_prefix: Option<&[u8]>, got: (Vec<Bytes>, Option<reqwest::Error>, bool), exact_prefix: bool) -> R {
    let all = got.0.concat();
    ensure!(!got.2, "data delivered after a failure");
    match (broken_prefix, got.1) {
        (None, None) => {
            ensure!(all == full, "stream delivered {} bytes {:?}, body has {} bytes {:?}", all.len(), short(&all), full.len(), short(full));
        }
        (None, Some(e)) => return Err(Fail::new(format!("complete body reported as failed: {e:?}"))),
        (Some(_), None) => return Err(Fail::new(format!("failed delivery ended cleanly after {} bytes", all.len()))),
        (Some(p), Some(_)) => {
            ensure!(
                if exact_prefix { all == p } else { p.starts_with(&all) },
                "before the failure {:?} was delivered, {:?} had been received",
                short(&all),
                short(p)
            );
        }
    }
    Ok(())
}
fn short(b: &[u8]) -> String {
    String::from_utf8_lossy(&b[..b.len().min(60)]).into_owned()
}

pub fn p06(cx: &mut Ctx) {
    cx.rule("Bodies (empty to several KB) delivered in arbitrary chunks with pauses, ending cleanly or by an injected failure after any chunk; consumed through every public way of taking the stream. Non-trivial: at least two chunks, or a failure.");
    let rt = Rt::new();
    cx.run("in-memory", 80_000, 500_000, (delivery(r_body, true), 0u8..5), |(d, how), c| {
        c.nontrivial_if(d.chunks().len() > 1 || d.fail_after.is_some());
        c.label(if d.fail_after.is_some() { "failing" } else { "complete" });
        let rv = ResponseValue::stream(d.response());
        ensure_eq!(rv.status().as_u16(), d.status, "status");
        exact_headers(d, rv.headers())?;
        let prefix = d.failing_at().map(|n| d.chunks()[..n].concat());
        let got = rt.block(async {
            match how {
                0 => drain(rv.into_inner_stream()).await,
                1 => drain(rv.into_inner().into_inner()).await,
                2 => {
                    // polled in place through the wrappers
                    let mut rv = rv;
                    let first = rv.next().await;
                    let inner = rv.into_inner_stream();
                    let st = futures::stream::iter(first).chain(inner);
                    drain(Box::pin(st)).await
                }
                3 => {
                    let mut bs: ByteStream = rv.into_inner();
                    let first = bs.next().await;
                    drain(Box::pin(futures::stream::iter(first).chain(bs.into_inner()))).await
                }
                _ => {
                    let mapped: ResponseValue<Wrapped> = rv.map::<_, _, ()>(Wrapped).unwrap();
                    drain(mapped.into_inner().0.into_inner()).await
                }
            }
        });
        judge_stream(&d.body, prefix.as_deref(), got, true)
    });
    cx.run("large", 480, 4000, gen(|r| { let b = r_big_bytes(r); r_big_delivery(r, b) }, valid_delivery), |d, c| {
        c.nontrivial();
        c.label(if d.fail_after.is_some() { "failing" } else { "complete" });
        let rv = ResponseValue::stream(d.response());
        let prefix = d.failing_at().map(|n| d.chunks()[..n].concat());
        let got = rt.block(drain(rv.into_inner_stream()));
        judge_stream(&d.body, prefix.as_deref(), got, true)
    });
    cx.run("sizes", 200, 2_500, bulk(70 << 20, 5_000), |k, c| {
        c.nontrivial_if(k.bytes > k.chunk || k.fails.is_some());
        let body = Bytes::from(pattern(k.bytes as usize, k.key));
        let want = k.pieces(&body);
        let rv = ResponseValue::stream(k.response(&body));
        let (got, e, more) = rt.block(async {
            match k.how % 3 {
                0 => drain(rv.into_inner_stream()).await,
                1 => drain(rv.into_inner().into_inner()).await,
                _ => {
                    let mut rv = rv;
                    let first = rv.next().await;
                    drain(Box::pin(futures::stream::iter(first).chain(rv.into_inner_stream()))).await
                }
            }
        });
        ensure!(!more, "data after a failure");
        ensure!(e.is_some() == k.fails.is_some(), "{} bytes in chunks of {}: failure {e:?}, injected {:?}", k.bytes, k.chunk, k.fails);
        let (a, b): (usize, usize) = (got.iter().map(|x| x.len()).sum(), want.iter().map(|x| x.len()).sum());
        ensure!(a == b && got.concat() == want.concat(), "{} bytes in chunks of {}: {a} bytes came out, {b} had been received, or others", k.bytes, k.chunk);
        Ok(())
    });
    let several = gen(
        |r| {
            let n = 2 + r.below(3);
            let ds: Vec<Delivery> = (0..n)
                .map(|_| {
                    let b = r_body(r);
                    let mut d = r_delivery(r, b, true);
                    d.cuts = (0..r.below(8)).map(|_| r.u64() as u16).collect();
                    d
                })
                .collect();
            let order: Vec<u8> = (0..r.below(40)).map(|_| r.below(n) as u8).collect();
            (ds, order)
        },
        |x| !x.0.is_empty() && x.0.iter().all(valid_delivery),
    );
    cx.run("interleaved", 8_000, 60_000, several, |(ds, order), c| {
        // several streams read by turns
        c.nontrivial();
        let mut open: Vec<_> = ds.iter().map(|d| (ResponseValue::stream(d.response()), vec![], None::<Option<reqwest::Error>>)).collect();
        rt.block(async {
            for k in order.iter().map(|k| *k as usize % ds.len()).chain((0..ds.len()).flat_map(|k| vec![k; ds[k].chunks().len() + 2])) {
                let (rv, out, end) = &mut open[k];
                if end.is_none() {
                    match rv.next().await {
                        Some(Ok(b)) => out.push(b),
                        Some(Err(e)) => *end = Some(Some(e)),
                        None => *end = Some(None),
                    }
                }
            }
        });
        for (d, (rv, out, end)) in ds.iter().zip(open) {
            ensure_eq!(rv.status().as_u16(), d.status, "status");
            exact_headers(d, rv.headers())?;
            let Some(e) = end else { return Err(Fail::new("a stream delivers more chunks than its body has")) };
            let prefix = d.failing_at().map(|n| d.chunks()[..n].concat());
            judge_stream(&d.body, prefix.as_deref(), (out, e, false), true)?;
        }
        Ok(())
    });
    cx.run("large-socket", 80, 1000, (gen(|r| { let b = r_big_bytes(r); r_big_delivery(r, b) }, valid_delivery), proptest::sample::select(vec![Framing::Length, Framing::Chunked, Framing::Close])), |(d, framing), c| {
        c.nontrivial();
        let w = Wire { d: Delivery { status: 200, ..d.clone() }, framing: *framing };
        c.label(format!("{:?}{}", w.framing, if w.cut_short().is_some() { " cut" } else { "" }));
        let got = rt.block(async {
            let (a, h) = w.listen().await;
            let r = rt.client.get(format!("http://{a}/")).send().await.map_err(|e| Fail::new(format!("harness: send failed {e:?}")))?;
            let got = drain(ResponseValue::stream(r).into_inner_stream()).await;
            h.await.unwrap();
            Ok::<_, Fail>(got)
        })?;
        let pre = w.cut_short().map(|_| w.delivered());
        judge_stream(&w.d.body, pre.as_deref(), got, false)
    });
    cx.run("hand-made", 12_000, 50_000, proptest::collection::vec(proptest::collection::vec(any::<u8>(), 0..6), 0..6), |cs, c| {
        // a stream built by hand is handed back unchanged, chunk by chunk
        c.nontrivial_if(cs.len() > 1);
        let items: Vec<Bytes> = cs.iter().map(|b| Bytes::copy_from_slice(b)).collect();
        let st = futures::stream::iter(items.clone().into_iter().map(Ok));
        let bs = ByteStream::new(Box::pin(st));
        let rv = ResponseValue::new(bs, reqwest::StatusCode::OK, Default::default());
        let (got, e, _) = rt.block(drain(rv.into_inner_stream()));
        ensure!(e.is_none(), "spurious failure");
        ensure_eq!(got, items, "chunks");
        Ok(())
    });
    cx.run("socket", 3_000, 30_000, wire(r_body, true), |w, c| {
        c.label(format!("{:?}{}", w.framing, if w.cut_short().is_some() { " cut" } else { "" }));
        c.nontrivial_if(w.chunks().len() > 1 || w.cut_short().is_some());
        let (st, hd, got) = rt.block(async {
            let (a, h) = w.listen().await;
            let r = rt.client.get(format!("http://{a}/")).send().await.map_err(|e| Fail::new(format!("harness: send failed {e:?}")))?;
            let rv = ResponseValue::stream(r);
            let (st, hd) = (rv.status(), rv.headers().clone());
            let got = drain(rv.into_inner_stream()).await;
            h.await.unwrap();
            Ok::<_, Fail>((st, hd, got))
        })?;
        ensure_eq!(st.as_u16(), w.d.status, "status");
        headers_preserved(&w.d, &hd)?;
        let pre = w.cut_short().map(|_| w.delivered());
        judge_stream(&w.d.body, pre.as_deref(), got, false)
    });
    cx.run("incremental", 800, 8000, proptest::collection::vec(proptest::collection::vec(any::<u8>(), 1..50), 1..6), |cs, c| {
        // each chunk is readable before the next one exists
        c.nontrivial_if(cs.len() > 1);
        rt.block(async {
            let (tx, rx) = tokio::sync::mpsc::unbounded_channel::<Result<Bytes, std::io::Error>>();
            let st = futures::stream::unfold(rx, |mut rx| async move { rx.recv().await.map(|x| (x, rx)) });
            let resp = reqwest::Response::from(http::Response::new(reqwest::Body::wrap_stream(st)));
            let mut s = ResponseValue::stream(resp).into_inner_stream();
            for (i, ch) in cs.iter().enumerate() {
                ensure!(futures::poll!(s.next()).is_pending(), "something readable before chunk {i} was sent");
                tx.send(Ok(Bytes::copy_from_slice(ch))).unwrap();
                match futures::poll!(s.next()) {
                    std::task::Poll::Ready(Some(Ok(b))) => ensure!(b == *ch, "chunk {i} is {b:?}"),
                    x => return Err(Fail::new(format!("chunk {i} was sent but is not readable: {x:?}"))),
                }
            }
            drop(tx);
            ensure!(matches!(futures::poll!(s.next()), std::task::Poll::Ready(None)), "no end of stream");
            Ok(())
        })
    });
}
struct Wrapped(ByteStream);
impl Debug for Wrapped {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        
        f.write_str("Wrapped")
    }
}

// ------------------------------------------------------------------ P07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Up {
    /// protocol named in the answer's upgrade headers
    upgrade: Vec<String>,
    early: Vec<u8>,
    rounds: Vec<(Vec<u8>, Vec<u8>)>,
    headers: Vec<(String, Vec<u8>)>,
}

pub fn p07(cx: &mut Ctx) {
    cx.rule("Upgrade handshakes over a real socket: server bytes that arrive together with the 101, then rounds of client and server messages in lockstep; and every other status with any body. Non-trivial: data flowed in both directions, or a non-101 body was read back.");
    let rt = Rt::new();
    fn msg(r: &mut Rng) -> Vec<u8> {
        let n = match r.below(30) {
            0 => *r.pick(&[1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385, 32768, 65535, 65536, 65537]),
            1 => r.below(200_000),
            2..5 => 0,
            _ => r.below(200),
        };
        pattern(n, r.u64() as u32)
    }
    let s = gen(
        |r| Up {
            upgrade: match r.below(6) {
                0 => vec![],
                1 => vec!["h2c".into(), "websocket".into()],
                2 => vec![r.pick(&["WebSocket", "h2c", "foo/2", "websocket, h2c", "HTTP/2.0", "TLS/1.0", "x"]).to_string()],
                3 => vec!["websocket".into(); 3],
                _ => vec!["websocket".into()],
            },
            early: msg(r),
            rounds: (0..r.below(4)).map(|_| (msg(r), msg(r))).collect(),
            headers: r_headers(r),
        },
        |u| u.headers.iter().all(header_ok) && u.upgrade.iter().all(|s| value_ok(s.as_bytes())),
    );
    cx.run("accepted", 1_200, 12_000, s, |u, c| {
        c.nontrivial_if(u.rounds.iter().any(|(a, b)| !a.is_empty() && !b.is_empty()));
        c.label(if u.early.is_empty() { "no early data" } else { "early data" });
        rt.block(async {
            let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
            let a = l.local_addr().unwrap();
            let uu = u.clone();
            let srv = tokio::spawn(async move {
                let (mut s, _) = l.accept().await.unwrap();
                read_request(&mut s).await;
                let mut head = b"HTTP/1.1 101 Switching Protocols\r\n".to_vec();
                if !uu.upgrade.is_empty() {
                    head.extend_from_slice(b"connection: Upgrade\r\n");
                }
                for u in &uu.upgrade {
                    head.extend_from_slice(format!("upgrade: {u}\r\n").as_bytes());
                }
                for (k, v) in &uu.headers {
                    if k != "content-type" {
                        head.extend_from_slice(k.as_bytes());
                        head.extend_from_slice(b": ");
                        head.extend_from_slice(v);
                        head.extend_from_slice(b"\r\n");
                    }
                }
                head.extend_from_slice(b"\r\n");
                head.extend_from_slice(&uu.early);
                let _ = s.write_all(&head).await;
                let mut got = vec![];
                for (from_client, to_client) in &uu.rounds {
                    let mut b = vec![0u8; from_client.len()];
                    if s.read_exact(&mut b).await.is_err() {
                        return got;
                    }
                    got.push(b);
                    if s.write_all(to_client).await.is_err() {
                        return got;
                    }
                }
                let _ = s.shutdown().await;
                got
            });
            let resp = rt
                .client
                .get(format!("http://{a}/"))
                .header("connection", "Upgrade")
                .header("upgrade", "websocket")
                .send()
                .await
                .map_err(|e| Fail::new(format!("harness: {e:?}")))?;
            let sent_headers = resp.headers().clone();
            let rv: Result<ResponseValue<reqwest::Upgraded>, Error<()>> = ResponseValue::upgrade(resp).await;
            let rv = rv.map_err(|e| Fail::new(format!("accepted upgrade failed: {e:?}")))?;
            ensure_eq!(rv.status().as_u16(), 101, "status");
            ensure!(*rv.headers() == sent_headers, "headers changed");
            let mut io = rv.into_inner();
            let mut early = vec![0u8; u.early.len()];
            io.read_exact(&mut early).await.map_err(|e| Fail::new(format!("data sent with the handshake is lost: {e}")))?;
            ensure!(early == u.early, "data sent with the handshake is damaged");
            for (to_srv, from_srv) in &u.rounds {
                io.write_all(to_srv).await.map_err(|e| Fail::new(format!("write: {e}")))?;
                io.flush().await.map_err(|e| Fail::new(format!("flush: {e}")))?;
                let mut b = vec![0u8; from_srv.len()];
                io.read_exact(&mut b).await.map_err(|e| Fail::new(format!("read: {e}")))?;
                ensure!(b == *from_srv, "server's message damaged");
            }
            let mut rest = vec![];
            io.read_to_end(&mut rest).await.map_err(|e| Fail::new(format!("end: {e}")))?;
            ensure!(rest.is_empty(), "extra bytes {rest:?}");
            let got = srv.await.unwrap();
            ensure!(got == u.rounds.iter().map(|r| r.0.clone()).collect::<Vec<_>>(), "server received {got:?}");
            Ok(())
        })
    });
    // several connections taken over at the same time
    let several = gen(|r| (0..2 + r.below(3)).map(|_| (msg(r), r.below(5) as u8, r.chance(70))).collect::<Vec<_>>(), |_| true);
    cx.run("interleaved", 250, 2_500, several, |v, c| {
        c.nontrivial_if(v.iter().filter(|x| x.2).count() > 1);
        let one = |k: usize, early: &Vec<u8>, delay: u8, accepts: bool| {
            let early = early.clone();
            let rt = &rt;
            async move {
                let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
                let a = l.local_addr().unwrap();
                let e2 = early.clone();
                tokio::spawn(async move {
                    let (mut s, _) = l.accept().await.unwrap();
                    read_request(&mut s).await;
                    let head = if accepts {
                        format!("HTTP/1.1 101 X\r\nconnection: Upgrade\r\nupgrade: websocket\r\nx-which: {k}\r\n\r\n")
                    } else {
                        format!("HTTP/1.1 200 X\r\nx-which: {k}\r\ncontent-length: {}\r\n\r\n", e2.len())
                    };
                    let _ = s.write_all(head.as_bytes()).await;
                    let _ = s.write_all(&e2).await;
                    let _ = s.shutdown().await;
                });
                let resp = rt.client.get(format!("http://{a}/")).header("connection", "Upgrade").header("upgrade", "websocket").send().await.map_err(|e| Fail::new(format!("harness: {e:?}")))?;
                for _ in 0..delay {
                    tokio::task::yield_now().await;
                }
                let which = |h: &reqwest::header::HeaderMap| h.get("x-which").is_some_and(|v| v.as_bytes() == k.to_string().as_bytes());
                match ResponseValue::upgrade::<()>(resp).await {
                    Ok(rv) => {
                        ensure!(accepts && rv.status().as_u16() == 101 && which(rv.headers()), "connection {k}: status {}, headers {:?}", rv.status(), rv.headers());
                        let mut got = vec![];
                        rv.into_inner().read_to_end(&mut got).await.map_err(|e| Fail::new(format!("connection {k}: {e}")))?;
                        ensure!(got == early, "connection {k} delivers {} other bytes", got.len());
                    }
                    Err(Error::UnexpectedResponse(r)) => {
                        ensure!(!accepts && r.status().as_u16() == 200 && which(r.headers()), "connection {k}: refused, status {}", r.status());
                        let b = r.bytes().await.map_err(|e| Fail::new(format!("connection {k}: {e}")))?;
                        ensure!(b == early, "response {k} has another body");
                    }
                    Err(e) => return Err(Fail::new(format!("connection {k}: {e:?}"))),
                }
                Ok(())
            }
        };
        let fs: Vec<_> = v.iter().enumerate().map(|(k, (e, d, a))| one(k, e, *d, *a)).collect();
        rt.block(futures::future::join_all(fs)).into_iter().collect()
    });
    let other = gen_if(
        |r| {
            let b = r_body(r);
            r_delivery(r, b, false)
        },
        |d| valid_delivery(d) && d.status != 101,
    );
    cx.run("refused", 16_000, 80_000, other, |d, c| {
        c.nontrivial_if(!d.body.is_empty());
        let r: Result<ResponseValue<reqwest::Upgraded>, Error<String>> = rt.block(ResponseValue::upgrade(d.response()));
        match r {
            Ok(_) => Err(Fail::new(format!("status {} treated as an upgrade", d.status))),
            Err(e) => {
                ensure_eq!(e.status().map(|s| s.as_u16()), Some(d.status), "status of the error");
                match e {
                    Error::UnexpectedResponse(resp) => same_response(&rt, d, resp),
                    e => Err(Fail::new(format!("refused upgrade reported as {e:?}"))),
                }
            }
        }
    });
    let all: Vec<u16> = (100..1000).filter(|s| *s != 101).collect();
    cx.each("every-status", all, |s, c| {
        c.nontrivial();
        let d = Delivery { status: *s, headers: vec![("upgrade".into(), b"websocket".to_vec()), ("connection".into(), b"upgrade".to_vec())], body: b"why not".to_vec(), cuts: vec![], fail_after: None, pauses: false };
        match rt.block(ResponseValue::upgrade::<()>(d.response())) {
            Err(Error::UnexpectedResponse(r)) => same_response(&rt, &d, r),
            Err(e) => Err(Fail::new(format!("status {s}: {e:?}"))),
            Ok(_) => Err(Fail::new(format!("status {s} treated as an upgrade"))),
        }
    });
    let s = delivery(r_body, false).prop_map(|mut d| {
        d.status = 101;
        d
    });
    cx.run("no-connection", 1_200, 3000, s, |d, c| {
        // a 101 whose connection cannot be taken over is an upgrade error
        c.nontrivial();
        match rt.block(ResponseValue::upgrade::<()>(d.response())) {
            Err(Error::InvalidUpgrade(_)) => Ok(()),
            Err(e) => Err(Fail::new(format!("reported as {e:?}"))),
            Ok(_) => Err(Fail::new("upgraded without a connection")),
        }
    });
}
pub fn same_response(rt: &Rt, d: &Delivery, resp: reqwest::Response) -> R {
    ensure_eq!(resp.status().as_u16(), d.status, "status");
    exact_headers(d, resp.headers())?;
    let fresh = d.response();
    ensure!(*resp.url() == d.url() && resp.version() == fresh.version() && resp.content_length() == fresh.content_length(), "the response's url, version or length changed: {resp:?}");
    let b = rt.block(resp.bytes());
    match (d.failing_at(), b) {
        (None, Ok(b)) => {
            ensure!(b == d.body, "body consumed or changed: {:?} left of {:?}", short(&b), short(&d.body));
            Ok(())
        }
        (Some(_), Err(_)) => Ok(()),
        (x, y) => Err(Fail::new(format!("body of the kept response: {y:?}, failure injected: {x:?}"))),
    }
}

// ------------------------------------------------------------------ P10

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    MapPush(u32),
    MutPush(u32),
    MapIdentity,
    Read,
    Rewrap,
}

pub fn p10(cx: &mut Ctx) {
    cx.rule("Histories of constructor, map, in-place mutation and reads on a response value against a (value, status, headers) model; Content-Length header texts against an independent decimal parser; bodyless responses. Non-trivial: two or more operations and at least one header, or a Content-Length that is present.");
    let op = prop_oneof![any::<u32>().prop_map(Op::MapPush), any::<u32>().prop_map(Op::MutPush), Just(Op::MapIdentity), Just(Op::Read), Just(Op::Rewrap)];
    cx.run("histories", 24_000, 150_000, (proptest::collection::vec(any::<u32>(), 0..4), delivery(no_body, false), proptest::collection::vec(op, 0..10)), |(init, d, ops), c| {
        c.nontrivial_if(ops.len() > 1 && !d.headers.is_empty());
        let mut model = init.clone();
        let h = d.header_map();
        let st = reqwest::StatusCode::from_u16(d.status).unwrap();
        let mut rv = ResponseValue::new(init.clone(), st, h.clone());
        let look = |rv: &ResponseValue<Vec<u32>>, model: &Vec<u32>| -> R {
            ensure_eq!(rv.status(), st, "status");
            ensure_eq!(*rv.headers(), h, "headers");
            ensure_eq!(**rv, *model, "value through Deref");
            ensure_eq!(*AsRef::<Vec<u32>>::as_ref(rv), *model, "value through AsRef");
            ensure_eq!(format!("{rv:?}"), format!("{model:?}"), "Debug");
            ensure_eq!(format!("{rv:#?}"), format!("{model:#?}"), "alternate Debug");
            ensure_eq!(format!("{rv:12?}|{rv:<+5?}|{rv:08?}|{rv:x?}|{rv:#06X?}"), format!("{model:12?}|{model:<+5?}|{model:08?}|{model:x?}|{model:#06X?}"), "Debug with a format");
            let f = ResponseValue::new((model.len() as f64 / 3.0, model.first()), st, h.clone());
            ensure_eq!(format!("{f:.2?}|{f:#.1?}"), format!("{:.2?}|{:#.1?}", *f, *f), "Debug with a precision");
            Ok(())
        };
        look(&rv, &model)?;
        for o in ops {
            match o {
                Op::MapPush(x) => {
                    model.push(*x);
                    let calls = std::cell::Cell::new(0);
                    rv = rv
                        .map::<_, _, ()>(|mut v| {
                            calls.set(calls.get() + 1);
                            v.push(*x);
                            v
                        })
                        .map_err(|_| Fail::new("map failed"))?;
                    ensure_eq!(calls.get(), 1, "calls of the mapping function");
                }
                Op::MutPush(x) => {
                    model.push(*x);
                    (*rv).push(*x);
                }
                Op::MapIdentity => {
                    let s: ResponseValue<String> = rv.map::<_, _, String>(|v| format!("{v:?}")).map_err(Fail::new)?;
                    ensure_eq!(s.status(), st, "status after map");
                    ensure_eq!(*s.headers(), h, "headers after map");
                    ensure_eq!(*s, format!("{model:?}"), "mapped value");
                    let m = model.clone();
                    rv = s.map::<_, _, String>(move |_| m).map_err(Fail::new)?;
                }
                Op::Read => look(&rv, &model)?,
                Op::Rewrap => {
                    let (s, hh) = (rv.status(), rv.headers().clone());
                    rv = ResponseValue::new(rv.into_inner(), s, hh);
                }
            }
            look(&rv, &model)?;
        }
        ensure_eq!(rv.into_inner(), model, "final value");
        Ok(())
    });
    let cl = prop_oneof![
        3 => any::<u64>().prop_map(|n| n.to_string().into_bytes()),
        1 => (0u64..100_000).prop_map(|n| n.to_string().into_bytes()),
        1 => "[0-9]{1,25}".prop_map(|s| s.into_bytes()),
        1 => "[ -~]{0,6}".prop_map(|s| s.into_bytes()),
        1 => proptest::sample::select(vec!["-1", "1.5", "0x10", "1_000", "", "18446744073709551615", "18446744073709551616", "1e3", "12 34", "١٢"]).prop_map(|s| s.as_bytes().to_vec()),
        1 => proptest::collection::vec(0x80u8..=0xff, 1..3),
    ];
    cx.run("content-length", 32_000, 200_000, (proptest::option::weighted(0.9, cl), delivery(no_body, false), 0u8..3), |(v, d, how), c| {
        let mut d = d.clone();
        c.nontrivial_if(v.is_some());
        d.headers.retain(|h| h.0 != "content-length");
        if let Some(v) = v {
            d.headers.push(("content-length".into(), v.clone()));
        }
        let got = match how {
            0 => ResponseValue::new((), reqwest::StatusCode::OK, d.header_map()).content_length(),
            1 => ResponseValue::empty(d.response()).content_length(),
            _ => ResponseValue::stream(d.response()).content_length(),
        };
        let Some(v) = v else {
            ensure_eq!(got, None, "no Content-Length header");
            return Ok(());
        };
        let text = v.as_slice();
        if text.iter().any(|b| b.is_ascii_whitespace()) || text.first() == Some(&b'+') {
            return Ok(()); // surrounding whitespace and a plus sign are left open
        }
        let mut want = if text.is_empty() { None } else { Some(0u64) };
        for b in text {
            want = match (want, b) {
                (Some(n), b'0'..=b'9') => n.checked_mul(10).and_then(|n| n.checked_add((b - b'0') as u64)),
                _ => None,
            };
        }
        c.label(if want.is_some() { "valid" } else { "invalid" });
        ensure_eq!(got, want, "Content-Length {:?}", String::from_utf8_lossy(text));
        Ok(())
    });
    cx.run("empty", 16_000, 60_000, delivery(r_body, true), |d, c| {
        // a response taken as bodyless never fails and keeps its metadata
        c.nontrivial_if(!d.headers.is_empty());
        let rv = ResponseValue::empty(d.response());
        ensure_eq!(rv.status().as_u16(), d.status, "status");
        exact_headers(d, rv.headers())?;
        let () = *rv;
        let () = rv.into_inner();
        Ok(())
    });
}
