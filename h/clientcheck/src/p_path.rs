//! P01: a path parameter value is one URL path segment and decodes back to itself.
use crate::val::nasty_string;
use progenitor_client::encode_path;
use proptest::prelude::*;
use vk::{ensure, Case, Ctx, Fail, R};

/// What a server that insists on well-formed escapes makes of a segment.
fn decode(s: &str) -> Option<String> {
    let hex = |c: Option<&u8>| c.is_some_and(|c| c.is_ascii_hexdigit());
    let b = s.as_bytes();
    if (0..b.len()).any(|i| b[i] == b'%' && !(hex(b.get(i + 1)) && hex(b.get(i + 2)))) {
        return None;
    }
    percent_encoding::percent_decode_str(s).decode_utf8().ok().map(|c| c.into_owned())
}

/// Substitutes the values into `{}/s0/{v0}/s1/{v1}...` exactly as generated
/// code does (format!), parses with the URL parser the client uses, and looks
/// at what a server would see.
fn check(base: &str, values: &[String], tail: bool) -> R {
    let mut u = base.to_string();
    let mut want: Vec<String> = vec![];
    let root = url::Url::parse(&format!("{base}/")).unwrap();
    for s in root.path_segments().unwrap() {
        want.push(s.to_string());
    }
    want.pop();
    for (i, v) in values.iter().enumerate() {
        u.push_str(&format!("/s{}/{}", i, encode_path(v)));
        want.push(format!("s{i}"));
        want.push(v.clone());
    }
    if tail {
        u.push_str("/tail");
        want.push("tail".into());
    }
    let req = reqwest::Client::builder().no_proxy().build().unwrap().get(u.as_str()).build();
    let url = match req {
        Ok(r) => r.url().clone(),
        Err(e) => return Err(Fail::new(format!("{u:?} is not accepted as a URL: {e}"))),
    };
    // nothing was left for the URL parser to repair
    for v in values.iter().filter(|v| *v != "." && *v != "..") {
        ensure!(url.path().split('/').any(|s| s == encode_path(v)), "{v:?} was put into the URL as {:?}, which is not its form on the wire ({url})", encode_path(v));
    }
    let dot = values.iter().find(|v| *v == "." || *v == "..");
    if dot.is_some() {
        // everything else about the case must hold without the dot segment
        let rest: Vec<String> = values.iter().map(|v| if v == "." || v == ".." { "dot".into() } else { v.clone() }).collect();
        check(base, &rest, tail)?;
    }
    let bad = |m: String| match dot {
        // the exact values the URL standard treats as dot segments
        Some(d) => Fail::sig(m, format!("value={d:?}")),
        None => Fail::new(m),
    };
    if url.host_str() != root.host_str() || url.port() != root.port() || url.scheme() != root.scheme() || url.username() != root.username() {
        return Err(bad(format!("{u:?} leaves the server: {url}")));
    }
    if url.query().is_some() || url.fragment().is_some() {
        return Err(bad(format!("value escapes the path: {url}")));
    }
    let got: Vec<Option<String>> = url.path_segments().unwrap().map(decode).collect();
    let wanted: Vec<Option<String>> = want.iter().cloned().map(Some).collect();
    if got != wanted {
        return Err(bad(format!("server sees segments {got:?}, caller passed {want:?} (url {url})")));
    }
    Ok(())
}

fn reserved(s: &str) -> bool {
    s.chars().any(|c| !c.is_ascii_alphanumeric())
}

pub fn p01(cx: &mut Ctx) {
    cx.rule("Values are substituted into a URL template exactly as generated code does and parsed with the client's own URL parser; a case is non-trivial when some value contains a character other than an ASCII letter or digit. every-ascii-pair enumerates all 128 single and 16384 two-character ASCII values.");
    cx.assumptions.push("the url crate's WHATWG parser (the one reqwest uses) defines what a server sees".into());
    cx.each("every-ascii-pair", (0..128u32).map(|a| vec![a]).chain((0..128u32).flat_map(|a| (0..128u32).map(move |b| vec![a, b]))), |cs: &Vec<u32>, c: &mut Case| {
        let s: String = cs.iter().map(|c| char::from_u32(*c).unwrap()).collect();
        c.nontrivial_if(reserved(&s));
        // cheap direct form of the same oracle
        let url = url::Url::parse(&format!("http://h/a/{}/z", encode_path(&s))).map_err(|e| Fail::new(format!("{s:?}: {e}")))?;
        ensure!(s == "." || s == ".." || url.path().split('/').nth(2) == Some(encode_path(&s).as_str()), "{s:?} was put into the URL as {:?}, which is not its form on the wire ({url})", encode_path(&s));
        let got: Vec<_> = url.path_segments().unwrap().map(decode).collect();
        let want = vec![Some("a".into()), Some(s.clone()), Some("z".into())];
        if got != want || url.query().is_some() || url.fragment().is_some() || url.host_str() != Some("h") {
            let m = format!("value {s:?}: server sees {url}");
            return Err(if s == "." || s == ".." { Fail::sig(m, format!("value={s:?}")) } else { Fail::new(m) });
        }
        Ok(())
    });
    cx.each("every-scalar-value", (0..0x110000u32).step_by(64), |start: &u32, c: &mut Case| {
        // all Unicode scalar values, 64 per case
        for x in *start..*start + 64 {
            if let Some(ch) = char::from_u32(x) {
                c.nontrivial();
                let s = format!("a{ch}b");
                let url = url::Url::parse(&format!("http://h/{}", encode_path(&s))).map_err(|e| Fail::new(format!("{s:?}: {e}")))?;
                let got: Vec<_> = url.path_segments().unwrap().map(decode).collect();
                ensure!(got == vec![Some(s.clone())] && url.query().is_none() && url.fragment().is_none(), "value {s:?}: server sees {url}");
            }
        }
        Ok(())
    });
    let strat = (
        proptest::sample::select(vec!["http://h", "http://127.0.0.1:8080", "https://example.com/base/v1", "http://h:1/x"]),
        proptest::collection::vec(prop_oneof![6 => nasty_string(), 2 => ".{0,40}".boxed(), 1 => proptest::sample::select(vec![".", "..", "...", "%2e", "%2E%2e", ".%2e", "%", "%25", "a/b", "a/../b", "//", "C:", "C|", "a\\b", "\\", "a;b=c", "@", ":", "?x=1", "#f"]).prop_map(String::from).boxed()], 1..4),
        any::<bool>(),
    )
        .prop_map(|(b, v, t)| (b.to_string(), v, t));
    let long = (
        proptest::sample::select(vec!["http://h", "https://example.com/base/v1"]).prop_map(String::from),
        proptest::collection::vec(vk::gen::gen_if(crate::val::r_long, |s: &String| s.len() > 2), 1..6),
        any::<bool>(),
    );
    cx.run("long-values", 1_600, 10_000, long, |(b, v, t), c| {
        c.nontrivial_if(v.iter().any(|s| s.len() > 100));
        if v.iter().map(|s| s.len()).sum::<usize>() > 15_000 {
            return Ok(()); // over the URL length limits of HTTP clients
        }
        check(b, v, *t)
    });
    cx.run("sizes", 1_500, 15_000, (nasty_string(), crate::val::size(200_000), nasty_string()), |(unit, n, end), c| {
        // one value of a given length
        let s = crate::val::stretch(unit, *n as usize) + end;
        c.nontrivial_if(s.len() > 100);
        if s == "." || s == ".." {
            return Ok(());
        }
        let e = encode_path(&s);
        let url = url::Url::parse(&format!("http://h/a/{e}/z")).map_err(|e| Fail::new(format!("{n} characters: {e}")))?;
        ensure!(url.path().split('/').nth(2) == Some(e.as_str()), "{n} characters of {unit:?}: not the form on the wire");
        let mut got = url.path_segments().unwrap().map(decode);
        ensure!(got.next() == Some(Some("a".into())) && got.next() == Some(Some(s)) && got.next() == Some(Some("z".into())) && got.next().is_none() && url.query().is_none() && url.fragment().is_none(), "{n} characters of {unit:?} and {end:?}: the server sees something else");
        Ok(())
    });
    cx.run("histories", 400, 4_000, proptest::collection::vec(nasty_string(), 2..40), |vs, c| {
        // a value means the same whatever came before, in any thread
        c.nontrivial_if(vs.iter().any(|v| reserved(v)));
        let first: Vec<String> = vs.iter().map(|v| encode_path(v)).collect();
        let again: Vec<String> = std::thread::scope(|s| {
            let t = s.spawn(|| vs.iter().rev().map(|v| encode_path(v)).collect::<Vec<_>>());
            let mine: Vec<String> = vs.iter().rev().map(|v| encode_path(v)).collect();
            let other = t.join().unwrap();
            if mine == other { mine } else { vec![] }
        });
        ensure!(first.iter().rev().eq(again.iter()), "the same values were written differently: {first:?} and {again:?} (reversed)");
        for (v, e) in vs.iter().zip(&first) {
            ensure!(decode(e).as_ref() == Some(v), "{v:?} was written as {e:?}");
        }
        Ok(())
    });
    cx.run("templates", 24_000, 200_000, strat, |(b, v, t), c| {
        c.nontrivial_if(v.iter().any(|s| reserved(s)));
        for s in v {
            if s.is_empty() {
                c.label("empty value");
            }
            if s.contains(['/', '\\', '?', '#', '%']) {
                c.label("delimiter in value");
            }
            if !s.is_ascii() {
                c.label("non-ascii");
            }
        }
        check(b, v, *t)
    });
}
