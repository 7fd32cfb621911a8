//! P12: which outcome a response becomes.
use crate::calls::{self, Section};
use crate::doc::{self, Code, Kind, Knobs, Op, Outcome};
use crate::e2e::{self, hex, Call, Done, Reply, Unit};
use crate::pure::STYLES;
use serde_json::{json, Value};
use vk::gen::Rng;
use vk::{Case, Ctx, Fail, R};

fn unit(r: &mut Rng) -> Unit {
    let k = Knobs { items: 6, params: 0, bodies: 10, paginated: 5, websocket: 30, tricky: false, ..Knobs::default() };
    Unit { spec: doc::spec(r, k), styles: vec![r.pick(STYLES).to_string()], hooks: vec![] }
}

fn bodiless(o: &Op, status: u16) -> bool {
    o.method == "head" || status == 204 || status == 304 || status == 101
}

/// Statuses where documented ranges begin, end, and are left.
fn statuses(o: &Op) -> Vec<u16> {
    let mut v = vec![200, 201, 202, 204, 206, 250, 299, 300, 301, 304, 307, 399, 400, 404, 418, 499, 500, 503, 550, 599, 0];
    if o.websocket {
        v.push(101);
        v.push(101);
    }
    for r in &o.responses {
        if let Code::Exact(c) = r.code {
            v.extend([c, c.max(201) - 1, (c + 1).min(599)]);
        }
    }
    v.sort();
    v
}

fn reply(r: &mut Rng, o: &Op, status: u16) -> (Reply, &'static str) {
    let kind = match o.outcome(status) {
        Outcome::Ok(k) | Outcome::ErrorResponse(k) => k,
        _ => Kind::Raw,
    };
    let (mut rep, what) = match kind {
        Kind::Json(t) => {
            let v = t.value(r);
            let mut text = v.to_string();
            match r.below(8) {
                // part of a number is a number
                0 if !v.is_number() => {
                    let n = r.below(text.len());
                    let n = (0..=n).rev().find(|n| text.is_char_boundary(*n)).unwrap();
                    text.truncate(n);
                    (Reply::new(status, text.as_bytes()), "damaged")
                }
                1 => (Reply::new(status, t.wrong().to_string().as_bytes()), "wrong type"),
                2 => (Reply::new(status, format!("{text} x").as_bytes()), "damaged"),
                3 => (Reply::new(status, format!(" \n{text}\t ").as_bytes()), "valid"),
                4 => (Reply::new(status, &[&[0xff, 0xfe][..], text.as_bytes()].concat()), "damaged"),
                _ => (Reply::new(status, text.as_bytes()), "valid"),
            }
        }
        _ => {
            let n = *r.pick(&[0, 0, 1, 3, 17, 200, 5000]);
            let b: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
            (Reply::new(status, &b), "bytes")
        }
    };
    if r.chance(70) {
        let c = r.pick(&["application/json", "application/json; charset=utf-8", "text/html", "application/octet-stream", "x"]);
        rep.headers.push(("content-type".into(), c.to_string()));
    }
    for _ in 0..r.below(3) {
        rep.headers.push((r.pick(&["x-request-id", "etag", "retry-after", "x-a"]).to_string(), doc::header_text(r)));
    }
    let len = rep.bytes().len();
    if len > 0 && r.chance(15) && status != 101 {
        rep.cut = Some(r.below(len));
        return (rep, "cut");
    }
    (rep, what)
}

fn judge(u: &Unit, calls: &[Call], done: &[Done], c: &mut Case) -> R {
    let (call, d) = (&calls[0], &done[0]);
    let (_, o) = e2e::find(&u.spec, &call.op);
    let rep = &call.script[0];
    let fail = |m: String| Err(Fail::new(format!("{} {}: status {}: {m}; outcome {}", call.style, call.op, rep.status, d.out)));
    if d.seen.len() != 1 {
        return fail(format!("{} requests", d.seen.len()));
    }
    let empty = bodiless(o, rep.status);
    let body = if empty { vec![] } else { rep.bytes() };
    let cut = rep.cut.filter(|_| !empty);
    let want = o.outcome(rep.status);
    c.nontrivial();
    c.label(match &want {
        _ if rep.status == 0 => "no answer".into(),
        Outcome::Ok(k) => format!("ok {}", kind_name(k)),
        Outcome::ErrorResponse(k) => format!("error {}", kind_name(k)),
        o => format!("{o:?}"),
    });
    let got = match &d.out {
        v if v.get("ok").is_some() => &v["ok"],
        v => v,
    };
    let is_ok = d.out.get("ok").is_some();
    let err = d.out.get("err").and_then(Value::as_str).unwrap_or("");
    let check_meta = || -> Result<(), String> {
        if got["status"] != json!(rep.status) {
            return Err(format!("reported status {}", got["status"]));
        }
        let hs: Vec<(String, String)> = serde_json::from_value(got["headers"].clone()).unwrap_or_default();
        let mut names: Vec<&String> = rep.headers.iter().map(|h| &h.0).collect();
        names.sort();
        names.dedup();
        for n in names {
            let g: Vec<&String> = hs.iter().filter(|h| &h.0 == n).map(|h| &h.1).collect();
            let w: Vec<&String> = rep.headers.iter().filter(|h| &h.0 == n).map(|h| &h.1).collect();
            if g != w {
                return Err(format!("reported header {n}: {g:?}, sent {w:?}"));
            }
        }
        Ok(())
    };
    let check_raw = || -> Result<(), String> {
        let g = got["raw"].as_str().unwrap_or("");
        let broken = got["broken"] == json!(true);
        match cut {
            None if g == hex(&body) && !broken => Ok(()),
            Some(n) if broken && hex(&body[..n]).starts_with(g) => Ok(()),
            _ => Err(format!("body differs (cut at {cut:?}, sent {})", hex(&body))),
        }
    };
    let kind_ok = |k: &Kind| -> Result<(), String> {
        check_meta()?;
        match k {
            Kind::Unit if got["json"].is_null() => Ok(()),
            Kind::Unit => Err("a value without content".into()),
            Kind::Raw => check_raw(),
            Kind::Upgrade if got["upgraded"] == json!(true) => Ok(()),
            Kind::Upgrade => Err("the upgraded connection does not work".into()),
            Kind::Json(_) => unreachable!(),
        }
    };
    // a typed body either decodes, or is reported with all that was received
    let typed = |placed: bool| -> Result<(), String> {
        let parsed = serde_json::from_slice::<Value>(&body).ok().filter(|_| call.opts["what"] == json!("valid") && !empty);
        match (cut, parsed) {
            (Some(_), _) if err == "ResponseBodyError" => Ok(()),
            (Some(_), _) => Err("the body broke off".into()),
            (None, Some(v)) if placed && got["json"] == v => check_meta(),
            (None, Some(v)) => Err(format!("the body is {v}")),
            (None, None) if err == "InvalidResponsePayload" && d.out["raw"] == json!(hex(&body)) => Ok(()),
            (None, None) => Err(format!("the body {:?} is not of the type", String::from_utf8_lossy(&body))),
        }
    };
    let r = match &want {
        _ if rep.status == 0 && err == "CommunicationError" => Ok(()),
        _ if rep.status == 0 => Err("no answer was given".into()),
        Outcome::Ok(Kind::Json(_)) => typed(is_ok),
        Outcome::ErrorResponse(Kind::Json(_)) => typed(err == "ErrorResponse"),
        Outcome::Ok(k) if is_ok => kind_ok(k),
        Outcome::ErrorResponse(k) if err == "ErrorResponse" => kind_ok(k),
        Outcome::Unexpected if err == "UnexpectedResponse" => check_meta().and_then(|()| check_raw()),
        Outcome::Open => Ok(()),
        w => Err(format!("expected {w:?}")),
    };
    match r {
        Ok(()) => Ok(()),
        Err(m) => fail(m),
    }
}
fn kind_name(k: &Kind) -> &'static str {
    match k {
        Kind::Unit => "empty",
        Kind::Json(_) => "typed",
        Kind::Raw => "raw",
        Kind::Upgrade => "upgrade",
    }
}

pub fn p12(cx: &mut Ctx) {
    cx.rule("Operations with generated sets of documented responses (exact codes, ranges, default; typed, raw, empty, upgrade) are compiled and called against a server answering with statuses in and around every documented one, with valid, damaged, broken-off and arbitrary bodies; the outcome is compared with the one the description assigns. Every case is non-trivial.");
    let (n, per) = if cx.thorough() { (480, 3) } else { (64, 1) };
    let units = calls::units(cx, "responses", n, unit);
    calls::run(
        cx,
        Section {
            name: "responses",
            units,
            calls: &|r, u| {
                let mut out = vec![];
                for style in &u.styles {
                    for (i, o) in u.spec.all_ops() {
                        for _ in 0..per {
                            for st in statuses(o) {
                                let a = calls::args(r, i, o, 60);
                                let (rep, what) = reply(r, o, st);
                                let mut c = calls::call(r, style, o, a, vec![rep]);
                                c.opts["what"] = json!(what);
                                out.push(vec![c]);
                            }
                        }
                    }
                }
                out
            },
            judge: &judge,
        },
    );
}
