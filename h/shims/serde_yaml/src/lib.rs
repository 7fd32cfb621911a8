//! A stand-in for `serde_yaml` (not available offline): JSON, and block
//! mappings and sequences of JSON scalars, which is the YAML the checks write.
use serde::de::{DeserializeOwned, Error as _};
pub use serde_json::Error;
use serde_json::{Map, Value};

pub fn from_reader<R: std::io::Read, T: DeserializeOwned>(mut r: R) -> Result<T, Error> {
    let mut s = String::new();
    r.read_to_string(&mut s).map_err(Error::custom)?;
    from_str(&s)
}

pub fn from_str<T: DeserializeOwned>(s: &str) -> Result<T, Error> {
    let v = match serde_json::from_str::<Value>(s) {
        Ok(v) => v,
        Err(_) => {
            let lines: Vec<(usize, &str)> = s
                .lines()
                .filter(|l| !l.trim().is_empty() && !l.trim_start().starts_with('#') && l.trim() != "---")
                .map(|l| (l.len() - l.trim_start().len(), l.trim()))
                .collect();
            let mut at = 0;
            let v = block(&lines, &mut at, lines.first().map_or(0, |l| l.0))?;
            if at != lines.len() {
                return Err(Error::custom("unexpected indentation"));
            }
            v
        }
    };
    serde_json::from_value(v)
}

fn block(l: &[(usize, &str)], at: &mut usize, indent: usize) -> Result<Value, Error> {
    let Some(&(_, first)) = l.get(*at) else { return Ok(Value::Null) };
    if first == "-" || first.starts_with("- ") {
        let mut v = vec![];
        while let Some(&(i, s)) = l.get(*at) {
            if i != indent || !(s == "-" || s.starts_with("- ")) {
                break;
            }
            *at += 1;
            let rest = s[1..].trim();
            v.push(if rest.is_empty() { nested(l, at, indent)? } else { scalar(rest)? });
        }
        return Ok(v.into());
    }
    let mut m = Map::new();
    while let Some(&(i, s)) = l.get(*at) {
        if i != indent {
            break;
        }
        let (k, rest) = key(s)?;
        *at += 1;
        let v = if rest.is_empty() { nested(l, at, indent)? } else { scalar(rest)? };
        m.insert(k, v);
    }
    if m.is_empty() {
        return Err(Error::custom("neither a mapping nor a sequence"));
    }
    Ok(m.into())
}
fn nested(l: &[(usize, &str)], at: &mut usize, indent: usize) -> Result<Value, Error> {
    match l.get(*at) {
        Some(&(i, _)) if i > indent => block(l, at, i),
        _ => Ok(Value::Null),
    }
}
fn key(s: &str) -> Result<(String, &str), Error> {
    let mut d = serde_json::Deserializer::from_str(s).into_iter::<String>();
    if s.starts_with('"') {
        let k = d.next().ok_or_else(|| Error::custom("no key"))??;
        let rest = &s[d.byte_offset()..];
        let rest = rest.strip_prefix(':').ok_or_else(|| Error::custom("no colon"))?;
        return Ok((k, rest.trim()));
    }
    let (k, rest) = s.split_once(':').ok_or_else(|| Error::custom(format!("not a mapping: {s}")))?;
    if !(rest.is_empty() || rest.starts_with(' ')) || k.contains(['{', '}', '[', ']', ',']) {
        return Err(Error::custom(format!("not a mapping: {s}")));
    }
    Ok((k.trim().to_string(), rest.trim()))
}
fn scalar(s: &str) -> Result<Value, Error> {
    match serde_json::from_str(s) {
        Ok(v) => Ok(v),
        Err(e) if s.starts_with(['"', '{', '[']) => Err(e),
        Err(_) => Ok(s.into()),
    }
}
