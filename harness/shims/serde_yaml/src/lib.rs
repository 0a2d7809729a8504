//! Block-style YAML (mappings, sequences, scalars), which is all trin's embedded assets use.
use serde::{de::DeserializeOwned, Serialize};
pub use serde_json::Value;
use std::io::Read;
#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
struct Line<'a> {
    indent: usize,
    text: &'a str,
}
fn scalar(s: &str) -> Value {
    let s = s.trim();
    if s.len() >= 2 && (s.starts_with('"') && s.ends_with('"')) {
        return serde_json::from_str(s).unwrap_or_else(|_| Value::String(s[1..s.len() - 1].into()));
    }
    if s.len() >= 2 && s.starts_with('\'') && s.ends_with('\'') {
        return Value::String(s[1..s.len() - 1].replace("''", "'"));
    }
    match s {
        "" | "~" | "null" => Value::Null,
        "true" => Value::Bool(true),
        "false" => Value::Bool(false),
        "[]" => Value::Array(vec![]),
        "{}" => Value::Object(Default::default()),
        _ => {
            if let Ok(i) = s.parse::<i64>() {
                return i.into();
            }
            if let Ok(i) = s.parse::<u64>() {
                return i.into();
            }
            if let Some(h) = s.strip_prefix("0x") {
                if let Ok(i) = u64::from_str_radix(h, 16) {
                    return i.into();
                }
            }
            Value::String(s.into())
        }
    }
}
fn split_key(s: &str) -> Option<(&str, &str)> {
    if let Some(i) = s.find(": ") {
        return Some((&s[..i], &s[i + 2..]));
    }
    s.strip_suffix(':').map(|k| (k, ""))
}
fn block(lines: &mut Vec<Line<'_>>, pos: &mut usize, indent: usize) -> Result<Value, Error> {
    let Some(first) = lines.get(*pos) else { return Ok(Value::Null) };
    if first.text.starts_with("- ") || first.text == "-" {
        let mut out = vec![];
        while let Some(l) = lines.get(*pos) {
            if l.indent != indent || !(l.text.starts_with("- ") || l.text == "-") {
                break;
            }
            let rest = l.text[1..].trim_start();
            if rest.is_empty() {
                *pos += 1;
                let n = lines.get(*pos).map(|l| l.indent).unwrap_or(0);
                out.push(if n > indent { block(lines, pos, n)? } else { Value::Null });
            } else if split_key(rest).is_some() && !rest.starts_with(['"', '\'']) {
                let n = indent + (l.text.len() - rest.len());
                let text = rest;
                lines[*pos] = Line { indent: n, text };
                out.push(block(lines, pos, n)?);
            } else {
                out.push(scalar(rest));
                *pos += 1;
            }
        }
        return Ok(Value::Array(out));
    }
    if split_key(first.text).is_none() {
        let v = scalar(first.text);
        *pos += 1;
        return Ok(v);
    }
    let mut out = serde_json::Map::new();
    while let Some(l) = lines.get(*pos) {
        if l.indent != indent {
            break;
        }
        let (k, v) = split_key(l.text).ok_or_else(|| Error(format!("bad line {:?}", l.text)))?;
        let k = match scalar(k) {
            Value::String(s) => s,
            v => v.to_string(),
        };
        *pos += 1;
        let v = if v.trim().is_empty() {
            match lines.get(*pos) {
                Some(n) if n.indent > indent => {
                    let i = n.indent;
                    block(lines, pos, i)?
                }
                Some(n) if n.indent == indent && n.text.starts_with('-') => block(lines, pos, indent)?,
                _ => Value::Null,
            }
        } else {
            scalar(v)
        };
        out.insert(k, v);
    }
    Ok(Value::Object(out))
}
fn parse(s: &str) -> Result<Value, Error> {
    let t = s.trim_start();
    if t.starts_with('{') || t.starts_with('[') {
        return serde_json::from_str(t).map_err(|e| Error(e.to_string()));
    }
    let mut lines: Vec<Line<'_>> = s
        .lines()
        .map(|l| if l.trim_start().starts_with('#') { "" } else { l.trim_end() })
        .filter(|l| !l.trim().is_empty() && *l != "---")
        .map(|l| Line { indent: l.len() - l.trim_start().len(), text: l.trim_start() })
        .collect();
    let mut pos = 0;
    let i = lines.first().map(|l| l.indent).unwrap_or(0);
    let v = block(&mut lines, &mut pos, i)?;
    if pos != lines.len() {
        return Err(Error(format!("unexpected line {:?}", lines[pos].text)));
    }
    Ok(v)
}
pub fn from_str<T: DeserializeOwned>(s: &str) -> Result<T, Error> {
    from_value(parse(s)?)
}
pub fn from_slice<T: DeserializeOwned>(s: &[u8]) -> Result<T, Error> {
    from_str(std::str::from_utf8(s).map_err(|e| Error(e.to_string()))?)
}
pub fn from_reader<R: Read, T: DeserializeOwned>(mut r: R) -> Result<T, Error> {
    let mut s = String::new();
    r.read_to_string(&mut s).map_err(|e| Error(e.to_string()))?;
    from_str(&s)
}
pub fn from_value<T: DeserializeOwned>(v: Value) -> Result<T, Error> {
    serde_json::from_value(v).map_err(|e| Error(e.to_string()))
}
pub fn to_string<T: Serialize>(v: &T) -> Result<String, Error> {
    serde_json::to_string(v).map_err(|e| Error(e.to_string()))
}
