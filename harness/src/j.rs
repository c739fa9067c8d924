//! JSON helpers. Numbers that may exceed 31 bits travel as words: arrays of bytes, most
//! significant first.

use serde_json::{json, Map, Value};

pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|b| b.as_u64().unwrap() as u8)
        .collect()
}

/// A word of at most eight bytes as a number.
pub fn num(v: &Value) -> u64 {
    match v {
        Value::Number(n) => n.as_u64().unwrap(),
        v => bytes(v).iter().fold(0, |n, b| n << 8 | *b as u64),
    }
}

pub fn int(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}

pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap()
}

pub fn text(v: &Value) -> &str {
    v.as_str().unwrap()
}

pub fn w8(n: u64) -> Value {
    json!(n.to_be_bytes())
}

pub fn blob(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|b| Value::from(*b)).collect())
}

/// An optional list of words: `{"p": 0 or 1, "v": [...]}`.
pub fn opt(v: Option<Vec<Value>>) -> Value {
    match v {
        Some(v) => json!({"p": 1, "v": v}),
        None => json!({"p": 0, "v": []}),
    }
}

pub fn obj(entries: Vec<(&str, Value)>) -> Value {
    let mut m = Map::new();
    for (k, v) in entries {
        m.insert(k.to_string(), v);
    }
    Value::Object(m)
}

/// Run `f`, turning a panic into None.
pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crate::alloc::within(f))).ok()
}

static PANICKED: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

/// Remember where a panic happened: file within its crate, and line.
pub fn panicked(at: Option<&std::panic::Location>) {
    if std::env::var_os("VH_PANIC").is_some() {
        eprintln!("panic at {at:?}\n{}", std::backtrace::Backtrace::force_capture());
    }
    if let (Some(at), Ok(mut p)) = (at, PANICKED.lock()) {
        let parts: Vec<&str> = at.file().split('/').collect();
        let crate_dir = parts.iter().position(|s| *s == "src").unwrap_or(1).max(1) - 1;
        *p = format!("{}:{}", parts[crate_dir..].join("/"), at.line());
    }
}

/// Where the last panic happened.
pub fn panic_site() -> String {
    PANICKED.lock().map(|p| p.clone()).unwrap_or_default()
}
