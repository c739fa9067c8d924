//! Arrays of typed elements from raw bytes.

use async_tiff::{DataType, TypedArray};
use serde_json::{json, Value};

use crate::decode::elements;
use crate::j;

pub fn run(case: &Value) -> Value {
    let t = match j::text(&case["ty"]) {
        "bool" => Some(DataType::Bool),
        "u8" => Some(DataType::UInt8),
        "u16" => Some(DataType::UInt16),
        "u32" => Some(DataType::UInt32),
        "u64" => Some(DataType::UInt64),
        "i8" => Some(DataType::Int8),
        "i16" => Some(DataType::Int16),
        "i32" => Some(DataType::Int32),
        "i64" => Some(DataType::Int64),
        "f32" => Some(DataType::Float32),
        "f64" => Some(DataType::Float64),
        "none" => None,
        t => panic!("unknown type {t}"),
    };
    // the bytes at any alignment and with any spare capacity
    let b = j::bytes(&case["b"]);
    let mut v = Vec::with_capacity(b.len() + j::int(&case["spare"]));
    v.extend_from_slice(&b);
    let size = t.map(|t| t.size()).unwrap_or(0);
    let none = |r: &str| json!({"r": r, "var": "", "len": 0, "none": 0, "e": [], "b": []});
    let out = match j::guard(|| TypedArray::try_new(v, t)) {
        None => none("panic"),
        Some(Err(_)) => none("err"),
        Some(Ok(a)) => {
            let (var, e) = elements(&a);
            json!({"r": "ok", "var": var, "len": a.len(), "none": a.is_empty() as u8,
                "e": j::blob(&e), "b": j::blob(a.as_ref())})
        }
    };
    json!({"ty": case["ty"], "b": case["b"], "size": size, "out": out})
}
