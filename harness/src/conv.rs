//! Conversions of tag values.

use async_tiff::error::TiffResult;
use async_tiff::TagValue;
use serde_json::{json, Value};

use crate::j;

pub fn value(v: &Value) -> TagValue {
    let b = j::bytes(&v["v"]);
    macro_rules! n {
        ($t:ty, $b:expr) => {
            <$t>::from_be_bytes($b.try_into().unwrap())
        };
    }
    match j::text(&v["t"]) {
        "Byte" => TagValue::Byte(b[0]),
        "Short" => TagValue::Short(n!(u16, b)),
        "SignedByte" => TagValue::SignedByte(b[0] as i8),
        "SignedShort" => TagValue::SignedShort(n!(i16, b)),
        "Signed" => TagValue::Signed(n!(i32, b)),
        "SignedBig" => TagValue::SignedBig(n!(i64, b)),
        "Unsigned" => TagValue::Unsigned(n!(u32, b)),
        "UnsignedBig" => TagValue::UnsignedBig(n!(u64, b)),
        "Float" => TagValue::Float(f32::from_bits(n!(u32, b))),
        "Double" => TagValue::Double(f64::from_bits(n!(u64, b))),
        "List" => TagValue::List(j::arr(&v["l"]).iter().map(value).collect()),
        "Rational" => TagValue::Rational(n!(u32, b[..4]), n!(u32, b[4..])),
        "RationalBig" => TagValue::RationalBig(n!(u64, b[..8]), n!(u64, b[8..])),
        "SRational" => TagValue::SRational(n!(i32, b[..4]), n!(i32, b[4..])),
        "SRationalBig" => TagValue::SRationalBig(n!(i64, b[..8]), n!(i64, b[8..])),
        "Ascii" => TagValue::Ascii(String::from_utf8(b).unwrap()),
        "Ifd" => TagValue::Ifd(n!(u32, b)),
        "IfdBig" => TagValue::IfdBig(n!(u64, b)),
        t => panic!("unknown kind {t}"),
    }
}

fn outcome(to: &str, r: Option<TiffResult<Vec<Value>>>) -> Value {
    match r {
        None => json!({"to": to, "r": "panic", "w": []}),
        Some(Err(_)) => json!({"to": to, "r": "err", "w": []}),
        Some(Ok(w)) => json!({"to": to, "r": "ok", "w": w}),
    }
}

pub fn run(case: &Value) -> Value {
    let v = || value(&case["v"]);
    macro_rules! one {
        ($to:expr, $f:ident) => {
            outcome($to, j::guard(|| v().$f().map(|x| vec![json!(x.to_be_bytes())])))
        };
    }
    macro_rules! many {
        ($to:expr, $f:ident) => {
            outcome(
                $to,
                j::guard(|| {
                    v().$f()
                        .map(|l| l.into_iter().map(|x| json!(x.to_be_bytes())).collect())
                }),
            )
        };
    }
    let s = vec![
        one!("u8", into_u8),
        one!("u16", into_u16),
        one!("u32", into_u32),
        one!("u64", into_u64),
        one!("i8", into_i8),
        one!("i16", into_i16),
        one!("i32", into_i32),
        one!("i64", into_i64),
        one!("f32", into_f32),
        one!("f64", into_f64),
        outcome(
            "string",
            j::guard(|| v().into_string().map(|s| vec![j::blob(s.as_bytes())])),
        ),
    ];
    let l = vec![
        many!("u8", into_u8_vec),
        many!("u16", into_u16_vec),
        many!("u32", into_u32_vec),
        many!("u64", into_u64_vec),
        many!("i32", into_i32_vec),
        many!("i64", into_i64_vec),
        many!("f32", into_f32_vec),
        many!("f64", into_f64_vec),
    ];
    json!({"v": case["v"], "s": s, "l": l})
}
