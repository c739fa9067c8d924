//! The names of codes.

use async_tiff::tags::*;
use serde_json::{json, Value};

use crate::j;

pub fn run(case: &Value) -> Value {
    let name = j::text(&case["e"]);
    let r = j::guard(|| {
        let mut known = vec![];
        let mut odd = 0;
        macro_rules! closed {
            ($t:ident) => {
                for c in 0..=u16::MAX {
                    if let Some(x) = $t::from_u16(c) {
                        known.push(json!({"c": c, "name": format!("{x:?}"), "back": x.to_u16()}));
                    }
                }
            };
        }
        macro_rules! open {
            ($t:ident) => {
                closed!($t);
                for c in 0..=u16::MAX {
                    let x = $t::from_u16_exhaustive(c);
                    let same = match $t::from_u16(c) {
                        Some(k) => k == x,
                        None => matches!(x, $t::Unknown(n) if n == c),
                    };
                    if !same || x.to_u16() != c {
                        odd += 1;
                    }
                }
            };
        }
        match name {
            "Tag" => {
                open!(Tag);
            }
            "Compression" => {
                open!(Compression);
            }
            "SampleFormat" => {
                open!(SampleFormat);
            }
            "Type" => closed!(Type),
            "PhotometricInterpretation" => closed!(PhotometricInterpretation),
            "ExtraSamples" => closed!(ExtraSamples),
            "PlanarConfiguration" => closed!(PlanarConfiguration),
            "Predictor" => closed!(Predictor),
            "ResolutionUnit" => closed!(ResolutionUnit),
            e => panic!("unknown enumeration {e}"),
        }
        (known, odd)
    });
    match r {
        Some((known, odd)) => json!({"e": name, "known": known, "odd": odd, "panic": 0}),
        None => json!({"e": name, "known": [], "odd": 0, "panic": 1}),
    }
}
