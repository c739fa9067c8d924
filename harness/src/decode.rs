//! Decoding tiles: with the built-in decoders and with decoders of the user.

use std::sync::{Arc, Mutex};

use async_tiff::decoder::{Decoder, DecoderRegistry};
use async_tiff::error::{AsyncTiffError, AsyncTiffResult};
use async_tiff::metadata::TiffMetadataReader;
use async_tiff::ndarray::NdArray;
use async_tiff::tags::{Compression, PhotometricInterpretation};
use async_tiff::{Array, DataType, TypedArray};
use bytes::Bytes;
use serde_json::{json, Value};

use crate::j;
use crate::session::{reader, Fetch};
use crate::source::{drive, Sparse};

type Log = Arc<Mutex<Vec<Value>>>;

/// A decoder that records its calls and answers as told.
#[derive(Debug)]
struct Recorder {
    id: u64,
    echo: bool,
    outs: Vec<Option<Vec<u8>>>,
    calls: Mutex<usize>,
    log: Log,
}

impl Decoder for Recorder {
    fn decode_tile(
        &self,
        buffer: Bytes,
        ph: PhotometricInterpretation,
        jpeg_tables: Option<&[u8]>,
        samples_per_pixel: u16,
        bits_per_sample: u16,
        lerc_parameters: Option<&[u32]>,
    ) -> AsyncTiffResult<Vec<u8>> {
        let mut calls = self.calls.lock().unwrap();
        self.log.lock().unwrap().push(json!({
            "id": self.id, "b": j::blob(&buffer), "ph": ph.to_u16(), "spp": samples_per_pixel,
            "bits": bits_per_sample,
            "jt": j::opt(jpeg_tables.map(|v| v.iter().map(|x| json!([x])).collect())),
            "lp": j::opt(lerc_parameters.map(|v| v.iter().map(|x| json!(x.to_be_bytes())).collect())),
        }));
        *calls += 1;
        if self.echo {
            return Ok(buffer.to_vec());
        }
        match self.outs.get(*calls - 1) {
            Some(Some(b)) => Ok(b.clone()),
            _ => Err(AsyncTiffError::General("told to fail".to_string())),
        }
    }
}

/// A built-in decoder; what it allocates is its own affair.
#[derive(Debug)]
struct Codec(Box<dyn Decoder>);

impl Decoder for Codec {
    fn decode_tile(
        &self,
        buffer: Bytes,
        ph: PhotometricInterpretation,
        jpeg_tables: Option<&[u8]>,
        samples_per_pixel: u16,
        bits_per_sample: u16,
        lerc_parameters: Option<&[u32]>,
    ) -> AsyncTiffResult<Vec<u8>> {
        crate::alloc::codec(|| {
            self.0.decode_tile(buffer, ph, jpeg_tables, samples_per_pixel, bits_per_sample, lerc_parameters)
        })
    }
}

/// The registry of a case. Recorders count their calls per registry, so there is one per tile.
fn registry(reg: &Value, log: &Log) -> DecoderRegistry {
    let mut r = match j::text(&reg["base"]) {
        "default" => DecoderRegistry::default(),
        _ => DecoderRegistry::empty(),
    };
    if reg["codec"] == 1 {
        let all = std::mem::take(r.as_mut());
        r.as_mut().extend(all.into_iter().map(|(m, d)| (m, Box::new(Codec(d)) as Box<dyn Decoder>)));
    }
    for a in j::arr(&reg["add"]) {
        let method = Compression::from_u16_exhaustive(j::int(&a["m"]) as u16);
        let d = Recorder {
            id: a["id"].as_u64().unwrap(),
            echo: a["echo"] == 1,
            outs: j::arr(&a["outs"])
                .iter()
                .map(|o| (o["r"] == "ok").then(|| j::bytes(&o["b"])))
                .collect(),
            calls: Mutex::new(0),
            log: log.clone(),
        };
        r.as_mut().insert(method, Box::new(d));
    }
    r
}

fn type_name(t: Option<DataType>) -> &'static str {
    match t {
        None => "none",
        Some(DataType::Bool) => "bool",
        Some(DataType::UInt8) => "u8",
        Some(DataType::UInt16) => "u16",
        Some(DataType::UInt32) => "u32",
        Some(DataType::UInt64) => "u64",
        Some(DataType::Int8) => "i8",
        Some(DataType::Int16) => "i16",
        Some(DataType::Int32) => "i32",
        Some(DataType::Int64) => "i64",
        Some(DataType::Float32) => "f32",
        Some(DataType::Float64) => "f64",
    }
}

/// Name of the stored variant and the bytes of its elements, most significant first.
pub fn elements(a: &TypedArray) -> (&'static str, Vec<u8>) {
    macro_rules! flat {
        ($v:expr) => {
            $v.iter().flat_map(|x| x.to_be_bytes()).collect()
        };
    }
    match a {
        TypedArray::Bool(v) => ("bool", v.iter().map(|b| *b as u8).collect()),
        TypedArray::UInt8(v) => ("u8", v.clone()),
        TypedArray::UInt16(v) => ("u16", flat!(v)),
        TypedArray::UInt32(v) => ("u32", flat!(v)),
        TypedArray::UInt64(v) => ("u64", flat!(v)),
        TypedArray::Int8(v) => ("i8", flat!(v)),
        TypedArray::Int16(v) => ("i16", flat!(v)),
        TypedArray::Int32(v) => ("i32", flat!(v)),
        TypedArray::Int64(v) => ("i64", flat!(v)),
        TypedArray::Float32(v) => ("f32", v.iter().flat_map(|x| x.to_bits().to_be_bytes()).collect()),
        TypedArray::Float64(v) => ("f64", v.iter().flat_map(|x| x.to_bits().to_be_bytes()).collect()),
    }
}

fn shape(s: &[usize]) -> Value {
    json!(s.iter().map(|n| j::w8(*n as u64)).collect::<Vec<_>>())
}

fn nd(a: Array) -> Value {
    macro_rules! cells {
        ($name:expr, $a:expr, $f:expr) => {{
            let s = $a.shape().to_vec();
            let mut e: Vec<u8> = vec![];
            let none = s.contains(&0);
            for i in 0..if none { 0 } else { s[0] } {
                for k in 0..s[1] {
                    for l in 0..s[2] {
                        e.extend($f($a[[i, k, l]]));
                    }
                }
            }
            json!({"r": "ok", "ty": $name, "sh": shape(&s), "e": j::blob(&e)})
        }};
    }
    match j::guard(|| NdArray::try_from(a)) {
        None => json!({"r": "panic", "ty": "", "sh": [], "e": []}),
        Some(Err(_)) => json!({"r": "err", "ty": "", "sh": [], "e": []}),
        Some(Ok(a)) => match a {
            NdArray::Bool(a) => cells!("bool", a, |x: bool| [x as u8]),
            NdArray::Uint8(a) => cells!("u8", a, u8::to_be_bytes),
            NdArray::Uint16(a) => cells!("u16", a, u16::to_be_bytes),
            NdArray::Uint32(a) => cells!("u32", a, u32::to_be_bytes),
            NdArray::Uint64(a) => cells!("u64", a, u64::to_be_bytes),
            NdArray::Int8(a) => cells!("i8", a, i8::to_be_bytes),
            NdArray::Int16(a) => cells!("i16", a, i16::to_be_bytes),
            NdArray::Int32(a) => cells!("i32", a, i32::to_be_bytes),
            NdArray::Int64(a) => cells!("i64", a, i64::to_be_bytes),
            NdArray::Float32(a) => cells!("f32", a, |x: f32| x.to_bits().to_be_bytes()),
            NdArray::Float64(a) => cells!("f64", a, |x: f64| x.to_bits().to_be_bytes()),
        },
    }
}

pub fn decoded(r: Option<AsyncTiffResult<Array>>) -> Value {
    let none = |r: &str| json!({"r": r, "ty": "", "sh": [], "e": [], "b": [], "nd": {"r": "err", "ty": "", "sh": [], "e": []}});
    match r {
        None => {
            let mut d = none("panic");
            d["site"] = json!(j::panic_site());
            d
        }
        Some(Err(_)) => none("err"),
        Some(Ok(a)) => {
            let (variant, e) = elements(a.data());
            let ty = type_name(a.data_type());
            // the variant is the element type; data of unknown type are bytes
            let ty = if ty == variant || (ty == "none" && variant == "u8") { ty } else { "?" };
            let len_ok = e.is_empty() == a.data().is_empty()
                && a.data().len() * a.data_type().map(|t| t.size()).unwrap_or(1) == e.len();
            let ty = if len_ok { ty } else { "?len" };
            let b = a.data().as_ref().to_vec();
            let sh = shape(&a.shape());
            let n = nd(a.clone());
            // taking the array apart gives the same things
            let (data, s2, t2) = a.into_inner();
            let ty = if elements(&data).1 == e && shape(&s2) == sh && type_name(t2) == ty { ty } else { "?inner" };
            json!({"r": "ok", "ty": ty, "sh": sh, "e": j::blob(&e), "b": j::blob(&b), "nd": n})
        }
    }
}

pub fn run(case: &Value) -> Value {
    crate::alloc::set_cap(case.get("cap").map(j::int).unwrap_or(1 << 26));
    let source = Sparse::from_json(&case["file"], true);
    let rd = reader(case.get("reader").map(j::text).unwrap_or("sparse"), &source);
    let fetch = Fetch::new(rd.clone(), &json!({"p": 0}));
    let dirs = j::guard(|| {
        drive(async {
            let mut m = TiffMetadataReader::try_open(&fetch).await?;
            m.read_all_ifds(&fetch).await
        })
    });
    let (r, dir) = match dirs {
        None => ("panic", None),
        Some(None) => ("hang", None),
        Some(Some(Err(_))) => ("err", None),
        Some(Some(Ok(ds))) => ("ok", ds.into_iter().next()),
    };
    let mut ts = vec![];
    for t in j::arr(&case["ts"]) {
        let Some(dir) = &dir else { break };
        let (x, y) = (j::num(&t["xy"][0]) as usize, j::num(&t["xy"][1]) as usize);
        let log: Log = Default::default();
        let tile = j::guard(|| drive(dir.fetch_tile(x, y, rd.as_ref())));
        let (f, d) = match tile {
            None => ("panic", decoded(Some(Err(AsyncTiffError::General(String::new()))))),
            Some(None) => ("hang", decoded(Some(Err(AsyncTiffError::General(String::new()))))),
            Some(Some(Err(_))) => ("err", decoded(Some(Err(AsyncTiffError::General(String::new()))))),
            Some(Some(Ok(tile))) => {
                let reg = registry(&case["reg"], &log);
                ("ok", decoded(j::guard(|| tile.decode(&reg))))
            }
        };
        let calls = log.lock().unwrap().clone();
        ts.push(json!({"xy": t["xy"], "raw": t["raw"], "f": f, "d": d, "calls": calls}));
    }
    json!({"id": case["id"], "file": case["file"], "reg": case["reg"], "r": r, "ts": ts})
}
