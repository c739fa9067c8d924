//! The same image in several files, read by several readers.

use std::sync::Arc;
use std::time::Duration;

use async_tiff::decoder::DecoderRegistry;
use async_tiff::error::AsyncTiffError;
use async_tiff::metadata::TiffMetadataReader;
use async_tiff::reader::AsyncFileReader;
use async_tiff::ImageFileDirectory;
use serde_json::{json, Value};

use crate::decode::decoded;
use crate::j;
use crate::meta::dir;
use crate::ranges::{http_reader, runtime};
use crate::session::{reader, Fetch};
use crate::source::{drive, Sparse};

/// Wait for the outcome: library code without I/O of its own is driven by hand.
fn wait<T>(http: bool, f: impl std::future::Future<Output = T>) -> Option<T> {
    if http {
        runtime().block_on(async { tokio::time::timeout(Duration::from_secs(20), f).await.ok() })
    } else {
        drive(f)
    }
}

fn variant(v: &Value) -> Value {
    let source = Sparse::from_json(&v["file"], true);
    let kind = j::text(&v["reader"]);
    let http = kind == "http";
    let rd: Arc<dyn AsyncFileReader> =
        if http { Arc::new(http_reader(source.all())) } else { reader(kind, &source) };
    let fetch = Fetch::new(rd.clone(), &v["cache"]);
    let read = |one: bool| {
        j::guard(|| {
            wait(http, async {
                let mut m = TiffMetadataReader::try_open(&fetch).await?;
                if one {
                    let mut ds: Vec<ImageFileDirectory> = vec![];
                    while let Some(d) = m.read_next_ifd(&fetch).await? {
                        ds.push(d);
                    }
                    return Ok(ds);
                }
                m.read_all_ifds(&fetch).await
            })
        })
    };
    let (r, ds) = match read(v["one"] == 1) {
        None => ("panic", vec![]),
        Some(None) => ("hang", vec![]),
        Some(Some(Err(_))) => ("err", vec![]),
        Some(Some(Ok(ds))) => ("ok", ds),
    };
    let reg = DecoderRegistry::default();
    let mut ts = vec![];
    for (d, known) in ds.iter().zip(j::arr(&v["raws"])) {
        let mut tiles = vec![];
        for t in j::arr(known) {
            let (x, y) = (j::num(&t["xy"][0]) as usize, j::num(&t["xy"][1]) as usize);
            let got = j::guard(|| wait(http, d.fetch_tile(x, y, rd.as_ref())));
            let nothing = || decoded(Some(Err(AsyncTiffError::General(String::new()))));
            let (f, d) = match got {
                None => ("panic", nothing()),
                Some(None) => ("hang", nothing()),
                Some(Some(Err(_))) => ("err", nothing()),
                Some(Some(Ok(tile))) => ("ok", decoded(j::guard(|| tile.decode(&reg)))),
            };
            tiles.push(json!({"xy": t["xy"], "raw": t["raw"], "f": f, "d": d, "calls": []}));
        }
        ts.push(json!(tiles));
    }
    json!({"file": v["file"], "reader": kind, "r": r, "ds": ds.iter().map(dir).collect::<Vec<_>>(), "ts": ts,
           "reg": {"base": "default", "add": []}})
}

pub fn run(case: &Value) -> Value {
    crate::alloc::set_cap(1 << 28);
    let vs: Vec<Value> = j::arr(&case["vs"]).iter().map(variant).collect();
    json!({"id": case["id"], "vs": vs})
}
