//! Sessions: a client opening a file, reading directories and fetching tiles, with faults.

use std::ops::Range;
use std::sync::Arc;

use async_tiff::error::AsyncTiffResult;
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::{MetadataFetch, TiffMetadataReader};
use async_tiff::reader::{AsyncFileReader, Endianness, ObjectReader, TokioReader};
use async_tiff::{CompressedBytes, ImageFileDirectory, Tile, TileByteRange, TilesByteRanges, TIFF};
use async_trait::async_trait;
use bytes::Bytes;
use serde_json::{json, Value};

use crate::j;
use crate::meta::{dir, next_of};
use crate::source::{drive, Fault, Sparse};

/// The reader of a session.
pub fn reader(kind: &str, source: &Sparse) -> Arc<dyn AsyncFileReader> {
    match kind {
        "sparse" => Arc::new(source.clone()),
        "box" => {
            let b: Box<dyn AsyncFileReader> = Box::new(source.clone());
            Arc::new(b)
        }
        "arc" => {
            let a: Arc<dyn AsyncFileReader> = Arc::new(source.clone());
            Arc::new(a)
        }
        "tokio" => Arc::new(TokioReader::new(std::io::Cursor::new(source.all()))),
        "object" => {
            use object_store::ObjectStoreExt;
            let store = Arc::new(object_store::memory::InMemory::new());
            let path = object_store::path::Path::from("dir/file.tif");
            drive(store.put(&path, Bytes::from(source.all()).into()))
                .unwrap()
                .unwrap();
            Arc::new(ObjectReader::new(store, path))
        }
        _ => panic!("reader {kind}"),
    }
}

/// Metadata either straight from the reader or through the cache.
#[derive(Debug)]
pub enum Fetch {
    Plain(Arc<dyn AsyncFileReader>),
    Cached(ReadaheadMetadataCache<Arc<dyn AsyncFileReader>>),
}

#[async_trait]
impl MetadataFetch for Fetch {
    async fn fetch(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
        match self {
            Fetch::Plain(f) => f.get_bytes(range).await,
            Fetch::Cached(f) => f.fetch(range).await,
        }
    }
}

impl Fetch {
    pub fn new(reader: Arc<dyn AsyncFileReader>, cache: &Value) -> Self {
        if cache["p"] == 1 {
            let mut c = ReadaheadMetadataCache::new(reader);
            if cache["default"] != 1 {
                c = c
                    .with_initial_size(j::num(&cache["init"]))
                    .with_multiplier(cache["m8"].as_u64().unwrap() as f64 / 8.0);
            }
            Fetch::Cached(c)
        } else {
            Fetch::Plain(reader)
        }
    }
}

fn range(r: &Range<u64>) -> Value {
    json!([j::w8(r.start), j::w8(r.end)])
}

fn tile_range(r: &TileByteRange) -> Value {
    match r {
        TileByteRange::Chunky(r) => json!([range(r)]),
        TileByteRange::Planar(rs) => json!(rs.iter().map(range).collect::<Vec<_>>()),
    }
}

pub fn tile(t: &Tile) -> Value {
    let (planar, p) = match t.compressed_bytes() {
        CompressedBytes::Chunky(b) => (false, vec![j::blob(b)]),
        CompressedBytes::Planar(bs) => (true, bs.iter().map(|b| j::blob(b)).collect()),
    };
    json!({
        "x": j::w8(t.x() as u64), "y": j::w8(t.y() as u64), "planar": planar, "p": p,
        "c": j::opt(Some(vec![json!(t.compression_method().to_u16().to_be_bytes())])),
        "ph": j::opt(Some(vec![json!(t.photometric_interpretation().to_u16().to_be_bytes())])),
        "jt": j::opt(t.jpeg_tables().map(|v| v.iter().map(|x| json!([x])).collect())),
    })
}

pub fn positions(v: &Value) -> Vec<(usize, usize)> {
    j::arr(v)
        .iter()
        .map(|p| (j::num(&p[0]) as usize, j::num(&p[1]) as usize))
        .collect()
}

pub struct Session {
    pub source: Sparse,
    pub reader: Arc<dyn AsyncFileReader>,
    pub fetch: Fetch,
    pub meta: Option<TiffMetadataReader>,
    pub dirs: Vec<ImageFileDirectory>,
}

enum Out<T> {
    Done(T),
    Err,
    Cancel,
    Panic,
    Hang,
}

impl Session {
    pub fn new(case: &Value) -> Self {
        let strict = j::text(&case["mode"]) == "strict";
        let source = Sparse::from_json(&case["file"], strict);
        let reader = reader(j::text(&case["reader"]), &source);
        let fetch = Fetch::new(reader.clone(), &case["cache"]);
        Self { source, reader, fetch, meta: None, dirs: vec![] }
    }

    /// Run a library operation and classify how it ended.
    fn attempt<T>(source: &Sparse, f: impl std::future::Future<Output = AsyncTiffResult<T>>) -> Out<T> {
        match j::guard(|| drive(f)) {
            None => Out::Panic,
            Some(None) if source.hanging() => Out::Cancel,
            Some(None) => Out::Hang,
            Some(Some(Err(_))) if source.exhausted() => Out::Hang,
            Some(Some(Err(_))) => Out::Err,
            Some(Some(Ok(v))) => Out::Done(v),
        }
    }

    pub fn op(&mut self, op: &Value) -> Value {
        let mut o = op.clone();
        let faults = match op.get("fault") {
            Some(f) => {
                let kind = match j::text(&f["kind"]) {
                    "fail" => Some(Fault::Fail),
                    "short" => Some(Fault::Short(j::num(&f["n"]))),
                    "hang" => Some(Fault::Hang),
                    _ => None,
                };
                kind.map(|k| vec![(j::int(&f["at"]), k)]).unwrap_or_default()
            }
            None => vec![],
        };
        self.source.set_faults(faults);
        let dir_at = |d: &Value, dirs: &Vec<ImageFileDirectory>| dirs.get(j::int(d) - 1).cloned();
        let mut set = |k: &str, v: Value| o[k] = v;
        let r = match j::text(&op["op"]) {
            "open" => match Self::attempt(&self.source, TiffMetadataReader::try_open(&self.fetch)) {
                Out::Done(m) => {
                    set("le", json!(m.endianness() == Endianness::LittleEndian));
                    set("big", json!(m.bigtiff()));
                    set("next", next_of(&m));
                    self.meta = Some(m);
                    self.dirs.clear();
                    "ok"
                }
                x => word(&x),
            },
            "next" => match &mut self.meta {
                None => "skip",
                Some(m) => {
                    let x = Self::attempt(&self.source, m.read_next_ifd(&self.fetch));
                    set("next", next_of(m));
                    match x {
                        Out::Done(None) => "none",
                        Out::Done(Some(d)) => {
                            set("d", dir(&d));
                            self.dirs.push(d);
                            "ok"
                        }
                        x => word(&x),
                    }
                }
            },
            "all" => match &mut self.meta {
                None => "skip",
                Some(m) => {
                    let x = if op.get("via").is_some() {
                        Self::attempt(&self.source, async {
                            m.read(&self.fetch).await.map(|t| t.ifds().to_vec())
                        })
                    } else {
                        Self::attempt(&self.source, m.read_all_ifds(&self.fetch))
                    };
                    set("next", next_of(m));
                    match x {
                        Out::Done(ds) => {
                            set("ds", json!(ds.iter().map(dir).collect::<Vec<_>>()));
                            self.dirs.extend(ds);
                            "ok"
                        }
                        x => word(&x),
                    }
                }
            },
            "hsize" => match &self.meta {
                None => "skip",
                Some(m) => {
                    let t = TIFF::new(self.dirs.clone(), m.endianness());
                    match j::guard(|| t.header_byte_size()) {
                        Some(n) => {
                            set("w", j::w8(n));
                            "ok"
                        }
                        None => "panic",
                    }
                }
            },
            "count" => match dir_at(&op["d"], &self.dirs) {
                None => "skip",
                Some(d) => match j::guard(|| d.tile_count()) {
                    None => "panic",
                    Some(None) => "none",
                    Some(Some((x, y))) => {
                        set("nx", j::w8(x as u64));
                        set("ny", j::w8(y as u64));
                        "ok"
                    }
                },
            },
            "ranges" => match dir_at(&op["d"], &self.dirs) {
                None => "skip",
                Some(d) => {
                    let xy = positions(&op["xy"]);
                    let one: Vec<Value> = xy
                        .iter()
                        .map(|(x, y)| match j::guard(|| d.tile_byte_range(*x, *y)) {
                            None => json!({"r": "panic", "rs": []}),
                            Some(None) => json!({"r": "none", "rs": []}),
                            Some(Some(r)) => json!({"r": "ok", "rs": tile_range(&r)}),
                        })
                        .collect();
                    set("one", json!(one));
                    set("ts", json!([]));
                    match j::guard(|| d.tiles_byte_ranges(&xy)) {
                        None => "panic",
                        Some(None) => "none",
                        Some(Some(r)) => {
                            let ts: Vec<Value> = match &r {
                                TilesByteRanges::Chunky(rs) => {
                                    rs.iter().map(|r| json!([range(r)])).collect()
                                }
                                TilesByteRanges::Planar(ts) => ts
                                    .iter()
                                    .map(|rs| json!(rs.iter().map(range).collect::<Vec<_>>()))
                                    .collect(),
                            };
                            set("ts", json!(ts));
                            "ok"
                        }
                    }
                }
            },
            "tiles" => match dir_at(&op["d"], &self.dirs) {
                None => "skip",
                Some(d) => {
                    let xy = positions(&op["xy"]);
                    let single = op.get("single").is_some() && xy.len() == 1;
                    let x = Self::attempt(&self.source, async {
                        if single {
                            let t = d.fetch_tile(xy[0].0, xy[0].1, self.reader.as_ref()).await?;
                            Ok(vec![t])
                        } else {
                            d.fetch_tiles(&xy, self.reader.as_ref()).await
                        }
                    });
                    set("ts", json!([]));
                    match x {
                        Out::Done(ts) => {
                            set("ts", json!(ts.iter().map(tile).collect::<Vec<_>>()));
                            "ok"
                        }
                        x => word(&x),
                    }
                }
            },
            x => panic!("op {x}"),
        };
        let hit = self.source.hit();
        o["r"] = json!(r);
        o["hit"] = json!(hit);
        o["reqs"] = json!(self.source.requests());
        o.as_object_mut().unwrap().remove("fault");
        o
    }
}

fn word<T>(x: &Out<T>) -> &'static str {
    match x {
        Out::Done(_) => "ok",
        Out::Err => "err",
        Out::Cancel => "cancel",
        Out::Panic => "panic",
        Out::Hang => "hang",
    }
}

pub fn run(case: &Value) -> Value {
    crate::alloc::set_cap(1 << 26);
    let mut s = Session::new(case);
    let ops: Vec<Value> = j::arr(&case["ops"]).iter().map(|op| s.op(op)).collect();
    // the same file again, through a cache of the size reported by the first session
    let mut again = json!({"p": 0, "ops": [], "reqs": []});
    if case.get("again") == Some(&json!(1)) {
        if let Some(h) = ops.iter().find(|o| o["op"] == "hsize" && o["r"] == "ok") {
            let mut c = case.clone();
            c["cache"] = json!({"p": 1, "init": h["w"], "m8": 16});
            let mut s = Session::new(&c);
            let ops: Vec<Value> = [json!({"op": "open"}), json!({"op": "all"})]
                .iter()
                .map(|op| s.op(op))
                .collect();
            let reqs: Vec<Value> = s.source.log().iter().map(range).collect();
            again = json!({"p": 1, "ops": ops, "reqs": reqs});
        }
    }
    json!({"id": case["id"], "file": case["file"], "ops": ops, "again": again})
}
