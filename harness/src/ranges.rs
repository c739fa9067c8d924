//! Single and multi-range requests through every provided reader.

use std::collections::VecDeque;
use std::ops::Range;
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;

use async_tiff::error::AsyncTiffResult;
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::MetadataFetch;
use async_tiff::reader::{AsyncFileReader, ObjectReader, ReqwestReader, TokioReader};
use async_trait::async_trait;
use bytes::Bytes;
use futures::stream::BoxStream;
use object_store::memory::InMemory;
use object_store::path::Path;
use object_store::*;
use serde_json::{json, Value};

use crate::http;
use crate::j;

pub fn runtime() -> &'static tokio::runtime::Runtime {
    static R: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    R.get_or_init(|| {
        tokio::runtime::Builder::new_multi_thread()
            .worker_threads(2)
            .enable_all()
            .build()
            .unwrap()
    })
}

/// Requests that fail, and how many did.
#[derive(Debug, Default)]
struct Plan {
    modes: VecDeque<String>,
    bad: usize,
    calls: Vec<Value>,
    answers: Vec<Value>,
}

type Shared = Arc<Mutex<Plan>>;

impl Plan {
    fn fails(&mut self) -> bool {
        let f = self.modes.pop_front().is_some_and(|m| m == "fail");
        self.bad += f as usize;
        f
    }
}

/// An object store that fails when told; `coalesce`: with the provided `get_ranges`.
#[derive(Debug)]
struct Store {
    inner: InMemory,
    plan: Shared,
    coalesce: bool,
    base: u64,
}

/// The same range in data that begin at `base`.
fn rel(r: &Range<u64>, base: u64) -> Option<Range<u64>> {
    Some(r.start.checked_sub(base)?..r.end.checked_sub(base)?)
}

impl Store {
    fn rel(&self, r: &Range<u64>) -> Result<Range<u64>> {
        rel(r, self.base).ok_or(failure(0))
    }
}

impl std::fmt::Display for Store {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Store")
    }
}

fn failure(k: u64) -> object_store::Error {
    object_store::Error::Generic { store: "mock", source: crate::fail::io(k).into() }
}

#[async_trait]
impl ObjectStore for Store {
    async fn put_opts(&self, l: &Path, p: PutPayload, o: PutOptions) -> Result<PutResult> {
        self.inner.put_opts(l, p, o).await
    }
    async fn put_multipart_opts(&self, l: &Path, o: PutMultipartOptions) -> Result<Box<dyn MultipartUpload>> {
        self.inner.put_multipart_opts(l, o).await
    }
    async fn get_opts(&self, l: &Path, mut o: GetOptions) -> Result<GetResult> {
        if let Some(GetRange::Bounded(r)) = &o.range {
            o.range = Some(GetRange::Bounded(self.rel(r)?));
        }
        if self.plan.lock().unwrap().fails() {
            return Err(failure(80));
        }
        self.inner.get_opts(l, o).await
    }
    async fn get_ranges(&self, l: &Path, ranges: &[Range<u64>]) -> Result<Vec<Bytes>> {
        if self.coalesce {
            // as the provided method does
            object_store::coalesce_ranges(ranges, |r| self.get_range(l, r), 4).await
        } else {
            if self.plan.lock().unwrap().fails() {
                return Err(failure(ranges.len() as u64));
            }
            let ranges = ranges.iter().map(|r| self.rel(r)).collect::<Result<Vec<_>>>()?;
            self.inner.get_ranges(l, &ranges).await
        }
    }
    fn delete_stream(&self, s: BoxStream<'static, Result<Path>>) -> BoxStream<'static, Result<Path>> {
        self.inner.delete_stream(s)
    }
    fn list(&self, p: Option<&Path>) -> BoxStream<'static, Result<ObjectMeta>> {
        self.inner.list(p)
    }
    async fn list_with_delimiter(&self, p: Option<&Path>) -> Result<ListResult> {
        self.inner.list_with_delimiter(p).await
    }
    async fn copy_opts(&self, a: &Path, b: &Path, o: CopyOptions) -> Result<()> {
        self.inner.copy_opts(a, b, o).await
    }
}

fn slice(data: &[u8], r: &Range<u64>) -> Bytes {
    let n = data.len() as u64;
    let a = r.start.min(n);
    let b = r.end.clamp(a, n);
    Bytes::copy_from_slice(&data[a as usize..b as usize])
}

/// A user's reader that has only single requests.
#[derive(Debug)]
struct Plain {
    data: Arc<Vec<u8>>,
    base: u64,
    plan: Shared,
}

#[async_trait]
impl AsyncFileReader for Plain {
    async fn get_bytes(&self, r: Range<u64>) -> AsyncTiffResult<Bytes> {
        tokio::task::yield_now().await;
        if self.plan.lock().unwrap().fails() {
            return Err(crate::fail::any(r.start.wrapping_add(r.end)));
        }
        Ok(slice(&self.data, &rel(&r, self.base).ok_or(crate::fail::any(0))?))
    }
}

/// A user's reader with both methods, which records calls and answers; what it answers is its own
/// business.
#[derive(Debug)]
struct Recorder {
    data: Arc<Vec<u8>>,
    base: u64,
    plan: Shared,
    odd: bool,
}

fn pairs(rs: &[Range<u64>]) -> Value {
    json!(rs.iter().map(|r| json!([r.start, r.end])).collect::<Vec<_>>())
}

fn answer(r: &AsyncTiffResult<Vec<Bytes>>) -> Value {
    match r {
        Ok(bs) => json!({"r": "ok", "bs": bs.iter().map(|b| j::blob(b)).collect::<Vec<_>>()}),
        Err(_) => json!({"r": "err", "bs": []}),
    }
}

impl Recorder {
    fn act(&self, m: &str, rs: &[Range<u64>]) -> AsyncTiffResult<Vec<Bytes>> {
        let mut p = self.plan.lock().unwrap();
        let nowhere = (1 << 31) - 2..(1 << 31) - 1;
        let rs: &[Range<u64>] =
            &rs.iter().map(|r| rel(r, self.base).unwrap_or(nowhere.clone())).collect::<Vec<_>>();
        p.calls.push(json!({"m": m, "rs": pairs(rs)}));
        let r = if p.fails() {
            Err(crate::fail::any(rs.len() as u64 + m.len() as u64 / 4))
        } else {
            let mut bs: Vec<Bytes> = rs.iter().map(|r| slice(&self.data, r)).collect();
            if self.odd {
                // recognisably its own answer
                bs = bs.iter().map(|b| Bytes::from([b.as_ref(), &[m.len() as u8]].concat())).collect();
            }
            Ok(bs)
        };
        p.answers.push(answer(&r));
        r
    }
}

#[async_trait]
impl AsyncFileReader for Recorder {
    async fn get_bytes(&self, r: Range<u64>) -> AsyncTiffResult<Bytes> {
        tokio::task::yield_now().await;
        Ok(self.act("one", &[r])?.remove(0))
    }
    async fn get_byte_ranges(&self, rs: Vec<Range<u64>>) -> AsyncTiffResult<Vec<Bytes>> {
        tokio::task::yield_now().await;
        self.act("many", &rs)
    }
}

/// A file that holds data from `base` on.
#[derive(Debug)]
struct Far {
    data: std::io::Cursor<Vec<u8>>,
    base: u64,
    pos: u64,
}

impl tokio::io::AsyncRead for Far {
    fn poll_read(
        self: std::pin::Pin<&mut Self>,
        cx: &mut std::task::Context<'_>,
        buf: &mut tokio::io::ReadBuf<'_>,
    ) -> std::task::Poll<std::io::Result<()>> {
        let me = self.get_mut();
        let Some(at) = me.pos.checked_sub(me.base) else {
            return std::task::Poll::Ready(Err(crate::fail::io(0)));
        };
        me.data.set_position(at);
        let n = buf.filled().len();
        let r = std::pin::Pin::new(&mut me.data).poll_read(cx, buf);
        me.pos += (buf.filled().len() - n) as u64;
        r
    }
}

impl tokio::io::AsyncSeek for Far {
    fn start_seek(self: std::pin::Pin<&mut Self>, to: std::io::SeekFrom) -> std::io::Result<()> {
        let me = self.get_mut();
        me.pos = match to {
            std::io::SeekFrom::Start(n) => n,
            std::io::SeekFrom::Current(d) => me.pos.wrapping_add_signed(d),
            std::io::SeekFrom::End(d) => {
                (me.base + me.data.get_ref().len() as u64).wrapping_add_signed(d)
            }
        };
        Ok(())
    }
    fn poll_complete(
        self: std::pin::Pin<&mut Self>,
        _: &mut std::task::Context<'_>,
    ) -> std::task::Poll<std::io::Result<u64>> {
        std::task::Poll::Ready(Ok(self.pos))
    }
}

fn wrap(kind: &str, r: Arc<dyn AsyncFileReader>) -> Arc<dyn AsyncFileReader> {
    match kind {
        "arc" => Arc::new(r),
        "box" => {
            let b: Box<dyn AsyncFileReader> = Box::new(r);
            Arc::new(b)
        }
        _ => r,
    }
}

fn url() -> reqwest::Url {
    format!("http://{}/file", http::server().addr).parse().unwrap()
}

fn client() -> reqwest::Client {
    static C: OnceLock<reqwest::Client> = OnceLock::new();
    C.get_or_init(|| reqwest::Client::builder().no_proxy().build().unwrap()).clone()
}

/// A ready reader over the data, for other commands.
pub fn http_reader(data: Vec<u8>) -> ReqwestReader {
    let mut st = http::server().st.lock().unwrap();
    *st = http::State { data: Arc::new(data), ..Default::default() };
    ReqwestReader::new(client(), url())
}

pub fn run(case: &Value) -> Value {
    crate::alloc::set_cap(1 << 26);
    let n = j::int(&case["n"]);
    let data: Vec<u8> = (0..n).map(|i| ((i * 7 + i / 251 * 3 + 3) % 251) as u8).collect();
    let data = Arc::new(data);
    let plan: Shared = Default::default();
    let kind = j::text(&case["kind"]);
    let rt = runtime();
    let at = case.get("base").map_or(0, j::num);
    let base: Arc<dyn AsyncFileReader> = match kind {
        "http" => Arc::new(ReqwestReader::new(client(), url())),
        "object" | "coalesce" => {
            let inner = InMemory::new();
            let path = Path::from("dir/file.tif");
            rt.block_on(inner.put(&path, Bytes::from(data.to_vec()).into())).unwrap();
            let store = Store { inner, plan: plan.clone(), coalesce: kind == "coalesce", base: at };
            Arc::new(ObjectReader::new(Arc::new(store), path))
        }
        "file" => Arc::new(TokioReader::new(Far {
            data: std::io::Cursor::new(data.to_vec()),
            base: at,
            pos: 0,
        })),
        "plain" => Arc::new(Plain { data: data.clone(), base: at, plan: plan.clone() }),
        _ => Arc::new(Recorder { data: data.clone(), base: at, plan: plan.clone(), odd: case["odd"] == 1 }),
    };
    let mut reader = base;
    for w in j::arr(&case["wrap"]) {
        reader = wrap(j::text(w), reader);
    }
    // reads through the cache instead of the reader itself
    let cache = case.get("init").map(|i| {
        Arc::new(ReadaheadMetadataCache::new(reader.clone()).with_initial_size(j::num(i)))
    });
    let mut steps = vec![];
    for s in j::arr(&case["steps"]) {
        let modes: VecDeque<String> = j::arr(&s["modes"]).iter().map(|m| j::text(m).to_string()).collect();
        *plan.lock().unwrap() = Plan { modes: modes.clone(), ..Default::default() };
        if kind == "http" {
            let mut st = http::server().st.lock().unwrap();
            *st = http::State { data: data.clone(), base: at, modes, ..Default::default() };
        }
        let rs: Vec<Range<u64>> = j::arr(&s["rs"]).iter().map(|r| j::num(&r[0])..j::num(&r[1])).collect();
        let m = j::text(&s["m"]).to_string();
        let far: Vec<Range<u64>> = rs.iter().map(|r| at + r.start..at + r.end).collect();
        let (rd, ca, rs2, m2) = (reader.clone(), cache.clone(), far, m.clone());
        let work = async move {
            let one = |r: Range<u64>| {
                let (rd, ca) = (rd.clone(), ca.clone());
                async move {
                    match ca {
                        Some(c) => c.fetch(r).await,
                        None => rd.get_bytes(r).await,
                    }
                }
            };
            match m2.as_str() {
                "one" => one(rs2[0].clone()).await.map(|b| vec![b]),
                "conc" => futures::future::join_all(rs2.into_iter().map(one)).await.into_iter().collect(),
                _ => rd.get_byte_ranges(rs2).await,
            }
        };
        let got = rt.block_on(async { tokio::time::timeout(Duration::from_secs(20), tokio::spawn(work)).await });
        let out = match got {
            Err(_) => json!({"r": "hang", "bs": []}),
            Ok(Err(_)) => json!({"r": "panic", "bs": []}),
            Ok(Ok(r)) => answer(&r),
        };
        let p = plan.lock().unwrap();
        let bad = p.bad + if kind == "http" { http::server().st.lock().unwrap().bad } else { 0 };
        steps.push(json!({
            "m": m, "rs": pairs(&rs), "r": out["r"], "bs": out["bs"], "bad": bad, "log": p.calls, "ans": p.answers,
        }));
    }
    json!({"id": case["id"], "kind": kind, "data": j::blob(&data), "steps": steps})
}
