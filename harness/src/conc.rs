//! Several tile fetches at once on one reader; the order in which the source answers requests is
//! given by a schedule.

use std::collections::VecDeque;
use std::future::Future;
use std::ops::Range;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

use async_tiff::error::AsyncTiffResult;
use async_tiff::reader::AsyncFileReader;
use async_tiff::Tile;
use async_trait::async_trait;
use bytes::Bytes;
use serde_json::{json, Value};

use crate::j;
use crate::session::{positions, tile, Session};
use crate::source::Sparse;

#[derive(Default, Debug)]
struct Gate {
    /// The client being polled.
    who: usize,
    next: usize,
    /// Unanswered requests: id and client.
    open: Vec<(usize, usize)>,
    /// Answers given: id and fault.
    answers: VecDeque<(usize, String)>,
}

#[derive(Clone, Debug)]
struct Gated {
    source: Sparse,
    gate: Arc<Mutex<Gate>>,
}

#[async_trait]
impl AsyncFileReader for Gated {
    async fn get_bytes(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
        let id = {
            let mut g = self.gate.lock().unwrap();
            let id = g.next;
            g.next += 1;
            let who = g.who;
            g.open.push((id, who));
            id
        };
        let gate = self.gate.clone();
        let f = std::future::poll_fn(move |_| {
            let mut g = gate.lock().unwrap();
            match g.answers.iter().position(|(i, _)| *i == id) {
                Some(k) => Poll::Ready(g.answers.remove(k).unwrap().1),
                None => Poll::Pending,
            }
        })
        .await;
        match f.as_str() {
            "fail" => Err(crate::fail::any(range.start.wrapping_add(range.end))),
            "short" => {
                let b = self.source.get_bytes(range).await?;
                Ok(b.slice(0..b.len() / 2))
            }
            _ => self.source.get_bytes(range).await,
        }
    }
}

type Fut = Pin<Box<dyn Future<Output = AsyncTiffResult<Vec<Tile>>>>>;

pub fn run(case: &Value) -> Value {
    crate::alloc::set_cap(1 << 26);
    let mut s = Session::new(case);
    let mut ops: Vec<Value> = [json!({"op": "open"}), json!({"op": "all"})]
        .iter()
        .map(|op| s.op(op))
        .collect();
    let gate = Arc::new(Mutex::new(Gate::default()));
    let gated = Gated { source: s.source.clone(), gate: gate.clone() };
    let reader: Arc<dyn AsyncFileReader> = match j::text(&case["reader"]) {
        "box" => {
            let b: Box<dyn AsyncFileReader> = Box::new(gated);
            Arc::new(b)
        }
        "arc" => {
            let a: Arc<dyn AsyncFileReader> = Arc::new(gated);
            Arc::new(a)
        }
        _ => Arc::new(gated),
    };
    let clients = j::arr(&case["clients"]);
    let n = clients.len();
    let mut futs: Vec<Option<Fut>> = (0..n).map(|_| None).collect();
    let mut started = vec![false; n];
    let mut out: Vec<Option<(String, Value)>> = vec![None; n];
    let mut hit = vec!["none".to_string(); n];
    let waker = Waker::noop();
    let mut cx = Context::from_waker(waker);

    let start = |c: usize| -> Option<Fut> {
        let d = s.dirs.get(j::int(&clients[c]["d"]) - 1)?.clone();
        let xy = positions(&clients[c]["xy"]);
        let single = clients[c].get("single").is_some() && xy.len() == 1;
        let r = reader.clone();
        Some(Box::pin(async move {
            if single {
                Ok(vec![d.fetch_tile(xy[0].0, xy[0].1, r.as_ref()).await?])
            } else {
                d.fetch_tiles(&xy, r.as_ref()).await
            }
        }))
    };
    let mut act = |what: &str, c: usize, f: &str| {
        match what {
            "start" if !started[c] => {
                started[c] = true;
                match start(c) {
                    Some(x) => futs[c] = Some(x),
                    None => out[c] = Some(("skip".into(), json!([]))),
                }
            }
            "answer" => {
                let mut g = gate.lock().unwrap();
                let Some(k) = g.open.iter().position(|(_, w)| *w == c) else { return };
                let (id, _) = g.open.remove(k);
                g.answers.push_back((id, f.to_string()));
                if f != "none" && hit[c] == "none" {
                    hit[c] = f.to_string();
                }
            }
            "drop" => {
                if futs[c].take().is_some() {
                    hit[c] = "hang".into();
                    out[c] = Some(("cancel".into(), json!([])));
                    let mut g = gate.lock().unwrap();
                    g.open.retain(|(_, w)| *w != c);
                }
                return;
            }
            _ => return,
        }
        if let Some(fut) = &mut futs[c] {
            gate.lock().unwrap().who = c;
            match j::guard(|| fut.as_mut().poll(&mut cx)) {
                None => out[c] = Some(("panic".into(), json!([]))),
                Some(Poll::Pending) => return,
                Some(Poll::Ready(Err(_))) => out[c] = Some(("err".into(), json!([]))),
                Some(Poll::Ready(Ok(ts))) => {
                    let ts: Vec<Value> = ts.iter().map(tile).collect();
                    out[c] = Some(("ok".into(), json!(ts)));
                }
            }
            futs[c] = None;
            gate.lock().unwrap().open.retain(|(_, w)| *w != c);
        }
    };
    for step in j::arr(&case["schedule"]) {
        act(j::text(&step["a"]), j::int(&step["c"]), j::text(&step["f"]));
    }
    // let everything finish
    for c in 0..n {
        act("start", c, "none");
        for _ in 0..1000 {
            act("answer", c, "none");
        }
    }
    for c in 0..n {
        let (r, ts) = out[c].take().unwrap_or(("hang".into(), json!([])));
        ops.push(json!({
            "op": "tiles", "d": clients[c]["d"], "xy": clients[c]["xy"], "r": r, "hit": hit[c],
            "ts": ts,
        }));
    }
    json!({"id": case["id"], "file": case["file"], "ops": ops,
           "again": {"p": 0, "ops": [], "reqs": []}})
}
