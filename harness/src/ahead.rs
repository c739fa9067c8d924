//! The readahead cache over a source that answers when told.

use std::collections::VecDeque;
use std::ops::Range;
use std::sync::{Arc, Mutex};
use std::task::{Poll, Waker};

use async_tiff::error::{AsyncTiffError, AsyncTiffResult};
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::MetadataFetch;
use async_trait::async_trait;
use bytes::Bytes;
use serde_json::{json, Value};

use crate::j;
use crate::sched::{event, Sched, Shared};

#[derive(Debug)]
struct Slot {
    answer: Option<String>,
    waker: Option<Waker>,
}

#[derive(Debug)]
struct Source {
    data: Bytes,
    strict: bool,
    /// Number of bytes a short answer leaves out.
    log: Shared,
    open: Arc<Mutex<VecDeque<Arc<Mutex<Slot>>>>>,
}

/// Notices that a request is abandoned.
struct Guard {
    log: Shared,
    by: usize,
    slot: Arc<Mutex<Slot>>,
    open: Arc<Mutex<VecDeque<Arc<Mutex<Slot>>>>>,
    done: bool,
}

impl Drop for Guard {
    fn drop(&mut self) {
        if !self.done {
            event(&self.log, "drop", self.by, 0, 0, "none", 0, &[]);
            self.open.lock().unwrap().retain(|s| !Arc::ptr_eq(s, &self.slot));
        }
    }
}

#[async_trait]
impl MetadataFetch for Source {
    async fn fetch(&self, r: Range<u64>) -> AsyncTiffResult<Bytes> {
        let by = self.log.lock().unwrap().who;
        event(&self.log, "req", by, r.start, r.end, "none", 0, &[]);
        let slot = Arc::new(Mutex::new(Slot { answer: None, waker: None }));
        self.open.lock().unwrap().push_back(slot.clone());
        let mut guard = Guard {
            log: self.log.clone(),
            by,
            slot: slot.clone(),
            open: self.open.clone(),
            done: false,
        };
        let kind = std::future::poll_fn(|cx| {
            let mut s = slot.lock().unwrap();
            match s.answer.take() {
                Some(a) => Poll::Ready(a),
                None => {
                    s.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        })
        .await;
        guard.done = true;
        let n = self.data.len() as u64;
        let start = r.start.min(n);
        let mut end = r.end.clamp(start, n);
        let say = |f: &str, k: u64| event(&self.log, "ans", by, 0, 0, f, k, &[]);
        if kind == "fail" {
            say("fail", 0);
            return Err(crate::fail::any(r.start.wrapping_add(r.end)));
        }
        if self.strict && r.end > n {
            say("eof", 0);
            return Err(AsyncTiffError::EndOfFile(r.end - r.start, end - start));
        }
        let mut f = "ok";
        if kind == "short" && end > start {
            f = "short";
            end = start + (end - start) / 2;
        }
        say(f, end - start);
        Ok(self.data.slice(start as usize..end as usize))
    }
}

pub fn run(case: &Value) -> Value {
    crate::alloc::set_cap(1 << 26);
    let cf = &case["cf"];
    let n = j::int(&cf["n"]);
    let data: Vec<u8> = (0..n).map(|i| ((i * 7 + i / 251 * 3 + 3) % 251) as u8).collect();
    let log: Shared = Default::default();
    let open = Arc::new(Mutex::new(VecDeque::new()));
    let source = Source {
        data: data.clone().into(),
        strict: cf["strict"] == true,
        log: log.clone(),
        open: open.clone(),
    };
    let mut cache = ReadaheadMetadataCache::new(source);
    if cf["default"] != 1 {
        let factor = match cf["num"].as_i64().unwrap() {
            x if x < 0 => 1e30,
            x => x as f64 / cf["den"].as_i64().unwrap() as f64,
        };
        cache = cache.with_initial_size(j::num(&cf["init"])).with_multiplier(factor);
    }
    let cache = Arc::new(cache);
    let mut s = Sched::new(log, case["last"] == 1);
    let answer = |f: &str| {
        let Some(slot) = open.lock().unwrap().pop_front() else { return false };
        let mut slot: std::sync::MutexGuard<Slot> = slot.lock().unwrap();
        slot.answer = Some(f.to_string());
        let w = slot.waker.take();
        drop(slot);
        if let Some(w) = w {
            w.wake()
        }
        true
    };
    for e in j::arr(&case["sched"]) {
        match j::text(&e["a"]) {
            "call" => {
                let (lo, hi) = (j::num(&e["lo"]), j::num(&e["hi"]));
                let c = cache.clone();
                s.call(lo, hi, Box::pin(async move { c.fetch(lo..hi).await }));
            }
            "ans" => {
                answer(j::text(&e["f"]));
            }
            "cancel" => s.cancel(j::int(&e["i"])),
            _ => {}
        }
        // several calls may arrive before any of them gets to run
        if e.get("hold") != Some(&json!(1)) {
            s.settle();
        }
    }
    s.settle();
    for _ in 0..1000 {
        if !answer("ok") {
            break;
        }
        s.settle();
    }
    json!({"id": case["id"], "cf": cf, "data": j::blob(&data), "ev": s.finish()})
}
