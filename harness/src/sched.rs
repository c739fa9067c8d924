//! Runs several calls at once under a given schedule. A call is polled only when it was woken, so
//! that a lost wake-up shows as a call that never returns.

use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

use async_tiff::error::AsyncTiffResult;
use bytes::Bytes;
use serde_json::{json, Value};

use crate::j;

/// Sizes from here on are not distinguished (TLC's integers have 32 bits).
pub const HUGE: u64 = 2_000_000_000;

/// What happened, in order, and the call being polled.
#[derive(Default, Debug)]
pub struct Log {
    pub ev: Vec<Value>,
    pub who: usize,
}

pub type Shared = Arc<Mutex<Log>>;

#[allow(clippy::too_many_arguments)]
pub fn event(log: &Shared, a: &str, i: usize, lo: u64, hi: u64, f: &str, k: u64, b: &[u8]) {
    let hi = if hi >= lo { lo + (hi - lo).min(HUGE) } else { hi };
    log.lock().unwrap().ev.push(json!({
        "a": a, "i": i, "lo": lo, "hi": hi, "f": f, "k": k, "b": j::blob(b),
    }));
}

struct Flag(AtomicBool);

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

pub type Fut = Pin<Box<dyn Future<Output = AsyncTiffResult<Bytes>>>>;

pub struct Sched {
    futs: Vec<Option<Fut>>,
    flags: Vec<Arc<Flag>>,
    pub log: Shared,
    /// Poll the call with the highest number first.
    pub last_first: bool,
}

impl Sched {
    pub fn new(log: Shared, last_first: bool) -> Self {
        Self { futs: vec![], flags: vec![], log, last_first }
    }

    /// Add call number i (from 1, in order).
    pub fn call(&mut self, lo: u64, hi: u64, f: Fut) {
        self.futs.push(Some(f));
        self.flags.push(Arc::new(Flag(true.into())));
        event(&self.log, "call", self.futs.len(), lo, hi, "none", 0, &[]);
    }

    pub fn waiting(&self, i: usize) -> bool {
        matches!(self.futs.get(i - 1), Some(Some(_)))
    }

    pub fn cancel(&mut self, i: usize) {
        if self.waiting(i) {
            event(&self.log, "cancel", i, 0, 0, "none", 0, &[]);
            self.log.lock().unwrap().who = i;
            self.futs[i - 1] = None;
        }
    }

    /// Poll woken calls until all wait for something else.
    pub fn settle(&mut self) {
        for _ in 0..100_000 {
            let n = self.futs.len();
            let ready = |k: &usize| self.futs[*k].is_some() && self.flags[*k].0.load(Ordering::SeqCst);
            let next = if self.last_first { (0..n).rev().find(ready) } else { (0..n).find(ready) };
            let Some(k) = next else { return };
            self.flags[k].0.store(false, Ordering::SeqCst);
            self.log.lock().unwrap().who = k + 1;
            let waker = Waker::from(self.flags[k].clone());
            let mut cx = Context::from_waker(&waker);
            let fut = self.futs[k].as_mut().unwrap();
            let (f, b) = match j::guard(|| fut.as_mut().poll(&mut cx)) {
                Some(Poll::Pending) => continue,
                Some(Poll::Ready(Ok(b))) => ("ok", b),
                Some(Poll::Ready(Err(_))) => ("err", Bytes::new()),
                None => ("panic", Bytes::new()),
            };
            event(&self.log, "ret", k + 1, 0, 0, f, 0, &b);
            self.futs[k] = None;
        }
    }

    pub fn finish(self) -> Vec<Value> {
        event(&self.log, "end", 0, 0, 0, "none", 0, &[]);
        let ev = std::mem::take(&mut self.log.lock().unwrap().ev);
        ev
    }
}
