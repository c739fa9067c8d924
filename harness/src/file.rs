//! `TokioReader` around a file whose every operation is under the control of a schedule, and
//! around a real file.

use std::collections::VecDeque;
use std::io::SeekFrom;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

use async_tiff::reader::{AsyncFileReader, TokioReader};
use serde_json::{json, Value};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};

use crate::j;
use crate::sched::{event, Sched, Shared};

#[derive(Debug, Default)]
struct State {
    /// Operations do not wait to be told; these are the sizes of reads, in turn.
    free: Option<Vec<usize>>,
    turn: usize,
    grants: VecDeque<String>,
    waker: Option<Waker>,
    /// Kind of the operation that is waiting: seek or read.
    open: Option<&'static str>,
    pos: u64,
    target: Option<u64>,
    /// Length of the data the waiting read asked for.
    asked: usize,
    /// The call it was made for.
    by: usize,
}

#[derive(Debug)]
struct File {
    /// What the file holds from `base` on; before that are bytes nobody asks for.
    data: Arc<Vec<u8>>,
    base: u64,
    st: Arc<Mutex<State>>,
    log: Shared,
}

impl File {
    /// What to do with the operation, if it may proceed.
    fn granted(&self, what: &'static str, cx: &mut Context<'_>) -> Poll<String> {
        let mut s = self.st.lock().unwrap();
        if s.free.is_some() {
            // every other operation is not ready at once
            s.turn += 1;
            let f = s.free.clone().unwrap();
            let k = f[s.turn % f.len()];
            if k == 0 && s.open.is_none() {
                s.open = Some(what);
                s.by = self.log.lock().unwrap().who;
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            s.open = None;
            return Poll::Ready(format!("max {}", k.max(1)));
        }
        match s.grants.pop_front() {
            Some(g) => {
                s.open = None;
                Poll::Ready(g)
            }
            None => {
                s.open = Some(what);
                s.by = self.log.lock().unwrap().who;
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }

    fn fault(&self) -> std::io::Error {
        let by = self.log.lock().unwrap().who;
        event(&self.log, "fault", by, 0, 0, "none", 0, &[]);
        let s = self.st.lock().unwrap();
        crate::fail::io(s.pos + s.asked as u64)
    }
}

impl AsyncRead for File {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut ReadBuf<'_>,
    ) -> Poll<std::io::Result<()>> {
        if buf.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        self.st.lock().unwrap().asked = buf.remaining();
        let grant = match self.granted("read", cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(g) => g,
        };
        if grant == "fail" {
            return Poll::Ready(Err(self.fault()));
        }
        let mut s = self.st.lock().unwrap();
        let before = s.pos < self.base;
        let at = (s.pos.saturating_sub(self.base) as usize).min(self.data.len());
        let mut n = buf.remaining().min(if before { 9 } else { self.data.len() - at });
        if grant == "short" {
            n = n.min(1);
        }
        if let Some(k) = grant.strip_prefix("max ") {
            n = n.min(k.parse().unwrap());
        }
        if before {
            buf.put_slice(&vec![0xee; n]);
        } else {
            buf.put_slice(&self.data[at..at + n]);
        }
        s.pos += n as u64;
        Poll::Ready(Ok(()))
    }
}

impl AsyncSeek for File {
    fn start_seek(self: Pin<&mut Self>, to: SeekFrom) -> std::io::Result<()> {
        let mut s = self.st.lock().unwrap();
        if s.target.is_some() {
            return Err(std::io::Error::other("seek in progress"));
        }
        s.target = Some(match to {
            SeekFrom::Start(n) => n,
            SeekFrom::Current(d) => s.pos.wrapping_add_signed(d),
            SeekFrom::End(d) => (self.base + self.data.len() as u64).wrapping_add_signed(d),
        });
        Ok(())
    }

    fn poll_complete(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<u64>> {
        if self.st.lock().unwrap().target.is_none() {
            return Poll::Ready(Ok(self.st.lock().unwrap().pos));
        }
        let grant = match self.granted("seek", cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(g) => g,
        };
        let mut s = self.st.lock().unwrap();
        let to = s.target.take().unwrap();
        if grant == "fail" {
            drop(s);
            return Poll::Ready(Err(self.fault()));
        }
        s.pos = to;
        Poll::Ready(Ok(to))
    }
}

fn pattern(n: usize) -> Vec<u8> {
    (0..n).map(|i| ((i * 7 + i / 251 * 3 + 3) % 251) as u8).collect()
}

pub fn run(case: &Value) -> Value {
    if case.get("real").is_some() {
        return real(case);
    }
    crate::alloc::set_cap(1 << 26);
    let data = pattern(j::int(&case["n"]));
    let log: Shared = Default::default();
    let st = Arc::new(Mutex::new(State::default()));
    if let Some(f) = case.get("free") {
        st.lock().unwrap().free = Some(j::arr(f).iter().map(j::int).collect());
    }
    let base = case.get("base").map_or(0, j::num);
    let file = File { data: Arc::new(data.clone()), base, st: st.clone(), log: log.clone() };
    let reader = Arc::new(TokioReader::new(file));
    let mut s = Sched::new(log, case["last"] == 1);
    let grant = |f: &str| {
        let mut g = st.lock().unwrap();
        if g.open.is_none() || g.free.is_some() {
            return false;
        }
        g.grants.push_back(f.to_string());
        let w = g.waker.take();
        drop(g);
        if let Some(w) = w {
            w.wake();
        }
        true
    };
    for e in j::arr(&case["sched"]) {
        match j::text(&e["a"]) {
            "call" => {
                let (lo, hi) = (j::num(&e["lo"]), j::num(&e["hi"]));
                let r = reader.clone();
                s.call(lo, hi, Box::pin(async move { r.get_bytes(base + lo..base + hi).await }));
            }
            "op" => {
                grant(j::text(&e["f"]));
            }
            "cancel" => {
                let i = j::int(&e["i"]);
                let waiting = s.waiting(i);
                s.cancel(i);
                // an abandoned operation may have had its effect all the same
                let mut g = st.lock().unwrap();
                if waiting && g.by == i && e["f"] == "drift" {
                    match g.open {
                        Some("read") => g.pos += g.asked.min(3) as u64,
                        Some("seek") => {
                            if let Some(t) = g.target.take() {
                                g.pos = t
                            }
                        }
                        _ => {}
                    }
                }
                if waiting && g.by == i {
                    g.open = None;
                }
            }
            _ => {}
        }
        if e.get("hold") != Some(&json!(1)) {
            s.settle();
        }
    }
    s.settle();
    for _ in 0..100_000 {
        if !grant("ok") {
            break;
        }
        s.settle();
    }
    json!({"id": case["id"], "data": j::blob(&data), "ev": s.finish()})
}

/// Many tasks on a real file, some of them aborted; the operating system decides the schedule.
fn real(case: &Value) -> Value {
    let data = pattern(j::int(&case["n"]));
    let path = std::env::current_dir()
        .unwrap()
        .join(format!("real-{}-{}.bin", std::process::id(), case["id"]));
    std::fs::write(&path, &data).unwrap();
    let log: Shared = Default::default();
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(4)
        .build()
        .unwrap();
    let p = path.clone();
    let l = log.clone();
    rt.block_on(async move {
        let reader = Arc::new(TokioReader::new(tokio::fs::File::open(p).await.unwrap()));
        let mut tasks = vec![];
        for (k, e) in j::arr(&case["sched"]).iter().enumerate() {
            let (lo, hi) = (j::num(&e["lo"]), j::num(&e["hi"]));
            event(&l, "call", k + 1, lo, hi, "none", 0, &[]);
            let r = reader.clone();
            tasks.push((k + 1, e["f"] == "cancel", tokio::spawn(async move { r.get_bytes(lo..hi).await })));
        }
        for (_, cancel, t) in &tasks {
            if *cancel {
                tokio::task::yield_now().await;
                t.abort();
            }
        }
        for (i, _, t) in tasks {
            match t.await {
                Ok(Ok(b)) => event(&l, "ret", i, 0, 0, "ok", 0, &b),
                Ok(Err(_)) => event(&l, "ret", i, 0, 0, "err", 0, &[]),
                Err(e) if e.is_cancelled() => event(&l, "cancel", i, 0, 0, "none", 0, &[]),
                Err(_) => event(&l, "ret", i, 0, 0, "panic", 0, &[]),
            }
        }
    });
    drop(rt);
    std::fs::remove_file(&path).ok();
    let ev = std::mem::take(&mut log.lock().unwrap().ev);
    json!({"id": case["id"], "data": j::blob(&data), "ev": ev})
}
