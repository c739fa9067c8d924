//! Mock data sources.

use std::future::Future;
use std::ops::Range;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

use async_tiff::error::{AsyncTiffError, AsyncTiffResult};
use async_tiff::reader::AsyncFileReader;
use async_trait::async_trait;
use bytes::Bytes;
use serde_json::Value;

use crate::j;

/// What a source does with one request.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// Return an error.
    Fail,
    /// Return only the first n bytes.
    Short(u64),
    /// Never answer; the operation is cancelled.
    Hang,
}

#[derive(Debug)]
pub struct Inner {
    pub len: u64,
    ext: Vec<(u64, Vec<u8>)>,
    /// A range reaching past the end is an error (else: the available prefix).
    pub strict: bool,
    /// Requests left until the source gives up on the client.
    pub fuel: usize,
    pub log: Vec<Range<u64>>,
    pub faults: Vec<(usize, Fault)>,
    /// Requests since `faults` was set.
    pub seen: usize,
    /// The fault that happened since `faults` was set.
    pub hit: &'static str,
}

/// A file given by its extents; bytes outside of them are 0.
#[derive(Clone, Debug)]
pub struct Sparse(pub Arc<Mutex<Inner>>);

impl Sparse {
    pub fn new(len: u64, ext: Vec<(u64, Vec<u8>)>, strict: bool) -> Self {
        Self(Arc::new(Mutex::new(Inner {
            len,
            ext,
            strict,
            fuel: 50_000,
            log: vec![],
            faults: vec![],
            seen: 0,
            hit: "none",
        })))
    }

    pub fn from_json(file: &Value, strict: bool) -> Self {
        let ext = j::arr(&file["x"])
            .iter()
            .map(|e| (j::num(&e["at"]), j::bytes(&e["b"])))
            .collect();
        Self::new(j::num(&file["len"]), ext, strict)
    }

    pub fn set_faults(&self, faults: Vec<(usize, Fault)>) {
        let mut s = self.0.lock().unwrap();
        s.faults = faults;
        s.seen = 0;
        s.hit = "none";
    }

    pub fn hit(&self) -> &'static str {
        self.0.lock().unwrap().hit
    }

    /// Requests since `set_faults`.
    pub fn requests(&self) -> usize {
        self.0.lock().unwrap().seen
    }

    pub fn hanging(&self) -> bool {
        self.hit() == "hang"
    }

    /// The whole file.
    pub fn all(&self) -> Vec<u8> {
        let s = self.0.lock().unwrap();
        let mut out = vec![0; s.len as usize];
        for (at, b) in &s.ext {
            let at = *at as usize;
            let n = b.len().min(out.len().saturating_sub(at));
            out[at..at + n].copy_from_slice(&b[..n]);
        }
        out
    }

    /// The bytes of the file at `at`.
    pub fn peek(&self, at: u64, n: u64) -> Option<Vec<u8>> {
        let s = self.0.lock().unwrap();
        if at.checked_add(n)? > s.len {
            return None;
        }
        let byte = |p: u64| {
            let mut b = 0;
            for (a, x) in &s.ext {
                if *a <= p && p - a < x.len() as u64 {
                    b = x[(p - a) as usize];
                }
            }
            b
        };
        Some((at..at + n).map(byte).collect())
    }

    pub fn exhausted(&self) -> bool {
        self.0.lock().unwrap().fuel == 0
    }

    pub fn log(&self) -> Vec<Range<u64>> {
        self.0.lock().unwrap().log.clone()
    }

    fn answer(&self, range: Range<u64>) -> (AsyncTiffResult<Bytes>, bool) {
        let mut s = self.0.lock().unwrap();
        s.log.push(range.clone());
        let n = s.seen;
        s.seen += 1;
        if s.fuel == 0 {
            return (Err(AsyncTiffError::General("out of fuel".into())), false);
        }
        s.fuel -= 1;
        let fault = s.faults.iter().find(|(k, _)| *k == n).map(|(_, f)| *f);
        match fault {
            Some(Fault::Fail) => {
                s.hit = "fail";
                return (
                    Err(crate::fail::any(range.start.wrapping_add(n as u64))),
                    false,
                )
            }
            Some(Fault::Hang) => {
                s.hit = "hang";
                return (Err(AsyncTiffError::General("cancelled".into())), true)
            }
            _ => {}
        }
        let mut end = range.end.min(s.len);
        if s.strict && range.end > s.len {
            return (
                Err(AsyncTiffError::EndOfFile(
                    range.end.saturating_sub(range.start),
                    s.len.saturating_sub(range.start),
                )),
                false,
            );
        }
        if let Some(Fault::Short(k)) = fault {
            if end > range.start.saturating_add(k) {
                end = range.start.saturating_add(k);
                s.hit = "short";
            }
        }
        let start = range.start.min(end);
        let n = end - start;
        if n > 1 << 26 {
            return (
                Err(AsyncTiffError::General("request too large".into())),
                false,
            );
        }
        let mut out = vec![0; n as usize];
        for (at, b) in &s.ext {
            let lo = (*at).max(start);
            let hi = (at + b.len() as u64).min(end);
            if lo < hi {
                out[(lo - start) as usize..(hi - start) as usize]
                    .copy_from_slice(&b[(lo - at) as usize..(hi - at) as usize]);
            }
        }
        (Ok(out.into()), false)
    }
}

#[async_trait]
impl AsyncFileReader for Sparse {
    async fn get_bytes(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
        let (answer, hang) = self.answer(range);
        if hang {
            std::future::pending::<()>().await;
        }
        answer
    }
}

struct Flag(std::sync::atomic::AtomicBool);

impl std::task::Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, std::sync::atomic::Ordering::SeqCst);
    }
}

/// Poll a future as long as it asks for it; None if it is waiting for something that won't happen
/// (`Fault::Hang`).
pub fn drive<F: Future>(fut: F) -> Option<F::Output> {
    let mut fut: Pin<Box<F>> = Box::pin(fut);
    let flag = Arc::new(Flag(true.into()));
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    while flag.0.swap(false, std::sync::atomic::Ordering::SeqCst) {
        if let Poll::Ready(r) = fut.as_mut().poll(&mut cx) {
            return Some(r);
        }
    }
    None
}
