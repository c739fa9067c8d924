//! An allocator that, while library code runs, refuses single allocations above a limit and
//! allocations that let the memory in use grow by more than sixteen times that limit, so that
//! allocating according to a size claimed in a file is seen even where the system would
//! overcommit.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicIsize, AtomicUsize, Ordering::Relaxed};

pub struct Capped;

static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
static CODEC: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicIsize = AtomicIsize::new(0);

/// Allow at most `cap` bytes per allocation inside `within`.
pub fn set_cap(cap: usize) {
    LIMIT.store(cap, Relaxed);
}

/// Run library code under the limit.
pub fn within<T>(f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            CAP.store(usize::MAX, Relaxed);
        }
    }
    let _reset = Reset;
    LIVE.store(0, Relaxed);
    CAP.store(LIMIT.load(Relaxed), Relaxed);
    f()
}

/// Run a decoder on corrupt data: sizes claimed inside the compressed data are between it and
/// them. Where it asks for more than the limit, the process ends with a status of its own and the
/// case is not judged.
pub fn codec<T>(f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            CODEC.store(false, Relaxed);
        }
    }
    let _reset = Reset;
    CODEC.store(true, Relaxed);
    f()
}

extern "C" {
    fn _exit(status: i32) -> !;
}

fn refused(size: usize) -> bool {
    let cap = CAP.load(Relaxed);
    if cap == usize::MAX {
        return false;
    }
    let live = LIVE.fetch_add(size as isize, Relaxed) + size as isize;
    let no = size > cap || live > (cap.saturating_mul(16)) as isize;
    if no && CODEC.load(Relaxed) {
        unsafe { _exit(77) }
    }
    no
}

fn freed(size: usize) {
    if CAP.load(Relaxed) != usize::MAX {
        LIVE.fetch_sub(size as isize, Relaxed);
    }
}

unsafe impl GlobalAlloc for Capped {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if refused(layout.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(layout)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if refused(layout.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        freed(layout.size());
        System.dealloc(ptr, layout)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        if refused(new_size) {
            return std::ptr::null_mut();
        }
        freed(layout.size());
        System.realloc(ptr, layout, new_size)
    }
}
