//! Allocator which makes stale pointers visible: freed memory is overwritten,
//! and growing a buffer always moves it. It also stops a thread which keeps
//! allocating without bound, which the watchdog then reports.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

pub struct Poison;

pub const BYTE: u8 = 0xDB;
/// Live bytes a single worker may hold
const LIMIT: isize = 3 << 30;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

/// The most bytes this thread held at once during `f`, beyond those it held before
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let from = LIVE.with(Cell::get);
    PEAK.with(|p| p.set(from));
    let r = f();
    (r, (PEAK.with(Cell::get) - from).max(0) as usize)
}

fn count(n: isize) {
    let live = LIVE.with(|l| {
        l.set(l.get() + n);
        l.get()
    });
    if n > 0 { PEAK.with(|p| p.set(p.get().max(live))) }
    if live > LIMIT {
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1))
        }
    }
}

unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as isize));
        std::ptr::write_bytes(p, BYTE, l.size());
        System.dealloc(p, l)
    }
    // realloc: the default allocates, copies, and frees
}
