//! Heap use of the calling thread, counted by the global allocator.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn note(bytes: i64, call: u64) {
    // a thread that is going away has no counters
    let _ = CALLS.try_with(|c| c.set(c.get() + call));
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + bytes);
        let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        note(layout.size() as i64, 1);
        System.alloc(layout)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        note(layout.size() as i64, 1);
        System.alloc_zeroed(layout)
    }
    unsafe fn dealloc(&self, pointer: *mut u8, layout: Layout) {
        note(-(layout.size() as i64), 0);
        System.dealloc(pointer, layout)
    }
    unsafe fn realloc(&self, pointer: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        // old and new block may exist at the same time
        note(size as i64, 1);
        note(-(layout.size() as i64), 0);
        System.realloc(pointer, layout, size)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Use {
    /// allocations and reallocations
    pub calls: u64,
    /// bytes that are still allocated, less those released that were allocated before
    pub kept: i64,
    /// most bytes that were allocated at a time
    pub peak: i64,
}

/// Heap use of `f` on this thread
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Use) {
    let (calls, live) = (CALLS.get(), LIVE.get());
    PEAK.set(live);
    let value = f();
    let used = Use { calls: CALLS.get() - calls, kept: LIVE.get() - live, peak: PEAK.get() - live };
    (value, used)
}
