//! Counting allocator: how much was allocated, and how much is still alive, for the process and per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Counting;

static COUNT: AtomicU64 = AtomicU64::new(0);
static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);

thread_local! {
    static MINE: Cell<u64> = const { Cell::new(0) };
    static MY_BYTES: Cell<u64> = const { Cell::new(0) };
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        COUNT.fetch_add(1, Relaxed);
        LIVE_BLOCKS.fetch_add(1, Relaxed);
        LIVE_BYTES.fetch_add(l.size() as i64, Relaxed);
        let _ = MINE.try_with(|m| m.set(m.get() + 1));
        let _ = MY_BYTES.try_with(|m| m.set(m.get() + l.size() as u64));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE_BLOCKS.fetch_sub(1, Relaxed);
        LIVE_BYTES.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
}

#[global_allocator]
static A: Counting = Counting;

/// allocations of this thread so far
pub fn allocations() -> u64 {
    MINE.with(|m| m.get())
}

/// bytes allocated by this thread so far
pub fn allocated_bytes() -> u64 {
    MY_BYTES.with(|m| m.get())
}

/// blocks and bytes alive in the process
pub fn live() -> (i64, i64) {
    (LIVE_BLOCKS.load(Relaxed), LIVE_BYTES.load(Relaxed))
}
