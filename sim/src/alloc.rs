//! Counts the heap bytes this process holds.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

pub struct Counting;

static LIVE: AtomicI64 = AtomicI64::new(0);

fn size(l: &Layout) -> i64 {
    match (l.size(), l.align()) {
        // Garbage bags and participants of crossbeam-epoch, which rayon's queues free late.
        (2072, 8) | (2304, 128) => 0,
        (n, _) => n as i64,
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            LIVE.fetch_add(size(&l), Relaxed);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            LIVE.fetch_add(size(&l), Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(size(&l), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            LIVE.fetch_add(size(&Layout::from_size_align_unchecked(n, l.align())) - size(&l), Relaxed);
        }
        q
    }
}

/// Heap bytes held by everything but the simulator.
pub fn held() -> i64 {
    LIVE.load(Relaxed) - simrt::own_bytes() as i64
}

/// The same, when the garbage whose freeing rayon's queues put off is freed
/// first (to be called while no other thread runs).
pub fn settled() -> i64 {
    for _ in 0..3 {
        rayon::broadcast(|_| crossbeam_epoch::pin().flush());
        simrt::wait_idle();
        for _ in 0..30 {
            crossbeam_epoch::pin().flush();
        }
    }
    held()
}
