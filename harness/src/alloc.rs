//! Counts what the current thread allocates.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

struct Counting;

#[global_allocator]
static ALLOCATOR: Counting = Counting;

thread_local! {
    static NOW: Cell<Count> = const { Cell::new(Count { live: 0, peak: 0, total: 0, calls: 0 }) };
}

/// In bytes, except for `calls`.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Count {
    /// Allocated and not yet freed, relative to the start.
    pub live: i64,
    /// The maximum of `live`.
    pub peak: i64,
    /// Ever allocated.
    pub total: i64,
    pub calls: i64,
}

fn change(free: usize, new: usize) {
    let _ = NOW.try_with(|c| {
        let mut n = c.get();
        n.live += new as i64 - free as i64;
        n.peak = n.peak.max(n.live);
        n.total += new as i64;
        n.calls += 1;
        c.set(n);
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        change(0, l.size());
        System.alloc(l)
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        change(l.size(), 0);
        System.dealloc(p, l)
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        change(0, l.size());
        System.alloc_zeroed(l)
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        change(l.size(), new);
        System.realloc(p, l, new)
    }
}

/// Says what `f` allocates. What it returns must not own any memory.
pub fn count<T: Copy>(f: impl FnOnce() -> T) -> (T, Count) {
    NOW.with(|c| {
        c.set(Count {
            live: 0,
            peak: 0,
            total: 0,
            calls: 0,
        })
    });
    let r = f();
    (r, NOW.with(|c| c.get()))
}
