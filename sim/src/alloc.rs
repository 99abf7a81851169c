//! The allocator, which notes the largest single request of each thread, and can make every request a scheduling
//! point.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

struct Noting;

#[global_allocator]
static ALLOC: Noting = Noting;

thread_local! {
    static PEAK: Cell<usize> = const { Cell::new(0) };
    static POINT: Cell<Option<fn()>> = const { Cell::new(None) };
}

fn note(n: usize) {
    let _ = PEAK.try_with(|p| p.set(p.get().max(n)));
    let _ = POINT.try_with(|p| {
        // whatever it allocates itself is none of its business
        if let Some(f) = p.take() {
            f();
            p.set(Some(f));
        }
    });
}

/// Something to do before every allocation of this thread.
pub fn set_point(f: Option<fn()>) {
    POINT.with(|p| p.set(f));
}

/// The largest single request since the last call.
pub fn take_peak() -> usize {
    PEAK.try_with(|p| p.replace(0)).unwrap_or(0)
}

unsafe impl GlobalAlloc for Noting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
