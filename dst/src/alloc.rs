//! Counting allocator: memory is a budgeted resource of the simulation.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

/// A simulated process may not hold more than this; beyond it the worker exits with [`MEMORY_EXIT`].
const HARD_LIMIT: isize = 1 << 30;
pub const MEMORY_EXIT: i32 = 77;

extern "C" {
    fn _exit(code: i32) -> !;
}

fn add(n: isize) {
    let _ = LIVE.try_with(|live| {
        let now = live.get() + n;
        live.set(now);
        let _ = PEAK.try_with(|peak| {
            if now > peak.get() {
                peak.set(now);
            }
        });
        if now > HARD_LIMIT {
            unsafe { _exit(MEMORY_EXIT) }
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        add(layout.size() as isize);
        hook::allocated(layout.size());
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        add(-(layout.size() as isize));
        System.dealloc(ptr, layout)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        add(new_size as isize - layout.size() as isize);
        hook::allocated(new_size);
        System.realloc(ptr, layout, new_size)
    }
}

/// Peak additional bytes held by this thread while `f` ran.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let start = LIVE.with(Cell::get);
    PEAK.with(|p| p.set(start));
    let out = f();
    let peak = PEAK.with(Cell::get);
    (out, (peak - start).max(0) as usize)
}

/// Bytes this thread holds.
pub fn live() -> isize {
    LIVE.with(Cell::get)
}
