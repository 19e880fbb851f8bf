//! Preemption points inside library code.
//!
//! `build.sh fine` compiles the library and everything derived from it with LLVM's coverage
//! callbacks, which the compiler puts into every basic block and before every load and store. They
//! end up here, and the scheduler of the simulator takes over after as many of them as it drew from
//! the seed. This crate itself is compiled without them. In the ordinary build nothing calls these
//! functions.
//!
//! `build.sh work` compiles the standard library, the tokenizer, the library and everything derived
//! from it in the same way, and counts here what they do: basic blocks executed, bytes moved or
//! compared, bytes allocated.

#[cfg(work)]
mod mem;

use std::cell::Cell;

type Handler = fn(*const ());

thread_local! {
    /// Library code is running: it may be interrupted
    static ON: Cell<bool> = const { Cell::new(false) };
    /// Interrupt after this many basic blocks
    static BLOCKS: Cell<u64> = const { Cell::new(u64::MAX) };
    /// Interrupt before this many-th access to memory that all threads share
    static SHARED: Cell<u64> = const { Cell::new(u64::MAX) };
    static SEEN: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
    static HANDLER: Cell<Option<(Handler, *const ())>> = const { Cell::new(None) };
}

thread_local! {
    /// Library calls are to be metered
    static METER: Cell<bool> = const { Cell::new(false) };
    static MOVED: Cell<u64> = const { Cell::new(0) };
    static ALLOCATED: Cell<u64> = const { Cell::new(0) };
}

/// What library code did.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Work {
    pub blocks: u64,
    pub moved: u64,
    pub allocated: u64,
}

/// Meter the library calls made by `f`.
pub fn meter<T>(f: impl FnOnce() -> T) -> (T, Work) {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            METER.set(self.0);
        }
    }
    let now = || (SEEN.get().0, MOVED.get(), ALLOCATED.get());
    let before = now();
    let reset = Reset(METER.replace(true));
    let out = f();
    drop(reset);
    let after = now();
    let work = Work {
        blocks: after.0 - before.0,
        moved: after.1 - before.1,
        allocated: after.2 - before.2,
    };
    (out, work)
}

/// `f` is a call of the library.
#[inline(never)]
pub fn library<T>(f: impl FnOnce() -> T) -> T {
    match METER.get() {
        true => {
            let _on = Mode::set(true);
            f()
        }
        false => f(),
    }
}

/// Bytes were moved or compared.
#[inline]
pub fn moved(n: usize) {
    if ON.get() {
        MOVED.set(MOVED.get() + n as u64);
    }
}

/// Memory was allocated.
#[inline]
pub fn allocated(n: usize) {
    if ON.get() {
        ALLOCATED.set(ALLOCATED.get() + n as u64);
    }
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

/// Called when a preemption is due, on the interrupted thread.
pub fn set_handler(h: Option<(Handler, *const ())>) {
    HANDLER.set(h);
}

/// When the next preemption of this thread is due.
pub fn arm(blocks: u64, shared: u64) {
    BLOCKS.set(blocks);
    SHARED.set(shared);
}

/// Basic blocks and shared accesses seen on this thread.
pub fn seen() -> (u64, u64) {
    SEEN.get()
}

/// Allow or forbid preemption until dropped.
pub struct Mode(bool);
impl Mode {
    pub fn set(on: bool) -> Mode {
        Mode(ON.replace(on))
    }
}
impl Drop for Mode {
    fn drop(&mut self) {
        ON.set(self.0);
    }
}

#[cold]
fn due() {
    let Some((f, data)) = HANDLER.get() else {
        return;
    };
    let _off = Mode::set(false);
    arm(u64::MAX, u64::MAX);
    f(data);
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    if !ON.get() {
        return;
    }
    let (b, s) = SEEN.get();
    SEEN.set((b + 1, s));
    let left = BLOCKS.get().saturating_sub(1);
    BLOCKS.set(left);
    if left == 0 {
        due();
    }
}

fn access(addr: *const u8) {
    if !ON.get() {
        return;
    }
    if addr < &raw const __data_start || addr >= &raw const _end {
        return;
    }
    let (b, s) = SEEN.get();
    SEEN.set((b, s + 1));
    let left = SHARED.get().saturating_sub(1);
    SHARED.set(left);
    if left == 0 {
        due();
    }
}

macro_rules! accesses {
    ($($name:ident)*) => {
        $(#[no_mangle]
        pub extern "C" fn $name(addr: *const u8) {
            access(addr)
        })*
    };
}
accesses! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8
    __sanitizer_cov_load16 __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4
    __sanitizer_cov_store8 __sanitizer_cov_store16
}
