//! The preemption hook inside the code under test. `rustc-cov.sh` compiles the library (and the crates
//! that instantiate its generics) with a call of `__sanitizer_cov_trace_pc` in every basic block; this
//! crate, which is not compiled that way, receives those calls and passes them on to the scheduler
//! while the calling thread runs library code.
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

thread_local! {
    static IN_LIBRARY: Cell<bool> = const { Cell::new(false) };
}
static HANDLER: AtomicUsize = AtomicUsize::new(0);

/// Whether this thread runs library code under the simulator.
pub fn in_library() -> bool {
    IN_LIBRARY.with(Cell::get)
}
pub fn set_in_library(on: bool) -> bool {
    IN_LIBRARY.with(|h| h.replace(on))
}
pub fn set_handler(f: Option<fn()>) {
    HANDLER.store(f.map_or(0, |f| f as usize), Relaxed);
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    if IN_LIBRARY.with(Cell::get) {
        let h = HANDLER.load(Relaxed);
        if h != 0 {
            IN_LIBRARY.with(|i| i.set(false));
            let f: fn() = unsafe { std::mem::transmute(h) };
            f();
            IN_LIBRARY.with(|i| i.set(true));
        }
    }
}
