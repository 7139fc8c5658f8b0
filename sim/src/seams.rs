//! Seams to the process environment: allocator, hash seeds, clock, futex waits.
//!
//! * `getrandom` is what std seeds its hash maps from; the definition here wins over libc's, so the
//!   simulator decides the seed of every randomly seeded hasher.
//! * `clock_gettime` likewise: code in a run reads the simulated clock.
//! * the global allocator serves a run from an arena at an address the simulator chose (so that
//!   addresses are a function of the seed), and every allocation made by a simulated thread while
//!   library code runs is a preemption point.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

// ---------------------------------------------------------------- hash seeds
pub static HASH_SEED: AtomicU64 = AtomicU64::new(0);
pub static HASH_SEED_READS: AtomicU64 = AtomicU64::new(0);

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let n = HASH_SEED_READS.fetch_add(1, Relaxed);
    let base = HASH_SEED.load(Relaxed);
    let mut x = crate::rng::mix(base ^ crate::rng::mix(n));
    for i in 0..len {
        if i % 8 == 0 {
            x = crate::rng::mix(x);
        }
        *buf.add(i) = (x >> ((i % 8) * 8)) as u8;
    }
    len as isize
}

// ---------------------------------------------------------------- clock
pub static SIM_CLOCK: AtomicBool = AtomicBool::new(false);
pub static SIM_CLOCK_NS: AtomicU64 = AtomicU64::new(0);
pub static SIM_CLOCK_STEP: AtomicU64 = AtomicU64::new(1000);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if SIM_CLOCK.load(Relaxed) {
        CLOCK_READS.fetch_add(1, Relaxed);
        let step = SIM_CLOCK_STEP.load(Relaxed);
        let now = SIM_CLOCK_NS.fetch_add(step, Relaxed);
        (*ts).tv_sec = (now / 1_000_000_000) as libc::time_t;
        (*ts).tv_nsec = (now % 1_000_000_000) as libc::c_long;
        0
    } else {
        libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
    }
}

/// Real time, for the harness's own limits only.
pub fn real_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts as *mut _) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

// ---------------------------------------------------------------- futex
/// Waits until `a != expected` or the timeout passes (relative; not affected by the clock seam).
pub fn futex_wait(a: &AtomicU32, expected: u32, timeout_ms: u64) {
    let ts = libc::timespec {
        tv_sec: (timeout_ms / 1000) as libc::time_t,
        tv_nsec: ((timeout_ms % 1000) * 1_000_000) as libc::c_long,
    };
    unsafe {
        libc::syscall(
            libc::SYS_futex,
            a as *const AtomicU32,
            libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG,
            expected,
            &ts as *const _,
        );
    }
}
pub fn futex_wake_all(a: &AtomicU32) {
    unsafe {
        libc::syscall(
            libc::SYS_futex,
            a as *const AtomicU32,
            libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG,
            i32::MAX,
        );
    }
}

// ---------------------------------------------------------------- allocator
/// While on, this thread runs library code: allocations and basic blocks are preemption points.
pub fn set_alloc_hook(on: bool) -> bool {
    simcov::set_in_library(on)
}

static ARENA_BASE: AtomicUsize = AtomicUsize::new(0);
static ARENA_LEN: AtomicUsize = AtomicUsize::new(0);
static ARENA_NEXT: AtomicUsize = AtomicUsize::new(0);
static ARENA_PAD: AtomicU64 = AtomicU64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);

/// From now on this process allocates from a fresh arena whose base address and padding are a
/// function of `seed`. Never freed: a run is one short-lived process.
pub fn use_arena(seed: u64) {
    const LEN: usize = 1 << 30;
    let base = 0x1000_0000_0000usize + ((seed as usize) & 0xFFF) * 0x1_0000_0000;
    let p = unsafe {
        libc::mmap(
            base as *mut _,
            LEN,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        )
    };
    if p as usize == base {
        ARENA_NEXT.store(base + (((seed >> 12) as usize) & 0xFFF) * 16, SeqCst);
        ALLOCS.store(0, SeqCst);
        ARENA_PAD.store(crate::rng::mix(seed) | 1, SeqCst);
        ARENA_LEN.store(LEN, SeqCst);
        ARENA_BASE.store(base, SeqCst);
    }
}

pub struct SimAlloc;

unsafe fn arena_alloc(layout: Layout) -> *mut u8 {
    // a little padding, different from seed to seed, so that relative addresses vary as well
    let pad = ARENA_PAD.load(Relaxed);
    let pad = if pad == 1 { 0 } else { 16 * ((pad >> (ALLOCS.load(Relaxed) % 61)) & 3) as usize };
    let size = layout.size() + layout.align() + pad;
    let start = ARENA_NEXT.fetch_add((size + 15) & !15, Relaxed);
    if start + size > ARENA_BASE.load(Relaxed) + ARENA_LEN.load(Relaxed) {
        return std::ptr::null_mut();
    }
    ((start + pad + layout.align() - 1) & !(layout.align() - 1)) as *mut u8
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if simcov::in_library() {
            simcov::set_in_library(false);
            crate::sched::alloc_point();
            simcov::set_in_library(true);
        }
        ALLOCS.fetch_add(1, Relaxed);
        if ARENA_BASE.load(Relaxed) != 0 {
            arena_alloc(layout)
        } else {
            System.alloc(layout)
        }
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        let base = ARENA_BASE.load(Relaxed);
        if base != 0 && (ptr as usize).wrapping_sub(base) < ARENA_LEN.load(Relaxed) {
            return;
        }
        System.dealloc(ptr, layout)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        if ARENA_BASE.load(Relaxed) == 0 && !simcov::in_library() {
            return System.realloc(ptr, layout, new_size);
        }
        let new = self.alloc(Layout::from_size_align_unchecked(new_size, layout.align()));
        if !new.is_null() {
            std::ptr::copy_nonoverlapping(ptr, new, layout.size().min(new_size));
            self.dealloc(ptr, layout);
        }
        new
    }
}

#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;
