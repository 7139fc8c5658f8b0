//! The scheduler: simulated caller threads are real OS threads of which exactly one runs at a time.
//! Which one runs next is decided here, at every preemption point (callback into user code,
//! allocation or basic block inside the library, read/write call), from the plan's seed or from a
//! recorded list.
use crate::rng::Rng;
use crate::seams::*;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::sync::Mutex;

const NONE: u32 = u32::MAX;

#[derive(Clone)]
pub enum Decide {
    /// switch with probability 1/alloc_den at allocations, 1/cb_den at callbacks, and at basic blocks
    /// about every edge_gap of them (0: hardly ever)
    Random { seed: u64, alloc_den: u32, cb_den: u32, edge_gap: u32 },
    Recorded(Vec<(u64, u32)>),
}

struct State {
    active: bool,
    current: u32,
    finished: Vec<bool>,
    blocked: Vec<bool>,
    after: Vec<Option<usize>>,
    tids: Vec<i32>,
    rng: Rng,
    alloc_den: u32,
    cb_den: u32,
    edge_gap: u64,
    recorded: Option<BTreeMap<u64, u32>>,
    switches: Vec<(u64, u32)>,
    points: [u64; 2],
    edge_switches: u64,
}

/// Hardly ever is not never: code that spins until another thread moves on has to get there.
const RARELY: u64 = 200_000;

static STATE: Mutex<Option<State>> = Mutex::new(None);
static CURRENT: AtomicU32 = AtomicU32::new(NONE);
static DONE: AtomicU32 = AtomicU32::new(0);
/// Preemption points passed so far, and the first one at which a basic block has to stop and ask.
static STEP: AtomicU64 = AtomicU64::new(0);
static NEXT_EDGE: AtomicU64 = AtomicU64::new(u64::MAX);

thread_local! {
    static ME: Cell<u32> = const { Cell::new(NONE) };
}

pub struct Outcome {
    pub switches: Vec<(u64, u32)>,
    pub steps: u64,
    pub alloc_points: u64,
    pub callback_points: u64,
    pub block_points: u64,
    pub block_switches: u64,
    pub os_blocked: u64,
    pub hung: bool,
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Alloc = 0,
    Callback = 1,
    Edge = 2,
}

impl State {
    fn runnable(&self, t: usize) -> bool {
        !self.finished[t] && !self.blocked[t] && self.after[t].is_none_or(|d| self.finished[d])
    }
    fn others(&self, me: u32) -> Vec<u32> {
        (0..self.finished.len() as u32)
            .filter(|&t| t != me && self.runnable(t as usize))
            .collect()
    }
    fn hand_over(&mut self, t: u32) {
        self.switches.push((STEP.load(SeqCst), t));
        self.current = t;
        CURRENT.store(t, SeqCst);
        futex_wake_all(&CURRENT);
    }
    fn next_after(&mut self, me: u32, must: bool, kind: Kind) -> Option<u32> {
        let step = STEP.load(SeqCst);
        let t = self.decide(me, must, kind, step);
        if kind == Kind::Edge || t.is_some() {
            let next = match &self.recorded {
                Some(r) => r.range(step + 1..).next().map_or(u64::MAX, |(s, _)| *s).min(step + 5 * RARELY),
                None if self.edge_gap == 0 => step + RARELY,
                // fewer and fewer, so that a run stays short
                None => step + 1 + self.rng.below(((2 * self.edge_gap) << (self.edge_switches / 300).min(12)) as usize) as u64,
            };
            NEXT_EDGE.store(next, SeqCst);
        }
        t
    }
    fn decide(&mut self, me: u32, must: bool, kind: Kind, step: u64) -> Option<u32> {
        let others = self.others(me);
        if others.is_empty() {
            return None;
        }
        if let Some(r) = &self.recorded {
            return match r.get(&step) {
                Some(t) if others.contains(t) => Some(*t),
                _ if must || kind == Kind::Edge && self.switches.last().is_some_and(|l| step - l.0 >= 5 * RARELY) => Some(others[0]),
                _ => None,
            };
        }
        let den = match kind {
            Kind::Alloc => self.alloc_den,
            Kind::Callback => self.cb_den,
            Kind::Edge => 1,
        };
        if must || (den > 0 && self.rng.chance(1, den as usize)) {
            Some(*self.rng.pick(&others))
        } else {
            None
        }
    }
}

fn lock() -> std::sync::MutexGuard<'static, Option<State>> {
    STATE.lock().unwrap_or_else(std::sync::PoisonError::into_inner)
}

fn wait_for(me: u32) {
    loop {
        let c = CURRENT.load(SeqCst);
        if c == me {
            return;
        }
        futex_wait(&CURRENT, c, 500);
    }
}

pub fn alloc_point() {
    point(Kind::Alloc);
}

/// A basic block of the library.
fn block_point() {
    let me = ME.with(Cell::get);
    if me == NONE {
        return;
    }
    if CURRENT.load(Relaxed) == me {
        let step = STEP.load(Relaxed) + 1;
        if step < NEXT_EDGE.load(Relaxed) {
            STEP.store(step, Relaxed);
            return;
        }
    }
    point(Kind::Edge);
}

/// A preemption point outside the allocator (callbacks into user code, read and write calls).
pub fn callback_point() {
    let h = set_alloc_hook(false);
    point(Kind::Callback);
    set_alloc_hook(h);
}

fn point(kind: Kind) {
    let me = ME.with(Cell::get);
    if me == NONE {
        return;
    }
    let mut g = lock();
    let Some(s) = g.as_mut().filter(|s| s.active) else { return };
    s.blocked[me as usize] = false;
    if s.current == NONE {
        s.current = me;
        CURRENT.store(me, SeqCst);
    }
    if s.current != me {
        // We were found blocked in the OS and someone else got the baton since.
        drop(g);
        wait_for(me);
        g = lock();
    }
    let s = g.as_mut().unwrap();
    STEP.fetch_add(1, SeqCst);
    if kind != Kind::Edge {
        s.points[kind as usize] += 1;
    }
    if let Some(t) = s.next_after(me, false, kind) {
        s.edge_switches += u64::from(kind == Kind::Edge);
        s.hand_over(t);
        drop(g);
        wait_for(me);
    }
}

fn finish(me: u32) {
    let mut g = lock();
    let s = g.as_mut().unwrap();
    s.finished[me as usize] = true;
    if s.current == me {
        STEP.fetch_add(1, SeqCst);
        match s.next_after(me, true, Kind::Callback) {
            Some(t) => s.hand_over(t),
            None => {
                s.current = NONE;
                CURRENT.store(NONE, SeqCst);
            }
        }
    }
    drop(g);
    ME.with(|m| m.set(NONE));
    DONE.fetch_add(1, SeqCst);
    futex_wake_all(&DONE);
}

fn sleeping(tid: i32) -> bool {
    // no allocation here: the monitor must not disturb the addresses of a run
    let mut path = [0u8; 64];
    let mut n = 0;
    let mut digits = [0u8; 12];
    let mut d = 0;
    let mut t = tid.max(0);
    loop {
        digits[d] = b'0' + (t % 10) as u8;
        d += 1;
        t /= 10;
        if t == 0 {
            break;
        }
    }
    for part in [&b"/proc/self/task/"[..]] {
        path[n..n + part.len()].copy_from_slice(part);
        n += part.len();
    }
    for i in (0..d).rev() {
        path[n] = digits[i];
        n += 1;
    }
    path[n..n + 5].copy_from_slice(b"/stat");
    let mut buf = [0u8; 256];
    let len = unsafe {
        let fd = libc::open(path.as_ptr().cast(), libc::O_RDONLY | libc::O_CLOEXEC);
        if fd < 0 {
            return false;
        }
        let len = libc::read(fd, buf.as_mut_ptr().cast(), buf.len());
        libc::close(fd);
        len
    };
    if len <= 0 {
        return false;
    }
    let b = &buf[..len as usize];
    let Some(p) = b.iter().rposition(|c| *c == b')') else { return false };
    matches!(b.get(p + 2), Some(b'S' | b'D'))
}

/// Runs `bodies`, each on its own thread, one at a time. `after[i] = Some(j)`: i starts after j ended.
pub fn run(bodies: Vec<Box<dyn FnOnce() + Send>>, after: Vec<Option<usize>>, decide: Decide) -> Outcome {
    let n = bodies.len();
    let (rng, alloc_den, cb_den, edge_gap, recorded) = match decide {
        Decide::Random { seed, alloc_den, cb_den, edge_gap } => (Rng::new(seed), alloc_den, cb_den, u64::from(edge_gap), None),
        Decide::Recorded(l) => (Rng::new(0), 0, 0, 0, Some(l.into_iter().collect())),
    };
    STEP.store(0, SeqCst);
    NEXT_EDGE.store(0, SeqCst);
    DONE.store(0, SeqCst);
    CURRENT.store(NONE, SeqCst);
    *lock() = Some(State {
        active: true,
        current: NONE,
        finished: vec![false; n],
        blocked: vec![false; n],
        after,
        tids: vec![0; n],
        rng,
        alloc_den,
        cb_den,
        edge_gap,
        recorded,
        switches: Vec::with_capacity(16384),
        points: [0; 2],
        edge_switches: 0,
    });
    simcov::set_handler(Some(block_point));
    let ready = std::sync::Arc::new(AtomicU32::new(0));
    for (i, body) in bodies.into_iter().enumerate() {
        let ready2 = ready.clone();
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                lock().as_mut().unwrap().tids[i] = unsafe { libc::syscall(libc::SYS_gettid) } as i32;
                // touch std's per-thread hash key now, so that it does not depend on the schedule
                let _ = std::collections::hash_map::RandomState::new();
                let me = i as u32;
                ready2.fetch_add(1, SeqCst);
                futex_wake_all(&ready2);
                wait_for(me);
                ME.with(|m| m.set(me));
                body();
                set_alloc_hook(false);
                finish(me);
            })
            .expect("spawn");
        // one at a time: thread start-up order (and with it hash keys) is decided as well
        while ready.load(SeqCst) != i as u32 + 1 {
            let v = ready.load(SeqCst);
            if v != i as u32 + 1 {
                futex_wait(&ready, v, 100);
            }
        }
    }
    {
        let mut g = lock();
        let s = g.as_mut().unwrap();
        let first = s.next_after(NONE, true, Kind::Callback).expect("a runnable thread");
        s.hand_over(first);
    }
    let (mut last_step, mut idle, mut os_blocked) = (u64::MAX, 0u32, 0u64);
    let mut hung = false;
    loop {
        let d = DONE.load(SeqCst);
        if d as usize == n {
            break;
        }
        futex_wait(&DONE, d, 20);
        let mut g = lock();
        let s = g.as_mut().unwrap();
        if s.finished.iter().all(|f| *f) {
            continue;
        }
        let step = STEP.load(SeqCst);
        if step != last_step {
            last_step = step;
            idle = 0;
            continue;
        }
        let asleep = s.current == NONE || sleeping(s.tids[s.current as usize]);
        if !asleep {
            idle = 0;
            continue;
        }
        idle += 1;
        if idle >= 4 && s.current != NONE {
            let cur = s.current;
            s.blocked[cur as usize] = true;
            os_blocked += 1;
            idle = 0;
            match s.next_after(cur, true, Kind::Callback) {
                Some(t) => s.hand_over(t),
                None => {
                    s.current = NONE;
                    CURRENT.store(NONE, SeqCst);
                }
            }
        } else if s.current == NONE {
            // anything that became runnable meanwhile?
            if let Some(t) = s.next_after(NONE, true, Kind::Callback) {
                s.hand_over(t);
                idle = 0;
            } else if idle > 750 {
                hung = true;
                break;
            }
        }
    }
    let mut g = lock();
    let s = g.as_mut().unwrap();
    s.active = false;
    simcov::set_handler(None);
    let steps = STEP.load(SeqCst);
    Outcome {
        switches: std::mem::take(&mut s.switches),
        steps,
        alloc_points: s.points[0],
        callback_points: s.points[1],
        block_points: steps.saturating_sub(s.points[0] + s.points[1]),
        block_switches: s.edge_switches,
        os_blocked,
        hung,
    }
}
