//! Per-thread context of the running request: what the callbacks from the library into simulated
//! user code do (count, yield to the scheduler, crash, or re-enter the library).
use schemars::SchemaGenerator;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    /// `generator.subschema_for` of an unrelated type, result dropped
    Sub { kind: u8, target: u8 },
    /// `generator.root_schema_for` on the generator in use, result dropped
    Root { kind: u8, target: u8 },
    /// clone the generator in use, consume the clone
    CloneIntoRoot { kind: u8, target: u8 },
    /// a second, brand-new generator
    Side { kind: u8, target: u8 },
    /// infer a schema from a value on the generator in use; the value fails half way
    Value { fail: bool },
    /// run the next request of another client (C06)
    Hosted,
}

#[derive(Default)]
pub struct Ctx {
    pub calls: u64,
    pub per_node: BTreeMap<usize, u64>,
    pub crash_at: Option<u64>,
    pub re: Option<(u64, Act)>,
    pub depth: u32,
    pub in_act: bool,
    pub cap: u64,
    pub acted: bool,
    pub crashed: bool,
    pub max_depth: u32,
    pub act_calls: u64,
}

thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx { cap: u64::MAX, ..Ctx::default() });
    #[allow(clippy::type_complexity)]
    static HOSTED: RefCell<Option<Box<dyn FnMut()>>> = RefCell::new(None);
}

pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    let h = crate::seams::set_alloc_hook(false);
    let r = CTX.with(|c| f(&mut c.borrow_mut()));
    crate::seams::set_alloc_hook(h);
    r
}

pub fn set_hosted(f: Option<Box<dyn FnMut()>>) {
    HOSTED.with(|h| *h.borrow_mut() = f);
}

/// Payload of an injected crash, so that it can be told from a panic of the library's own.
pub struct InjectedCrash;
/// Payload used when a request makes far more callbacks than any terminating run could.
pub struct Runaway;

pub fn enter(node: usize, g: &mut SchemaGenerator) {
    let hook = crate::seams::set_alloc_hook(false);
    enum Do {
        Nothing,
        Crash,
        Runaway,
        Act(Act),
    }
    let what = with(|c| {
        c.calls += 1;
        c.depth += 1;
        c.max_depth = c.max_depth.max(c.depth);
        if c.in_act {
            c.act_calls += 1;
        } else {
            *c.per_node.entry(node).or_default() += 1;
        }
        if c.calls > c.cap {
            return Do::Runaway;
        }
        if c.crash_at == Some(c.calls) {
            c.crashed = true;
            return Do::Crash;
        }
        match &c.re {
            // A map whose key type is still being generated cannot describe its keys yet; no real key
            // type needs further schemas of the same generator.
            Some((at, Act::Sub { .. } | Act::Root { .. })) if *at == c.calls && crate::world::world().node(node).is_key() => Do::Nothing,
            Some((at, act)) if *at == c.calls && !c.in_act => {
                let act = act.clone();
                c.in_act = true;
                c.acted = true;
                Do::Act(act)
            }
            _ => Do::Nothing,
        }
    });
    crate::sched::callback_point();
    match what {
        Do::Nothing => {}
        Do::Crash => std::panic::resume_unwind(Box::new(InjectedCrash)),
        Do::Runaway => std::panic::resume_unwind(Box::new(Runaway)),
        Do::Act(a) => {
            crate::seams::set_alloc_hook(hook);
            act(&a, g);
            with(|c| c.in_act = false);
        }
    }
    crate::seams::set_alloc_hook(hook);
}

pub fn between(_node: usize) {
    crate::sched::callback_point();
}

pub fn leave(_node: usize) {
    with(|c| c.depth -= 1);
    crate::sched::callback_point();
}

fn act(a: &Act, g: &mut SchemaGenerator) {
    match a {
        Act::Sub { kind, target } => {
            let _ = (crate::world::ty(*kind, *target).sub)(g);
        }
        Act::Root { kind, target } => {
            let _ = (crate::world::ty(*kind, *target).root)(g);
        }
        Act::CloneIntoRoot { kind, target } => {
            let _ = (crate::world::ty(*kind, *target).into_root)(g.clone());
        }
        Act::Side { kind, target } => {
            let mut side = SchemaGenerator::default();
            let _ = (crate::world::ty(*kind, *target).root)(&mut side);
            let _ = (crate::world::ty(*kind, *target).into_root)(side);
        }
        Act::Value { fail } => {
            let v = crate::value::sample_value();
            let saved = crate::value::set_fault(fail.then_some(crate::value::Fault {
                at: 3,
                first_attempt: 0,
                attempts: u32::MAX,
                token: "nested".into(),
                panic: false,
            }));
            let _ = g.root_schema_for_value(&v);
            crate::value::restore_fault(saved);
        }
        Act::Hosted => {
            let f = HOSTED.with(|h| h.borrow_mut().take());
            if let Some(mut f) = f {
                let saved = with(std::mem::take);
                with(|c| c.cap = saved.cap);
                f();
                with(|c| *c = saved);
                HOSTED.with(|h| *h.borrow_mut() = Some(f));
            }
        }
    }
}
