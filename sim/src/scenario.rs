//! From a property and a seed to a plan, and from a plan to a verdict.
use crate::ctx::{self, Act};
use crate::flaky;
use crate::{nest, zoo};
use crate::fresh::{pipe, Fresh};
use crate::history::*;
use crate::io::{self, IoPlan};
use crate::oracle::{bad, Bad};
use crate::plan::*;
use crate::rng::{hash_bytes, hash_str, mix, Rng};
use crate::sched;
use crate::seams;
use crate::value::{self, Fault};
use crate::world::*;
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::sync::atomic::Ordering::*;
use std::sync::{Arc, Mutex};

pub const PROPS: [&str; 12] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12"];

// ------------------------------------------------------------------ plans
fn blank(prop: &str, seed: u64, preserve_order: bool, r: &mut Rng) -> Plan {
    Plan {
        prop: prop.into(),
        seed,
        preserve_order,
        world: World { nodes: Vec::new() },
        settings: vec![SettingsSpec::plain()],
        clients: vec![],
        sched: Sched { seed: r.u64(), alloc_den: *r.pick(&[0, 5, 20, 60, 200]), cb_den: *r.pick(&[1, 2, 4, 10]), edge_gap: *r.pick(&[0, 0, 10, 30, 100, 300, 1000, 5000]), switches: None },
        env: gen_env(r),
        extra: Value::Null,
        expect: None,
    }
}

fn transforms(r: &mut Rng) -> Option<(bool, Vec<TSpec>)> {
    if r.chance(1, 6) {
        return None;
    }
    let mut used = Vec::new();
    let n = r.range(1, 4);
    for i in 0..n {
        used.push(if r.chance(2, 3) { TSpec::Stamp(i as u8) } else { TSpec::Rec(i as u8) });
    }
    Some((r.chance(1, 2), used))
}

/// Settings transforms that say nothing about what they did, but do more.
fn more_transforms(r: &mut Rng, s: &mut SettingsSpec, nest: bool) {
    let mut t = transforms(r).unwrap_or((true, vec![]));
    if r.chance(1, 2) {
        t.1.insert(r.below(t.1.len() + 1), TSpec::Formats);
    }
    if nest && r.chance(1, 2) {
        t.1.insert(r.below(t.1.len() + 1), TSpec::Nest);
    }
    while r.chance(2, 5) && t.1.len() < 7 {
        t.1.insert(r.below(t.1.len() + 1), TSpec::Std(r.below(36) as u8));
    }
    s.transforms = Some(t);
}

/// Formats everywhere, and settings that differ in which of them they keep.
fn formats_theme(r: &mut Rng, p: &mut Plan) {
    for s in &mut p.settings {
        s.meta = r.chance(1, 2);
        s.dialect = r.below(4) as u8;
        let mut t = vec![TSpec::Formats];
        if r.chance(1, 3) {
            t.push(TSpec::Std(r.below(36) as u8));
        }
        s.transforms = Some((r.chance(1, 2), t));
    }
    for n in p.world.nodes.iter_mut().filter(|n| n.body == Body::Object && n.alias_of.is_none()) {
        if r.chance(2, 3) {
            n.deco |= 1 << DECOS;
        }
    }
    for i in 0..N {
        if let Some(b) = p.world.nodes[i].alias_of {
            p.world.nodes[i].deco = p.world.nodes[usize::from(b)].deco;
        }
    }
}

fn steps_of(v: &value::V) -> u64 {
    value::set_fault(None);
    let _ = serde_json::to_value(value::Owned(v.clone()));
    value::fault_state().max_step
}

fn add_value_faults(r: &mut Rng, ops: &mut Vec<Op>, p: usize) {
    let mut i = 0;
    while i < ops.len() {
        if let What::Value { v } | What::IntoValue { v } = &ops[i].what {
            if r.chance(p, 4) {
                let n = steps_of(v).max(1);
                let (first_attempt, attempts) = match r.below(5) {
                    0 => (1, u32::MAX),
                    1 => (0, 1),
                    _ => (0, u32::MAX),
                };
                // early, anywhere, at the very end
                let at = match r.below(4) {
                    0 => 1,
                    1 => n,
                    _ => r.range(1, n as usize) as u64,
                };
                let v = v.clone();
                let retry = matches!(ops[i].what, What::Value { .. }) && r.chance(1, 2);
                ops[i].fault = Some(Fault { at, first_attempt, attempts, token: format!("injected-{}", r.below(1000)), panic: false });
                if retry {
                    let slot = ops[i].slot;
                    ops.insert(i + 1, Op { slot, what: What::Value { v }, thread: false, crash_at: None, re: None, fault: None });
                    i += 1;
                }
            }
        }
        i += 1;
    }
}

/// How many of the histories are over real types.
const ZOO_ONE_IN: usize = 8;

/// Some of the requests become requests for types of the zoo.
fn real_types(r: &mut Rng, h: &mut [Op]) {
    let favs: Vec<u16> = (0..r.range(1, 4)).map(|_| r.below(zoo::count()) as u16).collect();
    for op in h {
        if matches!(op.what, What::Sub { .. } | What::Root { .. } | What::Observe) && op.re.is_none() && op.crash_at.is_none() && r.chance(1, 3) {
            op.what = What::Real { t: *r.pick(&favs), root: r.chance(1, 2) };
        }
    }
}

pub fn gen_plan(prop: &str, seed: u64, preserve_order: bool) -> Plan {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut p = blank(prop, seed, preserve_order, r);
    let mut o = HistOpts::default();
    if matches!(prop, "C01" | "C02" | "C03" | "C04") && r.chance(1, ZOO_ONE_IN) {
        p.settings = (0..2).map(|_| zoo::gen_settings(r)).collect();
        p.extra = json!({"zoo": zoo::gen(r, 2)});
        return p;
    }
    if prop == "C11" && r.chance(1, 16) {
        let inline = r.chance(1, 3);
        p.settings = vec![SettingsSpec { inline, ..zoo::gen_settings(r) }];
        p.extra = json!({"nest": nest::gen(r)});
        return p;
    }
    match prop {
        "C01" | "C02" | "C04" => {
            if prop == "C02" {
                o.clear = true;
                o.max_ops = 18;
            }
            if prop == "C04" {
                o.inline = r.chance(1, 3);
                o.put = r.chance(1, 2);
                o.root_path = !o.put;
            }
        }
        "C03" => {
            o.put = r.chance(1, 4);
            o.root_path = false;
            o.values = r.chance(1, 2);
        }
        "C05" => {
            o.crash = false;
            o.max_ops = 12;
            o.slots = 2;
        }
        "C10" => {
            o.inline = false;
            o.crash = r.chance(1, 3);
            o.slots = 2;
        }
        "C11" => {
            o.inline = r.chance(1, 2);
            o.pure_ref = r.chance(1, 2);
        }
        "C06" => {
            o.max_ops = 6;
            o.slots = 2;
            o.inline = r.chance(1, 3);
        }
        "C07" => {
            o.max_ops = 8;
            o.slots = 2;
        }
        "C08" => {}
        "C09" => {
            p.extra = serde_json::to_value(io::gen_read(r)).expect("plan");
            return p;
        }
        "C12" => {
            p.settings = (0..2)
                .map(|_| SettingsSpec { dialect: r.range(1, 2) as u8, serialize: r.chance(1, 3), inline: false, meta: r.chance(1, 2), ..SettingsSpec::plain() })
                .collect();
            p.extra = serde_json::to_value(flaky::gen(r, 2)).expect("plan");
            return p;
        }
        _ => panic!("unknown property {prop}"),
    }
    let (w, s) = gen_base(r, &o);
    p.world = w;
    p.settings = s;
    match prop {
        "C05" => {
            for s in &mut p.settings {
                if r.chance(1, 2) {
                    s.transforms = transforms(r);
                }
            }
            let mut h = gen_history(r, &p.world, &p.settings, &o);
            // more values than elsewhere
            for op in &mut h {
                if matches!(op.what, What::Root { .. } | What::Observe | What::Take { .. }) && r.chance(2, 5) && op.re.is_none() {
                    op.what = What::Value { v: value::gen(r, 4) };
                }
            }
            if r.chance(1, 4) {
                real_types(r, &mut h);
            }
            add_value_faults(r, &mut h, 3);
            p.clients = vec![h];
        }
        "C10" => {
            for s in &mut p.settings {
                s.transforms = transforms(r);
                if s.path.as_deref() == Some("/$defs/nested") || s.segments().is_empty() {
                    s.path = None;
                }
            }
            let mut h = gen_history(r, &p.world, &p.settings, &o);
            for op in &mut h {
                if matches!(op.re, Some((_, Act::Root { .. } | Act::Value { .. }))) {
                    op.re = None;
                }
                if matches!(op.what, What::Observe) && r.chance(2, 3) {
                    op.what = What::TransMut;
                }
            }
            add_value_faults(r, &mut h, 2);
            p.clients = vec![h];
        }
        "C06" => {
            for s in &mut p.settings {
                if r.chance(1, 3) {
                    more_transforms(r, s, true);
                }
            }
            if r.chance(1, 8) {
                formats_theme(r, &mut p);
            }
            let n = r.range(2, 4);
            let mut base: Vec<Vec<Op>> = Vec::new();
            let real = r.chance(1, 3);
            for i in 0..n {
                // often the same requests under another client's different settings
                let mut h = if i > 0 && r.chance(1, 2) { base[r.below(i)].clone() } else { gen_history(r, &p.world, &p.settings, &o) };
                if real && r.chance(1, 2) {
                    real_types(r, &mut h);
                }
                if i > 0 && r.chance(1, 2) {
                    for op in &mut h {
                        if let What::New { settings } = &mut op.what {
                            *settings = r.below(p.settings.len());
                        }
                    }
                }
                add_value_faults(r, &mut h, 1);
                base.push(h);
            }
            // one client may run inside another's callbacks, on the same thread
            let guest = r.chance(1, 3);
            if guest {
                for op in &mut base[0] {
                    if matches!(op.what, What::Sub { .. } | What::Root { .. } | What::IntoRoot { .. }) && r.chance(2, 3) {
                        op.re = Some((r.range(1, 4) as u64, Act::Hosted));
                    }
                }
            }
            let segs: Vec<usize> = (0..n).map(|_| r.range(1, 3)).collect();
            p.clients = base;
            p.extra = json!({"guest": guest, "segments": segs});
        }
        "C08" => {
            let io = io::gen_write(r, &mut p);
            p.extra = serde_json::to_value(io).expect("plan");
        }
        "C07" => {
            for s in &mut p.settings {
                if r.chance(1, 3) {
                    more_transforms(r, s, false);
                }
            }
            let mut h = gen_history(r, &p.world, &p.settings, &o);
            if r.chance(1, 4) {
                real_types(r, &mut h);
            }
            for op in &mut h {
                op.thread = false;
            }
            p.clients = vec![h];
            let envs: Vec<Env> = (0..3)
                .map(|i| Env { all_threads: i == 1, warm_threads: r.below(4) as u8, ..gen_env(r) })
                .collect();
            p.extra = json!({ "envs": envs });
            if r.chance(1, ZOO_ONE_IN) {
                p.settings = (0..2).map(|_| zoo::gen_settings(r)).collect();
                p.clients = Vec::new();
                p.extra["zoo"] = serde_json::to_value(zoo::gen(r, 2)).expect("plan");
            }
        }
        _ => {
            if prop == "C03" && r.chance(1, 6) {
                for s in &mut p.settings {
                    s.transforms = Some((true, vec![TSpec::Formats]));
                }
            }
            let h = gen_history(r, &p.world, &p.settings, &o);
            p.clients = vec![h];
        }
    }
    p
}

// ------------------------------------------------------------------ running, in a process of its own
pub fn note_schedule(out: &mut RunOut, o: sched::Outcome) -> Result<(), Bad> {
    add(&mut out.stats, "schedule switches", o.switches.len() as u64);
    add(&mut out.stats, "preemption points at allocations", o.alloc_points);
    add(&mut out.stats, "preemption points at callbacks", o.callback_points);
    add(&mut out.stats, "preemption points at basic blocks", o.block_points);
    add(&mut out.stats, "switches inside library code, at basic blocks", o.block_switches);
    add(&mut out.stats, "threads found blocked on another", o.os_blocked);
    out.steps += o.steps;
    out.switches = o.switches;
    if o.hung {
        return bad("hang", "all simulated threads are blocked for good");
    }
    Ok(())
}

fn concurrent(plan: &Plan, out: &mut RunOut) -> Result<(), Bad> {
    let guest = plan.extra["guest"].as_bool().unwrap_or(false) && plan.clients.len() > 1;
    let n = plan.clients.len();
    let segs: Vec<usize> = (0..n).map(|i| plan.extra["segments"][i].as_u64().unwrap_or(1).clamp(1, 8) as usize).collect();
    let plan: Arc<Plan> = Arc::new(plan.clone());
    let states: Arc<Vec<Mutex<Option<Client>>>> = Arc::new((0..n).map(|i| Mutex::new(Some(Client::new(plan.clone(), i)))).collect());
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    let mut after = Vec::new();
    let last = n - 1;
    let past = plan.env.past;
    if (past / 16) % 2 == 0 {
        crate::past::traffic(past);
    }
    let hosts = if guest { n - 1 } else { n };
    for i in 0..hosts {
        let total = plan.clients[i].len();
        let k = segs[i].min(total.max(1));
        let mut prev = None;
        for s in 0..k {
            let (from, to) = (total * s / k, total * (s + 1) / k);
            let states = states.clone();
            after.push(prev);
            prev = Some(bodies.len());
            bodies.push(Box::new(move || {
                if i == 0 && s == 0 && (past / 16) % 2 == 1 {
                    crate::past::traffic(past);
                }
                let hosting = guest && i == 0;
                if hosting {
                    let st = states.clone();
                    ctx::set_hosted(Some(Box::new(move || {
                        let c = st[last].lock().unwrap_or_else(std::sync::PoisonError::into_inner).take();
                        if let Some(mut c) = c {
                            c.next_op();
                            *st[last].lock().unwrap_or_else(std::sync::PoisonError::into_inner) = Some(c);
                        }
                    })));
                }
                let c = states[i].lock().unwrap_or_else(std::sync::PoisonError::into_inner).take();
                if let Some(mut c) = c {
                    while c.next < to.max(from) {
                        sched::callback_point();
                        c.next_op();
                    }
                    *states[i].lock().unwrap_or_else(std::sync::PoisonError::into_inner) = Some(c);
                }
                if hosting {
                    ctx::set_hosted(None);
                    if s + 1 == k {
                        let c = states[last].lock().unwrap_or_else(std::sync::PoisonError::into_inner).take();
                        if let Some(mut c) = c {
                            while c.next < c.len() {
                                c.next_op();
                            }
                            *states[last].lock().unwrap_or_else(std::sync::PoisonError::into_inner) = Some(c);
                        }
                    }
                }
            }));
        }
    }
    let migrations = bodies.len() - hosts;
    add(&mut out.stats, "fault thread-migration", migrations as u64);
    if past > 0 {
        bump(&mut out.stats, "fault crashing and failing requests earlier in the process");
    }
    if guest {
        bump(&mut out.stats, "fault client nested in a callback");
    }
    let o = sched::run(bodies, after, io::decide(&plan.sched));
    let switched = o.switches.len() > hosts;
    note_schedule(out, o)?;
    for (i, s) in states.iter().enumerate() {
        let Some(c) = s.lock().unwrap_or_else(std::sync::PoisonError::into_inner).take() else {
            return bad("hang", format!("client {i} never finished"));
        };
        for (k, v) in &c.stats {
            add(&mut out.stats, k, *v);
        }
        out.outs.push(c.outs);
    }
    out.nontrivial = switched && out.outs.iter().filter(|o| o.len() > 1).count() > 1;
    Ok(())
}

/// One client's generators and what its requests returned.
struct Client {
    plan: Arc<Plan>,
    i: usize,
    next: usize,
    slots: std::collections::BTreeMap<u8, schemars::SchemaGenerator>,
    outs: Vec<String>,
    stats: Stats,
}
impl Client {
    fn new(plan: Arc<Plan>, i: usize) -> Client {
        Client { plan, i, next: 0, slots: Default::default(), outs: Vec::new(), stats: Stats::new() }
    }
    fn len(&self) -> usize {
        self.plan.clients[self.i].len()
    }
    fn next_op(&mut self) {
        let plan = self.plan.clone();
        let Some(op) = plan.clients[self.i].get(self.next) else { return };
        self.next += 1;
        bump(&mut self.stats, &format!("op {}", op_name(&op.what)));
        match &op.what {
            What::New { settings } => {
                let h = seams::set_alloc_hook(true);
                let g = plan.settings[*settings].build().into_generator();
                seams::set_alloc_hook(h);
                self.slots.insert(op.slot, g);
            }
            What::Clone { to } => {
                if let Some(g) = self.slots.get(&op.slot) {
                    let h = seams::set_alloc_hook(true);
                    let c = g.clone();
                    seams::set_alloc_hook(h);
                    self.slots.insert(*to, c);
                }
            }
            _ => {
                let Some(g) = self.slots.remove(&op.slot) else {
                    self.outs.push("no generator".into());
                    return;
                };
                let ran = perform(g, op, COST_CAP * 20 + 1000);
                if ran.ctx.crashed {
                    bump(&mut self.stats, "fault crash-in-callback");
                }
                if !ran.fault.fired.is_empty() {
                    bump(&mut self.stats, "fault serialize-error");
                }
                add(&mut self.stats, "callbacks", ran.ctx.calls);
                self.outs.push(ran.out.text());
                if let Some(g) = ran.gen {
                    self.outs.push(format!("held {}", map_text(g.definitions())));
                    self.slots.insert(op.slot, g);
                }
            }
        }
    }
}

fn execute(plan: &Plan, role: &str, fresh: Option<Fresh>) -> RunOut {
    let mut out = RunOut::default();
    let r = match plan.prop.as_str() {
        "C06" => {
            if let Some(i) = role.strip_prefix("solo") {
                let i: usize = i.parse().unwrap_or(0);
                let mut c = Client::new(Arc::new(plan.clone()), i);
                while c.next < c.len() {
                    c.next_op();
                }
                out.outs.push(c.outs);
                Ok(())
            } else {
                concurrent(plan, &mut out)
            }
        }
        "C08" | "C09" => match serde_json::from_value::<IoPlan>(plan.extra.clone()) {
            Ok(IoPlan::Write { doc, sinks }) => io::run_write(plan, &doc, &sinks, &mut out),
            Ok(IoPlan::Read { docs, source, flips, cut }) => io::run_read(plan, &docs, &source, &flips, cut, &mut out),
            Err(e) => bad("harness", e.to_string()),
        },
        "C12" => match serde_json::from_value::<Vec<flaky::Op12>>(plan.extra.clone()) {
            Ok(ops) => flaky::run(&plan.settings, &ops, &mut out),
            Err(e) => bad("harness", e.to_string()),
        },
        p => 'run: {
            if let Ok(ops) = serde_json::from_value::<Vec<zoo::OpZ>>(plan.extra["zoo"].clone()) {
                break 'run zoo::run(&plan.settings, &ops, plan.env.all_threads, &mut out);
            }
            if let Ok(n) = serde_json::from_value::<nest::Nest>(plan.extra["nest"].clone()) {
                break 'run nest::run(&plan.settings[0], &n, &mut out);
            }
            let which = if p == "C07" { Which { panics: true, ..Which::none() } } else { Which::of(p) };
            let mut runner = Runner::new(plan, which, fresh);
            if let Some(ops) = plan.clients.first() {
                runner.run(ops);
            }
            out = runner.out;
            match out.bad.take() {
                Some(b) => Err(b),
                None => Ok(()),
            }
        }
    };
    if let Err(b) = r {
        out.bad = Some(b);
    }
    out.trace = text_hash(&out.outs);
    out
}

fn set_env(e: &Env) {
    seams::HASH_SEED.store(e.hash_seed, SeqCst);
    seams::HASH_SEED_READS.store(0, SeqCst);
    seams::SIM_CLOCK_NS.store(e.clock0, SeqCst);
    seams::SIM_CLOCK_STEP.store(e.clock_step, SeqCst);
    seams::CLOCK_READS.store(0, SeqCst);
    seams::SIM_CLOCK.store(true, SeqCst);
}

pub fn to_json(o: &RunOut, plan: &Plan) -> Value {
    json!({
        "bad": o.bad, "stats": o.stats, "trace": o.trace, "steps": o.steps, "nontrivial": o.nontrivial,
        "switches": o.switches,
        // compared by the parent only where it has something to compare with
        "outs": if matches!(plan.prop.as_str(), "C06" | "C07") { json!(o.outs) } else { Value::Null },
        "env": {"hash_seed_reads": seams::HASH_SEED_READS.load(SeqCst), "clock_reads": seams::CLOCK_READS.load(SeqCst)},
    })
}
fn from_json(v: &Value) -> RunOut {
    RunOut {
        bad: serde_json::from_value(v["bad"].clone()).unwrap_or(None),
        outs: serde_json::from_value(v["outs"].clone()).unwrap_or_default(),
        stats: serde_json::from_value(v["stats"].clone()).unwrap_or_default(),
        trace: v["trace"].as_u64().unwrap_or(0),
        steps: v["steps"].as_u64().unwrap_or(0),
        nontrivial: v["nontrivial"].as_bool().unwrap_or(false),
        switches: serde_json::from_value(v["switches"].clone()).unwrap_or_default(),
    }
}

const REAL_LIMIT_MS: i32 = 60_000;

/// Runs `plan` in a new process and waits for what it says about it.
fn in_child(plan: &Plan, role: &str, env: &Env) -> RunOut {
    let (rd, wr) = pipe();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        drop(rd);
        unsafe {
            libc::setpgid(0, 0);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let cpu = libc::rlimit { rlim_cur: 30, rlim_max: 31 };
            libc::setrlimit(libc::RLIMIT_CPU, &cpu);
            let mem = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &mem);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
        }
        std::panic::set_hook(Box::new(|_| {}));
        set_env(env);
        let (plan, role, env) = (Plan { env: env.clone(), ..plan.clone() }, role.to_owned(), env.clone());
        let fresh = (plan.prop == "C03").then(|| {
            if !plan.world.nodes.is_empty() {
                set_world(plan.world.clone());
            }
            Fresh::start()
        });
        seams::use_arena(env.arena_seed);
        // on a thread of its own: the main thread's hash keys were drawn before the fork
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                for _ in 0..env.warm_threads {
                    let _ = std::thread::spawn(|| {
                        let _ = std::collections::hash_map::RandomState::new();
                    })
                    .join();
                }
                if !plan.world.nodes.is_empty() {
                    set_world(plan.world.clone());
                }
                // (in C06 one of the clients' threads has a past instead, and nobody does when alone)
                if plan.prop != "C06" {
                    crate::past::traffic(env.past);
                }
                let o = execute(&plan, &role, fresh);
                serde_json::to_vec(&to_json(&o, &plan)).unwrap_or_default()
            })
            .expect("spawn");
        let bytes = h.join().unwrap_or_else(|p| {
            let e: Value = json!({"bad": ["harness", format!("the harness panicked: {}", panic_text(&*p))]});
            serde_json::to_vec(&e).unwrap_or_default()
        });
        let mut w = std::fs::File::from(wr);
        let _ = w.write_all(&bytes);
        drop(w);
        unsafe { libc::_exit(0) };
    }
    drop(wr);
    unsafe { libc::setpgid(pid, pid) };
    let mut f = std::fs::File::from(rd);
    let mut bytes = Vec::new();
    let t0 = seams::real_ns();
    let mut timed_out = false;
    loop {
        let mut p = libc::pollfd { fd: f.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        let left = REAL_LIMIT_MS - ((seams::real_ns() - t0) / 1_000_000) as i32;
        let r = unsafe { libc::poll(&mut p, 1, left.max(0)) };
        if r < 0 {
            continue;
        }
        if r == 0 {
            timed_out = true;
            break;
        }
        let mut buf = [0u8; 65536];
        match f.read(&mut buf) {
            Ok(0) => break,
            Ok(n) => bytes.extend_from_slice(&buf[..n]),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(_) => break,
        }
    }
    let mut st = 0;
    unsafe {
        if timed_out {
            libc::kill(-pid, libc::SIGKILL);
            libc::kill(pid, libc::SIGKILL);
        }
        libc::waitpid(pid, &mut st, 0);
        libc::kill(-pid, libc::SIGKILL);
    }
    if timed_out {
        return RunOut { bad: Some(("hang".into(), format!("no result after {} s", REAL_LIMIT_MS / 1000))), ..RunOut::default() };
    }
    match serde_json::from_slice::<Value>(&bytes) {
        Ok(v) if st == 0 => from_json(&v),
        _ => {
            let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
            let what = match sig {
                libc::SIGSEGV => "stack overflow or invalid access",
                libc::SIGABRT => "abort (stack overflow or out of memory)",
                libc::SIGXCPU | libc::SIGKILL => "no result within 30 s of processor time, or out of memory",
                _ => "died",
            };
            RunOut { bad: Some(("died".into(), format!("the process running the request died: {what} (status {st:#x})"))), ..RunOut::default() }
        }
    }
}

fn first_difference(a: &[String], b: &[String]) -> Option<(usize, String)> {
    for i in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(i), b.get(i));
        if x != y {
            let cut = |s: Option<&String>| {
                s.map_or("nothing".to_owned(), |s| {
                    let mut n = s.len().min(500);
                    while !s.is_char_boundary(n) {
                        n -= 1;
                    }
                    s[..n].to_owned()
                })
            };
            return Some((i, format!("{} instead of {}", cut(x), cut(y))));
        }
    }
    None
}

/// What this plan shows.
pub fn judge(plan: &Plan) -> RunOut {
    let mut out = in_child(plan, "main", &plan.env);
    if plan.env.past > 0 && plan.prop != "C06" {
        bump(&mut out.stats, "fault crashing and failing requests earlier in the process");
    }
    if out.bad.is_some() {
        return out;
    }
    match plan.prop.as_str() {
        "C06" => {
            let mut seen: Vec<(Vec<Op>, Vec<String>)> = Vec::new();
            for (i, c) in plan.clients.iter().enumerate() {
                let known = seen.iter().find(|s| &s.0 == c).map(|s| s.1.clone());
                let solo = match known {
                    Some(s) => s,
                    None => {
                        let s = in_child(plan, &format!("solo{i}"), &plan.env);
                        if let Some((class, d)) = s.bad {
                            out.bad = Some((class, format!("client {i} on its own: {d}")));
                            return out;
                        }
                        let s = s.outs.into_iter().next().unwrap_or_default();
                        seen.push((c.clone(), s.clone()));
                        s
                    }
                };
                let got = out.outs.get(i).cloned().unwrap_or_default();
                if let Some((k, d)) = first_difference(&got, &solo) {
                    out.bad = Some(("interference".into(), format!("client {i}, result {k}, with others around: {d} when alone")));
                    return out;
                }
                add(&mut out.stats, "results compared with a solo run", got.len() as u64);
            }
        }
        "C07" => {
            let envs: Vec<Env> = serde_json::from_value(plan.extra["envs"].clone()).unwrap_or_default();
            let mut n = 0;
            for (k, e) in envs.iter().enumerate() {
                let v = in_child(plan, "variant", e);
                if v.bad.is_some() {
                    return v;
                }
                for (a, b) in v.outs.iter().zip(&out.outs) {
                    n += a.len();
                    if let Some((i, d)) = first_difference(a, b) {
                        out.bad = Some(("irreproducible".into(), format!("result {i} under environment {k}: {d}")));
                        return out;
                    }
                }
                bump(&mut out.stats, "fault other hash seed, memory layout and clock");
                if e.all_threads {
                    bump(&mut out.stats, "fault every request on a new thread");
                }
            }
            add(&mut out.stats, "results compared across environments", n as u64);
            out.nontrivial = n >= 6;
        }
        _ => {}
    }
    out
}

/// Identity of an execution: everything that happened in it.
pub fn fingerprint(plan: &Plan, o: &RunOut) -> u64 {
    let mut h = o.trace;
    for (a, b) in &o.switches {
        h = mix(h ^ a ^ u64::from(*b) << 48);
    }
    h = mix(h ^ o.steps);
    for (k, v) in &o.stats {
        h = mix(h ^ hash_str(k) ^ v);
    }
    h = mix(h ^ hash_str(o.bad.as_ref().map_or("", |b| &b.1)));
    mix(h ^ hash_bytes(plan.prop.as_bytes()))
}

/// What the evidence says about a check: how runs are made, what is real, what is not, assumptions.
pub fn describe(prop: &str) -> (String, Vec<&'static str>, Vec<&'static str>, Vec<&'static str>) {
    let base = "Each run: one seed decides a world of up to 8 user types (names, ids, bodies, edges through std containers and derived holders), settings, a history of requests on up to 3 generators (subschema, root, consuming root, value inference, drain, clear, clone), and the faults (crash inside the n-th callback, re-entry into the library inside the n-th callback, migration of a generator to a new thread), in its own process with simulated hash seeds, heap addresses and clock. ";
    let rule = match prop {
        "C01" => format!("{base}Non-trivial: at least two type requests preceded a checked document that has definitions."),
        "C02" => format!("{base}Non-trivial: at least two type requests preceded a document with definitions whose names were checked."),
        "C03" => format!("{base}Non-trivial: a document made after at least two type requests, with at least one reference, was compared with one made by a brand-new generator in a process that had never used the library."),
        "C04" => format!("{base}Non-trivial: at least two type requests preceded a check of a document or of the held definitions."),
        "C05" => format!("{base}Values are trees over the whole serde data model whose Serialize fails at a chosen step of a chosen attempt. Non-trivial: an injected serialization error fired, and the history went on against a twin generator that never saw the failed request."),
        "C06" => "Each run: 2 to 4 clients with their own generators and request histories run on OS threads of which the simulator lets one run at a time, switching at callbacks and, inside the library, at allocations and basic blocks; clients move between threads between requests, crash inside callbacks, or run nested inside another client's callback. Afterwards each history runs alone in a new process and all results must be byte-identical. Non-trivial: at least one preemption happened and at least two clients returned more than one result.".to_owned(),
        "C07" => format!("{base}The same history runs in four processes that differ only in hash seeds, heap addresses, clock and threads; all results must be byte-identical. Non-trivial: at least six results were compared."),
        "C08" => "Each run: a schema (generated from a random type world, or a random JSON object over schema keywords) is written by 1 to 3 concurrent writers through serde_json to a sink with short writes, interruptions, transient and lasting errors, or a full sink, or through a binary-like format of our own that verifies announced lengths and fails at its n-th call; then once more without faults. Non-trivial: a fault fired and the schema has more than one keyword.".to_owned(),
        "C09" => "Each run: 1 to 4 JSON documents are read as schemas from a stream with short reads, interruptions, errors, truncation, early end of file and flipped bits, or through a format of our own with lying size hints and failing calls; the reference is what serde_json's Value reads from the same faulty stream. Non-trivial: a fault fired.".to_owned(),
        "C10" => format!("{base}Settings carry tracing transforms (root-level and recursive). Non-trivial: a document with transform traces was checked after at least two type requests, in a generator with at least one root-level transform."),
        "C11" => format!("{base}Callbacks are counted per type. Non-trivial: build counts were checked after at least two type requests."),
        "C12" => "Each run: a history over 14 derived types whose default and example values fail to serialize (at a chosen step of a chosen attempt) or crash, on up to two generators with clones and drains; each result is compared with that of a twin that met no fault. Non-trivial: an injected error fired and cost a keyword.".to_owned(),
        _ => String::new(),
    };
    let real = vec![
        "schemars and schemars_derive as in /repo's working tree (default features; preserve_order in every fourth run)",
        "serde, serde_json, dyn-clone, ref-cast",
        "OS threads (one running at a time), process isolation through fork",
    ];
    let mut stub = vec![
        "user types, values and transforms (simulated)",
        "hash seeds (getrandom), clock (clock_gettime), heap addresses (global allocator): decided by the seed",
    ];
    if matches!(prop, "C06" | "C08") {
        stub.push("thread scheduling: decided by the simulator at basic blocks of the library, allocations, callbacks and I/O calls");
    }
    if matches!(prop, "C08" | "C09") {
        stub.push("sinks, sources and one wire format (simulated)");
    }
    let mut assumptions = vec!["sampling: a clean batch is evidence, not proof", "user types are well-behaved: distinct types have distinct ids, recursive types refer to themselves through references"];
    if matches!(prop, "C06" | "C08") {
        assumptions.push("preemption happens at basic blocks of the library, allocations, callbacks and I/O calls; memory-model reorderings are not simulated");
    }
    (rule, real, stub, assumptions)
}
