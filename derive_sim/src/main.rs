//! Deterministic simulation of a compiler (or proc-macro server) that expands
//! `#[derive(JsonSchema)]`: many expansions, some failing, in one process, on several threads,
//! under simulated schedules, hash seeds, heap addresses and clocks. Property C13; see /verif/DESIGN.md.
mod items;
#[path = "../../sim/src/rng.rs"]
mod rng;
#[path = "../../sim/src/sched.rs"]
mod sched;
#[path = "../../sim/src/seams.rs"]
mod seams;

use items::Item;
use rng::{hash_str, mix, Rng};
use seams::real_ns;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};

const PROP: &str = "C13";

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Env {
    hash_seed: u64,
    arena_seed: u64,
    clock_ns: u64,
    clock_step: u64,
    warm_threads: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
    prop: String,
    items: Vec<Item>,
    /// per thread: which items are expanded, in order
    threads: Vec<Vec<usize>>,
    env: Env,
    sched_seed: u64,
    /// a preemption at one in so many allocations inside the macro (0: never)
    alloc_den: u32,
    #[serde(default)]
    edge_gap: u32,
    recorded: Option<Vec<(u64, u32)>>,
}

const BASE: Env = Env { hash_seed: 7, arena_seed: 0, clock_ns: 1_700_000_000_000_000_000, clock_step: 1000, warm_threads: 0 };

fn gen_plan(seed: u64) -> Plan {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let n = r.range(1, 6);
    let mut items: Vec<Item> = (0..n).map(|_| items::item(r)).collect();
    // the same item with a part missing, so that whatever is remembered by name shows
    for i in 0..n {
        if r.chance(1, 3) {
            let mut c = items[i].clone();
            match r.below(4) {
                0 if !c.attrs.is_empty() => drop(c.attrs.remove(r.below(c.attrs.len()))),
                1 if !c.members.is_empty() => drop(c.members.remove(r.below(c.members.len()))),
                2 if !c.members.is_empty() => {
                    let m = r.below(c.members.len());
                    c.members[m].attrs.clear();
                }
                _ => c.name = "Renamed".into(),
            }
            items.push(c);
        }
    }
    let k = *r.pick(&[1, 1, 2, 2, 3, 4]);
    let threads = (0..k).map(|_| (0..r.range(1, 8)).map(|_| r.below(items.len())).collect()).collect();
    Plan {
        prop: PROP.into(),
        items,
        threads,
        env: Env {
            hash_seed: r.u64(),
            arena_seed: r.u64(),
            clock_ns: r.u64() >> 2,
            clock_step: *r.pick(&[0, 1, 1000, 1_000_000_000, 3_600_000_000_000]),
            warm_threads: r.below(4) as u32,
        },
        sched_seed: r.u64(),
        alloc_den: *r.pick(&[0, 3, 10, 40, 200, 1000]),
        edge_gap: *r.pick(&[0, 0, 20, 100, 500, 3000]),
        recorded: None,
    }
}

/// One expansion: `ok`, `error` or `panic`, and the text.
fn expand(item: &Item, text: &str) -> (String, String) {
    let hook = seams::set_alloc_hook(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let input: proc_macro2::TokenStream = text.parse().expect("the generator makes lexable items");
        let out = if item.repr { schemars_derive::entry_JsonSchema_repr(input) } else { schemars_derive::entry_JsonSchema(input) };
        out.to_string()
    }));
    seams::set_alloc_hook(hook);
    match r {
        Ok(t) => (if t.contains("compile_error") { "error" } else { "ok" }.into(), t),
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_owned())).unwrap_or_default();
            ("panic".into(), m)
        }
    }
}

#[derive(Default, Serialize, Deserialize)]
struct Child {
    /// per thread, per expansion
    results: Vec<Vec<(String, String)>>,
    switches: Vec<(u64, u32)>,
    steps: u64,
    os_blocked: u64,
    bad: Option<(String, String)>,
}

fn in_child(plan: &Plan, env: &Env, threads: &[Vec<usize>], solo: bool) -> Child {
    let mut fds = [0; 2];
    assert_eq!(unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) }, 0);
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe {
            libc::close(fds[0]);
            libc::setpgid(0, 0);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::setrlimit(libc::RLIMIT_CPU, &libc::rlimit { rlim_cur: 30, rlim_max: 31 });
            libc::setrlimit(libc::RLIMIT_CORE, &libc::rlimit { rlim_cur: 0, rlim_max: 0 });
        }
        std::panic::set_hook(Box::new(|_| {}));
        use std::sync::atomic::Ordering::SeqCst;
        seams::HASH_SEED.store(env.hash_seed, SeqCst);
        seams::HASH_SEED_READS.store(0, SeqCst);
        seams::SIM_CLOCK_NS.store(env.clock_ns, SeqCst);
        seams::SIM_CLOCK_STEP.store(env.clock_step, SeqCst);
        seams::SIM_CLOCK.store(true, SeqCst);
        seams::use_arena(env.arena_seed);
        for _ in 0..env.warm_threads {
            let _ = std::thread::spawn(|| drop(std::collections::hash_map::RandomState::new())).join();
        }
        let out = Arc::new(Mutex::new(vec![Vec::new(); threads.len()]));
        let bodies: Vec<Box<dyn FnOnce() + Send>> = threads
            .iter()
            .enumerate()
            .map(|(t, work)| {
                let work: Vec<(Item, String)> = work.iter().map(|i| (plan.items[*i].clone(), plan.items[*i].text())).collect();
                let out = out.clone();
                Box::new(move || {
                    for (item, text) in &work {
                        let r = expand(item, text);
                        out.lock().unwrap_or_else(std::sync::PoisonError::into_inner)[t].push(r);
                    }
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        let decide = match (&plan.recorded, solo) {
            (_, true) => sched::Decide::Recorded(Vec::new()),
            (Some(l), _) => sched::Decide::Recorded(l.clone()),
            (None, _) => sched::Decide::Random { seed: plan.sched_seed, alloc_den: plan.alloc_den, cb_den: 0, edge_gap: plan.edge_gap },
        };
        let after = vec![None; bodies.len()];
        let o = sched::run(bodies, after, decide);
        let c = Child {
            results: out.lock().map(|g| g.clone()).unwrap_or_default(),
            switches: o.switches,
            steps: o.steps,
            os_blocked: o.os_blocked,
            bad: o.hung.then(|| ("hang".into(), "all threads are blocked".into())),
        };
        let mut w = unsafe { std::fs::File::from_raw_fd(fds[1]) };
        let _ = w.write_all(&serde_json::to_vec(&c).unwrap_or_default());
        drop(w);
        unsafe { libc::_exit(0) };
    }
    let mut f = unsafe {
        libc::close(fds[1]);
        std::fs::File::from_raw_fd(fds[0])
    };
    let t0 = real_ns();
    let (mut bytes, mut timed_out) = (Vec::new(), false);
    loop {
        let mut p = libc::pollfd { fd: f.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        let left = 60_000 - ((real_ns() - t0) / 1_000_000) as i32;
        let r = unsafe { libc::poll(&mut p, 1, left.max(0)) };
        if r == 0 {
            timed_out = true;
            break;
        }
        let mut buf = [0u8; 65536];
        match f.read(&mut buf) {
            Ok(0) => break,
            Ok(n) => bytes.extend_from_slice(&buf[..n]),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(_) => break,
        }
    }
    let mut st = 0;
    unsafe {
        if timed_out {
            libc::kill(-pid, libc::SIGKILL);
            libc::kill(pid, libc::SIGKILL);
        }
        libc::waitpid(pid, &mut st, 0);
    }
    if timed_out {
        return Child { bad: Some(("hang".into(), "no result after 60 s".into())), ..Child::default() };
    }
    serde_json::from_slice(&bytes).unwrap_or_else(|_| Child { bad: Some(("died".into(), format!("the process ended with status {st:#x}"))), ..Child::default() })
}

#[derive(Default, Clone)]
struct Out {
    bad: Option<(String, String)>,
    stats: BTreeMap<String, u64>,
    steps: u64,
    switches: Vec<(u64, u32)>,
    trace: u64,
    nontrivial: bool,
}

fn diff(a: &str, b: &str) -> String {
    let (x, y): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let i = x.iter().zip(&y).take_while(|(p, q)| p == q).count();
    let from = i.saturating_sub(30);
    let cut = |v: &[char]| v[from.min(v.len())..(i + 90).min(v.len())].iter().collect::<String>();
    format!("...{:?} instead of ...{:?}", cut(&x), cut(&y))
}

fn judge(plan: &Plan) -> Out {
    let mut o = Out::default();
    // what each item expands to in a process that does nothing else
    let mut alone: BTreeMap<usize, (String, String)> = BTreeMap::new();
    for i in plan.threads.iter().flatten() {
        if alone.contains_key(i) {
            continue;
        }
        let mut c = in_child(plan, &BASE, &[vec![*i]], true);
        if let Some(bad) = c.bad.take() {
            o.bad = Some(bad);
            return o;
        }
        let r = c.results.remove(0).remove(0);
        if r.0 == "error" && r.1.contains("JsonSchema for") {
            o.bad = Some(("partial".into(), format!("item {i} fails to expand, and still an impl comes out: {}", r.1.chars().take(300).collect::<String>())));
            return o;
        }
        *o.stats.entry(format!("alone {}", r.0)).or_default() += 1;
        alone.insert(*i, r);
    }
    let c = in_child(plan, &plan.env, &plan.threads, false);
    o.steps = c.steps;
    o.switches = c.switches;
    *o.stats.entry("fault preemption inside an expansion".into()).or_default() += o.switches.len().saturating_sub(plan.threads.len()) as u64;
    if c.bad.is_some() {
        o.bad = c.bad;
        return o;
    }
    let mut h = 0;
    let (mut n, mut after_error) = (0, 0);
    for (t, work) in plan.threads.iter().enumerate() {
        let mut failed_before = false;
        for (k, i) in work.iter().enumerate() {
            let (got, want) = (&c.results[t][k], &alone[i]);
            if got != want {
                o.bad = Some((
                    "differs".into(),
                    format!("thread {t}, expansion {k} (item {i}, `{}`): {} {} (the latter is what it expands to alone)", plan.items[*i].name, got.0, diff(&got.1, &want.1)),
                ));
                return o;
            }
            n += 1;
            if failed_before {
                after_error += 1;
            }
            failed_before |= got.0 != "ok";
            if got.0 == "error" {
                *o.stats.entry("fault malformed item in the history".into()).or_default() += 1;
            }
            h = mix(h ^ hash_str(&got.1));
        }
    }
    *o.stats.entry("op expansion".into()).or_default() += n;
    *o.stats.entry("probe expansion after a failed one on the same thread".into()).or_default() += after_error;
    *o.stats.entry("fault other hash seeds, addresses and clock".into()).or_default() += 1;
    o.trace = h;
    o.nontrivial = n >= 2;
    o
}

fn weight(p: &Plan) -> usize {
    p.items.iter().map(|i| i.text().len() + 20).sum::<usize>() + p.threads.iter().map(|t| t.len() * 30 + 50).sum::<usize>() + p.recorded.as_ref().map_or(0, |r| r.len() * 5)
}

/// Smaller plans worth a try.
fn smaller(p: &Plan) -> Vec<Plan> {
    let mut v: Vec<Plan> = Vec::new();
    let mut with = |f: &mut dyn FnMut(&mut Plan)| {
        let mut q = p.clone();
        f(&mut q);
        v.push(q);
    };
    for t in 0..p.threads.len() {
        if p.threads.len() > 1 {
            with(&mut |q| drop(q.threads.remove(t)));
        }
        for k in 0..p.threads[t].len() {
            if p.threads[t].len() > 1 {
                with(&mut |q| drop(q.threads[t].remove(k)));
            }
        }
    }
    let used: BTreeSet<usize> = p.threads.iter().flatten().copied().collect();
    if used.len() < p.items.len() {
        let order: Vec<usize> = used.into_iter().collect();
        with(&mut |q| {
            q.items = order.iter().map(|i| p.items[*i].clone()).collect();
            for t in &mut q.threads {
                for k in t {
                    *k = order.iter().position(|o| o == k).expect("used");
                }
            }
        });
    }
    for i in 0..p.items.len() {
        for a in 0..p.items[i].attrs.len() {
            with(&mut |q| drop(q.items[i].attrs.remove(a)));
        }
        if !p.items[i].generics.is_empty() {
            with(&mut |q| q.items[i].generics.clear());
        }
        if !p.items[i].wher.is_empty() {
            with(&mut |q| q.items[i].wher.clear());
        }
        for m in 0..p.items[i].members.len() {
            with(&mut |q| drop(q.items[i].members.remove(m)));
        }
        for m in 0..p.items[i].members.len() {
            for a in 0..p.items[i].members[m].attrs.len() {
                with(&mut |q| drop(q.items[i].members[m].attrs.remove(a)));
            }
            for f in 0..p.items[i].members[m].fields.len() {
                with(&mut |q| drop(q.items[i].members[m].fields.remove(f)));
            }
            for f in 0..p.items[i].members[m].fields.len() {
                for a in 0..p.items[i].members[m].fields[f].attrs.len() {
                    with(&mut |q| drop(q.items[i].members[m].fields[f].attrs.remove(a)));
                }
            }
        }
    }
    if let Some(r) = &p.recorded {
        let mut k = r.len();
        while k >= 1 {
            for at in (0..r.len()).step_by(k) {
                with(&mut |q| drop(q.recorded.as_mut().expect("recorded").drain(at..(at + k).min(r.len()))));
            }
            k /= 2;
        }
    }
    with(&mut |q| q.env.warm_threads = 0);
    with(&mut |q| q.env.arena_seed = 0);
    with(&mut |q| q.env.hash_seed = BASE.hash_seed);
    with(&mut |q| (q.env.clock_ns, q.env.clock_step) = (BASE.clock_ns, BASE.clock_step));
    v
}

fn shrink(plan: &Plan, out: Out, limit_ms: u64) -> (Plan, Out, u64, u64) {
    let t0 = real_ns();
    let class = out.bad.as_ref().map(|b| b.0.clone()).unwrap_or_default();
    let (mut best, mut bout) = (plan.clone(), out);
    let (mut tried, mut taken) = (0, 0);
    if best.threads.len() > 1 && best.recorded.is_none() {
        let mut q = best.clone();
        q.recorded = Some(bout.switches.clone());
        tried += 1;
        let o = judge(&q);
        if o.bad.as_ref().is_some_and(|b| b.0 == class) {
            (best, bout) = (q, o);
        }
    }
    'outer: loop {
        for q in smaller(&best) {
            if (real_ns() - t0) / 1_000_000 > limit_ms {
                break 'outer;
            }
            let same_env = q.env == best.env;
            if weight(&q) >= weight(&best) && same_env {
                continue;
            }
            if serde_json::to_string(&q).ok() == serde_json::to_string(&best).ok() {
                continue;
            }
            tried += 1;
            let o = judge(&q);
            if o.bad.as_ref().is_some_and(|b| b.0 == class) {
                taken += 1;
                (best, bout) = (q, o);
                continue 'outer;
            }
        }
        break;
    }
    (best, bout, tried, taken)
}

fn verif() -> PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

fn fixed_addresses() {
    unsafe {
        let old = libc::personality(0xffff_ffff);
        if old >= 0 && old & 0x0004_0000 == 0 && std::env::var_os("SIM_REEXEC").is_none() && libc::personality(old as libc::c_ulong | 0x0004_0000) >= 0 {
            use std::os::unix::process::CommandExt;
            let e = Command::new(std::env::current_exe().expect("exe")).args(std::env::args().skip(1)).env("SIM_REEXEC", "1").exec();
            eprintln!("exec: {e}");
        }
    }
}

fn plan_for(seed: u64, index: u64) -> Plan {
    gen_plan(mix(mix(seed ^ hash_str(PROP)).wrapping_add(index)))
}

fn worker(seed: u64, first: u64, stride: u64, end: u64, deadline_ms: u64, log: bool) {
    fixed_addresses();
    let t0 = real_ns();
    let (mut stats, mut runs, mut steps, mut sim_ns) = (BTreeMap::<String, u64>::new(), 0u64, 0u64, 0u64);
    let (mut traces, mut nontrivial, mut schedules) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    let mut samples = Vec::new();
    let mut finished = true;
    let mut i = first;
    while i < end {
        if (real_ns() - t0) / 1_000_000 > deadline_ms {
            finished = false;
            break;
        }
        let plan = plan_for(seed, i);
        let o = judge(&plan);
        runs += 1;
        steps += o.steps;
        sim_ns = sim_ns.saturating_add(o.steps.saturating_mul(plan.env.clock_step));
        for (k, v) in &o.stats {
            *stats.entry(k.clone()).or_default() += v;
        }
        if log {
            println!("R {i} {:016x}", o.switches.iter().fold(o.trace ^ o.steps, |h, (a, b)| mix(h ^ a ^ u64::from(*b) << 48)));
        }
        if o.bad.is_some() {
            let first_bad = o.bad.clone();
            let (p, out, tried, accepted) = shrink(&plan, o, 40_000);
            println!("V {}", json!({"index": i, "plan": p, "original": plan, "bad": out.bad, "first": first_bad, "tried": tried, "accepted": accepted}));
            break;
        }
        traces.insert(o.trace);
        if o.nontrivial {
            nontrivial.insert(o.trace);
            if samples.is_empty() {
                samples.push(json!({"index": i, "items": plan.items.iter().map(Item::text).collect::<Vec<_>>(), "threads": plan.threads, "env": plan.env, "switches": o.switches.len(), "results": format!("{:016x}", o.trace)}));
            }
        }
        if plan.threads.len() > 1 {
            schedules.insert(o.switches.iter().fold(0, |h, (a, b)| mix(h ^ a ^ u64::from(*b) << 48)));
        }
        i += stride;
    }
    println!("S {}", json!({"runs": runs, "steps": steps, "sim_ns": sim_ns, "stats": stats, "finished": finished, "traces": traces, "nontrivial": nontrivial, "schedules": schedules, "samples": samples}));
}

fn replay(file: &str) -> i32 {
    fixed_addresses();
    let plan = std::fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|t| {
        let v: Value = serde_json::from_str(&t).map_err(|e| e.to_string())?;
        serde_json::from_value::<Plan>(v["plan"].clone()).map_err(|e| e.to_string())
    });
    match plan {
        Err(e) => {
            eprintln!("{file}: {e}");
            2
        }
        Ok(plan) => match judge(&plan).bad {
            Some((class, detail)) => {
                for (i, it) in plan.items.iter().enumerate() {
                    println!("item {i}: {}", it.text());
                }
                println!("{class}: {detail}");
                println!("VIOLATION property={PROP} replay={file}");
                1
            }
            None => {
                println!("nothing wrong");
                0
            }
        },
    }
}

fn check() -> i32 {
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
    println!("seed {seed}");
    let t0 = real_ns();
    let runs: u64 = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(12_000);
    let (runs, limit) = if thorough { (runs * 40, 780_000) } else { (runs, 150_000) };
    let workers = std::thread::available_parallelism().map_or(4, |n| n.get() as u64).clamp(2, 16);
    let (tx, rx) = std::sync::mpsc::channel::<String>();
    let mut children = Vec::new();
    for w in 0..workers {
        let mut c = Command::new(std::env::current_exe().expect("exe"))
            .args(["worker", &seed.to_string(), &w.to_string(), &workers.to_string(), &runs.to_string(), &limit.to_string(), "0"])
            .env_remove("SIM_REEXEC")
            .stdout(Stdio::piped())
            .spawn()
            .expect("worker");
        let out = c.stdout.take().expect("stdout");
        children.push(c);
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines().map_while(Result::ok) {
                let _ = tx.send(l);
            }
        });
    }
    drop(tx);
    let mut sums: Vec<Value> = Vec::new();
    let mut violation: Option<Value> = None;
    for l in rx {
        if let Some(v) = l.strip_prefix("V ") {
            violation = serde_json::from_str(v).ok();
            break;
        }
        if let Some(s) = l.strip_prefix("S ") {
            sums.extend(serde_json::from_str(s).ok());
        }
    }
    for c in &mut children {
        if violation.is_some() {
            let _ = c.kill();
        }
        let _ = c.wait();
    }
    if let Some(v) = violation {
        println!("run {}: {}: {}", v["index"], v["bad"][0].as_str().unwrap_or(""), v["bad"][1].as_str().unwrap_or(""));
        println!("minimised by {} of {} smaller runs", v["accepted"], v["tried"]);
        let dir = verif().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        for (key, what) in [("plan", &v["bad"]), ("original", &v["first"])] {
            let text = serde_json::to_string_pretty(&json!({
                "property": PROP, "seed": seed, "index": v["index"], "class": what[0], "detail": what[1], "plan": v[key],
                "how": "cd /verif && ./check.sh replay <this file>",
            }))
            .unwrap_or_default();
            let path = dir.join(format!("{PROP}-{:016x}.json", hash_str(&text)));
            let _ = std::fs::write(&path, text);
            let again = || {
                Command::new(std::env::current_exe().expect("exe")).arg("replay").arg(&path).env_remove("SIM_REEXEC").output().is_ok_and(|o| o.status.code() == Some(1))
            };
            if (0..3).any(|_| again()) {
                evidence(thorough, seed, 1, &sums, t0);
                println!("VIOLATION property={PROP} replay={}", path.display());
                return 1;
            }
            eprintln!("{} does not reproduce", path.display());
        }
        eprintln!("harness error: the violation does not replay");
        return 2;
    }
    if sums.len() as u64 != workers {
        eprintln!("harness error: a worker died");
        return 2;
    }
    let (n, d) = evidence(thorough, seed, 0, &sums, t0);
    println!("{PROP}: {n} runs, {d} distinct non-trivial, {} s", (real_ns() - t0) / 1_000_000_000);
    0
}

fn evidence(thorough: bool, seed: u64, violations: u64, sums: &[Value], t0: u64) -> (u64, usize) {
    let total = |k: &str| sums.iter().map(|s| s[k].as_u64().unwrap_or(0)).fold(0u64, u64::saturating_add);
    let set = |k: &str| sums.iter().flat_map(|s| s[k].as_array().cloned().unwrap_or_default()).filter_map(|v| v.as_u64()).collect::<BTreeSet<u64>>().len();
    let mut stats = BTreeMap::<String, u64>::new();
    for s in sums {
        for (k, v) in s["stats"].as_object().into_iter().flatten() {
            *stats.entry(k.clone()).or_default() += v.as_u64().unwrap_or(0);
        }
    }
    let pick = |p: &str| stats.iter().filter_map(|(k, v)| k.strip_prefix(p).map(|k| (k.trim().to_owned(), *v))).collect::<BTreeMap<_, _>>();
    let wall = (real_ns() - t0) as f64 / 1e9;
    let runs = total("runs");
    let e = json!({
        "property": PROP,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": violations,
        "assumptions": [
            "sampling: a clean batch is evidence, not proof",
            "the compiler is replaced by proc_macro2's fallback tokens; spans are not compared",
            "preemption happens at allocations and basic blocks of the derive crate; memory-model reorderings are not simulated",
        ],
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": set("nontrivial"),
            "rule": "Each run: 1 to 12 generated items (structs, enums, unions, generics, serde/schemars/validate/garde attributes, a third of them with mistakes) are expanded, each several times, on 1 to 4 threads of one process under a simulated schedule with simulated hash seeds, heap addresses and clock; every expansion must be the text (tokens or compile errors) that the item alone gives in a process of its own under a fixed environment, and a failing one must give nothing but errors. Non-trivial: at least two expansions were compared.",
            "samples": sums.iter().flat_map(|s| s["samples"].as_array().cloned().unwrap_or_default()).take(3).collect::<Vec<_>>(),
            "distinct_result_traces": set("traces"),
            "distinct_interleavings": set("schedules"),
            "interleaving_measure": "hash of the sequence of (preemption point, thread switched to) of a run with more than one thread",
            "simulated_steps": total("steps"),
            "simulated_seconds_on_the_clock_seam": total("sim_ns") / 1_000_000_000,
            "runs_per_hour": if wall > 0.0 { (runs as f64 * 3600.0 / wall) as u64 } else { 0 },
            "all_planned_runs_done": sums.iter().all(|s| s["finished"] == true),
            "faults_fired": pick("fault "),
            "requests": pick("op "),
            "probes": pick("probe "),
            "counters": pick("alone "),
            "real_code": ["schemars_derive as in /repo's working tree", "syn, quote, serde_derive_internals", "OS threads (one running at a time), process isolation through fork"],
            "stubs": ["the compiler: items are generated, tokens are proc_macro2's fallback implementation", "thread scheduling, hash seeds, heap addresses, clock: decided by the seed"],
        },
    });
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{PROP}.json")), serde_json::to_string_pretty(&e).unwrap_or_default() + "\n");
    (runs, set("nontrivial"))
}

fn main() {
    seams::HASH_SEED.store(1, std::sync::atomic::Ordering::SeqCst);
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let code = match a.as_slice() {
        ["check", "C13"] => check(),
        ["worker", _, _, _, _, _, log] => {
            worker(n(1), n(2), n(3), n(4), n(5), *log == "1");
            0
        }
        ["replay", file] => replay(file),
        ["show", seed, index] => {
            let p = plan_for(seed.parse().expect("seed"), index.parse().expect("index"));
            for (i, it) in p.items.iter().enumerate() {
                println!("--- item {i}\n{}\n=> {:?}", it.text(), in_child(&p, &BASE, &[vec![i]], true).results);
            }
            println!("{:?} {:?}", p.threads, judge(&p).bad);
            0
        }
        _ => {
            eprintln!("usage: derive-sim check C13 | replay FILE | show SEED INDEX");
            2
        }
    };
    std::process::exit(code);
}
