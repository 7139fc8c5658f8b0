//! Command line: distributes seeds over worker processes, collects evidence, reports violations.
use crate::history::{add, Stats};
use crate::plan::Plan;
use crate::rng::{hash_str, mix};
use crate::scenario::{self, fingerprint, gen_plan, judge};
use crate::seams::real_ns;
use crate::shrink::shrink;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn verif() -> PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

/// The two builds: default features, and `preserve_order`.
fn binary(preserve_order: bool) -> PathBuf {
    let me = std::env::current_exe().expect("exe");
    if preserve_order == cfg!(feature = "preserve_order") {
        return me;
    }
    let var = if preserve_order { "SIM_BIN_PO" } else { "SIM_BIN" };
    match std::env::var_os(var) {
        Some(p) => PathBuf::from(p),
        None => {
            let dir = if preserve_order { "target-po" } else { "target" };
            // <here>/target/debug/sim and <here>/target-po/debug/sim
            me.ancestors().nth(3).map_or(me.clone(), |d| d.join(dir).join("debug/sim"))
        }
    }
}

pub fn plan_for(prop: &str, seed: u64, index: u64) -> Plan {
    crate::plan::forget_swarm();
    // every fourth run is against the preserve_order build
    let po = index % 4 == 3;
    let s = mix(mix(seed ^ hash_str(prop)).wrapping_add(index));
    gen_plan(prop, s, po)
}

/// Turns off address space randomisation for this process, where that is allowed.
fn fixed_addresses() {
    const NO_RANDOMIZE: libc::c_ulong = 0x0040000;
    unsafe {
        let old = libc::personality(0xffff_ffff);
        if old >= 0 && old as libc::c_ulong & NO_RANDOMIZE == 0 && std::env::var_os("SIM_REEXEC").is_none() && libc::personality(old as libc::c_ulong | NO_RANDOMIZE) >= 0 {
            use std::os::unix::process::CommandExt;
            let e = Command::new(std::env::current_exe().expect("exe")).args(std::env::args().skip(1)).env("SIM_REEXEC", "1").exec();
            eprintln!("exec: {e}");
        }
    }
}

/// `worker PROP SEED FIRST STRIDE END DEADLINE_MS LOG`
pub fn worker(a: &[&str]) -> i32 {
    fixed_addresses();
    let prop = a[0];
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let (seed, first, stride, end, deadline, log) = (n(1), n(2), n(3), n(4), n(5), n(6) != 0);
    unsafe { libc::prctl(libc::PR_SET_CHILD_SUBREAPER, 1) };
    let t0 = real_ns();
    let out = std::io::stdout();
    let mut stats = Stats::new();
    let (mut runs, mut steps) = (0u64, 0u64);
    let mut nontrivial: BTreeSet<u64> = BTreeSet::new();
    let mut traces: BTreeSet<u64> = BTreeSet::new();
    let mut schedules: BTreeSet<u64> = BTreeSet::new();
    let mut samples: Vec<Value> = Vec::new();
    let mut sim_ns = 0u64;
    let mut index = first;
    let mut finished = true;
    while index < end {
        // the two builds share the index space: skip what belongs to the other one
        let po = index % 4 == 3;
        if po != cfg!(feature = "preserve_order") {
            index += 1;
            continue;
        }
        let rank = if po { index / 4 } else { index - index / 4 };
        if rank % stride != first {
            index += 1;
            continue;
        }
        if (real_ns() - t0) / 1_000_000 > deadline {
            finished = false;
            break;
        }
        let plan = plan_for(prop, seed, index);
        let o = judge(&plan);
        reap();
        runs += 1;
        steps += o.steps;
        for (k, v) in &o.stats {
            add(&mut stats, k, *v);
        }
        sim_ns = sim_ns.saturating_add(o.steps.saturating_mul(plan.env.clock_step));
        if log {
            println!("R {index} {:016x}", fingerprint(&plan, &o));
        }
        if o.bad.is_some() {
            let first_bad = o.bad.clone();
            let class = first_bad.as_ref().map(|b| b.0.clone()).unwrap_or_default();
            let s = if class == "harness" {
                crate::shrink::Shrunk { plan: plan.clone(), out: o, tried: 0, accepted: 0 }
            } else {
                shrink(&plan, o, 40_000, 3000)
            };
            let v = json!({"index": index, "plan": s.plan, "original": plan, "bad": s.out.bad, "first": first_bad, "tried": s.tried, "accepted": s.accepted});
            println!("V {v}");
            break;
        }
        let f = o.trace;
        traces.insert(f);
        if o.nontrivial {
            nontrivial.insert(f);
            if samples.len() < 1 {
                samples.push(json!({"index": index, "plan": plan, "results": format!("{f:016x}"), "steps": o.steps, "switches": o.switches.len()}));
            }
        }
        if !o.switches.is_empty() {
            let mut h = 0;
            for (a, b) in &o.switches {
                h = mix(h ^ a ^ u64::from(*b) << 48);
            }
            schedules.insert(h);
        }
        index += 1;
    }
    let s = json!({
        "runs": runs, "steps": steps, "stats": stats, "finished": finished, "sim_ns": sim_ns,
        "nontrivial": nontrivial, "traces": traces, "schedules": schedules, "samples": samples,
        "ms": (real_ns() - t0) / 1_000_000,
    });
    let mut w = out.lock();
    let _ = writeln!(w, "S {s}");
    let _ = w.flush();
    0
}

fn reap() {
    unsafe {
        let mut st = 0;
        while libc::waitpid(-1, &mut st, libc::WNOHANG) > 0 {}
    }
}

pub fn show_plan(prop: &str, index: &str) -> i32 {
    let p = plan_for(prop, seed(), index.parse().expect("index"));
    println!("{}", serde_json::to_string_pretty(&p).expect("json"));
    let o = judge(&p);
    eprintln!("{:?} steps {} nontrivial {} {:?}", o.bad, o.steps, o.nontrivial, o.stats);
    0
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1)
}

/// Runs one replay file; exit 1 if it shows what it says.
pub fn replay(file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let v: Value = match serde_json::from_str(&text) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    if let Some(name) = v["known"].as_str() {
        let prop = v["property"].as_str().unwrap_or("");
        return match crate::known::report(prop, Path::new("/nonexistent")) {
            Err((n, what)) if n == name => {
                println!("{what}");
                println!("VIOLATION property={prop} replay={file}");
                1
            }
            _ => 0,
        };
    }
    let plan: Plan = match serde_json::from_value(v["plan"].clone()) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    if plan.preserve_order != cfg!(feature = "preserve_order") {
        let s = Command::new(binary(plan.preserve_order)).args(["replay", file]).env_remove("SIM_REEXEC").status();
        return s.ok().and_then(|s| s.code()).unwrap_or(2);
    }
    fixed_addresses();
    unsafe { libc::prctl(libc::PR_SET_CHILD_SUBREAPER, 1) };
    let o = judge(&plan);
    println!("fingerprint {:016x}", fingerprint(&plan, &o));
    match o.bad {
        Some((class, detail)) if class != "harness" => {
            println!("{class}: {detail}");
            println!("VIOLATION property={} replay={file}", plan.prop);
            1
        }
        Some((_, detail)) => {
            eprintln!("harness error: {detail}");
            2
        }
        None => {
            println!("nothing wrong");
            0
        }
    }
}

/// (runs, wall limit in ms) per tier.
fn budget(prop: &str, thorough: bool) -> (u64, u64) {
    let quick = match prop {
        "C01" | "C04" => 36_000,
        "C02" => 48_000,
        "C03" => 30_000,
        "C05" => 50_000,
        "C06" => 9_000,
        "C07" => 8_000,
        "C08" => 24_000,
        "C09" => 60_000,
        "C10" => 50_000,
        "C11" => 50_000,
        _ => 40_000,
    };
    if thorough {
        (quick * 40, 780_000)
    } else {
        (std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(quick), 150_000)
    }
}

struct Proc {
    child: std::process::Child,
    lines: std::sync::mpsc::Receiver<String>,
    po: bool,
}

fn spawn(prop: &str, seed: u64, first: u64, stride: u64, end: u64, deadline: u64, log: bool, po: bool) -> Proc {
    let mut child = Command::new(binary(po))
        .args(["worker", prop, &seed.to_string(), &first.to_string(), &stride.to_string(), &end.to_string(), &deadline.to_string(), if log { "1" } else { "0" }])
        .env_remove("SIM_REEXEC")
        .stdout(Stdio::piped())
        .spawn()
        .expect("worker");
    let out = child.stdout.take().expect("stdout");
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines().map_while(Result::ok) {
            if tx.send(l).is_err() {
                break;
            }
        }
    });
    Proc { child, lines: rx, po }
}

fn spawn_all(prop: &str, seed: u64, runs: u64, deadline: u64, workers: u64, log: bool) -> Vec<Proc> {
    let po = (workers / 4).max(1);
    let dflt = (workers - po).max(1);
    let mut v: Vec<Proc> = (0..dflt).map(|i| spawn(prop, seed, i, dflt, runs, deadline, log, false)).collect();
    v.extend((0..po).map(|i| spawn(prop, seed, i, po, runs, deadline, log, true)));
    v
}

/// Prints the fingerprint of every run, in order of its index.
pub fn log(prop: &str, seed: &str, n: &str, workers: &str) -> i32 {
    let mut all = std::collections::BTreeMap::new();
    for mut p in spawn_all(prop, seed.parse().expect("seed"), n.parse().expect("runs"), 3_600_000, workers.parse().expect("workers"), true) {
        for l in p.lines.iter() {
            if let Some(r) = l.strip_prefix("R ") {
                if let Some((i, f)) = r.split_once(' ') {
                    all.insert(i.parse::<u64>().unwrap_or(0), f.to_owned());
                }
            }
        }
        let _ = p.child.wait();
    }
    for (i, f) in all {
        println!("{i} {f}");
    }
    0
}

fn write_replay(prop: &str, v: &Value) -> PathBuf {
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let text = serde_json::to_string_pretty(v).unwrap_or_default();
    let path = dir.join(format!("{prop}-{:016x}.json", hash_str(&text)));
    let _ = std::fs::write(&path, text);
    path
}

fn confirm(prop: &str, plan: &Value, path: &Path, po: bool) -> bool {
    let _ = plan;
    let o = Command::new(binary(po)).arg("replay").arg(path).env_remove("SIM_REEXEC").output();
    match o {
        Ok(o) => o.status.code() == Some(1) && String::from_utf8_lossy(&o.stdout).contains(&format!("VIOLATION property={prop} ")),
        Err(_) => false,
    }
}

pub fn check(prop: &str) -> i32 {
    if !scenario::PROPS.contains(&prop) {
        eprintln!("no such property: {prop}");
        return 2;
    }
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let seed = seed();
    println!("seed {seed}");
    let t0 = real_ns();
    match crate::known::report(prop, &verif().join("known-findings.txt")) {
        Ok(_) => {}
        Err((name, what)) => {
            let path = write_replay(prop, &json!({"property": prop, "known": name, "what": what}));
            println!("{what}");
            println!("VIOLATION property={prop} replay={}", path.display());
            evidence(prop, thorough, seed, 1, &Value::Null, t0);
            return 1;
        }
    }
    let (runs, limit) = budget(prop, thorough);
    let workers = std::thread::available_parallelism().map_or(4, |n| n.get() as u64).clamp(2, 16);
    let procs = spawn_all(prop, seed, runs, limit, workers, false);
    let mut sums: Vec<(bool, Value)> = Vec::new();
    let mut violation: Option<(bool, Value)> = None;
    let mut broken = false;
    let mut procs: Vec<Option<Proc>> = procs.into_iter().map(Some).collect();
    while procs.iter().any(Option::is_some) {
        for slot in &mut procs {
            let Some(p) = slot else { continue };
            let mut done = false;
            loop {
                match p.lines.try_recv() {
                    Ok(l) => {
                        if let Some(v) = l.strip_prefix("V ") {
                            if violation.is_none() {
                                violation = serde_json::from_str(v).ok().map(|v| (p.po, v));
                            }
                        } else if let Some(s) = l.strip_prefix("S ") {
                            if let Ok(s) = serde_json::from_str::<Value>(s) {
                                sums.push((p.po, s));
                                done = true;
                            }
                        }
                    }
                    Err(std::sync::mpsc::TryRecvError::Empty) => break,
                    Err(std::sync::mpsc::TryRecvError::Disconnected) => {
                        if !done {
                            broken = true;
                        }
                        done = true;
                        break;
                    }
                }
            }
            if done {
                let _ = p.child.wait();
                *slot = None;
            }
        }
        if violation.is_some() {
            for slot in &mut procs {
                if let Some(p) = slot {
                    let _ = p.child.kill();
                    let _ = p.child.wait();
                }
                *slot = None;
            }
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(5));
    }
    let total = aggregate(&sums);
    if let Some((po, v)) = violation {
        let bad = &v["bad"];
        if bad[0] == "harness" {
            eprintln!("harness error: {}", bad[1]);
            return 2;
        }
        println!("run {}: {}: {}", v["index"], bad[0].as_str().unwrap_or(""), bad[1].as_str().unwrap_or(""));
        println!("minimised by {} of {} smaller runs", v["accepted"], v["tried"]);
        for (key, what) in [("plan", &v["bad"]), ("original", &v["first"])] {
            let file = json!({
                "property": prop, "seed": seed, "index": v["index"], "class": what[0], "detail": what[1], "plan": v[key],
                "how": "cd /verif && ./check.sh replay <this file>",
            });
            let path = write_replay(prop, &file);
            if (0..3).any(|_| confirm(prop, &v[key], &path, po)) {
                evidence(prop, thorough, seed, 1, &total, t0);
                println!("VIOLATION property={prop} replay={}", path.display());
                return 1;
            }
            eprintln!("{} does not reproduce", path.display());
        }
        eprintln!("harness error: the violation does not replay");
        return 2;
    }
    if broken {
        eprintln!("harness error: a worker died");
        return 2;
    }
    evidence(prop, thorough, seed, 0, &total, t0);
    println!(
        "{prop}: {} runs, {} distinct non-trivial, {} steps, {} s",
        total["runs"], total["distinct_nontrivial"], total["steps"], (real_ns() - t0) / 1_000_000_000
    );
    0
}

fn aggregate(sums: &[(bool, Value)]) -> Value {
    let mut stats = Stats::new();
    let (mut runs, mut steps, mut sim_ns, mut po_runs) = (0u64, 0u64, 0u64, 0u64);
    let mut nontrivial: BTreeSet<u64> = BTreeSet::new();
    let mut traces: BTreeSet<u64> = BTreeSet::new();
    let mut schedules: BTreeSet<u64> = BTreeSet::new();
    let mut samples = Vec::new();
    let mut finished = true;
    for (po, s) in sums {
        runs += s["runs"].as_u64().unwrap_or(0);
        if *po {
            po_runs += s["runs"].as_u64().unwrap_or(0);
        }
        steps += s["steps"].as_u64().unwrap_or(0);
        sim_ns = sim_ns.saturating_add(s["sim_ns"].as_u64().unwrap_or(0));
        finished &= s["finished"].as_bool().unwrap_or(false);
        for (k, v) in s["stats"].as_object().into_iter().flatten() {
            add(&mut stats, k, v.as_u64().unwrap_or(0));
        }
        let set = |k: &str| s[k].as_array().into_iter().flatten().filter_map(Value::as_u64).collect::<Vec<_>>();
        nontrivial.extend(set("nontrivial"));
        traces.extend(set("traces"));
        schedules.extend(set("schedules"));
        if samples.len() < 3 {
            samples.extend(s["samples"].as_array().into_iter().flatten().cloned());
        }
    }
    json!({
        "runs": runs, "preserve_order_runs": po_runs, "steps": steps, "simulated_seconds": sim_ns / 1_000_000_000, "finished": finished, "stats": stats,
        "distinct_nontrivial": nontrivial.len(), "distinct_traces": traces.len(), "distinct_schedules": schedules.len(), "samples": samples,
    })
}

fn evidence(prop: &str, thorough: bool, seed: u64, violations: u64, total: &Value, t0: u64) {
    let wall = (real_ns() - t0) as f64 / 1e9;
    let runs = total["runs"].as_u64().unwrap_or(0);
    let (rule, real, stub, assumptions) = crate::scenario::describe(prop);
    let stats = total["stats"].as_object().cloned().unwrap_or_default();
    let pick = |p: &str| -> serde_json::Map<String, Value> {
        stats.iter().filter_map(|(k, v)| k.strip_prefix(p).map(|k| (k.trim().to_owned(), v.clone()))).collect()
    };
    let rest: serde_json::Map<String, Value> =
        stats.iter().filter(|(k, _)| !k.starts_with("fault ") && !k.starts_with("op ") && !k.starts_with("probe ")).map(|(k, v)| (k.clone(), v.clone())).collect();
    let e = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": violations,
        "assumptions": assumptions,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": total["distinct_nontrivial"].as_u64().unwrap_or(0),
            "rule": rule,
            "samples": if total["samples"].as_array().is_some_and(|a| !a.is_empty()) { total["samples"].clone() } else { json!([]) },
            "distinct_result_traces": total["distinct_traces"],
            "distinct_interleavings": total["distinct_schedules"],
            "interleaving_measure": "hash of the sequence of (preemption point, thread switched to) of a run",
            "simulated_steps": total["steps"],
            "simulated_seconds_on_the_clock_seam": total["simulated_seconds"],
            "runs_per_hour": if wall > 0.0 { (runs as f64 * 3600.0 / wall) as u64 } else { 0 },
            "runs_against_preserve_order_build": total["preserve_order_runs"],
            "all_planned_runs_done": total["finished"],
            "faults_fired": pick("fault "),
            "requests": pick("op "),
            "probes": pick("probe "),
            "counters": rest,
            "real_code": real,
            "stubs": stub,
        },
    });
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&e).unwrap_or_default() + "\n");
}
