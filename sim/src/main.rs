//! Deterministic simulation of programs that use schemars. See /verif/DESIGN.md.
#![allow(clippy::too_many_lines)]
mod ctx;
mod driver;
mod flaky;
mod fresh;
mod history;
mod io;
mod known;
mod oracle;
mod plan;
mod rng;
mod scenario;
mod sched;
mod seams;
mod shrink;
mod transforms;
mod value;
mod world;
mod nest;
mod past;
mod zoo;

fn main() {
    // hash seeds drawn by the harness itself
    seams::HASH_SEED.store(1, std::sync::atomic::Ordering::SeqCst);
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    world::init_table();
    let code = match a.as_slice() {
        ["check", prop] => driver::check(prop),
        ["worker", rest @ ..] => driver::worker(rest),
        ["replay", file] => driver::replay(file),
        ["plan", prop, idx] => driver::show_plan(prop, idx),
        ["log", prop, seed, n, workers] => driver::log(prop, seed, n, workers),
        _ => {
            eprintln!("usage: sim check PROP | replay FILE | plan PROP INDEX | log PROP SEED RUNS WORKERS");
            2
        }
    };
    std::process::exit(code);
}
