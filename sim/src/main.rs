//! Deterministic simulation of clickhouse-rs: many seeded runs, each decided by an oracle.
mod client;
mod codec;
mod gen;
mod libc_shim;
mod oracle;
mod plan;
mod rng;
mod server;
mod shrink;
mod ty;
mod world;

use plan::Plan;
use rng::mix;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use world::{Choices, Violation, World};

pub enum Pick {
    Seed(u64),
    Replay(Vec<u32>),
}

/// What is left of a run.
pub struct Outcome {
    pub violations: Vec<Violation>,
    pub hash: u64,
    pub sched: u64,
    pub choices: Vec<u32>,
    pub stats: BTreeMap<&'static str, u64>,
    pub ms: u64,
    pub steps: u64,
    pub log: Vec<String>,
    pub ops: Vec<String>,
}

/// One simulated run on a thread of its own.
pub fn exec(plan: Arc<Plan>, pick: Pick, log: bool) -> Outcome {
    let seed = plan.seed;
    let h = std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            let choices = match pick {
                Pick::Seed(s) => Choices::Random(rng::Rng::new(s ^ 0x00c0_1dbe_ef00)),
                Pick::Replay(v) => Choices::Replay(v, 0),
            };
            let w = World::new(plan.clone(), choices, log);
            let p = plan.clone();
            let mut end = world::run(w, move || client::make(p));
            oracle::check(&mut end);
            let w = end.world;
            Outcome {
                hash: w.hash,
                sched: w.sched_hash,
                ms: w.now,
                steps: w.steps,
                ops: w
                    .hist
                    .iter()
                    .map(|r| {
                        let k = format!("{:?}", r.kind);
                        let o = format!("{:?}", r.outcome);
                        format!("task {} op {} {}..{} ms {:.60} -> {:.80} ({} rows)", r.task, r.op, r.start, r.end, k, o, r.rows)
                    })
                    .collect(),
                violations: w.violations,
                choices: w.recorded,
                stats: w.stats,
                log: w.log.unwrap_or_default(),
            }
        })
        .expect("thread");
    match h.join() {
        Ok(o) => o,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            eprintln!("HARNESS ERROR: run of seed {seed} ended with a panic outside of a task: {m}");
            std::process::exit(3);
        }
    }
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    kind: String,
    text: String,
    seed: u64,
    hash: String,
    plan: Plan,
    choices: Vec<u32>,
    trace: Vec<String>,
}

fn relevant<'a>(id: &str, o: &'a Outcome) -> Option<&'a Violation> {
    o.violations.iter().find(|v| oracle::relevant(id, v.kind))
}

/// Listed findings: lines `known: property=<id> kind=<kind> text=<part of the violation>`.
fn known(dir: &Path) -> Vec<(String, String, String)> {
    let t = std::fs::read_to_string(dir.join("known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (id, rest) = l.split_once(" kind=")?;
            let (kind, text) = rest.split_once(" text=")?;
            Some((id.to_string(), kind.to_string(), text.trim().to_string()))
        })
        .collect()
}

fn seed_of(base: u64, id: &str, i: u64) -> u64 {
    let h = id.bytes().fold(mix(base), |h, b| mix(h ^ b as u64));
    // keeps JSON readers that use doubles exact
    mix(h ^ mix(i)) >> 12
}

#[derive(Default)]
struct Totals {
    runs: u64,
    ms: u64,
    steps: u64,
    stats: BTreeMap<&'static str, u64>,
    scenarios: BTreeMap<String, u64>,
    other: BTreeMap<&'static str, u64>,
    hashes: HashSet<u64>,
    nontrivial: HashSet<u64>,
    scheds: HashSet<u64>,
    known: BTreeMap<String, u64>,
}

fn budget(id: &str, tier: &str) -> (u64, Duration) {
    let env = |n: &str| std::env::var(n).ok().and_then(|v| v.parse::<u64>().ok());
    let weight = match id {
        "C07" | "C08" | "C09" => 3,
        _ => 1,
    };
    let (runs, secs) = if tier == "thorough" { (4_000_000 * weight, 780) } else { (100_000 * weight, 60) };
    (env("SIM_RUNS").unwrap_or(runs), Duration::from_secs(env("SIM_SECS").unwrap_or(secs)))
}

fn base_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1)
}

/// A run is given up if it takes this long on the real clock (they take milliseconds).
const STUCK: Duration = Duration::from_secs(60);

/// Runs the search in a process of its own, so that code that takes the process down, or never
/// returns, is found out, too.
fn guarded(dir: &Path, id: &str, tier: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let start = Instant::now();
    let slots = dir.join("target").join(format!("slots-{id}-{}", std::process::id()));
    std::fs::write(&slots, []).expect("slots");
    let me = std::env::current_exe().expect("exe");
    let mut child = std::process::Command::new(&me)
        .args(["search", id, tier])
        .env("SIM_SLOTS", &slots)
        .spawn()
        .expect("child");
    let mut seen: Vec<(u64, Instant)> = vec![];
    let read = || -> Vec<u64> {
        let b = std::fs::read(&slots).unwrap_or_default();
        b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
    };
    let (kind, text, suspects) = loop {
        if let Some(st) = child.try_wait().expect("wait") {
            if let Some(code) = st.code() {
                let _ = std::fs::remove_file(&slots);
                return code;
            }
            let sig = st.signal().unwrap_or(0);
            break ("crash", format!("the process was ended by signal {sig}"), read());
        }
        let now = Instant::now();
        let cur = read();
        seen.resize(cur.len(), (0, now));
        for (i, x) in cur.iter().enumerate() {
            if seen[i].0 != *x {
                seen[i] = (*x, now);
            }
        }
        if let Some(s) = seen.iter().find(|s| s.0 != 0 && now - s.1 > STUCK) {
            let _ = child.kill();
            let _ = child.wait();
            break ("spin", format!("a simulated run did not end within {} s of real time", STUCK.as_secs()), vec![s.0]);
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let _ = std::fs::remove_file(&slots);
    // which of the runs under way was it?
    let mut culprit = None;
    for seed in suspects.into_iter().filter(|s| *s != 0) {
        let mut c = std::process::Command::new(&me)
            .args(["run", id, &seed.to_string()])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .spawn()
            .expect("child");
        let t = Instant::now();
        let bad = loop {
            match c.try_wait().expect("wait") {
                Some(st) => break st.code().is_none(),
                None if t.elapsed() > STUCK => {
                    let _ = c.kill();
                    let _ = c.wait();
                    break true;
                }
                None => std::thread::sleep(Duration::from_millis(5)),
            }
        };
        if bad {
            culprit = Some(seed);
            break;
        }
    }
    let Some(seed) = culprit else {
        eprintln!("HARNESS ERROR: {text}, but no run under way does that again");
        return 3;
    };
    let path = dir.join("replays").join(format!("{id}-{seed}.json"));
    std::fs::create_dir_all(path.parent().unwrap()).unwrap();
    let r = Replay {
        property: id.into(),
        kind: kind.into(),
        text: text.clone(),
        seed,
        hash: String::new(),
        plan: gen::generate(id, seed),
        choices: vec![],
        trace: vec![],
    };
    std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
    let ev = serde_json::json!({
        "property": id, "tier": tier, "seed": base_seed(), "level": "exploration",
        "coverage": { "evaluations": 1, "distinct_nontrivial": 0, "rule": "the search ended early, only the failing run is counted", "samples": [{"seed": seed, "violation": text}] },
        "wall_s": start.elapsed().as_secs_f64(), "violations": 1,
    });
    let ep = dir.join("evidence").join(format!("{id}.json"));
    std::fs::create_dir_all(ep.parent().unwrap()).unwrap();
    std::fs::write(ep, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{id}: {kind} (seed {seed})\n  {text}");
    println!("VIOLATION property={id} replay={}", path.display());
    1
}

fn check(dir: &Path, id: &str, tier: &str) -> i32 {
    let base = base_seed();
    let start = Instant::now();
    let slots = std::env::var("SIM_SLOTS").ok().map(|p| std::fs::OpenOptions::new().write(true).open(p).expect("slots"));
    let slots = slots.as_ref();
    let (max_runs, max_time) = budget(id, tier);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<(u64, u64, Violation)>> = Mutex::new(None);
    let totals = Mutex::new(Totals::default());
    let listed = known(dir);
    let workers = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
    std::thread::scope(|s| {
        let (next, stop, found, totals, listed) = (&next, &stop, &found, &totals, &listed);
        for w in 0..workers as u64 {
            s.spawn(move || {
                let mark = |seed: u64| {
                    use std::os::unix::fs::FileExt;
                    if let Some(f) = slots {
                        let _ = f.write_at(&seed.to_le_bytes(), 8 * w);
                    }
                };
                let mut t = Totals::default();
                loop {
                    mark(0);
                    if stop.load(Ordering::Relaxed) || start.elapsed() > max_time {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= max_runs {
                        break;
                    }
                    let seed = seed_of(base, id, i);
                    let plan = Arc::new(gen::generate(id, seed));
                    mark(seed);
                    let o = exec(plan.clone(), Pick::Seed(seed), false);
                    t.runs += 1;
                    t.ms += o.ms;
                    t.steps += o.steps;
                    *t.scenarios.entry(plan.scenario.clone()).or_insert(0) += 1;
                    for (k, n) in &o.stats {
                        *t.stats.entry(k).or_insert(0) += n;
                    }
                    t.hashes.insert(o.hash);
                    let faults = o.stats.iter().any(|(k, n)| k.starts_with("fault_") && *n > 0);
                    let pre = o.stats.get("preemptions").copied().unwrap_or(0) > 0;
                    if faults || pre {
                        t.nontrivial.insert(o.hash);
                    }
                    t.scheds.insert(o.sched);
                    for v in &o.violations {
                        if !oracle::relevant(id, v.kind) {
                            *t.other.entry(v.kind).or_insert(0) += 1;
                            continue;
                        }
                        if let Some((_, k, text)) =
                            listed.iter().find(|(p, k, text)| p == id && k == v.kind && v.text.contains(text.as_str()))
                        {
                            *t.known.entry(format!("{k}: {text}")).or_insert(0) += 1;
                            continue;
                        }
                        let mut f = found.lock().unwrap();
                        if f.as_ref().map_or(true, |f| i < f.0) {
                            *f = Some((i, seed, v.clone()));
                        }
                        stop.store(true, Ordering::Relaxed);
                        break;
                    }
                }
                let mut a = totals.lock().unwrap();
                a.runs += t.runs;
                a.ms += t.ms;
                a.steps += t.steps;
                for (k, n) in t.stats {
                    *a.stats.entry(k).or_insert(0) += n;
                }
                for (k, n) in t.scenarios {
                    *a.scenarios.entry(k).or_insert(0) += n;
                }
                for (k, n) in t.other {
                    *a.other.entry(k).or_insert(0) += n;
                }
                for (k, n) in t.known {
                    *a.known.entry(k).or_insert(0) += n;
                }
                a.hashes.extend(t.hashes);
                a.nontrivial.extend(t.nontrivial);
                a.scheds.extend(t.scheds);
            });
        }
    });
    let t = totals.into_inner().unwrap();
    let search = start.elapsed().as_secs_f64();
    for (k, n) in &t.known {
        println!("KNOWN-FINDING: property={id} {k} ({n} runs)");
    }
    let mut code = 0;
    let found = found.into_inner().unwrap();
    // every search is also a test of the simulator: runs repeat exactly
    let mut repeated = 0;
    let mut samples = vec![];
    for i in [0, t.runs / 3, t.runs / 2, t.runs.saturating_sub(9)] {
        let seed = seed_of(base, id, i);
        let plan = Arc::new(gen::generate(id, seed));
        let a = exec(plan.clone(), Pick::Seed(seed), true);
        let b = exec(plan.clone(), Pick::Replay(a.choices.clone()), false);
        if a.hash != b.hash || a.choices != b.choices {
            eprintln!("WARNING: seed {seed} of {id} does not repeat ({:x} {:x})", a.hash, b.hash);
        } else {
            repeated += 1;
        }
        let n = a.log.len();
        let mut lines: Vec<String> = a.log.into_iter().take(25).map(|s| s.chars().take(160).collect()).collect();
        if n > 25 {
            lines.push(format!("... {} further events", n - 25));
        }
        let faults: BTreeMap<_, _> = a.stats.iter().filter(|(k, _)| k.starts_with("fault_")).collect();
        samples.push(serde_json::json!({
            "seed": seed, "scenario": plan.scenario, "history": a.ops.iter().take(12).collect::<Vec<_>>(),
            "faults": faults, "trace_hash": format!("{:016x}", a.hash), "first_events": lines,
        }));
    }
    if let Some((_, seed, first_violation)) = &found {
        let kind = &first_violation.kind.to_string();
        let plan = Arc::new(gen::generate(id, *seed));
        let first = exec(plan.clone(), Pick::Seed(*seed), false);
        let (p, choices, _) = shrink::shrink(plan, first.choices, kind, Duration::from_secs(20));
        let o = exec(p.clone(), Pick::Replay(choices.clone()), true);
        let v = o.violations.iter().find(|v| v.kind == kind.as_str()).cloned();
        let v = v.unwrap_or_else(|| {
            eprintln!("WARNING: the violation {kind} of seed {seed} does not repeat");
            first_violation.clone()
        });
        let path = dir.join("replays").join(format!("{id}-{seed}.json"));
        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
        let r = Replay {
            property: id.into(),
            kind: kind.clone(),
            text: v.text.clone(),
            seed: *seed,
            hash: format!("{:016x}", o.hash),
            plan: (*p).clone(),
            choices,
            trace: o.log.iter().take(3000).cloned().collect(),
        };
        std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
        println!("{id}: {} (seed {seed}, {} runs)", v.kind, t.runs);
        println!("  {:.600}", v.text);
        println!("VIOLATION property={id} replay={}", path.display());
        code = 1;
    }
    let wall = start.elapsed().as_secs_f64();
    let faults: BTreeMap<_, _> =
        t.stats.iter().filter(|(k, _)| k.starts_with("fault_")).map(|(k, v)| (k.trim_start_matches("fault_"), v)).collect();
    let counters: BTreeMap<_, _> = t.stats.iter().filter(|(k, _)| !k.starts_with("fault_")).collect();
    let ev = serde_json::json!({
        "property": id, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.nontrivial.len(),
            "rule": "one evaluation is one simulated run of a plan (configuration, servers, workload, faults) generated from a seed of its own; \
                     it is non-trivial if at least one fault was injected or one thread was preempted at a shared-memory operation, \
                     and distinct if the hash over all its events (with their times) was not seen before in this check",
            "samples": samples,
            "runs_per_hour": (t.runs as f64 / search * 3600.0) as u64,
            "seeds_per_hour": (t.runs as f64 / search * 3600.0) as u64,
            "simulated_seconds": t.ms as f64 / 1000.0,
            "scheduler_steps": t.steps,
            "faults_injected": faults,
            "counters": counters,
            "scenarios": t.scenarios,
            "distinct_interleavings": t.scheds.len(),
            "interleaving_measure": "distinct hashes over the sequence of (task chosen, preemption point) decisions of a run",
            "distinct_traces": t.hashes.len(),
            "replay_self_checks": repeated,
            "irrelevant_violations": t.other,
            "known_findings": t.known,
            "real_components": ["all of clickhouse-rs built from /repo (pool, connecting_stream, client_info, io transport and streams, binary protocol, lz4 + cityhash block compression, types, retry_guard)", "tokio timers under a paused clock", "lz4 and CityHash C code"],
            "stub_components": ["TCP sockets (simulated network)", "ClickHouse server (scripted model with a decoder of its own)", "DNS and host name", "randomness", "OS threads (coroutines under a seeded scheduler)", "clock (virtual)"],
        },
        "assumptions": [
            "threads are interleaved at atomic and queue operations of the pool, wakes and poll boundaries; memory is sequentially consistent",
            "the scripted server speaks the native protocol as the oracle's own encoder and decoder define it"
        ],
        "wall_s": wall,
        "violations": code,
    });
    let path = dir.join("evidence").join(format!("{id}.json"));
    std::fs::create_dir_all(path.parent().unwrap()).unwrap();
    std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{id} {tier}: {} runs in {:.1} s, {:.0} simulated s, {} distinct traces ({} non-trivial), {} interleavings",
        t.runs,
        search,
        t.ms as f64 / 1000.0,
        t.hashes.len(),
        t.nontrivial.len(),
        t.scheds.len()
    );
    code
}

fn replay(file: &str) -> i32 {
    let t = std::fs::read_to_string(file).expect("replay file");
    let r: Replay = serde_json::from_str(&t).expect("replay file");
    let pick = if r.hash.is_empty() { Pick::Seed(r.seed) } else { Pick::Replay(r.choices) };
    if r.hash.is_empty() {
        println!("{}: {} (the run is repeated now)", r.kind, r.text);
    }
    let o = exec(Arc::new(r.plan), pick, true);
    for l in &o.log {
        println!("{l}");
    }
    for v in &o.violations {
        println!("at {} ms: {}: {}", v.at, v.kind, v.text);
    }
    if o.violations.iter().any(|v| v.kind == r.kind) {
        let same = format!("{:016x}", o.hash) == r.hash;
        println!("{}", if same { "reproduced exactly" } else { "reproduced, with a different trace" });
        println!("VIOLATION property={} replay={file}", r.property);
        return 1;
    }
    println!("not reproduced");
    0
}

/// For development: statistics over violations of all kinds.
fn survey(id: &str, n: u64, from: u64) -> i32 {
    let next = AtomicU64::new(from);
    let seen: Mutex<BTreeMap<String, (u64, u64, String)>> = Mutex::new(BTreeMap::new());
    let start = Instant::now();
    let stats: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= from + n {
                    break;
                }
                let seed = seed_of(1, id, i);
                let plan = Arc::new(gen::generate(id, seed));
                let sc = plan.scenario.clone();
                let o = exec(plan, Pick::Seed(seed), false);
                for (k, n) in &o.stats {
                    *stats.lock().unwrap().entry(k).or_insert(0) += n;
                }
                let mut m = seen.lock().unwrap();
                for v in &o.violations {
                    let key = format!("{}{} [{}]", if oracle::relevant(id, v.kind) { "" } else { "(irrelevant) " }, v.kind, sc);
                    let key = match std::env::var("VERBOSE") {
                        Ok(n) => {
                            let t: String = v.text.split("column \"").last().unwrap().chars().filter(|c| !c.is_ascii_digit()).collect();
                            let t: String = t.split("\" ").last().unwrap().chars().take(n.parse().unwrap_or(60)).collect();
                            format!("{key} {t}")
                        }
                        _ => key,
                    };
                    let e = m.entry(key).or_insert((0, seed, v.text.clone()));
                    e.0 += 1;
                }
            });
        }
    });
    println!("== {id}: {n} runs in {:.1} s", start.elapsed().as_secs_f64());
    for (k, (n, seed, text)) in seen.into_inner().unwrap() {
        println!("  {n:>6} {k} seed {seed}: {text:.300}");
    }
    if std::env::var("STATS").is_ok() {
        println!("{:?}", stats.into_inner().unwrap());
    }
    0
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let dir = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()));
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or(i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("SIM_PANICS").is_ok() {
            eprintln!("panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        world::PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((msg, loc));
            }
        });
    }));
    clickhouse_rs::sim::install(&world::HOOKS);
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a[1..] {
        ["check", id, tier] if gen::IDS.contains(&id) => guarded(&dir, id, tier),
        ["search", id, tier] if gen::IDS.contains(&id) => check(&dir, id, tier),
        ["replay", file] => replay(file),
        ["survey", id, n] => survey(id, n.parse().unwrap(), 0),
        ["survey", id, n, from] => survey(id, n.parse().unwrap(), from.parse().unwrap()),
        ["run", id, seed] => {
            let seed: u64 = seed.parse().unwrap();
            let p = Arc::new(gen::generate(id, seed));
            println!("{}", serde_json::to_string_pretty(&*p).unwrap());
            let o = exec(p, Pick::Seed(seed), true);
            for l in &o.log {
                println!("{l}");
            }
            for v in &o.violations {
                println!("at {} ms: {}: {}", v.at, v.kind, v.text);
            }
            0
        }
        _ => {
            eprintln!("usage: chsim check <ID> <tier> | replay <file> | survey <ID> <runs> | run <ID> <seed>");
            2
        }
    };
    std::process::exit(code);
}
