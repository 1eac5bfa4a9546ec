//! Runtime monitors for mwalczyk/kami. See /verif/DESIGN.md.
//!
//!   kami-monitor check PROP            supervise a run (env VERIF_SEED, VERIF_TIER)
//!   kami-monitor worker PROP ...       one shard (started by the supervisor)
//!   kami-monitor replay FILE           run the case of a replay file again
#[macro_use]
mod cx;
mod detmon;
mod foldmon;
mod gamon;
mod geom;
mod graphmon;
mod ordermon;
mod polymon;
mod rng;
mod sanmon;
mod utilmon;

use cx::{Cx, Stop, FOREIGN_CALL, LAST_PANIC};
use rng::{mix, Rng};
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- resource monitors

/// Live heap bytes; a case whose heap grows past the cap is a runaway (never reached otherwise).
struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
/// Set for C28, whose verdict never depends on termination.
static ALL_FOREIGN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
const EXIT_HANG: i32 = 77;
const EXIT_RUNAWAY: i32 = 78;

extern "C" {
    fn _exit(code: i32) -> !;
    fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if LIVE.fetch_add(l.size(), Ordering::Relaxed) + l.size() > CAP.load(Ordering::Relaxed) {
            _exit(EXIT_RUNAWAY);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            if LIVE.fetch_add(n - l.size(), Ordering::Relaxed) + n - l.size() > CAP.load(Ordering::Relaxed) {
                _exit(EXIT_RUNAWAY);
            }
        } else {
            LIVE.fetch_sub(l.size() - n, Ordering::Relaxed);
        }
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

/// Heap bytes in use.
pub fn live_bytes() -> usize {
    LIVE.load(Ordering::SeqCst)
}

/// CPU seconds used by this process.
fn cpu_seconds() -> f64 {
    let mut ts = [0i64; 2];
    unsafe { clock_gettime(2, &mut ts) };
    ts[0] as f64 + ts[1] as f64 * 1e-9
}

/// Index of the case in progress plus one; 0 between cases.
static CURRENT: AtomicU64 = AtomicU64::new(0);

/// Starts the CPU-time budget of the case in progress again: for cases made of very many calls.
pub fn breathe() {
    CURRENT.fetch_add(1 << 40, Ordering::SeqCst);
}

/// Ends the process when one case has used more CPU time than `limit`. CPU time, not wall time: a
/// loaded machine does not trip it.
fn start_watchdog(limit: f64) {
    std::thread::spawn(move || {
        let mut seen = 0;
        let mut since = cpu_seconds();
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let now = CURRENT.load(Ordering::SeqCst);
            let cpu = cpu_seconds();
            if now == 0 || now != seen {
                seen = now;
                since = cpu;
            } else if cpu - since > limit {
                unsafe { _exit(if FOREIGN_CALL.load(Ordering::SeqCst) || ALL_FOREIGN.load(Ordering::SeqCst) { EXIT_HANG + 10 } else { EXIT_HANG }) };
            }
        }
    });
}

// ---------------------------------------------------------------- properties

pub struct Prop {
    pub id: &'static str,
    pub case: fn(&mut Cx) -> cx::CaseResult,
    pub quick: u64,
    pub thorough: u64,
    /// Fewest distinct non-trivial cases for a verdict (quick tier).
    pub floor: u64,
    /// Monitor events that must have been observed for a verdict.
    pub required: &'static [&'static str],
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

fn all_props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(graphmon::props());
    v.extend(polymon::props());
    v.extend(utilmon::props());
    v.extend(gamon::props());
    v.extend(foldmon::props());
    v.extend(detmon::props());
    v.extend(sanmon::props());
    v.extend(ordermon::props());
    v
}

fn find_prop(id: &str) -> Prop {
    all_props().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no such property: {}", id);
        std::process::exit(2)
    })
}

fn case_seed(seed: u64, prop: &str, index: u64) -> u64 {
    mix(mix(seed) ^ rng::hash_bytes(prop.as_bytes()) ^ mix(index.wrapping_mul(0x2545_f491_4f6c_dd1d)))
}

fn run_case(p: &Prop, cx: &mut Cx, seed: u64, index: u64) -> cx::CaseResult {
    cx.rng = Rng::new(case_seed(seed, p.id, index));
    cx.index = index;
    cx.trace.clear();
    CURRENT.store(index + 1, Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(|| (p.case)(cx)));
    CURRENT.store(0, Ordering::SeqCst);
    FOREIGN_CALL.store(false, Ordering::SeqCst);
    match r {
        Ok(r) => r,
        Err(_) => {
            let i = LAST_PANIC.lock().ok().and_then(|g| g.clone()).unwrap_or_default();
            if cx::is_own_panic(&i) {
                Err(Stop::Internal(format!("{} ({}:{})", i.message, i.file, i.line)))
            } else {
                Err(Stop::Violation(format!("the library panicked: {} (at {}:{})", i.message, i.file, i.line)))
            }
        }
    }
}

// ---------------------------------------------------------------- worker

struct WorkerArgs {
    prop: String,
    seed: u64,
    thorough: bool,
    shard: u64,
    shards: u64,
    cases: u64,
    only: Option<u64>,
    out: String,
    seconds: f64,
    hang: f64,
}

fn worker(a: WorkerArgs) -> i32 {
    let p = find_prop(&a.prop);
    cx::install_panic_hook();
    ALL_FOREIGN.store(a.prop == "C28", Ordering::SeqCst);
    CAP.store(3 << 30, Ordering::SeqCst);
    start_watchdog(a.hang);
    let mut progress = std::fs::File::create(format!("{}.progress", a.out)).expect("progress file");
    let scratch = format!("{}.scratch", a.out);
    let mut c = Cx::new(p.id, a.thorough, scratch.clone());
    let start = Instant::now();
    let mut violation = Value::Null;
    let mut internal = Value::Null;
    let known_list = known_findings(p.id);
    let mut known: Vec<String> = vec![];
    let mut done = 0u64;
    let mut truncated = false;
    let mut i = a.only.unwrap_or(a.shard);
    while i < a.cases {
        if start.elapsed().as_secs_f64() > a.seconds {
            truncated = true;
            break;
        }
        use std::os::unix::fs::FileExt;
        let _ = progress.write_all_at(&i.to_le_bytes(), 0);
        match run_case(&p, &mut c, a.seed, i) {
            Ok(()) => {}
            Err(Stop::Violation(m)) => {
                if let Some((_, what)) = known_list.iter().find(|(k, _)| m.contains(k.as_str())) {
                    if !known.contains(what) {
                        known.push(what.clone());
                    }
                } else {
                    violation = json!({"index": i, "message": m, "input": c.trace});
                    break;
                }
            }
            Err(Stop::Internal(m)) => {
                internal = json!({"index": i, "message": m, "input": c.trace});
                break;
            }
        }
        done += 1;
        if a.only.is_some() {
            break;
        }
        i += a.shards;
    }
    let _ = progress.flush();
    let out = json!({
        "done": done, "evaluations": c.evaluations, "counters": c.counters, "samples": c.samples,
        "violation": violation, "internal": internal, "truncated": truncated, "digest": c.digest, "known": known,
        "distinct": c.distinct.iter().map(|h| format!("{:x}", h)).collect::<Vec<_>>(),
    });
    if std::path::Path::new(&scratch).is_dir() {
        let _ = std::fs::remove_dir_all(&scratch);
    }
    std::fs::write(format!("{}.json", a.out), out.to_string()).expect("result file");
    0
}

// ---------------------------------------------------------------- supervisor

fn verif_dir() -> String {
    std::env::var("KAMI_VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

fn spawn_worker(a: &WorkerArgs) -> std::io::Result<std::process::Child> {
    let exe = std::env::current_exe()?;
    let err = std::fs::File::create(format!("{}.stderr", a.out))?;
    let mut cmd = Command::new(exe);
    cmd.arg("worker")
        .arg(&a.prop)
        .arg(a.seed.to_string())
        .arg(if a.thorough { "thorough" } else { "quick" })
        .arg(a.shard.to_string())
        .arg(a.shards.to_string())
        .arg(a.cases.to_string())
        .arg(a.only.map(|i| i.to_string()).unwrap_or_else(|| "-".to_string()))
        .arg(&a.out)
        .arg(a.seconds.to_string())
        .arg(a.hang.to_string())
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(err);
    cmd.spawn()
}

fn describe(status: &std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match (status.code(), status.signal()) {
        (Some(EXIT_HANG), _) => "a call did not return within its CPU-time budget".to_string(),
        (Some(EXIT_RUNAWAY), _) => "the heap grew without bound".to_string(),
        (Some(c), _) => format!("exit code {}", c),
        (None, Some(s)) => format!("signal {}", s),
        _ => "unknown end".to_string(),
    }
}

/// Ends that blame the code under test: hang, runaway heap, or a fatal signal other than SIGKILL,
/// SIGTERM, SIGINT, SIGHUP. A sanitizer report exits with 99.
fn blames_library(status: &std::process::ExitStatus) -> bool {
    use std::os::unix::process::ExitStatusExt;
    match (status.code(), status.signal()) {
        (Some(EXIT_HANG), _) | (Some(EXIT_RUNAWAY), _) | (Some(99), _) => true,
        (None, Some(s)) => [4, 6, 7, 8, 11].contains(&s),
        _ => false,
    }
}

fn known_findings(prop: &str) -> Vec<(String, String)> {
    // known: property=C00 key=<text that the violation message contains> | <what fails>
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).unwrap_or_default();
    let mut v = vec![];
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("known: property=") {
            if let Some((id, rest)) = rest.split_once(" key=") {
                if id == prop {
                    let (key, what) = rest.split_once(" | ").unwrap_or((rest, rest));
                    v.push((key.to_string(), what.to_string()));
                }
            }
        }
    }
    v
}

fn run_dir(prop: &str) -> String {
    let d = format!("{}/out/run-{}-{}", verif_dir(), prop, std::process::id());
    std::fs::create_dir_all(&d).expect("run directory");
    d
}

fn check(prop_id: &str) -> i32 {
    let p = find_prop(prop_id);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let asan = std::env::var("KAMI_ASAN").is_ok();
    let start = Instant::now();
    let cases: u64 = std::env::var("KAMI_CASES")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { p.thorough } else { p.quick });
    let shards = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8) as u64;
    let seconds = if thorough { 700.0 } else { 240.0 };
    let hang = if asan { 60.0 } else { 20.0 };
    let dir = run_dir(prop_id);
    let mk = |shard: u64, only: Option<u64>, tag: &str, hang: f64| WorkerArgs {
        prop: prop_id.to_string(),
        seed,
        thorough,
        shard,
        shards,
        cases,
        only,
        out: format!("{}/{}{}", dir, tag, shard),
        seconds,
        hang,
    };
    let mut violation: Option<Value> = None;
    let mut trouble: Vec<String> = vec![];
    let mut children = vec![];
    for s in 0..shards {
        let a = mk(s, None, "w", hang);
        match spawn_worker(&a) {
            Ok(c) => children.push((a, c)),
            Err(e) => {
                eprintln!("cannot start worker: {}", e);
                return 2;
            }
        }
    }
    let mut results = vec![];
    for (a, mut c) in children {
        let status = c.wait().expect("wait");
        if status.success() {
            match std::fs::read_to_string(format!("{}.json", a.out)).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
                Some(v) => results.push(v),
                None => trouble.push(format!("shard {} left no result", a.shard)),
            }
            continue;
        }
        // The worker died. Find the case and see whether it dies again alone.
        let stderr = std::fs::read_to_string(format!("{}.stderr", a.out)).unwrap_or_default();
        let idx = std::fs::read(format!("{}.progress", a.out))
            .ok()
            .filter(|b| b.len() == 8)
            .map(|b| u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]));
        if !blames_library(&status) || idx.is_none() {
            trouble.push(format!("shard {} ended with {}: {}", a.shard, describe(&status), tail(&stderr)));
            continue;
        }
        if violation.is_some() {
            continue;
        }
        let idx = idx.unwrap();
        let again = mk(a.shard, Some(idx), "again", hang);
        let st2 = spawn_worker(&again).and_then(|mut c| c.wait()).expect("second run");
        let err2 = std::fs::read_to_string(format!("{}.stderr", again.out)).unwrap_or_default();
        if blames_library(&st2) {
            violation = Some(json!({"index": idx, "message": format!("{} (twice)", describe(&st2)), "input": tail(&err2)}));
        } else {
            trouble.push(format!("shard {} died once at case {} ({}), not again: {}", a.shard, idx, describe(&status), tail(&stderr)));
        }
    }

    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<String> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let (mut evaluations, mut done) = (0u64, 0u64);
    let mut truncated = false;
    let mut known: Vec<String> = vec![];
    for r in &results {
        evaluations += r["evaluations"].as_u64().unwrap_or(0);
        done += r["done"].as_u64().unwrap_or(0);
        truncated |= r["truncated"].as_bool().unwrap_or(false);
        if let Some(m) = r["counters"].as_object() {
            for (k, v) in m {
                let (c, v) = (counters.entry(k.clone()).or_insert(0), v.as_u64().unwrap_or(0));
                *c = if k.starts_with("most_") { v.max(*c) } else { *c + v };
            }
        }
        if let Some(m) = r["distinct"].as_array() {
            for h in m {
                distinct.insert(h.as_str().unwrap_or("").to_string());
            }
        }
        if let Some(m) = r["samples"].as_array() {
            for s in m {
                if samples.len() < 4 {
                    samples.push(s.clone());
                }
            }
        }
        if let Some(m) = r["known"].as_array() {
            known.extend(m.iter().filter_map(|s| s.as_str()).map(|s| s.to_string()));
        }
        if !r["internal"].is_null() {
            trouble.push(format!("monitor error: {}", r["internal"]));
        }
        if !r["violation"].is_null() {
            let better = match &violation {
                None => true,
                Some(v) => r["violation"]["index"].as_u64() < v["index"].as_u64(),
            };
            if better {
                violation = Some(r["violation"].clone());
            }
        }
    }
    // Digest agreement between two separate processes (C27).
    if prop_id == "C27" && violation.is_none() && trouble.is_empty() {
        let n = cases.min(if thorough { 400 } else { 100 });
        let mut digests = vec![];
        for k in 0..2 {
            let mut a = mk(0, None, "digest", hang);
            a.out = format!("{}/digest{}", dir, k);
            a.shards = 1;
            a.cases = n;
            let st = spawn_worker(&a).and_then(|mut c| c.wait()).expect("digest run");
            let v = std::fs::read_to_string(format!("{}.json", a.out)).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok());
            match (st.success(), v) {
                (true, Some(v)) => digests.push(v["digest"].as_u64().unwrap_or(0)),
                _ => trouble.push("digest run failed".to_string()),
            }
        }
        if digests.len() == 2 {
            *counters.entry("histories_compared_across_processes".into()).or_insert(0) += n;
            if digests[0] != digests[1] {
                violation = Some(json!({"index": 0, "message": format!("two processes replayed the same {} histories to different results", n), "input": "cases 0.. of this seed"}));
            }
        }
    }

    // What the interpreter run (started by check.sh before this) covered (C28).
    let miri = std::env::var("KAMI_MIRI_SUMMARY").ok().and_then(|f| std::fs::read_to_string(f).ok()).map(|t| t.trim().to_string());
    let wall = start.elapsed().as_secs_f64();
    let nviol = violation.is_some() as u64;
    let evidence = json!({
        "property": p.id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct.len(), "rule": p.rule, "samples": samples,
            "cases": done, "monitor_events": counters, "stopped_at_time_limit": truncated, "worker_processes": shards, "interpreter": miri,
            "sanitizer": if asan {"AddressSanitizer + overflow checks + debug assertions"} else {"overflow checks + debug assertions"},
        },
        "assumptions": p.assumptions, "wall_s": wall, "violations": nviol,
    });
    if std::env::var("KAMI_NO_EVIDENCE").is_err() {
        let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
        let name = std::env::var("KAMI_EVIDENCE").unwrap_or_else(|_| format!("{}/evidence/{}.json", verif_dir(), p.id));
        std::fs::write(&name, serde_json::to_string_pretty(&evidence).unwrap()).expect("evidence file");
    }
    let _ = std::fs::remove_dir_all(&dir);
    known.sort();
    known.dedup();
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", p.id, k);
    }
    if let Some(v) = violation {
        let rdir = format!("{}/out/replay", verif_dir());
        let _ = std::fs::create_dir_all(&rdir);
        let path = format!("{}/{}-seed{}-case{}.json", rdir, p.id, seed, v["index"]);
        let replay = json!({
            "property": p.id, "seed": seed, "tier": if thorough {"thorough"} else {"quick"},
            "index": v["index"], "message": v["message"], "input": v["input"],
        });
        std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap()).expect("replay file");
        println!("{}: {}", p.id, v["message"].as_str().unwrap_or(""));
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    if !trouble.is_empty() {
        for t in &trouble {
            println!("inconclusive: {}", t);
        }
        return 2;
    }
    if known.is_empty() && std::env::var("KAMI_CASES").is_err() {
        if (distinct.len() as u64) < p.floor {
            println!("inconclusive: only {} distinct non-trivial cases (need {})", distinct.len(), p.floor);
            return 2;
        }
        for r in p.required {
            if counters.get(*r).copied().unwrap_or(0) == 0 {
                println!("inconclusive: the monitors never observed `{}`", r);
                return 2;
            }
        }
    }
    println!(
        "{} held on {} cases ({} evaluations, {} distinct non-trivial) in {:.1} s",
        p.id, done, evaluations, distinct.len(), wall
    );
    0
}

fn tail(s: &str) -> String {
    let lines: Vec<&str> = s.lines().collect();
    let from = lines.len().saturating_sub(40);
    lines[from..].join("\n")
}

fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay file");
    let p = find_prop(v["property"].as_str().unwrap_or(""));
    cx::install_panic_hook();
    start_watchdog(20.0);
    let mut c = Cx::new(p.id, v["tier"] == "thorough", format!("{}/out/replay-scratch-{}", verif_dir(), std::process::id()));
    let r = run_case(&p, &mut c, v["seed"].as_u64().unwrap_or(1), v["index"].as_u64().unwrap_or(0));
    if std::path::Path::new(&c.scratch).is_dir() {
        let _ = std::fs::remove_dir_all(&c.scratch);
    }
    eprintln!("{}", c.trace);
    match r {
        Ok(()) => {
            eprintln!("held");
            0
        }
        Err(Stop::Violation(m)) => {
            eprintln!("violated: {}", m);
            1
        }
        Err(Stop::Internal(m)) => {
            eprintln!("monitor error: {}", m);
            2
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") if args.len() == 3 => check(&args[2]),
        Some("replay") if args.len() == 3 => replay(&args[2]),
        Some("list") => {
            for p in all_props() {
                println!("{}", p.id);
            }
            0
        }
        Some("miri") => sanmon::miri_main(&args[2..]),
        Some("worker") if args.len() == 12 => worker(WorkerArgs {
            prop: args[2].clone(),
            seed: args[3].parse().unwrap(),
            thorough: args[4] == "thorough",
            shard: args[5].parse().unwrap(),
            shards: args[6].parse().unwrap(),
            cases: args[7].parse().unwrap(),
            only: args[8].parse().ok(),
            out: args[9].clone(),
            seconds: args[10].parse().unwrap(),
            hang: args[11].parse().unwrap(),
        }),
        _ => {
            eprintln!("usage: kami-monitor check PROP | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
