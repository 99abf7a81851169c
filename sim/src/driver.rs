//! One check: many simulated runs spread over worker processes, and what comes of them.

use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::exec::{self, RunOut};
use crate::gen;
use crate::known;
use crate::minimise::minimise;
use crate::plan::{Plan, World};
use crate::spop::Msg;

/// Violations that end a process rather than being observed by it.
const FATAL: &[&str] = &["livelock", "deadlock", "stuck", "crash"];

/// Whether a violation of this class breaks the property.
pub fn breaks(prop: &str, class: &str) -> bool {
    let props: &str = match class {
        // nothing of the system works any more in these runs
        "panic" | "livelock" | "deadlock" | "stuck" | "crash" | "endless" => return true,
        "missing-ack" => "C01 C02 C04 C05 C06 C07 C08 C09 C10 C11 C12 C16 C17 C20 C21",
        "disconnect-instead-of-ack" => "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C16 C17 C20 C21",
        "wrong-ack-id" | "wrong-ack-flags" => "C01 C06 C08 C12",
        "wrong-actions" => "C01 C02 C06 C08",
        "wrong-messages" => "C02 C06 C08 C10 C12 C20",
        "missing-call" => "C01 C02 C04 C05 C06 C07 C08 C09 C10 C11 C12 C16 C17 C20 C21",
        "extra-call" => "C01 C03 C06 C10 C12",
        "early-call" => "C01 C06 C12",
        "late-call" => "C05 C06 C08 C16 C17 C21",
        "call-after-deadline" | "not-timed-out" | "call-not-dropped" => "C05",
        "early-timeout" => "C01 C04 C05 C16",
        "missing-disconnect" | "no-disconnect" => "C03 C04 C05 C06 C10 C11 C16",
        "wrong-code" => "C04 C05 C11",
        "wrong-text" => "C04",
        "after-disconnect" => "C03 C04 C12",
        "extra-frame" => "C01 C03 C04 C05 C06 C07 C08 C10 C11 C12 C16",
        "wrong-frame" => "C01 C03 C04 C06 C10 C12",
        "hello-version" | "hello-capabilities" => "C03",
        "hello-frame-size" => "C03 C11",
        "missing-hello" => "C01 C03 C08 C09 C11 C16 C17",
        "missing-service" => "C03 C08 C09 C16 C19",
        "service-before-hello" => "C03",
        "service-count" => "C03 C19",
        "service-for-nobody" | "wrong-state" => "C08 C19",
        "factory-not-ready" | "not-ready" => "C16",
        "frame-too-big" => "C11",
        "partial-frame-out" => "C01 C02 C04 C07 C11 C12 C17",
        "bad-frame-out" => "C01 C02 C03 C04 C11 C12",
        "late-reply" => "C04 C05 C07 C08 C09 C11 C16 C17 C21",
        "not-closed" | "late-close" => "C03 C04 C05 C06 C07 C10 C11 C12 C16 C19",
        "closed-early" => "C01 C02 C03 C05 C06 C07 C08 C09 C10 C11 C12 C16 C17 C20 C21",
        "closed-twice" | "service-leak" | "service-dropped-twice" => "C19",
        "call-leak" => "C05 C19",
        "ghost" => "C08 C12",
        "accept-after-shutdown" | "call-after-shutdown" => "C07",
        "blocking-listener" => "C09",
        "late-accept" | "not-accepted" => "C08 C09",
        "serve-early" | "serve-error" => "C07 C08 C09",
        "serve-late" | "serve-never" | "serve-before-conns" => "C07 C09",
        "lost-wakeup" => "C01 C07 C08 C13 C14",
        "dispatch-lost" | "dispatch-twice" | "dispatch-order" | "dispatch-atomic" | "wrong-error" | "no-error" | "ack-missing"
        | "ack-twice" | "ack-wrong" | "ack-result" | "entry-twice" | "entry-extra" => "C13",
        "not-linearizable" | "reassembly-error" => "C15",
        "roundtrip" | "rejected" | "frame-lost" | "read-extra" | "hang" => "C10 C11 C18",
        "encode" | "write-lost" => "C18",
        "refused" | "not-refused" | "wrote-refused" => "C11 C18",
        "not-rejected" => "C10 C11",
        "reads-ahead" | "hoards-replies" => "C21",
        "hoards" => "C11 C21",
        "headers" => "C20",
        // a class that was not put on this list is no reason to miss it
        _ => return true,
    };
    props.split(' ').any(|p| p == prop)
}

/// Simulated runs per check.
fn runs(prop: &str, thorough: bool) -> u64 {
    let quick = match prop {
        "C13" | "C14" => 200_000,
        "C15" => 400_000,
        "C18" => 300_000,
        "C21" => 25_000,
        _ => 150_000,
    };
    if thorough {
        quick * 40
    } else {
        quick
    }
}

/// When a check stops, whether or not it is through.
fn cap(thorough: bool) -> Duration {
    Duration::from_secs(if thorough { 3 * 3600 } else { 420 })
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub detail: String,
    pub verif_seed: u64,
    pub run: u64,
    pub hash: String,
    pub minimised: String,
    pub plan: Plan,
    pub trace: Vec<String>,
}

// ---------------------------------------------------------------- a worker

#[derive(Default, Serialize, Deserialize)]
struct Summary {
    runs: u64,
    twice: u64,
    diverged: Vec<u64>,
    steps: u64,
    events: u64,
    sim_ms: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    others: BTreeMap<String, u64>,
    samples: Vec<Value>,
}

fn limit_memory() {
    let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) };
}

fn say(s: &str) {
    let mut o = std::io::stdout().lock();
    let _ = o.write_all(s.as_bytes());
    let _ = o.flush();
}

pub fn work(prop: &str, seed: u64, thorough: bool, from: u64, step: u64, total: u64) {
    let t0 = Instant::now();
    limit_memory();
    known::warm_up();
    let mut s = Summary::default();
    let mut found = 0;
    let mut i = from;
    while i < total && t0.elapsed() < cap(thorough) {
        say(&format!("R {i}\n"));
        let plan = gen::plan(prop, seed, i, thorough);
        let trace = s.samples.len() < 1 && i >= 50;
        let o = exec::exec(&plan, trace);
        s.runs += 1;
        s.steps += o.steps;
        s.events += o.events;
        s.sim_ms += o.sim_ms;
        let faults: u64 = o.faults.values().sum();
        if o.events > 3 && (faults > 0 || o.steps > 10) {
            say(&format!("D {:x}\n", o.shape));
        }
        for (k, n) in &o.faults {
            *s.faults.entry(k.to_string()).or_default() += n;
        }
        for (k, n) in &o.probes {
            *s.probes.entry(k.to_string()).or_default() += n;
        }
        if trace {
            let t: Vec<_> = o.trace.iter().take(40).map(|l| l.chars().take(120).collect::<String>()).collect();
            let p = serde_json::to_string(&plan).unwrap();
            s.samples.push(json!({"run": i, "plan": p.chars().take(3000).collect::<String>(), "history_begins": t}));
        }
        // the same run again has to be the same in every detail
        if i % 61 == 7 {
            s.twice += 1;
            let again = exec::exec(&plan, false);
            if (again.hash, again.shape, again.steps) != (o.hash, o.shape, o.steps) {
                s.diverged.push(i);
            }
        }
        let mut hit = false;
        for v in &o.viols {
            if v.class == "harness" {
                say(&format!("X run {i}: {}\n", v.detail));
                hit = true;
            } else if breaks(prop, v.class) {
                say(&format!("V {}\n", json!([i, v.class, v.detail])));
                hit = true;
                break;
            } else {
                *s.others.entry(v.class.to_string()).or_default() += 1;
            }
        }
        if hit {
            found += 1;
            if found >= 3 {
                break;
            }
        }
        i += step;
    }
    say(&format!("S {}\n", serde_json::to_string(&s).unwrap()));
}

/// Runs one plan and prints what came of it.
pub fn try_plan(file: &str) {
    limit_memory();
    known::warm_up();
    let plan: Plan = serde_json::from_slice(&std::fs::read(file).expect("plan")).expect("plan");
    let o = exec::exec(&plan, std::env::var_os("SPOPSIM_TRACE").is_some());
    say(&format!("O {}\n", out_json(&o)));
}

fn out_json(o: &RunOut) -> Value {
    json!({
        "hash": format!("{:016x}{:016x}", o.hash, o.shape),
        "viols": o.viols.iter().map(|v| json!([v.class, v.detail])).collect::<Vec<_>>(),
        "trace": o.trace,
        "calls": o.calls,
    })
}

// ---------------------------------------------------------------- the parent

struct Outcome {
    hash: String,
    viols: Vec<(String, String)>,
    trace: Vec<String>,
    calls: Vec<Vec<Msg>>,
}

/// Runs a plan in a process of its own.
fn run_apart(dir: &Path, plan: &Plan, trace: bool) -> Outcome {
    let file = dir.join("plan.json");
    std::fs::write(&file, serde_json::to_vec(plan).unwrap()).expect("write plan");
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("try").arg(&file).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
    if trace {
        cmd.env("SPOPSIM_TRACE", "1");
    }
    let mut child = cmd.spawn().expect("spawn");
    let out = child.stdout.take().unwrap();
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let mut text = String::new();
        let _ = std::io::Read::read_to_string(&mut BufReader::new(out), &mut text);
        let _ = tx.send(text);
    });
    let fatal = |class: &str, detail: String| Outcome { hash: String::new(), viols: vec![(class.into(), detail)], trace: vec![], calls: vec![] };
    let text = match rx.recv_timeout(Duration::from_secs(60)) {
        Ok(t) => t,
        Err(_) => {
            let _ = child.kill();
            let _ = child.wait();
            return fatal("stuck", "the run does not end: something loops without yielding".into());
        }
    };
    let status = child.wait().expect("wait");
    for l in text.lines() {
        if let Some(v) = l.strip_prefix("O ") {
            let v: Value = serde_json::from_str(v).unwrap();
            let s = |v: &Value| v.as_str().unwrap_or_default().to_string();
            return Outcome {
                hash: s(&v["hash"]),
                viols: v["viols"].as_array().unwrap().iter().map(|x| (s(&x[0]), s(&x[1]))).collect(),
                trace: v["trace"].as_array().unwrap().iter().map(s).collect(),
                calls: serde_json::from_value(v["calls"].clone()).unwrap(),
            };
        }
        if let Some(kind) = l.strip_prefix("F ") {
            return fatal(if FATAL.contains(&kind) { FATAL.iter().find(|k| **k == kind).unwrap() } else { "crash" }, fatal_text(kind));
        }
    }
    fatal("crash", format!("the process died: {status}"))
}

fn fatal_text(kind: &str) -> String {
    match kind {
        "livelock" => "the run never comes to rest: tasks keep running without end".into(),
        "deadlock" => "a lock is waited for that nobody will release".into(),
        k => format!("the process ended itself: {k}"),
    }
}

enum Line {
    Text(usize, String),
    Eof(usize),
}

struct Worker {
    child: Child,
    run: u64,
    last: Instant,
    summary: bool,
    fatal: Option<String>,
    done: bool,
}

pub fn check(prop: &str, tier: &str, seed: u64, root: &Path, only: Option<u64>) -> i32 {
    let thorough = tier == "thorough";
    let t0 = Instant::now();
    println!("VERIF_SEED={seed} property={prop} tier={tier}");
    let total = only.unwrap_or_else(|| runs(prop, thorough));
    let cap = cap(thorough) + Duration::from_secs(60);
    let n = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 16) as u64;
    let (tx, rx) = channel();
    let mut workers: Vec<Worker> = vec![];
    for w in 0..n {
        let mut child = Command::new(std::env::current_exe().unwrap())
            .args(["work", prop, &seed.to_string(), tier, &w.to_string(), &n.to_string(), &total.to_string()])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .spawn()
            .expect("spawn");
        let out = child.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                let Ok(l) = l else { break };
                let _ = tx.send(Line::Text(w as usize, l));
            }
            let _ = tx.send(Line::Eof(w as usize));
        });
        workers.push(Worker { child, run: w, last: Instant::now(), summary: false, fatal: None, done: false });
    }
    let mut shapes: HashSet<u64> = HashSet::new();
    let mut sum = Summary::default();
    let mut found: Vec<(u64, String, String)> = vec![];
    let mut harness: Vec<String> = vec![];
    let mut truncated = false;
    while workers.iter().any(|w| !w.done) {
        match rx.recv_timeout(Duration::from_secs(1)) {
            Ok(Line::Text(w, l)) => {
                workers[w].last = Instant::now();
                let (kind, rest) = l.split_at(l.len().min(2));
                match kind {
                    "R " => workers[w].run = rest.parse().unwrap(),
                    "D " => {
                        shapes.insert(u64::from_str_radix(rest, 16).unwrap());
                    }
                    "V " => {
                        let (i, c, d): (u64, String, String) = serde_json::from_str(rest).unwrap();
                        found.push((i, c, d));
                    }
                    "X " => harness.push(rest.to_string()),
                    "F " => workers[w].fatal = Some(rest.to_string()),
                    "S " => {
                        workers[w].summary = true;
                        merge(&mut sum, serde_json::from_str(rest).unwrap());
                    }
                    _ => {}
                }
            }
            Ok(Line::Eof(w)) => {
                let status = workers[w].child.wait().expect("wait");
                let w = &mut workers[w];
                w.done = true;
                if !w.summary && !truncated {
                    let (class, detail) = match w.fatal.as_deref() {
                        Some(k) if FATAL.contains(&k) => (k.to_string(), fatal_text(k)),
                        Some(k) => ("crash".into(), fatal_text(k)),
                        None if status.signal() == Some(libc::SIGKILL) => {
                            ("stuck".into(), "the run does not end: something loops without yielding".into())
                        }
                        None => ("crash".into(), format!("the process died: {status}")),
                    };
                    found.push((w.run, class, detail));
                }
            }
            Err(RecvTimeoutError::Timeout) => {}
            Err(RecvTimeoutError::Disconnected) => break,
        }
        for w in &mut workers {
            if !w.done && w.last.elapsed() > Duration::from_secs(60) {
                let _ = w.child.kill();
            }
        }
        if t0.elapsed() > cap && !truncated {
            truncated = true;
            for w in &mut workers {
                if !w.done {
                    let _ = w.child.kill();
                }
            }
        }
    }
    let search = t0.elapsed();

    // the known findings
    let dir = std::env::temp_dir().join(format!("spopsim-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let mut listed = 0;
    let mut violations = vec![];
    for k in known::probes(prop) {
        let o = run_apart(&dir, &k.plan, true);
        if o.calls == k.right {
            continue;
        }
        if o.calls == k.wrong && known::listed(root, prop, k.name) {
            println!("KNOWN-FINDING: property={prop} {}: {}", k.name, k.what);
            listed += 1;
        } else {
            let r = Replay {
                property: prop.into(),
                class: format!("probe {}", k.name),
                detail: k.what.into(),
                verif_seed: seed,
                run: 0,
                hash: o.hash,
                minimised: "minimal as it is".into(),
                plan: k.plan,
                trace: o.trace,
            };
            let detail = format!("{} (calls of the service: {:?})", k.what, o.calls);
            violations.push((write_replay(root, &r, &format!("{prop}-{}", k.name)), k.name.to_string(), detail));
        }
    }

    found.sort_by_key(|f| (f.0, f.1.clone()));
    let mut kinds: HashSet<String> = HashSet::new();
    for (i, class, detail) in &found {
        if kinds.contains(class) || kinds.len() >= 3 {
            continue;
        }
        let plan = gen::plan(prop, seed, *i, thorough);
        match report(prop, class, detail, seed, *i, plan, &dir, root) {
            Some(path) => {
                kinds.insert(class.clone());
                violations.push((path, class.clone(), detail.clone()));
            }
            None => println!("run {i}: {class} did not reproduce in a process of its own: {detail}"),
        }
    }
    let _ = std::fs::remove_dir_all(&dir);

    let wall = t0.elapsed().as_secs_f64();
    let per_hour = (sum.runs as f64 / search.as_secs_f64() * 3600.0) as u64;
    let world = match gen::plan(prop, seed, 0, thorough).world {
        World::A(_) => "A",
        World::B(_) => "B",
        World::C(_) => "C",
    };
    let evidence = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum.runs,
            "distinct_nontrivial": shapes.len(),
            "rule": rule(world),
            "samples": sum.samples.iter().take(3).collect::<Vec<_>>(),
            "runs_and_seeds_per_hour": per_hour,
            "simulated_seconds": sum.sim_ms / 1000,
            "scheduling_steps": sum.steps,
            "history_events": sum.events,
            "faults_injected": sum.faults,
            "probes_hit": sum.probes,
            "violations_of_other_properties_seen": sum.others,
            "runs_executed_twice": sum.twice,
            "runs_that_differed_the_second_time": sum.diverged,
            "known_findings_seen": listed,
            "worker_processes": n,
            "stopped_at_time_limit": truncated,
            "components": components(world),
        },
        "assumptions": assumptions(world),
        "wall_s": wall,
        "violations": violations.len(),
    });
    let ev = root.join("evidence");
    std::fs::create_dir_all(&ev).expect("evidence directory");
    std::fs::write(ev.join(format!("{prop}.json")), serde_json::to_string_pretty(&evidence).unwrap()).expect("evidence");

    println!(
        "{} runs, {} distinct and non-trivial, {} s simulated, {:.1} s, {} runs per hour",
        sum.runs,
        shapes.len(),
        sum.sim_ms / 1000,
        wall,
        per_hour
    );
    if !sum.diverged.is_empty() {
        println!("not deterministic: runs {:?}", sum.diverged);
    }
    for h in harness.iter().take(5) {
        println!("harness error: {h}");
    }
    for (path, class, detail) in &violations {
        println!("{class}: {}", detail.chars().take(600).collect::<String>());
        println!("VIOLATION property={prop} replay={}", path.display());
    }
    if !violations.is_empty() {
        1
    } else if !harness.is_empty() || (sum.runs == 0 && !truncated) {
        2
    } else {
        0
    }
}

fn merge(a: &mut Summary, b: Summary) {
    a.runs += b.runs;
    a.twice += b.twice;
    a.diverged.extend(b.diverged);
    a.steps += b.steps;
    a.events += b.events;
    a.sim_ms += b.sim_ms;
    for (k, n) in b.faults {
        *a.faults.entry(k).or_default() += n;
    }
    for (k, n) in b.probes {
        *a.probes.entry(k).or_default() += n;
    }
    for (k, n) in b.others {
        *a.others.entry(k).or_default() += n;
    }
    a.samples.extend(b.samples);
}

/// Confirms a violation in a process of its own, minimises it and writes the replay file.
#[allow(clippy::too_many_arguments)]
fn report(prop: &str, class: &str, detail: &str, seed: u64, run: u64, plan: Plan, dir: &Path, root: &Path) -> Option<PathBuf> {
    let has = |o: &Outcome| o.viols.iter().any(|v| v.0 == class);
    if !has(&run_apart(dir, &plan, false)) {
        return None;
    }
    let t = Instant::now();
    let (small, tried) = minimise(&plan, |p| {
        if t.elapsed() > Duration::from_secs(if class == "stuck" { 200 } else { 45 }) {
            return None;
        }
        Some(has(&run_apart(dir, p, false)))
    });
    let o = run_apart(dir, &small, true);
    let detail = o.viols.iter().find(|v| v.0 == class).map_or(detail.to_string(), |v| v.1.clone());
    let r = Replay {
        property: prop.into(),
        class: class.into(),
        detail,
        verif_seed: seed,
        run,
        hash: o.hash,
        minimised: format!("{tried} smaller plans were tried"),
        plan: small,
        trace: o.trace,
    };
    Some(write_replay(root, &r, &format!("{prop}-{class}-seed{seed}-run{run}")))
}

fn write_replay(root: &Path, r: &Replay, name: &str) -> PathBuf {
    let dir = root.join("replays");
    std::fs::create_dir_all(&dir).expect("replay directory");
    let path = dir.join(format!("{name}.json"));
    std::fs::write(&path, serde_json::to_string_pretty(r).unwrap()).expect("replay file");
    path
}

pub fn replay(file: &str) -> i32 {
    let r: Replay = match std::fs::read(file).map(|b| serde_json::from_slice(&b)) {
        Ok(Ok(r)) => r,
        e => {
            println!("cannot read {file}: {:?}", e.map(|e| e.err()));
            return 2;
        }
    };
    let dir = std::env::temp_dir().join(format!("spopsim-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let o = run_apart(&dir, &r.plan, true);
    let _ = std::fs::remove_dir_all(&dir);
    for l in &o.trace {
        println!("{}", l.chars().take(200).collect::<String>());
    }
    if let Some(name) = r.class.strip_prefix("probe ") {
        if known::probes(&r.property).iter().any(|k| k.name == name && k.right == o.calls) {
            println!("{} did not happen", r.class);
            return 0;
        }
        println!("calls of the service: {:?}", o.calls);
        println!("VIOLATION property={} replay={file}", r.property);
        return 1;
    }
    for v in &o.viols {
        println!("{}: {}", v.0, v.1);
    }
    if o.viols.iter().any(|v| v.0 == r.class) {
        println!("the history is {} the recorded one", if o.hash == r.hash { "exactly" } else { "NOT" });
        println!("VIOLATION property={} replay={file}", r.property);
        1
    } else {
        println!("{} did not happen", r.class);
        0
    }
}

fn rule(world: &str) -> String {
    let distinct = match world {
        "A" | "C" => {
            "distinct: by the sequence of all events of the history (connection, kind of event: accepts, reads, writes, calls, replies, closes) without times and contents"
        }
        _ => "distinct: by the interleaving, that is the sequence of all scheduling points with the thread that ran",
    };
    format!(
        "every run is a plan (workload, configuration, schedule seed, faults) drawn from VERIF_SEED, the property and the run's index; {distinct}; non-trivial: more than 3 events and a fault injected or more than 10 scheduling steps"
    )
}

fn components(world: &str) -> Value {
    let real = match world {
        "A" => json!([
            "haproxy-spoa (all of it: accept loop, connections, state machine, runtime) and haproxy-spop, from /repo, unmodified",
            "tokio tasks, timers, select!, channels, tokio-util (cancellation, task tracking), tower, bytes"
        ]),
        "B" => json!([
            "haproxy-spoa::runtime (Dispatcher, Processor, Messages, Acker) and haproxy-spop::Reassembly, from /repo, unmodified",
            "tokio mpsc and oneshot channels, dashmap tables: their code runs, with a scheduling point at every operation"
        ]),
        _ => json!(["haproxy-spop Codec, BufCodec, Framer and all encoders and decoders, from /repo, unmodified", "tokio tasks, timers and I/O utilities, bytes"]),
    };
    let stub = match world {
        "A" => json!([
            "clock (tokio's paused clock and clock_gettime)",
            "choice of the task that runs next (tokio's current-thread scheduler asks the simulator)",
            "sockets: TcpListener and TcpStream are backed by simulated streams",
            "getrandom",
            "services, factory and peers (workload)"
        ]),
        "B" => json!(["threads: real ones, run one at a time by the simulator's scheduler; futexes and parking are simulated", "executor: a small block_on per thread", "clock, getrandom"]),
        _ => json!(["clock, choice of the next task, getrandom", "the byte stream between writer and reader"]),
    };
    json!({"real_code": real, "stub_or_simulated": stub})
}

fn assumptions(world: &str) -> Value {
    match world {
        "A" => json!([
            "most runs interleave tokio's tasks at their await points on one thread; a part of the runs (of C01, C02, C06, C07, C08 and C19) serves connections on several threads with shared state switched at its locks and allocations only",
            "scheduling costs no simulated time: replies are due within a few simulated milliseconds",
            "the reference wire format in sim/src/spop.rs says what bytes mean; where the protocol leaves it open nothing is checked"
        ]),
        "B" => json!([
            "sequentially consistent interleavings at the granularity of channel and table operations (the internals of tokio channels and of dashmap are trusted, except for their locking)",
            "the workload completes every request it starts"
        ]),
        _ => json!(["the reference wire format in sim/src/spop.rs says what bytes mean; where the protocol leaves it open nothing is checked"]),
    }
}
