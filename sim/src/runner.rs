//! Runs a property: seeded runs over worker processes, minimisation, replay files, evidence.

use crate::choice::{seed_of, Src};
use crate::cx::{Check, Cx, Violation};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Cx) -> Check,
    /// Runs of the quick and thorough tier.
    pub runs: (u64, u64),
    /// Short description of how a run is made and what makes it count.
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stubs: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// Recorded defects that are probed on every run: what fails, and whether it still does.
    pub known: fn() -> Vec<(String, bool)>,
    pub stack_mb: usize,
    /// A run that takes longer than this is a hang.
    pub hang_s: u64,
    pub workers: usize,
}

pub fn no_known() -> Vec<(String, bool)> {
    Vec::new()
}

// Hash seeds are a source of nondeterminism: the random bytes of the process are fixed.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        *buf.add(i) = (i as u8).wrapping_mul(37).wrapping_add(11);
    }
    len as isize
}

struct Outcome {
    violation: Option<Violation>,
    cx: Cx,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

fn silence_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
}

/// Executes one run in a fresh thread, so that no thread-local state is carried over.
fn execute(prop: &'static Prop, src: Src, tracing: bool, thorough: bool) -> Outcome {
    let run = prop.run;
    let handle = std::thread::Builder::new()
        .stack_size(prop.stack_mb << 20)
        .spawn(move || {
            let mut cx = Cx::new(src, tracing);
            cx.thorough = thorough;
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&mut cx)));
            let violation = match res {
                Ok(Ok(())) => None,
                Ok(Err(v)) => Some(v),
                Err(_) => Some(Violation {
                    class: "panic".into(),
                    msg: format!("panicked: {}", last_panic()),
                }),
            };
            Outcome { violation, cx }
        })
        .expect("spawn");
    handle.join().unwrap_or_else(|_| std::process::abort())
}

fn replay_json(
    prop: &Prop,
    seed: u64,
    run: u64,
    choices: Option<&[u32]>,
    v: &Violation,
    trace: &[String],
) -> J {
    json!({
        "property": prop.id,
        "seed": seed,
        "run": run,
        "class": v.class,
        "message": v.msg,
        "choices": choices,
        "trace": trace,
    })
}

// ---------------------------------------------------------------------------------------------
// Minimisation

/// Shrinks a failing choice sequence while the violation class stays the same.
fn minimise(
    mut best: Vec<u32>,
    deadline: Instant,
    mut fails: impl FnMut(&[u32]) -> Option<Vec<u32>>,
) -> Vec<u32> {
    fn better(a: &[u32], b: &[u32]) -> bool {
        let sum = |v: &[u32]| v.iter().map(|x| u64::from(*x)).sum::<u64>();
        (a.len(), sum(a)) < (b.len(), sum(b))
    }
    let mut progress = true;
    while progress && Instant::now() < deadline {
        progress = false;
        // Cut the tail.
        let mut n = best.len() / 2;
        while n > 0 && Instant::now() < deadline {
            if n <= best.len() {
                if let Some(v) = fails(&best[..best.len() - n]) {
                    if better(&v, &best) {
                        best = v;
                        progress = true;
                        continue;
                    }
                }
            }
            n /= 2;
        }
        // Delete and zero chunks.
        for zero in [false, true] {
            let mut size = (best.len() / 2).clamp(1, 256);
            loop {
                let mut i = 0;
                while i < best.len() && Instant::now() < deadline {
                    let end = (i + size).min(best.len());
                    let mut cand = best.clone();
                    if zero {
                        if cand[i..end].iter().all(|c| *c == 0) {
                            i += size;
                            continue;
                        }
                        cand[i..end].iter_mut().for_each(|c| *c = 0);
                    } else {
                        cand.drain(i..end);
                    }
                    match fails(&cand) {
                        Some(v) if better(&v, &best) => {
                            best = v;
                            progress = true;
                        }
                        _ => i += size,
                    }
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
        }
        // Lower single choices.
        let mut i = 0;
        while i < best.len() && Instant::now() < deadline {
            let c = best[i];
            for lower in [c / 2, c.saturating_sub(1)] {
                if i >= best.len() || lower >= best[i] {
                    continue;
                }
                let mut cand = best.clone();
                cand[i] = lower;
                if let Some(v) = fails(&cand) {
                    if better(&v, &best) {
                        best = v;
                        progress = true;
                    }
                }
            }
            i += 1;
        }
    }
    best
}

// ---------------------------------------------------------------------------------------------
// Worker

fn limit_memory() {
    let bytes: u64 = 4 << 30;
    unsafe {
        let lim = libc::rlimit {
            rlim_cur: bytes,
            rlim_max: bytes,
        };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
}

fn worker(
    prop: &'static Prop,
    seed: u64,
    first: u64,
    stride: u64,
    runs: u64,
    wall_s: u64,
    thorough: bool,
) -> i32 {
    silence_panics();
    limit_memory();
    let start = Instant::now();
    let out = std::io::stdout();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let (mut done, mut steps, mut nontrivial) = (0u64, 0u64, 0u64);
    let mut sig_file = Vec::new();
    let mut samples: Vec<J> = Vec::new();
    let mut run = first;
    while run < runs && start.elapsed().as_secs() < wall_s {
        let _ = writeln!(&out, "S {run}");
        let tracing = first == 0 && samples.len() < 3;
        let o = execute(
            prop,
            Src::gen(seed_of(seed, prop.id, run)),
            tracing,
            thorough,
        );
        done += 1;
        steps += o.cx.steps;
        if o.cx.nontrivial {
            nontrivial += 1;
            if sigs.insert(o.cx.sig) {
                sig_file.extend_from_slice(&o.cx.sig.to_le_bytes());
            }
            if tracing {
                let t = o.cx.trace.as_ref().unwrap();
                let short: Vec<String> = t
                    .iter()
                    .take(40)
                    .map(|s| s.chars().take(300).collect())
                    .collect();
                samples.push(json!({"run": run, "events": short, "events_total": t.len()}));
            }
        }
        for (k, n) in &o.cx.faults {
            *faults.entry((*k).to_string()).or_default() += n;
        }
        for (k, n) in &o.cx.probes {
            *probes.entry((*k).to_string()).or_default() += n;
        }
        // Every now and then a run is repeated: the same seed must be the same execution.
        if done % 97 == 1 {
            let again = execute(prop, Src::gen(seed_of(seed, prop.id, run)), false, thorough);
            if again.cx.sig != o.cx.sig || again.violation.is_some() != o.violation.is_some() {
                let _ = writeln!(&out, "N {run}");
            }
        }
        if let Some(v) = o.violation {
            let first_rec = o.cx.src.rec.clone();
            let full = execute(prop, Src::replay(first_rec.clone()), true, thorough);
            let reproduced = full
                .violation
                .as_ref()
                .map(|w| w.class == v.class)
                .unwrap_or(false);
            if !reproduced {
                let _ = writeln!(&out, "N {run}");
            }
            let raw = replay_json(
                prop,
                seed,
                run,
                Some(&first_rec),
                &v,
                full.cx.trace.as_deref().unwrap_or(&[]),
            );
            let _ = writeln!(&out, "V {raw}");
            let deadline = Instant::now() + Duration::from_secs(if thorough { 60 } else { 20 });
            let best = minimise(first_rec, deadline, |c| {
                let o = execute(prop, Src::replay(c.to_vec()), false, thorough);
                o.violation
                    .filter(|w| w.class == v.class)
                    .map(|_| o.cx.src.rec)
            });
            let o = execute(prop, Src::replay(best.clone()), true, thorough);
            if let Some(v) = &o.violation {
                let j = replay_json(
                    prop,
                    seed,
                    run,
                    Some(&best),
                    v,
                    o.cx.trace.as_deref().unwrap_or(&[]),
                );
                let _ = writeln!(&out, "M {j}");
            }
            break;
        }
        run += stride;
    }
    let sig_hex: String = sig_file.iter().map(|b| format!("{b:02x}")).collect();
    let _ = writeln!(
        &out,
        "E {}",
        json!({"done": done, "steps": steps, "nontrivial": nontrivial, "faults": faults, "probes": probes,
               "sigs": sig_hex, "samples": samples})
    );
    0
}

// ---------------------------------------------------------------------------------------------
// Parent

enum Msg {
    Line(usize, String),
    End(usize),
}

struct Opts {
    tier: String,
    seed: u64,
    runs: Option<u64>,
    wall: Option<u64>,
    root: PathBuf,
}

fn self_cmd() -> Command {
    Command::new(std::env::current_exe().expect("own path"))
}

fn run(prop: &'static Prop, o: &Opts) -> i32 {
    let start = Instant::now();
    let thorough = o.tier == "thorough";
    let runs = o
        .runs
        .unwrap_or(if thorough { prop.runs.1 } else { prop.runs.0 });
    let wall = o.wall.unwrap_or(if thorough { 600 } else { 120 });
    let n = prop.workers;

    for (what, fails) in (prop.known)() {
        if fails {
            println!("KNOWN-FINDING: property={} {}", prop.id, what);
        } else {
            println!("note: recorded finding no longer fails: {what}");
        }
    }

    let (tx, rx) = mpsc::channel();
    let mut children = Vec::new();
    let scratch = crate::cli::scratch_root(std::process::id());
    for w in 0..n {
        let mut child = self_cmd()
            .args(["worker", prop.id, "--tier", &o.tier])
            .args([
                "--seed",
                &o.seed.to_string(),
                "--first",
                &w.to_string(),
                "--stride",
                &n.to_string(),
            ])
            .args(["--runs", &runs.to_string(), "--wall", &wall.to_string()])
            .env("SIM_SCRATCH", &scratch)
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn worker");
        let pipe = child.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for line in BufReader::new(pipe).split(b'\n') {
                let Ok(line) = line else { break };
                if tx
                    .send(Msg::Line(w, String::from_utf8_lossy(&line).into_owned()))
                    .is_err()
                {
                    return;
                }
            }
            let _ = tx.send(Msg::End(w));
        });
        children.push(child);
    }
    drop(tx);

    let mut current: Vec<Option<u64>> = vec![None; n];
    let mut last: Vec<Instant> = vec![Instant::now(); n];
    let mut minimising = vec![false; n];
    let mut ended = vec![false; n];
    let mut reported = vec![false; n];
    let mut found: BTreeMap<u64, (J, Option<J>)> = BTreeMap::new();
    let mut crashes: Vec<(u64, String)> = Vec::new();
    let mut nondet: Vec<u64> = Vec::new();
    let mut sigs: HashSet<[u8; 8]> = HashSet::new();
    let (mut done, mut steps, mut nontrivial) = (0u64, 0u64, 0u64);
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<J> = Vec::new();

    while ended.iter().any(|e| !e) {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Line(w, line)) => {
                last[w] = Instant::now();
                let (tag, rest) = line.split_at(line.len().min(2));
                match tag.trim() {
                    "S" => current[w] = rest.trim().parse().ok(),
                    "N" => nondet.extend(rest.trim().parse::<u64>()),
                    "V" => {
                        minimising[w] = true;
                        if let Ok(j) = serde_json::from_str::<J>(rest) {
                            found.insert(j["run"].as_u64().unwrap_or(0), (j, None));
                        }
                    }
                    "M" => {
                        if let Ok(j) = serde_json::from_str::<J>(rest) {
                            if let Some(f) = found.get_mut(&j["run"].as_u64().unwrap_or(0)) {
                                f.1 = Some(j);
                            }
                        }
                    }
                    "E" => {
                        reported[w] = true;
                        current[w] = None;
                        if let Ok(j) = serde_json::from_str::<J>(rest) {
                            done += j["done"].as_u64().unwrap_or(0);
                            steps += j["steps"].as_u64().unwrap_or(0);
                            nontrivial += j["nontrivial"].as_u64().unwrap_or(0);
                            for (map, key) in [(&mut faults, "faults"), (&mut probes, "probes")] {
                                if let Some(m) = j[key].as_object() {
                                    for (k, v) in m {
                                        *map.entry(k.clone()).or_default() +=
                                            v.as_u64().unwrap_or(0);
                                    }
                                }
                            }
                            let hex = j["sigs"].as_str().unwrap_or("").as_bytes().to_vec();
                            for c in hex.chunks_exact(16) {
                                let mut b = [0u8; 8];
                                for (i, p) in c.chunks_exact(2).enumerate() {
                                    b[i] = u8::from_str_radix(std::str::from_utf8(p).unwrap(), 16)
                                        .unwrap_or(0);
                                }
                                sigs.insert(b);
                            }
                            if let Some(s) = j["samples"].as_array() {
                                samples.extend(s.iter().cloned());
                            }
                        }
                    }
                    _ => {}
                }
            }
            Ok(Msg::End(w)) => {
                let status = children[w].wait().ok();
                ended[w] = true;
                if !reported[w] && !minimising[w] {
                    if let Some(r) = current[w] {
                        crashes.push((r, format!("the process died: {status:?}")));
                    } else {
                        crashes.push((w as u64, format!("the worker did not start: {status:?}")));
                    }
                }
            }
            Err(_) => {}
        }
        for w in 0..n {
            if !ended[w]
                && !minimising[w]
                && current[w].is_some()
                && last[w].elapsed().as_secs() > prop.hang_s
            {
                crashes.push((
                    current[w].unwrap(),
                    format!("no progress for {} seconds", prop.hang_s),
                ));
                reported[w] = true;
                let _ = children[w].kill();
            }
        }
        if (!found.is_empty() || !crashes.is_empty()) && start.elapsed().as_secs() > wall + 60 {
            for c in &mut children {
                let _ = c.kill();
            }
        }
        // A violation ends the search; runs in progress are not waited for once it is minimised.
        if found.values().any(|f| f.1.is_some()) || !crashes.is_empty() {
            for w in 0..n {
                if !minimising[w] && !ended[w] && !reported[w] {
                    reported[w] = true;
                    let _ = children[w].kill();
                }
            }
        }
    }

    let _ = std::fs::remove_dir_all(&scratch);
    let replay_dir = o.root.join("replays");
    let mut status = 0;
    let mut violations = 0;
    let report = |j: &J| {
        let _ = std::fs::create_dir_all(&replay_dir);
        let path = replay_dir.join(format!("{}-{}-{}.json", prop.id, o.seed, j["run"]));
        let _ = std::fs::write(&path, serde_json::to_string_pretty(j).unwrap());
        path
    };
    if let Some((run, (raw, min))) = found.iter().next() {
        violations += 1;
        let j = min.as_ref().unwrap_or(raw);
        let mut path = report(j);
        if !reproduces(&path) && min.is_some() {
            path = report(raw);
        }
        let ok = reproduces(&path);
        println!(
            "run {run}: {}: {}",
            j["class"].as_str().unwrap_or(""),
            j["message"].as_str().unwrap_or("")
        );
        if !ok {
            println!("note: the replay did not reproduce in a fresh process");
        }
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        status = 1;
    } else if let Some((run, why)) = crashes.iter().min() {
        violations += 1;
        let v = Violation {
            class: "crash".into(),
            msg: why.clone(),
        };
        let choices = crash_choices(prop, o, *run, why.contains("no progress"));
        let j = replay_json(prop, o.seed, *run, choices.as_deref(), &v, &[]);
        let path = report(&j);
        let ok = reproduces(&path);
        println!("run {run}: crash: {why}");
        if !ok {
            println!("note: the replay did not reproduce in a fresh process");
        }
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        status = 1;
    }
    for r in &nondet {
        println!("note: run {r} was not deterministic");
    }

    let wall_s = start.elapsed().as_secs_f64();
    let evidence = json!({
        "property": prop.id,
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": sigs.len(),
            "rule": prop.rule,
            "samples": samples,
            "nontrivial_runs": nontrivial,
            "simulated_steps": steps,
            "simulated_time": "logical: one step per event; the code under test reads no clock",
            "runs_per_hour": (done as f64 / wall_s.max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (done as f64 / wall_s.max(0.001) * 3600.0) as u64,
            "faults_injected": faults,
            "rare_conditions_hit": probes,
            "distinct_measure": "hash over the sequence of all events of a run (operations, callbacks, faults, results)",
            "nondeterministic_runs": nondet.len(),
            "components_real": prop.real,
            "components_stubbed": prop.stubs,
            "worker_processes": n,
        },
        "assumptions": prop.assumptions,
        "wall_s": wall_s,
        "violations": violations,
    });
    let dir = o.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let text = serde_json::to_string_pretty(&evidence).unwrap();
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", prop.id)), text + "\n") {
        println!("cannot write evidence: {e}");
        return 3;
    }
    println!(
        "{}: {} runs, {} distinct non-trivial, {} steps, {:.1} s{}",
        prop.id,
        done,
        sigs.len(),
        steps,
        wall_s,
        if status == 0 { ", no violation" } else { "" }
    );
    status
}

/// The choices of a run that does not survive, minimised over subprocesses.
fn crash_choices(prop: &'static Prop, o: &Opts, run: u64, hang: bool) -> Option<Vec<u32>> {
    let dir = std::env::temp_dir().join(format!("sim-crash-{}", std::process::id()));
    std::fs::create_dir_all(&dir).ok()?;
    let rec = dir.join("rec");
    let limit = Duration::from_secs(if hang { prop.hang_s } else { 20 });
    let mut cmd = self_cmd();
    cmd.args([
        "one",
        prop.id,
        "--tier",
        &o.tier,
        "--seed",
        &o.seed.to_string(),
        "--run",
        &run.to_string(),
    ]);
    cmd.arg("--sink").arg(&rec);
    let died = died(cmd, limit);
    let read = |rec: &Path| -> Option<Vec<u32>> {
        let bytes = std::fs::read(rec).ok()?;
        Some(
            bytes
                .chunks_exact(4)
                .map(|c| u32::from_le_bytes(c.try_into().unwrap()))
                .collect(),
        )
    };
    let mut res = if died { read(&rec) } else { None };
    if let (Some(first), false) = (&res, hang) {
        let deadline = Instant::now() + Duration::from_secs(40);
        let v = Violation {
            class: "crash".into(),
            msg: String::new(),
        };
        let file = dir.join("cand.json");
        let best = minimise(first.clone(), deadline, |c| {
            let j = replay_json(prop, o.seed, run, Some(c), &v, &[]);
            std::fs::write(&file, j.to_string()).ok()?;
            let mut cmd = self_cmd();
            cmd.arg("exec").arg(&file).arg("--sink").arg(&rec);
            if self::died(cmd, limit) {
                read(&rec)
            } else {
                None
            }
        });
        res = Some(best);
    }
    let _ = std::fs::remove_dir_all(&dir);
    res
}

/// Whether the process was killed by a signal or did not end in time.
fn died(mut cmd: Command, limit: Duration) -> bool {
    let Ok(mut child) = cmd
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
    else {
        return false;
    };
    let start = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(s)) => return s.code().is_none(),
            Ok(None) if start.elapsed() > limit => {
                let _ = child.kill();
                let _ = child.wait();
                return true;
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(5)),
            Err(_) => return false,
        }
    }
}

fn reproduces(path: &Path) -> bool {
    let out = self_cmd()
        .arg("replay")
        .arg(path)
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output();
    out.map(|o| o.status.code() == Some(1)).unwrap_or(false)
}

fn load(path: &str) -> Option<(&'static Prop, J)> {
    let mut text = String::new();
    std::fs::File::open(path)
        .ok()?
        .read_to_string(&mut text)
        .ok()?;
    let j: J = serde_json::from_str(&text).ok()?;
    let prop = crate::props::find(j["property"].as_str()?)?;
    Some((prop, j))
}

fn src_of(prop: &Prop, j: &J) -> Src {
    match j["choices"].as_array() {
        Some(c) => Src::replay(c.iter().map(|c| c.as_u64().unwrap_or(0) as u32).collect()),
        None => Src::gen(seed_of(
            j["seed"].as_u64().unwrap_or(0),
            prop.id,
            j["run"].as_u64().unwrap_or(0),
        )),
    }
}

/// Executes a replay file; exits 1 if the recorded violation occurs again.
fn replay(path: &str) -> i32 {
    let Some((prop, j)) = load(path) else {
        println!("cannot read {path}");
        return 2;
    };
    if j["class"] == "crash" {
        let mut cmd = self_cmd();
        cmd.arg("exec").arg(path);
        if died(cmd, Duration::from_secs(prop.hang_s + 5)) {
            println!("VIOLATION property={} replay={path}", prop.id);
            return 1;
        }
        println!("no crash");
        return 0;
    }
    silence_panics();
    limit_memory();
    let o = execute(prop, src_of(prop, &j), true, false);
    for line in o.cx.trace.as_deref().unwrap_or(&[]) {
        println!("  {line}");
    }
    match o.violation {
        Some(v) if j["class"].as_str() == Some(&v.class) => {
            println!("{}: {}", v.class, v.msg);
            println!("VIOLATION property={} replay={path}", prop.id);
            1
        }
        Some(v) => {
            println!("another violation: {}: {}", v.class, v.msg);
            0
        }
        None => {
            println!("no violation");
            0
        }
    }
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1))
        .cloned()
}

pub fn main(args: &[String]) -> i32 {
    let num = |name: &str, def: u64| arg(args, name).and_then(|v| v.parse().ok()).unwrap_or(def);
    let tier = arg(args, "--tier").unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let seed = num("--seed", 1);
    let cmd = args.first().map(String::as_str).unwrap_or("");
    let sink = arg(args, "--sink").and_then(|p| std::fs::File::create(p).ok());
    if cmd == "replay" || cmd == "exec" {
        let Some(path) = args.get(1) else { return 2 };
        if cmd == "replay" {
            return replay(path);
        }
        let Some((prop, j)) = load(path) else {
            return 2;
        };
        silence_panics();
        limit_memory();
        let mut src = src_of(prop, &j);
        src.sink = sink;
        execute(prop, src, false, thorough);
        return 0;
    }
    let Some(prop) = args.get(1).and_then(|id| crate::props::find(id)) else {
        println!("usage: sim run|worker|one PROPERTY | replay FILE");
        return 2;
    };
    match cmd {
        "run" => run(
            prop,
            &Opts {
                tier,
                seed,
                runs: arg(args, "--runs").and_then(|v| v.parse().ok()),
                wall: arg(args, "--wall").and_then(|v| v.parse().ok()),
                root: arg(args, "--root")
                    .map(PathBuf::from)
                    .unwrap_or_else(|| PathBuf::from(".")),
            },
        ),
        "worker" => worker(
            prop,
            seed,
            num("--first", 0),
            num("--stride", 1),
            num("--runs", 100),
            num("--wall", 60),
            thorough,
        ),
        "one" => {
            silence_panics();
            limit_memory();
            let mut src = Src::gen(seed_of(seed, prop.id, num("--run", 0)));
            src.sink = sink;
            let o = execute(prop, src, true, thorough);
            for line in o.cx.trace.as_deref().unwrap_or(&[]) {
                println!("  {line}");
            }
            println!("sig {:016x} steps {}", o.cx.sig, o.cx.steps);
            if let Some(v) = o.violation {
                println!("{}: {}", v.class, v.msg);
                return 1;
            }
            0
        }
        // Every run twice, in this process: prints the signatures, for comparison across processes.
        "sigs" => {
            silence_panics();
            for r in 0..num("--runs", 200) {
                let o = execute(prop, Src::gen(seed_of(seed, prop.id, r)), false, thorough);
                println!("{r} {:016x} {}", o.cx.sig, o.violation.is_some());
            }
            0
        }
        _ => 2,
    }
}
