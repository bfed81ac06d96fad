//! The converter as a process under the simulated operating system of `shim/shim.c`.

use crate::choice::Src;
use crate::cx::{violation, Check, Cx};
use crate::ev;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// What the simulated system does with a path or a standard stream.
#[derive(Clone, Default)]
pub struct Rule {
    pub open_err: i32,
    pub open_eintr: usize,
    pub stat_err: i32,
    pub opendir_err: i32,
    pub readdir: Option<(usize, i32)>,
    pub shuffle: u64,
    pub unknown_type: bool,
    /// Position, error (0: end of file, nothing accepted), times (0: for ever).
    pub fail: Option<(usize, i32, usize)>,
    pub ops: Vec<i64>,
}

#[derive(Clone, Default)]
pub struct Sched {
    pub mode: usize,
    pub seed: u64,
    pub patience: usize,
    pub limit: usize,
    pub alloc_every: usize,
    pub spurious: usize,
    pub cpus: usize,
    pub pct: Vec<usize>,
    pub by_env: bool,
}

pub struct Plan {
    pub sched: Sched,
    pub rules: BTreeMap<String, Rule>,
}

impl Plan {
    pub fn rule(&mut self, path: &str) -> &mut Rule {
        self.rules.entry(path.to_string()).or_default()
    }

    pub fn text(&self) -> String {
        let s = &self.sched;
        let mut out = format!(
            "sched {} {} {} {} {} {} {}\n",
            s.mode, s.seed, s.patience, s.limit, s.alloc_every, s.spurious, s.cpus
        );
        if !s.pct.is_empty() {
            out.push_str("pct");
            for p in &s.pct {
                let _ = write!(out, " {p}");
            }
            out.push('\n');
        }
        for (path, r) in &self.rules {
            let _ = writeln!(out, "path {path}");
            if r.open_err != 0 || r.open_eintr != 0 {
                let _ = writeln!(out, "open {} {}", r.open_err, r.open_eintr);
            }
            if r.stat_err != 0 {
                let _ = writeln!(out, "stat {}", r.stat_err);
            }
            if r.opendir_err != 0 {
                let _ = writeln!(out, "opendir {}", r.opendir_err);
            }
            if let Some((n, e)) = r.readdir {
                let _ = writeln!(out, "readdir {n} {e}");
            }
            if r.shuffle != 0 || r.unknown_type {
                let _ = writeln!(out, "shuffle {} {}", r.shuffle, i32::from(r.unknown_type));
            }
            if let Some((at, e, times)) = r.fail {
                let _ = writeln!(out, "fail {at} {e} {times}");
            }
            if !r.ops.is_empty() {
                out.push_str("ops");
                for o in &r.ops {
                    let _ = write!(out, " {o}");
                }
                out.push('\n');
            }
        }
        out
    }
}

/// A tree of files, relative to the working directory of the converter.
#[derive(Clone)]
pub enum Entry {
    File(Vec<u8>),
    Dir,
    /// A symbolic link with its target.
    Link(String),
}

pub struct Ended {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: String,
    pub log: Vec<String>,
}

impl Ended {
    pub fn logged(&self, what: &str) -> bool {
        self.log.iter().any(|l| l.strip_prefix("fault ").is_some_and(|l| l.starts_with(what)))
    }
}

fn tool(name: &str) -> PathBuf {
    let exe = std::env::current_exe().unwrap_or_default();
    exe.parent().unwrap_or(Path::new(".")).join(name)
}

/// The directory below which all scratch files of the workers are.
pub fn scratch_root(pid: u32) -> PathBuf {
    std::env::temp_dir().join(format!("sim-cli-{pid}"))
}

struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Scratch {
        let base = match std::env::var_os("SIM_SCRATCH") {
            Some(d) => PathBuf::from(d),
            None => scratch_root(std::process::id()),
        };
        Scratch(base.join(format!("w{}", std::process::id())))
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
        if std::env::var_os("SIM_SCRATCH").is_none() {
            let _ = std::fs::remove_dir(scratch_root(std::process::id()));
        }
    }
}

fn memory(inherit: bool) -> std::fs::File {
    unsafe {
        let fd = libc::memfd_create(c"sim".as_ptr(), if inherit { 0 } else { libc::MFD_CLOEXEC });
        assert!(fd >= 0, "memfd");
        std::fs::File::from_raw_fd(fd)
    }
}

fn content(f: &mut std::fs::File) -> Vec<u8> {
    let mut out = vec![];
    let _ = f.seek(SeekFrom::Start(0));
    let _ = f.read_to_end(&mut out);
    out
}

const LOG: u64 = 8 << 20;

/// Runs the converter. `Err` if the simulation itself could not be set up.
pub fn convert(args: &[String], tree: &BTreeMap<String, Entry>, stdin: &[u8], plan: &Plan) -> Result<Ended, String> {
    let fail = |what: &str, e: std::io::Error| format!("{what}: {e}");
    let scratch = Scratch::new();
    let dir = &scratch.0;
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).map_err(|e| fail("scratch", e))?;
    // Parents sort before their children.
    for (path, e) in tree {
        let p = dir.join(path);
        match e {
            Entry::File(b) => std::fs::write(&p, b).map_err(|e| fail(path, e))?,
            Entry::Dir => std::fs::create_dir(&p).map_err(|e| fail(path, e))?,
            Entry::Link(t) => std::os::unix::fs::symlink(t, &p).map_err(|e| fail(path, e))?,
        }
    }
    let mut planned = memory(true);
    planned.write_all(plan.text().as_bytes()).map_err(|e| fail("plan", e))?;
    planned.seek(SeekFrom::Start(0)).map_err(|e| fail("plan", e))?;
    let log = memory(true);
    log.set_len(LOG).map_err(|e| fail("log", e))?;
    let mut input = memory(false);
    input.write_all(stdin).map_err(|e| fail("stdin", e))?;
    input.seek(SeekFrom::Start(0)).map_err(|e| fail("stdin", e))?;
    let (mut out, mut err) = (memory(false), memory(false));
    let dup = |f: &std::fs::File| f.try_clone().map(Stdio::from).map_err(|e| fail("streams", e));
    let mut cmd = Command::new(tool("hcl2json"));
    cmd.args(args)
        .current_dir(dir)
        .env_clear()
        .env("LD_PRELOAD", tool("libsimshim.so"))
        .env("SIM_PLAN", planned.as_raw_fd().to_string())
        .env("SIM_LOG", log.as_raw_fd().to_string())
        .stdin(dup(&input)?)
        .stdout(dup(&out)?)
        .stderr(dup(&err)?);
    if plan.sched.by_env {
        cmd.env("RAYON_NUM_THREADS", plan.sched.cpus.to_string());
    }
    let status = cmd.status().map_err(|e| fail("hcl2json", e))?;
    let text = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), LOG as usize, libc::PROT_READ, libc::MAP_SHARED, log.as_raw_fd(), 0);
        if p == libc::MAP_FAILED {
            return Err("log".into());
        }
        let len = (*p.cast::<u64>()).min(LOG - 8) as usize;
        let bytes = std::slice::from_raw_parts(p.cast::<u8>().add(8), len);
        let text = String::from_utf8_lossy(bytes).into_owned();
        libc::munmap(p, LOG as usize);
        text
    };
    let ended = Ended {
        code: status.code(),
        signal: status.signal(),
        stdout: content(&mut out),
        stderr: String::from_utf8_lossy(&content(&mut err)).into_owned(),
        log: text.lines().map(str::to_string).collect(),
    };
    if ended.code == Some(99) || ended.log.is_empty() {
        return Err(format!("the simulated system did not start: {:?} {}", status, ended.stderr));
    }
    Ok(ended)
}

/// Runs the converter and records what happened as events of the run.
pub fn observe(cx: &mut Cx, args: &[String], tree: &BTreeMap<String, Entry>, stdin: &[u8], plan: &Plan) -> Check<Ended> {
    ev!(cx, "hcl2json {}", args.join(" "));
    for (p, e) in tree {
        match e {
            Entry::File(b) => ev!(cx, "file {p} {} {:?}", b.len(), String::from_utf8_lossy(&b[..b.len().min(400)])),
            Entry::Dir => ev!(cx, "directory {p}"),
            Entry::Link(t) => ev!(cx, "link {p} to {t}"),
        }
    }
    if !stdin.is_empty() {
        ev!(cx, "stdin {} {:?}", stdin.len(), String::from_utf8_lossy(&stdin[..stdin.len().min(400)]));
    }
    for l in plan.text().lines() {
        ev!(cx, "plan {l}");
    }
    let ended = match convert(args, tree, stdin, plan) {
        Ok(e) => e,
        Err(e) => panic!("simulator: {e}"),
    };
    for l in &ended.log {
        ev!(cx, "  {l}");
        let mut words = l.split(' ');
        if words.next() == Some("fault") {
            if let Some(k) = words.next().and_then(kind) {
                cx.fault(k);
            }
        }
        if l.ends_with("times out") {
            cx.fault("timeout");
        }
    }
    if let Some(l) = ended.log.last() {
        let num = |w: &str| l.split(' ').skip_while(|x| *x != w).nth(1).and_then(|n| n.parse().ok()).unwrap_or(0u64);
        *cx.probes.entry("thread_switches").or_insert(0) += num("switches");
        *cx.probes.entry("preemptions").or_insert(0) += num("preempted");
    }
    ev!(
        cx,
        "ends {:?} {:?}, stdout {} bytes {:?}, stderr {:?}",
        ended.code,
        ended.signal,
        ended.stdout.len(),
        String::from_utf8_lossy(&ended.stdout[..ended.stdout.len().min(400)]),
        ended.stderr
    );
    let hung = ended.signal == Some(libc::SIGALRM);
    match ended.code {
        Some(97) => return violation("hang", "all threads of the converter wait for each other"),
        Some(98) => return violation("hang", "the converter does not end"),
        _ if hung => return violation("hang", "the converter does not end within 20 seconds"),
        _ => {}
    }
    Ok(ended)
}

fn kind(w: &str) -> Option<&'static str> {
    const KINDS: &[&str] = &[
        "spurious_wakeup",
        "open_interrupted",
        "open_error",
        "early_eof",
        "read_error",
        "read_interrupted",
        "stdout_accepts_nothing",
        "stderr_accepts_nothing",
        "stdout_error",
        "stderr_error",
        "stdout_interrupted",
        "stderr_interrupted",
        "short_write",
        "stat_error",
        "opendir_error",
        "readdir_error",
    ];
    KINDS.iter().copied().find(|k| *k == w)
}

/// The order in which a directory is listed; the same computation as in the shim.
pub fn listing(names: &[String], shuffle: u64) -> Vec<String> {
    let mut e: Vec<String> = names.to_vec();
    e.push(".".into());
    e.push("..".into());
    e.sort();
    let mut s = shuffle;
    if s != 0 {
        for a in (1..e.len()).rev() {
            s = s.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
            let b = (s >> 33) as usize % (a + 1);
            e.swap(a, b);
        }
    }
    e
}

// ---------------------------------------------------------------------------------------------
// Schedules and splits

pub fn schedule(src: &mut Src, threads: bool) -> Sched {
    let cpus = if threads { *src.pick(&[2, 1, 3, 4, 8, 2, 3]) } else { 1 };
    let mut s = Sched {
        cpus,
        by_env: !src.chance(1, 8),
        mode: src.weighted(&[5, 3, 1]),
        seed: src.bits(),
        patience: *src.pick(&[4, 1, 2, 16, 64]),
        limit: *src.pick(&[0, 20, 100, 1000, 100_000, 100_000, 100_000, 100_000]),
        alloc_every: *src.pick(&[0, 1000, 200, 40, 8]),
        spurious: *src.pick(&[0, 0, 1, 5]),
        pct: vec![],
    };
    if s.mode > 0 {
        for _ in 0..src.range(1, 5) {
            let within = *src.pick(&[200, 2000]);
            s.pct.push(src.below(within));
        }
    }
    s
}

/// Sizes of successive reads or writes, some of them interrupted.
pub fn splits(src: &mut Src, len: usize) -> Vec<i64> {
    // Large files are not read byte by byte.
    let scale = 1 + len as i64 / 2000;
    let mut v = sizes(src);
    v.iter_mut().filter(|o| **o > 0).for_each(|o| *o *= scale);
    v
}

fn sizes(src: &mut Src) -> Vec<i64> {
    match src.below(5) {
        0 => vec![],
        1 => vec![*src.pick(&[1, 2, 3, 7, 100, 4096, 8191])],
        _ => {
            let n = src.range(1, 8);
            let mut v: Vec<i64> = (0..n)
                .map(|_| match src.below(4) {
                    0 => -1,
                    1 => src.range(1, 16) as i64,
                    2 => src.range(1, 1024) as i64,
                    _ => src.range(1, 9000) as i64,
                })
                .collect();
            if v.iter().all(|o| *o <= 0) {
                v.push(src.range(1, 64) as i64);
            }
            v
        }
    }
}
