//! C01, C02, C03: the converter under a simulated operating system.
//!
//! A run builds a tree of files, an invocation and a plan of what the system does, runs the real
//! binary and compares what it delivered with a model of the invocation: which files the arguments
//! select, in which order, which of them can be read, and the value each has on its own.

use crate::canon;
use crate::cli::{self, Entry, Plan, Rule};
use crate::cx::{violation, Check, Cx};
use crate::damage;
use crate::gen::{Cfg, G};
use crate::model::render_body;
use crate::runner::Prop;
use hcl::eval::Evaluate;
use serde_json::Value as J;
use std::collections::BTreeMap;

const REAL: &[&str] = &[
    "hcl2json (the whole binary, rebuilt from the working tree)",
    "rayon, walkdir, globset, clap, std",
    "hcl-rs, hcl-edit, hcl-primitives",
];
const STUBS: &[&str] = &[
    "thread scheduler, futexes, processor count",
    "results of open, read, write, stat, opendir and readdir on the simulated files and standard streams",
    "random bytes",
];

pub static C01: Prop = Prop {
    id: "C01",
    run: c01,
    runs: (30_000, 800_000),
    rule: "a run converts a generated document or a few of them, from a file, standard input or a batch, while reads \
           and writes are split, interrupted and fail at chosen positions; counted by the hash over the invocation, \
           the files, the plan and every system call with its result",
    real: REAL,
    stubs: STUBS,
    assumptions: &["a write that reported success delivered its bytes"],
    known: none,
    stack_mb: 64,
    hang_s: 120,
    workers: 8,
};

pub static C02: Prop = Prop {
    id: "C02",
    run: c02,
    runs: (28_000, 600_000),
    rule: "a run converts a generated tree of files under a seeded thread schedule, thread count, listing order and \
           split of every read; counted by the hash over the invocation, the files, the plan and every system call \
           and thread switch",
    real: REAL,
    stubs: STUBS,
    assumptions: &["threads interact only through futexes, system calls, atomics and memory between those; they are \
                    switched at system calls, yields, futex operations and allocations"],
    known: none,
    stack_mb: 64,
    hang_s: 120,
    workers: 8,
};

pub static C03: Prop = Prop {
    id: "C03",
    run: c03,
    runs: (28_000, 600_000),
    rule: "a run converts a generated tree of files of which some fail to be listed, opened, read, decoded or parsed, \
           or are cut short, under a seeded thread schedule; counted by the hash over the invocation, the files, the \
           plan and every system call and thread switch",
    real: REAL,
    stubs: STUBS,
    assumptions: &["a failing file fails in the same way whenever it is accessed"],
    known: deep,
    stack_mb: 64,
    hang_s: 120,
    workers: 8,
};

fn none() -> Vec<(String, bool)> {
    vec![]
}

fn deep() -> Vec<(String, bool)> {
    vec![crate::known::deep_nesting()]
}

fn c01(cx: &mut Cx) -> Check {
    simulate(cx, Focus::Delivery)
}

fn c02(cx: &mut Cx) -> Check {
    simulate(cx, Focus::Batch)
}

fn c03(cx: &mut Cx) -> Check {
    simulate(cx, Focus::Faults)
}

#[derive(Clone, Copy, PartialEq)]
enum Focus {
    Delivery,
    Batch,
    Faults,
}

// ---------------------------------------------------------------------------------------------
// Documents

struct Doc {
    bytes: Vec<u8>,
    /// Canonical text of the value without and with simplification, where the model knows it.
    value: Option<(String, String)>,
}

fn doc(cx: &mut Cx, focus: Focus) -> Doc {
    let kind = cx.src.weighted(&match focus {
        Focus::Delivery => [6, 3, 2, 1],
        Focus::Batch => [6, 3, 1, 0],
        Focus::Faults => [6, 3, 1, 5],
    });
    match kind {
        0 | 2 => {
            let cfg = Cfg { literal: true, heredocs: false, templates: false, depth: 3, width: 3, ..Cfg::default() };
            let model = G::new(&mut cx.src, cfg).doc();
            let mut text = render_body(&model);
            let mut value = canon::literal_body(&model).map(|v| (v.clone(), v));
            let mut add = |line: String, key: &str, plain: canon::V, simple: canon::V| {
                if !text.is_empty() && !text.ends_with('\n') {
                    text.push('\n');
                }
                text.push_str(&line);
                if let Some((canon::V::Obj(p), canon::V::Obj(s))) = &mut value {
                    p.push((key.to_string(), plain));
                    s.push((key.to_string(), simple));
                }
            };
            if cx.src.chance(1, 2) {
                let (a, b) = (cx.src.below(1000) as u64, cx.src.below(1000) as u64);
                let num = |n: u64| canon::V::Num(crate::model::Num::U(n));
                let s = |s: String| canon::V::Str(s);
                match cx.src.below(4) {
                    0 => add(format!("calc_1 = {a} + {b}\n"), "calc_1", s(format!("${{{a} + {b}}}")), num(a + b)),
                    1 => add(
                        format!("calc_1 = {a} < {b} ? \"l\" : \"g\"\n"),
                        "calc_1",
                        s(format!("${{{a} < {b} ? \"l\" : \"g\"}}")),
                        s(if a < b { "l" } else { "g" }.into()),
                    ),
                    2 => add(
                        format!("calc_1 = \"<${{{a} - {a}}}>\"\n"),
                        "calc_1",
                        s(format!("<${{{a} - {a}}}>")),
                        s("<0>".into()),
                    ),
                    _ => add(
                        format!("calc_1 = unknown({a})\n"),
                        "calc_1",
                        s(format!("${{unknown({a})}}")),
                        s(format!("${{unknown({a})}}")),
                    ),
                }
            }
            if kind == 2 {
                // More than the buffers hold.
                let n = cx.src.range(1, 3);
                for i in 0..n {
                    let len = match cx.src.below(18) {
                        16 => *cx.src.pick(&[65_530, 65_536, 131_072]),
                        17 if matches!(focus, Focus::Delivery) => 1_100_000,
                        i => [2000, 1023, 1024, 8191, 8192, 8193, 20_000, 40_000][i % 8],
                    };
                    let c = *cx.src.pick(&["x", "0123456789", "é", "\u{1f600}"]);
                    let t = c.repeat(len / c.len());
                    let v = canon::V::Str(t.clone());
                    add(format!("big_{i} = \"{t}\"\n"), &format!("big_{i}"), v.clone(), v);
                }
            }
            Doc { bytes: text.into_bytes(), value: value.map(|(p, s)| (canon::v(&p), canon::v(&s))) }
        }
        1 => {
            let cfg = Cfg { depth: 3, width: 3, ..Cfg::default() };
            let model = G::new(&mut cx.src, cfg).doc();
            Doc { bytes: render_body(&model).into_bytes(), value: None }
        }
        _ => Doc { bytes: broken(cx), value: None },
    }
}

fn broken(cx: &mut Cx) -> Vec<u8> {
    const FIXED: &[&[u8]] = &[
        b"a = [1,\n",
        b"a = ",
        b"\xff\xfe",
        b"a = \"\xc3\x28\"\n",
        b"a = \"unclosed\n",
        b"b {\n",
        b"}\n",
        b"a = 1\na = 2\n",
        b"a = 1 / 0\n",
        b"a = \"%{ if true }\"\n",
        b"\0",
        b"a = <<E\n",
        b"a = 1e999\n",
        b"\xef\xbb\xbfa = 1\n",
        b"a = -9223372036854775808\n",
        b"a = 1 % 0\n",
        b"a = [for x in 1 : x]\n",
        b"a = true ? 1\n",
        b"a = foo(...)\n",
        b"a = -\"x\"\n",
    ];
    if cx.src.chance(2, 3) {
        return cx.src.pick(FIXED).to_vec();
    }
    let cfg = Cfg { depth: 3, width: 3, ..Cfg::default() };
    let model = G::new(&mut cx.src, cfg).doc();
    let mut b = render_body(&model).into_bytes();
    for _ in 0..cx.src.range(1, 3) {
        damage::strike(cx, &mut b);
    }
    // Deep nesting is a recorded finding.
    b.truncate(20_000);
    b
}

/// The value of a file on its own.
fn alone(bytes: &[u8], simplify: bool) -> Option<J> {
    if simplify {
        let mut body: hcl::Body = hcl::from_slice(bytes).ok()?;
        let _ = body.evaluate_in_place(&hcl::eval::Context::default());
        hcl::from_body(body).ok()
    } else {
        hcl::from_slice(bytes).ok()
    }
}

// ---------------------------------------------------------------------------------------------
// Patterns

const PATTERNS: &[&str] = &[
    "*.hcl",
    "**/*.hcl",
    "**/*.{hcl,tf}",
    "*.{hcl,tf}",
    "*",
    "**",
    "**/*",
    "s/*.hcl",
    "*/*.hcl",
    "a*.hcl",
    "**/a*",
    "[ab].hcl",
    "**/?.hcl",
    "s/**/*.hcl",
    "**/s/*",
    "[!a]*.hcl",
    "nothing",
];

/// Whether a path relative to the directory matches: `*` and `?` stay within a component, `**` as a
/// component stands for any number of components.
fn matches(pattern: &str, path: &str) -> bool {
    if let (Some(a), Some(b)) = (pattern.find('{'), pattern.find('}')) {
        return pattern[a + 1..b]
            .split(',')
            .any(|alt| matches(&format!("{}{alt}{}", &pattern[..a], &pattern[b + 1..]), path));
    }
    let p: Vec<&str> = pattern.split('/').collect();
    let s: Vec<&str> = path.split('/').collect();
    components(&p, &s)
}

fn components(p: &[&str], s: &[&str]) -> bool {
    match (p.first(), s.first()) {
        (None, None) => true,
        (Some(&"**"), _) if p.len() == 1 => !s.is_empty(),
        (Some(&"**"), _) => (0..=s.len()).any(|n| components(&p[1..], &s[n..])),
        (Some(x), Some(y)) => {
            wild(x.as_bytes(), y.as_bytes()) && components(&p[1..], &s[1..])
        }
        _ => false,
    }
}

/// The matcher works on bytes.
fn wild(p: &[u8], s: &[u8]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(b'*') => (0..=s.len()).any(|n| wild(&p[1..], &s[n..])),
        Some(b'?') => !s.is_empty() && wild(&p[1..], &s[1..]),
        Some(b'[') => {
            let end = p.iter().position(|c| *c == b']').unwrap_or(p.len());
            let (not, set) = match &p[1..end] {
                [b'!', rest @ ..] => (true, rest),
                set => (false, set),
            };
            !s.is_empty() && (set.contains(&s[0]) != not) && wild(&p[end + 1..], &s[1..])
        }
        Some(c) => s.first() == Some(c) && wild(&p[1..], &s[1..]),
    }
}

// ---------------------------------------------------------------------------------------------
// The invocation

const FILES: &[&str] = &[
    "a.hcl", "b.hcl", "c.tf", "a-1.hcl", "B.hcl", "a.b.hcl", ".hidden.hcl", "notes.md", "two words.hcl", "ü.hcl",
    "a.hcl.bak", "10.hcl", "9.hcl", "x[1].hcl",
];
const DIRS: &[&str] = &["s", "a", "sub.hcl", "t-1", "d[1]", "q{x}", "z dir"];

struct World {
    tree: BTreeMap<String, Entry>,
    docs: BTreeMap<String, Doc>,
}

impl World {
    fn names(&self, dir: &str) -> Vec<String> {
        let prefix = if dir == "." { String::new() } else { format!("{dir}/") };
        self.tree
            .keys()
            .filter_map(|k| k.strip_prefix(&prefix))
            .filter(|k| !k.contains('/'))
            .map(str::to_string)
            .collect()
    }
}

fn fill(cx: &mut Cx, w: &mut World, dir: &str, depth: usize, focus: Focus, budget: &mut usize) {
    let at = |name: &str| if dir.is_empty() { name.to_string() } else { format!("{dir}/{name}") };
    let n = cx.src.range(0, 5).min(*budget);
    for _ in 0..n {
        let path = at(*cx.src.pick(FILES));
        if w.tree.contains_key(&path) {
            continue;
        }
        *budget -= 1;
        if cx.src.chance(1, 16) {
            if cx.src.chance(1, 3) {
                // A link to a directory, perhaps one it is in, or to nothing.
                let mut dirs: Vec<String> =
                    w.tree.iter().filter(|(_, e)| matches!(e, Entry::Dir)).map(|(p, _)| p.clone()).collect();
                dirs.push(".".into());
                let target = match cx.src.below(4) {
                    0 => ".".to_string(),
                    1 => "nowhere.hcl".to_string(),
                    _ => format!("{}{}", "../".repeat(path.matches('/').count()), cx.src.pick(&dirs)),
                };
                let path = if cx.src.chance(1, 2) { at(*cx.src.pick(DIRS)) } else { path };
                w.tree.entry(path).or_insert(Entry::Link(target));
                continue;
            }
            // A link to a file elsewhere.
            let file = w.docs.keys().nth(cx.src.below(w.docs.len().max(1))).cloned();
            if let Some(t) = file {
                let up = "../".repeat(path.matches('/').count());
                let bytes = w.docs[&t].bytes.clone();
                let value = w.docs[&t].value.clone();
                if !matches!(w.tree[&t], Entry::Link(_)) {
                    w.tree.insert(path.clone(), Entry::Link(format!("{up}{t}")));
                    w.docs.insert(path, Doc { bytes, value });
                }
            }
            continue;
        }
        let d = doc(cx, focus);
        w.tree.insert(path.clone(), Entry::File(d.bytes.clone()));
        w.docs.insert(path, d);
    }
    if depth < 3 {
        for _ in 0..cx.src.weighted(&[4, 3, 1]) {
            let path = at(*cx.src.pick(DIRS));
            if w.tree.contains_key(&path) || *budget == 0 {
                continue;
            }
            w.tree.insert(path.clone(), Entry::Dir);
            fill(cx, w, &path, depth + 1, focus, budget);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fate {
    /// Readable: the result contains it, nothing is reported.
    Good,
    /// Must be reported.
    Bad,
    /// Its metadata cannot be read: in the result or reported.
    Doubtful,
    /// It vanished: absent, reported or not.
    Gone,
}

struct Item {
    path: String,
    fate: Fate,
    value: Option<J>,
}

/// A directory that cannot be read completely, with the arguments and directories above it.
struct Fault {
    paths: Vec<String>,
}

fn clean(path: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in path.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    if out.is_empty() {
        ".".into()
    } else {
        out.join("/")
    }
}

fn judge(w: &World, plan: &Plan, path: &str, listed: bool, simplify: bool) -> Check<Item> {
    let key = clean(path);
    let rule = plan.rules.get(&key).cloned().unwrap_or_default();
    let bad = |fate| Item { path: path.to_string(), fate, value: None };
    let Some(doc) = w.docs.get(&key) else {
        return Ok(bad(Fate::Bad));
    };
    if rule.stat_err == libc::ENOENT && rule.open_err == libc::ENOENT && listed {
        return Ok(bad(Fate::Gone));
    }
    if rule.open_err != 0 {
        return Ok(bad(Fate::Bad));
    }
    let mut bytes = &doc.bytes[..];
    let mut fate = Fate::Good;
    if rule.stat_err != 0 {
        fate = Fate::Doubtful;
    }
    match rule.fail {
        Some((at, 0, _)) => bytes = &bytes[..at.min(bytes.len())],
        Some((at, _, _)) if at < bytes.len() => return Ok(bad(Fate::Bad)),
        Some(_) => fate = Fate::Doubtful,
        None => {}
    }
    let Some(value) = alone(bytes, simplify) else {
        return Ok(bad(Fate::Bad));
    };
    if bytes.len() == doc.bytes.len() {
        if let Some((plain, simple)) = &doc.value {
            let expected = if simplify { simple } else { plain };
            if canon::json(&value) != *expected {
                return violation("value", format!("{path}: {} instead of {expected}", canon::json(&value)));
            }
        }
    }
    Ok(Item { path: path.to_string(), fate, value: Some(value) })
}

struct Walk<'a> {
    w: &'a World,
    plan: &'a Plan,
    pattern: &'a str,
    root: &'a str,
    simplify: bool,
    items: Vec<Item>,
    faults: Vec<Fault>,
}

impl Walk<'_> {
    /// `dir` as the converter spells it, `rel` relative to the argument.
    fn dir(&mut self, dir: &str, rel: &str) -> Check {
        let key = clean(dir);
        let rule = self.plan.rules.get(&key).cloned().unwrap_or_default();
        let mut above = vec![self.root.to_string()];
        let mut sofar = String::new();
        for c in rel.split('/').filter(|c| !c.is_empty()) {
            sofar = join(&sofar, c);
            above.push(join(self.root, &sofar));
        }
        if rule.opendir_err != 0 {
            self.faults.push(Fault { paths: above });
            return Ok(());
        }
        let mut names = cli::listing(&self.w.names(&key), rule.shuffle);
        if let Some((n, _)) = rule.readdir {
            if n <= names.len() {
                names.truncate(n);
                self.faults.push(Fault { paths: above });
            }
        }
        names.retain(|n| n != "." && n != "..");
        names.sort();
        for name in names {
            let path = join(dir, &name);
            let rel = join(rel, &name);
            match &self.w.tree[&clean(&path)] {
                Entry::Dir => self.dir(&path, &rel)?,
                // Directories are not entered through links.
                Entry::Link(to) if !self.w.docs.contains_key(&clean(&path)) => {
                    if to == "nowhere.hcl" && matches(self.pattern, &rel) {
                        self.items.push(Item { path, fate: Fate::Gone, value: None });
                    }
                }
                _ => {
                    if matches(self.pattern, &rel) {
                        let item = judge(self.w, self.plan, &path, true, self.simplify)?;
                        self.items.push(item);
                    }
                }
            }
        }
        Ok(())
    }
}

fn join(a: &str, b: &str) -> String {
    if a.is_empty() || a.ends_with('/') {
        format!("{a}{b}")
    } else {
        format!("{a}/{b}")
    }
}

/// The lines in which a path is named as such, not as a part of another path.
fn named(text: &str, path: &str) -> usize {
    let part = |c: char| c.is_alphanumeric() || "/._-[]{}".contains(c);
    text.lines()
        .filter(|l| {
            l.match_indices(path).any(|(i, _)| {
                let before = l[..i].chars().next_back();
                let mut after = l[i + path.len()..].chars();
                let next = after.next();
                let dot = next == Some('.') && after.next().is_none_or(char::is_whitespace);
                !before.is_some_and(part) && (dot || !next.is_some_and(part))
            })
        })
        .count()
}

const READ_ERRORS: &[i32] = &[libc::EIO, libc::EACCES, libc::EISDIR, libc::ESTALE, libc::ENOMEM, libc::EAGAIN];
const WRITE_ERRORS: &[i32] = &[libc::EIO, libc::ENOSPC, libc::EPIPE, 0, libc::EAGAIN, libc::EDQUOT, libc::EFBIG];
const OPEN_ERRORS: &[i32] = &[libc::EACCES, libc::ENOENT, libc::EMFILE, libc::EIO, libc::ELOOP, libc::EPERM];

fn simulate(cx: &mut Cx, focus: Focus) -> Check {
    let pretty = cx.src.chance(1, 4);
    let simplify = cx.src.chance(1, 3);
    let keep = cx.src.chance(if focus == Focus::Faults { 2 } else { 1 }, 3);
    let keyed = cx.src.chance(1, 4);
    let mut w = World { tree: BTreeMap::new(), docs: BTreeMap::new() };
    let mut stdin = None;
    let mut inputs: Vec<String> = vec![];
    let mut pattern = None;
    let single = focus == Focus::Delivery && cx.src.chance(3, 4) || focus == Focus::Faults && cx.src.chance(1, 12);
    if single {
        let d = doc(cx, focus);
        match cx.src.below(3) {
            0 => stdin = Some(d),
            1 => {
                inputs.push("-".into());
                stdin = Some(d);
            }
            _ => {
                let name = (*cx.src.pick(FILES)).to_string();
                inputs.push(name.clone());
                w.tree.insert(name.clone(), Entry::File(d.bytes.clone()));
                w.docs.insert(name, d);
            }
        }
    } else {
        let mut budget = if cx.src.chance(1, 20) { 40 } else { 10 };
        fill(cx, &mut w, "", 0, focus, &mut budget);
        let dirs: Vec<String> = w.tree.iter().filter(|(_, e)| matches!(e, Entry::Dir)).map(|(p, _)| p.clone()).collect();
        let files: Vec<String> = w.docs.keys().cloned().collect();
        for _ in 0..cx.src.range(1, 4) {
            let mut arg = match cx.src.weighted(&[4, 3, 4, 1]) {
                0 => ".".to_string(),
                1 if !dirs.is_empty() => cx.src.pick(&dirs).clone(),
                2 if !files.is_empty() => cx.src.pick(&files).clone(),
                3 if focus == Focus::Faults => "missing.hcl".to_string(),
                _ => ".".to_string(),
            };
            if arg != "." && cx.src.chance(1, 8) {
                arg = format!("./{arg}");
            } else if w.tree.get(&arg).is_some_and(|e| matches!(e, Entry::Dir)) && cx.src.chance(1, 6) {
                arg.push('/');
            }
            inputs.push(arg);
        }
        if !cx.src.chance(1, 40) {
            pattern = Some(*cx.src.pick(PATTERNS));
        }
    }
    let is_dir = |p: &String| {
        let k = clean(p);
        k == "." || matches!(w.tree.get(&k), Some(Entry::Dir))
    };
    let batch = inputs.len() > 1 || inputs.iter().any(is_dir);

    // What the system does.
    let mut plan = Plan { sched: cli::schedule(&mut cx.src, batch), rules: BTreeMap::new() };
    for (path, d) in &w.docs {
        let ops = cli::splits(&mut cx.src, d.bytes.len());
        if !ops.is_empty() {
            plan.rule(path).ops = ops;
        }
        if cx.src.chance(1, 10) {
            plan.rule(path).open_eintr = cx.src.range(1, 3);
        }
    }
    let mut dirs: Vec<String> =
        w.tree.iter().filter(|(_, e)| matches!(e, Entry::Dir)).map(|(p, _)| p.clone()).collect();
    dirs.push(".".into());
    for path in &dirs {
        if cx.src.chance(3, 4) {
            plan.rule(path).shuffle = 1 + cx.src.below(1 << 20) as u64;
        }
        plan.rule(path).unknown_type = cx.src.chance(1, 4);
    }
    if let Some(d) = &stdin {
        let ops = cli::splits(&mut cx.src, d.bytes.len());
        let r = plan.rule("<stdin>");
        r.ops = ops;
        if focus != Focus::Batch && cx.src.chance(1, 4) {
            r.fail = Some((cx.src.below(d.bytes.len() + 1), *cx.src.pick(&[libc::EIO, libc::EISDIR, 0, libc::EAGAIN]), 0));
        }
    }
    let mut spoil = vec![];
    if focus != Focus::Batch {
        let odds = if focus == Focus::Faults { *cx.src.pick(&[5, 1, 2]) } else { 8 };
        for (path, d) in &w.docs {
            if !cx.src.chance(1, odds) {
                continue;
            }
            let len = d.bytes.len();
            let mut r = Rule::default();
            match cx.src.below(6) {
                0 => r.open_err = *cx.src.pick(OPEN_ERRORS),
                1 => r.fail = Some((cx.src.below(len + 1), *cx.src.pick(READ_ERRORS), 0)),
                2 => r.fail = Some((cx.src.below(len + 1), 0, 0)),
                3 => {
                    r.stat_err = libc::ENOENT;
                    r.open_err = libc::ENOENT;
                }
                4 => {
                    r.stat_err = libc::EACCES;
                    r.open_err = libc::EACCES;
                }
                _ => r.stat_err = *cx.src.pick(&[libc::EACCES, libc::EIO]),
            }
            spoil.push((path.clone(), r));
        }
        if focus == Focus::Faults {
            for path in &dirs {
                if !cx.src.chance(1, 12) {
                    continue;
                }
                let mut r = Rule::default();
                if cx.src.chance(1, 2) {
                    r.opendir_err = *cx.src.pick(&[libc::EACCES, libc::EMFILE, libc::EIO]);
                } else {
                    r.readdir = Some((cx.src.below(6), *cx.src.pick(&[libc::EIO, libc::ENOENT, libc::ESTALE])));
                }
                spoil.push((path.clone(), r));
            }
        }
    }
    for (path, f) in spoil {
        // The type of an entry nobody asked for must not be needed.
        if f.stat_err != 0 && pattern.is_some_and(|p| !every_argument_selects(&inputs, &path, p)) {
            continue;
        }
        let r = plan.rule(&path);
        r.open_err = f.open_err;
        r.stat_err = f.stat_err;
        r.opendir_err = f.opendir_err;
        r.readdir = f.readdir;
        r.fail = f.fail;
    }

    // What must come out.
    let mut items: Vec<Item> = vec![];
    let mut faults: Vec<Fault> = vec![];
    let mut usage = false;
    if let Some(d) = &stdin {
        w.docs.insert("<stdin>".into(), Doc { bytes: d.bytes.clone(), value: d.value.clone() });
        items.push(judge(&w, &plan, "<stdin>", false, simplify)?);
    } else {
        for arg in &inputs {
            if !is_dir_of(&w, arg) {
                items.push(judge(&w, &plan, arg, false, simplify)?);
                continue;
            }
            let Some(pattern) = pattern else {
                usage = true;
                break;
            };
            let mut walk = Walk { w: &w, plan: &plan, pattern, root: arg, simplify, items: vec![], faults: vec![] };
            walk.dir(arg, "")?;
            items.extend(walk.items);
            faults.extend(walk.faults);
        }
    }
    // A position for the failure of standard output somewhere in what has to be written.
    let good: Vec<&Item> = items.iter().filter(|i| i.value.is_some()).collect();
    let size = show(&assemble(&good, batch, keyed), pretty).len();
    // Messages show the line they are about.
    let input: usize = w.docs.values().map(|d| d.bytes.len()).sum();
    let stream = |cx: &mut Cx, plan: &mut Plan, name: &str, size: usize, fails: bool| {
        let ops = cli::splits(&mut cx.src, size.max(input));
        let fail = if fails {
            let at = match cx.src.below(4) {
                0 => 0,
                1 => size.saturating_sub(cx.src.below(3)),
                _ => cx.src.below(size + 1),
            };
            Some((at, *cx.src.pick(WRITE_ERRORS), *cx.src.pick(&[0, 0, 1, 2])))
        } else {
            None
        };
        let r = plan.rule(name);
        r.ops = ops;
        r.fail = fail;
    };
    let odds = if focus == Focus::Delivery { 2 } else { 12 };
    let out_fails = focus != Focus::Batch && cx.src.chance(1, odds);
    stream(cx, &mut plan, "<stdout>", size, out_fails);
    let err_fails = focus != Focus::Batch && cx.src.chance(1, 12);
    stream(cx, &mut plan, "<stderr>", 100, err_fails);

    let mut args: Vec<String> = vec![];
    for (on, long, short) in [
        (pretty, "--pretty", "-p"),
        (simplify, "--simplify", "-s"),
        (keep, "--continue-on-error", "-C"),
        (keyed, "--file-paths", "-P"),
    ] {
        if on {
            args.push(if cx.src.chance(1, 2) { long } else { short }.into());
        }
    }
    if let Some(p) = pattern {
        args.push("--glob".into());
        args.push(p.into());
    }
    args.extend(inputs.iter().cloned());

    cx.nontrivial = !items.is_empty();
    let stdin_bytes = stdin.map(|d| d.bytes).unwrap_or_default();
    let ended = cli::observe(cx, &args, &w.tree, &stdin_bytes, &plan)?;

    // The comparison.
    let write_failed = ended.logged("stdout_error") || ended.logged("stdout_accepts_nothing");
    let stderr_failed = ended.logged("stderr_error") || ended.logged("stderr_accepts_nothing");
    let how = || format!("exit {:?} signal {:?}, stderr {:?}", ended.code, ended.signal, ended.stderr);
    if ended.signal.is_some() || (ended.code == Some(101) && !write_failed) {
        return violation("crash", format!("the converter crashed: {}", how()));
    }
    let ok = ended.code == Some(0);
    if !ok && !stderr_failed && ended.stderr.trim().is_empty() {
        return violation("silent-failure", format!("failure without a reason: {}", how()));
    }
    let failed_early = |why: &str| -> Check {
        if ok {
            return violation("false-success", format!("{why}, but the exit status is 0; {}", how()));
        }
        if !ended.stdout.is_empty() {
            return violation(
                "partial-output",
                format!("{why}, but {} bytes were written to standard output", ended.stdout.len()),
            );
        }
        Ok(())
    };
    if usage {
        cx.probe("usage_error");
        failed_early("a directory without a pattern was given")?;
        if !stderr_failed && !ended.stderr.contains("--glob") {
            return violation("reason", format!("the missing option is not named; {}", how()));
        }
        return Ok(());
    }
    let bad: Vec<&str> = items.iter().filter(|i| i.fate == Fate::Bad).map(|i| i.path.as_str()).collect();
    let must_fail = !bad.is_empty() || !faults.is_empty();
    let doubtful = items.iter().any(|i| matches!(i.fate, Fate::Doubtful | Fate::Gone));
    if !batch {
        if must_fail {
            cx.probe("document_fails");
            return failed_early("the document cannot be read");
        }
        if doubtful && !ok && ended.stdout.is_empty() {
            return Ok(());
        }
    } else if !keep {
        if must_fail || (doubtful && !ok && !write_failed) {
            cx.probe("batch_fails");
            failed_early(&format!("failing files {bad:?}, {} directories", faults.len()))?;
            let any = items
                .iter()
                .filter(|i| i.fate != Fate::Good)
                .map(|i| &i.path)
                .chain(faults.iter().flat_map(|f| f.paths.iter()))
                .any(|p| named(&ended.stderr, p) > 0 || named(&ended.stderr, p.trim_end_matches('/')) > 0);
            if !stderr_failed && !any {
                return violation("unnamed", format!("none of the failing files {bad:?} is named; {}", how()));
            }
            return Ok(());
        }
    } else if stderr_failed && !ok && !write_failed {
        // Nobody can be told about the failing files.
        return Ok(());
    }

    // The files in the result.
    let mut included: Vec<&Item> = vec![];
    let mut undecided = false;
    for i in &items {
        let reports = named(&ended.stderr, &i.path);
        let count = |f: &[Fate]| items.iter().filter(|j| j.path == i.path && f.contains(&j.fate)).count();
        let (must, may) = (count(&[Fate::Bad]), count(&[Fate::Doubtful, Fate::Gone]));
        if batch && keep && ok && !stderr_failed && !(must..=must + may).contains(&reports) {
            return violation(
                "report",
                format!("{} is reported {reports} times instead of {must} (and perhaps {may} more); {}", i.path, how()),
            );
        }
        match i.fate {
            Fate::Good => included.push(i),
            Fate::Doubtful => {
                if reports <= must && !(stderr_failed && keep) {
                    included.push(i);
                } else if reports < must + may {
                    // Which of the occurrences was reported is not known.
                    undecided = true;
                }
            }
            Fate::Bad | Fate::Gone => {}
        }
    }
    if keep && ok && !stderr_failed {
        for f in &faults {
            let any = f.paths.iter().any(|p| named(&ended.stderr, p) > 0 || named(&ended.stderr, p.trim_end_matches('/')) > 0);
            if !any {
                return violation("report", format!("the directory {:?} is not reported; {}", f.paths.last(), how()));
            }
        }
    }
    let text = show(&assemble(&included, batch, keyed), pretty);
    let open_question = undecided || (stderr_failed && keep && doubtful);
    if write_failed {
        cx.probe("delivery_fails");
        if ok {
            return violation("false-success", format!("a write failed, but the exit status is 0; {}", how()));
        }
        let full = format!("{text}\n");
        if !open_question && !full.as_bytes().starts_with(&ended.stdout) {
            return violation("output", "what was written before the failure is no prefix of the document");
        }
        return Ok(());
    }
    if !ok {
        return violation("false-failure", format!("nothing failed, but the converter did: {}", how()));
    }
    cx.probe(if batch { "batch_delivered" } else { "document_delivered" });
    let got = String::from_utf8_lossy(&ended.stdout);
    if !open_question && got.trim_end() != text {
        return violation("output", differ(&text, got.trim_end()));
    }
    Ok(())
}

fn is_dir_of(w: &World, p: &str) -> bool {
    let k = clean(p);
    k == "." || matches!(w.tree.get(&k), Some(Entry::Dir))
}

/// Whether each directory argument above a path selects it.
fn every_argument_selects(inputs: &[String], path: &str, pattern: &str) -> bool {
    inputs.iter().all(|a| {
        let a = clean(a);
        let rel = if a == "." { Some(path) } else { path.strip_prefix(&format!("{a}/")) };
        rel.is_none_or(|r| matches(pattern, r))
    })
}

fn assemble(items: &[&Item], batch: bool, keyed: bool) -> J {
    let value = |i: &Item| i.value.clone().unwrap_or(J::Null);
    if !batch {
        return items.first().map(|i| value(i)).unwrap_or(J::Null);
    }
    if keyed {
        J::Object(items.iter().map(|i| (i.path.clone(), value(i))).collect())
    } else {
        J::Array(items.iter().map(|i| value(i)).collect())
    }
}

fn show(v: &J, pretty: bool) -> String {
    let r = if pretty { serde_json::to_string_pretty(v) } else { serde_json::to_string(v) };
    r.unwrap_or_default()
}

fn differ(expected: &str, got: &str) -> String {
    let at = expected.bytes().zip(got.bytes()).take_while(|(a, b)| a == b).count();
    let cut = |s: &str| {
        let from = (0..=at.saturating_sub(40)).rev().find(|i| s.is_char_boundary(*i)).unwrap_or(0);
        s.get(from..).unwrap_or("").chars().take(160).collect::<String>()
    };
    format!(
        "expected {} bytes, got {}; they differ at {at}: expected …{:?}, got …{:?}",
        expected.len(),
        got.len(),
        cut(expected),
        cut(got)
    )
}
