//! X01: concurrent, interleaved and nested uses do not affect each other.

use super::x02::{self, Op, OPS};
use crate::canon;
use crate::choice::Src;
use crate::cx::{inject_panic, is_injected, violation, Check, Cx, Violation};
use crate::ev;
use crate::evalsim::{self as es, Script, TG};
use crate::gen::{Cfg, G};
use crate::io::{gen_fail, Chunks, Fail, SimReader, SimWriter};
use crate::model::{self as m};
use crate::runner::Prop;
use crate::sched::{self, point, Disturb, Done, Sched};
use crate::serdesim as sd;
use hcl::eval::{Context, Evaluate};
use hcl::format::Format;
use hcl_edit::structure as xs;
use hcl_edit::visit::{self, Visit};
use hcl_edit::visit_mut::{self, VisitMut};
use serde_json::{json, Value as J};
use std::cell::Cell;
use std::fmt::Write as _;
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub static PROP: Prop = Prop {
    id: "X01",
    run,
    runs: (19_000, 1_500_000),
    rule: "a run lets several threads parse, print, edit, visit, evaluate, serialize and deserialize shared generated documents in a \
           shared context, one thread at a time, with the next one chosen at every callback and at chosen memory allocations, with \
           jobs run inside the callbacks of others and with failing and panicking readers, writers, functions, visitors and data; \
           every job is also done alone in a process of its own; non-trivial if threads were switched or jobs nested; counted by \
           the hash over jobs, schedules and results",
    real: &["hcl-rs", "hcl-edit", "hcl-primitives", "operating system threads and thread-local storage"],
    stubs: &["scheduling of the threads", "readers, writers, functions, visitors and data types"],
    assumptions: &["within a stretch between two points a thread is not interrupted"],
    known,
    stack_mb: 64,
    hang_s: 180,
    workers: 8,
};

fn known() -> Vec<(String, bool)> {
    x02::known()
}

// ---------------------------------------------------------------------------------------------
// What jobs share

struct Shared {
    text: String,
    bad: String,
    hcl: hcl::Body,
    edit: xs::Body,
}

struct Evaluated {
    text: String,
    body: hcl::Body,
    exprs: Vec<hcl::Expression>,
}

struct World {
    docs: Vec<Shared>,
    evals: Vec<Evaluated>,
    data: Vec<x02::Doc>,
    ctx: Context<'static>,
    jobs: Vec<Job>,
}

impl World {
    /// What the shared things look like.
    fn state(&self) -> String {
        let mut s = String::new();
        for d in &self.docs {
            let _ = write!(s, "{}\n{}\n{:?}\n", canon::hcl_body(&d.hcl), d.edit, d.hcl);
        }
        for d in &self.evals {
            let _ = write!(s, "{:?}\n{:?}\n", d.body, d.exprs);
        }
        for d in &self.data {
            let _ = write!(s, "{:?}\n", d.d);
        }
        let _ = write!(s, "{:?}", self.ctx);
        s
    }
}

#[derive(Clone, Debug)]
enum Job {
    Parse { doc: usize, how: usize, bad: bool },
    Read { doc: usize, how: usize, bad: bool, chunks: Chunks, fail: Option<(usize, Fail)> },
    Print { doc: usize, how: usize, chunks: Chunks, fail: Option<(usize, Fail)> },
    Eval { doc: usize, way: usize, plan: es::Plan },
    Serde { doc: usize, op: Op, plan: sd::Plan, chunks: Chunks },
    Visit { doc: usize, mutable: bool, at: usize, panic: bool },
    Edit { doc: usize, steps: Vec<usize>, at: usize },
    /// Several uses on one thread, a step of one after a step of another.
    Braid { parts: Vec<Part>, order: Vec<usize> },
}

#[derive(Clone, Debug)]
enum Part {
    Serializer(Vec<(usize, sd::Plan)>),
    Formatter(usize, bool),
    Iterate(usize),
    Child(usize),
    Build(usize),
}

/// Text that reaches a user's `fmt::Write`.
struct FmtSink {
    out: String,
    at: usize,
    panic: bool,
}

impl std::fmt::Write for FmtSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        point("fmt");
        if self.out.len() + s.len() > self.at {
            if self.panic {
                inject_panic();
            }
            return Err(std::fmt::Error);
        }
        self.out.push_str(s);
        Ok(())
    }
}

/// A text that is long is known by its hash.
fn brief(s: String) -> String {
    if s.len() < 3000 {
        return s;
    }
    let h = s.bytes().fold(0xcbf2_9ce4_8422_2325_u64, |h, b| (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3));
    format!("{} bytes, {h:016x}, {}", s.len(), s.chars().take(500).collect::<String>())
}

fn caught(f: impl FnOnce() -> String) -> String {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(s) => s,
        Err(p) if is_injected(&*p) => "panicked".into(),
        Err(p) => std::panic::resume_unwind(p),
    }
}

fn show<T, E: std::fmt::Display>(r: Result<T, E>, f: impl FnOnce(T) -> String) -> String {
    match r {
        Ok(v) => f(v),
        Err(e) => format!("error: {e}"),
    }
}

struct Counting {
    n: usize,
    at: usize,
    panic: bool,
    log: String,
}

impl Counting {
    fn hook(&mut self, what: &str) -> bool {
        point("visit");
        self.n += 1;
        if self.n > self.at {
            if self.panic {
                inject_panic();
            }
            return false;
        }
        self.log.push_str(what);
        self.log.push(' ');
        true
    }
}

impl Visit for Counting {
    fn visit_structure(&mut self, node: &xs::Structure) {
        if self.hook(if node.is_attribute() { "attr" } else { "block" }) {
            visit::visit_structure(self, node);
        }
    }
    fn visit_expr(&mut self, node: &hcl_edit::expr::Expression) {
        if self.hook("expr") {
            visit::visit_expr(self, node);
        }
    }
    fn visit_ident(&mut self, node: &hcl_edit::Decorated<hcl_edit::Ident>) {
        self.hook(node.as_str());
    }
}

impl VisitMut for Counting {
    fn visit_expr_mut(&mut self, node: &mut hcl_edit::expr::Expression) {
        if self.hook("expr") {
            if let hcl_edit::expr::Expression::Bool(b) = node {
                *b.value_mut() = !*b.value();
            }
            visit_mut::visit_expr_mut(self, node);
        }
    }
}

thread_local! {
    /// How many serializations to HCL are under way on this thread.
    static SERIALIZING: Cell<u32> = const { Cell::new(0) };
}

fn serializing<R>(yes: bool, f: impl FnOnce() -> R) -> R {
    struct Leave;
    impl Drop for Leave {
        fn drop(&mut self) {
            SERIALIZING.set(SERIALIZING.get() - 1);
        }
    }
    if !yes {
        return f();
    }
    SERIALIZING.set(SERIALIZING.get() + 1);
    let _leave = Leave;
    f()
}

fn to_hcl(op: Op) -> bool {
    matches!(
        op,
        Op::ToString | Op::ToVec | Op::ToWriter | Op::SerializeString | Op::ToExpression | Op::ToExpressionOwned | Op::ToBody
    )
}

impl World {
    /// Performs a job; the text says everything about its result.
    fn perform(&self, job: &Job) -> String {
        match job {
            Job::Parse { doc, how, bad } => {
                let d = &self.docs[*doc];
                let text = if *bad { &d.bad } else { &d.text };
                match how {
                    0 => show(hcl::parse(text), |b| canon::hcl_body(&b)),
                    1 => show(text.parse::<xs::Body>(), |b| b.to_string()),
                    2 => show(hcl::from_str::<hcl::Value>(text), |v| canon::value(&v)),
                    3 => show(text.parse::<hcl::Template>(), |v| canon::hcl_template(&v)),
                    4 => show(text.parse::<hcl_edit::template::Template>(), |v| v.to_string()),
                    5 => show(hcl::from_slice::<hcl::Body>(text.as_bytes()), |b| canon::hcl_body(&b)),
                    6 => {
                        let b: xs::Body = d.hcl.clone().into();
                        b.to_string()
                    }
                    7 => canon::hcl_body(&d.edit.clone().into()),
                    8 => show(format!("[{text}]").parse::<hcl::Expression>(), |e| canon::hcl_e(&e)),
                    _ => show(hcl::Identifier::new(text.trim()), |e| e.to_string()),
                }
            }
            Job::Read { doc, how, bad, chunks, fail } => {
                let d = &self.docs[*doc];
                let text = if *bad { &d.bad } else { &d.text };
                caught(|| {
                    let r = SimReader::new(text.as_bytes(), chunks.clone(), *fail);
                    match how {
                        0 => show(hcl::from_reader::<hcl::Value, _>(r), |v| canon::value(&v)),
                        1 => show(hcl::from_reader::<hcl::Body, _>(r), |v| canon::hcl_body(&v)),
                        _ => show(hcl::from_reader::<std::collections::BTreeMap<String, serde_json::Value>, _>(r), |v| format!("{v:?}")),
                    }
                })
            }
            Job::Print { doc, how, chunks, fail } => {
                let d = &self.docs[*doc];
                if *how >= 4 {
                    let (at, panic) = match fail {
                        None => (usize::MAX, false),
                        Some((at, f)) => (*at, *f == Fail::Panic),
                    };
                    let mut w = FmtSink {
                        out: String::new(),
                        at,
                        panic,
                    };
                    let r = caught(|| {
                        let r = match how {
                            4 => write!(w, "{}", d.edit),
                            _ => d.edit.iter().try_for_each(|s| match s {
                                xs::Structure::Attribute(a) => write!(w, "{} = {}", a.key, a.value),
                                xs::Structure::Block(b) => write!(w, "{}", b.body),
                            }),
                        };
                        format!("{r:?}")
                    });
                    return format!("{r}: {}", w.out);
                }
                let mut w = SimWriter::new(chunks.clone(), *fail, true);
                let r = caught(|| match how {
                    0 => show(hcl::format::to_writer(&mut w, &d.hcl), |()| String::new()),
                    1 => {
                        let mut f = hcl::format::Formatter::builder().compact(true).indent(b"\t").build(&mut w);
                        show(d.hcl.format(&mut f), |()| String::new())
                    }
                    2 => show(hcl::to_writer(&mut w, &d.hcl), |()| String::new()),
                    _ => {
                        let mut f = hcl::format::Formatter::new(&mut w);
                        let mut out = String::new();
                        for s in d.hcl.iter() {
                            out.push_str(&show(s.format(&mut f), |()| String::new()));
                        }
                        out
                    }
                });
                format!("{r}: {}", String::from_utf8_lossy(&w.accepted))
            }
            Job::Eval { doc, way, plan } => {
                let d = &self.evals[*doc];
                let old = es::swap(Script::default());
                es::start(plan);
                let ctx = &self.ctx;
                let r = caught(|| match way {
                    0 => show(d.body.evaluate(ctx), |b| canon::hcl_body(&b)),
                    1 => show(hcl::eval::to_string(&d.body, ctx), |s| s),
                    2 => show(hcl::eval::from_str::<hcl::Value>(&d.text, ctx), |v| canon::value(&v)),
                    3 => {
                        let mut b = d.body.clone();
                        let r = catch_unwind(AssertUnwindSafe(|| match b.evaluate_in_place(ctx) {
                            Ok(()) => "ok".to_string(),
                            Err(e) => e.to_string(),
                        }));
                        let r = r.unwrap_or_else(|p| {
                            if is_injected(&*p) {
                                "panicked".into()
                            } else {
                                std::panic::resume_unwind(p)
                            }
                        });
                        format!("{r}: {}", canon::hcl_body(&b))
                    }
                    _ => {
                        let mut s = String::new();
                        for e in &d.exprs {
                            s.push_str(&show(e.evaluate(ctx), |v| canon::value(&v)));
                            s.push('\n');
                        }
                        s
                    }
                });
                let script = es::swap(old);
                format!("{r}\n{:?}\n{:?}", script.log, script.broken)
            }
            Job::Serde { doc, op, plan, chunks } => {
                let d = &self.data[*doc];
                let foreign = matches!(op, Op::ToJson | Op::ToValue) && d.embeds() && SERIALIZING.get() > 0;
                if !d.possible(*op) || foreign {
                    return String::new();
                }
                let (r, ran, wrong) = serializing(to_hcl(*op), || x02::perform(*op, d, plan, chunks));
                format!("{r:?} {ran:?} {wrong:?}")
            }
            Job::Visit { doc, mutable, at, panic } => {
                let mut v = Counting {
                    n: 0,
                    at: *at,
                    panic: *panic,
                    log: String::new(),
                };
                let d = &self.docs[*doc];
                if *mutable {
                    let mut b = d.edit.clone();
                    let r = caught(|| {
                        v.visit_body_mut(&mut b);
                        String::new()
                    });
                    format!("{r}: {}\n{}", v.log, b)
                } else {
                    let r = caught(|| {
                        v.visit_body(&d.edit);
                        String::new()
                    });
                    format!("{r}: {}", v.log)
                }
            }
            Job::Edit { doc, steps, at } => {
                let mut b = self.docs[*doc].edit.clone();
                let mut log = String::new();
                let r = caught(|| {
                    let n = Cell::new(0);
                    let callback = || {
                        point("edit");
                        n.set(n.get() + 1);
                        if n.get() > *at {
                            inject_panic();
                        }
                    };
                    for s in steps {
                        match s {
                            0 => {
                                let items: Vec<xs::Structure> = b.clone().into_iter().collect();
                                b = items
                                    .into_iter()
                                    .filter(|s| {
                                        callback();
                                        s.is_attribute()
                                    })
                                    .collect();
                            }
                            1 => {
                                let more: Vec<xs::Attribute> = (0..3)
                                    .map(|i| xs::Attribute::new(hcl_edit::Ident::new(format!("new{}_{i}", b.len())), i))
                                    .collect();
                                b.extend(more.into_iter().inspect(|_| callback()));
                            }
                            2 => {
                                for mut a in b.attributes_mut() {
                                    callback();
                                    if let hcl_edit::expr::Expression::Array(x) = a.value_mut() {
                                        x.push(1);
                                        x.iter().for_each(|_| callback());
                                    }
                                }
                            }
                            3 => {
                                if let Some(x) = b.pop() {
                                    callback();
                                    let _ = write!(log, "{} ", x.is_block());
                                }
                            }
                            4 => {
                                for x in b.blocks_mut() {
                                    callback();
                                    x.body.push(xs::Block::new(hcl_edit::Ident::new("deep")));
                                }
                            }
                            _ => {
                                let h: hcl::Body = b.clone().into();
                                callback();
                                log.push_str(&show(hcl::format::to_string(&h), |s| s));
                            }
                        }
                    }
                    String::new()
                });
                format!("{r}: {log}\n{b}")
            }
            Job::Braid { parts, order } => {
                let mut states: Vec<Box<dyn FnMut() -> String + '_>> = parts.iter().map(|p| self.part(p)).collect();
                let mut logs = vec![String::new(); parts.len()];
                for k in order {
                    let r = caught(|| states[*k]());
                    logs[*k].push_str(&r);
                    logs[*k].push('\n');
                    point("step");
                }
                logs.join("----\n")
            }
        }
    }

    /// Something that is used step by step.
    fn part<'a>(&'a self, p: &Part) -> Box<dyn FnMut() -> String + 'a> {
        match p.clone() {
            Part::Serializer(steps) => {
                let out: std::rc::Rc<std::cell::RefCell<Vec<u8>>> = Default::default();
                let mut s = hcl::ser::Serializer::new(RcSink(out.clone()));
                let mut i = 0;
                Box::new(move || {
                    let (k, plan) = &steps[i % steps.len()];
                    i += 1;
                    let d = &self.data[*k];
                    let (r, ran) = serializing(true, || sd::scripted(plan, || s.serialize(&sd::Ser(&d.d))));
                    let r = match r {
                        Ok(r) => format!("{r:?}"),
                        Err(p) if is_injected(&*p) => "panicked".into(),
                        Err(p) => std::panic::resume_unwind(p),
                    };
                    format!("{r} {ran:?} {}", String::from_utf8_lossy(&out.borrow()))
                })
            }
            Part::Formatter(k, compact) => {
                let out: std::rc::Rc<std::cell::RefCell<Vec<u8>>> = Default::default();
                let mut f = hcl::format::Formatter::builder().compact(compact).build(RcSink(out.clone()));
                let mut it = self.docs[k].hcl.iter();
                Box::new(move || {
                    let r = it.next().map(|s| show(s.format(&mut f), |()| String::new()));
                    format!("{r:?} {}", String::from_utf8_lossy(&out.borrow()))
                })
            }
            Part::Iterate(k) => {
                let mut it = self.docs[k].edit.clone().into_iter();
                Box::new(move || format!("{:?} {:?}", it.next().map(|s| xs::Body::from_iter([s]).to_string()), it.size_hint()))
            }
            Part::Child(k) => {
                let mut ctx = self.ctx.clone();
                let d = &self.evals[k];
                let mut i = 0;
                Box::new(move || {
                    ctx.declare_var("n2", i as u64);
                    ctx.declare_var("s1", format!("step {i}"));
                    let Some(e) = d.exprs.get(i % d.exprs.len().max(1)) else {
                        return String::new();
                    };
                    i += 1;
                    let old = es::swap(Script::default());
                    let r = show(e.evaluate(&ctx), |v| canon::value(&v));
                    let script = es::swap(old);
                    format!("{r} {:?}", script.log)
                })
            }
            Part::Build(k) => {
                let mut b = hcl::Body::builder();
                let mut it = self.docs[k].hcl.clone().into_iter();
                let mut n = 0;
                Box::new(move || {
                    n += 1;
                    let s = it.next();
                    let mut this = std::mem::take(&mut b);
                    if let Some(s) = s {
                        this = this.add_structure(s);
                    }
                    this = this.add_block(hcl::Block::builder("step").add_label(n.to_string()).build());
                    let body = this.build();
                    let text = show(hcl::to_string(&body), |s| s);
                    b = hcl::Body::builder().add_structures(body);
                    text
                })
            }
        }
    }
}

struct RcSink(std::rc::Rc<std::cell::RefCell<Vec<u8>>>);

impl std::io::Write for RcSink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        point("write");
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// Generation

fn gen_fault(src: &mut Src, n: usize) -> Option<(usize, Fail)> {
    match src.below(4) {
        0 => Some((
            src.below(n + 1),
            if src.below(3) == 0 { Fail::Panic } else { gen_fail(src) },
        )),
        _ => None,
    }
}

fn gen_serde_plan(src: &mut Src) -> sd::Plan {
    let mut p = sd::Plan::default();
    match src.below(4) {
        0 => p.at.push((src.below(12), sd::Kind::Fail)),
        1 => p.at.push((src.below(12), sd::Kind::Panic)),
        _ => {}
    }
    p
}

fn gen_job(src: &mut Src, w: &World) -> Job {
    let doc = src.below(w.docs.len());
    let len = w.docs[doc].text.len();
    match src.weighted(&[3, 3, 3, 4, 6, 2, 2, 3]) {
        0 => Job::Parse {
            doc,
            how: src.below(10),
            bad: src.below(4) == 0,
        },
        1 => Job::Read {
            doc,
            how: src.below(3),
            bad: src.below(4) == 0,
            chunks: Chunks::gen(src),
            fail: gen_fault(src, len),
        },
        2 => Job::Print {
            doc,
            how: src.below(6),
            chunks: Chunks::gen(src),
            fail: gen_fault(src, len),
        },
        3 => {
            let mut plan = es::Plan::default();
            match src.below(4) {
                0 => plan.at.push((src.below(6), es::Kind::Fail)),
                1 => plan.at.push((src.below(6), es::Kind::Panic)),
                _ => {}
            }
            Job::Eval {
                doc: src.below(w.evals.len()),
                way: src.below(5),
                plan,
            }
        }
        4 => Job::Serde {
            doc: src.below(w.data.len()),
            op: *src.pick(OPS),
            plan: gen_serde_plan(src),
            chunks: Chunks::gen(src),
        },
        5 => Job::Visit {
            doc,
            mutable: src.below(2) == 1,
            at: if src.below(2) == 0 { usize::MAX } else { src.below(20) },
            panic: src.below(2) == 1,
        },
        6 => Job::Edit {
            doc,
            steps: (0..src.range(1, 4)).map(|_| src.below(6)).collect(),
            at: if src.below(3) > 0 { usize::MAX } else { src.below(10) },
        },
        _ => {
            let n = src.range(2, 3);
            let parts: Vec<Part> = (0..n)
                .map(|_| match src.below(5) {
                    0 => {
                        let steps = (0..src.range(1, 3)).map(|_| (src.below(w.data.len()), gen_serde_plan(src))).collect();
                        Part::Serializer(steps)
                    }
                    1 => Part::Formatter(src.below(w.docs.len()), src.below(2) == 1),
                    2 => Part::Iterate(src.below(w.docs.len())),
                    3 => Part::Child(src.below(w.evals.len())),
                    _ => Part::Build(src.below(w.docs.len())),
                })
                .collect();
            let order = (0..src.range(3, 9)).map(|_| src.below(n)).collect();
            Job::Braid { parts, order }
        }
    }
}

impl Job {
    /// The job as it is done alone.
    fn alone(&self) -> Job {
        let mut j = self.clone();
        if let Job::Braid { order, .. } = &mut j {
            order.sort_unstable();
        }
        j
    }

    fn kind(&self) -> &'static str {
        match self {
            Job::Parse { .. } => "parse",
            Job::Read { .. } => "read",
            Job::Print { .. } => "print",
            Job::Eval { .. } => "evaluate",
            Job::Serde { .. } => "serde",
            Job::Visit { .. } => "visit",
            Job::Edit { .. } => "edit",
            Job::Braid { .. } => "braid",
        }
    }
}

// ---------------------------------------------------------------------------------------------
// A run

#[derive(Clone)]
struct Task {
    job: usize,
    disturb: Disturb,
    /// What is done at the points of this job: another task.
    inner: Option<(usize, Disturb)>,
}

/// Performs a job on this thread.
fn perform(w: &World, job: &Job, d: &Disturb) -> (String, Done) {
    let (r, done) = sched::job(d, || catch_unwind(AssertUnwindSafe(|| w.perform(job))));
    let r = match r {
        Ok(s) => s,
        Err(_) => format!("panicked by itself: {}", crate::runner::last_panic()),
    };
    (r, done)
}

fn on_thread<R: Send>(f: impl FnOnce() -> R) -> Option<R> {
    // The calling thread does nothing meanwhile.
    struct Force<F>(F);
    unsafe impl<F> Send for Force<F> {}
    impl<R, F: FnOnce() -> R> Force<F> {
        fn call(self) -> R {
            (self.0)()
        }
    }
    let f = Force(f);
    let f = move || f.call();
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, f)
            .ok()?
            .join()
            .ok()
    })
}

fn alone(w: &World, job: &Job) -> Result<(String, Done), String> {
    let bytes = sched::isolated(60, || {
        let job = job.alone();
        let r = on_thread(|| {
            sched::enter(0, None, None);
            perform(w, &job, &Disturb::default())
        });
        match r {
            Some((s, d)) => json!([s, d.points, d.allocs]).to_string().into_bytes(),
            None => b"null".to_vec(),
        }
    })?;
    let j: J = serde_json::from_slice(&bytes).map_err(|e| e.to_string())?;
    match (j[0].as_str(), j[1].as_u64(), j[2].as_u64()) {
        (Some(s), Some(p), Some(a)) => Ok((
            s.to_string(),
            Done {
                points: p as usize,
                allocs: a,
            },
        )),
        _ => Err("no result".into()),
    }
}

fn run(cx: &mut Cx) -> Check {
    let n_docs = cx.src.range(1, 2);
    let mut docs = vec![];
    for _ in 0..n_docs {
        let cfg = Cfg {
            depth: 3,
            width: 3,
            ..Cfg::default()
        };
        let b = G::new(&mut cx.src, cfg).doc();
        let text = m::render_body(&b);
        let mut bad = text.clone();
        let mut at = cx.src.below(text.len() + 1);
        while !bad.is_char_boundary(at) {
            at -= 1;
        }
        if cx.src.below(2) == 0 {
            bad.truncate(at);
        } else {
            bad.insert_str(at, *cx.src.pick(&["}", "\"", "${", "= ", "\n"]));
        }
        let (Ok(hcl), Ok(edit)) = (hcl::parse(&text), text.parse::<xs::Body>()) else {
            // Reading is judged elsewhere.
            cx.probe("unreadable");
            return Ok(());
        };
        ev!(cx, "document {text}");
        docs.push(Shared { text, bad, hcl, edit });
    }
    let world = es::World::gen(&mut cx.src);
    let mut evals = vec![];
    for _ in 0..cx.src.range(1, 2) {
        let b = TG::new(&mut cx.src, 25).body(1);
        let text = m::render_body(&b);
        let Ok(body) = hcl::parse(&text) else {
            cx.probe("unreadable");
            return Ok(());
        };
        ev!(cx, "evaluated {text}");
        let exprs = body.attributes().map(|a| a.expr.clone()).collect();
        evals.push(Evaluated { text, body, exprs });
    }
    let mut data = vec![];
    for _ in 0..cx.src.range(1, 3) {
        let mut g = sd::Gen {
            src: &mut cx.src,
            budget: 14,
        };
        let d = if g.src.below(4) == 0 { g.expr(3) } else { g.top() };
        ev!(cx, "data {d:?}");
        data.push(x02::Doc::new(d));
    }
    let mut w = World {
        docs,
        evals,
        data,
        ctx: world.context(),
        jobs: vec![],
    };
    let n_jobs = cx.src.range(2, if cx.thorough { 7 } else { 5 });
    for _ in 0..n_jobs {
        let j = gen_job(&mut cx.src, &w);
        ev!(cx, "job {} {j:?}", w.jobs.len());
        w.jobs.push(j);
    }

    // Alone.
    let mut want = vec![];
    for (i, j) in w.jobs.iter().enumerate() {
        match alone(&w, j) {
            Ok(r) => {
                ev!(cx, "alone {i}: {:?} {}", r.1, brief(r.0.clone()));
                if r.0.starts_with("panicked by itself") {
                    return violation("panic", format!("{j:?}: {}", r.0));
                }
                want.push(r);
            }
            Err(e) => return violation("alone", format!("{j:?}: {e}")),
        }
    }

    // Together.
    let threads = [2, 1, 2, 3][cx.src.below(4)];
    let patience = *cx.src.pick(&[1, 3, 10]);
    let gen_disturb = |src: &mut Src, job: usize, depth: usize| {
        let done = want[job].1;
        let mut d = Disturb::default();
        if depth < 2 && done.points > 0 && src.below(2) == 0 {
            for _ in 0..src.range(1, 2) {
                d.nest.push((src.below(done.points), src.below(n_jobs)));
            }
        }
        if threads > 1 && done.allocs > 0 {
            for _ in 0..src.below(4) {
                d.preempt.push(src.below(done.allocs as usize) as u64);
            }
            d.preempt.sort_unstable();
        }
        d
    };
    let mut plan: Vec<Vec<Task>> = vec![];
    for t in 0..threads {
        let mut list = vec![];
        for _ in 0..cx.src.range(1, 3) {
            let job = cx.src.below(n_jobs);
            let disturb = gen_disturb(&mut cx.src, job, 0);
            let inner = disturb.nest.first().map(|(_, j)| (*j, gen_disturb(&mut cx.src, *j, 1)));
            ev!(cx, "t{t} does {job} {disturb:?} {inner:?}");
            list.push(Task { job, disturb, inner });
        }
        plan.push(list);
    }
    let rec = unsafe { libc::memfd_create(c"rec".as_ptr(), 0) };
    if rec < 0 {
        return violation("simulator", "no memory file");
    }
    let mut rec = unsafe { std::fs::File::from_raw_fd(rec) };
    let together = sched::isolated(120, || together(&w, cx, &rec, plan, &want, patience));
    // The choices made over there.
    let mut bytes = vec![];
    {
        use std::io::{Read, Seek};
        let _ = rec.rewind();
        let _ = rec.read_to_end(&mut bytes);
    }
    cx.src.extend(bytes.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])));
    let j: J = match together {
        Ok(b) => serde_json::from_slice(&b).unwrap_or(J::Null),
        Err(e) => return violation("together", e),
    };
    for e in j["events"].as_array().into_iter().flatten() {
        ev!(cx, "{}", e.as_str().unwrap_or(""));
    }
    let count = |k: &str| j[k].as_u64().unwrap_or(0);
    for (k, name) in [
        ("switches", "thread_switched"),
        ("interrupted", "interrupted_at_allocation"),
        ("nested", "job_nested"),
        ("stuck", "waited_for_a_lock"),
    ] {
        *cx.faults.entry(name).or_insert(0) += count(k);
    }
    for (w, job) in want.iter().zip(&w.jobs) {
        if w.0.contains("panicked") {
            cx.fault("job_panics");
        }
        if w.0.contains("error: ") || w.0.contains("boom") || w.0.contains("Failed") {
            cx.fault("job_fails");
        }
        cx.probe(job.kind());
    }
    cx.nontrivial = count("switches") + count("nested") > 0;
    match j["violation"].as_str() {
        Some(v) => violation(j["class"].as_str().unwrap_or("result"), v),
        None if j.is_null() => violation("simulator", "no result"),
        None => Ok(()),
    }
}

type Broken = Mutex<Option<Violation>>;

struct Checker {
    w: World2,
    want: Vec<String>,
    broken: Broken,
    nested: std::sync::atomic::AtomicU64,
}

/// The shared things outlive all threads of the process they are used in. Only one thread runs at
/// a time, so that they may be shared in any case.
#[derive(Clone, Copy)]
struct World2(*const World);

unsafe impl Send for World2 {}
unsafe impl Sync for World2 {}

impl World2 {
    fn get(&self) -> &'static World {
        unsafe { &*self.0 }
    }
}

impl Checker {
    /// Whether a result is the one the job has alone.
    fn check(&self, job: usize, got: &str, where_: &str) {
        let want = &self.want[job];
        // What cannot be done there is left out.
        if got == want || got.is_empty() {
            return;
        }
        let mut b = self.broken.lock().unwrap_or_else(|p| p.into_inner());
        b.get_or_insert_with(|| Violation {
            class: format!("{} {}", self.w.get().jobs[job].kind(), where_.split(' ').next().unwrap_or("")),
            msg: format!("job {job} {:?} {where_} comes to\n{got}\ninstead of\n{want}", self.w.get().jobs[job]),
        });
    }
}

fn together(w: &World, cx: &mut Cx, rec: &std::fs::File, plan: Vec<Vec<Task>>, want: &[(String, Done)], patience: usize) -> Vec<u8> {
    // This process ends before anything of it is gone.
    let w = World2(w);
    let mut src = std::mem::replace(&mut cx.src, Src::replay(vec![]));
    src.sink = rec.try_clone().ok();
    let repeats = if src.below(24) == 0 { 140 } else { 1 };
    let before = w.get().state();
    let checker = Arc::new(Checker {
        w,
        want: want.iter().map(|r| r.0.clone()).collect(),
        broken: Mutex::new(None),
        nested: 0.into(),
    });
    let n = plan.len();
    let sched = Sched::new(src, n, patience);
    let mut handles = vec![];
    for (id, list) in plan.into_iter().enumerate() {
        let (sched, checker) = (sched.clone(), checker.clone());
        let body = move || {
            sched.begin(id);
            for t in list {
                let nested = {
                    let (sched, checker, inner) = (sched.clone(), checker.clone(), t.inner.clone());
                    move |job: usize| {
                        let d = match &inner {
                            Some((j, d)) if *j == job && sched::depth() == 1 => d.clone(),
                            _ => Disturb::default(),
                        };
                        checker.nested.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        sched.note(format!("t{id} nests {job} at depth {}", sched::depth()));
                        let (r, _) = perform(checker.w.get(), &checker.w.get().jobs[job], &d);
                        checker.check(job, &r, "nested in another job");
                        sched.note(format!("t{id} has nested {job}"));
                    }
                };
                sched::enter(id, Some(sched.clone()), Some(Arc::new(nested)));
                let (r, done) = perform(checker.w.get(), &checker.w.get().jobs[t.job], &t.disturb);
                checker.check(t.job, &r, "together with others");
                sched.note(format!("t{id} has done {} in {} points", t.job, done.points));
            }
            sched::enter(id, None, None);
            sched.end(id);
        };
        match std::thread::Builder::new().stack_size(16 << 20).spawn(body) {
            Ok(h) => handles.push(h),
            Err(e) => return json!({"violation": format!("no thread: {e}"), "class": "simulator"}).to_string().into_bytes(),
        }
    }
    let ended = sched.drive(Duration::from_secs(60));
    if ended {
        for h in handles {
            let _ = h.join();
        }
        // Afterwards.
        let again = on_thread(|| {
            sched::enter(0, None, None);
            for _ in 0..repeats {
                for (i, job) in w.get().jobs.iter().enumerate() {
                    let (r, _) = perform(w.get(), &job.alone(), &Disturb::default());
                    checker.check(i, &r, "afterwards");
                }
            }
        });
        if again.is_none() {
            return json!({"violation": "jobs done afterwards panic", "class": "afterwards"}).to_string().into_bytes();
        }
    }
    let broken = checker.broken.lock().unwrap_or_else(|p| p.into_inner()).take();
    let broken = broken
        .or_else(|| {
            (!ended).then(|| Violation {
                class: "deadlock".into(),
                msg: "the threads do not end".into(),
            })
        })
        .or_else(|| {
            (w.get().state() != before).then(|| Violation {
                class: "shared".into(),
                msg: format!("shared data has changed from\n{before}\nto\n{}", w.get().state()),
            })
        });
    let s = sched.finish();
    json!({
        "events": s.events,
        "switches": s.switches,
        "interrupted": s.interrupted,
        "stuck": s.stuck,
        "nested": checker.nested.load(std::sync::atomic::Ordering::Relaxed),
        "class": broken.as_ref().map(|b| b.class.clone()),
        "violation": broken.map(|b| b.msg),
    })
    .to_string()
    .into_bytes()
}
