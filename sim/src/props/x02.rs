//! X02: a failed serialization or deserialization leaves no trace.

use crate::canon;
use crate::cx::{is_injected, violation, Check, Cx};
use crate::ev;
use crate::io::{Chunks, SimReader};
use crate::runner::Prop;
use crate::serdesim::{self as sd, Dt, Gen, Kind, Out, Plan, Ran, Ser, Via};
use hcl::format::Format;
use hcl::ser::Serializer;
use hcl::{Body, Expression};
use serde::Deserialize;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub static PROP: Prop = Prop {
    id: "X02",
    run,
    runs: (300_000, 6_000_000),
    rule: "a run serializes and deserializes several generated values in several ways, with the values' own code failing, panicking or \
           calling back into the crate at chosen points; non-trivial if user code ran at least three times in an operation; counted by \
           the hash over values, operations, faults and results",
    real: &["hcl-rs serde support, formatting, parser", "hcl-edit", "hcl-primitives"],
    stubs: &["user data types", "writers and readers"],
    assumptions: &["data types serialize deterministically"],
    known,
    stack_mb: 64,
    hang_s: 60,
    workers: 8,
};

pub(super) fn known() -> Vec<(String, bool)> {
    struct Foreign;
    impl serde::Serialize for Foreign {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            let e: Expression = "x".parse().map_err(serde::ser::Error::custom)?;
            s.serialize_str(&serde_json::to_string(&e).map_err(serde::ser::Error::custom)?)
        }
    }
    let alone = hcl::to_value(Foreign).map(|v| canon::value(&v));
    let within = hcl::to_string(&std::collections::BTreeMap::from([("a", Foreign)]));
    vec![(
        "a value whose Serialize implementation calls another serializer (serde_json::to_string of a hcl::Expression) while hcl serializes it gets internal handles".into(),
        match (alone, within) {
            (Ok(_), Ok(t)) => t.contains("handle"),
            _ => true,
        },
    )]
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub(super) enum Op {
    ToString,
    ToVec,
    ToWriter,
    SerializeString,
    ToValue,
    ToExpression,
    ToExpressionOwned,
    ToBody,
    ToJson,
    FromStr,
    FromSlice,
    FromReader,
    FromBody,
    FromValue,
    FromExpression,
}

pub(super) const OPS: &[Op] = &[
    Op::ToString,
    Op::ToVec,
    Op::ToWriter,
    Op::SerializeString,
    Op::ToValue,
    Op::ToExpression,
    Op::ToExpressionOwned,
    Op::ToBody,
    Op::ToJson,
    Op::FromStr,
    Op::FromSlice,
    Op::FromReader,
    Op::FromBody,
    Op::FromValue,
    Op::FromExpression,
];

#[derive(Clone, Debug, PartialEq)]
pub(super) enum Res {
    Text(String),
    Read(String),
    Failed(String),
    Panicked,
}

impl Res {
    fn is_ok(&self) -> bool {
        matches!(self, Res::Text(_) | Res::Read(_))
    }
}

/// A value with everything it should be written as.
pub(super) struct Doc {
    pub(super) d: Dt,
    value: Result<hcl::Value, String>,
    expr: Result<Expression, String>,
    body: Result<Body, String>,
    text: Result<String, String>,
}

impl Doc {
    pub(super) fn new(d: Dt) -> Doc {
        let body = sd::body(&d).map(Body::from);
        let text = match &body {
            Ok(b) => hcl::format::to_string(b).map_err(|e| e.to_string()),
            Err(e) => Err(e.clone()),
        };
        Doc {
            value: sd::value(&d),
            expr: sd::expression(&d),
            body,
            text,
            d,
        }
    }

    /// What an operation comes to if nothing fails; nothing if that is not said.
    fn expected(&self, op: Op) -> Option<Res> {
        let fail = |r: Result<String, String>| r.map_or_else(Res::Failed, Res::Text);
        let read = |ok: bool| ok.then(|| Res::Read(format!("{:?}", self.d)));
        match op {
            Op::ToString | Op::ToVec | Op::ToWriter | Op::SerializeString => Some(fail(self.text.clone())),
            Op::ToValue => Some(fail(self.value.clone().map(|v| canon::value(&v)))),
            Op::ToExpression | Op::ToExpressionOwned => Some(fail(self.expr.clone().map(|e| format!("{e:?}")))),
            Op::ToBody => Some(fail(self.body.clone().map(|e| format!("{e:?}")))),
            Op::ToJson => self.value.as_ref().ok().map(|v| Res::Text(canon::value(v))),
            Op::FromStr | Op::FromSlice | Op::FromReader | Op::FromBody => read(self.text.is_ok() && sd::readable_body(&self.d)),
            Op::FromValue => read(self.value.is_ok() && sd::readable(&self.d, Via::Value)),
            Op::FromExpression => read(self.expr.is_ok() && sd::readable(&self.d, Via::Expr)),
        }
    }

    pub(super) fn embeds(&self) -> bool {
        let t = format!("{:?}", self.d);
        t.contains("Expr(") || t.contains("Node(")
    }

    /// Whether there is something to read.
    pub(super) fn possible(&self, op: Op) -> bool {
        match op {
            Op::FromStr | Op::FromSlice | Op::FromReader | Op::FromBody => self.text.is_ok(),
            Op::FromValue => self.value.is_ok(),
            Op::FromExpression => self.expr.is_ok(),
            _ => true,
        }
    }
}

/// Counts what reaches it.
struct Sink<'a>(&'a RefCell<Vec<u8>>);

impl std::io::Write for Sink<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Performs an operation whose user code follows the plan. The second result says what is wrong
/// with the way it failed.
pub(super) fn perform(op: Op, doc: &Doc, plan: &Plan, chunks: &Chunks) -> (Res, Ran, Option<String>) {
    let out: RefCell<Vec<u8>> = RefCell::new(vec![]);
    let d = &doc.d;
    let (r, ran) = sd::scripted(plan, || -> Result<Res, String> {
        let text = |r: hcl::Result<String>| r.map(Res::Text).map_err(|e| e.to_string());
        let read = |r: hcl::Result<Out>| r.map(|d| Res::Read(format!("{:?}", d.0))).map_err(|e| e.to_string());
        let input = || doc.text.clone().unwrap_or_default();
        match op {
            Op::ToString => text(hcl::to_string(&Ser(d))),
            Op::ToVec => text(hcl::to_vec(&Ser(d)).map(|b| String::from_utf8_lossy(&b).into_owned())),
            Op::ToWriter => text(hcl::to_writer(Sink(&out), &Ser(d)).map(|()| String::from_utf8_lossy(&out.borrow()).into_owned())),
            Op::SerializeString => {
                let mut s = Serializer::with_formatter(hcl::format::Formatter::default());
                text(s.serialize_string(&Ser(d)))
            }
            Op::ToValue => text(hcl::to_value(Ser(d)).map(|v| canon::value(&v))),
            Op::ToExpression => text(hcl::to_expression(&Ser(d)).map(|e| format!("{e:?}"))),
            Op::ToExpressionOwned => text(hcl::to_expression(Ser(d)).map(|e| format!("{e:?}"))),
            Op::ToBody => text(Body::from_serializable(&Ser(d)).map(|e| format!("{e:?}"))),
            Op::ToJson => serde_json::to_value(Ser(d))
                .map(|v| Res::Text(canon::json(&v)))
                .map_err(|e| e.to_string()),
            Op::FromStr => sd::with_shape(d, || read(hcl::from_str::<Out>(&input()))),
            Op::FromSlice => sd::with_shape(d, || read(hcl::from_slice::<Out>(input().as_bytes()))),
            Op::FromReader => {
                let input = input();
                let reader = SimReader::new(input.as_bytes(), chunks.clone(), None);
                sd::with_shape(d, || read(hcl::from_reader::<Out, _>(reader)))
            }
            Op::FromBody => sd::with_shape(d, || read(hcl::from_body::<Out>(doc.body.clone().unwrap_or_default()))),
            Op::FromValue => sd::with_shape(d, || read(hcl::from_value::<Out>(doc.value.clone().unwrap_or(hcl::Value::Null)))),
            Op::FromExpression => sd::with_shape(d, || read(Out::deserialize(doc.expr.clone().unwrap_or(Expression::Null)))),
        }
    });
    let res = match r {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => Res::Failed(e),
        Err(p) if is_injected(&*p) => Res::Panicked,
        Err(p) => std::panic::resume_unwind(p),
    };
    let wrong = match (ran.fired, &res) {
        (Some(Kind::Fail), Res::Failed(e)) if e.contains("boom") => None,
        (Some(Kind::Panic), Res::Panicked) => None,
        (None | Some(Kind::Nest), r) if *r != Res::Panicked => None,
        (f, r) => Some(format!("user code did {f:?} but the result is {r:?}")),
    };
    let wrong = wrong.or_else(|| {
        (!res.is_ok() && !out.borrow().is_empty())
            .then(|| format!("failed, but wrote {:?}", String::from_utf8_lossy(&out.borrow())))
    });
    (res, ran, wrong)
}

/// The results of operations may be spelled differently by the oracle if they fail.
fn same(got: &Res, want: &Res) -> bool {
    match (got, want) {
        (Res::Failed(_), Res::Failed(_)) => true,
        (a, b) => a == b,
    }
}

struct World {
    docs: Vec<Doc>,
    /// What operations without an expectation came to alone.
    alone: Vec<Vec<Res>>,
    chunks: Chunks,
}

impl World {
    fn want(&self, i: usize, op: Op) -> (Res, bool) {
        match self.docs[i].expected(op) {
            Some(r) => (r, true),
            None => (self.alone[i][OPS.iter().position(|o| *o == op).unwrap_or(0)].clone(), false),
        }
    }

    fn check(&self, i: usize, op: Op, plan: &Plan) -> Result<(Res, Ran), String> {
        let doc = &self.docs[i];
        let (res, ran, wrong) = perform(op, doc, plan, &self.chunks);
        if let Some(w) = wrong {
            return Err(format!("{op:?}: {w}"));
        }
        if matches!(ran.fired, None | Some(Kind::Nest)) {
            let (want, said) = self.want(i, op);
            if !(same(&res, &want) && (said || res == want)) {
                return Err(format!(
                    "{op:?} of {:?}\ncomes to {res:?}\ninstead of {want:?}\ntext: {}",
                    doc.d,
                    doc.text.clone().unwrap_or_default()
                ));
            }
        }
        Ok((res, ran))
    }
}

fn run(cx: &mut Cx) -> Check {
    if cx.src.below(12) == 0 {
        return crate::owntypes::run(cx);
    }
    let n = cx.src.range(1, 3);
    let mut docs = vec![];
    for _ in 0..n {
        let budget = if cx.thorough { 40 } else { 16 };
        let mut g = Gen {
            src: &mut cx.src,
            budget,
        };
        let d = if g.src.below(4) == 0 { g.expr(4) } else { g.top() };
        ev!(cx, "data {d:?}");
        docs.push(Doc::new(d));
    }
    let chunks = Chunks::gen(&mut cx.src);
    let alone = docs
        .iter()
        .map(|d| OPS.iter().map(|op| perform(*op, d, &Plan::default(), &chunks).0).collect())
        .collect();
    let world = Rc::new(World { docs, alone, chunks });
    for i in 0..n {
        if let Ok(t) = &world.docs[i].text {
            ev!(cx, "text {t}");
        }
    }

    let mut reused = Serializer::new(Vec::new());
    // A formatter that is used on remembers what it has written before.
    let mut reference = hcl::format::Formatter::new(Vec::new());
    let steps = cx.src.range(1, if cx.thorough { 12 } else { 6 });
    for _ in 0..steps {
        let i = cx.src.below(n);
        let op = *cx.src.pick(OPS);
        if !world.docs[i].possible(op) {
            continue;
        }
        // Where user code runs.
        let (_, ran, _) = perform(op, &world.docs[i], &Plan::default(), &world.chunks);
        if ran.ticks >= 3 {
            cx.nontrivial = true;
        }
        let mut plan = Plan::default();
        let fault = cx.src.below(4);
        if fault > 0 && ran.ticks > 0 {
            let kind = [Kind::Fail, Kind::Panic, Kind::Nest][fault - 1];
            let at = cx.src.below(ran.ticks);
            plan.at.push((at, kind));
            if kind == Kind::Nest {
                // Later the outer operation may fail as well.
                if cx.src.below(3) == 0 {
                    let kind = *cx.src.pick(&[Kind::Fail, Kind::Panic]);
                    plan.at.push((at + 1 + cx.src.below(ran.ticks), kind));
                }
            }
        }
        // What a callback does.
        let inner = (cx.src.below(n), *cx.src.pick(OPS), cx.src.below(4), cx.src.below(20));
        let broken: Rc<RefCell<Option<String>>> = Rc::default();
        let nested = Rc::new(Cell::new(0_u32));
        let hook = {
            let (world, broken, nested) = (world.clone(), broken.clone(), nested.clone());
            Box::new(move |_| {
                let (i, op, kind, at) = inner;
                // Serializers of other crates get internal handles (a known finding).
                let foreign = matches!(op, Op::ToJson | Op::ToValue) && world.docs[i].embeds();
                if !world.docs[i].possible(op) || foreign {
                    return;
                }
                nested.set(nested.get() + 1);
                let mut plan = Plan::default();
                match kind {
                    1 => plan.at.push((at, Kind::Fail)),
                    2 => plan.at.push((at, Kind::Panic)),
                    _ => {}
                }
                if let Err(e) = world.check(i, op, &plan) {
                    *broken.borrow_mut() = Some(e);
                }
            })
        };
        if cx.src.below(6) == 0 {
            // One serializer for several values.
            let doc = &world.docs[i];
            let (r, ran) = sd::with_hook(hook, || sd::scripted(&plan, || reused.serialize(&Ser(&doc.d))));
            ev!(cx, "serialize {i} {plan:?} {ran:?}");
            let ok = match (ran.fired, r) {
                (Some(Kind::Fail), Ok(Err(e))) => e.to_string().contains("boom"),
                (Some(Kind::Panic), Err(p)) => is_injected(&*p),
                (None, Ok(Err(_))) => doc.text.is_err(),
                (None, Ok(Ok(()))) => doc.body.as_ref().is_ok_and(|b| b.format(&mut reference).is_ok()),
                _ => false,
            };
            if !ok {
                return violation("serializer", format!("{:?} {plan:?} {ran:?}", doc.d));
            }
            note(cx, ran.fired);
        } else {
            let r = sd::with_hook(hook, || world.check(i, op, &plan));
            match r {
                Ok((res, ran)) => {
                    ev!(cx, "{op:?} {i} {plan:?} {ran:?} {res:?}");
                    note(cx, ran.fired);
                }
                Err(e) => return violation(&format!("{op:?}"), e),
            }
        }
        if nested.get() > 0 {
            cx.fault("nested_operation");
            ev!(cx, "nested {inner:?}");
        }
        let broken = broken.borrow_mut().take();
        if let Some(e) = broken {
            return violation("nested", e);
        }
    }
    if reused.into_inner() != reference.into_inner() {
        return violation("reused", "a serializer used several times has written something else");
    }
    // Faults stop.
    for i in 0..n {
        for op in OPS {
            if world.docs[i].possible(*op) {
                if let Err(e) = world.check(i, *op, &Plan::default()) {
                    return violation(&format!("{op:?}"), format!("after faults: {e}"));
                }
            }
        }
        let doc = &world.docs[i];
        cx.probe(if doc.text.is_ok() { "body" } else { "no_body" });
        if doc.text.is_ok() && sd::readable_body(&doc.d) {
            cx.probe("read_from_text");
        }
    }
    Ok(())
}

fn note(cx: &mut Cx, fired: Option<Kind>) {
    match fired {
        Some(Kind::Fail) => cx.fault("user_code_failed"),
        Some(Kind::Panic) => cx.fault("user_code_panicked"),
        _ => {}
    }
}
