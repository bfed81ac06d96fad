//! V01: evaluation calls functions in order, once, and reports their failures.

mod signature;

use crate::canon;
use crate::cx::{is_injected, violation, Check, Cx};
use crate::ev;
use crate::evalsim::{self as es, Call, Fail, Kind, Plan, Ref, World, DEFS, TG};
use crate::make;
use crate::model::{self as m, B, E, T};
use crate::runner::{no_known, Prop};
use hcl::eval::{Context, Evaluate};
use hcl::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub static PROP: Prop = Prop {
    id: "V01",
    run,
    runs: (330_000, 5_000_000),
    rule: "a run evaluates a generated expression, template or body several times, with scripted functions that fail or panic at a \
           chosen invocation and changes of the context in between; non-trivial if the evaluated text calls at least one function; \
           counted by the hash over texts, plans and call histories",
    real: &["hcl-rs evaluation, templates and parser", "hcl-edit", "hcl-primitives"],
    stubs: &["user functions"],
    assumptions: &["functions are deterministic in their arguments"],
    known: no_known,
    stack_mb: 64,
    hang_s: 60,
    workers: 8,
};

enum Doc {
    Expr(E, hcl::Expression),
    Body(B, hcl::Body),
    Template(Vec<T>, hcl::Template),
}

/// What an evaluation comes to.
#[derive(Debug, PartialEq, Clone)]
enum Res {
    Value(String),
    Text(String),
    Failed(String),
    Panicked,
}

fn calls(log: &[Call]) -> String {
    let list: Vec<String> = log
        .iter()
        .map(|c| format!("{}({}) = {:?}", c.func, c.args, c.outcome))
        .collect();
    list.join("; ")
}

enum Real {
    Value(String),
    Text(String),
    Err(hcl::eval::Error),
    /// An error that was turned into an error of the crate.
    Text2(String),
}

impl Doc {
    fn state(&self) -> String {
        match self {
            Doc::Expr(_, x) => canon::hcl_e(x),
            Doc::Body(_, x) => canon::hcl_body(x),
            Doc::Template(_, x) => canon::hcl_template(x),
        }
    }

    fn real(&self, ctx: &Context, way: usize, text: &str) -> std::thread::Result<Real> {
        catch_unwind(AssertUnwindSafe(|| match self {
            Doc::Expr(_, x) => {
                if let (hcl::Expression::TemplateExpr(t), 1) = (x, way) {
                    return match t.evaluate(ctx) {
                        Ok(v) => Real::Value(canon::value(&v)),
                        Err(e) => Real::Err(e),
                    };
                }
                match x.evaluate(ctx) {
                    Ok(v) => Real::Value(canon::value(&v)),
                    Err(e) => Real::Err(e),
                }
            }
            Doc::Template(_, x) => match x.evaluate(ctx) {
                Ok(s) => Real::Value(format!("{s:?}")),
                Err(e) => Real::Err(e),
            },
            Doc::Body(_, x) => match way {
                0 => match x.evaluate(ctx) {
                    Ok(b) => Real::Value(canon::hcl_body(&b)),
                    Err(e) => Real::Err(e),
                },
                1 => match hcl::eval::to_string(x, ctx) {
                    Ok(s) => Real::Text(s),
                    Err(hcl::Error::Eval(e)) => Real::Err(e),
                    Err(e) => Real::Text2(e.to_string()),
                },
                2 => match hcl::eval::from_str::<hcl::Body>(text, ctx) {
                    Ok(b) => Real::Value(canon::hcl_body(&b)),
                    Err(hcl::Error::Eval(e)) => Real::Err(e),
                    Err(e) => Real::Text2(e.to_string()),
                },
                _ => match hcl::eval::from_str::<Value>(text, ctx) {
                    Ok(b) => Real::Text(canon::value(&b)),
                    Err(hcl::Error::Eval(e)) => Real::Err(e),
                    Err(e) => Real::Text2(e.to_string()),
                },
            },
        }))
    }

    fn expected(&self, r: &mut Ref, way: usize) -> Result<Res, Fail> {
        Ok(match self {
            Doc::Expr(e, _) => Res::Value(canon::value(&r.expr(e)?)),
            Doc::Template(t, _) => Res::Value(format!("{:?}", r.template(t)?)),
            Doc::Body(b, _) => {
                let b = r.body(b)?;
                match way {
                    0 | 2 => Res::Value(canon::hcl_body(&b)),
                    1 => Res::Text(hcl::to_string(&b).unwrap_or_default()),
                    _ => match hcl::from_body::<Value>(b) {
                        Ok(v) => Res::Text(canon::value(&v)),
                        Err(e) => Res::Text(e.to_string()),
                    },
                }
            }
        })
    }
}

fn step(cx: &mut Cx, doc: &Doc, text: &str, world: &World, ctx: &Context, plan: &Plan) -> Check {
    let way = cx.src.below(4);
    let before = doc.state();
    es::start(plan);
    let real = doc.real(ctx, way, text);
    let script = es::finish();
    let mut r = Ref::new(world, plan);
    let want = doc.expected(&mut r, way);
    ev!(cx, "evaluate way {way} {plan:?}: {}", calls(&script.log));
    let ctxt = |what: &str| format!("{what}\n{text}\ncalls: {}", calls(&script.log));
    if let Some(b) = script.broken {
        return violation("arguments", b);
    }
    let res = match real {
        Err(p) if is_injected(&*p) => Res::Panicked,
        Err(p) => std::panic::resume_unwind(p),
        Ok(Real::Value(v)) => Res::Value(v),
        Ok(Real::Text(v) | Real::Text2(v)) => Res::Text(v),
        Ok(Real::Err(e)) => match &want {
            Err(f) if f.is(&e) => Res::Failed(format!("{f:?}")),
            _ => Res::Failed(e.to_string()),
        },
    };
    let want = match want {
        Ok(r) => r,
        Err(Fail::Panic) => Res::Panicked,
        Err(f) => Res::Failed(format!("{f:?}")),
    };
    ev!(cx, "result {res:?}");
    if script.log != r.log {
        return violation(
            "calls",
            format!("{}\ninstead of: {}", ctxt("the calls are not those required"), calls(&r.log)),
        );
    }
    if res != want {
        return violation("result", ctxt(&format!("{res:?} instead of {want:?}")));
    }
    match &res {
        Res::Failed(_) => cx.fault(if plan.at.is_empty() && plan.sites.is_empty() {
            "static_error"
        } else {
            "evaluation_failed"
        }),
        Res::Panicked => cx.fault("function_panic"),
        _ => {}
    }
    if doc.state() != before {
        return violation("changed", ctxt("evaluation changed the expression"));
    }
    Ok(())
}

fn run(cx: &mut Cx) -> Check {
    if cx.src.below(16) == 15 {
        return signature::run(cx);
    }
    let mut world = World::gen(&mut cx.src);
    let mut ctx = world.context();
    let budget = if cx.thorough { 90 } else { 45 };
    let mut g = TG::new(&mut cx.src, budget);
    g.wrong = g.src.below(2) == 1;
    let (doc, text) = match g.src.weighted(&[5, 3, 1]) {
        0 => {
            let ty = *g.src.pick(&[es::Ty::Str, es::Ty::Num, es::Ty::Bool, es::Ty::Nums, es::Ty::Map, es::Ty::Objs]);
            let e = g.expr(ty, 5);
            let text = m::render_expr(&e);
            let x = if cx.src.below(2) == 0 {
                make::hcl_e(&e)
            } else {
                match text.parse() {
                    Ok(x) => x,
                    Err(e) => return violation("parse", format!("{e}\n{text}")),
                }
            };
            (Doc::Expr(e, x), text)
        }
        1 => {
            let b = g.body(2);
            let text = m::render_body(&b);
            let x = if cx.src.below(2) == 0 {
                make::hcl_body(&b)
            } else {
                match hcl::parse(&text) {
                    Ok(x) => x,
                    Err(e) => return violation("parse", format!("{e}\n{text}")),
                }
            };
            (Doc::Body(b, x), text)
        }
        _ => {
            let t = g.parts(4);
            let text = m::render_template(&t);
            let x = match text.parse() {
                Ok(x) => x,
                Err(e) => return violation("parse", format!("{e}\n{text}")),
            };
            (Doc::Template(t, x), text)
        }
    };
    ev!(cx, "text {text}");
    let mut total = {
        let mut r = Ref::new(&world, &Plan::default());
        let _ = doc.expected(&mut r, 0);
        r.log.len()
    };
    cx.nontrivial = total > 0;
    let saved = ctx.clone();
    let world0 = world.clone();
    let steps = cx.src.range(1, 5);
    for _ in 0..steps {
        match cx.src.below(8) {
            0 => {
                let v = Value::from(cx.src.below(5) as u64 + 10);
                world.set_var(&mut ctx, "n2", v);
                ev!(cx, "n2 changes");
            }
            1 => {
                let to = cx.src.below(2) * 2;
                let name = DEFS[0].full();
                world.set_func(&mut ctx, &name, to);
                ev!(cx, "num is {}", DEFS[to].name);
            }
            _ => {
                let mut plan = Plan::default();
                if cx.src.below(4) > 0 {
                    let kind = if cx.src.below(2) == 0 { Kind::Fail } else { Kind::Panic };
                    plan.at.push((cx.src.below(total + 1), kind));
                    if kind == Kind::Fail {
                        cx.fault("function_failure_planned");
                    }
                }
                step(cx, &doc, &text, &world, &ctx, &plan)?;
                continue;
            }
        }
        let mut r = Ref::new(&world, &Plan::default());
        let _ = doc.expected(&mut r, 0);
        total = r.log.len();
    }
    // Failures stop: the value is the one without failures, also in the context as it was.
    step(cx, &doc, &text, &world, &ctx, &Plan::default())?;
    step(cx, &doc, &text, &world0, &saved, &Plan::default())
}
