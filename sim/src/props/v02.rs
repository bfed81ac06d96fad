//! V02: in-place evaluation loses nothing and completes once faults stop.

use crate::canon;
use crate::cx::{is_injected, violation, Check, Cx};
use crate::ev;
use crate::evalsim::{self as es, Kind, Outcome, Plan, Ref, Script, World, TG};
use crate::make;
use crate::model::{self as m, Key, OpK, B, E, K, S, T};
use crate::runner::{no_known, Prop};
use std::fmt::Write;
use hcl::eval::{Context, ErrorKind, Errors, Evaluate};
use hcl::expr::{Expression as X, ObjectKey, Operation, TraversalOperator};
use hcl::template::{Directive, Element};
use hcl::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub static PROP: Prop = Prop {
    id: "V02",
    run,
    runs: (300_000, 4_000_000),
    rule: "a run evaluates a generated body, expression, template or part of them in place several times, with scripted functions \
           that fail at chosen call sites or invocations or panic; non-trivial if the text calls at least one function; counted by \
           the hash over texts, plans and call histories",
    real: &["hcl-rs evaluation, templates and parser", "hcl-edit", "hcl-primitives"],
    stubs: &["user functions"],
    assumptions: &["functions are deterministic in their arguments"],
    known: no_known,
    stack_mb: 64,
    hang_s: 60,
    workers: 8,
};

// ---------------------------------------------------------------------------------------------
// What an expression may become

struct Judge<'w> {
    world: &'w World,
}

type Bad = Result<(), String>;

fn entries(o: &hcl::expr::Object<ObjectKey, X>) -> Vec<(String, String)> {
    o.iter()
        .map(|(k, v)| {
            let k = match k {
                ObjectKey::Expression(e) => canon::hcl_e(e),
                k => format!("id {k}"),
            };
            (k, canon::hcl_e(v))
        })
        .collect()
}

impl Judge<'_> {
    fn value(&self, e: &E) -> Option<Value> {
        Ref::new(self.world, &Plan::default()).expr(e).ok()
    }

    /// The expression that stands for the value of another.
    fn evaluated(&self, e: &E) -> Option<String> {
        self.value(e).map(|v| canon::hcl_e(&X::from(v)))
    }

    fn same(old: &X, new: &X) -> Bad {
        let (old, new) = (canon::hcl_e(old), canon::hcl_e(new));
        if old == new {
            Ok(())
        } else {
            Err(format!("{old} became {new}"))
        }
    }

    fn key(&self, k: &Key, old: &ObjectKey, new: &ObjectKey) -> Bad {
        match (k, old, new) {
            (Key::Ex(e), ObjectKey::Expression(old), ObjectKey::Expression(new)) => self.expr(e, old, new),
            _ if old == new => Ok(()),
            _ => Err(format!("the key {old:?} became {new:?}")),
        }
    }

    /// An object all of whose keys and values are evaluated keeps one entry per key.
    fn merged(&self, o: &m::Obj) -> Option<Vec<(String, String)>> {
        let mut list: Vec<(String, String)> = Vec::new();
        for it in &o.items {
            let k = match &it.key {
                Key::Id(i) => format!("id {}", i.s),
                Key::Ex(e) => self.evaluated(e)?,
            };
            let v = self.evaluated(&it.e)?;
            match list.iter_mut().find(|(j, _)| *j == k) {
                Some(entry) => entry.1 = v,
                None => list.push((k, v)),
            }
        }
        Some(list)
    }

    fn expr(&self, e: &E, old: &X, new: &X) -> Bad {
        if Judge::same(old, new).is_ok() || self.evaluated(e) == Some(canon::hcl_e(new)) {
            return Ok(());
        }
        self.parts(e, old, new)
    }

    /// The expression is of the same kind as before, but parts of it may be evaluated.
    fn parts(&self, e: &E, old: &X, new: &X) -> Bad {
        match (&e.k, old, new) {
            (K::Paren(e), X::Parenthesis(old), X::Parenthesis(new)) => self.expr(e, old, new),
            (K::Arr(a), X::Array(old), X::Array(new)) if old.len() == new.len() && a.items.len() == old.len() => {
                for (e, (old, new)) in a.items.iter().zip(old.iter().zip(new)) {
                    self.expr(e, old, new)?;
                }
                Ok(())
            }
            (K::Obj(o), X::Object(old), X::Object(new)) if o.items.len() == old.len() => {
                if old.len() != new.len() {
                    let list = entries(new);
                    if self.merged(o).as_ref() == Some(&list) {
                        return Ok(());
                    }
                    return Err(format!("entries are lost: {list:?}"));
                }
                for (it, (old, new)) in o.items.iter().zip(old.iter().zip(new.iter())) {
                    self.key(&it.key, old.0, new.0)?;
                    self.expr(&it.e, old.1, new.1)?;
                }
                Ok(())
            }
            (K::Cond(c), X::Conditional(old), X::Conditional(new)) => {
                self.expr(&c[0], &old.cond_expr, &new.cond_expr)?;
                self.expr(&c[1], &old.true_expr, &new.true_expr)?;
                self.expr(&c[2], &old.false_expr, &new.false_expr)?;
                match self.value(&c[0]) {
                    Some(Value::Bool(true)) => Judge::same(&old.false_expr, &new.false_expr),
                    Some(Value::Bool(false)) => Judge::same(&old.true_expr, &new.true_expr),
                    _ => Ok(()),
                }
            }
            (K::Un(_, e), X::Operation(old), X::Operation(new)) => match (&**old, &**new) {
                (Operation::Unary(old), Operation::Unary(new)) if old.operator == new.operator => {
                    self.expr(e, &old.expr, &new.expr)
                }
                _ => Err(format!("{old:?} became {new:?}")),
            },
            (K::Bin(l, _, _, r), X::Operation(old), X::Operation(new)) => match (&**old, &**new) {
                (Operation::Binary(old), Operation::Binary(new)) if old.operator == new.operator => {
                    self.expr(l, &old.lhs_expr, &new.lhs_expr)?;
                    self.expr(r, &old.rhs_expr, &new.rhs_expr)
                }
                _ => Err(format!("{old:?} became {new:?}")),
            },
            (K::Call(c), X::FuncCall(old), X::FuncCall(new))
                if old.name == new.name
                    && old.expand_final == new.expand_final
                    && old.args.len() == new.args.len()
                    && c.args.len() == old.args.len() =>
            {
                for (e, (old, new)) in c.args.iter().zip(old.args.iter().zip(&new.args)) {
                    self.expr(e, old, new)?;
                }
                Ok(())
            }
            (K::Trav(base, ops), X::Traversal(old), X::Traversal(new))
                if old.operators.len() == new.operators.len() && ops.len() == old.operators.len() =>
            {
                self.expr(base, &old.expr, &new.expr)?;
                for (op, (old, new)) in ops.iter().zip(old.operators.iter().zip(&new.operators)) {
                    match (&op.k, old, new) {
                        (OpK::Index(e), TraversalOperator::Index(old), TraversalOperator::Index(new)) => {
                            self.expr(e, old, new)?;
                        }
                        _ if old == new => {}
                        _ => return Err(format!("{old:?} became {new:?}")),
                    }
                }
                Ok(())
            }
            (K::For(f), X::ForExpr(old), X::ForExpr(new)) => {
                self.expr(&f.coll, &old.collection_expr, &new.collection_expr)?;
                let mut rest = new.clone();
                rest.collection_expr = old.collection_expr.clone();
                Judge::same(&X::ForExpr(old.clone()), &X::ForExpr(rest))
            }
            _ => Judge::same(old, new),
        }
    }

    fn template(&self, parts: &[T], old: &[Element], new: &[Element]) -> Bad {
        if old.len() != new.len() || parts.len() != old.len() {
            return Err(format!("{old:?} became {new:?}"));
        }
        for (t, (old, new)) in parts.iter().zip(old.iter().zip(new)) {
            match (t, old, new) {
                (T::Interp(e, _), Element::Interpolation(old), Element::Interpolation(new)) if old.strip == new.strip => {
                    self.expr(e, &old.expr, &new.expr)?;
                }
                (T::If(f), Element::Directive(old), Element::Directive(new)) => match (&**old, &**new) {
                    (Directive::If(old), Directive::If(new)) => {
                        self.expr(&f.cond, &old.cond_expr, &new.cond_expr)?;
                        self.template(&f.body, old.true_template.elements(), new.true_template.elements())?;
                        match (&f.els, &old.false_template, &new.false_template) {
                            (Some((_, e)), Some(old), Some(new)) => self.template(e, old.elements(), new.elements())?,
                            (_, old, new) if old == new => {}
                            _ => return Err("an else branch is lost".into()),
                        }
                        match self.value(&f.cond) {
                            Some(Value::Bool(true)) if old.false_template != new.false_template => {
                                return Err(format!("the branch not taken became {:?}", new.false_template));
                            }
                            Some(Value::Bool(false)) if old.true_template != new.true_template => {
                                return Err(format!("the branch not taken became {:?}", new.true_template));
                            }
                            _ => {}
                        }
                        if (old.if_strip, old.else_strip, old.endif_strip) != (new.if_strip, new.else_strip, new.endif_strip) {
                            return Err("markers are lost".into());
                        }
                    }
                    _ => return Err(format!("{old:?} became {new:?}")),
                },
                (T::For(f), Element::Directive(old), Element::Directive(new)) => match (&**old, &**new) {
                    (Directive::For(old), Directive::For(new)) => {
                        self.expr(&f.coll, &old.collection_expr, &new.collection_expr)?;
                        let mut rest = new.clone();
                        rest.collection_expr = old.collection_expr.clone();
                        if rest != *old {
                            return Err(format!("{old:?} became {new:?}"));
                        }
                    }
                    _ => return Err(format!("{old:?} became {new:?}")),
                },
                _ if old == new => {}
                _ => return Err(format!("{old:?} became {new:?}")),
            }
        }
        Ok(())
    }

    fn body(&self, b: &B, old: &hcl::Body, new: &hcl::Body) -> Bad {
        let (old, new): (Vec<_>, Vec<_>) = (old.iter().collect(), new.iter().collect());
        if b.items.len() != old.len() || old.len() != new.len() {
            return Err("structures are lost".into());
        }
        for (s, (old, new)) in b.items.iter().zip(old.into_iter().zip(new)) {
            match (s, old, new) {
                (S::Attr { e, .. }, hcl::Structure::Attribute(old), hcl::Structure::Attribute(new)) if old.key == new.key => {
                    self.expr(e, &old.expr, &new.expr)?;
                }
                (S::Block { body, .. }, hcl::Structure::Block(old), hcl::Structure::Block(new))
                    if old.identifier == new.identifier && old.labels == new.labels =>
                {
                    self.body(body, &old.body, &new.body)?;
                }
                _ => return Err(format!("{old:?} became {new:?}")),
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// Call sites and names of an expression

#[derive(Default)]
struct Sites {
    /// Call sites outside of loops.
    once: Vec<u64>,
    all: Vec<u64>,
    /// Names that are not defined anywhere.
    undefined: Vec<String>,
}

impl Sites {
    fn of(e: &E) -> Sites {
        let mut s = Sites::default();
        s.expr(e, false);
        s
    }

    fn expr(&mut self, e: &E, lp: bool) {
        match &e.k {
            K::Null | K::Bool(_) | K::Num(..) | K::Str(_) => {}
            K::Var(n) => {
                if n.starts_with("nope") {
                    self.undefined.push(n.clone());
                }
            }
            K::Arr(a) => a.items.iter().for_each(|e| self.expr(e, lp)),
            K::Obj(o) => {
                for it in &o.items {
                    if let Key::Ex(e) = &it.key {
                        self.expr(e, lp);
                    }
                    self.expr(&it.e, lp);
                }
            }
            K::Tmpl(t) => self.parts(t, lp),
            K::Heredoc(h) => self.parts(&h.parts, lp),
            K::Paren(e) | K::Un(_, e) => self.expr(e, lp),
            K::Cond(c) => c.iter().for_each(|e| self.expr(e, lp)),
            K::Bin(l, _, _, r) => {
                self.expr(l, lp);
                self.expr(r, lp);
            }
            K::Call(c) => {
                // All arguments may be in one list.
                let first = match c.args.first().map(|e| &e.k) {
                    Some(K::Arr(a)) => a.items.first().map(|it| &it.k),
                    first => first,
                };
                if let Some(K::Num(m::Num::U(n), _)) = first {
                    self.all.push(*n);
                    if !lp {
                        self.once.push(*n);
                    }
                }
                if c.name.s.starts_with("nofunc") || c.ns.iter().any(|n| n.s == es::UNKNOWN) {
                    self.undefined.push(c.name.s.clone());
                }
                c.args.iter().for_each(|e| self.expr(e, lp));
            }
            K::Trav(base, ops) => {
                self.expr(base, lp);
                let mut lp = lp;
                for op in ops {
                    match &op.k {
                        OpK::FullSplat(_) => lp = true,
                        OpK::Index(e) => self.expr(e, lp),
                        _ => {}
                    }
                }
            }
            K::For(f) => {
                self.expr(&f.coll, lp);
                for e in [Some(&f.val), f.key.as_ref(), f.cond.as_ref().map(|c| &c.1)].into_iter().flatten() {
                    self.expr(e, true);
                }
            }
        }
    }

    fn parts(&mut self, parts: &[T], lp: bool) {
        for t in parts {
            match t {
                T::Lit(_) => {}
                T::Interp(e, _) => self.expr(e, lp),
                T::If(f) => {
                    self.expr(&f.cond, lp);
                    self.parts(&f.body, lp);
                    if let Some((_, els)) = &f.els {
                        self.parts(els, lp);
                    }
                }
                T::For(f) => {
                    self.expr(&f.coll, lp);
                    self.parts(&f.body, true);
                }
            }
        }
    }
}

fn attributes<'a>(b: &'a hcl::Body, out: &mut Vec<&'a X>) {
    for s in b.iter() {
        match s {
            hcl::Structure::Attribute(a) => out.push(&a.expr),
            hcl::Structure::Block(b) => attributes(&b.body, out),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Documents

#[derive(Clone)]
enum Real {
    Body(hcl::Body),
    Expr(X),
    Template(hcl::Template),
}

enum Model {
    Body(B),
    Expr(E),
    Template(Vec<T>),
}

struct Doc {
    model: Model,
    old: Real,
    text: String,
}

fn state(r: &Real) -> String {
    match r {
        Real::Body(x) => canon::hcl_body(x),
        Real::Expr(x) => canon::hcl_e(x),
        Real::Template(x) => canon::hcl_template(x),
    }
}

/// How a document is evaluated: as a whole, piece by piece or through the node inside of an
/// expression.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    Whole,
    Pieces,
    Inner,
}

fn merge(all: &mut Vec<hcl::eval::Error>, r: Result<(), Errors>) {
    if let Err(e) = r {
        assert!(e.len() > 0 && e.len() == e.iter().count() && e.len() == (&e).into_iter().count());
        let text = e.to_string();
        for error in &e {
            let line = error.to_string();
            assert!(text.contains(&line), "{line:?} is missing in {text:?}");
            // The expression at fault is part of the message.
            if let Some(x) = error.expr() {
                assert!(line.contains(&x.to_string()), "{x} is missing in {line:?}");
            }
        }
        // A writer that fails once, wherever that is, makes printing fail.
        let mut sink = Once {
            left: e.len() * 3 % (text.len() + 1),
            failed: false,
        };
        let res = write!(sink, "{e}");
        assert!(res.is_err() == sink.failed, "printing {text:?} to a failing writer");
        all.extend(e);
    }
}

struct Once {
    left: usize,
    failed: bool,
}

impl Write for Once {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if !self.failed && s.len() > self.left {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.left = self.left.saturating_sub(s.len());
        Ok(())
    }
}

/// Evaluates in place and returns all errors.
fn in_place(x: &mut Real, ctx: &Context, way: Way) -> Vec<hcl::eval::Error> {
    let mut all = Vec::new();
    match (x, way) {
        (Real::Body(b), Way::Whole) => merge(&mut all, b.evaluate_in_place(ctx)),
        (Real::Body(b), Way::Pieces) => {
            for s in b.iter_mut() {
                merge(&mut all, s.evaluate_in_place(ctx));
            }
        }
        (Real::Body(b), Way::Inner) => {
            for s in b.iter_mut() {
                let r = match s {
                    hcl::Structure::Attribute(a) => a.evaluate_in_place(ctx),
                    hcl::Structure::Block(b) => b.evaluate_in_place(ctx),
                };
                merge(&mut all, r);
            }
        }
        (Real::Expr(e), Way::Inner) => {
            let r = match e {
                X::Array(a) => a.evaluate_in_place(ctx),
                X::Object(o) => o.evaluate_in_place(ctx),
                X::Traversal(t) => t.evaluate_in_place(ctx),
                X::FuncCall(f) => f.evaluate_in_place(ctx),
                X::Conditional(c) => c.evaluate_in_place(ctx),
                X::Operation(o) => o.evaluate_in_place(ctx),
                X::ForExpr(f) => f.evaluate_in_place(ctx),
                X::Parenthesis(p) => p.evaluate_in_place(ctx),
                e => e.evaluate_in_place(ctx),
            };
            merge(&mut all, r);
        }
        (Real::Expr(X::Array(a)), Way::Pieces) => {
            for e in a.iter_mut() {
                merge(&mut all, e.evaluate_in_place(ctx));
            }
        }
        (Real::Expr(X::Operation(o)), Way::Pieces) => {
            let r = match &mut **o {
                Operation::Unary(u) => u.evaluate_in_place(ctx),
                Operation::Binary(b) => b.evaluate_in_place(ctx),
            };
            merge(&mut all, r);
        }
        (Real::Expr(e), _) => merge(&mut all, e.evaluate_in_place(ctx)),
        (Real::Template(t), _) => merge(&mut all, t.evaluate_in_place(ctx)),
    }
    all
}

/// What plain evaluation yields without failures.
fn plain(x: &Real, ctx: &Context) -> Result<String, String> {
    es::start(&Plan::default());
    let r = match x {
        Real::Body(b) => b.evaluate(ctx).map(|b| canon::hcl_body(&b)),
        Real::Expr(e) => e.evaluate(ctx).map(|v| canon::value(&v)),
        Real::Template(t) => t.evaluate(ctx),
    };
    es::finish();
    r.map_err(|e| format!("{:?}", e.kind()))
}

fn reference(doc: &Doc, world: &World) -> Option<String> {
    let mut r = Ref::new(world, &Plan::default());
    match &doc.model {
        Model::Body(b) => r.body(b).ok().map(|b| canon::hcl_body(&b)),
        Model::Expr(e) => r.expr(e).ok().map(|v| canon::value(&v)),
        Model::Template(t) => r.template(t).ok(),
    }
}

fn judge(doc: &Doc, world: &World, new: &Real) -> Bad {
    let j = Judge { world };
    match (&doc.model, &doc.old, new) {
        (Model::Body(b), Real::Body(old), Real::Body(new)) => j.body(b, old, new),
        (Model::Expr(e), Real::Expr(old), Real::Expr(new)) => j.expr(e, old, new),
        (Model::Template(t), Real::Template(old), Real::Template(new)) => j.template(t, old.elements(), new.elements()),
        _ => Ok(()),
    }
}

/// The parts that are independent of each other: each has to be evaluated or reported.
fn pieces<'a>(doc: &'a Doc, x: &'a Real, way: Way) -> Vec<(&'a E, &'a X)> {
    match (&doc.model, x) {
        (Model::Body(b), Real::Body(x)) => {
            let mut list = Vec::new();
            attributes(x, &mut list);
            es::attributes(b).into_iter().zip(list).collect()
        }
        (Model::Expr(e), Real::Expr(x)) => match (&e.k, x, way) {
            (_, _, Way::Whole) => vec![(e, x)],
            (K::Arr(a), X::Array(x), _) => a.items.iter().zip(x).collect(),
            (K::Obj(o), X::Object(x), _) if o.items.len() == x.len() => {
                o.items.iter().zip(x.iter()).map(|(it, (_, x))| (&it.e, x)).collect()
            }
            (K::Call(c), X::FuncCall(x), _) => c.args.iter().zip(&x.args).collect(),
            (K::Paren(e), X::Parenthesis(x), Way::Inner) => vec![(e, x)],
            (K::Un(_, e), X::Operation(x), _) => match &**x {
                Operation::Unary(x) => vec![(e, &x.expr)],
                Operation::Binary(_) => vec![],
            },
            (K::Bin(l, _, _, r), X::Operation(x), _) => match &**x {
                Operation::Binary(x) => vec![(l, &x.lhs_expr), (r, &x.rhs_expr)],
                Operation::Unary(_) => vec![],
            },
            (K::For(f), X::ForExpr(x), Way::Inner) => vec![(&f.coll, &x.collection_expr)],
            _ => vec![],
        },
        (Model::Template(parts), Real::Template(x)) => parts
            .iter()
            .zip(x.elements())
            .filter_map(|(t, x)| match (t, x) {
                (T::Interp(e, _), Element::Interpolation(x)) => Some((e, &x.expr)),
                (T::For(f), Element::Directive(d)) => match &**d {
                    Directive::For(d) => Some((&f.coll, &d.collection_expr)),
                    Directive::If(_) => None,
                },
                _ => None,
            })
            .collect(),
        _ => vec![],
    }
}

fn calls(s: &Script) -> String {
    let list: Vec<String> = s
        .log
        .iter()
        .map(|c| format!("{}({}) = {:?}", c.func, c.args, c.outcome))
        .collect();
    list.join("; ")
}

fn round(cx: &mut Cx, doc: &Doc, x: &mut Real, world: &World, ctx: &Context, plan: &Plan, way: Way) -> Check {
    let before = state(x);
    es::start(plan);
    let r = catch_unwind(AssertUnwindSafe(|| in_place(x, ctx, way)));
    let script = es::finish();
    ev!(cx, "in place {way:?} {plan:?}: {}", calls(&script));
    let text = |what: &str, x: &Real| {
        format!(
            "{what}\ntext: {}\ncalls: {}\nbefore: {before}\nafter: {}",
            doc.text,
            calls(&script),
            state(x)
        )
    };
    if let Err(b) = judge(doc, world, x) {
        return violation("content", text(&b, x));
    }
    // Every call site outside of a loop is evaluated at most once.
    let mut sites = Sites::default();
    match &doc.model {
        Model::Body(b) => es::attributes(b).into_iter().for_each(|e| sites.expr(e, false)),
        Model::Expr(e) => sites.expr(e, false),
        Model::Template(t) => sites.parts(t, false),
    }
    for s in &sites.once {
        let n = script.log.iter().filter(|c| c.site == *s).count();
        if n > 1 {
            return violation("calls", text(&format!("call site {s} was evaluated {n} times"), x));
        }
    }
    let errors = match r {
        Err(p) if is_injected(&*p) => {
            cx.fault("function_panic");
            ev!(cx, "panic");
            return Ok(());
        }
        Err(p) => std::panic::resume_unwind(p),
        Ok(e) => e,
    };
    for e in &errors {
        ev!(cx, "error {e}");
    }
    let failed: Vec<&String> = script
        .log
        .iter()
        .filter_map(|c| match &c.outcome {
            Outcome::Failed(msg) => Some(msg),
            _ => None,
        })
        .collect();
    if !failed.is_empty() {
        cx.fault("function_failure");
        cx.steps += failed.len() as u64;
    }
    // Every failure is reported once, and nothing else is.
    let mut reported: Vec<String> = Vec::new();
    for e in &errors {
        match e.kind() {
            ErrorKind::FuncCall(_, msg) if msg.starts_with("boom") => reported.push(msg.clone()),
            ErrorKind::UndefinedVar(v) if world.vars.iter().any(|(n, _)| n == v.as_str()) => {
                return violation("spurious", text(&format!("{e}"), x));
            }
            ErrorKind::UndefinedVar(v) if !sites.undefined.iter().any(|n| n == v.as_str()) => {
                return violation("spurious", text(&format!("{e}"), x));
            }
            ErrorKind::UndefinedFunc(v) if !sites.undefined.contains(&v.name.to_string()) => {
                return violation("spurious", text(&format!("{e}"), x));
            }
            _ => {}
        }
    }
    let mut want: Vec<String> = failed.into_iter().cloned().collect();
    want.sort();
    reported.sort();
    if want != reported {
        return violation("errors", text(&format!("{reported:?} are reported instead of {want:?}"), x));
    }
    // Independent parts are evaluated, or one of their failures is reported.
    let mut left = 0;
    for (e, new) in pieces(doc, x, way) {
        let done = Judge { world }.evaluated(e) == Some(canon::hcl_e(new));
        if done {
            continue;
        }
        left += 1;
        let own = Sites::of(e);
        let blamed = errors.iter().any(|err| match err.kind() {
            ErrorKind::FuncCall(_, msg) if msg.starts_with("boom") => {
                own.all.iter().any(|s| *msg == format!("boom {s}"))
            }
            ErrorKind::UndefinedVar(v) => own.undefined.iter().any(|n| n == v.as_str()),
            ErrorKind::UndefinedFunc(v) => own.undefined.contains(&v.name.to_string()),
            _ => true,
        });
        if !blamed {
            return violation(
                "unreported",
                text(&format!("{} is not evaluated: {}", m::render_expr(e), canon::hcl_e(new)), x),
            );
        }
        let mut r = Ref::new(world, plan);
        let failed = |s: &u64| script.log.iter().any(|c| c.site == *s && matches!(c.outcome, Outcome::Failed(_)));
        if plan.at.is_empty() && r.expr(e).is_ok() && !own.all.iter().any(failed) {
            return violation(
                "unevaluated",
                text(&format!("{} can be evaluated: {}", m::render_expr(e), canon::hcl_e(new)), x),
            );
        }
    }
    if left > errors.len() {
        return violation("unreported", text(&format!("{left} parts, but {} errors", errors.len()), x));
    }
    if errors.is_empty() {
        // The document is what plain evaluation yields.
        let want = reference(doc, world);
        let has = match &*x {
            Real::Body(b) => Some(canon::hcl_body(b)),
            x => plain(x, ctx).ok(),
        };
        if has != want && (want.is_some() || way != Way::Inner && way != Way::Pieces && !matches!(x, Real::Template(_))) {
            return violation("success", text(&format!("{has:?} instead of {want:?}"), x));
        }
        if let (Real::Expr(e), Model::Expr(old), Way::Whole) = (&*x, &doc.model, way) {
            if (Judge { world }).evaluated(old) != Some(canon::hcl_e(e)) {
                return violation("success", text("not the value", x));
            }
        }
        // An object keeps one entry per key, as its value does.
        if let (Real::Expr(X::Object(new)), Model::Expr(E { k: K::Obj(o), .. }), Way::Inner) = (&*x, &doc.model, way) {
            let list = entries(new);
            let value = (Judge { world }).evaluated(&E::new(K::Obj(o.clone()))) == Some(canon::hcl_e(&X::Object(new.clone())));
            if !value && (Judge { world }).merged(o).is_some_and(|want| want != list) {
                return violation("success", text(&format!("not the entries: {list:?}"), x));
            }
        }
        cx.probe("completed");
    } else {
        cx.probe("partial");
    }
    Ok(())
}

fn kinds(x: &mut Real, ctx: &Context, way: Way) -> Vec<String> {
    es::start(&Plan::default());
    let mut list: Vec<String> = in_place(x, ctx, way).iter().map(|e| format!("{:?}", e.kind())).collect();
    es::finish();
    list.sort();
    list
}

fn run(cx: &mut Cx) -> Check {
    let world = World::gen(&mut cx.src);
    let ctx = world.context();
    let budget = if cx.thorough { 100 } else { 50 };
    let mut g = TG::new(&mut cx.src, budget);
    g.wrong = g.src.below(3) == 1;
    let parse = |e: hcl::Error, text: &str| violation("parse", format!("{e}\n{text}"));
    let doc = match g.src.weighted(&[5, 4, 2]) {
        0 => {
            let b = g.body(2);
            let text = m::render_body(&b);
            let old = if cx.src.below(2) == 0 {
                make::hcl_body(&b)
            } else {
                match hcl::parse(&text) {
                    Ok(x) => x,
                    Err(e) => return parse(e, &text),
                }
            };
            Doc {
                model: Model::Body(b),
                old: Real::Body(old),
                text,
            }
        }
        1 => {
            let ty = *g.src.pick(&[es::Ty::Str, es::Ty::Num, es::Ty::Bool, es::Ty::Nums, es::Ty::Map, es::Ty::Objs]);
            let e = g.expr(ty, 5);
            let text = m::render_expr(&e);
            let old = if cx.src.below(2) == 0 {
                make::hcl_e(&e)
            } else {
                match text.parse() {
                    Ok(x) => x,
                    Err(e) => return parse(e, &text),
                }
            };
            Doc {
                model: Model::Expr(e),
                old: Real::Expr(old),
                text,
            }
        }
        _ => {
            let t = g.parts(4);
            let text = m::render_template(&t);
            let old = match text.parse() {
                Ok(x) => x,
                Err(e) => return parse(e, &text),
            };
            Doc {
                model: Model::Template(t),
                old: Real::Template(old),
                text,
            }
        }
    };
    ev!(cx, "text {}", doc.text);
    let sites = match &doc.model {
        Model::Body(b) => {
            let mut s = Sites::default();
            es::attributes(b).into_iter().for_each(|e| s.expr(e, false));
            s
        }
        Model::Expr(e) => Sites::of(e),
        Model::Template(t) => {
            let mut s = Sites::default();
            s.parts(t, false);
            s
        }
    };
    cx.nontrivial = !sites.all.is_empty();
    let mut x = doc.old.clone();
    let rounds = cx.src.range(0, 3);
    for _ in 0..rounds {
        let mut plan = Plan::default();
        match cx.src.weighted(&[4, 2, 2]) {
            0 => {
                let most = cx.src.below(5) == 4;
                for s in &sites.all {
                    if most && cx.src.below(9) < 8 || !most && cx.src.chance(1, 3) {
                        plan.sites.push(*s);
                    }
                }
            }
            1 => plan.at.push((cx.src.below(sites.all.len() + 2), Kind::Panic)),
            _ => {
                for _ in 0..cx.src.range(1, 3) {
                    plan.at.push((cx.src.below(sites.all.len() + 2), Kind::Fail));
                }
            }
        }
        let way = *cx.src.pick(&[Way::Whole, Way::Whole, Way::Pieces, Way::Inner]);
        round(cx, &doc, &mut x, &world, &ctx, &plan, way)?;
    }
    // Failures stop: the same document as without any.
    let mut fresh = doc.old.clone();
    let first = kinds(&mut fresh, &ctx, Way::Whole);
    let mut again = x.clone();
    round(cx, &doc, &mut x, &world, &ctx, &Plan::default(), Way::Whole)?;
    let last = kinds(&mut again, &ctx, Way::Whole);
    let text = |what: &str| format!("{what}\ntext: {}\nfresh: {}\nafter failures: {}", doc.text, state(&fresh), state(&x));
    if state(&again) != state(&x) {
        return violation("repeat", text(&format!("repeated: {}", state(&again))));
    }
    if state(&fresh) != state(&x) {
        return violation("converge", text("different documents"));
    }
    if first != last {
        return violation("converge", text(&format!("errors {last:?} instead of {first:?}")));
    }
    Ok(())
}
