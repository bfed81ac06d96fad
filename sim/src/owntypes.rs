//! The crate's own types as user data: everything is written as itself and read back as itself,
//! whatever the data next to it does.

use crate::canon;
use crate::cx::{is_injected, violation, Check, Cx};
use crate::ev;
use crate::gen::{Cfg, G};
use crate::serdesim::{self as sd, Kind, Plan};
use hcl::expr::{
    BinaryOp, Conditional, ForExpr, FuncCall, FuncName, Heredoc, Operation, TemplateExpr, Traversal, TraversalOperator, UnaryOp,
    Variable,
};
use hcl::template::Element;
use hcl::{Attribute, Block, Body, Expression, Identifier, ObjectKey, Structure, Template};
use serde::de::DeserializeOwned;
use serde::ser::SerializeStruct;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;

/// A neighbour whose code may fail.
#[derive(Debug, PartialEq)]
struct Boom;

impl Serialize for Boom {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        sd::ser_tick()?;
        s.serialize_u8(1)
    }
}

impl<'de> Deserialize<'de> for Boom {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Boom, D::Error> {
        let n = u8::deserialize(d)?;
        sd::de_tick()?;
        (n == 1).then_some(Boom).ok_or_else(|| serde::de::Error::custom("not one"))
    }
}

struct Between<'a, T>(&'a T);

impl<T: Serialize> Serialize for Between<'_, T> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut s = s.serialize_struct("Between", 3)?;
        s.serialize_field("p", &Boom)?;
        s.serialize_field("own", self.0)?;
        s.serialize_field("q", &Boom)?;
        s.end()
    }
}

#[derive(Deserialize, Debug, PartialEq)]
struct Read<T> {
    p: Boom,
    own: T,
    q: Boom,
}

struct World {
    plan: Plan,
    fired: Option<Kind>,
}

type Bad = Result<(), String>;

impl World {
    /// What an operation comes to, or nothing if user code failed and so did the operation.
    fn run<R>(&mut self, what: &str, f: impl FnOnce() -> Result<R, String>) -> Result<Option<R>, String> {
        let (r, ran) = sd::scripted(&self.plan, f);
        self.fired = ran.fired.or(self.fired);
        match (ran.fired, r) {
            (None, Ok(Ok(r))) => Ok(Some(r)),
            (Some(Kind::Fail), Ok(Err(e))) if e.contains("boom") => Ok(None),
            (Some(Kind::Panic), Err(p)) if is_injected(&*p) => Ok(None),
            (_, Err(p)) if !is_injected(&*p) => std::panic::resume_unwind(p),
            (f, Ok(Err(e))) => Err(format!("{what}: user code did {f:?}, failed with {e}")),
            (f, _) => Err(format!("{what}: user code did {f:?}, but that is not the result")),
        }
    }

    fn equal<R: PartialEq + Debug>(&mut self, what: &str, want: &R, f: impl FnOnce() -> Result<R, String>) -> Bad {
        match self.run(what, f)? {
            Some(r) if r != *want => Err(format!("{what}: is {r:?}\ninstead of {want:?}")),
            _ => Ok(()),
        }
    }

    /// `t` is written as `e` and read back from it.
    fn typed<T>(&mut self, name: &str, t: &T, e: &Expression) -> Bad
    where
        T: Serialize + DeserializeOwned + PartialEq + Debug + Clone,
    {
        self.writes(name, t, e)?;
        self.reads(name, t, e)
    }

    fn writes<T: Serialize + Debug>(&mut self, name: &str, t: &T, e: &Expression) -> Bad {
        self.equal(&format!("to_expression of a {name}"), e, || text(hcl::to_expression(t)))?;
        let (body, object) = (body(e), object(e));
        self.equal(&format!("body with a {name}"), &body, || text(Body::from_serializable(&Between(t))))?;
        self.equal(&format!("object with a {name}"), &object, || text(hcl::to_expression(Between(t))))?;
        let want = text(hcl::format::to_string(&body))?;
        self.equal(&format!("text with a {name}"), &want, || text(hcl::to_string(&Between(t))))?;
        let block = hcl::ser::Block::new(Between(t));
        let want = Body::from(vec![Structure::from(Block::builder("blk").add_structures(body.clone()).build())]);
        let map = std::collections::BTreeMap::from([("blk", block)]);
        self.equal(&format!("block with a {name}"), &want, || text(Body::from_serializable(&map)))?;
        // The keys of a bare object are enums.
        if !keyed(e, true) || name == "object" {
            return Ok(());
        }
        self.equal(&format!("to_value of a {name}"), &true, || {
            let v = text(hcl::to_value(t))?;
            Ok(json(e, &text(serde_json::to_value(v))?))
        })
    }

    /// `t` is written as `e`, which is read as a string that denotes it.
    fn denotes<T: Serialize + Debug>(&mut self, name: &str, t: &T, e: &Expression) -> Bad {
        self.writes(name, t, e)?;
        self.equal(&format!("text of a {name}"), &true, || {
            let s = text(String::deserialize(e.clone()))?;
            Ok(match e {
                Expression::TemplateExpr(t) => s == t.to_string(),
                _ => interpolated(e, &s),
            })
        })
    }

    fn reads<T: DeserializeOwned + PartialEq + Debug + Clone>(&mut self, name: &str, t: &T, e: &Expression) -> Bad {
        self.equal(&format!("a {name} of an expression"), t, || text(T::deserialize(e.clone())))?;
        let want = Read { p: Boom, own: t.clone(), q: Boom };
        self.equal(&format!("a body with a {name}"), &want, || text(hcl::from_body(body(e))))?;
        self.equal(&format!("an object with a {name}"), &want, || text(Read::deserialize(object(e))))?;
        let seq = hcl::Expression::from(vec![e.clone(), e.clone()]);
        self.equal(&format!("a sequence of {name}s"), &vec![t.clone(), t.clone()], || {
            text(Vec::<T>::deserialize(seq))
        })?;
        let want = (*e != Expression::Null).then(|| t.clone());
        self.equal(&format!("an optional {name}"), &want, || text(Option::<T>::deserialize(e.clone())))
    }
}

fn text<R, E: ToString>(r: Result<R, E>) -> Result<R, String> {
    r.map_err(|e| e.to_string())
}

fn body(e: &Expression) -> Body {
    Body::from(vec![
        Structure::from(Attribute::new("p", 1)),
        Attribute::new("own", e.clone()).into(),
        Attribute::new("q", 1).into(),
    ])
}

fn object(e: &Expression) -> Expression {
    let mut o = hcl::Object::new();
    for (k, v) in [("p", Expression::from(1)), ("own", e.clone()), ("q", Expression::from(1))] {
        o.insert(ObjectKey::from(k), v);
    }
    Expression::Object(o)
}

// ---------------------------------------------------------------------------------------------
// Serializers of other crates

/// Whether JSON is what an expression should be.
fn json(e: &Expression, j: &serde_json::Value) -> bool {
    use serde_json::Value as J;
    match (e, j) {
        (Expression::Null, J::Null) => true,
        (Expression::Bool(b), J::Bool(c)) => b == c,
        (Expression::Number(_), J::Number(_)) => canon::hcl_e(e) == canon::json(j),
        (Expression::String(s), J::String(t)) => s == t,
        (Expression::Array(a), J::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| json(a, b)),
        (Expression::Object(o), J::Object(m)) => {
            // The last of several equal keys counts.
            let mut want: Vec<(String, &Expression)> = vec![];
            for (k, v) in o {
                let k = match k {
                    ObjectKey::Identifier(i) => i.as_str().to_string(),
                    ObjectKey::Expression(k) => match key(k, m) {
                        Some(k) => k,
                        None => return false,
                    },
                    _ => return false,
                };
                match want.iter_mut().find(|(l, _)| *l == k) {
                    Some((_, w)) => *w = v,
                    None => want.push((k, v)),
                }
            }
            want.len() == m.len() && want.iter().zip(m).all(|((k, v), (l, j))| k == l && json(v, j))
        }
        (Expression::Parenthesis(e), j) => json(e, j),
        (
            Expression::TemplateExpr(_)
            | Expression::Variable(_)
            | Expression::Traversal(_)
            | Expression::FuncCall(_)
            | Expression::Conditional(_)
            | Expression::Operation(_)
            | Expression::ForExpr(_),
            J::String(s),
        ) => interpolated(e, s),
        _ => false,
    }
}

/// The key an expression becomes.
fn key(e: &Expression, m: &serde_json::Map<String, serde_json::Value>) -> Option<String> {
    match e {
        Expression::String(s) => Some(s.clone()),
        Expression::Bool(b) => Some(b.to_string()),
        Expression::Number(_) => m
            .keys()
            .find(|k| serde_json::from_str(k).is_ok_and(|k: serde_json::Number| json(e, &k.into())))
            .cloned(),
        Expression::Parenthesis(e) => key(e, m),
        Expression::Null | Expression::Array(_) | Expression::Object(_) => None,
        e => m.keys().find(|k| interpolated(e, k)).cloned(),
    }
}

/// Whether an expression has only keys that other formats can express.
fn keyed(e: &Expression, strings: bool) -> bool {
    fn ok(k: &Expression, strings: bool) -> bool {
        match k {
            Expression::Null | Expression::Array(_) | Expression::Object(_) => false,
            Expression::Number(_) | Expression::Bool(_) => !strings,
            Expression::Parenthesis(k) => ok(k, strings),
            _ => true,
        }
    }
    match e {
        Expression::Object(o) => o.iter().all(|(k, v)| {
            keyed(v, strings) && !matches!(k, ObjectKey::Expression(k) if !ok(k, strings))
        }),
        Expression::Array(a) => a.iter().all(|e| keyed(e, strings)),
        Expression::Parenthesis(e) => keyed(e, strings),
        _ => true,
    }
}

/// The text is a template that consists of the expression.
fn interpolated(e: &Expression, s: &str) -> bool {
    let Ok(t) = s.parse::<Template>() else { return false };
    match t.elements() {
        [Element::Interpolation(i)] => canon::hcl_e(&i.expr) == canon::hcl_e(e),
        _ => false,
    }
}

fn json_body(b: &Body, j: &serde_json::Value) -> bool {
    let Some(list) = j.as_array() else { return false };
    list.len() == b.iter().count() && b.iter().zip(list).all(|(s, j)| json_structure(s, j))
}

fn json_structure(s: &Structure, j: &serde_json::Value) -> bool {
    let fields = |names: &[&str]| {
        j.as_object()
            .is_some_and(|o| o.keys().map(String::as_str).eq(names.iter().copied()))
    };
    match s {
        Structure::Attribute(a) => fields(&["key", "expr"]) && j["key"] == a.key.as_str() && json(&a.expr, &j["expr"]),
        Structure::Block(b) => {
            let labels: Vec<serde_json::Value> = b
                .labels
                .iter()
                .map(|l| match l {
                    hcl::BlockLabel::Identifier(i) => serde_json::json!({"Identifier": i.as_str()}),
                    hcl::BlockLabel::String(s) => serde_json::json!({ "String": s }),
                })
                .collect();
            fields(&["identifier", "labels", "body"])
                && j["identifier"] == b.identifier.as_str()
                && j["labels"] == serde_json::Value::Array(labels)
                && json_body(&b.body, &j["body"])
        }
    }
}

/// Fails once.
struct Once {
    at: Option<usize>,
    n: usize,
    out: Vec<u8>,
}

impl std::io::Write for Once {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = self.n;
        self.n += 1;
        if self.at == Some(n) {
            return Err(std::io::Error::other("boom"));
        }
        self.out.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn foreign<T: Serialize>(cx: &mut Cx, what: &str, t: &T, good: impl Fn(&serde_json::Value) -> bool) -> Check {
    let mut sink = Once { at: None, n: 0, out: vec![] };
    if let Err(e) = serde_json::to_writer(&mut sink, t) {
        return violation("foreign", format!("{what}: {e}"));
    }
    match serde_json::from_slice(&sink.out) {
        Ok(j) if good(&j) => {}
        _ => return violation("foreign", format!("{what} as JSON: {}", String::from_utf8_lossy(&sink.out))),
    }
    let at = cx.src.below(sink.n.max(1));
    let mut sink = Once { at: Some(at), n: 0, out: vec![] };
    if serde_json::to_writer(&mut sink, t).is_ok() {
        return violation(
            "foreign",
            format!("{what}: write {at} failed, but serialization did not: {}", String::from_utf8_lossy(&sink.out)),
        );
    }
    cx.fault("foreign_serializer_failed");
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn list(es: &[Expression], out: &mut Vec<Expression>) {
    es.iter().for_each(|e| all(e, out));
}

fn all(e: &Expression, out: &mut Vec<Expression>) {
    out.push(e.clone());
    match e {
        Expression::Array(a) => list(a, out),
        Expression::Object(o) => {
            for (k, v) in o {
                if let ObjectKey::Expression(k) = k {
                    all(k, out);
                }
                all(v, out);
            }
        }
        Expression::Parenthesis(e) => all(e, out),
        Expression::Traversal(t) => {
            all(&t.expr, out);
            for o in &t.operators {
                if let TraversalOperator::Index(e) = o {
                    all(e, out);
                }
            }
        }
        Expression::FuncCall(f) => list(&f.args, out),
        Expression::Conditional(c) => [&c.cond_expr, &c.true_expr, &c.false_expr].into_iter().for_each(|e| all(e, out)),
        Expression::Operation(o) => match &**o {
            Operation::Unary(u) => all(&u.expr, out),
            Operation::Binary(b) => [&b.lhs_expr, &b.rhs_expr].into_iter().for_each(|e| all(e, out)),
        },
        Expression::ForExpr(f) => {
            all(&f.collection_expr, out);
            all(&f.value_expr, out);
            f.key_expr.iter().chain(&f.cond_expr).for_each(|e| all(e, out));
        }
        _ => {}
    }
}

fn expressions(b: &Body, out: &mut Vec<Expression>) {
    for s in b.iter() {
        match s {
            Structure::Attribute(a) => all(&a.expr, out),
            Structure::Block(b) => expressions(&b.body, out),
        }
    }
}

fn name(f: &FuncName) -> Bad {
    let want: Vec<&str> = f.namespace.iter().map(Identifier::as_str).chain([f.name.as_str()]).collect();
    if f.is_namespaced() == f.namespace.is_empty() || f.to_string() != want.join("::") {
        return Err(format!("name {f:?} is {f}"));
    }
    Ok(())
}

fn inner(w: &mut World, e: &Expression) -> Bad {
    w.typed("expression", e, e)?;
    match e {
        Expression::Null => w.typed("null", &(), e),
        Expression::Bool(b) => w.typed("bool", b, e),
        Expression::Number(n) => w.typed("number", n, e),
        Expression::String(s) => w.typed("string", s, e),
        Expression::Array(a) => w.typed("array", a, e),
        Expression::Object(o) => {
            w.typed("object", o, e)
        }
        Expression::TemplateExpr(t) => {
            w.denotes("template expression", t, e)?;
            if let TemplateExpr::Heredoc(h) = &**t {
                w.denotes("heredoc", h, e)?;
            }
            if let Ok(t) = Template::from_expr(t) {
                w.template(&t)?;
            }
            Ok(())
        }
        Expression::Variable(v) => w.denotes("variable", v, e),
        Expression::Traversal(t) => w.denotes("traversal", t, e),
        Expression::FuncCall(f) => {
            name(&f.name)?;
            w.denotes("function call", f, e)
        }
        Expression::Parenthesis(p) => w.typed::<Expression>("parenthesized", p, p),
        Expression::Conditional(c) => w.denotes("conditional", c, e),
        Expression::Operation(o) => {
            w.denotes("operation", o, e)?;
            match &**o {
                Operation::Unary(u) => w.denotes("unary", u, e),
                Operation::Binary(b) => w.denotes("binary", b, e),
            }
        }
        Expression::ForExpr(f) => w.denotes("for", f, e),
        _ => Ok(()),
    }
}

impl World {
    fn template(&mut self, t: &Template) -> Bad {
        let e = Expression::String(t.to_string());
        self.writes("template", t, &e)?;
        self.reads("template", t, &e)
    }
}

pub fn run(cx: &mut Cx) -> Check {
    let model = G::new(&mut cx.src, Cfg::default()).doc();
    let text = crate::model::render_body(&model);
    ev!(cx, "{text}");
    let Ok(body) = text.parse::<Body>() else {
        return violation("own", format!("not read: {text}"));
    };
    let mut es = vec![];
    expressions(&body, &mut es);
    if es.is_empty() {
        return Ok(());
    }
    let mut w = World { plan: Plan::default(), fired: None };
    let n = cx.src.range(1, 5);
    for _ in 0..n {
        let e = cx.src.pick(&es).clone();
        w.plan = Plan::default();
        match cx.src.below(5) {
            0 => w.plan.at.push((cx.src.below(2), Kind::Fail)),
            1 => w.plan.at.push((cx.src.below(2), Kind::Panic)),
            _ => {}
        }
        ev!(cx, "{:?} {}", w.plan, canon::hcl_e(&e));
        if let Err(b) = inner(&mut w, &e) {
            return violation("own", format!("{b}\nfor {e:?}"));
        }
        // Afterwards.
        w.plan = Plan::default();
        if let Err(b) = inner(&mut w, &e) {
            return violation("own", format!("afterwards: {b}\nfor {e:?}"));
        }
        if keyed(&e, false) {
            foreign(cx, "expression", &e, |j| json(&e, j))?;
        }
    }
    match w.fired {
        Some(Kind::Fail) => cx.fault("user_code_failed"),
        Some(Kind::Panic) => cx.fault("user_code_panicked"),
        _ => {}
    }
    cx.nontrivial = true;
    // Whole bodies.
    let mut w = World { plan: Plan::default(), fired: None };
    let r = w.body(&body);
    if let Err(b) = r {
        return violation("own", b);
    }
    if es.iter().all(|e| keyed(e, false)) {
        foreign(cx, "body", &body, |j| json_body(&body, j))?;
    }
    Ok(())
}

impl World {
    fn body(&mut self, b: &Body) -> Bad {
        self.equal("a body", b, || text(Body::from_serializable(b)))?;
        let want = text(hcl::format::to_string(b))?;
        self.equal("text of a body", &want, || text(hcl::to_string(b)))?;
        self.equal("a body of a body", b, || text(hcl::from_body(b.clone())))?;
        let list: Vec<Structure> = b.clone().into_inner();
        self.equal("structures", b, || text(Body::from_serializable(&list)))?;
        self.equal("body of an array", b, || Ok(Body::from(list.clone())))?;
        for s in b.iter() {
            let one = Body::from(vec![s.clone()]);
            self.equal("a structure", &one, || text(Body::from_serializable(s)))?;
            match s {
                Structure::Attribute(a) => self.equal("an attribute", &one, || text(Body::from_serializable(a)))?,
                Structure::Block(b) => self.equal("a block", &one, || text(Body::from_serializable(b)))?,
            }
        }
        Ok(())
    }
}
