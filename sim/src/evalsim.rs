//! Simulated user functions with scripted failures, a generator of well-typed expressions and a
//! reference evaluator over the model.

use crate::canon;
use crate::choice::Src;
use crate::cx::inject_panic;
use crate::make;
use crate::model::{self as m, BinOp, Id, If, Item, Key, Mark, Op, OpK, TFor, Term, B, D, E, K, S, T};
use hcl::eval::{Context, ErrorKind, FuncArgs, FuncDef, ParamType};
use hcl::{Map, Number, Value};
use std::cell::RefCell;

// ---------------------------------------------------------------------------------------------
// Scripted functions

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Fail,
    Panic,
}

/// Which invocations do not succeed.
#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// By the index of the invocation.
    pub at: Vec<(usize, Kind)>,
    /// By call site: every invocation from there fails.
    pub sites: Vec<u64>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Value(String),
    Failed(String),
    Panicked,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub func: String,
    pub args: String,
    pub site: u64,
    pub outcome: Outcome,
}

#[derive(Default)]
pub struct Script {
    pub plan: Plan,
    pub log: Vec<Call>,
    /// What was wrong with the way a function was called.
    pub broken: Option<String>,
}

thread_local! {
    static SCRIPT: RefCell<Script> = RefCell::new(Script::default());
}

pub fn start(plan: &Plan) {
    SCRIPT.with(|s| {
        *s.borrow_mut() = Script {
            plan: plan.clone(),
            ..Script::default()
        }
    });
}

pub fn finish() -> Script {
    SCRIPT.with(|s| std::mem::take(&mut *s.borrow_mut()))
}

/// Replaces what is going on, for evaluations within others.
pub fn swap(script: Script) -> Script {
    SCRIPT.with(|s| s.replace(script))
}

fn site(args: &[Value]) -> u64 {
    args.first().and_then(Value::as_u64).unwrap_or(0)
}

impl Plan {
    fn outcome(&self, def: &Def, index: usize, args: &[Value]) -> (Result<Value, String>, Outcome) {
        let site = site(args);
        let kind = self
            .at
            .iter()
            .find(|(i, _)| *i == index)
            .map(|(_, k)| *k)
            .or(self.sites.contains(&site).then_some(Kind::Fail));
        match kind {
            None => {
                let v = (def.body)(args);
                let o = Outcome::Value(canon::value(&v));
                (Ok(v), o)
            }
            Some(Kind::Fail) => {
                let msg = format!("boom {site}");
                (Err(msg.clone()), Outcome::Failed(msg))
            }
            Some(Kind::Panic) => (Err(String::new()), Outcome::Panicked),
        }
    }
}

fn arg_text(args: &[Value]) -> String {
    let list: Vec<String> = args.iter().map(canon::value).collect();
    list.join(", ")
}

fn invoke(k: usize, args: FuncArgs) -> Result<Value, String> {
    let def = &DEFS[k];
    let values: Vec<Value> = args.iter().cloned().collect();
    let pos: Vec<Value> = args.positional_args().cloned().collect();
    let var: Vec<Value> = args.variadic_args().cloned().collect();
    let n = def.params.len();
    let broken = if values.len() < n || pos != values[..n] || var != values[n..] {
        Some(format!("{}: {values:?} are split into {pos:?} and {var:?}", def.name))
    } else {
        None
    };
    let (res, call) = SCRIPT.with(|s| {
        let mut s = s.borrow_mut();
        s.broken = s.broken.take().or(broken);
        let (res, outcome) = s.plan.outcome(def, s.log.len(), &values);
        let call = Call {
            func: def.full(),
            args: arg_text(&values),
            site: site(&values),
            outcome,
        };
        s.log.push(call.clone());
        (res, call)
    });
    crate::sched::point("function");
    if call.outcome == Outcome::Panicked {
        inject_panic();
    }
    res
}

#[derive(Clone, Copy, Debug)]
pub enum P {
    Any,
    Num,
    Str,
    Scalar,
    Nums,
    NullOr,
    Maps,
}

impl P {
    fn param(self) -> ParamType {
        match self {
            P::Any => ParamType::Any,
            P::Num => ParamType::Number,
            P::Str => ParamType::String,
            P::Scalar => ParamType::one_of([ParamType::Number, ParamType::String, ParamType::Bool]),
            P::Nums => ParamType::array_of(ParamType::Number),
            P::NullOr => ParamType::nullable(ParamType::one_of([
                ParamType::String,
                ParamType::array_of(ParamType::Any),
            ])),
            P::Maps => ParamType::object_of(ParamType::nullable(ParamType::Number)),
        }
    }
    fn takes(self, v: &Value) -> bool {
        match self {
            P::Any => true,
            P::Num => matches!(v, Value::Number(_)),
            P::Str => matches!(v, Value::String(_)),
            P::Scalar => matches!(v, Value::Number(_) | Value::String(_) | Value::Bool(_)),
            P::Nums => match v {
                Value::Array(a) => a.iter().all(|v| matches!(v, Value::Number(_))),
                _ => false,
            },
            P::NullOr => matches!(v, Value::Null | Value::String(_) | Value::Array(_)),
            P::Maps => match v {
                Value::Object(o) => o.values().all(|v| matches!(v, Value::Number(_) | Value::Null)),
                _ => false,
            },
        }
    }
}

pub struct Def {
    pub name: &'static str,
    pub ns: Option<&'static str>,
    pub params: &'static [P],
    pub variadic: Option<P>,
    body: fn(&[Value]) -> Value,
    real: fn(FuncArgs) -> Result<Value, String>,
    ret: Ty,
}

impl Def {
    pub fn full(&self) -> String {
        match self.ns {
            Some(ns) => format!("{ns}::{}", self.name),
            None => self.name.into(),
        }
    }
    fn check(&self, args: &[Value]) -> bool {
        let n = self.params.len();
        args.len() >= n
            && (self.variadic.is_some() || args.len() == n)
            && self.params.iter().zip(args).all(|(p, v)| p.takes(v))
            && args[n..].iter().all(|v| self.variadic.is_some_and(|p| p.takes(v)))
    }
}

/// A namespace without functions.
pub const UNKNOWN: &str = "no";

fn weight(args: &[Value]) -> u64 {
    args.iter()
        .map(|v| canon::value(v).bytes().map(u64::from).sum::<u64>())
        .sum::<u64>()
}

fn obj(i: u64) -> Value {
    let mut map = Map::new();
    map.insert("name".to_string(), Value::from(format!("o{i}")));
    map.insert("v".to_string(), Value::from(i));
    Value::Object(map)
}

pub static DEFS: [Def; 9] = [
    Def {
        name: "num",
        ns: None,
        params: &[P::Num],
        variadic: Some(P::Any),
        body: |a| Value::from(weight(&a[1..]) % 10),
        real: |a| invoke(0, a),
        ret: Ty::Num,
    },
    Def {
        name: "str",
        ns: None,
        params: &[P::Num, P::Any],
        variadic: None,
        body: |a| Value::from(format!("s{}", weight(&a[1..]) % 7)),
        real: |a| invoke(1, a),
        ret: Ty::Str,
    },
    Def {
        name: "bool",
        ns: None,
        params: &[P::Num],
        variadic: Some(P::Scalar),
        body: |a| Value::from(weight(&a[1..]) % 2 == 0),
        real: |a| invoke(2, a),
        ret: Ty::Bool,
    },
    Def {
        name: "list",
        ns: None,
        params: &[P::Num],
        variadic: Some(P::Num),
        body: |a| Value::Array(a[1..].to_vec()),
        real: |a| invoke(3, a),
        ret: Ty::Nums,
    },
    Def {
        name: "objs",
        ns: None,
        params: &[P::Num, P::Num],
        variadic: None,
        body: |a| Value::Array((0..weight(&a[1..]) % 4).map(obj).collect()),
        real: |a| invoke(4, a),
        ret: Ty::Objs,
    },
    Def {
        name: "map",
        ns: Some("mod-1"),
        params: &[P::Num, P::Maps],
        variadic: Some(P::Nums),
        body: |a| {
            let mut map = Map::new();
            for (i, v) in a[2..].iter().enumerate() {
                map.insert(format!("k{i}"), Value::from(weight(std::slice::from_ref(v)) % 5));
            }
            map.insert("a".to_string(), Value::from(4));
            Value::Object(map)
        },
        real: |a| invoke(5, a),
        ret: Ty::Map,
    },
    Def {
        name: "id",
        ns: Some("ns"),
        params: &[P::Num, P::Any],
        variadic: None,
        body: |a| a[1].clone(),
        real: |a| invoke(6, a),
        ret: Ty::Any,
    },
    Def {
        name: "strict",
        ns: None,
        params: &[P::Num, P::Str, P::Nums],
        variadic: Some(P::NullOr),
        body: |a| Value::from(format!("t{}", weight(&a[1..]) % 7)),
        real: |a| invoke(7, a),
        ret: Ty::Str,
    },
    Def {
        name: "none",
        ns: None,
        params: &[P::Num],
        variadic: Some(P::Any),
        body: |_| Value::Null,
        real: |a| invoke(8, a),
        ret: Ty::Null,
    },
];

/// More functions under names which differ from those of others only in their namespace.
const ALIASES: [(&str, usize); 7] = [
    ("ns::num", 3),
    ("mod-1::ns::num", 0),
    ("ns::mod-1::num", 3),
    ("id", 1),
    ("mod-1::id", 8),
    ("map", 2),
    ("num::num", 1),
];

fn func_name(full: &str) -> hcl::expr::FuncName {
    let mut parts: Vec<&str> = full.split("::").collect();
    let name = hcl::expr::FuncName::new(parts.pop().unwrap_or_default());
    if parts.is_empty() {
        name
    } else {
        name.with_namespace(parts)
    }
}

/// The names an evaluation knows.
#[derive(Clone)]
pub struct World {
    pub vars: Vec<(String, Value)>,
    /// Function names and definitions.
    pub funcs: Vec<(String, usize)>,
}

impl World {
    pub fn gen(src: &mut Src) -> World {
        let nums: Vec<Value> = (0..src.range(0, 3)).map(|i| Value::from(i as u64 * 3)).collect();
        let objs: Vec<Value> = (0..src.range(0, 2)).map(|i| obj(i as u64 + 1)).collect();
        let strs: Vec<Value> = ["b", "a", "b"][..src.range(0, 3)].iter().map(|s| Value::from(*s)).collect();
        let mut map = Map::new();
        for k in &["a", "b", "c"][..src.range(0, 3)] {
            map.insert((*k).to_string(), Value::from(k.len() as u64));
        }
        World {
            vars: vec![
                ("n1".into(), Value::from(3)),
                (
                    "n2".into(),
                    match src.below(6) {
                        4 => Value::from(-(src.range(1, 5) as i64)),
                        5 => Value::from(*src.pick(&[i64::MIN, i64::MAX, -(1 << 40) - 1])),
                        n => Value::from(n as u64),
                    },
                ),
                ("s1".into(), Value::from("v")),
                ("b1".into(), Value::from(src.below(2) == 1)),
                ("nums".into(), Value::Array(nums)),
                ("strs".into(), Value::Array(strs)),
                ("objs".into(), Value::Array(objs)),
                ("map".into(), Value::Object(map)),
                ("o1".into(), obj(9)),
                ("nul".into(), Value::Null),
            ],
            funcs: DEFS
                .iter()
                .enumerate()
                .map(|(i, d)| (d.full(), i))
                .chain(ALIASES.iter().map(|(n, i)| ((*n).to_string(), *i)))
                .collect(),
        }
    }

    pub fn context(&self) -> Context<'static> {
        let mut ctx = Context::new();
        for (n, v) in &self.vars {
            ctx.declare_var(n.as_str(), v.clone());
        }
        for (n, i) in &self.funcs {
            ctx.declare_func(func_name(n), func_def(*i));
        }
        ctx
    }

    pub fn set_var(&mut self, ctx: &mut Context, name: &str, v: Value) {
        ctx.declare_var(name, v.clone());
        match self.vars.iter_mut().find(|(n, _)| n == name) {
            Some(x) => x.1 = v,
            None => self.vars.push((name.into(), v)),
        }
    }

    pub fn set_func(&mut self, ctx: &mut Context, name: &str, i: usize) {
        ctx.declare_func(func_name(name), func_def(i));
        match self.funcs.iter_mut().find(|(n, _)| n == name) {
            Some(x) => x.1 = i,
            None => self.funcs.push((name.into(), i)),
        }
    }
}

pub fn func_def(i: usize) -> FuncDef {
    let d = &DEFS[i];
    let mut b = FuncDef::builder();
    for p in d.params {
        b = b.param(p.param());
    }
    if let Some(p) = d.variadic {
        b = b.variadic_param(p.param());
    }
    b.build(d.real)
}

// ---------------------------------------------------------------------------------------------
// Expressions of a given type

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ty {
    Num,
    Str,
    Bool,
    Nums,
    Strs,
    Objs,
    Map,
    Obj,
    Null,
    Any,
}

const TYPES: [Ty; 9] = [
    Ty::Num,
    Ty::Str,
    Ty::Bool,
    Ty::Nums,
    Ty::Strs,
    Ty::Objs,
    Ty::Map,
    Ty::Obj,
    Ty::Null,
];

pub struct TG<'a> {
    pub src: &'a mut Src,
    /// The last call site.
    pub site: u64,
    /// Mistakes are made now and then.
    pub wrong: bool,
    scope: Vec<(String, Ty)>,
    budget: i32,
}

fn arr(items: Vec<E>) -> E {
    E::arr(items)
}

fn key_id(s: &str) -> Key {
    Key::Id(Id::new(s))
}

fn object(items: Vec<(Key, E)>) -> E {
    E::new(K::Obj(m::Obj {
        items: items
            .into_iter()
            .map(|(key, e)| Item {
                key,
                colon: false,
                e,
                term: Term::Comma,
            })
            .collect(),
        trail: String::new(),
    }))
}

fn trav(base: E, ops: Vec<OpK>) -> E {
    E::new(K::Trav(
        Box::new(base),
        ops.into_iter().map(|k| Op { d: D::default(), k }).collect(),
    ))
}

fn attr(s: &str) -> OpK {
    OpK::Attr(Id::new(s))
}

impl<'a> TG<'a> {
    pub fn new(src: &'a mut Src, budget: i32) -> TG<'a> {
        let scope = [
            ("n1", Ty::Num),
            ("n2", Ty::Num),
            ("s1", Ty::Str),
            ("b1", Ty::Bool),
            ("nums", Ty::Nums),
            ("strs", Ty::Strs),
            ("objs", Ty::Objs),
            ("map", Ty::Map),
            ("o1", Ty::Obj),
            ("nul", Ty::Null),
        ];
        TG {
            src,
            site: 0,
            wrong: true,
            scope: scope.iter().map(|(n, t)| ((*n).to_string(), *t)).collect(),
            budget,
        }
    }

    pub fn body(&mut self, depth: usize) -> B {
        let mut b = B::default();
        let names = ["a", "b", "c", "foo", "x-1"];
        let mut n = self.src.range(1, names.len());
        let mut many: Vec<String> = Vec::new();
        if self.src.chance(1, 80) {
            many = (0..*self.src.pick(&[9, 17, 33, 66])).map(|i| format!("m{i}")).collect();
            n = 0;
        }
        for name in names[..n].iter().copied().chain(many.iter().map(String::as_str)) {
            if depth > 0 && self.src.chance(1, 5) {
                let body = self.body(depth - 1);
                b.items.push(S::Block {
                    d: D::default(),
                    ident: Id::new("blk"),
                    labels: if self.src.below(2) == 1 {
                        vec![(true, Id::new("l"))]
                    } else {
                        vec![]
                    },
                    body,
                });
            } else {
                let e = if n == 0 && self.src.below(2) == 0 {
                    let k = *self.src.pick(&[0, 1, 3]);
                    self.call(k, 0)
                } else {
                    self.value()
                };
                b.items.push(S::Attr {
                    d: D::default(),
                    key: Id::new(name),
                    e,
                });
            }
        }
        b
    }

    /// Anything that may stand behind an attribute.
    pub fn value(&mut self) -> E {
        if self.src.chance(1, 12) {
            let mut parts = self.parts(2);
            match parts.last_mut() {
                Some(T::Lit(s)) => s.push('\n'),
                _ => parts.push(T::Lit("\n".into())),
            }
            return E::new(K::Heredoc(Box::new(m::Heredoc {
                delim: "EOT".into(),
                indent: None,
                parts,
                trail: String::new(),
            })));
        }
        let ty = *self.src.pick(&TYPES);
        if self.src.chance(1, 100) {
            return self.deep(ty);
        }
        if self.src.chance(1, 24) {
            return self.chain(2);
        }
        self.expr(ty, 4)
    }

    /// An expression far down.
    fn deep(&mut self, ty: Ty) -> E {
        let mut e = self.expr(ty, 1);
        let kind = self.src.below(6);
        for _ in 0..*self.src.pick(&[7, 15, 33, 66]) {
            let kind = if kind < 4 { kind } else { self.src.below(4) };
            e = match kind {
                0 => {
                    let args = vec![self.id(), e];
                    let mut e = E::call("id", args);
                    if let K::Call(c) = &mut e.k {
                        c.ns = vec![Id::new("ns")];
                    }
                    e
                }
                1 => E::new(K::Paren(Box::new(e))),
                2 => {
                    let c = E::new(K::Bool(self.src.below(2) == 0));
                    let other = self.leaf(ty);
                    let e = E::new(K::Paren(Box::new(e)));
                    let yes = matches!(c.k, K::Bool(true));
                    let (a, b) = if yes { (e, other) } else { (other, e) };
                    E::new(K::Cond(Box::new([c, a, b])))
                }
                _ => trav(
                    E::new(K::Paren(Box::new(E::arr(vec![e])))),
                    vec![OpK::Index(E::num(0))],
                ),
            };
        }
        e
    }

    /// Sizes of collections.
    fn some(&mut self, small: usize) -> usize {
        if self.src.chance(1, 50) {
            *self.src.pick(&[8, 9, 16, 17, 33])
        } else {
            self.src.below(small)
        }
    }

    fn id(&mut self) -> E {
        self.site += 1;
        E::num(self.site)
    }

    fn variable(&mut self, ty: Ty) -> Option<E> {
        let mut names: Vec<&str> = Vec::new();
        for (i, (n, t)) in self.scope.iter().enumerate() {
            let shadowed = self.scope[i + 1..].iter().any(|(m, _)| m == n);
            if !shadowed && (*t == ty || ty == Ty::Any) {
                names.push(n);
            }
        }
        if names.is_empty() {
            return None;
        }
        let n = names[self.src.below(names.len())];
        Some(E::var(n))
    }

    fn leaf(&mut self, ty: Ty) -> E {
        if self.src.below(2) == 1 {
            if let Some(v) = self.variable(ty) {
                return v;
            }
        }
        match ty {
            Ty::Num | Ty::Any if self.src.chance(1, 12) => {
                let n = match self.src.below(6) {
                    0 => m::Num::F(0.5),
                    1 => m::Num::U(1 << 63),
                    2 => m::Num::U(u64::MAX),
                    3 => m::Num::F(1.5e308),
                    4 => m::Num::U((1 << 53) + 1),
                    _ => m::Num::F(1e-7),
                };
                let big = matches!(n, m::Num::U(_));
                let e = E::new(K::Num(n, None));
                if big && self.src.below(2) == 1 {
                    E::new(K::Paren(Box::new(E::new(K::Un(true, Box::new(e))))))
                } else {
                    e
                }
            }
            Ty::Num | Ty::Any => E::num(self.src.below(6) as u64),
            Ty::Str => E::str(*self.src.pick(&["a", "", "b", "x y", "${", "a\nb", "é"])),
            Ty::Bool => E::new(K::Bool(self.src.below(2) == 1)),
            Ty::Nums => arr((0..self.some(4)).map(|i| E::num(i as u64)).collect()),
            Ty::Strs => arr((0..self.some(4)).map(|i| E::str(["a", "b", "a", "c d", "é"][i % 5])).collect()),
            Ty::Objs => arr((0..self.src.below(3)).map(|_| self.leaf(Ty::Obj)).collect()),
            Ty::Map => object(
                (0..self.some(3))
                    .map(|i| match i {
                        0 => (key_id("a"), E::num(1)),
                        1 => (key_id("b"), E::num(1)),
                        // Not in the order of the alphabet.
                        i => (key_id(&format!("k{}", i * 7 % 40)), E::num(i as u64)),
                    })
                    .collect(),
            ),
            Ty::Obj => object(vec![(key_id("name"), E::str("q")), (key_id("v"), E::num(2))]),
            Ty::Null => E::new(K::Null),
        }
    }

    /// An expression that can be an operand.
    fn operand(&mut self, ty: Ty, d: usize) -> E {
        let e = self.expr(ty, d);
        match e.k {
            K::Bin(..) | K::Un(..) | K::Cond(..) | K::For(..) => E::new(K::Paren(Box::new(e))),
            _ => e,
        }
    }

    /// An expression operators can be applied to.
    fn base(&mut self, ty: Ty, d: usize) -> E {
        let e = self.expr(ty, d);
        match e.k {
            K::Var(_) | K::Call(_) | K::Paren(_) => e,
            _ => E::new(K::Paren(Box::new(e))),
        }
    }

    fn call(&mut self, k: usize, d: usize) -> E {
        let def = &DEFS[k];
        let mut args = vec![self.id()];
        let arg = |g: &mut TG, p: P| {
            let ty = match p {
                P::Any if g.src.chance(1, 12) => Ty::Any,
                P::Any => *g.src.pick(&TYPES),
                P::Num => Ty::Num,
                P::Str => Ty::Str,
                P::Scalar => *g.src.pick(&[Ty::Num, Ty::Str, Ty::Bool]),
                P::Nums => Ty::Nums,
                P::NullOr => *g.src.pick(&[Ty::Null, Ty::Str, Ty::Strs]),
                P::Maps => Ty::Map,
            };
            g.expr(ty, d)
        };
        for p in &def.params[1..] {
            let a = arg(self, *p);
            args.push(a);
        }
        let mut expand = false;
        if let Some(p) = def.variadic {
            for _ in 0..self.some(3) {
                let a = arg(self, p);
                args.push(a);
            }
            if self.src.chance(1, 4) {
                expand = true;
                let a = match p {
                    P::Num | P::Scalar | P::Any => self.expr(Ty::Nums, d),
                    P::Nums => arr(vec![E::arr(vec![]), self.expr(Ty::Nums, d)]),
                    _ => self.expr(Ty::Strs, d),
                };
                args.push(a);
            }
        }
        if self.wrong && self.src.chance(1, 40) {
            if self.src.below(2) == 0 {
                args.pop();
                expand = false;
            } else {
                args.push(self.leaf(Ty::Null));
            }
        }
        // All arguments in one list.
        if !expand && self.src.chance(1, 24) {
            args = vec![arr(args)];
            expand = true;
        }
        let mut name = def.name.to_string();
        let mut ns: Vec<&str> = def.ns.into_iter().collect();
        if self.src.chance(1, 8) {
            let list: Vec<&str> = ALIASES.iter().filter(|(_, i)| *i == k).map(|(n, _)| *n).collect();
            if !list.is_empty() {
                ns = self.src.pick(&list).split("::").collect();
                name = ns.pop().unwrap_or_default().into();
            }
        }
        if self.wrong && self.src.chance(1, 40) {
            if self.src.below(3) == 0 {
                ns.insert(self.src.below(ns.len() + 1), UNKNOWN);
            } else {
                name = format!("nofunc{}", self.site);
            }
        }
        E::new(K::Call(Box::new(m::Call {
            ns: ns.into_iter().map(Id::new).collect(),
            name: Id::new(name),
            expand: expand && !args.is_empty(),
            args,
            comma: false,
            trail: String::new(),
        })))
    }

    fn binder(&mut self, coll: Ty, want_key: bool) -> (Option<Id>, Id) {
        let names = ["x", "y", "n1", "map", "el"];
        let i = self.src.below(names.len());
        let val = names[i];
        let (kt, vt) = match coll {
            Ty::Nums => (Ty::Num, Ty::Num),
            Ty::Strs => (Ty::Num, Ty::Str),
            Ty::Objs => (Ty::Num, Ty::Obj),
            _ => (Ty::Str, Ty::Num),
        };
        let key = if want_key || self.src.below(2) == 1 {
            let k = names[(i + 1 + self.src.below(names.len() - 1)) % names.len()];
            self.scope.push((k.to_string(), kt));
            Some(Id::new(k))
        } else {
            None
        };
        self.scope.push((val.to_string(), vt));
        (key, Id::new(val))
    }

    fn coll(&mut self) -> Ty {
        *self.src.pick(&[Ty::Nums, Ty::Strs, Ty::Objs, Ty::Map])
    }

    fn for_expr(&mut self, key: Option<Ty>, val: Ty, grouping: bool, d: usize) -> E {
        let ct = self.coll();
        let coll = self.operand(ct, d);
        let depth = self.scope.len();
        let (key_var, val_var) = self.binder(ct, false);
        let key = key.map(|t| self.operand(t, d));
        let val = self.operand(val, d);
        let cond = if self.src.chance(1, 2) {
            Some((D::default(), self.operand(Ty::Bool, d)))
        } else {
            None
        };
        self.scope.truncate(depth);
        E::new(K::For(Box::new(m::For {
            d: D::default(),
            key_var,
            val_var,
            coll,
            key,
            val,
            grouping,
            gtrail: String::new(),
            cond,
        })))
    }

    pub fn expr(&mut self, ty: Ty, depth: usize) -> E {
        self.budget -= 1;
        if depth == 0 || self.budget <= 0 || self.src.below(8) < 2 {
            return self.leaf(ty);
        }
        let d = depth - 1;
        if self.wrong && self.src.chance(1, 60) {
            return E::var(&format!("nope{}", self.site));
        }
        let ty = if self.wrong && self.src.chance(1, 60) {
            *self.src.pick(&TYPES)
        } else {
            ty
        };
        // What every type has.
        match self.src.below(8) {
            0 | 1 => {
                let fits: Vec<usize> = (0..DEFS.len())
                    .filter(|i| DEFS[*i].ret == ty || DEFS[*i].ret == Ty::Any && *i == 6)
                    .collect();
                let k = *self.src.pick(&fits);
                if k == 6 {
                    let args = vec![self.id(), self.expr(ty, d)];
                    let mut e = E::call("id", args);
                    if let K::Call(c) = &mut e.k {
                        c.ns = vec![Id::new("ns")];
                    }
                    return e;
                }
                return self.call(k, d);
            }
            2 => {
                let c = self.operand(Ty::Bool, d);
                let a = self.operand(ty, d);
                let b = self.operand(ty, d);
                return E::new(K::Cond(Box::new([c, a, b])));
            }
            3 => {
                let e = self.expr(ty, d);
                return E::new(K::Paren(Box::new(e)));
            }
            4 => {
                let e = self.expr(ty, d);
                return E::new(K::Tmpl(vec![T::Interp(e, (false, false))]));
            }
            _ => {}
        }
        match ty {
            Ty::Num => match self.src.below(7) {
                0 => {
                    let op = *self.src.pick(&[BinOp::Add, BinOp::Sub, BinOp::Mul, BinOp::Div, BinOp::Mod]);
                    self.binary(Ty::Num, op, Ty::Num, d)
                }
                1 => {
                    let e = self.base(Ty::Num, d);
                    E::new(K::Un(true, Box::new(e)))
                }
                2 => {
                    let b = self.base(Ty::Nums, d);
                    let i = self.index(d);
                    trav(b, vec![i])
                }
                3 => {
                    let b = self.base(Ty::Obj, d);
                    let op = if self.src.below(2) == 0 {
                        attr("v")
                    } else {
                        OpK::Index(E::str("v"))
                    };
                    trav(b, vec![op])
                }
                4 => {
                    let b = self.base(Ty::Objs, d);
                    let i = self.index(d);
                    trav(b, vec![i, attr("v")])
                }
                5 => {
                    let b = self.base(Ty::Map, d);
                    let e = self.expr(Ty::Str, d);
                    let op = if self.src.below(2) == 0 { attr("a") } else { OpK::Index(e) };
                    trav(b, vec![op])
                }
                _ => self.call(0, d),
            },
            Ty::Bool => match self.src.below(5) {
                0 => {
                    let op = *self.src.pick(&[BinOp::Lt, BinOp::Le, BinOp::Gt, BinOp::Ge]);
                    self.binary(Ty::Num, op, Ty::Num, d)
                }
                1 => {
                    let op = *self.src.pick(&[BinOp::And, BinOp::Or]);
                    self.binary(Ty::Bool, op, Ty::Bool, d)
                }
                2 => {
                    let op = *self.src.pick(&[BinOp::Eq, BinOp::Ne]);
                    let a = *self.src.pick(&TYPES);
                    let b = if self.src.below(3) == 0 { *self.src.pick(&TYPES) } else { a };
                    self.binary(a, op, b, d)
                }
                3 => {
                    let e = self.base(Ty::Bool, d);
                    E::new(K::Un(false, Box::new(e)))
                }
                _ => self.call(2, d),
            },
            Ty::Str => match self.src.below(4) {
                0 | 1 => E::new(K::Tmpl(self.parts(d))),
                2 => {
                    let b = self.base(Ty::Obj, d);
                    trav(b, vec![attr("name")])
                }
                _ => self.call(7, d),
            },
            Ty::Nums | Ty::Strs | Ty::Objs => {
                let el = match ty {
                    Ty::Nums => Ty::Num,
                    Ty::Strs => Ty::Str,
                    _ => Ty::Obj,
                };
                match self.src.below(4) {
                    0 | 1 => {
                        let n = self.src.below(4);
                        arr((0..n).map(|_| self.expr(el, d)).collect())
                    }
                    2 if ty != Ty::Objs => {
                        let kind = self.src.below(9);
                        let b = match kind {
                            0 => self.base(Ty::Obj, d),
                            1 => self.base(Ty::Null, d),
                            8 => E::new(K::Paren(Box::new(arr(vec![])))),
                            2 if self.wrong => {
                                let e = self.expr(Ty::Objs, d);
                                let o = self.expr(Ty::Obj, d);
                                let n = self.leaf(Ty::Null);
                                let mut list = vec![e, o, n];
                                list.rotate_left(self.src.below(3));
                                list.truncate(self.src.range(1, 3));
                                arr(list)
                            }
                            _ => self.base(Ty::Objs, d),
                        };
                        let name = if ty == Ty::Nums { "v" } else { "name" };
                        let member = if self.src.below(3) == 0 {
                            // Evaluated once per element.
                            let mut e = E::call("id", vec![self.id(), E::str(name)]);
                            if let K::Call(c) = &mut e.k {
                                c.ns = vec![Id::new("ns")];
                            }
                            OpK::Index(e)
                        } else {
                            attr(name)
                        };
                        let full = matches!(member, OpK::Index(_)) || self.src.below(2) == 1;
                        let mut ops = if full {
                            vec![OpK::FullSplat(D::default()), member]
                        } else {
                            vec![OpK::AttrSplat(D::default()), member]
                        };
                        match self.src.below(10) {
                            0 => ops.insert(1, OpK::FullSplat(D::default())),
                            1 if self.wrong => ops.push(self.index(d)),
                            2 => ops.truncate(1),
                            // What is behind is never looked at.
                            3..=7 if full && matches!(kind, 1 | 8) => ops.push(self.index(d)),
                            _ => {}
                        }
                        trav(b, ops)
                    }
                    _ => self.for_expr(None, el, false, d),
                }
            }
            Ty::Any => self.chain(d),
            Ty::Map => match self.src.below(4) {
                0 => {
                    let n = self.src.below(4);
                    let mut items: Vec<(Key, E)> = Vec::new();
                    for i in 0..n {
                        let key = match self.src.below(4) {
                            0 => key_id(["p", "q", "r", "a"][i]),
                            1 => Key::Ex(E::str(["p", "q", "r", "s"][i])),
                            2 => {
                                let ty = *self.src.pick(&[Ty::Str, Ty::Num, Ty::Bool]);
                                let e = self.expr(ty, d);
                                Key::Ex(E::new(K::Paren(Box::new(e))))
                            }
                            // Equal to another one, but only once it is evaluated.
                            _ if i > 0 && self.src.below(2) == 0 => {
                                let known = items.iter().find_map(|(k, _)| match k {
                                    Key::Ex(e) if matches!(e.k, K::Str(_)) => Some(e.clone()),
                                    _ => None,
                                });
                                Key::Ex(E::new(K::Paren(Box::new(known.unwrap_or_else(|| E::str("p"))))))
                            }
                            _ => Key::Ex(self.call(1, d)),
                        };
                        let e = self.expr(Ty::Num, d);
                        items.push((key, e));
                    }
                    // Equal keys are merged before anything is evaluated.
                    let mut seen: Vec<String> = Vec::new();
                    items.retain(|(k, _)| {
                        let k = canon::model_key(k);
                        let new = !seen.contains(&k);
                        seen.push(k);
                        new
                    });
                    object(items)
                }
                1 => self.for_expr(Some(Ty::Str), Ty::Num, false, d),
                2 => {
                    let grouping = self.src.below(2) == 1;
                    self.for_expr(Some(*[Ty::Str, Ty::Num].get(d % 2).unwrap_or(&Ty::Str)), Ty::Num, grouping, d)
                }
                _ => self.call(5, d),
            },
            Ty::Obj => match self.src.below(3) {
                0 => {
                    let (a, b) = (self.expr(Ty::Str, d), self.expr(Ty::Num, d));
                    object(vec![(key_id("name"), a), (Key::Ex(E::str("v")), b)])
                }
                1 => {
                    let b = self.base(Ty::Objs, d);
                    let i = self.index(d);
                    trav(b, vec![i])
                }
                _ => self.leaf(Ty::Obj),
            },
            Ty::Null => self.call(8, d),
        }
    }

    /// A chain of splats, members and elements over nested data, mostly one which fits the data.
    fn chain(&mut self, d: usize) -> E {
        // From the outside: whether there is a list (or an object).
        let mut shape: Vec<bool> = (0..self.src.range(2, 5)).map(|_| self.src.below(2) == 1).collect();
        let data = self.nested(&shape, d);
        let base = E::new(K::Paren(Box::new(data)));
        let mut ops = Vec::new();
        shape.reverse();
        // Whether members are those of the elements of a list.
        let mut each = false;
        for _ in 0..self.src.range(1, 5) {
            if self.src.chance(1, 12) {
                ops.push(self.index(d));
                each = false;
                continue;
            }
            let at = shape.len().wrapping_sub(if each { 2 } else { 1 });
            match shape.get(at) {
                Some(false) if each => {
                    ops.push(attr("a"));
                    shape.remove(at);
                    // One more list can come only from another kind of operator.
                    each = self.src.below(3) > 0;
                }
                Some(false) => match self.src.below(5) {
                    0 => {
                        ops.push(OpK::AttrSplat(D::default()));
                        shape.push(true);
                        each = true;
                    }
                    1 => ops.push(OpK::FullSplat(D::default())),
                    n => {
                        ops.push(if n == 2 { OpK::Index(E::str("a")) } else { attr("a") });
                        shape.pop();
                    }
                },
                Some(true) if !each => match self.src.below(4) {
                    0 => {
                        ops.push(OpK::Index(E::num(0)));
                        shape.pop();
                    }
                    1 => {
                        ops.push(OpK::FullSplat(D::default()));
                        shape.pop();
                    }
                    _ => {
                        ops.push(OpK::AttrSplat(D::default()));
                        each = true;
                    }
                },
                Some(true) => each = false,
                None => break,
            }
        }
        if ops.is_empty() {
            ops.push(OpK::FullSplat(D::default()));
        }
        trav(base, ops)
    }

    fn nested(&mut self, shape: &[bool], d: usize) -> E {
        match shape.split_first() {
            Some((true, rest)) => {
                let n = [1, 1, 2, 3, 0][self.src.below(5)];
                arr((0..n).map(|_| self.nested(rest, d)).collect())
            }
            Some((false, rest)) => {
                let e = self.nested(rest, d);
                object(vec![(key_id("a"), e)])
            }
            None => match self.src.below(3) {
                0 => E::num(self.src.below(9) as u64),
                1 => self.call(8, d),
                _ => self.call(5, d),
            },
        }
    }

    fn index(&mut self, d: usize) -> OpK {
        if self.src.chance(1, 16) {
            let i = *self.src.pick(&[1 << 32, (1 << 32) + 1, u64::MAX, u64::from(u32::MAX), 2, 3, 7]);
            return if self.src.below(2) == 0 { OpK::Index(E::num(i)) } else { OpK::Legacy(i, D::default()) };
        }
        match self.src.below(3) {
            0 => OpK::Index(E::num(self.src.below(2) as u64)),
            1 => OpK::Legacy(self.src.below(2) as u64, D::default()),
            _ => OpK::Index(self.expr(Ty::Num, d)),
        }
    }

    /// A number of any size and sign.
    fn figure(&mut self) -> E {
        let n = match self.src.below(8) {
            0 => m::Num::F(0.5),
            1 => m::Num::F(2.75),
            2 => m::Num::U(*self.src.pick(&[1 << 63, (1 << 63) - 1, (1 << 53) + 1, u64::MAX, 1 << 32])),
            3 => m::Num::F(*self.src.pick(&[1.5e308, 1e-7, 1e19, 1e18, 9007199254740993.5])),
            _ => m::Num::U(self.src.below(12) as u64),
        };
        let e = E::new(K::Num(n, None));
        if self.src.below(2) == 1 {
            E::new(K::Paren(Box::new(E::new(K::Un(true, Box::new(e))))))
        } else {
            e
        }
    }

    fn binary(&mut self, l: Ty, op: BinOp, r: Ty, d: usize) -> E {
        if matches!((l, r), (Ty::Num, Ty::Num)) && self.src.chance(1, 3) {
            let l = self.figure();
            let r = if self.src.below(6) == 0 { l.clone() } else { self.figure() };
            return E::new(K::Bin(Box::new(l), op, D::default(), Box::new(r)));
        }
        let l = self.operand(l, d);
        let r = self.operand(r, d);
        E::new(K::Bin(Box::new(l), op, D::default(), Box::new(r)))
    }

    fn strip(&mut self) -> m::Strip {
        if self.src.chance(1, 4) {
            (self.src.below(2) == 1, self.src.below(2) == 1)
        } else {
            (false, false)
        }
    }

    fn mark(&mut self) -> Mark {
        let mut mark = Mark::new();
        mark.strip = self.strip();
        mark
    }

    /// Elements between directives, if any.
    fn inner(&mut self, d: usize) -> Vec<T> {
        if self.src.chance(1, 8) {
            vec![]
        } else {
            self.parts(d)
        }
    }

    /// Elements of a template: no two literals in a row.
    pub fn parts(&mut self, d: usize) -> Vec<T> {
        let n = self.src.range(1, 3);
        let mut parts: Vec<T> = Vec::new();
        for _ in 0..n {
            let lit = matches!(parts.last(), Some(T::Lit(_)));
            match self.src.weighted(&[if lit { 0 } else { 4 }, 4, 2, 2]) {
                0 if !lit => {
                    let s = *self.src.pick(&["l", " ", " a ", "\n  b\n ", "${ ", "x  \n", " \r\n c \r\n", "\u{a0}\n\n", "\t\r"]);
                    parts.push(T::Lit(s.into()));
                }
                2 if d > 0 => {
                    let cond = self.expr(Ty::Bool, d - 1);
                    let body = self.inner(d - 1);
                    let els = if self.src.below(2) == 1 {
                        Some((self.mark(), self.inner(d - 1)))
                    } else {
                        None
                    };
                    parts.push(T::If(Box::new(If {
                        pre: " ".into(),
                        strip: self.strip(),
                        cond,
                        body,
                        els,
                        end: self.mark(),
                    })));
                }
                3 if d > 0 => {
                    let ct = self.coll();
                    let coll = self.expr(ct, d - 1);
                    let depth = self.scope.len();
                    let (key_var, val_var) = self.binder(ct, false);
                    let body = self.inner(d - 1);
                    self.scope.truncate(depth);
                    parts.push(T::For(Box::new(TFor {
                        pre: " ".into(),
                        strip: self.strip(),
                        key_var,
                        val_var,
                        coll,
                        body,
                        end: self.mark(),
                    })));
                }
                _ => {
                    let ty = *self.src.pick(&[Ty::Str, Ty::Num, Ty::Bool, Ty::Nums, Ty::Str]);
                    let e = self.expr(ty, d.min(2));
                    let strip = self.strip();
                    parts.push(T::Interp(e, strip));
                }
            }
        }
        parts
    }
}

// ---------------------------------------------------------------------------------------------
// The reference evaluator

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    /// A function failed with this message.
    Func(String, String),
    /// A function does not accept its arguments.
    Args(String),
    Var(String),
    NoFunc(String),
    /// There is no such element.
    Index(u64),
    /// There is no such member.
    Key(String),
    Other(&'static str),
    Panic,
}

impl Fail {
    /// Whether the reported error is this one.
    pub fn is(&self, err: &hcl::eval::Error) -> bool {
        let text = err.to_string();
        match (self, err.kind()) {
            (Fail::Func(name, msg), ErrorKind::FuncCall(n, m)) => {
                n.to_string() == *name && m == msg && text.contains(name) && text.contains(msg)
            }
            (Fail::Args(name), ErrorKind::FuncCall(n, m)) => {
                n.to_string() == *name && !m.starts_with("boom") && text.contains(name)
            }
            (Fail::Var(name), ErrorKind::UndefinedVar(n)) => n.as_str() == name && text.contains(name),
            (Fail::NoFunc(name), ErrorKind::UndefinedFunc(n)) => {
                n.to_string() == *name && text.contains(name)
            }
            (Fail::Index(i), ErrorKind::Index(n)) => *i == *n as u64 && text.contains(&i.to_string()),
            (Fail::Key(k), ErrorKind::NoSuchKey(n)) => n == k && text.contains(k),
            (
                Fail::Other(_),
                ErrorKind::Index(_) | ErrorKind::NoSuchKey(_),
            ) => false,
            (
                Fail::Other(_),
                ErrorKind::FuncCall(..) | ErrorKind::UndefinedVar(_) | ErrorKind::UndefinedFunc(_),
            ) => false,
            (Fail::Other(_), _) => true,
            _ => false,
        }
    }
}

type Eval<R> = Result<R, Fail>;

pub struct Ref<'w> {
    world: &'w World,
    plan: Plan,
    pub log: Vec<Call>,
    scope: Vec<(String, Value)>,
}

/// Arithmetic of its own: integers of the same sign are exact, everything else is floating point.
#[derive(Clone, Copy)]
enum N {
    Int(i128),
    Float(f64),
}

impl N {
    fn of(n: Number) -> N {
        match (n.as_u64(), n.as_i64(), n.as_f64()) {
            (Some(u), ..) => N::Int(u.into()),
            (_, Some(i), _) => N::Int(i.into()),
            (.., f) => N::Float(f.unwrap_or(f64::NAN)),
        }
    }

    fn float(self) -> f64 {
        match self {
            N::Int(i) => i as f64,
            N::Float(f) => f,
        }
    }

    /// Both as integers of the same sign.
    fn ints(self, r: N) -> Option<(i128, i128)> {
        match (self, r) {
            (N::Int(a), N::Int(b)) if (a < 0) == (b < 0) => Some((a, b)),
            _ => None,
        }
    }

    fn order(self, r: N) -> std::cmp::Ordering {
        match self.ints(r) {
            Some((a, b)) => a.cmp(&b),
            None => self.float().total_cmp(&(r.float() + 0.0)),
        }
    }

    fn neg(self) -> Value {
        match self {
            N::Int(i) if i <= 1 << 63 => int(-i),
            n => real(-n.float()),
        }
    }

    fn arith(self, op: BinOp, r: N) -> Eval<Value> {
        let (x, y) = (self.float(), r.float());
        let f = match op {
            BinOp::Add => x + y,
            BinOp::Sub => x - y,
            BinOp::Mul => x * y,
            BinOp::Div => x / y,
            _ => x % y,
        };
        if !f.is_finite() {
            return Err(Fail::Other("not finite"));
        }
        let exact = self.ints(r).and_then(|(a, b)| match op {
            BinOp::Add => a.checked_add(b),
            BinOp::Sub => a.checked_sub(b),
            BinOp::Mul => a.checked_mul(b),
            BinOp::Div => None,
            _ => a.checked_rem(b),
        });
        // Results of negative integers are computed as such.
        let max = if matches!(self, N::Int(i) if i < 0) {
            i64::MAX.into()
        } else {
            u64::MAX.into()
        };
        Ok(match exact {
            Some(i) if i >= i64::MIN.into() && i <= max => int(i),
            _ => real(f),
        })
    }

    fn text(self, n: Number) -> String {
        match self {
            N::Int(i) => i.to_string(),
            N::Float(f) => {
                let text = n.to_string();
                if text.parse::<f64>() == Ok(f) {
                    text
                } else {
                    format!("{f:?}")
                }
            }
        }
    }
}

fn int(i: i128) -> Value {
    match u64::try_from(i) {
        Ok(u) => Value::from(u),
        Err(_) => Value::from(i as i64),
    }
}

fn real(f: f64) -> Value {
    if f.fract() == 0.0 && f >= -9223372036854775808.0 && f < 18446744073709551616.0 {
        int(f as i128)
    } else {
        Value::from(f)
    }
}

fn equal(l: &Value, r: &Value) -> bool {
    match (l, r) {
        (Value::Null, Value::Null) => true,
        (Value::Bool(a), Value::Bool(b)) => a == b,
        (Value::String(a), Value::String(b)) => a == b,
        (Value::Number(a), Value::Number(b)) => N::of(*a).order(N::of(*b)).is_eq(),
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| equal(a, b)),
        (Value::Object(a), Value::Object(b)) => {
            a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| equal(v, w)))
        }
        _ => false,
    }
}

fn text_of(v: Value) -> String {
    match v {
        Value::String(s) => s,
        Value::Number(n) => N::of(n).text(n),
        Value::Bool(b) => (if b { "true" } else { "false" }).into(),
        Value::Null => "null".into(),
        v => v.to_string(),
    }
}

impl<'w> Ref<'w> {
    pub fn new(world: &'w World, plan: &Plan) -> Ref<'w> {
        Ref {
            world,
            plan: plan.clone(),
            log: Vec::new(),
            scope: Vec::new(),
        }
    }

    pub fn body(&mut self, b: &B) -> Eval<hcl::Body> {
        let mut out = hcl::Body::builder();
        for s in &b.items {
            out = match s {
                S::Attr { key, e, .. } => {
                    out.add_attribute(hcl::Attribute::new(key.s.as_str(), self.expr(e)?))
                }
                S::Block {
                    ident,
                    labels,
                    body,
                    ..
                } => {
                    let mut block = hcl::Block::new(ident.s.as_str());
                    for (string, l) in labels {
                        block.labels.push(if *string {
                            hcl::BlockLabel::from(l.s.as_str())
                        } else {
                            hcl::BlockLabel::from(hcl::Identifier::sanitized(&l.s))
                        });
                    }
                    block.body = self.body(body)?;
                    out.add_block(block)
                }
            };
        }
        Ok(out.build())
    }

    fn bool(&mut self, e: &E) -> Eval<bool> {
        match self.expr(e)? {
            Value::Bool(b) => Ok(b),
            _ => Err(Fail::Other("a boolean")),
        }
    }

    pub fn key(&mut self, e: &E) -> Eval<String> {
        match self.expr(e)? {
            Value::String(s) => Ok(s),
            Value::Bool(b) => Ok(b.to_string()),
            Value::Number(n) => Ok(N::of(n).text(n)),
            _ => Err(Fail::Other("a key")),
        }
    }

    fn pairs(&mut self, e: &E) -> Eval<Vec<(Value, Value)>> {
        match self.expr(e)? {
            Value::Array(a) => Ok(a
                .into_iter()
                .enumerate()
                .map(|(i, v)| (Value::from(i as u64), v))
                .collect()),
            Value::Object(o) => Ok(o.into_iter().map(|(k, v)| (Value::String(k), v)).collect()),
            _ => Err(Fail::Other("a collection")),
        }
    }

    /// Runs something once per element of a collection.
    fn each<R>(
        &mut self,
        coll: &E,
        key: &Option<Id>,
        val: &Id,
        mut f: impl FnMut(&mut Self) -> Eval<R>,
    ) -> Eval<Vec<R>> {
        let mut out = Vec::new();
        for (k, v) in self.pairs(coll)? {
            let n = self.scope.len();
            if let Some(key) = key {
                self.scope.push((key.s.clone(), k));
            }
            self.scope.push((val.s.clone(), v));
            let r = f(self);
            self.scope.truncate(n);
            out.push(r?);
        }
        Ok(out)
    }

    pub fn expr(&mut self, e: &E) -> Eval<Value> {
        Ok(match &e.k {
            K::Null => Value::Null,
            K::Bool(b) => Value::Bool(*b),
            K::Num(n, _) => Value::Number(make::number(n)),
            K::Str(s) => Value::String(s.clone()),
            K::Var(n) => {
                let own = self.scope.iter().rev().find(|(m, _)| m == n);
                match own.or_else(|| self.world.vars.iter().find(|(m, _)| m == n)) {
                    Some((_, v)) => v.clone(),
                    None => return Err(Fail::Var(n.clone())),
                }
            }
            K::Arr(a) => Value::Array(a.items.iter().map(|e| self.expr(e)).collect::<Eval<_>>()?),
            K::Obj(o) => {
                let mut map = Map::new();
                for it in &o.items {
                    let k = match &it.key {
                        Key::Id(i) => i.s.clone(),
                        Key::Ex(e) => self.key(e)?,
                    };
                    let v = self.expr(&it.e)?;
                    map.insert(k, v);
                }
                Value::Object(map)
            }
            K::Tmpl(parts) => self.template_value(parts)?,
            K::Heredoc(h) => self.template_value(&h.parts)?,
            K::Paren(e) => self.expr(e)?,
            K::Cond(c) => {
                if self.bool(&c[0])? {
                    self.expr(&c[1])?
                } else {
                    self.expr(&c[2])?
                }
            }
            K::Un(neg, e) => match (neg, self.expr(e)?) {
                (false, Value::Bool(b)) => Value::Bool(!b),
                (true, Value::Number(n)) => N::of(n).neg(),
                _ => return Err(Fail::Other("unary")),
            },
            K::Bin(l, op, _, r) => {
                let l = self.expr(l)?;
                let r = self.expr(r)?;
                Ref::binary(l, *op, r)?
            }
            K::Call(c) => self.call(c)?,
            K::Trav(base, ops) => {
                let v = self.expr(base)?;
                self.traverse(v, ops)?
            }
            K::For(f) => {
                let Some(key) = &f.key else {
                    let mut out = Vec::new();
                    self.each(&f.coll, &f.key_var, &f.val_var, |r| {
                        if match &f.cond {
                            Some((_, c)) => r.bool(c)?,
                            None => true,
                        } {
                            out.push(r.expr(&f.val)?);
                        }
                        Ok(())
                    })?;
                    return Ok(Value::Array(out));
                };
                let mut map: Map<String, Value> = Map::new();
                self.each(&f.coll, &f.key_var, &f.val_var, |r| {
                    if let Some((_, c)) = &f.cond {
                        if !r.bool(c)? {
                            return Ok(());
                        }
                    }
                    let k = r.key(key)?;
                    let v = r.expr(&f.val)?;
                    if f.grouping {
                        match map.get_mut(&k) {
                            Some(Value::Array(a)) => a.push(v),
                            _ => {
                                map.insert(k, Value::Array(vec![v]));
                            }
                        }
                    } else if map.insert(k, v).is_some() {
                        return Err(Fail::Other("key exists"));
                    }
                    Ok(())
                })?;
                Value::Object(map)
            }
        })
    }

    fn binary(l: Value, op: BinOp, r: Value) -> Eval<Value> {
        Ok(match (l, op, r) {
            (l, BinOp::Eq, r) => Value::Bool(equal(&l, &r)),
            (l, BinOp::Ne, r) => Value::Bool(!equal(&l, &r)),
            (Value::Bool(l), BinOp::And, Value::Bool(r)) => Value::Bool(l && r),
            (Value::Bool(l), BinOp::Or, Value::Bool(r)) => Value::Bool(l || r),
            (Value::Number(l), op, Value::Number(r)) => {
                let (l, r) = (N::of(l), N::of(r));
                let order = l.order(r);
                match op {
                    BinOp::Lt => Value::Bool(order.is_lt()),
                    BinOp::Le => Value::Bool(order.is_le()),
                    BinOp::Gt => Value::Bool(order.is_gt()),
                    BinOp::Ge => Value::Bool(order.is_ge()),
                    BinOp::Add | BinOp::Sub | BinOp::Mul | BinOp::Div | BinOp::Mod => l.arith(op, r)?,
                    _ => return Err(Fail::Other("binary")),
                }
            }
            _ => return Err(Fail::Other("binary")),
        })
    }

    fn call(&mut self, c: &m::Call) -> Eval<Value> {
        let mut name = String::new();
        for n in &c.ns {
            name.push_str(&n.s);
            name.push_str("::");
        }
        name.push_str(&c.name.s);
        let Some((_, k)) = self.world.funcs.iter().find(|(n, _)| *n == name) else {
            return Err(Fail::NoFunc(name));
        };
        let mut args = Vec::new();
        for (i, a) in c.args.iter().enumerate() {
            let v = self.expr(a)?;
            if c.expand && i + 1 == c.args.len() {
                match v {
                    Value::Array(a) => args.extend(a),
                    _ => return Err(Fail::Other("an array")),
                }
            } else {
                args.push(v);
            }
        }
        let def = &DEFS[*k];
        if !def.check(&args) {
            return Err(Fail::Args(name));
        }
        let (res, outcome) = self.plan.outcome(def, self.log.len(), &args);
        let panicked = outcome == Outcome::Panicked;
        self.log.push(Call {
            func: def.full(),
            args: arg_text(&args),
            site: site(&args),
            outcome,
        });
        if panicked {
            return Err(Fail::Panic);
        }
        res.map_err(|msg| Fail::Func(name, msg))
    }

    fn traverse(&mut self, mut v: Value, ops: &[Op]) -> Eval<Value> {
        for (i, op) in ops.iter().enumerate() {
            v = match &op.k {
                OpK::Attr(id) => Ref::member(v, &id.s)?,
                OpK::Legacy(n, _) => Ref::element(v, *n)?,
                OpK::Index(e) => match self.expr(e)? {
                    Value::String(s) => Ref::member(v, &s)?,
                    Value::Number(n) => match n.as_u64() {
                        Some(n) => Ref::element(v, n)?,
                        None => return Err(Fail::Other("an index")),
                    },
                    _ => return Err(Fail::Other("an index")),
                },
                OpK::AttrSplat(_) => {
                    let rest = &ops[i + 1..];
                    let n = rest
                        .iter()
                        .take_while(|op| matches!(op.k, OpK::Attr(_)))
                        .count();
                    let v = self.splat(v, &rest[..n])?;
                    return self.traverse(v, &rest[n..]);
                }
                OpK::FullSplat(_) => return self.splat(v, &ops[i + 1..]),
            };
        }
        Ok(v)
    }

    fn splat(&mut self, v: Value, ops: &[Op]) -> Eval<Value> {
        let items = match v {
            Value::Null => vec![],
            Value::Array(a) => a,
            v => vec![v],
        };
        Ok(Value::Array(
            items
                .into_iter()
                .map(|v| self.traverse(v, ops))
                .collect::<Eval<_>>()?,
        ))
    }

    fn member(v: Value, k: &str) -> Eval<Value> {
        match v {
            Value::Object(o) => o.get(k).cloned().ok_or_else(|| Fail::Key(k.into())),
            _ => Err(Fail::Other("an object")),
        }
    }

    fn element(v: Value, i: u64) -> Eval<Value> {
        match v {
            Value::Array(a) => a.get(i as usize).cloned().ok_or(Fail::Index(i)),
            _ => Err(Fail::Other("an array")),
        }
    }

    fn template_value(&mut self, parts: &[T]) -> Eval<Value> {
        if let [T::Interp(e, _)] = parts {
            return self.expr(e);
        }
        self.template(parts).map(Value::String)
    }

    pub fn template(&mut self, parts: &[T]) -> Eval<String> {
        let mut out = String::new();
        self.parts(&mut out, parts, false, false)?;
        Ok(out)
    }

    /// `after`: the marker in front strips what follows it; `before`: the one behind strips what
    /// precedes it.
    fn parts(&mut self, out: &mut String, parts: &[T], after: bool, before: bool) -> Eval<()> {
        let (starts, ends): (Vec<bool>, Vec<bool>) = parts.iter().map(outer_strip).unzip();
        for (i, t) in parts.iter().enumerate() {
            let cut_start = if i == 0 { after } else { ends[i - 1] };
            let cut_end = if i + 1 == parts.len() { before } else { starts[i + 1] };
            match t {
                T::Lit(s) => out.push_str(cut(s, cut_start, cut_end)),
                T::Interp(e, _) => {
                    let v = self.expr(e)?;
                    out.push_str(&text_of(v));
                }
                T::If(f) => {
                    let first_end = f.els.as_ref().map_or(f.end.strip.0, |(m, _)| m.strip.0);
                    if self.bool(&f.cond)? {
                        self.parts(out, &f.body, f.strip.1, first_end)?;
                    } else if let Some((m, els)) = &f.els {
                        self.parts(out, els, m.strip.1, f.end.strip.0)?;
                    }
                }
                T::For(f) => {
                    self.each(&f.coll, &f.key_var, &f.val_var, |r| {
                        r.parts(out, &f.body, f.strip.1, f.end.strip.0)
                    })?;
                }
            }
        }
        Ok(())
    }
}

/// Whether an element strips what is in front of it and what is behind it.
fn outer_strip(t: &T) -> (bool, bool) {
    match t {
        T::Lit(_) => (false, false),
        T::Interp(_, s) => *s,
        T::If(f) => (f.strip.0, f.end.strip.1),
        T::For(f) => (f.strip.0, f.end.strip.1),
    }
}

/// Spaces up to and including the first line break are stripped.
fn cut(s: &str, start: bool, end: bool) -> &str {
    let space = |c: char| c.is_whitespace() && c != '\n' && c != '\r';
    let mut s = s;
    if start {
        s = s.trim_start_matches(space);
        s = s.strip_prefix("\r\n").or(s.strip_prefix('\n')).unwrap_or(s);
    }
    if end {
        s = s.trim_end_matches(space);
        s = s.strip_suffix("\r\n").or(s.strip_suffix('\n')).unwrap_or(s);
    }
    s
}

/// All attributes of a body in order.
pub fn attributes(b: &B) -> Vec<&E> {
    let mut out = Vec::new();
    for s in &b.items {
        match s {
            S::Attr { e, .. } => out.push(e),
            S::Block { body, .. } => out.extend(attributes(body)),
        }
    }
    out
}
