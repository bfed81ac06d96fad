//! Functions with any signature, called with arguments that mostly fit it.

use crate::canon;
use crate::choice::Src;
use crate::cx::{inject_panic, is_injected, violation, Check, Cx};
use crate::ev;
use hcl::eval::{Context, ErrorKind, Evaluate, FuncArgs, FuncDef, ParamType};
use hcl::expr::{Expression, FuncCall, Variable};
use hcl::{Map, Value};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

enum Sig {
    Any,
    Bool,
    Num,
    Str,
    Arr(Box<Sig>),
    Obj(Box<Sig>),
    One(Vec<Sig>),
    Null(Box<Sig>),
}

impl Sig {
    fn gen(src: &mut Src, d: usize) -> Sig {
        let mut inner = |src: &mut Src| Box::new(Sig::gen(src, d - 1));
        match src.below(if d == 0 { 4 } else { 9 }) {
            0 => Sig::Num,
            1 => Sig::Str,
            2 => Sig::Bool,
            3 => Sig::Any,
            4 => Sig::Arr(inner(src)),
            5 => Sig::Obj(inner(src)),
            6 => Sig::Null(inner(src)),
            _ => {
                let n = src.range(1, 4);
                Sig::One((0..n).map(|_| Sig::gen(src, d - 1)).collect())
            }
        }
    }

    fn param(&self, src: &mut Src) -> ParamType {
        match self {
            Sig::Any => ParamType::Any,
            Sig::Bool => ParamType::Bool,
            Sig::Num => ParamType::Number,
            Sig::Str => ParamType::String,
            Sig::Arr(s) => {
                let s = s.param(src);
                if src.below(2) == 0 {
                    ParamType::array_of(s)
                } else {
                    ParamType::Array(Box::new(s))
                }
            }
            Sig::Obj(s) => ParamType::object_of(s.param(src)),
            Sig::Null(s) => ParamType::nullable(s.param(src)),
            Sig::One(list) => ParamType::one_of(list.iter().map(|s| s.param(src)).collect::<Vec<_>>()),
        }
    }

    fn takes(&self, v: &Value) -> bool {
        match self {
            Sig::Any => true,
            Sig::Bool => matches!(v, Value::Bool(_)),
            Sig::Num => matches!(v, Value::Number(_)),
            Sig::Str => matches!(v, Value::String(_)),
            Sig::Arr(s) => match v {
                Value::Array(a) => a.iter().all(|v| s.takes(v)),
                _ => false,
            },
            Sig::Obj(s) => match v {
                Value::Object(o) => o.iter().all(|(_, v)| s.takes(v)),
                _ => false,
            },
            Sig::Null(s) => matches!(v, Value::Null) || s.takes(v),
            Sig::One(list) => list.iter().any(|s| s.takes(v)),
        }
    }

    /// A value, mostly one that fits.
    fn value(&self, src: &mut Src, wrong: usize) -> Value {
        if src.chance(1, wrong) {
            return any(src, 2);
        }
        match self {
            Sig::Any => any(src, 2),
            Sig::Bool => Value::Bool(src.below(2) == 1),
            Sig::Num => any_number(src),
            Sig::Str => Value::from(*src.pick(&["", "a", "true", "1", "null"])),
            Sig::Arr(s) => {
                let n = size(src);
                Value::Array((0..n).map(|_| s.value(src, wrong + n)).collect())
            }
            Sig::Obj(s) => {
                let n = size(src);
                let mut map = Map::new();
                for i in 0..n {
                    map.insert(format!("k{i}"), s.value(src, wrong + n));
                }
                Value::Object(map)
            }
            Sig::Null(s) => {
                if src.below(3) == 0 {
                    Value::Null
                } else {
                    s.value(src, wrong)
                }
            }
            Sig::One(list) => {
                let i = src.below(list.len());
                list[i].value(src, wrong)
            }
        }
    }
}

fn size(src: &mut Src) -> usize {
    match src.below(12) {
        0 => *src.pick(&[9, 17, 33]),
        n => n % 4,
    }
}

fn any_number(src: &mut Src) -> Value {
    match src.below(4) {
        0 => Value::from(-(src.below(9) as i64)),
        1 => Value::from(0.5),
        2 => Value::from(u64::MAX),
        _ => Value::from(src.below(9) as u64),
    }
}

fn any(src: &mut Src, d: usize) -> Value {
    match src.below(if d == 0 { 4 } else { 6 }) {
        0 => Value::Null,
        1 => Value::Bool(true),
        2 => any_number(src),
        3 => Value::from("s"),
        4 => Value::Array((0..src.below(3)).map(|_| any(src, d - 1)).collect()),
        _ => {
            let mut map = Map::new();
            for i in 0..src.below(3) {
                map.insert(format!("k{i}"), any(src, d - 1));
            }
            Value::Object(map)
        }
    }
}

/// What one invocation saw.
#[derive(Debug, PartialEq, Clone)]
struct Seen {
    all: Vec<Value>,
    pos: Vec<Value>,
    var: Vec<Value>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Act {
    Return,
    Fail,
    Panic,
}

#[derive(Default)]
struct Script {
    seen: Vec<Seen>,
    acts: Vec<Act>,
}

thread_local! {
    static SCRIPT: RefCell<Script> = RefCell::default();
}

fn probe(args: FuncArgs) -> Result<Value, String> {
    let seen = Seen {
        all: args.to_vec(),
        pos: args.positional_args().cloned().collect(),
        var: args.variadic_args().cloned().collect(),
    };
    let (i, act) = SCRIPT.with(|s| {
        let mut s = s.borrow_mut();
        let i = s.seen.len();
        s.seen.push(seen);
        (i, s.acts.get(i).copied().unwrap_or(Act::Return))
    });
    match act {
        Act::Return => {
            let mut values = args.into_values();
            values.push(Value::from(i as u64));
            Ok(Value::Array(values))
        }
        Act::Fail => Err(format!("boom {i}")),
        Act::Panic => inject_panic(),
    }
}

/// What has to come out of a call.
#[derive(Debug)]
enum Want {
    Value(Value),
    /// The arguments are not accepted, and these figures tell why.
    Rejected(Vec<usize>),
    Failed(String),
    Panicked,
}

pub fn run(cx: &mut Cx) -> Check {
    let src = &mut cx.src;
    let params: Vec<Sig> = (0..src.below(4)).map(|_| Sig::gen(src, 3)).collect();
    let variadic = (src.below(2) == 1).then(|| Sig::gen(src, 2));
    let mut builder = FuncDef::builder();
    if src.below(2) == 0 {
        let list: Vec<ParamType> = params.iter().map(|p| p.param(src)).collect();
        builder = builder.params(list);
    } else {
        for p in &params {
            builder = builder.param(p.param(src));
        }
    }
    if let Some(v) = &variadic {
        builder = builder.variadic_param(v.param(src));
    }
    let mut ctx = Context::new();
    ctx.declare_func("probe", builder.build(probe));

    let mut list = Vec::new();
    let mut args: Vec<Vec<Value>> = Vec::new();
    let mut acts = Vec::new();
    for c in 0..src.range(1, 3) {
        let wrong = *src.pick(&[6, 40]);
        let mut given: Vec<Value> = params.iter().map(|p| p.value(src, wrong)).collect();
        if let Some(v) = &variadic {
            let n = match src.below(10) {
                0 => *src.pick(&[8, 16, 33, 70]),
                n => n % 4,
            };
            given.extend((0..n).map(|_| v.value(src, wrong + n)));
        }
        match src.below(16) {
            0 => {
                given.pop();
            }
            1 => given.push(any(src, 1)),
            _ => {}
        }
        let mut call = FuncCall::builder("probe");
        let expand = if src.below(3) == 0 { src.below(given.len() + 1) } else { given.len() };
        for (i, v) in given[..expand].iter().enumerate() {
            if src.below(2) == 0 {
                call = call.arg(Expression::from(v.clone()));
            } else {
                let name = format!("v{c}_{i}");
                ctx.declare_var(name.as_str(), v.clone());
                call = call.arg(Variable::new(name.as_str()).unwrap());
            }
        }
        if expand < given.len() {
            let rest = Value::Array(given[expand..].to_vec());
            let e = if src.below(2) == 0 {
                Expression::from(rest)
            } else {
                let name = format!("r{c}");
                ctx.declare_var(name.as_str(), rest);
                Variable::new(name.as_str()).unwrap().into()
            };
            call = call.arg(e).expand_final(true);
        }
        list.push(call.build());
        args.push(given);
        acts.push(match src.below(12) {
            0 => Act::Fail,
            1 => Act::Panic,
            _ => Act::Return,
        });
    }
    let text = hcl::format::to_string(&Expression::Array(list.iter().cloned().map(Expression::from).collect()))
        .unwrap_or_default();
    cx.nontrivial = true;
    ev!(cx, "signature {} {:?} {acts:?} {text}", params.len(), variadic.is_some());

    // The history that is required.
    let mut seen = Vec::new();
    let mut values = Vec::new();
    let mut want = None;
    let mut used = Vec::new();
    for (given, act) in args.iter().zip(&acts) {
        let n = params.len();
        let bad = if given.len() < n || variadic.is_none() && given.len() > n {
            Some(vec![n, given.len()])
        } else {
            given
                .iter()
                .enumerate()
                .find(|(i, v)| !params.get(*i).or(variadic.as_ref()).is_some_and(|p| p.takes(v)))
                .map(|(i, _)| vec![i])
        };
        if let Some(figures) = bad {
            want = Some(Want::Rejected(figures));
            break;
        }
        let i = seen.len();
        used.push(*act);
        seen.push(Seen {
            all: given.clone(),
            pos: given[..n].to_vec(),
            var: given[n..].to_vec(),
        });
        match act {
            Act::Return => {
                let mut v = given.clone();
                v.push(Value::from(i as u64));
                values.push(Value::Array(v));
            }
            Act::Fail => {
                want = Some(Want::Failed(format!("boom {i}")));
                break;
            }
            Act::Panic => {
                want = Some(Want::Panicked);
                break;
            }
        }
    }
    let want = want.unwrap_or(Want::Value(Value::Array(values)));
    SCRIPT.with(|s| {
        *s.borrow_mut() = Script {
            seen: vec![],
            acts: used,
        }
    });
    let way = cx.src.below(3);
    let expr = Expression::Array(list.iter().cloned().map(Expression::from).collect());
    let real = catch_unwind(AssertUnwindSafe(|| match way {
        0 => expr.evaluate(&ctx),
        1 => {
            let list: Result<Vec<Value>, _> = list.iter().map(|c| c.evaluate(&ctx)).collect();
            list.map(Value::Array)
        }
        _ => {
            let mut e = expr.clone();
            match e.evaluate_in_place(&ctx) {
                Ok(()) => e.evaluate(&Context::new()),
                // What is reported first. Others may have been called behind it.
                Err(errs) => Err(errs.into_iter().next().unwrap()),
            }
        }
    }));
    let has = SCRIPT.with(|s| std::mem::take(&mut s.borrow_mut().seen));
    let what = match &real {
        Ok(Ok(v)) => canon::value(v),
        Ok(Err(e)) => e.to_string(),
        Err(_) => "a panic".into(),
    };
    ev!(cx, "way {way}: {} calls, {what}", has.len());
    let ctxt = |msg: &str| format!("{msg}\n{text}\narguments: {args:?}\nresult: {what}");
    // In place, calls behind a failing one are made as well.
    let (n, same) = (seen.len(), has.len() >= seen.len() && (way == 2 || has.len() == seen.len()));
    if !same || has[..n] != seen[..] {
        return violation("calls", ctxt(&format!("the function sees {has:?} instead of {seen:?}")));
    }
    let fine = match (&want, &real) {
        (Want::Value(v), Ok(Ok(w))) => v == w,
        (Want::Rejected(figures), Ok(Err(e))) => {
            cx.fault("static_error");
            matches!(e.kind(), ErrorKind::FuncCall(f, msg)
                if f.to_string() == "probe" && figures.iter().all(|n| msg.contains(&n.to_string())))
        }
        (Want::Failed(m), Ok(Err(e))) => {
            cx.fault("evaluation_failed");
            matches!(e.kind(), ErrorKind::FuncCall(f, msg) if f.to_string() == "probe" && msg == m)
        }
        (Want::Panicked, Err(p)) => {
            cx.fault("function_panic");
            is_injected(&**p)
        }
        // Panics of calls behind.
        (Want::Rejected(_) | Want::Failed(_), Err(p)) => way == 2 && is_injected(&**p),
        _ => false,
    };
    if !fine {
        return violation("result", ctxt(&format!("instead of {want:?}")));
    }
    Ok(())
}
