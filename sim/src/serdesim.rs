//! Simulated user data: values of every serde shape with serialization and deserialization code
//! that fails, panics or calls back at chosen points, and what they must be written as.

use crate::choice::Src;
use crate::cx::inject_panic;
use hcl::expr::ObjectKey;
use hcl::{Attribute, Block, BlockLabel, Body, Expression, Identifier, Structure};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple};
use serde::ser::{SerializeTupleStruct, SerializeTupleVariant, Serializer};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fmt;

// ---------------------------------------------------------------------------------------------
// Points where user code runs

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Fail,
    Panic,
    /// Runs the hook.
    Nest,
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub at: Vec<(usize, Kind)>,
}

#[derive(Default)]
struct Ticks {
    n: usize,
    plan: Plan,
    fired: Option<Kind>,
    depth: usize,
}

type Hook = Box<dyn FnMut(usize)>;

thread_local! {
    static TICKS: RefCell<Ticks> = RefCell::new(Ticks::default());
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
    static SHAPE: RefCell<Vec<Dt>> = const { RefCell::new(Vec::new()) };
}

/// What happened while user code ran.
#[derive(Clone, Debug)]
pub struct Ran {
    pub ticks: usize,
    pub fired: Option<Kind>,
}

pub fn with_hook<R>(hook: Hook, f: impl FnOnce() -> R) -> R {
    let old = HOOK.with(|h| h.borrow_mut().replace(hook));
    struct Restore(Option<Option<Hook>>);
    impl Drop for Restore {
        fn drop(&mut self) {
            HOOK.with(|h| *h.borrow_mut() = self.0.take().unwrap());
        }
    }
    let _restore = Restore(Some(old));
    f()
}

/// Runs `f`, whose user code behaves as planned.
pub fn scripted<R>(plan: &Plan, f: impl FnOnce() -> R) -> (std::thread::Result<R>, Ran) {
    let old = TICKS.with(|t| {
        let depth = t.borrow().depth + 1;
        t.replace(Ticks {
            plan: plan.clone(),
            depth,
            ..Ticks::default()
        })
    });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let t = TICKS.with(|t| t.replace(old));
    (
        r,
        Ran {
            ticks: t.n,
            fired: t.fired,
        },
    )
}

/// A point in user code.
fn tick() -> Result<(), &'static str> {
    let (k, n) = TICKS.with(|t| {
        let mut t = t.borrow_mut();
        let n = t.n;
        t.n += 1;
        let k = t.plan.at.iter().find(|(i, _)| *i == n).map(|(_, k)| *k);
        if matches!(k, Some(Kind::Fail | Kind::Panic)) {
            t.fired = k;
        }
        (k, n)
    });
    crate::sched::point("serde");
    match k {
        None => Ok(()),
        Some(Kind::Fail) => Err("boom"),
        Some(Kind::Panic) => inject_panic(),
        Some(Kind::Nest) => {
            let hook = HOOK.with(|h| h.borrow_mut().take());
            if let Some(mut hook) = hook {
                hook(n);
                HOOK.with(|h| *h.borrow_mut() = Some(hook));
            }
            Ok(())
        }
    }
}

pub fn ser_tick<E: ser::Error>() -> Result<(), E> {
    tick().map_err(E::custom)
}

pub fn de_tick<E: de::Error>() -> Result<(), E> {
    tick().map_err(E::custom)
}

// ---------------------------------------------------------------------------------------------
// Data

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Key {
    Str(String),
    Char(char),
    U8(u8),
    I64(i64),
    U64(u64),
    Var(usize),
    New(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Dt {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Display(String),
    Bytes(Vec<u8>),
    Unit,
    UnitStruct,
    None,
    Some(Box<Dt>),
    Newtype(Box<Dt>),
    Seq(Vec<Dt>),
    Tuple(Vec<Dt>),
    TupleStruct(Vec<Dt>),
    Map(Vec<(Key, Dt)>),
    Struct(Vec<(usize, Dt)>),
    UnitVar(usize),
    NewtypeVar(usize, Box<Dt>),
    TupleVar(usize, Vec<Dt>),
    StructVar(usize, Vec<(usize, Dt)>),
    /// An embedded expression.
    Expr(usize),
    /// An embedded value.
    Val(Box<Dt>),
    /// An embedded structure or body.
    Node(usize),
    /// A wrapper that asks for a block, or a function of the crate that does.
    Block(Box<Dt>, bool),
    Labeled(Box<Dt>, bool),
}

pub const FIELDS: &[&str] = &["a", "b", "c", "d", "e1", "f_g", "h-i", "type", "x y", "1a"];
const GOOD_FIELDS: usize = 8;
pub const VARIANTS: &[&str] = &["A", "B", "Var", "d-e", "g h"];
const GOOD_VARIANTS: usize = 4;

/// An embedded expression and the string it deserializes to.
pub const EXPRS: &[(&str, &str)] = &[
    ("x", "${x}"),
    ("x.y[0]", "${x.y[0]}"),
    ("f(1, a...)", "${f(1, a...)}"),
    ("1 + y", "${1 + y}"),
    ("\"a${x}\"", "${\"a${x}\"}"),
    ("x ? 1 : \"b\"", "${x ? 1 : \"b\"}"),
    ("[for v in l : v]", "${[for v in l : v]}"),
    ("(x)", "${x}"),
    ("!x", "${!x}"),
    ("{ a = x, \"b c\" = 1 }", ""),
    ("{ a = { b = [x] } }", ""),
];

pub fn expr(k: usize) -> Expression {
    EXPRS[k].0.parse().expect("an expression of the table")
}

pub fn node(k: usize) -> Vec<Structure> {
    match k {
        0 => vec![Attribute::new("k", expr(3)).into()],
        1 => vec![Block::builder("blk").add_label("l").add_attribute(("a", 1)).build().into()],
        _ => vec![
            Attribute::new("k", 1).into(),
            Block::builder("blk").add_attribute(("a", expr(0))).build().into(),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// Serialization

pub struct Ser<'a>(pub &'a Dt);

#[derive(PartialEq, Eq)]
struct SerKey<'a>(&'a Key);

impl Serialize for SerKey<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        ser_tick()?;
        match self.0 {
            Key::Str(k) => s.serialize_str(k),
            Key::Char(c) => s.serialize_char(*c),
            Key::U8(n) => s.serialize_u8(*n),
            Key::I64(n) => s.serialize_i64(*n),
            Key::U64(n) => s.serialize_u64(*n),
            Key::Var(v) => s.serialize_unit_variant("E", *v as u32, VARIANTS[*v]),
            Key::New(k) => s.serialize_newtype_struct("N", &SerStr(k)),
        }
    }
}

struct SerStr<'a>(&'a str);

impl Serialize for SerStr<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        ser_tick()?;
        s.serialize_str(self.0)
    }
}

struct Disp<'a>(&'a str);

impl fmt::Display for Disp<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for c in self.0.chars() {
            fmt::Write::write_char(f, c)?;
        }
        Ok(())
    }
}

impl Serialize for Ser<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        ser_tick()?;
        match self.0 {
            Dt::Bool(b) => s.serialize_bool(*b),
            Dt::I8(n) => s.serialize_i8(*n),
            Dt::I16(n) => s.serialize_i16(*n),
            Dt::I32(n) => s.serialize_i32(*n),
            Dt::I64(n) => s.serialize_i64(*n),
            Dt::U8(n) => s.serialize_u8(*n),
            Dt::U16(n) => s.serialize_u16(*n),
            Dt::U32(n) => s.serialize_u32(*n),
            Dt::U64(n) => s.serialize_u64(*n),
            Dt::F32(n) => s.serialize_f32(*n),
            Dt::F64(n) => s.serialize_f64(*n),
            Dt::Char(c) => s.serialize_char(*c),
            Dt::Str(x) => s.serialize_str(x),
            Dt::Display(x) => s.collect_str(&Disp(x)),
            Dt::Bytes(b) => s.serialize_bytes(b),
            Dt::Unit => s.serialize_unit(),
            Dt::UnitStruct => s.serialize_unit_struct("U"),
            Dt::None => s.serialize_none(),
            Dt::Some(x) => s.serialize_some(&Ser(x)),
            Dt::Newtype(x) => s.serialize_newtype_struct("N", &Ser(x)),
            Dt::Seq(xs) => {
                // Half of the sequences do not know their length.
                let len = (xs.len() % 2 == 0).then_some(xs.len());
                let mut q = s.serialize_seq(len)?;
                for x in xs {
                    q.serialize_element(&Ser(x))?;
                }
                ser_tick()?;
                q.end()
            }
            Dt::Tuple(xs) => {
                let mut q = s.serialize_tuple(xs.len())?;
                for x in xs {
                    q.serialize_element(&Ser(x))?;
                }
                ser_tick()?;
                q.end()
            }
            Dt::TupleStruct(xs) => {
                let mut q = s.serialize_tuple_struct("T", xs.len())?;
                for x in xs {
                    q.serialize_field(&Ser(x))?;
                }
                ser_tick()?;
                q.end()
            }
            Dt::Map(es) => {
                let mut q = s.serialize_map((es.len() % 2 == 0).then_some(es.len()))?;
                for (i, (k, x)) in es.iter().enumerate() {
                    if i % 2 == 0 {
                        q.serialize_entry(&SerKey(k), &Ser(x))?;
                    } else {
                        q.serialize_key(&SerKey(k))?;
                        ser_tick()?;
                        q.serialize_value(&Ser(x))?;
                    }
                }
                ser_tick()?;
                q.end()
            }
            Dt::Struct(fs) => {
                let mut q = s.serialize_struct("S", fs.len())?;
                for (f, x) in fs {
                    q.serialize_field(FIELDS[*f], &Ser(x))?;
                }
                ser_tick()?;
                q.end()
            }
            Dt::UnitVar(v) => s.serialize_unit_variant("E", *v as u32, VARIANTS[*v]),
            Dt::NewtypeVar(v, x) => s.serialize_newtype_variant("E", *v as u32, VARIANTS[*v], &Ser(x)),
            Dt::TupleVar(v, xs) => {
                let mut q = s.serialize_tuple_variant("E", *v as u32, VARIANTS[*v], xs.len())?;
                for x in xs {
                    q.serialize_field(&Ser(x))?;
                }
                ser_tick()?;
                q.end()
            }
            Dt::StructVar(v, fs) => {
                let mut q = s.serialize_struct_variant("E", *v as u32, VARIANTS[*v], fs.len())?;
                for (f, x) in fs {
                    q.serialize_field(FIELDS[*f], &Ser(x))?;
                }
                ser_tick()?;
                q.end()
            }
            Dt::Expr(k) => {
                let e = expr(*k);
                if k % 2 == 0 {
                    return e.serialize(s);
                }
                match e {
                    Expression::Traversal(t) => t.serialize(s),
                    Expression::Operation(o) => o.serialize(s),
                    Expression::Conditional(c) => c.serialize(s),
                    e => e.serialize(s),
                }
            }
            Dt::Val(x) => value(x).expect("a value").serialize(s),
            Dt::Node(k) => match node(*k).as_slice() {
                [Structure::Attribute(a)] => a.serialize(s),
                [x] => x.serialize(s),
                xs => Body::from(xs.to_vec()).serialize(s),
            },
            Dt::Block(x, false) => hcl::ser::Block::new(Ser(x)).serialize(s),
            Dt::Block(x, true) => hcl::ser::block(&Ser(x), s),
            Dt::Labeled(x, false) => hcl::ser::LabeledBlock::new(Ser(x)).serialize(s),
            Dt::Labeled(x, true) => match doubly(x) {
                Some(es) => hcl::ser::doubly_labeled_block(es, s),
                None => hcl::ser::labeled_block(&Ser(x), s),
            },
        }
    }
}

/// The entries of a map whose values are all labeled.
fn doubly(d: &Dt) -> Option<Vec<(SerKey<'_>, Ser<'_>)>> {
    match d {
        Dt::Map(es) if !es.is_empty() => es
            .iter()
            .map(|(k, x)| match x {
                Dt::Labeled(x, _) => Some((SerKey(k), Ser(x))),
                _ => None,
            })
            .collect(),
        _ => None,
    }
}

// ---------------------------------------------------------------------------------------------
// What data is written as

type Or<T> = Result<T, String>;

fn no<T>(what: &str) -> Or<T> {
    Err(what.to_string())
}

fn ident(s: &str) -> Or<Identifier> {
    let mut cs = s.chars();
    let ok = cs.next().is_some_and(|c| c.is_alphabetic() || c == '_') && cs.all(|c| c.is_alphanumeric() || c == '_' || c == '-');
    if ok {
        Ok(Identifier::unchecked(s))
    } else {
        no("identifier")
    }
}

fn key_text(k: &Key) -> Or<String> {
    match k {
        Key::Str(s) | Key::New(s) => Ok(s.clone()),
        Key::Char(c) => Ok(c.to_string()),
        Key::Var(v) => Ok(VARIANTS[*v].to_string()),
        Key::U8(_) | Key::I64(_) | Key::U64(_) => no("number as key"),
    }
}

fn float(f: f64) -> hcl::Value {
    hcl::Number::from_f64(f).map_or(hcl::Value::Null, hcl::Value::Number)
}

/// As a value.
pub fn value(d: &Dt) -> Or<hcl::Value> {
    use hcl::Value as V;
    let list = |xs: &[Dt]| xs.iter().map(value).collect::<Or<Vec<V>>>().map(V::Array);
    let fields = |fs: &[(usize, Dt)]| -> Or<V> {
        let mut m = hcl::Map::new();
        for (f, x) in fs {
            m.insert(FIELDS[*f].to_string(), value(x)?);
        }
        Ok(V::Object(m))
    };
    let one = |v: &usize, x: V| {
        let mut m = hcl::Map::new();
        m.insert(VARIANTS[*v].to_string(), x);
        V::Object(m)
    };
    Ok(match d {
        Dt::Bool(b) => V::Bool(*b),
        Dt::I8(n) => V::from(i64::from(*n)),
        Dt::I16(n) => V::from(i64::from(*n)),
        Dt::I32(n) => V::from(i64::from(*n)),
        Dt::I64(n) => V::from(*n),
        Dt::U8(n) => V::from(u64::from(*n)),
        Dt::U16(n) => V::from(u64::from(*n)),
        Dt::U32(n) => V::from(u64::from(*n)),
        Dt::U64(n) => V::from(*n),
        Dt::F32(f) => float(f64::from(*f)),
        Dt::F64(f) => float(*f),
        Dt::Char(c) => V::String(c.to_string()),
        Dt::Str(s) | Dt::Display(s) => V::String(s.clone()),
        Dt::Bytes(b) => V::Array(b.iter().map(|b| V::from(u64::from(*b))).collect()),
        Dt::Unit | Dt::UnitStruct | Dt::None => V::Null,
        Dt::Some(x) | Dt::Newtype(x) | Dt::Val(x) | Dt::Block(x, _) | Dt::Labeled(x, _) => value(x)?,
        Dt::Seq(xs) | Dt::Tuple(xs) | Dt::TupleStruct(xs) => list(xs)?,
        Dt::Map(es) => {
            let mut m = hcl::Map::new();
            for (k, x) in es {
                m.insert(key_text(k)?, value(x)?);
            }
            V::Object(m)
        }
        Dt::Struct(fs) => fields(fs)?,
        Dt::UnitVar(v) => V::String(VARIANTS[*v].to_string()),
        Dt::NewtypeVar(v, x) => one(v, value(x)?),
        Dt::TupleVar(v, xs) => one(v, list(xs)?),
        Dt::StructVar(v, fs) => one(v, fields(fs)?),
        Dt::Expr(k) => match EXPRS[*k].1 {
            "" => value_of(&expr(*k)),
            s => V::String(s.to_string()),
        },
        Dt::Node(_) => value_of(&expression(d)?),
    })
}

fn of_value(v: hcl::Value) -> Expression {
    use hcl::Value as V;
    match v {
        V::Null => Expression::Null,
        V::Bool(b) => Expression::Bool(b),
        V::Number(n) => Expression::Number(n),
        V::String(s) => Expression::String(s),
        V::Array(a) => Expression::Array(a.into_iter().map(of_value).collect()),
        V::Object(m) => Expression::Object(m.into_iter().map(|(k, x)| (str_key(&k), of_value(x))).collect()),
    }
}

/// The data a value consists of.
fn of_plain(v: hcl::Value) -> Dt {
    match v {
        hcl::Value::Array(a) => Dt::Seq(a.into_iter().map(of_plain).collect()),
        hcl::Value::Object(m) => Dt::Map(m.into_iter().map(|(k, x)| (Key::Str(k), of_plain(x))).collect()),
        hcl::Value::Null => Dt::Unit,
        v => Dt::Val(Box::new(match v {
            hcl::Value::Bool(b) => Dt::Bool(b),
            hcl::Value::String(s) => Dt::Str(s),
            hcl::Value::Number(n) => match (n.as_u64(), n.as_i64()) {
                (Some(n), _) => Dt::U64(n),
                (_, Some(n)) => Dt::I64(n),
                _ => Dt::F64(n.as_f64().unwrap_or(f64::NAN)),
            },
            _ => unreachable!(),
        })),
    }
}

/// An expression of the tables above or of a node as a value.
fn value_of(e: &Expression) -> hcl::Value {
    use hcl::Value as V;
    match e {
        Expression::Number(n) => V::Number(n.clone()),
        Expression::String(s) => V::String(s.clone()),
        Expression::Array(a) => V::Array(a.iter().map(value_of).collect()),
        Expression::Object(o) => V::Object(
            o.iter()
                .map(|(k, x)| {
                    let k = match k {
                        ObjectKey::Expression(Expression::String(s)) => s.clone(),
                        k => k.to_string(),
                    };
                    (k, value_of(x))
                })
                .collect(),
        ),
        e => V::String((0..EXPRS.len()).find(|k| expr(*k) == *e).map_or(String::new(), |k| EXPRS[k].1.to_string())),
    }
}

fn str_key(s: &str) -> ObjectKey {
    ObjectKey::Expression(Expression::String(s.to_string()))
}

/// The fields of a structure, written where an expression belongs.
fn of_node(s: &Structure) -> Expression {
    let string = |s: &str| Expression::String(s.to_string());
    let mut o: hcl::expr::Object<ObjectKey, Expression> = hcl::expr::Object::new();
    match s {
        Structure::Attribute(a) => {
            o.insert(str_key("key"), string(&a.key));
            o.insert(str_key("expr"), a.expr.clone());
        }
        Structure::Block(b) => {
            o.insert(str_key("identifier"), string(&b.identifier));
            let labels = b.labels.iter().map(|l| {
                let (name, text) = match l {
                    BlockLabel::String(s) => ("String", s.as_str()),
                    BlockLabel::Identifier(i) => ("Identifier", i.as_str()),
                };
                let mut o = hcl::expr::Object::new();
                o.insert(ObjectKey::Identifier(Identifier::unchecked(name)), string(text));
                Expression::Object(o)
            });
            o.insert(str_key("labels"), Expression::Array(labels.collect()));
            o.insert(str_key("body"), Expression::Array(b.body.iter().map(of_node).collect()));
        }
    }
    Expression::Object(o)
}

/// As an expression.
pub fn expression(d: &Dt) -> Or<Expression> {
    use Expression as X;
    let list = |xs: &[Dt]| xs.iter().map(expression).collect::<Or<Vec<X>>>().map(X::Array);
    let fields = |fs: &[(usize, Dt)]| -> Or<X> {
        let mut o = hcl::expr::Object::new();
        for (f, x) in fs {
            o.insert(str_key(FIELDS[*f]), expression(x)?);
        }
        Ok(X::Object(o))
    };
    let one = |k: ObjectKey, x: X| {
        let mut o = hcl::expr::Object::new();
        o.insert(k, x);
        X::Object(o)
    };
    Ok(match d {
        Dt::Some(x) | Dt::Newtype(x) | Dt::Block(x, _) | Dt::Labeled(x, _) => expression(x)?,
        Dt::Seq(xs) | Dt::Tuple(xs) | Dt::TupleStruct(xs) => list(xs)?,
        Dt::Map(es) => {
            let mut o = hcl::expr::Object::new();
            for (k, x) in es {
                let k = match k {
                    Key::Str(s) | Key::New(s) => str_key(s),
                    Key::Char(c) => str_key(&c.to_string()),
                    Key::U8(n) => ObjectKey::Expression(X::Number((*n).into())),
                    Key::I64(n) => ObjectKey::Expression(X::Number((*n).into())),
                    Key::U64(n) => ObjectKey::Expression(X::Number((*n).into())),
                    Key::Var(v) => ObjectKey::Identifier(ident(VARIANTS[*v])?),
                };
                o.insert(k, expression(x)?);
            }
            X::Object(o)
        }
        Dt::Struct(fs) => fields(fs)?,
        Dt::NewtypeVar(v, x) => one(ObjectKey::Identifier(ident(VARIANTS[*v])?), expression(x)?),
        Dt::TupleVar(v, xs) => one(str_key(VARIANTS[*v]), list(xs)?),
        Dt::StructVar(v, fs) => one(str_key(VARIANTS[*v]), fields(fs)?),
        Dt::Expr(k) => expr(*k),
        Dt::Node(k @ (0 | 1)) => of_node(&node(*k)[0]),
        Dt::Node(k) => X::Array(node(*k).iter().map(of_node).collect()),
        plain => of_value(value(plain)?),
    })
}

fn object_attrs(e: Expression) -> Or<Vec<(String, Expression)>> {
    match e {
        Expression::Object(o) => o
            .into_iter()
            .map(|(k, x)| match k {
                ObjectKey::Identifier(i) => Ok((i.to_string(), x)),
                ObjectKey::Expression(Expression::String(s)) => Ok((s, x)),
                _ => no("key"),
            })
            .collect(),
        _ => no("not an object"),
    }
}

fn attrs(e: Expression) -> Or<Vec<Structure>> {
    object_attrs(e)?
        .into_iter()
        .map(|(k, x)| Ok(Attribute::new(ident(&k)?, x).into()))
        .collect()
}

/// As a body.
pub fn body(d: &Dt) -> Or<Vec<Structure>> {
    match d {
        Dt::Some(x) | Dt::Newtype(x) | Dt::Block(x, _) | Dt::Labeled(x, _) => body(x),
        Dt::Seq(xs) | Dt::Tuple(xs) | Dt::TupleStruct(xs) => {
            let mut out = vec![];
            for x in xs {
                out.extend(body(x)?);
            }
            Ok(out)
        }
        Dt::Map(_) | Dt::Struct(_) => {
            let mut out = vec![];
            for (k, x) in entries(d)? {
                out.extend(structure(&ident(&k)?, x)?);
            }
            Ok(out)
        }
        Dt::NewtypeVar(v, x) => structure(&ident(VARIANTS[*v])?, x),
        Dt::TupleVar(v, xs) => {
            let k = ident(VARIANTS[*v])?;
            let xs = xs.iter().map(expression).collect::<Or<Vec<_>>>()?;
            Ok(vec![Attribute::new(k, Expression::Array(xs)).into()])
        }
        Dt::StructVar(v, fs) => {
            let k = ident(VARIANTS[*v])?;
            let mut b = vec![];
            for (f, x) in fs {
                b.extend(structure(&ident(FIELDS[*f])?, x)?);
            }
            Ok(vec![block(&k, b)])
        }
        Dt::Expr(k) => attrs(expr(*k)),
        Dt::Val(x) => match of_plain(value(x)?) {
            Dt::Val(_) => no("not a map"),
            x => body(&x),
        },
        Dt::Node(k) => Ok(node(*k)),
        _ => no("not a map"),
    }
}

fn block(k: &Identifier, body: Vec<Structure>) -> Structure {
    Block::builder(k.clone()).add_structures(body).build().into()
}

fn entries(d: &Dt) -> Or<Vec<(String, &Dt)>> {
    match d {
        Dt::Map(es) => es.iter().map(|(k, x)| Ok((key_text(k)?, x))).collect(),
        Dt::Struct(fs) | Dt::StructVar(_, fs) => Ok(fs.iter().map(|(f, x)| (FIELDS[*f].to_string(), x)).collect()),
        _ => no("not a map"),
    }
}

/// As the attribute or the blocks of one name.
fn structure(k: &Identifier, d: &Dt) -> Or<Vec<Structure>> {
    match d {
        Dt::Some(x) => structure(k, x),
        Dt::Block(x, _) => blocks(k, x),
        Dt::Labeled(x, _) => labeled(k, x),
        _ => Ok(vec![Attribute::new(k.clone(), expression(d)?).into()]),
    }
}

fn blocks(k: &Identifier, d: &Dt) -> Or<Vec<Structure>> {
    match d {
        Dt::Some(x) | Dt::Newtype(x) | Dt::Block(x, _) => blocks(k, x),
        Dt::Labeled(x, _) => labeled(k, x),
        Dt::Seq(xs) | Dt::Tuple(xs) | Dt::TupleStruct(xs) => {
            let mut out = vec![];
            for x in xs {
                out.extend(blocks(k, x)?);
            }
            Ok(out)
        }
        Dt::Map(_) | Dt::Struct(_) => Ok(vec![block(k, body(d)?)]),
        Dt::NewtypeVar(v, x) => Ok(vec![block(k, structure(&ident(VARIANTS[*v])?, x)?)]),
        Dt::TupleVar(v, xs) => {
            let var = ident(VARIANTS[*v])?;
            let mut b = vec![];
            for x in xs {
                b.extend(blocks(&var, x)?);
            }
            Ok(vec![block(k, b)])
        }
        Dt::StructVar(..) => Ok(vec![block(k, body(d)?)]),
        Dt::Expr(e) => Ok(vec![block(k, attrs(expr(*e))?)]),
        Dt::Val(x) => match of_plain(value(x)?) {
            Dt::Val(_) => no("not a map"),
            x => blocks(k, &x),
        },
        Dt::Node(n) => Ok(vec![block(k, node(*n))]),
        _ => no("not a map"),
    }
}

fn with_label(label: &str, from: Vec<Structure>) -> Vec<Structure> {
    from.into_iter()
        .filter_map(|s| match s {
            Structure::Block(mut b) => {
                b.labels.insert(0, BlockLabel::String(label.to_string()));
                Some(b.into())
            }
            Structure::Attribute(_) => None,
        })
        .collect()
}

fn labeled(k: &Identifier, d: &Dt) -> Or<Vec<Structure>> {
    let mut out = vec![];
    match d {
        Dt::Some(x) | Dt::Newtype(x) | Dt::Block(x, _) | Dt::Labeled(x, _) => return labeled(k, x),
        Dt::Seq(xs) | Dt::Tuple(xs) | Dt::TupleStruct(xs) => {
            for x in xs {
                out.extend(labeled(k, x)?);
            }
        }
        Dt::Map(_) | Dt::Struct(_) => {
            for (l, x) in entries(d)? {
                out.extend(with_label(&l, blocks(k, x)?));
            }
        }
        Dt::NewtypeVar(v, x) => out.extend(with_label(VARIANTS[*v], blocks(k, x)?)),
        Dt::TupleVar(v, xs) => {
            for x in xs {
                out.extend(with_label(VARIANTS[*v], blocks(k, x)?));
            }
        }
        Dt::StructVar(v, fs) => {
            for (f, x) in fs {
                let inner = with_label(FIELDS[*f], blocks(k, x)?);
                out.extend(with_label(VARIANTS[*v], inner));
            }
        }
        Dt::Expr(e) => {
            for (l, x) in object_attrs(expr(*e))? {
                out.extend(with_label(&l, vec![block(k, attrs(x)?)]));
            }
        }
        Dt::Val(x) => match of_plain(value(x)?) {
            Dt::Val(_) => return no("not a map"),
            x => return labeled(k, &x),
        },
        _ => return no("not a map"),
    }
    Ok(out)
}

// ---------------------------------------------------------------------------------------------
// Deserialization

/// What is to be read, as seen by the user's types.
pub struct Out(pub Dt);

pub fn with_shape<R>(shape: &Dt, f: impl FnOnce() -> R) -> R {
    SHAPE.with(|s| s.borrow_mut().push(shape.clone()));
    struct Pop;
    impl Drop for Pop {
        fn drop(&mut self) {
            SHAPE.with(|s| s.borrow_mut().pop());
        }
    }
    let _pop = Pop;
    f()
}

impl<'de> Deserialize<'de> for Out {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let shape = SHAPE.with(|s| s.borrow().last().cloned()).unwrap_or(Dt::Unit);
        De(&shape).deserialize(d).map(Out)
    }
}

struct De<'a>(&'a Dt);

impl<'de> DeserializeSeed<'de> for De<'_> {
    type Value = Dt;

    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Dt, D::Error> {
        de_tick()?;
        Ok(match self.0 {
            Dt::Bool(_) => Dt::Bool(bool::deserialize(d)?),
            Dt::I8(_) => Dt::I8(i8::deserialize(d)?),
            Dt::I16(_) => Dt::I16(i16::deserialize(d)?),
            Dt::I32(_) => Dt::I32(i32::deserialize(d)?),
            Dt::I64(_) => Dt::I64(i64::deserialize(d)?),
            Dt::U8(_) => Dt::U8(u8::deserialize(d)?),
            Dt::U16(_) => Dt::U16(u16::deserialize(d)?),
            Dt::U32(_) => Dt::U32(u32::deserialize(d)?),
            Dt::U64(_) => Dt::U64(u64::deserialize(d)?),
            Dt::F32(_) => Dt::F32(f32::deserialize(d)?),
            Dt::F64(_) => Dt::F64(f64::deserialize(d)?),
            Dt::Char(_) => Dt::Char(char::deserialize(d)?),
            Dt::Str(_) => Dt::Str(String::deserialize(d)?),
            Dt::Display(_) => Dt::Display(String::deserialize(d)?),
            Dt::Unit => {
                <()>::deserialize(d)?;
                Dt::Unit
            }
            Dt::Node(_) => return Err(de::Error::custom("not read")),
            Dt::Expr(k) => {
                let e = Expression::deserialize(d)?;
                if e == expr(*k) {
                    Dt::Expr(*k)
                } else {
                    return Err(de::Error::custom(format!("another expression: {e:?}")));
                }
            }
            Dt::Val(x) => {
                let v = hcl::Value::deserialize(d)?;
                if value(x).is_ok_and(|w| crate::canon::value(&w) == crate::canon::value(&v)) {
                    self.0.clone()
                } else {
                    return Err(de::Error::custom(format!("another value: {v:?}")));
                }
            }
            Dt::Block(x, f) => {
                let x = DeT(x);
                Dt::Block(Box::new(x.deserialize(d)?), *f)
            }
            Dt::Labeled(x, f) => Dt::Labeled(Box::new(De(x).deserialize(d)?), *f),
            Dt::Bytes(_) => d.deserialize_byte_buf(Vis(self.0))?,
            Dt::UnitStruct => d.deserialize_unit_struct("U", Vis(self.0))?,
            Dt::None | Dt::Some(_) => d.deserialize_option(Vis(self.0))?,
            Dt::Newtype(_) => d.deserialize_newtype_struct("N", Vis(self.0))?,
            Dt::Seq(_) => d.deserialize_seq(Vis(self.0))?,
            Dt::Tuple(xs) => d.deserialize_tuple(xs.len(), Vis(self.0))?,
            Dt::TupleStruct(xs) => d.deserialize_tuple_struct("T", xs.len(), Vis(self.0))?,
            Dt::Map(_) => d.deserialize_map(Vis(self.0))?,
            Dt::Struct(_) => d.deserialize_struct("S", FIELDS, Vis(self.0))?,
            Dt::UnitVar(_) | Dt::NewtypeVar(..) | Dt::TupleVar(..) | Dt::StructVar(..) => {
                d.deserialize_enum("E", VARIANTS, Vis(self.0))?
            }
        })
    }
}

/// Reads through the wrapper type of the crate.
struct DeT<'a>(&'a Dt);

impl<'de> DeserializeSeed<'de> for DeT<'_> {
    type Value = Dt;

    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Dt, D::Error> {
        with_shape(self.0, || hcl::ser::Block::<Out>::deserialize(d).map(|b| b.into_inner().0))
    }
}

struct Vis<'a>(&'a Dt);

impl<'de> Visitor<'de> for Vis<'_> {
    type Value = Dt;

    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }

    fn visit_none<E: de::Error>(self) -> Result<Dt, E> {
        de_tick()?;
        match self.0 {
            Dt::None | Dt::Some(_) => Ok(Dt::None),
            _ => Err(E::custom("none")),
        }
    }

    fn visit_unit<E: de::Error>(self) -> Result<Dt, E> {
        de_tick()?;
        match self.0 {
            Dt::UnitStruct => Ok(Dt::UnitStruct),
            Dt::None | Dt::Some(_) => Ok(Dt::None),
            _ => Err(E::custom("unit")),
        }
    }

    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Dt, D::Error> {
        de_tick()?;
        match self.0 {
            Dt::Some(x) => De(x).deserialize(d).map(|x| Dt::Some(Box::new(x))),
            _ => Err(de::Error::custom("some")),
        }
    }

    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Dt, D::Error> {
        de_tick()?;
        match self.0 {
            Dt::Newtype(x) => De(x).deserialize(d).map(|x| Dt::Newtype(Box::new(x))),
            _ => Err(de::Error::custom("newtype struct")),
        }
    }

    fn visit_bytes<E: de::Error>(self, b: &[u8]) -> Result<Dt, E> {
        de_tick()?;
        match self.0 {
            Dt::Bytes(_) => Ok(Dt::Bytes(b.to_vec())),
            _ => Err(E::custom("bytes")),
        }
    }

    fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<Dt, A::Error> {
        de_tick()?;
        let mut items = |xs: &[Dt]| -> Result<Vec<Dt>, A::Error> {
            let mut out = vec![];
            for x in xs {
                match seq.next_element_seed(De(x))? {
                    Some(x) => out.push(x),
                    None => return Err(de::Error::custom("too few elements")),
                }
                de_tick()?;
            }
            if seq.next_element::<de::IgnoredAny>()?.is_some() {
                return Err(de::Error::custom("too many elements"));
            }
            Ok(out)
        };
        match self.0 {
            Dt::Bytes(_) => {
                let mut out = vec![];
                while let Some(b) = seq.next_element::<u8>()? {
                    de_tick()?;
                    out.push(b);
                }
                Ok(Dt::Bytes(out))
            }
            Dt::Seq(xs) => items(xs).map(Dt::Seq),
            Dt::Tuple(xs) => items(xs).map(Dt::Tuple),
            Dt::TupleStruct(xs) => items(xs).map(Dt::TupleStruct),
            Dt::TupleVar(v, xs) => items(xs).map(|xs| Dt::TupleVar(*v, xs)),
            _ => Err(de::Error::custom("sequence")),
        }
    }

    fn visit_map<A: MapAccess<'de>>(self, mut map: A) -> Result<Dt, A::Error> {
        de_tick()?;
        match self.0 {
            Dt::Map(es) => {
                let mut out: Vec<(Key, Dt)> = vec![];
                let mut i = 0;
                // A map has keys of one type.
                let proto = es.first().map_or(Key::Str(String::new()), |(k, _)| k.clone());
                while let Some(k) = map.next_key_seed(DeKey(&proto))? {
                    de_tick()?;
                    let Some((_, x)) = es.iter().find(|(e, _)| *e == k) else {
                        return Err(de::Error::custom(format!("a key that was not written: {k:?}")));
                    };
                    out.push((k, map.next_value_seed(De(x))?));
                    i += 1;
                    if i > es.len() {
                        return Err(de::Error::custom("too many entries"));
                    }
                }
                Ok(Dt::Map(out))
            }
            Dt::Struct(fs) => fields(fs, map).map(Dt::Struct),
            Dt::StructVar(v, fs) => fields(fs, map).map(|fs| Dt::StructVar(*v, fs)),
            _ => Err(de::Error::custom("map")),
        }
    }

    fn visit_enum<A: EnumAccess<'de>>(self, e: A) -> Result<Dt, A::Error> {
        de_tick()?;
        let (name, v) = e.variant_seed(DeName)?;
        de_tick()?;
        let var = |k: &usize| -> Result<usize, A::Error> {
            if VARIANTS[*k] == name {
                Ok(*k)
            } else {
                Err(de::Error::custom(format!("a variant that was not written: {name}")))
            }
        };
        match self.0 {
            Dt::UnitVar(k) => {
                v.unit_variant()?;
                Ok(Dt::UnitVar(var(k)?))
            }
            Dt::NewtypeVar(k, x) => {
                let k = var(k)?;
                let x = v.newtype_variant_seed(De(x))?;
                Ok(Dt::NewtypeVar(k, Box::new(x)))
            }
            Dt::TupleVar(k, xs) => {
                var(k)?;
                v.tuple_variant(xs.len(), Vis(self.0))
            }
            Dt::StructVar(k, _) => {
                var(k)?;
                v.struct_variant(FIELDS, Vis(self.0))
            }
            _ => Err(de::Error::custom("enum")),
        }
    }
}

fn fields<'de, A: MapAccess<'de>>(fs: &[(usize, Dt)], mut map: A) -> Result<Vec<(usize, Dt)>, A::Error> {
    let mut out: Vec<Option<Dt>> = fs.iter().map(|_| None).collect();
    while let Some(name) = map.next_key_seed(DeName)? {
        de_tick()?;
        match fs.iter().position(|(f, _)| FIELDS[*f] == name) {
            Some(i) if out[i].is_none() => out[i] = Some(map.next_value_seed(De(&fs[i].1))?),
            Some(_) => return Err(de::Error::custom(format!("the field {name} twice"))),
            None => return Err(de::Error::custom(format!("a field that was not written: {name}"))),
        }
        de_tick()?;
    }
    fs.iter()
        .zip(out)
        .map(|((f, x), r)| match (r, x) {
            (Some(r), _) => Ok((*f, r)),
            (None, _) => Err(de::Error::custom(format!("no field {}", FIELDS[*f]))),
        })
        .collect()
}

/// The name of a field or variant.
struct DeName;

impl<'de> DeserializeSeed<'de> for DeName {
    type Value = String;

    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        de_tick()?;
        d.deserialize_identifier(self)
    }
}

impl Visitor<'_> for DeName {
    type Value = String;

    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a name")
    }

    fn visit_str<E: de::Error>(self, s: &str) -> Result<String, E> {
        de_tick()?;
        Ok(s.to_string())
    }
}

struct DeKey<'a>(&'a Key);

impl<'de> DeserializeSeed<'de> for DeKey<'_> {
    type Value = Key;

    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Key, D::Error> {
        de_tick()?;
        Ok(match self.0 {
            Key::Str(_) => Key::Str(String::deserialize(d)?),
            Key::Char(_) => Key::Char(char::deserialize(d)?),
            Key::U8(_) => Key::U8(u8::deserialize(d)?),
            Key::I64(_) => Key::I64(i64::deserialize(d)?),
            Key::U64(_) => Key::U64(u64::deserialize(d)?),
            Key::Var(_) => d.deserialize_enum("E", VARIANTS, KeyVis)?,
            Key::New(_) => d.deserialize_newtype_struct("N", KeyVis)?,
        })
    }
}

struct KeyVis;

impl<'de> Visitor<'de> for KeyVis {
    type Value = Key;

    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a key")
    }

    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Key, D::Error> {
        de_tick()?;
        Ok(Key::New(String::deserialize(d)?))
    }

    fn visit_enum<A: EnumAccess<'de>>(self, e: A) -> Result<Key, A::Error> {
        let (name, v) = e.variant_seed(DeName)?;
        v.unit_variant()?;
        match VARIANTS.iter().position(|x| *x == name) {
            Some(k) => Ok(Key::Var(k)),
            None => Err(de::Error::unknown_variant(&name, VARIANTS)),
        }
    }
}

/// How data is read back.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Via {
    Text,
    Expr,
    Value,
}

fn nullish(d: &Dt) -> bool {
    match d {
        Dt::Unit | Dt::UnitStruct | Dt::None => true,
        Dt::F32(f) => !f.is_finite(),
        Dt::F64(f) => !f.is_finite(),
        Dt::Newtype(x) | Dt::Block(x, _) | Dt::Labeled(x, _) | Dt::Some(x) | Dt::Val(x) => nullish(x),
        _ => false,
    }
}

/// Whether data where an expression belongs can be told from what was written.
pub fn readable(d: &Dt, via: Via) -> bool {
    let all = |xs: &[Dt]| xs.iter().all(|x| readable(x, via));
    let fields = |fs: &[(usize, Dt)]| fs.iter().all(|(_, x)| readable(x, via));
    match d {
        Dt::F32(f) => f.is_finite(),
        Dt::F64(f) => f.is_finite(),
        Dt::Some(x) => !nullish(x) && readable(x, via),
        Dt::Newtype(x) | Dt::NewtypeVar(_, x) | Dt::Block(x, _) | Dt::Labeled(x, _) => readable(x, via),
        Dt::Seq(xs) | Dt::Tuple(xs) | Dt::TupleStruct(xs) | Dt::TupleVar(_, xs) => all(xs),
        Dt::Map(es) => es.iter().all(|(k, x)| {
            readable(x, via) && (via != Via::Value || !matches!(k, Key::U8(_) | Key::I64(_) | Key::U64(_) | Key::New(_)))
        }),
        Dt::Struct(fs) | Dt::StructVar(_, fs) => fields(fs),
        Dt::Expr(_) => via != Via::Value,
        Dt::Node(_) => false,
        _ => true,
    }
}

fn readable_entries<'a>(mut es: impl Iterator<Item = &'a Dt>) -> bool {
    es.all(readable_structure)
}

pub fn readable_body(d: &Dt) -> bool {
    match d {
        Dt::Newtype(x) | Dt::Block(x, _) | Dt::Labeled(x, _) => readable_body(x),
        Dt::Map(es) => {
            // The names of attributes are strings, never numbers.
            es.iter().all(|(k, _)| !matches!(k, Key::U8(_) | Key::I64(_) | Key::U64(_)))
                && readable_entries(es.iter().map(|(_, x)| x))
        }
        Dt::Struct(fs) | Dt::StructVar(_, fs) => readable_entries(fs.iter().map(|(_, x)| x)),
        Dt::NewtypeVar(_, x) => readable_structure(x),
        Dt::TupleVar(_, xs) => xs.iter().all(|x| readable(x, Via::Text)),
        _ => false,
    }
}

fn readable_structure(d: &Dt) -> bool {
    match d {
        Dt::Some(x) => !nullish(x) && readable_structure(x),
        Dt::Block(x, _) => readable_blocks(x, false),
        Dt::Labeled(x, _) => readable_labeled(x),
        _ => readable(d, Via::Text),
    }
}

/// A sequence of blocks is told from a block by having several.
fn readable_blocks(d: &Dt, in_seq: bool) -> bool {
    match d {
        Dt::Some(x) | Dt::Newtype(x) | Dt::Block(x, _) => readable_blocks(x, in_seq),
        Dt::Labeled(x, _) => !in_seq && readable_labeled(x),
        Dt::Seq(xs) | Dt::Tuple(xs) | Dt::TupleStruct(xs) => {
            !in_seq && xs.len() > 1 && xs.iter().all(|x| readable_blocks(x, true))
        }
        Dt::Map(_) | Dt::Struct(_) | Dt::NewtypeVar(..) | Dt::StructVar(..) => readable_body(d),
        Dt::TupleVar(_, xs) => xs.len() > 1 && xs.iter().all(|x| readable_blocks(x, true)),
        _ => false,
    }
}

fn readable_labeled(d: &Dt) -> bool {
    match d {
        Dt::Some(x) | Dt::Newtype(x) | Dt::Block(x, _) | Dt::Labeled(x, _) => readable_labeled(x),
        Dt::Map(es) => {
            !es.is_empty()
                && es
                    .iter()
                    .all(|(k, x)| !matches!(k, Key::U8(_) | Key::I64(_) | Key::U64(_)) && readable_blocks(x, false))
        }
        Dt::Struct(fs) | Dt::StructVar(_, fs) => !fs.is_empty() && fs.iter().all(|(_, x)| readable_blocks(x, false)),
        Dt::NewtypeVar(_, x) => readable_blocks(x, false),
        Dt::TupleVar(_, xs) => xs.len() > 1 && xs.iter().all(|x| readable_blocks(x, true)),
        _ => false,
    }
}

// ---------------------------------------------------------------------------------------------
// Generation

pub struct Gen<'a> {
    pub src: &'a mut Src,
    pub budget: usize,
}

const STRINGS: &[&str] = &[
    "", "a", "foo bar", "ü", "line\nbreak", "\"quoted\"", "back\\slash", "tab\t", "${x}", "$${x}", "%{ if true }a%{ endif }", "null", "1",
    "a$", "\u{1}", "日本",
];
const IDENTS: &[&str] = &["k", "l", "m1", "n_o", "p-q", "null", "for", "ü1"];

impl Gen<'_> {
    fn spend(&mut self) -> bool {
        let ok = self.budget > 0;
        self.budget = self.budget.saturating_sub(1);
        ok
    }

    fn string(&mut self) -> String {
        let mut s = (*self.src.pick(STRINGS)).to_string();
        if self.src.chance(1, 8) {
            s.push_str(*self.src.pick(STRINGS));
            let n = *self.src.pick(&[0, 0, 0, 22, 23, 24, 63, 64, 255, 256, 4096, 8192]);
            let unit = *self.src.pick(&["a", "é", "\n", "$", "x "]);
            while s.len() < n {
                s.push_str(unit);
            }
        }
        s
    }

    /// Sizes of collections.
    fn some(&mut self, small: usize) -> usize {
        if self.src.chance(1, 60) {
            *self.src.pick(&[8, 9, 16, 17, 33, 65])
        } else {
            self.src.below(small)
        }
    }

    fn scalar(&mut self) -> Dt {
        let s = &mut *self.src;
        match s.below(21) {
            0 => Dt::Bool(s.below(2) == 1),
            1 => Dt::I8(s.bits() as i8),
            2 => Dt::I16(s.bits() as i16),
            3 => Dt::I32(s.bits() as i32),
            4 => Dt::I64(match s.below(6) {
                5 => s.bits() as i64 >> s.below(64),
                i => [0, -1, i64::MIN, i64::MAX, 42][i],
            }),
            5 => Dt::U8(s.bits() as u8),
            6 => Dt::U16(s.bits() as u16),
            7 => Dt::U32(s.bits() as u32),
            8 => Dt::U64(match s.below(6) {
                5 => s.bits() >> s.below(64),
                i => [0, 1, u64::MAX, 1 << 63, 1 << 53][i],
            }),
            9 => Dt::F32(match s.below(9) {
                8 => f32::from_bits(s.bits() as u32),
                i => [0.0, 1.5, -2.25, 0.1, 3.0e10, f32::MIN_POSITIVE, f32::MAX, f32::NAN][i],
            }),
            10 => Dt::F64(match s.below(9) {
                8 => f64::from_bits(s.bits()),
                i => [0.0, 1.5, -2.25, 0.1, 1.0e15, 1e300, 5e-324, f64::INFINITY][i],
            }),
            11 => Dt::Char(*s.pick(&['a', '"', '$', '\n', 'ü', '1'])),
            12..=14 => Dt::Str(self.string()),
            15 => Dt::Display(self.string()),
            16 => Dt::Bytes((0..self.some(4)).map(|i| (i * 101) as u8).collect()),
            17 => Dt::Unit,
            18 => Dt::UnitStruct,
            19 => Dt::None,
            _ => Dt::UnitVar(self.variant()),
        }
    }

    fn variant(&mut self) -> usize {
        if self.src.chance(1, 20) {
            GOOD_VARIANTS
        } else {
            self.src.below(GOOD_VARIANTS)
        }
    }

    fn fields(&mut self, f: &mut dyn FnMut(&mut Self) -> Dt) -> Vec<(usize, Dt)> {
        let mut out: Vec<(usize, Dt)> = vec![];
        for _ in 0..self.src.below(4) {
            let k = if self.src.chance(1, 40) {
                GOOD_FIELDS + self.src.below(2)
            } else {
                self.src.below(GOOD_FIELDS)
            };
            if out.iter().all(|(o, _)| *o != k) {
                let x = f(self);
                out.push((k, x));
            }
        }
        out
    }

    fn list(&mut self, lo: usize, f: &mut dyn FnMut(&mut Self) -> Dt) -> Vec<Dt> {
        let n = lo + self.some(3.max(lo) - lo + 1);
        (0..n).map(|_| f(self)).collect()
    }

    /// `names`: only names that can be those of attributes, mostly.
    fn map(&mut self, names: bool, f: &mut dyn FnMut(&mut Self) -> Dt) -> Vec<(Key, Dt)> {
        let kind = if names {
            *self.src.pick(&[0, 0, 1, 5, 6])
        } else {
            self.src.below(7)
        };
        let mut out: Vec<(Key, Dt)> = vec![];
        let n = self.some(4);
        for i in 0..n {
            let k = match kind {
                0 | 6 if n > 4 && i > 0 => {
                    let s = format!("k{}", i * 7 % 40);
                    if kind == 6 {
                        Key::New(s)
                    } else {
                        Key::Str(s)
                    }
                }
                1 => Key::Char(*self.src.pick(if names { &['x', 'y'] } else { &['x', '"'] })),
                2 => Key::U8(self.src.bits() as u8),
                3 => Key::I64(*self.src.pick(&[-1, 0, 7, i64::MIN])),
                4 => Key::U64(*self.src.pick(&[0, 7, u64::MAX])),
                5 => Key::Var(self.variant()),
                k => {
                    let s = if names && !self.src.chance(1, 30) {
                        (*self.src.pick(IDENTS)).to_string()
                    } else {
                        self.string()
                    };
                    if k == 6 {
                        Key::New(s)
                    } else {
                        Key::Str(s)
                    }
                }
            };
            if out.iter().all(|(o, _)| *o != k) {
                let x = f(self);
                out.push((k, x));
            }
        }
        out
    }

    /// Something where an expression belongs.
    pub fn expr(&mut self, depth: usize) -> Dt {
        if depth == 0 || !self.spend() || self.src.below(5) < 2 {
            return self.scalar();
        }
        let d = depth - 1;
        let mut sub = |g: &mut Self| g.expr(d);
        match self.src.below(18) {
            0 | 1 => Dt::Some(Box::new(sub(self))),
            2 => Dt::Newtype(Box::new(sub(self))),
            3 | 4 => Dt::Seq(self.list(0, &mut sub)),
            5 => Dt::Tuple(self.list(0, &mut sub)),
            6 => Dt::TupleStruct(self.list(0, &mut sub)),
            7 | 8 => Dt::Map(self.map(false, &mut sub)),
            9 | 10 => Dt::Struct(self.fields(&mut sub)),
            11 => Dt::NewtypeVar(self.variant(), Box::new(sub(self))),
            12 => Dt::TupleVar(self.variant(), self.list(0, &mut sub)),
            13 => Dt::StructVar(self.variant(), self.fields(&mut sub)),
            14 => Dt::Expr(self.src.below(EXPRS.len())),
            15 => Dt::Val(Box::new(self.plain(2))),
            16 => Dt::Node(self.src.below(3)),
            _ => Dt::Block(Box::new(sub(self)), self.src.below(2) == 1),
        }
    }

    /// Something that is a value.
    fn plain(&mut self, depth: usize) -> Dt {
        if depth == 0 || self.src.below(3) == 0 {
            return self.scalar();
        }
        let mut sub = |g: &mut Self| g.plain(depth - 1);
        if self.src.below(2) == 0 {
            Dt::Seq(self.list(0, &mut sub))
        } else {
            let m = self.map(true, &mut sub);
            Dt::Map(m)
        }
    }

    /// The value of an attribute or what becomes blocks.
    pub fn structure(&mut self, depth: usize) -> Dt {
        if depth == 0 || !self.spend() {
            return self.scalar();
        }
        match self.src.below(11) {
            10 => {
                let kind = self.src.below(2) == 0;
                let mut label = |g: &mut Self| Dt::Labeled(Box::new(g.labeled(depth.saturating_sub(2))), kind);
                Dt::Labeled(Box::new(Dt::Map(self.map(true, &mut label))), true)
            }
            0 => Dt::Some(Box::new(self.structure(depth - 1))),
            1..=3 => Dt::Block(Box::new(self.blocks(depth - 1)), self.src.below(2) == 1),
            4..=6 => Dt::Labeled(Box::new(self.labeled(depth - 1)), self.src.below(2) == 1),
            _ => self.expr(depth - 1),
        }
    }

    fn blocks(&mut self, depth: usize) -> Dt {
        if self.src.chance(1, 30) {
            return self.expr(1);
        }
        if depth == 0 || !self.spend() {
            return Dt::Struct(vec![(0, Dt::U8(1))]);
        }
        let d = depth - 1;
        match self.src.below(16) {
            0 => Dt::Some(Box::new(self.blocks(d))),
            1 => Dt::Newtype(Box::new(self.blocks(d))),
            2 | 3 => Dt::Seq(self.list(0, &mut |g| g.blocks(d))),
            4 => Dt::Tuple(self.list(1, &mut |g| g.blocks(d))),
            5 => Dt::TupleStruct(self.list(1, &mut |g| g.blocks(d))),
            6 => Dt::NewtypeVar(self.variant(), Box::new(self.structure(d))),
            7 => Dt::TupleVar(self.variant(), self.list(1, &mut |g| g.blocks(d))),
            8 => Dt::StructVar(self.variant(), self.fields(&mut |g| g.structure(d))),
            9 => Dt::Expr(EXPRS.len() - 1 - self.src.below(2)),
            10 => Dt::Node(self.src.below(3)),
            11 => Dt::Val(Box::new(Dt::Map(self.map(true, &mut |g| g.plain(1))))),
            12 => Dt::Map(self.map(true, &mut |g| g.structure(d))),
            13 => Dt::Labeled(Box::new(self.labeled(d)), false),
            _ => Dt::Struct(self.fields(&mut |g| g.structure(d))),
        }
    }

    fn labeled(&mut self, depth: usize) -> Dt {
        if self.src.chance(1, 30) {
            return self.expr(1);
        }
        if depth == 0 || !self.spend() {
            return Dt::Struct(vec![(0, Dt::Struct(vec![(1, Dt::U8(1))]))]);
        }
        let d = depth - 1;
        match self.src.below(12) {
            0 => Dt::Some(Box::new(self.labeled(d))),
            1 => Dt::Newtype(Box::new(self.labeled(d))),
            2 => Dt::Seq(self.list(0, &mut |g| g.labeled(d))),
            3 => Dt::Tuple(self.list(1, &mut |g| g.labeled(d))),
            4 => Dt::NewtypeVar(self.variant(), Box::new(self.blocks(d))),
            5 => Dt::TupleVar(self.variant(), self.list(1, &mut |g| g.blocks(d))),
            6 => Dt::StructVar(self.variant(), self.fields(&mut |g| g.blocks(d))),
            7 => Dt::Expr(EXPRS.len() - 1),
            8 => Dt::Struct(self.fields(&mut |g| g.blocks(d))),
            9 => Dt::Map(self.map(true, &mut |g| g.blocks(d))),
            _ => {
                let labels = self.src.below(2) == 0;
                Dt::Map(self.map(labels, &mut |g| g.blocks(d)))
            }
        }
    }

    pub fn top(&mut self) -> Dt {
        let d = 4;
        match self.src.below(20) {
            0 => self.expr(2),
            1 => Dt::Some(Box::new(self.top())),
            2 => Dt::Newtype(Box::new(self.top())),
            3 => Dt::Seq(self.list(0, &mut |g| g.top())),
            4 => Dt::Tuple(self.list(0, &mut |g| g.top())),
            5 => Dt::NewtypeVar(self.variant(), Box::new(self.structure(d))),
            6 => Dt::TupleVar(self.variant(), self.list(0, &mut |g| g.expr(2))),
            7 => Dt::StructVar(self.variant(), self.fields(&mut |g| g.structure(d))),
            8 => Dt::Expr(EXPRS.len() - 1 - self.src.below(2)),
            9 => Dt::Node(self.src.below(3)),
            10 => Dt::Val(Box::new(self.plain(3))),
            11 => Dt::Block(Box::new(self.top()), self.src.below(2) == 1),
            12..=14 => Dt::Map(self.map(true, &mut |g| g.structure(d))),
            _ => Dt::Struct(self.fields(&mut |g| g.structure(d))),
        }
    }
}
