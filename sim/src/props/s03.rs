//! S03: an acknowledged document is recovered unchanged after a crash.

use crate::canon::{self, V};
use crate::choice::Src;
use crate::cx::{is_injected, violation, Check, Cx};
use crate::ev;
use crate::gen::{Cfg, G, IDENTS};
use crate::io::{device_error, gen_fail, Chunks, Fail, SimReader};
use crate::make;
use crate::model::{self as m, B, S};
use crate::props::s02::FmtCfg;
use crate::runner::{no_known, Prop};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{self, ErrorKind, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub static PROP: Prop = Prop {
    id: "S03",
    run,
    runs: (180_000, 3_000_000),
    rule: "a run is a history of modify, store, write-back, crash and load steps on one document through one interface \
           (structural, value, typed, format-preserving) and one storage protocol (overwrite or replace); stores are \
           torn by power loss, full disks, short and interrupted writes at chosen bytes; non-trivial if a store was \
           acknowledged or torn; counted by the hash over documents, steps, faults and recovered states",
    real: &["hcl-rs (format, ser, de, value, structure)", "hcl-edit (parser, printer, body operations)"],
    stubs: &["the disk with its page cache (in memory)", "power supply", "the application that owns the document"],
    assumptions: &[
        "a torn overwrite leaves a prefix of the new text (appends reach the disk in order)",
        "a rename is atomic and ordered after the sync of the renamed file",
    ],
    known: no_known,
    stack_mb: 64,
    hang_s: 60,
    workers: 8,
};

// ---------------------------------------------------------------------------------------------
// Disk

#[derive(Default)]
struct Disk {
    /// What survives a power loss.
    durable: BTreeMap<&'static str, Vec<u8>>,
    /// What reads return.
    view: BTreeMap<&'static str, Vec<u8>>,
    /// Free bytes.
    room: usize,
}

impl Disk {
    fn dirty(&self, f: &'static str) -> bool {
        self.durable.get(f) != self.view.get(f)
    }
    /// Part of the unsynced data reaches the disk.
    fn write_back(&mut self, src: &mut Src, f: &'static str) {
        if !self.dirty(f) {
            return;
        }
        let v = self.view.get(f).cloned().unwrap_or_default();
        let n = match src.below(4) {
            0 => 0,
            1 => v.len(),
            _ => src.below(v.len() + 1),
        };
        self.durable.insert(f, v[..n].to_vec());
    }
    fn crash(&mut self, src: &mut Src) {
        for f in ["conf", "conf.tmp"] {
            // Nothing, or something, had been written back.
            if src.below(2) == 1 {
                self.write_back(src, f);
            }
        }
        self.view = self.durable.clone();
    }
    fn sync(&mut self, f: &'static str) {
        let v = self.view.get(f).cloned().unwrap_or_default();
        self.durable.insert(f, v);
    }
    fn rename(&mut self, from: &'static str, to: &'static str) {
        let v = self.view.remove(from).unwrap_or_default();
        self.view.insert(to, v);
    }
}

/// An open file that was truncated.
struct File<'a> {
    disk: &'a mut Disk,
    name: &'static str,
    sizes: Vec<usize>,
    interrupts: Vec<bool>,
    calls: usize,
    fail: Option<(usize, Fail)>,
    interrupted: u64,
    short: u64,
    failed: u64,
}

impl<'a> File<'a> {
    fn create(
        disk: &'a mut Disk,
        name: &'static str,
        src: &mut Src,
        fail: Option<(usize, Fail)>,
    ) -> File<'a> {
        disk.view.insert(name, Vec::new());
        let sizes = match src.below(4) {
            0 => vec![usize::MAX],
            1 => vec![1],
            2 => vec![src.range(2, 9)],
            _ => vec![src.range(10, 200), src.range(1, 40)],
        };
        let interrupts = (0..src.below(4))
            .map(|_| src.chance(1, 2))
            .chain([false])
            .collect();
        File {
            disk,
            name,
            sizes,
            interrupts,
            calls: 0,
            fail,
            interrupted: 0,
            short: 0,
            failed: 0,
        }
    }
}

impl Write for File<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let i = self.calls;
        self.calls += 1;
        let v = self.disk.view.entry(self.name).or_default();
        let len = v.len();
        let mut n = buf.len();
        if let Some((at, fail)) = self.fail {
            if len >= at {
                self.failed += 1;
                match fail {
                    Fail::Kind(k, f) => return Err(device_error(k, f)),
                    Fail::Zero => return Ok(0),
                    Fail::Panic => crate::cx::inject_panic(),
                }
            }
            n = n.min(at - len);
        }
        if self.disk.room == 0 {
            self.failed += 1;
            return Err(device_error(ErrorKind::StorageFull, 2));
        }
        if self.interrupts[i % self.interrupts.len()] {
            self.interrupted += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        n = n.min(self.sizes[i % self.sizes.len()]).min(self.disk.room);
        if n < buf.len() {
            self.short += 1;
        }
        self.disk.room -= n;
        v.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// Typed documents

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Point {
    x: i32,
    ys: Vec<f64>,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
enum Choice {
    Unit,
    New(u32),
    Struct { x: i8, y: Option<bool> },
    Tuple(u8, String),
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Wrap(u64);

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
#[serde(rename_all = "kebab-case")]
struct Conf {
    text: String,
    maybe: Option<String>,
    choice: Choice,
    choices: Vec<Choice>,
    unit: (),
    wrap: Wrap,
    pair: (i16, char),
    big: u64,
    small: i64,
    float: f64,
    single: f32,
    flag: bool,
    table: BTreeMap<String, Point>,
    numbered: BTreeMap<u16, Option<String>>,
    nested: Vec<Vec<Point>>,
    #[serde(serialize_with = "hcl::ser::block")]
    one: Point,
    #[serde(serialize_with = "hcl::ser::block")]
    many: Vec<Inner>,
    #[serde(serialize_with = "hcl::ser::labeled_block")]
    labeled: BTreeMap<String, Point>,
    #[serde(serialize_with = "hcl::ser::doubly_labeled_block")]
    doubly: BTreeMap<String, BTreeMap<String, Inner>>,
    value: hcl::Value,
    #[serde(skip_serializing_if = "Option::is_none", default)]
    last: Option<f64>,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Inner {
    name: String,
    point: Point,
    #[serde(serialize_with = "hcl::ser::block")]
    block: Leaf,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Leaf {
    n: Option<u8>,
}

struct T<'a>(&'a mut Src);

impl T<'_> {
    fn string(&mut self) -> String {
        G::new(self.0, Cfg::default()).string()
    }
    fn f64(&mut self) -> f64 {
        match self.0.below(6) {
            0 => self.0.below(100) as f64,
            1 => 0.5,
            2 => -1.25,
            3 => 1e300,
            4 => {
                let f = f64::from_bits(self.0.bits());
                if f.is_finite() && f != 0.0 {
                    f
                } else {
                    0.1
                }
            }
            _ => 5e-324,
        }
    }
    fn int(&mut self, lo: i64, hi: i64) -> i64 {
        match self.0.below(5) {
            0 => 0,
            1 => lo,
            2 => hi,
            3 => hi - self.0.below(3) as i64,
            _ => (self.0.below(20) as i64).clamp(lo, hi),
        }
    }
    fn point(&mut self) -> Point {
        let x = self.int(i32::MIN.into(), i32::MAX.into()) as i32;
        let n = self.0.below(3);
        Point {
            x,
            ys: (0..n).map(|_| self.f64()).collect(),
        }
    }
    fn choice(&mut self) -> Choice {
        match self.0.below(4) {
            0 => Choice::Unit,
            1 => Choice::New(self.int(0, u32::MAX.into()) as u32),
            2 => {
                let y = match self.0.below(3) {
                    0 => None,
                    n => Some(n == 1),
                };
                Choice::Struct {
                    x: self.int(-128, 127) as i8,
                    y,
                }
            }
            _ => Choice::Tuple(self.int(0, 255) as u8, self.string()),
        }
    }
    fn inner(&mut self) -> Inner {
        Inner {
            name: self.string(),
            point: self.point(),
            block: Leaf {
                n: if self.0.below(2) == 0 {
                    None
                } else {
                    Some(self.int(0, 255) as u8)
                },
            },
        }
    }
    fn vec<X>(&mut self, min: usize, max: usize, mut f: impl FnMut(&mut Self) -> X) -> Vec<X> {
        let n = self.0.range(min, max);
        (0..n).map(|_| f(self)).collect()
    }
    fn map<X>(
        &mut self,
        min: usize,
        max: usize,
        mut f: impl FnMut(&mut Self) -> X,
    ) -> BTreeMap<String, X> {
        let n = self.0.range(min, max);
        let mut out: BTreeMap<String, X> = (0..n).map(|_| (self.string(), f(self))).collect();
        for i in out.len()..min {
            out.insert(format!("k{i}"), f(self));
        }
        out
    }
    fn value(&mut self, depth: usize) -> hcl::Value {
        let v = self.v(depth);
        lib_value(&v)
    }
    fn v(&mut self, depth: usize) -> V {
        match self.0.below(if depth == 0 { 4 } else { 6 }) {
            0 => {
                let mut g = G::new(self.0, Cfg::default());
                match g.number(true) {
                    m::K::Num(n, _) => V::Num(n),
                    _ => V::Null,
                }
            }
            1 => V::Str(self.string()),
            2 => V::Bool(self.0.below(2) == 1),
            3 => V::Null,
            4 => V::Arr(self.vec(0, 3, |t| t.v(depth - 1))),
            _ => {
                let mut out: Vec<(String, V)> = Vec::new();
                for _ in 0..self.0.below(4) {
                    let k = self.string();
                    if out.iter().all(|(o, _)| *o != k) {
                        out.push((k, self.v(depth - 1)));
                    }
                }
                V::Obj(out)
            }
        }
    }
    fn conf(&mut self) -> Conf {
        Conf {
            text: self.string(),
            maybe: if self.0.below(2) == 0 {
                None
            } else {
                Some(self.string())
            },
            choice: self.choice(),
            choices: self.vec(0, 3, Self::choice),
            unit: (),
            wrap: Wrap(if self.0.below(2) == 0 { 1 } else { u64::MAX }),
            pair: (
                self.int(-32768, 32767) as i16,
                *self.0.pick(&['c', 'é', '"', '\\', '\n', '$', '😀', '\0']),
            ),
            big: *self.0.pick(&[0, u64::MAX, i64::MAX as u64 + 1, 7]),
            small: self.int(i64::MIN, i64::MAX),
            float: self.f64(),
            single: *self.0.pick(&[0.0, 0.1, -2.5, f32::MAX, f32::MIN_POSITIVE]),
            flag: self.0.below(2) == 1,
            table: self.map(0, 2, Self::point),
            numbered: {
                let mut out = BTreeMap::new();
                for _ in 0..self.0.below(3) {
                    let s = if self.0.below(2) == 0 {
                        None
                    } else {
                        Some(self.string())
                    };
                    out.insert(self.0.below(300) as u16, s);
                }
                out
            },
            nested: self.vec(0, 2, |t| t.vec(0, 2, Self::point)),
            one: self.point(),
            // A sequence of exactly one block reads back as that block.
            many: self.vec(2, 3, Self::inner),
            labeled: self.map(1, 3, Self::point),
            doubly: {
                let mut outer = BTreeMap::new();
                for i in 0..self.0.range(1, 2) {
                    outer.insert(
                        format!("l{i}{}", self.string()),
                        self.map(1, 2, Self::inner),
                    );
                }
                outer
            },
            value: self.value(2),
            last: if self.0.below(2) == 0 {
                None
            } else {
                Some(self.f64())
            },
        }
    }
}

fn lib_value(v: &V) -> hcl::Value {
    match v {
        V::Null => hcl::Value::Null,
        V::Bool(b) => hcl::Value::Bool(*b),
        V::Num(n) => hcl::Value::Number(make::number(n)),
        V::Str(s) => hcl::Value::String(s.clone()),
        V::Arr(a) => hcl::Value::Array(a.iter().map(lib_value).collect()),
        V::Obj(o) => hcl::Value::Object(o.iter().map(|(k, v)| (k.clone(), lib_value(v))).collect()),
    }
}

// ---------------------------------------------------------------------------------------------
// Documents

/// The document in memory: what the library holds, and the model of it.
#[derive(Clone)]
enum Doc {
    Struct(hcl::Body, B),
    Value(hcl::Value, V),
    Typed(Conf, Conf),
    Edit(hcl_edit::structure::Body, B),
}

/// Name, kind and content of a top-level entry.
type Entry = (String, String);

fn entry_struct(s: &hcl::Structure) -> Entry {
    let name = match s {
        hcl::Structure::Attribute(a) => format!("a:{}", a.key.as_str()),
        hcl::Structure::Block(b) => format!("b:{}", b.identifier.as_str()),
    };
    (name, canon::hcl_s(s))
}

fn entry_edit(s: &hcl_edit::structure::Structure) -> Entry {
    let name = match s {
        hcl_edit::structure::Structure::Attribute(a) => format!("a:{}", a.key.as_str()),
        hcl_edit::structure::Structure::Block(b) => format!("b:{}", b.ident.as_str()),
    };
    (name, canon::edit_s(s))
}

fn entry_model(s: &S) -> Entry {
    let name = match s {
        S::Attr { key, .. } => format!("a:{}", key.s),
        S::Block { ident, .. } => format!("b:{}", ident.s),
    };
    (name, canon::model_s(s))
}

fn entries_value(v: &hcl::Value) -> Vec<Entry> {
    match v {
        hcl::Value::Object(o) => o
            .iter()
            .map(|(k, v)| (format!("a:{k}"), canon::value(v)))
            .collect(),
        _ => vec![("not an object".into(), canon::value(v))],
    }
}

fn structures(b: &hcl::Body) -> Vec<Entry> {
    b.iter().map(entry_struct).collect()
}

impl Doc {
    fn new(kind: usize, src: &mut Src) -> Doc {
        match kind {
            0 => {
                let b = G::new(
                    src,
                    Cfg {
                        trivia: false,
                        ..Cfg::default()
                    },
                )
                .doc();
                Doc::Struct(make::hcl_body(&b), b)
            }
            1 => {
                let mut o: Vec<(String, V)> = Vec::new();
                for _ in 0..src.below(5) {
                    let k = (*src.pick(&IDENTS)).to_string();
                    if o.iter().all(|(p, _)| *p != k) {
                        o.push((k, T(src).v(3)));
                    }
                }
                let v = V::Obj(o);
                Doc::Value(lib_value(&v), v)
            }
            2 => {
                let c = T(src).conf();
                Doc::Typed(c.clone(), c)
            }
            _ => {
                let b = G::new(src, Cfg::default()).doc();
                let text = m::render_body(&b);
                let lib = match text.parse() {
                    Ok(lib) => lib,
                    Err(_) => make::edit_body(&b),
                };
                Doc::Edit(lib, b)
            }
        }
    }

    /// The entries as the model says.
    fn expected(&self) -> Vec<Entry> {
        match self {
            Doc::Struct(_, b) | Doc::Edit(_, b) => b.items.iter().map(entry_model).collect(),
            Doc::Value(_, V::Obj(o)) => o
                .iter()
                .map(|(k, v)| (format!("a:{k}"), canon::v(v)))
                .collect(),
            Doc::Value(_, v) => vec![(String::new(), canon::v(v))],
            Doc::Typed(_, c) => vec![(String::new(), format!("{c:?}"))],
        }
    }

    /// The entries of the tree in memory.
    fn actual(&self) -> Vec<Entry> {
        match self {
            Doc::Struct(b, _) => structures(b),
            Doc::Edit(b, _) => b.iter().map(entry_edit).collect(),
            Doc::Value(v, _) => entries_value(v),
            Doc::Typed(c, _) => vec![(String::new(), format!("{c:?}"))],
        }
    }

    fn modify(&mut self, cx: &mut Cx) {
        match self {
            Doc::Struct(lib, b) => {
                let n = b.items.len();
                match cx.src.below(5) {
                    0 => {
                        let s = G::new(
                            &mut cx.src,
                            Cfg {
                                trivia: false,
                                ..Cfg::default()
                            },
                        )
                        .structure(b, 1);
                        let at = cx.src.below(n + 1);
                        lib.0.insert(at, make::hcl_s(&s));
                        b.items.insert(at, s);
                    }
                    1 if n > 0 => {
                        let at = cx.src.below(n);
                        lib.0.remove(at);
                        b.items.remove(at);
                    }
                    2 => {
                        let k = cx.src.below(n + 1);
                        let e = G::new(
                            &mut cx.src,
                            Cfg {
                                trivia: false,
                                ..Cfg::default()
                            },
                        )
                        .expr(false);
                        if let Some(a) = lib.attributes_mut().nth(k) {
                            a.expr = make::hcl_e(&e);
                            if let Some(S::Attr { e: old, .. }) =
                                b.items.iter_mut().filter(|s| s.is_attr()).nth(k)
                            {
                                *old = e;
                            }
                        }
                    }
                    4 => {
                        // Through the format-preserving tree and back.
                        cx.probe("converted");
                        *lib = hcl::Body::from(hcl_edit::structure::Body::from(lib.clone()));
                    }
                    _ => {
                        let k = cx.src.below(n + 1);
                        let s = G::new(
                            &mut cx.src,
                            Cfg {
                                trivia: false,
                                ..Cfg::default()
                            },
                        )
                        .block(0);
                        if let Some(blk) = lib.blocks_mut().nth(k) {
                            blk.body.0.push(make::hcl_s(&s));
                            if let Some(S::Block { body, .. }) =
                                b.items.iter_mut().filter(|s| !s.is_attr()).nth(k)
                            {
                                body.items.push(s);
                            }
                        }
                    }
                }
            }
            Doc::Edit(lib, b) => {
                let n = b.items.len();
                match cx.src.below(5) {
                    0 => {
                        let s = G::new(&mut cx.src, Cfg::default()).structure(b, 1);
                        let at = cx.src.below(n + 1);
                        lib.insert(at, make::edit_s(&s));
                        b.items.insert(at, s);
                    }
                    1 if n > 0 => {
                        let at = cx.src.below(n);
                        lib.remove(at);
                        b.items.remove(at);
                    }
                    2 if n > 0 => {
                        let at = cx.src.below(n);
                        let e = G::new(
                            &mut cx.src,
                            Cfg {
                                trivia: false,
                                ..Cfg::default()
                            },
                        )
                        .expr(false);
                        if let S::Attr { key, e: old, .. } = &mut b.items[at] {
                            if let Some(mut a) = lib.get_attribute_mut(&key.s) {
                                *a.value_mut() = make::edit_e(&e);
                            }
                            *old = e;
                        }
                    }
                    4 => {
                        // Through the structural tree and back.
                        cx.probe("converted");
                        *lib = hcl::Body::from(lib.clone()).into();
                    }
                    _ => {
                        let s = G::new(&mut cx.src, Cfg::default()).block(0);
                        let k = cx.src.below(n + 1);
                        if let Some(blk) = lib.blocks_mut().nth(k) {
                            blk.body.push(make::edit_s(&s));
                        }
                        if let Some(S::Block { body, .. }) =
                            b.items.iter_mut().filter(|s| !s.is_attr()).nth(k)
                        {
                            body.items.push(s);
                        }
                    }
                }
            }
            Doc::Value(lib, v) => {
                let k = (*cx.src.pick(&IDENTS)).to_string();
                let (V::Obj(o), hcl::Value::Object(l)) = (v, lib) else {
                    return;
                };
                if cx.src.below(3) == 0 {
                    o.retain(|(p, _)| *p != k);
                    l.shift_remove(&k);
                } else {
                    let new = T(&mut cx.src).v(2);
                    l.insert(k.clone(), lib_value(&new));
                    match o.iter_mut().find(|(p, _)| *p == k) {
                        Some((_, old)) => *old = new,
                        None => o.push((k, new)),
                    }
                }
            }
            Doc::Typed(lib, c) => {
                let new = T(&mut cx.src).conf();
                match cx.src.below(4) {
                    0 => c.text = new.text,
                    1 => c.many = new.many,
                    2 => c.doubly = new.doubly,
                    _ => *c = new,
                }
                *lib = c.clone();
            }
        }
    }

    /// Writes the document.
    fn write(&self, cfg: &FmtCfg, way: usize, w: &mut impl Write) -> Result<(), String> {
        use hcl::format::Format;
        let err = |e: hcl::Error| e.to_string();
        match self {
            Doc::Struct(b, _) => match way {
                0 => hcl::to_writer(&mut *w, b).map_err(err),
                1 => hcl::ser::Serializer::with_formatter(cfg.builder().build(&mut *w))
                    .serialize(b)
                    .map_err(err),
                2 => b.format(&mut cfg.builder().build(&mut *w)).map_err(err),
                3 => w
                    .write_all(hcl::format::to_string(b).map_err(err)?.as_bytes())
                    .map_err(|e| e.to_string()),
                5 => write!(w, "{}", hcl_edit::structure::Body::from(b.clone()))
                    .map_err(|e| e.to_string()),
                _ => hcl::format::to_writer(&mut *w, b).map_err(err),
            },
            Doc::Value(v, _) => match way {
                0 | 2 => hcl::to_writer(&mut *w, v).map_err(err),
                1 => hcl::ser::Serializer::with_formatter(cfg.builder().build(&mut *w))
                    .serialize(v)
                    .map_err(err),
                _ => w
                    .write_all(&hcl::to_vec(v).map_err(err)?)
                    .map_err(|e| e.to_string()),
            },
            Doc::Typed(c, _) => match way {
                0 | 2 => hcl::to_writer(&mut *w, c).map_err(err),
                1 => hcl::ser::Serializer::with_formatter(cfg.builder().build(&mut *w))
                    .serialize(c)
                    .map_err(err),
                _ => w
                    .write_all(hcl::to_string(c).map_err(err)?.as_bytes())
                    .map_err(|e| e.to_string()),
            },
            Doc::Edit(b, _) => match way {
                0 | 1 => write!(w, "{b}").map_err(|e| e.to_string()),
                _ => w
                    .write_all(b.to_string().as_bytes())
                    .map_err(|e| e.to_string()),
            },
        }
    }

    /// The text without faults, and where its top-level entries end.
    fn text(&self, cfg: &FmtCfg, way: usize) -> Result<(Vec<u8>, Vec<usize>), String> {
        let mut full = Vec::new();
        self.write(cfg, way, &mut full)?;
        let n = match self {
            Doc::Struct(_, b) | Doc::Edit(_, b) => b.items.len(),
            Doc::Value(_, V::Obj(o)) => o.len(),
            _ => 0,
        };
        let mut ends = Vec::new();
        for k in 1..=n {
            let mut part = self.clone();
            match &mut part {
                Doc::Struct(b, _) => b.0.truncate(k),
                Doc::Value(hcl::Value::Object(o), _) => o.truncate(k),
                Doc::Edit(b, _) => {
                    while b.len() > k {
                        b.pop();
                    }
                    hcl_edit::Decorate::decor_mut(b).set_suffix("");
                }
                _ => {}
            }
            let mut t = Vec::new();
            part.write(cfg, way, &mut t)?;
            while t.last() == Some(&b'\n') {
                t.pop();
            }
            ends.push(
                if full.starts_with(&t) && full.get(t.len()) == Some(&b'\n') {
                    t.len() + 1
                } else {
                    full.len()
                },
            );
        }
        Ok((full, ends))
    }
}

/// What reading the text gives.
enum Read {
    Failed,
    Entries(Vec<Entry>, Doc),
}

fn load(cx: &mut Cx, kind: usize, bytes: &[u8], model: &Doc) -> Check<Read> {
    let way = cx.src.below(4);
    // A read error is reported, and nothing remains of it.
    if cx.src.chance(1, 6) {
        let at = cx.src.below(bytes.len() + 1);
        let fail = gen_fail(&mut cx.src);
        if let Fail::Kind(..) = fail {
            let mut r = SimReader::new(bytes, Chunks::gen(&mut cx.src), Some((at, fail)));
            let got = match kind {
                0 | 3 => hcl::from_reader::<hcl::Body, _>(&mut r).map(|_| ()),
                1 => hcl::from_reader::<hcl::Value, _>(&mut r).map(|_| ()),
                _ => hcl::from_reader::<Conf, _>(&mut r).map(|_| ()),
            };
            cx.fault("read_error");
            if got.is_ok() {
                return violation(
                    "read-error-lost",
                    format!("reading failed at byte {at} but the load succeeded"),
                );
            }
        }
    }
    let chunks = Chunks::gen(&mut cx.src);
    let mut r = SimReader::new(bytes, chunks, None);
    let text = String::from_utf8_lossy(bytes).into_owned();
    if std::str::from_utf8(bytes).is_err() {
        cx.probe("torn_inside_character");
    }
    macro_rules! read {
        ($t:ty) => {
            match way {
                0 | 1 => hcl::from_reader::<$t, _>(&mut r),
                2 => hcl::from_slice::<$t>(bytes),
                _ if std::str::from_utf8(bytes).is_err() => return Ok(Read::Failed),
                _ => hcl::from_str::<$t>(&text),
            }
        };
    }
    Ok(match (kind, model) {
        (0, Doc::Struct(_, b)) => match read!(hcl::Body) {
            Ok(body) => Read::Entries(structures(&body), Doc::Struct(body, b.clone())),
            Err(_) => Read::Failed,
        },
        (1, Doc::Value(_, v)) => match read!(hcl::Value) {
            Ok(val) => Read::Entries(entries_value(&val), Doc::Value(val, v.clone())),
            Err(_) => Read::Failed,
        },
        (2, Doc::Typed(_, c)) => match read!(Conf) {
            Ok(conf) => Read::Entries(
                vec![(String::new(), format!("{conf:?}"))],
                Doc::Typed(conf, c.clone()),
            ),
            Err(_) => Read::Failed,
        },
        (_, Doc::Edit(_, b)) => {
            if std::str::from_utf8(bytes).is_err() {
                return Ok(Read::Failed);
            }
            match hcl_edit::parser::parse_body(&text) {
                Ok(body) => {
                    if body.to_string() != text {
                        return violation(
                            "reprint",
                            format!("{text:?}\nis printed as\n{:?}", body.to_string()),
                        );
                    }
                    Read::Entries(
                        body.iter().map(entry_edit).collect(),
                        Doc::Edit(body, b.clone()),
                    )
                }
                Err(_) => Read::Failed,
            }
        }
        _ => unreachable!(),
    })
}

struct Version {
    doc: Doc,
    entries: Vec<Entry>,
    text: Vec<u8>,
    ends: Vec<usize>,
}

fn equal(what: &str, got: &[Entry], want: &[Entry], text: &[u8]) -> Check {
    if got == want {
        return Ok(());
    }
    let show = |es: &[Entry]| {
        es.iter()
            .map(|e| format!("  {} {}", e.0, e.1))
            .collect::<Vec<_>>()
            .join("\n")
    };
    violation(
        what,
        format!(
            "{what}:\n{}\ninstead of\n{}\ntext {:?}",
            show(got),
            show(want),
            String::from_utf8_lossy(text)
        ),
    )
}

/// The bytes are a proper prefix of the text of the version.
fn torn(cx: &mut Cx, kind: usize, bytes: &[u8], v: &Version) -> Check<bool> {
    cx.probe("torn_store_read");
    match load(cx, kind, bytes, &v.doc)? {
        Read::Failed => {
            ev!(cx, "torn: rejected");
            Ok(false)
        }
        Read::Entries(got, _) => {
            ev!(cx, "torn: {got:?}");
            cx.probe("torn_store_accepted");
            let complete = v.ends.iter().filter(|e| **e <= bytes.len()).count();
            if kind == 2 {
                // Every field that is there and complete has its value; the rest is covered by the
                // structural view.
                let full: hcl::Body =
                    hcl::from_slice(&v.text).map_err(|e| crate::cx::Violation {
                        class: "lost".into(),
                        msg: format!("acknowledged text is rejected: {e}"),
                    })?;
                let want = structures(&full);
                let part = structures(&hcl::from_slice::<hcl::Body>(bytes).unwrap_or_default());
                let n = part.len().saturating_sub(1);
                if part.len() > want.len() || part[..n] != want[..n] {
                    return equal("torn", &part, &want, bytes).map(|()| false);
                }
                return Ok(true);
            }
            let want = &v.entries;
            let n = got.len();
            if n < complete || n > want.len() {
                return equal("torn", &got, want, bytes).map(|()| false);
            }
            for i in 0..n {
                if got[i] == want[i] {
                    continue;
                }
                // Only the last entry can be incomplete.
                if i + 1 < n || i < complete || got[i].0 != want[i].0 || !got[i].0.starts_with("a:")
                {
                    return equal("torn", &got, want, bytes).map(|()| false);
                }
                cx.probe("torn_last_entry");
            }
            Ok(true)
        }
    }
}

fn run(cx: &mut Cx) -> Check {
    let kind = cx.src.below(4);
    let replace = cx.src.below(2) == 1;
    ev!(cx, "kind {kind} replace {replace}");
    let mut disk = Disk {
        room: 1 << 20,
        ..Disk::default()
    };
    let mut doc = Doc::new(kind, &mut cx.src);
    // The last document that was acknowledged and synced, and the one whose store was started last.
    let mut acked: Option<Version> = None;
    let mut tried: Option<Version> = None;
    let steps = cx.src.range(2, if cx.thorough { 24 } else { 12 });
    for step in 0..=steps {
        let last = step == steps;
        equal(
            "edited document differs from the model",
            &doc.actual(),
            &doc.expected(),
            b"",
        )?;
        match if last {
            3
        } else {
            cx.src.weighted(&[4, 3, 2, 2, 1])
        } {
            0 => {
                // Store, maybe crash on the way.
                let mut cfg = FmtCfg::gen(&mut cx.src);
                // Identifier keys replace string keys when asked for: another document in the structural view.
                cfg.ident_keys &= kind != 0;
                let way = cx.src.below(6);
                let (text, ends) = match doc.text(&cfg, way) {
                    Ok(t) => t,
                    Err(e) => return violation("store", format!("{e}\n{:?}", doc.expected())),
                };
                ev!(cx, "store {cfg:?} {way} {}", String::from_utf8_lossy(&text));
                cx.nontrivial = true;
                let version = || Version {
                    doc: doc.clone(),
                    entries: doc.expected(),
                    text: text.clone(),
                    ends: ends.clone(),
                };
                let file = if replace { "conf.tmp" } else { "conf" };
                tried = Some(version());
                let fail = match cx.src.weighted(&[6, 2, 2, 1]) {
                    0 => None,
                    1 => Some((cx.src.below(text.len() + 1), Fail::Panic)),
                    2 => Some((cx.src.below(text.len() + 1), gen_fail(&mut cx.src))),
                    _ => {
                        disk.room = cx.src.below(text.len() + 1);
                        cx.fault("disk_full");
                        None
                    }
                };
                ev!(cx, "fail {fail:?} room {}", disk.room);
                let mut f = File::create(&mut disk, file, &mut cx.src, fail);
                let res = catch_unwind(AssertUnwindSafe(|| doc.write(&cfg, way, &mut f)));
                let (failed, interrupted, short) = (f.failed, f.interrupted, f.short);
                for (kind, n) in [("write_interrupted", interrupted), ("short_write", short)] {
                    if n > 0 {
                        cx.fault(kind);
                    }
                }
                disk.room = 1 << 20;
                let written = disk.view.get(file).cloned().unwrap_or_default();
                match res {
                    Ok(Ok(())) => {
                        if failed > 0 || written != text {
                            return violation(
                                "acknowledged",
                                format!(
                                    "store reported success after {failed} failures with\n{:?}\nwritten instead of\n{:?}",
                                    String::from_utf8_lossy(&written),
                                    String::from_utf8_lossy(&text)
                                ),
                            );
                        }
                        // Crash before the sync, between sync and rename, or afterwards.
                        let crash = cx.src.weighted(&[5, 1, 1]);
                        if crash == 1 {
                            cx.fault("crash_before_sync");
                            disk.crash(&mut cx.src);
                            recover(cx, kind, &mut disk, &mut doc, &acked, &tried)?;
                            continue;
                        }
                        disk.sync(file);
                        if replace {
                            disk.rename(file, "conf");
                            if crash == 2 {
                                cx.fault("crash_before_rename_is_durable");
                                disk.crash(&mut cx.src);
                                recover(cx, kind, &mut disk, &mut doc, &acked, &tried)?;
                                continue;
                            }
                            disk.sync("conf");
                            disk.durable.remove(file);
                        }
                        acked = Some(version());
                        cx.probe("acknowledged_store");
                    }
                    Ok(Err(e)) => {
                        ev!(cx, "store failed: {e}");
                        if failed == 0 {
                            return violation(
                                "store",
                                format!("{e} without a fault\n{:?}", doc.expected()),
                            );
                        }
                        cx.fault("write_error");
                        if !text.starts_with(&written) {
                            return violation(
                                "prefix",
                                format!("{:?}", String::from_utf8_lossy(&written)),
                            );
                        }
                    }
                    Err(p) if is_injected(&*p) => {
                        cx.fault("power_loss_in_write");
                        disk.crash(&mut cx.src);
                        recover(cx, kind, &mut disk, &mut doc, &acked, &tried)?;
                    }
                    Err(_) => return violation("panic", crate::runner::last_panic()),
                }
            }
            1 => {
                doc.modify(cx);
                ev!(cx, "modified {:?}", doc.expected());
            }
            2 => {
                let f = *cx.src.pick(&["conf", "conf.tmp"]);
                disk.write_back(&mut cx.src, f);
                cx.fault("background_write_back");
                ev!(cx, "write back {f}");
            }
            3 => {
                cx.fault("crash_idle");
                disk.crash(&mut cx.src);
                recover(cx, kind, &mut disk, &mut doc, &acked, &tried)?;
            }
            _ => {
                // Load without a crash: the page cache is coherent.
                let conf = disk.view.get("conf").cloned();
                check(cx, kind, conf, &mut doc, &acked, &tried)?;
            }
        }
    }
    Ok(())
}

fn recover(
    cx: &mut Cx,
    kind: usize,
    disk: &mut Disk,
    doc: &mut Doc,
    acked: &Option<Version>,
    tried: &Option<Version>,
) -> Check {
    let conf = disk.view.get("conf").cloned();
    ev!(
        cx,
        "recover {:?}",
        conf.as_deref().map(String::from_utf8_lossy)
    );
    check(cx, kind, conf, doc, acked, tried)
}

/// Loads the file and continues with what it holds.
fn check(
    cx: &mut Cx,
    kind: usize,
    conf: Option<Vec<u8>>,
    doc: &mut Doc,
    acked: &Option<Version>,
    tried: &Option<Version>,
) -> Check {
    let Some(bytes) = conf else {
        if acked.is_some() {
            return violation("harness", "the file is gone");
        }
        return Ok(());
    };
    for v in [acked, tried].into_iter().flatten() {
        if bytes != v.text {
            continue;
        }
        // The document is there in full.
        match load(cx, kind, &bytes, &v.doc)? {
            Read::Failed => {
                let e = hcl::from_slice::<hcl::Body>(&bytes)
                    .err()
                    .map(|e| e.to_string());
                return violation(
                    "lost",
                    format!(
                        "the stored document is rejected ({e:?}):\n{}",
                        String::from_utf8_lossy(&bytes)
                    ),
                );
            }
            Read::Entries(got, new) => {
                equal("recovered", &got, &v.entries, &bytes)?;
                if kind == 3 || kind == 0 {
                    // The structural and the format-preserving view agree.
                    let text = String::from_utf8_lossy(&bytes);
                    match (hcl::parse(&text), text.parse::<hcl_edit::structure::Body>()) {
                        (Ok(a), Ok(b)) => {
                            equal("structural view", &structures(&a), &v.entries, &bytes)?;
                            equal(
                                "tree view",
                                &b.iter().map(entry_edit).collect::<Vec<_>>(),
                                &v.entries,
                                &bytes,
                            )?;
                        }
                        (a, b) => {
                            return violation("lost", format!("{:?} {:?} {text}", a.err(), b.err()))
                        }
                    }
                }
                cx.probe("recovered_whole_document");
                *doc = match (new, &v.doc) {
                    (Doc::Struct(l, _), Doc::Struct(_, b)) => Doc::Struct(l, b.clone()),
                    (Doc::Edit(l, _), Doc::Edit(_, b)) => Doc::Edit(l, b.clone()),
                    (Doc::Value(l, _), Doc::Value(_, x)) => Doc::Value(l, x.clone()),
                    (Doc::Typed(l, _), Doc::Typed(_, x)) => Doc::Typed(l, x.clone()),
                    _ => unreachable!(),
                };
                return Ok(());
            }
        }
    }
    let Some(v) = tried else {
        return violation("harness", "a file without a store");
    };
    // An earlier store that was never acknowledged may be what is left.
    if !v.text.starts_with(&bytes) {
        cx.probe("leftover_of_an_earlier_store");
        return Ok(());
    }
    torn(cx, kind, &bytes, v)?;
    Ok(())
}
