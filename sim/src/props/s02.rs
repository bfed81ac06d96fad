//! S02: writing to a stream delivers exactly the formatted text or an error.

use crate::canon;
use crate::cx::{is_injected, violation, Check, Cx};
use crate::ev;
use crate::gen::{Cfg, G};
use crate::io::{gen_fail, Chunks, Fail, SimWriter};
use crate::model::render_body;
use crate::runner::{no_known, Prop};
use hcl::format::{Format, Formatter, FormatterBuilder};
use hcl::ser::Serializer;
use std::collections::BTreeMap;
use std::io::{ErrorKind, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub static PROP: Prop = Prop {
    id: "S02",
    run,
    runs: (270_000, 4_000_000),
    rule: "a run formats and serializes parts of a generated document (every printable type, a chosen formatter \
           configuration) into a simulated stream with chosen short writes, interruptions and a failure at a chosen \
           or every byte position; non-trivial if the document has an entry; counted by the hash over documents, \
           calls, faults and results",
    real: &["hcl-rs (format, ser)", "hcl-edit (printing of templates)", "std::io::Write::write_all"],
    stubs: &["the byte stream (simulated writer)"],
    assumptions: &["a formatter is not used again after one of its writes failed"],
    known: no_known,
    stack_mb: 64,
    hang_s: 60,
    workers: 8,
};

#[derive(Clone, Debug)]
pub struct FmtCfg {
    indent: &'static [u8],
    dense: bool,
    compact_arrays: bool,
    compact_objects: bool,
    pub ident_keys: bool,
    default: bool,
}

impl FmtCfg {
    pub fn gen(src: &mut crate::choice::Src) -> FmtCfg {
        if src.below(3) == 0 {
            return FmtCfg {
                indent: b"  ",
                dense: false,
                compact_arrays: false,
                compact_objects: false,
                ident_keys: false,
                default: true,
            };
        }
        let b = src.below(16);
        FmtCfg {
            indent: *src.pick(&[b"  " as &[u8], b"", b"\t", b"    ", b" "]),
            dense: b & 1 > 0,
            compact_arrays: b & 2 > 0,
            compact_objects: b & 4 > 0,
            ident_keys: b & 8 > 0,
            default: false,
        }
    }

    pub fn builder(&self) -> FormatterBuilder<'static> {
        let mut b = Formatter::builder();
        if self.default {
            return b;
        }
        b = b
            .indent(self.indent)
            .dense(self.dense)
            .prefer_ident_keys(self.ident_keys);
        if self.compact_arrays == self.compact_objects {
            b.compact(self.compact_arrays)
        } else {
            b.compact_arrays(self.compact_arrays)
                .compact_objects(self.compact_objects)
        }
    }
}

/// Something that can be written to a stream in several ways.
trait Item {
    fn describe(&self) -> String;
    /// The in-memory result, through every in-memory way.
    fn text(&self, cfg: &FmtCfg) -> Result<Vec<u8>, String>;
    fn ways(&self, cfg: &FmtCfg) -> usize;
    fn write(&self, cfg: &FmtCfg, way: usize, w: &mut SimWriter) -> hcl::Result<()>;
}

fn same(name: &str, a: &[u8], b: &[u8]) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    Err(format!(
        "in-memory variants disagree ({name}):\n{}\n----\n{}",
        String::from_utf8_lossy(a),
        String::from_utf8_lossy(b)
    ))
}

struct F<'a, T: ?Sized>(&'static str, &'a T);

impl<T: Format + ?Sized> Item for F<'_, T> {
    fn describe(&self) -> String {
        format!("format {}", self.0)
    }

    fn text(&self, cfg: &FmtCfg) -> Result<Vec<u8>, String> {
        let err = |e: hcl::Error| format!("in-memory formatting failed: {e}");
        let v = self
            .1
            .format_vec(&mut cfg.builder().build_vec())
            .map_err(err)?;
        let s = self
            .1
            .format_string(&mut cfg.builder().build_vec())
            .map_err(err)?;
        same("string", &v, s.as_bytes())?;
        let mut f = cfg.builder().build(Vec::new());
        self.1.format(&mut f).map_err(err)?;
        same("into_inner", &v, &f.into_inner())?;
        if cfg.default {
            same(
                "to_string",
                &v,
                hcl::format::to_string(self.1).map_err(err)?.as_bytes(),
            )?;
            same("to_vec", &v, &hcl::format::to_vec(self.1).map_err(err)?)?;
            same(
                "default",
                &v,
                &self.1.format_vec(&mut Formatter::default()).map_err(err)?,
            )?;
        }
        if std::str::from_utf8(&v).is_err() {
            return Err("the text is not UTF-8".into());
        }
        Ok(v)
    }

    fn ways(&self, cfg: &FmtCfg) -> usize {
        if cfg.default {
            5
        } else {
            3
        }
    }

    fn write(&self, cfg: &FmtCfg, way: usize, w: &mut SimWriter) -> hcl::Result<()> {
        match way {
            0 => self.1.format(&mut cfg.builder().build(w)),
            1 => {
                let w: Box<dyn Write + '_> = Box::new(w);
                self.1.format(&mut cfg.builder().build(w))
            }
            2 => {
                let mut f = cfg.builder().build(w);
                let r = self.1.format(&mut f);
                f.into_inner().flush()?;
                r
            }
            3 => hcl::format::to_writer(w, self.1),
            _ => self.1.format(&mut Formatter::new(w)),
        }
    }
}

struct S<'a, T: ?Sized>(&'static str, &'a T);

impl<T: serde::Serialize + ?Sized> Item for S<'_, T> {
    fn describe(&self) -> String {
        format!("serialize {}", self.0)
    }

    fn text(&self, cfg: &FmtCfg) -> Result<Vec<u8>, String> {
        let err = |e: hcl::Error| format!("in-memory serialization failed: {e}");
        let v = Serializer::with_formatter(cfg.builder().build_vec())
            .serialize_vec(self.1)
            .map_err(err)?;
        let s = Serializer::with_formatter(cfg.builder().build_vec())
            .serialize_string(self.1)
            .map_err(err)?;
        same("string", &v, s.as_bytes())?;
        let mut ser = Serializer::with_formatter(cfg.builder().build(Vec::new()));
        ser.serialize(self.1).map_err(err)?;
        same("into_inner", &v, &ser.into_inner())?;
        if cfg.default {
            same(
                "to_string",
                &v,
                hcl::to_string(self.1).map_err(err)?.as_bytes(),
            )?;
            same("to_vec", &v, &hcl::to_vec(self.1).map_err(err)?)?;
        }
        Ok(v)
    }

    fn ways(&self, cfg: &FmtCfg) -> usize {
        if cfg.default {
            4
        } else {
            2
        }
    }

    fn write(&self, cfg: &FmtCfg, way: usize, w: &mut SimWriter) -> hcl::Result<()> {
        match way {
            0 => Serializer::with_formatter(cfg.builder().build(w)).serialize(self.1),
            1 => {
                let w: Box<dyn Write + '_> = Box::new(w);
                let mut ser = Serializer::with_formatter(cfg.builder().build(w));
                let r = ser.serialize(self.1);
                let _inner = ser.into_inner();
                r
            }
            2 => hcl::to_writer(w, self.1),
            _ => Serializer::new(w).serialize(self.1),
        }
    }
}

/// Several values through one formatter.
struct Seq<'a>(Vec<&'a hcl::Structure>);

impl Item for Seq<'_> {
    fn describe(&self) -> String {
        format!("format {} structures one after the other", self.0.len())
    }
    fn text(&self, cfg: &FmtCfg) -> Result<Vec<u8>, String> {
        let mut f = cfg.builder().build_vec();
        for s in &self.0 {
            s.format(&mut f).map_err(|e| e.to_string())?;
        }
        let whole = f.into_inner();
        // The body of these structures is formatted the same way.
        let body: hcl::Body = self.0.iter().map(|s| (*s).clone()).collect();
        same(
            "body",
            &whole,
            &body
                .format_vec(&mut cfg.builder().build_vec())
                .map_err(|e| e.to_string())?,
        )?;
        Ok(whole)
    }
    fn ways(&self, _: &FmtCfg) -> usize {
        1
    }
    fn write(&self, cfg: &FmtCfg, _: usize, w: &mut SimWriter) -> hcl::Result<()> {
        let mut f = cfg.builder().build(w);
        for s in &self.0 {
            s.format(&mut f)?;
        }
        Ok(())
    }
}

fn attempt(
    cx: &mut Cx,
    it: &dyn Item,
    cfg: &FmtCfg,
    text: &[u8],
    way: usize,
    fail: Option<(usize, Fail)>,
    chunks: Chunks,
    sticky: bool,
) -> Check {
    let mut w = SimWriter::new(chunks, fail, sticky);
    let res = catch_unwind(AssertUnwindSafe(|| it.write(cfg, way, &mut w)));
    ev!(
        cx,
        "{} way {way} fail {fail:?} sticky {sticky}: {} bytes in {} calls, {} interrupts, {} short, {} failures: {}",
        it.describe(),
        w.accepted.len(),
        w.stats.calls,
        w.stats.interrupts,
        w.stats.short,
        w.stats.failures,
        match &res {
            Ok(Ok(())) => "ok".to_string(),
            Ok(Err(e)) => format!("error {e}"),
            Err(_) => "panic".into(),
        }
    );
    if w.stats.interrupts > 0 {
        cx.fault("write_interrupted");
    }
    if w.stats.short > 0 {
        cx.fault("short_write");
    }
    let what = it.describe();
    if !text.starts_with(&w.accepted) {
        return violation(
            "not-a-prefix",
            format!(
                "{what} way {way} fail {fail:?}: accepted\n{}\n---- text\n{}",
                String::from_utf8_lossy(&w.accepted),
                String::from_utf8_lossy(text)
            ),
        );
    }
    match fail {
        Some((at, f)) if at < text.len() => {
            let kind = match f {
                Fail::Kind(k, _) => k,
                Fail::Zero => ErrorKind::WriteZero,
                Fail::Panic => {
                    cx.fault("write_panic");
                    return match res {
                        Err(p) if is_injected(&*p) => Ok(()),
                        Err(p) => std::panic::resume_unwind(p),
                        Ok(r) => violation(
                            "panic-lost",
                            format!("{what}: the writer panicked, got {r:?}"),
                        ),
                    };
                }
            };
            cx.fault("write_error");
            match &res {
                Ok(Err(hcl::Error::Io(e))) if e.kind() == kind => Ok(()),
                Ok(r) => violation(
                    "error-lost",
                    format!("{what} way {way}: failed with {kind:?} at {at}, got {r:?}"),
                ),
                Err(_) => violation(
                    "panic",
                    format!("{what}: panicked: {}", crate::runner::last_panic()),
                ),
            }
        }
        _ => match &res {
            Ok(Ok(())) if w.accepted.len() == text.len() => Ok(()),
            Ok(Ok(())) => violation(
                "incomplete",
                format!(
                    "{what} way {way}: success after {} of {} bytes",
                    w.accepted.len(),
                    text.len()
                ),
            ),
            Ok(Err(e)) => violation("spurious", format!("{what} way {way}: {e}")),
            Err(_) => violation(
                "panic",
                format!("{what}: panicked: {}", crate::runner::last_panic()),
            ),
        },
    }
}

fn exercise(cx: &mut Cx, it: &dyn Item) -> Check {
    let cfg = FmtCfg::gen(&mut cx.src);
    let text = match it.text(&cfg) {
        Ok(t) => t,
        Err(e) => return violation("in-memory", format!("{} {cfg:?}: {e}", it.describe())),
    };
    ev!(
        cx,
        "{} {cfg:?}: {}",
        it.describe(),
        String::from_utf8_lossy(&text)
    );
    let way = cx.src.below(it.ways(&cfg));
    if text.len() < 160 && cx.src.chance(1, 6) {
        // Every position.
        cx.probe("every_position");
        let f = gen_fail(&mut cx.src);
        let chunks = Chunks::gen(&mut cx.src);
        let sticky = cx.src.below(2) == 0;
        for at in 0..=text.len() {
            attempt(
                cx,
                it,
                &cfg,
                &text,
                way,
                Some((at, f)),
                chunks.clone(),
                sticky,
            )?;
        }
    } else {
        for _ in 0..cx.src.range(1, 3) {
            let chunks = Chunks::gen(&mut cx.src);
            let fail = match cx.src.below(4) {
                0 => None,
                1 if cx.src.chance(1, 4) => Some((cx.src.below(text.len() + 1), Fail::Panic)),
                // The last bytes.
                2 => Some((
                    text.len().saturating_sub(cx.src.below(4)),
                    gen_fail(&mut cx.src),
                )),
                _ => Some((cx.src.below(text.len() + 1), gen_fail(&mut cx.src))),
            };
            let sticky = cx.src.below(2) == 0;
            attempt(cx, it, &cfg, &text, way, fail, chunks, sticky)?;
        }
    }
    // A failure leaves nothing behind.
    match it.text(&cfg) {
        Ok(t) if t == text => Ok(()),
        Ok(t) => violation(
            "changed",
            format!(
                "{}:\n{}\n----\n{}",
                it.describe(),
                String::from_utf8_lossy(&text),
                String::from_utf8_lossy(&t)
            ),
        ),
        Err(e) => violation("in-memory", format!("{}: {e}", it.describe())),
    }
}

/// An expression of the document, in evaluation order.
fn exprs<'a>(b: &'a hcl::Body, out: &mut Vec<&'a hcl::Expression>) {
    for s in b.iter() {
        match s {
            hcl::Structure::Attribute(a) => sub(&a.expr, out),
            hcl::Structure::Block(b) => exprs(&b.body, out),
        }
    }
}

fn sub<'a>(e: &'a hcl::Expression, out: &mut Vec<&'a hcl::Expression>) {
    use hcl::Expression as X;
    out.push(e);
    match e {
        X::Array(a) => a.iter().for_each(|e| sub(e, out)),
        X::Object(o) => o.iter().for_each(|(k, e)| {
            if let hcl::expr::ObjectKey::Expression(k) = k {
                sub(k, out);
            }
            sub(e, out);
        }),
        X::Parenthesis(e) => sub(e, out),
        X::FuncCall(c) => c.args.iter().for_each(|e| sub(e, out)),
        X::Conditional(c) => {
            sub(&c.cond_expr, out);
            sub(&c.true_expr, out);
            sub(&c.false_expr, out);
        }
        X::Operation(o) => match &**o {
            hcl::expr::Operation::Unary(u) => sub(&u.expr, out),
            hcl::expr::Operation::Binary(b) => {
                sub(&b.lhs_expr, out);
                sub(&b.rhs_expr, out);
            }
        },
        X::Traversal(t) => {
            sub(&t.expr, out);
            for op in &t.operators {
                if let hcl::expr::TraversalOperator::Index(e) = op {
                    sub(e, out);
                }
            }
        }
        X::ForExpr(f) => {
            sub(&f.collection_expr, out);
            sub(&f.value_expr, out);
        }
        _ => {}
    }
}

#[derive(serde::Serialize)]
struct Custom<'a> {
    first: Option<i64>,
    #[serde(serialize_with = "hcl::ser::block")]
    blk: Inner<'a>,
    list: Vec<&'a hcl::Expression>,
    #[serde(serialize_with = "hcl::ser::labeled_block")]
    labeled: BTreeMap<String, Inner<'a>>,
    tail: (u8, f64, char, bool, ()),
    kind: Kind<'a>,
}

#[derive(serde::Serialize)]
struct Inner<'a> {
    text: &'a str,
    value: &'a hcl::Value,
}

#[derive(serde::Serialize)]
enum Kind<'a> {
    Unit,
    New(&'a str),
    Tuple(u8, &'a str),
    Struct { x: i8, y: &'a hcl::Value },
}

fn expression(cx: &mut Cx, e: &hcl::Expression) -> Check {
    use hcl::Expression as X;
    match e {
        X::String(s) => exercise(cx, &F("String", s)),
        X::Number(n) => exercise(cx, &F("Number", n)),
        X::Object(o) => match o.keys().next() {
            Some(k) => exercise(cx, &F("ObjectKey", k)),
            None => exercise(cx, &F("Expression", e)),
        },
        X::TemplateExpr(t) => {
            if cx.src.below(2) == 0 {
                exercise(cx, &F("TemplateExpr", &**t))?;
            }
            if let hcl::expr::TemplateExpr::Heredoc(h) = &**t {
                exercise(cx, &F("Heredoc", h))?;
            }
            let Ok(t) = hcl::Template::from_expr(t) else {
                return violation("template", format!("{t:?}"));
            };
            for el in t.elements() {
                match el {
                    hcl::template::Element::Interpolation(i) => {
                        exercise(cx, &F("Interpolation", i))?
                    }
                    hcl::template::Element::Directive(d) => match &**d {
                        hcl::template::Directive::If(i) => exercise(cx, &F("IfDirective", i))?,
                        hcl::template::Directive::For(f) => exercise(cx, &F("ForDirective", f))?,
                    },
                    _ => {}
                }
            }
            exercise(cx, &F("Template", &t))
        }
        X::Variable(v) => {
            exercise(cx, &F("Variable", v))?;
            exercise(cx, &F("Identifier", &**v))
        }
        X::Traversal(t) => {
            let i = cx.src.below(t.operators.len());
            exercise(cx, &F("TraversalOperator", &t.operators[i]))?;
            exercise(cx, &F("Traversal", &**t))
        }
        X::FuncCall(c) => {
            exercise(cx, &F("FuncName", &c.name))?;
            exercise(cx, &F("FuncCall", &**c))
        }
        X::Conditional(c) => exercise(cx, &F("Conditional", &**c)),
        X::Operation(o) => exercise(cx, &F("Operation", &**o)),
        X::ForExpr(f) => exercise(cx, &F("ForExpr", &**f)),
        _ => exercise(cx, &F("Expression", e)),
    }
}

/// Identifier keys and equal string keys are the same when identifier keys are preferred.
fn keys(canon: &str) -> String {
    let plain = canon.replace(['`', '"'], "");
    // Strings are escaped in canonical texts, identifiers are not.
    let mut out = String::new();
    let mut rest = plain.as_str();
    while let Some((head, tail)) = rest.split_once("\\u{") {
        out.push_str(head);
        rest = tail;
        if let Some((hex, tail)) = tail.split_once('}') {
            if let Some(c) = u32::from_str_radix(hex, 16).ok().and_then(char::from_u32) {
                out.push(c);
                rest = tail;
            }
        }
    }
    out + rest
}

/// Only objects are documents.
fn object(v: &hcl::Value) -> hcl::Value {
    match v {
        hcl::Value::Object(_) => v.clone(),
        _ => hcl::Value::Object(Default::default()),
    }
}

fn run(cx: &mut Cx) -> Check {
    let literal = cx.src.chance(1, 4);
    let b = G::new(
        &mut cx.src,
        Cfg {
            trivia: false,
            literal,
            ..Cfg::default()
        },
    )
    .doc();
    cx.nontrivial = !b.items.is_empty();
    let source = render_body(&b);
    ev!(cx, "document {source}");
    let body = match hcl::parse(&source) {
        Ok(b) => b,
        Err(e) => return violation("parse", format!("{e}\n{source}")),
    };
    let mut all = Vec::new();
    exprs(&body, &mut all);
    exercise(cx, &F("Body", &body))?;
    for _ in 0..cx.src.range(1, 4) {
        match cx.src.below(9) {
            0 => exercise(cx, &S("Body", &body))?,
            1 => exercise(cx, &Seq(body.iter().collect()))?,
            2 if body.iter().next().is_some() => {
                let i = cx.src.below(body.iter().count());
                let s = body.iter().nth(i).unwrap();
                exercise(cx, &F("Structure", s))?;
                match s {
                    hcl::Structure::Attribute(a) => exercise(cx, &F("Attribute", a))?,
                    hcl::Structure::Block(b) => {
                        exercise(cx, &F("Block", b))?;
                        if let Some(l) = b.labels.first() {
                            exercise(cx, &F("BlockLabel", l))?;
                        }
                    }
                }
            }
            3..=5 if !all.is_empty() => {
                let e = all[cx.src.below(all.len())];
                expression(cx, e)?;
            }
            6 => {
                // Objects with keys other than strings have no value.
                let v: hcl::Value = hcl::from_body(body.clone()).unwrap_or_default();
                exercise(cx, &F("Value", &v))?;
                if cx.src.below(2) == 0 {
                    exercise(cx, &S("Value", &object(&v)))?;
                } else if let Ok(j) = serde_json::to_value(object(&v)) {
                    exercise(cx, &S("serde_json::Value", &j))?;
                }
            }
            7 => {
                let v: hcl::Value = hcl::from_body(body.clone()).unwrap_or_default();
                let text = G::new(&mut cx.src, Cfg::default()).string();
                let label = G::new(&mut cx.src, Cfg::default()).string();
                let kind = match cx.src.below(4) {
                    0 => Kind::Unit,
                    1 => Kind::New(&text),
                    2 => Kind::Tuple(3, &text),
                    _ => Kind::Struct { x: -3, y: &v },
                };
                let n = cx.src.below(3);
                let custom = Custom {
                    first: if cx.src.below(2) == 0 { None } else { Some(-5) },
                    blk: Inner {
                        text: &text,
                        value: &v,
                    },
                    list: all.iter().take(n).copied().collect(),
                    labeled: [(
                        label,
                        Inner {
                            text: "x",
                            value: &v,
                        },
                    )]
                    .into_iter()
                    .collect(),
                    tail: (1, 1.5, 'ö', true, ()),
                    kind,
                };
                exercise(cx, &S("custom type", &custom))?;
            }
            _ => exercise(cx, &F("&Body", &&body))?,
        }
    }
    // Reading back what was written gives the document.
    let mut cfg = FmtCfg::gen(&mut cx.src);
    // The keys `a` and `"a"` of one object become the same when identifier keys are preferred.
    let clash = all.iter().any(|e| match e {
        hcl::Expression::Object(o) => {
            let names: std::collections::HashSet<String> =
                o.keys().map(|k| k.to_string().replace('"', "")).collect();
            names.len() < o.len()
        }
        _ => false,
    });
    cfg.ident_keys &= literal && !clash;
    let text = body
        .format_string(&mut cfg.builder().build_vec())
        .unwrap_or_default();
    match hcl::parse(&text) {
        Ok(again) if keys(&canon::hcl_body(&again)) == keys(&canon::model_body(&b)) => Ok(()),
        Ok(again) => violation(
            "content",
            format!(
                "{text}\n---- got\n{}\n---- expected\n{}",
                canon::hcl_body(&again),
                canon::model_body(&b)
            ),
        ),
        Err(e) => violation("content", format!("{e}\n{text}")),
    }
}
