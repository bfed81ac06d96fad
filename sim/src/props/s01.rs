//! S01: deserializing from a stream equals deserializing its bytes.

use crate::canon;
use crate::cx::{is_injected, violation, Check, Cx};
use crate::ev;
use crate::gen::{Cfg, G};
use crate::io::{Chunks, Fail, SimReader, KINDS};
use crate::model::{render_body_spelled, Spell, B};
use crate::runner::{no_known, Prop};
use serde::de::{Deserialize, DeserializeOwned, Deserializer, IgnoredAny, MapAccess, Visitor};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub static PROP: Prop = Prop {
    id: "S01",
    run,
    runs: (340_000, 5_000_000),
    rule: "a run delivers up to three generated documents (possibly damaged) through a simulated stream with \
           chosen chunk sizes, interruptions and failures to a chosen target type; non-trivial if at least one \
           document has an entry; counted by the hash over documents, chunking, faults and results",
    real: &["hcl-rs (de, parser, json spec)", "hcl-edit (parser)", "hcl-primitives", "std::io::Read::read_to_string"],
    stubs: &["the byte stream (simulated reader)", "user Deserialize implementations"],
    assumptions: &["end of stream is permanent"],
    known: no_known,
    stack_mb: 64,
    hang_s: 60,
    workers: 8,
};

#[derive(Debug, PartialEq, serde::Deserialize)]
struct Typed {
    #[serde(default)]
    a: Option<hcl::Value>,
    #[serde(default)]
    b: Option<serde_json::Value>,
    #[serde(default)]
    foo: Vec<hcl::Value>,
    #[serde(default)]
    name: String,
    #[serde(default)]
    blk: BTreeMap<String, hcl::Value>,
}

#[derive(Debug, PartialEq, serde::Deserialize)]
#[serde(deny_unknown_fields)]
struct Strict {
    a: u8,
    #[serde(default)]
    b: Option<bool>,
}

/// A user type whose deserialization stops at an entry.
#[derive(Debug, PartialEq)]
struct Stops<const N: usize, const PANIC: bool>(usize);

impl<'de, const N: usize, const PANIC: bool> Deserialize<'de> for Stops<N, PANIC> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vis<const N: usize, const PANIC: bool>;
        impl<'de, const N: usize, const PANIC: bool> Visitor<'de> for Vis<N, PANIC> {
            type Value = Stops<N, PANIC>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                let mut n = 0;
                while let Some(_k) = a.next_key::<String>()? {
                    if n == N {
                        if PANIC {
                            crate::cx::inject_panic();
                        }
                        return Err(serde::de::Error::custom("stopped by the user"));
                    }
                    a.next_value::<IgnoredAny>()?;
                    n += 1;
                }
                Ok(Stops(n))
            }
        }
        d.deserialize_map(Vis::<N, PANIC>)
    }
}

/// The outcome of a call as text.
fn outcome<T>(
    r: std::thread::Result<hcl::Result<T>>,
    show: fn(&T) -> String,
) -> Result<String, Out> {
    match r {
        Ok(Ok(v)) => Ok(show(&v)),
        Ok(Err(e)) => Err(Out::Err(e)),
        Err(p) if is_injected(&*p) => Err(Out::Panic),
        Err(p) => std::panic::resume_unwind(p),
    }
}

enum Out {
    Err(hcl::Error),
    Panic,
}

impl Out {
    fn text(&self) -> String {
        match self {
            Out::Err(e) => format!("error: {e}"),
            Out::Panic => "panic".into(),
        }
    }
}

fn text(r: &Result<String, Out>) -> String {
    match r {
        Ok(s) => format!("ok: {s}"),
        Err(o) => o.text(),
    }
}

struct Session<'a> {
    bytes: &'a [u8],
    utf8: bool,
    fail: Option<(usize, Fail)>,
    chunks: Chunks,
    /// Expected canonical text for the target, where the reference knows it.
    expected: Option<String>,
    by_ref: bool,
}

fn session<T: DeserializeOwned>(cx: &mut Cx, s: Session, show: fn(&T) -> String) -> Check {
    let mut reader = SimReader::new(s.bytes, s.chunks.clone(), s.fail);
    let got = outcome(
        catch_unwind(AssertUnwindSafe(|| {
            if s.by_ref {
                hcl::from_reader::<T, _>(&mut reader)
            } else {
                let r: Box<dyn std::io::Read + '_> = Box::new(&mut reader);
                hcl::from_reader::<T, _>(r)
            }
        })),
        show,
    );
    let (stats, pos) = (reader.stats.clone(), reader.pos);
    ev!(
        cx,
        "read {} calls, {} interrupts, {} short, at {pos}: {}",
        stats.calls,
        stats.interrupts,
        stats.short,
        text(&got)
    );
    for (k, n) in [
        ("read_interrupted", stats.interrupts),
        ("short_read", stats.short),
    ] {
        for _ in 0..n.min(50) {
            cx.fault(k);
        }
    }
    if stats.failures > 0 {
        if let Some((_, Fail::Kind(kind, _))) = s.fail {
            cx.fault("read_error");
            match &got {
                Err(Out::Err(hcl::Error::Io(e))) if e.kind() == kind => {}
                other => {
                    return violation(
                        "read-error-lost",
                        format!("stream failed with {kind:?}, got {}", text(other)),
                    );
                }
            }
            return Ok(());
        }
        if let Some((_, Fail::Panic)) = s.fail {
            cx.fault("read_panic");
            if !matches!(got, Err(Out::Panic)) {
                return violation("panic-lost", format!("stream panicked, got {}", text(&got)));
            }
            return Ok(());
        }
    } else if pos < s.bytes.len() {
        return violation(
            "bytes-ignored",
            format!("{pos} of {} bytes read, got {}", s.bytes.len(), text(&got)),
        );
    }
    let delivered = &s.bytes[..pos];
    let whole = outcome(
        catch_unwind(AssertUnwindSafe(|| hcl::from_slice::<T>(delivered))),
        show,
    );
    match std::str::from_utf8(delivered) {
        Err(_) => {
            cx.probe("not_utf8");
            if !matches!(got, Err(Out::Err(_))) || !matches!(whole, Err(Out::Err(_))) {
                return violation(
                    "utf8",
                    format!("not UTF-8, but got {} / {}", text(&got), text(&whole)),
                );
            }
        }
        Ok(t) => {
            if text(&got) != text(&whole) {
                return violation(
                    "differs",
                    format!("stream: {}\nslice: {}", text(&got), text(&whole)),
                );
            }
            let string = outcome(
                catch_unwind(AssertUnwindSafe(|| hcl::from_str::<T>(t))),
                show,
            );
            if text(&got) != text(&string) {
                return violation(
                    "differs",
                    format!("stream: {}\nstring: {}", text(&got), text(&string)),
                );
            }
            if let (true, Some(e)) = (s.utf8 && delivered.len() == s.bytes.len(), &s.expected) {
                if got.as_ref().ok() != Some(e) {
                    return violation("value", format!("got {}\nexpected {e}\nof {t}", text(&got)));
                }
                cx.probe("checked_against_reference");
            }
        }
    }
    // The stream is at its end: another read sees an empty document.
    if stats.failures == 0 {
        let again = hcl::from_reader::<hcl::Body, _>(&mut reader);
        if !matches!(&again, Ok(b) if b.iter().next().is_none()) {
            return violation("again", format!("after the end: {again:?}"));
        }
    }
    Ok(())
}

fn damage(cx: &mut Cx, bytes: &mut Vec<u8>) {
    let at = cx.src.below(bytes.len());
    match cx.src.below(4) {
        0 => {
            bytes.truncate(at);
            cx.fault("lost_tail");
        }
        1 => {
            bytes[at] ^= 1 << cx.src.below(8);
            cx.fault("bit_flip");
        }
        2 => {
            let b = *cx
                .src
                .pick(&[0xffu8, 0xc3, 0x80, 0xed, 0xa0, 0xfe, 0, b'"', b'{', b'\n']);
            bytes.insert(at, b);
            cx.fault("byte_inserted");
        }
        _ => {
            let end = (at + 1 + cx.src.below(8)).min(bytes.len());
            bytes.drain(at..end);
            cx.fault("bytes_lost");
        }
    }
}

/// Literals at the edges of what can be represented, read from a stream: numbers of many digits and escaped
/// characters. `None`: nothing is denoted, the document is to be rejected.
fn edge_literal(cx: &mut Cx) -> (String, Option<String>) {
    let digits = |cx: &mut Cx| -> String {
        match cx.src.below(4) {
            0 => {
                let near = [
                    u64::MAX as u128,
                    i64::MAX as u128,
                    1 << 53,
                    u32::MAX as u128,
                    10u128.pow(19),
                    u128::MAX / 2,
                ];
                (near[cx.src.below(near.len())] - 2 + cx.src.below(5) as u128).to_string()
            }
            1 => format!("{}{}", "0".repeat(cx.src.below(30)), cx.src.below(1000)),
            _ => {
                let n = *cx.src.pick(&[1usize, 2, 17, 19, 20, 21, 40, 310]);
                (0..n).map(|_| char::from(b'0' + cx.src.below(10) as u8)).collect()
            }
        }
    };
    match cx.src.below(3) {
        0 => {
            let t = digits(cx);
            let n = t.parse::<u64>().ok();
            // Beyond the range of integers, a float is as good as a rejection.
            (t.clone(), n.map(|n| format!("Number({n})")).or(Some(format!("~{t}"))))
        }
        1 => {
            let mut t = digits(cx);
            let fraction = cx.src.below(2) == 0;
            if fraction {
                t = format!("{t}.{}", digits(cx));
            }
            if !fraction || cx.src.below(2) == 0 {
                let e = *cx.src.pick(&["e", "E", "e+", "E-", "e-"]);
                t = format!("{t}{e}{}", cx.src.pick(&[0usize, 1, 2, 15, 22, 100, 307, 308, 309, 400]));
            }
            let denoted = Some(format!("~{t}"));
            (t, denoted)
        }
        _ => {
            let code: u32 = match cx.src.below(5) {
                0 => cx.src.below(0x20) as u32,
                1 => 0xd800 + cx.src.below(0x800) as u32,
                2 => cx.src.below(0x11_0000) as u32,
                3 => 0x11_0000 + cx.src.below(0x10_0000) as u32,
                _ => *cx.src.pick(&[0x7f, 0xff, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x1_0000, 0x10_ffff]),
            };
            let mut hex = if code < 0x1_0000 && cx.src.below(2) == 0 {
                format!("u{code:04x}")
            } else {
                format!("U{code:08x}")
            };
            if cx.src.below(2) == 0 {
                hex = format!("{}{}", &hex[..1], hex[1..].to_uppercase());
            }
            let denoted = char::from_u32(code).map(|c| format!("String({:?})", format!("x{c}1")));
            (format!("\"x\\{hex}1\""), denoted)
        }
    }
}

fn edge(cx: &mut Cx) -> Check {
    let (text, denoted) = edge_literal(cx);
    let doc = format!("a = {text}\n");
    let mut reader = SimReader::new(doc.as_bytes(), Chunks::gen(&mut cx.src), None);
    let got = hcl::from_reader::<hcl::Map<String, hcl::Value>, _>(&mut reader);
    ev!(cx, "literal {doc} gives {got:?}");
    cx.probe("edge_literal");
    let value = got.ok().and_then(|m| m.get("a").cloned());
    let float = denoted.as_ref().and_then(|d| d.strip_prefix('~')).map(|t| t.parse::<f64>().unwrap());
    let ok = match (&value, float, &denoted) {
        // Not finite: nothing to represent it with.
        (None, Some(f), _) => !f.is_finite() || !text.contains(['.', 'e', 'E']),
        (Some(hcl::Value::Number(n)), Some(f), _) => n.as_f64() == Some(f),
        (None, None, denoted) => denoted.is_none(),
        (Some(v), None, Some(d)) => match v {
            hcl::Value::Number(n) => format!("Number({n})") == *d && n.as_u64().is_some(),
            hcl::Value::String(s) => format!("String({s:?})") == *d,
            _ => false,
        },
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        violation("value", format!("{doc} denotes {denoted:?}, got {value:?}"))
    }
}

fn run(cx: &mut Cx) -> Check {
    if cx.src.chance(1, 10) {
        edge(cx)?;
    }
    let docs = cx.src.range(1, 3);
    for _ in 0..docs {
        let literal = cx.src.below(2) == 0;
        let b: B = G::new(
            &mut cx.src,
            Cfg {
                literal,
                ..Cfg::default()
            },
        )
        .doc();
        let spell = if cx.src.chance(1, 2) {
            Spell(Some(crate::choice::Rng::new(cx.src.bits())))
        } else {
            Spell(None)
        };
        let mut bytes = render_body_spelled(&b, spell).into_bytes();
        cx.nontrivial |= !b.items.is_empty();
        if cx.src.chance(1, 20) {
            // Larger than any buffer a reader might use.
            let n = *cx.src.pick(&[4000usize, 8192, 40_000, 70_000]);
            bytes.splice(
                0..0,
                std::iter::once(b'#')
                    .chain(std::iter::repeat(b'x').take(n))
                    .chain([b'\n']),
            );
            cx.probe("large_document");
        }
        let mut utf8 = true;
        if !bytes.is_empty() && cx.src.chance(1, 3) {
            for _ in 0..cx.src.range(1, 2) {
                if !bytes.is_empty() {
                    damage(cx, &mut bytes);
                    utf8 = false;
                }
            }
        }
        ev!(cx, "document {}", String::from_utf8_lossy(&bytes));
        for _ in 0..cx.src.range(1, 3) {
            let chunks = Chunks::gen(&mut cx.src);
            let fail = match cx.src.below(4) {
                0 => {
                    let at = cx.src.below(bytes.len() + 1);
                    let kind = *cx.src.pick(&KINDS);
                    Some((at, Fail::Kind(kind, cx.src.below(3))))
                }
                1 if cx.src.chance(1, 6) => Some((cx.src.below(bytes.len() + 1), Fail::Panic)),
                2 if cx.src.chance(1, 3) => Some((cx.src.below(bytes.len() + 1), Fail::Zero)),
                _ => None,
            };
            let target = cx.src.below(11);
            ev!(cx, "target {target} chunks {chunks:?} fail {fail:?}");
            let value = if literal {
                canon::literal_body(&b).map(|v| canon::v(&v))
            } else {
                None
            };
            let mut s = Session {
                bytes: &bytes,
                utf8,
                fail,
                chunks,
                expected: None,
                by_ref: cx.src.below(2) == 0,
            };
            match target {
                0 => {
                    s.expected = Some(canon::model_body(&b));
                    session::<hcl::Body>(cx, s, canon::hcl_body)
                }
                1 => {
                    s.expected = value;
                    session::<hcl::Value>(cx, s, canon::value)
                }
                2 => {
                    s.expected = value;
                    session::<serde_json::Value>(cx, s, canon::json)
                }
                3 => session::<Typed>(cx, s, |t| format!("{t:?}")),
                4 => session::<Strict>(cx, s, |t| format!("{t:?}")),
                5 => session::<BTreeMap<String, hcl::Value>>(cx, s, |t| format!("{t:?}")),
                6 => {
                    s.expected = Some("ignored".into());
                    session::<IgnoredAny>(cx, s, |_| "ignored".into())
                }
                7 => session::<Stops<1, false>>(cx, s, |t| format!("{t:?}")),
                8 => session::<Stops<0, true>>(cx, s, |t| format!("{t:?}")),
                9 => session::<Vec<hcl::Structure>>(cx, s, |t| format!("{t:?}")),
                _ => session::<hcl::Map<String, hcl::Expression>>(cx, s, |t| format!("{t:?}")),
            }?;
        }
    }
    Ok(())
}
