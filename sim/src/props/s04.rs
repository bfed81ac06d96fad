//! S04: damaged documents are rejected or read stably, never crash.

mod spans;

use crate::canon;
use crate::choice::Rng;
use crate::cx::{violation, Check, Cx};
use crate::damage::strike;
use crate::ev;
use crate::gen::{Cfg, G};
use crate::model::{render_body_spelled, render_expr, render_template, Spell};
use crate::runner::Prop;
use hcl_edit::parser;

pub static PROP: Prop = Prop {
    id: "S04",
    run,
    runs: (400_000, 8_000_000),
    rule: "a run strikes generated documents, expressions and templates with up to six storage and transmission \
           faults and reads the result through every reader; non-trivial if at least one fault was injected; counted \
           by the hash over texts, faults and results",
    real: &["hcl-edit (parser, printer)", "hcl-rs (de, format, parser)", "hcl-primitives"],
    stubs: &["storage and transmission (byte damage)"],
    assumptions: &["nesting of the damaged text stays below about 100 levels (see known findings)"],
    known,
    stack_mb: 64,
    hang_s: 30,
    workers: 8,
};

fn known() -> Vec<(String, bool)> {
    vec![crate::known::deep_nesting()]
}

/// Checks an error against the text that was delivered.
fn located(what: &str, text: &str, e: &parser::Error) -> Check {
    let loc = e.location();
    let lines: Vec<&str> = text.split('\n').collect();
    let fail = |why: &str| {
        violation(
            "location",
            format!(
                "{what}: {why}: {loc:?} line {:?}\n{e}\nof {text:?}",
                e.line()
            ),
        )
    };
    let Some(line) = loc.line().checked_sub(1).and_then(|l| lines.get(l)) else {
        return fail("no such line");
    };
    if *line != e.line() {
        return fail("shows another line");
    }
    // One past the end of the line is the line break or the end of the text.
    let chars = line.chars().count();
    if loc.column() < 1 || loc.column() > chars + 2 {
        return fail("no such column");
    }
    if loc.offset() > text.len() {
        return fail("no such offset");
    }
    // The offset is a byte of the same line.
    let start: usize = lines[..loc.line() - 1].iter().map(|l| l.len() + 1).sum();
    if loc.offset() < start || loc.offset() > start + line.len() {
        return fail("the offset is in another line");
    }
    let shown = e.to_string();
    if e.message().is_empty()
        || !shown.contains(e.line())
        || !shown.contains(&format!("line {}, column {}", loc.line(), loc.column()))
        || !shown.contains(e.message())
    {
        return fail("incomplete message");
    }
    Ok(())
}

/// Minus zero is zero: the sign of a zero that is negated once more is not kept.
fn zero_zone(canon: &str) -> bool {
    canon.contains("(- #0)") || canon.contains("(- (trav #0 ")
}

fn stable(
    what: &str,
    text: &str,
    first: &str,
    printed: &str,
    again: Result<String, String>,
) -> Check {
    match again {
        Ok(c) if c == first => Ok(()),
        _ if zero_zone(first) => Ok(()),
        Ok(c) => violation(
            "unstable",
            format!(
                "{what}: {text:?}\nprinted {printed:?}\nread first as\n{first}\nand then as\n{c}"
            ),
        ),
        Err(e) => violation(
            "unstable",
            format!("{what}: {text:?}\nprinted {printed:?}\nwhich is rejected: {e}"),
        ),
    }
}

/// Known finding: indentation of `<<-` heredocs other than with spaces is printed as spaces.
fn indent_zone(text: &str) -> bool {
    text.contains("<<-")
        && text
            .chars()
            .any(|c| c.is_whitespace() && !matches!(c, ' ' | '\t' | '\n'))
}

/// Known finding: a `$` or `%` that ends a literal before a template marker is not escaped.
fn marker_zone(canon: &str) -> bool {
    canon.contains("$\" (") || canon.contains("%\" (")
}

fn body(cx: &mut Cx, text: &str) -> Check {
    let edit: Result<hcl_edit::structure::Body, _> = parser::parse_body(text);
    let again: Result<hcl_edit::structure::Body, _> = text.parse();
    match (&edit, &again) {
        (Ok(a), Ok(b)) if canon::edit_body(a) == canon::edit_body(b) => {}
        (Err(a), Err(b)) if a == b => {}
        _ => return violation("differs", format!("{text:?}: {edit:?} / {again:?}")),
    }
    let structural = hcl::parse(text);
    match &edit {
        Err(e) => {
            cx.probe("rejected");
            ev!(cx, "rejected: {}", e.message());
            located("body", text, e)?;
            match structural {
                Err(hcl::Error::Parse(s)) if s == *e => {}
                other => {
                    return violation(
                        "differs",
                        format!("{text:?}: {e}\nbut structural: {other:?}"),
                    )
                }
            }
            let value: hcl::Result<hcl::Value> = hcl::from_str(text);
            let bytes: hcl::Result<hcl::Body> = hcl::from_slice(text.as_bytes());
            for got in [value.map(|_| ()), bytes.map(|_| ())] {
                match got {
                    Err(hcl::Error::Parse(s)) if s == *e => {}
                    other => return violation("differs", format!("{text:?}: {e}\nbut {other:?}")),
                }
            }
        }
        Ok(b) => {
            cx.probe("accepted");
            let first = canon::edit_body(b);
            let mut spans = spans::Spans::new(text);
            hcl_edit::visit::Visit::visit_body(&mut spans, b);
            if let Some(bad) = spans.bad {
                return violation("span", format!("{bad}\n{text:?}"));
            }
            ev!(cx, "accepted: {first}");
            if marker_zone(&first) || indent_zone(text) {
                cx.probe("known_zone_skipped");
                return Ok(());
            }
            let printed = b.to_string();
            let reread: Result<hcl_edit::structure::Body, _> = printed.parse();
            stable(
                "body",
                text,
                &first,
                &printed,
                match &reread {
                    Ok(r) => Ok(canon::edit_body(r)),
                    Err(e) => Err(e.to_string()),
                },
            )?;
            // The text is a fixed point from then on.
            let twice = reread.unwrap().to_string();
            if twice != printed {
                return violation(
                    "unstable",
                    format!("{text:?}\nprinted {printed:?}\nand then {twice:?}"),
                );
            }
            let structural = match structural {
                Ok(s) => s,
                Err(e) => return violation("differs", format!("{text:?}: structural: {e}")),
            };
            let c = canon::hcl_body(&structural);
            let formatted = match hcl::format::to_string(&structural) {
                Ok(f) => f,
                Err(e) => {
                    return violation("unstable", format!("{text:?}: cannot be printed: {e}"))
                }
            };
            stable(
                "structural",
                text,
                &c,
                &formatted,
                hcl::parse(&formatted)
                    .map(|b| canon::hcl_body(&b))
                    .map_err(|e| e.to_string()),
            )?;
            let value: hcl::Result<hcl::Value> = hcl::from_str(text);
            if let Ok(v) = value {
                if let Ok(printed) = hcl::to_string(&v) {
                    let c = canon::value(&v);
                    let again = hcl::from_str::<hcl::Value>(&printed);
                    // Strings that look like expressions are strings either way.
                    stable(
                        "value",
                        text,
                        &c,
                        &printed,
                        again.map(|v| canon::value(&v)).map_err(|e| e.to_string()),
                    )?;
                }
            }
        }
    }
    Ok(())
}

fn expr(cx: &mut Cx, text: &str) -> Check {
    match text.parse::<hcl_edit::expr::Expression>() {
        Err(e) => {
            cx.probe("rejected");
            ev!(cx, "rejected: {}", e.message());
            located("expression", text, &e)?;
            match text.parse::<hcl::Expression>() {
                Err(hcl::Error::Parse(s)) if s == e => Ok(()),
                other => violation("differs", format!("{text:?}: {e}\nbut {other:?}")),
            }
        }
        Ok(x) => {
            cx.probe("accepted");
            let first = canon::edit_e(&x);
            let mut spans = spans::Spans::new(text);
            hcl_edit::visit::Visit::visit_expr(&mut spans, &x);
            if let Some(bad) = spans.bad {
                return violation("span", format!("{bad}\n{text:?}"));
            }
            ev!(cx, "accepted: {first}");
            if marker_zone(&first) || indent_zone(text) {
                return Ok(());
            }
            let printed = x.to_string();
            let again = printed.parse::<hcl_edit::expr::Expression>();
            stable(
                "expression",
                text,
                &first,
                &printed,
                again.map(|x| canon::edit_e(&x)).map_err(|e| e.to_string()),
            )?;
            let h = match text.parse::<hcl::Expression>() {
                Ok(h) => h,
                Err(e) => return violation("differs", format!("{text:?}: {e}")),
            };
            let c = canon::hcl_e(&h);
            let printed = h.to_string();
            stable(
                "structural expression",
                text,
                &c,
                &printed,
                printed
                    .parse::<hcl::Expression>()
                    .map(|x| canon::hcl_e(&x))
                    .map_err(|e| e.to_string()),
            )
        }
    }
}

/// Heredocs without their strip mode: text that would be dedented again loses it.
fn text_only(c: &str) -> String {
    let mut parts = c.split("(heredoc ");
    let mut out = parts.next().unwrap_or("").to_string();
    for p in parts {
        let (delim, rest) = p.split_once(' ').unwrap_or((p, ""));
        let rest = rest.strip_prefix("true ").or(rest.strip_prefix("false ")).unwrap_or(rest);
        out.push_str(&format!("(heredoc {delim} {rest}"));
    }
    out
}

fn template(cx: &mut Cx, text: &str) -> Check {
    match text.parse::<hcl_edit::template::Template>() {
        Err(e) => {
            cx.probe("rejected");
            ev!(cx, "rejected: {}", e.message());
            located("template", text, &e)?;
            match text.parse::<hcl::Template>() {
                Err(hcl::Error::Parse(s)) if s == e => Ok(()),
                other => violation("differs", format!("{text:?}: {e}\nbut {other:?}")),
            }
        }
        Ok(x) => {
            cx.probe("accepted");
            let first = canon::edit_template(&x);
            let mut spans = spans::Spans::new(text);
            hcl_edit::visit::Visit::visit_template(&mut spans, &x);
            if let Some(bad) = spans.bad {
                return violation("span", format!("{bad}\n{text:?}"));
            }
            ev!(cx, "accepted: {first}");
            if marker_zone(&first) || indent_zone(text) {
                return Ok(());
            }
            let printed = x.to_string();
            let again = printed.parse::<hcl_edit::template::Template>();
            stable(
                "template",
                text,
                &first,
                &printed,
                again
                    .map(|x| canon::edit_template(&x))
                    .map_err(|e| e.to_string()),
            )?;
            let h = match text.parse::<hcl::Template>() {
                Ok(h) => h,
                Err(e) => return violation("differs", format!("{text:?}: {e}")),
            };
            let c = canon::hcl_template(&h);
            // Converted to the other representation and back it is the same template.
            let edit = hcl_edit::template::Template::from(h.clone());
            let (there, back) = (canon::edit_template(&edit), hcl::Template::from(edit.clone()));
            let back_c = canon::hcl_template(&back);
            if [&c, &there, &back_c].iter().any(|x| text_only(x) != text_only(&first)) {
                return violation(
                    "conversion",
                    format!("{text:?}: {first}\n{c}\n{there}\n{back_c}"),
                );
            }
            let printed = edit.to_string();
            stable(
                "converted template",
                text,
                &there,
                &printed,
                printed
                    .parse::<hcl_edit::template::Template>()
                    .map(|x| canon::edit_template(&x))
                    .map_err(|e| e.to_string()),
            )?;
            let printed = h.to_string();
            stable(
                "structural template",
                text,
                &c,
                &printed,
                printed
                    .parse::<hcl::Template>()
                    .map(|x| canon::hcl_template(&x))
                    .map_err(|e| e.to_string()),
            )
        }
    }
}

fn run(cx: &mut Cx) -> Check {
    let kind = cx.src.weighted(&[6, 2, 2]);
    let spell = if cx.src.chance(1, 3) {
        Spell(Some(Rng::new(cx.src.bits())))
    } else {
        Spell(None)
    };
    let mut bytes = {
        let mut g = G::new(&mut cx.src, Cfg::default());
        match kind {
            0 => render_body_spelled(&g.doc(), spell),
            1 => render_expr(&g.expr(false)),
            _ => render_template(&g.bare_template()),
        }
    }
    .into_bytes();
    if kind == 0 && cx.src.chance(1, 6) {
        // Two documents in one stream.
        let other =
            crate::model::render_body(&G::new(&mut cx.src, Cfg::default()).doc()).into_bytes();
        let at = cx.src.below(bytes.len() + 1);
        bytes.splice(at..at, other);
        cx.fault("documents_interleaved");
    }
    ev!(cx, "before {}", String::from_utf8_lossy(&bytes));
    // The text is read after every fault.
    for _ in 0..cx.src.range(1, 6) {
        strike(cx, &mut bytes);
        cx.nontrivial = true;
        ev!(cx, "after {}", String::from_utf8_lossy(&bytes));
        let text = match String::from_utf8(bytes.clone()) {
            Ok(t) => t,
            Err(_) => {
                cx.probe("not_utf8");
                if hcl::from_slice::<hcl::Body>(&bytes).is_ok() {
                    return violation("utf8", format!("accepted {bytes:?}"));
                }
                String::from_utf8_lossy(&bytes).into_owned()
            }
        };
        match kind {
            0 => body(cx, &text)?,
            1 => expr(cx, &text)?,
            _ => template(cx, &text)?,
        }
    }
    Ok(())
}
