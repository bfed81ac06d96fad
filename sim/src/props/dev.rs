//! Self-check of the generator: the code under test reads generated documents as the model says.

use crate::canon;
use crate::cx::{violation, Check, Cx};
use crate::ev;
use crate::gen::{Cfg, G};
use crate::model::*;
use crate::runner::{no_known, Prop};

pub static PROP: Prop = Prop {
    id: "DEV",
    run,
    runs: (20000, 200000),
    rule: "",
    real: &[],
    stubs: &[],
    assumptions: &[],
    known: no_known,
    stack_mb: 64,
    hang_s: 60,
    workers: 8,
};

fn run(cx: &mut Cx) -> Check {
    let mut b = G::new(&mut cx.src, Cfg::default()).doc();
    let text = render_body(&b);
    ev!(cx, "{text}");
    cx.nontrivial = true;
    let parsed: hcl_edit::structure::Body = match text.parse() {
        Ok(p) => p,
        Err(e) => return violation("parse", format!("{e}\n{text}")),
    };
    let (a, e) = (canon::edit_body(&parsed), canon::model_body(&b));
    if a != e {
        return violation(
            "canon",
            format!("{text}\n---- got\n{a}\n---- expected\n{e}"),
        );
    }
    let printed = parsed.to_string();
    if printed != text {
        return violation("print", format!("{text}\n---- got\n{printed}"));
    }
    let h: hcl::Body = parsed.into();
    let a = canon::hcl_body(&h);
    if a != e {
        return violation("hcl", format!("{text}\n---- got\n{a}\n---- expected\n{e}"));
    }
    let made = crate::make::edit_body(&b);
    if canon::edit_body(&made) != e || made.to_string() != text {
        return violation(
            "make",
            format!(
                "{text}\n---- got\n{made}\n---- {}\n---- expected\n{e}",
                canon::edit_body(&made)
            ),
        );
    }
    let h = crate::make::hcl_body(&b);
    if canon::hcl_body(&h) != e {
        return violation(
            "make-hcl",
            format!(
                "{text}\n---- got\n{}\n---- expected\n{e}",
                canon::hcl_body(&h)
            ),
        );
    }
    let before = b.clone();
    normalise(&mut b);
    if b != before {
        return violation("normalise", format!("{before:?}\n{b:?}"));
    }
    Ok(())
}
