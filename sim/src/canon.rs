//! Canonical form of documents: one text per meaning, computed independently for the reference
//! model, the format-preserving tree and the structural representation.

use crate::model::{self as m, OpK, E, K, S, T};
use hcl_edit::expr as xe;
use hcl_edit::structure as xs;
use hcl_edit::template as xt;
use std::fmt::Write;

pub fn num_u(u: u64) -> String {
    format!("#{u}")
}

pub fn num_f(f: f64) -> String {
    if f == f.trunc() && f >= 0.0 && f < 18446744073709551616.0 {
        format!("#{}", f as u64)
    } else if f == f.trunc() && f < 0.0 && f >= -9223372036854775808.0 {
        format!("#{}", f as i64)
    } else {
        format!("#f{:x}", f.to_bits())
    }
}

pub fn num_model(n: &m::Num) -> String {
    match n {
        m::Num::U(u) => num_u(*u),
        m::Num::I(i) => format!("#{i}"),
        m::Num::F(f) => num_f(*f),
    }
}

pub fn num_hcl(n: &hcl::Number) -> String {
    if let Some(u) = n.as_u64() {
        num_u(u)
    } else if let Some(i) = n.as_i64() {
        format!("#{i}")
    } else {
        num_f(n.as_f64().unwrap_or(f64::NAN))
    }
}

/// A template under construction: adjacent literals are merged, empty ones dropped.
#[derive(Default)]
struct Parts {
    out: String,
    lit: String,
    dynamic: bool,
}

impl Parts {
    fn flush(&mut self) {
        if !self.lit.is_empty() {
            let _ = write!(self.out, " {:?}", self.lit);
            self.lit.clear();
        }
    }
    fn lit(&mut self, s: &str) {
        self.lit.push_str(s);
    }
    fn item(&mut self, s: String) {
        self.flush();
        self.dynamic = true;
        self.out.push(' ');
        self.out.push_str(&s);
    }
    fn finish(mut self) -> String {
        self.flush();
        self.out
    }
    /// As expression: a quoted template without dynamic elements is a string.
    fn quoted(mut self) -> String {
        if self.dynamic {
            self.flush();
            format!("(tmpl{})", self.out)
        } else {
            format!("{:?}", self.lit)
        }
    }
}

fn strip(s: (bool, bool)) -> &'static str {
    match s {
        (false, false) => "",
        (true, false) => "<",
        (false, true) => ">",
        (true, true) => "<>",
    }
}

// ---------------------------------------------------------------------------------------------
// Reference model

pub fn model_body(b: &m::B) -> String {
    let mut out = String::new();
    for s in &b.items {
        out.push_str(&model_s(s));
        out.push('\n');
    }
    out
}

pub fn model_s(s: &S) -> String {
    match s {
        S::Attr { key, e, .. } => format!("{}={}", key.s, model_e(e)),
        S::Block {
            ident,
            labels,
            body,
            ..
        } => {
            let mut out = ident.s.clone();
            for (string, l) in labels {
                if *string {
                    let _ = write!(out, " {:?}", l.s);
                } else {
                    let _ = write!(out, " {}", l.s);
                }
            }
            let _ = write!(out, " {{\n{}}}", model_body(body));
            out
        }
    }
}

pub fn model_list(es: &[E]) -> String {
    let mut out = String::new();
    for e in es {
        out.push(' ');
        out.push_str(&model_e(e));
    }
    out
}

pub fn model_key(k: &m::Key) -> String {
    match k {
        m::Key::Id(id) => format!("`{}", id.s),
        m::Key::Ex(e) => model_e(e),
    }
}

fn model_idents(key: &Option<m::Id>, val: &m::Id) -> String {
    match key {
        Some(k) => format!("{},{}", k.s, val.s),
        None => val.s.clone(),
    }
}

pub fn model_e(e: &E) -> String {
    match &e.k {
        K::Null => "null".into(),
        K::Bool(b) => b.to_string(),
        K::Num(n, _) => num_model(n),
        K::Str(s) => format!("{s:?}"),
        K::Arr(a) => format!("[{}]", model_list(&a.items)),
        K::Obj(o) => {
            let mut out = "{".to_string();
            for it in &o.items {
                let _ = write!(out, " {}:{}", model_key(&it.key), model_e(&it.e));
            }
            out.push('}');
            out
        }
        K::Tmpl(parts) => model_parts(parts).quoted(),
        K::Heredoc(h) => {
            format!(
                "(heredoc {} {}{})",
                h.delim,
                h.indent.is_some(),
                model_parts(&h.parts).finish()
            )
        }
        K::Var(s) => format!("${s}"),
        K::Trav(base, ops) => {
            let mut out = format!("(trav {}", model_e(base));
            for op in ops {
                match &op.k {
                    OpK::Attr(id) => {
                        let _ = write!(out, " .{}", id.s);
                    }
                    OpK::Index(e) => {
                        let _ = write!(out, " [{}]", model_e(e));
                    }
                    OpK::Legacy(n, _) => {
                        let _ = write!(out, " .{n}");
                    }
                    OpK::AttrSplat(_) => out.push_str(" .*"),
                    OpK::FullSplat(_) => out.push_str(" [*]"),
                }
            }
            out.push(')');
            out
        }
        K::Call(c) => {
            let mut out = "(call ".to_string();
            for n in &c.ns {
                let _ = write!(out, "{}::", n.s);
            }
            let _ = write!(
                out,
                "{}{}{})",
                c.name.s,
                model_list(&c.args),
                if c.expand { " ..." } else { "" }
            );
            out
        }
        K::Paren(e) => format!("(paren {})", model_e(e)),
        K::Cond(c) => format!(
            "(? {} {} {})",
            model_e(&c[0]),
            model_e(&c[1]),
            model_e(&c[2])
        ),
        K::Un(neg, e) => format!("({} {})", if *neg { "-" } else { "!" }, model_e(e)),
        K::Bin(l, op, _, r) => format!("({} {} {})", op.text(), model_e(l), model_e(r)),
        K::For(f) => {
            let mut out = format!(
                "(for {} in {}",
                model_idents(&f.key_var, &f.val_var),
                model_e(&f.coll)
            );
            if let Some(k) = &f.key {
                let _ = write!(out, " key {}", model_e(k));
            }
            let _ = write!(
                out,
                " val {}{}",
                model_e(&f.val),
                if f.grouping { " ..." } else { "" }
            );
            if let Some((_, c)) = &f.cond {
                let _ = write!(out, " if {}", model_e(c));
            }
            out.push(')');
            out
        }
    }
}

pub fn model_template(t: &[T]) -> String {
    model_parts(t).finish()
}

fn model_parts(t: &[T]) -> Parts {
    let mut p = Parts::default();
    for t in t {
        match t {
            T::Lit(s) => p.lit(s),
            T::Interp(e, s) => p.item(format!("(${} {})", strip(*s), model_e(e))),
            T::If(i) => {
                let mut out = format!(
                    "(if{} {} (then{})",
                    strip(i.strip),
                    model_e(&i.cond),
                    model_template(&i.body)
                );
                if let Some((m, els)) = &i.els {
                    let _ = write!(out, " (else{}{})", strip(m.strip), model_template(els));
                }
                let _ = write!(out, " end{})", strip(i.end.strip));
                p.item(out);
            }
            T::For(f) => p.item(format!(
                "(for{} {} in {}{} end{})",
                strip(f.strip),
                model_idents(&f.key_var, &f.val_var),
                model_e(&f.coll),
                model_template(&f.body),
                strip(f.end.strip)
            )),
        }
    }
    p
}

// ---------------------------------------------------------------------------------------------
// Format-preserving tree

pub fn edit_body(b: &xs::Body) -> String {
    let mut out = String::new();
    for s in b.iter() {
        out.push_str(&edit_s(s));
        out.push('\n');
    }
    out
}

pub fn edit_s(s: &xs::Structure) -> String {
    match s {
        xs::Structure::Attribute(a) => edit_attr(a),
        xs::Structure::Block(b) => edit_block(b),
    }
}

pub fn edit_attr(a: &xs::Attribute) -> String {
    format!("{}={}", a.key.as_str(), edit_e(&a.value))
}

pub fn edit_label(l: &xs::BlockLabel) -> String {
    match l {
        xs::BlockLabel::String(s) => format!("{:?}", s.as_str()),
        xs::BlockLabel::Ident(i) => i.as_str().to_string(),
    }
}

pub fn edit_block(b: &xs::Block) -> String {
    let mut out = b.ident.as_str().to_string();
    for l in &b.labels {
        let _ = write!(out, " {}", edit_label(l));
    }
    let _ = write!(out, " {{\n{}}}", edit_body(&b.body));
    out
}

fn edit_list<'a>(es: impl Iterator<Item = &'a xe::Expression>) -> String {
    let mut out = String::new();
    for e in es {
        out.push(' ');
        out.push_str(&edit_e(e));
    }
    out
}

pub fn edit_key(k: &xe::ObjectKey) -> String {
    match k {
        xe::ObjectKey::Ident(id) => format!("`{}", id.as_str()),
        xe::ObjectKey::Expression(e) => edit_e(e),
    }
}

fn edit_idents(key: Option<&str>, val: &str) -> String {
    match key {
        Some(k) => format!("{k},{val}"),
        None => val.to_string(),
    }
}

pub fn edit_e(e: &xe::Expression) -> String {
    use xe::Expression as X;
    match e {
        X::Null(_) => "null".into(),
        X::Bool(b) => b.value().to_string(),
        X::Number(n) => num_hcl(n.value()),
        X::String(s) => format!("{:?}", s.as_str()),
        X::Array(a) => format!("[{}]", edit_list(a.iter())),
        X::Object(o) => {
            let mut out = "{".to_string();
            for (k, v) in o.iter() {
                let _ = write!(out, " {}:{}", edit_key(k), edit_e(v.expr()));
            }
            out.push('}');
            out
        }
        X::StringTemplate(t) => edit_parts(t).quoted(),
        X::HeredocTemplate(h) => {
            format!(
                "(heredoc {} {}{})",
                h.delimiter.as_str(),
                h.indent().is_some(),
                edit_parts(&h.template).finish()
            )
        }
        X::Parenthesis(p) => format!("(paren {})", edit_e(p.inner())),
        X::Variable(v) => format!("${}", v.as_str()),
        X::Conditional(c) => {
            format!(
                "(? {} {} {})",
                edit_e(&c.cond_expr),
                edit_e(&c.true_expr),
                edit_e(&c.false_expr)
            )
        }
        X::FuncCall(c) => {
            let mut out = "(call ".to_string();
            for n in &c.name.namespace {
                let _ = write!(out, "{}::", n.as_str());
            }
            let _ = write!(
                out,
                "{}{}{})",
                c.name.name.as_str(),
                edit_list(c.args.iter()),
                if c.args.expand_final() { " ..." } else { "" }
            );
            out
        }
        X::Traversal(t) => {
            let mut out = format!("(trav {}", edit_e(&t.expr));
            for op in &t.operators {
                match op.value() {
                    xe::TraversalOperator::GetAttr(id) => {
                        let _ = write!(out, " .{}", id.as_str());
                    }
                    xe::TraversalOperator::Index(e) => {
                        let _ = write!(out, " [{}]", edit_e(e));
                    }
                    xe::TraversalOperator::LegacyIndex(n) => {
                        let _ = write!(out, " .{}", n.value());
                    }
                    xe::TraversalOperator::AttrSplat(_) => out.push_str(" .*"),
                    xe::TraversalOperator::FullSplat(_) => out.push_str(" [*]"),
                }
            }
            out.push(')');
            out
        }
        X::UnaryOp(u) => format!("({} {})", un_text(*u.operator.value()), edit_e(&u.expr)),
        X::BinaryOp(b) => {
            format!(
                "({} {} {})",
                bin_text(*b.operator.value()),
                edit_e(&b.lhs_expr),
                edit_e(&b.rhs_expr)
            )
        }
        X::ForExpr(f) => {
            let mut out = format!(
                "(for {} in {}",
                edit_idents(
                    f.intro.key_var.as_ref().map(|k| k.as_str()),
                    f.intro.value_var.as_str()
                ),
                edit_e(&f.intro.collection_expr)
            );
            if let Some(k) = &f.key_expr {
                let _ = write!(out, " key {}", edit_e(k));
            }
            let _ = write!(
                out,
                " val {}{}",
                edit_e(&f.value_expr),
                if f.grouping { " ..." } else { "" }
            );
            if let Some(c) = &f.cond {
                let _ = write!(out, " if {}", edit_e(&c.expr));
            }
            out.push(')');
            out
        }
    }
}

pub fn un_text(op: hcl::expr::UnaryOperator) -> &'static str {
    match op {
        hcl::expr::UnaryOperator::Neg => "-",
        hcl::expr::UnaryOperator::Not => "!",
    }
}

pub fn bin_text(op: hcl::expr::BinaryOperator) -> &'static str {
    use hcl::expr::BinaryOperator as O;
    match op {
        O::Eq => "==",
        O::NotEq => "!=",
        O::LessEq => "<=",
        O::GreaterEq => ">=",
        O::Less => "<",
        O::Greater => ">",
        O::Plus => "+",
        O::Minus => "-",
        O::Mul => "*",
        O::Div => "/",
        O::Mod => "%",
        O::And => "&&",
        O::Or => "||",
    }
}

fn lib_strip(s: hcl::template::Strip) -> &'static str {
    use hcl::template::Strip;
    match s {
        Strip::None => "",
        Strip::Start => "<",
        Strip::End => ">",
        Strip::Both => "<>",
    }
}

pub fn edit_template(t: &xt::Template) -> String {
    edit_parts(t).finish()
}

pub fn edit_element(t: &xt::Element) -> String {
    match t {
        xt::Element::Literal(s) => format!("{:?}", s.as_str()),
        xt::Element::Interpolation(i) => format!("(${} {})", lib_strip(i.strip), edit_e(&i.expr)),
        xt::Element::Directive(d) => match &**d {
            xt::Directive::If(i) => {
                let mut out = format!(
                    "(if{} {} (then{})",
                    lib_strip(i.if_expr.strip),
                    edit_e(&i.if_expr.cond_expr),
                    edit_template(&i.if_expr.template)
                );
                if let Some(els) = &i.else_expr {
                    let _ = write!(
                        out,
                        " (else{}{})",
                        lib_strip(els.strip),
                        edit_template(&els.template)
                    );
                }
                let _ = write!(out, " end{})", lib_strip(i.endif_expr.strip));
                out
            }
            xt::Directive::For(f) => format!(
                "(for{} {} in {}{} end{})",
                lib_strip(f.for_expr.strip),
                edit_idents(
                    f.for_expr.key_var.as_ref().map(|k| k.as_str()),
                    f.for_expr.value_var.as_str()
                ),
                edit_e(&f.for_expr.collection_expr),
                edit_template(&f.for_expr.template),
                lib_strip(f.endfor_expr.strip)
            ),
        },
    }
}

fn edit_parts<'a>(t: impl IntoIterator<Item = &'a xt::Element>) -> Parts {
    let mut p = Parts::default();
    for t in t {
        match t {
            xt::Element::Literal(s) => p.lit(s.as_str()),
            t => p.item(edit_element(t)),
        }
    }
    p
}

// ---------------------------------------------------------------------------------------------
// Structural representation

pub fn hcl_body(b: &hcl::Body) -> String {
    let mut out = String::new();
    for s in b.iter() {
        out.push_str(&hcl_s(s));
        out.push('\n');
    }
    out
}

pub fn hcl_s(s: &hcl::Structure) -> String {
    match s {
        hcl::Structure::Attribute(a) => format!("{}={}", a.key.as_str(), hcl_e(&a.expr)),
        hcl::Structure::Block(b) => {
            let mut out = b.identifier.as_str().to_string();
            for l in &b.labels {
                match l {
                    hcl::BlockLabel::String(s) => {
                        let _ = write!(out, " {s:?}");
                    }
                    hcl::BlockLabel::Identifier(i) => {
                        let _ = write!(out, " {}", i.as_str());
                    }
                }
            }
            let _ = write!(out, " {{\n{}}}", hcl_body(&b.body));
            out
        }
    }
}

fn hcl_list(es: &[hcl::Expression]) -> String {
    let mut out = String::new();
    for e in es {
        out.push(' ');
        out.push_str(&hcl_e(e));
    }
    out
}

pub fn hcl_e(e: &hcl::Expression) -> String {
    use hcl::expr::{ObjectKey, Operation, TemplateExpr, TraversalOperator};
    use hcl::Expression as X;
    match e {
        X::Null => "null".into(),
        X::Bool(b) => b.to_string(),
        X::Number(n) => num_hcl(n),
        X::String(s) => format!("{s:?}"),
        X::Array(a) => format!("[{}]", hcl_list(a)),
        X::Object(o) => {
            let mut out = "{".to_string();
            for (k, v) in o {
                let k = match k {
                    ObjectKey::Identifier(i) => format!("`{}", i.as_str()),
                    ObjectKey::Expression(e) => hcl_e(e),
                    _ => "?".into(),
                };
                let _ = write!(out, " {}:{}", k, hcl_e(v));
            }
            out.push('}');
            out
        }
        X::TemplateExpr(t) => match hcl::Template::from_expr(t) {
            Err(e) => format!("(invalid template {t:?}: {e})"),
            Ok(parts) => match &**t {
                TemplateExpr::QuotedString(_) => hcl_parts(&parts).quoted(),
                TemplateExpr::Heredoc(h) => format!(
                    "(heredoc {} {}{})",
                    h.delimiter.as_str(),
                    h.strip == hcl::expr::HeredocStripMode::Indent,
                    hcl_parts(&parts).finish()
                ),
            },
        },
        X::Variable(v) => format!("${}", v.as_str()),
        X::Traversal(t) => {
            let mut out = format!("(trav {}", hcl_e(&t.expr));
            for op in &t.operators {
                match op {
                    TraversalOperator::GetAttr(id) => {
                        let _ = write!(out, " .{}", id.as_str());
                    }
                    TraversalOperator::Index(e) => {
                        let _ = write!(out, " [{}]", hcl_e(e));
                    }
                    TraversalOperator::LegacyIndex(n) => {
                        let _ = write!(out, " .{n}");
                    }
                    TraversalOperator::AttrSplat => out.push_str(" .*"),
                    TraversalOperator::FullSplat => out.push_str(" [*]"),
                }
            }
            out.push(')');
            out
        }
        X::FuncCall(c) => {
            let mut out = "(call ".to_string();
            for n in &c.name.namespace {
                let _ = write!(out, "{}::", n.as_str());
            }
            let _ = write!(
                out,
                "{}{}{})",
                c.name.name.as_str(),
                hcl_list(&c.args),
                if c.expand_final { " ..." } else { "" }
            );
            out
        }
        X::Parenthesis(e) => format!("(paren {})", hcl_e(e)),
        X::Conditional(c) => {
            format!(
                "(? {} {} {})",
                hcl_e(&c.cond_expr),
                hcl_e(&c.true_expr),
                hcl_e(&c.false_expr)
            )
        }
        X::Operation(op) => match &**op {
            Operation::Unary(u) => format!("({} {})", un_text(u.operator), hcl_e(&u.expr)),
            Operation::Binary(b) => {
                format!(
                    "({} {} {})",
                    bin_text(b.operator),
                    hcl_e(&b.lhs_expr),
                    hcl_e(&b.rhs_expr)
                )
            }
        },
        X::ForExpr(f) => {
            let mut out = format!(
                "(for {} in {}",
                edit_idents(f.key_var.as_ref().map(|k| k.as_str()), f.value_var.as_str()),
                hcl_e(&f.collection_expr)
            );
            if let Some(k) = &f.key_expr {
                let _ = write!(out, " key {}", hcl_e(k));
            }
            let _ = write!(
                out,
                " val {}{}",
                hcl_e(&f.value_expr),
                if f.grouping { " ..." } else { "" }
            );
            if let Some(c) = &f.cond_expr {
                let _ = write!(out, " if {}", hcl_e(c));
            }
            out.push(')');
            out
        }
        _ => "?".into(),
    }
}

pub fn hcl_template(t: &hcl::Template) -> String {
    hcl_parts(t).finish()
}

fn hcl_parts(t: &hcl::Template) -> Parts {
    use hcl::template::{Directive, Element};
    let mut p = Parts::default();
    for t in t.elements() {
        match t {
            Element::Literal(s) => p.lit(s),
            Element::Interpolation(i) => {
                p.item(format!("(${} {})", lib_strip(i.strip), hcl_e(&i.expr)))
            }
            Element::Directive(d) => match &**d {
                Directive::If(i) => {
                    let mut out = format!(
                        "(if{} {} (then{})",
                        lib_strip(i.if_strip),
                        hcl_e(&i.cond_expr),
                        hcl_template(&i.true_template)
                    );
                    if let Some(els) = &i.false_template {
                        let _ = write!(
                            out,
                            " (else{}{})",
                            lib_strip(i.else_strip),
                            hcl_template(els)
                        );
                    }
                    let _ = write!(out, " end{})", lib_strip(i.endif_strip));
                    p.item(out);
                }
                Directive::For(f) => p.item(format!(
                    "(for{} {} in {}{} end{})",
                    lib_strip(f.for_strip),
                    edit_idents(f.key_var.as_ref().map(|k| k.as_str()), f.value_var.as_str()),
                    hcl_e(&f.collection_expr),
                    hcl_template(&f.template),
                    lib_strip(f.endfor_strip)
                )),
            },
        }
    }
    p
}

// ---------------------------------------------------------------------------------------------
// Values

pub fn value(v: &hcl::Value) -> String {
    match v {
        hcl::Value::Null => "null".into(),
        hcl::Value::Bool(b) => b.to_string(),
        hcl::Value::Number(n) => num_hcl(n),
        hcl::Value::String(s) => format!("{s:?}"),
        hcl::Value::Array(a) => {
            let mut out = "[".to_string();
            for v in a {
                out.push(' ');
                out.push_str(&value(v));
            }
            out.push(']');
            out
        }
        hcl::Value::Object(o) => {
            let mut out = "{".to_string();
            for (k, v) in o {
                let _ = write!(out, " {:?}:{}", k, value(v));
            }
            out.push('}');
            out
        }
    }
}

pub fn json(v: &serde_json::Value) -> String {
    match v {
        serde_json::Value::Null => "null".into(),
        serde_json::Value::Bool(b) => b.to_string(),
        serde_json::Value::Number(n) => {
            if let Some(u) = n.as_u64() {
                num_u(u)
            } else if let Some(i) = n.as_i64() {
                format!("#{i}")
            } else {
                num_f(n.as_f64().unwrap_or(f64::NAN))
            }
        }
        serde_json::Value::String(s) => format!("{s:?}"),
        serde_json::Value::Array(a) => {
            let mut out = "[".to_string();
            for v in a {
                out.push(' ');
                out.push_str(&json(v));
            }
            out.push(']');
            out
        }
        serde_json::Value::Object(o) => {
            let mut out = "{".to_string();
            for (k, v) in o {
                let _ = write!(out, " {:?}:{}", k, json(v));
            }
            out.push('}');
            out
        }
    }
}

/// The value a document denotes, for documents of literal expressions only.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    Num(m::Num),
    Str(String),
    Arr(Vec<V>),
    Obj(Vec<(String, V)>),
}

pub fn v(v: &V) -> String {
    match v {
        V::Null => "null".into(),
        V::Bool(b) => b.to_string(),
        V::Num(n) => num_model(n),
        V::Str(s) => format!("{s:?}"),
        V::Arr(a) => {
            let mut out = "[".to_string();
            for x in a {
                out.push(' ');
                out.push_str(&self::v(x));
            }
            out.push(']');
            out
        }
        V::Obj(o) => {
            let mut out = "{".to_string();
            for (k, x) in o {
                let _ = write!(out, " {:?}:{}", k, self::v(x));
            }
            out.push('}');
            out
        }
    }
}

/// `None` if the expression is not literal.
pub fn literal_value(e: &E) -> Option<V> {
    Some(match &e.k {
        K::Null => V::Null,
        K::Bool(b) => V::Bool(*b),
        K::Num(n, _) => V::Num(n.clone()),
        K::Str(s) => V::Str(s.clone()),
        K::Arr(a) => V::Arr(a.items.iter().map(literal_value).collect::<Option<_>>()?),
        K::Obj(o) => {
            let mut out: Vec<(String, V)> = Vec::new();
            for it in &o.items {
                let k = match &it.key {
                    m::Key::Id(id) => id.s.clone(),
                    m::Key::Ex(E { k: K::Str(s), .. }) => s.clone(),
                    _ => return None,
                };
                let v = literal_value(&it.e)?;
                put(&mut out, k, v);
            }
            V::Obj(out)
        }
        _ => return None,
    })
}

fn put(out: &mut Vec<(String, V)>, k: String, v: V) {
    match out.iter_mut().find(|(o, _)| *o == k) {
        Some((_, o)) => *o = v,
        None => out.push((k, v)),
    }
}

/// A node of the JSON representation: blocks of the same type and labels are merged.
enum Node {
    Map(Vec<(String, Node)>),
    Bodies(Vec<V>),
    Expr(V),
}

fn merge(map: &mut Vec<(String, Node)>, k: String, n: Node) {
    let Some((_, old)) = map.iter_mut().find(|(o, _)| *o == k) else {
        map.push((k, n));
        return;
    };
    match (old, n) {
        (Node::Map(l), Node::Map(r)) => {
            for (k, n) in r {
                merge(l, k, n);
            }
        }
        (Node::Bodies(l), Node::Bodies(r)) => l.extend(r),
        (l, r) => *l = r,
    }
}

fn node_value(n: Node) -> V {
    match n {
        Node::Map(m) => V::Obj(m.into_iter().map(|(k, n)| (k, node_value(n))).collect()),
        Node::Bodies(mut b) if b.len() == 1 => b.remove(0),
        Node::Bodies(b) => V::Arr(b),
        Node::Expr(v) => v,
    }
}

/// The value of a document of literals, following the JSON representation of HCL.
pub fn literal_body(b: &m::B) -> Option<V> {
    let mut map: Vec<(String, Node)> = Vec::new();
    for s in &b.items {
        match s {
            S::Attr { key, e, .. } => {
                let v = literal_value(e)?;
                match map.iter_mut().find(|(o, _)| *o == key.s) {
                    Some((_, o)) => *o = Node::Expr(v),
                    None => map.push((key.s.clone(), Node::Expr(v))),
                }
            }
            S::Block {
                ident,
                labels,
                body,
                ..
            } => {
                let mut n = Node::Bodies(vec![literal_body(body)?]);
                for (_, l) in labels.iter().rev() {
                    n = Node::Map(vec![(l.s.clone(), n)]);
                }
                merge(&mut map, ident.s.clone(), n);
            }
        }
    }
    Some(V::Obj(
        map.into_iter().map(|(k, n)| (k, node_value(n))).collect(),
    ))
}
