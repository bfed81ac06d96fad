//! Builds library trees from the model through constructors, without parsing.

use crate::model::{self as m, Key, Num, Op, OpK, Term, B, D, E, K, S, T};
use hcl_edit::expr as xe;
use hcl_edit::structure as xs;
use hcl_edit::template as xt;
use hcl_edit::{Decorate, Decorated, Formatted, Ident};

pub fn dec<X: Decorate>(mut x: X, d: &D) -> X {
    if let Some(p) = &d.pre {
        x.decor_mut().set_prefix(p.as_str());
    }
    if let Some(s) = &d.suf {
        x.decor_mut().set_suffix(s.as_str());
    }
    x
}

fn id(i: &m::Id) -> Decorated<Ident> {
    dec(Decorated::new(Ident::new(i.s.as_str())), &i.d)
}

pub fn number(n: &Num) -> hcl::Number {
    match n {
        Num::U(u) => (*u).into(),
        Num::I(i) => (*i).into(),
        Num::F(f) => hcl::Number::from_f64(*f).expect("finite"),
    }
}

pub fn strip(s: m::Strip) -> hcl::template::Strip {
    use hcl::template::Strip;
    match s {
        (false, false) => Strip::None,
        (true, false) => Strip::Start,
        (false, true) => Strip::End,
        (true, true) => Strip::Both,
    }
}

pub fn bin(op: m::BinOp) -> hcl::expr::BinaryOperator {
    use hcl::expr::BinaryOperator as O;
    match op {
        m::BinOp::Or => O::Or,
        m::BinOp::And => O::And,
        m::BinOp::Eq => O::Eq,
        m::BinOp::Ne => O::NotEq,
        m::BinOp::Lt => O::Less,
        m::BinOp::Le => O::LessEq,
        m::BinOp::Gt => O::Greater,
        m::BinOp::Ge => O::GreaterEq,
        m::BinOp::Add => O::Plus,
        m::BinOp::Sub => O::Minus,
        m::BinOp::Mul => O::Mul,
        m::BinOp::Div => O::Div,
        m::BinOp::Mod => O::Mod,
    }
}

pub fn un(neg: bool) -> hcl::expr::UnaryOperator {
    if neg {
        hcl::expr::UnaryOperator::Neg
    } else {
        hcl::expr::UnaryOperator::Not
    }
}

pub fn edit_body(b: &B) -> xs::Body {
    let mut body = xs::Body::from_iter(b.items.iter().map(edit_s));
    if b.oneline {
        body.set_prefer_oneline(true);
    }
    if b.omit {
        body.set_prefer_omit_trailing_newline(true);
    }
    dec(body, &b.d)
}

pub fn edit_s(s: &S) -> xs::Structure {
    match s {
        S::Attr { d, key, e } => dec(xs::Attribute::new(id(key), edit_e(e)), d).into(),
        S::Block {
            d,
            ident,
            labels,
            body,
        } => {
            let mut block = xs::Block::new(id(ident));
            for l in labels {
                block.labels.push(edit_label(l));
            }
            block.body = edit_body(body);
            dec(block, d).into()
        }
    }
}

pub fn edit_label((string, l): &(bool, m::Id)) -> xs::BlockLabel {
    if *string {
        xs::BlockLabel::String(dec(Decorated::new(l.s.clone()), &l.d))
    } else {
        xs::BlockLabel::Ident(id(l))
    }
}

pub fn edit_key(k: &Key) -> xe::ObjectKey {
    match k {
        Key::Id(i) => xe::ObjectKey::Ident(id(i)),
        Key::Ex(e) => xe::ObjectKey::Expression(edit_e(e)),
    }
}

pub fn edit_value(it: &m::Item) -> xe::ObjectValue {
    let mut v = xe::ObjectValue::new(edit_e(&it.e));
    v.set_assignment(if it.colon {
        xe::ObjectValueAssignment::Colon
    } else {
        xe::ObjectValueAssignment::Equals
    });
    v.set_terminator(match it.term {
        Term::None => xe::ObjectValueTerminator::None,
        Term::Newline => xe::ObjectValueTerminator::Newline,
        Term::Comma => xe::ObjectValueTerminator::Comma,
    });
    v
}

pub fn op(o: &Op) -> Decorated<xe::TraversalOperator> {
    let k = match &o.k {
        OpK::Attr(i) => xe::TraversalOperator::GetAttr(id(i)),
        OpK::Index(e) => xe::TraversalOperator::Index(edit_e(e)),
        OpK::Legacy(n, d) => xe::TraversalOperator::LegacyIndex(dec(Decorated::new(*n), d)),
        OpK::AttrSplat(d) => xe::TraversalOperator::AttrSplat(dec(Decorated::new(xe::Splat), d)),
        OpK::FullSplat(d) => xe::TraversalOperator::FullSplat(dec(Decorated::new(xe::Splat), d)),
    };
    dec(Decorated::new(k), &o.d)
}

pub fn edit_e(e: &E) -> xe::Expression {
    use xe::Expression as X;
    let x: X = match &e.k {
        K::Null => X::null(),
        K::Bool(b) => X::from(*b),
        K::Num(n, spelling) => {
            let mut f = Formatted::new(number(n));
            if let Some(s) = spelling {
                // The spelling of a number can only be set by reading it.
                match s.parse::<X>() {
                    Ok(X::Number(read)) => f = read,
                    other => panic!("{s:?} is read as {other:?}"),
                }
                f.decor_mut().clear();
            }
            X::Number(f)
        }
        K::Str(s) => X::String(Decorated::new(s.clone())),
        K::Arr(a) => {
            let mut arr = xe::Array::new();
            for e in &a.items {
                arr.push(edit_e(e));
            }
            arr.set_trailing_comma(a.comma);
            arr.set_trailing(a.trail.as_str());
            X::Array(arr)
        }
        K::Obj(o) => {
            let mut obj = xe::Object::new();
            for it in &o.items {
                obj.insert(edit_key(&it.key), edit_value(it));
            }
            obj.set_trailing(o.trail.as_str());
            X::Object(obj)
        }
        K::Tmpl(parts) => X::StringTemplate(xt::StringTemplate::from(edit_elements(parts))),
        K::Heredoc(h) => {
            let mut t = xt::HeredocTemplate::new(
                Ident::new(h.delim.as_str()),
                xt::Template::from(edit_elements(&h.parts)),
            );
            if let Some(n) = h.indent {
                t.set_indent(n);
            }
            t.set_trailing(h.trail.as_str());
            X::HeredocTemplate(Box::new(t))
        }
        K::Var(s) => X::Variable(Decorated::new(Ident::new(s.as_str()))),
        K::Trav(base, ops) => X::from(xe::Traversal::new(
            edit_e(base),
            ops.iter().map(op).collect::<Vec<_>>(),
        )),
        K::Call(c) => {
            let mut name = xe::FuncName::new(id(&c.name));
            name.set_namespace(c.ns.iter().map(id));
            let mut args = xe::FuncArgs::new();
            for e in &c.args {
                args.push(edit_e(e));
            }
            args.set_expand_final(c.expand);
            args.set_trailing_comma(c.comma);
            args.set_trailing(c.trail.as_str());
            X::from(xe::FuncCall::new(name, args))
        }
        K::Paren(e) => X::from(xe::Parenthesis::new(edit_e(e))),
        K::Cond(c) => X::from(xe::Conditional::new(
            edit_e(&c[0]),
            edit_e(&c[1]),
            edit_e(&c[2]),
        )),
        K::Un(neg, e) => X::from(xe::UnaryOp::new(un(*neg), edit_e(e))),
        K::Bin(l, o, d, r) => X::from(xe::BinaryOp::new(
            edit_e(l),
            dec(Decorated::new(bin(*o)), d),
            edit_e(r),
        )),
        K::For(f) if f.grouping && !f.gtrail.is_empty() => {
            // The text after the grouping operator can only be set by reading it.
            let mut x: X = m::render_expr(&E::new(e.k.clone()))
                .parse()
                .expect("rendered expression");
            x.decor_mut().clear();
            x
        }
        K::For(f) => {
            let mut intro = xe::ForIntro::new(id(&f.val_var), edit_e(&f.coll));
            intro.key_var = f.key_var.as_ref().map(id);
            let mut x = xe::ForExpr::new(dec(intro, &f.d), edit_e(&f.val));
            x.key_expr = f.key.as_ref().map(edit_e);
            x.grouping = f.grouping;
            x.cond = f
                .cond
                .as_ref()
                .map(|(d, c)| dec(xe::ForCond::new(edit_e(c)), d));
            X::from(x)
        }
    };
    dec(x, &e.d)
}

pub fn edit_elements(parts: &[T]) -> Vec<xt::Element> {
    parts.iter().map(edit_element).collect()
}

pub fn edit_element(t: &T) -> xt::Element {
    match t {
        T::Lit(s) => xt::Element::from(s.clone()),
        T::Interp(e, s) => {
            let mut i = xt::Interpolation::new(edit_e(e));
            i.strip = strip(*s);
            i.into()
        }
        T::If(i) => {
            let mut ife = xt::IfTemplateExpr::new(
                edit_e(&i.cond),
                xt::Template::from(edit_elements(&i.body)),
            );
            ife.strip = strip(i.strip);
            ife.set_preamble(i.pre.as_str());
            let els = i.els.as_ref().map(|(mk, parts)| {
                let mut x = xt::ElseTemplateExpr::new(xt::Template::from(edit_elements(parts)));
                x.strip = strip(mk.strip);
                x.set_preamble(mk.pre.as_str());
                x.set_trailing(mk.trail.as_str());
                x
            });
            let mut end = xt::EndifTemplateExpr::new();
            end.strip = strip(i.end.strip);
            end.set_preamble(i.end.pre.as_str());
            end.set_trailing(i.end.trail.as_str());
            xt::Element::from(xt::Directive::from(xt::IfDirective::new(ife, els, end)))
        }
        T::For(f) => {
            let mut fe = xt::ForTemplateExpr::new(
                f.key_var.as_ref().map(id),
                id(&f.val_var),
                edit_e(&f.coll),
                xt::Template::from(edit_elements(&f.body)),
            );
            fe.strip = strip(f.strip);
            fe.set_preamble(f.pre.as_str());
            let mut end = xt::EndforTemplateExpr::new();
            end.strip = strip(f.end.strip);
            end.set_preamble(f.end.pre.as_str());
            end.set_trailing(f.end.trail.as_str());
            xt::Element::from(xt::Directive::from(xt::ForDirective::new(fe, end)))
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Structural representation

fn hid(s: &str) -> hcl::Identifier {
    hcl::Identifier::new(s).expect("identifier")
}

pub fn hcl_body(b: &B) -> hcl::Body {
    hcl::Body::from_iter(b.items.iter().map(hcl_s))
}

pub fn hcl_s(s: &S) -> hcl::Structure {
    match s {
        S::Attr { key, e, .. } => hcl::Attribute::new(hid(&key.s), hcl_e(e)).into(),
        S::Block {
            ident,
            labels,
            body,
            ..
        } => {
            let mut b = hcl::Block::new(hid(&ident.s));
            for (string, l) in labels {
                b.labels.push(if *string {
                    hcl::BlockLabel::String(l.s.clone())
                } else {
                    hcl::BlockLabel::Identifier(hid(&l.s))
                });
            }
            b.body = hcl_body(body);
            b.into()
        }
    }
}

pub fn hcl_key(k: &Key) -> hcl::ObjectKey {
    match k {
        Key::Id(i) => hcl::ObjectKey::Identifier(hid(&i.s)),
        Key::Ex(e) => hcl::ObjectKey::Expression(hcl_e(e)),
    }
}

pub fn hcl_e(e: &E) -> hcl::Expression {
    use hcl::expr::{self, Expression as X};
    match &e.k {
        K::Null => X::Null,
        K::Bool(b) => X::Bool(*b),
        K::Num(n, _) => X::Number(number(n)),
        K::Str(s) => X::String(s.clone()),
        K::Arr(a) => X::Array(a.items.iter().map(hcl_e).collect()),
        K::Obj(o) => X::Object(
            o.items
                .iter()
                .map(|it| (hcl_key(&it.key), hcl_e(&it.e)))
                .collect(),
        ),
        K::Tmpl(parts) => X::from(expr::TemplateExpr::QuotedString(m::render_template(parts))),
        K::Heredoc(h) => {
            let strip = if h.indent.is_some() {
                expr::HeredocStripMode::Indent
            } else {
                expr::HeredocStripMode::None
            };
            X::from(
                expr::Heredoc::new(hid(&h.delim), m::render_template(&h.parts))
                    .with_strip_mode(strip),
            )
        }
        K::Var(s) => X::Variable(expr::Variable::from(hid(s))),
        K::Trav(base, ops) => X::from(expr::Traversal::new(
            hcl_e(base),
            ops.iter().map(|o| match &o.k {
                OpK::Attr(i) => expr::TraversalOperator::GetAttr(hid(&i.s)),
                OpK::Index(e) => expr::TraversalOperator::Index(hcl_e(e)),
                OpK::Legacy(n, _) => expr::TraversalOperator::LegacyIndex(*n),
                OpK::AttrSplat(_) => expr::TraversalOperator::AttrSplat,
                OpK::FullSplat(_) => expr::TraversalOperator::FullSplat,
            }),
        )),
        K::Call(c) => {
            let mut name = expr::FuncName::new(hid(&c.name.s));
            if !c.ns.is_empty() {
                name = name.with_namespace(c.ns.iter().map(|i| hid(&i.s)));
            }
            let mut b = expr::FuncCall::builder(name);
            for a in &c.args {
                b = b.arg(hcl_e(a));
            }
            X::from(b.expand_final(c.expand && !c.args.is_empty()).build())
        }
        K::Paren(e) => X::Parenthesis(Box::new(hcl_e(e))),
        K::Cond(c) => X::from(expr::Conditional::new(
            hcl_e(&c[0]),
            hcl_e(&c[1]),
            hcl_e(&c[2]),
        )),
        K::Un(neg, e) => X::from(expr::UnaryOp::new(un(*neg), hcl_e(e))),
        K::Bin(l, o, _, r) => X::from(expr::BinaryOp::new(hcl_e(l), bin(*o), hcl_e(r))),
        K::For(f) => {
            let mut x = expr::ForExpr::new(hid(&f.val_var.s), hcl_e(&f.coll), hcl_e(&f.val));
            if let Some(k) = &f.key_var {
                x = x.with_key_var(hid(&k.s));
            }
            if let Some(k) = &f.key {
                x = x.with_key_expr(hcl_e(k));
            }
            if let Some((_, c)) = &f.cond {
                x = x.with_cond_expr(hcl_e(c));
            }
            X::from(x.with_grouping(f.grouping))
        }
    }
}
