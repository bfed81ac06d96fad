//! Builds library trees from the model through the many equivalent ways of building a node: builders,
//! conversions, collecting, extending, inserting and removing again.

use crate::choice::Src;
use crate::make::{bin, dec, number, strip, un};
use crate::model::{self as m, Key, Num, OpK, B, D, E, K, S, T};
use hcl_edit::expr as xe;
use hcl_edit::structure as xs;
use hcl_edit::template as xt;
use hcl_edit::{Decor, Decorate, Decorated, Formatted, Ident, RawString, Spanned};
use std::borrow::Cow;

fn raw(src: &mut Src, s: &str) -> RawString {
    match src.below(4) {
        0 => RawString::from(s),
        1 => RawString::from(s.to_string()),
        2 => RawString::from(Cow::Borrowed(s)),
        _ => {
            let r = RawString::from(Cow::<str>::Owned(s.to_string()));
            let c: Cow<str> = (&r).into();
            let c = c.into_owned();
            let o: Cow<str> = r.into();
            assert!(c == o);
            RawString::from(o)
        }
    }
}

/// Decoration by any way; both ends have to be given for most of them.
fn ornate<X: Decorate>(src: &mut Src, mut x: X, d: &D) -> X {
    let (Some(p), Some(s)) = (&d.pre, &d.suf) else {
        if src.below(3) == 1 {
            x.decorate((" /* gone */ ", " /* gone */ "));
            x.decor_mut().clear();
        }
        return dec(x, d);
    };
    let (p, s) = (raw(src, p), raw(src, s));
    match src.below(4) {
        0 => {
            x.decorate((p, s));
            x
        }
        1 => x.decorated((p, s)),
        2 => x.decorated(Decor::new(p, s)),
        _ => {
            *x.decor_mut() = Decor::new("", "");
            x.decor_mut().set_suffix(s);
            x.decor_mut().set_prefix(p);
            x
        }
    }
}

pub fn ident(src: &mut Src, s: &str) -> Ident {
    match src.below(8) {
        0 => Ident::new(s),
        1 => Ident::new(s.to_string()),
        2 => Ident::try_new(Cow::Borrowed(s)).expect("identifier"),
        3 => Ident::new_sanitized(s),
        4 => Ident::new_unchecked(s),
        5 => s.parse().expect("identifier"),
        6 => Ident::try_from(s).expect("identifier"),
        _ => Ident::try_from(String::from(Ident::new(s))).expect("identifier"),
    }
}

fn id(src: &mut Src, i: &m::Id) -> Decorated<Ident> {
    let n = ident(src, &i.s);
    let n = match src.below(3) {
        0 => Decorated::new(n),
        1 => Decorated::from(n),
        _ => Decorated::new(Decorated::from(n).into_value()),
    };
    ornate(src, n, &i.d)
}

/// Elements into a list: by pushing, collecting, extending, or with detours that cancel out.
fn fill<L, X>(
    src: &mut Src,
    items: Vec<X>,
    from_vec: impl Fn(Vec<X>) -> L,
    collect: impl Fn(Vec<X>) -> L,
    push: impl Fn(&mut L, X),
    insert: impl Fn(&mut L, usize, X),
    extend: impl Fn(&mut L, Vec<X>),
    undo: impl Fn(&mut L, usize),
    spare: impl Fn() -> X,
) -> L {
    match src.below(6) {
        0 => {
            let mut l = from_vec(vec![]);
            for x in items {
                push(&mut l, x);
            }
            l
        }
        1 => from_vec(items),
        2 => collect(items),
        3 => {
            let mut l = collect(vec![]);
            let mut items = items;
            let n = src.below(items.len() + 1);
            let rest = items.split_off(n);
            extend(&mut l, items);
            extend(&mut l, rest);
            l
        }
        4 => {
            let mut l = from_vec(vec![]);
            for x in items.into_iter().rev() {
                insert(&mut l, 0, x);
            }
            l
        }
        _ => {
            let at = src.below(items.len() + 1);
            let mut l = from_vec(items);
            insert(&mut l, at, spare());
            undo(&mut l, at);
            l
        }
    }
}

pub fn edit_body(src: &mut Src, b: &B) -> xs::Body {
    let items: Vec<xs::Structure> = b.items.iter().map(|s| edit_s(src, s)).collect();
    let mut body = if src.below(3) == 0 {
        let mut build = xs::Body::builder();
        for s in items {
            build = match s {
                xs::Structure::Attribute(a) if src.below(3) != 0 => match src.below(2) {
                    0 => build.attribute(a),
                    _ => build.attributes([a]),
                },
                xs::Structure::Block(x) if src.below(3) != 0 => match src.below(2) {
                    0 => build.block(x),
                    _ => build.blocks([x]),
                },
                s if src.below(2) == 0 => build.structures([s]),
                s => build.structure(s),
            };
        }
        build.into()
    } else {
        fill(
            src,
            items,
            xs::Body::from,
            xs::Body::from_iter,
            xs::Body::push,
            xs::Body::insert,
            |l, x| l.extend(x),
            |l, n| {
                l.remove(n);
            },
            || xs::Block::new(Ident::new("spare")).into(),
        )
    };
    if b.oneline || src.below(3) == 1 {
        body.set_prefer_oneline(b.oneline);
    }
    if b.omit || src.below(3) == 1 {
        body.set_prefer_omit_trailing_newline(b.omit);
    }
    ornate(src, body, &b.d)
}

pub fn edit_s(src: &mut Src, s: &S) -> xs::Structure {
    match s {
        S::Attr { d, key, e } => {
            let a = xs::Attribute::new(id(src, key), edit_e(src, e));
            let a: xs::Structure = ornate(src, a, d).into();
            match src.below(2) {
                0 => a,
                _ => a.into_attribute().expect("attribute").into(),
            }
        }
        S::Block {
            d,
            ident,
            labels,
            body,
        } => {
            let i = id(src, ident);
            let labels: Vec<xs::BlockLabel> = labels.iter().map(|l| edit_label(src, l)).collect();
            let want = edit_body(src, body);
            let plain = want.decor() == &Decor::default()
                && !want.prefer_oneline()
                && !want.prefer_omit_trailing_newline();
            let block = if plain && src.below(2) == 0 {
                let mut build = xs::Block::builder(i);
                let n = src.below(want.len() + 1);
                let early = src.below(2) == 0;
                if early {
                    for l in &labels {
                        build = build.label(l.clone());
                    }
                }
                for (at, s) in want.into_iter().enumerate() {
                    build = match s {
                        xs::Structure::Attribute(a) if at < n => build.attributes([a]),
                        xs::Structure::Attribute(a) => build.attribute(a),
                        xs::Structure::Block(x) if at < n => build.blocks([x]),
                        xs::Structure::Block(x) if at == n => build.structures([x]),
                        s => build.structure(s),
                    };
                }
                if !early {
                    build = build.labels(labels);
                }
                match src.below(2) {
                    0 => build.build(),
                    _ => build.into(),
                }
            } else {
                let mut block = xs::Block::new(i);
                block.labels = labels;
                block.body = want;
                block
            };
            let b: xs::Structure = ornate(src, block, d).into();
            match src.below(2) {
                0 => b,
                _ => b.into_block().expect("block").into(),
            }
        }
    }
}

fn edit_label(src: &mut Src, (string, l): &(bool, m::Id)) -> xs::BlockLabel {
    let bare = l.d.pre.is_none() && l.d.suf.is_none();
    match (*string, bare) {
        (true, true) if src.below(2) == 0 => match src.below(2) {
            0 => xs::BlockLabel::from(l.s.as_str()),
            _ => xs::BlockLabel::from(l.s.clone()),
        },
        (true, _) => {
            let s = Decorated::new(l.s.clone());
            xs::BlockLabel::from(ornate(src, s, &l.d))
        }
        (false, true) if src.below(2) == 0 => xs::BlockLabel::from(ident(src, &l.s)),
        (false, _) => xs::BlockLabel::from(id(src, l)),
    }
}

fn edit_key(src: &mut Src, k: &Key) -> xe::ObjectKey {
    match k {
        Key::Id(i) if i.d.pre.is_none() && i.d.suf.is_none() && src.below(2) == 0 => {
            xe::ObjectKey::from(ident(src, &i.s))
        }
        Key::Id(i) => xe::ObjectKey::from(id(src, i)),
        Key::Ex(e) => xe::ObjectKey::from(edit_e(src, e)),
    }
}

fn edit_value(src: &mut Src, it: &m::Item) -> xe::ObjectValue {
    let e = edit_e(src, &it.e);
    let mut v = match src.below(3) {
        0 => xe::ObjectValue::new(e),
        1 => xe::ObjectValue::from(e),
        _ => xe::ObjectValue::from(xe::ObjectValue::new(e).into_expr()),
    };
    v.set_assignment(if it.colon {
        xe::ObjectValueAssignment::Colon
    } else {
        xe::ObjectValueAssignment::Equals
    });
    v.set_terminator(match it.term {
        m::Term::None => xe::ObjectValueTerminator::None,
        m::Term::Newline => xe::ObjectValueTerminator::Newline,
        m::Term::Comma => xe::ObjectValueTerminator::Comma,
    });
    v
}

fn edit_op(src: &mut Src, o: &m::Op) -> Decorated<xe::TraversalOperator> {
    let k = match &o.k {
        OpK::Attr(i) => xe::TraversalOperator::GetAttr(id(src, i)),
        OpK::Index(e) => xe::TraversalOperator::Index(edit_e(src, e)),
        OpK::Legacy(n, d) => {
            let n = Decorated::from(*n);
            xe::TraversalOperator::LegacyIndex(ornate(src, n, d))
        }
        OpK::AttrSplat(d) => xe::TraversalOperator::AttrSplat(ornate(src, xe::Splat.into(), d)),
        OpK::FullSplat(d) => xe::TraversalOperator::FullSplat(ornate(src, xe::Splat.into(), d)),
    };
    ornate(src, k.into(), &o.d)
}

/// Numbers through the narrowest and the widest types that hold them.
macro_rules! narrowest {
    ($src:expr, $n:expr, $($t:ty),*) => {
        match $n {
            Num::U(u) => {
                $(if let (Ok(x), 0) = (<$t>::try_from(*u), $src.below(3)) { return x.into(); })*
                (*u).into()
            }
            Num::I(i) => {
                $(if let (Ok(x), 0) = (<$t>::try_from(*i), $src.below(3)) { return x.into(); })*
                (*i).into()
            }
            Num::F(f) => {
                if f64::from(*f as f32) == *f && $src.below(2) == 0 { return (*f as f32).into(); }
                (*f).into()
            }
        }
    };
}

fn edit_number(src: &mut Src, n: &Num) -> xe::Expression {
    narrowest!(src, n, i8, u8, i16, u16, i32, u32, i64, u64, isize, usize)
}

fn hcl_number(src: &mut Src, n: &Num) -> hcl::Expression {
    narrowest!(src, n, i8, u8, i16, u16, i32, u32, i64, u64, isize, usize)
}

fn value_number(src: &mut Src, n: &Num) -> hcl::Value {
    narrowest!(src, n, i8, u8, i16, u16, i32, u32, i64, u64, isize, usize)
}

pub fn edit_e(src: &mut Src, e: &E) -> xe::Expression {
    use xe::Expression as X;
    let x: X = match &e.k {
        K::Null => X::null(),
        K::Bool(b) => match src.below(2) {
            0 => X::from(*b),
            _ => X::from(Decorated::new(*b)),
        },
        K::Num(n, None) => match src.below(4) {
            0 => X::from(number(n)),
            1 => X::from(Formatted::from(number(n))),
            2 => X::from(Formatted::new(Formatted::new(number(n)).into_value())),
            _ => edit_number(src, n),
        },
        K::Str(s) => match src.below(4) {
            0 => X::from(s.as_str()),
            1 => X::from(s.clone()),
            2 => X::from(Cow::Borrowed(s.as_str())),
            _ => X::from(Decorated::from(s.clone())),
        },
        K::Arr(a) => {
            let items: Vec<X> = a.items.iter().map(|e| edit_e(src, e)).collect();
            let simple = !a.comma && a.trail.is_empty();
            match src.below(5) {
                0 if simple => X::from(items.as_slice()),
                1 if simple => X::from(items),
                2 if simple => X::from_iter(items),
                _ => {
                    let mut arr = fill(
                        src,
                        items,
                        xe::Array::from,
                        xe::Array::from_iter,
                        xe::Array::push,
                        xe::Array::insert,
                        |l, x| l.extend(x),
                        |l, n| {
                            l.remove(n);
                        },
                        || X::from("spare"),
                    );
                    arr.set_trailing_comma(a.comma);
                    arr.set_trailing(raw(src, &a.trail));
                    X::from(arr)
                }
            }
        }
        K::Obj(o) => {
            let items: Vec<(xe::ObjectKey, xe::ObjectValue)> = o
                .items
                .iter()
                .map(|it| (edit_key(src, &it.key), edit_value(src, it)))
                .collect();
            let mut obj = match src.below(5) {
                0 if o.trail.is_empty() => return dec(X::from_iter(items), &e.d),
                1 => xe::Object::from_iter(items),
                2 => {
                    let mut obj = xe::Object::with_capacity(src.below(4));
                    obj.extend(items);
                    obj
                }
                3 => {
                    let mut obj = xe::Object::from_iter(items);
                    let k = xe::ObjectKey::from(X::from("\u{0}spare"));
                    obj.insert(k.clone(), X::null());
                    obj.remove(&k);
                    obj
                }
                _ => {
                    let mut map = vecmap::VecMap::new();
                    for (k, v) in items {
                        map.insert(k, v);
                    }
                    xe::Object::from(map)
                }
            };
            obj.set_trailing(raw(src, &o.trail));
            X::from(obj)
        }
        K::Tmpl(parts) => {
            let parts = edit_elements(src, parts);
            X::from(match src.below(3) {
                0 => xt::StringTemplate::from(edit_parts(src, parts)),
                1 => xt::StringTemplate::from_iter(parts),
                _ => xt::StringTemplate::from(xt::Template::from(xt::StringTemplate::from(parts))),
            })
        }
        K::Heredoc(h) => {
            let parts = edit_elements(src, &h.parts);
            let mut t =
                xt::HeredocTemplate::new(ident(src, &h.delim), edit_parts(src, parts));
            if let Some(n) = h.indent {
                t.set_indent(n);
            }
            t.set_trailing(raw(src, &h.trail));
            X::from(t)
        }
        K::Var(s) => match src.below(2) {
            0 => X::from(ident(src, s)),
            _ => X::from(Decorated::new(ident(src, s))),
        },
        K::Trav(base, ops) => X::from(xe::Traversal::new(
            edit_e(src, base),
            ops.iter().map(|o| edit_op(src, o)).collect::<Vec<_>>(),
        )),
        K::Call(c) => {
            let bare = c.ns.is_empty() && c.name.d.pre.is_none() && c.name.d.suf.is_none();
            let name = match src.below(3) {
                0 if bare => xe::FuncName::from(ident(src, &c.name.s)),
                1 if c.ns.is_empty() => xe::FuncName::from(id(src, &c.name)),
                _ => {
                    let mut name = xe::FuncName::new(id(src, &c.name));
                    let ns: Vec<Decorated<Ident>> = c.ns.iter().map(|i| id(src, i)).collect();
                    if src.below(2) == 0 {
                        name.set_namespace([Ident::new("spare")]);
                    }
                    name.set_namespace(ns);
                    name
                }
            };
            let args: Vec<X> = c.args.iter().map(|e| edit_e(src, e)).collect();
            let mut args = fill(
                src,
                args,
                xe::FuncArgs::from,
                xe::FuncArgs::from_iter,
                xe::FuncArgs::push,
                xe::FuncArgs::insert,
                |l, x| l.extend(x),
                |l, n| {
                    l.remove(n);
                },
                || X::from("spare"),
            );
            args.set_expand_final(c.expand);
            args.set_trailing_comma(c.comma);
            args.set_trailing(raw(src, &c.trail));
            X::from(xe::FuncCall::new(name, args))
        }
        K::Paren(e) => {
            let p = xe::Parenthesis::new(edit_e(src, e));
            match src.below(2) {
                0 => X::from(p),
                _ => X::from(xe::Parenthesis::new(p.into_inner())),
            }
        }
        K::Cond(c) => X::from(xe::Conditional::new(
            edit_e(src, &c[0]),
            edit_e(src, &c[1]),
            edit_e(src, &c[2]),
        )),
        K::Un(neg, e) => {
            let o = match src.below(2) {
                0 => Spanned::new(un(*neg)),
                _ => un(*neg).into(),
            };
            X::from(xe::UnaryOp::new(o, edit_e(src, e)))
        }
        K::Bin(l, o, d, r) => {
            let l = edit_e(src, l);
            let o = ornate(src, Decorated::from(bin(*o)), d);
            X::from(xe::BinaryOp::new(l, o, edit_e(src, r)))
        }
        // Texts that can only be set by reading them.
        K::Num(_, Some(_)) => crate::make::edit_e(&E::new(e.k.clone())),
        K::For(f) if f.grouping && !f.gtrail.is_empty() => {
            crate::make::edit_e(&E::new(e.k.clone()))
        }
        K::For(f) => {
            let mut intro = xe::ForIntro::new(id(src, &f.val_var), edit_e(src, &f.coll));
            intro.key_var = f.key_var.as_ref().map(|i| id(src, i));
            let intro = ornate(src, intro, &f.d);
            let mut x = xe::ForExpr::new(intro, edit_e(src, &f.val));
            x.key_expr = f.key.as_ref().map(|e| edit_e(src, e));
            x.grouping = f.grouping;
            x.cond = f.cond.as_ref().map(|(d, c)| {
                let c = edit_e(src, c);
                let c = match src.below(2) {
                    0 => xe::ForCond::new(c),
                    _ => c.into(),
                };
                ornate(src, c, d)
            });
            X::from(x)
        }
    };
    ornate(src, x, &e.d)
}

fn edit_parts(src: &mut Src, parts: Vec<xt::Element>) -> xt::Template {
    fill(
        src,
        parts,
        xt::Template::from,
        xt::Template::from_iter,
        xt::Template::push,
        xt::Template::insert,
        |l, x| l.extend(x),
        |l, n| {
            l.remove(n);
        },
        || xt::Element::from("spare"),
    )
}

fn edit_elements(src: &mut Src, parts: &[T]) -> Vec<xt::Element> {
    parts.iter().map(|t| edit_element(src, t)).collect()
}

fn edit_template(src: &mut Src, parts: &[T]) -> xt::Template {
    let parts = edit_elements(src, parts);
    edit_parts(src, parts)
}

fn edit_element(src: &mut Src, t: &T) -> xt::Element {
    match t {
        T::Lit(s) => match src.below(3) {
            0 => xt::Element::from(s.as_str()),
            1 => xt::Element::from(s.clone()),
            _ => xt::Element::from(Spanned::new(s.clone())),
        },
        T::Interp(e, s) => {
            let mut i = xt::Interpolation::new(edit_e(src, e));
            i.strip = (*s).into();
            i.into()
        }
        T::If(i) => {
            let mut ife = xt::IfTemplateExpr::new(edit_e(src, &i.cond), edit_template(src, &i.body));
            ife.strip = i.strip.into();
            ife.set_preamble(raw(src, &i.pre));
            let els = i.els.as_ref().map(|(mk, parts)| {
                let mut x = xt::ElseTemplateExpr::new(edit_template(src, parts));
                x.strip = mk.strip.into();
                x.set_preamble(raw(src, &mk.pre));
                x.set_trailing(raw(src, &mk.trail));
                x
            });
            let mut end = match src.below(2) {
                0 => xt::EndifTemplateExpr::new(),
                _ => xt::EndifTemplateExpr::default(),
            };
            end.strip = i.end.strip.into();
            end.set_preamble(raw(src, &i.end.pre));
            end.set_trailing(raw(src, &i.end.trail));
            xt::Element::from(xt::Directive::from(xt::IfDirective::new(ife, els, end)))
        }
        T::For(f) => {
            let mut fe = xt::ForTemplateExpr::new(
                f.key_var.as_ref().map(|i| id(src, i)),
                id(src, &f.val_var),
                edit_e(src, &f.coll),
                edit_template(src, &f.body),
            );
            fe.strip = f.strip.into();
            fe.set_preamble(raw(src, &f.pre));
            let mut end = match src.below(2) {
                0 => xt::EndforTemplateExpr::new(),
                _ => xt::EndforTemplateExpr::default(),
            };
            end.strip = f.end.strip.into();
            end.set_preamble(raw(src, &f.end.pre));
            end.set_trailing(raw(src, &f.end.trail));
            xt::Element::from(xt::Directive::from(xt::ForDirective::new(fe, end)))
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Structural representation

fn hid(src: &mut Src, s: &str) -> hcl::Identifier {
    match src.below(7) {
        0 => hcl::Identifier::new(s).expect("identifier"),
        1 => hcl::Identifier::sanitized(s),
        2 => hcl::Identifier::unchecked(s),
        3 => hcl::Identifier::from(s),
        4 => hcl::Identifier::from(s.to_string()),
        5 => hcl::Identifier::from(Cow::Borrowed(s)),
        _ => hcl::Identifier::from(Ident::from(hcl::Identifier::from(Ident::new(s)))),
    }
}

fn variable(src: &mut Src, s: &str) -> hcl::expr::Variable {
    use hcl::expr::Variable;
    match src.below(6) {
        0 => Variable::new(s).expect("identifier"),
        1 => Variable::new(s.to_string()).expect("identifier"),
        2 => Variable::sanitized(s),
        3 => Variable::unchecked(s),
        4 => Variable::from(hid(src, s)),
        _ => Variable::from(hcl::Identifier::from(Variable::from(hid(src, s)))),
    }
}

pub fn hcl_body(src: &mut Src, b: &B) -> hcl::Body {
    let items: Vec<hcl::Structure> = b.items.iter().map(|s| hcl_s(src, s)).collect();
    match src.below(8) {
        0 => hcl::Body::from_iter(items),
        1 => hcl::Body::from(items),
        2 => hcl::Body::from(items.as_slice()),
        3 => {
            let mut items = items;
            hcl::Body::from(items.as_mut_slice())
        }
        4 if items.len() == 1 => match src.below(2) {
            0 => hcl::Body::from(items.into_iter().next().unwrap()),
            _ => hcl::Body::from([items.into_iter().next().unwrap()]),
        },
        5 => {
            let mut body = hcl::Body::default();
            body.extend(items);
            body
        }
        6 => hcl::Body(hcl::Body::from(items).into_inner()),
        _ => {
            let mut build = match src.below(2) {
                0 => hcl::Body::builder(),
                _ => hcl::structure::BodyBuilder::default(),
            };
            for s in items {
                build = match s {
                    hcl::Structure::Attribute(a) => match src.below(4) {
                        0 => build.add_attribute(a),
                        1 => build.add_attributes([a]),
                        2 => build.add_attribute((a.key, a.expr)),
                        _ => build.add_structure(a),
                    },
                    hcl::Structure::Block(x) => match src.below(4) {
                        0 => build.add_block(x),
                        1 => build.add_blocks([x]),
                        2 => build.add_structures([x]),
                        _ => build.add_block((x.identifier, x.labels, x.body)),
                    },
                };
            }
            build.build()
        }
    }
}

fn hcl_label(src: &mut Src, (string, l): &(bool, m::Id)) -> hcl::BlockLabel {
    use hcl::BlockLabel as L;
    if *string {
        match src.below(5) {
            0 => L::String(l.s.clone()),
            1 => L::from(l.s.as_str()),
            2 => L::from(l.s.clone()),
            3 => L::from(&l.s),
            _ => L::from(Cow::Borrowed(l.s.as_str())),
        }
    } else {
        L::from(hid(src, &l.s))
    }
}

pub fn hcl_s(src: &mut Src, s: &S) -> hcl::Structure {
    match s {
        S::Attr { key, e, .. } => {
            let x = hcl_e(src, e);
            match src.below(4) {
                0 => hcl::Attribute::new(hid(src, &key.s), x).into(),
                1 => hcl::Attribute::new(key.s.as_str(), x).into(),
                2 => hcl::Structure::from(hcl::Attribute::from((hid(src, &key.s), x))),
                _ => hcl::Structure::from(hcl::Attribute::new(hid(src, &key.s), x))
                    .into_attribute()
                    .expect("attribute")
                    .into(),
            }
        }
        S::Block {
            ident,
            labels,
            body,
            ..
        } => {
            let i = hid(src, &ident.s);
            let labels: Vec<hcl::BlockLabel> = labels.iter().map(|l| hcl_label(src, l)).collect();
            let body = hcl_body(src, body);
            let b = match src.below(5) {
                0 => {
                    let mut b = hcl::Block::new(i);
                    b.labels = labels;
                    b.body = body;
                    b
                }
                1 if labels.is_empty() => hcl::Block::from((i, body)),
                2 => hcl::Block::from((i, labels, body)),
                3 => hcl::Block::builder(i)
                    .add_labels(labels)
                    .add_structures(body)
                    .build(),
                _ => {
                    let mut build = hcl::structure::BlockBuilder::new(i);
                    let early = src.below(2) == 0;
                    if early {
                        build = build.add_labels(labels.clone());
                    }
                    for s in body {
                        build = match s {
                            hcl::Structure::Attribute(a) => match src.below(3) {
                                0 => build.add_attribute(a),
                                1 => build.add_attributes([a]),
                                _ => build.add_structure(a),
                            },
                            hcl::Structure::Block(x) => match src.below(3) {
                                0 => build.add_block(x),
                                1 => build.add_blocks([x]),
                                _ => build.add_structures([x]),
                            },
                        };
                    }
                    if !early {
                        for l in labels {
                            build = build.add_label(l);
                        }
                    }
                    build.build()
                }
            };
            match src.below(2) {
                0 => b.into(),
                _ => hcl::Structure::from(b).into_block().expect("block").into(),
            }
        }
    }
}

pub fn hcl_e(src: &mut Src, e: &E) -> hcl::Expression {
    use hcl::expr::{self, Expression as X};
    match &e.k {
        K::Null => match src.below(3) {
            0 => X::Null,
            1 => X::from(()),
            _ => X::from(f64::NAN),
        },
        K::Bool(b) => X::from(*b),
        K::Num(n, _) => match src.below(2) {
            0 => X::from(number(n)),
            _ => hcl_number(src, n),
        },
        K::Str(s) => match src.below(3) {
            0 => X::from(s.as_str()),
            1 => X::from(s.clone()),
            _ => X::from(Cow::Borrowed(s.as_str())),
        },
        K::Arr(a) => {
            let items: Vec<X> = a.items.iter().map(|e| hcl_e(src, e)).collect();
            match src.below(4) {
                0 => X::from(items.as_slice()),
                1 => X::from(items),
                2 => X::from_iter(items),
                _ => X::Array(items),
            }
        }
        K::Obj(o) => {
            let items: Vec<(hcl::ObjectKey, X)> = o
                .items
                .iter()
                .map(|it| {
                    let k = match &it.key {
                        Key::Id(i) => hcl::ObjectKey::from(hid(src, &i.s)),
                        Key::Ex(e) => hcl::ObjectKey::from(hcl_e(src, e)),
                    };
                    (k, hcl_e(src, &it.e))
                })
                .collect();
            match src.below(3) {
                0 => X::from_iter(items),
                1 => X::from(expr::Object::from_iter(items)),
                _ => {
                    let mut o = expr::Object::new();
                    for (k, v) in items {
                        o.insert(k, v);
                    }
                    X::from(o)
                }
            }
        }
        K::Tmpl(parts) => {
            let text = m::render_template(parts);
            match src.below(3) {
                0 => X::from(expr::TemplateExpr::QuotedString(text)),
                1 => X::from(expr::TemplateExpr::from(text)),
                _ => X::from(expr::TemplateExpr::from(text.as_str())),
            }
        }
        K::Heredoc(h) => {
            let strip = match (src.below(2), h.indent.is_some()) {
                (0, true) => expr::HeredocStripMode::Indent,
                (0, false) => expr::HeredocStripMode::None,
                (_, true) => "<<-".parse().expect("strip mode"),
                (_, false) => "<<".parse().expect("strip mode"),
            };
            let x = expr::Heredoc::new(hid(src, &h.delim), m::render_template(&h.parts))
                .with_strip_mode(strip);
            match src.below(2) {
                0 => X::from(x),
                _ => X::from(expr::TemplateExpr::from(x)),
            }
        }
        K::Var(s) => X::from(variable(src, s)),
        K::Trav(base, ops) => {
            let base = hcl_e(src, base);
            let ops: Vec<expr::TraversalOperator> = ops
                .iter()
                .map(|o| match &o.k {
                    OpK::Attr(i) => expr::TraversalOperator::from(hid(src, &i.s)),
                    OpK::Index(e) => expr::TraversalOperator::from(hcl_e(src, e)),
                    OpK::Legacy(n, _) => expr::TraversalOperator::from(*n),
                    OpK::AttrSplat(_) => expr::TraversalOperator::AttrSplat,
                    OpK::FullSplat(_) => expr::TraversalOperator::FullSplat,
                })
                .collect();
            let legacy = ops
                .iter()
                .any(|o| matches!(o, expr::TraversalOperator::LegacyIndex(_)));
            if legacy || src.below(2) == 0 {
                return X::from(expr::Traversal::new(base, ops));
            }
            let mut build = expr::Traversal::builder(base);
            for o in ops {
                build = match o {
                    expr::TraversalOperator::GetAttr(i) => build.attr(i),
                    expr::TraversalOperator::Index(e) => build.index(e),
                    expr::TraversalOperator::AttrSplat => build.attr_splat(),
                    _ => build.full_splat(),
                };
            }
            X::from(build.build())
        }
        K::Call(c) => {
            let mut name = match src.below(2) {
                0 => expr::FuncName::new(hid(src, &c.name.s)),
                _ => expr::FuncName::from(hid(src, &c.name.s)),
            };
            let ns: Vec<hcl::Identifier> = c.ns.iter().map(|i| hid(src, &i.s)).collect();
            if !ns.is_empty() {
                name = name.with_namespace(ns);
            }
            let args: Vec<X> = c.args.iter().map(|a| hcl_e(src, a)).collect();
            let expand = c.expand && !c.args.is_empty();
            if src.below(2) == 0 {
                let mut call = expr::FuncCall::new(name);
                call.args = args;
                call.expand_final = expand;
                return X::from(call);
            }
            let mut build = expr::FuncCall::builder(name);
            let early = src.below(2) == 0;
            if early {
                build = build.expand_final(expand);
            }
            for a in args {
                build = build.arg(a);
            }
            if !early {
                build = build.expand_final(expand);
            }
            X::from(build.build())
        }
        K::Paren(e) => X::Parenthesis(Box::new(hcl_e(src, e))),
        K::Cond(c) => X::from(expr::Conditional::new(
            hcl_e(src, &c[0]),
            hcl_e(src, &c[1]),
            hcl_e(src, &c[2]),
        )),
        K::Un(neg, e) => {
            let o = expr::UnaryOp::new(un(*neg), hcl_e(src, e));
            match src.below(2) {
                0 => X::from(o),
                _ => X::from(expr::Operation::from(o)),
            }
        }
        K::Bin(l, o, _, r) => {
            let l = hcl_e(src, l);
            let o = expr::BinaryOp::new(l, bin(*o), hcl_e(src, r));
            match src.below(2) {
                0 => X::from(o),
                _ => X::from(expr::Operation::from(o)),
            }
        }
        K::For(f) => {
            let mut x =
                expr::ForExpr::new(hid(src, &f.val_var.s), hcl_e(src, &f.coll), hcl_e(src, &f.val));
            let early = src.below(2) == 0;
            if early {
                x = x.with_grouping(f.grouping);
            }
            if let Some((_, c)) = &f.cond {
                x = x.with_cond_expr(hcl_e(src, c));
            }
            if let Some(k) = &f.key {
                x = x.with_key_expr(hcl_e(src, k));
            }
            if let Some(k) = &f.key_var {
                x = x.with_key_var(hid(src, &k.s));
            }
            if !early {
                x = x.with_grouping(f.grouping);
            }
            X::from(x)
        }
    }
}

pub fn hcl_template(src: &mut Src, parts: &[T]) -> hcl::Template {
    use hcl::template::{Directive, Element, ForDirective, IfDirective, Interpolation};
    let mut t = hcl::Template::new();
    let mut elements = Vec::new();
    let collect = src.below(3) == 0;
    for p in parts {
        let e: Element = match p {
            T::Lit(s) => {
                if !collect && src.below(2) == 0 {
                    t = t.add_literal(s.as_str());
                    continue;
                }
                match src.below(2) {
                    0 => s.as_str().into(),
                    _ => s.clone().into(),
                }
            }
            T::Interp(e, (false, false)) if !collect && src.below(2) == 0 => {
                t = t.add_interpolation(hcl_e(src, e));
                continue;
            }
            T::Interp(e, s) => {
                let i = match src.below(2) {
                    0 => Interpolation::new(hcl_e(src, e)),
                    _ => Interpolation::from(hcl_e(src, e)),
                }
                .with_strip(strip(*s));
                if !collect && src.below(2) == 0 {
                    t = t.add_interpolation(i);
                    continue;
                }
                i.into()
            }
            T::If(i) => {
                let mut d = IfDirective::new(hcl_e(src, &i.cond), hcl_template(src, &i.body))
                    .with_endif_strip(strip(i.end.strip))
                    .with_if_strip(strip(i.strip));
                if let Some((mk, parts)) = &i.els {
                    d = d.with_else_strip(strip(mk.strip));
                    d = d.with_false_template(hcl_template(src, parts));
                }
                if !collect && src.below(2) == 0 {
                    t = t.add_directive(d);
                    continue;
                }
                Directive::from(d).into()
            }
            T::For(f) => {
                let mut d = ForDirective::new(
                    hid(src, &f.val_var.s),
                    hcl_e(src, &f.coll),
                    hcl_template(src, &f.body),
                )
                .with_endfor_strip(strip(f.end.strip))
                .with_for_strip(strip(f.strip));
                if let Some(k) = &f.key_var {
                    d = d.with_key_var(hid(src, &k.s));
                }
                if !collect && src.below(2) == 0 {
                    t = t.add_directive(d);
                    continue;
                }
                Directive::from(d).into()
            }
        };
        if collect {
            elements.push(e);
        } else {
            t = t.add_element(e);
        }
    }
    if collect {
        hcl::Template::from_iter(elements)
    } else {
        t
    }
}

/// The value of a literal.
pub fn value(src: &mut Src, e: &E) -> hcl::Value {
    use hcl::Value as V;
    match &e.k {
        K::Null => match src.below(3) {
            0 => V::Null,
            1 => V::from(()),
            _ => V::from(f64::INFINITY),
        },
        K::Bool(b) => V::from(*b),
        K::Num(n, _) => match src.below(2) {
            0 => V::from(number(n)),
            _ => value_number(src, n),
        },
        K::Str(s) => match src.below(3) {
            0 => V::from(s.as_str()),
            1 => V::from(s.clone()),
            _ => V::from(Cow::Borrowed(s.as_str())),
        },
        K::Arr(a) => {
            let items: Vec<V> = a.items.iter().map(|e| value(src, e)).collect();
            match src.below(4) {
                0 => V::from(items.as_slice()),
                1 => V::from(items),
                2 => V::from_iter(items),
                _ => V::Array(items),
            }
        }
        K::Obj(o) => {
            let items: Vec<(String, V)> = o
                .items
                .iter()
                .map(|it| {
                    let k = match &it.key {
                        Key::Id(i) => i.s.clone(),
                        Key::Ex(e) => match &e.k {
                            K::Str(s) => s.clone(),
                            _ => hcl::ObjectKey::from(hcl_e(src, e)).to_string(),
                        },
                    };
                    (k, value(src, &it.e))
                })
                .collect();
            match src.below(3) {
                0 => V::from_iter(items),
                1 => V::from(hcl::Map::from_iter(items)),
                _ => {
                    let mut o = hcl::Map::new();
                    for (k, v) in items {
                        o.insert(k, v);
                    }
                    V::Object(o)
                }
            }
        }
        _ => V::Null,
    }
}
