//! Every accessor of a node tells the same about it.

use hcl_edit::expr::{self as xe, Expression as X};
use hcl_edit::structure as xs;
use hcl_edit::template as xt;
use hcl_edit::visit::{self, Visit};
use std::ptr::eq;

#[derive(Default)]
struct Walk {
    bad: Option<String>,
}

impl Walk {
    fn expect(&mut self, ok: bool, node: &dyn std::fmt::Debug) {
        if !ok && self.bad.is_none() {
            self.bad = Some(format!("accessors of {node:?}"));
        }
    }
}

/// Exactly the accessor of the own kind says so and gives the node itself.
fn expr(e: &X) -> bool {
    let is = [
        e.is_null(),
        e.is_bool(),
        e.is_number(),
        e.is_str(),
        e.is_array(),
        e.is_object(),
        e.is_string_template(),
        e.is_heredoc_template(),
        e.is_parenthesis(),
        e.is_variable(),
        e.is_conditional(),
        e.is_func_call(),
        e.is_traversal(),
        e.is_unary_op(),
        e.is_binary_op(),
        e.is_for_expr(),
    ];
    let has = [
        e.is_null(),
        e.as_bool().is_some(),
        e.as_number().is_some(),
        e.as_str().is_some(),
        e.as_array().is_some(),
        e.as_object().is_some(),
        e.as_string_template().is_some(),
        e.as_heredoc_template().is_some(),
        e.as_parenthesis().is_some(),
        e.as_variable().is_some(),
        e.as_conditional().is_some(),
        e.as_func_call().is_some(),
        e.as_traversal().is_some(),
        e.as_unary_op().is_some(),
        e.as_binary_op().is_some(),
        e.as_for_expr().is_some(),
    ];
    let (own, same) = match e {
        X::Null(_) => (0, true),
        X::Bool(x) => (1, e.as_bool() == Some(*x.value())),
        X::Number(x) => (2, e.as_number().is_some_and(|y| eq(x.value(), y))),
        X::String(x) => (3, e.as_str() == Some(x.value().as_str())),
        X::Array(x) => (4, e.as_array().is_some_and(|y| eq(x, y))),
        X::Object(x) => (5, e.as_object().is_some_and(|y| eq(x, y))),
        X::StringTemplate(x) => (6, e.as_string_template().is_some_and(|y| eq(x, y))),
        X::HeredocTemplate(x) => (7, e.as_heredoc_template().is_some_and(|y| eq(&**x, y))),
        X::Parenthesis(x) => (8, e.as_parenthesis().is_some_and(|y| eq(&**x, y))),
        X::Variable(x) => (9, e.as_variable().is_some_and(|y| eq(x.value(), y))),
        X::Conditional(x) => (10, e.as_conditional().is_some_and(|y| eq(&**x, y))),
        X::FuncCall(x) => (11, e.as_func_call().is_some_and(|y| eq(&**x, y))),
        X::Traversal(x) => (12, e.as_traversal().is_some_and(|y| eq(&**x, y))),
        X::UnaryOp(x) => (13, e.as_unary_op().is_some_and(|y| eq(&**x, y))),
        X::BinaryOp(x) => (14, e.as_binary_op().is_some_and(|y| eq(&**x, y))),
        X::ForExpr(x) => (15, e.as_for_expr().is_some_and(|y| eq(&**x, y))),
    };
    let template = match e {
        X::StringTemplate(x) => Some(&**x),
        X::HeredocTemplate(x) => Some(&x.template),
        _ => None,
    };
    same && (0..is.len()).all(|i| is[i] == (i == own) && has[i] == (i == own))
        && e.is_template() == template.is_some()
        && match (e.as_template(), template) {
            (Some(a), Some(b)) => eq(a, b),
            (a, b) => a.is_none() && b.is_none(),
        }
}

fn number(n: &hcl::Number) -> bool {
    // Exactly one of the kinds a number can be read back from.
    let (u, i, f) = (n.as_u64(), n.as_i64(), n.as_f64());
    n.is_u64() == u.is_some()
        && n.is_i64() == i.is_some()
        && n.is_f64() == (u.is_none() && i.is_none())
        // Whole numbers are integers where possible.
        && (!n.is_f64() || f.is_some_and(|f| f.fract() != 0.0 || f >= 2f64.powi(64) || f < -(2f64.powi(63))))
        && u.is_none_or(|u| f == Some(u as f64) && hcl::Number::from(u) == *n)
        && i.is_none_or(|i| f == Some(i as f64) && hcl::Number::from(i) == *n)
        && f.is_some_and(|f| f.is_finite() && (!n.is_f64() || hcl::Number::from_f64(f).as_ref() == Some(n)))
}

impl Visit for Walk {
    fn visit_structure(&mut self, s: &xs::Structure) {
        let (attr, block) = match s {
            xs::Structure::Attribute(a) => (Some(a), None),
            xs::Structure::Block(b) => (None, Some(b)),
        };
        let ok = s.is_attribute() == attr.is_some()
            && s.is_block() == block.is_some()
            && s.as_attribute().map(std::ptr::from_ref) == attr.map(std::ptr::from_ref)
            && s.as_block().map(std::ptr::from_ref) == block.map(std::ptr::from_ref);
        self.expect(ok, s);
        visit::visit_structure(self, s);
    }

    fn visit_attr(&mut self, a: &xs::Attribute) {
        self.expect(a.has_key(a.key.as_str()) && !a.has_key("no such key"), a);
        visit::visit_attr(self, a);
    }

    fn visit_block(&mut self, b: &xs::Block) {
        let labels: Vec<&str> = b.labels.iter().map(xs::BlockLabel::as_str).collect();
        let mut longer = labels.clone();
        longer.push("x");
        let mut other = labels.clone();
        if let Some(l) = other.last_mut() {
            *l = "no such label";
        }
        let ok = b.has_ident(b.ident.as_str())
            && !b.has_ident("no such block")
            && b.is_labeled() == !labels.is_empty()
            && b.has_exact_labels(&labels)
            && b.has_labels(&labels)
            && !b.has_exact_labels(&longer)
            && !b.has_labels(&longer)
            && (labels.is_empty()
                || !b.has_exact_labels(&labels[1..])
                    && !b.has_exact_labels(&labels[..labels.len() - 1])
                    && b.has_labels(&labels[..labels.len() - 1])
                    && b.has_labels(&labels[..1])
                    && !b.has_labels(&other)
                    && !b.has_exact_labels(&other));
        self.expect(ok, b);
        visit::visit_block(self, b);
    }

    fn visit_block_label(&mut self, l: &xs::BlockLabel) {
        let (ident, text) = match l {
            xs::BlockLabel::Ident(i) => (true, i.as_str()),
            xs::BlockLabel::String(s) => (false, s.as_str()),
        };
        self.expect(l.is_ident() == ident && l.is_string() != ident && l.as_str() == text, l);
    }

    fn visit_expr(&mut self, e: &X) {
        self.expect(expr(e), e);
        if let X::Number(n) = e {
            self.expect(number(n.value()), e);
        }
        visit::visit_expr(self, e);
    }

    fn visit_array(&mut self, a: &xe::Array) {
        let n = a.iter().count();
        self.expect(
            a.len() == n && a.is_empty() == (n == 0) && a.get(n).is_none() && (0..n).all(|i| a.get(i).is_some()),
            a,
        );
        visit::visit_array(self, a);
    }

    fn visit_object(&mut self, o: &xe::Object) {
        let n = o.iter().count();
        let ok = o.len() == n
            && o.is_empty() == (n == 0)
            && o.iter().all(|(k, v)| {
                o.contains_key(k)
                    && o.get(k).is_some_and(|w| eq(v, w))
                    && o.get_key_value(k).is_some_and(|(l, w)| eq(k, l) && eq(v, w))
            });
        self.expect(ok, o);
        visit::visit_object(self, o);
    }

    fn visit_object_key(&mut self, k: &xe::ObjectKey) {
        let ok = match k {
            xe::ObjectKey::Ident(i) => {
                k.is_ident() && !k.is_expr() && k.as_ident().is_some_and(|j| eq(i.value(), j)) && k.as_expr().is_none()
            }
            xe::ObjectKey::Expression(e) => {
                !k.is_ident() && k.is_expr() && k.as_ident().is_none() && k.as_expr().is_some_and(|f| eq(e, f))
            }
        };
        self.expect(ok, k);
        visit::visit_object_key(self, k);
    }

    fn visit_func_name(&mut self, n: &xe::FuncName) {
        self.expect(n.is_namespaced() != n.namespace.is_empty(), n);
        visit::visit_func_name(self, n);
    }

    fn visit_func_args(&mut self, a: &xe::FuncArgs) {
        let n = a.iter().count();
        self.expect(a.len() == n && a.is_empty() == (n == 0) && a.get(n).is_none(), a);
        visit::visit_func_args(self, a);
    }

    fn visit_template(&mut self, t: &xt::Template) {
        let n = t.iter().count();
        let single = t.as_single_element();
        self.expect(
            t.len() == n
                && t.is_empty() == (n == 0)
                && single.is_some() == (n == 1)
                && single.is_none_or(|e| t.get(0).is_some_and(|f| eq(e, f))),
            t,
        );
        visit::visit_template(self, t);
    }

    fn visit_element(&mut self, e: &xt::Element) {
        let is = [e.is_literal(), e.is_interpolation(), e.is_directive()];
        let has = [
            e.as_literal().is_some(),
            e.as_interpolation().is_some(),
            e.as_directive().is_some(),
        ];
        let (own, same) = match e {
            xt::Element::Literal(x) => (0, e.as_literal().is_some_and(|y| eq(x, y))),
            xt::Element::Interpolation(x) => (1, e.as_interpolation().is_some_and(|y| eq(x, y))),
            xt::Element::Directive(x) => (2, e.as_directive().is_some_and(|y| eq(&**x, y))),
        };
        self.expect(same && (0..3).all(|i| is[i] == (i == own) && has[i] == (i == own)), e);
        visit::visit_element(self, e);
    }
}

pub fn edit_body(b: &xs::Body) -> Option<String> {
    let mut w = Walk::default();
    w.visit_body(b);
    w.bad
}

/// The accessors of a value; walks it through the mutable ones.
pub fn value(v: &mut hcl::Value) -> Option<String> {
    use hcl::Value as V;
    let (own, mut ok) = match &*v {
        V::Null => (0, v.as_null() == Some(())),
        V::Bool(b) => (1, v.as_bool() == Some(*b)),
        V::Number(n) => {
            let ok = number(n)
                && v.as_u64() == n.as_u64()
                && v.as_i64() == n.as_i64()
                && v.as_f64() == n.as_f64()
                && (v.is_u64(), v.is_i64(), v.is_f64()) == (n.is_u64(), n.is_i64(), n.is_f64());
            (2, ok && v.as_number().is_some_and(|m| eq(n, m)))
        }
        V::String(s) => (3, v.as_str().is_some_and(|t| eq(s.as_str(), t))),
        V::Array(a) => (4, v.as_array().is_some_and(|b| eq(a, b))),
        V::Object(o) => (5, v.as_object().is_some_and(|p| eq(o, p))),
    };
    let is = [
        v.is_null(),
        v.is_boolean(),
        v.is_number(),
        v.is_string(),
        v.is_array(),
        v.is_object(),
    ];
    let has = [
        v.as_null().is_some(),
        v.as_bool().is_some(),
        v.as_number().is_some(),
        v.as_str().is_some(),
        v.as_array().is_some(),
        v.as_object().is_some(),
    ];
    ok &= (0..is.len()).all(|i| is[i] == (i == own) && has[i] == (i == own));
    ok &= own == 2 || v.as_u64().is_none() && v.as_i64().is_none() && v.as_f64().is_none();
    ok &= own == 2 || !v.is_u64() && !v.is_i64() && !v.is_f64();
    ok &= v.as_array_mut().is_some() == (own == 4) && v.as_object_mut().is_some() == (own == 5);
    if !ok {
        return Some(format!("accessors of {v:?}"));
    }
    if let Some(a) = v.as_array_mut() {
        return a.iter_mut().find_map(value);
    }
    v.as_object_mut().and_then(|o| o.values_mut().find_map(value))
}

/// The accessors of structures.
pub fn structural(b: &mut hcl::Body) -> Option<String> {
    for s in b.iter_mut() {
        let is_attr = matches!(s, hcl::Structure::Attribute(_));
        let ok = s.is_attribute() == is_attr
            && s.is_block() != is_attr
            && s.as_attribute().is_some() == is_attr
            && s.as_block().is_some() != is_attr
            && s.as_attribute_mut().is_some() == is_attr
            && s.as_block_mut().is_some() != is_attr
            && s.clone().into_attribute().is_some() == is_attr
            && s.clone().into_block().is_some() != is_attr
            && match &*s {
                hcl::Structure::Attribute(a) => a.key() == a.key.as_str() && eq(a.expr(), &a.expr),
                hcl::Structure::Block(b) => {
                    b.identifier() == b.identifier.as_str()
                        && eq(b.labels(), b.labels.as_slice())
                        && eq(b.body(), &b.body)
                        && b.labels.iter().all(|l| {
                            let text = match l {
                                hcl::BlockLabel::Identifier(i) => i.as_str(),
                                hcl::BlockLabel::String(s) => s.as_str(),
                            };
                            l.as_str() == text && l.clone().into_inner() == text
                        })
                }
            };
        if !ok {
            return Some(format!("accessors of {s:?}"));
        }
        if let Some(b) = s.as_block_mut() {
            if let Some(bad) = structural(&mut b.body) {
                return Some(bad);
            }
        }
    }
    None
}
