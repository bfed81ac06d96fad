//! Where the parts of a document that was read come from.

use crate::canon;
use hcl_edit::expr::{self, Expression};
use hcl_edit::structure::{self, Body};
use hcl_edit::template;
use hcl_edit::visit::{self, Visit};
use hcl_edit::{Decorated, Formatted, Ident, Number, Span};
use std::ops::Range;

pub struct Spans<'t> {
    text: &'t str,
    outer: Vec<Range<usize>>,
    seen: usize,
    parsed: usize,
    pub bad: Option<String>,
}

impl<'t> Spans<'t> {
    pub fn new(text: &'t str) -> Spans<'t> {
        Spans {
            text,
            outer: vec![0..text.len()],
            seen: 0,
            parsed: 0,
            bad: None,
        }
    }

    fn fail(&mut self, what: &str, span: &Range<usize>, why: &str) {
        if self.bad.is_none() {
            self.bad = Some(format!("{what} at {span:?}: {why}"));
        }
    }

    /// Checks a span and what is within it.
    fn within(&mut self, what: &str, span: Option<Range<usize>>, must: bool, inner: impl FnOnce(&mut Self, Option<&'t str>)) {
        let Some(span) = span else {
            if must {
                self.fail(what, &(0..0), "no span");
            }
            return inner(self, None);
        };
        self.seen += 1;
        let outer = self.outer.last().cloned().unwrap_or_default();
        let Some(text) = self.text.get(span.clone()) else {
            return self.fail(what, &span, "not a part of the text");
        };
        if span.start < outer.start || span.end > outer.end {
            self.fail(what, &span, &format!("{text:?} is not within {outer:?} {:?}", &self.text[outer.clone()]));
        }
        self.outer.push(span);
        inner(self, Some(text));
        self.outer.pop();
    }

    fn entry(&mut self, what: &str, span: Option<Range<usize>>, text: Option<&str>, fits: impl FnOnce(&Body) -> bool) {
        if let Some(text) = text.filter(|t| t.len() < 120 && self.parsed < 24) {
            self.parsed += 1;
            // What ends it may be behind it.
            let fine = format!("{text}\n").parse::<Body>().is_ok_and(|b| b.len() == 1 && fits(&b));
            if !fine {
                self.fail(what, &span.unwrap_or_default(), &format!("is {text:?}"));
            }
        }
    }

    fn exact(&mut self, what: &str, span: Option<Range<usize>>, fits: impl FnOnce(&str) -> bool) {
        self.within(what, span.clone(), true, |s, text| {
            if let Some(text) = text {
                if !fits(text) {
                    s.fail(what, &span.unwrap_or_default(), &format!("is {text:?}"));
                }
            }
        });
    }
}

impl Visit for Spans<'_> {
    fn visit_ident(&mut self, node: &Decorated<Ident>) {
        self.exact("identifier", node.span(), |t| t == node.as_str());
    }
    fn visit_null(&mut self, node: &Decorated<expr::Null>) {
        self.exact("null", node.span(), |t| t == "null");
    }
    fn visit_bool(&mut self, node: &Decorated<bool>) {
        self.exact("bool", node.span(), |t| t == node.to_string().trim());
    }
    fn visit_u64(&mut self, node: &Decorated<u64>) {
        self.exact("index", node.span(), |t| t.parse() == Ok(**node));
    }
    fn visit_number(&mut self, node: &Formatted<Number>) {
        self.exact("number", node.span(), |t| {
            t.parse::<Expression>().is_ok_and(|e| e.as_number() == Some(node.value()))
        });
    }
    fn visit_string(&mut self, node: &Decorated<String>) {
        self.exact("string", node.span(), |t| {
            t.parse::<Expression>().is_ok_and(|e| e.as_str() == Some(node.as_str()))
        });
    }
    fn visit_unary_operator(&mut self, node: &hcl_edit::Spanned<expr::UnaryOperator>) {
        self.exact("operator", node.span(), |t| t == node.as_str());
    }
    fn visit_binary_operator(&mut self, node: &Decorated<expr::BinaryOperator>) {
        self.exact("operator", node.span(), |t| t == node.as_str());
    }
    fn visit_body(&mut self, node: &Body) {
        self.within("body", node.span(), false, |s, _| visit::visit_body(s, node));
    }
    fn visit_attr(&mut self, node: &structure::Attribute) {
        let span = node.span();
        self.within("attribute", span.clone(), true, |s, text| {
            visit::visit_attr(s, node);
            s.entry("attribute", span, text, |b| {
                let mut list = b.attributes();
                let one = list.next().is_some_and(|a| {
                    a.key.as_str() == node.key.as_str() && canon::edit_e(&a.value) == canon::edit_e(&node.value)
                });
                one && list.next().is_none()
            });
        });
    }
    fn visit_block(&mut self, node: &structure::Block) {
        let span = node.span();
        self.within("block", span.clone(), true, |s, text| {
            visit::visit_block(s, node);
            s.entry("block", span, text, |b| {
                let mut list = b.blocks();
                let one = list.next().is_some_and(|a| {
                    a.ident.as_str() == node.ident.as_str()
                        && a.labels.len() == node.labels.len()
                        && canon::edit_body(&a.body) == canon::edit_body(&node.body)
                });
                one && list.next().is_none()
            });
        });
    }
    fn visit_expr(&mut self, node: &Expression) {
        let span = node.span();
        self.within("expression", span.clone(), true, |s, text| {
            visit::visit_expr(s, node);
            // What is there is the expression.
            if let Some(text) = text.filter(|t| t.len() < 120 && s.parsed < 24) {
                s.parsed += 1;
                let has = text.parse::<Expression>().map(|e| canon::edit_e(&e));
                match has {
                    Ok(has) if has == canon::edit_e(node) => {}
                    // Line breaks may be allowed only by what surrounds it.
                    Err(_) if text.contains(['\n', '\r']) => {}
                    has => s.fail("expression", &span.unwrap_or_default(), &format!("{text:?} is {has:?}")),
                }
            }
        });
    }
    fn visit_func_call(&mut self, node: &expr::FuncCall) {
        self.within("call", node.span(), true, |s, _| visit::visit_func_call(s, node));
    }
    fn visit_func_args(&mut self, node: &expr::FuncArgs) {
        self.within("arguments", node.span(), false, |s, _| visit::visit_func_args(s, node));
    }
    fn visit_traversal_operator(&mut self, node: &expr::TraversalOperator) {
        visit::visit_traversal_operator(self, node);
    }
    fn visit_literal(&mut self, node: &hcl_edit::Spanned<String>) {
        self.within("literal", node.span(), true, |_, _| {});
    }
    fn visit_interpolation(&mut self, node: &template::Interpolation) {
        self.within("interpolation", node.span(), true, |s, _| visit::visit_interpolation(s, node));
    }
    fn visit_template(&mut self, node: &template::Template) {
        self.within("template", node.span(), false, |s, _| visit::visit_template(s, node));
    }
    fn visit_string_template(&mut self, node: &template::StringTemplate) {
        self.within("template", node.span(), true, |s, _| visit::visit_string_template(s, node));
    }
}
