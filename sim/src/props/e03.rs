//! E03: visitors reach every node exactly once, in source order, and survive interruption.

use crate::canon;
use crate::cx::{inject_panic, is_injected, violation, Check, Cx};
use crate::ev;
use crate::gen::{Cfg, G};
use crate::model::{self as m, BinOp, Id, Key, Num, Op, OpK, B, D, E, K, S, T};
use crate::runner::Prop;
use hcl_edit::expr::{self as xe, Expression as X};
use hcl_edit::structure as xs;
use hcl_edit::template as xt;
use hcl_edit::visit::{self, Visit};
use hcl_edit::visit_mut::{self, VisitMut};
use hcl_edit::{Decorate, Decorated, Formatted, Ident, Number, Spanned};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub static PROP: Prop = Prop {
    id: "E03",
    run,
    runs: (300_000, 6_000_000),
    rule: "a run reads a generated document (or expression, or template) and takes it through a history of read-only and mutable \
           traversals whose hooks prune subtrees, edit nodes before or after their children, cancel or panic at a chosen \
           invocation, followed by an uninterrupted one; non-trivial if at least one traversal logged more than three hook \
           invocations; counted by the hash over texts and hook logs",
    real: &["hcl-edit (parser, tree, visitors, printer)", "hcl-primitives"],
    stubs: &["the visitor implementation"],
    assumptions: &["edits made by hooks keep the document printable"],
    known: Vec::new,
    stack_mb: 64,
    hang_s: 60,
    workers: 8,
};

const HOOKS: [&str; 24] = [
    "body",
    "structure",
    "attr",
    "block",
    "expr",
    "array",
    "object",
    "object_item",
    "object_key",
    "object_value",
    "conditional",
    "binary_op",
    "traversal",
    "traversal_operator",
    "func_call",
    "func_name",
    "func_args",
    "for_expr",
    "for_intro",
    "string_template",
    "template",
    "element",
    "if_directive",
    "for_template_expr",
];

/// What one traversal does.
#[derive(Clone, Debug, Default)]
struct Plan {
    /// Which kinds of edits are made.
    edits: u32,
    /// Composite nodes are edited after their children instead of before.
    late: bool,
    /// The hook whose subtrees are skipped, and how often it is entered before.
    prune: Option<(&'static str, usize)>,
    /// The point at which the traversal ends early.
    at: Option<usize>,
    /// It ends by a panic; otherwise the hooks refuse to do anything any more.
    panic: bool,
}

const E_IDENT: u32 = 1;
const E_STRING: u32 = 1 << 1;
const E_NUMBER: u32 = 1 << 2;
const E_LEAF: u32 = 1 << 3;
const E_OPERATOR: u32 = 1 << 4;
const E_LITERAL: u32 = 1 << 5;
const E_EXPR: u32 = 1 << 6;
const E_LIST: u32 = 1 << 7;
const E_STRIP: u32 = 1 << 8;
const E_DECOR: u32 = 1 << 9;
const E_PARTS: u32 = 1 << 10;
const E_ALL: u32 = (1 << 11) - 1;

#[derive(PartialEq, Clone, Copy)]
enum Go {
    In,
    Prune,
    Stopped,
}

/// What a traversal has done so far. The real visitor and the reference walk share it.
struct Log {
    plan: Plan,
    real: bool,
    ev: Vec<String>,
    points: usize,
    pruned: usize,
    stopped: bool,
    /// The innermost template is a heredoc.
    heredoc: Vec<bool>,
}

fn event(hook: &str, text: &str) -> String {
    if text.is_empty() {
        hook.to_string()
    } else {
        format!("{hook} {text:?}")
    }
}

impl Log {
    fn new(plan: Plan, real: bool) -> Log {
        Log {
            plan,
            real,
            ev: Vec::new(),
            points: 0,
            pruned: 0,
            stopped: false,
            heredoc: Vec::new(),
        }
    }

    /// One of the points at which the traversal may end early.
    fn point(&mut self) {
        if self.plan.at == Some(self.points) {
            self.stopped = true;
            if self.real && self.plan.panic {
                inject_panic();
            }
        }
        self.points += 1;
    }

    fn enter(&mut self, hook: &'static str, text: &str) -> Go {
        if self.stopped {
            return Go::Stopped;
        }
        self.ev.push(event(hook, text));
        self.point();
        if self.stopped {
            return Go::Stopped;
        }
        match self.plan.prune {
            Some((h, n)) if h == hook => {
                self.pruned += 1;
                if self.pruned > n {
                    return Go::Prune;
                }
            }
            _ => {}
        }
        Go::In
    }

    /// False if the traversal ended.
    fn leave(&mut self, hook: &'static str) -> bool {
        if !self.stopped {
            self.ev.push(format!("/{hook}"));
            self.point();
        }
        !self.stopped
    }

    fn does(&self, what: u32, late: bool) -> bool {
        !self.stopped && self.plan.edits & what != 0 && late == self.plan.late
    }

    fn in_heredoc(&self) -> bool {
        self.heredoc.last() != Some(&false)
    }
}

fn named(s: &str) -> String {
    if s.ends_with("_e") {
        s.into()
    } else {
        format!("{s}_e")
    }
}

fn lit(s: &str) -> String {
    if s.starts_with('L') {
        s.into()
    } else {
        format!("L{s}")
    }
}

/// By the canonical text of the number: its class in the tree may be any that holds the value.
fn number(text: &str) -> Num {
    if let Some(bits) = text.strip_prefix("#f") {
        let f = f64::from_bits(u64::from_str_radix(bits, 16).unwrap_or(0));
        return Num::F(if f < 0.0 { -2.5 } else { 2.5 });
    }
    if text.contains('-') {
        Num::I(-3)
    } else {
        Num::U(7)
    }
}

fn operator(op: BinOp) -> BinOp {
    match op {
        BinOp::Eq => BinOp::Ne,
        BinOp::Lt | BinOp::Gt | BinOp::Ge => BinOp::Le,
        BinOp::Sub => BinOp::Add,
        BinOp::Mul | BinOp::Div => BinOp::Mod,
        op => op,
    }
}

// ---------------------------------------------------------------------------------------------
// The real visitors

struct Reader(Log);
struct Writer(Log);

macro_rules! nodes {
    ($($hook:literal $name:ident $mut:ident $t:ty => $edit:ident;)*) => {
        impl Visit for Reader {
            $(fn $name(&mut self, node: &$t) {
                match self.0.enter($hook, "") {
                    Go::In => visit::$name(self, node),
                    Go::Prune => {}
                    Go::Stopped => return,
                }
                self.0.leave($hook);
            })*

            fn visit_string_template(&mut self, node: &xt::StringTemplate) {
                match self.0.enter("string_template", "") {
                    Go::In => visit::visit_string_template(self, node),
                    Go::Prune => {}
                    Go::Stopped => return,
                }
                self.0.leave("string_template");
            }
            fn visit_heredoc_template(&mut self, node: &xt::HeredocTemplate) {
                match self.0.enter("heredoc_template", node.delimiter.as_str()) {
                    Go::In => visit::visit_heredoc_template(self, node),
                    Go::Prune => {}
                    Go::Stopped => return,
                }
                self.0.leave("heredoc_template");
            }
            fn visit_structure(&mut self, node: &xs::Structure) {
                match self.0.enter("structure", "") {
                    Go::In => visit::visit_structure(self, node),
                    Go::Prune => {}
                    Go::Stopped => return,
                }
                self.0.leave("structure");
            }
            fn visit_attr(&mut self, node: &xs::Attribute) {
                match self.0.enter("attr", node.key.as_str()) {
                    Go::In => visit::visit_attr(self, node),
                    Go::Prune => {}
                    Go::Stopped => return,
                }
                self.0.leave("attr");
            }
            fn visit_object_key(&mut self, node: &xe::ObjectKey) {
                match self.0.enter("object_key", &canon::edit_key(node)) {
                    Go::In => visit::visit_object_key(self, node),
                    Go::Prune => {}
                    Go::Stopped => return,
                }
                self.0.leave("object_key");
            }
            fn visit_object_item(&mut self, key: &xe::ObjectKey, value: &xe::ObjectValue) {
                match self.0.enter("object_item", &canon::edit_key(key)) {
                    Go::In => visit::visit_object_item(self, key, value),
                    Go::Prune => {}
                    Go::Stopped => return,
                }
                self.0.leave("object_item");
            }

            fn visit_ident(&mut self, node: &Decorated<Ident>) {
                self.0.leaf("ident", node.as_str());
            }
            fn visit_null(&mut self, _: &Decorated<xe::Null>) {
                self.0.leaf("null", "");
            }
            fn visit_bool(&mut self, node: &Decorated<bool>) {
                self.0.leaf("bool", &node.to_string());
            }
            fn visit_u64(&mut self, node: &Decorated<u64>) {
                self.0.leaf("u64", &node.to_string());
            }
            fn visit_number(&mut self, node: &Formatted<Number>) {
                self.0.leaf("number", &canon::num_hcl(node.value()));
            }
            fn visit_string(&mut self, node: &Decorated<String>) {
                self.0.leaf("string", node.as_str());
            }
            fn visit_splat(&mut self, _: &Decorated<xe::Splat>) {
                self.0.leaf("splat", "");
            }
            fn visit_literal(&mut self, node: &Spanned<String>) {
                self.0.leaf("literal", node.as_str());
            }
            fn visit_unary_operator(&mut self, node: &Spanned<xe::UnaryOperator>) {
                self.0.leaf("unary_operator", canon::un_text(**node));
            }
            fn visit_binary_operator(&mut self, node: &Decorated<xe::BinaryOperator>) {
                self.0.leaf("binary_operator", canon::bin_text(**node));
            }
            fn visit_endif_template_expr(&mut self, _: &xt::EndifTemplateExpr) {
                self.0.leaf("endif", "");
            }
            fn visit_endfor_template_expr(&mut self, _: &xt::EndforTemplateExpr) {
                self.0.leaf("endfor", "");
            }
        }

        impl VisitMut for Writer {
            $(fn $mut(&mut self, node: &mut $t) {
                let go = self.0.enter($hook, "");
                if go == Go::Stopped {
                    return;
                }
                Edit::$edit(&mut self.0, node, false);
                if go == Go::In {
                    visit_mut::$mut(self, node);
                }
                Edit::$edit(&mut self.0, node, true);
                self.0.leave($hook);
            })*

            fn visit_string_template_mut(&mut self, node: &mut xt::StringTemplate) {
                let go = self.0.enter("string_template", "");
                if go == Go::Stopped {
                    return;
                }
                self.0.heredoc.push(false);
                Edit::string_template(&mut self.0, node, false);
                if go == Go::In {
                    visit_mut::visit_string_template_mut(self, node);
                }
                Edit::string_template(&mut self.0, node, true);
                self.0.heredoc.pop();
                self.0.leave("string_template");
            }
            fn visit_heredoc_template_mut(&mut self, node: &mut xt::HeredocTemplate) {
                let go = self.0.enter("heredoc_template", node.delimiter.as_str());
                if go == Go::Stopped {
                    return;
                }
                self.0.heredoc.push(true);
                if go == Go::In {
                    visit_mut::visit_heredoc_template_mut(self, node);
                }
                self.0.heredoc.pop();
                self.0.leave("heredoc_template");
            }
            fn visit_structure_mut(&mut self, mut node: xs::StructureMut) {
                match self.0.enter("structure", "") {
                    Go::In => {}
                    Go::Prune => {
                        self.0.leave("structure");
                        return;
                    }
                    Go::Stopped => return,
                }
                if self.0.does(E_DECOR, false) {
                    node.decor_mut().set_prefix("/*s*/ ");
                }
                visit_mut::visit_structure_mut(self, node);
                self.0.leave("structure");
            }
            fn visit_attr_mut(&mut self, mut node: xs::AttributeMut) {
                let go = self.0.enter("attr", node.get().key.as_str());
                match go {
                    Go::In | Go::Prune => {}
                    Go::Stopped => return,
                }
                if self.0.does(E_DECOR, false) {
                    node.key_decor_mut().set_suffix(" /*k*/ ");
                }
                if go == Go::In {
                    visit_mut::visit_attr_mut(self, node);
                }
                self.0.leave("attr");
            }
            fn visit_object_key_mut(&mut self, mut node: xe::ObjectKeyMut) {
                let go = self.0.enter("object_key", &canon::edit_key(node.get()));
                if go == Go::Stopped {
                    return;
                }
                if self.0.does(E_DECOR, false) {
                    node.decor_mut().set_prefix(" /*o*/ ");
                }
                self.0.leave("object_key");
            }
            fn visit_object_item_mut(&mut self, key: xe::ObjectKeyMut, value: &mut xe::ObjectValue) {
                match self.0.enter("object_item", &canon::edit_key(key.get())) {
                    Go::In => visit_mut::visit_object_item_mut(self, key, value),
                    Go::Prune => {}
                    Go::Stopped => return,
                }
                self.0.leave("object_item");
            }

            fn visit_ident_mut(&mut self, node: &mut Decorated<Ident>) {
                if self.0.leaf("ident", node.as_str()) && self.0.plan.edits & E_IDENT != 0 {
                    *node.value_mut() = Ident::new(named(node.as_str()));
                }
                self.0.end_leaf();
            }
            fn visit_null_mut(&mut self, _: &mut Decorated<xe::Null>) {
                self.0.leaf("null", "");
                self.0.end_leaf();
            }
            fn visit_bool_mut(&mut self, node: &mut Decorated<bool>) {
                if self.0.leaf("bool", &node.to_string()) && self.0.plan.edits & E_LEAF != 0 {
                    *node.value_mut() = true;
                }
                self.0.end_leaf();
            }
            fn visit_u64_mut(&mut self, node: &mut Decorated<u64>) {
                if self.0.leaf("u64", &node.to_string()) && self.0.plan.edits & E_LEAF != 0 {
                    *node.value_mut() = 5;
                }
                self.0.end_leaf();
            }
            fn visit_number_mut(&mut self, node: &mut Formatted<Number>) {
                if self.0.leaf("number", &canon::num_hcl(node.value()))
                    && self.0.plan.edits & E_NUMBER != 0
                {
                    let new = number(&canon::num_hcl(node.value()));
                    *node.value_mut() = crate::make::number(&new);
                }
                self.0.end_leaf();
            }
            fn visit_string_mut(&mut self, node: &mut Decorated<String>) {
                if self.0.leaf("string", node.as_str()) && self.0.plan.edits & E_STRING != 0 {
                    *node.value_mut() = "new".into();
                }
                self.0.end_leaf();
            }
            fn visit_splat_mut(&mut self, _: &mut Decorated<xe::Splat>) {
                self.0.leaf("splat", "");
                self.0.end_leaf();
            }
            fn visit_literal_mut(&mut self, node: &mut Spanned<String>) {
                if self.0.leaf("literal", node.as_str())
                    && self.0.plan.edits & E_LITERAL != 0
                    && !self.0.in_heredoc()
                {
                    *node.value_mut() = lit(node.as_str());
                }
                self.0.end_leaf();
            }
            fn visit_unary_operator_mut(&mut self, node: &mut Spanned<xe::UnaryOperator>) {
                if self.0.leaf("unary_operator", canon::un_text(**node))
                    && self.0.plan.edits & E_OPERATOR != 0
                {
                    *node.value_mut() = xe::UnaryOperator::Not;
                }
                self.0.end_leaf();
            }
            fn visit_binary_operator_mut(&mut self, node: &mut Decorated<xe::BinaryOperator>) {
                if self.0.leaf("binary_operator", canon::bin_text(**node))
                    && self.0.plan.edits & E_OPERATOR != 0
                {
                    let op = m::BIN_OPS
                        .iter()
                        .find(|op| op.text() == canon::bin_text(**node))
                        .copied()
                        .unwrap_or(BinOp::Or);
                    *node.value_mut() = crate::make::bin(operator(op));
                }
                self.0.end_leaf();
            }
            fn visit_endif_template_expr_mut(&mut self, node: &mut xt::EndifTemplateExpr) {
                if self.0.leaf("endif", "") && self.0.plan.edits & E_STRIP != 0 {
                    node.strip = hcl::template::Strip::Both;
                }
                self.0.end_leaf();
            }
            fn visit_endfor_template_expr_mut(&mut self, node: &mut xt::EndforTemplateExpr) {
                if self.0.leaf("endfor", "") && self.0.plan.edits & E_STRIP != 0 {
                    node.strip = hcl::template::Strip::Both;
                }
                self.0.end_leaf();
            }
        }
    };
}

impl Log {
    /// A node without children. True if it may be edited.
    fn leaf(&mut self, hook: &'static str, text: &str) -> bool {
        let go = self.enter(hook, text);
        go != Go::Stopped
    }

    fn end_leaf(&mut self) {
        if !self.stopped {
            self.point();
        }
    }
}

struct Edit;

impl Edit {
    fn none<N>(_: &mut Log, _: &mut N, _: bool) {}

    fn expr(log: &mut Log, node: &mut X, late: bool) {
        if !log.does(E_EXPR, late) {
            return;
        }
        if let X::Variable(v) = node {
            let mut args = xe::FuncArgs::new();
            args.push(X::null());
            let mut call: X = xe::FuncCall::new(Ident::new(named(v.as_str())), args).into();
            *call.decor_mut() = v.decor().clone();
            *node = call;
        }
    }
    fn array(log: &mut Log, node: &mut xe::Array, late: bool) {
        if log.does(E_LIST, late) {
            let n = node.len();
            if !n.checked_sub(1).and_then(|i| node.get(i)).is_some_and(X::is_null) {
                node.push(X::null());
            }
        }
    }
    fn func_args(log: &mut Log, node: &mut xe::FuncArgs, late: bool) {
        if log.does(E_LIST, late) {
            let n = node.len();
            if !node.expand_final()
                && !n.checked_sub(1).and_then(|i| node.get(i)).is_some_and(X::is_null)
            {
                node.push(X::null());
            }
        }
    }
    fn block(log: &mut Log, node: &mut xs::Block, late: bool) {
        if log.does(E_LIST, late) && node.labels.last().map(|l| l.as_str()) != Some("zz_e") {
            node.labels.push(Ident::new("zz_e").into());
        }
    }
    fn traversal(log: &mut Log, node: &mut xe::Traversal, late: bool) {
        if log.does(E_LIST, late) {
            let last = node.operators.last().map(Decorated::value);
            if !matches!(last, Some(xe::TraversalOperator::GetAttr(i)) if i.as_str() == "tt_e") {
                node.operators
                    .push(xe::TraversalOperator::GetAttr(Ident::new("tt_e").into()).into());
            }
        }
    }
    fn for_expr(log: &mut Log, node: &mut xe::ForExpr, late: bool) {
        if log.does(E_PARTS, late) {
            node.cond = None;
        }
    }
    fn string_template(log: &mut Log, node: &mut xt::StringTemplate, late: bool) {
        if log.does(E_PARTS, late) {
            let last = node.len().checked_sub(1).and_then(|i| node.get(i));
            if !last.is_some_and(xt::Element::is_literal) {
                node.push(xt::Element::from("L."));
            }
        }
    }
    fn interpolation(log: &mut Log, node: &mut xt::Interpolation, late: bool) {
        if log.does(E_STRIP, late) {
            node.strip = hcl::template::Strip::Both;
        }
    }
    fn if_template_expr(log: &mut Log, node: &mut xt::IfTemplateExpr, late: bool) {
        if log.does(E_STRIP, late) {
            node.strip = hcl::template::Strip::Both;
        }
    }
    fn else_template_expr(log: &mut Log, node: &mut xt::ElseTemplateExpr, late: bool) {
        if log.does(E_STRIP, late) {
            node.strip = hcl::template::Strip::Both;
        }
    }
    fn for_template_expr(log: &mut Log, node: &mut xt::ForTemplateExpr, late: bool) {
        if log.does(E_STRIP, late) {
            node.strip = hcl::template::Strip::Both;
        }
    }
    fn if_directive(log: &mut Log, node: &mut xt::IfDirective, late: bool) {
        if log.does(E_PARTS, late) {
            node.else_expr = None;
        }
    }
}

nodes! {
    "body" visit_body visit_body_mut xs::Body => none;
    "block" visit_block visit_block_mut xs::Block => block;
    "block_label" visit_block_label visit_block_label_mut xs::BlockLabel => none;
    "expr" visit_expr visit_expr_mut X => expr;
    "array" visit_array visit_array_mut xe::Array => array;
    "object" visit_object visit_object_mut xe::Object => none;
    "object_value" visit_object_value visit_object_value_mut xe::ObjectValue => none;
    "parenthesis" visit_parenthesis visit_parenthesis_mut xe::Parenthesis => none;
    "conditional" visit_conditional visit_conditional_mut xe::Conditional => none;
    "unary_op" visit_unary_op visit_unary_op_mut xe::UnaryOp => none;
    "binary_op" visit_binary_op visit_binary_op_mut xe::BinaryOp => none;
    "traversal" visit_traversal visit_traversal_mut xe::Traversal => traversal;
    "traversal_operator" visit_traversal_operator visit_traversal_operator_mut xe::TraversalOperator => none;
    "func_call" visit_func_call visit_func_call_mut xe::FuncCall => none;
    "func_name" visit_func_name visit_func_name_mut xe::FuncName => none;
    "func_args" visit_func_args visit_func_args_mut xe::FuncArgs => func_args;
    "for_expr" visit_for_expr visit_for_expr_mut xe::ForExpr => for_expr;
    "for_intro" visit_for_intro visit_for_intro_mut xe::ForIntro => none;
    "for_cond" visit_for_cond visit_for_cond_mut xe::ForCond => none;
    "template" visit_template visit_template_mut xt::Template => none;
    "element" visit_element visit_element_mut xt::Element => none;
    "interpolation" visit_interpolation visit_interpolation_mut xt::Interpolation => interpolation;
    "directive" visit_directive visit_directive_mut xt::Directive => none;
    "if_directive" visit_if_directive visit_if_directive_mut xt::IfDirective => if_directive;
    "for_directive" visit_for_directive visit_for_directive_mut xt::ForDirective => none;
    "if_template_expr" visit_if_template_expr visit_if_template_expr_mut xt::IfTemplateExpr => if_template_expr;
    "else_template_expr" visit_else_template_expr visit_else_template_expr_mut xt::ElseTemplateExpr => else_template_expr;
    "for_template_expr" visit_for_template_expr visit_for_template_expr_mut xt::ForTemplateExpr => for_template_expr;
}

// ---------------------------------------------------------------------------------------------
// Visitors that override one hook and leave the others to the library

/// The calls of the only hook that is overridden.
#[derive(Default)]
struct Calls(Vec<String>);

impl Calls {
    fn note(&mut self, hook: &str, text: &str) {
        self.0.push(event(hook, text));
    }
}

macro_rules! descend {
    (node $go:expr) => {
        $go
    };
    (key $go:expr) => {
        $go
    };
    (leaf $go:expr) => {};
}

macro_rules! descend_mut {
    (node $go:expr) => {
        $go
    };
    (key $go:expr) => {};
    (leaf $go:expr) => {};
}

macro_rules! sparse {
    ($($hook:literal $kind:ident $name:ident($($a:ident: $t:ty),*) $text:expr, $mut:ident($($b:ident: $u:ty),*) $text_mut:expr;)*) => {
        $(mod $name {
            #![allow(unused_variables)]
            use super::*;
            #[derive(Default)]
            pub struct R(pub Calls);
            impl Visit for R {
                fn $name(&mut self, $($a: $t),*) {
                    self.0.note($hook, $text);
                    descend!($kind visit::$name(self, $($a),*));
                }
            }
            #[derive(Default)]
            pub struct W(pub Calls);
            impl VisitMut for W {
                fn $mut(&mut self, $($b: $u),*) {
                    self.0.note($hook, $text_mut);
                    descend_mut!($kind visit_mut::$mut(self, $($b),*));
                }
            }
        })*

        const SPARSE: &[&str] = &[$($hook),*];

        fn sparse(doc: &mut Doc, hook: &str, mutable: bool) -> Vec<String> {
            match (hook, mutable) {
                $(($hook, false) => {
                    let mut v = $name::R::default();
                    match doc {
                        Doc::Body(b, _) => v.visit_body(b),
                        Doc::Expr(e, _) => v.visit_expr(e),
                        Doc::Template(t, _) => v.visit_template(t),
                    }
                    v.0 .0
                })*
                $(($hook, true) => {
                    let mut v = $name::W::default();
                    match doc {
                        Doc::Body(b, _) => v.visit_body_mut(b),
                        Doc::Expr(e, _) => v.visit_expr_mut(e),
                        Doc::Template(t, _) => v.visit_template_mut(t),
                    }
                    v.0 .0
                })*
                _ => unreachable!(),
            }
        }
    };
}

sparse! {
    "body" node visit_body(node: &xs::Body) "", visit_body_mut(node: &mut xs::Body) "";
    "block" node visit_block(node: &xs::Block) "", visit_block_mut(node: &mut xs::Block) "";
    "block_label" node visit_block_label(node: &xs::BlockLabel) "", visit_block_label_mut(node: &mut xs::BlockLabel) "";
    "expr" node visit_expr(node: &X) "", visit_expr_mut(node: &mut X) "";
    "array" node visit_array(node: &xe::Array) "", visit_array_mut(node: &mut xe::Array) "";
    "object" node visit_object(node: &xe::Object) "", visit_object_mut(node: &mut xe::Object) "";
    "object_value" node visit_object_value(node: &xe::ObjectValue) "", visit_object_value_mut(node: &mut xe::ObjectValue) "";
    "parenthesis" node visit_parenthesis(node: &xe::Parenthesis) "", visit_parenthesis_mut(node: &mut xe::Parenthesis) "";
    "conditional" node visit_conditional(node: &xe::Conditional) "", visit_conditional_mut(node: &mut xe::Conditional) "";
    "unary_op" node visit_unary_op(node: &xe::UnaryOp) "", visit_unary_op_mut(node: &mut xe::UnaryOp) "";
    "binary_op" node visit_binary_op(node: &xe::BinaryOp) "", visit_binary_op_mut(node: &mut xe::BinaryOp) "";
    "traversal" node visit_traversal(node: &xe::Traversal) "", visit_traversal_mut(node: &mut xe::Traversal) "";
    "traversal_operator" node visit_traversal_operator(node: &xe::TraversalOperator) "", visit_traversal_operator_mut(node: &mut xe::TraversalOperator) "";
    "func_call" node visit_func_call(node: &xe::FuncCall) "", visit_func_call_mut(node: &mut xe::FuncCall) "";
    "func_name" node visit_func_name(node: &xe::FuncName) "", visit_func_name_mut(node: &mut xe::FuncName) "";
    "func_args" node visit_func_args(node: &xe::FuncArgs) "", visit_func_args_mut(node: &mut xe::FuncArgs) "";
    "for_expr" node visit_for_expr(node: &xe::ForExpr) "", visit_for_expr_mut(node: &mut xe::ForExpr) "";
    "for_intro" node visit_for_intro(node: &xe::ForIntro) "", visit_for_intro_mut(node: &mut xe::ForIntro) "";
    "for_cond" node visit_for_cond(node: &xe::ForCond) "", visit_for_cond_mut(node: &mut xe::ForCond) "";
    "template" node visit_template(node: &xt::Template) "", visit_template_mut(node: &mut xt::Template) "";
    "element" node visit_element(node: &xt::Element) "", visit_element_mut(node: &mut xt::Element) "";
    "interpolation" node visit_interpolation(node: &xt::Interpolation) "", visit_interpolation_mut(node: &mut xt::Interpolation) "";
    "directive" node visit_directive(node: &xt::Directive) "", visit_directive_mut(node: &mut xt::Directive) "";
    "if_directive" node visit_if_directive(node: &xt::IfDirective) "", visit_if_directive_mut(node: &mut xt::IfDirective) "";
    "for_directive" node visit_for_directive(node: &xt::ForDirective) "", visit_for_directive_mut(node: &mut xt::ForDirective) "";
    "if_template_expr" node visit_if_template_expr(node: &xt::IfTemplateExpr) "", visit_if_template_expr_mut(node: &mut xt::IfTemplateExpr) "";
    "else_template_expr" node visit_else_template_expr(node: &xt::ElseTemplateExpr) "", visit_else_template_expr_mut(node: &mut xt::ElseTemplateExpr) "";
    "for_template_expr" node visit_for_template_expr(node: &xt::ForTemplateExpr) "", visit_for_template_expr_mut(node: &mut xt::ForTemplateExpr) "";
    "string_template" node visit_string_template(node: &xt::StringTemplate) "", visit_string_template_mut(node: &mut xt::StringTemplate) "";
    "heredoc_template" node visit_heredoc_template(node: &xt::HeredocTemplate) node.delimiter.as_str(), visit_heredoc_template_mut(node: &mut xt::HeredocTemplate) node.delimiter.as_str();
    "structure" node visit_structure(node: &xs::Structure) "", visit_structure_mut(node: xs::StructureMut) "";
    "attr" node visit_attr(node: &xs::Attribute) node.key.as_str(), visit_attr_mut(node: xs::AttributeMut) node.get().key.as_str();
    "object_key" key visit_object_key(node: &xe::ObjectKey) &canon::edit_key(node), visit_object_key_mut(node: xe::ObjectKeyMut) &canon::edit_key(node.get());
    "object_item" node visit_object_item(key: &xe::ObjectKey, value: &xe::ObjectValue) &canon::edit_key(key), visit_object_item_mut(key: xe::ObjectKeyMut, value: &mut xe::ObjectValue) &canon::edit_key(key.get());
    "ident" leaf visit_ident(node: &Decorated<Ident>) node.as_str(), visit_ident_mut(node: &mut Decorated<Ident>) node.as_str();
    "null" leaf visit_null(node: &Decorated<xe::Null>) "", visit_null_mut(node: &mut Decorated<xe::Null>) "";
    "bool" leaf visit_bool(node: &Decorated<bool>) &node.to_string(), visit_bool_mut(node: &mut Decorated<bool>) &node.to_string();
    "u64" leaf visit_u64(node: &Decorated<u64>) &node.to_string(), visit_u64_mut(node: &mut Decorated<u64>) &node.to_string();
    "number" leaf visit_number(node: &Formatted<Number>) &canon::num_hcl(node.value()), visit_number_mut(node: &mut Formatted<Number>) &canon::num_hcl(node.value());
    "string" leaf visit_string(node: &Decorated<String>) node.as_str(), visit_string_mut(node: &mut Decorated<String>) node.as_str();
    "splat" leaf visit_splat(node: &Decorated<xe::Splat>) "", visit_splat_mut(node: &mut Decorated<xe::Splat>) "";
    "literal" leaf visit_literal(node: &Spanned<String>) node.as_str(), visit_literal_mut(node: &mut Spanned<String>) node.as_str();
    "unary_operator" leaf visit_unary_operator(node: &Spanned<xe::UnaryOperator>) canon::un_text(**node), visit_unary_operator_mut(node: &mut Spanned<xe::UnaryOperator>) canon::un_text(**node);
    "binary_operator" leaf visit_binary_operator(node: &Decorated<xe::BinaryOperator>) canon::bin_text(**node), visit_binary_operator_mut(node: &mut Decorated<xe::BinaryOperator>) canon::bin_text(**node);
    "endif" leaf visit_endif_template_expr(node: &xt::EndifTemplateExpr) "", visit_endif_template_expr_mut(node: &mut xt::EndifTemplateExpr) "";
    "endfor" leaf visit_endfor_template_expr(node: &xt::EndforTemplateExpr) "", visit_endfor_template_expr_mut(node: &mut xt::EndforTemplateExpr) "";
}

/// A visitor with one hook of its own is called like one that has them all.
fn sparse_pass(cx: &mut Cx, doc: &mut Doc) -> Check {
    let mutable = cx.src.below(2) == 1;
    let hook = *cx.src.pick(SPARSE);
    let full = doc.model(Plan::default(), mutable);
    let with_text = format!("{hook} ");
    let want: Vec<String> = full
        .ev
        .into_iter()
        .filter(|e| e == hook || e.starts_with(&with_text))
        .collect();
    let got = sparse(doc, hook, mutable);
    ev!(cx, "only {hook}, mutable {mutable}: {got:?}");
    if got != want {
        return violation(
            "order",
            format!(
                "a {}visitor with only the hook {hook} is called with\n{got:?}\ninstead of\n{want:?}\n{}",
                if mutable { "mutable " } else { "" },
                doc.text().1
            ),
        );
    }
    if !want.is_empty() {
        cx.probe("single_hook");
    }
    same("print", doc.text())
}

// ---------------------------------------------------------------------------------------------
// The reference walk over the model

struct Walk {
    log: Log,
    mutable: bool,
}

type Step = Result<(), ()>;

impl Walk {
    fn leaf(&mut self, hook: &'static str, text: &str, edit: impl FnOnce(&mut Log)) -> Step {
        if !self.log.leaf(hook, text) {
            return Err(());
        }
        if self.mutable {
            edit(&mut self.log);
            self.log.end_leaf();
        }
        if self.log.stopped {
            Err(())
        } else {
            Ok(())
        }
    }

    fn node<N: ?Sized>(
        &mut self,
        hook: &'static str,
        text: &str,
        n: &mut N,
        edit: impl Fn(&mut N, &mut Log, bool),
        children: impl FnOnce(&mut Walk, &mut N) -> Step,
    ) -> Step {
        let go = self.log.enter(hook, text);
        if go == Go::Stopped {
            return Err(());
        }
        if self.mutable {
            edit(n, &mut self.log, false);
        }
        if go == Go::In {
            children(self, n)?;
        }
        if self.mutable {
            edit(n, &mut self.log, true);
        }
        if self.log.leave(hook) {
            Ok(())
        } else {
            Err(())
        }
    }

    /// A node that is not edited.
    fn plain<N: ?Sized>(
        &mut self,
        hook: &'static str,
        n: &mut N,
        children: impl FnOnce(&mut Walk, &mut N) -> Step,
    ) -> Step {
        self.node(hook, "", n, |_, _, _| {}, children)
    }

    fn ident(&mut self, s: &mut String) -> Step {
        let text = s.clone();
        self.leaf("ident", &text, |log| {
            if log.plan.edits & E_IDENT != 0 {
                *s = named(s);
            }
        })
    }

    fn string(&mut self, s: &mut String) -> Step {
        let text = s.clone();
        self.leaf("string", &text, |log| {
            if log.plan.edits & E_STRING != 0 {
                *s = "new".into();
            }
        })
    }

    fn body(&mut self, b: &mut B) -> Step {
        self.plain("body", b, |w, b| {
            for s in &mut b.items {
                w.node(
                    "structure",
                    "",
                    s,
                    |_, _, _| {},
                    |w, s| {
                        if w.mutable && w.log.does(E_DECOR, false) {
                            s.d_mut().pre = Some("/*s*/ ".into());
                        }
                        w.structure(s)
                    },
                )?;
            }
            Ok(())
        })
    }

    fn structure(&mut self, s: &mut S) -> Step {
        match s {
            S::Attr { key, e, .. } => {
                let name = key.s.clone();
                self.node(
                    "attr",
                    &name,
                    &mut (key, e),
                    |(key, _), log, late| {
                        if !late && log.does(E_DECOR, false) {
                            key.d.suf = Some(" /*k*/ ".into());
                        }
                    },
                    |w, (key, e)| {
                        if !w.mutable {
                            w.ident(&mut key.s)?;
                        }
                        w.expr(e)
                    },
                )
            }
            S::Block {
                ident,
                labels,
                body,
                ..
            } => self.node(
                "block",
                "",
                &mut (ident, labels, body),
                |(_, labels, _), log, late| {
                    if log.does(E_LIST, late) && labels.last().is_none_or(|l| l.1.s != "zz_e") {
                        labels.push((false, Id::new("zz_e")));
                    }
                },
                |w, (ident, labels, body)| {
                    w.ident(&mut ident.s)?;
                    for l in labels.iter_mut() {
                        w.plain("block_label", l, |w, (string, l)| {
                            if *string {
                                w.string(&mut l.s)
                            } else {
                                w.ident(&mut l.s)
                            }
                        })?;
                    }
                    w.body(body)
                },
            ),
        }
    }

    fn expr(&mut self, e: &mut E) -> Step {
        self.node(
            "expr",
            "",
            e,
            |e, log, late| {
                if log.does(E_EXPR, late) {
                    if let K::Var(v) = &e.k {
                        e.k = E::call(&named(v), vec![E::new(K::Null)]).k;
                    }
                }
            },
            |w, e| w.kind(&mut e.k),
        )
    }

    fn list(log: &Log, late: bool, items: &mut Vec<E>) {
        if log.does(E_LIST, late) && !matches!(items.last(), Some(E { k: K::Null, .. })) {
            items.push(E::new(K::Null));
        }
    }

    fn kind(&mut self, k: &mut K) -> Step {
        match k {
            K::Null => self.leaf("null", "", |_| {}),
            K::Bool(b) => {
                let text = b.to_string();
                self.leaf("bool", &text, |log| {
                    if log.plan.edits & E_LEAF != 0 {
                        *b = true;
                    }
                })
            }
            K::Num(n, repr) => {
                let text = canon::num_model(n);
                self.leaf("number", &text, |log| {
                    if log.plan.edits & E_NUMBER != 0 {
                        *n = number(&canon::num_model(n));
                        *repr = None;
                    }
                })
            }
            K::Str(s) => self.string(s),
            K::Var(s) => self.ident(s),
            K::Arr(a) => self.node(
                "array",
                "",
                a,
                |a, log, late| Walk::list(log, late, &mut a.items),
                |w, a| a.items.iter_mut().try_for_each(|e| w.expr(e)),
            ),
            K::Obj(o) => self.plain("object", o, |w, o| {
                for it in &mut o.items {
                    let name = canon::model_key(&it.key);
                    w.node("object_item", &name, it, |_, _, _| {}, |w, it| {
                        w.node(
                            "object_key",
                            &name,
                            &mut it.key,
                            |key, log, late| {
                                if !late && log.does(E_DECOR, false) {
                                    let d = match key {
                                        Key::Id(i) => &mut i.d,
                                        Key::Ex(e) => &mut e.d,
                                    };
                                    d.pre = Some(" /*o*/ ".into());
                                }
                            },
                            |w, key| match key {
                                _ if w.mutable => Ok(()),
                                Key::Id(i) => w.ident(&mut i.s),
                                Key::Ex(e) => w.expr(e),
                            },
                        )?;
                        w.plain("object_value", &mut it.e, |w, e| w.expr(e))
                    })?;
                }
                Ok(())
            }),
            K::Tmpl(parts) => {
                self.node(
                    "string_template",
                    "",
                    parts,
                    |parts, log, late| {
                        if log.does(E_PARTS, late) && !matches!(parts.last(), Some(T::Lit(_))) {
                            parts.push(T::Lit("L.".into()));
                        }
                    },
                    |w, parts| {
                        w.log.heredoc.push(false);
                        w.elements(parts)?;
                        w.log.heredoc.pop();
                        Ok(())
                    },
                )
            }
            K::Heredoc(h) => {
                let delim = h.delim.clone();
                self.node("heredoc_template", &delim, h, |_, _, _| {}, |w, h| {
                    w.log.heredoc.push(true);
                    w.template(&mut h.parts)?;
                    w.log.heredoc.pop();
                    Ok(())
                })
            }
            K::Paren(e) => self.plain("parenthesis", e, |w, e| w.expr(e)),
            K::Cond(c) => self.plain("conditional", c, |w, c| {
                c.iter_mut().try_for_each(|e| w.expr(e))
            }),
            K::Un(neg, e) => self.plain("unary_op", &mut (neg, e), |w, (neg, e)| {
                w.leaf("unary_operator", if **neg { "-" } else { "!" }, |log| {
                    if log.plan.edits & E_OPERATOR != 0 {
                        **neg = false;
                    }
                })?;
                w.expr(e)
            }),
            K::Bin(l, op, _, r) => self.plain("binary_op", &mut (l, op, r), |w, (l, op, r)| {
                w.expr(l)?;
                let text = op.text();
                w.leaf("binary_operator", text, |log| {
                    if log.plan.edits & E_OPERATOR != 0 {
                        **op = operator(**op);
                    }
                })?;
                w.expr(r)
            }),
            K::Trav(base, ops) => self.node(
                "traversal",
                "",
                &mut (base, ops),
                |(_, ops), log, late| {
                    if log.does(E_LIST, late)
                        && !matches!(ops.last(), Some(Op { k: OpK::Attr(i), .. }) if i.s == "tt_e")
                    {
                        ops.push(Op {
                            d: D::default(),
                            k: OpK::Attr(Id::new("tt_e")),
                        });
                    }
                },
                |w, (base, ops)| {
                    w.expr(base)?;
                    for op in ops.iter_mut() {
                        w.plain("traversal_operator", op, |w, op| match &mut op.k {
                            OpK::Attr(i) => w.ident(&mut i.s),
                            OpK::Index(e) => w.expr(e),
                            OpK::Legacy(n, _) => {
                                let text = n.to_string();
                                w.leaf("u64", &text, |log| {
                                    if log.plan.edits & E_LEAF != 0 {
                                        *n = 5;
                                    }
                                })
                            }
                            OpK::AttrSplat(_) | OpK::FullSplat(_) => {
                                w.leaf("splat", "", |_| {})
                            }
                        })?;
                    }
                    Ok(())
                },
            ),
            K::Call(c) => self.plain("func_call", c, |w, c| {
                w.plain("func_name", c, |w, c| {
                    for i in &mut c.ns {
                        w.ident(&mut i.s)?;
                    }
                    w.ident(&mut c.name.s)
                })?;
                w.node(
                    "func_args",
                    "",
                    c,
                    |c, log, late| {
                        if !c.expand {
                            Walk::list(log, late, &mut c.args);
                        }
                    },
                    |w, c| c.args.iter_mut().try_for_each(|e| w.expr(e)),
                )
            }),
            K::For(f) => self.node(
                "for_expr",
                "",
                f,
                |f, log, late| {
                    if log.does(E_PARTS, late) {
                        f.cond = None;
                    }
                },
                |w, f| {
                    w.plain("for_intro", f, |w, f| {
                        if let Some(k) = &mut f.key_var {
                            w.ident(&mut k.s)?;
                        }
                        w.ident(&mut f.val_var.s)?;
                        w.expr(&mut f.coll)
                    })?;
                    if let Some(k) = &mut f.key {
                        w.expr(k)?;
                    }
                    w.expr(&mut f.val)?;
                    if let Some((_, c)) = &mut f.cond {
                        w.plain("for_cond", c, |w, c| w.expr(c))?;
                    }
                    Ok(())
                },
            ),
        }
    }

    fn template(&mut self, parts: &mut Vec<T>) -> Step {
        self.plain("template", parts, |w, parts| w.elements(parts))
    }

    fn elements(&mut self, parts: &mut Vec<T>) -> Step {
        parts
            .iter_mut()
            .try_for_each(|t| self.plain("element", t, |w, t| w.element(t)))
    }

    fn element(&mut self, t: &mut T) -> Step {
        match t {
            T::Lit(s) => {
                let text = s.clone();
                self.leaf("literal", &text, |log| {
                    if log.plan.edits & E_LITERAL != 0 && !log.in_heredoc() {
                        *s = lit(s);
                    }
                })
            }
            T::Interp(e, strip) => self.node(
                "interpolation",
                "",
                &mut (e, strip),
                |(_, strip), log, late| Walk::both(strip, log, late),
                |w, (e, _)| w.expr(e),
            ),
            T::If(i) => self.plain("directive", i, |w, i| {
                w.node(
                    "if_directive",
                    "",
                    i,
                    |i, log, late| {
                        if log.does(E_PARTS, late) {
                            i.els = None;
                        }
                    },
                    |w, i| {
                        w.node(
                            "if_template_expr",
                            "",
                            i,
                            |i, log, late| Walk::both(&mut i.strip, log, late),
                            |w, i| {
                                w.expr(&mut i.cond)?;
                                w.template(&mut i.body)
                            },
                        )?;
                        if let Some(els) = &mut i.els {
                            w.node(
                                "else_template_expr",
                                "",
                                els,
                                |els, log, late| Walk::both(&mut els.0.strip, log, late),
                                |w, els| w.template(&mut els.1),
                            )?;
                        }
                        w.end("endif", &mut i.end)
                    },
                )
            }),
            T::For(f) => self.plain("directive", f, |w, f| {
                w.plain("for_directive", f, |w, f| {
                    w.node(
                        "for_template_expr",
                        "",
                        f,
                        |f, log, late| Walk::both(&mut f.strip, log, late),
                        |w, f| {
                            if let Some(k) = &mut f.key_var {
                                w.ident(&mut k.s)?;
                            }
                            w.ident(&mut f.val_var.s)?;
                            w.expr(&mut f.coll)?;
                            w.template(&mut f.body)
                        },
                    )?;
                    w.end("endfor", &mut f.end)
                })
            }),
        }
    }

    fn both(strip: &mut m::Strip, log: &mut Log, late: bool) {
        if log.does(E_STRIP, late) {
            *strip = (true, true);
        }
    }

    fn end(&mut self, hook: &'static str, mark: &mut m::Mark) -> Step {
        self.leaf(hook, "", |log| {
            if log.plan.edits & E_STRIP != 0 {
                mark.strip = (true, true);
            }
        })
    }
}

// ---------------------------------------------------------------------------------------------

/// A thing to traverse and its model.
#[derive(Clone)]
enum Doc {
    Body(xs::Body, B),
    Expr(X, E),
    Template(xt::Template, Vec<T>),
}

impl Doc {
    fn text(&self) -> (String, String) {
        match self {
            Doc::Body(x, b) => (x.to_string(), m::render_body(b)),
            Doc::Expr(x, e) => (x.to_string(), m::render_expr(e)),
            Doc::Template(x, t) => (x.to_string(), m::render_template(t)),
        }
    }

    fn tree(&self) -> (String, String) {
        match self {
            Doc::Body(x, b) => (canon::edit_body(x), canon::model_body(b)),
            Doc::Expr(x, e) => (canon::edit_e(x), canon::model_e(e)),
            Doc::Template(x, t) => (canon::edit_template(x), canon::model_template(t)),
        }
    }

    /// Reads the printed text again.
    fn reread(&self) -> Result<Doc, String> {
        let (_, want) = self.text();
        Ok(match self {
            Doc::Body(_, b) => {
                let mut b = b.clone();
                m::normalise(&mut b);
                Doc::Body(want.parse().map_err(|e| format!("{e}\n{want}"))?, b)
            }
            Doc::Expr(_, e) => {
                let mut e = e.clone();
                // The text around an expression is not part of it.
                e.d = D::default();
                m::norm_e(&mut e, ("", ""));
                let text = m::render_expr(&e);
                Doc::Expr(text.parse().map_err(|e| format!("{e}\n{want}"))?, e)
            }
            Doc::Template(_, t) => {
                let mut t = t.clone();
                m::norm_parts(&mut t);
                Doc::Template(want.parse().map_err(|e| format!("{e}\n{want}"))?, t)
            }
        })
    }

    /// Traverses the tree with the code under test.
    fn real(&mut self, log: Log, mutable: bool, entry: usize) -> (Log, bool) {
        let mut reader = Reader(log);
        if !mutable {
            let res = catch_unwind(AssertUnwindSafe(|| {
                let v = &mut reader;
                let dv: &mut dyn Visit = v;
                match (self, entry) {
                    (Doc::Body(b, _), 0) => dv.visit_body(b),
                    (Doc::Body(b, _), _) => {
                        // As a hook that was entered: its own event comes first.
                        if v.0.enter("body", "") == Go::In {
                            visit::visit_body(v as &mut dyn Visit, b);
                        } else if v.0.stopped {
                            return;
                        }
                        v.0.leave("body");
                    }
                    (Doc::Expr(e, _), 0) => dv.visit_expr(e),
                    (Doc::Expr(e, _), _) => {
                        if v.0.enter("expr", "") == Go::In {
                            visit::visit_expr(v, e);
                        } else if v.0.stopped {
                            return;
                        }
                        v.0.leave("expr");
                    }
                    (Doc::Template(t, _), 0) => dv.visit_template(t),
                    (Doc::Template(t, _), _) => v.visit_template(t),
                }
            }));
            return (reader.0, Doc::ended(res));
        }
        let mut writer = Writer(reader.0);
        let res = catch_unwind(AssertUnwindSafe(|| {
            let v = &mut writer;
            match (self, entry) {
                (Doc::Body(b, _), 0) => (v as &mut dyn VisitMut).visit_body_mut(b),
                (Doc::Body(b, _), _) => v.visit_body_mut(b),
                (Doc::Expr(e, _), 0) => (v as &mut dyn VisitMut).visit_expr_mut(e),
                (Doc::Expr(e, _), _) => v.visit_expr_mut(e),
                (Doc::Template(t, _), 0) => (v as &mut dyn VisitMut).visit_template_mut(t),
                (Doc::Template(t, _), _) => v.visit_template_mut(t),
            }
        }));
        (writer.0, Doc::ended(res))
    }

    fn ended(res: std::thread::Result<()>) -> bool {
        match res {
            Ok(()) => true,
            Err(p) if is_injected(&*p) => false,
            Err(p) => std::panic::resume_unwind(p),
        }
    }

    fn model(&mut self, plan: Plan, mutable: bool) -> Log {
        let mut w = Walk {
            log: Log::new(plan, false),
            mutable,
        };
        let _ = match self {
            Doc::Body(_, b) => w.body(b),
            Doc::Expr(_, e) => w.expr(e),
            Doc::Template(_, t) => w.template(t),
        };
        w.log
    }
}

fn same(what: &str, (got, want): (String, String)) -> Check {
    if got == want {
        return Ok(());
    }
    violation(what, format!("---- got\n{got}\n---- expected\n{want}"))
}

fn pass(cx: &mut Cx, doc: &mut Doc, plan: &Plan, mutable: bool) -> Check {
    let entry = cx.src.below(2);
    let (log, ended) = doc.real(Log::new(plan.clone(), true), mutable, entry);
    let want = doc.model(plan.clone(), mutable);
    ev!(
        cx,
        "{} {plan:?}: {} hooks, stopped {}",
        if mutable { "visit_mut" } else { "visit" },
        log.ev.len(),
        log.stopped
    );
    if log.ev != want.ev {
        let at = log
            .ev
            .iter()
            .zip(&want.ev)
            .take_while(|(a, b)| a == b)
            .count();
        return violation(
            "order",
            format!(
                "{} calls {:?} as hook {at} where {:?} comes next; it has called {:?}\n{}",
                if mutable { "the mutable traversal" } else { "the traversal" },
                log.ev.get(at),
                want.ev.get(at),
                &log.ev[at.saturating_sub(6)..at],
                doc.text().1,
            ),
        );
    }
    if log.stopped != want.stopped || ended == (plan.panic && log.stopped) {
        return violation("stop", format!("stopped: {} instead of {}", log.stopped, want.stopped));
    }
    if log.stopped {
        cx.fault(if plan.panic { "hook_panic" } else { "cancelled" });
    }
    if plan.prune.is_some_and(|(_, n)| log.pruned > n) {
        cx.fault("pruned");
    }
    cx.nontrivial |= log.ev.len() > 3;
    for e in &log.ev {
        ev!(cx, "{e}");
    }
    same("print", doc.text())?;
    same("tree", doc.tree())
}

fn run(cx: &mut Cx) -> Check {
    let cfg = Cfg {
        trivia: cx.src.below(3) > 0,
        ..Cfg::default()
    };
    let mut doc = match cx.src.weighted(&[6, 2, 1]) {
        0 => {
            let mut b = G::new(&mut cx.src, cfg).doc();
            let text = m::render_body(&b);
            ev!(cx, "document {text}");
            m::normalise(&mut b);
            match text.parse() {
                Ok(x) => Doc::Body(x, b),
                Err(e) => return violation("parse", format!("{e}\n{text}")),
            }
        }
        1 => {
            let mut e = G::new(&mut cx.src, cfg).expr(false);
            e.d = D::default();
            let text = m::render_expr(&e);
            ev!(cx, "expression {text}");
            m::norm_e(&mut e, ("", ""));
            match text.parse() {
                Ok(x) => Doc::Expr(x, e),
                Err(e) => return violation("parse", format!("{e}\n{text}")),
            }
        }
        _ => {
            let mut t = G::new(&mut cx.src, cfg).bare_template();
            let text = m::render_template(&t);
            ev!(cx, "template {text}");
            m::norm_parts(&mut t);
            match text.parse() {
                Ok(x) => Doc::Template(x, t),
                Err(e) => return violation("parse", format!("{e}\n{text}")),
            }
        }
    };
    let edits = match cx.src.below(3) {
        0 => E_ALL,
        1 => 0,
        _ => cx.src.below(E_ALL as usize + 1) as u32,
    };
    let late = cx.src.below(2) == 1;
    let full = Plan {
        edits,
        late,
        ..Plan::default()
    };
    // What one uninterrupted traversal makes of the document.
    let mut once = doc.clone();
    let points = once.model(full.clone(), true).points;

    for _ in 0..cx.src.below(3) {
        sparse_pass(cx, &mut doc)?;
    }
    let interruptions = cx.src.range(0, 3);
    for _ in 0..interruptions {
        let mut plan = full.clone();
        let mutable = cx.src.below(3) > 0;
        plan.panic = cx.src.below(2) == 1;
        if cx.src.below(4) > 0 {
            plan.at = Some(cx.src.below(points + 1));
        }
        if cx.src.below(4) == 3 {
            plan.prune = Some((*cx.src.pick(&HOOKS), cx.src.below(3)));
        }
        pass(cx, &mut doc, &plan, mutable)?;
        if cx.src.below(4) == 3 {
            doc = match doc.reread() {
                Ok(d) => d,
                Err(e) => return violation("reread", e),
            };
            cx.fault("reload");
            same("reread", doc.tree())?;
            same("print", doc.text())?;
        }
    }
    pass(cx, &mut doc, &Plan::default(), false)?;
    pass(cx, &mut doc, &full, true)?;
    same("resumed", (doc.text().0, once.text().1))?;
    match doc.reread() {
        Ok(again) => {
            same("reread", again.tree())?;
            same("print", again.text())?;
        }
        Err(e) => return violation("reread", e),
    }
    // A completed edit stays completed.
    pass(cx, &mut doc, &full, true)?;
    same("again", (doc.text().0, once.text().1))
}
