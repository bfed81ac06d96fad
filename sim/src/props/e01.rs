//! E01: untouched text survives every edit history byte for byte.

use crate::canon;
use crate::choice::Src;
use crate::cx::{violation, Check, Cx};
use crate::ev;
use crate::gen::{key_canon, Cfg, BLOCKS, FUNCS, G};
use crate::make::{self, dec};
use crate::model::{
    self as m, Id, If, Item, Key, Mark, OpK, TFor, Term, B, BIN_OPS, D, E, K, S, T,
};
use crate::runner::Prop;
use hcl_edit::expr::{self as xe, Expression as X};
use hcl_edit::structure as xs;
use hcl_edit::template as xt;
use hcl_edit::{Decorate, Decorated, Ident};
use std::fmt::{self, Write};

pub static PROP: Prop = Prop {
    id: "E01",
    run,
    runs: (340_000, 6_000_000),
    rule: "a run reads a generated document and applies a history of edits to chosen parts of the tree (every node kind), \
           interrupted by printing into sinks that fail, by reloads of the printed text and by snapshots; non-trivial if at \
           least one edit was made to a non-empty document; counted by the hash over documents, edits and printed texts",
    real: &["hcl-edit (parser, tree, printer)", "hcl-primitives"],
    stubs: &["the editing application", "fmt sinks"],
    assumptions: &["edits keep the document printable: replacement text is valid in the place it is put"],
    known,
    stack_mb: 64,
    hang_s: 60,
    workers: 8,
};

fn known() -> Vec<(String, bool)> {
    let prints = |text: &str, bad: &str| {
        text.parse::<xs::Body>()
            .map(|b| b.to_string() == bad && text != bad)
            .unwrap_or(false)
    };
    vec![
        (
            r#"the escape sequences of a string are respelled: `a = "\u00e9\/"` is printed as `a = "é/"`"#.into(),
            prints("a = \"\\u00e9\\/\"\n", "a = \"é/\"\n"),
        ),
        ("CRLF line ends are printed as LF: `a = 1\\r\\n`".into(), prints("a = 1\r\nb = 2\r\n", "a = 1\nb = 2\n")),
        (
            "tabs that indent the lines of a `<<-` heredoc are printed as spaces".into(),
            prints("a = <<-X\n\tfoo\n\tX\n", "a = <<-X\n foo\n\tX\n"),
        ),
        (
            r#"an escaped `$` in front of an interpolation becomes a template marker: `a = "\u0024${x}"`"#.into(),
            prints("a = \"\\u0024${x}\"\n", "a = \"$${x}\"\n"),
        ),
    ]
}

struct Sink {
    left: usize,
    out: String,
    /// The sink refuses one write only.
    transient: bool,
    failed: bool,
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed && self.transient {
            return Ok(());
        }
        if s.len() > self.left {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.out.push_str(s);
        Ok(())
    }
}

/// What may stand in a place.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Role {
    Any,
    Base,
    Term,
    Operand(m::BinOp, bool),
    Test,
}

fn shape<R>(what: &str, lib: impl fmt::Display, model: &str) -> Check<R> {
    violation(
        "shape",
        format!("{what}: the tree is\n{lib}\ninstead of\n{model}"),
    )
}

fn id(i: &Id) -> Decorated<Ident> {
    dec(Decorated::new(Ident::new(i.s.as_str())), &i.d)
}

/// Gives a name to an identifier in place.
fn rename(lib: &mut Decorated<Ident>, i: &mut Id, to: &str) {
    *lib.value_mut() = Ident::new(to);
    i.s = to.into();
}

fn line_comment(d: &D) -> bool {
    d.suf
        .as_deref()
        .is_some_and(|s| s.contains('#') || s.contains("//"))
}

struct Ed<'a> {
    cx: &'a mut Cx,
}

impl Ed<'_> {
    fn src(&mut self) -> &mut Src {
        &mut self.cx.src
    }
    fn below(&mut self, n: usize) -> usize {
        self.cx.src.below(n)
    }
    fn coin(&mut self) -> bool {
        self.cx.src.below(2) == 1
    }
    fn g(&mut self) -> G<'_> {
        let trivia = self.cx.src.below(3) > 0;
        G::new(
            &mut self.cx.src,
            Cfg {
                trivia,
                depth: 2,
                width: 3,
                gtrail: false,
                ..Cfg::default()
            },
        )
    }
    fn did(&mut self, what: &'static str) {
        self.cx.probe(what);
        self.cx.nontrivial = true;
        ev!(self.cx, "edit {what}");
    }

    /// Builds a node by construction or by reading its text; the decor of the node itself is set.
    fn build(&mut self, e: &mut E) -> Check<X> {
        let d = std::mem::take(&mut e.d);
        let text = m::render_expr(e);
        ev!(self.cx, "node {text}");
        let mut x = if self.coin() {
            m::norm_e(e, ("", ""));
            // Newlines are allowed between parentheses.
            match format!("({text})").parse::<X>() {
                Ok(X::Parenthesis(p)) => {
                    let mut x = p.into_inner();
                    x.decor_mut().clear();
                    x
                }
                Ok(x) => return shape("expression", x, &text),
                Err(err) => return violation("reread", format!("{err}\n{text}")),
            }
        } else {
            make::edit_e(e)
        };
        e.d = D::default();
        if x.to_string() != text {
            return violation("print", format!("{text}\nis printed as\n{x}"));
        }
        e.d = d;
        x = dec(x, &e.d);
        Ok(x)
    }

    fn fresh(&mut self, nl: bool, role: Role) -> E {
        let mut e = match role {
            Role::Any => self.g().expr_at(2, nl),
            Role::Term => self.g().term(1, nl, false),
            Role::Base => {
                let e = self.g().term(1, nl, false);
                match e.k {
                    K::Trav(..) => E::new(K::Paren(Box::new(e))),
                    _ => e,
                }
            }
            Role::Operand(op, right) => self.g().operand(2, nl, op, right),
            Role::Test => {
                let e = self.g().expr_at(2, nl);
                match e.k {
                    K::Cond(..) | K::Heredoc(..) => E::new(K::Paren(Box::new(e))),
                    _ => e,
                }
            }
        };
        e.d = D::default();
        e
    }

    /// Replaces an expression; it takes the place of the old one or, in places that need no
    /// separator, gets the default decor.
    fn replace(&mut self, lib: &mut X, e: &mut E, nl: bool, role: Role, loose: bool) -> Check {
        let mut new = self.fresh(nl, role);
        if loose && self.below(3) == 2 {
            let x = self.build(&mut new)?;
            *lib = x;
        } else if self.coin() {
            new.d = e.d.clone();
            *lib = self.build(&mut new)?;
        } else {
            let d = lib.decor().clone();
            let mut x = self.build(&mut new)?;
            *x.decor_mut() = d;
            new.d = e.d.clone();
            *lib = x;
        }
        *e = new;
        self.did("replace_expression");
        Ok(())
    }

    fn expr(&mut self, lib: &mut X, e: &mut E, nl: bool, role: Role, loose: bool) -> Check {
        // Default decor depends on the place.
        if e.d.pre.is_some() && e.d.suf.is_some() && self.below(4) == 0 {
            let (a, b) = (lib.to_string(), m::render_expr(e));
            if a != b {
                return shape("printed expression", a, &b);
            }
        }
        match self.below(8) {
            0 => return self.replace(lib, e, nl, role, loose),
            1 if loose => {
                // Only the decor changes.
                let d = if nl {
                    let mut g = self.g();
                    D::new(g.ws(), g.ws())
                } else {
                    let mut g = self.g();
                    D::new(g.sp(), g.sp())
                };
                lib.decor_mut().clear();
                if let Some(p) = &d.pre {
                    lib.decor_mut().set_prefix(p.as_str());
                }
                if let Some(s) = &d.suf {
                    lib.decor_mut().set_suffix(s.clone());
                }
                e.d = d;
                self.did("set_decor");
                return Ok(());
            }
            _ => {}
        }
        match (lib, &mut e.k) {
            (X::String(s), K::Str(t)) => {
                let new = self.g().string();
                *s.value_mut() = new.clone();
                *t = new;
                self.did("set_string");
                Ok(())
            }
            (X::Bool(b), K::Bool(c)) => {
                *b.value_mut() = !*c;
                *c = !*c;
                self.did("set_bool");
                Ok(())
            }
            (X::Variable(v), K::Var(n)) => {
                let new = self.g().ident();
                *v.value_mut() = Ident::new(new.as_str());
                *n = new;
                self.did("set_variable");
                Ok(())
            }
            (X::Array(a), K::Arr(b)) => {
                if a.len() != b.items.len() {
                    return shape("array", a.len(), &format!("{:?}", b.items));
                }
                self.array(a, b)
            }
            (X::Object(a), K::Obj(b)) => {
                if a.len() != b.items.len() {
                    return shape("object", a.len(), &format!("{:?}", b.items));
                }
                self.object(a, b)
            }
            (X::StringTemplate(t), K::Tmpl(parts)) => self.template(t, parts, false, None),
            (X::HeredocTemplate(t), K::Heredoc(h)) => {
                match self.below(6) {
                    0 => {
                        h.delim = (*self.src().pick(&["EOT", "E_1", "END-X"])).to_string();
                        t.delimiter = Ident::new(h.delim.as_str());
                        self.did("set_delimiter");
                    }
                    1 => {
                        h.trail = (*self.src().pick(&["", " ", "\t", "    "])).to_string();
                        t.set_trailing(h.trail.as_str());
                        self.did("set_heredoc_trailing");
                    }
                    2 if h.indent.is_some_and(|n| n > 0) && !h.parts.is_empty() => {
                        let n = self.src().range(1, 6);
                        h.indent = Some(n);
                        t.set_indent(n);
                        self.did("set_indent");
                    }
                    _ => return self.template(&mut t.template, &mut h.parts, true, h.indent),
                }
                Ok(())
            }
            (X::Traversal(t), K::Trav(base, ops)) => {
                if t.operators.len() != ops.len() {
                    return shape("traversal", t.operators.len(), &format!("{ops:?}"));
                }
                let n = ops.len();
                match self.below(6) {
                    0 => self.expr(&mut t.expr, base, nl, Role::Base, false),
                    1 => {
                        let op = self.g().op(1, nl);
                        let at = self.below(n + 1);
                        t.operators.insert(at, make::op(&op));
                        ops.insert(at, op);
                        self.did("insert_operator");
                        Ok(())
                    }
                    2 if n > 1 => {
                        let at = self.below(n);
                        t.operators.remove(at);
                        ops.remove(at);
                        self.did("remove_operator");
                        Ok(())
                    }
                    3 if n > 1 => {
                        let at = self.below(n - 1);
                        t.operators.swap(at, at + 1);
                        ops.swap(at, at + 1);
                        self.did("swap_operators");
                        Ok(())
                    }
                    _ => {
                        let at = self.below(n);
                        let new = self.g().op(1, nl);
                        let op = t.operators[at].value_mut();
                        match (op, &mut ops[at].k) {
                            (xe::TraversalOperator::Index(a), OpK::Index(b)) => {
                                self.expr(a, b, true, Role::Any, true)
                            }
                            (xe::TraversalOperator::GetAttr(a), OpK::Attr(b)) => {
                                let name = self.g().ident();
                                rename(a, b, &name);
                                self.did("rename_attribute_access");
                                Ok(())
                            }
                            (xe::TraversalOperator::LegacyIndex(a), OpK::Legacy(b, _)) => {
                                *b = self.below(100) as u64;
                                *a.value_mut() = *b;
                                self.did("set_legacy_index");
                                Ok(())
                            }
                            (op, k) => {
                                *op = make::op(&new).into_value();
                                *k = new.k;
                                self.did("replace_operator");
                                Ok(())
                            }
                        }
                    }
                }
            }
            (X::FuncCall(c), K::Call(k)) => {
                if c.args.len() != k.args.len() || c.name.namespace.len() != k.ns.len() {
                    return shape("call", c.args.len(), &format!("{k:?}"));
                }
                match self.below(4) {
                    0 => {
                        let name = *self.src().pick(&FUNCS);
                        rename(&mut c.name.name, &mut k.name, name);
                        self.did("rename_function");
                        Ok(())
                    }
                    1 => {
                        let n = self.below(3);
                        let ns: Vec<Id> = (0..n).map(|_| Id::new(self.g().ident())).collect();
                        c.name.set_namespace(ns.iter().map(id));
                        k.ns = ns;
                        // Not every place of a call allows newlines in front of it.
                        c.name.name.decor_mut().set_prefix("");
                        k.name.d.pre = Some(String::new());
                        self.did("set_namespace");
                        Ok(())
                    }
                    _ => self.args(&mut c.args, k),
                }
            }
            (X::Parenthesis(p), K::Paren(inner)) => {
                self.expr(p.inner_mut(), inner, true, Role::Any, true)
            }
            (X::Conditional(c), K::Cond(k)) => match self.below(3) {
                0 => self.expr(&mut c.cond_expr, &mut k[0], nl, Role::Test, true),
                1 => self.expr(&mut c.true_expr, &mut k[1], nl, Role::Any, true),
                _ => self.expr(&mut c.false_expr, &mut k[2], nl, Role::Any, true),
            },
            (X::UnaryOp(u), K::Un(neg, inner)) => {
                if self.below(3) == 0 {
                    *neg = !*neg;
                    *u.operator.value_mut() = make::un(*neg);
                    self.did("set_unary_operator");
                    return Ok(());
                }
                self.expr(&mut u.expr, inner, nl, Role::Term, false)
            }
            (X::BinaryOp(o), K::Bin(l, op, d, r)) => match self.below(3) {
                0 => {
                    let same: Vec<m::BinOp> = BIN_OPS
                        .iter()
                        .copied()
                        .filter(|x| x.prec() == op.prec())
                        .collect();
                    *op = *self.src().pick(&same);
                    let op = *op;
                    *d = self.g().operator_decor(op, nl);
                    o.operator = dec(Decorated::new(make::bin(op)), d);
                    self.did("set_binary_operator");
                    Ok(())
                }
                1 => self.expr(&mut o.lhs_expr, l, nl, Role::Operand(*op, false), false),
                _ => self.expr(&mut o.rhs_expr, r, nl, Role::Operand(*op, true), false),
            },
            (X::ForExpr(f), K::For(k)) => self.for_expr(f, k),
            (X::Number(f), K::Num(n, spelling))
                if matches!(role, Role::Any | Role::Operand(..)) && self.coin() =>
            {
                let K::Num(new, _) = self.g().number(false) else {
                    unreachable!()
                };
                let v = make::number(&new);
                match self.below(4) {
                    0 => *f.value_mut() = v,
                    1 => *f.as_mut() = v,
                    2 => **f = v,
                    _ => {
                        *f.value_mut() = v;
                        f.format();
                    }
                }
                // Whole numbers are held as such.
                let new = match new {
                    m::Num::F(f) if f.fract() == 0.0 && f < u64::MAX as f64 => m::Num::U(f as u64),
                    new => new,
                };
                (*n, *spelling) = (new, None);
                self.did("set_number");
                Ok(())
            }
            (lib @ (X::Null(_) | X::Number(_)), K::Null | K::Num(..)) => {
                self.replace(lib, e, nl, role, loose)
            }
            (x, k) => shape("expression", format!("{x:?}"), &format!("{k:?}")),
        }
    }

    fn array(&mut self, a: &mut xe::Array, b: &mut m::Arr) -> Check {
        let n = b.items.len();
        match self.below(8) {
            0 | 1 => {
                let mut new = self.fresh(true, Role::Any);
                if self.coin() {
                    let mut g = self.g();
                    new.d = D::new(g.ws(), g.ws());
                }
                let x = self.build(&mut new)?;
                let at = self.below(n + 1);
                if at == n && self.coin() {
                    a.push(x);
                } else {
                    a.insert(at, x);
                }
                b.items.insert(at, new);
                self.did("array_insert");
            }
            2 if n > 0 => {
                let at = self.below(n);
                if at + 1 == n && self.coin() {
                    a.pop();
                } else {
                    a.remove(at);
                }
                b.items.remove(at);
                self.did("array_remove");
            }
            3 if self.below(4) == 0 => {
                a.clear();
                b.items.clear();
                self.did("array_clear");
            }
            4 => {
                b.comma = self.coin();
                a.set_trailing_comma(b.comma);
                self.did("array_trailing_comma");
            }
            5 => {
                b.trail = self.g().ws_str();
                a.set_trailing(b.trail.as_str());
                self.did("array_trailing");
            }
            6 if n > 0 => {
                let at = self.below(n);
                if let Some(x) = a.iter_mut().nth(at) {
                    return self.expr(x, &mut b.items[at], true, Role::Any, true);
                }
            }
            _ if n > 0 => {
                let at = self.below(n);
                if let Some(x) = a.get_mut(at) {
                    return self.expr(x, &mut b.items[at], true, Role::Any, true);
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn args(&mut self, a: &mut xe::FuncArgs, b: &mut m::Call) -> Check {
        let n = b.args.len();
        match self.below(9) {
            8 => {
                // Without arguments there is nothing to expand.
                b.expand = false;
                a.set_expand_final(false);
                a.clear();
                b.args.clear();
                self.did("args_clear");
            }
            0 | 1 => {
                let mut new = self.fresh(true, Role::Any);
                let x = self.build(&mut new)?;
                let at = self.below(n + 1);
                if at == n && self.coin() {
                    a.push(x);
                } else {
                    a.insert(at, x);
                }
                b.args.insert(at, new);
                self.did("args_insert");
            }
            2 if n > 0 => {
                let at = self.below(n);
                if at + 1 == n && self.coin() {
                    a.pop();
                } else {
                    a.remove(at);
                }
                b.args.remove(at);
                if n == 1 {
                    b.expand = false;
                    a.set_expand_final(false);
                }
                self.did("args_remove");
            }
            3 if n > 0 => {
                b.expand = self.coin();
                a.set_expand_final(b.expand);
                self.did("args_expand_final");
            }
            4 => {
                b.comma = self.coin();
                a.set_trailing_comma(b.comma);
                self.did("args_trailing_comma");
            }
            5 => {
                b.trail = self.g().ws_str();
                a.set_trailing(b.trail.as_str());
                self.did("args_trailing");
            }
            _ if n > 0 => {
                let at = self.below(n);
                let x = if self.coin() {
                    a.get_mut(at)
                } else {
                    a.iter_mut().nth(at)
                };
                if let Some(x) = x {
                    return self.expr(x, &mut b.args[at], true, Role::Any, true);
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn object(&mut self, a: &mut xe::Object, b: &mut m::Obj) -> Check {
        let n = b.items.len();
        // An unterminated last item has nothing behind it.
        let open = |b: &m::Obj| b.items.last().is_some_and(|it| it.term == Term::None);
        match self.below(9) {
            8 => {
                a.clear();
                b.items.clear();
                self.did("object_clear");
            }
            0 | 1 => {
                let Some(mut item) = self.g().item(1, &b.items, true) else {
                    return Ok(());
                };
                if let (true, Some(s)) = (self.coin(), item.e.d.suf.clone()) {
                    if !s.contains('#') && !s.contains("//") {
                        item.e.d = D::default();
                    }
                }
                self.insert_item(a, b, item)?;
                self.did("object_insert");
            }
            2 if n > 0 => {
                let at = self.below(n);
                let key = make::edit_key(&b.items[at].key);
                if self.coin() {
                    a.remove(&key);
                } else {
                    a.remove_entry(&key);
                }
                b.items.remove(at);
                self.did("object_remove");
            }
            3 if n > 0 => {
                // The value of an existing key is replaced by a new one.
                let at = self.below(n);
                let key = b.items[at].key.clone();
                let mut e = self.fresh(false, Role::Any);
                let x = self.build(&mut e)?;
                let mut given = make::edit_key(&key);
                if self.coin() {
                    // The decor of the key that is already there stays.
                    given.decor_mut().clear();
                }
                a.insert(given, xe::ObjectValue::new(x));
                let it = &mut b.items[at];
                *it = Item {
                    key,
                    colon: false,
                    e,
                    term: Term::Comma,
                };
                self.did("object_overwrite");
            }
            4 if n > 0 => {
                let at = self.below(n);
                let it = &mut b.items[at];
                if let Some((mut key, v)) = a.iter_mut().nth(at) {
                    if self.coin() {
                        it.colon = !it.colon;
                        v.set_assignment(if it.colon {
                            xe::ObjectValueAssignment::Colon
                        } else {
                            xe::ObjectValueAssignment::Equals
                        });
                        self.did("object_assignment");
                    } else {
                        let d = {
                            let mut g = self.g();
                            D::new(g.ws(), g.sp())
                        };
                        let kd = match &mut it.key {
                            Key::Id(i) => &mut i.d,
                            Key::Ex(e) => &mut e.d,
                        };
                        key.decor_mut().clear();
                        if let Some(p) = &d.pre {
                            key.decor_mut().set_prefix(p.as_str());
                        }
                        if let Some(s) = &d.suf {
                            key.decor_mut().set_suffix(s.as_str());
                        }
                        *kd = d;
                        self.did("object_key_decor");
                    }
                }
            }
            5 if n > 0 => {
                let at = self.below(n);
                let it = &mut b.items[at];
                let term = match self.below(3) {
                    0 => Term::Newline,
                    1 if !line_comment(&it.e.d) => Term::Comma,
                    2 if !line_comment(&it.e.d) && at + 1 == n => Term::None,
                    _ => return Ok(()),
                };
                it.term = term;
                if let Some(v) = a.get_mut(&make::edit_key(&it.key)) {
                    v.set_terminator(match term {
                        Term::None => xe::ObjectValueTerminator::None,
                        Term::Newline => xe::ObjectValueTerminator::Newline,
                        Term::Comma => xe::ObjectValueTerminator::Comma,
                    });
                }
                self.did("object_terminator");
            }
            6 if !open(b) => {
                b.trail = self.g().ws_str();
                a.set_trailing(b.trail.as_str());
                self.did("object_trailing");
            }
            _ if n > 0 => {
                let at = self.below(n);
                let it = &mut b.items[at];
                let x = if self.coin() {
                    a.get_mut(&make::edit_key(&it.key))
                } else {
                    a.iter_mut().nth(at).map(|(_, v)| v)
                };
                match x {
                    Some(x) => {
                        let loose = !line_comment(&it.e.d);
                        self.expr(x.expr_mut(), &mut it.e, false, Role::Any, loose)?;
                    }
                    None => return shape("object key", format!("{a:?}"), &key_canon(&it.key)),
                }
            }
            _ => {}
        }
        if open(b) {
            b.trail.clear();
            a.set_trailing("");
        }
        Ok(())
    }

    fn insert_item(&mut self, a: &mut xe::Object, b: &mut m::Obj, mut item: Item) -> Check {
        let x = self.build(&mut item.e)?;
        let mut v = xe::ObjectValue::new(x);
        v.set_assignment(if item.colon {
            xe::ObjectValueAssignment::Colon
        } else {
            xe::ObjectValueAssignment::Equals
        });
        v.set_terminator(match item.term {
            Term::None => xe::ObjectValueTerminator::None,
            Term::Newline => xe::ObjectValueTerminator::Newline,
            Term::Comma => xe::ObjectValueTerminator::Comma,
        });
        a.insert(make::edit_key(&item.key), v);
        b.items.push(item);
        Ok(())
    }

    fn for_expr(&mut self, f: &mut xe::ForExpr, k: &mut m::For) -> Check {
        match self.below(7) {
            0 => {
                let name = self.g().ident();
                rename(&mut f.intro.value_var, &mut k.val_var, &name);
                self.did("for_value_variable");
            }
            1 => match (&mut k.key_var, &mut f.intro.key_var) {
                (Some(_), Some(_)) => {
                    k.key_var = None;
                    f.intro.key_var = None;
                    self.did("for_key_variable_removed");
                }
                (None, None) => {
                    let i = Id::new(self.g().ident());
                    f.intro.key_var = Some(id(&i));
                    k.key_var = Some(i);
                    self.did("for_key_variable_added");
                }
                (a, b) => return shape("key variable", format!("{b:?}"), &format!("{a:?}")),
            },
            2 => {
                return self.expr(
                    &mut f.intro.collection_expr,
                    &mut k.coll,
                    false,
                    Role::Any,
                    false,
                )
            }
            3 => match (&mut f.key_expr, &mut k.key) {
                (Some(a), Some(b)) => return self.expr(a, b, false, Role::Any, false),
                (None, None) => {}
                (a, b) => return shape("key", format!("{a:?}"), &format!("{b:?}")),
            },
            4 => {
                return self.expr(
                    &mut f.value_expr,
                    &mut k.val,
                    k.key.is_none(),
                    Role::Any,
                    false,
                )
            }
            5 => match (&mut f.cond, &mut k.cond) {
                (Some(a), Some((_, b))) => {
                    if self.coin() {
                        return self.expr(&mut a.expr, b, true, Role::Any, false);
                    }
                    f.cond = None;
                    k.cond = None;
                    self.did("for_condition_removed");
                }
                (None, None) if k.gtrail.is_empty() => {
                    let mut c = self.fresh(true, Role::Any);
                    let x = self.build(&mut c)?;
                    f.cond = Some(xe::ForCond::new(x));
                    k.cond = Some((D::default(), c));
                    self.did("for_condition_added");
                }
                (None, None) => {}
                (a, b) => return shape("condition", format!("{a:?}"), &format!("{b:?}")),
            },
            _ => {
                if k.key.is_some() && k.gtrail.is_empty() && (k.cond.is_none() || !k.grouping) {
                    k.grouping = !k.grouping;
                    f.grouping = k.grouping;
                    self.did("for_grouping");
                }
            }
        }
        Ok(())
    }

    /// Edits the elements of a template.
    fn template(
        &mut self,
        t: &mut xt::Template,
        parts: &mut Vec<T>,
        heredoc: bool,
        indent: Option<usize>,
    ) -> Check {
        let dynamic = |t: &T| !matches!(t, T::Lit(_));
        let n = parts.len();
        let whole = t.len() == n && indent.is_none();
        match self.below(6) {
            0 if whole && n > 0 => {
                let at = self.below(n);
                if let T::Lit(_) = &parts[at] {
                    let mut s = self.g().literal(heredoc);
                    if heredoc && at + 1 == n {
                        s.push('\n');
                    }
                    match t.get_mut(at) {
                        Some(xt::Element::Literal(l)) => *l.value_mut() = s.clone(),
                        other => return shape("literal", format!("{other:?}"), &s),
                    }
                    parts[at] = T::Lit(s);
                    self.did("template_literal");
                }
            }
            1 if whole => {
                // The text of a heredoc ends with a newline.
                let at = self.below(if heredoc && n > 0 { n } else { n + 1 });
                if heredoc && n == 0 {
                    return Ok(());
                }
                let new = self.g().dynamic(1, heredoc);
                ev!(
                    self.cx,
                    "element {}",
                    m::render_template(std::slice::from_ref(&new))
                );
                let el = make::edit_element(&new);
                if at == n && self.coin() {
                    t.push(el);
                } else {
                    t.insert(at, el);
                }
                parts.insert(at, new);
                self.did("template_insert");
            }
            2 if whole && n > 1 => {
                let at = self.below(n);
                let lit =
                    |i: Option<usize>| i.and_then(|i| parts.get(i)).is_some_and(|p| !dynamic(p));
                let joins = lit(at.checked_sub(1)) && lit(Some(at + 1));
                let left = parts
                    .iter()
                    .enumerate()
                    .filter(|(i, p)| *i != at && dynamic(p))
                    .count();
                if joins || left == 0 || heredoc && at + 1 == n {
                    return Ok(());
                }
                if at + 1 == n && self.coin() {
                    t.pop();
                } else {
                    t.remove(at);
                }
                parts.remove(at);
                self.did("template_remove");
            }
            3 if whole && n > 0 => {
                // A literal between dynamic elements.
                let at = self.below(n);
                let lit =
                    |i: Option<usize>| i.and_then(|i| parts.get(i)).is_some_and(|p| !dynamic(p));
                if lit(at.checked_sub(1)) || lit(Some(at)) {
                    return Ok(());
                }
                let s = self.g().literal(heredoc);
                t.insert(at, s.as_str());
                parts.insert(at, T::Lit(s));
                self.did("template_insert_literal");
            }
            _ => {
                let count = parts.iter().filter(|p| dynamic(p)).count();
                if count == 0 {
                    return Ok(());
                }
                let k = self.below(count);
                let a = t
                    .iter_mut()
                    .filter(|e| !matches!(e, xt::Element::Literal(_)))
                    .nth(k);
                let b = parts.iter_mut().filter(|p| !matches!(p, T::Lit(_))).nth(k);
                return match (a, b) {
                    (Some(xt::Element::Interpolation(i)), Some(T::Interp(e, s))) => {
                        if self.below(3) == 0 {
                            *s = self.g().strip();
                            i.strip = make::strip(*s);
                            self.did("strip");
                            return Ok(());
                        }
                        self.expr(&mut i.expr, e, true, Role::Any, true)
                    }
                    (Some(xt::Element::Directive(d)), Some(T::If(f))) => match &mut **d {
                        xt::Directive::If(d) => self.if_directive(d, f, heredoc, indent),
                        d => shape("directive", format!("{d:?}"), "if"),
                    },
                    (Some(xt::Element::Directive(d)), Some(T::For(f))) => match &mut **d {
                        xt::Directive::For(d) => self.for_directive(d, f, heredoc, indent),
                        d => shape("directive", format!("{d:?}"), "for"),
                    },
                    (a, b) => shape("element", format!("{a:?}"), &format!("{b:?}")),
                };
            }
        }
        Ok(())
    }

    /// The elements between directives need not end with a newline.
    fn inner(
        &mut self,
        t: &mut xt::Template,
        parts: &mut Vec<T>,
        heredoc: bool,
        indent: Option<usize>,
    ) -> Check {
        if parts.len() == 1 && matches!(parts[0], T::Lit(_)) {
            return Ok(());
        }
        self.template(t, parts, heredoc, indent)
    }

    fn if_directive(
        &mut self,
        d: &mut xt::IfDirective,
        f: &mut If,
        heredoc: bool,
        indent: Option<usize>,
    ) -> Check {
        match self.below(7) {
            0 => {
                f.strip = self.g().strip();
                d.if_expr.strip = make::strip(f.strip);
                f.pre = self.g().ws_str();
                d.if_expr.set_preamble(f.pre.as_str());
                self.did("if_intro");
            }
            1 => {
                f.end = self.g().mark();
                d.endif_expr.strip = make::strip(f.end.strip);
                d.endif_expr.set_preamble(f.end.pre.as_str());
                d.endif_expr.set_trailing(f.end.trail.as_str());
                self.did("endif");
            }
            2 => match (&mut d.else_expr, &mut f.els) {
                (Some(_), Some(_)) => {
                    d.else_expr = None;
                    f.els = None;
                    self.did("else_removed");
                }
                (None, None) if indent.is_none() => {
                    let s = self.g().literal(heredoc);
                    let mut x =
                        xt::ElseTemplateExpr::new(xt::Template::from(vec![xt::Element::from(
                            s.as_str(),
                        )]));
                    let mark = if self.coin() {
                        self.g().mark()
                    } else {
                        Mark::new()
                    };
                    x.strip = make::strip(mark.strip);
                    x.set_preamble(mark.pre.as_str());
                    x.set_trailing(mark.trail.as_str());
                    d.else_expr = Some(x);
                    f.els = Some((mark, vec![T::Lit(s)]));
                    self.did("else_added");
                }
                (None, None) => {}
                (a, b) => return shape("else", format!("{a:?}"), &format!("{b:?}")),
            },
            3 => {
                return self.expr(
                    &mut d.if_expr.cond_expr,
                    &mut f.cond,
                    false,
                    Role::Any,
                    false,
                )
            }
            4 => {
                if let (Some(x), Some((mark, parts))) = (&mut d.else_expr, &mut f.els) {
                    if self.coin() {
                        *mark = self.g().mark();
                        x.strip = make::strip(mark.strip);
                        x.set_preamble(mark.pre.as_str());
                        x.set_trailing(mark.trail.as_str());
                        self.did("else");
                        return Ok(());
                    }
                    return self.inner(&mut x.template, parts, heredoc, indent);
                }
            }
            _ => return self.inner(&mut d.if_expr.template, &mut f.body, heredoc, indent),
        }
        Ok(())
    }

    fn for_directive(
        &mut self,
        d: &mut xt::ForDirective,
        f: &mut TFor,
        heredoc: bool,
        indent: Option<usize>,
    ) -> Check {
        match self.below(6) {
            0 => {
                f.strip = self.g().strip();
                d.for_expr.strip = make::strip(f.strip);
                f.pre = self.g().ws_str();
                d.for_expr.set_preamble(f.pre.as_str());
                self.did("for_intro");
            }
            1 => {
                f.end = self.g().mark();
                d.endfor_expr.strip = make::strip(f.end.strip);
                d.endfor_expr.set_preamble(f.end.pre.as_str());
                d.endfor_expr.set_trailing(f.end.trail.as_str());
                self.did("endfor");
            }
            2 => {
                let name = self.g().ident();
                rename(&mut d.for_expr.value_var, &mut f.val_var, &name);
                self.did("for_directive_variable");
            }
            3 => {
                return self.expr(
                    &mut d.for_expr.collection_expr,
                    &mut f.coll,
                    false,
                    Role::Any,
                    false,
                )
            }
            _ => return self.inner(&mut d.for_expr.template, &mut f.body, heredoc, indent),
        }
        Ok(())
    }

    fn structure(&mut self, b: &B) -> Check<(xs::Structure, S)> {
        let mut s = self.g().structure(b, 1);
        let one = B {
            items: vec![s.clone()],
            ..B::default()
        };
        let text = m::render_body(&one);
        ev!(self.cx, "structure {text}");
        if self.coin() {
            m::norm_s(&mut s, ("", ""));
            match text.parse::<xs::Body>() {
                Ok(mut b) if b.len() == 1 => return Ok((b.remove(0), s)),
                Ok(b) => return shape("structure", b, &text),
                Err(e) => return violation("reread", format!("{e}\n{text}")),
            }
        }
        Ok((make::edit_s(&s), s))
    }

    fn body(&mut self, lib: &mut xs::Body, b: &mut B, top: bool) -> Check {
        let n = b.items.len();
        if lib.len() != n {
            return shape("body", &*lib, &m::render_body(b));
        }
        match self.below(20) {
            0 => {
                let (x, s) = self.structure(b)?;
                let at = self.below(n + 1);
                let ok = match self.below(3) {
                    0 => {
                        lib.insert(at, x);
                        true
                    }
                    1 => lib.try_insert(at, x).is_ok(),
                    _ if at == n => lib.try_push(x).is_ok(),
                    _ => lib.try_insert(at, x).is_ok(),
                };
                if !ok {
                    return violation("insert", format!("{}\nrejects\n{s:?}", m::render_body(b)));
                }
                b.items.insert(at, s);
                // Without effect on what does not fit on a line.
                if b.oneline && (b.single_line() || self.coin()) {
                    b.oneline = false;
                    lib.set_prefer_oneline(false);
                }
                self.did("insert_structure");
                Ok(())
            }
            1 if n > 0 => {
                let at = self.below(n);
                if let (S::Attr { key, .. }, true) = (&b.items[at], self.coin()) {
                    lib.remove_attribute(&key.s);
                } else if at + 1 == n && self.coin() {
                    lib.pop();
                } else {
                    lib.remove(at);
                }
                b.items.remove(at);
                if b.oneline {
                    b.oneline = false;
                    lib.set_prefer_oneline(false);
                }
                self.did("remove_structure");
                Ok(())
            }
            2 if n > 1 => {
                // Moved elsewhere with its comments.
                let from = self.below(n);
                let to = self.below(n);
                let x = lib.remove(from);
                lib.insert(to, x);
                let s = b.items.remove(from);
                b.items.insert(to, s);
                self.did("move_structure");
                Ok(())
            }
            3 if !b.oneline => {
                let suf = self.g().lead();
                let suf = if b.omit { None } else { suf };
                let d = lib.decor_mut();
                d.set_suffix(suf.as_deref().unwrap_or(""));
                b.d.suf = Some(suf.unwrap_or_default());
                self.did("body_decor");
                Ok(())
            }
            4 if top && n > 0 => {
                b.omit = !b.omit;
                lib.set_prefer_omit_trailing_newline(b.omit);
                lib.decor_mut().set_suffix("");
                b.d.suf = Some(String::new());
                self.did("omit_trailing_newline");
                Ok(())
            }
            5 if n > 0 => {
                let at = self.below(n);
                let d = {
                    let one = b.single_line();
                    let mut g = self.g();
                    if one {
                        D::new(g.sp(), g.sp())
                    } else {
                        D::new(g.lead(), g.line_suffix())
                    }
                };
                let last = b.omit && at + 1 == n;
                let Some(mut s) = lib.iter_mut().nth(at) else {
                    return shape("body", &*lib, "");
                };
                if last {
                    b.items[at].d_mut().pre = d.pre.clone();
                    s.decor_mut().set_prefix(d.pre.as_deref().unwrap_or(""));
                    b.items[at].d_mut().pre.get_or_insert_with(String::new);
                } else {
                    s.decor_mut().clear();
                    if let Some(p) = &d.pre {
                        s.decor_mut().set_prefix(p.as_str());
                    }
                    if let Some(p) = &d.suf {
                        s.decor_mut().set_suffix(p.as_str());
                    }
                    *b.items[at].d_mut() = d;
                }
                self.did("structure_decor");
                Ok(())
            }
            _ if n > 0 => {
                let at = self.below(n);
                let free = self.g().attr_name(b);
                let way = self.below(3);
                match &mut b.items[at] {
                    S::Attr { key, e, .. } => {
                        if let (0, Some(free)) = (self.below(5), free) {
                            if let Some(xs::Structure::Attribute(a)) = lib.get_mut(at) {
                                rename(&mut a.key, key, &free);
                                self.did("rename_attribute");
                                return Ok(());
                            }
                            return shape("attribute", &*lib, &key.s);
                        }
                        let name = key.s.clone();
                        let mut x = match way {
                            0 => lib.get_attribute_mut(&name),
                            1 => lib.attributes_mut().find(|a| a.has_key(&name)),
                            _ => {
                                return match lib
                                    .get_mut(at)
                                    .and_then(xs::Structure::as_attribute_mut)
                                {
                                    Some(a) => self.attribute(&mut a.value, e),
                                    None => shape("attribute", "none", &name),
                                }
                            }
                        };
                        match &mut x {
                            Some(a) => self.attribute(a.value_mut(), e),
                            None => shape("attribute", "none", &name),
                        }
                    }
                    S::Block { .. } => {
                        let k = b.items[..at].iter().filter(|s| !s.is_attr()).count();
                        let name = b.items[at].name().to_string();
                        let same = b.items[..at]
                            .iter()
                            .filter(|s| !s.is_attr() && s.name() == name)
                            .count();
                        let S::Block {
                            ident,
                            labels,
                            body,
                            ..
                        } = &mut b.items[at]
                        else {
                            unreachable!()
                        };
                        let x = match way {
                            0 => lib.blocks_mut().nth(k),
                            1 => lib.get_blocks_mut(&name).nth(same),
                            _ => lib.get_mut(at).and_then(xs::Structure::as_block_mut),
                        };
                        match x {
                            Some(x) => self.block(x, ident, labels, body),
                            None => shape("block", "none", &name),
                        }
                    }
                }
            }
            _ => Ok(()),
        }
    }

    /// The value of an attribute: what follows it belongs to the line.
    fn attribute(&mut self, x: &mut X, e: &mut E) -> Check {
        let loose = e.d.suf.as_deref().unwrap_or("").is_empty();
        self.expr(x, e, false, Role::Any, loose)
    }

    fn block(
        &mut self,
        x: &mut xs::Block,
        ident: &mut Id,
        labels: &mut Vec<(bool, Id)>,
        body: &mut B,
    ) -> Check {
        if x.labels.len() != labels.len() {
            return shape("labels", format!("{:?}", x.labels), &format!("{labels:?}"));
        }
        let n = labels.len();
        match self.below(8) {
            0 => {
                let name = *self.src().pick(&BLOCKS);
                rename(&mut x.ident, ident, name);
                self.did("rename_block");
                Ok(())
            }
            1 if n < 4 => {
                let mut l = self.g().label();
                l.1.d = D::default();
                // The previous label may end where this one begins.
                let at = self.below(n + 1);
                if at > 0 && !l.0 {
                    l.1.d.pre = Some(" ".into());
                }
                if !l.0 && labels.get(at).is_some_and(|l| !l.0) {
                    l.1.d.suf = Some(" ".into());
                }
                x.labels.insert(at, make::edit_label(&l));
                labels.insert(at, l);
                self.did("insert_label");
                Ok(())
            }
            2 if n > 0 => {
                let at = self.below(n);
                x.labels.remove(at);
                labels.remove(at);
                // The neighbours stay apart.
                for (i, (l, x)) in labels.iter_mut().zip(&mut x.labels).enumerate() {
                    if i == at && !l.0 {
                        l.1.d.pre = Some(" ".into());
                        x.decor_mut().set_prefix(" ");
                    }
                }
                self.did("remove_label");
                Ok(())
            }
            3 if n > 0 => {
                let at = self.below(n);
                let (string, l) = &mut labels[at];
                let s = if *string {
                    self.g().string()
                } else {
                    self.g().ident()
                };
                match &mut x.labels[at] {
                    xs::BlockLabel::String(x) => *x.value_mut() = s.clone(),
                    xs::BlockLabel::Ident(x) => *x.value_mut() = Ident::new(s.as_str()),
                }
                l.s = s;
                self.did("set_label");
                Ok(())
            }
            4 if !body.oneline => {
                let pre = self.g().line_suffix();
                x.body.decor_mut().set_prefix(pre.as_deref().unwrap_or(""));
                body.d.pre = Some(pre.unwrap_or_default());
                self.did("block_body_decor");
                Ok(())
            }
            _ => self.body(&mut x.body, body, false),
        }
    }
}

fn show(a: &str, b: &str) -> String {
    format!("---- printed\n{a}\n---- expected\n{b}")
}

/// Histories of a template without quotes.
fn bare(cx: &mut Cx) -> Check {
    let mut parts = G::new(&mut cx.src, Cfg::default()).bare_template();
    let text = m::render_template(&parts);
    ev!(cx, "template {text}");
    let mut lib: xt::Template = match text.parse() {
        Ok(lib) => lib,
        Err(e) => return violation("parse", format!("{e}\n{text}")),
    };
    m::norm_parts(&mut parts);
    for _ in 0..cx.src.range(1, 6) {
        if cx.src.below(3) == 2 {
            let want = m::render_template(&parts);
            lib = match want.parse() {
                Ok(lib) => lib,
                Err(e) => return violation("reread", format!("{e}\n{want}")),
            };
            m::norm_parts(&mut parts);
            cx.fault("reload");
        } else {
            Ed { cx }.template(&mut lib, &mut parts, true, None)?;
        }
        let (printed, want) = (lib.to_string(), m::render_template(&parts));
        if printed != want {
            return violation("print", show(&printed, &want));
        }
        ev!(cx, "printed {printed}");
        let (x, y) = (canon::edit_template(&lib), canon::model_template(&parts));
        if x != y {
            return violation("tree", show(&x, &y));
        }
    }
    Ok(())
}

/// Trees which mean something else are not equal, a copy and a tree read from the same text are.
fn equality(cx: &mut Cx, before: &xs::Body, after: &xs::Body) -> Check {
    let (x, y) = (canon::edit_body(before), canon::edit_body(after));
    // The order of the items of an object does not matter.
    let bag = |s: &str| {
        let mut s = s.as_bytes().to_vec();
        s.sort_unstable();
        s
    };
    if (before == after || after == before) && bag(&x) != bag(&y) {
        return violation("equal", show(&x, &y));
    }
    if after.clone() != *after {
        return violation("equal", format!("a copy differs from\n{after}"));
    }
    let text = after.to_string();
    match (text.parse::<xs::Body>(), text.parse::<xs::Body>()) {
        (Ok(a), Ok(b)) if a != b => violation("equal", format!("read twice, differs\n{text}")),
        _ => {
            cx.probe("equality");
            Ok(())
        }
    }
}

fn run(cx: &mut Cx) -> Check {
    if cx.src.chance(1, 8) {
        return bare(cx);
    }
    let mut b = G::new(&mut cx.src, Cfg::default()).doc();
    let text = m::render_body(&b);
    ev!(cx, "document {text}");
    let mut lib: xs::Body = match text.parse() {
        Ok(lib) => lib,
        Err(e) => return violation("parse", format!("{e}\n{text}")),
    };
    let mut snapshot: Option<(xs::Body, String)> = None;
    let steps = cx.src.range(1, if cx.thorough { 24 } else { 10 });
    for _ in 0..steps {
        match cx.src.weighted(&[10, 3, 2, 1]) {
            0 => {
                let before = (cx.src.below(2) == 1).then(|| lib.clone());
                Ed { cx }.body(&mut lib, &mut b, true)?;
                if let Some(before) = before {
                    equality(cx, &before, &lib)?;
                }
            }
            1 => {
                let want = m::render_body(&b);
                let left = cx.src.below(want.len() + 2);
                let mut sink = Sink {
                    left,
                    out: String::new(),
                    transient: cx.src.below(2) == 1,
                    failed: false,
                };
                let res = write!(sink, "{lib}");
                ev!(cx, "print up to {left}: {res:?} {}", sink.out.len());
                if sink.failed {
                    cx.fault(if sink.transient { "sink_error_once" } else { "sink_error" });
                }
                if res.is_ok() == sink.failed
                    || sink.failed != (left < want.len())
                    || !want.starts_with(&sink.out)
                    || res.is_ok() && sink.out != want
                {
                    return violation(
                        "sink",
                        format!("{res:?} with room for {left}\n{}", show(&sink.out, &want)),
                    );
                }
            }
            2 => {
                let want = m::render_body(&b);
                let printed = lib.to_string();
                if printed != want {
                    return violation("print", show(&printed, &want));
                }
                cx.fault("reload");
                lib = match if cx.src.below(2) == 0 {
                    want.parse()
                } else {
                    hcl_edit::parser::parse_body(&want)
                } {
                    Ok(lib) => lib,
                    Err(e) => return violation("reread", format!("{e}\n{want}")),
                };
                m::normalise(&mut b);
                ev!(cx, "reload");
                let (x, y) = (canon::edit_body(&lib), canon::model_body(&b));
                if x != y {
                    return violation("reread", format!("{want}\n{}", show(&x, &y)));
                }
            }
            _ => {
                if let Some((snap, text)) = snapshot.replace((lib.clone(), m::render_body(&b))) {
                    if snap.to_string() != text {
                        return violation("snapshot", show(&snap.to_string(), &text));
                    }
                }
                ev!(cx, "snapshot");
            }
        }
        let (printed, want) = (lib.to_string(), m::render_body(&b));
        if printed != want {
            return violation("print", show(&printed, &want));
        }
        ev!(cx, "printed {printed}");
        let (x, y) = (canon::edit_body(&lib), canon::model_body(&b));
        if x != y {
            return violation("tree", show(&x, &y));
        }
    }
    let want = m::render_body(&b);
    match want.parse::<xs::Body>() {
        Ok(again) => {
            let (x, y) = (canon::edit_body(&again), canon::model_body(&b));
            if x != y {
                return violation("reread", format!("{want}\n{}", show(&x, &y)));
            }
            if again.to_string() != want {
                return violation("print", show(&again.to_string(), &want));
            }
        }
        Err(e) => return violation("reread", format!("{e}\n{want}")),
    }
    if let Some((snap, text)) = snapshot {
        if snap.to_string() != text {
            return violation("snapshot", show(&snap.to_string(), &text));
        }
    }
    Ok(())
}
