//! The reference model of a document: an abstract syntax tree that knows the exact text between its
//! nodes. It is independent of the code under test.
//!
//! Decor is optional text. `None` stands for the default the printer documents for that position.

use std::fmt::Write;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct D {
    pub pre: Option<String>,
    pub suf: Option<String>,
}

impl D {
    pub fn new(pre: Option<String>, suf: Option<String>) -> D {
        D { pre, suf }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Num {
    U(u64),
    /// Always negative.
    I(i64),
    F(f64),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Id {
    pub s: String,
    pub d: D,
}

impl Id {
    pub fn new(s: impl Into<String>) -> Id {
        Id {
            s: s.into(),
            d: D::default(),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct E {
    pub d: D,
    pub k: K,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Arr {
    pub items: Vec<E>,
    pub comma: bool,
    pub trail: String,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Term {
    None,
    Newline,
    Comma,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Key {
    Id(Id),
    Ex(E),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Item {
    pub key: Key,
    pub colon: bool,
    pub e: E,
    pub term: Term,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Obj {
    pub items: Vec<Item>,
    pub trail: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub ns: Vec<Id>,
    pub name: Id,
    pub args: Vec<E>,
    pub expand: bool,
    pub comma: bool,
    pub trail: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct For {
    /// Decor of the intro.
    pub d: D,
    pub key_var: Option<Id>,
    pub val_var: Id,
    pub coll: E,
    pub key: Option<E>,
    pub val: E,
    pub grouping: bool,
    pub gtrail: String,
    /// Decor and expression of the condition.
    pub cond: Option<(D, E)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Heredoc {
    pub delim: String,
    /// Indent of a `<<-` heredoc.
    pub indent: Option<usize>,
    pub parts: Vec<T>,
    pub trail: String,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Or,
    And,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
    Add,
    Sub,
    Mul,
    Div,
    Mod,
}

pub const BIN_OPS: [BinOp; 13] = [
    BinOp::Add,
    BinOp::Sub,
    BinOp::Mul,
    BinOp::Div,
    BinOp::Mod,
    BinOp::Eq,
    BinOp::Ne,
    BinOp::Lt,
    BinOp::Le,
    BinOp::Gt,
    BinOp::Ge,
    BinOp::And,
    BinOp::Or,
];

impl BinOp {
    pub fn text(self) -> &'static str {
        match self {
            BinOp::Or => "||",
            BinOp::And => "&&",
            BinOp::Eq => "==",
            BinOp::Ne => "!=",
            BinOp::Lt => "<",
            BinOp::Le => "<=",
            BinOp::Gt => ">",
            BinOp::Ge => ">=",
            BinOp::Add => "+",
            BinOp::Sub => "-",
            BinOp::Mul => "*",
            BinOp::Div => "/",
            BinOp::Mod => "%",
        }
    }
    pub fn prec(self) -> u8 {
        match self {
            BinOp::Or => 1,
            BinOp::And => 2,
            BinOp::Eq | BinOp::Ne => 3,
            BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge => 4,
            BinOp::Add | BinOp::Sub => 5,
            BinOp::Mul | BinOp::Div | BinOp::Mod => 6,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Null,
    Bool(bool),
    /// Value and spelling.
    Num(Num, Option<String>),
    Str(String),
    Arr(Arr),
    Obj(Obj),
    Tmpl(Vec<T>),
    Heredoc(Box<Heredoc>),
    Var(String),
    Trav(Box<E>, Vec<Op>),
    Call(Box<Call>),
    Paren(Box<E>),
    Cond(Box<[E; 3]>),
    /// Negation (true: `-`, false: `!`).
    Un(bool, Box<E>),
    Bin(Box<E>, BinOp, D, Box<E>),
    For(Box<For>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub d: D,
    pub k: OpK,
}

#[derive(Clone, Debug, PartialEq)]
pub enum OpK {
    Attr(Id),
    Index(E),
    Legacy(u64, D),
    AttrSplat(D),
    FullSplat(D),
}

pub type Strip = (bool, bool);

#[derive(Clone, Debug, PartialEq)]
pub struct Mark {
    pub pre: String,
    pub trail: String,
    pub strip: Strip,
}

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Lit(String),
    Interp(E, Strip),
    If(Box<If>),
    For(Box<TFor>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct If {
    pub pre: String,
    pub strip: Strip,
    pub cond: E,
    pub body: Vec<T>,
    pub els: Option<(Mark, Vec<T>)>,
    pub end: Mark,
}

#[derive(Clone, Debug, PartialEq)]
pub struct TFor {
    pub pre: String,
    pub strip: Strip,
    pub key_var: Option<Id>,
    pub val_var: Id,
    pub coll: E,
    pub body: Vec<T>,
    pub end: Mark,
}

#[derive(Clone, Debug, PartialEq)]
pub enum S {
    Attr {
        d: D,
        key: Id,
        e: E,
    },
    Block {
        d: D,
        ident: Id,
        labels: Vec<(bool, Id)>,
        body: B,
    },
}

impl S {
    pub fn d(&self) -> &D {
        match self {
            S::Attr { d, .. } | S::Block { d, .. } => d,
        }
    }
    pub fn d_mut(&mut self) -> &mut D {
        match self {
            S::Attr { d, .. } | S::Block { d, .. } => d,
        }
    }
    pub fn name(&self) -> &str {
        match self {
            S::Attr { key, .. } => &key.s,
            S::Block { ident, .. } => &ident.s,
        }
    }
    pub fn is_attr(&self) -> bool {
        matches!(self, S::Attr { .. })
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct B {
    pub items: Vec<S>,
    pub oneline: bool,
    /// The last line has no newline.
    pub omit: bool,
    pub d: D,
}

impl B {
    pub fn single_line(&self) -> bool {
        self.oneline && (self.items.is_empty() || self.items.len() == 1 && self.items[0].is_attr())
    }
    pub fn has_attr(&self, key: &str) -> bool {
        self.items.iter().any(|s| s.is_attr() && s.name() == key)
    }
}

impl E {
    pub fn new(k: K) -> E {
        E { d: D::default(), k }
    }
    pub fn num(n: u64) -> E {
        E::new(K::Num(Num::U(n), None))
    }
    pub fn str(s: &str) -> E {
        E::new(K::Str(s.into()))
    }
    pub fn var(s: &str) -> E {
        E::new(K::Var(s.into()))
    }
    pub fn arr(items: Vec<E>) -> E {
        E::new(K::Arr(Arr {
            items,
            comma: false,
            trail: String::new(),
        }))
    }
    pub fn call(name: &str, args: Vec<E>) -> E {
        E::new(K::Call(Box::new(Call {
            ns: vec![],
            name: Id::new(name),
            args,
            expand: false,
            comma: false,
            trail: String::new(),
        })))
    }
    /// The same node with different content in the same place.
    pub fn with(&self, k: K) -> E {
        E {
            d: self.d.clone(),
            k,
        }
    }
}

impl Mark {
    pub fn new() -> Mark {
        Mark {
            pre: " ".into(),
            trail: " ".into(),
            strip: (false, false),
        }
    }
}

/// Alternative spellings of string characters, chosen from the bits of a seed.
#[derive(Clone)]
pub struct Spell(pub Option<crate::choice::Rng>);

impl Spell {
    fn alt(&mut self, n: u64) -> u64 {
        match &mut self.0 {
            None => 0,
            Some(r) => {
                let v = r.next() % (n * 3);
                if v < n {
                    v
                } else {
                    0
                }
            }
        }
    }
}

pub fn escape_template_markers(s: &str) -> String {
    s.replace("${", "$${").replace("%{", "%%{")
}

fn quoted_text(out: &mut String, s: &str, sp: &mut Spell) {
    for c in escape_template_markers(s).chars() {
        let alt = sp.alt(3);
        match c {
            // Template markers must be spelled literally, so `$`, `%` and `{` stay as they are.
            _ if alt == 1 && (c as u32) < 0x1_0000 && !"$%{".contains(c) => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            _ if alt == 2 && !"$%{".contains(c) => {
                if c == '/' {
                    out.push_str("\\/");
                } else {
                    let _ = write!(out, "\\U{:08X}", c as u32);
                }
            }
            '\u{8}' => out.push_str("\\b"),
            '\t' => out.push_str("\\t"),
            '\n' => out.push_str("\\n"),
            '\u{c}' => out.push_str("\\f"),
            '\r' => out.push_str("\\r"),
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if c < ' ' || c == '\u{7f}' => {
                let _ = write!(out, "\\u{:04X}", c as u32);
            }
            c => out.push(c),
        }
    }
}

pub struct Render {
    pub out: String,
    spell: Spell,
    /// Indent of the lines of the indented heredoc whose text is being rendered.
    indent: Option<usize>,
    line_start: bool,
}

const NONE: (&str, &str) = ("", "");
const LEAD: (&str, &str) = (" ", "");
const TRAIL: (&str, &str) = ("", " ");
const BOTH: (&str, &str) = (" ", " ");

pub fn render_body(b: &B) -> String {
    render_body_spelled(b, Spell(None))
}

pub fn render_body_spelled(b: &B, spell: Spell) -> String {
    let mut r = Render {
        spell,
        ..Render::new()
    };
    r.top_body(b);
    r.out
}

pub fn render_expr(e: &E) -> String {
    let mut r = Render::new();
    r.e(e, NONE);
    r.out
}

/// Renders the elements of an unquoted template.
pub fn render_template(t: &[T]) -> String {
    let mut r = Render::new();
    r.parts(t, false);
    r.out
}

pub fn num_text(n: &Num) -> String {
    match n {
        Num::U(u) => u.to_string(),
        Num::I(i) => i.to_string(),
        Num::F(f) => {
            // The notation is up to the library as long as it denotes the number.
            let s = crate::make::number(n).to_string();
            match s.parse::<f64>() {
                Ok(g) if g == *f => s,
                _ => format!("{f:?}"),
            }
        }
    }
}

impl Render {
    fn new() -> Render {
        Render {
            out: String::new(),
            spell: Spell(None),
            indent: None,
            line_start: false,
        }
    }

    /// The text of a template that is an expression of its own.
    fn nested(&mut self, indent: Option<usize>, parts: &[T], quoted: bool) {
        let outer = (self.indent, self.line_start);
        self.indent = indent;
        self.line_start = true;
        self.parts(parts, quoted);
        (self.indent, self.line_start) = outer;
    }

    fn margin(&mut self) {
        if let (true, Some(n)) = (self.line_start, self.indent) {
            self.out.extend(std::iter::repeat(' ').take(n));
        }
        self.line_start = false;
    }

    fn pre(&mut self, d: &D, def: (&str, &str)) {
        self.out.push_str(d.pre.as_deref().unwrap_or(def.0));
    }
    fn suf(&mut self, d: &D, def: (&str, &str)) {
        self.out.push_str(d.suf.as_deref().unwrap_or(def.1));
    }
    fn id(&mut self, id: &Id, def: (&str, &str)) {
        self.pre(&id.d, def);
        self.out.push_str(&id.s);
        self.suf(&id.d, def);
    }

    fn top_body(&mut self, b: &B) {
        self.pre(&b.d, NONE);
        for (i, s) in b.items.iter().enumerate() {
            self.s(s, NONE);
            if i + 1 < b.items.len() || !b.omit {
                self.out.push('\n');
            }
        }
        self.suf(&b.d, NONE);
    }

    fn s(&mut self, s: &S, def: (&str, &str)) {
        match s {
            S::Attr { d, key, e } => {
                self.pre(d, def);
                self.id(key, TRAIL);
                self.out.push('=');
                self.e(e, LEAD);
                self.suf(d, def);
            }
            S::Block {
                d,
                ident,
                labels,
                body,
            } => {
                self.pre(d, def);
                self.id(ident, TRAIL);
                for (string, l) in labels {
                    if *string {
                        self.pre(&l.d, TRAIL);
                        self.quoted(&l.s);
                        self.suf(&l.d, TRAIL);
                    } else {
                        self.id(l, TRAIL);
                    }
                }
                self.out.push('{');
                self.pre(&body.d, NONE);
                if body.single_line() {
                    for s in &body.items {
                        self.s(s, BOTH);
                    }
                } else {
                    self.out.push('\n');
                    for s in &body.items {
                        self.s(s, NONE);
                        self.out.push('\n');
                    }
                }
                self.suf(&body.d, NONE);
                self.out.push('}');
                self.suf(d, def);
            }
        }
    }

    fn quoted(&mut self, s: &str) {
        self.out.push('"');
        quoted_text(&mut self.out, s, &mut self.spell);
        self.out.push('"');
    }

    pub fn e(&mut self, e: &E, def: (&str, &str)) {
        self.pre(&e.d, def);
        match &e.k {
            K::Null => self.out.push_str("null"),
            K::Bool(b) => {
                let _ = write!(self.out, "{b}");
            }
            K::Num(n, repr) => match repr {
                Some(r) => self.out.push_str(r),
                None => self.out.push_str(&num_text(n)),
            },
            K::Str(s) => self.quoted(s),
            K::Arr(a) => {
                self.out.push('[');
                self.list(&a.items);
                if a.comma && !a.items.is_empty() {
                    self.out.push(',');
                }
                self.out.push_str(&a.trail);
                self.out.push(']');
            }
            K::Obj(o) => {
                self.out.push('{');
                for (i, it) in o.items.iter().enumerate() {
                    match &it.key {
                        Key::Id(id) => self.id(id, TRAIL),
                        Key::Ex(e) => self.e(e, TRAIL),
                    }
                    self.out.push(if it.colon { ':' } else { '=' });
                    self.e(&it.e, LEAD);
                    match it.term {
                        Term::None if i + 1 < o.items.len() => self.out.push(','),
                        Term::None => {}
                        Term::Newline => self.out.push('\n'),
                        Term::Comma => self.out.push(','),
                    }
                }
                self.out.push_str(&o.trail);
                self.out.push('}');
            }
            K::Tmpl(parts) => {
                self.out.push('"');
                self.nested(None, parts, true);
                self.out.push('"');
            }
            K::Heredoc(h) => {
                self.out
                    .push_str(if h.indent.is_some() { "<<-" } else { "<<" });
                self.out.push_str(&h.delim);
                self.out.push('\n');
                self.nested(h.indent, &h.parts, false);
                self.out.push_str(&h.trail);
                self.out.push_str(&h.delim);
            }
            K::Var(s) => self.out.push_str(s),
            K::Trav(base, ops) => {
                self.e(base, NONE);
                for op in ops {
                    self.pre(&op.d, NONE);
                    match &op.k {
                        OpK::Attr(id) => {
                            self.out.push('.');
                            self.id(id, NONE);
                        }
                        OpK::Index(e) => {
                            self.out.push('[');
                            self.e(e, NONE);
                            self.out.push(']');
                        }
                        OpK::Legacy(n, d) => {
                            self.out.push('.');
                            self.pre(d, NONE);
                            let _ = write!(self.out, "{n}");
                            self.suf(d, NONE);
                        }
                        OpK::AttrSplat(d) => {
                            self.out.push('.');
                            self.pre(d, NONE);
                            self.out.push('*');
                            self.suf(d, NONE);
                        }
                        OpK::FullSplat(d) => {
                            self.out.push('[');
                            self.pre(d, NONE);
                            self.out.push('*');
                            self.suf(d, NONE);
                            self.out.push(']');
                        }
                    }
                    self.suf(&op.d, NONE);
                }
            }
            K::Call(c) => {
                for id in &c.ns {
                    self.id(id, NONE);
                    self.out.push_str("::");
                }
                self.id(&c.name, NONE);
                self.out.push('(');
                self.list(&c.args);
                if !c.args.is_empty() {
                    if c.expand {
                        self.out.push_str("...");
                    } else if c.comma {
                        self.out.push(',');
                    }
                }
                self.out.push_str(&c.trail);
                self.out.push(')');
            }
            K::Paren(e) => {
                self.out.push('(');
                self.e(e, NONE);
                self.out.push(')');
            }
            K::Cond(c) => {
                self.e(&c[0], TRAIL);
                self.out.push('?');
                self.e(&c[1], BOTH);
                self.out.push(':');
                self.e(&c[2], LEAD);
            }
            K::Un(neg, e) => {
                self.out.push(if *neg { '-' } else { '!' });
                self.e(e, NONE);
            }
            K::Bin(l, op, d, r) => {
                self.e(l, NONE);
                self.pre(d, BOTH);
                self.out.push_str(op.text());
                self.suf(d, BOTH);
                self.e(r, NONE);
            }
            K::For(f) => {
                self.out.push(if f.key.is_some() { '{' } else { '[' });
                self.pre(&f.d, NONE);
                self.out.push_str("for");
                if let Some(k) = &f.key_var {
                    self.id(k, LEAD);
                    self.out.push(',');
                }
                self.id(&f.val_var, BOTH);
                self.out.push_str("in");
                self.e(&f.coll, BOTH);
                self.out.push(':');
                self.suf(&f.d, NONE);
                if let Some(k) = &f.key {
                    self.e(k, BOTH);
                    self.out.push_str("=>");
                }
                self.e(&f.val, LEAD);
                if f.grouping {
                    self.out.push_str("...");
                    if f.cond.is_none() {
                        self.out.push_str(&f.gtrail);
                    }
                }
                if let Some((d, c)) = &f.cond {
                    self.pre(d, LEAD);
                    self.out.push_str("if");
                    self.e(c, LEAD);
                    self.suf(d, LEAD);
                }
                self.out.push(if f.key.is_some() { '}' } else { ']' });
            }
        }
        self.suf(&e.d, def);
    }

    fn list(&mut self, items: &[E]) {
        for (i, e) in items.iter().enumerate() {
            if i > 0 {
                self.out.push(',');
                self.e(e, LEAD);
            } else {
                self.e(e, NONE);
            }
        }
    }

    fn open(&mut self, start: &str, strip: Strip) {
        self.margin();
        self.out.push_str(start);
        if strip.0 {
            self.out.push('~');
        }
    }

    fn close(&mut self, strip: Strip) {
        if strip.1 {
            self.out.push('~');
        }
        self.out.push('}');
    }

    fn mark(&mut self, m: &Mark, word: &str) {
        self.open("%{", m.strip);
        self.out.push_str(&m.pre);
        self.out.push_str(word);
        self.out.push_str(&m.trail);
        self.close(m.strip);
    }

    pub fn parts(&mut self, parts: &[T], quoted: bool) {
        for t in parts {
            match t {
                T::Lit(s) if quoted => quoted_text(&mut self.out, s, &mut self.spell),
                T::Lit(s) => {
                    for line in escape_template_markers(s).split_inclusive('\n') {
                        if line != "\n" {
                            self.margin();
                        }
                        self.out.push_str(line);
                        self.line_start = line.ends_with('\n');
                    }
                }
                T::Interp(e, strip) => {
                    self.open("${", *strip);
                    self.e(e, BOTH);
                    self.close(*strip);
                }
                T::If(i) => {
                    self.open("%{", i.strip);
                    self.out.push_str(&i.pre);
                    self.out.push_str("if");
                    self.e(&i.cond, BOTH);
                    self.close(i.strip);
                    self.parts(&i.body, quoted);
                    if let Some((m, els)) = &i.els {
                        self.mark(m, "else");
                        self.parts(els, quoted);
                    }
                    self.mark(&i.end, "endif");
                }
                T::For(f) => {
                    self.open("%{", f.strip);
                    self.out.push_str(&f.pre);
                    self.out.push_str("for");
                    if let Some(k) = &f.key_var {
                        self.id(k, LEAD);
                        self.out.push(',');
                    }
                    self.id(&f.val_var, BOTH);
                    self.out.push_str("in");
                    self.e(&f.coll, BOTH);
                    self.close(f.strip);
                    self.parts(&f.body, quoted);
                    self.mark(&f.end, "endfor");
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Normalisation: what re-reading the printed text does to the decor. The text does not change.

fn fix(d: &mut D, def: (&str, &str)) {
    d.pre.get_or_insert_with(|| def.0.to_string());
    d.suf.get_or_insert_with(|| def.1.to_string());
}

/// The text in front of the first part of a node belongs to the node.
fn lift_pre(d: &mut D, part: &mut D) {
    let pre = take(&mut part.pre);
    d.pre.as_mut().unwrap().push_str(&pre);
}

fn lift_suf(d: &mut D, part: String) {
    d.suf.as_mut().unwrap().insert_str(0, &part);
}

fn take(s: &mut Option<String>) -> String {
    s.replace(String::new()).unwrap_or_default()
}

pub fn normalise(b: &mut B) {
    fix(&mut b.d, NONE);
    for s in &mut b.items {
        norm_s(s, NONE);
    }
    if b.items.is_empty() {
        b.omit = false;
        let pre = take(&mut b.d.pre);
        let suf = take(&mut b.d.suf);
        b.d.suf = Some(pre + &suf);
    }
}

fn norm_id(id: &mut Id, def: (&str, &str)) {
    fix(&mut id.d, def);
}

pub fn norm_s(s: &mut S, def: (&str, &str)) {
    match s {
        S::Attr { d, key, e } => {
            fix(d, def);
            norm_id(key, TRAIL);
            norm_e(e, LEAD);
            // The text after the value belongs to the attribute.
            let suf = take(&mut e.d.suf);
            let own = take(&mut d.suf);
            d.suf = Some(suf + &own);
            // The text before the key belongs to the attribute.
            let pre = take(&mut key.d.pre);
            d.pre.as_mut().unwrap().push_str(&pre);
        }
        S::Block {
            d,
            ident,
            labels,
            body,
        } => {
            fix(d, def);
            norm_id(ident, TRAIL);
            let pre = take(&mut ident.d.pre);
            d.pre.as_mut().unwrap().push_str(&pre);
            let mut prev = ident;
            for (_, l) in labels {
                norm_id(l, TRAIL);
                let pre = take(&mut l.d.pre);
                prev.d.suf.as_mut().unwrap().push_str(&pre);
                prev = l;
            }
            fix(&mut body.d, NONE);
            body.omit = false;
            if body.single_line() {
                let pre = take(&mut body.d.pre);
                for s in &mut body.items {
                    norm_s(s, BOTH);
                }
                let suf = take(&mut body.d.suf);
                if let Some(s) = body.items.first_mut() {
                    let d = s.d_mut();
                    d.suf.as_mut().unwrap().push_str(&suf);
                    let own = take(&mut d.pre);
                    d.pre = Some(pre + &own);
                } else {
                    body.d.suf = Some(pre + &suf);
                }
            } else {
                body.oneline = false;
                for s in &mut body.items {
                    norm_s(s, NONE);
                }
            }
        }
    }
}

fn norm_list(items: &mut [E], separate_trail: bool, trail: &mut String) {
    for (i, e) in items.iter_mut().enumerate() {
        norm_e(e, if i == 0 { NONE } else { LEAD });
    }
    if !separate_trail {
        if let Some(last) = items.last_mut() {
            let t = std::mem::take(trail);
            last.d.suf.as_mut().unwrap().push_str(&t);
        }
    }
}

/// Makes all decor explicit. The decor of the node itself is completed with the given default.
pub fn norm_e(e: &mut E, def: (&str, &str)) {
    fix(&mut e.d, def);
    match &mut e.k {
        K::Null | K::Bool(_) | K::Str(_) | K::Var(_) => {}
        K::Num(n, repr) => {
            repr.get_or_insert_with(|| num_text(n));
        }
        K::Arr(a) => {
            a.comma &= !a.items.is_empty();
            norm_list(&mut a.items, a.comma, &mut a.trail);
        }
        K::Obj(o) => {
            let last = o.items.len();
            for (i, it) in o.items.iter_mut().enumerate() {
                match &mut it.key {
                    Key::Id(id) => norm_id(id, TRAIL),
                    Key::Ex(e) => norm_e(e, TRAIL),
                }
                norm_e(&mut it.e, LEAD);
                if it.term == Term::None && i + 1 < last {
                    it.term = Term::Comma;
                }
            }
        }
        K::Tmpl(parts) => norm_parts(parts),
        K::Heredoc(h) => norm_parts(&mut h.parts),
        K::Trav(base, ops) => {
            norm_e(base, NONE);
            lift_pre(&mut e.d, &mut base.d);
            // The text in front of an operator belongs to it, or to the base if it is the first.
            let mut tail = take(&mut base.d.suf);
            for (i, op) in ops.iter_mut().enumerate() {
                fix(&mut op.d, NONE);
                tail.push_str(&take(&mut op.d.pre));
                if i == 0 {
                    base.d.suf = Some(std::mem::take(&mut tail));
                } else {
                    op.d.pre = Some(std::mem::take(&mut tail));
                }
                match &mut op.k {
                    OpK::Attr(id) => {
                        norm_id(id, NONE);
                        tail = take(&mut id.d.suf);
                    }
                    OpK::Index(e) => norm_e(e, NONE),
                    OpK::FullSplat(d) => fix(d, NONE),
                    OpK::Legacy(_, d) | OpK::AttrSplat(d) => {
                        fix(d, NONE);
                        tail = take(&mut d.suf);
                    }
                }
                tail.push_str(&take(&mut op.d.suf));
            }
            lift_suf(&mut e.d, tail);
        }
        K::Call(c) => {
            for id in &mut c.ns {
                norm_id(id, NONE);
            }
            norm_id(&mut c.name, NONE);
            let first = c.ns.first_mut().unwrap_or(&mut c.name);
            lift_pre(&mut e.d, &mut first.d);
            if c.args.is_empty() {
                c.expand = false;
                c.comma = false;
            }
            c.comma &= !c.expand;
            norm_list(&mut c.args, c.expand || c.comma, &mut c.trail);
        }
        K::Paren(e) => norm_e(e, NONE),
        K::Cond(c) => {
            norm_e(&mut c[0], TRAIL);
            norm_e(&mut c[1], BOTH);
            norm_e(&mut c[2], LEAD);
            lift_pre(&mut e.d, &mut c[0].d);
            let suf = take(&mut c[2].d.suf);
            lift_suf(&mut e.d, suf);
        }
        K::Un(_, x) => {
            norm_e(x, NONE);
            let suf = take(&mut x.d.suf);
            lift_suf(&mut e.d, suf);
        }
        K::Bin(l, _, d, r) => {
            norm_e(l, NONE);
            fix(d, BOTH);
            norm_e(r, NONE);
            lift_pre(&mut e.d, &mut l.d);
            let suf = take(&mut l.d.suf);
            d.pre.as_mut().unwrap().insert_str(0, &suf);
            let pre = take(&mut r.d.pre);
            d.suf.as_mut().unwrap().push_str(&pre);
            let suf = take(&mut r.d.suf);
            lift_suf(&mut e.d, suf);
        }
        K::For(f) => {
            fix(&mut f.d, NONE);
            if let Some(k) = &mut f.key_var {
                norm_id(k, LEAD);
            }
            norm_id(&mut f.val_var, BOTH);
            norm_e(&mut f.coll, BOTH);
            if let Some(k) = &mut f.key {
                norm_e(k, BOTH);
            }
            norm_e(&mut f.val, LEAD);
            if f.key.is_none() {
                f.grouping = false;
            }
            if let Some((d, c)) = &mut f.cond {
                fix(d, LEAD);
                norm_e(c, LEAD);
                if !f.grouping {
                    let pre = take(&mut d.pre);
                    f.val.d.suf.as_mut().unwrap().push_str(&pre);
                }
                f.gtrail.clear();
            } else if !f.grouping {
                f.gtrail.clear();
            }
        }
    }
}

pub fn norm_parts(parts: &mut [T]) {
    for t in parts {
        match t {
            T::Lit(_) => {}
            T::Interp(e, _) => norm_e(e, BOTH),
            T::If(i) => {
                norm_e(&mut i.cond, BOTH);
                norm_parts(&mut i.body);
                if let Some((_, els)) = &mut i.els {
                    norm_parts(els);
                }
            }
            T::For(f) => {
                if let Some(k) = &mut f.key_var {
                    norm_id(k, LEAD);
                }
                norm_id(&mut f.val_var, BOTH);
                norm_e(&mut f.coll, BOTH);
                norm_parts(&mut f.body);
            }
        }
    }
}
