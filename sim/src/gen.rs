//! Generation of documents from the choice stream.

use crate::choice::Src;
use crate::model::*;

pub const IDENTS: [&str; 14] = [
    "a", "b", "foo", "bar", "x-1", "_z", "k9", "name", "ünï", "resource", "fort", "in_x", "iffy",
    "日本",
];
pub const BLOCKS: [&str; 5] = ["blk", "svc", "resource", "b-2", "ö"];
pub const FUNCS: [&str; 5] = ["f", "g", "min", "to-x", "forx"];
const FRAGS: [&str; 40] = [
    "a",
    "",
    "foo",
    " ",
    "hello world",
    "é",
    "日本",
    "😀",
    "\n",
    "\t",
    "\"",
    "\\",
    "$",
    "%",
    "${",
    "%{",
    "$${",
    "%%{",
    "{",
    "}",
    "~",
    "#",
    "//",
    "/*",
    "*/",
    "\u{7f}",
    "\u{1}",
    "\r",
    "\u{8}",
    "\u{c}",
    "\\n",
    "'",
    "\u{0}",
    "EO",
    "\u{feff}",
    "0",
    "\u{b}",
    "\u{85}",
    "\u{2028}",
    "\u{a0}",
];

pub struct Cfg {
    pub trivia: bool,
    pub heredocs: bool,
    pub templates: bool,
    pub depth: usize,
    pub width: usize,
    /// Only expressions that denote themselves: literals, arrays, objects.
    pub literal: bool,
    /// Text after the grouping operator of a `for` (it cannot be set through constructors).
    pub gtrail: bool,
}

const DELIMS: [&str; 3] = ["EOT", "E_1", "END-X"];

impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            trivia: true,
            heredocs: true,
            templates: true,
            depth: 4,
            width: 4,
            literal: false,
            gtrail: true,
        }
    }
}

pub struct G<'a> {
    pub src: &'a mut Src,
    pub cfg: Cfg,
    budget: i32,
    /// How many parts may still be oversized: long, wide or deep.
    big: usize,
}

/// Lengths around the sizes of buffers and inline storage.
const LENGTHS: [usize; 24] = [
    14, 15, 16, 22, 23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024,
    4096, 8192, 8193,
];
const WIDTHS: [usize; 9] = [8, 9, 16, 17, 32, 33, 64, 65, 129];

impl<'a> G<'a> {
    pub fn new(src: &'a mut Src, cfg: Cfg) -> G<'a> {
        let big = if src.chance(1, 32) {
            1 + src.below(3)
        } else {
            0
        };
        G {
            src,
            cfg,
            budget: 120,
            big,
        }
    }

    /// Whether this part is oversized.
    fn oversized(&mut self, den: usize) -> bool {
        let yes = self.big > 0 && self.src.chance(1, den);
        if yes {
            self.big -= 1;
        }
        yes
    }

    fn wide(&mut self) -> Option<usize> {
        if self.oversized(6) {
            Some(*self.src.pick(&WIDTHS))
        } else {
            None
        }
    }

    fn long(&mut self, unit: &str, first: &str) -> String {
        let n = match self.src.below(8) {
            7 => 65_000 + self.src.below(1200),
            _ => *self.src.pick(&LENGTHS),
        };
        let mut s = first.to_string();
        for _ in 0..self.src.below(3) {
            s.push('b');
        }
        while s.len() < n && !unit.is_empty() {
            s.push_str(unit);
        }
        s
    }

    fn comment_text(&mut self, inline: bool) -> String {
        let t = [
            "c", "", " comment", "é\"${x", "%{ if", " }]) ", "* /", "EOT", "\t#", "=> ...",
        ];
        let mut s = (*self.src.pick(&t)).to_string();
        if self.oversized(12) {
            s = self.long(" é#", "c");
        }
        if inline && self.src.chance(1, 4) {
            s.push_str("\n x = 1\n");
        }
        s
    }

    /// Space, tabs and inline comments.
    pub fn sp(&mut self) -> Option<String> {
        if !self.cfg.trivia || !self.src.chance(1, 3) {
            return None;
        }
        Some(match self.src.below(6) {
            0 => " ".into(),
            1 => String::new(),
            2 => "  ".into(),
            3 => "\t".into(),
            4 => format!(" /*{}*/ ", self.comment_text(true)),
            _ => format!("/*{}*/", self.comment_text(true)),
        })
    }

    /// Anything between tokens where newlines are allowed.
    pub fn ws(&mut self) -> Option<String> {
        if !self.cfg.trivia || !self.src.chance(1, 3) {
            return None;
        }
        Some(match self.src.below(9) {
            0 => " ".into(),
            1 => String::new(),
            2 => "\n  ".into(),
            3 => "\t".into(),
            4 => format!("/*{}*/", self.comment_text(true)),
            5 => format!(" # {}\n", self.comment_text(false)),
            6 => format!("//{}\n  ", self.comment_text(false)),
            7 => format!(" /*{}*/\n\n", self.comment_text(true)),
            _ => format!(
                "\n# {}\n\n//{}\n",
                self.comment_text(false),
                self.comment_text(false)
            ),
        })
    }

    fn trivia(&mut self, nl: bool) -> Option<String> {
        if nl {
            self.ws()
        } else {
            self.sp()
        }
    }

    /// At least one separating character.
    fn sep(t: Option<String>) -> Option<String> {
        t.map(|s| if s.is_empty() { " ".to_string() } else { s })
    }

    pub fn ws_str(&mut self) -> String {
        self.ws().unwrap_or_default()
    }

    pub fn both(&mut self, nl: bool) -> D {
        D::new(self.trivia(nl), self.trivia(nl))
    }

    pub fn ident(&mut self) -> String {
        if self.oversized(12) {
            let unit = *self.src.pick(&["i", "ü", "-i", "日"]);
            return self.long(unit, "x");
        }
        (*self.src.pick(&IDENTS)).to_string()
    }

    pub fn string(&mut self) -> String {
        if self.oversized(4) {
            // Brackets could become deep nesting if the text is damaged.
            let unit = match *self.src.pick(&FRAGS) {
                u if u.contains('{') => "$",
                u => u,
            };
            return self.long(unit, "");
        }
        let n = self.src.weighted(&[6, 4, 3, 2, 1]);
        let mut s = String::new();
        for _ in 0..n {
            if self.src.chance(1, 8) {
                let c = self.any_char();
                s.push(c);
            } else {
                s.push_str(*self.src.pick(&FRAGS));
            }
        }
        if s.is_empty() && n == 0 {
            s.push_str(*self.src.pick(&["a", "", "foo", "x y"]));
        }
        s
    }

    fn any_char(&mut self) -> char {
        let (lo, hi) = *self.src.pick(&[
            (0x20, 0x7e),
            (0x00, 0x1f),
            (0x7f, 0xff),
            (0x100, 0xd7ff),
            (0x2000, 0x206f),
            (0xe000, 0xffff),
            (0x10000, 0x10ffff),
        ]);
        char::from_u32(self.src.range(lo, hi) as u32).unwrap_or('?')
    }

    /// Non-empty literal text of a template that is followed by another element or the end.
    pub fn literal(&mut self, heredoc: bool) -> String {
        let mut s = self.string();
        if heredoc {
            s = s.replace('\r', "R");
            if self.src.chance(1, 16) {
                // Lines which start like the end of a heredoc, or contain it.
                let delim = *self.src.pick(&DELIMS);
                s = match self.src.below(3) {
                    0 => format!("{s}x {delim}"),
                    1 => format!("{delim}{}", self.src.pick(&["X", "_", "-", "0", "é", "EOT"])),
                    _ => format!(
                        "{s}\n{}{delim}{}",
                        self.src.pick(&["", " ", "\t"]),
                        self.src.pick(&["X", "_ ", "-\n", "0", "é", "EOT"]),
                    ),
                };
            }
        }
        while s.ends_with(['$', '%']) {
            s.pop();
        }
        if s.is_empty() {
            s.push('l');
        }
        s
    }

    pub fn number(&mut self, allow_neg: bool) -> K {
        let neg = allow_neg && self.src.chance(1, 6);
        let (n, text) = match self.src.weighted(&[8, 2, 2, 2, 2, 1, 1]) {
            5 => {
                let v = self.src.bits() >> self.src.below(64);
                (Num::U(v), v.to_string())
            }
            6 => {
                let v = f64::from_bits(self.src.bits() >> 1);
                let v = if v.is_finite() { v } else { 0.5 };
                (Num::F(v), format!("{v:?}"))
            }
            0 => {
                let v = self.src.below(20) as u64;
                (Num::U(v), v.to_string())
            }
            1 => {
                let v = *self.src.pick(&[
                    u64::MAX,
                    i64::MAX as u64,
                    i64::MAX as u64 + 1,
                    u32::MAX as u64,
                    (1 << 53) + 1,
                    1 << 53,
                ]);
                (Num::U(v), v.to_string())
            }
            2 => {
                let v = self.src.below(1000) as u64;
                (Num::U(v), format!("00{v}"))
            }
            3 => {
                let t =
                    *self
                        .src
                        .pick(&["0.5", "1.25", "3.0", "12.50", "0.1", "99999.99999", "0.0"]);
                (Num::F(t.parse().unwrap()), t.to_string())
            }
            _ => {
                let t = *self.src.pick(&[
                    "1e3",
                    "2.5E-3",
                    "1e21",
                    "1E+2",
                    "4.9e-324",
                    "1.7976931348623157e308",
                    "1e19",
                ]);
                (Num::F(t.parse().unwrap()), t.to_string())
            }
        };
        if !neg {
            return K::Num(n, Some(text));
        }
        let gap = match self.sp() {
            Some(s) => s,
            None => String::new(),
        };
        let text = format!("-{gap}{text}");
        let n = match n {
            Num::U(0) => Num::U(0),
            Num::U(u) if u <= 1 << 63 => Num::I((u as i128).wrapping_neg() as i64),
            Num::U(u) => Num::F(-(u as f64)),
            Num::F(f) => Num::F(-f),
            Num::I(_) => unreachable!(),
        };
        K::Num(n, Some(text))
    }

    /// An expression in a context where newlines are (not) allowed.
    pub fn expr(&mut self, nl: bool) -> E {
        let depth = self.cfg.depth;
        if !self.oversized(6) {
            return self.expr_at(depth, nl);
        }
        let mut e = if self.cfg.heredocs && !self.cfg.literal && self.src.chance(1, 3) {
            E::new(self.heredoc(1))
        } else {
            self.expr_at(1, false)
        };
        for _ in 0..*self.src.pick(&[6, 12, 24, 48]) {
            let kind = self.src.below(if self.cfg.literal { 2 } else { 6 });
            // The value of an object item starts and ends on the line of its key.
            e.d = self.both(kind != 1);
            e = E::new(match kind {
                1 => K::Obj(Obj {
                    items: vec![Item {
                        key: Key::Id(Id::new("k")),
                        colon: false,
                        e,
                        term: *self.src.pick(&[Term::Comma, Term::None]),
                    }],
                    trail: String::new(),
                }),
                4 => K::Paren(Box::new(e)),
                2 => K::Call(Box::new(Call {
                    ns: vec![],
                    name: Id::new("f"),
                    args: vec![e],
                    expand: false,
                    comma: false,
                    trail: String::new(),
                })),
                3 if self.cfg.templates => K::Tmpl(vec![
                    T::Lit("t".into()),
                    T::Interp(e, (false, false)),
                ]),
                _ => K::Arr(Arr {
                    items: vec![e],
                    comma: false,
                    trail: String::new(),
                }),
            });
        }
        e
    }

    fn leaf(&mut self) -> K {
        match self.src.below(if self.cfg.literal { 4 } else { 5 }) {
            0 => self.number(true),
            1 => K::Str(self.string()),
            2 => K::Bool(self.src.below(2) == 1),
            3 => K::Null,
            _ => K::Var(self.ident()),
        }
    }

    pub fn expr_at(&mut self, depth: usize, nl: bool) -> E {
        self.budget -= 1;
        if depth == 0 || self.budget <= 0 || self.src.below(10) < 4 {
            return E::new(self.leaf());
        }
        let d = depth - 1;
        let max = if self.cfg.literal { 2 } else { 11 };
        let kind = self.src.below(max);
        let k = match kind {
            0 => self.array(d),
            1 => self.object(d, nl),
            2 => {
                let e = self.wrapped(d, true);
                K::Paren(Box::new(e))
            }
            3 => self.call(d, nl),
            4 => self.traversal(d, nl),
            5 => self.unary(d, nl),
            6 => self.binary(d, nl),
            7 => self.cond(d, nl),
            8 => self.for_expr(d, nl),
            9 if self.cfg.templates => self.template(d),
            10 if self.cfg.heredocs => self.heredoc(d),
            _ => self.leaf(),
        };
        E::new(k)
    }

    /// An expression with decor on both sides.
    pub fn wrapped(&mut self, depth: usize, nl: bool) -> E {
        let mut e = self.expr_at(depth, nl);
        e.d = self.both(nl);
        e
    }

    fn count(&mut self) -> usize {
        if let Some(n) = self.wide() {
            return n;
        }
        let w = self.cfg.width;
        self.src.below(w)
    }

    fn array(&mut self, d: usize) -> K {
        let n = self.count();
        let items: Vec<E> = (0..n).map(|_| self.wrapped(d, true)).collect();
        let comma = n > 0 && self.src.chance(1, 4);
        let trail = if comma || n == 0 {
            self.ws_str()
        } else {
            String::new()
        };
        K::Arr(Arr {
            items,
            comma,
            trail,
        })
    }

    pub fn key(&mut self, d: usize) -> Key {
        match self.src.weighted(&[6, 3, 1, 1, 1]) {
            0 => Key::Id(Id::new(self.ident())),
            1 => Key::Ex(E::new(K::Str(self.string()))),
            2 => Key::Ex(E::new(self.number(false))),
            3 if !self.cfg.literal => {
                let e = self.wrapped(d.min(1), true);
                Key::Ex(E::new(K::Paren(Box::new(e))))
            }
            4 if self.cfg.templates && !self.cfg.literal => {
                Key::Ex(E::new(self.template(d.min(1))))
            }
            _ => Key::Id(Id::new(self.ident())),
        }
    }

    fn object(&mut self, d: usize, _nl: bool) -> K {
        let n = self.count();
        let mut items: Vec<Item> = Vec::new();
        for i in 0..n {
            let last = i + 1 == n;
            if let Some(item) = self.item(d, &items, last) {
                items.push(item);
            }
        }
        // A duplicate may have been dropped at the end.
        let trail = if items.last().is_some_and(|it| it.term == Term::None) {
            String::new()
        } else {
            self.ws_str()
        };
        K::Obj(Obj { items, trail })
    }

    /// An object item with a new key.
    pub fn item(&mut self, d: usize, items: &[Item], last: bool) -> Option<Item> {
        let mut key = if items.len() > 6 {
            Key::Id(Id::new(format!("k{}", items.len())))
        } else {
            self.key(d)
        };
        if items.iter().any(|it| key_canon(&it.key) == key_canon(&key)) {
            return None;
        }
        let kd = D::new(self.ws(), self.sp());
        match &mut key {
            Key::Id(id) => id.d = kd,
            Key::Ex(e) => e.d = kd,
        }
        let mut e = self.expr_at(d, false);
        e.d = self.both(false);
        let term = match self.src.below(if last { 3 } else { 2 }) {
            0 => Term::Comma,
            1 => {
                if self.src.chance(1, 4) {
                    let c = self.comment_text(false);
                    let s = e.d.suf.get_or_insert_with(String::new);
                    s.push_str(if c.len() % 2 == 0 { "#" } else { "//" });
                    s.push_str(&c);
                }
                Term::Newline
            }
            _ => Term::None,
        };
        Some(Item {
            key,
            colon: self.src.chance(1, 5),
            e,
            term,
        })
    }

    fn call(&mut self, d: usize, nl: bool) -> K {
        let mut ns = Vec::new();
        if self.src.chance(1, 5) {
            for _ in 0..self.src.range(1, 2) {
                ns.push(Id {
                    s: self.ident(),
                    d: self.both(nl),
                });
            }
        }
        let mut name = Id {
            s: (*self.src.pick(&FUNCS)).to_string(),
            d: self.both(nl),
        };
        match ns.first_mut() {
            Some(first) => first.d.pre = None,
            None => name.d.pre = None,
        }
        let n = self.count();
        let args: Vec<E> = (0..n).map(|_| self.wrapped(d, true)).collect();
        let tail = if n == 0 {
            0
        } else {
            self.src.weighted(&[4, 1, 1])
        };
        let (expand, comma) = (tail == 1, tail == 2);
        let trail = if n == 0 || tail > 0 {
            self.ws_str()
        } else {
            String::new()
        };
        K::Call(Box::new(Call {
            ns,
            name,
            args,
            expand,
            comma,
            trail,
        }))
    }

    /// An operand that binds tighter than any operator.
    pub fn term(&mut self, d: usize, nl: bool, num: bool) -> E {
        let e = self.expr_at(d, nl);
        match e.k {
            K::Num(..) if num => e,
            K::Num(..) | K::Un(..) | K::Bin(..) | K::Cond(..) | K::Heredoc(..) => {
                E::new(K::Paren(Box::new(e)))
            }
            _ => e,
        }
    }

    fn traversal(&mut self, d: usize, nl: bool) -> K {
        let base = self.term(d, nl, false);
        if matches!(base.k, K::Trav(..)) {
            return base.k;
        }
        let n = match self.wide() {
            Some(n) => n,
            None => self.src.range(1, 3),
        };
        let mut ops = Vec::new();
        for _ in 0..n {
            ops.push(self.op(d, nl));
        }
        K::Trav(Box::new(base), ops)
    }

    pub fn op(&mut self, d: usize, nl: bool) -> Op {
        let pre = self.trivia(nl);
        // After an attribute name or index without trivia.
        let inner = D::new(self.ws(), None);
        let k = match self.src.below(5) {
            0 => OpK::Attr(Id {
                s: self.ident(),
                d: inner,
            }),
            1 => OpK::Index(self.wrapped(d, true)),
            2 => OpK::Legacy(self.src.below(12) as u64, inner),
            3 => OpK::AttrSplat(inner),
            _ => {
                let mut inner = inner;
                inner.suf = self.ws();
                OpK::FullSplat(inner)
            }
        };
        Op {
            d: D::new(pre, None),
            k,
        }
    }

    fn unary(&mut self, d: usize, nl: bool) -> K {
        let mut e = self.term(d, nl, false);
        e.d = D::new(self.sp(), None);
        K::Un(self.src.below(2) == 0, Box::new(e))
    }

    fn binary(&mut self, d: usize, nl: bool) -> K {
        let op = *self.src.pick(&BIN_OPS);
        let l = self.operand(d, nl, op, false);
        let r = self.operand(d, nl, op, true);
        let dec = self.operator_decor(op, nl);
        let mut k = K::Bin(Box::new(l), op, dec, Box::new(r));
        if let Some(n) = self.wide() {
            for _ in 0..n.min(40) {
                let r = self.operand(0, nl, op, true);
                k = K::Bin(Box::new(E::new(k)), op, D::default(), Box::new(r));
            }
        }
        k
    }

    pub fn operator_decor(&mut self, op: BinOp, nl: bool) -> D {
        let mut dec = self.both(nl);
        if op == BinOp::Sub || op == BinOp::Div || op == BinOp::Mod {
            dec.pre = Self::sep(dec.pre);
        }
        if let Some(s) = &mut dec.suf {
            if op == BinOp::Div && s.starts_with('/') {
                s.insert(0, ' ');
            }
        }
        dec
    }

    pub fn operand(&mut self, d: usize, nl: bool, op: BinOp, right: bool) -> E {
        let e = self.expr_at(d, nl);
        let paren = match &e.k {
            K::Cond(..) | K::Heredoc(..) => true,
            K::Bin(_, inner, ..) => inner.prec() < op.prec() || right && inner.prec() == op.prec(),
            _ => false,
        };
        if paren {
            let mut e = e;
            e.d = D::default();
            E::new(K::Paren(Box::new(e)))
        } else {
            e
        }
    }

    fn cond(&mut self, d: usize, nl: bool) -> K {
        let mut c = self.expr_at(d, nl);
        if matches!(c.k, K::Cond(..) | K::Heredoc(..)) {
            c = E::new(K::Paren(Box::new(c)));
        }
        c.d = D::new(None, self.trivia(nl));
        let mut t = self.expr_at(d, nl);
        t.d = self.both(nl);
        let mut f = self.expr_at(d, nl);
        f.d = D::new(self.trivia(nl), None);
        K::Cond(Box::new([c, t, f]))
    }

    pub fn var_id(&mut self) -> Id {
        let s = self.ident();
        Id {
            s,
            d: D::new(Self::sep(self.ws()), Self::sep(self.ws())),
        }
    }

    /// Key variable, value variable and collection of a `for`.
    fn intro(&mut self, d: usize) -> (Option<Id>, Id, E) {
        let mut key = None;
        let mut val = self.var_id();
        if self.src.chance(1, 3) {
            let mut k = self.var_id();
            // The prefix has to separate from `for`; before the comma anything goes.
            k.d.suf = self.ws();
            val.d.pre = Self::sep(val.d.pre);
            key = Some(k);
        }
        let mut coll = self.expr_at(d, false);
        coll.d = D::new(Self::sep(self.ws()), self.ws());
        (key, val, coll)
    }

    fn for_expr(&mut self, d: usize, nl: bool) -> K {
        // The state that allows newlines is inherited by list values and conditions only.
        let _ = nl;
        let object = self.src.chance(1, 2);
        let (key_var, val_var, coll) = self.intro(d);
        let intro = D::new(self.ws(), None);
        let key = if object {
            let mut k = self.expr_at(d, false);
            k.d = self.both(true);
            Some(k)
        } else {
            None
        };
        let mut val = self.expr_at(d, !object);
        val.d = D::new(self.ws(), self.ws());
        let grouping = object && self.src.chance(1, 3);
        let mut gtrail = String::new();
        let mut cond = None;
        if self.src.chance(1, 3) {
            let mut c = self.expr_at(d, true);
            c.d = D::new(Self::sep(self.ws()), self.ws());
            let cd = if grouping {
                D::new(Some(self.ws_str()), None)
            } else {
                val.d.suf = Some(match Self::sep(self.ws()) {
                    Some(s) => s,
                    None => " ".into(),
                });
                D::new(Some(String::new()), None)
            };
            cond = Some((cd, c));
        } else if grouping && self.cfg.gtrail {
            gtrail = self.ws_str();
        }
        K::For(Box::new(For {
            d: intro,
            key_var,
            val_var,
            coll,
            key,
            val,
            grouping,
            gtrail,
            cond,
        }))
    }

    pub fn strip(&mut self) -> Strip {
        let b = self.src.weighted(&[6, 1, 1, 1]);
        (b & 1 == 1, b & 2 == 2)
    }

    pub fn mark(&mut self) -> Mark {
        Mark {
            pre: self.ws_str(),
            trail: self.ws_str(),
            strip: self.strip(),
        }
    }

    /// The elements of a template; never two literals in a row.
    fn parts(&mut self, d: usize, heredoc: bool, min_dynamic: usize) -> Vec<T> {
        let mut parts: Vec<T> = Vec::new();
        let wide = self.wide();
        let n = match wide {
            Some(n) => n,
            None => self.src.range(min_dynamic.max(1), 3),
        };
        for i in 0..n {
            if self.src.below(2) == 1 {
                parts.push(T::Lit(self.literal(heredoc)));
            }
            if i >= min_dynamic && wide.is_none() && self.src.below(3) == 0 {
                break;
            }
            let t = self.dynamic(d, heredoc);
            parts.push(t);
        }
        if self.src.below(2) == 1 && !matches!(parts.last(), Some(T::Lit(_))) {
            parts.push(T::Lit(self.literal(heredoc)));
        }
        parts
    }

    pub fn dynamic(&mut self, d: usize, heredoc: bool) -> T {
        let kind = if d == 0 || self.budget <= 0 {
            0
        } else {
            self.src.weighted(&[4, 1, 1])
        };
        match kind {
            0 => {
                let e = self.wrapped(d, true);
                T::Interp(e, self.strip())
            }
            1 => {
                let mut cond = self.expr_at(d - 1, false);
                cond.d = D::new(Self::sep(self.ws()), self.ws());
                let body = self.parts(d - 1, heredoc, 0);
                let els = if self.src.chance(1, 2) {
                    Some((self.mark(), self.parts(d - 1, heredoc, 0)))
                } else {
                    None
                };
                T::If(Box::new(If {
                    pre: self.ws_str(),
                    strip: self.strip(),
                    cond,
                    body,
                    els,
                    end: self.mark(),
                }))
            }
            _ => {
                let (key_var, val_var, coll) = self.intro(d - 1);
                let body = self.parts(d - 1, heredoc, 0);
                T::For(Box::new(TFor {
                    pre: self.ws_str(),
                    strip: self.strip(),
                    key_var,
                    val_var,
                    coll,
                    body,
                    end: self.mark(),
                }))
            }
        }
    }

    pub fn template(&mut self, d: usize) -> K {
        K::Tmpl(self.parts(d, false, 1))
    }

    /// The elements of an unquoted template.
    pub fn bare_template(&mut self) -> Vec<T> {
        let d = self.cfg.depth.saturating_sub(1);
        if self.src.chance(1, 8) {
            return vec![T::Lit(self.literal(true))];
        }
        self.parts(d, true, 0)
    }

    pub fn heredoc(&mut self, d: usize) -> K {
        let delim = (*self.src.pick(&DELIMS)).to_string();
        let trail = if self.src.chance(1, 3) {
            (*self.src.pick(&[" ", "\t", "    "])).to_string()
        } else {
            String::new()
        };
        if self.src.below(2) == 0 {
            let mut parts = if self.src.chance(1, 8) {
                vec![]
            } else {
                self.parts(d, true, 0)
            };
            if !parts.is_empty() {
                match parts.last_mut() {
                    Some(T::Lit(s)) => s.push('\n'),
                    _ => parts.push(T::Lit("\n".into())),
                }
            }
            return K::Heredoc(Box::new(Heredoc {
                delim,
                indent: None,
                parts,
                trail,
            }));
        }
        // Indented: at least one line starts without extra space.
        let indent = self.src.below(5);
        let lines = match self.wide() {
            Some(n) => n,
            None => self.src.below(4),
        };
        let mut parts: Vec<T> = Vec::new();
        let mut lit = String::new();
        for l in 0..lines {
            let dynamic_start = self.src.chance(1, 5);
            if dynamic_start {
                // A dynamic element right after the indentation of the first line leaves an empty
                // literal behind (or none without indentation).
                if indent > 0 && l == 0 {
                    parts.push(T::Lit(String::new()));
                }
            } else {
                if l > 0 && self.src.chance(1, 3) {
                    lit.push_str(*self.src.pick(&["  ", " ", "    "]));
                }
                lit.push_str(
                    *self
                        .src
                        .pick(&["x", "foo bar", "é", "\\", "\"q\"", "{", "E"]),
                );
            }
            if dynamic_start || self.src.chance(1, 2) {
                if !lit.is_empty() {
                    parts.push(T::Lit(std::mem::take(&mut lit)));
                }
                let t = self.dynamic(d.min(2), true);
                parts.push(t);
            }
            if self.src.chance(1, 3) {
                let s = self.literal(true);
                lit.push_str(&s);
            }
            while lit.ends_with(['$', '%']) {
                lit.pop();
            }
            lit.push('\n');
            if self.src.chance(1, 5) && l + 1 < lines {
                lit.push('\n');
            }
        }
        if !lit.is_empty() {
            parts.push(T::Lit(lit));
        }
        K::Heredoc(Box::new(Heredoc {
            delim,
            indent: Some(if parts.is_empty() { 0 } else { indent }),
            parts,
            trail,
        }))
    }

    pub fn attr_name(&mut self, b: &B) -> Option<String> {
        for _ in 0..6 {
            let n = self.ident();
            if !b.has_attr(&n) {
                return Some(n);
            }
        }
        if b.items.len() <= 6 {
            return None;
        }
        (b.items.len()..)
            .map(|i| format!("n{i}"))
            .find(|n| !b.has_attr(n))
    }

    /// Text before a structure.
    pub fn lead(&mut self) -> Option<String> {
        self.ws()
    }

    pub fn line_suffix(&mut self) -> Option<String> {
        let s = self.sp();
        if self.cfg.trivia && self.src.chance(1, 8) {
            let c = self.comment_text(false);
            return Some(format!(
                "{}{}{}",
                s.unwrap_or_default(),
                if c.len() % 2 == 0 { "# " } else { "//" },
                c
            ));
        }
        s
    }

    pub fn attribute(&mut self, name: String, oneline: bool) -> S {
        let key = Id {
            s: name,
            d: D::new(None, self.sp()),
        };
        let mut e = self.expr(false);
        e.d = D::new(self.sp(), None);
        let d = if oneline {
            D::new(self.sp(), self.sp())
        } else {
            D::new(self.lead(), self.line_suffix())
        };
        S::Attr { d, key, e }
    }

    pub fn label(&mut self) -> (bool, Id) {
        if self.src.below(2) == 0 {
            let s = self.string();
            (
                true,
                Id {
                    s,
                    d: D::new(None, self.sp()),
                },
            )
        } else {
            let s = self.ident();
            (
                false,
                Id {
                    s,
                    d: D::new(None, Self::sep(self.sp())),
                },
            )
        }
    }

    pub fn block(&mut self, depth: usize) -> S {
        let ident = Id {
            s: (*self.src.pick(&BLOCKS)).to_string(),
            d: D::new(None, Self::sep(self.sp())),
        };
        let n = match self.wide() {
            Some(n) => n,
            None => self.src.weighted(&[4, 3, 2]),
        };
        let labels: Vec<(bool, Id)> = (0..n).map(|_| self.label()).collect();
        let mut body;
        if self.oversized(8) {
            let mut s = self.structure(&B::default(), 0);
            for _ in 0..*self.src.pick(&[5, 9, 17, 33]) {
                let mut body = B::default();
                body.items.push(s);
                body.d = D::new(self.line_suffix(), self.lead());
                s = S::Block {
                    d: D::new(self.lead(), self.line_suffix()),
                    ident: Id::new("deep"),
                    labels: vec![],
                    body,
                };
            }
            return s;
        }
        match self.src.weighted(&[6, 1, 2]) {
            0 => {
                body = self.structures(depth.saturating_sub(1));
                let pre = self.line_suffix();
                let suf = self.lead();
                body.d = D::new(pre, suf);
            }
            1 => {
                body = B {
                    oneline: true,
                    ..B::default()
                };
                body.d = D::new(None, self.sp());
            }
            _ => {
                body = B {
                    oneline: true,
                    ..B::default()
                };
                let name = self.ident();
                let s = self.attribute(name, true);
                body.items.push(s);
            }
        }
        S::Block {
            d: D::new(self.lead(), self.line_suffix()),
            ident,
            labels,
            body,
        }
    }

    fn structures(&mut self, depth: usize) -> B {
        let mut b = B::default();
        let n = match self.wide() {
            Some(n) => n,
            None => self.src.weighted(&[2, 4, 4, 2, 1]),
        };
        for _ in 0..n {
            let s = self.structure(&b, depth);
            b.items.push(s);
        }
        b
    }

    pub fn structure(&mut self, b: &B, depth: usize) -> S {
        if depth > 0 && self.budget > 0 && self.src.chance(1, 3) {
            return self.block(depth);
        }
        match self.attr_name(b) {
            Some(n) => self.attribute(n, false),
            None => self.block(depth),
        }
    }

    /// A whole document as a parser would have read it.
    pub fn doc(&mut self) -> B {
        let mut b = self.structures(2);
        if b.items.is_empty() || self.src.chance(5, 6) {
            let mut suf = self.lead();
            if self.cfg.trivia && self.src.chance(1, 10) {
                suf = Some(format!("{}# end", suf.unwrap_or_default()));
            }
            b.d.suf = suf;
        } else {
            b.omit = true;
        }
        normalise(&mut b);
        b
    }
}

/// Identity of an object key.
pub fn key_canon(k: &Key) -> String {
    match k {
        Key::Id(id) => format!("i:{}", id.s),
        Key::Ex(e) => crate::canon::model_e(e),
    }
}
