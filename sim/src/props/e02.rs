//! E02: document containers obey one sequential model over any history.
//!
//! A run applies a chosen history of operations to a container of the library and, in parallel, to a plain
//! list or tree of tagged items. User code that takes part in an operation (iterators, conversions, loop
//! bodies) is simulated and fails at chosen points. After every operation all accessors are compared.

use crate::choice::Src;
use crate::cx::{inject_panic, is_injected, violation, Check, Cx};
use crate::ev;
use crate::gen::{Cfg, G};
use crate::{accessors, canon, make, model as m, routes};
use crate::runner::{no_known, Prop};
use hcl_edit::expr::{Array, Expression, FuncArgs, FuncCall, Object, ObjectKey, ObjectValue};
use hcl_edit::expr::{ObjectValueAssignment, ObjectValueTerminator};
use hcl_edit::structure::{Attribute, Block, BlockLabel, Body, Structure};
use hcl_edit::template::{Element, Interpolation, StringTemplate, Template};
use hcl_edit::{Decor, Decorate, Decorated, Ident, RawString};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub static PROP: Prop = Prop {
    id: "E02",
    run,
    runs: (150_000, 4_000_000),
    rule: "a run applies a chosen history of up to 24 (sometimes 80) operations to bodies, objects, arrays, argument \
           lists and templates, with iterators abandoned, lying about their length, ending early or panicking, \
           conversions panicking and positions out of range, and compares every accessor with a reference container \
           after each; non-trivial if the container was changed; counted by the hash over operations and results",
    real: &["hcl-edit (structure, expr, template containers)", "hcl-rs (structure, expr, template containers)"],
    stubs: &["user iterators, conversions and loop bodies (simulated)"],
    assumptions: &["attributes are not renamed through direct mutable access to structures"],
    known: no_known,
    stack_mb: 64,
    hang_s: 60,
    workers: 8,
};

fn run(cx: &mut Cx) -> Check {
    match cx.src.below(12) {
        10 => documents(cx),
        11 => built(cx),
        0..=2 => bodies(cx),
        3 => list::<Array>(cx),
        4 => list::<FuncArgs>(cx),
        5 => list::<Template>(cx),
        6 => list::<StringTemplate>(cx),
        7 => objects(cx),
        _ => structural(cx),
    }
}

fn length(cx: &mut Cx) -> usize {
    match cx.src.below(8) {
        0 => cx.src.range(1, 4),
        7 => cx.src.range(20, 80),
        _ => cx.src.range(3, 24),
    }
}

/// Containers start empty or small; some start large.
fn start(src: &mut Src, small: usize) -> (usize, bool) {
    if src.chance(1, 30) {
        (*src.pick(&[15, 16, 17, 31, 33, 63, 65, 100, 130]), true)
    } else {
        (src.below(small + 1), false)
    }
}

/// How a call with simulated user code ended.
#[derive(PartialEq, Debug)]
enum End<T> {
    Done(T),
    /// The simulated user code panicked.
    Injected,
    /// The library panicked.
    Panicked,
}

fn guarded<T>(f: impl FnOnce() -> T) -> End<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => End::Done(t),
        Err(p) if is_injected(&*p) => End::Injected,
        Err(_) => End::Panicked,
    }
}

// ---------------------------------------------------------------------------------------------
// Simulated user code

/// An iterator over prepared items that may lie about its length, end early or panic.
struct Feed<T> {
    items: std::vec::IntoIter<T>,
    hint: usize,
    left: usize,
    panics: bool,
    ended: bool,
}

impl<T> Feed<T> {
    /// The feed and how many items it delivers.
    fn new(cx: &mut Cx, items: Vec<T>) -> (Feed<T>, usize, bool) {
        let n = items.len();
        let hint = cx.src.below(4);
        let (left, panics) = match cx.src.below(5) {
            3 => {
                cx.fault("iterator ends early");
                (cx.src.below(n + 1), false)
            }
            4 => {
                cx.fault("iterator panics");
                (cx.src.below(n + 1), true)
            }
            _ => (n, false),
        };
        (
            Feed {
                items: items.into_iter(),
                hint,
                left,
                panics,
                ended: false,
            },
            left,
            panics,
        )
    }
}

impl<T> Iterator for Feed<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.left == 0 {
            if self.panics {
                inject_panic();
            }
            // Not fused: goes on after its end.
            if self.ended {
                return self.items.next();
            }
            self.ended = true;
            return None;
        }
        self.left -= 1;
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.hint {
            0 => (self.left, Some(self.left)),
            1 => (0, None),
            2 => (self.left / 2, Some(self.left + 3)),
            _ => (self.left + 2, Some(self.left + 2)),
        }
    }
}

/// A value whose conversion panics.
struct Bad;

impl From<Bad> for Expression {
    fn from(_: Bad) -> Expression {
        inject_panic()
    }
}
impl From<Bad> for Element {
    fn from(_: Bad) -> Element {
        inject_panic()
    }
}
impl From<Bad> for Structure {
    fn from(_: Bad) -> Structure {
        inject_panic()
    }
}
impl From<Bad> for ObjectKey {
    fn from(_: Bad) -> ObjectKey {
        inject_panic()
    }
}
impl From<Bad> for ObjectValue {
    fn from(_: Bad) -> ObjectValue {
        inject_panic()
    }
}

// ---------------------------------------------------------------------------------------------
// Items

fn expr(id: usize) -> Expression {
    let mut e: Expression = match id % 6 {
        0 => (id as u64).into(),
        1 => format!("s{id}").into(),
        2 => Ident::new(format!("v{id}")).into(),
        3 => vec![id as u64, 7].into(),
        4 => {
            let mut o = Object::new();
            o.insert(Ident::new("k"), Expression::from(id as u64));
            o.into()
        }
        _ => FuncCall::new(
            Ident::new(format!("f{id}")),
            FuncArgs::from(vec![(id as u64).into()]),
        )
        .into(),
    };
    match id % 5 {
        1 => e.decor_mut().set_prefix(format!(" /*{id}*/ ")),
        2 => e.decor_mut().set_suffix(format!(" /*{id}*/")),
        _ => {}
    }
    e
}

fn element(id: usize) -> Element {
    if id % 3 == 0 {
        Element::from(format!("<{id}>"))
    } else {
        let mut i = Interpolation::new(expr(id));
        i.strip = crate::make::strip((id % 4 == 1, id % 7 == 2));
        i.into()
    }
}

/// Everything that is observable about an item.
fn show<T: Debug>(x: &T) -> String {
    format!("{x:?}")
}

// ---------------------------------------------------------------------------------------------
// Lists

trait List: Clone + PartialEq + Debug + Default + Extend<Self::Item> + Extend<Bad> {
    type Item: Clone + PartialEq + Debug;
    const NAME: &'static str;
    fn item(id: usize) -> Self::Item;
    fn with_capacity(n: usize) -> Self;
    fn from_vec(v: Vec<Self::Item>) -> Self;
    fn collect(feed: Feed<Self::Item>) -> Self;
    fn empty(&self) -> bool;
    fn count(&self) -> usize;
    fn wipe(&mut self);
    fn at(&self, i: usize) -> Option<&Self::Item>;
    fn at_mut(&mut self, i: usize) -> Option<&mut Self::Item>;
    fn put(&mut self, i: usize, x: Self::Item);
    fn put_bad(&mut self, i: usize);
    fn add(&mut self, x: Self::Item);
    fn add_bad(&mut self);
    fn take_last(&mut self) -> Option<Self::Item>;
    fn take(&mut self, i: usize) -> Self::Item;
    fn each(&self, by_ref: bool) -> Box<dyn Iterator<Item = &Self::Item> + '_>;
    fn each_mut(&mut self, by_ref: bool) -> Box<dyn Iterator<Item = &mut Self::Item> + '_>;
    fn owned(self) -> Box<dyn Iterator<Item = Self::Item>>;
    fn flags(&self) -> String;
    /// The part of the flags that equality is about.
    fn content(&self) -> String;
    fn set_flags(&mut self, bits: usize);
    /// The list printed and read again.
    fn reread(&self) -> Option<Result<String, String>>;
    fn expected(items: &[Self::Item]) -> String;
}

macro_rules! impl_list {
    ($ty:ident, $item:ty, $make:expr) => {
        type Item = $item;
        const NAME: &'static str = stringify!($ty);
        fn item(id: usize) -> $item {
            $make(id)
        }
        fn with_capacity(n: usize) -> Self {
            $ty::with_capacity(n)
        }
        fn from_vec(v: Vec<$item>) -> Self {
            $ty::from(v)
        }
        fn collect(feed: Feed<$item>) -> Self {
            feed.collect()
        }
        fn empty(&self) -> bool {
            self.is_empty()
        }
        fn count(&self) -> usize {
            self.len()
        }
        fn wipe(&mut self) {
            self.clear()
        }
        fn at(&self, i: usize) -> Option<&$item> {
            self.get(i)
        }
        fn at_mut(&mut self, i: usize) -> Option<&mut $item> {
            self.get_mut(i)
        }
        fn put(&mut self, i: usize, x: $item) {
            self.insert(i, x)
        }
        fn put_bad(&mut self, i: usize) {
            self.insert(i, Bad)
        }
        fn add(&mut self, x: $item) {
            self.push(x)
        }
        fn add_bad(&mut self) {
            self.push(Bad)
        }
        fn take_last(&mut self) -> Option<$item> {
            self.pop()
        }
        fn take(&mut self, i: usize) -> $item {
            self.remove(i)
        }
        fn each(&self, by_ref: bool) -> Box<dyn Iterator<Item = &$item> + '_> {
            if by_ref {
                (&*self).into_iter()
            } else {
                self.iter()
            }
        }
        fn each_mut(&mut self, by_ref: bool) -> Box<dyn Iterator<Item = &mut $item> + '_> {
            if by_ref {
                (&mut *self).into_iter()
            } else {
                self.iter_mut()
            }
        }
        fn owned(self) -> Box<dyn Iterator<Item = $item>> {
            self.into_iter()
        }
    };
}

fn parse_value(text: &str) -> Result<Expression, hcl_edit::parser::Error> {
    let body: Body = format!("x = {text}\n").parse()?;
    Ok(body.into_attributes().next().expect("an attribute").value)
}

fn canon_list<'a>(it: impl Iterator<Item = &'a Expression>) -> String {
    it.map(|e| crate::canon::edit_e(e) + ";").collect()
}

impl List for Array {
    impl_list!(Array, Expression, expr);
    fn flags(&self) -> String {
        format!(
            "{} {:?} {:?}",
            self.trailing_comma(),
            self.trailing(),
            self.decor()
        )
    }
    fn content(&self) -> String {
        format!("{} {:?}", self.trailing_comma(), self.trailing())
    }
    fn set_flags(&mut self, bits: usize) {
        self.set_trailing_comma(bits & 1 > 0);
        self.set_trailing([" /*t*/", "", " "][bits / 2 % 3]);
        self.decor_mut().set_suffix(["", " /*d*/"][bits / 6 % 2]);
    }
    fn reread(&self) -> Option<Result<String, String>> {
        let text = Expression::from(self.clone()).to_string();
        Some(match parse_value(&text) {
            Ok(Expression::Array(a)) => Ok(canon_list(a.iter())),
            other => Err(format!("{text}\n{other:?}")),
        })
    }
    fn expected(items: &[Expression]) -> String {
        canon_list(items.iter())
    }
}

impl List for FuncArgs {
    impl_list!(FuncArgs, Expression, expr);
    fn flags(&self) -> String {
        format!(
            "{} {} {:?} {:?}",
            self.trailing_comma(),
            self.expand_final(),
            self.trailing(),
            self.decor()
        )
    }
    fn content(&self) -> String {
        format!(
            "{} {} {:?}",
            self.trailing_comma(),
            self.expand_final(),
            self.trailing()
        )
    }
    fn set_flags(&mut self, bits: usize) {
        self.set_trailing_comma(bits & 1 > 0);
        self.set_trailing([" /*t*/", "", " "][bits / 2 % 3]);
        self.set_expand_final(bits / 6 % 2 > 0);
    }
    fn reread(&self) -> Option<Result<String, String>> {
        let text = Expression::from(FuncCall::new(Ident::new("f"), self.clone())).to_string();
        Some(match parse_value(&text) {
            Ok(Expression::FuncCall(f)) => Ok(canon_list(f.args.iter())),
            other => Err(format!("{text}\n{other:?}")),
        })
    }
    fn expected(items: &[Expression]) -> String {
        canon_list(items.iter())
    }
}

fn canon_elements<'a>(it: impl Iterator<Item = &'a Element>) -> String {
    let mut out = String::new();
    let mut literal = String::new();
    for e in it {
        match e {
            Element::Literal(s) => literal.push_str(s.as_str()),
            e => {
                out.push_str(&std::mem::take(&mut literal));
                out.push_str(&crate::canon::edit_element(e));
            }
        }
    }
    out + &literal
}

impl List for Template {
    impl_list!(Template, Element, element);
    fn flags(&self) -> String {
        format!(
            "{:?}",
            self.as_single_element().map(show)
                == (self.len() == 1).then(|| show(&self.iter().next().unwrap()))
        )
    }
    fn content(&self) -> String {
        String::new()
    }
    fn set_flags(&mut self, bits: usize) {
        if let Some(e) = self.as_single_element_mut() {
            *e = element(bits);
            *e = element(bits + 1);
        }
    }
    fn reread(&self) -> Option<Result<String, String>> {
        let text = self.to_string();
        Some(match hcl_edit::parser::parse_template(&text) {
            Ok(t) => Ok(canon_elements(t.iter())),
            Err(e) => Err(format!("{text}\n{e}")),
        })
    }
    fn expected(items: &[Element]) -> String {
        canon_elements(items.iter())
    }
}

impl List for StringTemplate {
    impl_list!(StringTemplate, Element, element);
    fn flags(&self) -> String {
        format!("{:?}", self.decor())
    }
    fn content(&self) -> String {
        String::new()
    }
    fn set_flags(&mut self, bits: usize) {
        self.decor_mut().set_prefix(["", " /*p*/ "][bits % 2]);
        self.decor_mut().set_suffix(["", " /*d*/"][bits / 2 % 2]);
    }
    fn reread(&self) -> Option<Result<String, String>> {
        let text = Expression::from(self.clone()).to_string();
        Some(match parse_value(&text) {
            Ok(Expression::StringTemplate(t)) => Ok(canon_elements(t.iter())),
            Ok(Expression::String(s)) => Ok(s.as_str().to_string()),
            other => Err(format!("{text}\n{other:?}")),
        })
    }
    fn expected(items: &[Element]) -> String {
        canon_elements(items.iter())
    }
}

/// Checks that an iterator yields the expected items, under partial and skipping consumption.
fn walk<T: Debug, X>(
    src: &mut Src,
    what: &str,
    mut it: impl Iterator<Item = X>,
    want: &[T],
    same: impl Fn(&X, &T) -> bool,
) -> Check<usize> {
    let mut at = 0;
    let stop = if src.below(3) == 0 {
        src.below(want.len() + 1)
    } else {
        usize::MAX
    };
    while at <= stop {
        let (lo, hi) = it.size_hint();
        let left = want.len() - at;
        if lo > left || hi.is_some_and(|hi| hi < left) {
            return violation(
                "iterate",
                format!("{what}: size hint {lo}..{hi:?} with {left} left"),
            );
        }
        if src.below(24) == 23 {
            let n = it.count();
            if n != left {
                return violation("iterate", format!("{what}: counted {n} with {left} left"));
            }
            return Ok(at);
        }
        if src.below(24) == 23 {
            let last = it.last();
            match (&last, want.last().filter(|_| left > 0)) {
                (None, None) => {}
                (Some(x), Some(t)) if same(x, t) => {}
                (x, t) => {
                    return violation(
                        "iterate",
                        format!("{what}: last is some: {}, want {t:?}", x.is_some()),
                    )
                }
            }
            return Ok(at);
        }
        let skip = if src.below(12) == 11 { src.below(3) } else { 0 };
        let x = if skip > 0 { it.nth(skip) } else { it.next() };
        match (x, want.get(at + skip)) {
            (None, None) => return Ok(want.len()),
            (Some(x), Some(t)) if same(&x, t) => at += skip + 1,
            (x, t) => {
                return violation(
                    "iterate",
                    format!("{what}: at {at}+{skip}: some: {}, want {t:?}", x.is_some()),
                )
            }
        }
    }
    // Abandoned.
    Ok(at)
}

fn list<L: List>(cx: &mut Cx) -> Check {
    // Two lists, so that items move between them. The reference is a plain vector of the same items.
    let mut libs = [L::default(), L::with_capacity(3)];
    let mut refs: [Vec<L::Item>; 2] = [Vec::new(), Vec::new()];
    let mut id = 0;
    let mut next = || {
        id += 1;
        L::item(id)
    };
    ev!(cx, "{}", L::NAME);
    for _ in 0..start(&mut cx.src, 0).0 {
        let x = next();
        refs[0].push(x.clone());
        libs[0].add(x);
    }
    for _ in 0..length(cx) {
        let w = cx.src.below(2);
        let flags = libs[w].flags();
        let mut flags_set = false;
        let n = refs[w].len();
        let op = cx.src.below(18);
        ev!(cx, "list {w} of {n}: operation {op}");
        match op {
            0 | 1 => {
                let x = next();
                refs[w].push(x.clone());
                libs[w].add(x);
            }
            2 | 3 => {
                let i = cx.src.below(n + 1);
                let x = next();
                refs[w].insert(i, x.clone());
                libs[w].put(i, x);
                ev!(cx, "at {i}");
            }
            4 => {
                cx.fault("index out of range");
                let i = n + 1 + cx.src.below(3);
                let x = next();
                if guarded(|| libs[w].put(i, x)) != End::Panicked {
                    return violation(
                        "range",
                        format!("{}: insertion at {i} of {n} succeeded", L::NAME),
                    );
                }
            }
            5 => {
                let (a, b) = (libs[w].take_last(), refs[w].pop());
                if show(&a) != show(&b) {
                    return violation("pop", format!("{}: {a:?}, want {b:?}", L::NAME));
                }
                // Move it to the other list.
                if let (Some(a), Some(b)) = (a, b) {
                    if cx.src.below(2) == 0 {
                        libs[1 - w].add(a);
                        refs[1 - w].push(b);
                    }
                }
            }
            6 | 7 if n > 0 => {
                let i = cx.src.below(n);
                let (a, b) = (libs[w].take(i), refs[w].remove(i));
                if show(&a) != show(&b) {
                    return violation("remove", format!("{}: {a:?}, want {b:?}", L::NAME));
                }
                if cx.src.below(3) == 0 {
                    let j = cx.src.below(refs[1 - w].len() + 1);
                    libs[1 - w].put(j, a);
                    refs[1 - w].insert(j, b);
                }
            }
            6..=8 => {
                cx.fault("index out of range");
                let i = n + cx.src.below(3);
                if !matches!(guarded(|| libs[w].take(i)), End::Panicked) {
                    return violation(
                        "range",
                        format!("{}: removal at {i} of {n} succeeded", L::NAME),
                    );
                }
            }
            9 if cx.src.below(4) == 0 => {
                libs[w].wipe();
                refs[w].clear();
            }
            9 | 10 => {
                let items: Vec<L::Item> = (0..cx.src.below(6)).map(|_| next()).collect();
                let (feed, some, panics) = Feed::new(cx, items.clone());
                let end = guarded(|| libs[w].extend(feed));
                ev!(cx, "extend by {some} of {}: {end:?}", items.len());
                let want = if panics { End::Injected } else { End::Done(()) };
                if end != want {
                    return violation("extend", format!("{}: {end:?}, want {want:?}", L::NAME));
                }
                // What the iterator delivered before it failed may be kept or not.
                let kept = if panics {
                    libs[w].count().wrapping_sub(n)
                } else {
                    some
                };
                if kept > some {
                    return violation("extend", format!("{}: kept {kept} of {some}", L::NAME));
                }
                refs[w].extend(items.into_iter().take(kept));
            }
            11 => {
                cx.fault("conversion panics");
                let i = cx.src.below(n + 1);
                let end = match cx.src.below(3) {
                    0 => guarded(|| libs[w].put_bad(i)),
                    1 => guarded(|| libs[w].add_bad()),
                    _ => guarded(|| libs[w].extend([Bad])),
                };
                if end != End::Injected {
                    return violation("conversion", format!("{}: {end:?}", L::NAME));
                }
            }
            12 => {
                let i = cx.src.below(n + 2);
                let x = next();
                match (libs[w].at_mut(i), refs[w].get_mut(i)) {
                    (Some(a), Some(b)) => {
                        *a = x.clone();
                        *b = x;
                    }
                    (None, None) => {}
                    (a, b) => {
                        return violation("get_mut", format!("{}: {a:?}, want {b:?}", L::NAME))
                    }
                }
            }
            13 => {
                // A loop that changes items and may be left early, also by a panic.
                let by_ref = cx.src.below(2) == 0;
                let stop = cx.src.below(n + 2);
                let panics = cx.src.below(4) == 3;
                if panics {
                    cx.fault("loop body panics");
                }
                let mut fresh: Vec<L::Item> = (0..stop).map(|_| next()).collect();
                fresh.reverse();
                let news: Vec<L::Item> = fresh.clone();
                let end = guarded(|| {
                    for (i, x) in libs[w].each_mut(by_ref).enumerate() {
                        if i >= stop {
                            if panics {
                                inject_panic();
                            }
                            break;
                        }
                        *x = fresh.pop().unwrap();
                    }
                });
                let want = if panics && stop < n {
                    End::Injected
                } else {
                    End::Done(())
                };
                if end != want {
                    return violation("iter_mut", format!("{}: {end:?}, want {want:?}", L::NAME));
                }
                for (x, y) in refs[w].iter_mut().zip(news.into_iter().rev()) {
                    *x = y;
                }
            }
            14 => {
                let copy = libs[w].clone();
                let at = walk(&mut cx.src, "into_iter", copy.owned(), &refs[w], |x, y| {
                    show(x) == show(y)
                })?;
                ev!(cx, "walked {at}");
            }
            15 => {
                // Rebuilt in another way, it is equal.
                let flags_of = libs[w].clone();
                let mut other = match cx.src.below(4) {
                    0 => L::from_vec(refs[w].clone()),
                    1 => L::collect(Feed {
                        items: refs[w].clone().into_iter(),
                        hint: 1,
                        left: n,
                        panics: false,
                        ended: false,
                    }),
                    2 => {
                        let mut l = L::with_capacity(cx.src.below(9));
                        for x in &refs[w] {
                            l.add(x.clone());
                        }
                        l
                    }
                    _ => {
                        let mut l = L::default();
                        for x in refs[w].iter().rev() {
                            l.put(0, x.clone());
                        }
                        l
                    }
                };
                if show(&other.each(true).collect::<Vec<_>>())
                    != show(&refs[w].iter().collect::<Vec<_>>())
                {
                    return violation(
                        "rebuild",
                        format!("{}: {other:?}, want {:?}", L::NAME, refs[w]),
                    );
                }
                if other.flags() == flags && other != flags_of {
                    return violation(
                        "eq",
                        format!("{}: {other:?} differs from {flags_of:?}", L::NAME),
                    );
                }
                let x = next();
                if n == 0 || show(&x) != show(&refs[w][n - 1]) {
                    other.take_last();
                    other.add(x);
                    if other == flags_of {
                        return violation(
                            "eq",
                            format!("{}: {other:?} equals {flags_of:?}", L::NAME),
                        );
                    }
                }
            }
            16 => {
                let bits = cx.src.below(12);
                if L::NAME == "Template" {
                    if n == 1 {
                        refs[w][0] = L::item(bits + 1);
                    }
                } else {
                    flags_set = true;
                }
                let before = libs[w].clone();
                libs[w].set_flags(bits);
                // Equality is about content: what is listed, expansion and what follows the last item.
                let content = libs[w].content();
                if (before == libs[w])
                    != (before.content() == content
                        && show(&before.each(true).collect::<Vec<_>>())
                            == show(&libs[w].each(true).collect::<Vec<_>>()))
                {
                    return violation("eq", format!("{}: {before:?} and {:?}", L::NAME, libs[w]));
                }
            }
            _ => {
                // A copy lives on its own.
                let copy = libs[w].clone();
                let old = std::mem::replace(&mut libs[w], copy);
                let mut old = old;
                old.add(next());
                old.take(0);
                drop(old);
            }
        }
        cx.nontrivial = true;
        for i in 0..2 {
            check_list(cx, &libs[i], &refs[i])?;
        }
        if !flags_set && libs[w].flags() != flags {
            return violation(
                "flags",
                format!("{}: {} became {}", L::NAME, flags, libs[w].flags()),
            );
        }
        ev!(cx, "{:?}", libs[w].flags());
    }
    Ok(())
}

fn check_list<L: List>(cx: &mut Cx, lib: &L, want: &[L::Item]) -> Check {
    let name = L::NAME;
    if lib.count() != want.len() || lib.empty() != want.is_empty() {
        return violation(
            "length",
            format!(
                "{name}: {} ({}), want {}",
                lib.count(),
                lib.empty(),
                want.len()
            ),
        );
    }
    let shown: Vec<String> = want.iter().map(show).collect();
    for i in 0..want.len() + 2 {
        if lib.at(i).map(show).as_ref() != shown.get(i) {
            return violation(
                "content",
                format!("{name}: at {i}: {:?}, want {:?}", lib.at(i), shown.get(i)),
            );
        }
    }
    let by_ref = cx.src.below(2) == 0;
    walk(&mut cx.src, "iter", lib.each(by_ref), &shown, |x, y| {
        show(x) == *y
    })?;
    if cx.src.below(4) == 0 {
        if let Some(again) = lib.reread() {
            match again {
                Ok(s) if s == L::expected(want) => {}
                Ok(s) => return violation("reread", format!("{name}: {s}\n{}", L::expected(want))),
                Err(e) => return violation("reread", format!("{name}: {e}")),
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Bodies

const KEYS: [&str; 5] = ["a", "b", "ab", "a_", "ö"];
/// Names of attributes in large bodies.
static WIDE: std::sync::LazyLock<Vec<&'static str>> =
    std::sync::LazyLock::new(|| (0..150).map(|i| &*format!("k{i}").leak()).collect());
const IDENTS: [&str; 3] = ["a", "blk", "bl"];
const LABELS: [&str; 3] = ["x", "y z", "x"];

#[derive(Clone, Debug)]
enum It {
    A {
        key: &'static str,
        value: Expression,
        decor: Decor,
        key_decor: Decor,
    },
    B {
        ident: &'static str,
        labels: Vec<BlockLabel>,
        decor: Decor,
        body: Vec<It>,
    },
}

impl It {
    fn name(&self) -> &'static str {
        match self {
            It::A { key, .. } => key,
            It::B { ident, .. } => ident,
        }
    }
    fn is_attr(&self) -> bool {
        matches!(self, It::A { .. })
    }
    fn has_key(&self, k: &str) -> bool {
        self.is_attr() && self.name() == k
    }
    fn has_ident(&self, k: &str) -> bool {
        !self.is_attr() && self.name() == k
    }
    fn lib(&self) -> Structure {
        match self {
            It::A {
                key,
                value,
                decor,
                key_decor,
            } => {
                let mut k = Decorated::new(Ident::new(*key));
                *k.decor_mut() = key_decor.clone();
                let mut a = Attribute::new(k, value.clone());
                *a.decor_mut() = decor.clone();
                a.into()
            }
            It::B {
                ident,
                labels,
                decor,
                body,
            } => {
                let mut b = Block::new(Ident::new(*ident));
                b.labels = labels.clone();
                *b.decor_mut() = decor.clone();
                for x in body {
                    b.body.push(x.lib());
                }
                b.into()
            }
        }
    }
    fn attr(&self) -> Attribute {
        self.lib().into_attribute().unwrap()
    }
    fn block(&self) -> Block {
        self.lib().into_block().unwrap()
    }
}

fn add(body: &mut Vec<It>, x: It) -> Result<(), It> {
    if x.is_attr() && body.iter().any(|y| y.has_key(x.name())) {
        return Err(x);
    }
    body.push(x);
    Ok(())
}

struct Maker {
    id: usize,
    wide: bool,
}

fn key(src: &mut Src, wide: bool) -> &'static str {
    if wide && src.below(4) > 0 {
        *src.pick(&WIDE)
    } else {
        *src.pick(&KEYS)
    }
}

/// A key that may or may not be there; that of the last attribute more often than others.
fn known_key(src: &mut Src, want: &[It], wide: bool) -> String {
    match src.below(8) {
        7 => "none".into(),
        5 | 6 => want
            .iter()
            .rfind(|x| x.is_attr())
            .map_or("none".into(), |x| x.name().into()),
        _ => key(src, wide).into(),
    }
}

impl Maker {
    fn id(&mut self) -> usize {
        self.id += 1;
        self.id
    }
    fn decor(&mut self, src: &mut Src) -> Decor {
        let mut d = Decor::default();
        if src.below(3) == 2 {
            d.set_prefix(format!("/*{}*/ ", self.id()));
        }
        if src.below(6) == 5 {
            d.set_suffix(format!(" /*{}*/", self.id()));
        }
        d
    }
    fn attr(&mut self, src: &mut Src) -> It {
        let key = key(src, self.wide);
        let id = self.id();
        let mut value = expr(id);
        if src.below(3) > 0 {
            value = (id as u64).into();
        }
        let decor = self.decor(src);
        let mut key_decor = Decor::default();
        if src.below(4) == 3 {
            key_decor.set_suffix(" /*k*/ ");
        }
        It::A {
            key,
            value,
            decor,
            key_decor,
        }
    }
    fn block(&mut self, src: &mut Src, depth: usize) -> It {
        let ident = *src.pick(&IDENTS);
        let mut labels: Vec<BlockLabel> = Vec::new();
        for _ in 0..src.below(3) {
            let l = *src.pick(&LABELS);
            labels.push(if l == "x" && src.below(2) == 0 {
                Ident::new("x").into()
            } else {
                l.into()
            });
        }
        labels.push(format!("id{}", self.id()).as_str().into());
        let decor = self.decor(src);
        let mut body = Vec::new();
        if depth > 0 {
            for _ in 0..src.below(4) {
                let x = self.any(src, depth - 1);
                let _ = add(&mut body, x);
            }
        }
        It::B {
            ident,
            labels,
            decor,
            body,
        }
    }
    fn any(&mut self, src: &mut Src, depth: usize) -> It {
        if src.below(5) < 3 {
            self.attr(src)
        } else {
            self.block(src, depth)
        }
    }
}

/// The body reached by descending into blocks, through any of the mutable accessors.
fn descend<'a>(
    src: &mut Src,
    mut lib: &'a mut Body,
    mut want: &'a mut Vec<It>,
) -> Check<(&'a mut Body, &'a mut Vec<It>)> {
    loop {
        let blocks: Vec<usize> = (0..want.len()).filter(|i| !want[*i].is_attr()).collect();
        if blocks.is_empty() || src.below(3) < 2 {
            return Ok((lib, want));
        }
        let k = src.below(blocks.len());
        let i = blocks[k];
        let ident = want[i].name();
        let nth = want[..i].iter().filter(|x| x.has_ident(ident)).count();
        let how = src.below(3);
        let block = match how {
            0 => lib.get_mut(i).and_then(Structure::as_block_mut),
            1 => lib.blocks_mut().nth(k),
            _ => lib.get_blocks_mut(ident).nth(nth),
        };
        lib = match block {
            Some(b) => &mut b.body,
            None => return violation("descend", format!("block {i} ({ident}) not found ({how})")),
        };
        want = match &mut want[i] {
            It::B { body, .. } => body,
            It::A { .. } => unreachable!(),
        };
    }
}

fn same_structure(s: &Structure, x: &It) -> bool {
    match (s, x) {
        (Structure::Attribute(a), It::A { .. }) => same_attr(a, x),
        (Structure::Block(b), It::B { .. }) => same_block(b, x),
        _ => false,
    }
}

fn same_attr(a: &Attribute, x: &It) -> bool {
    match x {
        It::A {
            key,
            value,
            decor,
            key_decor,
        } => {
            a.key.as_str() == *key
                && a.has_key(key)
                && show(&a.value) == show(value)
                && a.decor() == decor
                && a.key.decor() == key_decor
        }
        It::B { .. } => false,
    }
}

fn same_block(b: &Block, x: &It) -> bool {
    match x {
        It::B {
            ident,
            labels,
            decor,
            body,
        } => {
            b.ident.as_str() == *ident
                && b.has_ident(ident)
                && show(&b.labels) == show(labels)
                && b.is_labeled() != labels.is_empty()
                && b.decor() == decor
                && b.body.len() == body.len()
                && b.body.iter().zip(body).all(|(s, x)| same_structure(s, x))
        }
        It::A { .. } => false,
    }
}

fn check_body(cx: &mut Cx, lib: &Body, want: &[It]) -> Check {
    let fail = |what: &str| violation(what, format!("{lib:?}\nwant {want:?}"));
    if lib.len() != want.len() || lib.is_empty() != want.is_empty() {
        return fail("length");
    }
    for i in 0..want.len() + 2 {
        match (lib.get(i), want.get(i)) {
            (None, None) => {}
            (Some(s), Some(x)) if same_structure(s, x) => {}
            _ => return fail("content"),
        }
    }
    let attrs: Vec<&It> = want.iter().filter(|x| x.is_attr()).collect();
    let blocks: Vec<&It> = want.iter().filter(|x| !x.is_attr()).collect();
    walk(&mut cx.src, "iter", lib.iter(), want, |x, y| {
        same_structure(x, y)
    })?;
    walk(&mut cx.src, "into_iter", lib.into_iter(), want, |x, y| {
        same_structure(x, y)
    })?;
    walk(
        &mut cx.src,
        "attributes",
        lib.attributes(),
        &attrs,
        |x, y| same_attr(x, y),
    )?;
    walk(&mut cx.src, "blocks", lib.blocks(), &blocks, |x, y| {
        same_block(x, y)
    })?;
    for (i, a) in attrs.iter().enumerate() {
        if attrs[..i].iter().any(|b| b.name() == a.name()) {
            return fail("duplicate");
        }
    }
    for k in KEYS.iter().chain(&["", "A", "a b"]) {
        let x = attrs.iter().find(|x| x.name() == *k);
        match (lib.get_attribute(k), x) {
            (None, None) => {}
            (Some(a), Some(x)) if same_attr(a, x) => {}
            _ => return fail("get_attribute"),
        }
        if lib.has_attribute(k) != x.is_some() {
            return fail("has_attribute");
        }
    }
    for k in IDENTS.iter().chain(&["", "A"]) {
        let some: Vec<&It> = blocks.iter().copied().filter(|x| x.name() == *k).collect();
        walk(
            &mut cx.src,
            "get_blocks",
            lib.get_blocks(k),
            &some,
            |x, y| same_block(x, y),
        )?;
        if lib.has_blocks(k) == some.is_empty() {
            return fail("has_blocks");
        }
    }
    for (b, x) in lib.blocks().zip(&blocks) {
        if let It::B { labels, body, .. } = x {
            let mut probe: Vec<&str> = labels.iter().map(|l| l.as_str()).collect();
            let n = probe.len();
            if !b.has_labels(&probe) || !b.has_exact_labels(&probe) || !b.has_labels::<&str>(&[]) {
                return fail("has_labels");
            }
            probe.push("more");
            if b.has_labels(&probe) || b.has_exact_labels(&probe) {
                return fail("has_labels");
            }
            let cut = cx.src.below(n);
            if !b.has_labels(&probe[..cut]) || b.has_exact_labels(&probe[..cut]) {
                return fail("has_labels");
            }
            probe[cut] = "other";
            if b.has_labels(&probe[..=cut]) || b.has_exact_labels(&probe[..=cut]) {
                return fail("has_labels");
            }
            check_body(cx, &b.body, body)?;
        }
    }
    Ok(())
}

/// Applies edits to every item of a mutable traversal until it stops, also by a panic.
fn edit_some<X>(
    cx: &mut Cx,
    mk: &mut Maker,
    it: &mut dyn Iterator<Item = X>,
    want: &mut [&mut It],
    mut edit: impl FnMut(&mut X, &mut It, &mut Maker, usize) -> bool,
) -> Check {
    let stop = cx.src.below(want.len() + 2);
    let panics = cx.src.below(4) == 3;
    let kind = cx.src.below(3);
    let n = want.len();
    if panics {
        cx.fault("loop body panics");
    }
    let mut ok = true;
    let end = guarded(|| {
        let mut want = want.iter_mut();
        for (i, mut x) in it.enumerate() {
            if i >= stop {
                if panics {
                    inject_panic();
                }
                return i;
            }
            match want.next() {
                Some(w) => ok &= edit(&mut x, w, mk, kind),
                None => ok = false,
            }
        }
        n.min(stop)
    });
    let expected = if panics && stop < n {
        End::Injected
    } else {
        End::Done(n.min(stop))
    };
    if !ok || end != expected {
        return violation(
            "iter_mut",
            format!("{end:?}, want {expected:?}; same items: {ok}"),
        );
    }
    Ok(())
}

fn edit_attr(
    a: &mut hcl_edit::structure::AttributeMut,
    x: &mut It,
    mk: &mut Maker,
    kind: usize,
) -> bool {
    let same = same_attr(a, x) && same_attr(a.get(), x);
    if let It::A {
        value,
        decor,
        key_decor,
        ..
    } = x
    {
        let id = mk.id();
        match kind {
            0 => {
                *value = expr(id);
                *a.value_mut() = expr(id);
            }
            1 => {
                decor.set_prefix(format!("/*{id}*/ "));
                a.decor_mut().set_prefix(format!("/*{id}*/ "));
            }
            _ => {
                key_decor.set_suffix(format!(" /*{id}*/ "));
                a.key_decor_mut().set_suffix(format!(" /*{id}*/ "));
            }
        }
    }
    same
}

fn edit_block(b: &mut Block, x: &mut It, mk: &mut Maker, kind: usize) -> bool {
    let same = same_block(b, x);
    if let It::B {
        labels,
        decor,
        body,
        ..
    } = x
    {
        let id = mk.id();
        match kind {
            0 => {
                labels.push(format!("n{id}").as_str().into());
                b.labels.push(format!("n{id}").as_str().into());
            }
            1 => {
                decor.set_prefix(format!("/*{id}*/ "));
                b.decor_mut().set_prefix(format!("/*{id}*/ "));
            }
            _ => {
                let item = It::A {
                    key: "b",
                    value: (id as u64).into(),
                    decor: Decor::default(),
                    key_decor: Decor::default(),
                };
                b.body.push(item.lib());
                let _ = add(body, item);
            }
        }
    }
    same
}

fn bodies(cx: &mut Cx) -> Check {
    let mut mk = Maker { id: 0, wide: false };
    let mut libs = [Body::new(), Body::with_capacity(2)];
    let mut refs: [Vec<It>; 2] = [Vec::new(), Vec::new()];
    // Start from a document that was parsed or built.
    if cx.src.below(3) > 0 {
        let mut items = Vec::new();
        let (n, wide) = start(&mut cx.src, 5);
        mk.wide = wide;
        for _ in 0..n {
            let x = mk.any(&mut cx.src, if wide { 1 } else { 2 });
            items.push(x);
        }
        let structures: Vec<Structure> = items.iter().map(It::lib).collect();
        for x in items {
            let _ = add(&mut refs[0], x);
        }
        libs[0] = match cx.src.below(5) {
            0 => Body::from(structures),
            1 => structures.into_iter().collect(),
            2 => Body::builder().structures(structures).build(),
            3 => {
                let mut b = Body::builder();
                for s in structures {
                    b = match (s, cx.src.below(3)) {
                        (Structure::Attribute(a), 0) => b.attribute(a),
                        (Structure::Attribute(a), 1) => b.attributes([a]),
                        (Structure::Block(x), 0) => b.block(x),
                        (Structure::Block(x), 1) => b.blocks([x]),
                        (s, _) => b.structure(s),
                    };
                }
                b.into()
            }
            _ => {
                let mut b = Block::builder(Ident::new("top"))
                    .label("l")
                    .labels(["m", "n"]);
                for s in structures {
                    b = match (s, cx.src.below(3)) {
                        (Structure::Attribute(a), 0) => b.attribute(a),
                        (Structure::Attribute(a), 1) => b.attributes([a]),
                        (Structure::Block(x), 0) => b.block(x),
                        (Structure::Block(x), 1) => b.blocks([x]),
                        (s, 2) => b.structure(s),
                        (s, _) => b.structures([s]),
                    };
                }
                let b = b.build();
                if !b.has_ident("top") || !b.has_exact_labels(&["l", "m", "n"]) {
                    return violation("builder", format!("{b:?}"));
                }
                b.body
            }
        };
    }
    check_body(cx, &libs[0], &refs[0])?;
    for _ in 0..length(cx) {
        let w = cx.src.below(2);
        let op = cx.src.below(23);
        let [l0, l1] = &mut libs;
        let [r0, r1] = &mut refs;
        let ((lib, other_lib), (want, other_want)) = if w == 0 {
            ((l0, l1), (r0, r1))
        } else {
            ((l1, l0), (r1, r0))
        };
        let (lib, want) = descend(&mut cx.src, lib, want)?;
        let n = want.len();
        ev!(cx, "body {w} of {n}: operation {op}");
        cx.nontrivial = true;
        let oneline = (lib.prefer_oneline(), lib.prefer_omit_trailing_newline());
        match op {
            0..=4 => {
                let x = mk.any(&mut cx.src, 1);
                let s = x.lib();
                let i = if op < 2 { n } else { cx.src.below(n + 1) };
                let dup = x.is_attr() && want.iter().any(|y| y.has_key(x.name()));
                if dup {
                    cx.fault("duplicate attribute");
                }
                let kind = cx.src.below(2);
                let res = match (op < 2, kind, s) {
                    (true, 0, s) => Some(lib.try_push(s)),
                    (true, _, s) => {
                        match s {
                            Structure::Attribute(a) => lib.push(a),
                            Structure::Block(b) => lib.push(b),
                        }
                        None
                    }
                    (false, 0, s) => Some(lib.try_insert(i, s)),
                    (false, _, s) => {
                        lib.insert(i, s);
                        None
                    }
                };
                ev!(cx, "add {} at {i}: {}", x.name(), !dup);
                match res {
                    Some(Ok(())) if !dup => {}
                    Some(Err(a)) if dup && same_attr(&a, &x) => {}
                    None => {}
                    res => {
                        return violation(
                            "duplicate",
                            format!("{res:?} for {x:?}, duplicate: {dup}"),
                        )
                    }
                }
                if !dup {
                    want.insert(i, x);
                }
            }
            5 => {
                cx.fault("index out of range");
                let x = mk.any(&mut cx.src, 1);
                let i = n + 1 + cx.src.below(2);
                let dup = x.is_attr() && want.iter().any(|y| y.has_key(x.name()));
                let s = x.lib();
                let end = guarded(|| lib.try_insert(i, s));
                match end {
                    End::Done(Err(a)) if dup && same_attr(&a, &x) => {}
                    // Which of two faults is reported first is not documented.
                    End::Panicked => {}
                    end => return violation("range", format!("{end:?} inserting at {i} of {n}")),
                }
            }
            6 => {
                let (a, b) = (lib.pop(), want.pop());
                match (a, b) {
                    (None, None) => {}
                    (Some(a), Some(b)) if same_structure(&a, &b) => {
                        // Move it to the other body.
                        let res = other_lib.try_push(a);
                        match (res, add(other_want, b)) {
                            (Ok(()), Ok(())) => {}
                            (Err(a), Err(b)) if same_attr(&a, &b) => {
                                // Rejected there, it goes back.
                                lib.push(a);
                                let _ = add(want, b);
                            }
                            (a, b) => return violation("move", format!("{a:?}, want {b:?}")),
                        }
                    }
                    (a, b) => return violation("pop", format!("{a:?}, want {b:?}")),
                }
            }
            7 | 8 if n > 0 => {
                let i = cx.src.below(n);
                let (a, b) = (lib.remove(i), want.remove(i));
                if !same_structure(&a, &b) {
                    return violation("remove", format!("{a:?}, want {b:?}"));
                }
                // Conversions to the wrong kind give the structure back.
                match (
                    a.clone().into_attribute(),
                    a.clone().into_block(),
                    b.is_attr(),
                ) {
                    (Ok(x), Err(s), true) if same_attr(&x, &b) && same_structure(&s, &b) => {}
                    (Err(s), Ok(x), false) if same_block(&x, &b) && same_structure(&s, &b) => {}
                    x => return violation("convert", format!("{x:?}")),
                }
                let mut a = a;
                if a.is_attribute() != b.is_attr()
                    || a.is_block() == b.is_attr()
                    || a.as_attribute().is_some() != b.is_attr()
                    || a.as_block().is_some() == b.is_attr()
                    || a.as_attribute_mut().is_some() != b.is_attr()
                    || a.as_block_mut().is_some() == b.is_attr()
                {
                    return violation("convert", format!("{a:?}"));
                }
                if cx.src.below(3) == 0 {
                    let j = cx.src.below(other_want.len() + 1);
                    match (
                        other_lib.try_insert(j, a),
                        other_want
                            .iter()
                            .any(|y| b.is_attr() && y.has_key(b.name())),
                    ) {
                        (Ok(()), false) => other_want.insert(j, b),
                        (Err(a), true) if same_attr(&a, &b) => {}
                        (a, b) => return violation("move", format!("{a:?}, duplicate: {b:?}")),
                    }
                }
            }
            7..=9 => {
                cx.fault("index out of range");
                let i = n + cx.src.below(3);
                if !matches!(guarded(|| lib.remove(i)), End::Panicked) {
                    return violation("range", format!("removal at {i} of {n} succeeded"));
                }
            }
            10 | 11 => {
                let k = &known_key(&mut cx.src, &want, mk.wide);
                let a = lib.remove_attribute(k);
                let b = want
                    .iter()
                    .position(|x| x.has_key(k))
                    .map(|i| want.remove(i));
                ev!(cx, "remove attribute {k}: {}", b.is_some());
                match (a, b) {
                    (None, None) => {}
                    (Some(a), Some(b)) if same_attr(&a, &b) => {}
                    (a, b) => {
                        return violation("remove_attribute", format!("{k}: {a:?}, want {b:?}"))
                    }
                }
            }
            12 => {
                let k = if cx.src.below(8) == 7 {
                    "none"
                } else {
                    *cx.src.pick(&IDENTS)
                };
                let a = lib.remove_blocks(k);
                let b: Vec<It> = want.iter().filter(|x| x.has_ident(k)).cloned().collect();
                want.retain(|x| !x.has_ident(k));
                ev!(cx, "remove blocks {k}: {}", b.len());
                if a.len() != b.len() || !a.iter().zip(&b).all(|(a, b)| same_block(a, b)) {
                    return violation("remove_blocks", format!("{k}: {a:?}, want {b:?}"));
                }
            }
            13 => {
                let k = &known_key(&mut cx.src, &want, mk.wide);
                let kind = cx.src.below(3);
                match (
                    lib.get_attribute_mut(k),
                    want.iter_mut().find(|x| x.has_key(k)),
                ) {
                    (None, None) => {}
                    (Some(mut a), Some(x)) => {
                        if !edit_attr(&mut a, x, &mut mk, kind) {
                            return violation(
                                "get_attribute_mut",
                                format!("{k}: {:?}, want {x:?}", a.get()),
                            );
                        }
                    }
                    (a, x) => {
                        return violation(
                            "get_attribute_mut",
                            format!("{k}: {}, want {x:?}", a.is_some()),
                        )
                    }
                }
            }
            14 => {
                let mut all: Vec<&mut It> = want.iter_mut().collect();
                let mut it = if cx.src.below(2) == 0 {
                    lib.iter_mut()
                } else {
                    (&mut *lib).into_iter()
                };
                edit_some(cx, &mut mk, &mut it, &mut all, |s, x, mk, kind| {
                    if s.is_attribute() != x.is_attr() || s.is_block() == x.is_attr() {
                        return false;
                    }
                    if s.as_block().is_some() == x.is_attr()
                        || s.as_attribute().is_some() != x.is_attr()
                    {
                        return false;
                    }
                    if x.is_attr() {
                        s.as_attribute_mut()
                            .is_some_and(|mut a| edit_attr(&mut a, x, mk, kind))
                    } else {
                        s.as_block_mut().is_some_and(|b| edit_block(b, x, mk, kind))
                    }
                })?;
            }
            15 => {
                let mut all: Vec<&mut It> = want.iter_mut().filter(|x| x.is_attr()).collect();
                edit_some(cx, &mut mk, &mut lib.attributes_mut(), &mut all, edit_attr)?;
            }
            16 => {
                if cx.src.below(2) == 0 {
                    let mut all: Vec<&mut It> = want.iter_mut().filter(|x| !x.is_attr()).collect();
                    edit_some(
                        cx,
                        &mut mk,
                        &mut lib.blocks_mut(),
                        &mut all,
                        |b, x, mk, k| edit_block(b, x, mk, k),
                    )?;
                } else {
                    let k = *cx.src.pick(&IDENTS);
                    let mut all: Vec<&mut It> =
                        want.iter_mut().filter(|x| x.has_ident(k)).collect();
                    let mut it = lib.get_blocks_mut(k);
                    edit_some(cx, &mut mk, &mut it, &mut all, |b, x, mk, k| {
                        edit_block(b, x, mk, k)
                    })?;
                }
            }
            17 => {
                let items: Vec<It> = (0..cx.src.below(6))
                    .map(|_| mk.any(&mut cx.src, 1))
                    .collect();
                let (feed, some, panics) = Feed::new(cx, items.iter().map(It::lib).collect());
                let end = match cx.src.below(4) {
                    3 if !panics => {
                        // Replaced by what is collected.
                        want.clear();
                        guarded(|| *lib = feed.collect())
                    }
                    _ => guarded(|| lib.extend(feed)),
                };
                let expected = if panics { End::Injected } else { End::Done(()) };
                if end != expected {
                    return violation("extend", format!("{end:?}, want {expected:?}"));
                }
                ev!(cx, "extend by {some} of {}: {end:?}", items.len());
                for x in items.into_iter().take(some) {
                    if panics && want.len() == lib.len() {
                        break;
                    }
                    let _ = add(want, x);
                }
            }
            18 => {
                cx.fault("conversion panics");
                let i = cx.src.below(n + 1);
                let end = match cx.src.below(5) {
                    0 => guarded(|| lib.push(Bad)),
                    1 => guarded(|| lib.insert(i, Bad)),
                    2 => guarded(|| drop(lib.try_push(Bad))),
                    3 => guarded(|| drop(lib.try_insert(i, Bad))),
                    _ => guarded(|| lib.extend([Bad])),
                };
                if end != End::Injected {
                    return violation("conversion", format!("{end:?}"));
                }
            }
            19 => {
                // Consumed copies.
                let copy = lib.clone();
                let attrs: Vec<&It> = want.iter().filter(|x| x.is_attr()).collect();
                let blocks: Vec<&It> = want.iter().filter(|x| !x.is_attr()).collect();
                match cx.src.below(3) {
                    0 => {
                        let same = |x: &Structure, y: &It| same_structure(x, y);
                        walk(&mut cx.src, "into_iter", copy.into_iter(), want, same)?;
                    }
                    1 => {
                        let same = |x: &Attribute, y: &&It| same_attr(x, y);
                        walk(
                            &mut cx.src,
                            "into_attributes",
                            copy.into_attributes(),
                            &attrs,
                            same,
                        )?;
                    }
                    _ => {
                        let same = |x: &Block, y: &&It| same_block(x, y);
                        walk(
                            &mut cx.src,
                            "into_blocks",
                            copy.into_blocks(),
                            &blocks,
                            same,
                        )?;
                    }
                }
            }
            22 => lib.set_prefer_oneline(!oneline.0),
            20 if cx.src.below(4) == 0 => {
                lib.clear();
                want.clear();
            }
            20 => {
                // Equality and copies.
                let built: Body = want.iter().map(It::lib).collect();
                let mut copy = lib.clone();
                if built != *lib || copy != *lib {
                    return violation("eq", format!("{built:?}\n{lib:?}"));
                }
                let x = mk.block(&mut cx.src, 0);
                copy.push(x.lib());
                if copy == *lib {
                    return violation("eq", format!("{copy:?}\nequals {lib:?}"));
                }
                match (copy.pop(), copy == *lib) {
                    (Some(s), true) if same_structure(&s, &x) => {}
                    x => return violation("eq", format!("{x:?}")),
                }
                if n > 0 {
                    let i = cx.src.below(n);
                    if let Structure::Attribute(a) = copy.get_mut(i).unwrap() {
                        a.value = expr(mk.id());
                    } else if let Structure::Block(b) = copy.get_mut(i).unwrap() {
                        b.labels.clear();
                    }
                    if copy == *lib {
                        return violation("eq", format!("{copy:?}\nequals {lib:?}"));
                    }
                }
            }
            _ => {
                // Printed and read again, it has the same entries.
                let text = lib.to_string();
                match text.parse::<Body>() {
                    Ok(again)
                        if crate::canon::edit_body(&again) == crate::canon::edit_body(lib) => {}
                    Ok(_) => return violation("reread", text),
                    Err(e) => return violation("reread", format!("{e}\n{text}")),
                }
            }
        }
        if (lib.prefer_oneline(), lib.prefer_omit_trailing_newline()) != oneline && op != 17 && op != 22 {
            return violation("flags", format!("operation {op}"));
        }
        for i in 0..2 {
            check_body(cx, &libs[i], &refs[i])?;
        }
        // The exact sequence is part of what happened.
        let names: Vec<&str> = refs[w].iter().map(It::name).collect();
        ev!(cx, "{names:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Objects

const OBJECT_KEYS: usize = 9;

fn object_key(k: usize) -> ObjectKey {
    match k {
        0 => Ident::new("a").into(),
        1 => Ident::new("b").into(),
        2 => Expression::from("a").into(),
        3 => Expression::from(1u64).into(),
        4 => Expression::from(Ident::new("a")).into(),
        5 => Expression::from(vec![1u64]).into(),
        6 => Ident::new("ab").into(),
        7 => Expression::from(true).into(),
        8 => Expression::from("").into(),
        _ if k % 3 == 0 => Expression::from(format!("k{k}")).into(),
        _ => Ident::new(format!("k{k}")).into(),
    }
}

#[derive(Clone, Debug)]
struct Entry {
    k: usize,
    key: ObjectKey,
    value: ObjectValue,
}

fn object_value(src: &mut Src, id: usize) -> ObjectValue {
    let mut v = ObjectValue::new(if src.below(2) == 0 {
        expr(id)
    } else {
        (id as u64).into()
    });
    if src.below(3) == 2 {
        v.set_assignment(ObjectValueAssignment::Colon);
    }
    if src.below(3) == 2 {
        v.set_terminator(*src.pick(&[
            ObjectValueTerminator::Comma,
            ObjectValueTerminator::Newline,
            ObjectValueTerminator::None,
        ]));
    }
    v
}

fn decorated_key(src: &mut Src, k: usize, id: usize) -> ObjectKey {
    let mut key = object_key(k);
    if src.below(2) == 1 {
        key.decor_mut().set_prefix(format!("/*{id}*/ "));
    }
    key
}

fn check_object(cx: &mut Cx, lib: &Object, want: &[Entry], keys: usize) -> Check {
    let fail = |what: &str| violation(what, format!("{lib:?}\nwant {want:?}"));
    if lib.len() != want.len() || lib.is_empty() != want.is_empty() {
        return fail("length");
    }
    let same = |(k, v): &(&ObjectKey, &ObjectValue), e: &Entry| {
        show(k) == show(&e.key) && show(v) == show(&e.value)
    };
    walk(&mut cx.src, "iter", lib.iter(), want, same)?;
    walk(&mut cx.src, "into_iter", lib.into_iter(), want, same)?;
    for k in 0..keys {
        let key = decorated_key(&mut cx.src, k, 999);
        let e = want.iter().find(|e| e.k == k);
        if lib.contains_key(&key) != e.is_some()
            || lib.get(&key).map(show) != e.map(|e| show(&e.value))
            || lib.get_key_value(&key).map(|x| show(&x)) != e.map(|e| show(&(&e.key, &e.value)))
        {
            return fail("lookup");
        }
        if let Some((k, _)) = lib.get_key_value(&key) {
            let ident = matches!(k, ObjectKey::Ident(_));
            if k.is_ident() != ident
                || k.is_expr() == ident
                || k.as_ident().is_some() != ident
                || k.as_expr().is_some() == ident
            {
                return fail("key");
            }
        }
    }
    Ok(())
}

fn objects(cx: &mut Cx) -> Check {
    let mut lib = if cx.src.below(2) == 0 {
        Object::new()
    } else {
        Object::with_capacity(4)
    };
    let mut want: Vec<Entry> = Vec::new();
    let mut id = 0;
    ev!(cx, "object");
    let (n, wide) = start(&mut cx.src, 0);
    let keys = if wide { 150 } else { OBJECT_KEYS };
    for _ in 0..n {
        let k = cx.src.below(keys);
        if want.iter().any(|e| e.k == k) {
            continue;
        }
        id += 1;
        let key = decorated_key(&mut cx.src, k, id);
        let value = object_value(&mut cx.src, id);
        lib.insert(key.clone(), value.clone());
        want.push(Entry { k, key, value });
    }
    for _ in 0..length(cx) {
        let op = cx.src.below(16);
        let k = cx.src.below(keys);
        id += 1;
        let n = want.len();
        let key = decorated_key(&mut cx.src, k, id);
        let at = want.iter().position(|e| e.k == k);
        ev!(cx, "object of {n}: operation {op} on {k}");
        cx.nontrivial = true;
        let trailing = lib.trailing().clone();
        match op {
            0..=4 => {
                let value = object_value(&mut cx.src, id);
                let old = if cx.src.below(4) == 0 {
                    lib.insert(key.clone(), value.expr().clone())
                } else {
                    lib.insert(key.clone(), value.clone())
                };
                if at.is_some() {
                    cx.fault("duplicate key");
                }
                let expected = at.map(|i| want[i].value.clone());
                if show(&old) != show(&expected) {
                    return violation("insert", format!("{old:?}, want {expected:?}"));
                }
                // The position and the key of an existing entry stay.
                let stored = match lib.get(&key) {
                    Some(v) if v.expr() == value.expr() => v.clone(),
                    v => return violation("insert", format!("{v:?}, want {value:?}")),
                };
                match at {
                    Some(i) => want[i].value = stored,
                    None => want.push(Entry {
                        k,
                        key,
                        value: stored,
                    }),
                }
            }
            5 | 6 => {
                let expected = at.map(|i| want.remove(i));
                if cx.src.below(2) == 0 {
                    let old = lib.remove(&key);
                    if show(&old) != show(&expected.as_ref().map(|e| &e.value)) {
                        return violation("remove", format!("{old:?}, want {expected:?}"));
                    }
                } else {
                    let old = lib.remove_entry(&key);
                    if show(&old) != show(&expected.as_ref().map(|e| (&e.key, &e.value))) {
                        return violation("remove", format!("{old:?}, want {expected:?}"));
                    }
                }
            }
            7 => {
                let value = object_value(&mut cx.src, id);
                match (lib.get_mut(&key), at) {
                    (Some(v), Some(i)) => {
                        *v = value.clone();
                        want[i].value = value;
                    }
                    (None, None) => {}
                    (v, i) => return violation("get_mut", format!("{v:?}, want {i:?}")),
                }
            }
            8 => match (lib.get_key_value_mut(&key), at) {
                (Some((mut k, v)), Some(i)) => {
                    if show(k.get()) != show(&want[i].key) || show(&*k) != show(&want[i].key) {
                        return violation(
                            "get_key_value_mut",
                            format!("{:?}, want {:?}", k.get(), want[i].key),
                        );
                    }
                    k.decor_mut().set_suffix(format!(" /*{id}*/ "));
                    *v.expr_mut() = expr(id);
                    v.set_assignment(ObjectValueAssignment::Colon);
                    want[i].key.decor_mut().set_suffix(format!(" /*{id}*/ "));
                    *want[i].value.expr_mut() = expr(id);
                    want[i].value.set_assignment(ObjectValueAssignment::Colon);
                }
                (None, None) => {}
                (v, i) => {
                    return violation("get_key_value_mut", format!("{}, want {i:?}", v.is_some()))
                }
            },
            9 | 10 => {
                let stop = cx.src.below(n + 2);
                let panics = cx.src.below(4) == 3;
                if panics {
                    cx.fault("loop body panics");
                }
                let by_ref = cx.src.below(2) == 0;
                let mut same = true;
                let end = guarded(|| {
                    let it = if by_ref {
                        (&mut lib).into_iter()
                    } else {
                        lib.iter_mut()
                    };
                    for (i, (mut k, v)) in it.enumerate() {
                        if i >= stop {
                            if panics {
                                inject_panic();
                            }
                            break;
                        }
                        same &= i < want.len()
                            && show(k.get()) == show(&want[i].key)
                            && show(v) == show(&want[i].value);
                        k.decor_mut().set_prefix(format!("/*{id}*/ "));
                        *v.expr_mut() = expr(id + i);
                        if let Some(e) = want.get_mut(i) {
                            e.key.decor_mut().set_prefix(format!("/*{id}*/ "));
                            *e.value.expr_mut() = expr(id + i);
                        }
                    }
                });
                let expected = if panics && stop < n {
                    End::Injected
                } else {
                    End::Done(())
                };
                if end != expected || !same {
                    return violation(
                        "iter_mut",
                        format!("{end:?}, want {expected:?}, same {same}"),
                    );
                }
            }
            11 | 12 => {
                let mut items = Vec::new();
                for _ in 0..cx.src.below(5) {
                    id += 1;
                    let k = cx.src.below(keys);
                    items.push((
                        k,
                        decorated_key(&mut cx.src, k, id),
                        object_value(&mut cx.src, id),
                    ));
                }
                let pairs = items
                    .iter()
                    .map(|(_, k, v)| (k.clone(), v.clone()))
                    .collect();
                let (feed, some, panics) = Feed::new(cx, pairs);
                let end = if cx.src.below(3) == 0 && !panics {
                    want.clear();
                    guarded(|| lib = feed.collect())
                } else {
                    guarded(|| lib.extend(feed))
                };
                let expected = if panics { End::Injected } else { End::Done(()) };
                if end != expected {
                    return violation("extend", format!("{end:?}, want {expected:?}"));
                }
                ev!(cx, "extend by {some} of {}: {end:?}", items.len());
                for (k, key, value) in items.into_iter().take(some) {
                    match want.iter_mut().find(|e| e.k == k) {
                        Some(e) => e.value = value,
                        None => want.push(Entry { k, key, value }),
                    }
                }
            }
            13 => {
                cx.fault("conversion panics");
                let end = match cx.src.below(3) {
                    0 => guarded(|| drop(lib.insert(Bad, expr(1)))),
                    1 => guarded(|| drop(lib.insert(key, Bad))),
                    _ => guarded(|| lib.extend([(key, Bad)])),
                };
                if end != End::Injected {
                    return violation("conversion", format!("{end:?}"));
                }
            }
            14 => {
                let copy = lib.clone();
                let same = |(k, v): &(ObjectKey, ObjectValue), e: &Entry| {
                    show(k) == show(&e.key) && show(v) == show(&e.value)
                };
                walk(&mut cx.src, "into_iter", copy.into_iter(), &want, same)?;
                let built: Object = want
                    .iter()
                    .map(|e| (e.key.clone(), e.value.clone()))
                    .collect();
                if *lib.trailing() == RawString::default() && built != lib {
                    return violation("eq", format!("{built:?}\n{lib:?}"));
                }
                let mut more = lib.clone();
                more.insert(Ident::new("more"), expr(1));
                if more == lib || more.len() != n + 1 {
                    return violation("eq", format!("{more:?}\n{lib:?}"));
                }
                if cx.src.below(3) == 0 {
                    lib.clear();
                    want.clear();
                }
            }
            _ => {
                // Terminators that cannot be printed between items are replaced first.
                let mut copy = lib.clone();
                for (_, v) in copy.iter_mut() {
                    v.set_terminator(ObjectValueTerminator::Comma);
                }
                let text = Expression::from(copy.clone()).to_string();
                let list = |o: &Object| {
                    o.iter()
                        .map(|(k, v)| {
                            crate::canon::edit_key(k) + "=" + &crate::canon::edit_e(v.expr()) + ";"
                        })
                        .collect::<String>()
                };
                match parse_value(&text) {
                    Ok(Expression::Object(o)) if list(&o) == list(&copy) => {}
                    // Variables as keys are read as identifiers.
                    Ok(Expression::Object(o)) if want.iter().any(|e| e.k == 4) && o.len() <= n => {}
                    other => return violation("reread", format!("{text}\n{other:?}")),
                }
            }
        }
        if *lib.trailing() != trailing && !(11..=12).contains(&op) {
            return violation("flags", format!("operation {op}"));
        }
        check_object(cx, &lib, &want, keys)?;
        ev!(cx, "{:?}", want.iter().map(|e| e.k).collect::<Vec<_>>());
        if cx.src.below(12) == 11 {
            lib.set_trailing(" /*t*/ ");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Containers of the structural representation

fn hcl_item(id: usize) -> hcl::Structure {
    if id % 5 < 3 {
        hcl::Attribute::new(KEYS[id % 3], id as u64).into()
    } else {
        hcl::Block::builder(IDENTS[id % 3])
            .add_label(format!("id{id}"))
            .add_attribute(("x", id as u64))
            .build()
            .into()
    }
}

/// Checks a double-ended iterator by taking items from both ends in a chosen order.
fn both_ends<T: Debug, X>(
    src: &mut Src,
    what: &str,
    mut it: impl DoubleEndedIterator<Item = X>,
    exact: impl Fn(usize) -> bool,
    want: &[T],
    same: impl Fn(&X, &T) -> bool,
) -> Check {
    let (mut lo, mut hi) = (0, want.len());
    let steps = if src.below(3) == 0 {
        src.below(want.len() + 1)
    } else {
        want.len() + 2
    };
    for _ in 0..steps {
        let (a, b) = it.size_hint();
        if a > hi - lo
            || b.is_some_and(|b| b < hi - lo)
            || (exact(0) && (a != hi - lo || b != Some(hi - lo)))
        {
            return violation(
                "iterate",
                format!("{what}: size hint {a}..{b:?} with {} left", hi - lo),
            );
        }
        let how = src.below(6);
        let (x, expected) = match how {
            0..=2 => {
                let t = (lo < hi).then(|| &want[lo]);
                lo += usize::from(lo < hi);
                (it.next(), t)
            }
            3 | 4 => {
                let t = (lo < hi).then(|| &want[hi - 1]);
                hi -= usize::from(lo < hi);
                (it.next_back(), t)
            }
            _ => {
                let skip = src.below(2);
                if src.below(2) == 0 {
                    let t = (lo + skip < hi).then(|| &want[lo + skip]);
                    lo = (lo + skip + 1).min(hi);
                    (it.nth(skip), t)
                } else {
                    let t = (lo + skip < hi).then(|| &want[hi - 1 - skip]);
                    hi = hi.saturating_sub(skip + 1).max(lo);
                    (it.nth_back(skip), t)
                }
            }
        };
        match (&x, expected) {
            (None, None) => {}
            (Some(x), Some(t)) if same(x, t) => {}
            (x, t) => {
                return violation(
                    "iterate",
                    format!("{what} ({how}): some: {}, want {t:?}", x.is_some()),
                )
            }
        }
    }
    Ok(())
}

fn structural(cx: &mut Cx) -> Check {
    let mut id = cx.src.below(60);
    let mut lib = hcl::Body::default();
    let mut want: Vec<hcl::Structure> = Vec::new();
    ev!(cx, "structural {id}");
    let mut fresh = |cx: &mut Cx, max: usize| -> Vec<hcl::Structure> {
        (0..start(&mut cx.src, max).0)
            .map(|_| {
                id += 1 + cx.src.below(3);
                hcl_item(id)
            })
            .collect()
    };
    let attr = |s: &hcl::Structure| s.as_attribute().cloned();
    let block = |s: &hcl::Structure| s.as_block().cloned();
    for _ in 0..length(cx) / 2 + 1 {
        let op = cx.src.below(12);
        ev!(cx, "body of {}: operation {op}", want.len());
        cx.nontrivial = true;
        match op {
            0 => {
                let items = fresh(cx, 6);
                lib = match cx.src.below(6) {
                    0 => hcl::Body::from(items.clone()),
                    1 => hcl::Body::from(&items[..]),
                    2 => items.iter().cloned().collect(),
                    3 => hcl::Body::builder().add_structures(items.clone()).build(),
                    4 => hcl::Body(items.clone()),
                    _ => hcl::Body::from(&mut items.clone()[..]),
                };
                want = items;
            }
            1 | 2 => {
                let items = fresh(cx, 6);
                let (feed, some, panics) = Feed::new(cx, items.clone());
                let n = want.len();
                let end = guarded(|| lib.extend(feed));
                let expected = if panics { End::Injected } else { End::Done(()) };
                if end != expected {
                    return violation("extend", format!("{end:?}, want {expected:?}"));
                }
                let kept = if panics {
                    lib.iter().len().wrapping_sub(n)
                } else {
                    some
                };
                if kept > some {
                    return violation("extend", format!("kept {kept} of {some}"));
                }
                want.extend(items.into_iter().take(kept));
            }
            3 => {
                // Builders keep the order in which things are added.
                let items = fresh(cx, 6);
                let mut b = hcl::Body::builder();
                let mut k = hcl::Block::builder("k")
                    .add_label("l")
                    .add_labels(["m", "n"]);
                for s in &items {
                    match (s.clone(), cx.src.below(3)) {
                        (hcl::Structure::Attribute(a), 0) => {
                            b = b.add_attribute(a.clone());
                            k = k.add_attribute(a);
                        }
                        (hcl::Structure::Attribute(a), 1) => {
                            b = b.add_attributes([a.clone()]);
                            k = k.add_attributes([a]);
                        }
                        (hcl::Structure::Block(x), 0) => {
                            b = b.add_block(x.clone());
                            k = k.add_block(x);
                        }
                        (hcl::Structure::Block(x), 1) => {
                            b = b.add_blocks([x.clone()]);
                            k = k.add_blocks([x]);
                        }
                        (s, 2) => {
                            b = b.add_structure(s.clone());
                            k = k.add_structures([s]);
                        }
                        (s, _) => {
                            b = b.add_structures([s.clone()]);
                            k = k.add_structure(s);
                        }
                    }
                }
                let (b, k) = (b.build(), k.build());
                let labels: Vec<&str> = k.labels().iter().map(hcl::BlockLabel::as_str).collect();
                if b.clone().into_inner() != items
                    || *k.body() != b
                    || labels != ["l", "m", "n"]
                    || k.identifier() != "k"
                {
                    return violation("builder", format!("{b:?}\n{k:?}"));
                }
                if cx.src.below(2) == 0 {
                    let t = hcl::Block::from(("k", ["l", "m", "n"], items.clone()));
                    let u = hcl::Block::from(("k", items.clone()));
                    if t != k || u.body != k.body || !u.labels.is_empty() {
                        return violation("builder", format!("{t:?}\n{u:?}"));
                    }
                }
                lib = b;
                want = items;
            }
            4 => {
                // Mutable traversals that are left early.
                let stop = cx.src.below(want.len() + 2);
                let panics = cx.src.below(4) == 3;
                let kind = cx.src.below(3);
                let back = cx.src.below(2) == 0;
                let mut all: Vec<&mut hcl::Structure> = want.iter_mut().collect();
                if back {
                    all.reverse();
                }
                let mut same = true;
                let val = stop as u64 + 1000;
                let end = guarded(|| {
                    let mut i = 0;
                    let mut step = || {
                        i += 1;
                        if i > stop && panics {
                            inject_panic();
                        }
                        i <= stop
                    };
                    match kind {
                        0 => {
                            let mut it = if cx.src.below(2) == 0 {
                                lib.iter_mut()
                            } else {
                                (&mut lib).into_iter()
                            };
                            for w in &mut all {
                                if !step() {
                                    break;
                                }
                                let x = if back { it.next_back() } else { it.next() };
                                match x {
                                    Some(x) => {
                                        same &= x == *w;
                                        let new = hcl_item(val as usize);
                                        **w = new.clone();
                                        *x = new;
                                    }
                                    None => same = false,
                                }
                            }
                        }
                        1 => {
                            let mut it = lib.attributes_mut();
                            for w in all.iter_mut().filter_map(|s| s.as_attribute_mut()) {
                                if !step() {
                                    break;
                                }
                                match if back { it.next_back() } else { it.next() } {
                                    Some(x) => {
                                        same &= x == w;
                                        w.expr = val.into();
                                        x.expr = val.into();
                                    }
                                    None => same = false,
                                }
                            }
                        }
                        _ => {
                            let mut it = lib.blocks_mut();
                            for w in all.iter_mut().filter_map(|s| s.as_block_mut()) {
                                if !step() {
                                    break;
                                }
                                match if back { it.next_back() } else { it.next() } {
                                    Some(x) => {
                                        same &= x == w;
                                        w.labels.push("new".into());
                                        x.labels.push("new".into());
                                    }
                                    None => same = false,
                                }
                            }
                        }
                    }
                });
                if panics {
                    cx.fault("loop body panics");
                }
                if end == End::Panicked || !same {
                    return violation("iter_mut", format!("{end:?}, same {same}"));
                }
            }
            5 => {
                let items = fresh(cx, 2);
                for s in items {
                    want.push(s.clone());
                    lib.0.push(s);
                }
            }
            6 => {
                let copy = lib.clone();
                both_ends(
                    &mut cx.src,
                    "into_iter",
                    copy.into_iter(),
                    |_| true,
                    &want,
                    |x, y| x == y,
                )?;
            }
            7 => {
                let attrs: Vec<hcl::Attribute> = want.iter().filter_map(attr).collect();
                both_ends(
                    &mut cx.src,
                    "into_attributes",
                    lib.clone().into_attributes(),
                    |_| false,
                    &attrs,
                    |x, y| x == y,
                )?;
            }
            8 => {
                let blocks: Vec<hcl::Block> = want.iter().filter_map(block).collect();
                both_ends(
                    &mut cx.src,
                    "into_blocks",
                    lib.clone().into_blocks(),
                    |_| false,
                    &blocks,
                    |x, y| x == y,
                )?;
            }
            9 => templates(cx, &mut id_of(&want))?,
            10 => {
                // A copied iterator continues on its own.
                let mut it = lib.iter();
                let n = cx.src.below(want.len() + 1);
                for _ in 0..n {
                    it.next();
                }
                let copy = it.clone();
                it.next();
                if !copy.eq(&want[n..]) {
                    return violation("iterate", "copied iterator".to_string());
                }
                let mut attrs = lib.attributes();
                attrs.next_back();
                let copy = attrs.clone();
                attrs.next();
                let all: Vec<&hcl::Attribute> = want
                    .iter()
                    .filter_map(hcl::Structure::as_attribute)
                    .collect();
                if !copy.eq(all[..all.len().saturating_sub(1)].iter().copied()) {
                    return violation("iterate", "copied attribute iterator".to_string());
                }
            }
            _ => {
                let copy = lib.clone();
                if copy != lib || hcl::Body::from_iter(want.clone()) != lib {
                    return violation("eq", format!("{lib:?}"));
                }
                let e: hcl_edit::structure::Body = hcl_edit::structure::Body::from_iter(
                    want.iter()
                        .cloned()
                        .map(hcl_edit::structure::Structure::from),
                );
                // Repeated attributes are dropped there.
                let mut seen = std::collections::HashSet::new();
                let kept: Vec<hcl::Structure> = want
                    .iter()
                    .filter(|s| {
                        s.as_attribute()
                            .is_none_or(|a| seen.insert(a.key().to_string()))
                    })
                    .cloned()
                    .collect();
                let back = hcl::Body::from(e);
                if back.0 != kept {
                    return violation("convert", format!("{back:?}\nwant {kept:?}"));
                }
            }
        }
        let attrs: Vec<hcl::Attribute> = want.iter().filter_map(attr).collect();
        let blocks: Vec<hcl::Block> = want.iter().filter_map(block).collect();
        if lib.0 != want {
            return violation("content", format!("{lib:?}\nwant {want:?}"));
        }
        both_ends(
            &mut cx.src,
            "iter",
            lib.iter(),
            |_| true,
            &want,
            |x, y| *x == y,
        )?;
        both_ends(
            &mut cx.src,
            "into_iter",
            (&lib).into_iter(),
            |_| true,
            &want,
            |x, y| *x == y,
        )?;
        both_ends(
            &mut cx.src,
            "attributes",
            lib.attributes(),
            |_| false,
            &attrs,
            |x, y| *x == y,
        )?;
        both_ends(
            &mut cx.src,
            "blocks",
            lib.blocks(),
            |_| false,
            &blocks,
            |x, y| *x == y,
        )?;
        let mut copy = lib.clone();
        both_ends(
            &mut cx.src,
            "iter_mut",
            copy.iter_mut(),
            |_| true,
            &want,
            |x, y| *x == y,
        )?;
        both_ends(
            &mut cx.src,
            "attributes_mut",
            copy.attributes_mut(),
            |_| false,
            &attrs,
            |x, y| *x == y,
        )?;
        both_ends(
            &mut cx.src,
            "blocks_mut",
            copy.blocks_mut(),
            |_| false,
            &blocks,
            |x, y| *x == y,
        )?;
        if lib.iter().len() != want.len() || lib.iter().rev().count() != want.len() {
            return violation("length", format!("{lib:?}"));
        }
        ev!(
            cx,
            "now {}: {} attributes, {} blocks",
            want.len(),
            attrs.len(),
            blocks.len()
        );
    }
    Ok(())
}

fn id_of(want: &[hcl::Structure]) -> usize {
    want.len()
}

/// Templates, function calls and traversals keep what is added to them in order.
fn templates(cx: &mut Cx, id: &mut usize) -> Check {
    use hcl::expr::{FuncCall, Traversal, TraversalOperator, Variable};
    use hcl::template::{Directive, Element, ForDirective, IfDirective, Interpolation, Template};
    let mut t = Template::new();
    let mut elements: Vec<Element> = Vec::new();
    let mut call = FuncCall::builder("f");
    let mut args: Vec<hcl::Expression> = Vec::new();
    let root = hcl::Expression::from(Variable::new("v").unwrap());
    let mut traversal = Traversal::builder(root.clone());
    let mut operators: Vec<TraversalOperator> = Vec::new();
    for _ in 0..start(&mut cx.src, 7).0 {
        *id += 1;
        let n = *id as u64;
        let e = match cx.src.below(5) {
            0 => {
                t = t.add_literal(format!("l{n}"));
                Element::Literal(format!("l{n}"))
            }
            1 => {
                t = t.add_interpolation(Interpolation::new(n));
                Element::Interpolation(Interpolation::new(n))
            }
            2 => {
                let d = IfDirective::new(n, Template::new().add_literal("x"));
                t = t.add_directive(d.clone());
                Element::Directive(Box::new(Directive::If(d)))
            }
            3 => {
                let d = ForDirective::new(hcl::Identifier::new("x").unwrap(), n, Template::new());
                t = t.add_element(Directive::from(d.clone()));
                Element::Directive(Box::new(Directive::For(d)))
            }
            _ => {
                if let Some(last) = t.elements_mut().last_mut() {
                    *last = Element::from("changed");
                    *elements.last_mut().unwrap() = Element::from("changed");
                }
                t = t.add_element("e");
                Element::from("e")
            }
        };
        elements.push(e);
        call = call.arg(n);
        args.push(n.into());
        match cx.src.below(4) {
            0 => {
                traversal = traversal.attr(format!("a{n}").as_str());
                operators.push(TraversalOperator::GetAttr(hcl::Identifier::sanitized(
                    format!("a{n}"),
                )));
            }
            1 => {
                traversal = traversal.index(n);
                operators.push(TraversalOperator::Index(n.into()));
            }
            2 => {
                traversal = traversal.attr_splat();
                operators.push(TraversalOperator::AttrSplat);
            }
            _ => {
                traversal = traversal.full_splat();
                operators.push(TraversalOperator::FullSplat);
            }
        }
    }
    let expand = cx.src.below(2) == 0;
    let call = call.expand_final(expand).build();
    let traversal = traversal.build();
    if t.elements() != elements || Template::from_iter(elements.clone()) != t {
        return violation("template", format!("{t:?}\nwant {elements:?}"));
    }
    if call.args != args || call.expand_final != expand {
        return violation("call", format!("{call:?}\nwant {args:?}"));
    }
    if traversal.operators != operators
        || traversal.expr != root
        || Traversal::new(root, operators.clone()) != traversal
    {
        return violation("traversal", format!("{traversal:?}\nwant {operators:?}"));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Containers within documents, reached through accessors

fn documents(cx: &mut Cx) -> Check {
    let literal = cx.src.below(3) == 2;
    let mut b = G::new(
        &mut cx.src,
        Cfg {
            trivia: false,
            literal,
            ..Cfg::default()
        },
    )
    .doc();
    let text = m::render_body(&b);
    ev!(cx, "document {text}");
    if literal {
        return values(cx, &b, &text);
    }
    let parsed = text.parse::<Body>();
    let mut lib = match parsed {
        _ if cx.src.below(2) == 1 => make::edit_body(&b),
        Ok(lib) => lib,
        Err(e) => return violation("parse", format!("{e}\n{text}")),
    };
    for id in 0..cx.src.range(1, 12) {
        if let Some(bad) = accessors::edit_body(&lib) {
            return violation("accessors", bad);
        }
        enter_body(cx, &mut lib, &mut b, id as u64)?;
        cx.nontrivial = true;
        let (x, y) = (canon::edit_body(&lib), canon::model_body(&b));
        if x != y {
            return violation("tree", format!("{x}\nwant\n{y}"));
        }
        ev!(cx, "{x}");
    }
    if let Some(bad) = accessors::edit_body(&lib) {
        return violation("accessors", bad);
    }
    let mut structural = hcl::Body::from(lib);
    match accessors::structural(&mut structural) {
        Some(bad) => violation("accessors", bad),
        None => Ok(()),
    }
}

/// However a node is put together, the result is the same.
fn built(cx: &mut Cx) -> Check {
    let literal = cx.src.below(4) == 3;
    let b = G::new(
        &mut cx.src,
        Cfg {
            literal,
            ..Cfg::default()
        },
    )
    .doc();
    ev!(cx, "build {}", m::render_body(&b));
    cx.nontrivial = !b.items.is_empty();
    let want = make::edit_body(&b);
    let lib = match guarded(|| routes::edit_body(&mut cx.src, &b)) {
        End::Done(lib) => lib,
        _ => return violation("panic", "building a body"),
    };
    if lib != want || lib.decor() != want.decor() {
        return violation("built", format!("{lib:?}\nwant\n{want:?}"));
    }
    let (x, y) = (lib.to_string(), want.to_string());
    if x != y {
        return violation("built", format!("prints\n{x}\nwant\n{y}"));
    }
    let form = canon::model_body(&b);
    let x = canon::edit_body(&lib);
    if x != form {
        return violation("tree", format!("{x}\nwant\n{form}"));
    }
    let structural = match guarded(|| routes::hcl_body(&mut cx.src, &b)) {
        End::Done(lib) => lib,
        _ => return violation("panic", "building a structural body"),
    };
    let want = make::hcl_body(&b);
    if structural != want {
        return violation("built", format!("{structural:?}\nwant\n{want:?}"));
    }
    for x in [
        canon::hcl_body(&structural),
        canon::hcl_body(&hcl::Body::from(lib)),
        canon::edit_body(&Body::from(structural)),
    ] {
        if x != form {
            return violation("tree", format!("{x}\nwant\n{form}"));
        }
    }
    for s in &b.items {
        let m::S::Attr { e, .. } = s else { continue };
        if let Some(v) = canon::literal_value(e) {
            let x = canon::value(&routes::value(&mut cx.src, e));
            let y = canon::value(&hcl::Value::from(make::hcl_e(e)));
            let z = canon::value(&hcl::Value::from(hcl::Expression::from(routes::value(
                &mut cx.src,
                e,
            ))));
            let want = canon::v(&v);
            if x != want || y != want || z != want {
                return violation("value", format!("{x}\n{y}\n{z}\nwant\n{want}"));
            }
        }
    }
    duplicate(cx, &b)?;
    if !literal {
        let parts = G::new(&mut cx.src, Cfg::default()).bare_template();
        ev!(cx, "template {}", m::render_template(&parts));
        let t = routes::hcl_template(&mut cx.src, &parts);
        let (x, y) = (canon::hcl_template(&t), canon::model_template(&parts));
        let edit = hcl_edit::template::Template::from(t.clone());
        let z = canon::edit_template(&edit);
        let back = canon::hcl_template(&hcl::Template::from(edit));
        if [&x, &z, &back].iter().any(|x| **x != y) {
            return violation("template", format!("{x}\n{z}\n{back}\nwant\n{y}"));
        }
    }
    Ok(())
}

/// A body with a second attribute of one name is not read.
fn duplicate(cx: &mut Cx, b: &m::B) -> Check {
    fn body<'a>(src: &mut Src, b: &'a mut m::B) -> &'a mut m::B {
        let n = b.items.len();
        let mut at = src.below(n + 1);
        while at < n && !matches!(&b.items[at], m::S::Block { body, .. } if !body.oneline) {
            at += 1;
        }
        if at == n {
            return b;
        }
        match &mut b.items[at] {
            m::S::Block { body: inner, .. } => body(src, inner),
            m::S::Attr { .. } => unreachable!(),
        }
    }
    const MARK: u64 = 907_060_504_030_201;
    let mut b = b.clone();
    let x = body(&mut cx.src, &mut b);
    let more = start(&mut cx.src, 2).0;
    let long = if cx.src.chance(1, 8) {
        *cx.src.pick(&[14, 15, 21, 22, 23, 30, 31, 63, 64, 127])
    } else {
        0
    };
    for n in 0..more {
        let a = m::S::Attr {
            d: m::D::default(),
            key: m::Id::new(format!("w{}{n}", "-".repeat(long))),
            e: num(n as u64),
        };
        let at = cx.src.below(x.items.len() + 1).min(x.items.len().saturating_sub(1));
        x.items.insert(at, a);
    }
    let attrs: Vec<(usize, String)> = (x.items.iter().enumerate())
        .filter(|(_, s)| s.is_attr())
        .map(|(n, s)| (n, s.name().to_string()))
        .collect();
    if attrs.is_empty() {
        return Ok(());
    }
    let (first, name) = cx.src.pick(&attrs).clone();
    let at = cx.src.below(x.items.len());
    let a = m::S::Attr {
        d: m::D::default(),
        key: m::Id::new(name.as_str()),
        e: num(MARK),
    };
    x.items.insert(at, a);
    let text = m::render_body(&b);
    ev!(cx, "{name} twice in {text}");
    let e = match text.parse::<Body>() {
        Ok(_) => return violation("duplicate", format!("{name} is read twice:\n{text}")),
        Err(e) => e,
    };
    if at > first {
        let line = 1 + text[..text.find(&MARK.to_string()).unwrap()].matches('\n').count();
        if e.location().line() != line {
            return violation("duplicate", format!("second {name} is in line {line}: {e}"));
        }
    }
    if hcl::parse(&text).is_ok() || hcl::from_str::<hcl::Value>(&text).is_ok() {
        return violation("duplicate", format!("{name} is read twice:\n{text}"));
    }
    Ok(())
}

fn enter_body(cx: &mut Cx, lib: &mut Body, b: &mut m::B, id: u64) -> Check {
    let n = b.items.len();
    let c = cx.src.below(n + 2);
    if c == n {
        let name = format!("n{id}");
        if lib.get_attribute_mut(&name).is_some() != b.has_attr(&name) {
            return violation("lookup", name);
        }
        if !b.has_attr(&name) {
            lib.push(Attribute::new(Ident::new(name.as_str()), id));
            b.items.push(m::S::Attr {
                d: m::D::default(),
                key: m::Id::new(name),
                e: num(id),
            });
        }
        return Ok(());
    }
    if c > n {
        if n > 0 {
            let i = cx.src.below(n);
            let (x, y) = (lib.remove(i), b.items.remove(i));
            let same = match (x, cx.src.below(2)) {
                (x, 0) => canon::edit_s(&x) == canon::model_s(&y),
                (x, _) => match (x.into_attribute(), y.is_attr()) {
                    (Ok(a), true) => canon::edit_attr(&a) == canon::model_s(&y),
                    (Err(x), false) => match x.into_block() {
                        Ok(b) => canon::edit_block(&b) == canon::model_s(&y),
                        Err(_) => false,
                    },
                    _ => false,
                },
            };
            if !same {
                return violation("remove", canon::model_s(&y));
            }
        }
        return Ok(());
    }
    let kind = b.items[c].is_attr();
    let earlier = b.items[..c]
        .iter()
        .filter(|s| s.is_attr() == kind)
        .count();
    let way = cx.src.below(4);
    let missing = |what: &str| violation("lookup", format!("{what} gives nothing"));
    let alike = b.items[..c]
        .iter()
        .filter(|s| !s.is_attr() && s.name() == b.items[c].name())
        .count();
    match &mut b.items[c] {
        m::S::Attr { key, e, .. } => {
            let x: Option<&mut Expression> = match way {
                0 => lib.get_mut(c).and_then(Structure::as_attribute_mut).map(|a| &mut a.value),
                1 => {
                    let Some(mut s) = lib.iter_mut().nth(c) else {
                        return missing("iter_mut");
                    };
                    let Some(mut a) = s.as_attribute_mut() else {
                        return missing("as_attribute_mut");
                    };
                    return enter_expr(cx, a.value_mut(), e, id);
                }
                2 => {
                    let Some(mut a) = lib.get_attribute_mut(&key.s) else {
                        return missing("get_attribute_mut");
                    };
                    return enter_expr(cx, a.value_mut(), e, id);
                }
                _ => {
                    let Some(mut a) = lib.attributes_mut().nth(earlier) else {
                        return missing("attributes_mut");
                    };
                    return enter_expr(cx, a.value_mut(), e, id);
                }
            };
            match x {
                Some(x) => enter_expr(cx, x, e, id),
                None => missing("get_mut"),
            }
        }
        m::S::Block {
            ident, labels, body, ..
        } => {
            if way == 1 {
                let Some(mut s) = lib.iter_mut().nth(c) else {
                    return missing("iter_mut");
                };
                return match s.as_block_mut() {
                    Some(x) => enter_block(cx, x, labels, body, id),
                    None => missing("as_block_mut"),
                };
            }
            let x: Option<&mut Block> = match way {
                0 => lib.get_mut(c).and_then(Structure::as_block_mut),
                2 => lib.get_blocks_mut(&ident.s).nth(alike),
                _ => lib.blocks_mut().nth(earlier),
            };
            match x {
                Some(x) => enter_block(cx, x, labels, body, id),
                None => missing("blocks"),
            }
        }
    }
}

fn num(id: u64) -> m::E {
    m::E::new(m::K::Num(m::Num::U(id), None))
}

fn enter_block(cx: &mut Cx, x: &mut Block, labels: &mut Vec<(bool, m::Id)>, body: &mut m::B, id: u64) -> Check {
    if cx.src.below(4) == 3 {
        let l = format!("l{id}");
        x.labels.push(l.as_str().into());
        labels.push((true, m::Id::new(l)));
        return Ok(());
    }
    enter_body(cx, &mut x.body, body, id)
}

fn enter_expr(cx: &mut Cx, x: &mut Expression, e: &mut m::E, id: u64) -> Check {
    let missing = |what: &str| violation("lookup", format!("{what} gives nothing"));
    if x.as_array_mut().is_some() != matches!(e.k, m::K::Arr(_))
        || x.as_object_mut().is_some() != matches!(e.k, m::K::Obj(_))
    {
        return violation("accessors", format!("mutable accessors of {x:?}"));
    }
    match &mut e.k {
        m::K::Arr(a) => {
            let n = a.items.len();
            let Some(lib) = x.as_array_mut() else {
                return missing("as_array_mut");
            };
            match cx.src.below(n + 3) {
                i if i < n => {
                    let way = cx.src.below(2);
                    let x = if way == 0 { lib.get_mut(i) } else { lib.iter_mut().nth(i) };
                    return match x {
                        Some(x) => enter_expr(cx, x, &mut a.items[i], id),
                        None => missing("get_mut"),
                    };
                }
                i if i == n => {
                    lib.push(id);
                    a.items.push(num(id));
                }
                i if i == n + 1 => {
                    let at = cx.src.below(n + 1);
                    lib.insert(at, id);
                    a.items.insert(at, num(id));
                }
                _ if n > 0 => {
                    let at = cx.src.below(n);
                    let (x, y) = (lib.remove(at), a.items.remove(at));
                    if canon::edit_e(&x) != canon::model_e(&y) {
                        return violation("remove", canon::model_e(&y));
                    }
                }
                _ => {}
            }
        }
        m::K::Obj(o) => {
            let n = o.items.len();
            let Some(lib) = x.as_object_mut() else {
                return missing("as_object_mut");
            };
            match cx.src.below(n + 2) {
                i if i < n => {
                    let key = make::edit_key(&o.items[i].key);
                    let way = cx.src.below(3);
                    let v = match way {
                        0 => lib.get_mut(&key),
                        1 => lib.get_key_value_mut(&key).map(|(_, v)| v),
                        _ => lib.iter_mut().nth(i).map(|(_, v)| v),
                    };
                    return match v {
                        Some(v) => enter_expr(cx, v.expr_mut(), &mut o.items[i].e, id),
                        None => missing("get_mut"),
                    };
                }
                i if i == n => {
                    let k = format!("n{id}");
                    let at = o
                        .items
                        .iter()
                        .position(|it| matches!(&it.key, m::Key::Id(i) if i.s == k));
                    let old = lib.insert(Ident::new(k.as_str()), Expression::from(id));
                    if old.map(|v| canon::edit_e(v.expr())) != at.map(|i| canon::model_e(&o.items[i].e)) {
                        return violation("insert", k);
                    }
                    match at {
                        Some(i) => o.items[i].e = num(id),
                        None => o.items.push(m::Item {
                            key: m::Key::Id(m::Id::new(k)),
                            colon: false,
                            e: num(id),
                            term: m::Term::Newline,
                        }),
                    }
                }
                _ if n > 0 => {
                    let at = cx.src.below(n);
                    let key = make::edit_key(&o.items[at].key);
                    let y = o.items.remove(at);
                    let gone = lib.remove(&key).map(|v| canon::edit_e(&v.into_expr()));
                    if gone != Some(canon::model_e(&y.e)) {
                        return violation("remove", canon::model_e(&y.e));
                    }
                }
                _ => {}
            }
        }
        k => {
            *x = Expression::from(id);
            *k = m::K::Num(m::Num::U(id), None);
        }
    }
    Ok(())
}

/// The same for values.
fn values(cx: &mut Cx, b: &m::B, text: &str) -> Check {
    let Some(mut want) = canon::literal_body(b) else {
        return Ok(());
    };
    let mut lib: hcl::Value = match hcl::from_str(text) {
        Ok(lib) => lib,
        Err(e) => return violation("parse", format!("{e}\n{text}")),
    };
    for id in 0..cx.src.range(1, 12) {
        if let Some(bad) = accessors::value(&mut lib) {
            return violation("accessors", bad);
        }
        enter_value(cx, &mut lib, &mut want, id as u64)?;
        cx.nontrivial = true;
        let (x, y) = (canon::value(&lib), canon::v(&want));
        if x != y {
            return violation("tree", format!("{x}\nwant\n{y}"));
        }
        ev!(cx, "{x}");
    }
    match accessors::value(&mut lib) {
        Some(bad) => violation("accessors", bad),
        None => Ok(()),
    }
}

fn enter_value(cx: &mut Cx, x: &mut hcl::Value, want: &mut canon::V, id: u64) -> Check {
    let missing = |what: &str| violation("lookup", format!("{what} gives nothing"));
    let new = canon::V::Num(m::Num::U(id));
    match want {
        canon::V::Arr(a) => {
            let n = a.len();
            let Some(lib) = x.as_array_mut() else {
                return missing("as_array_mut");
            };
            match cx.src.below(n + 1) {
                i if i < n => enter_value(cx, &mut lib[i], &mut a[i], id),
                _ => {
                    lib.push(id.into());
                    a.push(new);
                    Ok(())
                }
            }
        }
        canon::V::Obj(o) => {
            let n = o.len();
            let Some(lib) = x.as_object_mut() else {
                return missing("as_object_mut");
            };
            match cx.src.below(n + 1) {
                i if i < n => match lib.get_mut(&o[i].0) {
                    Some(v) => enter_value(cx, v, &mut o[i].1, id),
                    None => missing("get_mut"),
                },
                _ => {
                    let k = format!("n{id}");
                    lib.insert(k.clone(), id.into());
                    match o.iter_mut().find(|(l, _)| *l == k) {
                        Some((_, v)) => *v = new,
                        None => o.push((k, new)),
                    }
                    Ok(())
                }
            }
        }
        _ => {
            let old = x.take();
            if canon::value(&old) != canon::v(want) || !x.is_null() {
                return violation("take", format!("{old:?}, left {x:?}"));
            }
            *x = id.into();
            *want = new;
            Ok(())
        }
    }
}
