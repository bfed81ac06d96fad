From 2cf92425d010955d07e0d04e3bc1e96e41923499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 01/46] fix: hcl2json: report errors when flushing the JSON
 output

---
 crates/hcl2json/src/main.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/hcl2json/src/main.rs b/crates/hcl2json/src/main.rs
index 8b35cab..dfe4b92 100644
--- a/crates/hcl2json/src/main.rs
+++ b/crates/hcl2json/src/main.rs
@@ -176,13 +176,16 @@ fn read_hcl<R: Read>(reader: R, args: &Args) -> Result<Value> {
 }
 
 #[inline]
-fn write_json<W: Write>(writer: W, value: &Value, args: &Args) -> Result<()> {
+fn write_json<W: Write>(mut writer: W, value: &Value, args: &Args) -> Result<()> {
     if args.pretty {
-        serde_json::to_writer_pretty(writer, value)?;
+        serde_json::to_writer_pretty(&mut writer, value)?;
     } else {
-        serde_json::to_writer(writer, value)?;
+        serde_json::to_writer(&mut writer, value)?;
     }
 
+    // Errors while writing out buffered data are lost if this is left to the writer's destructor.
+    writer.flush()?;
+
     Ok(())
 }
 
-- 
2.43.0


From ef42512e48025a51ab2e143096602e095d14ebf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 02/46] fix: hcl-edit: restore escape state after encoding
 nested templates

---
 crates/hcl-edit/src/encode/mod.rs      | 20 ++++++++++++++++++--
 crates/hcl-edit/src/encode/template.rs |  2 +-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-edit/src/encode/mod.rs b/crates/hcl-edit/src/encode/mod.rs
index 28c0779..1fa57e3 100644
--- a/crates/hcl-edit/src/encode/mod.rs
+++ b/crates/hcl-edit/src/encode/mod.rs
@@ -33,9 +33,25 @@ impl<'a> EncodeState<'a> {
     where
         F: FnOnce(&mut EncodeState) -> fmt::Result,
     {
-        self.escape = true;
+        self.with_escape(true, f)
+    }
+
+    pub fn unescaped<F>(&mut self, f: F) -> fmt::Result
+    where
+        F: FnOnce(&mut EncodeState) -> fmt::Result,
+    {
+        self.with_escape(false, f)
+    }
+
+    fn with_escape<F>(&mut self, escape: bool, f: F) -> fmt::Result
+    where
+        F: FnOnce(&mut EncodeState) -> fmt::Result,
+    {
+        // Templates can be nested inside each other via interpolations, so the outer state needs
+        // to be restored afterwards.
+        let prev = std::mem::replace(&mut self.escape, escape);
         let result = f(self);
-        self.escape = false;
+        self.escape = prev;
         result
     }
 
diff --git a/crates/hcl-edit/src/encode/template.rs b/crates/hcl-edit/src/encode/template.rs
index fc87d25..5970ed6 100644
--- a/crates/hcl-edit/src/encode/template.rs
+++ b/crates/hcl-edit/src/encode/template.rs
@@ -46,7 +46,7 @@ impl Encode for HeredocTemplate {
                 let indented = indent_by(&indent_buf, n, false);
                 buf.write_str(&indented)?;
             }
-            None => self.template.encode(buf)?,
+            None => buf.unescaped(|buf| self.template.encode(buf))?,
         }
 
         self.trailing().encode_with_default(buf, "")?;
-- 
2.43.0


From 1755aa1360e57c78ae9434a8c64e348ed99277e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 03/46] fix: hcl-edit: keep decor of binary and traversal
 operators

---
 crates/hcl-edit/src/expr/operation.rs | 3 ++-
 crates/hcl-edit/src/expr/traversal.rs | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-edit/src/expr/operation.rs b/crates/hcl-edit/src/expr/operation.rs
index 5db2af3..a260dbe 100644
--- a/crates/hcl-edit/src/expr/operation.rs
+++ b/crates/hcl-edit/src/expr/operation.rs
@@ -1,5 +1,5 @@
 use crate::expr::Expression;
-use crate::{Decor, Decorated, Spanned};
+use crate::{Decor, Decorate, Decorated, Spanned};
 use std::ops::Range;
 
 // Re-exported for convenience.
@@ -77,6 +77,7 @@ impl BinaryOp {
     pub(crate) fn despan(&mut self, input: &str) {
         self.decor.despan(input);
         self.lhs_expr.despan(input);
+        self.operator.decor_mut().despan(input);
         self.rhs_expr.despan(input);
     }
 }
diff --git a/crates/hcl-edit/src/expr/traversal.rs b/crates/hcl-edit/src/expr/traversal.rs
index 6c28a28..90e055c 100644
--- a/crates/hcl-edit/src/expr/traversal.rs
+++ b/crates/hcl-edit/src/expr/traversal.rs
@@ -35,6 +35,7 @@ impl Traversal {
         self.expr.despan(input);
 
         for operator in &mut self.operators {
+            operator.decor_mut().despan(input);
             operator.despan(input);
         }
     }
-- 
2.43.0


From f7424db0e5d939a2d51d99b28c61b594353fb747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 04/46] fix: hcl-edit: visit collection expressions of for
 directives

---
 crates/hcl-edit/src/visit.rs     | 1 +
 crates/hcl-edit/src/visit_mut.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/crates/hcl-edit/src/visit.rs b/crates/hcl-edit/src/visit.rs
index 12bd95b..9b1a8d7 100644
--- a/crates/hcl-edit/src/visit.rs
+++ b/crates/hcl-edit/src/visit.rs
@@ -479,5 +479,6 @@ where
         v.visit_ident(key_var);
     }
     v.visit_ident(&node.value_var);
+    v.visit_expr(&node.collection_expr);
     v.visit_template(&node.template);
 }
diff --git a/crates/hcl-edit/src/visit_mut.rs b/crates/hcl-edit/src/visit_mut.rs
index ab7a249..02b57bd 100644
--- a/crates/hcl-edit/src/visit_mut.rs
+++ b/crates/hcl-edit/src/visit_mut.rs
@@ -495,5 +495,6 @@ where
         v.visit_ident_mut(key_var);
     }
     v.visit_ident_mut(&mut node.value_var);
+    v.visit_expr_mut(&mut node.collection_expr);
     v.visit_template_mut(&mut node.template);
 }
-- 
2.43.0


From 89755e615111c4eb82ec52d0d21680563d480832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 05/46] fix: hcl-edit: do not drop operands of chained
 comparisons

---
 crates/hcl-edit/src/parser/pratt.rs | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/crates/hcl-edit/src/parser/pratt.rs b/crates/hcl-edit/src/parser/pratt.rs
index c96e841..acff9f9 100644
--- a/crates/hcl-edit/src/parser/pratt.rs
+++ b/crates/hcl-edit/src/parser/pratt.rs
@@ -32,23 +32,11 @@ where
         match token {
             BinaryOpToken::Operator(operator) => {
                 let precedence = u32::from(operator.precedence());
-                let associativity = match **operator {
-                    BinaryOperator::Eq
-                    | BinaryOperator::NotEq
-                    | BinaryOperator::LessEq
-                    | BinaryOperator::GreaterEq
-                    | BinaryOperator::Less
-                    | BinaryOperator::Greater => Associativity::Neither,
-                    BinaryOperator::Plus
-                    | BinaryOperator::Minus
-                    | BinaryOperator::Mul
-                    | BinaryOperator::Div
-                    | BinaryOperator::Mod
-                    | BinaryOperator::And
-                    | BinaryOperator::Or => Associativity::Left,
-                };
 
-                Ok(Affix::Infix(Precedence(precedence), associativity))
+                // All binary operators are left-associative. Non-associativity would make the
+                // pratt parser stop at the second operator of the same precedence level and drop
+                // the remaining tokens.
+                Ok(Affix::Infix(Precedence(precedence), Associativity::Left))
             }
             BinaryOpToken::Expression(_) => Ok(Affix::Nilfix),
         }
-- 
2.43.0


From b61ccf2138187d4205f9e2935e2fe4fc09cb98ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 06/46] fix: hcl-primitives: handle numbers beyond the integer
 range

---
 crates/hcl-primitives/src/number.rs | 61 +++++++++++++++++------------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/crates/hcl-primitives/src/number.rs b/crates/hcl-primitives/src/number.rs
index 93b1372..881d4f3 100644
--- a/crates/hcl-primitives/src/number.rs
+++ b/crates/hcl-primitives/src/number.rs
@@ -50,9 +50,18 @@ impl N {
         #[allow(clippy::cast_possible_truncation, clippy::cast_precision_loss)]
         let no_fraction = value - (value as i64 as f64) == 0.0;
 
-        if no_fraction {
-            #[allow(clippy::cast_possible_truncation)]
-            N::from(value as i64)
+        // Casts to integer types saturate, only use these when the value is in range.
+        #[allow(
+            clippy::cast_possible_truncation,
+            clippy::cast_precision_loss,
+            clippy::cast_sign_loss
+        )]
+        if !no_fraction {
+            N::Float(value)
+        } else if value >= 0.0 && value < u64::MAX as f64 {
+            N::PosInt(value as u64)
+        } else if value < 0.0 && value >= i64::MIN as f64 {
+            N::NegInt(value as i64)
         } else {
             N::Float(value)
         }
@@ -166,10 +175,12 @@ impl Neg for N {
 
     fn neg(self) -> Self::Output {
         match self {
-            #[allow(clippy::cast_possible_wrap)]
-            N::PosInt(value) => N::NegInt(-(value as i64)),
-            N::NegInt(value) => N::from(-value),
-            N::Float(value) => N::Float(-value),
+            N::PosInt(value) => match 0i64.checked_sub_unsigned(value) {
+                Some(value) => N::from(value),
+                None => N::from_finite_f64(-self.to_f64()),
+            },
+            N::NegInt(value) => N::PosInt(value.unsigned_abs()),
+            N::Float(value) => N::from_finite_f64(-value),
         }
     }
 }
@@ -178,11 +189,13 @@ impl Add for N {
     type Output = N;
 
     fn add(self, rhs: Self) -> Self::Output {
+        // Integer results that are out of range are represented as floats.
         match coerce(self, rhs) {
-            CoerceResult::PosInt(a, b) => N::PosInt(a + b),
-            CoerceResult::NegInt(a, b) => N::NegInt(a + b),
-            CoerceResult::Float(a, b) => N::from_finite_f64(a + b),
+            CoerceResult::PosInt(a, b) => a.checked_add(b).map(N::PosInt),
+            CoerceResult::NegInt(a, b) => a.checked_add(b).map(N::NegInt),
+            CoerceResult::Float(_, _) => None,
         }
+        .unwrap_or_else(|| N::from_finite_f64(self.to_f64() + rhs.to_f64()))
     }
 }
 
@@ -190,18 +203,16 @@ impl Sub for N {
     type Output = N;
 
     fn sub(self, rhs: Self) -> Self::Output {
+        // Integer results that are out of range are represented as floats.
         match coerce(self, rhs) {
-            CoerceResult::PosInt(a, b) => {
-                if b > a {
-                    #[allow(clippy::cast_possible_wrap)]
-                    N::NegInt(a as i64 - b as i64)
-                } else {
-                    N::PosInt(a - b)
-                }
-            }
-            CoerceResult::NegInt(a, b) => N::from(a - b),
-            CoerceResult::Float(a, b) => N::from_finite_f64(a - b),
+            CoerceResult::PosInt(a, b) => match a.checked_sub(b) {
+                Some(n) => Some(N::PosInt(n)),
+                None => 0i64.checked_sub_unsigned(b - a).map(N::NegInt),
+            },
+            CoerceResult::NegInt(a, b) => a.checked_sub(b).map(N::from),
+            CoerceResult::Float(_, _) => None,
         }
+        .unwrap_or_else(|| N::from_finite_f64(self.to_f64() - rhs.to_f64()))
     }
 }
 
@@ -209,11 +220,13 @@ impl Mul for N {
     type Output = N;
 
     fn mul(self, rhs: Self) -> Self::Output {
+        // Integer results that are out of range are represented as floats.
         match coerce(self, rhs) {
-            CoerceResult::PosInt(a, b) => N::PosInt(a * b),
-            CoerceResult::NegInt(a, b) => N::from(a * b),
-            CoerceResult::Float(a, b) => N::from_finite_f64(a * b),
+            CoerceResult::PosInt(a, b) => a.checked_mul(b).map(N::PosInt),
+            CoerceResult::NegInt(a, b) => a.checked_mul(b).map(N::from),
+            CoerceResult::Float(_, _) => None,
         }
+        .unwrap_or_else(|| N::from_finite_f64(self.to_f64() * rhs.to_f64()))
     }
 }
 
@@ -231,7 +244,7 @@ impl Rem for N {
     fn rem(self, rhs: Self) -> Self::Output {
         match coerce(self, rhs) {
             CoerceResult::PosInt(a, b) => N::PosInt(a % b),
-            CoerceResult::NegInt(a, b) => N::NegInt(a % b),
+            CoerceResult::NegInt(a, b) => N::from(a.wrapping_rem(b)),
             CoerceResult::Float(a, b) => N::from_finite_f64(a % b),
         }
     }
-- 
2.43.0


From f0a373acc07a361703e61543db35d740bc374073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 07/46] fix: hcl-rs: keep all object entries if in-place
 evaluation fails

---
 crates/hcl-rs/src/eval/impls.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/crates/hcl-rs/src/eval/impls.rs b/crates/hcl-rs/src/eval/impls.rs
index f318e1c..2eb7da5 100644
--- a/crates/hcl-rs/src/eval/impls.rs
+++ b/crates/hcl-rs/src/eval/impls.rs
@@ -2,6 +2,7 @@ use super::error::EvalResultExt;
 use super::*;
 use indexmap::map::Entry;
 use std::hash::Hash;
+use vecmap::map::MutableKeys;
 
 impl private::Sealed for Body {}
 
@@ -174,20 +175,18 @@ where
     }
 
     fn evaluate_in_place(&mut self, ctx: &Context) -> EvalResult<(), Errors> {
-        let mut new_object = Object::with_capacity(self.len());
-
+        // The entries are evaluated without taking them out of the object so that none of them is
+        // lost if evaluation fails or panics.
         #[allow(clippy::manual_try_fold)]
-        let res = self
-            .drain(..)
-            .fold(Ok(()), |mut res, (mut key, mut value)| {
-                res = res
-                    .add_errors(key.evaluate_in_place(ctx))
-                    .add_errors(value.evaluate_in_place(ctx));
-                new_object.insert(key, value);
-                res
-            });
-
-        *self = new_object;
+        let res = self.iter_mut2().fold(Ok(()), |res, (key, value)| {
+            res.add_errors(key.evaluate_in_place(ctx))
+                .add_errors(value.evaluate_in_place(ctx))
+        });
+
+        // Multiple keys may have been evaluated to the same value.
+        if res.is_ok() {
+            *self = self.drain(..).collect();
+        }
 
         res
     }
-- 
2.43.0


From 4699c63825faffe81d1e5e14134705d5701abebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 08/46] fix: hcl-rs: report arithmetic without a finite result
 as evaluation error

---
 crates/hcl-rs/src/eval/impls.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/crates/hcl-rs/src/eval/impls.rs b/crates/hcl-rs/src/eval/impls.rs
index 2eb7da5..e9bfd5e 100644
--- a/crates/hcl-rs/src/eval/impls.rs
+++ b/crates/hcl-rs/src/eval/impls.rs
@@ -417,11 +417,11 @@ impl Evaluate for BinaryOp {
             (Number(lhs), GreaterEq, Number(rhs)) => Bool(lhs >= rhs),
             (Number(lhs), Less, Number(rhs)) => Bool(lhs < rhs),
             (Number(lhs), Greater, Number(rhs)) => Bool(lhs > rhs),
-            (Number(lhs), Plus, Number(rhs)) => Number(lhs + rhs),
-            (Number(lhs), Minus, Number(rhs)) => Number(lhs - rhs),
-            (Number(lhs), Mul, Number(rhs)) => Number(lhs * rhs),
-            (Number(lhs), Div, Number(rhs)) => Number(lhs / rhs),
-            (Number(lhs), Mod, Number(rhs)) => Number(lhs % rhs),
+            (Number(lhs), Plus, Number(rhs)) if is_finite(lhs, Plus, rhs) => Number(lhs + rhs),
+            (Number(lhs), Minus, Number(rhs)) if is_finite(lhs, Minus, rhs) => Number(lhs - rhs),
+            (Number(lhs), Mul, Number(rhs)) if is_finite(lhs, Mul, rhs) => Number(lhs * rhs),
+            (Number(lhs), Div, Number(rhs)) if is_finite(lhs, Div, rhs) => Number(lhs / rhs),
+            (Number(lhs), Mod, Number(rhs)) if is_finite(lhs, Mod, rhs) => Number(lhs % rhs),
             (lhs, operator, rhs) => return Err(ctx.error(ErrorKind::BinaryOp(lhs, operator, rhs))),
         };
 
@@ -435,6 +435,26 @@ impl Evaluate for BinaryOp {
     }
 }
 
+// Returns whether the result of an arithmetic operation is finite. This is not the case for
+// divisions by zero and for results that exceed the range of a `Number`, where using the operators
+// implemented by `Number` would panic.
+fn is_finite(lhs: crate::Number, operator: BinaryOperator, rhs: crate::Number) -> bool {
+    let (Some(lhs), Some(rhs)) = (lhs.as_f64(), rhs.as_f64()) else {
+        return false;
+    };
+
+    let result = match operator {
+        BinaryOperator::Plus => lhs + rhs,
+        BinaryOperator::Minus => lhs - rhs,
+        BinaryOperator::Mul => lhs * rhs,
+        BinaryOperator::Div => lhs / rhs,
+        BinaryOperator::Mod => lhs % rhs,
+        _ => return false,
+    };
+
+    result.is_finite()
+}
+
 impl private::Sealed for ForExpr {}
 
 impl Evaluate for ForExpr {
-- 
2.43.0


From fb3a7a67670e870cf30b42b44c260521d308be09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 09/46] fix: hcl-primitives: (un)escape every template marker

---
 crates/hcl-primitives/src/template.rs | 48 ++++++++-------------------
 1 file changed, 13 insertions(+), 35 deletions(-)

diff --git a/crates/hcl-primitives/src/template.rs b/crates/hcl-primitives/src/template.rs
index 9302ce4..fd5d725 100644
--- a/crates/hcl-primitives/src/template.rs
+++ b/crates/hcl-primitives/src/template.rs
@@ -109,25 +109,14 @@ pub fn escape_markers(literal: &str) -> Cow<'_, str> {
 
 fn escape_markers_owned(literal: &str, idx: usize) -> String {
     let (mut buf, rest) = split_buf(literal, idx);
-    let mut chars = rest.chars();
+    let mut chars = rest.chars().peekable();
 
     while let Some(ch) = chars.next() {
         buf.push(ch);
 
-        if ch != '$' && ch != '%' {
-            continue;
-        }
-
-        match chars.next() {
-            Some(ch2) => {
-                if ch2 == '{' {
-                    // Escape the start marker by doubling `ch`.
-                    buf.push(ch);
-                }
-
-                buf.push(ch2);
-            }
-            None => break,
+        if (ch == '$' || ch == '%') && chars.peek() == Some(&'{') {
+            // Escape the start marker by doubling `ch`.
+            buf.push(ch);
         }
     }
 
@@ -163,31 +152,20 @@ pub fn unescape_markers(literal: &str) -> Cow<'_, str> {
 }
 
 fn unescape_markers_owned(literal: &str, idx: usize) -> String {
-    let (mut buf, rest) = split_buf(literal, idx);
-    let mut chars = rest.chars();
+    let (mut buf, mut rest) = split_buf(literal, idx);
 
-    while let Some(ch) = chars.next() {
+    while let Some(ch) = rest.chars().next() {
         buf.push(ch);
 
-        if ch != '$' && ch != '%' {
-            continue;
-        }
-
-        match (chars.next(), chars.next()) {
-            (Some(ch2), Some('{')) if ch2 == ch => {
-                // Unescape by not pushing `ch2` to the output buffer.
-                buf.push('{');
-            }
-            (Some(ch2), ch3) => {
-                buf.push(ch2);
-
-                if let Some(ch) = ch3 {
-                    buf.push(ch);
-                }
-            }
-            (_, _) => break,
+        if rest.starts_with("$${") || rest.starts_with("%%{") {
+            // Unescape by not pushing the second marker character to the output buffer.
+            buf.push('{');
+            rest = &rest[3..];
+        } else {
+            rest = &rest[ch.len_utf8()..];
         }
     }
+
     buf
 }
 
-- 
2.43.0


From 80c138b8ec745df2009afacdbffff7ce3d814979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 10/46] fix: hcl-edit: unescape literals in directives of
 quoted templates

---
 crates/hcl-edit/src/parser/template.rs | 46 ++++++++++++++++++--------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/crates/hcl-edit/src/parser/template.rs b/crates/hcl-edit/src/parser/template.rs
index 93d1572..4d37d14 100644
--- a/crates/hcl-edit/src/parser/template.rs
+++ b/crates/hcl-edit/src/parser/template.rs
@@ -22,15 +22,31 @@ use winnow::token::one_of;
 use hcl_primitives::ident::is_id_continue;
 
 pub(super) fn string_template(input: &mut Input) -> ModalResult<StringTemplate> {
-    delimited('"', elements(build_string(quoted_string_fragment)), '"')
+    delimited('"', quoted_template, '"')
         .output_into()
         .parse_next(input)
 }
 
+fn quoted_template(input: &mut Input) -> ModalResult<Vec<Element>> {
+    elements(build_string(quoted_string_fragment), true).parse_next(input)
+}
+
 pub(super) fn template(input: &mut Input) -> ModalResult<Template> {
     let literal_end = alt(("${", "%{"));
     let literal = template_literal(literal_end);
-    elements(literal).output_into().parse_next(input)
+    elements(literal, false).output_into().parse_next(input)
+}
+
+// Parses a template which is nested inside of a directive. If the directive is part of a quoted
+// string, the literals in the nested template are subject to the rules for quoted strings as well.
+fn nested_template<'a>(quoted: bool) -> impl ModalParser<Input<'a>, Template, ContextError> {
+    move |input: &mut Input<'a>| {
+        if quoted {
+            quoted_template.output_into().parse_next(input)
+        } else {
+            template.parse_next(input)
+        }
+    }
 }
 
 pub(super) fn heredoc_template<'a>(
@@ -52,7 +68,7 @@ pub(super) fn heredoc_template<'a>(
         let literal = template_literal(literal_end);
 
         // Use `opt` to handle an empty template.
-        opt((elements(literal), line_ending.with_span()).map(
+        opt((elements(literal, false), line_ending.with_span()).map(
             |(mut elements, (line_ending, line_ending_span))| {
                 // If there is a trailing literal, update its span and append the line ending to
                 // it. Otherwise just add a new literal containing only the line ending.
@@ -84,7 +100,10 @@ where
     build_string(template_string_fragment(literal_end))
 }
 
-fn elements<'a, P>(literal: P) -> impl ModalParser<Input<'a>, Vec<Element>, ContextError>
+fn elements<'a, P>(
+    literal: P,
+    quoted: bool,
+) -> impl ModalParser<Input<'a>, Vec<Element>, ContextError>
 where
     P: ModalParser<Input<'a>, Cow<'a, str>, ContextError>,
 {
@@ -93,7 +112,8 @@ where
         spanned(alt((
             literal.map(|s| Element::Literal(Spanned::new(s.into()))),
             interpolation.map(Element::Interpolation),
-            directive.map(|d| Element::Directive(Box::new(d))),
+            (move |input: &mut Input<'a>| directive(input, quoted))
+                .map(|d| Element::Directive(Box::new(d))),
         ))),
     )
 }
@@ -108,21 +128,21 @@ fn interpolation(input: &mut Input) -> ModalResult<Interpolation> {
         .parse_next(input)
 }
 
-fn directive(input: &mut Input) -> ModalResult<Directive> {
+fn directive(input: &mut Input, quoted: bool) -> ModalResult<Directive> {
     alt((
-        if_directive.map(Directive::If),
-        for_directive.map(Directive::For),
+        (|input: &mut Input<'_>| if_directive(input, quoted)).map(Directive::If),
+        (|input: &mut Input<'_>| for_directive(input, quoted)).map(Directive::For),
     ))
     .parse_next(input)
 }
 
-fn if_directive(input: &mut Input) -> ModalResult<IfDirective> {
+fn if_directive(input: &mut Input, quoted: bool) -> ModalResult<IfDirective> {
     let if_expr = (
         control(
             "%{",
             (terminated(raw_string(ws), "if"), decorated(ws, expr, ws)),
         ),
-        spanned(template),
+        spanned(nested_template(quoted)),
     )
         .map(|(((preamble, cond_expr), strip), template)| {
             let mut expr = IfTemplateExpr::new(cond_expr, template);
@@ -133,7 +153,7 @@ fn if_directive(input: &mut Input) -> ModalResult<IfDirective> {
 
     let else_expr = (
         control("%{", separated_pair(raw_string(ws), "else", raw_string(ws))),
-        spanned(template),
+        spanned(nested_template(quoted)),
     )
         .map(|(((preamble, trailing), strip), template)| {
             let mut expr = ElseTemplateExpr::new(template);
@@ -160,7 +180,7 @@ fn if_directive(input: &mut Input) -> ModalResult<IfDirective> {
         .parse_next(input)
 }
 
-fn for_directive(input: &mut Input) -> ModalResult<ForDirective> {
+fn for_directive(input: &mut Input, quoted: bool) -> ModalResult<ForDirective> {
     let for_expr = (
         control(
             "%{",
@@ -171,7 +191,7 @@ fn for_directive(input: &mut Input) -> ModalResult<ForDirective> {
                 preceded(cut_tag("in"), decorated(ws, expr, ws)),
             ),
         ),
-        spanned(template),
+        spanned(nested_template(quoted)),
     )
         .map(
             |(((preamble, key_var, value_var, collection_expr), strip), template)| {
-- 
2.43.0


From 7c1dfc69c8c9826d29f5ed0c0bdbeaeee87b917c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 11/46] fix: hcl-rs: escape literals of quoted templates when
 formatting

---
 crates/hcl-rs/src/format/impls.rs |  4 ++--
 crates/hcl-rs/src/format/mod.rs   | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-rs/src/format/impls.rs b/crates/hcl-rs/src/format/impls.rs
index 54e24eb..90a3efe 100644
--- a/crates/hcl-rs/src/format/impls.rs
+++ b/crates/hcl-rs/src/format/impls.rs
@@ -149,7 +149,7 @@ impl Format for Value {
             Value::Number(num) => num.format(fmt),
             Value::String(string) => {
                 if is_templated(string) {
-                    fmt.write_quoted_string(string)
+                    fmt.write_quoted_template(string)
                 } else {
                     fmt.write_quoted_string_escaped(string)
                 }
@@ -211,7 +211,7 @@ impl Format for TemplateExpr {
         W: io::Write,
     {
         match self {
-            TemplateExpr::QuotedString(string) => fmt.write_quoted_string(string),
+            TemplateExpr::QuotedString(string) => fmt.write_quoted_template(string),
             TemplateExpr::Heredoc(heredoc) => heredoc.format(fmt),
         }
     }
diff --git a/crates/hcl-rs/src/format/mod.rs b/crates/hcl-rs/src/format/mod.rs
index 81c0451..da988f6 100644
--- a/crates/hcl-rs/src/format/mod.rs
+++ b/crates/hcl-rs/src/format/mod.rs
@@ -39,6 +39,7 @@ mod impls;
 
 use self::escape::{CharEscape, ESCAPE};
 use crate::Result;
+use hcl_edit::template::StringTemplate;
 use hcl_primitives::template::escape_markers;
 use std::io;
 
@@ -435,6 +436,19 @@ where
         self.write_bytes(b"\"")
     }
 
+    /// Writes a quoted template to the writer after escaping its literals. The contents of
+    /// interpolations and directives are left as is.
+    fn write_quoted_template(&mut self, s: &str) -> Result<()> {
+        if s.bytes().any(|byte| ESCAPE[byte as usize] != 0) {
+            if let Ok(template) = s.parse::<hcl_edit::template::Template>() {
+                let expr = hcl_edit::expr::Expression::from(StringTemplate::from(template));
+                return self.write_string_fragment(&expr.to_string());
+            }
+        }
+
+        self.write_quoted_string(s)
+    }
+
     /// Writes a quoted string to the writer after escaping it.
     fn write_quoted_string_escaped(&mut self, s: &str) -> Result<()> {
         self.write_bytes(b"\"")?;
-- 
2.43.0


From 31d095cd3922e0781f123b21a676f94a6263f649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 12/46] fix: hcl-edit: keep indented heredocs without common
 indentation intact

Unindented first lines were ignored when determining the indentation to strip
from a heredoc's literals, so that leading characters of these lines were
dropped. Furthermore, the `<<-` marker was lost if there was nothing to strip.
---
 crates/hcl-edit/src/template/mod.rs | 6 ++++--
 crates/hcl-edit/src/util.rs         | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-edit/src/template/mod.rs b/crates/hcl-edit/src/template/mod.rs
index 5c68527..7ca0487 100644
--- a/crates/hcl-edit/src/template/mod.rs
+++ b/crates/hcl-edit/src/template/mod.rs
@@ -207,8 +207,10 @@ impl HeredocTemplate {
     /// This will set the heredoc's indent to the number of leading
     /// spaces that were stripped off of template string literals, if any.
     pub fn dedent(&mut self) {
+        // The indent needs to be set in any case since it marks the heredoc as `<<-` style, even if
+        // there was nothing to strip.
         let stripped_indent = self.template.dedent();
-        self.indent = stripped_indent;
+        self.indent = Some(stripped_indent.unwrap_or(0));
     }
 
     pub(crate) fn despan(&mut self, input: &str) {
@@ -418,7 +420,7 @@ impl Template {
             }
         }
 
-        if let Some(indent) = indent {
+        if let Some(indent) = indent.filter(|&indent| indent > 0) {
             skip_first_line = false;
 
             for element in &mut self.elements {
diff --git a/crates/hcl-edit/src/util.rs b/crates/hcl-edit/src/util.rs
index 8950b9c..8ce5c52 100644
--- a/crates/hcl-edit/src/util.rs
+++ b/crates/hcl-edit/src/util.rs
@@ -42,7 +42,7 @@ pub(crate) fn min_leading_whitespace(s: &str, skip_first: bool) -> Option<usize>
         if line_leading_ws == 0 {
             // Fast path: no dedent needed if we encounter a non-empty line which starts with a
             // non-whitespace character.
-            return None;
+            return Some(0);
         }
 
         leading_ws = Some(leading_ws.map_or(line_leading_ws, |leading_ws| {
-- 
2.43.0


From d50d507e1d743dfc06f016cca934f26aaded281b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 13/46] fix: hcl-edit: separate the variable of a for intro
 from the `in` keyword

---
 crates/hcl-edit/src/encode/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hcl-edit/src/encode/expr.rs b/crates/hcl-edit/src/encode/expr.rs
index 61953a4..f4d2a28 100644
--- a/crates/hcl-edit/src/encode/expr.rs
+++ b/crates/hcl-edit/src/encode/expr.rs
@@ -157,7 +157,7 @@ impl Encode for ForIntro {
             key_var.encode_decorated(buf, LEADING_SPACE_DECOR)?;
             buf.write_char(',')?;
         }
-        self.value_var.encode_decorated(buf, LEADING_SPACE_DECOR)?;
+        self.value_var.encode_decorated(buf, BOTH_SPACE_DECOR)?;
         buf.write_str("in")?;
         self.collection_expr
             .encode_decorated(buf, BOTH_SPACE_DECOR)?;
-- 
2.43.0


From cf3b0aa8ce7bef136f5ac0abe3d6b3e362abfa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 14/46] fix: hcl-edit: keep decor after the grouping operator
 of for expressions inside the braces

---
 crates/hcl-edit/src/encode/expr.rs   |  2 ++
 crates/hcl-edit/src/expr/for_expr.rs | 14 +++++++++++++-
 crates/hcl-edit/src/parser/expr.rs   |  2 +-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-edit/src/encode/expr.rs b/crates/hcl-edit/src/encode/expr.rs
index f4d2a28..3249909 100644
--- a/crates/hcl-edit/src/encode/expr.rs
+++ b/crates/hcl-edit/src/encode/expr.rs
@@ -135,6 +135,8 @@ impl Encode for ForExpr {
             }
             if let Some(cond) = &self.cond {
                 cond.encode_decorated(buf, LEADING_SPACE_DECOR)?;
+            } else if self.grouping {
+                self.grouping_trailing().encode_with_default(buf, "")?;
             }
             buf.write_char('}')
         } else {
diff --git a/crates/hcl-edit/src/expr/for_expr.rs b/crates/hcl-edit/src/expr/for_expr.rs
index 858e6d2..e0a154a 100644
--- a/crates/hcl-edit/src/expr/for_expr.rs
+++ b/crates/hcl-edit/src/expr/for_expr.rs
@@ -1,5 +1,5 @@
 use crate::expr::Expression;
-use crate::{Decor, Decorate, Decorated, Ident};
+use crate::{Decor, Decorate, Decorated, Ident, RawString};
 use std::ops::Range;
 
 /// A for expression is a construct for constructing a collection by projecting the items from
@@ -22,6 +22,7 @@ pub struct ForExpr {
     /// be evaluated as normal, while if `false` the element will be skipped.
     pub cond: Option<ForCond>,
 
+    grouping_trailing: RawString,
     decor: Decor,
     span: Option<Range<usize>>,
 }
@@ -36,13 +37,24 @@ impl ForExpr {
             value_expr: value_expr.into(),
             grouping: false,
             cond: None,
+            grouping_trailing: RawString::default(),
             decor: Decor::default(),
             span: None,
         }
     }
 
+    /// Returns the raw decor between the grouping operator (`...`) and the closing brace.
+    pub(crate) fn grouping_trailing(&self) -> &RawString {
+        &self.grouping_trailing
+    }
+
+    pub(crate) fn set_grouping_trailing(&mut self, trailing: impl Into<RawString>) {
+        self.grouping_trailing = trailing.into();
+    }
+
     pub(crate) fn despan(&mut self, input: &str) {
         self.decor.despan(input);
+        self.grouping_trailing.despan(input);
         self.intro.despan(input);
 
         if let Some(key_expr) = &mut self.key_expr {
diff --git a/crates/hcl-edit/src/parser/expr.rs b/crates/hcl-edit/src/parser/expr.rs
index 77ea970..61ee48f 100644
--- a/crates/hcl-edit/src/parser/expr.rs
+++ b/crates/hcl-edit/src/parser/expr.rs
@@ -472,7 +472,7 @@ fn for_object_expr<'i>(
                     if let Some(ref mut cond) = expr.cond {
                         cond.decor_mut().set_prefix(trailing);
                     } else {
-                        expr.decor_mut().set_suffix(trailing);
+                        expr.set_grouping_trailing(trailing);
                     }
                 }
 
-- 
2.43.0


From 9c8c2693073c9fec9c536c629155aa341a7cba4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 15/46] fix: hcl-edit: separate the condition of an if
 directive from the `if` keyword

---
 crates/hcl-edit/src/encode/template.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/hcl-edit/src/encode/template.rs b/crates/hcl-edit/src/encode/template.rs
index 5970ed6..7d77c48 100644
--- a/crates/hcl-edit/src/encode/template.rs
+++ b/crates/hcl-edit/src/encode/template.rs
@@ -1,6 +1,5 @@
 use super::{
     encode_escaped, Encode, EncodeDecorated, EncodeState, BOTH_SPACE_DECOR, LEADING_SPACE_DECOR,
-    TRAILING_SPACE_DECOR,
 };
 use crate::template::{
     Directive, Element, ElseTemplateExpr, EndforTemplateExpr, EndifTemplateExpr, ForDirective,
@@ -114,7 +113,7 @@ impl Encode for IfTemplateExpr {
         encode_strip(buf, DIRECTIVE_START, self.strip, |buf| {
             self.preamble().encode_with_default(buf, " ")?;
             buf.write_str("if")?;
-            self.cond_expr.encode_decorated(buf, TRAILING_SPACE_DECOR)
+            self.cond_expr.encode_decorated(buf, BOTH_SPACE_DECOR)
         })?;
         self.template.encode(buf)
     }
-- 
2.43.0


From 11bd36113a167d5d259b03630e3140541d001929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 16/46] fix: hcl-edit: terminate object items which are not the
 last one

---
 crates/hcl-edit/src/encode/expr.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-edit/src/encode/expr.rs b/crates/hcl-edit/src/encode/expr.rs
index 3249909..4066553 100644
--- a/crates/hcl-edit/src/encode/expr.rs
+++ b/crates/hcl-edit/src/encode/expr.rs
@@ -83,9 +83,15 @@ impl Encode for Object {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
         buf.write_char('{')?;
 
-        for (key, value) in self {
+        for (i, (key, value)) in self.iter().enumerate() {
             key.encode_decorated(buf, TRAILING_SPACE_DECOR)?;
             value.encode(buf)?;
+
+            // Only the last item can omit the terminator, but other items may have been added after
+            // the item was created.
+            if value.terminator() == ObjectValueTerminator::None && i + 1 < self.len() {
+                buf.write_char(',')?;
+            }
         }
 
         self.trailing().encode_with_default(buf, "")?;
-- 
2.43.0


From 421be71cc5042db3e1f260fe2fe56401b2741e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 17/46] fix: hcl-edit: do not allow newlines after brackets
 where they were not allowed before

---
 crates/hcl-edit/src/parser/expr.rs  | 5 +++++
 crates/hcl-edit/src/parser/state.rs | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/crates/hcl-edit/src/parser/expr.rs b/crates/hcl-edit/src/parser/expr.rs
index 61ee48f..7d1854a 100644
--- a/crates/hcl-edit/src/parser/expr.rs
+++ b/crates/hcl-edit/src/parser/expr.rs
@@ -133,6 +133,7 @@ fn expr_term_inner<'i>(
 ) -> impl ModalParser<Input<'i>, (), ContextError> + '_ {
     move |input: &mut Input<'i>| {
         let start = input.current_token_start();
+        let allow_newlines = state.borrow().newlines_allowed();
 
         dispatch! {peek(any);
             '"' => stringlike(state),
@@ -161,6 +162,10 @@ fn expr_term_inner<'i>(
         .parse_next(input)
         .map(|span| state.borrow_mut().on_span(span))?;
 
+        // Newlines that are allowed within brackets are not allowed after the closing bracket,
+        // unless they were allowed before.
+        state.borrow_mut().set_allow_newlines(allow_newlines);
+
         let checkpoint = input.checkpoint();
         // Parse the next whitespace sequence and only add it as decor suffix to the expression if
         // we encounter a traversal. We'll rewind the parser if none follows.
diff --git a/crates/hcl-edit/src/parser/state.rs b/crates/hcl-edit/src/parser/state.rs
index ddc3a69..91f8f39 100644
--- a/crates/hcl-edit/src/parser/state.rs
+++ b/crates/hcl-edit/src/parser/state.rs
@@ -143,6 +143,10 @@ impl ExprParseState {
         self.allow_newlines = true;
     }
 
+    pub(super) fn set_allow_newlines(&mut self, yes: bool) {
+        self.allow_newlines = yes;
+    }
+
     pub(super) fn newlines_allowed(&self) -> bool {
         self.allow_newlines
     }
-- 
2.43.0


From f091609a055ff2dbb5ef8a0d95ce6690764375d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 18/46] fix: hcl-edit: do not search for the end of an empty
 heredoc in the text after it

---
 crates/hcl-edit/src/parser/template.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-edit/src/parser/template.rs b/crates/hcl-edit/src/parser/template.rs
index 4d37d14..54fa096 100644
--- a/crates/hcl-edit/src/parser/template.rs
+++ b/crates/hcl-edit/src/parser/template.rs
@@ -16,7 +16,7 @@ use crate::{SetSpan, Span, Spanned};
 
 use std::borrow::Cow;
 use winnow::ascii::{line_ending, space0};
-use winnow::combinator::{alt, delimited, not, opt, preceded, repeat, separated_pair, terminated};
+use winnow::combinator::{alt, delimited, not, opt, peek, preceded, repeat, separated_pair, terminated};
 use winnow::token::one_of;
 
 use hcl_primitives::ident::is_id_continue;
@@ -53,6 +53,12 @@ pub(super) fn heredoc_template<'a>(
     delim: &'a str,
 ) -> impl ModalParser<Input<'a>, Template, ContextError> {
     move |input: &mut Input<'a>| {
+        // The heredoc is empty if the first line already contains the delimiter.
+        let empty_heredoc = (space0, delim, not(one_of(is_id_continue)));
+        if opt(peek(empty_heredoc)).parse_next(input)?.is_some() {
+            return Ok(Template::new());
+        }
+
         // We'll need to look for a line ending followed by optional space and the heredoc
         // delimiter.
         //
-- 
2.43.0


From c8294b5b815b6c98cfd17a0750bb3011d41b3e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 19/46] fix: hcl-edit: print parse errors in very long lines

---
 crates/hcl-edit/src/parser/error.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-edit/src/parser/error.rs b/crates/hcl-edit/src/parser/error.rs
index 976f2a6..bb8d5f6 100644
--- a/crates/hcl-edit/src/parser/error.rs
+++ b/crates/hcl-edit/src/parser/error.rs
@@ -77,14 +77,15 @@ impl fmt::Display for ErrorInner {
             "{s}--> HCL parse error in line {l}, column {c}\n\
                  {s} |\n\
                  {l} | {line}\n\
-                 {s} | {caret:>c$}---\n\
+                 {s} | {padding}^---\n\
                  {s} |\n\
                  {s} = {message}",
             s = self.spacing(),
             l = self.location.line,
             c = self.location.column,
             line = self.line,
-            caret = '^',
+            // The padding may be wider than what format specs support.
+            padding = " ".repeat(self.location.column.saturating_sub(1)),
             message = self.message,
         )
     }
-- 
2.43.0


From 054816c19caf3f16ad6e1a4f36fbff3ebaf724a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 20/46] fix: hcl-rs: do not add a line to empty heredocs when
 formatting

---
 crates/hcl-rs/src/format/impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/format/impls.rs b/crates/hcl-rs/src/format/impls.rs
index 90a3efe..d408d5a 100644
--- a/crates/hcl-rs/src/format/impls.rs
+++ b/crates/hcl-rs/src/format/impls.rs
@@ -229,7 +229,7 @@ impl Format for Heredoc {
         fmt.write_bytes(b"\n")?;
         fmt.write_string_fragment(&self.template)?;
 
-        if !self.template.ends_with('\n') {
+        if !self.template.is_empty() && !self.template.ends_with('\n') {
             fmt.write_bytes(b"\n")?;
         }
 
-- 
2.43.0


From 9985fac40f6b15e0c2633ca382545397689b534f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 21/46] fix: hcl-edit: count characters in the column of parse
 errors at multi-byte characters

---
 crates/hcl-edit/src/parser/error.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/hcl-edit/src/parser/error.rs b/crates/hcl-edit/src/parser/error.rs
index bb8d5f6..a7d301c 100644
--- a/crates/hcl-edit/src/parser/error.rs
+++ b/crates/hcl-edit/src/parser/error.rs
@@ -129,7 +129,6 @@ fn locate_error<'a>(err: &'a ParseError<Input<'a>, ContextError>) -> (&'a [u8],
         );
     }
     let offset = err.offset().min(input.len() - 1);
-    let column_offset = err.offset() - offset;
 
     // Find the start of the line containing the error.
     let line_begin = input[..offset]
@@ -152,9 +151,9 @@ fn locate_error<'a>(err: &'a ParseError<Input<'a>, ContextError>) -> (&'a [u8],
 
     // The (1-indexed) column number is the offset of the remaining input into that line.
     // This also takes multi-byte unicode characters into account.
-    let column = std::str::from_utf8(&input[line_begin..=offset])
-        .map_or_else(|_| offset - line_begin + 1, |s| s.chars().count())
-        + column_offset;
+    let column = std::str::from_utf8(&input[line_begin..err.offset()])
+        .map_or_else(|_| err.offset() - line_begin, |s| s.chars().count())
+        + 1;
 
     (
         line_context,
-- 
2.43.0


From f50fa06ca8bf9f7cf02c99e6b75426a5bfece837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 22/46] fix: hcl-edit: accept identifiers called for in arrays
 and objects regardless of the whitespace after them

---
 crates/hcl-edit/src/parser/expr.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-edit/src/parser/expr.rs b/crates/hcl-edit/src/parser/expr.rs
index 7d1854a..f868873 100644
--- a/crates/hcl-edit/src/parser/expr.rs
+++ b/crates/hcl-edit/src/parser/expr.rs
@@ -617,7 +617,18 @@ where
         // disambiguate. Otherwise an identifier like `format` will match both the `for` tag
         // and the following identifier which would fail parsing of arrays with identifier/func
         // call elements and objects with those as keys.
-        match peek((ws, "for", one_of(b" \t#/\n"))).parse_next(input) {
+        //
+        // The variable which follows tells it apart from an identifier that happens to be called
+        // `for`, e.g. in `{ for = 1 }`.
+        match peek((
+            ws,
+            "for",
+            peek(one_of(b" \t#/\n")),
+            ws,
+            one_of(is_id_start),
+        ))
+        .parse_next(input)
+        {
             Ok(_) => for_expr_parser.parse_next(input),
             Err(_) => items_parser.parse_next(input),
         }
-- 
2.43.0


From c374b952f9f8ee885cb82e6e4a200397b3ecdb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 23/46] fix: hcl-edit: dedent and indent lines of directives in
 indented heredocs, but not interpolated expressions

---
 crates/hcl-edit/src/encode/mod.rs      | 55 ++++++++++++++++++++++----
 crates/hcl-edit/src/encode/template.rs | 15 ++-----
 crates/hcl-edit/src/template/mod.rs    | 39 ++++++++++++++++--
 crates/hcl-edit/src/util.rs            | 26 ------------
 4 files changed, 86 insertions(+), 49 deletions(-)

diff --git a/crates/hcl-edit/src/encode/mod.rs b/crates/hcl-edit/src/encode/mod.rs
index 1fa57e3..9f1ceaf 100644
--- a/crates/hcl-edit/src/encode/mod.rs
+++ b/crates/hcl-edit/src/encode/mod.rs
@@ -22,39 +22,80 @@ pub(crate) trait Encode {
 pub(crate) struct EncodeState<'a> {
     buf: &'a mut dyn fmt::Write,
     escape: bool,
+    // The indent of the lines of the current template, if it is an indented heredoc.
+    indent: Option<usize>,
+    line_start: bool,
 }
 
 impl<'a> EncodeState<'a> {
     pub fn new(buf: &'a mut dyn fmt::Write) -> EncodeState<'a> {
-        EncodeState { buf, escape: false }
+        EncodeState {
+            buf,
+            escape: false,
+            indent: None,
+            line_start: false,
+        }
     }
 
     pub fn escaped<F>(&mut self, f: F) -> fmt::Result
     where
         F: FnOnce(&mut EncodeState) -> fmt::Result,
     {
-        self.with_escape(true, f)
+        self.with_template(true, None, f)
     }
 
-    pub fn unescaped<F>(&mut self, f: F) -> fmt::Result
+    pub fn unescaped<F>(&mut self, indent: Option<usize>, f: F) -> fmt::Result
     where
         F: FnOnce(&mut EncodeState) -> fmt::Result,
     {
-        self.with_escape(false, f)
+        self.with_template(false, indent, f)
     }
 
-    fn with_escape<F>(&mut self, escape: bool, f: F) -> fmt::Result
+    fn with_template<F>(&mut self, escape: bool, indent: Option<usize>, f: F) -> fmt::Result
     where
         F: FnOnce(&mut EncodeState) -> fmt::Result,
     {
         // Templates can be nested inside each other via interpolations, so the outer state needs
         // to be restored afterwards.
-        let prev = std::mem::replace(&mut self.escape, escape);
+        let prev_escape = std::mem::replace(&mut self.escape, escape);
+        let prev_indent = std::mem::replace(&mut self.indent, indent);
+        let prev_line_start = std::mem::replace(&mut self.line_start, true);
         let result = f(self);
-        self.escape = prev;
+        self.escape = prev_escape;
+        self.indent = prev_indent;
+        self.line_start = prev_line_start;
         result
     }
 
+    /// Writes the literal of a template, indenting its lines if necessary.
+    pub fn write_literal(&mut self, literal: &str) -> fmt::Result {
+        if self.indent.is_none() {
+            return self.write_str(literal);
+        }
+
+        for line in literal.split_inclusive('\n') {
+            if line != "\n" {
+                self.write_indent()?;
+            }
+
+            self.write_str(line)?;
+            self.line_start = line.ends_with('\n');
+        }
+
+        Ok(())
+    }
+
+    /// Writes the indent if the current position is the start of a line of an indented heredoc.
+    pub fn write_indent(&mut self) -> fmt::Result {
+        if let Some(indent) = self.indent {
+            if std::mem::take(&mut self.line_start) {
+                self.write_str(&" ".repeat(indent))?;
+            }
+        }
+
+        Ok(())
+    }
+
     pub fn escape(&self) -> bool {
         self.escape
     }
diff --git a/crates/hcl-edit/src/encode/template.rs b/crates/hcl-edit/src/encode/template.rs
index 7d77c48..86435c0 100644
--- a/crates/hcl-edit/src/encode/template.rs
+++ b/crates/hcl-edit/src/encode/template.rs
@@ -6,7 +6,6 @@ use crate::template::{
     ForTemplateExpr, HeredocTemplate, IfDirective, IfTemplateExpr, Interpolation, StringTemplate,
     Strip, Template,
 };
-use crate::util::indent_by;
 use hcl_primitives::template::escape_markers;
 use std::fmt::{self, Write};
 
@@ -37,16 +36,7 @@ impl Encode for HeredocTemplate {
 
         writeln!(buf, "{}", self.delimiter.as_str())?;
 
-        match self.indent() {
-            Some(n) => {
-                let mut indent_buf = String::new();
-                let mut indent_state = EncodeState::new(&mut indent_buf);
-                self.template.encode(&mut indent_state)?;
-                let indented = indent_by(&indent_buf, n, false);
-                buf.write_str(&indented)?;
-            }
-            None => buf.unescaped(|buf| self.template.encode(buf))?,
-        }
+        buf.unescaped(self.indent(), |buf| self.template.encode(buf))?;
 
         self.trailing().encode_with_default(buf, "")?;
 
@@ -72,7 +62,7 @@ impl Encode for Element {
                 if buf.escape() {
                     encode_escaped(buf, &escaped)
                 } else {
-                    buf.write_str(&escaped)
+                    buf.write_literal(&escaped)
                 }
             }
             Element::Interpolation(interp) => interp.encode(buf),
@@ -180,6 +170,7 @@ fn encode_strip<F>(buf: &mut EncodeState, start_marker: &str, strip: Strip, f: F
 where
     F: FnOnce(&mut EncodeState) -> fmt::Result,
 {
+    buf.write_indent()?;
     buf.write_str(start_marker)?;
     if strip.strip_start() {
         buf.write_char('~')?;
diff --git a/crates/hcl-edit/src/template/mod.rs b/crates/hcl-edit/src/template/mod.rs
index 7ca0487..ed87553 100644
--- a/crates/hcl-edit/src/template/mod.rs
+++ b/crates/hcl-edit/src/template/mod.rs
@@ -404,11 +404,14 @@ impl Template {
     /// Dedents string literals in the template, returning the maximum indent that was stripped,
     /// if any.
     pub(crate) fn dedent(&mut self) -> Option<usize> {
+        let mut parts = Vec::new();
+        self.collect_parts(&mut parts);
+
         let mut indent: Option<usize> = None;
         let mut skip_first_line = false;
 
-        for element in &self.elements {
-            if let Element::Literal(literal) = element {
+        for part in &parts {
+            if let Some(literal) = part {
                 if let Some(leading_ws) = min_leading_whitespace(literal, skip_first_line) {
                     indent = Some(indent.map_or(leading_ws, |indent| indent.min(leading_ws)));
                 }
@@ -423,8 +426,8 @@ impl Template {
         if let Some(indent) = indent.filter(|&indent| indent > 0) {
             skip_first_line = false;
 
-            for element in &mut self.elements {
-                if let Element::Literal(literal) = element {
+            for part in &mut parts {
+                if let Some(literal) = part {
                     let dedented = dedent_by(literal, indent, skip_first_line);
                     *literal.as_mut() = dedented.into_owned();
                     skip_first_line = !literal.ends_with('\n');
@@ -436,6 +439,34 @@ impl Template {
 
         indent
     }
+
+    /// Collects the literals of the template and its directives in source order. Interpolations
+    /// and the markers of directives are represented by `None`.
+    fn collect_parts<'a>(&'a mut self, parts: &mut Vec<Option<&'a mut Spanned<String>>>) {
+        for element in &mut self.elements {
+            match element {
+                Element::Literal(literal) => parts.push(Some(literal)),
+                Element::Interpolation(_) => parts.push(None),
+                Element::Directive(directive) => {
+                    parts.push(None);
+
+                    match directive.as_mut() {
+                        Directive::If(dir) => {
+                            dir.if_expr.template.collect_parts(parts);
+
+                            if let Some(else_expr) = &mut dir.else_expr {
+                                parts.push(None);
+                                else_expr.template.collect_parts(parts);
+                            }
+                        }
+                        Directive::For(dir) => dir.for_expr.template.collect_parts(parts),
+                    }
+
+                    parts.push(None);
+                }
+            }
+        }
+    }
 }
 
 impl PartialEq for Template {
diff --git a/crates/hcl-edit/src/util.rs b/crates/hcl-edit/src/util.rs
index 8ce5c52..d030729 100644
--- a/crates/hcl-edit/src/util.rs
+++ b/crates/hcl-edit/src/util.rs
@@ -52,29 +52,3 @@ pub(crate) fn min_leading_whitespace(s: &str, skip_first: bool) -> Option<usize>
 
     leading_ws
 }
-
-pub(crate) fn indent_by(s: &str, n: usize, skip_first: bool) -> String {
-    let prefix = " ".repeat(n);
-    let length = s.len();
-    let mut output = String::with_capacity(length + length / 2);
-
-    for (i, line) in s.lines().enumerate() {
-        if i > 0 {
-            output.push('\n');
-
-            if !line.is_empty() {
-                output.push_str(&prefix);
-            }
-        } else if !skip_first && !line.is_empty() {
-            output.push_str(&prefix);
-        }
-
-        output.push_str(line);
-    }
-
-    if s.ends_with('\n') {
-        output.push('\n');
-    }
-
-    output
-}
-- 
2.43.0


From d65914309f61364f46770269b6683dfe04b94c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:44 +0000
Subject: [PATCH 24/46] fix: hcl-edit, hcl-rs: separate legacy indices from
 numbers when printing

---
 crates/hcl-edit/src/encode/expr.rs | 12 ++++++++++--
 crates/hcl-rs/src/format/impls.rs  |  9 ++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-edit/src/encode/expr.rs b/crates/hcl-edit/src/encode/expr.rs
index 4066553..db003f8 100644
--- a/crates/hcl-edit/src/encode/expr.rs
+++ b/crates/hcl-edit/src/encode/expr.rs
@@ -260,8 +260,16 @@ impl Encode for Traversal {
     fn encode(&self, buf: &mut EncodeState) -> fmt::Result {
         self.expr.encode_decorated(buf, NO_DECOR)?;
 
-        for operator in &self.operators {
-            operator.encode_decorated(buf, NO_DECOR)?;
+        for (i, operator) in self.operators.iter().enumerate() {
+            // Avoid that a legacy index is mistaken for the fraction of a number.
+            let default_decor = match (&self.expr, operator.value()) {
+                (Expression::Number(_), TraversalOperator::LegacyIndex(_)) if i == 0 => {
+                    LEADING_SPACE_DECOR
+                }
+                _ => NO_DECOR,
+            };
+
+            operator.encode_decorated(buf, default_decor)?;
         }
 
         Ok(())
diff --git a/crates/hcl-rs/src/format/impls.rs b/crates/hcl-rs/src/format/impls.rs
index d408d5a..e9411a9 100644
--- a/crates/hcl-rs/src/format/impls.rs
+++ b/crates/hcl-rs/src/format/impls.rs
@@ -270,7 +270,14 @@ impl Format for Traversal {
         W: io::Write,
     {
         self.expr.format(fmt)?;
-        for operator in &self.operators {
+        for (i, operator) in self.operators.iter().enumerate() {
+            if i == 0
+                && matches!(self.expr, Expression::Number(_))
+                && matches!(operator, TraversalOperator::LegacyIndex(_))
+            {
+                // Avoid that the index is mistaken for the fraction of the number.
+                fmt.write_bytes(b" ")?;
+            }
             operator.format(fmt)?;
         }
         Ok(())
-- 
2.43.0


From 8738c1a69c017d6b5bbc1872d6003c626e778c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 25/46] fix: hcl-edit: report invalid escape sequences after
 other text in strings

---
 crates/hcl-edit/src/parser/string.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-edit/src/parser/string.rs b/crates/hcl-edit/src/parser/string.rs
index 74b89c3..c31ca06 100644
--- a/crates/hcl-edit/src/parser/string.rs
+++ b/crates/hcl-edit/src/parser/string.rs
@@ -7,6 +7,7 @@ use crate::{Decorated, Ident, RawString};
 use hcl_primitives::ident::{is_id_continue, is_id_start};
 use std::borrow::Cow;
 use winnow::combinator::{alt, cut_err, delimited, empty, fail, not, opt, preceded, repeat};
+use winnow::error::ErrMode;
 use winnow::token::{any, one_of, take, take_while};
 
 pub(super) fn string(input: &mut Input) -> ModalResult<String> {
@@ -33,13 +34,19 @@ where
         };
 
         loop {
+            let checkpoint = input.checkpoint();
+
             match fragment_parser.parse_next(input) {
                 Ok(fragment) => match fragment {
                     StringFragment::Literal(s) => string.to_mut().push_str(s),
                     StringFragment::EscapedChar(c) => string.to_mut().push(c),
                     StringFragment::EscapedMarker(m) => string.to_mut().push_str(m.unescape()),
                 },
-                Err(_) => return Ok(string),
+                Err(ErrMode::Backtrack(_)) => {
+                    input.reset(&checkpoint);
+                    return Ok(string);
+                }
+                Err(err) => return Err(err),
             }
         }
     }
-- 
2.43.0


From fea3a56e916f9586207e629fdabd504fb4bfa934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 26/46] fix: hcl-edit: keep empty lines of indented heredocs
 from changing the indentation

---
 crates/hcl-edit/src/encode/mod.rs      | 22 +++++++++++++++-------
 crates/hcl-edit/src/encode/template.rs | 12 ++++++++++--
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/crates/hcl-edit/src/encode/mod.rs b/crates/hcl-edit/src/encode/mod.rs
index 9f1ceaf..b98a4eb 100644
--- a/crates/hcl-edit/src/encode/mod.rs
+++ b/crates/hcl-edit/src/encode/mod.rs
@@ -23,10 +23,18 @@ pub(crate) struct EncodeState<'a> {
     buf: &'a mut dyn fmt::Write,
     escape: bool,
     // The indent of the lines of the current template, if it is an indented heredoc.
-    indent: Option<usize>,
+    indent: Option<Indent>,
     line_start: bool,
 }
 
+/// The indent of the lines of an indented heredoc.
+#[derive(Clone, Copy)]
+pub(crate) struct Indent {
+    pub width: usize,
+    // Whether lines without content are indented as well.
+    pub empty_lines: bool,
+}
+
 impl<'a> EncodeState<'a> {
     pub fn new(buf: &'a mut dyn fmt::Write) -> EncodeState<'a> {
         EncodeState {
@@ -44,14 +52,14 @@ impl<'a> EncodeState<'a> {
         self.with_template(true, None, f)
     }
 
-    pub fn unescaped<F>(&mut self, indent: Option<usize>, f: F) -> fmt::Result
+    pub fn unescaped<F>(&mut self, indent: Option<Indent>, f: F) -> fmt::Result
     where
         F: FnOnce(&mut EncodeState) -> fmt::Result,
     {
         self.with_template(false, indent, f)
     }
 
-    fn with_template<F>(&mut self, escape: bool, indent: Option<usize>, f: F) -> fmt::Result
+    fn with_template<F>(&mut self, escape: bool, indent: Option<Indent>, f: F) -> fmt::Result
     where
         F: FnOnce(&mut EncodeState) -> fmt::Result,
     {
@@ -69,12 +77,12 @@ impl<'a> EncodeState<'a> {
 
     /// Writes the literal of a template, indenting its lines if necessary.
     pub fn write_literal(&mut self, literal: &str) -> fmt::Result {
-        if self.indent.is_none() {
+        let Some(indent) = self.indent else {
             return self.write_str(literal);
-        }
+        };
 
         for line in literal.split_inclusive('\n') {
-            if line != "\n" {
+            if indent.empty_lines || line != "\n" {
                 self.write_indent()?;
             }
 
@@ -89,7 +97,7 @@ impl<'a> EncodeState<'a> {
     pub fn write_indent(&mut self) -> fmt::Result {
         if let Some(indent) = self.indent {
             if std::mem::take(&mut self.line_start) {
-                self.write_str(&" ".repeat(indent))?;
+                self.write_str(&" ".repeat(indent.width))?;
             }
         }
 
diff --git a/crates/hcl-edit/src/encode/template.rs b/crates/hcl-edit/src/encode/template.rs
index 86435c0..3b674eb 100644
--- a/crates/hcl-edit/src/encode/template.rs
+++ b/crates/hcl-edit/src/encode/template.rs
@@ -1,5 +1,6 @@
 use super::{
-    encode_escaped, Encode, EncodeDecorated, EncodeState, BOTH_SPACE_DECOR, LEADING_SPACE_DECOR,
+    encode_escaped, Encode, EncodeDecorated, EncodeState, Indent, BOTH_SPACE_DECOR,
+    LEADING_SPACE_DECOR,
 };
 use crate::template::{
     Directive, Element, ElseTemplateExpr, EndforTemplateExpr, EndifTemplateExpr, ForDirective,
@@ -36,7 +37,14 @@ impl Encode for HeredocTemplate {
 
         writeln!(buf, "{}", self.delimiter.as_str())?;
 
-        buf.unescaped(self.indent(), |buf| self.template.encode(buf))?;
+        let indent = self.indent().map(|width| Indent {
+            width,
+            // If all other lines would still have some indentation in common, it is the empty
+            // lines that prevent it from being stripped off when parsing the template again.
+            empty_lines: width > 0 && self.template.clone().dedent() > Some(0),
+        });
+
+        buf.unescaped(indent, |buf| self.template.encode(buf))?;
 
         self.trailing().encode_with_default(buf, "")?;
 
-- 
2.43.0


From 21fe718ff3e36e119221ab14bd81a1c32fa2729f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 27/46] fix: hcl-rs: keep the indentation of already dedented
 heredocs

---
 crates/hcl-edit/src/template/mod.rs |  3 +++
 crates/hcl-rs/src/expr/edit.rs      | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-edit/src/template/mod.rs b/crates/hcl-edit/src/template/mod.rs
index ed87553..d807005 100644
--- a/crates/hcl-edit/src/template/mod.rs
+++ b/crates/hcl-edit/src/template/mod.rs
@@ -410,6 +410,9 @@ impl Template {
         let mut indent: Option<usize> = None;
         let mut skip_first_line = false;
 
+        // Literals without content are left behind where the indentation was stripped already.
+        parts.retain(|part| part.as_ref().map_or(true, |literal| !literal.is_empty()));
+
         for part in &parts {
             if let Some(literal) = part {
                 if let Some(leading_ws) = min_leading_whitespace(literal, skip_first_line) {
diff --git a/crates/hcl-rs/src/expr/edit.rs b/crates/hcl-rs/src/expr/edit.rs
index becf377..47feee6 100644
--- a/crates/hcl-rs/src/expr/edit.rs
+++ b/crates/hcl-rs/src/expr/edit.rs
@@ -208,9 +208,12 @@ impl From<template::StringTemplate> for TemplateExpr {
 
 impl From<template::HeredocTemplate> for Heredoc {
     fn from(value: template::HeredocTemplate) -> Self {
-        let strip = value
-            .indent()
-            .map_or(HeredocStripMode::None, |_| HeredocStripMode::Indent);
+        // The lines of the template are already dedented. If there is still some indentation in
+        // common that would be stripped off again, it needs to be kept as is.
+        let strip = match value.indent() {
+            Some(_) if is_dedented(&value) => HeredocStripMode::Indent,
+            _ => HeredocStripMode::None,
+        };
 
         Heredoc {
             delimiter: value.delimiter.into(),
@@ -220,6 +223,12 @@ impl From<template::HeredocTemplate> for Heredoc {
     }
 }
 
+fn is_dedented(value: &template::HeredocTemplate) -> bool {
+    let mut dedented = value.clone();
+    dedented.dedent();
+    dedented.template == value.template
+}
+
 impl From<Heredoc> for template::HeredocTemplate {
     fn from(value: Heredoc) -> Self {
         template::HeredocTemplate::new(value.delimiter.into(), template_or_default(value.template))
-- 
2.43.0


From 64a04162fee7d50a60c456b34674dc0b1e1d1489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:10 +0000
Subject: [PATCH 28/46] fix: hcl-edit: keep the key of an object entry whose
 value is updated

---
 crates/hcl-edit/src/expr/object.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-edit/src/expr/object.rs b/crates/hcl-edit/src/expr/object.rs
index 9cbe350..6d5de95 100644
--- a/crates/hcl-edit/src/expr/object.rs
+++ b/crates/hcl-edit/src/expr/object.rs
@@ -1,7 +1,7 @@
 use crate::expr::Expression;
 use crate::{Decor, Decorate, Decorated, Ident, RawString, Span};
 use std::ops::{self, Range};
-use vecmap::map::{MutableKeys, VecMap};
+use vecmap::map::{Entry, MutableKeys, VecMap};
 
 /// An owning iterator over the entries of an `Object`.
 ///
@@ -120,7 +120,13 @@ impl Object {
         key: impl Into<ObjectKey>,
         value: impl Into<ObjectValue>,
     ) -> Option<ObjectValue> {
-        self.items.insert(key.into(), value.into())
+        match self.items.entry(key.into()) {
+            Entry::Occupied(mut entry) => Some(entry.insert(value.into())),
+            Entry::Vacant(entry) => {
+                entry.insert(value.into());
+                None
+            }
+        }
     }
 
     /// Remove the key-value pair equivalent to `key` and return its value.
-- 
2.43.0


From 6095db79696885890fe2cd6406b9791d01d08633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:54 +0000
Subject: [PATCH 29/46] fix: hcl-edit: compare the expansion of function
 arguments

---
 crates/hcl-edit/src/expr/func_call.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/hcl-edit/src/expr/func_call.rs b/crates/hcl-edit/src/expr/func_call.rs
index c4905df..fe7f7e6 100644
--- a/crates/hcl-edit/src/expr/func_call.rs
+++ b/crates/hcl-edit/src/expr/func_call.rs
@@ -254,6 +254,7 @@ impl FuncArgs {
 impl PartialEq for FuncArgs {
     fn eq(&self, other: &Self) -> bool {
         self.args == other.args
+            && self.expand_final == other.expand_final
             && self.trailing_comma == other.trailing_comma
             && self.trailing == other.trailing
     }
-- 
2.43.0


From 4ff9644d732182f08dd178eb5f229baf4064294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:24 +0000
Subject: [PATCH 30/46] fix: do not evaluate the body of a for directive
 outside of its loop

Evaluating a template in place evaluated the body of for directives in the
outer context, where the loop variables are not defined or have other
values.
---
 crates/hcl-rs/src/eval/impls.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-rs/src/eval/impls.rs b/crates/hcl-rs/src/eval/impls.rs
index e9bfd5e..d196945 100644
--- a/crates/hcl-rs/src/eval/impls.rs
+++ b/crates/hcl-rs/src/eval/impls.rs
@@ -269,9 +269,10 @@ impl Evaluate for Template {
                             None => res,
                         }
                     }
-                    Directive::For(dir) => res
-                        .add_errors(dir.collection_expr.evaluate_in_place(ctx))
-                        .add_errors(dir.template.evaluate_in_place(ctx)),
+                    // The template can only be evaluated in the context of a loop iteration.
+                    Directive::For(dir) => {
+                        res.add_errors(dir.collection_expr.evaluate_in_place(ctx))
+                    }
                 },
             })
     }
-- 
2.43.0


From 0d37648bee4c684843b56153b45ba3ec893ce59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:40 +0000
Subject: [PATCH 31/46] fix: evaluate only the taken branch of if directives in
 place

Evaluating a template in place also evaluated the branch which is not taken
and reported its errors, unlike the evaluation of conditionals.
---
 crates/hcl-rs/src/eval/impls.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/crates/hcl-rs/src/eval/impls.rs b/crates/hcl-rs/src/eval/impls.rs
index d196945..49bb930 100644
--- a/crates/hcl-rs/src/eval/impls.rs
+++ b/crates/hcl-rs/src/eval/impls.rs
@@ -251,24 +251,13 @@ impl Evaluate for Template {
         #[allow(clippy::manual_try_fold)]
         self.elements_mut()
             .iter_mut()
-            .fold(Ok(()), |mut res, element| match element {
+            .fold(Ok(()), |res, element| match element {
                 Element::Literal(_) => res,
                 Element::Interpolation(interp) => {
                     res.add_errors(interp.expr.evaluate_in_place(ctx))
                 }
                 Element::Directive(dir) => match &mut **dir {
-                    Directive::If(dir) => {
-                        res = res
-                            .add_errors(dir.cond_expr.evaluate_in_place(ctx))
-                            .add_errors(dir.true_template.evaluate_in_place(ctx));
-
-                        match &mut dir.false_template {
-                            Some(false_template) => {
-                                res.add_errors(false_template.evaluate_in_place(ctx))
-                            }
-                            None => res,
-                        }
-                    }
+                    Directive::If(dir) => res.add_errors(evaluate_if_directive_in_place(dir, ctx)),
                     // The template can only be evaluated in the context of a loop iteration.
                     Directive::For(dir) => {
                         res.add_errors(dir.collection_expr.evaluate_in_place(ctx))
@@ -278,6 +267,21 @@ impl Evaluate for Template {
     }
 }
 
+// Like for conditionals, only the branch which is taken must be evaluated.
+fn evaluate_if_directive_in_place(dir: &mut IfDirective, ctx: &Context) -> EvalResult<(), Errors> {
+    let cond = expr::evaluate_bool(&dir.cond_expr, ctx)?;
+
+    dir.cond_expr = Expression::from(cond);
+
+    if cond {
+        dir.true_template.evaluate_in_place(ctx)
+    } else if let Some(false_template) = &mut dir.false_template {
+        false_template.evaluate_in_place(ctx)
+    } else {
+        Ok(())
+    }
+}
+
 impl private::Sealed for Traversal {}
 
 impl Evaluate for Traversal {
-- 
2.43.0


From 2467797d387d145762f98c48f8960c506ff4bc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:48 +0000
Subject: [PATCH 32/46] fix: do not evaluate operators behind a full splat in
 place

Evaluating `null[*][x]` in place reported an error if the index cannot be
evaluated although there is no element it would be applied to.
---
 crates/hcl-rs/src/eval/impls.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/hcl-rs/src/eval/impls.rs b/crates/hcl-rs/src/eval/impls.rs
index 49bb930..c729e31 100644
--- a/crates/hcl-rs/src/eval/impls.rs
+++ b/crates/hcl-rs/src/eval/impls.rs
@@ -294,9 +294,11 @@ impl Evaluate for Traversal {
     }
 
     fn evaluate_in_place(&mut self, ctx: &Context) -> EvalResult<(), Errors> {
+        // Operators behind a full splat are only evaluated if there are elements to apply them to.
         #[allow(clippy::manual_try_fold)]
         self.operators
             .iter_mut()
+            .take_while(|operator| !matches!(operator, TraversalOperator::FullSplat))
             .fold(Ok(()), |res, operator| match operator {
                 TraversalOperator::Index(expr) => res.add_errors(expr.evaluate_in_place(ctx)),
                 _ => res,
-- 
2.43.0


From 3f098b82aa43c44d4d6fdbb1086c8741752e99c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 33/46] fix: deserialize newtype structs from a value

---
 crates/hcl-rs/src/value/de.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/value/de.rs b/crates/hcl-rs/src/value/de.rs
index 118d682..36e86df 100644
--- a/crates/hcl-rs/src/value/de.rs
+++ b/crates/hcl-rs/src/value/de.rs
@@ -153,9 +153,20 @@ impl<'de> de::Deserializer<'de> for ValueDeserializer {
         }
     }
 
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf unit unit_struct newtype_struct seq tuple
+        bytes byte_buf unit unit_struct seq tuple
         tuple_struct map struct identifier ignored_any
     }
 }
-- 
2.43.0


From d155dbb5fc2bf6cde054cea36c4283b0bc2d1ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:05 +0000
Subject: [PATCH 34/46] fix: deserialize enums used as object keys by their own
 variants

---
 crates/hcl-rs/src/expr/de.rs  | 26 +++++++++++++++++++++++---
 crates/hcl-rs/src/expr/mod.rs |  1 +
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/crates/hcl-rs/src/expr/de.rs b/crates/hcl-rs/src/expr/de.rs
index 55ab0c3..9a08720 100644
--- a/crates/hcl-rs/src/expr/de.rs
+++ b/crates/hcl-rs/src/expr/de.rs
@@ -1090,20 +1090,40 @@ impl<'de> de::Deserializer<'de> for ObjectKey {
     }
 
     fn deserialize_enum<V>(
+        self,
+        name: &'static str,
+        variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        if name == "$hcl::ObjectKey" {
+            return visitor.visit_enum(self);
+        }
+
+        match self {
+            ObjectKey::Identifier(ident) => {
+                visitor.visit_enum(ident.into_inner().into_deserializer())
+            }
+            ObjectKey::Expression(expr) => expr.deserialize_enum(name, variants, visitor),
+        }
+    }
+
+    fn deserialize_newtype_struct<V>(
         self,
         _name: &'static str,
-        _variants: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_enum(self)
+        visitor.visit_newtype_struct(self)
     }
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str
-        string bytes byte_buf option unit unit_struct newtype_struct seq
+        string bytes byte_buf option unit unit_struct seq
         tuple tuple_struct map struct identifier ignored_any
     }
 }
diff --git a/crates/hcl-rs/src/expr/mod.rs b/crates/hcl-rs/src/expr/mod.rs
index 6e76fe1..0961a26 100644
--- a/crates/hcl-rs/src/expr/mod.rs
+++ b/crates/hcl-rs/src/expr/mod.rs
@@ -288,6 +288,7 @@ impl Display for Expression {
 
 /// Represents an object key.
 #[derive(Deserialize, Serialize, Debug, Clone, PartialEq, Eq)]
+#[serde(rename = "$hcl::ObjectKey")]
 #[non_exhaustive]
 pub enum ObjectKey {
     /// Represents an unquoted identifier used as object key.
-- 
2.43.0


From 248b37bb14d123d3fb668c93e798bc23f044e68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:25 +0000
Subject: [PATCH 35/46] fix: serialize structures within expressions by their
 fields

---
 crates/hcl-rs/src/expr/ser/mod.rs      | 14 ++++++-
 crates/hcl-rs/src/structure/mod.rs     |  2 +-
 crates/hcl-rs/src/structure/ser/mod.rs | 53 ++++++++++++++++++++------
 3 files changed, 56 insertions(+), 13 deletions(-)

diff --git a/crates/hcl-rs/src/expr/ser/mod.rs b/crates/hcl-rs/src/expr/ser/mod.rs
index ae2a8b8..8e8e97f 100644
--- a/crates/hcl-rs/src/expr/ser/mod.rs
+++ b/crates/hcl-rs/src/expr/ser/mod.rs
@@ -5,6 +5,7 @@ mod tests;
 
 use super::*;
 use crate::ser::{in_internal_serialization, InternalHandles, SerializeInternalHandleStruct};
+use crate::structure::ser::{STRUCTURE_HANDLES, STRUCTURE_HANDLE_MARKER};
 use crate::Error;
 use serde::ser::{self, Impossible, SerializeMap};
 
@@ -346,6 +347,7 @@ impl ser::SerializeMap for SerializeExpressionMap {
 
 pub(crate) enum SerializeExpressionStruct {
     InternalHandle(SerializeInternalHandleStruct),
+    InternalStructureHandle(SerializeInternalHandleStruct),
     Map(SerializeExpressionMap),
 }
 
@@ -353,6 +355,8 @@ impl SerializeExpressionStruct {
     pub(crate) fn new(name: &'static str, len: usize) -> Self {
         if name == EXPR_HANDLE_MARKER {
             SerializeExpressionStruct::InternalHandle(SerializeInternalHandleStruct::new())
+        } else if name == STRUCTURE_HANDLE_MARKER {
+            SerializeExpressionStruct::InternalStructureHandle(SerializeInternalHandleStruct::new())
         } else {
             SerializeExpressionStruct::Map(SerializeExpressionMap::new(Some(len)))
         }
@@ -368,7 +372,10 @@ impl ser::SerializeStruct for SerializeExpressionStruct {
         T: ?Sized + ser::Serialize,
     {
         match self {
-            SerializeExpressionStruct::InternalHandle(ser) => ser.serialize_field(key, value),
+            SerializeExpressionStruct::InternalHandle(ser)
+            | SerializeExpressionStruct::InternalStructureHandle(ser) => {
+                ser.serialize_field(key, value)
+            }
             SerializeExpressionStruct::Map(ser) => ser.serialize_entry(key, value),
         }
     }
@@ -378,6 +385,11 @@ impl ser::SerializeStruct for SerializeExpressionStruct {
             SerializeExpressionStruct::InternalHandle(ser) => ser
                 .end()
                 .map(|handle| EXPR_HANDLES.with(|eh| eh.remove(handle))),
+            SerializeExpressionStruct::InternalStructureHandle(ser) => {
+                let handle = ser.end()?;
+                let structure = STRUCTURE_HANDLES.with(|sh| sh.remove(handle));
+                structure.serialize_fields(ExpressionSerializer)
+            }
             SerializeExpressionStruct::Map(ser) => ser.end(),
         }
     }
diff --git a/crates/hcl-rs/src/structure/mod.rs b/crates/hcl-rs/src/structure/mod.rs
index 97beb4d..19de73f 100644
--- a/crates/hcl-rs/src/structure/mod.rs
+++ b/crates/hcl-rs/src/structure/mod.rs
@@ -52,7 +52,7 @@ pub(crate) mod de;
 mod edit;
 pub mod iter;
 mod json_spec;
-mod ser;
+pub(crate) mod ser;
 #[cfg(test)]
 mod tests;
 
diff --git a/crates/hcl-rs/src/structure/ser/mod.rs b/crates/hcl-rs/src/structure/ser/mod.rs
index e796bc7..2db7552 100644
--- a/crates/hcl-rs/src/structure/ser/mod.rs
+++ b/crates/hcl-rs/src/structure/ser/mod.rs
@@ -18,10 +18,22 @@ use crate::{Error, Expression, Identifier, ObjectKey, Result};
 use serde::ser::{self, Serialize, SerializeMap, SerializeStruct};
 use std::fmt;
 
-const STRUCTURE_HANDLE_MARKER: &str = "\x00$hcl::StructureHandle";
+pub(crate) const STRUCTURE_HANDLE_MARKER: &str = "\x00$hcl::StructureHandle";
 
 thread_local! {
-    static STRUCTURE_HANDLES: InternalHandles<Structure> = InternalHandles::new(STRUCTURE_HANDLE_MARKER);
+    pub(crate) static STRUCTURE_HANDLES: InternalHandles<Structure> = InternalHandles::new(STRUCTURE_HANDLE_MARKER);
+}
+
+impl Attribute {
+    fn serialize_fields<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: ser::Serializer,
+    {
+        let mut s = serializer.serialize_struct("Attribute", 2)?;
+        s.serialize_field("key", &self.key)?;
+        s.serialize_field("expr", &self.expr)?;
+        s.end()
+    }
 }
 
 impl ser::Serialize for Attribute {
@@ -32,14 +44,24 @@ impl ser::Serialize for Attribute {
         if in_internal_serialization() {
             STRUCTURE_HANDLES.with(|sh| sh.serialize(self.clone(), serializer))
         } else {
-            let mut s = serializer.serialize_struct("Attribute", 2)?;
-            s.serialize_field("key", &self.key)?;
-            s.serialize_field("expr", &self.expr)?;
-            s.end()
+            self.serialize_fields(serializer)
         }
     }
 }
 
+impl Block {
+    fn serialize_fields<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: ser::Serializer,
+    {
+        let mut s = serializer.serialize_struct("Block", 3)?;
+        s.serialize_field("identifier", &self.identifier)?;
+        s.serialize_field("labels", &self.labels)?;
+        s.serialize_field("body", &self.body)?;
+        s.end()
+    }
+}
+
 impl ser::Serialize for Block {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
     where
@@ -48,11 +70,20 @@ impl ser::Serialize for Block {
         if in_internal_serialization() {
             STRUCTURE_HANDLES.with(|sh| sh.serialize(self.clone(), serializer))
         } else {
-            let mut s = serializer.serialize_struct("Block", 3)?;
-            s.serialize_field("identifier", &self.identifier)?;
-            s.serialize_field("labels", &self.labels)?;
-            s.serialize_field("body", &self.body)?;
-            s.end()
+            self.serialize_fields(serializer)
+        }
+    }
+}
+
+impl Structure {
+    /// Serializes the fields of the structure without creating an internal handle for it.
+    pub(crate) fn serialize_fields<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: ser::Serializer,
+    {
+        match self {
+            Structure::Attribute(attr) => attr.serialize_fields(serializer),
+            Structure::Block(block) => block.serialize_fields(serializer),
         }
     }
 }
-- 
2.43.0


From c3f287e4696051d09c22413e95a4454349087f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:48 +0000
Subject: [PATCH 36/46] fix: wrap expressions and bodies in blocks by their
 contents

---
 crates/hcl-rs/src/structure/ser/mod.rs | 151 ++++++++++++++++---------
 1 file changed, 99 insertions(+), 52 deletions(-)

diff --git a/crates/hcl-rs/src/structure/ser/mod.rs b/crates/hcl-rs/src/structure/ser/mod.rs
index 2db7552..70cb813 100644
--- a/crates/hcl-rs/src/structure/ser/mod.rs
+++ b/crates/hcl-rs/src/structure/ser/mod.rs
@@ -9,6 +9,7 @@ use crate::expr::ser::{
     SerializeExpressionStructVariant, SerializeExpressionTupleVariant, EXPR_HANDLES,
     EXPR_HANDLE_MARKER,
 };
+use crate::expr::Object;
 use crate::ser::{
     blocks::{BLOCK_MARKER, LABELED_BLOCK_MARKER},
     in_internal_serialization, IdentifierSerializer, InternalHandles,
@@ -374,37 +375,46 @@ impl ser::SerializeStruct for SerializeBodyStruct {
             SerializeBodyStruct::InternalExprHandle(ser) => {
                 let handle = ser.end()?;
 
-                match EXPR_HANDLES.with(|sh| sh.remove(handle)) {
-                    Expression::Object(object) => {
-                        let attrs = object
-                            .into_iter()
-                            .map(|(key, value)| {
-                                let key = match key {
-                                    ObjectKey::Identifier(ident) => ident,
-                                    ObjectKey::Expression(Expression::String(s)) => s.into(),
-                                    ObjectKey::Expression(expr) => {
-                                        return Err(ser::Error::custom(format!(
-                                            "encountered invalid HCL attribute key `{expr}`",
-                                        )))
-                                    }
-                                };
-
-                                Ok(Attribute::new(key, value))
-                            })
-                            .collect::<Result<Vec<_>>>()?;
-
-                        Ok(attrs.into())
-                    }
-                    _ => Err(ser::Error::custom(
-                        "non-object HCL expressions are not permitted in this context",
-                    )),
-                }
+                expr_into_body(EXPR_HANDLES.with(|eh| eh.remove(handle)))
             }
             SerializeBodyStruct::Map(ser) => ser.end(),
         }
     }
 }
 
+fn expr_into_body(expr: Expression) -> Result<Body> {
+    expr_into_object(expr)?
+        .into_iter()
+        .map(|(key, value)| {
+            let key = match key {
+                ObjectKey::Identifier(ident) => ident,
+                key => object_key_into_string(key)?.into(),
+            };
+
+            Ok(Attribute::new(key, value))
+        })
+        .collect()
+}
+
+fn expr_into_object(expr: Expression) -> Result<Object<ObjectKey, Expression>> {
+    match expr {
+        Expression::Object(object) => Ok(object),
+        _ => Err(ser::Error::custom(
+            "non-object HCL expressions are not permitted in this context",
+        )),
+    }
+}
+
+fn object_key_into_string(key: ObjectKey) -> Result<String> {
+    match key {
+        ObjectKey::Identifier(ident) => Ok(ident.into_inner()),
+        ObjectKey::Expression(Expression::String(s)) => Ok(s),
+        ObjectKey::Expression(expr) => Err(ser::Error::custom(format!(
+            "encountered invalid HCL attribute key `{expr}`",
+        ))),
+    }
+}
+
 pub(crate) struct SerializeBodyStructVariant {
     ident: Identifier,
     structures: Vec<Structure>,
@@ -869,6 +879,11 @@ impl ser::Serializer for BlockSerializer {
     {
         if name == LABELED_BLOCK_MARKER {
             LabeledBlockSerializer::new(self.ident).serialize_newtype_struct(name, value)
+        } else if name == "$hcl::Body" {
+            Ok(Block::builder(self.ident)
+                .add_structures(value.serialize(BodySerializer)?)
+                .build()
+                .into())
         } else {
             value.serialize(self)
         }
@@ -914,8 +929,8 @@ impl ser::Serializer for BlockSerializer {
         Ok(SerializeBlockMap::new(self.ident, len))
     }
 
-    fn serialize_struct(self, _name: &'static str, len: usize) -> Result<Self::SerializeStruct> {
-        Ok(SerializeBlockStruct::new(self.ident, len))
+    fn serialize_struct(self, name: &'static str, len: usize) -> Result<Self::SerializeStruct> {
+        Ok(SerializeBlockStruct::new(self.ident, name, len))
     }
 
     fn serialize_struct_variant(
@@ -1060,14 +1075,14 @@ impl ser::SerializeMap for SerializeBlockMap {
 
 pub(crate) struct SerializeBlockStruct {
     ident: Identifier,
-    structures: Vec<Structure>,
+    inner: SerializeBodyStruct,
 }
 
 impl SerializeBlockStruct {
-    fn new(ident: Identifier, len: usize) -> Self {
+    fn new(ident: Identifier, name: &'static str, len: usize) -> Self {
         SerializeBlockStruct {
             ident,
-            structures: Vec::with_capacity(len),
+            inner: SerializeBodyStruct::new(name, len),
         }
     }
 }
@@ -1080,18 +1095,16 @@ impl ser::SerializeStruct for SerializeBlockStruct {
     where
         T: ?Sized + ser::Serialize,
     {
-        let ident = Identifier::new(key)?;
-
-        self.structures
-            .extend(value.serialize(StructureSerializer::new(ident))?);
-        Ok(())
+        self.inner.serialize_field(key, value)
     }
 
     fn end(self) -> Result<Self::Ok> {
-        Ok(Block::builder(self.ident)
-            .add_structures(self.structures)
-            .build()
-            .into())
+        self.inner.end().map(|body| {
+            Block::builder(self.ident)
+                .add_structures(body)
+                .build()
+                .into()
+        })
     }
 }
 
@@ -1206,8 +1219,8 @@ impl ser::Serializer for LabeledBlockSerializer {
         Ok(SerializeLabeledBlockMap::new(self.ident, len))
     }
 
-    fn serialize_struct(self, _name: &'static str, len: usize) -> Result<Self::SerializeStruct> {
-        Ok(SerializeLabeledBlockStruct::new(self.ident, len))
+    fn serialize_struct(self, name: &'static str, len: usize) -> Result<Self::SerializeStruct> {
+        Ok(SerializeLabeledBlockStruct::new(self.ident, name, len))
     }
 
     fn serialize_struct_variant(
@@ -1342,16 +1355,25 @@ impl ser::SerializeMap for SerializeLabeledBlockMap {
     }
 }
 
-pub(crate) struct SerializeLabeledBlockStruct {
-    ident: Identifier,
-    structures: Vec<Structure>,
+pub(crate) enum SerializeLabeledBlockStruct {
+    InternalStructureHandle(SerializeInternalHandleStruct),
+    InternalExprHandle(Identifier, SerializeInternalHandleStruct),
+    Map(SerializeLabeledBlockMap),
 }
 
 impl SerializeLabeledBlockStruct {
-    fn new(ident: Identifier, len: usize) -> Self {
-        SerializeLabeledBlockStruct {
-            ident,
-            structures: Vec::with_capacity(len),
+    fn new(ident: Identifier, name: &'static str, len: usize) -> Self {
+        if name == STRUCTURE_HANDLE_MARKER {
+            SerializeLabeledBlockStruct::InternalStructureHandle(
+                SerializeInternalHandleStruct::new(),
+            )
+        } else if name == EXPR_HANDLE_MARKER {
+            SerializeLabeledBlockStruct::InternalExprHandle(
+                ident,
+                SerializeInternalHandleStruct::new(),
+            )
+        } else {
+            SerializeLabeledBlockStruct::Map(SerializeLabeledBlockMap::new(ident, Some(len)))
         }
     }
 }
@@ -1364,13 +1386,38 @@ impl ser::SerializeStruct for SerializeLabeledBlockStruct {
     where
         T: ?Sized + ser::Serialize,
     {
-        serialize_labeled_blocks(self.ident.clone(), value, &mut self.structures, |labels| {
-            labels.insert(0, key.into());
-        })
+        match self {
+            SerializeLabeledBlockStruct::Map(ser) => ser.serialize_entry(key, value),
+            SerializeLabeledBlockStruct::InternalStructureHandle(ser)
+            | SerializeLabeledBlockStruct::InternalExprHandle(_, ser) => {
+                ser.serialize_field(key, value)
+            }
+        }
     }
 
     fn end(self) -> Result<Self::Ok> {
-        Ok(self.structures.into())
+        match self {
+            SerializeLabeledBlockStruct::InternalStructureHandle(ser) => {
+                let handle = ser.end()?;
+                STRUCTURE_HANDLES.with(|sh| sh.remove(handle));
+
+                Err(ser::Error::custom(
+                    "HCL structures are not permitted in this context",
+                ))
+            }
+            SerializeLabeledBlockStruct::InternalExprHandle(ident, ser) => {
+                let handle = ser.end()?;
+                let object = expr_into_object(EXPR_HANDLES.with(|eh| eh.remove(handle)))?;
+                let mut map = SerializeLabeledBlockMap::new(ident, Some(object.len()));
+
+                for (key, value) in object {
+                    map.serialize_entry(&object_key_into_string(key)?, &value)?;
+                }
+
+                map.end()
+            }
+            SerializeLabeledBlockStruct::Map(ser) => ser.end(),
+        }
     }
 }
 
-- 
2.43.0


From 8b9c42f98673e9ca5b20e212b413991e807231f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:06 +0000
Subject: [PATCH 37/46] fix: reject object keys of expressions which are no
 valid attribute keys

---
 crates/hcl-rs/src/structure/ser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/structure/ser/mod.rs b/crates/hcl-rs/src/structure/ser/mod.rs
index 70cb813..639435c 100644
--- a/crates/hcl-rs/src/structure/ser/mod.rs
+++ b/crates/hcl-rs/src/structure/ser/mod.rs
@@ -388,7 +388,7 @@ fn expr_into_body(expr: Expression) -> Result<Body> {
         .map(|(key, value)| {
             let key = match key {
                 ObjectKey::Identifier(ident) => ident,
-                key => object_key_into_string(key)?.into(),
+                key => Identifier::new(object_key_into_string(key)?)?,
             };
 
             Ok(Attribute::new(key, value))
-- 
2.43.0


From bcfa44773cf9e85deb5dd1552f00ae296e432af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:20 +0000
Subject: [PATCH 38/46] fix: do not silently skip files whose metadata cannot
 be read

---
 crates/hcl2json/src/main.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/crates/hcl2json/src/main.rs b/crates/hcl2json/src/main.rs
index dfe4b92..def0d80 100644
--- a/crates/hcl2json/src/main.rs
+++ b/crates/hcl2json/src/main.rs
@@ -191,9 +191,27 @@ fn write_json<W: Write>(mut writer: W, value: &Value, args: &Args) -> Result<()>
 
 fn glob_files(matcher: &GlobMatcher, dir: &Path, paths: &mut Vec<PathBuf>) -> Result<()> {
     for entry in walkdir::WalkDir::new(dir).sort_by_file_name() {
-        let path = entry?.into_path();
+        let entry = entry?;
 
-        if path.is_file() && matcher.is_match(&path) {
+        if !matcher.is_match(entry.path()) {
+            continue;
+        }
+
+        let file_type = entry.file_type();
+        let path = entry.into_path();
+
+        let is_file = if file_type.is_symlink() {
+            // Links leading nowhere are not considered. Any other error surfaces as soon as the
+            // file is opened.
+            path.metadata().map_or_else(
+                |err| err.kind() != io::ErrorKind::NotFound,
+                |metadata| metadata.is_file(),
+            )
+        } else {
+            file_type.is_file()
+        };
+
+        if is_file {
             paths.push(path);
         }
     }
-- 
2.43.0


From 5dfe8ddde22b9ac93c6d2a4116d18a2c11724f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:21 +0000
Subject: [PATCH 39/46] fix: keep walking a directory after an error if errors
 are to be ignored

---
 crates/hcl2json/src/main.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/crates/hcl2json/src/main.rs b/crates/hcl2json/src/main.rs
index def0d80..f9bbc3a 100644
--- a/crates/hcl2json/src/main.rs
+++ b/crates/hcl2json/src/main.rs
@@ -93,16 +93,7 @@ fn main() -> Result<()> {
                     .build()?
                     .compile_matcher();
 
-                if let Err(err) = glob_files(&matcher, path, &mut paths) {
-                    if !args.continue_on_error {
-                        return Err(err);
-                    }
-
-                    eprintln!(
-                        "Warning: directory `{}` ignored due to errors: {err}",
-                        path.display()
-                    );
-                }
+                glob_files(&matcher, path, &mut paths, &args)?;
             } else {
                 paths.push(path.clone());
             }
@@ -189,9 +180,27 @@ fn write_json<W: Write>(mut writer: W, value: &Value, args: &Args) -> Result<()>
     Ok(())
 }
 
-fn glob_files(matcher: &GlobMatcher, dir: &Path, paths: &mut Vec<PathBuf>) -> Result<()> {
+fn glob_files(
+    matcher: &GlobMatcher,
+    dir: &Path,
+    paths: &mut Vec<PathBuf>,
+    args: &Args,
+) -> Result<()> {
     for entry in walkdir::WalkDir::new(dir).sort_by_file_name() {
-        let entry = entry?;
+        let entry = match entry {
+            Ok(entry) => entry,
+            Err(err) if args.continue_on_error => {
+                eprintln!(
+                    "Warning: path `{}` ignored due to errors: {err}",
+                    err.path().unwrap_or(dir).display()
+                );
+                continue;
+            }
+            Err(err) => {
+                return Err(err)
+                    .with_context(|| anyhow!("failed to read directory `{}`", dir.display()));
+            }
+        };
 
         if !matcher.is_match(entry.path()) {
             continue;
-- 
2.43.0


From 1e9c8e85f219fdb4792e7dddf88283b4cd783d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:21 +0000
Subject: [PATCH 40/46] fix: take directory arguments literally when matching
 files

---
 crates/hcl2json/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/hcl2json/src/main.rs b/crates/hcl2json/src/main.rs
index f9bbc3a..c08d97f 100644
--- a/crates/hcl2json/src/main.rs
+++ b/crates/hcl2json/src/main.rs
@@ -86,7 +86,9 @@ fn main() -> Result<()> {
                     bail!("--glob is required if directory arguments are specified")
                 };
 
-                let path_pattern = path.join(pattern);
+                // Only the pattern is a glob, the directory is to be taken literally.
+                let dir_pattern = globset::escape(&path.to_string_lossy());
+                let path_pattern = Path::new(&dir_pattern).join(pattern);
 
                 let matcher = GlobBuilder::new(&path_pattern.to_string_lossy())
                     .literal_separator(true)
-- 
2.43.0


From 3d063a48dac93ceac4d02a5603f4c8017615da80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:21 +0000
Subject: [PATCH 41/46] fix: do not panic if a warning cannot be written

---
 crates/hcl2json/src/main.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/hcl2json/src/main.rs b/crates/hcl2json/src/main.rs
index c08d97f..2431c00 100644
--- a/crates/hcl2json/src/main.rs
+++ b/crates/hcl2json/src/main.rs
@@ -118,10 +118,7 @@ fn bulk_convert<W: Write>(paths: &[PathBuf], writer: W, args: &Args) -> Result<(
         iter.filter_map(|path| match process_file(path, args) {
             Ok(result) => Some(result),
             Err(err) => {
-                eprintln!(
-                    "Warning: file `{}` ignored due to errors: {err}",
-                    path.display()
-                );
+                warn_ignored("file", path, &err);
                 None
             }
         })
@@ -192,10 +189,7 @@ fn glob_files(
         let entry = match entry {
             Ok(entry) => entry,
             Err(err) if args.continue_on_error => {
-                eprintln!(
-                    "Warning: path `{}` ignored due to errors: {err}",
-                    err.path().unwrap_or(dir).display()
-                );
+                warn_ignored("path", err.path().unwrap_or(dir), &err);
                 continue;
             }
             Err(err) => {
@@ -229,3 +223,12 @@ fn glob_files(
 
     Ok(())
 }
+
+fn warn_ignored(kind: &str, path: &Path, err: &dyn std::fmt::Display) {
+    // A failure to write the warning must not affect the files which can be processed.
+    _ = writeln!(
+        io::stderr(),
+        "Warning: {kind} `{}` ignored due to errors: {err}",
+        path.display()
+    );
+}
-- 
2.43.0


From 46c966297d23b6c23652433c5b0eac0c3623d079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:59 +0000
Subject: [PATCH 42/46] fix: hcl-rs: keep the strip mode of heredocs when
 converting them for editing

---
 crates/hcl-rs/src/expr/edit.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/expr/edit.rs b/crates/hcl-rs/src/expr/edit.rs
index 47feee6..d20619f 100644
--- a/crates/hcl-rs/src/expr/edit.rs
+++ b/crates/hcl-rs/src/expr/edit.rs
@@ -231,7 +231,16 @@ fn is_dedented(value: &template::HeredocTemplate) -> bool {
 
 impl From<Heredoc> for template::HeredocTemplate {
     fn from(value: Heredoc) -> Self {
-        template::HeredocTemplate::new(value.delimiter.into(), template_or_default(value.template))
+        let mut heredoc = template::HeredocTemplate::new(
+            value.delimiter.into(),
+            template_or_default(value.template),
+        );
+
+        if value.strip == HeredocStripMode::Indent {
+            heredoc.dedent();
+        }
+
+        heredoc
     }
 }
 
-- 
2.43.0


From 3694900ec84be1dce669a9da39ae1305deb60068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:41 +0000
Subject: [PATCH 43/46] fix: hcl-edit: do not print the old representation of a
 number whose value was changed

---
 crates/hcl-edit/src/repr.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/hcl-edit/src/repr.rs b/crates/hcl-edit/src/repr.rs
index 176afb2..a7a626a 100644
--- a/crates/hcl-edit/src/repr.rs
+++ b/crates/hcl-edit/src/repr.rs
@@ -428,7 +428,11 @@ impl<T> Formatted<T> {
     }
 
     /// Returns a mutable reference to the wrapped value.
+    ///
+    /// This discards the raw string representation of the value as it does not represent the
+    /// value anymore once that is changed.
     pub fn value_mut(&mut self) -> &mut T {
+        self.repr = None;
         &mut self.value
     }
 
-- 
2.43.0


From c185d1d821ba4f0ec4aecad89cfdbe53b2ccd40e Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:36:00 +0000
Subject: [PATCH 44/46] fix: hcl-primitives: is_i64 is true for every number
 that is an i64

---
 crates/hcl-primitives/src/number.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/hcl-primitives/src/number.rs b/crates/hcl-primitives/src/number.rs
index 881d4f3..ecb2a6c 100644
--- a/crates/hcl-primitives/src/number.rs
+++ b/crates/hcl-primitives/src/number.rs
@@ -100,10 +100,7 @@ impl N {
     }
 
     fn is_i64(&self) -> bool {
-        match self {
-            N::NegInt(_) => true,
-            N::PosInt(_) | N::Float(_) => false,
-        }
+        self.as_i64().is_some()
     }
 
     fn is_u64(&self) -> bool {
-- 
2.43.0


From 2e87512027ef962f1e47000a1d295863804ed5bb Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:36:41 +0000
Subject: [PATCH 45/46] fix: hcl-rs: serialize every object key of an
 expression object

A map with `ObjectKey` keys could not be serialized if one of them was an
expression, and identifiers became strings.
---
 crates/hcl-rs/src/expr/ser/mod.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/crates/hcl-rs/src/expr/ser/mod.rs b/crates/hcl-rs/src/expr/ser/mod.rs
index 8e8e97f..bcafe2b 100644
--- a/crates/hcl-rs/src/expr/ser/mod.rs
+++ b/crates/hcl-rs/src/expr/ser/mod.rs
@@ -4,11 +4,16 @@
 mod tests;
 
 use super::*;
-use crate::ser::{in_internal_serialization, InternalHandles, SerializeInternalHandleStruct};
+use crate::ser::{
+    in_internal_serialization, InternalHandles, SerializeInternalHandleStruct, StringSerializer,
+};
 use crate::structure::ser::{STRUCTURE_HANDLES, STRUCTURE_HANDLE_MARKER};
 use crate::Error;
 use serde::ser::{self, Impossible, SerializeMap};
 
+/// The name under which an `ObjectKey` is serialized.
+const OBJECT_KEY_NAME: &str = "$hcl::ObjectKey";
+
 pub(crate) const EXPR_HANDLE_MARKER: &str = "\x00$hcl::ExprHandle";
 
 thread_local! {
@@ -448,7 +453,28 @@ impl ser::Serializer for ObjectKeySerializer {
         seq tuple tuple_struct tuple_variant map struct struct_variant
     }
 
-    serialize_self! { some newtype_struct newtype_variant }
+    serialize_self! { some newtype_struct }
+
+    fn serialize_newtype_variant<T>(
+        self,
+        name: &'static str,
+        _variant_index: u32,
+        variant: &'static str,
+        value: &T,
+    ) -> Result<Self::Ok>
+    where
+        T: ?Sized + ser::Serialize,
+    {
+        match (name, variant) {
+            (OBJECT_KEY_NAME, "Identifier") => value
+                .serialize(StringSerializer)
+                .map(|ident| ObjectKey::Identifier(Identifier::unchecked(ident))),
+            (OBJECT_KEY_NAME, "Expression") => value
+                .serialize(ExpressionSerializer)
+                .map(ObjectKey::Expression),
+            _ => value.serialize(self),
+        }
+    }
 
     fn serialize_i8(self, value: i8) -> Result<Self::Ok> {
         Ok(ObjectKey::from(value))
-- 
2.43.0


From 9f9d0198e1c070558f9e81bb3ace6d77df2070f1 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:37:00 +0000
Subject: [PATCH 46/46] fix: hcl-rs: serialize objects in expressions with
 plain keys

Serializing an expression that contains an object to another data format
(e.g. JSON), or to a value, failed because its keys were serialized as enum.
---
 crates/hcl-rs/src/expr/ser/mod.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/crates/hcl-rs/src/expr/ser/mod.rs b/crates/hcl-rs/src/expr/ser/mod.rs
index bcafe2b..51995a3 100644
--- a/crates/hcl-rs/src/expr/ser/mod.rs
+++ b/crates/hcl-rs/src/expr/ser/mod.rs
@@ -69,7 +69,9 @@ impl ser::Serialize for Expression {
             Expression::Number(num) => num.serialize(serializer),
             Expression::String(s) => serializer.serialize_str(s),
             Expression::Array(array) => array.serialize(serializer),
-            Expression::Object(object) => object.serialize(serializer),
+            Expression::Object(object) => {
+                serializer.collect_map(object.iter().map(|(key, expr)| (MapKey(key), expr)))
+            }
             Expression::Parenthesis(expr) => expr.serialize(serializer),
             Expression::TemplateExpr(expr) => expr.serialize(serializer),
             Expression::FuncCall(func_call) => func_call.serialize(serializer),
@@ -82,6 +84,22 @@ impl ser::Serialize for Expression {
     }
 }
 
+/// Serializes an object key as what it denotes instead of as an enum, which cannot be used as map
+/// key in other data formats.
+struct MapKey<'a>(&'a ObjectKey);
+
+impl ser::Serialize for MapKey<'_> {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: ser::Serializer,
+    {
+        match self.0 {
+            ObjectKey::Identifier(ident) => ident.serialize(serializer),
+            ObjectKey::Expression(expr) => expr.serialize(serializer),
+        }
+    }
+}
+
 pub(crate) struct ExpressionSerializer;
 
 impl ser::Serializer for ExpressionSerializer {
-- 
2.43.0

