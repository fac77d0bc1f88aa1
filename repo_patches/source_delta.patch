From 1d85f5ab9fca19cde7cbb5528db4b77350b20d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:16 +0000
Subject: [PATCH 01/20] fix: keep the character before a tuple whose name is
 not shown

Formatting a named tuple with its name switched off removed the last
character already written, for example the space after a field's equals
sign or the opening bracket of the enclosing value.
---
 src/fmt/tuples.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmt/tuples.rs b/src/fmt/tuples.rs
index 52f896a..d4e3b4a 100644
--- a/src/fmt/tuples.rs
+++ b/src/fmt/tuples.rs
@@ -7,7 +7,7 @@ pub(super) fn write(buf: String, node: Node, fmts: &[Fmt], col: usize, seq: SeqI
 
     let prefix = |mut buf| {
         maybe_write_nonprim_ident(&mut buf, fmt.id, id);
-        if id.is_some() {
+        if fmt.id && id.is_some() {
             buf.pop();
         }
         buf.push('(');
-- 
2.43.0


From dabd1eb82b4b92083542aadb052bf22cb7b055b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:16 +0000
Subject: [PATCH 02/20] fix: tell inline values apart from names and field
 headers when parsing

Three kinds of formatted text were not read back:
- names that only begin with true or false
- string literals with an equals sign in them
- one element sequences such as [true] and [[1, 2]]
---
 src/parse/cntr.rs       |  4 +++-
 src/parse/heuristics.rs | 45 +++++++++++++++++++++++++++++++++++------
 src/parse/mod.rs        |  2 +-
 3 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/src/parse/cntr.rs b/src/parse/cntr.rs
index e1bcce3..2bce20b 100644
--- a/src/parse/cntr.rs
+++ b/src/parse/cntr.rs
@@ -287,7 +287,9 @@ fn verbose_cntr_field<'a, E: CxErr<'a>>(
     }
 }
 
-fn expect_indents<'a, E: CxErr<'a>>(indents: usize) -> impl Fn(&'a str) -> IResult<&'a str, (), E> {
+pub(super) fn expect_indents<'a, E: CxErr<'a>>(
+    indents: usize,
+) -> impl Fn(&'a str) -> IResult<&'a str, (), E> {
     move |i: &'a str| {
         let mut r = i;
 
diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index e69c49e..48f3f32 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -22,8 +22,10 @@ pub(super) fn pattern_match_delimited<'a, E: CxErr<'a>>(
         None,
     }
 
-    if orig.starts_with("true") || orig.starts_with("false") {
-        return Ok((orig, Nonprim::None));
+    if let Ok((_, name)) = valid_name::<()>(orig) {
+        if &*name == "true" || &*name == "false" {
+            return Ok((orig, Nonprim::None));
+        }
     }
 
     let (i, ident_) = opt(ident(true))(orig)?;
@@ -67,7 +69,10 @@ pub(super) fn pattern_match_delimited<'a, E: CxErr<'a>>(
 
 /// This only matches `Verbose` variants, returning true if it looks like a `Verbose` formatting.
 /// _Always_ returns the original input.
-pub(super) fn pattern_match_verbose<'a, E: CxErr<'a>>(orig: &'a str) -> IResult<&'a str, bool, E> {
+pub(super) fn pattern_match_verbose<'a, E: CxErr<'a>>(
+    orig: &'a str,
+    indents: usize,
+) -> IResult<&'a str, bool, E> {
     let (i, _) = multiline_whitespace(orig)?; // ignore _all_ whitespace before hand
 
     // generally a Verbose format can be recognised by:
@@ -86,14 +91,29 @@ pub(super) fn pattern_match_verbose<'a, E: CxErr<'a>>(orig: &'a str) -> IResult<
         .is_ok()
     };
 
+    // the indent is always from the start of the line
+    let indent = orig[..orig.len() - i.len()].rsplit('\n').next();
+    let indented = cntr::expect_indents::<()>(indents)(indent.unwrap_or("")).is_ok();
+
     let is = i.starts_with(':');
-    let is = is || i.starts_with("[[");
     let is = is || recognise_field_assign(i);
-    let is = is || encased("[", "]");
+    let is = is
+        || ((i.starts_with("[[") || encased("[", "]"))
+            && !(recognise_inline_seq(i) && !(indented && recognise_following_line(i))));
 
     Ok((orig, is))
 }
 
+/// Recognise an inline sequence, something like `[true]` or `[[1, 2]]` also looks like a field.
+fn recognise_inline_seq(i: &str) -> bool {
+    kserd_inline::<()>(i).is_ok()
+}
+
+/// Recognise that there is something on the lines after the first one.
+fn recognise_following_line(i: &str) -> bool {
+    i.lines().skip(1).any(|l| !l.trim().is_empty())
+}
+
 /// Looks at the next characters, ignoring spaces. If there is a a new line before
 /// other characters then we say that this is in `Concise` format.
 pub(super) fn recognise_concise(i: &str) -> bool {
@@ -107,13 +127,26 @@ pub(super) fn recognise_concise(i: &str) -> bool {
 
 /// Recognises the sequence: `field_name =`.
 pub(super) fn recognise_field_assign(i: &str) -> bool {
+    // a string literal might contain an '=', it does not make it a field
+    if recognise_str_literal(i) {
+        return false;
+    }
+
     // maybe_names is a litle more relaxed than field_name so it can recognise but still fail
-    let not = "<>(){}='\"\r\n";
+    let not = "<>(){}[,='\"\r\n";
     let maybe_names =
         take_while::<_, _, ()>(move |c: char| c.is_ascii_alphanumeric() || !not.contains(c));
     terminated(maybe_names, char('='))(i).is_ok()
 }
 
+/// Recognise a string with a custom delimiter (`str#..#`), a field could be called `str` (`str = 1`).
+fn recognise_str_literal(i: &str) -> bool {
+    i.strip_prefix("str")
+        .and_then(|i| i.chars().next())
+        .map(|c| !c.is_ascii_alphanumeric() && !"-_= \t\r\n".contains(c))
+        .unwrap_or(false)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 6858271..78551f9 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -93,7 +93,7 @@ fn kserd_nested<'a, E: CxErr<'a>>(
     indents: usize,
 ) -> impl Fn(&'a str) -> IResult<&'a str, Kserd<'a>, E> {
     move |i: &'a str| {
-        let (i, verbose) = pattern_match_verbose(i)?;
+        let (i, verbose) = pattern_match_verbose(i, indents)?;
         if verbose {
             // verbose can only be a Container type!
             cntr::verbose(indents)(i)
-- 
2.43.0


From fba3958f253aed93073b11c54974cbb1a0e1e367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:30 +0000
Subject: [PATCH 03/20] fix: choose string delimiters which can always be read
 back

A string which uses every delimiter candidate made the formatter panic.
Literals delimited by '=', '_' or '(' were read back as a field or a name.
---
 src/fmt/prims.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/fmt/prims.rs b/src/fmt/prims.rs
index 9f639ad..4df7c98 100644
--- a/src/fmt/prims.rs
+++ b/src/fmt/prims.rs
@@ -31,6 +31,7 @@ fn fmt_unit(buf: &mut String, ident: Option<&str>) {
 fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
     maybe_write_prim_ident(buf, fmt_ident, ident);
     let used = Used::parse(val);
+    // note that '=', '_' and '(' are not used, after 'str' they read as a field or a name
     if !used.contains(Used::DBL_QUOTE) {
         write!(buf, "\"{}\"", val)
     } else if !used.contains(Used::QUOTE) {
@@ -39,8 +40,6 @@ fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
         write!(buf, "str#{}#", val)
     } else if !used.contains(Used::BACKTICK) {
         write!(buf, "str`{}`", val)
-    } else if !used.contains(Used::EQ) {
-        write!(buf, "str={}=", val)
     } else if !used.contains(Used::PIPE) {
         write!(buf, "str|{}|", val)
     } else if !used.contains(Used::STAR) {
@@ -55,8 +54,6 @@ fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
         write!(buf, "str~{}~", val)
     } else if !used.contains(Used::AMP) {
         write!(buf, "str&{}&", val)
-    } else if !used.contains(Used::UNDERSCORE) {
-        write!(buf, "str_{}_", val)
     } else if !used.contains(Used::BACKSLASH) {
         write!(buf, "str\\{}\\", val)
     } else if !used.contains(Used::SLASH) {
@@ -67,12 +64,14 @@ fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
         write!(buf, "str<{}<", val)
     } else if !used.contains(Used::R_ANGLE) {
         write!(buf, "str>{}>", val)
-    } else if !used.contains(Used::L_PAREN) {
-        write!(buf, "str({}(", val)
     } else if !used.contains(Used::R_PAREN) {
         write!(buf, "str){})", val)
     } else {
-        panic!("exhausted delimiter options for formatting a string");
+        // any other character can be a delimiter as well, there is always one which is not used
+        let delim = ('\u{a1}'..=std::char::MAX)
+            .find(|&c| !c.is_alphanumeric() && !val.contains(c))
+            .expect("a string does not contain every character");
+        write!(buf, "str{}{}{}", delim, val, delim)
     }
     .ok();
 }
@@ -96,7 +95,6 @@ fn fmt_byte_array(buf: &mut String, val: &[u8], fmt_ident: bool, ident: Option<&
         const QUOTE = 0x2;
         const HASH = 0x4;
         const BACKTICK = 0x8;
-        const EQ = 0x10;
         const PIPE = 0x20;
         const STAR = 0x40;
         const HAT = 0x80;
@@ -104,13 +102,11 @@ fn fmt_byte_array(buf: &mut String, val: &[u8], fmt_ident: bool, ident: Option<&
         const PERCENT = 0x200;
         const TILDE = 0x400;
         const AMP = 0x800;
-        const UNDERSCORE = 0x1000;
         const BACKSLASH = 0x2000;
         const SLASH = 0x4000;
         const COLON = 0x8000;
         const L_ANGLE = 0x10000;
         const R_ANGLE = 0x20000;
-        const L_PAREN = 0x40000;
         const R_PAREN = 0x80000;
     }
 }
@@ -130,7 +126,6 @@ impl Used {
             '\'' => Self::QUOTE,
             '#' => Self::HASH,
             '`' => Self::BACKTICK,
-            '=' => Self::EQ,
             '|' => Self::PIPE,
             '*' => Self::STAR,
             '^' => Self::HAT,
@@ -138,13 +133,11 @@ impl Used {
             '%' => Self::PERCENT,
             '~' => Self::TILDE,
             '&' => Self::AMP,
-            '_' => Self::UNDERSCORE,
             '\\' => Self::BACKSLASH,
             '/' => Self::SLASH,
             ':' => Self::COLON,
             '<' => Self::L_ANGLE,
             '>' => Self::R_ANGLE,
-            '(' => Self::L_PAREN,
             ')' => Self::R_PAREN,
             _ => Self::empty(),
         }
-- 
2.43.0


From 1be5afcc81d610c52a554114d230f8c76deedf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:41 +0000
Subject: [PATCH 04/20] fix: write verbose map entries so that they are read
 back

Entries of a map nested inside a verbose container were not indented.
Names of verbose sequences and maps were dropped even when shown.
Keys spread over multiple lines were written but not parsed.
---
 src/fmt/maps.rs   |  6 +++---
 src/fmt/mod.rs    | 13 +++++++++++++
 src/fmt/seqs.rs   |  4 +---
 src/parse/cntr.rs |  6 +++---
 4 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/fmt/maps.rs b/src/fmt/maps.rs
index ae5fbf3..dc7bd3c 100644
--- a/src/fmt/maps.rs
+++ b/src/fmt/maps.rs
@@ -93,9 +93,9 @@ pub(super) fn write(
 
             for (k, v) in map {
                 // write field name
-                buf.push_str("[[");
-                buf.push_str(field_name);
-                buf.push_str("]]\n");
+                write_indent(&mut buf, col);
+                write_entry_header(&mut buf, field_name, fmt.id, id);
+                write_indent(&mut buf, col);
 
                 // if verbose write on new line, otherwise it is just concise like above
                 match fmts.get(v.index()).unwrap().line {
diff --git a/src/fmt/mod.rs b/src/fmt/mod.rs
index 358f871..19f3e03 100644
--- a/src/fmt/mod.rs
+++ b/src/fmt/mod.rs
@@ -474,6 +474,19 @@ fn maybe_write_nonprim_ident(buf: &mut String, print: bool, ident: Option<&str>)
     }
 }
 
+/// Writes the line which starts a verbose sequence or map entry: `[[field_name:<id>]]`.
+fn write_entry_header(buf: &mut String, field_name: &str, print: bool, ident: Option<&str>) {
+    buf.push_str("[[");
+    buf.push_str(field_name);
+    if print {
+        if let Some(ident) = ident {
+            buf.push(':');
+            buf.push_str(ident);
+        }
+    }
+    buf.push_str("]]\n");
+}
+
 fn delim_writer<P, B, S>(buf: String, prefix: P, suffix: S, body: B) -> String
 where
     P: FnOnce(String) -> String,
diff --git a/src/fmt/seqs.rs b/src/fmt/seqs.rs
index 911e4e1..9e3b172 100644
--- a/src/fmt/seqs.rs
+++ b/src/fmt/seqs.rs
@@ -61,9 +61,7 @@ pub(super) fn write(
             for n in seq {
                 // write field name
                 write_indent(&mut buf, col);
-                buf.push_str("[[");
-                buf.push_str(field_name);
-                buf.push_str("]]\n");
+                write_entry_header(&mut buf, field_name, fmt.id, id);
 
                 // write value
                 match fmts.get(n.index()).unwrap().line {
diff --git a/src/parse/cntr.rs b/src/parse/cntr.rs
index 2bce20b..81b8c63 100644
--- a/src/parse/cntr.rs
+++ b/src/parse/cntr.rs
@@ -227,11 +227,11 @@ fn verbose_cntr_field<'a, E: CxErr<'a>>(
             let (i, _) = ignore_inline_whitespace(line_ending)(i)?;
 
             // now work out if it is a map or just sequence.
-            // a map as the usual inline kserd, followed by the colon.
+            // a map has the usual delimited kserd, followed by the colon.
 
-            // get the key (kserd-inline:)
+            // get the key (kserd-concise:)
             let (i, key) = opt(terminated(
-                ignore_inline_whitespace(uncut(kserd_inline)),
+                ignore_inline_whitespace(uncut(kserd_concise)),
                 ignore_inline_whitespace(char(':')),
             ))(i)?;
 
-- 
2.43.0


From 401d71929acc4b36fd84a949dd51364923a99420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:04 +0000
Subject: [PATCH 05/20] fix: never show keys or nested lists in verbose form

Verbose form needs a field name. A sequence or map inside a sequence, map
or key has none, so it is written in brackets, and a container inside it
must not be verbose either. The formatter no longer accepts such requests.
---
 src/fmt/formatter.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 8b9d52e..0508a3e 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -104,12 +104,7 @@ impl<'a, 'k> Formatter<'a, 'k> {
 
         for node in nav.nodes() {
             indices.push(node.index());
-            let mut line = max_line_repr(&node.value());
-
-            if node.is_key() {
-                line = std::cmp::min(line, Repr::Concise);
-            }
-
+            let line = max_node_line_repr(&node);
             let id = true;
 
             fmts.push(Fmt { id, line });
@@ -300,7 +295,7 @@ impl<'a, 'k> Formatter<'a, 'k> {
     }
 
     fn line_repr_constraints(&self, node: &Node) -> (Repr, Option<Repr>) {
-        let max_line_repr = max_line_repr(&node.value());
+        let max_line_repr = max_node_line_repr(node);
         let parent_line_repr = node
             .parent()
             .and_then(|p| self.fmts.get(p.index()))
@@ -376,6 +371,25 @@ fn max_line_repr(nv: &NodeValue) -> Repr {
     }
 }
 
+/// Keys are delimited, as are sequences and maps which are not the field of a container.
+fn max_node_line_repr(node: &Node) -> Repr {
+    let max = max_line_repr(&node.value());
+    let is_field = match node.parent().map(|p| p.value()) {
+        Some(NodeValue::Cntr(_)) | None => true,
+        _ => false,
+    };
+    let delimited = match node.value() {
+        NodeValue::Seq(_) | NodeValue::Map(_) => !is_field,
+        _ => false,
+    };
+
+    if delimited || node.is_key() {
+        std::cmp::min(max, Repr::Concise)
+    } else {
+        max
+    }
+}
+
 /// Validates that the request can be made.
 /// Will return the `Repr` if it can, otherwise the error if not.
 fn validate_requst_repr(
-- 
2.43.0


From e966547980d7392c4953cb4782d590e0714cbc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:45 +0000
Subject: [PATCH 06/20] fix: make number equality, ordering and hashing agree

Equality of a float and an integer depended on the order of the operands,
and floats outside the integer range compared equal to the largest or
smallest integer. Negative zero and differing NaNs are equal so they now
also hash the same. Converting an out of range float to an integer is an
error instead of the nearest integer.
---
 src/ds/num.rs | 43 ++++++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index fe526f0..2163a7f 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -7,6 +7,11 @@ use std::{
 };
 use Number::*;
 
+/// `2^128`, the first float above the unsigned integers.
+const UINT_LIMIT: f64 = std::u128::MAX as f64;
+/// `2^127`, the first float above the signed integers.
+const INT_LIMIT: f64 = std::i128::MAX as f64;
+
 /// A numerical value.
 ///
 /// `Number` captures Rust numerical primitives: _unsigned integers_, _signed integers_, and
@@ -143,7 +148,7 @@ impl Number {
                 if x.is_finite() && x >= &0.0 {
                     let r = x.round();
                     let y = (r - x).abs();
-                    if y < 1e-10 {
+                    if y < 1e-10 && r < UINT_LIMIT {
                         return Ok(r as u128);
                     }
                 }
@@ -179,7 +184,7 @@ impl Number {
                 if x.is_finite() {
                     let r = x.round();
                     let y = (r - x).abs();
-                    if y < 1e-10 {
+                    if y < 1e-10 && r >= -INT_LIMIT && r < INT_LIMIT {
                         return Ok(r as i128);
                     }
                 }
@@ -253,7 +258,14 @@ impl FromStr for Number {
 
 impl Hash for Number {
     fn hash<H: Hasher>(&self, hasher: &mut H) {
-        self.as_f64().to_bits().hash(hasher)
+        // numbers which are equal have to hash the same
+        match self.as_f64() {
+            x if x == 0.0 => 0.0f64,
+            x if x.is_nan() => std::f64::NAN,
+            x => x,
+        }
+        .to_bits()
+        .hash(hasher)
     }
 }
 
@@ -276,22 +288,7 @@ impl fmt::Display for IntoNumberErr {
 
 impl PartialEq for Number {
     fn eq(&self, other: &Number) -> bool {
-        match (self, other) {
-            // Three cases where lhs and rhs are same type
-            (Uint(lhs), Uint(rhs)) => lhs.eq(rhs),
-            (Int(lhs), Int(rhs)) => lhs.eq(rhs),
-            (Float(lhs), Float(rhs)) => cmp_float_to_float(*lhs, *rhs) == Ordering::Equal,
-
-            // Integers
-            (Uint(lhs), Int(_)) => other.as_u128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-            (Uint(lhs), Float(_)) => other.as_u128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-            (Int(lhs), Uint(_)) => other.as_i128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-            (Int(lhs), Float(_)) => other.as_i128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-
-            // Floats
-            (Float(lhs), Uint(_)) => lhs.eq(&other.as_f64()),
-            (Float(lhs), Int(_)) => lhs.eq(&other.as_f64()),
-        }
+        self.cmp(other) == Ordering::Equal
     }
 }
 
@@ -381,9 +378,9 @@ fn cmp_uint_to_int(lhs: &u128, rhs: i128) -> Ordering {
 fn cmp_float_to_uint(lhs: f64, rhs: u128) -> Ordering {
     use Ordering::*;
 
-    if lhs.is_sign_negative() {
+    if lhs < 0.0 {
         Less
-    } else if lhs.is_infinite() || lhs.is_nan() {
+    } else if lhs.is_nan() || lhs >= UINT_LIMIT {
         Greater
     } else {
         let (floor, ceil) = float_bounds_uint(lhs);
@@ -402,9 +399,9 @@ fn cmp_float_to_uint(lhs: f64, rhs: u128) -> Ordering {
 fn cmp_float_to_int(lhs: f64, rhs: i128) -> Ordering {
     use Ordering::*;
 
-    if lhs.is_sign_negative() && lhs.is_infinite() {
+    if lhs < -INT_LIMIT {
         Less
-    } else if lhs.is_infinite() || lhs.is_nan() {
+    } else if lhs.is_nan() || lhs >= INT_LIMIT {
         Greater
     } else {
         let (floor, ceil) = float_bounds_int(lhs);
-- 
2.43.0


From d9ae1e8582d3c8c3ddc9c59c7731b5d454c63415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:59 +0000
Subject: [PATCH 07/20] fix: write large floats with an exponent

The digits of a float above 2^53 were read back as an integer of a different
value, or not at all once they went past the integer range.
---
 src/ds/num.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index 2163a7f..25b4c07 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -11,6 +11,8 @@ use Number::*;
 const UINT_LIMIT: f64 = std::u128::MAX as f64;
 /// `2^127`, the first float above the signed integers.
 const INT_LIMIT: f64 = std::i128::MAX as f64;
+/// `2^53`, floats below this display integers exactly.
+const EXACT_LIMIT: f64 = 9_007_199_254_740_992.0;
 
 /// A numerical value.
 ///
@@ -220,6 +222,8 @@ impl fmt::Display for Number {
         match self {
             Uint(x) => write!(f, "{}", x),
             Int(x) => write!(f, "{}", x),
+            // large floats are not exact integers, exponents stop them being read as such
+            Float(x) if x.is_finite() && x.abs() >= EXACT_LIMIT => write!(f, "{:e}", x),
             Float(x) => write!(f, "{}", x),
         }
     }
-- 
2.43.0


From 399c469dbd2729ec0c4f8f81554231d796f7d966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:20 +0000
Subject: [PATCH 08/20] fix: order empty tuples and empty containers as the
 equal values they are

They compared equal but ordered differently, which breaks the contract
between equality and ordering that sorted maps rely on.
---
 src/ds/val.rs | 47 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/src/ds/val.rs b/src/ds/val.rs
index bd0396a..9903c31 100644
--- a/src/ds/val.rs
+++ b/src/ds/val.rs
@@ -2,6 +2,7 @@ use super::*;
 use crate::{Fields, List, Map};
 use std::{
     borrow::{Borrow, Cow},
+    cmp::Ordering,
     error, fmt,
     ops::{Deref, DerefMut},
 };
@@ -36,7 +37,7 @@ use std::{
 ///
 /// [`BTreeMap`]: std::collections::BTreeMap
 /// [`Kserd`]: crate::Kserd
-#[derive(Eq, PartialOrd, Ord)]
+#[derive(Eq)]
 pub enum Value<'a> {
     /// A unit value `()`.
     Unit,
@@ -110,6 +111,50 @@ impl<'a> PartialEq for Value<'a> {
     }
 }
 
+impl<'a> PartialOrd for Value<'a> {
+    fn partial_cmp(&self, b: &Self) -> Option<Ordering> {
+        Some(self.cmp(b))
+    }
+}
+
+/// Values are ordered by their kind first, in the order they are defined.
+///
+/// An empty tuple is equal to an empty container, so both are ordered as an empty tuple.
+impl<'a> Ord for Value<'a> {
+    fn cmp(&self, b: &Self) -> Ordering {
+        use Value::*;
+
+        fn kind(v: &Value) -> u8 {
+            match v {
+                Unit => 0,
+                Bool(_) => 1,
+                Num(_) => 2,
+                Str(_) => 3,
+                Barr(_) => 4,
+                Tuple(_) => 5,
+                Cntr(x) if x.is_empty() => 5,
+                Cntr(_) => 6,
+                Seq(_) => 7,
+                Map(_) => 8,
+            }
+        }
+
+        match (self, b) {
+            (Bool(a), Bool(b)) => a.cmp(b),
+            (Num(a), Num(b)) => a.cmp(b),
+            (Str(a), Str(b)) => a.cmp(b),
+            (Barr(a), Barr(b)) => a.cmp(b),
+            (Tuple(a), Tuple(b)) => a.cmp(b),
+            (Tuple(a), Cntr(b)) if b.is_empty() => a.len().cmp(&0),
+            (Cntr(a), Tuple(b)) if a.is_empty() => 0.cmp(&b.len()),
+            (Cntr(a), Cntr(b)) => a.cmp(b),
+            (Seq(a), Seq(b)) => a.cmp(b),
+            (Map(a), Map(b)) => a.cmp(b),
+            _ => kind(self).cmp(&kind(b)),
+        }
+    }
+}
+
 /// The field name in a container contains invalid characters.
 #[derive(PartialEq, Debug, Eq, Clone)]
 pub struct InvalidFieldName(pub Cow<'static, str>);
-- 
2.43.0


From 3c169bacd5692eb5b7b698a904b0daf20f3ba5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:46 +0000
Subject: [PATCH 09/20] fix: do not read inf or NaN as the name of the value on
 the next line

A list with one item per line, such as inf followed by a tuple, was taken
as a tuple called inf and failed to parse.
---
 src/parse/heuristics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index 48f3f32..9bbc7d1 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -40,7 +40,7 @@ pub(super) fn pattern_match_delimited<'a, E: CxErr<'a>>(
         }
     };
 
-    let (i, _) = multiline_whitespace(i)?;
+    let (i, _) = inline_whitespace(i)?; // an opening delimiter is on the same line
     let next = i.chars().next().unwrap_or(' ');
 
     let mut r = if next == '[' {
-- 
2.43.0


From e6a9f1a348b87c425932c1f19cd3d6f35bf2e564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:45 +0000
Subject: [PATCH 10/20] fix: recognise a verbose container whose first line is
 a named field header

Text starting with a header such as [field:Name] is what the formatter
writes, but it was parsed as a sequence and rejected.
---
 src/parse/heuristics.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index 9bbc7d1..bab0f54 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -78,13 +78,19 @@ pub(super) fn pattern_match_verbose<'a, E: CxErr<'a>>(
     // generally a Verbose format can be recognised by:
     // - An identity (:id)
     // - A direct mapping (var_name = xxx)
-    // - A nested mapping ([var_name])
+    // - A nested mapping ([var_name] or [var_name:id])
     // - A sequence or map entry ([[var_name]])
     let encased = |s, e| {
         preceded::<_, _, _, (), _, _>(
             tag(s),
             terminated(
-                ignore_inline_whitespace(valid_name),
+                terminated(
+                    ignore_inline_whitespace(valid_name),
+                    opt(preceded(
+                        ignore_inline_whitespace(char(':')),
+                        ignore_inline_whitespace(ident(false)),
+                    )),
+                ),
                 ignore_inline_whitespace(tag(e)),
             ),
         )(i)
-- 
2.43.0


From 2930fdd03bcd24066277dedef4cfa55ea16c2876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:35 +0000
Subject: [PATCH 11/20] fix: keep a value on one line whenever that line fits
 the width limit

---
 src/fmt/solver.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fmt/solver.rs b/src/fmt/solver.rs
index eb2f580..f6a83f3 100644
--- a/src/fmt/solver.rs
+++ b/src/fmt/solver.rs
@@ -431,12 +431,12 @@ fn min_line_repr(
     concise_widths: &[usize],
 ) -> Repr {
     if let Some(lim) = lim {
-        if concise_widths[idx] > lim {
-            Repr::Verbose
-        } else if inline_widths[idx] > lim {
+        if inline_widths[idx] <= lim {
+            Repr::Inline
+        } else if concise_widths[idx] <= lim {
             Repr::Concise
         } else {
-            Repr::Inline
+            Repr::Verbose
         }
     } else {
         Repr::Inline
-- 
2.43.0


From 9bb870096c9db549ca279e03ed825a534cd55b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:24 +0000
Subject: [PATCH 12/20] fix: measure values as they are written when fitting
 them on a line

---
 src/fmt/solver.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/fmt/solver.rs b/src/fmt/solver.rs
index f6a83f3..60a457b 100644
--- a/src/fmt/solver.rs
+++ b/src/fmt/solver.rs
@@ -54,7 +54,7 @@ fn inline_widths_recurse(
 fn inline_width(node: &Kserd, config: &FormattingConfig) -> usize {
     let ident = node.id().map(|x| x.chars().count()).unwrap_or(0);
 
-    let prim_ident_width = if config.id_on_primitives {
+    let prim_ident_width = if ident > 0 && config.id_on_primitives {
         ident + 3 // add three for '<> '
     } else {
         0
@@ -62,11 +62,7 @@ fn inline_width(node: &Kserd, config: &FormattingConfig) -> usize {
 
     match &node.val {
         Value::Unit => {
-            if ident > 0 {
-                ident
-            } else {
-                2 // for ()
-            }
+            ident + 2 // for ()
         }
         Value::Bool(v) => {
             prim_ident_width
@@ -79,14 +75,14 @@ fn inline_width(node: &Kserd, config: &FormattingConfig) -> usize {
         Value::Num(v) => prim_ident_width + v.to_string().chars().count(),
         Value::Str(v) => 2 + prim_ident_width + v.escape_default().count(), // plus two for quotations
         Value::Barr(bytes) => {
-            3 + prim_ident_width
-                + bytes.len() * 2
-                + bytes.len().saturating_sub(1) * FIELDS_SEPARATOR.chars().count()
+            let mut len = 0;
+            base91::iter_encode(bytes.iter().copied(), |_| len += 1);
+            5 + prim_ident_width + len // plus five for b91''
         }
         Value::Tuple(v) => {
             2 + v.len().saturating_sub(1) * FIELDS_SEPARATOR.chars().count()
                 + if ident > 0 && config.id_on_tuples {
-                    ident + 1 // for space after name
+                    ident // there is no space after name
                 } else {
                     0
                 }
-- 
2.43.0


From cdc035367e59854a131f96fbc8124773eefd78c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:43 +0000
Subject: [PATCH 13/20] fix: count the spaces inside map brackets when fitting
 a line

---
 src/fmt/solver.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fmt/solver.rs b/src/fmt/solver.rs
index 60a457b..2e26cbf 100644
--- a/src/fmt/solver.rs
+++ b/src/fmt/solver.rs
@@ -108,6 +108,7 @@ fn inline_width(node: &Kserd, config: &FormattingConfig) -> usize {
         }
         Value::Map(v) => {
             2 // brackets
+			+ if v.is_empty() { 0 } else { 2 } // spaces inside the brackets
 			+ v.len().saturating_sub(1) * FIELDS_SEPARATOR.chars().count() // separator
 			+ v.len() * (KEYS_ASSIGNER.chars().count() + 1) // assign, plus space after			
 			+ if ident > 0 &&  config.id_on_maps {
-- 
2.43.0


From c8c69fb02d01f5c67ca8c126b221306dc13c3352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:49:29 +0000
Subject: [PATCH 14/20] fix: read underscores next to zeroes in integers

Integers such as 0_0 or __7 made the integer parser underflow while it
looked for leading zeroes: a panic in debug builds, a refusal otherwise.
Hand it the digits without their separators.
---
 src/ds/num.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index 25b4c07..b978f30 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -248,14 +248,18 @@ impl FromStr for Number {
 
         if !valid_int {
             ::fast_float::parse(s).map(Float).map_err(|_| IntoNumberErr)
-        } else if neg {
-            parse::<i128, FMT>(bytes, options)
-                .map(Int)
-                .map_err(|_| IntoNumberErr)
         } else {
-            parse::<u128, FMT>(bytes, options)
-                .map(Uint)
-                .map_err(|_| IntoNumberErr)
+            // underscores only separate digits
+            let digits: Vec<u8> = bytes.iter().copied().filter(|b| *b != b'_').collect();
+            if neg {
+                parse::<i128, FMT>(&digits, options)
+                    .map(Int)
+                    .map_err(|_| IntoNumberErr)
+            } else {
+                parse::<u128, FMT>(&digits, options)
+                    .map(Uint)
+                    .map_err(|_| IntoNumberErr)
+            }
         }
     }
 }
-- 
2.43.0


From 7da1513bdfb224526e2ec1bd3b20ffb03d7b84a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:14 +0000
Subject: [PATCH 15/20] fix: refuse integers which do not fit

Some integers of 39 digits above the largest unsigned integer, such as
999999999999999999999999999999999999000, were read as another number
instead of being refused. The standard library's parser notices the
overflow.
---
 src/ds/num.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index b978f30..834ed9f 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -232,13 +232,10 @@ impl fmt::Display for Number {
 impl FromStr for Number {
     type Err = IntoNumberErr;
     fn from_str(s: &str) -> Result<Self, IntoNumberErr> {
-        use ::lexical_core::parse_with_options as parse;
         if s.is_empty() {
             return Err(IntoNumberErr);
         }
 
-        const FMT: u128 = ::lexical_core::format::OCAML_STRING;
-        let options = &::lexical_core::ParseIntegerOptions::new();
         let bytes = s.as_bytes();
         let neg = bytes[0] == b'-';
         let valid_int = bytes
@@ -250,15 +247,11 @@ impl FromStr for Number {
             ::fast_float::parse(s).map(Float).map_err(|_| IntoNumberErr)
         } else {
             // underscores only separate digits
-            let digits: Vec<u8> = bytes.iter().copied().filter(|b| *b != b'_').collect();
+            let digits = s.replace('_', "");
             if neg {
-                parse::<i128, FMT>(&digits, options)
-                    .map(Int)
-                    .map_err(|_| IntoNumberErr)
+                digits.parse().map(Int).map_err(|_| IntoNumberErr)
             } else {
-                parse::<u128, FMT>(&digits, options)
-                    .map(Uint)
-                    .map_err(|_| IntoNumberErr)
+                digits.parse().map(Uint).map_err(|_| IntoNumberErr)
             }
         }
     }
-- 
2.43.0


From 78b07e6cec9f4cc8b086826cee86a24346c98a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:50 +0000
Subject: [PATCH 16/20] fix: decode a variant without fields from its text

---
 src/encode/decoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/encode/decoder.rs b/src/encode/decoder.rs
index 9d8da14..37d60f8 100644
--- a/src/encode/decoder.rs
+++ b/src/encode/decoder.rs
@@ -337,6 +337,10 @@ impl<'de> de::VariantAccess<'de> for Decoder<'de> {
             Value::Cntr(map) => visitor.visit_map(MapDeserializer::new(
                 map.into_iter().map(|(k, v)| (k.inner, v)),
             )),
+            // text does not distinguish an empty container from an empty tuple
+            Value::Tuple(v) if v.is_empty() => {
+                visitor.visit_seq(SeqDeserializer::new(v.into_iter()))
+            }
             x => Err(de::Error::invalid_type(
                 unexp_err(&x),
                 &"struct enum variant",
-- 
2.43.0


From ca19e164bfde839474a759b299fc5c08de2e66c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:59 +0000
Subject: [PATCH 17/20] fix: decode an empty array from its text

---
 src/encode/decoder.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/encode/decoder.rs b/src/encode/decoder.rs
index 37d60f8..4e34dc9 100644
--- a/src/encode/decoder.rs
+++ b/src/encode/decoder.rs
@@ -183,7 +183,7 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
 
     forward_to_deserialize_any! {
         bool str string
-        bytes byte_buf option unit newtype_struct seq tuple
+        bytes byte_buf option unit newtype_struct seq
         tuple_struct map struct identifier ignored_any
     }
 
@@ -241,6 +241,16 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
         }
     }
 
+    fn deserialize_tuple<V: Visitor<'de>>(self, len: usize, visitor: V) -> Res<V::Value> {
+        match self.0.val {
+            // text does not distinguish an empty tuple from a unit
+            Value::Unit if len == 0 => visitor.visit_seq(SeqDeserializer::new(
+                Vec::<Kserd<'de>>::new().into_iter(),
+            )),
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
     fn deserialize_enum<V: Visitor<'de>>(
         self,
         _name: &'static str,
-- 
2.43.0


From 193558c6fa7fe4b8fb74470ad183798096af7187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:02 +0000
Subject: [PATCH 18/20] fix: refuse to decode a sequence with items left over

---
 src/encode/decoder.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/encode/decoder.rs b/src/encode/decoder.rs
index 4e34dc9..9f534ac 100644
--- a/src/encode/decoder.rs
+++ b/src/encode/decoder.rs
@@ -169,14 +169,14 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
             Value::Tuple(mut seq) => match (seq.len(), id.as_ref().map(|x| x.as_str())) {
                 (0, Some("None")) => visitor.visit_none(),
                 (1, Some("Some")) => visitor.visit_some(Decoder(seq.pop().expect("only one item"))),
-                (1, None) => visitor.visit_seq(SeqDeserializer::new(seq.into_iter())),
+                (1, None) => visit_all(seq, visitor),
                 (1, _) => visitor.visit_newtype_struct(Decoder(seq.pop().expect("only one item"))),
-                _ => visitor.visit_seq(SeqDeserializer::new(seq.into_iter())),
+                _ => visit_all(seq, visitor),
             },
             Value::Cntr(map) => visitor.visit_map(MapDeserializer::new(
                 map.into_iter().map(|(k, v)| (k.inner, v)),
             )),
-            Value::Seq(seq) => visitor.visit_seq(SeqDeserializer::new(seq.into_iter())),
+            Value::Seq(seq) => visit_all(seq, visitor),
             Value::Map(map) => visitor.visit_map(MapDeserializer::new(map.into_iter())),
         }
     }
@@ -361,6 +361,14 @@ impl<'de> de::VariantAccess<'de> for Decoder<'de> {
 
 ////// FUNCTIONS ///////////////////////////////////////////////////////////////
 
+/// Visit a sequence, which is an error if the visitor leaves items behind.
+fn visit_all<'de, V: Visitor<'de>>(seq: Vec<Kserd<'de>>, visitor: V) -> Res<V::Value> {
+    let mut de = SeqDeserializer::new(seq.into_iter());
+    let value = visitor.visit_seq(&mut de)?;
+    de.end()?;
+    Ok(value)
+}
+
 fn unexp_err<'a, 'v>(val: &'a Value<'v>) -> Unexpected<'a> {
     match val {
         Value::Unit => Unexpected::Unit,
-- 
2.43.0


From 86e6d07e648513397cba413fb7c7bb8c2402c332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:34:46 +0000
Subject: [PATCH 19/20] fix: read a nested list whose first string spans
 several lines

---
 src/parse/heuristics.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index bab0f54..037a930 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -103,9 +103,10 @@ pub(super) fn pattern_match_verbose<'a, E: CxErr<'a>>(
 
     let is = i.starts_with(':');
     let is = is || recognise_field_assign(i);
+    let header = encased("[", "]") || encased("[[", "]]");
     let is = is
-        || ((i.starts_with("[[") || encased("[", "]"))
-            && !(recognise_inline_seq(i) && !(indented && recognise_following_line(i))));
+        || ((i.starts_with("[[") || header)
+            && !(recognise_inline_seq(i) && !(header && indented && recognise_following_line(i))));
 
     Ok((orig, is))
 }
-- 
2.43.0


From 07ebc74891717ded8f565b37431c0c3848fa1540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:32:06 +0000
Subject: [PATCH 20/20] fix: measure the opening lines and empty collections of
 a bracketed layout as written

---
 src/fmt/solver.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fmt/solver.rs b/src/fmt/solver.rs
index 2e26cbf..49997ac 100644
--- a/src/fmt/solver.rs
+++ b/src/fmt/solver.rs
@@ -233,9 +233,12 @@ fn concise_width(node: &Kserd, config: &FormattingConfig) -> usize {
         Value::Unit | Value::Bool(_) | Value::Num(_) | Value::Str(_) | Value::Barr(_) => {
             inline_width(node, config)
         } // same as inline width
+        Value::Tuple(v) | Value::Seq(v) if v.is_empty() => inline_width(node, config),
+        Value::Cntr(v) if v.is_empty() => inline_width(node, config),
+        Value::Map(v) if v.is_empty() => inline_width(node, config),
         Value::Tuple(_) => {
             1 + if config.id_on_tuples {
-                ident + 1 // for space after name
+                ident // there is no space after name
             } else {
                 0
             }
-- 
2.43.0

