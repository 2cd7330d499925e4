From 17ade8fe5c0b795c4c64f3a76b45217b8361df22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 01/12] fix: resolve `with` variables by name instead of by
 span

A `with` variable was stored as a span and compared using the source of
the template being rendered, which is the wrong source (or an out of
bounds slice) when the lookup happens in an included template.
---
 src/render/core.rs  | 2 +-
 src/render/stack.rs | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/render/core.rs b/src/render/core.rs
index 91da89e..46f853e 100644
--- a/src/render/core.rs
+++ b/src/render/core.rs
@@ -192,7 +192,7 @@ where
 
                 Instr::WithStart(name) => {
                     let value = expr.take().unwrap();
-                    self.stack.push(State::Var(name, value))
+                    self.stack.push(State::Var(&t.source[name.span], value))
                 }
 
                 Instr::WithEnd => {
diff --git a/src/render/stack.rs b/src/render/stack.rs
index b5f8ec1..e36075f 100644
--- a/src/render/stack.rs
+++ b/src/render/stack.rs
@@ -17,7 +17,7 @@ pub enum State<'a> {
     Scope(ValueCow<'a>),
 
     /// A single variable.
-    Var(&'a ast::Ident, ValueCow<'a>),
+    Var(&'a str, ValueCow<'a>),
 
     /// The current state of a loop iteration
     Loop(LoopState<'a>),
@@ -32,7 +32,7 @@ impl std::fmt::Debug for State<'_> {
         match self {
             Self::ValueFn(_) => f.debug_tuple("ValueFn").field(&(..)).finish(),
             Self::Scope(scope) => f.debug_tuple("Scope").field(scope).finish(),
-            Self::Var(ident, value) => f.debug_tuple("Var").field(ident).field(value).finish(),
+            Self::Var(name, value) => f.debug_tuple("Var").field(name).field(value).finish(),
             Self::Loop(state) => f.debug_tuple("Loop").field(state).finish(),
             Self::Boundary => write!(f, "Boundary"),
         }
@@ -82,7 +82,7 @@ impl<'a> Stack<'a> {
                     None => continue,
                 },
 
-                State::Var(name, var) if source[v.first().access.span()] == source[name.span] => {
+                State::Var(name, var) if source[v.first().access.span()] == **name => {
                     return lookup_path(source, var, v.rest());
                 }
 
@@ -125,7 +125,7 @@ impl<'a> Stack<'a> {
         }
     }
 
-    pub fn pop_var(&mut self) -> (&'a ast::Ident, ValueCow<'a>) {
+    pub fn pop_var(&mut self) -> (&'a str, ValueCow<'a>) {
         match self.stack.pop().unwrap() {
             State::Var(name, value) => (name, value),
             _ => panic!("expected variable"),
-- 
2.43.0


From 840a301b0562ff1343f9ed87c9ffbb485d725eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 02/12] fix: optional access on a loop variable evaluates to
 none

A missing optional member of a loop variable was treated as if the loop
variable itself was not in scope.
---
 src/render/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/render/iter.rs b/src/render/iter.rs
index 8d1c410..b3b6c2d 100644
--- a/src/render/iter.rs
+++ b/src/render/iter.rs
@@ -165,7 +165,7 @@ impl<'a> LoopState<'a> {
                 for m in var.rest() {
                     v = match lookup(source, v, m)? {
                         Some(v) => v,
-                        None => return Ok(None),
+                        None => return Ok(Some(ValueCow::Borrowed(&Value::None))),
                     };
                 }
                 v
-- 
2.43.0


From f9bc5dbbc75d2bb30b06030a2c9a4a9701f58f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 03/12] fix: optional access on `loop` short-circuits the rest
 of the path

This is what optional access does for every other map.
---
 src/render/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/render/iter.rs b/src/render/iter.rs
index b3b6c2d..eb1cbff 100644
--- a/src/render/iter.rs
+++ b/src/render/iter.rs
@@ -268,7 +268,7 @@ impl<'a> LoopState<'a> {
             (_, "index") => Value::Integer(i as i64),
             (_, "first") => Value::Bool(i == 0),
             (_, "last") => Value::Bool(rem == 0),
-            (ast::AccessOp::Optional, _) => Value::None,
+            (ast::AccessOp::Optional, _) => return Ok(Some(ValueCow::Borrowed(&Value::None))),
             (ast::AccessOp::Direct, _) => {
                 return Err(Error::render("not found in map", source, member.span))
             }
-- 
2.43.0


From f07936e2e395c1f47d0a044505947da4a1373a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 04/12] fix: do not right trim past the start of the raw token

If the preceding end tag ends with whitespace then trimming the whole
prefix of the source moved the end of the raw token before its start.
---
 src/compile/lex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index b075b46..0ad2247 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -173,7 +173,7 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
 
         let mut trim_raw_token = |mut i, mut j, right_trim| {
             if right_trim {
-                j = self.source[..j].trim_end().len();
+                j = i + self.source[i..j].trim_end().len();
             }
             if self.left_trim {
                 self.left_trim = false;
-- 
2.43.0


From bcb1643ceddab489ecdb44b058f88e62b01b53f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 05/12] fix: a string literal can end with an escaped backslash

---
 src/compile/lex.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index 0ad2247..a61e70d 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -367,7 +367,7 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
     where
         I: Iterator<Item = (usize, char)> + Clone,
     {
-        let mut curr = '"';
+        let mut escaped = false;
         loop {
             match iter.next() {
                 None => {
@@ -376,11 +376,11 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
                 Some((j, '\r' | '\n')) => {
                     return Err(self.err_undelimited_string(i..j));
                 }
-                Some((j, '"')) if curr != '\\' => {
+                Some((j, '"')) if !escaped => {
                     return Ok((Token::String, j + 1));
                 }
                 Some((_, c)) => {
-                    curr = c;
+                    escaped = c == '\\' && !escaped;
                 }
             }
         }
-- 
2.43.0


From cd6186f19e14981f0677060faf56831dc27d671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 06/12] fix: compute the line and column of an error from byte
 offsets

The offset is in bytes but lines were measured using the display width.
---
 src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index e6767f2..c01ff95 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -278,9 +278,9 @@ impl Pretty {
 fn to_ln_col(lines: &[&str], offset: usize) -> (usize, usize) {
     let mut n = 0;
     for (i, line) in lines.iter().enumerate() {
-        let len = display_width(line) + 1;
+        let len = line.len() + 1;
         if n + len > offset {
-            return (i, offset - n);
+            return (i, display_width(&line[..offset - n]));
         }
         n += len;
     }
-- 
2.43.0


From 34de38e2cbd32942347d5bd4bfe5752fa1e41184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 07/12] fix: allow empty comments

---
 src/compile/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compile/parse.rs b/src/compile/parse.rs
index 363e24d..8782d68 100644
--- a/src/compile/parse.rs
+++ b/src/compile/parse.rs
@@ -117,7 +117,9 @@ impl<'engine, 'source> Parser<'engine, 'source> {
 
                 // The start of a comment, e.g. `{# ... #}`
                 (Token::BeginComment, _) => {
-                    self.expect(Token::Raw)?;
+                    if self.is_next(Token::Raw)? {
+                        self.expect(Token::Raw)?;
+                    }
                     self.expect(Token::EndComment)?;
                     continue;
                 }
-- 
2.43.0


From c62af0f3769b983b6c59e0512d35df1a503733b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 08/12] fix: point at the invalid digit of a signed integer
 literal

The span includes the sign and any whitespace following it.
---
 src/compile/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/parse.rs b/src/compile/parse.rs
index 8782d68..973a703 100644
--- a/src/compile/parse.rs
+++ b/src/compile/parse.rs
@@ -684,7 +684,7 @@ impl<'engine, 'source> Parser<'engine, 'source> {
             .filter(|(_, &d)| d != b'_')
             .try_fold(0i64, |acc, (j, &d)| {
                 let x = (d as char).to_digit(radix).ok_or_else(|| {
-                    let m = span.m + i + j;
+                    let m = span.n - digits.len() + i + j;
                     Error::syntax(
                         format!("invalid digit for base {radix} literal"),
                         self.source(),
-- 
2.43.0


From 3152605cb2d9e2e53ff15831132649360f6f826c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 09/12] fix: an error at the end of the source is on the last
 line

If the source ends with a newline then that is an empty line, not the
line before it.
---
 src/error.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index c01ff95..fbb2b92 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -232,10 +232,7 @@ impl Pretty {
         let lines: Vec<_> = source.split_terminator('\n').collect();
         let (ln, col) = to_ln_col(&lines, span.m);
         let width = max(1, display_width(&source[span]));
-        let text = lines
-            .get(ln)
-            .unwrap_or_else(|| lines.last().unwrap())
-            .to_string();
+        let text = lines.get(ln).copied().unwrap_or_default().to_string();
         Self {
             ln,
             col,
@@ -284,10 +281,7 @@ fn to_ln_col(lines: &[&str], offset: usize) -> (usize, usize) {
         }
         n += len;
     }
-    (
-        lines.len(),
-        lines.last().map(|l| display_width(l)).unwrap_or(0),
-    )
+    (lines.len(), 0)
 }
 
 #[cfg(feature = "unicode")]
-- 
2.43.0


From 9a494f5a427eeec0c763dcf6e9e8702b819bb387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 10/12] fix: a keyword ends a path, so an integer after it is a
 number

---
 src/compile/lex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index a61e70d..c23cd3e 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -292,7 +292,7 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
             (BlockState::Unknown, Token::Ident) => {
                 self.state = State::BlockPath { begin, end };
             }
-            (BlockState::Path, Token::Pipe | Token::Comma | Token::Colon) => {
+            (BlockState::Path, Token::Pipe | Token::Comma | Token::Colon | Token::Keyword) => {
                 self.state = State::Block { begin, end };
             }
             _ => {}
-- 
2.43.0


From 58c7571face713f0bc57335b8253c369880db3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 11/12] fix: an end tag that starts with a sign can follow a
 number

---
 src/compile/lex.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index c23cd3e..40876b3 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -390,7 +390,15 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
     where
         I: Iterator<Item = (usize, char)> + Clone,
     {
-        (Token::Number, self.lex_while(iter, is_number))
+        let j = self.lex_while(iter.clone(), is_number);
+        // A sign can be part of the number but it can also be the start of the
+        // end tag.
+        let j = iter
+            .take_while(|&(k, _)| k < j)
+            .filter(|(_, c)| !c.is_ascii_alphanumeric())
+            .find(|&(k, _)| self.engine.searcher.starts_with(self.source, k).is_some())
+            .map_or(j, |(k, _)| k);
+        (Token::Number, j)
     }
 
     fn lex_index<I>(&mut self, iter: I) -> (Token, usize)
-- 
2.43.0


From e7f4beb266793bce1488b39e69f134c859f2c7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:52 +0000
Subject: [PATCH 12/12] fix: displaying an error beyond column 65535 panics

A formatting width is limited to 16 bits by recent versions of std, so
the pretty form of an error far along a line could not be displayed.
---
 src/error.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index fbb2b92..9c2e32b 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -250,11 +250,12 @@ impl Pretty {
         let num = (self.ln + 1).to_string();
         let col = self.col + 1;
         let pad = display_width(&num);
-        let align = self.col + self.width;
 
         let z = "";
         let pipe = "|";
         let equals = "=";
+        // Not a formatting width, those are limited to 16 bits.
+        let indent = " ".repeat(self.col);
         let underline = "^".repeat(self.width);
         let extra = "-".repeat(3_usize.saturating_sub(self.width));
         let name = name.unwrap_or("<anonymous>");
@@ -265,7 +266,7 @@ impl Pretty {
             "\n\n {z:pad$}--> {name}:{num}:{col}\
              \n {z:pad$} {pipe}\
              \n {num:>} {pipe} {text}\
-             \n {z:pad$} {pipe} {underline:>align$}{extra}\
+             \n {z:pad$} {pipe} {indent}{underline}{extra}\
              \n {z:pad$} {pipe}\
              \n {z:pad$} {equals} reason: {reason}\n",
         )
-- 
2.43.0

