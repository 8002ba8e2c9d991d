From 9bb4e4b41c404ab7abb9e6e02c23fc6657bd6b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 01/38] fix: keep the super class of a class without a name

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 803564b..e83e74a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1803,7 +1803,7 @@ where
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
             Some(Box::new(super_class))
         } else {
-            None
+            super_class
         };
         let body = self.parse_class_body()?;
 
-- 
2.43.0


From d824cc93937fcb1dd0abc64fc32d31f3f2ee5fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 02/38] fix: export default takes a whole expression and its
 semicolon

---
 src/lib.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e83e74a..449fa5a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -750,22 +750,16 @@ where
                     DefaultExportDecl::Decl(decl)
                 } else {
                     let expr = self.parse_assignment_expr()?;
+                    self.consume_semicolon()?;
                     DefaultExportDecl::Expr(expr)
                 }
             } else {
                 if self.at_contextual_keyword("from") {
                     //error
                 }
-                if self.at_punct(Punct::OpenBrace) {
-                    let expr = self.parse_obj_init()?;
-                    DefaultExportDecl::Expr(expr)
-                } else if self.at_punct(Punct::OpenBracket) {
-                    let expr = self.parse_array_init()?;
-                    DefaultExportDecl::Expr(expr)
-                } else {
-                    let expr = self.parse_assignment_expr()?;
-                    DefaultExportDecl::Expr(expr)
-                }
+                let expr = self.parse_assignment_expr()?;
+                self.consume_semicolon()?;
+                DefaultExportDecl::Expr(expr)
             };
             Ok(ModExport::Default(decl))
         } else if self.at_punct(Punct::Asterisk) {
-- 
2.43.0


From 6c25d1a49564df684acbbf18f00e524ff5084b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 03/38] fix: export let and export const end at their own
 semicolon only

---
 src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 449fa5a..8ccfd83 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -777,7 +777,6 @@ where
             {
                 let lex = self.parse_lexical_decl(false)?;
                 let decl = NamedExportDecl::Decl(lex);
-                self.consume_semicolon()?;
                 Ok(ModExport::Named(decl))
             } else if self.look_ahead.token.matches_keyword(&Keyword::Var) {
                 let _ = self.next_item()?;
-- 
2.43.0


From d1bb1d267b681036356908853aafa6a3816e389e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 04/38] fix: export * requires from

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8ccfd83..675999a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -765,7 +765,7 @@ where
         } else if self.at_punct(Punct::Asterisk) {
             let _ = self.next_item()?;
             if !self.at_contextual_keyword("from") {
-                //error
+                return self.expected_token_error(&self.look_ahead, &["from"]);
             }
             let _ = self.next_item()?;
             let source = self.parse_module_specifier()?;
-- 
2.43.0


From e89798b059cf51eef4c6bb780e44659c8f11a668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 05/38] fix: the iterator ends after an error

---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 675999a..1fe8d61 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4548,10 +4548,16 @@ where
 {
     type Item = Res<ProgramPart>;
     fn next(&mut self) -> Option<Self::Item> {
-        if self.look_ahead.token.is_eof() {
+        if self.found_eof || self.look_ahead.token.is_eof() {
             None
         } else {
-            Some(self.next_part())
+            let part = self.next_part();
+            if part.is_err() {
+                // there is no way to recover from an error, so it is
+                // the last thing this iterator will provide
+                self.found_eof = true;
+            }
+            Some(part)
         }
     }
 }
-- 
2.43.0


From 8119b777b5ba02ff2965516bacf464a88cf86eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:01 +0000
Subject: [PATCH 06/38] fix: a line terminator before a comment is not
 forgotten

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1fe8d61..3aaa312 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4152,8 +4152,13 @@ where
     /// and return the last token
     fn next_item(&mut self) -> Res<Item> {
         let mut look_ahead_span = self.look_ahead.span;
+        self.context.has_line_term = false;
         loop {
-            self.context.has_line_term = self.scanner.pending_new_line;
+            // a line terminator before, between or in the comments ahead
+            // of the next token also counts
+            if self.scanner.pending_new_line {
+                self.context.has_line_term = true;
+            }
             if let Some(look_ahead) = self.scanner.next() {
                 if cfg!(feature = "debug_look_ahead") {
                     self._look_ahead = format!("{:?}: {:?}", look_ahead.token, self.scanner.string_for(&look_ahead.span));
-- 
2.43.0


From c7a702235522d0b50506ce9fc321d144c9c86865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 07/38] fix: a class getter does not forbid yield as a name for
 the rest of the text

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3aaa312..c251fdc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1892,9 +1892,11 @@ where
             if at_get {
                 kind = Some(PropertyKind::Get);
                 computed = self.at_punct(Punct::OpenBracket);
+                let prev_yield = self.context.allow_yield;
                 self.context.allow_yield = false;
                 key = Some(self.parse_object_property_key()?);
                 value = Some(self.parse_getter_method()?);
+                self.context.allow_yield = prev_yield;
             } else if at_set {
                 kind = Some(PropertyKind::Set);
                 computed = self.at_punct(Punct::OpenBracket);
-- 
2.43.0


From 0e273cb772d8ac159b42e40fded5b774871494ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 08/38] fix: looking past the next token leaves the scanner
 untouched

---
 src/lib.rs | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c251fdc..6454735 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4267,15 +4267,9 @@ where
     fn at_import_call(&mut self) -> bool {
         debug!("at_import_call");
         if self.at_keyword(Keyword::Import) {
-            let state = self.scanner.get_state();
-            self.scanner.skip_comments();
-            let ret = if let Some(next) = self.scanner.next() {
-                next.token.matches_punct(&Punct::OpenParen)
-            } else {
-                false
-            };
-            self.scanner.set_state(state);
-            ret
+            self.peek_item()
+                .map(|(next, _)| next.token.matches_punct(&Punct::OpenParen))
+                .unwrap_or(false)
         } else {
             false
         }
@@ -4299,9 +4293,7 @@ where
     /// must be an identifier, `let`, `yield`
     /// `{`, or `[`
     fn at_lexical_decl(&mut self) -> bool {
-        let state = self.scanner.get_state();
-        self.scanner.skip_comments();
-        let ret = if let Some(next) = self.scanner.next() {
+        if let Some((next, _)) = self.peek_item() {
             next.token.is_ident()
                 || next.token.matches_punct(&Punct::OpenBracket)
                 || next.token.matches_punct(&Punct::OpenBrace)
@@ -4309,8 +4301,27 @@ where
                 || next.token.matches_keyword(&Keyword::Yield)
         } else {
             false
-        };
+        }
+    }
+    /// Get the token after the look ahead, not including any comments,
+    /// and if there is a line terminator before it. This will leave
+    /// the scanner as it was found
+    fn peek_item(&mut self) -> Option<(Item, bool)> {
+        let state = self.scanner.get_state();
+        let eof = self.scanner.eof;
+        let pending_new_line = self.scanner.pending_new_line;
+        let mut has_line_term = pending_new_line;
+        let mut ret = None;
+        while let Some(item) = self.scanner.next() {
+            if !item.token.is_comment() {
+                ret = Some((item, has_line_term));
+                break;
+            }
+            has_line_term = has_line_term || self.scanner.pending_new_line;
+        }
         self.scanner.set_state(state);
+        self.scanner.eof = eof;
+        self.scanner.pending_new_line = pending_new_line;
         ret
     }
     /// Test for if the next token is a specific punct
@@ -4357,12 +4368,9 @@ where
     fn at_async_function(&mut self) -> bool {
         debug!("at_async_function");
         if self.at_contextual_keyword("async") {
-            if let Some(peek) = self.scanner.look_ahead() {
+            if let Some((peek, has_line_term)) = self.peek_item() {
                 debug!("peeking ahead {:?}", peek);
-                let pos = self.look_ahead_position;
-                let next_pos = self.get_item_position(&peek);
-                debug!("positions:\n\tlook ahead 1: {:?}\n\tlook ahead 2: {:?}", pos, next_pos);
-                pos.line == next_pos.line && peek.token.matches_keyword(&Keyword::Function)
+                !has_line_term && peek.token.matches_keyword(&Keyword::Function)
             } else {
                 debug!("scanner failed to lookahead");
                 false
-- 
2.43.0


From a56494ed9d7a78ad318788b7c421f901dae1d901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 09/38] fix: positions count every line ending style, in and
 out of comments and templates

---
 src/lib.rs | 56 ++++++++++--------------------------------------------
 1 file changed, 10 insertions(+), 46 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6454735..4e757f6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -344,19 +344,15 @@ fn get_lines(text: &str) -> Vec<Line> {
                     // look ahead 1 char to see if it is a newline pair
                     // if so, don't include it, it will get included in the next
                     // iteration
-                    if let Some(next) = text.get(byte_position..byte_position + 2) {
-                        if next == "\r\n" {
-                            None
-                        } else {
-                            let ret = Line {
-                                start: line_start,
-                                end: byte_position,
-                            };
-                            line_start = byte_position + 1;
-                            Some(ret)
-                        }
-                    } else {
+                    if text[byte_position..].starts_with("\r\n") {
                         None
+                    } else {
+                        let ret = Line {
+                            start: line_start,
+                            end: byte_position,
+                        };
+                        line_start = byte_position + 1;
+                        Some(ret)
                     }
                 }
                 '\n' => {
@@ -4153,7 +4149,6 @@ where
     /// swap the last look ahead with this new token
     /// and return the last token
     fn next_item(&mut self) -> Res<Item> {
-        let mut look_ahead_span = self.look_ahead.span;
         self.context.has_line_term = false;
         loop {
             // a line terminator before, between or in the comments ahead
@@ -4166,7 +4161,6 @@ where
                     self._look_ahead = format!("{:?}: {:?}", look_ahead.token, self.scanner.string_for(&look_ahead.span));
                     debug!("look_ahead: {:?}", self._look_ahead);
                 }
-                self.update_positions(look_ahead_span, look_ahead.span.start)?;
                 if let Token::Comment(ref kind) = &look_ahead.token {
                     let c = self.get_string(&look_ahead.span)?;
                     let kind = match kind {
@@ -4179,9 +4173,10 @@ where
                         span: look_ahead.span,
                         token: ress::tokens::Token::Comment(comment),
                     });
-                    look_ahead_span = look_ahead.span;
                     continue;
                 }
+                self.current_position = self.look_ahead_position;
+                self.look_ahead_position = self.get_item_position(&look_ahead);
                 let ret = replace(&mut self.look_ahead, look_ahead);
                 return Ok(ret);
             } else {
@@ -4203,37 +4198,6 @@ where
         }
     }
 
-    fn update_positions(&mut self, look_ahead_span: Span, next_look_ahead_start: usize) -> Res<()> {
-        let prev_text = &self.scanner.stream[look_ahead_span.start..next_look_ahead_start];
-        let whitespace = &self.scanner.stream[look_ahead_span.end..next_look_ahead_start];
-        
-        let old_look_ahead_pos = self.look_ahead_position;
-        self.current_position = old_look_ahead_pos;
-        let line_counts = prev_text.chars().filter(|c| c == &'\n' || c == &'\r' || c == &'\u{2028}' || c == &'\u{2029}').count() - whitespace.matches("\r\n").count();
-        if line_counts == 0 {
-            self.look_ahead_position.column += prev_text.len();
-            return Ok(())
-        }
-        let last_line_len = if let Some(last_line) = prev_text.lines().last() {
-            // Lines doesn't include a final empty line if the string ends with a new line
-            // we need to make sure we reset the column to 0 if the string ends with a new line
-            if let Some(ref c) = prev_text.chars().last() {
-                if c == &'\n' || c == &'\r' || c == &'\u{2028}' || c == &'\u{2029}' {
-                    0
-                } else {
-                    last_line.len()
-                }
-
-            } else {
-                0
-            }
-        } else {
-            0
-        };
-        self.look_ahead_position.line += line_counts;
-        self.look_ahead_position.column = last_line_len;
-        Ok(())
-    }
     /// Get the next token and validate that it matches
     /// the punct provided, discarding the result
     /// if it does
-- 
2.43.0


From c8f3ba93b29ff639c02253eea0da334c5ae7f28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 10/38] fix: only a name is accepted where a name is required

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 4e757f6..3b25aa8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2785,6 +2785,10 @@ where
         let lh = self.get_string(&self.look_ahead.span);
         debug!("lh: {:?}", lh);
         let ident = self.next_item()?; 
+        match ident.token {
+            Token::Ident | Token::Keyword(_) | Token::Boolean(_) | Token::Null => (),
+            _ => return self.expected_token_error(&ident, &["identifier name"]),
+        }
         let ret = self.get_string(&ident.span)?;
         debug!("ident: {:?}", ret);
         Ok(ret)
-- 
2.43.0


From 57582f31e34b5301d2e40cf6903cdf3721568e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 11/38] fix: report the token that is not a template part, not
 the one after it

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3b25aa8..0e1a7b9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2705,7 +2705,7 @@ where
             };
             Ok(TemplateElement { raw, cooked, tail })
         } else {
-            self.expected_token_error(&self.look_ahead, &["Template part"])
+            self.expected_token_error(&item, &["Template part"])
         }
     }
 
-- 
2.43.0


From 1358e0b5de1558ca51a803a22dddbc4784b715c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 12/38] fix: the rest of an array pattern stays a rest element

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0e1a7b9..34b5a06 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2892,7 +2892,8 @@ where
     fn parse_binding_rest_el(&mut self, params: &mut Vec<Item>) -> Res<(bool, Pat)> {
         debug!("parse_binding_rest_el");
         self.expect_punct(Punct::Spread)?;
-        self.parse_pattern(None, params)
+        let (is_restricted, pat) = self.parse_pattern(None, params)?;
+        Ok((is_restricted, Pat::RestElement(Box::new(pat))))
     }
 
     fn parse_pattern_with_default(&mut self, params: &mut Vec<Item>) -> Res<(bool, Pat)> {
-- 
2.43.0


From f21d4b30c9207925e4ba1301f5f4887874db4f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 13/38] fix: a line terminator after return always ends the
 statement

---
 src/lib.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 34b5a06..3958f04 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1122,10 +1122,8 @@ where
                 .unexpected_token_error(&self.look_ahead, "cannot return in the global context");
         }
         self.expect_keyword(Keyword::Return)?;
-        // if we are at a semi-colon,or close curly brace or eof
-        //the return doesn't have an arg. If we are at a line term
-        //we need to account for a string literal or template literal
-        //since they both can have new lines
+        // if we are at a line term, a semi-colon, a close curly brace
+        // or eof the return doesn't have an arg
 
         let ret = if self.at_return_arg() {
             Some(self.parse_expression()?)
@@ -4226,7 +4224,7 @@ where
 
     fn at_return_arg(&self) -> bool {
         if self.context.has_line_term {
-            return self.look_ahead.is_string() || self.look_ahead.is_template();
+            return false;
         }
         !self.at_punct(Punct::SemiColon)
             && !self.at_punct(Punct::CloseBrace)
-- 
2.43.0


From f3de147050500a5c94bb876bf03ea91092c43993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 14/38] fix: async is allowed as the name of a property

---
 src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3958f04..85ac425 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2523,11 +2523,12 @@ where
             let id = self.scanner.string_for(&start.span).unwrap_or(String::new());
             let _ = self.next_item()?;
             let computed = self.at_punct(Punct::OpenBracket);
-            let is_async = /*self.context.has_line_term
-                && */id == "async"/*
+            let is_async = id == "async"
                 && !self.at_punct(Punct::Colon)
-                && !self.at_punct(Punct::Asterisk)
-                && !self.at_punct(Punct::Comma)*/;
+                && !self.at_punct(Punct::OpenParen)
+                && !self.at_punct(Punct::Comma)
+                && !self.at_punct(Punct::CloseBrace)
+                && !self.at_punct(Punct::Assign);
             let key = if is_async {
                 self.parse_object_property_key()?
             } else {
-- 
2.43.0


From 2d774972ea61922b33ec81b84b11d22aec6ae95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 15/38] fix: an object property value may be an assignment
 whatever comes before it

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 85ac425..ef82ed1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2591,7 +2591,7 @@ where
                         has_proto = true;
                     }
                     let _ = self.next_item()?;
-                    let (prev_bind, prev_assign, prev_first) = self.get_cover_grammar_state();
+                    let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
                     let value = self.parse_assignment_expr()?;
                     self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
                     ObjectProperty::Property(Property {
-- 
2.43.0


From 42d32c79e03413693f026d362de4682b6e498776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 16/38] fix: a default in an object pattern may be an
 assignment

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index ef82ed1..3ea8c11 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3023,7 +3023,9 @@ where
             let value = if self.at_punct(Punct::Assign) {
                 self.expect_punct(Punct::Assign)?;
                 short_hand = true;
+                let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                 let e = self.parse_assignment_expr()?;
+                self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                 PropertyValue::Expr(e)
             } else if !self.at_punct(Punct::Colon) {
                 short_hand = true;
-- 
2.43.0


From 010284e4ee395e106ded02470fdb2b49efa9c32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 17/38] fix: in is an operator inside a pattern in the head of
 a for loop

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3ea8c11..3d6404f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2956,6 +2956,8 @@ where
     ) -> Res<(bool, Pat)> {
         debug!("parse_array_pattern");
         self.expect_punct(Punct::OpenBracket)?;
+        let prev_in = self.context.allow_in;
+        self.context.allow_in = true;
         let mut elements = vec![];
         while !self.at_punct(Punct::CloseBracket) {
             if self.at_punct(Punct::Comma) {
@@ -2975,6 +2977,7 @@ where
                 }
             }
         }
+        self.context.allow_in = prev_in;
         self.expect_punct(Punct::CloseBracket)?;
         Ok((false, Pat::Array(elements)))
     }
@@ -2982,6 +2985,8 @@ where
     fn parse_object_pattern(&mut self) -> Res<(bool, Pat)> {
         debug!("parse_object_pattern");
         self.expect_punct(Punct::OpenBrace)?;
+        let prev_in = self.context.allow_in;
+        self.context.allow_in = true;
         let mut body = vec![];
         while !self.at_punct(Punct::CloseBrace) {
             let el = if self.at_punct(Punct::Spread) {
@@ -2994,6 +2999,7 @@ where
                 self.expect_punct(Punct::Comma)?;
             }
         }
+        self.context.allow_in = prev_in;
         self.expect_punct(Punct::CloseBrace)?;
         Ok((false, Pat::Object(body)))
     }
-- 
2.43.0


From 493a52079136ea5404953105720349add5539004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 18/38] fix: yield takes an operand that begins with an object
 literal or await

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3d6404f..8774593 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4404,7 +4404,7 @@ where
         if token.is_punct() {
             ret = token.matches_punct(&Punct::OpenBracket)
                 || token.matches_punct(&Punct::OpenParen)
-                || token.matches_punct(&Punct::OpenBracket)
+                || token.matches_punct(&Punct::OpenBrace)
                 || token.matches_punct(&Punct::Plus)
                 || token.matches_punct(&Punct::Minus)
                 || token.matches_punct(&Punct::Not)
@@ -4413,7 +4413,8 @@ where
                 || token.matches_punct(&Punct::Decrement)
         }
         if token.is_keyword() {
-            ret = token.matches_keyword(&Keyword::Class)
+            ret = token.matches_keyword(&Keyword::Await)
+                || token.matches_keyword(&Keyword::Class)
                 || token.matches_keyword(&Keyword::Delete)
                 || token.matches_keyword(&Keyword::Function)
                 || token.matches_keyword(&Keyword::Let)
-- 
2.43.0


From e9eb3802aa249451a9063744d886e622ea192e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 19/38] fix: report the token where an object property breaks
 off

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8774593..e18e34b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2642,10 +2642,11 @@ where
                         })
                     }
                 } else {
-                    return self.expected_token_error(&start, &["object property value"]);
+                    return self
+                        .expected_token_error(&self.look_ahead, &["object property value"]);
                 }
             } else {
-                return self.expected_token_error(&start, &["object property key"]);
+                return self.expected_token_error(&self.look_ahead, &["object property key"]);
             }
         };
         Ok((has_proto, prop))
-- 
2.43.0


From 24fec7af0a62a19a5e03c26dec9641e15c197c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 20/38] fix: no line terminator is allowed between the
 parameters of an arrow and the arrow

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index e18e34b..d0a7816 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3089,6 +3089,12 @@ where
                 self.context.is_binding_element = false;
                 let is_async = Self::is_async(&current);
                 if let Some(params) = self.reinterpret_as_cover_formals_list(current.clone())? {
+                    if self.context.has_line_term && !self.config.tolerant {
+                        return self.unexpected_token_error(
+                            &self.look_ahead,
+                            "no line terminator is allowed before =>",
+                        );
+                    }
                     self.expect_punct(Punct::FatArrow)?;
                     if self.at_punct(Punct::OpenBrace) {
                         let prev_in = self.context.allow_in;
-- 
2.43.0


From 877e1e55ff5c8e0ae74e2427ce2a1386da286648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:45 +0000
Subject: [PATCH 21/38] fix: a class without a name does not take one after its
 super class

---
 src/lib.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d0a7816..47448eb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1769,28 +1769,22 @@ where
         let prev_strict = self.context.strict;
         self.context.strict = true;
         self.expect_keyword(Keyword::Class)?;
-        let mut super_class = if self.at_contextual_keyword("extends") {
-            let _ = self.next_item()?;
-            let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-            let super_class = self.parse_left_hand_side_expr()?;
-            self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
-            Some(Box::new(super_class))
-        } else {
-            None
-        };
-        let id = if opt_ident && !self.look_ahead.token.is_ident() {
+        let at_extends = self.at_contextual_keyword("extends");
+        let id = if opt_ident && (at_extends || !self.look_ahead.token.is_ident()) {
             None
+        } else if at_extends {
+            return self.expected_token_error(&self.look_ahead, &["variable identifier"]);
         } else {
             Some(self.parse_var_ident(false)?)
         };
-        super_class = if super_class.is_none() && self.at_contextual_keyword("extends") {
+        let super_class = if self.at_contextual_keyword("extends") {
             let _ = self.next_item()?;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
             let super_class = self.parse_left_hand_side_expr()?;
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
             Some(Box::new(super_class))
         } else {
-            super_class
+            None
         };
         let body = self.parse_class_body()?;
 
-- 
2.43.0


From fad84ec6097c9b85f8f1f4d1b0e0db9e93f358ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:55 +0000
Subject: [PATCH 22/38] fix: only the name async itself makes the name after it
 an arrow parameter

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 47448eb..a152525 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3067,6 +3067,7 @@ where
             let start_line = start_pos.line;
             if &self.scanner.stream[start..end] == "async"
                 && curr_line == start_line
+                && Self::is_ident(&current)
                 && (self.look_ahead.token.is_ident() || self.at_keyword(Keyword::Yield))
             {
                 let arg = self.parse_primary_expression()?;
-- 
2.43.0


From 078bb4337095c86b3047a6b4153581b7b1b87c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:46 +0000
Subject: [PATCH 23/38] fix: only a call of the name async itself begins an
 async arrow

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a152525..b7ccb2d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3879,7 +3879,9 @@ where
                 debug!(target: "look_ahead", "1 {:?}", expr);
             } else if self.at_punct(Punct::OpenParen) {
                 let current_pos = self.look_ahead_position;
-                let async_arrow = is_async && start_pos.line == current_pos.line;
+                let async_arrow = is_async
+                    && Self::is_ident(&expr)
+                    && start_pos.line == current_pos.line;
                 self.context.is_binding_element = false;
                 self.context.is_assignment_target = false;
                 let args = if async_arrow {
-- 
2.43.0


From 2fd21de8a3091235b7a0c5787767541b8157523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 24/38] fix: async in an object literal needs a method

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b7ccb2d..c353682 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2609,7 +2609,7 @@ where
                         method: true,
                         short_hand: false,
                     })
-                } else if start.token.is_ident() {
+                } else if start.token.is_ident() && !is_async {
                     if self.at_punct(Punct::Assign) {
                         self.context.first_covert_initialized_name_error =
                             Some(self.look_ahead.clone());
-- 
2.43.0


From 9551554f0f34dbcb86653d8c819d2f5dfed3dd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:04 +0000
Subject: [PATCH 25/38] fix: a getter or setter of a class is never async

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c353682..19d949a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1867,7 +1867,7 @@ where
         let mut method = false;
 
         let look_ahead_prop_key = Self::qualified_prop_name(&self.look_ahead.token);
-        if token.is_ident() {
+        if token.is_ident() && !is_async {
             let (at_get, at_set) = if let Some(ref k) = key {
                 (
                     Self::is_key(&k, "get") && look_ahead_prop_key,
-- 
2.43.0


From 2f23bba15eef227d60b6130ea94a7a0e484abc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:43 +0000
Subject: [PATCH 26/38] fix: for await needs of

---
 src/lib.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 19d949a..8c434f8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1193,7 +1193,7 @@ where
             false
         };
         self.expect_punct(Punct::OpenParen)?;
-        if self.at_punct(Punct::SemiColon) {
+        if !is_await && self.at_punct(Punct::SemiColon) {
             // any semi-colon would mean standard C style for loop
             // for (;;) {}
             let stmt = self.parse_for_loop(VariableKind::Var)?;
@@ -1207,6 +1207,7 @@ where
             self.context.allow_in = false;
             let mut bindings = self.parse_variable_decl_list(true)?;
             self.context.allow_in = prev_in;
+            self.expect_of_after_await(is_await)?;
             if bindings.len() == 1 {
                 let decl = if let Some(d) = bindings.pop() {
                     d
@@ -1241,7 +1242,10 @@ where
                 },
                 _ => return self.expected_token_error(&kind, &["const", "let"]),
             };
-            if !self.context.strict && self.look_ahead.token.matches_keyword(&Keyword::In) {
+            if !is_await
+                && !self.context.strict
+                && self.look_ahead.token.matches_keyword(&Keyword::In)
+            {
                 let _in = self.next_item()?;
                 //const or let becomes an ident
                 let k = match kind {
@@ -1261,6 +1265,7 @@ where
                 self.context.allow_in = false;
                 let mut decls = self.parse_binding_list(kind, true)?;
                 self.context.allow_in = prev_in;
+                self.expect_of_after_await(is_await)?;
                 if decls.len() == 1 {
                     let decl = if let Some(d) = decls.pop() {
                         d
@@ -1297,6 +1302,7 @@ where
             let init = self.parse_assignment_expr()?;
             self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
             self.context.allow_in = prev_in;
+            self.expect_of_after_await(is_await)?;
             if self.at_keyword(Keyword::In) {
                 let _ = self.next_item()?;
                 let left = LoopLeft::Expr(init);
@@ -1335,6 +1341,14 @@ where
         }
     }
 
+    /// `for await` is always a for-of loop
+    fn expect_of_after_await(&self, is_await: bool) -> Res<()> {
+        if is_await && !self.at_contextual_keyword("of") {
+            return self.expected_token_error(&self.look_ahead, &["of"]);
+        }
+        Ok(())
+    }
+
     fn parse_for_loop(&mut self, kind: VariableKind) -> Res<ForStmt> {
         debug!("parse_for_loop");
         let init = if self.at_punct(Punct::SemiColon) {
-- 
2.43.0


From 031b87a953738c124e5a4a74d1bf6a699589280d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 27/38] fix: keep the parameter and its = when an arrow default
 is a bare yield

---
 src/lib.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8c434f8..532f5df 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3253,31 +3253,29 @@ where
         let mut invalid_param = false;
         params = params
             .into_iter()
-            .map(|p| {
+            .map(|mut p| {
                 if Self::is_assignment(&p) {
-                    match &p {
-                        FunctionArg::Pat(ref p) => match p {
-                            Pat::Assignment(ref a) => match &*a.right {
+                    match p {
+                        FunctionArg::Pat(ref mut p) => match p {
+                            Pat::Assignment(ref mut a) => match &*a.right {
                                 Expr::Yield(ref y) => {
                                     if y.argument.is_some() {
                                         invalid_param = true;
                                     } else {
-                                        return FunctionArg::Pat(Pat::Identifier(
-                                            "yield".to_owned(),
-                                        ));
+                                        *a.right = Expr::Ident("yield".to_owned());
                                     }
                                 }
                                 _ => (),
                             },
                             _ => (),
                         },
-                        FunctionArg::Expr(ref e) => match e {
-                            Expr::Assignment(ref a) => match &*a.right {
+                        FunctionArg::Expr(ref mut e) => match e {
+                            Expr::Assignment(ref mut a) => match &*a.right {
                                 Expr::Yield(ref y) => {
                                     if y.argument.is_some() {
                                         invalid_param = true;
                                     } else {
-                                        return FunctionArg::Expr(Expr::Ident("yield".to_owned()));
+                                        *a.right = Expr::Ident("yield".to_owned());
                                     }
                                 }
                                 _ => (),
-- 
2.43.0


From 4eacb6437635999e04716e31a358a613f4d8d3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:17 +0000
Subject: [PATCH 28/38] fix: the right side of for-of starts with its own cover
 grammar state

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 532f5df..1954dec 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1315,7 +1315,9 @@ where
             } else if self.at_contextual_keyword("of") {
                 let _ = self.next_item()?;
                 let left = LoopLeft::Expr(init);
+                let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                 let right = self.parse_assignment_expr()?;
+                self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                 let body = self.parse_loop_body()?;
                 return Ok(Stmt::ForOf(ForOfStmt {
                     left,
@@ -1400,7 +1402,9 @@ where
     fn parse_for_of_loop(&mut self, left: LoopLeft, is_await: bool) -> Res<ForOfStmt> {
         debug!("parse_for_of_loop");
         let _ = self.next_item()?;
+        let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
         let right = self.parse_assignment_expr()?;
+        self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
         let body = self.parse_loop_body()?;
         Ok(ForOfStmt {
             left,
-- 
2.43.0


From 63bb778616fc22db0be4dddfb03aabad666acf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 29/38] fix: the middle or end of a template does not make `new
 a` a tagged template

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1954dec..80f6d97 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3834,7 +3834,7 @@ where
                     computed: false,
                 };
                 expr = Expr::Member(member);
-            } else if self.look_ahead.is_template() {
+            } else if self.look_ahead.token.is_template_head() {
                 let quasi = self.parse_template_literal()?;
                 expr = Expr::TaggedTemplate(TaggedTemplateExpr {
                     tag: Box::new(expr),
-- 
2.43.0


From 0f54df55a5ed4f6aa88bb54d729967ac8896650d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:39 +0000
Subject: [PATCH 30/38] fix: a function prologue ends with the first statement
 that is no directive

---
 src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 80f6d97..4c1df55 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -512,7 +512,15 @@ where
             if !self.look_ahead.token.is_string() {
                 break;
             }
-            ret.push(self.parse_directive()?);
+            let part = self.parse_directive()?;
+            let past_prolog = match &part {
+                ProgramPart::Dir(_) => false,
+                _ => true,
+            };
+            ret.push(part);
+            if past_prolog {
+                break;
+            }
         }
         Ok(ret)
     }
-- 
2.43.0


From 081d13da9dd771c3be4707d01d35d8cb5a4b38b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:52 +0000
Subject: [PATCH 31/38] fix: the first statement of a function body is parsed
 inside of the function

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4c1df55..f093dfb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1767,7 +1767,6 @@ where
     fn parse_function_source_el(&mut self) -> Res<FunctionBody> {
         debug!("parse_function_source_el");
         self.expect_punct(Punct::OpenBrace)?;
-        let mut body = self.parse_directive_prologues()?;
         let prev_label = self.context.label_set.clone();
         let prev_iter = self.context.in_iteration;
         let prev_switch = self.context.in_switch;
@@ -1776,6 +1775,7 @@ where
         self.context.in_iteration = false;
         self.context.in_switch = false;
         self.context.in_function_body = true;
+        let mut body = self.parse_directive_prologues()?;
         while !self.look_ahead.token.is_eof() {
             if self.at_punct(Punct::CloseBrace) {
                 break;
-- 
2.43.0


From 1686bd16ed4efb5fbb04e9309d015a5ec528cd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 32/38] fix: yield takes an import call or a reserved word and
 leaves the rest of a template alone

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f093dfb..1b4eaf7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4445,6 +4445,7 @@ where
                 || token.matches_keyword(&Keyword::Class)
                 || token.matches_keyword(&Keyword::Delete)
                 || token.matches_keyword(&Keyword::Function)
+                || token.matches_keyword(&Keyword::Import)
                 || token.matches_keyword(&Keyword::Let)
                 || token.matches_keyword(&Keyword::New)
                 || token.matches_keyword(&Keyword::Super)
@@ -4452,6 +4453,11 @@ where
                 || token.matches_keyword(&Keyword::TypeOf)
                 || token.matches_keyword(&Keyword::Void)
                 || token.matches_keyword(&Keyword::Yield)
+                || (!self.context.strict && token.is_strict_reserved())
+        }
+        if self.look_ahead.is_template() {
+            // the middle or the end of a template ends the expression inside of it
+            ret = token.is_template_head();
         }
         if token.is_regex() {
             ret = true;
-- 
2.43.0


From 67974e63f66d872635fdf63e001dde5efab0929b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:02 +0000
Subject: [PATCH 33/38] fix: import without its ( is blamed on what stands
 there instead

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1b4eaf7..aa461e4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2366,9 +2366,12 @@ where
                 } else if self.at_keyword(Keyword::Class) {
                     let cls = self.parse_class_decl(true)?;
                     Ok(Expr::Class(cls))
-                } else if self.at_import_call() {
+                } else if self.at_keyword(Keyword::Import) {
                     // TODO: Double check this
                     let ident = self.parse_ident_name()?;
+                    if !self.at_punct(Punct::OpenParen) {
+                        return self.expected_token_error(&self.look_ahead, &["("]);
+                    }
                     Ok(Expr::Ident(ident))
                 } else {
                     self.expected_token_error(
-- 
2.43.0


From 576b535f41a3f26e801504d0b3835e020b3a2fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:45 +0000
Subject: [PATCH 34/38] fix: a template that begins inside of a substitution is
 not the rest of the outer one

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index aa461e4..366b813 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2705,6 +2705,10 @@ where
         quasis.push(quasi);
         while !breaking {
             expressions.push(self.parse_expression()?);
+            // a template that begins here is not the rest of this one
+            if self.look_ahead.token.is_template_head() {
+                return self.expected_token_error(&self.look_ahead, &["}"]);
+            }
             let quasi = self.parse_template_element()?;
             breaking = quasi.tail;
             quasis.push(quasi);
-- 
2.43.0


From 082829d23bc6b7e4187ef76fe66cc3b5e83c02d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:56 +0000
Subject: [PATCH 35/38] fix: the test of a for loop is not formatted for
 nothing

---
 src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 366b813..f3075a1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1378,7 +1378,6 @@ where
         } else {
             Some(self.parse_expression()?)
         };
-        let _d = format!("{:?}", test);
         debug!("{:#?}", test);
         self.expect_punct(Punct::SemiColon)?;
         let update = if self.at_punct(Punct::CloseParen) {
-- 
2.43.0


From 51f339ccd16af306eab33d51acea5e7154c85024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:59 +0000
Subject: [PATCH 36/38] fix: the labels around a function are set aside, not
 copied

---
 src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f3075a1..43d28b8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1766,11 +1766,10 @@ where
     fn parse_function_source_el(&mut self) -> Res<FunctionBody> {
         debug!("parse_function_source_el");
         self.expect_punct(Punct::OpenBrace)?;
-        let prev_label = self.context.label_set.clone();
+        let prev_label = std::mem::replace(&mut self.context.label_set, HashSet::new());
         let prev_iter = self.context.in_iteration;
         let prev_switch = self.context.in_switch;
         let prev_in_fn = self.context.in_function_body;
-        self.context.label_set = HashSet::new();
         self.context.in_iteration = false;
         self.context.in_switch = false;
         self.context.in_function_body = true;
-- 
2.43.0


From 5de5ea14ef8224b9e71edd2219f970c7c4860217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:01 +0000
Subject: [PATCH 37/38] fix: the operands of a binary expression are moved, not
 copied at every level

---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 43d28b8..cf34c8c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3487,14 +3487,14 @@ where
             self.next_item()?;
             self.context.is_assignment_target = false;
             self.context.is_binding_element = false;
-            let mut left = current.clone();
+            let mut left = current;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
             let mut right = self.parse_exponentiation_expression()?;
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
-            let mut stack = vec![left.clone(), right.clone()];
-            let mut ops = vec![token.token.clone()];
+            let mut stack = vec![left, right];
+            let mut ops = vec![token.token];
             let mut precs = vec![prec];
             loop {
                 prec = self.bin_precedence(&self.look_ahead.token);
-- 
2.43.0


From b6699a2107dc2eacb9fa35fc8ce7ed93e18b7d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:46 +0000
Subject: [PATCH 38/38] fix: the parameters of an arrow function are moved, not
 copied at every level

---
 src/lib.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cf34c8c..aed0290 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3114,7 +3114,7 @@ where
                 self.context.is_assignment_target = false;
                 self.context.is_binding_element = false;
                 let is_async = Self::is_async(&current);
-                if let Some(params) = self.reinterpret_as_cover_formals_list(current.clone())? {
+                if let Some(params) = self.reinterpret_as_cover_formals_list(&mut current)? {
                     if self.context.has_line_term && !self.config.tolerant {
                         return self.unexpected_token_error(
                             &self.look_ahead,
@@ -3259,11 +3259,15 @@ where
         }
     }
 
-    fn reinterpret_as_cover_formals_list(&mut self, expr: Expr) -> Res<Option<Vec<FunctionArg>>> {
-        let (mut params, async_arrow) = if Self::is_ident(&expr) {
-            (vec![FunctionArg::Expr(expr)], false)
+    /// The parameters are taken out of `expr`
+    fn reinterpret_as_cover_formals_list(
+        &mut self,
+        expr: &mut Expr,
+    ) -> Res<Option<Vec<FunctionArg>>> {
+        let (mut params, async_arrow) = if Self::is_ident(expr) {
+            (vec![FunctionArg::Expr(expr.clone())], false)
         } else if let Expr::ArrowParamPlaceHolder(params, is_async) = expr {
-            (params, is_async)
+            (std::mem::replace(params, vec![]), *is_async)
         } else {
             return Ok(None);
         };
-- 
2.43.0

