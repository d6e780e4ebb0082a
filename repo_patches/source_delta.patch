From 98304ea772255e4a6f66d11ed6440aeac5634df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:24 +0000
Subject: [PATCH 01/43] fix: count line terminators once, and see the ones
 around comments

Positions and the line terminator flag came from two different scans of the
text: a CRLF inside a token counted twice, a lone CR, LS or PS gave the wrong
column, a lone CR at the end of the text or before a multi-byte character was
missed, and a new line before a comment was forgotten once the comment was
skipped. All of them now come from the table of lines.
---
 src/lib.rs | 73 ++++++++++++++++++++++--------------------------------
 1 file changed, 29 insertions(+), 44 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 803564b..f8afd09 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -344,19 +344,15 @@ fn get_lines(text: &str) -> Vec<Line> {
                     // look ahead 1 char to see if it is a newline pair
                     // if so, don't include it, it will get included in the next
                     // iteration
-                    if let Some(next) = text.get(byte_position..byte_position + 2) {
-                        if next == "\r\n" {
-                            None
-                        } else {
-                            let ret = Line {
-                                start: line_start,
-                                end: byte_position,
-                            };
-                            line_start = byte_position + 1;
-                            Some(ret)
-                        }
-                    } else {
+                    if text[byte_position..].starts_with("\r\n") {
                         None
+                    } else {
+                        let ret = Line {
+                            start: line_start,
+                            end: byte_position,
+                        };
+                        line_start = byte_position + 1;
+                        Some(ret)
                     }
                 }
                 '\n' => {
@@ -4158,15 +4154,15 @@ where
     /// swap the last look ahead with this new token
     /// and return the last token
     fn next_item(&mut self) -> Res<Item> {
-        let mut look_ahead_span = self.look_ahead.span;
+        let prev_end = self.look_ahead.span.end;
+        let prev_position = self.look_ahead_position;
         loop {
-            self.context.has_line_term = self.scanner.pending_new_line;
             if let Some(look_ahead) = self.scanner.next() {
                 if cfg!(feature = "debug_look_ahead") {
                     self._look_ahead = format!("{:?}: {:?}", look_ahead.token, self.scanner.string_for(&look_ahead.span));
                     debug!("look_ahead: {:?}", self._look_ahead);
                 }
-                self.update_positions(look_ahead_span, look_ahead.span.start)?;
+                self.update_positions(look_ahead.span.start);
                 if let Token::Comment(ref kind) = &look_ahead.token {
                     let c = self.get_string(&look_ahead.span)?;
                     let kind = match kind {
@@ -4179,9 +4175,13 @@ where
                         span: look_ahead.span,
                         token: ress::tokens::Token::Comment(comment),
                     });
-                    look_ahead_span = look_ahead.span;
                     continue;
                 }
+                self.current_position = prev_position;
+                // a line terminator anywhere between the two tokens counts, even
+                // if it is before, inside or after a comment
+                self.context.has_line_term =
+                    self.lines[self.look_ahead_position.line - 1].start > prev_end;
                 let ret = replace(&mut self.look_ahead, look_ahead);
                 return Ok(ret);
             } else {
@@ -4203,36 +4203,21 @@ where
         }
     }
 
-    fn update_positions(&mut self, look_ahead_span: Span, next_look_ahead_start: usize) -> Res<()> {
-        let prev_text = &self.scanner.stream[look_ahead_span.start..next_look_ahead_start];
-        let whitespace = &self.scanner.stream[look_ahead_span.end..next_look_ahead_start];
-        
-        let old_look_ahead_pos = self.look_ahead_position;
-        self.current_position = old_look_ahead_pos;
-        let line_counts = prev_text.chars().filter(|c| c == &'\n' || c == &'\r' || c == &'\u{2028}' || c == &'\u{2029}').count() - whitespace.matches("\r\n").count();
-        if line_counts == 0 {
-            self.look_ahead_position.column += prev_text.len();
-            return Ok(())
-        }
-        let last_line_len = if let Some(last_line) = prev_text.lines().last() {
-            // Lines doesn't include a final empty line if the string ends with a new line
-            // we need to make sure we reset the column to 0 if the string ends with a new line
-            if let Some(ref c) = prev_text.chars().last() {
-                if c == &'\n' || c == &'\r' || c == &'\u{2028}' || c == &'\u{2029}' {
-                    0
-                } else {
-                    last_line.len()
-                }
-
-            } else {
-                0
+    /// Move the look ahead position on to the token starting at
+    /// the byte provided, every line terminator `get_lines` knows
+    /// about starts a new line
+    fn update_positions(&mut self, look_ahead_start: usize) {
+        let mut line = self.look_ahead_position.line;
+        while let Some(next_line) = self.lines.get(line) {
+            if next_line.start > look_ahead_start {
+                break;
             }
-        } else {
-            0
+            line += 1;
+        }
+        self.look_ahead_position = Position {
+            line,
+            column: look_ahead_start - self.lines[line - 1].start,
         };
-        self.look_ahead_position.line += line_counts;
-        self.look_ahead_position.column = last_line_len;
-        Ok(())
     }
     /// Get the next token and validate that it matches
     /// the punct provided, discarding the result
-- 
2.43.0


From 8398259d3ddc9977a7e850af75ab776ce7deb02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:32 +0000
Subject: [PATCH 02/43] fix: peek past the look ahead without ending the
 scanner

Peeking after `let` or `import` at the end of the text marked the scanner as
finished, which set_state does not undo, and `async` saw a comment instead of
`function`.
---
 src/lib.rs | 43 ++++++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f8afd09..6c4606c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4249,21 +4249,24 @@ where
             && !self.look_ahead.is_eof()
     }
 
-    fn at_import_call(&mut self) -> bool {
-        debug!("at_import_call");
-        if self.at_keyword(Keyword::Import) {
-            let state = self.scanner.get_state();
-            self.scanner.skip_comments();
-            let ret = if let Some(next) = self.scanner.next() {
-                next.token.matches_punct(&Punct::OpenParen)
-            } else {
-                false
-            };
-            self.scanner.set_state(state);
-            ret
-        } else {
-            false
+    /// Get the token after the current look ahead, ignoring any
+    /// comments and leaving the scanner where it was
+    fn peek_past_look_ahead(&mut self) -> Option<Item> {
+        let state = self.scanner.get_state();
+        let mut ret = self.scanner.look_ahead();
+        while ret.as_ref().map_or(false, |item| item.token.is_comment()) {
+            let _comment = self.scanner.next();
+            ret = self.scanner.look_ahead();
         }
+        self.scanner.set_state(state);
+        ret
+    }
+
+    fn at_import_call(&mut self) -> bool {
+        self.at_keyword(Keyword::Import)
+            && self
+                .peek_past_look_ahead()
+                .map_or(false, |next| next.token.matches_punct(&Punct::OpenParen))
     }
 
     fn at_qualified_prop_key(&self) -> bool {
@@ -4284,19 +4287,13 @@ where
     /// must be an identifier, `let`, `yield`
     /// `{`, or `[`
     fn at_lexical_decl(&mut self) -> bool {
-        let state = self.scanner.get_state();
-        self.scanner.skip_comments();
-        let ret = if let Some(next) = self.scanner.next() {
+        self.peek_past_look_ahead().map_or(false, |next| {
             next.token.is_ident()
                 || next.token.matches_punct(&Punct::OpenBracket)
                 || next.token.matches_punct(&Punct::OpenBrace)
                 || next.token.matches_keyword(&Keyword::Let)
                 || next.token.matches_keyword(&Keyword::Yield)
-        } else {
-            false
-        };
-        self.scanner.set_state(state);
-        ret
+        })
     }
     /// Test for if the next token is a specific punct
     fn at_punct(&self, p: Punct) -> bool {
@@ -4342,7 +4339,7 @@ where
     fn at_async_function(&mut self) -> bool {
         debug!("at_async_function");
         if self.at_contextual_keyword("async") {
-            if let Some(peek) = self.scanner.look_ahead() {
+            if let Some(peek) = self.peek_past_look_ahead() {
                 debug!("peeking ahead {:?}", peek);
                 let pos = self.look_ahead_position;
                 let next_pos = self.get_item_position(&peek);
-- 
2.43.0


From da24b7e32b1f1b3e9b018d49cc4e19561d5cd853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:35 +0000
Subject: [PATCH 03/43] fix: only accept an identifier name where one is
 required

`a.;`, `a.+` and `export {1}` were accepted, with the punctuation as a name.
---
 src/lib.rs | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6c4606c..634c1a2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2786,22 +2786,13 @@ where
     }
 
     fn parse_ident_name(&mut self) -> Res<Identifier> {
-        debug!("parse_ident_name");
-        let lh = self.get_string(&self.look_ahead.span);
-        debug!("lh: {:?}", lh);
-        let ident = self.next_item()?; 
-        let ret = self.get_string(&ident.span)?;
-        debug!("ident: {:?}", ret);
-        Ok(ret)
-
-        // let ret = match ident.token {
-        //     Token::Ident => Ok(self.scanner.string_for(&ident.span).unwrap_or(String::new())),
-        //     Token::Keyword(k) => Ok(k.to_string()),
-        //     Token::Boolean(b) => Ok(b.to_string()),
-        //     Token::Null => Ok("null".to_string()),
-        //     _ => self.expected_token_error(&ident, &["identifier name"]),
-        // };
-        // ret
+        let ident = self.next_item()?;
+        match &ident.token {
+            Token::Ident | Token::Keyword(_) | Token::Boolean(_) | Token::Null => {
+                self.get_string(&ident.span)
+            }
+            _ => self.expected_token_error(&ident, &["identifier name"]),
+        }
     }
 
     fn parse_var_ident(&mut self, is_var: bool) -> Res<Identifier> {
-- 
2.43.0


From 3971308045a98383c12f99b4eb0e9f5b2212e580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 04/43] fix: do not bind reserved words

`var if = 1` and `function f(while) {}` were accepted and `var let = 1`
rejected: outside strict mode only the strict mode reserved words and, outside
modules and async functions, `await` are names.
---
 src/lib.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 634c1a2..b5cef8c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2802,17 +2802,14 @@ where
             if self.context.strict || !self.context.allow_yield {
                 return self.expected_token_error(&ident, &["variable identifier"]);
             }
-        } else if !ident.token.is_ident() {
-            if self.context.strict && ident.token.is_strict_reserved() {
+        } else if ident.token.matches_keyword(&Keyword::Await) {
+            if self.context.is_module || self.context.r#await {
                 return self.expected_token_error(&ident, &["variable identifier"]);
             }
-            if self.context.strict || ident.token.matches_keyword(&Keyword::Let) || !is_var {
+        } else if !ident.token.is_ident() {
+            if self.context.strict || !is_var || !ident.token.is_strict_reserved() {
                 return self.expected_token_error(&ident, &["variable identifier"]);
             }
-        } else if (self.context.is_module || self.context.r#await)
-            && &self.scanner.stream[ident.span.start..ident.span.end] == "await"
-        {
-            return self.expected_token_error(&ident, &["variable identifier"]);
         }
         let i = match &ident.token {
             &Token::Ident => self.scanner.string_for(&ident.span).unwrap_or(String::new()),
-- 
2.43.0


From 0d6630032f16820a5fa63b48c2cfcddfe773d595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:23 +0000
Subject: [PATCH 05/43] fix: only a lone `async` starts an async arrow function

`async.b c => d` was accepted as `async c => d`.
---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index b5cef8c..fddf82d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3053,6 +3053,7 @@ where
             let start_line = start_pos.line;
             if &self.scanner.stream[start..end] == "async"
                 && curr_line == start_line
+                && Self::is_ident(&current)
                 && (self.look_ahead.token.is_ident() || self.at_keyword(Keyword::Yield))
             {
                 let arg = self.parse_primary_expression()?;
-- 
2.43.0


From 3db8d290a6f918504d45e0af20c3e15d674db19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 06/43] fix: a trailing comma or rest element in a group needs
 an arrow

`(a,) + 1` and `(a, ...b) + 1` were accepted and left the internal
ArrowParamPlaceHolder in the tree.
---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index fddf82d..1bd63f4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2417,6 +2417,9 @@ where
                         let _ = self.next_item()?;
                         if self.at_punct(Punct::CloseParen) {
                             let _ = self.next_item()?;
+                            if !self.at_punct(Punct::FatArrow) {
+                                return self.expected_token_error(&self.look_ahead, &["=>"]);
+                            }
                             return Ok(Expr::ArrowParamPlaceHolder(
                                 exprs.into_iter().map(|e| FunctionArg::Expr(e)).collect(),
                                 false,
@@ -2430,6 +2433,9 @@ where
                                 exprs.into_iter().map(|e| FunctionArg::Expr(e)).collect();
                             args.push(FunctionArg::Pat(rest));
                             self.expect_punct(Punct::CloseParen)?;
+                            if !self.at_punct(Punct::FatArrow) {
+                                return self.expected_token_error(&self.look_ahead, &["=>"]);
+                            }
                             return Ok(Expr::ArrowParamPlaceHolder(args, false));
                         } else {
                             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
-- 
2.43.0


From f1753cb7f4fdb58e9d6af0932acd8decb2750112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:00 +0000
Subject: [PATCH 07/43] fix: `await` is an identifier outside of modules and
 async functions

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 1bd63f4..58a8498 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2339,6 +2339,12 @@ where
             {
                 let ident = self.parse_ident_name()?;
                 Ok(Expr::Ident(ident))
+            } else if !self.context.is_module
+                && !self.context.r#await
+                && self.at_keyword(Keyword::Await)
+            {
+                let ident = self.parse_ident_name()?;
+                Ok(Expr::Ident(ident))
             } else if !self.context.strict && self.look_ahead.token.is_strict_reserved() {
                 let ident = self.parse_ident_name()?;
                 Ok(Expr::Ident(ident))
-- 
2.43.0


From 22fcf0e924a3d5dae155a0475db9d0fdd6824532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 08/43] fix: a use strict directive makes its program or
 function strict

---
 src/lib.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 58a8498..b60389a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -425,6 +425,7 @@ where
         };
         let context = Context {
             is_module,
+            strict: is_module,
             ..Default::default()
         };
         Self::_new(scanner, lines, config, context, comment_handler)
@@ -512,7 +513,15 @@ where
             if !self.look_ahead.token.is_string() {
                 break;
             }
-            ret.push(self.parse_directive()?);
+            let part = self.parse_directive()?;
+            let past_prolog = match &part {
+                ProgramPart::Dir(_) => false,
+                _ => true,
+            };
+            ret.push(part);
+            if past_prolog {
+                break;
+            }
         }
         Ok(ret)
     }
@@ -523,12 +532,17 @@ where
         let expr = self.parse_expression()?;
         if let Expr::Literal(lit) = expr {
             if let Literal::String(s) = lit {
-                if !self.context.allow_strict_directive && s == "use strict" {
-                    return self.unexpected_token_error(&orig, "use strict in an invalid location");
+                let dir = s[1..s.len() - 1].to_string();
+                if dir == "use strict" {
+                    if !self.context.allow_strict_directive {
+                        return self
+                            .unexpected_token_error(&orig, "use strict in an invalid location");
+                    }
+                    self.context.strict = true;
                 }
                 self.consume_semicolon()?;
                 return Ok(ProgramPart::Dir(Dir {
-                    dir: s.trim_matches(|c| c == '\'' || c == '"').to_string(),
+                    dir,
                     expr: Literal::String(s),
                 }));
             } else {
@@ -2765,7 +2779,8 @@ where
         let formal_params = self.parse_formal_params()?;
         found_restricted = found_restricted || formal_params.found_restricted;
         let prev_strict = self.context.strict;
-        let prev_strict_dir = formal_params.simple;
+        let prev_strict_dir = self.context.allow_strict_directive;
+        self.context.allow_strict_directive = formal_params.simple;
         let start = self.look_ahead.clone();
         let body = self.parse_function_source_el()?;
         if self.context.strict && found_restricted {
@@ -3085,9 +3100,14 @@ where
                     self.expect_punct(Punct::FatArrow)?;
                     if self.at_punct(Punct::OpenBrace) {
                         let prev_in = self.context.allow_in;
+                        let prev_strict = self.context.strict;
+                        let prev_allow_strict = self.context.allow_strict_directive;
                         self.context.allow_in = true;
+                        self.context.allow_strict_directive = params.iter().all(Self::is_simple);
                         let body = self.parse_function_source_el()?;
                         self.context.allow_in = prev_in;
+                        self.context.strict = prev_strict;
+                        self.context.allow_strict_directive = prev_allow_strict;
                         current = Expr::ArrowFunction(ArrowFunctionExpr {
                             id: None,
                             expression: false,
-- 
2.43.0


From 0bbe4a7cb4170986ed97e3f8754e6d820df076b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 09/43] fix: every function kind sets and restores yield and
 await for its own body

---
 src/lib.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b60389a..5128b93 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1909,7 +1909,6 @@ where
             if at_get {
                 kind = Some(PropertyKind::Get);
                 computed = self.at_punct(Punct::OpenBracket);
-                self.context.allow_yield = false;
                 key = Some(self.parse_object_property_key()?);
                 value = Some(self.parse_getter_method()?);
             } else if at_set {
@@ -2045,7 +2044,7 @@ where
         debug!("parse_property_method_async_fn");
         let prev_yield = self.context.allow_yield;
         let prev_await = self.context.r#await;
-        self.context.allow_yield = false;
+        self.context.allow_yield = true;
         self.context.r#await = true;
         let params = self.parse_formal_params()?;
         let body = self.parse_property_method_body(params.simple, params.found_restricted)?;
@@ -2064,10 +2063,13 @@ where
     fn parse_property_method(&mut self) -> Res<PropertyValue> {
         debug!("parse_property_method");
         let prev_yield = self.context.allow_yield;
-        self.context.allow_yield = false;
+        let prev_await = self.context.r#await;
+        self.context.allow_yield = true;
+        self.context.r#await = false;
         let params = self.parse_formal_params()?;
         let body = self.parse_property_method_body(params.simple, params.found_restricted)?;
         self.context.allow_yield = prev_yield;
+        self.context.r#await = prev_await;
         let func = Function {
             id: None,
             params: params.params,
@@ -2081,11 +2083,14 @@ where
     fn parse_generator_method(&mut self) -> Res<PropertyValue> {
         debug!("pares_generator_method");
         let prev_yield = self.context.allow_yield;
+        let prev_await = self.context.r#await;
         self.context.allow_yield = true;
+        self.context.r#await = false;
         let params = self.parse_formal_params()?;
         self.context.allow_yield = false;
         let body = self.parse_method_body(params.simple, params.found_restricted)?;
         self.context.allow_yield = prev_yield;
+        self.context.r#await = prev_await;
         let func = Function {
             id: None,
             params: params.params,
@@ -2100,6 +2105,9 @@ where
         debug!("parse_getter_method");
         let is_gen = false;
         let prev_yield = self.context.allow_yield;
+        let prev_await = self.context.r#await;
+        self.context.allow_yield = true;
+        self.context.r#await = false;
         let start_position = self.look_ahead_position;
         let formal_params = self.parse_formal_params()?;
         if formal_params.params.len() > 0 {
@@ -2107,6 +2115,7 @@ where
         }
         let body = self.parse_method_body(formal_params.simple, formal_params.found_restricted)?;
         self.context.allow_yield = prev_yield;
+        self.context.r#await = prev_await;
         Ok(PropertyValue::Expr(Expr::Function(Function {
             id: None,
             params: formal_params.params,
@@ -2138,10 +2147,11 @@ where
     fn parse_setter_method(&mut self) -> Res<PropertyValue> {
         debug!("parse_setter_method");
         let prev_allow = self.context.allow_yield;
+        let prev_await = self.context.r#await;
         self.context.allow_yield = true;
+        self.context.r#await = false;
         let start_position = self.look_ahead_position;
         let params = self.parse_formal_params()?;
-        self.context.allow_yield = prev_allow;
         if params.params.len() != 1 {
             self.tolerate_error(Error::InvalidSetterParams(start_position))?;
         } else if let Some(ref param) = params.params.get(0) {
@@ -2150,6 +2160,8 @@ where
             }
         }
         let body = self.parse_property_method_body(params.simple, params.found_restricted)?;
+        self.context.allow_yield = prev_allow;
+        self.context.r#await = prev_await;
         let func = Function {
             id: None,
             params: params.params,
@@ -3098,6 +3110,10 @@ where
                 let is_async = Self::is_async(&current);
                 if let Some(params) = self.reinterpret_as_cover_formals_list(current.clone())? {
                     self.expect_punct(Punct::FatArrow)?;
+                    let prev_yield = self.context.allow_yield;
+                    let prev_await = self.context.r#await;
+                    self.context.allow_yield = true;
+                    self.context.r#await = is_async;
                     if self.at_punct(Punct::OpenBrace) {
                         let prev_in = self.context.allow_in;
                         let prev_strict = self.context.strict;
@@ -3129,6 +3145,8 @@ where
                             body: ArrowFunctionBody::Expr(Box::new(a)),
                         });
                     };
+                    self.context.allow_yield = prev_yield;
+                    self.context.r#await = prev_await;
                 }
             } else {
                 if self.at_assign() {
-- 
2.43.0


From 85ec6a25c8ccd46487de2fc20f61861401487156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:45 +0000
Subject: [PATCH 10/43] fix: keep the superclass of an anonymous class and
 allow it to be a call

---
 src/lib.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5128b93..32d050e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1792,24 +1792,18 @@ where
         let prev_strict = self.context.strict;
         self.context.strict = true;
         self.expect_keyword(Keyword::Class)?;
-        let mut super_class = if self.at_contextual_keyword("extends") {
-            let _ = self.next_item()?;
-            let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-            let super_class = self.parse_left_hand_side_expr()?;
-            self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
-            Some(Box::new(super_class))
-        } else {
-            None
-        };
-        let id = if opt_ident && !self.look_ahead.token.is_ident() {
+        let id = if opt_ident
+            && (!(self.look_ahead.token.is_ident() || self.at_keyword(Keyword::Await))
+                || self.at_contextual_keyword("extends"))
+        {
             None
         } else {
             Some(self.parse_var_ident(false)?)
         };
-        super_class = if super_class.is_none() && self.at_contextual_keyword("extends") {
+        let super_class = if self.at_contextual_keyword("extends") {
             let _ = self.next_item()?;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-            let super_class = self.parse_left_hand_side_expr()?;
+            let super_class = self.parse_left_hand_side_expr_allow_call()?;
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
             Some(Box::new(super_class))
         } else {
-- 
2.43.0


From 07bbf7207a48e6b56bb83b8572869d36c4cbbd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 11/43] fix: only an async method's modifier is taken as async,
 not a member of that name

---
 src/lib.rs | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 32d050e..6769017 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1846,10 +1846,6 @@ where
         let mut computed = false;
         let mut is_static = false;
         let mut is_async = false;
-        if self.at_contextual_keyword("async") {
-            let _async = self.next_item()?;
-            is_async = true;
-        }
         if self.at_punct(Punct::Asterisk) {
             debug!("found leading asterisk");
             let _ = self.next_item()?;
@@ -1875,13 +1871,16 @@ where
             }
             if token.is_ident()
                 && !self.context.has_line_term
-                && self.at_contextual_keyword("async")
+                && key.as_ref().map_or(false, |k| Self::is_key(k, "async"))
             {
                 if !self.look_ahead.token.matches_punct(&Punct::Colon)
                     && !self.look_ahead.token.matches_punct(&Punct::OpenParen)
                     && !self.look_ahead.token.matches_punct(&Punct::Asterisk)
                 {
-                    return self.expected_token_error(&self.look_ahead, &[":", "(", "*"]);
+                    is_async = true;
+                    token = self.look_ahead.token.clone();
+                    computed = self.at_punct(Punct::OpenBracket);
+                    key = Some(self.parse_object_property_key()?);
                 }
             }
         }
@@ -1890,7 +1889,7 @@ where
         let mut method = false;
 
         let look_ahead_prop_key = Self::qualified_prop_name(&self.look_ahead.token);
-        if token.is_ident() {
+        if token.is_ident() && !is_async {
             let (at_get, at_set) = if let Some(ref k) = key {
                 (
                     Self::is_key(&k, "get") && look_ahead_prop_key,
@@ -1949,7 +1948,7 @@ where
                 return self.expected_token_error(&self.look_ahead, &[]);
             }
             if !is_static && Self::is_key(&key, "constructor") {
-                if kind != PropertyKind::Method || !method {
+                if kind != PropertyKind::Method || !method || is_async {
                     return self
                         .expected_token_error(&self.look_ahead, &["[constructor declaration]"]);
                 }
@@ -2561,12 +2560,10 @@ where
         let (key, is_async, computed) = if let Token::Ident = start.token {
             let id = self.scanner.string_for(&start.span).unwrap_or(String::new());
             let _ = self.next_item()?;
-            let computed = self.at_punct(Punct::OpenBracket);
-            let is_async = /*self.context.has_line_term
-                && */id == "async"/*
-                && !self.at_punct(Punct::Colon)
-                && !self.at_punct(Punct::Asterisk)
-                && !self.at_punct(Punct::Comma)*/;
+            let is_async = !self.context.has_line_term
+                && id == "async"
+                && (self.at_qualified_prop_key() || self.at_punct(Punct::Asterisk));
+            let computed = is_async && self.at_punct(Punct::OpenBracket);
             let key = if is_async {
                 self.parse_object_property_key()?
             } else {
-- 
2.43.0


From 5474a783f588b3d8437ee071e4f19a77f8c06545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 12/43] fix: an array pattern's rest element is a rest element

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6769017..5b833ab 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2983,7 +2983,7 @@ where
             } else {
                 if self.at_punct(Punct::Spread) {
                     let (_, el) = self.parse_binding_rest_el(params)?;
-                    elements.push(Some(ArrayPatPart::Pat(el)));
+                    elements.push(Some(ArrayPatPart::Pat(Pat::RestElement(Box::new(el)))));
                     break;
                 } else {
                     let (_, el) = self.parse_pattern_with_default(params)?;
-- 
2.43.0


From cb43559aa5053a9a3b1b0bd11b602bb3cb554fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:35 +0000
Subject: [PATCH 13/43] fix: export forms end where their grammar ends

---
 src/lib.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5b833ab..ff47250 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -760,28 +760,22 @@ where
                     DefaultExportDecl::Decl(decl)
                 } else {
                     let expr = self.parse_assignment_expr()?;
+                    self.consume_semicolon()?;
                     DefaultExportDecl::Expr(expr)
                 }
             } else {
                 if self.at_contextual_keyword("from") {
                     //error
                 }
-                if self.at_punct(Punct::OpenBrace) {
-                    let expr = self.parse_obj_init()?;
-                    DefaultExportDecl::Expr(expr)
-                } else if self.at_punct(Punct::OpenBracket) {
-                    let expr = self.parse_array_init()?;
-                    DefaultExportDecl::Expr(expr)
-                } else {
-                    let expr = self.parse_assignment_expr()?;
-                    DefaultExportDecl::Expr(expr)
-                }
+                let expr = self.parse_assignment_expr()?;
+                self.consume_semicolon()?;
+                DefaultExportDecl::Expr(expr)
             };
             Ok(ModExport::Default(decl))
         } else if self.at_punct(Punct::Asterisk) {
             let _ = self.next_item()?;
             if !self.at_contextual_keyword("from") {
-                //error
+                return self.expected_token_error(&self.look_ahead, &["from"]);
             }
             let _ = self.next_item()?;
             let source = self.parse_module_specifier()?;
@@ -793,7 +787,6 @@ where
             {
                 let lex = self.parse_lexical_decl(false)?;
                 let decl = NamedExportDecl::Decl(lex);
-                self.consume_semicolon()?;
                 Ok(ModExport::Named(decl))
             } else if self.look_ahead.token.matches_keyword(&Keyword::Var) {
                 let _ = self.next_item()?;
-- 
2.43.0


From c629a94c6cbad467588599506e7fb252f507d95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 14/43] fix: do not assign to expressions which are not targets

---
 src/lib.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index ff47250..768051e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1762,6 +1762,7 @@ where
         let prev_iter = self.context.in_iteration;
         let prev_switch = self.context.in_switch;
         let prev_in_fn = self.context.in_function_body;
+        let (prev_bind, prev_assign, prev_first) = self.get_cover_grammar_state();
         self.context.label_set = HashSet::new();
         self.context.in_iteration = false;
         self.context.in_switch = false;
@@ -1777,6 +1778,7 @@ where
         self.context.in_iteration = prev_iter;
         self.context.in_switch = prev_switch;
         self.context.in_function_body = prev_in_fn;
+        self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
         Ok(body)
     }
 
@@ -2280,6 +2282,8 @@ where
                 }
             }
             if self.at_async_function() {
+                self.context.is_assignment_target = false;
+                self.context.is_binding_element = false;
                 self.parse_function_expr()
             } else {
                 let ident = self.next_item()?;
@@ -2313,6 +2317,8 @@ where
             Ok(Expr::Literal(lit))
         } else if self.look_ahead.is_template() {
             let lit = self.parse_template_literal()?;
+            self.context.is_assignment_target = false;
+            self.context.is_binding_element = false;
             Ok(Expr::Literal(Literal::Template(lit)))
         } else if self.look_ahead.token.is_punct() {
             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
@@ -2489,6 +2495,13 @@ where
                         ));
                     }
                 }
+                match &ex {
+                    Expr::Assignment(_) | Expr::Sequence(_) | Expr::Yield(_) => {
+                        self.context.is_assignment_target = false;
+                        self.context.is_binding_element = false;
+                    }
+                    _ => (),
+                }
                 Ok(ex)
             }
         }
@@ -3692,6 +3705,8 @@ where
         debug!("parse_await_expr");
         let _await = self.next_item()?;
         let arg = self.parse_unary_expression()?;
+        self.context.is_assignment_target = false;
+        self.context.is_binding_element = false;
         Ok(Expr::Await(Box::new(arg)))
     }
 
@@ -3834,6 +3849,8 @@ where
                 expr = Expr::Member(member);
             } else if self.look_ahead.is_template() {
                 let quasi = self.parse_template_literal()?;
+                self.context.is_assignment_target = false;
+                self.context.is_binding_element = false;
                 expr = Expr::TaggedTemplate(TaggedTemplateExpr {
                     tag: Box::new(expr),
                     quasi,
@@ -3929,6 +3946,8 @@ where
                 expr = Expr::Member(member);
             } else if self.look_ahead.token.is_template_head() {
                 let quasi = self.parse_template_literal()?;
+                self.context.is_assignment_target = false;
+                self.context.is_binding_element = false;
                 let temp = TaggedTemplateExpr {
                     tag: Box::new(expr),
                     quasi,
@@ -4045,6 +4064,8 @@ where
             let _ = self.next_item()?;
             if self.at_contextual_keyword("target") && self.context.in_function_body {
                 let property = self.parse_ident_name()?;
+                self.context.is_assignment_target = false;
+                self.context.is_binding_element = false;
                 Ok(Expr::MetaProperty(MetaProperty {
                     meta: String::from("new"),
                     property,
-- 
2.43.0


From 31fa9d07a8f97ec70aee00b3950bb70364d6e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 15/43] fix: a unary expression is not the base of an
 exponentiation

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 768051e..2cf3dd5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3579,10 +3579,18 @@ where
 
     fn parse_exponentiation_expression(&mut self) -> Res<Expr> {
         debug!("parse_exponentiation_expression");
+        let unary = Self::unary_operator(&self.look_ahead.token).is_some()
+            || (self.context.r#await && self.at_keyword(Keyword::Await));
         let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
         let expr = self.parse_unary_expression()?;
         self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
         if self.at_punct(Punct::Exponent) {
+            if unary && !self.config.tolerant {
+                return self.unexpected_token_error(
+                    &self.look_ahead,
+                    "An unparenthesized unary expression cannot be a base",
+                );
+            }
             let _stars = self.next_item()?;
             self.context.is_assignment_target = false;
             self.context.is_binding_element = false;
-- 
2.43.0


From ff54b38fe62ebe6f7d1aab1ebf7070844978e8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:57 +0000
Subject: [PATCH 16/43] fix: restricted productions end at a line terminator

---
 src/lib.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2cf3dd5..6948f8f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1066,7 +1066,10 @@ where
         debug!("parse_throw_stmt");
         self.expect_keyword(Keyword::Throw)?;
         if self.context.has_line_term {
-            //error: no new line allowed after throw
+            return self.unexpected_token_error(
+                &self.look_ahead,
+                "no new line is allowed after throw",
+            );
         }
         let arg = self.parse_expression()?;
         self.consume_semicolon()?;
@@ -1137,9 +1140,8 @@ where
         }
         self.expect_keyword(Keyword::Return)?;
         // if we are at a semi-colon,or close curly brace or eof
-        //the return doesn't have an arg. If we are at a line term
-        //we need to account for a string literal or template literal
-        //since they both can have new lines
+        //the return doesn't have an arg, neither does it if there
+        //is a line term right after it
 
         let ret = if self.at_return_arg() {
             Some(self.parse_expression()?)
@@ -3106,6 +3108,12 @@ where
                 self.context.is_binding_element = false;
                 let is_async = Self::is_async(&current);
                 if let Some(params) = self.reinterpret_as_cover_formals_list(current.clone())? {
+                    if self.context.has_line_term {
+                        return self.unexpected_token_error(
+                            &self.look_ahead,
+                            "no new line is allowed before =>",
+                        );
+                    }
                     self.expect_punct(Punct::FatArrow)?;
                     let prev_yield = self.context.allow_yield;
                     let prev_await = self.context.r#await;
@@ -4294,7 +4302,7 @@ where
 
     fn at_return_arg(&self) -> bool {
         if self.context.has_line_term {
-            return self.look_ahead.is_string() || self.look_ahead.is_template();
+            return false;
         }
         !self.at_punct(Punct::SemiColon)
             && !self.at_punct(Punct::CloseBrace)
-- 
2.43.0


From fab16f632ae6f7088064d50a842edb6a7390a499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 17/43] fix: a try statement needs a handler or a finalizer

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6948f8f..ec94d54 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1028,7 +1028,7 @@ where
             None
         };
         if handler.is_none() && finalizer.is_none() {
-            //error: one or the other must be declared
+            return self.expected_token_error(&self.look_ahead, &["catch", "finally"]);
         }
         Ok(TryStmt {
             block,
-- 
2.43.0


From 6b1c94b733b57635078d3469531d58f31c306d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 18/43] fix: the rest of a template is not a tagged template of
 the new expression in it

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ec94d54..91705a8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3863,7 +3863,7 @@ where
                     computed: false,
                 };
                 expr = Expr::Member(member);
-            } else if self.look_ahead.is_template() {
+            } else if self.look_ahead.token.is_template_head() {
                 let quasi = self.parse_template_literal()?;
                 self.context.is_assignment_target = false;
                 self.context.is_binding_element = false;
-- 
2.43.0


From 10e9e5443804eedd17c116b50e75f8d99b653b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 19/43] fix: know where the operand of a yield starts and that
 a template's rest is none

---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 91705a8..ef1bfba 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4460,7 +4460,7 @@ where
         let mut ret = true;
         let token = &self.look_ahead.token;
         if token.is_punct() {
-            ret = token.matches_punct(&Punct::OpenBracket)
+            ret = token.matches_punct(&Punct::OpenBrace)
                 || token.matches_punct(&Punct::OpenParen)
                 || token.matches_punct(&Punct::OpenBracket)
                 || token.matches_punct(&Punct::Plus)
@@ -4471,9 +4471,11 @@ where
                 || token.matches_punct(&Punct::Decrement)
         }
         if token.is_keyword() {
-            ret = token.matches_keyword(&Keyword::Class)
+            ret = token.matches_keyword(&Keyword::Await)
+                || token.matches_keyword(&Keyword::Class)
                 || token.matches_keyword(&Keyword::Delete)
                 || token.matches_keyword(&Keyword::Function)
+                || token.matches_keyword(&Keyword::Import)
                 || token.matches_keyword(&Keyword::Let)
                 || token.matches_keyword(&Keyword::New)
                 || token.matches_keyword(&Keyword::Super)
@@ -4485,6 +4487,9 @@ where
         if token.is_regex() {
             ret = true;
         }
+        if token.is_template_body() || (token.is_template_tail() && !token.is_template_head()) {
+            ret = false;
+        }
         ret
     }
 
-- 
2.43.0


From 368c5b5b1740bebce71a825c770165c7bb5a6fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 20/43] fix: the iterator moves past an error which consumed
 nothing

---
 src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ef1bfba..60ea0ec 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4605,7 +4605,13 @@ where
         if self.look_ahead.token.is_eof() {
             None
         } else {
-            Some(self.next_part())
+            let start = self.look_ahead.span.start;
+            let ret = self.next_part();
+            if ret.is_err() && self.look_ahead.span.start == start {
+                // skip a token no part can start with, it would be an error forever
+                let _ = self.next_item();
+            }
+            Some(ret)
         }
     }
 }
-- 
2.43.0


From 13674718a3c17628eb3398fffcd970f3078bb662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 21/43] fix: const never names the left side of a for in loop

---
 src/lib.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 60ea0ec..14735b3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1259,15 +1259,13 @@ where
                 },
                 _ => return self.expected_token_error(&kind, &["const", "let"]),
             };
-            if !self.context.strict && self.look_ahead.token.matches_keyword(&Keyword::In) {
+            if !self.context.strict
+                && kind == VariableKind::Let
+                && self.look_ahead.token.matches_keyword(&Keyword::In)
+            {
                 let _in = self.next_item()?;
-                //const or let becomes an ident
-                let k = match kind {
-                    VariableKind::Var => String::from("var"),
-                    VariableKind::Let => String::from("let"),
-                    VariableKind::Const => String::from("const"),
-                };
-                let left = LoopLeft::Expr(Expr::Ident(k));
+                //let becomes an ident
+                let left = LoopLeft::Expr(Expr::Ident(String::from("let")));
                 let right = self.parse_expression()?;
                 Ok(Stmt::ForIn(ForInStmt {
                     left,
-- 
2.43.0


From 45eeb738f7a26e9be16fc634b4585bd52a821df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 22/43] fix: null is a literal, not an identifier

---
 src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 14735b3..b7c5756 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2286,7 +2286,14 @@ where
                 self.context.is_binding_element = false;
                 self.parse_function_expr()
             } else {
+                // the scanner produces identifiers for `null`
+                let is_null = self.at_contextual_keyword("null");
                 let ident = self.next_item()?;
+                if is_null {
+                    self.context.is_assignment_target = false;
+                    self.context.is_binding_element = false;
+                    return Ok(Expr::Literal(Literal::Null));
+                }
                 Ok(Expr::Ident(self.get_string(&ident.span)?))
             }
         } else if self.look_ahead.token.is_number() || self.look_ahead.token.is_string() {
@@ -2833,7 +2840,11 @@ where
 
     fn parse_var_ident(&mut self, is_var: bool) -> Res<Identifier> {
         debug!("parse_var_ident");
+        let is_null = self.at_contextual_keyword("null");
         let ident = self.next_item()?;
+        if is_null {
+            return self.expected_token_error(&ident, &["variable identifier"]);
+        }
         if ident.token.matches_keyword(&Keyword::Yield) {
             if self.context.strict || !self.context.allow_yield {
                 return self.expected_token_error(&ident, &["variable identifier"]);
-- 
2.43.0


From 11986d881a5451435ef94a1183fbde12763cd7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:28 +0000
Subject: [PATCH 23/43] fix: a template literal goes on only with a middle or a
 tail

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index b7c5756..5ea52e1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2729,6 +2729,14 @@ where
         quasis.push(quasi);
         while !breaking {
             expressions.push(self.parse_expression()?);
+            // a template without substitutions is a tail too to the scanner's helpers
+            if self.look_ahead.token.is_template_head()
+                || !self.look_ahead.token.is_template_body()
+                    && !self.look_ahead.token.is_template_tail()
+            {
+                return self
+                    .expected_token_error(&self.look_ahead, &["template body", "template tail"]);
+            }
             let quasi = self.parse_template_element()?;
             breaking = quasi.tail;
             quasis.push(quasi);
-- 
2.43.0


From 269d1c2ad22fdcf6a67b9c22697483486d23d35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:18 +0000
Subject: [PATCH 24/43] fix: only a call of async itself is the head of an
 async arrow function

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5ea52e1..9c06a8c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3943,7 +3943,8 @@ where
                 debug!(target: "look_ahead", "1 {:?}", expr);
             } else if self.at_punct(Punct::OpenParen) {
                 let current_pos = self.look_ahead_position;
-                let async_arrow = is_async && start_pos.line == current_pos.line;
+                let async_arrow =
+                    is_async && Self::is_ident(&expr) && start_pos.line == current_pos.line;
                 self.context.is_binding_element = false;
                 self.context.is_assignment_target = false;
                 let args = if async_arrow {
-- 
2.43.0


From 93e4497a9b5d835eacff2c63adeb402bb9d07f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:21 +0000
Subject: [PATCH 25/43] fix: an async method in an object literal needs its
 parameters

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9c06a8c..6b76e7c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2663,7 +2663,7 @@ where
                         method: true,
                         short_hand: false,
                     })
-                } else if start.token.is_ident() {
+                } else if start.token.is_ident() && !is_async {
                     if self.at_punct(Punct::Assign) {
                         self.context.first_covert_initialized_name_error =
                             Some(self.look_ahead.clone());
-- 
2.43.0


From 5c264f0efbf87cc1e0feffa5ac118c0ba1dd7832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:23 +0000
Subject: [PATCH 26/43] fix: a const declaration needs an initializer outside
 of a for head

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6b76e7c..e141178 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1650,7 +1650,7 @@ where
             }
         }
         let init = if kind == VariableKind::Const {
-            if !self.at_keyword(Keyword::In) && !self.at_contextual_keyword("of") {
+            if !in_for || !self.at_keyword(Keyword::In) && !self.at_contextual_keyword("of") {
                 if self.at_punct(Punct::Assign) {
                     let _ = self.next_item()?;
                     let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-- 
2.43.0


From 3e518d9691329250c724196bec9b15135ee8b6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:31 +0000
Subject: [PATCH 27/43] fix: no in operator in any part of the initializer of a
 for loop

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e141178..6edd115 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1312,8 +1312,8 @@ where
             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
             let init = self.parse_assignment_expr()?;
             self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
-            self.context.allow_in = prev_in;
             if self.at_keyword(Keyword::In) {
+                self.context.allow_in = prev_in;
                 let _ = self.next_item()?;
                 let left = LoopLeft::Expr(init);
                 let right = self.parse_expression()?;
@@ -1323,6 +1323,7 @@ where
                     body: Box::new(self.parse_loop_body()?),
                 }));
             } else if self.at_contextual_keyword("of") {
+                self.context.allow_in = prev_in;
                 let _ = self.next_item()?;
                 let left = LoopLeft::Expr(init);
                 let right = self.parse_assignment_expr()?;
@@ -1346,6 +1347,7 @@ where
                 } else {
                     LoopInit::Expr(init)
                 };
+                self.context.allow_in = prev_in;
                 return Ok(Stmt::For(self.parse_for_loop_cont(Some(init))?));
             }
         }
-- 
2.43.0


From e41b1bfbfbb1c068283f773a95b70538d52380a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 28/43] fix: null is a property and an export name, a reserved
 word no binding name

---
 src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6edd115..356d8c8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -703,7 +703,9 @@ where
     }
 
     fn parse_import_specifier(&mut self) -> Res<ImportSpecifier> {
-        let (imported, local) = if self.look_ahead.token.is_ident() {
+        let (imported, local) = if self.look_ahead.token.is_ident()
+            && !self.at_contextual_keyword("null")
+        {
             let imported = self.parse_var_ident(false)?;
             let local = if self.at_contextual_keyword("as") {
                 let _ = self.next_item();
@@ -718,7 +720,8 @@ where
                 let _ = self.next_item()?;
                 Some(self.parse_var_ident(false)?)
             } else {
-                None
+                // a reserved word cannot name the binding
+                return self.expected_token_error(&self.look_ahead, &["as"]);
             };
             (imported, local)
         };
@@ -3064,7 +3067,8 @@ where
         let mut computed = false;
         let mut short_hand = false;
         let method = false;
-        let (key, value) = if self.look_ahead.token.is_ident() {
+        let (key, value) = if self.look_ahead.token.is_ident() && !self.at_contextual_keyword("null")
+        {
             let key = PropertyKey::Expr(Expr::Ident(self.parse_var_ident(false)?));
             let value = if self.at_punct(Punct::Assign) {
                 self.expect_punct(Punct::Assign)?;
-- 
2.43.0


From 506368a2776603001ae4ff90fa3958b03408de5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:21 +0000
Subject: [PATCH 29/43] fix: the in operator is allowed inside of a pattern in
 a for head

---
 src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 356d8c8..8281c17 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2974,9 +2974,17 @@ where
         debug!("parse_pattern");
         if self.at_punct(Punct::OpenBracket) {
             let kind = kind.unwrap_or(VariableKind::Var);
-            self.parse_array_pattern(params, kind)
+            let prev_in = self.context.allow_in;
+            self.context.allow_in = true;
+            let ret = self.parse_array_pattern(params, kind)?;
+            self.context.allow_in = prev_in;
+            Ok(ret)
         } else if self.at_punct(Punct::OpenBrace) {
-            self.parse_object_pattern()
+            let prev_in = self.context.allow_in;
+            self.context.allow_in = true;
+            let ret = self.parse_object_pattern()?;
+            self.context.allow_in = prev_in;
+            Ok(ret)
         } else {
             let is_var = if let Some(kind) = kind {
                 match kind {
-- 
2.43.0


From eced184fc6355b4c7dafd358ae58ac71fef827ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 30/43] fix: yield is an operator in the default values of a
 declared pattern

---
 src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8281c17..5a8b0b4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -124,6 +124,8 @@ struct Context {
     /// If we have passed the initial prelude where a valid
     /// `'use strict'` directive would exist
     past_prolog: bool,
+    /// If we are in the formal parameters of a function
+    in_params: bool,
 }
 
 impl Default for Config {
@@ -152,6 +154,7 @@ impl Default for Context {
             strict: false,
             has_line_term: false,
             past_prolog: false,
+            in_params: false,
         }
     }
 }
@@ -1763,6 +1766,8 @@ where
         debug!("parse_function_source_el");
         self.expect_punct(Punct::OpenBrace)?;
         let mut body = self.parse_directive_prologues()?;
+        let prev_params = self.context.in_params;
+        self.context.in_params = false;
         let prev_label = self.context.label_set.clone();
         let prev_iter = self.context.in_iteration;
         let prev_switch = self.context.in_switch;
@@ -1783,6 +1788,7 @@ where
         self.context.in_iteration = prev_iter;
         self.context.in_switch = prev_switch;
         self.context.in_function_body = prev_in_fn;
+        self.context.in_params = prev_params;
         self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
         Ok(body)
     }
@@ -2913,6 +2919,8 @@ where
     fn parse_formal_param(&mut self, simple: bool) -> Res<(bool, bool, FunctionArg)> {
         debug!("parse_formal_param");
         let mut params: Vec<Item> = Vec::new();
+        let prev_params = self.context.in_params;
+        self.context.in_params = true;
         let (found_restricted, param) = if self.at_punct(Punct::Spread) {
             let (found_restricted, pat) = self.parse_rest_element(&mut params)?;
             (found_restricted, FunctionArg::Pat(pat))
@@ -2920,6 +2928,7 @@ where
             let (found_restricted, pat) = self.parse_pattern_with_default(&mut params)?;
             (found_restricted, FunctionArg::Pat(pat))
         };
+        self.context.in_params = prev_params;
         let simple = simple && Self::is_simple(&param);
         Ok((simple, found_restricted, param))
     }
@@ -2950,7 +2959,10 @@ where
         if self.at_punct(Punct::Assign) {
             let _assign = self.next_item()?;
             let prev_yield = self.context.allow_yield;
-            self.context.allow_yield = true;
+            if self.context.in_params {
+                // a default value of a parameter cannot yield
+                self.context.allow_yield = true;
+            }
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
             let right = self.parse_assignment_expr()?;
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
-- 
2.43.0


From b48bd90745cff8fb669941b7f8ef73c338b7884c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:48 +0000
Subject: [PATCH 31/43] fix: eval and arguments cannot be bound in strict code

---
 src/lib.rs | 51 ++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5a8b0b4..803a054 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1711,11 +1711,9 @@ where
         let (id, first_restricted) = if !opt_ident || !self.at_punct(Punct::OpenParen) {
             let start = self.look_ahead.clone();
             let id = self.parse_var_ident(false)?;
-            if self.context.strict && start.token.is_restricted() {
-                return self.expected_token_error(&start, &[]);
-            }
+            self.check_restricted_binding(&id, &start)?;
             let first_restricted = if !self.context.strict {
-                if start.token.is_restricted() {
+                if Self::is_restricted_word(&id) {
                     Some(start)
                 } else if start.token.is_strict_reserved() {
                     Some(start)
@@ -1745,6 +1743,12 @@ where
             if let Some(ref item) = first_restricted {
                 return self.expected_token_error(item, &[]);
             }
+            if formal_params.found_restricted && !self.config.tolerant {
+                return self.unexpected_token_error(
+                    &self.look_ahead,
+                    "restricted parameter name in strict context",
+                );
+            }
         }
         if self.context.strict && strict {
             return self.expected_token_error(&self.look_ahead, &[]);
@@ -1804,7 +1808,10 @@ where
         {
             None
         } else {
-            Some(self.parse_var_ident(false)?)
+            let start = self.look_ahead.clone();
+            let id = self.parse_var_ident(false)?;
+            self.check_restricted_binding(&id, &start)?;
+            Some(id)
         };
         let super_class = if self.at_contextual_keyword("extends") {
             let _ = self.next_item()?;
@@ -2794,7 +2801,7 @@ where
         let id = if !self.at_punct(Punct::OpenParen) {
             let item = self.look_ahead.clone();
             let id = self.parse_fn_name(is_gen)?;
-            if item.token.is_restricted() {
+            if Self::is_restricted_word(&id) {
                 if self.context.strict {
                     if !self.config.tolerant {
                         return self
@@ -2885,6 +2892,14 @@ where
         Ok(i)
     }
 
+    /// `eval` and `arguments` cannot be bound in strict code
+    fn check_restricted_binding(&self, name: &str, item: &Item) -> Res<()> {
+        if self.context.strict && !self.config.tolerant && Self::is_restricted_word(name) {
+            return self.unexpected_token_error(item, "restricted ident in strict context");
+        }
+        Ok(())
+    }
+
     fn parse_formal_params(&mut self) -> Res<FormalParams> {
         debug!("parse_formal_params");
         self.expect_punct(Punct::OpenParen)?;
@@ -3011,8 +3026,10 @@ where
             } else {
                 true
             };
+            let start = self.look_ahead.clone();
             let ident = self.parse_var_ident(is_var)?;
             let restricted = &ident == "eval" || &ident == "arguments";
+            self.check_restricted_binding(&ident, &start)?;
             params.push(self.look_ahead.clone());
             Ok((restricted, Pat::Identifier(ident)))
         }
@@ -3089,7 +3106,12 @@ where
         let method = false;
         let (key, value) = if self.look_ahead.token.is_ident() && !self.at_contextual_keyword("null")
         {
-            let key = PropertyKey::Expr(Expr::Ident(self.parse_var_ident(false)?));
+            let start = self.look_ahead.clone();
+            let id = self.parse_var_ident(false)?;
+            if !self.at_punct(Punct::Colon) {
+                self.check_restricted_binding(&id, &start)?;
+            }
+            let key = PropertyKey::Expr(Expr::Ident(id));
             let value = if self.at_punct(Punct::Assign) {
                 self.expect_punct(Punct::Assign)?;
                 short_hand = true;
@@ -3364,6 +3386,21 @@ where
                 &["not a yield expression in a function param"],
             );
         }
+        if self.context.strict && !self.config.tolerant {
+            for param in params.iter() {
+                let restricted = match param {
+                    FunctionArg::Expr(Expr::Ident(ref i))
+                    | FunctionArg::Pat(Pat::Identifier(ref i)) => Self::is_restricted_word(i),
+                    _ => false,
+                };
+                if restricted {
+                    return self.unexpected_token_error(
+                        &self.look_ahead,
+                        "restricted parameter name in strict context",
+                    );
+                }
+            }
+        }
         if self.context.strict && !self.context.allow_yield {
             for param in params.iter() {
                 match param {
-- 
2.43.0


From baac6629b0e9883c9733beae51a0578ea71e888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 32/43] fix: an object literal with an initializer must become
 a pattern

---
 src/lib.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 803a054..98485bb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1317,7 +1317,12 @@ where
             self.context.allow_in = false;
             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
             let init = self.parse_assignment_expr()?;
-            self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
+            if self.at_keyword(Keyword::In) || self.at_contextual_keyword("of") {
+                self.context.first_covert_initialized_name_error = None;
+                self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
+            } else {
+                self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
+            }
             if self.at_keyword(Keyword::In) {
                 self.context.allow_in = prev_in;
                 let _ = self.next_item()?;
@@ -1347,7 +1352,7 @@ where
                         let _comma = self.next_item()?;
                         let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
                         seq.push(self.parse_assignment_expr()?);
-                        self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
+                        self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                     }
                     LoopInit::Expr(Expr::Sequence(seq))
                 } else {
@@ -1776,7 +1781,7 @@ where
         let prev_iter = self.context.in_iteration;
         let prev_switch = self.context.in_switch;
         let prev_in_fn = self.context.in_function_body;
-        let (prev_bind, prev_assign, prev_first) = self.get_cover_grammar_state();
+        let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
         self.context.label_set = HashSet::new();
         self.context.in_iteration = false;
         self.context.in_switch = false;
@@ -2683,12 +2688,11 @@ where
                     })
                 } else if start.token.is_ident() && !is_async {
                     if self.at_punct(Punct::Assign) {
-                        self.context.first_covert_initialized_name_error =
-                            Some(self.look_ahead.clone());
-                        let _ = self.next_item()?;
-                        let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
+                        let eq = self.next_item()?;
+                        let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                         let inner = self.parse_assignment_expr()?;
                         self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
+                        self.context.first_covert_initialized_name_error = Some(eq);
                         ObjectProperty::Property(Property {
                             computed,
                             key,
@@ -3180,6 +3184,7 @@ where
                         );
                     }
                     self.expect_punct(Punct::FatArrow)?;
+                    self.context.first_covert_initialized_name_error = None;
                     let prev_yield = self.context.allow_yield;
                     let prev_await = self.context.r#await;
                     self.context.allow_yield = true;
@@ -4240,9 +4245,9 @@ where
         prev_assign: bool,
         prev_first: Option<Item>,
     ) -> Res<()> {
-        if let Some(ref _e) = prev_first {
-            //FIXME this needs to do something
-            //like an error?
+        // `{a = 1}` that has not become a pattern
+        if let Some(ref name) = self.context.first_covert_initialized_name_error {
+            return self.unexpected_token_error(name, "initializer in an object literal");
         }
         self.context.is_binding_element = prev_bind;
         self.context.is_assignment_target = prev_assign;
-- 
2.43.0


From 07c82cdd294d349e79ce1ab7f3d3d5bb449f4ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:49 +0000
Subject: [PATCH 33/43] fix: yield is no operand of a unary or binary operator
 in a generator

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 98485bb..5939276 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2393,7 +2393,10 @@ where
             {
                 let ident = self.parse_ident_name()?;
                 Ok(Expr::Ident(ident))
-            } else if !self.context.strict && self.look_ahead.token.is_strict_reserved() {
+            } else if !self.context.strict
+                && self.look_ahead.token.is_strict_reserved()
+                && !self.at_keyword(Keyword::Yield)
+            {
                 let ident = self.parse_ident_name()?;
                 Ok(Expr::Ident(ident))
             } else {
-- 
2.43.0


From ae2d76d1dbef04697d00471b724c3c8ba42c0506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:11 +0000
Subject: [PATCH 34/43] fix: arrow parameters with a trailing comma must be
 binding elements

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 5939276..290d861 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2477,6 +2477,10 @@ where
                             if !self.at_punct(Punct::FatArrow) {
                                 return self.expected_token_error(&self.look_ahead, &["=>"]);
                             }
+                            if !self.context.is_binding_element {
+                                return self
+                                    .expected_token_error(&self.look_ahead, &["binding element"]);
+                            }
                             return Ok(Expr::ArrowParamPlaceHolder(
                                 exprs.into_iter().map(|e| FunctionArg::Expr(e)).collect(),
                                 false,
-- 
2.43.0


From afb668b52ac492c0f11e54c52b2090e3232d0f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 35/43] fix: the error for with in strict code is at the with
 keyword

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 290d861..b84c82b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -935,7 +935,7 @@ where
         debug!("parse_with_stmt");
         if self.context.strict {
             self.tolerate_error(Error::NonStrictFeatureInStrictContext(
-                self.current_position,
+                self.look_ahead_position,
                 "with statements".to_string(),
             ))?;
         }
-- 
2.43.0


From f64d108d2ec95536bd83b9986459b599b3fd9b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 36/43] fix: a yield expression is not part of a pattern

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index b84c82b..fb95022 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3536,6 +3536,8 @@ where
             }
             self.context.allow_yield = prev_yield;
         }
+        self.context.is_assignment_target = false;
+        self.context.is_binding_element = false;
         let y = YieldExpr {
             argument: arg,
             delegate,
-- 
2.43.0


From 141292e6c145f84c046881cb50c1c8d2ee5b27c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 37/43] fix: yield is no parameter of a generator method

---
 src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fb95022..c626c9d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2095,10 +2095,9 @@ where
         debug!("pares_generator_method");
         let prev_yield = self.context.allow_yield;
         let prev_await = self.context.r#await;
-        self.context.allow_yield = true;
+        self.context.allow_yield = false;
         self.context.r#await = false;
         let params = self.parse_formal_params()?;
-        self.context.allow_yield = false;
         let body = self.parse_method_body(params.simple, params.found_restricted)?;
         self.context.allow_yield = prev_yield;
         self.context.r#await = prev_await;
-- 
2.43.0


From 77492d2432cbb6f9fad410cc0dd018563a988aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:22 +0000
Subject: [PATCH 38/43] fix: export default {a = 1} is not a valid expression

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index c626c9d..d0280cd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -765,7 +765,9 @@ where
                     let decl = Decl::Function(func);
                     DefaultExportDecl::Decl(decl)
                 } else {
+                    let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                     let expr = self.parse_assignment_expr()?;
+                    self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                     self.consume_semicolon()?;
                     DefaultExportDecl::Expr(expr)
                 }
@@ -773,7 +775,9 @@ where
                 if self.at_contextual_keyword("from") {
                     //error
                 }
+                let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                 let expr = self.parse_assignment_expr()?;
+                self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                 self.consume_semicolon()?;
                 DefaultExportDecl::Expr(expr)
             };
-- 
2.43.0


From 45e3705f05fa5dd89d08be2cf7ce7149b20a9c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:25 +0000
Subject: [PATCH 39/43] fix: var {a = {b = 1}} = c has an invalid default value

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index d0280cd..62201e8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3129,7 +3129,9 @@ where
             let value = if self.at_punct(Punct::Assign) {
                 self.expect_punct(Punct::Assign)?;
                 short_hand = true;
+                let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                 let e = self.parse_assignment_expr()?;
+                self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                 PropertyValue::Expr(e)
             } else if !self.at_punct(Punct::Colon) {
                 short_hand = true;
-- 
2.43.0


From 03ec8c0f1945507cfa79e83395ad41391a923883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 40/43] fix: {a = 1} in the head of a for loop that is no
 pattern

---
 src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 62201e8..d2d88d4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1321,7 +1321,9 @@ where
             self.context.allow_in = false;
             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
             let init = self.parse_assignment_expr()?;
-            if self.at_keyword(Keyword::In) || self.at_contextual_keyword("of") {
+            if (self.at_keyword(Keyword::In) || self.at_contextual_keyword("of"))
+                && matches!(init, Expr::Object(_) | Expr::Array(_))
+            {
                 self.context.first_covert_initialized_name_error = None;
                 self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
             } else {
@@ -1341,7 +1343,9 @@ where
                 self.context.allow_in = prev_in;
                 let _ = self.next_item()?;
                 let left = LoopLeft::Expr(init);
+                let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                 let right = self.parse_assignment_expr()?;
+                self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                 let body = self.parse_loop_body()?;
                 return Ok(Stmt::ForOf(ForOfStmt {
                     left,
@@ -1419,7 +1423,9 @@ where
     fn parse_for_of_loop(&mut self, left: LoopLeft, is_await: bool) -> Res<ForOfStmt> {
         debug!("parse_for_of_loop");
         let _ = self.next_item()?;
+        let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
         let right = self.parse_assignment_expr()?;
+        self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
         let body = self.parse_loop_body()?;
         Ok(ForOfStmt {
             left,
-- 
2.43.0


From 41c7d67b42f0a7ca0845571d6986d0961a9ad515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:19 +0000
Subject: [PATCH 41/43] fix: ({a = 1}) is no pattern and no expression

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index d2d88d4..22f0d74 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2541,6 +2541,10 @@ where
                         ));
                     }
                 }
+                // `({a = 1})` cannot become a pattern
+                if let Some(ref name) = self.context.first_covert_initialized_name_error {
+                    return self.unexpected_token_error(name, "initializer in an object literal");
+                }
                 match &ex {
                     Expr::Assignment(_) | Expr::Sequence(_) | Expr::Yield(_) => {
                         self.context.is_assignment_target = false;
-- 
2.43.0


From 3a8be1093f0ce2b4c2a7e236d8b3f7c21970e2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 42/43] fix: arguments of async are an expression or arrow
 parameters

---
 src/lib.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 22f0d74..81b8f55 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4091,14 +4091,15 @@ where
         debug!("parse_async_args");
         self.expect_punct(Punct::OpenParen)?;
         let mut ret = vec![];
+        let (outer_bind, outer_assign, outer_first) = self.isolate_cover_grammar();
         if !self.at_punct(Punct::CloseParen) {
             loop {
                 let arg = if self.at_punct(Punct::Spread) {
                     self.parse_spread_element()?
                 } else {
-                    let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-                    let arg = self.parse_async_arg()?;
-                    self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
+                    let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
+                    let arg = self.parse_assignment_expr()?;
+                    self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
                     arg
                 };
                 ret.push(arg);
@@ -4112,16 +4113,15 @@ where
             }
         }
         self.expect_punct(Punct::CloseParen)?;
+        if self.at_punct(Punct::FatArrow) {
+            if !self.context.is_binding_element {
+                return self.expected_token_error(&self.look_ahead, &["binding element"]);
+            }
+            self.context.first_covert_initialized_name_error = None;
+        }
+        self.set_isolate_cover_grammar_state(outer_bind, outer_assign, outer_first)?;
         Ok(ret)
     }
-    /// Parse an argument of an async function
-    /// note: not sure this is needed
-    fn parse_async_arg(&mut self) -> Res<Expr> {
-        debug!("parse_async_arg");
-        let expr = self.parse_assignment_expr()?;
-        self.context.first_covert_initialized_name_error = None;
-        Ok(expr)
-    }
     /// Expect a comma separator,
     /// if parsing with tolerance we can tolerate
     /// a non-existent comma
-- 
2.43.0


From ffcd15c942d20fe9c09f56ab89d749261c71aebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:29 +0000
Subject: [PATCH 43/43] fix: a loop over [{a = 1} + b] assigns to no pattern

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 81b8f55..b359b6f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1323,6 +1323,7 @@ where
             let init = self.parse_assignment_expr()?;
             if (self.at_keyword(Keyword::In) || self.at_contextual_keyword("of"))
                 && matches!(init, Expr::Object(_) | Expr::Array(_))
+                && self.context.is_assignment_target
             {
                 self.context.first_covert_initialized_name_error = None;
                 self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
-- 
2.43.0

