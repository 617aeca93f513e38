From bd038b98ede9162677840258bce28221b3dddc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 001/111] fix: reject a "\u{...}" escape without hex digits
 instead of looping forever

---
 src/parser/lexer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index f708b18..7791fe6 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -919,6 +919,12 @@ impl<'a> Lexer<'a> {
                 u = u * 16 + h;
                 i += 1;
             }
+            if i == 0 {
+                return Err(Self::error_parse(
+                    "Invalid Unicode escape sequence.",
+                    self.pos,
+                ));
+            }
         };
         if let Some(u) = char::from_u32(u) {
             s.push_char(u);
-- 
2.43.0


From 53fe64c341d0d5ff69d267301883effe57a653f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 002/111] fix: report end of input instead of panicking when a
 lexer error is raised there

---
 src/parser/lexer.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 7791fe6..418b5b4 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -82,14 +82,13 @@ impl<'a> Lexer<'a> {
     }
 
     fn error_unexpected(&self, pos: usize) -> LexerErr {
-        let loc = Loc(pos, pos);
-        LexerErr(
-            ParseErrKind::SyntaxError(format!(
-                "Unexpected char. {:?}",
-                self.code[pos..].chars().next().unwrap()
-            )),
-            loc,
-        )
+        match self.code.get(pos..).and_then(|s| s.chars().next()) {
+            Some(ch) => LexerErr(
+                ParseErrKind::SyntaxError(format!("Unexpected char. {:?}", ch)),
+                Loc(pos, pos),
+            ),
+            None => Self::error_eof(pos),
+        }
     }
 
     fn error_eof(pos: usize) -> LexerErr {
-- 
2.43.0


From 3276eabf8f0947a03677515fe2f2353a21be5f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 003/111] fix: reject a numbered match variable that is out of
 range instead of overflowing

---
 src/parser/lexer.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 418b5b4..978bb36 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -411,11 +411,19 @@ impl<'a> Lexer<'a> {
             if ch == '0' {
                 return Ok(self.new_global_var("$0"));
             }
-            let mut id = ch as u32 - '0' as u32;
+            let mut id = Some(ch as u32 - '0' as u32);
             while let Some(ch) = self.consume_numeric() {
-                id = id * 10 + ch as u32 - '0' as u32;
+                id = id
+                    .and_then(|id| id.checked_mul(10))
+                    .and_then(|id| id.checked_add(ch as u32 - '0' as u32));
+            }
+            match id.and_then(|id| id.checked_add(100)) {
+                Some(id) => Ok(self.new_special_var(id)),
+                None => Err(Self::error_parse(
+                    "Too big for a number variable.",
+                    self.token_start_pos,
+                )),
             }
-            Ok(self.new_special_var(id as u32 + 100))
         } else {
             let tok = match self.peek() {
                 Some(ch) if ch.is_ascii_punctuation() => {
-- 
2.43.0


From 9f60518a46a9646058c4c9f3b614ddfb30667432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 004/111] fix: do not panic when the location of a malformed
 token is requested

---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 45dfc29..f6409de 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -274,7 +274,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     fn loc(&mut self) -> Loc {
-        self.peek_no_term().unwrap().loc()
+        match self.peek_no_term() {
+            Ok(tok) => tok.loc(),
+            Err(err) => err.1,
+        }
     }
 
     fn prev_loc(&self) -> Loc {
-- 
2.43.0


From 67abaab2c5486e8d1387f9c2b0f4b7ecfdba114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 005/111] fix: parse a unary minus on a non-literal operand
 after another operator

---
 src/parser/expression.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 496d987..0060d78 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -755,14 +755,26 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 Ok(Node::new_command(content))
             }
             TokenKind::Punct(punct) => match punct {
-                Punct::Minus => match self.get()?.kind {
-                    TokenKind::IntegerLit(num) => match num.checked_neg() {
-                        Some(i) => Ok(Node::new_integer(i, loc)),
-                        None => Ok(Node::new_bignum(-BigInt::from(num), loc)),
-                    },
-                    TokenKind::BignumLit(num) => Ok(Node::new_bignum(-num, loc)),
-                    TokenKind::FloatLit(num) => Ok(Node::new_float(-num, loc)),
-                    _ => unreachable!(),
+                Punct::Minus => match self.peek_no_term()?.kind {
+                    TokenKind::IntegerLit(num) => {
+                        self.get()?;
+                        match num.checked_neg() {
+                            Some(i) => Ok(Node::new_integer(i, loc)),
+                            None => Ok(Node::new_bignum(-BigInt::from(num), loc)),
+                        }
+                    }
+                    TokenKind::BignumLit(num) => {
+                        self.get()?;
+                        Ok(Node::new_bignum(-num, loc))
+                    }
+                    TokenKind::FloatLit(num) => {
+                        self.get()?;
+                        Ok(Node::new_float(-num, loc))
+                    }
+                    _ => {
+                        let operand = self.parse_exponent()?;
+                        Ok(Node::new_unop(UnOp::Neg, operand, loc))
+                    }
                 },
                 Punct::LParen => {
                     let old = self.suppress_mul_assign;
-- 
2.43.0


From 88cbd238250a838b109f81abffd8b92d8615b559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 006/111] fix: support class variables and special variables in
 "#@@x" / "#$1" interpolation

---
 src/parser/literals.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 25531d0..1e841b1 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -331,7 +331,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             let node = match tok.kind {
                 TokenKind::GlobalVar(name) => Node::new_global_var(name, loc),
                 TokenKind::InstanceVar(name) => Node::new_instance_var(name, loc),
-                _ => unreachable!("{:?}", tok),
+                TokenKind::ClassVar(name) => Node::new_class_var(name, loc),
+                TokenKind::SpecialVar(id) => Node::new_special_var(id, loc),
+                _ => {
+                    return Err(error_unexpected(
+                        loc,
+                        format!("Unexpected token: {:?}", tok.kind),
+                    ))
+                }
             };
             nodes.push(node);
         };
-- 
2.43.0


From 072d90731e0ff1d990c97a382a77bbb32089b93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 007/111] fix: short_file_name() must not panic on a path
 without a file name

---
 src/source_info.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/source_info.rs b/src/source_info.rs
index 307aedf..454bfad 100644
--- a/src/source_info.rs
+++ b/src/source_info.rs
@@ -54,7 +54,10 @@ impl SourceInfo {
 
     /// Get short_file name.
     pub fn short_file_name(&self) -> Cow<'_, str> {
-        self.path.file_name().unwrap().to_string_lossy()
+        match self.path.file_name() {
+            Some(name) => name.to_string_lossy(),
+            None => self.path.to_string_lossy(),
+        }
     }
 
     /// Show the location of *loc* in source text.
-- 
2.43.0


From 0abd7ae1fe3ed5d1524f8c2b80c27f798524a32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 008/111] fix: get_line() must not panic on a location at the
 end of the source

---
 src/source_info.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/source_info.rs b/src/source_info.rs
index 454bfad..2352c9e 100644
--- a/src/source_info.rs
+++ b/src/source_info.rs
@@ -158,7 +158,7 @@ impl SourceInfo {
                     None
                 }
             })
-            .unwrap()
+            .unwrap_or_else(|| std::cmp::max(1, self.code.lines().count()))
     }
 
     fn get_next_char(&self, pos: usize) -> Option<char> {
-- 
2.43.0


From fd840acfcf9041b94d4ca354f4cbbfe9bb1d22a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 009/111] fix: get_location() must not panic on multi-byte
 source text and must find the line of the end of input

---
 src/source_info.rs | 78 ++++++++++++++++------------------------------
 1 file changed, 26 insertions(+), 52 deletions(-)

diff --git a/src/source_info.rs b/src/source_info.rs
index 2352c9e..1e4f816 100644
--- a/src/source_info.rs
+++ b/src/source_info.rs
@@ -71,59 +71,42 @@ impl SourceInfo {
             return "(internal)".to_string();
         }
         let code = self.code.clone() + " ";
+        // A location at the end of input belongs to the last line.
+        let last = self.code.len() - 1;
+        let loc = Loc(std::cmp::min(loc.0, last), std::cmp::min(loc.1, last));
+        let floor = |pos: usize| (0..=pos).rev().find(|p| code.is_char_boundary(*p)).unwrap();
+        let ceil = |pos: usize| (pos..).find(|p| code.is_char_boundary(*p)).unwrap();
         let mut res_string = String::new();
-        let lines = self.get_lines(loc);
-        let mut found = false;
         let term = console::Term::stdout();
         let term_width = term.size().1 as usize;
-        for line in &lines {
-            if !found {
+        for (i, line) in self.get_lines(&loc).iter().enumerate() {
+            if i == 0 {
                 res_string += &format!("{}:{}\n", self.file_name(), line.line_no);
-                found = true;
             };
 
             let start = line.top;
-            let mut end = line.end;
-            if self.get_next_char(end) == Some('\n') && end > 0 {
-                end -= 1
-            }
-            let mut lead = if loc.0 <= line.top {
-                0
-            } else {
-                console::measure_text_width(&code[start..loc.0])
-            };
+            let range_start = floor(std::cmp::max(loc.0, line.top));
+            let range_end = floor(std::cmp::min(loc.1, line.end));
+            let mut lead = console::measure_text_width(&code[start..range_start]);
             let offset = lead / term_width * term_width;
             lead -= offset;
-            let range_start = std::cmp::max(loc.0, line.top);
-            let range_end = std::cmp::min(loc.1, line.end);
-            let term_end = start + (range_end - start) / term_width * term_width + term_width - 1;
-            let length = console::measure_text_width(&code[range_start..=range_end]);
-            res_string += &code[(start + offset)..=std::cmp::min(end, term_end)];
+            // The last column of the terminal row which holds the end of the range.
+            let end_column = console::measure_text_width(&code[start..range_end]);
+            let limit = end_column / term_width * term_width + term_width;
+            let length = console::measure_text_width(&code[range_start..ceil(range_end + 1)]);
+            let mut column = 0;
+            for ch in code[start..line.end].chars() {
+                let width = console::measure_text_width(ch.encode_utf8(&mut [0; 4]));
+                if offset <= column && column + width <= limit {
+                    res_string.push(ch);
+                }
+                column += width;
+            }
             res_string += "\n";
             res_string += &" ".repeat(lead);
             res_string += &"^".repeat(length);
             res_string += "\n";
         }
-
-        if !found {
-            res_string += "NOT FOUND\n";
-            let line = match lines.last() {
-                Some(line) => (line.line_no + 1, line.end + 1, loc.1),
-                None => (1, 0, loc.1),
-            };
-            let lead = console::measure_text_width(&code[line.1..loc.0]);
-            let length = console::measure_text_width(&code[loc.0..loc.1]);
-            let is_cr = loc.1 >= code.len() || self.get_next_char(loc.1) == Some('\n');
-            res_string += &format!("{}:{}\n", self.file_name(), line.0);
-            res_string += if !is_cr {
-                &code[line.1..=loc.1]
-            } else {
-                &code[line.1..loc.1]
-            };
-            res_string += &" ".repeat(lead);
-            res_string += &"^".repeat(length + 1);
-            res_string += "\n";
-        }
         res_string
     }
 }
@@ -161,10 +144,6 @@ impl SourceInfo {
             .unwrap_or_else(|| std::cmp::max(1, self.code.lines().count()))
     }
 
-    fn get_next_char(&self, pos: usize) -> Option<char> {
-        self.code[pos..].chars().next()
-    }
-
     fn get_lines(&self, loc: &Loc) -> Vec<Line> {
         let mut line_top = 0;
         //let code = self.code.clone() + " ";
@@ -179,16 +158,11 @@ impl SourceInfo {
                 line_top = pos + 1;
                 Line::new(idx + 1, top, pos)
             })
-            .filter(|line| {
-                if loc.0 == loc.1 {
-                    line.top <= loc.1 && line.end >= loc.0
-                } else {
-                    line.top < loc.1 && line.end > loc.0
-                }
-            })
+            .filter(|line| line.top <= loc.1 && line.end >= loc.0)
             .collect();
-        if line_top < code_len && code_len > loc.0 && line_top < loc.1 {
-            lines.push(Line::new(lines.len() + 1, line_top, code_len));
+        if line_top < code_len && line_top <= loc.1 {
+            let line_no = self.code.lines().count();
+            lines.push(Line::new(line_no, line_top, code_len));
         }
         lines
     }
-- 
2.43.0


From 7bf1a8c818280aca7c6680297645017764dfa6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 010/111] fix: do not panic on interpolation in a command here
 document

---
 src/parser/literals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 1e841b1..e22fa05 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -165,7 +165,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let content = Node::new_string(s.into(), loc);
                 Node::new_command(content)
             }
-            TokenKind::OpenString(s, term, level) => {
+            TokenKind::OpenCommand(s, term, level) => {
                 let content = self.parse_interporated_string_literal(s.into(), term, level)?;
                 Node::new_command(content)
             }
-- 
2.43.0


From bcb6daf0493ba8b888880b3d15c3a60f89b487b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 011/111] fix: drop the peeked tokens when the parser
 backtracks ({a - 1 => 2} lost its left operand)

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index f6409de..50e4219 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -112,6 +112,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     fn restore_state(&mut self, state: (usize, usize)) {
         self.lexer.restore_state(state);
+        // The peeked tokens do not belong to the restored position.
+        self.lexer.flush();
     }
 
     fn scope_mut(&mut self) -> &mut LvarScope {
-- 
2.43.0


From 49028998b1a3f76f64a04cb8fd1423dadc70941e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:49 +0000
Subject: [PATCH 012/111] fix: keep the back references \2 .. \9 of a regular
 expression

---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 978bb36..33ce41d 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1038,7 +1038,7 @@ impl<'a> Lexer<'a> {
                             // TODO: It is necessary to count capture groups
                             // to determine whether backref or octal digit.
                             // Current impl. may cause problems.
-                            if '1' >= ch && ch <= '9' && !self.peek_digit() {
+                            if '1' <= ch && ch <= '9' && !self.peek_digit() {
                                 body.push(ch);
                             } else if ('0'..='7').contains(&ch) {
                                 let hex = format!("x{:02x}", self.consume_tri_octal(ch).unwrap());
-- 
2.43.0


From 0420948eaad045277491a26be30768995293a27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:51 +0000
Subject: [PATCH 013/111] fix: do not overflow on big octal and binary number
 literals

---
 src/parser/lexer.rs | 46 ++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 33ce41d..302c3c6 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -726,44 +726,44 @@ impl<'a> Lexer<'a> {
 
     /// Read octal number.
     fn read_octal_number(&mut self) -> Result<Token, LexerErr> {
-        let mut val = match self.peek() {
-            Some(ch @ '0'..='7') => ch as u64 - '0' as u64,
+        let start_pos = self.pos;
+        match self.peek() {
+            Some('0'..='7') => {}
             Some(_) => {
                 return Err(self.error_unexpected(self.pos));
             }
             None => return Err(Self::error_eof(self.pos)),
         };
-        self.get()?;
-        loop {
-            match self.peek() {
-                Some(ch @ '0'..='7') => val = val * 8 + (ch as u64 - '0' as u64),
-                Some('_') => {}
-                _ => break,
-            }
-            self.get()?;
-        }
-        Ok(self.new_numlit(val as i64))
+        while self.consume_octal().is_some() || self.consume('_') {}
+
+        self.new_radix_number(start_pos, 8)
     }
 
     /// Read binary number.
     fn read_bin_number(&mut self) -> Result<Token, LexerErr> {
-        let mut val = match self.peek() {
-            Some(ch @ '0'..='1') => ch as u64 - '0' as u64,
+        let start_pos = self.pos;
+        match self.peek() {
+            Some('0'..='1') => {}
             Some(_) => {
                 return Err(self.error_unexpected(self.pos));
             }
             None => return Err(Self::error_eof(self.pos)),
         };
-        self.get()?;
-        loop {
-            match self.peek() {
-                Some(ch @ '0'..='1') => val = val * 2 + (ch as u64 - '0' as u64),
-                Some('_') => {}
-                _ => break,
-            }
-            self.get()?;
+        while self.consume('0') || self.consume('1') || self.consume('_') {}
+
+        self.new_radix_number(start_pos, 2)
+    }
+
+    /// Make a number token from the digits between `start_pos` and the current position.
+    fn new_radix_number(&self, start_pos: usize, radix: u32) -> Result<Token, LexerErr> {
+        let s = &self.code[start_pos..self.pos];
+        match BigInt::parse_bytes(s.as_bytes(), radix) {
+            Some(b) => match b.to_i64() {
+                Some(i) => Ok(self.new_numlit(i)),
+                None => Ok(self.new_bignumlit(b)),
+            },
+            None => Err(Self::error_parse("Invalid number literal.", self.pos)),
         }
-        Ok(self.new_numlit(val as i64))
     }
 
     /// Read string literal ("..", %Q{..}, %{..})
-- 
2.43.0


From 318bee547995537cfd60d59a6d9886059e57ee48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:39 +0000
Subject: [PATCH 014/111] fix: parse an integer literal with a leading zero as
 octal

---
 src/parser/lexer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 302c3c6..422e2fc 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -638,6 +638,13 @@ impl<'a> Lexer<'a> {
                 return self.read_octal_number();
             } else if self.consume('b') {
                 return self.read_bin_number();
+            } else if matches!(self.peek(), Some('0'..='9' | '_')) {
+                // "0173" is an octal number.
+                while self.consume_octal().is_some() || self.consume('_') {}
+                if self.peek_digit() {
+                    return Err(Self::error_parse("Invalid octal digit.", self.pos));
+                }
+                return self.new_radix_number(self.token_start_pos, 8);
             }
         };
         let mut s = ch.to_string();
-- 
2.43.0


From 0345eaeb5379ea286627f44657389a1dd1a91827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 015/111] fix: do not turn a&.b c and a&.(c) into an ordinary
 method call

---
 src/parser/expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 0060d78..86b2ea1 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -618,7 +618,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         if self.consume_punct_no_term(Punct::LParen)? {
             let arglist = self.parse_arglist_block(Punct::RParen)?;
             //let loc = receiver.loc().merge(self.loc());
-            let node = Node::new_mcall(receiver, "call".to_string(), arglist, false, loc);
+            let node = Node::new_mcall(receiver, "call".to_string(), arglist, safe_nav, loc);
             return Ok(node);
         };
         let (id, loc) = self.read_method_name(false)?;
@@ -630,7 +630,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     receiver,
                     id,
                     self.parse_arglist_block(None)?,
-                    false,
+                    safe_nav,
                     loc,
                 ));
             }
-- 
2.43.0


From d41ed2fa05f00cc0243245fffee3c2758957ae74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 016/111] fix: give <=> the precedence of the equality
 operators

---
 src/parser/expression.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 86b2ea1..31901a4 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -294,7 +294,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     // 4==4==4 => SyntaxError
     fn parse_arg_eq(&mut self) -> Result<Node, LexerErr> {
         let lhs = self.parse_arg_comp()?;
-        if self.consume_punct_no_term(Punct::Eq)? {
+        if self.consume_punct_no_term(Punct::Cmp)? {
+            let rhs = self.parse_arg_comp()?;
+            Ok(Node::new_binop(BinOp::Compare, lhs, rhs))
+        } else if self.consume_punct_no_term(Punct::Eq)? {
             let rhs = self.parse_arg_comp()?;
             Ok(Node::new_binop(BinOp::Cmp(CmpKind::Eq), lhs, rhs))
         } else if self.consume_punct_no_term(Punct::Ne)? {
@@ -334,9 +337,6 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             } else if self.consume_punct_no_term(Punct::Lt)? {
                 let rhs = self.parse_arg_bitor()?;
                 lhs = Node::new_binop(BinOp::Cmp(CmpKind::Lt), lhs, rhs);
-            } else if self.consume_punct_no_term(Punct::Cmp)? {
-                let rhs = self.parse_arg_bitor()?;
-                lhs = Node::new_binop(BinOp::Compare, lhs, rhs);
             } else {
                 break;
             }
-- 
2.43.0


From bea1c684ab33cd444906c3ebae57c6a91ea0e421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:02 +0000
Subject: [PATCH 017/111] fix: accept a keyword argument named like a local
 variable of an outer scope

---
 src/parser/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 31901a4..bbc35f3 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -973,7 +973,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     return Ok(arglist);
                 }
                 match &node.kind {
-                    NodeKind::Ident(id, ..) | NodeKind::LocalVar(0, id) => {
+                    NodeKind::Ident(id, ..) | NodeKind::LocalVar(_, id) => {
                         if self.consume_punct_no_term(Punct::Colon)? {
                             // keyword args
                             arglist.kw_args.push((id.to_string(), self.parse_arg()?));
-- 
2.43.0


From 9b491ea20baa924ab4b227d578190c3ff891140a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:05 +0000
Subject: [PATCH 018/111] fix: an octal escape above \177 stands for a byte,
 not for a character

---
 src/parser/lexer.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 422e2fc..ff702e6 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1151,10 +1151,13 @@ impl<'a> Lexer<'a> {
                 return Ok(());
             }
             c if ('0'..='7').contains(&c) => {
-                if let Some(num) = self.consume_tri_octal(c) {
-                    num as char
-                } else {
-                    c
+                match self.consume_tri_octal(c) {
+                    Some(num) if num > 0x7f => {
+                        buf.push_byte(num);
+                        return Ok(());
+                    }
+                    Some(num) => num as char,
+                    None => c,
                 }
             }
             c => c,
-- 
2.43.0


From 60c84344a0b38c72f766438fb49dda02369e69f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 019/111] fix: keep track of nested delimiters after an
 interpolation in %Q(..) and %(..)

---
 src/parser/expression.rs |  6 +++---
 src/parser/lexer.rs      | 12 +++++++++---
 src/parser/literals.rs   | 31 +++++++++++++++++--------------
 src/token.rs             |  5 +++--
 4 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index bbc35f3..0026f51 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -747,11 +747,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let content = Node::new_string(s.into(), loc);
                 Ok(Node::new_command(content))
             }
-            TokenKind::OpenString(s, term, level) => {
-                self.parse_interporated_string_literal(s.into(), term, level)
+            TokenKind::OpenString(s, open, term, level) => {
+                self.parse_interporated_string_literal(s.into(), open, term, level)
             }
             TokenKind::OpenCommand(s, term, level) => {
-                let content = self.parse_interporated_string_literal(s.into(), term, level)?;
+                let content = self.parse_interporated_string_literal(s.into(), None, term, level)?;
                 Ok(Node::new_command(content))
             }
             TokenKind::Punct(punct) => match punct {
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index ff702e6..5c1de50 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -783,7 +783,7 @@ impl<'a> Lexer<'a> {
         match self.read_interpolate(open, term, level)? {
             InterpolateState::Finished(s) => Ok(self.new_stringlit(s)),
             InterpolateState::NewInterpolation(s, level) => {
-                Ok(self.new_open_string(s.as_string()?, term, level))
+                Ok(self.new_open_string(s.as_string()?, open, term, level))
             }
             _ => unreachable!(),
         }
@@ -1505,8 +1505,14 @@ impl<'a> Lexer<'a> {
         Annot::new(TokenKind::Punct(punc), self.cur_loc())
     }
 
-    fn new_open_string(&self, s: String, delimiter: Option<char>, level: usize) -> Token {
-        Token::new_open_string(s, delimiter, level, self.cur_loc())
+    fn new_open_string(
+        &self,
+        s: String,
+        open: Option<char>,
+        delimiter: Option<char>,
+        level: usize,
+    ) -> Token {
+        Token::new_open_string(s, open, delimiter, level, self.cur_loc())
     }
 
     fn new_open_reg(&self, s: String) -> Token {
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index e22fa05..57169b3 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -20,10 +20,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     self.get()?;
                     s += &next_s;
                 }
-                TokenKind::OpenString(next_s, delimiter, level) => {
+                TokenKind::OpenString(next_s, open, delimiter, level) => {
                     self.get()?;
                     s += next_s.as_str();
-                    return self.parse_interporated_string_literal(s, delimiter, level);
+                    return self.parse_interporated_string_literal(s, open, delimiter, level);
                 }
                 _ => break,
             }
@@ -34,8 +34,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     pub(super) fn parse_interporated_string_literal(
         &mut self,
         s: RubyString,
-        delimiter: Option<char>,
-        level: usize,
+        mut open: Option<char>,
+        mut delimiter: Option<char>,
+        mut level: usize,
     ) -> Result<Node, LexerErr> {
         let start_loc = self.prev_loc();
         let mut nodes = vec![Node::new_string(s, start_loc)];
@@ -43,7 +44,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             self.parse_template(&mut nodes)?;
             let tok = self
                 .lexer
-                .read_string_literal_double(None, delimiter, level)?;
+                .read_string_literal_double(open, delimiter, level)?;
             let mut loc = tok.loc();
             match tok.kind {
                 TokenKind::StringLit(mut name) => {
@@ -54,9 +55,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                                 name += &next_s;
                                 loc = loc.merge(t.loc);
                             }
-                            TokenKind::OpenString(next_s, _, _) => {
+                            TokenKind::OpenString(next_s, next_open, next_delimiter, next_level) => {
                                 let t = self.get()?;
                                 name += next_s.as_str();
+                                (open, delimiter, level) = (next_open, next_delimiter, next_level);
                                 loc = loc.merge(t.loc);
                                 break;
                             }
@@ -71,7 +73,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     }
                     nodes.push(Node::new_string(name, loc));
                 }
-                TokenKind::OpenString(s, _, _) => {
+                TokenKind::OpenString(s, _, _, next_level) => {
+                    level = next_level;
                     nodes.push(Node::new_string(s.into(), loc));
                 }
                 _ => unreachable!("{:?}", tok),
@@ -111,8 +114,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
         } else if let TokenKind::StringLit(s) = tok.kind {
             Ok(Node::new_string(s, loc))
-        } else if let TokenKind::OpenString(s, term, level) = tok.kind {
-            let node = self.parse_interporated_string_literal(s.into(), term, level)?;
+        } else if let TokenKind::OpenString(s, open, term, level) = tok.kind {
+            let node = self.parse_interporated_string_literal(s.into(), open, term, level)?;
             Ok(node)
         } else {
             unreachable!("parse_percent_notation(): {:?}", tok.kind);
@@ -149,8 +152,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let loc = tok.loc();
         let node = match tok.kind {
             TokenKind::StringLit(s) => Node::new_string(s, loc),
-            TokenKind::OpenString(s, term, level) => {
-                self.parse_interporated_string_literal(s.into(), term, level)?
+            TokenKind::OpenString(s, open, term, level) => {
+                self.parse_interporated_string_literal(s.into(), open, term, level)?
             }
             _ => unreachable!(),
         };
@@ -166,7 +169,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 Node::new_command(content)
             }
             TokenKind::OpenCommand(s, term, level) => {
-                let content = self.parse_interporated_string_literal(s.into(), term, level)?;
+                let content = self.parse_interporated_string_literal(s.into(), None, term, level)?;
                 Node::new_command(content)
             }
             _ => unreachable!(),
@@ -222,8 +225,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let token = self.get()?;
         let symbol_loc = self.prev_loc();
         let id = match token.kind {
-            TokenKind::OpenString(s, term, level) => {
-                let node = self.parse_interporated_string_literal(s.into(), term, level)?;
+            TokenKind::OpenString(s, open, term, level) => {
+                let node = self.parse_interporated_string_literal(s.into(), open, term, level)?;
                 let method = "to_sym".to_string();
                 let loc = symbol_loc.merge(node.loc());
                 return Ok(Node::new_mcall_noarg(node, method, false, loc));
diff --git a/src/token.rs b/src/token.rs
index afa69c4..b366fda 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -58,7 +58,7 @@ pub(crate) enum TokenKind {
     CommandLit(String),
     Reserved(Reserved),
     Punct(Punct),
-    OpenString(String, Option<char>, usize), // (content, delimiter, paren_level)
+    OpenString(String, Option<char>, Option<char>, usize), // (content, opening, delimiter, paren_level)
     OpenRegex(String),
     OpenCommand(String, Option<char>, usize),
     PercentNotation(char, String),
@@ -249,11 +249,12 @@ impl Token {
 
     pub(crate) fn new_open_string(
         s: impl Into<String>,
+        open: Option<char>,
         delimiter: Option<char>,
         level: usize,
         loc: Loc,
     ) -> Self {
-        Annot::new(TokenKind::OpenString(s.into(), delimiter, level), loc)
+        Annot::new(TokenKind::OpenString(s.into(), open, delimiter, level), loc)
     }
 
     pub(crate) fn new_open_command(
-- 
2.43.0


From 9caa82593eeed852c881aeaedd3be85e581067dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 020/111] fix: a comma after an assignment in an argument list,
 a hash or a parameter list is a separator

---
 src/parser.rs            | 30 ++++++++++++++++++++++++++++++
 src/parser/expression.rs | 28 +++++++++++++++++++++++++---
 src/parser/literals.rs   |  8 ++++++++
 3 files changed, 63 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 50e4219..9599979 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -116,6 +116,31 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         self.lexer.flush();
     }
 
+    /// Get the flags which suppress some kinds of expressions in the current context.
+    fn save_suppress(&self) -> (bool, bool, bool) {
+        (
+            self.suppress_acc_assign,
+            self.suppress_mul_assign,
+            self.suppress_do_block,
+        )
+    }
+
+    /// Clear the suppression flags, and return the old ones.
+    /// They have no effect inside of brackets.
+    fn clear_suppress(&mut self) -> (bool, bool, bool) {
+        let old = self.save_suppress();
+        self.restore_suppress((false, false, false));
+        old
+    }
+
+    fn restore_suppress(&mut self, flags: (bool, bool, bool)) {
+        (
+            self.suppress_acc_assign,
+            self.suppress_mul_assign,
+            self.suppress_do_block,
+        ) = flags;
+    }
+
     fn scope_mut(&mut self) -> &mut LvarScope {
         self.scope.last_mut().unwrap()
     }
@@ -579,10 +604,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let terminator = terminator.into();
         let mut args = vec![];
         let mut state = Kind::Required;
+        let old_suppress_mul_flag = self.suppress_mul_assign;
+        // a comma after a default value separates parameters.
+        self.suppress_mul_assign = true;
 
         loop {
             if let Some(term) = terminator {
                 if self.consume_punct(term)? {
+                    self.suppress_mul_assign = old_suppress_mul_flag;
                     return Ok(args);
                 }
             }
@@ -724,6 +753,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 }
             }
         }
+        self.suppress_mul_assign = old_suppress_mul_flag;
         if let Some(term) = terminator {
             self.expect_punct(term)?;
         }
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 0026f51..b253bed 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -2,6 +2,13 @@ use super::*;
 
 impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     pub(super) fn parse_comp_stmt(&mut self) -> Result<Node, LexerErr> {
+        let old = self.clear_suppress();
+        let node = self.parse_comp_stmt_inner()?;
+        self.restore_suppress(old);
+        Ok(node)
+    }
+
+    fn parse_comp_stmt_inner(&mut self) -> Result<Node, LexerErr> {
         // COMP_STMT : (STMT (TERM STMT)*)? (TERM+)?
         self.peek()?;
         let loc = self.loc();
@@ -178,7 +185,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         term: impl Into<Option<Punct>>,
     ) -> Result<Vec<Node>, LexerErr> {
         let term = term.into();
-        let old = self.suppress_mul_assign;
+        let old = self.save_suppress();
+        if term.is_some() {
+            self.clear_suppress();
+        }
         // multiple assignment must be suppressed in parsing arg list.
         self.suppress_mul_assign = true;
 
@@ -186,7 +196,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         loop {
             if let Some(term) = term {
                 if self.consume_punct(term)? {
-                    self.suppress_mul_assign = old;
+                    self.restore_suppress(old);
                     return Ok(args);
                 }
             };
@@ -203,7 +213,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 break;
             }
         }
-        self.suppress_mul_assign = old;
+        self.restore_suppress(old);
         if let Some(term) = term {
             self.expect_punct(term)?;
         };
@@ -915,6 +925,18 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     /// punct: punctuator for terminating arg list. Set None for unparenthesized argument list.
     fn parse_arglist(&mut self, punct: impl Into<Option<Punct>>) -> Result<ArgList, LexerErr> {
         let punct = punct.into();
+        let old = self.save_suppress();
+        if punct.is_some() {
+            self.clear_suppress();
+        }
+        // a comma after an assignment separates arguments. e.g. f(x = 1, 2)
+        self.suppress_mul_assign = true;
+        let arglist = self.parse_arglist_inner(punct)?;
+        self.restore_suppress(old);
+        Ok(arglist)
+    }
+
+    fn parse_arglist_inner(&mut self, punct: Option<Punct>) -> Result<ArgList, LexerErr> {
         let mut arglist = ArgList::default();
         if self.peek()?.kind == TokenKind::Punct(Punct::Comma) {
             return Ok(arglist);
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 57169b3..0b1578f 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -178,6 +178,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     pub(super) fn parse_hash_literal(&mut self) -> Result<Node, LexerErr> {
+        let old = self.clear_suppress();
+        self.suppress_mul_assign = true;
+        let node = self.parse_hash_elements()?;
+        self.restore_suppress(old);
+        Ok(node)
+    }
+
+    fn parse_hash_elements(&mut self) -> Result<Node, LexerErr> {
         let mut kvp = vec![];
         let loc = self.prev_loc();
         loop {
-- 
2.43.0


From f98ba90e73d41fbc3e9be57a39529e8f8a04de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:20 +0000
Subject: [PATCH 021/111] fix: a local variable is defined before the right
 hand side of its assignment

---
 src/parser/expression.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index b253bed..0a40bbc 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -158,11 +158,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             return Err(error_unexpected(loc, "Expected '='."));
         }
 
-        let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
+        // The variables are defined before the right hand side is parsed.
         for lhs in &mut mlhs {
             let mut node = self.check_lhs(std::mem::take(lhs))?;
             std::mem::swap(lhs, &mut node);
         }
+        let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
 
         Ok(Node::new_mul_assign(mlhs, mrhs))
     }
@@ -237,8 +238,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             return Ok(lhs);
         }
         if self.consume_punct_no_term(Punct::Assign)? {
-            let mrhs = self.parse_mul_assign_rhs(None)?;
             let lhs = self.check_lhs(lhs)?;
+            let mrhs = self.parse_mul_assign_rhs(None)?;
             Ok(Node::new_mul_assign(vec![lhs], mrhs))
         } else if let Some(op) = self.consume_assign_op_no_term()? {
             // <lhs> <assign_op> <arg>
@@ -466,8 +467,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     fn parse_accesory_assign(&mut self, lhs: Node) -> Result<Node, LexerErr> {
         if !self.suppress_acc_assign {
             if self.consume_punct_no_term(Punct::Assign)? {
-                let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
                 let lhs = self.check_lhs(lhs)?;
+                let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
                 return Ok(Node::new_mul_assign(vec![lhs], mrhs));
             } else if let Some(op) = self.consume_assign_op_no_term()? {
                 return self.parse_assign_op(lhs, op);
@@ -482,16 +483,16 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         match op {
             BinOp::LOr | BinOp::LAnd => {
                 self.get()?;
-                let rhs = self.parse_arg()?;
                 let lhs = self.check_lhs(lhs)?;
+                let rhs = self.parse_arg()?;
                 let node =
                     Node::new_binop(op, lhs.clone(), Node::new_mul_assign(vec![lhs], vec![rhs]));
                 Ok(node)
             }
             _ => {
                 self.get()?;
-                let rhs = self.parse_arg()?;
                 let lhs = self.check_lhs(lhs)?;
+                let rhs = self.parse_arg()?;
                 Ok(Node::new_assign_op(op, lhs, rhs))
             }
         }
@@ -818,8 +819,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     if self.consume_punct_no_term(Punct::Comma)? {
                         self.parse_mul_assign(first_lhs)
                     } else if self.consume_punct_no_term(Punct::Assign)? {
-                        let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
                         let lhs = self.check_lhs(first_lhs)?;
+                        let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
                         Ok(Node::new_mul_assign(vec![lhs], mrhs))
                     } else {
                         let loc = self.loc();
-- 
2.43.0


From ca6bffd0e83ed09d966104183ed6beb878b56dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 022/111] fix: resolve variables of the external context from
 nested blocks, and not from methods and classes

---
 src/parser.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9599979..df41d02 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -234,18 +234,23 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     /// If exiets, return true.
     fn is_local_var(&mut self, id: &str) -> Option<usize> {
         let mut outer = 0;
-        for c in self.scope.iter().rev() {
+        for (i, c) in self.scope.iter().enumerate().rev() {
             if c.lvar.table.get_lvarid(id).is_some() {
                 return Some(outer);
             }
+            if i == 0 {
+                // The outermost scope is surrounded by the external context.
+                break;
+            }
             match c.kind {
                 ScopeKind::Block => outer += 1,
                 ScopeKind::For => {}
-                _ => break,
+                // The outer variables are not visible in methods and classes.
+                _ => return None,
             }
         }
         if let Some(a) = &self.extern_context {
-            return a.find_lvar(id);
+            return a.find_lvar(id).map(|depth| depth + outer);
         }
         None
     }
-- 
2.43.0


From f2776ce76acd275c84d6c5c0351740d04375bed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 023/111] fix: resolve the receiver of a singleton method
 definition

---
 src/parser/define.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser/define.rs b/src/parser/define.rs
index 499ed56..cf5250e 100644
--- a/src/parser/define.rs
+++ b/src/parser/define.rs
@@ -36,10 +36,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 } else if self.consume_punct_no_term(Punct::Dot)?
                     || self.consume_punct_no_term(Punct::Scope)?
                 {
-                    (
-                        Some(Node::new_lvar(s, 0, loc)),
-                        self.read_method_name(true)?.0,
-                    )
+                    let receiver = match self.is_local_var(&s) {
+                        Some(outer) => Node::new_lvar(s, outer, loc),
+                        None => Node::new_identifier(s, loc),
+                    };
+                    (Some(receiver), self.read_method_name(true)?.0)
                 } else {
                     (None, self.read_method_ext(s)?)
                 }
-- 
2.43.0


From 3255cc44483f169f406d8186f620e1313febee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:47 +0000
Subject: [PATCH 024/111] fix: keep the local variables defined in the
 interpolation of a here document

---
 src/parser/literals.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 0b1578f..f2e4df7 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -136,11 +136,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             ParseMode::Double => {
                 let mut parser = self.new_with_range(start, end);
                 let res = parser.here_double();
+                // Local variables can be defined in the interpolation.
+                self.scope = parser.scope;
                 res?
             }
             ParseMode::Command => {
                 let mut parser = self.new_with_range(start, end);
                 let res = parser.here_command();
+                self.scope = parser.scope;
                 res?
             }
         };
-- 
2.43.0


From 1743bc903ef6747f8f0afc34b3d65c16c21b8cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:38 +0000
Subject: [PATCH 025/111] fix: a do-block after command arguments belongs to
 the command, and one after the iterator of for to the loop

---
 src/parser/expression.rs   | 3 +++
 src/parser/flow_control.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 0a40bbc..45e17d2 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -929,6 +929,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let old = self.save_suppress();
         if punct.is_some() {
             self.clear_suppress();
+        } else {
+            // a do-block after a command belongs to the command, not to its last argument.
+            self.suppress_do_block = true;
         }
         // a comma after an assignment separates arguments. e.g. f(x = 1, 2)
         self.suppress_mul_assign = true;
diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index dc5ab3b..597c798 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -101,7 +101,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
         }
         self.expect_reserved(Reserved::In)?;
+        let old_suppress_do_flag = self.suppress_do_block;
+        self.suppress_do_block = true;
         let iter = self.parse_expr()?;
+        self.suppress_do_block = old_suppress_do_flag;
         self.parse_do()?;
         let loc = self.prev_loc();
 
-- 
2.43.0


From c6575e4ee87c47c38947ff57f1342d7f1366077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:42 +0000
Subject: [PATCH 026/111] fix: the location of a method name or a symbol must
 not include the following character

---
 src/parser/define.rs     |  6 ++----
 src/parser/expression.rs |  2 +-
 src/parser/lexer.rs      | 13 ++++---------
 3 files changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/parser/define.rs b/src/parser/define.rs
index cf5250e..c2031a8 100644
--- a/src/parser/define.rs
+++ b/src/parser/define.rs
@@ -163,10 +163,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 _ => unreachable!(),
             }
         } else {
-            Ok(Node::new_symbol(
-                self.read_method_name(true)?.0,
-                self.prev_loc(),
-            ))
+            let (name, loc) = self.read_method_name(true)?;
+            Ok(Node::new_symbol(name, loc))
         }
     }
 
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 45e17d2..ffe649a 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -885,7 +885,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 Reserved::Alias => {
                     let new_name = self.alias_name()?;
                     let old_name = self.alias_name()?;
-                    let loc = loc.merge(self.prev_loc());
+                    let loc = loc.merge(old_name.loc());
                     Ok(Node::new_alias(new_name, old_name, loc))
                 }
                 Reserved::Super => self.parse_super(),
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 5c1de50..e3c415a 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -586,10 +586,7 @@ impl<'a> Lexer<'a> {
         } else {
             return Err(self.error_unexpected(self.token_start_pos));
         };
-        Ok((
-            self.current_slice().to_string(),
-            Loc(self.token_start_pos, self.pos),
-        ))
+        Ok((self.current_slice().to_string(), self.cur_loc()))
     }
 
     pub(crate) fn read_symbol_literal(&mut self) -> Result<Option<(String, Loc)>, LexerErr> {
@@ -605,10 +602,7 @@ impl<'a> Lexer<'a> {
                     return Err(self.error_unexpected(self.pos - ch.len_utf8()));
                 }
                 self.consume_ident();
-                Ok(Some((
-                    self.current_slice().to_string(),
-                    Loc(self.token_start_pos, self.pos),
-                )))
+                Ok(Some((self.current_slice().to_string(), self.cur_loc())))
             }
             '\"' | '\'' => Ok(None),
             _ => self.read_method_name(true).map(Some),
@@ -1424,7 +1418,8 @@ impl<'a> Lexer<'a> {
         }
     }
 
-    fn cur_loc(&self) -> Loc {
+    /// The location between the start of the current token and the current position.
+    pub(crate) fn cur_loc(&self) -> Loc {
         let end = std::cmp::max(self.token_start_pos, self.pos - 1);
         Loc(self.token_start_pos, end)
     }
-- 
2.43.0


From 214dd61222e87c0490f2a83feb001fcd3d8672b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 027/111] fix: the locations of negative numbers, character
 literals, here documents and adjacent strings

---
 src/parser/expression.rs |  6 +++---
 src/parser/literals.rs   | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index ffe649a..24591c3 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -768,18 +768,18 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             TokenKind::Punct(punct) => match punct {
                 Punct::Minus => match self.peek_no_term()?.kind {
                     TokenKind::IntegerLit(num) => {
-                        self.get()?;
+                        let loc = loc.merge(self.get()?.loc);
                         match num.checked_neg() {
                             Some(i) => Ok(Node::new_integer(i, loc)),
                             None => Ok(Node::new_bignum(-BigInt::from(num), loc)),
                         }
                     }
                     TokenKind::BignumLit(num) => {
-                        self.get()?;
+                        let loc = loc.merge(self.get()?.loc);
                         Ok(Node::new_bignum(-num, loc))
                     }
                     TokenKind::FloatLit(num) => {
-                        self.get()?;
+                        let loc = loc.merge(self.get()?.loc);
                         Ok(Node::new_float(-num, loc))
                     }
                     _ => {
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index f2e4df7..89b5b09 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -4,20 +4,20 @@ use super::*;
 impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     /// Parse char literals.
     pub(super) fn parse_char_literal(&mut self) -> Result<Node, LexerErr> {
-        let loc = self.loc();
+        let loc = self.prev_loc();
         let mut s = RubyString::new();
         self.lexer.read_char_literal(&mut s)?;
-        Ok(Node::new_string(s, loc.merge(self.prev_loc)))
+        Ok(Node::new_string(s, loc.merge(self.lexer.cur_loc())))
     }
 
     /// Parse string literals.
     /// Adjacent string literals are to be combined.
     pub(super) fn parse_string_literal(&mut self, mut s: RubyString) -> Result<Node, LexerErr> {
-        let loc = self.prev_loc();
+        let mut loc = self.prev_loc();
         loop {
             match self.peek_no_term()?.kind {
                 TokenKind::StringLit(next_s) => {
-                    self.get()?;
+                    loc = loc.merge(self.get()?.loc);
                     s += &next_s;
                 }
                 TokenKind::OpenString(next_s, open, delimiter, level) => {
@@ -131,7 +131,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let node = match mode {
             ParseMode::Single => Node::new_string(
                 self.lexer.code[start..end].to_string().into(),
-                Loc(start, end),
+                Loc(start, std::cmp::max(start, end.saturating_sub(1))),
             ),
             ParseMode::Double => {
                 let mut parser = self.new_with_range(start, end);
-- 
2.43.0


From 36589ff5fbff3ca5273058d1548dc70e26e8421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:12 +0000
Subject: [PATCH 028/111] fix: reject an assignment to an expression which is
 not assignable

---
 src/parser/expression.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 24591c3..2677911 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1133,6 +1133,21 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         } else if let NodeKind::Splat(lhs) = lhs.kind {
             return Ok(Node::new_splat(self.check_lhs(*lhs)?, loc));
         }
+        let assignable = match &lhs.kind {
+            NodeKind::LocalVar(..)
+            | NodeKind::InstanceVar(_)
+            | NodeKind::GlobalVar(_)
+            | NodeKind::SpecialVar(_)
+            | NodeKind::ClassVar(_)
+            | NodeKind::Const { .. }
+            | NodeKind::Index { .. }
+            | NodeKind::DiscardLhs => true,
+            NodeKind::MethodCall { arglist, .. } => *arglist == ArgList::default(),
+            _ => false,
+        };
+        if !assignable {
+            return Err(error_unexpected(loc, "Not assignable."));
+        }
         Ok(lhs)
     }
 
-- 
2.43.0


From bfd0c81033b2e28d81eb004f61b4b6db48df4aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 029/111] fix: parse an assignment as the operand of a unary
 operator (!x = 1)

---
 src/parser/expression.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 2677911..a44d7ee 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -511,16 +511,19 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     fn parse_unary(&mut self) -> Result<Node, LexerErr> {
         if self.consume_punct(Punct::BitNot)? {
             let loc = self.prev_loc();
-            let lhs = Node::new_unop(UnOp::BitNot, self.parse_unary()?, loc);
-            Ok(lhs)
+            let operand = self.parse_unary()?;
+            let operand = self.parse_accesory_assign(operand)?;
+            Ok(Node::new_unop(UnOp::BitNot, operand, loc))
         } else if self.consume_punct(Punct::Not)? {
             let loc = self.prev_loc();
-            let lhs = Node::new_unop(UnOp::Not, self.parse_unary()?, loc);
-            Ok(lhs)
+            let operand = self.parse_unary()?;
+            let operand = self.parse_accesory_assign(operand)?;
+            Ok(Node::new_unop(UnOp::Not, operand, loc))
         } else if self.consume_punct(Punct::Plus)? {
             let loc = self.prev_loc();
-            let lhs = Node::new_unop(UnOp::Pos, self.parse_unary()?, loc);
-            Ok(lhs)
+            let operand = self.parse_unary()?;
+            let operand = self.parse_accesory_assign(operand)?;
+            Ok(Node::new_unop(UnOp::Pos, operand, loc))
         } else {
             self.parse_method_call()
         }
-- 
2.43.0


From c3f52beda2aba78bbdb33413f719e73ff0a07b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 030/111] fix: an identifier followed by a space and else,
 elsif, when, in, ensure or the end of input is not a command call

---
 src/parser/expression.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index a44d7ee..d5c6630 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1161,7 +1161,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         };
         if self.lexer.trailing_space() {
             match tok.kind {
-                TokenKind::LineTerm => false,
+                TokenKind::LineTerm | TokenKind::Eof => false,
                 TokenKind::Punct(p) => match p {
                     Punct::LParen | Punct::LBracket | Punct::Scope | Punct::Arrow | Punct::Not => {
                         true
@@ -1187,6 +1187,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         | Reserved::And
                         | Reserved::Or
                         | Reserved::Then
+                        | Reserved::Else
+                        | Reserved::Elsif
+                        | Reserved::Ensure
+                        | Reserved::When
+                        | Reserved::In
                         | Reserved::End
                 ),
                 _ => true,
-- 
2.43.0


From 4666517470f5356a1e872d8cf5fba6275f22e6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:59 +0000
Subject: [PATCH 031/111] fix: f ~x and f **x are command calls

---
 src/parser/expression.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index d5c6630..b73587c 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1163,13 +1163,17 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             match tok.kind {
                 TokenKind::LineTerm | TokenKind::Eof => false,
                 TokenKind::Punct(p) => match p {
-                    Punct::LParen | Punct::LBracket | Punct::Scope | Punct::Arrow | Punct::Not => {
-                        true
-                    }
+                    Punct::LParen
+                    | Punct::LBracket
+                    | Punct::Scope
+                    | Punct::Arrow
+                    | Punct::Not
+                    | Punct::BitNot => true,
                     Punct::Colon
                     | Punct::Plus
                     | Punct::Minus
                     | Punct::Mul
+                    | Punct::DMul
                     | Punct::Div
                     | Punct::BitAnd
                     | Punct::Rem
-- 
2.43.0


From ecd602f86fcd118a85816bcbf5af736d29fb8365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:39 +0000
Subject: [PATCH 032/111] fix: parse yield without arguments before an operator
 or a keyword, and a method call on its result

---
 src/parser/expression.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index b73587c..93bd098 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -530,13 +530,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     fn parse_method_call(&mut self) -> Result<Node, LexerErr> {
-        if self.consume_reserved(Reserved::Yield)? {
-            return self.parse_yield();
-        }
         // 一次式メソッド呼び出し
         // スコープ付き定数参照 :: 一次式 [行終端子禁止][空白類禁止] "::" 定数識別子
         //      ｜"::" 定数識別子
-        let mut node = self.parse_primary(false)?;
+        let mut node = if self.consume_reserved(Reserved::Yield)? {
+            self.parse_yield()?
+        } else {
+            self.parse_primary(false)?
+        };
         loop {
             node = if self.consume_punct(Punct::Dot)? {
                 self.parse_primary_method(node, false)?
@@ -584,19 +585,13 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     fn parse_yield(&mut self) -> Result<Node, LexerErr> {
         let loc = self.prev_loc();
-        let tok = self.peek_no_term()?;
-        // TODO: This is not correct.
-        if tok.is_term()
-            || tok.kind == TokenKind::Reserved(Reserved::Unless)
-            || tok.kind == TokenKind::Reserved(Reserved::If)
-            || tok.check_stmt_end()
-        {
-            return Ok(Node::new_yield(ArgList::default(), loc));
-        };
-        let args = if self.consume_punct(Punct::LParen)? {
+        let args = if self.lexer.trailing_lparen() {
+            self.expect_punct(Punct::LParen)?;
             self.parse_arglist(Punct::RParen)?
-        } else {
+        } else if self.is_command() {
             self.parse_arglist(None)?
+        } else {
+            ArgList::default()
         };
         Ok(Node::new_yield(args, loc))
     }
-- 
2.43.0


From ec34aa4f62394155f2eae76b63fa9da6ee7e0706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:45 +0000
Subject: [PATCH 033/111] fix: return, break and next without a value before
 while, until, rescue, and, or, then

---
 src/parser/flow_control.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index 597c798..6b29c65 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -187,8 +187,20 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let tok = self.peek_no_term()?;
         // TODO: This is not correct.
         if tok.is_term()
-            || tok.kind == TokenKind::Reserved(Reserved::Unless)
-            || tok.kind == TokenKind::Reserved(Reserved::If)
+            || matches!(
+                tok.kind,
+                TokenKind::Reserved(
+                    Reserved::Unless
+                        | Reserved::If
+                        | Reserved::While
+                        | Reserved::Until
+                        | Reserved::Rescue
+                        | Reserved::And
+                        | Reserved::Or
+                        | Reserved::Then
+                        | Reserved::Do
+                )
+            )
             || tok.check_stmt_end()
         {
             let val = Node::new_nil(loc);
-- 
2.43.0


From 08234d30cf32c6b61721aaf7f2fcacdca1ef662e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 034/111] fix: report a missing closing parenthesis of an
 argument list

---
 src/parser/expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 93bd098..112e86e 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -990,7 +990,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         }
                     }
                     if let Some(punct) = punct {
-                        self.consume_punct(punct)?;
+                        self.expect_punct(punct)?;
                     };
                     let node = Node::new_hash(kvp, loc);
                     arglist.args.push(node);
@@ -1021,7 +1021,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
         }
         if let Some(punct) = punct {
-            self.consume_punct(punct)?;
+            self.expect_punct(punct)?;
         };
         Ok(arglist)
     }
-- 
2.43.0


From c4f2d32818dd92015a7d2e4e13b135425c59236f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 035/111] fix: an unterminated interpolation or ternary
 expression is an unexpected end of input

---
 src/parser/expression.rs | 5 +----
 src/parser/literals.rs   | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 112e86e..adbffd4 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -254,10 +254,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let loc = cond.loc();
         if self.consume_punct_no_term(Punct::Question)? {
             let then_ = self.parse_arg()?;
-            if !self.consume_punct_no_term(Punct::Colon)? {
-                let loc = self.loc();
-                return Err(error_unexpected(loc, "Expect ':'."));
-            };
+            self.expect_punct(Punct::Colon)?;
             let else_ = self.parse_arg()?;
             let node = Node::new_if(cond, then_, else_, loc);
             Ok(node)
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 89b5b09..9877c6a 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -335,10 +335,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     fn parse_template(&mut self, nodes: &mut Vec<Node>) -> Result<(), LexerErr> {
         if self.consume_punct(Punct::LBrace)? {
             nodes.push(self.parse_comp_stmt()?);
-            if !self.consume_punct(Punct::RBrace)? {
-                let loc = self.prev_loc();
-                return Err(error_unexpected(loc, "Expect '}'"));
-            }
+            self.expect_punct(Punct::RBrace)?;
         } else {
             let tok = self.get()?;
             let loc = tok.loc();
-- 
2.43.0


From 4e7b3db203be2b8f4cb1b2506ed4f680738d4c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:52 +0000
Subject: [PATCH 036/111] fix: a semicolon is a terminator, not white space
 inside of an expression

---
 src/parser.rs              | 2 +-
 src/parser/expression.rs   | 3 ++-
 src/parser/flow_control.rs | 1 +
 src/parser/lexer.rs        | 2 +-
 4 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index df41d02..acd7151 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -324,7 +324,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             if tok.is_eof() {
                 return Err(error_eof(tok.loc()));
             }
-            if !tok.is_line_term() {
+            if tok.kind != TokenKind::LineTerm {
                 self.prev_loc = tok.loc;
                 return Ok(tok);
             }
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index adbffd4..0851a77 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -9,7 +9,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     fn parse_comp_stmt_inner(&mut self) -> Result<Node, LexerErr> {
-        // COMP_STMT : (STMT (TERM STMT)*)? (TERM+)?
+        // COMP_STMT : TERM* (STMT (TERM+ STMT)*)? (TERM+)?
+        self.consume_term()?;
         self.peek()?;
         let loc = self.loc();
         let mut nodes = vec![];
diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index 6b29c65..8a63f88 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -139,6 +139,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let loc = self.prev_loc();
         let old = self.suppress_mul_assign;
         self.suppress_mul_assign = false;
+        self.consume_term()?;
         let cond = if self.peek()?.kind != TokenKind::Reserved(Reserved::When) {
             Some(self.parse_expr()?)
         } else {
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index e3c415a..1464e67 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -140,7 +140,7 @@ impl<'a> Lexer<'a> {
         let mut tok;
         loop {
             tok = self.read_token()?;
-            if tok.is_eof() || !tok.is_line_term() {
+            if tok.kind != TokenKind::LineTerm {
                 break;
             }
         }
-- 
2.43.0


From 86939ba5b0dada5fb39b45304cd2615cd785a091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 037/111] fix: accept a line break before &. as well as before
 .

---
 src/parser/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 0851a77..7457589 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -539,7 +539,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         loop {
             node = if self.consume_punct(Punct::Dot)? {
                 self.parse_primary_method(node, false)?
-            } else if self.consume_punct_no_term(Punct::SafeNav)? {
+            } else if self.consume_punct(Punct::SafeNav)? {
                 self.parse_primary_method(node, true)?
             } else if self.consume_punct_no_term(Punct::Scope)? {
                 if let TokenKind::Const(_) = self.peek()?.kind {
-- 
2.43.0


From 0168bc11b3aeb611c4a898cfa14190c3ef0649f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 038/111] fix: the escapes of a single quoted string are its
 delimiters and the backslash

---
 src/parser/lexer.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 1464e67..450d53b 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -880,13 +880,9 @@ impl<'a> Lexer<'a> {
                     }
                 }
                 '\\' => {
-                    // continuation line
-                    if self.consume_newline() {
-                        continue;
-                    };
                     let c = self.get()?;
-                    if c == '\'' {
-                        s.push('\'');
+                    if !escape_backslash && (c == term || open == Some(c)) {
+                        s.push(c);
                     } else if c == '\\' {
                         s.push('\\');
                         if escape_backslash {
-- 
2.43.0


From dec3ff94610255a6ed001887c5f551cd92f54b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 039/111] fix: split %w and %i at any white space

---
 src/parser/literals.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 9877c6a..da59967 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -91,7 +91,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 // e.g. "foo\ bar" => "foo bar"
                 'w' => {
                     let ary = content
-                        .split(|c| c == ' ' || c == '\n')
+                        .split(|c: char| c.is_ascii_whitespace())
                         .filter(|x| x != &"")
                         .map(|x| Node::new_string(x.to_string().into(), loc))
                         .collect();
@@ -99,7 +99,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 }
                 'i' => {
                     let ary = content
-                        .split(|c| c == ' ' || c == '\n')
+                        .split(|c: char| c.is_ascii_whitespace())
                         .filter(|x| x != &"")
                         .map(|x| Node::new_symbol(x.to_owned(), loc))
                         .collect();
-- 
2.43.0


From d570a0cc269d776ce466b661cb581bd9a0528f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 040/111] fix: nested and escaped brackets in a character class
 of a free format regular expression

---
 src/node.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 029cb0c..dbbbd5e 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -880,7 +880,8 @@ impl Node {
 enum FreeFormatMode {
     Normal,
     Escape,
-    CharacterClass,
+    CharacterClass(usize),       // nesting level
+    CharacterClassEscape(usize), // nesting level
     Comment,
 }
 struct FreeFormatContext {
@@ -904,7 +905,7 @@ impl FreeFormatContext {
                         self.state = FreeFormatMode::Comment;
                     } else if ch == '[' {
                         self.body.push(ch);
-                        self.state = FreeFormatMode::CharacterClass;
+                        self.state = FreeFormatMode::CharacterClass(0);
                     } else if ch == '\\' {
                         self.body.push(ch);
                         self.state = FreeFormatMode::Escape;
@@ -916,12 +917,23 @@ impl FreeFormatContext {
                     self.body.push(ch);
                     self.state = FreeFormatMode::Normal;
                 }
-                FreeFormatMode::CharacterClass => {
+                FreeFormatMode::CharacterClass(level) => {
                     self.body.push(ch);
-                    if ch == ']' {
-                        self.state = FreeFormatMode::Normal;
+                    if ch == '\\' {
+                        self.state = FreeFormatMode::CharacterClassEscape(level);
+                    } else if ch == '[' {
+                        self.state = FreeFormatMode::CharacterClass(level + 1);
+                    } else if ch == ']' {
+                        self.state = match level.checked_sub(1) {
+                            Some(level) => FreeFormatMode::CharacterClass(level),
+                            None => FreeFormatMode::Normal,
+                        };
                     }
                 }
+                FreeFormatMode::CharacterClassEscape(level) => {
+                    self.body.push(ch);
+                    self.state = FreeFormatMode::CharacterClass(level);
+                }
                 FreeFormatMode::Comment => {
                     if ch == '\n' {
                         self.state = FreeFormatMode::Normal;
-- 
2.43.0


From 116804b873012f771bbd6ea6e8e1bf0ddb216f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:32 +0000
Subject: [PATCH 041/111] fix: reject a destructuring parameter after keyword
 parameters

---
 src/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index acd7151..2cfe27c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -622,6 +622,16 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
             let mut loc = self.loc();
             if self.consume_punct(Punct::LParen)? {
+                match state {
+                    Kind::Required | Kind::PostReq => {}
+                    Kind::Optional | Kind::Rest => state = Kind::PostReq,
+                    _ => {
+                        return Err(error_unexpected(
+                            loc,
+                            "Required parameter is not allowed in ths position.",
+                        ))
+                    }
+                }
                 args.push(self.parse_destruct_param()?);
             } else if self.consume_punct(Punct::Range3)? {
                 // Argument delegation
-- 
2.43.0


From 2d8988bf65b4d8aa0afecf465d5207fd9c1e01d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:11 +0000
Subject: [PATCH 042/111] fix: accept a binary escape before an interpolation

---
 src/parser/expression.rs |  2 +-
 src/parser/lexer.rs      |  4 ++--
 src/parser/literals.rs   | 12 ++++++------
 src/token.rs             |  4 ++--
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 7457589..dff7801 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -755,7 +755,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 Ok(Node::new_command(content))
             }
             TokenKind::OpenString(s, open, term, level) => {
-                self.parse_interporated_string_literal(s.into(), open, term, level)
+                self.parse_interporated_string_literal(s, open, term, level)
             }
             TokenKind::OpenCommand(s, term, level) => {
                 let content = self.parse_interporated_string_literal(s.into(), None, term, level)?;
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 450d53b..b7ddd33 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -777,7 +777,7 @@ impl<'a> Lexer<'a> {
         match self.read_interpolate(open, term, level)? {
             InterpolateState::Finished(s) => Ok(self.new_stringlit(s)),
             InterpolateState::NewInterpolation(s, level) => {
-                Ok(self.new_open_string(s.as_string()?, open, term, level))
+                Ok(self.new_open_string(s, open, term, level))
             }
             _ => unreachable!(),
         }
@@ -1498,7 +1498,7 @@ impl<'a> Lexer<'a> {
 
     fn new_open_string(
         &self,
-        s: String,
+        s: RubyString,
         open: Option<char>,
         delimiter: Option<char>,
         level: usize,
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index da59967..b1ac7a4 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -22,7 +22,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 }
                 TokenKind::OpenString(next_s, open, delimiter, level) => {
                     self.get()?;
-                    s += next_s.as_str();
+                    s += &next_s;
                     return self.parse_interporated_string_literal(s, open, delimiter, level);
                 }
                 _ => break,
@@ -57,7 +57,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                             }
                             TokenKind::OpenString(next_s, next_open, next_delimiter, next_level) => {
                                 let t = self.get()?;
-                                name += next_s.as_str();
+                                name += &next_s;
                                 (open, delimiter, level) = (next_open, next_delimiter, next_level);
                                 loc = loc.merge(t.loc);
                                 break;
@@ -75,7 +75,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 }
                 TokenKind::OpenString(s, _, _, next_level) => {
                     level = next_level;
-                    nodes.push(Node::new_string(s.into(), loc));
+                    nodes.push(Node::new_string(s, loc));
                 }
                 _ => unreachable!("{:?}", tok),
             }
@@ -115,7 +115,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         } else if let TokenKind::StringLit(s) = tok.kind {
             Ok(Node::new_string(s, loc))
         } else if let TokenKind::OpenString(s, open, term, level) = tok.kind {
-            let node = self.parse_interporated_string_literal(s.into(), open, term, level)?;
+            let node = self.parse_interporated_string_literal(s, open, term, level)?;
             Ok(node)
         } else {
             unreachable!("parse_percent_notation(): {:?}", tok.kind);
@@ -156,7 +156,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let node = match tok.kind {
             TokenKind::StringLit(s) => Node::new_string(s, loc),
             TokenKind::OpenString(s, open, term, level) => {
-                self.parse_interporated_string_literal(s.into(), open, term, level)?
+                self.parse_interporated_string_literal(s, open, term, level)?
             }
             _ => unreachable!(),
         };
@@ -237,7 +237,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let symbol_loc = self.prev_loc();
         let id = match token.kind {
             TokenKind::OpenString(s, open, term, level) => {
-                let node = self.parse_interporated_string_literal(s.into(), open, term, level)?;
+                let node = self.parse_interporated_string_literal(s, open, term, level)?;
                 let method = "to_sym".to_string();
                 let loc = symbol_loc.merge(node.loc());
                 return Ok(Node::new_mcall_noarg(node, method, false, loc));
diff --git a/src/token.rs b/src/token.rs
index b366fda..ee20252 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -58,7 +58,7 @@ pub(crate) enum TokenKind {
     CommandLit(String),
     Reserved(Reserved),
     Punct(Punct),
-    OpenString(String, Option<char>, Option<char>, usize), // (content, opening, delimiter, paren_level)
+    OpenString(RubyString, Option<char>, Option<char>, usize), // (content, opening, delimiter, paren_level)
     OpenRegex(String),
     OpenCommand(String, Option<char>, usize),
     PercentNotation(char, String),
@@ -248,7 +248,7 @@ impl Token {
     }
 
     pub(crate) fn new_open_string(
-        s: impl Into<String>,
+        s: impl Into<RubyString>,
         open: Option<char>,
         delimiter: Option<char>,
         level: usize,
-- 
2.43.0


From 0f7bfff8c3497eb5b38d6aa4ec9b97df39646588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:35 +0000
Subject: [PATCH 043/111] fix: skip the body of a here document at a line
 continuation and after a dot

---
 src/parser/lexer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index b7ddd33..80cce21 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -533,7 +533,7 @@ impl<'a> Lexer<'a> {
         allow_assign_like: bool,
     ) -> Result<(String, Loc), LexerErr> {
         self.flush();
-        while self.consume_whitespace() || self.consume_newline() {}
+        while self.consume_newline() || self.consume_whitespace() {}
         self.token_start_pos = self.pos;
         let ch = self.get()?;
         if ch.is_ascii_punctuation() && ch != '_' {
@@ -1307,8 +1307,8 @@ impl<'a> Lexer<'a> {
     /// Return true if consumed.
     fn consume_cont_line(&mut self) -> bool {
         if self.peek2() == Some('\n') && self.peek() == Some('\\') {
-            self.pos += 2;
-            true
+            self.pos += 1;
+            self.consume_newline()
         } else {
             false
         }
-- 
2.43.0


From b75fffe5a2c6c60384eb442bddd990e11ba977b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:11 +0000
Subject: [PATCH 044/111] fix: == and =~ directly after a symbol are operators

---
 src/parser/lexer.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 80cce21..a08117d 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -577,7 +577,7 @@ impl<'a> Lexer<'a> {
                 Some(ch)
                     if (ch == '!' && self.peek2() != Some('='))
                         || ch == '?'
-                        || (allow_assign_like && ch == '=' && self.peek2() != Some('>')) =>
+                        || (allow_assign_like && ch == '=' && self.is_assign_suffix()) =>
                 {
                     self.get().unwrap();
                 }
@@ -589,6 +589,16 @@ impl<'a> Lexer<'a> {
         Ok((self.current_slice().to_string(), self.cur_loc()))
     }
 
+    /// Examine whether the next '=' is a part of the method name, not of an operator.
+    fn is_assign_suffix(&self) -> bool {
+        let mut iter = self.code[self.pos..].chars().skip(1);
+        match iter.next() {
+            Some('>' | '~') => false,
+            Some('=') => iter.next() == Some('>'),
+            _ => true,
+        }
+    }
+
     pub(crate) fn read_symbol_literal(&mut self) -> Result<Option<(String, Loc)>, LexerErr> {
         self.flush();
         self.token_start_pos = self.pos;
-- 
2.43.0


From 5a47a91cf311171b7bf7020a16d992939e4fdf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:13 +0000
Subject: [PATCH 045/111] fix: reject names of instance and class variables
 which start with a digit

---
 src/parser/lexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index a08117d..90f54eb 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -459,7 +459,10 @@ impl<'a> Lexer<'a> {
                 let pos = self.pos;
                 match self.get() {
                     Ok(ch) => {
-                        if ch.is_alphanumeric() || ch == '_' || ch == '&' || ch == '\'' {
+                        if ch.is_ascii_digit() && var_kind != VarKind::GlobalVar {
+                            // "@1" and "@@1" are not variables.
+                            return Err(self.error_unexpected(pos));
+                        } else if ch.is_alphanumeric() || ch == '_' || ch == '&' || ch == '\'' {
                         } else {
                             return Err(self.error_unexpected(pos));
                         }
-- 
2.43.0


From c76a09d1a9198ed65053c5363576511003d15d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 046/111] fix: "#$" and "#@" without a variable name are plain
 text

---
 src/parser/lexer.rs | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 90f54eb..1c2e4fc 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -812,6 +812,28 @@ impl<'a> Lexer<'a> {
         }
     }
 
+    /// Examine whether an interpolation ("#{..}", "#$s", "#@a", "#@@a") follows '#'.
+    fn is_interpolation(&self) -> bool {
+        let mut iter = self.code[self.pos..].chars();
+        let is_name = |ch: Option<char>| match ch {
+            Some(ch) => ch.is_ascii_alphabetic() || ch == '_' || !ch.is_ascii(),
+            None => false,
+        };
+        match iter.next() {
+            Some('{') => true,
+            Some('$') => match iter.next() {
+                Some(ch) if ch.is_ascii_punctuation() => "~*$?!@/\\;,.=:<>\"&`'+_-".contains(ch),
+                Some(ch) => ch.is_ascii_digit() || is_name(Some(ch)),
+                None => false,
+            },
+            Some('@') => match iter.next() {
+                Some('@') => is_name(iter.next()),
+                ch => is_name(ch),
+            },
+            _ => false,
+        }
+    }
+
     /// Read interpolation string with `open` as opening char and `term` as a terminator.
     fn read_interpolate(
         &mut self,
@@ -851,13 +873,13 @@ impl<'a> Lexer<'a> {
                     };
                     self.read_escaped_char(&mut s)?;
                 }
-                '#' => match self.peek() {
+                '#' => {
                     // string interpolation
-                    Some(ch) if ch == '{' || ch == '$' || ch == '@' => {
-                        return Ok(InterpolateState::NewInterpolation(s, level))
+                    if self.is_interpolation() {
+                        return Ok(InterpolateState::NewInterpolation(s, level));
                     }
-                    _ => s.push_char('#'),
-                },
+                    s.push_char('#')
+                }
                 '\n' => {
                     s.push_char('\n');
                     if self.heredoc_pos > self.pos {
@@ -1059,12 +1081,12 @@ impl<'a> Lexer<'a> {
                         }
                     };
                 }
-                '#' => match self.peek() {
-                    Some(ch) if ch == '{' || ch == '$' || ch == '@' => {
-                        return Ok(InterpolateState::NewInterpolation(body.into(), 0))
+                '#' => {
+                    if self.is_interpolation() {
+                        return Ok(InterpolateState::NewInterpolation(body.into(), 0));
                     }
-                    _ => body.push('#'),
-                },
+                    body.push('#')
+                }
                 c => body.push(c),
             }
         }
-- 
2.43.0


From 8694614cac6b697598aefba5b7008a31e840dfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:29 +0000
Subject: [PATCH 047/111] fix: `**` after a negative literal in an operand

---
 src/parser/expression.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index dff7801..7c23769 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -654,6 +654,17 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         Ok(Node::new_mcall(node, id, arglist, safe_nav, loc))
     }
 
+    /// Examine whether the token after the next token is `**`.
+    fn is_exponent_base(&mut self) -> Result<bool, LexerErr> {
+        let save = self.save_state();
+        let prev_loc = self.prev_loc;
+        self.get()?;
+        let res = self.peek_no_term()?.kind == TokenKind::Punct(Punct::DMul);
+        self.restore_state(save);
+        self.prev_loc = prev_loc;
+        Ok(res)
+    }
+
     pub(super) fn parse_primary(&mut self, suppress_unparen_call: bool) -> Result<Node, LexerErr> {
         let tok = self.get()?;
         let loc = tok.loc();
@@ -763,6 +774,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
             TokenKind::Punct(punct) => match punct {
                 Punct::Minus => match self.peek_no_term()?.kind {
+                    TokenKind::IntegerLit(_)
+                    | TokenKind::BignumLit(_)
+                    | TokenKind::FloatLit(_)
+                        if self.is_exponent_base()? =>
+                    {
+                        // -2 ** 2 => -(2 ** 2)
+                        let operand = self.parse_exponent()?;
+                        Ok(Node::new_unop(UnOp::Neg, operand, loc))
+                    }
                     TokenKind::IntegerLit(num) => {
                         let loc = loc.merge(self.get()?.loc);
                         match num.checked_neg() {
-- 
2.43.0


From 79f283679ee3e74be7e8f935e06bb3ba1e000635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:04 +0000
Subject: [PATCH 048/111] fix: reject an underscore in a number which is not
 between digits

---
 src/parser/lexer.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 1c2e4fc..4b4265a 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -647,7 +647,7 @@ impl<'a> Lexer<'a> {
                 return self.read_bin_number();
             } else if matches!(self.peek(), Some('0'..='9' | '_')) {
                 // "0173" is an octal number.
-                while self.consume_octal().is_some() || self.consume('_') {}
+                while self.consume_octal().is_some() || self.consume_underscore(8) {}
                 if self.peek_digit() {
                     return Err(Self::error_parse("Invalid octal digit.", self.pos));
                 }
@@ -659,7 +659,7 @@ impl<'a> Lexer<'a> {
         loop {
             if let Some(ch) = self.consume_numeric() {
                 s.push(ch);
-            } else if self.consume('_') {
+            } else if self.consume_underscore(10) {
             } else if !float_flag && self.peek() == Some('.') {
                 match self.peek2() {
                     Some(ch) if ch.is_ascii() && ch.is_numeric() => {
@@ -688,7 +688,7 @@ impl<'a> Lexer<'a> {
             loop {
                 if let Some(ch) = self.consume_numeric() {
                     s.push(ch);
-                } else if self.consume('_') {
+                } else if self.consume_underscore(10) {
                 } else {
                     break;
                 }
@@ -726,7 +726,7 @@ impl<'a> Lexer<'a> {
         self.expect_hex()
             .map_err(|_| Self::error_parse("Numeric literal without digits.", self.pos))?;
 
-        while self.consume_hex().is_some() || self.consume('_') {}
+        while self.consume_hex().is_some() || self.consume_underscore(16) {}
 
         let s = &self.code[start_pos..self.pos];
         match BigInt::parse_bytes(s.as_bytes(), 16) {
@@ -748,7 +748,7 @@ impl<'a> Lexer<'a> {
             }
             None => return Err(Self::error_eof(self.pos)),
         };
-        while self.consume_octal().is_some() || self.consume('_') {}
+        while self.consume_octal().is_some() || self.consume_underscore(8) {}
 
         self.new_radix_number(start_pos, 8)
     }
@@ -763,7 +763,7 @@ impl<'a> Lexer<'a> {
             }
             None => return Err(Self::error_eof(self.pos)),
         };
-        while self.consume('0') || self.consume('1') || self.consume('_') {}
+        while self.consume('0') || self.consume('1') || self.consume_underscore(2) {}
 
         self.new_radix_number(start_pos, 2)
     }
@@ -1373,6 +1373,14 @@ impl<'a> Lexer<'a> {
         }
     }
 
+    /// Consume the next char, if the char is an underscore between digits.
+    fn consume_underscore(&mut self, radix: u32) -> bool {
+        match self.peek2() {
+            Some(ch) if ch.is_digit(radix) => self.consume('_'),
+            _ => false,
+        }
+    }
+
     /// Consume the next char, if the char is '0'-'9' or 'a'-'f'.
     /// Return Some(<hex_digit>) if the char was consumed.
     fn consume_hex(&mut self) -> Option<u32> {
-- 
2.43.0


From f3a7c3ad39589ef2d3a6eee27e67396ed2e97033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 049/111] fix: accept a regular expression and a %-literal
 which start with '='

---
 src/parser/expression.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 7c23769..74499fe 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -826,6 +826,16 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 }
                 Punct::Div => self.parse_regexp(),
                 Punct::Rem => self.parse_percent_notation(),
+                Punct::AssignOp(BinOp::Div) => {
+                    // The '=' belongs to the regular expression. (e.g. /=a/)
+                    self.lexer.restore_state((loc.0, loc.0 + 1));
+                    self.parse_regexp()
+                }
+                Punct::AssignOp(BinOp::Rem) => {
+                    // The '=' is the delimiter. (e.g. %=a=)
+                    self.lexer.restore_state((loc.0, loc.0 + 1));
+                    self.parse_percent_notation()
+                }
                 Punct::Question => self.parse_char_literal(),
                 Punct::Shl => self.parse_heredocument(),
                 Punct::Mul => {
-- 
2.43.0


From 69f3fd1fbd81b6da3a3ee66511015322ad5d294c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:29 +0000
Subject: [PATCH 050/111] fix: location of a receiver which is a call without
 arguments

---
 src/parser/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 74499fe..56c3dd9 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -648,7 +648,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         };
 
         let node = match receiver.kind {
-            NodeKind::Ident(id) => Node::new_fcall_noarg(id, false, loc),
+            NodeKind::Ident(id) => Node::new_fcall_noarg(id, false, receiver.loc),
             _ => receiver,
         };
         Ok(Node::new_mcall(node, id, arglist, safe_nav, loc))
-- 
2.43.0


From ec2bb6ee88111134b8bb3c286d489da511ecd206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:44 +0000
Subject: [PATCH 051/111] fix: names of global variables: accept $_x and $-w,
 reject $( and the like

---
 src/parser/lexer.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 4b4265a..8b60707 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -14,6 +14,13 @@ pub(crate) enum ParseMode {
 
 use enum_iterator::all;
 
+/// Punctuations which make a name of global variable. (e.g. $;)
+const GLOBAL_VAR_PUNCTS: &str = "~*$?!@/\\;,.=<>`+";
+
+fn is_ident_char(ch: char) -> bool {
+    ch.is_ascii_alphanumeric() || ch == '_' || !ch.is_ascii()
+}
+
 fn check_reserved(maybe_reserved: &str) -> Option<Reserved> {
     for reserved in all::<Reserved>() {
         if maybe_reserved == reserved.to_str() {
@@ -426,14 +433,25 @@ impl<'a> Lexer<'a> {
             }
         } else {
             let tok = match self.peek() {
-                Some(ch) if ch.is_ascii_punctuation() => {
+                Some(ch) if ch.is_ascii_punctuation() && ch != '_' => {
+                    let pos = self.pos;
                     let ch = self.get()?;
                     match ch {
                         '&' => self.new_special_var(SPECIAL_LASTMATCH),
                         '\'' => self.new_special_var(SPECIAL_POSTMATCH),
                         ':' => self.new_special_var(SPECIAL_LOADPATH),
                         '"' => self.new_special_var(SPECIAL_LOADEDFEATURES),
-                        _ => self.new_global_var(format!("${}", ch)),
+                        '-' => match self.peek() {
+                            Some(ch) if is_ident_char(ch) => {
+                                self.get()?;
+                                self.new_global_var(format!("$-{}", ch))
+                            }
+                            _ => return Err(self.error_unexpected(pos)),
+                        },
+                        ch if GLOBAL_VAR_PUNCTS.contains(ch) => {
+                            self.new_global_var(format!("${}", ch))
+                        }
+                        _ => return Err(self.error_unexpected(pos)),
                     }
                 }
                 _ => self.read_identifier(None, VarKind::GlobalVar)?,
@@ -822,7 +840,10 @@ impl<'a> Lexer<'a> {
         match iter.next() {
             Some('{') => true,
             Some('$') => match iter.next() {
-                Some(ch) if ch.is_ascii_punctuation() => "~*$?!@/\\;,.=:<>\"&`'+_-".contains(ch),
+                Some('-') => iter.next().is_some_and(is_ident_char),
+                Some(ch) if ch.is_ascii_punctuation() && ch != '_' => {
+                    "&':\"".contains(ch) || GLOBAL_VAR_PUNCTS.contains(ch)
+                }
                 Some(ch) => ch.is_ascii_digit() || is_name(Some(ch)),
                 None => false,
             },
-- 
2.43.0


From 61ae3868e08abc83694c1492945e94ed114ba629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:36 +0000
Subject: [PATCH 052/111] fix: accept a numbered parameter followed by a comma
 in a list

`[_1, 2]` and `f(_1, 2)` were rejected as if `_1` were assigned to; a real
multiple assignment to it is still rejected by the left-hand side check.
---
 src/parser/expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 56c3dd9..2e33594 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -714,7 +714,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     }
                 }
             }
-            TokenKind::NumberedParam(i, name) => {
+            TokenKind::NumberedParam(_, name) => {
                 if self.lexer.trailing_lparen() {
                     // _1()
                     let node = Node::new_identifier(name.clone(), loc);
@@ -726,7 +726,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 if let Ok(tok) = self.peek_no_term() {
                     match tok.kind {
                         // Multiple assignment
-                        TokenKind::Punct(Punct::Comma) => return Err(error_numbered_param(loc, i)),
+                        TokenKind::Punct(Punct::Comma) => return Ok(node),
                         // Method call with block and no args
                         // _1 {}
                         TokenKind::Punct(Punct::LBrace) | TokenKind::Reserved(Reserved::Do) => {
-- 
2.43.0


From 0f2ab83417bf4691fc5a4c0b6ec8e6c1f1478b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:17 +0000
Subject: [PATCH 053/111] fix: a space before the parenthesis makes a method
 call a command call

`a.b (c) - d` passes `(c) - d` to b, as `b (c) - d` does without a receiver;
the receiver form took only `(c)` as the argument.
---
 src/parser/expression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 2e33594..846e023 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -629,7 +629,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             return Ok(node);
         };
         let (id, loc) = self.read_method_name(false)?;
-        let arglist = if self.consume_punct_no_term(Punct::LParen)? {
+        let arglist = if self.lexer.trailing_lparen() {
+            self.expect_punct(Punct::LParen)?;
             self.parse_arglist_block(Punct::RParen)?
         } else {
             if self.is_command() {
-- 
2.43.0


From 6c063be9d82d7145716ff46c1aed6d305ed8aed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:23 +0000
Subject: [PATCH 054/111] fix: accept a rescue clause with then and no
 exception list

---
 src/parser/expression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 846e023..a91f0b8 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1070,7 +1070,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             let mut assign = None;
             let mut exception = vec![];
             if !self.consume_term()? {
-                if !self.peek_punct_no_term(Punct::FatArrow) {
+                let then = TokenKind::Reserved(Reserved::Then);
+                if !self.peek_punct_no_term(Punct::FatArrow) && self.peek_no_term()?.kind != then {
                     exception = self.parse_mul_assign_rhs(None)?;
                 };
                 if self.consume_punct_no_term(Punct::FatArrow)? {
-- 
2.43.0


From 16d0f7caf90a8bee99fa8128ac8cc176fea05a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:10 +0000
Subject: [PATCH 055/111] fix: the default of a block keyword parameter ends at
 the closing bar

`{ |a: b| c }` took `b | c` for the default; both kinds of default are now
a primary with its method calls and indexes, as Ruby has them.
---
 src/parser.rs            | 4 +++-
 src/parser/expression.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2cfe27c..dbd7e4e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -689,7 +689,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 if self.consume_punct(Punct::Assign)? {
                     // Optional param
                     let default = if let Some(Punct::BitOr) = terminator {
-                        self.parse_primary(true)?
+                        self.parse_method_call()?
                     } else {
                         self.parse_arg()?
                     };
@@ -715,6 +715,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         } else if let Some(term) = terminator {
                             if next == TokenKind::Punct(term) {
                                 None
+                            } else if term == Punct::BitOr {
+                                Some(self.parse_method_call()?)
                             } else {
                                 Some(self.parse_arg()?)
                             }
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index a91f0b8..417f643 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -527,7 +527,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         }
     }
 
-    fn parse_method_call(&mut self) -> Result<Node, LexerErr> {
+    pub(super) fn parse_method_call(&mut self) -> Result<Node, LexerErr> {
         // 一次式メソッド呼び出し
         // スコープ付き定数参照 :: 一次式 [行終端子禁止][空白類禁止] "::" 定数識別子
         //      ｜"::" 定数識別子
-- 
2.43.0


From 769e29ab12dee8a422e3e44e5f9f78303129238c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:13 +0000
Subject: [PATCH 056/111] fix: the location of an array literal ends at its
 bracket

The body of a here-document in the last element was included.
---
 src/parser/expression.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 417f643..9bcf55d 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -816,7 +816,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     // Array literal
                     let nodes = self.parse_mul_assign_rhs(Punct::RBracket)?;
                     let loc = loc.merge(self.prev_loc());
-                    Ok(Node::new_array(nodes, loc))
+                    let mut node = Node::new_array(nodes, loc);
+                    // a here-document in the array extends beyond the bracket.
+                    node.loc = loc;
+                    Ok(node)
                 }
                 Punct::LBrace => self.parse_hash_literal(),
                 Punct::Colon => self.parse_symbol(),
-- 
2.43.0


From 70a456051ee0a2fcb1f5ceedb84d67b42767f35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:20 +0000
Subject: [PATCH 057/111] fix: reject a comma at the end of a parameter list

Only `|a,|` after required parameters of a block may end with a comma.
---
 src/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index dbd7e4e..95875ea 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -616,6 +616,13 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         loop {
             if let Some(term) = terminator {
                 if self.consume_punct(term)? {
+                    // "|a,|" is the only list that may end with a comma.
+                    if !args.is_empty() && (term != Punct::BitOr || state > Kind::Required) {
+                        return Err(error_unexpected(
+                            self.prev_loc(),
+                            "Unexpected comma at the end of parameters.",
+                        ));
+                    }
                     self.suppress_mul_assign = old_suppress_mul_flag;
                     return Ok(args);
                 }
-- 
2.43.0


From 352cefd9591ba9d1c891c70ff737576b00baa998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:36 +0000
Subject: [PATCH 058/111] fix: the location of a call A::B() is its method name

---
 src/parser/expression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 9bcf55d..58ddfee 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -545,10 +545,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 if let TokenKind::Const(_) = self.peek()?.kind {
                     let loc = node.loc;
                     let name = self.expect_const()?;
+                    let name_loc = self.prev_loc();
                     if self.consume_punct_no_term(Punct::LParen)? {
                         // Foo::Bar()
                         let arglist = self.parse_arglist_block(Punct::RParen)?;
-                        Node::new_mcall(node, name, arglist, false, self.prev_loc())
+                        Node::new_mcall(node, name, arglist, false, name_loc)
                     } else if let NodeKind::Const {
                         toplevel,
                         parent,
-- 
2.43.0


From 3e00eda6fce9872c0da0c818bc2f7a63a1957ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:14 +0000
Subject: [PATCH 059/111] fix: a space before the parenthesis makes super a
 command call

---
 src/parser/expression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 58ddfee..c3b718c 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -597,7 +597,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     fn parse_super(&mut self) -> Result<Node, LexerErr> {
         let loc = self.prev_loc();
-        let arglist = if self.consume_punct_no_term(Punct::LParen)? {
+        let arglist = if self.lexer.trailing_lparen() {
+            self.expect_punct(Punct::LParen)?;
             self.parse_arglist_block(Punct::RParen)?
         } else if self.is_command() {
             self.parse_arglist_block(None)?
-- 
2.43.0


From 8847541088c31f98862d3b0ca32b8fa1823dad8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:34 +0000
Subject: [PATCH 060/111] fix: accept the method name ` after a dot

Looking for `.()` read it as the start of a command literal; a failed peek now
leaves the lexer where it was.
---
 src/parser/expression.rs | 3 ++-
 src/parser/lexer.rs      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index c3b718c..ca2c426 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -624,7 +624,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         //      ｜ 一次式 ［行終端子禁止］ "::" メソッド名 括弧付き実引数 ブロック?
         //      ｜ 一次式 ［行終端子禁止］ "::" 定数以外のメソッド名 ブロック?
         let loc = self.prev_loc;
-        if self.consume_punct_no_term(Punct::LParen)? {
+        if self.peek_punct_no_term(Punct::LParen) {
+            self.get()?;
             let arglist = self.parse_arglist_block(Punct::RParen)?;
             //let loc = receiver.loc().merge(self.loc());
             let node = Node::new_mcall(receiver, "call".to_string(), arglist, safe_nav, loc);
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 8b60707..380653d 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -133,8 +133,9 @@ impl<'a> Lexer<'a> {
             return Ok(tok.clone());
         };
         let save = self.save_state();
-        let tok = self.read_token()?;
+        let res = self.read_token();
         self.restore_state(save);
+        let tok = res?;
         self.buf = Some(tok.clone());
         Ok(tok)
     }
-- 
2.43.0


From a9d012e4b1bbba7c4b128bfd7afb94710ce7b73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:14 +0000
Subject: [PATCH 061/111] fix: accept a line continuation before a method name

---
 src/parser/lexer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 380653d..0679e6b 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -555,8 +555,7 @@ impl<'a> Lexer<'a> {
         allow_assign_like: bool,
     ) -> Result<(String, Loc), LexerErr> {
         self.flush();
-        while self.consume_newline() || self.consume_whitespace() {}
-        self.token_start_pos = self.pos;
+        self.skip_whitespace();
         let ch = self.get()?;
         if ch.is_ascii_punctuation() && ch != '_' {
             // re-definable operators
-- 
2.43.0


From 9b1f83ea090da6f2e6ccaff4fcfc85d3e1973795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:21 +0000
Subject: [PATCH 062/111] fix: accept then on the line after a rescue without
 an exception list

---
 src/parser/expression.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index ca2c426..665f4c1 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1075,8 +1075,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             };
             let mut assign = None;
             let mut exception = vec![];
-            if !self.consume_term()? {
-                let then = TokenKind::Reserved(Reserved::Then);
+            let then = TokenKind::Reserved(Reserved::Then);
+            if self.consume_term()? {
+                self.consume_reserved(Reserved::Then)?;
+            } else {
                 if !self.peek_punct_no_term(Punct::FatArrow) && self.peek_no_term()?.kind != then {
                     exception = self.parse_mul_assign_rhs(None)?;
                 };
-- 
2.43.0


From 5968cc29e9a4203847d37bda7cca9b0a6154b74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:29 +0000
Subject: [PATCH 063/111] fix: a semicolon ends a keyword parameter without a
 default

---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 95875ea..d2cbe48 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -717,7 +717,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     // Keyword param
                     let next = self.peek_no_term()?.kind;
                     let default =
-                        if next == TokenKind::Punct(Punct::Comma) || next == TokenKind::LineTerm {
+                        if next == TokenKind::Punct(Punct::Comma)
+                            || next == TokenKind::Punct(Punct::Semi)
+                            || next == TokenKind::LineTerm
+                        {
                             None
                         } else if let Some(term) = terminator {
                             if next == TokenKind::Punct(term) {
-- 
2.43.0


From 603a215fa762e6a0cc40d794b005781b634283b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:44 +0000
Subject: [PATCH 064/111] fix: location of a destructuring parameter after a
 newline

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d2cbe48..bd246b3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -788,16 +788,16 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     fn parse_destruct_param(&mut self) -> Result<FormalParam, LexerErr> {
-        let loc = self.loc();
         let name = self.expect_ident()?;
+        let loc = self.prev_loc();
         self.new_param(name.clone(), loc)?;
         let mut idents = vec![(name, loc)];
         while self.consume_punct(Punct::Comma)? {
             if self.consume_punct(Punct::RParen)? {
                 return Ok(FormalParam::destruct_param(idents));
             }
-            let loc = self.loc();
             let name = self.expect_ident()?;
+            let loc = self.prev_loc();
             self.new_param(name.clone(), loc)?;
             idents.push((name, loc));
         }
-- 
2.43.0


From 4ce0a3554a4d635da98307d345b95b3d96517cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:38 +0000
Subject: [PATCH 065/111] fix: do blocks inside defined?(..) and parenthesized
 parameters

A loop condition or command before the parenthesis suppressed them.
---
 src/parser.rs            | 9 ++++++---
 src/parser/expression.rs | 2 ++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index bd246b3..a006ad1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -609,7 +609,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let terminator = terminator.into();
         let mut args = vec![];
         let mut state = Kind::Required;
-        let old_suppress_mul_flag = self.suppress_mul_assign;
+        let old = self.save_suppress();
+        if terminator == Some(Punct::RParen) {
+            self.clear_suppress();
+        }
         // a comma after a default value separates parameters.
         self.suppress_mul_assign = true;
 
@@ -623,7 +626,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                             "Unexpected comma at the end of parameters.",
                         ));
                     }
-                    self.suppress_mul_assign = old_suppress_mul_flag;
+                    self.restore_suppress(old);
                     return Ok(args);
                 }
             }
@@ -780,7 +783,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 }
             }
         }
-        self.suppress_mul_assign = old_suppress_mul_flag;
+        self.restore_suppress(old);
         if let Some(term) = terminator {
             self.expect_punct(term)?;
         }
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 665f4c1..f4e9d2d 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -906,7 +906,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 Reserved::Defined => {
                     if self.consume_punct_no_term(Punct::LParen)? {
                         self.defined_mode = true;
+                        let old = self.clear_suppress();
                         let node = self.parse_expr()?;
+                        self.restore_suppress(old);
                         self.defined_mode = false;
                         self.expect_punct(Punct::RParen)?;
                         Ok(Node::new_defined(node))
-- 
2.43.0


From e6feb157843f625bd25561ca0e16e55020d695e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:39 +0000
Subject: [PATCH 066/111] fix: parameters are visible in their defaults and
 come first in the table

`def f(a = a)` read the outer a, and a variable assigned in a default value
took the table position of a later parameter.
---
 src/lvar_collector.rs | 14 ++++++++++++++
 src/parser.rs         | 21 ++++++++++++++++-----
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/lvar_collector.rs b/src/lvar_collector.rs
index 15f01cf..5f0bd43 100644
--- a/src/lvar_collector.rs
+++ b/src/lvar_collector.rs
@@ -129,6 +129,20 @@ impl LvarCollector {
         Some(lvar)
     }
 
+    /// Move the variables at the positions `ids` behind all the others.
+    pub(crate) fn move_last(&mut self, ids: &[usize]) {
+        let (last, first): (Vec<usize>, Vec<usize>) =
+            (0..self.len()).partition(|i| ids.contains(i));
+        let order = [first, last].concat();
+        let names = &self.table.0;
+        self.table = LvarTable(order.iter().map(|i| names[*i].clone()).collect());
+        let slots = self.kw.iter_mut();
+        let slots = slots.chain(&mut self.kwrest).chain(&mut self.block);
+        for id in slots.chain(&mut self.forwarding_param) {
+            *id = LvarId(order.iter().position(|i| *i == id.0).unwrap());
+        }
+    }
+
     fn get_name_id(&self, id: LvarId) -> Option<String> {
         self.table.get(id.into())
     }
diff --git a/src/parser.rs b/src/parser.rs
index a006ad1..2dfc177 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -615,6 +615,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         }
         // a comma after a default value separates parameters.
         self.suppress_mul_assign = true;
+        // variables assigned in the default values.
+        let mut not_params = vec![];
 
         loop {
             if let Some(term) = terminator {
@@ -698,6 +700,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let name = self.expect_ident()?;
                 if self.consume_punct(Punct::Assign)? {
                     // Optional param
+                    // a parameter is visible in its own default value.
+                    self.new_param(name.clone(), loc)?;
+                    let len = self.scope_mut().lvar.len();
                     let default = if let Some(Punct::BitOr) = terminator {
                         self.parse_method_call()?
                     } else {
@@ -714,10 +719,13 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                             ))
                         }
                     };
-                    args.push(FormalParam::optional(name.clone(), default, loc));
-                    self.new_param(name, loc)?;
+                    args.push(FormalParam::optional(name, default, loc));
+                    not_params.extend(len..self.scope_mut().lvar.len());
                 } else if self.consume_punct_no_term(Punct::Colon)? {
                     // Keyword param
+                    let lvar = self.new_param(name.clone(), loc)?;
+                    self.add_kw_param(lvar);
+                    let len = self.scope_mut().lvar.len();
                     let next = self.peek_no_term()?.kind;
                     let default =
                         if next == TokenKind::Punct(Punct::Comma)
@@ -745,9 +753,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     } else {
                         state = Kind::KeyWord;
                     };
-                    args.push(FormalParam::keyword(name.clone(), default, loc));
-                    let lvar = self.new_param(name, loc)?;
-                    self.add_kw_param(lvar);
+                    args.push(FormalParam::keyword(name, default, loc));
+                    not_params.extend(len..self.scope_mut().lvar.len());
                 } else {
                     // Required param
                     loc = self.prev_loc();
@@ -784,6 +791,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
         }
         self.restore_suppress(old);
+        if !not_params.is_empty() {
+            // the parameters come first in the table.
+            self.scope_mut().lvar.move_last(&not_params);
+        }
         if let Some(term) = terminator {
             self.expect_punct(term)?;
         }
-- 
2.43.0


From f7a9cac56ffa3b534f9184e7dfca0fd48edfcea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:07 +0000
Subject: [PATCH 067/111] fix: accept argument forwarding after optional
 parameters

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2dfc177..27820ef 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -647,7 +647,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 args.push(self.parse_destruct_param()?);
             } else if self.consume_punct(Punct::Range3)? {
                 // Argument delegation
-                if state > Kind::Required {
+                let is_rest = |p: &FormalParam| matches!(p.kind, ParamKind::Rest(_));
+                if state > Kind::PostReq || args.iter().any(is_rest) {
                     return Err(error_unexpected(
                         loc,
                         "parameter delegate is not allowed in ths position.",
-- 
2.43.0


From 4932ddd7e2c91e9325c357f788a40008a8e811ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:32 +0000
Subject: [PATCH 068/111] fix: argument forwarding belongs to the nearest
 method only

It was accepted as parameter of blocks, and inside of a class in a method.
---
 src/parser.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 27820ef..667cf8e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -160,12 +160,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     /// If not, return ParseErr.
     fn check_forwarding(&self) -> Result<(), LexerErr> {
         for ctx in self.scope.iter().rev() {
-            if ctx.kind == ScopeKind::Method {
-                if ctx.lvar.forwarding_param.is_some() {
-                    return Ok(());
-                } else {
-                    break;
-                }
+            match ctx.kind {
+                ScopeKind::Method if ctx.lvar.forwarding_param.is_some() => return Ok(()),
+                ScopeKind::Block | ScopeKind::For => {}
+                _ => break,
             }
         }
         Err(error_unexpected(self.prev_loc(), "Unexpected ..."))
@@ -648,7 +646,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             } else if self.consume_punct(Punct::Range3)? {
                 // Argument delegation
                 let is_rest = |p: &FormalParam| matches!(p.kind, ParamKind::Rest(_));
-                if state > Kind::PostReq || args.iter().any(is_rest) {
+                let is_method = self.scope_mut().kind == ScopeKind::Method;
+                if !is_method || state > Kind::PostReq || args.iter().any(is_rest) {
                     return Err(error_unexpected(
                         loc,
                         "parameter delegate is not allowed in ths position.",
-- 
2.43.0


From aae476c739bc1987ca34e2ad80b74930c39c72bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:16 +0000
Subject: [PATCH 069/111] fix: the colon of a key must follow its name directly

`{ case :a when ..` was read as a key named case, and `f((x): 1)` and
`f(x : 1)` were accepted.
---
 src/parser.rs            | 2 +-
 src/parser/expression.rs | 3 ++-
 src/parser/lexer.rs      | 5 +++++
 src/parser/literals.rs   | 6 +++---
 4 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 667cf8e..eb485d8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -721,7 +721,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     };
                     args.push(FormalParam::optional(name, default, loc));
                     not_params.extend(len..self.scope_mut().lvar.len());
-                } else if self.consume_punct_no_term(Punct::Colon)? {
+                } else if self.lexer.trailing_colon() && self.consume_punct_no_term(Punct::Colon)? {
                     // Keyword param
                     let lvar = self.new_param(name.clone(), loc)?;
                     self.add_kw_param(lvar);
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index f4e9d2d..7e7b76b 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1035,7 +1035,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 }
                 match &node.kind {
                     NodeKind::Ident(id, ..) | NodeKind::LocalVar(_, id) => {
-                        if self.consume_punct_no_term(Punct::Colon)? {
+                        let label = self.lexer.trailing_colon() && self.prev_loc() == loc;
+                        if label && self.consume_punct_no_term(Punct::Colon)? {
                             // keyword args
                             arglist.kw_args.push((id.to_string(), self.parse_arg()?));
                         } else {
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 0679e6b..eae4b00 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -173,6 +173,11 @@ impl<'a> Lexer<'a> {
         }
     }
 
+    /// Examine if the next char is ':'.
+    pub(crate) fn trailing_colon(&self) -> bool {
+        self.peek() == Some(':')
+    }
+
     /// Examine if the next char of the token is space.
     pub(crate) fn has_trailing_space(&self, tok: &Token) -> bool {
         match self
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index b1ac7a4..e136df7 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -195,13 +195,13 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             if self.consume_punct(Punct::RBrace)? {
                 return Ok(Node::new_hash(kvp, loc.merge(self.prev_loc())));
             };
-            let ident_loc = self.loc();
             let mut symbol_flag = false;
             let key = match self.peek()?.can_be_symbol() {
                 Some(id) => {
                     let save = self.save_state();
-                    self.get().unwrap();
-                    if self.consume_punct(Punct::Colon)? {
+                    let ident_loc = self.get()?.loc();
+                    // the colon of a key follows directly.
+                    if self.lexer.trailing_colon() && self.consume_punct(Punct::Colon)? {
                         symbol_flag = true;
                         Node::new_symbol(id.to_owned(), ident_loc)
                     } else {
-- 
2.43.0


From 14358ba38af10a3ac441e93968fcec0cd93dbbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:44 +0000
Subject: [PATCH 070/111] fix: non-associative operators can not be chained in
 the value of an assignment (C08)

---
 src/parser/expression.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 7e7b76b..b3e8516 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -265,6 +265,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     fn parse_arg_range(&mut self) -> Result<Node, LexerErr> {
+        let node = self.parse_arg_range_inner()?;
+        self.check_non_assoc(&[Punct::Range2, Punct::Range3])?;
+        Ok(node)
+    }
+
+    fn parse_arg_range_inner(&mut self) -> Result<Node, LexerErr> {
         let lhs = self.parse_arg_logical_or()?;
         if self.is_line_term()? {
             return Ok(lhs);
@@ -302,6 +308,30 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     // 4==4==4 => SyntaxError
     fn parse_arg_eq(&mut self) -> Result<Node, LexerErr> {
+        let node = self.parse_arg_eq_inner()?;
+        self.check_non_assoc(&[
+            Punct::Cmp,
+            Punct::Eq,
+            Punct::Ne,
+            Punct::TEq,
+            Punct::Match,
+            Punct::Unmatch,
+        ])?;
+        Ok(node)
+    }
+
+    /// Non-associative operators can not be chained.
+    fn check_non_assoc(&mut self, operators: &[Punct]) -> Result<(), LexerErr> {
+        let tok = self.peek_no_term()?;
+        match &tok.kind {
+            TokenKind::Punct(punct) if operators.contains(punct) => {
+                Err(error_unexpected(tok.loc, "Non-associative operator."))
+            }
+            _ => Ok(()),
+        }
+    }
+
+    fn parse_arg_eq_inner(&mut self) -> Result<Node, LexerErr> {
         let lhs = self.parse_arg_comp()?;
         if self.consume_punct_no_term(Punct::Cmp)? {
             let rhs = self.parse_arg_comp()?;
-- 
2.43.0


From 21e3393f68d67214417d2e09f2bc1c7d45524c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:10 +0000
Subject: [PATCH 071/111] fix: -9223372036854775808 is a small integer (C09)

---
 src/parser/expression.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index b3e8516..7dbd4f2 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1,4 +1,5 @@
 use super::*;
+use num::ToPrimitive;
 
 impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     pub(super) fn parse_comp_stmt(&mut self) -> Result<Node, LexerErr> {
@@ -826,7 +827,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     }
                     TokenKind::BignumLit(num) => {
                         let loc = loc.merge(self.get()?.loc);
-                        Ok(Node::new_bignum(-num, loc))
+                        let num = -num;
+                        match num.to_i64() {
+                            Some(i) => Ok(Node::new_integer(i, loc)),
+                            None => Ok(Node::new_bignum(num, loc)),
+                        }
                     }
                     TokenKind::FloatLit(num) => {
                         let loc = loc.merge(self.get()?.loc);
-- 
2.43.0


From f0cd91cdde68b760dc7a7913bfa3e4507b3f446e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:58 +0000
Subject: [PATCH 072/111] fix: tabs between the code points of \u{..} (C10)

---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index eae4b00..4aee9b0 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1190,7 +1190,7 @@ impl<'a> Lexer<'a> {
             'u' => {
                 if self.consume('{') {
                     loop {
-                        while self.consume(' ') {}
+                        while self.consume(' ') || self.consume('\t') {}
                         if self.consume('}') {
                             break;
                         }
-- 
2.43.0


From 49ef51033e3902abec25fc291193e8a1b8dab128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:26 +0000
Subject: [PATCH 073/111] fix: an instance variable is no key before a colon
 (C07)

---
 src/token.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/token.rs b/src/token.rs
index ee20252..79c5420 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -311,7 +311,6 @@ impl Token {
             TokenKind::Ident(ident) => ident,
             TokenKind::NumberedParam(_, ident) => ident,
             TokenKind::Const(ident) => ident,
-            TokenKind::InstanceVar(ident) => ident,
             TokenKind::StringLit(ident) => match ident.as_str() {
                 Ok(s) => s,
                 Err(_) => return None,
-- 
2.43.0


From 524833d66f1ef1141c710c0e573f7a1b6de6e88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:09 +0000
Subject: [PATCH 074/111] fix: method names and pseudo variables are not names
 of variables (C07)

---
 src/parser.rs              | 28 +++++++++++++++++++++++-----
 src/parser/expression.rs   |  1 +
 src/parser/flow_control.rs |  2 +-
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index eb485d8..8e05170 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -452,6 +452,23 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         }
     }
 
+    /// Get the next token and examine whether it is a name of a variable.
+    fn expect_var_name(&mut self) -> Result<String, LexerErr> {
+        let name = self.expect_ident()?;
+        self.check_var_name(&name, self.prev_loc())?;
+        Ok(name)
+    }
+
+    /// Method names such as "a?" and pseudo variables are not names of variables.
+    fn check_var_name(&self, name: &str, loc: Loc) -> Result<(), LexerErr> {
+        match name {
+            "nil" | "self" | "true" | "false" | "__FILE__" | "__LINE__" => {}
+            _ if name.ends_with(['!', '?']) => {}
+            _ => return Ok(()),
+        }
+        Err(error_unexpected(loc, "Invalid variable name."))
+    }
+
     /// Get the next token and examine whether it is Const.
     /// Return IdentId of the Const.
     /// If not, return RubyError.
@@ -658,7 +675,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 break;
             } else if self.consume_punct(Punct::BitAnd)? {
                 // Block param
-                let name = self.expect_ident()?;
+                let name = self.expect_var_name()?;
                 loc = loc.merge(self.prev_loc());
                 args.push(FormalParam::block(name.clone(), loc));
                 self.new_block_param(name, loc)?;
@@ -676,6 +693,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 };
                 match self.consume_ident()? {
                     Some(name) => {
+                        self.check_var_name(&name, self.prev_loc())?;
                         args.push(FormalParam::rest(name.clone(), loc));
                         self.new_param(name, self.prev_loc())?;
                     }
@@ -683,7 +701,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 }
             } else if self.consume_punct(Punct::DMul)? {
                 // Keyword rest param
-                let name = self.expect_ident()?;
+                let name = self.expect_var_name()?;
                 loc = loc.merge(self.prev_loc());
                 if state >= Kind::KWRest {
                     return Err(error_unexpected(
@@ -697,7 +715,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 args.push(FormalParam::kwrest(name.clone(), loc));
                 self.new_kwrest_param(name, self.prev_loc())?;
             } else {
-                let name = self.expect_ident()?;
+                let name = self.expect_var_name()?;
                 if self.consume_punct(Punct::Assign)? {
                     // Optional param
                     // a parameter is visible in its own default value.
@@ -802,7 +820,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     fn parse_destruct_param(&mut self) -> Result<FormalParam, LexerErr> {
-        let name = self.expect_ident()?;
+        let name = self.expect_var_name()?;
         let loc = self.prev_loc();
         self.new_param(name.clone(), loc)?;
         let mut idents = vec![(name, loc)];
@@ -810,7 +828,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             if self.consume_punct(Punct::RParen)? {
                 return Ok(FormalParam::destruct_param(idents));
             }
-            let name = self.expect_ident()?;
+            let name = self.expect_var_name()?;
             let loc = self.prev_loc();
             self.new_param(name.clone(), loc)?;
             idents.push((name, loc));
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 7dbd4f2..6fa0bd5 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1192,6 +1192,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     }
                 }
             }
+            self.check_var_name(&name, lhs.loc)?;
             let outer = self.add_local_var_if_new(&name);
             return Ok(Node::new_lvar(name, outer, lhs.loc));
         } else if let NodeKind::Const { .. } = lhs.kind {
diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index 8a63f88..7f2224c 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -83,7 +83,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             None
         };
         loop {
-            let name = self.expect_ident()?;
+            let name = self.expect_var_name()?;
             let outer = self.add_local_var_if_new(&name);
             vars.push((outer, name));
             if let Some(term) = terminator {
-- 
2.43.0


From ec0fd3127f0362f42ce28fe60580ad28fd1de143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:31 +0000
Subject: [PATCH 075/111] fix: parameters without parentheses end at a
 terminator (C07)

---
 src/parser/define.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/define.rs b/src/parser/define.rs
index c2031a8..aa3e308 100644
--- a/src/parser/define.rs
+++ b/src/parser/define.rs
@@ -180,7 +180,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             None
         };
         let args = self.parse_formal_params(term)?;
-        self.consume_term()?;
+        if !self.consume_term()? && term.is_none() {
+            return Err(error_unexpected(
+                self.loc(),
+                "Expected a terminator after parameters.",
+            ));
+        }
         Ok(args)
     }
 
-- 
2.43.0


From c16b0a4dba72d0df68aa6c695d3bcb3c20eab3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:34 +0000
Subject: [PATCH 076/111] fix: a dot is required in the definition of a
 singleton method (C07)

---
 src/parser/define.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/parser/define.rs b/src/parser/define.rs
index aa3e308..058e377 100644
--- a/src/parser/define.rs
+++ b/src/parser/define.rs
@@ -15,14 +15,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let loc = tok.loc;
         let (singleton, name) = match tok.kind {
             TokenKind::GlobalVar(name) => {
-                self.consume_punct_no_term(Punct::Dot)?;
+                self.expect_singleton_dot()?;
                 (
                     Some(Node::new_global_var(name, loc)),
                     self.read_method_name(true)?.0,
                 )
             }
             TokenKind::InstanceVar(name) => {
-                self.consume_punct_no_term(Punct::Dot)?;
+                self.expect_singleton_dot()?;
                 (
                     Some(Node::new_instance_var(name, loc)),
                     self.read_method_name(true)?.0,
@@ -30,13 +30,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
             TokenKind::Reserved(r) => (None, self.read_method_ext(r.to_str().to_string())?),
             TokenKind::Ident(s) => {
-                if s.as_str() == "self" {
-                    self.consume_punct_no_term(Punct::Dot)?;
-                    (Some(Node::new_self(loc)), self.read_method_name(true)?.0)
-                } else if self.consume_punct_no_term(Punct::Dot)?
+                if self.consume_punct_no_term(Punct::Dot)?
                     || self.consume_punct_no_term(Punct::Scope)?
                 {
                     let receiver = match self.is_local_var(&s) {
+                        _ if s == "self" => Node::new_self(loc),
                         Some(outer) => Node::new_lvar(s, outer, loc),
                         None => Node::new_identifier(s, loc),
                     };
@@ -78,6 +76,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         Ok(decl)
     }
 
+    /// The dot between the receiver and the name of a singleton method.
+    fn expect_singleton_dot(&mut self) -> Result<(), LexerErr> {
+        if self.consume_punct_no_term(Punct::Dot)? || self.consume_punct_no_term(Punct::Scope)? {
+            return Ok(());
+        }
+        let loc = self.loc();
+        Err(error_unexpected(loc, "Expected '.' after the receiver."))
+    }
+
     /// Parse class definition.
     pub(super) fn parse_class(&mut self, is_module: bool) -> Result<Node, LexerErr> {
         // クラス定義 : "class" クラスパス [行終端子禁止] ("<" 式)? 分離子 本体文 "end"
-- 
2.43.0


From a2e48eabfaed6e18f01cab7d7b73afdbcc31cc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:06 +0000
Subject: [PATCH 077/111] fix: nil, true and false as receivers of a singleton
 method (C20)

---
 src/parser/define.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/parser/define.rs b/src/parser/define.rs
index 058e377..b7b732e 100644
--- a/src/parser/define.rs
+++ b/src/parser/define.rs
@@ -33,10 +33,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 if self.consume_punct_no_term(Punct::Dot)?
                     || self.consume_punct_no_term(Punct::Scope)?
                 {
-                    let receiver = match self.is_local_var(&s) {
-                        _ if s == "self" => Node::new_self(loc),
-                        Some(outer) => Node::new_lvar(s, outer, loc),
-                        None => Node::new_identifier(s, loc),
+                    let receiver = match s.as_str() {
+                        "self" => Node::new_self(loc),
+                        "nil" => Node::new_nil(loc),
+                        "true" => Node::new_bool(true, loc),
+                        "false" => Node::new_bool(false, loc),
+                        _ => match self.is_local_var(&s) {
+                            Some(outer) => Node::new_lvar(s, outer, loc),
+                            None => Node::new_identifier(s, loc),
+                        },
                     };
                     (Some(receiver), self.read_method_name(true)?.0)
                 } else {
@@ -82,6 +87,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             return Ok(());
         }
         let loc = self.loc();
+        if self.peek()?.is_eof() {
+            return Err(error_eof(loc));
+        }
         Err(error_unexpected(loc, "Expected '.' after the receiver."))
     }
 
-- 
2.43.0


From 7dae7f59b72e6afba7fa051128b07da00ddc688d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 078/111] fix: a positional argument cannot follow keyword
 arguments, nor any argument '...' (C17)

---
 src/parser/expression.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 6fa0bd5..60ba226 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1023,10 +1023,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
             if self.consume_punct(Punct::Range3)? {
                 self.check_forwarding()?;
+                check_positional(&arglist, self.prev_loc())?;
                 arglist.forwarding = true;
             } else if self.consume_punct(Punct::Mul)? {
                 // splat argument
                 let loc = self.prev_loc();
+                check_positional(&arglist, loc)?;
                 let array = self.parse_arg()?;
                 arglist.splat = true;
                 arglist.args.push(Node::new_splat(array, loc));
@@ -1076,10 +1078,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                             arglist.kw_args.push((id.to_string(), self.parse_arg()?));
                         } else {
                             // positional args
+                            check_positional(&arglist, loc)?;
                             arglist.args.push(node);
                         }
                     }
                     _ => {
+                        check_positional(&arglist, loc)?;
                         arglist.args.push(node);
                     }
                 }
@@ -1088,7 +1092,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 break;
             } else {
                 let loc = self.prev_loc();
-                if arglist.block.is_some() {
+                if arglist.block.is_some() || arglist.forwarding {
                     return Err(error_unexpected(loc, "unexpected ','."));
                 };
             }
@@ -1285,3 +1289,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         }
     }
 }
+
+/// Neither a positional argument nor a splat can follow keyword arguments.
+fn check_positional(arglist: &ArgList, loc: Loc) -> Result<(), LexerErr> {
+    if arglist.kw_args.is_empty() && arglist.hash_splat.is_empty() {
+        Ok(())
+    } else {
+        Err(error_unexpected(
+            loc,
+            "Unexpected argument after keyword arguments.",
+        ))
+    }
+}
-- 
2.43.0


From bf0d746ecb790c9e2f47ff3fbc61d5d826ea47b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 079/111] fix: last match variables, a.b? and &. among several
 targets are not assignable (C18)

---
 src/parser/expression.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 60ba226..6df4a34 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -163,6 +163,16 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         // The variables are defined before the right hand side is parsed.
         for lhs in &mut mlhs {
             let mut node = self.check_lhs(std::mem::take(lhs))?;
+            let target = match &node.kind {
+                NodeKind::Splat(target) => target,
+                _ => &node,
+            };
+            if let NodeKind::MethodCall { safe_nav: true, .. } = target.kind {
+                return Err(error_unexpected(
+                    target.loc,
+                    "'&.' is not allowed in multiple assignment.",
+                ));
+            }
             std::mem::swap(lhs, &mut node);
         }
         let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
@@ -1215,13 +1225,16 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let assignable = match &lhs.kind {
             NodeKind::LocalVar(..)
             | NodeKind::InstanceVar(_)
-            | NodeKind::GlobalVar(_)
-            | NodeKind::SpecialVar(_)
             | NodeKind::ClassVar(_)
             | NodeKind::Const { .. }
             | NodeKind::Index { .. }
             | NodeKind::DiscardLhs => true,
-            NodeKind::MethodCall { arglist, .. } => *arglist == ArgList::default(),
+            // "$&", "$1" and the like refer to the last match.
+            NodeKind::GlobalVar(name) => name != "$`" && name != "$+",
+            NodeKind::SpecialVar(id) => *id == SPECIAL_LOADPATH || *id == SPECIAL_LOADEDFEATURES,
+            NodeKind::MethodCall {
+                method, arglist, ..
+            } => *arglist == ArgList::default() && !method.ends_with(['?', '!']),
             _ => false,
         };
         if !assignable {
-- 
2.43.0


From c7d59ba9251cebd087afd1f68f0771519a8b43ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 080/111] fix: rescue, else and ensure clauses in a do lambda
 body are part of it (C19)

---
 src/parser/literals.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index e136df7..c4369ee 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -314,9 +314,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             self.expect_punct(Punct::RBrace)?;
             body
         } else if self.consume_reserved(Reserved::Do)? {
-            let body = self.parse_comp_stmt()?;
-            self.expect_reserved(Reserved::End)?;
-            body
+            self.parse_begin()?
         } else {
             let loc = self.loc();
             let tok = self.get()?;
-- 
2.43.0


From 69b9ea222f108d4eeaa26e7aaab1e814c8ad2c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 081/111] fix: _0 is an ordinary name, not a numbered parameter
 (C20)

---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 4aee9b0..ebd791b 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -504,7 +504,7 @@ impl<'a> Lexer<'a> {
             let mut iter = tok.chars();
             iter.next();
             if let Some(ch1) = iter.next() {
-                if ch1.is_ascii_digit() && iter.next().is_none() {
+                if ch1.is_ascii_digit() && ch1 != '0' && iter.next().is_none() {
                     return Ok(self.new_numbered_param(ch1));
                 }
             }
-- 
2.43.0


From c625c75244b069b42b927267b155ac5ede12a0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 082/111] fix: a class or module definition of ::A keeps that
 it is at the top level (C20)

---
 src/parser/define.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parser/define.rs b/src/parser/define.rs
index b7b732e..5ff3b00 100644
--- a/src/parser/define.rs
+++ b/src/parser/define.rs
@@ -121,6 +121,17 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 ),
                 None => match parent {
                     Some(parent) => (Some(*parent), name),
+                    // "::A" is "::Object::A", wherever it stands.
+                    None if toplevel => (
+                        Some(Node::new_const(
+                            "Object".to_string(),
+                            true,
+                            None,
+                            vec![],
+                            prim.loc,
+                        )),
+                        name,
+                    ),
                     None => (None, name),
                 },
             },
-- 
2.43.0


From 8d075178d295d26a60cc09cbf7f85efa8990c6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 083/111] fix: _0 can be assigned like any other name (C20)

---
 src/parser/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 6df4a34..2419ee3 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1197,7 +1197,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let mut iter = name.chars();
                 iter.next();
                 if let Some(ch1) = iter.next() {
-                    if ch1.is_ascii_digit() && iter.next().is_none() {
+                    if ch1.is_ascii_digit() && ch1 != '0' && iter.next().is_none() {
                         // lhs is numbered parameter literal
                         return Err(error_numbered_param(
                             lhs.loc,
-- 
2.43.0


From f3838d92ba0c222d43e6364ec277cdf50a06fc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 084/111] fix: non-ASCII digits are letters of a name, not
 numbers (C14)

---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index ebd791b..7470745 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -235,7 +235,7 @@ impl<'a> Lexer<'a> {
 
             if ch.is_ascii_alphabetic() || ch == '_' {
                 return self.read_identifier(ch, VarKind::Identifier);
-            } else if ch.is_numeric() {
+            } else if ch.is_ascii_digit() {
                 return self.read_number_literal(ch);
             } else if ch.is_ascii_punctuation() {
                 match ch {
-- 
2.43.0


From c4016a795e0c327d2e00daa6915e25c6f7150ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 085/111] fix: control characters are not names (C07)

---
 src/parser/lexer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 7470745..3f56bb9 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -235,6 +235,8 @@ impl<'a> Lexer<'a> {
 
             if ch.is_ascii_alphabetic() || ch == '_' {
                 return self.read_identifier(ch, VarKind::Identifier);
+            } else if ch.is_ascii_control() {
+                return Err(self.error_unexpected(pos));
             } else if ch.is_ascii_digit() {
                 return self.read_number_literal(ch);
             } else if ch.is_ascii_punctuation() {
-- 
2.43.0


From 3bb673aa0c7e14f0551d808752deafee182221d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:36 +0000
Subject: [PATCH 086/111] fix: vertical tab is white space (C21)

---
 src/parser/lexer.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 3f56bb9..a45ddbc 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -21,6 +21,11 @@ fn is_ident_char(ch: char) -> bool {
     ch.is_ascii_alphanumeric() || ch == '_' || !ch.is_ascii()
 }
 
+/// Vertical tab is white space as well.
+pub(super) fn is_space(ch: char) -> bool {
+    ch.is_ascii_whitespace() || ch == '\x0b'
+}
+
 fn check_reserved(maybe_reserved: &str) -> Option<Reserved> {
     for reserved in all::<Reserved>() {
         if maybe_reserved == reserved.to_str() {
@@ -160,7 +165,7 @@ impl<'a> Lexer<'a> {
     /// Examine if the next char is a whitespace or not.
     pub(crate) fn trailing_space(&self) -> bool {
         match self.peek() {
-            Some(ch) => ch.is_ascii_whitespace(),
+            Some(ch) => is_space(ch),
             _ => false,
         }
     }
@@ -186,7 +191,7 @@ impl<'a> Lexer<'a> {
             .map(|s| s.chars().next())
             .flatten()
         {
-            Some(ch) => ch.is_ascii_whitespace(),
+            Some(ch) => is_space(ch),
             _ => false,
         }
     }
@@ -1433,7 +1438,7 @@ impl<'a> Lexer<'a> {
     /// Return whether some whitespace characters were consumed or not.
     fn consume_whitespace(&mut self) -> bool {
         match self.peek() {
-            Some(ch) if ch.is_ascii_whitespace() => {
+            Some(ch) if is_space(ch) => {
                 self.pos += ch.len_utf8();
                 true
             }
-- 
2.43.0


From f9b7145f5ea1064c268f797c1930ac7856add232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 087/111] fix: a line may be continued before a carriage return
 and newline (C21)

---
 src/parser/lexer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index a45ddbc..1bf7c3d 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1377,6 +1377,9 @@ impl<'a> Lexer<'a> {
         if self.peek2() == Some('\n') && self.peek() == Some('\\') {
             self.pos += 1;
             self.consume_newline()
+        } else if self.peek() == Some('\\') && self.code[self.pos..].starts_with("\\\r\n") {
+            self.pos += 2;
+            self.consume_newline()
         } else {
             false
         }
-- 
2.43.0


From 044827bffcd6f2a84dfc3ebe8066e88626b751d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:32 +0000
Subject: [PATCH 088/111] fix: a continuation line separates a command from its
 arguments (C21)

---
 src/parser/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 1bf7c3d..eb042ed 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -162,9 +162,13 @@ impl<'a> Lexer<'a> {
         Ok(tok)
     }
 
-    /// Examine if the next char is a whitespace or not.
+    /// Examine if the next char is a whitespace or a continuation line or not.
     pub(crate) fn trailing_space(&self) -> bool {
         match self.peek() {
+            Some('\\') => {
+                let rest = &self.code[self.pos..];
+                rest.starts_with("\\\n") || rest.starts_with("\\\r\n")
+            }
             Some(ch) => is_space(ch),
             _ => false,
         }
-- 
2.43.0


From 82a15b6ef4dfff6b7258c8e1fc4b2b0e17251ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:56 +0000
Subject: [PATCH 089/111] fix: a newline may stand between a dot and the
 arguments of call (C21)

---
 src/parser/expression.rs |  4 ++--
 src/parser/lexer.rs      | 10 ++++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 2419ee3..6c593a3 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -665,8 +665,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         //      ｜ 一次式 ［行終端子禁止］ "::" メソッド名 括弧付き実引数 ブロック?
         //      ｜ 一次式 ［行終端子禁止］ "::" 定数以外のメソッド名 ブロック?
         let loc = self.prev_loc;
-        if self.peek_punct_no_term(Punct::LParen) {
-            self.get()?;
+        if matches!(self.peek(), Ok(tok) if tok.kind == TokenKind::Punct(Punct::LParen)) {
+            self.expect_punct(Punct::LParen)?;
             let arglist = self.parse_arglist_block(Punct::RParen)?;
             //let loc = receiver.loc().merge(self.loc());
             let node = Node::new_mcall(receiver, "call".to_string(), arglist, safe_nav, loc);
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index eb042ed..3cc629f 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -150,14 +150,16 @@ impl<'a> Lexer<'a> {
             return Ok(tok.clone());
         };
         let save = self.save_state();
-        let mut tok;
+        let mut res;
         loop {
-            tok = self.read_token()?;
-            if tok.kind != TokenKind::LineTerm {
-                break;
+            res = self.read_token();
+            match &res {
+                Ok(tok) if tok.kind == TokenKind::LineTerm => {}
+                _ => break,
             }
         }
         self.restore_state(save);
+        let tok = res?;
         self.buf_skip_lt = Some(tok.clone());
         Ok(tok)
     }
-- 
2.43.0


From e028bef15ba6f207331f42718e5edca30a6e05bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 090/111] fix: defined? without parentheses is an operand (C08)

---
 src/parser/expression.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 6c593a3..b4dc755 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -234,13 +234,6 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     pub(super) fn parse_arg(&mut self) -> Result<Node, LexerErr> {
-        let next = self.peek()?;
-        if self.lexer.has_trailing_space(&next) && self.consume_reserved(Reserved::Defined)? {
-            self.defined_mode = true;
-            let node = self.parse_arg()?;
-            self.defined_mode = false;
-            return Ok(Node::new_defined(node));
-        }
         self.parse_arg_assign()
     }
 
@@ -949,7 +942,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 Reserved::Redo => self.parse_redo(),
                 Reserved::Begin => self.parse_begin(),
                 Reserved::Defined => {
-                    if self.consume_punct_no_term(Punct::LParen)? {
+                    if self.lexer.trailing_lparen() {
+                        self.expect_punct(Punct::LParen)?;
                         self.defined_mode = true;
                         let old = self.clear_suppress();
                         let node = self.parse_expr()?;
@@ -958,8 +952,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         self.expect_punct(Punct::RParen)?;
                         Ok(Node::new_defined(node))
                     } else {
-                        let tok = self.get()?;
-                        Err(error_unexpected(tok.loc, "expected '('.".to_string()))
+                        self.defined_mode = true;
+                        let node = self.parse_arg()?;
+                        self.defined_mode = false;
+                        Ok(Node::new_defined(node))
                     }
                 }
                 Reserved::Alias => {
-- 
2.43.0


From 5ebff4e0dedc22027e8842b6ad2c8b152360693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 091/111] fix: location of a top-level constant covers its name
 (C04)

---
 src/parser/expression.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index b4dc755..85a1e78 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -867,6 +867,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 Punct::Arrow => self.parse_lambda_literal(),
                 Punct::Scope => {
                     let name = self.expect_const()?;
+                    let loc = loc.merge(self.prev_loc());
                     Ok(Node::new_const(name, true, None, vec![], loc))
                 }
                 Punct::Div => self.parse_regexp(),
-- 
2.43.0


From aec1a27a796de52f89336d06a562192f266fa5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 092/111] fix: location of a symbol with interpolation covers
 its colon (C04)

---
 src/parser/literals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index c4369ee..ca6cfbd 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -239,7 +239,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             TokenKind::OpenString(s, open, term, level) => {
                 let node = self.parse_interporated_string_literal(s, open, term, level)?;
                 let method = "to_sym".to_string();
-                let loc = symbol_loc.merge(node.loc());
+                let loc = loc.merge(node.loc());
                 return Ok(Node::new_mcall_noarg(node, method, false, loc));
             }
             TokenKind::StringLit(ident) => ident.to_owned().as_string()?,
-- 
2.43.0


From 5103518b54f55858240c5736351a8957d50b952e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 093/111] fix: location of adjacent strings covers the first
 one also with interpolation (C04)

---
 src/parser/literals.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index ca6cfbd..f5a4656 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -23,7 +23,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 TokenKind::OpenString(next_s, open, delimiter, level) => {
                     self.get()?;
                     s += &next_s;
-                    return self.parse_interporated_string_literal(s, open, delimiter, level);
+                    let mut node =
+                        self.parse_interporated_string_literal(s, open, delimiter, level)?;
+                    node.loc = loc.merge(node.loc);
+                    return Ok(node);
                 }
                 _ => break,
             }
-- 
2.43.0


From 1953c2c4da87392d3f3e46ce42716a4eae7b285d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 094/111] fix: invalid UTF-8 in a symbol, command or regex is
 reported where it stands (C04)

---
 src/lib.rs             | 4 ++--
 src/parser/lexer.rs    | 6 +++---
 src/parser/literals.rs | 4 +++-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5615613..4f48691 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -102,13 +102,13 @@ impl RubyString {
         }
     }
 
-    fn as_string(self) -> Result<String, LexerErr> {
+    fn as_string(self, loc: Loc) -> Result<String, LexerErr> {
         match self {
             RubyString::Bytes(bytes) => {
                 let s = String::from_utf8(bytes).map_err(|_| {
                     LexerErr(
                         ParseErrKind::SyntaxError("Invalid UTF-8.".to_string()),
-                        Loc(0, 0),
+                        loc,
                     )
                 })?;
                 Ok(s)
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 3cc629f..1401fb8 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -210,7 +210,7 @@ impl<'a> Lexer<'a> {
                 postfix,
                 free_format,
             } => Ok(self.new_regexlit(body, postfix, free_format)),
-            InterpolateState::NewInterpolation(s, _) => Ok(self.new_open_reg(s.as_string()?)),
+            InterpolateState::NewInterpolation(s, _) => Ok(self.new_open_reg(s.as_string(self.cur_loc())?)),
             _ => unreachable!(),
         }
     }
@@ -842,7 +842,7 @@ impl<'a> Lexer<'a> {
         match self.read_interpolate(open, term, level)? {
             InterpolateState::Finished(s) => self.new_commandlit(s),
             InterpolateState::NewInterpolation(s, level) => {
-                Ok(self.new_open_command(s.as_string()?, term, level))
+                Ok(self.new_open_command(s.as_string(self.cur_loc())?, term, level))
             }
             _ => unreachable!(),
         }
@@ -1572,7 +1572,7 @@ impl<'a> Lexer<'a> {
 
     fn new_commandlit(&self, string: RubyString) -> Result<Token, LexerErr> {
         Ok(Annot::new(
-            TokenKind::CommandLit(string.as_string()?),
+            TokenKind::CommandLit(string.as_string(self.cur_loc())?),
             self.cur_loc(),
         ))
     }
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index f5a4656..8078c75 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -245,7 +245,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let loc = loc.merge(node.loc());
                 return Ok(Node::new_mcall_noarg(node, method, false, loc));
             }
-            TokenKind::StringLit(ident) => ident.to_owned().as_string()?,
+            TokenKind::StringLit(ident) => {
+                ident.to_owned().as_string(loc.merge(symbol_loc))?
+            },
             _ => return Err(error_unexpected(symbol_loc, "Expect identifier or string.")),
         };
         Ok(Node::new_symbol(id, loc.merge(self.prev_loc())))
-- 
2.43.0


From 3cea4915409cccd91a385aebc7981f427de02196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 095/111] fix: location of an interpolated here-document starts
 at its body, not at the start of the text (C04)

---
 src/parser/literals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 8078c75..b537b9c 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -364,7 +364,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         Parser {
             lexer,
             path: self.path.clone(),
-            prev_loc: Loc(0, 0),
+            prev_loc: Loc(pos, pos),
             scope: self.scope.clone(),
             loop_stack: vec![],
             extern_context: self.extern_context.clone(),
-- 
2.43.0


From 1bb7e2986c4eb3766bf3607db275548997d966b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 096/111] fix: location of the path of a class or module does
 not include the name (C04)

---
 src/parser/define.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/define.rs b/src/parser/define.rs
index 5ff3b00..967ae40 100644
--- a/src/parser/define.rs
+++ b/src/parser/define.rs
@@ -100,7 +100,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         //      ｜ 定数識別子
         //      ｜ 一次式 [行終端子禁止] "::" 定数識別子
         //let loc = self.prev_loc();
-        let prim = self.parse_class_def_name()?;
+        let (prim, base_loc) = self.parse_class_def_name()?;
         let loc = prim.loc;
         let (base, name) = match prim.kind {
             NodeKind::Const {
@@ -115,7 +115,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         toplevel,
                         parent,
                         prefix,
-                        prim.loc,
+                        base_loc,
                     )),
                     name,
                 ),
@@ -215,16 +215,19 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         Ok(args)
     }
 
-    fn parse_class_def_name(&mut self) -> Result<Node, LexerErr> {
+    /// Returns the class path and the location of the part before the last "::".
+    fn parse_class_def_name(&mut self) -> Result<(Node, Loc), LexerErr> {
         // クラスパス : "::" 定数識別子
         //      ｜ 定数識別子
         //      ｜ 一次式 [行終端子禁止] "::" 定数識別子
         let mut node = self.parse_primary(true)?;
+        let mut base_loc = node.loc;
         loop {
             node = if self.consume_punct(Punct::Dot)? {
                 self.parse_primary_method(node, false)?
             } else if self.consume_punct_no_term(Punct::Scope)? {
                 let loc = node.loc;
+                base_loc = loc;
                 let name = self.expect_const()?;
 
                 if let NodeKind::Const {
@@ -248,7 +251,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
                 //Node::new_const(name, node,  loc)
             } else {
-                return Ok(node);
+                return Ok((node, base_loc));
             };
         }
     }
-- 
2.43.0


From 24aa4aed3bdcc7e42935ddbc1c7c4caeeecead6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:29 +0000
Subject: [PATCH 097/111] fix: a comma right after the opening parenthesis of a
 call is an error (C07)

---
 src/parser/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 85a1e78..d16aca9 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1019,7 +1019,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     fn parse_arglist_inner(&mut self, punct: Option<Punct>) -> Result<ArgList, LexerErr> {
         let mut arglist = ArgList::default();
-        if self.peek()?.kind == TokenKind::Punct(Punct::Comma) {
+        if punct.is_none() && self.peek()?.kind == TokenKind::Punct(Punct::Comma) {
             return Ok(arglist);
         }
         loop {
-- 
2.43.0


From ae8c44a30ad6a26b25916b359211f5b4dbe192d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:32 +0000
Subject: [PATCH 098/111] fix: a list without brackets ends at the end of the
 line, not at a comma on a later line (C07)

---
 src/parser/expression.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index d16aca9..4e3fa6a 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -222,7 +222,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let node = self.parse_arg()?;
                 args.push(node);
             }
-            if !self.consume_punct(Punct::Comma)? {
+            if !self.consume_list_punct(Punct::Comma, term)? {
                 break;
             }
         }
@@ -233,6 +233,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         Ok(args)
     }
 
+    /// Consume a punctuator in a list. A line terminator ends a list without brackets.
+    fn consume_list_punct(&mut self, punct: Punct, term: Option<Punct>) -> Result<bool, LexerErr> {
+        if term.is_some() {
+            self.consume_punct(punct)
+        } else {
+            self.consume_punct_no_term(punct)
+        }
+    }
+
     pub(super) fn parse_arg(&mut self) -> Result<Node, LexerErr> {
         self.parse_arg_assign()
     }
@@ -1048,10 +1057,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             } else {
                 let node = self.parse_arg()?;
                 let loc = node.loc();
-                if self.consume_punct(Punct::FatArrow)? {
+                if self.consume_list_punct(Punct::FatArrow, punct)? {
                     let value = self.parse_arg()?;
                     let mut kvp = vec![(node, value)];
-                    if self.consume_punct(Punct::Comma)? {
+                    if self.consume_list_punct(Punct::Comma, punct)? {
                         loop {
                             // Support trailing comma
                             if let Some(punct) = punct {
@@ -1065,7 +1074,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                             self.expect_punct(Punct::FatArrow)?;
                             let value = self.parse_arg()?;
                             kvp.push((key, value));
-                            if !self.consume_punct(Punct::Comma)? {
+                            if !self.consume_list_punct(Punct::Comma, punct)? {
                                 break;
                             }
                         }
@@ -1095,7 +1104,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     }
                 }
             }
-            if !self.consume_punct(Punct::Comma)? {
+            if !self.consume_list_punct(Punct::Comma, punct)? {
                 break;
             } else {
                 let loc = self.prev_loc();
-- 
2.43.0


From 5ebf9f0a61bf96f6d5204072954b8535861da763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:14 +0000
Subject: [PATCH 099/111] fix: the variables of a for loop end at the end of
 the line (C07)

---
 src/parser/expression.rs   | 6 +++++-
 src/parser/flow_control.rs | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 4e3fa6a..a99a615 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -234,7 +234,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     /// Consume a punctuator in a list. A line terminator ends a list without brackets.
-    fn consume_list_punct(&mut self, punct: Punct, term: Option<Punct>) -> Result<bool, LexerErr> {
+    pub(super) fn consume_list_punct(
+        &mut self,
+        punct: Punct,
+        term: Option<Punct>,
+    ) -> Result<bool, LexerErr> {
         if term.is_some() {
             self.consume_punct(punct)
         } else {
diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index 7f2224c..87329a6 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -91,7 +91,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     break;
                 }
             }
-            if !self.consume_punct(Punct::Comma)? {
+            if !self.consume_list_punct(Punct::Comma, terminator)? {
                 break;
             }
             if let Some(term) = terminator {
-- 
2.43.0


From c6a04d446a5b56eac201a311fb61010b3cbe946a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:05 +0000
Subject: [PATCH 100/111] fix: input which ends inside the left side of a
 multiple assignment is incomplete (C06)

---
 src/parser/expression.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index a99a615..bc3d458 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -157,6 +157,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         self.suppress_acc_assign = old;
         if !self.consume_punct_no_term(Punct::Assign)? {
             let loc = self.loc();
+            if self.peek_no_term()?.is_eof() {
+                return Err(error_eof(loc));
+            }
             return Err(error_unexpected(loc, "Expected '='."));
         }
 
@@ -909,6 +912,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         Ok(Node::new_mul_assign(vec![lhs], mrhs))
                     } else {
                         let loc = self.loc();
+                        if self.peek_no_term()?.is_eof() {
+                            return Err(error_eof(loc));
+                        }
                         return Err(error_unexpected(loc, "Expected '=' or ','."));
                     }
                 }
-- 
2.43.0


From f8c794d09f29d6dfefdea9c1a7d6e87fd53fb786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:02 +0000
Subject: [PATCH 101/111] fix: input which ends inside the variable of a rescue
 clause is incomplete (C06)

---
 src/parser/expression.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index bc3d458..fd5edc1 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1152,7 +1152,13 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 };
                 if self.consume_punct_no_term(Punct::FatArrow)? {
                     let lhs = self.parse_arg()?;
-                    assign = Some(self.check_lhs(lhs)?);
+                    let loc = self.loc();
+                    // "rescue => self" may still be followed by ".a" or "[0]".
+                    let at_eof = self.peek()?.is_eof();
+                    assign = match self.check_lhs(lhs) {
+                        Err(_) if at_eof => return Err(error_eof(loc)),
+                        lhs => Some(lhs?),
+                    };
                 }
                 self.parse_then()?;
             };
-- 
2.43.0


From 5f3bd58b5468d2661b3c9ca4b1ee2665506c9cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:37 +0000
Subject: [PATCH 102/111] fix: the parentheses around the variables of a for
 loop must be closed (C07)

---
 src/parser/flow_control.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index 87329a6..cef3f64 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -92,6 +92,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 }
             }
             if !self.consume_list_punct(Punct::Comma, terminator)? {
+                if let Some(term) = terminator {
+                    self.expect_punct(term)?;
+                }
                 break;
             }
             if let Some(term) = terminator {
-- 
2.43.0


From 2cef4ee3c709a7221b06a0fc670036b95287d900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:40 +0000
Subject: [PATCH 103/111] fix: white space after a question mark is not a
 character literal (C07)

---
 src/parser/lexer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 1401fb8..c7b03e1 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1017,8 +1017,13 @@ impl<'a> Lexer<'a> {
 
     /// Read char literal.
     pub(crate) fn read_char_literal(&mut self, buf: &mut RubyString) -> Result<(), LexerErr> {
+        let pos = self.pos;
         let c = self.get()?;
         self.flush();
+        if c.is_ascii_whitespace() || c == '\x0b' {
+            // white space is written as an escape.
+            return Err(self.error_unexpected(pos));
+        }
         if c == '\\' {
             self.read_escaped_char(buf)?;
         } else {
-- 
2.43.0


From 6e706750d00b6167915c6c43d5e250fdaad8a6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:13 +0000
Subject: [PATCH 104/111] fix: a newline ends a hash argument without
 parentheses in front of => (C07)

---
 src/parser.rs            | 9 +++++++++
 src/parser/expression.rs | 6 +++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8e05170..d473b2a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -441,6 +441,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         }
     }
 
+    /// The same, but a line terminator is not skipped.
+    fn expect_punct_no_term(&mut self, expect: Punct) -> Result<(), LexerErr> {
+        let tok = self.peek_no_term()?;
+        if tok.is_line_term() {
+            return Err(error_unexpected(tok.loc, format!("Expect {:?}", expect)));
+        }
+        self.expect_punct(expect)
+    }
+
     /// Get the next token and examine whether it is Ident.
     /// Return IdentId of the Ident.
     /// If not, return RubyError.
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index fd5edc1..555134d 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1081,7 +1081,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                                 }
                             };
                             let key = self.parse_arg()?;
-                            self.expect_punct(Punct::FatArrow)?;
+                            if punct.is_some() {
+                                self.expect_punct(Punct::FatArrow)?;
+                            } else {
+                                self.expect_punct_no_term(Punct::FatArrow)?;
+                            }
                             let value = self.parse_arg()?;
                             kvp.push((key, value));
                             if !self.consume_list_punct(Punct::Comma, punct)? {
-- 
2.43.0


From 155a874eaf9007e85412a2430a1b22fc4f046d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:56 +0000
Subject: [PATCH 105/111] fix: a terminator must follow a superclass or the
 object of a singleton class (C07)

---
 src/parser.rs        | 9 +++++++++
 src/parser/define.rs | 8 +++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d473b2a..c273ca0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -417,6 +417,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         Ok(true)
     }
 
+    /// The same, but it is an error if there is no terminator.
+    fn expect_term(&mut self) -> Result<(), LexerErr> {
+        if self.consume_term()? {
+            return Ok(());
+        }
+        let tok = self.peek_no_term()?;
+        Err(error_unexpected(tok.loc, format!("Expected a terminator. Actual:{:?}", tok.kind)))
+    }
+
     /// Get the next token and examine whether it is an expected Reserved.
     /// If not, return RubyError.
     fn expect_reserved(&mut self, expect: Reserved) -> Result<(), LexerErr> {
diff --git a/src/parser/define.rs b/src/parser/define.rs
index 967ae40..edce3e3 100644
--- a/src/parser/define.rs
+++ b/src/parser/define.rs
@@ -144,11 +144,13 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             if is_module {
                 return Err(error_unexpected(self.prev_loc(), "Unexpected '<'."));
             };
-            Some(self.parse_expr()?)
+            let superclass = self.parse_expr()?;
+            self.expect_term()?;
+            Some(superclass)
         } else {
+            self.consume_term()?;
             None
         };
-        self.consume_term()?;
 
         self.scope.push(LvarScope::new_class(None));
         self.loop_stack.push(LoopKind::Top);
@@ -168,7 +170,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         // end
         let singleton = self.parse_expr()?;
         let loc = loc.merge(self.prev_loc());
-        self.consume_term()?;
+        self.expect_term()?;
 
         self.scope.push(LvarScope::new_class(None));
         self.loop_stack.push(LoopKind::Top);
-- 
2.43.0


From 7483109fbedf57747fc4525e69057ab7afab9f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:41 +0000
Subject: [PATCH 106/111] fix: rendering a location which ends before it starts
 does not panic (C05)

---
 src/source_info.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/source_info.rs b/src/source_info.rs
index 1e4f816..6c2b8a8 100644
--- a/src/source_info.rs
+++ b/src/source_info.rs
@@ -73,7 +73,9 @@ impl SourceInfo {
         let code = self.code.clone() + " ";
         // A location at the end of input belongs to the last line.
         let last = self.code.len() - 1;
-        let loc = Loc(std::cmp::min(loc.0, last), std::cmp::min(loc.1, last));
+        let start = std::cmp::min(loc.0, last);
+        let end = std::cmp::min(loc.1, last);
+        let loc = Loc(start, std::cmp::max(start, end));
         let floor = |pos: usize| (0..=pos).rev().find(|p| code.is_char_boundary(*p)).unwrap();
         let ceil = |pos: usize| (pos..).find(|p| code.is_char_boundary(*p)).unwrap();
         let mut res_string = String::new();
-- 
2.43.0


From 673852a621b1cd5151b478dee755cbbd7b3ef1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 107/111] fix: a vertical tab is a blank in the extended form
 of regular expressions (C12)

---
 src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index dbbbd5e..e618003 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -909,7 +909,7 @@ impl FreeFormatContext {
                     } else if ch == '\\' {
                         self.body.push(ch);
                         self.state = FreeFormatMode::Escape;
-                    } else if !ch.is_ascii_whitespace() {
+                    } else if !ch.is_ascii_whitespace() && ch != '\x0b' {
                         self.body.push(ch);
                     }
                 }
-- 
2.43.0


From 4243a63d81f9aeddc10ae44bd92b8848f156e0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 108/111] fix: a bracket outside of a character class, or an
 interpolation, does not change what \b means in a regular expression (C12)

---
 src/parser/lexer.rs    | 16 +++++++++-------
 src/parser/literals.rs |  5 +++--
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index c7b03e1..ff416dc 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -203,8 +203,8 @@ impl<'a> Lexer<'a> {
     }
 
     /// Get token as a regular expression.
-    pub(crate) fn get_regexp(&mut self) -> Result<Token, LexerErr> {
-        match self.read_regexp_sub()? {
+    pub(crate) fn get_regexp(&mut self, char_class: &mut usize) -> Result<Token, LexerErr> {
+        match self.read_regexp_sub(char_class)? {
             InterpolateState::FinishedRegex {
                 body,
                 postfix,
@@ -1062,9 +1062,10 @@ impl<'a> Lexer<'a> {
     }
 
     /// Scan as regular expression.
-    fn read_regexp_sub(&mut self) -> Result<InterpolateState, LexerErr> {
+    ///
+    /// *char_class* is the depth of character classes, which goes on after an interpolation.
+    fn read_regexp_sub(&mut self, char_class: &mut usize) -> Result<InterpolateState, LexerErr> {
         let mut body = "".to_string();
-        let mut char_class = 0;
         loop {
             match self.get()? {
                 '/' => {
@@ -1076,11 +1077,12 @@ impl<'a> Lexer<'a> {
                     });
                 }
                 '[' => {
-                    char_class += 1;
+                    *char_class += 1;
                     body.push('[');
                 }
                 ']' => {
-                    char_class -= 1;
+                    // ']' stands for itself in the outside of character class.
+                    *char_class = char_class.saturating_sub(1);
                     body.push(']');
                 }
                 '\\' => {
@@ -1088,7 +1090,7 @@ impl<'a> Lexer<'a> {
                     match ch {
                         'a' => body += "\\a",
                         // '\b' is valid only in the inner of character class. Otherwise, shoud be treated as "\x08".
-                        'b' => body += if char_class == 0 { "\\b" } else { "\\x08" },
+                        'b' => body += if *char_class == 0 { "\\b" } else { "\\x08" },
                         'e' => body += "\\x1b",
                         'f' => body += "\\f",
                         'n' => body += "\\n",
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index b537b9c..a4846cd 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -255,7 +255,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     pub(super) fn parse_regexp(&mut self) -> Result<Node, LexerErr> {
         let start_loc = self.prev_loc();
-        let tok = self.lexer.get_regexp()?;
+        let mut char_class = 0;
+        let tok = self.lexer.get_regexp(&mut char_class)?;
         let mut nodes = match tok.kind {
             TokenKind::Regex {
                 body: s,
@@ -274,7 +275,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         };
         loop {
             self.parse_template(&mut nodes)?;
-            let tok = self.lexer.get_regexp()?;
+            let tok = self.lexer.get_regexp(&mut char_class)?;
             let loc = tok.loc();
             match tok.kind {
                 TokenKind::Regex {
-- 
2.43.0


From 6456c9c442fc8491f8dcad7573f6e96b16bfb9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:56 +0000
Subject: [PATCH 109/111] fix: return, break and next may be a branch of a
 ternary operator or come before a comma (C19)

---
 src/parser/flow_control.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index cef3f64..2d6fc14 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -206,6 +206,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 )
             )
             || tok.check_stmt_end()
+            // e.g. "x ? break : 1", "[x || break, 1]"
+            || tok.kind == TokenKind::Punct(Punct::Comma)
+            || (tok.kind == TokenKind::Punct(Punct::Colon) && self.lexer.has_trailing_space(&tok))
         {
             let val = Node::new_nil(loc);
             return Ok((val, loc));
-- 
2.43.0


From 67245a284a979b4169637a7c4f6e271338a942f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:07 +0000
Subject: [PATCH 110/111] fix: keywords which follow a number without a space
 (C09)

---
 src/parser/lexer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index ff416dc..f8cc325 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -711,7 +711,9 @@ impl<'a> Lexer<'a> {
                 break;
             }
         }
-        if self.consume('e') || self.consume('E') {
+        // "1else" and "1end" are a number and a keyword.
+        let exponent = matches!(self.peek2(), Some('0'..='9' | '+' | '-'));
+        if exponent && (self.consume('e') || self.consume('E')) {
             s.push('e');
             if !self.consume('+') && self.consume('-') {
                 s.push('-');
@@ -745,7 +747,9 @@ impl<'a> Lexer<'a> {
                 None => return Err(Self::error_parse("Invalid number literal.", self.pos)),
             }
         };
-        if self.consume('i') {
+        // "1if" is a number and a keyword.
+        let suffix = !self.peek2().is_some_and(is_ident_char);
+        if suffix && self.consume('i') {
             Ok(self.new_imaginarylit(number))
         } else {
             match number {
-- 
2.43.0


From 76c2b9140f8bd6b6ae39aadbd9f7ada3df1a74e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:45 +0000
Subject: [PATCH 111/111] fix: arguments of commands without a space before
 them (C17)

---
 src/parser/expression.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 555134d..6bfa817 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1320,10 +1320,17 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 tok.kind,
                 TokenKind::GlobalVar(_)
                     | TokenKind::InstanceVar(_)
+                    | TokenKind::ClassVar(_)
+                    | TokenKind::SpecialVar(_)
                     | TokenKind::StringLit(_)
+                    | TokenKind::OpenString(..)
+                    | TokenKind::CommandLit(_)
+                    | TokenKind::OpenCommand(..)
                     | TokenKind::FloatLit(_)
+                    | TokenKind::ImaginaryLit(_)
                     | TokenKind::BignumLit(_)
                     | TokenKind::IntegerLit(_)
+                    | TokenKind::Punct(Punct::Arrow)
             )
         }
     }
-- 
2.43.0

