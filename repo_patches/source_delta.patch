From e52fa61319ce0ef950d2e5b444225a9599a594b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 01/25] fix: report a regexp or class cut off by end of input
 instead of panicking

---
 crates/joker/src/lexer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 2fb6e87..d1fee33 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -248,7 +248,9 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
         let mut s = String::new();
         self.reread('/');
         self.read_until_with(&|ch| ch == '/', &mut |this| { this.read_regexp_char(&mut s) })?;
-        self.reread('/');
+        if !self.matches('/') {
+            return Err(Error::UnterminatedRegExp(None));
+        }
         let flags = self.read_word_parts()?;
         Ok(span.end(self, TokenData::RegExp(RegExpLiteral {
             pattern: s,
@@ -278,7 +280,10 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
     fn read_regexp_class(&mut self, s: &mut String) -> Result<()> {
         s.push(self.reread('['));
         self.read_until_with(&|ch| ch == ']', &mut |this| { this.read_regexp_class_char(s) })?;
-        s.push(self.reread(']'));
+        if !self.matches(']') {
+            return Err(Error::UnterminatedRegExp(None));
+        }
+        s.push(']');
         Ok(())
     }
 
-- 
2.43.0


From 29e82fe525932a9b6b06320d63dece1f3f57fade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 02/25] fix: report a \u{ escape cut off by end of input
 instead of panicking

---
 crates/joker/src/lexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index d1fee33..b46af5e 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -453,7 +453,10 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
                 digits.push(this.read_hex_digit_into(s)?);
                 Ok(())
             })?;
-            s.push(self.reread('}'));
+            if !self.matches('}') {
+                return Err(Error::MissingHexDigits);
+            }
+            s.push('}');
             Ok(add_digits(digits, 16))
         } else {
             let mut place = 0x1000;
-- 
2.43.0


From a3b8b181a82bd66282be2bc97d00135e98eb8a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 03/25] fix: do not overflow on \u{...} escapes of eight or
 more digits

---
 crates/joker/src/lexer.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index b46af5e..1ff57d1 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -11,11 +11,9 @@ use result::Result;
 use std::collections::VecDeque;
 
 fn add_digits(digits: Vec<u32>, radix: u32) -> u32 {
-    let mut place = 1;
-    let mut sum = 0;
-    for digit in digits.iter().rev() {
-        sum += digit * place;
-        place *= radix;
+    let mut sum: u32 = 0;
+    for digit in digits.iter() {
+        sum = sum.saturating_mul(radix).saturating_add(*digit);
     }
     sum
 }
-- 
2.43.0


From 8abacd1e4210c2eda81d039f0ba053eee02ba3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 04/25] fix: reject string escapes above U+10FFFF

---
 crates/joker/src/lexer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 1ff57d1..c718b14 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -497,6 +497,9 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
             Some('u') => {
                 source.push(self.reread('u'));
                 let code = self.read_unicode_escape_seq(source)?;
+                if code > 0x10FFFF {
+                    return Err(Error::IllegalUnicode(code));
+                }
                 value.push(char::from_u32(code).unwrap_or('?'));
             }
             Some(ch) if ch.is_es_newline() => {
-- 
2.43.0


From 0c1f0045dd2918f363e549dacd4e108ee899f1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 05/25] fix: a line terminator ends a regexp class,
 unterminated

---
 crates/joker/src/lexer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index c718b14..5abadbd 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -288,6 +288,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
     fn read_regexp_class_char(&mut self, s: &mut String) -> Result<()> {
         match self.peek() {
             Some('\\') => self.read_regexp_backslash(s),
+            Some(ch) if ch.is_es_newline() => Err(Error::UnterminatedRegExp(Some(ch))),
             Some(ch) => { s.push(self.reread(ch)); Ok(()) }
             None => Err(Error::UnterminatedRegExp(None))
         }
-- 
2.43.0


From 069041883e4c68a13cb7e9f3950548e36ed624df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 06/25] fix: U+2007 and U+2008 are white space

---
 crates/joker/src/char.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/joker/src/char.rs b/crates/joker/src/char.rs
index 82fc594..6a65a5a 100644
--- a/crates/joker/src/char.rs
+++ b/crates/joker/src/char.rs
@@ -24,7 +24,7 @@ impl ESCharExt for char {
         match self {
               '\u{0009}' | '\u{000b}' | '\u{000c}' | '\u{0020}' | '\u{00a0}'
             | '\u{1680}' | '\u{2000}' | '\u{2001}' | '\u{2002}' | '\u{2003}' | '\u{2004}'
-            | '\u{2005}' | '\u{2006}' | '\u{2009}' | '\u{200a}' | '\u{202f}' | '\u{205f}'
+            | '\u{2005}' | '\u{2006}' | '\u{2007}' | '\u{2008}' | '\u{2009}' | '\u{200a}' | '\u{202f}' | '\u{205f}'
             | '\u{3000}' | '\u{feff}' => true,
             _ => false
         }
-- 
2.43.0


From 70ba304007596d95ae510211afc132df3b9794a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 07/25] fix: reject an escaped identifier right after a number

---
 crates/joker/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 5abadbd..9b74fe6 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -402,7 +402,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
             (None, _) => { panic!("read_number() called at EOF"); }
         }?;
         match self.peek() {
-            Some(ch) if ch.is_es_identifier_start() => { return Err(Error::IdAfterNumber(ch)); }
+            Some(ch) if ch == '\\' || ch.is_es_identifier_start() => { return Err(Error::IdAfterNumber(ch)); }
             Some(ch) if ch.is_es_dec_digit() => { return Err(Error::DigitAfterNumber(ch)); }
             _ => {}
         }
-- 
2.43.0


From cf06be4fa06c1e17d617cadbb1c0562cf91444a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 08/25] fix: an identifier escape must denote an identifier
 character

---
 crates/joker/src/lexer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 9b74fe6..0ab1db3 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -561,8 +561,12 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
         let mut dummy = String::with_capacity(4);
         let code_point = self.read_unicode_escape_seq(&mut dummy)?;
         match char::from_u32(code_point) {
-            Some(ch) => { s.text.push(ch); Ok(()) }
-            None => Err(Error::IllegalUnicode(code_point))
+            Some(ch) if ch.is_es_identifier_start() ||
+                        (!s.text.is_empty() && ch.is_es_identifier_continue()) => {
+                s.text.push(ch);
+                Ok(())
+            }
+            _ => Err(Error::IllegalUnicode(code_point))
         }
     }
 
-- 
2.43.0


From 9eee142679dca490891c236a48e0b30b253cce05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 09/25] fix: --> opens a comment after a block comment that
 spans lines

---
 crates/joker/src/lexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 0ab1db3..5b387e0 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -612,7 +612,10 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
                 }
                 (Some('/'), Some('/')) => { self.skip_line_comment(2); }
                 (Some('/'), Some('*')) => {
-                    found_newline = self.skip_block_comment()? || found_newline;
+                    if self.skip_block_comment()? {
+                        found_newline = true;
+                        self.empty_line = true;
+                    }
                 }
                 (Some('<'), Some('!')) => {
                     if self.reader.peek(2) == Some('-') && self.reader.peek(3) == Some('-') {
-- 
2.43.0


From f1b170958751b277a5b51e3f28f8b30c95d88fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 10/25] fix: lex => as one punctuator

---
 crates/joker/src/lexer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 5b387e0..98c06c1 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -682,6 +682,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
             (Some('='), Some('='))                       => {
                 Ok(self.read_punc2_3('=', TokenData::Eq, TokenData::StrictEq))
             }
+            (Some('='), Some('>'))                       => Ok(self.read_punc2(TokenData::Arrow)),
             (Some('='), _)                               => Ok(self.read_punc(TokenData::Assign)),
             (Some('+'), Some('+'))                       => Ok(self.read_punc2(TokenData::Inc)),
             (Some('+'), Some('='))                       => {
-- 
2.43.0


From a3292bdbe45ef88e7db92b165a69a97082f396ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:28 +0000
Subject: [PATCH 11/25] fix: owned and optional numeric accessors accept the
 numbers the plain ones accept

serde_json parses every non-negative integer as U64, so extract_i64, get_i64_opt
and friends rejected numbers that get_i64 returned.
---
 crates/unjson/src/unjson.rs | 57 ++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 36 deletions(-)

diff --git a/crates/unjson/src/unjson.rs b/crates/unjson/src/unjson.rs
index a7e9af4..0e5f465 100644
--- a/crates/unjson/src/unjson.rs
+++ b/crates/unjson/src/unjson.rs
@@ -72,27 +72,24 @@ impl ValueEx for Value {
     }
 
     fn as_i64_opt(&self) -> Result<Option<i64>> {
-        Ok(match self {
-            &Value::Null       => None,
-            &Value::I64(ref v) => Some(*v),
-            _ => { return type_error("i64 or null", self.ty()); }
-        })
+        match self {
+            &Value::Null => Ok(None),
+            _ => Ok(Some(self.as_i64().ok_type("i64 or null", self.ty())?))
+        }
     }
 
     fn as_u64_opt(&self) -> Result<Option<u64>> {
-        Ok(match self {
-            &Value::Null       => None,
-            &Value::U64(ref v) => Some(*v),
-            _ => { return type_error("u64 or null", self.ty()); }
-        })
+        match self {
+            &Value::Null => Ok(None),
+            _ => Ok(Some(self.as_u64().ok_type("u64 or null", self.ty())?))
+        }
     }
 
     fn as_f64_opt(&self) -> Result<Option<f64>> {
-        Ok(match self {
-            &Value::Null       => None,
-            &Value::F64(ref v) => Some(*v),
-            _ => { return type_error("f64 or null", self.ty()); }
-        })
+        match self {
+            &Value::Null => Ok(None),
+            _ => Ok(Some(self.as_f64().ok_type("f64 or null", self.ty())?))
+        }
     }
 
     fn as_number_opt(&self) -> Result<Option<f64>> {
@@ -188,47 +185,35 @@ impl Unjson for Value {
     }
 
     fn to_i64(&self) -> Result<i64> {
-        match *self {
-            Value::I64(i) => Ok(i),
-            _ => { return type_error("i64", self.ty()); }
-        }
+        self.as_i64().ok_type("i64", self.ty())
     }
 
     fn to_i64_opt(&self) -> Result<Option<i64>> {
         match *self {
-            Value::I64(i) => Ok(Some(i)),
-            Value::Null   => Ok(None),
-            _ => { return type_error("i64", self.ty()); }
+            Value::Null => Ok(None),
+            _ => Ok(Some(self.as_i64().ok_type("i64", self.ty())?))
         }
     }
 
     fn to_u64(&self) -> Result<u64> {
-        match *self {
-            Value::U64(u) => Ok(u),
-            _ => { return type_error("u64", self.ty()); }
-        }
+        self.as_u64().ok_type("u64", self.ty())
     }
 
     fn to_u64_opt(&self) -> Result<Option<u64>> {
         match *self {
-            Value::U64(u) => Ok(Some(u)),
-            Value::Null   => Ok(None),
-            _ => { return type_error("u64", self.ty()); }
+            Value::Null => Ok(None),
+            _ => Ok(Some(self.as_u64().ok_type("u64", self.ty())?))
         }
     }
 
     fn to_f64(&self) -> Result<f64> {
-        match *self {
-            Value::F64(f) => Ok(f),
-            _ => { return type_error("f64", self.ty()); }
-        }
+        self.as_f64().ok_type("f64", self.ty())
     }
 
     fn to_f64_opt(&self) -> Result<Option<f64>> {
         match *self {
-            Value::F64(f) => Ok(Some(f)),
-            Value::Null   => Ok(None),
-            _ => { return type_error("f64", self.ty()); }
+            Value::Null => Ok(None),
+            _ => Ok(Some(self.as_f64().ok_type("f64", self.ty())?))
         }
     }
 
-- 
2.43.0


From 9311b28c318c3394bfe0fe555b4edeecd171821f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 12/25] fix: a directive's pragma is its source text without
 the quotes

---
 crates/easter/src/stmt.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/easter/src/stmt.rs b/crates/easter/src/stmt.rs
index c54c07e..e0d84ff 100644
--- a/crates/easter/src/stmt.rs
+++ b/crates/easter/src/stmt.rs
@@ -129,7 +129,12 @@ pub struct Dir {
 impl Dir {
     pub fn pragma(&self) -> &str {
         if let Some(ref source) = self.string.source {
-            source
+            // The source text of a string literal includes its quotes.
+            let mut chars = source.chars();
+            match (chars.next(), chars.next_back()) {
+                (Some(_), Some(_)) => chars.as_str(),
+                _ => source
+            }
         } else {
             &self.string.value
         }
-- 
2.43.0


From b6c128d6d82b928c784cf7940643b66510cf5bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 13/25] fix: a slash after a leading string literal is a
 division, not a regexp

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index f508913..94407be 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -168,7 +168,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
         let token1 = self.read()?;
 
         if let TokenData::String(ref literal) = token1.value {
-            if !self.peek()?.expression_continuation() {
+            if !self.peek_op()?.expression_continuation() {
                 return Ok(Some(span.end_with_auto_semi(self, Newline::Required, |semi| Dir {
                     location: None,
                     string: literal.clone(),
-- 
2.43.0


From 1bd763c8c3a77e4fd80c4f3b13589b7d580d328a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 14/25] fix: a label may not be redeclared inside the statement
 it labels

---
 src/context.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/context.rs b/src/context.rs
index bcbf6de..436ad84 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -7,6 +7,7 @@ use joker::track::span;
 use easter::stmt::Stmt;
 use easter::id::Id;
 use result::Result;
+use error::Error;
 use parser::{Parser, Strict};
 
 pub trait WithContext {
@@ -23,6 +24,9 @@ impl<I: Iterator<Item=char>> WithContext for Parser<I> {
         let mut label_strings = Vec::new();
         for id in labels.iter() {
             let label = Rc::new(id.name.clone());
+            if self.context.labels.contains_key(&label) {
+                return Err(Error::InvalidLabel(id.clone()));
+            }
             self.context.labels.insert(label.clone(), label_type);
             label_strings.push(label);
         }
-- 
2.43.0


From aa87f9cc8930c2eeb6b5fba60b55c3a9b246972f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 15/25] fix: report import and export declarations as
 unsupported instead of panicking

---
 src/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 94407be..68e6b72 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -301,9 +301,13 @@ impl<I: Iterator<Item=char>> Parser<I> {
             match self.peek()?.value {
                 TokenData::EOF => break,
                 // ES6: import declaration
-                TokenData::Reserved(Reserved::Import) => unimplemented!(),
+                TokenData::Reserved(Reserved::Import) => {
+                    return Err(Error::UnsupportedFeature("import declaration"));
+                }
                 // ES6: export declaration
-                TokenData::Reserved(Reserved::Export) => unimplemented!(),
+                TokenData::Reserved(Reserved::Export) => {
+                    return Err(Error::UnsupportedFeature("export declaration"));
+                }
                 _ => { }
             }
 
-- 
2.43.0


From 3beb138c6e4b9824ac22aab622525a713052fe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 16/25] fix: a slash after let in a for head is a division, not
 a regexp

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 68e6b72..6397e24 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -780,7 +780,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     // 'for' '(' 'let' .
     fn for_let(&mut self) -> Result<Stmt> {
         let let_token = self.reread(TokenData::Identifier(Name::Atom(Atom::Let)));
-        if !self.peek()?.first_binding() {
+        if !self.peek_op()?.first_binding() {
             self.lexer.unread_token(let_token);
             return self.for_expr();
         }
-- 
2.43.0


From 1b60f60cd2a0ba6fd6897123288aa107cf7efa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 17/25] fix: a spread element with a location is also a rest
 pattern

---
 crates/easter/src/cover.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/easter/src/cover.rs b/crates/easter/src/cover.rs
index 491e23a..89ef354 100644
--- a/crates/easter/src/cover.rs
+++ b/crates/easter/src/cover.rs
@@ -64,9 +64,9 @@ impl IntoAssignPatt for Expr {
                 let mut patts = Vec::with_capacity(exprs.len());
                 let mut rest = None;
                 if let Some(last) = exprs.pop() {
-                    if let Some(ExprListItem::Spread(None, expr)) = last {
+                    if let Some(ExprListItem::Spread(location, expr)) = last {
                         rest = Some(Box::new(RestPatt {
-                            location: None,
+                            location: location,
                             patt: expr.into_assign_patt()?
                         }));
                     } else {
-- 
2.43.0


From 47fb1e63f3532ddebea96d1d7f45cebc9d291f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 18/25] fix: break, continue and return may be the last token
 of the input

---
 src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index 48770bd..524836e 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -82,6 +82,6 @@ impl<I: Iterator<Item=char>> State for Parser<I> {
 
     fn has_arg_same_line(&mut self) -> Result<bool> {
         let next = self.peek()?;
-        Ok(!next.newline && next.value != TokenData::Semi && next.value != TokenData::RBrace)
+        Ok(!next.newline && next.value != TokenData::Semi && next.value != TokenData::RBrace && next.value != TokenData::EOF)
     }
 }
-- 
2.43.0


From b5e7de63c4b46a8382e96d0b252eb0b8a4be6ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 19/25] fix: the object of a for-in head is an expression

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6397e24..0b0b8b2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -924,7 +924,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
 
     // 'for' '(' head 'in' .
     fn more_for_in(&mut self, head: Box<ForInHead>) -> Result<Stmt> {
-        let obj = self.allow_in(true, |this| this.assignment_expression())?;
+        let obj = self.allow_in(true, |this| this.expression())?;
         self.expect(TokenData::RParen)?;
         let body = Box::new(self.iteration_body()?);
         Ok(Stmt::ForIn(None, head, obj, body))
-- 
2.43.0


From c1cc7fc714cc88d82917440a4184891f3341591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 20/25] fix: a script extends to the end of its input

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0b0b8b2..b353dda 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -225,7 +225,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
         debug_assert_eq!(self.goal, Goal::Unknown);
         self.goal = Goal::Script;
         self.context.strict = TriState::from(strict);
-        self.script_body()
+        let script = self.script_body()?;
+        self.expect(TokenData::EOF)?;
+        Ok(script)
     }
 
     fn script_body(&mut self) -> Result<Script> {
-- 
2.43.0


From e93796813bccd12e8094267d9a87d14033834bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 21/25] fix: new takes the member accesses after an inner new's
 arguments

---
 src/parser.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b353dda..2fbe03f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1378,23 +1378,22 @@ impl<I: Iterator<Item=char>> Parser<I> {
         self.primary_expression()
     }
 
-    // "new"+n . (MemberBaseExpression | "super" Deref) Deref* Arguments<n Suffix*
+    // "new"+n . (MemberBaseExpression | "super" Deref) Deref* (Arguments Deref*)<n Suffix*
     fn new_expression(&mut self, news: Vec<Token>) -> Result<Expr> {
         // ES6: if let Some(super) = self.match_token(TokenData::Reserved(Reserved::Super))? {
         let base = self.member_base_expression()?;
         self.more_new_expression(news, base)
     }
 
-    // "new"+n MemberBaseExpression . Deref* Arguments<n Suffix*
+    // "new"+n MemberBaseExpression . Deref* (Arguments Deref*)<n Suffix*
     fn more_new_expression(&mut self, news: Vec<Token>, mut base: Expr) -> Result<Expr> {
-        while let Some(deref) = self.deref_opt()? {
-            base = deref.append_to(base);
-        }
+        base = self.more_derefs(base)?;
         let mut has_args = true;
         for new in news.into_iter().rev() {
             has_args = has_args && self.peek_op()?.value == TokenData::LParen;
             base = if has_args {
-                self.arguments()?.append_to_new(new, base)
+                let callee = self.arguments()?.append_to_new(new, base);
+                self.more_derefs(callee)?
             } else {
                 let location = span(&Some(new.location), &base);
                 Expr::New(location, Box::new(base), None)
@@ -1403,6 +1402,14 @@ impl<I: Iterator<Item=char>> Parser<I> {
         self.more_suffixes(base)
     }
 
+    // MemberBaseExpression . Deref*
+    fn more_derefs(&mut self, mut base: Expr) -> Result<Expr> {
+        while let Some(deref) = self.deref_opt()? {
+            base = deref.append_to(base);
+        }
+        Ok(base)
+    }
+
     // CallExpression ::=
     //   (MemberBaseExpression | "super" Suffix) Suffix*
     fn call_expression(&mut self) -> Result<Expr> {
-- 
2.43.0


From ac72d8f76bae193fdb9ef1c93d8c7216c8e28d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:06 +0000
Subject: [PATCH 22/25] fix: identifiers spelled with escapes obey the same
 rules as others

---
 src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 2fbe03f..8d5254d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -575,6 +575,11 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn new_id(&mut self, binding: bool, name: Name, location: Span) -> Result<Id> {
+        // An identifier spelled with escapes names the same thing as one without.
+        let name = match name {
+            Name::String(string) => Name::from(string),
+            atom => atom
+        };
         self.strict_check(|_| {
             if binding && name.is_illegal_strict_binding() {
                 return Some(Check::Strict(Error::IllegalStrictBinding(location, name.atom().unwrap())));
-- 
2.43.0


From b785438674cf2425eac52155f6cd7112f3ebdf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 23/25] fix: a for-of declarator with an initializer is not
 read as one without

---
 crates/estree/src/stmt.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/estree/src/stmt.rs b/crates/estree/src/stmt.rs
index fc32cb0..2148121 100644
--- a/crates/estree/src/stmt.rs
+++ b/crates/estree/src/stmt.rs
@@ -91,6 +91,9 @@ impl IntoForOfHead for Object {
                 }
                 let mut obj = dtors.remove(0).into_object()?;
                 let lhs = obj.extract_patt("id")?;
+                if let Some(init) = obj.extract_expr_opt("init")? {
+                    return Err(Error::UnexpectedInitializer(init));
+                }
                 match &kind[..] {
                     "var" => ForOfHead::Var(None, lhs),
                     "let" => ForOfHead::Let(None, lhs),
-- 
2.43.0


From 141437bcb78a19c5e207240bf8abf3e3bb5dd5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 24/25] fix: a computed property key is not read as a plain one

---
 crates/estree/src/obj.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/estree/src/obj.rs b/crates/estree/src/obj.rs
index 338f081..5a540d2 100644
--- a/crates/estree/src/obj.rs
+++ b/crates/estree/src/obj.rs
@@ -18,6 +18,9 @@ pub trait IntoObj {
 
 impl IntoObj for Object {
     fn into_prop(mut self) -> Result<Prop> {
+        if self.contains_key("computed") && self.extract_bool("computed")? {
+            return type_error("property key that is not computed", Ty::Boolean);
+        }
         let key = self.extract_object("key")?;
         let mut val = self.extract_object("value")?;
         let kind = self.extract_string("kind")?;
-- 
2.43.0


From 77c5391bddb11bc26f00affc265c46140c4559b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 25/25] fix: a setter with a rest parameter is not read as one
 without

---
 crates/estree/src/obj.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/estree/src/obj.rs b/crates/estree/src/obj.rs
index 5a540d2..76538d7 100644
--- a/crates/estree/src/obj.rs
+++ b/crates/estree/src/obj.rs
@@ -38,6 +38,9 @@ impl IntoObj for Object {
             "get" => PropVal::Get(None, val.extract_object("body")?.extract_script("body")?),
             "set" => {
                 let fun = val.into_fun(())?;
+                if fun.params.rest.is_some() {
+                    return type_error("setter without a rest parameter", Ty::Object);
+                }
                 let params = fun.params.list;
                 if params.len() != 1 {
                     return array_error(1, params.len());
-- 
2.43.0

