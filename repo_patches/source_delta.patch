From f041107ccee5e39cbf86d890b7accfdeff868156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:46 +0000
Subject: [PATCH 01/41] fix: skip NBSP and BOM whitespace as whole code points

eat_whitespace advanced one byte for the multi-byte whitespace characters, so
the next read sliced the source in the middle of a character and panicked, and
it counted bytes where Position.column is documented to count code points.
---
 src/tokenizer/slice.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 0aa1fad..9c4df0c 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -25,22 +25,16 @@ impl<'code> Clone for SliceTokenizer<'code> {
 fn eat_whitespace(code: &str, pos: &mut Position) {
     let mut index = pos.offset;
 
-    for &b in code[pos.offset..].as_bytes() {
-        match b {
-            b'\x09' | b'\x0B' | b'\x0C' | b'\x20' => {
-                index += 1;
-            }
-            b'\xEF' if code[index..].starts_with(WS_ZWNBSP) => {
-                index += 1;
-            }
-            b'\xC2' if code[index..].starts_with(WS_NBSP) => {
-                index += 1;
+    for c in code[pos.offset..].chars() {
+        match c {
+            '\x09' | '\x0B' | '\x0C' | '\x20' | '\u{00A0}' | '\u{FEFF}' => {
+                index += c.len_utf8();
+                pos.column += 1;
             }
             _ => break,
         }
     }
 
-    pos.column += index - pos.offset;
     pos.offset = index;
 }
 
-- 
2.43.0


From a2cfc65dc763d632927a5c022cce86dbed6e7c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:47 +0000
Subject: [PATCH 02/41] fix: reject characters that start no token

tok_ident reported an empty identifier of size 0 for any other character, so
the tokenizer made no progress and reported the same token for ever.
---
 src/tokenizer/slice.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 9c4df0c..35abf1a 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -365,6 +365,10 @@ fn tok_ident<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>) ->
         }
     }
 
+    if end == index {
+        unimplemented!("unexpected character");
+    }
+
     *token = tokens::IdentifierNameToken {
         name: (&code[..end]).into(),
     }.into();
-- 
2.43.0


From d4905dddaebce97965f77786851a1a5b61ebce8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:47 +0000
Subject: [PATCH 03/41] fix: reject unterminated string literals

A string literal with no closing quote was reported as an empty string of size
0, without any progress.
---
 src/tokenizer/slice.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 35abf1a..a555c9d 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -788,6 +788,10 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
         }
     }
 
+    if end == start {
+        unimplemented!("unterminated string");
+    }
+
     let raw = Cow::from(&code[start..end]);
 
     if pieces.len() == 1 {
-- 
2.43.0


From 28306a1f1d6c8b0e484555fcff256781eb47a7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:48 +0000
Subject: [PATCH 04/41] fix: number lines from 1

Position.line is documented as 1-indexed, but the first line was reported as
line 0.
---
 src/tokenizer/slice.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index a555c9d..3d7a3c5 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -96,7 +96,10 @@ impl<'code> IntoTokenizer<'code> for &'code str {
     fn into_tokenizer(self) -> Self::Item {
         SliceTokenizer {
             code: self,
-            position: Default::default(),
+            position: Position {
+                line: 1,
+                ..Default::default()
+            },
         }
     }
 }
-- 
2.43.0


From e0ad4f2e353c8da6fc7ea441134f9581d8355d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:49 +0000
Subject: [PATCH 05/41] fix: treat CRLF as one line terminator

The two bytes of a CRLF were reported as two line terminators, so the lines
after it were numbered one too high: Position.line is documented to treat \r\n
as a single line.
---
 src/tokenizer/slice.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 3d7a3c5..2a7b0b7 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -314,6 +314,10 @@ pub fn read_next<'code, 'b, 'c, 'tok>(code: &'code str, hint: &'c Hint, token: &
         b'\xC2' if code.starts_with(WS_NBSP) => {
             unreachable!();
         }
+        b'\x0D' if len > 1 && bytes[1] == b'\x0A' => {
+            *token = tokens::LineTerminatorToken {}.into();
+            2
+        }
         b'\x0A' | b'\x0D' => {
             *token = tokens::LineTerminatorToken {}.into();
             1
-- 
2.43.0


From 625363d57c69a486724cd8674e6aa276f457d10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:49 +0000
Subject: [PATCH 06/41] fix: read `-->` as `--` followed by `>`

There is no `-->` punctuator in a module: `x-->0` decrements x and compares.
---
 src/tokenizer/slice.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 2a7b0b7..855912e 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -231,11 +231,7 @@ pub fn read_next<'code, 'b, 'c, 'tok>(code: &'code str, hint: &'c Hint, token: &
         }
         b'-' => {
             if len > 1 && bytes[1] == b'-' {
-                if len > 2 && bytes[2] == b'>' {
-                    punc(PunctuatorToken::MinusMinusAngle, 3, token)
-                } else {
-                    punc(PunctuatorToken::MinusMinus, 2, token)
-                }
+                punc(PunctuatorToken::MinusMinus, 2, token)
             } else if len > 1 && bytes[1] == b'=' {
                 punc(PunctuatorToken::MinusEq, 2, token)
             } else {
-- 
2.43.0


From 0215f64202fe13cae9f0cb238469db0d741ccc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:50 +0000
Subject: [PATCH 07/41] fix: honour backslash escapes in templates

An escaped backtick or `${` ended the template piece.
---
 src/tokenizer/slice.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 855912e..9810c6b 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -383,9 +383,17 @@ fn tok_template_head<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'c
     let bytes = code.as_bytes();
 
     let mut break_curly = false;
+    let mut in_escape = false;
 
     for (i, &b) in bytes.iter().enumerate().skip(1) {
         match b {
+            _ if in_escape => {
+                in_escape = false;
+            }
+            b'\\' => {
+                in_escape = true;
+                break_curly = false;
+            }
             b'{' if  break_curly => {
                 template(code[1..i - 1].into(), code[1..i - 1].into(), TemplateFormat::Head, token);
                 return i + 1;
@@ -649,9 +657,17 @@ fn tok_curly_close<'code, 'tok>(code: &'code str, hint: &Hint, token: &mut token
     let bytes = code.as_bytes();
     if hint.template {
         let mut break_curly = false;
+        let mut in_escape = false;
 
         for (i, &b) in bytes.iter().enumerate().skip(1) {
             match b {
+                _ if in_escape => {
+                    in_escape = false;
+                }
+                b'\\' => {
+                    in_escape = true;
+                    break_curly = false;
+                }
                 b'{' if break_curly => {
 
                     template(code[1..i - 1].into(), code[1..i - 1].into(), TemplateFormat::Middle, token);
-- 
2.43.0


From 91f393cc4980d08638f4563d2e8805a139fa7374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:50 +0000
Subject: [PATCH 08/41] fix: count the letter digits of a hex literal from 10

`0x1a` was read as 16.
---
 src/tokenizer/slice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 9810c6b..d2c0fb4 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -459,11 +459,11 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
                     }
                     v @ b'a'...b'f' => {
                         val *= 16f64;
-                        val += (v - b'a') as f64;
+                        val += (v - b'a' + 10) as f64;
                     }
                     v @ b'A'...b'F' => {
                         val *= 16f64;
-                        val += (v - b'A') as f64;
+                        val += (v - b'A' + 10) as f64;
                     }
                     _ => break,
                 }
-- 
2.43.0


From e4802bebc6e0312f9de4d6a702ad46637cb641b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:50 +0000
Subject: [PATCH 09/41] fix: check the first digit after 0x, 0o and 0b like the
 others

The first byte after the prefix was taken as a digit whatever it was: `0xff`
had a wrong value, `0b2` and `0o9` were accepted and `0x,` overflowed.  The
prefix was also missed when only one byte followed it, as in a final `0x1` or
`0.`.
---
 src/tokenizer/slice.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index d2c0fb4..b1c1b52 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -443,12 +443,12 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
     let len = code.len();
     let index = 0;
 
-    let b = if index + 2 < len { bytes[index + 1] } else { 0 };
+    let b = if index + 1 < len { bytes[index + 1] } else { 0 };
     match b {
         b'x' | b'X' => {
-            let mut val = (bytes[index + 2] - b'0') as f64;
+            let mut val = 0f64;
 
-            let mut i = index + 3;
+            let mut i = index + 2;
             loop {
                 if i == len { break }
 
@@ -471,13 +471,17 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
                 i += 1;
             }
 
+            if i == index + 2 {
+                unimplemented!("invalid number error")
+            }
+
             number(val, code[index..i].into(), token);
             i
         }
         b'o' | b'O' => {
-            let mut val = (bytes[index + 2] - b'0') as f64;
+            let mut val = 0f64;
 
-            let mut i = index + 3;
+            let mut i = index + 2;
             loop {
                 if i == len { break }
 
@@ -495,13 +499,17 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
                 i += 1;
             }
 
+            if i == index + 2 {
+                unimplemented!("invalid number error")
+            }
+
             number(val, code[index..i].into(), token);
             i
         }
         b'b' | b'B' => {
-            let mut val = (bytes[index + 2] - b'0') as f64;
+            let mut val = 0f64;
 
-            let mut i = index + 3;
+            let mut i = index + 2;
             loop {
                 if i == len { break }
 
@@ -519,6 +527,10 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
                 i += 1;
             }
 
+            if i == index + 2 {
+                unimplemented!("invalid number error")
+            }
+
             number(val, code[index..i].into(), token);
             i
         }
-- 
2.43.0


From bdc00373241597e2b9b88da5357a6feb026f0e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:51 +0000
Subject: [PATCH 10/41] fix: read the exponent of a zero literal

`0e5` was read as `0` followed by an identifier: the exponent was looked for
at the zero itself.
---
 src/tokenizer/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index b1c1b52..0163e79 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -557,7 +557,7 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
             offset
         }
         _ => {
-            let (_, num) = parse_exponent(bytes);
+            let (_, num) = parse_exponent(&bytes[index + 1..]);
 
             number(0f64, code[index..index + num + 1].into(), token);
             index + num + 1
-- 
2.43.0


From bd3f6a06745d652f7c8fa0270bf5925b3154c59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:51 +0000
Subject: [PATCH 11/41] fix: reject an exponent without digits

`1e`, `1e+` and `1ex` were accepted as numbers.
---
 src/tokenizer/slice.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 0163e79..ee1431d 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -880,10 +880,10 @@ fn parse_decimal_digits(bytes: &[u8]) -> (f64, usize) {
 }
 
 fn parse_exponent(bytes: &[u8]) -> (i32, usize) {
-    let b = if bytes.len() >= 2 { bytes[0] } else { 0 };
+    let b = if bytes.len() >= 1 { bytes[0] } else { 0 };
     let (offset, sign) = match b {
         b'e' | b'E' => {
-            match bytes[1] {
+            match if bytes.len() >= 2 { bytes[1] } else { 0 } {
                 b'+' => (2, 1),
                 b'-' => (2, -1),
                 _ => (1, 1),
@@ -910,6 +910,10 @@ fn parse_exponent(bytes: &[u8]) -> (i32, usize) {
         i += 1;
     }
 
+    if i == offset {
+        unimplemented!("invalid number error");
+    }
+
     (sign * value, i)
 }
 
-- 
2.43.0


From ec1e486ee7713b5db8160238fcae5013d3b26dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:52 +0000
Subject: [PATCH 12/41] fix: do not overflow on a long exponent

`1e9999999999` overflowed an i32: a panic in debug builds and a wrong value in
release builds.
---
 src/tokenizer/slice.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index ee1431d..c8a0743 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -892,7 +892,7 @@ fn parse_exponent(bytes: &[u8]) -> (i32, usize) {
         _ => return (0, 0),
     };
 
-    let mut value = 0;
+    let mut value = 0i32;
 
     let mut i = offset;
     while i < bytes.len() {
@@ -900,8 +900,7 @@ fn parse_exponent(bytes: &[u8]) -> (i32, usize) {
             v @ b'0' ... b'9' => {
                 let val = (v - b'0') as i32;
                 if val != 0 || value != 0 {
-                    value *= 10;
-                    value += val;
+                    value = value.saturating_mul(10).saturating_add(val);
                 }
             }
             _ => break,
-- 
2.43.0


From 1fc0437e459ed3869a421dfbcb804f7567577ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:52 +0000
Subject: [PATCH 13/41] fix: accept escapes of ordinary characters in strings

A backslash before a character that is no escape stands for that character.
---
 src/tokenizer/slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index c8a0743..0c06cbf 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -757,7 +757,8 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
                     panic!("numbers not allowed");
                 }
                 _ => {
-                    unimplemented!("totally bad escapes");
+                    in_escape = 0;
+                    continue;
                 }
             }
         }
-- 
2.43.0


From dfd2d3daf74c67edbe877595413d6cd691422c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:53 +0000
Subject: [PATCH 14/41] fix: allow a line feed only directly after an escaped
 carriage return

After one escaped carriage return every later line feed of the string was
accepted.
---
 src/tokenizer/slice.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 0c06cbf..ad901ea 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -724,6 +724,10 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
     for (i, &b) in bytes.iter().enumerate().skip(1) {
         // TODO: Build state transition tables for parsing escapes
 
+        // Only the `\n` of an escaped `\r\n` is part of the escape.
+        let skip_nl = ignore_nl;
+        ignore_nl = false;
+
         if in_escape == 1 {
             match b {
                 b'\r' => {
@@ -805,7 +809,7 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
                 end = i + 1;
                 break;
             },
-            b'\n' if ignore_nl => {
+            b'\n' if skip_nl => {
 
             }
             b'\r' | b'\n' => {
-- 
2.43.0


From 46294c50e2789ddba2c4caad091146429635cec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:53 +0000
Subject: [PATCH 15/41] fix: reject malformed hex and unicode escapes in
 strings

The digits of an escape were not checked, so a truncated escape could swallow
the closing quote of its string: in `"\u12" + "x"` the first string ended at
the third quote.
---
 src/tokenizer/slice.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index ad901ea..5c8da9e 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -766,6 +766,9 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
                 }
             }
         }
+        if in_hex_escape && in_escape > 1 && !b.is_ascii_hexdigit() {
+            panic!("invalid hex escape");
+        }
         if in_hex_escape && in_escape == 3 {
             in_escape = 0;
             in_hex_escape = false;
@@ -773,6 +776,10 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
         if in_unicode_escape {
             if in_escape == 2 && b == b'{' {
                 in_long_unicode_escape = true;
+            } else if in_long_unicode_escape && in_escape > 3 && b == b'}' {
+                // The end of the escape, handled below.
+            } else if in_escape > 1 && !b.is_ascii_hexdigit() {
+                panic!("invalid unicode escape");
             }
 
             if !in_long_unicode_escape && in_escape == 5 {
-- 
2.43.0


From a2f5df89b3dc18f7b595289f59a13c7809c22444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:54 +0000
Subject: [PATCH 16/41] fix: end regular expressions at the end of the line

A regular expression cannot contain a line terminator, not even escaped.
---
 src/tokenizer/slice.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 5c8da9e..fbb6716 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -617,9 +617,14 @@ fn tok_slash<'code, 'tok>(code: &'code str, hint: &Hint, token: &mut tokens::Tok
         let mut in_class = false;
         for (i, &b) in bytes.iter().enumerate().skip(1) {
             match b {
+                b'\r' | b'\n' => {
+                    unimplemented!("unterminated regex");
+                }
+                b'\xE2' if code[i..].starts_with(NS_LS) || code[i..].starts_with(NS_PS) => {
+                    unimplemented!("unterminated regex");
+                }
                 _ if in_escape => {
                     in_escape = false;
-                    // TODO: Throw if newlines?
                 }
                 b'\\' => {
                     in_escape = true;
-- 
2.43.0


From d016ef0fa1807c7e339d8c2cdb97d30b594d4efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:59 +0000
Subject: [PATCH 17/41] fix: apply the expression hint to the token it was
 meant for

`expect_expression` kept its effect when the next token had already been read,
so that it applied to the token after that: in `x = a\n/b/c` or `(a) /b/ c`
it depended on the lookahead whether a slash was a division.  It now does
nothing once the token has been read, and the places that relied on the
left-over hint ask for an expression before they look at its first token.
---
 src/parser/expressions.rs | 8 +++++++-
 src/parser/mod.rs         | 5 ++++-
 src/parser/module.rs      | 2 ++
 src/parser/statements.rs  | 7 +++++--
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 63c4ddd..f855962 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -144,8 +144,8 @@ where
     fn parse_yield_expression(&mut self) -> OptResult<()> {
         try_value!(self.keyword("yield"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
-            self.expect_expression();
             opt_value!(self.punc(tokens::PunctuatorToken::Star));
 
             self.expect_expression();
@@ -385,6 +385,7 @@ where
     }
     fn parse_left_hand_expression(&mut self, allow_call: bool) -> OptResult<()> {
         if let TokenResult::Some(_) = self.keyword("new") {
+            self.expect_expression();
             eat_value!(self.parse_left_hand_expression(false)?);
         } else {
             if let TokenResult::None = try_sequence!(
@@ -425,6 +426,7 @@ where
                 LeftType::Computed => {
                     self.pop();
                     // eat_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
+                    self.expect_expression();
                     eat_value!(self.with(Flag::In).parse_expression()?);
                     eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));
                 },
@@ -631,6 +633,8 @@ where
         try_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
 
         loop {
+            self.expect_expression();
+
             if let TokenResult::Some(_) = self.parse_array_item()? {
             }
 
@@ -685,6 +689,7 @@ where
     }
     fn parse_array_item(&mut self) -> OptResult<()> {
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
+            self.expect_expression();
             eat_value!(self.parse_assignment_expression()?);
         } else if let TokenResult::Some(_) = self.parse_assignment_expression()? {
         }
@@ -702,6 +707,7 @@ where
         if tok.format == tokens::TemplateFormat::Head {
             let mut parser = self.with(Flag::Template);
             loop {
+                parser.expect_expression();
                 eat_value!(parser.parse_expression()?);
 
                 let next = eat_value!(parser.template_tail());
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e6947c8..1624616 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -184,7 +184,10 @@ where
 
 impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
     pub fn expect_expression(&mut self) {
-        self.hint = self.hint.expression(true);
+        // Only matters for a token that has not been read yet.
+        if self.count == 0 {
+            self.hint = self.hint.expression(true);
+        }
     }
 
     pub fn semicolon(&mut self) -> TokenResult<()> {
diff --git a/src/parser/module.rs b/src/parser/module.rs
index d54b2b1..b69256b 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -61,6 +61,8 @@ where
         try_value!(self.keyword("export"));
 
         if let TokenResult::Some(_) = self.keyword("default") {
+            self.expect_expression();
+
             let mut parser = self.with(Flag::Default);
 
             if let TokenResult::Some(_) = parser.parse_function_declaration()? {
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 21b23b1..f161f34 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -310,6 +310,7 @@ where
 
         eat_value!(self.parse_statement()?);
 
+        self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("else") {
             eat_value!(self.parse_statement()?);
         }
@@ -344,6 +345,7 @@ where
         eat_value!(self.with(Flag::In).parse_expression()?);
         eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
 
+        self.expect_expression();
         eat_value!(self.semicolon_dowhile());
 
         Ok(TokenResult::Some(()))
@@ -624,8 +626,8 @@ where
     fn parse_return_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("return"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
-            self.expect_expression();
             opt_value!(self.with(Flag::In).parse_expression()?);
         }
 
@@ -671,8 +673,8 @@ where
     fn parse_throw_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("throw"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
-            self.expect_expression();
             eat_value!(self.with(Flag::In).parse_expression()?);
         }
 
@@ -696,6 +698,7 @@ where
             eat_value!(self.parse_block_statement()?);
         }
 
+        self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("finally") {
             eat_value!(self.parse_block_statement()?);
         }
-- 
2.43.0


From 1bc0b4797a8ace3ba1a06de4a12ed38e197fdc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:00 +0000
Subject: [PATCH 18/41] fix: read a division after a literal keyword

After `this`, `super`, `null`, `true` and `false` the lookahead read a slash as
the start of a regular expression: `this / a / b` was rejected.
---
 src/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 1624616..312ea36 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -307,7 +307,10 @@ impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
         if self.count < 2 {
             let flags = self.flags;
             let expect_expression = if let tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) = *self.token() {
-                !is_binding_identifier(&flags, name)
+                match &**name {
+                    "this" | "super" | "null" | "true" | "false" => false,
+                    _ => !is_binding_identifier(&flags, name),
+                }
             } else {
                 return None;
             };
-- 
2.43.0


From 4cdf8d0219ab63bfc93a5f694ea6038877e5e4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:01 +0000
Subject: [PATCH 19/41] fix: require the operand and the end of a throw
 statement

`throw` alone was accepted, also before a line terminator, and nothing had to
follow the operand: `throw a b` was accepted.
---
 src/parser/statements.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index f161f34..dfa8f23 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -674,9 +674,12 @@ where
         try_value!(self.keyword("throw"));
 
         self.expect_expression();
-        if self.no_line_terminator() {
-            eat_value!(self.with(Flag::In).parse_expression()?);
+        if !self.no_line_terminator() {
+            bail!("Unexpected line terminator after throw");
         }
+        eat_value!(self.with(Flag::In).parse_expression()?);
+
+        eat_value!(self.semicolon());
 
         Ok(TokenResult::Some(()))
     }
-- 
2.43.0


From 41edf5ab33b3d8569a74144143e587b1c4b90454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:01 +0000
Subject: [PATCH 20/41] fix: export declarations

An exported `var`, `let` or `const` needed a second semicolon, and exported
functions and classes were rejected.
---
 src/parser/module.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/module.rs b/src/parser/module.rs
index b69256b..0a5ac58 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -80,9 +80,14 @@ where
 
             } else if let TokenResult::Some(_) = self.parse_const_declaration()? {
 
+            } else if let TokenResult::Some(_) = self.parse_function_declaration()? {
+
+            } else if let TokenResult::Some(_) = self.parse_class_declaration()? {
+
             } else if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Star) {
                 eat_value!(self.keyword("from"));
                 eat_value!(self.string());
+                eat_value!(self.semicolon());
             } else {
                 eat_value!(self.punc(tokens::PunctuatorToken::CurlyOpen));
 
@@ -99,9 +104,8 @@ where
                 } else {
                     // TODO: Validate BindingIdentifier for local specifiers
                 }
+                eat_value!(self.semicolon());
             }
-
-            eat_value!(self.semicolon());
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From 1511c5fb4c17521787ac2e3afd1b2ade322a89ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:02 +0000
Subject: [PATCH 21/41] fix: allow the in operator wherever the grammar does

The initializers of `let` and `const`, of parameters and of class and object
members, the second and third part of a `for` head, and everything within
parentheses, brackets, braces and template literals took the setting from
around them, where `in` was not allowed: `let x = a in b;` was rejected.
---
 src/parser/declarations.rs | 10 +++++-----
 src/parser/expressions.rs  | 11 ++++++-----
 src/parser/functions.rs    |  4 ++--
 src/parser/statements.rs   |  4 ++--
 4 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/parser/declarations.rs b/src/parser/declarations.rs
index 5ece444..65ba79f 100644
--- a/src/parser/declarations.rs
+++ b/src/parser/declarations.rs
@@ -1,5 +1,5 @@
 use tokenizer::{Tokenizer, tokens};
-use parser::Parser;
+use parser::{Parser, Flag};
 use parser::utils::{OptResult, TokenResult};
 
 impl<'code, T> Parser<'code, T>
@@ -44,10 +44,10 @@ where
     pub fn parse_let_declaration(&mut self) -> OptResult<()> {
         try_value!(self.keyword("let"));
 
-        eat_value!(self.parse_lexical_declarator(false)?);
+        eat_value!(self.with(Flag::In).parse_lexical_declarator(false)?);
 
         while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
-            eat_value!(self.parse_lexical_declarator(false)?);
+            eat_value!(self.with(Flag::In).parse_lexical_declarator(false)?);
         }
         eat_value!(self.semicolon());
 
@@ -57,10 +57,10 @@ where
     pub fn parse_const_declaration(&mut self) -> OptResult<()> {
         try_value!(self.keyword("const"));
 
-        eat_value!(self.parse_lexical_declarator(true)?);
+        eat_value!(self.with(Flag::In).parse_lexical_declarator(true)?);
 
         while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
-            eat_value!(self.parse_lexical_declarator(true)?);
+            eat_value!(self.with(Flag::In).parse_lexical_declarator(true)?);
         }
         eat_value!(self.semicolon());
 
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index f855962..70276c1 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -635,7 +635,7 @@ where
         loop {
             self.expect_expression();
 
-            if let TokenResult::Some(_) = self.parse_array_item()? {
+            if let TokenResult::Some(_) = self.with(Flag::In).parse_array_item()? {
             }
 
             if let TokenResult::None = self.punc(tokens::PunctuatorToken::Comma) {
@@ -652,7 +652,7 @@ where
         try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
 
         loop {
-            if let TokenResult::Some(_) = parser.parse_object_property()? {
+            if let TokenResult::Some(_) = parser.with(Flag::In).parse_object_property()? {
             }
 
             if let TokenResult::None = parser.punc(tokens::PunctuatorToken::Comma) {
@@ -708,7 +708,7 @@ where
             let mut parser = self.with(Flag::Template);
             loop {
                 parser.expect_expression();
-                eat_value!(parser.parse_expression()?);
+                eat_value!(parser.with(Flag::In).parse_expression()?);
 
                 let next = eat_value!(parser.template_tail());
 
@@ -725,7 +725,8 @@ where
 
         self.expect_expression();
 
-        if let Some(_) = opt_value!(self.parse_assignment_expression()?) {
+        let first = opt_value!(self.with(Flag::In).parse_assignment_expression()?);
+        if let Some(_) = first {
             while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
                 self.expect_expression();
                 if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
@@ -734,7 +735,7 @@ where
                         eat_value!(self.binding_identifier());
                     }
                 } else {
-                    eat_value!(self.parse_assignment_expression()?)
+                    eat_value!(self.with(Flag::In).parse_assignment_expression()?);
                 }
             }
         } else {
diff --git a/src/parser/functions.rs b/src/parser/functions.rs
index 4fbbee2..2efcbc2 100644
--- a/src/parser/functions.rs
+++ b/src/parser/functions.rs
@@ -110,9 +110,9 @@ where
             }
 
             if let TokenResult::Some(_) = self.parse_binding_pattern()? {
-                opt_value!(self.parse_initializer()?);
+                opt_value!(self.with(Flag::In).parse_initializer()?);
             } else if let TokenResult::Some(_) = self.binding_identifier() {
-                opt_value!(self.parse_initializer()?);
+                opt_value!(self.with(Flag::In).parse_initializer()?);
             } else {
                 break;
             }
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index dfa8f23..4bbab46 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -506,12 +506,12 @@ where
         let found = if maybe_for {
             if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Semicolon) {
                 self.expect_expression();
-                opt_value!(self.parse_expression()?);
+                opt_value!(self.with(Flag::In).parse_expression()?);
 
                 eat_value!(self.punc(tokens::PunctuatorToken::Semicolon));
 
                 self.expect_expression();
-                opt_value!(self.parse_expression()?);
+                opt_value!(self.with(Flag::In).parse_expression()?);
                 true
             } else {
                 false
-- 
2.43.0


From 4a33edda469bf87825d78b9ff5a46ba19d2fca8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:03 +0000
Subject: [PATCH 22/41] fix: accept a spread argument after another

`f(...a, ...b)` was rejected: after a spread argument and a comma only a plain
argument was looked for.
---
 src/parser/expressions.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 70276c1..a0abfe5 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -454,6 +454,7 @@ where
                 eat_value!(parser.parse_assignment_expression()?);
 
                 if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Comma) {
+                    continue;
                 } else {
                     break;
                 }
-- 
2.43.0


From 756fef1b6247a17d141a7f72a7d224b55f8b7962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:04 +0000
Subject: [PATCH 23/41] fix: accept new.target

The `new` was always taken as the operator, so that `new.target` was rejected.
---
 src/parser/expressions.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index a0abfe5..a06df0a 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -386,7 +386,11 @@ where
     fn parse_left_hand_expression(&mut self, allow_call: bool) -> OptResult<()> {
         if let TokenResult::Some(_) = self.keyword("new") {
             self.expect_expression();
-            eat_value!(self.parse_left_hand_expression(false)?);
+            if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Period) {
+                eat_value!(self.keyword("target"));
+            } else {
+                eat_value!(self.parse_left_hand_expression(false)?);
+            }
         } else {
             if let TokenResult::None = try_sequence!(
                 self.parse_primary_expression()?,
-- 
2.43.0


From bbcb5c3f12f6c0e78d3a2ca4ed838e6fc50c39db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:04 +0000
Subject: [PATCH 24/41] fix: do not require initializers in the let of a for
 head

`for (let i = 0, n; ;)` was rejected.
---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 4bbab46..d97dbd3 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -455,7 +455,7 @@ where
                     if !pattern || initialized {
                         while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
                             multiple = true;
-                            eat_value!(self.without(Flag::In).parse_lexical_declarator(true)?);
+                            eat_value!(self.without(Flag::In).parse_lexical_declarator(false)?);
                         }
                     }
 
-- 
2.43.0


From b64bdec06915269d0a5818f6a7c66dd18ec95303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:05 +0000
Subject: [PATCH 25/41] fix: take only identifiers as labels

Any name before a colon was taken as a label: `default:` within a switch became
a label of the case before it, and `this: ;` was accepted.
---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index d97dbd3..f67ee0e 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -660,7 +660,7 @@ where
         };
 
         if is_label {
-            eat_value!(self.identifier());
+            try_value!(self.label_identifier());
             eat_value!(self.punc(tokens::PunctuatorToken::Colon));
             eat_value!(self.parse_statement()?);
             Ok(TokenResult::Some(()))
-- 
2.43.0


From 86cb1098f7427a37d1bae86d1791bfc6ccdf7a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:05 +0000
Subject: [PATCH 26/41] fix: parse class expressions

Only the keyword was taken: `x = class {};` was rejected and `x = class;`
accepted.
---
 src/parser/classes.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index 359e694..c708979 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -24,6 +24,11 @@ where
     pub fn parse_class_expression(&mut self) -> OptResult<()> {
         try_value!(self.keyword("class"));
 
+        opt_value!(self.binding_identifier());
+        opt_value!(self.parse_class_heritage()?);
+
+        eat_value!(self.parse_class_body()?);
+
         Ok(TokenResult::Some(()))
     }
 
-- 
2.43.0


From 1938839966c1aa941150f9a1d6ceb6c4e432db25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:06 +0000
Subject: [PATCH 27/41] fix: require catch or finally after try

---
 src/parser/statements.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index f67ee0e..0e482e0 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -689,7 +689,7 @@ where
 
         eat_value!(self.parse_block_statement()?);
 
-        if let TokenResult::Some(_) = self.keyword("catch") {
+        let caught = if let TokenResult::Some(_) = self.keyword("catch") {
             eat_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
 
             if let TokenResult::None = self.parse_binding_pattern()? {
@@ -699,11 +699,16 @@ where
             eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
 
             eat_value!(self.parse_block_statement()?);
-        }
+            true
+        } else {
+            false
+        };
 
         self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("finally") {
             eat_value!(self.parse_block_statement()?);
+        } else if !caught {
+            bail!("expected catch or finally after try");
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From 7b775a804eafe248ebb1fcf46619374e5bae031f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:07 +0000
Subject: [PATCH 28/41] fix: parse yield only within generators

`yield` was an operator everywhere.  Its operand is also an assignment
expression, not a list, and required after `yield *`.
---
 src/parser/expressions.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index a06df0a..d1a594e 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -142,14 +142,20 @@ where
     }
 
     fn parse_yield_expression(&mut self) -> OptResult<()> {
+        if !self.flags.allow_yield {
+            return Ok(TokenResult::None);
+        }
+
         try_value!(self.keyword("yield"));
 
         self.expect_expression();
         if self.no_line_terminator() {
-            opt_value!(self.punc(tokens::PunctuatorToken::Star));
-
-            self.expect_expression();
-            opt_value!(self.parse_expression()?);
+            if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Star) {
+                self.expect_expression();
+                eat_value!(self.parse_assignment_expression()?);
+            } else {
+                opt_value!(self.parse_assignment_expression()?);
+            }
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From d8fe124c4dd56ada37c0b8967c29e323152fc674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:07 +0000
Subject: [PATCH 29/41] fix: never take await as an identifier

It was taken as one exactly where it is an operator.  Programs are parsed as
modules, where it is reserved everywhere.
---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 312ea36..20b38a2 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -548,7 +548,7 @@ fn is_binding_identifier(flags: &GrammarFlags, s: &str) -> bool {
     match s {
         // Conditional keywords
         "yield" if !flags.allow_yield => false,
-        "await" if !flags.allow_await => false,
+        "await" => false,
 
         // Keywords
         "break" | "case" | "catch" | "class" | "const" | "continue" | "debugger" | "default" | "delete" |
-- 
2.43.0


From 2abebb990f1895eab6a3f192b5f3c626616de31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:08 +0000
Subject: [PATCH 30/41] fix: reset yield and await in accessors and arrow
 functions

The bodies of getters, setters and arrow functions within a generator could
yield, those of arrow functions and accessors within async functions could
await, and those of async arrow functions could not.
---
 src/parser/classes.rs     | 22 ++++++++++++++--------
 src/parser/expressions.rs | 12 +++++++-----
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index c708979..e03d853 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -139,21 +139,27 @@ where
     pub fn parse_method_tail(&mut self, head: MethodHead) -> OptResult<()> {
         match head.kind {
             MethodKind::Get => {
-                try_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
-                eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
+                let mut parser = self.without(Flag::Await);
+                let mut parser = parser.without(Flag::Yield);
 
-                eat_value!(self.parse_function_body()?);
+                try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
+                eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
+
+                eat_value!(parser.parse_function_body()?);
             }
             MethodKind::Set => {
-                try_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
+                let mut parser = self.without(Flag::Await);
+                let mut parser = parser.without(Flag::Yield);
+
+                try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
 
-                if let TokenResult::None = self.parse_binding_pattern()? {
-                    eat_value!(self.binding_identifier());
+                if let TokenResult::None = parser.parse_binding_pattern()? {
+                    eat_value!(parser.binding_identifier());
                 }
 
-                eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
+                eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
 
-                eat_value!(self.parse_function_body()?);
+                eat_value!(parser.parse_function_body()?);
             }
             MethodKind::None => {
                 if head.async {
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index d1a594e..29c3d5d 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -52,7 +52,7 @@ where
                 }
 
                 eat_value!(self.punc(tokens::PunctuatorToken::Arrow));
-                eat_value!(self.reify_arrow(())?);
+                eat_value!(self.with(Flag::Await).reify_arrow(())?);
 
                 return Ok(TokenResult::Some(()));
             }
@@ -104,7 +104,7 @@ where
             Reify::Arrow => {
                 // TODO: No LineTerminator allowed before arrow.
                 // TODO: This needs to know if the left was an "async(foo)" to decide if "await" is allowed.
-                self.reify_arrow(left)?
+                self.without(Flag::Await).reify_arrow(left)?
             }
             Reify::Eq => self.reify_assignment(left, tokens::PunctuatorToken::Eq)?,
             Reify::StarEq => self.reify_assignment(left, tokens::PunctuatorToken::StarEq)?,
@@ -124,11 +124,13 @@ where
         Ok(TokenResult::Some(()))
     }
     fn reify_arrow(&mut self, _left: ()) -> OptResult<()> {
-        self.expect_expression();
+        let mut parser = self.without(Flag::Yield);
+
+        parser.expect_expression();
 
         Ok(try_sequence!(
-            self.parse_block_statement()?,
-            self.parse_assignment_expression()?,
+            parser.parse_block_statement()?,
+            parser.parse_assignment_expression()?,
         ))
     }
     fn reify_assignment(&mut self, _left: (), _op: tokens::PunctuatorToken) -> OptResult<()> {
-- 
2.43.0


From aec529d65e917e3079bb91914acb83239a23c32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:09 +0000
Subject: [PATCH 31/41] fix: reject an arrow on a new line

---
 src/parser/expressions.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 29c3d5d..79a5374 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -80,8 +80,10 @@ where
             StarStarEq,
         }
 
+        let no_line_terminator = self.no_line_terminator();
+
         let t = match *self.token() {
-            tokens::Token::Punctuator(tokens::PunctuatorToken::Arrow) => Reify::Arrow,
+            tokens::Token::Punctuator(tokens::PunctuatorToken::Arrow) if no_line_terminator => Reify::Arrow,
             tokens::Token::Punctuator(tokens::PunctuatorToken::Eq) => Reify::Eq,
             tokens::Token::Punctuator(tokens::PunctuatorToken::StarEq) => Reify::StarEq,
             tokens::Token::Punctuator(tokens::PunctuatorToken::SlashEq) => Reify::SlashEq,
@@ -102,7 +104,6 @@ where
 
         eat_value!(match t {
             Reify::Arrow => {
-                // TODO: No LineTerminator allowed before arrow.
                 // TODO: This needs to know if the left was an "async(foo)" to decide if "await" is allowed.
                 self.without(Flag::Await).reify_arrow(left)?
             }
-- 
2.43.0


From 407129ee044634fe6bc8ec8b4a4e19937b3d70ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:09 +0000
Subject: [PATCH 32/41] fix: reject empty object members and computed names

`{,,}` and `{[]: 1}` were accepted as object literals.
---
 src/parser/expressions.rs | 3 ++-
 src/parser/statements.rs  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 79a5374..ed6fe15 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -666,7 +666,8 @@ where
         try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
 
         loop {
-            if let TokenResult::Some(_) = parser.with(Flag::In).parse_object_property()? {
+            if let TokenResult::None = parser.with(Flag::In).parse_object_property()? {
+                break;
             }
 
             if let TokenResult::None = parser.punc(tokens::PunctuatorToken::Comma) {
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 0e482e0..a4365de 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -228,7 +228,7 @@ where
         try_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
 
         self.expect_expression();
-        opt_value!(self.with(Flag::In).parse_assignment_expression()?);
+        eat_value!(self.with(Flag::In).parse_assignment_expression()?);
 
         eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));
 
-- 
2.43.0


From 38517a84bef1eb7ce1c05cd36cae667185e6bf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:10 +0000
Subject: [PATCH 33/41] fix: allow nothing after a rest element in parentheses

`(a, ...b, c) => d` was accepted.
---
 src/parser/expressions.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index ed6fe15..487988d 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -749,6 +749,7 @@ where
                     } else {
                         eat_value!(self.binding_identifier());
                     }
+                    break;
                 } else {
                     eat_value!(self.with(Flag::In).parse_assignment_expression()?);
                 }
-- 
2.43.0


From 83f67e4101d15b7a1e035610932acc1cbd39745b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:11 +0000
Subject: [PATCH 34/41] fix: export default takes one expression and no
 anonymous inner functions

`export default a, b;` was accepted, and the functions and classes declared
within a default export did not need a name either.
---
 src/parser/classes.rs   |  6 ++++--
 src/parser/functions.rs |  8 +++++---
 src/parser/module.rs    | 16 +++++++---------
 3 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index e03d853..4faaebc 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -15,9 +15,11 @@ where
             Some(eat_value!(self.binding_identifier()))
         };
 
-        let _parent = opt_value!(self.parse_class_heritage()?);
+        let mut parser = self.without(Flag::Default);
 
-        eat_value!(self.parse_class_body()?);
+        let _parent = opt_value!(parser.parse_class_heritage()?);
+
+        eat_value!(parser.parse_class_body()?);
 
         Ok(TokenResult::Some(()))
     }
diff --git a/src/parser/functions.rs b/src/parser/functions.rs
index 2efcbc2..9b37462 100644
--- a/src/parser/functions.rs
+++ b/src/parser/functions.rs
@@ -34,19 +34,21 @@ where
             eat_value!(self.binding_identifier());
         }
 
+        let mut parser = self.without(Flag::Default);
+
         if maybe_async {
-            let mut parser = self.without(Flag::Yield);
+            let mut parser = parser.without(Flag::Yield);
 
             eat_value!(parser.parse_function_params()?);
             eat_value!(parser.with(Flag::Await).parse_function_body()?);
         } else if let Some(_) = star {
-            let mut parser = self.without(Flag::Await);
+            let mut parser = parser.without(Flag::Await);
             let mut parser = parser.with(Flag::Yield);
 
             eat_value!(parser.parse_function_params()?);
             eat_value!(parser.parse_function_body()?);
         } else {
-            let mut parser = self.without(Flag::Await);
+            let mut parser = parser.without(Flag::Await);
             let mut parser = parser.without(Flag::Yield);
 
             eat_value!(parser.parse_function_params()?);
diff --git a/src/parser/module.rs b/src/parser/module.rs
index 0a5ac58..1d7ae67 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -63,15 +63,13 @@ where
         if let TokenResult::Some(_) = self.keyword("default") {
             self.expect_expression();
 
-            let mut parser = self.with(Flag::Default);
-
-            if let TokenResult::Some(_) = parser.parse_function_declaration()? {
-
-            } else if let TokenResult::Some(_) = parser.parse_class_declaration()? {
-
-            } else {
-                eat_value!(parser.with(Flag::In).parse_expression()?);
-                eat_value!(parser.semicolon());
+            let mut declared = opt_value!(self.with(Flag::Default).parse_function_declaration()?).is_some();
+            if !declared {
+                declared = opt_value!(self.with(Flag::Default).parse_class_declaration()?).is_some();
+            }
+            if !declared {
+                eat_value!(self.with(Flag::In).parse_assignment_expression()?);
+                eat_value!(self.semicolon());
             }
         } else {
             if let TokenResult::Some(_) = self.parse_variable_statement()? {
-- 
2.43.0


From ef9e347e1342ee6f739a0f1176a135ac52c85a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:11 +0000
Subject: [PATCH 35/41] fix: take only identifiers as shorthand properties of
 patterns

`var {this} = a`, `var {"b"} = a` and `var {1 = 2} = a` were accepted.
---
 src/parser/statements.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index a4365de..1408761 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1,6 +1,6 @@
 
 use tokenizer::{Tokenizer, tokens};
-use parser::{Parser, Flag, LookaheadResult};
+use parser::{Parser, Flag, LookaheadResult, is_binding_identifier};
 use parser::utils::{OptResult, TokenResult};
 
 // enum ForInit {
@@ -195,10 +195,18 @@ where
     // foo: {bar} = 4
     // "foo": bar = 4
     fn parse_binding_property(&mut self) -> OptResult<()> {
+        let flags = self.flags;
+        let shorthand = match *self.token() {
+            tokens::Token::IdentifierName(ref v) => is_binding_identifier(&flags, &v.name),
+            _ => false,
+        };
+
         let _name = try_value!(self.parse_property_name()?);
 
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Colon) {
             eat_value!(self.parse_binding_element()?);
+        } else if !shorthand {
+            bail!("expected an identifier as shorthand property");
         } else {
             opt_value!(self.with(Flag::In).parse_initializer()?);
         }
-- 
2.43.0


From 7eb64006a097acb928166a6102c639b0ec54bbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:12 +0000
Subject: [PATCH 36/41] fix: accept an identifier before a function on the next
 line

`a\nfunction b() {}` was rejected.
---
 src/parser/expressions.rs | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 487988d..63b0dde 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -593,18 +593,6 @@ where
         Ok(TokenResult::Some(()))
     }
     fn parse_identifier_reference_expression(&mut self) -> OptResult<()> {
-        if let Some(ahead) = self.ident_lookahead() {
-            match ahead.token {
-                tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name}) => {
-                    if name == "function" {
-                        return Ok(TokenResult::None);
-                    }
-                }
-                _ => {}
-            }
-
-        }
-
         try_value!(self.reference_identifier());
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From 13c06d04a24579509aefd4ee5f5cac1fc45fedb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:13 +0000
Subject: [PATCH 37/41] fix: tell modifiers and names of members apart

A method named `async` was parsed as an async one, `get *a() {}` was accepted,
and object literals took `static` as a modifier, members such as `get a`,
`"a"` and `this` without a value, and values after modifiers as in
`{get a: 1}`.
---
 src/parser/classes.rs     | 35 +++++++++++++++++++++++++++--------
 src/parser/expressions.rs | 17 +++++++++++------
 2 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index 4faaebc..469c5d6 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -1,5 +1,5 @@
 use tokenizer::{Tokenizer, tokens};
-use parser::{Parser, Flag};
+use parser::{Parser, Flag, is_binding_identifier};
 use parser::utils::{OptResult, TokenResult};
 
 impl<'code, T> Parser<'code, T>
@@ -82,7 +82,7 @@ where
             MethodKind::None
         };
 
-        let async = if let MethodKind::None = kind {
+        let mut async = if let MethodKind::None = kind {
             if let TokenResult::Some(_) = self.keyword("async") {
                 true
             } else {
@@ -92,23 +92,30 @@ where
             false
         };
 
-        let star = if async {
-            None
-        } else {
-            opt_value!(self.punc(tokens::PunctuatorToken::Star))
+        let star = match kind {
+            MethodKind::None if !async => opt_value!(self.punc(tokens::PunctuatorToken::Star)),
+            _ => None,
         };
 
-        let is_ident = false;
+        let flags = self.flags;
+        let mut is_ident = stat.is_none() && star.is_none() && match (&kind, self.token()) {
+            (&MethodKind::None, &tokens::Token::IdentifierName(ref v)) => !async && is_binding_identifier(&flags, &v.name),
+            _ => false,
+        };
         let _name = if async && self.no_line_terminator() {
             if let TokenResult::Some(_) = self.parse_property_name()? {
                 // async fn method
             } else {
                 // method named  "async"
+                async = false;
+                is_ident = stat.is_none();
             }
         } else {
             if async {
                 // has lineterminator
                 // method named  "async"
+                async = false;
+                is_ident = stat.is_none();
             } else if let TokenResult::Some(_) = self.parse_property_name()? {
 
             } else {
@@ -116,9 +123,11 @@ where
                     (_, _, &Some(_)) => bail!("expected method name"),
                     (_, &MethodKind::Get, _) => {
                         kind = MethodKind::None;
+                        is_ident = stat.is_none();
                     }
                     (_, &MethodKind::Set, _) => {
                         kind = MethodKind::None;
+                        is_ident = stat.is_none();
                     },
                     (&Some(_), _, _) => {
                         stat = None;
@@ -196,10 +205,20 @@ pub enum MethodKind {
     None,
 }
 
+impl MethodHead {
+    /// A name without modifiers.
+    pub fn is_plain(&self) -> bool {
+        match self.kind {
+            MethodKind::None => !self.generator && !self.async,
+            _ => false,
+        }
+    }
+}
+
 #[derive(Debug)]
 pub struct MethodHead {
     kind: MethodKind,
-    is_ident: bool,
+    pub is_ident: bool,
     generator: bool,
     async: bool,
 }
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 63b0dde..4a25a5c 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -676,16 +676,21 @@ where
             return Ok(TokenResult::Some(()));
         }
 
-        // TODO: Disallow static
-        let head = try_value!(self.parse_method_head(true)?);
+        let head = try_value!(self.parse_method_head(false)?);
 
-        if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Colon) {
+        let colon = if head.is_plain() {
+            opt_value!(self.punc(tokens::PunctuatorToken::Colon)).is_some()
+        } else {
+            false
+        };
+
+        if colon {
             self.expect_expression();
             eat_value!(self.parse_assignment_expression()?);
-        } else {
-            // TODO: This needs to handle singlename prop access
-            // eat_value!(self.parse_method_tail(head)?);
+        } else if head.is_ident {
             opt_value!(self.parse_method_tail(head)?);
+        } else {
+            eat_value!(self.parse_method_tail(head)?);
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From d118cbdcbd1287a7e422d7b7e2eb4aa2e0c8a883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:13 +0000
Subject: [PATCH 38/41] fix: allow an initializer in the parameter of a setter

---
 src/parser/classes.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index 469c5d6..0aa5e45 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -167,6 +167,7 @@ where
                 if let TokenResult::None = parser.parse_binding_pattern()? {
                     eat_value!(parser.binding_identifier());
                 }
+                opt_value!(parser.with(Flag::In).parse_initializer()?);
 
                 eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
 
-- 
2.43.0


From 233f215c8554ecfe1f788a4157c2ec33d624ab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:14 +0000
Subject: [PATCH 39/41] fix: take a list after in and require something before
 it in a for head

`for (a in b, c) ;` was rejected and `for (in a) ;` accepted.
---
 src/parser/statements.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 1408761..a4b8d02 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -480,9 +480,9 @@ where
             } else {
                 // TODO: What to do here? If this is a LeftHandSideExpression,
                 // the for can be any type, otherwise it _must_ be 'ForStatement'
-                opt_value!(self.without(Flag::In).parse_expression()?);
+                let left_hand = opt_value!(self.without(Flag::In).parse_expression()?).is_some();
 
-                ("expression", false, false, false, false, true /* tmp */)
+                ("expression", false, false, false, false, left_hand)
             }
         };
 
@@ -532,7 +532,7 @@ where
             if maybe_x {
                 if let TokenResult::Some(_) = self.keyword("in") {
                     self.expect_expression();
-                    eat_value!(self.with(Flag::In).parse_assignment_expression()?);
+                    eat_value!(self.with(Flag::In).parse_expression()?);
                 } else if let TokenResult::Some(_) = self.keyword("of") {
                     self.expect_expression();
                     eat_value!(self.with(Flag::In).parse_assignment_expression()?);
-- 
2.43.0


From 5cd1716ae3db75ff2ae11a6ffadfadb44497bdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:14 +0000
Subject: [PATCH 40/41] fix: take only identifiers as the local names of
 imports

`import {this} from "a"` and `import {a as this} from "a"` were accepted.
---
 src/parser/module.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/parser/module.rs b/src/parser/module.rs
index 1d7ae67..1c79aaa 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -1,5 +1,5 @@
 use tokenizer::{Tokenizer, tokens};
-use parser::{Parser, Flag};
+use parser::{Parser, Flag, is_binding_identifier};
 use parser::utils::{OptResult, TokenResult};
 
 impl<'code, T> Parser<'code, T>
@@ -45,13 +45,18 @@ where
     }
 
     fn parse_import_specifier(&mut self) -> OptResult<()> {
+        let flags = self.flags;
+        let binding = match *self.token() {
+            tokens::Token::IdentifierName(ref v) => is_binding_identifier(&flags, &v.name),
+            _ => false,
+        };
+
         try_value!(self.identifier());
 
         if let TokenResult::Some(_) = self.keyword("as") {
-            // TODO: Validate BindingIdentifier
-            eat_value!(self.identifier());
-        } else {
-            // TODO: Validate first is BindingIdentifier
+            eat_value!(self.binding_identifier());
+        } else if !binding {
+            bail!("expected an identifier as local name");
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From d28ccce1f704e565cdcecdd7ed3a60220172dbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:15 +0000
Subject: [PATCH 41/41] fix: do not begin an operand with the rest of a
 template

`yield` before the `}` of a substitution was rejected, because the rest of
the template was taken for the operand of `yield`.
---
 src/parser/expressions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 4a25a5c..08a3005 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -544,7 +544,8 @@ where
             }
             tokens::Token::StringLiteral(_) => PrimaryType::String,
             tokens::Token::NumericLiteral(_) => PrimaryType::Number,
-            tokens::Token::Template(_) => PrimaryType::Template,
+            tokens::Token::Template(tokens::TemplateToken { format: tokens::TemplateFormat::NoSubstitution, .. }) |
+            tokens::Token::Template(tokens::TemplateToken { format: tokens::TemplateFormat::Head, .. }) => PrimaryType::Template,
             tokens::Token::RegularExpressionLiteral(_) => PrimaryType::Regex,
             tokens::Token::Punctuator(tokens::PunctuatorToken::SquareOpen) => PrimaryType::Array,
             tokens::Token::Punctuator(tokens::PunctuatorToken::CurlyOpen) => PrimaryType::Object,
-- 
2.43.0

