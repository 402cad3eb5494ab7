From 43c6bee6a2e21659b2e21e9940d899afa8c64497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:31 +0000
Subject: [PATCH 01/10] fix: escapes that denote surrogates (\:d800, \|00d800)
 panicked the character decoder

---
 .../wolfram-parser/src/read/character_decoder.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/wolfram-parser/src/read/character_decoder.rs b/crates/wolfram-parser/src/read/character_decoder.rs
index 0752264..4a0414f 100644
--- a/crates/wolfram-parser/src/read/character_decoder.rs
+++ b/crates/wolfram-parser/src/read/character_decoder.rs
@@ -641,7 +641,13 @@ fn CharacterDecoder_handle4Hex(
     let d1 = u32::from(utils::toDigit(hexStartBuf[2]));
     let d0 = u32::from(utils::toDigit(hexStartBuf[3]));
     let point: u32 = d3 << 12 | d2 << 8 | d1 << 4 | d0;
-    let mut point = CodePoint::from_u32(point).unwrap();
+
+    // Surrogates, e.g. \:d800, are not characters.
+    let Some(mut point) = CodePoint::from_u32(point) else {
+        session.seek(colon);
+
+        return WLCharacter::new('\\');
+    };
 
     match point {
         CodePoint::Char(CODEPOINT_ACTUAL_DOUBLEQUOTE) => {
@@ -959,14 +965,12 @@ fn CharacterDecoder_handle6Hex(
         u32::from_be_bytes([0, d5 << 4 | d4, d3 << 4 | d2, d1 << 4 | d0]);
 
     // TODO: Is this logic here correct? Why always return a \ if point is out
-    //       of range?
-    if point > 0x10ffff {
+    //       of range, or a surrogate?
+    let Some(mut point) = CodePoint::from_u32(point) else {
         session.seek(bar);
 
         return WLCharacter::new('\\');
-    }
-
-    let mut point = CodePoint::from_u32(point).unwrap();
+    };
 
     //
     // Success!
-- 
2.43.0


From babb413051886a86640256946fdd9464cd24476c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:31 +0000
Subject: [PATCH 02/10] fix: an unterminated group in input that is not valid
 UTF-8 panicked the parser

---
 crates/wolfram-parser/src/parse.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/wolfram-parser/src/parse.rs b/crates/wolfram-parser/src/parse.rs
index 3f93e84..6325de6 100644
--- a/crates/wolfram-parser/src/parse.rs
+++ b/crates/wolfram-parser/src/parse.rs
@@ -1478,12 +1478,15 @@ impl<'i, B: ParseBuilder<'i> + 'i> ParserSession<'i, B> {
 
         self.pop_group();
 
-        // The input MUST be valid UTF-8, because we only reduce an *unterminated*
-        // group node if we've read an EOF (which is how we know it must be
-        // unterminated: we've read all the input).
-        let input = std::str::from_utf8(self.input()).expect(
-            "cannot reparse unterminated group node: input is not valid UTF-8",
-        );
+        // Input that is not valid UTF-8 cannot be split into lines and
+        // reparsed, so keep the group as it was parsed.
+        let Ok(input) = std::str::from_utf8(self.input()) else {
+            return self.builder.reduce_group_missing_closer(
+                ctx_data,
+                op,
+                group_state,
+            );
+        };
 
         let tab_width = self.tokenizer.tab_width as usize;
 
-- 
2.43.0


From 8c545285c5551e610faa851f073e2137c33058f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:31 +0000
Subject: [PATCH 03/10] fix: the text of an unterminated token missed its last
 line, or panicked when only blank lines followed

---
 crates/wolfram-parser/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/error.rs b/crates/wolfram-parser/src/error.rs
index e5472b1..f6f7df6 100644
--- a/crates/wolfram-parser/src/error.rs
+++ b/crates/wolfram-parser/src/error.rs
@@ -156,7 +156,7 @@ fn reparse_unterminated_token_error_node<'i>(
 
             if first_chunk.len() > 1 {
                 components.extend(
-                    first_chunk[1..last_good_line_index]
+                    first_chunk[1..=last_good_line_index]
                         .iter()
                         .map(|line: &Line| line.content),
                 );
-- 
2.43.0


From 647133cfdbf4ffe92d4d592d15fb02bbf6db8617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:31 +0000
Subject: [PATCH 04/10] fix: unterminated tokens after non-ASCII text panicked
 with character index sources

---
 crates/wolfram-parser/src/error.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/wolfram-parser/src/error.rs b/crates/wolfram-parser/src/error.rs
index f6f7df6..8f7de1c 100644
--- a/crates/wolfram-parser/src/error.rs
+++ b/crates/wolfram-parser/src/error.rs
@@ -534,15 +534,20 @@ fn to_lines_and_expand_tabs(input: &str, _tab_width: u32) -> Vec<Line> {
 }
 
 fn StringLength(s: &str) -> usize {
-    // FIXME: StringLength is NOT equal to string byte count. StringLengh counts
-    //        WL characters (e.g. \[Alpha] counts as 1 character), but
-    //        String::len() counts bytes. This is wrong.
-    s.len()
+    // Character index sources count source characters, not bytes.
+    s.chars().count()
 }
 
 fn StringTake(s: &str, range: CharacterSpan) -> &str {
-    // FIXME: This treats WL characters as bytes.
-    &s[range.to_rust_range()]
+    let Range { start, end } = range.to_rust_range();
+
+    let byte_index = |char_index: usize| {
+        s.char_indices()
+            .nth(char_index)
+            .map_or(s.len(), |(index, _)| index)
+    };
+
+    &s[byte_index(start)..byte_index(end)]
 }
 
 //==========================================================
-- 
2.43.0


From 4e8b329d501241d5520929d088a73297cffe9404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:31 +0000
Subject: [PATCH 05/10] fix: a BOM in a line after an unterminated group opener
 panicked the parser

---
 crates/wolfram-parser/src/error.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/error.rs b/crates/wolfram-parser/src/error.rs
index 8f7de1c..1d89947 100644
--- a/crates/wolfram-parser/src/error.rs
+++ b/crates/wolfram-parser/src/error.rs
@@ -367,7 +367,12 @@ fn split_into_chunks<'s, 'i>(lines: &'s [Line<'i>]) -> Vec<&'s [Line<'i>]> {
 fn is_new_statement_line(line: &str) -> bool {
     debug_assert!(!line.contains(&['\r', '\n']));
 
-    let crate::NodeSeq(tokens) = crate::tokenize(line, &Default::default());
+    let Ok(crate::NodeSeq(tokens)) =
+        crate::tokenize_bytes(line.as_bytes(), &Default::default())
+    else {
+        // e.g. there is a BOM in this line
+        return false;
+    };
 
     let tokens: Vec<_> = tokens
         .into_iter()
-- 
2.43.0


From 2822710abcbfa049514b6b8416dadffa356cb721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:25 +0000
Subject: [PATCH 06/10] hook: verification access point behind
 cfg(codeparser_verif)

---
 crates/wolfram-parser/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/wolfram-parser/src/lib.rs b/crates/wolfram-parser/src/lib.rs
index 0f36c4c..7d0d6f5 100644
--- a/crates/wolfram-parser/src/lib.rs
+++ b/crates/wolfram-parser/src/lib.rs
@@ -109,6 +109,14 @@ pub mod macros;
 
 mod parse_cst;
 
+// Access to private items for the verification harness. Not part of the crate
+// unless built with `--cfg codeparser_verif`.
+#[cfg(codeparser_verif)]
+#[doc(hidden)]
+pub mod verif {
+    include!(env!("CODEPARSER_VERIF_HOOKS"));
+}
+
 //==========================================================
 // API
 //==========================================================
-- 
2.43.0


From f61dc8f67453593981fba0fe8ed305f2299746ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:30 +0000
Subject: [PATCH 07/10] fix: LineColumnSpan::overlaps missed spans that enclose
 the receiver

---
 crates/wolfram-parser/src/source.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/source.rs b/crates/wolfram-parser/src/source.rs
index be4c7ad..34d30f5 100644
--- a/crates/wolfram-parser/src/source.rs
+++ b/crates/wolfram-parser/src/source.rs
@@ -899,7 +899,8 @@ impl LineColumnSpan {
     pub fn overlaps(&self, cursor: LineColumnSpan) -> bool {
         let LineColumnSpan { start, end } = cursor;
 
-        self.contains(start) || self.contains(end)
+        // The last test is for a `cursor` that begins before and ends after self.
+        self.contains(start) || self.contains(end) || cursor.contains(self.start)
     }
 
     #[cfg_attr(not(debug_assertions), allow(dead_code))]
-- 
2.43.0


From 061f09b1d55e128d4cddade0d6e406c20585070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:17 +0000
Subject: [PATCH 08/10] fix: keep a leading # that does not start a #! line

With FirstLineBehavior::Check or ::Script, a first token # not followed
by ! was consumed by the shebang check and lost from the result.
---
 crates/wolfram-parser/src/tokenize/tokenizer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index 4dc8919..8116b67 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -175,6 +175,8 @@ impl<'i> Tokenizer<'i> {
                 // Handle the optional #! shebang
                 //
 
+                let mark = self.mark();
+
                 let mut peek = self.peek_token();
 
                 if peek.tok != TokenKind::Hash {
@@ -190,6 +192,8 @@ impl<'i> Tokenizer<'i> {
                 if peek.tok != TokenKind::Bang {
                     // not #!
 
+                    self.seek(mark);
+
                     return;
                 }
 
@@ -229,6 +233,8 @@ impl<'i> Tokenizer<'i> {
                 // Handle the #! shebang
                 //
 
+                let mark = self.mark();
+
                 let mut peek = self.peek_token();
 
                 if peek.tok != TokenKind::Hash {
@@ -248,6 +254,8 @@ impl<'i> Tokenizer<'i> {
                     // TODO: add to Issues
                     //
 
+                    self.seek(mark);
+
                     return;
                 }
 
-- 
2.43.0


From 05e4f1537b323b8c0c345ddbe71ace4d2c4cdd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:12 +0000
Subject: [PATCH 09/10] fix: printing \[RawDoubleQuote] and \[RawBackslash]
 panicked

Both decode to a StringMeta code point with Escape::Raw, which the
non-graphical Display of a Wolfram character passed on to encodeBytes.
---
 crates/wolfram-parser/src/byte_encoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/wolfram-parser/src/byte_encoder.rs b/crates/wolfram-parser/src/byte_encoder.rs
index 4f1ca1d..c38f074 100644
--- a/crates/wolfram-parser/src/byte_encoder.rs
+++ b/crates/wolfram-parser/src/byte_encoder.rs
@@ -15,6 +15,11 @@ pub(crate) fn encodeBytes(
             return Ok(());
         },
         //
+        // e.g., \[RawDoubleQuote] and \[RawBackslash]
+        //
+        StringMeta_DoubleQuote => stream.write_char('"'),
+        StringMeta_Backslash => stream.write_char('\\'),
+        //
         // e.g., GTest was trying to print
         //
         Unsafe1ByteUtf8Sequence
-- 
2.43.0


From e4a5b1fd19664fd606c07622a3aa93dbc1c47db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:07 +0000
Subject: [PATCH 10/10] fix: accept \[InvisibleComma] in CommaParselet's debug
 assertion

---
 crates/wolfram-parser/src/parse/parselet.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/parse/parselet.rs b/crates/wolfram-parser/src/parse/parselet.rs
index d38fba2..bbf4ac6 100644
--- a/crates/wolfram-parser/src/parse/parselet.rs
+++ b/crates/wolfram-parser/src/parse/parselet.rs
@@ -1795,7 +1795,10 @@ impl<'i, B: ParseBuilder<'i> + 'i> InfixParselet<'i, B> for CommaParselet {
     ) -> B::Node {
         panic_if_aborted!();
 
-        debug_assert_eq!(tok_in.tok, TokenKind::Comma);
+        debug_assert!(matches!(
+            tok_in.tok,
+            TokenKind::Comma | TokenKind::LongName_InvisibleComma
+        ));
 
         let tok_in = session.push_syntax_and_next(tok_in);
 
-- 
2.43.0

