From 71e677e56b5464f3967011889af514aa7f21b78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 01/57] verif: step-counting hook behind cfg(yam_verif)

---
 yam-core/src/lib.rs            | 23 +++++++++++++++++++++++
 yam-core/src/parsing/source.rs |  8 ++++++++
 2 files changed, 31 insertions(+)

diff --git a/yam-core/src/lib.rs b/yam-core/src/lib.rs
index 8b61808..035a744 100644
--- a/yam-core/src/lib.rs
+++ b/yam-core/src/lib.rs
@@ -28,6 +28,7 @@
 //! - [`YamlOwned`](prelude::YamlOwned): The version of [`Yaml`](prelude::Yaml) which owns its data.
 //! - [`SpannedYaml`](prelude::SpannedYaml): The version of [`Yaml`](prelude::Yaml) which borrows its data and includes [`Span`](prelude::Span) information.
 #![no_std]
+#![allow(unexpected_cfgs)]
 extern crate alloc;
 extern crate core;
 
@@ -43,3 +44,25 @@ pub mod parsing;
 pub mod prelude;
 mod saphyr_emitter;
 mod util;
+
+/// Verification hook (`--cfg yam_verif`): counts the steps taken on a source.
+#[cfg(yam_verif)]
+#[doc(hidden)]
+pub mod verif {
+    use core::sync::atomic::{AtomicU64, Ordering};
+
+    /// Steps taken so far.
+    pub static STEPS: AtomicU64 = AtomicU64::new(0);
+    /// Number of steps after which [`tick`] panics.
+    pub static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
+
+    #[inline]
+    pub fn tick() {
+        let n = STEPS.load(Ordering::Relaxed) + 1;
+        STEPS.store(n, Ordering::Relaxed);
+        assert!(
+            n <= LIMIT.load(Ordering::Relaxed),
+            "yam_verif: step limit exceeded"
+        );
+    }
+}
diff --git a/yam-core/src/parsing/source.rs b/yam-core/src/parsing/source.rs
index cd7ce6a..259649b 100644
--- a/yam-core/src/parsing/source.rs
+++ b/yam-core/src/parsing/source.rs
@@ -264,10 +264,14 @@ impl StrSource<'_> {
 
 unsafe impl Source for StrSource<'_> {
     unsafe fn peek_unsafe(&self, n: usize) -> u8 {
+        #[cfg(yam_verif)]
+        crate::verif::tick();
         unsafe { *self.input.get_unchecked(self.pos + n) }
     }
 
     fn peek_checked(&self, n: usize) -> Option<u8> {
+        #[cfg(yam_verif)]
+        crate::verif::tick();
         self.input.get(self.pos + n).copied()
     }
 
@@ -284,6 +288,8 @@ unsafe impl Source for StrSource<'_> {
     }
 
     fn push_non_breakz_chr(&mut self, vec: &mut Vec<u8>) {
+        #[cfg(yam_verif)]
+        crate::verif::tick();
         let len = self.input[self.pos..]
             .iter()
             .position(|&c| is_break(c))
@@ -294,6 +300,8 @@ unsafe impl Source for StrSource<'_> {
     }
 
     fn skip(&mut self, n: usize) {
+        #[cfg(yam_verif)]
+        crate::verif::tick();
         self.pos += n;
     }
 
-- 
2.43.0


From f1f62c7c09606a873194fd48f54ebce37386b15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:10 +0000
Subject: [PATCH 02/57] fix: peek_char no longer reads past the end of the
 input

---
 yam-core/src/parsing/source.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/yam-core/src/parsing/source.rs b/yam-core/src/parsing/source.rs
index 259649b..57d0015 100644
--- a/yam-core/src/parsing/source.rs
+++ b/yam-core/src/parsing/source.rs
@@ -276,11 +276,14 @@ unsafe impl Source for StrSource<'_> {
     }
 
     fn peek_char(&self) -> char {
-        // TODO make it ACTUALLY safe
-        let mut bytes = unsafe {
-            str::from_utf8_unchecked(self.input.get_unchecked(self.pos..self.pos + 4)).chars()
-        };
-        bytes.next().unwrap_or('\u{FFFD}')
+        let rest = self.input.get(self.pos..).unwrap_or_default();
+        // A character takes at most 4 bytes, but there may be fewer than 4 left, and the last
+        // of them may belong to the next character.
+        rest[..rest.len().min(4)]
+            .utf8_chunks()
+            .next()
+            .and_then(|chunk| chunk.valid().chars().next())
+            .unwrap_or('\u{FFFD}')
     }
 
     fn buf_is_empty(&self) -> bool {
-- 
2.43.0


From 7ca85d9d2b367966241f16f77fcaa9fee0dfcf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:52 +0000
Subject: [PATCH 03/57] verif: count buf_is_empty steps too

---
 yam-core/src/parsing/source.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yam-core/src/parsing/source.rs b/yam-core/src/parsing/source.rs
index 57d0015..95d9dad 100644
--- a/yam-core/src/parsing/source.rs
+++ b/yam-core/src/parsing/source.rs
@@ -287,6 +287,8 @@ unsafe impl Source for StrSource<'_> {
     }
 
     fn buf_is_empty(&self) -> bool {
+        #[cfg(yam_verif)]
+        crate::verif::tick();
         self.pos >= self.input.len()
     }
 
-- 
2.43.0


From 9c26a43897e59fed320f427ab4a4c10bbcfd2923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 04/57] fix: a lone carriage return no longer makes the scanner
 loop forever

---
 yam-core/src/parsing/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 5c9bacd..b9b091d 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -827,7 +827,8 @@ impl<'input, S: Source> Scanner<'input, S> {
                 self.leading_whitespace = true;
                 self.src.skip(2);
             }
-            [b'\n', _] => {
+            // A lone carriage return is a line break too (YAML 1.2, 5.4).
+            [b'\n' | b'\r', _] => {
                 self.mark.pos += 1;
                 self.mark.col = 1;
                 self.mark.line += 1;
-- 
2.43.0


From 9197cd85a069490922f461d22ba6b640d03f6a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 05/57] fix: a NUL in a quoted scalar no longer makes the
 scanner loop forever

---
 yam-core/src/parsing/scanner.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index b9b091d..d476a72 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1122,7 +1122,9 @@ impl<'input, S: Source> Scanner<'input, S> {
                 ));
             }
 
-            if self.src.peek_checked(0).is_none() {
+            // Neither the end of the stream nor a NUL (which YAML does not allow) can be part of
+            // a quoted scalar.
+            if self.src.peekz(0) == b'\0' {
                 return Err(YamlError::new_str(
                     start_mark,
                     "while scanning a quoted scalar, found unexpected end of stream",
-- 
2.43.0


From 40b5f91da13cb9b515f32e243ad9b344ff3df543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 06/57] fix: a deeply indented block scalar at the end of input
 no longer loops forever

---
 yam-core/src/parsing/scanner.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index d476a72..6b7de67 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1715,8 +1715,9 @@ impl<'input, S: Source> Scanner<'input, S> {
                     // If we reached our indent, we can break. We must also break if we have
                     // reached content or EOF; that is, the buffer is not empty and the next
                     // character is not a space.
-                    if self.mark.col == indent
-                        || (!self.src.buf_is_empty() && self.src.peekz(0) != b' ')
+                    if self.mark.col >= indent
+                        || self.src.buf_is_empty()
+                        || self.src.peekz(0) != b' '
                     {
                         break;
                     }
-- 
2.43.0


From acc4ba97750d90967f9b3a41fbd65c44429f01c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:35 +0000
Subject: [PATCH 07/57] fix: decode multi-byte URI escapes in tags as UTF-8

---
 yam-core/src/parsing/scanner.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 6b7de67..13c5ec5 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1996,7 +1996,7 @@ impl<'input, S: Source> Scanner<'input, S> {
 
     fn scan_uri_escapes(&mut self, mark: &Marker) -> Result<Vec<u8>, YamlError> {
         let mut width = 0usize;
-        let mut code = 0u32;
+        let mut bytes = Vec::with_capacity(4);
         loop {
             // self.src.lookahead(3);
 
@@ -2024,16 +2024,13 @@ impl<'input, S: Source> Scanner<'input, S> {
                         ));
                     }
                 };
-                code = byte;
-            } else {
-                if byte & 0xc0 != 0x80 {
-                    return Err(YamlError::new_str(
-                        *mark,
-                        "while parsing a tag, found an incorrect trailing UTF-8 byte",
-                    ));
-                }
-                code = (code << 8) + byte;
+            } else if byte & 0xc0 != 0x80 {
+                return Err(YamlError::new_str(
+                    *mark,
+                    "while parsing a tag, found an incorrect trailing UTF-8 byte",
+                ));
             }
+            bytes.push(byte as u8);
 
             self.skip_n_non_blank(3);
 
@@ -2043,9 +2040,9 @@ impl<'input, S: Source> Scanner<'input, S> {
             }
         }
 
-        match char::from_u32(code) {
-            Some(ch) => Ok(ch.to_string().as_bytes().to_vec()),
-            None => Err(YamlError::new_str(
+        match core::str::from_utf8(&bytes) {
+            Ok(_) => Ok(bytes),
+            Err(_) => Err(YamlError::new_str(
                 *mark,
                 "while parsing a tag, found an invalid UTF-8 codepoint",
             )),
-- 
2.43.0


From 66ee51bccd3b1ce4bf84901e25a18bd5eefd5dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:35 +0000
Subject: [PATCH 08/57] fix: report a too large YAML version instead of
 overflowing

---
 yam-core/src/parsing/scanner.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 13c5ec5..44aedfc 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -2135,7 +2135,7 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn scan_version_directive_number(&mut self, mark: &Marker) -> Result<u8, YamlError> {
-        let mut val = 0;
+        let mut val = 0u8;
         let mut length = 0usize;
         while self.src.peekz(0).is_ascii_digit() {
             let digit = self.src.peekz(0) - b'0';
@@ -2146,7 +2146,15 @@ impl<'input, S: Source> Scanner<'input, S> {
                 ));
             }
             length += 1;
-            val = val * 10 + digit;
+            val = val
+                .checked_mul(10)
+                .and_then(|val| val.checked_add(digit))
+                .ok_or_else(|| {
+                    YamlError::new_str(
+                        *mark,
+                        "while scanning a YAML directive, found extremely long version number",
+                    )
+                })?;
             self.skip_non_blank();
         }
 
-- 
2.43.0


From 80516b9a6473fc7758ec85286cbfbf58e015eb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 09/57] fix: keep every TAG directive of a document and reject
 repeated handles

---
 yam-core/src/parsing/parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 6efa55c..6e54434 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -875,8 +875,8 @@ impl<'input, T: Source> Parser<'input, T> {
 
     fn parser_process_directives(&mut self) -> Result<(), YamlError> {
         let mut version_directive_received = false;
+        let mut tags = BTreeMap::new();
         loop {
-            let mut tags = BTreeMap::new();
             match self.peek_token()? {
                 Token {
                     span,
@@ -895,6 +895,11 @@ impl<'input, T: Source> Parser<'input, T> {
                     }
                     version_directive_received = true;
                 }
+                // A reserved directive, which declares nothing.
+                Token {
+                    token_type: TokenType::TagDirective { handle, .. },
+                    ..
+                } if handle.is_empty() => {}
                 Token {
                     span,
                     token_type: TokenType::TagDirective { handle, prefix },
@@ -909,9 +914,9 @@ impl<'input, T: Source> Parser<'input, T> {
                 }
                 _ => break,
             }
-            self.tags = tags;
             self.skip();
         }
+        self.tags.extend(tags);
         Ok(())
     }
 
-- 
2.43.0


From c7eb8a66fa3b28ff3f73668472ff3cbb77856765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:13 +0000
Subject: [PATCH 10/57] fix: iterating over a stream no longer resolves aliases
 to anchors of earlier documents

---
 yam-core/src/parsing/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 6e54434..3f09b92 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -846,6 +846,8 @@ impl<'input, T: Source> Parser<'input, T> {
             }
             Token { span, .. } if implicit => {
                 self.parser_process_directives()?;
+                // Anchors do not outlive their document.
+                self.anchors.clear();
                 self.push_state(State::DocumentEnd);
                 self.state = State::BlockNode;
                 Ok((Event::DocumentStart(false), span))
@@ -930,6 +932,8 @@ impl<'input, T: Source> Parser<'input, T> {
                 span,
                 token_type: TokenType::DocumentStart,
             } => {
+                // Anchors do not outlive their document.
+                self.anchors.clear();
                 self.push_state(State::DocumentEnd);
                 self.state = State::DocumentContent;
                 self.skip();
-- 
2.43.0


From 930addfa54bb28a0dee9aebc6a613339a0043b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 11/57] fix: mapping keys that are tagged or bad values no
 longer shift the loaded entries

---
 yam-core/src/prelude/loader.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/yam-core/src/prelude/loader.rs b/yam-core/src/prelude/loader.rs
index 9ac7bbc..1362790 100644
--- a/yam-core/src/prelude/loader.rs
+++ b/yam-core/src/prelude/loader.rs
@@ -37,7 +37,8 @@ where
 {
     docs: Vec<Node>,
     doc_stack: Vec<(Node, usize, Option<Cow<'input, Tag>>)>,
-    key_stack: Vec<Node>,
+    /// For each open mapping, the key that still waits for its value.
+    key_stack: Vec<Option<Node>>,
     anchor_map: BTreeMap<usize, Node>,
 }
 
@@ -141,12 +142,9 @@ where
             } else if parent_node.is_mapping() {
                 let curr_key = self.key_stack.last_mut().unwrap();
 
-                if curr_key.is_bad_value() {
-                    *curr_key = node;
-                } else {
-                    parent_node
-                        .mapping_mut()
-                        .push_mapping(curr_key.take(), node);
+                match curr_key.take() {
+                    None => *curr_key = Some(node),
+                    Some(key) => parent_node.mapping_mut().push_mapping(key, node),
                 }
             }
         } else {
@@ -429,7 +427,7 @@ where
             Event::MappingStart(aid, tag) => {
                 let node: Node = YamlData::Mapping(Vec::new()).into();
                 self.doc_stack.push((node.with_start(mark), aid, tag));
-                self.key_stack.push(YamlData::BadValue.into());
+                self.key_stack.push(None);
             }
             Event::MappingEnd | Event::SequenceEnd => {
                 if ev == Event::MappingEnd {
-- 
2.43.0


From ef13575880a205e9c045ecf9a64fd7165f472eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:15 +0000
Subject: [PATCH 12/57] fix: mutable index of a mapping by number returns the
 value, not the key

---
 yam-core/src/node/yaml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/node/yaml.rs b/yam-core/src/node/yaml.rs
index 1f1f64e..89e95ea 100644
--- a/yam-core/src/node/yaml.rs
+++ b/yam-core/src/node/yaml.rs
@@ -383,7 +383,7 @@ where
                     .iter_mut()
                     .find(|x| x.key == ind)
                     .unwrap()
-                    .key
+                    .value
             }
             NodeType::Sequence => self.sequence_mut().index_mut(index),
             _ => panic!("Expected Mapping and Sequence got {0:?} instead", typ),
-- 
2.43.0


From 8fb16c61224a25ec0a9b03ad7dcc6542eb064dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:20 +0000
Subject: [PATCH 13/57] fix: a number with two signs, or a sign after its radix
 prefix, is a string

---
 yam-core/src/node/scalar.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/yam-core/src/node/scalar.rs b/yam-core/src/node/scalar.rs
index 092cc00..ff01c70 100644
--- a/yam-core/src/node/scalar.rs
+++ b/yam-core/src/node/scalar.rs
@@ -128,22 +128,18 @@ where
         let bytes = s.as_bytes();
 
         if bytes.len() >= 2 {
+            // A sign after the prefix (which `from_str_radix` would take) makes it no number.
             match (bytes[0], bytes[1]) {
-                (b'0', b'x') => {
+                (b'0', b'x') if bytes.get(2).is_some_and(u8::is_ascii_hexdigit) => {
                     if let Ok(i) = i64::from_str_radix(&s[2..], 16) {
                         return Self::Integer(i.into());
                     }
                 }
-                (b'0', b'o') => {
+                (b'0', b'o') if bytes.get(2).is_some_and(u8::is_ascii_digit) => {
                     if let Ok(i) = i64::from_str_radix(&s[2..], 8) {
                         return Self::Integer(i.into());
                     }
                 }
-                (b'+', _) => {
-                    if let Ok(i) = s[1..].parse::<i64>() {
-                        return Self::Integer(i.into());
-                    }
-                }
                 _ => {}
             }
         }
-- 
2.43.0


From 9e5932b7e112340df7700897e03a093ed80761f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 14/57] fix: an empty plain scalar resolves to null

---
 yam-core/src/node/scalar.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yam-core/src/node/scalar.rs b/yam-core/src/node/scalar.rs
index ff01c70..d987043 100644
--- a/yam-core/src/node/scalar.rs
+++ b/yam-core/src/node/scalar.rs
@@ -145,6 +145,7 @@ where
         }
 
         match bytes.len() {
+            0 => return Self::Null(PhantomData),
             1 if bytes[0] == b'~' => return Self::Null(PhantomData),
             4 => {
                 let f = bytes[0] & 0xDF;
-- 
2.43.0


From 13be070ad1937e92fe95aae5daab7882b589a73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:43 +0000
Subject: [PATCH 15/57] fix: explicit core tags accept every spelling of the
 core schema

---
 yam-core/src/node/scalar.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/yam-core/src/node/scalar.rs b/yam-core/src/node/scalar.rs
index d987043..488f5a8 100644
--- a/yam-core/src/node/scalar.rs
+++ b/yam-core/src/node/scalar.rs
@@ -90,16 +90,20 @@ where
         } else if let Some(tag) = tag {
             if tag.is_yaml_core_schema() {
                 match tag.suffix.as_ref() {
-                    "bool" => v.parse::<bool>().ok().map(|x| Self::Bool(x)),
-                    "int" => parse_i64_from_cow(&v).ok().map(|x| Self::Integer(x.into())),
+                    // An explicit tag takes what the implicit resolution takes.
+                    "bool" => match Self::parse_from_cow(v) {
+                        Self::Bool(x) => Some(Self::Bool(x)),
+                        _ => None,
+                    },
+                    "int" => match Self::parse_from_cow(v) {
+                        Self::Integer(x) => Some(Self::Integer(x)),
+                        _ => None,
+                    },
                     "float" => parse_core_schema_fp(&v).map(|x| Self::FloatingPoint(x.into())),
-                    "null" => {
-                        if ScalarValue::is_null_tagged(&v, &tag) {
-                            Some(Self::Null(PhantomData))
-                        } else {
-                            None
-                        }
-                    }
+                    "null" => match Self::parse_from_cow(v) {
+                        Self::Null(x) => Some(Self::Null(x)),
+                        _ => None,
+                    },
                     "str" => Some(Self::String(v.into())),
                     // If we have a tag we do not recognize, return `None`.
                     _ => None,
-- 
2.43.0


From 704af05c91f24fff7317b5d17eb80f899fa263cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:00 +0000
Subject: [PATCH 16/57] fix: load no longer recurses per nesting level and
 copes with comment events

---
 yam-core/src/parsing/parser.rs | 82 +++++-----------------------------
 1 file changed, 11 insertions(+), 71 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 3f09b92..58cdeda 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -648,6 +648,11 @@ impl<'input, T: Source> Parser<'input, T> {
                 recv.on_event(ev, span);
                 return Ok(());
             }
+            // A comment can stand between documents.
+            if let Event::Comment(_) = ev {
+                recv.on_event(ev, span);
+                continue;
+            }
             // clear anchors before a new document
             self.anchors.clear();
             self.load_document(ev, span, recv)?;
@@ -672,81 +677,16 @@ impl<'input, T: Source> Parser<'input, T> {
         }
         recv.on_event(first_ev, span);
 
-        let (ev, span) = self.next_event_impl()?;
-        self.load_node(ev, span, recv)?;
-
-        // DOCUMENT-END is expected.
-        let (ev, mark) = self.next_event_impl()?;
-        assert_eq!(ev, Event::DocumentEnd);
-        recv.on_event(ev, mark);
-
-        Ok(())
-    }
-
-    fn load_node<R: SpannedEventReceiver<'input>>(
-        &mut self,
-        first_ev: Event<'input>,
-        span: Span,
-        recv: &mut R,
-    ) -> Result<(), YamlError> {
-        match first_ev {
-            Event::Alias(..) | Event::Scalar(..) => {
-                recv.on_event(first_ev, span);
-                Ok(())
-            }
-            Event::SequenceStart(..) => {
-                recv.on_event(first_ev, span);
-                self.load_sequence(recv)
-            }
-            Event::MappingStart(..) => {
-                recv.on_event(first_ev, span);
-                self.load_mapping(recv)
-            }
-            _ => {
-                unreachable!();
+        loop {
+            let (ev, span) = self.next_event_impl()?;
+            let is_doc_end = ev == Event::DocumentEnd;
+            recv.on_event(ev, span);
+            if is_doc_end {
+                return Ok(());
             }
         }
     }
 
-    fn load_mapping<R: SpannedEventReceiver<'input>>(
-        &mut self,
-        recv: &mut R,
-    ) -> Result<(), YamlError> {
-        let (mut key_ev, mut key_mark) = self.next_event_impl()?;
-        while key_ev != Event::MappingEnd {
-            // key
-            self.load_node(key_ev, key_mark, recv)?;
-
-            // value
-            let (ev, mark) = self.next_event_impl()?;
-            self.load_node(ev, mark, recv)?;
-
-            // next event
-            let (ev, mark) = self.next_event_impl()?;
-            key_ev = ev;
-            key_mark = mark;
-        }
-        recv.on_event(key_ev, key_mark);
-        Ok(())
-    }
-
-    fn load_sequence<R: SpannedEventReceiver<'input>>(
-        &mut self,
-        recv: &mut R,
-    ) -> Result<(), YamlError> {
-        let (mut ev, mut mark) = self.next_event_impl()?;
-        while ev != Event::SequenceEnd {
-            self.load_node(ev, mark, recv)?;
-
-            // next event
-            let (next_ev, next_mark) = self.next_event_impl()?;
-            ev = next_ev;
-            mark = next_mark;
-        }
-        recv.on_event(ev, mark);
-        Ok(())
-    }
-
     fn state_machine<'a>(&mut self) -> ParseResult<'a>
     where
         'input: 'a,
-- 
2.43.0


From 2ca6dc3f83d990e16e891bedffa86a13620213f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 17/57] fix: load works after the stream start has been peeked
 at

---
 yam-core/src/parsing/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 58cdeda..4408843 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -626,7 +626,10 @@ impl<'input, T: Source> Parser<'input, T> {
     where
         R: SpannedEventReceiver<'input>,
     {
-        if !self.scanner.stream_start_produced {
+        // The stream start may have been peeked at.
+        if !self.scanner.stream_start_produced
+            || matches!(self.current, Some((Event::StreamStart, _)))
+        {
             let (ev, span) = self.next_event_impl()?;
             if ev != Event::StreamStart {
                 return Err(YamlError::new_str(
-- 
2.43.0


From 2e96083d5e8c54a680b37b727cc5f331745c250e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:36 +0000
Subject: [PATCH 18/57] fix: deserializing nested values no longer loses track
 of the event stream

---
 yam-serde/src/de.rs | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index bcbfe9d..9ef4163 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -33,14 +33,12 @@ impl<'a, R> YamIterDeserializer<'a, R>
 where
     R: Source,
 {
-    fn next_el(&mut self) -> Option<YamEvent<'a>> {
-        if self.has_peeked {
-            self.has_peeked = false;
-            return Some(self.last_event.clone());
+    /// The next event, which stays the next event until [`Self::skip`].
+    fn peek_el(&mut self) -> Option<YamEvent<'a>> {
+        if !self.has_peeked {
+            self.last_event = self.yaml_iter.next()?;
+            self.has_peeked = true;
         }
-
-        self.has_peeked = true;
-        self.last_event = self.yaml_iter.next()?;
         Some(self.last_event.clone())
     }
 
@@ -261,9 +259,7 @@ where
         }
         self.skip();
         let val = visitor.visit_seq(SeqCollection::new_seq(self))?;
-        if !matches!(self.last_event, YamEvent::SeqEnd)
-            && !matches!(self.next_el(), Some(YamEvent::SeqEnd))
-        {
+        if !matches!(self.peek_el(), Some(YamEvent::SeqEnd)) {
             return Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
                 expected: "SeqEnd",
                 found: self.last_event.as_simple_str(),
@@ -285,9 +281,7 @@ where
         }
         self.skip();
         let val = visitor.visit_map(SeqCollection::new_map(self))?;
-        if !matches!(self.last_event, YamEvent::MapEnd)
-            && !matches!(self.next_el(), Some(YamEvent::MapEnd))
-        {
+        if !matches!(self.peek_el(), Some(YamEvent::MapEnd)) {
             return Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
                 expected: "MapEnd",
                 found: self.last_event.as_simple_str(),
@@ -315,12 +309,13 @@ where
                 self.skip();
                 let value = visitor.visit_enum(Enum::new(self))?;
 
-                if !matches!(self.next_el(), Some(YamEvent::MapEnd)) {
+                if !matches!(self.peek_el(), Some(YamEvent::MapEnd)) {
                     return Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
                         found: self.last_event.as_simple_str(),
                         expected: "MapEnd",
                     }));
                 }
+                self.skip();
                 Ok(value)
             }
             _ => Err(DeYamlError::Custom("Expected enum".to_string())),
@@ -340,10 +335,10 @@ where
     R: Source,
 {
     fn skip_doc<'a>(&'a mut self) -> Option<YamEvent<'de>> {
-        match self.next_el() {
+        match self.peek_el() {
             Some(YamEvent::DocStart) => {
                 self.skip();
-                self.next_el()
+                self.peek_el()
             }
             ev => ev,
         }
@@ -413,7 +408,7 @@ where
     where
         T: DeserializeSeed<'de>,
     {
-        match self.iter.next_el() {
+        match self.iter.peek_el() {
             Some(YamEvent::SeqEnd) => Ok(None),
             Some(YamEvent::DocEnd | YamEvent::StreamEnd) | None => {
                 Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
@@ -436,7 +431,7 @@ where
     where
         K: DeserializeSeed<'de>,
     {
-        match self.iter.next_el() {
+        match self.iter.peek_el() {
             Some(YamEvent::MapEnd) => Ok(None),
             Some(YamEvent::DocEnd | YamEvent::StreamEnd) | None => {
                 Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
@@ -500,7 +495,7 @@ where
     type Error = DeYamlError;
 
     fn unit_variant(self) -> Result<(), Self::Error> {
-        todo!()
+        de::Deserialize::deserialize(&mut *self.de)
     }
 
     fn newtype_variant_seed<T>(self, seed: T) -> Result<T::Value, Self::Error>
-- 
2.43.0


From 60eb592dcd5522f693768d9285285703a425c0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 19/57] fix: a scalar is null exactly when it resolves to null

---
 yam-core/src/parsing/parser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 4408843..18568e9 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -7,7 +7,7 @@
 use crate::parsing::scanner::{Scanner, Token};
 pub(crate) use crate::parsing::source::{Source, StrSource};
 use crate::parsing::{Tag, TokenType};
-use crate::prelude::{Marker, ScalarType, Span, YamlError};
+use crate::prelude::{Marker, ScalarType, Span, YamlError, YamlScalar};
 use alloc::{
     borrow::Cow,
     collections::BTreeMap,
@@ -79,9 +79,10 @@ impl<'input> ScalarValue<'input> {
     #[doc(hidden)]
     #[must_use]
     pub fn is_null(&self) -> bool {
-        let dummy = Cow::Owned(Tag::empty());
-        let x = self.tag.as_ref().unwrap_or(&dummy);
-        Self::is_null_tagged(&self.value, x)
+        matches!(
+            YamlScalar::parse_from_scalar(self.clone()),
+            Some(YamlScalar::Null(_))
+        )
     }
 
     #[doc(hidden)]
-- 
2.43.0


From 5729a0e33e14a9a33daf0b1bbb09ff060bbcfeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 20/57] fix: newtype structs deserialize from their content

---
 yam-serde/src/de.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index 9ef4163..d7343cc 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -243,10 +243,21 @@ where
 
     forward_to_deserialize_any! {
         bool i128 u128 f32 f64 char str string
-        bytes byte_buf unit_struct newtype_struct tuple
+        bytes byte_buf unit_struct tuple
         tuple_struct struct ignored_any
     }
 
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     fn deserialize_seq<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
-- 
2.43.0


From 4cb534a2c4897815c52aa7df616c5df19f0400c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 21/57] fix: octal and hexadecimal integers deserialize into
 integer types

---
 yam-serde/src/de.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index d7343cc..6f89ecd 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -1,3 +1,4 @@
+use alloc::borrow::Cow;
 use alloc::format;
 use alloc::string::{String, ToString};
 use core::fmt::{Display, Formatter};
@@ -71,15 +72,22 @@ where
 }
 
 macro_rules! parse_from_cow {
-    ($e:expr, $v:expr, $method:ident, $t:ty) => {
-        match $e.parse::<$t>() {
-            Ok(i) => $v.$method(i),
-            Err(_) => Err(DeYamlError::Custom(format!(
+    ($e:expr, $v:expr, $method:ident, $t:ty) => {{
+        // Integers may also be written in base 8 or 16.
+        let parsed = $e.parse::<$t>().ok().or_else(|| {
+            match YamlScalar::<f64, i64>::parse_from_cow(Cow::Borrowed($e.as_ref())) {
+                YamlScalar::Integer(x) => <$t>::try_from(x).ok(),
+                _ => None,
+            }
+        });
+        match parsed {
+            Some(i) => $v.$method(i),
+            None => Err(DeYamlError::Custom(format!(
                 "Failed to parse {:?} from scalar value",
                 stringify!($t)
             ))),
         }
-    };
+    }};
 }
 
 impl<'de, R> de::Deserializer<'de> for &mut YamIterDeserializer<'de, R>
-- 
2.43.0


From 47112114ff17d1d257340881869e1683db511c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:00 +0000
Subject: [PATCH 22/57] fix: ParserIter reports aliases instead of silently
 dropping them

---
 yam-core/src/parsing/parser_iter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/parser_iter.rs b/yam-core/src/parsing/parser_iter.rs
index bb248be..aa21f97 100644
--- a/yam-core/src/parsing/parser_iter.rs
+++ b/yam-core/src/parsing/parser_iter.rs
@@ -130,7 +130,7 @@ impl<'de, R: Source> ParserIter<'de, R> {
         };
         match ev {
             // Ignored events
-            Event::Nothing | Event::Alias(_) | Event::Comment(_) => ControlFlow::Continue(()),
+            Event::Nothing | Event::Comment(_) => ControlFlow::Continue(()),
             // Unexpected events
             Event::StreamStart => ControlFlow::Break(Err(YamlError::UnExpectedEvent {
                 expected: "StreamStart",
@@ -150,6 +150,7 @@ impl<'de, R: Source> ParserIter<'de, R> {
                 ControlFlow::Break(Ok(YamEvent::DocEnd))
             }
 
+            Event::Alias(id) => ControlFlow::Break(Ok(YamEvent::Alias(id))),
             Event::Scalar(a) => ControlFlow::Break(Ok(YamEvent::Scalar(a))),
             Event::SequenceStart(alias, tag) => {
                 ControlFlow::Break(Ok(YamEvent::SeqStart(alias, tag)))
-- 
2.43.0


From ee863fdd90a080cf674dd9ca9a0abdbde046c7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 23/57] fix: strings are escaped, and only split where folding
 restores them, when serialized

---
 yam-serde/src/ser.rs | 68 +++++++++++++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 20 deletions(-)

diff --git a/yam-serde/src/ser.rs b/yam-serde/src/ser.rs
index 55bd3fb..5f205d1 100644
--- a/yam-serde/src/ser.rs
+++ b/yam-serde/src/ser.rs
@@ -9,15 +9,10 @@ use serde_core::{Serialize, ser};
 use unicode_segmentation::UnicodeSegmentation;
 
 trait YamlWhitespace {
-    fn is_splittable_ws(&self) -> bool;
     fn is_last_char_splittable_ws(&self) -> bool;
 }
 
 impl YamlWhitespace for str {
-    fn is_splittable_ws(&self) -> bool {
-        self.bytes().all(|c| c == b' ' || c == b'\n')
-    }
-
     fn is_last_char_splittable_ws(&self) -> bool {
         self.bytes()
             .last()
@@ -107,6 +102,8 @@ where
         self.write_indentors(self.current_depth)
     }
 
+    /// Writes `str` as a double-quoted scalar, which may be split over several lines. A line is
+    /// only split at a space that folding the lines puts back.
     fn write_double_quote_multi(&mut self, str: &str) -> Result<(), Error> {
         self.write_char('"')?;
 
@@ -114,38 +111,39 @@ where
         let mut line_buff_len = 0;
         let word_bounds = str
             .split_word_bound_indices()
-            .map(|(_, word)| (word, word.graphemes(true).count()))
-            .collect::<Vec<(&str, usize)>>();
+            .map(|(pos, word)| (pos, word, word.graphemes(true).count()))
+            .collect::<Vec<(usize, &str, usize)>>();
 
-        for (word, grapheme_len) in word_bounds {
+        for (pos, word, grapheme_len) in word_bounds {
             if self.is_time_to_split(line_buff_len, grapheme_len) {
-                let word_is_splittable = word.is_splittable_ws();
-                let line_buff_is_splittable = line_buff.is_last_char_splittable_ws();
-
-                if line_buff_is_splittable {
+                if line_buff.is_last_char_splittable_ws()
+                    && can_end_line(&line_buff[..line_buff.len() - 1])
+                    && can_start_line(&str[pos..])
+                {
                     // Try to split line on existing buffer
                     let (line, nl) = line_buff.split_at(line_buff.len() - 1);
                     self.line_split_at(line, nl)?;
 
                     // Set current buffer to current word
                     line_buff.clear();
-                    line_buff.push_str(word);
+                    escape_word(&mut line_buff, word)?;
                     line_buff_len = grapheme_len;
-                } else if word_is_splittable {
+                } else if word == " "
+                    && can_end_line(&line_buff)
+                    && can_start_line(&str[pos + 1..])
+                {
                     // Try to split line on word
-                    let (front, nl) = word.split_at(0);
-                    self.line_split_at(&line_buff, nl)?;
+                    self.line_split_at(&line_buff, word)?;
 
                     line_buff.clear();
-                    line_buff.push_str(front);
-                    line_buff_len = front.len();
+                    line_buff_len = 0;
                 } else {
                     // Write the word to buffer
-                    line_buff.push_str(word);
+                    escape_word(&mut line_buff, word)?;
                     line_buff_len += grapheme_len;
                 }
             } else {
-                line_buff.push_str(word);
+                escape_word(&mut line_buff, word)?;
                 line_buff_len += grapheme_len;
             }
         }
@@ -160,6 +158,36 @@ where
     }
 }
 
+/// Lines lose the whitespace they end with, and an empty line stands for a line break.
+fn can_end_line(line: &str) -> bool {
+    !line.is_empty() && !line.ends_with([' ', '\t'])
+}
+
+/// Lines lose the whitespace they start with, and `---` and `...` at their start end the document.
+fn can_start_line(rest: &str) -> bool {
+    !rest.is_empty()
+        && !rest.starts_with([' ', '\t'])
+        && !rest.starts_with("---")
+        && !rest.starts_with("...")
+}
+
+/// Writes `word` the way it reads inside double quotes.
+fn escape_word<W: Write>(writer: &mut W, word: &str) -> Result<(), Error> {
+    for chr in word.chars() {
+        match chr {
+            '"' => writer.write_str("\\\"")?,
+            '\\' => writer.write_str("\\\\")?,
+            '\n' => writer.write_str("\\n")?,
+            '\r' => writer.write_str("\\r")?,
+            '\t' => writer.write_str("\\t")?,
+            '\u{2028}' | '\u{2029}' | '\u{FEFF}' => write!(writer, "\\u{:04x}", u32::from(chr))?,
+            _ if chr.is_control() => write!(writer, "\\x{:02x}", u32::from(chr))?,
+            _ => writer.write_char(chr)?,
+        }
+    }
+    Ok(())
+}
+
 pub(crate) fn escape_single_quotes<W: Write>(writer: &mut W, value: &str) -> Result<(), Error> {
     let bytes = value.as_bytes();
 
-- 
2.43.0


From bd72d1440bc53486f4800fd5cc87c7cf8305cbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:48 +0000
Subject: [PATCH 24/57] fix: floats serialize to a spelling that reads back as
 the same float

---
 yam-serde/src/ser.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/yam-serde/src/ser.rs b/yam-serde/src/ser.rs
index 5f205d1..4fb8c36 100644
--- a/yam-serde/src/ser.rs
+++ b/yam-serde/src/ser.rs
@@ -339,6 +339,22 @@ where
         write!(self.writer, "{value}")?;
         Ok(())
     }
+
+    fn serialize_float<T: Debug>(
+        &mut self,
+        value: T,
+        nan: bool,
+        infinite: bool,
+        negative: bool,
+    ) -> Result<(), Error> {
+        match (nan, infinite, negative) {
+            (true, _, _) => write!(self.writer, ".nan"),
+            (_, true, false) => write!(self.writer, ".inf"),
+            (_, true, true) => write!(self.writer, "-.inf"),
+            // Keeps the fraction, which tells a float from an integer.
+            _ => write!(self.writer, "{value:?}"),
+        }
+    }
 }
 
 impl<W> ser::Serializer for &mut YamSerializer<W>
@@ -395,23 +411,11 @@ where
     }
 
     fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
-        if v.is_nan() && v.is_sign_negative() {
-            write!(self.writer, "-")?;
-        }
-
-        write!(self.writer, "{v}")?;
-
-        Ok(())
+        self.serialize_float(v, v.is_nan(), v.is_infinite(), v.is_sign_negative())
     }
 
     fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
-        if v.is_nan() && v.is_sign_negative() {
-            write!(self.writer, "-")?;
-        }
-
-        write!(self.writer, "{v}")?;
-
-        Ok(())
+        self.serialize_float(v, v.is_nan(), v.is_infinite(), v.is_sign_negative())
     }
 
     fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
-- 
2.43.0


From 7596686a45ec12d3edb021ae00996a85b51e3060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 25/57] fix: control characters serialize as escapes

---
 yam-serde/src/ser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yam-serde/src/ser.rs b/yam-serde/src/ser.rs
index 4fb8c36..18c253c 100644
--- a/yam-serde/src/ser.rs
+++ b/yam-serde/src/ser.rs
@@ -419,6 +419,9 @@ where
     }
 
     fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
+        if v.is_control() || v == '\u{FEFF}' || v == '\u{2028}' || v == '\u{2029}' {
+            return self.serialize_str(v.encode_utf8(&mut [0; 4]));
+        }
         let string_chr = if v == '\'' { '"' } else { '\'' };
 
         self.writer.write_char(string_chr)?;
-- 
2.43.0


From b3504941d48700eb3145b28dd43dc9856b4391ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 26/57] fix: from_str reports syntax errors and content after
 the document

---
 yam-core/src/parsing/parser_iter.rs |  8 +++++
 yam-serde/src/de.rs                 | 48 +++++++++++++++++++++++++----
 yam-serde/src/lib.rs                |  3 +-
 3 files changed, 52 insertions(+), 7 deletions(-)

diff --git a/yam-core/src/parsing/parser_iter.rs b/yam-core/src/parsing/parser_iter.rs
index aa21f97..fad4f9d 100644
--- a/yam-core/src/parsing/parser_iter.rs
+++ b/yam-core/src/parsing/parser_iter.rs
@@ -72,6 +72,11 @@ where
             error: None,
         }
     }
+
+    /// The error that ended the iteration, if any did.
+    pub fn error(&self) -> Option<&YamlError> {
+        self.error.as_ref()
+    }
 }
 
 impl<'de, R> Iterator for ParserIter<'de, R>
@@ -81,6 +86,9 @@ where
     type Item = YamEvent<'de>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.error.is_some() {
+            return None;
+        }
         let res = loop {
             match self.state {
                 State::StreamStart => break self.process_start(),
diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index 6f89ecd..218f7e2 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -47,6 +47,41 @@ where
         self.has_peeked = false;
     }
 
+    /// The syntax error that ended the event stream, or else `err`.
+    pub(crate) fn error_or(&self, err: DeYamlError) -> DeYamlError {
+        match self.yaml_iter.error() {
+            Some(error) => DeYamlError::ParserError(error.clone()),
+            None => err,
+        }
+    }
+
+    /// Checks that nothing but the end of the only document is left.
+    pub(crate) fn finish(&mut self) -> Result<(), DeYamlError> {
+        let found = match self.peek_el() {
+            Some(YamEvent::DocEnd) => {
+                self.skip();
+                match self.peek_el() {
+                    None => {
+                        return self
+                            .yaml_iter
+                            .error()
+                            .cloned()
+                            .map_or(Ok(()), |e| Err(DeYamlError::ParserError(e)));
+                    }
+                    Some(ev) => ev,
+                }
+            }
+            Some(ev) => ev,
+            None => YamEvent::StreamEnd,
+        };
+        Err(
+            self.error_or(DeYamlError::ParserError(YamlError::UnExpectedEvent {
+                expected: "DocEnd",
+                found: found.as_simple_str(),
+            })),
+        )
+    }
+
     fn peek_null(&mut self) -> bool {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             scalar.is_null()
@@ -74,12 +109,13 @@ where
 macro_rules! parse_from_cow {
     ($e:expr, $v:expr, $method:ident, $t:ty) => {{
         // Integers may also be written in base 8 or 16.
-        let parsed = $e.parse::<$t>().ok().or_else(|| {
-            match YamlScalar::<f64, i64>::parse_from_cow(Cow::Borrowed($e.as_ref())) {
-                YamlScalar::Integer(x) => <$t>::try_from(x).ok(),
-                _ => None,
-            }
-        });
+        let parsed =
+            $e.parse::<$t>().ok().or_else(|| {
+                match YamlScalar::<f64, i64>::parse_from_cow(Cow::Borrowed($e.as_ref())) {
+                    YamlScalar::Integer(x) => <$t>::try_from(x).ok(),
+                    _ => None,
+                }
+            });
         match parsed {
             Some(i) => $v.$method(i),
             None => Err(DeYamlError::Custom(format!(
diff --git a/yam-serde/src/lib.rs b/yam-serde/src/lib.rs
index a63847d..40ece1a 100644
--- a/yam-serde/src/lib.rs
+++ b/yam-serde/src/lib.rs
@@ -66,7 +66,8 @@ where
     T: serde_core::de::Deserialize<'a>,
 {
     let mut de = crate::de::YamIterDeserializer::new(input);
-    let value = T::deserialize(&mut de)?;
+    let value = T::deserialize(&mut de).map_err(|err| de.error_or(err))?;
+    de.finish()?;
 
     Ok(value)
 }
-- 
2.43.0


From 2b5207bc35d4094d4fc9120060850bd9999f331f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:47 +0000
Subject: [PATCH 27/57] fix: whether a flow mapping is implicit is decided per
 flow collection

---
 yam-core/src/parsing/scanner.rs | 51 +++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 44aedfc..be487ea 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -83,6 +83,10 @@ enum ImplicitMappingState {
     ///
     /// Note that this state is not set immediately (we need to have encountered the `:` to know).
     Inside,
+    /// There is no implicit mapping, as the entry starts with a `?`.
+    Explicit,
+    /// There is no implicit mapping, as we are inside a `{`.
+    Impossible,
 }
 
 #[allow(clippy::struct_excessive_bools)] // TODO maybe too much bools?
@@ -101,7 +105,6 @@ pub struct Scanner<'input, S> {
     pub(crate) stream_start_produced: bool,
     pub(crate) stream_end_produced: bool,
     leading_whitespace: bool,
-    flow_mapping_started: bool,
 
     adjacent_value_allowed_at: usize,
     tokens_parsed: usize,
@@ -133,7 +136,6 @@ impl<'input, S: Source> Scanner<'input, S> {
             stream_start_produced: false,
             simple_key_allowed: true,
             leading_whitespace: true,
-            flow_mapping_started: false,
             stream_end_produced: false,
 
             adjacent_value_allowed_at: 0,
@@ -383,12 +385,12 @@ impl<'input, S: Source> Scanner<'input, S> {
         let start_mark = self.mark;
         self.skip_non_blank();
 
-        if token_type == TokenType::FlowMappingStart {
-            self.flow_mapping_started = true;
-        } else {
-            self.implicit_flow_mapping_states
-                .push(ImplicitMappingState::Possible);
-        }
+        self.implicit_flow_mapping_states
+            .push(if token_type == TokenType::FlowMappingStart {
+                ImplicitMappingState::Impossible
+            } else {
+                ImplicitMappingState::Possible
+            });
 
         self.skip_ws_to_eol(SkipTabs::Yes, false)?;
 
@@ -406,8 +408,8 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         if matches!(token_type, TokenType::FlowSequenceEnd) {
             self.end_implicit_mapping(self.mark);
-            self.implicit_flow_mapping_states.pop();
         }
+        self.implicit_flow_mapping_states.pop();
 
         let start_mark = self.mark;
         self.skip_non_blank();
@@ -423,16 +425,19 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn end_implicit_mapping(&mut self, mark: Marker) {
-        if let Some(implicit_mapping) = self.implicit_flow_mapping_states.last_mut()
-            && *implicit_mapping == ImplicitMappingState::Inside
-        {
-            self.flow_mapping_started = false;
-            *implicit_mapping = ImplicitMappingState::Possible;
-            let span = self.get_span(mark);
-            self.tokens.push_back(Token {
-                span,
-                token_type: TokenType::FlowMappingEnd,
-            });
+        match self.implicit_flow_mapping_states.last_mut() {
+            Some(implicit_mapping @ ImplicitMappingState::Inside) => {
+                *implicit_mapping = ImplicitMappingState::Possible;
+                let span = self.get_span(mark);
+                self.tokens.push_back(Token {
+                    span,
+                    token_type: TokenType::FlowMappingEnd,
+                });
+            }
+            Some(implicit_mapping @ ImplicitMappingState::Explicit) => {
+                *implicit_mapping = ImplicitMappingState::Possible;
+            }
+            _ => {}
         }
     }
 
@@ -545,7 +550,11 @@ impl<'input, S: Source> Scanner<'input, S> {
             );
         } else {
             // The scanner, upon emitting a `Key`, will prepend a `MappingStart` event.
-            self.flow_mapping_started = true;
+            if let Some(implicit_mapping) = self.implicit_flow_mapping_states.last_mut()
+                && *implicit_mapping == ImplicitMappingState::Possible
+            {
+                *implicit_mapping = ImplicitMappingState::Explicit;
+            }
         }
 
         self.remove_simple_key()?;
@@ -614,7 +623,7 @@ impl<'input, S: Source> Scanner<'input, S> {
         let sk = self.simple_keys.last().unwrap().clone();
         let start_mark = self.mark;
         let is_implicit_flow_mapping =
-            !self.implicit_flow_mapping_states.is_empty() && !self.flow_mapping_started;
+            self.implicit_flow_mapping_states.last() == Some(&ImplicitMappingState::Possible);
         if is_implicit_flow_mapping {
             *self.implicit_flow_mapping_states.last_mut().unwrap() = ImplicitMappingState::Inside;
         }
-- 
2.43.0


From 0dfb12349a03caf8abc1331aa46f8b189aa082d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 28/57] fix: an empty explicit key in a flow sequence no longer
 eats the token behind it

---
 yam-core/src/parsing/parser.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 18568e9..632751a 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -1491,7 +1491,6 @@ impl<'input, T: Source> Parser<'input, T> {
             token_type: TokenType::Value | TokenType::FlowEntry | TokenType::FlowSequenceEnd,
         } = *self.peek_token()?
         {
-            self.skip();
             self.state = State::FlowSequenceEntryMappingValue;
             Ok((Event::empty_scalar(), span))
         } else {
-- 
2.43.0


From 25a6a7a6b2cafe2eb2599c68ba81875cf0ab5f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:48 +0000
Subject: [PATCH 29/57] fix: a document marker ends a block scalar that is not
 indented

---
 yam-core/src/parsing/scanner.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index be487ea..574fd56 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1387,7 +1387,10 @@ impl<'input, S: Source> Scanner<'input, S> {
             return Ok(());
         }
 
-        if self.mark.col < indent && self.mark.col > self.indent {
+        if self.mark.col < indent
+            && self.mark.col > self.indent
+            && !(self.mark.col == 1 && self.src.next_is_document_indicator())
+        {
             return Err(YamlError::new_str(
                 self.mark,
                 "wrongly indented line in block scalar",
@@ -1399,7 +1402,7 @@ impl<'input, S: Source> Scanner<'input, S> {
         while self.mark.col == indent && self.src.peek_checked(0).is_some() {
             if indent == 1 {
                 // self.src.lookahead(4);
-                if self.next_is_document_end() {
+                if self.src.next_is_document_indicator() {
                     break;
                 }
             }
-- 
2.43.0


From 743cb48bcdbe1459696fa34a76d26a0913d7d17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:32 +0000
Subject: [PATCH 30/57] fix: a block scalar without content at the end of input
 keeps no line break it does not have

---
 yam-core/src/parsing/scanner.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 574fd56..b4dc128 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1368,14 +1368,15 @@ impl<'input, S: Source> Scanner<'input, S> {
                 ChompIndicator::Strip => Vec::new(),
                 // There was no newline after the chomping indicator.
                 _ if self.mark.line == start_mark.line => Vec::new(),
-                // We clip lines, and there was a newline after the chomping indicator.
-                // All other breaks are ignored.
-                ChompIndicator::Clip => chomping_break,
-                // We keep lines. There was a newline after the chomping indicator but nothing
-                // else.
-                ChompIndicator::Keep if trailing_breaks.is_empty() => chomping_break,
-                // Otherwise, the newline after chomping is ignored.
-                ChompIndicator::Keep => trailing_breaks,
+                // There is no content whose line break could be clipped.
+                ChompIndicator::Clip => Vec::new(),
+                // We keep lines. The last one may lack its line break.
+                ChompIndicator::Keep => {
+                    if self.mark.col > 1 {
+                        trailing_breaks.push(b'\n');
+                    }
+                    trailing_breaks
+                }
             };
             self.tokens.push_back(Token {
                 span: self.get_span(start_mark),
-- 
2.43.0


From 1e78d10e2b9ac7427fd5c9a706439a25bdd7311d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 31/57] fix: a word starting with '-' before a flow indicator
 may continue a plain scalar

---
 yam-core/src/parsing/scanner.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index b4dc128..48cd9ca 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -978,7 +978,11 @@ impl<'input, S: Source> Scanner<'input, S> {
                 break;
             }
 
-            if self.flow_level > 0 && self.src.peekz(0) == b'-' && is_flow(self.src.peekz(1)) {
+            if string.is_empty()
+                && self.flow_level > 0
+                && self.src.peekz(0) == b'-'
+                && is_flow(self.src.peekz(1))
+            {
                 return Err(YamlError::new_str(
                     self.mark,
                     "plain scalar cannot start with '-' followed by ,[]{}",
-- 
2.43.0


From 4087a886b90201b0294f4846d1738f1c068b9034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 32/57] fix: deeply nested flow collections no longer cost
 quadratic time

---
 yam-core/src/parsing/scanner.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 48cd9ca..2ef41ad 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1968,11 +1968,13 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn stale_simple_keys(&mut self) -> ScanResult {
+        // If not in a flow construct, simple keys cannot span multiple lines. In one there is
+        // nothing to do, and as many keys as there are flow levels.
+        if self.flow_level > 0 {
+            return Ok(());
+        }
         for sk in &mut self.simple_keys {
-            if sk.possible
-                // If not in a flow construct, simple keys cannot span multiple lines.
-                && self.flow_level == 0
-                    && (sk.mark.line < self.mark.line || sk.mark.pos + 1024 < self.mark.pos)
+            if sk.possible && (sk.mark.line < self.mark.line || sk.mark.pos + 1024 < self.mark.pos)
             {
                 if sk.required {
                     return Err(YamlError::new_str(self.mark, "simple key expect ':'"));
-- 
2.43.0


From 89c43384119b2319f90449305344350325aa2188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 33/57] fix: the end of the input is reported on its own line

---
 yam-core/src/parsing/scanner.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 2ef41ad..ce3f0fd 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -279,12 +279,6 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn fetch_stream_end(&mut self) -> ScanResult {
-        // force new line
-        if self.mark.col != 0 {
-            self.mark.col = 1;
-            self.mark.line += 1;
-        }
-
         // If the stream ended, we won't have more context. We can stall all the simple keys we
         // had. If one was required, however, that was an error and we must propagate it.
         for sk in &mut self.simple_keys {
-- 
2.43.0


From c1111acf5604d17176170cdbd865d4346ac5dba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 34/57] fix: a single pair in a flow sequence ends behind what
 it holds

---
 yam-core/src/parsing/parser.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 632751a..dfb15c4 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -7,7 +7,7 @@
 use crate::parsing::scanner::{Scanner, Token};
 pub(crate) use crate::parsing::source::{Source, StrSource};
 use crate::parsing::{Tag, TokenType};
-use crate::prelude::{Marker, ScalarType, Span, YamlError, YamlScalar};
+use crate::prelude::{ScalarType, Span, YamlError, YamlScalar};
 use alloc::{
     borrow::Cow,
     collections::BTreeMap,
@@ -117,7 +117,7 @@ enum State {
     FlowSequenceEntry,
     FlowSequenceEntryMappingKey,
     FlowSequenceEntryMappingValue,
-    FlowSequenceEntryMappingEnd(Marker),
+    FlowSequenceEntryMappingEnd,
     FlowMappingFirstKey,
     FlowMappingKey,
     FlowMappingValue,
@@ -728,7 +728,7 @@ impl<'input, T: Source> Parser<'input, T> {
 
             State::FlowSequenceEntryMappingKey => self.flow_sequence_entry_mapping_key(),
             State::FlowSequenceEntryMappingValue => self.flow_sequence_entry_mapping_value(),
-            State::FlowSequenceEntryMappingEnd(mark) => self.flow_sequence_entry_mapping_end(mark),
+            State::FlowSequenceEntryMappingEnd => self.flow_sequence_entry_mapping_end(),
             State::FlowMappingEmptyValue => self.flow_mapping_value(true),
 
             /* impossible */
@@ -1518,27 +1518,27 @@ impl<'input, T: Source> Parser<'input, T> {
                     token_type,
                     TokenType::FlowEntry | TokenType::FlowSequenceEnd
                 ) {
-                    self.state = State::FlowSequenceEntryMappingEnd(span.end);
+                    self.state = State::FlowSequenceEntryMappingEnd;
                     Ok((Event::empty_scalar(), span))
                 } else {
-                    self.push_state(State::FlowSequenceEntryMappingEnd(span.end));
+                    self.push_state(State::FlowSequenceEntryMappingEnd);
                     self.parse_node(false, false)
                 }
             }
             Token { span, .. } => {
-                self.state = State::FlowSequenceEntryMappingEnd(span.end);
+                self.state = State::FlowSequenceEntryMappingEnd;
                 Ok((Event::empty_scalar(), span))
             }
         }
     }
 
-    #[allow(clippy::unnecessary_wraps)]
-    fn flow_sequence_entry_mapping_end<'a>(&mut self, mark: Marker) -> ParseResult<'a>
+    fn flow_sequence_entry_mapping_end<'a>(&mut self) -> ParseResult<'a>
     where
         'input: 'a,
     {
+        let span = self.peek_token()?.span;
         self.state = State::FlowSequenceEntry;
-        Ok((Event::MappingEnd, Span::empty(mark)))
+        Ok((Event::MappingEnd, Span::empty(span.start)))
     }
 
     /// Resolve a tag from the handle and the suffix.
-- 
2.43.0


From 88d0d8245d87e4c23839b92417143c43fe46cf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 35/57] fix: a flow mapping with a trailing comma ends at its
 brace, not at the comma

---
 yam-core/src/parsing/parser.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index dfb15c4..2127280 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -1237,7 +1237,7 @@ impl<'input, T: Source> Parser<'input, T> {
                     span,
                     token_type: TokenType::FlowMappingEnd,
                 } => span,
-                Token { span, .. } => {
+                _ => {
                     if key_flow.is_non_first() {
                         match *self.peek_token()? {
                             Token {
@@ -1289,15 +1289,14 @@ impl<'input, T: Source> Parser<'input, T> {
                         return Ok((Event::empty_scalar(), span));
                     } else if let Token {
                         token_type: TokenType::FlowMappingEnd,
-                        ..
+                        span,
                     } = *self.peek_token()?
                     {
+                        span
                     } else {
                         self.push_state(State::FlowMappingEmptyValue);
                         return self.parse_node(false, false);
                     }
-
-                    span
                 }
             }
         };
-- 
2.43.0


From 09ba92b54c55bbcb87690e50b5d4ca28b34db22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 36/57] fix: no block mapping starts behind a tab on the line
 of its dash

---
 yam-core/src/parsing/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index ce3f0fd..385dd61 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -515,7 +515,8 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
 
         self.remove_simple_key()?;
-        self.simple_key_allowed = true;
+        // Tabs do not indent, so no block mapping can start behind them.
+        self.simple_key_allowed = !res.found_tabs();
 
         let span = self.get_span(mark);
         self.tokens.push_back(Token {
-- 
2.43.0


From 77352305176bfc48f8d5d49263741478f02c4846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 37/57] fix: a verbatim tag that names nothing is an error

---
 yam-core/src/parsing/scanner.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 385dd61..ab2a87b 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1595,6 +1595,12 @@ impl<'input, S: Source> Scanner<'input, S> {
                 "while scanning a verbatim tag, did not find the expected '>'",
             ));
         }
+        if string.is_empty() {
+            return Err(YamlError::new_str(
+                *start_mark,
+                "while scanning a verbatim tag, did not find a tag",
+            ));
+        }
         self.skip_non_blank();
 
         Ok(string)
-- 
2.43.0


From a8e2af5a6d8cb3788e35a89995eaec02cec28917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 38/57] fix: block scalars are not allowed in flow collections

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index ab2a87b..98f4809 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -357,7 +357,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             [b':' | b'?', x] if !is_blank_or_break(x) && self.flow_level == 0 => {
                 self.fetch_plain_scalar()
             }
-            [b'%' | b'@' | b'`', _] => {
+            [b'%' | b'@' | b'`' | b'|' | b'>', _] => {
                 let chr = self.src.peek_char();
                 Err(YamlError::new_str(
                     self.mark,
-- 
2.43.0


From 4cc3d0761d4cbea6a6b26d527e8aef256b990f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 39/57] fix: a tag directive needs white space between handle
 and prefix

---
 yam-core/src/parsing/scanner.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 98f4809..57cb8ed 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -2133,6 +2133,12 @@ impl<'input, S: Source> Scanner<'input, S> {
             .into();
 
         let n_blanks = self.src.skip_while_blank();
+        if n_blanks == 0 {
+            return Err(YamlError::new_str(
+                *mark,
+                "while scanning TAG, did not find expected whitespace",
+            ));
+        }
         self.mark.pos += n_blanks;
         self.mark.col += n_blanks as u32;
 
-- 
2.43.0


From db2ce836d69aff97b98d63a6faccdc90714722aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 40/57] fix: a value may be separated from its ':' by tabs

---
 yam-core/src/parsing/scanner.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 57cb8ed..75d2f6c 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1,6 +1,6 @@
 use crate::parsing::char_utils::{
-    as_hex, is_alpha, is_anchor_char, is_blank, is_blank_or_break, is_blank_or_breakz, is_break,
-    is_breakz, is_flow, is_tag_char, is_uri_char,
+    as_hex, is_anchor_char, is_blank, is_blank_or_break, is_blank_or_breakz, is_break, is_breakz,
+    is_flow, is_tag_char, is_uri_char,
 };
 use crate::parsing::source::Source;
 use crate::parsing::{ChompIndicator, ScanResult, TokenType, YamlResult};
@@ -625,17 +625,6 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         // Skip over ':'.
         self.skip_non_blank();
-        if self.src.peekz(0) == b'\t'
-            && !self
-                .skip_ws_to_eol(SkipTabs::Yes, false)?
-                .has_valid_yaml_ws()
-            && (self.src.peekz(0) == b'-' || is_alpha(self.src.peekz(0)))
-        {
-            return Err(YamlError::new_str(
-                self.mark,
-                "':' must be followed by a valid YAML whitespace",
-            ));
-        }
 
         if sk.possible {
             // insert simple key
@@ -696,7 +685,9 @@ impl<'input, S: Source> Scanner<'input, S> {
             }
             self.roll_one_col_indent();
 
-            self.simple_key_allowed = self.flow_level == 0;
+            // Tabs do not indent, so no block collection can start behind them.
+            self.simple_key_allowed =
+                self.flow_level == 0 && !self.skip_ws_to_eol(SkipTabs::Yes, false)?.found_tabs();
         }
         self.tokens.push_back(Token {
             span: Span::empty(start_mark),
-- 
2.43.0


From 8bd9c2c96388205e76396a693121ee7428971986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 41/57] fix: a key may be separated from its '?' by tabs

---
 yam-core/src/parsing/scanner.rs | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 75d2f6c..64cb8de 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -557,13 +557,12 @@ impl<'input, S: Source> Scanner<'input, S> {
         self.simple_key_allowed = self.flow_level == 0;
 
         self.skip_non_blank();
-        self.skip_yaml_whitespace()?;
-        if self.src.peekz(0) == b'\t' {
-            return Err(YamlError::new_str(
-                self.mark,
-                "tabs disallowed in this context",
-            ));
+        if self.skip_ws_to_eol(SkipTabs::Yes, false)?.found_tabs() {
+            // Tabs do not indent, so no block collection can start behind them.
+            self.simple_key_allowed = false;
         }
+        self.roll_one_col_indent();
+        self.skip_yaml_whitespace();
         let span = self.get_span(start_mark);
         self.tokens.push_back(Token {
             span,
@@ -573,14 +572,11 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     #[allow(clippy::cast_possible_truncation)]
-    fn skip_yaml_whitespace(&mut self) -> ScanResult {
-        let mut need_whitespace = true;
+    fn skip_yaml_whitespace(&mut self) {
         loop {
             match self.src.peekz(0) {
                 b' ' => {
                     self.skip_blank();
-
-                    need_whitespace = false;
                 }
                 b'\n' | b'\r' => {
                     // ? self.src.lookahead(2);
@@ -588,7 +584,6 @@ impl<'input, S: Source> Scanner<'input, S> {
                     if self.flow_level == 0 {
                         self.simple_key_allowed = true;
                     }
-                    need_whitespace = false;
                 }
                 b'#' => {
                     #[cfg(feature = "comment")]
@@ -606,12 +601,6 @@ impl<'input, S: Source> Scanner<'input, S> {
                 _ => break,
             }
         }
-
-        if need_whitespace {
-            Err(YamlError::new_str(self.mark, "expected whitespace"))
-        } else {
-            Ok(())
-        }
     }
 
     fn fetch_value(&mut self) -> ScanResult {
-- 
2.43.0


From be5f688d61f7c1a05658882e9ff79fec58f27962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:17 +0000
Subject: [PATCH 42/57] fix: an escaped line break does not hide that the
 closing quote is not indented

---
 yam-core/src/parsing/scanner.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 64cb8de..07a9782 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1135,6 +1135,8 @@ impl<'input, S: Source> Scanner<'input, S> {
             )?;
 
             match self.src.peekz(0) {
+                // Only an escaped line break can lie between the last check and the quote.
+                b'"' if !single && leading_blanks && self.mark.col < self.indent => continue,
                 b'\'' if single => break,
                 b'"' if !single => break,
                 _ => {}
-- 
2.43.0


From 1aae375295a5a1f8f9a00ada118cb14a54f80126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 43/57] fix: comment events no longer take the place of the
 nodes around them

---
 yam-core/src/parsing/parser.rs | 112 ++++++++-------------------------
 1 file changed, 27 insertions(+), 85 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 2127280..ee9869b 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -8,6 +8,8 @@ use crate::parsing::scanner::{Scanner, Token};
 pub(crate) use crate::parsing::source::{Source, StrSource};
 use crate::parsing::{Tag, TokenType};
 use crate::prelude::{ScalarType, Span, YamlError, YamlScalar};
+#[cfg(feature = "comment")]
+use alloc::collections::VecDeque;
 use alloc::{
     borrow::Cow,
     collections::BTreeMap,
@@ -123,8 +125,6 @@ enum State {
     FlowMappingValue,
     FlowMappingEmptyValue,
     End,
-    FlowMappingFirstKeyCont,
-    BlockMappingValueCont,
 }
 
 /// An event generated by the YAML parser.
@@ -285,6 +285,9 @@ pub struct Parser<'input, T: Source> {
     stream_end_emitted: bool,
     /// Make tags global across all documents.
     keep_tags: bool,
+    /// Comments that were met on the way to the next event, and that event.
+    #[cfg(feature = "comment")]
+    comments: VecDeque<(Event<'input>, Span)>,
 }
 
 ///
@@ -422,6 +425,8 @@ impl<'input, T: Source> Parser<'input, T> {
             tags: BTreeMap::new(),
             stream_end_emitted: false,
             keep_tags: false,
+            #[cfg(feature = "comment")]
+            comments: VecDeque::new(),
         }
     }
 
@@ -545,7 +550,15 @@ impl<'input, T: Source> Parser<'input, T> {
     fn peek_token(&mut self) -> Result<&Token<'_>, YamlError> {
         match self.token {
             None => {
-                self.token = Some(self.scan_next_token()?);
+                #[allow(unused_mut)]
+                let mut token = self.scan_next_token()?;
+                #[cfg(feature = "comment")]
+                while let TokenType::Comment(comment) = token.token_type {
+                    self.comments
+                        .push_back((Event::Comment(comment), token.span));
+                    token = self.scan_next_token()?;
+                }
+                self.token = Some(token);
                 Ok(self.token.as_ref().unwrap())
             }
             Some(ref tok) => Ok(tok),
@@ -604,10 +617,19 @@ impl<'input, T: Source> Parser<'input, T> {
     where
         'input: 'a,
     {
+        #[cfg(feature = "comment")]
+        if let Some(ev) = self.comments.pop_front() {
+            return Ok(ev);
+        }
         if self.state == State::End {
             return Ok((Event::StreamEnd, Span::empty(self.scanner.mark)));
         }
         let (ev, mark) = self.state_machine()?;
+        #[cfg(feature = "comment")]
+        if let Some(comment) = self.comments.pop_front() {
+            self.comments.push_back((ev, mark));
+            return Ok(comment);
+        }
         Ok((ev, mark))
     }
 
@@ -711,7 +733,6 @@ impl<'input, T: Source> Parser<'input, T> {
             State::BlockMappingFirstKey => self.block_mapping_key(true),
             State::BlockMappingKey => self.block_mapping_key(false),
             State::BlockMappingValue => self.block_mapping_value(true),
-            State::BlockMappingValueCont => self.block_mapping_value(false),
 
             State::BlockSequenceFirstEntry => self.block_sequence_entry(true),
             State::BlockSequenceEntry => self.block_sequence_entry(false),
@@ -720,7 +741,6 @@ impl<'input, T: Source> Parser<'input, T> {
             State::FlowSequenceEntry => self.flow_sequence_entry(false),
 
             State::FlowMappingFirstKey => self.flow_mapping_key(KeyFlow::FirstKey),
-            State::FlowMappingFirstKeyCont => self.flow_mapping_key(KeyFlow::FirstKeyContinue),
             State::FlowMappingKey => self.flow_mapping_key(KeyFlow::NonFirstKey),
             State::FlowMappingValue => self.flow_mapping_value(false),
 
@@ -773,11 +793,6 @@ impl<'input, T: Source> Parser<'input, T> {
                 self.skip();
                 Ok((Event::StreamEnd, span))
             }
-            #[cfg(feature = "comment")]
-            Token {
-                token_type: TokenType::Comment(..),
-                ..
-            } => self.extract_comment(),
             Token {
                 token_type:
                     TokenType::VersionDirective { .. }
@@ -803,22 +818,6 @@ impl<'input, T: Source> Parser<'input, T> {
         }
     }
 
-    #[cfg(feature = "comment")]
-    fn extract_comment<'a>(&mut self) -> ParseResult<'a>
-    where
-        'input: 'a,
-    {
-        if let Token {
-            span,
-            token_type: TokenType::Comment(comment),
-        } = self.fetch_token()
-        {
-            Ok((Event::Comment(comment), span))
-        } else {
-            unreachable!()
-        }
-    }
-
     fn parser_process_directives(&mut self) -> Result<(), YamlError> {
         let mut version_directive_received = false;
         let mut tags = BTreeMap::new();
@@ -1043,11 +1042,6 @@ impl<'input, T: Source> Parser<'input, T> {
                 self.state = State::IndentlessSequenceEntry;
                 Ok((Event::SequenceStart(anchor_id, tag), span))
             }
-            #[cfg(feature = "comment")]
-            Token {
-                token_type: TokenType::Comment(_),
-                ..
-            } => self.extract_comment(),
             Token {
                 token_type: TokenType::Scalar { .. },
                 ..
@@ -1123,17 +1117,6 @@ impl<'input, T: Source> Parser<'input, T> {
             let _ = self.peek_token()?;
 
             self.skip();
-
-            #[cfg(feature = "comment")]
-            if let Token {
-                token_type: TokenType::Comment(..),
-                ..
-            } = self.peek_token()?
-            {
-                // Ensure we don't skip next entry on repeat entry
-                self.state = State::BlockMappingKey;
-                return self.extract_comment();
-            }
         }
         match *self.peek_token()? {
             Token {
@@ -1170,11 +1153,6 @@ impl<'input, T: Source> Parser<'input, T> {
                 self.skip();
                 Ok((Event::MappingEnd, span))
             }
-            #[cfg(feature = "comment")]
-            Token {
-                token_type: TokenType::Comment(..),
-                ..
-            } => self.extract_comment(),
             Token { span, .. } => Err(YamlError::new_str(
                 span.start,
                 "while parsing a block mapping, did not find expected key",
@@ -1202,16 +1180,6 @@ impl<'input, T: Source> Parser<'input, T> {
                 // empty scalar
                 Ok((Event::empty_scalar(), span))
             } else {
-                #[cfg(feature = "comment")]
-                if let Token {
-                    token_type: TokenType::Comment(_),
-                    ..
-                } = *self.peek_token()?
-                {
-                    self.state = State::BlockMappingValueCont;
-                    return self.extract_comment();
-                }
-
                 self.push_state(State::BlockMappingKey);
                 self.parse_node(true, true)
             }
@@ -1253,12 +1221,8 @@ impl<'input, T: Source> Parser<'input, T> {
                         }
                     }
 
-                    if key_flow == KeyFlow::FirstKeyContinue
-                        || self.peek_token()?.token_type == TokenType::Key
-                    {
-                        if key_flow != KeyFlow::FirstKeyContinue {
-                            self.skip();
-                        }
+                    if self.peek_token()?.token_type == TokenType::Key {
+                        self.skip();
                         if let Token {
                             span,
                             token_type:
@@ -1268,16 +1232,6 @@ impl<'input, T: Source> Parser<'input, T> {
                             self.state = State::FlowMappingValue;
                             return Ok((Event::empty_scalar(), span));
                         }
-                        #[cfg(feature = "comment")]
-                        if let Token {
-                            token_type: TokenType::Comment(_),
-                            ..
-                        } = *self.peek_token()?
-                        {
-                            self.state = State::FlowMappingFirstKeyCont;
-                            return self.extract_comment();
-                        }
-
                         self.push_state(State::FlowMappingValue);
                         return self.parse_node(false, false);
                     } else if let Token {
@@ -1459,17 +1413,6 @@ impl<'input, T: Source> Parser<'input, T> {
                     self.state = State::BlockSequenceEntry;
                     Ok((Event::empty_scalar(), span))
                 } else {
-                    #[cfg(feature = "comment")]
-                    if let Token {
-                        token_type: TokenType::Comment(..),
-                        ..
-                    } = self.peek_token()?
-                    {
-                        self.push_state(State::BlockSequenceEntry);
-                        self.state = State::BlockNode;
-                        return self.extract_comment();
-                    }
-
                     self.push_state(State::BlockSequenceEntry);
                     self.parse_node(true, false)
                 }
@@ -1598,7 +1541,6 @@ impl<'input, T: Source> Parser<'input, T> {
 #[derive(PartialEq, Debug, Clone, Copy)]
 enum KeyFlow {
     FirstKey,
-    FirstKeyContinue,
     NonFirstKey,
 }
 
-- 
2.43.0


From a601f69dac7fb14271cc1f64e29bef8ebf6d46ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 44/57] fix: a comment behind a dash and a tab is accepted with
 comment events

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 07a9782..6ff9777 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -508,7 +508,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             ));
         }
 
-        self.skip_ws_to_eol(SkipTabs::No, res.has_valid_yaml_ws())?;
+        self.skip_ws_to_eol(SkipTabs::No, res.found_tabs() || res.has_valid_yaml_ws())?;
 
         if is_break(self.src.peekz(0)) || is_flow(self.src.peekz(0)) {
             self.roll_one_col_indent();
-- 
2.43.0


From 4254bd1c572ee0f24b514ae634d3b8e7b069e15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 45/57] fix: a comment may follow a tab on its line with
 comment events

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 6ff9777..01f7dbe 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -859,7 +859,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                 {
                     self.skip_ws_to_eol(SkipTabs::Yes, false)?;
                     // If we have content on that line with a tab, return an error.
-                    if !is_breakz(self.src.peekz(0)) {
+                    if !is_breakz(self.src.peekz(0)) && self.src.peekz(0) != b'#' {
                         return Err(YamlError::new_str(
                             self.mark,
                             "tabs disallowed within this context (block indentation)",
-- 
2.43.0


From e3cc0f076afa21dcbab774a8b2b68f53d19535e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:22 +0000
Subject: [PATCH 46/57] fix: a comment behind a tab ends a plain scalar

---
 yam-core/src/parsing/scanner.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 01f7dbe..1958fe0 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1031,9 +1031,11 @@ impl<'input, S: Source> Scanner<'input, S> {
                         self.skip_blank();
                     } else if self.mark.col < indent && self.src.peekz(0) == b'\t' {
                         // Tabs in an indentation columns are allowed if and only if the line is
-                        // empty. Skip to the end of the line.
-                        self.skip_ws_to_eol(SkipTabs::Yes, false)?;
-                        if !is_breakz(self.src.peekz(0)) {
+                        // empty. A comment ends the scalar.
+                        while is_blank(self.src.peekz(0)) {
+                            self.skip_blank();
+                        }
+                        if !is_breakz(self.src.peekz(0)) && self.src.peekz(0) != b'#' {
                             return Err(YamlError::new_str(
                                 start_mark,
                                 "while scanning a plain scalar, found a tab",
-- 
2.43.0


From 493218bc95a7ed7cb352f2a5b3e1fe5c5e5add1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:13 +0000
Subject: [PATCH 47/57] fix: deeply nested flow collections no longer cost
 quadratic time when keys are looked for

---
 yam-core/src/parsing/scanner.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 1958fe0..a481fff 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -203,14 +203,16 @@ impl<'input, S: Source> Scanner<'input, S> {
             if self.tokens.is_empty() {
                 need_more = true;
             } else {
-                need_more = false;
                 self.stale_simple_keys()?;
-                for sk in &self.simple_keys {
-                    if sk.possible && sk.token_number == self.tokens_parsed {
-                        need_more = true;
-                        break;
-                    }
-                }
+                // The keys are in the order of their tokens.
+                let next = self.tokens_parsed;
+                let first = self
+                    .simple_keys
+                    .partition_point(|sk| sk.token_number < next);
+                need_more = self.simple_keys[first..]
+                    .iter()
+                    .take_while(|sk| sk.token_number == next)
+                    .any(|sk| sk.possible);
             }
 
             if !need_more {
@@ -1933,11 +1935,13 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn increase_flow_level(&mut self) -> ScanResult {
-        self.simple_keys.push(SimpleKey::new(Marker {
+        let mut sk = SimpleKey::new(Marker {
             pos: 0,
             col: 0,
             line: 0,
-        }));
+        });
+        sk.token_number = self.tokens_parsed + self.tokens.len();
+        self.simple_keys.push(sk);
         self.flow_level = self
             .flow_level
             .checked_add(1)
-- 
2.43.0


From 4e4be8654d1c65d5abd36fa172d5e535feefac6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 48/57] fix: an indented word like a document marker does not
 end a plain scalar

---
 yam-core/src/parsing/scanner.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index a481fff..d84d08d 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -949,7 +949,9 @@ impl<'input, S: Source> Scanner<'input, S> {
         let mut end_mark = self.mark;
 
         loop {
-            let next_is_document_indicator = self.src.next_is_document_indicator();
+            // Document markers count only at the start of a line.
+            let next_is_document_indicator =
+                self.mark.col == 1 && self.src.next_is_document_indicator();
             if (self.leading_whitespace && next_is_document_indicator) || self.src.peekz(0) == b'#'
             {
                 break;
-- 
2.43.0


From b11430e287a1ff3abb16ace55e43f1f2d532e48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 49/57] fix: the content of a block scalar at the top level may
 start with a tab

---
 yam-core/src/parsing/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index d84d08d..e55dab3 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1323,7 +1323,8 @@ impl<'input, S: Source> Scanner<'input, S> {
             self.read_break(&mut chomping_break);
         }
 
-        if self.src.peekz(0) == b'\t' {
+        // Only at the top level content may not be indented.
+        if self.src.peekz(0) == b'\t' && self.indent > 0 {
             return Err(YamlError::new_str(
                 start_mark,
                 "a block scalar content cannot start with a tab",
-- 
2.43.0


From 11efcfeb1c239eeafd1553189a79b4c4e5e33be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 50/57] fix: the length of an implicit key is limited in
 characters, not in bytes

---
 yam-core/src/parsing/char_utils.rs |  5 +++++
 yam-core/src/parsing/scanner.rs    | 16 ++++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/char_utils.rs b/yam-core/src/parsing/char_utils.rs
index 356dd73..c89be56 100644
--- a/yam-core/src/parsing/char_utils.rs
+++ b/yam-core/src/parsing/char_utils.rs
@@ -29,6 +29,11 @@ pub(crate) fn is_uri_char(c: u8) -> bool {
     is_word_char(c) || b"#;/?:@&=+$,_.!~*\'()[]%".contains(&c)
 }
 
+/// Whether `c` is a byte of a UTF-8 sequence other than its first.
+pub(crate) fn is_utf8_continuation(c: u8) -> bool {
+    c & 0xC0 == 0x80
+}
+
 pub(crate) fn is_break(c: u8) -> bool {
     c == b'\r' || c == b'\n'
 }
diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index e55dab3..eac63c1 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1,6 +1,6 @@
 use crate::parsing::char_utils::{
     as_hex, is_anchor_char, is_blank, is_blank_or_break, is_blank_or_breakz, is_break, is_breakz,
-    is_flow, is_tag_char, is_uri_char,
+    is_flow, is_tag_char, is_uri_char, is_utf8_continuation,
 };
 use crate::parsing::source::Source;
 use crate::parsing::{ChompIndicator, ScanResult, TokenType, YamlResult};
@@ -53,6 +53,8 @@ struct SimpleKey {
     required: bool,
     token_number: usize,
     mark: Marker,
+    /// The scanner's `continuation_bytes` where the key starts.
+    continuation_bytes: usize,
 }
 
 impl SimpleKey {
@@ -62,6 +64,7 @@ impl SimpleKey {
             required: false,
             token_number: 0,
             mark,
+            continuation_bytes: 0,
         }
     }
 }
@@ -105,6 +108,8 @@ pub struct Scanner<'input, S> {
     pub(crate) stream_start_produced: bool,
     pub(crate) stream_end_produced: bool,
     leading_whitespace: bool,
+    /// How many bytes so far were not the first of their character.
+    continuation_bytes: usize,
 
     adjacent_value_allowed_at: usize,
     tokens_parsed: usize,
@@ -136,6 +141,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             stream_start_produced: false,
             simple_key_allowed: true,
             leading_whitespace: true,
+            continuation_bytes: 0,
             stream_end_produced: false,
 
             adjacent_value_allowed_at: 0,
@@ -833,6 +839,7 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn skip_non_blank(&mut self) {
+        self.continuation_bytes += usize::from(is_utf8_continuation(self.src.peekz(0)));
         self.src.skip(1);
 
         self.mark.pos += 1;
@@ -1966,7 +1973,11 @@ impl<'input, S: Source> Scanner<'input, S> {
             return Ok(());
         }
         for sk in &mut self.simple_keys {
-            if sk.possible && (sk.mark.line < self.mark.line || sk.mark.pos + 1024 < self.mark.pos)
+            // The length of a key is limited in characters, not in bytes.
+            let continuation_bytes = self.continuation_bytes - sk.continuation_bytes;
+            if sk.possible
+                && (sk.mark.line < self.mark.line
+                    || sk.mark.pos + 1024 + continuation_bytes < self.mark.pos)
             {
                 if sk.required {
                     return Err(YamlError::new_str(self.mark, "simple key expect ':'"));
@@ -1998,6 +2009,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                 required,
                 possible: true,
                 token_number: self.tokens_parsed + self.tokens.len(),
+                continuation_bytes: self.continuation_bytes,
             };
 
             self.simple_keys.pop();
-- 
2.43.0


From 2e8b822a74d0309731e425c905155464d4c204cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:06 +0000
Subject: [PATCH 51/57] fix: take a byte order mark at the start of the stream
 for no content

---
 yam-core/src/parsing/scanner.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index eac63c1..1f431e1 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -325,6 +325,11 @@ impl<'input, S: Source> Scanner<'input, S> {
 
     fn fetch_stream_start(&mut self) {
         let mark = self.mark;
+        // A byte order mark is no content, and takes no column.
+        if [0, 1, 2].map(|n| self.src.peekz(n)) == [0xEF, 0xBB, 0xBF] {
+            self.src.skip(3);
+            self.mark.pos += 3;
+        }
         self.indent = 0;
         self.stream_start_produced = true;
         self.simple_key_allowed = true;
-- 
2.43.0


From a191ab47ae3de48a0b5bfe7a5f0239e10b979c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:42 +0000
Subject: [PATCH 52/57] fix: take adjacent values on the lines behind a flow
 collection that is a key

---
 yam-core/src/parsing/scanner.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 1f431e1..294b9bf 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -422,12 +422,14 @@ impl<'input, S: Source> Scanner<'input, S> {
         self.skip_non_blank();
         self.skip_ws_to_eol(SkipTabs::Yes, false)?;
 
+        let span = self.get_span(start_mark);
+        self.tokens.push_back(Token { span, token_type });
+
         if self.flow_level > 0 {
+            // An adjacent value may also follow behind line breaks and comments.
+            self.skip_to_next_token()?;
             self.adjacent_value_allowed_at = self.mark.pos;
         }
-
-        let span = self.get_span(start_mark);
-        self.tokens.push_back(Token { span, token_type });
         Ok(())
     }
 
-- 
2.43.0


From 66e7684e5ef44441c52c1cebcac8bb8290f42062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:51 +0000
Subject: [PATCH 53/57] fix: ParserIter passes over comments around the
 document

---
 yam-core/src/parsing/parser_iter.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/yam-core/src/parsing/parser_iter.rs b/yam-core/src/parsing/parser_iter.rs
index fad4f9d..b01ed05 100644
--- a/yam-core/src/parsing/parser_iter.rs
+++ b/yam-core/src/parsing/parser_iter.rs
@@ -110,9 +110,19 @@ where
     }
 }
 impl<'de, R: Source> ParserIter<'de, R> {
+    /// The next event that is not ignored.
+    fn next_event(&mut self) -> Result<Event<'de>, YamlError> {
+        loop {
+            match self.parser.next_event_impl()?.0 {
+                Event::Nothing | Event::Comment(_) => {}
+                ev => return Ok(ev),
+            }
+        }
+    }
+
     pub(crate) fn process_start(&mut self) -> Result<YamEvent<'de>, YamlError> {
         // Expect a <stream-start>
-        let ev = self.parser.next_event_impl()?.0;
+        let ev = self.next_event()?;
         if ev != Event::StreamStart {
             return Err(YamlError::UnExpectedEvent {
                 expected: "StreamStart",
@@ -120,7 +130,7 @@ impl<'de, R: Source> ParserIter<'de, R> {
             });
         }
         // Expect a <doc-start>
-        let ev = self.parser.next_event_impl()?.0;
+        let ev = self.next_event()?;
         if !ev.is_doc_start() {
             return Err(YamlError::UnExpectedEvent {
                 expected: "DocStart",
@@ -172,8 +182,8 @@ impl<'de, R: Source> ParserIter<'de, R> {
     }
 
     pub(crate) fn finish_document(&mut self) -> Result<YamEvent<'de>, YamlError> {
-        // Expect a <stream-start>
-        let ev = self.parser.next_event_impl()?.0;
+        // Expect a <stream-end>
+        let ev = self.next_event()?;
         if ev != Event::StreamEnd {
             return Err(YamlError::UnExpectedEvent {
                 expected: "StreamStart",
-- 
2.43.0


From a5d52d1708a02348b5987ab11dbeda57a641c858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:15 +0000
Subject: [PATCH 54/57] fix: a NUL ends a comment, with the comment feature too

---
 yam-core/src/parsing/source.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/yam-core/src/parsing/source.rs b/yam-core/src/parsing/source.rs
index 95d9dad..f6bf5d8 100644
--- a/yam-core/src/parsing/source.rs
+++ b/yam-core/src/parsing/source.rs
@@ -127,10 +127,8 @@ pub unsafe trait Source {
     }
 
     fn skip_and_accumulate_to_eol(&mut self, accumulator: &mut Vec<u8>) {
-        while let Some(x) = self.peek_checked(0)
-            && !is_break(x)
-        {
-            accumulator.push(x);
+        while !is_breakz(self.peekz(0)) {
+            accumulator.push(self.peekz(0));
             self.skip(1);
         }
     }
-- 
2.43.0


From 303ebf3a9218913f69e67e0f6c776a49880d714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:57 +0000
Subject: [PATCH 55/57] fix: a NUL does not end a block scalar's header line

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 294b9bf..14c52d6 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1325,7 +1325,7 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
 
         // Check if we are at the end of the line.
-        if !is_breakz(self.src.peekz(0)) {
+        if !is_break(self.src.peekz(0)) && !self.src.buf_is_empty() {
             return Err(YamlError::new_str(
                 start_mark,
                 "while scanning a block scalar, did not find expected comment or line break",
-- 
2.43.0


From 4b10439675be8149708b48dbb2a8c2cd4c5191a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:18 +0000
Subject: [PATCH 56/57] fix: a comment behind a dash does not let a tab indent,
 with comment events

---
 yam-core/src/parsing/scanner.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 14c52d6..063a23b 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -525,7 +525,9 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         self.skip_ws_to_eol(SkipTabs::No, res.found_tabs() || res.has_valid_yaml_ws())?;
 
-        if is_break(self.src.peekz(0)) || is_flow(self.src.peekz(0)) {
+        // A comment that is told is still there, and nothing but a line break can follow it.
+        let c = self.src.peekz(0);
+        if is_break(c) || is_flow(c) || c == b'#' {
             self.roll_one_col_indent();
         }
 
-- 
2.43.0


From 15cf381af5f7667609707b89b606fdb1a97f17ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:22 +0000
Subject: [PATCH 57/57] fix: no block collection starts behind a tab that leads
 its line

---
 yam-core/src/parsing/scanner.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 063a23b..09411bc 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -884,6 +884,11 @@ impl<'input, S: Source> Scanner<'input, S> {
                         ));
                     }
                 }
+                // No block collection can start behind them either.
+                b'\t' if self.leading_whitespace && self.flow_level == 0 => {
+                    self.simple_key_allowed = false;
+                    self.skip_blank();
+                }
                 b'\t' | b' ' => self.skip_blank(),
                 b'\n' | b'\r' => {
                     // ? self.src.lookahead(2);
-- 
2.43.0

