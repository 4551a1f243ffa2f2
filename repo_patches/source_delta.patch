From ca981bf399c5fb9cd96eb8fefc115147365bbec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 1/5] fix: decode surrogate pairs above U+1FFFF correctly

The base was combined with a bitwise or, which loses the carry: the pair
\ud840\udc00 decoded to U+10000 instead of U+20000.
---
 src/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index cc22cee..af9c349 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -1039,7 +1039,7 @@ pub(crate) const DECODED_SURROGATE_BASE: u32 = 0x1_0000;
 
 #[inline]
 pub(crate) fn merge_surrogate_pair(high: u32, low: u32) -> u32 {
-    DECODED_SURROGATE_BASE | ((high - HIGH_SURROGATE_MIN) * 0x400) | (low - LOW_SURROGATE_MIN)
+    DECODED_SURROGATE_BASE + ((high - HIGH_SURROGATE_MIN) * 0x400) + (low - LOW_SURROGATE_MIN)
 }
 struct StringParser;
 
-- 
2.43.0


From 0f6b340dea7172b996451b49e255d5a0f140d96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 2/5] fix: write unicode escapes most significant digit first

Control characters without a short escape were written with their nibbles
reversed, and the digits a-f as k-p: U+0001 became \u1000 and U+001F became
\up100, which is not JSON.
---
 src/string.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index af9c349..13224b2 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -865,9 +865,13 @@ impl<'a> Iterator for AsJson<'a> {
             } => match current_nibble {
                 Some(current_nibble) => {
                     #[allow(clippy::cast_possible_truncation)]
-                    let bits = *codepoint as u8 & 0xF;
-                    *codepoint >>= 4;
-                    let ch = if bits < 10 { bits + b'0' } else { bits + b'a' };
+                    let bits = (*codepoint >> 12) as u8 & 0xF;
+                    *codepoint <<= 4;
+                    let ch = if bits < 10 {
+                        bits + b'0'
+                    } else {
+                        bits - 10 + b'a'
+                    };
                     *current_nibble += 1;
                     if *current_nibble == 4 {
                         self.state = EscapeState::None;
-- 
2.43.0


From 9047f4c21dfabfae655a3d7e89f510da8cd778f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 3/5] fix: count the UTF-8 length of Latin-1 characters

U+0080 to U+00FF were counted as one byte when analyzing a raw string, so
len() and decoded_len() of such strings were too small.
---
 src/string.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index 13224b2..1924c50 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -803,7 +803,8 @@ impl<'a> Iterator for AsJson<'a> {
                 let ch = self.chars.next()?;
                 match u8::try_from(ch) {
                     Ok(b) if SAFE_STRING_BYTES[b as usize] => {
-                        self.info.add_bytes(1);
+                        // U+0080..=U+00FF also fit in a u8.
+                        self.info.add_bytes(ch.len_utf8());
                         Some(ch)
                     }
                     Ok(b'"' | b'\\' | b'/') => {
-- 
2.43.0


From aa55f84e4a19190f1aedb6f069f08388b1809ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 4/5] fix: compare decoded lengths of JSON and raw strings

The shortcut compared encoded lengths, so a JSON string which spells a
character differently than this crate would encode it was never equal to the
raw string it decodes to: "\u000a" and JsonString::from("\n").
---
 src/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 1924c50..cfb43bc 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -254,14 +254,14 @@ impl<'a, 'b> PartialEq<JsonString<'a>> for JsonString<'b> {
             }
             (StringContents::Raw(a), StringContents::Raw(b)) => a.as_ref() == b.as_ref(),
             (StringContents::Json(_), StringContents::Raw(b)) => {
-                if other.info.expected_length() == self.len() {
+                if other.decoded_len() == self.decoded_len() {
                     self == b.as_ref()
                 } else {
                     false
                 }
             }
             (StringContents::Raw(a), _) => {
-                if self.info.expected_length() == other.len() {
+                if self.decoded_len() == other.decoded_len() {
                     other == a.as_ref()
                 } else {
                     false
-- 
2.43.0


From 7940b455edafc8f50a31f8aee616d0f298a548c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 5/5] fix: account for escapes in the size hint of AsJson

The upper bound was that of the unescaped characters, fewer than the iterator
yields when a raw string needs escapes.
---
 src/string.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index cfb43bc..f889e27 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -888,7 +888,22 @@ impl<'a> Iterator for AsJson<'a> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.chars.size_hint()
+        let (lower, upper) = self.chars.size_hint();
+        let pending = match &self.state {
+            EscapeState::AlreadyEscaped => return (lower, upper),
+            EscapeState::None => 0,
+            EscapeState::Single(_) => 1,
+            EscapeState::Unicode { current_nibble, .. } => {
+                5 - current_nibble.map_or(0, |nibble| usize::from(nibble) + 1)
+            }
+        };
+        // Each remaining character may need a unicode escape (`\u0000`).
+        (
+            lower.saturating_add(pending),
+            upper
+                .and_then(|upper| upper.checked_mul(6))
+                .and_then(|upper| upper.checked_add(pending)),
+        )
     }
 }
 
-- 
2.43.0

