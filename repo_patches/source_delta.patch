From 96fd78f0e919d87a79aa0807ddcad4d8b28b7217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:54 +0000
Subject: [PATCH 1/3] fix: stop repeating when a repetition makes no progress

A repeated pattern that can match the empty string (`("a"?)*`,
`repeat_sep("", "")`) looped forever, allocating without bound. Do not try
the pattern again at the place where its last match started.
---
 src/parsers/repeat.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/parsers/repeat.rs b/src/parsers/repeat.rs
index 236d1c9..00082a3 100644
--- a/src/parsers/repeat.rs
+++ b/src/parsers/repeat.rs
@@ -100,6 +100,17 @@ where
         }
     }
 
+    /// Start position of the last `pattern` match, if any.
+    ///
+    /// Precondition: `pattern` is next.
+    fn last_pattern_start(&self) -> Option<usize> {
+        match self.sep_iters.len() {
+            0 => None,
+            1 => Some(self.start),
+            n => Some(self.sep_iters[n - 2].match_end()),
+        }
+    }
+
     /// Precondition: Either there are no iters or we just successfully
     /// backtracked the foremost iter.
     ///
@@ -114,6 +125,11 @@ where
 
             if self.is_pattern_next() {
                 let start = self.end();
+                if self.last_pattern_start() == Some(start) {
+                    // The last repetition and separator matched the empty
+                    // string. Trying again would make no progress, forever.
+                    return Err(Reported);
+                }
                 let iter = self.params.pattern.parse_iter(context, start)?;
                 self.pattern_iters.push(iter);
             }
-- 
2.43.0


From 2a9f8f708bdf5051d2317fe66c73d09523944e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:56 +0000
Subject: [PATCH 2/3] fix: let a section end at a blank line it starts with

A section is zero or more nonblank lines followed by a blank line, but one
that starts at a blank line swallowed it as part of its contents.
---
 src/parsers/lines.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsers/lines.rs b/src/parsers/lines.rs
index bc20a83..50439b3 100644
--- a/src/parsers/lines.rs
+++ b/src/parsers/lines.rs
@@ -84,6 +84,10 @@ impl Region for Section {
         // section at end of input. presumably not repeat forever. (why does
         // this not always hang forever if you try to use `sections`?)
         let source = context.source();
+        if source[start..].starts_with('\n') {
+            // zero nonblank lines, ending at a blank line
+            return Ok((start, start + 1));
+        }
         match source[start..].find("\n\n") {
             // ending at a blank line
             Some(index) => Ok((start + index + 1, start + index + 2)),
-- 
2.43.0


From f1a13e566d74c4123d6a6805bc955d05b544b41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:58 +0000
Subject: [PATCH 3/3] fix: describe digit_bin as a binary digit in errors

---
 src/parsers/chars.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/chars.rs b/src/parsers/chars.rs
index f2b50ef..7bd9d75 100644
--- a/src/parsers/chars.rs
+++ b/src/parsers/chars.rs
@@ -130,7 +130,7 @@ pub const digit: MapParser<CharParser, fn(char) -> usize> = MapParser {
 #[allow(non_upper_case_globals)]
 pub const digit_bin: MapParser<CharParser, fn(char) -> usize> = MapParser {
     inner: CharParser {
-        noun: "hexadecimal digit",
+        noun: "binary digit",
         predicate: |c| c.is_digit(2),
     },
     mapper: |c| c.to_digit(2).unwrap() as usize,
-- 
2.43.0

