From 885843afaa993ad7fcaafdede340de77a085d62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:53 +0000
Subject: [PATCH 1/5] fix: digit_bin fails with "expected binary digit", not
 "hexadecimal digit"

---
 src/parsers/chars.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/chars.rs b/src/parsers/chars.rs
index f2b50ef..7bd9d75 100644
--- a/src/parsers/chars.rs
+++ b/src/parsers/chars.rs
@@ -130,7 +130,7 @@ pub const digit: MapParser<CharParser, fn(char) -> usize> = MapParser {
 #[allow(non_upper_case_globals)]
 pub const digit_bin: MapParser<CharParser, fn(char) -> usize> = MapParser {
     inner: CharParser {
-        noun: "hexadecimal digit",
+        noun: "binary digit",
         predicate: |c| c.is_digit(2),
     },
     mapper: |c| c.to_digit(2).unwrap() as usize,
-- 
2.43.0


From 1e493c5e61cbe4aa9e7ce8fe371fce66f9861387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:53 +0000
Subject: [PATCH 2/5] fix: report an empty alternation with its own compile
 error message

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index c1e7fe8..8ea3859 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -422,7 +422,7 @@ macro_rules! aoc_parse_helper {
     // completely empty alternation; could technically be understood as never matching,
     // but it's not a useful thing to express, so reject.
     (@list [ ] [ ] [ ]) => {
-        ::core::compile_error("no arms in alternation")
+        ::core::compile_error!("no arms in alternation")
     };
 
     // end of alternation after comma
-- 
2.43.0


From 098ac1594ee3727fd75413f2f6d2477cac91191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:14 +0000
Subject: [PATCH 3/5] fix: a section that starts with a blank line has no lines
 and ends there

---
 src/parsers/lines.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsers/lines.rs b/src/parsers/lines.rs
index bc20a83..15728f5 100644
--- a/src/parsers/lines.rs
+++ b/src/parsers/lines.rs
@@ -84,6 +84,10 @@ impl Region for Section {
         // section at end of input. presumably not repeat forever. (why does
         // this not always hang forever if you try to use `sections`?)
         let source = context.source();
+        if source[start..].starts_with('\n') {
+            // no nonblank lines at all, just the blank line
+            return Ok((start, start + 1));
+        }
         match source[start..].find("\n\n") {
             // ending at a blank line
             Some(index) => Ok((start + index + 1, start + index + 2)),
-- 
2.43.0


From 995c15a0e737332cf4573b5209049a85fcc04693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:01 +0000
Subject: [PATCH 4/5] fix: a repetition stops once pattern and separator have
 matched nothing

---
 src/parsers/repeat.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/parsers/repeat.rs b/src/parsers/repeat.rs
index 236d1c9..222b5a0 100644
--- a/src/parsers/repeat.rs
+++ b/src/parsers/repeat.rs
@@ -100,6 +100,16 @@ where
         }
     }
 
+    // True if the last `pattern` and the `sep` after it both matched without
+    // consuming any input.
+    fn last_round_was_empty(&self) -> bool {
+        match self.sep_iters.len() {
+            0 => false,
+            1 => self.end() == self.start,
+            n => self.end() == self.sep_iters[n - 2].match_end(),
+        }
+    }
+
     /// Precondition: Either there are no iters or we just successfully
     /// backtracked the foremost iter.
     ///
@@ -113,6 +123,11 @@ where
             assert_eq!(self.sep_iters.len(), self.num_matches() / 2);
 
             if self.is_pattern_next() {
+                if self.last_round_was_empty() {
+                    // `pattern` and `sep` matched nothing here, and they would
+                    // go on doing so forever.
+                    return Err(Reported);
+                }
                 let start = self.end();
                 let iter = self.params.pattern.parse_iter(context, start)?;
                 self.pattern_iters.push(iter);
-- 
2.43.0


From 15f1cd66700b1b69ec46f89baae73a62e0bb5912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 5/5] fix: hash_map, btree_set and the like are Copy like other
 parsers

---
 src/parsers/collections.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parsers/collections.rs b/src/parsers/collections.rs
index 14af3ae..a47717f 100644
--- a/src/parsers/collections.rs
+++ b/src/parsers/collections.rs
@@ -6,11 +6,20 @@ use std::marker::PhantomData;
 use crate::parsers::map::{MapParser, Mapping};
 use crate::Parser;
 
-#[derive(Debug, Clone, Copy, Default)]
+#[derive(Debug, Default)]
 pub struct Collect<C> {
     phantom: PhantomData<fn() -> C>,
 }
 
+// Not derived: the derived impls would require the collection itself to be `Clone` and `Copy`.
+impl<C> Clone for Collect<C> {
+    fn clone(&self) -> Self {
+        *self
+    }
+}
+
+impl<C> Copy for Collect<C> {}
+
 impl<V, C> Mapping<(V,)> for Collect<C>
 where
     V: IntoIterator,
-- 
2.43.0

