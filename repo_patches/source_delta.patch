From eff5ae74a347d532549490d122b6a2c5d729e13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 1/5] fix: Full_Composition_Exclusion of surrogate code points
 panicked

---
 src/unicode/normalization.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/unicode/normalization.rs b/src/unicode/normalization.rs
index f902adf..d9c7478 100644
--- a/src/unicode/normalization.rs
+++ b/src/unicode/normalization.rs
@@ -116,7 +116,11 @@ pub(crate) fn singleton_decomposition(cp: u32) -> bool {
     let code_point = CodePoint::new(cp).unwrap();
     // Default value (the code point itself) is not singletons.
     let mut self_char = String::new();
-    self_char.push(std::char::from_u32(code_point.to_u32()).unwrap());
+    match std::char::from_u32(code_point.to_u32()) {
+        Some(ch) => self_char.push(ch),
+        // Surrogate code points have no decomposition.
+        None => return false,
+    }
     if code_point.dm() == self_char {
         return false;
     }
@@ -135,9 +139,11 @@ pub(crate) fn singleton_decomposition(cp: u32) -> bool {
 //          a starter decomposition.
 pub(crate) fn non_starter_decomposition(cp: u32) -> bool {
     let code_point = CodePoint::new(cp).unwrap();
-    let decomposed = canonical_decomposition(
-        vec![std::char::from_u32(code_point.to_u32()).unwrap()]
-    );
+    let decomposed = match std::char::from_u32(code_point.to_u32()) {
+        Some(ch) => canonical_decomposition(vec![ch]),
+        // Surrogate code points have no decomposition.
+        None => return false,
+    };
     if decomposed.len() > 1 && !starter(decomposed[0] as u32) {
         return true;
     }
-- 
2.43.0


From 2aa4cb74a65e949dc40cd8ec50c71fde646a5541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 2/5] fix: GB9c joined Indic consonants across other characters
 or without a linker between them

---
 src/unicode.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/unicode.rs b/src/unicode.rs
index ec8f089..e76374a 100644
--- a/src/unicode.rs
+++ b/src/unicode.rs
@@ -799,8 +799,14 @@ impl<'a> Iterator for BreakGraphemes<'a> {
                 _ri_count += 1;
             }
             // Prepare for GB9c
+            // Only Extend and Linker may stand between the two consonants, and
+            // the linker must follow the last consonant.
             if curr_ch.1.incb() == Incb::Consonant {
                 in_indic = true;
+                indic_linker = false;
+            } else if curr_ch.1.incb() == Incb::None {
+                in_indic = false;
+                indic_linker = false;
             }
             if in_indic == true && curr_ch.1.incb() == Incb::Linker {
                 indic_linker = true;
-- 
2.43.0


From e2b3bb1cbbbbe27098b2b0af40a1c68264a5b2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 3/5] fix: GB11 joined pictographs across characters other than
 Extend* ZWJ

---
 src/unicode.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/unicode.rs b/src/unicode.rs
index e76374a..23af629 100644
--- a/src/unicode.rs
+++ b/src/unicode.rs
@@ -791,8 +791,11 @@ impl<'a> Iterator for BreakGraphemes<'a> {
             let curr_ch = curr.unwrap();
             let next_ch = next.unwrap_or((self.slice.len(), '\u{0000}'));
             // Prepare for GB11
+            // Only Extend may stand between the pictograph and the ZWJ.
             if curr_ch.1.ext_pict() {
                 in_ext_pict = true;
+            } else if curr_ch.1.gcb() != Gcb::EX && curr_ch.1.gcb() != Gcb::ZWJ {
+                in_ext_pict = false;
             }
             // Prepare for GB12, GB13
             if curr_ch.1.gcb() == Gcb::RI {
@@ -852,6 +855,9 @@ impl<'a> Iterator for BreakGraphemes<'a> {
             // Do not break before extending characters or ZWJ.
             // GB9:       × (Extend | ZWJ)
             if seg::is_gb9(next_ch.1) {
+                if curr_ch.1.gcb() == Gcb::ZWJ {
+                    in_ext_pict = false;
+                }
                 curr = next;
                 next = iter.next();
                 continue;
-- 
2.43.0


From 1c15dc136d21f4d3dbabd04aad7bc0e2023f613c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:44 +0000
Subject: [PATCH 4/5] fix: long names of the general categories Pc and Pi were
 misspelt

---
 src/unicode/ucd/property_names.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unicode/ucd/property_names.rs b/src/unicode/ucd/property_names.rs
index c30b796..862eb80 100644
--- a/src/unicode/ucd/property_names.rs
+++ b/src/unicode/ucd/property_names.rs
@@ -80,7 +80,7 @@ pub(crate) fn gc_name(prop: Gc) -> PropertyName {
             abbr: "No",
         },
         Gc::Pc => PropertyName {
-            full: "Ctor_Punctuation",
+            full: "Connector_Punctuation",
             abbr: "Pc",
         },
         Gc::Pd => PropertyName {
@@ -96,7 +96,7 @@ pub(crate) fn gc_name(prop: Gc) -> PropertyName {
             abbr: "Pf",
         },
         Gc::Pi => PropertyName {
-            full: "Il_Punctuation",
+            full: "Initial_Punctuation",
             abbr: "Pi",
         },
         Gc::Po => PropertyName {
-- 
2.43.0


From 34ef850f85902207b329e15d91b74bcd72636211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:44 +0000
Subject: [PATCH 5/5] fix: long name of the combining class CCC133 is CCC133,
 RESERVED is only a comment in PropertyValueAliases

---
 src/unicode/ucd/property_names.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unicode/ucd/property_names.rs b/src/unicode/ucd/property_names.rs
index 862eb80..977c749 100644
--- a/src/unicode/ucd/property_names.rs
+++ b/src/unicode/ucd/property_names.rs
@@ -512,7 +512,7 @@ pub(crate) fn ccc_name(prop: Ccc) -> PropertyName {
             abbr: "CCC132",
         },
         Ccc::CCC133 => PropertyName {
-            full: "RESERVED",
+            full: "CCC133",
             abbr: "CCC133",
         },
         Ccc::ATBL => PropertyName {
-- 
2.43.0

