From d9621bb2277cdd1e90612ecb8211749d45a2d6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:52 +0000
Subject: [PATCH 1/3] fix: report an End that does not match its frame in
 try_to_yamd

try_to_yamd documents UnbalancedOpStream for an End that does not match the
frame it closes, but silently dropped the frame and went on, so e.g.
Start(Document) Start(Paragraph) End(Bold) End(Document) was accepted.
---
 src/op/to_yamd.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/op/to_yamd.rs b/src/op/to_yamd.rs
index 4cc0629..aec60a3 100644
--- a/src/op/to_yamd.rs
+++ b/src/op/to_yamd.rs
@@ -430,8 +430,8 @@ pub fn try_to_yamd(ops: &[Op], source: &str) -> Result<Yamd, UnbalancedOpStream>
                             items.push(item);
                         }
                     }
-                    // coverage: defensive catchall for any (Node, Frame) mismatch; indicates a programmer or parser error
-                    _ => {}
+                    // an End that does not match the frame it closes
+                    _ => return Err(UnbalancedOpStream),
                 }
             }
         }
-- 
2.43.0


From 78ce15e7629054ebc2bc1452f1359c2d7ef5a19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:35 +0000
Subject: [PATCH 2/3] fix: escape paragraph text that starts like a heading of
 level 2 to 6

---
 src/nodes/paragraph.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nodes/paragraph.rs b/src/nodes/paragraph.rs
index 292814f..d53dd69 100644
--- a/src/nodes/paragraph.rs
+++ b/src/nodes/paragraph.rs
@@ -172,6 +172,11 @@ pub(crate) fn escape_leading_block_marker(s: String) -> String {
     if s.starts_with("- ")
         || s.starts_with("+ ")
         || s.starts_with("# ")
+        || s.starts_with("## ")
+        || s.starts_with("### ")
+        || s.starts_with("#### ")
+        || s.starts_with("##### ")
+        || s.starts_with("###### ")
         || s.starts_with("!!")
         || s.starts_with("---")
     {
-- 
2.43.0


From 588bd08f16cb20744f76181e24ffb50f8a7fda45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:47 +0000
Subject: [PATCH 3/3] fix: escape paragraph text that starts like an image

A paragraph of the text "!" and an anchor was printed as "![a](b)" and read
back as an image.
---
 src/nodes/paragraph.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nodes/paragraph.rs b/src/nodes/paragraph.rs
index d53dd69..4a5f182 100644
--- a/src/nodes/paragraph.rs
+++ b/src/nodes/paragraph.rs
@@ -178,6 +178,7 @@ pub(crate) fn escape_leading_block_marker(s: String) -> String {
         || s.starts_with("##### ")
         || s.starts_with("###### ")
         || s.starts_with("!!")
+        || s.starts_with("![")
         || s.starts_with("---")
     {
         format!("\\{}", s)
-- 
2.43.0

