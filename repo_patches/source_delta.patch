From 25e3a704e83d752fa1af03f082bc815c7e7230eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:15 +0000
Subject: [PATCH] fix: drop unfinished builders innermost first even if one of
 their drops panics

If dropping a Seq or Map builder panicked while the Deserializer discarded its
stack after a syntax error, the remaining builders were dropped by the Vec,
outermost first. Inner builders may borrow from outer ones, so their drop code
could access memory already freed.
---
 src/json/de.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/json/de.rs b/src/json/de.rs
index 926c3ee..fdf1d29 100644
--- a/src/json/de.rs
+++ b/src/json/de.rs
@@ -50,9 +50,21 @@ enum Layer<'a> {
 
 impl<'a, 'b> Drop for Deserializer<'a, 'b> {
     fn drop(&mut self) {
-        // Drop layers in reverse order.
-        while !self.stack.is_empty() {
-            self.stack.pop();
+        // Drop layers in reverse order. Inner layers borrow from outer ones, so
+        // this order needs to be kept up even if dropping some layer panics.
+        struct DropInReverse<'a, T>(&'a mut Vec<T>);
+
+        impl<'a, T> Drop for DropInReverse<'a, T> {
+            fn drop(&mut self) {
+                while !self.0.is_empty() {
+                    self.0.pop();
+                }
+            }
+        }
+
+        let stack = DropInReverse(&mut self.stack);
+        while !stack.0.is_empty() {
+            stack.0.pop();
         }
     }
 }
-- 
2.43.0

