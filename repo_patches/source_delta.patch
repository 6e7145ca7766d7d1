From bb6d3ef7c04d556895cd7eda7ec52c9a53083ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:40 +0000
Subject: [PATCH] fix: UTF-8 decoder takes invalid sequences near the end of
 the input for truncated ones

Whether the data after the valid part is a truncated codepoint was guessed
from the first byte and the number of bytes left.  That held back
sequences that can never become valid (e.g. C0, F5 or E0 80 at the end of the
input), and with is_end included unrelated valid text in the error range
(e.g. E3 41).  Use what core::str::from_utf8() reports instead.
---
 src/utf8.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/utf8.rs b/src/utf8.rs
index dd260ea..e2a162e 100644
--- a/src/utf8.rs
+++ b/src/utf8.rs
@@ -16,9 +16,11 @@ pub fn encode_from_str<'a>(input: &str, out_buffer: &'a mut [u8]) -> EncodeResul
 
 pub fn decode_to_str<'a>(input: &[u8], out_buffer: &'a mut [u8], is_end: bool) -> DecodeResult<'a> {
     // Find how much of the data is valid utf8.
-    let valid_up_to = match core::str::from_utf8(input) {
-        Ok(text) => text.len(),
-        Err(e) => e.valid_up_to(),
+    // If the rest is not valid, `is_truncated` tells whether it is merely the
+    // beginning of a codepoint that is cut off by the end of the input.
+    let (valid_up_to, is_truncated) = match core::str::from_utf8(input) {
+        Ok(text) => (text.len(), false),
+        Err(e) => (e.valid_up_to(), e.error_len().is_none()),
     };
 
     // Copy over what we can.
@@ -27,12 +29,7 @@ pub fn decode_to_str<'a>(input: &[u8], out_buffer: &'a mut [u8], is_end: bool) -
 
     // Determine if there's an error.
     if bytes_copied < out_buffer.len() && bytes_copied == valid_up_to && valid_up_to < input.len() {
-        let trailing_bytes = input.len() - valid_up_to;
-        let byte = input[valid_up_to];
-        // First we check if we're truncated.  If not, then it's an error.
-        let is_truncated = ((byte & 0b1110_0000) == 0b1100_0000 && trailing_bytes < 2)
-            || ((byte & 0b1111_0000) == 0b1110_0000 && trailing_bytes < 3)
-            || ((byte & 0b1111_1000) == 0b1111_0000 && trailing_bytes < 4);
+        // If we're not truncated, then it's an error.
         if !is_truncated {
             // Find the byte range of the error by finding the next valid
             // starting byte (or reaching end of input).
-- 
2.43.0

