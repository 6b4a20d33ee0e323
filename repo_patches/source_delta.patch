From 828cde52a3a665930bc44cfaee974b4e54db173b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 1/3] fix: don't report valid text as part of a utf8 decode
 error at end of data

When malformed utf8 was within three bytes of the end of the data, it was
mistaken for a truncated code point, so the reported error range ran on to
the end of the data and covered valid text as well.
---
 src/utf8.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/utf8.rs b/src/utf8.rs
index dd260ea..93360b7 100644
--- a/src/utf8.rs
+++ b/src/utf8.rs
@@ -15,10 +15,11 @@ pub fn encode_from_str<'a>(input: &str, out_buffer: &'a mut [u8]) -> EncodeResul
 }
 
 pub fn decode_to_str<'a>(input: &[u8], out_buffer: &'a mut [u8], is_end: bool) -> DecodeResult<'a> {
-    // Find how much of the data is valid utf8.
-    let valid_up_to = match core::str::from_utf8(input) {
-        Ok(text) => text.len(),
-        Err(e) => e.valid_up_to(),
+    // Find how much of the data is valid utf8, and whether what follows is
+    // merely truncated (i.e. could become valid given more data).
+    let (valid_up_to, is_truncated) = match core::str::from_utf8(input) {
+        Ok(text) => (text.len(), false),
+        Err(e) => (e.valid_up_to(), e.error_len().is_none()),
     };
 
     // Copy over what we can.
@@ -27,12 +28,7 @@ pub fn decode_to_str<'a>(input: &[u8], out_buffer: &'a mut [u8], is_end: bool) -
 
     // Determine if there's an error.
     if bytes_copied < out_buffer.len() && bytes_copied == valid_up_to && valid_up_to < input.len() {
-        let trailing_bytes = input.len() - valid_up_to;
-        let byte = input[valid_up_to];
         // First we check if we're truncated.  If not, then it's an error.
-        let is_truncated = ((byte & 0b1110_0000) == 0b1100_0000 && trailing_bytes < 2)
-            || ((byte & 0b1111_0000) == 0b1110_0000 && trailing_bytes < 3)
-            || ((byte & 0b1111_1000) == 0b1111_0000 && trailing_bytes < 4);
         if !is_truncated {
             // Find the byte range of the error by finding the next valid
             // starting byte (or reaching end of input).
-- 
2.43.0


From 2456d09fb2fbc300a677971a75f4fd83ac5d4b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:31 +0000
Subject: [PATCH 2/3] fix: document the lossy encodings of Shift JIS

The module docs claimed that encoding to Shift JIS is lossless, but U+00A5,
U+203E, and U+2212 silently don't round trip.
---
 src/shiftjis_whatwg.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/shiftjis_whatwg.rs b/src/shiftjis_whatwg.rs
index f0e2418..12d2095 100644
--- a/src/shiftjis_whatwg.rs
+++ b/src/shiftjis_whatwg.rs
@@ -3,7 +3,10 @@
 //! There is a one-to-many mapping between Unicode and WHATWG Shift JIS.
 //! Therefore, decoding from WHATWG Shift JIS to `str` is lossy, because it
 //! throws away distinctions made in WHATWG Shift JIS that don't exist in
-//! Unicode.  Encoding from `str` to WHATWG Shift JIS, however, is lossless.
+//! Unicode.  Encoding from `str` to WHATWG Shift JIS, however, is lossless
+//! except for three code points that WHATWG dictates be encoded the same as
+//! similar ones: U+00A5 (encoded as U+005C), U+203E (encoded as U+007E), and
+//! U+2212 (encoded as U+FF0D).
 use core;
 use {DecodeError, DecodeErrorCause, DecodeResult, EncodeError, EncodeResult};
 
-- 
2.43.0


From a492446a6b6cb8b20a0be32b1f7f1203933a5170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 3/3] fix: don't validate all remaining input on every utf8
 decode call

decode_to_str() validated the whole of its input even when only a small
output buffer's worth of it could be used, so that decoding a text
piecewise took time quadratic in its length.  Only validate as much as
the output buffer can take.
---
 src/utf8.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utf8.rs b/src/utf8.rs
index 93360b7..d12ab54 100644
--- a/src/utf8.rs
+++ b/src/utf8.rs
@@ -17,7 +17,12 @@ pub fn encode_from_str<'a>(input: &str, out_buffer: &'a mut [u8]) -> EncodeResul
 pub fn decode_to_str<'a>(input: &[u8], out_buffer: &'a mut [u8], is_end: bool) -> DecodeResult<'a> {
     // Find how much of the data is valid utf8, and whether what follows is
     // merely truncated (i.e. could become valid given more data).
-    let (valid_up_to, is_truncated) = match core::str::from_utf8(input) {
+    //
+    // We never need to look further than the codepoint at the end of the
+    // output buffer.  Not doing so matters when the input is much larger than
+    // the buffer, since otherwise every call would validate all of it again.
+    let look_len = input.len().min(out_buffer.len().saturating_add(3));
+    let (valid_up_to, is_truncated) = match core::str::from_utf8(&input[..look_len]) {
         Ok(text) => (text.len(), false),
         Err(e) => (e.valid_up_to(), e.error_len().is_none()),
     };
-- 
2.43.0

