From becb88488d8e50cc820918229048954fad472fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 01/20] fix: byte classification tables cover byte 0xFF

---
 src/byte.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/byte.rs b/src/byte.rs
index e604a3d..6d8c83a 100644
--- a/src/byte.rs
+++ b/src/byte.rs
@@ -17,7 +17,7 @@
 //! Byte verification functions.
 
 /// Bytes allowed in non-quoted header fields.
-static HEADER_FIELDS: [bool; 255] = [
+static HEADER_FIELDS: [bool; 256] = [
 
 // NUL SOH    STX    ETX    EOT    ENQ    ACK    BEL    BS     TAB
 false, false, false, false, false, false, false, false, false, true,
@@ -86,12 +86,12 @@ true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
-true,  true, true,  true,  true,  true,  true
+true,  true, true,  true,  true,  true,  true,  true
 
 ];
 
 /// Bytes allowed in quoted header fields.
-static QUOTED_HEADER_FIELDS: [bool; 255] = [
+static QUOTED_HEADER_FIELDS: [bool; 256] = [
 
 // NUL SOH    STX    ETX    EOT    ENQ    ACK    BEL    BS     TAB
 false, false, false, false, false, false, false, false, false, true,
@@ -160,12 +160,12 @@ true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
-true,  true, true,  true,  true,  true,  true
+true,  true, true,  true,  true,  true,  true,  true
 
 ];
 
 /// Bytes that are considered tokens.
-static TOKENS: [bool; 255] = [
+static TOKENS: [bool; 256] = [
 
 // NUL SOH    STX    ETX    EOT    ENQ    ACK    BEL    BS     TAB
 false, false, false, false, false, false, false, false, false, false,
@@ -234,7 +234,7 @@ false, false, false, false, false, false, false, false, false, false,
 false, false, false, false, false, false, false, false, false, false,
 false, false, false, false, false, false, false, false, false, false,
 false, false, false, false, false, false, false, false, false, false,
-false, false, false, false, false, false, false
+false, false, false, false, false, false, false, false
 
 ];
 
-- 
2.43.0


From f21359126ef810f6d4475551b1a35ae8864666da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:15 +0000
Subject: [PATCH 02/20] fix: a new parser reports the state it is in

---
 src/http1/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index e95d2da..c8a7487 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -161,7 +161,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             byte_count:     0,
             length:         0,
             parser_type:    ParserType::Head,
-            state:          ParserState::StripDetect,
+            state:          ParserState::Detect1,
             state_function: Parser::detect1
         }
     }
-- 
2.43.0


From 4cb73060e0e5b563b86ef6bedbca2b8bcaf8d7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:19 +0000
Subject: [PATCH 03/20] fix: do not look at the first byte of an empty slice

---
 src/http1/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index c8a7487..7072b2c 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -482,6 +482,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             });
         }
 
+        exit_if_eos!(self, context);
+
         unsafe {
             if bs_starts_with1!(context, b"H") {
                 if bs_has_bytes!(context, 9) {
-- 
2.43.0


From f10c952b15a8447e79d707d9cb4711ebf6f73725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:22 +0000
Subject: [PATCH 04/20] fix: methods starting with H, HT, HTT or HTTP are
 delivered whole

---
 src/http1/parser.rs | 52 +++++++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 7072b2c..b42ee14 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -560,7 +560,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     }
 
     #[inline]
-    fn detect2(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect2(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -574,11 +574,16 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
+        // this is a request method that shares a prefix with the HTTP version
+        if context.byte == b' ' || (context.byte > 0x40 && context.byte < 0x5B) {
+            bs_replay!(context);
+
+            callback_transition!(
                 self,
+                handler,
                 context,
+                on_method,
+                b"H",
                 RequestMethod,
                 request_method
             );
@@ -588,7 +593,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     }
 
     #[inline]
-    fn detect3(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect3(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -602,11 +607,16 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
+        // this is a request method that shares a prefix with the HTTP version
+        if context.byte == b' ' || (context.byte > 0x40 && context.byte < 0x5B) {
+            bs_replay!(context);
+
+            callback_transition!(
                 self,
+                handler,
                 context,
+                on_method,
+                b"HT",
                 RequestMethod,
                 request_method
             );
@@ -616,7 +626,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     }
 
     #[inline]
-    fn detect4(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect4(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -630,11 +640,16 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
+        // this is a request method that shares a prefix with the HTTP version
+        if context.byte == b' ' || (context.byte > 0x40 && context.byte < 0x5B) {
+            bs_replay!(context);
+
+            callback_transition!(
                 self,
+                handler,
                 context,
+                on_method,
+                b"HTT",
                 RequestMethod,
                 request_method
             );
@@ -644,7 +659,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     }
 
     #[inline]
-    fn detect5(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect5(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -658,11 +673,16 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
+        // this is a request method that shares a prefix with the HTTP version
+        if context.byte == b' ' || (context.byte > 0x40 && context.byte < 0x5B) {
+            bs_replay!(context);
+
+            callback_transition!(
                 self,
+                handler,
                 context,
+                on_method,
+                b"HTTP",
                 RequestMethod,
                 request_method
             );
-- 
2.43.0


From 317067aa946826c48eaa3d7a0c224b8c175da2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:11 +0000
Subject: [PATCH 05/20] fix: a last chunk with extensions is followed by
 trailers, not data

---
 src/http1/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index b42ee14..c9d9b29 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -2186,6 +2186,16 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         bs_next!(context);
 
         if context.byte == b'\n' {
+            if self.length == 0 {
+                // the last chunk has no data, only trailers
+                transition!(
+                    self,
+                    context,
+                    HeaderCr2,
+                    header_cr2
+                );
+            }
+
             transition!(
                 self,
                 context,
-- 
2.43.0


From 7a129dae7357570a606c0313201e39f5285401ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:14 +0000
Subject: [PATCH 06/20] fix: a delimiter right after a partial delimiter ends
 the multipart data

---
 src/http1/parser.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index c9d9b29..f65d56b 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -2555,12 +2555,15 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         } else if get_lower14!(self) == 0 {
             // we're checking for the boundary within multipart data, but it's not the boundary,
             // so let's send the data to the callback and get back to parsing
+            // this byte is data as well, or the start of the next delimiter
+            bs_replay!(context);
+
             callback_transition!(
                 self,
                 handler,
                 context,
                 on_multipart_data,
-                &[b'\r', b'\n', context.byte],
+                b"\r\n",
                 MultipartDataByByte,
                 multipart_data_by_byte
             );
@@ -2585,12 +2588,15 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         } else if get_lower14!(self) == 0 {
             // we're checking for the boundary within multipart data, but it's not the boundary,
             // so let's send the data to the callback and get back to parsing
+            // this byte is data as well, or the start of the next delimiter
+            bs_replay!(context);
+
             callback_transition!(
                 self,
                 handler,
                 context,
                 on_multipart_data,
-                &[b'\r', b'\n', b'-', context.byte],
+                b"\r\n-",
                 MultipartDataByByte,
                 multipart_data_by_byte
             );
@@ -2875,12 +2881,15 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
+        // this byte is data as well, or the start of the next delimiter
+        bs_replay!(context);
+
         callback_transition!(
             self,
             handler,
             context,
             on_multipart_data,
-            &[b'\r', context.byte],
+            b"\r",
             MultipartDataByByte,
             multipart_data_by_byte
         );
-- 
2.43.0


From cced3d865dcf0f2a54e3b0964abc166e4b8513cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:29 +0000
Subject: [PATCH 07/20] fix: the bytes of a finished URL encoded body are
 counted once

---
 src/http1/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index f65d56b..b37919b 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -298,6 +298,9 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
                         self.state          = ParserState::BodyFinished;
                         self.state_function = Parser::body_finished;
 
+                        // parsing counts the whole stream index again
+                        self.byte_count -= length;
+
                         self.parse(&mut handler, &mut context)
                     } else {
                         self.length -= length;
-- 
2.43.0


From 405b0497bc1c87b83ec801aabfa34d26db270620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:29 +0000
Subject: [PATCH 08/20] fix: a stream identifier read byte by byte keeps its
 upper bytes

---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 5a926fe..29aaf96 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -411,7 +411,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
 
-        self.bit_data32b = (get_u8!(context) as u32) << 16;
+        self.bit_data32b |= (get_u8!(context) as u32) << 16;
 
         transition!(
             self,
@@ -426,7 +426,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
 
-        self.bit_data32b = (get_u8!(context) as u32) << 8;
+        self.bit_data32b |= (get_u8!(context) as u32) << 8;
 
         transition!(
             self,
-- 
2.43.0


From f294138a36ad732e5e3fbc8db499f9a00390c3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:31 +0000
Subject: [PATCH 09/20] fix: the last stream identifier of a go away frame can
 be read byte by byte

---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 29aaf96..2d772e4 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -658,8 +658,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         transition!(
             self,
             context,
-            GoAwayStreamId3,
-            go_away_stream_id3
+            GoAwayStreamId4,
+            go_away_stream_id4
         );
     }
 
-- 
2.43.0


From 9fc9f396b571819637c6e0b1755ea432dd6ef434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:32 +0000
Subject: [PATCH 10/20] fix: a settings value can be read byte by byte

---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 2d772e4..41515a7 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -1388,8 +1388,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         transition!(
             self,
             context,
-            SettingsValue3,
-            settings_value3
+            SettingsValue4,
+            settings_value4
         );
     }
 
-- 
2.43.0


From cc258e1b2e3dc3876d0824ac51fe47620c1f7766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:34 +0000
Subject: [PATCH 11/20] fix: frames with fields or padding longer than their
 payload are rejected

---
 src/http2/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 41515a7..905bea9 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -50,6 +50,11 @@ macro_rules! actual_length {
 /// Decrease payload length.
 macro_rules! dec_payload_length {
     ($parser:expr, $length:expr) => ({
+        if payload_length!($parser) < $length {
+            // the payload is too short for its fields
+            exit_error!(Dead);
+        }
+
         $parser.bit_data32a = ($parser.bit_data32a & 0xFF)
                             | (($parser.bit_data32a >> 8) - $length) << 8;
     });
@@ -88,6 +93,11 @@ macro_rules! payload_length {
 /// Parse payload data.
 macro_rules! parse_payload_data {
     ($parser:expr, $handler:expr, $context:expr, $callback:ident) => ({
+        if payload_length!($parser) < pad_length!($parser) {
+            // the padding is longer than the payload
+            exit_error!(Dead);
+        }
+
         if bs_available!($context) >= actual_length!($parser) as usize {
             // collect remaining data
             bs_jump!($context, actual_length!($parser) as usize);
-- 
2.43.0


From c26d9e7a7aa6a21491f7fc672a777230c61387a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:36 +0000
Subject: [PATCH 12/20] fix: reserved bits are not part of promised stream
 identifiers and window increments

---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 905bea9..a14a8a3 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -1184,7 +1184,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         // decrease payload by stream id (4)
         dec_payload_length!(self, 4);
 
-        if handler.on_push_promise(self.bit_data32b) {
+        if handler.on_push_promise(self.bit_data32b & 0x7FFFFFFF) {
             transition!(
                 self,
                 context,
@@ -1518,7 +1518,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn window_update_callback(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        if handler.on_window_update(self.bit_data32b) {
+        if handler.on_window_update(self.bit_data32b & 0x7FFFFFFF) {
             transition!(
                 self,
                 context,
-- 
2.43.0


From be3265143fff6e9deb7e01dd489505c2d0af48a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:55 +0000
Subject: [PATCH 13/20] fix: an empty payload and a promised stream are
 delivered without waiting for the next frame

---
 src/http2/parser.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index a14a8a3..63cc273 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -98,6 +98,10 @@ macro_rules! parse_payload_data {
             exit_error!(Dead);
         }
 
+        if actual_length!($parser) > 0 {
+            exit_if_eos!($parser, $context);
+        }
+
         if bs_available!($context) >= actual_length!($parser) as usize {
             // collect remaining data
             bs_jump!($context, actual_length!($parser) as usize);
@@ -601,8 +605,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn data_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -786,8 +788,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn go_away_debug_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -952,8 +952,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn headers_fragment(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -969,8 +967,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn ping_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -1179,8 +1175,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn push_promise_callback(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         // decrease payload by stream id (4)
         dec_payload_length!(self, 4);
 
@@ -1559,8 +1553,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn unsupported_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
-- 
2.43.0


From 4bf26eeddd464c45d8722f8c0d74ed4f8376a8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:57 +0000
Subject: [PATCH 14/20] fix: a headers frame without padding and priority is
 announced

---
 src/http2/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 63cc273..6aabb3f 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -495,7 +495,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
                 } else if has_flag!(self, FL_PRIORITY) {
                     set_state!(self, HeadersStreamId1, headers_stream_id1);
                 } else {
-                    set_state!(self, HeadersFragment, headers_fragment);
+                    set_state!(self, HeadersCallback, headers_callback);
                 }
             },
             FR_PRIORITY => {
-- 
2.43.0


From 93599337d9fed9e40b3324a615789d4cc2f6fa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:28 +0000
Subject: [PATCH 15/20] fix: a query name with a valid escape is not an error

---
 src/util/query.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/util/query.rs b/src/util/query.rs
index b863296..c6f7bc9 100644
--- a/src/util/query.rs
+++ b/src/util/query.rs
@@ -200,11 +200,13 @@ impl<'a> Iterator for QueryIterator<'a> {
                                 self.context,
                                 QueryError::Name
                             ));
-                        } else if bs_has_bytes!(self.context, 1) {
-                            bs_next!(self.context);
-                        }
+                        } else {
+                            if bs_has_bytes!(self.context, 1) {
+                                bs_next!(self.context);
+                            }
 
-                        submit_error!(self, QueryError::Name);
+                            submit_error!(self, QueryError::Name);
+                        }
                     },
                     b'+' => {
                         self.name.push(b' ');
-- 
2.43.0


From a8e6bcb1df5bbe777b53f6d18cc4759e078780d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:28 +0000
Subject: [PATCH 16/20] fix: an invalid escape ends the query iteration

---
 src/collect.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/collect.rs b/src/collect.rs
index 2b93e1c..298c401 100644
--- a/src/collect.rs
+++ b/src/collect.rs
@@ -95,9 +95,7 @@ macro_rules! collect_hex8_iter {
             } else if b'`' < $context.byte && $context.byte < b'g' {
                 ($context.byte - 0x57) << 4
             } else {
-                (*$iter.on_error)($error($context.byte));
-
-                return None;
+                submit_error!($iter, $error);
             } as u8
         )
         +
@@ -112,9 +110,7 @@ macro_rules! collect_hex8_iter {
                 } else if b'`' < $context.byte && $context.byte < b'g' {
                     $context.byte - 0x57
                 } else {
-                    (*$iter.on_error)($error($context.byte));
-
-                    return None;
+                    submit_error!($iter, $error);
                 } as u8
             )
         }
-- 
2.43.0


From 61e5db177b3984ec0c5ca3b7fd7584ad0b899fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:28 +0000
Subject: [PATCH 17/20] fix: a quoted field value may be followed by another
 field

---
 src/util/field.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/util/field.rs b/src/util/field.rs
index 8f26600..94e799b 100644
--- a/src/util/field.rs
+++ b/src/util/field.rs
@@ -237,12 +237,6 @@ impl<'a> Iterator for FieldIterator<'a> {
                                     submit_name_value!(self)
                                 );
 
-                                if bs_available!(self.context) == 0 {
-                                    submit_name_value!(self);
-                                }
-
-                                bs_next!(self.context);
-
                                 if self.context.byte == self.delimiter {
                                     submit_name_value!(self);
                                 }
-- 
2.43.0


From bf4f9448f7e390be62b9ac8bd51648b06a3c8657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:28 +0000
Subject: [PATCH 18/20] fix: a field value ending with a backslash is a value
 error

---
 src/util/field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/field.rs b/src/util/field.rs
index 94e799b..4009579 100644
--- a/src/util/field.rs
+++ b/src/util/field.rs
@@ -246,7 +246,7 @@ impl<'a> Iterator for FieldIterator<'a> {
                             } else if self.context.byte == b'\\' {
                                 // found backslash
                                 if bs_is_eos!(self.context) {
-                                    submit_error!(self, FieldError::Name);
+                                    submit_error!(self, FieldError::Value);
                                 }
 
                                 self.value.extend_from_slice(bs_slice_ignore!(self.context));
-- 
2.43.0


From a0a3d64311bdf167667907e8d5115d6b936b6208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:53 +0000
Subject: [PATCH 19/20] fix: a field name ending with an upper-cased byte or
 slash is kept

---
 src/util/field.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/util/field.rs b/src/util/field.rs
index 4009579..ba3027d 100644
--- a/src/util/field.rs
+++ b/src/util/field.rs
@@ -169,17 +169,17 @@ impl<'a> Iterator for FieldIterator<'a> {
         self.name.clear();
         self.value.clear();
 
-        loop {
-            // parsing name
-            consume_linear_space!(
-                self.context,
+        consume_linear_space!(
+            self.context,
 
-                // on end-of-stream
-                return None
-            );
+            // on end-of-stream
+            return None
+        );
 
-            bs_replay!(self.context);
+        bs_replay!(self.context);
 
+        loop {
+            // parsing name
             bs_mark!(self.context);
 
             collect_tokens!(
-- 
2.43.0


From baf8222887ea1be01ad22c988e19ccd2e65a37dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:53 +0000
Subject: [PATCH 20/20] fix: decoded bytes that are not UTF-8 do not make
 invalid strings

---
 src/util/decode.rs | 18 +++++++++---------
 src/util/mod.rs    | 40 +++++-----------------------------------
 2 files changed, 14 insertions(+), 44 deletions(-)

diff --git a/src/util/decode.rs b/src/util/decode.rs
index e7b8fc1..f4ec04c 100644
--- a/src/util/decode.rs
+++ b/src/util/decode.rs
@@ -96,13 +96,13 @@ impl fmt::Display for DecodeError {
 /// ```
 pub fn decode(encoded: &[u8]) -> Result<String, DecodeError> {
     macro_rules! submit {
-        ($string:expr, $slice:expr) => (unsafe {
-            $string.as_mut_vec().extend_from_slice($slice);
-        });
+        ($decoded:expr, $slice:expr) => (
+            $decoded.extend_from_slice($slice);
+        );
     }
 
     let mut context = ByteStream::new(encoded);
-    let mut string  = String::new();
+    let mut decoded = Vec::new();
 
     loop {
         bs_mark!(context);
@@ -117,22 +117,22 @@ pub fn decode(encoded: &[u8]) -> Result<String, DecodeError> {
             // on end-of-stream
             {
                 if context.mark_index < context.stream_index {
-                    submit!(string, bs_slice!(context));
+                    submit!(decoded, bs_slice!(context));
                 }
 
-                return Ok(string);
+                return Ok(String::from_utf8_lossy(&decoded).into_owned());
             }
         );
 
         if bs_slice_length!(context) > 1 {
-            submit!(string, bs_slice_ignore!(context));
+            submit!(decoded, bs_slice_ignore!(context));
         }
 
         if context.byte == b'+' {
-            submit!(string, b" ");
+            submit!(decoded, b" ");
         } else if context.byte == b'%' {
             if bs_has_bytes!(context, 2) {
-                submit!(string, &[
+                submit!(decoded, &[
                     collect_hex8!(context, DecodeError::HexSequence)
                 ]);
             } else {
diff --git a/src/util/mod.rs b/src/util/mod.rs
index ca22235..f0b71e2 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -28,50 +28,20 @@ macro_rules! submit_error {
 
 macro_rules! submit_name {
     ($iter:expr) => ({
-        return Some((
-            unsafe {
-                let mut s = String::with_capacity($iter.name.len());
-
-                s.as_mut_vec().extend_from_slice(&$iter.name);
-                s
-            },
-            None
-        ));
+        return Some((String::from_utf8_lossy(&$iter.name).into_owned(), None));
     });
 }
+
 macro_rules! submit_name_value {
     ($name:expr, $value:expr) => ({
         return Some((
-            unsafe {
-                let mut s = String::with_capacity($name.len());
-
-                s.as_mut_vec().extend_from_slice(&$name);
-                s
-            },
-            unsafe {
-                let mut s = String::with_capacity($value.len());
-
-                s.as_mut_vec().extend_from_slice(&$value);
-                Some(s)
-            }
+            String::from_utf8_lossy(&$name).into_owned(),
+            Some(String::from_utf8_lossy(&$value).into_owned())
         ));
     });
 
     ($iter:expr) => ({
-        return Some((
-            unsafe {
-                let mut s = String::with_capacity($iter.name.len());
-
-                s.as_mut_vec().extend_from_slice(&$iter.name);
-                s
-            },
-            unsafe {
-                let mut s = String::with_capacity($iter.value.len());
-
-                s.as_mut_vec().extend_from_slice(&$iter.value);
-                Some(s)
-            }
-        ));
+        submit_name_value!($iter.name, $iter.value)
     });
 }
 
-- 
2.43.0

