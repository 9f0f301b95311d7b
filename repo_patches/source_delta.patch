From 26b102ba8aa020d202a6c66ba52e08f6674d551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 01/14] fix: write and read the metadata length only when the
 METADATA flag is set

A frame without metadata carried (and expected) a 3-byte metadata length although the METADATA
flag was clear, so frames of a conforming peer were misparsed; empty metadata was decoded as no
metadata.
---
 binate/src/frame/codec/payload.rs          | 21 +++++++++++++--------
 binate/src/frame/codec/request_channel.rs  | 21 +++++++++++++--------
 binate/src/frame/codec/request_fnf.rs      | 21 +++++++++++++--------
 binate/src/frame/codec/request_response.rs | 21 +++++++++++++--------
 binate/src/frame/codec/request_stream.rs   | 21 +++++++++++++--------
 binate/src/frame/codec/setup.rs            | 18 ++++++++++--------
 binate/src/frame/visit.rs                  | 10 +++++-----
 7 files changed, 80 insertions(+), 53 deletions(-)

diff --git a/binate/src/frame/codec/payload.rs b/binate/src/frame/codec/payload.rs
index 71033d5..4b81f63 100644
--- a/binate/src/frame/codec/payload.rs
+++ b/binate/src/frame/codec/payload.rs
@@ -91,20 +91,25 @@ impl Encode for PayloadFrame {
     fn encode(&self, buf: &mut BytesMut) {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::PAYLOAD.bits() | self.flags.bits());
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
+        let mut len = 6;
+
+        // len(metadata_len): 3 (present only if metadata is present)
+        if self.payload.has_metadata() {
+            len += 3;
+        }
+
         // len(payload)
-        9 + self.payload.len()
+        len += self.payload.len();
+        len
     }
 }
 
@@ -116,7 +121,7 @@ impl Decode for PayloadFrame {
         stream_id: u32,
         flags: Flags,
     ) -> Result<Self::Value> {
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags)?;
         Ok(PayloadFrame { stream_id, flags, payload })
     }
 }
diff --git a/binate/src/frame/codec/request_channel.rs b/binate/src/frame/codec/request_channel.rs
index a3942b2..aa7b39c 100644
--- a/binate/src/frame/codec/request_channel.rs
+++ b/binate/src/frame/codec/request_channel.rs
@@ -103,21 +103,26 @@ impl Encode for RequestChannelFrame {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_CHANNEL.bits() | self.flags.bits());
         buf.put_u32(self.initial_request_n);
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
         // len(initial_request_n): 4
+        let mut len = 10;
+
+        // len(metadata_len): 3 (present only if metadata is present)
+        if self.payload.has_metadata() {
+            len += 3;
+        }
+
         // len(payload)
-        13 + self.payload.len()
+        len += self.payload.len();
+        len
     }
 }
 
@@ -130,7 +135,7 @@ impl Decode for RequestChannelFrame {
         flags: Flags,
     ) -> Result<Self::Value> {
         let initial_request_n = eat_u31(buf)?;
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags)?;
         Ok(RequestChannelFrame {
             stream_id,
             flags,
diff --git a/binate/src/frame/codec/request_fnf.rs b/binate/src/frame/codec/request_fnf.rs
index fedc700..747996c 100644
--- a/binate/src/frame/codec/request_fnf.rs
+++ b/binate/src/frame/codec/request_fnf.rs
@@ -75,20 +75,25 @@ impl Encode for RequestFnfFrame {
     fn encode(&self, buf: &mut BytesMut) {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_FNF.bits() | self.flags.bits());
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
+        let mut len = 6;
+
+        // len(metadata_len): 3 (present only if metadata is present)
+        if self.payload.has_metadata() {
+            len += 3;
+        }
+
         // len(payload)
-        9 + self.payload.len()
+        len += self.payload.len();
+        len
     }
 }
 
@@ -100,7 +105,7 @@ impl Decode for RequestFnfFrame {
         stream_id: u32,
         flags: Flags,
     ) -> Result<Self::Value> {
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags)?;
         Ok(RequestFnfFrame { stream_id, flags, payload })
     }
 }
diff --git a/binate/src/frame/codec/request_response.rs b/binate/src/frame/codec/request_response.rs
index aaeabb1..fcc9cba 100644
--- a/binate/src/frame/codec/request_response.rs
+++ b/binate/src/frame/codec/request_response.rs
@@ -75,20 +75,25 @@ impl Encode for RequestResponseFrame {
     fn encode(&self, buf: &mut BytesMut) {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_RESPONSE.bits() | self.flags.bits());
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
+        let mut len = 6;
+
+        // len(metadata_len): 3 (present only if metadata is present)
+        if self.payload.has_metadata() {
+            len += 3;
+        }
+
         // len(payload)
-        9 + self.payload.len()
+        len += self.payload.len();
+        len
     }
 }
 
@@ -100,7 +105,7 @@ impl Decode for RequestResponseFrame {
         stream_id: u32,
         flags: Flags,
     ) -> Result<Self::Value> {
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags)?;
         Ok(RequestResponseFrame { stream_id, flags, payload })
     }
 }
diff --git a/binate/src/frame/codec/request_stream.rs b/binate/src/frame/codec/request_stream.rs
index ab09fb4..94f4e73 100644
--- a/binate/src/frame/codec/request_stream.rs
+++ b/binate/src/frame/codec/request_stream.rs
@@ -92,21 +92,26 @@ impl Encode for RequestStreamFrame {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_STREAM.bits() | self.flags.bits());
         buf.put_u32(self.initial_request_n);
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
         // len(initial_request_n): 4
+        let mut len = 10;
+
+        // len(metadata_len): 3 (present only if metadata is present)
+        if self.payload.has_metadata() {
+            len += 3;
+        }
+
         // len(payload)
-        13 + self.payload.len()
+        len += self.payload.len();
+        len
     }
 }
 
@@ -119,7 +124,7 @@ impl Decode for RequestStreamFrame {
         flags: Flags,
     ) -> Result<Self::Value> {
         let initial_request_n = eat_u31(buf)?;
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags)?;
         Ok(RequestStreamFrame { stream_id, flags, initial_request_n, payload })
     }
 }
diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index 9054de5..4027338 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -153,11 +153,9 @@ impl Encode for SetupFrame {
         buf.put_slice(&self.metadata_mimetype);
         buf.put_u8(self.data_mimetype.len() as u8);
         buf.put_slice(&self.data_mimetype);
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
@@ -181,9 +179,13 @@ impl Encode for SetupFrame {
         // len(mime_data)
         len += 1 + self.metadata_mimetype.len() + 1 + self.data_mimetype.len();
 
-        // len(metadata_length): 3
+        // len(metadata_length): 3 (present only if metadata is present)
+        if self.payload.has_metadata() {
+            len += 3;
+        }
+
         // len(payload)
-        len += 3 + self.payload.len();
+        len += self.payload.len();
 
         len
     }
@@ -206,7 +208,7 @@ impl Decode for SetupFrame {
             eat_bytes(buf, metadata_mimetype_len as usize)?;
         let data_mimetype_len = eat_u8(buf)?;
         let data_mimetype = eat_bytes(buf, data_mimetype_len as usize)?;
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags)?;
         Ok(SetupFrame {
             flags,
             version,
diff --git a/binate/src/frame/visit.rs b/binate/src/frame/visit.rs
index 0556ba6..e4817c1 100644
--- a/binate/src/frame/visit.rs
+++ b/binate/src/frame/visit.rs
@@ -41,7 +41,7 @@ pub(super) fn eat_version<B: Buf>(buf: &mut B) -> Result<Version> {
 }
 
 pub(super) fn eat_u8<B: Buf>(buf: &mut B) -> Result<u8> {
-    incomplete_if_less_than!(buf, 2);
+    incomplete_if_less_than!(buf, 1);
 
     Ok(buf.get_u8())
 }
@@ -84,11 +84,11 @@ pub(super) fn eat_bytes<B: Buf>(buf: &mut B, len: usize) -> Result<Bytes> {
 
 pub(super) fn eat_payload<B: Buf>(
     buf: &mut B,
-    can_have_data: bool,
+    flags: Flags,
 ) -> Result<Payload> {
-    let metadata_len =
-        if can_have_data { eat_u24(buf)?.into_usize() } else { 0 };
-    let metadata = if metadata_len > 0 {
+    // The metadata (and its length) is present only if the METADATA flag is set.
+    let metadata = if flags.contains(Flags::METADATA) {
+        let metadata_len = eat_u24(buf)?.into_usize();
         Some(eat_bytes(buf, metadata_len)?)
     } else {
         None
-- 
2.43.0


From 829a7b31c5f38e4bb3c6ee19ff07a94b877b286f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 02/14] fix: report extension frames as unrecognized instead of
 panicking

---
 binate/src/frame/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/binate/src/frame/mod.rs b/binate/src/frame/mod.rs
index d4ebe35..041b59a 100644
--- a/binate/src/frame/mod.rs
+++ b/binate/src/frame/mod.rs
@@ -170,8 +170,11 @@ impl Frame {
             FrameType::RESUME_OK => {
                 Frame::ResumeOk(ResumeOkFrame::decode(buf, stream_id, flags)?)
             }
+            // Extension frames are not supported.
             FrameType::EXT => {
-                unimplemented!()
+                return Err(DecodeError::UnrecognizedFrameType(
+                    frame_type.value(),
+                ));
             }
         })
     }
-- 
2.43.0


From 01cf3554d09ebdfc114829b8cdfcbe82d225fd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 03/14] fix: keep all 32 bits of an error code (application
 codes go up to 0xFFFFFFFE)

---
 binate/src/frame/codec/error.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/binate/src/frame/codec/error.rs b/binate/src/frame/codec/error.rs
index 233124f..034bd9e 100644
--- a/binate/src/frame/codec/error.rs
+++ b/binate/src/frame/codec/error.rs
@@ -108,14 +108,13 @@ impl ErrorFrame {
 impl ErrorFrame {
     /// Create a new `ErrorFrame`.
     ///
-    /// - `stream_id` and `error_code` MUST be <= [`MAX_U31`].
+    /// - `stream_id` MUST be <= [`MAX_U31`].
     /// - `data` SHOULD be a UTF-8 encoded string.
     pub fn new(stream_id: u32, error_code: u32, data: Option<Bytes>) -> Self {
         debug_assert_max_u31!(stream_id);
-        debug_assert_max_u31!(error_code);
         ErrorFrame {
             stream_id: stream_id & MAX_U31,
-            code: error_code & MAX_U31,
+            code: error_code,
             data,
         }
     }
-- 
2.43.0


From 6de54e530a7e3dfa0555ff437313d52a6a08050a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 04/14] fix: mask the reserved bits of the LEASE frame fields

---
 binate/src/frame/codec/lease.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/binate/src/frame/codec/lease.rs b/binate/src/frame/codec/lease.rs
index 13c7dd7..33251d7 100644
--- a/binate/src/frame/codec/lease.rs
+++ b/binate/src/frame/codec/lease.rs
@@ -46,7 +46,11 @@ impl LeaseFrame {
         metadata: Option<Bytes>,
     ) -> Self {
         debug_assert_max_u31!(ttl, number_of_requests);
-        LeaseFrame { ttl, number_of_requests, metadata }
+        LeaseFrame {
+            ttl: ttl & MAX_U31,
+            number_of_requests: number_of_requests & MAX_U31,
+            metadata,
+        }
     }
 
     /// Returns the validity time (in milliseconds) of LEASE from time of reception.
-- 
2.43.0


From 2b403bc9af377bcad562e969398672a07a4b45e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 05/14] fix: encode and count the SETUP resume token length
 exactly when RESUME is set

---
 binate/src/frame/codec/setup.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index 4027338..08bd9c5 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -145,7 +145,9 @@ impl Encode for SetupFrame {
         self.version.encode(buf);
         buf.put_u32(self.keepalive_interval);
         buf.put_u32(self.keepalive_timeout);
-        if let Some(token) = &self.resume_token {
+        // The token (and its length) is present only if the RESUME flag is set.
+        if self.is_resume() {
+            let token = self.resume_token.as_deref().unwrap_or_default();
             buf.put_u16(token.len() as u16);
             buf.put_slice(token);
         }
@@ -165,8 +167,12 @@ impl Encode for SetupFrame {
         // len(version): 4
         // len(keepalive): 4
         // len(lifetime): 4
-        // len(token_length): 2
-        let mut len = 20;
+        let mut len = 18;
+
+        // len(token_length): 2 (present only if the RESUME flag is set)
+        if self.is_resume() {
+            len += 2;
+        }
 
         // len(resume_token)
         if let Some(resume_token) = &self.resume_token {
-- 
2.43.0


From 9ed2194900d1ea5033edcbabf93cca39c6ab5562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 06/14] fix: reject SETUP MIME types longer than their one-byte
 length can express

---
 binate/src/frame/codec/setup.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index 08bd9c5..a8bda11 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -316,7 +316,7 @@ impl SetupFrameBuilder {
     ///
     /// # Panics
     ///
-    /// This function panics if the length of the given `mimetype` is greater than `256` bytes.
+    /// This function panics if the length of the given `mimetype` is greater than `255` bytes.
     ///
     /// [`Internet media type`]: https://en.wikipedia.org/wiki/Internet_media_type
     /// [`RFC 2045`]: https://datatracker.ietf.org/doc/html/rfc2045
@@ -325,7 +325,7 @@ impl SetupFrameBuilder {
         T: Into<String>,
     {
         let mimetype: String = mimetype.into();
-        assert!(mimetype.len() <= 256);
+        assert!(mimetype.len() <= 255);
         self.metadata_mimetype = Bytes::from(mimetype);
         self
     }
@@ -337,7 +337,7 @@ impl SetupFrameBuilder {
     ///
     /// # Panics
     ///
-    /// This function panics if the length of the given `mimetype` is greater than `256` bytes.
+    /// This function panics if the length of the given `mimetype` is greater than `255` bytes.
     ///
     /// [`Internet media type`]: https://en.wikipedia.org/wiki/Internet_media_type
     /// [`RFC 2045`]: https://datatracker.ietf.org/doc/html/rfc2045
@@ -346,7 +346,7 @@ impl SetupFrameBuilder {
         T: Into<String>,
     {
         let mimetype: String = mimetype.into();
-        assert!(mimetype.len() <= 256);
+        assert!(mimetype.len() <= 255);
         self.data_mimetype = Bytes::from(mimetype);
         self
     }
-- 
2.43.0


From 73b7959560e6bf0a35c1c9b2b4a7460190d6e50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 07/14] fix: never allocate stream ID 0 when the stream IDs of
 a server wrap around

---
 binate/src/connection/stream_id.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binate/src/connection/stream_id.rs b/binate/src/connection/stream_id.rs
index f0d54a2..4a92131 100644
--- a/binate/src/connection/stream_id.rs
+++ b/binate/src/connection/stream_id.rs
@@ -32,7 +32,8 @@ impl StreamIdProvider {
             sid = (self.0.fetch_add(2, Ordering::Relaxed) & STREAM_ID_MASK)
                 as u32;
 
-            if !store.contains_key(&sid) {
+            // Stream ID 0 is reserved for the connection.
+            if sid != 0 && !store.contains_key(&sid) {
                 break;
             }
         }
-- 
2.43.0


From 493d1f7cd653f1839e44f4890583e29711da0b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:28 +0000
Subject: [PATCH 08/14] fix: convert a well-known MIME type to its name instead
 of recursing forever

---
 binate/src/mimetype.rs | 55 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/binate/src/mimetype.rs b/binate/src/mimetype.rs
index 18277b3..5526ee4 100644
--- a/binate/src/mimetype.rs
+++ b/binate/src/mimetype.rs
@@ -117,12 +117,59 @@ impl From<&str> for WellKnownMimeType {
     }
 }
 
+#[rustfmt::skip]
 impl From<WellKnownMimeType> for &'static str {
     fn from(t: WellKnownMimeType) -> &'static str {
-        if t == WellKnownMimeType::UNPARSEABLE {
-            ""
-        } else {
-            t.into()
+        use WellKnownMimeType::*;
+        match t {
+            UNPARSEABLE => "",
+            APPLICATION_AVRO => "application/avro",
+            APPLICATION_CBOR => "application/cbor",
+            APPLICATION_GRAPHQL => "application/graphql",
+            APPLICATION_GZIP => "application/gzip",
+            APPLICATION_JAVASCRIPT => "application/javascript",
+            APPLICATION_JSON => "application/json",
+            APPLICATION_OCTET_STREAM => "application/octet-stream",
+            APPLICATION_PDF => "application/pdf",
+            APPLICATION_VND_APACHE_THRIFT_BINARY => "application/vnd.apache.thrift.binary",
+            APPLICATION_VND_GOOGLE_PROTOBUF => "application/vnd.google.protobuf",
+            APPLICATION_XML => "application/xml",
+            APPLICATION_ZIP => "application/zip",
+            AUDIO_AAC => "audio/aac",
+            AUDIO_MP3 => "audio/mp3",
+            AUDIO_MP4 => "audio/mp4",
+            AUDIO_MPEG3 => "audio/mpeg3",
+            AUDIO_MPEG => "audio/mpeg",
+            AUDIO_OGG => "audio/ogg",
+            AUDIO_OPUS => "audio/opus",
+            AUDIO_VORBIS => "audio/vorbis",
+            IMAGE_BMP => "image/bmp",
+            IMAGE_GIF => "image/gif",
+            IMAGE_HEIC_SEQUENCE => "image/heic-sequence",
+            IMAGE_HEIC => "image/heic",
+            IMAGE_HEIF_SEQUENCE => "image/heif-sequence",
+            IMAGE_HEIF => "image/heif",
+            IMAGE_JPEG => "image/jpeg",
+            IMAGE_PNG => "image/png",
+            IMAGE_TIFF => "image/tiff",
+            MULTIPART_MIXED => "multipart/mixed",
+            TEXT_CSS => "text/css",
+            TEXT_CSV => "text/csv",
+            TEXT_HTML => "text/html",
+            TEXT_PLAIN => "text/plain",
+            TEXT_XML => "text/xml",
+            VIDEO_H264 => "video/H264",
+            VIDEO_H265 => "video/H265",
+            VIDEO_VP8 => "video/VP8",
+            APPLICATION_X_HESSIAN => "application/x-hessian",
+            APPLICATION_X_JAVA_OBJECT => "application/x-java-object",
+            APPLICATION_CLOUDEVENTS_JSON => "application/cloudevents+json",
+            MESSAGE_X_RSOCKET_MIME_TYPE_V0 => "message/x.rsocket.mime.type.v0",
+            MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0 => "message/x.rsocket.accept.time.types.v0",
+            MESSAGE_X_RSOCKET_AUTHENTICATION_V0 => "message/x.rsocket.authentication.v0",
+            MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0 => "message/x.rsocket.tracing.zipkin.v0",
+            MESSAGE_X_RSOCKET_ROUTING_V0 => "message/x.rsocket.routing.v0",
+            MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0 => "message/x.rsocket.composite.metadata.v0",
         }
     }
 }
-- 
2.43.0


From c8150fa486612b53907fd2df538bb47150f313fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:28 +0000
Subject: [PATCH 09/14] fix: describe the REJECTED error under its own name

---
 binate/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binate/src/error.rs b/binate/src/error.rs
index 2662325..5b7c1ef 100644
--- a/binate/src/error.rs
+++ b/binate/src/error.rs
@@ -211,7 +211,7 @@ impl Error {
             ConnectionError => "CONNECTION_ERROR (0x00000101)",
             ConnectionClose => "CONNECTION_CLOSE (0x00000102)",
             ApplicationError => "APPLICATION_ERROR (0x00000201)",
-            Rejected => "CONNECTION_ERROR (0x00000202)",
+            Rejected => "REJECTED (0x00000202)",
             Canceled => "CANCELED (0x00000203)",
             Invalid => "INVALID (0x00000204)",
             Decode(_) => "error decoding frame",
-- 
2.43.0


From 47b256a3df77dcd3f9b5dd13a6b0a41706f7e4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:28 +0000
Subject: [PATCH 10/14] fix: count the chunks of a payload exactly

f32 division miscounted parts over 2^24 bytes, a present but empty part was not counted, and
size_hint() did not agree with len().
---
 binate/src/payload.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/binate/src/payload.rs b/binate/src/payload.rs
index 39ab4d4..7730138 100644
--- a/binate/src/payload.rs
+++ b/binate/src/payload.rs
@@ -198,14 +198,14 @@ impl ExactSizeIterator for PayloadChunks {
     /// Returns the number of chunks in this `PayloadChunks`.
     #[inline]
     fn len(&self) -> usize {
-        let metadata_len =
-            self.metadata.as_ref().map(|bytes| bytes.len()).unwrap_or(0);
-        let data_len =
-            self.data.as_ref().map(|bytes| bytes.len()).unwrap_or(0);
-        let len1 = metadata_len as f32 / self.chunk_size as f32;
-        let len2 = data_len as f32 / self.chunk_size as f32;
-
-        cmp::max(len1.ceil() as usize, len2.ceil() as usize)
+        // A part that is present but empty still takes a chunk.
+        let count = |part: &Option<Bytes>| match part {
+            Some(bytes) if bytes.is_empty() => 1,
+            Some(bytes) => (bytes.len() - 1) / self.chunk_size + 1,
+            None => 0,
+        };
+
+        cmp::max(count(&self.metadata), count(&self.data))
     }
 }
 
@@ -237,6 +237,11 @@ impl Iterator for PayloadChunks {
         }
         Some(Payload::new(meta, data))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl iter::FusedIterator for PayloadChunks {}
-- 
2.43.0


From d8a749831514ea67608430bdb5f252cd1ef6649e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:28 +0000
Subject: [PATCH 11/14] fix: saturate the request counter instead of wrapping
 to a negative count

---
 binate/src/connection/counter.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/binate/src/connection/counter.rs b/binate/src/connection/counter.rs
index d85523a..a7df7b9 100644
--- a/binate/src/connection/counter.rs
+++ b/binate/src/connection/counter.rs
@@ -22,9 +22,14 @@ impl RequestCounter {
         self.0.load(Ordering::SeqCst) == 0
     }
 
-    /// Adds permits to this counter.
+    /// Adds permits to this counter, which saturates at its maximum (0x7FFFFFFF).
     pub fn add(&self, n: u32) {
-        self.0.fetch_add(n as i32, Ordering::SeqCst);
+        let n = (n & COUNTER_MASK) as i32;
+        let _ = self.0.fetch_update(
+            Ordering::SeqCst,
+            Ordering::SeqCst,
+            |count| Some(count.saturating_add(n)),
+        );
     }
 
     /// Returns the count this counter stores.
-- 
2.43.0


From c2f4713a5df67660a0669f8c510923414f0db422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:28 +0000
Subject: [PATCH 12/14] fix: subscribe to the connection status once instead of
 once per status

---
 binate/src/connection/socket.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/binate/src/connection/socket.rs b/binate/src/connection/socket.rs
index 06f252c..aa07dfe 100644
--- a/binate/src/connection/socket.rs
+++ b/binate/src/connection/socket.rs
@@ -70,9 +70,8 @@ impl RSocketMachine {
         // Listens to the connection status.
         let mut cloned_rsm = rsm.clone();
         runtime::spawn(async move {
-            while let Some(status) =
-                cloned_rsm.connection.connection_status().next().await
-            {
+            let mut statuses = cloned_rsm.connection.connection_status();
+            while let Some(status) = statuses.next().await {
                 match status {
                     ConnectionStatus::Closed => {
                         cloned_rsm.handle_transport_close();
-- 
2.43.0


From ee0b5b940f2f9431a8a4215206dd644a5cb6a681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:28 +0000
Subject: [PATCH 13/14] fix: send a fire-and-forget request with an empty
 payload when chunking is on

---
 binate/src/connection/socket.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binate/src/connection/socket.rs b/binate/src/connection/socket.rs
index aa07dfe..c46853a 100644
--- a/binate/src/connection/socket.rs
+++ b/binate/src/connection/socket.rs
@@ -147,7 +147,9 @@ impl RSocket for RSocketMachine {
     fn fire_and_forget(&self, payload: Payload) -> Result<()> {
         let stream_id = self.stream_id.next_stream_id(&self.receivers);
 
-        if let Some(chunk_size) = self.chunk_payload {
+        // An empty payload has no chunks, but the request must be sent all the same.
+        let chunk_size = self.chunk_payload.filter(|_| !payload.is_empty());
+        if let Some(chunk_size) = chunk_size {
             let chunks = payload.chunks(chunk_size);
             let chunks_len = chunks.len();
             for (idx, chunked) in chunks.enumerate() {
-- 
2.43.0


From 36623c86dd8bac80491b667f91f441dced64d77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 14/14] Add verification hooks behind cfg(binate_verif)

---
 binate/src/connection/mod.rs       | 6 ++++++
 binate/src/connection/socket.rs    | 7 +++++++
 binate/src/connection/stream_id.rs | 7 +++++++
 binate/src/lib.rs                  | 8 ++++++++
 4 files changed, 28 insertions(+)

diff --git a/binate/src/connection/mod.rs b/binate/src/connection/mod.rs
index d8f323f..95bc8d4 100644
--- a/binate/src/connection/mod.rs
+++ b/binate/src/connection/mod.rs
@@ -9,3 +9,9 @@ mod stream_id;
 pub use self::conn::{ConnectionStatus, DuplexConnection};
 pub use self::counter::RequestCounter;
 pub use self::stream_id::StreamIdProvider;
+
+#[cfg(binate_verif)]
+pub(crate) use self::{
+    buf::BufList,
+    socket::{RSocketMachine, Role},
+};
diff --git a/binate/src/connection/socket.rs b/binate/src/connection/socket.rs
index c46853a..ca28bad 100644
--- a/binate/src/connection/socket.rs
+++ b/binate/src/connection/socket.rs
@@ -121,6 +121,13 @@ impl RSocketMachine {
     }
 }
 
+#[cfg(binate_verif)]
+impl RSocketMachine {
+    pub(crate) fn verif_set_chunk_payload(&mut self, size: Option<usize>) {
+        self.chunk_payload = size;
+    }
+}
+
 impl RequestHanlder {
     pub(crate) async fn set_request_handler(&self, handler: Box<dyn RSocket>) {
         let mut wtr = self.0.write().await;
diff --git a/binate/src/connection/stream_id.rs b/binate/src/connection/stream_id.rs
index 4a92131..a45331a 100644
--- a/binate/src/connection/stream_id.rs
+++ b/binate/src/connection/stream_id.rs
@@ -47,6 +47,13 @@ impl StreamIdProvider {
     }
 }
 
+#[cfg(binate_verif)]
+impl StreamIdProvider {
+    pub(crate) fn verif_new(init: i32) -> StreamIdProvider {
+        StreamIdProvider::_new(init)
+    }
+}
+
 #[cfg(all(test, not(loom)))]
 mod tests {
     use super::*;
diff --git a/binate/src/lib.rs b/binate/src/lib.rs
index daab4d8..d9c7d61 100644
--- a/binate/src/lib.rs
+++ b/binate/src/lib.rs
@@ -37,6 +37,14 @@ cfg_not! {
     mod frame;
 }
 
+// Access to private items for external verification harnesses, which name the file to include.
+#[cfg(binate_verif)]
+#[doc(hidden)]
+#[allow(missing_docs, missing_debug_implementations)]
+pub mod verif {
+    include!(env!("BINATE_VERIF"));
+}
+
 pub use self::error::{Code, Error, Result};
 pub use self::payload::{Data, Metadata, Payload, PayloadBuilder};
 pub use self::rsocket::{Flux, Mono, RSocket};
-- 
2.43.0

