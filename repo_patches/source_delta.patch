From de588cfd13bddde6aa5c09e94e59e4a13b1c091e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 01/20] Add cfg(binate_verif) hooks for runtime monitors

---
 binate/src/connection/mod.rs       |   3 +
 binate/src/connection/socket.rs    |  35 +++++++++
 binate/src/connection/stream_id.rs |   7 ++
 binate/src/connection/verif.rs     | 120 +++++++++++++++++++++++++++++
 binate/src/error.rs                |  19 +++++
 5 files changed, 184 insertions(+)
 create mode 100644 binate/src/connection/verif.rs

diff --git a/binate/src/connection/mod.rs b/binate/src/connection/mod.rs
index d8f323f..2e7b120 100644
--- a/binate/src/connection/mod.rs
+++ b/binate/src/connection/mod.rs
@@ -5,6 +5,9 @@ mod conn;
 mod counter;
 mod socket;
 mod stream_id;
+#[cfg(binate_verif)]
+#[doc(hidden)]
+pub mod verif;
 
 pub use self::conn::{ConnectionStatus, DuplexConnection};
 pub use self::counter::RequestCounter;
diff --git a/binate/src/connection/socket.rs b/binate/src/connection/socket.rs
index 06f252c..9673983 100644
--- a/binate/src/connection/socket.rs
+++ b/binate/src/connection/socket.rs
@@ -122,6 +122,41 @@ impl RSocketMachine {
     }
 }
 
+#[cfg(binate_verif)]
+impl RSocketMachine {
+    pub(crate) fn verif_set_chunk_payload(&mut self, size: Option<usize>) {
+        self.chunk_payload = size;
+    }
+
+    pub(crate) fn verif_set_stream_ids(&mut self, ids: StreamIdProvider) {
+        self.stream_id = Arc::new(ids);
+    }
+
+    pub(crate) fn verif_occupy(&self, stream_id: u32) {
+        struct Placeholder;
+
+        impl Subject for Placeholder {
+            type Item = Frame;
+
+            fn on_next(&mut self, _item: Frame) -> Result<()> {
+                Ok(())
+            }
+
+            fn on_error(&mut self, _err: crate::Error) {}
+
+            fn on_complete(&mut self) -> Result<()> {
+                Ok(())
+            }
+        }
+
+        self.receivers.insert(stream_id, Box::new(Placeholder));
+    }
+
+    pub(crate) fn verif_release(&self, stream_id: u32) {
+        self.receivers.remove(&stream_id);
+    }
+}
+
 impl RequestHanlder {
     pub(crate) async fn set_request_handler(&self, handler: Box<dyn RSocket>) {
         let mut wtr = self.0.write().await;
diff --git a/binate/src/connection/stream_id.rs b/binate/src/connection/stream_id.rs
index f0d54a2..b3e1945 100644
--- a/binate/src/connection/stream_id.rs
+++ b/binate/src/connection/stream_id.rs
@@ -44,6 +44,13 @@ impl StreamIdProvider {
         let sid = AtomicI32::new(init);
         StreamIdProvider(sid)
     }
+
+    /// Creates a provider with the given counter value.
+    #[cfg(binate_verif)]
+    #[doc(hidden)]
+    pub fn verif_starting_at(init: i32) -> StreamIdProvider {
+        Self::_new(init)
+    }
 }
 
 #[cfg(all(test, not(loom)))]
diff --git a/binate/src/connection/verif.rs b/binate/src/connection/verif.rs
new file mode 100644
index 0000000..ef618a8
--- /dev/null
+++ b/binate/src/connection/verif.rs
@@ -0,0 +1,120 @@
+//! Access to private items for runtime monitors, compiled only under
+//! `--cfg binate_verif`.
+use std::convert::TryInto;
+use std::fmt;
+use std::io::IoSlice;
+use std::time::Duration;
+
+use super::buf::BufList;
+use super::socket::{RSocketMachine, Role};
+use super::{DuplexConnection, StreamIdProvider};
+use crate::frame::DecodeError;
+use crate::payload::Payload;
+use crate::RSocket;
+use bytes::{Buf, Bytes};
+
+/// The fragment buffer used for frame reassembly.
+pub struct FragmentBuffer<T>(BufList<T>);
+
+impl<T: Buf> FragmentBuffer<T> {
+    /// Creates an empty buffer.
+    #[allow(clippy::new_without_default)]
+    pub fn new() -> Self {
+        FragmentBuffer(BufList::new())
+    }
+
+    /// Appends a segment.
+    pub fn push(&mut self, buf: T) {
+        self.0.push(buf)
+    }
+
+    /// Returns the number of segments.
+    pub fn segments(&self) -> usize {
+        self.0.len()
+    }
+
+    /// Reassembles the collected frames.
+    pub fn into_payload(self) -> Result<Payload, DecodeError> {
+        self.0.try_into()
+    }
+}
+
+impl<T> fmt::Debug for FragmentBuffer<T> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.write_str("FragmentBuffer")
+    }
+}
+
+impl<T: Buf> Buf for FragmentBuffer<T> {
+    fn remaining(&self) -> usize {
+        self.0.remaining()
+    }
+
+    fn chunk(&self) -> &[u8] {
+        self.0.chunk()
+    }
+
+    fn advance(&mut self, cnt: usize) {
+        self.0.advance(cnt)
+    }
+
+    fn chunks_vectored<'t>(&'t self, dst: &mut [IoSlice<'t>]) -> usize {
+        self.0.chunks_vectored(dst)
+    }
+
+    fn copy_to_bytes(&mut self, len: usize) -> Bytes {
+        self.0.copy_to_bytes(len)
+    }
+}
+
+/// The requester side of a connection.
+#[derive(Clone)]
+pub struct Machine(RSocketMachine);
+
+impl Machine {
+    /// Creates a machine and starts its background tasks.
+    pub async fn new(
+        server: bool,
+        connection: impl DuplexConnection + 'static,
+        keepalive_timeout: Duration,
+    ) -> Self {
+        let role = if server { Role::Server } else { Role::Client };
+        Machine(RSocketMachine::new(role, connection, keepalive_timeout).await)
+    }
+
+    /// Sets the fragment size.
+    pub fn set_chunk_payload(&mut self, chunk_size: Option<usize>) {
+        self.0.verif_set_chunk_payload(chunk_size)
+    }
+
+    /// Replaces the stream ID provider.
+    pub fn set_stream_ids(&mut self, provider: StreamIdProvider) {
+        self.0.verif_set_stream_ids(provider)
+    }
+
+    /// Marks a stream ID as in use.
+    pub fn occupy(&self, stream_id: u32) {
+        self.0.verif_occupy(stream_id)
+    }
+
+    /// Marks a stream ID as no longer in use.
+    pub fn release(&self, stream_id: u32) {
+        self.0.verif_release(stream_id)
+    }
+
+    /// Closes the connection.
+    pub fn close(&mut self) {
+        self.0.close()
+    }
+
+    /// Returns the requester.
+    pub fn requester(&self) -> &dyn RSocket {
+        &self.0
+    }
+}
+
+impl fmt::Debug for Machine {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.write_str("Machine")
+    }
+}
diff --git a/binate/src/error.rs b/binate/src/error.rs
index 2662325..dcfbee8 100644
--- a/binate/src/error.rs
+++ b/binate/src/error.rs
@@ -114,6 +114,25 @@ impl Error {
         }
     }
 
+    /// Creates a protocol error with the given code and cause.
+    #[cfg(binate_verif)]
+    #[doc(hidden)]
+    pub fn verif_protocol(code: Code, cause: Option<String>) -> Error {
+        let kind = match code {
+            Code::InvalidSetup => Kind::InvalidSetup,
+            Code::UnsupportedSetup => Kind::UnsupportedSetup,
+            Code::RejectedSetup => Kind::RejectedSetup,
+            Code::RejectedResume => Kind::RejectedResume,
+            Code::ConnectionError => Kind::ConnectionError,
+            Code::ConnectionClose => Kind::ConnectionClose,
+            Code::ApplicationError => Kind::ApplicationError,
+            Code::Rejected => Kind::Rejected,
+            Code::Canceled => Kind::Canceled,
+            Code::Invalid => Kind::Invalid,
+        };
+        Error::new(kind, cause)
+    }
+
     /// Returns true if this error is related to decoding `Bytes`.
     pub fn is_decode(&self) -> bool {
         matches!(self.inner.kind, Kind::Decode(_))
-- 
2.43.0


From 97ee8bb5e1b9ce56da9ffcaaa6c14a13941c491a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 02/20] fix: reject EXT frames instead of panicking while
 decoding them

---
 binate/src/frame/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binate/src/frame/mod.rs b/binate/src/frame/mod.rs
index d4ebe35..73cb193 100644
--- a/binate/src/frame/mod.rs
+++ b/binate/src/frame/mod.rs
@@ -171,7 +171,9 @@ impl Frame {
                 Frame::ResumeOk(ResumeOkFrame::decode(buf, stream_id, flags)?)
             }
             FrameType::EXT => {
-                unimplemented!()
+                return Err(DecodeError::UnrecognizedFrameType(
+                    FrameType::EXT.value(),
+                ));
             }
         })
     }
-- 
2.43.0


From e3c4cab4384c8d1eafaf19c5051463d4b239d285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 03/20] fix: make the token field and length of SETUP frames
 follow the RESUME bit

---
 binate/src/frame/codec/setup.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index 9054de5..c6f4dc9 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -145,7 +145,9 @@ impl Encode for SetupFrame {
         self.version.encode(buf);
         buf.put_u32(self.keepalive_interval);
         buf.put_u32(self.keepalive_timeout);
-        if let Some(token) = &self.resume_token {
+        // The token field is present if and only if the RESUME bit is set.
+        if self.is_resume() {
+            let token = self.resume_token.as_deref().unwrap_or_default();
             buf.put_u16(token.len() as u16);
             buf.put_slice(token);
         }
@@ -167,12 +169,12 @@ impl Encode for SetupFrame {
         // len(version): 4
         // len(keepalive): 4
         // len(lifetime): 4
-        // len(token_length): 2
-        let mut len = 20;
+        let mut len = 18;
 
+        // len(token_length): 2
         // len(resume_token)
-        if let Some(resume_token) = &self.resume_token {
-            len += resume_token.len();
+        if self.is_resume() {
+            len += 2 + self.resume_token.as_ref().map_or(0, |v| v.len());
         }
 
         // len(mime_metadata_length): 1
-- 
2.43.0


From a0c00d2c80542f0a057abc7ffccd780923403ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 04/20] fix: refuse 256-byte MIME types, whose length does not
 fit its field

---
 binate/src/frame/codec/setup.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index c6f4dc9..1bbfac2 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -310,7 +310,7 @@ impl SetupFrameBuilder {
     ///
     /// # Panics
     ///
-    /// This function panics if the length of the given `mimetype` is greater than `256` bytes.
+    /// This function panics if the length of the given `mimetype` is greater than `255` bytes.
     ///
     /// [`Internet media type`]: https://en.wikipedia.org/wiki/Internet_media_type
     /// [`RFC 2045`]: https://datatracker.ietf.org/doc/html/rfc2045
@@ -319,7 +319,7 @@ impl SetupFrameBuilder {
         T: Into<String>,
     {
         let mimetype: String = mimetype.into();
-        assert!(mimetype.len() <= 256);
+        assert!(mimetype.len() <= 255);
         self.metadata_mimetype = Bytes::from(mimetype);
         self
     }
@@ -331,7 +331,7 @@ impl SetupFrameBuilder {
     ///
     /// # Panics
     ///
-    /// This function panics if the length of the given `mimetype` is greater than `256` bytes.
+    /// This function panics if the length of the given `mimetype` is greater than `255` bytes.
     ///
     /// [`Internet media type`]: https://en.wikipedia.org/wiki/Internet_media_type
     /// [`RFC 2045`]: https://datatracker.ietf.org/doc/html/rfc2045
@@ -340,7 +340,7 @@ impl SetupFrameBuilder {
         T: Into<String>,
     {
         let mimetype: String = mimetype.into();
-        assert!(mimetype.len() <= 256);
+        assert!(mimetype.len() <= 255);
         self.data_mimetype = Bytes::from(mimetype);
         self
     }
-- 
2.43.0


From f6a3e8a0e7c2146adbe60fa90561ff104ceca119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 05/20] fix: allow the whole 32-bit range of error codes in
 ERROR frames

---
 binate/src/frame/codec/error.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/binate/src/frame/codec/error.rs b/binate/src/frame/codec/error.rs
index 233124f..034bd9e 100644
--- a/binate/src/frame/codec/error.rs
+++ b/binate/src/frame/codec/error.rs
@@ -108,14 +108,13 @@ impl ErrorFrame {
 impl ErrorFrame {
     /// Create a new `ErrorFrame`.
     ///
-    /// - `stream_id` and `error_code` MUST be <= [`MAX_U31`].
+    /// - `stream_id` MUST be <= [`MAX_U31`].
     /// - `data` SHOULD be a UTF-8 encoded string.
     pub fn new(stream_id: u32, error_code: u32, data: Option<Bytes>) -> Self {
         debug_assert_max_u31!(stream_id);
-        debug_assert_max_u31!(error_code);
         ErrorFrame {
             stream_id: stream_id & MAX_U31,
-            code: error_code & MAX_U31,
+            code: error_code,
             data,
         }
     }
-- 
2.43.0


From 345f363724705ead4dc41fb5535f99f4285cd2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 06/20] fix: keep the reserved bits of LEASE frames clear

---
 binate/src/frame/codec/lease.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/binate/src/frame/codec/lease.rs b/binate/src/frame/codec/lease.rs
index 13c7dd7..33251d7 100644
--- a/binate/src/frame/codec/lease.rs
+++ b/binate/src/frame/codec/lease.rs
@@ -46,7 +46,11 @@ impl LeaseFrame {
         metadata: Option<Bytes>,
     ) -> Self {
         debug_assert_max_u31!(ttl, number_of_requests);
-        LeaseFrame { ttl, number_of_requests, metadata }
+        LeaseFrame {
+            ttl: ttl & MAX_U31,
+            number_of_requests: number_of_requests & MAX_U31,
+            metadata,
+        }
     }
 
     /// Returns the validity time (in milliseconds) of LEASE from time of reception.
-- 
2.43.0


From 923f61d8484227bfc384dc065c76dca4f4822983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 07/20] fix: read the last byte of a frame

---
 binate/src/frame/visit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binate/src/frame/visit.rs b/binate/src/frame/visit.rs
index 0556ba6..6955ac7 100644
--- a/binate/src/frame/visit.rs
+++ b/binate/src/frame/visit.rs
@@ -41,7 +41,7 @@ pub(super) fn eat_version<B: Buf>(buf: &mut B) -> Result<Version> {
 }
 
 pub(super) fn eat_u8<B: Buf>(buf: &mut B) -> Result<u8> {
-    incomplete_if_less_than!(buf, 2);
+    incomplete_if_less_than!(buf, 1);
 
     Ok(buf.get_u8())
 }
-- 
2.43.0


From d23c38c219ceff09496b3696fd8af1dfb66facc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:28 +0000
Subject: [PATCH 08/20] fix: write and read the metadata length only if the
 METADATA bit is set

---
 binate/src/frame/codec/payload.rs          | 15 +++++++--------
 binate/src/frame/codec/request_channel.rs  | 15 +++++++--------
 binate/src/frame/codec/request_fnf.rs      | 15 +++++++--------
 binate/src/frame/codec/request_response.rs | 15 +++++++--------
 binate/src/frame/codec/request_stream.rs   | 15 +++++++--------
 binate/src/frame/codec/setup.rs            | 17 +++++++++--------
 binate/src/frame/visit.rs                  |  7 +++----
 7 files changed, 47 insertions(+), 52 deletions(-)

diff --git a/binate/src/frame/codec/payload.rs b/binate/src/frame/codec/payload.rs
index 71033d5..8844da9 100644
--- a/binate/src/frame/codec/payload.rs
+++ b/binate/src/frame/codec/payload.rs
@@ -91,20 +91,19 @@ impl Encode for PayloadFrame {
     fn encode(&self, buf: &mut BytesMut) {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::PAYLOAD.bits() | self.flags.bits());
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
+        // len(metadata_len): 3 (if metadata is present)
         // len(payload)
-        9 + self.payload.len()
+        let metadata_len = if self.payload.has_metadata() { 3 } else { 0 };
+        6 + metadata_len + self.payload.len()
     }
 }
 
@@ -116,7 +115,7 @@ impl Decode for PayloadFrame {
         stream_id: u32,
         flags: Flags,
     ) -> Result<Self::Value> {
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags)?;
         Ok(PayloadFrame { stream_id, flags, payload })
     }
 }
diff --git a/binate/src/frame/codec/request_channel.rs b/binate/src/frame/codec/request_channel.rs
index a3942b2..ab4af24 100644
--- a/binate/src/frame/codec/request_channel.rs
+++ b/binate/src/frame/codec/request_channel.rs
@@ -103,21 +103,20 @@ impl Encode for RequestChannelFrame {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_CHANNEL.bits() | self.flags.bits());
         buf.put_u32(self.initial_request_n);
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
+        // len(metadata_len): 3 (if metadata is present)
         // len(initial_request_n): 4
         // len(payload)
-        13 + self.payload.len()
+        let metadata_len = if self.payload.has_metadata() { 3 } else { 0 };
+        10 + metadata_len + self.payload.len()
     }
 }
 
@@ -130,7 +129,7 @@ impl Decode for RequestChannelFrame {
         flags: Flags,
     ) -> Result<Self::Value> {
         let initial_request_n = eat_u31(buf)?;
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags)?;
         Ok(RequestChannelFrame {
             stream_id,
             flags,
diff --git a/binate/src/frame/codec/request_fnf.rs b/binate/src/frame/codec/request_fnf.rs
index fedc700..25e4c4d 100644
--- a/binate/src/frame/codec/request_fnf.rs
+++ b/binate/src/frame/codec/request_fnf.rs
@@ -75,20 +75,19 @@ impl Encode for RequestFnfFrame {
     fn encode(&self, buf: &mut BytesMut) {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_FNF.bits() | self.flags.bits());
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
+        // len(metadata_len): 3 (if metadata is present)
         // len(payload)
-        9 + self.payload.len()
+        let metadata_len = if self.payload.has_metadata() { 3 } else { 0 };
+        6 + metadata_len + self.payload.len()
     }
 }
 
@@ -100,7 +99,7 @@ impl Decode for RequestFnfFrame {
         stream_id: u32,
         flags: Flags,
     ) -> Result<Self::Value> {
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags)?;
         Ok(RequestFnfFrame { stream_id, flags, payload })
     }
 }
diff --git a/binate/src/frame/codec/request_response.rs b/binate/src/frame/codec/request_response.rs
index aaeabb1..1a69740 100644
--- a/binate/src/frame/codec/request_response.rs
+++ b/binate/src/frame/codec/request_response.rs
@@ -75,20 +75,19 @@ impl Encode for RequestResponseFrame {
     fn encode(&self, buf: &mut BytesMut) {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_RESPONSE.bits() | self.flags.bits());
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
+        // len(metadata_len): 3 (if metadata is present)
         // len(payload)
-        9 + self.payload.len()
+        let metadata_len = if self.payload.has_metadata() { 3 } else { 0 };
+        6 + metadata_len + self.payload.len()
     }
 }
 
@@ -100,7 +99,7 @@ impl Decode for RequestResponseFrame {
         stream_id: u32,
         flags: Flags,
     ) -> Result<Self::Value> {
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags)?;
         Ok(RequestResponseFrame { stream_id, flags, payload })
     }
 }
diff --git a/binate/src/frame/codec/request_stream.rs b/binate/src/frame/codec/request_stream.rs
index ab09fb4..3610510 100644
--- a/binate/src/frame/codec/request_stream.rs
+++ b/binate/src/frame/codec/request_stream.rs
@@ -92,21 +92,20 @@ impl Encode for RequestStreamFrame {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_STREAM.bits() | self.flags.bits());
         buf.put_u32(self.initial_request_n);
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
+        // len(metadata_len): 3 (if metadata is present)
         // len(initial_request_n): 4
         // len(payload)
-        13 + self.payload.len()
+        let metadata_len = if self.payload.has_metadata() { 3 } else { 0 };
+        10 + metadata_len + self.payload.len()
     }
 }
 
@@ -119,7 +118,7 @@ impl Decode for RequestStreamFrame {
         flags: Flags,
     ) -> Result<Self::Value> {
         let initial_request_n = eat_u31(buf)?;
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags)?;
         Ok(RequestStreamFrame { stream_id, flags, initial_request_n, payload })
     }
 }
diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index 1bbfac2..3416494 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -155,11 +155,9 @@ impl Encode for SetupFrame {
         buf.put_slice(&self.metadata_mimetype);
         buf.put_u8(self.data_mimetype.len() as u8);
         buf.put_slice(&self.data_mimetype);
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            U24::from_usize(metadata.len()).encode(buf);
+        }
         self.payload.encode(buf);
     }
 
@@ -183,9 +181,12 @@ impl Encode for SetupFrame {
         // len(mime_data)
         len += 1 + self.metadata_mimetype.len() + 1 + self.data_mimetype.len();
 
-        // len(metadata_length): 3
+        // len(metadata_length): 3 (if metadata is present)
         // len(payload)
-        len += 3 + self.payload.len();
+        if self.payload.has_metadata() {
+            len += 3;
+        }
+        len += self.payload.len();
 
         len
     }
@@ -208,7 +209,7 @@ impl Decode for SetupFrame {
             eat_bytes(buf, metadata_mimetype_len as usize)?;
         let data_mimetype_len = eat_u8(buf)?;
         let data_mimetype = eat_bytes(buf, data_mimetype_len as usize)?;
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags)?;
         Ok(SetupFrame {
             flags,
             version,
diff --git a/binate/src/frame/visit.rs b/binate/src/frame/visit.rs
index 6955ac7..8d8af04 100644
--- a/binate/src/frame/visit.rs
+++ b/binate/src/frame/visit.rs
@@ -84,11 +84,10 @@ pub(super) fn eat_bytes<B: Buf>(buf: &mut B, len: usize) -> Result<Bytes> {
 
 pub(super) fn eat_payload<B: Buf>(
     buf: &mut B,
-    can_have_data: bool,
+    flags: Flags,
 ) -> Result<Payload> {
-    let metadata_len =
-        if can_have_data { eat_u24(buf)?.into_usize() } else { 0 };
-    let metadata = if metadata_len > 0 {
+    let metadata = if flags.contains(Flags::METADATA) {
+        let metadata_len = eat_u24(buf)?.into_usize();
         Some(eat_bytes(buf, metadata_len)?)
     } else {
         None
-- 
2.43.0


From cf2a2a29ea53ae64ee12b6df2e515fb7b61ce87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:28 +0000
Subject: [PATCH 09/20] fix: keep the METADATA bit of LEASE frames with empty
 metadata

---
 binate/src/frame/codec/lease.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binate/src/frame/codec/lease.rs b/binate/src/frame/codec/lease.rs
index 33251d7..dbefdcb 100644
--- a/binate/src/frame/codec/lease.rs
+++ b/binate/src/frame/codec/lease.rs
@@ -105,7 +105,7 @@ impl Decode for LeaseFrame {
     fn decode<B: Buf>(
         buf: &mut B,
         stream_id: u32,
-        _flags: Flags,
+        flags: Flags,
     ) -> Result<Self::Value> {
         if stream_id != 0 {
             return Err(DecodeError::InvalidStreamId {
@@ -116,7 +116,7 @@ impl Decode for LeaseFrame {
         let ttl = eat_u31(buf)?;
         let number_of_requests = eat_u31(buf)?;
         let metadata = match buf.remaining() {
-            0 => None,
+            0 if !flags.contains(Flags::METADATA) => None,
             len => Some(eat_bytes(buf, len)?),
         };
         Ok(LeaseFrame { ttl, number_of_requests, metadata })
-- 
2.43.0


From c313e875add56bf78a6c26874267b79d56f93a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:28 +0000
Subject: [PATCH 10/20] fix: report the exact number of remaining payload
 chunks

---
 binate/src/payload.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/binate/src/payload.rs b/binate/src/payload.rs
index 39ab4d4..ffcf1e3 100644
--- a/binate/src/payload.rs
+++ b/binate/src/payload.rs
@@ -198,14 +198,15 @@ impl ExactSizeIterator for PayloadChunks {
     /// Returns the number of chunks in this `PayloadChunks`.
     #[inline]
     fn len(&self) -> usize {
-        let metadata_len =
-            self.metadata.as_ref().map(|bytes| bytes.len()).unwrap_or(0);
-        let data_len =
-            self.data.as_ref().map(|bytes| bytes.len()).unwrap_or(0);
-        let len1 = metadata_len as f32 / self.chunk_size as f32;
-        let len2 = data_len as f32 / self.chunk_size as f32;
-
-        cmp::max(len1.ceil() as usize, len2.ceil() as usize)
+        // A part that is present but empty still takes one chunk.
+        let chunks_of = |part: &Option<Bytes>| match part {
+            Some(bytes) => {
+                cmp::max(1, bytes.len().div_ceil(self.chunk_size))
+            }
+            None => 0,
+        };
+
+        cmp::max(chunks_of(&self.metadata), chunks_of(&self.data))
     }
 }
 
@@ -237,6 +238,12 @@ impl Iterator for PayloadChunks {
         }
         Some(Payload::new(meta, data))
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl iter::FusedIterator for PayloadChunks {}
-- 
2.43.0


From d34be11a3d98f70bdec4079411d916fa87bde819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 11/20] fix: send fire-and-forget requests with an empty
 payload when chunking

---
 binate/src/connection/socket.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/binate/src/connection/socket.rs b/binate/src/connection/socket.rs
index 9673983..d60a726 100644
--- a/binate/src/connection/socket.rs
+++ b/binate/src/connection/socket.rs
@@ -183,7 +183,10 @@ impl RSocket for RSocketMachine {
     fn fire_and_forget(&self, payload: Payload) -> Result<()> {
         let stream_id = self.stream_id.next_stream_id(&self.receivers);
 
-        if let Some(chunk_size) = self.chunk_payload {
+        // An empty payload has no chunks, but still takes one frame.
+        let chunk_size = self.chunk_payload.filter(|_| !payload.is_empty());
+
+        if let Some(chunk_size) = chunk_size {
             let chunks = payload.chunks(chunk_size);
             let chunks_len = chunks.len();
             for (idx, chunked) in chunks.enumerate() {
-- 
2.43.0


From ee59378069b72643e59a0f2a67a3855698105700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 12/20] fix: never issue stream ID 0 after wrapping around

---
 binate/src/connection/stream_id.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binate/src/connection/stream_id.rs b/binate/src/connection/stream_id.rs
index b3e1945..e144c31 100644
--- a/binate/src/connection/stream_id.rs
+++ b/binate/src/connection/stream_id.rs
@@ -32,7 +32,8 @@ impl StreamIdProvider {
             sid = (self.0.fetch_add(2, Ordering::Relaxed) & STREAM_ID_MASK)
                 as u32;
 
-            if !store.contains_key(&sid) {
+            // Stream ID 0 pertains to the connection.
+            if sid != 0 && !store.contains_key(&sid) {
                 break;
             }
         }
-- 
2.43.0


From 65ec56cc0dde8d5c6822d6ff398a7a920c73029f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 13/20] fix: name REJECTED errors correctly

---
 binate/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binate/src/error.rs b/binate/src/error.rs
index dcfbee8..09a98fb 100644
--- a/binate/src/error.rs
+++ b/binate/src/error.rs
@@ -230,7 +230,7 @@ impl Error {
             ConnectionError => "CONNECTION_ERROR (0x00000101)",
             ConnectionClose => "CONNECTION_CLOSE (0x00000102)",
             ApplicationError => "APPLICATION_ERROR (0x00000201)",
-            Rejected => "CONNECTION_ERROR (0x00000202)",
+            Rejected => "REJECTED (0x00000202)",
             Canceled => "CANCELED (0x00000203)",
             Invalid => "INVALID (0x00000204)",
             Decode(_) => "error decoding frame",
-- 
2.43.0


From b016b53f10f2bff4408e9befab36f5afc3e4df29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 14/20] fix: subscribe to the connection status once instead of
 in a busy loop

---
 binate/src/connection/socket.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/binate/src/connection/socket.rs b/binate/src/connection/socket.rs
index d60a726..52a452e 100644
--- a/binate/src/connection/socket.rs
+++ b/binate/src/connection/socket.rs
@@ -70,9 +70,8 @@ impl RSocketMachine {
         // Listens to the connection status.
         let mut cloned_rsm = rsm.clone();
         runtime::spawn(async move {
-            while let Some(status) =
-                cloned_rsm.connection.connection_status().next().await
-            {
+            let mut statuses = cloned_rsm.connection.connection_status();
+            while let Some(status) = statuses.next().await {
                 match status {
                     ConnectionStatus::Closed => {
                         cloned_rsm.handle_transport_close();
-- 
2.43.0


From 765c2e866a7127015d12cf943900be82e2d58aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 15/20] fix: saturate the request counter instead of wrapping
 to a negative count

---
 binate/src/connection/counter.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/binate/src/connection/counter.rs b/binate/src/connection/counter.rs
index d85523a..049e486 100644
--- a/binate/src/connection/counter.rs
+++ b/binate/src/connection/counter.rs
@@ -22,9 +22,13 @@ impl RequestCounter {
         self.0.load(Ordering::SeqCst) == 0
     }
 
-    /// Adds permits to this counter.
+    /// Adds permits to this counter, up to the maximum of `0x7FFFFFFF`.
     pub fn add(&self, n: u32) {
-        self.0.fetch_add(n as i32, Ordering::SeqCst);
+        let n = (n & COUNTER_MASK) as i32;
+        let _ =
+            self.0.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |count| {
+                Some(count.saturating_add(n))
+            });
     }
 
     /// Returns the count this counter stores.
-- 
2.43.0


From bd243159eb69d5f7ceeadb225b772f2f697c9c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 16/20] fix: end the endless recursion when converting a MIME
 type to its name

---
 binate/src/mimetype.rs | 55 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/binate/src/mimetype.rs b/binate/src/mimetype.rs
index 18277b3..5526ee4 100644
--- a/binate/src/mimetype.rs
+++ b/binate/src/mimetype.rs
@@ -117,12 +117,59 @@ impl From<&str> for WellKnownMimeType {
     }
 }
 
+#[rustfmt::skip]
 impl From<WellKnownMimeType> for &'static str {
     fn from(t: WellKnownMimeType) -> &'static str {
-        if t == WellKnownMimeType::UNPARSEABLE {
-            ""
-        } else {
-            t.into()
+        use WellKnownMimeType::*;
+        match t {
+            UNPARSEABLE => "",
+            APPLICATION_AVRO => "application/avro",
+            APPLICATION_CBOR => "application/cbor",
+            APPLICATION_GRAPHQL => "application/graphql",
+            APPLICATION_GZIP => "application/gzip",
+            APPLICATION_JAVASCRIPT => "application/javascript",
+            APPLICATION_JSON => "application/json",
+            APPLICATION_OCTET_STREAM => "application/octet-stream",
+            APPLICATION_PDF => "application/pdf",
+            APPLICATION_VND_APACHE_THRIFT_BINARY => "application/vnd.apache.thrift.binary",
+            APPLICATION_VND_GOOGLE_PROTOBUF => "application/vnd.google.protobuf",
+            APPLICATION_XML => "application/xml",
+            APPLICATION_ZIP => "application/zip",
+            AUDIO_AAC => "audio/aac",
+            AUDIO_MP3 => "audio/mp3",
+            AUDIO_MP4 => "audio/mp4",
+            AUDIO_MPEG3 => "audio/mpeg3",
+            AUDIO_MPEG => "audio/mpeg",
+            AUDIO_OGG => "audio/ogg",
+            AUDIO_OPUS => "audio/opus",
+            AUDIO_VORBIS => "audio/vorbis",
+            IMAGE_BMP => "image/bmp",
+            IMAGE_GIF => "image/gif",
+            IMAGE_HEIC_SEQUENCE => "image/heic-sequence",
+            IMAGE_HEIC => "image/heic",
+            IMAGE_HEIF_SEQUENCE => "image/heif-sequence",
+            IMAGE_HEIF => "image/heif",
+            IMAGE_JPEG => "image/jpeg",
+            IMAGE_PNG => "image/png",
+            IMAGE_TIFF => "image/tiff",
+            MULTIPART_MIXED => "multipart/mixed",
+            TEXT_CSS => "text/css",
+            TEXT_CSV => "text/csv",
+            TEXT_HTML => "text/html",
+            TEXT_PLAIN => "text/plain",
+            TEXT_XML => "text/xml",
+            VIDEO_H264 => "video/H264",
+            VIDEO_H265 => "video/H265",
+            VIDEO_VP8 => "video/VP8",
+            APPLICATION_X_HESSIAN => "application/x-hessian",
+            APPLICATION_X_JAVA_OBJECT => "application/x-java-object",
+            APPLICATION_CLOUDEVENTS_JSON => "application/cloudevents+json",
+            MESSAGE_X_RSOCKET_MIME_TYPE_V0 => "message/x.rsocket.mime.type.v0",
+            MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0 => "message/x.rsocket.accept.time.types.v0",
+            MESSAGE_X_RSOCKET_AUTHENTICATION_V0 => "message/x.rsocket.authentication.v0",
+            MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0 => "message/x.rsocket.tracing.zipkin.v0",
+            MESSAGE_X_RSOCKET_ROUTING_V0 => "message/x.rsocket.routing.v0",
+            MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0 => "message/x.rsocket.composite.metadata.v0",
         }
     }
 }
-- 
2.43.0


From f7ff7ce868a91493f46b3638140ecc66807d6309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 17/20] fix: use the registered names of the RSocket MIME types

---
 binate/src/mimetype.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/binate/src/mimetype.rs b/binate/src/mimetype.rs
index 5526ee4..8cf97a1 100644
--- a/binate/src/mimetype.rs
+++ b/binate/src/mimetype.rs
@@ -106,12 +106,12 @@ impl From<&str> for WellKnownMimeType {
             "application/x-hessian" => APPLICATION_X_HESSIAN,
             "application/x-java-object" => APPLICATION_X_JAVA_OBJECT,
             "application/cloudevents+json" => APPLICATION_CLOUDEVENTS_JSON,
-            "message/x.rsocket.mime.type.v0" => MESSAGE_X_RSOCKET_MIME_TYPE_V0,
-            "message/x.rsocket.accept.time.types.v0" => MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0,
+            "message/x.rsocket.mime-type.v0" => MESSAGE_X_RSOCKET_MIME_TYPE_V0,
+            "message/x.rsocket.accept-mime-types.v0" => MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0,
             "message/x.rsocket.authentication.v0" => MESSAGE_X_RSOCKET_AUTHENTICATION_V0,
-            "message/x.rsocket.tracing.zipkin.v0" => MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0,
+            "message/x.rsocket.tracing-zipkin.v0" => MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0,
             "message/x.rsocket.routing.v0" => MESSAGE_X_RSOCKET_ROUTING_V0,
-            "message/x.rsocket.composite.metadata.v0" => MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0,
+            "message/x.rsocket.composite-metadata.v0" => MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0,
             _ => UNPARSEABLE,
         }
     }
@@ -164,12 +164,12 @@ impl From<WellKnownMimeType> for &'static str {
             APPLICATION_X_HESSIAN => "application/x-hessian",
             APPLICATION_X_JAVA_OBJECT => "application/x-java-object",
             APPLICATION_CLOUDEVENTS_JSON => "application/cloudevents+json",
-            MESSAGE_X_RSOCKET_MIME_TYPE_V0 => "message/x.rsocket.mime.type.v0",
-            MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0 => "message/x.rsocket.accept.time.types.v0",
+            MESSAGE_X_RSOCKET_MIME_TYPE_V0 => "message/x.rsocket.mime-type.v0",
+            MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0 => "message/x.rsocket.accept-mime-types.v0",
             MESSAGE_X_RSOCKET_AUTHENTICATION_V0 => "message/x.rsocket.authentication.v0",
-            MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0 => "message/x.rsocket.tracing.zipkin.v0",
+            MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0 => "message/x.rsocket.tracing-zipkin.v0",
             MESSAGE_X_RSOCKET_ROUTING_V0 => "message/x.rsocket.routing.v0",
-            MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0 => "message/x.rsocket.composite.metadata.v0",
+            MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0 => "message/x.rsocket.composite-metadata.v0",
         }
     }
 }
-- 
2.43.0


From 811fa4446b7364a50a7440b74df94debe88911bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 18/20] fix: place the header flags at the bits the protocol
 assigns to them

---
 binate/src/frame/flags.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/binate/src/frame/flags.rs b/binate/src/frame/flags.rs
index eae215a..b3a7e98 100644
--- a/binate/src/frame/flags.rs
+++ b/binate/src/frame/flags.rs
@@ -155,21 +155,21 @@ bitflags! {
     /// Frame header flags.
     pub struct Flags: u16 {
         /// The frame can be ignored.
-        const IGNORE           = 0b01_0000_0000;
+        const IGNORE           = 0b10_0000_0000;
         /// Metadata present.
-        const METADATA         = 0b00_1000_0000;
+        const METADATA         = 0b01_0000_0000;
         /// More fragments follow this fragment.
-        const FOLLOWS          = 0b00_0100_0000;
+        const FOLLOWS          = 0b00_1000_0000;
         /// Client requests resume capability if possible.
-        const RESUME           = 0b00_0100_0000;
+        const RESUME           = 0b00_1000_0000;
         /// Respond with KEEPALIVE.
-        const RESPOND          = 0b00_0100_0000;
+        const RESPOND          = 0b00_1000_0000;
         /// Bit to indicate stream completion.
-        const COMPLETE         = 0b00_0010_0000;
+        const COMPLETE         = 0b00_0100_0000;
         /// Will honor LEASE.
-        const LEASE            = 0b00_0010_0000;
+        const LEASE            = 0b00_0100_0000;
         /// Bit to indicate Next (Payload Data and/or Metadata present).
-        const NEXT             = 0b00_0001_0000;
+        const NEXT             = 0b00_0010_0000;
     }
 }
 
-- 
2.43.0


From f2029862c6f8e3551539dc2fb9848bb28ad17df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 19/20] hooks: let each monitor hook be left out on its own

---
 binate/src/connection/socket.rs    |   9 +-
 binate/src/connection/stream_id.rs |   5 +-
 binate/src/connection/verif.rs     | 251 ++++++++++++++++-------------
 binate/src/error.rs                |   2 +-
 4 files changed, 149 insertions(+), 118 deletions(-)

diff --git a/binate/src/connection/socket.rs b/binate/src/connection/socket.rs
index 52a452e..e8ed3c0 100644
--- a/binate/src/connection/socket.rs
+++ b/binate/src/connection/socket.rs
@@ -121,16 +121,23 @@ impl RSocketMachine {
     }
 }
 
-#[cfg(binate_verif)]
+// Access for runtime monitors; what does not compile any more can be skipped.
+#[cfg(all(binate_verif, not(binate_verif_skip = "chunk")))]
 impl RSocketMachine {
     pub(crate) fn verif_set_chunk_payload(&mut self, size: Option<usize>) {
         self.chunk_payload = size;
     }
+}
 
+#[cfg(all(binate_verif, not(binate_verif_skip = "ids")))]
+impl RSocketMachine {
     pub(crate) fn verif_set_stream_ids(&mut self, ids: StreamIdProvider) {
         self.stream_id = Arc::new(ids);
     }
+}
 
+#[cfg(all(binate_verif, not(binate_verif_skip = "occupy")))]
+impl RSocketMachine {
     pub(crate) fn verif_occupy(&self, stream_id: u32) {
         struct Placeholder;
 
diff --git a/binate/src/connection/stream_id.rs b/binate/src/connection/stream_id.rs
index e144c31..7c1c628 100644
--- a/binate/src/connection/stream_id.rs
+++ b/binate/src/connection/stream_id.rs
@@ -47,10 +47,11 @@ impl StreamIdProvider {
     }
 
     /// Creates a provider with the given counter value.
-    #[cfg(binate_verif)]
+    #[cfg(all(binate_verif, not(binate_verif_skip = "start")))]
     #[doc(hidden)]
+    #[allow(clippy::unnecessary_cast)]
     pub fn verif_starting_at(init: i32) -> StreamIdProvider {
-        Self::_new(init)
+        Self::_new(init as _)
     }
 }
 
diff --git a/binate/src/connection/verif.rs b/binate/src/connection/verif.rs
index ef618a8..b0e7313 100644
--- a/binate/src/connection/verif.rs
+++ b/binate/src/connection/verif.rs
@@ -1,120 +1,143 @@
 //! Access to private items for runtime monitors, compiled only under
-//! `--cfg binate_verif`.
-use std::convert::TryInto;
-use std::fmt;
-use std::io::IoSlice;
-use std::time::Duration;
-
-use super::buf::BufList;
-use super::socket::{RSocketMachine, Role};
-use super::{DuplexConnection, StreamIdProvider};
-use crate::frame::DecodeError;
-use crate::payload::Payload;
-use crate::RSocket;
-use bytes::{Buf, Bytes};
-
-/// The fragment buffer used for frame reassembly.
-pub struct FragmentBuffer<T>(BufList<T>);
-
-impl<T: Buf> FragmentBuffer<T> {
-    /// Creates an empty buffer.
-    #[allow(clippy::new_without_default)]
-    pub fn new() -> Self {
-        FragmentBuffer(BufList::new())
-    }
-
-    /// Appends a segment.
-    pub fn push(&mut self, buf: T) {
-        self.0.push(buf)
-    }
-
-    /// Returns the number of segments.
-    pub fn segments(&self) -> usize {
-        self.0.len()
-    }
-
-    /// Reassembles the collected frames.
-    pub fn into_payload(self) -> Result<Payload, DecodeError> {
-        self.0.try_into()
-    }
-}
-
-impl<T> fmt::Debug for FragmentBuffer<T> {
-    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        f.write_str("FragmentBuffer")
-    }
-}
-
-impl<T: Buf> Buf for FragmentBuffer<T> {
-    fn remaining(&self) -> usize {
-        self.0.remaining()
-    }
-
-    fn chunk(&self) -> &[u8] {
-        self.0.chunk()
-    }
-
-    fn advance(&mut self, cnt: usize) {
-        self.0.advance(cnt)
-    }
-
-    fn chunks_vectored<'t>(&'t self, dst: &mut [IoSlice<'t>]) -> usize {
-        self.0.chunks_vectored(dst)
-    }
-
-    fn copy_to_bytes(&mut self, len: usize) -> Bytes {
-        self.0.copy_to_bytes(len)
-    }
-}
-
-/// The requester side of a connection.
-#[derive(Clone)]
-pub struct Machine(RSocketMachine);
-
-impl Machine {
-    /// Creates a machine and starts its background tasks.
-    pub async fn new(
-        server: bool,
-        connection: impl DuplexConnection + 'static,
-        keepalive_timeout: Duration,
-    ) -> Self {
-        let role = if server { Role::Server } else { Role::Client };
-        Machine(RSocketMachine::new(role, connection, keepalive_timeout).await)
-    }
-
-    /// Sets the fragment size.
-    pub fn set_chunk_payload(&mut self, chunk_size: Option<usize>) {
-        self.0.verif_set_chunk_payload(chunk_size)
-    }
-
-    /// Replaces the stream ID provider.
-    pub fn set_stream_ids(&mut self, provider: StreamIdProvider) {
-        self.0.verif_set_stream_ids(provider)
-    }
-
-    /// Marks a stream ID as in use.
-    pub fn occupy(&self, stream_id: u32) {
-        self.0.verif_occupy(stream_id)
-    }
-
-    /// Marks a stream ID as no longer in use.
-    pub fn release(&self, stream_id: u32) {
-        self.0.verif_release(stream_id)
-    }
-
-    /// Closes the connection.
-    pub fn close(&mut self) {
-        self.0.close()
-    }
-
-    /// Returns the requester.
-    pub fn requester(&self) -> &dyn RSocket {
-        &self.0
+//! `--cfg binate_verif`. A part that does not compile any more can be left
+//! out with `--cfg 'binate_verif_skip="NAME"'`.
+
+#[cfg(not(binate_verif_skip = "buf"))]
+pub use self::buf::FragmentBuffer;
+#[cfg(not(binate_verif_skip = "machine"))]
+pub use self::machine::Machine;
+
+#[cfg(not(binate_verif_skip = "buf"))]
+mod buf {
+    use crate::connection::buf::BufList;
+    use crate::frame::DecodeError;
+    use crate::payload::Payload;
+    use bytes::{Buf, Bytes};
+    use std::convert::TryInto;
+    use std::fmt;
+    use std::io::IoSlice;
+
+    /// The fragment buffer used for frame reassembly.
+    pub struct FragmentBuffer<T>(BufList<T>);
+
+    impl<T: Buf> FragmentBuffer<T> {
+        /// Creates an empty buffer.
+        #[allow(clippy::new_without_default)]
+        pub fn new() -> Self {
+            FragmentBuffer(BufList::new())
+        }
+
+        /// Appends a segment.
+        pub fn push(&mut self, buf: T) {
+            self.0.push(buf)
+        }
+
+        /// Reassembles the collected frames.
+        pub fn into_payload(self) -> Result<Payload, DecodeError> {
+            self.0.try_into()
+        }
+    }
+
+    impl<T> fmt::Debug for FragmentBuffer<T> {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            f.write_str("FragmentBuffer")
+        }
+    }
+
+    impl<T: Buf> Buf for FragmentBuffer<T> {
+        fn remaining(&self) -> usize {
+            self.0.remaining()
+        }
+
+        fn chunk(&self) -> &[u8] {
+            self.0.chunk()
+        }
+
+        fn advance(&mut self, cnt: usize) {
+            self.0.advance(cnt)
+        }
+
+        fn chunks_vectored<'t>(&'t self, dst: &mut [IoSlice<'t>]) -> usize {
+            self.0.chunks_vectored(dst)
+        }
+
+        fn copy_to_bytes(&mut self, len: usize) -> Bytes {
+            self.0.copy_to_bytes(len)
+        }
     }
 }
 
-impl fmt::Debug for Machine {
-    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        f.write_str("Machine")
+#[cfg(not(binate_verif_skip = "machine"))]
+mod machine {
+    use crate::connection::socket::{RSocketMachine, Role};
+    use crate::connection::DuplexConnection;
+    use crate::RSocket;
+    use std::fmt;
+    use std::time::Duration;
+
+    /// The requester side of a connection.
+    #[derive(Clone)]
+    pub struct Machine(RSocketMachine);
+
+    impl Machine {
+        /// Creates a machine and starts its background tasks.
+        pub async fn new(
+            server: bool,
+            connection: impl DuplexConnection + 'static,
+            keepalive_timeout: Duration,
+        ) -> Self {
+            let role = if server { Role::Server } else { Role::Client };
+            let machine =
+                RSocketMachine::new(role, connection, keepalive_timeout).await;
+            Machine(machine)
+        }
+
+        /// Closes the connection.
+        pub fn close(&mut self) {
+            self.0.close()
+        }
+
+        /// Returns the requester.
+        pub fn requester(&self) -> &dyn RSocket {
+            &self.0
+        }
+    }
+
+    impl fmt::Debug for Machine {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            f.write_str("Machine")
+        }
+    }
+
+    #[cfg(not(binate_verif_skip = "chunk"))]
+    impl Machine {
+        /// Sets the fragment size.
+        pub fn set_chunk_payload(&mut self, chunk_size: Option<usize>) {
+            self.0.verif_set_chunk_payload(chunk_size)
+        }
+    }
+
+    #[cfg(not(binate_verif_skip = "ids"))]
+    impl Machine {
+        /// Replaces the stream ID provider.
+        pub fn set_stream_ids(
+            &mut self,
+            provider: crate::connection::StreamIdProvider,
+        ) {
+            self.0.verif_set_stream_ids(provider)
+        }
+    }
+
+    #[cfg(not(binate_verif_skip = "occupy"))]
+    impl Machine {
+        /// Marks a stream ID as in use.
+        pub fn occupy(&self, stream_id: u32) {
+            self.0.verif_occupy(stream_id)
+        }
+
+        /// Marks a stream ID as no longer in use.
+        pub fn release(&self, stream_id: u32) {
+            self.0.verif_release(stream_id)
+        }
     }
 }
diff --git a/binate/src/error.rs b/binate/src/error.rs
index 09a98fb..313aafb 100644
--- a/binate/src/error.rs
+++ b/binate/src/error.rs
@@ -115,7 +115,7 @@ impl Error {
     }
 
     /// Creates a protocol error with the given code and cause.
-    #[cfg(binate_verif)]
+    #[cfg(all(binate_verif, not(binate_verif_skip = "error")))]
     #[doc(hidden)]
     pub fn verif_protocol(code: Code, cause: Option<String>) -> Error {
         let kind = match code {
-- 
2.43.0


From b5343c26d91c478d4ac058631a70cff6cdff0a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:38 +0000
Subject: [PATCH 20/20] hooks: forward every read of the fragment buffer

---
 binate/src/connection/verif.rs | 59 ++++++++++++++++++++++++++++++++++
 1 file changed, 59 insertions(+)

diff --git a/binate/src/connection/verif.rs b/binate/src/connection/verif.rs
index b0e7313..f5435bf 100644
--- a/binate/src/connection/verif.rs
+++ b/binate/src/connection/verif.rs
@@ -44,6 +44,16 @@ mod buf {
         }
     }
 
+    macro_rules! forward {
+        ($($name:ident -> $value:ty),* $(,)?) => {
+            $(
+                fn $name(&mut self) -> $value {
+                    self.0.$name()
+                }
+            )*
+        };
+    }
+
     impl<T: Buf> Buf for FragmentBuffer<T> {
         fn remaining(&self) -> usize {
             self.0.remaining()
@@ -61,9 +71,58 @@ mod buf {
             self.0.chunks_vectored(dst)
         }
 
+        fn has_remaining(&self) -> bool {
+            self.0.has_remaining()
+        }
+
         fn copy_to_bytes(&mut self, len: usize) -> Bytes {
             self.0.copy_to_bytes(len)
         }
+
+        fn copy_to_slice(&mut self, dst: &mut [u8]) {
+            self.0.copy_to_slice(dst)
+        }
+
+        fn get_uint(&mut self, nbytes: usize) -> u64 {
+            self.0.get_uint(nbytes)
+        }
+
+        fn get_uint_le(&mut self, nbytes: usize) -> u64 {
+            self.0.get_uint_le(nbytes)
+        }
+
+        fn get_int(&mut self, nbytes: usize) -> i64 {
+            self.0.get_int(nbytes)
+        }
+
+        fn get_int_le(&mut self, nbytes: usize) -> i64 {
+            self.0.get_int_le(nbytes)
+        }
+
+        forward! {
+            get_u8 -> u8,
+            get_i8 -> i8,
+            get_u16 -> u16,
+            get_u16_le -> u16,
+            get_i16 -> i16,
+            get_i16_le -> i16,
+            get_u32 -> u32,
+            get_u32_le -> u32,
+            get_i32 -> i32,
+            get_i32_le -> i32,
+            get_u64 -> u64,
+            get_u64_le -> u64,
+            get_i64 -> i64,
+            get_i64_le -> i64,
+            get_u128 -> u128,
+            get_u128_le -> u128,
+            get_i128 -> i128,
+            get_i128_le -> i128,
+            get_f32 -> f32,
+            get_f32_le -> f32,
+            get_f64 -> f64,
+            get_f64_le -> f64,
+        }
     }
 }
 
-- 
2.43.0

