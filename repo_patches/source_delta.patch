From fedeccd4c685668a17d438d91169b508cc936e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:48 +0000
Subject: [PATCH 01/18] fix: reject truncated and oversized varints

A varint cut short was accepted with the value read so far, and one with
more than 64 bits overflowed the shift, a panic any peer could trigger.
---
 spop/src/data/varint.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/spop/src/data/varint.rs b/spop/src/data/varint.rs
index 612703d..09b97de 100644
--- a/spop/src/data/varint.rs
+++ b/spop/src/data/varint.rs
@@ -27,15 +27,20 @@ pub fn get<T: Buf>(mut buf: T) -> Option<u64> {
 
             while buf.has_remaining() {
                 let b = buf.get_u8();
+
+                if b as u64 > (u64::MAX - n) >> r {
+                    return None; // does not fit in 64 bits
+                }
+
                 n += (b as u64) << r;
                 r += 7;
 
                 if b < 0x80 {
-                    break;
+                    return Some(n);
                 }
             }
 
-            Some(n)
+            None
         }
     }
 }
-- 
2.43.0


From 3f5618795215ae869d018390bca58fa035c548fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:10 +0000
Subject: [PATCH 02/18] fix: reject frames with a malformed payload

Decoding stopped at the first pair, message or action it could not read and
returned the frame as valid with the rest of its payload dropped.
---
 spop/src/data/buf.rs     | 21 ++++++++++++++-------
 spop/src/frame/decode.rs | 29 ++++++++++++++++++-----------
 2 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/spop/src/data/buf.rs b/spop/src/data/buf.rs
index 2a12472..f882922 100644
--- a/spop/src/data/buf.rs
+++ b/spop/src/data/buf.rs
@@ -18,8 +18,11 @@ pub trait BufExt {
     /// Get a string.
     fn string(&mut self) -> Option<String>;
 
-    /// Get key-value list.
-    fn kv_list(&mut self) -> impl Iterator<Item = (String, Typed)>;
+    /// Get a key-value pair.
+    fn kv(&mut self) -> Option<(String, Typed)>;
+
+    /// Get key-value list, a malformed pair is `None`.
+    fn kv_list(&mut self) -> impl Iterator<Item = Option<(String, Typed)>>;
 }
 
 impl<T> BufExt for T
@@ -40,13 +43,17 @@ where
         String::from_utf8(b.to_vec()).ok()
     }
 
-    fn kv_list(&mut self) -> impl Iterator<Item = (String, Typed)> {
+    fn kv(&mut self) -> Option<(String, Typed)> {
+        let name = self.string()?;
+        let value = self.typed()?;
+
+        Some((name, value))
+    }
+
+    fn kv_list(&mut self) -> impl Iterator<Item = Option<(String, Typed)>> {
         iter::from_fn(move || {
             if self.has_remaining() {
-                let name = self.string()?;
-                let value = self.typed()?;
-
-                Some((name, value))
+                Some(self.kv())
             } else {
                 None
             }
diff --git a/spop/src/frame/decode.rs b/spop/src/frame/decode.rs
index f5044f4..299bf47 100644
--- a/spop/src/frame/decode.rs
+++ b/spop/src/frame/decode.rs
@@ -73,7 +73,7 @@ fn metadata<B: Buf>(mut buf: B) -> Option<frame::Metadata> {
 }
 
 fn haproxy_hello<B: Buf>(mut buf: B) -> Result<haproxy::Hello> {
-    let mut kv = buf.kv_list().collect::<KVList>();
+    let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;
 
     Ok(haproxy::Hello {
         supported_versions: kv.supported_versions()?,
@@ -85,7 +85,7 @@ fn haproxy_hello<B: Buf>(mut buf: B) -> Result<haproxy::Hello> {
 }
 
 fn agent_hello<B: Buf>(mut buf: B) -> Result<agent::Hello> {
-    let mut kv = buf.kv_list().collect::<KVList>();
+    let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;
 
     Ok(agent::Hello {
         version: kv.version()?,
@@ -99,7 +99,9 @@ fn haproxy_notify<B: Buf>(buf: B, md: Metadata) -> Result<haproxy::Notify> {
         fragmented: md.fragmented(),
         stream_id: md.stream_id,
         frame_id: md.frame_id,
-        messages: list_of_messages(buf).collect::<Vec<_>>(),
+        messages: list_of_messages(buf)
+            .collect::<Option<Vec<_>>>()
+            .ok_or(Invalid)?,
     })
 }
 
@@ -109,12 +111,14 @@ fn agent_ack<B: Buf>(buf: B, md: Metadata) -> Result<agent::Ack> {
         aborted: md.aborted(),
         stream_id: md.stream_id,
         frame_id: md.frame_id,
-        actions: list_of_actions(buf).collect::<Vec<_>>(),
+        actions: list_of_actions(buf)
+            .collect::<Option<Vec<_>>>()
+            .ok_or(Invalid)?,
     })
 }
 
 fn disconnect<B: Buf>(mut buf: B) -> Result<frame::Disconnect> {
-    let mut kv = buf.kv_list().collect::<KVList>();
+    let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;
 
     Ok(haproxy::Disconnect {
         status_code: kv.status_code(),
@@ -122,10 +126,10 @@ fn disconnect<B: Buf>(mut buf: B) -> Result<frame::Disconnect> {
     })
 }
 
-fn list_of_messages<B: Buf>(mut buf: B) -> impl Iterator<Item = Message> {
+fn list_of_messages<B: Buf>(mut buf: B) -> impl Iterator<Item = Option<Message>> {
     iter::from_fn(move || {
         if buf.has_remaining() {
-            message(&mut buf)
+            Some(message(&mut buf))
         } else {
             None
         }
@@ -135,15 +139,18 @@ fn list_of_messages<B: Buf>(mut buf: B) -> impl Iterator<Item = Message> {
 fn message<B: Buf>(mut buf: B) -> Option<Message> {
     let name = buf.string()?;
     let nb = get_u8(&mut buf)?;
-    let args = buf.kv_list().take(nb as usize).collect();
+    let args = buf
+        .kv_list()
+        .take(nb as usize)
+        .collect::<Option<Vec<_>>>()?;
 
-    Some(Message { name, args })
+    (args.len() == nb as usize).then_some(Message { name, args })
 }
 
-fn list_of_actions<B: Buf>(mut buf: B) -> impl Iterator<Item = Action> {
+fn list_of_actions<B: Buf>(mut buf: B) -> impl Iterator<Item = Option<Action>> {
     iter::from_fn(move || {
         if buf.has_remaining() {
-            action(&mut buf)
+            Some(action(&mut buf))
         } else {
             None
         }
-- 
2.43.0


From 20281af6ff3c83a0ff51803149b0011f19612541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:39 +0000
Subject: [PATCH 03/18] fix: refuse to write a frame bigger than the maximum
 size

The limit was only enforced on the frames read.
---
 spop/src/frame/framer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index 6d5ef3c..79b16e2 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -44,6 +44,9 @@ impl Framer {
         W: AsyncWrite + Sized,
     {
         let buf = write_frame(BytesMut::with_capacity(self.max_frame_size), frame);
+        if buf.len() - mem::size_of::<u32>() > self.max_frame_size {
+            return Err(TooBig);
+        }
 
         trace!(buf=%HexView::new(&buf[4..]));
 
-- 
2.43.0


From f87c898577835d6f21bc84e81e9c0895ca9215f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:41 +0000
Subject: [PATCH 04/18] fix: accept an empty list of capabilities in HELLO
 frames

A peer without capabilities sends an empty string, as our own encoder does.
---
 spop/src/frame/decode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spop/src/frame/decode.rs b/spop/src/frame/decode.rs
index 299bf47..97dbd53 100644
--- a/spop/src/frame/decode.rs
+++ b/spop/src/frame/decode.rs
@@ -222,7 +222,9 @@ impl KVList {
         let s = self.string(kv::CAPABILITIES_KEY).ok_or(NoCapabilities)?;
 
         s.split(',')
-            .map(|s| s.trim().parse())
+            .map(|s| s.trim())
+            .filter(|s| !s.is_empty())
+            .map(|s| s.parse())
             .collect::<StdResult<Vec<_>, _>>()
             .map_err(|_| Invalid)
     }
-- 
2.43.0


From 7791416e8656104cdb396079ccc8f366b362fbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:43 +0000
Subject: [PATCH 05/18] fix: wake up the task waiting on the processor streams

The streams returned Pending without registering the waker, so their
consumer was never polled again.
---
 spoa/src/runtime/processor.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/spoa/src/runtime/processor.rs b/spoa/src/runtime/processor.rs
index 15388eb..d00471b 100644
--- a/spoa/src/runtime/processor.rs
+++ b/spoa/src/runtime/processor.rs
@@ -3,7 +3,7 @@ use std::task::{Context, Poll};
 
 use derive_more::{From, Into};
 use futures::Stream;
-use tokio::sync::mpsc::{error::TryRecvError::*, UnboundedReceiver};
+use tokio::sync::mpsc::UnboundedReceiver;
 
 use crate::{runtime::Acker, spop::Message};
 
@@ -13,12 +13,10 @@ pub struct Processor(pub UnboundedReceiver<(Acker, UnboundedReceiver<Message>)>)
 impl Stream for Processor {
     type Item = (Acker, Messages);
 
-    fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context) -> Poll<Option<Self::Item>> {
-        match self.0.try_recv() {
-            Ok((acker, receiver)) => Poll::Ready(Some((acker, Messages(receiver)))),
-            Err(Empty) => Poll::Pending,
-            Err(Disconnected) => Poll::Ready(None),
-        }
+    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
+        self.0
+            .poll_recv(cx)
+            .map(|item| item.map(|(acker, receiver)| (acker, Messages(receiver))))
     }
 }
 
@@ -28,11 +26,7 @@ pub struct Messages(UnboundedReceiver<Message>);
 impl Stream for Messages {
     type Item = Message;
 
-    fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context) -> Poll<Option<Self::Item>> {
-        match self.0.try_recv() {
-            Ok(res) => Poll::Ready(Some(res)),
-            Err(Empty) => Poll::Pending,
-            Err(Disconnected) => Poll::Ready(None),
-        }
+    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
+        self.0.poll_recv(cx)
     }
 }
-- 
2.43.0


From 56b1e2af4b818d18dd27bcdb0fef3bfa7c140d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 06/18] fix: decode the varint lengths of a header block

Names and values of req.hdrs_bin are prefixed with a varint, a value of 240
bytes or more was cut at the wrong place together with all that follow.
---
 spoa/src/req.rs | 10 ++++------
 spop/src/lib.rs |  2 +-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/spoa/src/req.rs b/spoa/src/req.rs
index a943186..f762489 100644
--- a/spoa/src/req.rs
+++ b/spoa/src/req.rs
@@ -3,17 +3,15 @@ use std::iter;
 use bytes::Buf;
 use http::{HeaderMap, HeaderName, HeaderValue};
 
-use crate::error::Result;
+use crate::{error::Result, spop::varint};
 
 pub fn hdrs_bin<T: Buf>(mut b: T) -> Result<HeaderMap> {
     let mut hdrs = HeaderMap::new();
 
     let mut strs = iter::from_fn(|| {
-        if b.has_remaining() {
-            let len = b.get_u8() as usize;
-            if b.remaining() >= len {
-                return Some(b.copy_to_bytes(len));
-            }
+        let len = varint::get(&mut b)? as usize;
+        if b.remaining() >= len {
+            return Some(b.copy_to_bytes(len));
         }
 
         None
diff --git a/spop/src/lib.rs b/spop/src/lib.rs
index a2aaf2b..e34d28b 100644
--- a/spop/src/lib.rs
+++ b/spop/src/lib.rs
@@ -8,7 +8,7 @@ mod version;
 
 pub use self::action::{Action, Scope};
 pub use self::caps::Capability;
-pub use self::data::Typed;
+pub use self::data::{varint, Typed};
 pub use self::error::Error;
 pub use self::frame::{
     agent::{Ack as AgentAck, Disconnect as AgentDisconnect, Hello as AgentHello},
-- 
2.43.0


From 9f0142e7f23e877d0427b9f6eb8a213a5ca6287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:09 +0000
Subject: [PATCH 07/18] fix: keep every value of a repeated header

---
 spoa/src/req.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spoa/src/req.rs b/spoa/src/req.rs
index f762489..8b2d5fb 100644
--- a/spoa/src/req.rs
+++ b/spoa/src/req.rs
@@ -22,7 +22,7 @@ pub fn hdrs_bin<T: Buf>(mut b: T) -> Result<HeaderMap> {
             break;
         }
 
-        hdrs.insert(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?);
+        hdrs.append(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?);
     }
 
     Ok(hdrs)
-- 
2.43.0


From 8cc7d07843b6bc2e6be59cb41aa4f11fe452815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:12 +0000
Subject: [PATCH 08/18] fix: refuse fragments when fragmentation is not
 negotiated

Each fragment was processed and acknowledged as a complete notification.
---
 spoa/src/state/process.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spoa/src/state/process.rs b/spoa/src/state/process.rs
index c056a7b..113b213 100644
--- a/spoa/src/state/process.rs
+++ b/spoa/src/state/process.rs
@@ -58,6 +58,8 @@ where
             }) => {
                 let msgs = if let Some(ref reassembly) = self.reassembly {
                     reassembly.reassemble(fragmented, stream_id, frame_id, messages)?
+                } else if fragmented {
+                    return Err(FragmentNotSupported).context("fragmentation not supported");
                 } else {
                     Some(messages)
                 };
-- 
2.43.0


From 71d4c2824d7870a8ddd42064cfba79dd6314956c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:15 +0000
Subject: [PATCH 09/18] fix: wait for the services to be ready before calling
 them

Calling a tower service which is not ready is allowed to panic.
---
 spoa/src/runtime/runtime.rs |  5 +++++
 spoa/src/state/process.rs   | 10 +++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/spoa/src/runtime/runtime.rs b/spoa/src/runtime/runtime.rs
index 7b85693..da8b983 100644
--- a/spoa/src/runtime/runtime.rs
+++ b/spoa/src/runtime/runtime.rs
@@ -1,4 +1,5 @@
 use std::error::Error as StdError;
+use std::future::poll_fn;
 use std::time::Duration;
 
 use tokio::sync::{mpsc::unbounded_channel, RwLock};
@@ -23,6 +24,10 @@ impl<S, T> ServiceMaker<S, T> {
         S::MakeError: StdError + Send + Sync + 'static,
         T: Clone,
     {
+        poll_fn(|cx| self.maker.poll_ready(cx))
+            .await
+            .context("make service")?;
+
         self.maker
             .make_service(self.state.clone())
             .await
diff --git a/spoa/src/state/process.rs b/spoa/src/state/process.rs
index 113b213..e253a68 100644
--- a/spoa/src/state/process.rs
+++ b/spoa/src/state/process.rs
@@ -1,4 +1,6 @@
 use std::fmt;
+use std::future::poll_fn;
+use std::result::Result as StdResult;
 use std::sync::Arc;
 
 use derive_more::Debug;
@@ -39,6 +41,12 @@ where
             reassembly,
         }
     }
+
+    async fn process(&mut self, msgs: Vec<Message>) -> StdResult<Vec<Action>, S::Error> {
+        poll_fn(|cx| self.service.poll_ready(cx)).await?;
+
+        self.service.call(msgs).await
+    }
 }
 
 impl<S, T> AsyncHandler<S, T> for Processing<S, T>
@@ -65,7 +73,7 @@ where
                 };
 
                 if let Some(msgs) = msgs {
-                    match timeout(self.runtime.max_process_time, self.service.call(msgs)).await {
+                    match timeout(self.runtime.max_process_time, self.process(msgs)).await {
                         Ok(res) => match res {
                             Ok(actions) => {
                                 let ack = Frame::ack(stream_id, frame_id, actions);
-- 
2.43.0


From 7d85d7ce2a8a70d7afe82a3956ccb8853a74563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:47 +0000
Subject: [PATCH 10/18] fix: send AGENT-DISCONNECT when a frame is invalid or
 too big

The connection was dropped without telling the peer the reason.
---
 spoa/src/conn.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/spoa/src/conn.rs b/spoa/src/conn.rs
index e1f6136..027b720 100644
--- a/spoa/src/conn.rs
+++ b/spoa/src/conn.rs
@@ -51,6 +51,15 @@ where
         self.codec.write_frame(disconnect).await?;
         Ok(())
     }
+
+    /// Report the error to the peer, unless the stream itself is broken.
+    async fn fail(&mut self, status: Status) -> Result<()> {
+        if status != Status::Io {
+            self.disconnect(status, status.to_string()).await?;
+        }
+
+        Err(status.into())
+    }
 }
 
 impl<IO, S, T> Connection<IO, S, T>
@@ -74,10 +83,17 @@ where
                 }
 
                 frame = self.codec.read_frame() => {
-                    match state.handle_frame(frame?).await {
+                    let frame = match frame {
+                        Ok(frame) => frame,
+                        Err(status) => return self.fail(status).await,
+                    };
+
+                    match state.handle_frame(frame).await {
                         Ok((next, reply)) => {
                             if let Some(frame) = reply {
-                                self.codec.write_frame(frame).await?;
+                                if let Err(status) = self.codec.write_frame(frame).await {
+                                    return self.fail(status).await;
+                                }
                             }
                             self.state = next;
                         }
-- 
2.43.0


From 765e32792ca2b8a46a2a61a148ef2624af0e5757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:51 +0000
Subject: [PATCH 11/18] fix: apply the negotiated maximum frame size to the
 connection

The agent kept its own limit whatever HAProxy announced.
---
 spoa/src/conn.rs         | 4 ++++
 spop/src/frame/codec.rs  | 4 ++++
 spop/src/frame/framer.rs | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/spoa/src/conn.rs b/spoa/src/conn.rs
index 027b720..79e4325 100644
--- a/spoa/src/conn.rs
+++ b/spoa/src/conn.rs
@@ -91,6 +91,10 @@ where
                     match state.handle_frame(frame).await {
                         Ok((next, reply)) => {
                             if let Some(frame) = reply {
+                                if let Frame::AgentHello(ref hello) = frame {
+                                    self.codec
+                                        .set_max_frame_size(hello.max_frame_size as usize);
+                                }
                                 if let Err(status) = self.codec.write_frame(frame).await {
                                     return self.fail(status).await;
                                 }
diff --git a/spop/src/frame/codec.rs b/spop/src/frame/codec.rs
index 7d2ae10..496b075 100644
--- a/spop/src/frame/codec.rs
+++ b/spop/src/frame/codec.rs
@@ -34,6 +34,10 @@ where
         Self { stream, framer }
     }
 
+    pub fn set_max_frame_size(&mut self, max_frame_size: usize) {
+        self.framer.set_max_frame_size(max_frame_size);
+    }
+
     #[instrument(skip(self), ret, err, level = "trace")]
     pub async fn read_frame(&mut self) -> Result<Frame> {
         self.framer.read_frame(&mut self.stream).await
diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index 79b16e2..c91816c 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -21,6 +21,10 @@ impl Framer {
         Framer { max_frame_size }
     }
 
+    pub fn set_max_frame_size(&mut self, max_frame_size: usize) {
+        self.max_frame_size = max_frame_size;
+    }
+
     pub async fn read_frame<R>(&self, r: R) -> Result<Frame>
     where
         R: AsyncRead + Sized,
-- 
2.43.0


From 866a6781920a9ed95d63b0adcdf70d595273bf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:54 +0000
Subject: [PATCH 12/18] verif: expose private items behind cfg(haproxy_verif)

---
 spoa/src/lib.rs       | 10 ++++++++++
 spoa/src/state/mod.rs |  3 +++
 spop/src/frame/mod.rs | 18 ++++++++++++++++++
 spop/src/lib.rs       | 14 ++++++++++++++
 4 files changed, 45 insertions(+)

diff --git a/spoa/src/lib.rs b/spoa/src/lib.rs
index 4447d02..36a7f43 100644
--- a/spoa/src/lib.rs
+++ b/spoa/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // cfg(haproxy_verif)
+
 pub use haproxy_spop as spop;
 
 mod agent;
@@ -13,3 +15,11 @@ pub use self::conn::Connection;
 pub use self::error::Error;
 pub use self::runtime::Runtime;
 pub use self::state::State;
+
+/// The private items that the verification harness observes.
+#[cfg(haproxy_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::error::{Context, Reason};
+    pub use crate::state::{negotiate, AsyncHandler, Connecting, Negotiated, Processing};
+}
diff --git a/spoa/src/state/mod.rs b/spoa/src/state/mod.rs
index 9299c99..3e53ee0 100644
--- a/spoa/src/state/mod.rs
+++ b/spoa/src/state/mod.rs
@@ -6,3 +6,6 @@ mod state;
 pub use self::connect::Connecting;
 pub use self::process::Processing;
 pub use self::state::{AsyncHandler, State};
+
+#[cfg(haproxy_verif)]
+pub use self::handshake::{negotiate, Negotiated};
diff --git a/spop/src/frame/mod.rs b/spop/src/frame/mod.rs
index cb3fbe3..8126320 100644
--- a/spop/src/frame/mod.rs
+++ b/spop/src/frame/mod.rs
@@ -24,3 +24,21 @@ pub use self::msg::Message;
 pub use self::ty::Type;
 
 pub const MAX_FRAME_SIZE: usize = 16384;
+
+/// The private items that the verification harness observes.
+#[cfg(haproxy_verif)]
+pub mod verif {
+    pub use super::{BufExt, BufMutExt, Flags, Metadata, Type};
+
+    pub mod decode {
+        pub use super::super::decode::*;
+    }
+
+    pub mod encode {
+        pub use super::super::encode::*;
+    }
+
+    pub mod kv {
+        pub use super::super::kv::*;
+    }
+}
diff --git a/spop/src/lib.rs b/spop/src/lib.rs
index e34d28b..f73b9e9 100644
--- a/spop/src/lib.rs
+++ b/spop/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // cfg(haproxy_verif)
+
 mod action;
 mod caps;
 mod data;
@@ -18,3 +20,15 @@ pub use self::frame::{
 };
 pub use self::handler::AsyncHandler;
 pub use self::version::Version;
+
+/// The private items that the verification harness observes.
+#[cfg(haproxy_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub mod data {
+        pub use crate::data::{varint, BufExt, BufMutExt, Flags, KeyValue, Type, Typed};
+    }
+
+    pub use crate::frame::verif as frame;
+    pub use crate::handler::{ack_handler, notify_handler};
+}
-- 
2.43.0


From 6d4013334f6f552f238b0d1318088118765ceab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 13/18] fix: refuse a max-frame-size that does not fit in 32
 bits

---
 spop/src/frame/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spop/src/frame/decode.rs b/spop/src/frame/decode.rs
index 97dbd53..597fb7e 100644
--- a/spop/src/frame/decode.rs
+++ b/spop/src/frame/decode.rs
@@ -214,8 +214,8 @@ impl KVList {
 
     pub fn max_frame_size(&mut self) -> Result<u32> {
         self.uint(kv::MAX_FRAME_SIZE_KEY)
-            .map(|n| n as u32)
             .ok_or(NoFrameSize)
+            .and_then(|n| u32::try_from(n).map_err(|_| BadFrameSize))
     }
 
     pub fn capabilities(&mut self) -> Result<Vec<Capability>> {
-- 
2.43.0


From 36f1a746895665fea6f7b625c66751a071205445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:33 +0000
Subject: [PATCH 14/18] fix: do not wrap a configured maximum frame size above
 32 bits

---
 spoa/src/state/connect.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spoa/src/state/connect.rs b/spoa/src/state/connect.rs
index 2b2c13a..bd68f62 100644
--- a/spoa/src/state/connect.rs
+++ b/spoa/src/state/connect.rs
@@ -52,7 +52,7 @@ where
         let handshaked = {
             negotiate(
                 runtime.supported_versions.clone(),
-                runtime.max_frame_size as u32,
+                u32::try_from(runtime.max_frame_size).unwrap_or(u32::MAX),
                 runtime.capabilities.clone(),
                 hello,
             )?
-- 
2.43.0


From 60c99ce120d5a51932af62b8e45c7510c05b73a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 15/18] fix: send the AGENT-DISCONNECT even when its message is
 too long

---
 spoa/src/conn.rs | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/spoa/src/conn.rs b/spoa/src/conn.rs
index 79e4325..ea2c7d6 100644
--- a/spoa/src/conn.rs
+++ b/spoa/src/conn.rs
@@ -14,7 +14,7 @@ use tracing::instrument;
 use crate::runtime::Runtime;
 use crate::{
     error::Result,
-    spop::{Action, BufCodec, Codec, Error as Status, Frame, Framer, Message},
+    spop::{Action, BufCodec, Codec, Disconnect, Error as Status, Frame, Framer, Message},
     state::AsyncHandler,
     State,
 };
@@ -47,8 +47,32 @@ where
     where
         M: Into<String> + fmt::Debug,
     {
-        let disconnect = Frame::agent_disconnect(status, msg);
-        self.codec.write_frame(disconnect).await?;
+        self.send_disconnect(Disconnect::new(status, msg)).await
+    }
+
+    /// Send a DISCONNECT frame, without its message when that one is too long for a frame.
+    async fn send_disconnect(&mut self, disconnect: Disconnect) -> Result<()> {
+        let status_code = disconnect.status_code;
+
+        match self
+            .codec
+            .write_frame(Frame::AgentDisconnect(disconnect))
+            .await
+        {
+            Err(Status::TooBig) => {
+                let disconnect = Disconnect {
+                    status_code,
+                    message: String::new(),
+                };
+                self.codec
+                    .write_frame(Frame::AgentDisconnect(disconnect))
+                    .await?;
+            }
+            res => {
+                res?;
+            }
+        }
+
         Ok(())
     }
 
@@ -102,8 +126,7 @@ where
                             self.state = next;
                         }
                         Err(err) => {
-                            let frame = Frame::AgentDisconnect(err.into());
-                            self.codec.write_frame(frame).await?;
+                            self.send_disconnect(err.into()).await?;
                             self.tok.cancel();
                             break;
                         }
-- 
2.43.0


From 58ee2c9e84de69b3de76df84c9af688dda670a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 16/18] fix: report a header block with more headers than a map
 holds instead of panicking

---
 spoa/src/req.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spoa/src/req.rs b/spoa/src/req.rs
index 8b2d5fb..fcfa2d2 100644
--- a/spoa/src/req.rs
+++ b/spoa/src/req.rs
@@ -22,7 +22,8 @@ pub fn hdrs_bin<T: Buf>(mut b: T) -> Result<HeaderMap> {
             break;
         }
 
-        hdrs.append(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?);
+        hdrs.try_append(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?)
+            .map_err(http::Error::from)?;
     }
 
     Ok(hdrs)
-- 
2.43.0


From 3be36951dfd450f0de778b0c61157392a127ba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:11 +0000
Subject: [PATCH 17/18] fix: every serve() waits for the open connections, not
 only the first one to end

---
 spoa/src/agent.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spoa/src/agent.rs b/spoa/src/agent.rs
index d70b63d..8006830 100644
--- a/spoa/src/agent.rs
+++ b/spoa/src/agent.rs
@@ -77,7 +77,9 @@ where
             }
         }
 
-        if self.shutdown.tracker.close() && !self.shutdown.tracker.is_empty() {
+        self.shutdown.tracker.close();
+
+        if !self.shutdown.tracker.is_empty() {
             debug!(
                 conns = self.shutdown.tracker.len(),
                 "waiting for shutting down"
-- 
2.43.0


From 019e3cff883c1f41c4d70179fcfd688dc32ee0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 18/18] fix: keep accepting connections after accepting one has
 failed

---
 spoa/src/agent.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/spoa/src/agent.rs b/spoa/src/agent.rs
index 8006830..6a654cf 100644
--- a/spoa/src/agent.rs
+++ b/spoa/src/agent.rs
@@ -1,12 +1,14 @@
 use std::error::Error as StdError;
 use std::fmt;
-use std::net::TcpListener as StdTcpListener;
+use std::net::{SocketAddr, TcpListener as StdTcpListener};
 use std::sync::Arc;
+use std::time::Duration;
 
 use tokio::{
     io::{AsyncRead, AsyncWrite},
-    net::TcpListener,
+    net::{TcpListener, TcpStream},
     select,
+    time::sleep,
 };
 use tokio_util::{sync::CancellationToken, task::TaskTracker};
 use tower::{MakeService, Service};
@@ -18,6 +20,9 @@ use crate::{
     Connection, Runtime,
 };
 
+/// How long to wait before accepting again after a failure.
+const ACCEPT_RETRY: Duration = Duration::from_millis(100);
+
 #[derive(Debug)]
 pub struct Agent<S, T> {
     runtime: Arc<Runtime<S, T>>,
@@ -39,6 +44,20 @@ impl<S, T> Agent<S, T> {
     pub fn shutdown(&self) -> CancellationToken {
         self.shutdown.token.clone()
     }
+
+    /// Waits for the next connection; a failure to accept one is not the end of the others.
+    async fn accept(&self) -> (TcpStream, SocketAddr) {
+        loop {
+            match self.listener.accept().await {
+                Ok(accepted) => return accepted,
+                Err(err) => {
+                    debug!(%err, "fail to accept a connection");
+
+                    sleep(ACCEPT_RETRY).await;
+                }
+            }
+        }
+    }
 }
 
 #[derive(Clone, Debug, Default)]
@@ -65,7 +84,7 @@ where
                     break
                 }
 
-                Ok((stream, peer)) = self.listener.accept() => {
+                (stream, peer) = self.accept() => {
                     trace!(?peer, "accepted connection");
 
                     let mut conn = Connection::new(self.runtime.clone(), stream, self.shutdown.token.child_token());
-- 
2.43.0

