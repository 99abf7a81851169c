From af94edc699bdddf97f81343c6731294ca0d5df73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:04 +0000
Subject: [PATCH 01/24] fix: reject varints that are truncated or exceed 64
 bits instead of panicking or guessing

---
 spop/src/data/varint.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/spop/src/data/varint.rs b/spop/src/data/varint.rs
index 612703d..adac9f5 100644
--- a/spop/src/data/varint.rs
+++ b/spop/src/data/varint.rs
@@ -25,9 +25,20 @@ pub fn get<T: Buf>(mut buf: T) -> Option<u64> {
             let mut n = b as u64;
             let mut r = 4;
 
-            while buf.has_remaining() {
+            loop {
+                // truncated, or longer than any 64-bit value
+                if !buf.has_remaining() || r >= u64::BITS {
+                    return None;
+                }
+
                 let b = buf.get_u8();
-                n += (b as u64) << r;
+                let v = (b as u64) << r;
+
+                if v >> r != b as u64 {
+                    return None;
+                }
+
+                n = n.checked_add(v)?;
                 r += 7;
 
                 if b < 0x80 {
-- 
2.43.0


From e2fbae85fac0c416102509ae253a2aefe06b3bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:24 +0000
Subject: [PATCH 02/24] fix: reject a frame with a malformed item as a whole
 instead of dropping the rest of it

---
 spop/src/frame/decode.rs | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/spop/src/frame/decode.rs b/spop/src/frame/decode.rs
index f5044f4..b56a607 100644
--- a/spop/src/frame/decode.rs
+++ b/spop/src/frame/decode.rs
@@ -73,7 +73,7 @@ fn metadata<B: Buf>(mut buf: B) -> Option<frame::Metadata> {
 }
 
 fn haproxy_hello<B: Buf>(mut buf: B) -> Result<haproxy::Hello> {
-    let mut kv = buf.kv_list().collect::<KVList>();
+    let mut kv = kv_list(&mut buf)?;
 
     Ok(haproxy::Hello {
         supported_versions: kv.supported_versions()?,
@@ -85,7 +85,7 @@ fn haproxy_hello<B: Buf>(mut buf: B) -> Result<haproxy::Hello> {
 }
 
 fn agent_hello<B: Buf>(mut buf: B) -> Result<agent::Hello> {
-    let mut kv = buf.kv_list().collect::<KVList>();
+    let mut kv = kv_list(&mut buf)?;
 
     Ok(agent::Hello {
         version: kv.version()?,
@@ -99,7 +99,7 @@ fn haproxy_notify<B: Buf>(buf: B, md: Metadata) -> Result<haproxy::Notify> {
         fragmented: md.fragmented(),
         stream_id: md.stream_id,
         frame_id: md.frame_id,
-        messages: list_of_messages(buf).collect::<Vec<_>>(),
+        messages: list_of_messages(buf).ok_or(Invalid)?,
     })
 }
 
@@ -109,12 +109,12 @@ fn agent_ack<B: Buf>(buf: B, md: Metadata) -> Result<agent::Ack> {
         aborted: md.aborted(),
         stream_id: md.stream_id,
         frame_id: md.frame_id,
-        actions: list_of_actions(buf).collect::<Vec<_>>(),
+        actions: list_of_actions(buf).ok_or(Invalid)?,
     })
 }
 
 fn disconnect<B: Buf>(mut buf: B) -> Result<frame::Disconnect> {
-    let mut kv = buf.kv_list().collect::<KVList>();
+    let mut kv = kv_list(&mut buf)?;
 
     Ok(haproxy::Disconnect {
         status_code: kv.status_code(),
@@ -122,32 +122,29 @@ fn disconnect<B: Buf>(mut buf: B) -> Result<frame::Disconnect> {
     })
 }
 
-fn list_of_messages<B: Buf>(mut buf: B) -> impl Iterator<Item = Message> {
+fn kv_list<B: Buf>(mut buf: B) -> Result<KVList> {
     iter::from_fn(move || {
-        if buf.has_remaining() {
-            message(&mut buf)
-        } else {
-            None
-        }
+        buf.has_remaining()
+            .then(|| Some((buf.string()?, buf.typed()?)))
     })
+    .collect::<Option<_>>()
+    .ok_or(Invalid)
+}
+
+fn list_of_messages<B: Buf>(mut buf: B) -> Option<Vec<Message>> {
+    iter::from_fn(move || buf.has_remaining().then(|| message(&mut buf))).collect()
 }
 
 fn message<B: Buf>(mut buf: B) -> Option<Message> {
     let name = buf.string()?;
     let nb = get_u8(&mut buf)?;
-    let args = buf.kv_list().take(nb as usize).collect();
+    let args = buf.kv_list().take(nb as usize).collect::<Vec<_>>();
 
-    Some(Message { name, args })
+    (args.len() == nb as usize).then_some(Message { name, args })
 }
 
-fn list_of_actions<B: Buf>(mut buf: B) -> impl Iterator<Item = Action> {
-    iter::from_fn(move || {
-        if buf.has_remaining() {
-            action(&mut buf)
-        } else {
-            None
-        }
-    })
+fn list_of_actions<B: Buf>(mut buf: B) -> Option<Vec<Action>> {
+    iter::from_fn(move || buf.has_remaining().then(|| action(&mut buf))).collect()
 }
 
 pub fn action<B: Buf>(mut buf: B) -> Option<Action> {
-- 
2.43.0


From 0190d61182bc3d31e2667c7d186fca14aa1f09ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:24 +0000
Subject: [PATCH 03/24] fix: accept an empty list of capabilities

---
 spop/src/frame/decode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spop/src/frame/decode.rs b/spop/src/frame/decode.rs
index b56a607..c9e08cf 100644
--- a/spop/src/frame/decode.rs
+++ b/spop/src/frame/decode.rs
@@ -212,7 +212,9 @@ impl KVList {
         let s = self.string(kv::CAPABILITIES_KEY).ok_or(NoCapabilities)?;
 
         s.split(',')
-            .map(|s| s.trim().parse())
+            .map(|s| s.trim())
+            .filter(|s| !s.is_empty())
+            .map(|s| s.parse())
             .collect::<StdResult<Vec<_>, _>>()
             .map_err(|_| Invalid)
     }
-- 
2.43.0


From 70feaa2673c207e942944ec0183eb0190bc08dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:24 +0000
Subject: [PATCH 04/24] fix: keep the reason why a frame could not be decoded

---
 spop/src/frame/framer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index 6d5ef3c..21a1767 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -33,7 +33,7 @@ impl Framer {
 
             trace!(buf=%HexView::new(&buf));
 
-            buf.get_frame().map_err(|_| Invalid)
+            buf.get_frame()
         } else {
             Err(BadFrameSize)
         }
-- 
2.43.0


From d6a14f84631fead7559d510437e5483c9c4814a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 05/24] fix: tell the peer why a frame was refused before
 closing the connection

---
 spoa/src/conn.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spoa/src/conn.rs b/spoa/src/conn.rs
index e1f6136..9d71dad 100644
--- a/spoa/src/conn.rs
+++ b/spoa/src/conn.rs
@@ -74,7 +74,13 @@ where
                 }
 
                 frame = self.codec.read_frame() => {
-                    match state.handle_frame(frame?).await {
+                    let res = match frame {
+                        Ok(frame) => state.handle_frame(frame).await,
+                        Err(Status::Io) => return Err(Status::Io.into()),
+                        Err(err) => Err(err.into()),
+                    };
+
+                    match res {
                         Ok((next, reply)) => {
                             if let Some(frame) = reply {
                                 self.codec.write_frame(frame).await?;
-- 
2.43.0


From 24f3b1ff8bd12540713e04b4a482e91a5828d489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 06/24] fix: report an oversized frame as too big rather than
 as a bad max-frame-size

---
 spop/src/frame/framer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index 21a1767..f658671 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -35,7 +35,7 @@ impl Framer {
 
             buf.get_frame()
         } else {
-            Err(BadFrameSize)
+            Err(TooBig)
         }
     }
 
-- 
2.43.0


From 11d564f28f87ff15d106ef17b3e064c28f4ec0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 07/24] fix: flush every frame that was written

---
 spop/src/frame/framer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index f658671..750d9a6 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -50,6 +50,7 @@ impl Framer {
         pin_mut!(w);
 
         w.write_all(&buf).await.map_err(|_| Io)?;
+        w.flush().await.map_err(|_| Io)?;
 
         Ok(buf.len())
     }
-- 
2.43.0


From ae98d8eba2c34f537a00de2b05fcba10242f7d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 08/24] fix: refuse to write a message with more arguments than
 can be counted

---
 spop/src/frame/framer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index 750d9a6..37b80f1 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -11,6 +11,9 @@ use crate::{
     frame::{BufExt, BufMutExt, Frame},
 };
 
+/// The arguments of a message are counted in a single byte.
+const MAX_ARGS: usize = u8::MAX as usize;
+
 #[derive(Clone, Debug)]
 pub struct Framer {
     max_frame_size: usize,
@@ -43,6 +46,12 @@ impl Framer {
     where
         W: AsyncWrite + Sized,
     {
+        if let Frame::HaproxyNotify(ref notify) = frame {
+            if notify.messages.iter().any(|m| m.args.len() > MAX_ARGS) {
+                return Err(Invalid);
+            }
+        }
+
         let buf = write_frame(BytesMut::with_capacity(self.max_frame_size), frame);
 
         trace!(buf=%HexView::new(&buf[4..]));
-- 
2.43.0


From 988de61dab9e9ed3ce7eda2f09875047957b96a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 09/24] fix: never send a frame above the negotiated maximum
 frame size, nor accept one

---
 spoa/src/conn.rs         | 56 +++++++++++++++++++++++++++++++++++-----
 spop/src/frame/codec.rs  |  5 ++++
 spop/src/frame/framer.rs |  9 +++++++
 3 files changed, 64 insertions(+), 6 deletions(-)

diff --git a/spoa/src/conn.rs b/spoa/src/conn.rs
index 9d71dad..fb3676a 100644
--- a/spoa/src/conn.rs
+++ b/spoa/src/conn.rs
@@ -14,11 +14,22 @@ use tracing::instrument;
 use crate::runtime::Runtime;
 use crate::{
     error::Result,
-    spop::{Action, BufCodec, Codec, Error as Status, Frame, Framer, Message},
+    spop::{Action, BufCodec, Codec, Disconnect, Error as Status, Frame, Framer, Message},
     state::AsyncHandler,
     State,
 };
 
+/// The most that is kept of a reason that does not fit into a frame.
+const MAX_REASON_LEN: usize = 128;
+
+fn shorten(reason: &mut String) {
+    let mut len = MAX_REASON_LEN.min(reason.len());
+    while !reason.is_char_boundary(len) {
+        len -= 1;
+    }
+    reason.truncate(len);
+}
+
 #[derive(Debug)]
 pub struct Connection<IO, S, T>
 where
@@ -47,8 +58,25 @@ where
     where
         M: Into<String> + fmt::Debug,
     {
-        let disconnect = Frame::agent_disconnect(status, msg);
-        self.codec.write_frame(disconnect).await?;
+        self.write_disconnect(Disconnect::new(status, msg)).await
+    }
+
+    async fn write_disconnect(&mut self, disconnect: Disconnect) -> Result<()> {
+        let frame = Frame::AgentDisconnect(disconnect.clone());
+
+        match self.codec.write_frame(frame).await {
+            Err(Status::TooBig) => {
+                let mut disconnect = disconnect;
+                shorten(&mut disconnect.message);
+                self.codec
+                    .write_frame(Frame::AgentDisconnect(disconnect))
+                    .await?;
+            }
+            res => {
+                res?;
+            }
+        }
+
         Ok(())
     }
 }
@@ -82,14 +110,30 @@ where
 
                     match res {
                         Ok((next, reply)) => {
+                            let negotiated = match reply {
+                                Some(Frame::AgentHello(ref hello)) => Some(hello.max_frame_size),
+                                _ => None,
+                            };
+
                             if let Some(frame) = reply {
-                                self.codec.write_frame(frame).await?;
+                                match self.codec.write_frame(frame).await {
+                                    Err(err @ Status::TooBig) => {
+                                        self.disconnect(err, err.to_string()).await?;
+                                        self.tok.cancel();
+                                        break;
+                                    }
+                                    res => {
+                                        res?;
+                                    }
+                                }
+                            }
+                            if let Some(sz) = negotiated {
+                                self.codec.set_max_frame_size(sz as usize);
                             }
                             self.state = next;
                         }
                         Err(err) => {
-                            let frame = Frame::AgentDisconnect(err.into());
-                            self.codec.write_frame(frame).await?;
+                            self.write_disconnect(err.into()).await?;
                             self.tok.cancel();
                             break;
                         }
diff --git a/spop/src/frame/codec.rs b/spop/src/frame/codec.rs
index 7d2ae10..8ab6456 100644
--- a/spop/src/frame/codec.rs
+++ b/spop/src/frame/codec.rs
@@ -34,6 +34,11 @@ where
         Self { stream, framer }
     }
 
+    /// Changes the limit of the frames read and written from now on.
+    pub fn set_max_frame_size(&mut self, max_frame_size: usize) {
+        self.framer.set_max_frame_size(max_frame_size);
+    }
+
     #[instrument(skip(self), ret, err, level = "trace")]
     pub async fn read_frame(&mut self) -> Result<Frame> {
         self.framer.read_frame(&mut self.stream).await
diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index 37b80f1..2826d3e 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -24,6 +24,11 @@ impl Framer {
         Framer { max_frame_size }
     }
 
+    /// Changes the limit of the frames read and written from now on.
+    pub fn set_max_frame_size(&mut self, max_frame_size: usize) {
+        self.max_frame_size = max_frame_size;
+    }
+
     pub async fn read_frame<R>(&self, r: R) -> Result<Frame>
     where
         R: AsyncRead + Sized,
@@ -56,6 +61,10 @@ impl Framer {
 
         trace!(buf=%HexView::new(&buf[4..]));
 
+        if buf.len() - mem::size_of::<u32>() > self.max_frame_size {
+            return Err(TooBig);
+        }
+
         pin_mut!(w);
 
         w.write_all(&buf).await.map_err(|_| Io)?;
-- 
2.43.0


From a859e3c3a1225f228686b07841b4a98d81526c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 10/24] fix: take no request and no connection once shutdown
 was requested

---
 spoa/src/agent.rs | 2 ++
 spoa/src/conn.rs  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/spoa/src/agent.rs b/spoa/src/agent.rs
index d70b63d..ddb9164 100644
--- a/spoa/src/agent.rs
+++ b/spoa/src/agent.rs
@@ -60,6 +60,8 @@ where
     pub async fn serve(&self) -> Result<()> {
         loop {
             select! {
+                biased;
+
                 _ = self.shutdown.token.cancelled() => {
                     debug!("shutting down");
                     break
diff --git a/spoa/src/conn.rs b/spoa/src/conn.rs
index fb3676a..7a9586e 100644
--- a/spoa/src/conn.rs
+++ b/spoa/src/conn.rs
@@ -97,6 +97,8 @@ where
             }
 
             select! {
+                biased;
+
                 _ = self.tok.cancelled() => {
                     break;
                 }
-- 
2.43.0


From 4eb4ac1beba180fd7dde3a03fe6f76d6411a47e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 11/24] fix: keep accepting connections after a failed accept

---
 spoa/src/agent.rs | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/spoa/src/agent.rs b/spoa/src/agent.rs
index ddb9164..6c6dd8f 100644
--- a/spoa/src/agent.rs
+++ b/spoa/src/agent.rs
@@ -1,12 +1,15 @@
 use std::error::Error as StdError;
 use std::fmt;
+use std::io;
 use std::net::TcpListener as StdTcpListener;
 use std::sync::Arc;
+use std::time::Duration;
 
 use tokio::{
     io::{AsyncRead, AsyncWrite},
     net::TcpListener,
     select,
+    time::sleep,
 };
 use tokio_util::{sync::CancellationToken, task::TaskTracker};
 use tower::{MakeService, Service};
@@ -18,6 +21,20 @@ use crate::{
     Connection, Runtime,
 };
 
+/// How long to wait before accepting again after running out of resources.
+const ACCEPT_RETRY_INTERVAL: Duration = Duration::from_millis(100);
+
+/// The error concerns the connection that was being accepted, not the listener.
+fn is_connection_error(err: &io::Error) -> bool {
+    matches!(
+        err.kind(),
+        io::ErrorKind::ConnectionAborted
+            | io::ErrorKind::ConnectionRefused
+            | io::ErrorKind::ConnectionReset
+            | io::ErrorKind::Interrupted
+    )
+}
+
 #[derive(Debug)]
 pub struct Agent<S, T> {
     runtime: Arc<Runtime<S, T>>,
@@ -67,7 +84,24 @@ where
                     break
                 }
 
-                Ok((stream, peer)) = self.listener.accept() => {
+                res = self.listener.accept() => {
+                    let (stream, peer) = match res {
+                        Ok(accepted) => accepted,
+                        Err(err) => {
+                            debug!(%err, "accept failed");
+
+                            if !is_connection_error(&err) {
+                                // out of some resource, which others may release
+                                select! {
+                                    _ = self.shutdown.token.cancelled() => {}
+                                    _ = sleep(ACCEPT_RETRY_INTERVAL) => {}
+                                }
+                            }
+
+                            continue;
+                        }
+                    };
+
                     trace!(?peer, "accepted connection");
 
                     let mut conn = Connection::new(self.runtime.clone(), stream, self.shutdown.token.child_token());
-- 
2.43.0


From b9b7c76aaa5356f24c10c9b1e1a44437ba82c13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 12/24] fix: refuse fragments when fragmentation was not
 negotiated

---
 spoa/src/state/process.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spoa/src/state/process.rs b/spoa/src/state/process.rs
index c056a7b..c931bce 100644
--- a/spoa/src/state/process.rs
+++ b/spoa/src/state/process.rs
@@ -58,6 +58,8 @@ where
             }) => {
                 let msgs = if let Some(ref reassembly) = self.reassembly {
                     reassembly.reassemble(fragmented, stream_id, frame_id, messages)?
+                } else if fragmented {
+                    return Err(FragmentNotSupported).context("fragmentation was not negotiated");
                 } else {
                     Some(messages)
                 };
-- 
2.43.0


From 17d9c10642d03667a3c4b6541a57cf7fe925c691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 13/24] fix: wait until services and the service factory are
 ready before calling them

---
 spoa/src/runtime/runtime.rs | 5 +++++
 spoa/src/state/process.rs   | 8 +++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/spoa/src/runtime/runtime.rs b/spoa/src/runtime/runtime.rs
index 7b85693..800a03f 100644
--- a/spoa/src/runtime/runtime.rs
+++ b/spoa/src/runtime/runtime.rs
@@ -1,4 +1,5 @@
 use std::error::Error as StdError;
+use std::future::poll_fn;
 use std::time::Duration;
 
 use tokio::sync::{mpsc::unbounded_channel, RwLock};
@@ -23,6 +24,10 @@ impl<S, T> ServiceMaker<S, T> {
         S::MakeError: StdError + Send + Sync + 'static,
         T: Clone,
     {
+        poll_fn(|cx| self.maker.poll_ready(cx))
+            .await
+            .context("service factory")?;
+
         self.maker
             .make_service(self.state.clone())
             .await
diff --git a/spoa/src/state/process.rs b/spoa/src/state/process.rs
index c931bce..4acece6 100644
--- a/spoa/src/state/process.rs
+++ b/spoa/src/state/process.rs
@@ -1,4 +1,5 @@
 use std::fmt;
+use std::future::poll_fn;
 use std::sync::Arc;
 
 use derive_more::Debug;
@@ -65,7 +66,12 @@ where
                 };
 
                 if let Some(msgs) = msgs {
-                    match timeout(self.runtime.max_process_time, self.service.call(msgs)).await {
+                    let process = async {
+                        poll_fn(|cx| self.service.poll_ready(cx)).await?;
+                        self.service.call(msgs).await
+                    };
+
+                    match timeout(self.runtime.max_process_time, process).await {
                         Ok(res) => match res {
                             Ok(actions) => {
                                 let ack = Frame::ack(stream_id, frame_id, actions);
-- 
2.43.0


From f79560df5665a7a2fa53c32cc3a83725523def2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:29 +0000
Subject: [PATCH 14/24] fix: make services for several connections at the same
 time

---
 spoa/src/runtime/runtime.rs | 10 +++++-----
 spoa/src/state/connect.rs   |  3 ++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/spoa/src/runtime/runtime.rs b/spoa/src/runtime/runtime.rs
index 800a03f..a73f9f1 100644
--- a/spoa/src/runtime/runtime.rs
+++ b/spoa/src/runtime/runtime.rs
@@ -18,7 +18,10 @@ pub struct ServiceMaker<S, T> {
 }
 
 impl<S, T> ServiceMaker<S, T> {
-    pub async fn make<REQ>(&mut self) -> Result<S::Service>
+    /// Waits until the factory is ready, and asks it for a service.
+    ///
+    /// The future returned does not borrow the factory, so it should be awaited without holding on to it.
+    pub async fn make<REQ>(&mut self) -> Result<S::Future>
     where
         S: MakeService<T, REQ>,
         S::MakeError: StdError + Send + Sync + 'static,
@@ -28,10 +31,7 @@ impl<S, T> ServiceMaker<S, T> {
             .await
             .context("service factory")?;
 
-        self.maker
-            .make_service(self.state.clone())
-            .await
-            .context("make service")
+        Ok(self.maker.make_service(self.state.clone()))
     }
 }
 
diff --git a/spoa/src/state/connect.rs b/spoa/src/state/connect.rs
index 2b2c13a..925a285 100644
--- a/spoa/src/state/connect.rs
+++ b/spoa/src/state/connect.rs
@@ -62,7 +62,8 @@ where
         let next = if is_healthcheck {
             State::Disconnecting
         } else {
-            let service = runtime.service_maker.write().await.make().await?;
+            let making = runtime.service_maker.write().await.make().await?;
+            let service = making.await.context("make service")?;
 
             Processing::new(
                 runtime,
-- 
2.43.0


From 5f8c96462b39118df786d08d14dea89af8b34a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:29 +0000
Subject: [PATCH 15/24] fix: wake the task that waits for dispatched requests
 or their messages

---
 spoa/src/runtime/processor.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/spoa/src/runtime/processor.rs b/spoa/src/runtime/processor.rs
index 15388eb..468a1af 100644
--- a/spoa/src/runtime/processor.rs
+++ b/spoa/src/runtime/processor.rs
@@ -3,7 +3,7 @@ use std::task::{Context, Poll};
 
 use derive_more::{From, Into};
 use futures::Stream;
-use tokio::sync::mpsc::{error::TryRecvError::*, UnboundedReceiver};
+use tokio::sync::mpsc::UnboundedReceiver;
 
 use crate::{runtime::Acker, spop::Message};
 
@@ -13,12 +13,10 @@ pub struct Processor(pub UnboundedReceiver<(Acker, UnboundedReceiver<Message>)>)
 impl Stream for Processor {
     type Item = (Acker, Messages);
 
-    fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context) -> Poll<Option<Self::Item>> {
-        match self.0.try_recv() {
-            Ok((acker, receiver)) => Poll::Ready(Some((acker, Messages(receiver)))),
-            Err(Empty) => Poll::Pending,
-            Err(Disconnected) => Poll::Ready(None),
-        }
+    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
+        self.0
+            .poll_recv(cx)
+            .map(|entry| entry.map(|(acker, receiver)| (acker, Messages(receiver))))
     }
 }
 
@@ -28,11 +26,7 @@ pub struct Messages(UnboundedReceiver<Message>);
 impl Stream for Messages {
     type Item = Message;
 
-    fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context) -> Poll<Option<Self::Item>> {
-        match self.0.try_recv() {
-            Ok(res) => Poll::Ready(Some(res)),
-            Err(Empty) => Poll::Pending,
-            Err(Disconnected) => Poll::Ready(None),
-        }
+    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
+        self.0.poll_recv(cx)
     }
 }
-- 
2.43.0


From f6964fd077849e98a2f195d8125fd465c88082fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:29 +0000
Subject: [PATCH 16/24] fix: keep no request for which there is no processor

---
 spoa/src/runtime/dispatch.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spoa/src/runtime/dispatch.rs b/spoa/src/runtime/dispatch.rs
index 285121f..1104e0f 100644
--- a/spoa/src/runtime/dispatch.rs
+++ b/spoa/src/runtime/dispatch.rs
@@ -34,14 +34,14 @@ impl Dispatcher {
                 Entry::Vacant(e) => {
                     let (sender, receiver) = unbounded_channel();
 
-                    if notify.fragmented {
-                        e.insert(sender.clone());
-                    }
-
                     let (acker, acked) = Acker::new(notify.stream_id, notify.frame_id);
 
                     self.processing.send((acker, receiver))?;
 
+                    if notify.fragmented {
+                        e.insert(sender.clone());
+                    }
+
                     (sender, Some(acked))
                 }
                 Entry::Occupied(e) => {
-- 
2.43.0


From 9201308272dbf5c7cd66188e58d5af41feb1e8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 17/24] fix: report fragments that can not be processed any
 more

---
 spoa/src/runtime/dispatch.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spoa/src/runtime/dispatch.rs b/spoa/src/runtime/dispatch.rs
index 1104e0f..1193cda 100644
--- a/spoa/src/runtime/dispatch.rs
+++ b/spoa/src/runtime/dispatch.rs
@@ -5,7 +5,7 @@ use tokio::sync::{
 };
 
 use crate::{
-    error::Result,
+    error::{Error::Closed, Result},
     runtime::Acker,
     spop::{AgentAck, FrameId, HaproxyNotify, Message, StreamId},
 };
@@ -58,6 +58,10 @@ impl Dispatcher {
 
         for msg in notify.messages {
             if sender.send(msg).is_err() {
+                // nobody is left to process it, or the processor is not interested
+                if self.processing.is_closed() {
+                    return Err(Closed);
+                }
                 break;
             }
         }
-- 
2.43.0


From bc637298dd53eb5dd9f65c435d2d35cf0cf2dbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:36 +0000
Subject: [PATCH 18/24] fix: report requests sent while their processor goes
 away

A request that is sent while the processor is being dropped may stay in
the channel for as long as the dispatcher lives, its acknowledgement
would never come.
---
 spoa/src/runtime/dispatch.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spoa/src/runtime/dispatch.rs b/spoa/src/runtime/dispatch.rs
index 1193cda..10c8b44 100644
--- a/spoa/src/runtime/dispatch.rs
+++ b/spoa/src/runtime/dispatch.rs
@@ -38,6 +38,12 @@ impl Dispatcher {
 
                     self.processing.send((acker, receiver))?;
 
+                    // when the processor goes away at the same moment, the request may stay where
+                    // nobody will ever find it
+                    if self.processing.is_closed() {
+                        return Err(Closed);
+                    }
+
                     if notify.fragmented {
                         e.insert(sender.clone());
                     }
-- 
2.43.0


From 659a1ac1524185a93e476c0fcad1991bf39a32d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 19/24] fix: read the lengths in req.hdrs_bin as
 variable-length integers

---
 spoa/src/req.rs | 11 +++--------
 spop/src/lib.rs |  2 +-
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/spoa/src/req.rs b/spoa/src/req.rs
index a943186..6b127c2 100644
--- a/spoa/src/req.rs
+++ b/spoa/src/req.rs
@@ -3,20 +3,15 @@ use std::iter;
 use bytes::Buf;
 use http::{HeaderMap, HeaderName, HeaderValue};
 
-use crate::error::Result;
+use crate::{error::Result, spop::varint};
 
 pub fn hdrs_bin<T: Buf>(mut b: T) -> Result<HeaderMap> {
     let mut hdrs = HeaderMap::new();
 
     let mut strs = iter::from_fn(|| {
-        if b.has_remaining() {
-            let len = b.get_u8() as usize;
-            if b.remaining() >= len {
-                return Some(b.copy_to_bytes(len));
-            }
-        }
+        let len = usize::try_from(varint::get(&mut b)?).ok()?;
 
-        None
+        (b.remaining() >= len).then(|| b.copy_to_bytes(len))
     });
 
     while let Some((k, v)) = strs.next().zip(strs.next()) {
diff --git a/spop/src/lib.rs b/spop/src/lib.rs
index a2aaf2b..e34d28b 100644
--- a/spop/src/lib.rs
+++ b/spop/src/lib.rs
@@ -8,7 +8,7 @@ mod version;
 
 pub use self::action::{Action, Scope};
 pub use self::caps::Capability;
-pub use self::data::Typed;
+pub use self::data::{varint, Typed};
 pub use self::error::Error;
 pub use self::frame::{
     agent::{Ack as AgentAck, Disconnect as AgentDisconnect, Hello as AgentHello},
-- 
2.43.0


From 9b27aea7cd400dd8c87855fbd9534eb69780e8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:13 +0000
Subject: [PATCH 20/24] fix: keep every value of a header that is repeated in
 req.hdrs_bin

---
 spoa/src/req.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spoa/src/req.rs b/spoa/src/req.rs
index 6b127c2..ff30e1a 100644
--- a/spoa/src/req.rs
+++ b/spoa/src/req.rs
@@ -19,7 +19,8 @@ pub fn hdrs_bin<T: Buf>(mut b: T) -> Result<HeaderMap> {
             break;
         }
 
-        hdrs.insert(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?);
+        hdrs.try_append(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?)
+            .map_err(http::Error::from)?;
     }
 
     Ok(hdrs)
-- 
2.43.0


From 1cd037bab08789486b6feb37a909067d6d696ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 21/24] fix: put the listening socket into non-blocking mode

---
 spoa/src/agent.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spoa/src/agent.rs b/spoa/src/agent.rs
index 6c6dd8f..d2cb376 100644
--- a/spoa/src/agent.rs
+++ b/spoa/src/agent.rs
@@ -44,6 +44,9 @@ pub struct Agent<S, T> {
 
 impl<S, T> Agent<S, T> {
     pub fn new(runtime: Arc<Runtime<S, T>>, listener: StdTcpListener) -> Result<Self> {
+        // sockets of the standard library are blocking, and would block the whole agent
+        listener.set_nonblocking(true)?;
+
         let listener = TcpListener::from_std(listener)?;
 
         Ok(Agent {
-- 
2.43.0


From cbd31bd8f49d35e9f1361c059e173e7c770b55dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 22/24] fix: wait for all connections in every call of serve

---
 spoa/src/agent.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spoa/src/agent.rs b/spoa/src/agent.rs
index d2cb376..adf4337 100644
--- a/spoa/src/agent.rs
+++ b/spoa/src/agent.rs
@@ -116,7 +116,10 @@ where
             }
         }
 
-        if self.shutdown.tracker.close() && !self.shutdown.tracker.is_empty() {
+        // another call of `serve` may have closed it already
+        self.shutdown.tracker.close();
+
+        if !self.shutdown.tracker.is_empty() {
             debug!(
                 conns = self.shutdown.tracker.len(),
                 "waiting for shutting down"
-- 
2.43.0


From 018fd18c522f4b58b7a7997e2692d6914751d00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:25 +0000
Subject: [PATCH 23/24] fix: ignore unknown capabilities in a HELLO instead of
 refusing it

---
 spop/src/frame/decode.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/spop/src/frame/decode.rs b/spop/src/frame/decode.rs
index c9e08cf..97c0729 100644
--- a/spop/src/frame/decode.rs
+++ b/spop/src/frame/decode.rs
@@ -211,12 +211,8 @@ impl KVList {
     pub fn capabilities(&mut self) -> Result<Vec<Capability>> {
         let s = self.string(kv::CAPABILITIES_KEY).ok_or(NoCapabilities)?;
 
-        s.split(',')
-            .map(|s| s.trim())
-            .filter(|s| !s.is_empty())
-            .map(|s| s.parse())
-            .collect::<StdResult<Vec<_>, _>>()
-            .map_err(|_| Invalid)
+        // unknown capabilities are ignored
+        Ok(s.split(',').filter_map(|s| s.trim().parse().ok()).collect())
     }
 
     pub fn status_code(&mut self) -> u32 {
-- 
2.43.0


From 3f97df0b2b2ac3ca74850589b3a0b4e1a771e9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:03 +0000
Subject: [PATCH 24/24] fix: refuse a HELLO without a common version as an
 unsupported version

---
 spoa/src/state/handshake.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spoa/src/state/handshake.rs b/spoa/src/state/handshake.rs
index 6b71b81..76dd821 100644
--- a/spoa/src/state/handshake.rs
+++ b/spoa/src/state/handshake.rs
@@ -5,7 +5,7 @@ use tracing::instrument;
 
 use crate::{
     error::Result,
-    spop::{AgentHello, Capability, Error::NoVersion, HaproxyHello, Version},
+    spop::{AgentHello, Capability, Error::BadVersion, HaproxyHello, Version},
 };
 
 #[instrument(ret, err, level = "trace")]
@@ -23,7 +23,7 @@ pub fn negotiate(
         .into_iter()
         .rev()
         .find(|version| supported_versions.iter().rev().any(|v| v == version))
-        .ok_or(NoVersion)?;
+        .ok_or(BadVersion)?;
     let max_frame_size = cmp::min(hello.max_frame_size, max_frame_size);
     let capabilities = hello
         .capabilities
-- 
2.43.0

