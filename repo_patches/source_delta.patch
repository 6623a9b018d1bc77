From b768f17f9443746046f04e3a487cbe9eba7b8d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 01/14] sim: hook to choose the first stream id (cfg yamux_sim,
 off by default)

---
 yamux/src/connection.rs |  2 ++
 yamux/src/lib.rs        |  3 +++
 yamux/src/sim.rs        | 18 ++++++++++++++++++
 3 files changed, 23 insertions(+)
 create mode 100644 yamux/src/sim.rs

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index ee17d39..0c512ed 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -368,6 +368,8 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
             stream_receivers: SelectAll::default(),
             no_streams_waker: None,
             next_id: match mode {
+                #[cfg(yamux_sim)]
+                _ if crate::sim::first_id().is_some() => crate::sim::first_id().unwrap_or(0),
                 Mode::Client => 1,
                 Mode::Server => 2,
             },
diff --git a/yamux/src/lib.rs b/yamux/src/lib.rs
index 0e5c65e..5137768 100644
--- a/yamux/src/lib.rs
+++ b/yamux/src/lib.rs
@@ -23,12 +23,15 @@
 //! [1]: https://github.com/hashicorp/yamux/blob/master/spec.md
 
 #![forbid(unsafe_code)]
+#![allow(unexpected_cfgs)] // `yamux_sim` is set by simulation builds only
 
 mod chunks;
 mod error;
 mod frame;
 
 pub(crate) mod connection;
+#[cfg(yamux_sim)]
+pub mod sim;
 mod tagged_stream;
 
 pub use crate::connection::{Connection, Mode, Packet, Stream};
diff --git a/yamux/src/sim.rs b/yamux/src/sim.rs
new file mode 100644
index 0000000..6d39342
--- /dev/null
+++ b/yamux/src/sim.rs
@@ -0,0 +1,18 @@
+//! Hooks for simulation testing, compiled only with `RUSTFLAGS="--cfg yamux_sim"`.
+
+use std::cell::Cell;
+
+thread_local! {
+    static FIRST_ID: Cell<Option<u32>> = const { Cell::new(None) };
+}
+
+/// First outbound stream identifier of connections created by this thread from now on.
+///
+/// `None` restores the default. Makes exhaustion of the identifier space reachable.
+pub fn set_first_id(id: Option<u32>) {
+    FIRST_ID.with(|f| f.set(id))
+}
+
+pub(crate) fn first_id() -> Option<u32> {
+    FIRST_ID.with(|f| f.get())
+}
-- 
2.43.0


From 48354a6bfcc59824b8f12adc9c743895a78bbb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 02/14] fix: send FIN only once when a stream is closed
 repeatedly

---
 yamux/src/connection/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index 6eb6dd4..f96d71a 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -408,8 +408,8 @@ impl AsyncWrite for Stream {
     }
 
     fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>> {
-        if self.is_closed() {
-            return Poll::Ready(Ok(()));
+        if !self.shared().state().can_write() {
+            return Poll::Ready(Ok(())); // already closed, a second FIN would be a protocol error
         }
         ready!(self
             .sender
-- 
2.43.0


From 4593d93f9ac1c05320273f171fd2d7ee02303873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 03/14] fix: announce a never used outbound stream when it is
 closed

---
 yamux/src/connection/stream.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index f96d71a..52f5031 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -415,14 +415,17 @@ impl AsyncWrite for Stream {
             .sender
             .poll_ready(cx)
             .map_err(|_| self.write_zero_err())?);
-        let ack = if self.flag == Flag::Ack {
-            self.flag = Flag::None;
-            true
-        } else {
-            false
-        };
         log::trace!("{}/{}: close", self.conn, self.id);
-        let cmd = StreamCommand::CloseStream { ack };
+        let cmd = match std::mem::replace(&mut self.flag, Flag::None) {
+            // The remote does not know about this stream yet, so it must be opened first.
+            Flag::Syn => {
+                let mut frame = Frame::close_stream(self.id, false).left();
+                frame.header_mut().syn();
+                StreamCommand::SendFrame(frame)
+            }
+            Flag::Ack => StreamCommand::CloseStream { ack: true },
+            Flag::None => StreamCommand::CloseStream { ack: false },
+        };
         self.sender
             .start_send(cmd)
             .map_err(|_| self.write_zero_err())?;
-- 
2.43.0


From 54f231344a92bc3d20b9bab0d774f529e0a47f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 04/14] fix: do not swallow write errors of the socket

---
 yamux/src/connection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 0c512ed..594d18b 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -402,7 +402,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
 
     fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<Stream>> {
         loop {
-            if self.socket.poll_ready_unpin(cx).is_ready() {
+            if self.socket.poll_ready_unpin(cx)?.is_ready() {
                 // Note `next_ping` does not register a waker and thus if not called regularly (idle
                 // connection) no ping is sent. This is deliberate as an idle connection does not
                 // need RTT measurements to increase its stream receive window.
-- 
2.43.0


From 1a2f796f079fef7426e9afdfebaec04e24f3ce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 05/14] fix: wake and close all streams when the connection is
 closed locally

---
 yamux/src/connection.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 594d18b..35b5c5a 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -382,7 +382,9 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
     }
 
     /// Gracefully close the connection to the remote.
-    fn close(self) -> Closing<T> {
+    fn close(mut self) -> Closing<T> {
+        self.drop_all_streams();
+
         let pending_frames = self
             .pending_read_frame
             .into_iter()
-- 
2.43.0


From be078357b74c1a7402a5a69220373240b4af2fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 06/14] fix: poll the receiver of a stream that is added while
 others are idle

---
 yamux/src/connection.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 35b5c5a..3e05fb0 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -455,10 +455,11 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                         };
                         continue;
                     }
-                    Poll::Ready(None) => {
+                    // Receivers of streams added later have not been polled yet and thus cannot
+                    // wake us, whether or not there are other streams at the moment.
+                    Poll::Ready(None) | Poll::Pending => {
                         self.no_streams_waker = Some(cx.waker().clone());
                     }
-                    Poll::Pending => {}
                 }
             }
 
-- 
2.43.0


From 718ddcf960fe5e04ff15adfad1a35b0398724919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:50 +0000
Subject: [PATCH 07/14] fix: do not let window updates steal the wake-up of a
 blocked writer

---
 yamux/src/connection/stream.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index 52f5031..c2ceda6 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -96,6 +96,8 @@ pub struct Stream {
     conn: connection::Id,
     config: Arc<Config>,
     sender: mpsc::Sender<StreamCommand>,
+    /// A sender holds the waker of one task only, but reading and writing may happen on two.
+    window_update_sender: mpsc::Sender<StreamCommand>,
     flag: Flag,
     shared: Arc<Mutex<Shared>>,
 }
@@ -129,6 +131,7 @@ impl Stream {
             id,
             conn,
             config: config.clone(),
+            window_update_sender: sender.clone(),
             sender,
             flag: Flag::Ack,
             shared: Arc::new(Mutex::new(Shared::new(
@@ -153,6 +156,7 @@ impl Stream {
             id,
             conn,
             config: config.clone(),
+            window_update_sender: sender.clone(),
             sender,
             flag: Flag::Syn,
             shared: Arc::new(Mutex::new(Shared::new(
@@ -219,7 +223,7 @@ impl Stream {
         }
 
         ready!(self
-            .sender
+            .window_update_sender
             .poll_ready(cx)
             .map_err(|_| self.write_zero_err())?);
 
@@ -230,7 +234,7 @@ impl Stream {
         let mut frame = Frame::window_update(self.id, credit).right();
         self.add_flag(frame.header_mut());
         let cmd = StreamCommand::SendFrame(frame);
-        self.sender
+        self.window_update_sender
             .start_send(cmd)
             .map_err(|_| self.write_zero_err())?;
 
-- 
2.43.0


From 0e89251e8f4d30fe5ae92115db09fae143c400c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 08/14] fix: keep reading while a reply cannot be written yet

---
 yamux/src/connection.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 3e05fb0..1fe7a5a 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -42,6 +42,9 @@ pub use stream::{Packet, State, Stream};
 /// Next connection identifier, used for debug logging.
 static NEXT_ID: AtomicU32 = AtomicU32::new(1);
 
+/// Replies to inbound frames (`Pong`, `GoAway`) we keep before we stop reading from the socket.
+const MAX_PENDING_READ_FRAMES: usize = 16;
+
 /// How the connection is used.
 #[derive(Copy, Clone, Debug, Hash, PartialEq, Eq)]
 pub enum Mode {
@@ -296,7 +299,7 @@ struct Active<T> {
     stream_receivers: SelectAll<TaggedStream<StreamId, mpsc::Receiver<StreamCommand>>>,
     no_streams_waker: Option<Waker>,
 
-    pending_read_frame: Option<Frame<()>>,
+    pending_read_frames: VecDeque<Frame<()>>,
     pending_write_frame: Option<Frame<()>>,
     new_outbound_stream_waker: Option<Waker>,
 
@@ -373,7 +376,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                 Mode::Client => 1,
                 Mode::Server => 2,
             },
-            pending_read_frame: None,
+            pending_read_frames: VecDeque::new(),
             pending_write_frame: None,
             new_outbound_stream_waker: None,
             rtt: rtt::Rtt::new(),
@@ -386,7 +389,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
         self.drop_all_streams();
 
         let pending_frames = self
-            .pending_read_frame
+            .pending_read_frames
             .into_iter()
             .chain(self.pending_write_frame)
             .collect::<VecDeque<Frame<()>>>();
@@ -416,8 +419,8 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                 // Privilege pending `Pong` and `GoAway` `Frame`s
                 // over `Frame`s from the receivers.
                 if let Some(frame) = self
-                    .pending_read_frame
-                    .take()
+                    .pending_read_frames
+                    .pop_front()
                     .or_else(|| self.pending_write_frame.take())
                 {
                     self.socket.start_send_unpin(frame)?;
@@ -463,7 +466,9 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                 }
             }
 
-            if self.pending_read_frame.is_none() {
+            // Not reading while a single reply cannot be sent would let two endpoints wait for each
+            // other forever when both are busy writing.
+            if self.pending_read_frames.len() < MAX_PENDING_READ_FRAMES {
                 match self.socket.poll_next_unpin(cx) {
                     Poll::Ready(Some(frame)) => {
                         match self.on_frame(frame?)? {
@@ -474,11 +479,11 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                             }
                             Action::Ping(f) => {
                                 log::trace!("{}/{}: pong", self.id, f.header().stream_id());
-                                self.pending_read_frame.replace(f.into());
+                                self.pending_read_frames.push_back(f.into());
                             }
                             Action::Terminate(f) => {
                                 log::trace!("{}: sending term", self.id);
-                                self.pending_read_frame.replace(f.into());
+                                self.pending_read_frames.push_back(f.into());
                             }
                         }
                         continue;
-- 
2.43.0


From 90aa1ed27c7c672b93ba170b0f435942a4a56f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 09/14] fix: wake the opener of a stream whenever the ACK
 backlog shrinks

---
 yamux/src/connection.rs        | 25 ++++++++++++++++++++++---
 yamux/src/connection/stream.rs |  5 +++--
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 1fe7a5a..ab214ac 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -442,11 +442,15 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                             frame.header().stream_id(),
                             frame.header()
                         );
+                        if frame.header().flags().contains(header::FIN) {
+                            self.wake_new_outbound();
+                        }
                         self.pending_write_frame.replace(frame.into());
                         continue;
                     }
                     Poll::Ready(Some((id, Some(StreamCommand::CloseStream { ack })))) => {
                         log::trace!("{}/{}: sending close", self.id, id);
+                        self.wake_new_outbound();
                         self.pending_write_frame
                             .replace(Frame::close_stream(id, ack).into());
                         continue;
@@ -525,6 +529,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
 
     fn on_drop_stream(&mut self, stream_id: StreamId) -> Option<Frame<()>> {
         let s = self.streams.remove(&stream_id).expect("stream not found");
+        self.wake_new_outbound();
 
         log::trace!("{}: removing dropped stream {}", self.id, stream_id);
         let frame = {
@@ -590,9 +595,15 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                     .lock()
                     .update_state(self.id, id, State::Open { acknowledged: true });
             }
-            if let Some(waker) = self.new_outbound_stream_waker.take() {
-                waker.wake();
-            }
+        }
+
+        // Apart from an `ACK`, the end of a stream takes it out of the ACK backlog as well.
+        let flags = frame.header().flags();
+        if [header::ACK, header::FIN, header::RST]
+            .into_iter()
+            .any(|f| flags.contains(f))
+        {
+            self.wake_new_outbound();
         }
 
         let action = match frame.header().tag() {
@@ -906,8 +917,16 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
 }
 
 impl<T> Active<T> {
+    /// Wake the task that waits to open a stream, if any, because the ACK backlog may be shorter.
+    fn wake_new_outbound(&mut self) {
+        if let Some(waker) = self.new_outbound_stream_waker.take() {
+            waker.wake();
+        }
+    }
+
     /// Close and drop all `Stream`s and wake any pending `Waker`s.
     fn drop_all_streams(&mut self) {
+        self.wake_new_outbound();
         for (id, s) in self.streams.drain() {
             let mut shared = s.lock();
             shared.update_state(self.id, id, State::Closed);
diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index c2ceda6..286d566 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -430,11 +430,12 @@ impl AsyncWrite for Stream {
             Flag::Ack => StreamCommand::CloseStream { ack: true },
             Flag::None => StreamCommand::CloseStream { ack: false },
         };
+        // The connection checks the state when it handles the command.
+        self.shared()
+            .update_state(self.conn, self.id, State::SendClosed);
         self.sender
             .start_send(cmd)
             .map_err(|_| self.write_zero_err())?;
-        self.shared()
-            .update_state(self.conn, self.id, State::SendClosed);
         Poll::Ready(Ok(()))
     }
 }
-- 
2.43.0


From f38b62bfc5ab44dea1e5beeeb59b1dc1225c5a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 10/14] fix: do not let a remote server open a stream with the
 session's id

---
 yamux/src/connection.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index ab214ac..dcab10b 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -910,7 +910,8 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
             return id.is_session();
         }
         match self.mode {
-            Mode::Client => id.is_server(),
+            // Zero is even as well, but it identifies the session.
+            Mode::Client => id.is_server() && !id.is_session(),
             Mode::Server => id.is_client(),
         }
     }
-- 
2.43.0


From 3d6486b5f4a719ce15de0f84008a50a6e9815e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:26 +0000
Subject: [PATCH 11/14] fix: never send a frame bigger than what is accepted
 from a remote

---
 yamux/src/connection/stream.rs | 4 +++-
 yamux/src/frame.rs             | 2 +-
 yamux/src/frame/io.rs          | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index 286d566..adb431d 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -16,7 +16,7 @@ use crate::{
     connection::{self, rtt, StreamCommand},
     frame::{
         header::{Data, Header, StreamId, WindowUpdate},
-        Frame,
+        Frame, MAX_FRAME_BODY_LEN,
     },
     Config, DEFAULT_CREDIT,
 };
@@ -379,6 +379,8 @@ impl AsyncWrite for Stream {
             }
             let k = std::cmp::min(shared.send_window() as usize, buf.len());
             let k = std::cmp::min(k, self.config.split_send_size);
+            // The remote refuses anything bigger, as we do.
+            let k = std::cmp::min(k, MAX_FRAME_BODY_LEN);
             shared
                 .consume_send_window(k as u32)
                 .expect("not exceed receive window");
diff --git a/yamux/src/frame.rs b/yamux/src/frame.rs
index 1b95e08..846c516 100644
--- a/yamux/src/frame.rs
+++ b/yamux/src/frame.rs
@@ -16,7 +16,7 @@ use header::{Data, GoAway, Header, Ping, StreamId, WindowUpdate};
 use std::{convert::TryInto, num::TryFromIntError};
 
 pub use io::FrameDecodeError;
-pub(crate) use io::Io;
+pub(crate) use io::{Io, MAX_FRAME_BODY_LEN};
 
 /// A Yamux message frame consisting of header and body.
 #[derive(Clone, Debug, PartialEq, Eq)]
diff --git a/yamux/src/frame/io.rs b/yamux/src/frame/io.rs
index b3f3dc7..61af119 100644
--- a/yamux/src/frame/io.rs
+++ b/yamux/src/frame/io.rs
@@ -25,7 +25,7 @@ use std::{
 /// Limits the amount of bytes a remote can cause the local node to allocate at once when reading.
 ///
 /// Chosen based on intuition in past iterations.
-const MAX_FRAME_BODY_LEN: usize = crate::MIB;
+pub(crate) const MAX_FRAME_BODY_LEN: usize = crate::MIB;
 
 /// A [`Stream`] and writer of [`Frame`] values.
 #[derive(Debug)]
-- 
2.43.0


From 46c155a7b6eb4c6c1b231812fe655c55865a88f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:26 +0000
Subject: [PATCH 12/14] fix: record that a window update has acknowledged the
 stream

---
 yamux/src/connection/stream.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index adb431d..12af822 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -233,6 +233,13 @@ impl Stream {
 
         let mut frame = Frame::window_update(self.id, credit).right();
         self.add_flag(frame.header_mut());
+
+        // See the comment in `poll_write`.
+        if frame.header().flags().contains(ACK) {
+            self.shared()
+                .update_state(self.conn, self.id, State::Open { acknowledged: true });
+        }
+
         let cmd = StreamCommand::SendFrame(frame);
         self.window_update_sender
             .start_send(cmd)
-- 
2.43.0


From 806006bfe78d995d11de3a69df002c71aa5de75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:26 +0000
Subject: [PATCH 13/14] fix: read what is buffered even if no window update can
 be sent any more

---
 yamux/src/connection/stream.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index 12af822..35bfea2 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -269,7 +269,8 @@ impl futures::stream::Stream for Stream {
 
         match self.send_window_update(cx) {
             Poll::Ready(Ok(())) => {}
-            Poll::Ready(Err(e)) => return Poll::Ready(Some(Err(e))),
+            // The connection is gone, but what has been received before can still be read.
+            Poll::Ready(Err(_)) => {}
             // Continue reading buffered data even though sending a window update blocked.
             Poll::Pending => {}
         }
@@ -322,7 +323,8 @@ impl AsyncRead for Stream {
 
         match self.send_window_update(cx) {
             Poll::Ready(Ok(())) => {}
-            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
+            // The connection is gone, but what has been received before can still be read.
+            Poll::Ready(Err(_)) => {}
             // Continue reading buffered data even though sending a window update blocked.
             Poll::Pending => {}
         }
-- 
2.43.0


From 08d83c68048361e500afe648fd0142b30cb92d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:26 +0000
Subject: [PATCH 14/14] fix: keep reading while closing the connection is
 blocked on writing

---
 yamux/src/connection/closing.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/yamux/src/connection/closing.rs b/yamux/src/connection/closing.rs
index 062d789..1c2145d 100644
--- a/yamux/src/connection/closing.rs
+++ b/yamux/src/connection/closing.rs
@@ -36,6 +36,21 @@ where
             socket,
         }
     }
+
+    /// Read one frame and drop it.
+    ///
+    /// If we did not read while we cannot write, two endpoints that close the connection at the
+    /// same time could wait for each other forever.
+    fn poll_discard_inbound(&mut self, cx: &mut Context<'_>) -> Poll<Result<()>> {
+        match ready!(self.socket.poll_next_unpin(cx)) {
+            Some(frame) => {
+                frame?;
+                Poll::Ready(Ok(()))
+            }
+            // Nothing more to read, only writing can make progress.
+            None => Poll::Pending,
+        }
+    }
 }
 
 impl<T> Future for Closing<T>
@@ -75,7 +90,10 @@ where
                     }
                 }
                 State::FlushingPendingFrames => {
-                    ready!(this.socket.poll_ready_unpin(cx))?;
+                    if this.socket.poll_ready_unpin(cx)?.is_pending() {
+                        ready!(this.poll_discard_inbound(cx))?;
+                        continue;
+                    }
 
                     match this.pending_frames.pop_front() {
                         Some(frame) => this.socket.start_send_unpin(frame)?,
@@ -83,7 +101,10 @@ where
                     }
                 }
                 State::ClosingSocket => {
-                    ready!(this.socket.poll_close_unpin(cx))?;
+                    if this.socket.poll_close_unpin(cx)?.is_pending() {
+                        ready!(this.poll_discard_inbound(cx))?;
+                        continue;
+                    }
 
                     return Poll::Ready(Ok(()));
                 }
-- 
2.43.0

