From 31574c8a42b0d522032106fb43f0beae5c9b8724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:19 +0000
Subject: [PATCH 01/12] fix: wake for queued outbound messages when a full send
 buffer drains

The outbound channel is not polled while the send buffer is full. When the
buffer was then written in one poll, nothing woke the task again and the
messages still in the channel stalled until unrelated activity.
---
 protosocket-connection/src/connection.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 36e817c..865ac79 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -532,6 +532,7 @@ where
     }
 
     fn poll_outbound(mut self: Pin<&mut Self>, context: &mut Context<'_>) -> Option<Poll<()>> {
+        let send_was_full = self.room_in_send_buffer() == 0;
         loop {
             break if !self.send_buffer.is_empty() {
                 // the write half of the stream is only considered for readiness when there is something to write.
@@ -571,6 +572,11 @@ where
                 log::trace!("nothing to send");
             };
         }
+        if send_was_full && 0 < self.room_in_send_buffer() {
+            // While the send buffer is full, the outbound message channel is not polled, so it will not wake this
+            // task. Now there is room again, so go and look for more outbound messages.
+            context.waker().wake_by_ref();
+        }
         None
     }
 }
-- 
2.43.0


From 0880505dd6f3c8ce8aa952776c6e6230c55ac20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:21 +0000
Subject: [PATCH 02/12] fix: flush accepted outbound messages before closing

When every outbound sender was dropped, the connection ended at once and
discarded messages that were serialized but not yet written.
---
 protosocket-connection/src/connection.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 865ac79..2b7ef3d 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -35,6 +35,7 @@ pub struct Connection<Bindings: ConnectionBindings> {
     receive_buffer_swap: Vec<u8>,
     max_buffer_length: usize,
     max_queued_send_messages: usize,
+    outbound_closed: bool,
     deserializer: Bindings::Deserializer,
     serializer: Bindings::Serializer,
     reactor: Bindings::Reactor,
@@ -89,10 +90,15 @@ impl<Bindings: ConnectionBindings> Future for Connection<Bindings> {
         }
 
         // Step 5: Send outbound messages if the stream is ready for writing
-        if let Some(early_out) = self.poll_outbound(context) {
+        if let Some(early_out) = self.as_mut().poll_outbound(context) {
             return early_out;
         }
 
+        // Nobody can send anymore: The connection is done when the accepted messages are written
+        if self.outbound_closed && self.send_buffer.is_empty() {
+            return Poll::Ready(());
+        }
+
         Poll::Pending
     }
 }
@@ -147,6 +153,7 @@ where
             max_buffer_length,
             receive_buffer_start_offset: 0,
             max_queued_send_messages,
+            outbound_closed: false,
             receive_buffer_slice_end: 0,
             deserializer,
             serializer,
@@ -322,7 +329,8 @@ where
                                 None => {
                                     assert_eq!(0, count);
                                     log::info!("outbound message channel was closed");
-                                    return Poll::Ready(());
+                                    self.outbound_closed = true;
+                                    break;
                                 }
                             }
                         }
-- 
2.43.0


From c7a94950c87ce678cbceefccaf9f853e5f5cfd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:22 +0000
Subject: [PATCH 03/12] fix: deliver received messages when the peer closes the
 stream

Messages that were read in the same poll as the end of the stream, or that
were waiting for their batch, were dropped with the connection.
---
 protosocket-connection/src/connection.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 2b7ef3d..d365220 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -469,10 +469,12 @@ where
                             }
                             ReadBufferState::Disconnected => {
                                 log::info!("read connection closed");
+                                self.react_to_received_messages();
                                 return Some(Poll::Ready(()));
                             }
                             ReadBufferState::Error(e) => {
                                 log::warn!("error while reading from tcp stream: {e:?}");
+                                self.react_to_received_messages();
                                 return Some(Poll::Ready(()));
                             }
                         }
@@ -539,6 +541,17 @@ where
         None
     }
 
+    /// The stream is done, so this is the last chance to deliver the messages that were already received
+    fn react_to_received_messages(&mut self) {
+        while let ReadBufferState::PartiallyConsumed = self.read_inbound_messages_into_read_queue()
+        {
+            if self.inbound_messages.is_empty() || self.poll_react().is_some() {
+                return;
+            }
+        }
+        self.poll_react();
+    }
+
     fn poll_outbound(mut self: Pin<&mut Self>, context: &mut Context<'_>) -> Option<Poll<()>> {
         let send_was_full = self.room_in_send_buffer() == 0;
         loop {
-- 
2.43.0


From ccaeacc7be55405e7b96af82cfa08380e268b91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:23 +0000
Subject: [PATCH 04/12] fix: deliver the messages that precede a broken one

Valid messages decoded in the same batch as an invalid or too long one were
discarded, so what was delivered depended on how the bytes were segmented.
---
 protosocket-connection/src/connection.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index d365220..dc948a3 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -518,6 +518,8 @@ where
             }
             ReadBufferState::Disconnected => {
                 log::info!("read queue closed");
+                // the messages in front of the broken one are fine
+                self.poll_react();
                 return Some(Poll::Ready(()));
             }
             ReadBufferState::Error(e) => {
-- 
2.43.0


From ad4f8327eeccf2c7c8ae47ed67b0d91dbb578f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:25 +0000
Subject: [PATCH 05/12] fix: keep reading after a full receive buffer is
 compacted

With a full receive buffer the task is not registered for readability. When
no message was decoded in that poll (a batch boundary in front of a partial
message, skipped messages, or a skip reaching past the buffer) nothing woke
the task again and the connection stalled forever. A message that can never
fit ends the connection instead of leaving it stuck.
---
 protosocket-connection/src/connection.rs | 26 ++++++++++++++++--------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index dc948a3..a818755 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -202,7 +202,16 @@ where
             let buffer = &self.receive_buffer
                 [self.receive_buffer_start_offset..self.receive_buffer_slice_end];
             log::trace!("decode {buffer:?}");
-            match self.deserializer.decode(buffer) {
+            let received = buffer.len();
+            match self.deserializer.decode(buffer).map_err(|e| match e {
+                DeserializeError::SkipMessage { distance } if received < distance => {
+                    log::trace!("cannot skip yet, need to read more. Skipping: {distance}, remaining: {received}");
+                    DeserializeError::IncompleteBuffer {
+                        next_message_size: distance,
+                    }
+                }
+                e => e,
+            }) {
                 Ok((length, message)) => {
                     self.receive_buffer_start_offset += length;
                     self.inbound_messages.push(message);
@@ -214,7 +223,7 @@ where
                             return ReadBufferState::Disconnected;
                         }
                         if self.max_buffer_length
-                            < self.receive_buffer_slice_end + next_message_size
+                            < self.receive_buffer_slice_end + next_message_size.max(1)
                         {
                             let length =
                                 self.receive_buffer_slice_end - self.receive_buffer_start_offset;
@@ -232,6 +241,10 @@ where
                             self.receive_buffer_start_offset = 0;
                             self.receive_buffer_slice_end = length;
                         }
+                        if self.max_buffer_length <= self.receive_buffer_slice_end {
+                            log::error!("receive buffer is full but the message is incomplete. Resetting connection - max: {}", self.max_buffer_length);
+                            return ReadBufferState::Disconnected;
+                        }
                         log::debug!("waiting for the next message of length {next_message_size}");
                         break ReadBufferState::WaitingForMore;
                     }
@@ -240,12 +253,6 @@ where
                         return ReadBufferState::Disconnected;
                     }
                     DeserializeError::SkipMessage { distance } => {
-                        if self.receive_buffer_slice_end - self.receive_buffer_start_offset
-                            < distance
-                        {
-                            log::trace!("cannot skip yet, need to read more. Skipping: {distance}, remaining:{}", self.receive_buffer_slice_end - self.receive_buffer_start_offset);
-                            break ReadBufferState::WaitingForMore;
-                        }
                         log::debug!("skipping message of length {distance}");
                         self.receive_buffer_start_offset += distance;
                     }
@@ -498,11 +505,12 @@ where
             return None;
         }
         let start_len = self.inbound_messages.len();
+        let receive_was_full = self.max_buffer_length <= self.receive_buffer_slice_end;
         match self.read_inbound_messages_into_read_queue() {
             ReadBufferState::WaitingForMore => {
                 log::trace!("read queue is still open");
                 let new_len = self.inbound_messages.len();
-                if start_len != new_len {
+                if start_len != new_len || receive_was_full {
                     // If you don't wake here, then when the read side gets full, you won't be registered for network
                     // activity wakes.
                     // You can skip this wake when you are deserializing a large message, because that is waiting
-- 
2.43.0


From 4b27a0bc9555cb471b8202dc5b9915ad75c06f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:26 +0000
Subject: [PATCH 06/12] fix: a message with an empty encoding does not close
 the connection

Writing only empty buffers returns 0, which was taken for a closed stream.
---
 protosocket-connection/src/connection.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index a818755..dc98e29 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -391,6 +391,12 @@ where
             .map(|v| IoSlice::new(v))
             .collect();
         match self.stream.try_write_vectored(&buffers) {
+            Ok(0) if buffers.iter().all(|buffer| buffer.is_empty()) => {
+                log::trace!("nothing to write for {} messages", buffers.len());
+                let empty_buffers = buffers.len();
+                self.serializer_buffers
+                    .extend(self.send_buffer.drain(..empty_buffers));
+            }
             Ok(0) => {
                 log::info!("write stream was closed");
                 return Ok(true);
-- 
2.43.0


From b77ff624c5990429b2322923ecbab873ceaf73dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:36 +0000
Subject: [PATCH 07/12] fix: prost length delimiters that are huge, malformed
 or padded

A huge announced length overflowed, a malformed delimiter was reported as
incomplete forever, and the size of the delimiter was guessed from its value
and left out of the size hint, so a message slightly above the maximum could
leave a connection waiting with a full buffer.
---
 protosocket-prost/src/prost_serializer.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/protosocket-prost/src/prost_serializer.rs b/protosocket-prost/src/prost_serializer.rs
index b03236a..81cfdf8 100644
--- a/protosocket-prost/src/prost_serializer.rs
+++ b/protosocket-prost/src/prost_serializer.rs
@@ -38,19 +38,29 @@ where
         &mut self,
         mut buffer: impl bytes::Buf,
     ) -> std::result::Result<(usize, Self::Message), DeserializeError> {
-        match prost::decode_length_delimiter(buffer.chunk()) {
+        /// A varint can not be longer than this.
+        const MAX_DELIMITER_LENGTH: usize = 10;
+
+        let mut after_delimiter = buffer.chunk();
+        let chunk_length = after_delimiter.len();
+        match prost::decode_length_delimiter(&mut after_delimiter) {
             Ok(message_length) => {
-                if buffer.remaining() < message_length + prost::length_delimiter_len(message_length)
-                {
+                let delimiter_length = chunk_length - after_delimiter.len();
+                let total_length = message_length.saturating_add(delimiter_length);
+                if buffer.remaining() < total_length {
                     return Err(DeserializeError::IncompleteBuffer {
-                        next_message_size: message_length,
+                        next_message_size: total_length,
                     });
                 }
             }
+            Err(e) if MAX_DELIMITER_LENGTH <= chunk_length => {
+                log::warn!("length delimiter is invalid: {e:?}");
+                return Err(DeserializeError::InvalidBuffer);
+            }
             Err(e) => {
                 log::trace!("can't read a length delimiter {e:?}");
                 return Err(DeserializeError::IncompleteBuffer {
-                    next_message_size: 10,
+                    next_message_size: MAX_DELIMITER_LENGTH,
                 });
             }
         };
-- 
2.43.0


From 9e9f7fca372f7cc2deb924076486ed43fbe8f50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:37 +0000
Subject: [PATCH 08/12] fix: messagepack messages are exactly as long as their
 frame says

A huge announced length overflowed, and a payload that was shorter or longer
than its announced length was accepted, so that the rest of it was read as
the next frame, or the next frame as its payload.
---
 protosocket-messagepack/src/lib.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/protosocket-messagepack/src/lib.rs b/protosocket-messagepack/src/lib.rs
index c5ad82d..c53c33a 100644
--- a/protosocket-messagepack/src/lib.rs
+++ b/protosocket-messagepack/src/lib.rs
@@ -92,23 +92,29 @@ where
                 length
             }
         };
-        if start_remaining < (length + 5) as usize {
+        let frame_length = length as usize + 5;
+        if start_remaining < frame_length {
             return Err(protosocket::DeserializeError::IncompleteBuffer {
-                next_message_size: (length + 5) as usize,
+                next_message_size: frame_length,
             });
         }
         self.state = State::Waiting;
 
-        rmp_serde::decode::from_read(&mut reader)
+        // the message must be exactly its frame: It may not read into the next one, or leave anything of its own
+        rmp_serde::decode::from_read((&mut reader).take(length as u64))
             .map_err(|e| {
                 log::error!("decode error length {length}: {e:?}");
                 protosocket::DeserializeError::InvalidBuffer
             })
-            .map(|message| {
+            .and_then(|message| {
                 let buffer = reader.into_inner();
                 let length = start_remaining - buffer.remaining();
+                if length != frame_length {
+                    log::error!("decoded {length} of a frame of {frame_length}");
+                    return Err(protosocket::DeserializeError::InvalidBuffer);
+                }
                 log::debug!("decoded {length}: {message:?}");
-                (length, message)
+                Ok((length, message))
             })
     }
 }
-- 
2.43.0


From 81b0ce316073c219d227ac812f473dc64e5b71d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:10 +0000
Subject: [PATCH 09/12] fix: dropping a finished completion does not touch a
 newer rpc with its id

---
 .../src/client/reactor/completion_registry.rs | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/protosocket-rpc/src/client/reactor/completion_registry.rs b/protosocket-rpc/src/client/reactor/completion_registry.rs
index 0764724..e976625 100644
--- a/protosocket-rpc/src/client/reactor/completion_registry.rs
+++ b/protosocket-rpc/src/client/reactor/completion_registry.rs
@@ -102,20 +102,22 @@ where
     Outbound: Message,
 {
     fn drop(&mut self) {
+        if self.closed {
+            // The rpc is finished and no longer tracked. Its id may already be in use by another rpc.
+            return;
+        }
         self.in_flight_submission
             .lock()
             .expect("brief internal mutex must work")
             // This doesn't result in a prompt wake of the reactor
             .insert(self.message_id, CompletionState::Done);
-        if !self.closed {
-            if let Err(e) = self
-                .raw_submission_queue
-                .try_send(Outbound::cancelled(self.message_id))
-            {
-                log::error!(
-                    "unable to send cancellation for message - this will abandon server rpcs {e:?}"
-                );
-            }
+        if let Err(e) = self
+            .raw_submission_queue
+            .try_send(Outbound::cancelled(self.message_id))
+        {
+            log::error!(
+                "unable to send cancellation for message - this will abandon server rpcs {e:?}"
+            );
         }
     }
 }
-- 
2.43.0


From e8fe8c8701aa9f7de95386aa53b62204b9c68d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:12 +0000
Subject: [PATCH 10/12] fix: resolve rpcs that were submitted but not yet
 tracked when the connection ends

---
 .../src/client/reactor/completion_reactor.rs         |  2 ++
 .../src/client/reactor/completion_registry.rs        | 12 ++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/protosocket-rpc/src/client/reactor/completion_reactor.rs b/protosocket-rpc/src/client/reactor/completion_reactor.rs
index febe6d5..20fe946 100644
--- a/protosocket-rpc/src/client/reactor/completion_reactor.rs
+++ b/protosocket-rpc/src/client/reactor/completion_reactor.rs
@@ -71,6 +71,8 @@ where
     fn drop(&mut self) {
         self.is_alive
             .store(false, std::sync::atomic::Ordering::Release);
+        // Clients share the submission map, so it does not go away with the reactor.
+        self.rpc_registry.close();
     }
 }
 
diff --git a/protosocket-rpc/src/client/reactor/completion_registry.rs b/protosocket-rpc/src/client/reactor/completion_registry.rs
index e976625..c928464 100644
--- a/protosocket-rpc/src/client/reactor/completion_registry.rs
+++ b/protosocket-rpc/src/client/reactor/completion_registry.rs
@@ -64,6 +64,18 @@ where
         }
     }
 
+    /// Drop everything that waits for the network, including rpcs that were not taken from the submission map yet.
+    pub fn close(&mut self) {
+        let submitted = std::mem::take(
+            &mut *self
+                .in_flight_submission
+                .lock()
+                .expect("brief internal mutex must work"),
+        );
+        drop(submitted);
+        self.in_flight.clear();
+    }
+
     pub fn deregister(&mut self, message_id: u64) {
         self.in_flight.remove(&message_id);
     }
-- 
2.43.0


From a9fd2a20811b83c7ff2d6ff8d5d87cf05975727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:55 +0000
Subject: [PATCH 11/12] fix: retiring a cancelled rpc does not abort a newer
 one with its id

---
 protosocket-rpc/src/server/connection_server.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/protosocket-rpc/src/server/connection_server.rs b/protosocket-rpc/src/server/connection_server.rs
index 2238136..63d00f8 100644
--- a/protosocket-rpc/src/server/connection_server.rs
+++ b/protosocket-rpc/src/server/connection_server.rs
@@ -156,11 +156,9 @@ where
                             }
                         }
                         Some((id, AbortableState::Aborted)) => {
-                            // This happens when the upstream stuff is dropped and there are no messages that can be produced. We'll send a cancellation.
+                            // The rpc was ended or cancelled, and its abort handle was removed at that time.
+                            // A handle with this id now belongs to a newer rpc.
                             log::debug!("{id} unary rpc done");
-                            if let Some(abort) = self.aborts.remove(&id) {
-                                abort.mark_aborted();
-                            }
                         }
                         None => {
                             // nothing to wait for
@@ -250,10 +248,9 @@ where
                             }
                         }
                         Some((id, AbortableState::Aborted)) => {
+                            // The rpc was ended or cancelled, and its abort handle was removed at that time.
+                            // A handle with this id now belongs to a newer rpc.
                             log::debug!("{id} streaming rpc done");
-                            if let Some(abort) = self.aborts.remove(&id) {
-                                abort.mark_aborted();
-                            }
                         }
                         None => {
                             // nothing to wait for
-- 
2.43.0


From 4ab37f2e4d8275bc16a462a5336491b3320053dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:24 +0000
Subject: [PATCH 12/12] fix: do not overflow when a huge message is announced
 to a connection without a practical length limit

---
 protosocket-connection/src/connection.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index dc98e29..4470ab8 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -223,7 +223,9 @@ where
                             return ReadBufferState::Disconnected;
                         }
                         if self.max_buffer_length
-                            < self.receive_buffer_slice_end + next_message_size.max(1)
+                            < self
+                                .receive_buffer_slice_end
+                                .saturating_add(next_message_size.max(1))
                         {
                             let length =
                                 self.receive_buffer_slice_end - self.receive_buffer_start_offset;
-- 
2.43.0

