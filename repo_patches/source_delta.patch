From bdbc0f5809fde57c1f86608f6dc0ce8943f61ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 1/9] fix: continue sending after an internally created
 response

Server::progress_send returned Ok(None) after a literal continuation
request or BAD reply was sent, even if further responses were queued.
Server::next then reported NeedMoreInput (or accepted a literal) with
output still pending, so queued responses were delayed until the next
input, or never sent.
---
 src/server.rs | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 1150ae9..e45bd2b 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -180,28 +180,31 @@ impl Server {
     }
 
     fn progress_send(&mut self) -> Result<Option<Event>, Interrupt<Error>> {
-        match self.send_state.next() {
-            Ok(Some(ServerSendEvent::Greeting { greeting })) => {
-                // The initial greeting was sucessfully sent, inform the caller
-                Ok(Some(Event::GreetingSent { greeting }))
-            }
-            Ok(Some(ServerSendEvent::Response {
-                handle: Some(handle),
-                response,
-            })) => {
-                // A response was sucessfully sent, inform the caller
-                Ok(Some(Event::ResponseSent { handle, response }))
-            }
-            Ok(Some(ServerSendEvent::Response { handle: None, .. })) => {
-                // An internally created response was sent, don't inform the caller
-                Ok(None)
-            }
-            Ok(_) => {
-                // No progress yet
-                Ok(None)
+        loop {
+            match self.send_state.next() {
+                Ok(Some(ServerSendEvent::Greeting { greeting })) => {
+                    // The initial greeting was sucessfully sent, inform the caller
+                    break Ok(Some(Event::GreetingSent { greeting }));
+                }
+                Ok(Some(ServerSendEvent::Response {
+                    handle: Some(handle),
+                    response,
+                })) => {
+                    // A response was sucessfully sent, inform the caller
+                    break Ok(Some(Event::ResponseSent { handle, response }));
+                }
+                Ok(Some(ServerSendEvent::Response { handle: None, .. })) => {
+                    // An internally created response was sent, don't inform the caller.
+                    // There might be more queued messages, so continue with sending.
+                    continue;
+                }
+                Ok(None) => {
+                    // No message needs to be sent
+                    break Ok(None);
+                }
+                Err(Interrupt::Io(io)) => break Err(Interrupt::Io(io)),
+                Err(Interrupt::Error(_)) => unreachable!(),
             }
-            Err(Interrupt::Io(io)) => Err(Interrupt::Io(io)),
-            Err(Interrupt::Error(_)) => unreachable!(),
         }
     }
 
-- 
2.43.0


From 1a96ca95b147f1e1cba8c1af158647982aaae175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 2/9] fix: send messages over TLS that exceed the buffer limit
 of rustls

---
 src/stream.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index a5c4316..3ba74d1 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -298,13 +298,27 @@ fn encrypt(
     write_buffer: &mut BytesMut,
     plain_bytes: Vec<u8>,
 ) -> Result<(), DecryptEncryptError> {
-    if !plain_bytes.is_empty() {
-        tls.writer().write_all(&plain_bytes)?;
-    }
+    let mut plain_bytes = plain_bytes.as_slice();
+
+    loop {
+        // `rustls` buffers a limited number of bytes. For this reason we might need to
+        // take encrypted bytes before it accepts the remaining plain bytes.
+        if !plain_bytes.is_empty() {
+            let byte_count = tls.writer().write(plain_bytes)?;
+            if byte_count == 0 {
+                return Err(DecryptEncryptError::Io(ErrorKind::WriteZero.into()));
+            }
+            plain_bytes = &plain_bytes[byte_count..];
+        }
 
-    while tls.wants_write() {
-        let mut encrypted_bytes = write_buffer.writer();
-        tls.write_tls(&mut encrypted_bytes)?;
+        while tls.wants_write() {
+            let mut encrypted_bytes = write_buffer.writer();
+            tls.write_tls(&mut encrypted_bytes)?;
+        }
+
+        if plain_bytes.is_empty() {
+            break;
+        }
     }
 
     Ok(())
-- 
2.43.0


From 9c0bb47c733be8d1b8efbbf7e830f521bbfb2861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 3/9] fix: deliver data that was received along with the TLS
 handshake

---
 src/stream.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index 3ba74d1..82faee8 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -269,11 +269,9 @@ fn decrypt(
 ) -> Result<Vec<u8>, DecryptEncryptError> {
     let mut plain_bytes = Vec::new();
 
-    while tls.wants_read() && !read_buffer.is_empty() {
-        let mut encrypted_bytes = read_buffer.reader();
-        tls.read_tls(&mut encrypted_bytes)?;
-        tls.process_new_packets()?;
-
+    loop {
+        // This is also necessary before the first call to `read_tls` because `rustls` might
+        // have already received data along with the handshake.
         loop {
             let mut plain_bytes_chunk = [0; 128];
             match tls.reader().read(&mut plain_bytes_chunk) {
@@ -288,6 +286,14 @@ fn decrypt(
                 Ok(n) => plain_bytes.extend(&plain_bytes_chunk[0..n]),
             };
         }
+
+        if !tls.wants_read() || read_buffer.is_empty() {
+            break;
+        }
+
+        let mut encrypted_bytes = read_buffer.reader();
+        tls.read_tls(&mut encrypted_bytes)?;
+        tls.process_new_packets()?;
     }
 
     Ok(plain_bytes)
-- 
2.43.0


From 4f3e1272b81cd8ef1dc63fbb56cb80f5fe648109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 4/9] fix: report a closed TLS session instead of hanging

---
 src/stream.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/stream.rs b/src/stream.rs
index 82faee8..5bd40dd 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -138,6 +138,11 @@ impl Stream {
 
                     // Encrypt output bytes
                     encrypt(tls, &mut self.write_buffer, plain_bytes)?;
+
+                    // The peer won't send anything after closing the TLS session
+                    if tls.process_new_packets()?.peer_has_closed() {
+                        return Err(Error::Closed);
+                    }
                 }
             }
 
@@ -185,7 +190,8 @@ pub enum Error<E> {
     /// Operation failed because stream is closed.
     ///
     /// We detect this by checking if the read or written byte count is 0. Whether the stream is
-    /// closed indefinitely or temporarily depends on the actual stream implementation.
+    /// closed indefinitely or temporarily depends on the actual stream implementation. A TLS
+    /// stream is also closed if the peer has closed the TLS session.
     #[error("Stream was closed")]
     Closed,
     /// An I/O error occurred in the underlying stream.
@@ -283,6 +289,8 @@ fn decrypt(
                     break;
                 }
                 Err(err) => return Err(DecryptEncryptError::Io(err)),
+                // The peer has closed the TLS session and there is no more data.
+                Ok(0) => break,
                 Ok(n) => plain_bytes.extend(&plain_bytes_chunk[0..n]),
             };
         }
-- 
2.43.0


From ac4af8629c0b93e8207aacd62eac4a73aa0898d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:02 +0000
Subject: [PATCH 5/9] fix: filter capabilities in authenticate and idle
 responses too

---
 proxy/src/proxy.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 105d023..3e18dfa 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -396,19 +396,23 @@ fn handle_server_event(
             trace!(role = "p2s", ?handle, "--->");
         }
         client::Event::AuthenticateContinuationRequestReceived {
-            continuation_request,
+            mut continuation_request,
             ..
         } => {
             trace!(role = "s2p", authenticate_continuation_request=%format!("{:?}", continuation_request).blue(), "<--|");
 
+            util::filter_capabilities_in_continuation(&mut continuation_request);
+
             let handle = client_to_proxy
                 .authenticate_continue(continuation_request)
                 .unwrap();
             trace!(role = "p2c", ?handle, "authenticate_continue");
         }
-        client::Event::AuthenticateStatusReceived { status, .. } => {
+        client::Event::AuthenticateStatusReceived { mut status, .. } => {
             trace!(role = "s2p", authenticate_status=%format!("{:?}", status).blue(), "<--|");
 
+            util::filter_capabilities_in_status(&mut status);
+
             // TODO(#145): Fix unwrap
             let handle = client_to_proxy.authenticate_finish(status).unwrap();
             trace!(role = "p2c", ?handle, "authenticate_finish");
@@ -444,7 +448,7 @@ fn handle_server_event(
         }
         client::Event::IdleAccepted {
             handle,
-            continuation_request,
+            mut continuation_request,
         } => {
             trace!(
                 role = "s2p",
@@ -453,13 +457,17 @@ fn handle_server_event(
                 "<--|"
             );
 
+            util::filter_capabilities_in_continuation(&mut continuation_request);
+
             // TODO(#145): Fix unwrap
             let handle = client_to_proxy.idle_accept(continuation_request).unwrap();
             trace!(role = "p2c", ?handle, "idle_accept");
         }
-        client::Event::IdleRejected { handle, status } => {
+        client::Event::IdleRejected { handle, mut status } => {
             trace!(role = "s2p", ?handle, idle_rejected_status=%format!("{:?}", status).blue(), "<--|");
 
+            util::filter_capabilities_in_status(&mut status);
+
             // TODO(#145): Fix unwrap
             let handle = client_to_proxy.idle_reject(status).unwrap();
             trace!(role = "p2c", ?handle, "idle_reject");
-- 
2.43.0


From 234e6ad75264746f29dd116e1200e769feb3b164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:10 +0000
Subject: [PATCH 6/9] fix: proxy doesn't stop accepting clients during a TLS
 handshake

---
 proxy/src/main.rs  |  1 +
 proxy/src/proxy.rs | 44 +++++++++++++++++++++++++++++++-------------
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/proxy/src/main.rs b/proxy/src/main.rs
index 24624b4..e135951 100644
--- a/proxy/src/main.rs
+++ b/proxy/src/main.rs
@@ -89,6 +89,7 @@ async fn handle_service(service: Service) {
 
 #[instrument(name = "client", skip_all, fields(addr = %proxy.client_addr()))]
 async fn handle_client(proxy: Proxy<ClientAcceptedState>) -> Result<()> {
+    let proxy = proxy.start_tls_with_client().await?;
     let proxy = proxy.connect_to_server().await?;
     proxy.start_conversation().await;
     Ok(())
diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 3e18dfa..56caa34 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -80,6 +80,32 @@ impl Proxy<BoundState> {
         let (client_to_proxy, client_addr) = self.state.listener.accept().await?;
         info!(?client_addr, "Accepted client");
 
+        Ok(Proxy {
+            service: self.service.clone(),
+            state: ClientAcceptedState {
+                client_addr,
+                client_to_proxy,
+            },
+        })
+    }
+}
+
+pub struct ClientAcceptedState {
+    client_addr: SocketAddr,
+    client_to_proxy: TcpStream,
+}
+
+impl State for ClientAcceptedState {}
+
+impl Proxy<ClientAcceptedState> {
+    pub fn client_addr(&self) -> SocketAddr {
+        self.state.client_addr
+    }
+
+    // Note: This waits for the client. It must not be done before accepting the next client.
+    pub async fn start_tls_with_client(self) -> Result<Proxy<ClientConnectedState>, ProxyError> {
+        let client_to_proxy = self.state.client_to_proxy;
+
         let client_to_proxy = match &self.service.bind {
             Bind::Tls { identity, .. } => {
                 let config = {
@@ -116,27 +142,19 @@ impl Proxy<BoundState> {
         };
 
         Ok(Proxy {
-            service: self.service.clone(),
-            state: ClientAcceptedState {
-                client_addr,
-                client_to_proxy,
-            },
+            service: self.service,
+            state: ClientConnectedState { client_to_proxy },
         })
     }
 }
 
-pub struct ClientAcceptedState {
-    client_addr: SocketAddr,
+pub struct ClientConnectedState {
     client_to_proxy: Stream,
 }
 
-impl State for ClientAcceptedState {}
-
-impl Proxy<ClientAcceptedState> {
-    pub fn client_addr(&self) -> SocketAddr {
-        self.state.client_addr
-    }
+impl State for ClientConnectedState {}
 
+impl Proxy<ClientConnectedState> {
     pub async fn connect_to_server(self) -> Result<Proxy<ConnectedState>, ProxyError> {
         let server_addr_port = self.service.connect.addr_port();
         info!(%server_addr_port, "Connecting to server");
-- 
2.43.0


From 7458f9e8611b5b037f0623d40f909df2b0af733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:30 +0000
Subject: [PATCH 7/9] fix: proxy doesn't panic when authenticate data or the
 end of IDLE arrive out of place

---
 proxy/src/proxy.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 56caa34..808a910 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -317,11 +317,15 @@ fn handle_client_event(
         server::Event::AuthenticateDataReceived { authenticate_data } => {
             trace!(role = "c2p", authenticate_data=%format!("{:?}", authenticate_data).red(), "|-->");
 
-            // TODO(#145): Fix unwrap
-            let handle = proxy_to_server
-                .set_authenticate_data(authenticate_data)
-                .unwrap();
-            trace!(role = "p2s", ?handle, "set_authenticate_data");
+            match proxy_to_server.set_authenticate_data(authenticate_data) {
+                Ok(handle) => {
+                    trace!(role = "p2s", ?handle, "set_authenticate_data");
+                }
+                Err(authenticate_data) => {
+                    // The server didn't ask for it.
+                    error!(role = "c2p", ?authenticate_data, "Discard client message");
+                }
+            }
         }
         server::Event::IdleCommandReceived { tag } => {
             let idle = Command {
@@ -486,9 +490,16 @@ fn handle_server_event(
 
             util::filter_capabilities_in_status(&mut status);
 
-            // TODO(#145): Fix unwrap
-            let handle = client_to_proxy.idle_reject(status).unwrap();
-            trace!(role = "p2c", ?handle, "idle_reject");
+            match client_to_proxy.idle_reject(status) {
+                Ok(handle) => {
+                    trace!(role = "p2c", ?handle, "idle_reject");
+                }
+                Err(status) => {
+                    // The server finished the IDLE command without waiting for the IDLE done.
+                    let handle = client_to_proxy.enqueue_status(status);
+                    trace!(role = "p2c", ?handle, "enqueue_status");
+                }
+            }
         }
         client::Event::IdleDoneSent { handle } => {
             trace!(role = "p2c", ?handle, "--->");
-- 
2.43.0


From 7d2b140b868e6802efcdc6e1f5b2cf85d2f216b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 8/9] fix: proxy forwards what a side has sent before it closed
 the connection

---
 proxy/src/proxy.rs | 18 +++++++++++-------
 proxy/src/util.rs  | 43 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 54 insertions(+), 7 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 808a910..8c91a39 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -238,18 +238,22 @@ impl Proxy<ConnectedState> {
         let mut client_to_proxy_stream = self.state.client_to_proxy;
 
         loop {
-            let control_flow = tokio::select! {
+            tokio::select! {
                 event = client_to_proxy_stream.next(&mut client_to_proxy) => {
-                    handle_client_event(event, &mut proxy_to_server)
+                    if let ControlFlow::Abort = handle_client_event(event, &mut proxy_to_server) {
+                        // The server should still receive what the client has sent.
+                        util::send_enqueued(&mut proxy_to_server_stream, &mut proxy_to_server).await;
+                        break;
+                    }
                 }
                 event = proxy_to_server_stream.next(&mut proxy_to_server) => {
-                    handle_server_event(event, &mut client_to_proxy)
+                    if let ControlFlow::Abort = handle_server_event(event, &mut client_to_proxy) {
+                        // The client should still receive what the server has sent.
+                        util::send_enqueued(&mut client_to_proxy_stream, &mut client_to_proxy).await;
+                        break;
+                    }
                 }
             };
-
-            if let ControlFlow::Abort = control_flow {
-                break;
-            }
         }
     }
 }
diff --git a/proxy/src/util.rs b/proxy/src/util.rs
index 3f96cae..159dbfc 100644
--- a/proxy/src/util.rs
+++ b/proxy/src/util.rs
@@ -1,5 +1,9 @@
 use std::{fs::File, io::BufReader, path::Path};
 
+use imap_next::{
+    stream::{self, Stream},
+    Interrupt, Io, State,
+};
 use imap_types::{
     auth::AuthMechanism,
     core::Vec1,
@@ -17,6 +21,45 @@ pub enum ControlFlow {
     Abort,
 }
 
+/// Send the enqueued messages without waiting for any further message from the peer.
+pub async fn send_enqueued<S: State>(stream: &mut Stream, state: S) {
+    let mut state = SendOnly(state);
+
+    loop {
+        match stream.next(&mut state).await {
+            // We only care about sending.
+            Ok(_) | Err(stream::Error::State(Some(_))) => (),
+            // There is nothing more to send.
+            Err(stream::Error::State(None)) => break,
+            Err(stream::Error::Closed | stream::Error::Io(_) | stream::Error::Tls(_)) => return,
+        }
+    }
+
+    if let Err(error) = stream.flush().await {
+        warn!(%error, "Failed to send enqueued messages");
+    }
+}
+
+/// Fails with `None` instead of asking for more input.
+struct SendOnly<S>(S);
+
+impl<S: State> State for SendOnly<S> {
+    type Event = S::Event;
+    type Error = Option<S::Error>;
+
+    fn enqueue_input(&mut self, bytes: &[u8]) {
+        self.0.enqueue_input(bytes);
+    }
+
+    fn next(&mut self) -> Result<Self::Event, Interrupt<Self::Error>> {
+        self.0.next().map_err(|interrupt| match interrupt {
+            Interrupt::Io(Io::NeedMoreInput) => Interrupt::Error(None),
+            Interrupt::Io(io) => Interrupt::Io(io),
+            Interrupt::Error(error) => Interrupt::Error(Some(error)),
+        })
+    }
+}
+
 /// Remove unsupported capabilities in a greetings `Code::Capability`.
 pub fn filter_capabilities_in_greeting(greeting: &mut Greeting) {
     if let Some(Code::Capability(capabilities)) = &mut greeting.code {
-- 
2.43.0


From 333408eb5ca8e386c09b01d6b553c8865bed3cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:38 +0000
Subject: [PATCH 9/9] fix: don't reserve memory for a literal just because it
 was announced

---
 src/receive.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/receive.rs b/src/receive.rs
index 5a3ad70..99f0c63 100644
--- a/src/receive.rs
+++ b/src/receive.rs
@@ -4,6 +4,9 @@ use imap_codec::decode::Decoder;
 
 use crate::{Interrupt, Io};
 
+/// How many bytes are reserved at most for a literal that was announced but not received yet.
+const MAX_RESERVED_LITERAL_BYTES: usize = 64 * 1024;
+
 pub struct ReceiveState<C> {
     codec: C,
     crlf_relaxed: bool,
@@ -45,7 +48,9 @@ impl<C> ReceiveState<C> {
 
     pub fn start_literal(&mut self, length: u32) {
         self.next_fragment = NextFragment::Literal { length };
-        self.read_buffer.reserve(length as usize);
+        // The peer might never send what it announced (up to 4 GiB), so don't trust `length`.
+        self.read_buffer
+            .reserve((length as usize).min(MAX_RESERVED_LITERAL_BYTES));
     }
 
     pub fn finish_message(&mut self) {
-- 
2.43.0

