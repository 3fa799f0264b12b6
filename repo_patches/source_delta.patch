From 848b2fcd7fca996251f8834a4c2b9b3d026ff651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:41 +0000
Subject: [PATCH 01/22] fix: close the connection when the client closes its
 side

An end of stream was ignored, so the handler polled the closed socket in a
busy loop until the keep alive timer ended it.
---
 src/handler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handler.rs b/src/handler.rs
index 5088d23..824c151 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -56,7 +56,8 @@ where
                     Ok(bytes) => {
                         let len = bytes.len();
                         if len == 0 {
-                            continue;
+                            debug!("Connection closed by client");
+                            break 'ctrl;
                         }
                         let (packet, packet_size) = Packet::unpack(bytes, protocol)?;
                         broker_info::sent_data(packet_size);
-- 
2.43.0


From fd4d8901fd1aa4f80ad42dd14b292575642def50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:51 +0000
Subject: [PATCH 02/22] fix: reassemble packets that arrive in several reads

A packet was decoded from whatever one read returned, at most 8 KiB, so split
or large packets were truncated and their rest was taken for new packets.
---
 src/handler.rs     | 47 +++++++++++++++++++++++++++++++++-------------
 src/packets/mod.rs |  8 ++++++++
 2 files changed, 42 insertions(+), 13 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index 824c151..52046db 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -1,8 +1,9 @@
 use std::time::Duration;
 
+use bytes::BytesMut;
 use log::{debug, error};
 use tokio::{
-    io::{AsyncBufReadExt, AsyncRead, AsyncWrite, AsyncWriteExt},
+    io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt},
     select,
     sync::mpsc::{channel, Sender},
     time::Instant,
@@ -21,6 +22,27 @@ use crate::{
     },
 };
 
+/// Read from the stream until `buffer` starts with a complete packet and split that packet off.
+/// Returns `None` at the end of the stream. Cancel safe, incomplete packets stay in `buffer`.
+async fn read_packet<R>(
+    reader: &mut R,
+    buffer: &mut BytesMut,
+) -> Result<Option<BytesMut>, MqttError>
+where
+    R: AsyncRead + Unpin,
+{
+    loop {
+        if let Some(len) = Packet::packet_len(buffer)? {
+            if buffer.len() >= len {
+                return Ok(Some(buffer.split_to(len)));
+            }
+        }
+        if reader.read_buf(buffer).await? == 0 {
+            return Ok(None);
+        }
+    }
+}
+
 pub async fn client_handler<R, W>(
     read_stream: R,
     mut writer: W,
@@ -39,6 +61,7 @@ where
     let mut cid = None;
     let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));
     let mut reader = tokio::io::BufReader::new(read_stream);
+    let mut buffer = BytesMut::new();
     let (tx, mut rx) = channel::<ClientEvent>(100);
 
     tokio::pin!(keepalive_timer);
@@ -51,27 +74,25 @@ where
             () = &mut keepalive_timer => {
                 break 'ctrl;
             }
-            buffer = reader.fill_buf() => {
-                let packet = match buffer {
-                    Ok(bytes) => {
-                        let len = bytes.len();
-                        if len == 0 {
-                            debug!("Connection closed by client");
-                            break 'ctrl;
-                        }
-                        let (packet, packet_size) = Packet::unpack(bytes, protocol)?;
+            frame = read_packet(&mut reader, &mut buffer) => {
+                let packet = match frame {
+                    Ok(Some(bytes)) => {
+                        let (packet, packet_size) = Packet::unpack(&bytes, protocol)?;
                         broker_info::sent_data(packet_size);
 
-                        reader.consume(packet_size);
                         packet
                     }
-                    Err(ref e) if e.kind() == std::io::ErrorKind::ConnectionReset || e.kind() == std::io::ErrorKind::ConnectionReset => {
+                    Ok(None) => {
+                        debug!("Connection closed by client");
+                        break 'ctrl;
+                    }
+                    Err(MqttError::Io(ref e)) if e.kind() == std::io::ErrorKind::ConnectionReset || e.kind() == std::io::ErrorKind::ConnectionReset => {
                         debug!("Connection lost");
                         break 'ctrl;
                     }
                     Err(err) => {
                         error!("{}",err);
-                        return Err(MqttError::Io(err));
+                        return Err(err);
                     }
                 };
 
diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 4edc732..b9c351a 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -814,6 +814,14 @@ impl Packet {
 
         buffer.freeze()
     }
+    /// Total length of the packet at the start of `bytes`, `None` as long as that can not be told yet.
+    pub fn packet_len(bytes: &[u8]) -> Result<Option<usize>, MqttError> {
+        match FixedHeader::from_bytes(&mut bytes.iter(), None) {
+            Ok(fixed) => Ok(Some(fixed.get_remaing_len() + fixed.get_rl_len() + 1)),
+            Err(MqttError::RequiredByteMissing(_)) => Ok(None),
+            Err(err) => Err(err),
+        }
+    }
     pub fn unpack(bytes: &[u8], protocal: ProtocalVersion) -> Result<(Self, usize), MqttError> {
         let mut iter = bytes.iter();
 
-- 
2.43.0


From cfede863b0bdabdb5a20c002858db2a5f12abde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:44 +0000
Subject: [PATCH 03/22] fix: reject packets whose lengths do not add up

Length fields inside a packet could exceed it: strings and payloads were
silently cut short, following packets were consumed, and a too small remaining
length made the handler panic (subtraction overflow).
---
 src/packets/mod.rs   | 28 +++++++++++++++++-----------
 src/packets/utils.rs | 16 +++++++++++++++-
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index b9c351a..e45107f 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -11,7 +11,7 @@ use crate::{
 use self::{
     enums::{ConnectReturnCode, QosLevel, SubackReturnCode},
     headers::{connack::AcknowledgeFlags, connect::Flags},
-    utils::{encode_length, unpack_bytes, unpack_properties, unpack_string, unpack_u16},
+    utils::{encode_length, remaining, unpack_bytes, unpack_properties, unpack_string, unpack_u16},
 };
 
 #[repr(u8)]
@@ -483,13 +483,13 @@ impl VariableHeader {
 
                 let packet_id = if fixed.get_qos()? > QosLevel::AtMost {
                     let id = Some(unpack_u16(iter)?);
-                    len -= size_of::<u16>();
+                    len = remaining(len, size_of::<u16>())?;
                     id
                 } else {
                     None
                 };
 
-                len -= size_of::<u16>() + topic.len();
+                len = remaining(len, size_of::<u16>() + topic.len())?;
 
                 let payload = unpack_bytes(iter, len)?;
 
@@ -551,7 +551,7 @@ impl VariableHeader {
                 // # Variable header
 
                 let packet_id = unpack_u16(iter)?;
-                len -= size_of::<u16>();
+                len = remaining(len, size_of::<u16>())?;
 
                 // # Payload
                 /*
@@ -563,13 +563,13 @@ impl VariableHeader {
                 let mut tuples = Vec::new();
                 while len > 0 {
                     let topic = unpack_string(iter)?;
-                    len -= topic.len() + size_of::<u16>();
+                    len = remaining(len, topic.len() + size_of::<u16>())?;
 
                     let qos = QosLevel::try_from(
                         *iter.next().ok_or_else(|| MqttError::MalformedHeader)?,
                     )?;
 
-                    len -= size_of::<u8>();
+                    len = remaining(len, size_of::<u8>())?;
 
                     tuples.push((topic, qos));
                 }
@@ -588,7 +588,7 @@ impl VariableHeader {
             PacketType::Suback => {
                 let packet_id = unpack_u16(iter)?;
 
-                let mut len = fixed.get_remaing_len() - size_of::<u16>();
+                let mut len = remaining(fixed.get_remaing_len(), size_of::<u16>())?;
 
                 let mut return_codes = Vec::new();
                 while len > 0 {
@@ -610,13 +610,13 @@ impl VariableHeader {
                 let mut len = fixed.get_remaing_len();
                 let mut tuples = Vec::<String>::new();
                 let packet_id = unpack_u16(iter)?;
-                len -= size_of::<u16>();
+                len = remaining(len, size_of::<u16>())?;
 
                 while len > 0 {
-                    len -= size_of::<u16>();
+                    len = remaining(len, size_of::<u16>())?;
 
                     let topic = unpack_string(iter)?;
-                    len -= topic.len();
+                    len = remaining(len, topic.len())?;
 
                     tuples.push(topic);
                 }
@@ -829,7 +829,13 @@ impl Packet {
 
         let len = fixed.get_remaing_len() + fixed.get_rl_len() + 1;
 
-        let variable = VariableHeader::unpack(&mut iter, &fixed, protocal)?;
+        // Nothing beyond the remaining length belongs to this packet
+        let mut body = iter.take(fixed.get_remaing_len());
+
+        let variable = VariableHeader::unpack(&mut body, &fixed, protocal)?;
+        if body.next().is_some() {
+            return Err(MqttError::MalformedRemaingLength);
+        }
         Ok((Self { fixed, variable }, len))
     }
 }
diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index b6e5fb4..a6f1f3b 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -78,12 +78,23 @@ where
     unpack_string_with_len(iter, len)
 }
 
+/// What is left of a packet of which `len` bytes were left once `used` more of them are used
+pub fn remaining(len: usize, used: usize) -> Result<usize, MqttError> {
+    len.checked_sub(used)
+        .ok_or(MqttError::MalformedRemaingLength)
+}
+
 /// Read a set of bytes
 pub fn unpack_bytes<'a, I>(iter: &mut I, len: usize) -> Result<bytes::Bytes, MqttError>
 where
     I: Iterator<Item = &'a u8>,
 {
-    Ok(Bytes::from_iter(iter.take(len).copied()))
+    let bytes = Bytes::from_iter(iter.take(len).copied());
+    if bytes.len() < len {
+        return Err(MqttError::MissingByte);
+    }
+
+    Ok(bytes)
 }
 
 pub fn unpack_string_with_len<'a, I>(iter: &mut I, len: usize) -> Result<String, MqttError>
@@ -95,6 +106,9 @@ where
     }
 
     let chars: Vec<u8> = iter.take(len).copied().collect();
+    if chars.len() < len {
+        return Err(MqttError::MissingByte);
+    }
 
     let result = String::from_utf8(chars).map_err(MqttError::MalformedString)?;
 
-- 
2.43.0


From 37a3a6516369374ec049ac088ee885dc9ef03da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:45 +0000
Subject: [PATCH 04/22] fix: encode remaining lengths of four bytes

The fixed header byte in front was counted as a length byte, so packets of
2 MiB and more were sent with a truncated length field.
---
 src/packets/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index a6f1f3b..82dc198 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -147,8 +147,9 @@ where
 
 pub fn encode_length(len: usize, bytes: &mut BytesMut) {
     let mut mlen = len;
+    let start = bytes.len();
     loop {
-        if bytes.len() + 1 > MAX_ENCODED_BYTES {
+        if bytes.len() - start + 1 > MAX_ENCODED_BYTES {
             return;
         }
 
-- 
2.43.0


From fb3b2e786b2e2532854c7c9cf26e3dafc14171d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:46 +0000
Subject: [PATCH 05/22] fix: write packets completely

write() may accept only a part of the packet; the rest was lost and the
client saw a corrupted stream.
---
 src/handler.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index 52046db..ee7141d 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -104,8 +104,8 @@ where
                                 // The Server MUST process a second CONNECT Packet sent from a Client as a protocol violation and disconnect the Client
                                 let resp = Packet::make_connack(ConnectReturnCode::V4UnacceptableProtocal,false);
 
-                                let len = writer.write(&resp).await?;
-                                debug!("Wrote {} bytes", len);
+                                writer.write_all(&resp).await?;
+                                debug!("Wrote {} bytes", resp.len());
 
                                 break 'ctrl;
                             }
@@ -135,8 +135,8 @@ where
 
                           let resp = Packet::make_connack(ConnectReturnCode::Accepted,false);
 
-                          let len = writer.write(&resp).await?;
-                          debug!("Wrote {} bytes", len);
+                          writer.write_all(&resp).await?;
+                          debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::Subscribe { packet_id, tuples,.. } => {
                             let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
@@ -159,8 +159,8 @@ where
 
                             let resp = Packet::make_suback(packet_id, codes);
 
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            writer.write_all(&resp).await?;
+                            debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::Unsubscribe { packet_id, tuples, .. } => {
                             let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
@@ -183,8 +183,8 @@ where
                             r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
 
                             let resp = Packet::make_unsuback(packet_id);
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            writer.write_all(&resp).await?;
+                            debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
                             message_bridge
@@ -210,26 +210,26 @@ where
                             };
 
                             if let Some(resp) = data {
-                                let len = writer.write(&resp).await?;
-                                debug!("Wrote {} bytes", len);
+                                writer.write_all(&resp).await?;
+                                debug!("Wrote {} bytes", resp.len());
                             }
                         }
                         VariableHeader::PubRec { packet_id, .. } => {
                             let resp = Packet::make_pubrel(packet_id);
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            writer.write_all(&resp).await?;
+                            debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::PubRel { packet_id, .. } => {
                             let resp = Packet::make_pubcomp(packet_id);
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            writer.write_all(&resp).await?;
+                            debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::PubComp { packet_id: _, ..} | VariableHeader::PubAck { packet_id: _, .. } => {}
                         VariableHeader::PingReq => {
                             keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
                             let resp = Packet::make_ping_resp();
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            writer.write_all(&resp).await?;
+                            debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::Disconnect { .. } => {
                             debug!("Disconnect Called");
@@ -254,8 +254,8 @@ where
                 if let Some(ev) = event {
                     match ev {
                         ClientEvent::Message(msg) => {
-                            let len = writer.write(&msg).await?;
-                            debug!("Wrote {} bytes",len);
+                            writer.write_all(&msg).await?;
+                            debug!("Wrote {} bytes", msg.len());
                         },
                         ClientEvent::Disconnect => break 'ctrl,
                     }
-- 
2.43.0


From 68442660d8d6496e5f513d7ebfecfb29f8e07105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:43 +0000
Subject: [PATCH 06/22] fix: end a session with its own connection

Only DISCONNECT ended a session, whichever connection it belonged to by then:
a late DISCONNECT, SUBSCRIBE or UNSUBSCRIBE of a connection that had been
taken over hit the new one, and connections ending otherwise left their session
and subscriptions behind, whose stale entries also shadowed the subscriptions
made after a reconnect.
---
 src/core/enums.rs |  4 ++-
 src/core/mod.rs   | 36 ++++++++++++++++-----------
 src/handler.rs    | 63 ++++++++++++++++++++++++++++++++++-------------
 src/main.rs       | 10 +++++---
 src/topic_heir.rs | 16 ++++++++++++
 5 files changed, 94 insertions(+), 35 deletions(-)

diff --git a/src/core/enums.rs b/src/core/enums.rs
index fe5da56..1d51fb6 100644
--- a/src/core/enums.rs
+++ b/src/core/enums.rs
@@ -19,6 +19,7 @@ pub enum Command {
 
     Subscribe {
         client: String,
+        message_channel: Receiver<ClientEvent>,
         topics: Vec<(String, QosLevel)>,
         callback: Responder<Result<Vec<SubackReturnCode>, MqttError>>,
     },
@@ -30,9 +31,10 @@ pub enum Command {
     Unsubscribe {
         topics: Vec<String>,
         cid: String,
+        message_channel: Receiver<ClientEvent>,
         callback: Responder<Result<(), MqttError>>,
     },
-    DisconnectClient(String),
+    DisconnectClient(String, Receiver<ClientEvent>),
     Exit,
 }
 
diff --git a/src/core/mod.rs b/src/core/mod.rs
index 61f2080..88ae78d 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -39,12 +39,15 @@ impl App {
     pub fn subscribe(
         &mut self,
         cid: String,
+        message_channel: Sender<ClientEvent>,
         topics: Vec<(String, QosLevel)>,
         callback: tokio::sync::oneshot::Sender<Result<Vec<SubackReturnCode>, MqttError>>,
     ) {
         let (id, bridge) = match self.sessions.get(&cid) {
-            Some(session) => (session.id, session.bridge.clone()),
-            None => {
+            Some(session) if session.bridge.same_channel(&message_channel) => {
+                (session.id, session.bridge.clone())
+            }
+            _ => {
                 if callback.send(Err(MqttError::Unknown)).is_err() {
                     log::error!("Client does not exist");
                 }
@@ -75,12 +78,13 @@ impl App {
     pub fn unsubscribe(
         &mut self,
         cid: String,
+        message_channel: Sender<ClientEvent>,
         topics: Vec<String>,
         callback: tokio::sync::oneshot::Sender<Result<(), MqttError>>,
     ) {
         let id = match self.sessions.get(&cid) {
-            Some(session) => session.id,
-            None => {
+            Some(session) if session.bridge.same_channel(&message_channel) => session.id,
+            _ => {
                 if callback.send(Err(MqttError::Unknown)).is_err() {
                     log::error!("Client does not exist");
                 }
@@ -116,11 +120,11 @@ impl App {
             }
         }
 
-        if let Some(existing_client) = self.sessions.get_mut(&client_id) {
-            existing_client.bridge = message_channel;
-        } else {
-            self.sessions
-                .insert(client_id, Session::new(message_channel));
+        if let Some(existing_client) = self
+            .sessions
+            .insert(client_id, Session::new(message_channel))
+        {
+            self.subscriptions.remove_client(existing_client.id);
         }
 
         if callback.send(Ok(())).is_err() {
@@ -128,11 +132,15 @@ impl App {
         }
     }
 
-    pub fn disconnect(&mut self, cid: String) {
-        /*if let Some(client) = self.sessions.get(&cid) {
-
-        }*/
-        self.sessions.remove(&cid);
+    /// End the session of the connection behind `message_channel`,
+    /// unless a newer connection has taken over the client id
+    pub fn disconnect(&mut self, cid: String, message_channel: Sender<ClientEvent>) {
+        if let Some(client) = self.sessions.get(&cid) {
+            if client.bridge.same_channel(&message_channel) {
+                self.subscriptions.remove_client(client.id);
+                self.sessions.remove(&cid);
+            }
+        }
     }
 
     pub async fn publish(&self, topic: String, payload: Bytes) {
diff --git a/src/handler.rs b/src/handler.rs
index ee7141d..ed6d194 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -5,7 +5,7 @@ use log::{debug, error};
 use tokio::{
     io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt},
     select,
-    sync::mpsc::{channel, Sender},
+    sync::mpsc::{channel, Receiver, Sender},
     time::Instant,
 };
 use tokio_util::sync::CancellationToken;
@@ -55,14 +55,54 @@ where
 {
     broker_info::client_inc();
 
+    let mut cid = None;
+    let (tx, rx) = channel::<ClientEvent>(100);
+
+    let result = serve_client(
+        read_stream,
+        &mut writer,
+        &message_bridge,
+        cancellation,
+        &tx,
+        rx,
+        &mut cid,
+    )
+    .await;
+
+    // However the connection ended, its session ends with it
+    if let Some(id) = cid {
+        let command = Command::DisconnectClient(id, tx);
+        if message_bridge.send(command).await.is_err() {
+            error!("Receiver dropped!");
+        }
+    }
+
+    broker_info::client_dec();
+
+    debug!("Client: disconnect");
+
+    result
+}
+
+async fn serve_client<R, W>(
+    read_stream: R,
+    writer: &mut W,
+    message_bridge: &Sender<Command>,
+    cancellation: CancellationToken,
+    tx: &Sender<ClientEvent>,
+    mut rx: Receiver<ClientEvent>,
+    cid: &mut Option<String>,
+) -> Result<(), MqttError>
+where
+    W: AsyncWrite + Unpin,
+    R: AsyncRead + Unpin,
+{
     let mut keepalive_duration: u64 = 60;
     let mut has_connected = false;
     let mut protocol = ProtocalVersion::Unknown;
-    let mut cid = None;
     let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));
     let mut reader = tokio::io::BufReader::new(read_stream);
     let mut buffer = BytesMut::new();
-    let (tx, mut rx) = channel::<ClientEvent>(100);
 
     tokio::pin!(keepalive_timer);
 
@@ -113,7 +153,7 @@ where
                             protocol = protocol_version;
 
                             let (r_tx, r_rx) = tokio::sync::oneshot::channel::<Result<(), MqttError>>();
-                            cid = Some(client_id.clone());
+                            *cid = Some(client_id.clone());
 
                             if message_bridge
                             .send(Command::RegisterClient {
@@ -146,6 +186,7 @@ where
                             if message_bridge
                             .send(Command::Subscribe {
                                 client: id.clone(),
+                                message_channel: tx.clone(),
                                 topics: tuples,
                                 callback: r_tx,
                             })
@@ -171,6 +212,7 @@ where
                                 .send(Command::Unsubscribe {
                                     topics: tuples,
                                     cid: id.clone(),
+                                    message_channel: tx.clone(),
                                     callback: r_tx,
                                 })
                                 .await
@@ -233,15 +275,6 @@ where
                         },
                         VariableHeader::Disconnect { .. } => {
                             debug!("Disconnect Called");
-                            let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
-                            if message_bridge
-                            .send(Command::DisconnectClient(id.clone()))
-                            .await
-                            .is_err()
-                            {
-                                error!("Receiver dropped!");
-                                break 'ctrl;
-                            }
                             break 'ctrl;
                         },
                         _ => {
@@ -265,9 +298,5 @@ where
         }
     }
 
-    broker_info::client_dec();
-
-    debug!("Client: disconnect");
-
     Ok(())
 }
diff --git a/src/main.rs b/src/main.rs
index 7325fdb..8509ef3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -69,17 +69,21 @@ async fn main() -> Result<(), MqttError> {
                 }
                 Command::Subscribe {
                     client,
+                    message_channel,
                     topics,
                     callback,
-                } => context.subscribe(client, topics, callback),
+                } => context.subscribe(client, message_channel, topics, callback),
 
                 Command::Publish { topic, payload } => context.publish(topic, payload).await,
                 Command::Unsubscribe {
                     topics,
                     cid,
+                    message_channel,
                     callback,
-                } => context.unsubscribe(cid, topics, callback),
-                Command::DisconnectClient(cid) => context.disconnect(cid),
+                } => context.unsubscribe(cid, message_channel, topics, callback),
+                Command::DisconnectClient(cid, message_channel) => {
+                    context.disconnect(cid, message_channel)
+                }
                 Command::Exit => break,
             }
         }
diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index dca804c..db2798c 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -114,6 +114,19 @@ impl SubHier {
         self.children.is_empty() && self.shared.is_empty() && self.subs.is_empty()
     }
 
+    /// Remove all subscriptions of a client, returns whether nothing is left
+    pub fn remove_client(&mut self, identifier: u128) -> bool {
+        self.subs.retain(|e| e.identifier != identifier);
+        self.shared.retain(|_, subs| {
+            subs.retain(|e| e.identifier != identifier);
+            !subs.is_empty()
+        });
+        self.children
+            .retain(|_, child| !child.remove_client(identifier));
+
+        self.children.is_empty() && self.shared.is_empty() && self.subs.is_empty()
+    }
+
     pub fn get(
         &self,
         iter: &mut impl std::iter::Iterator<Item = String>,
@@ -204,6 +217,9 @@ impl SubscriptionTree {
 
         Ok(())
     }
+    pub fn remove_client(&mut self, identifier: u128) {
+        self.0.retain(|_, child| !child.remove_client(identifier));
+    }
     pub fn get(&self, filter: String) -> Result<Vec<(u128, Sender<ClientEvent>, QosLevel)>, u8> {
         let mut subscribers = Vec::new();
         let (filter_list, sharename) = utils::tokenise_topic(filter)?;
-- 
2.43.0


From 5a9498a5352d8cc5da7c443ed93db0d8abbbf7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 07/22] fix: keep taking in events while a connection is busy

A connection that waited for the command loop or for its client did not empty
its event queue. Once that queue was full the command loop waited for the
connection: one client that stops reading stopped the broker for everyone, and
a connection waiting for room in the command queue deadlocked with it.
---
 src/error.rs   |   2 +
 src/handler.rs | 114 ++++++++++++++++++++++++++++++++-----------------
 2 files changed, 77 insertions(+), 39 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 29ad68f..e6fec80 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -46,6 +46,8 @@ pub enum MqttError {
 
     #[error("Client identifier is invalid")]
     ClientIdentifierRejected,
+    #[error("Connection ended while it was busy")]
+    ConnectionEnded,
     #[error("Failed to get client id")]
     FailedToGetCId,
     #[error("PoisonError")]
diff --git a/src/handler.rs b/src/handler.rs
index ed6d194..fec2050 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -1,12 +1,12 @@
-use std::time::Duration;
+use std::{collections::VecDeque, future::Future, pin::Pin, time::Duration};
 
-use bytes::BytesMut;
+use bytes::{Bytes, BytesMut};
 use log::{debug, error};
 use tokio::{
     io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt},
     select,
     sync::mpsc::{channel, Receiver, Sender},
-    time::Instant,
+    time::{Instant, Sleep},
 };
 use tokio_util::sync::CancellationToken;
 
@@ -43,6 +43,46 @@ where
     }
 }
 
+/// The events of a connection, and what else can end it while it is busy
+struct Mailbox {
+    events: Receiver<ClientEvent>,
+    /// Messages that arrived while the connection was busy
+    backlog: VecDeque<Bytes>,
+    cancellation: CancellationToken,
+    keepalive_timer: Pin<Box<Sleep>>,
+}
+
+impl Mailbox {
+    /// Wait for `operation`, taking in events meanwhile: the command loop must never have to
+    /// wait for a connection that is itself waiting for the command loop or for its client.
+    async fn attend<F: Future>(&mut self, operation: F) -> Result<F::Output, MqttError> {
+        tokio::pin!(operation);
+
+        loop {
+            select! {
+                output = &mut operation => return Ok(output),
+                () = self.cancellation.cancelled() => return Err(MqttError::ConnectionEnded),
+                () = &mut self.keepalive_timer => return Err(MqttError::ConnectionEnded),
+                event = self.events.recv() => match event {
+                    Some(ClientEvent::Message(msg)) => self.backlog.push_back(msg),
+                    Some(ClientEvent::Disconnect) | None => return Err(MqttError::ConnectionEnded),
+                },
+            }
+        }
+    }
+}
+
+/// The next event of a connection, those put off while it was busy first
+async fn next_event(
+    backlog: &mut VecDeque<Bytes>,
+    events: &mut Receiver<ClientEvent>,
+) -> Option<ClientEvent> {
+    match backlog.pop_front() {
+        Some(msg) => Some(ClientEvent::Message(msg)),
+        None => events.recv().await,
+    }
+}
+
 pub async fn client_handler<R, W>(
     read_stream: R,
     mut writer: W,
@@ -90,7 +130,7 @@ async fn serve_client<R, W>(
     message_bridge: &Sender<Command>,
     cancellation: CancellationToken,
     tx: &Sender<ClientEvent>,
-    mut rx: Receiver<ClientEvent>,
+    rx: Receiver<ClientEvent>,
     cid: &mut Option<String>,
 ) -> Result<(), MqttError>
 where
@@ -100,18 +140,21 @@ where
     let mut keepalive_duration: u64 = 60;
     let mut has_connected = false;
     let mut protocol = ProtocalVersion::Unknown;
-    let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));
+    let mut mailbox = Mailbox {
+        events: rx,
+        backlog: VecDeque::new(),
+        cancellation,
+        keepalive_timer: Box::pin(tokio::time::sleep(Duration::from_secs(60))),
+    };
     let mut reader = tokio::io::BufReader::new(read_stream);
     let mut buffer = BytesMut::new();
 
-    tokio::pin!(keepalive_timer);
-
     'ctrl: loop {
         select! {
-            () = cancellation.cancelled() => {
+            () = mailbox.cancellation.cancelled() => {
                 break 'ctrl;
             }
-            () = &mut keepalive_timer => {
+            () = &mut mailbox.keepalive_timer => {
                 break 'ctrl;
             }
             frame = read_packet(&mut reader, &mut buffer) => {
@@ -144,7 +187,7 @@ where
                                 // The Server MUST process a second CONNECT Packet sent from a Client as a protocol violation and disconnect the Client
                                 let resp = Packet::make_connack(ConnectReturnCode::V4UnacceptableProtocal,false);
 
-                                writer.write_all(&resp).await?;
+                                mailbox.attend(writer.write_all(&resp)).await??;
                                 debug!("Wrote {} bytes", resp.len());
 
                                 break 'ctrl;
@@ -155,27 +198,26 @@ where
                             let (r_tx, r_rx) = tokio::sync::oneshot::channel::<Result<(), MqttError>>();
                             *cid = Some(client_id.clone());
 
-                            if message_bridge
-                            .send(Command::RegisterClient {
+                            if mailbox.attend(message_bridge.send(Command::RegisterClient {
                                 id: client_id,
                                 message_channel: tx.clone(),
                                 protocol,
                                 clean_session: flags.clean_session(),
                                 callback: r_tx,
-                            }).await.is_err()
+                            })).await?.is_err()
                           {
                                 error!("Receiver dropped. Closing");
                                 break 'ctrl;
                           }
 
-                          r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
+                          mailbox.attend(r_rx).await?.map_err(|_| MqttError::QueuePoisonError)??;
                           has_connected = true;
                           keepalive_duration = (keepalive as u64) + 4;
-                          keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
+                          mailbox.keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
 
                           let resp = Packet::make_connack(ConnectReturnCode::Accepted,false);
 
-                          writer.write_all(&resp).await?;
+                          mailbox.attend(writer.write_all(&resp)).await??;
                           debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::Subscribe { packet_id, tuples,.. } => {
@@ -183,24 +225,22 @@ where
                             let (r_tx, r_rx) =
                             tokio::sync::oneshot::channel::<Result<Vec<SubackReturnCode>, MqttError>>();
 
-                            if message_bridge
-                            .send(Command::Subscribe {
+                            if mailbox.attend(message_bridge.send(Command::Subscribe {
                                 client: id.clone(),
                                 message_channel: tx.clone(),
                                 topics: tuples,
                                 callback: r_tx,
-                            })
-                            .await
+                            })).await?
                             .is_err()
                             {
                                 error!("Receiver dropped!");
                                 break 'ctrl;
                             }
-                            let codes = r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
+                            let codes = mailbox.attend(r_rx).await?.map_err(|_| MqttError::QueuePoisonError)??;
 
                             let resp = Packet::make_suback(packet_id, codes);
 
-                            writer.write_all(&resp).await?;
+                            mailbox.attend(writer.write_all(&resp)).await??;
                             debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::Unsubscribe { packet_id, tuples, .. } => {
@@ -208,33 +248,29 @@ where
 
                             let (r_tx, r_rx) = tokio::sync::oneshot::channel::<Result<(), MqttError>>();
 
-                            if message_bridge
-                                .send(Command::Unsubscribe {
+                            if mailbox.attend(message_bridge.send(Command::Unsubscribe {
                                     topics: tuples,
                                     cid: id.clone(),
                                     message_channel: tx.clone(),
                                     callback: r_tx,
-                                })
-                                .await
+                                })).await?
                                 .is_err()
                             {
                                 error!("Receiver dropped. Closing");
                                 break 'ctrl;
                             }
 
-                            r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
+                            mailbox.attend(r_rx).await?.map_err(|_| MqttError::QueuePoisonError)??;
 
                             let resp = Packet::make_unsuback(packet_id);
-                            writer.write_all(&resp).await?;
+                            mailbox.attend(writer.write_all(&resp)).await??;
                             debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
-                            message_bridge
-                            .send(Command::Publish {
+                            mailbox.attend(message_bridge.send(Command::Publish {
                                 topic,
                                 payload,
-                            })
-                            .await
+                            })).await?
                             .map_err(MqttError::ChannelError)?;
 
                             let data = match packet.fixed.get_qos()? {
@@ -252,25 +288,25 @@ where
                             };
 
                             if let Some(resp) = data {
-                                writer.write_all(&resp).await?;
+                                mailbox.attend(writer.write_all(&resp)).await??;
                                 debug!("Wrote {} bytes", resp.len());
                             }
                         }
                         VariableHeader::PubRec { packet_id, .. } => {
                             let resp = Packet::make_pubrel(packet_id);
-                            writer.write_all(&resp).await?;
+                            mailbox.attend(writer.write_all(&resp)).await??;
                             debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::PubRel { packet_id, .. } => {
                             let resp = Packet::make_pubcomp(packet_id);
-                            writer.write_all(&resp).await?;
+                            mailbox.attend(writer.write_all(&resp)).await??;
                             debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::PubComp { packet_id: _, ..} | VariableHeader::PubAck { packet_id: _, .. } => {}
                         VariableHeader::PingReq => {
-                            keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
+                            mailbox.keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
                             let resp = Packet::make_ping_resp();
-                            writer.write_all(&resp).await?;
+                            mailbox.attend(writer.write_all(&resp)).await??;
                             debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::Disconnect { .. } => {
@@ -283,11 +319,11 @@ where
                         }
                     }
             }
-            event = rx.recv() => {
+            event = next_event(&mut mailbox.backlog, &mut mailbox.events) => {
                 if let Some(ev) = event {
                     match ev {
                         ClientEvent::Message(msg) => {
-                            writer.write_all(&msg).await?;
+                            mailbox.attend(writer.write_all(&msg)).await??;
                             debug!("Wrote {} bytes", msg.len());
                         },
                         ClientEvent::Disconnect => break 'ctrl,
-- 
2.43.0


From 5794dad9beba3ac685008302948720cc41109d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 08/22] fix: deliver with the right QoS and with packet
 identifiers

Deliveries used the QoS granted to the subscription even for publications of a
lower QoS, and QoS 1 and 2 deliveries had no packet identifier, so that
clients took the start of the payload for one.
---
 src/core/enums.rs |  1 +
 src/core/mod.rs   | 19 ++++++++++++++++---
 src/handler.rs    |  5 ++++-
 src/main.rs       |  6 +++++-
 4 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/core/enums.rs b/src/core/enums.rs
index 1d51fb6..92ff97a 100644
--- a/src/core/enums.rs
+++ b/src/core/enums.rs
@@ -26,6 +26,7 @@ pub enum Command {
 
     Publish {
         topic: String,
+        qos: QosLevel,
         payload: Bytes,
     },
     Unsubscribe {
diff --git a/src/core/mod.rs b/src/core/mod.rs
index 88ae78d..82e7e8c 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -25,6 +25,7 @@ mod session;
 pub struct App {
     sessions: HashMap<String, Session>,
     subscriptions: SubscriptionTree,
+    last_packet_id: u16,
 }
 
 impl App {
@@ -32,6 +33,7 @@ impl App {
         Self {
             sessions: HashMap::new(),
             subscriptions: SubscriptionTree::new(),
+            last_packet_id: 0,
         }
     }
 
@@ -143,7 +145,13 @@ impl App {
         }
     }
 
-    pub async fn publish(&self, topic: String, payload: Bytes) {
+    /// The packet identifier of the next delivery that needs one, these are never zero
+    fn next_packet_id(&mut self) -> u16 {
+        self.last_packet_id = self.last_packet_id.checked_add(1).unwrap_or(1);
+        self.last_packet_id
+    }
+
+    pub async fn publish(&mut self, topic: String, publish_qos: QosLevel, payload: Bytes) {
         let subs = match self.subscriptions.get(topic.clone()) {
             Ok(subs) => subs,
             Err(_) => {
@@ -151,9 +159,14 @@ impl App {
             }
         };
 
-        for (_, bridge, qos) in subs {
+        for (_, bridge, granted_qos) in subs {
+            let qos = granted_qos.min(publish_qos);
+            let packet_id = match qos {
+                QosLevel::AtMost => None,
+                QosLevel::AtLeast | QosLevel::Exactly => Some(self.next_packet_id()),
+            };
             let packet =
-                Packet::make_publish(false, qos, false, topic.clone(), None, payload.clone());
+                Packet::make_publish(false, qos, false, topic.clone(), packet_id, payload.clone());
             if let Err(e) = bridge.send(ClientEvent::Message(packet)).await {
                 log::error!("receiver dropped: {}", e);
             }
diff --git a/src/handler.rs b/src/handler.rs
index fec2050..c849c66 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -267,13 +267,16 @@ where
                             debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
+                            let qos = packet.fixed.get_qos()?;
+
                             mailbox.attend(message_bridge.send(Command::Publish {
                                 topic,
+                                qos,
                                 payload,
                             })).await?
                             .map_err(MqttError::ChannelError)?;
 
-                            let data = match packet.fixed.get_qos()? {
+                            let data = match qos {
                                 QosLevel::AtMost => None,
                                 QosLevel::AtLeast => {
                                     let id = packet_id.ok_or_else(|| MqttError::ProtocolViolation)?;
diff --git a/src/main.rs b/src/main.rs
index 8509ef3..3085e17 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -74,7 +74,11 @@ async fn main() -> Result<(), MqttError> {
                     callback,
                 } => context.subscribe(client, message_channel, topics, callback),
 
-                Command::Publish { topic, payload } => context.publish(topic, payload).await,
+                Command::Publish {
+                    topic,
+                    qos,
+                    payload,
+                } => context.publish(topic, qos, payload).await,
                 Command::Unsubscribe {
                     topics,
                     cid,
-- 
2.43.0


From c6a6c60138ac1e4b356381a6081cc3f14f0f5379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 09/22] fix: deliver at the highest QoS of overlapping
 subscriptions

Which of several matching subscriptions of a client determined the QoS of its
delivery depended on the order in which the tree is walked.
---
 src/topic_heir.rs | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index db2798c..28cbce4 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -33,6 +33,17 @@ impl SubscriptionLeaf {
     }
 }
 
+/// Add a matching subscription: each client once, at the highest QoS of its matching subscriptions
+fn add_subscriber(
+    subscribers: &mut Vec<(u128, Sender<ClientEvent>, QosLevel)>,
+    sub: &SubscriptionLeaf,
+) {
+    match subscribers.iter_mut().find(|e| e.0 == sub.identifier) {
+        Some(subscriber) => subscriber.2 = subscriber.2.max(sub.qos),
+        None => subscribers.push((sub.identifier, sub.bridge.clone(), sub.qos)),
+    }
+}
+
 #[derive(Debug)]
 struct SubHier {
     children: DashMap<String, SubHier>,
@@ -144,16 +155,12 @@ impl SubHier {
         } else if let Some(share) = share {
             if let Some(s) = self.shared.get(share) {
                 for x in s.iter() {
-                    if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                        subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                    }
+                    add_subscriber(subscribers, x);
                 }
             }
         } else {
             for x in &self.subs {
-                if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                    subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                }
+                add_subscriber(subscribers, x);
             }
         }
 
@@ -161,16 +168,12 @@ impl SubHier {
             if let Some(share) = share {
                 if let Some(s) = child.shared.get(share) {
                     for x in s.iter() {
-                        if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                            subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                        }
+                        add_subscriber(subscribers, x);
                     }
                 }
             } else {
                 for x in &child.subs {
-                    if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                        subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                    }
+                    add_subscriber(subscribers, x);
                 }
             }
         }
@@ -241,16 +244,12 @@ impl SubscriptionTree {
             if let Some(share) = sharename {
                 if let Some(s) = child.shared.get(&share) {
                     for x in s.iter() {
-                        if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                            subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                        }
+                        add_subscriber(&mut subscribers, x);
                     }
                 }
             } else {
                 for x in &child.subs {
-                    if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                        subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                    }
+                    add_subscriber(&mut subscribers, x);
                 }
             }
         }
-- 
2.43.0


From 029398152789fd61861bb2c2120544c62e7ef322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:08 +0000
Subject: [PATCH 10/22] fix: deliver a repeated QoS 2 publication once

A QoS 2 PUBLISH that was sent again before its PUBREL was delivered again.
---
 src/handler.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index c849c66..2f1519a 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -1,4 +1,9 @@
-use std::{collections::VecDeque, future::Future, pin::Pin, time::Duration};
+use std::{
+    collections::{HashSet, VecDeque},
+    future::Future,
+    pin::Pin,
+    time::Duration,
+};
 
 use bytes::{Bytes, BytesMut};
 use log::{debug, error};
@@ -140,6 +145,7 @@ where
     let mut keepalive_duration: u64 = 60;
     let mut has_connected = false;
     let mut protocol = ProtocalVersion::Unknown;
+    let mut unreleased: HashSet<u16> = HashSet::new();
     let mut mailbox = Mailbox {
         events: rx,
         backlog: VecDeque::new(),
@@ -269,12 +275,20 @@ where
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
                             let qos = packet.fixed.get_qos()?;
 
-                            mailbox.attend(message_bridge.send(Command::Publish {
-                                topic,
-                                qos,
-                                payload,
-                            })).await?
-                            .map_err(MqttError::ChannelError)?;
+                            // A QoS 2 publication is the same one again until it has been released
+                            let is_new = match (qos, packet_id) {
+                                (QosLevel::Exactly, Some(id)) => unreleased.insert(id),
+                                _ => true,
+                            };
+
+                            if is_new {
+                                mailbox.attend(message_bridge.send(Command::Publish {
+                                    topic,
+                                    qos,
+                                    payload,
+                                })).await?
+                                .map_err(MqttError::ChannelError)?;
+                            }
 
                             let data = match qos {
                                 QosLevel::AtMost => None,
@@ -301,6 +315,7 @@ where
                             debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::PubRel { packet_id, .. } => {
+                            unreleased.remove(&packet_id);
                             let resp = Packet::make_pubcomp(packet_id);
                             mailbox.attend(writer.write_all(&resp)).await??;
                             debug!("Wrote {} bytes", resp.len());
-- 
2.43.0


From 784b8c3927c80f1c1b9d28c3b7f5224ea9c1d831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:09 +0000
Subject: [PATCH 11/22] fix: require a CONNECT before any other packet

Publications, pings and acknowledgements were processed without one.
---
 src/handler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/handler.rs b/src/handler.rs
index 2f1519a..5347c46 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -185,6 +185,11 @@ where
                     }
                 };
 
+                if !has_connected && !matches!(packet.variable, VariableHeader::Connect { .. }) {
+                    error!("The first packet is not a connect packet");
+                    break 'ctrl;
+                }
+
                 match packet.variable {
                         VariableHeader::Connect { flags, keepalive, client_id, protocol_version, .. } => {
                             if has_connected {
-- 
2.43.0


From b517cc9f6c9729742059aeed381c315954771cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:37 +0000
Subject: [PATCH 12/22] fix: tell refused clients the reason with a CONNACK

Unsupported protocol levels and unusable client identifiers closed the
connection without the return code reserved for them.
---
 src/handler.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index 5347c46..41db177 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -166,10 +166,28 @@ where
             frame = read_packet(&mut reader, &mut buffer) => {
                 let packet = match frame {
                     Ok(Some(bytes)) => {
-                        let (packet, packet_size) = Packet::unpack(&bytes, protocol)?;
-                        broker_info::sent_data(packet_size);
+                        match Packet::unpack(&bytes, protocol) {
+                            Ok((packet, packet_size)) => {
+                                broker_info::sent_data(packet_size);
+                                packet
+                            }
+                            Err(err) => {
+                                let code = match err {
+                                    MqttError::UnacceptableProtocolLevel => Some(ConnectReturnCode::V4UnacceptableProtocal),
+                                    MqttError::ClientIdentifierRejected => Some(ConnectReturnCode::V4IdentifierRejected),
+                                    _ => None,
+                                };
+
+                                // A refused client is told why
+                                if let (Some(code), false) = (code, has_connected) {
+                                    let resp = Packet::make_connack(code, false);
+                                    mailbox.attend(writer.write_all(&resp)).await??;
+                                    debug!("Wrote {} bytes", resp.len());
+                                }
 
-                        packet
+                                return Err(err);
+                            }
+                        }
                     }
                     Ok(None) => {
                         debug!("Connection closed by client");
-- 
2.43.0


From 897f8faa115abeb2aff40cd991f750fafebea57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:02 +0000
Subject: [PATCH 13/22] fix: count every packet as a sign of life and honour
 the keep alive interval

Only PINGREQ restarted the keep alive timer, so that publishing clients were
closed, a keep alive of zero closed the connection after four seconds and long
intervals expired before one and a half times their length or short ones long
after.
---
 src/handler.rs | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index 41db177..9a18e1f 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -55,9 +55,20 @@ struct Mailbox {
     backlog: VecDeque<Bytes>,
     cancellation: CancellationToken,
     keepalive_timer: Pin<Box<Sleep>>,
+    /// How long the client may be silent, `None` if it may be for ever
+    keepalive: Option<Duration>,
 }
 
 impl Mailbox {
+    /// The client has been heard
+    fn keep_alive(&mut self) {
+        if let Some(keepalive) = self.keepalive {
+            self.keepalive_timer
+                .as_mut()
+                .reset(Instant::now() + keepalive);
+        }
+    }
+
     /// Wait for `operation`, taking in events meanwhile: the command loop must never have to
     /// wait for a connection that is itself waiting for the command loop or for its client.
     async fn attend<F: Future>(&mut self, operation: F) -> Result<F::Output, MqttError> {
@@ -67,7 +78,7 @@ impl Mailbox {
             select! {
                 output = &mut operation => return Ok(output),
                 () = self.cancellation.cancelled() => return Err(MqttError::ConnectionEnded),
-                () = &mut self.keepalive_timer => return Err(MqttError::ConnectionEnded),
+                () = &mut self.keepalive_timer, if self.keepalive.is_some() => return Err(MqttError::ConnectionEnded),
                 event = self.events.recv() => match event {
                     Some(ClientEvent::Message(msg)) => self.backlog.push_back(msg),
                     Some(ClientEvent::Disconnect) | None => return Err(MqttError::ConnectionEnded),
@@ -142,7 +153,7 @@ where
     W: AsyncWrite + Unpin,
     R: AsyncRead + Unpin,
 {
-    let mut keepalive_duration: u64 = 60;
+    let connect_timeout = Duration::from_secs(60);
     let mut has_connected = false;
     let mut protocol = ProtocalVersion::Unknown;
     let mut unreleased: HashSet<u16> = HashSet::new();
@@ -150,7 +161,8 @@ where
         events: rx,
         backlog: VecDeque::new(),
         cancellation,
-        keepalive_timer: Box::pin(tokio::time::sleep(Duration::from_secs(60))),
+        keepalive_timer: Box::pin(tokio::time::sleep(connect_timeout)),
+        keepalive: Some(connect_timeout),
     };
     let mut reader = tokio::io::BufReader::new(read_stream);
     let mut buffer = BytesMut::new();
@@ -160,7 +172,7 @@ where
             () = mailbox.cancellation.cancelled() => {
                 break 'ctrl;
             }
-            () = &mut mailbox.keepalive_timer => {
+            () = &mut mailbox.keepalive_timer, if mailbox.keepalive.is_some() => {
                 break 'ctrl;
             }
             frame = read_packet(&mut reader, &mut buffer) => {
@@ -208,6 +220,10 @@ where
                     break 'ctrl;
                 }
 
+                if has_connected {
+                    mailbox.keep_alive();
+                }
+
                 match packet.variable {
                         VariableHeader::Connect { flags, keepalive, client_id, protocol_version, .. } => {
                             if has_connected {
@@ -241,8 +257,12 @@ where
 
                           mailbox.attend(r_rx).await?.map_err(|_| MqttError::QueuePoisonError)??;
                           has_connected = true;
-                          keepalive_duration = (keepalive as u64) + 4;
-                          mailbox.keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
+                          // One and a half times the keep alive interval, zero turns it off
+                          mailbox.keepalive = match keepalive {
+                              0 => None,
+                              seconds => Some(Duration::from_millis(u64::from(seconds) * 1500)),
+                          };
+                          mailbox.keep_alive();
 
                           let resp = Packet::make_connack(ConnectReturnCode::Accepted,false);
 
@@ -345,7 +365,6 @@ where
                         },
                         VariableHeader::PubComp { packet_id: _, ..} | VariableHeader::PubAck { packet_id: _, .. } => {}
                         VariableHeader::PingReq => {
-                            mailbox.keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
                             let resp = Packet::make_ping_resp();
                             mailbox.attend(writer.write_all(&resp)).await??;
                             debug!("Wrote {} bytes", resp.len());
-- 
2.43.0


From 21b1b17e298ba31a4c42998d8aacfdc8aab02fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 14/22] fix: reject packets with invalid fixed header flags

The flag bits of all packets but PUBLISH are reserved. Only SUBSCRIBE looked
at them, with a condition that hardly any wrong combination met.
---
 src/packets/headers/fixed_header.rs | 15 +++++++++++++++
 src/packets/mod.rs                  |  5 ++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/packets/headers/fixed_header.rs b/src/packets/headers/fixed_header.rs
index 50fa549..e061cf3 100644
--- a/src/packets/headers/fixed_header.rs
+++ b/src/packets/headers/fixed_header.rs
@@ -141,6 +141,21 @@ impl FixedHeader {
     pub fn get_retain(&self) -> bool {
         self.flags & 0x01 == 1
     }
+    /// Check the flag bits that are reserved: all but those of PUBLISH are fixed by the packet type
+    pub fn validate_flags(&self) -> Result<(), MqttError> {
+        let flags = self.flags & 0x0F;
+        let valid = match self.get_packet_type()? {
+            PacketType::Publish => true,
+            PacketType::Pubrel | PacketType::Subscribe | PacketType::Unsubscribe => flags == 0x02,
+            _ => flags == 0,
+        };
+
+        if valid {
+            Ok(())
+        } else {
+            Err(MqttError::MalformedHeader)
+        }
+    }
     pub fn get_remaing_len(&self) -> usize {
         self.remaining_len
     }
diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index e45107f..3c8dc7a 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -342,6 +342,8 @@ impl VariableHeader {
     where
         I: Iterator<Item = &'a u8>,
     {
+        fixed.validate_flags()?;
+
         match fixed.get_packet_type()? {
             PacketType::Connect => {
                 //  ===== Start Connect header =======
@@ -543,9 +545,6 @@ impl VariableHeader {
                 })
             }
             PacketType::Subscribe => {
-                if !fixed.get_dup() && fixed.get_qos()? != QosLevel::AtLeast && fixed.get_retain() {
-                    return Err(MqttError::MalformedHeader);
-                }
                 let mut len = fixed.get_remaing_len();
 
                 // # Variable header
-- 
2.43.0


From 22f0c7f8ad9476104aac4daded6c979936416d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 15/22] fix: reject zero packet identifiers and empty
 UNSUBSCRIBE packets

---
 src/packets/mod.rs   | 15 +++++++++++----
 src/packets/utils.rs | 11 +++++++++++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 3c8dc7a..b87e3b1 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -11,7 +11,10 @@ use crate::{
 use self::{
     enums::{ConnectReturnCode, QosLevel, SubackReturnCode},
     headers::{connack::AcknowledgeFlags, connect::Flags},
-    utils::{encode_length, remaining, unpack_bytes, unpack_properties, unpack_string, unpack_u16},
+    utils::{
+        encode_length, remaining, unpack_bytes, unpack_packet_id, unpack_properties, unpack_string,
+        unpack_u16,
+    },
 };
 
 #[repr(u8)]
@@ -484,7 +487,7 @@ impl VariableHeader {
                 let mut len = fixed.get_remaing_len();
 
                 let packet_id = if fixed.get_qos()? > QosLevel::AtMost {
-                    let id = Some(unpack_u16(iter)?);
+                    let id = Some(unpack_packet_id(iter)?);
                     len = remaining(len, size_of::<u16>())?;
                     id
                 } else {
@@ -549,7 +552,7 @@ impl VariableHeader {
 
                 // # Variable header
 
-                let packet_id = unpack_u16(iter)?;
+                let packet_id = unpack_packet_id(iter)?;
                 len = remaining(len, size_of::<u16>())?;
 
                 // # Payload
@@ -608,7 +611,7 @@ impl VariableHeader {
             PacketType::Unsubscribe => {
                 let mut len = fixed.get_remaing_len();
                 let mut tuples = Vec::<String>::new();
-                let packet_id = unpack_u16(iter)?;
+                let packet_id = unpack_packet_id(iter)?;
                 len = remaining(len, size_of::<u16>())?;
 
                 while len > 0 {
@@ -620,6 +623,10 @@ impl VariableHeader {
                     tuples.push(topic);
                 }
 
+                if tuples.is_empty() {
+                    return Err(MqttError::ProtocolViolation);
+                }
+
                 Ok(Self::Unsubscribe {
                     packet_id,
                     tuples,
diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index 82dc198..b05dda0 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -33,6 +33,17 @@ where
     Ok(u16::from_be_bytes(bytes))
 }
 
+/// Unpack a packet identifier, which is never zero
+pub fn unpack_packet_id<'a, I>(iter: &mut I) -> Result<u16, MqttError>
+where
+    I: Iterator<Item = &'a u8>,
+{
+    match unpack_u16(iter)? {
+        0 => Err(MqttError::ProtocolViolation),
+        id => Ok(id),
+    }
+}
+
 /// Unpack bytes into a u32
 ///
 /// Four Byte Integer data values are 32-bit unsigned integers in big-endian order: the high order byte precedes the successively lower order bytes. This means that a 32-bit word is presented on the network as Most Significant Byte (MSB), followed by the next most Significant Byte (MSB), followed by the next most Significant Byte (MSB), followed by Least Significant Byte (LSB).
-- 
2.43.0


From f7e48fe6533ef36ce2fb32e56dab6891932f9192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 16/22] fix: reject CONNECT packets whose flags contradict each
 other

---
 src/packets/headers/connect.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/packets/headers/connect.rs b/src/packets/headers/connect.rs
index ac94af9..255de28 100644
--- a/src/packets/headers/connect.rs
+++ b/src/packets/headers/connect.rs
@@ -29,8 +29,15 @@ impl Flags {
         Self(bit)
     }
 
+    /// Whether the flags contradict each other or use the reserved bit
     pub fn validate_flags(&self) -> bool {
+        let will_without_flag = !self.will() && self.0 & 0x38 != 0;
+        let password_without_username = self.has_password() && !self.has_username();
+
         self.0 & 0x1 == 1
+            || will_without_flag
+            || self.will_qos().is_err()
+            || password_without_username
     }
 
     /// #### Clean Start or Clean Session
-- 
2.43.0


From b9587d7ff144fd599443791e3635fe82a15ae596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:40 +0000
Subject: [PATCH 17/22] fix: reject strings that contain the null character

---
 src/packets/utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index b05dda0..3bfa13c 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -123,6 +123,11 @@ where
 
     let result = String::from_utf8(chars).map_err(MqttError::MalformedString)?;
 
+    // The null character U+0000 is not allowed
+    if result.contains('\0') {
+        return Err(MqttError::ProtocolViolation);
+    }
+
     Ok(result)
 }
 
-- 
2.43.0


From 67fc604fe4767d4c6a9be6b6599ddade33fe9c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 18/22] fix: take passwords and will messages as binary data

Both may be arbitrary bytes, those that are not UTF-8 closed the connection.
---
 src/packets/mod.rs   | 16 ++++++++--------
 src/packets/utils.rs | 10 ++++++++++
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index b87e3b1..4c3c09f 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -12,8 +12,8 @@ use self::{
     enums::{ConnectReturnCode, QosLevel, SubackReturnCode},
     headers::{connack::AcknowledgeFlags, connect::Flags},
     utils::{
-        encode_length, remaining, unpack_bytes, unpack_packet_id, unpack_properties, unpack_string,
-        unpack_u16,
+        encode_length, remaining, unpack_binary, unpack_bytes, unpack_packet_id, unpack_properties,
+        unpack_string, unpack_u16,
     },
 };
 
@@ -73,9 +73,9 @@ pub enum VariableHeader {
 
         client_id: String,
         username: Option<String>,
-        password: Option<String>,
+        password: Option<Bytes>,
         will_topic: Option<String>,
-        will_message: Option<String>,
+        will_message: Option<Bytes>,
         protocol_version: ProtocalVersion,
 
         session_expiry_interval: Option<u32>,
@@ -251,7 +251,7 @@ impl VariableHeader {
                     }
                     if let Some(wm) = will_message {
                         bytes.put_u16(wm.len() as u16);
-                        bytes.put(wm.as_bytes());
+                        bytes.put(wm);
                     }
                 }
 
@@ -265,7 +265,7 @@ impl VariableHeader {
                 if has_psd {
                     if let Some(psd) = password {
                         bytes.put_u16(psd.len() as u16);
-                        bytes.put(psd.as_bytes());
+                        bytes.put(psd);
                     }
                 }
             }
@@ -409,7 +409,7 @@ impl VariableHeader {
                     };
 
                     let will_topic = unpack_string(iter)?;
-                    let will_payload = unpack_string(iter)?;
+                    let will_payload = unpack_binary(iter)?;
 
                     (Some(will_topic), Some(will_payload), props)
                 } else {
@@ -423,7 +423,7 @@ impl VariableHeader {
                 };
 
                 let password = if flags.has_password() {
-                    Some(unpack_string(iter)?)
+                    Some(unpack_binary(iter)?)
                 } else {
                     None
                 };
diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index 3bfa13c..04d3496 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -108,6 +108,16 @@ where
     Ok(bytes)
 }
 
+/// Unpack binary data that is preceded by its length
+pub fn unpack_binary<'a, I>(iter: &mut I) -> Result<Bytes, MqttError>
+where
+    I: Iterator<Item = &'a u8>,
+{
+    let len = usize::from(unpack_u16(iter)?);
+
+    unpack_bytes(iter, len)
+}
+
 pub fn unpack_string_with_len<'a, I>(iter: &mut I, len: usize) -> Result<String, MqttError>
 where
     I: Iterator<Item = &'a u8>,
-- 
2.43.0


From 996e9096ae8d17f4151e62aed89136f9fe1c4e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:50 +0000
Subject: [PATCH 19/22] fix: refuse invalid topic names and topic filters

Publications on names with wildcards were delivered, misplaced wildcards in
filters were taken for ordinary characters.
---
 src/packets/mod.rs |  4 ++++
 src/topic_heir.rs  |  4 ++++
 src/utils.rs       | 23 +++++++++++++++++++++++
 3 files changed, 31 insertions(+)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 4c3c09f..db8d3a0 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -6,6 +6,7 @@ use crate::{
     core::enums::ProtocalVersion,
     error::MqttError,
     packets::{enums::PacketType, headers::fixed_header::FixedHeader},
+    utils::is_topic_name,
 };
 
 use self::{
@@ -479,6 +480,9 @@ impl VariableHeader {
             }
             PacketType::Publish => {
                 let topic = unpack_string(iter)?;
+                if !is_topic_name(&topic) {
+                    return Err(MqttError::ProtocolViolation);
+                }
 
                 /*
                  * Message len is calculated subtracting the length of the variable header
diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index 28cbce4..e57d6a9 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -188,6 +188,10 @@ impl SubscriptionTree {
         Self(DashMap::new())
     }
     pub fn insert(&mut self, filter: String, sub: SubscriptionLeaf) -> Result<(), u8> {
+        if !utils::is_topic_filter(&filter) {
+            return Err(1);
+        }
+
         let (filter_list, sharename) = utils::tokenise_topic(filter)?;
 
         let mut iter = filter_list.into_iter();
diff --git a/src/utils.rs b/src/utils.rs
index 0ade54f..be731ef 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,3 +1,26 @@
+/// A topic name to publish on: at least one character, no wildcards
+pub fn is_topic_name(value: &str) -> bool {
+    !value.is_empty() && !value.contains(['+', '#'])
+}
+
+/// A topic filter to subscribe to: wildcards fill a whole level, '#' only the last one
+pub fn is_topic_filter(value: &str) -> bool {
+    let mut levels = value.split('/').peekable();
+
+    while let Some(level) = levels.next() {
+        let valid = match level {
+            "+" => true,
+            "#" => levels.peek().is_none(),
+            _ => !level.contains(['+', '#']),
+        };
+        if !valid {
+            return false;
+        }
+    }
+
+    !value.is_empty()
+}
+
 /// Parse a topic string into its parts and parse out $share
 pub fn tokenise_topic(value: String) -> Result<(Vec<String>, Option<String>), u8> {
     let mut topic = value.split('/').collect::<Vec<&str>>();
-- 
2.43.0


From 2eb5615e0448e082c524c5388c6881747d5148c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 20/22] fix: keep first level wildcards from matching topics
 that start with '$'

---
 src/topic_heir.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index e57d6a9..60f33f4 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -237,6 +237,10 @@ impl SubscriptionTree {
             if let Some(child) = self.0.get(&topic) {
                 child.get(&mut iter, &mut subscribers, &sharename);
             }
+            // wildcards in the first level do not match topics that start with '$'
+            if topic.starts_with('$') {
+                return Ok(subscribers);
+            }
             // single level '+' match
             if let Some(child) = self.0.get("+") {
                 child.get(&mut iter, &mut subscribers, &sharename);
-- 
2.43.0


From 539c8687aaadf16cf833fdc755ae388e23a712d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:39 +0000
Subject: [PATCH 21/22] fix: walk the subscription tree with all remaining
 levels on every branch

---
 src/topic_heir.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index 60f33f4..1ba07d4 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -140,17 +140,17 @@ impl SubHier {
 
     pub fn get(
         &self,
-        iter: &mut impl std::iter::Iterator<Item = String>,
+        levels: &[String],
         subscribers: &mut Vec<(u128, Sender<ClientEvent>, QosLevel)>,
         share: &Option<String>,
     ) {
-        if let Some(topic) = iter.next() {
-            if let Some(child) = self.children.get(&topic) {
-                child.get(iter, subscribers, share);
+        if let Some((topic, levels)) = levels.split_first() {
+            if let Some(child) = self.children.get(topic) {
+                child.get(levels, subscribers, share);
             }
 
             if let Some(child) = self.children.get("+") {
-                child.get(iter, subscribers, share);
+                child.get(levels, subscribers, share);
             }
         } else if let Some(share) = share {
             if let Some(s) = self.shared.get(share) {
@@ -231,11 +231,9 @@ impl SubscriptionTree {
         let mut subscribers = Vec::new();
         let (filter_list, sharename) = utils::tokenise_topic(filter)?;
 
-        let mut iter = filter_list.into_iter();
-
-        if let Some(topic) = iter.next() {
-            if let Some(child) = self.0.get(&topic) {
-                child.get(&mut iter, &mut subscribers, &sharename);
+        if let Some((topic, levels)) = filter_list.split_first() {
+            if let Some(child) = self.0.get(topic) {
+                child.get(levels, &mut subscribers, &sharename);
             }
             // wildcards in the first level do not match topics that start with '$'
             if topic.starts_with('$') {
@@ -243,7 +241,7 @@ impl SubscriptionTree {
             }
             // single level '+' match
             if let Some(child) = self.0.get("+") {
-                child.get(&mut iter, &mut subscribers, &sharename);
+                child.get(levels, &mut subscribers, &sharename);
             }
         }
 
-- 
2.43.0


From 80853cad090e07c66af73f1b182606a74c2b64b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:38 +0000
Subject: [PATCH 22/22] fix: an unsubscribed $share filter leaves nothing
 behind

Removing the last subscriber of a share name left its empty list in the
tree, and with it the nodes of the filter, until some client disconnected.
---
 src/topic_heir.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index 1ba07d4..f9ffcf4 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -118,6 +118,7 @@ impl SubHier {
                     s.remove(idx);
                 }
             }
+            self.shared.remove_if(&sharename, |_, subs| subs.is_empty());
         } else if let Some(idx) = self.subs.iter().position(|e| e.identifier == identifer) {
             self.subs.remove(idx);
         }
-- 
2.43.0

