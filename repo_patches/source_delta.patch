From 2367ec6d5116a48852c959561fcf889a8e0c3213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:32 +0000
Subject: [PATCH 01/32] fix: reject variable byte integers that are not
 minimally encoded

A padded length decodes to a value whose minimal encoding is shorter, so
frame_len() of the packet disagreed with the bytes consumed and a receiver
advancing by frame_len() lost synchronisation.
---
 packet/src/data.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packet/src/data.rs b/packet/src/data.rs
index d6ecbcc..3c48595 100644
--- a/packet/src/data.rs
+++ b/packet/src/data.rs
@@ -250,6 +250,10 @@ impl MqttDeserialize for MqttVariableBytesInt {
             }
             multiplier += 7;
             if encoded_byte & 0x80 == 0 {
+                // 1.5.5: the encoded value MUST use the minimum number of bytes
+                if encoded_byte == 0 && multiplier > 7 {
+                    return Err(DataParseError::BadMqttVariableBytesInt);
+                }
                 break;
             }
         }
-- 
2.43.0


From 2da68206e0d054b8f55dbeef9ee5a9e5fe37ef7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:32 +0000
Subject: [PATCH 02/32] fix: decode strings that span several chunks of a
 buffer

---
 packet/src/data.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/packet/src/data.rs b/packet/src/data.rs
index 3c48595..79f9364 100644
--- a/packet/src/data.rs
+++ b/packet/src/data.rs
@@ -165,12 +165,10 @@ impl MqttDeserialize for MqttUtf8String {
                 available: buf.remaining(),
             });
         }
-        let b = buf.take(len);
-        let bytes = b.chunk();
-        let s = std::str::from_utf8(bytes).map_err(|_| DataParseError::BadMqttUtf8String)?;
-        let ret = MqttUtf8String::new(Arc::from(s));
-        buf.advance(len);
-        ret
+        // chunk() may be shorter than len when buf is not contiguous
+        let bytes = buf.copy_to_bytes(len);
+        let s = std::str::from_utf8(&bytes).map_err(|_| DataParseError::BadMqttUtf8String)?;
+        MqttUtf8String::new(Arc::from(s))
     }
 }
 
-- 
2.43.0


From 3271714be6bb9fa98ceb5e19e6254f73249818b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 03/32] fix: hold every packet to exactly the frame its header
 announces

Bytes left over after the last field of PUBACK, PUBREC, PUBREL, PUBCOMP, AUTH
and DISCONNECT were accepted, so frame_len() was shorter than the frame; a
field that overran a complete frame was reported as InsufficientBuffer, so a
receiver waited for data that could not help.
---
 packet/src/packet.rs      | 55 +++++++++++++++++++++++++++++++++++----
 packet/src/packet_type.rs | 21 +++++++++++++++
 2 files changed, 71 insertions(+), 5 deletions(-)

diff --git a/packet/src/packet.rs b/packet/src/packet.rs
index f17cb04..5a8d0ad 100644
--- a/packet/src/packet.rs
+++ b/packet/src/packet.rs
@@ -1,10 +1,25 @@
 use super::{
-    auth::Auth, connack::ConnAck, connect::Connect, data::MqttOneBytesInt, disconnect::Disconnect,
-    error::DataParseError, helpers::bits_u8, packet_type::PacketType, parsable::*, ping::Ping,
-    puback::PubAck, pubcomp::PubComp, publish::Publish, pubrec::PubRec, pubrel::PubRel,
-    suback::SubAck, subscribe::Subscribe, unsuback::UnsubAck, unsubscribe::Unsubscribe,
+    auth::Auth,
+    connack::ConnAck,
+    connect::Connect,
+    data::{MqttOneBytesInt, MqttVariableBytesInt},
+    disconnect::Disconnect,
+    error::DataParseError,
+    helpers::bits_u8,
+    packet_type::PacketType,
+    parsable::*,
+    ping::Ping,
+    puback::PubAck,
+    pubcomp::PubComp,
+    publish::Publish,
+    pubrec::PubRec,
+    pubrel::PubRel,
+    suback::SubAck,
+    subscribe::Subscribe,
+    unsuback::UnsubAck,
+    unsubscribe::Unsubscribe,
 };
-use bytes::{Buf, BufMut};
+use bytes::{Buf, BufMut, BytesMut};
 
 #[derive(Clone)]
 pub enum Packet {
@@ -170,6 +185,36 @@ impl MqttDeserialize for Packet {
         }
         let byte1 = buf.get_u8();
         let packet_type = PacketType::parse(byte1)?;
+        if packet_type == PacketType::Reserved {
+            return Err(DataParseError::BadPacketType);
+        }
+        let length = MqttVariableBytesInt::deserialize(buf)?;
+        let remaining_length = length.inner() as usize;
+        if buf.remaining() < remaining_length {
+            return Err(DataParseError::InsufficientBuffer {
+                needed: remaining_length,
+                available: buf.remaining(),
+            });
+        }
+        // From here on the whole frame is available, and it is all the packet may use
+        let mut header = BytesMut::with_capacity(4);
+        length.serialize(&mut header);
+        let mut frame = header.chain(buf.take(remaining_length));
+        match Packet::deserialize_frame(&packet_type, byte1, &mut frame) {
+            // A field that does not fit in a complete frame is an error in the packet, more data
+            // would not help
+            Err(DataParseError::InsufficientBuffer { .. }) => Err(packet_type.malformed()),
+            Ok(_) if frame.has_remaining() => Err(packet_type.malformed()),
+            res => res,
+        }
+    }
+}
+impl Packet {
+    fn deserialize_frame<T: Buf>(
+        packet_type: &PacketType,
+        byte1: u8,
+        buf: &mut T,
+    ) -> Result<Self, DataParseError> {
         match packet_type {
             PacketType::Reserved => Err(DataParseError::BadPacketType),
             PacketType::Connect => Ok(Packet::Connect(Connect::deserialize(buf)?)),
diff --git a/packet/src/packet_type.rs b/packet/src/packet_type.rs
index c438bcd..13ba8df 100644
--- a/packet/src/packet_type.rs
+++ b/packet/src/packet_type.rs
@@ -70,6 +70,27 @@ impl PacketType {
         packet_type.check_flags(data)?;
         Ok(packet_type)
     }
+    /// The error for a packet of this type whose contents do not agree with its frame
+    pub(super) fn malformed(&self) -> DataParseError {
+        match self {
+            PacketType::Reserved => DataParseError::BadPacketType,
+            PacketType::Connect => DataParseError::BadConnectMessage,
+            PacketType::ConnAck => DataParseError::BadConnAckMessage,
+            PacketType::Publish => DataParseError::BadPublishMessage,
+            PacketType::PubAck => DataParseError::BadPubAckMessage,
+            PacketType::PubRec => DataParseError::BadPubRecMessage,
+            PacketType::PubRel => DataParseError::BadPubRelMessage,
+            PacketType::PubComp => DataParseError::BadPubCompMessage,
+            PacketType::Subscribe => DataParseError::BadSubscribeMessage,
+            PacketType::SubAck => DataParseError::BadSubAckMessage,
+            PacketType::Unsubscribe => DataParseError::BadUnsubscribeMessage,
+            PacketType::UnsubAck => DataParseError::BadUnsubAckMessage,
+            PacketType::PingReq => DataParseError::BadPing,
+            PacketType::PingRes => DataParseError::BadPing,
+            PacketType::Disconnect => DataParseError::BadDisconnectMessage,
+            PacketType::Auth => DataParseError::BadAuthMessage,
+        }
+    }
     pub(super) fn fixed_flags(&self) -> u8 {
         match self {
             PacketType::PubRel => 0b0010,
-- 
2.43.0


From fa4050aabc37b0efe6944c29f102ea9b50cac130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 04/32] fix: a rejected user name or password must not set its
 CONNECT flag

---
 packet/src/connect.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packet/src/connect.rs b/packet/src/connect.rs
index ee5ce91..6da27e0 100644
--- a/packet/src/connect.rs
+++ b/packet/src/connect.rs
@@ -212,16 +212,16 @@ impl Connect {
         self.username.as_ref().map(|s| s.inner())
     }
     pub fn set_username(&mut self, username: Arc<str>) -> Result<(), DataParseError> {
-        self.flags |= ConnectFlags::USERNAME;
         self.username = Some(MqttUtf8String::new(username)?);
+        self.flags |= ConnectFlags::USERNAME;
         Ok(())
     }
     pub fn password(&self) -> Option<&Bytes> {
         self.password.as_ref().map(|p| p.inner())
     }
     pub fn set_password<T: Buf>(&mut self, password: T) -> Result<(), DataParseError> {
-        self.flags |= ConnectFlags::PASSWORD;
         self.password = Some(MqttBinaryData::new(password)?);
+        self.flags |= ConnectFlags::PASSWORD;
         Ok(())
     }
     pub fn keep_alive(&self) -> u16 {
-- 
2.43.0


From 6f5cb0c1ded482e3da9f5e4b453768871bb78ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 05/32] fix: drop the packet identifier when a PUBLISH goes
 back to QoS 0

---
 packet/src/publish.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packet/src/publish.rs b/packet/src/publish.rs
index 81516e6..49d53a8 100644
--- a/packet/src/publish.rs
+++ b/packet/src/publish.rs
@@ -124,6 +124,10 @@ impl Publish {
     pub fn set_qos(&mut self, qos: QoS) {
         self.flags -= PublishFlags::QOS1 | PublishFlags::QOS2;
         self.flags |= qos.into();
+        if qos == QoS::QoS0 {
+            // 2.2.1 a QoS 0 packet MUST NOT contain a packet identifier
+            self.packet_identifier = None;
+        }
     }
     pub fn qos(&self) -> QoS {
         // why unwrap is justified here,
-- 
2.43.0


From c2049fa30926bf7b62c76852647617911d122ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 06/32] fix: into_bool must read boolean properties

It only matched byte properties, so a CONNECT with RequestResponseInformation
or RequestProblemInformation panicked the task serving that connection.
---
 packet/src/props.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/packet/src/props.rs b/packet/src/props.rs
index 0c5ba87..338a288 100644
--- a/packet/src/props.rs
+++ b/packet/src/props.rs
@@ -400,10 +400,9 @@ enum MqttPropValueInner {
 pub struct MqttPropValue(MqttPropValueInner);
 impl MqttPropValue {
     pub fn into_bool(&self) -> Option<bool> {
-        if let MqttPropValueInner::Byte(i) = &self.0 {
-            Some(i.inner() == 1)
-        } else {
-            None
+        match &self.0 {
+            MqttPropValueInner::Bool(i) | MqttPropValueInner::Byte(i) => Some(i.inner() == 1),
+            _ => None,
         }
     }
     pub fn into_u8(&self) -> Option<u8> {
-- 
2.43.0


From 2d356c283573d6cb5cd219caac1133df0d839838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 07/32] fix: a rejected duplicate property must not replace the
 stored one

---
 packet/src/props.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/packet/src/props.rs b/packet/src/props.rs
index 338a288..e99fea2 100644
--- a/packet/src/props.rs
+++ b/packet/src/props.rs
@@ -56,11 +56,12 @@ impl Properties {
         if value.prop_type() != prop_type {
             return Err(DataParseError::BadProperty);
         }
-        self.valid &= filter;
-        match self.unchecked_insert(key, value, multiple) {
-            Some(_) => Err(DataParseError::BadProperty),
-            None => Ok(()),
+        if !multiple && self.props.contains_key(&key) {
+            return Err(DataParseError::BadProperty);
         }
+        self.valid &= filter;
+        self.unchecked_insert(key, value, multiple);
+        Ok(())
     }
     fn unchecked_insert(
         &mut self,
-- 
2.43.0


From df5a1e96c64c51480704f5dad4e6edcdaa9a1e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 08/32] fix: do not panic on a user property in CONNECT

---
 server-lib/src/clients/clientworker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index b517346..b55d91e 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -158,7 +158,7 @@ impl ClientWorker {
                 }
                 Property::UserProperty => warn!(
                     "Client is using strange property in connect packet {:?}",
-                    v.into_str_pair().unwrap()
+                    v.into_str()
                 ),
                 Property::AuthenticationMethod => {
                     error!("Client attempted Authentication which is not supported");
-- 
2.43.0


From 7daefb1b476c753ca66ce47d1c02c181e43e9873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 09/32] fix: retire a TCP client when it closes its connection

read_buf returns 0 at end of file, and recv() spun on it for ever.
---
 server-lib/src/clients/mqttclient.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/clients/mqttclient.rs b/server-lib/src/clients/mqttclient.rs
index 0795860..caab21c 100644
--- a/server-lib/src/clients/mqttclient.rs
+++ b/server-lib/src/clients/mqttclient.rs
@@ -61,7 +61,9 @@ impl MqttClient {
                     }
                     self.tcp_reader
                         .set_limit(self.max_packet_size as u64 - self.bytes.remaining() as u64);
-                    self.tcp_reader.read_buf(&mut self.bytes).await?;
+                    if self.tcp_reader.read_buf(&mut self.bytes).await? == 0 {
+                        return Err(ServerError::Misc("Client disconnected".to_owned()));
+                    }
                 }
                 Err(e) => return Err(e.into()),
             }
-- 
2.43.0


From b1eee6cd0c6cb552b9a7fedb35181d0c6f5f72b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 10/32] fix: the dispatcher must survive unsupported packets of
 departed clients

---
 server-lib/src/dispatcher.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index b067667..183b2ea 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -41,9 +41,11 @@ impl Dispatcher {
     async fn unimplemented(&mut self, client: &str) -> Result<(), ServerError> {
         let disconnect = Disconnect::new(DisconnectReasonCode::ImplementationSpecificError).build();
         let clients = self.clients.read().await;
-        let c = clients.get(client).unwrap();
-        if c.send(disconnect).is_err() {
-            error!(clientid = client, "Internal Error: tx closed");
+        // the client may have disconnected since it sent the packet
+        if let Some(c) = clients.get(client) {
+            if c.send(disconnect).is_err() {
+                error!(clientid = client, "Internal Error: tx closed");
+            }
         }
         Err(ServerError::Misc("Unimplemented".to_owned()))
     }
-- 
2.43.0


From 98dc0ea223a28ace0207431cf4f07148196f59ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 11/32] fix: publishing to a retain-as-published subscriber
 must not kill the dispatcher

---
 server-lib/src/dispatcher.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index 183b2ea..6636e5e 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -113,9 +113,7 @@ impl Dispatcher {
             if target.as_ref() == client && info.flags.contains(SubscriptionFlags::NO_LOCAL) {
                 continue;
             }
-            if info.flags.contains(SubscriptionFlags::RETAIN_AS_PUBLISHED) {
-                unimplemented!();
-            }
+            // RETAIN_AS_PUBLISHED needs no handling, publishing with RETAIN set is refused above
             if let Some(c) = clients.get(&target) {
                 #[cfg(feature = "noise")]
                 if strict_encryption && !c.encrypted() {
-- 
2.43.0


From 44f15ecd5f1723102baa7f4a3ba78e1521df034a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 12/32] fix: honour the documented minimum of one dispatcher
 queue element

---
 server-lib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server-lib/src/lib.rs b/server-lib/src/lib.rs
index ec2711a..783e391 100644
--- a/server-lib/src/lib.rs
+++ b/server-lib/src/lib.rs
@@ -32,7 +32,7 @@ pub struct MqttServer {
 impl MqttServer {
     #[instrument(name = "MqttServer::new", skip(cfg))]
     pub async fn new(cfg: MqttServerConfig) -> Result<Self, ServerError> {
-        let queue_len = cfg.dispatcher_queue_size / size_of::<PacketInfo>();
+        let queue_len = (cfg.dispatcher_queue_size / size_of::<PacketInfo>()).max(1);
         let (incoming_tx, incoming_rx) = channel(queue_len);
         let shutdown = Arc::new(Notify::new());
         let cfg = Arc::new(cfg);
-- 
2.43.0


From d2e0b6a73edcc1d03a6bb6a9c4dafaac0811d92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:13 +0000
Subject: [PATCH 13/32] fix: deliver the shutdown signal to every task

notify_one woke a single task, so shutdown() waited for ever on all others. Each
task now passes the signal on, and a connection that is still being set up is
dropped instead of being queued (or panicking in the middle of a handshake).
---
 server-lib/src/clients/clientworker.rs |  2 +-
 server-lib/src/clients/mod.rs          |  2 +-
 server-lib/src/clients/mqttclient.rs   | 12 +++++++++---
 server-lib/src/clients/noiseclient.rs  | 22 +++++++++++++++++-----
 server-lib/src/dispatcher.rs           |  2 +-
 server-lib/src/lib.rs                  |  1 +
 6 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index b55d91e..78f5e77 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -85,7 +85,7 @@ impl ClientWorker {
         let killme = self.internals.killme.clone();
         tokio::select! {
             _ = killme.notified() => (),
-            _ = shutdown.notified() => (),
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.listen_forever() => (),
         }
         self.internals.clientid
diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index cdb5e84..7a1222b 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -139,7 +139,7 @@ impl ClientManager {
     async fn run(mut self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.process_forever() => ()
         };
         while self.workers.next().await.is_some() {
diff --git a/server-lib/src/clients/mqttclient.rs b/server-lib/src/clients/mqttclient.rs
index caab21c..696182a 100644
--- a/server-lib/src/clients/mqttclient.rs
+++ b/server-lib/src/clients/mqttclient.rs
@@ -125,7 +125,7 @@ impl MqttListener {
     pub async fn run(mut self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.listen_forever() => ()
         };
         info!("shutting down");
@@ -165,14 +165,20 @@ async fn _connect_client(
     let keep_alive = client.cfg().keep_alive as u64;
 
     let state = tokio::select! {
-        _ = shutdown.notified() => ConnectState::ShuttingDown,
+        _ = shutdown.notified() => {
+            shutdown.notify_one();
+            ConnectState::ShuttingDown
+        },
         v = client.connect() => v.into(),
         _ = sleep(Duration::new(keep_alive, 0)) => ConnectState::Err(ServerError::Misc("TimeOut".to_string())),
     };
     let saddr = format!("{}", saddr);
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr, "MQTT Connection established"),
-        ConnectState::ShuttingDown => info!(SocketAddr = &*saddr, "Shutting down"),
+        ConnectState::ShuttingDown => {
+            info!(SocketAddr = &*saddr, "Shutting down");
+            return;
+        }
         ConnectState::Err(e) => {
             warn!(
                 SocketAddr = &*saddr,
diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index 5c74520..c58430f 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -124,7 +124,7 @@ impl NoiseListener {
     pub async fn run(mut self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.listen_forever() => ()
         };
         info!("shutting down");
@@ -176,14 +176,20 @@ async fn _connect_client(
         .unwrap();
 
     let state = tokio::select! {
-        _ = shutdown.notified() => ConnectState::ShuttingDown,
+        _ = shutdown.notified() => {
+            shutdown.notify_one();
+            ConnectState::ShuttingDown
+        },
         v = handshake(&mut stream, &mut responder) => v.into(),
         _ = sleep(Duration::new(keep_alive * 3, 0)) => ConnectState::Err(ServerError::Misc("TimeOut".to_string())),
     };
     let saddr_str = format!("{}", saddr);
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr_str, "MQTT Connection established"),
-        ConnectState::ShuttingDown => info!(SocketAddr = &*saddr_str, "Shutting down"),
+        ConnectState::ShuttingDown => {
+            info!(SocketAddr = &*saddr_str, "Shutting down");
+            return;
+        }
         ConnectState::Err(e) => {
             warn!(
                 SocketAddr = &*saddr_str,
@@ -202,13 +208,19 @@ async fn _connect_client(
         incoming,
     );
     let state = tokio::select! {
-        _ = shutdown.notified() => ConnectState::ShuttingDown,
+        _ = shutdown.notified() => {
+            shutdown.notify_one();
+            ConnectState::ShuttingDown
+        },
         v = client.connect() => v.into(),
         _ = sleep(Duration::new(keep_alive, 0)) => ConnectState::Err(ServerError::Misc("TimeOut".to_string())),
     };
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr_str, "MQTT Connection established"),
-        ConnectState::ShuttingDown => info!(SocketAddr = &*saddr_str, "Shutting down"),
+        ConnectState::ShuttingDown => {
+            info!(SocketAddr = &*saddr_str, "Shutting down");
+            return;
+        }
         ConnectState::Err(e) => {
             warn!(
                 SocketAddr = &*saddr_str,
diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index 6636e5e..31f7684 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -226,7 +226,7 @@ impl Dispatcher {
     async fn run(self) {
         let shutdown = self.shutdown.clone();
         tokio::select! {
-            _ = shutdown.notified() => (),
+            _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.process_forever() => (),
         }
     }
diff --git a/server-lib/src/lib.rs b/server-lib/src/lib.rs
index 783e391..077509e 100644
--- a/server-lib/src/lib.rs
+++ b/server-lib/src/lib.rs
@@ -61,6 +61,7 @@ impl MqttServer {
     #[instrument(name = "MqttServer::shutdown", skip(self))]
     pub async fn shutdown(self) {
         // TODO keep track of https://github.com/tokio-rs/tokio/issues/3903
+        // every task passes the signal on to the next one, including tasks yet to be started
         self.shutdown.notify_one();
         for worker in self.workers {
             if let Err(e) = worker.await {
-- 
2.43.0


From 8321eb6ffc23b35cba2430fb17344e468dd8f853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:39 +0000
Subject: [PATCH 14/32] fix: a keep alive of 0 must not time out every
 connection at once

0 turns the keep alive mechanism off (3.1.2.10).
---
 server-lib/src/clients/mqttclient.rs  | 2 +-
 server-lib/src/clients/noiseclient.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/server-lib/src/clients/mqttclient.rs b/server-lib/src/clients/mqttclient.rs
index 696182a..405f78c 100644
--- a/server-lib/src/clients/mqttclient.rs
+++ b/server-lib/src/clients/mqttclient.rs
@@ -170,7 +170,7 @@ async fn _connect_client(
             ConnectState::ShuttingDown
         },
         v = client.connect() => v.into(),
-        _ = sleep(Duration::new(keep_alive, 0)) => ConnectState::Err(ServerError::Misc("TimeOut".to_string())),
+        _ = sleep(Duration::new(keep_alive, 0)), if keep_alive != 0 => ConnectState::Err(ServerError::Misc("TimeOut".to_string())),
     };
     let saddr = format!("{}", saddr);
     match state {
diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index c58430f..973eae0 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -181,7 +181,7 @@ async fn _connect_client(
             ConnectState::ShuttingDown
         },
         v = handshake(&mut stream, &mut responder) => v.into(),
-        _ = sleep(Duration::new(keep_alive * 3, 0)) => ConnectState::Err(ServerError::Misc("TimeOut".to_string())),
+        _ = sleep(Duration::new(keep_alive * 3, 0)), if keep_alive != 0 => ConnectState::Err(ServerError::Misc("TimeOut".to_string())),
     };
     let saddr_str = format!("{}", saddr);
     match state {
@@ -213,7 +213,7 @@ async fn _connect_client(
             ConnectState::ShuttingDown
         },
         v = client.connect() => v.into(),
-        _ = sleep(Duration::new(keep_alive, 0)) => ConnectState::Err(ServerError::Misc("TimeOut".to_string())),
+        _ = sleep(Duration::new(keep_alive, 0)), if keep_alive != 0 => ConnectState::Err(ServerError::Misc("TimeOut".to_string())),
     };
     match state {
         ConnectState::Success => info!(SocketAddr = &*saddr_str, "MQTT Connection established"),
-- 
2.43.0


From 9c9f425554033d9f203218d5debc7c174b67b97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:42 +0000
Subject: [PATCH 15/32] fix: attribute queued packets to the connection that
 sent them

The dispatcher looked the sender up by client id when it got to a packet. After
a plain connection took over the id of an encrypted one, the encrypted client's
queued messages counted as plain and crossed a strict server's boundary, and
its subscriptions and refusals went to the new connection.
---
 server-lib/src/clients/client.rs       |  7 ++
 server-lib/src/clients/clientworker.rs |  2 +-
 server-lib/src/dispatcher.rs           | 98 +++++++++++++++-----------
 server-lib/src/packetinfo.rs           |  4 +-
 4 files changed, 65 insertions(+), 46 deletions(-)

diff --git a/server-lib/src/clients/client.rs b/server-lib/src/clients/client.rs
index d4fcf3c..27e3f41 100644
--- a/server-lib/src/clients/client.rs
+++ b/server-lib/src/clients/client.rs
@@ -41,6 +41,13 @@ impl Client {
         }
     }
 
+    pub fn clientid(&self) -> &Arc<str> {
+        &self.clientid
+    }
+    /// true if both are handles for the same connection, a client id may be reused by another one
+    pub fn same_connection(&self, other: &Client) -> bool {
+        Arc::ptr_eq(&self.killme, &other.killme)
+    }
     pub fn encrypted(&self) -> bool {
         self.encrypted
     }
diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index 78f5e77..fd1d7bd 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -55,7 +55,7 @@ impl ClientWorker {
             p = self.conn.recv() => {
                 let packet = p?;
                 let p = PacketInfo {
-                    senderid: self.internals.clientid.clone(),
+                    sender: self.internals.clone(),
                     packet,
                 };
                 self.incoming.send(p).await.
diff --git a/server-lib/src/dispatcher.rs b/server-lib/src/dispatcher.rs
index 31f7684..f41ba9c 100644
--- a/server-lib/src/dispatcher.rs
+++ b/server-lib/src/dispatcher.rs
@@ -38,45 +38,39 @@ impl Dispatcher {
             incoming,
         }
     }
-    async fn unimplemented(&mut self, client: &str) -> Result<(), ServerError> {
+    async fn unimplemented(&mut self, sender: &Client) -> Result<(), ServerError> {
         let disconnect = Disconnect::new(DisconnectReasonCode::ImplementationSpecificError).build();
-        let clients = self.clients.read().await;
         // the client may have disconnected since it sent the packet
-        if let Some(c) = clients.get(client) {
-            if c.send(disconnect).is_err() {
-                error!(clientid = client, "Internal Error: tx closed");
-            }
+        if sender.send(disconnect).is_err() {
+            trace!(
+                clientid = &**sender.clientid(),
+                "client shutdown: tx closed"
+            );
         }
         Err(ServerError::Misc("Unimplemented".to_owned()))
     }
 
     #[instrument(skip_all)]
-    async fn process_publish(&mut self, client: &str, publish: Publish) -> Result<(), ServerError> {
+    async fn process_publish(
+        &mut self,
+        sender: &Client,
+        publish: Publish,
+    ) -> Result<(), ServerError> {
         trace!("Processing a publish packet");
+        let client: &str = sender.clientid();
         #[cfg(feature = "noise")]
-        let strict_encryption = {
-            let clients = self.clients.read().await;
-            match clients.get(client) {
-                Some(c) => c.encrypted() && self.cfg.channel_permeability == Permeability::Strict,
-                None => {
-                    warn!(
-                        clientid = client,
-                        "Client Prematurely shutdown before its publish request could be processed"
-                    );
-                    return Ok(());
-                }
-            }
-        };
+        let strict_encryption =
+            sender.encrypted() && self.cfg.channel_permeability == Permeability::Strict;
         match publish.qos() {
             QoS::QoS0 => (),
-            QoS::QoS1 => return self.unimplemented(client).await,
-            QoS::QoS2 => return self.unimplemented(client).await,
+            QoS::QoS1 => return self.unimplemented(sender).await,
+            QoS::QoS2 => return self.unimplemented(sender).await,
         }
         if publish
             .flags()
             .intersects(PublishFlags::DUP | PublishFlags::RETAIN)
         {
-            return self.unimplemented(client).await;
+            return self.unimplemented(sender).await;
         }
         let topic = publish.topic_name();
         let mut response = Publish::new(topic.clone(), publish.payload()).unwrap();
@@ -85,8 +79,8 @@ impl Dispatcher {
                 Property::PayloadFormatIndicator => response
                     .add_prop(Property::PayloadFormatIndicator, v.clone())
                     .unwrap(),
-                Property::MessageExpiryInterval => return self.unimplemented(client).await,
-                Property::TopicAlias => return self.unimplemented(client).await,
+                Property::MessageExpiryInterval => return self.unimplemented(sender).await,
+                Property::TopicAlias => return self.unimplemented(sender).await,
                 Property::ResponseTopic => response
                     .add_prop(Property::ResponseTopic, v.clone())
                     .unwrap(),
@@ -96,7 +90,7 @@ impl Dispatcher {
                 Property::UserProperty => response
                     .add_prop(Property::UserProperty, v.clone())
                     .unwrap(),
-                Property::SubscriptionIdentifier => return self.unimplemented(client).await,
+                Property::SubscriptionIdentifier => return self.unimplemented(sender).await,
                 Property::ContentType => {
                     response.add_prop(Property::ContentType, v.clone()).unwrap()
                 }
@@ -135,14 +129,15 @@ impl Dispatcher {
     #[instrument(skip_all)]
     async fn process_subscribe(
         &mut self,
-        client: &Arc<str>,
+        sender: &Client,
         sub: Subscribe,
     ) -> Result<(), ServerError> {
         trace!("Processing a subscribe packet");
+        let client = sender.clientid();
         let ident = sub.packet_identifier();
         for (k, _) in sub.props_iter() {
             match k {
-                Property::SubscriptionIdentifier => return self.unimplemented(client).await,
+                Property::SubscriptionIdentifier => return self.unimplemented(sender).await,
                 Property::UserProperty => {
                     warn!(clientid = client.as_ref(), "Received unknown user property")
                 }
@@ -152,6 +147,12 @@ impl Dispatcher {
                 ),
             }
         }
+        // The connection must stay current until its subscriptions are in place, they would
+        // otherwise outlive it
+        let clients = self.clients.read().await;
+        if !Dispatcher::is_current(&clients, sender) {
+            return Ok(());
+        }
         let mut suback = SubAck::new(ident);
         for (topic, options) in sub.topics_iter() {
             let qos: QoS = (*options).try_into()?;
@@ -186,23 +187,34 @@ impl Dispatcher {
             }
         }
 
-        let clients = self.clients.read().await;
-        if let Some(c) = clients.get(client) {
-            if c.send(suback.build()).is_err() {
-                error!(clientid = client.as_ref(), "Internal Error: tx closed");
-            }
+        if sender.send(suback.build()).is_err() {
+            trace!(clientid = client.as_ref(), "client shutdown: tx closed");
         }
         Ok(())
     }
-    async fn process_packet(
-        &mut self,
-        client: Arc<str>,
-        packet: Packet,
-    ) -> Result<(), ServerError> {
+    // false once the connection that sent a packet has ended or its client id is taken over
+    fn is_current(clients: &HashMap<Arc<str>, Client>, sender: &Client) -> bool {
+        clients
+            .get(sender.clientid())
+            .map(|c| c.same_connection(sender))
+            .unwrap_or(false)
+    }
+    async fn process_packet(&mut self, sender: &Client, packet: Packet) -> Result<(), ServerError> {
+        let current = {
+            let clients = self.clients.read().await;
+            Dispatcher::is_current(&clients, sender)
+        };
+        if !current {
+            warn!(
+                clientid = &**sender.clientid(),
+                "Client prematurely shutdown before its request could be processed"
+            );
+            return Ok(());
+        }
         match packet {
-            Packet::Publish(publish) => self.process_publish(&client, publish).await,
-            Packet::Subscribe(sub) => self.process_subscribe(&client, sub).await,
-            _ => self.unimplemented(&client).await,
+            Packet::Publish(publish) => self.process_publish(sender, publish).await,
+            Packet::Subscribe(sub) => self.process_subscribe(sender, sub).await,
+            _ => self.unimplemented(sender).await,
         }
     }
     async fn process_forever(mut self) {
@@ -215,10 +227,10 @@ impl Dispatcher {
                 }
             };
             if let Err(e) = self
-                .process_packet(packetinfo.senderid.clone(), packetinfo.packet)
+                .process_packet(&packetinfo.sender, packetinfo.packet)
                 .await
             {
-                error!(clientid = &*packetinfo.senderid, "{:?}", e);
+                error!(clientid = &**packetinfo.sender.clientid(), "{:?}", e);
             }
         }
     }
diff --git a/server-lib/src/packetinfo.rs b/server-lib/src/packetinfo.rs
index 6c7f51a..d880e39 100644
--- a/server-lib/src/packetinfo.rs
+++ b/server-lib/src/packetinfo.rs
@@ -1,7 +1,7 @@
+use crate::clients::Client;
 use apiformes_packet::prelude::Packet;
-use std::sync::Arc;
 
 pub struct PacketInfo {
-    pub senderid: Arc<str>,
+    pub sender: Client,
     pub packet: Packet,
 }
-- 
2.43.0


From 1db090a462b21211b06a65709f83b1767a600795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:46 +0000
Subject: [PATCH 16/32] fix: end a client's subscriptions and registration with
 its connection

A taken over connection stayed open, and its end removed the entry of the new
connection; subscriptions were never removed, so a later clean start under the
same client id received messages it had not subscribed to.
---
 server-lib/src/clients/clientworker.rs |  4 +--
 server-lib/src/clients/mod.rs          | 43 ++++++++++++++++++--------
 server-lib/src/lib.rs                  | 11 +++++--
 3 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index fd1d7bd..1079338 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -80,7 +80,7 @@ impl ClientWorker {
         }
     }
     #[instrument(name = "ClientWorker::run", skip_all)]
-    pub(super) async fn run(mut self) -> Arc<str> {
+    pub(super) async fn run(mut self) -> Client {
         let shutdown = self.internals.shutdown.clone();
         let killme = self.internals.killme.clone();
         tokio::select! {
@@ -88,7 +88,7 @@ impl ClientWorker {
             _ = shutdown.notified() => shutdown.notify_one(),
             _ = self.listen_forever() => (),
         }
-        self.internals.clientid
+        self.internals
     }
 
     pub(super) fn internals(&self) -> &Client {
diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index 7a1222b..6b15cc8 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -4,7 +4,9 @@ mod mqttclient;
 #[cfg(feature = "noise")]
 mod noiseclient;
 
-use crate::{config::MqttServerConfig, error::ServerError, packetinfo::PacketInfo};
+use crate::{
+    config::MqttServerConfig, error::ServerError, packetinfo::PacketInfo, topics::TopicsTable,
+};
 pub use client::Client;
 use clientworker::ClientWorker;
 use futures::{stream::FuturesUnordered, StreamExt};
@@ -26,21 +28,24 @@ use tracing::{error, info, instrument, warn};
 pub struct ClientManager {
     rx: UnboundedReceiver<ClientWorker>,
     clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
+    topics: Arc<TopicsTable>,
     cfg: Arc<MqttServerConfig>,
     shutdown: Arc<Notify>,
-    workers: FuturesUnordered<JoinHandle<Arc<str>>>,
+    workers: FuturesUnordered<JoinHandle<Client>>,
 }
 
 impl ClientManager {
     fn new(
         cfg: Arc<MqttServerConfig>,
         clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
+        topics: Arc<TopicsTable>,
         shutdown: Arc<Notify>,
         rx: UnboundedReceiver<ClientWorker>,
     ) -> Self {
         ClientManager {
             rx,
             clients,
+            topics,
             cfg,
             shutdown,
             workers: FuturesUnordered::new(),
@@ -50,6 +55,7 @@ impl ClientManager {
     pub async fn start(
         cfg: Arc<MqttServerConfig>,
         clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
+        topics: Arc<TopicsTable>,
         shutdown: Arc<Notify>,
         incoming: Sender<PacketInfo>,
     ) -> Result<Vec<JoinHandle<()>>, ServerError> {
@@ -81,7 +87,7 @@ impl ClientManager {
             workers.push(handle)
         }
 
-        let man = ClientManager::new(cfg, clients, shutdown, rx);
+        let man = ClientManager::new(cfg, clients, topics, shutdown, rx);
         workers.push(man.start_processing().await);
         Ok(workers)
     }
@@ -95,23 +101,34 @@ impl ClientManager {
             }
         };
         let client = worker.internals();
-        self.clients
-            .write()
-            .await
-            .insert(client.clientid.clone(), client.clone());
+        let mut clients = self.clients.write().await;
+        if let Some(old) = clients.insert(client.clientid.clone(), client.clone()) {
+            // 3.1.4 the new connection takes over, and it always starts a clean session
+            self.topics.unsubscribe_all(client.clientid.clone()).await;
+            old.killme();
+        }
+        drop(clients);
         self.workers
             .push(tokio::spawn(async move { worker.run().await }));
         true
     }
-    async fn process_retiring_worker(&mut self, maybe_id: Option<Result<Arc<str>, JoinError>>) {
-        //TODO we don't remove the worker information from the topic file system yet
-        match maybe_id {
+    async fn process_retiring_worker(&mut self, maybe_client: Option<Result<Client, JoinError>>) {
+        match maybe_client {
             Some(Err(e)) => error!(
                 "Failed joining one of the threads, possible orphan threads running, {:?}",
                 e
             ),
-            Some(Ok(id)) => {
-                self.clients.write().await.remove(&id);
+            Some(Ok(client)) => {
+                let mut clients = self.clients.write().await;
+                let current = clients
+                    .get(&client.clientid)
+                    .map(|c| c.same_connection(&client))
+                    .unwrap_or(false);
+                // otherwise another connection has taken over the client id
+                if current {
+                    clients.remove(&client.clientid);
+                    self.topics.unsubscribe_all(client.clientid).await;
+                }
             }
             None => (),
         };
@@ -132,7 +149,7 @@ impl ClientManager {
                 w = self.rx.recv() => if !self.process_new_worker(w).await {
                     break;
                 },
-                clientid = self.workers.next() => self.process_retiring_worker(clientid).await,
+                client = self.workers.next() => self.process_retiring_worker(client).await,
             };
         }
     }
diff --git a/server-lib/src/lib.rs b/server-lib/src/lib.rs
index 077509e..b664d28 100644
--- a/server-lib/src/lib.rs
+++ b/server-lib/src/lib.rs
@@ -37,10 +37,15 @@ impl MqttServer {
         let shutdown = Arc::new(Notify::new());
         let cfg = Arc::new(cfg);
         let clients = Arc::new(RwLock::new(HashMap::new()));
-        let mut workers =
-            ClientManager::start(cfg.clone(), clients.clone(), shutdown.clone(), incoming_tx)
-                .await?;
         let topics = Arc::new(TopicsTable::new());
+        let mut workers = ClientManager::start(
+            cfg.clone(),
+            clients.clone(),
+            topics.clone(),
+            shutdown.clone(),
+            incoming_tx,
+        )
+        .await?;
         let dispatcher = Dispatcher::new(
             topics.clone(),
             cfg.clone(),
-- 
2.43.0


From 00d7ce582c7610d20de8c4313623b05abcdee917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:46 +0000
Subject: [PATCH 17/32] fix: parse only the decrypted bytes of a Noise message

The buffer is as long as the ciphertext, so a truncated packet was completed
with zeros and accepted; anything after the packet was silently dropped.
---
 server-lib/src/clients/noiseclient.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index 973eae0..85e1b25 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -52,10 +52,12 @@ impl NoiseClient {
             .ok_or_else(|| ServerError::Misc("Client disconnected".to_owned()))??;
         //TODO when you implement noise protocol by hand... make sure to make this happen in place
         let mut message = vec![0; frame.remaining()];
-        self.crypto.read_message(&frame[..], &mut message)?;
+        let size = self.crypto.read_message(&frame[..], &mut message)?;
 
-        let mut buf: &[u8] = message.as_ref();
+        let mut buf: &[u8] = &message[..size];
         match Packet::from_bytes(&mut buf) {
+            // every message holds exactly one packet
+            Ok(_) if buf.has_remaining() => Err(DataParseError::BadPacketType.into()),
             Ok(packet) => Ok(packet),
             Err(DataParseError::InsufficientBuffer {
                 needed: _,
-- 
2.43.0


From 4933230ab592988285efa8018a98b696e8bcd48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:46 +0000
Subject: [PATCH 18/32] fix: enforce the maximum packet size on encrypted
 connections too

---
 server-lib/src/clients/noiseclient.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/clients/noiseclient.rs b/server-lib/src/clients/noiseclient.rs
index 85e1b25..8896b7d 100644
--- a/server-lib/src/clients/noiseclient.rs
+++ b/server-lib/src/clients/noiseclient.rs
@@ -23,6 +23,7 @@ pub struct NoiseClient {
     stream: Framed<TcpStream, LengthDelimitedCodec>,
     saddr: SocketAddr,
     crypto: TransportState,
+    max_packet_size: u32,
 }
 
 impl fmt::Debug for NoiseClient {
@@ -36,11 +37,13 @@ impl NoiseClient {
         stream: Framed<TcpStream, LengthDelimitedCodec>,
         saddr: SocketAddr,
         crypto: TransportState,
+        max_packet_size: u32,
     ) -> Self {
         NoiseClient {
             stream,
             saddr,
             crypto,
+            max_packet_size,
         }
     }
     pub async fn recv(&mut self) -> Result<Packet, ServerError> {
@@ -53,6 +56,9 @@ impl NoiseClient {
         //TODO when you implement noise protocol by hand... make sure to make this happen in place
         let mut message = vec![0; frame.remaining()];
         let size = self.crypto.read_message(&frame[..], &mut message)?;
+        if size > self.max_packet_size as usize {
+            return Err(ServerError::MaxPacketSizeExceeded);
+        }
 
         let mut buf: &[u8] = &message[..size];
         match Packet::from_bytes(&mut buf) {
@@ -202,7 +208,7 @@ async fn _connect_client(
     }
     let transport = responder.into_transport_mode().unwrap();
 
-    let nc = NoiseClient::new(stream, saddr, transport);
+    let nc = NoiseClient::new(stream, saddr, transport, cfg.max_packet_size);
     let mut client = ClientWorker::new(
         Connection::Noise(Box::new(nc)),
         cfg,
-- 
2.43.0


From 7798a7c6859646a973e6a7668acecfa6675b8af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:46 +0000
Subject: [PATCH 19/32] fix: never send a client a packet it cannot receive

The maximum packet size announced in CONNECT was ignored, and a message too big
for one Noise message ended the connection of every encrypted subscriber.
---
 server-lib/src/cfg.rs                  | 2 ++
 server-lib/src/clients/client.rs       | 8 ++++++--
 server-lib/src/clients/clientworker.rs | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/server-lib/src/cfg.rs b/server-lib/src/cfg.rs
index 493e12e..6d9a294 100644
--- a/server-lib/src/cfg.rs
+++ b/server-lib/src/cfg.rs
@@ -5,3 +5,5 @@ pub const SUB_ID: bool = false;
 pub const SHARED_SUB: bool = false;
 #[cfg(feature = "noise")]
 pub const NOISE_PATTERN: &str = "Noise_XK_25519_ChaChaPoly_BLAKE2s";
+/// A Noise message is at most 65535 bytes long, 16 of which authenticate it
+pub const NOISE_MAX_PACKET_SIZE: u32 = 65535 - 16;
diff --git a/server-lib/src/clients/client.rs b/server-lib/src/clients/client.rs
index 27e3f41..d81a018 100644
--- a/server-lib/src/clients/client.rs
+++ b/server-lib/src/clients/client.rs
@@ -1,4 +1,4 @@
-use crate::ServerError;
+use crate::{cfg::NOISE_MAX_PACKET_SIZE, ServerError};
 use apiformes_packet::prelude::Packet;
 use std::sync::Arc;
 use tokio::sync::{mpsc::UnboundedSender, Notify};
@@ -29,7 +29,11 @@ impl Client {
         Client {
             session_expirary: 0,
             recv_max: u16::MAX,
-            max_packet_size,
+            max_packet_size: if encrypted {
+                max_packet_size.min(NOISE_MAX_PACKET_SIZE)
+            } else {
+                max_packet_size
+            },
             topic_alias_max: 0,
             response_info: false,
             problem_info: true,
diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index 1079338..e5fc6be 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -63,7 +63,10 @@ impl ClientWorker {
             }
             p = self.outgoing.recv() => {
                 let packet = p.map(Ok).unwrap_or_else(|| Err(ServerError::Misc("outgoing queue lost all its senders".to_owned())))?;
-                self.conn.send(&packet).await?;
+                // 3.1.2.11.4 a packet the client cannot receive is dropped, for this client only
+                if packet.frame_len() <= self.internals.max_packet_size as usize {
+                    self.conn.send(&packet).await?;
+                }
             }
         }
         Ok(())
-- 
2.43.0


From 5630a5f39e92a2a7f3de94d1df5988dd2c6f63cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:46 +0000
Subject: [PATCH 20/32] fix: concurrent subscriptions must not replace each
 other's topic nodes

---
 server-lib/src/topics.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index 3c0f25c..80fc9d5 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -194,11 +194,12 @@ impl Block {
     }
     async fn create_if_not_existing(&self, subtopic: &str) {
         if !self.contains_subtopic(subtopic).await {
-            let block = Block::new();
+            // another task may have created it since
             self.write()
                 .await
                 .sub_blocks
-                .insert(Arc::from(subtopic), block);
+                .entry(Arc::from(subtopic))
+                .or_insert_with(Block::new);
         }
     }
 }
-- 
2.43.0


From 60dfbe7319416be17fe5f4e33d8e3649d8bd9a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:46 +0000
Subject: [PATCH 21/32] fix: filters starting with a wildcard must not match $
 topics

---
 server-lib/src/topics.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index 80fc9d5..16882f1 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -169,19 +169,24 @@ impl Block {
         &self,
         subs: &mut HashMap<ClientId, SubscriptionInfo>,
         mut sections: S,
+        skip_wildcards: bool,
     ) where
         S: Iterator<Item = &'a str> + Send + Sync + Clone,
     {
         let raii = self.read().await;
-        raii.collect_hash_wildcard(subs).await;
+        if !skip_wildcards {
+            raii.collect_hash_wildcard(subs).await;
+        }
         if let Some(section) = sections.next() {
             // somewhere in the middle
             trace!("in collect_subs, section = `{}`", section);
-            if let Some(sub_block) = raii.sub_blocks.get("+") {
-                sub_block.collect_subs(subs, sections.clone()).await;
+            if !skip_wildcards {
+                if let Some(sub_block) = raii.sub_blocks.get("+") {
+                    sub_block.collect_subs(subs, sections.clone(), false).await;
+                }
             }
             if let Some(sub_block) = raii.sub_blocks.get(section) {
-                sub_block.collect_subs(subs, sections).await;
+                sub_block.collect_subs(subs, sections, false).await;
             }
         } else {
             // reached the end
@@ -353,7 +358,10 @@ impl TopicsTable {
             "collected_sections {:?}",
             sections.clone().collect::<Vec<_>>()
         );
-        self.root_block.collect_subs(&mut subs, sections).await;
+        // 4.7.2 filters starting with a wildcard do not match topics starting with $
+        self.root_block
+            .collect_subs(&mut subs, sections, topic.starts_with('$'))
+            .await;
         subs
     }
 }
-- 
2.43.0


From 9a194f32f1a3e8345d3bab87da193187578fd21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:46 +0000
Subject: [PATCH 22/32] fix: the benchmark client must not spin when the broker
 closes its connection

---
 bm/src/client.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bm/src/client.rs b/bm/src/client.rs
index 859fd2f..3134878 100644
--- a/bm/src/client.rs
+++ b/bm/src/client.rs
@@ -1,7 +1,7 @@
 use apiformes_packet::prelude::*;
 use bytes::{Buf, BytesMut};
 use std::io::Cursor;
-use std::io::Result;
+use std::io::{ErrorKind, Result};
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
 use tokio::net::{TcpStream, ToSocketAddrs};
 
@@ -30,7 +30,11 @@ impl Client {
                 Err(DataParseError::InsufficientBuffer {
                     needed: _,
                     available: _,
-                }) => self.stream.read_buf(&mut self.recv_bytes).await?,
+                }) => {
+                    if self.stream.read_buf(&mut self.recv_bytes).await? == 0 {
+                        return Err(ErrorKind::UnexpectedEof.into());
+                    }
+                }
                 Err(e) => panic!("{:?}", e),
             };
         }
-- 
2.43.0


From 915ef7c8ef585016cab07e1cf0fd919536cd20c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:14 +0000
Subject: [PATCH 23/32] hook: expose the topic table to verification builds
 (cfg apiformes_verif)

---
 server-lib/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server-lib/src/lib.rs b/server-lib/src/lib.rs
index b664d28..5f6b91a 100644
--- a/server-lib/src/lib.rs
+++ b/server-lib/src/lib.rs
@@ -20,6 +20,8 @@ use tokio::{
     task::JoinHandle,
 };
 use topics::TopicsTable;
+#[cfg(apiformes_verif)]
+pub use topics::{SubscriptionFlags, SubscriptionInfo, TopicsTable as VerifTopicsTable};
 use tracing::{error, info, instrument};
 pub struct MqttServer {
     clients: Arc<RwLock<HashMap<Arc<str>, Client>>>,
-- 
2.43.0


From b88568ce45e039ed67b15b8711c0a4671dda2bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:11 +0000
Subject: [PATCH 24/32] fix: topics with thousands of levels must not overflow
 the stack

Visiting, collecting and dropping the topic blocks recursed once per level, so
that one SUBSCRIBE or PUBLISH with a deep enough topic aborted the broker.
---
 server-lib/src/topics.rs | 96 +++++++++++++++++++++++-----------------
 1 file changed, 56 insertions(+), 40 deletions(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index 16882f1..2943c7e 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -1,5 +1,4 @@
 use apiformes_packet::prelude::*;
-use async_recursion::async_recursion;
 use bitflags::bitflags;
 use futures::future::BoxFuture;
 use std::collections::{hash_map::Entry, HashMap, HashSet};
@@ -49,7 +48,7 @@ struct BlockInner {
     subscribers: RwLock<HashMap<ClientId, SubscriptionInfo>>,
     // the `+` wild card is stored in here
     // TODO lazy static the `+` subtopic
-    sub_blocks: HashMap<SubTopic, Block>,
+    sub_blocks: HashMap<SubTopic, Arc<Block>>,
 }
 
 impl Default for BlockInner {
@@ -138,59 +137,63 @@ impl Block {
         self.inner.write().await
     }
 
-    #[async_recursion]
+    // Blocks are never removed while the table is alive, so there is no need to keep the parents
+    // locked while descending. Topics may have thousands of levels, hence no recursion either.
     async fn visit<'a, S>(
-        &self,
-        mut sections: S,
+        self: &Arc<Self>,
+        sections: S,
         create: bool,
-        run: impl FnOnce(&Block, bool) -> BoxFuture<()> + Send + 'async_recursion,
+        run: impl FnOnce(&Block, bool) -> BoxFuture<()> + Send,
     ) where
         S: Iterator<Item = &'a str> + Send,
     {
-        let x = sections.next();
-        trace!("Visiting {:?}", x);
-        match x {
-            Some("#") => run(self, true).await,
-            None => run(self, false).await,
-            Some(section) => {
-                if create {
-                    self.create_if_not_existing(section).await;
-                }
-                let raii = self.read().await;
-                if let Some(sub_block) = raii.sub_blocks.get(section) {
-                    sub_block.visit(sections, create, run).await;
-                }
+        let mut block = self.clone();
+        for section in sections {
+            trace!("Visiting {:?}", section);
+            if section == "#" {
+                return run(&block, true).await;
             }
+            if create {
+                block.create_if_not_existing(section).await;
+            }
+            let sub_block = block.read().await.sub_blocks.get(section).cloned();
+            block = match sub_block {
+                Some(sub_block) => sub_block,
+                None => return,
+            };
         }
+        run(&block, false).await
     }
 
-    #[async_recursion]
     async fn collect_subs<'a, S>(
-        &self,
+        self: &Arc<Self>,
         subs: &mut HashMap<ClientId, SubscriptionInfo>,
-        mut sections: S,
+        sections: S,
         skip_wildcards: bool,
     ) where
         S: Iterator<Item = &'a str> + Send + Sync + Clone,
     {
-        let raii = self.read().await;
-        if !skip_wildcards {
-            raii.collect_hash_wildcard(subs).await;
-        }
-        if let Some(section) = sections.next() {
-            // somewhere in the middle
-            trace!("in collect_subs, section = `{}`", section);
+        let mut pending = vec![(self.clone(), sections, skip_wildcards)];
+        while let Some((block, mut sections, skip_wildcards)) = pending.pop() {
+            let raii = block.read().await;
             if !skip_wildcards {
-                if let Some(sub_block) = raii.sub_blocks.get("+") {
-                    sub_block.collect_subs(subs, sections.clone(), false).await;
-                }
+                raii.collect_hash_wildcard(subs).await;
             }
-            if let Some(sub_block) = raii.sub_blocks.get(section) {
-                sub_block.collect_subs(subs, sections, false).await;
+            if let Some(section) = sections.next() {
+                // somewhere in the middle
+                trace!("in collect_subs, section = `{}`", section);
+                if let Some(sub_block) = raii.sub_blocks.get(section) {
+                    pending.push((sub_block.clone(), sections.clone(), false));
+                }
+                if !skip_wildcards {
+                    if let Some(sub_block) = raii.sub_blocks.get("+") {
+                        pending.push((sub_block.clone(), sections, false));
+                    }
+                }
+            } else {
+                // reached the end
+                raii.collect_subscribers(subs).await;
             }
-        } else {
-            // reached the end
-            raii.collect_subscribers(subs).await;
         }
     }
 
@@ -204,7 +207,20 @@ impl Block {
                 .await
                 .sub_blocks
                 .entry(Arc::from(subtopic))
-                .or_insert_with(Block::new);
+                .or_insert_with(|| Arc::new(Block::new()));
+        }
+    }
+}
+
+impl Drop for Block {
+    // dropping nested blocks one inside the other would recurse as deep as the topics are
+    fn drop(&mut self) {
+        let mut pending: Vec<Arc<Block>> = Vec::new();
+        pending.extend(self.inner.get_mut().sub_blocks.drain().map(|(_, b)| b));
+        while let Some(block) = pending.pop() {
+            if let Ok(mut block) = Arc::try_unwrap(block) {
+                pending.extend(block.inner.get_mut().sub_blocks.drain().map(|(_, b)| b));
+            }
         }
     }
 }
@@ -215,7 +231,7 @@ impl Block {
 /// there must always be equivalent entry in `topics`. As such, when we insert
 /// we insert into `topics` first but removal is done in reverse order
 pub struct TopicsTable {
-    root_block: Block,
+    root_block: Arc<Block>,
     reverse_index: RwLock<HashMap<ClientId, HashSet<SubTopic>>>,
     //TODO we can have slab allocator for Block here
     // and another slab allocator for subscription info
@@ -235,7 +251,7 @@ impl Default for TopicsTable {
 impl TopicsTable {
     pub fn new() -> Self {
         TopicsTable {
-            root_block: Block::new(),
+            root_block: Arc::new(Block::new()),
             reverse_index: RwLock::new(HashMap::new()),
         }
     }
-- 
2.43.0


From 11b5c06615de53ab70e64e6e42b9eb12087b1af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:26 +0000
Subject: [PATCH 25/32] fix: a topic table removal must not return before the
 subscription is gone

Removing all subscriptions of a client while another removal had already taken
one of them out of the reverse index returned with that subscription still in
place.
---
 server-lib/src/topics.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index 2943c7e..da43f1b 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -3,7 +3,7 @@ use bitflags::bitflags;
 use futures::future::BoxFuture;
 use std::collections::{hash_map::Entry, HashMap, HashSet};
 use std::sync::Arc;
-use tokio::sync::{RwLock, RwLockReadGuard, RwLockWriteGuard};
+use tokio::sync::{Mutex, RwLock, RwLockReadGuard, RwLockWriteGuard};
 use tracing::trace;
 type ClientId = Arc<str>;
 type SubTopic = Arc<str>;
@@ -233,6 +233,9 @@ impl Drop for Block {
 pub struct TopicsTable {
     root_block: Arc<Block>,
     reverse_index: RwLock<HashMap<ClientId, HashSet<SubTopic>>>,
+    /// held by every change, a removal could otherwise return while another one, that has taken
+    /// the same subscription out of `reverse_index`, is yet to remove it from `topics`
+    changing: Mutex<()>,
     //TODO we can have slab allocator for Block here
     // and another slab allocator for subscription info
     // but first to make sure that this is not just
@@ -253,6 +256,7 @@ impl TopicsTable {
         TopicsTable {
             root_block: Arc::new(Block::new()),
             reverse_index: RwLock::new(HashMap::new()),
+            changing: Mutex::new(()),
         }
     }
     fn topic_to_subtopics<'a>(&self, topic: &'a str) -> impl Iterator<Item = &'a str> + Clone {
@@ -326,6 +330,7 @@ impl TopicsTable {
         qos: QoS,
         flags: SubscriptionFlags,
     ) {
+        let _changing = self.changing.lock().await;
         self.topics_add(clientid.clone(), &topic, qos, flags).await;
         self.reverse_index_add(clientid, topic).await;
     }
@@ -354,6 +359,7 @@ impl TopicsTable {
         .await
     }
     pub async fn unsubscribe(&self, clientid: Arc<str>, topic: &str) {
+        let _changing = self.changing.lock().await;
         self.reverse_index_remove(&clientid, topic).await;
         self.topic_remove(clientid, topic).await;
     }
@@ -361,6 +367,7 @@ impl TopicsTable {
         self.reverse_index.write().await.remove(clientid)
     }
     pub async fn unsubscribe_all(&self, clientid: Arc<str>) {
+        let _changing = self.changing.lock().await;
         if let Some(topics) = self.reverse_index_remove_all(&clientid).await {
             for topic in topics {
                 self.topic_remove(clientid.clone(), &topic).await
-- 
2.43.0


From 76c4874eed10b8b8e285ca21612aced1c6aedbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 26/32] fix: the CONNACK must not exceed the maximum packet
 size of the client

Every other packet larger than that is dropped since 7798a7c.
---
 server-lib/src/clients/clientworker.rs | 28 +++++++++++++++++---------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index e5fc6be..2f852ce 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -50,6 +50,13 @@ pub(super) struct ClientWorker {
 }
 
 impl ClientWorker {
+    // 3.1.2.11.4 a packet the client cannot receive is dropped, for this client only
+    async fn send(&mut self, packet: &Packet) -> Result<(), ServerError> {
+        if packet.frame_len() <= self.internals.max_packet_size as usize {
+            self.conn.send(packet).await?;
+        }
+        Ok(())
+    }
     async fn listen(&mut self) -> Result<(), ServerError> {
         tokio::select! {
             p = self.conn.recv() => {
@@ -63,10 +70,7 @@ impl ClientWorker {
             }
             p = self.outgoing.recv() => {
                 let packet = p.map(Ok).unwrap_or_else(|| Err(ServerError::Misc("outgoing queue lost all its senders".to_owned())))?;
-                // 3.1.2.11.4 a packet the client cannot receive is dropped, for this client only
-                if packet.frame_len() <= self.internals.max_packet_size as usize {
-                    self.conn.send(&packet).await?;
-                }
+                self.send(&packet).await?;
             }
         }
         Ok(())
@@ -119,11 +123,18 @@ impl ClientWorker {
     async fn unimplemented(&mut self) -> Result<(), ServerError> {
         let mut connack = ConnAck::new();
         connack.set_reason_code(ConnAckReasonCode::ImplementationSpecificError);
-        self.conn.send(&connack.build()).await?;
+        self.send(&connack.build()).await?;
         Err(ServerError::Misc("Unimplemented".to_owned()))
     }
     #[instrument(name = "ClientWorker::process_connect", skip_all)]
     async fn process_connect(&mut self, connect: Connect) -> Result<(), ServerError> {
+        // it applies to every answer
+        for (k, v) in connect.props_iter() {
+            if let Property::MaximumPacketSize = k {
+                self.internals.max_packet_size =
+                    self.internals.max_packet_size.min(v.into_u32().unwrap())
+            }
+        }
         if connect.username().is_some() {
             error!("Client attempted using username for authentication which is not supported");
             return self.unimplemented().await;
@@ -146,10 +157,7 @@ impl ClientWorker {
                     self.internals.session_expirary = v.into_u32().unwrap()
                 }
                 Property::ReceiveMaximum => self.internals.recv_max = v.into_u16().unwrap(),
-                Property::MaximumPacketSize => {
-                    self.internals.max_packet_size =
-                        self.internals.max_packet_size.min(v.into_u32().unwrap())
-                }
+                Property::MaximumPacketSize => (),
                 Property::TopicAliasMaximum => {
                     self.internals.topic_alias_max = v.into_u16().unwrap()
                 }
@@ -244,7 +252,7 @@ impl ClientWorker {
                 MqttPropValue::new_u16(self.cfg.keep_alive),
             )
             .unwrap();
-        self.conn.send(&connack.build()).await
+        self.send(&connack.build()).await
     }
     pub async fn connect(&mut self) -> Result<(), ServerError> {
         match self.conn.recv().await? {
-- 
2.43.0


From b835fc70aed9f8e1036c0e5a034cb7a4b65a21a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:46 +0000
Subject: [PATCH 27/32] fix: a listen address that cannot be used must not
 leave the other listener running

---
 server-lib/src/clients/mod.rs | 53 ++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/server-lib/src/clients/mod.rs b/server-lib/src/clients/mod.rs
index 6b15cc8..c31b5ce 100644
--- a/server-lib/src/clients/mod.rs
+++ b/server-lib/src/clients/mod.rs
@@ -14,7 +14,7 @@ pub use mqttclient::MqttListener;
 #[cfg(feature = "noise")]
 pub use noiseclient::NoiseListener;
 use std::collections::HashMap;
-use std::{net::SocketAddr, sync::Arc};
+use std::sync::Arc;
 use tokio::{
     net::TcpListener,
     sync::{
@@ -61,29 +61,38 @@ impl ClientManager {
     ) -> Result<Vec<JoinHandle<()>>, ServerError> {
         let (tx, rx) = unbounded_channel();
 
+        // no task may be left behind if any of the addresses cannot be used
+        let mqtt_listener = match cfg.mqtt_socketaddr {
+            Some(saddr) => Some(TcpListener::bind(saddr).await?),
+            None => None,
+        };
+        #[cfg(feature = "noise")]
+        let noise_listener = match cfg.noise_socketaddr {
+            Some(saddr) => Some(TcpListener::bind(saddr).await?),
+            None => None,
+        };
+
         let mut workers = Vec::new();
-        if let Some(saddr) = cfg.mqtt_socketaddr {
+        if let Some(listener) = mqtt_listener {
             let handle = ClientManager::incomming_mqtt_listener(
-                &saddr,
+                listener,
                 tx.clone(),
                 shutdown.clone(),
                 cfg.clone(),
                 incoming.clone(),
-            )
-            .await?;
+            );
             workers.push(handle)
         }
 
         #[cfg(feature = "noise")]
-        if let Some(saddr) = cfg.noise_socketaddr {
+        if let Some(listener) = noise_listener {
             let handle = ClientManager::incomming_noise_listener(
-                &saddr,
+                listener,
                 tx.clone(),
                 shutdown.clone(),
                 cfg.clone(),
                 incoming,
-            )
-            .await?;
+            );
             workers.push(handle)
         }
 
@@ -167,44 +176,42 @@ impl ClientManager {
         info!("Starting clients manager");
         tokio::spawn(async move { self.run().await })
     }
-    async fn incomming_mqtt_listener(
-        saddr: &SocketAddr,
+    fn incomming_mqtt_listener(
+        listener: TcpListener,
         tx: UnboundedSender<ClientWorker>,
         shutdown: Arc<Notify>,
         cfg: Arc<MqttServerConfig>,
         incoming: Sender<PacketInfo>,
-    ) -> Result<JoinHandle<()>, ServerError> {
-        let listener = TcpListener::bind(saddr).await?;
+    ) -> JoinHandle<()> {
         info!(
-            SocketAddr = &*format!("{}", saddr),
+            SocketAddr = &*format!("{:?}", listener.local_addr()),
             "Starting listener for incoming unencrypted connections"
         );
 
-        Ok(tokio::spawn(async move {
+        tokio::spawn(async move {
             MqttListener::new(listener, tx, shutdown, cfg, incoming)
                 .run()
                 .await
-        }))
+        })
     }
 
     #[cfg(feature = "noise")]
-    async fn incomming_noise_listener(
-        saddr: &SocketAddr,
+    fn incomming_noise_listener(
+        listener: TcpListener,
         tx: UnboundedSender<ClientWorker>,
         shutdown: Arc<Notify>,
         cfg: Arc<MqttServerConfig>,
         incoming: Sender<PacketInfo>,
-    ) -> Result<JoinHandle<()>, ServerError> {
-        let listener = TcpListener::bind(saddr).await?;
+    ) -> JoinHandle<()> {
         info!(
-            SocketAddr = &*format!("{}", saddr),
+            SocketAddr = &*format!("{:?}", listener.local_addr()),
             "Starting listener for incoming encrypted connections"
         );
 
-        Ok(tokio::spawn(async move {
+        tokio::spawn(async move {
             NoiseListener::new(listener, tx, shutdown, cfg, incoming)
                 .run()
                 .await
-        }))
+        })
     }
 }
-- 
2.43.0


From f0ee02bf019ec790a1cf2a592ed8c2fe1e9588b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:51 +0000
Subject: [PATCH 28/32] fix: the mean arrival rate is per subscriber, not per
 publisher

---
 bm/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bm/src/main.rs b/bm/src/main.rs
index 18834cc..237e0e3 100644
--- a/bm/src/main.rs
+++ b/bm/src/main.rs
@@ -194,7 +194,7 @@ async fn main() {
                     .as_micros() as f64
         })
         .sum::<f64>()
-        / cfg.n_pubs as f64
+        / cfg.n_subs as f64
         * 1000000.0; //because we are doing measurements in micrseconds
 
     let mut aggregate: Vec<_> = subs
-- 
2.43.0


From 29f3e9302fba28c7c2113a4a1c473c642ce50454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:51 +0000
Subject: [PATCH 29/32] fix: a benchmark without any delivery must not fail
 while reporting

---
 bm/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bm/src/main.rs b/bm/src/main.rs
index 237e0e3..19a8d26 100644
--- a/bm/src/main.rs
+++ b/bm/src/main.rs
@@ -211,6 +211,10 @@ async fn main() {
         "Mean arrival rate = {:.2} packets/second/subscriber",
         arrival_rate
     );
+    // without subscribers, publishers or messages there were no trips
+    if aggregate.is_empty() {
+        return;
+    }
     println!("Minimum trip time: {:?}", aggregate[0]);
     println!("Maximum trip time: {:?}", aggregate[aggregate.len() - 1]);
     println!(
-- 
2.43.0


From 8b9711a5213737df8b255f1821a69095977285c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:51 +0000
Subject: [PATCH 30/32] fix: a minimum delay equal to the maximum must not fail

---
 bm/src/publisher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bm/src/publisher.rs b/bm/src/publisher.rs
index b058fa7..48d6c41 100644
--- a/bm/src/publisher.rs
+++ b/bm/src/publisher.rs
@@ -80,7 +80,7 @@ impl Publisher {
         max_sleep_time: Duration,
     ) -> Result<()> {
         let mut small_rng = SmallRng::from_entropy();
-        let sample_space = Uniform::new(min_sleep_time, max_sleep_time);
+        let sample_space = Uniform::new_inclusive(min_sleep_time, max_sleep_time);
         for _ in 0..self.iterations {
             sleep(small_rng.sample(sample_space)).await;
             self.run_once().await?;
-- 
2.43.0


From 1e64bd3585ed1d2668f213af4aef141af4633227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 31/32] fix: acknowledge a connection only once it is
 registered

---
 server-lib/src/clients/clientworker.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/server-lib/src/clients/clientworker.rs b/server-lib/src/clients/clientworker.rs
index 2f852ce..81d5d58 100644
--- a/server-lib/src/clients/clientworker.rs
+++ b/server-lib/src/clients/clientworker.rs
@@ -75,6 +75,14 @@ impl ClientWorker {
         }
         Ok(())
     }
+    // The CONNACK is the first packet queued. It fits any send buffer, so this does not wait for the
+    // client to read it.
+    async fn acknowledge(&mut self) -> Result<(), ServerError> {
+        match self.outgoing.recv().await {
+            Some(connack) => self.send(&connack).await,
+            None => Ok(()),
+        }
+    }
     async fn listen_forever(&mut self) {
         loop {
             if let Err(e) = self.listen().await {
@@ -90,6 +98,14 @@ impl ClientWorker {
     pub(super) async fn run(mut self) -> Client {
         let shutdown = self.internals.shutdown.clone();
         let killme = self.internals.killme.clone();
+        // even if another connection has taken over the client id already
+        if let Err(e) = self.acknowledge().await {
+            info!(
+                clientid = &*self.internals.clientid,
+                "Disconnecting, failed to acknowledge the connection, {:?}", e
+            );
+            return self.internals;
+        }
         tokio::select! {
             _ = killme.notified() => (),
             _ = shutdown.notified() => shutdown.notify_one(),
@@ -252,7 +268,9 @@ impl ClientWorker {
                 MqttPropValue::new_u16(self.cfg.keep_alive),
             )
             .unwrap();
-        self.send(&connack.build()).await
+        // Sent once the connection is registered, so that connections using the same client id take
+        // over from each other in the order they are accepted
+        self.internals.send(connack.build())
     }
     pub async fn connect(&mut self) -> Result<(), ServerError> {
         match self.conn.recv().await? {
-- 
2.43.0


From 7c056f175705e705cc5f78201b15d7046325397d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:55 +0000
Subject: [PATCH 32/32] fix: drop topic levels with the last subscription below
 them

---
 server-lib/src/topics.rs | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/server-lib/src/topics.rs b/server-lib/src/topics.rs
index da43f1b..eb20933 100644
--- a/server-lib/src/topics.rs
+++ b/server-lib/src/topics.rs
@@ -137,8 +137,9 @@ impl Block {
         self.inner.write().await
     }
 
-    // Blocks are never removed while the table is alive, so there is no need to keep the parents
-    // locked while descending. Topics may have thousands of levels, hence no recursion either.
+    // There is no need to keep the parents locked while descending, blocks are only removed once they
+    // hold nothing and not while another change is made. Topics may have thousands of levels, hence no
+    // recursion either.
     async fn visit<'a, S>(
         self: &Arc<Self>,
         sections: S,
@@ -197,6 +198,35 @@ impl Block {
         }
     }
 
+    async fn is_unused(&self) -> bool {
+        let raii = self.read().await;
+        raii.sub_blocks.is_empty()
+            && raii.subscribers.read().await.is_empty()
+            && raii.hash_wildcard.read().await.is_empty()
+    }
+    // Removes the blocks on the way to `sections` that hold nothing any more, they would otherwise be
+    // kept for every filter ever subscribed to
+    async fn prune<'a>(self: &Arc<Self>, sections: impl Iterator<Item = &'a str>) {
+        let mut parents = Vec::new();
+        let mut block = self.clone();
+        for section in sections {
+            let sub_block = block.read().await.sub_blocks.get(section).cloned();
+            match sub_block {
+                Some(sub_block) => {
+                    parents.push((std::mem::replace(&mut block, sub_block), section));
+                }
+                None => break,
+            }
+        }
+        while let Some((parent, section)) = parents.pop() {
+            if !block.is_unused().await {
+                break;
+            }
+            parent.write().await.sub_blocks.remove(section);
+            block = parent;
+        }
+    }
+
     async fn contains_subtopic(&self, subtopic: &str) -> bool {
         self.read().await.sub_blocks.contains_key(subtopic)
     }
@@ -356,7 +386,8 @@ impl TopicsTable {
                 }
             })
         })
-        .await
+        .await;
+        self.root_block.prune(self.topic_to_subtopics(topic)).await
     }
     pub async fn unsubscribe(&self, clientid: Arc<str>, topic: &str) {
         let _changing = self.changing.lock().await;
-- 
2.43.0

