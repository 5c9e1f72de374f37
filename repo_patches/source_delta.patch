From df0609b8eee8a46f1bcc8249da41f54bde5ba4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 01/21] fix: end the connection when the peer closes the stream

fill_buf returns an empty slice at end of file; the loop continued and
spun on the closed stream.
---
 src/handler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handler.rs b/src/handler.rs
index 5088d23..a22d9fc 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -56,7 +56,8 @@ where
                     Ok(bytes) => {
                         let len = bytes.len();
                         if len == 0 {
-                            continue;
+                            debug!("Connection closed by peer");
+                            break 'ctrl;
                         }
                         let (packet, packet_size) = Packet::unpack(bytes, protocol)?;
                         broker_info::sent_data(packet_size);
-- 
2.43.0


From c1bec8b7e0de0c403874c0a3d2cb36988a9a11aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 02/21] fix: refuse strings and binary data cut short by the
 end of the packet

---
 src/packets/utils.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index b6e5fb4..a38c017 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -83,7 +83,12 @@ pub fn unpack_bytes<'a, I>(iter: &mut I, len: usize) -> Result<bytes::Bytes, Mqt
 where
     I: Iterator<Item = &'a u8>,
 {
-    Ok(Bytes::from_iter(iter.take(len).copied()))
+    let bytes = Bytes::from_iter(iter.take(len).copied());
+    if bytes.len() != len {
+        return Err(MqttError::RequiredByteMissing("Missing binary data"));
+    }
+
+    Ok(bytes)
 }
 
 pub fn unpack_string_with_len<'a, I>(iter: &mut I, len: usize) -> Result<String, MqttError>
@@ -95,6 +100,9 @@ where
     }
 
     let chars: Vec<u8> = iter.take(len).copied().collect();
+    if chars.len() != len {
+        return Err(MqttError::RequiredByteMissing("Missing string data"));
+    }
 
     let result = String::from_utf8(chars).map_err(MqttError::MalformedString)?;
 
-- 
2.43.0


From ab04d4741eedcb02a16ef74e1226255e3e1983f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 03/21] fix: frame packets by their declared length

A packet split over several reads was decoded from the part that had
arrived, and decoding could use bytes of the packet that follows. Bytes
are now collected until the declared packet is complete and the body is
decoded from exactly those.
---
 src/handler.rs     | 44 ++++++++++++++++++++++++++++++++------------
 src/packets/mod.rs | 15 ++++++++++++++-
 2 files changed, 46 insertions(+), 13 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index a22d9fc..0a28f20 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -1,8 +1,9 @@
 use std::time::Duration;
 
+use bytes::BytesMut;
 use log::{debug, error};
 use tokio::{
-    io::{AsyncBufReadExt, AsyncRead, AsyncWrite, AsyncWriteExt},
+    io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt},
     select,
     sync::mpsc::{channel, Sender},
     time::Instant,
@@ -21,6 +22,26 @@ use crate::{
     },
 };
 
+/// Read one whole packet, however the stream is cut into reads. `None` at the end of the stream.
+///
+/// Bytes of an incomplete packet stay in `pending`, so nothing is lost when the future is dropped.
+async fn read_frame<R>(reader: &mut R, pending: &mut BytesMut) -> Result<Option<BytesMut>, MqttError>
+where
+    R: AsyncRead + Unpin,
+{
+    loop {
+        if let Some(size) = Packet::frame_size(pending)? {
+            if pending.len() >= size {
+                return Ok(Some(pending.split_to(size)));
+            }
+        }
+
+        if reader.read_buf(pending).await? == 0 {
+            return Ok(None);
+        }
+    }
+}
+
 pub async fn client_handler<R, W>(
     read_stream: R,
     mut writer: W,
@@ -39,6 +60,7 @@ where
     let mut cid = None;
     let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));
     let mut reader = tokio::io::BufReader::new(read_stream);
+    let mut pending = BytesMut::new();
     let (tx, mut rx) = channel::<ClientEvent>(100);
 
     tokio::pin!(keepalive_timer);
@@ -51,27 +73,25 @@ where
             () = &mut keepalive_timer => {
                 break 'ctrl;
             }
-            buffer = reader.fill_buf() => {
+            buffer = read_frame(&mut reader, &mut pending) => {
                 let packet = match buffer {
-                    Ok(bytes) => {
-                        let len = bytes.len();
-                        if len == 0 {
-                            debug!("Connection closed by peer");
-                            break 'ctrl;
-                        }
-                        let (packet, packet_size) = Packet::unpack(bytes, protocol)?;
+                    Ok(Some(bytes)) => {
+                        let (packet, packet_size) = Packet::unpack(&bytes, protocol)?;
                         broker_info::sent_data(packet_size);
 
-                        reader.consume(packet_size);
                         packet
                     }
-                    Err(ref e) if e.kind() == std::io::ErrorKind::ConnectionReset || e.kind() == std::io::ErrorKind::ConnectionReset => {
+                    Ok(None) => {
+                        debug!("Connection closed by peer");
+                        break 'ctrl;
+                    }
+                    Err(MqttError::Io(ref e)) if e.kind() == std::io::ErrorKind::ConnectionReset || e.kind() == std::io::ErrorKind::ConnectionReset => {
                         debug!("Connection lost");
                         break 'ctrl;
                     }
                     Err(err) => {
                         error!("{}",err);
-                        return Err(MqttError::Io(err));
+                        return Err(err);
                     }
                 };
 
diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 4edc732..28cabee 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -814,6 +814,14 @@ impl Packet {
 
         buffer.freeze()
     }
+    /// Size of the packet that `bytes` starts with, `None` if its fixed header is incomplete
+    pub fn frame_size(bytes: &[u8]) -> Result<Option<usize>, MqttError> {
+        match FixedHeader::from_bytes(&mut bytes.iter(), None) {
+            Ok(fixed) => Ok(Some(fixed.get_remaing_len() + fixed.get_rl_len() + 1)),
+            Err(MqttError::RequiredByteMissing(_)) => Ok(None),
+            Err(err) => Err(err),
+        }
+    }
     pub fn unpack(bytes: &[u8], protocal: ProtocalVersion) -> Result<(Self, usize), MqttError> {
         let mut iter = bytes.iter();
 
@@ -821,7 +829,12 @@ impl Packet {
 
         let len = fixed.get_remaing_len() + fixed.get_rl_len() + 1;
 
-        let variable = VariableHeader::unpack(&mut iter, &fixed, protocal)?;
+        // the body must not be read beyond the end the header declares
+        let body = bytes
+            .get(len - fixed.get_remaing_len()..len)
+            .ok_or_else(|| MqttError::RequiredByteMissing("Missing packet body"))?;
+
+        let variable = VariableHeader::unpack(&mut body.iter(), &fixed, protocal)?;
         Ok((Self { fixed, variable }, len))
     }
 }
-- 
2.43.0


From 9f8dc9b18d035714d43b1b3d47555917d2bd2e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:30 +0000
Subject: [PATCH 04/21] fix: no underflow on an UNSUBSCRIBE ending in a stray
 byte

---
 src/packets/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 28cabee..ce52a04 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -613,10 +613,8 @@ impl VariableHeader {
                 len -= size_of::<u16>();
 
                 while len > 0 {
-                    len -= size_of::<u16>();
-
                     let topic = unpack_string(iter)?;
-                    len -= topic.len();
+                    len -= topic.len() + size_of::<u16>();
 
                     tuples.push(topic);
                 }
-- 
2.43.0


From 9748c5827dbf075e8b0e5f9ac2cd2d48a8936813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 05/21] fix: refuse wrong header flags and empty UNSUBSCRIBE
 lists

The flag bits of SUBSCRIBE, UNSUBSCRIBE and PUBREL must be 0010; the test
joined the conditions with && and the latter two were not checked.
---
 src/packets/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index ce52a04..2ee619a 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -525,6 +525,9 @@ impl VariableHeader {
                 })
             }
             PacketType::Pubrel => {
+                if fixed.get_dup() || fixed.get_qos()? != QosLevel::AtLeast || fixed.get_retain() {
+                    return Err(MqttError::MalformedHeader);
+                }
                 let id = unpack_u16(iter)?;
                 Ok(Self::PubRel {
                     packet_id: id,
@@ -543,7 +546,7 @@ impl VariableHeader {
                 })
             }
             PacketType::Subscribe => {
-                if !fixed.get_dup() && fixed.get_qos()? != QosLevel::AtLeast && fixed.get_retain() {
+                if fixed.get_dup() || fixed.get_qos()? != QosLevel::AtLeast || fixed.get_retain() {
                     return Err(MqttError::MalformedHeader);
                 }
                 let mut len = fixed.get_remaing_len();
@@ -607,6 +610,9 @@ impl VariableHeader {
                 })
             }
             PacketType::Unsubscribe => {
+                if fixed.get_dup() || fixed.get_qos()? != QosLevel::AtLeast || fixed.get_retain() {
+                    return Err(MqttError::MalformedHeader);
+                }
                 let mut len = fixed.get_remaing_len();
                 let mut tuples = Vec::<String>::new();
                 let packet_id = unpack_u16(iter)?;
@@ -619,6 +625,10 @@ impl VariableHeader {
                     tuples.push(topic);
                 }
 
+                if tuples.is_empty() {
+                    return Err(MqttError::ProtocolViolation);
+                }
+
                 Ok(Self::Unsubscribe {
                     packet_id,
                     tuples,
-- 
2.43.0


From 52caea99b6db0012882110997c6db80bdbd2e9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:34 +0000
Subject: [PATCH 06/21] fix: refuse a PUBLISH topic with wildcard characters

---
 src/packets/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 2ee619a..2890675 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -474,6 +474,9 @@ impl VariableHeader {
             }
             PacketType::Publish => {
                 let topic = unpack_string(iter)?;
+                if topic.contains(['+', '#']) {
+                    return Err(MqttError::ProtocolViolation);
+                }
 
                 /*
                  * Message len is calculated subtracting the length of the variable header
-- 
2.43.0


From 37491d40a8ab40bd86bba30cfe2723cbfcd0d00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:35 +0000
Subject: [PATCH 07/21] fix: write all digits of the Remaining Length

The limit of four digits counted the first header byte already in the
buffer, so lengths of 2^21 and more were cut to three digits.
---
 src/packets/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index a38c017..fe042f1 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -141,8 +141,9 @@ where
 
 pub fn encode_length(len: usize, bytes: &mut BytesMut) {
     let mut mlen = len;
+    let end = bytes.len() + MAX_ENCODED_BYTES;
     loop {
-        if bytes.len() + 1 > MAX_ENCODED_BYTES {
+        if bytes.len() + 1 > end {
             return;
         }
 
-- 
2.43.0


From d7e27ab2d31cb654c097aabb82690df1466dfb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 08/21] fix: refuse every packet before CONNECT

---
 src/handler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/handler.rs b/src/handler.rs
index 0a28f20..2e39252 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -95,6 +95,11 @@ where
                     }
                 };
 
+                if !has_connected && !matches!(packet.variable, VariableHeader::Connect { .. }) {
+                    error!("First packet is not CONNECT");
+                    return Err(MqttError::ProtocolViolation);
+                }
+
                 match packet.variable {
                         VariableHeader::Connect { flags, keepalive, client_id, protocol_version, .. } => {
                             if has_connected {
-- 
2.43.0


From 1212f65ab7706e922d27f604ded637df82317214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:49 +0000
Subject: [PATCH 09/21] fix: write packets to the client in full

write() may take only part of the packet; the rest was dropped.
---
 src/handler.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index 2e39252..18510e6 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -1,6 +1,6 @@
 use std::time::Duration;
 
-use bytes::BytesMut;
+use bytes::{Bytes, BytesMut};
 use log::{debug, error};
 use tokio::{
     io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt},
@@ -42,6 +42,16 @@ where
     }
 }
 
+/// Write a whole packet to the client
+async fn send<W>(writer: &mut W, packet: &Bytes) -> Result<usize, MqttError>
+where
+    W: AsyncWrite + Unpin,
+{
+    writer.write_all(packet).await?;
+
+    Ok(packet.len())
+}
+
 pub async fn client_handler<R, W>(
     read_stream: R,
     mut writer: W,
@@ -108,7 +118,7 @@ where
                                 // The Server MUST process a second CONNECT Packet sent from a Client as a protocol violation and disconnect the Client
                                 let resp = Packet::make_connack(ConnectReturnCode::V4UnacceptableProtocal,false);
 
-                                let len = writer.write(&resp).await?;
+                                let len = send(&mut writer, &resp).await?;
                                 debug!("Wrote {} bytes", len);
 
                                 break 'ctrl;
@@ -139,7 +149,7 @@ where
 
                           let resp = Packet::make_connack(ConnectReturnCode::Accepted,false);
 
-                          let len = writer.write(&resp).await?;
+                          let len = send(&mut writer, &resp).await?;
                           debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::Subscribe { packet_id, tuples,.. } => {
@@ -163,7 +173,7 @@ where
 
                             let resp = Packet::make_suback(packet_id, codes);
 
-                            let len = writer.write(&resp).await?;
+                            let len = send(&mut writer, &resp).await?;
                             debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::Unsubscribe { packet_id, tuples, .. } => {
@@ -187,7 +197,7 @@ where
                             r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
 
                             let resp = Packet::make_unsuback(packet_id);
-                            let len = writer.write(&resp).await?;
+                            let len = send(&mut writer, &resp).await?;
                             debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
@@ -214,25 +224,25 @@ where
                             };
 
                             if let Some(resp) = data {
-                                let len = writer.write(&resp).await?;
+                                let len = send(&mut writer, &resp).await?;
                                 debug!("Wrote {} bytes", len);
                             }
                         }
                         VariableHeader::PubRec { packet_id, .. } => {
                             let resp = Packet::make_pubrel(packet_id);
-                            let len = writer.write(&resp).await?;
+                            let len = send(&mut writer, &resp).await?;
                             debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::PubRel { packet_id, .. } => {
                             let resp = Packet::make_pubcomp(packet_id);
-                            let len = writer.write(&resp).await?;
+                            let len = send(&mut writer, &resp).await?;
                             debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::PubComp { packet_id: _, ..} | VariableHeader::PubAck { packet_id: _, .. } => {}
                         VariableHeader::PingReq => {
                             keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
                             let resp = Packet::make_ping_resp();
-                            let len = writer.write(&resp).await?;
+                            let len = send(&mut writer, &resp).await?;
                             debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::Disconnect { .. } => {
@@ -258,7 +268,7 @@ where
                 if let Some(ev) = event {
                     match ev {
                         ClientEvent::Message(msg) => {
-                            let len = writer.write(&msg).await?;
+                            let len = send(&mut writer, &msg).await?;
                             debug!("Wrote {} bytes",len);
                         },
                         ClientEvent::Disconnect => break 'ctrl,
-- 
2.43.0


From 8b0fa6e96a4a16e646b3687f1d878f6fda4c824b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:51 +0000
Subject: [PATCH 10/21] fix: do not hang the shutdown on a client that stopped
 reading

---
 src/handler.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index 18510e6..4e49d6f 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -42,12 +42,21 @@ where
     }
 }
 
-/// Write a whole packet to the client
-async fn send<W>(writer: &mut W, packet: &Bytes) -> Result<usize, MqttError>
+/// Write a whole packet to the client. Given up when the broker shuts down, as the client may never read it.
+async fn send<W>(
+    writer: &mut W,
+    packet: &Bytes,
+    cancellation: &CancellationToken,
+) -> Result<usize, MqttError>
 where
     W: AsyncWrite + Unpin,
 {
-    writer.write_all(packet).await?;
+    select! {
+        () = cancellation.cancelled() => {
+            return Err(MqttError::Io(std::io::ErrorKind::Interrupted.into()));
+        }
+        result = writer.write_all(packet) => result?,
+    }
 
     Ok(packet.len())
 }
@@ -118,7 +127,7 @@ where
                                 // The Server MUST process a second CONNECT Packet sent from a Client as a protocol violation and disconnect the Client
                                 let resp = Packet::make_connack(ConnectReturnCode::V4UnacceptableProtocal,false);
 
-                                let len = send(&mut writer, &resp).await?;
+                                let len = send(&mut writer, &resp, &cancellation).await?;
                                 debug!("Wrote {} bytes", len);
 
                                 break 'ctrl;
@@ -149,7 +158,7 @@ where
 
                           let resp = Packet::make_connack(ConnectReturnCode::Accepted,false);
 
-                          let len = send(&mut writer, &resp).await?;
+                          let len = send(&mut writer, &resp, &cancellation).await?;
                           debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::Subscribe { packet_id, tuples,.. } => {
@@ -173,7 +182,7 @@ where
 
                             let resp = Packet::make_suback(packet_id, codes);
 
-                            let len = send(&mut writer, &resp).await?;
+                            let len = send(&mut writer, &resp, &cancellation).await?;
                             debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::Unsubscribe { packet_id, tuples, .. } => {
@@ -197,7 +206,7 @@ where
                             r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
 
                             let resp = Packet::make_unsuback(packet_id);
-                            let len = send(&mut writer, &resp).await?;
+                            let len = send(&mut writer, &resp, &cancellation).await?;
                             debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
@@ -224,25 +233,25 @@ where
                             };
 
                             if let Some(resp) = data {
-                                let len = send(&mut writer, &resp).await?;
+                                let len = send(&mut writer, &resp, &cancellation).await?;
                                 debug!("Wrote {} bytes", len);
                             }
                         }
                         VariableHeader::PubRec { packet_id, .. } => {
                             let resp = Packet::make_pubrel(packet_id);
-                            let len = send(&mut writer, &resp).await?;
+                            let len = send(&mut writer, &resp, &cancellation).await?;
                             debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::PubRel { packet_id, .. } => {
                             let resp = Packet::make_pubcomp(packet_id);
-                            let len = send(&mut writer, &resp).await?;
+                            let len = send(&mut writer, &resp, &cancellation).await?;
                             debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::PubComp { packet_id: _, ..} | VariableHeader::PubAck { packet_id: _, .. } => {}
                         VariableHeader::PingReq => {
                             keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
                             let resp = Packet::make_ping_resp();
-                            let len = send(&mut writer, &resp).await?;
+                            let len = send(&mut writer, &resp, &cancellation).await?;
                             debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::Disconnect { .. } => {
@@ -268,7 +277,7 @@ where
                 if let Some(ev) = event {
                     match ev {
                         ClientEvent::Message(msg) => {
-                            let len = send(&mut writer, &msg).await?;
+                            let len = send(&mut writer, &msg, &cancellation).await?;
                             debug!("Wrote {} bytes",len);
                         },
                         ClientEvent::Disconnect => break 'ctrl,
-- 
2.43.0


From 025c05fc6ab1a907ad08df0a0286c5d13d049ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:52 +0000
Subject: [PATCH 11/21] fix: count received and sent traffic where it happens

Received packets were counted as sent, written packets not at all and
PUBLISH packets in neither direction.
---
 src/handler.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/handler.rs b/src/handler.rs
index 4e49d6f..b7ff268 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -57,6 +57,7 @@ where
         }
         result = writer.write_all(packet) => result?,
     }
+    broker_info::sent_data(packet.len());
 
     Ok(packet.len())
 }
@@ -96,7 +97,7 @@ where
                 let packet = match buffer {
                     Ok(Some(bytes)) => {
                         let (packet, packet_size) = Packet::unpack(&bytes, protocol)?;
-                        broker_info::sent_data(packet_size);
+                        broker_info::received_data(packet_size);
 
                         packet
                     }
@@ -210,6 +211,7 @@ where
                             debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
+                            broker_info::received_published();
                             message_bridge
                             .send(Command::Publish {
                                 topic,
@@ -278,6 +280,7 @@ where
                     match ev {
                         ClientEvent::Message(msg) => {
                             let len = send(&mut writer, &msg, &cancellation).await?;
+                            broker_info::sent_published();
                             debug!("Wrote {} bytes",len);
                         },
                         ClientEvent::Disconnect => break 'ctrl,
-- 
2.43.0


From 71f839f93ae724ca069d560b0bfd62e0bdd545fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 12/21] fix: do not let a client that stopped reading block the
 router

The router waited for room in the client's queue, and with it every
other client; with the command queue full as well neither side could
proceed.
---
 src/core/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/mod.rs b/src/core/mod.rs
index 61f2080..17b0382 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -110,7 +110,8 @@ impl App {
         debug!("New client connecting with id of '{}'", client_id);
         if self.sessions.contains_key(&client_id) {
             if let Some(current_client) = self.sessions.get(&client_id) {
-                if let Err(err) = current_client.bridge.send(ClientEvent::Disconnect).await {
+                // never wait for a client, it may have stopped reading
+                if let Err(err) = current_client.bridge.try_send(ClientEvent::Disconnect) {
                     error!("{}", err);
                 }
             }
@@ -146,8 +147,9 @@ impl App {
         for (_, bridge, qos) in subs {
             let packet =
                 Packet::make_publish(false, qos, false, topic.clone(), None, payload.clone());
-            if let Err(e) = bridge.send(ClientEvent::Message(packet)).await {
-                log::error!("receiver dropped: {}", e);
+            // never wait for a client, it may have stopped reading
+            if let Err(e) = bridge.try_send(ClientEvent::Message(packet)) {
+                log::error!("message dropped: {}", e);
             }
         }
     }
-- 
2.43.0


From 270f247a6d45a3cbf8c0c70c83a5585c3f63ee6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:56 +0000
Subject: [PATCH 13/21] fix: end the session and its subscriptions with the
 connection

Only DISCONNECT told the router that a client is gone; on every other
exit the session stayed and the connected count was not lowered on
errors. The subscriptions of a session were never removed, and a
reconnecting client took over the old session with subscriptions that
still pointed to the old connection.

Every exit now tells the router, which removes the session with its
subscriptions unless a newer connection holds the client id.
---
 src/core/enums.rs   |  5 ++--
 src/core/mod.rs     | 50 +++++++++++++++++++------------
 src/core/session.rs | 10 ++++++-
 src/handler.rs      | 71 +++++++++++++++++++++++++++++++++------------
 src/main.rs         |  2 +-
 5 files changed, 96 insertions(+), 42 deletions(-)

diff --git a/src/core/enums.rs b/src/core/enums.rs
index fe5da56..c305763 100644
--- a/src/core/enums.rs
+++ b/src/core/enums.rs
@@ -14,7 +14,7 @@ pub enum Command {
         message_channel: Receiver<ClientEvent>,
         protocol: ProtocalVersion,
         clean_session: bool,
-        callback: Responder<Result<(), MqttError>>,
+        callback: Responder<Result<u128, MqttError>>,
     },
 
     Subscribe {
@@ -32,7 +32,8 @@ pub enum Command {
         cid: String,
         callback: Responder<Result<(), MqttError>>,
     },
-    DisconnectClient(String),
+    /// Client id and id of the session the connection was registered with
+    DisconnectClient(String, u128),
     Exit,
 }
 
diff --git a/src/core/mod.rs b/src/core/mod.rs
index 17b0382..f799b9c 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -42,8 +42,8 @@ impl App {
         topics: Vec<(String, QosLevel)>,
         callback: tokio::sync::oneshot::Sender<Result<Vec<SubackReturnCode>, MqttError>>,
     ) {
-        let (id, bridge) = match self.sessions.get(&cid) {
-            Some(session) => (session.id, session.bridge.clone()),
+        let session = match self.sessions.get_mut(&cid) {
+            Some(session) => session,
             None => {
                 if callback.send(Err(MqttError::Unknown)).is_err() {
                     log::error!("Client does not exist");
@@ -54,10 +54,11 @@ impl App {
         let codes = topics
             .into_iter()
             .map(|(topic, qos)| {
-                let leaf = SubscriptionLeaf::new(qos, id, bridge.clone());
-                if self.subscriptions.insert(topic, leaf).is_err() {
+                let leaf = SubscriptionLeaf::new(qos, session.id, session.bridge.clone());
+                if self.subscriptions.insert(topic.clone(), leaf).is_err() {
                     return SubackReturnCode::Failure;
                 }
+                session.filters.insert(topic);
                 match qos {
                     QosLevel::AtMost => SubackReturnCode::SuccessQosZero,
                     QosLevel::AtLeast => SubackReturnCode::SuccessQosOne,
@@ -78,8 +79,8 @@ impl App {
         topics: Vec<String>,
         callback: tokio::sync::oneshot::Sender<Result<(), MqttError>>,
     ) {
-        let id = match self.sessions.get(&cid) {
-            Some(session) => session.id,
+        let session = match self.sessions.get_mut(&cid) {
+            Some(session) => session,
             None => {
                 if callback.send(Err(MqttError::Unknown)).is_err() {
                     log::error!("Client does not exist");
@@ -89,7 +90,8 @@ impl App {
         };
 
         topics.into_iter().for_each(|topic| {
-            if self.subscriptions.delete(topic, id).is_err() {
+            session.filters.remove(&topic);
+            if self.subscriptions.delete(topic, session.id).is_err() {
                 error!("Failed to delete subscription from tree");
             }
         });
@@ -105,7 +107,7 @@ impl App {
         message_channel: Sender<ClientEvent>,
         _protocol: ProtocalVersion,
         _clean_session: bool,
-        callback: tokio::sync::oneshot::Sender<Result<(), MqttError>>,
+        callback: tokio::sync::oneshot::Sender<Result<u128, MqttError>>,
     ) {
         debug!("New client connecting with id of '{}'", client_id);
         if self.sessions.contains_key(&client_id) {
@@ -117,23 +119,33 @@ impl App {
             }
         }
 
-        if let Some(existing_client) = self.sessions.get_mut(&client_id) {
-            existing_client.bridge = message_channel;
-        } else {
-            self.sessions
-                .insert(client_id, Session::new(message_channel));
-        }
+        self.end_session(&client_id);
 
-        if callback.send(Ok(())).is_err() {
+        let session = Session::new(message_channel);
+        let id = session.id;
+        self.sessions.insert(client_id, session);
+
+        if callback.send(Ok(id)).is_err() {
             log::error!("Client no longer exists");
         }
     }
 
-    pub fn disconnect(&mut self, cid: String) {
-        /*if let Some(client) = self.sessions.get(&cid) {
+    /// End a session, unless a newer connection has taken over the client id
+    pub fn disconnect(&mut self, cid: String, id: u128) {
+        if self.sessions.get(&cid).is_some_and(|session| session.id == id) {
+            self.end_session(&cid);
+        }
+    }
 
-        }*/
-        self.sessions.remove(&cid);
+    /// Remove the session of a client and all its subscriptions
+    fn end_session(&mut self, cid: &str) {
+        if let Some(session) = self.sessions.remove(cid) {
+            for filter in session.filters {
+                if self.subscriptions.delete(filter, session.id).is_err() {
+                    error!("Failed to delete subscription from tree");
+                }
+            }
+        }
     }
 
     pub async fn publish(&self, topic: String, payload: Bytes) {
diff --git a/src/core/session.rs b/src/core/session.rs
index cac0152..e00d945 100644
--- a/src/core/session.rs
+++ b/src/core/session.rs
@@ -1,3 +1,5 @@
+use std::collections::HashSet;
+
 use tokio::sync::mpsc::Sender;
 use uuid::Uuid;
 
@@ -6,12 +8,18 @@ use super::enums::ClientEvent;
 pub struct Session {
     pub id: u128,
     pub bridge: Sender<ClientEvent>,
+    /// Filters the client is subscribed to
+    pub filters: HashSet<String>,
 }
 
 impl Session {
     pub fn new(bridge: Sender<ClientEvent>) -> Self {
         let id = Uuid::new_v4().as_u128();
 
-        Self { id, bridge }
+        Self {
+            id,
+            bridge,
+            filters: HashSet::new(),
+        }
     }
 }
diff --git a/src/handler.rs b/src/handler.rs
index b7ff268..34dfa50 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -64,7 +64,7 @@ where
 
 pub async fn client_handler<R, W>(
     read_stream: R,
-    mut writer: W,
+    writer: W,
     message_bridge: Sender<Command>,
     cancellation: CancellationToken,
 ) -> Result<(), MqttError>
@@ -74,6 +74,46 @@ where
 {
     broker_info::client_inc();
 
+    let mut registration = None;
+    let result = handle_connection(
+        read_stream,
+        writer,
+        &message_bridge,
+        cancellation,
+        &mut registration,
+    )
+    .await;
+
+    if let Some((cid, id)) = registration {
+        if message_bridge
+            .send(Command::DisconnectClient(cid, id))
+            .await
+            .is_err()
+        {
+            debug!("Receiver dropped!");
+        }
+    }
+
+    broker_info::client_dec();
+
+    debug!("Client: disconnect");
+
+    result
+}
+
+/// Serve a connection until it ends. Leaves the client id and session id in `registration` once
+/// the client is registered.
+async fn handle_connection<R, W>(
+    read_stream: R,
+    mut writer: W,
+    message_bridge: &Sender<Command>,
+    cancellation: CancellationToken,
+    registration: &mut Option<(String, u128)>,
+) -> Result<(), MqttError>
+where
+    W: AsyncWrite + Unpin,
+    R: AsyncRead + Unpin,
+{
     let mut keepalive_duration: u64 = 60;
     let mut has_connected = false;
     let mut protocol = ProtocalVersion::Unknown;
@@ -82,6 +122,8 @@ where
     let mut reader = tokio::io::BufReader::new(read_stream);
     let mut pending = BytesMut::new();
     let (tx, mut rx) = channel::<ClientEvent>(100);
+    // handed to the router, so the queue closes when the router ends the session
+    let mut tx = Some(tx);
 
     tokio::pin!(keepalive_timer);
 
@@ -136,13 +178,14 @@ where
 
                             protocol = protocol_version;
 
-                            let (r_tx, r_rx) = tokio::sync::oneshot::channel::<Result<(), MqttError>>();
+                            let (r_tx, r_rx) = tokio::sync::oneshot::channel::<Result<u128, MqttError>>();
                             cid = Some(client_id.clone());
+                            let message_channel = tx.take().ok_or(MqttError::ProtocolViolation)?;
 
                             if message_bridge
                             .send(Command::RegisterClient {
-                                id: client_id,
-                                message_channel: tx.clone(),
+                                id: client_id.clone(),
+                                message_channel,
                                 protocol,
                                 clean_session: flags.clean_session(),
                                 callback: r_tx,
@@ -152,7 +195,8 @@ where
                                 break 'ctrl;
                           }
 
-                          r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
+                          let id = r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
+                          *registration = Some((client_id, id));
                           has_connected = true;
                           keepalive_duration = (keepalive as u64) + 4;
                           keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
@@ -258,15 +302,6 @@ where
                         },
                         VariableHeader::Disconnect { .. } => {
                             debug!("Disconnect Called");
-                            let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
-                            if message_bridge
-                            .send(Command::DisconnectClient(id.clone()))
-                            .await
-                            .is_err()
-                            {
-                                error!("Receiver dropped!");
-                                break 'ctrl;
-                            }
                             break 'ctrl;
                         },
                         _ => {
@@ -285,15 +320,13 @@ where
                         },
                         ClientEvent::Disconnect => break 'ctrl,
                     }
+                } else {
+                    debug!("Session ended by the router");
+                    break 'ctrl;
                 }
-
             }
         }
     }
 
-    broker_info::client_dec();
-
-    debug!("Client: disconnect");
-
     Ok(())
 }
diff --git a/src/main.rs b/src/main.rs
index 7325fdb..467bbbe 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -79,7 +79,7 @@ async fn main() -> Result<(), MqttError> {
                     cid,
                     callback,
                 } => context.unsubscribe(cid, topics, callback),
-                Command::DisconnectClient(cid) => context.disconnect(cid),
+                Command::DisconnectClient(cid, id) => context.disconnect(cid, id),
                 Command::Exit => break,
             }
         }
-- 
2.43.0


From 6bb14cf943424121e7191231f3afab07eb74484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 14/21] fix: match every branch of the topic tree against all
 levels

The literal and the '+' branch shared one iterator, so after looking at
one the other saw no levels left: matching filters were missed and
shorter ones matched.
---
 src/topic_heir.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index dca804c..81b9d28 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -116,17 +116,18 @@ impl SubHier {
 
     pub fn get(
         &self,
-        iter: &mut impl std::iter::Iterator<Item = String>,
+        iter: &mut (impl std::iter::Iterator<Item = String> + Clone),
         subscribers: &mut Vec<(u128, Sender<ClientEvent>, QosLevel)>,
         share: &Option<String>,
     ) {
         if let Some(topic) = iter.next() {
+            // each branch has to match all of the remaining levels
             if let Some(child) = self.children.get(&topic) {
-                child.get(iter, subscribers, share);
+                child.get(&mut iter.clone(), subscribers, share);
             }
 
             if let Some(child) = self.children.get("+") {
-                child.get(iter, subscribers, share);
+                child.get(&mut iter.clone(), subscribers, share);
             }
         } else if let Some(share) = share {
             if let Some(s) = self.shared.get(share) {
@@ -212,11 +213,11 @@ impl SubscriptionTree {
 
         if let Some(topic) = iter.next() {
             if let Some(child) = self.0.get(&topic) {
-                child.get(&mut iter, &mut subscribers, &sharename);
+                child.get(&mut iter.clone(), &mut subscribers, &sharename);
             }
             // single level '+' match
             if let Some(child) = self.0.get("+") {
-                child.get(&mut iter, &mut subscribers, &sharename);
+                child.get(&mut iter.clone(), &mut subscribers, &sharename);
             }
         }
 
-- 
2.43.0


From 5a3a7e927d2ee1311c0469dd7b29893cbab8e35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:29 +0000
Subject: [PATCH 15/21] fix: deliver at the highest QoS among overlapping
 subscriptions

---
 src/topic_heir.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index 81b9d28..64fd733 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -33,6 +33,18 @@ impl SubscriptionLeaf {
     }
 }
 
+/// Add a subscription to the list of receivers, once per client and with its highest QoS
+fn collect_subscriber(
+    subscribers: &mut Vec<(u128, Sender<ClientEvent>, QosLevel)>,
+    sub: &SubscriptionLeaf,
+) {
+    if let Some(known) = subscribers.iter_mut().find(|e| e.0 == sub.identifier) {
+        known.2 = known.2.max(sub.qos);
+    } else {
+        subscribers.push((sub.identifier, sub.bridge.clone(), sub.qos));
+    }
+}
+
 #[derive(Debug)]
 struct SubHier {
     children: DashMap<String, SubHier>,
@@ -132,16 +144,12 @@ impl SubHier {
         } else if let Some(share) = share {
             if let Some(s) = self.shared.get(share) {
                 for x in s.iter() {
-                    if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                        subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                    }
+                    collect_subscriber(subscribers, x);
                 }
             }
         } else {
             for x in &self.subs {
-                if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                    subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                }
+                collect_subscriber(subscribers, x);
             }
         }
 
@@ -149,16 +157,12 @@ impl SubHier {
             if let Some(share) = share {
                 if let Some(s) = child.shared.get(share) {
                     for x in s.iter() {
-                        if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                            subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                        }
+                        collect_subscriber(subscribers, x);
                     }
                 }
             } else {
                 for x in &child.subs {
-                    if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                        subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                    }
+                    collect_subscriber(subscribers, x);
                 }
             }
         }
@@ -226,16 +230,12 @@ impl SubscriptionTree {
             if let Some(share) = sharename {
                 if let Some(s) = child.shared.get(&share) {
                     for x in s.iter() {
-                        if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                            subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                        }
+                        collect_subscriber(&mut subscribers, x);
                     }
                 }
             } else {
                 for x in &child.subs {
-                    if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                        subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                    }
+                    collect_subscriber(&mut subscribers, x);
                 }
             }
         }
-- 
2.43.0


From 34cfc621dbeab1c4c1ff110c7f7691929c507f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 16/21] fix: forward at the lower of both QoS, with a packet
 identifier

Messages were forwarded at the granted QoS whatever the QoS they were
published with, and at QoS 1 and 2 without the packet identifier these
packets must carry.
---
 src/core/enums.rs |  1 +
 src/core/mod.rs   | 20 +++++++++++++++++---
 src/handler.rs    |  4 +++-
 src/main.rs       |  6 +++++-
 4 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/core/enums.rs b/src/core/enums.rs
index c305763..5207eb9 100644
--- a/src/core/enums.rs
+++ b/src/core/enums.rs
@@ -25,6 +25,7 @@ pub enum Command {
 
     Publish {
         topic: String,
+        qos: QosLevel,
         payload: Bytes,
     },
     Unsubscribe {
diff --git a/src/core/mod.rs b/src/core/mod.rs
index f799b9c..bb54798 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -25,6 +25,7 @@ mod session;
 pub struct App {
     sessions: HashMap<String, Session>,
     subscriptions: SubscriptionTree,
+    last_packet_id: u16,
 }
 
 impl App {
@@ -32,9 +33,16 @@ impl App {
         Self {
             sessions: HashMap::new(),
             subscriptions: SubscriptionTree::new(),
+            last_packet_id: 0,
         }
     }
 
+    /// Packet identifier for a forwarded message, never 0
+    fn next_packet_id(&mut self) -> u16 {
+        self.last_packet_id = self.last_packet_id.checked_add(1).unwrap_or(1);
+        self.last_packet_id
+    }
+
     /// Subscribe to the current topic at the given qos
     pub fn subscribe(
         &mut self,
@@ -148,7 +156,7 @@ impl App {
         }
     }
 
-    pub async fn publish(&self, topic: String, payload: Bytes) {
+    pub async fn publish(&mut self, topic: String, qos: QosLevel, payload: Bytes) {
         let subs = match self.subscriptions.get(topic.clone()) {
             Ok(subs) => subs,
             Err(_) => {
@@ -156,9 +164,15 @@ impl App {
             }
         };
 
-        for (_, bridge, qos) in subs {
+        for (_, bridge, granted) in subs {
+            let qos = qos.min(granted);
+            let packet_id = if qos > QosLevel::AtMost {
+                Some(self.next_packet_id())
+            } else {
+                None
+            };
             let packet =
-                Packet::make_publish(false, qos, false, topic.clone(), None, payload.clone());
+                Packet::make_publish(false, qos, false, topic.clone(), packet_id, payload.clone());
             // never wait for a client, it may have stopped reading
             if let Err(e) = bridge.try_send(ClientEvent::Message(packet)) {
                 log::error!("message dropped: {}", e);
diff --git a/src/handler.rs b/src/handler.rs
index 34dfa50..f482279 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -256,15 +256,17 @@ where
                         },
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
                             broker_info::received_published();
+                            let qos = packet.fixed.get_qos()?;
                             message_bridge
                             .send(Command::Publish {
                                 topic,
+                                qos,
                                 payload,
                             })
                             .await
                             .map_err(MqttError::ChannelError)?;
 
-                            let data = match packet.fixed.get_qos()? {
+                            let data = match qos {
                                 QosLevel::AtMost => None,
                                 QosLevel::AtLeast => {
                                     let id = packet_id.ok_or_else(|| MqttError::ProtocolViolation)?;
diff --git a/src/main.rs b/src/main.rs
index 467bbbe..342d708 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -73,7 +73,11 @@ async fn main() -> Result<(), MqttError> {
                     callback,
                 } => context.subscribe(client, topics, callback),
 
-                Command::Publish { topic, payload } => context.publish(topic, payload).await,
+                Command::Publish {
+                    topic,
+                    qos,
+                    payload,
+                } => context.publish(topic, qos, payload).await,
                 Command::Unsubscribe {
                     topics,
                     cid,
-- 
2.43.0


From 2a4b16478cd1e6d29ad4860a08226122d75b08f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:13 +0000
Subject: [PATCH 17/21] fix: restart Keep Alive on every packet, at one and a
 half times its value

Only PINGREQ restarted the timer, so clients that kept publishing were
cut off; 0 closed the connection after 4 seconds instead of turning the
limit off, and short intervals were stretched beyond the allowed 1.5.
---
 src/handler.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index f482279..36764da 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -114,7 +114,8 @@ where
     W: AsyncWrite + Unpin,
     R: AsyncRead + Unpin,
 {
-    let mut keepalive_duration: u64 = 60;
+    // longest silence tolerated, None if the client turned Keep Alive off
+    let mut keepalive_duration = Some(Duration::from_secs(60));
     let mut has_connected = false;
     let mut protocol = ProtocalVersion::Unknown;
     let mut cid = None;
@@ -132,7 +133,7 @@ where
             () = cancellation.cancelled() => {
                 break 'ctrl;
             }
-            () = &mut keepalive_timer => {
+            () = &mut keepalive_timer, if keepalive_duration.is_some() => {
                 break 'ctrl;
             }
             buffer = read_frame(&mut reader, &mut pending) => {
@@ -162,6 +163,11 @@ where
                     return Err(MqttError::ProtocolViolation);
                 }
 
+                // every packet shows that the client is alive
+                if let Some(duration) = keepalive_duration {
+                    keepalive_timer.as_mut().reset(Instant::now() + duration);
+                }
+
                 match packet.variable {
                         VariableHeader::Connect { flags, keepalive, client_id, protocol_version, .. } => {
                             if has_connected {
@@ -198,8 +204,14 @@ where
                           let id = r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
                           *registration = Some((client_id, id));
                           has_connected = true;
-                          keepalive_duration = (keepalive as u64) + 4;
-                          keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
+                          // one and a half times the Keep Alive of the client, 0 turns it off
+                          keepalive_duration = match keepalive {
+                              0 => None,
+                              secs => Some(Duration::from_millis(u64::from(secs) * 1500)),
+                          };
+                          if let Some(duration) = keepalive_duration {
+                              keepalive_timer.as_mut().reset(Instant::now() + duration);
+                          }
 
                           let resp = Packet::make_connack(ConnectReturnCode::Accepted,false);
 
@@ -297,7 +309,6 @@ where
                         },
                         VariableHeader::PubComp { packet_id: _, ..} | VariableHeader::PubAck { packet_id: _, .. } => {}
                         VariableHeader::PingReq => {
-                            keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
                             let resp = Packet::make_ping_resp();
                             let len = send(&mut writer, &resp, &cancellation).await?;
                             debug!("Wrote {} bytes", len);
-- 
2.43.0


From 567c2f7420d2f197fa8f11219a930b0a70242827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 18/21] fix: limit the number of topic levels

The topic tree recurses once per level; a topic of some ten thousand
slashes overflowed the stack and aborted the broker.
---
 src/utils.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utils.rs b/src/utils.rs
index 0ade54f..af7276e 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,6 +1,12 @@
+/// Most levels a topic may have, the topic tree is walked recursively
+const MAX_TOPIC_LEVELS: usize = 200;
+
 /// Parse a topic string into its parts and parse out $share
 pub fn tokenise_topic(value: String) -> Result<(Vec<String>, Option<String>), u8> {
     let mut topic = value.split('/').collect::<Vec<&str>>();
+    if topic.len() > MAX_TOPIC_LEVELS {
+        return Err(2);
+    }
 
     let sharename = if let Some(&"$share") = topic.first() {
         if topic.len() < 2 {
-- 
2.43.0


From ea1669533b49d6a29bf2a8b7f741316e83e2a6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:16 +0000
Subject: [PATCH 19/21] fix: keep wildcards away from $ topics and refuse
 misplaced ones

'+' and '#' in the first level matched topics such as $SYS. Filters such
as a/#/b or a+ were granted but could never match as written.
---
 src/topic_heir.rs | 8 ++++++++
 src/utils.rs      | 9 +++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index 64fd733..9c49f1e 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -178,6 +178,9 @@ impl SubscriptionTree {
     }
     pub fn insert(&mut self, filter: String, sub: SubscriptionLeaf) -> Result<(), u8> {
         let (filter_list, sharename) = utils::tokenise_topic(filter)?;
+        if !utils::is_valid_filter(&filter_list) {
+            return Err(3);
+        }
 
         let mut iter = filter_list.into_iter();
 
@@ -219,6 +222,11 @@ impl SubscriptionTree {
             if let Some(child) = self.0.get(&topic) {
                 child.get(&mut iter.clone(), &mut subscribers, &sharename);
             }
+            // wildcards in the first level do not match topics starting with '$'
+            if topic.starts_with('$') {
+                return Ok(subscribers);
+            }
+
             // single level '+' match
             if let Some(child) = self.0.get("+") {
                 child.get(&mut iter.clone(), &mut subscribers, &sharename);
diff --git a/src/utils.rs b/src/utils.rs
index af7276e..2ebbcb6 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -26,6 +26,15 @@ pub fn tokenise_topic(value: String) -> Result<(Vec<String>, Option<String>), u8
     Ok((topic.iter().map(|x| x.to_string()).collect(), sharename))
 }
 
+/// '+' has to fill a level of its own, '#' the last one
+pub fn is_valid_filter(levels: &[String]) -> bool {
+    levels.iter().enumerate().all(|(i, level)| match level.as_str() {
+        "+" => true,
+        "#" => i + 1 == levels.len(),
+        level => !level.contains(['+', '#']),
+    })
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From bd067e21af6851075f5b1ae452406d34a2870e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 20/21] fix: route a repeated QoS 2 message once

---
 src/handler.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index 36764da..854b2a9 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -1,4 +1,4 @@
-use std::time::Duration;
+use std::{collections::HashSet, time::Duration};
 
 use bytes::{Bytes, BytesMut};
 use log::{debug, error};
@@ -122,6 +122,8 @@ where
     let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));
     let mut reader = tokio::io::BufReader::new(read_stream);
     let mut pending = BytesMut::new();
+    // identifiers of QoS 2 messages that await PUBREL
+    let mut unreleased = HashSet::new();
     let (tx, mut rx) = channel::<ClientEvent>(100);
     // handed to the router, so the queue closes when the router ends the session
     let mut tx = Some(tx);
@@ -269,14 +271,22 @@ where
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
                             broker_info::received_published();
                             let qos = packet.fixed.get_qos()?;
-                            message_bridge
-                            .send(Command::Publish {
-                                topic,
-                                qos,
-                                payload,
-                            })
-                            .await
-                            .map_err(MqttError::ChannelError)?;
+                            // a QoS 2 message is routed once, also when the client repeats it before PUBREL
+                            let repeated = match (qos, packet_id) {
+                                (QosLevel::Exactly, Some(id)) => !unreleased.insert(id),
+                                _ => false,
+                            };
+
+                            if !repeated {
+                                message_bridge
+                                .send(Command::Publish {
+                                    topic,
+                                    qos,
+                                    payload,
+                                })
+                                .await
+                                .map_err(MqttError::ChannelError)?;
+                            }
 
                             let data = match qos {
                                 QosLevel::AtMost => None,
@@ -303,6 +313,7 @@ where
                             debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::PubRel { packet_id, .. } => {
+                            unreleased.remove(&packet_id);
                             let resp = Packet::make_pubcomp(packet_id);
                             let len = send(&mut writer, &resp, &cancellation).await?;
                             debug!("Wrote {} bytes", len);
-- 
2.43.0


From 808ad0f6cb7694a6ab7d9bcc8ca67fd94b53e748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:19 +0000
Subject: [PATCH 21/21] fix: an interrupt that arrives between two turns of the
 accept loop was lost

The listener for the signal was made anew in each turn of the loop and dropped
when a connection was accepted, so under steady connects the signal went
unnoticed and the broker kept running. One listener is kept for the whole loop.
---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 342d708..b961460 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -91,6 +91,10 @@ async fn main() -> Result<(), MqttError> {
         debug!("Exiting Command loop");
     });
 
+    // a listener made anew in each turn misses a signal that arrives between two turns
+    let interrupt = tokio::signal::ctrl_c();
+    tokio::pin!(interrupt);
+
     loop {
         select! {
             res = listener.accept() => {
@@ -107,7 +111,7 @@ async fn main() -> Result<(), MqttError> {
                     });
                 }
             }
-            _ = tokio::signal::ctrl_c() => {
+            _ = &mut interrupt => {
                 break;
             }
         }
-- 
2.43.0

