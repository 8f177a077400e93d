From 47c5685522de3eb4e8054c6d03821a7f7f08466d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 01/41] fix: ValueAllocator::is_used reports values outside the
 range as not used

---
 src/mqtt/common/value_allocator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/common/value_allocator.rs b/src/mqtt/common/value_allocator.rs
index 7c22238..482e487 100644
--- a/src/mqtt/common/value_allocator.rs
+++ b/src/mqtt/common/value_allocator.rs
@@ -167,7 +167,9 @@ where
     }
 
     pub fn is_used(&self, value: T) -> bool {
-        !self.pool.iter().any(|iv| iv.contains(value))
+        self.lowest <= value
+            && value <= self.highest
+            && !self.pool.iter().any(|iv| iv.contains(value))
     }
 
     pub fn clear(&mut self) {
-- 
2.43.0


From 45b58729ccab80474baa484f6027205897b26548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 02/41] fix: ValueAllocator::deallocate of an already free
 value is a no-op for every value

---
 src/mqtt/common/value_allocator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mqtt/common/value_allocator.rs b/src/mqtt/common/value_allocator.rs
index 482e487..0937569 100644
--- a/src/mqtt/common/value_allocator.rs
+++ b/src/mqtt/common/value_allocator.rs
@@ -118,6 +118,11 @@ where
     pub fn deallocate(&mut self, value: T) {
         assert!(self.lowest <= value && value <= self.highest);
 
+        // Releasing a value that is already free leaves the pool unchanged.
+        if self.pool.contains(&ValueInterval::new_single(value)) {
+            return;
+        }
+
         let right = self
             .pool
             .range(ValueInterval::new_single(value)..)
-- 
2.43.0


From a2b4f8b4d45e8921537400ce51d9442220005a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:35 +0000
Subject: [PATCH 03/41] fix: close on keep-alive timeout even when DISCONNECT
 cannot be sent

---
 src/mqtt/connection/core.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 75f227e..1960b97 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -672,6 +672,7 @@ where
                             {
                                 events.extend(self.process_send_v5_0_disconnect(disconnect));
                             }
+                            self.close_unless_disconnected(&mut events);
                         }
                     }
                     Version::Undetermined => {
@@ -697,6 +698,7 @@ where
                             {
                                 events.extend(self.process_send_v5_0_disconnect(disconnect));
                             }
+                            self.close_unless_disconnected(&mut events);
                         }
                     }
                     Version::Undetermined => {
@@ -3617,6 +3619,16 @@ where
         events.push(GenericEvent::NotifyError(e));
     }
 
+    /// Close without DISCONNECT when DISCONNECT could not be sent
+    /// (e.g. it exceeds the peer's Maximum Packet Size).
+    fn close_unless_disconnected(&mut self, events: &mut Vec<GenericEvent<PacketIdType>>) {
+        if self.status != ConnectionStatus::Disconnected {
+            self.status = ConnectionStatus::Disconnected;
+            self.cancel_timers(events);
+            events.push(GenericEvent::RequestClose);
+        }
+    }
+
     fn refresh_pingreq_recv(&mut self) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
         if self.pingreq_recv_timeout_ms != 0 {
-- 
2.43.0


From 4813952976ce10422e6f2fd0fecaa1dcc53e6765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:54 +0000
Subject: [PATCH 04/41] fix: discard a partially received packet when the
 transport is closed

---
 src/mqtt/connection/core.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 1960b97..3d81003 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -730,6 +730,9 @@ where
         self.maximum_packet_size_send = MQTT_PACKET_SIZE_NO_LIMIT;
         self.maximum_packet_size_recv = MQTT_PACKET_SIZE_NO_LIMIT;
 
+        // Discard a partially received packet
+        self.packet_builder.reset();
+
         // Set status to disconnected
         self.status = ConnectionStatus::Disconnected;
 
-- 
2.43.0


From f934efd41f32268a30d74a7a20f09cc5a499dc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:38 +0000
Subject: [PATCH 05/41] fix: reset flow control and keep-alive values when a
 connection ends or begins

---
 src/mqtt/connection/core.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 3d81003..dadd3c5 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -740,6 +740,15 @@ where
         self.topic_alias_send = None;
         self.topic_alias_recv = None;
 
+        // Reset flow control and keep-alive values negotiated on the connection
+        self.publish_send_max = None;
+        self.publish_recv_max = None;
+        self.publish_send_count = 0;
+        self.publish_recv.clear();
+        self.pingreq_keep_alive_ms = 0;
+        self.pingreq_server_keep_alive_ms = None;
+        self.pingreq_recv_timeout_ms = 0;
+
         // Release packet IDs for SUBACK
         for packet_id in self.pid_suback.drain() {
             if self.pid_man.is_used_id(packet_id) {
@@ -1231,6 +1240,7 @@ where
         self.is_client = is_client;
         self.pingreq_keep_alive_ms = 0;
         self.pingreq_server_keep_alive_ms = None;
+        self.pingreq_recv_timeout_ms = 0;
     }
 
     fn clear_store_related(&mut self) {
-- 
2.43.0


From 22a1009628a920915c7f27d30c843cec4b4e505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:38 +0000
Subject: [PATCH 06/41] fix: accept a CONNECT with Topic Alias Maximum 0

---
 src/mqtt/connection/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index dadd3c5..66fc191 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2630,7 +2630,7 @@ where
                     self.clear_store_related();
                 }
                 packet.props().iter().for_each(|prop| match prop {
-                    Property::TopicAliasMaximum(p) => {
+                    Property::TopicAliasMaximum(p) if p.val() != 0 => {
                         self.topic_alias_send = Some(TopicAliasSend::new(p.val()));
                     }
                     Property::ReceiveMaximum(p) => {
-- 
2.43.0


From 23b3486189a19fdbb533d3c920cabc1b5d2a028f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:24 +0000
Subject: [PATCH 07/41] fix: forget handled QoS 2 identifiers when a new
 session starts

---
 src/mqtt/connection/core.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 66fc191..4fd6990 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1249,6 +1249,7 @@ where
         self.pid_pubrec.clear();
         self.pid_pubcomp.clear();
         self.store.clear();
+        self.qos2_publish_handled.clear();
     }
 
     /// Send all stored packets for retransmission
-- 
2.43.0


From 080c78184a90bc356abe3d80e5307cb8ada621ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:00 +0000
Subject: [PATCH 08/41] fix: reject a CONNACK received on an established
 connection

---
 src/mqtt/connection/core.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 4fd6990..247473b 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2679,6 +2679,10 @@ where
     ) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
 
+        if self.status == ConnectionStatus::Connected {
+            Self::handle_v3_1_1_error(MqttError::ProtocolError, &mut events);
+            return events;
+        }
         match v3_1_1::Connack::parse(raw_packet.data_as_slice()) {
             Ok((packet, _consumed)) => {
                 if packet.return_code() == ConnectReturnCode::Accepted {
@@ -2707,6 +2711,10 @@ where
     ) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
 
+        if self.status == ConnectionStatus::Connected {
+            self.handle_v5_0_error(MqttError::ProtocolError, &mut events);
+            return events;
+        }
         match v5_0::Connack::parse(raw_packet.data_as_slice()) {
             Ok((packet, _consumed)) => {
                 if packet.reason_code() == ConnectReasonCode::Success {
-- 
2.43.0


From b040e6317985f2e423d5d6c5bf57554bbeb9e667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:23 +0000
Subject: [PATCH 09/41] fix: retransmit stored packets when CONNACK carries
 session present and Session Expiry Interval 0

---
 src/mqtt/connection/core.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 247473b..eb32c6f 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2719,6 +2719,7 @@ where
             Ok((packet, _consumed)) => {
                 if packet.reason_code() == ConnectReasonCode::Success {
                     self.status = ConnectionStatus::Connected;
+                    let mut session_ends_at_close = false;
 
                     // Process properties
                     for prop in packet.props() {
@@ -2758,12 +2759,8 @@ where
                                 }
                             }
                             Property::SessionExpiryInterval(val) => {
-                                if val.val() == 0 {
-                                    self.need_store = false;
-                                    self.clear_store_related();
-                                } else {
-                                    self.need_store = true;
-                                }
+                                self.need_store = val.val() != 0;
+                                session_ends_at_close = !self.need_store;
                             }
                             _ => {
                                 // Ignore other properties
@@ -2773,6 +2770,10 @@ where
 
                     if packet.session_present() {
                         events.extend(self.send_stored());
+                        if session_ends_at_close {
+                            // Retransmitted once more, but no longer kept
+                            self.store.clear();
+                        }
                     } else {
                         self.clear_store_related();
                     }
-- 
2.43.0


From 7ea9fe3fe2b76f88de06e74a7bcadd912d4d293e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:13 +0000
Subject: [PATCH 10/41] fix: server drops the stored session when it sends
 CONNACK without session present

---
 src/mqtt/connection/core.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index eb32c6f..2d8f72e 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1427,6 +1427,7 @@ where
         }
         let mut events = Vec::new();
         let rc = packet.return_code();
+        let session_present = packet.session_present();
         events.push(GenericEvent::RequestSendPacket {
             packet: packet.into(),
             release_packet_id_if_send_error: None,
@@ -1439,7 +1440,11 @@ where
         }
 
         self.status = ConnectionStatus::Connected;
-        events.extend(self.send_stored());
+        if session_present {
+            events.extend(self.send_stored());
+        } else {
+            self.clear_store_related();
+        }
         self.send_post_process(&mut events);
 
         events
@@ -1459,6 +1464,7 @@ where
 
         let mut events = Vec::new();
         let rc = packet.reason_code();
+        let session_present = packet.session_present();
         if rc == ConnectReasonCode::Success {
             // Process properties
             for prop in packet.props() {
@@ -1514,7 +1520,11 @@ where
 
         self.status = ConnectionStatus::Connected;
 
-        events.extend(self.send_stored());
+        if session_present {
+            events.extend(self.send_stored());
+        } else {
+            self.clear_store_related();
+        }
         self.send_post_process(&mut events);
 
         events
-- 
2.43.0


From 921d8bbf827fa2927b6593f47fb6483b55383905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:54 +0000
Subject: [PATCH 11/41] fix: server honours the Session Expiry Interval it
 sends in CONNACK

---
 src/mqtt/connection/core.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 2d8f72e..6720c5b 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1500,6 +1500,9 @@ where
                             });
                         }
                     }
+                    Property::SessionExpiryInterval(val) => {
+                        self.need_store = val.val() != 0;
+                    }
                     _ => {
                         // Ignore other properties
                     }
-- 
2.43.0


From bf4b6bce0c270dddd02a9f0f06f14fdcf04fd6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:07 +0000
Subject: [PATCH 12/41] fix: keep a QoS 1/2 PUBLISH accepted while not
 connected in the store

---
 src/mqtt/connection/core.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 6720c5b..ff7f2b9 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1561,9 +1561,7 @@ where
                 ));
                 return events;
             }
-            if self.need_store
-                && (self.status != ConnectionStatus::Disconnected || self.offline_publish)
-            {
+            if self.need_store || self.status != ConnectionStatus::Connected {
                 let store_packet = packet.clone().set_dup(true);
                 self.store.add(store_packet.try_into().unwrap()).unwrap();
             } else {
@@ -1624,9 +1622,7 @@ where
                 return events;
             }
 
-            if self.need_store
-                && (self.status != ConnectionStatus::Disconnected || self.offline_publish)
-            {
+            if self.need_store || self.status != ConnectionStatus::Connected {
                 let ta_opt = Self::get_topic_alias_from_props(packet.props());
                 if packet.topic_name().is_empty() {
                     // Topic name is empty, must validate topic alias
-- 
2.43.0


From 0202f4822c4ec31db4eb54e5a8c2b44e8dd5df39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:50 +0000
Subject: [PATCH 13/41] fix: count retransmitted QoS 1/2 exchanges against
 Receive Maximum and refuse an excess PUBLISH before changing state

---
 src/mqtt/connection/core.rs | 47 +++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index ff7f2b9..d46de14 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -174,7 +174,7 @@ where
     publish_recv_max: Option<u16>,
     // Maximum number of concurrent PUBLISH packets for sending
     // Current count of PUBLISH packets being sent
-    publish_send_count: u16,
+    publish_send_count: usize,
 
     // Set of received PUBLISH packets (for flow control)
     publish_recv: HashSet<PacketIdType>,
@@ -855,7 +855,7 @@ where
     pub fn get_receive_maximum_vacancy_for_send(&self) -> Option<u16> {
         // If publish_recv_max is set, return the remaining capacity
         self.publish_send_max
-            .map(|max| max.saturating_sub(self.publish_send_count))
+            .map(|max| (max as usize).saturating_sub(self.publish_send_count) as u16)
     }
 
     /// Enable or disable offline publishing
@@ -1259,9 +1259,14 @@ where
             if packet.size() > self.maximum_packet_size_send as usize {
                 let packet_id = packet.packet_id();
                 self.pid_man.release_id(packet_id);
+                self.pid_puback.remove(&packet_id);
+                self.pid_pubrec.remove(&packet_id);
+                self.pid_pubcomp.remove(&packet_id);
                 events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                 return false; // Remove from store
             }
+            // A retransmitted packet belongs to an incomplete exchange
+            self.publish_send_count += 1;
             events.push(GenericEvent::RequestSendPacket {
                 packet: packet.clone().into(),
                 release_packet_id_if_send_error: None,
@@ -1622,6 +1627,17 @@ where
                 return events;
             }
 
+            if self.status == ConnectionStatus::Connected {
+                if let Some(max) = self.publish_send_max {
+                    if self.publish_send_count >= max as usize {
+                        events.push(GenericEvent::NotifyError(MqttError::ReceiveMaximumExceeded));
+                        self.pid_man.release_id(packet_id);
+                        events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
+                        return events;
+                    }
+                }
+            }
+
             if self.need_store || self.status != ConnectionStatus::Connected {
                 let ta_opt = Self::get_topic_alias_from_props(packet.props());
                 if packet.topic_name().is_empty() {
@@ -1732,24 +1748,9 @@ where
             }
         }
 
-        // Check receive_maximum for sending (QoS 1 and 2 packets)
-        if packet.qos() == Qos::AtLeastOnce || packet.qos() == Qos::ExactlyOnce {
-            if let Some(max) = self.publish_send_max {
-                if self.publish_send_count == max {
-                    events.push(GenericEvent::NotifyError(MqttError::ReceiveMaximumExceeded));
-                    if let Some(packet_id) = packet_id_opt {
-                        if self.pid_man.is_used_id(packet_id) {
-                            self.pid_man.release_id(packet_id);
-                            self.store.erase_publish(packet_id);
-                            self.pid_puback.remove(&packet_id);
-                            self.pid_pubrec.remove(&packet_id);
-                            events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
-                        }
-                    }
-                    return events;
-                }
-                self.publish_send_count += 1;
-            }
+        // Count for receive_maximum (QoS 1 and 2 packets)
+        if packet_id_opt.is_some() && self.status == ConnectionStatus::Connected {
+            self.publish_send_count += 1;
         }
 
         if self.status == ConnectionStatus::Connected {
@@ -3077,7 +3078,7 @@ where
                         events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                     }
                     if self.publish_send_max.is_some() {
-                        self.publish_send_count -= 1;
+                        self.publish_send_count = self.publish_send_count.saturating_sub(1);
                     }
                     events.extend(self.refresh_pingreq_recv());
                     events.push(GenericEvent::NotifyPacketReceived(packet.into()));
@@ -3151,7 +3152,7 @@ where
                             events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                         }
                         if self.publish_send_max.is_some() {
-                            self.publish_send_count -= 1;
+                            self.publish_send_count = self.publish_send_count.saturating_sub(1);
                         }
                     }
                     events.extend(self.refresh_pingreq_recv());
@@ -3281,7 +3282,7 @@ where
                         events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                     }
                     if self.publish_send_max.is_some() {
-                        self.publish_send_count -= 1;
+                        self.publish_send_count = self.publish_send_count.saturating_sub(1);
                     }
                     events.extend(self.refresh_pingreq_recv());
                     events.push(GenericEvent::NotifyPacketReceived(packet.into()));
-- 
2.43.0


From 619864c06aa918e0b57d26edc653e7dd8d3310df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 14/41] fix: release the packet identifier whenever sending
 PUBLISH/SUBSCRIBE/UNSUBSCRIBE is refused

---
 src/mqtt/connection/core.rs     | 48 +++++++++++++++++++++++++++------
 src/mqtt/connection/sendable.rs |  3 ++-
 2 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index d46de14..2b0cfb9 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -396,7 +396,7 @@ where
 
         // Return error if versions don't match
         if self.protocol_version != packet_version {
-            return vec![GenericEvent::NotifyError(MqttError::VersionMismatch)];
+            return self.refuse_send(MqttError::VersionMismatch, Self::owned_packet_id(&packet));
         }
 
         match packet {
@@ -447,28 +447,28 @@ where
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v3_1_1_subscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    self.refuse_send(MqttError::PacketNotAllowedToSend, Some(p.packet_id()))
                 }
             }
             GenericPacket::V5_0Subscribe(p) => {
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v5_0_subscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    self.refuse_send(MqttError::PacketNotAllowedToSend, Some(p.packet_id()))
                 }
             }
             GenericPacket::V3_1_1Unsubscribe(p) => {
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v3_1_1_unsubscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    self.refuse_send(MqttError::PacketNotAllowedToSend, Some(p.packet_id()))
                 }
             }
             GenericPacket::V5_0Unsubscribe(p) => {
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v5_0_unsubscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    self.refuse_send(MqttError::PacketNotAllowedToSend, Some(p.packet_id()))
                 }
             }
             // SUBACK/UNSUBACK - Server/Any can send
@@ -1598,7 +1598,7 @@ where
         mut packet: v5_0::GenericPublish<PacketIdType>,
     ) -> Vec<GenericEvent<PacketIdType>> {
         if !self.validate_maximum_packet_size_send(packet.size()) {
-            return vec![GenericEvent::NotifyError(MqttError::PacketTooLarge)];
+            return self.refuse_send(MqttError::PacketTooLarge, packet.packet_id());
         }
 
         let mut events = Vec::new();
@@ -1999,7 +1999,7 @@ where
         packet: v5_0::GenericSubscribe<PacketIdType>,
     ) -> Vec<GenericEvent<PacketIdType>> {
         if !self.validate_maximum_packet_size_send(packet.size()) {
-            return vec![GenericEvent::NotifyError(MqttError::PacketTooLarge)];
+            return self.refuse_send(MqttError::PacketTooLarge, Some(packet.packet_id()));
         }
 
         let mut events = Vec::new();
@@ -2105,7 +2105,7 @@ where
         packet: v5_0::GenericUnsubscribe<PacketIdType>,
     ) -> Vec<GenericEvent<PacketIdType>> {
         if !self.validate_maximum_packet_size_send(packet.size()) {
-            return vec![GenericEvent::NotifyError(MqttError::PacketTooLarge)];
+            return self.refuse_send(MqttError::PacketTooLarge, Some(packet.packet_id()));
         }
 
         let mut events = Vec::new();
@@ -2327,6 +2327,38 @@ where
         events
     }
 
+    /// Packet identifier that is given back when sending the packet is refused
+    ///
+    /// Only the packets that start an exchange own their packet identifier. Responses and
+    /// PUBREL refer to an exchange that is not affected by the refusal.
+    fn owned_packet_id(packet: &GenericPacket<PacketIdType>) -> Option<PacketIdType> {
+        match packet {
+            GenericPacket::V3_1_1Publish(p) => p.packet_id(),
+            GenericPacket::V5_0Publish(p) => p.packet_id(),
+            GenericPacket::V3_1_1Subscribe(p) => Some(p.packet_id()),
+            GenericPacket::V5_0Subscribe(p) => Some(p.packet_id()),
+            GenericPacket::V3_1_1Unsubscribe(p) => Some(p.packet_id()),
+            GenericPacket::V5_0Unsubscribe(p) => Some(p.packet_id()),
+            _ => None,
+        }
+    }
+
+    /// Report a refused send and give the packet identifier back
+    fn refuse_send(
+        &mut self,
+        e: MqttError,
+        packet_id: Option<PacketIdType>,
+    ) -> Vec<GenericEvent<PacketIdType>> {
+        let mut events = vec![GenericEvent::NotifyError(e)];
+        if let Some(packet_id) = packet_id {
+            if self.pid_man.is_used_id(packet_id) {
+                self.pid_man.release_id(packet_id);
+                events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
+            }
+        }
+        events
+    }
+
     fn send_post_process(&mut self, events: &mut Vec<GenericEvent<PacketIdType>>) {
         if self.is_client {
             // Priority 3
diff --git a/src/mqtt/connection/sendable.rs b/src/mqtt/connection/sendable.rs
index 921c635..4635eb7 100644
--- a/src/mqtt/connection/sendable.rs
+++ b/src/mqtt/connection/sendable.rs
@@ -279,6 +279,7 @@ where
         + core::fmt::Display
         + Debug
         + PacketKind
+        + Into<GenericPacket<PacketIdType>>
         + SendableHelper<Role, PacketIdType>,
 {
     fn dispatch_send(
@@ -287,7 +288,7 @@ where
     ) -> Vec<GenericEvent<PacketIdType>> {
         // Version check first
         if !T::check(&connection.get_protocol_version()) {
-            return vec![GenericEvent::NotifyError(MqttError::VersionMismatch)];
+            return connection.send(self.into());
         }
 
         trace!("Static dispatch sent: {}", self);
-- 
2.43.0


From 24e5ce72218ef093c64a76a236da10dcffd6cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:21 +0000
Subject: [PATCH 15/41] fix: do not register a topic alias by a PUBLISH that is
 not sent

---
 src/mqtt/connection/core.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 2b0cfb9..38c2006 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1695,7 +1695,8 @@ where
             }
         } else if let Some(ta) = ta_opt {
             // Topic alias is provided
-            if self.validate_topic_alias_range(ta) {
+            // It can only be registered with the peer by a packet that is sent now
+            if self.status == ConnectionStatus::Connected && self.validate_topic_alias_range(ta) {
                 trace!(
                     "topic alias: {} - {} is registered.",
                     packet.topic_name(),
-- 
2.43.0


From 76de2f00f3fe06048048ffcf494921e93ea6be9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:48 +0000
Subject: [PATCH 16/41] fix: keep automatic topic alias mapping within the
 peer's Maximum Packet Size

---
 src/mqtt/connection/core.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 38c2006..1cfcec3 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1728,11 +1728,17 @@ where
                             packet.topic_name(),
                             found_ta
                         );
-                        packet = packet.remove_topic_add_topic_alias(found_ta);
+                        let mapped = packet.clone().remove_topic_add_topic_alias(found_ta);
+                        if mapped.size() <= self.maximum_packet_size_send as usize {
+                            packet = mapped;
+                        }
                     } else {
                         let lru_ta = topic_alias_send.get_lru_alias();
-                        topic_alias_send.insert_or_update(packet.topic_name(), lru_ta);
-                        packet = packet.add_topic_alias(lru_ta);
+                        let mapped = packet.clone().add_topic_alias(lru_ta);
+                        if mapped.size() <= self.maximum_packet_size_send as usize {
+                            topic_alias_send.insert_or_update(packet.topic_name(), lru_ta);
+                            packet = mapped;
+                        }
                     }
                 }
             } else if self.auto_replace_topic_alias_send {
@@ -1743,7 +1749,10 @@ where
                             packet.topic_name(),
                             found_ta
                         );
-                        packet = packet.remove_topic_add_topic_alias(found_ta);
+                        let mapped = packet.clone().remove_topic_add_topic_alias(found_ta);
+                        if mapped.size() <= self.maximum_packet_size_send as usize {
+                            packet = mapped;
+                        }
                     }
                 }
             }
-- 
2.43.0


From 75a43bb905f087cd41ea977f52e8d6d2bf002771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:23 +0000
Subject: [PATCH 17/41] fix: keep track of QoS 2 exchanges between PUBREC and
 PUBREL

---
 src/mqtt/connection/core.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 1cfcec3..83eb7bf 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -151,6 +151,8 @@ where
     pid_puback: HashSet<PacketIdType>,
     pid_pubrec: HashSet<PacketIdType>,
     pid_pubcomp: HashSet<PacketIdType>,
+    /// Packet IDs whose PUBREC has been received and whose PUBREL has not been sent yet
+    pid_pubrel: HashSet<PacketIdType>,
 
     need_store: bool,
     // Store for retransmission packets
@@ -261,6 +263,7 @@ where
             pid_puback: HashSet::default(),
             pid_pubrec: HashSet::default(),
             pid_pubcomp: HashSet::default(),
+            pid_pubrel: HashSet::default(),
             need_store: false,
             store: GenericStore::new(),
             offline_publish: false,
@@ -792,6 +795,13 @@ where
                     events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                 }
             }
+
+            for packet_id in self.pid_pubrel.drain() {
+                if self.pid_man.is_used_id(packet_id) {
+                    self.pid_man.release_id(packet_id);
+                    events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
+                }
+            }
         }
 
         // Cancel all timers
@@ -1248,6 +1258,7 @@ where
         self.pid_puback.clear();
         self.pid_pubrec.clear();
         self.pid_pubcomp.clear();
+        self.pid_pubrel.clear();
         self.store.clear();
         self.qos2_publish_handled.clear();
     }
@@ -1273,6 +1284,8 @@ where
             });
             true // Keep in store
         });
+        // QoS 2 exchanges that go on with a PUBREL from the application are incomplete, too
+        self.publish_send_count += self.pid_pubrel.len();
 
         events
     }
@@ -1879,6 +1892,7 @@ where
             ));
             return events;
         }
+        self.pid_pubrel.remove(&packet_id);
         if self.need_store {
             self.store.add(packet.clone().try_into().unwrap()).unwrap();
         }
@@ -1915,6 +1929,7 @@ where
             ));
             return events;
         }
+        self.pid_pubrel.remove(&packet_id);
         if self.need_store {
             self.store.add(packet.clone().try_into().unwrap()).unwrap();
         }
@@ -3147,6 +3162,7 @@ where
                 let packet_id = packet.packet_id();
                 if self.pid_pubrec.remove(&packet_id) {
                     self.store.erase(ResponsePacket::V3_1_1Pubrec, packet_id);
+                    self.pid_pubrel.insert(packet_id);
                     if self.auto_pub_response && self.status == ConnectionStatus::Connected {
                         let pubrel = v3_1_1::GenericPubrel::<PacketIdType>::builder()
                             .packet_id(packet_id)
@@ -3181,6 +3197,7 @@ where
                     self.store.erase(ResponsePacket::V5_0Pubrec, packet_id);
                     let reason_code = packet.reason_code();
                     if reason_code.is_none() || reason_code.unwrap() == PubrecReasonCode::Success {
+                        self.pid_pubrel.insert(packet_id);
                         if self.auto_pub_response && self.status == ConnectionStatus::Connected {
                             let pubrel = v5_0::GenericPubrel::<PacketIdType>::builder()
                                 .packet_id(packet_id)
-- 
2.43.0


From b75a31bcef985c36424cc6ae7247c1fcef9583a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:17 +0000
Subject: [PATCH 18/41] fix: restore_packets does not expect a response for a
 packet it skips

---
 src/mqtt/connection/core.rs | 87 ++++++++++---------------------------
 1 file changed, 24 insertions(+), 63 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 83eb7bf..a7a8b52 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1032,83 +1032,44 @@ where
     /// * `packets` - Vector of packets to restore
     pub fn restore_packets(&mut self, packets: Vec<GenericStorePacket<PacketIdType>>) {
         for packet in packets {
-            match &packet {
+            // Packet ID and the set of packet IDs waiting for the response
+            let (packet_id, waiting) = match &packet {
                 GenericStorePacket::V3_1_1Publish(p) => {
-                    // Add to appropriate QoS tracking set
-                    match p.qos() {
-                        Qos::AtLeastOnce => {
-                            self.pid_puback.insert(p.packet_id().unwrap());
-                        }
-                        Qos::ExactlyOnce => {
-                            self.pid_pubrec.insert(p.packet_id().unwrap());
-                        }
+                    let waiting = match p.qos() {
+                        Qos::AtLeastOnce => &mut self.pid_puback,
+                        Qos::ExactlyOnce => &mut self.pid_pubrec,
                         _ => {
                             // QoS 0 shouldn't be in store, but handle gracefully
                             warn!("QoS 0 packet found in store, skipping");
                             continue;
                         }
-                    }
-                    // Register packet ID and add to store
-                    let packet_id = p.packet_id().unwrap();
-                    if self.pid_man.register_id(packet_id).is_ok() {
-                        if let Err(_e) = self.store.add(packet) {
-                            error!("Failed to add packet to store: {:?}", _e);
-                        }
-                    } else {
-                        error!("Packet ID {} has already been used. Skip it", packet_id);
-                    }
+                    };
+                    (p.packet_id().unwrap(), waiting)
                 }
                 GenericStorePacket::V5_0Publish(p) => {
-                    // Add to appropriate QoS tracking set
-                    match p.qos() {
-                        Qos::AtLeastOnce => {
-                            self.pid_puback.insert(p.packet_id().unwrap());
-                        }
-                        Qos::ExactlyOnce => {
-                            self.pid_pubrec.insert(p.packet_id().unwrap());
-                        }
+                    let waiting = match p.qos() {
+                        Qos::AtLeastOnce => &mut self.pid_puback,
+                        Qos::ExactlyOnce => &mut self.pid_pubrec,
                         _ => {
                             // QoS 0 shouldn't be in store, but handle gracefully
                             warn!("QoS 0 packet found in store, skipping");
                             continue;
                         }
-                    }
-                    // Register packet ID and add to store
-                    let packet_id = p.packet_id().unwrap();
-                    if self.pid_man.register_id(packet_id).is_ok() {
-                        if let Err(_e) = self.store.add(packet) {
-                            error!("Failed to add packet to store: {:?}", _e);
-                        }
-                    } else {
-                        error!("Packet ID {} has already been used. Skip it", packet_id);
-                    }
-                }
-                GenericStorePacket::V3_1_1Pubrel(p) => {
-                    // Pubrel packets expect PUBCOMP response
-                    self.pid_pubcomp.insert(p.packet_id());
-                    // Register packet ID and add to store
-                    let packet_id = p.packet_id();
-                    if self.pid_man.register_id(packet_id).is_ok() {
-                        if let Err(_e) = self.store.add(packet) {
-                            error!("Failed to add packet to store: {:?}", _e);
-                        }
-                    } else {
-                        error!("Packet ID {} has already been used. Skip it", packet_id);
-                    }
-                }
-                GenericStorePacket::V5_0Pubrel(p) => {
-                    // Pubrel packets expect PUBCOMP response
-                    self.pid_pubcomp.insert(p.packet_id());
-                    // Register packet ID and add to store
-                    let packet_id = p.packet_id();
-                    if self.pid_man.register_id(packet_id).is_ok() {
-                        if let Err(_e) = self.store.add(packet) {
-                            error!("Failed to add packet to store: {:?}", _e);
-                        }
-                    } else {
-                        error!("Packet ID {} has already been used. Skip it", packet_id);
-                    }
+                    };
+                    (p.packet_id().unwrap(), waiting)
+                }
+                // Pubrel packets expect PUBCOMP response
+                GenericStorePacket::V3_1_1Pubrel(p) => (p.packet_id(), &mut self.pid_pubcomp),
+                GenericStorePacket::V5_0Pubrel(p) => (p.packet_id(), &mut self.pid_pubcomp),
+            };
+            // Register packet ID and add to store
+            if self.pid_man.register_id(packet_id).is_ok() {
+                waiting.insert(packet_id);
+                if let Err(_e) = self.store.add(packet) {
+                    error!("Failed to add packet to store: {:?}", _e);
                 }
+            } else {
+                error!("Packet ID {} has already been used. Skip it", packet_id);
             }
         }
     }
-- 
2.43.0


From 8b3dcd5a4b944e53d9667157b057b7a22dc6bc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:48 +0000
Subject: [PATCH 19/41] fix: a restored session is persistent until the next
 CONNECT

---
 src/mqtt/connection/core.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index a7a8b52..5aaf76d 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1019,6 +1019,10 @@ where
     ///
     /// * `pids` - A `HashSet` containing packet IDs of previously handled QoS 2 PUBLISH packets
     pub fn restore_qos2_publish_handled(&mut self, pids: HashSet<PacketIdType>) {
+        if !pids.is_empty() {
+            // The restored session outlives the transport until the next CONNECT decides
+            self.need_store = true;
+        }
         self.qos2_publish_handled = pids;
     }
 
@@ -1065,6 +1069,8 @@ where
             // Register packet ID and add to store
             if self.pid_man.register_id(packet_id).is_ok() {
                 waiting.insert(packet_id);
+                // The restored session outlives the transport until the next CONNECT decides
+                self.need_store = true;
                 if let Err(_e) = self.store.add(packet) {
                     error!("Failed to add packet to store: {:?}", _e);
                 }
-- 
2.43.0


From 5469176e13422c09fbc35646f964e19527daec41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:21 +0000
Subject: [PATCH 20/41] fix: drop the stored packets of a session that ends
 with the connection

---
 src/mqtt/connection/core.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 5aaf76d..cc0d7db 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -771,6 +771,7 @@ where
         // If not storing session state, clear QoS2 states and release publish-related packet IDs
         if !self.need_store {
             self.qos2_publish_handled.clear();
+            self.store.clear();
 
             // Release packet IDs for PUBACK
             for packet_id in self.pid_puback.drain() {
-- 
2.43.0


From 0ad6f61cded51b1dc4acb4f630e330bd84934b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:08 +0000
Subject: [PATCH 21/41] fix: accept the PUBCOMP for a PUBREL queued while not
 connected

---
 src/mqtt/connection/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index cc0d7db..9d1a988 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1865,8 +1865,8 @@ where
             self.store.add(packet.clone().try_into().unwrap()).unwrap();
         }
 
+        self.pid_pubcomp.insert(packet_id);
         if self.status == ConnectionStatus::Connected {
-            self.pid_pubcomp.insert(packet_id);
             events.push(GenericEvent::RequestSendPacket {
                 packet: packet.into(),
                 release_packet_id_if_send_error: None,
@@ -1902,8 +1902,8 @@ where
             self.store.add(packet.clone().try_into().unwrap()).unwrap();
         }
 
+        self.pid_pubcomp.insert(packet_id);
         if self.status == ConnectionStatus::Connected {
-            self.pid_pubcomp.insert(packet_id);
             events.push(GenericEvent::RequestSendPacket {
                 packet: packet.into(),
                 release_packet_id_if_send_error: None,
-- 
2.43.0


From 8c6132fce0ff62c2c415a4982878a99da1c1f60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:38 +0000
Subject: [PATCH 22/41] fix: do not arm the PINGREQ timer for a PUBREL that is
 only queued

---
 src/mqtt/connection/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 9d1a988..9f0d0fc 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1871,8 +1871,8 @@ where
                 packet: packet.into(),
                 release_packet_id_if_send_error: None,
             });
+            self.send_post_process(&mut events);
         }
-        self.send_post_process(&mut events);
 
         events
     }
@@ -1908,8 +1908,8 @@ where
                 packet: packet.into(),
                 release_packet_id_if_send_error: None,
             });
+            self.send_post_process(&mut events);
         }
-        self.send_post_process(&mut events);
 
         events
     }
-- 
2.43.0


From 4939b6563e2c01c92967deeb7ea8e0761581315a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:34 +0000
Subject: [PATCH 23/41] fix: a PUBREC with 'No matching subscribers' does not
 end the QoS 2 exchange

---
 src/mqtt/connection/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 9f0d0fc..98feece 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -3164,7 +3164,7 @@ where
                 if self.pid_pubrec.remove(&packet_id) {
                     self.store.erase(ResponsePacket::V5_0Pubrec, packet_id);
                     let reason_code = packet.reason_code();
-                    if reason_code.is_none() || reason_code.unwrap() == PubrecReasonCode::Success {
+                    if !reason_code.is_some_and(|rc| rc.is_failure()) {
                         self.pid_pubrel.insert(packet_id);
                         if self.auto_pub_response && self.status == ConnectionStatus::Connected {
                             let pubrel = v5_0::GenericPubrel::<PacketIdType>::builder()
-- 
2.43.0


From b66baa28603d8b9c8e39107decbc201fb33925c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:10 +0000
Subject: [PATCH 24/41] fix: release_packet_id ends the exchange that used the
 packet identifier

---
 src/mqtt/connection/core.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 98feece..06d1a3d 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -993,6 +993,15 @@ where
 
         if self.pid_man.is_used_id(packet_id) {
             self.pid_man.release_id(packet_id);
+            self.pid_suback.remove(&packet_id);
+            self.pid_unsuback.remove(&packet_id);
+            let in_flight = self.pid_puback.remove(&packet_id)
+                | self.pid_pubrec.remove(&packet_id)
+                | self.pid_pubcomp.remove(&packet_id)
+                | self.pid_pubrel.remove(&packet_id);
+            if in_flight && self.publish_send_max.is_some() {
+                self.publish_send_count = self.publish_send_count.saturating_sub(1);
+            }
             events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
         }
 
-- 
2.43.0


From 9158664961b2ee86fcd41d55fda8829f81a205f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:46 +0000
Subject: [PATCH 25/41] fix: do not arm the keep-alive timer after DISCONNECT
 was sent

---
 src/mqtt/connection/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 06d1a3d..8342798 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -3700,7 +3700,7 @@ where
 
     fn refresh_pingreq_recv(&mut self) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
-        if self.pingreq_recv_timeout_ms != 0 {
+        if self.pingreq_recv_timeout_ms != 0 && self.status != ConnectionStatus::Disconnected {
             self.pingreq_recv_set = true;
             events.push(GenericEvent::RequestTimerReset {
                 kind: TimerKind::PingreqRecv,
-- 
2.43.0


From 61e02ecb97fff6112b5381e3cde9497a249a834a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:21 +0000
Subject: [PATCH 26/41] fix: re-arm the PINGREQ timer after stored packets are
 retransmitted

---
 src/mqtt/connection/core.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 8342798..3c0b2fb 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2732,7 +2732,14 @@ where
                 if packet.return_code() == ConnectReturnCode::Accepted {
                     self.status = ConnectionStatus::Connected;
                     if packet.session_present() {
-                        events.extend(self.send_stored());
+                        let stored_events = self.send_stored();
+                        let sent = stored_events
+                            .iter()
+                            .any(|e| matches!(e, GenericEvent::RequestSendPacket { .. }));
+                        events.extend(stored_events);
+                        if sent {
+                            self.send_post_process(&mut events);
+                        }
                     } else {
                         self.clear_store_related();
                     }
@@ -2813,7 +2820,14 @@ where
                     }
 
                     if packet.session_present() {
-                        events.extend(self.send_stored());
+                        let stored_events = self.send_stored();
+                        let sent = stored_events
+                            .iter()
+                            .any(|e| matches!(e, GenericEvent::RequestSendPacket { .. }));
+                        events.extend(stored_events);
+                        if sent {
+                            self.send_post_process(&mut events);
+                        }
                         if session_ends_at_close {
                             // Retransmitted once more, but no longer kept
                             self.store.clear();
-- 
2.43.0


From d33903773d3db9f921e1c95d5fb393eb41d81209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:21 +0000
Subject: [PATCH 27/41] fix: a server does not arm the PINGREQ timer when the
 interval is set

---
 src/mqtt/connection/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 3c0b2fb..f36c43c 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -844,7 +844,7 @@ where
                     self.pingreq_send_set = false;
                     events.push(GenericEvent::RequestTimerCancel(TimerKind::PingreqSend));
                 }
-            } else if self.status == ConnectionStatus::Connected {
+            } else if self.status == ConnectionStatus::Connected && self.is_client {
                 self.pingreq_send_set = true;
                 events.push(GenericEvent::RequestTimerReset {
                     kind: TimerKind::PingreqSend,
-- 
2.43.0


From c72fcf6ced70f770c2d830c82f9c5a46ef4ac7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:17 +0000
Subject: [PATCH 28/41] fix: a retransmitted PUBLISH does not count twice
 against Receive Maximum

---
 src/mqtt/connection/core.rs | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index f36c43c..d2fba2e 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2931,26 +2931,24 @@ where
                         let mut puback_send = false;
                         let mut pubrec_send = false;
 
-                        let mut check_receive_maximum =
-                            |events: &mut Vec<GenericEvent<PacketIdType>>| {
-                                if let Some(max) = self.publish_recv_max {
-                                    if self.publish_recv.len() >= max as usize {
-                                        self.handle_v5_0_error(
-                                            MqttError::ReceiveMaximumExceeded,
-                                            events,
-                                        );
-                                        return false;
-                                    }
-                                }
-                                true
-                            };
+                        if let (Some(packet_id), Some(max)) =
+                            (packet.packet_id(), self.publish_recv_max)
+                        {
+                            // A PUBLISH that is already outstanding is not counted again
+                            if !self.publish_recv.contains(&packet_id)
+                                && self.publish_recv.len() >= max as usize
+                            {
+                                self.handle_v5_0_error(
+                                    MqttError::ReceiveMaximumExceeded,
+                                    &mut events,
+                                );
+                                return events;
+                            }
+                        }
 
                         match packet.qos() {
                             Qos::AtLeastOnce => {
                                 let packet_id = packet.packet_id().unwrap();
-                                if !check_receive_maximum(&mut events) {
-                                    return events;
-                                }
                                 self.publish_recv.insert(packet_id);
                                 if self.auto_pub_response
                                     && self.status == ConnectionStatus::Connected
@@ -2960,9 +2958,6 @@ where
                             }
                             Qos::ExactlyOnce => {
                                 let packet_id = packet.packet_id().unwrap();
-                                if !check_receive_maximum(&mut events) {
-                                    return events;
-                                }
                                 self.publish_recv.insert(packet_id);
 
                                 if !self.qos2_publish_handled.insert(packet_id) {
-- 
2.43.0


From a07abacb574201a9abe45ba92d7e112a1d76c54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:50 +0000
Subject: [PATCH 29/41] fix: a QoS 2 PUBLISH rejected for its topic alias is
 not marked as handled

---
 src/mqtt/connection/core.rs | 56 ++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index d2fba2e..23f8418 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2946,34 +2946,6 @@ where
                             }
                         }
 
-                        match packet.qos() {
-                            Qos::AtLeastOnce => {
-                                let packet_id = packet.packet_id().unwrap();
-                                self.publish_recv.insert(packet_id);
-                                if self.auto_pub_response
-                                    && self.status == ConnectionStatus::Connected
-                                {
-                                    puback_send = true;
-                                }
-                            }
-                            Qos::ExactlyOnce => {
-                                let packet_id = packet.packet_id().unwrap();
-                                self.publish_recv.insert(packet_id);
-
-                                if !self.qos2_publish_handled.insert(packet_id) {
-                                    already_handled = true;
-                                }
-                                if self.status == ConnectionStatus::Connected
-                                    && (self.auto_pub_response || already_handled)
-                                {
-                                    pubrec_send = true;
-                                }
-                            }
-                            Qos::AtMostOnce => {
-                                // No packet ID handling for QoS 0
-                            }
-                        }
-
                         // Topic Alias handling
                         if packet.topic_name().is_empty() {
                             // Extract topic from topic_alias
@@ -3035,6 +3007,34 @@ where
                             }
                         }
 
+                        match packet.qos() {
+                            Qos::AtLeastOnce => {
+                                let packet_id = packet.packet_id().unwrap();
+                                self.publish_recv.insert(packet_id);
+                                if self.auto_pub_response
+                                    && self.status == ConnectionStatus::Connected
+                                {
+                                    puback_send = true;
+                                }
+                            }
+                            Qos::ExactlyOnce => {
+                                let packet_id = packet.packet_id().unwrap();
+                                self.publish_recv.insert(packet_id);
+
+                                if !self.qos2_publish_handled.insert(packet_id) {
+                                    already_handled = true;
+                                }
+                                if self.status == ConnectionStatus::Connected
+                                    && (self.auto_pub_response || already_handled)
+                                {
+                                    pubrec_send = true;
+                                }
+                            }
+                            Qos::AtMostOnce => {
+                                // No packet ID handling for QoS 0
+                            }
+                        }
+
                         // Send response packets
                         if puback_send {
                             let puback = v5_0::GenericPuback::builder()
-- 
2.43.0


From 284ead8d2c055c746c3dcab4783b845bdf939482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:30 +0000
Subject: [PATCH 30/41] fix: report a duplicate QoS 2 PUBLISH that cannot be
 answered with PUBREC

---
 src/mqtt/connection/core.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 23f8418..725ccc8 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2887,8 +2887,10 @@ where
                                 let packet_id = packet.packet_id().unwrap();
                                 let already_handled = !self.qos2_publish_handled.insert(packet_id);
 
-                                if self.status == ConnectionStatus::Connected
-                                    && (self.auto_pub_response || already_handled)
+                                // A duplicate that cannot be answered is reported as an error
+                                if already_handled
+                                    || (self.auto_pub_response
+                                        && self.status == ConnectionStatus::Connected)
                                 {
                                     let pubrec = v3_1_1::GenericPubrec::builder()
                                         .packet_id(packet_id)
@@ -3024,8 +3026,10 @@ where
                                 if !self.qos2_publish_handled.insert(packet_id) {
                                     already_handled = true;
                                 }
-                                if self.status == ConnectionStatus::Connected
-                                    && (self.auto_pub_response || already_handled)
+                                // A duplicate that cannot be answered is reported as an error
+                                if already_handled
+                                    || (self.auto_pub_response
+                                        && self.status == ConnectionStatus::Connected)
                                 {
                                     pubrec_send = true;
                                 }
-- 
2.43.0


From 2bb1c0b5858080e1f26cbb97b719d019de7abced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:45 +0000
Subject: [PATCH 31/41] fix: reject a PUBLISH with packet identifier 0

---
 src/mqtt/packet/v3_1_1/publish.rs | 3 +++
 src/mqtt/packet/v5_0/publish.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/publish.rs b/src/mqtt/packet/v3_1_1/publish.rs
index e8075aa..4627424 100644
--- a/src/mqtt/packet/v3_1_1/publish.rs
+++ b/src/mqtt/packet/v3_1_1/publish.rs
@@ -644,6 +644,9 @@ where
             let mut buf = PacketIdType::Buffer::default();
             buf.as_mut()
                 .copy_from_slice(&data_arc[cursor..cursor + buffer_size]);
+            if PacketIdType::from_buffer(buf.as_ref()).is_zero() {
+                return Err(MqttError::MalformedPacket);
+            }
             cursor += buffer_size;
             Some(buf)
         } else {
diff --git a/src/mqtt/packet/v5_0/publish.rs b/src/mqtt/packet/v5_0/publish.rs
index 6d38a21..2750f56 100644
--- a/src/mqtt/packet/v5_0/publish.rs
+++ b/src/mqtt/packet/v5_0/publish.rs
@@ -983,6 +983,9 @@ where
             let mut buf = PacketIdType::Buffer::default();
             buf.as_mut()
                 .copy_from_slice(&data_arc[cursor..cursor + buffer_size]);
+            if PacketIdType::from_buffer(buf.as_ref()).is_zero() {
+                return Err(MqttError::MalformedPacket);
+            }
             cursor += buffer_size;
             Some(buf)
         } else {
-- 
2.43.0


From 276cb789555e60338155683cf3df5e7109fcdb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:35 +0000
Subject: [PATCH 32/41] fix: count 32-bit packet identifiers in the v3.1.1
 UNSUBACK length

---
 src/mqtt/packet/v3_1_1/unsuback.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqtt/packet/v3_1_1/unsuback.rs b/src/mqtt/packet/v3_1_1/unsuback.rs
index 70ca4b3..b867584 100644
--- a/src/mqtt/packet/v3_1_1/unsuback.rs
+++ b/src/mqtt/packet/v3_1_1/unsuback.rs
@@ -467,7 +467,7 @@ where
         self.validate()?;
 
         let packet_id_buf = self.packet_id_buf.unwrap();
-        let remaining_length = VariableByteInteger::from_u32(2).unwrap(); // packet_id(2)
+        let remaining_length = VariableByteInteger::from_u32(mem::size_of::<PacketIdType>() as u32).unwrap();
 
         Ok(GenericUnsuback {
             fixed_header: [FixedHeader::Unsuback.as_u8()],
-- 
2.43.0


From ac3c9d2db2a5f87552e5c3fe1910f762dd75a9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:19 +0000
Subject: [PATCH 33/41] fix: reject packet identifier 0 in SUBSCRIBE, SUBACK,
 UNSUBSCRIBE and UNSUBACK

---
 src/mqtt/packet/v3_1_1/suback.rs      | 3 +++
 src/mqtt/packet/v3_1_1/subscribe.rs   | 3 +++
 src/mqtt/packet/v3_1_1/unsuback.rs    | 3 +++
 src/mqtt/packet/v3_1_1/unsubscribe.rs | 3 +++
 src/mqtt/packet/v5_0/suback.rs        | 3 +++
 src/mqtt/packet/v5_0/subscribe.rs     | 3 +++
 src/mqtt/packet/v5_0/unsuback.rs      | 3 +++
 src/mqtt/packet/v5_0/unsubscribe.rs   | 3 +++
 8 files changed, 24 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/suback.rs b/src/mqtt/packet/v3_1_1/suback.rs
index 2ce652b..bb81490 100644
--- a/src/mqtt/packet/v3_1_1/suback.rs
+++ b/src/mqtt/packet/v3_1_1/suback.rs
@@ -322,6 +322,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v3_1_1/subscribe.rs b/src/mqtt/packet/v3_1_1/subscribe.rs
index f9049ff..a440d7f 100644
--- a/src/mqtt/packet/v3_1_1/subscribe.rs
+++ b/src/mqtt/packet/v3_1_1/subscribe.rs
@@ -316,6 +316,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v3_1_1/unsuback.rs b/src/mqtt/packet/v3_1_1/unsuback.rs
index b867584..5b12a81 100644
--- a/src/mqtt/packet/v3_1_1/unsuback.rs
+++ b/src/mqtt/packet/v3_1_1/unsuback.rs
@@ -349,6 +349,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v3_1_1/unsubscribe.rs b/src/mqtt/packet/v3_1_1/unsubscribe.rs
index 1898c15..ee52a45 100644
--- a/src/mqtt/packet/v3_1_1/unsubscribe.rs
+++ b/src/mqtt/packet/v3_1_1/unsubscribe.rs
@@ -331,6 +331,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v5_0/suback.rs b/src/mqtt/packet/v5_0/suback.rs
index 1367aa0..528e3d2 100644
--- a/src/mqtt/packet/v5_0/suback.rs
+++ b/src/mqtt/packet/v5_0/suback.rs
@@ -366,6 +366,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v5_0/subscribe.rs b/src/mqtt/packet/v5_0/subscribe.rs
index ae98c80..99d71cc 100644
--- a/src/mqtt/packet/v5_0/subscribe.rs
+++ b/src/mqtt/packet/v5_0/subscribe.rs
@@ -336,6 +336,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v5_0/unsuback.rs b/src/mqtt/packet/v5_0/unsuback.rs
index c63e7ee..c4ac22b 100644
--- a/src/mqtt/packet/v5_0/unsuback.rs
+++ b/src/mqtt/packet/v5_0/unsuback.rs
@@ -361,6 +361,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v5_0/unsubscribe.rs b/src/mqtt/packet/v5_0/unsubscribe.rs
index 178f354..20b1f5e 100644
--- a/src/mqtt/packet/v5_0/unsubscribe.rs
+++ b/src/mqtt/packet/v5_0/unsubscribe.rs
@@ -347,6 +347,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
-- 
2.43.0


From 11664b3049a819cb477c19a8c8c0d7d6da98db8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:20 +0000
Subject: [PATCH 34/41] fix: allow at most one Subscription Identifier in
 SUBSCRIBE

---
 src/mqtt/packet/v5_0/subscribe.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/packet/v5_0/subscribe.rs b/src/mqtt/packet/v5_0/subscribe.rs
index 99d71cc..1baddd7 100644
--- a/src/mqtt/packet/v5_0/subscribe.rs
+++ b/src/mqtt/packet/v5_0/subscribe.rs
@@ -870,12 +870,16 @@ where
 /// // This would be valid for SUBSCRIBE packets
 /// ```
 fn validate_subscribe_properties(props: &Properties) -> Result<(), MqttError> {
+    let mut count_subscription_identifier = 0;
     for prop in props {
         match prop {
-            Property::SubscriptionIdentifier(_) => {}
+            Property::SubscriptionIdentifier(_) => count_subscription_identifier += 1,
             Property::UserProperty(_) => {}
             _ => return Err(MqttError::ProtocolError),
         }
     }
+    if count_subscription_identifier > 1 {
+        return Err(MqttError::ProtocolError);
+    }
     Ok(())
 }
-- 
2.43.0


From 30091484e448896a9bb6ac478beccc8d13208971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:19 +0000
Subject: [PATCH 35/41] fix: compute lengths of parsed packets from the
 re-encoded properties

---
 src/mqtt/packet/v5_0/connack.rs     | 5 ++++-
 src/mqtt/packet/v5_0/connect.rs     | 5 ++++-
 src/mqtt/packet/v5_0/suback.rs      | 2 +-
 src/mqtt/packet/v5_0/subscribe.rs   | 6 ++++--
 src/mqtt/packet/v5_0/unsuback.rs    | 2 +-
 src/mqtt/packet/v5_0/unsubscribe.rs | 6 ++++--
 6 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/mqtt/packet/v5_0/connack.rs b/src/mqtt/packet/v5_0/connack.rs
index 63fe40b..3536b11 100644
--- a/src/mqtt/packet/v5_0/connack.rs
+++ b/src/mqtt/packet/v5_0/connack.rs
@@ -423,7 +423,10 @@ impl Connack {
 
         let connack = Connack {
             fixed_header: [FixedHeader::Connack.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(cursor as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32(
+                (1 + 1 + prop_len.size() + props.size()) as u32,
+            )
+            .unwrap(),
             ack_flags: [flags],
             reason_code_buf: [code],
             property_length: prop_len,
diff --git a/src/mqtt/packet/v5_0/connect.rs b/src/mqtt/packet/v5_0/connect.rs
index 7a27792..7ec4746 100644
--- a/src/mqtt/packet/v5_0/connect.rs
+++ b/src/mqtt/packet/v5_0/connect.rs
@@ -602,6 +602,8 @@ impl Connect {
         cursor += consumed;
         validate_connect_properties(&props)?;
         let property_length = VariableByteInteger::from_u32(props.size() as u32).unwrap();
+        // Bytes by which the received property lengths exceed their minimal encoding
+        let mut surplus = consumed - property_length.size() - props.size();
 
         // Client Identifier
         let (client_id_buf, consumed) =
@@ -622,6 +624,7 @@ impl Connect {
             validate_will_properties(&w_props)?;
             will_props = w_props;
             will_property_length = VariableByteInteger::from_u32(will_props.size() as u32).unwrap();
+            surplus += consumed - will_property_length.size() - will_props.size();
 
             // Will Topic
             let (w_topic, consumed) = MqttString::decode(&data[cursor..])?;
@@ -661,7 +664,7 @@ impl Connect {
 
         let connect = Connect {
             fixed_header: [FixedHeader::Connect as u8],
-            remaining_length: VariableByteInteger::from_u32(cursor as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32((cursor - surplus) as u32).unwrap(),
             protocol_name,
             protocol_version_buf,
             connect_flags_buf,
diff --git a/src/mqtt/packet/v5_0/suback.rs b/src/mqtt/packet/v5_0/suback.rs
index 528e3d2..1c50559 100644
--- a/src/mqtt/packet/v5_0/suback.rs
+++ b/src/mqtt/packet/v5_0/suback.rs
@@ -389,7 +389,7 @@ where
             return Err(MqttError::ProtocolError);
         }
 
-        let remaining_size = buffer_size + property_length + reason_codes_buf.len();
+        let remaining_size = buffer_size + prop_len.size() + props.size() + reason_codes_buf.len();
         let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
 
         let suback = GenericSuback {
diff --git a/src/mqtt/packet/v5_0/subscribe.rs b/src/mqtt/packet/v5_0/subscribe.rs
index 1baddd7..c5c826d 100644
--- a/src/mqtt/packet/v5_0/subscribe.rs
+++ b/src/mqtt/packet/v5_0/subscribe.rs
@@ -363,8 +363,10 @@ where
             validate_share_name(entry.topic_filter())?;
         }
 
-        let remaining_size =
-            buffer_size + property_length + entries.iter().map(|e| e.size()).sum::<usize>();
+        let remaining_size = buffer_size
+            + prop_len.size()
+            + props.size()
+            + entries.iter().map(|e| e.size()).sum::<usize>();
         let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
 
         let subscribe = GenericSubscribe {
diff --git a/src/mqtt/packet/v5_0/unsuback.rs b/src/mqtt/packet/v5_0/unsuback.rs
index c4ac22b..57e977b 100644
--- a/src/mqtt/packet/v5_0/unsuback.rs
+++ b/src/mqtt/packet/v5_0/unsuback.rs
@@ -384,7 +384,7 @@ where
             return Err(MqttError::ProtocolError);
         }
 
-        let remaining_size = buffer_size + property_length + reason_codes_buf.len();
+        let remaining_size = buffer_size + prop_len.size() + props.size() + reason_codes_buf.len();
         let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
 
         let unsuback = GenericUnsuback {
diff --git a/src/mqtt/packet/v5_0/unsubscribe.rs b/src/mqtt/packet/v5_0/unsubscribe.rs
index 20b1f5e..80c1baf 100644
--- a/src/mqtt/packet/v5_0/unsubscribe.rs
+++ b/src/mqtt/packet/v5_0/unsubscribe.rs
@@ -374,8 +374,10 @@ where
             validate_share_name(entry.as_str())?;
         }
 
-        let remaining_size =
-            buffer_size + property_length + entries.iter().map(|e| e.size()).sum::<usize>();
+        let remaining_size = buffer_size
+            + prop_len.size()
+            + props.size()
+            + entries.iter().map(|e| e.size()).sum::<usize>();
         let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
 
         let unsubscribe = GenericUnsubscribe {
-- 
2.43.0


From 263bae5eb517397dbcc02e5320a4c49907067697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:01 +0000
Subject: [PATCH 36/41] fix: reject CONNECT with invalid connect flags

---
 src/mqtt/packet/v3_1_1/connect.rs | 8 ++++++++
 src/mqtt/packet/v5_0/connect.rs   | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/connect.rs b/src/mqtt/packet/v3_1_1/connect.rs
index 3bb1dc2..e096c35 100644
--- a/src/mqtt/packet/v3_1_1/connect.rs
+++ b/src/mqtt/packet/v3_1_1/connect.rs
@@ -559,6 +559,14 @@ impl Connect {
         let connect_flags = data[cursor];
         let connect_flags_buf = [connect_flags];
         cursor += 1;
+        // The reserved bit must be zero; Will QoS must not be 3, and without the Will Flag
+        // both Will QoS and Will Retain must be zero
+        if (connect_flags & 0b0000_0001) != 0
+            || (connect_flags & 0b0001_1000) == 0b0001_1000
+            || ((connect_flags & 0b0000_0100) == 0 && (connect_flags & 0b0011_1000) != 0)
+        {
+            return Err(MqttError::MalformedPacket);
+        }
 
         // Keep Alive
         if data.len() < cursor + 2 {
diff --git a/src/mqtt/packet/v5_0/connect.rs b/src/mqtt/packet/v5_0/connect.rs
index 7ec4746..32ad76d 100644
--- a/src/mqtt/packet/v5_0/connect.rs
+++ b/src/mqtt/packet/v5_0/connect.rs
@@ -589,6 +589,14 @@ impl Connect {
         let connect_flags = data[cursor];
         let connect_flags_buf = [connect_flags];
         cursor += 1;
+        // The reserved bit must be zero; Will QoS must not be 3, and without the Will Flag
+        // both Will QoS and Will Retain must be zero
+        if (connect_flags & 0b0000_0001) != 0
+            || (connect_flags & 0b0001_1000) == 0b0001_1000
+            || ((connect_flags & 0b0000_0100) == 0 && (connect_flags & 0b0011_1000) != 0)
+        {
+            return Err(MqttError::MalformedPacket);
+        }
 
         // Keep Alive
         if data.len() < cursor + 2 {
-- 
2.43.0


From 6f50322d64f22c295f6b7e36bf27647056f3ed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 37/41] fix: reject PUBLISH with a missing topic or wildcards
 in the topic

---
 src/mqtt/packet/v3_1_1/publish.rs | 3 +++
 src/mqtt/packet/v5_0/publish.rs   | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/publish.rs b/src/mqtt/packet/v3_1_1/publish.rs
index 4627424..5628257 100644
--- a/src/mqtt/packet/v3_1_1/publish.rs
+++ b/src/mqtt/packet/v3_1_1/publish.rs
@@ -628,6 +628,9 @@ where
 
         let (topic_name, consumed) = MqttString::decode(&data_arc[cursor..])?;
         cursor += consumed;
+        if topic_name.as_str().is_empty() || topic_name.as_str().contains(['#', '+']) {
+            return Err(MqttError::MalformedPacket);
+        }
 
         let qos = match qos_value {
             0 => Qos::AtMostOnce,
diff --git a/src/mqtt/packet/v5_0/publish.rs b/src/mqtt/packet/v5_0/publish.rs
index 2750f56..b0d60f3 100644
--- a/src/mqtt/packet/v5_0/publish.rs
+++ b/src/mqtt/packet/v5_0/publish.rs
@@ -967,6 +967,9 @@ where
 
         let (topic_name, consumed) = MqttString::decode(&data_arc[cursor..])?;
         cursor += consumed;
+        if topic_name.as_str().contains(['#', '+']) {
+            return Err(MqttError::MalformedPacket);
+        }
 
         let qos = match qos_value {
             0 => Qos::AtMostOnce,
@@ -1002,6 +1005,12 @@ where
             (VariableByteInteger::from_u32(0).unwrap(), Properties::new())
         };
 
+        if topic_name.as_str().is_empty()
+            && !props.iter().any(|p| matches!(p, Property::TopicAlias(_)))
+        {
+            return Err(MqttError::TopicAliasInvalid);
+        }
+
         let payload_len = data_arc.len() - cursor;
         let payload = if payload_len > 0 {
             ArcPayload::new(data_arc.clone(), cursor, payload_len)
-- 
2.43.0


From 8c813577e7d04325e0eaaaf9faa24bd58472623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 38/41] fix: do not keep reserved CONNACK flag bits

---
 src/mqtt/packet/v5_0/connack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqtt/packet/v5_0/connack.rs b/src/mqtt/packet/v5_0/connack.rs
index 3536b11..2605ea1 100644
--- a/src/mqtt/packet/v5_0/connack.rs
+++ b/src/mqtt/packet/v5_0/connack.rs
@@ -427,7 +427,7 @@ impl Connack {
                 (1 + 1 + prop_len.size() + props.size()) as u32,
             )
             .unwrap(),
-            ack_flags: [flags],
+            ack_flags: [flags & 0b0000_0001],
             reason_code_buf: [code],
             property_length: prop_len,
             props,
-- 
2.43.0


From e468f8d2c0c518fd1654a76161013a9b52e82530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 39/41] fix: let will_message replace an earlier will

---
 src/mqtt/packet/v3_1_1/connect.rs | 1 +
 src/mqtt/packet/v5_0/connect.rs   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/connect.rs b/src/mqtt/packet/v3_1_1/connect.rs
index e096c35..de7d995 100644
--- a/src/mqtt/packet/v3_1_1/connect.rs
+++ b/src/mqtt/packet/v3_1_1/connect.rs
@@ -796,6 +796,7 @@ impl ConnectBuilder {
         self.will_payload_buf = Some(will_payload);
 
         let mut flags = self.connect_flags_buf.unwrap_or([0b0000_0010])[0];
+        flags &= !0b0011_1000; // Drop Will QoS and Will retain of an earlier call
         flags |= 0b0000_0100; // Will flag
         flags |= (qos as u8) << 3; // Will QoS
         if retain {
diff --git a/src/mqtt/packet/v5_0/connect.rs b/src/mqtt/packet/v5_0/connect.rs
index 32ad76d..e03f3fc 100644
--- a/src/mqtt/packet/v5_0/connect.rs
+++ b/src/mqtt/packet/v5_0/connect.rs
@@ -847,6 +847,7 @@ impl ConnectBuilder {
         self.will_payload_buf = Some(will_payload);
 
         let mut flags = self.connect_flags_buf.unwrap_or([0b0000_0010])[0];
+        flags &= !0b0011_1000; // Drop Will QoS and Will retain of an earlier call
         flags |= 0b0000_0100; // Will flag
         flags |= (qos as u8) << 3; // Will QoS
         if retain {
-- 
2.43.0


From d5a42cf70914ee1da3e92ef60ec3ea042ab32149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:38 +0000
Subject: [PATCH 40/41] fix: drop will properties when CONNECT has no will
 message

---
 src/mqtt/packet/v5_0/connect.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/packet/v5_0/connect.rs b/src/mqtt/packet/v5_0/connect.rs
index e03f3fc..deda6fb 100644
--- a/src/mqtt/packet/v5_0/connect.rs
+++ b/src/mqtt/packet/v5_0/connect.rs
@@ -1065,7 +1065,11 @@ impl ConnectBuilder {
         let client_id_buf = self.client_id_buf.unwrap_or_default();
 
         let will_flag = (connect_flags & 0b0000_0100) != 0;
-        let will_props = self.will_props.unwrap_or_else(Properties::new);
+        // Without a will message the will properties are not part of the packet
+        let will_props = self
+            .will_props
+            .filter(|_| will_flag)
+            .unwrap_or_else(Properties::new);
         let will_property_length = VariableByteInteger::from_u32(will_props.size() as u32).unwrap();
         let will_topic_buf = self.will_topic_buf.unwrap_or_default();
         let will_payload_buf = self.will_payload_buf.unwrap_or_default();
-- 
2.43.0


From 6fb28b86a7c6355758a6c00619432805f4f7e994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:41 +0000
Subject: [PATCH 41/41] fix: v5.0 PUBREL for an exchange begun before a restart
 takes a Receive Maximum slot

---
 src/mqtt/connection/core.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 725ccc8..582e303 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1906,7 +1906,13 @@ where
             ));
             return events;
         }
-        self.pid_pubrel.remove(&packet_id);
+        let counted = self.pid_pubrel.remove(&packet_id)
+            || self.pid_pubrec.contains(&packet_id)
+            || self.pid_pubcomp.contains(&packet_id);
+        if !counted && self.status == ConnectionStatus::Connected {
+            // The exchange began before this object existed; its PUBCOMP gives a slot back
+            self.publish_send_count += 1;
+        }
         if self.need_store {
             self.store.add(packet.clone().try_into().unwrap()).unwrap();
         }
-- 
2.43.0

