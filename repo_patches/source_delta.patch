From 8d9577e28acc74a382e6f10c11e87970f354ba6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 1/8] fix: count a subscription identifier once in the property
 cursor

The identifier byte was counted twice, so the last byte of the property
section was left undecoded (or the next field read from the wrong place).
---
 src/publish.rs   | 2 +-
 src/subscribe.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/publish.rs b/src/publish.rs
index 1536467..2576c96 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -231,7 +231,7 @@ impl PublishProperties {
                 }
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, id) = length(bytes.iter())?;
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     subscription_identifiers.push(id);
                 }
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 7c25bb5..ec8f7cf 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -242,7 +242,7 @@ impl SubscribeProperties {
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, sub_id) = length(bytes.iter())?;
                     // TODO: Validate 1 +. Tests are working either way
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     id = Some(sub_id);
                 }
-- 
2.43.0


From aee1d91286e19404d9dcd8fe2ec9ef6d6ac89056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 2/8] fix: patch connect flags relative to where the packet
 starts

Writing a CONNECT to a non-empty buffer overwrote a byte of an earlier
packet and left its own flags empty.
---
 src/connect.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connect.rs b/src/connect.rs
index 0cfe773..de8597f 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -96,13 +96,14 @@ impl Connect {
         buffer: &mut BytesMut,
     ) -> Result<usize, Error> {
         let len = self.len(will, l);
+        let start = buffer.len();
 
         buffer.put_u8(0b0001_0000);
         let count = write_remaining_length(buffer, len)?;
         write_mqtt_string(buffer, &mqtt_string_new("MQTT"))?;
 
         buffer.put_u8(0x05);
-        let flags_index = 1 + count + 2 + 4 + 1;
+        let flags_index = start + 1 + count + 2 + 4 + 1;
 
         let mut connect_flags = 0;
         if self.clean_start {
-- 
2.43.0


From 102871bde547a04a391eaeafd20014b6c8e9bcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 3/8] fix: refuse connect return codes without a wire value
 instead of panicking

---
 src/connack.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/connack.rs b/src/connack.rs
index f9ace21..5533fe1 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -94,7 +94,7 @@ impl ConnAck {
 
         let count = write_remaining_length(buffer, len)?;
         buffer.put_u8(u8::from(self.session_present));
-        buffer.put_u8(connect_code(self.code));
+        buffer.put_u8(connect_code(self.code)?);
 
         if let Some(p) = &self.properties {
             p.write(buffer)?;
@@ -466,8 +466,8 @@ fn connect_return(num: u8) -> Result<ConnectReturnCode, Error> {
     Ok(code)
 }
 
-fn connect_code(return_code: ConnectReturnCode) -> u8 {
-    match return_code {
+fn connect_code(return_code: ConnectReturnCode) -> Result<u8, Error> {
+    let code = match return_code {
         ConnectReturnCode::Success => 0,
         ConnectReturnCode::UnspecifiedError => 128,
         ConnectReturnCode::MalformedPacket => 129,
@@ -490,8 +490,15 @@ fn connect_code(return_code: ConnectReturnCode) -> u8 {
         ConnectReturnCode::UseAnotherServer => 156,
         ConnectReturnCode::ServerMoved => 157,
         ConnectReturnCode::ConnectionRateExceeded => 159,
-        _ => unreachable!(),
-    }
+        // MQTT 3 return codes have no MQTT 5 counterpart on the wire
+        ConnectReturnCode::RefusedProtocolVersion => {
+            return Err(Error::InvalidConnectReturnCode(1))
+        }
+        ConnectReturnCode::BadClientId => return Err(Error::InvalidConnectReturnCode(2)),
+        ConnectReturnCode::ServiceUnavailable => return Err(Error::InvalidConnectReturnCode(3)),
+    };
+
+    Ok(code)
 }
 
 #[cfg(test)]
-- 
2.43.0


From c83a6ad1f2e6f4e9ddf42b5c780d357d5c4e5684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 4/8] fix: leave the output buffer unchanged when a packet
 cannot be written

A refused packet left its first bytes behind, which corrupted the stream
for everything written after it.
---
 src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7c80fe6..022db3d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -216,7 +216,8 @@ impl Packet {
     }
 
     pub fn write(&self, write: &mut BytesMut) -> Result<usize, Error> {
-        match self {
+        let start = write.len();
+        let result = match self {
             Self::Publish(publish) => publish.write(write),
             Self::Subscribe(subscription) => subscription.write(write),
             Self::Unsubscribe(unsubscribe) => unsubscribe.write(write),
@@ -231,7 +232,14 @@ impl Packet {
             Self::PingReq(_) => PingReq::write(write),
             Self::PingResp(_) => PingResp::write(write),
             Self::Disconnect(disconnect) => disconnect.write(write),
+        };
+
+        // leave nothing of a packet that could not be written completely
+        if result.is_err() {
+            write.truncate(start);
         }
+
+        result
     }
 }
 
-- 
2.43.0


From 42782bb2cf218af0dd54f97685833ab883ebfd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 5/8] fix: report a length cut short inside a complete frame as
 malformed

The readers answered with InsufficientBytes for a frame that is already
complete and consumed, so a caller would wait for bytes that do not belong
to it.
---
 src/connack.rs     |  8 ++++----
 src/connect.rs     | 10 +++++-----
 src/disconnect.rs  |  4 ++--
 src/lib.rs         | 10 ++++++++++
 src/puback.rs      |  4 ++--
 src/pubcomp.rs     |  4 ++--
 src/publish.rs     | 10 +++++-----
 src/pubrec.rs      |  4 ++--
 src/pubrel.rs      |  4 ++--
 src/suback.rs      |  4 ++--
 src/subscribe.rs   |  9 +++++----
 src/unsuback.rs    |  4 ++--
 src/unsubscribe.rs |  7 ++++---
 13 files changed, 47 insertions(+), 35 deletions(-)

diff --git a/src/connack.rs b/src/connack.rs
index 5533fe1..2b24b1b 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -1,9 +1,9 @@
 use crate::MqttString;
 
 use super::{
-    len_len, length, property, read_mqtt_bytes, read_mqtt_string, read_u16, read_u32, read_u8,
-    write_mqtt_bytes, write_mqtt_string, write_remaining_length, Debug, Error, FixedHeader,
-    PropertyType,
+    len_len, length_in_frame, property, read_mqtt_bytes, read_mqtt_string, read_u16, read_u32,
+    read_u8, write_mqtt_bytes, write_mqtt_string, write_remaining_length, Debug, Error,
+    FixedHeader, PropertyType,
 };
 use bytes::{Buf, BufMut, Bytes, BytesMut};
 
@@ -227,7 +227,7 @@ impl ConnAckProperties {
         let mut authentication_method = None;
         let mut authentication_data = None;
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
+        let (properties_len_len, properties_len) = length_in_frame(bytes)?;
         bytes.advance(properties_len_len);
         if properties_len == 0 {
             return Ok(None);
diff --git a/src/connect.rs b/src/connect.rs
index de8597f..fc9a13c 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -1,9 +1,9 @@
 use crate::{mqtt_string_eq, mqtt_string_new, MqttString};
 
 use super::{
-    len_len, length, property, qos, read_mqtt_bytes, read_mqtt_string, read_u16, read_u32, read_u8,
-    write_mqtt_bytes, write_mqtt_string, write_remaining_length, BufMut, BytesMut, Debug, Error,
-    FixedHeader, PropertyType, QoS,
+    len_len, length_in_frame, property, qos, read_mqtt_bytes, read_mqtt_string, read_u16, read_u32,
+    read_u8, write_mqtt_bytes, write_mqtt_string, write_remaining_length, BufMut, BytesMut, Debug,
+    Error, FixedHeader, PropertyType, QoS,
 };
 use bytes::{Buf, Bytes};
 
@@ -183,7 +183,7 @@ impl ConnectProperties {
         let mut authentication_method = None;
         let mut authentication_data = None;
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
+        let (properties_len_len, properties_len) = length_in_frame(bytes)?;
         bytes.advance(properties_len_len);
         if properties_len == 0 {
             return Ok(None);
@@ -483,7 +483,7 @@ impl LastWillProperties {
         let mut correlation_data = None;
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
+        let (properties_len_len, properties_len) = length_in_frame(bytes)?;
         bytes.advance(properties_len_len);
         if properties_len == 0 {
             return Ok(None);
diff --git a/src/disconnect.rs b/src/disconnect.rs
index 7931da4..9c5bdf3 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -5,7 +5,7 @@ use bytes::{BufMut, Bytes, BytesMut};
 use crate::MqttString;
 
 use super::{
-    len_len, length, read_mqtt_string, read_u32, read_u8, write_mqtt_string,
+    len_len, length_in_frame, read_mqtt_string, read_u32, read_u8, write_mqtt_string,
     write_remaining_length, Buf, Debug, Error, FixedHeader, PacketType,
 };
 
@@ -163,7 +163,7 @@ impl DisconnectProperties {
     }
 
     pub fn extract(bytes: &mut Bytes) -> Result<Option<Self>, Error> {
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
+        let (properties_len_len, properties_len) = length_in_frame(bytes)?;
 
         bytes.advance(properties_len_len);
 
diff --git a/src/lib.rs b/src/lib.rs
index 022db3d..385493c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -483,6 +483,16 @@ fn length(stream: Iter<u8>) -> Result<(usize, usize), Error> {
     Ok((len_len, len))
 }
 
+/// Parses a variable byte integer inside a complete frame. Unlike the fixed
+/// header's, more bytes from the stream can't complete it
+#[inline]
+fn length_in_frame(bytes: &Bytes) -> Result<(usize, usize), Error> {
+    length(bytes.iter()).map_err(|e| match e {
+        Error::InsufficientBytes(_) => Error::MalformedPacket,
+        e => e,
+    })
+}
+
 /// Reads a series of bytes with a length from a byte stream
 #[inline]
 fn read_mqtt_bytes(stream: &mut Bytes) -> Result<Bytes, Error> {
diff --git a/src/puback.rs b/src/puback.rs
index bb7902f..571e6fa 100644
--- a/src/puback.rs
+++ b/src/puback.rs
@@ -1,7 +1,7 @@
 use crate::MqttString;
 
 use super::{
-    len_len, length, property, read_mqtt_string, read_u16, read_u8, write_mqtt_string,
+    len_len, length_in_frame, property, read_mqtt_string, read_u16, read_u8, write_mqtt_string,
     write_remaining_length, Debug, Error, FixedHeader, PropertyType,
 };
 use bytes::{Buf, BufMut, Bytes, BytesMut};
@@ -151,7 +151,7 @@ impl PubAckProperties {
         let mut reason_string = None;
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
+        let (properties_len_len, properties_len) = length_in_frame(bytes)?;
         bytes.advance(properties_len_len);
         if properties_len == 0 {
             return Ok(None);
diff --git a/src/pubcomp.rs b/src/pubcomp.rs
index d3cc6f1..bac95bb 100644
--- a/src/pubcomp.rs
+++ b/src/pubcomp.rs
@@ -1,7 +1,7 @@
 use crate::MqttString;
 
 use super::{
-    len_len, length, property, read_mqtt_string, read_u16, read_u8, write_mqtt_string,
+    len_len, length_in_frame, property, read_mqtt_string, read_u16, read_u8, write_mqtt_string,
     write_remaining_length, Debug, Error, FixedHeader, PropertyType,
 };
 use bytes::{Buf, BufMut, Bytes, BytesMut};
@@ -144,7 +144,7 @@ impl PubCompProperties {
         let mut reason_string = None;
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
+        let (properties_len_len, properties_len) = length_in_frame(bytes)?;
         bytes.advance(properties_len_len);
         if properties_len == 0 {
             return Ok(None);
diff --git a/src/publish.rs b/src/publish.rs
index 2576c96..20709da 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -1,9 +1,9 @@
 use crate::MqttString;
 
 use super::{
-    len_len, length, property, qos, read_mqtt_bytes, read_mqtt_string, read_u16, read_u32, read_u8,
-    write_mqtt_bytes, write_mqtt_string, write_remaining_length, BufMut, BytesMut, Debug, Error,
-    FixedHeader, PropertyType, QoS,
+    len_len, length_in_frame, property, qos, read_mqtt_bytes, read_mqtt_string, read_u16, read_u32,
+    read_u8, write_mqtt_bytes, write_mqtt_string, write_remaining_length, BufMut, BytesMut, Debug,
+    Error, FixedHeader, PropertyType, QoS,
 };
 use bytes::{Buf, Bytes};
 
@@ -188,7 +188,7 @@ impl PublishProperties {
         let mut subscription_identifiers = Vec::new();
         let mut content_type = None;
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
+        let (properties_len_len, properties_len) = length_in_frame(bytes)?;
         bytes.advance(properties_len_len);
         if properties_len == 0 {
             return Ok(None);
@@ -230,7 +230,7 @@ impl PublishProperties {
                     user_properties.push((key, value));
                 }
                 PropertyType::SubscriptionIdentifier => {
-                    let (id_len, id) = length(bytes.iter())?;
+                    let (id_len, id) = length_in_frame(bytes)?;
                     cursor += id_len;
                     bytes.advance(id_len);
                     subscription_identifiers.push(id);
diff --git a/src/pubrec.rs b/src/pubrec.rs
index 888a5af..eb4a6da 100644
--- a/src/pubrec.rs
+++ b/src/pubrec.rs
@@ -1,7 +1,7 @@
 use crate::MqttString;
 
 use super::{
-    len_len, length, property, read_mqtt_string, read_u16, read_u8, write_mqtt_string,
+    len_len, length_in_frame, property, read_mqtt_string, read_u16, read_u8, write_mqtt_string,
     write_remaining_length, Debug, Error, FixedHeader, PropertyType,
 };
 use bytes::{Buf, BufMut, Bytes, BytesMut};
@@ -146,7 +146,7 @@ impl PubRecProperties {
         let mut reason_string = None;
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
+        let (properties_len_len, properties_len) = length_in_frame(bytes)?;
         bytes.advance(properties_len_len);
         if properties_len == 0 {
             return Ok(None);
diff --git a/src/pubrel.rs b/src/pubrel.rs
index 70c4065..b45dc59 100644
--- a/src/pubrel.rs
+++ b/src/pubrel.rs
@@ -1,7 +1,7 @@
 use crate::MqttString;
 
 use super::{
-    len_len, length, property, read_mqtt_string, read_u16, read_u8, write_mqtt_string,
+    len_len, length_in_frame, property, read_mqtt_string, read_u16, read_u8, write_mqtt_string,
     write_remaining_length, Debug, Error, FixedHeader, PropertyType,
 };
 use bytes::{Buf, BufMut, Bytes, BytesMut};
@@ -145,7 +145,7 @@ impl PubRelProperties {
         let mut reason_string = None;
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
+        let (properties_len_len, properties_len) = length_in_frame(bytes)?;
         bytes.advance(properties_len_len);
         if properties_len == 0 {
             return Ok(None);
diff --git a/src/suback.rs b/src/suback.rs
index 8319041..5a3acb2 100644
--- a/src/suback.rs
+++ b/src/suback.rs
@@ -1,7 +1,7 @@
 use crate::MqttString;
 
 use super::{
-    len_len, length, property, read_mqtt_string, read_u16, read_u8, write_mqtt_string,
+    len_len, length_in_frame, property, read_mqtt_string, read_u16, read_u8, write_mqtt_string,
     write_remaining_length, Debug, Error, FixedHeader, PropertyType, QoS,
 };
 use bytes::{Buf, BufMut, Bytes, BytesMut};
@@ -123,7 +123,7 @@ impl SubAckProperties {
         let mut reason_string = None;
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
+        let (properties_len_len, properties_len) = length_in_frame(bytes)?;
         bytes.advance(properties_len_len);
         if properties_len == 0 {
             return Ok(None);
diff --git a/src/subscribe.rs b/src/subscribe.rs
index ec8f7cf..0d0b914 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -1,8 +1,9 @@
 use crate::MqttString;
 
 use super::{
-    len_len, length, property, qos, read_mqtt_string, read_u16, read_u8, vec, write_mqtt_string,
-    write_remaining_length, BufMut, BytesMut, Debug, Error, FixedHeader, PropertyType, QoS,
+    len_len, length_in_frame, property, qos, read_mqtt_string, read_u16, read_u8, vec,
+    write_mqtt_string, write_remaining_length, BufMut, BytesMut, Debug, Error, FixedHeader,
+    PropertyType, QoS,
 };
 use bytes::{Buf, Bytes};
 
@@ -225,7 +226,7 @@ impl SubscribeProperties {
         let mut id = None;
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
+        let (properties_len_len, properties_len) = length_in_frame(bytes)?;
         bytes.advance(properties_len_len);
 
         if properties_len == 0 {
@@ -240,7 +241,7 @@ impl SubscribeProperties {
 
             match property(prop)? {
                 PropertyType::SubscriptionIdentifier => {
-                    let (id_len, sub_id) = length(bytes.iter())?;
+                    let (id_len, sub_id) = length_in_frame(bytes)?;
                     // TODO: Validate 1 +. Tests are working either way
                     cursor += id_len;
                     bytes.advance(id_len);
diff --git a/src/unsuback.rs b/src/unsuback.rs
index 76a7bbc..eec644d 100644
--- a/src/unsuback.rs
+++ b/src/unsuback.rs
@@ -1,7 +1,7 @@
 use crate::MqttString;
 
 use super::{
-    len_len, length, property, read_mqtt_string, read_u16, read_u8, write_mqtt_string,
+    len_len, length_in_frame, property, read_mqtt_string, read_u16, read_u8, write_mqtt_string,
     write_remaining_length, Debug, Error, FixedHeader, PropertyType,
 };
 use bytes::{Buf, BufMut, Bytes, BytesMut};
@@ -120,7 +120,7 @@ impl UnsubAckProperties {
         let mut reason_string = None;
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
+        let (properties_len_len, properties_len) = length_in_frame(bytes)?;
         bytes.advance(properties_len_len);
         if properties_len == 0 {
             return Ok(None);
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index cef2250..459ffd7 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -1,8 +1,9 @@
 use crate::MqttString;
 
 use super::{
-    len_len, length, property, read_mqtt_string, read_u16, read_u8, vec, write_mqtt_string,
-    write_remaining_length, BufMut, BytesMut, Debug, Error, FixedHeader, PropertyType,
+    len_len, length_in_frame, property, read_mqtt_string, read_u16, read_u8, vec,
+    write_mqtt_string, write_remaining_length, BufMut, BytesMut, Debug, Error, FixedHeader,
+    PropertyType,
 };
 use bytes::{Buf, Bytes};
 
@@ -113,7 +114,7 @@ impl UnsubscribeProperties {
     pub fn read(bytes: &mut Bytes) -> Result<Option<UnsubscribeProperties>, Error> {
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
+        let (properties_len_len, properties_len) = length_in_frame(bytes)?;
         bytes.advance(properties_len_len);
 
         if properties_len == 0 {
-- 
2.43.0


From cf6b9e30f7f2fbe40b33529f46cc45a52b3448e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 6/8] fix: refuse properties that run past the end of their
 section

The bytes after the section were swallowed as part of the property, and
the fields after it were read from the wrong place.
---
 src/connack.rs     |  5 +++++
 src/connect.rs     | 10 ++++++++++
 src/disconnect.rs  |  5 +++++
 src/puback.rs      |  5 +++++
 src/pubcomp.rs     |  5 +++++
 src/publish.rs     |  5 +++++
 src/pubrec.rs      |  5 +++++
 src/pubrel.rs      |  5 +++++
 src/suback.rs      |  5 +++++
 src/subscribe.rs   |  5 +++++
 src/unsuback.rs    |  5 +++++
 src/unsubscribe.rs |  5 +++++
 12 files changed, 65 insertions(+)

diff --git a/src/connack.rs b/src/connack.rs
index 2b24b1b..22c172f 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -320,6 +320,11 @@ impl ConnAckProperties {
             }
         }
 
+        // a property must not run past the declared length of its section
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(ConnAckProperties {
             session_expiry_interval,
             receive_max,
diff --git a/src/connect.rs b/src/connect.rs
index fc9a13c..8f06fd6 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -239,6 +239,11 @@ impl ConnectProperties {
             }
         }
 
+        // a property must not run past the declared length of its section
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(ConnectProperties {
             session_expiry_interval,
             receive_maximum,
@@ -533,6 +538,11 @@ impl LastWillProperties {
             }
         }
 
+        // a property must not run past the declared length of its section
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(LastWillProperties {
             delay_interval,
             payload_format_indicator,
diff --git a/src/disconnect.rs b/src/disconnect.rs
index 9c5bdf3..0d56cee 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -208,6 +208,11 @@ impl DisconnectProperties {
             }
         }
 
+        // a property must not run past the declared length of its section
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         let properties = Self {
             session_expiry_interval,
             reason_string,
diff --git a/src/puback.rs b/src/puback.rs
index 571e6fa..dfb4dd6 100644
--- a/src/puback.rs
+++ b/src/puback.rs
@@ -179,6 +179,11 @@ impl PubAckProperties {
             }
         }
 
+        // a property must not run past the declared length of its section
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/pubcomp.rs b/src/pubcomp.rs
index bac95bb..0b050fe 100644
--- a/src/pubcomp.rs
+++ b/src/pubcomp.rs
@@ -172,6 +172,11 @@ impl PubCompProperties {
             }
         }
 
+        // a property must not run past the declared length of its section
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubCompProperties {
             reason_string,
             user_properties,
diff --git a/src/publish.rs b/src/publish.rs
index 20709da..1fbfd88 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -244,6 +244,11 @@ impl PublishProperties {
             }
         }
 
+        // a property must not run past the declared length of its section
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PublishProperties {
             payload_format_indicator,
             message_expiry_interval,
diff --git a/src/pubrec.rs b/src/pubrec.rs
index eb4a6da..da59bf4 100644
--- a/src/pubrec.rs
+++ b/src/pubrec.rs
@@ -174,6 +174,11 @@ impl PubRecProperties {
             }
         }
 
+        // a property must not run past the declared length of its section
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubRecProperties {
             reason_string,
             user_properties,
diff --git a/src/pubrel.rs b/src/pubrel.rs
index b45dc59..aa316c5 100644
--- a/src/pubrel.rs
+++ b/src/pubrel.rs
@@ -173,6 +173,11 @@ impl PubRelProperties {
             }
         }
 
+        // a property must not run past the declared length of its section
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubRelProperties {
             reason_string,
             user_properties,
diff --git a/src/suback.rs b/src/suback.rs
index 5a3acb2..bf3e8fb 100644
--- a/src/suback.rs
+++ b/src/suback.rs
@@ -151,6 +151,11 @@ impl SubAckProperties {
             }
         }
 
+        // a property must not run past the declared length of its section
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(SubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 0d0b914..d7b920c 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -257,6 +257,11 @@ impl SubscribeProperties {
             }
         }
 
+        // a property must not run past the declared length of its section
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(SubscribeProperties {
             id,
             user_properties,
diff --git a/src/unsuback.rs b/src/unsuback.rs
index eec644d..1806442 100644
--- a/src/unsuback.rs
+++ b/src/unsuback.rs
@@ -148,6 +148,11 @@ impl UnsubAckProperties {
             }
         }
 
+        // a property must not run past the declared length of its section
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(UnsubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index 459ffd7..5c9d6ca 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -138,6 +138,11 @@ impl UnsubscribeProperties {
             }
         }
 
+        // a property must not run past the declared length of its section
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(UnsubscribeProperties { user_properties }))
     }
 
-- 
2.43.0


From ce70de5c8ffbe71a2bf88a315e684e9a7d267516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 7/8] fix: refuse an UNSUBSCRIBE without topic filters

As SUBSCRIBE already does; MQTT 5 section 3.10.3.
---
 src/unsubscribe.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index 5c9d6ca..0107cab 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -62,6 +62,10 @@ impl Unsubscribe {
             filters.push(filter);
         }
 
+        if filters.is_empty() {
+            return Err(Error::EmptySubscription);
+        }
+
         let unsubscribe = Unsubscribe {
             pkid,
             filters,
-- 
2.43.0


From fce957102a5fa4dae92e3d9e1d9ffddc42d0d379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 8/8] fix: encode and decode a DISCONNECT reason without
 properties

The length left out the property length byte that was written, a reason
with an empty property set was taken for the two byte normal form, and a
reason code alone was refused.
---
 src/disconnect.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/disconnect.rs b/src/disconnect.rs
index 0d56cee..407c848 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -265,7 +265,7 @@ impl Disconnect {
         if self.reason_code == DisconnectReasonCode::NormalDisconnection
             && self.properties.is_none()
         {
-            return 2; // Packet type + 0x00
+            return 0; // reason code and properties are omitted
         }
 
         let mut length = 0;
@@ -277,7 +277,7 @@ impl Disconnect {
             let properties_len_len = len_len(properties_len);
             length += properties_len_len + properties_len;
         } else {
-            length += 1;
+            length += 1 + 1; // Disconnect Reason Code + property length 0
         }
 
         length
@@ -286,10 +286,6 @@ impl Disconnect {
     #[must_use]
     pub fn size(&self) -> usize {
         let len = self.len();
-        if len == 2 {
-            return len;
-        }
-
         let remaining_len_size = len_len(len);
 
         1 + remaining_len_size + len
@@ -315,6 +311,11 @@ impl Disconnect {
 
         let reason_code = read_u8(&mut bytes)?;
 
+        // the property length may be omitted
+        if fixed_header.remaining_len == 1 {
+            return Ok(Self::new(reason_code.try_into()?));
+        }
+
         let disconnect = Self {
             reason_code: reason_code.try_into()?,
             properties: DisconnectProperties::extract(&mut bytes)?,
@@ -328,13 +329,12 @@ impl Disconnect {
 
         let length = self.len();
 
-        if length == 2 {
-            buffer.put_u8(0x00);
-            return Ok(length);
-        }
-
         let len_len = write_remaining_length(buffer, length)?;
 
+        if length == 0 {
+            return Ok(1 + len_len);
+        }
+
         buffer.put_u8(self.reason_code as u8);
 
         if let Some(properties) = &self.properties {
-- 
2.43.0

