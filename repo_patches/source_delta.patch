From 9934a7d025148b8c19700b8e4e7cd7db2ca90b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 01/13] fix: place the upper method bits correctly in the
 message type

---
 src/message.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 1ac08c2..c70a474 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -569,9 +569,9 @@ impl Type {
         let method = self.method.as_u16();
         (method & 0b0000_0000_1111)
             | ((class & 0b01) << 4)
-            | ((method & 0b0000_0111_0000) << 5)
+            | ((method & 0b0000_0111_0000) << 1)
             | ((class & 0b10) << 7)
-            | ((method & 0b1111_1000_0000) << 9)
+            | ((method & 0b1111_1000_0000) << 2)
     }
 
     fn from_u16(value: u16) -> Result<Self> {
-- 
2.43.0


From ce48bf4c281c0ffe2cf32461ef742dc67d9eb95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 02/13] fix: decode the CHANGE-REQUEST flags from the bits they
 are encoded in

---
 src/rfc5780/attributes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rfc5780/attributes.rs b/src/rfc5780/attributes.rs
index c91492e..7f8aea0 100644
--- a/src/rfc5780/attributes.rs
+++ b/src/rfc5780/attributes.rs
@@ -121,7 +121,7 @@ impl ChangeRequestDecoder {
     }
 }
 impl_decode!(ChangeRequestDecoder, ChangeRequest, |item| {
-    Ok(ChangeRequest((item & 0x2) != 0, (item & 0x1) != 0))
+    Ok(ChangeRequest((item & 0x4) != 0, (item & 0x2) != 0))
 });
 
 /// [`ChangeRequest`] encoder.
-- 
2.43.0


From 0655a427d721a6feaeb13b83ae1660b65a7c112c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:20 +0000
Subject: [PATCH 03/13] fix: encode the port of RESPONSE-PORT

---
 src/rfc5780/attributes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rfc5780/attributes.rs b/src/rfc5780/attributes.rs
index 7f8aea0..efdabcc 100644
--- a/src/rfc5780/attributes.rs
+++ b/src/rfc5780/attributes.rs
@@ -316,4 +316,6 @@ impl ResponsePortEncoder {
         Self::default()
     }
 }
-impl_encode!(ResponsePortEncoder, ResponsePort, |_item: Self::Item| 0u16);
+impl_encode!(ResponsePortEncoder, ResponsePort, |item: Self::Item| {
+    u32::from(item.0) << 16
+});
-- 
2.43.0


From d719defc0d7883c3ca8e8c1db5154b0bb25e7327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:22 +0000
Subject: [PATCH 04/13] fix: do not underflow in Fingerprint::new for messages
 near the size limit

---
 src/rfc5389/attributes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rfc5389/attributes.rs b/src/rfc5389/attributes.rs
index b70cf90..774da8c 100644
--- a/src/rfc5389/attributes.rs
+++ b/src/rfc5389/attributes.rs
@@ -251,8 +251,8 @@ impl Fingerprint {
     /// Calculates the CRC-32 value of `message` and returns a `Fingerprint` instance containing it.
     pub fn new<A: Attribute>(message: &Message<A>) -> Result<Self> {
         let mut bytes = track!(MessageEncoder::default().encode_into_bytes(message.clone()))?;
-        let final_len = bytes.len() as u16 - 20 + 8; // Adds `Fingerprint` attribute length
-        BigEndian::write_u16(&mut bytes[2..4], final_len);
+        let final_len = bytes.len() - 20 + 8; // Adds `Fingerprint` attribute length
+        BigEndian::write_u16(&mut bytes[2..4], final_len as u16);
         let crc32 = crc::Crc::<u32>::new(&crc::CRC_32_ISO_HDLC).checksum(&bytes[..]) ^ 0x5354_554e;
         Ok(Fingerprint { crc32 })
     }
-- 
2.43.0


From 60c5a5f2829319f999f0aeea3d7f8a81fdc0df83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:55 +0000
Subject: [PATCH 05/13] fix: do not carry attributes of a broken message over
 to the next one

---
 src/message.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index c70a474..c040341 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -447,12 +447,16 @@ impl<A: Attribute> Decode for MessageDecoder<A> {
     fn finish_decoding(&mut self) -> Result<Self::Item> {
         let (Type { method, class }, _, transaction_id) = track!(self.header.finish_decoding())?;
         match self.finish_decoding_with_header(method, class, transaction_id) {
-            Err(error) => Ok(Err(BrokenMessage {
-                method,
-                class,
-                transaction_id,
-                error,
-            })),
+            Err(error) => {
+                // Discards what has been left over from the broken message
+                self.attributes = Default::default();
+                Ok(Err(BrokenMessage {
+                    method,
+                    class,
+                    transaction_id,
+                    error,
+                }))
+            }
             Ok(message) => Ok(Ok(message)),
         }
     }
-- 
2.43.0


From dd67218fd60dcc92910ec9b5c12e86cd99395066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:57 +0000
Subject: [PATCH 06/13] fix: do not add the length of the previous message to
 the bytes required for the next one

---
 src/message.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index c040341..bc579a8 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -462,9 +462,12 @@ impl<A: Attribute> Decode for MessageDecoder<A> {
     }
 
     fn requiring_bytes(&self) -> ByteCount {
-        self.header
-            .requiring_bytes()
-            .add_for_decoding(self.attributes.requiring_bytes())
+        if self.header.is_idle() {
+            self.attributes.requiring_bytes()
+        } else {
+            // The length of the attribute part is not known until the header has been decoded
+            self.header.requiring_bytes()
+        }
     }
 
     fn is_idle(&self) -> bool {
-- 
2.43.0


From 22ef9faa88015fde96a4165cd347a32bc61be81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 07/13] fix: report a message whose last attribute overruns it
 as broken

---
 src/message.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/message.rs b/src/message.rs
index bc579a8..b6809a1 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -345,6 +345,10 @@ impl<A: Attribute> Decode for AttributesDecoder<A> {
                 Err(e) => {
                     self.last_error = Some(e);
                 }
+                Ok(_) if eos.is_reached() && !self.inner.is_idle() => {
+                    let e = ErrorKind::UnexpectedEos.cause("Attribute exceeds the message");
+                    self.last_error = Some(track!(Error::from(e)));
+                }
                 Ok(size) => return Ok(size),
             }
         }
-- 
2.43.0


From dece199304e0b0d818e7fe3d3b2e628af287c647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 08/13] fix: make a message decoder usable again after it has
 rejected its input

---
 src/message.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index b6809a1..e4cc496 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -424,6 +424,18 @@ impl<A: Attribute> MessageDecoder<A> {
         }
         Ok(message)
     }
+
+    fn decode_message(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
+        let mut offset = 0;
+        if !self.header.is_idle() {
+            bytecodec_try_decode!(self.header, offset, buf, eos);
+
+            let message_len = self.header.peek().expect("never fails").1;
+            track!(self.attributes.set_expected_bytes(u64::from(message_len)))?;
+        }
+        bytecodec_try_decode!(self.attributes, offset, buf, eos);
+        Ok(offset)
+    }
 }
 impl<A: Attribute> Default for MessageDecoder<A> {
     fn default() -> Self {
@@ -437,15 +449,12 @@ impl<A: Attribute> Decode for MessageDecoder<A> {
     type Item = DecodedMessage<A>;
 
     fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
-        let mut offset = 0;
-        if !self.header.is_idle() {
-            bytecodec_try_decode!(self.header, offset, buf, eos);
-
-            let message_len = self.header.peek().expect("never fails").1;
-            track!(self.attributes.set_expected_bytes(u64::from(message_len)))?;
+        let result = track!(self.decode_message(buf, eos));
+        if result.is_err() {
+            // Discards what has been left over from the rejected bytes
+            *self = Self::default();
         }
-        bytecodec_try_decode!(self.attributes, offset, buf, eos);
-        Ok(offset)
+        result
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
-- 
2.43.0


From 437a34c290c1945e90b77a75fa655823737cb6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 09/13] fix: refuse to start encoding a message while another
 one is being encoded

---
 src/message.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/message.rs b/src/message.rs
index e4cc496..2bbef47 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -528,6 +528,8 @@ impl<A: Attribute> Encode for MessageEncoder<A> {
     }
 
     fn start_encoding(&mut self, mut item: Self::Item) -> Result<()> {
+        track_assert!(self.is_idle(), ErrorKind::EncoderFull);
+
         let attributes_len = item.attributes.len();
         for i in 0..attributes_len {
             unsafe {
-- 
2.43.0


From 1182171189613c7b9d4ee198a7677773ebae98c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 10/13] fix: leave a message encoder idle when it refuses a
 message

---
 src/message.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 2bbef47..4d0b2f8 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -542,23 +542,29 @@ impl<A: Attribute> Encode for MessageEncoder<A> {
             }
         }
 
+        // `self` remains as is if the message is refused
+        let mut encoder = Self::default();
+
         let message_type = Type {
             class: item.class,
             method: item.method,
         };
-        track!(self.message_type.start_encoding(message_type.as_u16()))?;
-        track!(self.magic_cookie.start_encoding(MAGIC_COOKIE))?;
-        track!(self.transaction_id.start_encoding(item.transaction_id))?;
-        track!(self.attributes.start_encoding(item.attributes.into_iter()))?;
-
-        let message_len = self.attributes.exact_requiring_bytes();
+        track!(encoder.message_type.start_encoding(message_type.as_u16()))?;
+        track!(encoder.magic_cookie.start_encoding(MAGIC_COOKIE))?;
+        track!(encoder.transaction_id.start_encoding(item.transaction_id))?;
+        track!(encoder
+            .attributes
+            .start_encoding(item.attributes.into_iter()))?;
+
+        let message_len = encoder.attributes.exact_requiring_bytes();
         track_assert!(
             message_len < 0x10000,
             ErrorKind::InvalidInput,
             "Too large message length: actual={}, limit=0xFFFF",
             message_len
         );
-        track!(self.message_len.start_encoding(message_len as u16))?;
+        track!(encoder.message_len.start_encoding(message_len as u16))?;
+        *self = encoder;
         Ok(())
     }
 
-- 
2.43.0


From 09c81625dac147968edfc71899204c9cef511a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 11/13] fix: keep the received bytes of values that the encoder
 would not reproduce

The reserved parts of an attribute value (e.g., the RFFU bits of
CHANNEL-NUMBER) are dropped by the decoders. FINGERPRINT and
MESSAGE-INTEGRITY, which cover the bytes on the wire, were checked against
the re-encoded attributes and so rejected valid messages, and a message that
was forwarded unchanged left with different bytes.
---
 src/attribute.rs | 59 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 54 insertions(+), 5 deletions(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index bec8de4..3fe3f12 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -2,8 +2,10 @@ use crate::message::Message;
 use bytecodec::bytes::{BytesDecoder, BytesEncoder, RemainingBytesDecoder};
 use bytecodec::combinator::{Length, Peekable};
 use bytecodec::fixnum::{U16beDecoder, U16beEncoder};
-use bytecodec::{ByteCount, Decode, Encode, Eos, ErrorKind, Result, SizedEncode, TryTaggedDecode};
-use std::fmt;
+use bytecodec::{
+    ByteCount, Decode, Encode, EncodeExt, Eos, ErrorKind, Result, SizedEncode, TryTaggedDecode,
+};
+use std::{fmt, mem};
 
 use crate::{rfc5389, rfc5766};
 
@@ -320,6 +322,7 @@ pub enum LosslessAttribute<T> {
     Known {
         inner: T,
         padding: Option<Padding>,
+        received: Option<ReceivedValue>,
     },
     Unknown {
         inner: RawAttribute,
@@ -331,6 +334,7 @@ impl<T: Attribute> LosslessAttribute<T> {
         LosslessAttribute::Known {
             inner,
             padding: None,
+            received: None,
         }
     }
 
@@ -370,11 +374,34 @@ impl<T: Attribute> LosslessAttribute<T> {
     }
 }
 
+/// The value bytes of a received attribute that its encoder would not reproduce
+/// (e.g., some of the bits reserved by the specification are set).
+#[derive(Debug, Clone)]
+pub struct ReceivedValue {
+    bytes: Vec<u8>,
+    encoded: Vec<u8>,
+}
+impl ReceivedValue {
+    fn new<T: Attribute>(bytes: Vec<u8>, inner: &T) -> Option<Self> {
+        let encoded = Self::encode(inner).ok()?;
+        if encoded == bytes {
+            None
+        } else {
+            Some(ReceivedValue { bytes, encoded })
+        }
+    }
+
+    fn encode<T: Attribute>(inner: &T) -> Result<Vec<u8>> {
+        track!(T::Encoder::default().encode_into_bytes(inner.clone()))
+    }
+}
+
 pub struct LosslessAttributeDecoder<T: Attribute> {
     get_type: U16beDecoder,
     value_len: Peekable<U16beDecoder>,
     is_known: bool,
     known_value: Length<T::Decoder>,
+    known_bytes: Vec<u8>,
     unknown_value: Length<RawAttributeDecoder>,
     padding: BytesDecoder<Padding>,
 }
@@ -390,6 +417,7 @@ impl<T: Attribute> Default for LosslessAttributeDecoder<T> {
             value_len: Default::default(),
             is_known: false,
             known_value: Default::default(),
+            known_bytes: Vec::new(),
             unknown_value: Default::default(),
             padding: Default::default(),
         }
@@ -417,7 +445,14 @@ impl<T: Attribute> Decode for LosslessAttributeDecoder<T> {
             self.padding.set_bytes(Padding::new(value_len as usize));
         }
         if self.is_known {
-            bytecodec_try_decode!(self.known_value, offset, buf, eos);
+            if !self.known_value.is_idle() {
+                let size = track!(self.known_value.decode(&buf[offset..], eos))?;
+                self.known_bytes.extend(&buf[offset..offset + size]);
+                offset += size;
+                if !self.known_value.is_idle() {
+                    return Ok(offset);
+                }
+            }
         } else {
             bytecodec_try_decode!(self.unknown_value, offset, buf, eos);
         }
@@ -429,8 +464,10 @@ impl<T: Attribute> Decode for LosslessAttributeDecoder<T> {
         let _ = track!(self.value_len.finish_decoding())?;
         let padding = track!(self.padding.finish_decoding())?;
         if self.is_known {
+            let bytes = mem::take(&mut self.known_bytes);
             let value = track!(self.known_value.finish_decoding())?;
             Ok(LosslessAttribute::Known {
+                received: ReceivedValue::new(bytes, &value),
                 inner: value,
                 padding: Some(padding),
             })
@@ -511,8 +548,20 @@ impl<T: Attribute> Encode for LosslessAttributeEncoder<T> {
     fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
         track!(self.get_type.start_encoding(item.get_type().as_u16()))?;
         let padding = match item {
-            LosslessAttribute::Known { inner, padding } => {
-                track!(self.known_value.start_encoding(inner))?;
+            LosslessAttribute::Known {
+                inner,
+                padding,
+                received,
+            } => {
+                match received {
+                    Some(received)
+                        if track!(ReceivedValue::encode(&inner))? == received.encoded =>
+                    {
+                        let raw = RawAttribute::new(inner.get_type(), received.bytes);
+                        track!(self.unknown_value.start_encoding(raw))?;
+                    }
+                    _ => track!(self.known_value.start_encoding(inner))?,
+                }
                 padding
             }
             LosslessAttribute::Unknown { inner, padding } => {
-- 
2.43.0


From ad46c0f33f81aaac5c615a89010f9618e178208f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:28 +0000
Subject: [PATCH 12/13] fix: use fresh padding when a received attribute's
 value has got another length

The padding bytes of a received attribute are kept so that it can be sent on
unchanged. If its value got another length in the meantime (an attribute may
change itself in `after_decode` and `before_encode`), the old padding was still
used, and the message sent was not a multiple of four bytes long.
---
 src/attribute.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index 3fe3f12..4d6b14a 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -574,7 +574,11 @@ impl<T: Attribute> Encode for LosslessAttributeEncoder<T> {
             self.known_value.exact_requiring_bytes() + self.unknown_value.exact_requiring_bytes();
         track_assert!(value_len < 0x10000, ErrorKind::InvalidInput; value_len);
 
-        let padding = padding.unwrap_or_else(|| Padding::new(value_len as usize));
+        // The received padding does not fit if the value has got another length since then
+        let expected_padding = Padding::new(value_len as usize);
+        let padding = padding
+            .filter(|p| p.len == expected_padding.len)
+            .unwrap_or(expected_padding);
         track!(self.value_len.start_encoding(value_len as u16))?;
         track!(self.padding.start_encoding(padding))?;
         Ok(())
-- 
2.43.0


From cf1e70fe80781b919e2970436a020c58ae9979fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:12 +0000
Subject: [PATCH 13/13] fix: count characters, not bytes, in
 Software::new_static

---
 src/rfc5389/attributes.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rfc5389/attributes.rs b/src/rfc5389/attributes.rs
index 774da8c..7ceec32 100644
--- a/src/rfc5389/attributes.rs
+++ b/src/rfc5389/attributes.rs
@@ -676,7 +676,17 @@ impl Software {
     /// The length of `description` must be less than `128` characters.
     /// Panics if the string is longer.
     pub const fn new_static(description: &'static str) -> Self {
-        if description.len() >= 128 {
+        let bytes = description.as_bytes();
+        let mut i = 0;
+        let mut chars = 0;
+        while i < bytes.len() {
+            // Counts the first bytes of the characters
+            if bytes[i] & 0b1100_0000 != 0b1000_0000 {
+                chars += 1;
+            }
+            i += 1;
+        }
+        if chars >= 128 {
             panic!("Description for `Software` cannot be longer than 128 characters.");
         }
         Self {
-- 
2.43.0

