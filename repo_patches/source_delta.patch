From a603b132e2e1b3b490aa8258b68ede04b8331613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 01/18] fix: reject compound headers whose size does not cover
 the count field

---
 src/codec/decode.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index ac419d8..2408bc4 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -531,7 +531,7 @@ pub(crate) fn decode_map_header(
 
 fn decode_compound8(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseError> {
     decode_check_len!(input, 2);
-    let size = input[0] - 1; // -1 for 1 byte count
+    let size = input[0].checked_sub(1).ok_or(AmqpParseError::InvalidSize)?; // -1 for 1 byte count
     let count = input[1];
     Ok((
         &input[2..],
@@ -544,7 +544,9 @@ fn decode_compound8(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseEr
 
 fn decode_compound32(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseError> {
     decode_check_len!(input, 8);
-    let size = BigEndian::read_u32(input) - 4; // -4 for 4 byte count
+    let size = BigEndian::read_u32(input)
+        .checked_sub(4)
+        .ok_or(AmqpParseError::InvalidSize)?; // -4 for 4 byte count
     let count = BigEndian::read_u32(&input[4..]);
     Ok((&input[8..], CompoundHeader { size, count }))
 }
-- 
2.43.0


From c63a1bec8edec129cf38871b3773cf7a0902810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:01 +0000
Subject: [PATCH 02/18] fix: check map size against available input before
 slicing

---
 src/codec/decode.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 2408bc4..e926c76 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -253,7 +253,9 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
 {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         let (input, header) = decode_map_header(input, fmt)?;
-        let mut map_input = &input[..header.size as usize];
+        let size = header.size as usize;
+        decode_check_len!(input, size);
+        let mut map_input = &input[..size];
         let count = header.count / 2;
         let mut map: HashMap<K, V, S> =
             HashMap::with_capacity_and_hasher(count as usize, Default::default());
@@ -264,7 +266,7 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
             map.insert(key, value); // todo: ensure None returned?
         }
         // todo: validate map_input is empty
-        Ok((&input[header.size as usize..], map))
+        Ok((&input[size..], map))
     }
 }
 
@@ -286,7 +288,9 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
 impl DecodeFormatted for VecVariantMap {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         let (input, header) = decode_map_header(input, fmt)?;
-        let mut map_input = &input[..header.size as usize];
+        let size = header.size as usize;
+        decode_check_len!(input, size);
+        let mut map_input = &input[..size];
         let count = header.count / 2;
         let mut map = Vec::with_capacity(count as usize);
         for _ in 0..count {
@@ -296,7 +300,7 @@ impl DecodeFormatted for VecVariantMap {
             map.push((key, value)); // todo: ensure None returned?
         }
         // todo: validate map_input is empty
-        Ok((&input[header.size as usize..], VecVariantMap(map)))
+        Ok((&input[size..], VecVariantMap(map)))
     }
 }
 
-- 
2.43.0


From 69e9fd2520c18265e2cfa18b96f9daf7366cd802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 03/18] fix: check that array constructor byte is present

---
 src/codec/decode.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index e926c76..2235f45 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -273,6 +273,7 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
 impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         let (input, header) = decode_array_header(input, fmt)?;
+        decode_check_len!(input, 1);
         let item_fmt = input[0]; // todo: support descriptor
         let mut input = &input[1..];
         let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
-- 
2.43.0


From 575896991778b65f4c609e421dc49aefbce61e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:03 +0000
Subject: [PATCH 04/18] fix: honour declared size of lists and arrays when
 decoding

---
 src/codec/decode.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 2235f45..ade6bd5 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -273,6 +273,9 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
 impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         let (input, header) = decode_array_header(input, fmt)?;
+        let size = header.size as usize;
+        decode_check_len!(input, size);
+        let (input, remainder) = input.split_at(size);
         decode_check_len!(input, 1);
         let item_fmt = input[0]; // todo: support descriptor
         let mut input = &input[1..];
@@ -282,7 +285,7 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
             result.push(decoded);
             input = new_input;
         }
-        Ok((input, result))
+        Ok((remainder, result))
     }
 }
 
@@ -322,14 +325,17 @@ impl<T: ArrayDecode + DecodeFormatted> DecodeFormatted for Multiple<T> {
 
 impl DecodeFormatted for List {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
-        let (mut input, header) = decode_list_header(input, fmt)?;
+        let (input, header) = decode_list_header(input, fmt)?;
+        let size = header.size as usize;
+        decode_check_len!(input, size);
+        let (mut input, remainder) = input.split_at(size);
         let mut result: Vec<Variant> = Vec::with_capacity(header.count as usize);
         for _ in 0..header.count {
             let (new_input, decoded) = Variant::decode(input)?;
             result.push(decoded);
             input = new_input;
         }
-        Ok((input, List(result)))
+        Ok((remainder, List(result)))
     }
 }
 
-- 
2.43.0


From 173b5361d0dae83822b68c6059587bf49da12394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:04 +0000
Subject: [PATCH 05/18] fix: bound up-front allocation for compound values by
 available input

---
 src/codec/decode.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index ade6bd5..f3b9a93 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -258,7 +258,7 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
         let mut map_input = &input[..size];
         let count = header.count / 2;
         let mut map: HashMap<K, V, S> =
-            HashMap::with_capacity_and_hasher(count as usize, Default::default());
+            HashMap::with_capacity_and_hasher(std::cmp::min(count as usize, size), Default::default());
         for _ in 0..count {
             let (input1, key) = K::decode(map_input)?;
             let (input2, value) = V::decode(input1)?;
@@ -279,7 +279,8 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
         decode_check_len!(input, 1);
         let item_fmt = input[0]; // todo: support descriptor
         let mut input = &input[1..];
-        let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
+        let capacity = std::cmp::min(header.count as usize, input.len());
+        let mut result: Vec<T> = Vec::with_capacity(capacity);
         for _ in 0..header.count {
             let (new_input, decoded) = T::decode_with_format(input, item_fmt)?;
             result.push(decoded);
@@ -296,7 +297,7 @@ impl DecodeFormatted for VecVariantMap {
         decode_check_len!(input, size);
         let mut map_input = &input[..size];
         let count = header.count / 2;
-        let mut map = Vec::with_capacity(count as usize);
+        let mut map = Vec::with_capacity(std::cmp::min(count as usize, size));
         for _ in 0..count {
             let (input1, key) = Str::decode(map_input)?;
             let (input2, value) = Variant::decode(input1)?;
@@ -329,7 +330,8 @@ impl DecodeFormatted for List {
         let size = header.size as usize;
         decode_check_len!(input, size);
         let (mut input, remainder) = input.split_at(size);
-        let mut result: Vec<Variant> = Vec::with_capacity(header.count as usize);
+        let capacity = std::cmp::min(header.count as usize, input.len());
+        let mut result: Vec<Variant> = Vec::with_capacity(capacity);
         for _ in 0..header.count {
             let (new_input, decoded) = Variant::decode(input)?;
             result.push(decoded);
-- 
2.43.0


From c3e6db35139378e92508cc1a2e8d85d033f90569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:05 +0000
Subject: [PATCH 06/18] fix: reject frames whose size is smaller than the frame
 header

---
 src/io.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index aeeaa70..d57513b 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -3,7 +3,7 @@ use std::marker::PhantomData;
 use bytes::{BigEndian, BufMut, ByteOrder, BytesMut};
 use tokio_io::codec::{Decoder, Encoder};
 
-use super::errors::{AmqpCodecError, ProtocolIdError};
+use super::errors::{AmqpCodecError, AmqpParseError, ProtocolIdError};
 use super::framing::HEADER_LEN;
 use crate::codec::{Decode, Encode};
 use crate::protocol::ProtocolId;
@@ -50,6 +50,9 @@ impl<T: Decode + Encode> Decoder for AmqpCodec<T> {
                         return Ok(None);
                     }
                     let size = BigEndian::read_u32(src.as_ref()) as usize;
+                    if size < HEADER_LEN {
+                        return Err(AmqpParseError::InvalidSize.into());
+                    }
 
                     // todo: max frame size check
                     self.state = DecodeState::Frame(size - 4);
-- 
2.43.0


From 79b21e6a03ca162636a4f48373bc470da8a0698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 07/18] fix: keep frame boundaries in sync after a frame fails
 to decode

---
 src/io.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index d57513b..b70cb0b 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -72,12 +72,12 @@ impl<T: Decode + Encode> Decoder for AmqpCodec<T> {
                     }
 
                     let frame_buf = src.split_to(size);
+                    self.state = DecodeState::FrameHeader;
                     let (remainder, frame) = T::decode(frame_buf.as_ref())?;
                     if !remainder.is_empty() {
                         // todo: could it really happen?
                         return Err(AmqpCodecError::UnparsedBytesLeft);
                     }
-                    self.state = DecodeState::FrameHeader;
                     return Ok(Some(frame));
                 }
             }
-- 
2.43.0


From 9f34138057c7a37e25ed97bddb657bffe01a1efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 08/18] fix: encode lists with list format codes

---
 src/codec/encode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec/encode.rs b/src/codec/encode.rs
index 76be9ac..b15d747 100644
--- a/src/codec/encode.rs
+++ b/src/codec/encode.rs
@@ -611,11 +611,11 @@ impl Encode for List {
     fn encode(&self, buf: &mut BytesMut) {
         let size = list_encoded_size(self);
         if size + 1 > u8::MAX as usize {
-            buf.put_u8(codec::FORMATCODE_ARRAY32);
+            buf.put_u8(codec::FORMATCODE_LIST32);
             buf.put_u32_be((size + 4) as u32); // +4 for 4 byte count that follow
             buf.put_u32_be(self.len() as u32);
         } else {
-            buf.put_u8(codec::FORMATCODE_ARRAY8);
+            buf.put_u8(codec::FORMATCODE_LIST8);
             buf.put_u8((size + 1) as u8); // +1 for 1 byte count that follow
             buf.put_u8(self.len() as u8);
         }
-- 
2.43.0


From 5569766a339463e83478d97d5de62726eb8841d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 09/18] fix: use array32 when array8 size byte would overflow

---
 src/codec/encode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec/encode.rs b/src/codec/encode.rs
index b15d747..6684f8d 100644
--- a/src/codec/encode.rs
+++ b/src/codec/encode.rs
@@ -545,7 +545,7 @@ impl<T: ArrayEncode> Encode for Vec<T> {
     fn encoded_size(&self) -> usize {
         let content_size = array_encoded_size(self);
         // format_code + size + count + item constructor -- todo: support described ctor?
-        (if content_size + 1 > u8::MAX as usize {
+        (if content_size + 2 > u8::MAX as usize {
             10
         } else {
             4
@@ -555,7 +555,7 @@ impl<T: ArrayEncode> Encode for Vec<T> {
 
     fn encode(&self, buf: &mut BytesMut) {
         let size = array_encoded_size(self);
-        if size + 1 > u8::MAX as usize {
+        if size + 2 > u8::MAX as usize {
             buf.put_u8(codec::FORMATCODE_ARRAY32);
             buf.put_u32_be((size + 5) as u32); // +4 for 4 byte count and 1 byte item ctor that follow
             buf.put_u32_be(self.len() as u32);
-- 
2.43.0


From d28d930a716966844503000b63bb99bfb222da32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 10/18] fix: accept ulong0 encoding of numeric descriptors

---
 src/codec/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index f3b9a93..ad114c7 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -456,7 +456,7 @@ impl<T: DecodeFormatted> DecodeFormatted for Option<T> {
 impl DecodeFormatted for Descriptor {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         match fmt {
-            codec::FORMATCODE_SMALLULONG => {
+            codec::FORMATCODE_SMALLULONG | codec::FORMATCODE_ULONG_0 => {
                 u64::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Ulong(o)))
             }
             codec::FORMATCODE_ULONG => {
-- 
2.43.0


From 7a81842b1263e535b8b238484b8dc2b1c32fa263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:10 +0000
Subject: [PATCH 11/18] fix: do not count message header descriptor twice

---
 src/message/inmessage.rs  | 2 +-
 src/message/outmessage.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index 34b66b2..f5dfd52 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -216,7 +216,7 @@ impl Encode for InMessage {
         };
 
         if let Some(ref h) = self.header {
-            size += h.encoded_size() + SECTION_PREFIX_LENGTH;
+            size += h.encoded_size();
         }
         if let Some(ref da) = self.delivery_annotations {
             size += da.encoded_size() + SECTION_PREFIX_LENGTH;
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index 4e9e6fc..e9f80ac 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -208,7 +208,7 @@ impl Encode for OutMessage {
         };
 
         if let Some(ref h) = self.header {
-            size += h.encoded_size() + SECTION_PREFIX_LENGTH;
+            size += h.encoded_size();
         }
         if let Some(ref da) = self.delivery_annotations {
             size += da.encoded_size() + SECTION_PREFIX_LENGTH;
-- 
2.43.0


From ff714af7f866fe92c91599ceda94dc8c6b719631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:10 +0000
Subject: [PATCH 12/18] fix: invalidate cached message size in set_value

---
 src/message/inmessage.rs  | 1 +
 src/message/outmessage.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index f5dfd52..55596df 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -132,6 +132,7 @@ impl InMessage {
     /// Set message body value
     pub fn set_value<V: Into<Variant>>(mut self, v: V) -> Self {
         self.body.value = Some(v.into());
+        self.size.set(0);
         self
     }
 
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index e9f80ac..10b501f 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -124,6 +124,7 @@ impl OutMessage {
     /// Set message body value
     pub fn set_value<V: Into<Variant>>(mut self, v: V) -> Self {
         self.body.value = Some(v.into());
+        self.size.set(0);
         self
     }
 
-- 
2.43.0


From e7ddc290d5db97d38572614974dcf1dff663da58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 13/18] fix: return unconsumed input from message decode

---
 src/message/inmessage.rs  | 4 ++--
 src/message/outmessage.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index 55596df..e3f2be7 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -191,10 +191,10 @@ impl Decode for InMessage {
                     message.body.data.push(val);
                 }
             }
-            if buf.is_empty() {
+            input = buf;
+            if input.is_empty() {
                 break;
             }
-            input = buf;
         }
         Ok((input, message))
     }
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index 10b501f..4d3a43e 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -183,10 +183,10 @@ impl Decode for OutMessage {
                     message.body.data.push(val);
                 }
             }
-            if buf.is_empty() {
+            input = buf;
+            if input.is_empty() {
                 break;
             }
-            input = buf;
         }
         Ok((input, message))
     }
-- 
2.43.0


From 97e6bcbc6e003b6f38d43bf19c9bc906883f361e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:13 +0000
Subject: [PATCH 14/18] fix: exclude cached size from message equality

---
 src/message/inmessage.rs  | 16 +++++++++++++++-
 src/message/outmessage.rs | 16 +++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index e3f2be7..2cf7348 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -14,7 +14,7 @@ use super::body::MessageBody;
 use super::outmessage::OutMessage;
 use super::SECTION_PREFIX_LENGTH;
 
-#[derive(Debug, Clone, Default, PartialEq)]
+#[derive(Debug, Clone, Default)]
 pub struct InMessage {
     pub message_format: Option<MessageFormat>,
     header: Option<Header>,
@@ -27,6 +27,20 @@ pub struct InMessage {
     size: Cell<usize>,
 }
 
+impl PartialEq for InMessage {
+    fn eq(&self, other: &InMessage) -> bool {
+        // cached size is not part of the message
+        self.message_format == other.message_format
+            && self.header == other.header
+            && self.delivery_annotations == other.delivery_annotations
+            && self.message_annotations == other.message_annotations
+            && self.properties == other.properties
+            && self.application_properties == other.application_properties
+            && self.footer == other.footer
+            && self.body == other.body
+    }
+}
+
 impl InMessage {
     /// Create new message and set body
     pub fn with_body(body: Bytes) -> InMessage {
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index 4d3a43e..ada5238 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -10,7 +10,7 @@ use crate::types::{Descriptor, Str, Variant, VecVariantMap};
 use super::body::MessageBody;
 use super::SECTION_PREFIX_LENGTH;
 
-#[derive(Debug, Clone, Default, PartialEq)]
+#[derive(Debug, Clone, Default)]
 pub struct OutMessage {
     pub message_format: Option<MessageFormat>,
     header: Option<Header>,
@@ -23,6 +23,20 @@ pub struct OutMessage {
     size: Cell<usize>,
 }
 
+impl PartialEq for OutMessage {
+    fn eq(&self, other: &OutMessage) -> bool {
+        // cached size is not part of the message
+        self.message_format == other.message_format
+            && self.header == other.header
+            && self.delivery_annotations == other.delivery_annotations
+            && self.message_annotations == other.message_annotations
+            && self.properties == other.properties
+            && self.application_properties == other.application_properties
+            && self.footer == other.footer
+            && self.body == other.body
+    }
+}
+
 impl OutMessage {
     /// Create new message and set body
     pub fn with_body(body: Bytes) -> OutMessage {
-- 
2.43.0


From 057b4fd8dbe9dd17d0b30d903e7a7cb7743bfd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 15/18] fix: decode pre-epoch and out of range timestamps

---
 src/codec/decode.rs | 22 ++++++++++------------
 src/errors.rs       |  2 ++
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index ad114c7..ef232db 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -170,7 +170,9 @@ impl DecodeFormatted for char {
 impl DecodeFormatted for DateTime<Utc> {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         validate_code!(fmt, codec::FORMATCODE_TIMESTAMP);
-        be_read!(input, read_i64, 8).map(|(i, o)| (i, datetime_from_millis(o)))
+        let result: Result<(&[u8], i64), AmqpParseError> = be_read!(input, read_i64, 8);
+        let (i, o) = result?;
+        Ok((i, datetime_from_millis(o)?))
     }
 }
 
@@ -564,17 +566,13 @@ fn decode_compound32(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseE
     Ok((&input[8..], CompoundHeader { size, count }))
 }
 
-fn datetime_from_millis(millis: i64) -> DateTime<Utc> {
-    let seconds = millis / 1000;
-    if seconds < 0 {
-        // In order to handle time before 1970 correctly, we need to subtract a second
-        // and use the nanoseconds field to add it back. This is a result of the nanoseconds
-        // parameter being u32
-        let nanoseconds = ((1000 + (millis - (seconds * 1000))) * 1_000_000).abs() as u32;
-        Utc.timestamp(seconds - 1, nanoseconds)
-    } else {
-        let nanoseconds = ((millis - (seconds * 1000)) * 1_000_000).abs() as u32;
-        Utc.timestamp(seconds, nanoseconds)
+fn datetime_from_millis(millis: i64) -> Result<DateTime<Utc>, AmqpParseError> {
+    // euclidean division keeps the sub-second part positive for time before 1970
+    let seconds = millis.div_euclid(1000);
+    let nanoseconds = (millis.rem_euclid(1000) * 1_000_000) as u32;
+    match Utc.timestamp_opt(seconds, nanoseconds).single() {
+        Some(datetime) => Ok(datetime),
+        None => Err(AmqpParseError::InvalidTimestamp(millis)),
     }
 }
 
diff --git a/src/errors.rs b/src/errors.rs
index 1d7ff3b..e2680c3 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -13,6 +13,8 @@ pub enum AmqpParseError {
     InvalidFormatCode(u8),
     #[display(fmt = "Invalid value converting to char: {}", "_0")]
     InvalidChar(u32),
+    #[display(fmt = "Timestamp is out of range: {}", "_0")]
+    InvalidTimestamp(i64),
     #[display(fmt = "Unexpected descriptor: '{:?}'", "_0")]
     InvalidDescriptor(Descriptor),
     #[display(fmt = "Unexpected frame type: '{:?}'", "_0")]
-- 
2.43.0


From 1548edeab4a0f7d97d2f10b605b06b36af5db2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:15 +0000
Subject: [PATCH 16/18] fix: implement hash for maps

---
 src/types/variant.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/types/variant.rs b/src/types/variant.rs
index 6fd0f29..52c7150 100644
--- a/src/types/variant.rs
+++ b/src/types/variant.rs
@@ -136,8 +136,9 @@ impl VariantMap {
 }
 
 impl Hash for VariantMap {
-    fn hash<H: Hasher>(&self, _state: &mut H) {
-        unimplemented!()
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        // iteration order is unspecified, equal maps have equal length
+        self.map.len().hash(state)
     }
 }
 
-- 
2.43.0


From 88018408d5b9aaa1c70e7d62043e096ed3601565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 17/18] fix: order strings by content, consistently with
 equality

---
 src/types/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index e6a45e8..6cc77ab 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -1,4 +1,4 @@
-use std::{borrow, fmt, hash, ops};
+use std::{borrow, cmp, fmt, hash, ops};
 
 use bytes::Bytes;
 use string::{String, TryFrom};
@@ -70,7 +70,7 @@ impl List {
     }
 }
 
-#[derive(Clone, Eq, Ord, PartialOrd)]
+#[derive(Clone, Eq)]
 pub enum Str {
     ByteStr(String<Bytes>),
     Static(&'static str),
@@ -122,6 +122,18 @@ impl From<String<Bytes>> for Str {
     }
 }
 
+impl PartialOrd for Str {
+    fn partial_cmp(&self, other: &Str) -> Option<cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for Str {
+    fn cmp(&self, other: &Str) -> cmp::Ordering {
+        self.as_str().cmp(other.as_str())
+    }
+}
+
 impl hash::Hash for Str {
     fn hash<H: hash::Hasher>(&self, state: &mut H) {
         match self {
-- 
2.43.0


From d6c01fcf05e85c730d00c5d54ff812760a7ca70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 18/18] fix: compare static and shared strings without endless
 recursion

---
 src/types/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 6cc77ab..62d2d91 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -154,10 +154,17 @@ impl PartialEq<Str> for Str {
         match self {
             Str::ByteStr(s) => match other {
                 Str::ByteStr(o) => s == o,
-                Str::Static(o) => s == *o,
+                Str::Static(o) => {
+                    // comparing `String` with `str` directly never returns
+                    let t: &str = &*s;
+                    t == *o
+                }
             },
             Str::Static(s) => match other {
-                Str::ByteStr(o) => o == *s,
+                Str::ByteStr(o) => {
+                    let t: &str = &*o;
+                    t == *s
+                }
                 Str::Static(o) => s == o,
             },
         }
-- 
2.43.0

