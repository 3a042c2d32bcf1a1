From 16cf10ddac514b63844184cca5844e8e0d12ce8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:47 +0000
Subject: [PATCH 01/27] fix: treat varints longer than 10 bytes as malformed
 instead of overflowing the shift

---
 src/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 32632c4..408a1bf 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -677,7 +677,8 @@ where
         let mut result = 0u64;
         let mut idx = 0;
         loop {
-            if idx >= data.len() {
+            // A 64-bit varint is at most 10 bytes long.
+            if idx >= data.len() || idx >= 10 {
                 return None;
             }
 
-- 
2.43.0


From b511827c7fb7107e9535be43ecae427894020d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:47 +0000
Subject: [PATCH 02/27] fix: truncate varints to the field's width instead of
 panicking when out of range

---
 src/decode.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 408a1bf..858fd96 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -178,11 +178,12 @@ impl Value
                 try_read_8_bytes(data).map(|b| Value::Double(f64::from_le_bytes(b)))
             }
             ValueType::Float => try_read_4_bytes(data).map(|b| Value::Float(f32::from_le_bytes(b))),
-            ValueType::Int32 => i32::from_signed_varint(data).map(Value::Int32),
+            ValueType::Int32 => i64::from_signed_varint(data).map(|v| Value::Int32(v as i32)),
             ValueType::Int64 => i64::from_signed_varint(data).map(Value::Int64),
-            ValueType::UInt32 => u32::from_unsigned_varint(data).map(Value::UInt32),
+            ValueType::UInt32 => u64::from_unsigned_varint(data).map(|v| Value::UInt32(v as u32)),
             ValueType::UInt64 => u64::from_unsigned_varint(data).map(Value::UInt64),
-            ValueType::SInt32 => u32::from_unsigned_varint(data).map(|u| {
+            ValueType::SInt32 => u64::from_unsigned_varint(data).map(|u| {
+                let u = u as u32;
                 let (sign, sign_bit) = if u % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
                 let magnitude = (u / 2) as i32 + sign_bit;
                 Value::SInt32(sign * magnitude)
@@ -279,26 +280,27 @@ impl Value
                 read_packed! { Float @ b = try_read_4_bytes(&mut array) => f32::from_le_bytes(b) }
             }
             ValueType::Int32 => {
-                read_packed! { Int32 @ b = i32::from_signed_varint(&mut array) => b }
+                read_packed! { Int32 @ b = i64::from_signed_varint(&mut array) => b as i32 }
             }
             ValueType::Int64 => {
                 read_packed! { Int64 @ b = i64::from_signed_varint(&mut array) => b }
             }
             ValueType::UInt32 => {
-                read_packed! { UInt32 @ b = u32::from_signed_varint(&mut array) => b }
+                read_packed! { UInt32 @ b = u64::from_unsigned_varint(&mut array) => b as u32 }
             }
             ValueType::UInt64 => {
-                read_packed! { UInt64 @ b = u64::from_signed_varint(&mut array) => b }
+                read_packed! { UInt64 @ b = u64::from_unsigned_varint(&mut array) => b }
             }
             ValueType::SInt32 => {
-                read_packed! { SInt32 @ b = u32::from_signed_varint(&mut array) => {
+                read_packed! { SInt32 @ b = u64::from_unsigned_varint(&mut array) => {
+                    let b = b as u32;
                     let (sign, sign_bit) = if b % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
                     let magnitude = (b / 2) as i32 + sign_bit;
                     sign * magnitude
                 } }
             }
             ValueType::SInt64 => {
-                read_packed! { SInt64 @ b = u64::from_signed_varint(&mut array) => {
+                read_packed! { SInt64 @ b = u64::from_unsigned_varint(&mut array) => {
                     let (sign, sign_bit) = if b % 2 == 0 { (1i64, 0) } else { (-1i64, 1) };
                     let magnitude = (b / 2) as i64 + sign_bit;
                     sign * magnitude
@@ -317,7 +319,7 @@ impl Value
                 read_packed! { SFixed64 @ b = try_read_8_bytes(&mut array) => i64::from_le_bytes(b) }
             }
             ValueType::Bool => {
-                read_packed! { Bool @ b = u8::from_unsigned_varint(&mut array) => b != 0 }
+                read_packed! { Bool @ b = u64::from_unsigned_varint(&mut array) => b != 0 }
             }
             _ => panic!("Non-scalar type was handled as packed"),
         }
-- 
2.43.0


From f38e4c7de1fe95d7b46ee059343b065ffd0f28c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:47 +0000
Subject: [PATCH 03/27] fix: decode and encode sint values at the ends of their
 range without overflow

---
 src/decode.rs | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 858fd96..894acf3 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -184,14 +184,10 @@ impl Value
             ValueType::UInt64 => u64::from_unsigned_varint(data).map(Value::UInt64),
             ValueType::SInt32 => u64::from_unsigned_varint(data).map(|u| {
                 let u = u as u32;
-                let (sign, sign_bit) = if u % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
-                let magnitude = (u / 2) as i32 + sign_bit;
-                Value::SInt32(sign * magnitude)
+                Value::SInt32((u >> 1) as i32 ^ -((u & 1) as i32))
             }),
             ValueType::SInt64 => u64::from_unsigned_varint(data).map(|u| {
-                let (sign, sign_bit) = if u % 2 == 0 { (1i64, 0) } else { (-1i64, 1) };
-                let magnitude = (u / 2) as i64 + sign_bit;
-                Value::SInt64(sign * magnitude)
+                Value::SInt64((u >> 1) as i64 ^ -((u & 1) as i64))
             }),
             ValueType::Fixed32 => {
                 try_read_4_bytes(data).map(|b| Value::Fixed32(u32::from_le_bytes(b)))
@@ -294,16 +290,12 @@ impl Value
             ValueType::SInt32 => {
                 read_packed! { SInt32 @ b = u64::from_unsigned_varint(&mut array) => {
                     let b = b as u32;
-                    let (sign, sign_bit) = if b % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
-                    let magnitude = (b / 2) as i32 + sign_bit;
-                    sign * magnitude
+                    (b >> 1) as i32 ^ -((b & 1) as i32)
                 } }
             }
             ValueType::SInt64 => {
                 read_packed! { SInt64 @ b = u64::from_unsigned_varint(&mut array) => {
-                    let (sign, sign_bit) = if b % 2 == 0 { (1i64, 0) } else { (-1i64, 1) };
-                    let magnitude = (b / 2) as i64 + sign_bit;
-                    sign * magnitude
+                    (b >> 1) as i64 ^ -((b & 1) as i64)
                 } }
             }
             ValueType::Fixed32 => {
@@ -368,12 +360,10 @@ impl Value
             Value::UInt32(v) => BytesMut::from(v.into_unsigned_varint().as_ref()),
             Value::UInt64(v) => BytesMut::from(v.into_unsigned_varint().as_ref()),
             Value::SInt32(v) => {
-                let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                (v * 2 - sign_bit).into_unsigned_varint()
+                (((*v << 1) ^ (*v >> 31)) as u32).into_unsigned_varint()
             }
             Value::SInt64(v) => {
-                let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                (v * 2 - sign_bit).into_unsigned_varint()
+                (((*v << 1) ^ (*v >> 63)) as u64).into_unsigned_varint()
             }
             Value::Fixed32(v) => BytesMut::from(v.to_le_bytes().as_ref()),
             Value::Fixed64(v) => BytesMut::from(v.to_le_bytes().as_ref()),
@@ -469,14 +459,12 @@ impl PackedArray
             }
             PackedArray::SInt32(v) => {
                 write_packed! { v => |v| {
-                    let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                    (v * 2 - sign_bit).into_unsigned_varint()
+                    (((*v << 1) ^ (*v >> 31)) as u32).into_unsigned_varint()
                 } }
             }
             PackedArray::SInt64(v) => {
                 write_packed! { v => |v| {
-                    let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                    (v * 2 - sign_bit).into_unsigned_varint()
+                    (((*v << 1) ^ (*v >> 63)) as u64).into_unsigned_varint()
                 } }
             }
             PackedArray::Fixed32(v) => {
-- 
2.43.0


From 3559cc7bd51f9f90682d4042b3062ace54c9b47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:47 +0000
Subject: [PATCH 04/27] fix: consume the bytes reported as an incomplete
 unknown value

---
 src/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 894acf3..681e922 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -347,7 +347,7 @@ impl Value
 
         value
             .map(Value::Unknown)
-            .unwrap_or_else(|| Value::Incomplete(vt, Bytes::copy_from_slice(data)))
+            .unwrap_or_else(|| return_incomplete(data, vt, original))
     }
 
     fn encode(&self, ctx: &Context) -> Option<(u8, BytesMut)>
-- 
2.43.0


From ea404fc349a9665f868f40e899cdcd7b5e48586b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:47 +0000
Subject: [PATCH 05/27] fix: do not include the following fields in an
 incomplete packed array

---
 src/decode.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decode.rs b/src/decode.rs
index 681e922..2bcd486 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -247,6 +247,9 @@ impl Value
         let mut array = &data[..length];
         *data = &data[length..];
 
+        // The length prefix and the payload, without the fields following the array.
+        let original = &original[..original.len() - data.len()];
+
         // Reading the packed arrays follows very similar format for each type.  The variances are
         // in how to read the data from the stream and what to do with the data to get the final
         // value.
-- 
2.43.0


From 33bf5f9c2066163506760ea31099b1fbbb8252ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:18 +0000
Subject: [PATCH 06/27] fix: encode the trailing garbage of a message

---
 src/decode.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decode.rs b/src/decode.rs
index 2bcd486..869ffad 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -628,6 +628,7 @@ impl MessageValue
                 field_data.extend_from_slice(&bytes);
                 field_data
             })
+            .chain(self.garbage.iter().flatten().copied())
             .collect()
     }
 }
-- 
2.43.0


From eaa7fd04007164e66fc3ca5cfa07ed84e2edbcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:18 +0000
Subject: [PATCH 07/27] fix: accept both packed and unpacked encodings of
 repeated scalar fields

---
 src/context/api.rs |  6 ++++++
 src/decode.rs      | 13 +++++++------
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/context/api.rs b/src/context/api.rs
index ca871f6..4492b92 100644
--- a/src/context/api.rs
+++ b/src/context/api.rs
@@ -162,6 +162,12 @@ impl Service
 
 impl ValueType
 {
+    /// True for the types that have a `PackedArray` representation.
+    pub(crate) fn is_packable(&self) -> bool
+    {
+        !matches!(self, Self::Enum(..)) && self.wire_type() != 2
+    }
+
     pub(crate) fn wire_type(&self) -> u8
     {
         match self {
diff --git a/src/decode.rs b/src/decode.rs
index 869ffad..80605ff 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -588,12 +588,13 @@ impl MessageInfo
 
             let value = match self.get_field(number) {
                 Some(field) => {
-                    if field.multiplicity == Multiplicity::RepeatedPacked {
-                        if wire_type == 2 {
-                            Value::decode_packed(&mut data, wire_type, &field.field_type)
-                        } else {
-                            Value::decode_unknown(&mut data, wire_type)
-                        }
+                    // Repeated scalars may be packed or not, no matter how they are declared.
+                    let repeated = matches!(
+                        field.multiplicity,
+                        Multiplicity::Repeated | Multiplicity::RepeatedPacked
+                    );
+                    if repeated && wire_type == 2 && field.field_type.is_packable() {
+                        Value::decode_packed(&mut data, wire_type, &field.field_type)
                     } else if field.field_type.wire_type() == wire_type {
                         Value::decode(&mut data, wire_type, &field.field_type, ctx)
                     } else {
-- 
2.43.0


From 2ecb54d941ce7f4fa9087ae937d84c7f59e58ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:18 +0000
Subject: [PATCH 08/27] fix: limit the nesting depth of decoded messages to
 keep the stack from overflowing

---
 src/decode.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 80605ff..ca47fa8 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -8,6 +8,10 @@ use bytes::{Bytes, BytesMut};
 use std::convert::{TryFrom, TryInto};
 use std::fmt::Debug;
 
+/// Nesting depth after which messages are no longer decoded, to keep hostile payloads from
+/// exhausting the stack. The official Protocol Buffers implementations use the same limit.
+const MAX_NESTING_DEPTH: usize = 100;
+
 impl Context
 {
     /// Decode a message.
@@ -170,7 +174,7 @@ pub struct FieldValue
 
 impl Value
 {
-    fn decode(data: &mut &[u8], vt_raw: u8, vt: &ValueType, ctx: &Context) -> Self
+    fn decode(data: &mut &[u8], vt_raw: u8, vt: &ValueType, ctx: &Context, depth: usize) -> Self
     {
         let original = *data;
         let opt = match vt {
@@ -218,8 +222,15 @@ impl Value
                 let (consumed, remainder) = data.split_at(length);
                 *data = remainder;
 
+                if depth >= MAX_NESTING_DEPTH {
+                    return Some(Value::Unknown(UnknownValue::VariableLength(
+                        Bytes::copy_from_slice(consumed),
+                    )));
+                }
+
                 Some(Value::Message(Box::new(
-                    ctx.resolve_message(*mref).decode(consumed, ctx),
+                    ctx.resolve_message(*mref)
+                        .decode_nested(consumed, ctx, depth + 1),
                 )))
             }),
         };
@@ -562,7 +573,15 @@ impl MessageInfo
     /// Will **panic** if the message defined by the `MessageRef` does not exist in this context.
     /// Such panic means the `MessageRef` came from a different context. The panic is not
     /// guaranteed, as a message with an equal `MessageRef` may exist in multiple contexts.
-    pub fn decode(&self, mut data: &[u8], ctx: &Context) -> MessageValue
+    ///
+    /// Messages nested deeper than 100 levels are left undecoded as
+    /// [`UnknownValue::VariableLength`].
+    pub fn decode(&self, data: &[u8], ctx: &Context) -> MessageValue
+    {
+        self.decode_nested(data, ctx, 0)
+    }
+
+    fn decode_nested(&self, mut data: &[u8], ctx: &Context, depth: usize) -> MessageValue
     {
         let mut msg = MessageValue {
             msg_ref: self.self_ref,
@@ -596,7 +615,7 @@ impl MessageInfo
                     if repeated && wire_type == 2 && field.field_type.is_packable() {
                         Value::decode_packed(&mut data, wire_type, &field.field_type)
                     } else if field.field_type.wire_type() == wire_type {
-                        Value::decode(&mut data, wire_type, &field.field_type, ctx)
+                        Value::decode(&mut data, wire_type, &field.field_type, ctx, depth)
                     } else {
                         Value::decode_unknown(&mut data, wire_type)
                     }
-- 
2.43.0


From 500eda8c33207a154e4e90d83b1bb705d8b24500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:40 +0000
Subject: [PATCH 09/27] fix: accept empty statements at the top level of a file

---
 src/context/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 2291819..90cc0a5 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -52,6 +52,7 @@ impl PackageBuilder
                             Some(inner.into_inner().next().unwrap().as_str().to_string())
                     }
                     Rule::option => {}
+                    Rule::emptyStatement => {}
                     Rule::EOI => {}
                     r => unreachable!("{:?}: {:?}", r, inner),
                 }
-- 
2.43.0


From 7ec0d7e1ae95aba64ec1b286c0498758f514cadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:40 +0000
Subject: [PATCH 10/27] fix: report a service used as a field type as an error
 instead of panicking

---
 src/context/builder.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/context/builder.rs b/src/context/builder.rs
index 80d8563..6642c31 100644
--- a/src/context/builder.rs
+++ b/src/context/builder.rs
@@ -499,14 +499,21 @@ impl FieldTypeBuilder
                 let t = cache
                     .resolve_type(&s, &self_data.full_name)
                     .ok_or_else(|| ParseError::TypeNotFound {
-                        name: s,
+                        name: s.clone(),
                         context: self_data.full_name.to_string(),
                     })?;
 
                 match t.item_type {
                     ItemType::Message => ValueType::Message(MessageRef(InternalRef(t.final_idx))),
                     ItemType::Enum => ValueType::Enum(EnumRef(InternalRef(t.final_idx))),
-                    _ => unreachable!("Service as field type"),
+                    ItemType::Service => {
+                        return Err(ParseError::InvalidTypeKind {
+                            type_name: s,
+                            context: "field type",
+                            expected: ItemType::Message,
+                            actual: t.item_type,
+                        })
+                    }
                 }
             }
         })
-- 
2.43.0


From 89ccaee40f81db0f746c78fd0892c354b1b6a5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:40 +0000
Subject: [PATCH 11/27] fix: keep the options of services and rpcs

---
 src/context/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/context/builder.rs b/src/context/builder.rs
index 6642c31..04e7a1b 100644
--- a/src/context/builder.rs
+++ b/src/context/builder.rs
@@ -671,7 +671,7 @@ impl ServiceBuilder
             full_name: self_data.full_name.clone(),
             rpcs,
             rpcs_by_name,
-            options: vec![],
+            options: self.options,
         })
     }
 }
@@ -684,7 +684,7 @@ impl RpcBuilder
             name: self.name,
             input: self.input.build(self_data, cache)?,
             output: self.output.build(self_data, cache)?,
-            options: vec![],
+            options: self.options,
         })
     }
 }
-- 
2.43.0


From 9bbab3d30c8e33bf95a956787c43820c8c1fba63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:40 +0000
Subject: [PATCH 12/27] fix: do not match keywords and builtin types at the
 beginning of longer identifiers

---
 src/proto.pest | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/proto.pest b/src/proto.pest
index 789dca4..88c79b9 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -7,6 +7,7 @@ decimalDigit = { '0'..'9' }
 octalDigit = { '0'..'7' }
 hexDigit = { '0'..'9' | 'A'..'F' | 'a'..'f' }
 
+keywordEnd = _{ !( letter | decimalDigit | "_" ) }
 ident = @{ letter ~ ( letter | decimalDigit | "_" )* }
 fullIdent = { ident ~ ( "." ~ ident )* }
 messageName = { ident }
@@ -25,11 +26,12 @@ decimalLit = @{ '1'..'9' ~ decimalDigit* }
 octalLit = @{ "0" ~ octalDigit* }
 hexLit = @{ "0" ~ ( "x" | "X" ) ~ hexDigit+ }
 
-floatLit = { sign? ~ ( ( decimals ~ "." ~ decimals? ~ exponent? | decimals ~ exponent | "." ~ decimals ~ exponent? ) | "inf" | "nan" ) }
+floatLit = { sign? ~ ( ( decimals ~ "." ~ decimals? ~ exponent? | decimals ~ exponent | "." ~ decimals ~ exponent? ) | infOrNan ) }
+infOrNan = @{ ( "inf" | "nan" ) ~ keywordEnd }
 decimals = { decimalDigit+ }
 exponent = { ( "e" | "E" ) ~ sign? ~ decimals }
 
-boolLit = { "true" | "false" }
+boolLit = @{ ( "true" | "false" ) ~ keywordEnd }
 
 strLit = ${ "'" ~ charValueQuot* ~ "'" | "\"" ~ charValueDblQuot* ~ "\"" }
 charValueQuot = ${ hexEscape | octEscape | charEscape | !( "\0" | "\n" | "\\" | "'" ) ~ anyChar }
@@ -54,13 +56,13 @@ package = { "package" ~ fullIdent ~ ";" }
 option = { "option" ~ optionName ~ "=" ~ constant ~ ";" }
 optionName = { ( ident | "(" ~ fullIdent ~ ")" ) ~ ( "." ~ ident )* }
 
-type_ = { "double" | "float" | "int32" | "int64" | "uint32" | "uint64"
-    | "sint32" | "sint64" | "fixed32" | "fixed64" | "sfixed32" | "sfixed64"
-    | "bool" | "string" | "bytes" | messageType | enumType }
+// The builtin types are told apart by name when the field type is parsed. Listing them here as
+// literals would make them match the beginning of longer identifiers.
+type_ = { messageType | enumType }
 fieldNumber = { intLit }
 
-optional = { "optional" }
-repeated = { "repeated" }
+optional = @{ "optional" ~ keywordEnd }
+repeated = @{ "repeated" ~ keywordEnd }
 one_multiplicity = { repeated | optional }
 multiplicity = { one_multiplicity? }
 field = { multiplicity ~ type_ ~ fieldName ~ "=" ~ fieldNumber ~ ( "[" ~ fieldOptions ~ "]" )? ~ ";" }
@@ -88,7 +90,7 @@ message = { "message" ~ messageName ~ messageBody }
 messageBody = { "{" ~ ( field | enum_ | message | option | oneof | mapField | reserved | emptyStatement )* ~ "}" }
 
 service = { "service" ~ serviceName ~ "{" ~ ( option | rpc | emptyStatement )* ~ "}" }
-stream = { "stream" }
+stream = @{ "stream" ~ keywordEnd }
 opt_stream = { stream? }
 rpcParam = { opt_stream ~ messageType }
 rpc = { "rpc" ~ rpcName ~ "(" ~ rpcParam ~ ")" ~ "returns" ~ "(" ~ rpcParam ~ ")" ~ (( "{" ~ ( option | emptyStatement )* ~ "}" ) | ";") }
-- 
2.43.0


From cee7e07a4fc710efcd750fdeec76a0293025b2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:40 +0000
Subject: [PATCH 13/27] fix: ignore whitespace and comments within package and
 type names

---
 src/context/parse.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 90cc0a5..9c11d8d 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -48,8 +48,7 @@ impl PackageBuilder
                         .push(ProtobufItemBuilder::parse(inner)),
                     Rule::import => {}
                     Rule::package => {
-                        current_package.name =
-                            Some(inner.into_inner().next().unwrap().as_str().to_string())
+                        current_package.name = Some(parse_ident(inner.into_inner().next().unwrap()))
                     }
                     Rule::option => {}
                     Rule::emptyStatement => {}
@@ -194,7 +193,7 @@ impl FieldBuilder
             }
             None => Multiplicity::Single,
         };
-        let field_type = parse_field_type(inner.next().unwrap().as_str());
+        let field_type = parse_field_type(&parse_type_name(inner.next().unwrap()));
         let name = inner.next().unwrap().as_str().to_string();
         let number = parse_uint_literal(inner.next().unwrap());
 
@@ -215,7 +214,7 @@ impl FieldBuilder
     pub fn parse_oneof(p: Pair<Rule>) -> Self
     {
         let mut inner = p.into_inner();
-        let field_type = parse_field_type(inner.next().unwrap().as_str());
+        let field_type = parse_field_type(&parse_type_name(inner.next().unwrap()));
         let name = inner.next().unwrap().as_str().to_string();
         let number = parse_uint_literal(inner.next().unwrap());
 
@@ -258,6 +257,19 @@ impl OneofBuilder
     }
 }
 
+/// Parses a type name without the whitespace and comments that may surround its dots.
+fn parse_type_name(p: Pair<Rule>) -> String
+{
+    match p.as_rule() {
+        Rule::type_ => parse_type_name(p.into_inner().next().unwrap()),
+        _ => {
+            let root = if p.as_str().starts_with('.') { "." } else { "" };
+            let parts: Vec<_> = p.into_inner().map(|part| part.as_str()).collect();
+            format!("{}{}", root, parts.join("."))
+        }
+    }
+}
+
 fn parse_field_type(t: &str) -> FieldTypeBuilder
 {
     FieldTypeBuilder::Builtin(match t {
@@ -315,7 +327,7 @@ impl RpcArgBuilder
         let mut inner = p.into_inner();
         RpcArgBuilder {
             stream: inner.next().unwrap().into_inner().next().is_some(),
-            message: inner.next().unwrap().as_str().to_string(),
+            message: parse_type_name(inner.next().unwrap()),
         }
     }
 }
-- 
2.43.0


From 542b8de266c2208be8a65cbc47b82c9da26164f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:40 +0000
Subject: [PATCH 14/27] fix: parse floating point constants that start with a
 digit or have a detached sign

---
 src/context/parse.rs | 11 ++++++++++-
 src/proto.pest       |  5 +++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 9c11d8d..85dad50 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -375,7 +375,16 @@ pub fn parse_int_literal(p: Pair<Rule>) -> i64
 pub fn parse_float_literal(p: Pair<Rule>) -> f64
 {
     match p.as_rule() {
-        Rule::floatLit => p.as_str().parse::<f64>().unwrap(),
+        Rule::floatLit => {
+            let mut inner = p.into_inner();
+            let first = inner.next().unwrap();
+            match first.as_rule() {
+                Rule::sign if first.as_str() == "-" => -parse_float_literal(inner.next().unwrap()),
+                Rule::sign => parse_float_literal(inner.next().unwrap()),
+                _ => parse_float_literal(first),
+            }
+        }
+        Rule::floatValue => p.as_str().parse::<f64>().unwrap(),
         r => unreachable!("{:?}: {:?}", r, p),
     }
 }
diff --git a/src/proto.pest b/src/proto.pest
index 88c79b9..4457381 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -26,7 +26,8 @@ decimalLit = @{ '1'..'9' ~ decimalDigit* }
 octalLit = @{ "0" ~ octalDigit* }
 hexLit = @{ "0" ~ ( "x" | "X" ) ~ hexDigit+ }
 
-floatLit = { sign? ~ ( ( decimals ~ "." ~ decimals? ~ exponent? | decimals ~ exponent | "." ~ decimals ~ exponent? ) | infOrNan ) }
+floatLit = { sign? ~ floatValue }
+floatValue = @{ ( ( decimals ~ "." ~ decimals? ~ exponent? | decimals ~ exponent | "." ~ decimals ~ exponent? ) | infOrNan ) }
 infOrNan = @{ ( "inf" | "nan" ) ~ keywordEnd }
 decimals = { decimalDigit+ }
 exponent = { ( "e" | "E" ) ~ sign? ~ decimals }
@@ -47,7 +48,7 @@ quote = { "'" | "\"" }
 
 emptyStatement = { ";" }
 
-constant = { intLit | floatLit | strLit | boolLit | fullIdent }
+constant = { floatLit | intLit | strLit | boolLit | fullIdent }
 
 syntax = { "syntax" ~ "=" ~ quote ~ "proto3" ~ quote ~ ";" }
 import = { "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
-- 
2.43.0


From e49d83c5eb6c556fed36234704bb6ddf338c41ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:40 +0000
Subject: [PATCH 15/27] fix: tell options apart from message fields and enum
 values

---
 src/proto.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/proto.pest b/src/proto.pest
index 4457381..25bcfc0 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -83,12 +83,12 @@ range = { intLit ~ ( "to" ~ ( intLit | "max" ) )? }
 fieldNames = { fieldName ~ ( "," ~ fieldName )* }
 
 enum_ = { "enum" ~ enumName ~ enumBody }
-enumBody = { "{" ~ ( option | enumField | emptyStatement )* ~ "}" }
+enumBody = { "{" ~ ( enumField | option | emptyStatement )* ~ "}" }
 enumField = { ident ~ "=" ~ intLit ~ ( "[" ~ enumValueOption ~ ( "," ~ enumValueOption )* ~ "]" )* ~ ";" }
 enumValueOption = { optionName ~ "=" ~ constant }
 
 message = { "message" ~ messageName ~ messageBody }
-messageBody = { "{" ~ ( field | enum_ | message | option | oneof | mapField | reserved | emptyStatement )* ~ "}" }
+messageBody = { "{" ~ ( option | field | enum_ | message | oneof | mapField | reserved | emptyStatement )* ~ "}" }
 
 service = { "service" ~ serviceName ~ "{" ~ ( option | rpc | emptyStatement )* ~ "}" }
 stream = @{ "stream" ~ keywordEnd }
-- 
2.43.0


From 581a9a1a421452ed05ece109ff0e7d73361bdc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:40 +0000
Subject: [PATCH 16/27] fix: accept quoted reserved names and reserved
 statements in enums

---
 src/context/parse.rs | 1 +
 src/proto.pest       | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 85dad50..d75bdda 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -139,6 +139,7 @@ impl EnumBuilder
                     })
                 }
                 Rule::option => options.push(ProtoOption::parse(p)),
+                Rule::reserved => {} // We don't need to care about reserved values.
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
             }
diff --git a/src/proto.pest b/src/proto.pest
index 25bcfc0..3cc8266 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -80,10 +80,11 @@ keyType = { "int32" | "int64" | "uint32" | "uint64" | "sint32" | "sint64" |
 reserved = { "reserved" ~ ( ranges | fieldNames ) ~ ";" }
 ranges = { range ~ ( "," ~ range )* }
 range = { intLit ~ ( "to" ~ ( intLit | "max" ) )? }
-fieldNames = { fieldName ~ ( "," ~ fieldName )* }
+fieldNames = { reservedName ~ ( "," ~ reservedName )* }
+reservedName = { strLit | fieldName }
 
 enum_ = { "enum" ~ enumName ~ enumBody }
-enumBody = { "{" ~ ( enumField | option | emptyStatement )* ~ "}" }
+enumBody = { "{" ~ ( enumField | option | reserved | emptyStatement )* ~ "}" }
 enumField = { ident ~ "=" ~ intLit ~ ( "[" ~ enumValueOption ~ ( "," ~ enumValueOption )* ~ "]" )* ~ ";" }
 enumValueOption = { optionName ~ "=" ~ constant }
 
-- 
2.43.0


From e005317f63ecf955f5c054e815a5898d0f0fff69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:24 +0000
Subject: [PATCH 17/27] fix: accept octal escapes above \377 instead of
 panicking

---
 src/context/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index d75bdda..46a3d8b 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -466,7 +466,8 @@ fn parse_string_literal(s: Pair<Rule>) -> Bytes
             }
             Rule::octEscape => {
                 output.put_u8(
-                    u8::from_str_radix(c.into_inner().next().unwrap().as_str(), 8).unwrap(),
+                    // Three octal digits hold up to nine bits, only the lowest eight are used.
+                    u16::from_str_radix(c.into_inner().next().unwrap().as_str(), 8).unwrap() as u8,
                 );
             }
             Rule::charEscape => match c.into_inner().next().unwrap().as_str() {
-- 
2.43.0


From 1dade17aefea84a029d15f30d464f5b3cb554e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:24 +0000
Subject: [PATCH 18/27] fix: reject integer literals that cannot be represented
 instead of panicking

---
 src/context/parse.rs | 65 +++++++++++++++++++++++++++++++++-----------
 src/proto.pest       |  2 +-
 2 files changed, 50 insertions(+), 17 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 46a3d8b..80fef82 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -1,8 +1,10 @@
 use bytes::{BufMut, Bytes, BytesMut};
 use pest::{
+    error::{Error, ErrorVariant},
     iterators::{Pair, Pairs},
     Parser,
 };
+use std::num::ParseIntError;
 
 use super::builder::*;
 use super::*;
@@ -30,11 +32,32 @@ impl Context
     }
 }
 
+/// Rejects literals that follow the grammar but have no representation.
+fn check_literals(pairs: Pairs<Rule>) -> Result<Pairs<Rule>, Error<Rule>>
+{
+    for p in pairs.clone().flatten() {
+        let in_range = match p.as_rule() {
+            Rule::fieldNumber => try_parse_uint_literal(p.clone()).is_ok(),
+            Rule::intLit => try_parse_int_literal(p.clone()).is_ok(),
+            _ => true,
+        };
+        if !in_range {
+            let message = String::from("integer out of range");
+            return Err(Error::new_from_span(
+                ErrorVariant::CustomError { message },
+                p.as_span(),
+            ));
+        }
+    }
+    Ok(pairs)
+}
+
 impl PackageBuilder
 {
     pub fn parse_str(input: &str) -> Result<Self, ParseError>
     {
         let pairs = ProtoParser::parse(Rule::proto, input)
+            .and_then(check_literals)
             .map_err(|e| Box::new(e) as Box<dyn std::error::Error + Send + Sync>)
             .context(SyntaxError {})?;
 
@@ -334,16 +357,24 @@ impl RpcArgBuilder
 }
 
 pub fn parse_uint_literal(p: Pair<Rule>) -> u64
+{
+    try_parse_uint_literal(p).expect("Literal wasn't checked")
+}
+
+pub fn parse_int_literal(p: Pair<Rule>) -> i64
+{
+    try_parse_int_literal(p).expect("Literal wasn't checked")
+}
+
+fn try_parse_uint_literal(p: Pair<Rule>) -> Result<u64, ParseIntError>
 {
     match p.as_rule() {
-        Rule::fieldNumber => parse_uint_literal(p.into_inner().next().unwrap()),
-        Rule::intLit => {
-            let mut inner = p.into_inner();
-            let lit = inner.next().unwrap();
+        Rule::fieldNumber => {
+            let lit = p.into_inner().next().unwrap();
             match lit.as_rule() {
-                Rule::decimalLit => str::parse(lit.as_str()).unwrap(),
-                Rule::octalLit => u64::from_str_radix(&lit.as_str()[1..], 8).unwrap(),
-                Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16).unwrap(),
+                Rule::decimalLit => str::parse(lit.as_str()),
+                Rule::octalLit => u64::from_str_radix(lit.as_str(), 8),
+                Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16),
                 r => unreachable!("{:?}: {:?}", r, lit),
             }
         }
@@ -351,23 +382,25 @@ pub fn parse_uint_literal(p: Pair<Rule>) -> u64
     }
 }
 
-pub fn parse_int_literal(p: Pair<Rule>) -> i64
+fn try_parse_int_literal(p: Pair<Rule>) -> Result<i64, ParseIntError>
 {
     match p.as_rule() {
         Rule::intLit => {
             let mut inner = p.into_inner();
             let sign = inner.next().unwrap();
             let (sign, lit) = match sign.as_rule() {
-                Rule::sign if sign.as_str() == "-" => (-1, inner.next().unwrap()),
-                Rule::sign if sign.as_str() == "+" => (1, inner.next().unwrap()),
-                _ => (1, sign),
+                Rule::sign if sign.as_str() == "-" => ("-", inner.next().unwrap()),
+                Rule::sign if sign.as_str() == "+" => ("", inner.next().unwrap()),
+                _ => ("", sign),
             };
-            match lit.as_rule() {
-                Rule::decimalLit => sign * str::parse::<i64>(lit.as_str()).unwrap(),
-                Rule::octalLit => sign * i64::from_str_radix(lit.as_str(), 8).unwrap(),
-                Rule::hexLit => sign * i64::from_str_radix(&lit.as_str()[2..], 16).unwrap(),
+            // The sign is parsed with the digits, as -i64::MIN isn't a valid i64 value.
+            let (radix, digits) = match lit.as_rule() {
+                Rule::decimalLit => (10, lit.as_str()),
+                Rule::octalLit => (8, lit.as_str()),
+                Rule::hexLit => (16, &lit.as_str()[2..]),
                 r => unreachable!("{:?}: {:?}", r, lit),
-            }
+            };
+            i64::from_str_radix(&format!("{}{}", sign, digits), radix)
         }
         r => unreachable!("{:?}: {:?}", r, p),
     }
diff --git a/src/proto.pest b/src/proto.pest
index 3cc8266..75e97fb 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -60,7 +60,7 @@ optionName = { ( ident | "(" ~ fullIdent ~ ")" ) ~ ( "." ~ ident )* }
 // The builtin types are told apart by name when the field type is parsed. Listing them here as
 // literals would make them match the beginning of longer identifiers.
 type_ = { messageType | enumType }
-fieldNumber = { intLit }
+fieldNumber = { hexLit | octalLit | decimalLit }
 
 optional = @{ "optional" ~ keywordEnd }
 repeated = @{ "repeated" ~ keywordEnd }
-- 
2.43.0


From 870ba03ff02ff47aca2bbdadf69d3bce0392184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:24 +0000
Subject: [PATCH 19/27] fix: report unsupported map fields as a syntax error
 instead of panicking

---
 src/context/parse.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 80fef82..92e6792 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -32,17 +32,24 @@ impl Context
     }
 }
 
-/// Rejects literals that follow the grammar but have no representation.
-fn check_literals(pairs: Pairs<Rule>) -> Result<Pairs<Rule>, Error<Rule>>
+/// Rejects literals and fields that follow the grammar but have no representation.
+fn check_supported(pairs: Pairs<Rule>) -> Result<Pairs<Rule>, Error<Rule>>
 {
     for p in pairs.clone().flatten() {
-        let in_range = match p.as_rule() {
-            Rule::fieldNumber => try_parse_uint_literal(p.clone()).is_ok(),
-            Rule::intLit => try_parse_int_literal(p.clone()).is_ok(),
-            _ => true,
+        let (valid, message) = match p.as_rule() {
+            Rule::fieldNumber => (
+                try_parse_uint_literal(p.clone()).is_ok(),
+                "integer out of range",
+            ),
+            Rule::intLit => (
+                try_parse_int_literal(p.clone()).is_ok(),
+                "integer out of range",
+            ),
+            Rule::mapField => (false, "maps are not supported"),
+            _ => (true, ""),
         };
-        if !in_range {
-            let message = String::from("integer out of range");
+        if !valid {
+            let message = message.to_string();
             return Err(Error::new_from_span(
                 ErrorVariant::CustomError { message },
                 p.as_span(),
@@ -57,7 +64,7 @@ impl PackageBuilder
     pub fn parse_str(input: &str) -> Result<Self, ParseError>
     {
         let pairs = ProtoParser::parse(Rule::proto, input)
-            .and_then(check_literals)
+            .and_then(check_supported)
             .map_err(|e| Box::new(e) as Box<dyn std::error::Error + Send + Sync>)
             .context(SyntaxError {})?;
 
@@ -124,7 +131,7 @@ impl MessageBuilder
                 }
                 Rule::option => options.push(ProtoOption::parse(p)),
                 Rule::oneof => oneofs.push(OneofBuilder::parse(p)),
-                Rule::mapField => unimplemented!("Maps are not supported"),
+                Rule::mapField => unreachable!("Maps are rejected before building the message"),
                 Rule::reserved => {} // We don't need to care about reserved field numbers.
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
-- 
2.43.0


From b7cde8a967742c23ea9b977fc9d1cf006c2849ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:24 +0000
Subject: [PATCH 20/27] fix: reject oneofs with fields that already belong to a
 oneof

---
 src/context/mod.rs        | 7 +++++++
 src/context/modify_api.rs | 8 ++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/context/mod.rs b/src/context/mod.rs
index 518e150..8701d53 100644
--- a/src/context/mod.rs
+++ b/src/context/mod.rs
@@ -130,6 +130,13 @@ pub enum OneofInsertError
         /// Field number the Oneof referenced.
         field: u64,
     },
+
+    /// The oneof refers to a field that is already part of a oneof.
+    FieldConflict
+    {
+        /// Field number the Oneof referenced.
+        field: u64,
+    },
 }
 
 /// Type reference that references either message or enum type.
diff --git a/src/context/modify_api.rs b/src/context/modify_api.rs
index 2a80035..5e51c57 100644
--- a/src/context/modify_api.rs
+++ b/src/context/modify_api.rs
@@ -184,10 +184,14 @@ impl MessageInfo
         }
 
         // Ensure none of the existing fields are part of oneofs.
-        for f in &oneof.fields {
-            self.fields
+        for (i, f) in oneof.fields.iter().enumerate() {
+            let field = self
+                .fields
                 .get(f)
                 .ok_or(OneofInsertError::FieldNotFound { field: *f })?;
+            if field.oneof.is_some() || oneof.fields[..i].contains(f) {
+                return Err(OneofInsertError::FieldConflict { field: *f });
+            }
         }
 
         // From here on we're making changes to self.
-- 
2.43.0


From 97d82fbd878d6f220557547fb3654f6d657e67c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:58 +0000
Subject: [PATCH 21/27] fix: accept dotted constants that begin with true,
 false, inf or nan

---
 src/proto.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto.pest b/src/proto.pest
index 75e97fb..b7dda4e 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -48,7 +48,7 @@ quote = { "'" | "\"" }
 
 emptyStatement = { ";" }
 
-constant = { floatLit | intLit | strLit | boolLit | fullIdent }
+constant = { ( floatLit | intLit | strLit | boolLit ) ~ !"." | fullIdent }
 
 syntax = { "syntax" ~ "=" ~ quote ~ "proto3" ~ quote ~ ";" }
 import = { "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
-- 
2.43.0


From 50b08db4e827dde43ac3181bba1e63a9bc710a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:44 +0000
Subject: [PATCH 22/27] fix: reject messages nested too deeply instead of
 overflowing the stack

---
 src/context/parse.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 92e6792..36fbb31 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -32,11 +32,27 @@ impl Context
     }
 }
 
-/// Rejects literals and fields that follow the grammar but have no representation.
+/// Deepest supported nesting of message declarations.
+const MAX_MESSAGE_DEPTH: usize = 100;
+
+/// Rejects literals, fields and nesting that follow the grammar but have no representation.
 fn check_supported(pairs: Pairs<Rule>) -> Result<Pairs<Rule>, Error<Rule>>
 {
+    // End positions of the messages around the current pair.
+    let mut open_messages: Vec<usize> = vec![];
     for p in pairs.clone().flatten() {
         let (valid, message) = match p.as_rule() {
+            Rule::message => {
+                let span = p.as_span();
+                while open_messages.last().map_or(false, |end| *end <= span.start()) {
+                    open_messages.pop();
+                }
+                open_messages.push(span.end());
+                (
+                    open_messages.len() <= MAX_MESSAGE_DEPTH,
+                    "messages nested too deeply",
+                )
+            }
             Rule::fieldNumber => (
                 try_parse_uint_literal(p.clone()).is_ok(),
                 "integer out of range",
-- 
2.43.0


From 69f0056e153890c5361b21a1df8d84029293df15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 23/27] fix: reject inserted types whose full name a service
 has

---
 src/context/mod.rs        | 7 +++++++
 src/context/modify_api.rs | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/src/context/mod.rs b/src/context/mod.rs
index 8701d53..862e650 100644
--- a/src/context/mod.rs
+++ b/src/context/mod.rs
@@ -99,6 +99,13 @@ pub enum InsertError
         /// The previous type that conflicts with the new one.
         original: TypeRef,
     },
+
+    /// A type conflicts with an existing service.
+    ServiceExists
+    {
+        /// The service that conflicts with the new type.
+        original: ServiceRef,
+    },
 }
 
 /// Error modifying a type.
diff --git a/src/context/modify_api.rs b/src/context/modify_api.rs
index 5e51c57..261ddf6 100644
--- a/src/context/modify_api.rs
+++ b/src/context/modify_api.rs
@@ -60,6 +60,11 @@ impl Context
             TypeInfo::Enum(e) => e.full_name = full_name.clone(),
         }
 
+        if let Some(service) = self.get_service(&full_name) {
+            let original = service.self_ref;
+            return Err(InsertError::ServiceExists { original });
+        }
+
         let vacant = match self.types_by_name.entry(full_name) {
             Entry::Occupied(occupied) => {
                 let original_ref = InternalRef(*occupied.get());
-- 
2.43.0


From 5da861cc8cf48e6bd82cbbfc9e5907ab7f77c690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 24/27] fix: keywords and numbers end where their word ends

`messageA {}`, `reservedA;` and `reserved 1to5;` were read as if there
was whitespace between the keyword or number and what follows it.
---
 src/proto.pest | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/proto.pest b/src/proto.pest
index b7dda4e..4eba79a 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -8,6 +8,9 @@ octalDigit = { '0'..'7' }
 hexDigit = { '0'..'9' | 'A'..'F' | 'a'..'f' }
 
 keywordEnd = _{ !( letter | decimalDigit | "_" ) }
+// Keywords that a name or a number may follow. Whether the word ends there is looked up ahead of
+// the keyword, as whitespace may follow the keyword itself in the rules that use these.
+keyword = @{ ( "import" | "package" | "option" | "oneof" | "reserved" | "to" | "enum" | "message" | "service" | "rpc" ) ~ keywordEnd }
 ident = @{ letter ~ ( letter | decimalDigit | "_" )* }
 fullIdent = { ident ~ ( "." ~ ident )* }
 messageName = { ident }
@@ -22,9 +25,9 @@ enumType = { "."? ~ ( ident ~ "." )* ~ enumName }
 
 sign = { "-" | "+" }
 intLit = { sign? ~ ( hexLit | octalLit | decimalLit ) }
-decimalLit = @{ '1'..'9' ~ decimalDigit* }
-octalLit = @{ "0" ~ octalDigit* }
-hexLit = @{ "0" ~ ( "x" | "X" ) ~ hexDigit+ }
+decimalLit = @{ '1'..'9' ~ decimalDigit* ~ keywordEnd }
+octalLit = @{ "0" ~ octalDigit* ~ keywordEnd }
+hexLit = @{ "0" ~ ( "x" | "X" ) ~ hexDigit+ ~ keywordEnd }
 
 floatLit = { sign? ~ floatValue }
 floatValue = @{ ( ( decimals ~ "." ~ decimals? ~ exponent? | decimals ~ exponent | "." ~ decimals ~ exponent? ) | infOrNan ) }
@@ -51,10 +54,10 @@ emptyStatement = { ";" }
 constant = { ( floatLit | intLit | strLit | boolLit ) ~ !"." | fullIdent }
 
 syntax = { "syntax" ~ "=" ~ quote ~ "proto3" ~ quote ~ ";" }
-import = { "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
-package = { "package" ~ fullIdent ~ ";" }
+import = { &keyword ~ "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
+package = { &keyword ~ "package" ~ fullIdent ~ ";" }
 
-option = { "option" ~ optionName ~ "=" ~ constant ~ ";" }
+option = { &keyword ~ "option" ~ optionName ~ "=" ~ constant ~ ";" }
 optionName = { ( ident | "(" ~ fullIdent ~ ")" ) ~ ( "." ~ ident )* }
 
 // The builtin types are told apart by name when the field type is parsed. Listing them here as
@@ -70,32 +73,32 @@ field = { multiplicity ~ type_ ~ fieldName ~ "=" ~ fieldNumber ~ ( "[" ~ fieldOp
 fieldOptions = { fieldOption ~ ( "," ~ fieldOption )* }
 fieldOption = { optionName ~ "=" ~ constant }
 
-oneof = { "oneof" ~ oneofName ~ "{" ~ ( option | oneofField | emptyStatement )* ~ "}" }
+oneof = { &keyword ~ "oneof" ~ oneofName ~ "{" ~ ( option | oneofField | emptyStatement )* ~ "}" }
 oneofField = { type_ ~ fieldName ~ "=" ~ fieldNumber ~ ( "[" ~ fieldOptions ~ "]" )? ~ ";" }
 
 mapField = { "map" ~ "<" ~ keyType ~ "," ~ type_ ~ ">" ~ mapName ~ "=" ~ fieldNumber ~ ( "[" ~ fieldOptions ~ "]" )? ~ ";" }
 keyType = { "int32" | "int64" | "uint32" | "uint64" | "sint32" | "sint64" |
           "fixed32" | "fixed64" | "sfixed32" | "sfixed64" | "bool" | "string" }
 
-reserved = { "reserved" ~ ( ranges | fieldNames ) ~ ";" }
+reserved = { &keyword ~ "reserved" ~ ( ranges | fieldNames ) ~ ";" }
 ranges = { range ~ ( "," ~ range )* }
-range = { intLit ~ ( "to" ~ ( intLit | "max" ) )? }
+range = { intLit ~ ( &keyword ~ "to" ~ ( intLit | "max" ) )? }
 fieldNames = { reservedName ~ ( "," ~ reservedName )* }
 reservedName = { strLit | fieldName }
 
-enum_ = { "enum" ~ enumName ~ enumBody }
+enum_ = { &keyword ~ "enum" ~ enumName ~ enumBody }
 enumBody = { "{" ~ ( enumField | option | reserved | emptyStatement )* ~ "}" }
 enumField = { ident ~ "=" ~ intLit ~ ( "[" ~ enumValueOption ~ ( "," ~ enumValueOption )* ~ "]" )* ~ ";" }
 enumValueOption = { optionName ~ "=" ~ constant }
 
-message = { "message" ~ messageName ~ messageBody }
+message = { &keyword ~ "message" ~ messageName ~ messageBody }
 messageBody = { "{" ~ ( option | field | enum_ | message | oneof | mapField | reserved | emptyStatement )* ~ "}" }
 
-service = { "service" ~ serviceName ~ "{" ~ ( option | rpc | emptyStatement )* ~ "}" }
+service = { &keyword ~ "service" ~ serviceName ~ "{" ~ ( option | rpc | emptyStatement )* ~ "}" }
 stream = @{ "stream" ~ keywordEnd }
 opt_stream = { stream? }
 rpcParam = { opt_stream ~ messageType }
-rpc = { "rpc" ~ rpcName ~ "(" ~ rpcParam ~ ")" ~ "returns" ~ "(" ~ rpcParam ~ ")" ~ (( "{" ~ ( option | emptyStatement )* ~ "}" ) | ";") }
+rpc = { &keyword ~ "rpc" ~ rpcName ~ "(" ~ rpcParam ~ ")" ~ "returns" ~ "(" ~ rpcParam ~ ")" ~ (( "{" ~ ( option | emptyStatement )* ~ "}" ) | ";") }
 
 proto = { SOI ~ BOM? ~ syntax ~ ( import | package | option | topLevelDef | emptyStatement )* ~ EOI }
 topLevelDef = { message | enum_ | service }
-- 
2.43.0


From cc7e5047039563d9f390f89d58886050734cbc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 25/27] fix: the quotes of the syntax statement match and hold
 nothing but proto3

`syntax = "proto3';` and `syntax = " proto3 ";` were accepted.
---
 src/proto.pest | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/proto.pest b/src/proto.pest
index 4eba79a..7079eb9 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -47,13 +47,12 @@ octByte = ${ octalDigit ~ octalDigit? ~ octalDigit? }
 charEscape = ${ "\\" ~ escapeChar }
 escapeChar = { "a" | "b" | "f" | "n" | "r" | "t" | "v" | "\\" | "'" | "\"" }
 anyChar = ${ ANY }
-quote = { "'" | "\"" }
 
 emptyStatement = { ";" }
 
 constant = { ( floatLit | intLit | strLit | boolLit ) ~ !"." | fullIdent }
 
-syntax = { "syntax" ~ "=" ~ quote ~ "proto3" ~ quote ~ ";" }
+syntax = { "syntax" ~ "=" ~ ( "'proto3'" | "\"proto3\"" ) ~ ";" }
 import = { &keyword ~ "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
 package = { &keyword ~ "package" ~ fullIdent ~ ";" }
 
-- 
2.43.0


From dbe8e5715b7efec51ed55afe68220888af8d4519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 26/27] fix: enum values take no plus sign and a single list of
 options

`A = +1;`, `A = 1 [a = 1] [b = 2];` and `reserved +1;` were accepted.
---
 src/proto.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/proto.pest b/src/proto.pest
index 7079eb9..706087f 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -81,13 +81,13 @@ keyType = { "int32" | "int64" | "uint32" | "uint64" | "sint32" | "sint64" |
 
 reserved = { &keyword ~ "reserved" ~ ( ranges | fieldNames ) ~ ";" }
 ranges = { range ~ ( "," ~ range )* }
-range = { intLit ~ ( &keyword ~ "to" ~ ( intLit | "max" ) )? }
+range = { !"+" ~ intLit ~ ( &keyword ~ "to" ~ ( !"+" ~ intLit | "max" ) )? }
 fieldNames = { reservedName ~ ( "," ~ reservedName )* }
 reservedName = { strLit | fieldName }
 
 enum_ = { &keyword ~ "enum" ~ enumName ~ enumBody }
 enumBody = { "{" ~ ( enumField | option | reserved | emptyStatement )* ~ "}" }
-enumField = { ident ~ "=" ~ intLit ~ ( "[" ~ enumValueOption ~ ( "," ~ enumValueOption )* ~ "]" )* ~ ";" }
+enumField = { ident ~ "=" ~ !"+" ~ intLit ~ ( "[" ~ enumValueOption ~ ( "," ~ enumValueOption )* ~ "]" )? ~ ";" }
 enumValueOption = { optionName ~ "=" ~ constant }
 
 message = { &keyword ~ "message" ~ messageName ~ messageBody }
-- 
2.43.0


From 08514fcc87f8e2d63007c8301c5879fc253fa2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:29 +0000
Subject: [PATCH 27/27] fix: a byte order mark is accepted at the very start of
 a file only

It was also accepted after white space and comments, as they may stand
between `SOI` and what follows it.
---
 src/proto.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto.pest b/src/proto.pest
index 706087f..5a54ee2 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -99,5 +99,5 @@ opt_stream = { stream? }
 rpcParam = { opt_stream ~ messageType }
 rpc = { &keyword ~ "rpc" ~ rpcName ~ "(" ~ rpcParam ~ ")" ~ "returns" ~ "(" ~ rpcParam ~ ")" ~ (( "{" ~ ( option | emptyStatement )* ~ "}" ) | ";") }
 
-proto = { SOI ~ BOM? ~ syntax ~ ( import | package | option | topLevelDef | emptyStatement )* ~ EOI }
+proto = { BOM? ~ syntax ~ ( import | package | option | topLevelDef | emptyStatement )* ~ EOI }
 topLevelDef = { message | enum_ | service }
-- 
2.43.0

