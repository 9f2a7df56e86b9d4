From 3722b6e04221fa4d081eab5cfc91d9edfcb4ac0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 01/24] fix: don't overflow the shift on varints longer than 10
 bytes

---
 src/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 32632c4..e13ddb7 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -677,7 +677,8 @@ where
         let mut result = 0u64;
         let mut idx = 0;
         loop {
-            if idx >= data.len() {
+            // A varint is at most 10 bytes long.
+            if idx >= data.len() || idx >= 10 {
                 return None;
             }
 
-- 
2.43.0


From a7a344e9133961cc12a4d7a86411dd854368d2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 02/24] fix: truncate out of range varints instead of panicking

Varints wider than the field type are valid on the wire and are truncated to
the size of the type.
---
 src/decode.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index e13ddb7..8df1db8 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -178,11 +178,12 @@ impl Value
                 try_read_8_bytes(data).map(|b| Value::Double(f64::from_le_bytes(b)))
             }
             ValueType::Float => try_read_4_bytes(data).map(|b| Value::Float(f32::from_le_bytes(b))),
-            ValueType::Int32 => i32::from_signed_varint(data).map(Value::Int32),
+            ValueType::Int32 => i64::from_signed_varint(data).map(|v| Value::Int32(v as i32)),
             ValueType::Int64 => i64::from_signed_varint(data).map(Value::Int64),
-            ValueType::UInt32 => u32::from_unsigned_varint(data).map(Value::UInt32),
+            ValueType::UInt32 => u64::from_unsigned_varint(data).map(|v| Value::UInt32(v as u32)),
             ValueType::UInt64 => u64::from_unsigned_varint(data).map(Value::UInt64),
-            ValueType::SInt32 => u32::from_unsigned_varint(data).map(|u| {
+            ValueType::SInt32 => u64::from_unsigned_varint(data).map(|u| {
+                let u = u as u32;
                 let (sign, sign_bit) = if u % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
                 let magnitude = (u / 2) as i32 + sign_bit;
                 Value::SInt32(sign * magnitude)
@@ -279,26 +280,27 @@ impl Value
                 read_packed! { Float @ b = try_read_4_bytes(&mut array) => f32::from_le_bytes(b) }
             }
             ValueType::Int32 => {
-                read_packed! { Int32 @ b = i32::from_signed_varint(&mut array) => b }
+                read_packed! { Int32 @ b = i64::from_signed_varint(&mut array) => b as i32 }
             }
             ValueType::Int64 => {
                 read_packed! { Int64 @ b = i64::from_signed_varint(&mut array) => b }
             }
             ValueType::UInt32 => {
-                read_packed! { UInt32 @ b = u32::from_signed_varint(&mut array) => b }
+                read_packed! { UInt32 @ b = u64::from_unsigned_varint(&mut array) => b as u32 }
             }
             ValueType::UInt64 => {
-                read_packed! { UInt64 @ b = u64::from_signed_varint(&mut array) => b }
+                read_packed! { UInt64 @ b = u64::from_unsigned_varint(&mut array) => b }
             }
             ValueType::SInt32 => {
-                read_packed! { SInt32 @ b = u32::from_signed_varint(&mut array) => {
+                read_packed! { SInt32 @ b = u64::from_unsigned_varint(&mut array) => {
+                    let b = b as u32;
                     let (sign, sign_bit) = if b % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
                     let magnitude = (b / 2) as i32 + sign_bit;
                     sign * magnitude
                 } }
             }
             ValueType::SInt64 => {
-                read_packed! { SInt64 @ b = u64::from_signed_varint(&mut array) => {
+                read_packed! { SInt64 @ b = u64::from_unsigned_varint(&mut array) => {
                     let (sign, sign_bit) = if b % 2 == 0 { (1i64, 0) } else { (-1i64, 1) };
                     let magnitude = (b / 2) as i64 + sign_bit;
                     sign * magnitude
@@ -317,7 +319,7 @@ impl Value
                 read_packed! { SFixed64 @ b = try_read_8_bytes(&mut array) => i64::from_le_bytes(b) }
             }
             ValueType::Bool => {
-                read_packed! { Bool @ b = u8::from_unsigned_varint(&mut array) => b != 0 }
+                read_packed! { Bool @ b = u64::from_unsigned_varint(&mut array) => b != 0 }
             }
             _ => panic!("Non-scalar type was handled as packed"),
         }
-- 
2.43.0


From 065271b49b561597b2d051597958c8c213cb72e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 03/24] fix: zigzag arithmetic overflowing for large sint32 and
 sint64 values

---
 src/decode.rs | 36 ++++++++----------------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 8df1db8..6c18957 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -184,14 +184,10 @@ impl Value
             ValueType::UInt64 => u64::from_unsigned_varint(data).map(Value::UInt64),
             ValueType::SInt32 => u64::from_unsigned_varint(data).map(|u| {
                 let u = u as u32;
-                let (sign, sign_bit) = if u % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
-                let magnitude = (u / 2) as i32 + sign_bit;
-                Value::SInt32(sign * magnitude)
+                Value::SInt32((u >> 1) as i32 ^ -((u & 1) as i32))
             }),
             ValueType::SInt64 => u64::from_unsigned_varint(data).map(|u| {
-                let (sign, sign_bit) = if u % 2 == 0 { (1i64, 0) } else { (-1i64, 1) };
-                let magnitude = (u / 2) as i64 + sign_bit;
-                Value::SInt64(sign * magnitude)
+                Value::SInt64((u >> 1) as i64 ^ -((u & 1) as i64))
             }),
             ValueType::Fixed32 => {
                 try_read_4_bytes(data).map(|b| Value::Fixed32(u32::from_le_bytes(b)))
@@ -294,16 +290,12 @@ impl Value
             ValueType::SInt32 => {
                 read_packed! { SInt32 @ b = u64::from_unsigned_varint(&mut array) => {
                     let b = b as u32;
-                    let (sign, sign_bit) = if b % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
-                    let magnitude = (b / 2) as i32 + sign_bit;
-                    sign * magnitude
+                    (b >> 1) as i32 ^ -((b & 1) as i32)
                 } }
             }
             ValueType::SInt64 => {
                 read_packed! { SInt64 @ b = u64::from_unsigned_varint(&mut array) => {
-                    let (sign, sign_bit) = if b % 2 == 0 { (1i64, 0) } else { (-1i64, 1) };
-                    let magnitude = (b / 2) as i64 + sign_bit;
-                    sign * magnitude
+                    (b >> 1) as i64 ^ -((b & 1) as i64)
                 } }
             }
             ValueType::Fixed32 => {
@@ -367,14 +359,8 @@ impl Value
             Value::Int64(v) => BytesMut::from(v.into_signed_varint().as_ref()),
             Value::UInt32(v) => BytesMut::from(v.into_unsigned_varint().as_ref()),
             Value::UInt64(v) => BytesMut::from(v.into_unsigned_varint().as_ref()),
-            Value::SInt32(v) => {
-                let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                (v * 2 - sign_bit).into_unsigned_varint()
-            }
-            Value::SInt64(v) => {
-                let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                (v * 2 - sign_bit).into_unsigned_varint()
-            }
+            Value::SInt32(v) => (((v << 1) ^ (v >> 31)) as u32).into_unsigned_varint(),
+            Value::SInt64(v) => (((v << 1) ^ (v >> 63)) as u64).into_unsigned_varint(),
             Value::Fixed32(v) => BytesMut::from(v.to_le_bytes().as_ref()),
             Value::Fixed64(v) => BytesMut::from(v.to_le_bytes().as_ref()),
             Value::SFixed32(v) => BytesMut::from(v.to_le_bytes().as_ref()),
@@ -468,16 +454,10 @@ impl PackedArray
                 write_packed!(v => |v| BytesMut::from(v.into_unsigned_varint().as_ref()))
             }
             PackedArray::SInt32(v) => {
-                write_packed! { v => |v| {
-                    let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                    (v * 2 - sign_bit).into_unsigned_varint()
-                } }
+                write_packed!(v => |v| (((v << 1) ^ (v >> 31)) as u32).into_unsigned_varint())
             }
             PackedArray::SInt64(v) => {
-                write_packed! { v => |v| {
-                    let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                    (v * 2 - sign_bit).into_unsigned_varint()
-                } }
+                write_packed!(v => |v| (((v << 1) ^ (v >> 63)) as u64).into_unsigned_varint())
             }
             PackedArray::Fixed32(v) => {
                 write_packed!( v => |v| BytesMut::from(v.to_le_bytes().as_ref()) )
-- 
2.43.0


From ebd8cd395cfff5e5317edd3c67d1996f93d64e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 04/24] fix: consume the remaining data on incomplete unknown
 values

The payload of the incomplete value was both stored in the value and decoded
again as further fields.
---
 src/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 6c18957..9098ab7 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -347,7 +347,7 @@ impl Value
 
         value
             .map(Value::Unknown)
-            .unwrap_or_else(|| Value::Incomplete(vt, Bytes::copy_from_slice(data)))
+            .unwrap_or_else(|| return_incomplete(data, vt, original))
     }
 
     fn encode(&self, ctx: &Context) -> Option<(u8, BytesMut)>
-- 
2.43.0


From 677c55448b28444ad62246508f4ada34b82ca95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 05/24] fix: limit malformed packed array to its own bytes

The incomplete value included the bytes of all the following fields, which were
also decoded as separate fields.
---
 src/decode.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decode.rs b/src/decode.rs
index 9098ab7..0aea928 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -246,6 +246,7 @@ impl Value
 
         let mut array = &data[..length];
         *data = &data[length..];
+        let original = &original[..original.len() - data.len()];
 
         // Reading the packed arrays follows very similar format for each type.  The variances are
         // in how to read the data from the stream and what to do with the data to get the final
-- 
2.43.0


From 5c11ef46aa39761cfefc2c4ee35eef807ab290b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 06/24] fix: include the garbage bytes when encoding a message

---
 src/decode.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decode.rs b/src/decode.rs
index 0aea928..56807b2 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -618,6 +618,7 @@ impl MessageValue
                 field_data.extend_from_slice(&bytes);
                 field_data
             })
+            .chain(self.garbage.iter().map(|g| BytesMut::from(g.as_ref())).flatten())
             .collect()
     }
 }
-- 
2.43.0


From 855019a0cbe155c5f172bac9f265bc71e76b7f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:32 +0000
Subject: [PATCH 07/24] fix: don't panic on packed fields of a non-scalar type

---
 src/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 56807b2..f601589 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -314,7 +314,8 @@ impl Value
             ValueType::Bool => {
                 read_packed! { Bool @ b = u64::from_unsigned_varint(&mut array) => b != 0 }
             }
-            _ => panic!("Non-scalar type was handled as packed"),
+            // Only scalar fields can be packed.
+            _ => Value::Unknown(UnknownValue::VariableLength(Bytes::copy_from_slice(array))),
         }
     }
 
-- 
2.43.0


From caf377ba0e1ce393caa73a30d309362fe06aed38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:32 +0000
Subject: [PATCH 08/24] fix: don't panic on empty top-level statements

---
 src/context/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 2291819..90cc0a5 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -52,6 +52,7 @@ impl PackageBuilder
                             Some(inner.into_inner().next().unwrap().as_str().to_string())
                     }
                     Rule::option => {}
+                    Rule::emptyStatement => {}
                     Rule::EOI => {}
                     r => unreachable!("{:?}: {:?}", r, inner),
                 }
-- 
2.43.0


From 5b7254544cc0df992d41125a7ef9522c88210c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:32 +0000
Subject: [PATCH 09/24] fix: report an error when a field type names a service

---
 src/context/builder.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/context/builder.rs b/src/context/builder.rs
index 80d8563..1e1debf 100644
--- a/src/context/builder.rs
+++ b/src/context/builder.rs
@@ -506,7 +506,14 @@ impl FieldTypeBuilder
                 match t.item_type {
                     ItemType::Message => ValueType::Message(MessageRef(InternalRef(t.final_idx))),
                     ItemType::Enum => ValueType::Enum(EnumRef(InternalRef(t.final_idx))),
-                    _ => unreachable!("Service as field type"),
+                    ItemType::Service => {
+                        return Err(ParseError::InvalidTypeKind {
+                            type_name: t.full_name.clone(),
+                            context: "message field",
+                            expected: ItemType::Message,
+                            actual: ItemType::Service,
+                        })
+                    }
                 }
             }
         })
-- 
2.43.0


From c1e85e467df506e30b5d38f0aac17abc4513d708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:33 +0000
Subject: [PATCH 10/24] fix: keep the options of services and rpcs

---
 src/context/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/context/builder.rs b/src/context/builder.rs
index 1e1debf..50ceb1d 100644
--- a/src/context/builder.rs
+++ b/src/context/builder.rs
@@ -671,7 +671,7 @@ impl ServiceBuilder
             full_name: self_data.full_name.clone(),
             rpcs,
             rpcs_by_name,
-            options: vec![],
+            options: self.options,
         })
     }
 }
@@ -684,7 +684,7 @@ impl RpcBuilder
             name: self.name,
             input: self.input.build(self_data, cache)?,
             output: self.output.build(self_data, cache)?,
-            options: vec![],
+            options: self.options,
         })
     }
 }
-- 
2.43.0


From c007b520847c0ab0e48de4f5d61a75751da7cd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:33 +0000
Subject: [PATCH 11/24] fix: don't panic on zero or signed field numbers

---
 src/context/parse.rs | 2 +-
 src/proto.pest       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 90cc0a5..faf7707 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -329,7 +329,7 @@ pub fn parse_uint_literal(p: Pair<Rule>) -> u64
             let lit = inner.next().unwrap();
             match lit.as_rule() {
                 Rule::decimalLit => str::parse(lit.as_str()).unwrap(),
-                Rule::octalLit => u64::from_str_radix(&lit.as_str()[1..], 8).unwrap(),
+                Rule::octalLit => u64::from_str_radix(lit.as_str(), 8).unwrap(),
                 Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16).unwrap(),
                 r => unreachable!("{:?}: {:?}", r, lit),
             }
diff --git a/src/proto.pest b/src/proto.pest
index 789dca4..5ba3024 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -57,7 +57,7 @@ optionName = { ( ident | "(" ~ fullIdent ~ ")" ) ~ ( "." ~ ident )* }
 type_ = { "double" | "float" | "int32" | "int64" | "uint32" | "uint64"
     | "sint32" | "sint64" | "fixed32" | "fixed64" | "sfixed32" | "sfixed64"
     | "bool" | "string" | "bytes" | messageType | enumType }
-fieldNumber = { intLit }
+fieldNumber = { !sign ~ intLit }
 
 optional = { "optional" }
 repeated = { "repeated" }
-- 
2.43.0


From d6bdbea24d9cb37b2009bff000a06b161870a7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:33 +0000
Subject: [PATCH 12/24] fix: parsing float constants

The integer part of a float was taken as an integer constant and the rest of it
as a syntax error. Spaces within a float resulted in a panic. Identifiers
beginning with inf, nan, true or false were split.
---
 src/context/parse.rs | 11 ++++++++++-
 src/proto.pest       | 10 ++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index faf7707..c47fc37 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -363,7 +363,16 @@ pub fn parse_int_literal(p: Pair<Rule>) -> i64
 pub fn parse_float_literal(p: Pair<Rule>) -> f64
 {
     match p.as_rule() {
-        Rule::floatLit => p.as_str().parse::<f64>().unwrap(),
+        Rule::floatLit => {
+            let negative = p.as_str().starts_with('-');
+            let value = p.into_inner().last().unwrap();
+            let value = value.as_str().parse::<f64>().unwrap();
+            if negative {
+                -value
+            } else {
+                value
+            }
+        }
         r => unreachable!("{:?}: {:?}", r, p),
     }
 }
diff --git a/src/proto.pest b/src/proto.pest
index 5ba3024..82981ec 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -7,7 +7,8 @@ decimalDigit = { '0'..'9' }
 octalDigit = { '0'..'7' }
 hexDigit = { '0'..'9' | 'A'..'F' | 'a'..'f' }
 
-ident = @{ letter ~ ( letter | decimalDigit | "_" )* }
+identChar = { letter | decimalDigit | "_" }
+ident = @{ letter ~ identChar* }
 fullIdent = { ident ~ ( "." ~ ident )* }
 messageName = { ident }
 enumName = { ident }
@@ -25,11 +26,12 @@ decimalLit = @{ '1'..'9' ~ decimalDigit* }
 octalLit = @{ "0" ~ octalDigit* }
 hexLit = @{ "0" ~ ( "x" | "X" ) ~ hexDigit+ }
 
-floatLit = { sign? ~ ( ( decimals ~ "." ~ decimals? ~ exponent? | decimals ~ exponent | "." ~ decimals ~ exponent? ) | "inf" | "nan" ) }
+floatLit = { sign? ~ floatValue }
+floatValue = @{ ( decimals ~ "." ~ decimals? ~ exponent? | decimals ~ exponent | "." ~ decimals ~ exponent? ) | ( "inf" | "nan" ) ~ !identChar }
 decimals = { decimalDigit+ }
 exponent = { ( "e" | "E" ) ~ sign? ~ decimals }
 
-boolLit = { "true" | "false" }
+boolLit = @{ ( "true" | "false" ) ~ !identChar }
 
 strLit = ${ "'" ~ charValueQuot* ~ "'" | "\"" ~ charValueDblQuot* ~ "\"" }
 charValueQuot = ${ hexEscape | octEscape | charEscape | !( "\0" | "\n" | "\\" | "'" ) ~ anyChar }
@@ -45,7 +47,7 @@ quote = { "'" | "\"" }
 
 emptyStatement = { ";" }
 
-constant = { intLit | floatLit | strLit | boolLit | fullIdent }
+constant = { floatLit | intLit | strLit | boolLit | fullIdent }
 
 syntax = { "syntax" ~ "=" ~ quote ~ "proto3" ~ quote ~ ";" }
 import = { "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
-- 
2.43.0


From 31949a7b5c9a486d189190763780e9b004ae3d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 13/24] fix: don't split identifiers that begin with a keyword

---
 src/proto.pest | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/proto.pest b/src/proto.pest
index 82981ec..bd86f92 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -56,13 +56,14 @@ package = { "package" ~ fullIdent ~ ";" }
 option = { "option" ~ optionName ~ "=" ~ constant ~ ";" }
 optionName = { ( ident | "(" ~ fullIdent ~ ")" ) ~ ( "." ~ ident )* }
 
-type_ = { "double" | "float" | "int32" | "int64" | "uint32" | "uint64"
+type_ = { builtinType | messageType | enumType }
+builtinType = @{ ( "double" | "float" | "int32" | "int64" | "uint32" | "uint64"
     | "sint32" | "sint64" | "fixed32" | "fixed64" | "sfixed32" | "sfixed64"
-    | "bool" | "string" | "bytes" | messageType | enumType }
+    | "bool" | "string" | "bytes" ) ~ !identChar }
 fieldNumber = { !sign ~ intLit }
 
-optional = { "optional" }
-repeated = { "repeated" }
+optional = @{ "optional" ~ !identChar }
+repeated = @{ "repeated" ~ !identChar }
 one_multiplicity = { repeated | optional }
 multiplicity = { one_multiplicity? }
 field = { multiplicity ~ type_ ~ fieldName ~ "=" ~ fieldNumber ~ ( "[" ~ fieldOptions ~ "]" )? ~ ";" }
@@ -90,7 +91,7 @@ message = { "message" ~ messageName ~ messageBody }
 messageBody = { "{" ~ ( field | enum_ | message | option | oneof | mapField | reserved | emptyStatement )* ~ "}" }
 
 service = { "service" ~ serviceName ~ "{" ~ ( option | rpc | emptyStatement )* ~ "}" }
-stream = { "stream" }
+stream = @{ "stream" ~ !identChar }
 opt_stream = { stream? }
 rpcParam = { opt_stream ~ messageType }
 rpc = { "rpc" ~ rpcName ~ "(" ~ rpcParam ~ ")" ~ "returns" ~ "(" ~ rpcParam ~ ")" ~ (( "{" ~ ( option | emptyStatement )* ~ "}" ) | ";") }
-- 
2.43.0


From 3e2a392cf032be059e72247e932493d9e2bc05ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:40 +0000
Subject: [PATCH 14/24] fix: report integer literals that are out of range

These panicked. The smallest 64-bit integer is now accepted.
---
 src/context/parse.rs | 57 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index c47fc37..b06ebb0 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -1,11 +1,13 @@
 use bytes::{BufMut, Bytes, BytesMut};
 use pest::{
+    error::{Error, ErrorVariant},
     iterators::{Pair, Pairs},
     Parser,
 };
 
 use super::builder::*;
 use super::*;
+use std::convert::TryFrom;
 
 #[derive(pest_derive::Parser)]
 #[grammar = "proto.pest"]
@@ -30,11 +32,37 @@ impl Context
     }
 }
 
+/// Reports the values that match the grammar but cannot be represented.
+fn check_values(pairs: Pairs<Rule>) -> Result<Pairs<Rule>, Error<Rule>>
+{
+    for p in pairs.clone().flatten() {
+        let span = p.as_span();
+        let message = match p.as_rule() {
+            Rule::fieldNumber if parse_uint_literal(p.clone()).is_none() => "field number out of range",
+            Rule::constant | Rule::enumField
+                if p.clone().into_inner()
+                    .any(|p| p.as_rule() == Rule::intLit && parse_int_literal(p).is_none()) =>
+            {
+                "integer out of range"
+            }
+            _ => continue,
+        };
+        let message = message.to_string();
+        return Err(Error::new_from_span(
+            ErrorVariant::CustomError { message },
+            span,
+        ));
+    }
+
+    Ok(pairs)
+}
+
 impl PackageBuilder
 {
     pub fn parse_str(input: &str) -> Result<Self, ParseError>
     {
         let pairs = ProtoParser::parse(Rule::proto, input)
+            .and_then(check_values)
             .map_err(|e| Box::new(e) as Box<dyn std::error::Error + Send + Sync>)
             .context(SyntaxError {})?;
 
@@ -135,7 +163,7 @@ impl EnumBuilder
                     let mut inner = p.into_inner();
                     fields.push(EnumField {
                         name: inner.next().unwrap().as_str().to_string(),
-                        value: parse_int_literal(inner.next().unwrap()),
+                        value: parse_int_literal(inner.next().unwrap()).unwrap(),
                         options: ProtoOption::parse_options(inner),
                     })
                 }
@@ -196,7 +224,7 @@ impl FieldBuilder
         };
         let field_type = parse_field_type(inner.next().unwrap().as_str());
         let name = inner.next().unwrap().as_str().to_string();
-        let number = parse_uint_literal(inner.next().unwrap());
+        let number = parse_uint_literal(inner.next().unwrap()).unwrap();
 
         let options = match inner.next() {
             Some(p) => ProtoOption::parse_options(p.into_inner()),
@@ -217,7 +245,7 @@ impl FieldBuilder
         let mut inner = p.into_inner();
         let field_type = parse_field_type(inner.next().unwrap().as_str());
         let name = inner.next().unwrap().as_str().to_string();
-        let number = parse_uint_literal(inner.next().unwrap());
+        let number = parse_uint_literal(inner.next().unwrap()).unwrap();
 
         let options = match inner.next() {
             Some(p) => ProtoOption::parse_options(p.into_inner()),
@@ -320,7 +348,7 @@ impl RpcArgBuilder
     }
 }
 
-pub fn parse_uint_literal(p: Pair<Rule>) -> u64
+pub fn parse_uint_literal(p: Pair<Rule>) -> Option<u64>
 {
     match p.as_rule() {
         Rule::fieldNumber => parse_uint_literal(p.into_inner().next().unwrap()),
@@ -328,9 +356,9 @@ pub fn parse_uint_literal(p: Pair<Rule>) -> u64
             let mut inner = p.into_inner();
             let lit = inner.next().unwrap();
             match lit.as_rule() {
-                Rule::decimalLit => str::parse(lit.as_str()).unwrap(),
-                Rule::octalLit => u64::from_str_radix(lit.as_str(), 8).unwrap(),
-                Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16).unwrap(),
+                Rule::decimalLit => str::parse(lit.as_str()).ok(),
+                Rule::octalLit => u64::from_str_radix(lit.as_str(), 8).ok(),
+                Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16).ok(),
                 r => unreachable!("{:?}: {:?}", r, lit),
             }
         }
@@ -338,7 +366,7 @@ pub fn parse_uint_literal(p: Pair<Rule>) -> u64
     }
 }
 
-pub fn parse_int_literal(p: Pair<Rule>) -> i64
+pub fn parse_int_literal(p: Pair<Rule>) -> Option<i64>
 {
     match p.as_rule() {
         Rule::intLit => {
@@ -349,12 +377,13 @@ pub fn parse_int_literal(p: Pair<Rule>) -> i64
                 Rule::sign if sign.as_str() == "+" => (1, inner.next().unwrap()),
                 _ => (1, sign),
             };
-            match lit.as_rule() {
-                Rule::decimalLit => sign * str::parse::<i64>(lit.as_str()).unwrap(),
-                Rule::octalLit => sign * i64::from_str_radix(lit.as_str(), 8).unwrap(),
-                Rule::hexLit => sign * i64::from_str_radix(&lit.as_str()[2..], 16).unwrap(),
+            let magnitude = match lit.as_rule() {
+                Rule::decimalLit => str::parse::<u64>(lit.as_str()).ok()?,
+                Rule::octalLit => u64::from_str_radix(lit.as_str(), 8).ok()?,
+                Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16).ok()?,
                 r => unreachable!("{:?}: {:?}", r, lit),
-            }
+            };
+            i64::try_from(sign * magnitude as i128).ok()
         }
         r => unreachable!("{:?}: {:?}", r, p),
     }
@@ -408,7 +437,7 @@ impl Constant
         let p = p.into_inner().next().unwrap();
         match p.as_rule() {
             Rule::fullIdent => Constant::Ident(parse_ident(p)),
-            Rule::intLit => Constant::Integer(parse_int_literal(p)),
+            Rule::intLit => Constant::Integer(parse_int_literal(p).unwrap()),
             Rule::floatLit => Constant::Float(parse_float_literal(p)),
             Rule::strLit => Constant::String(parse_string_literal(p)),
             Rule::boolLit => Constant::Bool(p.as_str() == "true"),
-- 
2.43.0


From 556ab7147990c7cff1a100c37bb42532895b65f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:40 +0000
Subject: [PATCH 15/24] fix: report octal escapes that are out of range instead
 of panicking

---
 src/context/parse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index b06ebb0..d952a6b 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -45,6 +45,9 @@ fn check_values(pairs: Pairs<Rule>) -> Result<Pairs<Rule>, Error<Rule>>
             {
                 "integer out of range"
             }
+            Rule::octByte if u8::from_str_radix(p.as_str(), 8).is_err() => {
+                "octal escape out of range"
+            }
             _ => continue,
         };
         let message = message.to_string();
-- 
2.43.0


From 5782ec88b85ec0abde452ce66c6aa55aec917248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:40 +0000
Subject: [PATCH 16/24] fix: report map fields as an error instead of panicking

---
 src/context/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index d952a6b..1cace28 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -48,6 +48,7 @@ fn check_values(pairs: Pairs<Rule>) -> Result<Pairs<Rule>, Error<Rule>>
             Rule::octByte if u8::from_str_radix(p.as_str(), 8).is_err() => {
                 "octal escape out of range"
             }
+            Rule::mapField => "map fields are not supported",
             _ => continue,
         };
         let message = message.to_string();
@@ -133,7 +134,7 @@ impl MessageBuilder
                 }
                 Rule::option => options.push(ProtoOption::parse(p)),
                 Rule::oneof => oneofs.push(OneofBuilder::parse(p)),
-                Rule::mapField => unimplemented!("Maps are not supported"),
+                Rule::mapField => unreachable!("Maps are not supported"),
                 Rule::reserved => {} // We don't need to care about reserved field numbers.
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
-- 
2.43.0


From f80b029073508d7102534a5f209e442896a9d49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:41 +0000
Subject: [PATCH 17/24] fix: parsing message options with integer values

These were taken as fields of type `option`.
---
 src/proto.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto.pest b/src/proto.pest
index bd86f92..84c5fd8 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -88,7 +88,7 @@ enumField = { ident ~ "=" ~ intLit ~ ( "[" ~ enumValueOption ~ ( "," ~ enumValue
 enumValueOption = { optionName ~ "=" ~ constant }
 
 message = { "message" ~ messageName ~ messageBody }
-messageBody = { "{" ~ ( field | enum_ | message | option | oneof | mapField | reserved | emptyStatement )* ~ "}" }
+messageBody = { "{" ~ ( option | field | enum_ | message | oneof | mapField | reserved | emptyStatement )* ~ "}" }
 
 service = { "service" ~ serviceName ~ "{" ~ ( option | rpc | emptyStatement )* ~ "}" }
 stream = @{ "stream" ~ !identChar }
-- 
2.43.0


From dcecee9fa78c4947f85b420a78aa33ae342991e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:41 +0000
Subject: [PATCH 18/24] fix: parsing reserved names and reserved enum values

---
 src/context/parse.rs | 1 +
 src/proto.pest       | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 1cace28..b4a5d3c 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -172,6 +172,7 @@ impl EnumBuilder
                     })
                 }
                 Rule::option => options.push(ProtoOption::parse(p)),
+                Rule::reserved => {} // We don't need to care about reserved values.
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
             }
diff --git a/src/proto.pest b/src/proto.pest
index 84c5fd8..4de1ecc 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -80,10 +80,11 @@ keyType = { "int32" | "int64" | "uint32" | "uint64" | "sint32" | "sint64" |
 reserved = { "reserved" ~ ( ranges | fieldNames ) ~ ";" }
 ranges = { range ~ ( "," ~ range )* }
 range = { intLit ~ ( "to" ~ ( intLit | "max" ) )? }
-fieldNames = { fieldName ~ ( "," ~ fieldName )* }
+fieldNames = { reservedName ~ ( "," ~ reservedName )* }
+reservedName = { fieldName | strLit }
 
 enum_ = { "enum" ~ enumName ~ enumBody }
-enumBody = { "{" ~ ( option | enumField | emptyStatement )* ~ "}" }
+enumBody = { "{" ~ ( option | enumField | reserved | emptyStatement )* ~ "}" }
 enumField = { ident ~ "=" ~ intLit ~ ( "[" ~ enumValueOption ~ ( "," ~ enumValueOption )* ~ "]" )* ~ ";" }
 enumValueOption = { optionName ~ "=" ~ constant }
 
-- 
2.43.0


From bbb0015460ee037391428c632c1037b298d7aaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:42 +0000
Subject: [PATCH 19/24] fix: resolving type and package names with spaces
 around the dots

---
 src/context/parse.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index b4a5d3c..096ae89 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -81,7 +81,7 @@ impl PackageBuilder
                     Rule::import => {}
                     Rule::package => {
                         current_package.name =
-                            Some(inner.into_inner().next().unwrap().as_str().to_string())
+                            Some(parse_ident(inner.into_inner().next().unwrap()))
                     }
                     Rule::option => {}
                     Rule::emptyStatement => {}
@@ -227,7 +227,7 @@ impl FieldBuilder
             }
             None => Multiplicity::Single,
         };
-        let field_type = parse_field_type(inner.next().unwrap().as_str());
+        let field_type = parse_field_type(&parse_type_name(inner.next().unwrap()));
         let name = inner.next().unwrap().as_str().to_string();
         let number = parse_uint_literal(inner.next().unwrap()).unwrap();
 
@@ -248,7 +248,7 @@ impl FieldBuilder
     pub fn parse_oneof(p: Pair<Rule>) -> Self
     {
         let mut inner = p.into_inner();
-        let field_type = parse_field_type(inner.next().unwrap().as_str());
+        let field_type = parse_field_type(&parse_type_name(inner.next().unwrap()));
         let name = inner.next().unwrap().as_str().to_string();
         let number = parse_uint_literal(inner.next().unwrap()).unwrap();
 
@@ -291,6 +291,25 @@ impl OneofBuilder
     }
 }
 
+/// Parses a type name dropping any whitespace and comments around the dots.
+fn parse_type_name(p: Pair<Rule>) -> String
+{
+    let global = match p.as_str().starts_with('.') {
+        true => ".",
+        false => "",
+    };
+    let idents: Vec<_> = match p.as_str().contains('.') {
+        true => p
+            .into_inner()
+            .flatten()
+            .filter(|p| p.as_rule() == Rule::ident)
+            .map(|p| p.as_str())
+            .collect(),
+        false => vec![p.as_str()],
+    };
+    format!("{}{}", global, idents.join("."))
+}
+
 fn parse_field_type(t: &str) -> FieldTypeBuilder
 {
     FieldTypeBuilder::Builtin(match t {
@@ -348,7 +367,7 @@ impl RpcArgBuilder
         let mut inner = p.into_inner();
         RpcArgBuilder {
             stream: inner.next().unwrap().into_inner().next().is_some(),
-            message: inner.next().unwrap().as_str().to_string(),
+            message: parse_type_name(inner.next().unwrap()),
         }
     }
 }
-- 
2.43.0


From 547f9f080d8e12e516f9da146bd3d9e5a2fd0f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:42 +0000
Subject: [PATCH 20/24] fix: don't allow a field to be part of multiple oneofs

---
 src/context/mod.rs        | 7 +++++++
 src/context/modify_api.rs | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/context/mod.rs b/src/context/mod.rs
index 518e150..df07797 100644
--- a/src/context/mod.rs
+++ b/src/context/mod.rs
@@ -130,6 +130,13 @@ pub enum OneofInsertError
         /// Field number the Oneof referenced.
         field: u64,
     },
+
+    /// The oneof refers to a field that is already part of another oneof.
+    FieldInOneof
+    {
+        /// Field number the Oneof referenced.
+        field: u64,
+    },
 }
 
 /// Type reference that references either message or enum type.
diff --git a/src/context/modify_api.rs b/src/context/modify_api.rs
index 2a80035..48b72e7 100644
--- a/src/context/modify_api.rs
+++ b/src/context/modify_api.rs
@@ -185,9 +185,13 @@ impl MessageInfo
 
         // Ensure none of the existing fields are part of oneofs.
         for f in &oneof.fields {
-            self.fields
+            let field = self
+                .fields
                 .get(f)
                 .ok_or(OneofInsertError::FieldNotFound { field: *f })?;
+            if field.oneof.is_some() {
+                return Err(OneofInsertError::FieldInOneof { field: *f });
+            }
         }
 
         // From here on we're making changes to self.
-- 
2.43.0


From 653f623ffea04e60bee9bea0cfef87746a8b340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 21/24] fix: don't take enum values with names beginning with
 option as options

---
 src/proto.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proto.pest b/src/proto.pest
index 4de1ecc..917da85 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -53,7 +53,8 @@ syntax = { "syntax" ~ "=" ~ quote ~ "proto3" ~ quote ~ ";" }
 import = { "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
 package = { "package" ~ fullIdent ~ ";" }
 
-option = { "option" ~ optionName ~ "=" ~ constant ~ ";" }
+optionIdent = @{ "option" ~ identChar }
+option = { !optionIdent ~ "option" ~ optionName ~ "=" ~ constant ~ ";" }
 optionName = { ( ident | "(" ~ fullIdent ~ ")" ) ~ ( "." ~ ident )* }
 
 type_ = { builtinType | messageType | enumType }
-- 
2.43.0


From 7db6b1da6472c383e2db632b3c79b68b94a036cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 22/24] fix: encode unknown varints that do not fit 64 bits

---
 src/decode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index f601589..d6c030a 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -683,13 +683,13 @@ where
     }
 }
 
-impl<T: Default + TryInto<u64>> ToUnsignedVarint for T
+impl<T: Default + TryInto<u128>> ToUnsignedVarint for T
 where
     T::Error: Debug,
 {
     fn into_unsigned_varint(self) -> BytesMut
     {
-        let mut value: u64 = self.try_into().unwrap();
+        let mut value: u128 = self.try_into().unwrap();
         let mut data: Vec<u8> = Vec::with_capacity(8);
         loop {
             let mut byte = (value & 0x7f) as u8;
-- 
2.43.0


From 1557416a19100fde61bf2be49d780310defc7adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 23/24] fix: don't take names that begin with a keyword as the
 keyword and a name

---
 src/proto.pest | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/proto.pest b/src/proto.pest
index 917da85..011c846 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -50,8 +50,10 @@ emptyStatement = { ";" }
 constant = { floatLit | intLit | strLit | boolLit | fullIdent }
 
 syntax = { "syntax" ~ "=" ~ quote ~ "proto3" ~ quote ~ ";" }
-import = { "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
-package = { "package" ~ fullIdent ~ ";" }
+importIdent = @{ "import" ~ identChar }
+import = { !importIdent ~ "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
+packageIdent = @{ "package" ~ identChar }
+package = { !packageIdent ~ "package" ~ fullIdent ~ ";" }
 
 optionIdent = @{ "option" ~ identChar }
 option = { !optionIdent ~ "option" ~ optionName ~ "=" ~ constant ~ ";" }
@@ -71,32 +73,39 @@ field = { multiplicity ~ type_ ~ fieldName ~ "=" ~ fieldNumber ~ ( "[" ~ fieldOp
 fieldOptions = { fieldOption ~ ( "," ~ fieldOption )* }
 fieldOption = { optionName ~ "=" ~ constant }
 
-oneof = { "oneof" ~ oneofName ~ "{" ~ ( option | oneofField | emptyStatement )* ~ "}" }
+oneofIdent = @{ "oneof" ~ identChar }
+oneof = { !oneofIdent ~ "oneof" ~ oneofName ~ "{" ~ ( option | oneofField | emptyStatement )* ~ "}" }
 oneofField = { type_ ~ fieldName ~ "=" ~ fieldNumber ~ ( "[" ~ fieldOptions ~ "]" )? ~ ";" }
 
 mapField = { "map" ~ "<" ~ keyType ~ "," ~ type_ ~ ">" ~ mapName ~ "=" ~ fieldNumber ~ ( "[" ~ fieldOptions ~ "]" )? ~ ";" }
 keyType = { "int32" | "int64" | "uint32" | "uint64" | "sint32" | "sint64" |
           "fixed32" | "fixed64" | "sfixed32" | "sfixed64" | "bool" | "string" }
 
-reserved = { "reserved" ~ ( ranges | fieldNames ) ~ ";" }
+reservedIdent = @{ "reserved" ~ identChar }
+reserved = { !reservedIdent ~ "reserved" ~ ( ranges | fieldNames ) ~ ";" }
 ranges = { range ~ ( "," ~ range )* }
-range = { intLit ~ ( "to" ~ ( intLit | "max" ) )? }
+toIdent = @{ "to" ~ identChar }
+range = { intLit ~ ( !toIdent ~ "to" ~ ( intLit | "max" ) )? }
 fieldNames = { reservedName ~ ( "," ~ reservedName )* }
 reservedName = { fieldName | strLit }
 
-enum_ = { "enum" ~ enumName ~ enumBody }
+enumIdent = @{ "enum" ~ identChar }
+enum_ = { !enumIdent ~ "enum" ~ enumName ~ enumBody }
 enumBody = { "{" ~ ( option | enumField | reserved | emptyStatement )* ~ "}" }
 enumField = { ident ~ "=" ~ intLit ~ ( "[" ~ enumValueOption ~ ( "," ~ enumValueOption )* ~ "]" )* ~ ";" }
 enumValueOption = { optionName ~ "=" ~ constant }
 
-message = { "message" ~ messageName ~ messageBody }
+messageIdent = @{ "message" ~ identChar }
+message = { !messageIdent ~ "message" ~ messageName ~ messageBody }
 messageBody = { "{" ~ ( option | field | enum_ | message | oneof | mapField | reserved | emptyStatement )* ~ "}" }
 
-service = { "service" ~ serviceName ~ "{" ~ ( option | rpc | emptyStatement )* ~ "}" }
+serviceIdent = @{ "service" ~ identChar }
+service = { !serviceIdent ~ "service" ~ serviceName ~ "{" ~ ( option | rpc | emptyStatement )* ~ "}" }
 stream = @{ "stream" ~ !identChar }
 opt_stream = { stream? }
 rpcParam = { opt_stream ~ messageType }
-rpc = { "rpc" ~ rpcName ~ "(" ~ rpcParam ~ ")" ~ "returns" ~ "(" ~ rpcParam ~ ")" ~ (( "{" ~ ( option | emptyStatement )* ~ "}" ) | ";") }
+rpcIdent = @{ "rpc" ~ identChar }
+rpc = { !rpcIdent ~ "rpc" ~ rpcName ~ "(" ~ rpcParam ~ ")" ~ "returns" ~ "(" ~ rpcParam ~ ")" ~ (( "{" ~ ( option | emptyStatement )* ~ "}" ) | ";") }
 
 proto = { SOI ~ BOM? ~ syntax ~ ( import | package | option | topLevelDef | emptyStatement )* ~ EOI }
 topLevelDef = { message | enum_ | service }
-- 
2.43.0


From 4570932a92906ac8d808342f04eec30ae88c8c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 24/24] fix: reject versions in the syntax statement with
 differing quotes or with spaces

---
 src/proto.pest | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/proto.pest b/src/proto.pest
index 011c846..26c687d 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -43,13 +43,12 @@ octByte = ${ octalDigit ~ octalDigit? ~ octalDigit? }
 charEscape = ${ "\\" ~ escapeChar }
 escapeChar = { "a" | "b" | "f" | "n" | "r" | "t" | "v" | "\\" | "'" | "\"" }
 anyChar = ${ ANY }
-quote = { "'" | "\"" }
 
 emptyStatement = { ";" }
 
 constant = { floatLit | intLit | strLit | boolLit | fullIdent }
 
-syntax = { "syntax" ~ "=" ~ quote ~ "proto3" ~ quote ~ ";" }
+syntax = { "syntax" ~ "=" ~ ( "\"proto3\"" | "'proto3'" ) ~ ";" }
 importIdent = @{ "import" ~ identChar }
 import = { !importIdent ~ "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
 packageIdent = @{ "package" ~ identChar }
-- 
2.43.0

