From bfc2a8de6213a2c150cffeae650bcf268b4b2d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 01/16] fix: do not preallocate a Body array from the untrusted
 element count

Body::deserialize passed the count read from the input straight to
Vec::with_capacity, so nine bytes were enough to panic with 'capacity
overflow' or to abort on allocation failure.
---
 dlhn/src/body/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dlhn/src/body/mod.rs b/dlhn/src/body/mod.rs
index 3dcaba0..846b49a 100644
--- a/dlhn/src/body/mod.rs
+++ b/dlhn/src/body/mod.rs
@@ -113,7 +113,7 @@ impl Body {
             Header::Binary => ByteBuf::deserialize(deserializer).map(|v| Self::Binary(v)),
             Header::Array(inner) => {
                 let len = u64::deserialize(&mut *deserializer)?;
-                let mut buf = Vec::with_capacity(len as usize);
+                let mut buf = Vec::new();
                 for _ in 0..len {
                     buf.push(Self::deserialize(inner, deserializer)?);
                 }
-- 
2.43.0


From e5b80892a415de48dc33266137697f94b6e1a2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 02/16] fix: reject out of range dates instead of overflowing

Decoding a year within 2000 of i32::MAX or the ordinal 65535 panicked in
builds with overflow checks and wrapped around silently in the others.
---
 dlhn/src/date.rs        | 6 ++++--
 dlhn/src/format/date.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/dlhn/src/date.rs b/dlhn/src/date.rs
index e5a2b57..650a91a 100644
--- a/dlhn/src/date.rs
+++ b/dlhn/src/date.rs
@@ -61,11 +61,13 @@ impl<'de> Visitor<'de> for DateVisitor {
         let year = seq
             .next_element::<i32>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_YEAR_OFFSET;
+            .checked_add(DATE_YEAR_OFFSET)
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         let ordinal = seq
             .next_element::<u16>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_ORDINAL_OFFSET;
+            .checked_add(DATE_ORDINAL_OFFSET)
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         Ok(Date { year, ordinal })
     }
 }
diff --git a/dlhn/src/format/date.rs b/dlhn/src/format/date.rs
index d5d308d..6749844 100644
--- a/dlhn/src/format/date.rs
+++ b/dlhn/src/format/date.rs
@@ -25,11 +25,13 @@ impl<'de> Visitor<'de> for DateVisitor {
         let year = seq
             .next_element::<i32>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_YEAR_OFFSET;
+            .checked_add(DATE_YEAR_OFFSET)
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         let ordinal = seq
             .next_element::<u16>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_ORDINAL_OFFSET;
+            .checked_add(DATE_ORDINAL_OFFSET)
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         let date = Date::from_ordinal_date(year, ordinal)
             .or(Err(de::Error::invalid_value(Unexpected::Seq, &Error::Read)))?;
         Ok(date)
-- 
2.43.0


From 3e5c5337d8a60ef9769d09978e2dc1b510917bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 03/16] fix: return an error for date times past the supported
 range

Adding a nanosecond part of one second or more to the last supported
second panicked, both when decoding and when converting a DateTime.
---
 dlhn/src/date_time.rs        | 5 +++--
 dlhn/src/format/date_time.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dlhn/src/date_time.rs b/dlhn/src/date_time.rs
index 41af62b..552c704 100644
--- a/dlhn/src/date_time.rs
+++ b/dlhn/src/date_time.rs
@@ -24,8 +24,9 @@ impl std::convert::TryInto<OffsetDateTime> for DateTime {
 
     fn try_into(self) -> Result<OffsetDateTime, Self::Error> {
         OffsetDateTime::from_unix_timestamp(self.unix_timestamp)
-            .map(|v| v + (self.nanosecond as i64).nanoseconds())
-            .or(Err(()))
+            .or(Err(()))?
+            .checked_add((self.nanosecond as i64).nanoseconds())
+            .ok_or(())
     }
 }
 
diff --git a/dlhn/src/format/date_time.rs b/dlhn/src/format/date_time.rs
index 44e4bbb..4d757dc 100644
--- a/dlhn/src/format/date_time.rs
+++ b/dlhn/src/format/date_time.rs
@@ -25,9 +25,10 @@ impl<'de> Visitor<'de> for OffsetDateTimeVisitor {
         let nanosecond = seq
             .next_element::<u32>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
-        Ok(OffsetDateTime::from_unix_timestamp(unix_timestamp)
+        OffsetDateTime::from_unix_timestamp(unix_timestamp)
             .or(Err(de::Error::invalid_value(Unexpected::Seq, &Error::Read)))?
-            + (nanosecond as i64).nanoseconds())
+            .checked_add((nanosecond as i64).nanoseconds())
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))
     }
 }
 
-- 
2.43.0


From 40f8bec2392d13a881d4153cb7b3f85f45ffd2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 04/16] fix: refuse to serialize headers whose size does not
 fit

Tuple and Enum headers with more than 65535 elements were written with
the element count truncated to 16 bits, giving bytes that decode to a
different header.
---
 dlhn/src/header/ser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dlhn/src/header/ser.rs b/dlhn/src/header/ser.rs
index 979635e..1ee648c 100644
--- a/dlhn/src/header/ser.rs
+++ b/dlhn/src/header/ser.rs
@@ -3,7 +3,8 @@ use crate::{BigDecimal, BigInt, BigUint, Date, DateTime, PrefixVarint};
 use serde_bytes::{ByteBuf, Bytes};
 use std::{
     collections::{BTreeMap, HashMap},
-    io::{Result, Write},
+    convert::TryFrom,
+    io::{Error, ErrorKind, Result, Write},
 };
 
 pub trait SerializeHeader {
@@ -293,9 +294,13 @@ impl Header {
     }
 
     fn serialize_inner_vec<W: Write>(code: u8, inner: &Vec<Header>, writer: &mut W) -> Result<()> {
+        let len = u16::try_from(inner.len()).or(Err(Error::new(
+            ErrorKind::InvalidInput,
+            "too many elements in header",
+        )))?;
         writer.write_all(&[code])?;
         let mut buf = [0u8; u16::PREFIX_VARINT_BUF_SIZE];
-        let size = (inner.len() as u16).encode_prefix_varint(&mut buf);
+        let size = len.encode_prefix_varint(&mut buf);
         writer.write_all(&buf[..size])?;
         for v in inner {
             v.serialize(writer)?
-- 
2.43.0


From 82a18e2726b02436b8d4238ea70c05e68f4aa885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 05/16] fix: read enum variant indexes as they are written

Variant indexes are written as u32 but were read as u16, so every variant
from the 16384th on failed to round trip or came back as another one.
---
 dlhn/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dlhn/src/de.rs b/dlhn/src/de.rs
index 651ba33..94cd94d 100644
--- a/dlhn/src/de.rs
+++ b/dlhn/src/de.rs
@@ -371,7 +371,7 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        self.deserialize_u16(visitor)
+        self.deserialize_u32(visitor)
     }
 
     fn deserialize_ignored_any<V>(self, _: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From 742c48249f6e99d71117b2c4e4bb1766be5df6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 06/16] fix: read the scale of zero big decimals that carry one

The scale is present whenever the digits are not empty. Deciding on the
value of the digits left the scale of a padded zero unread, so the next
value of the stream was decoded from the wrong offset.
---
 dlhn/src/format/big_decimal.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/dlhn/src/format/big_decimal.rs b/dlhn/src/format/big_decimal.rs
index 3b7c0cf..c8925af 100644
--- a/dlhn/src/format/big_decimal.rs
+++ b/dlhn/src/format/big_decimal.rs
@@ -21,16 +21,14 @@ impl<'de> Visitor<'de> for BigDecimalVisitor {
     where
         A: SeqAccess<'de>,
     {
-        let digits = BigInt::from_signed_bytes_le(
-            seq.next_element::<Vec<u8>>()?
-                .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-                .as_slice(),
-        );
-        if digits.is_zero() {
-            Ok(BigDecimal::from(digits))
+        let signed_bytes = seq
+            .next_element::<Vec<u8>>()?
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
+        if signed_bytes.is_empty() {
+            Ok(BigDecimal::zero())
         } else {
             Ok(BigDecimal::new(
-                digits,
+                BigInt::from_signed_bytes_le(signed_bytes.as_slice()),
                 seq.next_element::<i64>()?
                     .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?,
             ))
-- 
2.43.0


From 7190d171cd03631c74b84857ec55ef57ad9852b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 07/16] fix: do not preallocate header vectors from the
 untrusted size

Each nested tuple or enum header reserved up to 65535 elements (2 MiB)
for four bytes of input, before any element was read.
---
 dlhn/src/header/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dlhn/src/header/de.rs b/dlhn/src/header/de.rs
index e0002c9..6c54ade 100644
--- a/dlhn/src/header/de.rs
+++ b/dlhn/src/header/de.rs
@@ -41,7 +41,7 @@ impl<R: Read> DeserializeHeader<R> for R {
             }
             super::TUPLE_CODE => {
                 let size = u16::decode_prefix_varint(self)?;
-                let mut vec = Vec::with_capacity(size as usize);
+                let mut vec = Vec::new();
                 for _ in 0..size {
                     vec.push(self.deserialize_header()?);
                 }
@@ -61,7 +61,7 @@ impl<R: Read> DeserializeHeader<R> for R {
             }
             super::ENUM_CODE => {
                 let size = u16::decode_prefix_varint(self)?;
-                let mut buf = Vec::with_capacity(size as usize);
+                let mut buf = Vec::new();
                 for _ in 0..size {
                     buf.push(self.deserialize_header()?);
                 }
-- 
2.43.0


From 4c76e034913b79bab04e1907c8f3447d66ef807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 08/16] fix: do not panic on deserialize_str, bytes, any and
 ignored_any

They were todo!(). Strings and bytes are readable whichever of the two
serde entry points a type asks for; the other two cannot work in a format
that is not self describing and now return an error.
---
 dlhn/src/de.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dlhn/src/de.rs b/dlhn/src/de.rs
index 94cd94d..38c800e 100644
--- a/dlhn/src/de.rs
+++ b/dlhn/src/de.rs
@@ -63,7 +63,7 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        Err(de::Error::custom("deserialize_any is not supported"))
     }
 
     fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -200,11 +200,11 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
         )
     }
 
-    fn deserialize_str<V>(self, _: V) -> Result<V::Value, Self::Error>
+    fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        self.deserialize_string(visitor)
     }
 
     fn deserialize_string<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -236,11 +236,11 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
         }
     }
 
-    fn deserialize_bytes<V>(self, _: V) -> Result<V::Value, Self::Error>
+    fn deserialize_bytes<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        self.deserialize_byte_buf(visitor)
     }
 
     fn deserialize_byte_buf<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -378,7 +378,7 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        Err(de::Error::custom("deserialize_ignored_any is not supported"))
     }
 
     #[inline]
-- 
2.43.0


From 75362dbb3b2adfb6134638699a907b59dafed494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 09/16] fix: encode big decimals without expanding their scale

Normalising compared the value with zero at a common scale, so encoding
1e-2000000 took seconds, larger scales exhausted memory and the smallest
ones panicked, although such values are ten bytes long on the wire.
---
 dlhn/src/big_decimal.rs        | 16 +++++++++++++++-
 dlhn/src/format/big_decimal.rs |  4 ++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/dlhn/src/big_decimal.rs b/dlhn/src/big_decimal.rs
index 34fe7a7..b77ae08 100644
--- a/dlhn/src/big_decimal.rs
+++ b/dlhn/src/big_decimal.rs
@@ -13,6 +13,20 @@ pub struct BigDecimal {
     scale: i64,
 }
 
+// `BigDecimal::normalized` compares the value with zero, which expands the scale into digits.
+// At scale 0 that comparison is free.
+#[cfg(all(feature = "num-traits", feature = "bigdecimal"))]
+pub(crate) fn normalize(v: bigdecimal::BigDecimal) -> bigdecimal::BigDecimal {
+    let (digits, scale) = v.into_bigint_and_exponent();
+    let (normalized_digits, shift) = bigdecimal::BigDecimal::new(digits.clone(), 0)
+        .normalized()
+        .into_bigint_and_exponent();
+    match scale.checked_add(shift) {
+        Some(scale) => bigdecimal::BigDecimal::new(normalized_digits, scale),
+        None => bigdecimal::BigDecimal::new(digits, scale),
+    }
+}
+
 #[cfg(all(feature = "num-traits", feature = "bigdecimal"))]
 impl From<bigdecimal::BigDecimal> for BigDecimal {
     fn from(v: bigdecimal::BigDecimal) -> Self {
@@ -22,7 +36,7 @@ impl From<bigdecimal::BigDecimal> for BigDecimal {
                 scale: 0,
             }
         } else {
-            let (bigint, scale) = v.normalized().into_bigint_and_exponent();
+            let (bigint, scale) = normalize(v).into_bigint_and_exponent();
             Self {
                 signed_bytes: bigint.to_signed_bytes_le(),
                 scale,
diff --git a/dlhn/src/format/big_decimal.rs b/dlhn/src/format/big_decimal.rs
index c8925af..bb0d304 100644
--- a/dlhn/src/format/big_decimal.rs
+++ b/dlhn/src/format/big_decimal.rs
@@ -1,4 +1,4 @@
-use crate::de::Error;
+use crate::{big_decimal::normalize, de::Error};
 use bigdecimal::BigDecimal;
 use num_bigint::BigInt;
 use num_traits::Zero;
@@ -42,7 +42,7 @@ pub fn serialize<T: Serializer>(value: &BigDecimal, serializer: T) -> Result<T::
     if value.is_zero() {
         seq.serialize_element(&0u8)?;
     } else {
-        let (bigint, scale) = value.normalized().into_bigint_and_exponent();
+        let (bigint, scale) = normalize(value.clone()).into_bigint_and_exponent();
         seq.serialize_element(&bigint.to_signed_bytes_le())?;
         seq.serialize_element(&scale)?;
     }
-- 
2.43.0


From 47ee158c9645022ba6b0eb3b3e98276e1f18362b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:32 +0000
Subject: [PATCH 10/16] fix: honour serde skip attributes on the fields of enum
 variants

The derived header listed fields of a variant that serde leaves out of the
body, and did not refuse skip_serializing_if there as it does on structs,
so the header did not describe the bytes that follow it.
---
 dlhn_derive/src/lib.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/dlhn_derive/src/lib.rs b/dlhn_derive/src/lib.rs
index 180b4ce..b747333 100644
--- a/dlhn_derive/src/lib.rs
+++ b/dlhn_derive/src/lib.rs
@@ -67,12 +67,17 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
 
             gen.into()
         }
-        syn::Data::Enum(data) => {
+        syn::Data::Enum(mut data) => {
             let mut outers = Vec::new();
             let mut inners = Vec::new();
 
-            for variant in data.variants.iter() {
-                if has_skip_serializing_if(variant.attrs.iter()) {
+            for variant in data.variants.iter_mut() {
+                if has_skip_serializing_if(variant.attrs.iter())
+                    || variant
+                        .fields
+                        .iter()
+                        .any(|field| has_skip_serializing_if(field.attrs.iter()))
+                {
                     return syn::Error::new(
                         Span::call_site(),
                         "skip_serializing_if is not supported",
@@ -81,6 +86,8 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                     .into();
                 }
 
+                remove_skip_fields(&mut variant.fields);
+
                 if !is_skip_field(variant.attrs.iter()) {
                     if variant.fields.is_empty() {
                         outers.push(
@@ -187,6 +194,18 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
     }
 }
 
+fn remove_skip_fields(fields: &mut syn::Fields) {
+    let fields = match fields {
+        syn::Fields::Named(fields) => &mut fields.named,
+        syn::Fields::Unnamed(fields) => &mut fields.unnamed,
+        syn::Fields::Unit => return,
+    };
+    *fields = std::mem::take(fields)
+        .into_iter()
+        .filter(|field| !is_skip_field(field.attrs.iter()))
+        .collect();
+}
+
 fn is_skip_field(mut attributes: Iter<Attribute>) -> bool {
     attributes.any(|attribute| {
         attribute.path.get_ident().map(ToString::to_string) == Some(SERDE_ATTRIBUTE.to_string())
-- 
2.43.0


From 08e7b385f5647e62d04dcb3b76aabefe97410767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 11/16] fix: map keys are not human readable

Keys such as IP addresses were written as text, which no deserializer of
this crate reads back as the same type. They are refused like every other
key that is not a string.
---
 dlhn/src/ser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dlhn/src/ser.rs b/dlhn/src/ser.rs
index f33e10e..3d28782 100644
--- a/dlhn/src/ser.rs
+++ b/dlhn/src/ser.rs
@@ -572,6 +572,11 @@ impl<'a, W: Write> ser::Serializer for MapKeySerializer<'a, W> {
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
         Err(Error::UnsupportedKeyType)
     }
+
+    #[inline]
+    fn is_human_readable(&self) -> bool {
+        false
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 52345e663265f12239813123b511e9dd9ef65881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 12/16] fix: list the field of a newtype struct that serde
 writes despite a skip attribute

---
 dlhn_derive/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dlhn_derive/src/lib.rs b/dlhn_derive/src/lib.rs
index b747333..ccc7f4a 100644
--- a/dlhn_derive/src/lib.rs
+++ b/dlhn_derive/src/lib.rs
@@ -25,6 +25,8 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
     match item.data {
         syn::Data::Struct(data) => {
             let mut types = Vec::new();
+            let is_newtype =
+                matches!(&data.fields, syn::Fields::Unnamed(fields) if fields.unnamed.len() == 1);
 
             for field in data.fields.iter() {
                 if has_skip_serializing_if(field.attrs.iter()) {
@@ -36,7 +38,8 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                     .into();
                 }
 
-                if !is_skip_field(field.attrs.iter()) {
+                // serde writes the field of a newtype struct even when it is marked to be skipped
+                if is_newtype || !is_skip_field(field.attrs.iter()) {
                     types.push(field.ty.to_token_stream());
                 }
             }
-- 
2.43.0


From d4afa9607d75ec6a59791e1c7ca4e58fe37430e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 13/16] fix: refuse to derive a header with more elements than
 its count can hold

---
 dlhn_derive/src/lib.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/dlhn_derive/src/lib.rs b/dlhn_derive/src/lib.rs
index ccc7f4a..b30eab5 100644
--- a/dlhn_derive/src/lib.rs
+++ b/dlhn_derive/src/lib.rs
@@ -44,6 +44,12 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                 }
             }
 
+            if types.len() > u16::MAX as usize {
+                return syn::Error::new(Span::call_site(), "too many fields")
+                    .to_compile_error()
+                    .into();
+            }
+
             let fields_count = (types.len() as u16)
                 .encode_prefix_varint_vec()
                 .iter()
@@ -91,6 +97,12 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
 
                 remove_skip_fields(&mut variant.fields);
 
+                if variant.fields.len() > u16::MAX as usize {
+                    return syn::Error::new(Span::call_site(), "too many fields")
+                        .to_compile_error()
+                        .into();
+                }
+
                 if !is_skip_field(variant.attrs.iter()) {
                     if variant.fields.is_empty() {
                         outers.push(
@@ -163,6 +175,12 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                 }
             }
 
+            if outers.len() > u16::MAX as usize {
+                return syn::Error::new(Span::call_site(), "too many variants")
+                    .to_compile_error()
+                    .into();
+            }
+
             let variants_count = (outers.len() as u16)
                 .encode_prefix_varint_vec()
                 .iter()
-- 
2.43.0


From 6161122adc9e5bd736363a1874f63e723d432568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 14/16] fix: refuse to derive a header for tagged, untagged and
 flattened layouts

---
 dlhn_derive/src/lib.rs | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/dlhn_derive/src/lib.rs b/dlhn_derive/src/lib.rs
index b30eab5..6d4ca25 100644
--- a/dlhn_derive/src/lib.rs
+++ b/dlhn_derive/src/lib.rs
@@ -16,12 +16,21 @@ const SERDE_ATTRIBUTE: &str = "serde";
 const SKIP_ATTRIBUTE: &str = "skip";
 const SKIP_SERIALIZING_ATTRIBUTE: &str = "skip_serializing";
 const SKIP_SERIALIZING_IF_ATTRIBUTE: &str = "skip_serializing_if";
+const TAG_ATTRIBUTE: &str = "tag";
+const UNTAGGED_ATTRIBUTE: &str = "untagged";
+const FLATTEN_ATTRIBUTE: &str = "flatten";
 
 #[proc_macro_derive(SerializeHeader, attributes(serde))]
 pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
     let item = parse_macro_input!(input as DeriveInput);
     let type_name = item.ident;
 
+    if has_serde_attribute(item.attrs.iter(), &[TAG_ATTRIBUTE, UNTAGGED_ATTRIBUTE]) {
+        return syn::Error::new(Span::call_site(), "tag and untagged are not supported")
+            .to_compile_error()
+            .into();
+    }
+
     match item.data {
         syn::Data::Struct(data) => {
             let mut types = Vec::new();
@@ -29,6 +38,12 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                 matches!(&data.fields, syn::Fields::Unnamed(fields) if fields.unnamed.len() == 1);
 
             for field in data.fields.iter() {
+                if has_serde_attribute(field.attrs.iter(), &[FLATTEN_ATTRIBUTE]) {
+                    return syn::Error::new(Span::call_site(), "flatten is not supported")
+                        .to_compile_error()
+                        .into();
+                }
+
                 if has_skip_serializing_if(field.attrs.iter()) {
                     return syn::Error::new(
                         Span::call_site(),
@@ -81,6 +96,20 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
             let mut inners = Vec::new();
 
             for variant in data.variants.iter_mut() {
+                if has_serde_attribute(variant.attrs.iter(), &[UNTAGGED_ATTRIBUTE])
+                    || variant
+                        .fields
+                        .iter()
+                        .any(|field| has_serde_attribute(field.attrs.iter(), &[FLATTEN_ATTRIBUTE]))
+                {
+                    return syn::Error::new(
+                        Span::call_site(),
+                        "untagged and flatten are not supported",
+                    )
+                    .to_compile_error()
+                    .into();
+                }
+
                 if has_skip_serializing_if(variant.attrs.iter())
                     || variant
                         .fields
@@ -259,3 +288,16 @@ fn has_skip_serializing_if(mut attributes: Iter<Attribute>) -> bool {
             }
     })
 }
+
+fn has_serde_attribute(mut attributes: Iter<Attribute>, names: &[&str]) -> bool {
+    attributes.any(|attribute| {
+        attribute.path.is_ident(SERDE_ATTRIBUTE)
+            && match attribute.parse_meta() {
+                Ok(Meta::List(v)) => v.nested.iter().any(|v| match v {
+                    NestedMeta::Meta(v) => names.iter().any(|name| v.path().is_ident(name)),
+                    _ => false,
+                }),
+                _ => false,
+            }
+    })
+}
-- 
2.43.0


From b6bf04b68b26e6ff7a1719457d3474e00dc04ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 15/16] fix: a conditionally skipped struct field is refused
 instead of being left out of the bytes

---
 dlhn/src/ser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dlhn/src/ser.rs b/dlhn/src/ser.rs
index 3d28782..69b6b0b 100644
--- a/dlhn/src/ser.rs
+++ b/dlhn/src/ser.rs
@@ -371,6 +371,10 @@ impl<'a, W: Write> ser::SerializeStruct for &'a mut Serializer<W> {
         value.serialize(&mut **self)
     }
 
+    fn skip_field(&mut self, _key: &'static str) -> Result<(), Self::Error> {
+        Err(ser::Error::custom("skipping a field is not supported"))
+    }
+
     fn end(self) -> Result<Self::Ok, Self::Error> {
         Ok(())
     }
@@ -391,6 +395,10 @@ impl<'a, W: Write> ser::SerializeStructVariant for &'a mut Serializer<W> {
         value.serialize(&mut **self)
     }
 
+    fn skip_field(&mut self, _key: &'static str) -> Result<(), Self::Error> {
+        Err(ser::Error::custom("skipping a field is not supported"))
+    }
+
     fn end(self) -> Result<Self::Ok, Self::Error> {
         Ok(())
     }
-- 
2.43.0


From 89d682c9b5f5868b9a7baca1250800f6851785f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 16/16] fix: on 32-bit platforms a received count or length
 past 2^32 was cut to 32 bits

---
 dlhn/src/de.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dlhn/src/de.rs b/dlhn/src/de.rs
index 38c800e..ce18d28 100644
--- a/dlhn/src/de.rs
+++ b/dlhn/src/de.rs
@@ -2,6 +2,7 @@ use crate::{PrefixVarint, ZigZag};
 use serde::{de, Deserialize};
 use std::{
     cmp::min,
+    convert::TryFrom,
     fmt::{self, Display},
     io::Read,
     slice::Iter,
@@ -227,8 +228,8 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
                 .reader
                 .take(len as u64)
                 .read_to_string(&mut s)
-                .or(Err(Error::Read))?
-                != len as usize
+                .or(Err(Error::Read))? as u64
+                != len
             {
                 return Err(Error::Read);
             };
@@ -253,7 +254,7 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
             let mut result = Vec::new();
             let mut buf = vec![0; MAX_SIZE as usize];
             let mut pos = 0;
-            while result.len() < len as usize {
+            while pos < len {
                 self.reader
                     .read_exact(&mut buf[..(min(MAX_SIZE, len - pos)) as usize])
                     .or(Err(Error::Read))?;
@@ -313,7 +314,8 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
         V: de::Visitor<'de>,
     {
         let count = u64::decode_prefix_varint(self.reader).or(Err(Error::Read))?;
-        visitor.visit_seq(SeqDeserializer::new(&mut self, count as usize))
+        let count = usize::try_from(count).or(Err(Error::Read))?;
+        visitor.visit_seq(SeqDeserializer::new(&mut self, count))
     }
 
     fn deserialize_tuple<V>(mut self, len: usize, visitor: V) -> Result<V::Value, Self::Error>
@@ -340,7 +342,8 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
         V: de::Visitor<'de>,
     {
         let count = u64::decode_prefix_varint(self.reader).or(Err(Error::Read))?;
-        visitor.visit_map(MapDeserializer::new(&mut self, count as usize))
+        let count = usize::try_from(count).or(Err(Error::Read))?;
+        visitor.visit_map(MapDeserializer::new(&mut self, count))
     }
 
     fn deserialize_struct<V>(
-- 
2.43.0

