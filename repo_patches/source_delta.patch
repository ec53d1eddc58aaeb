From b0663df4672c1a796696cccd667b61cdeaa8119b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 01/42] fix: address the right bits in the big endian bit codec

Fields shorter than their integer type were padded on the wrong side, and
writing cleared the bits of another field of the same byte.
---
 runtime/src/codec/bits.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/runtime/src/codec/bits.rs b/runtime/src/codec/bits.rs
index fb992a3..4a6c0fd 100644
--- a/runtime/src/codec/bits.rs
+++ b/runtime/src/codec/bits.rs
@@ -93,14 +93,28 @@ impl BitCodec for BitCodecBE {
         (value >> T::from_usize(8 - (BIT_SIZE % 8) - BIT_OFFSET)) & T::from_usize(mask)
     }
 
+    unsafe fn read_unaligned<T: ToUsize + ReadBytes + Shr<Output=T> + BitAnd<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
+        let mut data = [0; 8];
+        data[8 - buffer.len()..].copy_from_slice(buffer);
+        Self::read_aligned::<T, BIT_OFFSET, BIT_SIZE>(&data[8 - size_of::<T>()..])
+    }
+
     unsafe fn write_aligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
         let mask: usize = (1 << BIT_SIZE) - 1;
-        let reset_mask = !(mask << BIT_OFFSET);
+        let reset_mask = !(mask << (8 - (BIT_SIZE % 8) - BIT_OFFSET));
         let original = T::read_bytes_be(buffer);
         let clean = original & T::from_usize(reset_mask);
         let value = (value & T::from_usize(mask)) << T::from_usize(8 - (BIT_SIZE % 8) - BIT_OFFSET);
         (clean | value).write_bytes_be(buffer);
     }
+
+    unsafe fn write_unaligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
+        let start = 8 - buffer.len();
+        let mut data = [0; 8];
+        data[start..].copy_from_slice(buffer);
+        Self::write_aligned::<T, BIT_OFFSET, BIT_SIZE>(&mut data[8 - size_of::<T>()..], value);
+        buffer.copy_from_slice(&data[start..]);
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 4e7e75164e3a326fe05e5c15b3906aa1bd83f640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 02/42] fix: address the right bytes in the big endian byte
 codec

Integers of 24, 40, 48 or 56 bits were padded on the wrong side.
---
 runtime/src/codec/bytes.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/runtime/src/codec/bytes.rs b/runtime/src/codec/bytes.rs
index 2143e4c..e72a6f0 100644
--- a/runtime/src/codec/bytes.rs
+++ b/runtime/src/codec/bytes.rs
@@ -82,9 +82,23 @@ impl ByteCodec for ByteCodecBE {
         T::read_bytes_be(buffer)
     }
 
+    unsafe fn read_unaligned<T: ReadBytes>(buffer: &[u8]) -> T {
+        let mut data = [0; 8];
+        data[8 - buffer.len()..].copy_from_slice(buffer);
+        Self::read_aligned::<T>(&data[8 - size_of::<T>()..])
+    }
+
     unsafe fn write_aligned<T: WriteBytes>(buffer: &mut [u8], value: T) {
         value.write_bytes_be(buffer);
     }
+
+    unsafe fn write_unaligned<T: WriteBytes>(buffer: &mut [u8], value: T) {
+        let start = 8 - buffer.len();
+        let mut data = [0; 8];
+        data[start..].copy_from_slice(buffer);
+        Self::write_aligned::<T>(&mut data[8 - size_of::<T>()..], value);
+        buffer.copy_from_slice(&data[start..]);
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 539364bcd867881296b5584857e0960b92d628dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 03/42] fix: honour the endianness of a protocol

The endianness read from the definition was dropped and every protocol was
compiled as little endian.
---
 compiler/src/compiler/protocol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/compiler/protocol.rs b/compiler/src/compiler/protocol.rs
index cc0dccc..e53245a 100644
--- a/compiler/src/compiler/protocol.rs
+++ b/compiler/src/compiler/protocol.rs
@@ -55,7 +55,7 @@ impl Protocol {
     pub fn from_model<T: ImportResolver>(value: crate::model::Protocol, solver: &T) -> Result<Self, Error> {
         let mut proto = Protocol {
             name: value.name,
-            endianness: Endianness::Little,
+            endianness: value.endianness.unwrap_or(Endianness::Little),
             type_path_by_name: TypePathMap::new(),
             structs_by_name: HashMap::new(),
             messages_by_name: HashMap::new(),
-- 
2.43.0


From 0f9495a9e21e45696e0c87449d2246254a958fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 04/42] fix: report unsupported field widths instead of
 panicking

Signed fields of 0 or more than 64 bits and booleans of unsupported widths
made the compiler or the generator panic.
---
 compiler/src/compiler/structure.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 3517776..66a369f 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -91,7 +91,9 @@ impl FixedFieldType {
         let motherfuckingrust = ty1.clone();
         let ty = ty1.get_simple_type();
         let bit_size = ty1.get_bit_size().ok_or(Error::UnsupportedType(ty1))?;
-        if ty == SimpleType::Boolean {
+        if bit_size == 0 || bit_size > 64 {
+            Err(Error::UnsupportedBitSize(bit_size))
+        } else if ty == SimpleType::Boolean {
             Ok(Self::Bool)
         } else if ty == SimpleType::Float && bit_size == 32 {
             Ok(Self::Float32)
@@ -298,9 +300,9 @@ impl Field {
             _ => {
                 let array_len = value.array_len.unwrap_or(1);
                 let mut bit_size = value.info.get_bit_size().ok_or(Error::MissingBitSize)?;
+                let ty = FixedFieldType::from_model(value.info.clone())?;
                 let view = FieldView::from_model(proto, value.info.get_simple_type(), bit_size, value.view)?;
                 bit_size *= array_len;
-                let ty = FixedFieldType::from_model(value.info)?;
                 let loc = Location::from_model(bit_size, last_bit_offset);
                 if array_len > 1 {
                     if bit_size % 8 != 0 {
-- 
2.43.0


From 4ef3e8f4f5890b2ca79e2036f0ce1ce03ddd0982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 05/42] fix: map the whole raw range of a float range view

The view only reached its maximum, and read back what was stored, when its
minimum was 0.
---
 compiler/src/compiler/structure.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 66a369f..d5b922f 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -191,11 +191,11 @@ impl FieldView {
                 if ty != SimpleType::Float {
                     return Err(Error::UnsupportedViewType(ty));
                 }
-                let raw_max: usize = (1 << bit_size) - 1;
-                let a = max / (raw_max as f64);
+                let raw_max: usize = usize::MAX >> (64 - bit_size);
+                let a = (max - min) / (raw_max as f64);
                 let b = min;
                 let a_inv = 1.0 / a;
-                let b_inv = -b;
+                let b_inv = -b * a_inv;
                 Ok(FieldView::Float { a, b, a_inv, b_inv })
             }
             Some(StructFieldView::FloatMultiplier { multiplier }) => {
-- 
2.43.0


From 64e750add49022e66c67ca140cc0f0a2a2499523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 06/42] fix: reject float views which cannot be inverted

Empty ranges, null multipliers and coefficients out of range generated
infinite literals, which do not compile.
---
 compiler/src/compiler/structure.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index d5b922f..8175302 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -178,6 +178,16 @@ impl FieldView {
         }
     }
 
+    fn from_affine(bit_size: usize, a: f64, b: f64, a_inv: f64, b_inv: f64) -> Result<Self, Error> {
+        // A view which can't be inverted or expressed by the type of the field can't be generated.
+        let is_f32 = FixedFieldType::from_model(StructFieldType::Float { bits: bit_size })? == FixedFieldType::Float32;
+        if [a, b, a_inv, b_inv].iter().all(|v| if is_f32 { (*v as f32).is_finite() } else { v.is_finite() }) {
+            Ok(FieldView::Float { a, b, a_inv, b_inv })
+        } else {
+            Err(Error::UnsupportedViewType(SimpleType::Float))
+        }
+    }
+
     fn from_model(proto: &Protocol, ty: SimpleType, bit_size: usize, value: Option<StructFieldView>) -> Result<Self, Error> {
         match value {
             Some(StructFieldView::Enum { name }) => {
@@ -196,7 +206,7 @@ impl FieldView {
                 let b = min;
                 let a_inv = 1.0 / a;
                 let b_inv = -b * a_inv;
-                Ok(FieldView::Float { a, b, a_inv, b_inv })
+                Self::from_affine(bit_size, a, b, a_inv, b_inv)
             }
             Some(StructFieldView::FloatMultiplier { multiplier }) => {
                 if ty != SimpleType::Float {
@@ -206,7 +216,7 @@ impl FieldView {
                 let b = 0.0;
                 let a_inv = 1.0 / a;
                 let b_inv = 0.0;
-                Ok(FieldView::Float { a, b, a_inv, b_inv })
+                Self::from_affine(bit_size, a, b, a_inv, b_inv)
             }
             None => {
                 if ty == SimpleType::Float && bit_size != 32 && bit_size != 64 {
-- 
2.43.0


From 21855bbc73cc8f0b9bf036c99b92fdbc970b54a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 07/42] fix: never fabricate enum variants

Reading the bits of an enum field transmuted every value up to the largest
variant, including those between two variants, and did not compile when the
enum and the field had different sizes.
---
 compiler/src/gen/rust/enum.rs                  |  6 +++++-
 compiler/src/gen/rust/enum.template            | 12 ++++++++++++
 compiler/src/gen/rust/structure.field.template |  7 +------
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/compiler/src/gen/rust/enum.rs b/compiler/src/gen/rust/enum.rs
index 7cbb2d8..d941594 100644
--- a/compiler/src/gen/rust/enum.rs
+++ b/compiler/src/gen/rust/enum.rs
@@ -38,5 +38,9 @@ pub fn gen_enum_decl(e: &Enum) -> String {
     let mut code = e.variants.iter().map(|(k, v)|
         template.scope().var("key", k).var_d("value", v)
             .render("enum", &["variant"]).unwrap());
-    template.var("variants", code.join("")).render("", &["enum"]).unwrap()
+    let mut matches = e.variants.iter().map(|(k, v)|
+        template.scope().var("key", k).var_d("value", v)
+            .render("enum", &["match"]).unwrap());
+    let matches = matches.join("");
+    template.var("variants", code.join("")).var("matches", matches).render("", &["enum"]).unwrap()
 }
diff --git a/compiler/src/gen/rust/enum.template b/compiler/src/gen/rust/enum.template
index b9295e1..0a74f0f 100644
--- a/compiler/src/gen/rust/enum.template
+++ b/compiler/src/gen/rust/enum.template
@@ -6,4 +6,16 @@ pub enum {name} {{
     {key} = {value},
 #fragment pop
 }}
+
+impl {name} {{
+    pub fn from_raw(raw_value: u64) -> Option<Self> {{
+        match raw_value {{
+{matches}
+#fragment push match
+            {value} => Some(Self::{key}),
+#fragment pop
+            _ => None
+        }}
+    }}
+}}
 #fragment pop
diff --git a/compiler/src/gen/rust/structure.field.template b/compiler/src/gen/rust/structure.field.template
index e4b51f7..35a87ae 100644
--- a/compiler/src/gen/rust/structure.field.template
+++ b/compiler/src/gen/rust/structure.field.template
@@ -30,12 +30,7 @@ impl<T: AsRef<[u8]>> {struct_name}<T> {{
 #fragment pop
 #fragment push view_enum
     pub fn get_{name}(&self) -> Option<{view_type}> {{
-        let raw_value = self.get_raw_{name}();
-        if raw_value > {enum_largest} {{
-            None
-        }} else {{
-            Some(unsafe {{ std::mem::transmute::<{raw_type}, {view_type}>(raw_value) }})
-        }}
+        {view_type}::from_raw(self.get_raw_{name}() as u64)
     }}
 #fragment pop
 #fragment push view_transmute
-- 
2.43.0


From a7d852b9dba5ecc913e754413ce1b4d6da9f28a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 08/42] fix: reject enum fields too narrow for a variant

---
 compiler/src/compiler/structure.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 8175302..13ccfad 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -195,6 +195,9 @@ impl FieldView {
                     return Err(Error::UnsupportedViewType(ty));
                 }
                 let r = proto.enums_by_name.get(&name).ok_or_else(|| Error::UndefinedReference(name))?;
+                if r.largest > usize::MAX >> (64 - bit_size) {
+                    return Err(Error::UnsupportedBitSize(bit_size));
+                }
                 Ok(FieldView::Enum(r.clone()))
             }
             Some(StructFieldView::FloatRange { min, max }) => {
-- 
2.43.0


From 8ca009450d0d5df625cb5b137473fffcefe2f740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 09/42] fix: reject enum values which do not compile

Two variants with the same value, or a value above the largest isize, were
accepted but generated Rust code which does not compile.
---
 compiler/src/compiler/enum.rs  | 6 ++++++
 compiler/src/compiler/error.rs | 1 +
 2 files changed, 7 insertions(+)

diff --git a/compiler/src/compiler/enum.rs b/compiler/src/compiler/enum.rs
index 39138f0..742d3ea 100644
--- a/compiler/src/compiler/enum.rs
+++ b/compiler/src/compiler/enum.rs
@@ -43,6 +43,12 @@ impl Enum {
         variants.sort_by(|(_, v), (_, v1)| v.cmp(v1));
         let mut variants_map = HashMap::new();
         let largest = variants.last().map(|(_, v)| *v).ok_or(Error::ZeroEnum)?;
+        if let Some(w) = variants.windows(2).find(|w| w[0].1 == w[1].1) {
+            return Err(Error::InvalidEnumVariant(w[1].0.clone()));
+        }
+        if largest > isize::MAX as usize {
+            return Err(Error::InvalidEnumVariant(variants[variants.len() - 1].0.clone()));
+        }
         for (k, v) in &variants {
             variants_map.insert(k.clone(), *v);
         }
diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index 5c77b70..0d19d1e 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -41,6 +41,7 @@ simple_error! {
         UnalignedArrayCodec => "unaligned array in structure",
         SolverError => "failed to resolve imported type",
         ZeroEnum => "enums must have at least 1 variant",
+        InvalidEnumVariant(String) => "invalid value for enum variant {}",
         InvalidUnionDiscriminant => "invalid union discriminant path",
         FloatInUnionDiscriminant => "floats are not allowed as union discriminants",
         InvalidUnionCase(String) => "invalid union case {}",
-- 
2.43.0


From a7008332b0b79eee3648ab96531602590b5556f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 10/42] fix: reject structure fields which the codecs cannot
 address

Fields which do not fit the bytes selected by their size, nested structures
inside of a byte and arrays of sub-byte items or inside of a byte were
accepted, with accessors which read and wrote the bits of other fields.
---
 compiler/src/compiler/error.rs     | 1 +
 compiler/src/compiler/structure.rs | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index 0d19d1e..6766801 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -39,6 +39,7 @@ simple_error! {
         MissingBitSize => "missing bits specifier on a structure field",
         UndefinedReference(String) => "undefined reference to '{}'",
         UnalignedArrayCodec => "unaligned array in structure",
+        UnalignedField(String) => "unaligned field {} in structure",
         SolverError => "failed to resolve imported type",
         ZeroEnum => "enums must have at least 1 variant",
         InvalidEnumVariant(String) => "invalid value for enum variant {}",
diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 13ccfad..ee6a160 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -304,6 +304,9 @@ impl Field {
         match value.info {
             StructFieldType::Struct { item_type } => {
                 let r = proto.structs_by_name.get(&item_type).ok_or_else(|| Error::UndefinedReference(item_type))?;
+                if last_bit_offset % 8 != 0 {
+                    return Err(Error::UnalignedField(value.name));
+                }
                 Ok((Self::Struct(StructField {
                     name: value.name,
                     r: r.clone(),
@@ -318,7 +321,7 @@ impl Field {
                 bit_size *= array_len;
                 let loc = Location::from_model(bit_size, last_bit_offset);
                 if array_len > 1 {
-                    if bit_size % 8 != 0 {
+                    if bit_size / array_len % 8 != 0 || loc.bit_offset != 0 {
                         return Err(Error::UnalignedArrayCodec);
                     }
                     Ok((Self::Array(FixedArrayField {
@@ -329,6 +332,9 @@ impl Field {
                         loc
                     }), last_bit_offset + bit_size))
                 } else {
+                    if loc.bit_offset + loc.bit_size > loc.byte_size * 8 {
+                        return Err(Error::UnalignedField(value.name));
+                    }
                     Ok((Self::Fixed(FixedField {
                         name: value.name,
                         endianness: proto.endianness,
-- 
2.43.0


From 58abd1d1acd327aa33c567fe39aed5d0e270ae85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 11/42] fix: reject structure field options which would be
 ignored

Arrays of structures, and views on arrays or structures, were accepted but
generated as if the option was missing.
---
 compiler/src/compiler/structure.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index ee6a160..9d5cc03 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -301,7 +301,10 @@ impl Field {
     }
 
     fn from_model(proto: &Protocol, last_bit_offset: usize, value: crate::model::structure::StructField) -> Result<(Self, usize), Error> {
+        let array_len = value.array_len.unwrap_or(1);
         match value.info {
+            StructFieldType::Struct { .. } if array_len != 1 => Err(Error::UnsupportedType(value.info)),
+            StructFieldType::Struct { .. } if value.view.is_some() => Err(Error::UnsupportedViewType(SimpleType::Struct)),
             StructFieldType::Struct { item_type } => {
                 let r = proto.structs_by_name.get(&item_type).ok_or_else(|| Error::UndefinedReference(item_type))?;
                 if last_bit_offset % 8 != 0 {
@@ -314,9 +317,11 @@ impl Field {
                 }), last_bit_offset + r.bit_size))
             },
             _ => {
-                let array_len = value.array_len.unwrap_or(1);
                 let mut bit_size = value.info.get_bit_size().ok_or(Error::MissingBitSize)?;
                 let ty = FixedFieldType::from_model(value.info.clone())?;
+                if array_len != 1 && value.view.is_some() {
+                    return Err(Error::UnsupportedViewType(value.info.get_simple_type()));
+                }
                 let view = FieldView::from_model(proto, value.info.get_simple_type(), bit_size, value.view)?;
                 bit_size *= array_len;
                 let loc = Location::from_model(bit_size, last_bit_offset);
-- 
2.43.0


From 74541805f2c35f2271e8b9b5bd7439558f49da58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 12/42] fix: report unsupported array lengths instead of
 panicking

Empty arrays made the generator panic, huge ones overflowed the size of the
structure.
---
 compiler/src/compiler/structure.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 9d5cc03..6d10a25 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -310,6 +310,9 @@ impl Field {
                 if last_bit_offset % 8 != 0 {
                     return Err(Error::UnalignedField(value.name));
                 }
+                if last_bit_offset.checked_add(r.bit_size).is_none() {
+                    return Err(Error::UnsupportedBitSize(r.bit_size));
+                }
                 Ok((Self::Struct(StructField {
                     name: value.name,
                     r: r.clone(),
@@ -323,7 +326,8 @@ impl Field {
                     return Err(Error::UnsupportedViewType(value.info.get_simple_type()));
                 }
                 let view = FieldView::from_model(proto, value.info.get_simple_type(), bit_size, value.view)?;
-                bit_size *= array_len;
+                bit_size = bit_size.checked_mul(array_len).filter(|v| *v > 0 && last_bit_offset.checked_add(*v).is_some())
+                    .ok_or(Error::UnsupportedBitSize(bit_size))?;
                 let loc = Location::from_model(bit_size, last_bit_offset);
                 if array_len > 1 {
                     if bit_size / array_len % 8 != 0 || loc.bit_offset != 0 {
-- 
2.43.0


From ecb26df361a0ab87bd8100ebed937d929f53bb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 13/42] fix: report length prefixes beyond the end of the input
 as truncation

Reading a string or an array shorter than its length prefix panicked, or
overflowed for lengths close to the largest usize.
---
 runtime/src/message/util/array.rs  | 4 ++--
 runtime/src/message/util/string.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/src/message/util/array.rs b/runtime/src/message/util/array.rs
index 99e2ccb..d1788bc 100644
--- a/runtime/src/message/util/array.rs
+++ b/runtime/src/message/util/array.rs
@@ -72,7 +72,7 @@ impl<'a, Item: From<&'a [u8]>> Iterator for Iter<'a, Item> {
 
 impl<B: AsRef<[u8]>, T, Item: FixedSize> Array<B, T, Item> {
     pub fn from_parts(data: B, len: usize) -> Option<Array<B, T, Item>> {
-        match data.as_ref().len() == len * Item::SIZE {
+        match Some(data.as_ref().len()) == len.checked_mul(Item::SIZE) {
             true => Some(unsafe { Array::from_raw_parts(data, len) }),
             false => None
         }
@@ -116,7 +116,7 @@ impl<'a, T: FromSlice<'a, Output: ToUsize>, Item: FixedSize + FromSlice<'a, Outp
         let msg = T::from_slice(slice)?;
         let control_size = msg.size();
         let len = msg.into_inner().to_usize();
-        let total_size = control_size + (len * Item::SIZE);
+        let total_size = len.checked_mul(Item::SIZE).and_then(|v| v.checked_add(control_size)).ok_or(Error::Truncated)?;
         if slice.len() < total_size {
             Err(Error::Truncated)
         } else {
diff --git a/runtime/src/message/util/string.rs b/runtime/src/message/util/string.rs
index 3a5fe43..435e585 100644
--- a/runtime/src/message/util/string.rs
+++ b/runtime/src/message/util/string.rs
@@ -64,7 +64,7 @@ impl<'a, T: FromSlice<'a, Output: ToUsize>> FromSlice<'a> for VarcharString<T> {
     fn from_slice(slice: &'a [u8]) -> Result<Message<Self::Output>, Error> {
         let msg = T::from_slice(slice)?;
         let size = msg.size();
-        let subslice = &slice[size..size + msg.into_inner().to_usize()];
+        let subslice = slice[size..].get(..msg.into_inner().to_usize()).ok_or(Error::Truncated)?;
         let string = std::str::from_utf8(subslice).map_err(|_| Error::InvalidUtf8)?;
         Ok(Message::new(size + string.len(), string))
     }
-- 
2.43.0


From 35ba4d84a4f78de3d52d33441edbceebb49477e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 14/42] fix: stop iterating a list at its first malformed item

The iterators returned the same error forever.
---
 runtime/src/message/util/list.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/runtime/src/message/util/list.rs b/runtime/src/message/util/list.rs
index 23164cd..fd0917e 100644
--- a/runtime/src/message/util/list.rs
+++ b/runtime/src/message/util/list.rs
@@ -73,7 +73,10 @@ impl<'a, Item: FromSlice<'a, Output = Item>> Iterator for Iter<'a, Item> {
             return None;
         }
         let msg = match Item::from_slice(self.data) {
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                self.len = 0;
+                return Some(Err(e))
+            },
             Ok(v) => v
         };
         self.data = &self.data[msg.size()..];
@@ -96,7 +99,10 @@ impl<'a, Item: FromSlice<'a, Output = Item> + FromSliceWithOffsets<'a>> Iterator
             return None;
         }
         let msg = match Item::from_slice_with_offsets(&self.data[..]) {
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                self.len = 0;
+                return Some(Err(e))
+            },
             Ok(v) => v
         };
         self.data = &self.data[msg.size()..];
-- 
2.43.0


From 0a56efa37e741a6bec941d2b62985ddb285c7924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 15/42] fix: refuse values too long for their length prefix

The length was silently truncated, leaving the items or bytes after it to be
decoded as the next fields.
---
 runtime/src/message/util/common.rs    | 9 +++++++++
 runtime/src/message/util/list_base.rs | 2 +-
 runtime/src/message/util/mod.rs       | 1 +
 runtime/src/message/util/string.rs    | 3 ++-
 4 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/runtime/src/message/util/common.rs b/runtime/src/message/util/common.rs
index ed58874..c4d77e3 100644
--- a/runtime/src/message/util/common.rs
+++ b/runtime/src/message/util/common.rs
@@ -30,6 +30,7 @@ use std::io::Write;
 use std::marker::PhantomData;
 use bytesutil::ReadBytes;
 use crate::message::{Error, FromSlice, FromSliceWithOffsets, Message, WriteTo};
+use crate::util::ToUsize;
 
 pub struct Optional<T>(PhantomData<T>);
 
@@ -137,6 +138,14 @@ impl<T: bytesutil::WriteTo> WriteTo for ValueBE<T> {
     }
 }
 
+/// Converts a length to the type of its prefix, unless it is too large for this type.
+pub(crate) fn len_prefix<T: ToUsize>(len: usize) -> Result<T, Error> {
+    match T::from_usize(len).to_usize() == len {
+        true => Ok(T::from_usize(len)),
+        false => Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "too long for its length prefix").into())
+    }
+}
+
 pub struct Buffer;
 
 impl<'a> FromSlice<'a> for Buffer {
diff --git a/runtime/src/message/util/list_base.rs b/runtime/src/message/util/list_base.rs
index 4a0f801..47d8021 100644
--- a/runtime/src/message/util/list_base.rs
+++ b/runtime/src/message/util/list_base.rs
@@ -51,7 +51,7 @@ macro_rules! impl_list_base {
             type Input = $t<B, T, Item>;
 
             fn write_to<W: std::io::Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
-                T::write_to(&T::Input::from_usize(input.len), &mut out)?;
+                T::write_to(&crate::message::util::len_prefix(input.len)?, &mut out)?;
                 out.write_all(input.data.as_ref())?;
                 Ok(())
             }
diff --git a/runtime/src/message/util/mod.rs b/runtime/src/message/util/mod.rs
index 66596f1..3d08dad 100644
--- a/runtime/src/message/util/mod.rs
+++ b/runtime/src/message/util/mod.rs
@@ -34,6 +34,7 @@ pub mod array;
 mod list_base;
 
 pub use common::*;
+pub(crate) use common::len_prefix;
 pub use string::*;
 pub use list::List;
 pub use array::Array;
diff --git a/runtime/src/message/util/string.rs b/runtime/src/message/util/string.rs
index 435e585..1ccd7e5 100644
--- a/runtime/src/message/util/string.rs
+++ b/runtime/src/message/util/string.rs
@@ -29,6 +29,7 @@
 use std::io::Write;
 use std::marker::PhantomData;
 use crate::message::{Error, FromSlice, Message, WriteTo};
+use crate::message::util::len_prefix;
 use crate::util::ToUsize;
 
 pub struct NullTerminatedString;
@@ -74,7 +75,7 @@ impl<T: WriteTo<Input: ToUsize + Sized>> WriteTo for VarcharString<T> {
     type Input = str;
 
     fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
-        T::write_to(&T::Input::from_usize(input.len()), &mut out)?;
+        T::write_to(&len_prefix(input.len())?, &mut out)?;
         out.write_all(input.as_bytes())?;
         Ok(())
     }
-- 
2.43.0


From 6d51ac84199aa86cf8ae84b872b7a284276a7605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 16/42] fix: refuse the terminator inside of a null-terminated
 string

Everything after it was decoded as the next fields.
---
 runtime/src/message/util/string.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/src/message/util/string.rs b/runtime/src/message/util/string.rs
index 1ccd7e5..9f502ec 100644
--- a/runtime/src/message/util/string.rs
+++ b/runtime/src/message/util/string.rs
@@ -51,6 +51,9 @@ impl WriteTo for NullTerminatedString {
     type Input = str;
 
     fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
+        if input.as_bytes().contains(&0x0) {
+            return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "terminator in null-terminated string").into());
+        }
         out.write_all(input.as_bytes())?;
         out.write_all(&[0x0])?;
         Ok(())
-- 
2.43.0


From d3024169866bb7a2358b758eeb7882066952a482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 17/42] fix: keep lists intact when an item cannot be written

The fields written before the error stayed in the list and were decoded as
the start of the next item.
---
 runtime/src/message/util/list_base.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/src/message/util/list_base.rs b/runtime/src/message/util/list_base.rs
index 47d8021..3c6cd28 100644
--- a/runtime/src/message/util/list_base.rs
+++ b/runtime/src/message/util/list_base.rs
@@ -59,6 +59,8 @@ macro_rules! impl_list_base {
 
         impl<B: std::io::Write, T, I> $t<B, T, I> {
             pub fn write_item<Item: WriteTo<Input = Item>>(&mut self, item: &Item) -> Result<(), Error> {
+                // Do not leave the start of an item which can't be written.
+                Item::write_to(item, std::io::sink())?;
                 Item::write_to(item, &mut self.data)?;
                 self.len += 1;
                 Ok(())
-- 
2.43.0


From 8fd8911724066390cc1cb32d9064f0373930ec25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 18/42] fix: reject discriminant paths which do not end at a
 field

A path without field, or ending at a structure, panicked; the parts after a
field were ignored.
---
 compiler/src/compiler/union.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/compiler/src/compiler/union.rs b/compiler/src/compiler/union.rs
index b81a205..089c9c4 100644
--- a/compiler/src/compiler/union.rs
+++ b/compiler/src/compiler/union.rs
@@ -108,13 +108,17 @@ impl DiscriminantField {
         let mut leaf = proto.structs_by_name.get(name).ok_or_else(|| Error::UndefinedReference(name.into()))?;
         let root = leaf;
         let mut index_list = Vec::new();
+        let mut leaf_index = None;
         for sub in parts {
+            if leaf_index.is_some() {
+                return Err(Error::InvalidUnionDiscriminant);
+            }
             let (index, field) = leaf.fields.iter().enumerate()
                 .find(|(_, v)| v.name() == sub)
                 .ok_or_else(|| Error::UndefinedReference(format!("{}.{}", name, sub)))?;
             index_list.push(index);
             match field {
-                Field::Fixed(_) => break,
+                Field::Fixed(_) => leaf_index = Some(index),
                 Field::Struct(v) => leaf = &v.r,
                 Field::Array(_) => return Err(Error::InvalidUnionDiscriminant)
             }
@@ -122,7 +126,7 @@ impl DiscriminantField {
         Ok(DiscriminantField {
             root: root.clone(),
             leaf: leaf.clone(),
-            leaf_index: index_list.last().map(|v| *v).unwrap(),
+            leaf_index: leaf_index.ok_or(Error::InvalidUnionDiscriminant)?,
             index_list
         })
     }
-- 
2.43.0


From db29f34da27771127a85f2d32e2102c0479b6eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 19/42] fix: match union cases with the raw value of the
 discriminant

Negative cases generated literals which do not fit the discriminant, and
cases beyond its range were accepted although they can never be selected.
---
 compiler/src/compiler/structure.rs |  4 ++++
 compiler/src/compiler/union.rs     | 12 ++++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 6d10a25..44db818 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -74,6 +74,10 @@ impl FixedFieldType {
         }
     }
 
+    pub fn is_signed(&self) -> bool {
+        matches!(self, FixedFieldType::Int8 | FixedFieldType::Int16 | FixedFieldType::Int32 | FixedFieldType::Int64)
+    }
+
     pub fn from_max_value(max_value: usize) -> Result<Self, Error> {
         let bit_size = if max_value > u32::MAX as usize {
             64
diff --git a/compiler/src/compiler/union.rs b/compiler/src/compiler/union.rs
index 089c9c4..05f4ea8 100644
--- a/compiler/src/compiler/union.rs
+++ b/compiler/src/compiler/union.rs
@@ -43,11 +43,15 @@ impl UnionField {
         let case: usize = match &discriminant.view {
             FieldView::Float { .. } => return Err(Error::FloatInUnionDiscriminant),
             FieldView::Enum(v) => v.variants_map.get(&value.case).map(|v| *v).ok_or_else(|| Error::InvalidUnionCase(value.case))?,
-            FieldView::Transmute | FieldView::SignedCast { .. } => {
-                let value: isize = value.case.parse().map_err(|_| Error::InvalidUnionCase(value.case))?;
-                value as usize
+            FieldView::Transmute | FieldView::SignedCast { .. } if discriminant.ty.is_signed() => {
+                // Cases are compared with the raw bits of the discriminant.
+                let unused_bits = 64 - discriminant.loc.bit_size;
+                value.case.parse().ok().filter(|v: &i64| *v << unused_bits >> unused_bits == *v)
+                    .map(|v| (v as u64 & (u64::MAX >> unused_bits)) as usize)
+                    .ok_or_else(|| Error::InvalidUnionCase(value.case))?
             }
-            FieldView::None => value.case.parse().map_err(|_| Error::InvalidUnionCase(value.case))?
+            _ => value.case.parse().ok().filter(|v: &usize| *v <= usize::MAX >> (64 - discriminant.loc.bit_size))
+                .ok_or_else(|| Error::InvalidUnionCase(value.case))?
         };
         let item_type = value.item_type.map(|v| Referenced::lookup(proto, &v).ok_or_else(|| Error::UndefinedReference(v)))
             .transpose()?;
-- 
2.43.0


From 6a1178e564bed8d8e9bec0f45a032a0ce649e0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 20/42] fix: reject plain floats as union discriminants

Only floats with a view were rejected.
---
 compiler/src/compiler/union.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/src/compiler/union.rs b/compiler/src/compiler/union.rs
index 05f4ea8..0b061f2 100644
--- a/compiler/src/compiler/union.rs
+++ b/compiler/src/compiler/union.rs
@@ -29,7 +29,7 @@
 use std::rc::Rc;
 use crate::compiler::message::{Referenced, SizeInfo};
 use crate::compiler::{Error, Protocol};
-use crate::compiler::structure::{Field, FieldView, FixedField, Structure};
+use crate::compiler::structure::{Field, FieldView, FixedField, FixedFieldType, Structure};
 
 #[derive(Clone, Debug)]
 pub struct UnionField {
@@ -42,6 +42,7 @@ impl UnionField {
     pub fn from_model(proto: &Protocol, discriminant: &FixedField, value: crate::model::union::UnionField) -> Result<Self, Error> {
         let case: usize = match &discriminant.view {
             FieldView::Float { .. } => return Err(Error::FloatInUnionDiscriminant),
+            _ if matches!(discriminant.ty, FixedFieldType::Float32 | FixedFieldType::Float64) => return Err(Error::FloatInUnionDiscriminant),
             FieldView::Enum(v) => v.variants_map.get(&value.case).map(|v| *v).ok_or_else(|| Error::InvalidUnionCase(value.case))?,
             FieldView::Transmute | FieldView::SignedCast { .. } if discriminant.ty.is_signed() => {
                 // Cases are compared with the raw bits of the discriminant.
-- 
2.43.0


From d59b13bfc747dd4bb1fdacf4d393a0d50df8b572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 21/42] fix: reject ambiguous and empty unions

Two cases of the same discriminant cannot be told apart when decoding, and
unions without cases do not compile.
---
 compiler/src/compiler/error.rs | 1 +
 compiler/src/compiler/union.rs | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index 6766801..4e54612 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -43,6 +43,7 @@ simple_error! {
         SolverError => "failed to resolve imported type",
         ZeroEnum => "enums must have at least 1 variant",
         InvalidEnumVariant(String) => "invalid value for enum variant {}",
+        ZeroUnion => "unions must have at least 1 case",
         InvalidUnionDiscriminant => "invalid union discriminant path",
         FloatInUnionDiscriminant => "floats are not allowed as union discriminants",
         InvalidUnionCase(String) => "invalid union case {}",
diff --git a/compiler/src/compiler/union.rs b/compiler/src/compiler/union.rs
index 0b061f2..4b757aa 100644
--- a/compiler/src/compiler/union.rs
+++ b/compiler/src/compiler/union.rs
@@ -150,6 +150,12 @@ impl Union {
         let discriminant = DiscriminantField::from_model(proto, value.discriminant)?;
         let cases = value.cases.into_iter().map(|v| UnionField::from_model(proto, discriminant.get_leaf(), v))
             .collect::<Result<Vec<UnionField>, Error>>()?;
+        if cases.is_empty() {
+            return Err(Error::ZeroUnion);
+        }
+        if let Some((_, v)) = cases.iter().enumerate().find(|(i, v)| cases[..*i].iter().any(|v1| v1.case == v.case)) {
+            return Err(Error::InvalidUnionCase(v.name.clone()));
+        }
         let is_element_dyn_sized = cases.iter().any(|v| v.item_type.as_ref().map(|v| match v {
             Referenced::Struct(_) => false,
             Referenced::Message(v) => v.size.is_element_dyn_sized
-- 
2.43.0


From 9d6c66884295416e349a6bb6caa6f5f7d9ad35cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 22/42] fix: reject unions on optional fields

The generated code did not compile.
---
 compiler/src/compiler/message.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index ad2a248..053d813 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -245,6 +245,9 @@ impl Field {
                     } else {
                         None
                     }).ok_or_else(|| Error::UndefinedReference(on))?;
+                if on_field.optional {
+                    return Err(Error::UnionTypeMismatch);
+                }
                 let r = proto.unions_by_name.get(&item_type).ok_or_else(|| Error::UndefinedReference(item_type))?;
                 match &on_field.ty {
                     FieldType::Ref(v) => match v {
-- 
2.43.0


From e2aa2f4308c6feb5a63f87be7e20e45851e8969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 23/42] fix: check the discriminant of union cases without
 content

Writing such a case with the discriminant of another one succeeded, the
result was decoded as the other case.
---
 compiler/src/gen/rust/union.rs       | 25 +++++++++++--------------
 compiler/src/gen/rust/union.template | 17 +++++++++++++++--
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/compiler/src/gen/rust/union.rs b/compiler/src/gen/rust/union.rs
index cbbf563..7123836 100644
--- a/compiler/src/gen/rust/union.rs
+++ b/compiler/src/gen/rust/union.rs
@@ -82,20 +82,17 @@ fn gen_union_from_slice_impl(u: &Union, template: &Template, type_path_by_name:
 fn gen_union_write_to_impl(u: &Union, template: &Template, type_path_by_name: &TypePathMap) -> String {
     let generics = get_generics(u);
     let mut scope = template.scope();
-    if generics != "" {
-        let cases = u.cases.iter().filter_map(|case| {
-            let mut scope = template.scope();
-            scope.var("name", &case.name).var_d("case", case.case);
-            match &case.item_type {
-                None => None,
-                Some(item_type) => Some(scope.var("type_name", type_path_by_name.get(item_type.name()))
-                    .render("write_to.generics", &["case"]).unwrap())
-            }
-        }).join("");
-        scope.var("cases", cases).render_to_var("write_to", &["generics"], "fragment").unwrap();
-    } else {
-        scope.render_to_var("write_to", &["none"], "fragment").unwrap();
-    }
+    let path = if generics != "" { "generics" } else { "none" };
+    let cases = u.cases.iter().map(|case| {
+        let mut scope = template.scope();
+        scope.var("name", &case.name).var_d("case", case.case);
+        match &case.item_type {
+            None => scope.render(&format!("write_to.{path}"), &["case_none"]).unwrap(),
+            Some(item_type) => scope.var("type_name", type_path_by_name.get(item_type.name()))
+                .render("write_to.generics", &["case"]).unwrap()
+        }
+    }).join("");
+    scope.var("cases", cases).render_to_var("write_to", &[path], "fragment").unwrap();
     scope.render("", &["write_to"]).unwrap()
 }
 
diff --git a/compiler/src/gen/rust/union.template b/compiler/src/gen/rust/union.template
index e20da4c..f332fa8 100644
--- a/compiler/src/gen/rust/union.template
+++ b/compiler/src/gen/rust/union.template
@@ -77,13 +77,26 @@ impl<'a> {union_name}{generics} {{
                 return Err(bp3d_proto::message::Error::InvalidUnionDiscriminant(discriminant as _))
             }},
 #fragment pop
-            _ => ()
+#fragment push case_none
+            Self::{name} => if discriminant != {case} {{
+                return Err(bp3d_proto::message::Error::InvalidUnionDiscriminant(discriminant as _))
+            }},
+#fragment pop
         }};
         Ok(())
     }}
 #fragment pop
 #fragment push none
-    pub fn write_to<W: std::io::Write>(_: &Self, _: &{discriminant_type}<&'a [u8]>, _: W) -> bp3d_proto::message::Result<()> {{
+    pub fn write_to<W: std::io::Write>(input: &Self, discriminant: &{discriminant_type}<&'a [u8]>, _: W) -> bp3d_proto::message::Result<()> {{
+        let discriminant = discriminant.{discriminant_path};
+        match input {{
+{cases}
+#fragment push case_none
+            Self::{name} => if discriminant != {case} {{
+                return Err(bp3d_proto::message::Error::InvalidUnionDiscriminant(discriminant as _))
+            }},
+#fragment pop
+        }};
         Ok(())
     }}
 #fragment pop
-- 
2.43.0


From 585abbcdd62302de780ddc1e05028451eade3fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 24/42] fix: support optional values and lists in messages

The generated code did not compile, as the codecs of values and lists read
and write another type than themselves.
---
 runtime/src/message/util/common.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/runtime/src/message/util/common.rs b/runtime/src/message/util/common.rs
index c4d77e3..f7d0cd7 100644
--- a/runtime/src/message/util/common.rs
+++ b/runtime/src/message/util/common.rs
@@ -34,10 +34,10 @@ use crate::util::ToUsize;
 
 pub struct Optional<T>(PhantomData<T>);
 
-impl<'a, T: FromSlice<'a, Output = T>> FromSlice<'a> for Optional<T> {
-    type Output = Option<T>;
+impl<'a, T: FromSlice<'a>> FromSlice<'a> for Optional<T> {
+    type Output = Option<T::Output>;
 
-    fn from_slice(slice: &'a [u8]) -> Result<Message<Option<T>>, Error> {
+    fn from_slice(slice: &'a [u8]) -> Result<Message<Self::Output>, Error> {
         if slice.len() < 1 {
             Err(Error::Truncated)
         } else {
@@ -52,7 +52,7 @@ impl<'a, T: FromSlice<'a, Output = T>> FromSlice<'a> for Optional<T> {
     }
 }
 
-impl<'a, T: FromSlice<'a, Output = T> + FromSliceWithOffsets<'a>> FromSliceWithOffsets<'a> for Optional<T> {
+impl<'a, T: FromSliceWithOffsets<'a>> FromSliceWithOffsets<'a> for Optional<T> {
     type Offsets = Option<T::Offsets>;
 
     fn from_slice_with_offsets(slice: &'a [u8]) -> crate::message::Result<Message<(Self::Output, Self::Offsets)>> {
@@ -72,8 +72,8 @@ impl<'a, T: FromSlice<'a, Output = T> + FromSliceWithOffsets<'a>> FromSliceWithO
     }
 }
 
-impl<T: WriteTo<Input = T>> WriteTo for Optional<T> {
-    type Input = Option<T>;
+impl<T: WriteTo<Input: Sized>> WriteTo for Optional<T> {
+    type Input = Option<T::Input>;
 
     fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
         match input {
-- 
2.43.0


From 537b0e9287834703914b2ce8cda41ad4ed0eb47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 25/42] fix: read lists which are followed by other data up to
 their last item

Lists followed by other fields, or inside of a list item through another
message or a union, consumed the rest of the input.
---
 compiler/src/compiler/message.rs | 33 +++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index 053d813..657a69b 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -125,6 +125,18 @@ pub struct Field {
 }
 
 impl Field {
+    /// Returns all messages which may be stored in place of this field.
+    fn messages(&self) -> Vec<&Message> {
+        match &self.ty {
+            FieldType::Ref(Referenced::Message(v)) => vec![v],
+            FieldType::Union(v) => v.r.cases.iter().filter_map(|v| match &v.item_type {
+                Some(Referenced::Message(v)) => Some(&**v),
+                _ => None
+            }).collect(),
+            _ => Vec::new()
+        }
+    }
+
     fn from_model(proto: &Protocol, unsorted: &[Field], value: crate::model::message::MessageField) -> Result<Self, Error> {
         match value.info {
             MessageFieldType::Item { item_type } => {
@@ -191,7 +203,7 @@ impl Field {
                         })
                     },
                     Referenced::Message(item_type) => {
-                        item_type.embedded.set(true);
+                        item_type.set_embedded();
                         Ok(Field {
                             name: value.name,
                             ty: FieldType::List(ListField {
@@ -303,6 +315,16 @@ impl Message {
         self.embedded.get()
     }
 
+    /// Marks this message, and all messages at its end, as followed by other data.
+    fn set_embedded(&self) {
+        if self.embedded.replace(true) {
+            return;
+        }
+        for v in self.fields.iter().flat_map(Field::messages) {
+            v.set_embedded();
+        }
+    }
+
     pub fn from_model(proto: &Protocol, value: crate::model::message::Message) -> Result<Message, Error> {
         let mut fields = Vec::with_capacity(value.fields.len());
         let mut dyn_sized_elem_count = 0;
@@ -323,7 +345,8 @@ impl Message {
             }
             fields.push(field);
         }
-        Ok(Message {
+        let is_embedded = fields.iter().rev().skip(1).any(|v| v.size.is_element_dyn_sized);
+        let msg = Message {
             name: value.name,
             fields,
             size: SizeInfo {
@@ -331,6 +354,10 @@ impl Message {
                 is_element_dyn_sized: dyn_sized_elem_count > 0
             },
             embedded: Cell::new(false)
-        })
+        };
+        if is_embedded {
+            msg.set_embedded();
+        }
+        Ok(msg)
     }
 }
-- 
2.43.0


From fe13032d9122806075d8566e8a85f1b8b22dde54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 26/42] fix: reject payloads followed by other data

A payload extends to the end of the input, nothing after it could be read.
---
 compiler/src/compiler/error.rs   |  1 +
 compiler/src/compiler/message.rs | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index 4e54612..d022ea7 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -32,6 +32,7 @@ use crate::model::structure::{SimpleType, StructFieldType};
 simple_error! {
     pub Error {
         MultiPayload => "message has more than 1 payload",
+        PayloadNotLast => "message has a payload which is followed by other data",
         VarsizeAfterPayload => "message has 1 or more variable sized fields after the payload",
         UnsupportedBitSize(usize) => "unsupported bit size for fixed field ({}), maximum is 64",
         UnsupportedType(StructFieldType) => "unsupported field type in struct: {:?}",
diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index 657a69b..e375182 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -137,6 +137,10 @@ impl Field {
         }
     }
 
+    fn has_payload(&self) -> bool {
+        matches!(self.ty, FieldType::Payload) || self.messages().into_iter().any(|v| v.has_payload)
+    }
+
     fn from_model(proto: &Protocol, unsorted: &[Field], value: crate::model::message::MessageField) -> Result<Self, Error> {
         match value.info {
             MessageFieldType::Item { item_type } => {
@@ -203,6 +207,9 @@ impl Field {
                         })
                     },
                     Referenced::Message(item_type) => {
+                        if item_type.has_payload {
+                            return Err(Error::PayloadNotLast);
+                        }
                         item_type.set_embedded();
                         Ok(Field {
                             name: value.name,
@@ -307,6 +314,7 @@ pub struct Message {
     pub name: String,
     pub fields: Vec<Field>,
     pub size: SizeInfo,
+    has_payload: bool,
     embedded: Cell<bool>
 }
 
@@ -345,9 +353,13 @@ impl Message {
             }
             fields.push(field);
         }
+        if fields.iter().rev().skip(1).any(Field::has_payload) {
+            return Err(Error::PayloadNotLast);
+        }
         let is_embedded = fields.iter().rev().skip(1).any(|v| v.size.is_element_dyn_sized);
         let msg = Message {
             name: value.name,
+            has_payload: fields.iter().any(Field::has_payload),
             fields,
             size: SizeInfo {
                 is_dyn_sized,
-- 
2.43.0


From 5ac566f4d3ec76442385b9015bc833bef3e17d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 27/42] fix: keep the declared width of structures with a
 single field

Integers of 24, 40, 48 or 56 bits, and booleans of more than 8 bits, were
encoded with the width of another type.
---
 compiler/src/compiler/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index e375182..5fe2378 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -149,7 +149,7 @@ impl Field {
                     Referenced::Struct(r) => {
                         if r.fields.len() == 1 && r.fields[0].as_fixed().is_some()
                             && r.fields[0].as_fixed().map(|v| v.view.is_transmute()).unwrap_or_default()
-                            && r.fields[0].as_fixed().map(|v| v.loc.bit_size % 8 == 0).unwrap_or_default() {
+                            && r.fields[0].as_fixed().map(|v| v.loc.bit_size == v.ty.get_byte_size() * 8).unwrap_or_default() {
                             let fixed = unsafe { r.fields[0].as_fixed().unwrap_unchecked() };
                             Ok(Field {
                                 name: value.name,
-- 
2.43.0


From efabd345eb2163a2dafbdf8610bc87921173d9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 28/42] fix: keep the endianness of imported structures with a
 single field

They were encoded with the endianness of the importing protocol.
---
 compiler/src/compiler/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index 5fe2378..de6d505 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -161,7 +161,7 @@ impl Field {
                                     is_dyn_sized: false,
                                     is_element_dyn_sized: false
                                 },
-                                endianness: proto.endianness
+                                endianness: fixed.endianness
                             })
                         } else {
                             Ok(Field {
-- 
2.43.0


From 742d9b1cd879a258aa8609cb9b6ffcdeb301d201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 29/42] fix: only pass lifetimes to the types which have one

References to messages of values only, and to unions without content, did
not compile.
---
 compiler/src/gen/base/message.rs           | 11 ++++----
 compiler/src/gen/rust/message.ext.template |  2 +-
 compiler/src/gen/rust/message.rs           |  5 ++--
 compiler/src/gen/rust/message.template     |  2 +-
 compiler/src/gen/rust/union.rs             |  9 ++++---
 compiler/src/gen/rust/union.template       |  4 +--
 compiler/src/gen/rust/util.rs              | 30 ++++++++++++++++------
 7 files changed, 40 insertions(+), 23 deletions(-)

diff --git a/compiler/src/gen/base/message.rs b/compiler/src/gen/base/message.rs
index afcfcc3..3aef480 100644
--- a/compiler/src/gen/base/message.rs
+++ b/compiler/src/gen/base/message.rs
@@ -29,6 +29,7 @@
 use itertools::Itertools;
 use crate::compiler::message::{Field, FieldType, Message, Referenced};
 use crate::compiler::structure::FixedFieldType;
+use crate::compiler::union::Union;
 use crate::compiler::util::TypePathMap;
 use crate::gen::template::Template;
 use crate::model::protocol::Endianness;
@@ -49,8 +50,8 @@ pub trait Utilities: crate::gen::base::structure::Utilities {
     fn get_payload_type() -> &'static str;
     fn get_payload_type_inline() -> &'static str;
     fn gen_struct_ref_type(type_name: &str) -> String;
-    fn gen_message_ref_type(type_name: &str) -> String;
-    fn gen_union_ref_type(type_name: &str) -> String;
+    fn gen_message_ref_type(type_name: &str, msg: &Message) -> String;
+    fn gen_union_ref_type(type_name: &str, u: &Union) -> String;
 }
 
 fn gen_field_decl<U: Utilities>(field: &Field, template: &Template, type_path_by_name: &TypePathMap) -> String {
@@ -58,7 +59,7 @@ fn gen_field_decl<U: Utilities>(field: &Field, template: &Template, type_path_by
         FieldType::Fixed(ty) => U::get_field_type(ty.ty).into(),
         FieldType::Ref(v) => match v {
             Referenced::Struct(v) => U::gen_struct_ref_type(type_path_by_name.get(&v.name)),
-            Referenced::Message(v) => U::gen_message_ref_type(type_path_by_name.get(&v.name)),
+            Referenced::Message(v) => U::gen_message_ref_type(type_path_by_name.get(&v.name), v),
         },
         FieldType::NullTerminatedString => U::get_string_type(StringType::NullTerminated).into(),
         FieldType::VarcharString(_) => U::get_string_type(StringType::Varchar).into(),
@@ -66,10 +67,10 @@ fn gen_field_decl<U: Utilities>(field: &Field, template: &Template, type_path_by
             .var("codec", U::get_value_type(field.endianness, v.ty))
             .var("type_name", type_path_by_name.get(&v.item_type.name))
             .render("", &["array"]).unwrap(),
-        FieldType::Union(v) => U::gen_union_ref_type(type_path_by_name.get(&v.r.name)),
+        FieldType::Union(v) => U::gen_union_ref_type(type_path_by_name.get(&v.r.name), &v.r),
         FieldType::List(v) => template.scope()
             .var("codec", U::get_value_type(field.endianness, v.ty))
-            .var("type_name", type_path_by_name.get(&v.item_type.name))
+            .var("type_name", U::gen_message_ref_type(type_path_by_name.get(&v.item_type.name), &v.item_type))
             .render("", &["list"]).unwrap(),
         FieldType::Payload => U::get_payload_type().into()
     };
diff --git a/compiler/src/gen/rust/message.ext.template b/compiler/src/gen/rust/message.ext.template
index 2cb28fe..42300fb 100644
--- a/compiler/src/gen/rust/message.ext.template
+++ b/compiler/src/gen/rust/message.ext.template
@@ -3,5 +3,5 @@ bp3d_proto::generate_array_wrapper!({msg_name}{name:capitalize}, {item_type}, {c
 #fragment pop
 
 #fragment push decl_list
-pub type {msg_name}{name:capitalize}<'a, T> = bp3d_proto::message::util::List<T, {codec}, {item_type}<'a>>;
+pub type {msg_name}{name:capitalize}<{lifetime}T> = bp3d_proto::message::util::List<T, {codec}, {item_type}>;
 #fragment pop
diff --git a/compiler/src/gen/rust/message.rs b/compiler/src/gen/rust/message.rs
index aa78ddc..8f690f1 100644
--- a/compiler/src/gen/rust/message.rs
+++ b/compiler/src/gen/rust/message.rs
@@ -30,7 +30,7 @@ use itertools::Itertools;
 use crate::compiler::message::{FieldType, Message};
 use crate::compiler::util::TypePathMap;
 use crate::gen::base::message::{generate, Utilities};
-use crate::gen::rust::util::RustUtils;
+use crate::gen::rust::util::{Generics, RustUtils};
 use crate::gen::template::Template;
 
 const TEMPLATE: &[u8] = include_bytes!("./message.template");
@@ -45,7 +45,8 @@ fn gen_message_array_type_decls(msg: &Message, type_path_by_name: &TypePathMap)
             FieldType::Array(v) => Some(template.var("item_type", type_path_by_name.get(&v.item_type.name))
                 .var("codec", RustUtils::get_value_type(field.endianness, v.ty))
                 .render("", &["decl_array"]).unwrap()),
-            FieldType::List(v) => Some(template.var("item_type", type_path_by_name.get(&v.item_type.name))
+            FieldType::List(v) => Some(template.var("item_type", RustUtils::gen_message_ref_type(type_path_by_name.get(&v.item_type.name), &v.item_type))
+                .var("lifetime", if Generics::from_message(&v.item_type).has_lifetime { "'a, " } else { "" })
                 .var("codec", RustUtils::get_value_type(field.endianness, v.ty))
                 .render("", &["decl_list"]).unwrap()),
             _ => None
diff --git a/compiler/src/gen/rust/message.template b/compiler/src/gen/rust/message.template
index cfd510c..34d6512 100644
--- a/compiler/src/gen/rust/message.template
+++ b/compiler/src/gen/rust/message.template
@@ -13,5 +13,5 @@ bp3d_proto::message::util::Array::<&'a [u8], {codec}, {type_name}<&'a [u8]>>
 #fragment pop
 
 #fragment push list
-bp3d_proto::message::util::List::<&'a [u8], {codec}, {type_name}<'a>>
+bp3d_proto::message::util::List::<&'a [u8], {codec}, {type_name}>
 #fragment pop
diff --git a/compiler/src/gen/rust/union.rs b/compiler/src/gen/rust/union.rs
index 7123836..16f993c 100644
--- a/compiler/src/gen/rust/union.rs
+++ b/compiler/src/gen/rust/union.rs
@@ -30,6 +30,8 @@ use itertools::Itertools;
 use crate::compiler::message::Referenced;
 use crate::compiler::union::Union;
 use crate::compiler::util::TypePathMap;
+use crate::gen::base::message::Utilities;
+use crate::gen::rust::util::{Generics, RustUtils};
 use crate::gen::template::Template;
 
 const TEMPLATE: &[u8] = include_bytes!("./union.template");
@@ -115,7 +117,7 @@ fn gen_union_as_getters(u: &Union, template: &Template, type_path_by_name: &Type
         match &case.item_type {
             Some(Referenced::Struct(v)) => scope.var("type_name", type_path_by_name.get(&v.name))
                 .render("getters", &["struct"]).unwrap(),
-            Some(Referenced::Message(v)) => scope.var("type_name", type_path_by_name.get(&v.name))
+            Some(Referenced::Message(v)) => scope.var("type_name", RustUtils::gen_message_ref_type(type_path_by_name.get(&v.name), v))
                 .render("getters", &["message"]).unwrap(),
             None => scope.render("getters", &["none"]).unwrap()
         }
@@ -125,8 +127,7 @@ fn gen_union_as_getters(u: &Union, template: &Template, type_path_by_name: &Type
 
 pub fn gen_union_decl(u: &Union, type_path_by_name: &TypePathMap) -> String {
     let mut template = Template::compile(TEMPLATE).unwrap();
-    let generics = get_generics(u);
-    template.var("union_name", &u.name).var("generics", generics)
+    template.var("union_name", &u.name).var("generics", Generics::from_union(u).to_code())
         .var("discriminant_path_mut", get_discriminant_path_mut(u))
         .var("discriminant_path", get_discriminant_path(u))
         .var("discriminant_type", type_path_by_name.get(&u.discriminant.root.name));
@@ -136,7 +137,7 @@ pub fn gen_union_decl(u: &Union, type_path_by_name: &TypePathMap) -> String {
             .var("name", &case.name).var("type_name", type_path_by_name.get(&v.name))
             .render("decl", &["struct"]).unwrap(),
         Some(Referenced::Message(v)) => template.scope()
-            .var("name", &case.name).var("type_name", type_path_by_name.get(&v.name))
+            .var("name", &case.name).var("type_name", RustUtils::gen_message_ref_type(type_path_by_name.get(&v.name), v))
             .render("decl", &["message"]).unwrap()
     }).join("");
     let mut code = template.scope().var("cases", cases).render("", &["decl"]).unwrap();
diff --git a/compiler/src/gen/rust/union.template b/compiler/src/gen/rust/union.template
index f332fa8..c37f20f 100644
--- a/compiler/src/gen/rust/union.template
+++ b/compiler/src/gen/rust/union.template
@@ -6,7 +6,7 @@ pub enum {union_name}{generics} {{
     {name}({type_name}<&'a [u8]>),
 #fragment pop
 #fragment push message
-    {name}({type_name}<'a>),
+    {name}({type_name}),
 #fragment pop
 #fragment push none
     {name},
@@ -26,7 +26,7 @@ impl{generics} {union_name}{generics} {{
     }}
 #fragment pop
 #fragment push message
-    pub fn as_{name_lower}(&self) -> Option<&{type_name}<'a>> {{
+    pub fn as_{name_lower}(&self) -> Option<&{type_name}> {{
         match self {{
             Self::{name}(v) => Some(v),
             _ => None
diff --git a/compiler/src/gen/rust/util.rs b/compiler/src/gen/rust/util.rs
index 89dddd4..4a6f145 100644
--- a/compiler/src/gen/rust/util.rs
+++ b/compiler/src/gen/rust/util.rs
@@ -26,8 +26,9 @@
 // NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 // SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-use crate::compiler::message::{FieldType, Message};
+use crate::compiler::message::{FieldType, Message, Referenced};
 use crate::compiler::structure::{FixedField, FixedFieldType};
+use crate::compiler::union::Union;
 use crate::gen::base::message::StringType;
 use crate::model::protocol::Endianness;
 
@@ -37,12 +38,12 @@ pub struct Generics {
 
 impl Generics {
     pub fn from_message(msg: &Message) -> Self {
-        let has_lifetime = msg.fields.iter().any(|v| match v.ty {
-            FieldType::Ref(_) => true,
+        let has_lifetime = msg.fields.iter().any(|v| match &v.ty {
+            FieldType::Ref(v) => Self::from_referenced(v).has_lifetime,
             FieldType::NullTerminatedString => true,
             FieldType::VarcharString(_) => true,
             FieldType::Array(_) => true,
-            FieldType::Union(_) => true,
+            FieldType::Union(v) => Self::from_union(&v.r).has_lifetime,
             FieldType::List(_) => true,
             FieldType::Payload => true,
             _ => false
@@ -52,6 +53,19 @@ impl Generics {
         }
     }
 
+    pub fn from_referenced(r: &Referenced) -> Self {
+        match r {
+            Referenced::Struct(_) => Generics { has_lifetime: true },
+            Referenced::Message(v) => Self::from_message(v)
+        }
+    }
+
+    pub fn from_union(u: &Union) -> Self {
+        Generics {
+            has_lifetime: u.cases.iter().filter_map(|v| v.item_type.as_ref()).any(|v| Self::from_referenced(v).has_lifetime)
+        }
+    }
+
     pub fn to_vec(&self) -> Vec<&'static str> {
         let mut generics = Vec::new();
         if self.has_lifetime {
@@ -185,11 +199,11 @@ impl crate::gen::base::message::Utilities for RustUtils {
         format!("{}<&'a [u8]>", type_name)
     }
 
-    fn gen_message_ref_type(type_name: &str) -> String {
-        format!("{}<'a>", type_name)
+    fn gen_message_ref_type(type_name: &str, msg: &Message) -> String {
+        format!("{}{}", type_name, Self::gen_generics(msg))
     }
 
-    fn gen_union_ref_type(type_name: &str) -> String {
-        format!("{}<'a>", type_name)
+    fn gen_union_ref_type(type_name: &str, u: &Union) -> String {
+        format!("{}{}", type_name, Generics::from_union(u).to_code())
     }
 }
-- 
2.43.0


From a4bc854bc762b5e07ffcb664f89cd9caeb740c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 30/42] fix: support optional strings and payloads in messages

The generated code did not compile, as strings and buffers can only be written
through a reference.
---
 compiler/src/gen/base/message.rs       |  1 +
 compiler/src/gen/base/message_write.rs | 11 +++++++++--
 compiler/src/gen/rust/util.rs          |  4 ++++
 runtime/src/message/util/common.rs     | 18 ++++++++++++++++++
 4 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/compiler/src/gen/base/message.rs b/compiler/src/gen/base/message.rs
index 3aef480..e628af2 100644
--- a/compiler/src/gen/base/message.rs
+++ b/compiler/src/gen/base/message.rs
@@ -45,6 +45,7 @@ pub trait Utilities: crate::gen::base::structure::Utilities {
     fn get_value_type_inline(endianness: Endianness, ty: FixedFieldType) -> &'static str;
     fn gen_option_type(ty: &str) -> String;
     fn gen_option_type_inline(ty: &str) -> String;
+    fn gen_option_ref_type_inline(ty: &str) -> String;
     fn get_string_type(ty: StringType) -> &'static str;
     fn get_string_type_inline(ty: StringType) -> &'static str;
     fn get_payload_type() -> &'static str;
diff --git a/compiler/src/gen/base/message_write.rs b/compiler/src/gen/base/message_write.rs
index 575d711..52c5591 100644
--- a/compiler/src/gen/base/message_write.rs
+++ b/compiler/src/gen/base/message_write.rs
@@ -27,7 +27,7 @@
 // SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 use itertools::Itertools;
-use crate::compiler::message::{Field, Message};
+use crate::compiler::message::{Field, FieldType, Message};
 use crate::compiler::util::TypePathMap;
 use crate::gen::base::message::Utilities;
 use crate::gen::base::message_from_slice::generate_field_type_inline;
@@ -40,7 +40,14 @@ fn gen_field_write_impl<U: Utilities>(msg: &Message, field: &Field, template: &T
     if let Some(on_name) = union {
         scope.var("on_name", on_name);
     }
-    scope.var("type", msg_type);
+    match field.ty {
+        FieldType::NullTerminatedString | FieldType::VarcharString(_) | FieldType::Payload if field.optional => {
+            let value = Field { optional: false, ..field.clone() };
+            let (msg_type, _) = generate_field_type_inline::<U>(msg, &value, template, type_path_by_name);
+            scope.var("type", U::gen_option_ref_type_inline(&msg_type))
+        },
+        _ => scope.var("type", msg_type)
+    };
     if union.is_some() {
         scope.render("impl", &["field_union"]).unwrap()
     } else {
diff --git a/compiler/src/gen/rust/util.rs b/compiler/src/gen/rust/util.rs
index 4a6f145..988a9e9 100644
--- a/compiler/src/gen/rust/util.rs
+++ b/compiler/src/gen/rust/util.rs
@@ -176,6 +176,10 @@ impl crate::gen::base::message::Utilities for RustUtils {
         format!("bp3d_proto::message::util::Optional::<{}>", ty)
     }
 
+    fn gen_option_ref_type_inline(ty: &str) -> String {
+        format!("bp3d_proto::message::util::OptionalRef::<'a, {}>", ty)
+    }
+
     fn get_string_type(_: StringType) -> &'static str {
         "&'a str"
     }
diff --git a/runtime/src/message/util/common.rs b/runtime/src/message/util/common.rs
index f7d0cd7..35c2ebc 100644
--- a/runtime/src/message/util/common.rs
+++ b/runtime/src/message/util/common.rs
@@ -87,6 +87,24 @@ impl<T: WriteTo<Input: Sized>> WriteTo for Optional<T> {
     }
 }
 
+/// Writes optional strings and buffers, which are only accessible through a reference.
+pub struct OptionalRef<'a, T>(PhantomData<&'a T>);
+
+impl<'a, T: WriteTo<Input: 'a>> WriteTo for OptionalRef<'a, T> {
+    type Input = Option<&'a T::Input>;
+
+    fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
+        match input {
+            None => out.write_all(&[0x0])?,
+            Some(v) => {
+                out.write_all(&[0x1])?;
+                T::write_to(v, out)?;
+            }
+        }
+        Ok(())
+    }
+}
+
 #[derive(Debug, Copy, Clone)]
 pub struct ValueLE<T>(PhantomData<T>);
 #[derive(Debug, Copy, Clone)]
-- 
2.43.0


From 59fe456e873e99e187c0913da20876b33c0ffe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 31/42] fix: reject lists of items without content

Iterating arrays of empty structures panicked, and reading lists of empty
messages took as many steps as its length prefix asked for.
---
 compiler/src/compiler/error.rs   |  1 +
 compiler/src/compiler/message.rs | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index d022ea7..2788fea 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -32,6 +32,7 @@ use crate::model::structure::{SimpleType, StructFieldType};
 simple_error! {
     pub Error {
         MultiPayload => "message has more than 1 payload",
+        ZeroSizedItem => "items of lists must have at least 1 field",
         PayloadNotLast => "message has a payload which is followed by other data",
         VarsizeAfterPayload => "message has 1 or more variable sized fields after the payload",
         UnsupportedBitSize(usize) => "unsupported bit size for fixed field ({}), maximum is 64",
diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index de6d505..2c970a0 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -49,6 +49,16 @@ impl Referenced {
         }
     }
 
+    fn is_zero_sized(&self) -> bool {
+        match self {
+            Referenced::Struct(v) => v.byte_size == 0,
+            Referenced::Message(v) => v.fields.iter().all(|v| match &v.ty {
+                FieldType::Ref(r) => !v.optional && r.is_zero_sized(),
+                _ => false
+            })
+        }
+    }
+
     pub fn lookup(proto: &Protocol, reference_name: &str) -> Option<Self> {
         proto.structs_by_name.get(reference_name)
             .map(|v| Referenced::Struct(v.clone()))
@@ -190,6 +200,9 @@ impl Field {
             MessageFieldType::List { max_len, item_type } => {
                 let r = Referenced::lookup(proto, &item_type).ok_or_else(|| Error::UndefinedReference(item_type))?;
                 let ty = FixedFieldType::from_max_value(max_len)?;
+                if r.is_zero_sized() {
+                    return Err(Error::ZeroSizedItem);
+                }
                 match r {
                     Referenced::Struct(item_type) => {
                         Ok(Field {
-- 
2.43.0


From d0f67bf0b2d76fd041a0f6c49af23f2ba66a2635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 32/42] fix: do not split characters when capitalizing names

Lists whose name does not start with an ASCII character made the generator
panic.
---
 compiler/src/gen/template.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/gen/template.rs b/compiler/src/gen/template.rs
index b1afce5..486a6b0 100644
--- a/compiler/src/gen/template.rs
+++ b/compiler/src/gen/template.rs
@@ -132,7 +132,7 @@ pub struct FunctionMap<'fragment> {
 }
 
 fn capitalize(value: &str) -> Cow<str> {
-    if value.len() == 0 {
+    if value.len() == 0 || !value.is_char_boundary(1) {
         return value.into();
     }
     if value.as_bytes()[0] >= b'A' && value.as_bytes()[0] <= b'Z' {
-- 
2.43.0


From 10de9f2b5f050009d75b543353b09ad0c718f08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 33/42] fix: support arrays of imported structures in messages

The wrapper of an array only accepted structures named without a path.
---
 runtime/src/message/macros.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/runtime/src/message/macros.rs b/runtime/src/message/macros.rs
index 247157a..5a0c025 100644
--- a/runtime/src/message/macros.rs
+++ b/runtime/src/message/macros.rs
@@ -28,19 +28,19 @@
 
 #[macro_export]
 macro_rules! generate_array_wrapper {
-    ($name: ident, $inner: ident, $t: ty) => {
-        pub struct $name<'a, B>($crate::message::util::Array<B, $t, $inner<&'a [u8]>>);
+    ($name: ident, $($inner: ident)::+, $t: ty) => {
+        pub struct $name<'a, B>($crate::message::util::Array<B, $t, $($inner)::+<&'a [u8]>>);
 
         impl<'a, B> $name<'a, B> {
             pub unsafe fn from_raw_parts(data: B, len: usize) -> $name<'a, B> {
-                Self($crate::message::util::Array::<B, $t, $inner<&'a [u8]>>::from_raw_parts(data, len))
+                Self($crate::message::util::Array::<B, $t, $($inner)::+<&'a [u8]>>::from_raw_parts(data, len))
             }
 
             pub fn new(data: B) -> $name<'a, B> {
                 unsafe { Self::from_raw_parts(data, 0) }
             }
 
-            pub fn from_array(inner: $crate::message::util::Array<B, $t, $inner<&'a [u8]>>) -> Self {
+            pub fn from_array(inner: $crate::message::util::Array<B, $t, $($inner)::+<&'a [u8]>>) -> Self {
                 Self(inner)
             }
 
@@ -50,39 +50,39 @@ macro_rules! generate_array_wrapper {
         }
 
         impl<'a, B: std::io::Write> $name<'a, B> {
-            pub fn write_item(&mut self, item: &$inner<&[u8]>) -> $crate::message::Result<()> {
+            pub fn write_item(&mut self, item: &$($inner)::+<&[u8]>) -> $crate::message::Result<()> {
                 self.0.write_item(item)
             }
 
-            pub fn write_items(&mut self, items: &[$inner<&[u8]>]) -> $crate::message::Result<()> {
+            pub fn write_items(&mut self, items: &[$($inner)::+<&[u8]>]) -> $crate::message::Result<()> {
                 self.0.write_items(items)
             }
         }
 
         impl<'a, B: AsRef<[u8]>> $name<'a, B> {
-            pub fn to_ref(&self) -> $crate::message::util::Array<&[u8], $t, $inner<&[u8]>> {
+            pub fn to_ref(&self) -> $crate::message::util::Array<&[u8], $t, $($inner)::+<&[u8]>> {
                 self.0.to_ref()
             }
 
             pub fn from_parts(data: B, len: usize) -> Option<Self> {
-                $crate::message::util::Array::<B, $t, $inner<&'a [u8]>>::from_parts(data, len).map(Self)
+                $crate::message::util::Array::<B, $t, $($inner)::+<&'a [u8]>>::from_parts(data, len).map(Self)
             }
 
-            pub fn get(&self, index: usize) -> $inner<&[u8]> {
+            pub fn get(&self, index: usize) -> $($inner)::+<&[u8]> {
                 self.0.get(index)
             }
 
-            pub fn iter<'b>(&'b self) -> $crate::message::util::array::Iter<'b, $inner<&[u8]>> {
+            pub fn iter<'b>(&'b self) -> $crate::message::util::array::Iter<'b, $($inner)::+<&[u8]>> {
                 self.0.iter()
             }
         }
 
         impl<'a, B: AsMut<[u8]>> $name<'a, B> {
-            pub fn get_mut(&mut self, index: usize) -> $inner<&mut [u8]> {
+            pub fn get_mut(&mut self, index: usize) -> $($inner)::+<&mut [u8]> {
                 self.0.get_mut(index)
             }
 
-            pub fn iter_mut<'b>(&'b mut self) -> $crate::message::util::array::IterMut<'b, $inner<&mut [u8]>> {
+            pub fn iter_mut<'b>(&'b mut self) -> $crate::message::util::array::IterMut<'b, $($inner)::+<&mut [u8]>> {
                 self.0.iter_mut()
             }
         }
-- 
2.43.0


From 047e44e0eea8a7e4f11b1be58687f20ef0c3f1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 34/42] fix: use the module of the defining protocol for types
 imported through another one

Importing a type which the other protocol only imports itself was accepted
but generated a path to a type which doesn't exist.
---
 compiler/src/compiler/protocol.rs | 17 ++++++++++++-----
 compiler/src/compiler/util.rs     |  4 ++++
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/compiler/src/compiler/protocol.rs b/compiler/src/compiler/protocol.rs
index e53245a..51608f5 100644
--- a/compiler/src/compiler/protocol.rs
+++ b/compiler/src/compiler/protocol.rs
@@ -34,7 +34,7 @@ use crate::compiler::r#enum::Enum;
 use crate::compiler::structure::Structure;
 use crate::compiler::union::Union;
 use crate::compiler::util::{ImportResolver, TypePathMap};
-use crate::model::protocol::Endianness;
+use crate::model::protocol::{Endianness, Import};
 
 #[derive(Clone, Debug)]
 pub struct Protocol {
@@ -51,6 +51,13 @@ pub struct Protocol {
     pub unions: Vec<Rc<Union>>
 }
 
+fn get_type_path<T: ImportResolver>(solver: &T, r: &Protocol, import: &Import) -> Result<String, Error> {
+    // A type which the other protocol imports itself isn't part of its module.
+    r.type_path_by_name.get_imported(&import.type_name).map(String::from)
+        .or_else(|| solver.get_full_type_path(&import.protocol, &import.type_name))
+        .ok_or(Error::SolverError)
+}
+
 impl Protocol {
     pub fn from_model<T: ImportResolver>(value: crate::model::Protocol, solver: &T) -> Result<Self, Error> {
         let mut proto = Protocol {
@@ -79,27 +86,27 @@ impl Protocol {
                             None => {
                                 match r.unions_by_name.get(&v.type_name) {
                                     Some(vv) => {
-                                        let type_path = solver.get_full_type_path(&v.protocol, &v.type_name).ok_or(Error::SolverError)?;
+                                        let type_path = get_type_path(solver, r, &v)?;
                                         proto.unions_by_name.insert(v.type_name, vv.clone());
                                         proto.type_path_by_name.add(vv.name.clone(), type_path);
                                     },
                                     None => {
                                         let msg = r.messages_by_name.get(&v.type_name).ok_or(Error::UndefinedReference(format!("{}::{}", v.protocol, v.type_name)))?;
-                                        let type_path = solver.get_full_type_path(&v.protocol, &v.type_name).ok_or(Error::SolverError)?;
+                                        let type_path = get_type_path(solver, r, &v)?;
                                         proto.messages_by_name.insert(v.type_name, msg.clone());
                                         proto.type_path_by_name.add(msg.name.clone(), type_path);
                                     }
                                 }
                             },
                             Some(vv) => {
-                                let type_path = solver.get_full_type_path(&v.protocol, &v.type_name).ok_or(Error::SolverError)?;
+                                let type_path = get_type_path(solver, r, &v)?;
                                 proto.enums_by_name.insert(v.type_name, vv.clone());
                                 proto.type_path_by_name.add(vv.name.clone(), type_path);
                             }
                         }
                     },
                     Some(vv) => {
-                        let type_path = solver.get_full_type_path(&v.protocol, &v.type_name).ok_or(Error::SolverError)?;
+                        let type_path = get_type_path(solver, r, &v)?;
                         proto.structs_by_name.insert(v.type_name, vv.clone());
                         proto.type_path_by_name.add(vv.name.clone(), type_path);
                     }
diff --git a/compiler/src/compiler/util.rs b/compiler/src/compiler/util.rs
index 87f2a14..adfd796 100644
--- a/compiler/src/compiler/util.rs
+++ b/compiler/src/compiler/util.rs
@@ -51,6 +51,10 @@ impl TypePathMap {
         self.type_path_by_name.insert(name, type_path);
     }
 
+    pub fn get_imported(&self, item_type: &str) -> Option<&str> {
+        self.type_path_by_name.get(item_type).map(|v| &**v)
+    }
+
     pub fn get<'a>(&'a self, item_type: &'a str) -> &'a str {
         match self.type_path_by_name.get(item_type) {
             None => item_type,
-- 
2.43.0


From 740b90f8bb9a01933501fb30e47d616a69517501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 35/42] fix: saturate float views at the width of the field

Storing the highest value of a range of 54 to 63 bits, or a value outside of
the range of any field narrower than its raw type, wrapped around and read
back as a value at the other end of the range.
---
 compiler/src/gen/base/structure.rs             | 1 +
 compiler/src/gen/rust/structure.field.template | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/src/gen/base/structure.rs b/compiler/src/gen/base/structure.rs
index 4041308..968beb2 100644
--- a/compiler/src/gen/base/structure.rs
+++ b/compiler/src/gen/base/structure.rs
@@ -134,6 +134,7 @@ fn gen_field_view_setter<U: Utilities>(field: &FixedField, scope: &Scope, type_p
     match &field.view {
         FieldView::Float { a_inv, b_inv, .. } => scope.var("view_type", U::get_field_type(field.ty))
             .var("a_inv", format!("{:?}", a_inv)).var("b_inv", format!("{:?}", b_inv))
+            .var_d("raw_max", u64::MAX >> (64 - field.loc.bit_size))
             .render("setters", &["view_float"]).unwrap(),
         FieldView::Enum(e) => scope.var("view_type", type_path_by_name.get(&e.name))
             .var_d("enum_largest", e.largest).render("setters", &["view_enum"]).unwrap(),
diff --git a/compiler/src/gen/rust/structure.field.template b/compiler/src/gen/rust/structure.field.template
index 35a87ae..87e1b4c 100644
--- a/compiler/src/gen/rust/structure.field.template
+++ b/compiler/src/gen/rust/structure.field.template
@@ -93,7 +93,7 @@ impl<T: AsMut<[u8]>> {struct_name}<T> {{
 #fragment push view_float
     pub fn set_{name}(&mut self, value: {view_type}) -> &mut Self {{
         let raw_value = value * {a_inv} + {b_inv};
-        self.set_raw_{name}(raw_value as {raw_type});
+        self.set_raw_{name}((raw_value as {raw_type}).min({raw_max}));
         self
     }}
 #fragment pop
-- 
2.43.0


From 54d89093934366475dc6fce0978c050386d31ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 36/42] fix: accept any field name in messages which are read

Fields named like a local variable of the generated decoder, such as slice,
byte_offset or offsets, generated code which doesn't compile.
---
 .../src/gen/rust/message.from_slice.template  | 20 ++++++++---------
 .../src/gen/rust/message.offsets.template     | 22 +++++++++----------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/compiler/src/gen/rust/message.from_slice.template b/compiler/src/gen/rust/message.from_slice.template
index e085f32..89c86a5 100644
--- a/compiler/src/gen/rust/message.from_slice.template
+++ b/compiler/src/gen/rust/message.from_slice.template
@@ -6,24 +6,24 @@ impl<'a> bp3d_proto::message::FromSlice<'a> for {msg_name}{generics} {{
         let mut byte_offset: usize = 0;
 {fields}
 #fragment push field
-        let {name}_msg = {type}::from_slice(&slice[byte_offset..])?;
-        byte_offset += {name}_msg.size();
-        let {name} = {name}_msg.into_inner();
+        let msg = {type}::from_slice(&slice[byte_offset..])?;
+        byte_offset += msg.size();
+        let value_{name} = msg.into_inner();
 #fragment pop
 #fragment push field_msg
-        let {name}_msg = {type}::from_slice(&slice[byte_offset..])?;
-        byte_offset += {name}_msg.size();
-        let {name} = {name}_msg.into_inner();
+        let msg = {type}::from_slice(&slice[byte_offset..])?;
+        byte_offset += msg.size();
+        let value_{name} = msg.into_inner();
 #fragment pop
 #fragment push field_union
-        let {name}_msg = {type}::from_slice(&slice[byte_offset..], &{on_name})?;
-        byte_offset += {name}_msg.size();
-        let {name} = {name}_msg.into_inner();
+        let msg = {type}::from_slice(&slice[byte_offset..], &value_{on_name})?;
+        byte_offset += msg.size();
+        let value_{name} = msg.into_inner();
 #fragment pop
         let data = {msg_name} {{
 {field_names}
 #fragment push field_name
-            {name},
+            {name}: value_{name},
 #fragment pop
         }};
         Ok(bp3d_proto::message::Message::new(byte_offset, data))
diff --git a/compiler/src/gen/rust/message.offsets.template b/compiler/src/gen/rust/message.offsets.template
index 9075d38..965eb82 100644
--- a/compiler/src/gen/rust/message.offsets.template
+++ b/compiler/src/gen/rust/message.offsets.template
@@ -24,31 +24,31 @@ impl<'a> bp3d_proto::message::FromSliceWithOffsets<'a> for {msg_name}{generics}
         let mut byte_offset: usize = 0;
 {fields}
 #fragment push field
-        let {name}_msg = {type}::from_slice(&slice[byte_offset..])?;
+        let msg = {type}::from_slice(&slice[byte_offset..])?;
         offsets.{name}.start = byte_offset;
-        byte_offset += {name}_msg.size();
+        byte_offset += msg.size();
         offsets.{name}.end = byte_offset;
-        let {name} = {name}_msg.into_inner();
+        let value_{name} = msg.into_inner();
 #fragment pop
 #fragment push field_msg
-        let {name}_msg = {type}::from_slice_with_offsets(&slice[byte_offset..])?;
+        let msg = {type}::from_slice_with_offsets(&slice[byte_offset..])?;
         offsets.{name}.start = byte_offset;
-        byte_offset += {name}_msg.size();
+        byte_offset += msg.size();
         offsets.{name}.end = byte_offset;
-        let ({name}, {name}_offsets) = {name}_msg.into_inner();
-        offsets.{name}_offsets = {name}_offsets;
+        let (value_{name}, msg_offsets) = msg.into_inner();
+        offsets.{name}_offsets = msg_offsets;
 #fragment pop
 #fragment push field_union
-        let {name}_msg = {type}::from_slice(&slice[byte_offset..], &{on_name})?;
+        let msg = {type}::from_slice(&slice[byte_offset..], &value_{on_name})?;
         offsets.{name}.start = byte_offset;
-        byte_offset += {name}_msg.size();
+        byte_offset += msg.size();
         offsets.{name}.end = byte_offset;
-        let {name} = {name}_msg.into_inner();
+        let value_{name} = msg.into_inner();
 #fragment pop
         let data = {msg_name} {{
 {field_names}
 #fragment push field_name
-            {name},
+            {name}: value_{name},
 #fragment pop
         }};
         Ok(bp3d_proto::message::Message::new(byte_offset, (data, offsets)))
-- 
2.43.0


From e0bf822ac2f73da9efa4fc0881b44b1c2169b6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 37/42] fix: support optional structures in messages

---
 compiler/src/gen/base/message_from_slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/src/gen/base/message_from_slice.rs b/compiler/src/gen/base/message_from_slice.rs
index c7bd322..6653f91 100644
--- a/compiler/src/gen/base/message_from_slice.rs
+++ b/compiler/src/gen/base/message_from_slice.rs
@@ -46,7 +46,8 @@ pub fn generate_field_type_inline<'a, U: Utilities>(msg: &Message, field: &'a Fi
     let msg_type = match &field.ty {
         FieldType::Fixed(ty) => gen_optional::<U>(field.optional, U::get_value_type_inline(field.endianness, ty.ty)),
         FieldType::Ref(v) => match v {
-            Referenced::Struct(v) => gen_optional::<U>(field.optional, type_path_by_name.get(&v.name)),
+            Referenced::Struct(v) if field.optional => U::gen_option_type_inline(&U::gen_struct_ref_type(type_path_by_name.get(&v.name))).into(),
+            Referenced::Struct(v) => type_path_by_name.get(&v.name).into(),
             Referenced::Message(v) => gen_optional::<U>(field.optional, type_path_by_name.get(&v.name))
         }
         FieldType::NullTerminatedString => gen_optional::<U>(field.optional, U::get_string_type_inline(StringType::NullTerminated)),
-- 
2.43.0


From d0dacda79f7bd20820aca185a8ae7f58318b221a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 38/42] fix: refuse fields which share a byte with a structure
 of other endianness

---
 compiler/src/compiler/structure.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 44db818..647e050 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -304,6 +304,14 @@ impl Field {
         }
     }
 
+    fn last_endianness(&self) -> Option<Endianness> {
+        match self {
+            Field::Fixed(v) => Some(v.endianness),
+            Field::Array(v) => Some(v.endianness),
+            Field::Struct(v) => v.r.last_endianness()
+        }
+    }
+
     fn from_model(proto: &Protocol, last_bit_offset: usize, value: crate::model::structure::StructField) -> Result<(Self, usize), Error> {
         let array_len = value.array_len.unwrap_or(1);
         match value.info {
@@ -370,12 +378,25 @@ pub struct Structure {
 }
 
 impl Structure {
+    /// The order in which the bits of the last byte are used.
+    fn last_endianness(&self) -> Option<Endianness> {
+        self.fields.last().and_then(|v| v.last_endianness())
+    }
+
     pub fn from_model(proto: &Protocol, value: crate::model::structure::Structure) -> Result<Structure, Error> {
         let mut last_bit_offset = 0;
+        let mut last_endianness = None;
         let fields = value.fields.into_iter().map(|v| {
-            let res = Field::from_model(proto, last_bit_offset, v);
-            if let Ok((_, new_offset)) = res {
-                last_bit_offset = new_offset
+            let res = Field::from_model(proto, last_bit_offset, v).and_then(|(field, new_offset)| {
+                // The rest of a partially used byte can only be used in the same order.
+                if last_bit_offset % 8 != 0 && last_endianness != field.last_endianness() {
+                    return Err(Error::UnalignedField(field.name().into()));
+                }
+                Ok((field, new_offset))
+            });
+            if let Ok((field, new_offset)) = &res {
+                last_bit_offset = *new_offset;
+                last_endianness = field.last_endianness();
             }
             res.map(|(field, _)| field)
         });
-- 
2.43.0


From 3cc3ee28ac6d362a11bcfc4a2aaf6cff3243413d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:29 +0000
Subject: [PATCH 39/42] fix: blank lines of templates with CRLF line ends are
 skipped like others

---
 compiler/src/gen/template.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/compiler/src/gen/template.rs b/compiler/src/gen/template.rs
index 486a6b0..1d28dc6 100644
--- a/compiler/src/gen/template.rs
+++ b/compiler/src/gen/template.rs
@@ -188,14 +188,10 @@ impl<'fragment, 'variable> Template<'fragment, 'variable> {
         let mut frag_stack = Vec::new();
         let lines = data.split(|v| *v == b'\n');
         for line in lines {
+            let line = line.strip_suffix(b"\r").unwrap_or(line);
             if line.is_empty() {
                 continue;
             }
-            let line = if line[line.len() - 1] == b'\r' {
-                &line[..line.len() - 1]
-            } else {
-                line
-            };
             if line.starts_with(b"#fragment push ") {
                 let name = std::str::from_utf8(&line[15..]).map_err(|_| Error::InvalidUTF8)?;
                 frag_stack.push(Fragment {
-- 
2.43.0


From 3e87ab68d0ee03842606f7b66f2ac0fad8dc35c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:29 +0000
Subject: [PATCH 40/42] fix: a placeholder in a template may be followed by
 doubled braces

---
 compiler/src/gen/template.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/src/gen/template.rs b/compiler/src/gen/template.rs
index 1d28dc6..2b76468 100644
--- a/compiler/src/gen/template.rs
+++ b/compiler/src/gen/template.rs
@@ -209,21 +209,25 @@ impl<'fragment, 'variable> Template<'fragment, 'variable> {
             } else {
                 let cur_fragment = frag_stack.last_mut().ok_or(Error::NoFragment)?;
                 let mut token = Token::new(line);
+                let mut in_variable = false;
                 while token.has_next() {
                     if token.cur() == b'{' {
                         if token.next() == Some(b'{') {
                             token.inc();
+                        } else {
+                            in_variable = true;
                         }
                         if let Some(component) = token.pop()?.map(Component::Constant) {
                             cur_fragment.content.push(component);
                         }
                     } else if token.cur() == b'}' {
-                        if token.next() == Some(b'}') {
+                        if !in_variable && token.next() == Some(b'}') {
                             token.inc();
                             if let Some(component) = token.pop()?.map(Component::Constant) {
                                 cur_fragment.content.push(component);
                             }
                         } else {
+                            in_variable = false;
                             if let Some(component) = token.pop()?.map(|v| Component::parse_variable(&function_map, v)) {
                                 cur_fragment.content.push(component?);
                             }
-- 
2.43.0


From ea6b07c4f98fcc43172755c9369a9a41e15f4128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:20 +0000
Subject: [PATCH 41/42] fix: create the sub-folders of generated files, also
 nested ones and if they exist already

---
 compiler/src/gen/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/src/gen/mod.rs b/compiler/src/gen/mod.rs
index b1015bd..dd4d9de 100644
--- a/compiler/src/gen/mod.rs
+++ b/compiler/src/gen/mod.rs
@@ -66,9 +66,9 @@ impl File {
 
     pub fn write(self, out_directory: &Path) -> std::io::Result<Option<PathBuf>> {
         if self.data.len() > 1 {
-            let sub_folder = self.name.find("/").map(|id| &self.name[..id]);
+            let sub_folder = self.name.rfind("/").map(|id| &self.name[..id]);
             if let Some(sub_folder) = sub_folder {
-                std::fs::create_dir(out_directory.join(sub_folder))?;
+                std::fs::create_dir_all(out_directory.join(sub_folder))?;
             }
             let path = out_directory.join(&*self.name);
             std::fs::write(&path, self.data)?;
-- 
2.43.0


From 35ad11f166b7bf0ed9f404faa2671d31aeecd74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:34 +0000
Subject: [PATCH 42/42] fix: reject array lengths and variant values which are
 negative, fractional or imprecise instead of rounding them

---
 compiler/src/model/mod.rs       |  1 +
 compiler/src/model/protocol.rs  |  1 +
 compiler/src/model/size.rs      | 67 +++++++++++++++++++++++++++++++++
 compiler/src/model/structure.rs |  1 +
 4 files changed, 70 insertions(+)
 create mode 100644 compiler/src/model/size.rs

diff --git a/compiler/src/model/mod.rs b/compiler/src/model/mod.rs
index 27d121b..2946981 100644
--- a/compiler/src/model/mod.rs
+++ b/compiler/src/model/mod.rs
@@ -31,6 +31,7 @@
 pub mod message;
 pub mod structure;
 pub mod protocol;
+mod size;
 pub mod union;
 
 pub use protocol::Protocol;
diff --git a/compiler/src/model/protocol.rs b/compiler/src/model/protocol.rs
index e5932ae..6069d12 100644
--- a/compiler/src/model/protocol.rs
+++ b/compiler/src/model/protocol.rs
@@ -49,6 +49,7 @@ pub struct Import {
 #[derive(Clone, Debug, Deserialize)]
 pub struct Enum {
     pub name: String,
+    #[serde(deserialize_with="crate::model::size::deserialize_map")]
     pub variants: HashMap<String, usize>
 }
 
diff --git a/compiler/src/model/size.rs b/compiler/src/model/size.rs
new file mode 100644
index 0000000..c4263d2
--- /dev/null
+++ b/compiler/src/model/size.rs
@@ -0,0 +1,67 @@
+// Copyright (c) 2024, BlockProject 3D
+//
+// All rights reserved.
+//
+// Redistribution and use in source and binary forms, with or without modification,
+// are permitted provided that the following conditions are met:
+//
+//     * Redistributions of source code must retain the above copyright notice,
+//       this list of conditions and the following disclaimer.
+//     * Redistributions in binary form must reproduce the above copyright notice,
+//       this list of conditions and the following disclaimer in the documentation
+//       and/or other materials provided with the distribution.
+//     * Neither the name of BlockProject 3D nor the names of its contributors
+//       may be used to endorse or promote products derived from this software
+//       without specific prior written permission.
+//
+// THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
+// "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
+// LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR
+// A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT OWNER OR
+// CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL, SPECIAL,
+// EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT LIMITED TO,
+// PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE, DATA, OR
+// PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND ON ANY THEORY OF
+// LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT (INCLUDING
+// NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
+// SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
+
+use std::collections::HashMap;
+use std::fmt::Formatter;
+use serde::{de, Deserialize, Deserializer};
+
+/// A whole number which is neither rounded nor clamped to fit a usize.
+struct Size(usize);
+
+struct SizeVisitor;
+
+impl<'de> de::Visitor<'de> for SizeVisitor {
+    type Value = Size;
+
+    fn expecting(&self, f: &mut Formatter) -> std::fmt::Result {
+        f.write_str("usize")
+    }
+
+    fn visit_i64<E: de::Error>(self, value: i64) -> Result<Self::Value, E> {
+        value.try_into().map(Size).map_err(|_| E::invalid_value(de::Unexpected::Signed(value), &self))
+    }
+
+    fn visit_u64<E: de::Error>(self, value: u64) -> Result<Self::Value, E> {
+        value.try_into().map(Size).map_err(|_| E::invalid_value(de::Unexpected::Unsigned(value), &self))
+    }
+}
+
+impl<'de> Deserialize<'de> for Size {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        // json5 converts any number through a float when asked for a specific integer type.
+        deserializer.deserialize_any(SizeVisitor)
+    }
+}
+
+pub fn deserialize_option<'de, D: Deserializer<'de>>(deserializer: D) -> Result<Option<usize>, D::Error> {
+    Ok(Option::<Size>::deserialize(deserializer)?.map(|v| v.0))
+}
+
+pub fn deserialize_map<'de, D: Deserializer<'de>>(deserializer: D) -> Result<HashMap<String, usize>, D::Error> {
+    Ok(HashMap::<String, Size>::deserialize(deserializer)?.into_iter().map(|(k, v)| (k, v.0)).collect())
+}
diff --git a/compiler/src/model/structure.rs b/compiler/src/model/structure.rs
index e7394bd..712ac08 100644
--- a/compiler/src/model/structure.rs
+++ b/compiler/src/model/structure.rs
@@ -101,6 +101,7 @@ pub struct StructField {
     pub name: String,
     pub info: StructFieldType,
     pub view: Option<StructFieldView>,
+    #[serde(default, deserialize_with="crate::model::size::deserialize_option")]
     pub array_len: Option<usize>
 }
 
-- 
2.43.0

