From 46496ae20b5d4764545fa9506201b3bca7e867db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 01/23] fix: report truncated input instead of panicking in
 VarcharString::from_slice

---
 runtime/src/message/util/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/message/util/string.rs b/runtime/src/message/util/string.rs
index 3a5fe43..435e585 100644
--- a/runtime/src/message/util/string.rs
+++ b/runtime/src/message/util/string.rs
@@ -64,7 +64,7 @@ impl<'a, T: FromSlice<'a, Output: ToUsize>> FromSlice<'a> for VarcharString<T> {
     fn from_slice(slice: &'a [u8]) -> Result<Message<Self::Output>, Error> {
         let msg = T::from_slice(slice)?;
         let size = msg.size();
-        let subslice = &slice[size..size + msg.into_inner().to_usize()];
+        let subslice = slice[size..].get(..msg.into_inner().to_usize()).ok_or(Error::Truncated)?;
         let string = std::str::from_utf8(subslice).map_err(|_| Error::InvalidUtf8)?;
         Ok(Message::new(size + string.len(), string))
     }
-- 
2.43.0


From a6585f5988b4ab5320e7f091f669612d7a20cd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 02/23] fix: end list iteration at the first item that cannot
 be read

---
 runtime/src/message/util/list.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/runtime/src/message/util/list.rs b/runtime/src/message/util/list.rs
index 23164cd..c1eb428 100644
--- a/runtime/src/message/util/list.rs
+++ b/runtime/src/message/util/list.rs
@@ -73,7 +73,11 @@ impl<'a, Item: FromSlice<'a, Output = Item>> Iterator for Iter<'a, Item> {
             return None;
         }
         let msg = match Item::from_slice(self.data) {
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                // The start of the next item is unknown, so nothing can be read past this point.
+                self.len = 0;
+                return Some(Err(e));
+            },
             Ok(v) => v
         };
         self.data = &self.data[msg.size()..];
@@ -96,7 +100,11 @@ impl<'a, Item: FromSlice<'a, Output = Item> + FromSliceWithOffsets<'a>> Iterator
             return None;
         }
         let msg = match Item::from_slice_with_offsets(&self.data[..]) {
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                // The start of the next item is unknown, so nothing can be read past this point.
+                self.len = 0;
+                return Some(Err(e));
+            },
             Ok(v) => v
         };
         self.data = &self.data[msg.size()..];
-- 
2.43.0


From 4e163712d045e30426872f9dcecd8cab9eefb0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 03/23] fix: do not overflow on huge array length prefixes

---
 runtime/src/message/util/array.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtime/src/message/util/array.rs b/runtime/src/message/util/array.rs
index 99e2ccb..2624f99 100644
--- a/runtime/src/message/util/array.rs
+++ b/runtime/src/message/util/array.rs
@@ -72,7 +72,7 @@ impl<'a, Item: From<&'a [u8]>> Iterator for Iter<'a, Item> {
 
 impl<B: AsRef<[u8]>, T, Item: FixedSize> Array<B, T, Item> {
     pub fn from_parts(data: B, len: usize) -> Option<Array<B, T, Item>> {
-        match data.as_ref().len() == len * Item::SIZE {
+        match len.checked_mul(Item::SIZE) == Some(data.as_ref().len()) {
             true => Some(unsafe { Array::from_raw_parts(data, len) }),
             false => None
         }
@@ -116,7 +116,9 @@ impl<'a, T: FromSlice<'a, Output: ToUsize>, Item: FixedSize + FromSlice<'a, Outp
         let msg = T::from_slice(slice)?;
         let control_size = msg.size();
         let len = msg.into_inner().to_usize();
-        let total_size = control_size + (len * Item::SIZE);
+        let total_size = len.checked_mul(Item::SIZE)
+            .and_then(|v| v.checked_add(control_size))
+            .ok_or(Error::Truncated)?;
         if slice.len() < total_size {
             Err(Error::Truncated)
         } else {
-- 
2.43.0


From 8b38ca4cc428af878b7ba097c6d80abeef53f598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 04/23] fix: never produce an undeclared enum variant from a
 raw field value

---
 compiler/src/gen/base/structure.rs              |  9 +++++++--
 compiler/src/gen/rust/structure.field.template  | 11 ++++++-----
 compiler/src/gen/swift/structure.field.template |  3 +++
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/compiler/src/gen/base/structure.rs b/compiler/src/gen/base/structure.rs
index 4041308..30f492e 100644
--- a/compiler/src/gen/base/structure.rs
+++ b/compiler/src/gen/base/structure.rs
@@ -111,8 +111,13 @@ fn gen_field_view_getter<U: Utilities>(field: &FixedField, scope: &Scope, type_p
         FieldView::Float { a, b, .. } => scope.var("view_type", U::get_field_type(field.ty))
             .var("a", format!("{:?}", a)).var("b", format!("{:?}", b))
             .render("getters", &["view_float"]).unwrap(),
-        FieldView::Enum(e) => scope.var("view_type", type_path_by_name.get(&e.name))
-            .var_d("enum_largest", e.largest).render("getters", &["view_enum"]).unwrap(),
+        FieldView::Enum(e) => {
+            scope.var("view_type", type_path_by_name.get(&e.name));
+            let variants = e.variants.iter().map(|(name, value)| scope.clone()
+                .var("variant", name).var_d("value", value)
+                .render("getters.view_enum", &["variant"]).unwrap()).join("");
+            scope.var("variants", variants).render("getters", &["view_enum"]).unwrap()
+        },
         FieldView::Transmute => {
             let field_type = U::get_field_type(field.ty);
             scope.var("view_type", field_type);
diff --git a/compiler/src/gen/rust/structure.field.template b/compiler/src/gen/rust/structure.field.template
index e4b51f7..96112f1 100644
--- a/compiler/src/gen/rust/structure.field.template
+++ b/compiler/src/gen/rust/structure.field.template
@@ -30,11 +30,12 @@ impl<T: AsRef<[u8]>> {struct_name}<T> {{
 #fragment pop
 #fragment push view_enum
     pub fn get_{name}(&self) -> Option<{view_type}> {{
-        let raw_value = self.get_raw_{name}();
-        if raw_value > {enum_largest} {{
-            None
-        }} else {{
-            Some(unsafe {{ std::mem::transmute::<{raw_type}, {view_type}>(raw_value) }})
+        match self.get_raw_{name}() {{
+{variants}
+#fragment push variant
+            {value} => Some({view_type}::{variant}),
+#fragment pop
+            _ => None
         }}
     }}
 #fragment pop
diff --git a/compiler/src/gen/swift/structure.field.template b/compiler/src/gen/swift/structure.field.template
index 74fccbe..7978f32 100644
--- a/compiler/src/gen/swift/structure.field.template
+++ b/compiler/src/gen/swift/structure.field.template
@@ -33,6 +33,9 @@ extension {struct_name} where T: BP3DProto.Buffer {{
         let raw_value = self.raw_{name};
         return {view_type}(raw: raw_value);
     }}
+#fragment push variant
+        case {value}: return .{variant};
+#fragment pop
 #fragment pop
 #fragment push view_transmute
     public {name}: {view_type} {{
-- 
2.43.0


From f2ae866ce5756717073a91760214ed1a9a860ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 05/23] fix: honour the endianness of a protocol

---
 compiler/src/compiler/protocol.rs |  2 +-
 runtime/src/codec/bits.rs         |  7 ++++---
 runtime/src/codec/bytes.rs        | 13 +++++++++++++
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/compiler/src/compiler/protocol.rs b/compiler/src/compiler/protocol.rs
index cc0dccc..e53245a 100644
--- a/compiler/src/compiler/protocol.rs
+++ b/compiler/src/compiler/protocol.rs
@@ -55,7 +55,7 @@ impl Protocol {
     pub fn from_model<T: ImportResolver>(value: crate::model::Protocol, solver: &T) -> Result<Self, Error> {
         let mut proto = Protocol {
             name: value.name,
-            endianness: Endianness::Little,
+            endianness: value.endianness.unwrap_or(Endianness::Little),
             type_path_by_name: TypePathMap::new(),
             structs_by_name: HashMap::new(),
             messages_by_name: HashMap::new(),
diff --git a/runtime/src/codec/bits.rs b/runtime/src/codec/bits.rs
index fb992a3..cac0183 100644
--- a/runtime/src/codec/bits.rs
+++ b/runtime/src/codec/bits.rs
@@ -90,15 +90,16 @@ impl BitCodec for BitCodecBE {
     unsafe fn read_aligned<T: ToUsize + ReadBytes + Shr<Output=T> + BitAnd<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
         let mask: usize = (1 << BIT_SIZE) - 1;
         let value = T::read_bytes_be(buffer);
-        (value >> T::from_usize(8 - (BIT_SIZE % 8) - BIT_OFFSET)) & T::from_usize(mask)
+        (value >> T::from_usize(size_of::<T>() * 8 - BIT_SIZE - BIT_OFFSET)) & T::from_usize(mask)
     }
 
     unsafe fn write_aligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
         let mask: usize = (1 << BIT_SIZE) - 1;
-        let reset_mask = !(mask << BIT_OFFSET);
+        let shift = size_of::<T>() * 8 - BIT_SIZE - BIT_OFFSET;
+        let reset_mask = !(mask << shift);
         let original = T::read_bytes_be(buffer);
         let clean = original & T::from_usize(reset_mask);
-        let value = (value & T::from_usize(mask)) << T::from_usize(8 - (BIT_SIZE % 8) - BIT_OFFSET);
+        let value = (value & T::from_usize(mask)) << T::from_usize(shift);
         (clean | value).write_bytes_be(buffer);
     }
 }
diff --git a/runtime/src/codec/bytes.rs b/runtime/src/codec/bytes.rs
index 2143e4c..f8e6aa5 100644
--- a/runtime/src/codec/bytes.rs
+++ b/runtime/src/codec/bytes.rs
@@ -82,9 +82,22 @@ impl ByteCodec for ByteCodecBE {
         T::read_bytes_be(buffer)
     }
 
+    unsafe fn read_unaligned<T: ReadBytes>(buffer: &[u8]) -> T {
+        // In big endian the least significant bytes are the last ones.
+        let mut data = [0; 8];
+        data[size_of::<T>() - buffer.len()..size_of::<T>()].copy_from_slice(buffer);
+        Self::read_aligned::<T>(&data)
+    }
+
     unsafe fn write_aligned<T: WriteBytes>(buffer: &mut [u8], value: T) {
         value.write_bytes_be(buffer);
     }
+
+    unsafe fn write_unaligned<T: WriteBytes>(buffer: &mut [u8], value: T) {
+        let mut data = [0; 8];
+        Self::write_aligned::<T>(&mut data, value);
+        buffer.copy_from_slice(&data[size_of::<T>() - buffer.len()..size_of::<T>()]);
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 549c9e605c3acbd52d15da907d7746a2424a45de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 06/23] fix: keep packed fields that cross a byte boundary
 apart from their neighbours

---
 compiler/src/compiler/error.rs     |  2 ++
 compiler/src/compiler/structure.rs | 18 +++++++++++-------
 compiler/src/gen/base/structure.rs |  4 ++--
 runtime/src/codec/bits.rs          |  5 +++--
 4 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index 5c77b70..d5a2f84 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -39,6 +39,8 @@ simple_error! {
         MissingBitSize => "missing bits specifier on a structure field",
         UndefinedReference(String) => "undefined reference to '{}'",
         UnalignedArrayCodec => "unaligned array in structure",
+        UnalignedStruct => "unaligned nested structure in structure",
+        UnsupportedFieldSpan(usize) => "fixed field ({} bits) spans more than 8 bytes",
         SolverError => "failed to resolve imported type",
         ZeroEnum => "enums must have at least 1 variant",
         InvalidUnionDiscriminant => "invalid union discriminant path",
diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 3517776..50ce57b 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -126,15 +126,13 @@ pub struct Location {
 impl Location {
     fn from_model(bit_size: usize, bit_offset: usize) -> Self {
         let byte_offset = bit_offset / 8;
+        let bit_offset = bit_offset - byte_offset * 8;
         Self {
             byte_offset,
-            bit_offset: bit_offset - byte_offset * 8,
+            bit_offset,
             bit_size,
-            byte_size: if bit_size % 8 != 0 {
-                (bit_size / 8) + 1
-            } else {
-                bit_size / 8
-            }
+            // The field may start in the middle of a byte.
+            byte_size: (bit_offset + bit_size + 7) / 8
         }
     }
 
@@ -289,6 +287,9 @@ impl Field {
         match value.info {
             StructFieldType::Struct { item_type } => {
                 let r = proto.structs_by_name.get(&item_type).ok_or_else(|| Error::UndefinedReference(item_type))?;
+                if last_bit_offset % 8 != 0 {
+                    return Err(Error::UnalignedStruct);
+                }
                 Ok((Self::Struct(StructField {
                     name: value.name,
                     r: r.clone(),
@@ -303,7 +304,7 @@ impl Field {
                 let ty = FixedFieldType::from_model(value.info)?;
                 let loc = Location::from_model(bit_size, last_bit_offset);
                 if array_len > 1 {
-                    if bit_size % 8 != 0 {
+                    if bit_size % 8 != 0 || loc.bit_offset != 0 {
                         return Err(Error::UnalignedArrayCodec);
                     }
                     Ok((Self::Array(FixedArrayField {
@@ -314,6 +315,9 @@ impl Field {
                         loc
                     }), last_bit_offset + bit_size))
                 } else {
+                    if loc.byte_size > 8 {
+                        return Err(Error::UnsupportedFieldSpan(bit_size));
+                    }
                     Ok((Self::Fixed(FixedField {
                         name: value.name,
                         endianness: proto.endianness,
diff --git a/compiler/src/gen/base/structure.rs b/compiler/src/gen/base/structure.rs
index 30f492e..0946ada 100644
--- a/compiler/src/gen/base/structure.rs
+++ b/compiler/src/gen/base/structure.rs
@@ -52,7 +52,7 @@ fn gen_field_getter<U: Utilities>(field: &Field, template: &Template, type_path_
             let raw_field_type = U::get_field_type(raw_field_type);
             let function_name = U::get_function_name(v);
             scope.var("raw_type", raw_field_type).var("function_name", function_name);
-            if v.loc.bit_size % 8 != 0 {
+            if v.loc.bit_size % 8 != 0 || v.loc.bit_offset != 0 {
                 scope.var("codec", U::get_bit_codec_inline(v.endianness))
                     .var_d("bit_offset", v.loc.bit_offset)
                     .var_d("bit_size", v.loc.bit_size)
@@ -84,7 +84,7 @@ fn gen_field_setter<U: Utilities>(field: &Field, template: &Template, type_path_
             let raw_field_type = U::get_field_type(raw_field_type);
             let function_name = U::get_function_name_mut(v);
             scope.var("raw_type", raw_field_type).var("function_name", function_name);
-            if v.loc.bit_size % 8 != 0 {
+            if v.loc.bit_size % 8 != 0 || v.loc.bit_offset != 0 {
                 scope.var("codec", U::get_bit_codec_inline(v.endianness))
                     .var_d("bit_offset", v.loc.bit_offset)
                     .var_d("bit_size", v.loc.bit_size)
diff --git a/runtime/src/codec/bits.rs b/runtime/src/codec/bits.rs
index cac0183..a52892f 100644
--- a/runtime/src/codec/bits.rs
+++ b/runtime/src/codec/bits.rs
@@ -36,7 +36,8 @@ pub trait BitCodec {
     unsafe fn read_unaligned<T: ToUsize + ReadBytes + Shr<Output = T> + BitAnd<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
         let mut data = [0; 8];
         data[..buffer.len()].copy_from_slice(buffer);
-        Self::read_aligned::<T, BIT_OFFSET, BIT_SIZE>(&data)
+        // The field may span more bytes than T.
+        T::from_usize(Self::read_aligned::<u64, BIT_OFFSET, BIT_SIZE>(&data).to_usize())
     }
 
     fn read<T: ToUsize + ReadBytes + Shr<Output = T> + BitAnd<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
@@ -52,7 +53,7 @@ pub trait BitCodec {
     unsafe fn write_unaligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output = T> + Shr<Output = T> + BitAnd<Output = T> + BitOr<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
         let mut data = [0; 8];
         data[..buffer.len()].copy_from_slice(buffer);
-        Self::write_aligned::<T, BIT_OFFSET, BIT_SIZE>(&mut data, value);
+        Self::write_aligned::<u64, BIT_OFFSET, BIT_SIZE>(&mut data, u64::from_usize(value.to_usize()));
         let motherfuckingrust = buffer.len();
         buffer.copy_from_slice(&data[..motherfuckingrust]);
     }
-- 
2.43.0


From 7860cd8d0e72c44dc13d14c4f45b033510a6f1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 07/23] fix: map float-range views onto the range they declare

---
 compiler/src/compiler/structure.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 50ce57b..f040d30 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -188,10 +188,10 @@ impl FieldView {
                     return Err(Error::UnsupportedViewType(ty));
                 }
                 let raw_max: usize = (1 << bit_size) - 1;
-                let a = max / (raw_max as f64);
+                let a = (max - min) / (raw_max as f64);
                 let b = min;
                 let a_inv = 1.0 / a;
-                let b_inv = -b;
+                let b_inv = -b * a_inv;
                 Ok(FieldView::Float { a, b, a_inv, b_inv })
             }
             Some(StructFieldView::FloatMultiplier { multiplier }) => {
-- 
2.43.0


From 756541610aab387be82ef8cd466e4816f954c6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 08/23] fix: refuse a union case without payload that does not
 match its discriminant

---
 compiler/src/gen/rust/union.rs       | 22 ++++++++++++----------
 compiler/src/gen/rust/union.template | 17 +++++++++++++++--
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/compiler/src/gen/rust/union.rs b/compiler/src/gen/rust/union.rs
index cbbf563..03a8090 100644
--- a/compiler/src/gen/rust/union.rs
+++ b/compiler/src/gen/rust/union.rs
@@ -82,17 +82,19 @@ fn gen_union_from_slice_impl(u: &Union, template: &Template, type_path_by_name:
 fn gen_union_write_to_impl(u: &Union, template: &Template, type_path_by_name: &TypePathMap) -> String {
     let generics = get_generics(u);
     let mut scope = template.scope();
+    let cases = u.cases.iter().map(|case| {
+        let mut scope = template.scope();
+        scope.var("name", &case.name).var_d("case", case.case);
+        match &case.item_type {
+            None if generics == "" => scope.render("write_to.none", &["case"]).unwrap(),
+            None => scope.render("write_to.generics", &["none"]).unwrap(),
+            Some(item_type) => scope.var("type_name", type_path_by_name.get(item_type.name()))
+                .render("write_to.generics", &["case"]).unwrap()
+        }
+    }).join("");
+    scope.var("cases", cases);
     if generics != "" {
-        let cases = u.cases.iter().filter_map(|case| {
-            let mut scope = template.scope();
-            scope.var("name", &case.name).var_d("case", case.case);
-            match &case.item_type {
-                None => None,
-                Some(item_type) => Some(scope.var("type_name", type_path_by_name.get(item_type.name()))
-                    .render("write_to.generics", &["case"]).unwrap())
-            }
-        }).join("");
-        scope.var("cases", cases).render_to_var("write_to", &["generics"], "fragment").unwrap();
+        scope.render_to_var("write_to", &["generics"], "fragment").unwrap();
     } else {
         scope.render_to_var("write_to", &["none"], "fragment").unwrap();
     }
diff --git a/compiler/src/gen/rust/union.template b/compiler/src/gen/rust/union.template
index e20da4c..24c8250 100644
--- a/compiler/src/gen/rust/union.template
+++ b/compiler/src/gen/rust/union.template
@@ -77,13 +77,26 @@ impl<'a> {union_name}{generics} {{
                 return Err(bp3d_proto::message::Error::InvalidUnionDiscriminant(discriminant as _))
             }},
 #fragment pop
-            _ => ()
+#fragment push none
+            Self::{name} => if discriminant != {case} {{
+                return Err(bp3d_proto::message::Error::InvalidUnionDiscriminant(discriminant as _))
+            }},
+#fragment pop
         }};
         Ok(())
     }}
 #fragment pop
 #fragment push none
-    pub fn write_to<W: std::io::Write>(_: &Self, _: &{discriminant_type}<&'a [u8]>, _: W) -> bp3d_proto::message::Result<()> {{
+    pub fn write_to<W: std::io::Write>(input: &Self, discriminant: &{discriminant_type}<&'a [u8]>, _: W) -> bp3d_proto::message::Result<()> {{
+        let discriminant = discriminant.{discriminant_path};
+        match input {{
+{cases}
+#fragment push case
+            Self::{name} => if discriminant != {case} {{
+                return Err(bp3d_proto::message::Error::InvalidUnionDiscriminant(discriminant as _))
+            }},
+#fragment pop
+        }};
         Ok(())
     }}
 #fragment pop
-- 
2.43.0


From 5549aae05c8c533040437539a2a413c90f9012ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 09/23] fix: leave a list untouched when an item cannot be
 encoded

---
 runtime/src/message/util/list_base.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/src/message/util/list_base.rs b/runtime/src/message/util/list_base.rs
index 4a0f801..8a74593 100644
--- a/runtime/src/message/util/list_base.rs
+++ b/runtime/src/message/util/list_base.rs
@@ -59,6 +59,8 @@ macro_rules! impl_list_base {
 
         impl<B: std::io::Write, T, I> $t<B, T, I> {
             pub fn write_item<Item: WriteTo<Input = Item>>(&mut self, item: &Item) -> Result<(), Error> {
+                // An item which cannot be encoded must not leave a part of itself in the list.
+                crate::message::util::size_of(item)?;
                 Item::write_to(item, &mut self.data)?;
                 self.len += 1;
                 Ok(())
-- 
2.43.0


From 3fcb3ee2871498228727fb7c6d55b3bfdb204484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 10/23] fix: delimit lists of messages that are nested in list
 items

---
 compiler/src/compiler/message.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index ad2a248..8d9d224 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -191,7 +191,7 @@ impl Field {
                         })
                     },
                     Referenced::Message(item_type) => {
-                        item_type.embedded.set(true);
+                        item_type.set_embedded();
                         Ok(Field {
                             name: value.name,
                             ty: FieldType::List(ListField {
@@ -300,6 +300,22 @@ impl Message {
         self.embedded.get()
     }
 
+    /// Marks this message, and every message nested in it, as being an item of a list.
+    fn set_embedded(&self) {
+        if self.embedded.replace(true) {
+            return;
+        }
+        for field in &self.fields {
+            match &field.ty {
+                FieldType::Ref(Referenced::Message(v)) => v.set_embedded(),
+                FieldType::Union(v) => v.r.cases.iter().for_each(|case| if let Some(Referenced::Message(v)) = &case.item_type {
+                    v.set_embedded();
+                }),
+                _ => ()
+            }
+        }
+    }
+
     pub fn from_model(proto: &Protocol, value: crate::model::message::Message) -> Result<Message, Error> {
         let mut fields = Vec::with_capacity(value.fields.len());
         let mut dyn_sized_elem_count = 0;
-- 
2.43.0


From e0ae1d6e208bdd6db6c40b7634634eba35d82f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 11/23] fix: refuse to encode strings and lists that their
 prefix or terminator cannot represent

---
 runtime/src/message/util/common.rs    | 9 +++++++++
 runtime/src/message/util/list_base.rs | 2 +-
 runtime/src/message/util/string.rs    | 6 +++++-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/runtime/src/message/util/common.rs b/runtime/src/message/util/common.rs
index ed58874..83f271d 100644
--- a/runtime/src/message/util/common.rs
+++ b/runtime/src/message/util/common.rs
@@ -30,6 +30,7 @@ use std::io::Write;
 use std::marker::PhantomData;
 use bytesutil::ReadBytes;
 use crate::message::{Error, FromSlice, FromSliceWithOffsets, Message, WriteTo};
+use crate::util::ToUsize;
 
 pub struct Optional<T>(PhantomData<T>);
 
@@ -137,6 +138,14 @@ impl<T: bytesutil::WriteTo> WriteTo for ValueBE<T> {
     }
 }
 
+/// Converts the length of a string, array or list to the type of its length prefix.
+pub(crate) fn check_len<T: ToUsize>(len: usize) -> Result<T, Error> {
+    if T::from_usize(len).to_usize() != len {
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "length does not fit its prefix").into());
+    }
+    Ok(T::from_usize(len))
+}
+
 pub struct Buffer;
 
 impl<'a> FromSlice<'a> for Buffer {
diff --git a/runtime/src/message/util/list_base.rs b/runtime/src/message/util/list_base.rs
index 8a74593..897d644 100644
--- a/runtime/src/message/util/list_base.rs
+++ b/runtime/src/message/util/list_base.rs
@@ -51,7 +51,7 @@ macro_rules! impl_list_base {
             type Input = $t<B, T, Item>;
 
             fn write_to<W: std::io::Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
-                T::write_to(&T::Input::from_usize(input.len), &mut out)?;
+                T::write_to(&crate::message::util::common::check_len(input.len)?, &mut out)?;
                 out.write_all(input.data.as_ref())?;
                 Ok(())
             }
diff --git a/runtime/src/message/util/string.rs b/runtime/src/message/util/string.rs
index 435e585..fc54c58 100644
--- a/runtime/src/message/util/string.rs
+++ b/runtime/src/message/util/string.rs
@@ -29,6 +29,7 @@
 use std::io::Write;
 use std::marker::PhantomData;
 use crate::message::{Error, FromSlice, Message, WriteTo};
+use crate::message::util::common::check_len;
 use crate::util::ToUsize;
 
 pub struct NullTerminatedString;
@@ -50,6 +51,9 @@ impl WriteTo for NullTerminatedString {
     type Input = str;
 
     fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
+        if input.as_bytes().contains(&0x0) {
+            return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "null-terminated string contains a null byte").into());
+        }
         out.write_all(input.as_bytes())?;
         out.write_all(&[0x0])?;
         Ok(())
@@ -74,7 +78,7 @@ impl<T: WriteTo<Input: ToUsize + Sized>> WriteTo for VarcharString<T> {
     type Input = str;
 
     fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
-        T::write_to(&T::Input::from_usize(input.len()), &mut out)?;
+        T::write_to(&check_len(input.len())?, &mut out)?;
         out.write_all(input.as_bytes())?;
         Ok(())
     }
-- 
2.43.0


From dcc775b19298d138d05a9e3000f7bbb7beaafae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 12/23] fix: tolerate that the output directory of a protocol
 appears while generating

---
 compiler/src/interface.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/compiler/src/interface.rs b/compiler/src/interface.rs
index 6855294..135ac4d 100644
--- a/compiler/src/interface.rs
+++ b/compiler/src/interface.rs
@@ -138,8 +138,10 @@ impl Protoc {
             let name = proto.name.clone();
             let files = T::generate(proto).map_err(|e| Error::Generator(e.to_string()))?;
             let out_path = out_directory.as_ref().join(&name);
-            if !out_path.exists() {
-                std::fs::create_dir(&out_path).map_err(Error::Io)?;
+            match std::fs::create_dir(&out_path) {
+                // The directory may be left from an earlier run or just created by a concurrent one.
+                Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => (),
+                v => v.map_err(Error::Io)?
             }
             let files_iter = files.into_iter().filter(|v| {
                 match v.ty() {
-- 
2.43.0


From 9f5c19c793e828a2e5f676e8e436a5e42d8d8559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 13/23] fix: never mix the outputs of concurrent runs in one
 file

---
 compiler/src/gen/mod.rs   | 15 ++++++++++++++-
 compiler/src/interface.rs |  4 ++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/compiler/src/gen/mod.rs b/compiler/src/gen/mod.rs
index b1015bd..61b2314 100644
--- a/compiler/src/gen/mod.rs
+++ b/compiler/src/gen/mod.rs
@@ -28,6 +28,7 @@
 
 use std::borrow::Cow;
 use std::path::{Path, PathBuf};
+use std::sync::atomic::{AtomicUsize, Ordering};
 use crate::compiler::Protocol;
 
 mod rust;
@@ -45,6 +46,18 @@ pub enum FileType {
     Union
 }
 
+/// Writes an output file in one step, so that concurrent runs never mix their outputs in a single file.
+pub(crate) fn write_file(path: &Path, data: &[u8]) -> std::io::Result<()> {
+    static COUNTER: AtomicUsize = AtomicUsize::new(0);
+    let mut tmp = path.as_os_str().to_owned();
+    tmp.push(format!(".{}-{}.tmp", std::process::id(), COUNTER.fetch_add(1, Ordering::Relaxed)));
+    let res = std::fs::write(&tmp, data).and_then(|_| std::fs::rename(&tmp, path));
+    if res.is_err() {
+        let _ = std::fs::remove_file(&tmp);
+    }
+    res
+}
+
 pub struct File {
     name: Cow<'static, str>,
     data: String,
@@ -71,7 +84,7 @@ impl File {
                 std::fs::create_dir(out_directory.join(sub_folder))?;
             }
             let path = out_directory.join(&*self.name);
-            std::fs::write(&path, self.data)?;
+            write_file(&path, self.data.as_bytes())?;
             Ok(Some(path))
         } else {
             Ok(None)
diff --git a/compiler/src/interface.rs b/compiler/src/interface.rs
index 135ac4d..1ffc811 100644
--- a/compiler/src/interface.rs
+++ b/compiler/src/interface.rs
@@ -29,7 +29,7 @@
 use std::path::{Path, PathBuf};
 use crate::{compiler, Error, model};
 use crate::compiler::util::ImportResolver;
-use crate::gen::{FileType, Generator};
+use crate::gen::{write_file, FileType, Generator};
 
 pub trait ImportSolver {
     fn register(&mut self, base_import_path: String, protocol: compiler::Protocol);
@@ -166,7 +166,7 @@ impl Protoc {
             let proto_path;
             if umbrella.len() > 1 {
                 let umbrella_path = out_path.join("umbrella.rs");
-                std::fs::write(&umbrella_path, umbrella).map_err(Error::Io)?;
+                write_file(&umbrella_path, umbrella.as_bytes()).map_err(Error::Io)?;
                 proto_path = umbrella_path;
             } else {
                 proto_path = out_path;
-- 
2.43.0


From 254b7f7a761afecf855c98c35a8f700e95b70576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 14/23] fix: refuse protocol names that leave the output
 directory

---
 compiler/src/interface.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/compiler/src/interface.rs b/compiler/src/interface.rs
index 1ffc811..eeb5a9b 100644
--- a/compiler/src/interface.rs
+++ b/compiler/src/interface.rs
@@ -26,7 +26,7 @@
 // NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 // SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use crate::{compiler, Error, model};
 use crate::compiler::util::ImportResolver;
 use crate::gen::{write_file, FileType, Generator};
@@ -136,6 +136,11 @@ impl Protoc {
         let mut generated_protocols = Vec::new();
         for proto in self.protocols {
             let name = proto.name.clone();
+            // The name of the protocol is the name of a directory inside of the output directory.
+            let mut components = Path::new(&name).components();
+            if !matches!((components.next(), components.next()), (Some(Component::Normal(v)), None) if v == name.as_str()) {
+                return Err(Error::Generator(format!("invalid protocol name '{}'", name)));
+            }
             let files = T::generate(proto).map_err(|e| Error::Generator(e.to_string()))?;
             let out_path = out_directory.as_ref().join(&name);
             match std::fs::create_dir(&out_path) {
-- 
2.43.0


From 382e0200c9d6e280f192c72c4b81b6fe539204a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 15/23] fix: order enum variants of equal value independently
 of hashing

---
 compiler/src/compiler/enum.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/compiler/enum.rs b/compiler/src/compiler/enum.rs
index 39138f0..8b84565 100644
--- a/compiler/src/compiler/enum.rs
+++ b/compiler/src/compiler/enum.rs
@@ -40,7 +40,7 @@ pub struct Enum {
 impl Enum {
     pub fn from_model(value: crate::model::protocol::Enum) -> Result<Enum, Error> {
         let mut variants: Vec<(String, usize)> = value.variants.into_iter().collect();
-        variants.sort_by(|(_, v), (_, v1)| v.cmp(v1));
+        variants.sort_by(|(k, v), (k1, v1)| (v, k).cmp(&(v1, k1)));
         let mut variants_map = HashMap::new();
         let largest = variants.last().map(|(_, v)| *v).ok_or(Error::ZeroEnum)?;
         for (k, v) in &variants {
-- 
2.43.0


From f5dbe740f40b1bb40cfec5a38e85bea27ea18566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 16/23] fix: refuse unsupported schema values with an error
 instead of panicking

---
 compiler/src/compiler/error.rs     |  2 ++
 compiler/src/compiler/structure.rs | 26 ++++++++++++++++++++------
 compiler/src/compiler/union.rs     |  8 ++++++--
 compiler/src/gen/template.rs       | 13 ++++++-------
 4 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index d5a2f84..68bb7ba 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -39,6 +39,8 @@ simple_error! {
         MissingBitSize => "missing bits specifier on a structure field",
         UndefinedReference(String) => "undefined reference to '{}'",
         UnalignedArrayCodec => "unaligned array in structure",
+        UnsupportedArrayLen(usize) => "unsupported array length ({})",
+        StructTooLarge => "structure is too large",
         UnalignedStruct => "unaligned nested structure in structure",
         UnsupportedFieldSpan(usize) => "fixed field ({} bits) spans more than 8 bytes",
         SolverError => "failed to resolve imported type",
diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index f040d30..7e60990 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -141,6 +141,13 @@ impl Location {
     }
 }
 
+/// Computes the offset of the end of a field, which leaves room to round up to the next byte.
+fn end_bit_offset(last_bit_offset: usize, bit_size: usize) -> Result<usize, Error> {
+    last_bit_offset.checked_add(bit_size)
+        .filter(|v| *v <= isize::MAX as usize)
+        .ok_or(Error::StructTooLarge)
+}
+
 #[derive(Clone, Debug)]
 pub enum FieldView {
     /// Apply a float view based on an affine transformation function.
@@ -187,7 +194,7 @@ impl FieldView {
                 if ty != SimpleType::Float {
                     return Err(Error::UnsupportedViewType(ty));
                 }
-                let raw_max: usize = (1 << bit_size) - 1;
+                let raw_max = u64::MAX >> (64 - bit_size);
                 let a = (max - min) / (raw_max as f64);
                 let b = min;
                 let a_inv = 1.0 / a;
@@ -294,17 +301,24 @@ impl Field {
                     name: value.name,
                     r: r.clone(),
                     loc: Location::from_model(r.bit_size, last_bit_offset)
-                }), last_bit_offset + r.bit_size))
+                }), end_bit_offset(last_bit_offset, r.bit_size)?))
             },
             _ => {
                 let array_len = value.array_len.unwrap_or(1);
                 let mut bit_size = value.info.get_bit_size().ok_or(Error::MissingBitSize)?;
+                if bit_size == 0 || bit_size > 64 {
+                    return Err(Error::UnsupportedBitSize(bit_size));
+                }
+                if array_len > 1 && bit_size % 8 != 0 {
+                    return Err(Error::UnalignedArrayCodec);
+                }
                 let view = FieldView::from_model(proto, value.info.get_simple_type(), bit_size, value.view)?;
-                bit_size *= array_len;
+                bit_size = bit_size.checked_mul(array_len).filter(|v| *v > 0).ok_or(Error::UnsupportedArrayLen(array_len))?;
+                let end_bit_offset = end_bit_offset(last_bit_offset, bit_size)?;
                 let ty = FixedFieldType::from_model(value.info)?;
                 let loc = Location::from_model(bit_size, last_bit_offset);
                 if array_len > 1 {
-                    if bit_size % 8 != 0 || loc.bit_offset != 0 {
+                    if loc.bit_offset != 0 {
                         return Err(Error::UnalignedArrayCodec);
                     }
                     Ok((Self::Array(FixedArrayField {
@@ -313,7 +327,7 @@ impl Field {
                         array_len,
                         ty,
                         loc
-                    }), last_bit_offset + bit_size))
+                    }), end_bit_offset))
                 } else {
                     if loc.byte_size > 8 {
                         return Err(Error::UnsupportedFieldSpan(bit_size));
@@ -324,7 +338,7 @@ impl Field {
                         ty,
                         loc,
                         view
-                    }), last_bit_offset + bit_size))
+                    }), end_bit_offset))
                 }
             }
         }
diff --git a/compiler/src/compiler/union.rs b/compiler/src/compiler/union.rs
index b81a205..e47a2f6 100644
--- a/compiler/src/compiler/union.rs
+++ b/compiler/src/compiler/union.rs
@@ -108,13 +108,17 @@ impl DiscriminantField {
         let mut leaf = proto.structs_by_name.get(name).ok_or_else(|| Error::UndefinedReference(name.into()))?;
         let root = leaf;
         let mut index_list = Vec::new();
+        let mut leaf_index = None;
         for sub in parts {
             let (index, field) = leaf.fields.iter().enumerate()
                 .find(|(_, v)| v.name() == sub)
                 .ok_or_else(|| Error::UndefinedReference(format!("{}.{}", name, sub)))?;
             index_list.push(index);
             match field {
-                Field::Fixed(_) => break,
+                Field::Fixed(_) => {
+                    leaf_index = Some(index);
+                    break;
+                },
                 Field::Struct(v) => leaf = &v.r,
                 Field::Array(_) => return Err(Error::InvalidUnionDiscriminant)
             }
@@ -122,7 +126,7 @@ impl DiscriminantField {
         Ok(DiscriminantField {
             root: root.clone(),
             leaf: leaf.clone(),
-            leaf_index: index_list.last().map(|v| *v).unwrap(),
+            leaf_index: leaf_index.ok_or(Error::InvalidUnionDiscriminant)?,
             index_list
         })
     }
diff --git a/compiler/src/gen/template.rs b/compiler/src/gen/template.rs
index b1afce5..563e8b7 100644
--- a/compiler/src/gen/template.rs
+++ b/compiler/src/gen/template.rs
@@ -132,13 +132,12 @@ pub struct FunctionMap<'fragment> {
 }
 
 fn capitalize(value: &str) -> Cow<str> {
-    if value.len() == 0 {
-        return value.into();
-    }
-    if value.as_bytes()[0] >= b'A' && value.as_bytes()[0] <= b'Z' {
-        value.into()
-    } else {
-        (value[..1].to_ascii_uppercase() + &value[1..]).into()
+    match value.chars().next() {
+        Some(first) if !first.is_ascii_uppercase() => {
+            let (first, rest) = value.split_at(first.len_utf8());
+            (first.to_ascii_uppercase() + rest).into()
+        },
+        _ => value.into()
     }
 }
 
-- 
2.43.0


From 0377bf132d0aad7773f7dedfb36b89124453156b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 17/23] fix: accept imported structures as array items

---
 runtime/src/message/macros.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/runtime/src/message/macros.rs b/runtime/src/message/macros.rs
index 247157a..5a0c025 100644
--- a/runtime/src/message/macros.rs
+++ b/runtime/src/message/macros.rs
@@ -28,19 +28,19 @@
 
 #[macro_export]
 macro_rules! generate_array_wrapper {
-    ($name: ident, $inner: ident, $t: ty) => {
-        pub struct $name<'a, B>($crate::message::util::Array<B, $t, $inner<&'a [u8]>>);
+    ($name: ident, $($inner: ident)::+, $t: ty) => {
+        pub struct $name<'a, B>($crate::message::util::Array<B, $t, $($inner)::+<&'a [u8]>>);
 
         impl<'a, B> $name<'a, B> {
             pub unsafe fn from_raw_parts(data: B, len: usize) -> $name<'a, B> {
-                Self($crate::message::util::Array::<B, $t, $inner<&'a [u8]>>::from_raw_parts(data, len))
+                Self($crate::message::util::Array::<B, $t, $($inner)::+<&'a [u8]>>::from_raw_parts(data, len))
             }
 
             pub fn new(data: B) -> $name<'a, B> {
                 unsafe { Self::from_raw_parts(data, 0) }
             }
 
-            pub fn from_array(inner: $crate::message::util::Array<B, $t, $inner<&'a [u8]>>) -> Self {
+            pub fn from_array(inner: $crate::message::util::Array<B, $t, $($inner)::+<&'a [u8]>>) -> Self {
                 Self(inner)
             }
 
@@ -50,39 +50,39 @@ macro_rules! generate_array_wrapper {
         }
 
         impl<'a, B: std::io::Write> $name<'a, B> {
-            pub fn write_item(&mut self, item: &$inner<&[u8]>) -> $crate::message::Result<()> {
+            pub fn write_item(&mut self, item: &$($inner)::+<&[u8]>) -> $crate::message::Result<()> {
                 self.0.write_item(item)
             }
 
-            pub fn write_items(&mut self, items: &[$inner<&[u8]>]) -> $crate::message::Result<()> {
+            pub fn write_items(&mut self, items: &[$($inner)::+<&[u8]>]) -> $crate::message::Result<()> {
                 self.0.write_items(items)
             }
         }
 
         impl<'a, B: AsRef<[u8]>> $name<'a, B> {
-            pub fn to_ref(&self) -> $crate::message::util::Array<&[u8], $t, $inner<&[u8]>> {
+            pub fn to_ref(&self) -> $crate::message::util::Array<&[u8], $t, $($inner)::+<&[u8]>> {
                 self.0.to_ref()
             }
 
             pub fn from_parts(data: B, len: usize) -> Option<Self> {
-                $crate::message::util::Array::<B, $t, $inner<&'a [u8]>>::from_parts(data, len).map(Self)
+                $crate::message::util::Array::<B, $t, $($inner)::+<&'a [u8]>>::from_parts(data, len).map(Self)
             }
 
-            pub fn get(&self, index: usize) -> $inner<&[u8]> {
+            pub fn get(&self, index: usize) -> $($inner)::+<&[u8]> {
                 self.0.get(index)
             }
 
-            pub fn iter<'b>(&'b self) -> $crate::message::util::array::Iter<'b, $inner<&[u8]>> {
+            pub fn iter<'b>(&'b self) -> $crate::message::util::array::Iter<'b, $($inner)::+<&[u8]>> {
                 self.0.iter()
             }
         }
 
         impl<'a, B: AsMut<[u8]>> $name<'a, B> {
-            pub fn get_mut(&mut self, index: usize) -> $inner<&mut [u8]> {
+            pub fn get_mut(&mut self, index: usize) -> $($inner)::+<&mut [u8]> {
                 self.0.get_mut(index)
             }
 
-            pub fn iter_mut<'b>(&'b mut self) -> $crate::message::util::array::IterMut<'b, $inner<&mut [u8]>> {
+            pub fn iter_mut<'b>(&'b mut self) -> $crate::message::util::array::IterMut<'b, $($inner)::+<&mut [u8]>> {
                 self.0.iter_mut()
             }
         }
-- 
2.43.0


From ba55904e3cc6a2c2d2812b4235d0a3f2d090e0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 18/23] fix: name the buffer of optional structures in messages

---
 compiler/src/gen/base/message_from_slice.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/src/gen/base/message_from_slice.rs b/compiler/src/gen/base/message_from_slice.rs
index c7bd322..9797cc8 100644
--- a/compiler/src/gen/base/message_from_slice.rs
+++ b/compiler/src/gen/base/message_from_slice.rs
@@ -46,7 +46,11 @@ pub fn generate_field_type_inline<'a, U: Utilities>(msg: &Message, field: &'a Fi
     let msg_type = match &field.ty {
         FieldType::Fixed(ty) => gen_optional::<U>(field.optional, U::get_value_type_inline(field.endianness, ty.ty)),
         FieldType::Ref(v) => match v {
-            Referenced::Struct(v) => gen_optional::<U>(field.optional, type_path_by_name.get(&v.name)),
+            Referenced::Struct(v) => match field.optional {
+                // The generics of a structure cannot be inferred inside of an option type.
+                true => U::gen_option_type_inline(&U::gen_struct_ref_type(type_path_by_name.get(&v.name))).into(),
+                false => type_path_by_name.get(&v.name).into()
+            },
             Referenced::Message(v) => gen_optional::<U>(field.optional, type_path_by_name.get(&v.name))
         }
         FieldType::NullTerminatedString => gen_optional::<U>(field.optional, U::get_string_type_inline(StringType::NullTerminated)),
-- 
2.43.0


From 49c570b12eaaf1521bd2e70126fec28966f140da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 19/23] fix: keep the sign of array items which are narrower
 than their type

---
 runtime/src/codec/arrays.rs | 36 +++++++++++++++++++++++++++++++++---
 runtime/src/codec/mod.rs    |  2 +-
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/runtime/src/codec/arrays.rs b/runtime/src/codec/arrays.rs
index e64bc72..c4aa205 100644
--- a/runtime/src/codec/arrays.rs
+++ b/runtime/src/codec/arrays.rs
@@ -30,6 +30,36 @@ use std::marker::PhantomData;
 use bytesutil::{ReadBytes, WriteBytes};
 use crate::codec::ByteCodec;
 
+/// Extends the sign of an item which is stored in less bits than its type has.
+pub trait SignExtend {
+    fn sign_extend(self, bit_size: usize) -> Self;
+}
+
+macro_rules! impl_sign_extend {
+    (signed $($t: ty)*) => {
+        $(
+            impl SignExtend for $t {
+                fn sign_extend(self, bit_size: usize) -> Self {
+                    let shift = <$t>::BITS as usize - bit_size;
+                    (self << shift) >> shift
+                }
+            }
+        )*
+    };
+    ($($t: ty)*) => {
+        $(
+            impl SignExtend for $t {
+                fn sign_extend(self, _: usize) -> Self {
+                    self
+                }
+            }
+        )*
+    };
+}
+
+impl_sign_extend!(signed i8 i16 i32 i64);
+impl_sign_extend!(u8 u16 u32 u64 f32 f64);
+
 pub struct ArrayCodec<B, Item, C, const ITEM_BIT_SIZE: usize> {
     buffer: B,
     useless: PhantomData<Item>,
@@ -46,12 +76,12 @@ impl<B, Item, C, const ITEM_BIT_SIZE: usize> ArrayCodec<B, Item, C, ITEM_BIT_SIZ
     }
 }
 
-impl<B: AsRef<[u8]>, Item: ReadBytes, C: ByteCodec, const ITEM_BIT_SIZE: usize> ArrayCodec<B, Item, C, ITEM_BIT_SIZE> {
+impl<B: AsRef<[u8]>, Item: ReadBytes + SignExtend, C: ByteCodec, const ITEM_BIT_SIZE: usize> ArrayCodec<B, Item, C, ITEM_BIT_SIZE> {
     pub fn get_raw(&self, index: usize) -> Item {
         let byte_size = ITEM_BIT_SIZE / 8;
         let pos = index * byte_size;
         let end = pos + byte_size;
-        C::read::<Item>(&self.buffer.as_ref()[pos..end])
+        C::read::<Item>(&self.buffer.as_ref()[pos..end]).sign_extend(ITEM_BIT_SIZE)
     }
 
     pub fn len(&self) -> usize {
@@ -61,7 +91,7 @@ impl<B: AsRef<[u8]>, Item: ReadBytes, C: ByteCodec, const ITEM_BIT_SIZE: usize>
 
     pub fn iter_raw(&self) -> impl Iterator<Item = Item> + '_ {
         let byte_size = ITEM_BIT_SIZE / 8;
-        self.buffer.as_ref().chunks(byte_size).map(|v| C::read::<Item>(v))
+        self.buffer.as_ref().chunks(byte_size).map(|v| C::read::<Item>(v).sign_extend(ITEM_BIT_SIZE))
     }
 }
 
diff --git a/runtime/src/codec/mod.rs b/runtime/src/codec/mod.rs
index 3ddb2d6..9601452 100644
--- a/runtime/src/codec/mod.rs
+++ b/runtime/src/codec/mod.rs
@@ -30,6 +30,6 @@ mod bytes;
 mod bits;
 mod arrays;
 
-pub use arrays::ArrayCodec;
+pub use arrays::{ArrayCodec, SignExtend};
 pub use bits::*;
 pub use bytes::*;
-- 
2.43.0


From 4d8a526ae3a9b39c669a9c2d505100bc30bb3c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 20/23] fix: tolerate that the sub folder of an output file
 exists

---
 compiler/src/gen/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/src/gen/mod.rs b/compiler/src/gen/mod.rs
index 61b2314..5e79df8 100644
--- a/compiler/src/gen/mod.rs
+++ b/compiler/src/gen/mod.rs
@@ -81,7 +81,11 @@ impl File {
         if self.data.len() > 1 {
             let sub_folder = self.name.find("/").map(|id| &self.name[..id]);
             if let Some(sub_folder) = sub_folder {
-                std::fs::create_dir(out_directory.join(sub_folder))?;
+                match std::fs::create_dir(out_directory.join(sub_folder)) {
+                    // The folder may hold other files of this run or be left from an earlier run.
+                    Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => (),
+                    v => v?
+                }
             }
             let path = out_directory.join(&*self.name);
             write_file(&path, self.data.as_bytes())?;
-- 
2.43.0


From f1dac47a9a467f02be8262b21073904647d54d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:37 +0000
Subject: [PATCH 21/23] fix: never share a temporary file with another run

Process identifiers are not unique across containers that share an output directory: two runs with the same
one wrote their outputs through the same temporary file, so that an output could be half of one and half of
the other, or a run failed because the other had already moved the file. The file is now created exclusively.
---
 compiler/src/gen/mod.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/compiler/src/gen/mod.rs b/compiler/src/gen/mod.rs
index 5e79df8..667010e 100644
--- a/compiler/src/gen/mod.rs
+++ b/compiler/src/gen/mod.rs
@@ -27,6 +27,8 @@
 // SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 use std::borrow::Cow;
+use std::fs::OpenOptions;
+use std::io::Write;
 use std::path::{Path, PathBuf};
 use std::sync::atomic::{AtomicUsize, Ordering};
 use crate::compiler::Protocol;
@@ -49,9 +51,18 @@ pub enum FileType {
 /// Writes an output file in one step, so that concurrent runs never mix their outputs in a single file.
 pub(crate) fn write_file(path: &Path, data: &[u8]) -> std::io::Result<()> {
     static COUNTER: AtomicUsize = AtomicUsize::new(0);
-    let mut tmp = path.as_os_str().to_owned();
-    tmp.push(format!(".{}-{}.tmp", std::process::id(), COUNTER.fetch_add(1, Ordering::Relaxed)));
-    let res = std::fs::write(&tmp, data).and_then(|_| std::fs::rename(&tmp, path));
+    let (tmp, mut file) = loop {
+        let mut tmp = path.as_os_str().to_owned();
+        tmp.push(format!(".{}-{}.tmp", std::process::id(), COUNTER.fetch_add(1, Ordering::Relaxed)));
+        match OpenOptions::new().write(true).create_new(true).open(&tmp) {
+            // Runs in different containers may have the same process identifier, and a killed run may leave its file.
+            Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => (),
+            v => break (tmp, v?)
+        }
+    };
+    let res = file.write_all(data);
+    drop(file);
+    let res = res.and_then(|_| std::fs::rename(&tmp, path));
     if res.is_err() {
         let _ = std::fs::remove_file(&tmp);
     }
-- 
2.43.0


From e0dfe833e686bad22843bddd9b42d26d49015456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:39 +0000
Subject: [PATCH 22/23] fix: iterate arrays of structures without fields
 instead of panicking

---
 runtime/src/message/util/array.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/runtime/src/message/util/array.rs b/runtime/src/message/util/array.rs
index 2624f99..1f1741f 100644
--- a/runtime/src/message/util/array.rs
+++ b/runtime/src/message/util/array.rs
@@ -46,6 +46,7 @@ impl_list_base!(Array);
 
 pub struct IterMut<'a, Item> {
     data: ChunksMut<'a, u8>,
+    empty: usize,
     useless: PhantomData<Item>
 }
 
@@ -53,12 +54,17 @@ impl<'a, Item: From<&'a mut [u8]>> Iterator for IterMut<'a, Item> {
     type Item = Item;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.empty > 0 {
+            self.empty -= 1;
+            return Some(Item::from(&mut []));
+        }
         self.data.next().map(Item::from)
     }
 }
 
 pub struct Iter<'a, Item> {
     data: Chunks<'a, u8>,
+    empty: usize,
     useless: PhantomData<Item>
 }
 
@@ -66,6 +72,10 @@ impl<'a, Item: From<&'a [u8]>> Iterator for Iter<'a, Item> {
     type Item = Item;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.empty > 0 {
+            self.empty -= 1;
+            return Some(Item::from(&[]));
+        }
         self.data.next().map(Item::from)
     }
 }
@@ -88,7 +98,9 @@ impl<'a, B: AsRef<[u8]>, T, I> Array<B, T, I> {
 
     pub fn iter<Item: FixedSize + From<&'a [u8]>>(&'a self) -> Iter<'a, Item> {
         Iter {
-            data: self.data.as_ref().chunks(Item::SIZE),
+            data: self.data.as_ref().chunks(Item::SIZE.max(1)),
+            // Items of an empty structure take no bytes.
+            empty: if Item::SIZE == 0 { self.len } else { 0 },
             useless: PhantomData::default()
         }
     }
@@ -103,7 +115,9 @@ impl<'a, B: AsMut<[u8]>, T, I> Array<B, T, I> {
 
     pub fn iter_mut<Item: FixedSize + From<&'a mut [u8]>>(&'a mut self) -> IterMut<'a, Item> {
         IterMut {
-            data: self.data.as_mut().chunks_mut(Item::SIZE),
+            data: self.data.as_mut().chunks_mut(Item::SIZE.max(1)),
+            // Items of an empty structure take no bytes.
+            empty: if Item::SIZE == 0 { self.len } else { 0 },
             useless: PhantomData::default()
         }
     }
-- 
2.43.0


From a8a0e9fbfdaed330c6f3f58ce2beea179b0e5357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:39 +0000
Subject: [PATCH 23/23] fix: do not decode a list of empty items once per
 declared item

---
 runtime/src/message/util/list.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/src/message/util/list.rs b/runtime/src/message/util/list.rs
index c1eb428..53c1730 100644
--- a/runtime/src/message/util/list.rs
+++ b/runtime/src/message/util/list.rs
@@ -52,6 +52,10 @@ impl<'a, T: FromSlice<'a, Output: ToUsize>, Item: FromSlice<'a, Output = Item>>
         let mut total_size: usize = 0;
         for _ in 0..len {
             let msg = Item::from_slice(&data[total_size..])?;
+            if msg.size() == 0 {
+                // All further items start here too, their number must not hold the decoder.
+                break;
+            }
             total_size += msg.size();
         }
         let data = &slice[control_size..control_size + total_size];
-- 
2.43.0

