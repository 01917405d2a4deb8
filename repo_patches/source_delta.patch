From 7051d5e19ae5c660150fe9075ac80728d41c828d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 1/8] fix: report memory failure while checking storage key
 hash instead of panicking

---
 src/storage_data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage_data.rs b/src/storage_data.rs
index 4f35a76..adb1f37 100644
--- a/src/storage_data.rs
+++ b/src/storage_data.rs
@@ -268,7 +268,7 @@ macro_rules! check_hash {
                             position_decoder_starts,
                             *position - position_decoder_starts,
                         )
-                        .expect("positions checked, valid slice")
+                        .map_err(|e| StorageError::ParsingKey(ParserError::Buffer(e)))?
                         .as_ref(),
                 )
             {
-- 
2.43.0


From 34dfcb7dbddbdc859848198660c21ff1ddb53b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 2/8] fix: memory failure during special type detection must
 not change interpretation of data

---
 src/decoding_sci.rs       |   3 +-
 src/special_indicators.rs | 124 ++++++++++++++++++++++++++++++--------
 2 files changed, 102 insertions(+), 25 deletions(-)

diff --git a/src/decoding_sci.rs b/src/decoding_sci.rs
index e1ad394..0e3db73 100644
--- a/src/decoding_sci.rs
+++ b/src/decoding_sci.rs
@@ -276,7 +276,8 @@ where
     };
     let info_ty = Info::from_ty(&ty);
     propagated.add_info(&info_ty);
-    match SpecialtyTypeChecked::from_type::<B, E, M>(&ty, data, ext_memory, position, registry) {
+    match SpecialtyTypeChecked::try_from_type::<B, E, M>(&ty, data, ext_memory, position, registry)?
+    {
         SpecialtyTypeChecked::None => match &ty.type_def {
             TypeDef::Composite(x) => {
                 let field_data_set = decode_fields::<B, E, M>(
diff --git a/src/special_indicators.rs b/src/special_indicators.rs
index 743081f..c11c83d 100644
--- a/src/special_indicators.rs
+++ b/src/special_indicators.rs
@@ -7,13 +7,14 @@
 //! Additionally, some data should better be decoded directly as the custom type
 //! mentioned in metadata descriptors, rather than decoded as more generalized
 //! type and cast into custom type later on.
-use external_memory_tools::{AddressableBuffer, ExternalMemory};
+use external_memory_tools::{AddressableBuffer, BufferError, ExternalMemory};
 use scale_info::{form::PortableForm, Field, Path, Type, TypeDef, TypeDefPrimitive, Variant};
 
 use crate::std::{borrow::ToOwned, string::String, vec::Vec};
 
 use crate::cards::Info;
 use crate::decoding_sci::{husk_type, pick_variant};
+use crate::error::{ParserError, RegistryError};
 use crate::propagated::Checker;
 use crate::traits::{AsMetadata, ResolveType, SignedExtensionMetadata};
 
@@ -276,26 +277,45 @@ impl SignatureIndicator {
         E: ExternalMemory,
         M: AsMetadata<E>,
     {
-        if let Ok(husked_field_ty) =
-            husk_type::<E, M>(&field.ty, registry, ext_memory, Checker::new())
-        {
+        Self::try_from_field::<E, M>(field, ext_memory, registry).unwrap_or(Self::None)
+    }
+
+    /// Same as `from_field`, but failures to access external memory are
+    /// returned as errors, since those say nothing about the field itself.
+    pub(crate) fn try_from_field<E, M>(
+        field: &Field<PortableForm>,
+        ext_memory: &mut E,
+        registry: &M::TypeRegistry,
+    ) -> Result<Self, RegistryError<E>>
+    where
+        E: ExternalMemory,
+        M: AsMetadata<E>,
+    {
+        if let Some(husked_field_ty) = unless_external_registry(husk_type::<E, M>(
+            &field.ty,
+            registry,
+            ext_memory,
+            Checker::new(),
+        ))? {
             // check here that the underlying type is really `[u8; LEN]` array
             let array_u8_length = match husked_field_ty.ty.type_def {
                 TypeDef::Array(signature_array_ty) => {
                     let element_ty_id = signature_array_ty.type_param.id;
-                    if let Ok(element_ty) = registry.resolve_ty(element_ty_id, ext_memory) {
+                    if let Some(element_ty) =
+                        unless_external_registry(registry.resolve_ty(element_ty_id, ext_memory))?
+                    {
                         if let TypeDef::Primitive(TypeDefPrimitive::U8) = element_ty.type_def {
                             signature_array_ty.len
                         } else {
-                            return Self::None;
+                            return Ok(Self::None);
                         }
                     } else {
-                        return Self::None;
+                        return Ok(Self::None);
                     }
                 }
-                _ => return Self::None,
+                _ => return Ok(Self::None),
             };
-            match &field.type_name {
+            Ok(match &field.type_name {
                 Some(type_name) => match type_name.as_str() {
                     a if SIGNATURE_ECDSA_ID_SET.contains(&a) => {
                         if array_u8_length == substrate_crypto_light::ecdsa::SIGNATURE_LEN as u32 {
@@ -323,9 +343,9 @@ impl SignatureIndicator {
                     _ => Self::None,
                 },
                 None => Self::None,
-            }
+            })
         } else {
-            Self::None
+            Ok(Self::None)
         }
     }
 }
@@ -598,7 +618,25 @@ impl SpecialtyTypeChecked {
         E: ExternalMemory,
         M: AsMetadata<E>,
     {
-        match SpecialtyTypeHinted::from_type(ty) {
+        Self::try_from_type::<B, E, M>(ty, data, ext_memory, position, registry)
+            .unwrap_or(Self::None)
+    }
+
+    /// Same as `from_type`, but failures to access external memory are returned
+    /// as errors, since those say nothing about the type itself.
+    pub(crate) fn try_from_type<B, E, M>(
+        ty: &Type<PortableForm>,
+        data: &B,
+        ext_memory: &mut E,
+        position: &mut usize,
+        registry: &M::TypeRegistry,
+    ) -> Result<Self, ParserError<E>>
+    where
+        B: AddressableBuffer<E>,
+        E: ExternalMemory,
+        M: AsMetadata<E>,
+    {
+        Ok(match SpecialtyTypeHinted::from_type(ty) {
             SpecialtyTypeHinted::None => Self::None,
             SpecialtyTypeHinted::AccountId32 => Self::AccountId32,
             SpecialtyTypeHinted::Era => Self::Era,
@@ -607,14 +645,19 @@ impl SpecialtyTypeChecked {
             SpecialtyTypeHinted::H512 => Self::H512,
             SpecialtyTypeHinted::MultiSignature => {
                 if let TypeDef::Variant(x) = &ty.type_def {
-                    match pick_variant::<B, E>(&x.variants, data, ext_memory, *position) {
-                        Ok(signature_variant) => {
+                    match unless_external(pick_variant::<B, E>(
+                        &x.variants,
+                        data,
+                        ext_memory,
+                        *position,
+                    ))? {
+                        Some(signature_variant) => {
                             if signature_variant.fields.len() == 1 {
-                                match SignatureIndicator::from_field::<E, M>(
+                                match SignatureIndicator::try_from_field::<E, M>(
                                     &signature_variant.fields[0],
                                     ext_memory,
                                     registry,
-                                ) {
+                                )? {
                                     SignatureIndicator::None => Self::None,
                                     SignatureIndicator::Ecdsa => {
                                         *position += ENUM_INDEX_ENCODED_LEN;
@@ -633,7 +676,7 @@ impl SpecialtyTypeChecked {
                                 Self::None
                             }
                         }
-                        Err(_) => Self::None,
+                        None => Self::None,
                     }
                 } else {
                     Self::None
@@ -643,13 +686,20 @@ impl SpecialtyTypeChecked {
                 if let TypeDef::Variant(x) = &ty.type_def {
                     // found specific variant corresponding to pallet,
                     // get pallet name from here
-                    match pick_variant::<B, E>(&x.variants, data, ext_memory, *position) {
-                        Ok(pallet_variant) => {
+                    match unless_external(pick_variant::<B, E>(
+                        &x.variants,
+                        data,
+                        ext_memory,
+                        *position,
+                    ))? {
+                        Some(pallet_variant) => {
                             let pallet_name = pallet_variant.name.to_owned();
                             if pallet_variant.fields.len() == 1 {
                                 let item_ty_id = pallet_variant.fields[0].ty.id;
-                                match registry.resolve_ty(item_ty_id, ext_memory) {
-                                    Ok(variants_ty) => {
+                                match unless_external_registry(
+                                    registry.resolve_ty(item_ty_id, ext_memory),
+                                )? {
+                                    Some(variants_ty) => {
                                         if let SpecialtyTypeHinted::PalletSpecific(item_repeated) =
                                             SpecialtyTypeHinted::from_type(&variants_ty)
                                         {
@@ -675,13 +725,13 @@ impl SpecialtyTypeChecked {
                                             Self::None
                                         }
                                     }
-                                    Err(_) => Self::None,
+                                    None => Self::None,
                                 }
                             } else {
                                 Self::None
                             }
                         }
-                        Err(_) => Self::None,
+                        None => Self::None,
                     }
                 } else {
                     Self::None
@@ -699,6 +749,32 @@ impl SpecialtyTypeChecked {
             SpecialtyTypeHinted::SignatureSr25519 => Self::SignatureSr25519,
             SpecialtyTypeHinted::SignatureEcdsa => Self::SignatureEcdsa,
             SpecialtyTypeHinted::UncheckedExtrinsic => Self::None,
-        }
+        })
+    }
+}
+
+/// Keeps successful outcome and drops errors, except for failures to access
+/// external memory.
+fn unless_external<T, E: ExternalMemory>(
+    outcome: Result<T, ParserError<E>>,
+) -> Result<Option<T>, ParserError<E>> {
+    match outcome {
+        Ok(a) => Ok(Some(a)),
+        Err(
+            e @ (ParserError::Buffer(BufferError::External(_))
+            | ParserError::Registry(RegistryError::External(_))),
+        ) => Err(e),
+        Err(_) => Ok(None),
+    }
+}
+
+/// Same as `unless_external`, for types registry access.
+fn unless_external_registry<T, E: ExternalMemory>(
+    outcome: Result<T, RegistryError<E>>,
+) -> Result<Option<T>, RegistryError<E>> {
+    match outcome {
+        Ok(a) => Ok(Some(a)),
+        Err(e @ RegistryError::External(_)) => Err(e),
+        Err(RegistryError::Internal(_)) => Ok(None),
     }
 }
-- 
2.43.0


From bc6739feb54bf546508cbcb7c7b040490892615e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 3/8] fix: report memory failure while reading length header as
 such

---
 src/lib.rs                 | 11 +++++++++--
 src/unchecked_extrinsic.rs |  5 ++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b74f580..5c5ab5e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -491,6 +491,7 @@
 #![no_std]
 #![deny(unused_crate_dependencies)]
 
+use external_memory_tools::BufferError;
 pub use external_memory_tools::{AddressableBuffer, ExternalMemory};
 use parity_scale_codec::{Decode, Encode};
 use primitive_types::H256;
@@ -579,8 +580,11 @@ where
     /// Make `MarkedData` from a signable transaction data slice.
     pub fn mark(data: &'a B, ext_memory: &mut E) -> Result<Self, SignableError<E, M>> {
         let mut call_start: usize = 0;
-        let call_length = get_compact::<u32, B, E>(data, ext_memory, &mut call_start)
-            .map_err(|_| SignableError::CutSignable)? as usize;
+        let call_length =
+            get_compact::<u32, B, E>(data, ext_memory, &mut call_start).map_err(|e| match e {
+                ParserError::Buffer(BufferError::External(_)) => SignableError::Parsing(e),
+                _ => SignableError::CutSignable,
+            })? as usize;
         let extensions_start = call_start + call_length;
         match data.read_slice(ext_memory, call_start, call_length) {
             Ok(_) => Ok(Self {
@@ -590,6 +594,9 @@ where
                 ext_memory_type: PhantomData,
                 metadata_type: PhantomData,
             }),
+            Err(e @ BufferError::External(_)) => {
+                Err(SignableError::Parsing(ParserError::Buffer(e)))
+            }
             Err(_) => Err(SignableError::CutSignable),
         }
     }
diff --git a/src/unchecked_extrinsic.rs b/src/unchecked_extrinsic.rs
index d55d0a9..7150914 100644
--- a/src/unchecked_extrinsic.rs
+++ b/src/unchecked_extrinsic.rs
@@ -88,7 +88,10 @@ where
     // Written this way to: (1) trace position from the start, (2) have descriptive errors
     let mut extrinsic_start: usize = 0;
     let extrinsic_length = get_compact::<u32, B, E>(input, ext_memory, &mut extrinsic_start)
-        .map_err(|_| UncheckedExtrinsicError::FormatNoCompact)? as usize;
+        .map_err(|e| match e {
+            ParserError::Buffer(BufferError::External(_)) => UncheckedExtrinsicError::Parsing(e),
+            _ => UncheckedExtrinsicError::FormatNoCompact,
+        })? as usize;
     let len = input.total_len();
     match (extrinsic_start + extrinsic_length).cmp(&len) {
         Ordering::Greater => {
-- 
2.43.0


From 0eff728ce010446d7e1fcdeb12215fd425d8899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:18 +0000
Subject: [PATCH 4/8] fix: do not read past an empty enum while detecting its
 special type

---
 src/special_indicators.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/special_indicators.rs b/src/special_indicators.rs
index c11c83d..661a274 100644
--- a/src/special_indicators.rs
+++ b/src/special_indicators.rs
@@ -8,7 +8,9 @@
 //! mentioned in metadata descriptors, rather than decoded as more generalized
 //! type and cast into custom type later on.
 use external_memory_tools::{AddressableBuffer, BufferError, ExternalMemory};
-use scale_info::{form::PortableForm, Field, Path, Type, TypeDef, TypeDefPrimitive, Variant};
+use scale_info::{
+    form::PortableForm, Field, Path, Type, TypeDef, TypeDefPrimitive, TypeDefVariant, Variant,
+};
 
 use crate::std::{borrow::ToOwned, string::String, vec::Vec};
 
@@ -644,7 +646,7 @@ impl SpecialtyTypeChecked {
             SpecialtyTypeHinted::H256 => Self::H256,
             SpecialtyTypeHinted::H512 => Self::H512,
             SpecialtyTypeHinted::MultiSignature => {
-                if let TypeDef::Variant(x) = &ty.type_def {
+                if let Some(x) = inhabited_enum(&ty.type_def) {
                     match unless_external(pick_variant::<B, E>(
                         &x.variants,
                         data,
@@ -683,7 +685,7 @@ impl SpecialtyTypeChecked {
                 }
             }
             SpecialtyTypeHinted::PalletSpecific(item) => {
-                if let TypeDef::Variant(x) = &ty.type_def {
+                if let Some(x) = inhabited_enum(&ty.type_def) {
                     // found specific variant corresponding to pallet,
                     // get pallet name from here
                     match unless_external(pick_variant::<B, E>(
@@ -753,6 +755,15 @@ impl SpecialtyTypeChecked {
     }
 }
 
+/// Enum with at least one variant. Enum without variants takes no data, so that
+/// there is no variant index to read.
+fn inhabited_enum(type_def: &TypeDef<PortableForm>) -> Option<&TypeDefVariant<PortableForm>> {
+    match type_def {
+        TypeDef::Variant(x) if !x.variants.is_empty() => Some(x),
+        _ => None,
+    }
+}
+
 /// Keeps successful outcome and drops errors, except for failures to access
 /// external memory.
 fn unless_external<T, E: ExternalMemory>(
-- 
2.43.0


From 9aaa6a7fe9edd5e539035eec2fadd69aba3c61c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 5/8] fix: keep all words of 64-bit bit sequences on 32-bit
 targets

---
 src/decoding_sci.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/decoding_sci.rs b/src/decoding_sci.rs
index 0e3db73..31a796c 100644
--- a/src/decoding_sci.rs
+++ b/src/decoding_sci.rs
@@ -1077,7 +1077,7 @@ macro_rules! impl_patched {
 #[cfg(any(target_pointer_width = "32", test))]
 fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
     let mut data_reformed: Vec<u32> = Vec::new();
-    for (i, element) in data_chunked.iter().enumerate() {
+    for element in data_chunked.iter() {
         let new_element1 = u32::from_le_bytes(
             element[..BYTES_PER_ELEMENT_U32]
                 .try_into()
@@ -1089,9 +1089,7 @@ fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
                 .expect("constant size slice, always fits"),
         );
         data_reformed.push(new_element1);
-        if (new_element1 != 0) || (i != data_chunked.len() - 1) {
-            data_reformed.push(new_element2)
-        }
+        data_reformed.push(new_element2);
     }
     data_reformed
 }
@@ -1100,7 +1098,7 @@ fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
 #[cfg(any(target_pointer_width = "32", test))]
 fn reform_vec_msb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
     let mut data_reformed: Vec<u32> = Vec::new();
-    for (i, x) in data_chunked.iter().enumerate() {
+    for x in data_chunked.iter() {
         let number = u64::from_le_bytes(*x);
         let element = number.to_be_bytes();
         let new_element1 = u32::from_be_bytes(
@@ -1113,9 +1111,7 @@ fn reform_vec_msb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
                 .try_into()
                 .expect("constant size slice, always fits"),
         );
-        if (new_element1 != 0) || (i != data_chunked.len() - 1) {
-            data_reformed.push(new_element1)
-        }
+        data_reformed.push(new_element1);
         data_reformed.push(new_element2);
     }
     data_reformed
-- 
2.43.0


From 22b827f88ee35329bd6d2456fd4e72f466cc3db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:17 +0000
Subject: [PATCH 6/8] fix: report memory failure while reading 64-bit bit
 sequences on 32-bit targets as such

---
 src/decoding_sci.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoding_sci.rs b/src/decoding_sci.rs
index 31a796c..c9f2170 100644
--- a/src/decoding_sci.rs
+++ b/src/decoding_sci.rs
@@ -1046,6 +1046,9 @@ macro_rules! impl_patched {
                                     .try_into()
                                     .expect("constant size slice, always fits"),
                             ),
+                            Err(e @ BufferError::External(_)) => {
+                                return Err(ParserError::Buffer(e))
+                            }
                             Err(_) => {
                                 return Err(ParserError::Buffer(
                                 BufferError::DataTooShort {
-- 
2.43.0


From c8992883647ad0b34c50c8bde762c1f9c9bc677f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:13 +0000
Subject: [PATCH 7/8] fix: extrinsic length near the end of 32-bit addresses
 must not overflow

---
 src/unchecked_extrinsic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unchecked_extrinsic.rs b/src/unchecked_extrinsic.rs
index 7150914..a332d48 100644
--- a/src/unchecked_extrinsic.rs
+++ b/src/unchecked_extrinsic.rs
@@ -93,12 +93,12 @@ where
             _ => UncheckedExtrinsicError::FormatNoCompact,
         })? as usize;
     let len = input.total_len();
-    match (extrinsic_start + extrinsic_length).cmp(&len) {
+    match extrinsic_length.cmp(&(len - extrinsic_start)) {
         Ordering::Greater => {
             return Err(UncheckedExtrinsicError::Parsing(ParserError::Buffer(
                 BufferError::DataTooShort {
                     position: len,
-                    minimal_length: extrinsic_start + extrinsic_length - len,
+                    minimal_length: extrinsic_length - (len - extrinsic_start),
                 },
             )))
         }
-- 
2.43.0


From b9743029ac6dca551404f2a14c8554d6a8198e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:13 +0000
Subject: [PATCH 8/8] fix: call length near the end of 32-bit addresses must
 not overflow

---
 src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5c5ab5e..68c5695 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -585,12 +585,11 @@ where
                 ParserError::Buffer(BufferError::External(_)) => SignableError::Parsing(e),
                 _ => SignableError::CutSignable,
             })? as usize;
-        let extensions_start = call_start + call_length;
         match data.read_slice(ext_memory, call_start, call_length) {
             Ok(_) => Ok(Self {
                 data,
                 call_start,
-                extensions_start,
+                extensions_start: call_start + call_length,
                 ext_memory_type: PhantomData,
                 metadata_type: PhantomData,
             }),
-- 
2.43.0

