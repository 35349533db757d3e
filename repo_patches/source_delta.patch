From 475caf7f74324a098ecc516594ffe9570906a1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:32 +0000
Subject: [PATCH 01/12] fix: reject trailing bytes after the None selector when
 decoding Option

Option<T>::from_ssz_bytes returned Ok(None) for [0, ..] with any body, so many
byte strings decoded to the same value. Union[None, T] has an empty body for
selector 0.
---
 ssz/src/decode/impls.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ssz/src/decode/impls.rs b/ssz/src/decode/impls.rs
index 6c9b7b5..bd08c9e 100644
--- a/ssz/src/decode/impls.rs
+++ b/ssz/src/decode/impls.rs
@@ -254,7 +254,11 @@ impl<T: Decode> Decode for Option<T> {
     fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
         let (selector, body) = split_union_bytes(bytes)?;
         match selector.into() {
-            0u8 => Ok(None),
+            0u8 if body.is_empty() => Ok(None),
+            0u8 => Err(DecodeError::InvalidByteLength {
+                len: bytes.len(),
+                expected: BYTES_PER_UNION_SELECTOR,
+            }),
             1u8 => <T as Decode>::from_ssz_bytes(body).map(Option::Some),
             other => Err(DecodeError::UnionSelectorInvalid(other)),
         }
-- 
2.43.0


From 8db7def7bf16d2172e33ec1f8152b390635a866b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:32 +0000
Subject: [PATCH 02/12] fix: reject trailing bytes when decoding a tag enum

The derived decoder of a tag enum looked at the first byte only, although the
type is advertised as fixed-size with a length of one.
---
 ssz_derive/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index c6ca75d..2d7c92f 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -1015,6 +1015,13 @@ fn ssz_decode_derive_enum_tag(derive_input: &DeriveInput, enum_data: &DataEnum)
                     .copied()
                     .ok_or(ssz::DecodeError::OutOfBoundsByte { i: 0 })?;
 
+                if bytes.len() != 1 {
+                    return Err(ssz::DecodeError::InvalidByteLength {
+                        len: bytes.len(),
+                        expected: 1,
+                    });
+                }
+
                 match byte {
                     #(
                         #union_selectors => {
-- 
2.43.0


From a3dbf0a6383bb18b39e69b2f76615c51445e8047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:32 +0000
Subject: [PATCH 03/12] fix: reject trailing bytes after a legacy four-byte
 None selector

The decoder generated by four_byte_option_impl ignored everything after the
zero selector, accepting byte strings that no encoding produces.
---
 ssz/src/legacy.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ssz/src/legacy.rs b/ssz/src/legacy.rs
index 5cce666..9ee6169 100644
--- a/ssz/src/legacy.rs
+++ b/ssz/src/legacy.rs
@@ -100,6 +100,12 @@ macro_rules! four_byte_option_impl {
 
                     let index = legacy::read_four_byte_union_selector(index_bytes)?;
                     if index == 0 {
+                        if !value_bytes.is_empty() {
+                            return Err(DecodeError::InvalidByteLength {
+                                len: bytes.len(),
+                                expected: BYTES_PER_LENGTH_OFFSET,
+                            });
+                        }
                         Ok(None)
                     } else if index == 1 {
                         Ok(Some(<$type as ssz::Decode>::from_ssz_bytes(value_bytes)?))
-- 
2.43.0


From c0d65d20f7474317511492be4c9df62ee7fc1d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:32 +0000
Subject: [PATCH 04/12] fix: return ZeroLengthItem instead of panicking on
 lists of zero-length items

slice::chunks panics for a chunk size of zero, so decoding any non-empty input as
Vec<[u8; 0]> (or SmallVec, BTreeMap, BTreeSet of a zero-length item) panicked.
---
 ssz/src/decode/impls.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ssz/src/decode/impls.rs b/ssz/src/decode/impls.rs
index bd08c9e..1c8120a 100644
--- a/ssz/src/decode/impls.rs
+++ b/ssz/src/decode/impls.rs
@@ -432,6 +432,10 @@ impl<T: Decode> Decode for Vec<T> {
         if bytes.is_empty() {
             Ok(vec![])
         } else if T::is_ssz_fixed_len() {
+            if T::ssz_fixed_len() == 0 {
+                return Err(DecodeError::ZeroLengthItem);
+            }
+
             bytes
                 .chunks(T::ssz_fixed_len())
                 .map(T::from_ssz_bytes)
@@ -451,6 +455,10 @@ impl<T: Decode, const N: usize> Decode for SmallVec<[T; N]> {
         if bytes.is_empty() {
             Ok(SmallVec::new())
         } else if T::is_ssz_fixed_len() {
+            if T::ssz_fixed_len() == 0 {
+                return Err(DecodeError::ZeroLengthItem);
+            }
+
             bytes
                 .chunks(T::ssz_fixed_len())
                 .map(T::from_ssz_bytes)
@@ -474,6 +482,10 @@ where
         if bytes.is_empty() {
             Ok(Self::from_iter(iter::empty()))
         } else if <(K, V)>::is_ssz_fixed_len() {
+            if <(K, V)>::ssz_fixed_len() == 0 {
+                return Err(DecodeError::ZeroLengthItem);
+            }
+
             bytes
                 .chunks(<(K, V)>::ssz_fixed_len())
                 .map(<(K, V)>::from_ssz_bytes)
@@ -496,6 +508,10 @@ where
         if bytes.is_empty() {
             Ok(Self::from_iter(iter::empty()))
         } else if T::is_ssz_fixed_len() {
+            if T::ssz_fixed_len() == 0 {
+                return Err(DecodeError::ZeroLengthItem);
+            }
+
             bytes
                 .chunks(T::ssz_fixed_len())
                 .map(T::from_ssz_bytes)
-- 
2.43.0


From 1799e9ae53d69907caf1f850758f3c8082357eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:32 +0000
Subject: [PATCH 05/12] fix: do not overflow when a huge fixed length is
 registered with the decoder builder

The addition overflowed (a panic with overflow checks) for a length close to
usize::MAX. Saturating keeps the end out of bounds, which is reported as
InvalidByteLength.
---
 ssz/src/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/src/decode.rs b/ssz/src/decode.rs
index 814aa70..7c690fa 100644
--- a/ssz/src/decode.rs
+++ b/ssz/src/decode.rs
@@ -188,7 +188,7 @@ impl<'a> SszDecoderBuilder<'a> {
     ) -> Result<(), DecodeError> {
         if is_ssz_fixed_len {
             let start = self.items_index;
-            self.items_index += ssz_fixed_len;
+            self.items_index = start.saturating_add(ssz_fixed_len);
 
             let slice =
                 self.bytes
-- 
2.43.0


From 0766e51873ed8980028018823301af90435a2186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:32 +0000
Subject: [PATCH 06/12] fix: size the Arbitrary buffer of BitVector in bytes,
 not bits

The buffer had N bytes although N bits need ceil(N / 8), so from_bytes rejected
it for every N above 1 and generation could never succeed.
---
 ssz/src/bitfield.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/src/bitfield.rs b/ssz/src/bitfield.rs
index aa8fc13..24f99e7 100644
--- a/ssz/src/bitfield.rs
+++ b/ssz/src/bitfield.rs
@@ -692,7 +692,7 @@ impl<'de, N: Unsigned + Clone> Deserialize<'de> for Bitfield<Fixed<N>> {
 #[cfg(feature = "arbitrary")]
 impl<N: 'static + Unsigned> arbitrary::Arbitrary<'_> for Bitfield<Fixed<N>> {
     fn arbitrary(u: &mut arbitrary::Unstructured<'_>) -> arbitrary::Result<Self> {
-        let size = N::to_usize();
+        let size = bytes_for_bit_len(N::to_usize());
         let mut vec = smallvec![0u8; size];
         u.fill_buffer(&mut vec)?;
         Self::from_bytes(vec).map_err(|_| arbitrary::Error::IncorrectFormat)
-- 
2.43.0


From 7065746cc05a0b8e137b10db359c2a82533ce9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:32 +0000
Subject: [PATCH 07/12] fix: bound the Arbitrary buffer of BitList by the data
 available

For a large capacity the generator reserved up to N bytes whatever the amount of
data, and aborted when the allocation failed. Any byte past the end of the data
is zero, so such a buffer was rejected anyway.
---
 ssz/src/bitfield.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssz/src/bitfield.rs b/ssz/src/bitfield.rs
index 24f99e7..5282998 100644
--- a/ssz/src/bitfield.rs
+++ b/ssz/src/bitfield.rs
@@ -704,7 +704,8 @@ impl<N: 'static + Unsigned> arbitrary::Arbitrary<'_> for Bitfield<Variable<N>> {
     fn arbitrary(u: &mut arbitrary::Unstructured<'_>) -> arbitrary::Result<Self> {
         let max_size = N::to_usize();
         let rand = usize::arbitrary(u)?;
-        let size = std::cmp::min(rand, max_size);
+        // Bytes past the end of the data would be zero, which cannot end a `BitList`.
+        let size = std::cmp::min(rand, std::cmp::min(max_size, u.len()));
         let mut vec = smallvec![0u8; size];
         u.fill_buffer(&mut vec)?;
         Self::from_bytes(vec).map_err(|_| arbitrary::Error::IncorrectFormat)
-- 
2.43.0


From af645472378892fd1c59664ce4187cdc7b84e7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:00 +0000
Subject: [PATCH 08/12] fix: select the encoded field of a transparent struct
 by skip_serializing

The Encode derive looked at skip_deserializing, so a field marked skip_serializing
only still counted as live, and a field marked skip_deserializing only was silently
left out of the encoding instead of being rejected as a second live field.
---
 ssz_derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index 2d7c92f..c239c20 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -456,7 +456,7 @@ fn ssz_encode_derive_struct_transparent(
     let ssz_fields = parse_ssz_fields(struct_data);
     let num_fields = ssz_fields
         .iter()
-        .filter(|(_, _, field_opts)| !field_opts.skip_deserializing)
+        .filter(|(_, _, field_opts)| !field_opts.skip_serializing)
         .count();
 
     if num_fields != 1 {
@@ -469,7 +469,7 @@ fn ssz_encode_derive_struct_transparent(
     let (index, (ty, ident, _field_opts)) = ssz_fields
         .iter()
         .enumerate()
-        .find(|(_, (_, _, field_opts))| !field_opts.skip_deserializing)
+        .find(|(_, (_, _, field_opts))| !field_opts.skip_serializing)
         .expect("\"transparent\" struct must have at least one non-skipped field");
 
     // Remove the `_usize` suffix from the value to avoid a compiler warning.
-- 
2.43.0


From 03d16f48c40cb34e502986367871653d58c956d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:18 +0000
Subject: [PATCH 09/12] fix: honour #[ssz(with = "..")] on the live field of a
 transparent struct

Both derives ignored the attribute for transparent structs and silently used the
field type's own implementation instead of the named codec module.
---
 ssz_derive/src/lib.rs | 100 +++++++++++++++++++++++++-----------------
 1 file changed, 59 insertions(+), 41 deletions(-)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index c239c20..77db035 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -466,7 +466,7 @@ fn ssz_encode_derive_struct_transparent(
         );
     }
 
-    let (index, (ty, ident, _field_opts)) = ssz_fields
+    let (index, (ty, ident, field_opts)) = ssz_fields
         .iter()
         .enumerate()
         .find(|(_, (_, _, field_opts))| !field_opts.skip_serializing)
@@ -475,44 +475,46 @@ fn ssz_encode_derive_struct_transparent(
     // Remove the `_usize` suffix from the value to avoid a compiler warning.
     let index = Index::from(index);
 
-    let output = if let Some(field_name) = ident {
-        quote! {
-            impl #impl_generics ssz::Encode for #name #ty_generics #where_clause {
-                fn is_ssz_fixed_len() -> bool {
-                    <#ty as ssz::Encode>::is_ssz_fixed_len()
-                }
-
-                fn ssz_fixed_len() -> usize {
-                    <#ty as ssz::Encode>::ssz_fixed_len()
-                }
+    let field = if let Some(field_name) = ident {
+        quote! { self.#field_name }
+    } else {
+        quote! { self.#index }
+    };
 
-                fn ssz_bytes_len(&self) -> usize {
-                    self.#field_name.ssz_bytes_len()
-                }
+    let (is_ssz_fixed_len, ssz_fixed_len, ssz_bytes_len, ssz_append) =
+        if let Some(module) = &field_opts.with {
+            let module = quote! { #module::encode };
+            (
+                quote! { #module::is_ssz_fixed_len() },
+                quote! { #module::ssz_fixed_len() },
+                quote! { #module::ssz_bytes_len(&#field) },
+                quote! { #module::ssz_append(&#field, buf) },
+            )
+        } else {
+            (
+                quote! { <#ty as ssz::Encode>::is_ssz_fixed_len() },
+                quote! { <#ty as ssz::Encode>::ssz_fixed_len() },
+                quote! { #field.ssz_bytes_len() },
+                quote! { #field.ssz_append(buf) },
+            )
+        };
 
-                fn ssz_append(&self, buf: &mut Vec<u8>) {
-                    self.#field_name.ssz_append(buf)
-                }
+    let output = quote! {
+        impl #impl_generics ssz::Encode for #name #ty_generics #where_clause {
+            fn is_ssz_fixed_len() -> bool {
+                #is_ssz_fixed_len
             }
-        }
-    } else {
-        quote! {
-            impl #impl_generics ssz::Encode for #name #ty_generics #where_clause {
-                fn is_ssz_fixed_len() -> bool {
-                    <#ty as ssz::Encode>::is_ssz_fixed_len()
-                }
 
-                fn ssz_fixed_len() -> usize {
-                    <#ty as ssz::Encode>::ssz_fixed_len()
-                }
+            fn ssz_fixed_len() -> usize {
+                #ssz_fixed_len
+            }
 
-                fn ssz_bytes_len(&self) -> usize {
-                    self.#index.ssz_bytes_len()
-                }
+            fn ssz_bytes_len(&self) -> usize {
+                #ssz_bytes_len
+            }
 
-                fn ssz_append(&self, buf: &mut Vec<u8>) {
-                    self.#index.ssz_append(buf)
-                }
+            fn ssz_append(&self, buf: &mut Vec<u8>) {
+                #ssz_append
             }
         }
     };
@@ -922,9 +924,25 @@ fn ssz_decode_derive_struct_transparent(
     }
 
     let mut fields = vec![];
-    let mut wrapped_type = None;
+    let mut wrapped = None;
 
     for (i, (ty, ident, field_opts)) in ssz_fields.into_iter().enumerate() {
+        let (is_ssz_fixed_len, ssz_fixed_len, from_ssz_bytes) =
+            if let Some(module) = field_opts.with {
+                let module = quote! { #module::decode };
+                (
+                    quote! { #module::is_ssz_fixed_len() },
+                    quote! { #module::ssz_fixed_len() },
+                    quote! { #module::from_ssz_bytes(bytes) },
+                )
+            } else {
+                (
+                    quote! { <#ty as ssz::Decode>::is_ssz_fixed_len() },
+                    quote! { <#ty as ssz::Decode>::ssz_fixed_len() },
+                    quote! { <_>::from_ssz_bytes(bytes) },
+                )
+            };
+
         if let Some(name) = ident {
             if field_opts.skip_deserializing {
                 fields.push(quote! {
@@ -932,9 +950,9 @@ fn ssz_decode_derive_struct_transparent(
                 });
             } else {
                 fields.push(quote! {
-                    #name: <_>::from_ssz_bytes(bytes)?,
+                    #name: #from_ssz_bytes?,
                 });
-                wrapped_type = Some(ty);
+                wrapped = Some((is_ssz_fixed_len, ssz_fixed_len));
             }
         } else {
             let index = syn::Index::from(i);
@@ -944,23 +962,23 @@ fn ssz_decode_derive_struct_transparent(
                 });
             } else {
                 fields.push(quote! {
-                    #index:<_>::from_ssz_bytes(bytes)?,
+                    #index:#from_ssz_bytes?,
                 });
-                wrapped_type = Some(ty);
+                wrapped = Some((is_ssz_fixed_len, ssz_fixed_len));
             }
         }
     }
 
-    let ty = wrapped_type.unwrap();
+    let (is_ssz_fixed_len, ssz_fixed_len) = wrapped.unwrap();
 
     let output = quote! {
         impl #impl_generics ssz::Decode for #name #ty_generics #where_clause {
             fn is_ssz_fixed_len() -> bool {
-                <#ty as ssz::Decode>::is_ssz_fixed_len()
+                #is_ssz_fixed_len
             }
 
             fn ssz_fixed_len() -> usize {
-                <#ty as ssz::Decode>::ssz_fixed_len()
+                #ssz_fixed_len
             }
 
             fn from_ssz_bytes(bytes: &[u8]) -> std::result::Result<Self, ssz::DecodeError> {
-- 
2.43.0


From 220b5c456a4adaa07445e6e89af0a6b61680e416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:37 +0000
Subject: [PATCH 10/12] fix: do not overflow when BitVectorDynamic::new rejects
 a huge length

---
 ssz/src/bitfield/bitvector_dynamic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/src/bitfield/bitvector_dynamic.rs b/ssz/src/bitfield/bitvector_dynamic.rs
index 530d9f4..db08cdb 100644
--- a/ssz/src/bitfield/bitvector_dynamic.rs
+++ b/ssz/src/bitfield/bitvector_dynamic.rs
@@ -32,7 +32,7 @@ impl Bitfield<Dynamic> {
         if len % 8 != 0 {
             return Err(Error::InvalidByteCount {
                 given: len,
-                expected: (len / 8 + 1) * 8,
+                expected: (len / 8 + 1).saturating_mul(8),
             });
         }
         Ok(Self {
-- 
2.43.0


From 13cdb0681c906ee1ec200194176b6702d9aa3f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:22 +0000
Subject: [PATCH 11/12] fix: honour the with attribute on the fields of enum
 variants

The derives ignored it for unions and transparent enums, so such a field was
encoded and decoded by its type's own codec instead of the module named.
---
 ssz_derive/src/lib.rs | 67 ++++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 32 deletions(-)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index 77db035..0936330 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -276,11 +276,8 @@ impl<'a> Procedure<'a> {
     }
 }
 
-fn parse_ssz_fields(
-    struct_data: &syn::DataStruct,
-) -> Vec<(&syn::Type, Option<&syn::Ident>, FieldOpts)> {
-    struct_data
-        .fields
+fn parse_ssz_fields(fields: &syn::Fields) -> Vec<(&syn::Type, Option<&syn::Ident>, FieldOpts)> {
+    fields
         .iter()
         .map(|field| {
             let ty = &field.ty;
@@ -306,6 +303,19 @@ fn parse_ssz_fields(
         .collect()
 }
 
+/// The path of the functions which `encode` or `decode` the single field of an enum variant: those
+/// of the module named by its `with` attribute, or else of the `ssz` trait for its type.
+fn variant_codec(variant: &syn::Variant, encode: bool) -> proc_macro2::TokenStream {
+    let (ty, _, field_opts) = parse_ssz_fields(&variant.fields).pop().unwrap();
+
+    match (field_opts.with, encode) {
+        (Some(module), true) => quote! { #module::encode },
+        (Some(module), false) => quote! { #module::decode },
+        (None, true) => quote! { <#ty as ssz::Encode> },
+        (None, false) => quote! { <#ty as ssz::Decode> },
+    }
+}
+
 /// Implements `ssz::Encode` for some `struct` or `enum`.
 #[proc_macro_derive(Encode, attributes(ssz))]
 pub fn ssz_encode_derive(input: TokenStream) -> TokenStream {
@@ -341,7 +351,7 @@ fn ssz_encode_derive_struct(derive_input: &DeriveInput, struct_data: &DataStruct
     let field_ssz_bytes_len = &mut vec![];
     let field_encoder_append = &mut vec![];
 
-    for (ty, ident, field_opts) in parse_ssz_fields(struct_data) {
+    for (ty, ident, field_opts) in parse_ssz_fields(&struct_data.fields) {
         if field_opts.skip_serializing {
             continue;
         }
@@ -453,7 +463,7 @@ fn ssz_encode_derive_struct_transparent(
 ) -> TokenStream {
     let name = &derive_input.ident;
     let (impl_generics, ty_generics, where_clause) = &derive_input.generics.split_for_impl();
-    let ssz_fields = parse_ssz_fields(struct_data);
+    let ssz_fields = parse_ssz_fields(&struct_data.fields);
     let num_fields = ssz_fields
         .iter()
         .filter(|(_, _, field_opts)| !field_opts.skip_serializing)
@@ -545,7 +555,7 @@ fn ssz_encode_derive_enum_transparent(
     let name = &derive_input.ident;
     let (impl_generics, ty_generics, where_clause) = &derive_input.generics.split_for_impl();
 
-    let (patterns, assert_exprs): (Vec<_>, Vec<_>) = enum_data
+    let (patterns, codecs): (Vec<_>, Vec<_>) = enum_data
         .variants
         .iter()
         .map(|variant| {
@@ -559,11 +569,7 @@ fn ssz_encode_derive_enum_transparent(
                 #name::#variant_name(ref inner)
             };
 
-            let ty = &(&variant.fields).into_iter().next().unwrap().ty;
-            let type_assert = quote! {
-                !<#ty as ssz::Encode>::is_ssz_fixed_len()
-            };
-            (pattern, type_assert)
+            (pattern, variant_codec(variant, true))
         })
         .unzip();
 
@@ -572,7 +578,7 @@ fn ssz_encode_derive_enum_transparent(
             fn is_ssz_fixed_len() -> bool {
                 assert!(
                     #(
-                        #assert_exprs &&
+                        !#codecs::is_ssz_fixed_len() &&
                     )* true,
                     "not all enum variants are variably-sized"
                 );
@@ -582,7 +588,7 @@ fn ssz_encode_derive_enum_transparent(
             fn ssz_bytes_len(&self) -> usize {
                 match self {
                     #(
-                        #patterns => inner.ssz_bytes_len(),
+                        #patterns => #codecs::ssz_bytes_len(inner),
                     )*
                 }
             }
@@ -590,7 +596,7 @@ fn ssz_encode_derive_enum_transparent(
             fn ssz_append(&self, buf: &mut Vec<u8>) {
                 match self {
                     #(
-                        #patterns => inner.ssz_append(buf),
+                        #patterns => #codecs::ssz_append(inner, buf),
                     )*
                 }
             }
@@ -673,7 +679,7 @@ fn ssz_encode_derive_enum_union(derive_input: &DeriveInput, enum_data: &DataEnum
     let name = &derive_input.ident;
     let (impl_generics, ty_generics, where_clause) = &derive_input.generics.split_for_impl();
 
-    let patterns: Vec<_> = enum_data
+    let (patterns, codecs): (Vec<_>, Vec<_>) = enum_data
         .variants
         .iter()
         .map(|variant| {
@@ -686,9 +692,9 @@ fn ssz_encode_derive_enum_union(derive_input: &DeriveInput, enum_data: &DataEnum
             let pattern = quote! {
                 #name::#variant_name(ref inner)
             };
-            pattern
+            (pattern, variant_codec(variant, true))
         })
-        .collect();
+        .unzip();
 
     let union_selectors = compute_union_selectors(patterns.len());
 
@@ -701,8 +707,7 @@ fn ssz_encode_derive_enum_union(derive_input: &DeriveInput, enum_data: &DataEnum
             fn ssz_bytes_len(&self) -> usize {
                 match self {
                     #(
-                        #patterns => inner
-                            .ssz_bytes_len()
+                        #patterns => #codecs::ssz_bytes_len(inner)
                             .checked_add(1)
                             .expect("encoded length must be less than usize::max_value"),
                     )*
@@ -716,7 +721,7 @@ fn ssz_encode_derive_enum_union(derive_input: &DeriveInput, enum_data: &DataEnum
                             let union_selector: u8 = #union_selectors;
                             debug_assert!(union_selector <= ssz::MAX_UNION_SELECTOR);
                             buf.push(union_selector);
-                            inner.ssz_append(buf)
+                            #codecs::ssz_append(inner, buf)
                         },
                     )*
                 }
@@ -765,7 +770,7 @@ fn ssz_decode_derive_struct(item: &DeriveInput, struct_data: &DataStruct) -> Tok
     let mut is_fixed_lens = vec![];
     let mut fixed_lens = vec![];
 
-    for (ty, ident, field_opts) in parse_ssz_fields(struct_data) {
+    for (ty, ident, field_opts) in parse_ssz_fields(&struct_data.fields) {
         let ident = match ident {
             Some(ref ident) => ident,
             _ => panic!(
@@ -910,7 +915,7 @@ fn ssz_decode_derive_struct_transparent(
 ) -> TokenStream {
     let name = &item.ident;
     let (impl_generics, ty_generics, where_clause) = &item.generics.split_for_impl();
-    let ssz_fields = parse_ssz_fields(struct_data);
+    let ssz_fields = parse_ssz_fields(&struct_data.fields);
     let num_fields = ssz_fields
         .iter()
         .filter(|(_, _, field_opts)| !field_opts.skip_deserializing)
@@ -1059,7 +1064,7 @@ fn ssz_decode_derive_enum_union(derive_input: &DeriveInput, enum_data: &DataEnum
     let name = &derive_input.ident;
     let (impl_generics, ty_generics, where_clause) = &derive_input.generics.split_for_impl();
 
-    let (constructors, var_types): (Vec<_>, Vec<_>) = enum_data
+    let (constructors, codecs): (Vec<_>, Vec<_>) = enum_data
         .variants
         .iter()
         .map(|variant| {
@@ -1073,8 +1078,7 @@ fn ssz_decode_derive_enum_union(derive_input: &DeriveInput, enum_data: &DataEnum
                 #name::#variant_name
             };
 
-            let ty = &(&variant.fields).into_iter().next().unwrap().ty;
-            (constructor, ty)
+            (constructor, variant_codec(variant, false))
         })
         .unzip();
 
@@ -1096,7 +1100,7 @@ fn ssz_decode_derive_enum_union(derive_input: &DeriveInput, enum_data: &DataEnum
                 match selector.into() {
                     #(
                         #union_selectors => {
-                            <#var_types as ssz::Decode>::from_ssz_bytes(body).map(#constructors)
+                            #codecs::from_ssz_bytes(body).map(#constructors)
                         },
                     )*
                     other => Err(ssz::DecodeError::UnionSelectorInvalid(other))
@@ -1128,7 +1132,7 @@ fn ssz_decode_derive_enum_transparent(
     let name = &derive_input.ident;
     let (impl_generics, ty_generics, where_clause) = &derive_input.generics.split_for_impl();
 
-    let (constructors, var_types): (Vec<_>, Vec<_>) = enum_data
+    let (constructors, codecs): (Vec<_>, Vec<_>) = enum_data
         .variants
         .iter()
         .map(|variant| {
@@ -1142,8 +1146,7 @@ fn ssz_decode_derive_enum_transparent(
                 #name::#variant_name
             };
 
-            let ty = &(&variant.fields).into_iter().next().unwrap().ty;
-            (constructor, ty)
+            (constructor, variant_codec(variant, false))
         })
         .unzip();
 
@@ -1155,7 +1158,7 @@ fn ssz_decode_derive_enum_transparent(
 
             fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, ssz::DecodeError> {
                 #(
-                    if let Ok(var) = <#var_types as ssz::Decode>::from_ssz_bytes(bytes) {
+                    if let Ok(var) = #codecs::from_ssz_bytes(bytes) {
                         return Ok(#constructors(var));
                     }
                 )*
-- 
2.43.0


From b3239bab56bce48dee884a721dd069668c878f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 12/12] fix: do not let field names shadow the variables of the
 derived decoder

---
 ssz_derive/src/lib.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/ssz_derive/src/lib.rs b/ssz_derive/src/lib.rs
index 0936330..5f89a46 100644
--- a/ssz_derive/src/lib.rs
+++ b/ssz_derive/src/lib.rs
@@ -168,6 +168,7 @@
 
 use darling::{FromDeriveInput, FromMeta};
 use proc_macro::TokenStream;
+use proc_macro2::Span;
 use quote::quote;
 use std::convert::TryInto;
 use syn::{parse_macro_input, DataEnum, DataStruct, DeriveInput, Ident, Index};
@@ -763,6 +764,11 @@ fn ssz_decode_derive_struct(item: &DeriveInput, struct_data: &DataStruct) -> Tok
     let name = &item.ident;
     let (impl_generics, ty_generics, where_clause) = &item.generics.split_for_impl();
 
+    // The decoded fields are bound to their own names, which must not shadow these variables.
+    let bytes = Ident::new("bytes", Span::mixed_site());
+    let slice = Ident::new("slice", Span::mixed_site());
+    let decoder = Ident::new("decoder", Span::mixed_site());
+
     let mut register_types = vec![];
     let mut field_names = vec![];
     let mut fixed_decodes = vec![];
@@ -803,29 +809,29 @@ fn ssz_decode_derive_struct(item: &DeriveInput, struct_data: &DataStruct) -> Tok
 
             is_ssz_fixed_len = quote! { #module::is_ssz_fixed_len() };
             ssz_fixed_len = quote! { #module::ssz_fixed_len() };
-            from_ssz_bytes = quote! { #module::from_ssz_bytes(slice) };
+            from_ssz_bytes = quote! { #module::from_ssz_bytes(#slice) };
 
             register_types.push(quote! {
                 builder.register_type_parameterized(#is_ssz_fixed_len, #ssz_fixed_len)?;
             });
             decodes.push(quote! {
-                let #ident = decoder.decode_next_with(|slice| #module::from_ssz_bytes(slice))?;
+                let #ident = #decoder.decode_next_with(|slice| #module::from_ssz_bytes(slice))?;
             });
         } else {
             is_ssz_fixed_len = quote! { <#ty as ssz::Decode>::is_ssz_fixed_len() };
             ssz_fixed_len = quote! { <#ty as ssz::Decode>::ssz_fixed_len() };
-            from_ssz_bytes = quote! { <#ty as ssz::Decode>::from_ssz_bytes(slice) };
+            from_ssz_bytes = quote! { <#ty as ssz::Decode>::from_ssz_bytes(#slice) };
 
             register_types.push(quote! {
                 builder.register_type::<#ty>()?;
             });
             decodes.push(quote! {
-                let #ident = decoder.decode_next()?;
+                let #ident = #decoder.decode_next()?;
             });
         }
 
         fixed_decodes.push(quote! {
-            let (slice, bytes) = bytes.split_at(#ssz_fixed_len);
+            let (#slice, #bytes) = #bytes.split_at(#ssz_fixed_len);
             let #ident = #from_ssz_bytes?;
         });
         is_fixed_lens.push(is_ssz_fixed_len);
@@ -855,11 +861,11 @@ fn ssz_decode_derive_struct(item: &DeriveInput, struct_data: &DataStruct) -> Tok
                 }
             }
 
-            fn from_ssz_bytes(bytes: &[u8]) -> std::result::Result<Self, ssz::DecodeError> {
+            fn from_ssz_bytes(#bytes: &[u8]) -> std::result::Result<Self, ssz::DecodeError> {
                 if <Self as ssz::Decode>::is_ssz_fixed_len() {
-                    if bytes.len() != <Self as ssz::Decode>::ssz_fixed_len() {
+                    if #bytes.len() != <Self as ssz::Decode>::ssz_fixed_len() {
                         return Err(ssz::DecodeError::InvalidByteLength {
-                            len: bytes.len(),
+                            len: #bytes.len(),
                             expected: <Self as ssz::Decode>::ssz_fixed_len(),
                         });
                     }
@@ -874,13 +880,13 @@ fn ssz_decode_derive_struct(item: &DeriveInput, struct_data: &DataStruct) -> Tok
                         )*
                     })
                 } else {
-                    let mut builder = ssz::SszDecoderBuilder::new(bytes);
+                    let mut builder = ssz::SszDecoderBuilder::new(#bytes);
 
                     #(
                         #register_types
                     )*
 
-                    let mut decoder = builder.build()?;
+                    let mut #decoder = builder.build()?;
 
                     #(
                         #decodes
-- 
2.43.0

