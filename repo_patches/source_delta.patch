From 4aa20e384e6d1c4988e0726545c8a58baf92378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:02 +0000
Subject: [PATCH 01/18] fix: little endian field writes clear exactly the bits
 of the field

Overwriting an unaligned little endian field left stale bits in every byte
after the first, and a field ending in a byte it shares with its last two
value chunks cleared bits of the field before it.
---
 bondrewd-derive/src/structs/into_bytes.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 103643a..14624ba 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -693,6 +693,13 @@ fn apply_le_math_to_field_access_quote(
                         };
                     }
                 }
+                if next_bit_mask != 0 {
+                    let not_next_bit_mask = !next_bit_mask;
+                    clear_quote = quote! {
+                        #clear_quote
+                        output_byte_buffer[#start #operator 1] &= #not_next_bit_mask;
+                    };
+                }
                 if next_bit_mask == u8::MAX {
                     full_quote = quote! {
                         #full_quote
@@ -716,8 +723,8 @@ fn apply_le_math_to_field_access_quote(
                 starting_inject_byte - i
             };
             let right_shift: u32 = right_shift as u32;
-            // let not_first_bit_mask = !first_bit_mask;
-            // let not_last_bit_mask = !last_bit_mask;
+            let not_first_bit_mask = !first_bit_mask;
+            let not_last_bit_mask = !last_bit_mask;
 
             full_quote = quote! {
                 #full_quote
@@ -726,7 +733,8 @@ fn apply_le_math_to_field_access_quote(
             if used_bits < amount_of_bits {
                 clear_quote = quote! {
                     #clear_quote
-                    output_byte_buffer[#start] &= 0;
+                    output_byte_buffer[#start] &= #not_first_bit_mask;
+                    output_byte_buffer[#start #operator 1] &= #not_last_bit_mask;
                 };
                 full_quote = quote! {
                     #full_quote
-- 
2.43.0


From fbc39556e14b8b2c82ff233c1105a38f94c1344f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:13 +0000
Subject: [PATCH 02/18] fix: find the sign bit of reversed and of whole byte
 little endian fields

The sign extension of a signed field narrower than its type tested a bit of
another byte when the structure is reversed, and the bit after the field when
a little endian field uses a whole number of bytes.
---
 bondrewd-derive/src/structs/from_bytes.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index fff43b5..5538f23 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -729,7 +729,7 @@ fn apply_le_math_to_field_access_quote(
         // };
         let size = field.ty.size();
         let new_array_quote =
-            if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift)? {
+            if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift, flip)? {
                 a
             } else {
                 quote! {[0u8;#size]}
@@ -1344,7 +1344,7 @@ fn build_number_quote(
     available_bits_in_first_byte: usize,
     flip: Option<usize>,
 ) -> syn::Result<TokenStream> {
-    let new_array_quote = if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift)?
+    let new_array_quote = if let Some(a) = add_sign_fix_quote(field, &amount_of_bits, &right_shift, flip)?
     {
         a
     } else {
@@ -1527,6 +1527,7 @@ fn add_sign_fix_quote(
     field: &FieldInfo,
     amount_of_bits: &usize,
     right_shift: &i8,
+    flip: Option<usize>,
 ) -> syn::Result<Option<TokenStream>> {
     if let FieldDataType::Number(ref size, ref sign, _) = field.ty {
         if *amount_of_bits != *size * 8 {
@@ -1537,13 +1538,19 @@ fn add_sign_fix_quote(
                         field.attrs.bit_range.start / 8,
                     ),
                     Endianness::Little => {
-                        let skip_bytes = (amount_of_bits / 8) * 8;
+                        // the sign is the first bit of the last byte used by the field.
+                        let skip_bytes = ((amount_of_bits - 1) / 8) * 8;
                         let sign_bit_index = field.attrs.bit_range.start + skip_bytes;
                         // TODO fix bit isolators to fix signed numbers.
                         (sign_bit_index % 8, sign_bit_index / 8)
                     }
                     Endianness::None => return Ok(None),
                 };
+                let sign_index = if let Some(flip) = flip {
+                    flip - sign_index
+                } else {
+                    sign_index
+                };
                 let sign_mask = isolate_bit_index_mask(&bit_to_isolate);
                 let sign_bit = quote! {
                     (input_byte_buffer[#sign_index] & #sign_mask)
-- 
2.43.0


From 1166d067e12995ad6e6a64154ae7732eba03ef4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:45 +0000
Subject: [PATCH 03/18] fix: sign extend signed fields which fit in a single
 byte

The mask filled in above a negative value only matched fields ending on a byte
boundary, and types wider than one byte were zero extended.
---
 bondrewd-derive/src/structs/from_bytes.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 5538f23..1936e21 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -932,7 +932,7 @@ fn apply_le_math_to_field_access_quote(
                     value = quote!{
                         {
                             #value
-                            #field_buffer_name as #ident
+                            #field_buffer_name as i8 as #ident
                         }
                     };
                     value
@@ -1307,7 +1307,7 @@ fn apply_be_math_to_field_access_quote(
                     value = quote!{
                         {
                             #value
-                            #field_buffer_name as #ident
+                            #field_buffer_name as i8 as #ident
                         }
                     };
                     value
@@ -1634,7 +1634,8 @@ fn add_sign_fix_quote_single_bit(
             if let NumberSignage::Signed = sign {
                 let bit_to_isolate = field.attrs.bit_range.start % 8;
                 let sign_mask = isolate_bit_index_mask(&bit_to_isolate);
-                let neg_mask = get_left_and_mask(bit_to_isolate + 1);
+                // every bit of the byte which is not used by the field.
+                let neg_mask = get_left_and_mask(8 - amount_of_bits);
                 let sign_bit = quote! {
                     (input_byte_buffer[#byte_index] & #sign_mask)
                 };
-- 
2.43.0


From 6a408d9ed96d1cea88cc112787143f4c1694809b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:09 +0000
Subject: [PATCH 04/18] fix: require all bytes of a field in the slice
 functions of reversed structures

With reverse the length check subtracted from the bit count instead of the byte
count, so a slice missing the last byte of a field was accepted and indexing it
panicked when the structure is not a whole number of bytes.
---
 bondrewd-derive/src/structs/from_bytes.rs | 2 +-
 bondrewd-derive/src/structs/into_bytes.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 1936e21..f8af954 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -517,7 +517,7 @@ fn make_peek_slice_fn(
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
     let min_length = if info.attrs.flip {
-        ((info.total_bits() - field.attrs.bit_range.start) as f64 / 8.0f64).ceil() as usize
+        info.total_bytes() - (field.attrs.bit_range.start / 8)
     } else {
         (field.attrs.bit_range.end as f64 / 8.0f64).ceil() as usize
     };
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 14624ba..d40b97a 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -374,7 +374,7 @@ fn make_set_slice_fn(
     let type_ident = field.ty.type_quote();
     let struct_name = &info.name;
     let min_length = if info.attrs.flip {
-        ((info.total_bits() - field.attrs.bit_range.start) as f64 / 8.0f64).ceil() as usize
+        info.total_bytes() - (field.attrs.bit_range.start / 8)
     } else {
         (field.attrs.bit_range.end as f64 / 8.0f64).ceil() as usize
     };
-- 
2.43.0


From 8feaf978582e301d617cb1edd2119e5d8e05ea75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:37 +0000
Subject: [PATCH 05/18] fix: reverse the id of a reversed enum together with
 its fields

The variants' fields were reversed while the id stayed in the first byte, where
it shares bits with the last fields of the largest variant.
---
 bondrewd-derive/src/structs/from_bytes.rs | 5 ++---
 bondrewd-derive/src/structs/into_bytes.rs | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index f8af954..26ee3b7 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -213,12 +213,11 @@ pub fn create_from_bytes_field_quotes_enum(
         (
             {
                 let field = info.generate_id_field()?;
-                let flip = false;
+                // the id is the first field of every variant, it has to be reversed like the others.
+                let flip = info.attrs.attrs.flip;
                 let field_extractor = get_field_quote(
                     &field,
                     if flip {
-                        // condition use to be `info.attrs.flip` i think this only applies to the variants
-                        // and id_position is what is used here. but it should be done none the less.
                         Some(info.total_bytes() - 1)
                     } else {
                         None
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index d40b97a..7884e5d 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -144,12 +144,11 @@ pub fn create_into_bytes_field_quotes_enum(
         (
             {
                 let field = info.generate_id_field()?;
-                let flip = false;
+                // the id is the first field of every variant, it has to be reversed like the others.
+                let flip = info.attrs.attrs.flip;
                 let (field_quote, clear_quote) = get_field_quote(
                     &field,
                     if flip {
-                        // condition use to be `info.attrs.flip` i think this only applies to the variants
-                        // and id_position is what is used here. but it should be done none the less.
                         Some(info.total_bytes() - 1)
                     } else {
                         None
-- 
2.43.0


From 820c9c40ed97fe2d8f0aac6c1a4110e25b44c3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:16 +0000
Subject: [PATCH 06/18] fix: from_slice and from_vec give reserve fields their
 default like from_bytes

---
 bondrewd-derive/src/structs/from_bytes.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 26ee3b7..0bc9efa 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -188,9 +188,16 @@ fn create_fields_quotes(
                 #from_bytes_quote
                 #peek_call;
             };
-            from_vec_quote = quote! {
-                #from_vec_quote
-                let #field_name = #field_extractor;
+            from_vec_quote = if field.attrs.reserve.read_field() {
+                quote! {
+                    #from_vec_quote
+                    let #field_name = #field_extractor;
+                }
+            } else {
+                quote! {
+                    #from_vec_quote
+                    let #field_name = Default::default();
+                }
             };
         }
     }
-- 
2.43.0


From 67cd1d455709115842f089819afc6f0a41b684c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:16 +0000
Subject: [PATCH 07/18] fix: read the last bits of reversed little endian
 fields from the preceding byte

---
 bondrewd-derive/src/structs/from_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index 0bc9efa..eb32a24 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -799,7 +799,7 @@ fn apply_le_math_to_field_access_quote(
                 full_quote = quote! {
                     #full_quote
                     #field_buffer_name[#i] |= input_byte_buffer[#start] & #current_bit_mask;
-                    #field_buffer_name[#i] |= input_byte_buffer[#start + 1] & #last_bit_mask;
+                    #field_buffer_name[#i] |= input_byte_buffer[#start #operator 1] & #last_bit_mask;
                 };
             } else {
                 let mut last_mask = first_bit_mask;
-- 
2.43.0


From 8413d0da95e1263a4c211fab68921411c43595b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:38 +0000
Subject: [PATCH 08/18] fix: writing a nested structure only clears the bits of
 that field

A nested structure which is not a whole number of bytes cleared all bits of the
last byte it touches, including those of the fields after it.
---
 bondrewd-derive/src/structs/into_bytes.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 7884e5d..84355bc 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -928,6 +928,15 @@ fn apply_ne_math_to_field_access_quote(
                     } else {
                         starting_inject_byte - i
                     };
+                    // the last byte of the structure might not be completely used by the field, the
+                    // unused bits belong to other fields.
+                    let bits_left = amount_of_bits.saturating_sub(8 * i);
+                    let current_bit_mask = current_bit_mask
+                        & !get_right_and_mask(available_bits_in_first_byte.saturating_sub(bits_left));
+                    let next_bit_mask = next_bit_mask
+                        & get_left_and_mask(
+                            bits_left.saturating_sub(available_bits_in_first_byte).min(8),
+                        );
                     let not_current_bit_mask = !current_bit_mask;
                     let not_next_bit_mask = !next_bit_mask;
                     clear_quote = quote! {
-- 
2.43.0


From a2df1b546011046fa5f5bb834ae997f4a2af61f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:52 +0000
Subject: [PATCH 09/18] fix: ids of a width between two primitive sizes compile

---
 bondrewd-derive/src/structs/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 7d03b19..c51ec63 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1096,7 +1096,8 @@ impl EnumInfo {
         Ok(FieldInfo {
             ident: Box::new(format_ident!("{}", EnumInfo::VARIANT_ID_NAME).into()),
             ty: FieldDataType::Number(
-                (self.attrs.id_bits as f64 / 8.0f64).ceil() as usize,
+                // must be the size of the primitive used by `id_ident`.
+                ((self.attrs.id_bits as f64 / 8.0f64).ceil() as usize).next_power_of_two(),
                 NumberSignage::Unsigned,
                 self.id_ident()?,
             ),
-- 
2.43.0


From aabd323876235ded407f6bda8add786411e61202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:25 +0000
Subject: [PATCH 10/18] fix: number a catch all variant without a literal like
 the other variants

---
 bondrewd-derive/src/enums/parse.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/enums/parse.rs b/bondrewd-derive/src/enums/parse.rs
index 3c3a8bf..cfb21b8 100644
--- a/bondrewd-derive/src/enums/parse.rs
+++ b/bondrewd-derive/src/enums/parse.rs
@@ -409,9 +409,11 @@ impl EnumInfo {
                                     return Err(syn::Error::new(var.ident.span(), "Literal Values conflict"));
                                 }
                             }else{
-                                literal_variants.insert(i, EnumVariant{
+                                // a catch all without a literal is numbered like any other variant
+                                // without a literal.
+                                unknown_variants.push_back(EnumVariantBuilder{
                                     name: var.ident.clone(),
-                                    value: EnumVariantType::Skip(Literal::usize_unsuffixed(i)),
+                                    value: EnumVariantBuilderType::Skip,
                                 });
                             }
                         } else if let Some((_, ref discriminant)) = var.discriminant {
-- 
2.43.0


From aa0392a8706d01738339c5e97185aeb8864cf707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 11/18] fix: read a captured id with the endianness of the
 enum's id

---
 bondrewd-derive/src/structs/common.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index c51ec63..d4f43a8 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1870,6 +1870,12 @@ impl ObjectInfo {
                                         return Err(Error::new(field.span(), format!("capture_id field currently must be {bon_ty} in this instance, because bondrewd makes an assumption about the id type. changing this would be difficult")));
                                     }
                                     let old_id = parsed_fields.remove(0);
+                                    // the id is stored the same way for every variant, a variant's own
+                                    // default endianness only effects its other fields.
+                                    parsed_field.attrs.endianness = match *old_id.attrs.endianness {
+                                        Endianness::None => Box::new(Endianness::Little),
+                                        ref endianness => Box::new(endianness.clone()),
+                                    };
                                     if tuple {
                                         parsed_field.ident = old_id.ident;
                                     }
-- 
2.43.0


From 13a9fa6be531b956474cc15745e8fdb5db49484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:38 +0000
Subject: [PATCH 12/18] fix: fill_bytes when the last field of the list is not
 last in the bytes

---
 bondrewd-derive/src/structs/common.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index d4f43a8..9328db4 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1927,11 +1927,12 @@ impl ObjectInfo {
 
         // add reserve for fill bytes. this happens after bit enforcement because bit_enforcement is for checking user code.
         if let Some(fill_bits) = attrs.fill_bits {
-            let first_bit = if let Some(last_range) = parsed_fields.iter().last() {
-                last_range.attrs.bit_range.end
-            } else {
-                0_usize
-            };
+            // the last field in the list is not always the last field in the bytes.
+            let first_bit = parsed_fields
+                .iter()
+                .map(|field| field.attrs.bit_range.end)
+                .max()
+                .unwrap_or(0);
             let fill_bytes_size = ((fill_bits - first_bit) as f64 / 8.0_f64).ceil() as usize;
             let ident = quote::format_ident!("bondrewd_fill_bits");
             parsed_fields.push(FieldInfo {
-- 
2.43.0


From 42c7a80b34c211a423598f1778adf39c73caeef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:08 +0000
Subject: [PATCH 13/18] fix: size of structures with unused bits between fields

---
 bondrewd-derive/src/structs/common.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 9328db4..511a1fa 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1041,8 +1041,9 @@ impl StructInfo {
         for field in self.fields.iter() {
             total += field.bit_size();
         }
-
-        total
+        // bits between fields which are not used by any field still need to be in the bytes.
+        let last_bit = self.fields.iter().map(|field| field.attrs.bit_range.end).max();
+        total.max(last_bit.unwrap_or(0))
     }
 
     pub fn total_bytes(&self) -> usize {
-- 
2.43.0


From 1cdeb25d0b3aad410c8300eeb3e616f88d05da76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:50 +0000
Subject: [PATCH 14/18] fix: catch all variants of primitive enums with a named
 field compile

---
 bondrewd-derive/src/enums/from_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/enums/from_bytes.rs b/bondrewd-derive/src/enums/from_bytes.rs
index 417ce1c..b3e5e2a 100644
--- a/bondrewd-derive/src/enums/from_bytes.rs
+++ b/bondrewd-derive/src/enums/from_bytes.rs
@@ -19,7 +19,7 @@ pub fn generate_from_bytes(enum_info: &EnumInfo) -> syn::Result<proc_macro2::Tok
             EnumVariantType::CatchPrimitive(ref field_name) => {
                 if let Some(ref field_name) = field_name {
                     quote! {
-                        _ => Self::#name { #field_name = input },
+                        _ => Self::#name { #field_name: input },
                     }
                 } else {
                     quote! {
-- 
2.43.0


From 520d0115cba4cc1fc2b395378017830aa747f037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:50 +0000
Subject: [PATCH 15/18] fix: an id sized by enforce_bits and payload_bit_length
 keeps that size

---
 bondrewd-derive/src/structs/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index 511a1fa..bb07ae9 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -1443,9 +1443,10 @@ impl ObjectInfo {
                                 attrs: attrs.clone(),
                             }
                         } else {
+                            // what the payload leaves of the total is the id, like in the id field.
                             EnumAttrInfo {
                                 payload_bit_size: largest,
-                                id_bits: min_id_size,
+                                id_bits,
                                 id_position: enum_attrs.id_position,
                                 attrs: attrs.clone(),
                             }
-- 
2.43.0


From d3eb974e52803d22db59fbc577ae33e87d198e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:21 +0000
Subject: [PATCH 16/18] fix: block arrays of enums and structures with a stated
 block length

---
 bondrewd-derive/src/structs/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index bb07ae9..c073859 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -299,9 +299,11 @@ impl FieldDataType {
                                         quote! {[#type_ident;#array_length]},
                                     )
                                 }
-                                FieldAttrBuilderType::BlockArray(_) => {
+                                FieldAttrBuilderType::BlockArray(ref sub) => {
                                     let mut sub_attrs = attrs.clone();
                                     if let Type::Array(_) = array_path.elem.as_ref() {
+                                    } else if let Some(ref ty) = sub.as_ref() {
+                                        sub_attrs.ty = ty.clone();
                                     } else {
                                         sub_attrs.ty = FieldAttrBuilderType::None;
                                     }
-- 
2.43.0


From 4aface353dcdc1fca2d3d16d12f561409888e487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:34 +0000
Subject: [PATCH 17/18] fix: nested structures trimmed below their own size
 keep to the bits of their field

---
 bondrewd-derive/src/structs/from_bytes.rs | 12 ++++++++++++
 bondrewd-derive/src/structs/into_bytes.rs | 11 +++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/bondrewd-derive/src/structs/from_bytes.rs b/bondrewd-derive/src/structs/from_bytes.rs
index eb32a24..66aeb98 100644
--- a/bondrewd-derive/src/structs/from_bytes.rs
+++ b/bondrewd-derive/src/structs/from_bytes.rs
@@ -1005,7 +1005,19 @@ fn apply_ne_math_to_field_access_quote(
                         let next_bit_mask = get_left_and_mask(8 - available_bits_in_first_byte);
                         let right_shift: u32 = right_shift as u32;
                         for i in 0..*size {
+                            // a structure can be trimmed, the bits behind the last one belong to
+                            // other fields.
+                            let bits_left = amount_of_bits.saturating_sub(8 * i);
+                            if bits_left == 0 {
+                                break;
+                            }
                             let start = if flip.is_none() {starting_inject_byte + i}else{starting_inject_byte - i};
+                            let current_bit_mask = current_bit_mask
+                                & !get_right_and_mask(available_bits_in_first_byte.saturating_sub(bits_left));
+                            let next_bit_mask = next_bit_mask
+                                & get_left_and_mask(
+                                    bits_left.saturating_sub(available_bits_in_first_byte).min(8),
+                                );
                             let mut first = if current_bit_mask == u8::MAX {
                                 quote!{
                                     #buffer_ident[#i] = input_byte_buffer[#start];
diff --git a/bondrewd-derive/src/structs/into_bytes.rs b/bondrewd-derive/src/structs/into_bytes.rs
index 84355bc..030a267 100644
--- a/bondrewd-derive/src/structs/into_bytes.rs
+++ b/bondrewd-derive/src/structs/into_bytes.rs
@@ -923,14 +923,17 @@ fn apply_ne_math_to_field_access_quote(
                 let next_bit_mask = get_left_and_mask(8 - available_bits_in_first_byte);
                 let right_shift: u32 = right_shift as u32;
                 for i in 0usize..size {
+                    // the last byte of the structure might not be completely used by the field, the
+                    // unused bits belong to other fields.
+                    let bits_left = amount_of_bits.saturating_sub(8 * i);
+                    if bits_left == 0 {
+                        break;
+                    }
                     let start = if flip.is_none() {
                         starting_inject_byte + i
                     } else {
                         starting_inject_byte - i
                     };
-                    // the last byte of the structure might not be completely used by the field, the
-                    // unused bits belong to other fields.
-                    let bits_left = amount_of_bits.saturating_sub(8 * i);
                     let current_bit_mask = current_bit_mask
                         & !get_right_and_mask(available_bits_in_first_byte.saturating_sub(bits_left));
                     let next_bit_mask = next_bit_mask
@@ -1082,7 +1085,7 @@ fn apply_ne_math_to_field_access_quote(
             FieldDataType::Enum(_, _, _) => return Err(syn::Error::new(field.ident.span(), "Enum was given Endianness which should be described by the struct implementing Bitfield")),
             FieldDataType::Struct(_, _) => {
                 let used_bits_in_byte = 8 - available_bits_in_first_byte;
-                quote!{output_byte_buffer[#starting_inject_byte] |= (#field_access_quote.into_bytes()[0]) >> #used_bits_in_byte;}
+                quote!{output_byte_buffer[#starting_inject_byte] |= ((#field_access_quote.into_bytes()[0]) >> #used_bits_in_byte) & #mask;}
             }
             FieldDataType::Float(_, _) => return Err(syn::Error::new(field.ident.span(), "Float not supported for single byte insert logic")),
             FieldDataType::ElementArray(_, _, _) | FieldDataType::BlockArray(_, _, _) => return Err(syn::Error::new(field.ident.span(), "an array got passed into apply_ne_math_to_field_access_quote, which is bad."))
-- 
2.43.0


From de2ac39279b18043e713ba30500ee65105d81719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 18/18] fix: the even split of an array's range was computed
 with the wrong precedence

---
 bondrewd-derive/src/structs/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bondrewd-derive/src/structs/common.rs b/bondrewd-derive/src/structs/common.rs
index c073859..c524860 100644
--- a/bondrewd-derive/src/structs/common.rs
+++ b/bondrewd-derive/src/structs/common.rs
@@ -364,7 +364,7 @@ impl FieldDataType {
                                                     "range end is less than range start",
                                                 ));
                                             }
-                                            if range.end - range.start % array_length != 0 {
+                                            if (range.end - range.start) % array_length != 0 {
                                                 return Err(
                                                     syn::Error::new(
                                                         span,
-- 
2.43.0

