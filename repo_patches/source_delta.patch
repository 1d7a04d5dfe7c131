From 5435f3732b768c8ea0eba21271a231ca7cc00e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 01/18] fix: keep every byte of misaligned fields that are 32
 bytes or longer

The per-byte source mask was computed from a bit count truncated to u8, which
wrapped to an empty mask for byte 31 of a long misaligned field.
---
 packed_struct_codegen/src/pack_codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/pack_codegen.rs b/packed_struct_codegen/src/pack_codegen.rs
index 2762e67..30b9ab2 100644
--- a/packed_struct_codegen/src/pack_codegen.rs
+++ b/packed_struct_codegen/src/pack_codegen.rs
@@ -193,7 +193,7 @@ fn pack_bits(field: &FieldRegular) -> PackBitsCopy {
         let mut unpack = vec![];
 
         for i in 0..packed_field_len {
-            let src_mask = ones_u8(l as u8);                        
+            let src_mask = ones_u8(std::cmp::min(l, 8) as u8);
             let bit_shift = emit_shift(shift);
             pack.push(quote! {
                 let _a = #i;
-- 
2.43.0


From 7848e49fee80f2ff85ef2436e833ec087908d454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 02/18] fix: unpack correctly whatever the fields are called

A field named src shadowed the generated function's parameter, and a field
named like an array element's local (a_0 next to an array a) was mixed up with it.
---
 packed_struct_codegen/src/pack_codegen.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packed_struct_codegen/src/pack_codegen.rs b/packed_struct_codegen/src/pack_codegen.rs
index 30b9ab2..d4d8f11 100644
--- a/packed_struct_codegen/src/pack_codegen.rs
+++ b/packed_struct_codegen/src/pack_codegen.rs
@@ -54,10 +54,14 @@ pub fn derive_pack(parsed: &PackStruct) -> syn::Result<proc_macro2::TokenStream>
         for field in &parsed.fields {
             match field {
                 FieldKind::Regular { ref ident, ref field } => {
-                    reg(ident, ident, field)?;
+                    // a hygienic local, so that a field's name can't clash with the other variables
+                    let mut local = ident.clone();
+                    local.set_span(proc_macro2::Span::mixed_site());
+
+                    reg(ident, &local, field)?;
 
                     unpack_struct_set.push(quote! {
-                        #ident
+                        #ident: #local
                     });
                 },
                 FieldKind::Array { ref ident, ref elements, .. } => {
-- 
2.43.0


From cc3630b9ad94bc5e0f20979a8f75d5d5cdd2cb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 03/18] fix: detect an enum backing type that holds every
 discriminant

Negative values below i32::MIN and positive values next to negative ones got a
signed type too small for them, so conversions silently wrapped.
---
 packed_struct_codegen/src/primitive_enum.rs | 23 ++++++++++-----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/packed_struct_codegen/src/primitive_enum.rs b/packed_struct_codegen/src/primitive_enum.rs
index 830f71f..1e2d4eb 100644
--- a/packed_struct_codegen/src/primitive_enum.rs
+++ b/packed_struct_codegen/src/primitive_enum.rs
@@ -50,22 +50,21 @@ pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::
     let all_variants_len = all_variants.len();
 
     if prim_type.is_none() {
+        let any_negative = v.iter().any(|d| d.negative);
         let min_ty: Vec<String> = v.iter().map(|d| {
             if !d.suffix.is_empty() {
                 d.suffix.clone()
-            } else if d.negative {
-                let n = d.discriminant as i64;
-                if n < <i32>::min_value() as i64 {
-                    "i64".into()
+            } else if any_negative {
+                let n = if d.negative { -(d.discriminant as i128) } else { d.discriminant as i128 };
+                let fits = |min: i64, max: i64| n >= min as i128 && n <= max as i128;
+                if fits(<i8>::min_value() as i64, <i8>::max_value() as i64) {
+                    "i8".into()
+                } else if fits(<i16>::min_value() as i64, <i16>::max_value() as i64) {
+                    "i16".into()
+                } else if fits(<i32>::min_value() as i64, <i32>::max_value() as i64) {
+                    "i32".into()
                 } else {
-                    let n = -n;
-                    if n < <i16>::min_value() as i64 {
-                        "i32".into()
-                    } else if n < <i8>::min_value() as i64 {
-                        "i16".into()
-                    } else {
-                        "i8".into()
-                    }
+                    "i64".into()
                 }
             } else {
                 let n = d.discriminant;
-- 
2.43.0


From d3cd6c80ba8b2a71c97bee84f3be150223b59589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:22 +0000
Subject: [PATCH 04/18] fix: make the alloc feature compile

The no_std prelude lacked fmt::Formatter, and the long-stable alloc crate was
still requested through an unstable feature attribute.
---
 packed_struct/src/internal_prelude/no_std.rs | 2 ++
 packed_struct/src/lib.rs                     | 2 --
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packed_struct/src/internal_prelude/no_std.rs b/packed_struct/src/internal_prelude/no_std.rs
index 1977e06..b195dd6 100644
--- a/packed_struct/src/internal_prelude/no_std.rs
+++ b/packed_struct/src/internal_prelude/no_std.rs
@@ -15,6 +15,8 @@ pub use core::ops::Deref;
 pub use core::slice;
 pub use core::hash::{Hash, Hasher};
 
+#[cfg(feature="alloc")]
+pub use core::fmt::Formatter;
 #[cfg(feature="alloc")]
 pub use alloc::vec::Vec;
 #[cfg(feature="alloc")]
diff --git a/packed_struct/src/lib.rs b/packed_struct/src/lib.rs
index 833a200..52b4e6f 100644
--- a/packed_struct/src/lib.rs
+++ b/packed_struct/src/lib.rs
@@ -318,8 +318,6 @@
 
 #![cfg_attr(not(feature = "std"), no_std)]
 
-#![cfg_attr(feature="alloc", feature(alloc))]
-
 extern crate packed_struct_codegen;
 
 #[cfg(feature="alloc")]
-- 
2.43.0


From b4ad3bda06756bc75ee16b70c1f9f1721f836473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:26 +0000
Subject: [PATCH 05/18] fix: reject arrays whose declared width isn't a
 multiple of their size

The remainder was taken of the already rounded-down element width, so for
example [bool; 3] on four bits was accepted and left a hole after the array.
---
 packed_struct_codegen/src/pack_parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index ff27bfe..bc38d65 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -212,7 +212,7 @@ fn parse_field(field: &syn::Field, mp: &FieldMidPositioning, bit_range: &Range<u
             let size = get_expr_int_val(&type_array.len)?;
 
             let element_size_bits = mp.bit_width / size;
-            if (mp.bit_width % element_size_bits) != 0 {
+            if (mp.bit_width % size) != 0 {
                 return Err(syn::Error::new(type_array.span(), "Element and array size mismatch!"));
             }
 
-- 
2.43.0


From 0a6f37401fb7f16878112fd5ff4ce6d73d124a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:41 +0000
Subject: [PATCH 06/18] fix: reject LSB0 fields outside of the structure in
 release builds too

The subtraction wraps around where overflow checks are off; the overlap check
then sees an empty range, or only an array's first position, and the field was
accepted at positions that were never asked for.
---
 packed_struct_codegen/src/pack_parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index bc38d65..86d3128 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -404,7 +404,11 @@ pub fn parse_struct(ast: &syn::DeriveInput) -> syn::Result<PackStruct> {
                 },
                 (Some(BitNumbering::Lsb0), BitsPositionParsed::Range(start, end)) => {
                     if let Some(struct_size_bytes) = struct_size_bytes {
-                        BitsPositionParsed::range_in_order( (struct_size_bytes * 8) - 1 - start, (struct_size_bytes * 8) - 1 - end )
+                        let to_msb0 = |pos: usize| {
+                            (struct_size_bytes * 8).checked_sub(1).and_then(|last| last.checked_sub(pos))
+                                .ok_or_else(|| syn::Error::new(field.span(), "The field lies outside of the structure's declared size."))
+                        };
+                        BitsPositionParsed::range_in_order(to_msb0(start)?, to_msb0(end)?)
                     } else {
                         return Err(syn::Error::new(field.span(), "LSB0 field positioning currently requires explicit struct byte size."));
                     }
-- 
2.43.0


From 25d46e2a9e66b055885294309a45b1a11f086d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:16 +0000
Subject: [PATCH 07/18] fix: reject positions and sizes whose arithmetic would
 wrap around

Where overflow checks are off, numbers beyond 2^60 wrapped to small ones and
fields were accepted outside of the structure's declared size.
---
 packed_struct_codegen/src/pack_parse.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index 86d3128..8e58e07 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -342,11 +342,18 @@ impl BitsPositionParsed {
 pub fn parse_num(s: &str) -> Result<usize, String> {
     let s = s.trim();
 
-    if s.starts_with("0x") || s.starts_with("0X") {
+    let n: usize = if s.starts_with("0x") || s.starts_with("0X") {
         usize::from_str_radix(&s[2..], 16).map_err(|e| { format!("Invalid hex number: {:?}, parse error: {:?}", s, e) })
     } else {
         s.parse().map_err(|e| format!("Invalid decimal number: {:?}, parse error: {:?}", s, e))
+    }?;
+
+    // Sizes and positions get multiplied and added, which must not wrap around.
+    if n > (u32::MAX / 8) as usize {
+        panic!("Number too large for a position or a size: {:?}", s);
     }
+
+    Ok(n)
 }
 
 
-- 
2.43.0


From 277980e7a9cede756de9730efa64dc1a3465b7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:21 +0000
Subject: [PATCH 08/18] fix: name the format macro by its full path in
 generated code

Crates without std do not have format! in scope, so with the alloc feature
the derive did not compile in them.
---
 packed_struct_codegen/src/pack_codegen_docs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packed_struct_codegen/src/pack_codegen_docs.rs b/packed_struct_codegen/src/pack_codegen_docs.rs
index 1deb17b..7918520 100644
--- a/packed_struct_codegen/src/pack_codegen_docs.rs
+++ b/packed_struct_codegen/src/pack_codegen_docs.rs
@@ -29,7 +29,7 @@ pub fn struct_runtime_formatter(parsed: &PackStruct) -> syn::Result<proc_macro2:
                     ::packed_struct::debug_fmt::DebugBitField {
                         name: #name_str.into(),
                         bits: #bits,
-                        display_value: format!("{:?}", src.#ident).into()
+                        display_value: #stdlib_prefix::format!("{:?}", src.#ident).into()
                     }
                 });
             },
@@ -42,7 +42,7 @@ pub fn struct_runtime_formatter(parsed: &PackStruct) -> syn::Result<proc_macro2:
                         ::packed_struct::debug_fmt::DebugBitField {
                             name: #name_str.into(),
                             bits: #bits,
-                            display_value: format!("{:?}", src.#ident[#i]).into()
+                            display_value: #stdlib_prefix::format!("{:?}", src.#ident[#i]).into()
                         }
                     });
                 }
-- 
2.43.0


From d7f45d377a79c611544e1da5a0cd63666855afba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:54 +0000
Subject: [PATCH 09/18] fix: compute byte positions with integers, f32 is
 inexact beyond 2^24 bits

---
 packed_struct_codegen/src/pack_codegen.rs | 4 ++--
 packed_struct_codegen/src/pack_parse.rs   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/packed_struct_codegen/src/pack_codegen.rs b/packed_struct_codegen/src/pack_codegen.rs
index d4d8f11..88c235c 100644
--- a/packed_struct_codegen/src/pack_codegen.rs
+++ b/packed_struct_codegen/src/pack_codegen.rs
@@ -175,8 +175,8 @@ fn pack_bits(field: &FieldRegular) -> PackBitsCopy {
             }
         }
     } else {
-        let packed_field_len = (field.bit_width as f32 / 8.0).ceil() as usize; 
-        let start_byte = (field.bit_range_rust.start as f32 / 8.0).floor() as usize;
+        let packed_field_len = (field.bit_width + 7) / 8;
+        let start_byte = field.bit_range_rust.start / 8;
         let shift = ((packed_field_len as isize*8) - (field.bit_width as isize)) - (field.bit_range_rust.start as isize - (start_byte as isize * 8));
 
         let emit_shift = |s: isize| {
diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index 8e58e07..ab5e9c5 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -448,7 +448,7 @@ pub fn parse_struct(ast: &syn::DeriveInput) -> syn::Result<PackStruct> {
         }
     };
 
-    let num_bytes = (num_bits as f32 / 8.0).ceil() as usize;
+    let num_bytes = (num_bits + 7) / 8;
 
     if first_field_is_auto_positioned && (num_bits % 8) != 0 && struct_size_bytes.is_none() {
         return Err(syn::Error::new(fields[0].span(), "Please explicitly position the bits of the first field of this structure, as the alignment isn't obvious to the end user."));
-- 
2.43.0


From 596ec4dea287719ddffbfec496bb0bf9c69ba3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:17 +0000
Subject: [PATCH 10/18] fix: keep the derives' helper items out of the user's
 namespace

Two enums or structures whose names differ in case or underscores only,
an enum next to a user's own constant of the same name, or a type with a
raw identifier did not compile.
---
 .../src/pack_codegen_docs.rs                  | 15 +++------
 packed_struct_codegen/src/primitive_enum.rs   | 15 ++-------
 packed_struct_codegen/src/utils.rs            | 32 -------------------
 3 files changed, 8 insertions(+), 54 deletions(-)

diff --git a/packed_struct_codegen/src/pack_codegen_docs.rs b/packed_struct_codegen/src/pack_codegen_docs.rs
index 7918520..b2f4da2 100644
--- a/packed_struct_codegen/src/pack_codegen_docs.rs
+++ b/packed_struct_codegen/src/pack_codegen_docs.rs
@@ -1,16 +1,12 @@
 use crate::pack::*;
 use crate::common::*;
-use proc_macro2::Span;
 use quote::{ToTokens};
 use syn::parse_quote;
-use crate::utils::*;
 
 pub fn struct_runtime_formatter(parsed: &PackStruct) -> syn::Result<proc_macro2::TokenStream> {
     let (impl_generics, ty_generics, where_clause) = parsed.derive_input.generics.split_for_impl();
     let name = &parsed.derive_input.ident;
-    let snake_name = to_snake_case(&name.to_string());
     let stdlib_prefix = collections_prefix();
-    let debug_fields_fn = syn::Ident::new(&format!("debug_fields_{}", snake_name), Span::call_site());
 
     let display_header = format!("{} ({} {})",
         name,
@@ -56,17 +52,16 @@ pub fn struct_runtime_formatter(parsed: &PackStruct) -> syn::Result<proc_macro2:
     let result_ty = result_type();
 
     let q = quote! {
-        #[doc(hidden)]
-        pub fn #debug_fields_fn(src: &#name) -> [::packed_struct::debug_fmt::DebugBitField<'static>; #num_fields] {
-            [#(#debug_fields),*]
-        }
-
         #[allow(unused_imports)]
         impl #impl_generics ::packed_struct::debug_fmt::PackedStructDebug for #name #ty_generics #where_clause {
             fn fmt_fields(&self, fmt: &mut #stdlib_prefix::fmt::Formatter) -> #result_ty <(), #stdlib_prefix::fmt::Error> {
                 use ::packed_struct::PackedStruct;
                 
-                let fields = #debug_fields_fn(self);
+                fn debug_fields(src: &#name) -> [::packed_struct::debug_fmt::DebugBitField<'static>; #num_fields] {
+                    [#(#debug_fields),*]
+                }
+
+                let fields = debug_fields(self);
                 let packed: [u8; #num_bytes] = self.pack()?;
                 ::packed_struct::debug_fmt::packable_fmt_fields(fmt, &packed, &fields)
             }
diff --git a/packed_struct_codegen/src/primitive_enum.rs b/packed_struct_codegen/src/primitive_enum.rs
index 1e2d4eb..937f8c7 100644
--- a/packed_struct_codegen/src/primitive_enum.rs
+++ b/packed_struct_codegen/src/primitive_enum.rs
@@ -1,10 +1,8 @@
 extern crate quote;
 extern crate syn;
 
-use proc_macro2::Span;
 use quote::TokenStreamExt;
 use syn::spanned::Spanned;
-use crate::utils::*;
 use crate::common::collections_prefix;
 
 pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::Result<proc_macro2::TokenStream> {
@@ -47,7 +45,6 @@ pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::
         let n = &x.variant.ident;
         quote! { #name::#n }
     }).collect();
-    let all_variants_len = all_variants.len();
 
     if prim_type.is_none() {
         let any_negative = v.iter().any(|d| d.negative);
@@ -104,12 +101,9 @@ pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::
 
     let prim_type = prim_type.expect("Unable to detect the primitive type for this enum.");
 
-    let all_variants_const_ident = syn::Ident::new(&format!("{}_ALL", to_snake_case(&name.to_string())).to_uppercase(), Span::call_site());
-    
-
     let mut str_format = {
         let to_display_str = to_display_str.clone();
-        let all_variants_const_ident = all_variants_const_ident.clone();
+        let all_variants = all_variants.clone();
 
         quote! {
             impl ::packed_struct::PrimitiveEnumStaticStr for #name {
@@ -122,7 +116,7 @@ pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::
 
                 #[inline]
                 fn all_variants() -> &'static [Self] {
-                    #all_variants_const_ident
+                    &[ #(#all_variants),* ]
                 }
             }
         }
@@ -142,16 +136,13 @@ pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::
 
                 #[inline]
                 fn all_variants() -> #stdlib_prefix::borrow::Cow<'static, [Self]> {
-                    #stdlib_prefix::borrow::Cow::Borrowed(#all_variants_const_ident)
+                    #stdlib_prefix::borrow::Cow::Borrowed(&[ #(#all_variants),* ])
                 }
             }
         });
     };
 
     let q = quote! {
-
-        const #all_variants_const_ident: &'static [#name; #all_variants_len] = &[ #(#all_variants),* ];
-
         impl ::packed_struct::PrimitiveEnum for #name {
             type Primitive = #prim_type;
 
diff --git a/packed_struct_codegen/src/utils.rs b/packed_struct_codegen/src/utils.rs
index f2402af..276e049 100644
--- a/packed_struct_codegen/src/utils.rs
+++ b/packed_struct_codegen/src/utils.rs
@@ -41,35 +41,3 @@ pub fn ones_u8(n: u8) -> u8 {
         _ => 0b11111111
     }
 }
-
-
-// From rustc
-pub fn to_snake_case(mut str: &str) -> String {
-    let mut words = vec![];
-    // Preserve leading underscores
-    str = str.trim_start_matches(|c: char| {
-        if c == '_' {
-            words.push(String::new());
-            true
-        } else {
-            false
-        }
-    });
-    for s in str.split('_') {
-        let mut last_upper = false;
-        let mut buf = String::new();
-        if s.is_empty() {
-            continue;
-        }
-        for ch in s.chars() {
-            if !buf.is_empty() && buf != "'" && ch.is_uppercase() && !last_upper {
-                words.push(buf);
-                buf = String::new();
-            }
-            last_upper = ch.is_uppercase();
-            buf.extend(ch.to_lowercase());
-        }
-        words.push(buf);
-    }
-    words.join("_")
-}
-- 
2.43.0


From 21cafb2791df6c62b0d11fdf6ef69c5a15b773f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:30 +0000
Subject: [PATCH 11/18] fix: name raw identifiers without their r# prefix

A variant r#type was displayed as 'r#type' and from_str("type") did not
find it; fields were displayed and documented with the prefix, too.
---
 packed_struct_codegen/src/pack_codegen_docs.rs | 11 ++++++-----
 packed_struct_codegen/src/primitive_enum.rs    |  7 ++++---
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/packed_struct_codegen/src/pack_codegen_docs.rs b/packed_struct_codegen/src/pack_codegen_docs.rs
index b2f4da2..2be8b7e 100644
--- a/packed_struct_codegen/src/pack_codegen_docs.rs
+++ b/packed_struct_codegen/src/pack_codegen_docs.rs
@@ -1,6 +1,7 @@
 use crate::pack::*;
 use crate::common::*;
 use quote::{ToTokens};
+use syn::ext::IdentExt;
 use syn::parse_quote;
 
 pub fn struct_runtime_formatter(parsed: &PackStruct) -> syn::Result<proc_macro2::TokenStream> {
@@ -9,7 +10,7 @@ pub fn struct_runtime_formatter(parsed: &PackStruct) -> syn::Result<proc_macro2:
     let stdlib_prefix = collections_prefix();
 
     let display_header = format!("{} ({} {})",
-        name,
+        name.unraw(),
         parsed.num_bytes,
         if parsed.num_bytes == 1 { "byte" } else { "bytes" }
     );
@@ -18,7 +19,7 @@ pub fn struct_runtime_formatter(parsed: &PackStruct) -> syn::Result<proc_macro2:
     for field in &parsed.fields {
         match field {
             FieldKind::Regular { ref ident, ref field } => {
-                let name_str = &ident.to_string();
+                let name_str = &ident.unraw().to_string();
                 let bits: syn::ExprRange = syn::parse_str(&format!("{}..{}", field.bit_range.start, field.bit_range.end))?;
                 
                 debug_fields.push(quote! {
@@ -31,7 +32,7 @@ pub fn struct_runtime_formatter(parsed: &PackStruct) -> syn::Result<proc_macro2:
             },
             FieldKind::Array { ref ident, ref elements, .. } => {
                 for (i, field) in elements.iter().enumerate() {
-                    let name_str = format!("{}[{}]", ident, i);
+                    let name_str = format!("{}[{}]", ident.unraw(), i);
                     let bits: syn::ExprRange = syn::parse_str(&format!("{}..{}", field.bit_range.start, field.bit_range.end))?;
                     
                     debug_fields.push(quote! {
@@ -127,11 +128,11 @@ pub fn type_docs(parsed: &PackStruct) -> proc_macro2::TokenStream {
         for field in &parsed.fields {
             match field {
                 FieldKind::Regular { ref ident, ref field } => {
-                    emit_field_docs(&field.bit_range, ident.to_string(), &field.ty);
+                    emit_field_docs(&field.bit_range, ident.unraw().to_string(), &field.ty);
                 },
                 FieldKind::Array { ref ident, ref elements, .. } => {
                     for (i, field) in elements.iter().enumerate() {
-                        emit_field_docs(&field.bit_range, format!("{}[{}]", ident, i), &field.ty);
+                        emit_field_docs(&field.bit_range, format!("{}[{}]", ident.unraw(), i), &field.ty);
                     }
                 }
             }            
diff --git a/packed_struct_codegen/src/primitive_enum.rs b/packed_struct_codegen/src/primitive_enum.rs
index 937f8c7..c8bebc3 100644
--- a/packed_struct_codegen/src/primitive_enum.rs
+++ b/packed_struct_codegen/src/primitive_enum.rs
@@ -2,6 +2,7 @@ extern crate quote;
 extern crate syn;
 
 use quote::TokenStreamExt;
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use crate::common::collections_prefix;
 
@@ -22,21 +23,21 @@ pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::
 
     let to_display_str: Vec<_> = v.iter().map(|x| {
         let n = &x.variant.ident;
-        let d = n.to_string();
+        let d = n.unraw().to_string();
         quote! {
             #name::#n => (#d)
     }}).collect();
 
     let from_str: Vec<_> = v.iter().map(|x| {
         let n = &x.variant.ident;
-        let d = n.to_string();
+        let d = n.unraw().to_string();
         quote! {
             #d => Some(#name::#n)
     }}).collect();
 
     let from_str_lower: Vec<_> = v.iter().map(|x| {
         let n = &x.variant.ident;
-        let d = n.to_string().to_lowercase();
+        let d = n.unraw().to_string().to_lowercase();
         quote! {
             #d => Some(#name::#n)
     }}).collect();
-- 
2.43.0


From 32a375cdd371376c699581d93cd5a9bb319180d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:19 +0000
Subject: [PATCH 12/18] fix: honour settings and types that are arguments of a
 macro

A setting given by a macro_rules argument arrives in an invisible group.
If another setting followed it in the same attribute it was silently
ignored, so the field landed on other bits; types, array sizes and
discriminants given that way were refused.
---
 packed_struct_codegen/src/lib.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/lib.rs b/packed_struct_codegen/src/lib.rs
index 0eece96..8e51fd9 100644
--- a/packed_struct_codegen/src/lib.rs
+++ b/packed_struct_codegen/src/lib.rs
@@ -8,7 +8,7 @@ extern crate syn;
 #[macro_use]
 extern crate quote;
 
-use proc_macro::TokenStream;
+use proc_macro::{Delimiter, Group, TokenStream, TokenTree};
 use syn::{DeriveInput, parse_macro_input};
 
 mod pack;
@@ -25,6 +25,7 @@ mod utils_syn;
 /// The derive macro that generates the packing and unpacking code for your structure.
 #[proc_macro_derive(PackedStruct, attributes(packed_struct, packed_field))]
 pub fn derive_packable_bytes(tokens: TokenStream) -> TokenStream {
+    let tokens = without_invisible_groups(tokens);
     let input = parse_macro_input!(tokens as DeriveInput);
     
     let parsed = match pack_parse::parse_struct(&input) {
@@ -85,7 +86,25 @@ pub fn derive_primitive_i64(input: TokenStream) -> TokenStream {
     derive_primitive(input, Some(syn::parse_str::<syn::Type>("i64").unwrap()))
 }
 
+/// The arguments of a `macro_rules` macro arrive in groups without delimiters. Only their contents matter.
+fn without_invisible_groups(tokens: TokenStream) -> TokenStream {
+    tokens.into_iter().flat_map(|token| match token {
+        TokenTree::Group(group) => {
+            let contents = without_invisible_groups(group.stream());
+            if group.delimiter() == Delimiter::None {
+                contents
+            } else {
+                let mut visible = Group::new(group.delimiter(), contents);
+                visible.set_span(group.span());
+                TokenTree::Group(visible).into()
+            }
+        },
+        token => token.into()
+    }).collect()
+}
+
 fn derive_primitive(input: TokenStream, ty: Option<syn::Type>) -> TokenStream {
+    let input = without_invisible_groups(input);
     let input = parse_macro_input!(input as DeriveInput);
 
     primitive_enum::derive(&input, ty)
-- 
2.43.0


From 29e2a301d3ab768e9061df9b1c52c0f44249e31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:46 +0000
Subject: [PATCH 13/18] fix: call trait methods by their path in generated code

Types with methods of their own called pack, unpack, to_primitive or
from_primitive, and traits of the user's with such methods, made the
derived code ambiguous or were called instead of the library's.
---
 packed_struct_codegen/src/pack_codegen.rs      | 14 ++++++--------
 packed_struct_codegen/src/pack_codegen_docs.rs |  6 ++----
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/packed_struct_codegen/src/pack_codegen.rs b/packed_struct_codegen/src/pack_codegen.rs
index 88c235c..584d447 100644
--- a/packed_struct_codegen/src/pack_codegen.rs
+++ b/packed_struct_codegen/src/pack_codegen.rs
@@ -268,9 +268,7 @@ fn pack_field(name: &dyn quote::ToTokens, field: &FieldRegular) -> proc_macro2::
             SerializationWrapper::PrimitiveEnum => {
                 output = quote! {
                     {
-                        use ::packed_struct::PrimitiveEnum;
-
-                        let primitive_integer = { #output }.to_primitive();
+                        let primitive_integer = ::packed_struct::PrimitiveEnum::to_primitive(& #output);
                         primitive_integer
                     }
                 };
@@ -302,7 +300,7 @@ fn pack_field(name: &dyn quote::ToTokens, field: &FieldRegular) -> proc_macro2::
 
     quote! {
         {
-            { & #output }.pack()?
+            ::packed_struct::PackedStruct::pack({ & #output })?
         }
     }
 }
@@ -322,7 +320,7 @@ fn unpack_field(field: &FieldRegular) -> syn::Result<proc_macro2::TokenStream> {
                     use ::packed_struct::types::*;
                     use ::packed_struct::types::bits::*;
 
-                    let res: #result_ty <#endian <_, _, #integer >, PackingError> = <#endian <_, _, _>>::unpack(& #unpack );
+                    let res: #result_ty <#endian <_, _, #integer >, PackingError> = <#endian <_, _, _> as ::packed_struct::PackedStruct>::unpack(& #unpack );
                     let unpacked = res?;
                     **unpacked
                 };
@@ -336,7 +334,7 @@ fn unpack_field(field: &FieldRegular) -> syn::Result<proc_macro2::TokenStream> {
                     use ::packed_struct::PrimitiveEnum;
 
                     let primitive_integer: <#ty as PrimitiveEnum>::Primitive = { #unpack };
-                    let r = <#ty>::from_primitive(primitive_integer).ok_or(PackingError::InvalidValue);
+                    let r = <#ty as PrimitiveEnum>::from_primitive(primitive_integer).ok_or(PackingError::InvalidValue);
                     r?
                 };
             },
@@ -347,7 +345,7 @@ fn unpack_field(field: &FieldRegular) -> syn::Result<proc_macro2::TokenStream> {
                     use ::packed_struct::types::*;
                     use ::packed_struct::types::bits::*;
 
-                    let res: #result_ty <#endian <_, _, #integer_ty >, PackingError> = <#endian <_, _, #integer_ty >>::unpack(& #unpack );
+                    let res: #result_ty <#endian <_, _, #integer_ty >, PackingError> = <#endian <_, _, #integer_ty > as ::packed_struct::PackedStruct>::unpack(& #unpack );
                     let unpacked = res?;
                     *unpacked
                 };
@@ -355,7 +353,7 @@ fn unpack_field(field: &FieldRegular) -> syn::Result<proc_macro2::TokenStream> {
             (None, None) => {
                 let ty = &field.ty;
                 unpack = quote! {
-                    <#ty>::unpack(& #unpack)?
+                    <#ty as ::packed_struct::PackedStruct>::unpack(& #unpack)?
                 };
             },
             (_, _) => {
diff --git a/packed_struct_codegen/src/pack_codegen_docs.rs b/packed_struct_codegen/src/pack_codegen_docs.rs
index 2be8b7e..9fac808 100644
--- a/packed_struct_codegen/src/pack_codegen_docs.rs
+++ b/packed_struct_codegen/src/pack_codegen_docs.rs
@@ -56,14 +56,12 @@ pub fn struct_runtime_formatter(parsed: &PackStruct) -> syn::Result<proc_macro2:
         #[allow(unused_imports)]
         impl #impl_generics ::packed_struct::debug_fmt::PackedStructDebug for #name #ty_generics #where_clause {
             fn fmt_fields(&self, fmt: &mut #stdlib_prefix::fmt::Formatter) -> #result_ty <(), #stdlib_prefix::fmt::Error> {
-                use ::packed_struct::PackedStruct;
-                
                 fn debug_fields(src: &#name) -> [::packed_struct::debug_fmt::DebugBitField<'static>; #num_fields] {
                     [#(#debug_fields),*]
                 }
 
                 let fields = debug_fields(self);
-                let packed: [u8; #num_bytes] = self.pack()?;
+                let packed: [u8; #num_bytes] = ::packed_struct::PackedStruct::pack(self)?;
                 ::packed_struct::debug_fmt::packable_fmt_fields(fmt, &packed, &fields)
             }
 
@@ -77,7 +75,7 @@ pub fn struct_runtime_formatter(parsed: &PackStruct) -> syn::Result<proc_macro2:
             #[allow(unused_imports)]
             fn fmt(&self, f: &mut #stdlib_prefix::fmt::Formatter) -> #stdlib_prefix::fmt::Result {                
                 let display = ::packed_struct::debug_fmt::PackedStructDisplay::new(self);
-                display.fmt(f)
+                #stdlib_prefix::fmt::Display::fmt(&display, f)
             }
         }
     };
-- 
2.43.0


From 96ade7d805b0d8628b0e4c996ba0f88652d28370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:29 +0000
Subject: [PATCH 14/18] fix: refuse discriminants that do not fit into the
 named backing type

PrimitiveEnum_u8 accepted X = 256, which to_primitive() turned into 0.
---
 packed_struct_codegen/src/primitive_enum.rs | 24 +++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/packed_struct_codegen/src/primitive_enum.rs b/packed_struct_codegen/src/primitive_enum.rs
index c8bebc3..b5404bc 100644
--- a/packed_struct_codegen/src/primitive_enum.rs
+++ b/packed_struct_codegen/src/primitive_enum.rs
@@ -102,6 +102,15 @@ pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::
 
     let prim_type = prim_type.expect("Unable to detect the primitive type for this enum.");
 
+    if let Some((min, max)) = primitive_range(&prim_type) {
+        for d in &v {
+            let n = if d.negative { -(d.discriminant as i128) } else { d.discriminant as i128 };
+            if n < min || n > max {
+                return Err(syn::Error::new(d.variant.span(), format!("The discriminant {} doesn't fit into {}.", n, quote! { #prim_type })));
+            }
+        }
+    }
+
     let mut str_format = {
         let to_display_str = to_display_str.clone();
         let all_variants = all_variants.clone();
@@ -182,6 +191,21 @@ pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::
     Ok(q)
 }
 
+/// The smallest and the largest value of an integer type.
+fn primitive_range(ty: &syn::Type) -> Option<(i128, i128)> {
+    match quote! { #ty }.to_string().as_str() {
+        "u8" => Some((<u8>::min_value() as i128, <u8>::max_value() as i128)),
+        "u16" => Some((<u16>::min_value() as i128, <u16>::max_value() as i128)),
+        "u32" => Some((<u32>::min_value() as i128, <u32>::max_value() as i128)),
+        "u64" => Some((<u64>::min_value() as i128, <u64>::max_value() as i128)),
+        "i8" => Some((<i8>::min_value() as i128, <i8>::max_value() as i128)),
+        "i16" => Some((<i16>::min_value() as i128, <i16>::max_value() as i128)),
+        "i32" => Some((<i32>::min_value() as i128, <i32>::max_value() as i128)),
+        "i64" => Some((<i64>::min_value() as i128, <i64>::max_value() as i128)),
+        _ => None
+    }
+}
+
 struct Variant {
     variant: syn::Variant,
     discriminant: u64,
-- 
2.43.0


From c83b95cd15ecc3582850690f6f8203991a8b4f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:35 +0000
Subject: [PATCH 15/18] fix: treat a discriminant of minus zero as zero

It was taken as negative: a variant without a discriminant after it overflowed
while expanding, and the detected backing type was a signed one.
---
 packed_struct_codegen/src/primitive_enum.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/primitive_enum.rs b/packed_struct_codegen/src/primitive_enum.rs
index b5404bc..a9dad75 100644
--- a/packed_struct_codegen/src/primitive_enum.rs
+++ b/packed_struct_codegen/src/primitive_enum.rs
@@ -267,7 +267,9 @@ fn get_unitary_enum(input: &syn::DeriveInput) -> syn::Result<Vec<Variant>> {
 
                 match **expr {
                     syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(ref lit_int), .. }) => {
-                        (lit_int.base10_parse()?, true, lit_int.suffix().into())
+                        let n = lit_int.base10_parse()?;
+                        // minus zero is not a negative value
+                        (n, n != 0, lit_int.suffix().into())
                     },
                     _ => return Err(syn::Error::new(expr.span(), "Unsupported enum const expr (negated)"))
                 }
-- 
2.43.0


From 8c3f84397ae1507c798712d4cc9aa4828dded547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:41 +0000
Subject: [PATCH 16/18] fix: refuse positions and sizes that are not numbers

They were silently ignored, so the field was placed as if it had no position.
---
 packed_struct_codegen/src/pack_parse.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index ab5e9c5..7074ae5 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -343,10 +343,10 @@ pub fn parse_num(s: &str) -> Result<usize, String> {
     let s = s.trim();
 
     let n: usize = if s.starts_with("0x") || s.starts_with("0X") {
-        usize::from_str_radix(&s[2..], 16).map_err(|e| { format!("Invalid hex number: {:?}, parse error: {:?}", s, e) })
+        usize::from_str_radix(&s[2..], 16).unwrap_or_else(|e| panic!("Invalid hex number: {:?}, parse error: {:?}", s, e))
     } else {
-        s.parse().map_err(|e| format!("Invalid decimal number: {:?}, parse error: {:?}", s, e))
-    }?;
+        s.parse().unwrap_or_else(|e| panic!("Invalid decimal number: {:?}, parse error: {:?}", s, e))
+    };
 
     // Sizes and positions get multiplied and added, which must not wrap around.
     if n > (u32::MAX / 8) as usize {
-- 
2.43.0


From 3aac12d9ef75d375d86f32b66feda8b4877e6038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:00 +0000
Subject: [PATCH 17/18] fix: read the width of Bits<..> types properly

It was the first digits in the text of the type: Bits<{4+1}> counted as 4 bits,
Bits<W9> as 9 whatever W9 is, Bits<0x4> as 0, so automatically sized fields lost bits.
---
 packed_struct_codegen/src/pack_parse.rs | 49 +++++++++++++++++--------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index 7074ae5..a57465f 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -87,6 +87,36 @@ impl IntegerEndianness {
 }
 
 
+/// The number of bits in a `Bits<4>` type. Expressions and named constants can't be evaluated here.
+fn get_bits_type_width(ty: &syn::Type) -> Option<usize> {
+    fn int_val(expr: &syn::Expr) -> Option<usize> {
+        match expr {
+            syn::Expr::Paren(paren) => int_val(&paren.expr),
+            syn::Expr::Block(block) => match block.block.stmts.as_slice() {
+                [syn::Stmt::Expr(expr, None)] => int_val(expr),
+                _ => None
+            },
+            expr => get_expr_int_val(expr).ok()
+        }
+    }
+
+    match ty {
+        syn::Type::Paren(paren) => get_bits_type_width(&paren.elem),
+        syn::Type::Path(path) => {
+            let segment = path.path.segments.last().filter(|s| s.ident == "Bits")?;
+            match segment.arguments {
+                syn::PathArguments::AngleBracketed(ref args) => args.args.iter().find_map(|arg| match arg {
+                    syn::GenericArgument::Const(expr) => int_val(expr),
+                    _ => None
+                }),
+                _ => None
+            }
+        },
+        _ => None
+    }
+}
+
+
 fn get_builtin_type_bit_width(p: &syn::PathSegment) -> syn::Result<Option<usize>> {
     match p.ident.to_string().as_str() {
         "bool" => Ok(Some(1)),
@@ -99,22 +129,9 @@ fn get_builtin_type_bit_width(p: &syn::PathSegment) -> syn::Result<Option<usize>
             match p.arguments {
                 ::syn::PathArguments::AngleBracketed(ref args) => {
                     for t in &args.args {
-                        if let syn::GenericArgument::Type(ty) = t {                            
-                            let ty_str = tokens_to_string(ty);                            
-                            let p = " Bits ";
-                            if let Some(bits_pos) = ty_str.find(p) {
-                                let ty_start = &ty_str[(bits_pos+p.len())..];                                
-                                let start = ty_start.find(|p: char| p.is_numeric());
-                                if let Some(start) = start {
-                                    let num_start = &ty_start[start..];                                    
-                                    let end = num_start.find(|p: char| !p.is_numeric());
-                                    if let Some(end) = end {
-                                        let num = &num_start[..end];
-                                        if let Ok(bits) = num.parse::<usize>() {
-                                            return Ok(Some(bits));
-                                        }
-                                    }
-                                }
+                        if let syn::GenericArgument::Type(ty) = t {
+                            if let Some(bits) = get_bits_type_width(ty) {
+                                return Ok(Some(bits));
                             }
                         }
                     }
-- 
2.43.0


From ef78779a0e572c5e725eae61c95f3e9878b0b5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:31 +0000
Subject: [PATCH 18/18] fix: refuse attributes and settings that cannot be read

A malformed #[packed_field(..)] list, or a setting whose value is not a string
(bits=3), was silently ignored, so the field was placed as if it had no position.
---
 packed_struct_codegen/src/pack_parse.rs | 29 +++++++++++--------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index a57465f..6f2fd13 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -23,24 +23,21 @@ pub fn parse_sub_attributes(attributes: &[syn::Attribute], main_attribute: &str,
         }
 
         if attr.path().is_ident(main_attribute) {
-            let nested = attr.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated);
-            let nested = if let Ok(nested) = nested {
-                nested
-            } else {
+            if let syn::Meta::Path(_) = attr.meta {
                 continue;
-            };
+            }
+
+            let nested = attr.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated)?;
             for meta in nested {
-                match meta {            
-                    syn::Meta::Path(_) => (),
-                    syn::Meta::List(_) => (),
-                    syn::Meta::NameValue(nv) => {
-                        if let (Some(key), syn::Expr::Lit(lit)) = (nv.path.get_ident(), &nv.value) {
-                            if let syn::Lit::Str(lit) = &lit.lit {
-                                r.push((key.to_string(), lit.value()));
-                            }
-                        }
-                    }
-                }
+                let setting = match &meta {
+                    syn::Meta::NameValue(nv) => match (nv.path.get_ident(), &nv.value) {
+                        (Some(key), syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(lit), .. })) => Some((key.to_string(), lit.value())),
+                        _ => None
+                    },
+                    _ => None
+                };
+
+                r.push(setting.ok_or_else(|| syn::Error::new(meta.span(), "Expected a setting with a string value: name=\"value\""))?);
             }
         }
     }
-- 
2.43.0

