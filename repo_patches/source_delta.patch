From 526a8dfe85b616380fedc4397a3c243b3c8b9530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:50 +0000
Subject: [PATCH 01/14] fix: apply byte order, magic and pre_assert to types
 with a top-level map

The top-level big/little, magic and pre_assert directives were silently
ignored when the type also had map or try_map.
---
 binread_derive/src/codegen/read_options.rs    | 22 +++++++++++++++----
 .../src/codegen/read_options/struct.rs        | 10 +--------
 binread_derive/src/parser/top_level_attrs.rs  |  4 ++--
 3 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index ca61e22..8163dbe 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -20,16 +20,22 @@ pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
             Input::UnitOnlyEnum(e) => generate_unit_enum(input, e),
         },
         Map::Try(map) => {
+            let prelude = get_prelude(input);
             let map_err = get_map_err(POS);
             quote! {
+                #prelude
                 #READ_METHOD(#READER, #OPT, #ARGS).and_then(|value| {
                     #map(value)#map_err
                 })
             }
         }
-        Map::Map(map) => quote! {
-            #READ_METHOD(#READER, #OPT, #ARGS).map(#map)
-        },
+        Map::Map(map) => {
+            let prelude = get_prelude(input);
+            quote! {
+                #prelude
+                #READ_METHOD(#READER, #OPT, #ARGS).map(#map)
+            }
+        }
     };
 
     quote! {
@@ -90,7 +96,7 @@ impl<'input> PreludeGenerator<'input> {
 
     fn add_magic_pre_assertion(mut self) -> Self {
         let magic = get_magic(self.input.magic(), &OPT);
-        let pre_assertions = get_assertions(&self.input.pre_assertions());
+        let pre_assertions = get_assertions(self.input.pre_assertions());
         let head = self.out;
 
         self.out = quote! {
@@ -103,6 +109,14 @@ impl<'input> PreludeGenerator<'input> {
     }
 }
 
+fn get_prelude(input: &Input) -> TokenStream {
+    PreludeGenerator::new(input)
+        .add_imports()
+        .add_options()
+        .add_magic_pre_assertion()
+        .finish()
+}
+
 fn get_assertions(assertions: &[Assert]) -> impl Iterator<Item = TokenStream> + '_ {
     assertions.iter().map(
         |Assert {
diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index e1988bd..3f4f848 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -1,4 +1,4 @@
-use super::{debug_template, get_assertions, get_magic, PreludeGenerator, ReadOptionsGenerator};
+use super::{debug_template, get_assertions, get_magic, get_prelude, ReadOptionsGenerator};
 #[allow(clippy::wildcard_imports)]
 use crate::codegen::sanitization::*;
 use crate::parser::{Input, Map, PassedArgs, ReadMode, Struct, StructField};
@@ -416,14 +416,6 @@ fn get_passed_args(args: &PassedArgs) -> TokenStream {
     }
 }
 
-fn get_prelude(input: &Input) -> TokenStream {
-    PreludeGenerator::new(input)
-        .add_imports()
-        .add_options()
-        .add_magic_pre_assertion()
-        .finish()
-}
-
 fn generate_seek_after(field: &StructField) -> TokenStream {
     let handle_error = debug_template::handle_error();
     let pad_size_to = field.pad_size_to.as_ref().map(|pad| {
diff --git a/binread_derive/src/parser/top_level_attrs.rs b/binread_derive/src/parser/top_level_attrs.rs
index ec7f8a3..bd894d8 100644
--- a/binread_derive/src/parser/top_level_attrs.rs
+++ b/binread_derive/src/parser/top_level_attrs.rs
@@ -91,11 +91,11 @@ impl Input {
         }
     }
 
-    pub(crate) fn pre_assertions(&self) -> &Vec<Assert> {
+    pub(crate) fn pre_assertions(&self) -> &[Assert] {
         match self {
             Input::Struct(s) | Input::UnitStruct(s) => &s.pre_assertions,
             Input::Enum(e) => &e.pre_assertions,
-            Input::UnitOnlyEnum(_) => unimplemented!("`Input::pre_assert()` called on unit enum"),
+            Input::UnitOnlyEnum(_) => &[],
         }
     }
 }
-- 
2.43.0


From 2c63ab91147bc6cad39cdd27052a3a5abae56030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:51 +0000
Subject: [PATCH 02/14] fix: check the top-level magic of unit-only enums

It was silently ignored; the imports of a repr enum were not in scope.
---
 binread_derive/src/codegen/read_options/enum.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/binread_derive/src/codegen/read_options/enum.rs b/binread_derive/src/codegen/read_options/enum.rs
index a4e59d1..318614c 100644
--- a/binread_derive/src/codegen/read_options/enum.rs
+++ b/binread_derive/src/codegen/read_options/enum.rs
@@ -1,7 +1,6 @@
 use super::{
-    get_assertions,
+    get_assertions, get_prelude,
     r#struct::{generate_unit_struct, StructGenerator},
-    PreludeGenerator,
 };
 #[allow(clippy::wildcard_imports)]
 use crate::codegen::sanitization::*;
@@ -30,7 +29,7 @@ fn generate_unit_enum_repr(
         }
     });
 
-    let prelude = PreludeGenerator::new(input).add_options().finish();
+    let prelude = get_prelude(input);
 
     quote! {
         #prelude
@@ -48,10 +47,7 @@ fn generate_unit_enum_magic(
     en: &UnitOnlyEnum,
     variants: &[UnitEnumField],
 ) -> TokenStream {
-    let prelude = PreludeGenerator::new(input)
-        .add_imports()
-        .add_options()
-        .finish();
+    let prelude = get_prelude(input);
 
     let matches = variants.iter().filter_map(|field| {
         if let Some(magic) = &field.magic {
-- 
2.43.0


From 2eb64abaecbf661491515327fa4b91cbe2b6db65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:51 +0000
Subject: [PATCH 03/14] fix: honour pre_assert on the variants of repr enums

---
 binread_derive/src/codegen/read_options/enum.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options/enum.rs b/binread_derive/src/codegen/read_options/enum.rs
index 318614c..c99e457 100644
--- a/binread_derive/src/codegen/read_options/enum.rs
+++ b/binread_derive/src/codegen/read_options/enum.rs
@@ -22,8 +22,9 @@ fn generate_unit_enum_repr(
 ) -> TokenStream {
     let clauses = variants.iter().map(|variant| {
         let ident = &variant.ident;
+        let pre_assertions = variant.pre_assertions.iter().map(|assert| &assert.condition);
         quote! {
-            if #TEMP == Self::#ident as #repr {
+            if #TEMP == Self::#ident as #repr #(&& (#pre_assertions))* {
                 Ok(Self::#ident)
             }
         }
-- 
2.43.0


From d03c1ff0ac5e208456c585c99bbdbd0d0e71c781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:52 +0000
Subject: [PATCH 04/14] fix: check top-level asserts on unit variants and unit
 structs

A top-level assert is documented to be checked against every variant, but
was skipped for unit variants of data enums and for unit structs.
---
 binread_derive/src/codegen/read_options.rs        |  2 +-
 binread_derive/src/codegen/read_options/enum.rs   |  4 +++-
 binread_derive/src/codegen/read_options/struct.rs | 10 ++++++++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index 8163dbe..2f5276d 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -14,7 +14,7 @@ use syn::Ident;
 pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
     let inner = match input.map() {
         Map::None => match input {
-            Input::UnitStruct(_) => generate_unit_struct(input, None),
+            Input::UnitStruct(s) => generate_unit_struct(input, None, &s.assertions),
             Input::Struct(s) => generate_struct(ident, input, s),
             Input::Enum(e) => generate_data_enum(e),
             Input::UnitOnlyEnum(e) => generate_unit_enum(input, e),
diff --git a/binread_derive/src/codegen/read_options/enum.rs b/binread_derive/src/codegen/read_options/enum.rs
index c99e457..147ddc2 100644
--- a/binread_derive/src/codegen/read_options/enum.rs
+++ b/binread_derive/src/codegen/read_options/enum.rs
@@ -152,6 +152,8 @@ fn generate_variant_impl(en: &Enum, variant: &EnumVariant) -> TokenStream {
             .return_value(Some(ident))
             .finish(),
 
-        EnumVariant::Unit(options) => generate_unit_struct(&input, Some(&options.ident)),
+        EnumVariant::Unit(options) => {
+            generate_unit_struct(&input, Some(&options.ident), &en.assertions)
+        }
     }
 }
diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index 3f4f848..9fac351 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -1,16 +1,22 @@
 use super::{debug_template, get_assertions, get_magic, get_prelude, ReadOptionsGenerator};
 #[allow(clippy::wildcard_imports)]
 use crate::codegen::sanitization::*;
-use crate::parser::{Input, Map, PassedArgs, ReadMode, Struct, StructField};
+use crate::parser::{Assert, Input, Map, PassedArgs, ReadMode, Struct, StructField};
 use proc_macro2::TokenStream;
 use quote::quote;
 use syn::Ident;
 
-pub(super) fn generate_unit_struct(input: &Input, variant_ident: Option<&Ident>) -> TokenStream {
+pub(super) fn generate_unit_struct(
+    input: &Input,
+    variant_ident: Option<&Ident>,
+    assertions: &[Assert],
+) -> TokenStream {
     let prelude = get_prelude(input);
+    let assertions = get_assertions(assertions);
     let return_type = get_return_type(variant_ident);
     quote! {
         #prelude
+        #(#assertions)*
         Ok(#return_type)
     }
 }
-- 
2.43.0


From 776dde17440840612e87c8f64612160e2e92b75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:53 +0000
Subject: [PATCH 05/14] fix: restore the reader position when a try field fails

Arrays, tuples, vectors, strings and custom parsers can fail after having
moved the reader; the following fields were then read from there.
---
 binread_derive/src/codegen/read_options/struct.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index 9fac351..75e2886 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -362,7 +362,16 @@ impl<'field> FieldGenerator<'field> {
         } else {
             let result = self.out;
             self.out = if self.field.do_try {
-                quote! { #result.ok() }
+                quote! {{
+                    let #SAVED_POSITION = #POS_TRAIT::stream_pos(#READER)?;
+                    match #result {
+                        Ok(value) => Some(value),
+                        Err(_) => {
+                            #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#SAVED_POSITION))?;
+                            None
+                        }
+                    }
+                }}
             } else {
                 let handle_error = debug_template::handle_error();
                 quote! { #result#handle_error? }
-- 
2.43.0


From 3e3af44c443ae299c458703a9a7e104472d94c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:54 +0000
Subject: [PATCH 06/14] fix: return Error::Io when a try_map function returns
 an I/O error

As documented; it was wrapped into Error::Custom.
---
 binread/src/private.rs                     | 13 +++++++++++++
 binread_derive/src/codegen/read_options.rs |  7 +------
 binread_derive/src/codegen/sanitization.rs |  1 +
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/binread/src/private.rs b/binread/src/private.rs
index 4126656..04bd328 100644
--- a/binread/src/private.rs
+++ b/binread/src/private.rs
@@ -34,6 +34,19 @@ where
     }
 }
 
+// Converts the error of a `try_map` function: I/O errors are passed on as such,
+// anything else becomes a custom error.
+pub fn map_error<E>(pos: u64, error: E) -> Error
+where
+    E: core::any::Any + Sync + Send + 'static,
+{
+    let error: Box<dyn core::any::Any + Sync + Send> = Box::new(error);
+    match error.downcast::<io::Error>() {
+        Ok(error) => Error::Io(*error),
+        Err(err) => Error::Custom { pos, err },
+    }
+}
+
 // This validates the map function return value by trying to coerce it into
 // a function with the expected return type. If this is not done, the
 // compiler will emit the diagnostic on the `#[derive(BinRead)]` attribute
diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index 2f5276d..44970a5 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -157,12 +157,7 @@ fn get_magic(magic: &Magic, options_var: &impl ToTokens) -> Option<TokenStream>
 
 fn get_map_err(pos: IdentStr) -> TokenStream {
     quote! {
-        .map_err(|e| {
-            #BIN_ERROR::Custom {
-                pos: #pos,
-                err: Box::new(e) as _,
-            }
-        })
+        .map_err(|e| #MAP_ERROR(#pos, e))
     }
 }
 
diff --git a/binread_derive/src/codegen/sanitization.rs b/binread_derive/src/codegen/sanitization.rs
index aea3b77..853d045 100644
--- a/binread_derive/src/codegen/sanitization.rs
+++ b/binread_derive/src/codegen/sanitization.rs
@@ -50,6 +50,7 @@ ident_str! {
     pub(super) ASSERT_MAGIC = from_crate!(error::magic);
     pub(super) ASSERT = from_crate!(__private::assert);
     pub(super) ASSERT_ERROR_FN = from_crate!(__private::AssertErrorFn);
+    pub(super) MAP_ERROR = from_crate!(__private::map_error);
     pub(super) COERCE_FN = from_crate!(__private::coerce_fn);
     pub(super) TRY_AFTER_PARSE = from_crate!(__private::try_after_parse);
     pub(super) TEMP = "__binread_temp";
-- 
2.43.0


From aa7b39ce16aeb7b0512dd9b5bc0ab95b4639089a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:13 +0000
Subject: [PATCH 07/14] fix: forward after_parse through Box

---
 binread/src/binread_impls.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/binread/src/binread_impls.rs b/binread/src/binread_impls.rs
index 2a4876f..530cfb3 100644
--- a/binread/src/binread_impls.rs
+++ b/binread/src/binread_impls.rs
@@ -289,6 +289,18 @@ impl<T: BinRead> BinRead for Box<T> {
     ) -> BinResult<Self> {
         Ok(Box::new(T::read_options(reader, options, args)?))
     }
+
+    fn after_parse<R>(
+        &mut self,
+        reader: &mut R,
+        ro: &ReadOptions,
+        args: Self::Args,
+    ) -> BinResult<()>
+    where
+        R: Read + Seek,
+    {
+        (**self).after_parse(reader, ro, args)
+    }
 }
 
 impl<T: BinRead> BinRead for Option<T> {
-- 
2.43.0


From 1a72970cf9b46909809cbb9fe7b42d5cfd06bbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:13 +0000
Subject: [PATCH 08/14] fix: do not preallocate what a count claims in
 Punctuated

A count taken from the input panicked (capacity overflow) or aborted.
---
 binread/src/punctuated.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/binread/src/punctuated.rs b/binread/src/punctuated.rs
index bc27e50..d6e3d1e 100644
--- a/binread/src/punctuated.rs
+++ b/binread/src/punctuated.rs
@@ -66,8 +66,8 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
             None => panic!("Missing count for Punctuated"),
         };
 
-        let mut data = Vec::with_capacity(count);
-        let mut seperators = Vec::with_capacity(count.max(1) - 1);
+        let mut data = Vec::new();
+        let mut seperators = Vec::new();
 
         for i in 0..count {
             data.push(T::read_options(reader, &options, args)?);
@@ -92,8 +92,8 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
             None => panic!("Missing count for Punctuated"),
         };
 
-        let mut data = Vec::with_capacity(count);
-        let mut seperators = Vec::with_capacity(count);
+        let mut data = Vec::new();
+        let mut seperators = Vec::new();
 
         for _ in 0..count {
             data.push(T::read_options(reader, &options, args)?);
-- 
2.43.0


From 38ebc384c9bb0eacbef58b57a05a5403a51da30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:14 +0000
Subject: [PATCH 09/14] fix: do not preallocate what a count claims in
 read_bytes

---
 binread/src/helpers.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/binread/src/helpers.rs b/binread/src/helpers.rs
index 419414f..50b7d72 100644
--- a/binread/src/helpers.rs
+++ b/binread/src/helpers.rs
@@ -3,7 +3,7 @@ use crate::{
     BinRead, BinReaderExt, BinResult, ReadOptions,
 };
 #[cfg(not(feature = "std"))]
-use alloc::{vec, vec::Vec};
+use alloc::vec::Vec;
 
 /// A helper for more efficiently mass-reading bytes
 ///
@@ -30,8 +30,14 @@ pub fn read_bytes<R: Read + Seek>(
         Some(x) => x,
         None => panic!("Missing count for read_bytes"),
     };
-    let mut buf = vec![0; count];
-    reader.read_exact(&mut buf)?;
+    // The count may come from the input, so memory is only claimed for data that exists.
+    const CHUNK: usize = 0x1000;
+    let mut buf = Vec::new();
+    while buf.len() < count {
+        let start = buf.len();
+        buf.resize(start + CHUNK.min(count - start), 0);
+        reader.read_exact(&mut buf[start..])?;
+    }
 
     Ok(buf)
 }
-- 
2.43.0


From 69dc6740f9dd88a8d317b7aa6baf38e3c3fb904f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:15 +0000
Subject: [PATCH 10/14] fix: do not panic in NullString::to_string on invalid
 UTF-8

Convert lossily, as into_string and NullWideString do.
---
 binread/src/strings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binread/src/strings.rs b/binread/src/strings.rs
index e931961..b31066f 100644
--- a/binread/src/strings.rs
+++ b/binread/src/strings.rs
@@ -241,7 +241,7 @@ impl core::ops::Deref for NullWideString {
 
 impl ToString for NullString {
     fn to_string(&self) -> String {
-        core::str::from_utf8(&self).unwrap().to_string()
+        String::from_utf8_lossy(self).into_owned()
     }
 }
 
-- 
2.43.0


From 956e060af66a499d22a039298aa1252d326d88f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:15 +0000
Subject: [PATCH 11/14] fix: make seeks of the no_std Cursor behave like std

SeekFrom::End never moved the cursor and validated the wrong position, and
SeekFrom::Current overflowed for positions past i64::MAX.
---
 binread/src/io/cursor.rs | 41 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/binread/src/io/cursor.rs b/binread/src/io/cursor.rs
index c76fbc8..11b5162 100644
--- a/binread/src/io/cursor.rs
+++ b/binread/src/io/cursor.rs
@@ -51,33 +51,28 @@ impl<T: AsRef<[u8]>> Read for Cursor<T> {
 
 impl<T: AsRef<[u8]>> Seek for Cursor<T> {
     fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
-        match pos {
-            SeekFrom::Current(x) => {
-                if (self.pos as i64) + x < 0 {
-                    Err(Error::new(
-                        ErrorKind::InvalidInput,
-                        "invalid seek to a negative or overflowing position",
-                    ))
-                } else {
-                    self.pos = ((self.pos as i64) + x) as u64;
-                    Ok(self.pos)
-                }
-            }
+        let (base, offset) = match pos {
             SeekFrom::Start(x) => {
                 self.pos = x;
-                Ok(self.pos)
+                return Ok(self.pos);
             }
-            SeekFrom::End(x) => {
-                let end = self.inner.as_ref().len() as i64;
-                if (self.pos as i64) + end + x < 0 {
-                    Err(Error::new(
-                        ErrorKind::InvalidInput,
-                        "invalid seek to a negative or overflowing position",
-                    ))
-                } else {
-                    Ok(self.pos)
-                }
+            SeekFrom::Current(x) => (self.pos, x),
+            SeekFrom::End(x) => (self.inner.as_ref().len() as u64, x),
+        };
+        let new_pos = if offset >= 0 {
+            base.checked_add(offset as u64)
+        } else {
+            base.checked_sub(offset.wrapping_neg() as u64)
+        };
+        match new_pos {
+            Some(x) => {
+                self.pos = x;
+                Ok(self.pos)
             }
+            None => Err(Error::new(
+                ErrorKind::InvalidInput,
+                "invalid seek to a negative or overflowing position",
+            )),
         }
     }
 }
-- 
2.43.0


From 349f708cdaeb3f501bbffff902234638fcadbb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:16 +0000
Subject: [PATCH 12/14] fix: report a failing position query in debug_template
 builds instead of panicking

---
 binread/src/file_ptr.rs | 2 +-
 binread/src/strings.rs  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/binread/src/file_ptr.rs b/binread/src/file_ptr.rs
index a7e0aa5..a82a48a 100644
--- a/binread/src/file_ptr.rs
+++ b/binread/src/file_ptr.rs
@@ -84,7 +84,7 @@ impl<Ptr: BinRead<Args = ()> + IntoSeekFrom, BR: BinRead> BinRead for FilePtr<Pt
         let options = &{
             let mut options = *options;
 
-            let pos = reader.stream_pos().unwrap();
+            let pos = reader.stream_pos()?;
             let type_name = &core::any::type_name::<Ptr>();
             if let Some(name) = options.variable_name {
                 binary_template::write_named(
diff --git a/binread/src/strings.rs b/binread/src/strings.rs
index b31066f..e119a25 100644
--- a/binread/src/strings.rs
+++ b/binread/src/strings.rs
@@ -155,7 +155,7 @@ impl BinRead for NullWideString {
         #[cfg(feature = "debug_template")]
         let options = {
             let mut options = *options;
-            let pos = reader.stream_pos().unwrap();
+            let pos = reader.stream_pos()?;
 
             if !options.dont_output_to_template {
                 binary_template::write_named(
@@ -188,7 +188,7 @@ impl BinRead for NullString {
     ) -> BinResult<Self> {
         #[cfg(feature = "debug_template")]
         {
-            let pos = reader.stream_pos().unwrap();
+            let pos = reader.stream_pos()?;
 
             if !options.dont_output_to_template {
                 binary_template::write_named(
-- 
2.43.0


From 424f1b7212f6475961f2ab41049f512983392d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:24 +0000
Subject: [PATCH 13/14] fix: do not panic on an alignment of zero, align
 positions past i64::MAX

The alignment may come from the input.
---
 binread_derive/src/codegen/read_options/struct.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index 75e2886..b11570c 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -492,9 +492,13 @@ fn get_return_type(variant_ident: Option<&Ident>) -> TokenStream {
 fn map_align(align: &TokenStream) -> TokenStream {
     let handle_error = debug_template::handle_error();
     quote! {{
-        let align = (#align) as i64;
-        let pos = #POS_TRAIT::stream_pos(#READER)#handle_error? as i64;
-        #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current((align - (pos % align)) % align))#handle_error?;
+        let align = (#align) as u64;
+        let pos = #POS_TRAIT::stream_pos(#READER)#handle_error?;
+        // An alignment of zero means no alignment
+        let past = pos.checked_rem(align).unwrap_or(0);
+        if past != 0 {
+            #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current((align - past) as i64))#handle_error?;
+        }
     }}
 }
 
-- 
2.43.0


From 93582f3ba6e165798132a3b27915d4edb2325c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:24 +0000
Subject: [PATCH 14/14] fix: do not panic when a pad_size_to field ends before
 it starts

A custom parser may leave the reader behind its starting position.
---
 binread_derive/src/codegen/read_options/struct.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index b11570c..35b9909 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -436,9 +436,9 @@ fn generate_seek_after(field: &StructField) -> TokenStream {
     let pad_size_to = field.pad_size_to.as_ref().map(|pad| {
         quote! {{
             let pad = (#pad) as i64;
-            let size = (#POS_TRAIT::stream_pos(#READER)#handle_error? - #POS) as i64;
+            let size = #POS_TRAIT::stream_pos(#READER)#handle_error?.wrapping_sub(#POS) as i64;
             if size < pad {
-                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current(pad - size))#handle_error?;
+                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current(pad.saturating_sub(size)))#handle_error?;
             }
         }}
     });
-- 
2.43.0

