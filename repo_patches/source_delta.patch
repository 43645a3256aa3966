From fe5b969bb4ffab182dd0c26f512d00efa6c76858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:44 +0000
Subject: [PATCH 01/25] fix: LengthData returns Incomplete instead of panicking
 on short input

---
 src/helpers.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/helpers.rs b/src/helpers.rs
index c0a8c9e..481c0b2 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -1,5 +1,6 @@
 use crate::traits::*;
 use core::marker::PhantomData;
+use nom::bytes::streaming::take;
 use nom::error::ParseError;
 use nom::{IResult, ToUsize};
 
@@ -24,17 +25,17 @@ where
 {
     fn parse(i: I) -> IResult<I, Self, E> {
         let (rem, length) = L::parse(i)?;
-        let (rem, data) = rem.take_split(length.to_usize());
+        let (rem, data) = take(length.to_usize())(rem)?;
         Ok((rem, LengthData::new(data)))
     }
     fn parse_be(i: I) -> IResult<I, Self, E> {
         let (rem, length) = L::parse_be(i)?;
-        let (rem, data) = rem.take_split(length.to_usize());
+        let (rem, data) = take(length.to_usize())(rem)?;
         Ok((rem, LengthData::new(data)))
     }
     fn parse_le(i: I) -> IResult<I, Self, E> {
         let (rem, length) = L::parse_le(i)?;
-        let (rem, data) = rem.take_split(length.to_usize());
+        let (rem, data) = take(length.to_usize())(rem)?;
         Ok((rem, LengthData::new(data)))
     }
 }
-- 
2.43.0


From a45a9946702b8b87968493af8b1bdb57e93d34b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:56 +0000
Subject: [PATCH 02/25] fix: field-level SetEndian applies to all following
 fields, as documented

---
 nom-derive-impl/src/structs.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index ce8d1e5..90b7297 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -443,6 +443,8 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
             // so the caller must check and add attributes
         }
     }
+    // a field-level SetEndian affects this field and all following fields of the same object
+    let saved_endianness = config.object_endianness;
     for (idx, field) in f.iter().enumerate() {
         let ident_str = if let Some(s) = field.ident.as_ref() {
             s.to_string()
@@ -451,6 +453,9 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
         };
         let meta_list = meta::parse_nom_attribute(&field.attrs)?;
         // eprintln!("meta_list: {:?}", meta_list);
+        if meta_list.iter().any(|m| m.is_type(MetaAttrType::SetEndian)) {
+            config.object_endianness = ParserEndianness::SetEndian;
+        }
         let mut p = get_field_parser(field, &meta_list, config)?;
 
         if config.complete {
@@ -477,6 +482,7 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
         let sp = StructParser::new(ident_str, item, pre, post);
         parsers.push(sp);
     }
+    config.object_endianness = saved_endianness;
     Ok(StructParserTree {
         empty,
         unnamed,
-- 
2.43.0


From d5afc43200e7eff30d3888357b9e9b4b7b80251c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:56 +0000
Subject: [PATCH 03/25] fix: Verify condition starting with a literal was used
 as a Map function

---
 nom-derive-impl/src/structs.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 90b7297..fa7c7d6 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -246,12 +246,6 @@ fn get_parser(
                         ));
                     }
                 };
-                // if meta.arg is string, parse content
-                let ts_arg = meta.arg().unwrap();
-                if let Some(TokenTree::Literal(_)) = ts_arg.clone().into_iter().next() {
-                    let ts_arg = syn::parse2::<Expr>(ts_arg.clone())?;
-                    return Ok(ParserExpr::Map(Box::new(expr), ts_arg.to_token_stream()));
-                }
                 let ts_arg = meta.arg().unwrap();
                 return Ok(ParserExpr::Verify(
                     Box::new(expr),
-- 
2.43.0


From 8ffd8238bbc760d92b209b83657e838d4d3e03f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:56 +0000
Subject: [PATCH 04/25] fix: moving the default enum variant last must not
 reorder other variants

---
 nom-derive-impl/src/gen/enums.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/gen/enums.rs b/nom-derive-impl/src/gen/enums.rs
index 217736a..8fac27c 100644
--- a/nom-derive-impl/src/gen/enums.rs
+++ b/nom-derive-impl/src/gen/enums.rs
@@ -213,8 +213,9 @@ impl GenEnum {
                 .expect("default case is handled but couldn't find index");
             let last_index = self.variants_defs.len() - 1;
             if pos != last_index {
-                // self.variants_defs.swap(pos, last_index);
-                variants_code.swap(pos, last_index);
+                // keep declaration order for all other variants
+                let default_code = variants_code.remove(pos);
+                variants_code.push(default_code);
             }
         }
         Ok((default_case_handled, variants_code))
-- 
2.43.0


From 008c6deeff4669c417695ac719bc43e64e6228b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:11 +0000
Subject: [PATCH 05/25] fix: parenthesize user expressions before integer casts

---
 nom-derive-impl/src/parsertree.rs | 4 ++--
 nom-derive-impl/src/structs.rs    | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/nom-derive-impl/src/parsertree.rs b/nom-derive-impl/src/parsertree.rs
index b0498f6..38b8faf 100644
--- a/nom-derive-impl/src/parsertree.rs
+++ b/nom-derive-impl/src/parsertree.rs
@@ -141,7 +141,7 @@ impl ToTokens for ParserExpr {
                 quote! { nom::combinator::cond(#c, #expr) }
             }
             ParserExpr::Count(expr, n) => {
-                quote! { nom::multi::count(#expr, #n as usize) }
+                quote! { nom::multi::count(#expr, (#n) as usize) }
             }
             ParserExpr::DbgDmp(expr, i) => {
                 let ident = format!("{}", i);
@@ -171,7 +171,7 @@ impl ToTokens for ParserExpr {
                 quote! { nom::bytes::streaming::tag(&#s[..]) }
             }
             ParserExpr::Take(s) => {
-                quote! { nom::bytes::streaming::take(#s as usize) }
+                quote! { nom::bytes::streaming::take((#s) as usize) }
             }
             ParserExpr::Value(ts) => {
                 quote! {
diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index fa7c7d6..dd7de80 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -277,7 +277,7 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
     quote! {
         let (#input, _) = {
             let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
-            let align = #align as usize;
+            let align = (#align) as usize;
             let align = ((align - (offset % align)) % align);
             nom::bytes::streaming::take(align)(#input)
         }?;
@@ -292,7 +292,7 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
         let #input = {
             let start = #orig_input.as_ptr() as usize;
             let pos = #input.as_ptr() as usize - start;
-            let offset = #offset as isize;
+            let offset = (#offset) as isize;
             let offset_u = offset.abs() as usize;
             let new_offset = if offset < 0 {
                 if offset_u > pos {
@@ -316,7 +316,7 @@ fn quote_move_abs(offset: &TokenStream, config: &Config) -> TokenStream {
     let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
     quote! {
         let #input = {
-            let offset = #offset as usize;
+            let offset = (#offset) as usize;
             if offset > #orig_input.len() {
                 return Err(nom::Err::Incomplete(nom::Needed::new(offset)));
             }
@@ -329,7 +329,7 @@ fn quote_skip(skip: &TokenStream, config: &Config) -> TokenStream {
     let input = syn::Ident::new(config.input_name(), skip.span());
     quote! {
         let (#input, _) = {
-            let skip = #skip as usize;
+            let skip = (#skip) as usize;
             nom::bytes::streaming::take(skip)(#input)
         }?;
     }
-- 
2.43.0


From 76df8ff33095a10e93297504016aa8dfaddc0df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:11 +0000
Subject: [PATCH 06/25] fix: alignment of 0 is an error instead of a division
 by zero panic

---
 nom-derive-impl/src/structs.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index dd7de80..a5f5fc3 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -278,6 +278,9 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
         let (#input, _) = {
             let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
             let align = (#align) as usize;
+            if align == 0 {
+                return Err(nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::Verify)));
+            }
             let align = ((align - (offset % align)) % align);
             nom::bytes::streaming::take(align)(#input)
         }?;
-- 
2.43.0


From bbe6a7cabd79941d6c9bb019d2c93dba8df4979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:11 +0000
Subject: [PATCH 07/25] fix: overflow panic on Move with the minimum offset

---
 nom-derive-impl/src/structs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index a5f5fc3..53ae511 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -296,7 +296,7 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
             let start = #orig_input.as_ptr() as usize;
             let pos = #input.as_ptr() as usize - start;
             let offset = (#offset) as isize;
-            let offset_u = offset.abs() as usize;
+            let offset_u = offset.unsigned_abs();
             let new_offset = if offset < 0 {
                 if offset_u > pos {
                     return Err(nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::TooLarge)));
-- 
2.43.0


From 869aae6e00b475e3ba50d8738f91aade787fbacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:37 +0000
Subject: [PATCH 08/25] fix: Debug attribute generated code that does not
 compile with nom 8 combinators

---
 nom-derive-impl/src/parsertree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/parsertree.rs b/nom-derive-impl/src/parsertree.rs
index 38b8faf..d13ccb8 100644
--- a/nom-derive-impl/src/parsertree.rs
+++ b/nom-derive-impl/src/parsertree.rs
@@ -145,7 +145,7 @@ impl ToTokens for ParserExpr {
             }
             ParserExpr::DbgDmp(expr, i) => {
                 let ident = format!("{}", i);
-                quote! { nom::error::dbg_dmp(#expr, #ident) }
+                quote! { nom::error::dbg_dmp(|__i__| nom::Parser::parse(&mut (#expr), __i__), #ident) }
             }
             ParserExpr::Into(expr) => {
                 quote! { nom::combinator::into(#expr) }
-- 
2.43.0


From abf3569bd0ac49eab6f846b63f4627de89b1630d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:20 +0000
Subject: [PATCH 09/25] fix: honour top-level Complete for fieldless enums and
 unit variants

---
 nom-derive-impl/src/enums.rs               | 7 ++++++-
 nom-derive-impl/src/gen/fieldless_enums.rs | 8 +++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/enums.rs b/nom-derive-impl/src/enums.rs
index fc489f4..575120e 100644
--- a/nom-derive-impl/src/enums.rs
+++ b/nom-derive-impl/src/enums.rs
@@ -32,7 +32,12 @@ pub(crate) fn parse_variant(
         for meta in &meta_list {
             if meta.attr_type == MetaAttrType::Parse {
                 let s = meta.arg().unwrap();
-                p = Some(ParserExpr::Raw(s.clone()));
+                let expr = ParserExpr::Raw(s.clone());
+                p = Some(if config.complete {
+                    expr.complete()
+                } else {
+                    expr
+                });
             }
         }
         let (pre, post) = get_pre_post_exec(&meta_list, config);
diff --git a/nom-derive-impl/src/gen/fieldless_enums.rs b/nom-derive-impl/src/gen/fieldless_enums.rs
index 4f3d92f..88990b2 100644
--- a/nom-derive-impl/src/gen/fieldless_enums.rs
+++ b/nom-derive-impl/src/gen/fieldless_enums.rs
@@ -75,7 +75,7 @@ impl Generator for GenFieldlessEnum {
         let tokens = quote! {
             let #input = #orig_input;
             #tl_pre
-            let (#input, selector) = #parser(#input)?;
+            let (#input, selector) = nom::Parser::parse(&mut (#parser), #input)?;
             let enum_def =
                 #(#variants_code else)*
             { return Err(nom::Err::Error(nom::error::make_error(#orig_input, nom::error::ErrorKind::Switch))); };
@@ -155,6 +155,12 @@ impl GenFieldlessEnum {
             }
         };
 
+        let repr_parser = if config.complete {
+            repr_parser.complete()
+        } else {
+            repr_parser
+        };
+
         let variants_code: Vec<_> = data_enum
             .variants
             .iter()
-- 
2.43.0


From 65f1a5a025cd40b66920127b7b9c7f8416a62571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:45 +0000
Subject: [PATCH 10/25] fix: generated code refers to core instead of std, so
 it works in no_std crates

---
 nom-derive-impl/src/gen/generator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/gen/generator.rs b/nom-derive-impl/src/gen/generator.rs
index f44e539..0bead90 100644
--- a/nom-derive-impl/src/gen/generator.rs
+++ b/nom-derive-impl/src/gen/generator.rs
@@ -105,7 +105,7 @@ pub(crate) trait Generator {
                     quote!(<#ident_e>),
                     quote! {where
                         #ident_e: nom_derive::nom::error::ParseError<&#lft [u8]>,
-                        #ident_e: std::fmt::Debug,
+                        #ident_e: core::fmt::Debug,
                     },
                 )
             } else {
@@ -313,7 +313,7 @@ pub(crate) fn gen_fn_decl(
                 #ident_e: nom_derive::nom::error::ParseError<&#lft [u8]>
             };
             fn_where_clause.predicates.push(dep);
-            let dep: WherePredicate = parse_quote! { #ident_e: std::fmt::Debug };
+            let dep: WherePredicate = parse_quote! { #ident_e: core::fmt::Debug };
             fn_where_clause.predicates.push(dep);
             // add error type to function generics
             fn_generics = Some(quote!(<#ident_e>));
-- 
2.43.0


From cf25b707460d28ee66e7ef48b6a12a4571951a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:45 +0000
Subject: [PATCH 11/25] fix: accept alternative patterns in string form of
 variant Selector

---
 nom-derive-impl/src/meta/attr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/meta/attr.rs b/nom-derive-impl/src/meta/attr.rs
index 863a1de..51a3c9a 100644
--- a/nom-derive-impl/src/meta/attr.rs
+++ b/nom-derive-impl/src/meta/attr.rs
@@ -304,7 +304,7 @@ struct PatternAndGuard {
 
 impl Parse for PatternAndGuard {
     fn parse(input: ParseStream) -> syn::Result<Self> {
-        let pat = Pat::parse_single(input)?;
+        let pat = Pat::parse_multi_with_leading_vert(input)?;
         let guard = if input.peek(Token![if]) {
             let tk_if: Token![if] = input.parse()?;
             let expr: syn::Expr = input.parse()?;
-- 
2.43.0


From cfcb4fb29754ed1a8a9aa6dcae0f2ae969d9cef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:45 +0000
Subject: [PATCH 12/25] fix: accept any Rust type in string form of top-level
 Selector

---
 nom-derive-impl/src/meta/attr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/meta/attr.rs b/nom-derive-impl/src/meta/attr.rs
index 51a3c9a..da83183 100644
--- a/nom-derive-impl/src/meta/attr.rs
+++ b/nom-derive-impl/src/meta/attr.rs
@@ -5,7 +5,7 @@ use quote::ToTokens;
 use syn::parse::{Parse, ParseStream};
 use syn::punctuated::Punctuated;
 use syn::spanned::Spanned;
-use syn::{token, Expr, ExprLit, FnArg, Ident, Lit, Meta, Pat, Stmt, Token};
+use syn::{token, Expr, ExprLit, FnArg, Ident, Lit, Meta, Pat, Stmt, Token, Type};
 
 #[derive(Clone, Copy, Debug, Eq, PartialEq)]
 pub enum MetaAttrType {
@@ -236,7 +236,9 @@ impl TryFrom<&'_ Meta> for MetaAttr {
                     quote! { #fields }
                 }
                 MetaAttrType::PreExec | MetaAttrType::PostExec => parse_meta_content::<Stmt>(meta)?,
-                MetaAttrType::Selector => parse_meta_content::<PatternAndGuard>(meta)?,
+                // pattern (for variants), or type (top-level)
+                MetaAttrType::Selector => parse_meta_content::<PatternAndGuard>(meta)
+                    .or_else(|e| parse_meta_content::<Type>(meta).map_err(|_| e))?,
                 _ => parse_meta_content::<Expr>(meta)?,
             };
             Some(token_stream)
-- 
2.43.0


From a48d29f977173ca2dc101fbc991df0e02dbe2c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:45 +0000
Subject: [PATCH 13/25] fix: Ignore on an array of Option, Vec or PhantomData
 used the element default

---
 nom-derive-impl/src/structs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 53ae511..e1f838c 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -117,6 +117,8 @@ pub(crate) fn get_type_first_ident(ty: &Type) -> Result<String> {
 fn get_type_default(ty: &Type) -> Result<ParserExpr> {
     let ident_s = get_type_first_ident(ty)?;
     let default = match ident_s.as_ref() {
+        // `ident_s` is the type of elements
+        _ if matches!(ty, Type::Array(_)) => quote! { <#ty>::default() },
         // "u8" | "u16" | "u32" | "u64" | "u128" | "i8" | "i16" | "i32" | "i64" | "i128" => {
         //     "0".to_string()
         // }
-- 
2.43.0


From 94a9697f8ad7b65b573b88b6af0c25f91ab19b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:42 +0000
Subject: [PATCH 14/25] fix: Align and Move expressions could not use fields
 named offset, start or pos

The user expression was evaluated after internal variables of the same
names were introduced, and silently used those instead of the fields.
---
 nom-derive-impl/src/structs.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index e1f838c..df08843 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -278,8 +278,9 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
     let orig_input = syn::Ident::new(config.orig_input_name(), align.span());
     quote! {
         let (#input, _) = {
-            let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
+            // evaluate the user expression first: it must not see the names defined below
             let align = (#align) as usize;
+            let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
             if align == 0 {
                 return Err(nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::Verify)));
             }
@@ -295,9 +296,10 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
     let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
     quote! {
         let #input = {
+            // evaluate the user expression first: it must not see the names defined below
+            let offset = (#offset) as isize;
             let start = #orig_input.as_ptr() as usize;
             let pos = #input.as_ptr() as usize - start;
-            let offset = (#offset) as isize;
             let offset_u = offset.unsigned_abs();
             let new_offset = if offset < 0 {
                 if offset_u > pos {
-- 
2.43.0


From cd46571baece04ef6641ccb849a9a51ef46f503e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 15/25] fix: derived selector enums needed nom::Parser in the
 caller's scope

---
 nom-derive-impl/src/gen/enums.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nom-derive-impl/src/gen/enums.rs b/nom-derive-impl/src/gen/enums.rs
index 8fac27c..bf98e17 100644
--- a/nom-derive-impl/src/gen/enums.rs
+++ b/nom-derive-impl/src/gen/enums.rs
@@ -75,6 +75,7 @@ impl Generator for GenEnum {
             quote! { _ => Err(nom::Err::Error(nom::error_position!(#input, nom::error::ErrorKind::Switch))) }
         };
         let tokens = quote! {
+            use nom::Parser;
             let #input = #orig_input;
             #tl_pre
             let (#input, enum_def) = match selector {
-- 
2.43.0


From 3519d2b6b287c944d47a5495105f99520473898c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:07:59 +0000
Subject: [PATCH 16/25] fix: field types given as macro_rules fragments ($t:ty)
 were rejected

---
 nom-derive-impl/src/structs.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index df08843..bfbcf07 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -65,8 +65,16 @@ fn get_type_parser(ty: &Type, meta_list: &[MetaAttr], config: &Config) -> Result
     }
 }
 
+/// Remove the invisible delimiters around a type given as a macro fragment (`$t:ty`)
+fn ungroup_type(ty: &Type) -> &Type {
+    match ty {
+        Type::Group(group) => ungroup_type(&group.elem),
+        _ => ty,
+    }
+}
+
 fn get_item_subtype_parser(ty: &Type, expected: &str, attr: &str) -> Result<TokenStream> {
-    if let Type::Path(typepath) = ty {
+    if let Type::Path(typepath) = ungroup_type(ty) {
         let path = &typepath.path;
         if path.segments.len() != 1 {
             return Err(Error::new(
@@ -107,6 +115,7 @@ pub(crate) fn get_type_first_ident(ty: &Type) -> Result<String> {
             Ok(ident_s)
         }
         Type::Array(typearray) => get_type_first_ident(&typearray.elem),
+        Type::Group(group) => get_type_first_ident(&group.elem),
         _ => Err(Error::new(
             ty.span(),
             "Nom-derive: could not get first path ident",
@@ -118,7 +127,7 @@ fn get_type_default(ty: &Type) -> Result<ParserExpr> {
     let ident_s = get_type_first_ident(ty)?;
     let default = match ident_s.as_ref() {
         // `ident_s` is the type of elements
-        _ if matches!(ty, Type::Array(_)) => quote! { <#ty>::default() },
+        _ if matches!(ungroup_type(ty), Type::Array(_)) => quote! { <#ty>::default() },
         // "u8" | "u16" | "u32" | "u64" | "u128" | "i8" | "i16" | "i32" | "i64" | "i128" => {
         //     "0".to_string()
         // }
-- 
2.43.0


From bf84fb216a068fde7ac4bdf68842cd1eb4f52f49 Mon Sep 17 00:00:00 2001
From: verif <v@localhost>
Date: Thu, 19 Nov 2026 02:08:18 +0000
Subject: [PATCH 17/25] fix: a Selector guard lost the grouping of macro_rules
 fragments (g * 2 became 1 + 1 * 2)

---
 nom-derive-impl/src/enums.rs     |  7 ++++---
 nom-derive-impl/src/gen/enums.rs | 26 ++++++++++++++++++++++----
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/nom-derive-impl/src/enums.rs b/nom-derive-impl/src/enums.rs
index 575120e..9c6c7c5 100644
--- a/nom-derive-impl/src/enums.rs
+++ b/nom-derive-impl/src/enums.rs
@@ -3,13 +3,14 @@ use crate::meta;
 use crate::meta::attr::{MetaAttr, MetaAttrType};
 use crate::parsertree::{ParserExpr, ParserTreeItem};
 use crate::structs::{get_pre_post_exec, parse_fields, StructParser, StructParserTree};
+use proc_macro2::TokenStream;
 use syn::spanned::Spanned;
 use syn::*;
 
 #[derive(Debug)]
 pub(crate) struct VariantParserTree {
     pub ident: syn::Ident,
-    pub selector_type: String,
+    pub selector_type: TokenStream,
     pub struct_def: StructParserTree,
 }
 
@@ -54,10 +55,10 @@ pub(crate) fn parse_variant(
     })
 }
 
-fn get_selector(meta_list: &[MetaAttr]) -> Option<String> {
+fn get_selector(meta_list: &[MetaAttr]) -> Option<TokenStream> {
     for meta in meta_list {
         if MetaAttrType::Selector == meta.attr_type {
-            return Some(meta.arg().unwrap().to_string());
+            return meta.arg().cloned();
         }
     }
     None
diff --git a/nom-derive-impl/src/gen/enums.rs b/nom-derive-impl/src/gen/enums.rs
index bf98e17..55a1b3a 100644
--- a/nom-derive-impl/src/gen/enums.rs
+++ b/nom-derive-impl/src/gen/enums.rs
@@ -1,6 +1,7 @@
 use proc_macro2::Ident;
 use proc_macro2::Span;
 use proc_macro2::TokenStream;
+use proc_macro2::{Punct, TokenTree};
 use syn::*;
 
 use crate::config::Config;
@@ -151,11 +152,10 @@ impl GenEnum {
             self.variants_defs
                 .iter()
                 .map(|def| {
-                    if def.selector_type == "_" {
+                    if def.selector_type.to_string() == "_" {
                         default_case_handled = true;
                     }
-                    let m: proc_macro2::TokenStream =
-                        def.selector_type.parse().expect("invalid selector value");
+                    let m = arm_pattern(&def.selector_type);
                     let variantname = &def.ident;
                     let (idents, parser_tokens): (Vec<_>, Vec<_>) = def
                         .struct_def
@@ -210,7 +210,7 @@ impl GenEnum {
             let pos = self
                 .variants_defs
                 .iter()
-                .position(|def| def.selector_type == "_")
+                .position(|def| def.selector_type.to_string() == "_")
                 .expect("default case is handled but couldn't find index");
             let last_index = self.variants_defs.len() - 1;
             if pos != last_index {
@@ -222,3 +222,21 @@ impl GenEnum {
         Ok((default_case_handled, variants_code))
     }
 }
+
+/// Tokens of the selector, to be used before `=>` in a match arm
+///
+/// The last token must not merge with the arrow (`1..` would become `1..=`)
+fn arm_pattern(selector: &TokenStream) -> TokenStream {
+    selector
+        .clone()
+        .into_iter()
+        .map(|tt| match tt {
+            TokenTree::Punct(p) => {
+                let mut punct = Punct::new(p.as_char(), p.spacing());
+                punct.set_span(p.span());
+                TokenTree::Punct(punct)
+            }
+            tt => tt,
+        })
+        .collect()
+}
-- 
2.43.0


From 3bc2db6849e9bf50f7f85623464541cada49a43a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:08:33 +0000
Subject: [PATCH 18/25] fix: positioning, ErrorIf and Exact did not find the
 input in definitions made by macro_rules

---
 nom-derive-impl/src/structs.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index bfbcf07..d91fb6e 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -283,8 +283,8 @@ fn get_field_parser(field: &Field, meta_list: &[MetaAttr], config: &Config) -> R
 }
 
 fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
-    let input = syn::Ident::new(config.input_name(), align.span());
-    let orig_input = syn::Ident::new(config.orig_input_name(), align.span());
+    let input = syn::Ident::new(config.input_name(), Span::call_site());
+    let orig_input = syn::Ident::new(config.orig_input_name(), Span::call_site());
     quote! {
         let (#input, _) = {
             // evaluate the user expression first: it must not see the names defined below
@@ -301,8 +301,8 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
 
 // like quote_skip, but offset is an isize
 fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
-    let input = syn::Ident::new(config.input_name(), offset.span());
-    let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
+    let input = syn::Ident::new(config.input_name(), Span::call_site());
+    let orig_input = syn::Ident::new(config.orig_input_name(), Span::call_site());
     quote! {
         let #input = {
             // evaluate the user expression first: it must not see the names defined below
@@ -328,8 +328,8 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
 
 // like quote_move, with absolute value as offset
 fn quote_move_abs(offset: &TokenStream, config: &Config) -> TokenStream {
-    let input = syn::Ident::new(config.input_name(), offset.span());
-    let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
+    let input = syn::Ident::new(config.input_name(), Span::call_site());
+    let orig_input = syn::Ident::new(config.orig_input_name(), Span::call_site());
     quote! {
         let #input = {
             let offset = (#offset) as usize;
@@ -342,7 +342,7 @@ fn quote_move_abs(offset: &TokenStream, config: &Config) -> TokenStream {
 }
 
 fn quote_skip(skip: &TokenStream, config: &Config) -> TokenStream {
-    let input = syn::Ident::new(config.input_name(), skip.span());
+    let input = syn::Ident::new(config.input_name(), Span::call_site());
     quote! {
         let (#input, _) = {
             let skip = (#skip) as usize;
@@ -352,7 +352,7 @@ fn quote_skip(skip: &TokenStream, config: &Config) -> TokenStream {
 }
 
 fn quote_error_if(cond: &TokenStream, config: &Config) -> TokenStream {
-    let input = syn::Ident::new(config.input_name(), cond.span());
+    let input = syn::Ident::new(config.input_name(), Span::call_site());
     quote! {
         if #cond {
             return Err(nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::Verify)));
@@ -410,7 +410,7 @@ pub(crate) fn get_pre_post_exec(
                 tk_pre.extend(qq);
             }
             MetaAttrType::Exact => {
-                let input = syn::Ident::new(config.input_name(), m.span());
+                let input = syn::Ident::new(config.input_name(), Span::call_site());
                 let cond = quote! { !#input.is_empty() };
                 let qq = quote_error_if(&cond, config);
                 tk_post.extend(qq);
-- 
2.43.0


From 54d9ef4028f957cbf99bdc7b8cf8d846447fc78d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:08:34 +0000
Subject: [PATCH 19/25] fix: PreExec, PostExec, ErrorIf and SetEndian lost the
 grouping of macro_rules fragments

---
 nom-derive-impl/src/structs.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index d91fb6e..4e8e076 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -369,57 +369,57 @@ pub(crate) fn get_pre_post_exec(
     for m in meta_list {
         match m.attr_type {
             MetaAttrType::PreExec => {
-                tk_pre.extend(m.arg().unwrap().clone());
+                m.arg().to_tokens(&mut tk_pre);
             }
             MetaAttrType::PostExec => {
-                tk_post.extend(m.arg().unwrap().clone());
+                m.arg().to_tokens(&mut tk_post);
             }
             MetaAttrType::AlignAfter => {
                 let align = m.arg().unwrap();
                 let qq = quote_align(align, config);
-                tk_post.extend(qq);
+                qq.to_tokens(&mut tk_post);
             }
             MetaAttrType::AlignBefore => {
                 let align = m.arg().unwrap();
                 let qq = quote_align(align, config);
-                tk_pre.extend(qq);
+                qq.to_tokens(&mut tk_pre);
             }
             MetaAttrType::SkipAfter => {
                 let skip = m.arg().unwrap();
                 let qq = quote_skip(skip, config);
-                tk_post.extend(qq);
+                qq.to_tokens(&mut tk_post);
             }
             MetaAttrType::SkipBefore => {
                 let skip = m.arg().unwrap();
                 let qq = quote_skip(skip, config);
-                tk_pre.extend(qq);
+                qq.to_tokens(&mut tk_pre);
             }
             MetaAttrType::Move => {
                 let offset = m.arg().unwrap();
                 let qq = quote_move(offset, config);
-                tk_pre.extend(qq);
+                qq.to_tokens(&mut tk_pre);
             }
             MetaAttrType::MoveAbs => {
                 let offset = m.arg().unwrap();
                 let qq = quote_move_abs(offset, config);
-                tk_pre.extend(qq);
+                qq.to_tokens(&mut tk_pre);
             }
             MetaAttrType::ErrorIf => {
                 let cond = m.arg().unwrap();
                 let qq = quote_error_if(cond, config);
-                tk_pre.extend(qq);
+                qq.to_tokens(&mut tk_pre);
             }
             MetaAttrType::Exact => {
                 let input = syn::Ident::new(config.input_name(), Span::call_site());
                 let cond = quote! { !#input.is_empty() };
                 let qq = quote_error_if(&cond, config);
-                tk_post.extend(qq);
+                qq.to_tokens(&mut tk_post);
             }
             MetaAttrType::SetEndian => {
                 let val = m.arg().unwrap();
                 let qq = quote! { let __endianness = #val; };
                 // config is updated in `get_parser`
-                tk_pre.extend(qq);
+                qq.to_tokens(&mut tk_pre);
             }
             _ => (),
         }
-- 
2.43.0


From 48e08eebf10150d43a5055e1f2a2a9a52febd924 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:09:00 +0000
Subject: [PATCH 20/25] fix: expressions passed through macro_rules could not
 refer to earlier fields

---
 nom-derive-impl/src/enums.rs       |  4 ++--
 nom-derive-impl/src/gen/enums.rs   |  7 +------
 nom-derive-impl/src/gen/structs.rs |  7 +------
 nom-derive-impl/src/structs.rs     | 15 ++++++++-------
 4 files changed, 12 insertions(+), 21 deletions(-)

diff --git a/nom-derive-impl/src/enums.rs b/nom-derive-impl/src/enums.rs
index 9c6c7c5..3bde0eb 100644
--- a/nom-derive-impl/src/enums.rs
+++ b/nom-derive-impl/src/enums.rs
@@ -3,7 +3,7 @@ use crate::meta;
 use crate::meta::attr::{MetaAttr, MetaAttrType};
 use crate::parsertree::{ParserExpr, ParserTreeItem};
 use crate::structs::{get_pre_post_exec, parse_fields, StructParser, StructParserTree};
-use proc_macro2::TokenStream;
+use proc_macro2::{Span, TokenStream};
 use syn::spanned::Spanned;
 use syn::*;
 
@@ -44,7 +44,7 @@ pub(crate) fn parse_variant(
         let (pre, post) = get_pre_post_exec(&meta_list, config);
         let p = p.unwrap_or(ParserExpr::Nop);
         let item = ParserTreeItem::new(Some(variant.ident.clone()), p);
-        let sp = StructParser::new("_".to_string(), item, pre, post);
+        let sp = StructParser::new(Ident::new("_", Span::call_site()), item, pre, post);
         struct_def.parsers.push(sp);
     }
     // discriminant ?
diff --git a/nom-derive-impl/src/gen/enums.rs b/nom-derive-impl/src/gen/enums.rs
index 55a1b3a..d6bb99e 100644
--- a/nom-derive-impl/src/gen/enums.rs
+++ b/nom-derive-impl/src/gen/enums.rs
@@ -162,12 +162,7 @@ impl GenEnum {
                         .parsers
                         .iter()
                         .map(|sp| {
-                            let id = if sp.name.starts_with("r#") {
-                                // raw identifier: r#type
-                                syn::Ident::new_raw(&sp.name[2..], Span::call_site())
-                            } else {
-                                syn::Ident::new(&sp.name, Span::call_site())
-                            };
+                            let id = sp.name.clone();
                             // set current endianness for functions that do not specify it
                             let item = sp.item.with_endianness(endianness);
                             (id, item)
diff --git a/nom-derive-impl/src/gen/structs.rs b/nom-derive-impl/src/gen/structs.rs
index 0eafc1a..306f35d 100644
--- a/nom-derive-impl/src/gen/structs.rs
+++ b/nom-derive-impl/src/gen/structs.rs
@@ -75,12 +75,7 @@ impl Generator for GenStruct {
             .parsers
             .iter()
             .map(|sp| {
-                let id = if sp.name.starts_with("r#") {
-                    // raw identifier: r#type
-                    syn::Ident::new_raw(&sp.name[2..], Span::call_site())
-                } else {
-                    syn::Ident::new(&sp.name, Span::call_site())
-                };
+                let id = sp.name.clone();
                 // set current endianness for functions that do not specify it
                 let item = sp.item.with_endianness(endianness);
                 (id, item)
diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 4e8e076..c00f92e 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -10,7 +10,8 @@ use syn::*;
 
 #[derive(Debug)]
 pub(crate) struct StructParser {
-    pub name: String,
+    /// variable bound to the parsed value (the field name, or `_0`, `_1`, ...)
+    pub name: Ident,
     pub item: ParserTreeItem,
     pub pre_exec: Option<TokenStream>,
     pub post_exec: Option<TokenStream>,
@@ -18,7 +19,7 @@ pub(crate) struct StructParser {
 
 impl StructParser {
     pub fn new(
-        name: String,
+        name: Ident,
         item: ParserTreeItem,
         pre_exec: Option<TokenStream>,
         post_exec: Option<TokenStream>,
@@ -456,10 +457,10 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
     // a field-level SetEndian affects this field and all following fields of the same object
     let saved_endianness = config.object_endianness;
     for (idx, field) in f.iter().enumerate() {
-        let ident_str = if let Some(s) = field.ident.as_ref() {
-            s.to_string()
-        } else {
-            format!("_{}", idx)
+        // keep the identifier of the field, not only its text: expressions must resolve to it
+        let name = match field.ident.as_ref() {
+            Some(ident) => ident.clone(),
+            None => Ident::new(&format!("_{}", idx), Span::call_site()),
         };
         let meta_list = meta::parse_nom_attribute(&field.attrs)?;
         // eprintln!("meta_list: {:?}", meta_list);
@@ -489,7 +490,7 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
         // add pre and post code (also takes care of alignment)
         let (pre, post) = get_pre_post_exec(&meta_list, config);
         let item = ParserTreeItem::new(field.ident.clone(), p);
-        let sp = StructParser::new(ident_str, item, pre, post);
+        let sp = StructParser::new(name, item, pre, post);
         parsers.push(sp);
     }
     config.object_endianness = saved_endianness;
-- 
2.43.0


From 69a13d1fe5e3dcfd632770ce0d88b14f6de4664a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:15:13 +0000
Subject: [PATCH 21/25] fix: Take lost the grouping of a macro_rules fragment
 after a literal (Take(2 - $n))

---
 nom-derive-impl/src/structs.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index c00f92e..88aff52 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -168,12 +168,6 @@ fn get_parser(
                 return Ok(ParserExpr::Tag(s.clone()));
             }
             MetaAttrType::Take => {
-                // if meta.arg is string, parse content
-                let ts = meta.arg().unwrap();
-                if let Some(TokenTree::Literal(_)) = ts.clone().into_iter().next() {
-                    let ts = syn::parse2::<Expr>(ts.clone())?;
-                    return Ok(ParserExpr::Take(ts.to_token_stream()));
-                }
                 let s = meta.arg().unwrap();
                 return Ok(ParserExpr::Take(s.clone()));
             }
-- 
2.43.0


From 112ba9ca0ed78a6240f9107e80792c6c2efa1aad Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:18:43 +0000
Subject: [PATCH 22/25] fix: lifetime parameters with bounds ('b: 'a) were
 rejected

---
 nom-derive-impl/src/gen/generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/gen/generator.rs b/nom-derive-impl/src/gen/generator.rs
index 0bead90..b58c29b 100644
--- a/nom-derive-impl/src/gen/generator.rs
+++ b/nom-derive-impl/src/gen/generator.rs
@@ -151,7 +151,7 @@ pub(crate) trait Generator {
         } else {
             parse_quote!(#where_clause)
         };
-        let lfts: Vec<_> = orig_generics.lifetimes().collect();
+        let lfts: Vec<_> = orig_generics.lifetimes().map(|l| &l.lifetime).collect();
         if !lfts.is_empty() {
             // input slice must outlive all lifetimes from Self
             let wh: WherePredicate = parse_quote! { #lft: #(#lfts)+* };
-- 
2.43.0


From 87f59f1366ae2d62217391ba4634dabef778fedb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:24:56 +0000
Subject: [PATCH 23/25] fix: Move and MoveAbs asked for more bytes than were
 missing

Incomplete carried the whole offset instead of the number of bytes after the
end of the input, so a streaming caller could wait for bytes that never come.
---
 nom-derive-impl/src/structs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 88aff52..00884d7 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -312,7 +312,7 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
                 pos - offset_u
             } else {
                 if pos + offset_u > #orig_input.len() {
-                    return Err(nom::Err::Incomplete(nom::Needed::new(offset_u)));
+                    return Err(nom::Err::Incomplete(nom::Needed::new(pos + offset_u - #orig_input.len())));
                 }
                 pos + offset_u
             };
@@ -329,7 +329,7 @@ fn quote_move_abs(offset: &TokenStream, config: &Config) -> TokenStream {
         let #input = {
             let offset = (#offset) as usize;
             if offset > #orig_input.len() {
-                return Err(nom::Err::Incomplete(nom::Needed::new(offset)));
+                return Err(nom::Err::Incomplete(nom::Needed::new(offset - #orig_input.len())));
             }
             &#orig_input[offset..]
         };
-- 
2.43.0


From f4e1ecf53adebe00fbcab07fbf5b92d47b4c8c78 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:26:54 +0000
Subject: [PATCH 24/25] fix: SetEndian(Endianness::Native) was little-endian on
 big-endian targets

---
 nom-derive-impl/src/structs.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 00884d7..7d6072d 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -412,7 +412,15 @@ pub(crate) fn get_pre_post_exec(
             }
             MetaAttrType::SetEndian => {
                 let val = m.arg().unwrap();
-                let qq = quote! { let __endianness = #val; };
+                // `Native` stands for the byte order of the target
+                let qq = quote! {
+                    let __endianness = match #val {
+                        nom::number::Endianness::Native if cfg!(target_endian = "big") => {
+                            nom::number::Endianness::Big
+                        }
+                        __endianness => __endianness,
+                    };
+                };
                 // config is updated in `get_parser`
                 qq.to_tokens(&mut tk_pre);
             }
-- 
2.43.0


From 69026d1e9f419a3c3711a16f7b5c2c4ca7902b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:02 +0000
Subject: [PATCH 25/25] fix: with several default variants in a selector enum,
 use the first one

The first `_` variant was moved behind all others, so that a second `_` variant took
every selector that no other pattern matched.
---
 nom-derive-impl/src/gen/enums.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/nom-derive-impl/src/gen/enums.rs b/nom-derive-impl/src/gen/enums.rs
index d6bb99e..114fb42 100644
--- a/nom-derive-impl/src/gen/enums.rs
+++ b/nom-derive-impl/src/gen/enums.rs
@@ -201,18 +201,19 @@ impl GenEnum {
                 .collect()
         };
         // if we have a default case, make sure it is the last entry
+        // (if there are several, the first one has to be used: the others must stay after it)
         if default_case_handled {
-            let pos = self
+            // keep declaration order for all other variants
+            let (default_code, other_code): (Vec<_>, Vec<_>) = self
                 .variants_defs
                 .iter()
-                .position(|def| def.selector_type.to_string() == "_")
-                .expect("default case is handled but couldn't find index");
-            let last_index = self.variants_defs.len() - 1;
-            if pos != last_index {
-                // keep declaration order for all other variants
-                let default_code = variants_code.remove(pos);
-                variants_code.push(default_code);
-            }
+                .zip(variants_code)
+                .partition(|(def, _)| def.selector_type.to_string() == "_");
+            variants_code = other_code
+                .into_iter()
+                .chain(default_code)
+                .map(|(_, code)| code)
+                .collect();
         }
         Ok((default_case_handled, variants_code))
     }
-- 
2.43.0

