From 5cabb6f26635e81e8c520318d4ff8a14153acdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 01/11] fix: accept raw identifiers in try_setter

`try_setter` on a field such as `r#type` made the derive panic with
'"try_r#type" is not a valid identifier'.
---
 derive_builder_core/src/setter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive_builder_core/src/setter.rs b/derive_builder_core/src/setter.rs
index 392221f..d8a399a 100644
--- a/derive_builder_core/src/setter.rs
+++ b/derive_builder_core/src/setter.rs
@@ -2,7 +2,7 @@
 use std::borrow::Cow;
 
 use proc_macro2::{Span, TokenStream};
-use quote::{ToTokens, TokenStreamExt};
+use quote::{format_ident, ToTokens, TokenStreamExt};
 
 use crate::{BuilderFieldType, BuilderPattern, Each};
 
@@ -149,7 +149,7 @@ impl<'a> ToTokens for Setter<'a> {
             if self.try_setter {
                 let try_ty_params =
                     quote!(<VALUE: #crate_root::export::core::convert::TryInto<#ty>>);
-                let try_ident = syn::Ident::new(&format!("try_{}", ident), Span::call_site());
+                let try_ident = format_ident!("try_{}", ident, span = Span::call_site());
 
                 let mut converted = quote! {converted};
                 if builder_field_is_option {
-- 
2.43.0


From b9c60412d3737107f81e61ac8e373b71567dc506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 02/11] fix: convert the item of an each(into) setter before
 touching the builder

If `Into::into` panicked, a field that had never been set was left holding an
empty collection, so a later build no longer reported it as missing or used
its default.
---
 derive_builder_core/src/setter.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/derive_builder_core/src/setter.rs b/derive_builder_core/src/setter.rs
index d8a399a..a36609e 100644
--- a/derive_builder_core/src/setter.rs
+++ b/derive_builder_core/src/setter.rs
@@ -191,16 +191,20 @@ impl<'a> ToTokens for Setter<'a> {
 
                 let ty_params: TokenStream;
                 let param_ty: TokenStream;
-                let into_item: TokenStream;
+                let convert_item: TokenStream;
 
                 if each.into {
                     ty_params = quote!(<VALUE, FROM_VALUE: #crate_root::export::core::convert::Into<VALUE>>);
                     param_ty = quote!(FROM_VALUE);
-                    into_item = quote!(#crate_root::export::core::convert::Into::into(item));
+                    // Convert before initializing the collection, so that the builder
+                    // is left alone if the conversion panics.
+                    convert_item = quote! {
+                        let item: VALUE = #crate_root::export::core::convert::Into::into(item);
+                    };
                 } else {
                     ty_params = quote!(<VALUE>);
                     param_ty = quote!(VALUE);
-                    into_item = quote!(item);
+                    convert_item = quote!();
                 }
 
                 tokens.append_all(quote!(
@@ -210,10 +214,11 @@ impl<'a> ToTokens for Setter<'a> {
                     where
                         #ty: #crate_root::export::core::default::Default + #crate_root::export::core::iter::Extend<VALUE>,
                     {
+                        #convert_item
                         let mut new = #self_into_return_ty;
                         new.#field_ident
                             .#get_initialized_collection
-                            .extend(#crate_root::export::core::option::Option::Some(#into_item));
+                            .extend(#crate_root::export::core::option::Option::Some(item));
                         new
                     }
                 ));
-- 
2.43.0


From 03e67355d20394ce7b2136083d754cf9f5d40577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:16 +0000
Subject: [PATCH 03/11] fix: reject unions with a diagnostic instead of a panic

---
 derive_builder_core/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/derive_builder_core/src/lib.rs b/derive_builder_core/src/lib.rs
index 6d2e71e..4467375 100644
--- a/derive_builder_core/src/lib.rs
+++ b/derive_builder_core/src/lib.rs
@@ -55,6 +55,16 @@ const DEFAULT_STRUCT_NAME: &str = "__default";
 
 /// Derive a builder for a struct
 pub fn builder_for_struct(ast: syn::DeriveInput) -> proc_macro2::TokenStream {
+    // `darling` assumes that it is never given a union.
+    if let syn::Data::Union(ref data) = ast.data {
+        return darling::Error::unsupported_shape_with_expected(
+            "union",
+            &"struct with named fields",
+        )
+        .with_span(&data.union_token)
+        .write_errors();
+    }
+
     let opts = match macro_options::Options::from_derive_input(&ast) {
         Ok(val) => val,
         Err(err) => {
-- 
2.43.0


From a149e6083fec3d8d2a5240304772afc01f6fcd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:16 +0000
Subject: [PATCH 04/11] fix: report malformed pass-through attributes instead
 of panicking

---
 .../src/macro_options/darling_opts.rs               | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index 3894b78..26f32dc 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -5,7 +5,8 @@ use crate::BuildMethod;
 
 use darling::util::{Flag, PathList, SpannedValue};
 use darling::{Error, FromMeta};
-use proc_macro2::Span;
+use proc_macro2::{Span, TokenStream};
+use syn::parse::Parser;
 use syn::{spanned::Spanned, Attribute, Generics, Ident, Meta, Path};
 
 use crate::{
@@ -484,11 +485,19 @@ fn unnest_from_one_attribute(attr: syn::Attribute) -> darling::Result<Attribute>
         Meta::NameValue(_) => Err(Error::unsupported_format("name-value").with_span(&meta)),
         Meta::List(list) => {
             let inner = list.tokens;
-            Ok(parse_quote_spanned!(original_span=> #pound [ #inner ]))
+            parse_outer_attribute(quote_spanned!(original_span=> #pound [ #inner ]))
         }
     }
 }
 
+/// Parse a single outer attribute; what was passed through may not be one.
+fn parse_outer_attribute(tokens: TokenStream) -> darling::Result<Attribute> {
+    let mut attrs = Attribute::parse_outer.parse2(tokens)?;
+    attrs
+        .pop()
+        .ok_or_else(|| Error::custom("expected an attribute"))
+}
+
 fn default_crate_root() -> Path {
     parse_quote!(::derive_builder)
 }
-- 
2.43.0


From 2683824f39efd4cdadbc53a1b01158a9f55615e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:16 +0000
Subject: [PATCH 05/11] fix: setter(custom = false) does not give a setter to a
 field without storage

---
 derive_builder_core/src/macro_options/darling_opts.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index 26f32dc..3957312 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -263,8 +263,8 @@ impl FieldLevelSetter {
     /// Get whether the setter should be emitted. The rules are the same as
     /// for `field_enabled`, except we only skip the setter if `setter(custom)` is present.
     pub fn setter_enabled(&self) -> Option<bool> {
-        if self.custom.is_some() {
-            return self.custom.map(|x| !x);
+        if self.custom == Some(true) {
+            return Some(false);
         }
 
         self.field_enabled()
-- 
2.43.0


From 3d225ecfe5ae16d3416435040b61ce7893f6be58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:38 +0000
Subject: [PATCH 06/11] fix: conflicts of vis with public or private point at
 the attribute

---
 .../src/macro_options/darling_opts.rs                | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index 3957312..8bb5d88 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -50,7 +50,7 @@ impl FromMeta for VisibilityAttr {
         struct VisibilityAttrInternal {
             public: Flag,
             private: Flag,
-            vis: Option<syn::Visibility>,
+            vis: Option<SpannedValue<syn::Visibility>>,
         }
 
         let VisibilityAttrInternal {
@@ -71,17 +71,21 @@ impl FromMeta for VisibilityAttr {
 
             if let Some(vis) = explicit {
                 conflicts.push(
-                    Error::custom("`public` and `vis` cannot be used together").with_span(&vis),
+                    Error::custom("`public` and `vis` cannot be used together")
+                        .with_span(&vis.span()),
                 );
             }
 
             conflicts.finish_with(Self::Public(public.span()))
         } else if let Some(vis) = explicit {
             if private.is_present() {
-                conflicts.push(Error::custom("`vis` and `private` cannot be used together"));
+                conflicts.push(
+                    Error::custom("`vis` and `private` cannot be used together")
+                        .with_span(&private.span()),
+                );
             }
 
-            conflicts.finish_with(Self::Explicit(vis))
+            conflicts.finish_with(Self::Explicit(vis.as_ref().clone()))
         } else if private.is_present() {
             conflicts.finish_with(Self::Private)
         } else {
-- 
2.43.0


From 71887f557cdb785bdd670b211b638b9023363012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:33 +0000
Subject: [PATCH 07/11] fix: a bare default that conflicts with a custom field
 points at the field

---
 derive_builder_core/src/macro_options/darling_opts.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index 8bb5d88..c17d58e 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -386,6 +386,12 @@ impl Field {
             ..
         } = &self
         {
+            // The word `default` has no span of its own, so point at the field instead.
+            let span = match field_default {
+                DefaultExpression::Explicit(_) => field_default.span(),
+                DefaultExpression::Trait => self.ident.span(),
+            };
+
             // `field.build` is stronger than `default`, as it contains both instructions on how to
             // deal with a missing value and conversions to do on the value during target type
             // construction.
@@ -394,7 +400,7 @@ impl Field {
                     darling::Error::custom(
                         r#"#[builder(default)] and #[builder(field(build="..."))] cannot be used together"#,
                     )
-                    .with_span(&field_default.span()),
+                    .with_span(&span),
                 );
             }
 
@@ -406,7 +412,7 @@ impl Field {
                     darling::Error::custom(
                         r#"#[builder(default)] and #[builder(field(ty="..."))] cannot be used together"#,
                     )
-                    .with_span(&field_default.span())
+                    .with_span(&span)
                 )
             }
         };
-- 
2.43.0


From 54d6505f5bbab215b021ec9f08a92fae9a1db9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:33 +0000
Subject: [PATCH 08/11] fix: an expression with unbalanced brackets is reported
 where it is written

---
 derive_builder_core/src/block.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/derive_builder_core/src/block.rs b/derive_builder_core/src/block.rs
index 0d53cba..c83363c 100644
--- a/derive_builder_core/src/block.rs
+++ b/derive_builder_core/src/block.rs
@@ -35,6 +35,10 @@ impl TryFrom<&'_ LitStr> for BlockContents {
         let mut block_str = s.value();
         block_str.insert(0, '{');
         block_str.push('}');
+        // What cannot even be split into tokens gives an error without a span.
+        block_str
+            .parse::<TokenStream>()
+            .map_err(|e| syn::Error::new(s.span(), e))?;
         LitStr::new(&block_str, s.span()).parse().map(Self)
     }
 }
-- 
2.43.0


From 5a72f835b2b8faab71f4d85f852c11500a1ec18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:15 +0000
Subject: [PATCH 09/11] fix: strip_option recognises an Option passed through a
 macro_rules type fragment

---
 derive_builder_core/src/setter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/derive_builder_core/src/setter.rs b/derive_builder_core/src/setter.rs
index a36609e..134a8cb 100644
--- a/derive_builder_core/src/setter.rs
+++ b/derive_builder_core/src/setter.rs
@@ -245,6 +245,8 @@ fn extract_type_from_option(ty: &syn::Type) -> Option<&syn::Type> {
     fn extract_type_path(ty: &syn::Type) -> Option<&Path> {
         match *ty {
             syn::Type::Path(ref typepath) if typepath.qself.is_none() => Some(&typepath.path),
+            // A type which a macro passed on as a `$t:ty` fragment comes in an invisible group.
+            syn::Type::Group(ref group) => extract_type_path(&group.elem),
             _ => None,
         }
     }
-- 
2.43.0


From bb40f0aa24916a173d08e5794f4996445f8aedee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:51 +0000
Subject: [PATCH 10/11] fix: a validate function named by a macro's caller no
 longer breaks the self of build

---
 derive_builder_core/src/build_method.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/derive_builder_core/src/build_method.rs b/derive_builder_core/src/build_method.rs
index 55150b4..937a787 100644
--- a/derive_builder_core/src/build_method.rs
+++ b/derive_builder_core/src/build_method.rs
@@ -88,7 +88,12 @@ impl<'a> ToTokens for BuildMethod<'a> {
         let validate_fn = self
             .validate_fn
             .as_ref()
-            .map(|vfn| quote_spanned!(vfn.span() => #vfn(&self)?;));
+            .map(|vfn| {
+                // Errors are shown at the function, but `self` is the one of this method, even if
+                // the function's name comes from the caller of a macro around the struct.
+                let span = Span::call_site().located_at(vfn.span());
+                quote_spanned!(span => #vfn(&self)?;)
+            });
         let error_ty = &self.error_ty;
 
         if self.enabled {
-- 
2.43.0


From 52e030dacb14514a57ab68625ac04c3835d65a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:28 +0000
Subject: [PATCH 11/11] fix: a crate root written as $crate keeps its crate in
 the conversion to a custom error

---
 derive_builder_core/src/change_span.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/derive_builder_core/src/change_span.rs b/derive_builder_core/src/change_span.rs
index 4800464..f7f1d79 100644
--- a/derive_builder_core/src/change_span.rs
+++ b/derive_builder_core/src/change_span.rs
@@ -19,6 +19,11 @@ pub(crate) fn change_span(tokens: TokenStream, span: Span) -> TokenStream {
                 new_group.set_span(span);
                 result.push(TokenTree::Group(new_group));
             }
+            TokenTree::Ident(ref ident) if *ident == "$crate" => {
+                // Which crate this is depends on the span it comes with; only its location can change.
+                token.set_span(token.span().located_at(span));
+                result.push(token);
+            }
             _ => {
                 token.set_span(span);
                 result.push(token);
-- 
2.43.0

