From 995b68d1efe3d1b36c65aada08c40eae375c17f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:00 +0000
Subject: [PATCH 01/20] fix: let the asterisk route match only the path `*`

The regex of `*` was not anchored, so any path containing an asterisk
also matched it. With another route matching such a path, the generated
code's overlap assertion panicked.
---
 derive/src/from_request/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index e882822..fa0f145 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -426,7 +426,7 @@ impl RoutePath {
         if path == "*" {
             return Self {
                 raw: path,
-                regex: Regex::new("\\*").unwrap(),
+                regex: Regex::new("^\\*$").unwrap(),
                 segments: Vec::new(),
                 placeholders: Vec::new(),
                 placeholders_sorted: Vec::new(),
-- 
2.43.0


From bbec5ad8c6366cf3e46e179bb26036b071a04cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:00 +0000
Subject: [PATCH 02/20] fix: accept the asterisk route after other routes

`find_overlap` only handled `*` as the first of the two paths, and hit
the assertion in `segments_fused` when it was the second one.
---
 derive/src/from_request/parse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index fa0f145..85eb8d7 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -505,6 +505,9 @@ impl RoutePath {
             } else {
                 return None;
             }
+        } else if other.segments.is_empty() {
+            // only other is "*"
+            return None;
         }
 
         let mut overlap = String::new();
-- 
2.43.0


From ea9da55f4957624c04ec94a1703cfb9bc2a79d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 03/20] fix: don't report an overlap between a placeholder and
 an empty segment

Placeholders only match non-empty segments, so eg. `/{id}` and `/` never
match the same path, but were rejected as overlapping.
---
 derive/src/from_request/parse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index 85eb8d7..8aa1e98 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -534,6 +534,11 @@ impl RoutePath {
                 }
 
                 (Placeholder(_), Literal(lit)) | (Literal(lit), Placeholder(_)) => {
+                    if lit.is_empty() {
+                        // Placeholders never match an empty segment
+                        return None;
+                    }
+
                     overlap.push('/');
                     overlap.push_str(&lit);
                 }
-- 
2.43.0


From d3d90fc6a615c4b98e2574c88f59c995d4f11ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:02 +0000
Subject: [PATCH 04/20] fix: don't require serde_urlencoded in crates using
 #[query_params]

The generated code named the `serde_urlencoded` crate directly, which
fails to compile unless the deriving crate depends on it. Reexport it like
the other crates used by the generated code.
---
 derive/src/from_request/mod.rs | 2 +-
 src/lib.rs                     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index e07c9a1..0b40711 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -725,7 +725,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
         quote! {
             // Parse query params
             let raw_query = request.uri().query().unwrap_or("");
-            let #variable = match serde_urlencoded::from_str::<#ty>(raw_query) {
+            let #variable = match hyperdrive::serde_urlencoded::from_str::<#ty>(raw_query) {
                 Ok(val) => val,
                 Err(e) => return Error::with_source(StatusCode::BAD_REQUEST, e).into_future(),
             };
diff --git a/src/lib.rs b/src/lib.rs
index 580f678..fda9220 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -165,7 +165,7 @@ pub use {futures, http, hyper, serde};
 // These are hidden because the user never actually interacts with them. They're
 // only used by the generated code internally.
 #[doc(hidden)]
-pub use {lazy_static::lazy_static, regex};
+pub use {lazy_static::lazy_static, regex, serde_urlencoded};
 
 use futures::{Future, IntoFuture};
 use std::sync::Arc;
-- 
2.43.0


From adc0b03283ddee2454e7ab68fa859437111c15f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:10 +0000
Subject: [PATCH 05/20] fix: don't choke on attributes that are not route
 attributes

The derive unwrapped `parse_meta()` on every attribute, so attributes of
other tools (eg. `#[allow(clippy::all)]`) and `#[context]` with a path or
generic type made it panic. Leave foreign attributes alone, and parse only
our own.
---
 derive/src/from_request/parse.rs | 65 +++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 21 deletions(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index 8aa1e98..aefb75f 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -20,9 +20,23 @@ fn our_attrs() -> impl Iterator<Item = &'static str> {
         .cloned()
 }
 
-/// Returns whether `name` is an attribute used by this custom derive.
-fn known_attr(name: &Ident) -> bool {
-    our_attrs().find(|s| name == s).is_some()
+/// Returns the name of `attr` if it is an attribute used by this custom derive.
+///
+/// Attributes belonging to anyone else must be ignored without parsing them.
+fn our_attr(attr: &Attribute) -> Option<&Ident> {
+    let path = &attr.path;
+    match path.segments.first().map(|pair| pair.into_value()) {
+        Some(segment) if path.leading_colon.is_none() && path.segments.len() == 1 => {
+            our_attrs().find(|s| segment.ident == s).map(|_| &segment.ident)
+        }
+        _ => None,
+    }
+}
+
+/// Parses the contents of one of our attributes.
+fn parse_attr(name: &Ident, attr: &Attribute) -> Meta {
+    attr.parse_meta()
+        .unwrap_or_else(|e| panic!("invalid syntax in `#[{}]` attribute: {}", name, e))
 }
 
 /// Returns whether `name` names an HTTP method attribute (lowercase only).
@@ -42,11 +56,14 @@ impl ItemData {
         let mut context = None;
 
         for attr in attrs {
-            let name = attr.parse_meta().unwrap().name();
+            let name = match our_attr(attr) {
+                Some(name) => name,
+                None => continue,
+            };
             if name == "context" {
                 let ty = syn::parse2(attr.tts.clone()).expect("#[context] must be given a type");
                 insert("#[context]", &mut context, ty);
-            } else if known_attr(&name) && !is_struct {
+            } else if !is_struct {
                 panic!(
                     "`#[{}]` is not valid on enums (did you mean to place it on a variant instead?)",
                     name
@@ -105,18 +122,23 @@ impl VariantData {
         // Collect all the route attributes on the variant
         let mut routes = Vec::new();
         for attr in ast.attrs {
-            let meta = attr.parse_meta().unwrap();
-            match &meta {
-                Meta::List(list) if is_method(&meta.name()) => {
-                    routes.push(Route::parse(
-                        meta.name(),
-                        &list.nested.iter().collect::<Vec<_>>(),
-                    ));
-                }
-                _ if known_attr(&meta.name()) && !is_struct => {
-                    panic!("`#[{}]` is not valid on enum variants", meta.name())
+            let name = match our_attr(attr) {
+                Some(name) => name,
+                None => continue,
+            };
+            if is_method(name) {
+                match parse_attr(name, attr) {
+                    Meta::List(list) => {
+                        routes.push(Route::parse(
+                            name.clone(),
+                            &list.nested.iter().collect::<Vec<_>>(),
+                        ));
+                    }
+                    _ if !is_struct => panic!("`#[{}]` is not valid on enum variants", name),
+                    _ => {}
                 }
-                _ => {}
+            } else if !is_struct {
+                panic!("`#[{}]` is not valid on enum variants", name)
             }
         }
 
@@ -184,7 +206,11 @@ impl VariantData {
             };
 
             for attr in &field.attrs {
-                let meta = attr.parse_meta().unwrap();
+                let name = match our_attr(attr) {
+                    Some(name) => name,
+                    None => continue,
+                };
+                let meta = parse_attr(name, attr);
                 match &meta {
                     Meta::Word(ident) if ident == "body" => {
                         if let Some(ident) = &field.ident {
@@ -225,10 +251,7 @@ impl VariantData {
                             FieldKind::Forward,
                         );
                     }
-                    _ if known_attr(&meta.name()) => {
-                        panic!("#[{}] is not valid on fields", meta.name());
-                    }
-                    _ => {}
+                    _ => panic!("#[{}] is not valid on fields", name),
                 }
             }
 
-- 
2.43.0


From 45699cff9699f7cc52edb1d36f94836281643e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 06/20] fix: reject malformed and misplaced attributes on
 structs

`#[get]`, `#[get = "/"]`, `#[body]` etc. on a struct were silently
ignored, which turned a struct with a `#[forward]` field into a catch-all.
Enum variants already rejected them.
---
 derive/src/from_request/parse.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index aefb75f..bd5fa4a 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -134,11 +134,13 @@ impl VariantData {
                             &list.nested.iter().collect::<Vec<_>>(),
                         ));
                     }
-                    _ if !is_struct => panic!("`#[{}]` is not valid on enum variants", name),
-                    _ => {}
+                    _ if is_struct => panic!("`#[{}]` must be given a path", name),
+                    _ => panic!("`#[{}]` is not valid on enum variants", name),
                 }
             } else if !is_struct {
                 panic!("`#[{}]` is not valid on enum variants", name)
+            } else if name != "context" {
+                panic!("`#[{}]` is not valid on structs", name)
             }
         }
 
-- 
2.43.0


From 06c1f1d007ac59c59986bf9489fb597a684c96e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:17 +0000
Subject: [PATCH 07/20] fix: support #[derive(RequestContext)] on generic types

The generated impls demanded eg. `T: AsRef<Self>` of every type parameter,
so the derive didn't compile on any generic type.
---
 derive/src/request_context.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/derive/src/request_context.rs b/derive/src/request_context.rs
index 12bbbb1..0146360 100644
--- a/derive/src/request_context.rs
+++ b/derive/src/request_context.rs
@@ -1,9 +1,12 @@
 use proc_macro2::TokenStream;
 use quote::{quote, ToTokens};
 use syn::{Attribute, Data, Index, Meta};
-use synstructure::Structure;
+use synstructure::{AddBounds, Structure};
+
+pub fn derive_request_context(mut s: Structure<'_>) -> TokenStream {
+    // None of the generated impls needs anything from type parameters or field types
+    s.add_bounds(AddBounds::None);
 
-pub fn derive_request_context(s: Structure<'_>) -> TokenStream {
     deny_attr("as_ref", &s.ast().attrs);
     let additional_impls = match &s.ast().data {
         Data::Struct(st) => {
-- 
2.43.0


From 347d4a4675049b1315ba0a77a2e28834e5eabd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:13 +0000
Subject: [PATCH 08/20] fix: ignore the fields of variants without a route

Variants without a route are never constructed, but tuple variants of that
kind made the derive panic, and for generic types their fields had to
implement `Guard`.
---
 derive/src/from_request/mod.rs   |  4 ++++
 derive/src/from_request/parse.rs | 30 ++++++++++++++++++++++++------
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index 0b40711..5e0b143 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -623,6 +623,10 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
                         ],
                     }
                 },
+                FieldKind::Ignored => Bounds {
+                    addl_ty_params: Vec::new(),
+                    impl_bounds: vec![quote!( #ty: ::std::marker::Send + 'static )],
+                },
                 FieldKind::Forward => Bounds {
                     addl_ty_params: Vec::new(),
                     impl_bounds: vec![
diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index bd5fa4a..4b38bae 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -100,6 +100,8 @@ pub struct VariantData {
     query_params_field: Option<Field>,
     guard_fields: Vec<Field>,
     path_segment_fields: Vec<Field>,
+    /// All fields of a variant that's never constructed.
+    ignored_fields: Vec<Field>,
 }
 
 /// Describes where a field is decoded from.
@@ -115,6 +117,8 @@ pub enum FieldKind {
     Forward,
     /// Field is decoded from request metadata using `Guard`.
     Guard,
+    /// Field is part of a variant that's never constructed.
+    Ignored,
 }
 
 impl VariantData {
@@ -262,15 +266,23 @@ impl VariantData {
             let field_kind = field_kind.unwrap_or(FieldKind::Guard);
 
             if field_kind == FieldKind::Guard {
-                guard_fields.push(
-                    field
-                        .ident
-                        .clone()
-                        .expect("#[derive(FromRequest)] requires named fields"),
-                );
+                match &field.ident {
+                    Some(ident) => guard_fields.push(ident.clone()),
+                    // We never construct variants without a route
+                    None if routes.is_empty() => {}
+                    None => panic!("#[derive(FromRequest)] requires named fields"),
+                }
             }
         }
 
+        let ignored_fields = if routes.is_empty() && forward_field.is_none() {
+            // We never construct this variant, so its fields aren't guards
+            guard_fields.clear();
+            ast.fields.iter().cloned().collect()
+        } else {
+            Vec::new()
+        };
+
         if body_field.is_some() && forward_field.is_some() {
             panic!("#[body] and #[forward] cannot be combined in the same variant/struct");
         }
@@ -303,6 +315,7 @@ impl VariantData {
             query_params_field: query_params_field.map(fld),
             guard_fields: guard_fields.into_iter().map(fld).collect(),
             path_segment_fields: path_segment_fields.into_iter().map(fld).collect(),
+            ignored_fields,
         }
     }
 
@@ -376,6 +389,11 @@ impl VariantData {
                     .as_ref()
                     .map(|fld| (fld, FieldKind::Forward)),
             )
+            .chain(
+                self.ignored_fields
+                    .iter()
+                    .map(|fld| (fld, FieldKind::Ignored)),
+            )
     }
 }
 
-- 
2.43.0


From 3732071a4cce3c2e3d66c7b24b3a034359a2b092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 09/20] fix: support raw identifiers as field names

The derive used the field names, including any `r#`, as part of the
identifiers of local variables, which panicked.
---
 derive/src/from_request/mod.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index 5e0b143..e20a915 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -685,7 +685,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
                     .iter()
                     .enumerate()
                     .map(|(i, field_name)| {
-                        let variable = Ident::new(&format!("fld_{}", field_name), Span::call_site());
+                        let variable = field_variable(field_name);
                         let capture = i + 1;
                         let ty = &field_by_name(field_name).ty;
                         quote! {
@@ -725,7 +725,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
 
     let query = if let Some(query_params_field) = data.query_params_field() {
         let ty = &field_by_name(&query_params_field).ty;
-        let variable = Ident::new(&format!("fld_{}", query_params_field), Span::call_site());
+        let variable = field_variable(query_params_field);
         quote! {
             // Parse query params
             let raw_query = request.uri().query().unwrap_or("");
@@ -743,12 +743,11 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
 
     // Construct the final value from the `fld_X` variables
     let construct = variant.construct(|field, index| {
-        let name = if let Some(ident) = &field.ident {
-            ident.to_string()
+        if let Some(ident) = &field.ident {
+            field_variable(ident)
         } else {
-            index.to_string()
-        };
-        Ident::new(&format!("fld_{}", name), Span::call_site())
+            Ident::new(&format!("fld_{}", index), Span::call_site())
+        }
     });
     let mut future = quote! {
         Ok(#construct).into_future()
@@ -757,7 +756,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
     // Read the body
     if let Some(body) = data.body_field() {
         let ty = &field_by_name(body).ty;
-        let var = Ident::new(&format!("fld_{}", body), Span::call_site());
+        let var = field_variable(body);
         future = quote! {
             <#ty as FromBody>::from_body(&request, body, context.as_ref())
                 .into_future()
@@ -768,7 +767,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
     // Forward to another `FromRequest` implementor (can not be combined with #[body])
     if let Some(forward) = data.forward_field() {
         let ty = &field_by_name(forward).ty;
-        let var = Ident::new(&format!("fld_{}", forward), Span::call_site());
+        let var = field_variable(forward);
         future = quote! {{
             <#ty as FromRequest>::from_request_and_body(&request, body, context)
                 .into_future()
@@ -785,7 +784,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
         .rev()
     {
         let ty = &field_by_name(&guard).ty;
-        let var = Ident::new(&format!("fld_{}", guard), Span::call_site());
+        let var = field_variable(&guard);
         future = quote! {
             <#ty as Guard>::from_request(&request, context.as_ref())
                 .into_future()
@@ -807,6 +806,14 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
     }}
 }
 
+/// Returns the name of the variable storing the value of the field `name`.
+fn field_variable(name: &Ident) -> Ident {
+    let name = name.to_string();
+    // `name` may be a raw identifier
+    let name = name.trim_start_matches("r#");
+    Ident::new(&format!("fld_{}", name), Span::call_site())
+}
+
 #[cfg(test)]
 mod tests {
     use super::derive_from_request;
-- 
2.43.0


From 0737997747abcea6af4f8ad5490d6cceb8d545e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:05 +0000
Subject: [PATCH 10/20] fix: allow a type parameter to be used by several guard
 or body fields

---
 derive/src/from_request/mod.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index e20a915..53fd4a7 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -518,9 +518,17 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
         ident
     };
 
-    let mut bounds: Bounds = variants
-        .iter()
-        .flat_map(|v| v.field_uses())
+    // The type parameters are determined by the field's type and kind. A second set of them for
+    // another field with the same type and kind would make the bounds ambiguous.
+    let mut field_uses: Vec<(&syn::Field, FieldKind)> = Vec::new();
+    for (field, kind) in variants.iter().flat_map(|v| v.field_uses()) {
+        if !field_uses.iter().any(|(f, k)| f.ty == field.ty && *k == kind) {
+            field_uses.push((field, kind));
+        }
+    }
+
+    let mut bounds: Bounds = field_uses
+        .into_iter()
         .map(|(field, field_kind)| {
             let ty = field.ty.clone();
             match field_kind {
-- 
2.43.0


From 5556dc701367d875d79a9f1daf5ec92fa06fe1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:51 +0000
Subject: [PATCH 11/20] fix: reject every malformed #[as_ref] attribute

---
 derive/src/request_context.rs | 39 +++++++++++++++++------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/derive/src/request_context.rs b/derive/src/request_context.rs
index 0146360..a69618d 100644
--- a/derive/src/request_context.rs
+++ b/derive/src/request_context.rs
@@ -15,25 +15,26 @@ pub fn derive_request_context(mut s: Structure<'_>) -> TokenStream {
                 let as_ref_count = field
                     .attrs
                     .iter()
-                    .filter(|attr| match attr.parse_meta() {
-                        Ok(ref meta) if meta.name() == "as_ref" => {
-                            if let Meta::Word(_) = meta {
-                                true
+                    .filter(|attr| {
+                        if !attr.path.is_ident("as_ref") {
+                            return false;
+                        }
+
+                        if let Ok(Meta::Word(_)) = attr.parse_meta() {
+                            true
+                        } else {
+                            if let Some(field) = &field.ident {
+                                panic!(
+                                    "invalid syntax for #[as_ref] attribute on field `{}`",
+                                    field
+                                );
                             } else {
-                                if let Some(field) = &field.ident {
-                                    panic!(
-                                        "invalid syntax for #[as_ref] attribute on field `{}`",
-                                        field
-                                    );
-                                } else {
-                                    panic!(
-                                        "invalid syntax for #[as_ref] attribute on field of type `{}`",
-                                        field.ty.clone().into_token_stream()
-                                    );
-                                }
+                                panic!(
+                                    "invalid syntax for #[as_ref] attribute on field of type `{}`",
+                                    field.ty.clone().into_token_stream()
+                                );
                             }
                         }
-                        _ => false,
                     })
                     .count();
 
@@ -122,10 +123,8 @@ where
     I: IntoIterator<Item = &'a Attribute>,
 {
     for attr in attrs {
-        if let Ok(meta) = attr.parse_meta() {
-            if meta.name() == name {
-                panic!("#[{}] attribute is only allowed on struct fields", name);
-            }
+        if attr.path.is_ident(name) {
+            panic!("#[{}] attribute is only allowed on struct fields", name);
         }
     }
 }
-- 
2.43.0


From 7881120b6b0572b3d23811bde4f9e9445f6d8760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:15 +0000
Subject: [PATCH 12/20] fix: don't let a user's AsRef trait replace the real
 one in #[derive(RequestContext)]

---
 derive/src/request_context.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/derive/src/request_context.rs b/derive/src/request_context.rs
index a69618d..90fe018 100644
--- a/derive/src/request_context.rs
+++ b/derive/src/request_context.rs
@@ -49,7 +49,7 @@ pub fn derive_request_context(mut s: Structure<'_>) -> TokenStream {
                             quote!(#index)
                         };
                         impls.push(s.gen_impl(quote! {
-                            gen impl AsRef<#ty> for @Self {
+                            gen impl ::std::convert::AsRef<#ty> for @Self {
                                 fn as_ref(&self) -> &#ty { &self.#field_name }
                             }
                         }));
@@ -91,12 +91,12 @@ pub fn derive_request_context(mut s: Structure<'_>) -> TokenStream {
         extern crate hyperdrive;
         use hyperdrive::NoContext;
 
-        gen impl AsRef<NoContext> for @Self {
+        gen impl ::std::convert::AsRef<NoContext> for @Self {
             fn as_ref(&self) -> &NoContext { &NoContext }
         }
     ));
     let asref_self = s.gen_impl(quote!(
-        gen impl AsRef<Self> for @Self {
+        gen impl ::std::convert::AsRef<Self> for @Self {
             fn as_ref(&self) -> &Self { self }
         }
     ));
-- 
2.43.0


From f909b702c655e27321ef6eefbf0b4cc3ccb6387e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:32 +0000
Subject: [PATCH 13/20] fix: allow #[as_ref] on fields whose types have similar
 names

---
 derive/src/request_context.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/derive/src/request_context.rs b/derive/src/request_context.rs
index 90fe018..028910d 100644
--- a/derive/src/request_context.rs
+++ b/derive/src/request_context.rs
@@ -1,4 +1,4 @@
-use proc_macro2::TokenStream;
+use proc_macro2::{Ident, Span, TokenStream};
 use quote::{quote, ToTokens};
 use syn::{Attribute, Data, Index, Meta};
 use synstructure::{AddBounds, Structure};
@@ -48,11 +48,22 @@ pub fn derive_request_context(mut s: Structure<'_>) -> TokenStream {
                             let index = Index::from(index);
                             quote!(#index)
                         };
-                        impls.push(s.gen_impl(quote! {
+                        let imp = s.gen_impl(quote! {
                             gen impl ::std::convert::AsRef<#ty> for @Self {
                                 fn as_ref(&self) -> &#ty { &self.#field_name }
                             }
-                        }));
+                        });
+
+                        // `gen_impl` places the impl in a constant named after the field type, but
+                        // those names aren't unique (eg. for `u8` and `(u8,)`)
+                        let scope = Ident::new(
+                            &format!("_HYPERDRIVE_AS_REF_{}_FOR_{}", index, s.ast().ident),
+                            Span::call_site(),
+                        );
+                        impls.push(quote! {
+                            #[allow(non_upper_case_globals)]
+                            const #scope: () = { #imp };
+                        });
                     }
                     _ => {
                         let name = if let Some(name) = &field.ident {
-- 
2.43.0


From a36a5a1e537b98f4079ca241a22730a82752923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:14 +0000
Subject: [PATCH 14/20] fix: don't let as_ref methods of user traits interfere
 with #[derive(FromRequest)]

---
 derive/src/from_request/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index 53fd4a7..1889054 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -415,7 +415,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
             http::{self, StatusCode}, hyper, lazy_static, regex::{RegexSet, Regex},
             futures::{IntoFuture, Future},
         };
-        // Make sure `.as_ref()` always refers to the `AsRef` trait in libstd.
+        // Make sure `AsRef` always refers to the `AsRef` trait in libstd.
         // Otherwise the calling crate could override this.
         use core::convert::AsRef;
         use core::str::FromStr;
@@ -766,7 +766,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
         let ty = &field_by_name(body).ty;
         let var = field_variable(body);
         future = quote! {
-            <#ty as FromBody>::from_body(&request, body, context.as_ref())
+            <#ty as FromBody>::from_body(&request, body, AsRef::as_ref(&context))
                 .into_future()
                 .and_then(move |#var| #future)
         };
@@ -794,7 +794,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
         let ty = &field_by_name(&guard).ty;
         let var = field_variable(&guard);
         future = quote! {
-            <#ty as Guard>::from_request(&request, context.as_ref())
+            <#ty as Guard>::from_request(&request, AsRef::as_ref(&context))
                 .into_future()
                 .and_then(move |#var| #future)
         };
-- 
2.43.0


From 5a46f718f1d0cc790453a86eab6f875f62a24aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:17 +0000
Subject: [PATCH 15/20] fix: CatchUnwind reports the inner service's readiness

hyper polls a service's poll_ready before calling it. CatchUnwind always
claimed to be ready, so an inner service at capacity was called anyway.
---
 src/service.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/service.rs b/src/service.rs
index 585e495..be1ac78 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -15,7 +15,7 @@
 //! [`FromRequest`]: ../trait.FromRequest.html
 
 use crate::{BoxedError, DefaultFuture, Error, FromRequest, NoContext};
-use futures::{future::FutureResult, Future, IntoFuture};
+use futures::{future::FutureResult, Future, IntoFuture, Poll};
 use hyper::{
     service::{MakeService, Service},
     Body, Method, Request, Response,
@@ -597,6 +597,10 @@ where
     type Error = BoxedError;
     type Future = DefaultFuture<Response<Body>, BoxedError>;
 
+    fn poll_ready(&mut self) -> Poll<(), Self::Error> {
+        self.inner.poll_ready()
+    }
+
     fn call(&mut self, req: Request<Self::ReqBody>) -> Self::Future {
         // We need to make sure that we don't just catch panics that happen while *polling* the
         // inner service's `Future`, but also those that happen when the inner `Future`s are
-- 
2.43.0


From 44029b7f3a71d895fe83b5c7db6510dd36c439fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:44 +0000
Subject: [PATCH 16/20] fix: derived impls don't warn in the deriving crate

The impls live in named constants (non_local_definitions, on by default in
current compilers), mention the type even if it is deprecated, repeat the
names of its variants, and handle errors that infallible conversions (such
as String's) never return.
---
 derive/src/from_request/mod.rs | 4 ++++
 derive/src/request_context.rs  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index 1889054..b68a81c 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -421,6 +421,9 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
         use core::str::FromStr;
         use std::sync::Arc;
 
+        // The impl lives in a constant, whether deprecated items may be used is decided where the type
+        // is declared, and the conversion of a placeholder may be infallible.
+        #[allow(unknown_lints, non_local_definitions, deprecated, unreachable_code)]
         gen impl<#(#impl_generics),*> FromRequest for @Self #where_clause {
             type Future = DefaultFuture<Self, BoxedError>;
             type Context = #context;
@@ -432,6 +435,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
             ) -> Self::Future {
                 // Step 0: `Variant` has all variants of the input enum that have a route attribute
                 // but without any data.
+                #[allow(non_camel_case_types)]
                 enum Variant {
                     #(#variants,)*
                 }
diff --git a/derive/src/request_context.rs b/derive/src/request_context.rs
index 028910d..4c4b143 100644
--- a/derive/src/request_context.rs
+++ b/derive/src/request_context.rs
@@ -49,6 +49,7 @@ pub fn derive_request_context(mut s: Structure<'_>) -> TokenStream {
                             quote!(#index)
                         };
                         let imp = s.gen_impl(quote! {
+                            #[allow(unknown_lints, non_local_definitions, deprecated)]
                             gen impl ::std::convert::AsRef<#ty> for @Self {
                                 fn as_ref(&self) -> &#ty { &self.#field_name }
                             }
@@ -102,11 +103,13 @@ pub fn derive_request_context(mut s: Structure<'_>) -> TokenStream {
         extern crate hyperdrive;
         use hyperdrive::NoContext;
 
+        #[allow(unknown_lints, non_local_definitions, deprecated)]
         gen impl ::std::convert::AsRef<NoContext> for @Self {
             fn as_ref(&self) -> &NoContext { &NoContext }
         }
     ));
     let asref_self = s.gen_impl(quote!(
+        #[allow(unknown_lints, non_local_definitions, deprecated)]
         gen impl ::std::convert::AsRef<Self> for @Self {
             fn as_ref(&self) -> &Self { self }
         }
@@ -115,6 +118,7 @@ pub fn derive_request_context(mut s: Structure<'_>) -> TokenStream {
         extern crate hyperdrive;
         use hyperdrive::RequestContext;
 
+        #[allow(unknown_lints, non_local_definitions, deprecated)]
         gen impl RequestContext for @Self {}
     ));
 
-- 
2.43.0


From 37af19bd086fb82335d50f86e75aaef179debb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:19 +0000
Subject: [PATCH 17/20] fix: #[context(...)] doesn't cause a warning about its
 parentheses

---
 derive/src/from_request/parse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index 4b38bae..f3e26f4 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -62,6 +62,11 @@ impl ItemData {
             };
             if name == "context" {
                 let ty = syn::parse2(attr.tts.clone()).expect("#[context] must be given a type");
+                // don't copy the parentheses of the attribute into the generated code
+                let ty = match ty {
+                    syn::Type::Paren(ty) => *ty.elem,
+                    ty => ty,
+                };
                 insert("#[context]", &mut context, ty);
             } else if !is_struct {
                 panic!(
-- 
2.43.0


From 3530c69744687e46b284090f17735ffab6920e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 18/20] fix: style lints allowed on a type are allowed in what
 is derived for it

---
 derive/src/from_request/mod.rs | 2 +-
 derive/src/request_context.rs  | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index b68a81c..fdde0b0 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -423,7 +423,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
 
         // The impl lives in a constant, whether deprecated items may be used is decided where the type
         // is declared, and the conversion of a placeholder may be infallible.
-        #[allow(unknown_lints, non_local_definitions, deprecated, unreachable_code)]
+        #[allow(unknown_lints, non_local_definitions, nonstandard_style, deprecated, unreachable_code)]
         gen impl<#(#impl_generics),*> FromRequest for @Self #where_clause {
             type Future = DefaultFuture<Self, BoxedError>;
             type Context = #context;
diff --git a/derive/src/request_context.rs b/derive/src/request_context.rs
index 4c4b143..7f88112 100644
--- a/derive/src/request_context.rs
+++ b/derive/src/request_context.rs
@@ -49,7 +49,7 @@ pub fn derive_request_context(mut s: Structure<'_>) -> TokenStream {
                             quote!(#index)
                         };
                         let imp = s.gen_impl(quote! {
-                            #[allow(unknown_lints, non_local_definitions, deprecated)]
+                            #[allow(unknown_lints, non_local_definitions, nonstandard_style, deprecated)]
                             gen impl ::std::convert::AsRef<#ty> for @Self {
                                 fn as_ref(&self) -> &#ty { &self.#field_name }
                             }
@@ -103,13 +103,13 @@ pub fn derive_request_context(mut s: Structure<'_>) -> TokenStream {
         extern crate hyperdrive;
         use hyperdrive::NoContext;
 
-        #[allow(unknown_lints, non_local_definitions, deprecated)]
+        #[allow(unknown_lints, non_local_definitions, nonstandard_style, deprecated)]
         gen impl ::std::convert::AsRef<NoContext> for @Self {
             fn as_ref(&self) -> &NoContext { &NoContext }
         }
     ));
     let asref_self = s.gen_impl(quote!(
-        #[allow(unknown_lints, non_local_definitions, deprecated)]
+        #[allow(unknown_lints, non_local_definitions, nonstandard_style, deprecated)]
         gen impl ::std::convert::AsRef<Self> for @Self {
             fn as_ref(&self) -> &Self { self }
         }
@@ -118,7 +118,7 @@ pub fn derive_request_context(mut s: Structure<'_>) -> TokenStream {
         extern crate hyperdrive;
         use hyperdrive::RequestContext;
 
-        #[allow(unknown_lints, non_local_definitions, deprecated)]
+        #[allow(unknown_lints, non_local_definitions, nonstandard_style, deprecated)]
         gen impl RequestContext for @Self {}
     ));
 
-- 
2.43.0


From dbfebfc56371fc8c1bb38d1898f4f7181a88f130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:43 +0000
Subject: [PATCH 19/20] fix: types with many guards compile in reasonable time

---
 derive/src/from_request/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index fdde0b0..923b2f2 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -798,9 +798,10 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
         let ty = &field_by_name(&guard).ty;
         let var = field_variable(&guard);
         future = quote! {
+            // Boxed because the time it takes to compile nested futures grows exponentially
             <#ty as Guard>::from_request(&request, AsRef::as_ref(&context))
                 .into_future()
-                .and_then(move |#var| #future)
+                .and_then(move |#var| Box::new(#future) as DefaultFuture<Self, BoxedError>)
         };
     }
 
-- 
2.43.0


From 8d5eb2464110a9fe1183a6640dbbb9e9e7950c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:48 +0000
Subject: [PATCH 20/20] fix: derives work next to modules called std and core

The code generated by derive(FromRequest) imported from core and std with
paths that a module or type of that name in the deriving module shadows.
---
 derive/src/from_request/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index 923b2f2..a81f542 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -417,9 +417,9 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
         };
         // Make sure `AsRef` always refers to the `AsRef` trait in libstd.
         // Otherwise the calling crate could override this.
-        use core::convert::AsRef;
-        use core::str::FromStr;
-        use std::sync::Arc;
+        use ::std::convert::AsRef;
+        use ::std::str::FromStr;
+        use ::std::sync::Arc;
 
         // The impl lives in a constant, whether deprecated items may be used is decided where the type
         // is declared, and the conversion of a placeholder may be infallible.
@@ -806,7 +806,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
     }
 
     quote! {{
-        use std::str::FromStr;
+        use ::std::str::FromStr;
 
         #placeholders
 
-- 
2.43.0

