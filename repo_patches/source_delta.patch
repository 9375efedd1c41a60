From b1d4e4209b410d0256e4012ca9def4ecd04c3a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 01/14] fix: `*` routes must only match the request target `*`

The pattern was not anchored, so every path containing an asterisk matched.
---
 derive/src/from_request/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index e882822..fa0f145 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -426,7 +426,7 @@ impl RoutePath {
         if path == "*" {
             return Self {
                 raw: path,
-                regex: Regex::new("\\*").unwrap(),
+                regex: Regex::new("^\\*$").unwrap(),
                 segments: Vec::new(),
                 placeholders: Vec::new(),
                 placeholders_sorted: Vec::new(),
-- 
2.43.0


From e7f5c10e761591c53d00e51bc1d51f59fd57a214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 02/14] fix: accept `*` routes declared after other routes

The overlap check only handled `*` on the left side, and panicked with an
internal error when it was declared after any other route.
---
 derive/src/from_request/parse.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index fa0f145..dec613c 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -498,13 +498,12 @@ impl RoutePath {
     pub fn find_overlap(&self, other: &Self) -> Option<String> {
         use self::PathSegment::*;
 
-        if self.segments.is_empty() {
-            // self is "*"
-            if other.segments.is_empty() {
-                return Some("*".into());
-            } else {
-                return None;
-            }
+        match (self.segments.is_empty(), other.segments.is_empty()) {
+            (false, false) => {}
+            // both are "*"
+            (true, true) => return Some("*".into()),
+            // "*" doesn't overlap with any regular path
+            _ => return None,
         }
 
         let mut overlap = String::new();
-- 
2.43.0


From 8ac89a3196170f4dc6dc17e394d5004a286beb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 03/14] fix: don't reject `/` as overlapping with
 `/{placeholder}`

Placeholders don't match empty segments, so there is no path both could match.
---
 derive/src/from_request/parse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index dec613c..0b6ffef 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -530,6 +530,11 @@ impl RoutePath {
                 }
 
                 (Placeholder(_), Literal(lit)) | (Literal(lit), Placeholder(_)) => {
+                    if lit.is_empty() {
+                        // Placeholders never match an empty segment
+                        return None;
+                    }
+
                     overlap.push('/');
                     overlap.push_str(&lit);
                 }
-- 
2.43.0


From acaa79bd292b0b5a80113dcb8de9360ad90bdeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 04/14] fix: make `#[query_params]` usable without depending on
 serde_urlencoded

The generated code named the crate `serde_urlencoded`, which only resolves in
crates that happen to depend on it directly.
---
 derive/src/from_request/mod.rs | 1 +
 src/lib.rs                     | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index e07c9a1..109f3ec 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -413,6 +413,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
         use hyperdrive::{
             FromBody, FromRequest, Guard, DefaultFuture, NoContext, BoxedError, Error,
             http::{self, StatusCode}, hyper, lazy_static, regex::{RegexSet, Regex},
+            serde_urlencoded,
             futures::{IntoFuture, Future},
         };
         // Make sure `.as_ref()` always refers to the `AsRef` trait in libstd.
diff --git a/src/lib.rs b/src/lib.rs
index 580f678..fda9220 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -165,7 +165,7 @@ pub use {futures, http, hyper, serde};
 // These are hidden because the user never actually interacts with them. They're
 // only used by the generated code internally.
 #[doc(hidden)]
-pub use {lazy_static::lazy_static, regex};
+pub use {lazy_static::lazy_static, regex, serde_urlencoded};
 
 use futures::{Future, IntoFuture};
 use std::sync::Arc;
-- 
2.43.0


From 13ec8aa71cd9779cf0f297c9750530b1dad0c217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:11 +0000
Subject: [PATCH 05/14] fix: support raw identifiers as names of
 non-placeholder fields

The derive panicked with an internal error on eg. `#[body] r#type: T`, since it
generated the invalid identifier `fld_r#type`.
---
 derive/src/from_request/mod.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index 109f3ec..4f6d1e2 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -682,7 +682,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
                     .iter()
                     .enumerate()
                     .map(|(i, field_name)| {
-                        let variable = Ident::new(&format!("fld_{}", field_name), Span::call_site());
+                        let variable = field_variable(field_name);
                         let capture = i + 1;
                         let ty = &field_by_name(field_name).ty;
                         quote! {
@@ -722,7 +722,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
 
     let query = if let Some(query_params_field) = data.query_params_field() {
         let ty = &field_by_name(&query_params_field).ty;
-        let variable = Ident::new(&format!("fld_{}", query_params_field), Span::call_site());
+        let variable = field_variable(&query_params_field);
         quote! {
             // Parse query params
             let raw_query = request.uri().query().unwrap_or("");
@@ -740,12 +740,11 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
 
     // Construct the final value from the `fld_X` variables
     let construct = variant.construct(|field, index| {
-        let name = if let Some(ident) = &field.ident {
-            ident.to_string()
+        if let Some(ident) = &field.ident {
+            field_variable(ident)
         } else {
-            index.to_string()
-        };
-        Ident::new(&format!("fld_{}", name), Span::call_site())
+            field_variable(index)
+        }
     });
     let mut future = quote! {
         Ok(#construct).into_future()
@@ -754,7 +753,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
     // Read the body
     if let Some(body) = data.body_field() {
         let ty = &field_by_name(body).ty;
-        let var = Ident::new(&format!("fld_{}", body), Span::call_site());
+        let var = field_variable(body);
         future = quote! {
             <#ty as FromBody>::from_body(&request, body, context.as_ref())
                 .into_future()
@@ -765,7 +764,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
     // Forward to another `FromRequest` implementor (can not be combined with #[body])
     if let Some(forward) = data.forward_field() {
         let ty = &field_by_name(forward).ty;
-        let var = Ident::new(&format!("fld_{}", forward), Span::call_site());
+        let var = field_variable(forward);
         future = quote! {{
             <#ty as FromRequest>::from_request_and_body(&request, body, context)
                 .into_future()
@@ -782,7 +781,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
         .rev()
     {
         let ty = &field_by_name(&guard).ty;
-        let var = Ident::new(&format!("fld_{}", guard), Span::call_site());
+        let var = field_variable(&guard);
         future = quote! {
             <#ty as Guard>::from_request(&request, context.as_ref())
                 .into_future()
@@ -804,6 +803,15 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
     }}
 }
 
+/// Returns the name of the generated variable holding the value of the field named `field`.
+///
+/// This strips the `r#` off of raw identifiers, since it's only valid at the beginning.
+fn field_variable(field: impl ToString) -> Ident {
+    let name = field.to_string();
+    let name = name.trim_start_matches("r#");
+    Ident::new(&format!("fld_{}", name), Span::call_site())
+}
+
 #[cfg(test)]
 mod tests {
     use super::derive_from_request;
-- 
2.43.0


From 0821e71fc99610245d8d10e7c982a2a92e7a9b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:10 +0000
Subject: [PATCH 06/14] fix: support `#[context(path::Type)]` and foreign
 attributes with arbitrary syntax

The derive ran `parse_meta().unwrap()` on every attribute, and panicked on any that isn't a valid
meta item (`#[context(my::Context)]`, `#[rustfmt::skip]`, `#[allow(clippy::all)]`, ...).
---
 derive/src/from_request/parse.rs | 35 +++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/derive/src/from_request/parse.rs b/derive/src/from_request/parse.rs
index 0b6ffef..d8a17cf 100644
--- a/derive/src/from_request/parse.rs
+++ b/derive/src/from_request/parse.rs
@@ -31,6 +31,26 @@ fn is_method(name: &Ident) -> bool {
     METHOD_ATTRS.iter().cloned().find(|a| name == *a).is_some()
 }
 
+/// Parses `attr` if it might be one of ours.
+///
+/// Returns `None` for attributes that don't belong to this custom derive. They can use syntax that
+/// isn't understood by `parse_meta` (eg. `#[rustfmt::skip]` or `#[allow(clippy::all)]`).
+fn parse_our_attr(attr: &Attribute) -> Option<Meta> {
+    let name = match attr.path.segments.first() {
+        Some(segment) if attr.path.segments.len() == 1 => segment.value().ident.clone(),
+        _ => return None,
+    };
+
+    if name == "context" {
+        // Contains a type, which is not always a valid meta item.
+        Some(Meta::Word(name))
+    } else if known_attr(&name) || is_method(&name) {
+        Some(attr.parse_meta().unwrap())
+    } else {
+        None
+    }
+}
+
 /// Parsed attributes attached to the item that does `#[derive(FromRequest)]`.
 pub struct ItemData {
     name: Ident,
@@ -42,7 +62,10 @@ impl ItemData {
         let mut context = None;
 
         for attr in attrs {
-            let name = attr.parse_meta().unwrap().name();
+            let name = match parse_our_attr(attr) {
+                Some(meta) => meta.name(),
+                None => continue,
+            };
             if name == "context" {
                 let ty = syn::parse2(attr.tts.clone()).expect("#[context] must be given a type");
                 insert("#[context]", &mut context, ty);
@@ -105,7 +128,10 @@ impl VariantData {
         // Collect all the route attributes on the variant
         let mut routes = Vec::new();
         for attr in ast.attrs {
-            let meta = attr.parse_meta().unwrap();
+            let meta = match parse_our_attr(attr) {
+                Some(meta) => meta,
+                None => continue,
+            };
             match &meta {
                 Meta::List(list) if is_method(&meta.name()) => {
                     routes.push(Route::parse(
@@ -184,7 +210,10 @@ impl VariantData {
             };
 
             for attr in &field.attrs {
-                let meta = attr.parse_meta().unwrap();
+                let meta = match parse_our_attr(attr) {
+                    Some(meta) => meta,
+                    None => continue,
+                };
                 match &meta {
                     Meta::Word(ident) if ident == "body" => {
                         if let Some(ident) = &field.ident {
-- 
2.43.0


From b3505844de4cf414b3f45233ab92524d23525b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:56 +0000
Subject: [PATCH 07/14] fix: support optional query parameters

The documented `#[query_params] pagination: Option<Pagination>` always failed with
400, since serde_urlencoded doesn't deserialize options: it has to be `None` when
there is no query and otherwise decode like `Pagination`.
---
 derive/src/from_request/mod.rs |   4 +-
 src/lib.rs                     |   4 +-
 src/query.rs                   | 115 +++++++++++++++++++++++++++++++++
 3 files changed, 119 insertions(+), 4 deletions(-)
 create mode 100644 src/query.rs

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index 4f6d1e2..f243f61 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -413,7 +413,6 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
         use hyperdrive::{
             FromBody, FromRequest, Guard, DefaultFuture, NoContext, BoxedError, Error,
             http::{self, StatusCode}, hyper, lazy_static, regex::{RegexSet, Regex},
-            serde_urlencoded,
             futures::{IntoFuture, Future},
         };
         // Make sure `.as_ref()` always refers to the `AsRef` trait in libstd.
@@ -725,8 +724,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
         let variable = field_variable(&query_params_field);
         quote! {
             // Parse query params
-            let raw_query = request.uri().query().unwrap_or("");
-            let #variable = match serde_urlencoded::from_str::<#ty>(raw_query) {
+            let #variable = match hyperdrive::query::from_query::<#ty>(request.uri().query()) {
                 Ok(val) => val,
                 Err(e) => return Error::with_source(StatusCode::BAD_REQUEST, e).into_future(),
             };
diff --git a/src/lib.rs b/src/lib.rs
index fda9220..d35f36f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -153,6 +153,8 @@ TODO:
 
 pub mod body;
 mod error;
+#[doc(hidden)] // not part of public API
+pub mod query;
 mod readme;
 pub mod service;
 
@@ -165,7 +167,7 @@ pub use {futures, http, hyper, serde};
 // These are hidden because the user never actually interacts with them. They're
 // only used by the generated code internally.
 #[doc(hidden)]
-pub use {lazy_static::lazy_static, regex, serde_urlencoded};
+pub use {lazy_static::lazy_static, regex};
 
 use futures::{Future, IntoFuture};
 use std::sync::Arc;
diff --git a/src/query.rs b/src/query.rs
new file mode 100644
index 0000000..225a8fb
--- /dev/null
+++ b/src/query.rs
@@ -0,0 +1,115 @@
+//! Decoding of query parameters, used by the custom derive.
+
+use serde::de::{Deserialize, Deserializer, Visitor};
+use std::marker::PhantomData;
+
+/// Decodes the query part of a request's URI.
+///
+/// This does what `serde_urlencoded` does (a missing query is the same as an empty one), but also
+/// supports `Option<T>`, which is `None` when there is no query and otherwise decodes as `T`.
+pub fn from_query<'de, T>(query: Option<&'de str>) -> Result<T, serde_urlencoded::de::Error>
+where
+    T: Deserialize<'de>,
+{
+    match query {
+        Some(query) => serde_urlencoded::from_str::<Wrapper<T, Present>>(query).map(|w| w.0),
+        None => serde_urlencoded::from_str::<Wrapper<T, Missing>>("").map(|w| w.0),
+    }
+}
+
+struct Present;
+struct Missing;
+
+trait Query {
+    fn option<'de, D, V>(deserializer: D, visitor: V) -> Result<V::Value, D::Error>
+    where
+        D: Deserializer<'de>,
+        V: Visitor<'de>;
+}
+
+impl Query for Present {
+    fn option<'de, D, V>(deserializer: D, visitor: V) -> Result<V::Value, D::Error>
+    where
+        D: Deserializer<'de>,
+        V: Visitor<'de>,
+    {
+        visitor.visit_some(deserializer)
+    }
+}
+
+impl Query for Missing {
+    fn option<'de, D, V>(_: D, visitor: V) -> Result<V::Value, D::Error>
+    where
+        D: Deserializer<'de>,
+        V: Visitor<'de>,
+    {
+        visitor.visit_none()
+    }
+}
+
+/// Deserializes a `T`, but decides about options according to `Q`.
+struct Wrapper<T, Q>(T, PhantomData<Q>);
+
+impl<'de, T: Deserialize<'de>, Q: Query> Deserialize<'de> for Wrapper<T, Q> {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        T::deserialize(WithOption::<D, Q>(deserializer, PhantomData)).map(|t| Wrapper(t, PhantomData))
+    }
+}
+
+/// Forwards everything but options to the inner deserializer.
+struct WithOption<D, Q>(D, PhantomData<Q>);
+
+macro_rules! forward {
+    ($( $method:ident( $($arg:ident: $ty:ty),* ) )*) => {
+        $(
+            fn $method<V: Visitor<'de>>(self, $($arg: $ty,)* visitor: V) -> Result<V::Value, D::Error> {
+                self.0.$method($($arg,)* visitor)
+            }
+        )*
+    };
+}
+
+impl<'de, D: Deserializer<'de>, Q: Query> Deserializer<'de> for WithOption<D, Q> {
+    type Error = D::Error;
+
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, D::Error> {
+        Q::option(self.0, visitor)
+    }
+
+    forward! {
+        deserialize_any()
+        deserialize_bool()
+        deserialize_i8()
+        deserialize_i16()
+        deserialize_i32()
+        deserialize_i64()
+        deserialize_i128()
+        deserialize_u8()
+        deserialize_u16()
+        deserialize_u32()
+        deserialize_u64()
+        deserialize_u128()
+        deserialize_f32()
+        deserialize_f64()
+        deserialize_char()
+        deserialize_str()
+        deserialize_string()
+        deserialize_bytes()
+        deserialize_byte_buf()
+        deserialize_unit()
+        deserialize_unit_struct(name: &'static str)
+        deserialize_newtype_struct(name: &'static str)
+        deserialize_seq()
+        deserialize_tuple(len: usize)
+        deserialize_tuple_struct(name: &'static str, len: usize)
+        deserialize_map()
+        deserialize_struct(name: &'static str, fields: &'static [&'static str])
+        deserialize_enum(name: &'static str, variants: &'static [&'static str])
+        deserialize_identifier()
+        deserialize_ignored_any()
+    }
+
+    fn is_human_readable(&self) -> bool {
+        self.0.is_human_readable()
+    }
+}
-- 
2.43.0


From 12dffa845d082c086f8b4f57dbf63f0ecf4353ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:14 +0000
Subject: [PATCH 08/14] fix: support variants named `Future` and `Context`

---
 derive/src/from_request/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index f243f61..215e35c 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -428,8 +428,8 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
             fn from_request_and_body(
                 request: &Arc<http::Request<()>>,
                 body: hyper::Body,
-                context: Self::Context,
-            ) -> Self::Future {
+                context: <Self as FromRequest>::Context,
+            ) -> <Self as FromRequest>::Future {
                 // Step 0: `Variant` has all variants of the input enum that have a route attribute
                 // but without any data.
                 enum Variant {
-- 
2.43.0


From f195ee203764a51f892124f34b76ec7d999c21aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:29 +0000
Subject: [PATCH 09/14] fix: make the derive usable next to modules named
 `core` or `std`

---
 derive/src/from_request/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index 215e35c..8e7eb18 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -417,9 +417,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
         };
         // Make sure `.as_ref()` always refers to the `AsRef` trait in libstd.
         // Otherwise the calling crate could override this.
-        use core::convert::AsRef;
-        use core::str::FromStr;
-        use std::sync::Arc;
+        use ::std::{convert::AsRef, str::FromStr, sync::Arc};
 
         gen impl<#(#impl_generics),*> FromRequest for @Self #where_clause {
             type Future = DefaultFuture<Self, BoxedError>;
@@ -788,7 +786,7 @@ fn construct_variant(variant: &VariantInfo<'_>, data: &VariantData) -> TokenStre
     }
 
     quote! {{
-        use std::str::FromStr;
+        use ::std::str::FromStr;
 
         #placeholders
 
-- 
2.43.0


From fcf14a8e33de8633f6cc0f3dbd69d21417f86cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:27 +0000
Subject: [PATCH 10/14] fix: make `#[derive(RequestContext)]` independent of
 the `AsRef` in scope

---
 derive/src/request_context.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/derive/src/request_context.rs b/derive/src/request_context.rs
index 12bbbb1..6732b1e 100644
--- a/derive/src/request_context.rs
+++ b/derive/src/request_context.rs
@@ -45,6 +45,8 @@ pub fn derive_request_context(s: Structure<'_>) -> TokenStream {
                             quote!(#index)
                         };
                         impls.push(s.gen_impl(quote! {
+                            use ::std::convert::AsRef;
+
                             gen impl AsRef<#ty> for @Self {
                                 fn as_ref(&self) -> &#ty { &self.#field_name }
                             }
@@ -86,12 +88,15 @@ pub fn derive_request_context(s: Structure<'_>) -> TokenStream {
     let asref_nocontext = s.gen_impl(quote!(
         extern crate hyperdrive;
         use hyperdrive::NoContext;
+        use ::std::convert::AsRef;
 
         gen impl AsRef<NoContext> for @Self {
             fn as_ref(&self) -> &NoContext { &NoContext }
         }
     ));
     let asref_self = s.gen_impl(quote!(
+        use ::std::convert::AsRef;
+
         gen impl AsRef<Self> for @Self {
             fn as_ref(&self) -> &Self { self }
         }
-- 
2.43.0


From 6adaa0a6519b6e11d424ba27fd5402acb8a561d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:00 +0000
Subject: [PATCH 11/14] fix: don't restrict the fields of unrouted variants of
 generic types

---
 derive/src/from_request/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index 8e7eb18..dfa3893 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -518,6 +518,8 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
 
     let mut bounds: Bounds = variants
         .iter()
+        // Other variants are never created by us, so their fields can have any type
+        .filter(|v| v.constructible())
         .flat_map(|v| v.field_uses())
         .map(|(field, field_kind)| {
             let ty = field.ty.clone();
-- 
2.43.0


From 2b8e419cd0124bdb3faeb5c05398bdf6553389cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:27 +0000
Subject: [PATCH 12/14] fix: allow generic types in `#[derive(RequestContext)]`

The derived impls required every field of a generic type to implement the
trait being derived (and `AsRef` of the whole type), so that the derive
couldn't be used on generic types.
---
 derive/src/request_context.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/derive/src/request_context.rs b/derive/src/request_context.rs
index 6732b1e..02e1c97 100644
--- a/derive/src/request_context.rs
+++ b/derive/src/request_context.rs
@@ -1,9 +1,13 @@
 use proc_macro2::TokenStream;
 use quote::{quote, ToTokens};
 use syn::{Attribute, Data, Index, Meta};
-use synstructure::Structure;
+use synstructure::{AddBounds, Structure};
+
+pub fn derive_request_context(mut s: Structure<'_>) -> TokenStream {
+    // None of the impls below makes use of a trait impl of a field's type, so the fields of generic
+    // types don't need to implement anything.
+    s.add_bounds(AddBounds::None);
 
-pub fn derive_request_context(s: Structure<'_>) -> TokenStream {
     deny_attr("as_ref", &s.ast().attrs);
     let additional_impls = match &s.ast().data {
         Data::Struct(st) => {
-- 
2.43.0


From 81cc6c85c9e055e63cdb503880645ff58a87ee78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:36 +0000
Subject: [PATCH 13/14] fix: keep the names generated for `#[as_ref]` fields
 apart

Two marked fields whose types only differ in punctuation, such as
`Box<u8>` and `Box<[u8]>`, made the derive define the same constant twice.
---
 derive/src/request_context.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/derive/src/request_context.rs b/derive/src/request_context.rs
index 02e1c97..1a7c728 100644
--- a/derive/src/request_context.rs
+++ b/derive/src/request_context.rs
@@ -48,13 +48,11 @@ pub fn derive_request_context(mut s: Structure<'_>) -> TokenStream {
                             let index = Index::from(index);
                             quote!(#index)
                         };
-                        impls.push(s.gen_impl(quote! {
-                            use ::std::convert::AsRef;
-
+                        impls.push(quote! {
                             gen impl AsRef<#ty> for @Self {
                                 fn as_ref(&self) -> &#ty { &self.#field_name }
                             }
-                        }));
+                        });
                     }
                     _ => {
                         let name = if let Some(name) = &field.ident {
@@ -98,12 +96,16 @@ pub fn derive_request_context(mut s: Structure<'_>) -> TokenStream {
             fn as_ref(&self) -> &NoContext { &NoContext }
         }
     ));
-    let asref_self = s.gen_impl(quote!(
+    // All impls that depend on the field types share a single `gen_impl`, since the name it makes up
+    // can be the same for different types.
+    let asref_impls = s.gen_impl(quote!(
         use ::std::convert::AsRef;
 
         gen impl AsRef<Self> for @Self {
             fn as_ref(&self) -> &Self { self }
         }
+
+        #(#additional_impls)*
     ));
     let request_context = s.gen_impl(quote!(
         extern crate hyperdrive;
@@ -115,9 +117,7 @@ pub fn derive_request_context(mut s: Structure<'_>) -> TokenStream {
     quote!(
         #asref_nocontext
 
-        #asref_self
-
-        #(#additional_impls)*
+        #asref_impls
 
         #request_context
     )
-- 
2.43.0


From a9bb624683fee8582943a5143b0aebf7aa0332f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:36 +0000
Subject: [PATCH 14/14] fix: allow using a guard or body type more than once in
 a generic type

The type parameters which stood for the associated types of every guard and
body in the `where` clause were ambiguous if the same type occurred twice.
---
 derive/src/from_request/mod.rs | 76 +++++++---------------------------
 1 file changed, 16 insertions(+), 60 deletions(-)

diff --git a/derive/src/from_request/mod.rs b/derive/src/from_request/mod.rs
index dfa3893..6e5b89d 100644
--- a/derive/src/from_request/mod.rs
+++ b/derive/src/from_request/mod.rs
@@ -401,13 +401,6 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
         }
     };
 
-    // `add_impl_generic` is ignored when using `gen_impl`, so build the generics ourselves.
-    let impl_generics = if is_type_generic {
-        bounds.addl_ty_params
-    } else {
-        Vec::new()
-    };
-
     s.gen_impl(quote!(
         extern crate hyperdrive;
         use hyperdrive::{
@@ -419,7 +412,7 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
         // Otherwise the calling crate could override this.
         use ::std::{convert::AsRef, str::FromStr, sync::Arc};
 
-        gen impl<#(#impl_generics),*> FromRequest for @Self #where_clause {
+        gen impl FromRequest for @Self #where_clause {
             type Future = DefaultFuture<Self, BoxedError>;
             type Context = #context;
 
@@ -469,11 +462,6 @@ pub fn derive_from_request(mut s: Structure<'_>) -> TokenStream {
 
 /// Information about trait bounds that need to hold for a `FromRequest` impl to be applicable.
 struct Bounds {
-    /// Additional type parameters to add to the impl.
-    ///
-    /// User-defined type params on the type are always kept.
-    addl_ty_params: Vec<Ident>,
-
     /// `where`-clause trait bounds to add to the generated `FromRequest` impl.
     impl_bounds: Vec<TokenStream>,
 }
@@ -481,17 +469,12 @@ struct Bounds {
 /// This impl enables `collect()`ing an iterator yielding `Bounds` into a single `Bounds` struct.
 impl FromIterator<Bounds> for Bounds {
     fn from_iter<T: IntoIterator<Item = Self>>(iter: T) -> Self {
-        let mut addl_ty_params = Vec::new();
         let mut impl_bounds = Vec::new();
         for bounds in iter {
-            addl_ty_params.extend(bounds.addl_ty_params);
             impl_bounds.extend(bounds.impl_bounds);
         }
 
-        Self {
-            addl_ty_params,
-            impl_bounds,
-        }
+        Self { impl_bounds }
     }
 }
 
@@ -501,22 +484,7 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
         .map(|c| c.into_token_stream())
         .unwrap_or_else(|| quote!(::hyperdrive::NoContext));
 
-    let mut ty_param_counter = 0;
-    let mut ty_params = Vec::new();
-
-    // Creates a unique type parameter containing the given name, and adds it to the returned
-    // `Bounds`
-    let mut mkty = |name| -> Ident {
-        let ident = Ident::new(
-            &format!("_hyperdrive_{}_{}", name, ty_param_counter),
-            Span::call_site(),
-        );
-        ty_param_counter += 1;
-        ty_params.push(ident.clone());
-        ident
-    };
-
-    let mut bounds: Bounds = variants
+    variants
         .iter()
         // Other variants are never created by us, so their fields can have any type
         .filter(|v| v.constructible())
@@ -525,7 +493,6 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
             let ty = field.ty.clone();
             match field_kind {
                 FieldKind::PathSegment => Bounds {
-                    addl_ty_params: Vec::new(),
                     impl_bounds: vec![
                         quote!( #ty:
                             ::std::str::FromStr + ::std::marker::Send + 'static
@@ -536,7 +503,6 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
                     ],
                 },
                 FieldKind::QueryParams => Bounds {
-                    addl_ty_params: Vec::new(),
                     impl_bounds: vec![quote!( #ty:
                         ::hyperdrive::serde::de::DeserializeOwned +
                         ::std::marker::Send +
@@ -544,17 +510,15 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
                     )],
                 },
                 FieldKind::Body => {
-                    let frombody_context = mkty("FromBody_Context");
-                    let frombody_result = mkty("FromBody_Result");
-                    let frombody_result_future = mkty("FromBody_Result_Future");
+                    let frombody_context = quote!( <#ty as ::hyperdrive::FromBody>::Context );
+                    let frombody_result = quote!( <#ty as ::hyperdrive::FromBody>::Result );
+                    let frombody_result_future = quote!(
+                        <#frombody_result as ::hyperdrive::futures::IntoFuture>::Future
+                    );
                     Bounds {
-                        addl_ty_params: Vec::new(),
                         impl_bounds: vec![
                             quote!( #ty:
-                                ::hyperdrive::FromBody<
-                                    Context=#frombody_context,
-                                    Result=#frombody_result,
-                                > +
+                                ::hyperdrive::FromBody +
                                 ::std::marker::Send +
                                 'static
                             ),
@@ -567,7 +531,6 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
                                 ::hyperdrive::futures::IntoFuture<
                                     Item=#ty,
                                     Error=::hyperdrive::BoxedError,
-                                    Future=#frombody_result_future,
                                 > +
                                 ::std::marker::Send +
                                 'static
@@ -584,17 +547,15 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
                     }
                 },
                 FieldKind::Guard => {
-                    let guard_context = mkty("Guard_Context");
-                    let guard_result = mkty("Guard_Result");
-                    let guard_result_future = mkty("Guard_Result_Future");
+                    let guard_context = quote!( <#ty as ::hyperdrive::Guard>::Context );
+                    let guard_result = quote!( <#ty as ::hyperdrive::Guard>::Result );
+                    let guard_result_future = quote!(
+                        <#guard_result as ::hyperdrive::futures::IntoFuture>::Future
+                    );
                     Bounds {
-                        addl_ty_params: Vec::new(),
                         impl_bounds: vec![
                             quote!( #ty:
-                                ::hyperdrive::Guard<
-                                    Context=#guard_context,
-                                    Result=#guard_result,
-                                > +
+                                ::hyperdrive::Guard +
                                 ::std::marker::Send +
                                 'static
                             ),
@@ -607,7 +568,6 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
                                 ::hyperdrive::futures::IntoFuture<
                                     Item=#ty,
                                     Error=::hyperdrive::BoxedError,
-                                    Future=#guard_result_future,
                                 > +
                                 ::std::marker::Send +
                                 'static
@@ -624,7 +584,6 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
                     }
                 },
                 FieldKind::Forward => Bounds {
-                    addl_ty_params: Vec::new(),
                     impl_bounds: vec![
                         // FIXME: support `AsRef` conversion here too
                         quote!( #ty:
@@ -636,10 +595,7 @@ fn generate_trait_bounds(item: &ItemData, variants: &[VariantData]) -> Bounds {
                 },
             }
         })
-        .collect();
-
-    bounds.addl_ty_params.extend(ty_params);
-    bounds
+        .collect()
 }
 
 /// Generates all the code needed to build an enum variant from a matching
-- 
2.43.0

