From 59418da78da43c45116b5df3abc8ba0869730a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:47 +0000
Subject: [PATCH 01/17] fix: percent-encode backslashes in path parameters

The URL parser used for requests treats '\' as a path separator in http and
https URLs, so a path parameter value containing one was split into several
path segments.
---
 progenitor-client/src/progenitor_client.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/progenitor-client/src/progenitor_client.rs b/progenitor-client/src/progenitor_client.rs
index c709e6f..2260a17 100644
--- a/progenitor-client/src/progenitor_client.rs
+++ b/progenitor-client/src/progenitor_client.rs
@@ -417,6 +417,8 @@ const PATH_SET: &percent_encoding::AsciiSet = &percent_encoding::CONTROLS
     .add(b'{')
     .add(b'}')
     .add(b'/')
+    // URL parsers treat a backslash as a path separator in http(s) URLs.
+    .add(b'\\')
     .add(b'%');
 
 #[doc(hidden)]
-- 
2.43.0


From 1cded2b20977d2aaafeaa408301697913cdd7096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:47 +0000
Subject: [PATCH 02/17] fix: serialize newtype struct query parameters as their
 contents

A query parameter whose type is a (non-transparent) newtype struct was passed
to the inner serializer without its name, so every request with one failed.
---
 progenitor-client/src/progenitor_client.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/progenitor-client/src/progenitor_client.rs b/progenitor-client/src/progenitor_client.rs
index 2260a17..cb99646 100644
--- a/progenitor-client/src/progenitor_client.rs
+++ b/progenitor-client/src/progenitor_client.rs
@@ -554,13 +554,16 @@ where
 
     fn serialize_newtype_struct<T>(
         self,
-        name: &'static str,
+        _name: &'static str,
         value: &T,
     ) -> Result<Self::Ok, Self::Error>
     where
         T: ?Sized + Serialize,
     {
-        self.inner.serialize_newtype_struct(name, value)
+        // As with serde_json, a newtype struct is represented by its contents.
+        // Serialize the value through self so that the parameter's name is
+        // retained.
+        value.serialize(self)
     }
 
     fn serialize_newtype_variant<T>(
-- 
2.43.0


From 40e18b2ac9527487e35874da64f3b0cd6cfa8c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:06 +0000
Subject: [PATCH 03/17] fix: do not truncate schema limits that exceed u32

---
 progenitor-impl/src/to_schema.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/progenitor-impl/src/to_schema.rs b/progenitor-impl/src/to_schema.rs
index 359d5bc..29f9180 100644
--- a/progenitor-impl/src/to_schema.rs
+++ b/progenitor-impl/src/to_schema.rs
@@ -450,10 +450,10 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                     so.string().pattern = Some(pattern.clone());
                 }
                 if let Some(min_length) = min_length {
-                    so.string().min_length = Some(*min_length as u32);
+                    so.string().min_length = Some(saturating_u32(*min_length));
                 }
                 if let Some(max_length) = max_length {
-                    so.string().max_length = Some(*max_length as u32);
+                    so.string().max_length = Some(saturating_u32(*max_length));
                 }
 
                 // Number
@@ -496,10 +496,10 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                     so.object().additional_properties = additional_properties.convert();
                 }
                 if let Some(min_properties) = min_properties {
-                    so.object().min_properties = Some(*min_properties as u32);
+                    so.object().min_properties = Some(saturating_u32(*min_properties));
                 }
                 if let Some(max_properties) = max_properties {
-                    so.object().max_properties = Some(*max_properties as u32);
+                    so.object().max_properties = Some(saturating_u32(*max_properties));
                 }
 
                 // Array
@@ -507,10 +507,10 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                     so.array().items = items.convert().clone().map(SingleOrVec::Single);
                 }
                 if let Some(min_items) = min_items {
-                    so.array().min_items = Some(*min_items as u32);
+                    so.array().min_items = Some(saturating_u32(*min_items));
                 }
                 if let Some(max_items) = max_items {
-                    so.array().max_items = Some(*max_items as u32);
+                    so.array().max_items = Some(saturating_u32(*max_items));
                 }
                 if let Some(unique_items) = unique_items {
                     so.array().unique_items = Some(*unique_items);
@@ -744,9 +744,15 @@ fn oneof_nullable_wrapper(
     }
 }
 
+/// JSON Schema limits (string lengths, array sizes, ...) are represented by
+/// `schemars` as `u32`; anything larger is as good as the largest of those.
+fn saturating_u32(value: usize) -> u32 {
+    u32::try_from(value).unwrap_or(u32::MAX)
+}
+
 impl Convert<Option<u32>> for Option<usize> {
     fn convert(&self) -> Option<u32> {
-        (*self).map(|m| m as u32)
+        self.map(saturating_u32)
     }
 }
 
-- 
2.43.0


From 5b482cb8bde4298239dc19ffee19a646ff6cd560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:06 +0000
Subject: [PATCH 04/17] fix: infer number and string types of nullable schemas
 without a type

---
 progenitor-impl/src/to_schema.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/progenitor-impl/src/to_schema.rs b/progenitor-impl/src/to_schema.rs
index 29f9180..cd80cf9 100644
--- a/progenitor-impl/src/to_schema.rs
+++ b/progenitor-impl/src/to_schema.rs
@@ -575,10 +575,10 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                                 .then_some(schemars::schema::InstanceType::Array),
                             so.number
                                 .is_some()
-                                .then_some(schemars::schema::InstanceType::Array),
+                                .then_some(schemars::schema::InstanceType::Number),
                             so.string
                                 .is_some()
-                                .then_some(schemars::schema::InstanceType::Array),
+                                .then_some(schemars::schema::InstanceType::String),
                             nullable.then_some(schemars::schema::InstanceType::Null),
                         ]
                         .into_iter()
-- 
2.43.0


From 077ab5f073bde59fc642ceb23c0e2bdf818a48c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:12 +0000
Subject: [PATCH 05/17] fix: do not reduce nullable schemas without a type to
 null

---
 progenitor-impl/src/to_schema.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/progenitor-impl/src/to_schema.rs b/progenitor-impl/src/to_schema.rs
index cd80cf9..e73d5b0 100644
--- a/progenitor-impl/src/to_schema.rs
+++ b/progenitor-impl/src/to_schema.rs
@@ -596,21 +596,26 @@ impl Convert<schemars::schema::Schema> for openapiv3::Schema {
                     }
                 };
 
-                // If we have exactly one type, and it's null, and we have
-                // subschemas that means that we must have had a bunch of
-                // subschemas *and* nullable = true. In such a case, we remove
-                // the type and inject the oneof wrapper.
+                // If we have exactly one type, and it's null, that means that we
+                // had nullable = true and nothing from which to infer the type
+                // null is an alternative to. In such a case, we remove the type
+                // and--if there are subschemas or enumerated values that might
+                // not already admit null--inject the oneof wrapper.
                 match &so.instance_type {
                     Some(SingleOrVec::Single(it))
-                        if **it == schemars::schema::InstanceType::Null
-                            && so.subschemas.is_some() =>
+                        if **it == schemars::schema::InstanceType::Null =>
                     {
+                        let wrap = so.subschemas.is_some()
+                            || so
+                                .enum_values
+                                .as_ref()
+                                .is_some_and(|values| !values.contains(&Value::Null));
                         oneof_nullable_wrapper(
                             schemars::schema::SchemaObject {
                                 instance_type: None,
                                 ..so
                             },
-                            nullable,
+                            wrap,
                         )
                     }
                     _ => so,
-- 
2.43.0


From cc43b9cd8271ece224d3c5aee6a42426937fdd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:00 +0000
Subject: [PATCH 06/17] fix: generate builders for object-typed query
 parameters

---
 progenitor-impl/src/method.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index 7446d3f..ec9fdd8 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -1487,7 +1487,8 @@ impl Generator {
             .map(|param| match &param.typ {
                 OperationParameterType::Type(type_id) => {
                     let ty = self.type_space.get_type(type_id)?;
-                    if ty.builder().is_some() {
+                    if let (OperationParameterKind::Body(_), Some(_)) = (&param.kind, ty.builder())
+                    {
                         let type_name = ty.ident();
                         Ok(quote! {
                             .and_then(|v| #type_name::try_from(v)
@@ -1511,7 +1512,12 @@ impl Generator {
                 match &param.typ {
                     OperationParameterType::Type(type_id) => {
                         let ty = self.type_space.get_type(type_id)?;
-                        match (ty.builder(), param.kind.is_optional()) {
+                        // Only bodies are nested as builders (see above).
+                        let builder = match &param.kind {
+                            OperationParameterKind::Body(_) => ty.builder(),
+                            _ => None,
+                        };
+                        match (builder, param.kind.is_optional()) {
                             // TODO right now optional body parameters are not
                             // addressed
                             (Some(_), true) => {
-- 
2.43.0


From 1a678ef4b507e195e0f1af85e0d04bb7688153f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:24 +0000
Subject: [PATCH 07/17] fix: generate code that compiles for OPTIONS and TRACE
 operations

---
 progenitor-impl/src/method.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index ec9fdd8..5a66427 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -1081,7 +1081,15 @@ impl Generator {
             }
         });
 
-        let method_func = format_ident!("{}", method.method.as_str());
+        // reqwest::Client has no shorthand for OPTIONS and TRACE.
+        let method_func = match method.method {
+            HttpMethod::Options => quote! { request(::reqwest::Method::OPTIONS, #url_ident) },
+            HttpMethod::Trace => quote! { request(::reqwest::Method::TRACE, #url_ident) },
+            _ => {
+                let func = format_ident!("{}", method.method.as_str());
+                quote! { #func (#url_ident) }
+            }
+        };
 
         let body_impl = quote! {
             #url_path
@@ -1090,7 +1098,7 @@ impl Generator {
 
             #[allow(unused_mut)]
             let mut #request_ident = #client.client
-                . #method_func (#url_ident)
+                . #method_func
                 #accept_header
                 #(#body_func)*
                 #( .query(#query_params) )*
-- 
2.43.0


From c95e1eb791a980c28942a2faf2ff7ed7f39f3945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:17 +0000
Subject: [PATCH 08/17] fix: keep the header map's name apart from parameters

---
 progenitor-impl/src/method.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index 5a66427..a3f794a 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -780,6 +780,7 @@ impl Generator {
         let request_ident = unique_ident_from("request", &param_names);
         let response_ident = unique_ident_from("response", &param_names);
         let result_ident = unique_ident_from("result", &param_names);
+        let header_map_ident = unique_ident_from("header_map", &param_names);
 
         // Generate code for query parameters.
         let query_params = method
@@ -806,7 +807,7 @@ impl Generator {
                     let hn_ident = format_ident!("{}", &param.name);
                     let res = if *required {
                         quote! {
-                            header_map.append(
+                            #header_map_ident.append(
                                 #hn,
                                 #hn_ident.to_string().try_into()?
                             );
@@ -814,7 +815,7 @@ impl Generator {
                     } else {
                         quote! {
                             if let Some(value) = #hn_ident {
-                                header_map.append(
+                                #header_map_ident.append(
                                     #hn,
                                     value.to_string().try_into()?
                                 );
@@ -829,8 +830,8 @@ impl Generator {
 
         let headers_size = headers.len() + 1;
         let headers_build = quote! {
-            let mut header_map = ::reqwest::header::HeaderMap::with_capacity(#headers_size);
-            header_map.append(
+            let mut #header_map_ident = ::reqwest::header::HeaderMap::with_capacity(#headers_size);
+            #header_map_ident.append(
                 ::reqwest::header::HeaderName::from_static("api-version"),
                 ::reqwest::header::HeaderValue::from_static(#client.api_version()),
             );
@@ -839,7 +840,7 @@ impl Generator {
         };
 
         let headers_use = quote! {
-            .headers(header_map)
+            .headers(#header_map_ident)
         };
 
         let websock_hdrs = if method.dropshot_websocket {
-- 
2.43.0


From c8b07619d6fb78312bba166c475ebcb43d25a1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:11 +0000
Subject: [PATCH 09/17] fix: keep stream locals apart from parameters

---
 progenitor-impl/src/method.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index a3f794a..559224e 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -630,6 +630,16 @@ impl Generator {
 
             let stream_id = format_ident!("{}_stream", method.operation_id);
 
+            // These must not collide with (and so hide) any parameter.
+            let param_names = method
+                .params
+                .iter()
+                .map(|param| format_ident!("{}", param.name))
+                .collect::<Vec<_>>();
+            let page_ident = unique_ident_from("page", &param_names);
+            let first_ident = unique_ident_from("first", &param_names);
+            let state_ident = unique_ident_from("state", &param_names);
+
             // The parameters are the same as those to the paged method, but
             // without "page_token"
             let stream_params = method
@@ -662,7 +672,7 @@ impl Generator {
             // - The initial inputs for non-query parameters
             let step_params = method.params.iter().map(|param| {
                 if param.api_name.as_str() == "page_token" {
-                    quote! { state.as_deref() }
+                    quote! { #state_ident.as_deref() }
                 } else if param.api_name.as_str() != "limit"
                     && matches!(param.kind, OperationParameterKind::Query(_))
                 {
@@ -703,20 +713,20 @@ impl Generator {
                     // Execute the operation with the basic parameters
                     // (omitting page_token) to get the first page.
                     self.#operation_id( #(#first_params,)* )
-                        .map_ok(move |page| {
-                            let page = page.into_inner();
+                        .map_ok(move |#page_ident| {
+                            let #page_ident = #page_ident.into_inner();
 
                             // Create a stream from the items of the first page.
-                            let first =
-                                futures::stream::iter(page.items).map(Ok);
+                            let #first_ident =
+                                futures::stream::iter(#page_ident.items).map(Ok);
 
                             // We unfold subsequent pages using page.next_page
                             // as the seed value. Each iteration returns its
                             // items and the next page token.
                             let rest = futures::stream::try_unfold(
-                                page.next_page,
-                                move |state| async move {
-                                    if state.is_none() {
+                                #page_ident.next_page,
+                                move |#state_ident| async move {
+                                    if #state_ident.is_none() {
                                         // The page_token was None so we've
                                         // reached the end.
                                         Ok(None)
@@ -744,7 +754,7 @@ impl Generator {
                             )
                             .try_flatten();
 
-                            first.chain(rest)
+                            #first_ident.chain(rest)
                         })
                         .try_flatten_stream()
                         .boxed()
-- 
2.43.0


From 98aff6e435c6d8a77282ce7afa37eddbdd7bb380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:02 +0000
Subject: [PATCH 10/17] fix: reject a stray closing brace right after a path
 parameter

---
 progenitor-impl/src/template.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/progenitor-impl/src/template.rs b/progenitor-impl/src/template.rs
index 47f3cc8..51a3687 100644
--- a/progenitor-impl/src/template.rs
+++ b/progenitor-impl/src/template.rs
@@ -114,6 +114,8 @@ pub fn parse(t: &str) -> Result<PathTemplate> {
                 if c == '{' {
                     s = State::Parameter;
                     a = String::new();
+                } else if c == '}' {
+                    return Err(Error::InvalidPath("unexpected }".to_string()));
                 } else {
                     s = State::Constant;
                     a = c.to_string();
-- 
2.43.0


From 59b4276a0d11c085d373e10f6c8ed447bb12e8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:07 +0000
Subject: [PATCH 11/17] fix: keep builders from redefining names the generated
 code uses

---
 progenitor-impl/src/cli.rs    |  4 ++--
 progenitor-impl/src/method.rs |  6 +++---
 progenitor-impl/src/util.rs   | 13 +++++++++++++
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/progenitor-impl/src/cli.rs b/progenitor-impl/src/cli.rs
index 95dd4fe..8a96daa 100644
--- a/progenitor-impl/src/cli.rs
+++ b/progenitor-impl/src/cli.rs
@@ -11,7 +11,7 @@ use typify::{Type, TypeEnumVariant, TypeSpaceImpl, TypeStructPropInfo};
 use crate::{
     method::{OperationParameterKind, OperationParameterType, OperationResponseStatus},
     to_schema::ToSchema,
-    util::{sanitize, Case},
+    util::{builder_name, sanitize, Case},
     validate_openapi, Generator, Result,
 };
 
@@ -338,7 +338,7 @@ impl Generator {
         };
 
         // TODO this is copy-pasted--unwisely?
-        let struct_name = sanitize(&method.operation_id, Case::Pascal);
+        let struct_name = builder_name(&method.operation_id);
         let struct_ident = format_ident!("{}", struct_name);
 
         let execute_trait = quote! {
diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index 559224e..b5ab868 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -13,7 +13,7 @@ use typify::{TypeId, TypeSpace};
 
 use crate::{
     template::PathTemplate,
-    util::{items, parameter_map, sanitize, unique_ident_from, Case},
+    util::{builder_name, items, parameter_map, sanitize, unique_ident_from, Case},
     Error, Generator, Result, TagStyle,
 };
 use crate::{to_schema::ToSchema, util::ReferenceOrExt};
@@ -1422,7 +1422,7 @@ impl Generator {
         tag_style: TagStyle,
         has_inner: bool,
     ) -> Result<TokenStream> {
-        let struct_name = sanitize(&method.operation_id, Case::Pascal);
+        let struct_name = builder_name(&method.operation_id);
         let struct_ident = format_ident!("{}", struct_name);
 
         // Generate an ident for each parameter.
@@ -1887,7 +1887,7 @@ impl Generator {
 
     fn builder_helper(&self, method: &OperationMethod) -> BuilderImpl {
         let operation_id = format_ident!("{}", method.operation_id);
-        let struct_name = sanitize(&method.operation_id, Case::Pascal);
+        let struct_name = builder_name(&method.operation_id);
         let struct_ident = format_ident!("{}", struct_name);
 
         let params = method
diff --git a/progenitor-impl/src/util.rs b/progenitor-impl/src/util.rs
index 170d00a..873c567 100644
--- a/progenitor-impl/src/util.rs
+++ b/progenitor-impl/src/util.rs
@@ -111,6 +111,19 @@ pub(crate) fn sanitize(input: &str, case: Case) -> String {
     }
 }
 
+/// The name of the struct that's the builder for an operation. Builders share
+/// a module with the names its code refers to; they may not redefine those.
+pub(crate) fn builder_name(operation_id: &str) -> String {
+    let name = sanitize(operation_id, Case::Pascal);
+    match name.as_str() {
+        "ByteStream" | "Error" | "RequestBuilderExt" | "ResponseValue" | "Clone" | "From"
+        | "Into" | "Option" | "Result" | "String" | "ToString" | "TryInto" | "Vec" => {
+            format!("{}_", name)
+        }
+        _ => name,
+    }
+}
+
 /// Given a desired name and a slice of proc_macro2::Ident, generate a new
 /// Ident that is unique from the slice.
 pub(crate) fn unique_ident_from(
-- 
2.43.0


From ad2456e45110b25d6c6278768820e762240e1bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:46 +0000
Subject: [PATCH 12/17] fix: refuse references that do not lead to the
 component used

---
 progenitor-impl/src/util.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/progenitor-impl/src/util.rs b/progenitor-impl/src/util.rs
index 873c567..3d2ec87 100644
--- a/progenitor-impl/src/util.rs
+++ b/progenitor-impl/src/util.rs
@@ -6,12 +6,13 @@ use indexmap::IndexMap;
 use openapiv3::{Components, Parameter, ReferenceOr, RequestBody, Response, Schema};
 use unicode_ident::{is_xid_continue, is_xid_start};
 
-use crate::Result;
+use crate::{Error, Result};
 
 pub(crate) trait ReferenceOrExt<T: ComponentLookup> {
     fn item<'a>(&'a self, components: &'a Option<Components>) -> Result<&'a T>;
 }
 pub(crate) trait ComponentLookup: Sized {
+    const SECTION: &'static str;
     fn get_components(components: &Components) -> &IndexMap<String, ReferenceOr<Self>>;
 }
 
@@ -20,8 +21,17 @@ impl<T: ComponentLookup> ReferenceOrExt<T> for openapiv3::ReferenceOr<T> {
         match self {
             ReferenceOr::Item(item) => Ok(item),
             ReferenceOr::Reference { reference } => {
-                let idx = reference.rfind('/').unwrap();
-                let key = &reference[idx + 1..];
+                let key = reference
+                    .strip_prefix("#/components/")
+                    .and_then(|rest| rest.strip_prefix(T::SECTION))
+                    .and_then(|rest| rest.strip_prefix('/'))
+                    .ok_or_else(|| {
+                        Error::UnexpectedFormat(format!(
+                            "reference {} does not name one of the document's {}",
+                            reference,
+                            T::SECTION,
+                        ))
+                    })?;
                 let parameters = T::get_components(components.as_ref().unwrap());
                 parameters
                     .get(key)
@@ -52,24 +62,32 @@ pub(crate) fn parameter_map<'a>(
 }
 
 impl ComponentLookup for Parameter {
+    const SECTION: &'static str = "parameters";
+
     fn get_components(components: &Components) -> &IndexMap<String, ReferenceOr<Self>> {
         &components.parameters
     }
 }
 
 impl ComponentLookup for RequestBody {
+    const SECTION: &'static str = "requestBodies";
+
     fn get_components(components: &Components) -> &IndexMap<String, ReferenceOr<Self>> {
         &components.request_bodies
     }
 }
 
 impl ComponentLookup for Response {
+    const SECTION: &'static str = "responses";
+
     fn get_components(components: &Components) -> &IndexMap<String, ReferenceOr<Self>> {
         &components.responses
     }
 }
 
 impl ComponentLookup for Schema {
+    const SECTION: &'static str = "schemas";
+
     fn get_components(components: &Components) -> &IndexMap<String, ReferenceOr<Self>> {
         &components.schemas
     }
-- 
2.43.0


From f1728211c7ce4afe43f9c7d7912a404ae0201428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:46 +0000
Subject: [PATCH 13/17] fix: refuse path parameters that do not appear in the
 path

---
 progenitor-impl/src/method.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index b5ab868..a0af9e9 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -416,6 +416,15 @@ impl Generator {
         let tmp = crate::template::parse(path)?;
         let names = tmp.names();
 
+        if let Some(param) = params.iter().find(|param| {
+            param.kind == OperationParameterKind::Path && !names.contains(&param.api_name)
+        }) {
+            return Err(Error::InvalidPath(format!(
+                "path parameter {} of {} does not appear in {}",
+                param.api_name, operation_id, path,
+            )));
+        }
+
         sort_params(&mut params, &names);
 
         let mut success = false;
-- 
2.43.0


From ca8eca30f85ff850600efab519db292014f1f0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:46 +0000
Subject: [PATCH 14/17] fix: refuse parameters of the same name in different
 locations

---
 progenitor-impl/src/method.rs |  7 ++++---
 progenitor-impl/src/util.rs   | 26 ++++++++++++++++++++++----
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index a0af9e9..3cf5a0d 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -13,7 +13,9 @@ use typify::{TypeId, TypeSpace};
 
 use crate::{
     template::PathTemplate,
-    util::{builder_name, items, parameter_map, sanitize, unique_ident_from, Case},
+    util::{
+        builder_name, insert_parameter, items, parameter_map, sanitize, unique_ident_from, Case,
+    },
     Error, Generator, Result, TagStyle,
 };
 use crate::{to_schema::ToSchema, util::ReferenceOrExt};
@@ -295,8 +297,7 @@ impl Generator {
 
         let mut combined_path_parameters = parameter_map(path_parameters, components)?;
         for operation_param in items(&operation.parameters, components) {
-            let parameter = operation_param?;
-            combined_path_parameters.insert(&parameter.parameter_data_ref().name, parameter);
+            insert_parameter(&mut combined_path_parameters, operation_param?)?;
         }
 
         // Filter out any path parameters that have been overridden by an
diff --git a/progenitor-impl/src/util.rs b/progenitor-impl/src/util.rs
index 3d2ec87..63ea35a 100644
--- a/progenitor-impl/src/util.rs
+++ b/progenitor-impl/src/util.rs
@@ -1,6 +1,6 @@
 // Copyright 2022 Oxide Computer Company
 
-use std::collections::BTreeMap;
+use std::{collections::BTreeMap, mem::discriminant};
 
 use indexmap::IndexMap;
 use openapiv3::{Components, Parameter, ReferenceOr, RequestBody, Response, Schema};
@@ -56,9 +56,27 @@ pub(crate) fn parameter_map<'a>(
     refs: &'a [ReferenceOr<Parameter>],
     components: &'a Option<Components>,
 ) -> Result<BTreeMap<&'a String, &'a Parameter>> {
-    items(refs, components)
-        .map(|res| res.map(|param| (&param.parameter_data_ref().name, param)))
-        .collect()
+    let mut map = BTreeMap::new();
+    for param in items(refs, components) {
+        insert_parameter(&mut map, param?)?;
+    }
+    Ok(map)
+}
+
+/// Add a parameter to the map, replacing one of the same name. Parameters of
+/// the same name in different locations would be distinct; we don't support
+/// those.
+pub(crate) fn insert_parameter<'a>(
+    map: &mut BTreeMap<&'a String, &'a Parameter>,
+    param: &'a Parameter,
+) -> Result<()> {
+    let name = &param.parameter_data_ref().name;
+    match map.insert(name, param) {
+        Some(old) if discriminant(old) != discriminant(param) => Err(Error::UnexpectedFormat(
+            format!("parameter {} appears in more than one location", name),
+        )),
+        _ => Ok(()),
+    }
 }
 
 impl ComponentLookup for Parameter {
-- 
2.43.0


From 43aa595fc20c8ed078bd02d11fb4eb29fc9deb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:57 +0000
Subject: [PATCH 15/17] fix: order a response range after the specific codes
 within it

An operation that documents a 2XX range, a specific 2xx code and a default
of another type was refused (an assertion failed) when the range came
before the code in the document, as the code then stood between the range
and the default. The generated match also tested the range first.
---
 progenitor-impl/src/method.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/progenitor-impl/src/method.rs b/progenitor-impl/src/method.rs
index 3cf5a0d..31a67c6 100644
--- a/progenitor-impl/src/method.rs
+++ b/progenitor-impl/src/method.rs
@@ -212,9 +212,10 @@ impl OperationResponseStatus {
                 assert!(*code < 1000);
                 *code
             }
+            // A range follows all of the specific codes it contains.
             OperationResponseStatus::Range(range) => {
                 assert!(*range < 10);
-                *range * 100
+                *range * 100 + 99
             }
             OperationResponseStatus::Default => 1000,
         }
@@ -246,7 +247,10 @@ impl OperationResponseStatus {
 
 impl Ord for OperationResponseStatus {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.to_value().cmp(&other.to_value())
+        let is_range = |status: &Self| matches!(status, OperationResponseStatus::Range(_));
+        self.to_value()
+            .cmp(&other.to_value())
+            .then_with(|| is_range(self).cmp(&is_range(other)))
     }
 }
 
-- 
2.43.0


From e609bd9a87662e71a5cfeb923d80bd8041626e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:57 +0000
Subject: [PATCH 16/17] fix: escape path text in httpmock's regular expressions

---
 progenitor-impl/src/template.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/progenitor-impl/src/template.rs b/progenitor-impl/src/template.rs
index 51a3687..960ac98 100644
--- a/progenitor-impl/src/template.rs
+++ b/progenitor-impl/src/template.rs
@@ -65,7 +65,7 @@ impl PathTemplate {
             .components
             .iter()
             .map(|c| match c {
-                Component::Constant(name) => name.clone(),
+                Component::Constant(name) => escape(name),
                 Component::Parameter(_) => "[^/]*".to_string(),
             })
             .collect::<String>();
@@ -77,7 +77,7 @@ impl PathTemplate {
             .components
             .iter()
             .map(|c| match c {
-                Component::Constant(name) => name.clone(),
+                Component::Constant(name) => escape(name),
                 Component::Parameter(p) if p == param => "{}".to_string(),
                 Component::Parameter(_) => ".*".to_string(),
             })
@@ -86,6 +86,19 @@ impl PathTemplate {
     }
 }
 
+/// Escape the characters of a path's literal text that have a meaning in a
+/// regular expression.
+fn escape(literal: &str) -> String {
+    let mut out = String::new();
+    for c in literal.chars() {
+        if r".+*?()|[]^$\".contains(c) {
+            out.push('\\');
+        }
+        out.push(c);
+    }
+    out
+}
+
 pub fn parse(t: &str) -> Result<PathTemplate> {
     enum State {
         Start,
-- 
2.43.0


From 67aa6df51b7ba98815d1d50f39b9f6a745be989d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:27 +0000
Subject: [PATCH 17/17] fix: mock helpers for status codes without a registered
 name

---
 progenitor-impl/src/httpmock.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/progenitor-impl/src/httpmock.rs b/progenitor-impl/src/httpmock.rs
index 6ac092e..7905555 100644
--- a/progenitor-impl/src/httpmock.rs
+++ b/progenitor-impl/src/httpmock.rs
@@ -303,11 +303,12 @@ impl Generator {
 
                 match status_code {
                     OperationResponseStatus::Code(status_code) => {
-                        let canonical_reason = http::StatusCode::from_u16(*status_code)
+                        // Not every valid status code has a registered name.
+                        let reason = http::StatusCode::from_u16(*status_code)
                             .unwrap()
                             .canonical_reason()
-                            .unwrap();
-                        let fn_name = format_ident!("{}", &sanitize(canonical_reason, Case::Snake));
+                            .map_or_else(|| format!("status-{status_code}"), ToString::to_string);
+                        let fn_name = format_ident!("{}", &sanitize(&reason, Case::Snake));
 
                         quote! {
                             pub fn #fn_name(self, #value_param) -> Self {
-- 
2.43.0

