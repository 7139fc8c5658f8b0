From 2074f2a7ce470468617f37674c0052936ed84f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:30 +0000
Subject: [PATCH 1/8] fix: zero-pad percent-encoded bytes in references to
 schema names

Bytes below 0x10 were written as '% 9', so a reference to a schema whose name
contains such a character did not resolve.
---
 schemars/src/encoding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemars/src/encoding.rs b/schemars/src/encoding.rs
index e7932d2..0bd82fc 100644
--- a/schemars/src/encoding.rs
+++ b/schemars/src/encoding.rs
@@ -27,7 +27,7 @@ pub fn encode_ref_name(name: &str) -> Cow<'_, str> {
             } else if byte == b'/' {
                 buf.push_str("~1");
             } else if needs_encoding(byte) {
-                write!(buf, "%{byte:2X}").unwrap();
+                write!(buf, "%{byte:02X}").unwrap();
             } else {
                 buf.push(byte as char);
             }
-- 
2.43.0


From be04042d1700834e551636ed44e6b995fa0f1996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:30 +0000
Subject: [PATCH 2/8] fix: keep assigned schema names when cloning a
 SchemaGenerator

A clone kept the definitions but forgot which type each name stands for, so it
would use an existing definition for a different type of the same name.
---
 schemars/src/generate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index 35dc261..a556be8 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -254,8 +254,8 @@ impl Clone for SchemaGenerator {
             settings: self.settings.clone(),
             definitions: self.definitions.clone(),
             pending_schema_ids: BTreeSet::new(),
-            schema_id_to_name: BTreeMap::new(),
-            used_schema_names: BTreeSet::new(),
+            schema_id_to_name: self.schema_id_to_name.clone(),
+            used_schema_names: self.used_schema_names.clone(),
             root_schema_id_stack: Vec::new(),
         }
     }
-- 
2.43.0


From 60c920f9e4372f256055ad345ee902227ab7c578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:49 +0000
Subject: [PATCH 3/8] fix: keep definitions when definitions_path is the root
 of the document

With a definitions path of "", "#", "/" or "#/" references were written as
'#/Name' but the definitions were left out of the generated root schema.
---
 schemars/src/generate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index a556be8..25e3202 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -629,11 +629,12 @@ fn json_pointer_mut<'a>(
 ) -> Option<&'a mut JsonMap<String, Value>> {
     use serde_json::map::Entry;
 
-    let pointer = pointer.strip_prefix('/')?;
     if pointer.is_empty() {
         return Some(object);
     }
 
+    let pointer = pointer.strip_prefix('/')?;
+
     for mut segment in pointer.split('/') {
         let replaced: String;
         if segment.contains('~') {
-- 
2.43.0


From 3a352287204fed4b9f6181208d2daf4fc0f4abcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:27 +0000
Subject: [PATCH 4/8] fix: never let a retained definition refer to an earlier
 root schema as '#'

root_schema_for() keeps the generator, and so its definitions, for later
schemas. A definition generated on behalf of the root type X referred back to X
as '#', which in the next root schema stands for a different type.
---
 schemars/src/generate.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index 25e3202..ba9be24 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -239,7 +239,12 @@ pub struct SchemaGenerator {
     used_schema_names: BTreeSet<CowStr>,
     // It's unlikely that `root_schema_id_stack` will ever contain more than one item, but it is
     // possible, e.g. if a `json_schema()` implementation calls `generator.root_schema_for<...>()`
-    root_schema_id_stack: Vec<SchemaUid>,
+    //
+    // Contains `None` while generating a definition which may outlive the current root schema, and
+    // so must not refer to that root schema as "#".
+    root_schema_id_stack: Vec<Option<SchemaUid>>,
+    // Whether the definitions will not outlive the outermost root schema
+    is_consumed: bool,
 }
 
 impl Default for SchemaGenerator {
@@ -257,6 +262,7 @@ impl Clone for SchemaGenerator {
             schema_id_to_name: self.schema_id_to_name.clone(),
             used_schema_names: self.used_schema_names.clone(),
             root_schema_id_stack: Vec::new(),
+            is_consumed: false,
         }
     }
 }
@@ -278,6 +284,7 @@ impl SchemaGenerator {
             schema_id_to_name: BTreeMap::new(),
             used_schema_names: BTreeSet::new(),
             root_schema_id_stack: Vec::new(),
+            is_consumed: false,
         }
     }
 
@@ -326,7 +333,7 @@ impl SchemaGenerator {
                 return None;
             }
 
-            if this.root_schema_id_stack.last() == Some(uid) {
+            if this.root_schema_id_stack.last().and_then(Option::as_ref) == Some(uid) {
                 return Some(FindRef {
                     schema: Schema::new_ref("#".to_owned()),
                     name_to_be_inserted: None,
@@ -391,8 +398,17 @@ impl SchemaGenerator {
         // insert into definitions BEFORE calling json_schema to avoid infinite recursion
         self.definitions.insert(name.clone().into(), dummy);
 
+        let hide_root = self.root_schema_id_stack.len() > usize::from(self.is_consumed);
+        if hide_root {
+            self.root_schema_id_stack.push(None);
+        }
+
         let schema = self.json_schema_internal::<T>(uid);
 
+        if hide_root {
+            self.root_schema_id_stack.pop();
+        }
+
         self.definitions.insert(name.into(), schema.to_value());
     }
 
@@ -449,7 +465,7 @@ impl SchemaGenerator {
     /// path](SchemaSettings::definitions_path) (by default `"$defs"`).
     pub fn root_schema_for<T: ?Sized + JsonSchema>(&mut self) -> Schema {
         let schema_uid = self.schema_uid::<T>();
-        self.root_schema_id_stack.push(schema_uid.clone());
+        self.root_schema_id_stack.push(Some(schema_uid.clone()));
 
         let mut schema = self.json_schema_internal::<T>(&schema_uid);
 
@@ -479,7 +495,8 @@ impl SchemaGenerator {
     #[must_use]
     pub fn into_root_schema_for<T: ?Sized + JsonSchema>(mut self) -> Schema {
         let schema_uid = self.schema_uid::<T>();
-        self.root_schema_id_stack.push(schema_uid.clone());
+        self.root_schema_id_stack.push(Some(schema_uid.clone()));
+        self.is_consumed = true;
 
         let mut schema = self.json_schema_internal::<T>(&schema_uid);
 
-- 
2.43.0


From 4cd60f8dc635572be3badeaa8c4db54639a85520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:11 +0000
Subject: [PATCH 5/8] fix: separate type parameters in the derived schema_id

The ids of all parameters were concatenated, so instantiations of one generic
type with different parameters could share a schema_id and thus a definition.
---
 schemars_derive/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/schemars_derive/src/lib.rs b/schemars_derive/src/lib.rs
index a61d4b5..fed6206 100644
--- a/schemars_derive/src/lib.rs
+++ b/schemars_derive/src/lib.rs
@@ -124,7 +124,8 @@ fn derive_json_schema(mut input: syn::DeriveInput, repr: bool) -> syn::Result<To
         }
     } else {
         let relevant_type_params = &cont.relevant_type_params;
-        let format_string_braces = vec!["{}"; const_params.len() + relevant_type_params.len()];
+        let format_string_braces =
+            vec!["{}"; const_params.len() + relevant_type_params.len()].join(", ");
 
         quote! {
             schemars::_private::alloc::borrow::Cow::Owned(
@@ -132,7 +133,7 @@ fn derive_json_schema(mut input: syn::DeriveInput, repr: bool) -> syn::Result<To
                     ::core::concat!(
                         ::core::module_path!(),
                         "::{}<",
-                        #(#format_string_braces,)*
+                        #format_string_braces,
                         ">"
                     ),
                     #name,
-- 
2.43.0


From 26166d78042617f07b87bbe55f65b885b1391505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:44 +0000
Subject: [PATCH 6/8] fix: decode references when looking up the schema of a
 map key

The reference was used as the name of a definition without decoding it, so it
was not found, or a different definition was, when the name needed encoding.
---
 schemars/src/json_schema_impls/maps.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schemars/src/json_schema_impls/maps.rs b/schemars/src/json_schema_impls/maps.rs
index da5a847..e5e1f87 100644
--- a/schemars/src/json_schema_impls/maps.rs
+++ b/schemars/src/json_schema_impls/maps.rs
@@ -61,7 +61,9 @@ where
                 .get("$ref")
                 .and_then(Value::as_str)
                 .and_then(|r| r.strip_prefix(&prefix))
-                .and_then(|r| generator.definitions().get(r))
+                .and_then(crate::encoding::percent_decode)
+                .map(|r| r.replace("~1", "/").replace("~0", "~"))
+                .and_then(|r| generator.definitions().get(&r))
                 .and_then(Value::as_object)
             {
                 *option = d;
-- 
2.43.0


From 11d60c33346e91394789463f36e7ee072e378144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:56 +0000
Subject: [PATCH 7/8] fix: transform_subschemas skipped unevaluatedProperties,
 unevaluatedItems, contentSchema and dependentSchemas

---
 schemars/src/transform.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index eb3e8ca..78132e7 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -156,7 +156,10 @@ pub fn transform_subschemas<T: Transform + ?Sized>(t: &mut T, schema: &mut Schem
             | "contains"
             | "additionalProperties"
             | "propertyNames"
-            | "additionalItems" => {
+            | "additionalItems"
+            | "unevaluatedProperties"
+            | "unevaluatedItems"
+            | "contentSchema" => {
                 if let Ok(subschema) = value.try_into() {
                     t.transform(subschema);
                 }
@@ -183,7 +186,7 @@ pub fn transform_subschemas<T: Transform + ?Sized>(t: &mut T, schema: &mut Schem
                     t.transform(subschema);
                 }
             }
-            "properties" | "patternProperties" | "$defs" | "definitions" => {
+            "properties" | "patternProperties" | "dependentSchemas" | "$defs" | "definitions" => {
                 if let Some(obj) = value.as_object_mut() {
                     for value in obj.values_mut() {
                         if let Ok(subschema) = value.try_into() {
-- 
2.43.0


From cc93a37afa14993dc77c5891a16ab522aeecf5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:37 +0000
Subject: [PATCH 8/8] fix: give ArrayVec a schema_id, so that same-named item
 types are told apart

---
 schemars/src/json_schema_impls/arrayvec07.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schemars/src/json_schema_impls/arrayvec07.rs b/schemars/src/json_schema_impls/arrayvec07.rs
index fc72777..e69c677 100644
--- a/schemars/src/json_schema_impls/arrayvec07.rs
+++ b/schemars/src/json_schema_impls/arrayvec07.rs
@@ -17,6 +17,10 @@ where
         format!("Array_up_to_size_{}_of_{}", CAP, T::schema_name()).into()
     }
 
+    fn schema_id() -> alloc::borrow::Cow<'static, str> {
+        format!("arrayvec::ArrayVec<{}, {}>", T::schema_id(), CAP).into()
+    }
+
     fn json_schema(generator: &mut SchemaGenerator) -> Schema {
         json_schema!({
             "type": "array",
-- 
2.43.0

