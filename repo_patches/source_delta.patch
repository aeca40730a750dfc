From ef20d58a794ebfa100b86d2bfbdf5f3d635ae4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 01/35] fix: make Hash and Ord of Identifier and NamespaceID
 agree with their case-insensitive equality

---
 atelier-core/src/model/identity.rs | 49 +++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/atelier-core/src/model/identity.rs b/atelier-core/src/model/identity.rs
index ccd0764..e120297 100644
--- a/atelier-core/src/model/identity.rs
+++ b/atelier-core/src/model/identity.rs
@@ -3,8 +3,9 @@ use crate::syntax::{
     SHAPE_ID_ABSOLUTE_SEPARATOR, SHAPE_ID_MEMBER_SEPARATOR, SHAPE_ID_NAMESPACE_SEPARATOR,
 };
 use regex::Regex;
+use std::cmp::Ordering;
 use std::fmt::{Debug, Display, Formatter};
-use std::hash::Hash;
+use std::hash::{Hash, Hasher};
 use std::str::FromStr;
 
 // ------------------------------------------------------------------------------------------------
@@ -18,8 +19,7 @@ use std::str::FromStr;
 ///   [Shape ID ABNF](https://awslabs.github.io/smithy/1.0/spec/core/model.html#shape-id),
 ///   of the Smithy 1.0 Specification.
 ///
-#[allow(clippy::derive_hash_xor_eq)]
-#[derive(Clone, Debug, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone, Debug, Eq)]
 pub struct Identifier(String);
 
 ///
@@ -30,9 +30,8 @@ pub struct Identifier(String);
 ///   [Shape ID ABNF](https://awslabs.github.io/smithy/1.0/spec/core/model.html#shape-id),
 ///   of the Smithy 1.0 Specification.
 ///
-#[allow(clippy::derive_hash_xor_eq)]
 #[allow(clippy::upper_case_acronyms)]
-#[derive(Clone, Debug, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone, Debug, Eq)]
 pub struct NamespaceID(String);
 
 ///
@@ -132,6 +131,26 @@ impl PartialEq for Identifier {
     }
 }
 
+impl Hash for Identifier {
+    /// Consistent with `eq`, values which differ only in case have the same hash.
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.0.to_lowercase().hash(state)
+    }
+}
+
+impl PartialOrd for Identifier {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for Identifier {
+    /// Consistent with `eq`, values which differ only in case are equal.
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.0.to_lowercase().cmp(&other.0.to_lowercase())
+    }
+}
+
 impl Identifier {
     /// Create a new instance **without** checking that the provided string is a legal identifier.
     pub fn new_unchecked(s: &str) -> Self {
@@ -178,6 +197,26 @@ impl PartialEq for NamespaceID {
     }
 }
 
+impl Hash for NamespaceID {
+    /// Consistent with `eq`, values which differ only in case have the same hash.
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.0.to_lowercase().hash(state)
+    }
+}
+
+impl PartialOrd for NamespaceID {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for NamespaceID {
+    /// Consistent with `eq`, values which differ only in case are equal.
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.0.to_lowercase().cmp(&other.0.to_lowercase())
+    }
+}
+
 impl NamespaceID {
     /// Create a new instance **without** checking that the provided string is a legal namespace.
     pub fn new_unchecked(s: &str) -> Self {
-- 
2.43.0


From dae81158dec2a032a3b776ec7385a1a1f187c8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 02/35] fix: Model::has_metadata_value returned the negated
 answer

---
 atelier-core/src/model/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-core/src/model/mod.rs b/atelier-core/src/model/mod.rs
index de723e8..eb407e9 100644
--- a/atelier-core/src/model/mod.rs
+++ b/atelier-core/src/model/mod.rs
@@ -125,7 +125,7 @@ impl Model {
 
     /// Returns `true` if this model's **metadata** collection has a shape with the provided key`, else `false`.
     pub fn has_metadata_value(&self, key: &str) -> bool {
-        !self.metadata.contains_key(key)
+        self.metadata.contains_key(key)
     }
 
     /// Returns the value in this model's **metadata** collection with the provide key.
-- 
2.43.0


From e73c0d7139dd7497eeff43ac51e0370788e2bc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 03/35] fix: Model::has_shape returned the negated answer

---
 atelier-core/src/model/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-core/src/model/mod.rs b/atelier-core/src/model/mod.rs
index eb407e9..3fa2bfa 100644
--- a/atelier-core/src/model/mod.rs
+++ b/atelier-core/src/model/mod.rs
@@ -189,7 +189,7 @@ impl Model {
 
     /// Returns `true` if this model's **shapes** collection has a shape with the provided `ShapeID`, else `false`.
     pub fn has_shape(&self, shape_id: &ShapeID) -> bool {
-        !self.shapes.contains_key(shape_id)
+        self.shapes.contains_key(shape_id)
     }
 
     /// Returns the shape in this model's **shapes** collection with the provided `ShapeID`.
-- 
2.43.0


From c824fc68893e496124ae3a0c58b6dd66b32921fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 04/35] fix: StructureOrUnion::has_member returned the negated
 answer

---
 atelier-core/src/model/shapes/aggregate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-core/src/model/shapes/aggregate.rs b/atelier-core/src/model/shapes/aggregate.rs
index e13a341..512a3ef 100644
--- a/atelier-core/src/model/shapes/aggregate.rs
+++ b/atelier-core/src/model/shapes/aggregate.rs
@@ -200,7 +200,7 @@ impl StructureOrUnion {
 
     /// Returns `true` if this structure or union has a member with the given name, else `false`.
     pub fn has_member(&self, member_name: &Identifier) -> bool {
-        !self.members.contains_key(member_name)
+        self.members.contains_key(member_name)
     }
 
     /// Returns the member in the structure or union with the given name, else `None`.
-- 
2.43.0


From 48197bc9462622ff23520a2b4f544e1619a960a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 05/35] fix: Resource::has_identifier returned the negated
 answer

---
 atelier-core/src/model/shapes/service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-core/src/model/shapes/service.rs b/atelier-core/src/model/shapes/service.rs
index 9c5827e..1f789e9 100644
--- a/atelier-core/src/model/shapes/service.rs
+++ b/atelier-core/src/model/shapes/service.rs
@@ -171,7 +171,7 @@ impl Resource {
 
     /// Returns `true` if this resource has an identifier with the provided name, else `false`.
     pub fn has_identifier(&self, name: &Identifier) -> bool {
-        !self.identifiers.contains_key(name)
+        self.identifiers.contains_key(name)
     }
 
     /// Returns the identifier's value, which should always be `Value::String`, representing the
-- 
2.43.0


From 623b6e38adfcc30f6e27851374efefee1d08d1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 06/35] fix: equal_without_traits panicked when the member
 names of two shapes differ

---
 atelier-core/src/model/shapes/mod.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/atelier-core/src/model/shapes/mod.rs b/atelier-core/src/model/shapes/mod.rs
index 714bea5..fdbc012 100644
--- a/atelier-core/src/model/shapes/mod.rs
+++ b/atelier-core/src/model/shapes/mod.rs
@@ -360,18 +360,16 @@ impl NonTraitEq for TopLevelShape {
                 }
                 (ShapeKind::Structure(l), ShapeKind::Structure(r)) => {
                     l.members.keys().count() == r.members.keys().count()
-                        && l.members.keys().all(|k| {
-                            l.member(k)
-                                .unwrap()
-                                .equal_without_traits(r.member(k).unwrap())
+                        && l.members.iter().all(|(k, l)| match r.member(k) {
+                            Some(r) => l.equal_without_traits(r),
+                            None => false,
                         })
                 }
                 (ShapeKind::Union(l), ShapeKind::Union(r)) => {
                     l.members.keys().count() == r.members.keys().count()
-                        && l.members.keys().all(|k| {
-                            l.member(k)
-                                .unwrap()
-                                .equal_without_traits(r.member(k).unwrap())
+                        && l.members.iter().all(|(k, l)| match r.member(k) {
+                            Some(r) => l.equal_without_traits(r),
+                            None => false,
                         })
                 }
                 (ShapeKind::Service(l), ShapeKind::Service(r)) => l == r,
-- 
2.43.0


From 8def1eeec05291297a77e80c1b0df812e8b9ed67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 07/35] fix: the model builder turned set shapes into list
 shapes

---
 atelier-core/src/builder/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 58f9ee1..5e08718 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -423,7 +423,7 @@ impl ModelBuilder {
         }
         Ok(TopLevelShape::with_traits(
             shape_id,
-            ShapeKind::List(ListOrSet::from(MemberShape::with_traits(
+            ShapeKind::Set(ListOrSet::from(MemberShape::with_traits(
                 builder.member.member_name.clone(),
                 target_id,
                 self.make_traits(&builder.member.applied_traits, references)?,
-- 
2.43.0


From 5680baa286fe3485e1794d5155d923ceaaa2e20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 08/35] fix: write_model_to_file opened its output file
 read-only

---
 atelier-core/src/io/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-core/src/io/mod.rs b/atelier-core/src/io/mod.rs
index b071ccf..a5d9825 100644
--- a/atelier-core/src/io/mod.rs
+++ b/atelier-core/src/io/mod.rs
@@ -111,7 +111,7 @@ pub fn write_model_to_file(
     model: &Model,
     path: PathBuf,
 ) -> ModelResult<()> {
-    let mut file = File::open(path)?;
+    let mut file = File::create(path)?;
     w.write(&mut file, model)?;
     Ok(())
 }
-- 
2.43.0


From 49100e35d6c4468f4c1cb5c0b30a585662e5da1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 09/35] fix: the fail_fast flag of the action runners never
 stopped the run

---
 atelier-core/src/action/lint/mod.rs     | 8 ++++----
 atelier-core/src/action/validate/mod.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/atelier-core/src/action/lint/mod.rs b/atelier-core/src/action/lint/mod.rs
index d36518d..591003d 100644
--- a/atelier-core/src/action/lint/mod.rs
+++ b/atelier-core/src/action/lint/mod.rs
@@ -98,12 +98,12 @@ pub fn run_linter_actions(
     for linter in linters.iter_mut() {
         linter.check(model)?;
         let new_issues = linter.issues_mut();
-        issues.append(new_issues);
-        if fail_fast
+        let stop = fail_fast
             && new_issues
                 .iter()
-                .any(|issue| issue.level > IssueLevel::Warning)
-        {
+                .any(|issue| issue.level > IssueLevel::Warning);
+        issues.append(new_issues);
+        if stop {
             break;
         }
     }
diff --git a/atelier-core/src/action/validate/mod.rs b/atelier-core/src/action/validate/mod.rs
index 57e1737..21bb571 100644
--- a/atelier-core/src/action/validate/mod.rs
+++ b/atelier-core/src/action/validate/mod.rs
@@ -45,12 +45,12 @@ pub fn run_validation_actions(
     for validator in validators.iter_mut() {
         validator.validate(model)?;
         let new_issues = validator.issues_mut();
-        issues.append(new_issues);
-        if fail_fast
+        let stop = fail_fast
             && new_issues
                 .iter()
-                .any(|issue| issue.level > IssueLevel::Warning)
-        {
+                .any(|issue| issue.level > IssueLevel::Warning);
+        issues.append(new_issues);
+        if stop {
             break;
         }
     }
-- 
2.43.0


From f423e102e8ae4a76af40991e888b44eff26a7148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 10/35] fix: cargo-atelier opened its output files read-only

---
 cargo-atelier/src/actions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cargo-atelier/src/actions.rs b/cargo-atelier/src/actions.rs
index 9116673..2a76715 100644
--- a/cargo-atelier/src/actions.rs
+++ b/cargo-atelier/src/actions.rs
@@ -83,7 +83,7 @@ fn write_model(
 ) -> Result<(), Box<dyn Error>> {
     let mut file: Box<dyn Write> = match output_file {
         None => Box::new(std::io::stdout()),
-        Some(file_name) => Box::new(File::open(file_name)?),
+        Some(file_name) => Box::new(File::create(file_name)?),
     };
 
     match output_format {
@@ -136,7 +136,7 @@ fn document_a_file(
 
     let mut file: Box<dyn Write> = match output_file {
         None => Box::new(std::io::stdout()),
-        Some(file_name) => Box::new(File::open(file_name)?),
+        Some(file_name) => Box::new(File::create(file_name)?),
     };
     write_document(&document, output_format, &mut file)?;
     Ok(())
-- 
2.43.0


From e964d105cdb313707a870d03baf5f2c44eb5fbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 11/35] fix: the JSON reader named the key and value members of
 a map 'member'

---
 atelier-json/src/reader.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index 1e4ed30..fedfa8e 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -141,16 +141,16 @@ impl JsonReader {
                 Ok(ShapeKind::Unresolved)
             } else if s == SHAPE_LIST {
                 Ok(ShapeKind::List(ListOrSet::from(
-                    self.member(outer.get(MEMBER_MEMBER))?,
+                    self.member(MEMBER_MEMBER, outer.get(MEMBER_MEMBER))?,
                 )))
             } else if s == SHAPE_SET {
                 Ok(ShapeKind::Set(ListOrSet::from(
-                    self.member(outer.get(MEMBER_MEMBER))?,
+                    self.member(MEMBER_MEMBER, outer.get(MEMBER_MEMBER))?,
                 )))
             } else if s == SHAPE_MAP {
                 Ok(ShapeKind::Map(MapShape::from(
-                    self.member(outer.get(MEMBER_KEY))?,
-                    self.member(outer.get(MEMBER_VALUE))?,
+                    self.member(MEMBER_KEY, outer.get(MEMBER_KEY))?,
+                    self.member(MEMBER_VALUE, outer.get(MEMBER_VALUE))?,
                 )))
             } else if s == SHAPE_STRUCTURE {
                 let members = if let Some(Value::Object(vs)) = outer.get(ADD_SHAPE_KEY_MEMBERS) {
@@ -369,11 +369,11 @@ impl JsonReader {
         .into())
     }
 
-    fn member(&self, member: Option<&Value>) -> ModelResult<MemberShape> {
+    fn member(&self, name: &str, member: Option<&Value>) -> ModelResult<MemberShape> {
         if let Some(Value::Object(ms)) = member {
             if let Some(Value::String(target_id)) = ms.get(ADD_SHAPE_KEY_TARGET) {
                 let mut member_shape = MemberShape::new(
-                    Identifier::new_unchecked(MEMBER_MEMBER),
+                    Identifier::new_unchecked(name),
                     ShapeID::from_str(target_id)?,
                 );
                 if let Some(Value::Object(vs)) = ms.get(ADD_SHAPE_KEY_TRAITS) {
-- 
2.43.0


From 533181cc01fccfe36b352bf6975b2efd3676f6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 12/35] fix: the JSON reader wrapped integers above i64::MAX to
 negative numbers

---
 atelier-json/src/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index fedfa8e..5167cb6 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -413,7 +413,8 @@ impl JsonReader {
                 } else if v.is_i64() {
                     Ok(NodeValue::from(v.as_i64().unwrap()))
                 } else if v.is_u64() {
-                    Ok(NodeValue::from(v.as_u64().unwrap() as i64))
+                    // does not fit in an i64
+                    Ok(NodeValue::from(v.as_u64().unwrap() as f64))
                 } else {
                     Err(ErrorKind::Deserialization(
                         REPRESENTATION_NAME.to_string(),
-- 
2.43.0


From de674e62c21df1293cfeb8509e4c1e96b3a99f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 13/35] fix: the JSON reader wrote resource identifiers to
 stdout

---
 atelier-json/src/reader.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index 5167cb6..5e65407 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -307,7 +307,6 @@ impl JsonReader {
             let mut hash: HashMap<Identifier, ShapeID> = Default::default();
             if let Value::Object(ms) = member {
                 for (obj_key, obj) in ms {
-                    println!("{:?}: {:?}", obj_key, obj);
                     let key = Identifier::from_str(obj_key)?;
                     let value = self.target(Some(obj))?;
                     let _ = hash.insert(key, value);
-- 
2.43.0


From 0875dc2aa9ce88b47604c1395561271aece9489d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 14/35] fix: the JSON reader panicked on a service with an
 empty version

---
 atelier-json/src/reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index 5e65407..1d37a60 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -176,6 +176,9 @@ impl JsonReader {
                 } else {
                     return Err(ErrorKind::InvalidVersionNumber(None).into());
                 };
+                if version.is_empty() {
+                    return Err(ErrorKind::InvalidVersionNumber(Some(version)).into());
+                }
                 let mut service = Service::new(&version);
                 service.append_operations(&self.target_list(outer.get(MEMBER_OPERATIONS))?);
                 service.append_resources(&self.target_list(outer.get(MEMBER_RESOURCES))?);
-- 
2.43.0


From 44c156bbed884431bf43da65a11cb36cf1184ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 15/35] fix: the JSON writer panicked on a NaN or infinite
 number

---
 atelier-json/src/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atelier-json/src/writer.rs b/atelier-json/src/writer.rs
index e92f01b..535a6d8 100644
--- a/atelier-json/src/writer.rs
+++ b/atelier-json/src/writer.rs
@@ -14,7 +14,7 @@ use atelier_core::syntax::{
     MEMBER_VERSION, MODEL_METADATA, MODEL_SHAPES, SHAPE_APPLY, SHAPE_LIST, SHAPE_MAP,
     SHAPE_OPERATION, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SET, SHAPE_STRUCTURE, SHAPE_UNION,
 };
-use serde_json::{to_writer, to_writer_pretty, Map, Number as JsonNumber, Value};
+use serde_json::{to_writer, to_writer_pretty, Map, Value};
 use std::io::Write;
 
 // ------------------------------------------------------------------------------------------------
@@ -330,7 +330,7 @@ fn from_value(value: &NodeValue) -> Value {
         }
         NodeValue::Number(v) => match v {
             Number::Integer(v) => Value::Number((*v).into()),
-            Number::Float(v) => Value::Number(JsonNumber::from_f64(*v).unwrap()),
+            Number::Float(v) => Value::from(*v),
         },
         NodeValue::Boolean(v) => Value::Bool(*v),
         NodeValue::String(v) => Value::String(v.clone()),
-- 
2.43.0


From 23a47c775a69b462f81d63aeb3adffbdc22b5002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 16/35] fix: the number selector did not match byte and long
 shapes

---
 atelier-query/src/evaluate.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atelier-query/src/evaluate.rs b/atelier-query/src/evaluate.rs
index ed92c58..5ed436f 100644
--- a/atelier-query/src/evaluate.rs
+++ b/atelier-query/src/evaluate.rs
@@ -143,9 +143,11 @@ fn match_by_shape_type(shape_type: &ShapeType, shape: &TopLevelShape) -> bool {
                     shape_body,
                     Simple::BigDecimal
                         | Simple::BigInteger
+                        | Simple::Byte
                         | Simple::Double
                         | Simple::Float
                         | Simple::Integer
+                        | Simple::Long
                         | Simple::Short
                 )
             } else {
-- 
2.43.0


From 842591980460a654b6c531adffe08988b3f879f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 17/35] fix: the collection selector matched map shapes

---
 atelier-query/src/evaluate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-query/src/evaluate.rs b/atelier-query/src/evaluate.rs
index 5ed436f..78787d9 100644
--- a/atelier-query/src/evaluate.rs
+++ b/atelier-query/src/evaluate.rs
@@ -155,7 +155,7 @@ fn match_by_shape_type(shape_type: &ShapeType, shape: &TopLevelShape) -> bool {
             }
         }
         ShapeType::SimpleType => shape_body.is_simple(),
-        ShapeType::Collection => shape_body.is_list() || shape_body.is_set() || shape_body.is_map(),
+        ShapeType::Collection => shape_body.is_list() || shape_body.is_set(),
         ShapeType::Blob => {
             shape_body.is_simple() && matches!(shape.body().as_simple().unwrap(), Simple::Blob)
         }
-- 
2.43.0


From a36726a7c917e8dee186eb5e3d2c80ec672633a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 18/35] fix: evaluating a query wrote debugging output to
 stdout

---
 atelier-query/src/evaluate.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/atelier-query/src/evaluate.rs b/atelier-query/src/evaluate.rs
index 78787d9..8e69a90 100644
--- a/atelier-query/src/evaluate.rs
+++ b/atelier-query/src/evaluate.rs
@@ -52,7 +52,6 @@ fn query_one(
     previously_selected: Projection,
     over_model: &Model,
 ) -> Projection {
-    println!("query_one({:?} |-> {})", previously_selected, query);
     match query {
         SelectorExpression::ShapeType(v) => query_by_shape_type(v, previously_selected, over_model),
         SelectorExpression::AttributeSelector(v) => {
-- 
2.43.0


From 7e777bf2510e0c2b4bf0b316cceccdde669f1feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 19/35] fix: FileTypeRegistry::register_all did not register
 the MIME type

---
 atelier-assembler/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/atelier-assembler/src/lib.rs b/atelier-assembler/src/lib.rs
index 674a4bc..83b9653 100644
--- a/atelier-assembler/src/lib.rs
+++ b/atelier-assembler/src/lib.rs
@@ -247,6 +247,11 @@ impl FileTypeRegistry {
                 .by_extension
                 .insert(extension.to_lowercase(), file_type.clone());
         }
+        if let Some(mime_type) = &file_type.mime_type {
+            let _ = self
+                .by_mime_type
+                .insert(mime_type.to_lowercase(), file_type.clone());
+        }
     }
 
     ///
-- 
2.43.0


From 68de1240b758e1d6d2ee8dfaaf2040dea74ba07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 20/35] fix: the model builder silently dropped shapes that
 conflict with one already added

---
 atelier-core/src/builder/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 5e08718..e271b6f 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -90,10 +90,10 @@ impl TryFrom<&mut ModelBuilder> for Model {
         }
         let mut unresolved: HashSet<ShapeID> = Default::default();
         for shape in builder.shapes.values() {
-            let _ = model.add_shape(builder.make_shape(&shape, &mut unresolved)?);
+            model.add_shape(builder.make_shape(&shape, &mut unresolved)?)?;
         }
         for shape_id in unresolved {
-            let _ = model.add_shape(TopLevelShape::new(shape_id, ShapeKind::Unresolved));
+            model.add_shape(TopLevelShape::new(shape_id, ShapeKind::Unresolved))?;
         }
         Ok(model)
     }
-- 
2.43.0


From acd938b1423413947e4e940622d01923bf491763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 21/35] fix: merging two definitions of a shape lost the traits
 of the second one's members

---
 atelier-core/src/model/mod.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/atelier-core/src/model/mod.rs b/atelier-core/src/model/mod.rs
index 3fa2bfa..8ad8fcf 100644
--- a/atelier-core/src/model/mod.rs
+++ b/atelier-core/src/model/mod.rs
@@ -233,6 +233,7 @@ impl Model {
                 (false, false) => {
                     if existing.equal_without_traits(&shape) {
                         copy_traits(existing, &shape)?;
+                        copy_member_traits(existing.body_mut(), shape.body())?;
                     } else {
                         error!("Model::add_shape {:?} != {:?}", existing, shape);
                         return Err(ErrorKind::MergeShapeConflict(existing.id().clone()).into());
@@ -309,6 +310,30 @@ fn copy_traits(to_shape: &mut TopLevelShape, from_shape: &TopLevelShape) -> Mode
     Ok(())
 }
 
+/// The two bodies are of the same kind and have the same members, see `equal_without_traits`.
+fn copy_member_traits(to_body: &mut ShapeKind, from_body: &ShapeKind) -> ModelResult<()> {
+    match (to_body, from_body) {
+        (ShapeKind::List(to), ShapeKind::List(from))
+        | (ShapeKind::Set(to), ShapeKind::Set(from)) => {
+            to.member.append_traits(from.member.traits())
+        }
+        (ShapeKind::Map(to), ShapeKind::Map(from)) => {
+            to.key.append_traits(from.key.traits())?;
+            to.value.append_traits(from.value.traits())
+        }
+        (ShapeKind::Structure(to), ShapeKind::Structure(from))
+        | (ShapeKind::Union(to), ShapeKind::Union(from)) => {
+            for (name, member) in &from.members {
+                if let Some(to_member) = to.members.get_mut(name) {
+                    to_member.append_traits(member.traits())?;
+                }
+            }
+            Ok(())
+        }
+        _ => Ok(()),
+    }
+}
+
 // ------------------------------------------------------------------------------------------------
 // Modules
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From 1eba8b63365729e49234b1d047da3496f4e4dff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 22/35] fix: compare prelude namespaces as namespaces, not as
 text

The validators and is_prelude_shape compared the spelling of a namespace with
the prelude's, while namespaces are equal whatever the case of their letters.
---
 atelier-core/src/action/validate/mod.rs |  8 ++++----
 atelier-core/src/model/shapes/mod.rs    | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/atelier-core/src/action/validate/mod.rs b/atelier-core/src/action/validate/mod.rs
index 21bb571..26e3791 100644
--- a/atelier-core/src/action/validate/mod.rs
+++ b/atelier-core/src/action/validate/mod.rs
@@ -9,7 +9,7 @@ use crate::action::{Action, ActionIssue, IssueLevel, Validator};
 use crate::error::Result as ModelResult;
 use crate::model::shapes::{HasTraits, ShapeKind};
 use crate::model::{HasIdentity, Identifier, Model, ShapeID};
-use crate::prelude::PRELUDE_NAMESPACE;
+use crate::prelude::prelude_namespace_id;
 use crate::syntax::{MEMBER_ERRORS, MEMBER_INPUT, MEMBER_OUTPUT};
 
 // ------------------------------------------------------------------------------------------------
@@ -229,7 +229,7 @@ impl CorrectTypeReferences {
                     shape.clone(),
                 ));
             }
-        } else if target_id.namespace().to_string() != PRELUDE_NAMESPACE {
+        } else if target_id.namespace() != prelude_namespace_id() {
             self.issues.push(ActionIssue::warning_at(
                 self.label(),
                 &format!(
@@ -257,7 +257,7 @@ impl CorrectTypeReferences {
                     shape.clone(),
                 ));
             }
-        } else if target.namespace().to_string() != PRELUDE_NAMESPACE {
+        } else if target.namespace() != prelude_namespace_id() {
             self.issues.push(ActionIssue::warning_at(
                 self.label(),
                 &format!(
@@ -285,7 +285,7 @@ impl CorrectTypeReferences {
                     shape.clone(),
                 ));
             }
-        } else if target.namespace().to_string() != PRELUDE_NAMESPACE {
+        } else if target.namespace() != prelude_namespace_id() {
             self.issues.push(ActionIssue::warning_at(
                 self.label(),
                 &format!(
diff --git a/atelier-core/src/model/shapes/mod.rs b/atelier-core/src/model/shapes/mod.rs
index fdbc012..b24bcb7 100644
--- a/atelier-core/src/model/shapes/mod.rs
+++ b/atelier-core/src/model/shapes/mod.rs
@@ -12,11 +12,11 @@ use crate::error::{ErrorKind, Result};
 use crate::model::identity::HasIdentity;
 use crate::model::{values::Value, Identifier, ShapeID};
 use crate::prelude::{
-    PRELUDE_NAMESPACE, TRAIT_BOX, TRAIT_DEPRECATED, TRAIT_DOCUMENTATION, TRAIT_ERROR,
-    TRAIT_EXTERNALDOCUMENTATION, TRAIT_IDEMPOTENT, TRAIT_LENGTH, TRAIT_NOREPLACE, TRAIT_PAGINATED,
-    TRAIT_PATTERN, TRAIT_PRIVATE, TRAIT_READONLY, TRAIT_REFERENCES, TRAIT_REQUIRED,
-    TRAIT_REQUIRESLENGTH, TRAIT_SENSITIVE, TRAIT_SINCE, TRAIT_STREAMING, TRAIT_TAGS, TRAIT_TITLE,
-    TRAIT_TRAIT, TRAIT_UNIQUEITEMS, TRAIT_UNSTABLE,
+    prelude_namespace_id, PRELUDE_NAMESPACE, TRAIT_BOX, TRAIT_DEPRECATED, TRAIT_DOCUMENTATION,
+    TRAIT_ERROR, TRAIT_EXTERNALDOCUMENTATION, TRAIT_IDEMPOTENT, TRAIT_LENGTH, TRAIT_NOREPLACE,
+    TRAIT_PAGINATED, TRAIT_PATTERN, TRAIT_PRIVATE, TRAIT_READONLY, TRAIT_REFERENCES,
+    TRAIT_REQUIRED, TRAIT_REQUIRESLENGTH, TRAIT_SENSITIVE, TRAIT_SINCE, TRAIT_STREAMING,
+    TRAIT_TAGS, TRAIT_TITLE, TRAIT_TRAIT, TRAIT_UNIQUEITEMS, TRAIT_UNSTABLE,
 };
 use std::collections::HashMap;
 use std::fmt::Debug;
@@ -463,7 +463,7 @@ impl TopLevelShape {
     /// [prelude namespace](../../prelude/constant.PRELUDE_NAMESPACE.html), else `false`.
     ///
     pub fn is_prelude_shape(&self) -> bool {
-        self.id().namespace().to_string() == *PRELUDE_NAMESPACE
+        self.id().namespace() == prelude_namespace_id()
     }
 
     ///
-- 
2.43.0


From 9e3c7f2d8f7871c15071f3c4d224174d253aef71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:54 +0000
Subject: [PATCH 23/35] fix: a relative name ignored the shape its builder
 defines under an absolute id

---
 atelier-core/src/builder/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index e271b6f..7bb895f 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -284,7 +284,11 @@ impl ModelBuilder {
                         ))
                     }
                     0 => {
-                        if self.shapes.contains_key(shape_name) {
+                        if self.shapes.contains_key(shape_name)
+                            || self.shapes.contains_key(&ShapeName::Qualified(
+                                self.default_namespace.make_shape(local.clone()),
+                            ))
+                        {
                             // 2. a shape is defined in the same namespace as the shape with the same name
                             trace!(
                                 "SUCCESS: shape found in same namespace as shape with same name"
-- 
2.43.0


From 18577cfe6868aac18332d7e424f483fb9da449f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:06 +0000
Subject: [PATCH 24/35] fix: the model builder kept only the last value of a
 trait applied more than once

---
 atelier-core/src/builder/mod.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 7bb895f..75a370b 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -19,8 +19,8 @@ For more information, see [the Rust Atelier book](https://rust-atelier.dev/using
 use crate::builder::id::ShapeName;
 use crate::error::{Error, ErrorKind};
 use crate::model::shapes::{
-    ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind, StructureOrUnion,
-    TopLevelShape,
+    merge_traits, ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind,
+    StructureOrUnion, TopLevelShape,
 };
 use crate::model::values::{Value, ValueMap};
 use crate::model::{Identifier, Model, NamespaceID, ShapeID};
@@ -31,7 +31,6 @@ use crate::syntax::{MEMBER_KEY, MEMBER_MEMBER, MEMBER_VALUE};
 use crate::Version;
 use std::collections::{HashMap, HashSet};
 use std::convert::TryFrom;
-use std::iter::FromIterator;
 use std::str::FromStr;
 pub use values::{ArrayBuilder, ObjectBuilder, ValueBuilder};
 
@@ -704,21 +703,19 @@ impl ModelBuilder {
         builders: &[TraitBuilder],
         references: &mut HashSet<ShapeID>,
     ) -> Result<HashMap<ShapeID, Option<Value>>, Error> {
-        let pairs: Result<Vec<(ShapeID, Option<Value>)>, Error> = builders
-            .iter()
-            .cloned()
-            .map(|builder| {
-                let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_id, true)?;
-                if new_reference {
-                    let _ = references.insert(shape_id.clone());
-                }
-                Ok((shape_id, builder.value))
-            })
-            .collect();
-        match pairs {
-            Ok(pairs) => Ok(HashMap::from_iter(pairs)),
-            Err(err) => Err(err),
+        let mut traits: HashMap<ShapeID, Option<Value>> = Default::default();
+        for builder in builders {
+            let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_id, true)?;
+            if new_reference {
+                let _ = references.insert(shape_id.clone());
+            }
+            let value = match traits.get(&shape_id) {
+                Some(previous) => merge_traits(&shape_id, previous, &builder.value)?,
+                None => builder.value.clone(),
+            };
+            let _ = traits.insert(shape_id, value);
         }
+        Ok(traits)
     }
 }
 
-- 
2.43.0


From 74f29b200f9b65e930337c99dc17ad41a14a1a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:43 +0000
Subject: [PATCH 25/35] fix: referring to a shape of the model builder dropped
 the shape, or the traits applied to it

---
 atelier-core/src/builder/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 75a370b..14ce621 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -212,6 +212,21 @@ impl ModelBuilder {
     // --------------------------------------------------------------------------------------------
 
     fn insert(&mut self, id: ShapeName, shape: TopLevelShapeBuilder) -> &mut Self {
+        let mut shape = shape;
+        if let TopLevelShapeBuilder::Reference(reference) = &shape {
+            if let Some(existing) = self.shapes.get_mut(&id) {
+                // the shape is known already; keep it, and what has been applied to it
+                for a_trait in &reference.applied_traits {
+                    apply_to_shape(existing, a_trait.clone());
+                }
+                return self;
+            }
+        } else if let Some(TopLevelShapeBuilder::Reference(reference)) = self.shapes.get(&id) {
+            // keep what was applied to the shape before it was defined
+            for a_trait in &reference.applied_traits {
+                apply_to_shape(&mut shape, a_trait.clone());
+            }
+        }
         let previous = self.shapes.insert(id, shape);
         if previous.is_some() {
             info!("Interestingly the shape seems to have been added more than once?",);
-- 
2.43.0


From b0c51441b1bf62c32c725bd32c024dcae2eec7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:07 +0000
Subject: [PATCH 26/35] fix: applying a trait to a member of a shape added
 under its relative name panicked

---
 atelier-core/src/builder/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 14ce621..c9aa022 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -336,7 +336,12 @@ impl ModelBuilder {
         match shape_name {
             ShapeName::Qualified(shape_id) => {
                 if let Some(member_name) = shape_id.member_name() {
-                    let parent_shape = ShapeName::from(shape_id.shape_only());
+                    let mut parent_shape = ShapeName::from(shape_id.shape_only());
+                    if !self.shapes.contains_key(&parent_shape)
+                        && shape_id.namespace() == &self.default_namespace
+                    {
+                        parent_shape = ShapeName::from(shape_id.shape_name().clone());
+                    }
                     if let Some(shape) = self.shapes.get_mut(&parent_shape) {
                         apply_to_member(shape, member_name, a_trait);
                     } else {
-- 
2.43.0


From 57dfc28d4f31e6987fd1dbc2d934b16661857450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:47 +0000
Subject: [PATCH 27/35] fix: an IRI with an authority, query or fragment is not
 the URN of a shape

---
 atelier-rdf/src/urn.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atelier-rdf/src/urn.rs b/atelier-rdf/src/urn.rs
index 83cf20d..17615f3 100644
--- a/atelier-rdf/src/urn.rs
+++ b/atelier-rdf/src/urn.rs
@@ -65,7 +65,9 @@ pub fn is_shape_iri(iri: IRIRef) -> bool {
 /// conform to the format described in the module documentation.
 ///
 pub fn iri_to_shape(iri: IRIRef) -> Result<ShapeID, String> {
-    if iri.scheme() == &Some(Scheme::from_str("urn").unwrap()) {
+    if iri.has_authority() || iri.has_query() || iri.has_fragment() {
+        Err(String::from("Not a Smithy URN"))
+    } else if iri.scheme() == &Some(Scheme::from_str("urn").unwrap()) {
         let path = iri.path().to_string();
         if let Some(path) = path.strip_prefix(URN_NID) {
             if path
-- 
2.43.0


From 24f50a17209501d28a910e563028474bbdeab6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:03 +0000
Subject: [PATCH 28/35] fix: selectors read the comparators >= and <=

---
 atelier-smithy/src/selector.pest | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atelier-smithy/src/selector.pest b/atelier-smithy/src/selector.pest
index de20b25..eabdc8e 100644
--- a/atelier-smithy/src/selector.pest
+++ b/atelier-smithy/src/selector.pest
@@ -93,10 +93,10 @@ comparator_string_in = { "*=" }
 comparator_string_exist = { "?=" }
 
 selector_numeric_comparator =
-    { comparator_number_gt
-    | comparator_number_gte
-    | comparator_number_lt
-    | comparator_number_lte }
+    { comparator_number_gte
+    | comparator_number_gt
+    | comparator_number_lte
+    | comparator_number_lt }
 
 comparator_number_gt = { ">" }
 
-- 
2.43.0


From c28e93e13f00dc3c57e1ca49583ea7e967a60847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:11 +0000
Subject: [PATCH 29/35] fix: identifiers may begin with any number of
 underscores

---
 atelier-smithy/src/selector.pest | 2 +-
 atelier-smithy/src/smithy.pest   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/atelier-smithy/src/selector.pest b/atelier-smithy/src/selector.pest
index eabdc8e..9f44157 100644
--- a/atelier-smithy/src/selector.pest
+++ b/atelier-smithy/src/selector.pest
@@ -174,7 +174,7 @@ selector_variable_get =
 
 identifier =
     @{ ( ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* )
-    |  ( "_" ~ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")*) }
+    |  ( "_"+ ~ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")*) }
 
 namespace =
     @{ identifier ~ ("." ~ identifier)* }
diff --git a/atelier-smithy/src/smithy.pest b/atelier-smithy/src/smithy.pest
index 2c844c6..cf61a69 100644
--- a/atelier-smithy/src/smithy.pest
+++ b/atelier-smithy/src/smithy.pest
@@ -42,7 +42,7 @@ namespace =
 
 identifier =
     @{ ( ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* )
-    |  ( "_" ~ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")*) }
+    |  ( "_"+ ~ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")*) }
 
 shape_id_member =
     { "$" ~ identifier }
-- 
2.43.0


From 6787238364661d120cf5aff4186f88ce359a3743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:18 +0000
Subject: [PATCH 30/35] fix: parse_selector does not write to standard output

---
 atelier-smithy/src/parser/selector.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/atelier-smithy/src/parser/selector.rs b/atelier-smithy/src/parser/selector.rs
index 45efa16..f5069db 100644
--- a/atelier-smithy/src/parser/selector.rs
+++ b/atelier-smithy/src/parser/selector.rs
@@ -37,7 +37,6 @@ pub fn parse_selector(input: &str) -> ModelResult<Selector> {
     match top_pair.as_rule() {
         Rule::input => {
             let inner = top_pair.into_inner().next().unwrap();
-            println!("{:#?}", inner);
             trace!("{:#?}", inner);
             if inner.as_rule() == Rule::selector {
                 parse_a_selector(inner)
-- 
2.43.0


From 656ecc6218cd383ef558259565fc884ed4f58dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:26 +0000
Subject: [PATCH 31/35] fix: numbers in selectors with an exponent, or too
 large for an integer, are read

---
 atelier-smithy/src/parser/selector.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/atelier-smithy/src/parser/selector.rs b/atelier-smithy/src/parser/selector.rs
index f5069db..d25cfe5 100644
--- a/atelier-smithy/src/parser/selector.rs
+++ b/atelier-smithy/src/parser/selector.rs
@@ -222,12 +222,9 @@ fn parse_selector_value(input_pair: Pair<'_, Rule>) -> ModelResult<Value> {
         }
         Rule::number => {
             let number = inner.as_str();
-            if number.contains('.') {
-                Ok(Value::Number(Number::Float(f64::from_str(number).unwrap())))
-            } else {
-                Ok(Value::Number(Number::Integer(
-                    i64::from_str(number).unwrap(),
-                )))
+            match i64::from_str(number) {
+                Ok(v) => Ok(Value::Number(Number::Integer(v))),
+                Err(_) => Ok(Value::Number(Number::Float(f64::from_str(number).unwrap()))),
             }
         }
         Rule::root_shape_id => {
-- 
2.43.0


From 83d1b102b86e473c45cab8e6ee8b55a9f5d1b8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:05 +0000
Subject: [PATCH 32/35] fix: selector text that contains a double quote is
 written in single quotes

---
 atelier-core/src/model/selector/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/atelier-core/src/model/selector/mod.rs b/atelier-core/src/model/selector/mod.rs
index d40634e..0a586bb 100644
--- a/atelier-core/src/model/selector/mod.rs
+++ b/atelier-core/src/model/selector/mod.rs
@@ -596,6 +596,7 @@ impl Display for Value {
             f,
             "{}",
             match self {
+                Value::Text(v) if v.contains('"') => format!("'{}'", v),
                 Value::Text(v) => format!("\"{}\"", v),
                 Value::Number(v) => v.to_string(),
                 Value::RootShapeIdentifier(v) => v.to_string(),
-- 
2.43.0


From 922210121366a2a00ab2531814ba91e82853adde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:53 +0000
Subject: [PATCH 33/35] fix: the named constructor of a ^= comparison compares
 with the value, not with its quoted text

---
 atelier-core/src/model/selector/mod.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/atelier-core/src/model/selector/mod.rs b/atelier-core/src/model/selector/mod.rs
index 0a586bb..1f6ec10 100644
--- a/atelier-core/src/model/selector/mod.rs
+++ b/atelier-core/src/model/selector/mod.rs
@@ -850,10 +850,7 @@ impl AttributeComparison {
 
     /// Create a new comparison between the `AttributeSelector` and `rhs` value with the `^=` operator.
     pub fn string_starts_with(rhs: Value) -> Self {
-        Self::new(
-            Comparator::StringStartsWith,
-            &[Value::Text(rhs.to_string())],
-        )
+        Self::new(Comparator::StringStartsWith, &[rhs])
     }
 
     /// Create a new comparison between the `AttributeSelector` and `rhs` value with the `$=` operator.
@@ -1257,11 +1254,7 @@ impl ScopedAttributeAssertion {
 
     /// Create a new assertion between `lhs` and `rhs` with the `^=` operator.
     pub fn string_starts_with(lhs: ScopedValue, rhs: ScopedValue) -> Self {
-        Self::new(
-            lhs,
-            Comparator::StringStartsWith,
-            &[Value::Text(rhs.to_string()).into()],
-        )
+        Self::new(lhs, Comparator::StringStartsWith, &[rhs])
     }
 
     /// Create a new assertion between `lhs` and `rhs` with the `$=` operator.
-- 
2.43.0


From f53f9a5d370dc7992ae8f74e6463d66e75d44556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:32 +0000
Subject: [PATCH 34/35] fix: a number given to a scoped attribute builder stays
 a number

---
 atelier-core/src/builder/selector.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atelier-core/src/builder/selector.rs b/atelier-core/src/builder/selector.rs
index a26ae51..17e135f 100644
--- a/atelier-core/src/builder/selector.rs
+++ b/atelier-core/src/builder/selector.rs
@@ -1074,7 +1074,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberGreaterThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         ))
     }
 
@@ -1083,7 +1083,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberGreaterOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         ))
     }
 
@@ -1092,7 +1092,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberLessThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         ))
     }
 
@@ -1101,7 +1101,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberLessOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         ))
     }
 
-- 
2.43.0


From 4a6bc4fdb826f9c80b81aa63c27076d35ebd0ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:15 +0000
Subject: [PATCH 35/35] fix: the named constructors of scoped assertions keep a
 number as a number

---
 atelier-core/src/model/selector/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atelier-core/src/model/selector/mod.rs b/atelier-core/src/model/selector/mod.rs
index 1f6ec10..94c0eeb 100644
--- a/atelier-core/src/model/selector/mod.rs
+++ b/atelier-core/src/model/selector/mod.rs
@@ -1281,7 +1281,7 @@ impl ScopedAttributeAssertion {
         Self::new(
             lhs,
             Comparator::NumberGreaterThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         )
     }
 
@@ -1290,7 +1290,7 @@ impl ScopedAttributeAssertion {
         Self::new(
             lhs,
             Comparator::NumberGreaterOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         )
     }
 
@@ -1299,7 +1299,7 @@ impl ScopedAttributeAssertion {
         Self::new(
             lhs,
             Comparator::NumberLessThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         )
     }
 
@@ -1308,7 +1308,7 @@ impl ScopedAttributeAssertion {
         Self::new(
             lhs,
             Comparator::NumberLessOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[Value::Number(rhs).into()],
         )
     }
 
-- 
2.43.0

