From fbbca2ab572b093311462d13a3753b342d2e5392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:13 +0000
Subject: [PATCH 01/21] fix: accept HTTP responses without htv:headers

Empty headers are skipped on serialization but were mandatory on
deserialization, so a response carrying only htv:statusCodeValue (or
nothing at all) could not be read back.
---
 src/protocol/http.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/http.rs b/src/protocol/http.rs
index 23c953e..7e02eba 100644
--- a/src/protocol/http.rs
+++ b/src/protocol/http.rs
@@ -31,7 +31,7 @@ pub struct MessageHeader {
 #[skip_serializing_none]
 #[derive(Debug, Clone, Deserialize, Serialize, Default, PartialEq, Eq, Hash)]
 pub struct Response {
-    #[serde(rename = "htv:headers")]
+    #[serde(rename = "htv:headers", default)]
     #[serde(skip_serializing_if = "Vec::is_empty")]
     pub headers: Vec<MessageHeader>,
     #[serde(rename = "htv:statusCodeValue")]
-- 
2.43.0


From 5e8c3283fb5f79d680040228b839800dda6f3713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:47 +0000
Subject: [PATCH 02/21] fix: use the TD terms minItems and maxItems for array
 schemas

The members were (de)serialized as min_items and max_items, so the
limits of a standard document were silently dropped.
---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index 9e41789..3d1f1b8 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -783,6 +783,7 @@ impl<DS, AS, OS> Default for DataSchemaSubtype<DS, AS, OS> {
     deserialize = "DS: Deserialize<'de>, AS: Deserialize<'de>, OS: Deserialize<'de>",
     serialize = "DS: Serialize, AS: Serialize, OS: Serialize"
 ))]
+#[serde(rename_all = "camelCase")]
 pub struct ArraySchema<DS, AS, OS> {
     /// The characteristics of the JSON array.
     ///
-- 
2.43.0


From 865656d28aa61800a5edab688ba46f49dd63def9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:01 +0000
Subject: [PATCH 03/21] fix: do not serialize an absent version model as null

---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index 3d1f1b8..495ee2b 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -644,6 +644,7 @@ where
 }
 
 /// Metadata of a `Thing` that provides version information about the _Thing Description_ document.
+#[skip_serializing_none]
 #[derive(Debug, Clone, Default, PartialEq, Eq, Hash, Deserialize, Serialize)]
 pub struct VersionInfo {
     /// The version indicator of this _Thing Description_ instance.
-- 
2.43.0


From 0dc318852c75ae2954fb1ac1ac129d62ec3c0ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:14 +0000
Subject: [PATCH 04/21] fix: default the digest security scheme qop to auth

A digest scheme without qop is valid, but it was read as an unknown
scheme.
---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index 495ee2b..b395301 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -1271,6 +1271,7 @@ impl SecurityAuthenticationLocation {
 #[derive(Clone, Debug, PartialEq, Eq, Hash, Deserialize, Serialize)]
 pub struct DigestSecurityScheme {
     /// Quality of protection.
+    #[serde(default)]
     pub qop: QualityOfProtection,
 
     /// The location of security authentication information.
-- 
2.43.0


From 7f5a7576ed2092c5600462f19ea45bcf1c162727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:24 +0000
Subject: [PATCH 05/21] fix: make custom security schemes without data survive
 a round trip

The data of a custom scheme is flattened, an absent one is always read
back as an empty object.
---
 src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 69dc9f4..e6f80f3 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -2134,7 +2134,7 @@ pub mod security {
                 name,
                 subtype: UnknownSecuritySchemeSubtype {
                     scheme,
-                    data: Value::Null,
+                    data: Value::Object(Default::default()),
                 },
                 required,
             }
-- 
2.43.0


From 1952543495d5df973fc3c098221cf95a0883a01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:39 +0000
Subject: [PATCH 06/21] fix: accept the TD term dataResponse in event
 affordances

The member was only read when named data_response, a standard
dataResponse was silently dropped.
---
 src/thing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thing.rs b/src/thing.rs
index b395301..3942a28 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -578,6 +578,7 @@ pub struct EventAffordance<Other: ExtendableThing> {
     pub data: Option<DataSchemaFromOther<Other>>,
 
     /// Data schema of the responsed messages sent by the consumer in a response to a data message.
+    #[serde(alias = "dataResponse")]
     pub data_response: Option<DataSchemaFromOther<Other>>,
 
     /// Data that needs to be passed to cancel a subscription.
-- 
2.43.0


From 973ef5eea0847e84465341c28179708534870d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:52 +0000
Subject: [PATCH 07/21] fix: keep null const and default values of data schemas

They were serialized as null, but read back as if they were absent.
---
 src/thing.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/thing.rs b/src/thing.rs
index 3942a28..0698b14 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -692,10 +692,15 @@ pub struct DataSchema<DS, AS, OS> {
     pub descriptions: Option<MultiLanguage>,
 
     /// A constant value for the data schema.
-    #[serde(rename = "const")]
+    #[serde(
+        rename = "const",
+        default,
+        deserialize_with = "deserialize_present_value"
+    )]
     pub constant: Option<Value>,
 
     /// A default value for the data schema.
+    #[serde(default, deserialize_with = "deserialize_present_value")]
     pub default: Option<Value>,
 
     /// Unit information used for the data schema (e.g. Km, g, m/s^2)
@@ -728,6 +733,14 @@ pub struct DataSchema<DS, AS, OS> {
     pub other: DS,
 }
 
+/// Deserializes a value that is present, for which `null` is as good as any other value.
+fn deserialize_present_value<'de, D>(deserializer: D) -> Result<Option<Value>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    Value::deserialize(deserializer).map(Some)
+}
+
 pub(crate) type DataSchemaFromOther<Other> = DataSchema<
     <Other as ExtendableThing>::DataSchema,
     <Other as ExtendableThing>::ArraySchema,
-- 
2.43.0


From f2088a1b0c9f049d031391bfaaf25872657ebdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:44 +0000
Subject: [PATCH 08/21] fix: do not serialize the property human-readable
 information twice

A property affordance flattens both an interaction affordance and a data
schema, which share @type, title(s) and description(s). The resulting
text had duplicated members and it could not be parsed back.
---
 src/thing.rs | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/thing.rs b/src/thing.rs
index 0698b14..0105c23 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -395,7 +395,10 @@ where
 #[derive(Deserialize, Serialize)]
 pub struct PropertyAffordance<Other: ExtendableThing> {
     /// The interaction affordance.
-    #[serde(flatten)]
+    #[serde(
+        flatten,
+        serialize_with = "serialize_interaction_without_human_readable_info"
+    )]
     pub interaction: InteractionAffordance<Other>,
 
     /// The data schema representing the property.
@@ -464,6 +467,42 @@ where
     }
 }
 
+/// Serializes an interaction affordance that is flattened together with a data schema.
+///
+/// The human-readable information is shared with the data schema, which is already serializing it.
+fn serialize_interaction_without_human_readable_info<Other, S>(
+    interaction: &InteractionAffordance<Other>,
+    serializer: S,
+) -> Result<S::Ok, S::Error>
+where
+    Other: ExtendableThing + Serialize,
+    S: Serializer,
+{
+    #[skip_serializing_none]
+    #[derive(Serialize)]
+    #[serde(rename_all = "camelCase")]
+    struct Interaction<'a, Other: ExtendableThing> {
+        forms: &'a Vec<Form<Other>>,
+        uri_variables: Option<&'a DataSchemaMap<Other>>,
+        #[serde(flatten)]
+        other: &'a Other::InteractionAffordance,
+    }
+
+    let InteractionAffordance {
+        forms,
+        uri_variables,
+        other,
+        ..
+    } = interaction;
+
+    Interaction::<Other> {
+        forms,
+        uri_variables: uri_variables.as_ref(),
+        other,
+    }
+    .serialize(serializer)
+}
+
 /// An affordance that allows to inkvoke a function of the `Thing`.
 #[skip_serializing_none]
 #[derive(Deserialize, Serialize)]
-- 
2.43.0


From c16712f0cc61bd705a30c8c96cd86f1851a29968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:16 +0000
Subject: [PATCH 09/21] fix: accept ranges mixing inclusive and exclusive
 limits

A valid range like minimum 0 and exclusiveMaximum 10 was rejected as if
the minimum was greater than the maximum.
---
 src/builder/data_schema.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/builder/data_schema.rs b/src/builder/data_schema.rs
index 55d3d4a..f0607ba 100644
--- a/src/builder/data_schema.rs
+++ b/src/builder/data_schema.rs
@@ -3849,9 +3849,7 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     match (number.minimum, number.maximum) {
                         (Some(x), _) if x.is_nan() => return Err(Error::NanMinMax),
                         (_, Some(x)) if x.is_nan() => return Err(Error::NanMinMax),
-                        (Some(min), Some(max))
-                            if matches!(min.partial_cmp(&max), None | Some(Ordering::Greater)) =>
-                        {
+                        (Some(min), Some(max)) if is_empty_range(&min, &max) => {
                             return Err(Error::InvalidMinMax)
                         }
                         _ => {}
@@ -3865,9 +3863,7 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     }
                 }
                 Integer(integer) => match (integer.minimum, integer.maximum) {
-                    (Some(min), Some(max))
-                        if matches!(min.partial_cmp(&max), None | Some(Ordering::Greater)) =>
-                    {
+                    (Some(min), Some(max)) if is_empty_range(&min, &max) => {
                         return Err(Error::InvalidMinMax)
                     }
                     _ => {}
@@ -3893,6 +3889,19 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
     }
 }
 
+/// Returns `true` if there are no values between `min` and `max`.
+///
+/// The limits are not required to be both inclusive or both exclusive, therefore it is necessary to
+/// compare the inner values.
+fn is_empty_range<T: PartialOrd>(min: &Minimum<T>, max: &Maximum<T>) -> bool {
+    match (min, max) {
+        (Minimum::Inclusive(min), Maximum::Inclusive(max))
+        | (Minimum::Exclusive(min), Maximum::Exclusive(max)) => min > max,
+        (Minimum::Inclusive(min), Maximum::Exclusive(max))
+        | (Minimum::Exclusive(min), Maximum::Inclusive(max)) => min >= max,
+    }
+}
+
 fn check_one_of_schema<T>(one_of: Option<&[T]>) -> Result<(), Error>
 where
     T: CheckableDataSchema,
-- 
2.43.0


From a144f190883a25653a7699bda5b3778cc450cbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 10/21] fix: reject a NaN multipleOf

It is not strictly greater than zero and it has no JSON representation.
---
 src/builder/data_schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder/data_schema.rs b/src/builder/data_schema.rs
index f0607ba..872a4a9 100644
--- a/src/builder/data_schema.rs
+++ b/src/builder/data_schema.rs
@@ -3856,7 +3856,7 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     }
 
                     match number.multiple_of {
-                        Some(multiple_of) if multiple_of <= 0. => {
+                        Some(multiple_of) if multiple_of.is_nan() || multiple_of <= 0. => {
                             return Err(Error::InvalidMultipleOf)
                         }
                         _ => {}
-- 
2.43.0


From 938a4f753b30a998264d310bccb3c04615aa30e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:02 +0000
Subject: [PATCH 11/21] fix: reject string schemas with minLength greater than
 maxLength

---
 src/builder/data_schema.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/builder/data_schema.rs b/src/builder/data_schema.rs
index 872a4a9..6f37864 100644
--- a/src/builder/data_schema.rs
+++ b/src/builder/data_schema.rs
@@ -3872,7 +3872,11 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
                     properties: Some(properties),
                     ..
                 }) => stack.extend(properties.values()),
-                Object(_) | String(_) | Boolean | Null => {}
+                String(string) => match (string.min_length, string.max_length) {
+                    (Some(min), Some(max)) if min > max => return Err(Error::InvalidMinMax),
+                    _ => {}
+                },
+                Object(_) | Boolean | Null => {}
             }
         }
 
-- 
2.43.0


From 42de69b5f4f905b21c3e5a58510a17becb495bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 12/21] fix: check data schemas wherever they are used

Schema definitions, URI variables and event data responses were not
checked for invalid limits and multipleOf, differently from any other
data schema.
---
 src/builder.rs            |  8 ++++++++
 src/builder/affordance.rs | 19 +++++++++++++------
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index e6f80f3..6370e2c 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -820,6 +820,9 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                     .then_some(())
                     .ok_or_else(|| Error::MissingSchemaDefinition(security_name.to_string()))
             })?;
+        schema_definitions
+            .values()
+            .try_for_each(CheckableDataSchema::check)?;
         let schema_definitions = schema_definitions
             .into_iter()
             .map(|(key, value)| value.try_into().map(|value| (key, value)))
@@ -872,6 +875,10 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
         if invalid_uri_variables {
             return Err(Error::InvalidUriVariables);
         }
+        uri_variables
+            .iter()
+            .flat_map(HashMap::values)
+            .try_for_each(CheckableDataSchema::check)?;
 
         let uri_variables = uri_variables
             .map(|uri_variables| {
@@ -921,6 +928,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                 [
                     event.subscription.as_ref(),
                     event.data.as_ref(),
+                    event.data_response.as_ref(),
                     event.cancellation.as_ref(),
                 ]
             },
diff --git a/src/builder/affordance.rs b/src/builder/affordance.rs
index a594013..9436f7a 100644
--- a/src/builder/affordance.rs
+++ b/src/builder/affordance.rs
@@ -23,12 +23,12 @@ use super::{
         impl_inner_delegate_schema_builder_like_number,
         impl_inner_delegate_schema_builder_like_object,
         impl_inner_delegate_schema_builder_like_tuple, impl_inner_delegate_schema_builder_like_vec,
-        uri_variables_contains_arrays_objects, BuildableDataSchema, DataSchemaBuilder,
-        EnumerableDataSchema, IntegerDataSchemaBuilderLike, NumberDataSchemaBuilderLike,
-        ObjectDataSchemaBuilderLike, PartialDataSchema, PartialDataSchemaBuilder,
-        ReadableWriteableDataSchema, SpecializableDataSchema, TupleDataSchemaBuilderLike,
-        UncheckedDataSchemaFromOther, UncheckedDataSchemaMap, UnionDataSchema,
-        VecDataSchemaBuilderLike,
+        uri_variables_contains_arrays_objects, BuildableDataSchema, CheckableDataSchema,
+        DataSchemaBuilder, EnumerableDataSchema, IntegerDataSchemaBuilderLike,
+        NumberDataSchemaBuilderLike, ObjectDataSchemaBuilderLike, PartialDataSchema,
+        PartialDataSchemaBuilder, ReadableWriteableDataSchema, SpecializableDataSchema,
+        TupleDataSchemaBuilderLike, UncheckedDataSchemaFromOther, UncheckedDataSchemaMap,
+        UnionDataSchema, VecDataSchemaBuilderLike,
     },
     human_readable_info::{
         impl_delegate_buildable_hr_info, BuildableHumanReadableInfo, HumanReadableInfo,
@@ -2459,6 +2459,9 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
         if uri_variables_contains_arrays_objects::<Other>(&self.uri_variables) {
             return Err(Error::InvalidUriVariables);
         }
+        self.uri_variables
+            .values()
+            .try_for_each(CheckableDataSchema::check)?;
 
         Ok(())
     }
@@ -2485,6 +2488,10 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
         if uri_variables_contains_arrays_objects::<Other>(&self.partial.uri_variables) {
             return Err(Error::InvalidUriVariables);
         }
+        self.partial
+            .uri_variables
+            .values()
+            .try_for_each(CheckableDataSchema::check)?;
 
         Ok(())
     }
-- 
2.43.0


From 42604f400dfd77ed1877e8fbf7e134f8e546fa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 13/21] fix: check the additional response schemas of
 affordance forms

Only the schemas named by the Thing-level forms were required to be
declared in the schema definitions.
---
 src/builder.rs            | 43 +++++++++++++++++++++++++--------------
 src/builder/affordance.rs | 17 ++++++++++++----
 2 files changed, 41 insertions(+), 19 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 6370e2c..c14f326 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -845,11 +845,6 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
             })
             .transpose()?;
 
-        let schema_definitions = schema_definitions
-            .is_empty()
-            .not()
-            .then_some(schema_definitions);
-
         let context = {
             // TODO: improve this
             if context.len() == 1 {
@@ -904,6 +899,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                 )
             },
             &security_definitions,
+            &schema_definitions,
         )?;
         let actions = try_build_affordance(
             actions,
@@ -919,6 +915,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                 )
             },
             &security_definitions,
+            &schema_definitions,
         )?;
         let events = try_build_affordance(
             events,
@@ -939,7 +936,14 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
                 )
             },
             &security_definitions,
+            &schema_definitions,
         )?;
+
+        let schema_definitions = schema_definitions
+            .is_empty()
+            .not()
+            .then_some(schema_definitions);
+
         let links = links
             .map(|links| links.into_iter().map(TryInto::try_into).collect())
             .transpose()?;
@@ -1042,15 +1046,7 @@ impl<Other: ExtendableThing, Status> ThingBuilder<Other, Status> {
             }
         }
 
-        additional_responses
-            .iter()
-            .flat_map(|additional_response| additional_response.schema.as_ref())
-            .try_for_each(|schema| {
-                schema_definitions
-                    .contains_key(schema)
-                    .then_some(())
-                    .ok_or_else(|| Error::MissingSchemaDefinition(schema.clone()))
-            })?;
+        check_additional_responses(&additional_responses, schema_definitions)?;
         let additional_responses = additional_responses
             .is_empty()
             .not()
@@ -1688,13 +1684,14 @@ where
     }
 }
 
-fn try_build_affordance<A, F, IA, G, DS, T, H, const N: usize>(
+fn try_build_affordance<A, F, IA, G, DS, T, H, SD, const N: usize>(
     affordances: Vec<AffordanceBuilder<A>>,
     affordance_type: AffordanceType,
     mut get_interaction: F,
     mut get_data_schemas: G,
     is_allowed_op: H,
     security_definitions: &HashMap<String, SecurityScheme>,
+    schema_definitions: &HashMap<String, SD>,
 ) -> Result<Option<HashMap<String, T>>, Error>
 where
     F: FnMut(&A) -> &IA,
@@ -1718,6 +1715,7 @@ where
 
                     get_interaction(&affordance).check(
                         security_definitions,
+                        schema_definitions,
                         affordance_type,
                         &is_allowed_op,
                     )?;
@@ -1744,6 +1742,21 @@ where
         .transpose()
 }
 
+fn check_additional_responses<SD>(
+    additional_responses: &[AdditionalExpectedResponse],
+    schema_definitions: &HashMap<String, SD>,
+) -> Result<(), Error> {
+    additional_responses
+        .iter()
+        .flat_map(|additional_response| additional_response.schema.as_ref())
+        .try_for_each(|schema| {
+            schema_definitions
+                .contains_key(schema)
+                .then_some(())
+                .ok_or_else(|| Error::MissingSchemaDefinition(schema.clone()))
+        })
+}
+
 enum Context {
     Simple(String),
     Map(HashMap<String, String>),
diff --git a/src/builder/affordance.rs b/src/builder/affordance.rs
index 9436f7a..8d91253 100644
--- a/src/builder/affordance.rs
+++ b/src/builder/affordance.rs
@@ -18,6 +18,7 @@ use crate::{
 };
 
 use super::{
+    check_additional_responses,
     data_schema::{
         buildable_data_schema_delegate, impl_inner_delegate_schema_builder_like_integer,
         impl_inner_delegate_schema_builder_like_number,
@@ -2428,9 +2429,10 @@ where
 }
 
 pub(super) trait CheckableInteractionAffordanceBuilder {
-    fn check<F>(
+    fn check<F, SD>(
         &self,
         security_definitions: &HashMap<String, SecurityScheme>,
+        schema_definitions: &HashMap<String, SD>,
         affordance_type: AffordanceType,
         is_allowed_op: F,
     ) -> Result<(), Error>
@@ -2441,9 +2443,10 @@ pub(super) trait CheckableInteractionAffordanceBuilder {
 impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
     for PartialInteractionAffordanceBuilder<Other, Other::InteractionAffordance>
 {
-    fn check<F>(
+    fn check<F, SD>(
         &self,
         security_definitions: &HashMap<String, SecurityScheme>,
+        schema_definitions: &HashMap<String, SD>,
         affordance_type: AffordanceType,
         is_allowed_op: F,
     ) -> Result<(), Error>
@@ -2453,6 +2456,7 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
         check_form_builders(
             &self.forms,
             security_definitions,
+            schema_definitions,
             affordance_type,
             is_allowed_op,
         )?;
@@ -2470,9 +2474,10 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
 impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
     for InteractionAffordanceBuilder<Other, Other::InteractionAffordance>
 {
-    fn check<F>(
+    fn check<F, SD>(
         &self,
         security_definitions: &HashMap<String, SecurityScheme>,
+        schema_definitions: &HashMap<String, SD>,
         affordance_type: AffordanceType,
         is_allowed_op: F,
     ) -> Result<(), Error>
@@ -2482,6 +2487,7 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
         check_form_builders(
             &self.partial.forms,
             security_definitions,
+            schema_definitions,
             affordance_type,
             is_allowed_op,
         )?;
@@ -2497,9 +2503,10 @@ impl<Other: ExtendableThing> CheckableInteractionAffordanceBuilder
     }
 }
 
-pub(super) fn check_form_builders<Other, F>(
+pub(super) fn check_form_builders<Other, F, SD>(
     forms: &[FormBuilder<Other, String, Other::Form>],
     security_definitions: &HashMap<String, SecurityScheme>,
+    schema_definitions: &HashMap<String, SD>,
     affordance_type: AffordanceType,
     is_allowed_op: F,
 ) -> Result<(), Error>
@@ -2530,6 +2537,8 @@ where
                 })
             })
             .transpose()?;
+
+        check_additional_responses(&form.additional_responses, schema_definitions)?;
     }
 
     Ok(())
-- 
2.43.0


From 6b901d1d2cd3603024df834718d2ee1c64fbc3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 14/21] fix: reject equal exclusive limits

---
 src/builder/data_schema.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/builder/data_schema.rs b/src/builder/data_schema.rs
index 6f37864..31bef1b 100644
--- a/src/builder/data_schema.rs
+++ b/src/builder/data_schema.rs
@@ -3899,9 +3899,8 @@ pub(super) fn check_data_schema_subtype<DS, AS, OS>(
 /// compare the inner values.
 fn is_empty_range<T: PartialOrd>(min: &Minimum<T>, max: &Maximum<T>) -> bool {
     match (min, max) {
-        (Minimum::Inclusive(min), Maximum::Inclusive(max))
-        | (Minimum::Exclusive(min), Maximum::Exclusive(max)) => min > max,
-        (Minimum::Inclusive(min), Maximum::Exclusive(max))
+        (Minimum::Inclusive(min), Maximum::Inclusive(max)) => min > max,
+        (Minimum::Inclusive(min) | Minimum::Exclusive(min), Maximum::Exclusive(max))
         | (Minimum::Exclusive(min), Maximum::Inclusive(max)) => min >= max,
     }
 }
-- 
2.43.0


From b7ce2a174c7cbed7afc90a6fffb1efda4d985dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:22 +0000
Subject: [PATCH 15/21] fix: read an empty list of form operations as the
 default ones

---
 src/thing.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/thing.rs b/src/thing.rs
index 0105c23..36c5179 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -1743,7 +1743,11 @@ where
         D: Deserializer<'de>,
     {
         let ops = Option::<OneOrMany<_>>::deserialize_as(deserializer)?;
-        Ok(ops.map(Self::Custom).unwrap_or(Self::Default))
+        // An empty list is serialized as the absence of operations
+        Ok(ops
+            .filter(|ops: &Vec<_>| !ops.is_empty())
+            .map(Self::Custom)
+            .unwrap_or(Self::Default))
     }
 }
 
-- 
2.43.0


From 95f4baf471484589eae07717ed48b81f6e7a6fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 16/21] fix: refuse malformed type-specific members of data
 schemas

---
 src/thing.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/thing.rs b/src/thing.rs
index 36c5179..8932a0a 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -711,6 +711,10 @@ where
 #[serde_as]
 #[skip_serializing_none]
 #[derive(Clone, Debug, Default, PartialEq, Deserialize, Serialize)]
+#[serde(bound(
+    deserialize = "DS: Deserialize<'de>, AS: Deserialize<'de>, OS: Deserialize<'de>",
+    serialize = "DS: Serialize, AS: Serialize, OS: Serialize"
+))]
 #[serde(rename_all = "camelCase")]
 pub struct DataSchema<DS, AS, OS> {
     /// JSON-LD keyword to label the object with semantic tags or types.
@@ -764,7 +768,7 @@ pub struct DataSchema<DS, AS, OS> {
     pub format: Option<String>,
 
     /// The JSON-based subtype of the data schema.
-    #[serde(flatten)]
+    #[serde(flatten, deserialize_with = "deserialize_subtype")]
     pub subtype: Option<DataSchemaSubtype<DS, AS, OS>>,
 
     /// Data schema extension.
@@ -780,6 +784,28 @@ where
     Value::deserialize(deserializer).map(Some)
 }
 
+/// Deserializes the members of a data schema that depend on its type.
+///
+/// Flattening an [`Option`] discards any error, therefore a single invalid member would make all of
+/// them disappear.
+fn deserialize_subtype<'de, D, DS, AS, OS>(
+    deserializer: D,
+) -> Result<Option<DataSchemaSubtype<DS, AS, OS>>, D::Error>
+where
+    D: Deserializer<'de>,
+    DS: Deserialize<'de>,
+    AS: Deserialize<'de>,
+    OS: Deserialize<'de>,
+{
+    let members = serde_json::Map::deserialize(deserializer)?;
+    match members.get("type") {
+        None | Some(Value::Null) => Ok(None),
+        Some(_) => DataSchemaSubtype::deserialize(Value::Object(members))
+            .map(Some)
+            .map_err(serde::de::Error::custom),
+    }
+}
+
 pub(crate) type DataSchemaFromOther<Other> = DataSchema<
     <Other as ExtendableThing>::DataSchema,
     <Other as ExtendableThing>::ArraySchema,
-- 
2.43.0


From 6813fefa77d12a2b8b1b2ac33242c48283e4a52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 17/21] fix: refuse malformed limits of number and integer
 schemas

---
 src/thing.rs | 66 ++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 62 insertions(+), 4 deletions(-)

diff --git a/src/thing.rs b/src/thing.rs
index 8932a0a..24de3b4 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -1073,17 +1073,75 @@ macro_rules! impl_minmax_float {
 
 impl_minmax_float!(f32, f64);
 
+/// Deserializes the higher limit of a value.
+///
+/// If both limits are present, the one that implies the other is taken.
+fn deserialize_maximum<'de, D, T>(deserializer: D) -> Result<Option<Maximum<T>>, D::Error>
+where
+    D: Deserializer<'de>,
+    T: Deserialize<'de> + PartialOrd,
+{
+    #[derive(Deserialize)]
+    #[serde(rename_all = "camelCase")]
+    struct Limits<T> {
+        maximum: Option<T>,
+        exclusive_maximum: Option<T>,
+    }
+
+    let Limits {
+        maximum,
+        exclusive_maximum,
+    } = Limits::deserialize(deserializer)?;
+
+    Ok(match (maximum, exclusive_maximum) {
+        (Some(inclusive), Some(exclusive)) if inclusive < exclusive => {
+            Some(Maximum::Inclusive(inclusive))
+        }
+        (_, Some(exclusive)) => Some(Maximum::Exclusive(exclusive)),
+        (inclusive, None) => inclusive.map(Maximum::Inclusive),
+    })
+}
+
+/// Deserializes the lower limit of a value.
+///
+/// If both limits are present, the one that implies the other is taken.
+fn deserialize_minimum<'de, D, T>(deserializer: D) -> Result<Option<Minimum<T>>, D::Error>
+where
+    D: Deserializer<'de>,
+    T: Deserialize<'de> + PartialOrd,
+{
+    #[derive(Deserialize)]
+    #[serde(rename_all = "camelCase")]
+    struct Limits<T> {
+        minimum: Option<T>,
+        exclusive_minimum: Option<T>,
+    }
+
+    let Limits {
+        minimum,
+        exclusive_minimum,
+    } = Limits::deserialize(deserializer)?;
+
+    Ok(match (minimum, exclusive_minimum) {
+        (Some(inclusive), Some(exclusive)) if inclusive > exclusive => {
+            Some(Minimum::Inclusive(inclusive))
+        }
+        (_, Some(exclusive)) => Some(Minimum::Exclusive(exclusive)),
+        (inclusive, None) => inclusive.map(Minimum::Inclusive),
+    })
+}
+
 /// A number metadata.
 #[skip_serializing_none]
 #[derive(Clone, Debug, Default, PartialEq, Deserialize, Serialize)]
 #[serde(rename_all = "camelCase")]
 pub struct NumberSchema {
     /// The higher limit of the value.
-    #[serde(flatten)]
+    #[serde(flatten, deserialize_with = "deserialize_maximum")]
     pub maximum: Option<Maximum<f64>>,
 
     /// The lower limit of the value.
-    #[serde(flatten)]
+    #[serde(flatten, deserialize_with = "deserialize_minimum")]
     pub minimum: Option<Minimum<f64>>,
 
     /// It adds the requirement that the numeric value must be a multiple of this.
@@ -1097,11 +1155,11 @@ pub struct NumberSchema {
 // FIXME: we should probably use a Decimal type
 pub struct IntegerSchema {
     /// The higher limit of the value.
-    #[serde(flatten)]
+    #[serde(flatten, deserialize_with = "deserialize_maximum")]
     pub maximum: Option<Maximum<i64>>,
 
     /// The lower limit of the value.
-    #[serde(flatten)]
+    #[serde(flatten, deserialize_with = "deserialize_minimum")]
     pub minimum: Option<Minimum<i64>>,
 
     /// It adds the requirement that the numeric value must be a multiple of this.
-- 
2.43.0


From d22c1002ff2f19c6cf071e0b218dcd4352a32047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:52 +0000
Subject: [PATCH 18/21] fix: read combo security schemes which have further
 members

---
 src/thing.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/thing.rs b/src/thing.rs
index 24de3b4..e5fecff 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -1337,7 +1337,7 @@ impl Default for SecuritySchemeSubtype {
 /// A combination of security schemes.
 #[serde_as]
 #[derive(Clone, Debug, PartialEq, Eq, Hash, Deserialize, Serialize)]
-#[serde(rename_all = "camelCase")]
+#[serde(rename_all = "camelCase", try_from = "ComboSecuritySchemeMembers")]
 pub enum ComboSecurityScheme {
     /// Two or more strings identifying other named security scheme definitions, any one of which,
     /// when satisfied, will allow access.
@@ -1348,6 +1348,32 @@ pub enum ComboSecurityScheme {
     AllOf(#[serde_as(as = "OneOrMany<_>")] Vec<String>),
 }
 
+/// The members of a combination of security schemes, among which there can be others.
+#[serde_as]
+#[derive(Deserialize)]
+#[serde(rename_all = "camelCase")]
+struct ComboSecuritySchemeMembers {
+    #[serde(default)]
+    #[serde_as(as = "Option<OneOrMany<_>>")]
+    one_of: Option<Vec<String>>,
+
+    #[serde(default)]
+    #[serde_as(as = "Option<OneOrMany<_>>")]
+    all_of: Option<Vec<String>>,
+}
+
+impl TryFrom<ComboSecuritySchemeMembers> for ComboSecurityScheme {
+    type Error = &'static str;
+
+    fn try_from(members: ComboSecuritySchemeMembers) -> Result<Self, Self::Error> {
+        match (members.one_of, members.all_of) {
+            (Some(names), None) => Ok(Self::OneOf(names)),
+            (None, Some(names)) => Ok(Self::AllOf(names)),
+            _ => Err("expected either oneOf or allOf"),
+        }
+    }
+}
+
 /// Basic Authentication ([RFC7617](https://httpwg.org/specs/rfc7617.html)) security configuration
 #[skip_serializing_none]
 #[derive(Clone, Debug, PartialEq, Eq, Hash, Deserialize, Serialize)]
-- 
2.43.0


From 17087c7f7ad30273069d9002a3ff7ba9b08bba59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:03 +0000
Subject: [PATCH 19/21] fix: read security schemes with repeated members
 consistently

---
 src/thing.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/thing.rs b/src/thing.rs
index e5fecff..256f4ec 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -1264,10 +1264,22 @@ pub struct SecurityScheme {
     pub proxy: Option<String>,
 
     /// The security scheme subtype.
-    #[serde(flatten)]
+    #[serde(flatten, deserialize_with = "deserialize_security_subtype")]
     pub subtype: SecuritySchemeSubtype,
 }
 
+/// Deserializes the subtype of a security scheme.
+///
+/// The members are collected first, in order to give all the variants the same value for a member
+/// which is repeated.
+fn deserialize_security_subtype<'de, D>(deserializer: D) -> Result<SecuritySchemeSubtype, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    let members = serde_json::Map::deserialize(deserializer)?;
+    SecuritySchemeSubtype::deserialize(Value::Object(members)).map_err(serde::de::Error::custom)
+}
+
 /// A pre-defined security scheme subtype.
 #[derive(Clone, Debug, Default, PartialEq, Eq, Hash, Deserialize, Serialize)]
 #[serde(tag = "scheme", rename_all = "lowercase")]
-- 
2.43.0


From 91e772a1644b4fd7d2fb7510d08c1a3f9f21681d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:44 +0000
Subject: [PATCH 20/21] fix: refuse security schemes whose scheme is not a
 string

---
 src/thing.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/thing.rs b/src/thing.rs
index 256f4ec..be2be18 100644
--- a/src/thing.rs
+++ b/src/thing.rs
@@ -1277,6 +1277,12 @@ where
     D: Deserializer<'de>,
 {
     let members = serde_json::Map::deserialize(deserializer)?;
+    // the variants are not to be selected by their index
+    if !members.get("scheme").map_or(true, Value::is_string) {
+        return Err(serde::de::Error::custom(
+            "the scheme of a security definition must be a string",
+        ));
+    }
     SecuritySchemeSubtype::deserialize(Value::Object(members)).map_err(serde::de::Error::custom)
 }
 
-- 
2.43.0


From 60b05d10665112db244b6d44a2d25978c3de3169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:50 +0000
Subject: [PATCH 21/21] fix: keep one translation for a language tag whatever
 its letter case

The builder kept two variants of a tag until they were normalised, then an
undetermined one of them was lost.
---
 src/builder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index c14f326..9ca3b36 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1796,7 +1796,13 @@ impl<T> MultiLanguageBuilder<T> {
     ///
     /// NOTE: The language key is currently free-form
     pub fn add(&mut self, language: impl Into<String>, value: impl Into<T>) -> &mut Self {
-        self.values.insert(language.into(), value.into());
+        let language = language.into();
+
+        // The letter case of a language tag is not significant, do not keep two variants of the
+        // same tag because it is undetermined which one ends up in the result.
+        self.values
+            .retain(|known, _| !known.eq_ignore_ascii_case(&language));
+        self.values.insert(language, value.into());
         self
     }
 
-- 
2.43.0

