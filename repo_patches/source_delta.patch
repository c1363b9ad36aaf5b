From a6f034e2f4fea056fe6ba443c46f317bec2924a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 01/42] fix: parse the part list of CompleteMultipartUpload

---
 src/ops/complete_multipart_upload.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ops/complete_multipart_upload.rs b/src/ops/complete_multipart_upload.rs
index 7008694..d12b4d4 100644
--- a/src/ops/complete_multipart_upload.rs
+++ b/src/ops/complete_multipart_upload.rs
@@ -113,8 +113,8 @@ mod xml {
     /// `CompletedMultipartUpload`
     pub struct CompletedMultipartUpload {
         /// Part
-        #[serde(rename = "Part")]
-        parts: Option<Vec<CompletedPart>>,
+        #[serde(rename = "Part", default)]
+        parts: Vec<CompletedPart>,
     }
 
     /// `CompletedPart`
@@ -131,7 +131,7 @@ mod xml {
     impl From<CompletedMultipartUpload> for super::CompletedMultipartUpload {
         fn from(m: CompletedMultipartUpload) -> Self {
             Self {
-                parts: m.parts.map(|v| v.into_iter().map(From::from).collect()),
+                parts: Some(m.parts.into_iter().map(From::from).collect()),
             }
         }
     }
-- 
2.43.0


From 68a0072451593775d7daf0fe328c9407e62372ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 02/42] fix: read the exact text of XML request bodies

---
 src/ops/complete_multipart_upload.rs |  8 +++-
 src/ops/delete_objects.rs            |  8 +++-
 src/utils/body.rs                    | 65 +++++++++++++++++++++++++++-
 3 files changed, 77 insertions(+), 4 deletions(-)

diff --git a/src/ops/complete_multipart_upload.rs b/src/ops/complete_multipart_upload.rs
index d12b4d4..23576a8 100644
--- a/src/ops/complete_multipart_upload.rs
+++ b/src/ops/complete_multipart_upload.rs
@@ -108,6 +108,8 @@ impl S3Output for CompleteMultipartUploadOutput {
 mod xml {
     //! xml repr
 
+    use crate::utils::body::deserialize_trimmed;
+
     use serde::Deserialize;
     #[derive(Debug, Deserialize)]
     /// `CompletedMultipartUpload`
@@ -124,7 +126,11 @@ mod xml {
         #[serde(rename = "ETag")]
         e_tag: Option<String>,
         /// PartNumber
-        #[serde(rename = "PartNumber")]
+        #[serde(
+            rename = "PartNumber",
+            default,
+            deserialize_with = "deserialize_trimmed"
+        )]
         part_number: Option<i64>,
     }
 
diff --git a/src/ops/delete_objects.rs b/src/ops/delete_objects.rs
index 1e7411c..62b5b2e 100644
--- a/src/ops/delete_objects.rs
+++ b/src/ops/delete_objects.rs
@@ -120,6 +120,8 @@ impl From<DeleteObjectsError> for S3Error {
 mod xml {
     //! Xml repr
 
+    use crate::utils::body::deserialize_trimmed;
+
     use serde::Deserialize;
 
     /// Object Identifier is unique value to identify objects.
@@ -140,7 +142,11 @@ mod xml {
         #[serde(rename = "Object")]
         pub objects: Vec<ObjectIdentifier>,
         /// Element to enable quiet mode for the request. When you add this element, you must set its value to true.
-        #[serde(rename = "Quiet")]
+        #[serde(
+            rename = "Quiet",
+            default,
+            deserialize_with = "deserialize_trimmed"
+        )]
         pub quiet: Option<bool>,
     }
 
diff --git a/src/utils/body.rs b/src/utils/body.rs
index e75e451..3440fb1 100644
--- a/src/utils/body.rs
+++ b/src/utils/body.rs
@@ -5,18 +5,79 @@ use crate::streams::multipart::{FileStream, FileStreamError};
 use crate::utils::Apply;
 use crate::{Body, BoxStdError};
 
-use std::io;
+use std::fmt::Display;
+use std::io::{self, Write};
+use std::mem;
+use std::str::FromStr;
 
 use futures::stream::StreamExt;
-use serde::de::DeserializeOwned;
+use serde::de::{DeserializeOwned, Deserializer, Error};
+use serde::Deserialize;
+use xml::reader::{EventReader, XmlEvent};
 
 /// deserialize xml body
 pub async fn deserialize_xml_body<T: DeserializeOwned>(body: Body) -> Result<T, BoxStdError> {
     let bytes = hyper::body::to_bytes(body).await?;
+    let bytes = normalize_xml(&bytes)?;
     let ans: T = quick_xml::de::from_reader(&*bytes)?;
     Ok(ans)
 }
 
+/// rewrites a xml document to the form in which the deserializer reads the exact text of every element
+///
+/// The deserializer trims whitespaces and ignores everything after the first text node of an element.
+fn normalize_xml(bytes: &[u8]) -> Result<Vec<u8>, BoxStdError> {
+    if bytes.iter().all(u8::is_ascii_whitespace) {
+        return Ok(Vec::new());
+    }
+
+    let mut ans = Vec::with_capacity(bytes.len());
+    let mut text = String::new();
+    let mut is_leaf = false;
+
+    for event in EventReader::new(bytes) {
+        match event? {
+            XmlEvent::StartElement { name, .. } => {
+                write!(ans, "<{}>", name.local_name)?;
+                text.clear();
+                is_leaf = true;
+            }
+            XmlEvent::EndElement { name } => {
+                if mem::take(&mut is_leaf) {
+                    for ch in text.chars() {
+                        if ch.is_whitespace() || matches!(ch, '<' | '>' | '&') {
+                            write!(ans, "&#{};", u32::from(ch))?;
+                        } else {
+                            write!(ans, "{ch}")?;
+                        }
+                    }
+                }
+                write!(ans, "</{}>", name.local_name)?;
+            }
+            XmlEvent::Characters(s) | XmlEvent::CData(s) | XmlEvent::Whitespace(s) => {
+                text.push_str(&s);
+            }
+            XmlEvent::StartDocument { .. }
+            | XmlEvent::EndDocument
+            | XmlEvent::ProcessingInstruction { .. }
+            | XmlEvent::Comment(_) => {}
+        }
+    }
+
+    Ok(ans)
+}
+
+/// deserialize an optional value whose text may be surrounded by whitespaces
+pub fn deserialize_trimmed<'de, D, T>(deserializer: D) -> Result<Option<T>, D::Error>
+where
+    D: Deserializer<'de>,
+    T: FromStr,
+    T::Err: Display,
+{
+    let text = String::deserialize(deserializer)?;
+    text.trim().parse().map(Some).map_err(D::Error::custom)
+}
+
 /// transform `Body` into `ByteStream`
 pub fn transform_body_stream(body: Body) -> ByteStream {
     body.map(|try_chunk| {
-- 
2.43.0


From a6b97b060fc0d4b49ea96faef02dea16738e1c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 03/42] fix: pass the remaining request members to the storage

---
 src/data_structures/ordered_headers.rs | 17 ++++++++++++
 src/headers.rs                         |  6 ++++
 src/ops/complete_multipart_upload.rs   |  8 ++++--
 src/ops/copy_object.rs                 | 24 +++++++++++++++-
 src/ops/create_multipart_upload.rs     | 24 +++++++++++++---
 src/ops/delete_object.rs               |  8 ++++--
 src/ops/delete_objects.rs              | 13 +++++----
 src/ops/get_object.rs                  | 38 ++++++++++++++++++++++----
 src/ops/head_object.rs                 | 18 +++++++++---
 src/ops/list_objects.rs                | 10 +++++--
 src/ops/list_objects_v2.rs             | 10 +++++--
 src/ops/put_object.rs                  | 25 +++++++++++++----
 src/ops/upload_part.rs                 | 12 ++++++--
 13 files changed, 174 insertions(+), 39 deletions(-)

diff --git a/src/data_structures/ordered_headers.rs b/src/data_structures/ordered_headers.rs
index 3ec6cb0..7e4742c 100644
--- a/src/data_structures/ordered_headers.rs
+++ b/src/data_structures/ordered_headers.rs
@@ -2,6 +2,7 @@
 
 use crate::Request;
 
+use std::collections::HashMap;
 use std::str::FromStr;
 
 use hyper::header::{AsHeaderName, ToStrError};
@@ -84,6 +85,22 @@ impl<'a> OrderedHeaders<'a> {
             *opt = Some(s.to_owned());
         }
     }
+
+    /// Gets user metadata from the `x-amz-meta-*` headers
+    pub fn get_metadata(&self) -> Option<HashMap<String, String>> {
+        let metadata: HashMap<String, String> = self
+            .headers
+            .iter()
+            .filter_map(|&(name, value)| {
+                let meta_key = name.strip_prefix("x-amz-meta-")?;
+                (!meta_key.is_empty()).then(|| (meta_key.to_owned(), value.to_owned()))
+            })
+            .collect();
+        if metadata.is_empty() {
+            return None;
+        }
+        Some(metadata)
+    }
 }
 
 impl<'a> AsRef<[(&'a str, &'a str)]> for OrderedHeaders<'a> {
diff --git a/src/headers.rs b/src/headers.rs
index 69b8cce..c08e3eb 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -180,4 +180,10 @@ declare_header_name! {
 
     /// x-amz-expected-bucket-owner
     X_AMZ_EXPECTED_BUCKET_OWNER: "x-amz-expected-bucket-owner";
+
+    /// x-amz-source-expected-bucket-owner
+    X_AMZ_SOURCE_EXPECTED_BUCKET_OWNER: "x-amz-source-expected-bucket-owner";
+
+    /// x-amz-server-side-encryption-bucket-key-enabled
+    X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED: "x-amz-server-side-encryption-bucket-key-enabled";
 }
diff --git a/src/ops/complete_multipart_upload.rs b/src/ops/complete_multipart_upload.rs
index 23576a8..951c241 100644
--- a/src/ops/complete_multipart_upload.rs
+++ b/src/ops/complete_multipart_upload.rs
@@ -8,8 +8,8 @@ use crate::dto::{
 };
 use crate::errors::{S3Error, S3Result};
 use crate::headers::{
-    X_AMZ_EXPIRATION, X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_SERVER_SIDE_ENCRYPTION,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_VERSION_ID,
+    X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_EXPIRATION, X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER,
+    X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_VERSION_ID,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -61,6 +61,10 @@ async fn extract(ctx: &mut ReqContext<'_>) -> S3Result<CompleteMultipartUploadRe
     };
 
     let h = &ctx.headers;
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
     h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
 
     Ok(input)
diff --git a/src/ops/copy_object.rs b/src/ops/copy_object.rs
index 01d36c4..514705a 100644
--- a/src/ops/copy_object.rs
+++ b/src/ops/copy_object.rs
@@ -4,7 +4,10 @@ use super::{wrap_internal_error, ReqContext, S3Handler};
 
 use crate::dto::{CopyObjectError, CopyObjectOutput, CopyObjectRequest};
 use crate::errors::{S3Error, S3ErrorCode, S3Result};
-use crate::headers::AmzCopySource;
+use crate::headers::{
+    AmzCopySource, X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+    X_AMZ_SOURCE_EXPECTED_BUCKET_OWNER,
+};
 use crate::headers::{
     CACHE_CONTROL, CONTENT_DISPOSITION, CONTENT_ENCODING, CONTENT_LANGUAGE, CONTENT_TYPE, EXPIRES,
     X_AMZ_ACL, X_AMZ_COPY_SOURCE, X_AMZ_COPY_SOURCE_IF_MATCH, X_AMZ_COPY_SOURCE_IF_MODIFIED_SINCE,
@@ -64,6 +67,25 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<CopyObjectRequest> {
     };
 
     let h = &ctx.headers;
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
+    h.assign_str(
+        X_AMZ_SOURCE_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_source_bucket_owner,
+    );
+    h.assign(
+        X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+        &mut input.bucket_key_enabled,
+    )
+    .map_err(|err| {
+        invalid_request!(
+            "Invalid header: x-amz-server-side-encryption-bucket-key-enabled",
+            err
+        )
+    })?;
+    input.metadata = h.get_metadata();
     h.assign_str(X_AMZ_ACL, &mut input.acl);
     h.assign_str(CACHE_CONTROL, &mut input.cache_control);
     h.assign_str(CONTENT_DISPOSITION, &mut input.content_disposition);
diff --git a/src/ops/create_multipart_upload.rs b/src/ops/create_multipart_upload.rs
index 9ff5fb7..4bf40a7 100644
--- a/src/ops/create_multipart_upload.rs
+++ b/src/ops/create_multipart_upload.rs
@@ -8,10 +8,11 @@ use crate::dto::{
 use crate::errors::{S3Error, S3Result};
 use crate::headers::{
     CACHE_CONTROL, CONTENT_DISPOSITION, CONTENT_ENCODING, CONTENT_LANGUAGE, CONTENT_TYPE, EXPIRES,
-    X_AMZ_ABORT_DATE, X_AMZ_ABORT_RULE_ID, X_AMZ_ACL, X_AMZ_GRANT_FULL_CONTROL, X_AMZ_GRANT_READ,
-    X_AMZ_GRANT_READ_ACP, X_AMZ_GRANT_WRITE_ACP, X_AMZ_OBJECT_LOCK_LEGAL_HOLD,
-    X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE, X_AMZ_REQUEST_CHARGED,
-    X_AMZ_REQUEST_PAYER, X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
+    X_AMZ_ABORT_DATE, X_AMZ_ABORT_RULE_ID, X_AMZ_ACL, X_AMZ_EXPECTED_BUCKET_OWNER,
+    X_AMZ_GRANT_FULL_CONTROL, X_AMZ_GRANT_READ, X_AMZ_GRANT_READ_ACP, X_AMZ_GRANT_WRITE_ACP,
+    X_AMZ_OBJECT_LOCK_LEGAL_HOLD, X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE,
+    X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_SERVER_SIDE_ENCRYPTION,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CONTEXT, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
     X_AMZ_STORAGE_CLASS, X_AMZ_TAGGING, X_AMZ_WEBSITE_REDIRECT_LOCATION,
@@ -106,6 +107,21 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<CreateMultipartUploadRequest> {
     };
 
     let h = &ctx.headers;
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
+    h.assign(
+        X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+        &mut input.bucket_key_enabled,
+    )
+    .map_err(|err| {
+        invalid_request!(
+            "Invalid header: x-amz-server-side-encryption-bucket-key-enabled",
+            err
+        )
+    })?;
+    input.metadata = h.get_metadata();
     h.assign_str(X_AMZ_ACL, &mut input.acl);
     h.assign_str(CACHE_CONTROL, &mut input.cache_control);
     h.assign_str(CONTENT_DISPOSITION, &mut input.content_disposition);
diff --git a/src/ops/delete_object.rs b/src/ops/delete_object.rs
index dee4e8d..66e3812 100644
--- a/src/ops/delete_object.rs
+++ b/src/ops/delete_object.rs
@@ -5,8 +5,8 @@ use super::{wrap_internal_error, ReqContext, S3Handler};
 use crate::dto::{DeleteObjectError, DeleteObjectOutput, DeleteObjectRequest};
 use crate::errors::{S3Error, S3Result};
 use crate::headers::{
-    X_AMZ_BYPASS_GOVERNANCE_RETENTION, X_AMZ_DELETE_MARKER, X_AMZ_MFA, X_AMZ_REQUEST_CHARGED,
-    X_AMZ_REQUEST_PAYER, X_AMZ_VERSION_ID,
+    X_AMZ_BYPASS_GOVERNANCE_RETENTION, X_AMZ_DELETE_MARKER, X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_MFA,
+    X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_VERSION_ID,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -45,6 +45,10 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<DeleteObjectRequest> {
     };
 
     let h = &ctx.headers;
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
 
     h.assign(
         X_AMZ_BYPASS_GOVERNANCE_RETENTION,
diff --git a/src/ops/delete_objects.rs b/src/ops/delete_objects.rs
index 62b5b2e..e50942e 100644
--- a/src/ops/delete_objects.rs
+++ b/src/ops/delete_objects.rs
@@ -7,7 +7,8 @@ use crate::dto::{
 };
 use crate::errors::{S3Error, S3Result};
 use crate::headers::{
-    X_AMZ_BYPASS_GOVERNANCE_RETENTION, X_AMZ_MFA, X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER,
+    X_AMZ_BYPASS_GOVERNANCE_RETENTION, X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_MFA,
+    X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -52,6 +53,10 @@ pub async fn extract(ctx: &mut ReqContext<'_>) -> S3Result<DeleteObjectsRequest>
     };
 
     let h = &ctx.headers;
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
     h.assign_str(X_AMZ_MFA, &mut input.mfa);
     h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
     h.assign(
@@ -142,11 +147,7 @@ mod xml {
         #[serde(rename = "Object")]
         pub objects: Vec<ObjectIdentifier>,
         /// Element to enable quiet mode for the request. When you add this element, you must set its value to true.
-        #[serde(
-            rename = "Quiet",
-            default,
-            deserialize_with = "deserialize_trimmed"
-        )]
+        #[serde(rename = "Quiet", default, deserialize_with = "deserialize_trimmed")]
         pub quiet: Option<bool>,
     }
 
diff --git a/src/ops/get_object.rs b/src/ops/get_object.rs
index 88d347f..15f1546 100644
--- a/src/ops/get_object.rs
+++ b/src/ops/get_object.rs
@@ -8,12 +8,13 @@ use crate::headers::{
     ACCEPT_RANGES, CACHE_CONTROL, CONTENT_DISPOSITION, CONTENT_ENCODING, CONTENT_LANGUAGE,
     CONTENT_LENGTH, CONTENT_RANGE, CONTENT_TYPE, ETAG, EXPIRES, IF_MATCH, IF_MODIFIED_SINCE,
     IF_NONE_MATCH, IF_UNMODIFIED_SINCE, LAST_MODIFIED, RANGE, X_AMZ_DELETE_MARKER,
-    X_AMZ_EXPIRATION, X_AMZ_MISSING_META, X_AMZ_MP_PARTS_COUNT, X_AMZ_OBJECT_LOCK_LEGAL_HOLD,
-    X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE, X_AMZ_REPLICATION_STATUS,
-    X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_RESTORE, X_AMZ_SERVER_SIDE_ENCRYPTION,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
-    X_AMZ_STORAGE_CLASS, X_AMZ_TAGGING_COUNT, X_AMZ_VERSION_ID, X_AMZ_WEBSITE_REDIRECT_LOCATION,
+    X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_EXPIRATION, X_AMZ_MISSING_META, X_AMZ_MP_PARTS_COUNT,
+    X_AMZ_OBJECT_LOCK_LEGAL_HOLD, X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE,
+    X_AMZ_REPLICATION_STATUS, X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_RESTORE,
+    X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5, X_AMZ_STORAGE_CLASS, X_AMZ_TAGGING_COUNT,
+    X_AMZ_VERSION_ID, X_AMZ_WEBSITE_REDIRECT_LOCATION,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -51,7 +52,32 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<GetObjectRequest> {
         ..GetObjectRequest::default()
     };
 
+    if let Some(ref qs) = ctx.query_strings {
+        qs.assign_str("versionId", &mut input.version_id);
+        qs.assign("partNumber", &mut input.part_number)
+            .map_err(|err| invalid_request!("Invalid query: partNumber", err))?;
+        qs.assign_str("response-cache-control", &mut input.response_cache_control);
+        qs.assign_str(
+            "response-content-disposition",
+            &mut input.response_content_disposition,
+        );
+        qs.assign_str(
+            "response-content-encoding",
+            &mut input.response_content_encoding,
+        );
+        qs.assign_str(
+            "response-content-language",
+            &mut input.response_content_language,
+        );
+        qs.assign_str("response-content-type", &mut input.response_content_type);
+        qs.assign_str("response-expires", &mut input.response_expires);
+    }
+
     let h = &ctx.headers;
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
     h.assign_str(IF_MATCH, &mut input.if_match);
     h.assign_str(IF_MODIFIED_SINCE, &mut input.if_modified_since);
     h.assign_str(IF_NONE_MATCH, &mut input.if_none_match);
diff --git a/src/ops/head_object.rs b/src/ops/head_object.rs
index 5731c96..9430948 100644
--- a/src/ops/head_object.rs
+++ b/src/ops/head_object.rs
@@ -7,10 +7,10 @@ use crate::errors::{S3Error, S3ErrorCode, S3Result};
 use crate::headers::{
     ACCEPT_RANGES, CACHE_CONTROL, CONTENT_DISPOSITION, CONTENT_ENCODING, CONTENT_LANGUAGE,
     CONTENT_LENGTH, CONTENT_TYPE, ETAG, EXPIRES, IF_MATCH, IF_MODIFIED_SINCE, IF_NONE_MATCH,
-    IF_UNMODIFIED_SINCE, LAST_MODIFIED, RANGE, X_AMZ_DELETE_MARKER, X_AMZ_EXPIRATION,
-    X_AMZ_MISSING_META, X_AMZ_MP_PARTS_COUNT, X_AMZ_OBJECT_LOCK_LEGAL_HOLD, X_AMZ_OBJECT_LOCK_MODE,
-    X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE, X_AMZ_REPLICATION_STATUS, X_AMZ_REQUEST_CHARGED,
-    X_AMZ_REQUEST_PAYER, X_AMZ_RESTORE, X_AMZ_SERVER_SIDE_ENCRYPTION,
+    IF_UNMODIFIED_SINCE, LAST_MODIFIED, RANGE, X_AMZ_DELETE_MARKER, X_AMZ_EXPECTED_BUCKET_OWNER,
+    X_AMZ_EXPIRATION, X_AMZ_MISSING_META, X_AMZ_MP_PARTS_COUNT, X_AMZ_OBJECT_LOCK_LEGAL_HOLD,
+    X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE, X_AMZ_REPLICATION_STATUS,
+    X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_RESTORE, X_AMZ_SERVER_SIDE_ENCRYPTION,
     X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
     X_AMZ_STORAGE_CLASS, X_AMZ_VERSION_ID, X_AMZ_WEBSITE_REDIRECT_LOCATION,
@@ -51,7 +51,17 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<HeadObjectRequest> {
         ..HeadObjectRequest::default()
     };
 
+    if let Some(ref qs) = ctx.query_strings {
+        qs.assign_str("versionId", &mut input.version_id);
+        qs.assign("partNumber", &mut input.part_number)
+            .map_err(|err| invalid_request!("Invalid query: partNumber", err))?;
+    }
+
     let h = &ctx.headers;
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
     h.assign_str(IF_MATCH, &mut input.if_match);
     h.assign_str(IF_MODIFIED_SINCE, &mut input.if_modified_since);
     h.assign_str(IF_NONE_MATCH, &mut input.if_none_match);
diff --git a/src/ops/list_objects.rs b/src/ops/list_objects.rs
index 6e9cbc8..aff277d 100644
--- a/src/ops/list_objects.rs
+++ b/src/ops/list_objects.rs
@@ -4,7 +4,7 @@ use super::{wrap_internal_error, ReqContext, S3Handler};
 
 use crate::dto::{ListObjectsError, ListObjectsOutput, ListObjectsRequest};
 use crate::errors::{S3Error, S3ErrorCode, S3Result};
-use crate::headers::X_AMZ_REQUEST_PAYER;
+use crate::headers::{X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_REQUEST_PAYER};
 use crate::output::S3Output;
 use crate::storage::S3Storage;
 use crate::utils::{ResponseExt, XmlWriterExt};
@@ -53,8 +53,12 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<ListObjectsRequest> {
         q.assign_str("prefix", &mut input.prefix);
     }
 
-    ctx.headers
-        .assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    let h = &ctx.headers;
+    h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
 
     Ok(input)
 }
diff --git a/src/ops/list_objects_v2.rs b/src/ops/list_objects_v2.rs
index c7609dc..f710267 100644
--- a/src/ops/list_objects_v2.rs
+++ b/src/ops/list_objects_v2.rs
@@ -4,7 +4,7 @@ use super::{wrap_internal_error, ReqContext, S3Handler};
 
 use crate::dto::{ListObjectsV2Error, ListObjectsV2Output, ListObjectsV2Request};
 use crate::errors::{S3Error, S3ErrorCode, S3Result};
-use crate::headers::X_AMZ_REQUEST_PAYER;
+use crate::headers::{X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_REQUEST_PAYER};
 use crate::output::S3Output;
 use crate::storage::S3Storage;
 use crate::utils::{ResponseExt, XmlWriterExt};
@@ -61,8 +61,12 @@ fn extract(
         q.assign_str("start-after", &mut input.start_after);
     }
 
-    ctx.headers
-        .assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    let h = &ctx.headers;
+    h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
 
     Ok(input)
 }
diff --git a/src/ops/put_object.rs b/src/ops/put_object.rs
index 32b7ef5..4607863 100644
--- a/src/ops/put_object.rs
+++ b/src/ops/put_object.rs
@@ -6,11 +6,12 @@ use crate::dto::{PutObjectError, PutObjectOutput, PutObjectRequest};
 use crate::errors::{S3Error, S3ErrorCode, S3Result};
 use crate::headers::{
     CACHE_CONTROL, CONTENT_DISPOSITION, CONTENT_ENCODING, CONTENT_LANGUAGE, CONTENT_LENGTH,
-    CONTENT_MD5, CONTENT_TYPE, ETAG, EXPIRES, X_AMZ_ACL, X_AMZ_EXPIRATION,
-    X_AMZ_GRANT_FULL_CONTROL, X_AMZ_GRANT_READ, X_AMZ_GRANT_READ_ACP, X_AMZ_GRANT_WRITE_ACP,
-    X_AMZ_OBJECT_LOCK_LEGAL_HOLD, X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE,
-    X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_SERVER_SIDE_ENCRYPTION,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_CONTEXT,
+    CONTENT_MD5, CONTENT_TYPE, ETAG, EXPIRES, X_AMZ_ACL, X_AMZ_EXPECTED_BUCKET_OWNER,
+    X_AMZ_EXPIRATION, X_AMZ_GRANT_FULL_CONTROL, X_AMZ_GRANT_READ, X_AMZ_GRANT_READ_ACP,
+    X_AMZ_GRANT_WRITE_ACP, X_AMZ_OBJECT_LOCK_LEGAL_HOLD, X_AMZ_OBJECT_LOCK_MODE,
+    X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE, X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER,
+    X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED, X_AMZ_SERVER_SIDE_ENCRYPTION_CONTEXT,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5, X_AMZ_STORAGE_CLASS, X_AMZ_TAGGING,
     X_AMZ_VERSION_ID, X_AMZ_WEBSITE_REDIRECT_LOCATION,
@@ -122,6 +123,20 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<PutObjectRequest> {
     };
 
     let h = &ctx.headers;
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
+    h.assign(
+        X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+        &mut input.bucket_key_enabled,
+    )
+    .map_err(|err| {
+        invalid_request!(
+            "Invalid header: x-amz-server-side-encryption-bucket-key-enabled",
+            err
+        )
+    })?;
     h.assign(CONTENT_LENGTH, &mut input.content_length)
         .map_err(|err| invalid_request!("Invalid header: content-length", err))?;
 
diff --git a/src/ops/upload_part.rs b/src/ops/upload_part.rs
index 7e6276c..4cf77b1 100644
--- a/src/ops/upload_part.rs
+++ b/src/ops/upload_part.rs
@@ -5,9 +5,10 @@ use super::{wrap_internal_error, ReqContext, S3Handler};
 use crate::dto::{UploadPartError, UploadPartOutput, UploadPartRequest};
 use crate::errors::{S3Error, S3Result};
 use crate::headers::{
-    CONTENT_LENGTH, CONTENT_MD5, ETAG, X_AMZ_REQUEST_CHARGED, X_AMZ_SERVER_SIDE_ENCRYPTION,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
+    CONTENT_LENGTH, CONTENT_MD5, ETAG, X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_REQUEST_CHARGED,
+    X_AMZ_REQUEST_PAYER, X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -68,6 +69,11 @@ fn extract(
     };
 
     let h = &ctx.headers;
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
+    h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
     h.assign(CONTENT_LENGTH, &mut input.content_length)
         .map_err(|err| invalid_request!("Invalid header: content-length", err))?;
     h.assign_str(CONTENT_MD5, &mut input.content_md5);
-- 
2.43.0


From 12913f204c4eb59a27ff4fa6f081780ef7dd5e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 04/42] fix: report every result member under its S3 name

The response to CreateMultipartUpload had the root element
InitialMultipartUploadResult, all common prefixes of a listing were put into
one CommonPrefixes element, CopyObject without a result had no root element,
x-amz-archive-status and x-amz-server-side-encryption-bucket-key-enabled were
never sent, and partial content had status 200.
---
 src/headers.rs                       |  3 +++
 src/ops/complete_multipart_upload.rs |  7 ++++++-
 src/ops/copy_object.rs               | 13 ++++++++++---
 src/ops/create_multipart_upload.rs   |  6 +++++-
 src/ops/get_object.rs                | 10 +++++++++-
 src/ops/head_object.rs               | 21 ++++++++++++++-------
 src/ops/list_objects.rs              | 10 ++++++----
 src/ops/list_objects_v2.rs           | 10 ++++++----
 src/ops/put_object.rs                |  4 ++++
 src/ops/upload_part.rs               |  5 +++++
 10 files changed, 68 insertions(+), 21 deletions(-)

diff --git a/src/headers.rs b/src/headers.rs
index c08e3eb..bac11d8 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -186,4 +186,7 @@ declare_header_name! {
 
     /// x-amz-server-side-encryption-bucket-key-enabled
     X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED: "x-amz-server-side-encryption-bucket-key-enabled";
+
+    /// x-amz-archive-status
+    X_AMZ_ARCHIVE_STATUS: "x-amz-archive-status";
 }
diff --git a/src/ops/complete_multipart_upload.rs b/src/ops/complete_multipart_upload.rs
index 951c241..ae6402e 100644
--- a/src/ops/complete_multipart_upload.rs
+++ b/src/ops/complete_multipart_upload.rs
@@ -9,7 +9,8 @@ use crate::dto::{
 use crate::errors::{S3Error, S3Result};
 use crate::headers::{
     X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_EXPIRATION, X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER,
-    X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_VERSION_ID,
+    X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED, X_AMZ_VERSION_ID,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -87,6 +88,10 @@ impl S3Output for CompleteMultipartUploadOutput {
                 X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
                 self.ssekms_key_id,
             )?;
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
             res.set_optional_header(X_AMZ_REQUEST_CHARGED, self.request_charged)?;
 
             let location = self.location;
diff --git a/src/ops/copy_object.rs b/src/ops/copy_object.rs
index 514705a..08f32fa 100644
--- a/src/ops/copy_object.rs
+++ b/src/ops/copy_object.rs
@@ -192,14 +192,21 @@ impl S3Output for CopyObjectOutput {
                 X_AMZ_SERVER_SIDE_ENCRYPTION_CONTEXT,
                 self.ssekms_encryption_context,
             )?;
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
             res.set_optional_header(X_AMZ_REQUEST_CHARGED, self.request_charged)?;
 
             let copy_object_result = self.copy_object_result;
 
             res.set_xml_body(64, |w| {
-                w.opt_stack("CopyObjectResult", copy_object_result, |w, result| {
-                    w.opt_element("ETag", result.e_tag)?;
-                    w.opt_element("LastModified", result.last_modified)
+                w.stack("CopyObjectResult", |w| {
+                    if let Some(result) = copy_object_result {
+                        w.opt_element("ETag", result.e_tag)?;
+                        w.opt_element("LastModified", result.last_modified)?;
+                    }
+                    Ok(())
                 })
             })?;
 
diff --git a/src/ops/create_multipart_upload.rs b/src/ops/create_multipart_upload.rs
index 4bf40a7..3ded73f 100644
--- a/src/ops/create_multipart_upload.rs
+++ b/src/ops/create_multipart_upload.rs
@@ -76,6 +76,10 @@ impl S3Output for CreateMultipartUploadOutput {
                 self.ssekms_encryption_context,
             )?;
 
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
             res.set_optional_header(X_AMZ_REQUEST_CHARGED, self.request_charged)?;
 
             let bucket = self.bucket;
@@ -83,7 +87,7 @@ impl S3Output for CreateMultipartUploadOutput {
             let upload_id = self.upload_id;
 
             res.set_xml_body(256, |w| {
-                w.stack("InitialMultipartUploadResult", |w| {
+                w.stack("InitiateMultipartUploadResult", |w| {
                     w.opt_element("Bucket", bucket)?;
                     w.opt_element("Key", key)?;
                     w.opt_element("UploadId", upload_id)?;
diff --git a/src/ops/get_object.rs b/src/ops/get_object.rs
index 15f1546..d0997c7 100644
--- a/src/ops/get_object.rs
+++ b/src/ops/get_object.rs
@@ -12,6 +12,7 @@ use crate::headers::{
     X_AMZ_OBJECT_LOCK_LEGAL_HOLD, X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE,
     X_AMZ_REPLICATION_STATUS, X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_RESTORE,
     X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5, X_AMZ_STORAGE_CLASS, X_AMZ_TAGGING_COUNT,
     X_AMZ_VERSION_ID, X_AMZ_WEBSITE_REDIRECT_LOCATION,
@@ -19,7 +20,7 @@ use crate::headers::{
 use crate::output::S3Output;
 use crate::storage::S3Storage;
 use crate::utils::{time, ResponseExt};
-use crate::{async_trait, Body, Method, Response};
+use crate::{async_trait, Body, Method, Response, StatusCode};
 
 /// `GetObject` handler
 pub struct Handler;
@@ -130,6 +131,9 @@ impl S3Output for GetObjectOutput {
             res.set_optional_header(CONTENT_DISPOSITION, self.content_disposition)?;
             res.set_optional_header(CONTENT_ENCODING, self.content_encoding)?;
             res.set_optional_header(CONTENT_LANGUAGE, self.content_language)?;
+            if self.content_range.is_some() {
+                res.set_status(StatusCode::PARTIAL_CONTENT);
+            }
             res.set_optional_header(CONTENT_RANGE, self.content_range)?;
             res.set_optional_header(CONTENT_TYPE, self.content_type)?;
 
@@ -155,6 +159,10 @@ impl S3Output for GetObjectOutput {
             )?;
 
             res.set_optional_header(X_AMZ_STORAGE_CLASS, self.storage_class)?;
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
             res.set_optional_header(X_AMZ_REQUEST_CHARGED, self.request_charged)?;
             res.set_optional_header(X_AMZ_REPLICATION_STATUS, self.replication_status)?;
             res.set_optional_header(
diff --git a/src/ops/head_object.rs b/src/ops/head_object.rs
index 9430948..30c5cf4 100644
--- a/src/ops/head_object.rs
+++ b/src/ops/head_object.rs
@@ -7,13 +7,15 @@ use crate::errors::{S3Error, S3ErrorCode, S3Result};
 use crate::headers::{
     ACCEPT_RANGES, CACHE_CONTROL, CONTENT_DISPOSITION, CONTENT_ENCODING, CONTENT_LANGUAGE,
     CONTENT_LENGTH, CONTENT_TYPE, ETAG, EXPIRES, IF_MATCH, IF_MODIFIED_SINCE, IF_NONE_MATCH,
-    IF_UNMODIFIED_SINCE, LAST_MODIFIED, RANGE, X_AMZ_DELETE_MARKER, X_AMZ_EXPECTED_BUCKET_OWNER,
-    X_AMZ_EXPIRATION, X_AMZ_MISSING_META, X_AMZ_MP_PARTS_COUNT, X_AMZ_OBJECT_LOCK_LEGAL_HOLD,
-    X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE, X_AMZ_REPLICATION_STATUS,
-    X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_RESTORE, X_AMZ_SERVER_SIDE_ENCRYPTION,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
-    X_AMZ_STORAGE_CLASS, X_AMZ_VERSION_ID, X_AMZ_WEBSITE_REDIRECT_LOCATION,
+    IF_UNMODIFIED_SINCE, LAST_MODIFIED, RANGE, X_AMZ_ARCHIVE_STATUS, X_AMZ_DELETE_MARKER,
+    X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_EXPIRATION, X_AMZ_MISSING_META, X_AMZ_MP_PARTS_COUNT,
+    X_AMZ_OBJECT_LOCK_LEGAL_HOLD, X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE,
+    X_AMZ_REPLICATION_STATUS, X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_RESTORE,
+    X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5, X_AMZ_STORAGE_CLASS, X_AMZ_VERSION_ID,
+    X_AMZ_WEBSITE_REDIRECT_LOCATION,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -96,6 +98,7 @@ impl S3Output for HeadObjectOutput {
 
             res.set_optional_header(X_AMZ_EXPIRATION, self.expiration)?;
             res.set_optional_header(X_AMZ_RESTORE, self.restore)?;
+            res.set_optional_header(X_AMZ_ARCHIVE_STATUS, self.archive_status)?;
 
             res.set_optional_header(
                 LAST_MODIFIED,
@@ -138,6 +141,10 @@ impl S3Output for HeadObjectOutput {
             )?;
 
             res.set_optional_header(X_AMZ_STORAGE_CLASS, self.storage_class)?;
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
             res.set_optional_header(X_AMZ_REQUEST_CHARGED, self.request_charged)?;
             res.set_optional_header(X_AMZ_REPLICATION_STATUS, self.replication_status)?;
             res.set_optional_header(
diff --git a/src/ops/list_objects.rs b/src/ops/list_objects.rs
index aff277d..c0f3553 100644
--- a/src/ops/list_objects.rs
+++ b/src/ops/list_objects.rs
@@ -92,11 +92,13 @@ impl S3Output for ListObjectsOutput {
                     w.opt_element("Prefix", self.prefix)?;
                     w.opt_element("Delimiter", self.delimiter)?;
                     w.opt_element("MaxKeys", self.max_keys.map(|k| k.to_string()))?;
-                    w.opt_stack("CommonPrefixes", self.common_prefixes, |w, prefixes| {
+                    if let Some(prefixes) = self.common_prefixes {
                         w.iter_element(prefixes.into_iter(), |w, common_prefix| {
-                            w.opt_element("Prefix", common_prefix.prefix)
-                        })
-                    })?;
+                            w.stack("CommonPrefixes", |w| {
+                                w.opt_element("Prefix", common_prefix.prefix)
+                            })
+                        })?;
+                    }
                     w.opt_element("EncodingType", self.encoding_type)?;
                     Ok(())
                 })
diff --git a/src/ops/list_objects_v2.rs b/src/ops/list_objects_v2.rs
index f710267..01c6897 100644
--- a/src/ops/list_objects_v2.rs
+++ b/src/ops/list_objects_v2.rs
@@ -98,11 +98,13 @@ impl S3Output for ListObjectsV2Output {
                     w.opt_element("Prefix", self.prefix)?;
                     w.opt_element("Delimiter", self.delimiter)?;
                     w.opt_element("MaxKeys", self.max_keys.map(|k| k.to_string()))?;
-                    w.opt_stack("CommonPrefixes", self.common_prefixes, |w, prefixes| {
+                    if let Some(prefixes) = self.common_prefixes {
                         w.iter_element(prefixes.into_iter(), |w, common_prefix| {
-                            w.opt_element("Prefix", common_prefix.prefix)
-                        })
-                    })?;
+                            w.stack("CommonPrefixes", |w| {
+                                w.opt_element("Prefix", common_prefix.prefix)
+                            })
+                        })?;
+                    }
                     w.opt_element("EncodingType", self.encoding_type)?;
                     w.opt_element("KeyCount", self.key_count.map(|k| k.to_string()))?;
                     w.opt_element("ContinuationToken", self.continuation_token)?;
diff --git a/src/ops/put_object.rs b/src/ops/put_object.rs
index 4607863..475a092 100644
--- a/src/ops/put_object.rs
+++ b/src/ops/put_object.rs
@@ -239,6 +239,10 @@ impl S3Output for PutObjectOutput {
                 X_AMZ_SERVER_SIDE_ENCRYPTION_CONTEXT,
                 self.ssekms_encryption_context,
             )?;
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
             res.set_optional_header(X_AMZ_REQUEST_CHARGED, self.request_charged)?;
             Ok(())
         })
diff --git a/src/ops/upload_part.rs b/src/ops/upload_part.rs
index 4cf77b1..6ae719a 100644
--- a/src/ops/upload_part.rs
+++ b/src/ops/upload_part.rs
@@ -7,6 +7,7 @@ use crate::errors::{S3Error, S3Result};
 use crate::headers::{
     CONTENT_LENGTH, CONTENT_MD5, ETAG, X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_REQUEST_CHARGED,
     X_AMZ_REQUEST_PAYER, X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
 };
@@ -112,6 +113,10 @@ impl S3Output for UploadPartOutput {
                 self.ssekms_key_id,
             )?;
 
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
             res.set_optional_header(X_AMZ_REQUEST_CHARGED, self.request_charged)?;
 
             Ok(())
-- 
2.43.0


From 50c81b85a639d04461307579407c285ddec66160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 05/42] fix: keep carriage returns in XML responses

---
 src/utils/response.rs |  7 +++++--
 src/utils/xml.rs      | 26 ++++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/utils/response.rs b/src/utils/response.rs
index 3a25c9a..981b4d9 100644
--- a/src/utils/response.rs
+++ b/src/utils/response.rs
@@ -5,7 +5,7 @@ use crate::{Body, BoxStdError, Mime, Response, StatusCode};
 use std::{collections::HashMap, convert::TryFrom};
 
 use hyper::header::{self, HeaderName, HeaderValue, InvalidHeaderValue};
-use xml::{common::XmlVersion, writer::XmlEvent, EventWriter};
+use xml::{common::XmlVersion, writer::XmlEvent, EmitterConfig, EventWriter};
 
 /// `ResponseExt`
 pub trait ResponseExt {
@@ -73,7 +73,10 @@ impl ResponseExt for Response {
     {
         let mut body = Vec::with_capacity(cap);
         {
-            let mut w = EventWriter::new(&mut body);
+            // text is escaped by `XmlWriterExt`
+            let mut config = EmitterConfig::new();
+            config.perform_escaping = false;
+            let mut w = EventWriter::new_with_config(&mut body, config);
             w.write(XmlEvent::StartDocument {
                 version: XmlVersion::Version10,
                 encoding: Some("UTF-8"),
diff --git a/src/utils/xml.rs b/src/utils/xml.rs
index 671d117..1e9842f 100644
--- a/src/utils/xml.rs
+++ b/src/utils/xml.rs
@@ -1,9 +1,31 @@
 //! helper trait for writing xml
 
+use std::borrow::Cow;
 use std::io;
 use std::ops::Deref;
 use xml::writer::{events::XmlEvent, EventWriter, Result};
 
+/// escape character data
+///
+/// A parser turns a literal carriage return into a line feed,
+/// so that it has to be written as a character reference.
+fn escape_text(data: &str) -> Cow<'_, str> {
+    if !data.contains(&['<', '>', '&', '\r'][..]) {
+        return Cow::Borrowed(data);
+    }
+    let mut ans = String::with_capacity(data.len().saturating_add(16));
+    for c in data.chars() {
+        match c {
+            '<' => ans.push_str("&lt;"),
+            '>' => ans.push_str("&gt;"),
+            '&' => ans.push_str("&amp;"),
+            '\r' => ans.push_str("&#13;"),
+            _ => ans.push(c),
+        }
+    }
+    Cow::Owned(ans)
+}
+
 /// helper trait for writing xml
 pub trait XmlWriterExt {
     /// write xml stack
@@ -54,14 +76,14 @@ impl<W: io::Write> XmlWriterExt for EventWriter<W> {
 
     fn element(&mut self, name: &str, data: &str) -> Result<()> {
         self.write(XmlEvent::start_element(name))?;
-        self.write(XmlEvent::characters(data))?;
+        self.write(XmlEvent::characters(&escape_text(data)))?;
         self.write(XmlEvent::end_element())
     }
 
     fn opt_element(&mut self, name: &str, data: Option<impl Deref<Target = str>>) -> Result<()> {
         if let Some(data) = data {
             self.write(XmlEvent::start_element(name))?;
-            self.write(XmlEvent::characters(&data))?;
+            self.write(XmlEvent::characters(&escape_text(&data)))?;
             self.write(XmlEvent::end_element())?;
         }
         Ok(())
-- 
2.43.0


From dec2aef4ee79dddb79a29e09fa6afc56d21d538a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:57 +0000
Subject: [PATCH 06/42] fix: do not report ObjectNotInActiveTierError with a
 success status

---
 src/errors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/errors.rs b/src/errors.rs
index fbf9e47..13cdcc8 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -615,7 +615,7 @@ impl S3ErrorCode {
             Self::NotImplemented => Some(StatusCode::NOT_IMPLEMENTED),
             Self::NotSignedUp => Some(StatusCode::FORBIDDEN),
             Self::NotSupported => None,
-            Self::ObjectNotInActiveTierError => Some(StatusCode::OK),
+            Self::ObjectNotInActiveTierError => Some(StatusCode::FORBIDDEN),
             Self::OperationAborted => Some(StatusCode::CONFLICT),
             Self::PermanentRedirect => Some(StatusCode::MOVED_PERMANENTLY),
             Self::PreconditionFailed => Some(StatusCode::PRECONDITION_FAILED),
-- 
2.43.0


From d14cf94045df745fdce8cd005ea9e3766876b200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 07/42] fix: do not panic on an UploadPart query without an
 object key

PUT /?partNumber=1&uploadId=x and PUT /bucket?partNumber=1&uploadId=x were
dispatched to UploadPart, which panicked for the missing key.
---
 src/ops/upload_part.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ops/upload_part.rs b/src/ops/upload_part.rs
index 6ae719a..2958dd4 100644
--- a/src/ops/upload_part.rs
+++ b/src/ops/upload_part.rs
@@ -24,6 +24,7 @@ pub struct Handler;
 impl S3Handler for Handler {
     fn is_match(&self, ctx: &'_ ReqContext<'_>) -> bool {
         bool_try!(ctx.req.method() == Method::PUT);
+        bool_try!(ctx.path.is_object());
         let qs = bool_try_some!(ctx.query_strings.as_ref());
         qs.get("partNumber").is_some() && qs.get("uploadId").is_some()
     }
-- 
2.43.0


From 2a04de4711aa2996bf10762c2a3a7de1ac892c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 08/42] fix: refuse requests for unsupported sub-resources

A request for a sub-resource such as ?acl, ?policy or ?tagging, and requests
like AbortMultipartUpload or UploadPartCopy, ran the operation on the bucket
or the object itself: DELETE /bucket?policy deleted the bucket,
DELETE /bucket/key?uploadId=x deleted the object.
---
 src/service.rs | 78 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 77 insertions(+), 1 deletion(-)

diff --git a/src/service.rs b/src/service.rs
index 30d5ec0..9a3a43f 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -4,7 +4,9 @@ use crate::auth::S3Auth;
 use crate::data_structures::{OrderedHeaders, OrderedQs};
 use crate::errors::{S3AuthError, S3ErrorCode, S3Result};
 use crate::headers::{AmzContentSha256, AmzDate, AuthorizationV4, CredentialV4};
-use crate::headers::{AUTHORIZATION, CONTENT_TYPE, X_AMZ_CONTENT_SHA256, X_AMZ_DATE};
+use crate::headers::{
+    AUTHORIZATION, CONTENT_TYPE, X_AMZ_CONTENT_SHA256, X_AMZ_COPY_SOURCE, X_AMZ_DATE,
+};
 use crate::ops::{ReqContext, S3Handler};
 use crate::output::S3Output;
 use crate::path::{S3Path, S3PathErrorKind};
@@ -169,6 +171,10 @@ impl S3Service {
             ));
         }
 
+        if names_unsupported_resource(&ctx) {
+            return Err(not_supported!("The operation is not supported yet."));
+        }
+
         for handler in &self.handlers {
             if handler.is_match(&ctx) {
                 return handler.handle(&mut ctx, &*self.storage).await;
@@ -179,6 +185,76 @@ impl S3Service {
     }
 }
 
+/// Query strings which select a sub-resource of a bucket or an object
+///
+/// None of the handlers operates on these sub-resources.
+const UNSUPPORTED_RESOURCES: &[&str] = &[
+    "accelerate",
+    "acl",
+    "analytics",
+    "attributes",
+    "cors",
+    "encryption",
+    "intelligent-tiering",
+    "inventory",
+    "legal-hold",
+    "lifecycle",
+    "logging",
+    "metrics",
+    "notification",
+    "object-lock",
+    "ownershipControls",
+    "policy",
+    "policyStatus",
+    "publicAccessBlock",
+    "replication",
+    "requestPayment",
+    "restore",
+    "retention",
+    "select",
+    "tagging",
+    "torrent",
+    "versioning",
+    "versions",
+    "website",
+];
+
+/// Whether the request names a resource that none of the handlers operates on.
+///
+/// Such a request must not reach the handler for the bucket or the object itself.
+fn names_unsupported_resource(ctx: &ReqContext<'_>) -> bool {
+    let qs = match ctx.query_strings {
+        Some(ref qs) => qs,
+        None => return false,
+    };
+    let method = ctx.req.method();
+
+    if ctx.path.is_root() {
+        return false;
+    }
+
+    if UNSUPPORTED_RESOURCES
+        .iter()
+        .any(|name| qs.get(name).is_some())
+    {
+        return true;
+    }
+
+    if ctx.path.is_bucket() {
+        // ListMultipartUploads
+        return *method == Method::GET && qs.get("uploads").is_some();
+    }
+
+    if qs.get("uploadId").is_none() {
+        return false;
+    }
+
+    // ListParts, AbortMultipartUpload, UploadPartCopy
+    *method == Method::GET
+        || *method == Method::DELETE
+        || (*method == Method::PUT && ctx.headers.get(X_AMZ_COPY_SOURCE).is_some())
+}
+
 /// Extract urlencoded URI from Request
 fn decode_uri_path(req: &Request) -> S3Result<Cow<'_, str>> {
     urlencoding::decode(req.uri().path())
-- 
2.43.0


From bc8fb0d4c215454eecface97a21b09444cb9f98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 09/42] fix: require digits in the credential date

---
 src/headers/authorization_v4.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/headers/authorization_v4.rs b/src/headers/authorization_v4.rs
index 413085b..9348748 100644
--- a/src/headers/authorization_v4.rs
+++ b/src/headers/authorization_v4.rs
@@ -96,6 +96,10 @@ impl<'a> CredentialV4<'a> {
         verify(
             all_consuming(tuple((take(4_usize), take(2_usize), take(2_usize)))),
             |&(y, m, d): &(&str, &str, &str)| {
+                // `parse` alone would accept a leading plus sign
+                if !input.bytes().all(|b| b.is_ascii_digit()) {
+                    return false;
+                }
                 /// helper macro
                 macro_rules! parse_num {
                     ($x:expr) => {{
-- 
2.43.0


From 332f40f41a02e03e86231c6b237b6bd3341ce126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 10/42] fix: encode the canonical URI only once

---
 src/service.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 9a3a43f..49462b0 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -497,7 +497,7 @@ async fn check_presigned_url(
 
         let canonical_request = signature_v4::create_presigned_canonical_request(
             ctx.req.method(),
-            ctx.req.uri().path(),
+            &decode_uri_path(ctx.req)?,
             qs.as_ref(),
             &headers,
         );
@@ -550,7 +550,8 @@ async fn check_header_auth(
 
     let signature = {
         let method = ctx.req.method();
-        let uri_path = ctx.req.uri().path();
+        // the canonical uri is encoded exactly once
+        let uri_path: &str = &decode_uri_path(ctx.req)?;
         let query_strings: &[(String, String)] =
             ctx.query_strings.as_ref().map_or(&[], AsRef::as_ref);
 
-- 
2.43.0


From ada49e7a7d6cdacc2332df5efc515e0e6d569236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 11/42] fix: cover every signed header except authorization by
 the signature

---
 src/signature_v4.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signature_v4.rs b/src/signature_v4.rs
index df3f8c8..5dcfb3f 100644
--- a/src/signature_v4.rs
+++ b/src/signature_v4.rs
@@ -153,7 +153,7 @@ fn uri_encode(output: &mut String, input: &str, encode_slash: bool) {
 
 /// is skipped header
 fn is_skipped_header(header: &str) -> bool {
-    ["authorization", "user-agent"].contains(&header)
+    header == "authorization"
 }
 
 /// is skipped query string
-- 
2.43.0


From 723adb90dc5cff8e5d2cfa07afcde447ecce67d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 12/42] fix: report the decoded length of chunked uploads

---
 src/headers.rs         |  3 +++
 src/ops.rs             | 16 ++++++++++++++++
 src/ops/put_object.rs  |  3 +--
 src/ops/upload_part.rs |  7 +++----
 src/service.rs         |  2 ++
 5 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/headers.rs b/src/headers.rs
index bac11d8..4878634 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -85,6 +85,9 @@ declare_header_name! {
     /// x-amz-grant-write-acp
     X_AMZ_GRANT_WRITE_ACP: "x-amz-grant-write-acp";
 
+    /// x-amz-decoded-content-length
+    X_AMZ_DECODED_CONTENT_LENGTH: "x-amz-decoded-content-length";
+
     /// x-amz-metadata-directive
     X_AMZ_METADATA_DIRECTIVE: "x-amz-metadata-directive";
 
diff --git a/src/ops.rs b/src/ops.rs
index db19c3d..02b3f54 100644
--- a/src/ops.rs
+++ b/src/ops.rs
@@ -21,6 +21,7 @@ mod upload_part;
 
 use crate::data_structures::{OrderedHeaders, OrderedQs};
 use crate::errors::S3Result;
+use crate::headers::{CONTENT_LENGTH, X_AMZ_DECODED_CONTENT_LENGTH};
 use crate::path::S3Path;
 use crate::storage::S3Storage;
 use crate::streams::multipart::Multipart;
@@ -89,6 +90,8 @@ pub struct ReqContext<'a> {
     pub mime: Option<Mime>,
     /// multipart/form-data
     pub multipart: Option<Multipart>,
+    /// whether the body is decoded from the signed chunks of the request
+    pub is_chunked: bool,
 }
 
 impl<'a> ReqContext<'a> {
@@ -117,6 +120,19 @@ impl<'a> ReqContext<'a> {
         }
     }
 
+    /// assign the length of the body from headers
+    fn assign_content_length(&self, opt: &mut Option<i64>) -> S3Result<()> {
+        let h = &self.headers;
+        if self.is_chunked {
+            h.assign(X_AMZ_DECODED_CONTENT_LENGTH, opt).map_err(|err| {
+                invalid_request!("Invalid header: x-amz-decoded-content-length", err)
+            })
+        } else {
+            h.assign(CONTENT_LENGTH, opt)
+                .map_err(|err| invalid_request!("Invalid header: content-length", err))
+        }
+    }
+
     /// get query string
     fn unwrap_qs(&self, name: &str) -> &str {
         match self.query_strings.as_ref().and_then(|qs| qs.get(name)) {
diff --git a/src/ops/put_object.rs b/src/ops/put_object.rs
index 475a092..3bedf6b 100644
--- a/src/ops/put_object.rs
+++ b/src/ops/put_object.rs
@@ -137,8 +137,7 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<PutObjectRequest> {
             err
         )
     })?;
-    h.assign(CONTENT_LENGTH, &mut input.content_length)
-        .map_err(|err| invalid_request!("Invalid header: content-length", err))?;
+    ctx.assign_content_length(&mut input.content_length)?;
 
     h.assign_str(X_AMZ_ACL, &mut input.acl);
     h.assign_str(CACHE_CONTROL, &mut input.cache_control);
diff --git a/src/ops/upload_part.rs b/src/ops/upload_part.rs
index 2958dd4..67330c8 100644
--- a/src/ops/upload_part.rs
+++ b/src/ops/upload_part.rs
@@ -5,8 +5,8 @@ use super::{wrap_internal_error, ReqContext, S3Handler};
 use crate::dto::{UploadPartError, UploadPartOutput, UploadPartRequest};
 use crate::errors::{S3Error, S3Result};
 use crate::headers::{
-    CONTENT_LENGTH, CONTENT_MD5, ETAG, X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_REQUEST_CHARGED,
-    X_AMZ_REQUEST_PAYER, X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
+    CONTENT_MD5, ETAG, X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER,
+    X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
     X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
@@ -76,8 +76,7 @@ fn extract(
         &mut input.expected_bucket_owner,
     );
     h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
-    h.assign(CONTENT_LENGTH, &mut input.content_length)
-        .map_err(|err| invalid_request!("Invalid header: content-length", err))?;
+    ctx.assign_content_length(&mut input.content_length)?;
     h.assign_str(CONTENT_MD5, &mut input.content_md5);
     h.assign_str(
         X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
diff --git a/src/service.rs b/src/service.rs
index 49462b0..76d8297 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -160,6 +160,7 @@ impl S3Service {
             body,
             mime,
             multipart: None,
+            is_chunked: false,
         };
 
         check_signature(&mut ctx, self.auth.as_deref()).await?;
@@ -618,6 +619,7 @@ async fn check_header_auth(
         );
 
         ctx.body = Body::wrap_stream(chunked_stream);
+        ctx.is_chunked = true;
     }
 
     Ok(())
-- 
2.43.0


From ab710b0df7d98fe7b694fa26e11cc9595a978504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 13/42] fix: refuse expired presigned urls

---
 src/headers/amz_date.rs | 15 +++++++++++++++
 src/service.rs          | 10 ++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/headers/amz_date.rs b/src/headers/amz_date.rs
index 71069ec..595041b 100644
--- a/src/headers/amz_date.rs
+++ b/src/headers/amz_date.rs
@@ -1,5 +1,7 @@
 //! x-amz-date
 
+use chrono::{DateTime, TimeZone, Utc};
+
 /// x-amz-date
 #[derive(Debug, Clone, Copy)]
 pub struct AmzDate {
@@ -89,6 +91,19 @@ impl AmzDate {
         }
     }
 
+    /// Converts to a point in time, `None` if there is no such date
+    pub(crate) fn to_datetime(self) -> Option<DateTime<Utc>> {
+        Utc.with_ymd_and_hms(
+            i32::try_from(self.year).ok()?,
+            self.month,
+            self.day,
+            self.hour,
+            self.minute,
+            self.second,
+        )
+        .single()
+    }
+
     /// `YYYYMMDD'T'HHMMSS'Z'`
     #[must_use]
     pub fn to_iso8601(&self) -> String {
diff --git a/src/service.rs b/src/service.rs
index 76d8297..50b1f3b 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -515,6 +515,16 @@ async fn check_presigned_url(
         return Err(signature_mismatch!());
     }
 
+    // check x_amz_expires
+    let issued_at = presigned_url
+        .amz_date
+        .to_datetime()
+        .ok_or_else(|| invalid_request!("Invalid field: X-Amz-Date"))?;
+    let lifetime = chrono::Duration::seconds(i64::from(presigned_url.expires));
+    if chrono::Utc::now().signed_duration_since(issued_at) > lifetime {
+        return Err(code_error!(AccessDenied, "Request has expired"));
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 0e4e9cccf03a4a37f63952f329b0812d1183a85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 14/42] fix: require the final chunk of a chunked upload

---
 src/streams/aws_chunked_stream.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/streams/aws_chunked_stream.rs b/src/streams/aws_chunked_stream.rs
index c2d3215..73f7051 100644
--- a/src/streams/aws_chunked_stream.rs
+++ b/src/streams/aws_chunked_stream.rs
@@ -95,7 +95,7 @@ fn parse_chunk_meta(mut input: &[u8]) -> nom::IResult<&[u8], ChunkMeta<'_>> {
         (size_str, signature)
     });
 
-    let (_, size) = map_res(hex_u32, TryInto::try_into)(size_str)?;
+    let (_, size) = all_consuming(map_res(hex_u32, TryInto::try_into))(size_str)?;
 
     Ok((input, ChunkMeta { size, signature }))
 }
@@ -155,7 +155,8 @@ impl AwsChunkedStream {
                                 match Self::read_meta_bytes(body.as_mut(), prev_bytes, &mut buf)
                                     .await
                                 {
-                                    None => break,
+                                    // only the signed final chunk ends the stream
+                                    None => return Err(AwsChunkedStreamError::Incomplete),
                                     Some(Err(e)) => return Err(AwsChunkedStreamError::Io(e)),
                                     Some(Ok(remaining_bytes)) => prev_bytes = remaining_bytes,
                                 };
@@ -182,12 +183,26 @@ impl AwsChunkedStream {
                                 Some(signature) => ctx.prev_signature = signature,
                             }
 
+                            if meta.size == 0 {
+                                break;
+                            }
+
                             for bytes in data {
                                 y.yield_ok(bytes).await;
                             }
                         }
 
-                        Ok(())
+                        // nothing may follow the final chunk
+                        loop {
+                            if !prev_bytes.is_empty() {
+                                return Err(AwsChunkedStreamError::FormatError);
+                            }
+                            match body.next().await {
+                                None => return Ok(()),
+                                Some(Err(e)) => return Err(AwsChunkedStreamError::Io(e)),
+                                Some(Ok(bytes)) => prev_bytes = bytes,
+                            }
+                        }
                     })
                 },
             );
-- 
2.43.0


From 9f31db88b2be17a46933c6721b2c8601f40b7dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 15/42] fix: take the attributes of a form upload from its
 fields

---
 src/ops/put_object.rs | 51 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 4 deletions(-)

diff --git a/src/ops/put_object.rs b/src/ops/put_object.rs
index 3bedf6b..23e3efd 100644
--- a/src/ops/put_object.rs
+++ b/src/ops/put_object.rs
@@ -61,10 +61,49 @@ impl S3Handler for Handler {
 /// extract from multipart
 fn extract_from_multipart(input: &mut PutObjectRequest, mut multipart: Multipart) -> S3Result<()> {
     multipart.assign_str("acl", &mut input.acl);
+    multipart.assign_str("cache-control", &mut input.cache_control);
+    multipart.assign_str("content-disposition", &mut input.content_disposition);
+    multipart.assign_str("content-encoding", &mut input.content_encoding);
     multipart.assign_str("content-type", &mut input.content_type);
     multipart.assign_str("expires", &mut input.expires);
     multipart.assign_str("tagging", &mut input.tagging);
     multipart.assign_str("x-amz-storage-class", &mut input.storage_class);
+    multipart.assign_str(
+        "x-amz-website-redirect-location",
+        &mut input.website_redirect_location,
+    );
+    multipart.assign_str(
+        "x-amz-server-side-encryption",
+        &mut input.server_side_encryption,
+    );
+    multipart.assign_str(
+        "x-amz-server-side-encryption-customer-algorithm",
+        &mut input.sse_customer_algorithm,
+    );
+    multipart.assign_str(
+        "x-amz-server-side-encryption-customer-key",
+        &mut input.sse_customer_key,
+    );
+    multipart.assign_str(
+        "x-amz-server-side-encryption-customer-key-md5",
+        &mut input.sse_customer_key_md5,
+    );
+    multipart.assign_str(
+        "x-amz-server-side-encryption-aws-kms-key-id",
+        &mut input.ssekms_key_id,
+    );
+    multipart.assign_str(
+        "x-amz-server-side-encryption-context",
+        &mut input.ssekms_encryption_context,
+    );
+    if let Some(s) = multipart.find_field_value("x-amz-server-side-encryption-bucket-key-enabled") {
+        input.bucket_key_enabled = Some(s.parse().map_err(|err| {
+            invalid_request!(
+                "Invalid field: x-amz-server-side-encryption-bucket-key-enabled",
+                err
+            )
+        })?);
+    }
 
     let mut metadata: HashMap<String, String> = HashMap::new();
     for &mut (ref mut name, ref mut value) in &mut multipart.fields {
@@ -122,6 +161,13 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<PutObjectRequest> {
         ..PutObjectRequest::default()
     };
 
+    // The attributes of a form upload are the fields of the form,
+    // the headers belong to the form as a whole and are not signed.
+    if let Some(multipart) = ctx.multipart.take() {
+        extract_from_multipart(&mut input, multipart)?;
+        return Ok(input);
+    }
+
     let h = &ctx.headers;
     h.assign_str(
         X_AMZ_EXPECTED_BUCKET_OWNER,
@@ -207,10 +253,7 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<PutObjectRequest> {
         input.metadata = Some(metadata);
     }
 
-    match ctx.multipart.take() {
-        None => input.body = ctx.take_body().apply(transform_body_stream).apply(Some),
-        Some(multipart) => extract_from_multipart(&mut input, multipart)?,
-    };
+    input.body = ctx.take_body().apply(transform_body_stream).apply(Some);
 
     Ok(input)
 }
-- 
2.43.0


From 92eefb16ebbf676aff88c09d88489d7e9c6274e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:46 +0000
Subject: [PATCH 16/42] fix: refuse form uploads with an empty key

---
 src/ops/put_object.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ops/put_object.rs b/src/ops/put_object.rs
index 23e3efd..c53913f 100644
--- a/src/ops/put_object.rs
+++ b/src/ops/put_object.rs
@@ -138,6 +138,7 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<PutObjectRequest> {
 
         let key = multipart
             .find_field_value("key")
+            .filter(|key| !key.is_empty())
             .ok_or_else(|| S3Error::new(S3ErrorCode::UserKeyMustBeSpecified, "Missing key"))?;
 
         if !S3Path::check_key(key) {
-- 
2.43.0


From e42a8c251b54d1f45c3abe2f7c9becc9ca0dba1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:49 +0000
Subject: [PATCH 17/42] fix: wait for complete lines of a multipart form

---
 src/streams/multipart.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/streams/multipart.rs b/src/streams/multipart.rs
index 8f1bed3..5c39078 100644
--- a/src/streams/multipart.rs
+++ b/src/streams/multipart.rs
@@ -389,11 +389,8 @@ impl<'a> CrlfLines<'a> {
                 return Some(left);
             }
         }
-        if self.slice.is_empty() {
-            None
-        } else {
-            Some(mem::take(&mut self.slice))
-        }
+        // the rest is not a complete line yet
+        None
     }
 
     /// split by pattern and return previous bytes
-- 
2.43.0


From 6496cde2e2e4e27a61738a40c114be7985baec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:52 +0000
Subject: [PATCH 18/42] fix: accept form files without a content type

---
 src/streams/multipart.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streams/multipart.rs b/src/streams/multipart.rs
index 5c39078..8cc1f64 100644
--- a/src/streams/multipart.rs
+++ b/src/streams/multipart.rs
@@ -197,7 +197,7 @@ where
             }
             Some(filename) => {
                 let content_type = match content_type_bytes.map(std::str::from_utf8) {
-                    None => return Err((body, pat)),
+                    None => "application/octet-stream",
                     Some(Err(_)) => return Ok(Err(generate_format_error())),
                     Some(Ok(s)) => s,
                 };
-- 
2.43.0


From 8e296a0ae8d41a50934b31d3a4283239e100f316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:32 +0000
Subject: [PATCH 19/42] fix: keep object keys inside their bucket in the file
 system storage

---
 src/storages/fs.rs | 51 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 551c52b..58f5322 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -17,7 +17,7 @@ use crate::dto::{
     PutObjectError, PutObjectOutput, PutObjectRequest, UploadPartError, UploadPartOutput,
     UploadPartRequest,
 };
-use crate::errors::{S3StorageError, S3StorageResult};
+use crate::errors::{S3Result, S3StorageError, S3StorageResult};
 use crate::headers::{AmzCopySource, Range};
 use crate::path::S3Path;
 use crate::storage::S3Storage;
@@ -140,6 +140,26 @@ impl FileSystem {
     }
 }
 
+/// Returns true if the key has a path of its own below the directory of its bucket
+fn is_valid_key(key: &str) -> bool {
+    let is_valid_segment = |s: &str| !matches!(s, "" | "." | "..") && !s.contains('\0');
+    key.strip_suffix('/')
+        .unwrap_or(key)
+        .split('/')
+        .all(is_valid_segment)
+}
+
+/// checks the key of an object to be written
+fn check_key(key: &str) -> S3Result<()> {
+    if is_valid_key(key) {
+        Ok(())
+    } else {
+        Err(invalid_request!(
+            "The object key can not be represented in the file system."
+        ))
+    }
+}
+
 /// copy bytes from a stream to a writer
 async fn copy_bytes<S, W>(mut stream: S, writer: &mut W) -> io::Result<usize>
 where
@@ -219,6 +239,12 @@ impl S3Storage for FileSystem {
             AmzCopySource::Bucket { bucket, key } => (bucket, key),
         };
 
+        check_key(&input.key)?;
+        if !is_valid_key(key) {
+            let err = code_error!(NoSuchKey, "The specified key does not exist.");
+            return Err(err.into());
+        }
+
         let src_path = trace_try!(self.get_object_path(bucket, key));
         let dst_path = trace_try!(self.get_object_path(&input.bucket, &input.key));
 
@@ -268,6 +294,10 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteObjectRequest,
     ) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> {
+        if !is_valid_key(&input.key) {
+            return Ok(DeleteObjectOutput::default());
+        }
+
         let path = trace_try!(self.get_object_path(&input.bucket, &input.key));
         if input.key.ends_with('/') {
             let mut dir = trace_try!(async_fs::read_dir(&path).await);
@@ -289,6 +319,9 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<DeleteObjectsOutput, DeleteObjectsError> {
         let mut objects: Vec<(PathBuf, String)> = Vec::new();
         for object in input.delete.objects {
+            if !is_valid_key(&object.key) {
+                continue;
+            }
             let path = trace_try!(self.get_object_path(&input.bucket, &object.key));
             if path.exists() {
                 objects.push((path, object.key));
@@ -334,6 +367,11 @@ impl S3Storage for FileSystem {
         &self,
         input: GetObjectRequest,
     ) -> S3StorageResult<GetObjectOutput, GetObjectError> {
+        if !is_valid_key(&input.key) {
+            let err = code_error!(NoSuchKey, "The specified key does not exist.");
+            return Err(err.into());
+        }
+
         let object_path = trace_try!(self.get_object_path(&input.bucket, &input.key));
 
         let parse_range = |s: &str| {
@@ -443,6 +481,11 @@ impl S3Storage for FileSystem {
         &self,
         input: HeadObjectRequest,
     ) -> S3StorageResult<HeadObjectOutput, HeadObjectError> {
+        if !is_valid_key(&input.key) {
+            let err = code_error!(NoSuchKey, "The specified key does not exist.");
+            return Err(err.into());
+        }
+
         let path = trace_try!(self.get_object_path(&input.bucket, &input.key));
 
         if !path.exists() {
@@ -661,6 +704,8 @@ impl S3Storage for FileSystem {
             code_error!(IncompleteBody,"You did not provide the number of bytes specified by the Content-Length HTTP header.")
         })?;
 
+        check_key(&key)?;
+
         if key.ends_with('/') {
             if content_length == Some(0) {
                 let object_path = trace_try!(self.get_object_path(&bucket, &key));
@@ -715,6 +760,8 @@ impl S3Storage for FileSystem {
         &self,
         input: CreateMultipartUploadRequest,
     ) -> S3StorageResult<CreateMultipartUploadOutput, CreateMultipartUploadError> {
+        check_key(&input.key)?;
+
         let upload_id = Uuid::new_v4().to_string();
 
         let output = CreateMultipartUploadOutput {
@@ -794,6 +841,8 @@ impl S3Storage for FileSystem {
             return Err(err.into());
         };
 
+        check_key(&key)?;
+
         let object_path = trace_try!(self.get_object_path(&bucket, &key));
         let file = trace_try!(File::create(&object_path).await);
         let mut writer = BufWriter::new(file);
-- 
2.43.0


From c58bd9aafa3157a636d940e05a3754ef2fc61712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 20/42] fix: report missing buckets in every operation of the
 file system storage

---
 src/storages/fs.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 58f5322..dbd52e4 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -73,6 +73,19 @@ impl FileSystem {
         Ok(ans)
     }
 
+    /// checks that the bucket exists
+    fn check_bucket(&self, bucket: &str) -> S3Result<()> {
+        let path = trace_try!(self.get_bucket_path(bucket));
+        if path.is_dir() {
+            Ok(())
+        } else {
+            Err(code_error!(
+                NoSuchBucket,
+                "The specified bucket does not exist."
+            ))
+        }
+    }
+
     /// resolve metadata path under the virtual root (custom format)
     fn get_metadata_path(&self, bucket: &str, key: &str) -> io::Result<PathBuf> {
         let encode = |s: &str| base64_simd::URL_SAFE_NO_PAD.encode_to_string(s);
@@ -239,6 +252,8 @@ impl S3Storage for FileSystem {
             AmzCopySource::Bucket { bucket, key } => (bucket, key),
         };
 
+        self.check_bucket(bucket)?;
+        self.check_bucket(&input.bucket)?;
         check_key(&input.key)?;
         if !is_valid_key(key) {
             let err = code_error!(NoSuchKey, "The specified key does not exist.");
@@ -284,6 +299,8 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteBucketRequest,
     ) -> S3StorageResult<DeleteBucketOutput, DeleteBucketError> {
+        self.check_bucket(&input.bucket)?;
+
         let path = trace_try!(self.get_bucket_path(&input.bucket));
         trace_try!(async_fs::remove_dir_all(path).await);
         Ok(DeleteBucketOutput)
@@ -294,6 +311,7 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteObjectRequest,
     ) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> {
+        self.check_bucket(&input.bucket)?;
         if !is_valid_key(&input.key) {
             return Ok(DeleteObjectOutput::default());
         }
@@ -317,6 +335,8 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteObjectsRequest,
     ) -> S3StorageResult<DeleteObjectsOutput, DeleteObjectsError> {
+        self.check_bucket(&input.bucket)?;
+
         let mut objects: Vec<(PathBuf, String)> = Vec::new();
         for object in input.delete.objects {
             if !is_valid_key(&object.key) {
@@ -546,6 +566,8 @@ impl S3Storage for FileSystem {
         &self,
         input: ListObjectsRequest,
     ) -> S3StorageResult<ListObjectsOutput, ListObjectsError> {
+        self.check_bucket(&input.bucket)?;
+
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
         let mut objects = Vec::new();
@@ -612,6 +634,8 @@ impl S3Storage for FileSystem {
         &self,
         input: ListObjectsV2Request,
     ) -> S3StorageResult<ListObjectsV2Output, ListObjectsV2Error> {
+        self.check_bucket(&input.bucket)?;
+
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
         let mut objects = Vec::new();
@@ -704,6 +728,7 @@ impl S3Storage for FileSystem {
             code_error!(IncompleteBody,"You did not provide the number of bytes specified by the Content-Length HTTP header.")
         })?;
 
+        self.check_bucket(&bucket)?;
         check_key(&key)?;
 
         if key.ends_with('/') {
@@ -760,6 +785,7 @@ impl S3Storage for FileSystem {
         &self,
         input: CreateMultipartUploadRequest,
     ) -> S3StorageResult<CreateMultipartUploadOutput, CreateMultipartUploadError> {
+        self.check_bucket(&input.bucket)?;
         check_key(&input.key)?;
 
         let upload_id = Uuid::new_v4().to_string();
@@ -841,6 +867,7 @@ impl S3Storage for FileSystem {
             return Err(err.into());
         };
 
+        self.check_bucket(&bucket)?;
         check_key(&key)?;
 
         let object_path = trace_try!(self.get_object_path(&bucket, &key));
-- 
2.43.0


From aed216928d0e40d8f66ca96526d9d227189ef85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:48 +0000
Subject: [PATCH 21/42] fix: keep the user metadata in step with its object

---
 src/storages/fs.rs | 61 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 11 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index dbd52e4..8a90f28 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -39,6 +39,9 @@ use uuid::Uuid;
 
 use async_fs::File;
 
+/// The length limit of a file name
+const MAX_FILE_NAME_LEN: usize = 255;
+
 /// A S3 storage implementation based on file system
 #[derive(Debug)]
 pub struct FileSystem {
@@ -90,11 +93,18 @@ impl FileSystem {
     fn get_metadata_path(&self, bucket: &str, key: &str) -> io::Result<PathBuf> {
         let encode = |s: &str| base64_simd::URL_SAFE_NO_PAD.encode_to_string(s);
 
-        let file_path_str = format!(
+        let mut file_path_str = format!(
             ".bucket-{}.object-{}.metadata.json",
             encode(bucket),
             encode(key),
         );
+        if file_path_str.len() > MAX_FILE_NAME_LEN {
+            file_path_str = format!(
+                ".bucket-{}.object.{}.metadata.json",
+                encode(bucket),
+                crypto::hex_sha256(key.as_bytes()),
+            );
+        }
         let file_path = Path::new(&file_path_str);
         let ans = file_path.absolutize_virtually(&self.root)?.into();
         Ok(ans)
@@ -117,19 +127,39 @@ impl FileSystem {
         }
     }
 
-    /// save metadata
+    /// save metadata, replacing that of an earlier object
     async fn save_metadata(
         &self,
         bucket: &str,
         key: &str,
-        metadata: &HashMap<String, String>,
+        metadata: Option<&HashMap<String, String>>,
     ) -> io::Result<()> {
         let path = self.get_metadata_path(bucket, key)?;
+        let metadata = match metadata {
+            Some(metadata) => metadata,
+            None => return remove_file_if_exists(&path).await,
+        };
         let content = serde_json::to_vec(metadata)
             .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
         async_fs::write(&path, &content).await
     }
 
+    /// remove the metadata of all objects of a bucket
+    async fn remove_bucket_metadata(&self, bucket: &str) -> io::Result<()> {
+        let prefix = format!(
+            ".bucket-{}.object",
+            base64_simd::URL_SAFE_NO_PAD.encode_to_string(bucket)
+        );
+        let mut iter = async_fs::read_dir(&self.root).await?;
+        while let Some(entry) = iter.next().await {
+            let entry = entry?;
+            if entry.file_name().to_string_lossy().starts_with(&prefix) {
+                remove_file_if_exists(&entry.path()).await?;
+            }
+        }
+        Ok(())
+    }
+
     /// get md5 sum
     async fn get_md5_sum(&self, bucket: &str, key: &str) -> io::Result<String> {
         let object_path = self.get_object_path(bucket, key)?;
@@ -153,6 +183,14 @@ impl FileSystem {
     }
 }
 
+/// removes a file which may be missing
+async fn remove_file_if_exists(path: &Path) -> io::Result<()> {
+    match async_fs::remove_file(path).await {
+        Err(e) if e.kind() != io::ErrorKind::NotFound => Err(e),
+        _ => Ok(()),
+    }
+}
+
 /// Returns true if the key has a path of its own below the directory of its bucket
 fn is_valid_key(key: &str) -> bool {
     let is_valid_segment = |s: &str| !matches!(s, "" | "." | "..") && !s.contains('\0');
@@ -274,11 +312,11 @@ impl S3Storage for FileSystem {
             "CopyObject: copy file",
         );
 
-        let src_metadata_path = trace_try!(self.get_metadata_path(bucket, key));
-        if src_metadata_path.exists() {
-            let dst_metadata_path = trace_try!(self.get_metadata_path(&input.bucket, &input.key));
-            let _ = trace_try!(async_fs::copy(src_metadata_path, dst_metadata_path).await);
-        }
+        let metadata = trace_try!(self.load_metadata(bucket, key).await);
+        trace_try!(
+            self.save_metadata(&input.bucket, &input.key, metadata.as_ref())
+                .await
+        );
 
         let md5_sum = trace_try!(self.get_md5_sum(bucket, key).await);
 
@@ -303,6 +341,7 @@ impl S3Storage for FileSystem {
 
         let path = trace_try!(self.get_bucket_path(&input.bucket));
         trace_try!(async_fs::remove_dir_all(path).await);
+        trace_try!(self.remove_bucket_metadata(&input.bucket).await);
         Ok(DeleteBucketOutput)
     }
 
@@ -325,6 +364,7 @@ impl S3Storage for FileSystem {
             }
         } else {
             trace_try!(async_fs::remove_file(path).await);
+            trace_try!(self.save_metadata(&input.bucket, &input.key, None).await);
         }
         let output = DeleteObjectOutput::default(); // TODO: handle other fields
         Ok(output)
@@ -351,6 +391,7 @@ impl S3Storage for FileSystem {
         let mut deleted: Vec<DeletedObject> = Vec::new();
         for (path, key) in objects {
             trace_try!(async_fs::remove_file(path).await);
+            trace_try!(self.save_metadata(&input.bucket, &key, None).await);
             deleted.push(DeletedObject {
                 key: Some(key),
                 ..DeletedObject::default()
@@ -768,9 +809,7 @@ impl S3Storage for FileSystem {
             "PutObject: write file",
         );
 
-        if let Some(ref metadata) = metadata {
-            trace_try!(self.save_metadata(&bucket, &key, metadata).await);
-        }
+        trace_try!(self.save_metadata(&bucket, &key, metadata.as_ref()).await);
 
         let output = PutObjectOutput {
             e_tag: Some(format!("\"{}\"", md5_sum)),
-- 
2.43.0


From 6d6bf3b3824caafb3cde860c5dedb6bb19784923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:39 +0000
Subject: [PATCH 22/42] fix: delete exactly the named objects and report each
 of them

---
 src/storages/fs.rs | 61 +++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 8a90f28..4f9c25b 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -14,8 +14,8 @@ use crate::dto::{
     HeadBucketOutput, HeadBucketRequest, HeadObjectError, HeadObjectOutput, HeadObjectRequest,
     ListBucketsError, ListBucketsOutput, ListBucketsRequest, ListObjectsError, ListObjectsOutput,
     ListObjectsRequest, ListObjectsV2Error, ListObjectsV2Output, ListObjectsV2Request, Object,
-    PutObjectError, PutObjectOutput, PutObjectRequest, UploadPartError, UploadPartOutput,
-    UploadPartRequest,
+    ObjectIdentifier, PutObjectError, PutObjectOutput, PutObjectRequest, UploadPartError,
+    UploadPartOutput, UploadPartRequest,
 };
 use crate::errors::{S3Result, S3StorageError, S3StorageResult};
 use crate::headers::{AmzCopySource, Range};
@@ -160,6 +160,32 @@ impl FileSystem {
         Ok(())
     }
 
+    /// remove an object, which may be missing, and the directories which its removal leaves empty
+    async fn remove_object(&self, bucket: &str, key: &str) -> io::Result<()> {
+        if !is_valid_key(key) {
+            return Ok(());
+        }
+
+        let bucket_path = self.get_bucket_path(bucket)?;
+        let mut path = self.get_object_path(bucket, key)?;
+        if !key.ends_with('/') {
+            let is_file = async_fs::symlink_metadata(&path)
+                .await
+                .map_or(false, |m| !m.is_dir());
+            if !is_file {
+                return Ok(());
+            }
+            remove_file_if_exists(&path).await?;
+            let _ = path.pop();
+        }
+        self.save_metadata(bucket, key, None).await?;
+
+        while path != bucket_path && async_fs::remove_dir(&path).await.is_ok() {
+            let _ = path.pop();
+        }
+        Ok(())
+    }
+
     /// get md5 sum
     async fn get_md5_sum(&self, bucket: &str, key: &str) -> io::Result<String> {
         let object_path = self.get_object_path(bucket, key)?;
@@ -351,21 +377,8 @@ impl S3Storage for FileSystem {
         input: DeleteObjectRequest,
     ) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> {
         self.check_bucket(&input.bucket)?;
-        if !is_valid_key(&input.key) {
-            return Ok(DeleteObjectOutput::default());
-        }
 
-        let path = trace_try!(self.get_object_path(&input.bucket, &input.key));
-        if input.key.ends_with('/') {
-            let mut dir = trace_try!(async_fs::read_dir(&path).await);
-            let is_empty = dir.next().await.is_none();
-            if is_empty {
-                trace_try!(async_fs::remove_dir(&path).await);
-            }
-        } else {
-            trace_try!(async_fs::remove_file(path).await);
-            trace_try!(self.save_metadata(&input.bucket, &input.key, None).await);
-        }
+        trace_try!(self.remove_object(&input.bucket, &input.key).await);
         let output = DeleteObjectOutput::default(); // TODO: handle other fields
         Ok(output)
     }
@@ -377,21 +390,9 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<DeleteObjectsOutput, DeleteObjectsError> {
         self.check_bucket(&input.bucket)?;
 
-        let mut objects: Vec<(PathBuf, String)> = Vec::new();
-        for object in input.delete.objects {
-            if !is_valid_key(&object.key) {
-                continue;
-            }
-            let path = trace_try!(self.get_object_path(&input.bucket, &object.key));
-            if path.exists() {
-                objects.push((path, object.key));
-            }
-        }
-
         let mut deleted: Vec<DeletedObject> = Vec::new();
-        for (path, key) in objects {
-            trace_try!(async_fs::remove_file(path).await);
-            trace_try!(self.save_metadata(&input.bucket, &key, None).await);
+        for ObjectIdentifier { key, .. } in input.delete.objects {
+            trace_try!(self.remove_object(&input.bucket, &key).await);
             deleted.push(DeletedObject {
                 key: Some(key),
                 ..DeletedObject::default()
-- 
2.43.0


From 7dfedd9d1fe12d132ab2874cfff44fa9ddc61b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:44 +0000
Subject: [PATCH 23/42] fix: tell directories from directory objects in the
 file system storage

---
 src/storages/fs.rs | 84 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 67 insertions(+), 17 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 4f9c25b..e436a41 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -144,6 +144,13 @@ impl FileSystem {
         async_fs::write(&path, &content).await
     }
 
+    /// Returns true if a directory was created as an object by its key
+    fn is_directory_object(&self, bucket: &str, key: &str) -> io::Result<bool> {
+        Ok(key.ends_with('/')
+            && self.get_metadata_path(bucket, key)?.exists()
+            && self.get_object_path(bucket, key)?.is_dir())
+    }
+
     /// remove the metadata of all objects of a bucket
     async fn remove_bucket_metadata(&self, bucket: &str) -> io::Result<()> {
         let prefix = format!(
@@ -180,7 +187,14 @@ impl FileSystem {
         }
         self.save_metadata(bucket, key, None).await?;
 
-        while path != bucket_path && async_fs::remove_dir(&path).await.is_ok() {
+        while let Ok(dir) = path.strip_prefix(&bucket_path) {
+            let dir_key = format!("{}/", dir.display());
+            if path == bucket_path
+                || self.is_directory_object(bucket, &dir_key)?
+                || async_fs::remove_dir(&path).await.is_err()
+            {
+                break;
+            }
             let _ = path.pop();
         }
         Ok(())
@@ -441,6 +455,27 @@ impl S3Storage for FileSystem {
         };
         let range: Option<Range> = input.range.as_deref().map(parse_range).transpose()?;
 
+        if object_path.is_dir() {
+            if !trace_try!(self.is_directory_object(&input.bucket, &input.key)) {
+                let err = code_error!(NoSuchKey, "The specified key does not exist.");
+                return Err(err.into());
+            }
+            if range.is_some() {
+                let err = code_error!(InvalidRange, "The requested range cannot be satisfied.");
+                return Err(err.into());
+            }
+            let file_metadata = trace_try!(async_fs::metadata(&object_path).await);
+            let output = GetObjectOutput {
+                body: Some(crate::dto::ByteStream::new(futures::stream::empty())),
+                content_length: Some(0),
+                last_modified: Some(time::to_rfc3339(trace_try!(file_metadata.modified()))),
+                metadata: trace_try!(self.load_metadata(&input.bucket, &input.key).await),
+                e_tag: Some(format!("\"{}\"", crypto::to_hex_string(Md5::digest(b"")))),
+                ..GetObjectOutput::default()
+            };
+            return Ok(output);
+        }
+
         let mut file = match File::open(&object_path).await {
             Ok(file) => file,
             Err(e) => {
@@ -550,14 +585,19 @@ impl S3Storage for FileSystem {
 
         let path = trace_try!(self.get_object_path(&input.bucket, &input.key));
 
-        if !path.exists() {
+        let is_directory_object = trace_try!(self.is_directory_object(&input.bucket, &input.key));
+        if !is_directory_object && !path.is_file() {
             let err = code_error!(NoSuchKey, "The specified key does not exist.");
             return Err(err.into());
         }
 
         let file_metadata = trace_try!(async_fs::metadata(path).await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
-        let size = file_metadata.len();
+        let size = if is_directory_object {
+            0
+        } else {
+            file_metadata.len()
+        };
 
         let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key).await);
 
@@ -621,24 +661,28 @@ impl S3Storage for FileSystem {
             while let Some(entry) = entries.next().await {
                 let entry = trace_try!(entry);
                 let file_type = trace_try!(entry.file_type().await);
-                if file_type.is_dir() {
+                let file_path = entry.path();
+                let key = trace_try!(file_path.strip_prefix(&path));
+                let mut key = key.to_string_lossy().into_owned();
+                let is_dir = file_type.is_dir();
+                if is_dir {
                     dir_queue.push_back(entry.path());
-                } else {
-                    let file_path = entry.path();
-                    let key = trace_try!(file_path.strip_prefix(&path));
+                    key.push('/');
+                }
+                if !is_dir || trace_try!(self.is_directory_object(&input.bucket, &key)) {
                     if let Some(ref prefix) = input.prefix {
-                        if !key.to_string_lossy().as_ref().starts_with(prefix) {
+                        if !key.starts_with(prefix) {
                             continue;
                         }
                     }
 
                     let metadata = trace_try!(entry.metadata().await);
                     let last_modified = time::to_rfc3339(trace_try!(metadata.modified()));
-                    let size = metadata.len();
+                    let size = if is_dir { 0 } else { metadata.len() };
 
                     objects.push(Object {
                         e_tag: None,
-                        key: Some(key.to_string_lossy().into()),
+                        key: Some(key),
                         last_modified: Some(last_modified),
                         owner: None,
                         size: Some(trace_try!(size.try_into())),
@@ -689,24 +733,28 @@ impl S3Storage for FileSystem {
             while let Some(entry) = entries.next().await {
                 let entry = trace_try!(entry);
                 let file_type = trace_try!(entry.file_type().await);
-                if file_type.is_dir() {
+                let file_path = entry.path();
+                let key = trace_try!(file_path.strip_prefix(&path));
+                let mut key = key.to_string_lossy().into_owned();
+                let is_dir = file_type.is_dir();
+                if is_dir {
                     dir_queue.push_back(entry.path());
-                } else {
-                    let file_path = entry.path();
-                    let key = trace_try!(file_path.strip_prefix(&path));
+                    key.push('/');
+                }
+                if !is_dir || trace_try!(self.is_directory_object(&input.bucket, &key)) {
                     if let Some(ref prefix) = input.prefix {
-                        if !key.to_string_lossy().as_ref().starts_with(prefix) {
+                        if !key.starts_with(prefix) {
                             continue;
                         }
                     }
 
                     let metadata = trace_try!(entry.metadata().await);
                     let last_modified = time::to_rfc3339(trace_try!(metadata.modified()));
-                    let size = metadata.len();
+                    let size = if is_dir { 0 } else { metadata.len() };
 
                     objects.push(Object {
                         e_tag: None,
-                        key: Some(key.to_string_lossy().into()),
+                        key: Some(key),
                         last_modified: Some(last_modified),
                         owner: None,
                         size: Some(trace_try!(size.try_into())),
@@ -777,6 +825,8 @@ impl S3Storage for FileSystem {
             if content_length == Some(0) {
                 let object_path = trace_try!(self.get_object_path(&bucket, &key));
                 trace_try!(async_fs::create_dir_all(&object_path).await);
+                let metadata = metadata.unwrap_or_default();
+                trace_try!(self.save_metadata(&bucket, &key, Some(&metadata)).await);
                 let output = PutObjectOutput::default();
                 return Ok(output);
             }
-- 
2.43.0


From 3e3b0dc134eda12a8a70916ddae582a94c3802f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:14 +0000
Subject: [PATCH 24/42] fix: store an upload only after its whole body was
 received

---
 src/storages/fs.rs | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index e436a41..3b4055c 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -110,6 +110,14 @@ impl FileSystem {
         Ok(ans)
     }
 
+    /// create a file under the virtual root which no request can name
+    async fn create_temp_file(&self) -> io::Result<(TempFile, File)> {
+        let path = self.root.join(format!(".tmp-{}", Uuid::new_v4()));
+        let temp_file = TempFile { path };
+        let file = File::create(&temp_file.path).await?;
+        Ok((temp_file, file))
+    }
+
     /// load metadata from fs
     async fn load_metadata(
         &self,
@@ -223,6 +231,19 @@ impl FileSystem {
     }
 }
 
+/// A file which is being written, removed on drop unless it was renamed
+#[derive(Debug)]
+struct TempFile {
+    /// path
+    path: PathBuf,
+}
+
+impl Drop for TempFile {
+    fn drop(&mut self) {
+        let _ = std::fs::remove_file(&self.path);
+    }
+}
+
 /// removes a file which may be missing
 async fn remove_file_if_exists(path: &Path) -> io::Result<()> {
     match async_fs::remove_file(path).await {
@@ -838,20 +859,23 @@ impl S3Storage for FileSystem {
         }
 
         let object_path = trace_try!(self.get_object_path(&bucket, &key));
-        if let Some(dir_path) = object_path.parent() {
-            trace_try!(async_fs::create_dir_all(&dir_path).await);
-        }
 
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
 
-        let file = trace_try!(File::create(&object_path).await);
+        let (temp_file, file) = trace_try!(self.create_temp_file().await);
         let mut writer = BufWriter::new(file);
 
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
         let size = trace_try!(ret);
         let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
 
+        self.check_bucket(&bucket)?;
+        if let Some(dir_path) = object_path.parent() {
+            trace_try!(async_fs::create_dir_all(&dir_path).await);
+        }
+        trace_try!(async_fs::rename(&temp_file.path, &object_path).await);
+
         debug!(
             path = %object_path.display(),
             ?size,
@@ -912,13 +936,15 @@ impl S3Storage for FileSystem {
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
 
-        let file = trace_try!(File::create(&file_path).await);
+        let (temp_file, file) = trace_try!(self.create_temp_file().await);
         let mut writer = BufWriter::new(file);
 
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
         let size = trace_try!(ret);
         let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
 
+        trace_try!(async_fs::rename(&temp_file.path, &file_path).await);
+
         debug!(
             path = %file_path.display(),
             ?size,
-- 
2.43.0


From 318b265fa7be9106509da6204ebd4b34107612c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:38 +0000
Subject: [PATCH 25/42] fix: bind multipart uploads to their object and its
 metadata

---
 src/storages/fs.rs | 50 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 3b4055c..daafa09 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -159,6 +159,40 @@ impl FileSystem {
             && self.get_object_path(bucket, key)?.is_dir())
     }
 
+    /// resolve the path of the file describing a multipart upload
+    fn get_upload_path(&self, upload_id: &str) -> PathBuf {
+        self.root.join(format!(".upload_id-{}.json", upload_id))
+    }
+
+    /// load the metadata of a multipart upload which was started for the object
+    async fn load_upload(
+        &self,
+        upload_id: &str,
+        bucket: &str,
+        key: &str,
+    ) -> S3Result<HashMap<String, String>> {
+        let no_such_upload = || {
+            code_error!(
+                NoSuchUpload,
+                "The specified multipart upload does not exist."
+            )
+        };
+
+        if Uuid::parse_str(upload_id).map_or(true, |id| id.to_string() != upload_id) {
+            return Err(no_such_upload());
+        }
+        let content = match async_fs::read(self.get_upload_path(upload_id)).await {
+            Err(e) if e.kind() == io::ErrorKind::NotFound => return Err(no_such_upload()),
+            ret => trace_try!(ret),
+        };
+        let (upload_bucket, upload_key, metadata): (String, String, HashMap<String, String>) =
+            trace_try!(serde_json::from_slice(&content));
+        if upload_bucket != bucket || upload_key != key {
+            return Err(no_such_upload());
+        }
+        Ok(metadata)
+    }
+
     /// remove the metadata of all objects of a bucket
     async fn remove_bucket_metadata(&self, bucket: &str) -> io::Result<()> {
         let prefix = format!(
@@ -903,6 +937,14 @@ impl S3Storage for FileSystem {
         check_key(&input.key)?;
 
         let upload_id = Uuid::new_v4().to_string();
+        let upload = (
+            &input.bucket,
+            &input.key,
+            input.metadata.unwrap_or_default(),
+        );
+        let content = trace_try!(serde_json::to_vec(&upload));
+        let upload_path = self.get_upload_path(&upload_id);
+        trace_try!(async_fs::write(&upload_path, &content).await);
 
         let output = CreateMultipartUploadOutput {
             bucket: Some(input.bucket),
@@ -923,6 +965,8 @@ impl S3Storage for FileSystem {
             body,
             upload_id,
             part_number,
+            bucket,
+            key,
             ..
         } = input;
 
@@ -930,6 +974,8 @@ impl S3Storage for FileSystem {
             code_error!(IncompleteBody, "You did not provide the number of bytes specified by the Content-Length HTTP header.")
         })?;
 
+        let _ = self.load_upload(&upload_id, &bucket, &key).await?;
+
         let file_path_str = format!(".upload_id-{}.part-{}", upload_id, part_number);
         let file_path = trace_try!(Path::new(&file_path_str).absolutize_virtually(&self.root));
 
@@ -985,6 +1031,7 @@ impl S3Storage for FileSystem {
 
         self.check_bucket(&bucket)?;
         check_key(&key)?;
+        let metadata = self.load_upload(&upload_id, &bucket, &key).await?;
 
         let object_path = trace_try!(self.get_object_path(&bucket, &key));
         let file = trace_try!(File::create(&object_path).await);
@@ -1020,6 +1067,9 @@ impl S3Storage for FileSystem {
             trace_try!(async_fs::remove_file(&part_path).await);
         }
         drop(writer);
+        let metadata = Some(metadata).filter(|m| !m.is_empty());
+        trace_try!(self.save_metadata(&bucket, &key, metadata.as_ref()).await);
+        trace_try!(async_fs::remove_file(self.get_upload_path(&upload_id)).await);
 
         let file_size = trace_try!(async_fs::metadata(&object_path).await).len();
 
-- 
2.43.0


From 9d1536f8b4c5b095bc1f00bc9a1a14a4bc971379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 26/42] fix: complete multipart uploads as a whole or not at
 all

---
 src/storages/fs.rs | 87 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 66 insertions(+), 21 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index daafa09..3312a9d 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -193,16 +193,28 @@ impl FileSystem {
         Ok(metadata)
     }
 
+    /// remove a multipart upload and its parts
+    async fn remove_upload(&self, upload_id: &str) -> io::Result<()> {
+        remove_file_if_exists(&self.get_upload_path(upload_id)).await?;
+        self.remove_files(&format!(".upload_id-{}.part-", upload_id))
+            .await
+    }
+
     /// remove the metadata of all objects of a bucket
     async fn remove_bucket_metadata(&self, bucket: &str) -> io::Result<()> {
         let prefix = format!(
             ".bucket-{}.object",
             base64_simd::URL_SAFE_NO_PAD.encode_to_string(bucket)
         );
+        self.remove_files(&prefix).await
+    }
+
+    /// remove the files under the virtual root whose names start with `prefix`
+    async fn remove_files(&self, prefix: &str) -> io::Result<()> {
         let mut iter = async_fs::read_dir(&self.root).await?;
         while let Some(entry) = iter.next().await {
             let entry = entry?;
-            if entry.file_name().to_string_lossy().starts_with(&prefix) {
+            if entry.file_name().to_string_lossy().starts_with(prefix) {
                 remove_file_if_exists(&entry.path()).await?;
             }
         }
@@ -245,7 +257,12 @@ impl FileSystem {
     /// get md5 sum
     async fn get_md5_sum(&self, bucket: &str, key: &str) -> io::Result<String> {
         let object_path = self.get_object_path(bucket, key)?;
-        let mut file = File::open(&object_path).await?;
+        self.get_file_md5_sum(&object_path).await
+    }
+
+    /// get md5 sum of a file
+    async fn get_file_md5_sum(&self, path: &Path) -> io::Result<String> {
+        let mut file = File::open(path).await?;
         let mut buf = vec![0; 4_usize.wrapping_mul(1024).wrapping_mul(1024)];
         let mut md5_hash = Md5::new();
         loop {
@@ -936,6 +953,14 @@ impl S3Storage for FileSystem {
         self.check_bucket(&input.bucket)?;
         check_key(&input.key)?;
 
+        if input.key.ends_with('/') {
+            let err = code_error!(
+                UnexpectedContent,
+                "A directory object can not be created by a multipart upload."
+            );
+            return Err(err.into());
+        }
+
         let upload_id = Uuid::new_v4().to_string();
         let upload = (
             &input.bucket,
@@ -1034,25 +1059,35 @@ impl S3Storage for FileSystem {
         let metadata = self.load_upload(&upload_id, &bucket, &key).await?;
 
         let object_path = trace_try!(self.get_object_path(&bucket, &key));
-        let file = trace_try!(File::create(&object_path).await);
+        let (temp_file, file) = trace_try!(self.create_temp_file().await);
         let mut writer = BufWriter::new(file);
 
-        let mut cnt: i64 = 0;
+        let mut last_part_number: i64 = 0;
         for part in multipart_upload.parts.into_iter().flatten() {
-            let part_number = trace_try!(part
-                .part_number
-                .ok_or_else(|| { io::Error::new(io::ErrorKind::NotFound, "Missing part_number") }));
-            cnt = cnt.wrapping_add(1);
-            if part_number != cnt {
-                trace_try!(Err(io::Error::new(
-                    io::ErrorKind::Other,
-                    "InvalidPartOrder"
-                )));
+            let part_number = part.part_number.ok_or_else(|| {
+                code_error!(MalformedXML, "A part of the part list has no part number.")
+            })?;
+            if part_number <= last_part_number {
+                let err = code_error!(
+                    InvalidPartOrder,
+                    "The list of parts was not in ascending order."
+                );
+                return Err(err.into());
             }
+            last_part_number = part_number;
             let part_path_str = format!(".upload_id-{}.part-{}", upload_id, part_number);
             let part_path = trace_try!(Path::new(&part_path_str).absolutize_virtually(&self.root));
 
-            let mut reader = trace_try!(File::open(&part_path).await);
+            let mut reader = match File::open(&part_path).await {
+                Err(e) if e.kind() == io::ErrorKind::NotFound => {
+                    let err = code_error!(
+                        InvalidPart,
+                        "One or more of the specified parts could not be found."
+                    );
+                    return Err(err.into());
+                }
+                ret => trace_try!(ret),
+            };
             let (ret, duration) =
                 time::count_duration(futures::io::copy(&mut reader, &mut writer)).await;
             let size = trace_try!(ret);
@@ -1064,21 +1099,31 @@ impl S3Storage for FileSystem {
                 ?duration,
                 "CompleteMultipartUpload: write file",
             );
-            trace_try!(async_fs::remove_file(&part_path).await);
         }
-        drop(writer);
-        let metadata = Some(metadata).filter(|m| !m.is_empty());
-        trace_try!(self.save_metadata(&bucket, &key, metadata.as_ref()).await);
-        trace_try!(async_fs::remove_file(self.get_upload_path(&upload_id)).await);
+        if last_part_number == 0 {
+            let err = code_error!(MalformedXML, "You must specify at least one part.");
+            return Err(err.into());
+        }
+        trace_try!(writer.close().await);
 
-        let file_size = trace_try!(async_fs::metadata(&object_path).await).len();
+        let file_size = trace_try!(async_fs::metadata(&temp_file.path).await).len();
 
         let (md5_sum, duration) = {
-            let (ret, duration) = time::count_duration(self.get_md5_sum(&bucket, &key)).await;
+            let (ret, duration) =
+                time::count_duration(self.get_file_md5_sum(&temp_file.path)).await;
             let md5_sum = trace_try!(ret);
             (md5_sum, duration)
         };
 
+        self.check_bucket(&bucket)?;
+        if let Some(dir_path) = object_path.parent() {
+            trace_try!(async_fs::create_dir_all(&dir_path).await);
+        }
+        trace_try!(async_fs::rename(&temp_file.path, &object_path).await);
+        let metadata = Some(metadata).filter(|m| !m.is_empty());
+        trace_try!(self.save_metadata(&bucket, &key, metadata.as_ref()).await);
+        trace_try!(self.remove_upload(&upload_id).await);
+
         debug!(
             sum = ?md5_sum,
             path = %object_path.display(),
-- 
2.43.0


From fb0eb2804e28cf8ea76902576718e016355773ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:43 +0000
Subject: [PATCH 27/42] fix: decode the copy source

---
 src/storages/fs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 3312a9d..f01c41e 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -392,7 +392,10 @@ impl S3Storage for FileSystem {
         &self,
         input: CopyObjectRequest,
     ) -> S3StorageResult<CopyObjectOutput, CopyObjectError> {
-        let copy_source = AmzCopySource::from_header_str(&input.copy_source)
+        let copy_source = urlencoding::decode(&input.copy_source)
+            .map_err(|err| invalid_request!("Invalid header: x-amz-copy-source", err))?;
+        let copy_source = copy_source.strip_prefix('/').unwrap_or(&copy_source);
+        let copy_source = AmzCopySource::from_header_str(copy_source)
             .map_err(|err| invalid_request!("Invalid header: x-amz-copy-source", err))?;
 
         let (bucket, key) = match copy_source {
-- 
2.43.0


From f395e09c678ad2ec4fc4ab70074d61da88c1ed3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 28/42] fix: copy objects to new directories and onto
 themselves

---
 src/storages/fs.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index f01c41e..5d8153b 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -408,18 +408,29 @@ impl S3Storage for FileSystem {
         self.check_bucket(bucket)?;
         self.check_bucket(&input.bucket)?;
         check_key(&input.key)?;
-        if !is_valid_key(key) {
+
+        let src_path = trace_try!(self.get_object_path(bucket, key));
+        if !is_valid_key(key) || !(src_path.is_file() || src_path.is_dir() && key.ends_with('/')) {
             let err = code_error!(NoSuchKey, "The specified key does not exist.");
             return Err(err.into());
         }
-
-        let src_path = trace_try!(self.get_object_path(bucket, key));
+        if key.ends_with('/') || input.key.ends_with('/') {
+            return Err(not_supported!("Copying directory objects is not supported yet.").into());
+        }
         let dst_path = trace_try!(self.get_object_path(&input.bucket, &input.key));
 
         let file_metadata = trace_try!(async_fs::metadata(&src_path).await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
-        let _ = trace_try!(async_fs::copy(&src_path, &dst_path).await);
+        let (temp_file, _) = trace_try!(self.create_temp_file().await);
+        let _ = trace_try!(async_fs::copy(&src_path, &temp_file.path).await);
+        let md5_sum = trace_try!(self.get_file_md5_sum(&temp_file.path).await);
+
+        self.check_bucket(&input.bucket)?;
+        if let Some(dir_path) = dst_path.parent() {
+            trace_try!(async_fs::create_dir_all(&dir_path).await);
+        }
+        trace_try!(async_fs::rename(&temp_file.path, &dst_path).await);
 
         debug!(
             from = %src_path.display(),
@@ -433,8 +444,6 @@ impl S3Storage for FileSystem {
                 .await
         );
 
-        let md5_sum = trace_try!(self.get_md5_sum(bucket, key).await);
-
         let output = CopyObjectOutput {
             copy_object_result: CopyObjectResult {
                 e_tag: Some(format!("\"{}\"", md5_sum)),
-- 
2.43.0


From 1ee6b080ecee87d7e1da28b53e5be345158de5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:35 +0000
Subject: [PATCH 29/42] fix: do not read a file under a key with a trailing
 slash

---
 src/storages/fs.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 5d8153b..1f5f279 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -159,6 +159,17 @@ impl FileSystem {
             && self.get_object_path(bucket, key)?.is_dir())
     }
 
+    /// Returns true if the object exists
+    fn object_exists(&self, bucket: &str, key: &str) -> io::Result<bool> {
+        if !is_valid_key(key) {
+            return Ok(false);
+        }
+        if key.ends_with('/') {
+            return self.is_directory_object(bucket, key);
+        }
+        Ok(self.get_object_path(bucket, key)?.is_file())
+    }
+
     /// resolve the path of the file describing a multipart upload
     fn get_upload_path(&self, upload_id: &str) -> PathBuf {
         self.root.join(format!(".upload_id-{}.json", upload_id))
@@ -409,11 +420,11 @@ impl S3Storage for FileSystem {
         self.check_bucket(&input.bucket)?;
         check_key(&input.key)?;
 
-        let src_path = trace_try!(self.get_object_path(bucket, key));
-        if !is_valid_key(key) || !(src_path.is_file() || src_path.is_dir() && key.ends_with('/')) {
+        if !trace_try!(self.object_exists(bucket, key)) {
             let err = code_error!(NoSuchKey, "The specified key does not exist.");
             return Err(err.into());
         }
+        let src_path = trace_try!(self.get_object_path(bucket, key));
         if key.ends_with('/') || input.key.ends_with('/') {
             return Err(not_supported!("Copying directory objects is not supported yet.").into());
         }
@@ -527,7 +538,7 @@ impl S3Storage for FileSystem {
         &self,
         input: GetObjectRequest,
     ) -> S3StorageResult<GetObjectOutput, GetObjectError> {
-        if !is_valid_key(&input.key) {
+        if !trace_try!(self.object_exists(&input.bucket, &input.key)) {
             let err = code_error!(NoSuchKey, "The specified key does not exist.");
             return Err(err.into());
         }
@@ -539,11 +550,7 @@ impl S3Storage for FileSystem {
         };
         let range: Option<Range> = input.range.as_deref().map(parse_range).transpose()?;
 
-        if object_path.is_dir() {
-            if !trace_try!(self.is_directory_object(&input.bucket, &input.key)) {
-                let err = code_error!(NoSuchKey, "The specified key does not exist.");
-                return Err(err.into());
-            }
+        if input.key.ends_with('/') {
             if range.is_some() {
                 let err = code_error!(InvalidRange, "The requested range cannot be satisfied.");
                 return Err(err.into());
@@ -662,22 +669,16 @@ impl S3Storage for FileSystem {
         &self,
         input: HeadObjectRequest,
     ) -> S3StorageResult<HeadObjectOutput, HeadObjectError> {
-        if !is_valid_key(&input.key) {
+        if !trace_try!(self.object_exists(&input.bucket, &input.key)) {
             let err = code_error!(NoSuchKey, "The specified key does not exist.");
             return Err(err.into());
         }
 
         let path = trace_try!(self.get_object_path(&input.bucket, &input.key));
 
-        let is_directory_object = trace_try!(self.is_directory_object(&input.bucket, &input.key));
-        if !is_directory_object && !path.is_file() {
-            let err = code_error!(NoSuchKey, "The specified key does not exist.");
-            return Err(err.into());
-        }
-
         let file_metadata = trace_try!(async_fs::metadata(path).await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
-        let size = if is_directory_object {
+        let size = if input.key.ends_with('/') {
             0
         } else {
             file_metadata.len()
-- 
2.43.0


From 4503c68aee3f0304ff6c4dda39f8e08679584f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 30/42] fix: clamp byte ranges to the object and report them

---
 src/storages/fs.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 1f5f279..a74e3d1 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -579,10 +579,10 @@ impl S3Storage for FileSystem {
         let file_metadata = trace_try!(file.metadata().await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
-        let content_length = {
+        let (content_length, content_range) = {
             let file_len = file_metadata.len();
-            let content_len = match range {
-                None => file_len,
+            let (offset, content_len) = match range {
+                None => (0, file_len),
                 Some(Range::Normal { first, last }) => {
                     if first >= file_len {
                         let err =
@@ -595,27 +595,28 @@ impl S3Storage for FileSystem {
                     //      len = last + 1 - first
                     // or   len = file_len - first
 
-                    last.and_then(|x| x.checked_add(1))
-                        .unwrap_or(file_len)
-                        .wrapping_sub(first)
+                    let end = last
+                        .and_then(|x| x.checked_add(1))
+                        .map_or(file_len, |x| x.min(file_len));
+                    (first, end.wrapping_sub(first))
                 }
                 Some(Range::Suffix { last }) => {
-                    let offset = Some(last)
-                        .filter(|&x| x <= file_len)
-                        .and_then(|x| i64::try_from(x).ok())
-                        .and_then(i64::checked_neg);
-
-                    if let Some(x) = offset {
-                        let _ = trace_try!(file.seek(SeekFrom::End(x)).await);
-                    } else {
+                    let len = last.min(file_len);
+                    if len == 0 {
                         let err =
                             code_error!(InvalidRange, "The requested range cannot be satisfied.");
                         return Err(err.into());
                     }
-                    last
+                    let offset = file_len.wrapping_sub(len);
+                    let _ = trace_try!(file.seek(SeekFrom::Start(offset)).await);
+                    (offset, len)
                 }
             };
-            trace_try!(usize::try_from(content_len))
+            let content_range = range.as_ref().map(|_| {
+                let last = offset.wrapping_add(content_len).wrapping_sub(1);
+                format!("bytes {}-{}/{}", offset, last, file_len)
+            });
+            (trace_try!(usize::try_from(content_len)), content_range)
         };
 
         let stream = BytesStream::new(file, 4096, Some(content_length));
@@ -640,6 +641,7 @@ impl S3Storage for FileSystem {
         let output: GetObjectOutput = GetObjectOutput {
             body: Some(crate::dto::ByteStream::new(stream)),
             content_length: Some(trace_try!(content_length.try_into())),
+            content_range,
             last_modified: Some(last_modified),
             metadata: object_metadata,
             e_tag: Some(format!("\"{}\"", md5_sum)),
-- 
2.43.0


From 7a05cc531cfde335757532cf483929180d5a220f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:00 +0000
Subject: [PATCH 31/42] fix: keep content and metadata of an object together
 under concurrent requests

---
 src/storages/fs.rs | 266 +++++++++++++++++++++++++--------------------
 1 file changed, 148 insertions(+), 118 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index a74e3d1..b4134fa 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -26,8 +26,10 @@ use crate::utils::{crypto, time, Apply};
 use std::collections::{HashMap, VecDeque};
 use std::convert::TryInto;
 use std::env;
+use std::fs;
 use std::io::{self, SeekFrom};
 use std::path::{Path, PathBuf};
+use std::sync::{Mutex, MutexGuard, PoisonError};
 
 use futures::io::{AsyncReadExt, AsyncSeekExt, AsyncWrite, AsyncWriteExt, BufWriter};
 use futures::stream::{Stream, StreamExt, TryStreamExt};
@@ -47,6 +49,8 @@ const MAX_FILE_NAME_LEN: usize = 255;
 pub struct FileSystem {
     /// root path
     root: PathBuf,
+    /// guards the content of an object together with its metadata
+    lock: Mutex<()>,
 }
 
 impl FileSystem {
@@ -55,7 +59,13 @@ impl FileSystem {
     /// Returns an `Err` if current working directory is invalid or `root` doesn't exist
     pub fn new(root: impl AsRef<Path>) -> io::Result<Self> {
         let root = env::current_dir()?.join(root).canonicalize()?;
-        Ok(Self { root })
+        let lock = Mutex::new(());
+        Ok(Self { root, lock })
+    }
+
+    /// lock the objects against changes
+    fn lock(&self) -> MutexGuard<'_, ()> {
+        self.lock.lock().unwrap_or_else(PoisonError::into_inner)
     }
 
     /// resolve object path under the virtual root
@@ -110,23 +120,28 @@ impl FileSystem {
         Ok(ans)
     }
 
+    /// get the path of a file under the virtual root which no request can name
+    fn get_temp_file(&self) -> TempFile {
+        let path = self.root.join(format!(".tmp-{}", Uuid::new_v4()));
+        TempFile { path }
+    }
+
     /// create a file under the virtual root which no request can name
     async fn create_temp_file(&self) -> io::Result<(TempFile, File)> {
-        let path = self.root.join(format!(".tmp-{}", Uuid::new_v4()));
-        let temp_file = TempFile { path };
+        let temp_file = self.get_temp_file();
         let file = File::create(&temp_file.path).await?;
         Ok((temp_file, file))
     }
 
     /// load metadata from fs
-    async fn load_metadata(
+    fn load_metadata(
         &self,
         bucket: &str,
         key: &str,
     ) -> io::Result<Option<HashMap<String, String>>> {
         let path = self.get_metadata_path(bucket, key)?;
         if path.exists() {
-            let content = async_fs::read(&path).await?;
+            let content = fs::read(&path)?;
             let map = serde_json::from_slice(&content)
                 .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
             Ok(Some(map))
@@ -136,20 +151,91 @@ impl FileSystem {
     }
 
     /// save metadata, replacing that of an earlier object
-    async fn save_metadata(
+    fn save_metadata(
         &self,
         bucket: &str,
         key: &str,
         metadata: Option<&HashMap<String, String>>,
     ) -> io::Result<()> {
+        self.prepare_metadata(bucket, key, metadata)?()
+    }
+
+    /// prepare saving metadata, so that only the last step is left to do
+    fn prepare_metadata(
+        &self,
+        bucket: &str,
+        key: &str,
+        metadata: Option<&HashMap<String, String>>,
+    ) -> io::Result<impl FnOnce() -> io::Result<()>> {
         let path = self.get_metadata_path(bucket, key)?;
-        let metadata = match metadata {
-            Some(metadata) => metadata,
-            None => return remove_file_if_exists(&path).await,
+        let temp_file = match metadata {
+            None => None,
+            Some(metadata) => {
+                let content = serde_json::to_vec(metadata)
+                    .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
+                let temp_file = self.get_temp_file();
+                fs::write(&temp_file.path, &content)?;
+                Some(temp_file)
+            }
         };
-        let content = serde_json::to_vec(metadata)
-            .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
-        async_fs::write(&path, &content).await
+        Ok(move || match temp_file {
+            None => remove_file_if_exists(&path),
+            Some(temp_file) => fs::rename(&temp_file.path, &path),
+        })
+    }
+
+    /// put a completely written object in its place, together with its metadata
+    fn commit_object(
+        &self,
+        temp_file: &TempFile,
+        bucket: &str,
+        key: &str,
+        metadata: Option<&HashMap<String, String>>,
+    ) -> S3Result<()> {
+        let _guard = self.lock();
+
+        self.check_bucket(bucket)?;
+        let object_path = trace_try!(self.get_object_path(bucket, key));
+        let save_metadata = trace_try!(self.prepare_metadata(bucket, key, metadata));
+        if let Some(dir_path) = object_path.parent() {
+            trace_try!(fs::create_dir_all(&dir_path));
+        }
+        trace_try!(fs::rename(&temp_file.path, &object_path));
+        trace_try!(save_metadata());
+        Ok(())
+    }
+
+    /// create a directory as an object
+    fn create_directory_object(
+        &self,
+        bucket: &str,
+        key: &str,
+        metadata: &HashMap<String, String>,
+    ) -> S3Result<()> {
+        let _guard = self.lock();
+
+        self.check_bucket(bucket)?;
+        let object_path = trace_try!(self.get_object_path(bucket, key));
+        trace_try!(fs::create_dir_all(&object_path));
+        trace_try!(self.save_metadata(bucket, key, Some(metadata)));
+        Ok(())
+    }
+
+    /// open an object and load its metadata
+    fn open_object(
+        &self,
+        bucket: &str,
+        key: &str,
+    ) -> S3Result<(File, Option<HashMap<String, String>>)> {
+        let _guard = self.lock();
+
+        if !trace_try!(self.object_exists(bucket, key)) {
+            return Err(code_error!(NoSuchKey, "The specified key does not exist."));
+        }
+        let object_path = trace_try!(self.get_object_path(bucket, key));
+        let file = trace_try!(fs::File::open(&object_path));
+        let metadata = trace_try!(self.load_metadata(bucket, key));
+        Ok((file.into(), metadata))
     }
 
     /// Returns true if a directory was created as an object by its key
@@ -205,58 +291,56 @@ impl FileSystem {
     }
 
     /// remove a multipart upload and its parts
-    async fn remove_upload(&self, upload_id: &str) -> io::Result<()> {
-        remove_file_if_exists(&self.get_upload_path(upload_id)).await?;
+    fn remove_upload(&self, upload_id: &str) -> io::Result<()> {
+        remove_file_if_exists(&self.get_upload_path(upload_id))?;
         self.remove_files(&format!(".upload_id-{}.part-", upload_id))
-            .await
     }
 
     /// remove the metadata of all objects of a bucket
-    async fn remove_bucket_metadata(&self, bucket: &str) -> io::Result<()> {
+    fn remove_bucket_metadata(&self, bucket: &str) -> io::Result<()> {
         let prefix = format!(
             ".bucket-{}.object",
             base64_simd::URL_SAFE_NO_PAD.encode_to_string(bucket)
         );
-        self.remove_files(&prefix).await
+        self.remove_files(&prefix)
     }
 
     /// remove the files under the virtual root whose names start with `prefix`
-    async fn remove_files(&self, prefix: &str) -> io::Result<()> {
-        let mut iter = async_fs::read_dir(&self.root).await?;
-        while let Some(entry) = iter.next().await {
+    fn remove_files(&self, prefix: &str) -> io::Result<()> {
+        for entry in fs::read_dir(&self.root)? {
             let entry = entry?;
             if entry.file_name().to_string_lossy().starts_with(prefix) {
-                remove_file_if_exists(&entry.path()).await?;
+                remove_file_if_exists(&entry.path())?;
             }
         }
         Ok(())
     }
 
     /// remove an object, which may be missing, and the directories which its removal leaves empty
-    async fn remove_object(&self, bucket: &str, key: &str) -> io::Result<()> {
+    fn remove_object(&self, bucket: &str, key: &str) -> io::Result<()> {
         if !is_valid_key(key) {
             return Ok(());
         }
 
+        let _guard = self.lock();
+
         let bucket_path = self.get_bucket_path(bucket)?;
         let mut path = self.get_object_path(bucket, key)?;
         if !key.ends_with('/') {
-            let is_file = async_fs::symlink_metadata(&path)
-                .await
-                .map_or(false, |m| !m.is_dir());
+            let is_file = fs::symlink_metadata(&path).map_or(false, |m| !m.is_dir());
             if !is_file {
                 return Ok(());
             }
-            remove_file_if_exists(&path).await?;
+            remove_file_if_exists(&path)?;
             let _ = path.pop();
         }
-        self.save_metadata(bucket, key, None).await?;
+        self.save_metadata(bucket, key, None)?;
 
         while let Ok(dir) = path.strip_prefix(&bucket_path) {
             let dir_key = format!("{}/", dir.display());
             if path == bucket_path
                 || self.is_directory_object(bucket, &dir_key)?
-                || async_fs::remove_dir(&path).await.is_err()
+                || fs::remove_dir(&path).is_err()
             {
                 break;
             }
@@ -266,14 +350,7 @@ impl FileSystem {
     }
 
     /// get md5 sum
-    async fn get_md5_sum(&self, bucket: &str, key: &str) -> io::Result<String> {
-        let object_path = self.get_object_path(bucket, key)?;
-        self.get_file_md5_sum(&object_path).await
-    }
-
-    /// get md5 sum of a file
-    async fn get_file_md5_sum(&self, path: &Path) -> io::Result<String> {
-        let mut file = File::open(path).await?;
+    async fn get_md5_sum(&self, file: &mut File) -> io::Result<String> {
         let mut buf = vec![0; 4_usize.wrapping_mul(1024).wrapping_mul(1024)];
         let mut md5_hash = Md5::new();
         loop {
@@ -302,13 +379,13 @@ struct TempFile {
 
 impl Drop for TempFile {
     fn drop(&mut self) {
-        let _ = std::fs::remove_file(&self.path);
+        let _ = fs::remove_file(&self.path);
     }
 }
 
 /// removes a file which may be missing
-async fn remove_file_if_exists(path: &Path) -> io::Result<()> {
-    match async_fs::remove_file(path).await {
+fn remove_file_if_exists(path: &Path) -> io::Result<()> {
+    match fs::remove_file(path) {
         Err(e) if e.kind() != io::ErrorKind::NotFound => Err(e),
         _ => Ok(()),
     }
@@ -420,28 +497,22 @@ impl S3Storage for FileSystem {
         self.check_bucket(&input.bucket)?;
         check_key(&input.key)?;
 
-        if !trace_try!(self.object_exists(bucket, key)) {
-            let err = code_error!(NoSuchKey, "The specified key does not exist.");
-            return Err(err.into());
-        }
-        let src_path = trace_try!(self.get_object_path(bucket, key));
+        let (mut src_file, metadata) = self.open_object(bucket, key)?;
         if key.ends_with('/') || input.key.ends_with('/') {
             return Err(not_supported!("Copying directory objects is not supported yet.").into());
         }
+        let src_path = trace_try!(self.get_object_path(bucket, key));
         let dst_path = trace_try!(self.get_object_path(&input.bucket, &input.key));
 
-        let file_metadata = trace_try!(async_fs::metadata(&src_path).await);
+        let file_metadata = trace_try!(src_file.metadata().await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
-        let (temp_file, _) = trace_try!(self.create_temp_file().await);
-        let _ = trace_try!(async_fs::copy(&src_path, &temp_file.path).await);
-        let md5_sum = trace_try!(self.get_file_md5_sum(&temp_file.path).await);
+        let md5_sum = trace_try!(self.get_md5_sum(&mut src_file).await);
+        let _ = trace_try!(src_file.seek(SeekFrom::Start(0)).await);
 
-        self.check_bucket(&input.bucket)?;
-        if let Some(dir_path) = dst_path.parent() {
-            trace_try!(async_fs::create_dir_all(&dir_path).await);
-        }
-        trace_try!(async_fs::rename(&temp_file.path, &dst_path).await);
+        let (temp_file, mut file) = trace_try!(self.create_temp_file().await);
+        let _ = trace_try!(futures::io::copy(&mut src_file, &mut file).await);
+        self.commit_object(&temp_file, &input.bucket, &input.key, metadata.as_ref())?;
 
         debug!(
             from = %src_path.display(),
@@ -449,12 +520,6 @@ impl S3Storage for FileSystem {
             "CopyObject: copy file",
         );
 
-        let metadata = trace_try!(self.load_metadata(bucket, key).await);
-        trace_try!(
-            self.save_metadata(&input.bucket, &input.key, metadata.as_ref())
-                .await
-        );
-
         let output = CopyObjectOutput {
             copy_object_result: CopyObjectResult {
                 e_tag: Some(format!("\"{}\"", md5_sum)),
@@ -472,11 +537,12 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteBucketRequest,
     ) -> S3StorageResult<DeleteBucketOutput, DeleteBucketError> {
+        let _guard = self.lock();
         self.check_bucket(&input.bucket)?;
 
         let path = trace_try!(self.get_bucket_path(&input.bucket));
-        trace_try!(async_fs::remove_dir_all(path).await);
-        trace_try!(self.remove_bucket_metadata(&input.bucket).await);
+        trace_try!(fs::remove_dir_all(path));
+        trace_try!(self.remove_bucket_metadata(&input.bucket));
         Ok(DeleteBucketOutput)
     }
 
@@ -487,7 +553,7 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> {
         self.check_bucket(&input.bucket)?;
 
-        trace_try!(self.remove_object(&input.bucket, &input.key).await);
+        trace_try!(self.remove_object(&input.bucket, &input.key));
         let output = DeleteObjectOutput::default(); // TODO: handle other fields
         Ok(output)
     }
@@ -501,7 +567,7 @@ impl S3Storage for FileSystem {
 
         let mut deleted: Vec<DeletedObject> = Vec::new();
         for ObjectIdentifier { key, .. } in input.delete.objects {
-            trace_try!(self.remove_object(&input.bucket, &key).await);
+            trace_try!(self.remove_object(&input.bucket, &key));
             deleted.push(DeletedObject {
                 key: Some(key),
                 ..DeletedObject::default()
@@ -538,10 +604,7 @@ impl S3Storage for FileSystem {
         &self,
         input: GetObjectRequest,
     ) -> S3StorageResult<GetObjectOutput, GetObjectError> {
-        if !trace_try!(self.object_exists(&input.bucket, &input.key)) {
-            let err = code_error!(NoSuchKey, "The specified key does not exist.");
-            return Err(err.into());
-        }
+        let (mut file, object_metadata) = self.open_object(&input.bucket, &input.key)?;
 
         let object_path = trace_try!(self.get_object_path(&input.bucket, &input.key));
 
@@ -550,34 +613,31 @@ impl S3Storage for FileSystem {
         };
         let range: Option<Range> = input.range.as_deref().map(parse_range).transpose()?;
 
+        let file_metadata = trace_try!(file.metadata().await);
+        let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
+
         if input.key.ends_with('/') {
             if range.is_some() {
                 let err = code_error!(InvalidRange, "The requested range cannot be satisfied.");
                 return Err(err.into());
             }
-            let file_metadata = trace_try!(async_fs::metadata(&object_path).await);
             let output = GetObjectOutput {
                 body: Some(crate::dto::ByteStream::new(futures::stream::empty())),
                 content_length: Some(0),
-                last_modified: Some(time::to_rfc3339(trace_try!(file_metadata.modified()))),
-                metadata: trace_try!(self.load_metadata(&input.bucket, &input.key).await),
+                last_modified: Some(last_modified),
+                metadata: object_metadata,
                 e_tag: Some(format!("\"{}\"", crypto::to_hex_string(Md5::digest(b"")))),
                 ..GetObjectOutput::default()
             };
             return Ok(output);
         }
 
-        let mut file = match File::open(&object_path).await {
-            Ok(file) => file,
-            Err(e) => {
-                error!(error = %e, "GetObject: open file");
-                let err = code_error!(NoSuchKey, "The specified key does not exist.");
-                return Err(err.into());
-            }
+        let (md5_sum, duration) = {
+            let (ret, duration) = time::count_duration(self.get_md5_sum(&mut file)).await;
+            let md5_sum = trace_try!(ret);
+            (md5_sum, duration)
         };
-
-        let file_metadata = trace_try!(file.metadata().await);
-        let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
+        let _ = trace_try!(file.seek(SeekFrom::Start(0)).await);
 
         let (content_length, content_range) = {
             let file_len = file_metadata.len();
@@ -621,15 +681,6 @@ impl S3Storage for FileSystem {
 
         let stream = BytesStream::new(file, 4096, Some(content_length));
 
-        let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key).await);
-
-        let (md5_sum, duration) = {
-            let (ret, duration) =
-                time::count_duration(self.get_md5_sum(&input.bucket, &input.key)).await;
-            let md5_sum = trace_try!(ret);
-            (md5_sum, duration)
-        };
-
         debug!(
             sum = ?md5_sum,
             path = %object_path.display(),
@@ -671,14 +722,9 @@ impl S3Storage for FileSystem {
         &self,
         input: HeadObjectRequest,
     ) -> S3StorageResult<HeadObjectOutput, HeadObjectError> {
-        if !trace_try!(self.object_exists(&input.bucket, &input.key)) {
-            let err = code_error!(NoSuchKey, "The specified key does not exist.");
-            return Err(err.into());
-        }
-
-        let path = trace_try!(self.get_object_path(&input.bucket, &input.key));
+        let (file, object_metadata) = self.open_object(&input.bucket, &input.key)?;
 
-        let file_metadata = trace_try!(async_fs::metadata(path).await);
+        let file_metadata = trace_try!(file.metadata().await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
         let size = if input.key.ends_with('/') {
             0
@@ -686,8 +732,6 @@ impl S3Storage for FileSystem {
             file_metadata.len()
         };
 
-        let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key).await);
-
         let output: HeadObjectOutput = HeadObjectOutput {
             content_length: Some(trace_try!(size.try_into())),
             content_type: Some(mime::APPLICATION_OCTET_STREAM.as_ref().to_owned()), // TODO: handle content type
@@ -910,10 +954,7 @@ impl S3Storage for FileSystem {
 
         if key.ends_with('/') {
             if content_length == Some(0) {
-                let object_path = trace_try!(self.get_object_path(&bucket, &key));
-                trace_try!(async_fs::create_dir_all(&object_path).await);
-                let metadata = metadata.unwrap_or_default();
-                trace_try!(self.save_metadata(&bucket, &key, Some(&metadata)).await);
+                self.create_directory_object(&bucket, &key, &metadata.unwrap_or_default())?;
                 let output = PutObjectOutput::default();
                 return Ok(output);
             }
@@ -936,11 +977,7 @@ impl S3Storage for FileSystem {
         let size = trace_try!(ret);
         let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
 
-        self.check_bucket(&bucket)?;
-        if let Some(dir_path) = object_path.parent() {
-            trace_try!(async_fs::create_dir_all(&dir_path).await);
-        }
-        trace_try!(async_fs::rename(&temp_file.path, &object_path).await);
+        self.commit_object(&temp_file, &bucket, &key, metadata.as_ref())?;
 
         debug!(
             path = %object_path.display(),
@@ -950,8 +987,6 @@ impl S3Storage for FileSystem {
             "PutObject: write file",
         );
 
-        trace_try!(self.save_metadata(&bucket, &key, metadata.as_ref()).await);
-
         let output = PutObjectOutput {
             e_tag: Some(format!("\"{}\"", md5_sum)),
             ..PutObjectOutput::default()
@@ -1124,20 +1159,15 @@ impl S3Storage for FileSystem {
         let file_size = trace_try!(async_fs::metadata(&temp_file.path).await).len();
 
         let (md5_sum, duration) = {
-            let (ret, duration) =
-                time::count_duration(self.get_file_md5_sum(&temp_file.path)).await;
+            let mut file = trace_try!(File::open(&temp_file.path).await);
+            let (ret, duration) = time::count_duration(self.get_md5_sum(&mut file)).await;
             let md5_sum = trace_try!(ret);
             (md5_sum, duration)
         };
 
-        self.check_bucket(&bucket)?;
-        if let Some(dir_path) = object_path.parent() {
-            trace_try!(async_fs::create_dir_all(&dir_path).await);
-        }
-        trace_try!(async_fs::rename(&temp_file.path, &object_path).await);
         let metadata = Some(metadata).filter(|m| !m.is_empty());
-        trace_try!(self.save_metadata(&bucket, &key, metadata.as_ref()).await);
-        trace_try!(self.remove_upload(&upload_id).await);
+        self.commit_object(&temp_file, &bucket, &key, metadata.as_ref())?;
+        trace_try!(self.remove_upload(&upload_id));
 
         debug!(
             sum = ?md5_sum,
-- 
2.43.0


From f2acfef6e3d94924521c072e1ac57fe81e8dd35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 32/42] fix: enforce the policy document of form uploads

---
 src/lib.rs            |   1 +
 src/ops.rs            |   3 +
 src/ops/put_object.rs |  17 +++-
 src/post_policy.rs    | 220 ++++++++++++++++++++++++++++++++++++++++++
 src/service.rs        |  22 +++--
 src/utils/crypto.rs   |   6 +-
 6 files changed, 259 insertions(+), 10 deletions(-)
 create mode 100644 src/post_policy.rs

diff --git a/src/lib.rs b/src/lib.rs
index e3ad9db..bb14fd8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -130,6 +130,7 @@ pub(crate) mod utils;
 mod data_structures;
 mod ops;
 mod output;
+mod post_policy;
 mod signature_v4;
 mod streams;
 
diff --git a/src/ops.rs b/src/ops.rs
index 02b3f54..cf2b21d 100644
--- a/src/ops.rs
+++ b/src/ops.rs
@@ -29,6 +29,7 @@ use crate::{async_trait, Body, BoxStdError, Mime, Request, Response};
 
 use std::fmt::Debug;
 use std::mem;
+use std::ops::RangeInclusive;
 
 use hyper::header::AsHeaderName;
 
@@ -90,6 +91,8 @@ pub struct ReqContext<'a> {
     pub mime: Option<Mime>,
     /// multipart/form-data
     pub multipart: Option<Multipart>,
+    /// content length allowed by the policy of a form upload
+    pub allowed_length: Option<RangeInclusive<u64>>,
     /// whether the body is decoded from the signed chunks of the request
     pub is_chunked: bool,
 }
diff --git a/src/ops/put_object.rs b/src/ops/put_object.rs
index c53913f..7845504 100644
--- a/src/ops/put_object.rs
+++ b/src/ops/put_object.rs
@@ -18,6 +18,7 @@ use crate::headers::{
 };
 use crate::output::S3Output;
 use crate::path::S3Path;
+use crate::post_policy::limit_length;
 use crate::storage::S3Storage;
 use crate::streams::multipart::Multipart;
 use crate::utils::body::{transform_body_stream, transform_file_stream};
@@ -26,6 +27,9 @@ use crate::{async_trait, Method, Response};
 
 use std::collections::HashMap;
 use std::mem;
+use std::sync::Arc;
+
+use once_cell::sync::OnceCell;
 
 /// `PutObject` handler
 pub struct Handler;
@@ -52,8 +56,19 @@ impl S3Handler for Handler {
         ctx: &mut ReqContext<'_>,
         storage: &(dyn S3Storage + Send + Sync),
     ) -> S3Result<Response> {
-        let input = extract(ctx)?;
+        let mut input = extract(ctx)?;
+
+        // the content of a form upload is limited by its policy
+        let length_error = Arc::new(OnceCell::new());
+        if let Some(range) = ctx.allowed_length.take() {
+            let body = input.body.take();
+            input.body = body.map(|b| limit_length(b, range, Arc::clone(&length_error)));
+        }
+
         let output = storage.put_object(input).await;
+        if let (&Err(_), Some(err)) = (&output, length_error.get()) {
+            return Err(S3Error::new(err.code(), err.to_string()));
+        }
         output.try_into_response()
     }
 }
diff --git a/src/post_policy.rs b/src/post_policy.rs
new file mode 100644
index 0000000..75f4e7b
--- /dev/null
+++ b/src/post_policy.rs
@@ -0,0 +1,220 @@
+//! policy document of POST Object
+//!
+//! See <https://docs.aws.amazon.com/AmazonS3/latest/API/sigv4-HTTPPOSTConstructPolicy.html>
+//!
+
+use crate::dto::ByteStream;
+use crate::errors::{S3ErrorCode, S3Result};
+use crate::streams::multipart::Multipart;
+use crate::utils::Apply;
+
+use std::future;
+use std::io;
+use std::ops::RangeInclusive;
+use std::sync::Arc;
+
+use chrono::{DateTime, Utc};
+use futures::stream::{self, StreamExt};
+use once_cell::sync::OnceCell;
+use serde::Deserialize;
+use serde_json::Value;
+
+/// policy document
+#[derive(Debug, Deserialize)]
+struct PolicyDocument {
+    /// expiration
+    expiration: String,
+    /// conditions
+    conditions: Vec<Value>,
+}
+
+/// condition
+#[derive(Debug)]
+enum Condition<'a> {
+    /// exact match
+    Eq(&'a str, &'a str),
+    /// prefix match
+    StartsWith(&'a str, &'a str),
+    /// allowed content length
+    ContentLengthRange(u64, u64),
+}
+
+impl<'a> Condition<'a> {
+    /// parse an array condition
+    fn from_array(array: &'a [Value]) -> Option<Self> {
+        let (op, lhs, rhs) = match *array {
+            [Value::String(ref op), ref lhs, ref rhs] => (op, lhs, rhs),
+            _ => return None,
+        };
+        if op.eq_ignore_ascii_case("content-length-range") {
+            return Some(Self::ContentLengthRange(lhs.as_u64()?, rhs.as_u64()?));
+        }
+        let name = lhs.as_str()?.strip_prefix('$')?;
+        let value = rhs.as_str()?;
+        if op.eq_ignore_ascii_case("eq") {
+            Some(Self::Eq(name, value))
+        } else if op.eq_ignore_ascii_case("starts-with") {
+            Some(Self::StartsWith(name, value))
+        } else {
+            None
+        }
+    }
+
+    /// parse a member of the list of conditions
+    fn parse(value: &'a Value) -> Option<Vec<Self>> {
+        match *value {
+            Value::Array(ref array) => Some(vec![Self::from_array(array)?]),
+            Value::Object(ref object) => object
+                .iter()
+                .map(|(name, v)| Some(Self::Eq(name, v.as_str()?)))
+                .collect(),
+            Value::Null | Value::Bool(_) | Value::Number(_) | Value::String(_) => None,
+        }
+    }
+
+    /// is the condition about this field
+    fn is_about(&self, field: &str) -> bool {
+        match *self {
+            Condition::Eq(name, _) | Condition::StartsWith(name, _) => {
+                name.eq_ignore_ascii_case(field)
+            }
+            Condition::ContentLengthRange(..) => false,
+        }
+    }
+}
+
+/// fields that need no condition
+fn is_exempt(field: &str) -> bool {
+    let field = field.to_ascii_lowercase();
+    matches!(field.as_str(), "policy" | "x-amz-signature" | "file")
+        || field.starts_with("x-ignore-")
+}
+
+/// Checks the form against its policy document, returns the range of allowed content length
+pub fn check_policy(
+    policy: &[u8],
+    bucket: Option<&str>,
+    form: &Multipart,
+    now: DateTime<Utc>,
+) -> S3Result<RangeInclusive<u64>> {
+    /// invalid document
+    macro_rules! invalid_document {
+        ($($source:expr)?) => {
+            code_error!(
+                InvalidPolicyDocument,
+                "The policy document is invalid."
+                $(, $source)?
+            )
+        };
+    }
+
+    let document: PolicyDocument =
+        serde_json::from_slice(policy).map_err(|err| invalid_document!(err))?;
+
+    let expiration =
+        DateTime::parse_from_rfc3339(&document.expiration).map_err(|err| invalid_document!(err))?;
+    if expiration < now {
+        return Err(code_error!(
+            AccessDenied,
+            "Invalid according to Policy: Policy expired."
+        ));
+    }
+
+    let conditions: Vec<Condition<'_>> = document
+        .conditions
+        .iter()
+        .map(Condition::parse)
+        .collect::<Option<Vec<_>>>()
+        .ok_or_else(|| invalid_document!())?
+        .into_iter()
+        .flatten()
+        .collect();
+
+    let find_value = |name: &str| {
+        if name.eq_ignore_ascii_case("bucket") {
+            bucket
+        } else {
+            form.find_field_value(name)
+        }
+    };
+
+    let (mut min, mut max) = (0, u64::MAX);
+    for condition in &conditions {
+        let is_satisfied = match *condition {
+            Condition::Eq(name, expected) => find_value(name) == Some(expected),
+            Condition::StartsWith(name, prefix) => {
+                find_value(name).map_or(false, |value| value.starts_with(prefix))
+            }
+            Condition::ContentLengthRange(lo, hi) => {
+                min = min.max(lo);
+                max = max.min(hi);
+                true
+            }
+        };
+        if !is_satisfied {
+            return Err(code_error!(
+                AccessDenied,
+                "Invalid according to Policy: Policy Condition failed."
+            ));
+        }
+    }
+
+    for &(ref name, _) in &form.fields {
+        if !is_exempt(name) && !conditions.iter().any(|c| c.is_about(name)) {
+            return Err(code_error!(
+                AccessDenied,
+                "Invalid according to Policy: Extra input fields."
+            ));
+        }
+    }
+
+    Ok(min..=max)
+}
+
+/// The content length is out of the range allowed by the policy
+#[derive(Debug, Clone, Copy, thiserror::Error)]
+pub enum ContentLengthError {
+    /// too small
+    #[error("Your proposed upload is smaller than the minimum allowed size")]
+    TooSmall,
+    /// too large
+    #[error("Your proposed upload exceeds the maximum allowed size")]
+    TooLarge,
+}
+
+impl ContentLengthError {
+    /// error code of the response
+    pub fn code(self) -> S3ErrorCode {
+        match self {
+            Self::TooSmall => S3ErrorCode::EntityTooSmall,
+            Self::TooLarge => S3ErrorCode::EntityTooLarge,
+        }
+    }
+}
+
+/// Makes the stream fail if its length is out of range
+pub fn limit_length(
+    body: ByteStream,
+    range: RangeInclusive<u64>,
+    error: Arc<OnceCell<ContentLengthError>>,
+) -> ByteStream {
+    body.map(Some)
+        .chain(stream::iter([None]))
+        .scan(0_u64, move |total, item| {
+            let err = match item {
+                Some(Ok(bytes)) => {
+                    *total = total.saturating_add(bytes.len() as u64);
+                    if *total <= *range.end() {
+                        return future::ready(Some(Ok(bytes)));
+                    }
+                    ContentLengthError::TooLarge
+                }
+                Some(Err(err)) => return future::ready(Some(Err(err))),
+                None if *total < *range.start() => ContentLengthError::TooSmall,
+                None => return future::ready(None),
+            };
+            let _ = error.set(err);
+            future::ready(Some(Err(io::Error::new(io::ErrorKind::Other, err))))
+        })
+        .apply(ByteStream::new)
+}
diff --git a/src/service.rs b/src/service.rs
index 50b1f3b..4922659 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -10,6 +10,7 @@ use crate::headers::{
 use crate::ops::{ReqContext, S3Handler};
 use crate::output::S3Output;
 use crate::path::{S3Path, S3PathErrorKind};
+use crate::post_policy;
 use crate::signature_v4;
 use crate::storage::S3Storage;
 use crate::streams::aws_chunked_stream::AwsChunkedStream;
@@ -25,6 +26,7 @@ use std::ops::Deref;
 use std::sync::Arc;
 use std::task::{Context, Poll};
 
+use chrono::Utc;
 use futures::future::BoxFuture;
 use futures::stream::{Stream, StreamExt};
 use hyper::body::Bytes;
@@ -160,6 +162,7 @@ impl S3Service {
             body,
             mime,
             multipart: None,
+            allowed_length: None,
             is_chunked: false,
         };
 
@@ -411,7 +414,7 @@ async fn check_post_signature(
     let multipart = multipart::transform_multipart(body, boundary.as_str().as_bytes())
         .await
         .map_err(|err| invalid_request!("Invalid multipart/form-data body", err))?;
-    {
+    let allowed_length = {
         let (policy, x_amz_algorithm, x_amz_credential, x_amz_date, x_amz_signature) = {
             match find_info(&multipart) {
                 None => return Err(invalid_request!("Missing required fields")),
@@ -420,9 +423,8 @@ async fn check_post_signature(
         };
 
         // check policy
-        if !crypto::is_base64_encoded(policy.as_bytes()) {
-            return Err(invalid_request!("Invalid field: policy"));
-        }
+        let policy_document = crypto::decode_base64(policy.as_bytes())
+            .ok_or_else(|| invalid_request!("Invalid field: policy"))?;
 
         // check x_amz_algorithm
         if x_amz_algorithm != "AWS4-HMAC-SHA256" {
@@ -455,10 +457,18 @@ async fn check_post_signature(
         if signature != x_amz_signature {
             return Err(signature_mismatch!());
         }
-    }
+
+        // check the form against its policy
+        let bucket = match ctx.path {
+            S3Path::Root => None,
+            S3Path::Bucket { bucket } | S3Path::Object { bucket, .. } => Some(bucket),
+        };
+        post_policy::check_policy(&policy_document, bucket, &multipart, Utc::now())?
+    };
 
     // store ctx value
     ctx.multipart = Some(multipart);
+    ctx.allowed_length = Some(allowed_length);
 
     Ok(())
 }
@@ -521,7 +531,7 @@ async fn check_presigned_url(
         .to_datetime()
         .ok_or_else(|| invalid_request!("Invalid field: X-Amz-Date"))?;
     let lifetime = chrono::Duration::seconds(i64::from(presigned_url.expires));
-    if chrono::Utc::now().signed_duration_since(issued_at) > lifetime {
+    if Utc::now().signed_duration_since(issued_at) > lifetime {
         return Err(code_error!(AccessDenied, "Request has expired"));
     }
 
diff --git a/src/utils/crypto.rs b/src/utils/crypto.rs
index c209244..8c78139 100644
--- a/src/utils/crypto.rs
+++ b/src/utils/crypto.rs
@@ -57,7 +57,7 @@ pub fn hex_hmac_sha256(key: &[u8], data: &[u8]) -> String {
     to_hex_string(src)
 }
 
-/// is base64 encoded
-pub fn is_base64_encoded(bytes: &[u8]) -> bool {
-    base64_simd::STANDARD.check(bytes).is_ok()
+/// decode base64
+pub fn decode_base64(bytes: &[u8]) -> Option<Vec<u8>> {
+    base64_simd::STANDARD.decode_to_vec(bytes).ok()
 }
-- 
2.43.0


From ff289cb63feeb546aead8b07b97900776991c2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 33/42] fix: clean up the directories of a failed write

---
 src/storages/fs.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index b4134fa..9ecec9f 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -197,10 +197,13 @@ impl FileSystem {
         self.check_bucket(bucket)?;
         let object_path = trace_try!(self.get_object_path(bucket, key));
         let save_metadata = trace_try!(self.prepare_metadata(bucket, key, metadata));
-        if let Some(dir_path) = object_path.parent() {
-            trace_try!(fs::create_dir_all(&dir_path));
+        let dir_path = object_path.parent().unwrap_or(&object_path);
+        let renamed =
+            fs::create_dir_all(dir_path).and_then(|()| fs::rename(&temp_file.path, &object_path));
+        if renamed.is_err() {
+            let _ = self.remove_empty_dirs(bucket, dir_path.to_path_buf());
         }
-        trace_try!(fs::rename(&temp_file.path, &object_path));
+        trace_try!(renamed);
         trace_try!(save_metadata());
         Ok(())
     }
@@ -216,7 +219,11 @@ impl FileSystem {
 
         self.check_bucket(bucket)?;
         let object_path = trace_try!(self.get_object_path(bucket, key));
-        trace_try!(fs::create_dir_all(&object_path));
+        let created = fs::create_dir_all(&object_path);
+        if created.is_err() {
+            let _ = self.remove_empty_dirs(bucket, object_path.to_path_buf());
+        }
+        trace_try!(created);
         trace_try!(self.save_metadata(bucket, key, Some(metadata)));
         Ok(())
     }
@@ -324,7 +331,6 @@ impl FileSystem {
 
         let _guard = self.lock();
 
-        let bucket_path = self.get_bucket_path(bucket)?;
         let mut path = self.get_object_path(bucket, key)?;
         if !key.ends_with('/') {
             let is_file = fs::symlink_metadata(&path).map_or(false, |m| !m.is_dir());
@@ -336,11 +342,18 @@ impl FileSystem {
         }
         self.save_metadata(bucket, key, None)?;
 
+        self.remove_empty_dirs(bucket, path)
+    }
+
+    /// remove a directory of a bucket and its parents as far as they are empty and no objects
+    fn remove_empty_dirs(&self, bucket: &str, mut path: PathBuf) -> io::Result<()> {
+        let bucket_path = self.get_bucket_path(bucket)?;
+
         while let Ok(dir) = path.strip_prefix(&bucket_path) {
             let dir_key = format!("{}/", dir.display());
             if path == bucket_path
                 || self.is_directory_object(bucket, &dir_key)?
-                || fs::remove_dir(&path).is_err()
+                || (path.exists() && fs::remove_dir(&path).is_err())
             {
                 break;
             }
-- 
2.43.0


From ea1e521ece9674d019280e42588ed1aae5b34d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:03 +0000
Subject: [PATCH 34/42] fix: accept copy sources whose key contains a line
 break

---
 src/headers/amz_copy_source.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/headers/amz_copy_source.rs b/src/headers/amz_copy_source.rs
index 185394b..1a07ede 100644
--- a/src/headers/amz_copy_source.rs
+++ b/src/headers/amz_copy_source.rs
@@ -69,7 +69,7 @@ impl<'a> AmzCopySource<'a> {
         // TODO: use nom parser
 
         // bucket pattern
-        let pattern: &Regex = static_regex!("^(.+?)/(.+)$");
+        let pattern: &Regex = static_regex!("(?s)^(.+?)/(.+)$");
 
         match pattern.captures(header) {
             None => Err(ParseAmzCopySourceError::PatternMismatch),
-- 
2.43.0


From 4036fe1f6f212ec1bcc7b8e6463ac6cbec2cbc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:59 +0000
Subject: [PATCH 35/42] fix: accept form parts with more than two headers

---
 src/streams/multipart.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streams/multipart.rs b/src/streams/multipart.rs
index 8cc1f64..c3c4477 100644
--- a/src/streams/multipart.rs
+++ b/src/streams/multipart.rs
@@ -152,7 +152,7 @@ where
         }
     };
 
-    let mut headers = [httparse::EMPTY_HEADER; 2];
+    let mut headers = [httparse::EMPTY_HEADER; 16];
     loop {
         let (idx, parsed_headers) = match httparse::parse_headers(lines.slice, &mut headers) {
             Ok(httparse::Status::Complete(ans)) => ans,
-- 
2.43.0


From 9e6e2b63d69982a12471f9ca8fa11485402cf1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:04 +0000
Subject: [PATCH 36/42] fix: pass on bodies with unsigned payload as they
 arrive

---
 src/service.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 4922659..1bc1e67 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -589,15 +589,22 @@ async fn check_header_auth(
                 &headers,
                 signature_v4::Payload::MultipleChunks,
             )
+        } else if matches!(amz_content_sha256, AmzContentSha256::UnsignedPayload) {
+            // the signature does not depend on the body, which is passed on as it arrives
+            signature_v4::create_canonical_request(
+                method,
+                uri_path,
+                query_strings,
+                &headers,
+                signature_v4::Payload::Unsigned,
+            )
         } else {
             let bytes = std::mem::take(&mut ctx.body)
                 .apply(hyper::body::to_bytes)
                 .await
                 .map_err(|err| invalid_request!("Can not obtain the whole request body.", err))?;
 
-            let payload = if matches!(amz_content_sha256, AmzContentSha256::UnsignedPayload) {
-                signature_v4::Payload::Unsigned
-            } else if bytes.is_empty() {
+            let payload = if bytes.is_empty() {
                 signature_v4::Payload::Empty
             } else {
                 signature_v4::Payload::SingleChunk(&bytes)
-- 
2.43.0


From 8a34384fc64b71c974036fb8dd4117c04db49d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 37/42] fix: refuse signed requests with unsigned x-amz headers

---
 src/service.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/service.rs b/src/service.rs
index 1bc1e67..a3bd96c 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -365,6 +365,23 @@ async fn check_signature(
     check_header_auth(ctx, auth).await
 }
 
+/// check that no header which takes part in the operation was added to a signed request
+fn check_unsigned_headers(
+    headers: &OrderedHeaders<'_>,
+    signed_headers: &[impl AsRef<str>],
+) -> S3Result<()> {
+    let has_unsigned = headers.as_ref().iter().any(|&(name, _)| {
+        name.starts_with("x-amz-") && signed_headers.iter().all(|s| s.as_ref() != name)
+    });
+    if has_unsigned {
+        return Err(code_error!(
+            AccessDenied,
+            "There were headers present in the request which were not signed"
+        ));
+    }
+    Ok(())
+}
+
 /// fetch secret key from auth
 async fn fetch_secret_key(auth: &(dyn S3Auth + Send + Sync), access_key: &str) -> S3Result<String> {
     match try_err!(auth.get_secret_access_key(access_key).await) {
@@ -525,6 +542,8 @@ async fn check_presigned_url(
         return Err(signature_mismatch!());
     }
 
+    check_unsigned_headers(&ctx.headers, &presigned_url.signed_headers)?;
+
     // check x_amz_expires
     let issued_at = presigned_url
         .amz_date
@@ -634,6 +653,8 @@ async fn check_header_auth(
         return Err(signature_mismatch!());
     }
 
+    check_unsigned_headers(&ctx.headers, &authorization.signed_headers)?;
+
     if is_stream {
         let body = take_io_body(&mut ctx.body);
 
-- 
2.43.0


From 3c9a6b615604a7ece92f5ac7f5ee04f4edb84f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:52 +0000
Subject: [PATCH 38/42] fix: do not show secret keys in debug output

---
 src/auth.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/auth.rs b/src/auth.rs
index a762fe0..81ab25a 100644
--- a/src/auth.rs
+++ b/src/auth.rs
@@ -3,6 +3,7 @@
 use crate::errors::S3AuthError;
 
 use std::collections::HashMap;
+use std::fmt::{self, Debug};
 
 use async_trait::async_trait;
 
@@ -14,12 +15,21 @@ pub trait S3Auth {
 }
 
 /// A simple authentication provider
-#[derive(Debug, Default)]
+#[derive(Default)]
 pub struct SimpleAuth {
     /// key map
     map: HashMap<String, String>,
 }
 
+impl Debug for SimpleAuth {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        // the secret keys must not be shown
+        f.debug_struct("SimpleAuth")
+            .field("access_keys", &self.map.keys())
+            .finish()
+    }
+}
+
 impl SimpleAuth {
     /// Constructs a new `SimpleAuth`
     #[must_use]
-- 
2.43.0


From e715522f4e5b081ee6e7f8f1c889d5e9aa3c2cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:43 +0000
Subject: [PATCH 39/42] fix: leave no temporary file behind when a request is
 dropped

---
 src/storages/fs.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 9ecec9f..46ae612 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -127,10 +127,11 @@ impl FileSystem {
     }
 
     /// create a file under the virtual root which no request can name
-    async fn create_temp_file(&self) -> io::Result<(TempFile, File)> {
+    fn create_temp_file(&self) -> io::Result<(TempFile, File)> {
         let temp_file = self.get_temp_file();
-        let file = File::create(&temp_file.path).await?;
-        Ok((temp_file, file))
+        // not asynchronous: the file must not appear after the request was dropped
+        let file = fs::File::create(&temp_file.path)?;
+        Ok((temp_file, file.into()))
     }
 
     /// load metadata from fs
@@ -523,7 +524,7 @@ impl S3Storage for FileSystem {
         let md5_sum = trace_try!(self.get_md5_sum(&mut src_file).await);
         let _ = trace_try!(src_file.seek(SeekFrom::Start(0)).await);
 
-        let (temp_file, mut file) = trace_try!(self.create_temp_file().await);
+        let (temp_file, mut file) = trace_try!(self.create_temp_file());
         let _ = trace_try!(futures::io::copy(&mut src_file, &mut file).await);
         self.commit_object(&temp_file, &input.bucket, &input.key, metadata.as_ref())?;
 
@@ -983,7 +984,7 @@ impl S3Storage for FileSystem {
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
 
-        let (temp_file, file) = trace_try!(self.create_temp_file().await);
+        let (temp_file, file) = trace_try!(self.create_temp_file());
         let mut writer = BufWriter::new(file);
 
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
@@ -1070,7 +1071,7 @@ impl S3Storage for FileSystem {
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
 
-        let (temp_file, file) = trace_try!(self.create_temp_file().await);
+        let (temp_file, file) = trace_try!(self.create_temp_file());
         let mut writer = BufWriter::new(file);
 
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
@@ -1122,7 +1123,7 @@ impl S3Storage for FileSystem {
         let metadata = self.load_upload(&upload_id, &bucket, &key).await?;
 
         let object_path = trace_try!(self.get_object_path(&bucket, &key));
-        let (temp_file, file) = trace_try!(self.create_temp_file().await);
+        let (temp_file, file) = trace_try!(self.create_temp_file());
         let mut writer = BufWriter::new(file);
 
         let mut last_part_number: i64 = 0;
-- 
2.43.0


From 3c3eec9eb4bd95a097567f9dc7f4e46023b2f673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:19 +0000
Subject: [PATCH 40/42] fix: report the time of the copy, not of its source

---
 src/storages/fs.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 46ae612..8e18beb 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -518,14 +518,13 @@ impl S3Storage for FileSystem {
         let src_path = trace_try!(self.get_object_path(bucket, key));
         let dst_path = trace_try!(self.get_object_path(&input.bucket, &input.key));
 
-        let file_metadata = trace_try!(src_file.metadata().await);
-        let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
-
         let md5_sum = trace_try!(self.get_md5_sum(&mut src_file).await);
         let _ = trace_try!(src_file.seek(SeekFrom::Start(0)).await);
 
         let (temp_file, mut file) = trace_try!(self.create_temp_file());
         let _ = trace_try!(futures::io::copy(&mut src_file, &mut file).await);
+        let file_metadata = trace_try!(file.metadata().await);
+        let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
         self.commit_object(&temp_file, &input.bucket, &input.key, metadata.as_ref())?;
 
         debug!(
-- 
2.43.0


From 32c6ac5a97ffdff386f88de0f828503a5d6c6448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:29 +0000
Subject: [PATCH 41/42] fix: creating a bucket twice at the same time is no
 internal error

---
 src/storages/fs.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 8e18beb..a49debd 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -474,7 +474,10 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<CreateBucketOutput, CreateBucketError> {
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
-        if path.exists() {
+        let created = async_fs::create_dir(&path).await;
+
+        // tells whether it exists at the same time as creating it
+        if matches!(created, Err(ref e) if e.kind() == io::ErrorKind::AlreadyExists) {
             let err = CreateBucketError::BucketAlreadyExists(String::from(
                 "The requested bucket name is not available. \
                     The bucket namespace is shared by all users of the system. \
@@ -483,7 +486,7 @@ impl S3Storage for FileSystem {
             return Err(operation_error(err));
         }
 
-        trace_try!(async_fs::create_dir(&path).await);
+        trace_try!(created);
 
         let output = CreateBucketOutput::default(); // TODO: handle other fields
         Ok(output)
-- 
2.43.0


From e438b2d9c06369ae789e13ae21f8fb11898bb7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:35 +0000
Subject: [PATCH 42/42] fix: listings do not fail when objects are deleted
 meanwhile

---
 src/storages/fs.rs | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index a49debd..0cfaea8 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -405,6 +405,14 @@ fn remove_file_if_exists(path: &Path) -> io::Result<()> {
     }
 }
 
+/// Returns `None` if a file was removed by another request after it was found
+fn if_exists<T>(ret: io::Result<T>) -> io::Result<Option<T>> {
+    match ret {
+        Err(e) if e.kind() == io::ErrorKind::NotFound => Ok(None),
+        ret => ret.map(Some),
+    }
+}
+
 /// Returns true if the key has a path of its own below the directory of its bucket
 fn is_valid_key(key: &str) -> bool {
     let is_valid_segment = |s: &str| !matches!(s, "" | "." | "..") && !s.contains('\0');
@@ -773,7 +781,10 @@ impl S3Storage for FileSystem {
                 let file_name = entry.file_name();
                 let name = file_name.to_string_lossy();
                 if S3Path::check_bucket_name(&*name) {
-                    let file_meta = trace_try!(entry.metadata().await);
+                    let file_meta = match trace_try!(if_exists(entry.metadata().await)) {
+                        Some(file_meta) => file_meta,
+                        None => continue,
+                    };
                     let creation_date = trace_try!(file_meta.created());
                     buckets.push(Bucket {
                         creation_date: Some(time::to_rfc3339(creation_date)),
@@ -804,7 +815,13 @@ impl S3Storage for FileSystem {
         dir_queue.push_back(path.clone());
 
         while let Some(dir) = dir_queue.pop_front() {
-            let mut entries = trace_try!(async_fs::read_dir(dir).await);
+            let entries = trace_try!(if_exists(async_fs::read_dir(dir).await));
+            let mut entries = if let Some(entries) = entries {
+                entries
+            } else {
+                self.check_bucket(&input.bucket)?;
+                continue;
+            };
             while let Some(entry) = entries.next().await {
                 let entry = trace_try!(entry);
                 let file_type = trace_try!(entry.file_type().await);
@@ -823,7 +840,10 @@ impl S3Storage for FileSystem {
                         }
                     }
 
-                    let metadata = trace_try!(entry.metadata().await);
+                    let metadata = match trace_try!(if_exists(entry.metadata().await)) {
+                        Some(metadata) => metadata,
+                        None => continue,
+                    };
                     let last_modified = time::to_rfc3339(trace_try!(metadata.modified()));
                     let size = if is_dir { 0 } else { metadata.len() };
 
@@ -876,7 +896,13 @@ impl S3Storage for FileSystem {
         dir_queue.push_back(path.clone());
 
         while let Some(dir) = dir_queue.pop_front() {
-            let mut entries = trace_try!(async_fs::read_dir(dir).await);
+            let entries = trace_try!(if_exists(async_fs::read_dir(dir).await));
+            let mut entries = if let Some(entries) = entries {
+                entries
+            } else {
+                self.check_bucket(&input.bucket)?;
+                continue;
+            };
             while let Some(entry) = entries.next().await {
                 let entry = trace_try!(entry);
                 let file_type = trace_try!(entry.file_type().await);
@@ -895,7 +921,10 @@ impl S3Storage for FileSystem {
                         }
                     }
 
-                    let metadata = trace_try!(entry.metadata().await);
+                    let metadata = match trace_try!(if_exists(entry.metadata().await)) {
+                        Some(metadata) => metadata,
+                        None => continue,
+                    };
                     let last_modified = time::to_rfc3339(trace_try!(metadata.modified()));
                     let size = if is_dir { 0 } else { metadata.len() };
 
-- 
2.43.0

