From 5d23303b5dd2783db146c3d38281792709568dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 01/26] fix: reject malformed timeline timestamps instead of
 panicking

Timestamps that are not 14 or 17 ASCII digits (a stray file such as
.hoodie/foo.commit, or a truncated as-of timestamp) made parse_datetime slice
out of bounds or across a character boundary and panic; lenient number parsing
also accepted signs and blanks.
---
 crates/core/src/timeline/instant.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index e3e191e..7d54eca 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -148,7 +148,7 @@ impl Instant {
     }
 
     fn validate_timestamp(timestamp: &str) -> Result<()> {
-        if !matches!(timestamp.len(), 14 | 17) {
+        if !matches!(timestamp.len(), 14 | 17) || !timestamp.chars().all(|c| c.is_ascii_digit()) {
             return Err(CoreError::Timeline(format!(
                 "Timestamp must be in format yyyyMMddHHmmss or yyyyMMddHHmmssSSS, but got: {}",
                 timestamp
@@ -163,6 +163,7 @@ impl Instant {
     }
 
     fn parse_naive_datetime(timestamp: &str) -> Result<NaiveDateTime> {
+        Self::validate_timestamp(timestamp)?;
         let naive_dt = NaiveDateTime::parse_from_str(&timestamp[..14], "%Y%m%d%H%M%S")
             .map_err(|e| CoreError::Timeline(format!("Failed to parse timestamp: {}", e)))?;
 
-- 
2.43.0


From 4271c9e59ca9bb5684e1e6ce771496466e88546a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 02/26] fix: do not take a timeline file name with a trailing
 dot for a completed instant

`<timestamp>.commit.` parsed as a completed commit whose regenerated file name,
`<timestamp>.commit`, does not exist, so reading the table failed.
---
 crates/core/src/timeline/instant.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index 7d54eca..ffb0502 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -192,6 +192,10 @@ impl Instant {
 
     pub fn parse_action_and_state(action_suffix: &str) -> Result<(Action, State)> {
         match action_suffix.split_once('.') {
+            Some((_, "")) => Err(CoreError::Timeline(format!(
+                "Invalid action and state: {}",
+                action_suffix
+            ))),
             Some((action_str, state_str)) => {
                 Ok((Action::from_str(action_str)?, State::from_str(state_str)?))
             }
-- 
2.43.0


From d8c5bc7066d3aa3024868ab4f5fe6b3980255b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:58 +0000
Subject: [PATCH 03/26] Verification hooks behind --cfg hudi_verif

---
 crates/core/src/file_group/log_file/mod.rs | 10 ++++++++++
 crates/core/src/lib.rs                     | 10 ++++++++++
 crates/core/src/table/mod.rs               |  8 ++++++++
 3 files changed, 28 insertions(+)

diff --git a/crates/core/src/file_group/log_file/mod.rs b/crates/core/src/file_group/log_file/mod.rs
index 30868c1..ec785a1 100644
--- a/crates/core/src/file_group/log_file/mod.rs
+++ b/crates/core/src/file_group/log_file/mod.rs
@@ -30,6 +30,16 @@ mod log_format;
 pub mod reader;
 pub mod scanner;
 
+/// Verification hook: opens private modules to an external harness (`--cfg hudi_verif`).
+#[cfg(hudi_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use super::avro::*;
+    pub use super::content::*;
+    pub use super::log_block::*;
+    pub use super::log_format::*;
+}
+
 #[derive(Clone, Debug)]
 pub struct LogFile {
     pub file_id: String,
diff --git a/crates/core/src/lib.rs b/crates/core/src/lib.rs
index 0c34893..602b4e7 100644
--- a/crates/core/src/lib.rs
+++ b/crates/core/src/lib.rs
@@ -43,6 +43,8 @@
 //! }
 //! ```
 
+#![allow(unexpected_cfgs)]
+
 mod avro_to_arrow;
 pub mod config;
 pub mod error;
@@ -55,4 +57,12 @@ pub mod table;
 pub mod timeline;
 pub mod util;
 
+/// Verification hook: opens private modules to an external harness (`--cfg hudi_verif`).
+#[cfg(hudi_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::avro_to_arrow::*;
+    pub use crate::timeline::selector::*;
+}
+
 use error::Result;
diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index e47ff9b..9f9cdd4 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -90,6 +90,14 @@ mod fs_view;
 mod listing;
 pub mod partition;
 
+/// Verification hook: opens private modules to an external harness (`--cfg hudi_verif`).
+#[cfg(hudi_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use super::fs_view::*;
+    pub use super::listing::*;
+}
+
 use crate::config::table::HudiTableConfig::PartitionFields;
 use crate::config::table::{HudiTableConfig, TableTypeValue};
 use crate::config::HudiConfigs;
-- 
2.43.0


From af844ed6e3e570b3d3c8164c1aeb8757ddee5f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:08 +0000
Subject: [PATCH 04/26] fix: order log files by numeric version and
 consistently with equality

---
 crates/core/src/file_group/log_file/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/file_group/log_file/mod.rs b/crates/core/src/file_group/log_file/mod.rs
index ec785a1..7e1b826 100644
--- a/crates/core/src/file_group/log_file/mod.rs
+++ b/crates/core/src/file_group/log_file/mod.rs
@@ -117,6 +117,11 @@ impl LogFile {
             write_token = self.write_token
         )
     }
+
+    /// The version as a number, so that version 10 comes after version 9.
+    fn version_number(&self) -> Option<u64> {
+        self.version.parse().ok()
+    }
 }
 
 impl FromStr for LogFile {
@@ -177,12 +182,16 @@ impl PartialOrd for LogFile {
 
 impl Ord for LogFile {
     fn cmp(&self, other: &Self) -> Ordering {
-        // Compare fields in order: base_commit_timestamp, version, write_token
+        // Compare fields in order: base_commit_timestamp, version (as a number), write_token.
+        // The rest only breaks ties, so that the order agrees with equality.
         // TODO support `.cdc` suffix
         self.base_commit_timestamp
             .cmp(&other.base_commit_timestamp)
-            .then(self.version.cmp(&other.version))
-            .then(self.write_token.cmp(&other.write_token))
+            .then_with(|| self.version_number().cmp(&other.version_number()))
+            .then_with(|| self.version.cmp(&other.version))
+            .then_with(|| self.write_token.cmp(&other.write_token))
+            .then_with(|| self.file_id.cmp(&other.file_id))
+            .then_with(|| self.extension.cmp(&other.extension))
     }
 }
 
-- 
2.43.0


From d78c464aecaefe3b86f8ebde0fab99392acce3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:08 +0000
Subject: [PATCH 05/26] fix: reject base file names with surplus components

---
 crates/core/src/file_group/base_file.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/core/src/file_group/base_file.rs b/crates/core/src/file_group/base_file.rs
index 4f35b87..a923848 100644
--- a/crates/core/src/file_group/base_file.rs
+++ b/crates/core/src/file_group/base_file.rs
@@ -57,6 +57,9 @@ impl BaseFile {
             .rsplit_once('.')
             .ok_or_else(|| CoreError::FileGroup(err_msg.clone()))?;
         let parts: Vec<&str> = stem.split('_').collect();
+        if parts.len() > 3 {
+            return Err(CoreError::FileGroup(err_msg));
+        }
         let file_id = parts
             .first()
             .ok_or_else(|| CoreError::FileGroup(err_msg.clone()))?
-- 
2.43.0


From cfb71e89881a0e2df852b964e476c53ce6f65a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:32 +0000
Subject: [PATCH 06/26] fix: keep every write stat of a file group within one
 commit

---
 crates/core/src/file_group/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/file_group/builder.rs b/crates/core/src/file_group/builder.rs
index 9f2d0c3..8362a44 100644
--- a/crates/core/src/file_group/builder.rs
+++ b/crates/core/src/file_group/builder.rs
@@ -103,7 +103,8 @@ pub fn build_file_groups(commit_metadata: &Map<String, Value>) -> Result<HashSet
                 file_group.add_base_file_from_name(file_name)?;
             }
 
-            file_groups.insert(file_group);
+            // A commit may carry several write stats for the same file group, e.g. one per log file.
+            file_groups.merge([file_group])?;
         }
     }
 
-- 
2.43.0


From d34d4780729f708bff0efbc5631dede85dfecf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:38 +0000
Subject: [PATCH 07/26] fix: resolve the schema from the latest commit that
 wrote files

A commit without write stats, e.g. an empty commit or a partition deletion, made
every snapshot and time-travel read of the table fail.
---
 crates/core/src/timeline/mod.rs | 36 ++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/crates/core/src/timeline/mod.rs b/crates/core/src/timeline/mod.rs
index ac78903..913e38b 100644
--- a/crates/core/src/timeline/mod.rs
+++ b/crates/core/src/timeline/mod.rs
@@ -218,6 +218,27 @@ impl Timeline {
         }
     }
 
+    /// Get the metadata of the latest commit that wrote any file.
+    ///
+    /// Some commits write none, e.g. an empty commit or the deletion of partitions.
+    async fn get_latest_commit_metadata_with_writes(&self) -> Result<Map<String, Value>> {
+        for instant in self.completed_commits.iter().rev() {
+            let commit_metadata = self.get_instant_metadata(instant).await?;
+            let has_writes = commit_metadata
+                .get("partitionToWriteStats")
+                .and_then(|v| v.as_object())
+                .is_some_and(|obj| obj.values().any(Self::has_write_stats));
+            if has_writes {
+                return Ok(commit_metadata);
+            }
+        }
+        Ok(Map::new())
+    }
+
+    fn has_write_stats(write_stats: &Value) -> bool {
+        write_stats.as_array().is_some_and(|arr| !arr.is_empty())
+    }
+
     pub(crate) fn get_latest_commit_timestamp_as_option(&self) -> Option<&str> {
         self.completed_commits
             .iter()
@@ -255,24 +276,19 @@ impl Timeline {
 
     /// Get the latest [arrow_schema::Schema] from the [Timeline].
     pub async fn get_latest_schema(&self) -> Result<Schema> {
-        let commit_metadata = self.get_latest_commit_metadata().await?;
+        let commit_metadata = self.get_latest_commit_metadata_with_writes().await?;
 
-        let first_partition = commit_metadata
+        let (partition_path, write_stats) = commit_metadata
             .get("partitionToWriteStats")
-            .and_then(|v| v.as_object());
-
-        let partition_path = first_partition
-            .and_then(|obj| obj.keys().next())
+            .and_then(|v| v.as_object())
+            .and_then(|obj| obj.iter().find(|(_, v)| Self::has_write_stats(v)))
             .ok_or_else(|| {
                 CoreError::CommitMetadata(
                     "Failed to resolve the latest schema: no partition path found".to_string(),
                 )
             })?;
 
-        let first_value = first_partition
-            .and_then(|obj| obj.values().next())
-            .and_then(|value| value.as_array())
-            .and_then(|arr| arr.first());
+        let first_value = write_stats.as_array().and_then(|arr| arr.first());
 
         let parquet_path = first_value.and_then(|v| v["path"].as_str());
         match parquet_path {
-- 
2.43.0


From 698f0ed2460e20b910ee08c45a0bf82cf5f4d27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:54 +0000
Subject: [PATCH 08/26] fix: leave CDC log files out of the log files of a file
 slice

---
 crates/core/src/table/listing.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/table/listing.rs b/crates/core/src/table/listing.rs
index 08bcac5..a3ed5bc 100644
--- a/crates/core/src/table/listing.rs
+++ b/crates/core/src/table/listing.rs
@@ -57,7 +57,10 @@ impl FileLister {
     }
 
     fn should_exclude_for_listing(file_name: &str) -> bool {
-        file_name.starts_with(PARTITION_METAFIELD_PREFIX) || file_name.ends_with(".crc")
+        // CDC log files sit beside the log files but hold no records of the file slice.
+        file_name.starts_with(PARTITION_METAFIELD_PREFIX)
+            || file_name.ends_with(".crc")
+            || file_name.ends_with(".cdc")
     }
 
     async fn list_file_groups_for_partition(&self, partition_path: &str) -> Result<Vec<FileGroup>> {
@@ -96,10 +99,10 @@ impl FileLister {
                             .push(log_file);
                     }
                     Err(e) => {
-                        // We don't support cdc log files yet, hence skipping error when parsing
-                        // fails. However, once we support all data files, we should return error
-                        // here because we expect all files to be either base files or log files,
-                        // after excluding the unintended files.
+                        // We skip files that are neither base files nor log files. Once we support
+                        // all data files, we should return error here because we expect all files
+                        // to be either base files or log files, after excluding the unintended
+                        // files.
                         log::warn!("Failed to create a log file: {}", e);
                         continue;
                     }
-- 
2.43.0


From 15f8805709e7ca817602a2015306914eb98ab632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:20 +0000
Subject: [PATCH 09/26] fix: order the partition schema by the partition fields
 of the table

A partition path has its levels in the order the table's partition fields
are configured in, not in the order the columns have in the schema.
---
 crates/core/src/table/mod.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index 9f9cdd4..dcf87b5 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -113,7 +113,7 @@ use crate::Result;
 use crate::config::read::HudiReadConfig;
 use arrow::record_batch::RecordBatch;
 use arrow_schema::{Field, Schema};
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 use std::sync::Arc;
 use url::Url;
 
@@ -213,19 +213,17 @@ impl Table {
 
     /// Get the latest partition [arrow_schema::Schema] of the table.
     pub async fn get_partition_schema(&self) -> Result<Schema> {
-        let partition_fields: HashSet<String> = self
+        let partition_fields: Vec<String> = self
             .hudi_configs
             .get_or_default(PartitionFields)
-            .to::<Vec<String>>()
-            .into_iter()
-            .collect();
+            .to::<Vec<String>>();
 
         let schema = self.get_schema().await?;
-        let partition_fields: Vec<Arc<Field>> = schema
-            .fields()
+        // The levels of a partition path follow the order of the partition fields' config.
+        let partition_fields: Vec<Arc<Field>> = partition_fields
             .iter()
-            .filter(|field| partition_fields.contains(field.name()))
-            .cloned()
+            .filter_map(|name| schema.fields().find(name))
+            .map(|(_, field)| field.clone())
             .collect();
 
         Ok(Schema::new(partition_fields))
-- 
2.43.0


From d77bc29b2d74510c2baa99ae842d53dff91cc418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 10/26] fix: split a url-encoded partition path before decoding
 it

An encoded value can contain the path separator; decoding the whole path
first tore such a value apart, so that its partition was never pruned.
---
 crates/core/src/table/partition.rs | 32 ++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/crates/core/src/table/partition.rs b/crates/core/src/table/partition.rs
index 307b428..eab21c0 100644
--- a/crates/core/src/table/partition.rs
+++ b/crates/core/src/table/partition.rs
@@ -118,16 +118,28 @@ impl PartitionPruner {
         })
     }
 
-    fn parse_segments(&self, partition_path: &str) -> Result<HashMap<String, Scalar<ArrayRef>>> {
-        let partition_path = if self.is_url_encoded {
-            percent_encoding::percent_decode(partition_path.as_bytes())
-                .decode_utf8()?
-                .into_owned()
-        } else {
-            partition_path.to_string()
-        };
+    fn url_decode(s: &str) -> Result<String> {
+        Ok(percent_encoding::percent_decode(s.as_bytes())
+            .decode_utf8()?
+            .into_owned())
+    }
 
-        let parts: Vec<&str> = partition_path.split('/').collect();
+    fn split_path(&self, partition_path: &str) -> Result<Vec<String>> {
+        let parts: Vec<String> = partition_path.split('/').map(String::from).collect();
+        if !self.is_url_encoded {
+            return Ok(parts);
+        }
+        if parts.len() != self.schema.fields().len() {
+            // The separators are encoded, too.
+            let decoded = Self::url_decode(partition_path)?;
+            return Ok(decoded.split('/').map(String::from).collect());
+        }
+        // Decode after splitting: an encoded value can contain the separator.
+        parts.iter().map(|part| Self::url_decode(part)).collect()
+    }
+
+    fn parse_segments(&self, partition_path: &str) -> Result<HashMap<String, Scalar<ArrayRef>>> {
+        let parts = self.split_path(partition_path)?;
 
         if parts.len() != self.schema.fields().len() {
             return Err(InvalidPartitionPath(format!(
@@ -155,7 +167,7 @@ impl PartitionPruner {
                     }
                     value
                 } else {
-                    part
+                    part.as_str()
                 };
                 let scalar = SchemableFilter::cast_value(&[value], field.data_type())?;
                 Ok((field.name().to_string(), scalar))
-- 
2.43.0


From b30277fdb02b8b9fa56b3d2eadf6fc3ca5c5bfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 11/26] fix: take a missing hive-style or url-encode option of
 a table as false

Both are optional in hoodie.properties and default to false; planning any
query on a table without them panicked.
---
 crates/core/src/table/partition.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/table/partition.rs b/crates/core/src/table/partition.rs
index eab21c0..5a7f054 100644
--- a/crates/core/src/table/partition.rs
+++ b/crates/core/src/table/partition.rs
@@ -70,11 +70,13 @@ impl PartitionPruner {
 
         let schema = Arc::new(partition_schema.clone());
         let is_hive_style: bool = hudi_configs
-            .get_or_default(HudiTableConfig::IsHiveStylePartitioning)
-            .to();
+            .try_get(HudiTableConfig::IsHiveStylePartitioning)
+            .map(|v| v.to())
+            .unwrap_or(false);
         let is_url_encoded: bool = hudi_configs
-            .get_or_default(HudiTableConfig::IsPartitionPathUrlencoded)
-            .to();
+            .try_get(HudiTableConfig::IsPartitionPathUrlencoded)
+            .map(|v| v.to())
+            .unwrap_or(false);
         Ok(PartitionPruner {
             schema,
             is_hive_style,
-- 
2.43.0


From 5051722dffa08681b68fcceab5a7b96f155a7bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 12/26] fix: read a key = value line of a config file as a
 properties file does

---
 crates/core/src/config/util.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/crates/core/src/config/util.rs b/crates/core/src/config/util.rs
index 33921c6..d95a995 100644
--- a/crates/core/src/config/util.rs
+++ b/crates/core/src/config/util.rs
@@ -63,17 +63,15 @@ pub fn parse_data_for_options(data: &Bytes, split_chars: &str) -> Result<HashMap
         if trimmed_line.is_empty() || trimmed_line.starts_with('#') {
             continue;
         }
-        let mut parts = trimmed_line.splitn(2, |c| split_chars.contains(c));
-        let key = parts
-            .next()
-            .ok_or(ParseLine(format!(
-                "Missing key in config line: {}",
-                trimmed_line
-            )))?
-            .trim()
-            .to_owned();
-        let value = parts.next().unwrap_or("").trim().to_owned();
-        options.insert(key, value);
+        let is_separator = |c: char| split_chars.contains(c);
+        let (key, rest) = match trimmed_line.find(is_separator) {
+            Some(i) => trimmed_line.split_at(i),
+            None => (trimmed_line, ""),
+        };
+        // The separator may have spaces around it, which may be separators themselves.
+        let rest = rest.trim_start();
+        let value = rest.strip_prefix(is_separator).unwrap_or(rest);
+        options.insert(key.trim().to_owned(), value.trim().to_owned());
     }
 
     Ok(options)
-- 
2.43.0


From 4e612123afaab7caeb761ad7e4fcb593af35a707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 13/26] fix: refuse a listing parallelism of 0, which lists
 nothing

---
 crates/core/src/config/read.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/config/read.rs b/crates/core/src/config/read.rs
index f550724..0b94242 100644
--- a/crates/core/src/config/read.rs
+++ b/crates/core/src/config/read.rs
@@ -20,6 +20,7 @@
 
 use std::collections::HashMap;
 use std::fmt::Display;
+use std::num::NonZeroUsize;
 use std::str::FromStr;
 
 use strum_macros::EnumIter;
@@ -112,8 +113,9 @@ impl ConfigParser for HudiReadConfig {
                 .map(HudiConfigValue::UInteger),
             Self::ListingParallelism => get_result
                 .and_then(|v| {
-                    usize::from_str(v).map_err(|e| ParseInt(self.key(), v.to_string(), e))
+                    NonZeroUsize::from_str(v).map_err(|e| ParseInt(self.key(), v.to_string(), e))
                 })
+                .map(NonZeroUsize::get)
                 .map(HudiConfigValue::UInteger),
             Self::UseReadOptimizedMode => get_result
                 .and_then(|v| {
-- 
2.43.0


From 68b961b2166de3c547d5e914849fdb797430a188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 14/26] fix: return an error for an unsupported table instead
 of a panic

---
 crates/core/src/table/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/table/builder.rs b/crates/core/src/table/builder.rs
index 35e805e..8d59133 100644
--- a/crates/core/src/table/builder.rs
+++ b/crates/core/src/table/builder.rs
@@ -109,7 +109,7 @@ impl TableBuilder {
 
         let hudi_configs = HudiConfigs::new(self.hudi_options.iter());
 
-        Self::validate_configs(&hudi_configs).expect("Hudi configs are not valid.");
+        Self::validate_configs(&hudi_configs)?;
 
         let hudi_configs = Arc::from(hudi_configs);
         let storage_options = Arc::from(self.storage_options.clone());
-- 
2.43.0


From 39fefea8d53f6071771a781d5d207c8f744d7a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 15/26] fix: let storage options given by the caller win over
 environment variables

---
 crates/core/src/table/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/table/builder.rs b/crates/core/src/table/builder.rs
index 8d59133..856dea7 100644
--- a/crates/core/src/table/builder.rs
+++ b/crates/core/src/table/builder.rs
@@ -167,7 +167,8 @@ impl TableBuilder {
     }
 
     fn resolve_cloud_env_vars(&mut self) {
-        for (key, value) in env::vars() {
+        let user_provided = self.storage_options.clone();
+        for (key, value) in user_provided.into_iter().chain(env::vars()) {
             if Storage::CLOUD_STORAGE_PREFIXES
                 .iter()
                 .any(|prefix| key.starts_with(prefix))
-- 
2.43.0


From c36ad7f9420782b4d866929fa5493798766f6bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 16/26] fix: refuse a path that would resolve outside of its
 base or to another file

---
 crates/core/src/storage/util.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/core/src/storage/util.rs b/crates/core/src/storage/util.rs
index b26e865..61d54a8 100644
--- a/crates/core/src/storage/util.rs
+++ b/crates/core/src/storage/util.rs
@@ -53,6 +53,10 @@ pub fn join_url_segments(base_url: &Url, segments: &[&str]) -> Result<Url> {
 
     for &seg in segments {
         let segs: Vec<_> = seg.split('/').filter(|&s| !s.is_empty()).collect();
+        // `Url` drops these characters and skips `..`, which makes it another path
+        if segs.iter().any(|&s| s == ".." || s.contains(['\t', '\n', '\r'])) {
+            return Err(InvalidPath(format!("{:?} is not below {:?}", seg, url)));
+        }
         let err = InvalidPath(format!("Url {:?} cannot be a base", url));
         url.path_segments_mut().map_err(|_| err)?.extend(segs);
     }
-- 
2.43.0


From 402d6a2d8e3f9e8242c9ddc1f3ebb61b992f703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:02 +0000
Subject: [PATCH 17/26] fix: refuse a log block whose sizes do not fit, and
 reserve no memory for sizes not yet read

---
 crates/core/src/file_group/log_file/avro.rs   |  5 ++++
 .../core/src/file_group/log_file/content.rs   | 27 ++++++++++++-----
 crates/core/src/file_group/log_file/reader.rs | 30 +++++++++++++++----
 3 files changed, 49 insertions(+), 13 deletions(-)

diff --git a/crates/core/src/file_group/log_file/avro.rs b/crates/core/src/file_group/log_file/avro.rs
index 8c1d6f1..30d97c1 100644
--- a/crates/core/src/file_group/log_file/avro.rs
+++ b/crates/core/src/file_group/log_file/avro.rs
@@ -58,6 +58,11 @@ impl<R: Read> Iterator for AvroDataBlockContentReader<R> {
         let mut record_reader = (&mut self.reader).take(record_content_length as u64);
 
         let result = from_avro_datum(&self.writer_schema, &mut record_reader, None);
+        if result.is_ok() && record_reader.limit() != 0 {
+            return Some(Err(apache_avro::Error::ReadBytes(
+                std::io::ErrorKind::InvalidData.into(),
+            )));
+        }
 
         Some(result)
     }
diff --git a/crates/core/src/file_group/log_file/content.rs b/crates/core/src/file_group/log_file/content.rs
index c6564bc..4f03922 100644
--- a/crates/core/src/file_group/log_file/content.rs
+++ b/crates/core/src/file_group/log_file/content.rs
@@ -28,7 +28,7 @@ use arrow_array::RecordBatch;
 use bytes::Bytes;
 use parquet::arrow::arrow_reader::ParquetRecordBatchReader;
 use std::collections::HashMap;
-use std::io::{Read, Seek};
+use std::io::{self, Read, Seek};
 use std::sync::Arc;
 
 #[allow(dead_code)]
@@ -61,20 +61,31 @@ impl Decoder {
         };
 
         let mut reader = reader.by_ref().take(content_length);
-        match block_type {
+        let record_batches = match block_type {
             BlockType::AvroData => {
                 let writer_schema = header.get(&BlockMetadataKey::Schema).ok_or_else(|| {
                     CoreError::LogBlockError("Schema not found in block header".to_string())
                 })?;
                 let writer_schema = AvroSchema::parse_str(writer_schema)?;
-                self.decode_avro_record_content(reader, &writer_schema)
+                self.decode_avro_record_content(&mut reader, &writer_schema)?
             }
-            BlockType::ParquetData => self.decode_parquet_record_content(&mut reader),
-            BlockType::Command => Ok(Vec::new()),
-            _ => Err(CoreError::LogBlockError(format!(
-                "Unsupported block type: {block_type:?}"
-            ))),
+            BlockType::ParquetData => self.decode_parquet_record_content(&mut reader)?,
+            BlockType::Command => {
+                io::copy(&mut reader, &mut io::sink())?;
+                Vec::new()
+            }
+            _ => {
+                return Err(CoreError::LogBlockError(format!(
+                    "Unsupported block type: {block_type:?}"
+                )))
+            }
+        };
+        if reader.limit() != 0 {
+            return Err(CoreError::LogBlockError(
+                "Content length does not match the content".to_string(),
+            ));
         }
+        Ok(record_batches)
     }
 
     fn decode_avro_record_content(
diff --git a/crates/core/src/file_group/log_file/reader.rs b/crates/core/src/file_group/log_file/reader.rs
index 901ebfe..1a3d452 100644
--- a/crates/core/src/file_group/log_file/reader.rs
+++ b/crates/core/src/file_group/log_file/reader.rs
@@ -176,8 +176,7 @@ impl<R: Read + Seek> LogFileReader<R> {
         let mut num_entries_buf = [0u8; 4];
         self.reader.read_exact(&mut num_entries_buf)?;
         let num_entries = u32::from_be_bytes(num_entries_buf);
-        let mut metadata: HashMap<BlockMetadataKey, String> =
-            HashMap::with_capacity(num_entries as usize);
+        let mut metadata: HashMap<BlockMetadataKey, String> = HashMap::new();
         for _ in 0..num_entries {
             let mut key_buf = [0u8; 4];
             self.reader.read_exact(&mut key_buf)?;
@@ -185,8 +184,16 @@ impl<R: Read + Seek> LogFileReader<R> {
             let mut value_len_buf = [0u8; 4];
             self.reader.read_exact(&mut value_len_buf)?;
             let value_len = u32::from_be_bytes(value_len_buf);
-            let mut value_buf = vec![0u8; value_len as usize];
-            self.reader.read_exact(&mut value_buf)?;
+            let mut value_buf = Vec::new();
+            self.reader
+                .by_ref()
+                .take(value_len as u64)
+                .read_to_end(&mut value_buf)?;
+            if value_buf.len() != value_len as usize {
+                return Err(CoreError::LogFormatError(
+                    "Block metadata ends early".to_string(),
+                ));
+            }
             let value =
                 String::from_utf8(value_buf).map_err(|e| CoreError::Utf8Error(e.utf8_error()))?;
             metadata.insert(key, value);
@@ -250,7 +257,20 @@ impl<R: Read + Seek> LogFileReader<R> {
             &header,
         )?;
         let footer = self.read_block_metadata(BlockMetadataType::Footer, &format_version)?;
-        let _ = self.read_total_block_length(&format_version)?;
+        let total_block_length = self.read_total_block_length(&format_version)?;
+
+        // The block length counts what follows it, the total length what precedes it.
+        let end_pos = self
+            .reader
+            .stream_position()
+            .map_err(CoreError::ReadLogFileError)?;
+        if end_pos - curr_pos - 8 != block_length
+            || total_block_length.is_some_and(|l| l != block_length + MAGIC.len() as u64)
+        {
+            return Err(CoreError::LogFormatError(
+                "Block length does not match".to_string(),
+            ));
+        }
 
         Ok(Some(LogBlock {
             format_version,
-- 
2.43.0


From fea4a9b8e9d87e6e2580d7b522e46b384da81e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:02 +0000
Subject: [PATCH 18/26] fix: apply rollback blocks written after the query
 window, and do not decode blocks outside of it

---
 .../core/src/file_group/log_file/content.rs   | 48 ++++++++++++++-----
 crates/core/src/file_group/log_file/reader.rs | 27 ++++++-----
 .../core/src/file_group/log_file/scanner.rs   | 10 ++--
 3 files changed, 58 insertions(+), 27 deletions(-)

diff --git a/crates/core/src/file_group/log_file/content.rs b/crates/core/src/file_group/log_file/content.rs
index 4f03922..26da3cf 100644
--- a/crates/core/src/file_group/log_file/content.rs
+++ b/crates/core/src/file_group/log_file/content.rs
@@ -28,7 +28,7 @@ use arrow_array::RecordBatch;
 use bytes::Bytes;
 use parquet::arrow::arrow_reader::ParquetRecordBatchReader;
 use std::collections::HashMap;
-use std::io::{self, Read, Seek};
+use std::io::{self, Read, Seek, Take};
 use std::sync::Arc;
 
 #[allow(dead_code)]
@@ -52,15 +52,7 @@ impl Decoder {
         block_type: &BlockType,
         header: &HashMap<BlockMetadataKey, String>,
     ) -> Result<Vec<RecordBatch>> {
-        let content_length = if log_format_version.has_content_length() {
-            let mut content_length_buf = [0u8; 8];
-            reader.read_exact(&mut content_length_buf)?;
-            u64::from_be_bytes(content_length_buf)
-        } else {
-            fallback_length
-        };
-
-        let mut reader = reader.by_ref().take(content_length);
+        let mut reader = Self::content(reader, log_format_version, fallback_length)?;
         let record_batches = match block_type {
             BlockType::AvroData => {
                 let writer_schema = header.get(&BlockMetadataKey::Schema).ok_or_else(|| {
@@ -80,12 +72,44 @@ impl Decoder {
                 )))
             }
         };
-        if reader.limit() != 0 {
+        Self::check_consumed(&reader)?;
+        Ok(record_batches)
+    }
+
+    /// Reads past the content of a block without decoding it.
+    pub fn skip_content(
+        &self,
+        reader: &mut (impl Read + Seek),
+        log_format_version: &LogFormatVersion,
+        fallback_length: u64,
+    ) -> Result<()> {
+        let mut reader = Self::content(reader, log_format_version, fallback_length)?;
+        io::copy(&mut reader, &mut io::sink())?;
+        Self::check_consumed(&reader)
+    }
+
+    fn content<'a, R: Read + Seek>(
+        reader: &'a mut R,
+        log_format_version: &LogFormatVersion,
+        fallback_length: u64,
+    ) -> Result<Take<&'a mut R>> {
+        let content_length = if log_format_version.has_content_length() {
+            let mut content_length_buf = [0u8; 8];
+            reader.read_exact(&mut content_length_buf)?;
+            u64::from_be_bytes(content_length_buf)
+        } else {
+            fallback_length
+        };
+        Ok(reader.take(content_length))
+    }
+
+    fn check_consumed<R: Read>(content: &Take<R>) -> Result<()> {
+        if content.limit() != 0 {
             return Err(CoreError::LogBlockError(
                 "Content length does not match the content".to_string(),
             ));
         }
-        Ok(record_batches)
+        Ok(())
     }
 
     fn decode_avro_record_content(
diff --git a/crates/core/src/file_group/log_file/reader.rs b/crates/core/src/file_group/log_file/reader.rs
index 1a3d452..6a3ced9 100644
--- a/crates/core/src/file_group/log_file/reader.rs
+++ b/crates/core/src/file_group/log_file/reader.rs
@@ -242,20 +242,23 @@ impl<R: Read + Seek> LogFileReader<R> {
         let format_version = self.read_log_format_version()?;
         let block_type = self.read_block_type(&format_version)?;
         let header = self.read_block_metadata(BlockMetadataType::Header, &format_version)?;
-        let mut skipped = false;
-        if self.should_skip_block(&header, instant_range)? {
-            skipped = true;
-            // TODO skip reading block
-        }
+        // A rollback undoes blocks of its target instant, however late it was written.
+        let skipped =
+            block_type != BlockType::Command && self.should_skip_block(&header, instant_range)?;
 
         let decoder = Decoder::new(self.hudi_configs.clone());
-        let record_batches = decoder.decode_content(
-            self.reader.by_ref(),
-            &format_version,
-            block_length,
-            &block_type,
-            &header,
-        )?;
+        let record_batches = if skipped {
+            decoder.skip_content(self.reader.by_ref(), &format_version, block_length)?;
+            Vec::new()
+        } else {
+            decoder.decode_content(
+                self.reader.by_ref(),
+                &format_version,
+                block_length,
+                &block_type,
+                &header,
+            )?
+        };
         let footer = self.read_block_metadata(BlockMetadataType::Footer, &format_version)?;
         let total_block_length = self.read_total_block_length(&format_version)?;
 
diff --git a/crates/core/src/file_group/log_file/scanner.rs b/crates/core/src/file_group/log_file/scanner.rs
index d6ef227..9bd2f41 100644
--- a/crates/core/src/file_group/log_file/scanner.rs
+++ b/crates/core/src/file_group/log_file/scanner.rs
@@ -17,7 +17,7 @@
  * under the License.
  */
 use crate::config::HudiConfigs;
-use crate::file_group::log_file::log_block::LogBlock;
+use crate::file_group::log_file::log_block::{BlockType, CommandBlock, LogBlock};
 use crate::file_group::log_file::reader::LogFileReader;
 use crate::storage::Storage;
 use crate::timeline::selector::InstantRange;
@@ -55,8 +55,12 @@ impl LogFileScanner {
             let blocks = reader.read_all_blocks(instant_range)?;
 
             for block in &blocks {
-                if block.is_rollback_block() {
-                    rollback_targets.insert(block.target_instant_time()?.to_string());
+                if block.block_type == BlockType::Command {
+                    match block.command_block_type()? {
+                        CommandBlock::Rollback => {
+                            rollback_targets.insert(block.target_instant_time()?.to_string())
+                        }
+                    };
                 }
             }
 
-- 
2.43.0


From 81bbc1e6a406749ce0449332f4b4656557ffb2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:27 +0000
Subject: [PATCH 19/26] fix: compare commit times with bounds of second
 precision as points in time

---
 crates/core/src/file_group/reader.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/file_group/reader.rs b/crates/core/src/file_group/reader.rs
index 69f9cf4..f008813 100644
--- a/crates/core/src/file_group/reader.rs
+++ b/crates/core/src/file_group/reader.rs
@@ -103,7 +103,7 @@ impl FileGroupReader {
         if let Some(start) = self
             .hudi_configs
             .try_get(HudiReadConfig::FileGroupStartTimestamp)
-            .map(|v| v.to::<String>())
+            .map(|v| to_millis_precision(v.to::<String>()))
         {
             let filter: Filter =
                 Filter::try_from((MetaField::CommitTime.as_ref(), ">", start.as_str()))?;
@@ -119,7 +119,7 @@ impl FileGroupReader {
         if let Some(end) = self
             .hudi_configs
             .try_get(HudiReadConfig::FileGroupEndTimestamp)
-            .map(|v| v.to::<String>())
+            .map(|v| to_millis_precision(v.to::<String>()))
         {
             let filter = Filter::try_from((MetaField::CommitTime.as_ref(), "<=", end.as_str()))?;
             let filter = SchemableFilter::try_from((filter, schema.as_ref()))?;
@@ -227,6 +227,16 @@ impl FileGroupReader {
     }
 }
 
+/// A timestamp of second precision denotes the first millisecond of the second. Commit times of
+/// either precision compare with the result, as text, as the points in time they denote.
+fn to_millis_precision(timestamp: String) -> String {
+    if timestamp.len() == "yyyyMMddHHmmss".len() {
+        timestamp + "000"
+    } else {
+        timestamp
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 3218b2637dab270389448df8280ec50a2a196c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:27 +0000
Subject: [PATCH 20/26] fix: merge log records with the base file's columns by
 name, not by position

---
 crates/core/src/merge/record_merger.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/core/src/merge/record_merger.rs b/crates/core/src/merge/record_merger.rs
index 74fc568..6ccc619 100644
--- a/crates/core/src/merge/record_merger.rs
+++ b/crates/core/src/merge/record_merger.rs
@@ -88,6 +88,12 @@ impl RecordMerger {
             return Ok(RecordBatch::new_empty(schema.clone()));
         }
 
+        // `concat_batches` takes columns by position
+        let batches = &batches
+            .iter()
+            .map(|batch| select_columns(schema, batch))
+            .collect::<Result<Vec<_>>>()?;
+
         let merge_strategy = self
             .hudi_configs
             .get_or_default(RecordMergeStrategy)
@@ -138,6 +144,16 @@ impl RecordMerger {
     }
 }
 
+/// Selects the columns of the given schema by name, in the schema's order.
+fn select_columns(schema: &SchemaRef, batch: &RecordBatch) -> Result<RecordBatch> {
+    let indices = schema
+        .fields()
+        .iter()
+        .map(|field| Ok(batch.schema_ref().index_of(field.name())?))
+        .collect::<Result<Vec<usize>>>()?;
+    Ok(batch.project(&indices)?)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 0c6a9980dec487ea1757feeed91ae288bcf77c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 21/26] fix: mirror the operator of a pushed down comparison
 with the literal on the left

---
 crates/datafusion/src/util/expr.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/datafusion/src/util/expr.rs b/crates/datafusion/src/util/expr.rs
index 7eb0eed..f51bcba 100644
--- a/crates/datafusion/src/util/expr.rs
+++ b/crates/datafusion/src/util/expr.rs
@@ -48,17 +48,18 @@ pub fn exprs_to_filters(exprs: &[Expr]) -> Vec<(String, String, String)> {
 
 /// Converts a binary expression [`Expr::BinaryExpr`] into a [`HudiFilter`].
 fn binary_expr_to_filter(binary_expr: &BinaryExpr) -> Option<HudiFilter> {
-    // extract the column and literal from the binary expression
-    let (column, literal) = match (&*binary_expr.left, &*binary_expr.right) {
-        (Expr::Column(col), Expr::Literal(lit)) => (col, lit),
-        (Expr::Literal(lit), Expr::Column(col)) => (col, lit),
+    // extract the column, operator, and literal from the binary expression;
+    // the operator is mirrored when the literal is on the left
+    let (column, op, literal) = match (&*binary_expr.left, &*binary_expr.right) {
+        (Expr::Column(col), Expr::Literal(lit)) => (col, binary_expr.op, lit),
+        (Expr::Literal(lit), Expr::Column(col)) => (col, binary_expr.op.swap()?, lit),
         _ => return None,
     };
 
     let field = col(column.name());
     let lit_str = literal.to_string();
 
-    let filter = match binary_expr.op {
+    let filter = match op {
         Operator::Eq => field.eq(lit_str),
         Operator::NotEq => field.ne(lit_str),
         Operator::Lt => field.lt(lit_str),
-- 
2.43.0


From ad06814b669f76cc3d80083d3ccd67dc2198d8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 22/26] fix: push down only literals whose text casts back to
 the same value

---
 crates/datafusion/src/util/expr.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/crates/datafusion/src/util/expr.rs b/crates/datafusion/src/util/expr.rs
index f51bcba..acf6544 100644
--- a/crates/datafusion/src/util/expr.rs
+++ b/crates/datafusion/src/util/expr.rs
@@ -18,6 +18,7 @@
  */
 
 use datafusion::logical_expr::Operator;
+use datafusion_common::ScalarValue;
 use datafusion_expr::{BinaryExpr, Expr};
 use hudi_core::expr::filter::{col, Filter as HudiFilter};
 
@@ -57,7 +58,7 @@ fn binary_expr_to_filter(binary_expr: &BinaryExpr) -> Option<HudiFilter> {
     };
 
     let field = col(column.name());
-    let lit_str = literal.to_string();
+    let lit_str = literal_to_string(literal)?;
 
     let filter = match op {
         Operator::Eq => field.eq(lit_str),
@@ -72,6 +73,31 @@ fn binary_expr_to_filter(binary_expr: &BinaryExpr) -> Option<HudiFilter> {
     Some(filter)
 }
 
+/// Returns the text of a literal, or `None` if the text could not be cast back to the same value.
+fn literal_to_string(literal: &ScalarValue) -> Option<String> {
+    if literal.is_null() {
+        return None;
+    }
+    match literal {
+        ScalarValue::Boolean(_)
+        | ScalarValue::Int8(_)
+        | ScalarValue::Int16(_)
+        | ScalarValue::Int32(_)
+        | ScalarValue::Int64(_)
+        | ScalarValue::UInt8(_)
+        | ScalarValue::UInt16(_)
+        | ScalarValue::UInt32(_)
+        | ScalarValue::UInt64(_)
+        | ScalarValue::Float32(_)
+        | ScalarValue::Float64(_)
+        | ScalarValue::Utf8(_)
+        | ScalarValue::LargeUtf8(_)
+        | ScalarValue::Utf8View(_)
+        | ScalarValue::Date32(_) => Some(literal.to_string()),
+        _ => None,
+    }
+}
+
 /// Converts a NOT expression (`Expr::Not`) into a `PartitionFilter`.
 fn not_expr_to_filter(not_expr: &Expr) -> Option<HudiFilter> {
     match not_expr {
-- 
2.43.0


From fc6834fcefc2385fcdf58fe32a2590252daee500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 23/26] fix: push down only filters that apply to the table's
 partition columns

---
 crates/datafusion/src/lib.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index 9beb612..614f613 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -45,6 +45,7 @@ use datafusion_physical_expr::create_physical_expr;
 use crate::util::expr::exprs_to_filters;
 use hudi_core::config::read::HudiReadConfig::InputPartitions;
 use hudi_core::config::util::empty_options;
+use hudi_core::expr::filter::{Filter, SchemableFilter};
 use hudi_core::storage::util::{get_scheme_authority, join_url_segments};
 use hudi_core::table::Table as HudiTable;
 use hudi_core::util::StrTupleRef;
@@ -104,6 +105,29 @@ impl HudiDataSource {
             .to::<usize>()
     }
 
+    /// Keep the filters that can prune partitions. The others are evaluated by the engine.
+    async fn retain_partition_filters(
+        &self,
+        filters: Vec<(String, String, String)>,
+    ) -> Result<Vec<(String, String, String)>> {
+        let mut partition_filters = Vec::new();
+        if filters.is_empty() {
+            return Ok(partition_filters);
+        }
+        let partition_schema = self
+            .table
+            .get_partition_schema()
+            .await
+            .map_err(|e| Execution(format!("Failed to get partition schema: {}", e)))?;
+        for (field, op, value) in filters {
+            let filter = Filter::try_from((field.as_str(), op.as_str(), value.as_str()));
+            if filter.is_ok_and(|f| SchemableFilter::try_from((f, &partition_schema)).is_ok()) {
+                partition_filters.push((field, op, value));
+            }
+        }
+        Ok(partition_filters)
+    }
+
     /// Check if the given expression can be pushed down to the Hudi table.
     ///
     /// The expression can be pushed down if it is a binary expression with a supported operator and operands.
@@ -176,7 +200,9 @@ impl TableProvider for HudiDataSource {
         self.table.register_storage(state.runtime_env().clone());
 
         // Convert Datafusion `Expr` to `Filter`
-        let pushdown_filters = exprs_to_filters(filters);
+        let pushdown_filters = self
+            .retain_partition_filters(exprs_to_filters(filters))
+            .await?;
         let file_slices = self
             .table
             .get_file_slices_splits(self.get_input_partitions(), &pushdown_filters.as_strs())
-- 
2.43.0


From da8305401aa742131deedc41db2167283867f001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:30 +0000
Subject: [PATCH 24/26] fix: do not percent-encode the path of a base file
 twice

---
 crates/datafusion/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index 614f613..f70dff4 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -28,7 +28,7 @@ use std::thread;
 use arrow_schema::{Schema, SchemaRef};
 use async_trait::async_trait;
 use datafusion::catalog::{Session, TableProviderFactory};
-use datafusion::datasource::listing::PartitionedFile;
+use datafusion::datasource::listing::{ListingTableUrl, PartitionedFile};
 use datafusion::datasource::object_store::ObjectStoreUrl;
 use datafusion::datasource::physical_plan::parquet::ParquetExecBuilder;
 use datafusion::datasource::physical_plan::FileScanConfig;
@@ -221,7 +221,10 @@ impl TableProvider for HudiDataSource {
                 let url = join_url_segments(&base_url, &[relative_path.as_str()])
                     .map_err(|e| Execution(format!("Failed to join URL segments: {e:?}")))?;
                 let size = f.base_file.file_metadata.as_ref().map_or(0, |m| m.size);
-                let partitioned_file = PartitionedFile::new(url.path(), size as u64);
+                // The URL's path is already percent-encoded: take its location as it is.
+                let location = ListingTableUrl::parse(&url)?.prefix().clone();
+                let mut partitioned_file = PartitionedFile::new("", size as u64);
+                partitioned_file.object_meta.location = location;
                 parquet_file_group_vec.push(partitioned_file);
             }
             parquet_file_groups.push(parquet_file_group_vec)
-- 
2.43.0


From f3b5eedf742af017fbd87582e02bca86339d48e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 25/26] fix: report Avro types that cannot be read as errors
 and read local timestamps and uuids

---
 .../src/avro_to_arrow/arrow_array_reader.rs   | 15 ++++++-----
 crates/core/src/avro_to_arrow/schema.rs       | 25 ++++++++++++-------
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index 4ada3ad..71b5d49 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -104,13 +104,7 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
     ) -> Result<&'b BTreeMap<String, usize>> {
         match schema {
             AvroSchema::Union(us) => {
-                let has_nullable = us
-                    .find_schema_with_known_schemata::<apache_avro::Schema>(
-                        &Value::Null,
-                        None,
-                        &None,
-                    )
-                    .is_some();
+                let has_nullable = us.is_nullable();
                 let sub_schemas = us.variants();
                 if has_nullable && sub_schemas.len() == 2 {
                     if let Some(sub_schema) =
@@ -911,6 +905,7 @@ fn resolve_fixed(v: &Value, size: usize) -> Option<Vec<u8>> {
                 None
             }
         }
+        Value::Uuid(uuid) if size == 16 => Some(uuid.as_bytes().to_vec()),
         _ => None,
     }
 }
@@ -959,7 +954,11 @@ where
             Value::Long(l)
             | Value::TimeMicros(l)
             | Value::TimestampMillis(l)
-            | Value::TimestampMicros(l) => NumCast::from(*l),
+            | Value::TimestampMicros(l)
+            | Value::TimestampNanos(l)
+            | Value::LocalTimestampMillis(l)
+            | Value::LocalTimestampMicros(l)
+            | Value::LocalTimestampNanos(l) => NumCast::from(*l),
             Value::Float(f) => NumCast::from(*f),
             Value::Double(f) => NumCast::from(*f),
             Value::Duration(_d) => unimplemented!(), // shenanigans type
diff --git a/crates/core/src/avro_to_arrow/schema.rs b/crates/core/src/avro_to_arrow/schema.rs
index afb0773..6b8e47b 100644
--- a/crates/core/src/avro_to_arrow/schema.rs
+++ b/crates/core/src/avro_to_arrow/schema.rs
@@ -17,10 +17,10 @@
 
 use crate::error::{CoreError, Result};
 use apache_avro::schema::{Alias, DecimalSchema, EnumSchema, FixedSchema, Name, RecordSchema};
-use apache_avro::types::Value;
 use apache_avro::Schema as AvroSchema;
 use arrow::datatypes::{DataType, IntervalUnit, Schema, TimeUnit, UnionMode};
 use arrow::datatypes::{Field, UnionFields};
+use arrow::error::ArrowError::SchemaError;
 use std::collections::HashMap;
 use std::sync::Arc;
 
@@ -61,7 +61,12 @@ fn schema_to_field_with_props(
 ) -> Result<Field> {
     let mut nullable = nullable;
     let field_type: DataType = match schema {
-        AvroSchema::Ref { .. } => todo!("Add support for AvroSchema::Ref"),
+        AvroSchema::Ref { name } => {
+            return Err(CoreError::from(SchemaError(format!(
+                "Reference to Avro schema {} is not supported",
+                name.fullname(None)
+            ))))
+        }
         AvroSchema::Null => DataType::Null,
         AvroSchema::Boolean => DataType::Boolean,
         AvroSchema::Int => DataType::Int32,
@@ -86,9 +91,7 @@ fn schema_to_field_with_props(
         }
         AvroSchema::Union(us) => {
             // If there are only two variants and one of them is null, set the other type as the field data type
-            let has_nullable = us
-                .find_schema_with_known_schemata::<apache_avro::Schema>(&Value::Null, None, &None)
-                .is_some();
+            let has_nullable = us.is_nullable();
             let sub_schemas = us.variants();
             if has_nullable && sub_schemas.len() == 2 {
                 nullable = true;
@@ -132,7 +135,11 @@ fn schema_to_field_with_props(
         AvroSchema::Decimal(DecimalSchema {
             precision, scale, ..
         }) => DataType::Decimal128(*precision as u8, *scale as i8),
-        AvroSchema::BigDecimal => DataType::LargeBinary,
+        AvroSchema::BigDecimal => {
+            return Err(CoreError::from(SchemaError(
+                "Avro big-decimal is not supported".to_string(),
+            )))
+        }
         AvroSchema::Uuid => DataType::FixedSizeBinary(16),
         AvroSchema::Date => DataType::Date32,
         AvroSchema::TimeMillis => DataType::Time32(TimeUnit::Millisecond),
@@ -140,9 +147,9 @@ fn schema_to_field_with_props(
         AvroSchema::TimestampMillis => DataType::Timestamp(TimeUnit::Millisecond, None),
         AvroSchema::TimestampMicros => DataType::Timestamp(TimeUnit::Microsecond, None),
         AvroSchema::TimestampNanos => DataType::Timestamp(TimeUnit::Nanosecond, None),
-        AvroSchema::LocalTimestampMillis => todo!(),
-        AvroSchema::LocalTimestampMicros => todo!(),
-        AvroSchema::LocalTimestampNanos => todo!(),
+        AvroSchema::LocalTimestampMillis => DataType::Timestamp(TimeUnit::Millisecond, None),
+        AvroSchema::LocalTimestampMicros => DataType::Timestamp(TimeUnit::Microsecond, None),
+        AvroSchema::LocalTimestampNanos => DataType::Timestamp(TimeUnit::Nanosecond, None),
         AvroSchema::Duration => DataType::Duration(TimeUnit::Millisecond),
     };
 
-- 
2.43.0


From c8e089077c6c7bd23687a239b4ba6efce4853da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 26/26] fix: keep the values and nulls of nested Avro lists

---
 .../src/avro_to_arrow/arrow_array_reader.rs   | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index 71b5d49..8bbf34b 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -451,11 +451,11 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                 let mut bool_nulls = MutableBuffer::new(num_bytes).with_bitset(num_bytes, true);
                 let mut curr_index = 0;
                 rows.iter().for_each(|v| {
-                    if let Value::Array(vs) = v {
+                    if let Value::Array(vs) = maybe_resolve_union(v) {
                         vs.iter().for_each(|value| {
-                            if let Value::Boolean(child) = value {
+                            if let Some(child) = resolve_boolean(value) {
                                 // if valid boolean, append value
-                                if *child {
+                                if child {
                                     bit_util::set_bit(&mut bool_values, curr_index);
                                 }
                             } else {
@@ -502,16 +502,18 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                 .collect::<LargeStringArray>()
                 .into_data(),
             DataType::List(field) => {
+                let sub_parent_field_name = format!("{}.{}", parent_field_name, list_field.name());
                 let child = self.build_nested_list_array::<i32>(
-                    parent_field_name,
+                    &sub_parent_field_name,
                     &flatten_values(rows),
                     field,
                 )?;
                 child.to_data()
             }
             DataType::LargeList(field) => {
+                let sub_parent_field_name = format!("{}.{}", parent_field_name, list_field.name());
                 let child = self.build_nested_list_array::<i64>(
-                    parent_field_name,
+                    &sub_parent_field_name,
                     &flatten_values(rows),
                     field,
                 )?;
@@ -523,6 +525,7 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                     .iter()
                     .map(|row| match maybe_resolve_union(row) {
                         Value::Array(values) => values.len(),
+                        Value::Null => 0,
                         _ => 1,
                     })
                     .sum();
@@ -551,6 +554,9 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                                     other => panic!("expected Record, got {other:?}"),
                                 })
                                 .collect::<Vec<&Vec<(String, Value)>>>()
+                        } else if let Value::Null = row {
+                            // a null list has no elements
+                            vec![]
                         } else {
                             struct_index += 1;
                             vec![&null_struct_array]
@@ -811,6 +817,9 @@ fn flatten_values<'a>(values: &[&'a Value]) -> Vec<&'a Value> {
             let v = maybe_resolve_union(row);
             if let Value::Array(values) = v {
                 values.iter().collect()
+            } else if let Value::Null = v {
+                // a null list has no elements
+                vec![]
             } else {
                 // we interpret a scalar as a single-value list to minimise data loss
                 vec![v]
-- 
2.43.0

