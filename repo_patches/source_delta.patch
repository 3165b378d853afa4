From 4119b040c5c5ca6a3f72752c839367a3158fbf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:54 +0000
Subject: [PATCH 01/33] fix: accept --rrdp-max-deltas 0

The limit of 0 made the verification of the delta list panic on an empty
list. Build a notification without deltas instead.
---
 src/rrdp.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index c57166e..ba1d0bd 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -103,7 +103,15 @@ impl RrdpState {
                 Ok(None)
             }
             Some((mut notification_file, notification_etag)) => {
-                if !notification_file.sort_and_verify_deltas(limit) {
+                if limit == Some(0) {
+                    // No deltas wanted at all, so there is nothing to sort or verify.
+                    notification_file = NotificationFile::new(
+                        notification_file.session_id(),
+                        notification_file.serial(),
+                        notification_file.snapshot().clone(),
+                        vec![],
+                    );
+                } else if !notification_file.sort_and_verify_deltas(limit) {
                     return Err(anyhow!("Notification file contained gaps in deltas"));
                 }
 
-- 
2.43.0


From 467d4df136cd8f4a54306adf5c3b21540a8e0516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:14 +0000
Subject: [PATCH 02/33] fix: clean up old RRDP files after the notification is
 replaced

Files that are deprecated in a run are still listed by the published
notification file until write_notification() replaces it, possibly after a
configured delay. With a short 'cleanup_after' they were removed before that.
---
 src/process.rs | 12 ++++++++++--
 src/rrdp.rs    |  6 ------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 2790ad8..9e24f36 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -105,8 +105,6 @@ pub fn process(config: &Config) -> Result<()> {
     // - updates the RrdpState with new content,
     // - deprecate old files
     // - move new snapshot and deltas to the target RRDP dir
-    // - clean up old files, deprecated for the configured time
-    // - move new notification file to the target RRDP dir
     rrdp_state.apply_staged_changed(staged, config)?;
 
     // ===================================================================
@@ -141,6 +139,16 @@ pub fn process(config: &Config) -> Result<()> {
     // ===================================================================
     rrdp_state.write_notification(config.rrdp_notify_delay)?;
 
+    // ===================================================================
+    // Clean up old RRDP files
+    // ===================================================================
+    //
+    // Remove RRDP files and empty parent directories if they had been
+    // deprecated for more than the configured 'cleanup_after' time. This
+    // is done last because files are in use until the notification file
+    // that lists them was replaced.
+    rrdp_state.clean(config)?;
+
     // ===================================================================
     // Persist state
     // ===================================================================
diff --git a/src/rrdp.rs b/src/rrdp.rs
index ba1d0bd..c1491c2 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -336,8 +336,6 @@ impl RrdpState {
     /// - updates the RrdpState with new content
     /// - deprecate old files
     /// - move new snapshot and deltas to the target RRDP dir
-    /// - clean up old files, deprecated for the configured time
-    /// - move new notification file to the target RRDP dir
     pub fn apply_staged_changed(
         &mut self,
         mut staged: StagedChanges,
@@ -377,10 +375,6 @@ impl RrdpState {
         self.deltas.sort_by_key(|d| d.serial());
         self.deltas.reverse();
 
-        // Clean up any RRDP files and empty parent directories if they had been
-        // deprecated for more than the configured 'cleanup_after' time.
-        self.clean(config)?;
-
         Ok(())
     }
 
-- 
2.43.0


From 908526d28a35aac6b24a05af1c3267ecf8b02010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:29 +0000
Subject: [PATCH 03/33] fix: never remove RRDP files that became current again

A deprecated file is listed again if the source returns to an earlier session
or if the limit on deltas is raised. The entry in deprecated_files then made
a later clean-up remove a published file.
---
 src/rrdp.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index c1491c2..aa5fbd6 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -1,4 +1,5 @@
 use std::{
+    collections::HashSet,
     fs,
     path::{Path, PathBuf},
 };
@@ -382,6 +383,15 @@ impl RrdpState {
     pub fn clean(&mut self, config: &Config) -> Result<()> {
         let clean_before = Time::seconds_ago(config.cleanup_after);
 
+        // Files can become current again, e.g. when the source returns to an
+        // earlier session. They must not be removed.
+        let in_use: HashSet<PathBuf> = self
+            .snapshot_path()
+            .into_iter()
+            .chain(self.deltas.iter().map(|d| self.mappings.path(d.rel_path())))
+            .collect();
+        self.deprecated_files.retain(|d| !in_use.contains(&d.path));
+
         for deprecated in self
             .deprecated_files
             .iter()
-- 
2.43.0


From 84f817e56b3e289b034a840bce50fffc56b9d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:29 +0000
Subject: [PATCH 04/33] fix: save the RRDP state before removing old files

If a run ends between the clean-up and saving the state, then the saved state
still refers to removed deltas as current, and the next run lists them.
---
 src/process.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 9e24f36..ec3fcb9 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -139,6 +139,11 @@ pub fn process(config: &Config) -> Result<()> {
     // ===================================================================
     rrdp_state.write_notification(config.rrdp_notify_delay)?;
 
+    // ===================================================================
+    // Persist state
+    // ===================================================================
+    rrdp_state.persist(&config.rrdp_state_path())?;
+
     // ===================================================================
     // Clean up old RRDP files
     // ===================================================================
@@ -146,12 +151,9 @@ pub fn process(config: &Config) -> Result<()> {
     // Remove RRDP files and empty parent directories if they had been
     // deprecated for more than the configured 'cleanup_after' time. This
     // is done last because files are in use until the notification file
-    // that lists them was replaced.
+    // that lists them was replaced, and until the persisted state no longer
+    // refers to them as current.
     rrdp_state.clean(config)?;
-
-    // ===================================================================
-    // Persist state
-    // ===================================================================
     rrdp_state.persist(&config.rrdp_state_path())?;
 
     Ok(())
-- 
2.43.0


From 6c2ce414869cfd8ad90fd586c275c67b9bbb32df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:17 +0000
Subject: [PATCH 05/33] fix: deprecate RRDP files only once the new
 notification is written

---
 src/rrdp.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index aa5fbd6..753ff9e 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -39,6 +39,10 @@ pub struct RrdpState {
     /// Deprecated files - which may be cleaned up after some time
     deprecated_files: Vec<DeprecatedFile>,
 
+    /// Files that are deprecated as soon as the new notification is written
+    #[serde(skip)]
+    superseded_files: Vec<PathBuf>,
+
     /// Embedded validator
     #[serde(skip_serializing_if = "Option::is_none")]
     validator: Option<Validator>,
@@ -58,6 +62,7 @@ impl RrdpState {
             snapshot: None,
             deltas: vec![],
             deprecated_files: vec![],
+            superseded_files: vec![],
             validator: None,
         })
     }
@@ -358,7 +363,7 @@ impl RrdpState {
 
         // deprecate old snapshot if it is present
         if let Some(old_path) = self.snapshot_path() {
-            self.deprecated_files.push(DeprecatedFile::new(old_path));
+            self.superseded_files.push(old_path);
         }
 
         // update snapshot info
@@ -425,7 +430,9 @@ impl RrdpState {
     /// Writes the notification file to disk. Will first write to a
     /// temporary file and then rename it to avoid serving partially
     /// written files.
-    pub fn write_notification(&self, delay: u64) -> Result<()> {
+    ///
+    /// Files that are no longer listed are deprecated from then on.
+    pub fn write_notification(&mut self, delay: u64) -> Result<()> {
         if delay > 0 {
             info!(
                 "Waiting for configured {} seconds before updating the notification file.",
@@ -462,6 +469,9 @@ impl RrdpState {
             )
         })?;
 
+        self.deprecated_files
+            .extend(self.superseded_files.drain(..).map(DeprecatedFile::new));
+
         Ok(())
     }
 
@@ -583,7 +593,7 @@ impl RrdpState {
             let deltas: Vec<DeltaState> = self.deltas.drain(cut_off_idx..).collect();
             for delta in deltas {
                 let path = self.mappings.path(delta.rel_path());
-                self.deprecated_files.push(DeprecatedFile::new(path));
+                self.superseded_files.push(path);
             }
         }
     }
@@ -592,7 +602,7 @@ impl RrdpState {
     fn deltas_deprecate_all(&mut self) {
         for delta in &self.deltas {
             let path = self.mappings.path(delta.rel_path());
-            self.deprecated_files.push(DeprecatedFile::new(path));
+            self.superseded_files.push(path);
         }
 
         self.deltas = vec![];
-- 
2.43.0


From 0750777e88521ae92be6afa4a6225b2ac8baaf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:43 +0000
Subject: [PATCH 06/33] fix: refuse snapshot and delta URIs that lead out of
 the base directory

---
 src/rrdp.rs | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index 753ff9e..d519b97 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -512,12 +512,10 @@ impl RrdpState {
         config: &Config,
     ) -> Result<SnapshotState> {
         let snapshot_info = notification.snapshot();
-        let relative_name = self.mappings.relative(snapshot_info.uri())?;
-        let target = config.staging_path(&relative_name);
+        let rel_path = self.relative_file(snapshot_info.uri())?;
+        let target = config.staging_path(&rel_path);
         fetcher.retrieve_file(snapshot_info.uri(), snapshot_info.hash(), &target)?;
 
-        let rel_path = self.mappings.relative(snapshot_info.uri())?;
-
         Ok(SnapshotState::create(
             notification.session_id(),
             notification.serial(),
@@ -526,6 +524,19 @@ impl RrdpState {
         ))
     }
 
+    /// Get the relative path for a snapshot or delta file. Returns an error if
+    /// it is outside the base URI, or would replace the notification file.
+    fn relative_file(&self, uri: &Https) -> Result<String> {
+        let rel_path = self.mappings.relative(uri)?;
+        let source = &self.notification_source;
+
+        if rel_path == source.name() || rel_path == source.tmp_name() {
+            Err(anyhow!("Uri {} is in use for the notification file", uri))
+        } else {
+            Ok(rel_path)
+        }
+    }
+
     pub fn snapshot_path(&self) -> Option<PathBuf> {
         self.snapshot
             .as_ref()
@@ -566,13 +577,11 @@ impl RrdpState {
                 let uri = delta.uri();
                 let hash = delta.hash();
 
-                let relative_path = self.mappings.relative(uri)?;
-                let target = config.staging_path(&relative_path);
+                let rel_path = self.relative_file(uri)?;
+                let target = config.staging_path(&rel_path);
 
                 fetcher.retrieve_file(uri, hash, &target)?;
 
-                let rel_path = self.mappings.relative(uri)?;
-
                 new_deltas.push(DeltaState::create(serial, hash, rel_path));
             }
         }
@@ -679,12 +688,22 @@ impl SourceMappings {
     }
 
     /// Derives the relative path of the given URI versus the base URI.
-    /// Returns an error in case the URI is not relative to the base URI.
+    /// Returns an error in case the URI is not relative to the base URI, or
+    /// has empty or dot segments that may lead out of it.
     pub fn relative(&self, uri: &Https) -> Result<String> {
-        uri.as_str()
+        let rel_path = uri
+            .as_str()
             .strip_prefix(self.base_uri.as_str())
-            .ok_or_else(|| anyhow!("Uri {} not relative to base uri: {}", uri, self.base_uri))
-            .map(|s| s.to_string())
+            .ok_or_else(|| anyhow!("Uri {} not relative to base uri: {}", uri, self.base_uri))?;
+
+        for segment in rel_path.split('/') {
+            let decoded = segment.replace("%2e", ".").replace("%2E", ".");
+            if matches!(decoded.as_str(), "" | "." | "..") {
+                return Err(anyhow!("Uri {} has an empty or dot path segment", uri));
+            }
+        }
+
+        Ok(rel_path.to_string())
     }
 
     /// Resolve the given relative path under the base URI.
-- 
2.43.0


From 2e71485a09e66b5ce15c831d6f24fb96544d4d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:16 +0000
Subject: [PATCH 07/33] fix: refuse rsync URIs with a dot segment as host or
 module

---
 src/rsync.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rsync.rs b/src/rsync.rs
index c34748e..aec7453 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -4,7 +4,7 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use anyhow::{Context, Result};
+use anyhow::{anyhow, Context, Result};
 
 use filetime::{set_file_mtime, FileTime};
 use log::{error, info, warn};
@@ -303,6 +303,9 @@ impl ProcessSnapshot for RsyncFromSnapshotWriter {
         data: &mut rpki::rrdp::ObjectReader,
     ) -> Result<()> {
         let path = if self.include_host_and_module {
+            if matches!(uri.authority(), "." | "..") || matches!(uri.module_name(), "." | "..") {
+                return Err(anyhow!("Uri {} has a dot segment", uri));
+            }
             self.out_path.join(format!(
                 "{}/{}/{}",
                 uri.authority(),
-- 
2.43.0


From 8d868a1200341d264231cae6e749dc605960c173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:18 +0000
Subject: [PATCH 08/33] fix: never leave a partially written state file

---
 src/file_ops.rs | 22 ++++++++++++++++++++++
 src/rrdp.rs     |  2 +-
 src/rsync.rs    |  3 ++-
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index 3ea154c..023e632 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -16,6 +16,28 @@ pub fn write_buf(file_path: &Path, buf: &[u8]) -> Result<()> {
     Ok(())
 }
 
+/// Write a file by way of a temporary file that is renamed, so that there is
+/// always either the old or the complete new content at the given path.
+pub fn write_buf_atomic(file_path: &Path, buf: &[u8]) -> Result<()> {
+    let tmp_path = temporary_path(file_path);
+    write_buf(&tmp_path, buf)?;
+
+    std::fs::rename(&tmp_path, file_path).with_context(|| {
+        format!(
+            "Cannot rename {} to {}",
+            tmp_path.display(),
+            file_path.display()
+        )
+    })
+}
+
+/// A name next to the given path for content that is not complete yet.
+fn temporary_path(file_path: &Path) -> PathBuf {
+    let mut name = file_path.as_os_str().to_owned();
+    name.push(".krill-sync-tmp");
+    PathBuf::from(name)
+}
+
 /// Create an empty file for a path
 pub fn create_file(file_path: &Path) -> Result<std::fs::File> {
     create_path_for_file(file_path)?;
diff --git a/src/rrdp.rs b/src/rrdp.rs
index d519b97..5a6e0dd 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -423,7 +423,7 @@ impl RrdpState {
         debug!("Saving RRDP state to disk");
         let json = serde_json::to_string_pretty(&self)?;
 
-        file_ops::write_buf(path, json.as_bytes())
+        file_ops::write_buf_atomic(path, json.as_bytes())
             .with_context(|| format!("Could not save state to {}.", path.display()))
     }
 
diff --git a/src/rsync.rs b/src/rsync.rs
index aec7453..c0dcc11 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -179,7 +179,8 @@ impl RsyncDirState {
     fn persist(&self, config: &Config) -> Result<()> {
         let state_path = config.rsync_state_path();
         let json = serde_json::to_string_pretty(&self)?;
-        file_ops::write_buf(&state_path, json.as_bytes()).with_context(|| "Could not save state.")
+        file_ops::write_buf_atomic(&state_path, json.as_bytes())
+            .with_context(|| "Could not save state.")
     }
 
     /// Updates the current revision for this state, moves a possible
-- 
2.43.0


From fe20d8b0a9d56f912de609a4237644632e7bb524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:19 +0000
Subject: [PATCH 09/33] fix: never show partial files when moving across file
 systems

---
 src/file_ops.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index 023e632..34bfc8f 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -77,11 +77,22 @@ pub fn move_file(source_base_dir: &Path, target_base_dir: &Path, relative: &str)
     }
 
     if std::fs::rename(&original_file, &target_file).is_err() {
-        // Move failed. Try to copy and delete instead.
-        std::fs::copy(&original_file, &target_file).with_context(|| {
+        // Move failed. Try to copy and delete instead. The target may exist and
+        // be in use, so it must not be seen with partial content.
+        let tmp_file = temporary_path(&target_file);
+
+        std::fs::copy(&original_file, &tmp_file).with_context(|| {
             format!(
                 "Cannot copy file from {} to {}",
                 original_file.to_string_lossy(),
+                tmp_file.to_string_lossy()
+            )
+        })?;
+
+        std::fs::rename(&tmp_file, &target_file).with_context(|| {
+            format!(
+                "Cannot rename {} to {}",
+                tmp_file.to_string_lossy(),
                 target_file.to_string_lossy()
             )
         })?;
-- 
2.43.0


From 9f7cc5c777c92970848f82a85a66797919398e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:20 +0000
Subject: [PATCH 10/33] fix: remove a lingering temporary link that is dangling

---
 src/rsync.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsync.rs b/src/rsync.rs
index c0dcc11..f2d943f 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -74,7 +74,7 @@ fn symlink_current_to_new_revision_dir(
     let current_path = config.rsync_dir_current();
 
     let tmp_name = file_ops::path_with_extension(&current_path, config::TMP_FILE_EXT);
-    if tmp_name.exists() {
+    if tmp_name.symlink_metadata().is_ok() {
         std::fs::remove_file(&tmp_name).with_context(|| {
             format!(
                 "Could not remove lingering temporary symlink for current rsync dir at '{}'",
-- 
2.43.0


From 407cbd67dc201cf46e23b999dcf2b1f3f3bd5acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:21 +0000
Subject: [PATCH 11/33] fix: treat an unmodified response without data as an
 error

---
 src/fetch.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fetch.rs b/src/fetch.rs
index 70e35c4..5faae72 100644
--- a/src/fetch.rs
+++ b/src/fetch.rs
@@ -318,11 +318,14 @@ impl Fetcher {
             }
         }
         let source = self.resolve_source(uri)?;
-        source
+        let response = source
             .fetch(Some(hash), None, Some(target))
             .map_err(|e| anyhow!("Could not read snapshot: {}", e))?;
 
-        Ok(())
+        match response {
+            FetchResponse::Saved => Ok(()),
+            _ => Err(anyhow!("Got no data in response to GET for: {}", uri)),
+        }
     }
 
     pub fn resolve_source(&self, uri: &uri::Https) -> Result<FetchSource> {
-- 
2.43.0


From 21d01600a28247c5d4bca49389429105435d5bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:00 +0000
Subject: [PATCH 12/33] fix: refuse notifications whose deltas do not lead up
 to their serial

---
 src/rrdp.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index 5a6e0dd..c020196 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -117,8 +117,29 @@ impl RrdpState {
                         notification_file.snapshot().clone(),
                         vec![],
                     );
-                } else if !notification_file.sort_and_verify_deltas(limit) {
-                    return Err(anyhow!("Notification file contained gaps in deltas"));
+                } else {
+                    let mut serials = HashSet::new();
+                    if !notification_file
+                        .deltas()
+                        .iter()
+                        .all(|delta| serials.insert(delta.serial()))
+                    {
+                        return Err(anyhow!("Notification file contained duplicate deltas"));
+                    }
+
+                    if !notification_file.sort_and_verify_deltas(limit) {
+                        return Err(anyhow!("Notification file contained gaps in deltas"));
+                    }
+
+                    if let Some(last) = notification_file.deltas().last() {
+                        if last.serial() != notification_file.serial() {
+                            return Err(anyhow!(
+                                "Notification file has serial '{}', but deltas up to '{}'",
+                                notification_file.serial(),
+                                last.serial()
+                            ));
+                        }
+                    }
                 }
 
                 let mut session_reset = false;
-- 
2.43.0


From b8c69da11353245527bae757d6daf125706a6208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:02 +0000
Subject: [PATCH 13/33] fix: refuse snapshots and deltas that are not what the
 notification says

---
 src/rrdp.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index c020196..e1545dd 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -1,6 +1,7 @@
 use std::{
     collections::HashSet,
-    fs,
+    fs::{self, File},
+    io::BufReader,
     path::{Path, PathBuf},
 };
 
@@ -10,7 +11,7 @@ use serde::{Deserialize, Serialize};
 use uuid::Uuid;
 
 use rpki::{
-    rrdp::{self, DeltaInfo, Hash, NotificationFile, SnapshotInfo},
+    rrdp::{self, Delta, DeltaInfo, Hash, NotificationFile, Snapshot, SnapshotInfo},
     uri::Https,
 };
 
@@ -537,6 +538,18 @@ impl RrdpState {
         let target = config.staging_path(&rel_path);
         fetcher.retrieve_file(snapshot_info.uri(), snapshot_info.hash(), &target)?;
 
+        let snapshot = Snapshot::parse(BufReader::new(File::open(&target)?))
+            .with_context(|| format!("Cannot parse snapshot at uri: {}", snapshot_info.uri()))?;
+
+        if snapshot.session_id() != notification.session_id()
+            || snapshot.serial() != notification.serial()
+        {
+            return Err(anyhow!(
+                "Snapshot at uri: {} is for another session or serial",
+                snapshot_info.uri()
+            ));
+        }
+
         Ok(SnapshotState::create(
             notification.session_id(),
             notification.serial(),
@@ -603,6 +616,15 @@ impl RrdpState {
 
                 fetcher.retrieve_file(uri, hash, &target)?;
 
+                let delta = Delta::parse(BufReader::new(File::open(&target)?))
+                    .with_context(|| format!("Cannot parse delta at uri: {uri}"))?;
+
+                if delta.session_id() != notification.session_id() || delta.serial() != serial {
+                    return Err(anyhow!(
+                        "Delta at uri: {uri} is for another session or serial"
+                    ));
+                }
+
                 new_deltas.push(DeltaState::create(serial, hash, rel_path));
             }
         }
-- 
2.43.0


From bb9889ed763b2aced93392c7861832d5d4258865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:57 +0000
Subject: [PATCH 14/33] fix: do not use state of another notification URI or
 RRDP directory

---
 src/process.rs |  2 +-
 src/rrdp.rs    | 35 ++++++++++++++++++++++++++++++-----
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index ec3fcb9..aea23b6 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -15,7 +15,7 @@ pub fn process(config: &Config) -> Result<()> {
     //  - create a new state based on config
     // ===================================================================
     let mut rrdp_state = if config.rrdp_state_path().exists() {
-        RrdpState::recover(&config.rrdp_state_path())?
+        RrdpState::recover(&config.rrdp_state_path())?.for_config(config)?
     } else {
         RrdpState::create(config)?
     };
diff --git a/src/rrdp.rs b/src/rrdp.rs
index e1545dd..c007bd2 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -94,6 +94,27 @@ impl RrdpState {
         Ok(recovered)
     }
 
+    /// Use this state for the given configuration. Starts with an empty state if
+    /// the notification URI or the RRDP directory are no longer the same.
+    pub fn for_config(self, config: &Config) -> Result<Self> {
+        if self.notification_source.uri == config.notification_uri
+            && self.mappings == SourceMappings::build(config)?
+        {
+            return Ok(self);
+        }
+
+        warn!("The notification URI or RRDP directory changed, will not use the prior state.");
+        let mut state = Self::create(config)?;
+
+        if self.mappings.rrdp_dir == state.mappings.rrdp_dir {
+            // The files of the prior state will need to be cleaned up.
+            state.superseded_files = self.published_files();
+            state.deprecated_files = self.deprecated_files;
+        }
+
+        Ok(state)
+    }
+
     /// Get updates and saved them into the staging directory.
     ///
     /// Returns:
@@ -412,11 +433,7 @@ impl RrdpState {
 
         // Files can become current again, e.g. when the source returns to an
         // earlier session. They must not be removed.
-        let in_use: HashSet<PathBuf> = self
-            .snapshot_path()
-            .into_iter()
-            .chain(self.deltas.iter().map(|d| self.mappings.path(d.rel_path())))
-            .collect();
+        let in_use: HashSet<PathBuf> = self.published_files().into_iter().collect();
         self.deprecated_files.retain(|d| !in_use.contains(&d.path));
 
         for deprecated in self
@@ -577,6 +594,14 @@ impl RrdpState {
             .map(|snapshot| self.mappings.path(snapshot.rel_path()))
     }
 
+    /// The paths of the current snapshot and deltas.
+    fn published_files(&self) -> Vec<PathBuf> {
+        self.snapshot_path()
+            .into_iter()
+            .chain(self.deltas.iter().map(|d| self.mappings.path(d.rel_path())))
+            .collect()
+    }
+
     pub fn snapshot(&self) -> Option<&SnapshotState> {
         self.snapshot.as_ref()
     }
-- 
2.43.0


From 2c78767a2a227aa7c1003316f71d2e86c6da71bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:05 +0000
Subject: [PATCH 15/33] fix: notice that an earlier update was not completed

---
 src/process.rs |  1 +
 src/rrdp.rs    | 17 +++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/process.rs b/src/process.rs
index aea23b6..6f5a9b6 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -105,6 +105,7 @@ pub fn process(config: &Config) -> Result<()> {
     // - updates the RrdpState with new content,
     // - deprecate old files
     // - move new snapshot and deltas to the target RRDP dir
+    rrdp_state.start_publication(config)?;
     rrdp_state.apply_staged_changed(staged, config)?;
 
     // ===================================================================
diff --git a/src/rrdp.rs b/src/rrdp.rs
index c007bd2..ec7a39e 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -44,6 +44,11 @@ pub struct RrdpState {
     #[serde(skip)]
     superseded_files: Vec<PathBuf>,
 
+    /// Set while new content is being published. If it is found set, then that
+    /// was interrupted and this state may not match what is published.
+    #[serde(default)]
+    incomplete: bool,
+
     /// Embedded validator
     #[serde(skip_serializing_if = "Option::is_none")]
     validator: Option<Validator>,
@@ -64,6 +69,7 @@ impl RrdpState {
             deltas: vec![],
             deprecated_files: vec![],
             superseded_files: vec![],
+            incomplete: false,
             validator: None,
         })
     }
@@ -180,6 +186,10 @@ impl RrdpState {
                                     notification_file.serial()
                                 )
                             }
+                            std::cmp::Ordering::Equal if self.incomplete => {
+                                // we may have published other content since
+                                debug!("An earlier update was not completed.")
+                            }
                             std::cmp::Ordering::Equal => {
                                 // no change, session and serial unchanged
                                 debug!("Notification file unchanged (etag not supported?), no update needed.");
@@ -380,6 +390,12 @@ impl RrdpState {
             .unwrap_or(true)
     }
 
+    /// Remember that new content is going to be published.
+    pub fn start_publication(&mut self, config: &Config) -> Result<()> {
+        self.incomplete = true;
+        self.persist(&config.rrdp_state_path())
+    }
+
     /// Apply staged changes.
     ///
     /// - updates the RrdpState with new content
@@ -510,6 +526,7 @@ impl RrdpState {
 
         self.deprecated_files
             .extend(self.superseded_files.drain(..).map(DeprecatedFile::new));
+        self.incomplete = false;
 
         Ok(())
     }
-- 
2.43.0


From 34a4ceb34a97ed9a40c917650dfd5d9c994e401d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:00 +0000
Subject: [PATCH 16/33] fix: never write into an rsync directory that is or was
 served

---
 src/rsync.rs | 60 ++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 58 insertions(+), 2 deletions(-)

diff --git a/src/rsync.rs b/src/rsync.rs
index f2d943f..d1fc5eb 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -36,7 +36,9 @@ pub fn update_from_rrdp_state(rrdp_state: &RrdpState, config: &Config) -> Result
 
     let mut rsync_state = RsyncDirState::recover(config)?;
 
-    let new_revision = RsyncRevision { session_id, serial };
+    let linked_dir = linked_dir_name(config);
+    let new_revision = rsync_state.new_revision(session_id, serial, linked_dir.as_deref());
+    new_revision.remove_remains(config)?;
 
     let mut writer = RsyncFromSnapshotWriter {
         out_path: new_revision.path(config),
@@ -59,6 +61,13 @@ pub fn update_from_rrdp_state(rrdp_state: &RrdpState, config: &Config) -> Result
     Ok(())
 }
 
+/// The name of the directory that the current symlink points to.
+fn linked_dir_name(config: &Config) -> Option<String> {
+    std::fs::read_link(config.rsync_dir_current())
+        .ok()
+        .and_then(|target| target.to_str().map(str::to_string))
+}
+
 /// Create a new symlink then rename it. We need to do this because the std library
 /// refuses to overwrite an existing symlink. And if we were to remove it first, then
 /// we would introduce a race condition for clients accessing.
@@ -183,6 +192,26 @@ impl RsyncDirState {
             .with_context(|| "Could not save state.")
     }
 
+    /// Makes a revision with a directory that is not known in this state and
+    /// that is not the given directory in use, so that content that is served,
+    /// or was, is not altered when a session and serial are seen again.
+    fn new_revision(&self, session_id: Uuid, serial: u64, in_use: Option<&str>) -> RsyncRevision {
+        let mut revision = RsyncRevision {
+            session_id,
+            serial,
+            attempt: 0,
+        };
+
+        while self.current.as_ref() == Some(&revision)
+            || self.old.iter().any(|old| old.revision == revision)
+            || in_use == Some(revision.dir_name().as_str())
+        {
+            revision.attempt += 1;
+        }
+
+        revision
+    }
+
     /// Updates the current revision for this state, moves a possible
     /// existing current state to old.
     fn update_current(&mut self, current: RsyncRevision) {
@@ -234,11 +263,38 @@ struct RsyncRevision {
     #[serde(deserialize_with = "util::de_uuid", serialize_with = "util::ser_uuid")]
     session_id: Uuid,
     serial: u64,
+
+    /// Set if the same session and serial were written before.
+    #[serde(default, skip_serializing_if = "is_first")]
+    attempt: u64,
+}
+
+fn is_first(attempt: &u64) -> bool {
+    *attempt == 0
 }
 
 impl RsyncRevision {
     fn dir_name(&self) -> String {
-        format!("session_{}_serial_{}", self.session_id, self.serial)
+        let name = format!("session_{}_serial_{}", self.session_id, self.serial);
+
+        if is_first(&self.attempt) {
+            name
+        } else {
+            format!("{}_{}", name, self.attempt)
+        }
+    }
+
+    /// Removes what an interrupted run may have left in our directory.
+    fn remove_remains(&self, config: &Config) -> Result<()> {
+        let path = self.path(config);
+
+        if path.exists() {
+            std::fs::remove_dir_all(&path).with_context(|| {
+                format!("Could not remove incomplete rsync dir at: {}", path.display())
+            })
+        } else {
+            Ok(())
+        }
     }
 
     fn path(&self, config: &Config) -> PathBuf {
-- 
2.43.0


From f886c12e26d968a7d3114215d55d5a9ed31aafe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:07 +0000
Subject: [PATCH 17/33] fix: know the current rsync directory also after an
 interruption

---
 src/rsync.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/rsync.rs b/src/rsync.rs
index d1fc5eb..e23c1dd 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -47,13 +47,19 @@ pub fn update_from_rrdp_state(rrdp_state: &RrdpState, config: &Config) -> Result
     writer.create_out_path_if_missing()?;
     writer.for_snapshot_path(&snapshot_path)?;
 
+    // Save the state first, so that all directories that ever were current are
+    // known even if this is interrupted, and will be kept and cleaned in time.
+    let previous = rsync_state.current.clone();
+    rsync_state.update_current(new_revision.clone());
+    rsync_state.persist(config)?;
+
     if config.rsync_dir_use_symlinks() {
         symlink_current_to_new_revision_dir(&new_revision, config)?;
     } else {
-        rename_new_revision_dir_to_current(&new_revision, &rsync_state, config)?;
+        rename_new_revision_dir_to_current(&new_revision, previous.as_ref(), config)?;
     }
 
-    rsync_state.update_current(new_revision);
+    rsync_state.deprecate_linked(linked_dir.as_deref());
 
     rsync_state.clean_old(config)?;
     rsync_state.persist(config)?;
@@ -115,14 +121,14 @@ fn symlink_current_to_new_revision_dir(
 /// revision.
 fn rename_new_revision_dir_to_current(
     new_revision: &RsyncRevision,
-    rsync_state: &RsyncDirState,
+    previous: Option<&RsyncRevision>,
     config: &Config,
 ) -> Result<()> {
     info!("Renaming rsync folders for close to atomic update of the rsync module dir");
 
     let current_path = config.rsync_dir_current();
 
-    if let Some(current) = &rsync_state.current {
+    if let Some(current) = previous {
         let current_preserve_path = current.path(config);
 
         if current_path.exists() {
@@ -221,6 +227,15 @@ impl RsyncDirState {
         }
     }
 
+    /// The directory that was linked as current is deprecated from now on.
+    fn deprecate_linked(&mut self, linked_dir: Option<&str>) {
+        for old in self.old.iter_mut() {
+            if Some(old.revision.dir_name().as_str()) == linked_dir {
+                old.since = Time::now();
+            }
+        }
+    }
+
     /// Cleans old directories from disk when their time has come, and updates
     /// this state (forgets these old versions). Will throw an error if removing
     /// an old dir fails, but will simply skip removing old dirs if they had
-- 
2.43.0


From 3e59d666456a272f422e63922b5a9c59825b1256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:25 +0000
Subject: [PATCH 18/33] fix: always validate exactly the staged content

---
 src/validation/validator.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 27ceafe..521fa37 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -68,8 +68,11 @@ impl Validator {
     /// Ensure that the staged data is updated even if we are
     /// running in offline mode.
     pub fn initialise_staging_data(&mut self, notify_uri: &uri::Https) -> Result<()> {
-        self.repositories
-            .get_latest(notify_uri, false, Time::now())?;
+        // Do not use cached data, not even if it was just retrieved: we need to
+        // validate exactly the staged content.
+        let fetcher = self.repositories.get_fetcher(notify_uri);
+        let data = VisitedRepositories::retrieve_new_repository(&fetcher, Time::now())?;
+        self.repositories.data.insert(notify_uri.into(), data);
         Ok(())
     }
 
-- 
2.43.0


From f5d6c692d00f222373b8b64059a4f46d2ecce5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:26 +0000
Subject: [PATCH 19/33] fix: report revoked router certificates

---
 src/validation/validator.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 521fa37..a6f1591 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -389,6 +389,14 @@ impl Validator {
                                     }
                                 } else {
                                     // This should be a BGPSec router (EE) certificate
+                                    if crl.contains(child_cert.serial_number()) {
+                                        ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                                            uri,
+                                            "router certificate was revoked",
+                                        ));
+                                        continue;
+                                    }
+
                                     match child_cert.validate_router_at(resource_cert, strict, when)
                                     {
                                         Ok(_) => {
-- 
2.43.0


From 1b3b6d3d2101f707e6bfa75a2ea83e3c542e27b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:27 +0000
Subject: [PATCH 20/33] fix: report stale manifests

---
 src/validation/validator.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index a6f1591..9f10dff 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -194,6 +194,15 @@ impl Validator {
                 }
             };
 
+            if content.next_update() < when {
+                ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                    mft_uri_string,
+                    "Manifest is stale",
+                ));
+                report.add_cert(ca_cert);
+                return report;
+            }
+
             #[allow(clippy::mutable_key_type)]
             let mut mft_entries: HashMap<_, _> = content
                 .iter_uris(sia_ca)
-- 
2.43.0


From 52d2ae580aad8be86ad2977c0ec4d0b86a35ff51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:20 +0000
Subject: [PATCH 21/33] fix: do not follow CA certificate loops

---
 src/validation/validator.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 9f10dff..11b3812 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -6,6 +6,7 @@ use bytes::Bytes;
 use chrono::Duration;
 use log::{debug, info, trace, warn};
 use rpki::{
+    crypto::KeyIdentifier,
     repository::{
         aspa::Aspa, error::VerificationError, x509::Time, Cert, Crl, Manifest, ResourceCert, Roa,
     },
@@ -22,6 +23,9 @@ use super::{
     ValidatedChild, ValidatedRoa, ValidatedRouterCert, ValidationIssue, ValidationReport,
 };
 
+/// The maximum number of CAs below a TA in a chain of certificates.
+const MAX_CA_DEPTH: usize = 32;
+
 #[derive(Debug, Deserialize, Serialize)]
 pub struct Validator {
     tals: Vec<Tal>,
@@ -102,13 +106,14 @@ impl Validator {
         let info = ValidatedCaCertInfo::try_from(&ta_cert)
             .map_err(|e| anyhow!(format!("Invalid TA certificate: {e}")))?;
 
-        Ok(self.validate_tree_at(&ta_cert, &info, offline, when))
+        Ok(self.validate_tree_at(&ta_cert, &info, &mut vec![], offline, when))
     }
 
     fn validate_tree_at(
         &mut self,
         resource_cert: &ResourceCert,
         ca_cert_info: &ValidatedCaCertInfo,
+        ca_keys: &mut Vec<KeyIdentifier>,
         offline: bool,
         when: Time,
     ) -> ValidationReport {
@@ -354,11 +359,23 @@ impl Validator {
                             Ok(child_cert) => {
                                 if child_cert.is_ca() {
                                     // This could be a CA certificate delegated to a child
+                                    let child_key = child_cert.subject_key_identifier();
+
                                     if crl.contains(child_cert.serial_number()) {
                                         ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
                                             uri,
                                             "certificate was revoked",
                                         ));
+                                    } else if child_key == resource_cert.subject_key_identifier()
+                                        || ca_keys.contains(&child_key)
+                                        || ca_keys.len() >= MAX_CA_DEPTH
+                                    {
+                                        // Do not follow certificates that lead back to
+                                        // a CA above, or ever deeper.
+                                        ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                                            uri,
+                                            "certificate makes the CA chain loop or too long",
+                                        ));
                                     } else {
                                         match child_cert.validate_ca_at(resource_cert, strict, when)
                                         {
@@ -474,9 +491,11 @@ impl Validator {
         report.add_cert(ca_cert);
 
         // recurse child certificates
+        ca_keys.push(resource_cert.subject_key_identifier());
         for (cert, info) in child_certificates {
-            report.add_other(self.validate_tree_at(&cert, &info, offline, when));
+            report.add_other(self.validate_tree_at(&cert, &info, ca_keys, offline, when));
         }
+        ca_keys.pop();
 
         report
     }
-- 
2.43.0


From 10c85e17a3bd24ef9449ec51b6b8c72f3d97c07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:27 +0000
Subject: [PATCH 22/33] fix: do not panic on extreme times

---
 src/util.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 9fe75a5..4d30437 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -20,7 +20,7 @@ impl Time {
 
     pub fn seconds_ago(seconds: i64) -> Self {
         let mut now = Self::now();
-        now.0 -= seconds;
+        now.0 = now.0.saturating_sub(seconds);
         now
     }
 
@@ -31,8 +31,10 @@ impl Time {
 
 impl fmt::Display for Time {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let time = Local.timestamp_opt(self.0, 0).unwrap();
-        write!(f, "{}", time.to_rfc3339())
+        match Local.timestamp_opt(self.0, 0).single() {
+            Some(time) => write!(f, "{}", time.to_rfc3339()),
+            None => write!(f, "{}", self.0),
+        }
     }
 }
 
-- 
2.43.0


From d35afe440989bb9f5731a5a3e90be1cf543ef0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 23/33] fix: record new content before it is published

---
 src/process.rs |  5 ++++-
 src/rrdp.rs    | 40 +++++++++++++++++++++++++---------------
 2 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 6f5a9b6..44b8926 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -105,9 +105,12 @@ pub fn process(config: &Config) -> Result<()> {
     // - updates the RrdpState with new content,
     // - deprecate old files
     // - move new snapshot and deltas to the target RRDP dir
-    rrdp_state.start_publication(config)?;
     rrdp_state.apply_staged_changed(staged, config)?;
 
+    // Persist the state, marked as incomplete, before anything is published, so
+    // that an interrupted update is noticed and its files are known.
+    rrdp_state.persist(&config.rrdp_state_path())?;
+
     // ===================================================================
     // Update rsync state, if rsync support is enabled
     // ===================================================================
diff --git a/src/rrdp.rs b/src/rrdp.rs
index ec7a39e..1e6bccf 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::HashSet,
+    collections::{BTreeSet, HashSet},
     fs::{self, File},
     io::BufReader,
     path::{Path, PathBuf},
@@ -41,7 +41,7 @@ pub struct RrdpState {
     deprecated_files: Vec<DeprecatedFile>,
 
     /// Files that are deprecated as soon as the new notification is written
-    #[serde(skip)]
+    #[serde(default)]
     superseded_files: Vec<PathBuf>,
 
     /// Set while new content is being published. If it is found set, then that
@@ -115,6 +115,9 @@ impl RrdpState {
         if self.mappings.rrdp_dir == state.mappings.rrdp_dir {
             // The files of the prior state will need to be cleaned up.
             state.superseded_files = self.published_files();
+            state
+                .superseded_files
+                .extend(self.superseded_files.iter().cloned());
             state.deprecated_files = self.deprecated_files;
         }
 
@@ -170,7 +173,9 @@ impl RrdpState {
                     }
                 }
 
-                let mut session_reset = false;
+                // If an earlier update was not completed, then we do not know what
+                // is published, so start over just like for a new session.
+                let mut session_reset = self.incomplete;
 
                 if let Some(snapshot) = &self.snapshot {
                     if snapshot.session_id() != notification_file.session_id() {
@@ -390,17 +395,13 @@ impl RrdpState {
             .unwrap_or(true)
     }
 
-    /// Remember that new content is going to be published.
-    pub fn start_publication(&mut self, config: &Config) -> Result<()> {
-        self.incomplete = true;
-        self.persist(&config.rrdp_state_path())
-    }
-
     /// Apply staged changes.
     ///
     /// - updates the RrdpState with new content
     /// - deprecate old files
     /// - move new snapshot and deltas to the target RRDP dir
+    ///
+    /// The state is incomplete until the notification is written.
     pub fn apply_staged_changed(
         &mut self,
         mut staged: StagedChanges,
@@ -440,6 +441,8 @@ impl RrdpState {
         self.deltas.sort_by_key(|d| d.serial());
         self.deltas.reverse();
 
+        self.incomplete = true;
+
         Ok(())
     }
 
@@ -447,11 +450,6 @@ impl RrdpState {
     pub fn clean(&mut self, config: &Config) -> Result<()> {
         let clean_before = Time::seconds_ago(config.cleanup_after);
 
-        // Files can become current again, e.g. when the source returns to an
-        // earlier session. They must not be removed.
-        let in_use: HashSet<PathBuf> = self.published_files().into_iter().collect();
-        self.deprecated_files.retain(|d| !in_use.contains(&d.path));
-
         for deprecated in self
             .deprecated_files
             .iter()
@@ -524,8 +522,20 @@ impl RrdpState {
             )
         })?;
 
+        // Files can become current again, e.g. when the source returns to an
+        // earlier session. They must not be removed, and if they are superseded
+        // again, then they are deprecated from now on.
+        let in_use: BTreeSet<PathBuf> = self.published_files().into_iter().collect();
+        let superseded: BTreeSet<PathBuf> = self.superseded_files.drain(..).collect();
+
         self.deprecated_files
-            .extend(self.superseded_files.drain(..).map(DeprecatedFile::new));
+            .retain(|d| !in_use.contains(&d.path) && !superseded.contains(&d.path));
+        self.deprecated_files.extend(
+            superseded
+                .difference(&in_use)
+                .cloned()
+                .map(DeprecatedFile::new),
+        );
         self.incomplete = false;
 
         Ok(())
-- 
2.43.0


From 799e9efcd55bc36cec424812822d6d3e3123b20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:33 +0000
Subject: [PATCH 24/33] fix: do not follow redirects to plain HTTP unless
 insecure

---
 src/fetch.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fetch.rs b/src/fetch.rs
index 5faae72..f249972 100644
--- a/src/fetch.rs
+++ b/src/fetch.rs
@@ -108,6 +108,8 @@ impl FetchSource {
                 let client = Client::builder()
                     .danger_accept_invalid_certs(mode.accept_insecure())
                     .danger_accept_invalid_hostnames(mode.accept_insecure())
+                    // do not follow redirects to unverified (plain HTTP) servers
+                    .https_only(!mode.accept_insecure())
                     .timeout(Duration::from_secs(60))
                     .build()?;
 
-- 
2.43.0


From 7b5a24acac5412ed12a8d1e6cf8cdcf3aef78bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:08 +0000
Subject: [PATCH 25/33] fix: do not panic on invalid file names on a manifest

---
 src/validation/validator.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 11b3812..d74d5dd 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -8,7 +8,8 @@ use log::{debug, info, trace, warn};
 use rpki::{
     crypto::KeyIdentifier,
     repository::{
-        aspa::Aspa, error::VerificationError, x509::Time, Cert, Crl, Manifest, ResourceCert, Roa,
+        aspa::Aspa, error::VerificationError, manifest::ManifestHash, x509::Time, Cert, Crl,
+        Manifest, ResourceCert, Roa,
     },
     rrdp::{self, Delta, DeltaElement, NotificationFile, Snapshot},
     uri,
@@ -209,10 +210,22 @@ impl Validator {
             }
 
             #[allow(clippy::mutable_key_type)]
-            let mut mft_entries: HashMap<_, _> = content
-                .iter_uris(sia_ca)
-                .map(|(k, v)| (UriString::from(k), v))
-                .collect();
+            let mut mft_entries: HashMap<UriString, ManifestHash> = HashMap::new();
+            for entry in content.iter() {
+                let (file, hash) = entry.into_pair();
+                match sia_ca.join(file.as_ref()) {
+                    Ok(uri) => {
+                        mft_entries.insert(
+                            uri.into(),
+                            ManifestHash::new(hash, content.file_hash_alg()),
+                        );
+                    }
+                    Err(e) => ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                        mft_uri.into(),
+                        format!("Invalid file name on manifest: {e}"),
+                    )),
+                }
+            }
 
             let crl_uri = match mft_cert.crl_uri() {
                 Some(uri) => UriString::from(uri),
-- 
2.43.0


From 418f5d6000ab89d27a1c2e4f3d32948482afed52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:29 +0000
Subject: [PATCH 26/33] fix: accept a source-uri-base that is not UTF-8

---
 src/config.rs |  3 ++-
 src/fetch.rs  | 11 +++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index ce0f877..578970f 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -122,7 +122,8 @@ pub struct Config {
     #[structopt(
         long = "source-uri-base",
         alias = "source_uri_base",
-        value_name = "uri"
+        value_name = "uri",
+        parse(from_os_str)
     )]
     pub source_uri_base: Option<FetchSource>,
 
diff --git a/src/fetch.rs b/src/fetch.rs
index f249972..652e2b4 100644
--- a/src/fetch.rs
+++ b/src/fetch.rs
@@ -1,4 +1,5 @@
 use std::{
+    ffi::OsStr,
     fmt::{self, Debug},
     path::{Path, PathBuf},
     str::FromStr,
@@ -233,6 +234,16 @@ impl FromStr for FetchSource {
     }
 }
 
+impl From<&OsStr> for FetchSource {
+    fn from(s: &OsStr) -> Self {
+        match s.to_str().map(str::parse) {
+            Some(Ok(source)) => source,
+            Some(Err(never)) => match never {},
+            None => FetchSource::File(PathBuf::from(s)),
+        }
+    }
+}
+
 //------------ FetchMap ------------------------------------------------------
 
 #[derive(Clone, Debug, Deserialize, Eq, PartialEq, Serialize)]
-- 
2.43.0


From 8d9749f13c401a5d4ecedaa410e1273fbae22343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:51 +0000
Subject: [PATCH 27/33] fix: use a temporary name that no source file can have

A file of the source may be called like another one with .krill-sync-tmp
appended. When the latter was copied to the RRDP directory on another file
system, the former was overwritten and removed while it was listed. Long
file names could not be copied at all.
---
 src/file_ops.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index 34bfc8f..8b6f95a 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -31,11 +31,10 @@ pub fn write_buf_atomic(file_path: &Path, buf: &[u8]) -> Result<()> {
     })
 }
 
-/// A name next to the given path for content that is not complete yet.
+/// A path next to the given path for content that is not complete yet. The
+/// name has a space, so it cannot be the name of a file from a URI.
 fn temporary_path(file_path: &Path) -> PathBuf {
-    let mut name = file_path.as_os_str().to_owned();
-    name.push(".krill-sync-tmp");
-    PathBuf::from(name)
+    file_path.with_file_name("krill-sync tmp")
 }
 
 /// Create an empty file for a path
-- 
2.43.0


From 0de0b704edcf6bfde052a9c8aa4485c4212de6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:47 +0000
Subject: [PATCH 28/33] fix: report an object that a manifest lists with
 different hashes

---
 src/validation/validator.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index d74d5dd..83d7989 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -215,10 +215,15 @@ impl Validator {
                 let (file, hash) = entry.into_pair();
                 match sia_ca.join(file.as_ref()) {
                     Ok(uri) => {
-                        mft_entries.insert(
-                            uri.into(),
-                            ManifestHash::new(hash, content.file_hash_alg()),
-                        );
+                        let uri = UriString::from(uri);
+                        let hash = ManifestHash::new(hash, content.file_hash_alg());
+                        let other = mft_entries.insert(uri.clone(), hash.clone());
+                        if other.is_some_and(|other| other != hash) {
+                            ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                                uri,
+                                "Manifest lists object with different hashes",
+                            ));
+                        }
                     }
                     Err(e) => ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
                         mft_uri.into(),
-- 
2.43.0


From 2bbbd734423c700f1a2e1f9959e37d575723f280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:42 +0000
Subject: [PATCH 29/33] fix: do not use repository data that deltas did not
 bring to the announced serial

---
 src/validation/validator.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 83d7989..2ef960f 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -799,6 +799,16 @@ impl VisitedRepositories {
             }
         }
 
+        // Ensure that we now have the content for the notification file: the deltas
+        // may not lead up to its serial, or it may be for an earlier serial.
+        if data.serial != notification.serial() {
+            return Err(anyhow!(
+                "no delta path to {}, deltas lead to {}",
+                notification.serial(),
+                data.serial
+            ));
+        }
+
         data.etag = etag;
         data.last_fetch = when;
         data.fetched = true;
-- 
2.43.0


From 28c83fc3951c616fc88abe0b37cc264400176bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:42 +0000
Subject: [PATCH 30/33] fix: do not overflow on the highest serial of a
 repository

---
 src/validation/validator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 2ef960f..9d5a4b0 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -738,7 +738,7 @@ impl VisitedRepositories {
 
         // Ensure that we have all deltas needed for our
         // current data serial.
-        if first_delta.serial() > data.serial + 1 {
+        if first_delta.serial() > data.serial.saturating_add(1) {
             return Err(anyhow!(
                 "no delta path from {} to {}",
                 data.serial,
@@ -748,7 +748,7 @@ impl VisitedRepositories {
 
         // Retrieve and apply deltas
         for delta_info in notification.deltas() {
-            if delta_info.serial() != data.serial + 1 {
+            if Some(delta_info.serial()) != data.serial.checked_add(1) {
                 // skip deltas that are already processed.
                 continue;
             } else {
-- 
2.43.0


From 6353270c7d21f8addfc62a80b7a6e9751ed34b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:15 +0000
Subject: [PATCH 31/33] fix: state directories that are not UTF-8 no longer put
 the default RRDP and rsync directories elsewhere

---
 src/config.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 578970f..50e787c 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -48,10 +48,12 @@ trait Replace {
 }
 
 impl Replace for PathBuf {
+    /// Replaces the leading path. Paths need not be UTF-8.
     fn replace(&self, from_str: &str, to: &Path) -> PathBuf {
-        let to_str = format!("{}", to.display());
-        let self_str = format!("{}", self.display());
-        PathBuf::from(self_str.replace(from_str, &to_str))
+        match self.strip_prefix(from_str) {
+            Ok(relative) => to.join(relative),
+            Err(_) => self.clone(),
+        }
     }
 }
 
-- 
2.43.0


From 8e5f3de634998811ae5bf125f78ba8e0268f0329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:46 +0000
Subject: [PATCH 32/33] fix: keep an rsync directory of version 0.3.1 that
 returned and is replaced for the cleanup time

The state of version 0.3.1 may list the current revision as an old one as
well, when the source had returned to an earlier session. The record of the
old time led to removal of the directory as soon as it was replaced.
---
 src/rsync.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rsync.rs b/src/rsync.rs
index e23c1dd..6cfc5b6 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -223,6 +223,8 @@ impl RsyncDirState {
     fn update_current(&mut self, current: RsyncRevision) {
         let existing = std::mem::replace(&mut self.current, Some(current));
         if let Some(existing) = existing {
+            // Version 0.3.1 could return to an old revision and still have it listed
+            self.old.retain(|old| old.revision != existing);
             self.old.push(existing.deprecate());
         }
     }
-- 
2.43.0


From edd75e8805381b3b6f897dd441918c75e3217036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:55 +0000
Subject: [PATCH 33/33] fix: empty the staging area after an update was
 published

Every update left the directories of its files there, and everything that was
staged for updates that failed or were rejected stayed for good.
---
 src/file_ops.rs | 25 +++++++++++++++++++++++++
 src/process.rs  | 11 +++++++++--
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index 8b6f95a..eecfb64 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -107,6 +107,31 @@ pub fn move_file(source_base_dir: &Path, target_base_dir: &Path, relative: &str)
     Ok(())
 }
 
+/// Removes everything that is in the given directory, if that exists.
+pub fn remove_dir_content(dir: &Path) -> Result<()> {
+    if !dir.is_dir() {
+        return Ok(());
+    }
+
+    let entries =
+        std::fs::read_dir(dir).with_context(|| format!("Cannot read dir {}", dir.display()))?;
+
+    for entry in entries {
+        let entry = entry.with_context(|| format!("Cannot read dir {}", dir.display()))?;
+        let path = entry.path();
+
+        if entry.file_type().map(|kind| kind.is_dir()).unwrap_or(false) {
+            std::fs::remove_dir_all(&path)
+                .with_context(|| format!("Cannot remove dir {}", path.display()))?;
+        } else {
+            std::fs::remove_file(&path)
+                .with_context(|| format!("Cannot remove file {}", path.display()))?;
+        }
+    }
+
+    Ok(())
+}
+
 pub fn remove_file_and_empty_parent_dirs(path: &Path) -> Result<()> {
     if path.is_file() {
         std::fs::remove_file(path)
diff --git a/src/process.rs b/src/process.rs
index 44b8926..3406e58 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -3,7 +3,7 @@ use std::{process::Command, str::from_utf8};
 use anyhow::{anyhow, Result};
 use log::{debug, error, info};
 
-use crate::{config::Config, rrdp::RrdpState, rsync};
+use crate::{config::Config, file_ops, rrdp::RrdpState, rsync};
 
 /// Responsible for the main krill-sync process
 pub fn process(config: &Config) -> Result<()> {
@@ -160,7 +160,14 @@ pub fn process(config: &Config) -> Result<()> {
     rrdp_state.clean(config)?;
     rrdp_state.persist(&config.rrdp_state_path())?;
 
-    Ok(())
+    // ===================================================================
+    // Clean up the staging area
+    // ===================================================================
+    //
+    // Nothing in it is needed any longer: this update was moved from there,
+    // which leaves directories behind, and what was staged for an earlier
+    // update that was never completed is not used for the next one.
+    file_ops::remove_dir_content(&config.staging_dir())
 }
 
 #[cfg(test)]
-- 
2.43.0

