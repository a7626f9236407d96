From 71b106f64bf5d9d6f347bb2af233a9a8da0642b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:33 +0000
Subject: [PATCH 01/43] fix: moving or copying a package never deletes the copy
 or the source itself

move_package removed the version from every search path, including the
destination it had just written; copy_package, cp and mv with force deleted
the source when it was also the destination.
---
 crates/rez-next-package/src/package_copy.rs | 21 ++++++++++++--
 crates/rez-next-package/src/package_move.rs | 31 +++++++++++----------
 src/cli/commands/cp.rs                      | 10 +++++++
 src/cli/commands/mv.rs                      | 10 +++++++
 4 files changed, 56 insertions(+), 16 deletions(-)

diff --git a/crates/rez-next-package/src/package_copy.rs b/crates/rez-next-package/src/package_copy.rs
index e678e7e..078d665 100644
--- a/crates/rez-next-package/src/package_copy.rs
+++ b/crates/rez-next-package/src/package_copy.rs
@@ -101,6 +101,13 @@ pub fn copy_package(
     // Check destination
     if dest.exists() {
         if config.force {
+            // Overwriting the source with its own copy would destroy the package.
+            if normalize_path(&dest) == normalize_path(&src) {
+                return Err(PackageCopyError::Other(format!(
+                    "Cannot copy a package onto itself: {}",
+                    dest.display()
+                )));
+            }
             fs::remove_dir_all(&dest)?;
         } else {
             return Err(PackageCopyError::DestinationExists {
@@ -130,6 +137,16 @@ pub fn find_package_dir(
     name: &str,
     version: &str,
     search_paths: &[PathBuf],
+) -> Result<PathBuf, PackageCopyError> {
+    locate_package_dir(name, version, search_paths).map(|dir| normalize_path(&dir))
+}
+
+/// Like [`find_package_dir`], but returns the path as spelled by the search path
+/// (symlinks are not resolved).
+pub(crate) fn locate_package_dir(
+    name: &str,
+    version: &str,
+    search_paths: &[PathBuf],
 ) -> Result<PathBuf, PackageCopyError> {
     for base in search_paths {
         // Check both version and version subdir patterns
@@ -138,9 +155,9 @@ pub fn find_package_dir(
             base.join(name).join(format!("{}-{}", name, version)),
         ];
 
-        for candidate in &candidates {
+        for candidate in candidates {
             if candidate.exists() && candidate.is_dir() {
-                return Ok(normalize_path(candidate));
+                return Ok(candidate);
             }
         }
     }
diff --git a/crates/rez-next-package/src/package_move.rs b/crates/rez-next-package/src/package_move.rs
index 130f8f5..d2f1fb8 100644
--- a/crates/rez-next-package/src/package_move.rs
+++ b/crates/rez-next-package/src/package_move.rs
@@ -13,7 +13,7 @@ use std::path::{Path, PathBuf};
 use thiserror::Error;
 
 use crate::package_copy::{self, PackageCopyConfig, PackageCopyError};
-use crate::package_remove::{self, PackageRemoveConfig, PackageRemoveError};
+use crate::package_remove::PackageRemoveError;
 
 /// Errors that can occur during package move operations.
 #[derive(Debug, Error)]
@@ -84,22 +84,12 @@ impl PackageMoveConfig {
             normalize_paths: self.normalize_paths,
         }
     }
-
-    /// Create a PackageRemoveConfig from this move config.
-    fn to_remove_config(&self) -> PackageRemoveConfig {
-        PackageRemoveConfig {
-            packages_path: self.packages_path.clone(),
-            force: true, // We always force remove during move
-            prune_empty_families: true,
-        }
-    }
 }
 
 /// Move a package from one location to another.
 ///
 /// This is the domain-level implementation, aligned with rez's `move_package()`.
-/// It delegates to `copy_package` and `remove_package_version` — following
-/// the Single Responsibility Principle: each operation does one thing.
+/// It delegates to `copy_package`, then removes exactly the directory that was copied.
 ///
 /// # Safety
 /// - Copy first, verify copy success, then remove source (atomic-like behavior).
@@ -123,7 +113,7 @@ pub fn move_package(
 ) -> Result<PackageMoveResult, PackageMoveError> {
     // Prevent moving to the same location
     let dest = dest_base.join(name).join(version);
-    let src = package_copy::find_package_dir(name, version, &config.packages_path)?;
+    let src = package_copy::locate_package_dir(name, version, &config.packages_path)?;
 
     // Normalize both paths
     let src_normalized = dunce::canonicalize(&src).unwrap_or_else(|_| src.clone());
@@ -141,7 +131,9 @@ pub fn move_package(
 
     // Phase 2: Remove source (unless keep_source)
     let source_removed = if !config.keep_source {
-        package_remove::remove_package_version(name, version, &config.to_remove_config())?;
+        // Only the directory that was copied may go: the destination itself (and
+        // other repositories holding this version) can be on the search path too.
+        remove_source(&src)?;
         true
     } else {
         false
@@ -156,6 +148,17 @@ pub fn move_package(
     })
 }
 
+/// Remove the moved package directory, and its family directory when that is left empty.
+fn remove_source(src: &Path) -> Result<(), std::io::Error> {
+    std::fs::remove_dir_all(src)?;
+    if let Some(family) = src.parent()
+        && std::fs::read_dir(family)?.next().is_none()
+    {
+        std::fs::remove_dir(family)?;
+    }
+    Ok(())
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/cli/commands/cp.rs b/src/cli/commands/cp.rs
index 5b54749..403905f 100644
--- a/src/cli/commands/cp.rs
+++ b/src/cli/commands/cp.rs
@@ -264,6 +264,16 @@ async fn copy_package_directory(
 ) -> RezCoreResult<CopyResult> {
     // Remove existing destination if force
     if args.force && dest_root.exists() {
+        // Overwriting the source with its own copy would destroy the package.
+        let source_real = std::fs::canonicalize(source_root).map_err(RezCoreError::Io)?;
+        let dest_real = std::fs::canonicalize(dest_root).map_err(RezCoreError::Io)?;
+        if source_real == dest_real {
+            return Err(RezCoreError::RequirementParse(format!(
+                "Cannot copy package '{}' onto itself: {}",
+                source_package.name,
+                dest_root.display()
+            )));
+        }
         std::fs::remove_dir_all(dest_root).map_err(RezCoreError::Io)?;
     }
 
diff --git a/src/cli/commands/mv.rs b/src/cli/commands/mv.rs
index dd78a5d..f1a51b9 100644
--- a/src/cli/commands/mv.rs
+++ b/src/cli/commands/mv.rs
@@ -284,6 +284,16 @@ async fn move_package_directory(
 ) -> RezCoreResult<MoveResult> {
     // Remove existing destination if force
     if args.force && dest_root.exists() {
+        // Overwriting the source with its own copy would destroy the package.
+        let source_real = std::fs::canonicalize(source_path).map_err(RezCoreError::Io)?;
+        let dest_real = std::fs::canonicalize(dest_root).map_err(RezCoreError::Io)?;
+        if source_real == dest_real {
+            return Err(RezCoreError::RequirementParse(format!(
+                "Cannot move package '{}' onto itself: {}",
+                source_package.name,
+                dest_root.display()
+            )));
+        }
         std::fs::remove_dir_all(dest_root).map_err(RezCoreError::Io)?;
     }
 
-- 
2.43.0


From f6b6cd1de3ddc98106162a3ddb2be2e4f965727b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:43 +0000
Subject: [PATCH 02/43] fix: cp and mv without a version pick the latest
 version, not the oldest

---
 src/cli/commands/cp.rs | 2 +-
 src/cli/commands/mv.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cli/commands/cp.rs b/src/cli/commands/cp.rs
index 403905f..7d2b2ff 100644
--- a/src/cli/commands/cp.rs
+++ b/src/cli/commands/cp.rs
@@ -224,7 +224,7 @@ async fn find_source_package_with_path(
         sorted.sort_by(|a, b| {
             b.version
                 .as_ref()
-                .and_then(|bv| a.version.as_ref().map(|av| av.cmp(bv)))
+                .and_then(|bv| a.version.as_ref().map(|av| bv.cmp(av)))
                 .unwrap_or(std::cmp::Ordering::Equal)
         });
         sorted.into_iter().next().unwrap()
diff --git a/src/cli/commands/mv.rs b/src/cli/commands/mv.rs
index f1a51b9..897bafc 100644
--- a/src/cli/commands/mv.rs
+++ b/src/cli/commands/mv.rs
@@ -247,7 +247,7 @@ async fn find_source_package_with_path(
         sorted.sort_by(|a, b| {
             b.version
                 .as_ref()
-                .and_then(|bv| a.version.as_ref().map(|av| av.cmp(bv)))
+                .and_then(|bv| a.version.as_ref().map(|av| bv.cmp(av)))
                 .unwrap_or(std::cmp::Ordering::Equal)
         });
         sorted.into_iter().next().unwrap()
-- 
2.43.0


From 14535e446c35150d142bc6dbadfa96fa0b6062f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:24 +0000
Subject: [PATCH 03/43] fix: removing or copying a package rejects names and
 versions that are not plain path components

---
 crates/rez-next-package/src/package_copy.rs   | 15 ++++++++++++++-
 crates/rez-next-package/src/package_remove.rs |  7 +++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-package/src/package_copy.rs b/crates/rez-next-package/src/package_copy.rs
index 078d665..714d152 100644
--- a/crates/rez-next-package/src/package_copy.rs
+++ b/crates/rez-next-package/src/package_copy.rs
@@ -10,7 +10,7 @@
 //! - **Disk space (#N/A)**: Pre-check available disk space before copy operations.
 
 use std::fs;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 use thiserror::Error;
 
@@ -93,6 +93,9 @@ pub fn copy_package(
     dest_base: &Path,
     config: &PackageCopyConfig,
 ) -> Result<PackageCopyResult, PackageCopyError> {
+    validate_component(name, "package name").map_err(PackageCopyError::Other)?;
+    validate_component(version, "package version").map_err(PackageCopyError::Other)?;
+
     // Find the source directory
     let src = find_package_dir(name, version, &config.packages_path)?;
 
@@ -132,6 +135,16 @@ pub fn copy_package(
     })
 }
 
+/// Reject anything but a single plain path component, so that a name or version can
+/// never address a directory outside `<repository>/<name>/<version>`.
+pub(crate) fn validate_component(value: &str, label: &str) -> Result<(), String> {
+    let mut components = Path::new(value).components();
+    match (components.next(), components.next()) {
+        (Some(Component::Normal(_)), None) => Ok(()),
+        _ => Err(format!("Invalid {label}: {value:?}")),
+    }
+}
+
 /// Find a package directory by name and version across search paths.
 pub fn find_package_dir(
     name: &str,
diff --git a/crates/rez-next-package/src/package_remove.rs b/crates/rez-next-package/src/package_remove.rs
index 51c79bb..7a122fb 100644
--- a/crates/rez-next-package/src/package_remove.rs
+++ b/crates/rez-next-package/src/package_remove.rs
@@ -13,6 +13,8 @@ use std::path::PathBuf;
 
 use thiserror::Error;
 
+use crate::package_copy::validate_component;
+
 /// Errors that can occur during package remove operations.
 #[derive(Debug, Error)]
 pub enum PackageRemoveError {
@@ -81,6 +83,9 @@ pub fn remove_package_version(
     version: &str,
     config: &PackageRemoveConfig,
 ) -> Result<PackageRemoveResult, PackageRemoveError> {
+    validate_component(name, "package name").map_err(PackageRemoveError::Other)?;
+    validate_component(version, "package version").map_err(PackageRemoveError::Other)?;
+
     let mut removed_paths = Vec::new();
     let mut bytes_freed = 0u64;
 
@@ -132,6 +137,8 @@ pub fn remove_package_family(
     name: &str,
     config: &PackageRemoveConfig,
 ) -> Result<PackageRemoveResult, PackageRemoveError> {
+    validate_component(name, "package name").map_err(PackageRemoveError::Other)?;
+
     let mut removed_paths = Vec::new();
     let mut bytes_freed = 0u64;
 
-- 
2.43.0


From faf4a5fa42e343ca5ece4fef8f97848398b62283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:04 +0000
Subject: [PATCH 04/43] fix: rm exits with an error when a package could not be
 removed

---
 src/cli/commands/rm.rs | 41 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/cli/commands/rm.rs b/src/cli/commands/rm.rs
index bb177c0..f66b14b 100644
--- a/src/cli/commands/rm.rs
+++ b/src/cli/commands/rm.rs
@@ -154,6 +154,7 @@ async fn remove_package(package_spec: &str, args: &RmArgs) -> RezCoreResult<()>
 
     // Remove packages
     let mut removed_count = 0;
+    let mut failed_count = 0;
     for package in packages {
         if args.interactive && !confirm_removal(&package)? {
             continue;
@@ -171,6 +172,7 @@ async fn remove_package(package_spec: &str, args: &RmArgs) -> RezCoreResult<()>
                         }
                     }
                 } else {
+                    failed_count += 1;
                     eprintln!(
                         "❌ Failed to remove {}: {}",
                         package.name,
@@ -179,13 +181,14 @@ async fn remove_package(package_spec: &str, args: &RmArgs) -> RezCoreResult<()>
                 }
             }
             Err(e) => {
+                failed_count += 1;
                 eprintln!("❌ Error removing {}: {}", package.name, e);
             }
         }
     }
 
     println!("Removed {} package(s)", removed_count);
-    Ok(())
+    ensure_all_removed(failed_count)
 }
 
 /// Remove an entire package family
@@ -237,6 +240,7 @@ async fn remove_package_family(package_name: &str, args: &RmArgs) -> RezCoreResu
 
     // Remove all packages in family
     let mut removed_count = 0;
+    let mut failed_count = 0;
     for package in packages {
         match remove_single_package(&package, args).await {
             Ok(result) => {
@@ -253,9 +257,17 @@ async fn remove_package_family(package_name: &str, args: &RmArgs) -> RezCoreResu
                                 .unwrap_or("unknown")
                         );
                     }
+                } else {
+                    failed_count += 1;
+                    eprintln!(
+                        "❌ Failed to remove {}: {}",
+                        package.name,
+                        result.error.unwrap_or_else(|| "Unknown error".to_string())
+                    );
                 }
             }
             Err(e) => {
+                failed_count += 1;
                 eprintln!("❌ Error removing {}: {}", package.name, e);
             }
         }
@@ -265,7 +277,7 @@ async fn remove_package_family(package_name: &str, args: &RmArgs) -> RezCoreResu
         "✅ Removed package family '{}' ({} packages)",
         package_name, removed_count
     );
-    Ok(())
+    ensure_all_removed(failed_count)
 }
 
 /// Remove packages ignored since a specific time
@@ -349,8 +361,17 @@ async fn remove_ignored_since(args: &RmArgs) -> RezCoreResult<()> {
 
     // Perform actual removal via the existing single-package remove path
     let mut removed = 0usize;
+    let mut failed = 0usize;
     for pkg in &removal_candidates {
         match remove_single_package(pkg, args).await {
+            Ok(result) if !result.success => {
+                failed += 1;
+                eprintln!(
+                    "  Warning: failed to remove {}: {}",
+                    pkg.name,
+                    result.error.unwrap_or_else(|| "Unknown error".to_string())
+                );
+            }
             Ok(_) => {
                 removed += 1;
                 if args.verbose {
@@ -364,7 +385,10 @@ async fn remove_ignored_since(args: &RmArgs) -> RezCoreResult<()> {
                     );
                 }
             }
-            Err(e) => eprintln!("  Warning: failed to remove {}: {}", pkg.name, e),
+            Err(e) => {
+                failed += 1;
+                eprintln!("  Warning: failed to remove {}: {}", pkg.name, e);
+            }
         }
     }
 
@@ -372,6 +396,17 @@ async fn remove_ignored_since(args: &RmArgs) -> RezCoreResult<()> {
         "✅ Removed {} package(s) ignored since {}",
         removed, time_spec
     );
+    ensure_all_removed(failed)
+}
+
+/// Packages that could not be removed make the whole command fail.
+fn ensure_all_removed(failed: usize) -> RezCoreResult<()> {
+    if failed > 0 {
+        return Err(RezCoreError::ExecutionError(format!(
+            "{} package(s) could not be removed",
+            failed
+        )));
+    }
     Ok(())
 }
 
-- 
2.43.0


From 96282add7dd6dc9e9092c8cd7a06eed276483060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:06 +0000
Subject: [PATCH 05/43] fix: a release stops at the first failed validation,
 build or test step

---
 crates/rez-next-build/src/release.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/rez-next-build/src/release.rs b/crates/rez-next-build/src/release.rs
index 5ae1d7c..f26c42e 100644
--- a/crates/rez-next-build/src/release.rs
+++ b/crates/rez-next-build/src/release.rs
@@ -104,6 +104,9 @@ impl ReleaseManager {
         } else {
             None
         };
+        if !result.errors.is_empty() {
+            return Ok(result);
+        }
 
         // For dry-run mode, add prefix and return early
         if self.mode == ReleaseMode::DryRun {
@@ -119,6 +122,9 @@ impl ReleaseManager {
         if !self.skip_build {
             self.build_package(source_dir, &package, &install_path, &mut result)?;
         }
+        if !result.errors.is_empty() {
+            return Ok(result);
+        }
 
         // Step 3.5: Run tests (if not skipped)
         if self.skip_tests {
@@ -128,6 +134,9 @@ impl ReleaseManager {
         } else {
             self.run_tests(source_dir, &package, &install_path, &mut result)?;
         }
+        if !result.errors.is_empty() {
+            return Ok(result);
+        }
 
         // Step 4: Create VCS tag (if VCS is available)
         if let Some(ref vcs_impl) = vcs {
@@ -307,7 +316,7 @@ impl ReleaseManager {
                 if pkg_file.exists() {
                     let dest_file = variant_path.join("package.py");
                     if let Err(e) = fs::copy(&pkg_file, &dest_file) {
-                        result.warnings.push(format!(
+                        result.errors.push(format!(
                             "Failed to copy package.py to variant '{}': {}",
                             hash, e
                         ));
@@ -324,7 +333,7 @@ impl ReleaseManager {
                     &metadata_path,
                     serde_json::to_string_pretty(&metadata).unwrap_or_default(),
                 ) {
-                    result.warnings.push(format!(
+                    result.errors.push(format!(
                         "Failed to write variant metadata for hash '{}': {}",
                         hash, e
                     ));
@@ -347,7 +356,7 @@ impl ReleaseManager {
                 let dest_file = install_path.join("package.py");
                 if let Err(e) = fs::copy(&pkg_file, &dest_file) {
                     result
-                        .warnings
+                        .errors
                         .push(format!("Failed to copy package.py: {}", e));
                 }
             }
@@ -457,7 +466,7 @@ impl ReleaseManager {
                             }
                             Err(e) => {
                                 result
-                                    .warnings
+                                    .errors
                                     .push(format!("Failed to write VCS metadata: {}", e));
                             }
                         },
-- 
2.43.0


From 3d12c77c0ff10717a0cb1b4cd56851b539286394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:06 +0000
Subject: [PATCH 06/43] fix: rez release does not treat a failed git query as a
 clean tree or a free tag

---
 src/cli/commands/release.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/cli/commands/release.rs b/src/cli/commands/release.rs
index 3b00ba4..3a985a0 100644
--- a/src/cli/commands/release.rs
+++ b/src/cli/commands/release.rs
@@ -102,7 +102,7 @@ pub fn execute(args: ReleaseArgs) -> RezCoreResult<()> {
     // 4. Check for existing release tag
     if !args.ignore_existing_tag {
         let tag = format!("{}-{}", package.name, version_str);
-        if check_tag_exists(&working_dir, &tag) {
+        if check_tag_exists(&working_dir, &tag)? {
             return Err(RezCoreError::BuildError(format!(
                 "Release tag '{}' already exists. Use --ignore-existing-tag to override.",
                 tag
@@ -271,6 +271,12 @@ fn validate_vcs_state(working_dir: &Path, vcs_type: &str, args: &ReleaseArgs) ->
             .current_dir(working_dir)
             .output()
             .map_err(|e| RezCoreError::BuildError(format!("Failed to run git status: {}", e)))?;
+        if !output.status.success() {
+            return Err(RezCoreError::BuildError(format!(
+                "git status failed: {}",
+                String::from_utf8_lossy(&output.stderr).trim()
+            )));
+        }
 
         if !output.stdout.is_empty() {
             let dirty_files = String::from_utf8_lossy(&output.stdout);
@@ -299,13 +305,19 @@ fn validate_vcs_state(working_dir: &Path, vcs_type: &str, args: &ReleaseArgs) ->
 }
 
 /// Check if a git tag already exists
-fn check_tag_exists(working_dir: &Path, tag: &str) -> bool {
-    Command::new("git")
+fn check_tag_exists(working_dir: &Path, tag: &str) -> RezCoreResult<bool> {
+    let output = Command::new("git")
         .args(["tag", "-l", tag])
         .current_dir(working_dir)
         .output()
-        .map(|o| !o.stdout.is_empty())
-        .unwrap_or(false)
+        .map_err(|e| RezCoreError::BuildError(format!("Failed to run git tag: {}", e)))?;
+    if !output.status.success() {
+        return Err(RezCoreError::BuildError(format!(
+            "Failed to list git tags: {}",
+            String::from_utf8_lossy(&output.stderr).trim()
+        )));
+    }
+    Ok(!output.stdout.is_empty())
 }
 
 /// Create a git tag at the current HEAD
-- 
2.43.0


From 73eb4c6e9308879a616608ac5ac14b89c65f65a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:58 +0000
Subject: [PATCH 07/43] fix: a cached payload that could not be removed is not
 reported as removed, and a missing one not as found

---
 crates/rez-next-package/src/package_cache.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/rez-next-package/src/package_cache.rs b/crates/rez-next-package/src/package_cache.rs
index 1086bf4..c137ed8 100644
--- a/crates/rez-next-package/src/package_cache.rs
+++ b/crates/rez-next-package/src/package_cache.rs
@@ -380,6 +380,11 @@ impl PackageCache {
                         return (CacheStatus::Copying, Some(payload_path));
                     }
 
+                    // Metadata without a payload is left over from a removal
+                    if !payload_path.is_dir() {
+                        continue;
+                    }
+
                     // Update last accessed time
                     let _ = Self::update_access_time(&json_path);
 
@@ -506,7 +511,9 @@ impl PackageCache {
                     if fs::rename(path, &dest).is_err() {
                         // Try copy + delete
                         let _ = Self::copy_dir_recursive(path, &dest);
-                        let _ = fs::remove_dir_all(path);
+                        if fs::remove_dir_all(path).is_err() {
+                            return (status, cached_path);
+                        }
                     }
 
                     // Remove .json file
@@ -632,9 +639,10 @@ impl PackageCache {
                     && let Some(accessed) = metadata.last_accessed
                     && now - accessed > max_age
                 {
-                    let _ = self.remove_variant(&handle);
-                    stats.entries_deleted += 1;
-                    stats.deleted_bytes += metadata.payload_size.unwrap_or(0);
+                    if self.remove_variant(&handle).0 == CacheStatus::Removed {
+                        stats.entries_deleted += 1;
+                        stats.deleted_bytes += metadata.payload_size.unwrap_or(0);
+                    }
                 }
             }
         }
-- 
2.43.0


From fd1e16f381edc6bce48f45f03578a51867603ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:58 +0000
Subject: [PATCH 08/43] fix: bundle, bind --quickstart and pkg-cache report an
 error when a file operation failed

---
 src/cli/commands/bind/mod.rs      | 10 ++++++++++
 src/cli/commands/bundle.rs        |  9 +++++++++
 src/cli/commands/pkg_cache/ops.rs | 10 +++++++---
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/cli/commands/bind/mod.rs b/src/cli/commands/bind/mod.rs
index 55642ff..f40bb23 100644
--- a/src/cli/commands/bind/mod.rs
+++ b/src/cli/commands/bind/mod.rs
@@ -157,6 +157,7 @@ fn execute_quickstart(args: &BindArgs) -> RezCoreResult<()> {
     std::fs::create_dir_all(&install_path).map_err(RezCoreError::Io)?;
 
     let mut results = Vec::new();
+    let mut failed = Vec::new();
 
     for package_name in quickstart_packages {
         println!(
@@ -178,10 +179,12 @@ fn execute_quickstart(args: &BindArgs) -> RezCoreResult<()> {
                         package_name,
                         result.error.unwrap_or_else(|| "Unknown error".to_string())
                     );
+                    failed.push(package_name);
                 }
             }
             Err(e) => {
                 eprintln!("  Error binding {}: {}", package_name, e);
+                failed.push(package_name);
             }
         }
     }
@@ -199,6 +202,13 @@ fn execute_quickstart(args: &BindArgs) -> RezCoreResult<()> {
          then run 'rez bind <package>'.\n"
     );
 
+    if !failed.is_empty() {
+        return Err(RezCoreError::Repository(format!(
+            "Failed to bind: {}",
+            failed.join(", ")
+        )));
+    }
+
     Ok(())
 }
 
diff --git a/src/cli/commands/bundle.rs b/src/cli/commands/bundle.rs
index 30ddda4..3a7cfb1 100644
--- a/src/cli/commands/bundle.rs
+++ b/src/cli/commands/bundle.rs
@@ -182,6 +182,7 @@ pub fn execute(mut args: BundleArgs) -> RezCoreResult<()> {
 
     // Build metadata and copy packages
     let mut package_infos = Vec::new();
+    let mut failed_copies = Vec::new();
 
     for package in &context.resolved_packages {
         let ver_str = package
@@ -203,6 +204,7 @@ pub fn execute(mut args: BundleArgs) -> RezCoreResult<()> {
                         "  Warning: failed to copy {}-{}: {}",
                         package.name, ver_str, e
                     );
+                    failed_copies.push(format!("{}-{}", package.name, ver_str));
                 } else if args.verbose > 0 {
                     println!("  Copied {}-{}", package.name, ver_str);
                 }
@@ -262,6 +264,13 @@ pub fn execute(mut args: BundleArgs) -> RezCoreResult<()> {
     // Generate activation scripts for common shells
     generate_activation_scripts(&output_dir, &context, &rez_config)?;
 
+    if !failed_copies.is_empty() {
+        return Err(RezCoreError::Repository(format!(
+            "Bundle is incomplete, failed to copy: {}",
+            failed_copies.join(", ")
+        )));
+    }
+
     println!("\nBundle created successfully:");
     println!("  Directory : {}", output_dir.display());
     println!("  Metadata  : {}", metadata_path.display());
diff --git a/src/cli/commands/pkg_cache/ops.rs b/src/cli/commands/pkg_cache/ops.rs
index 766d04d..e1d53b4 100644
--- a/src/cli/commands/pkg_cache/ops.rs
+++ b/src/cli/commands/pkg_cache/ops.rs
@@ -143,6 +143,11 @@ pub async fn run_daemon(
         "Cache daemon completed: {} cached, {} failed.",
         processed, failed
     );
+    if failed > 0 {
+        return Err(RezCoreError::Cache(format!(
+            "{failed} pending operation(s) failed"
+        )));
+    }
     Ok(())
 }
 
@@ -207,9 +212,8 @@ pub async fn add_variants(
         };
 
         // Create cache destination directory
-        if let Err(e) = std::fs::create_dir_all(&cache_dest) {
-            eprintln!("    Warning: failed to create cache dir: {}", e);
-        }
+        std::fs::create_dir_all(&cache_dest)
+            .map_err(|e| RezCoreError::Cache(format!("Failed to create cache dir: {e}")))?;
 
         let entry = CacheEntry {
             package_name: pkg_name.clone(),
-- 
2.43.0


From bd2eb025f1428e95ddfa036f167cb682991c3fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:27 +0000
Subject: [PATCH 09/43] fix: an unforced family removal fails when the family
 directory cannot be fully listed

---
 .../src/package_repository/filesystem.rs      | 28 +++++++++----------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/crates/rez-next-repository/src/package_repository/filesystem.rs b/crates/rez-next-repository/src/package_repository/filesystem.rs
index 7553fef..1e72bdd 100644
--- a/crates/rez-next-repository/src/package_repository/filesystem.rs
+++ b/crates/rez-next-repository/src/package_repository/filesystem.rs
@@ -425,21 +425,19 @@ impl PackageRepository for FilesystemPackageRepository {
         }
 
         if !force {
-            let has_packages = fs::read_dir(&family_path)
-                .map_err(|e| {
-                    RezCoreError::Repository(format!(
-                        "Failed to inspect package family '{}': {e}",
-                        family_path.display()
-                    ))
-                })?
-                .filter_map(Result::ok)
-                .any(|entry| {
-                    entry.path().is_dir() && !entry.file_name().to_string_lossy().starts_with('.')
-                });
-            if has_packages {
-                return Err(RezCoreError::Repository(format!(
-                    "Cannot remove non-empty package family {pkg_name:?} without force"
-                )));
+            let inspect_error = |e: std::io::Error| {
+                RezCoreError::Repository(format!(
+                    "Failed to inspect package family '{}': {e}",
+                    family_path.display()
+                ))
+            };
+            for entry in fs::read_dir(&family_path).map_err(inspect_error)? {
+                let entry = entry.map_err(inspect_error)?;
+                if entry.path().is_dir() && !entry.file_name().to_string_lossy().starts_with('.') {
+                    return Err(RezCoreError::Repository(format!(
+                        "Cannot remove non-empty package family {pkg_name:?} without force"
+                    )));
+                }
             }
         }
 
-- 
2.43.0


From 8992df1bfd62bfa25a90399ef8d89e4af2d99570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:01 +0000
Subject: [PATCH 10/43] fix: a cache listing does not report a payload that is
 still being copied as found

---
 crates/rez-next-package/src/package_cache.rs | 41 ++++++++++++--------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/crates/rez-next-package/src/package_cache.rs b/crates/rez-next-package/src/package_cache.rs
index c137ed8..c0e6e31 100644
--- a/crates/rez-next-package/src/package_cache.rs
+++ b/crates/rez-next-package/src/package_cache.rs
@@ -367,17 +367,8 @@ impl PackageCache {
 
                 if metadata.handle.hashable_repr() == handle.hashable_repr() {
                     // Check for .copying file (still copying)
-                    let copying_flag = json_path.with_file_name(format!(
-                        ".copying-{}",
-                        payload_path.file_name().unwrap().to_string_lossy()
-                    ));
-
-                    if copying_flag.is_file() {
-                        // Check if stalled
-                        if Self::is_file_stalled(&copying_flag) {
-                            return (CacheStatus::CopyStalled, Some(payload_path));
-                        }
-                        return (CacheStatus::Copying, Some(payload_path));
+                    if let Some(status) = Self::copy_status(&payload_path) {
+                        return (status, Some(payload_path));
                     }
 
                     // Metadata without a payload is left over from a removal
@@ -571,11 +562,12 @@ impl PackageCache {
                                             && let Ok(metadata) = Self::read_metadata(&meta_path)
                                         {
                                             let payload_path = meta_path.with_extension("");
-                                            let status = if payload_path.is_dir() {
-                                                CacheStatus::Found
-                                            } else {
-                                                CacheStatus::Pending
-                                            };
+                                            let status = Self::copy_status(&payload_path)
+                                                .unwrap_or(if payload_path.is_dir() {
+                                                    CacheStatus::Found
+                                                } else {
+                                                    CacheStatus::Pending
+                                                });
                                             results.push((metadata.handle, payload_path, status));
                                         }
                                     }
@@ -675,6 +667,23 @@ impl PackageCache {
         Ok(())
     }
 
+    /// Status of a payload that is still being copied, or whose copy was interrupted.
+    fn copy_status(payload_path: &Path) -> Option<CacheStatus> {
+        let increment = payload_path
+            .file_name()
+            .unwrap_or_default()
+            .to_string_lossy();
+        let copying_flag = payload_path.with_file_name(format!(".copying-{increment}"));
+
+        if !copying_flag.is_file() {
+            None
+        } else if Self::is_file_stalled(&copying_flag) {
+            Some(CacheStatus::CopyStalled)
+        } else {
+            Some(CacheStatus::Copying)
+        }
+    }
+
     /// Check if a file appears stalled (no mtime update for too long).
     fn is_file_stalled(path: &Path) -> bool {
         if let Ok(metadata) = fs::metadata(path)
-- 
2.43.0


From 35cfabef84f7502348d5ec60ab0a5b5ba3d6af4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:18 +0000
Subject: [PATCH 11/43] fix: the Mercurial tag lookup matches the whole tag
 name

---
 crates/rez-next-build/src/vcs/hg.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-build/src/vcs/hg.rs b/crates/rez-next-build/src/vcs/hg.rs
index 0e18905..4fd40d5 100644
--- a/crates/rez-next-build/src/vcs/hg.rs
+++ b/crates/rez-next-build/src/vcs/hg.rs
@@ -105,9 +105,12 @@ impl super::ReleaseVCS for MercurialVCS {
     }
 
     fn tag_exists(&self, tag: &str) -> Result<bool, RezCoreError> {
-        // `hg tags` lists all tags
+        // `hg tags` lists all tags, one "<name>  <rev>:<node>" line each
         let tags = self.run_hg(&["tags"])?;
-        Ok(tags.lines().any(|line| line.contains(tag)))
+        Ok(tags.lines().any(|line| {
+            line.rsplit_once(char::is_whitespace)
+                .is_some_and(|(name, _)| name.trim_end() == tag)
+        }))
     }
 
     fn create_tag(&self, tag: &str, message: &str) -> Result<(), RezCoreError> {
-- 
2.43.0


From c5d1cf10ed27bf6f97b23abc8a8aebb74f09339e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:36 +0000
Subject: [PATCH 12/43] fix: a requirement that cannot be parsed is an error,
 not an unconstrained request

---
 crates/rez-next-python/src/context_bindings.rs |  4 ++--
 crates/rez-next-python/src/env_bindings.rs     |  4 ++--
 crates/rez-next-solver/src/solver.rs           | 11 +++++++----
 src/cli/commands/bundle.rs                     |  9 +++++++--
 src/cli/commands/env.rs                        | 11 +++++++----
 5 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/crates/rez-next-python/src/context_bindings.rs b/crates/rez-next-python/src/context_bindings.rs
index 87633d2..bd33fef 100644
--- a/crates/rez-next-python/src/context_bindings.rs
+++ b/crates/rez-next-python/src/context_bindings.rs
@@ -69,9 +69,9 @@ impl PyResolvedContext {
                 let req_str = pr.to_string();
                 req_str
                     .parse::<Requirement>()
-                    .unwrap_or_else(|_| Requirement::new(pr.name.clone()))
+                    .map_err(pyo3::exceptions::PyValueError::new_err)
             })
-            .collect();
+            .collect::<PyResult<_>>()?;
 
         let rt = get_runtime();
 
diff --git a/crates/rez-next-python/src/env_bindings.rs b/crates/rez-next-python/src/env_bindings.rs
index a1865f2..487edc9 100644
--- a/crates/rez-next-python/src/env_bindings.rs
+++ b/crates/rez-next-python/src/env_bindings.rs
@@ -100,9 +100,9 @@ impl PyRezEnv {
                 let req_str = pr.to_string();
                 req_str
                     .parse::<Requirement>()
-                    .unwrap_or_else(|_| Requirement::new(pr.name.clone()))
+                    .map_err(pyo3::exceptions::PyValueError::new_err)
             })
-            .collect();
+            .collect::<PyResult<_>>()?;
 
         let rt = get_runtime();
 
diff --git a/crates/rez-next-solver/src/solver.rs b/crates/rez-next-solver/src/solver.rs
index 020c9d2..02bbcdf 100644
--- a/crates/rez-next-solver/src/solver.rs
+++ b/crates/rez-next-solver/src/solver.rs
@@ -213,11 +213,14 @@ impl DependencySolver {
                 .into_iter()
                 .map(|pr| {
                     let req_str = pr.to_string();
-                    req_str
-                        .parse::<Requirement>()
-                        .unwrap_or_else(|_| Requirement::new(pr.name.clone()))
+                    req_str.parse::<Requirement>().map_err(|e| {
+                        RezCoreError::RequirementParse(format!(
+                            "Invalid package requirement '{}': {}",
+                            req_str, e
+                        ))
+                    })
                 })
-                .collect();
+                .collect::<Result<_, _>>()?;
 
             let mut resolver =
                 DependencyResolver::new(Arc::clone(repo_manager), self.config.clone());
diff --git a/src/cli/commands/bundle.rs b/src/cli/commands/bundle.rs
index 3a7cfb1..fe7e44a 100644
--- a/src/cli/commands/bundle.rs
+++ b/src/cli/commands/bundle.rs
@@ -316,9 +316,14 @@ fn resolve_context(
             let req_str = pr.to_string();
             req_str
                 .parse::<rez_next_package::Requirement>()
-                .unwrap_or_else(|_| rez_next_package::Requirement::new(pr.name.clone()))
+                .map_err(|e| {
+                    RezCoreError::RequirementParse(format!(
+                        "Invalid package requirement '{}': {}",
+                        req_str, e
+                    ))
+                })
         })
-        .collect();
+        .collect::<RezCoreResult<_>>()?;
 
     let rt = tokio::runtime::Runtime::new().map_err(RezCoreError::Io)?;
     let solver_config = SolverConfig::default();
diff --git a/src/cli/commands/env.rs b/src/cli/commands/env.rs
index 2256567..8ba472b 100644
--- a/src/cli/commands/env.rs
+++ b/src/cli/commands/env.rs
@@ -260,11 +260,14 @@ fn resolve_environment(
         .iter()
         .map(|pr| {
             let req_str = pr.to_string();
-            req_str
-                .parse::<Requirement>()
-                .unwrap_or_else(|_| Requirement::new(pr.name.clone()))
+            req_str.parse::<Requirement>().map_err(|e| {
+                RezCoreError::RequirementParse(format!(
+                    "Invalid package requirement '{}': {}",
+                    req_str, e
+                ))
+            })
         })
-        .collect();
+        .collect::<RezCoreResult<_>>()?;
 
     // Run the dependency resolver
     let rt = tokio::runtime::Runtime::new().map_err(RezCoreError::Io)?;
-- 
2.43.0


From 5d2be4470377312cc746cf0d7b0eb00fca97889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:36 +0000
Subject: [PATCH 13/43] fix: scripts and interactive shells do not inherit the
 parent environment unless asked to

---
 crates/rez-next-context/src/shell.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/rez-next-context/src/shell.rs b/crates/rez-next-context/src/shell.rs
index 79366ed..947f337 100644
--- a/crates/rez-next-context/src/shell.rs
+++ b/crates/rez-next-context/src/shell.rs
@@ -347,6 +347,9 @@ impl ShellExecutor {
         }
 
         // Set environment variables
+        if !self.inherit_parent_env {
+            cmd.env_clear();
+        }
         for (key, value) in &self.environment {
             cmd.env(key, value);
         }
@@ -388,6 +391,9 @@ impl ShellExecutor {
         }
 
         // Set environment variables
+        if !self.inherit_parent_env {
+            cmd.env_clear();
+        }
         for (key, value) in &self.environment {
             cmd.env(key, value);
         }
-- 
2.43.0


From 8d21179f10df67d42bfb2cf78967be1ffa374d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:36 +0000
Subject: [PATCH 14/43] fix: an HTTP error answer is not taken for the
 downloaded archive

---
 crates/rez-next-build/src/systems/binary_archive.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/rez-next-build/src/systems/binary_archive.rs b/crates/rez-next-build/src/systems/binary_archive.rs
index cfdf46c..9ad9883 100644
--- a/crates/rez-next-build/src/systems/binary_archive.rs
+++ b/crates/rez-next-build/src/systems/binary_archive.rs
@@ -177,9 +177,12 @@ impl BinaryArchiveBuildSystem {
             .unwrap_or("artifact.bin");
         let destination = work_dir.join(filename);
 
-        let response = reqwest::get(url).await.map_err(|err| {
-            RezCoreError::BuildError(format!("Failed to download binary archive {url}: {err}"))
-        })?;
+        let response = reqwest::get(url)
+            .await
+            .and_then(|response| response.error_for_status())
+            .map_err(|err| {
+                RezCoreError::BuildError(format!("Failed to download binary archive {url}: {err}"))
+            })?;
         let bytes = response.bytes().await.map_err(|err| {
             RezCoreError::BuildError(format!("Failed to read binary archive response: {err}"))
         })?;
-- 
2.43.0


From a7e02a8b546eb44fe8889caedb0d0e82542bb12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:36 +0000
Subject: [PATCH 15/43] fix: exporting a git revision fails when git archive
 failed

---
 crates/rez-next-build/src/vcs/git.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-build/src/vcs/git.rs b/crates/rez-next-build/src/vcs/git.rs
index fc41690..522dd77 100644
--- a/crates/rez-next-build/src/vcs/git.rs
+++ b/crates/rez-next-build/src/vcs/git.rs
@@ -522,7 +522,7 @@ impl super::ReleaseVCS for GitVCS {
         // Format: git archive --format=tar <revision> | tar -xf - -C <path>
         let revision_spec = &revision.revision_id;
 
-        let git_archive = Command::new("git")
+        let mut git_archive = Command::new("git")
             .args(["archive", "--format=tar", revision_spec])
             .current_dir(&self.repo_root)
             .stdout(std::process::Stdio::piped())
@@ -536,10 +536,14 @@ impl super::ReleaseVCS for GitVCS {
                 ))
             })?;
 
+        let archive_stdout = git_archive.stdout.take().ok_or_else(|| {
+            RezCoreError::BuildError("`git archive` has no output to extract".to_string())
+        })?;
+
         // Pipe to `tar -xf - -C <path>`
         let tar_output = Command::new("tar")
             .args(["-xf", "-", "-C", &path.to_string_lossy()])
-            .stdin(git_archive.stdout.unwrap())
+            .stdin(archive_stdout)
             .stderr(std::process::Stdio::piped())
             .output()
             .map_err(|e| {
@@ -550,6 +554,17 @@ impl super::ReleaseVCS for GitVCS {
                 ))
             })?;
 
+        let archive_output = git_archive.wait_with_output().map_err(|e| {
+            RezCoreError::BuildError(format!("Failed to wait for `git archive`: {}", e))
+        })?;
+        if !archive_output.status.success() {
+            return Err(RezCoreError::BuildError(format!(
+                "`git archive` failed for revision '{}': {}",
+                revision_spec,
+                String::from_utf8_lossy(&archive_output.stderr)
+            )));
+        }
+
         if !tar_output.status.success() {
             let stderr = String::from_utf8_lossy(&tar_output.stderr);
             return Err(RezCoreError::BuildError(format!(
-- 
2.43.0


From ce9a519d2ddea3560d25c94dd8e251f12e23067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:47 +0000
Subject: [PATCH 16/43] fix: a downloaded source is written into the download
 directory whatever name the server sends

---
 crates/rez-next-build/src/sources.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-build/src/sources.rs b/crates/rez-next-build/src/sources.rs
index adfef00..341d04e 100644
--- a/crates/rez-next-build/src/sources.rs
+++ b/crates/rez-next-build/src/sources.rs
@@ -235,7 +235,10 @@ impl HttpFetcher {
         for part in header.split(';') {
             let part = part.trim();
             if let Some(filename) = part.strip_prefix("filename=") {
-                return Some(filename.trim_matches('"').to_string());
+                // Only the last component: a server must not choose the directory
+                return Path::new(filename.trim_matches('"'))
+                    .file_name()
+                    .map(|name| name.to_string_lossy().into_owned());
             }
         }
         None
-- 
2.43.0


From 03e8611c1ab48c88ae9232c8c02c6f91e60bc029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:26 +0000
Subject: [PATCH 17/43] fix: an interactive rez env shell ended by a signal
 does not exit with success

---
 src/cli/commands/env.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/commands/env.rs b/src/cli/commands/env.rs
index 8ba472b..34eb028 100644
--- a/src/cli/commands/env.rs
+++ b/src/cli/commands/env.rs
@@ -714,7 +714,7 @@ fn spawn_shell_in_context(
     drop(activation_directory);
     remove_temporary_context(&environment);
 
-    std::process::exit(status.code().unwrap_or(0));
+    std::process::exit(status.code().unwrap_or(1));
 }
 
 #[cfg(test)]
-- 
2.43.0


From e0195464ca14d7e60691129e59cd0e4bb0ef6fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:23 +0000
Subject: [PATCH 18/43] fix: keep a cancelled build cancelled when its steps
 end later

---
 crates/rez-next-build/src/process.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/rez-next-build/src/process.rs b/crates/rez-next-build/src/process.rs
index 256499d..408eda9 100644
--- a/crates/rez-next-build/src/process.rs
+++ b/crates/rez-next-build/src/process.rs
@@ -165,11 +165,14 @@ impl BuildProcess {
                 }
             }
 
+            // A build that was cancelled meanwhile stays cancelled
             let mut status_guard = status.write().await;
-            *status_guard = match result {
-                Ok(_) => BuildStatus::Success,
-                Err(_) => BuildStatus::Failed,
-            };
+            if *status_guard != BuildStatus::Cancelled {
+                *status_guard = match result {
+                    Ok(_) => BuildStatus::Success,
+                    Err(_) => BuildStatus::Failed,
+                };
+            }
         });
 
         Ok(())
-- 
2.43.0


From 13f30d7aa2fe23b882e38a82e0b0e5f1d121d18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:00 +0000
Subject: [PATCH 19/43] fix: report a context with unsatisfied requirements as
 failed

---
 crates/rez-next-python/src/context_bindings.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-python/src/context_bindings.rs b/crates/rez-next-python/src/context_bindings.rs
index bd33fef..5de4e24 100644
--- a/crates/rez-next-python/src/context_bindings.rs
+++ b/crates/rez-next-python/src/context_bindings.rs
@@ -87,7 +87,11 @@ impl PyResolvedContext {
             .into_iter()
             .map(|info| (*info.package).clone())
             .collect();
-        context.status = ContextStatus::Resolved;
+        context.status = if resolution.failed_requirements.is_empty() {
+            ContextStatus::Resolved
+        } else {
+            ContextStatus::Failed
+        };
 
         Ok(PyResolvedContext {
             inner: context,
-- 
2.43.0


From a70b556ea0d49c2376f7c376ba564135a187b415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:00 +0000
Subject: [PATCH 20/43] fix: report an environment with unsatisfied
 requirements as failed

---
 crates/rez-next-python/src/env_bindings.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-python/src/env_bindings.rs b/crates/rez-next-python/src/env_bindings.rs
index 487edc9..0e1a3bf 100644
--- a/crates/rez-next-python/src/env_bindings.rs
+++ b/crates/rez-next-python/src/env_bindings.rs
@@ -123,6 +123,12 @@ impl PyRezEnv {
             }
         };
 
+        let failed: Vec<String> = resolution
+            .failed_requirements
+            .iter()
+            .map(|requirement| requirement.to_string())
+            .collect();
+
         let resolved_packages: Vec<PyPackage> = resolution
             .resolved_packages
             .iter()
@@ -180,8 +186,9 @@ impl PyRezEnv {
             packages,
             scripts,
             env_vars,
-            success: true,
-            failure_reason: None,
+            success: failed.is_empty(),
+            failure_reason: (!failed.is_empty())
+                .then(|| format!("Failed to satisfy requirements: {}", failed.join(", "))),
             resolved_packages,
         })
     }
-- 
2.43.0


From 018f9c6a3438d66e0bbd025c03e9b9ac319f519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:56 +0000
Subject: [PATCH 21/43] fix: do not drop a malformed requirement of a package
 in the A* search

---
 crates/rez-next-solver/src/astar/astar_search.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/crates/rez-next-solver/src/astar/astar_search.rs b/crates/rez-next-solver/src/astar/astar_search.rs
index d5c09ad..ccc2fa1 100644
--- a/crates/rez-next-solver/src/astar/astar_search.rs
+++ b/crates/rez-next-solver/src/astar/astar_search.rs
@@ -230,15 +230,13 @@ impl AStarSearch {
         let new_requirements: Vec<PackageRequirement> = package
             .requires
             .iter()
-            .filter_map(|req_str| {
-                let req = PackageRequirement::parse(req_str).ok()?;
-                if parent_state.resolved_packages.contains_key(&req.name) {
-                    None
-                } else {
-                    Some(req)
-                }
+            .map(|req_str| PackageRequirement::parse(req_str))
+            .filter(|req| {
+                req.as_ref().map_or(true, |req| {
+                    !parent_state.resolved_packages.contains_key(&req.name)
+                })
             })
-            .collect();
+            .collect::<Result<_, _>>()?;
 
         let mut successor =
             SearchState::new_from_parent(parent_state, package, new_requirements, package_cost);
-- 
2.43.0


From 1d3466f00378dcd94a0e9f2f0b8d035bad52de23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:56 +0000
Subject: [PATCH 22/43] fix: apply_env raises when the environment could not be
 resolved

---
 crates/rez-next-python/src/env_bindings.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/rez-next-python/src/env_bindings.rs b/crates/rez-next-python/src/env_bindings.rs
index 0e1a3bf..60842e1 100644
--- a/crates/rez-next-python/src/env_bindings.rs
+++ b/crates/rez-next-python/src/env_bindings.rs
@@ -310,12 +310,16 @@ pub fn apply_env(
     paths: Option<Vec<String>>,
 ) -> PyResult<HashMap<String, String>> {
     let env = PyRezEnv::new(packages, None, paths)?;
-    if env.success {
-        for (k, v) in &env.env_vars {
-            unsafe {
-                std::env::set_var(k, v);
-            };
-        }
+    if !env.success {
+        return Err(pyo3::exceptions::PyRuntimeError::new_err(
+            env.failure_reason
+                .unwrap_or_else(|| "Unknown error".to_string()),
+        ));
+    }
+    for (k, v) in &env.env_vars {
+        unsafe {
+            std::env::set_var(k, v);
+        };
     }
     Ok(env.env_vars)
 }
-- 
2.43.0


From dc26f63381215f77cc775d8570cac977fb3f416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:54 +0000
Subject: [PATCH 23/43] fix: the repository cache takes its index and
 statistics locks in one order

---
 crates/rez-next-repository/src/cache.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/rez-next-repository/src/cache.rs b/crates/rez-next-repository/src/cache.rs
index 58f76e0..316f064 100644
--- a/crates/rez-next-repository/src/cache.rs
+++ b/crates/rez-next-repository/src/cache.rs
@@ -209,11 +209,10 @@ impl RepositoryCache {
 
         // Update statistics
         {
+            // The index is locked before the statistics everywhere
+            let entries = self.index.read().await.len();
             let mut stats = self.stats.write().await;
-            stats.entries = {
-                let index = self.index.read().await;
-                index.len()
-            };
+            stats.entries = entries;
         }
 
         // Check if cleanup is needed
-- 
2.43.0


From 1a6c8993c8e98411fe51dc92d650ca739fc83bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:54 +0000
Subject: [PATCH 24/43] fix: reading the preheating statistics does not hold
 two locks in the opposite order

---
 crates/rez-next-cache/src/predictive_preheater.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-cache/src/predictive_preheater.rs b/crates/rez-next-cache/src/predictive_preheater.rs
index 44d884b..6bc733e 100644
--- a/crates/rez-next-cache/src/predictive_preheater.rs
+++ b/crates/rez-next-cache/src/predictive_preheater.rs
@@ -343,8 +343,8 @@ where
 
     /// Get preheating statistics
     pub fn get_stats(&self) -> PreheatingStats {
-        let stats = self.stats.read().unwrap();
-        let mut result = stats.clone();
+        // Release the statistics before taking the patterns: recording takes them in the other order
+        let mut result = self.stats.read().unwrap().clone();
 
         // Calculate accuracy rate
         if result.predictions_made > 0 {
-- 
2.43.0


From 22de4079cb3376e024f6973e1db086297b9e0f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:54 +0000
Subject: [PATCH 25/43] fix: a cache hit releases the map shard before awaiting

---
 crates/rez-next-cache/src/intelligent_manager.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-cache/src/intelligent_manager.rs b/crates/rez-next-cache/src/intelligent_manager.rs
index 21d0b83..e696c01 100644
--- a/crates/rez-next-cache/src/intelligent_manager.rs
+++ b/crates/rez-next-cache/src/intelligent_manager.rs
@@ -356,6 +356,9 @@ where
         if let Some(mut entry) = self.l1_cache.get_mut(key) {
             if entry.is_valid() {
                 entry.mark_accessed();
+                let value = entry.value.clone();
+                // Release the map's shard before the first await
+                drop(entry);
 
                 // Update statistics
                 {
@@ -366,7 +369,7 @@ where
                 // Record performance metrics
                 self.monitor.record_get_latency(start_time.elapsed()).await;
 
-                return Some(entry.value.clone());
+                return Some(value);
             } else {
                 // Remove expired entry
                 drop(entry);
-- 
2.43.0


From c925866ed5ebc0d79fefb16ea1921ec668465b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:04 +0000
Subject: [PATCH 26/43] fix: values in generated shell scripts stay inside
 their quotes

---
 crates/rez-next-build/src/environment.rs   | 18 ++++++++++++---
 crates/rez-next-common/src/lib.rs          |  1 +
 crates/rez-next-common/src/shell_escape.rs | 26 ++++++++++++++++++++++
 crates/rez-next-context/src/environment.rs | 11 +++++++--
 crates/rez-next-rex/src/shell.rs           | 15 ++++++++-----
 crates/rez-next-solver/src/resolution.rs   | 22 ++++++++++++++----
 src/cli/commands/context.rs                | 18 ++++++++++++---
 src/cli/commands/env.rs                    |  6 ++++-
 8 files changed, 99 insertions(+), 18 deletions(-)
 create mode 100644 crates/rez-next-common/src/shell_escape.rs

diff --git a/crates/rez-next-build/src/environment.rs b/crates/rez-next-build/src/environment.rs
index 9ccdca0..e5d2f74 100644
--- a/crates/rez-next-build/src/environment.rs
+++ b/crates/rez-next-build/src/environment.rs
@@ -373,14 +373,22 @@ impl BuildEnvironment {
                 script.push_str("#!/bin/bash\n");
                 script.push_str("# Build environment setup\n\n");
                 for (name, value) in &self.env_vars {
-                    script.push_str(&format!("export {}=\"{}\"\n", name, value));
+                    script.push_str(&format!(
+                        "export {}=\"{}\"\n",
+                        name,
+                        rez_next_common::shell_escape::escape_posix_double_quoted(value)
+                    ));
                 }
             }
             rez_next_context::ShellType::Fish => {
                 script.push_str("#!/usr/bin/env fish\n");
                 script.push_str("# Build environment setup\n\n");
                 for (name, value) in &self.env_vars {
-                    script.push_str(&format!("set -x {} \"{}\"\n", name, value));
+                    script.push_str(&format!(
+                        "set -x {} \"{}\"\n",
+                        name,
+                        rez_next_common::shell_escape::escape_fish_double_quoted(value)
+                    ));
                 }
             }
             rez_next_context::ShellType::Cmd => {
@@ -393,7 +401,11 @@ impl BuildEnvironment {
             rez_next_context::ShellType::PowerShell => {
                 script.push_str("# Build environment setup\n\n");
                 for (name, value) in &self.env_vars {
-                    script.push_str(&format!("$env:{} = \"{}\"\n", name, value));
+                    script.push_str(&format!(
+                        "$env:{} = \"{}\"\n",
+                        name,
+                        rez_next_common::shell_escape::escape_powershell_double_quoted(value)
+                    ));
                 }
             }
         }
diff --git a/crates/rez-next-common/src/lib.rs b/crates/rez-next-common/src/lib.rs
index 596101b..55977a0 100644
--- a/crates/rez-next-common/src/lib.rs
+++ b/crates/rez-next-common/src/lib.rs
@@ -10,6 +10,7 @@
 
 pub mod config;
 pub mod error;
+pub mod shell_escape;
 pub mod utils;
 
 // Re-export commonly used types
diff --git a/crates/rez-next-common/src/shell_escape.rs b/crates/rez-next-common/src/shell_escape.rs
new file mode 100644
index 0000000..3d51ce9
--- /dev/null
+++ b/crates/rez-next-common/src/shell_escape.rs
@@ -0,0 +1,26 @@
+//! Escaping of values for the double-quoted words of generated shell scripts.
+
+/// Escape a value for a double-quoted word of bash or zsh.
+pub fn escape_posix_double_quoted(value: &str) -> String {
+    value
+        .replace('\\', "\\\\")
+        .replace('"', "\\\"")
+        .replace('$', "\\$")
+        .replace('`', "\\`")
+}
+
+/// Escape a value for a double-quoted word of fish.
+pub fn escape_fish_double_quoted(value: &str) -> String {
+    value
+        .replace('\\', "\\\\")
+        .replace('"', "\\\"")
+        .replace('$', "\\$")
+}
+
+/// Escape a value for a double-quoted string of PowerShell.
+pub fn escape_powershell_double_quoted(value: &str) -> String {
+    value
+        .replace('`', "``")
+        .replace('"', "`\"")
+        .replace('$', "`$")
+}
diff --git a/crates/rez-next-context/src/environment.rs b/crates/rez-next-context/src/environment.rs
index a7719b2..897bfda 100644
--- a/crates/rez-next-context/src/environment.rs
+++ b/crates/rez-next-context/src/environment.rs
@@ -461,6 +461,7 @@ impl EnvironmentManager {
     /// Escape a value for bash/zsh
     fn escape_bash_value(&self, value: &str) -> String {
         value
+            .replace("\\", "\\\\")
             .replace("\"", "\\\"")
             .replace("$", "\\$")
             .replace("`", "\\`")
@@ -468,12 +469,18 @@ impl EnvironmentManager {
 
     /// Escape a value for PowerShell
     fn escape_powershell_value(&self, value: &str) -> String {
-        value.replace("\"", "`\"").replace("$", "`$")
+        value
+            .replace("`", "``")
+            .replace("\"", "`\"")
+            .replace("$", "`$")
     }
 
     /// Escape a value for fish shell
     fn escape_fish_value(&self, value: &str) -> String {
-        value.replace("\"", "\\\"").replace("$", "\\$")
+        value
+            .replace("\\", "\\\\")
+            .replace("\"", "\\\"")
+            .replace("$", "\\$")
     }
 
     /// Get environment variable differences from base environment
diff --git a/crates/rez-next-rex/src/shell.rs b/crates/rez-next-rex/src/shell.rs
index 97321a1..ca44fd6 100644
--- a/crates/rez-next-rex/src/shell.rs
+++ b/crates/rez-next-rex/src/shell.rs
@@ -87,7 +87,7 @@ fn generate_bash_script(env: &RexEnvironment) -> String {
         lines.push(String::new());
         lines.push("# Sourced scripts".to_string());
         for script in &env.sourced_scripts {
-            let escaped = script.replace('"', "\\\"");
+            let escaped = script.replace('\\', "\\\\").replace('"', "\\\"");
             lines.push(format!("source \"{}\"", escaped));
         }
     }
@@ -98,7 +98,10 @@ fn generate_bash_script(env: &RexEnvironment) -> String {
         lines.push("# Info messages".to_string());
         for msg in &env.info_messages {
             let escaped = msg.replace('\'', "'\\''");
-            lines.push(format!("# [info] {}", escaped));
+            // Every line of the message stays a comment
+            for line in escaped.split(['\r', '\n']) {
+                lines.push(format!("# [info] {}", line));
+            }
         }
     }
 
@@ -125,7 +128,8 @@ fn generate_fish_script(env: &RexEnvironment) -> String {
     let mut aliases: Vec<_> = env.aliases.iter().collect();
     aliases.sort_by_key(|(k, _)| k.as_str());
     for (name, cmd) in &aliases {
-        lines.push(format!("alias {} \"{}\"", name, cmd));
+        let escaped = cmd.replace('\\', "\\\\").replace('"', "\\\"");
+        lines.push(format!("alias {} \"{}\"", name, escaped));
     }
 
     if !env.startup_commands.is_empty() {
@@ -139,7 +143,7 @@ fn generate_fish_script(env: &RexEnvironment) -> String {
     if !env.sourced_scripts.is_empty() {
         lines.push(String::new());
         for script in &env.sourced_scripts {
-            let escaped = script.replace('"', "\\\"");
+            let escaped = script.replace('\\', "\\\\").replace('"', "\\\"");
             lines.push(format!("source \"{}\"", escaped));
         }
     }
@@ -216,7 +220,8 @@ fn generate_powershell_script(env: &RexEnvironment) -> String {
     let mut aliases: Vec<_> = env.aliases.iter().collect();
     aliases.sort_by_key(|(k, _)| k.as_str());
     for (name, cmd) in &aliases {
-        lines.push(format!("Set-Alias -Name {} -Value \"{}\"", name, cmd));
+        let escaped = cmd.replace('`', "``").replace('"', "`\"");
+        lines.push(format!("Set-Alias -Name {} -Value \"{}\"", name, escaped));
     }
 
     if !env.startup_commands.is_empty() {
diff --git a/crates/rez-next-solver/src/resolution.rs b/crates/rez-next-solver/src/resolution.rs
index c525975..fad1a03 100644
--- a/crates/rez-next-solver/src/resolution.rs
+++ b/crates/rez-next-solver/src/resolution.rs
@@ -247,7 +247,11 @@ impl EnvironmentSpec {
                 script.push_str("# Generated by rez-core\n\n");
 
                 for (name, value) in &self.environment_vars {
-                    script.push_str(&format!("export {}=\"{}\"\n", name, value));
+                    script.push_str(&format!(
+                        "export {}=\"{}\"\n",
+                        name,
+                        rez_next_common::shell_escape::escape_posix_double_quoted(value)
+                    ));
                 }
 
                 // Add tools to PATH
@@ -255,7 +259,10 @@ impl EnvironmentSpec {
                 if !tools.is_empty() {
                     script.push_str("\n# Add tools to PATH\n");
                     for tool in tools {
-                        script.push_str(&format!("export PATH=\"$PATH:/path/to/{}\"\n", tool));
+                        script.push_str(&format!(
+                            "export PATH=\"$PATH:/path/to/{}\"\n",
+                            rez_next_common::shell_escape::escape_posix_double_quoted(&tool)
+                        ));
                     }
                 }
             }
@@ -280,7 +287,11 @@ impl EnvironmentSpec {
                 script.push_str("# Generated by rez-core\n\n");
 
                 for (name, value) in &self.environment_vars {
-                    script.push_str(&format!("$env:{} = \"{}\"\n", name, value));
+                    script.push_str(&format!(
+                        "$env:{} = \"{}\"\n",
+                        name,
+                        rez_next_common::shell_escape::escape_powershell_double_quoted(value)
+                    ));
                 }
 
                 // Add tools to PATH
@@ -288,7 +299,10 @@ impl EnvironmentSpec {
                 if !tools.is_empty() {
                     script.push_str("\n# Add tools to PATH\n");
                     for tool in tools {
-                        script.push_str(&format!("$env:PATH += \";C:\\path\\to\\{}\"\n", tool));
+                        script.push_str(&format!(
+                            "$env:PATH += \";C:\\path\\to\\{}\"\n",
+                            rez_next_common::shell_escape::escape_powershell_double_quoted(&tool)
+                        ));
                     }
                 }
             }
diff --git a/src/cli/commands/context.rs b/src/cli/commands/context.rs
index f93bb42..fe07886 100644
--- a/src/cli/commands/context.rs
+++ b/src/cli/commands/context.rs
@@ -329,14 +329,22 @@ fn interpret_context(context: &RezResolvedContext, args: &ContextArgs) -> RezCor
         OutputFormat::Bash | OutputFormat::Zsh => {
             for (key, value) in &environ {
                 if is_package_variable(key, context) {
-                    println!("export {}=\"{}\"", key, value);
+                    println!(
+                        "export {}=\"{}\"",
+                        key,
+                        rez_next_common::shell_escape::escape_posix_double_quoted(value)
+                    );
                 }
             }
         }
         OutputFormat::Fish => {
             for (key, value) in &environ {
                 if is_package_variable(key, context) {
-                    println!("set -x {} \"{}\"", key, value);
+                    println!(
+                        "set -x {} \"{}\"",
+                        key,
+                        rez_next_common::shell_escape::escape_fish_double_quoted(value)
+                    );
                 }
             }
         }
@@ -350,7 +358,11 @@ fn interpret_context(context: &RezResolvedContext, args: &ContextArgs) -> RezCor
         OutputFormat::PowerShell => {
             for (key, value) in &environ {
                 if is_package_variable(key, context) {
-                    println!("$env:{} = \"{}\"", key, value);
+                    println!(
+                        "$env:{} = \"{}\"",
+                        key,
+                        rez_next_common::shell_escape::escape_powershell_double_quoted(value)
+                    );
                 }
             }
         }
diff --git a/src/cli/commands/env.rs b/src/cli/commands/env.rs
index 34eb028..7e66d4c 100644
--- a/src/cli/commands/env.rs
+++ b/src/cli/commands/env.rs
@@ -449,7 +449,11 @@ fn print_environment(context: &ResolvedContext, args: &EnvArgs) -> RezCoreResult
         _ => {
             // Shell format (default)
             for (key, value) in env_vars.iter() {
-                println!("export {}=\"{}\"", key, value);
+                println!(
+                    "export {}=\"{}\"",
+                    key,
+                    rez_next_common::shell_escape::escape_posix_double_quoted(value)
+                );
             }
         }
     }
-- 
2.43.0


From 0e62e3af93bec4da6ece874280b4dc5ee19d86ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:11 +0000
Subject: [PATCH 27/43] fix: rez release fails when its message file cannot be
 read

---
 src/cli/commands/release.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/cli/commands/release.rs b/src/cli/commands/release.rs
index 3a985a0..86eee04 100644
--- a/src/cli/commands/release.rs
+++ b/src/cli/commands/release.rs
@@ -117,6 +117,12 @@ pub fn execute(args: ReleaseArgs) -> RezCoreResult<()> {
         return Ok(());
     }
 
+    let message = match (&args.message, &args.message_file) {
+        (Some(message), _) => Some(message.clone()),
+        (None, Some(path)) => Some(std::fs::read_to_string(path)?),
+        (None, None) => None,
+    };
+
     // 5. Build package variants
     println!("Building package...");
     let install_path = PathBuf::from(get_release_path());
@@ -167,11 +173,7 @@ pub fn execute(args: ReleaseArgs) -> RezCoreResult<()> {
 
     // 6. Create release tag in VCS
     let tag = format!("{}-{}", package.name, version_str);
-    let message = args
-        .message
-        .clone()
-        .or_else(|| read_message_file(args.message_file.as_ref()))
-        .unwrap_or_else(|| format!("Release {}", tag));
+    let message = message.unwrap_or_else(|| format!("Release {}", tag));
 
     if vcs_type == "git" {
         create_git_tag(&working_dir, &tag, &message, args.verbose)?;
@@ -372,11 +374,6 @@ fn create_git_tag(
     Ok(())
 }
 
-/// Read release message from file
-fn read_message_file(path: Option<&PathBuf>) -> Option<String> {
-    path.and_then(|p| std::fs::read_to_string(p).ok())
-}
-
 /// Get release packages path from config
 fn get_release_path() -> String {
     RezCoreConfig::load().release_packages_path
-- 
2.43.0


From 790322737716e80740136f3083748e4e49a5c24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:54 +0000
Subject: [PATCH 28/43] fix: a release hook with an invalid configuration file
 is an error

---
 crates/rez-next-release-hook/src/builtin.rs | 49 ++++++++-------------
 1 file changed, 19 insertions(+), 30 deletions(-)

diff --git a/crates/rez-next-release-hook/src/builtin.rs b/crates/rez-next-release-hook/src/builtin.rs
index 769d241..ecd5b94 100644
--- a/crates/rez-next-release-hook/src/builtin.rs
+++ b/crates/rez-next-release-hook/src/builtin.rs
@@ -136,7 +136,7 @@ impl ReleaseHook for EmailHook {
     }
 
     fn new(source_path: PathBuf) -> Result<Self> {
-        let config = Self::read_config(&source_path).unwrap_or_default();
+        let config = read_config(&source_path)?;
         Ok(Self { config })
     }
 
@@ -192,22 +192,6 @@ impl ReleaseHook for EmailHook {
     }
 }
 
-impl EmailHook {
-    /// Read configuration from a file.
-    fn read_config(path: &std::path::Path) -> Option<EmailHookConfig> {
-        if !path.exists() {
-            return None;
-        }
-        let content = std::fs::read_to_string(path).ok()?;
-        if path.extension().and_then(|s| s.to_str()) == Some("json") {
-            serde_json::from_str(&content).ok()
-        } else {
-            // Assume TOML
-            toml::from_str(&content).ok()
-        }
-    }
-}
-
 /// A webhook release hook that sends HTTP requests.
 ///
 /// This hook sends HTTP requests to a configured URL before and after release.
@@ -222,7 +206,7 @@ impl ReleaseHook for WebHook {
     }
 
     fn new(source_path: PathBuf) -> Result<Self> {
-        let config = Self::read_config(&source_path).unwrap_or_default();
+        let config: WebHookConfig = read_config(&source_path)?;
         if config.url.is_empty() {
             return Err(crate::ReleaseHookError::Error(
                 "WebHook requires 'url' in configuration".to_string(),
@@ -286,18 +270,23 @@ impl ReleaseHook for WebHook {
     }
 }
 
-impl WebHook {
-    /// Read configuration from a file.
-    fn read_config(path: &std::path::Path) -> Option<WebHookConfig> {
-        if !path.exists() {
-            return None;
-        }
-        let content = std::fs::read_to_string(path).ok()?;
-        if path.extension().and_then(|s| s.to_str()) == Some("json") {
-            serde_json::from_str(&content).ok()
-        } else {
-            toml::from_str(&content).ok()
-        }
+/// Read a hook's configuration (JSON, otherwise TOML). Without a configuration file the
+/// defaults apply; a file that cannot be read or parsed is an error.
+fn read_config<T: Default + serde::de::DeserializeOwned>(path: &std::path::Path) -> Result<T> {
+    if !path.is_file() {
+        return Ok(T::default());
+    }
+    let invalid = |e: &dyn std::fmt::Display| {
+        crate::ReleaseHookError::Error(format!(
+            "Invalid hook configuration {}: {e}",
+            path.display()
+        ))
+    };
+    let content = std::fs::read_to_string(path).map_err(|e| invalid(&e))?;
+    if path.extension().and_then(|s| s.to_str()) == Some("json") {
+        serde_json::from_str(&content).map_err(|e| invalid(&e))
+    } else {
+        toml::from_str(&content).map_err(|e| invalid(&e))
     }
 }
 
-- 
2.43.0


From 6f939304dceabb27814eeff1bdde22f160df35e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:49 +0000
Subject: [PATCH 29/43] fix: pkg-cache add-variants reports a repository that
 cannot be read

---
 src/cli/commands/pkg_cache/ops.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/cli/commands/pkg_cache/ops.rs b/src/cli/commands/pkg_cache/ops.rs
index e1d53b4..f5ffe63 100644
--- a/src/cli/commands/pkg_cache/ops.rs
+++ b/src/cli/commands/pkg_cache/ops.rs
@@ -190,10 +190,7 @@ pub async fn add_variants(
             }
         }
 
-        let packages = repo_manager
-            .find_packages(&pkg_name)
-            .await
-            .unwrap_or_default();
+        let packages = repo_manager.find_packages(&pkg_name).await?;
 
         let pkg = packages.into_iter().find(|p| {
             version
-- 
2.43.0


From 3c9beacddf60c80f3407c8861ebcf0b79155bfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:10 +0000
Subject: [PATCH 30/43] fix: a malformed version in a package.xml is an error

---
 crates/rez-next-package/src/serialization/load.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/rez-next-package/src/serialization/load.rs b/crates/rez-next-package/src/serialization/load.rs
index b842bc4..b8f2251 100644
--- a/crates/rez-next-package/src/serialization/load.rs
+++ b/crates/rez-next-package/src/serialization/load.rs
@@ -253,9 +253,9 @@ impl PackageLoader {
             (content.find("<version>"), content.find("</version>"))
         {
             let version_str = &content[version_start + 9..version_end];
-            if let Ok(version) = Version::parse(version_str) {
-                package.version = Some(version);
-            }
+            let version = Version::parse(version_str)
+                .map_err(|e| RezCoreError::PackageParse(format!("Invalid version: {}", e)))?;
+            package.version = Some(version);
         }
 
         if let (Some(desc_start), Some(desc_end)) = (
-- 
2.43.0


From 93c4cee31e47ad436e2ae1a87b805fd8d5b1b554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:29 +0000
Subject: [PATCH 31/43] fix: a suite with an unknown conflict mode fails to
 load

---
 crates/rez-next-suites/src/suite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rez-next-suites/src/suite.rs b/crates/rez-next-suites/src/suite.rs
index 67887cb..92a6829 100644
--- a/crates/rez-next-suites/src/suite.rs
+++ b/crates/rez-next-suites/src/suite.rs
@@ -282,7 +282,7 @@ impl Suite {
             .as_deref()
             .unwrap_or("error")
             .parse()
-            .unwrap_or_default();
+            .map_err(SuiteError::Serialization)?;
 
         Ok(Suite {
             contexts: suite_file.contexts,
-- 
2.43.0


From 114f9d9189fa2ff6b11792f30e7ac20b3048e710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:32 +0000
Subject: [PATCH 32/43] fix: an assignment in package.py that is not understood
 is an error

---
 .../src/python_ast_parser/commands.rs                 |  8 +++++---
 crates/rez-next-package/src/python_ast_parser/mod.rs  | 11 +++++++----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/commands.rs b/crates/rez-next-package/src/python_ast_parser/commands.rs
index 70dbe3e..1499727 100644
--- a/crates/rez-next-package/src/python_ast_parser/commands.rs
+++ b/crates/rez-next-package/src/python_ast_parser/commands.rs
@@ -111,10 +111,12 @@ impl PythonAstParser {
                     && name_expr.id.as_str() == "env"
                 {
                     let var_name = attr.attr.as_str();
-                    if let Ok(value) = self.extract_string_value(&assign.value) {
-                        return Ok(Some(format!("env.setenv('{}', '{}')", var_name, value)));
-                    }
+                    let value = self.extract_string_value(&assign.value)?;
+                    return Ok(Some(format!("env.setenv('{}', '{}')", var_name, value)));
                 }
+                return Err(RezCoreError::PackageParse(format!(
+                    "Unsupported command statement: {assign:?}"
+                )));
             }
 
             // Handle function calls: env.method(...) and top-level Rex calls
diff --git a/crates/rez-next-package/src/python_ast_parser/mod.rs b/crates/rez-next-package/src/python_ast_parser/mod.rs
index f2253fe..cd1d760 100644
--- a/crates/rez-next-package/src/python_ast_parser/mod.rs
+++ b/crates/rez-next-package/src/python_ast_parser/mod.rs
@@ -61,7 +61,12 @@ impl PythonAstParser {
     ) -> Result<(), RezCoreError> {
         match stmt {
             Stmt::Assign(assign) => {
-                if let Some(Expr::Name(name_expr)) = assign.targets.first() {
+                for target in &assign.targets {
+                    let Expr::Name(name_expr) = target else {
+                        return Err(RezCoreError::PackageParse(format!(
+                            "Unsupported package.py assignment: {assign:?}"
+                        )));
+                    };
                     self.process_assignment(&name_expr.id, &assign.value, package_data)?;
                 }
             }
@@ -247,9 +252,7 @@ impl PythonAstParser {
                 package_data.tests = self.extract_tests(value)?;
             }
             "commands" => {
-                if let Ok(s) = self.extract_string_value(value) {
-                    package_data.commands_function = Some(s);
-                }
+                package_data.commands_function = Some(self.extract_string_value(value)?);
             }
             "pre_commands" => {
                 package_data.pre_commands = Some(self.extract_string_value(value)?);
-- 
2.43.0


From 0feb8377dd03966d3136e5db0d544aedc9565f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:34 +0000
Subject: [PATCH 33/43] fix: a boolean operation on other values in package.py
 is an error

---
 .../src/python_ast_parser/eval.rs               | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/eval.rs b/crates/rez-next-package/src/python_ast_parser/eval.rs
index 297fe1e..1c4d6bb 100644
--- a/crates/rez-next-package/src/python_ast_parser/eval.rs
+++ b/crates/rez-next-package/src/python_ast_parser/eval.rs
@@ -170,21 +170,26 @@ impl PythonAstParser {
         &self,
         boolop: &rustpython_ast::ExprBoolOp,
     ) -> Result<PythonValue, RezCoreError> {
+        let unsupported_operand = |operand: &PythonValue| {
+            RezCoreError::PackageParse(format!("Unsupported boolean operand: {operand:?}"))
+        };
         match &boolop.op {
             BoolOp::And => {
                 for value in &boolop.values {
-                    let result = self.evaluate_expression(value)?;
-                    if let PythonValue::Boolean(false) = result {
-                        return Ok(PythonValue::Boolean(false));
+                    match self.evaluate_expression(value)? {
+                        PythonValue::Boolean(true) => {}
+                        PythonValue::Boolean(false) => return Ok(PythonValue::Boolean(false)),
+                        operand => return Err(unsupported_operand(&operand)),
                     }
                 }
                 Ok(PythonValue::Boolean(true))
             }
             BoolOp::Or => {
                 for value in &boolop.values {
-                    let result = self.evaluate_expression(value)?;
-                    if let PythonValue::Boolean(true) = result {
-                        return Ok(PythonValue::Boolean(true));
+                    match self.evaluate_expression(value)? {
+                        PythonValue::Boolean(true) => return Ok(PythonValue::Boolean(true)),
+                        PythonValue::Boolean(false) => {}
+                        operand => return Err(unsupported_operand(&operand)),
                     }
                 }
                 Ok(PythonValue::Boolean(false))
-- 
2.43.0


From 72ba75f0ca34d3cf7620d0f9fc88f721cd73e582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:06 +0000
Subject: [PATCH 34/43] fix: unpacking another dictionary in package.py is an
 error

---
 .../src/python_ast_parser/eval.rs             | 23 +++++++++++--------
 .../src/python_ast_parser/extract.rs          | 13 +++++++----
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/eval.rs b/crates/rez-next-package/src/python_ast_parser/eval.rs
index 1c4d6bb..7cfe53c 100644
--- a/crates/rez-next-package/src/python_ast_parser/eval.rs
+++ b/crates/rez-next-package/src/python_ast_parser/eval.rs
@@ -222,17 +222,20 @@ impl PythonAstParser {
     fn evaluate_dict(&self, dict: &rustpython_ast::ExprDict) -> Result<PythonValue, RezCoreError> {
         let mut result = HashMap::new();
         for (key, value) in dict.keys.iter().zip(dict.values.iter()) {
-            if let Some(key) = key {
-                let key_val = self.evaluate_expression(key)?;
-                let value_val = self.evaluate_expression(value)?;
+            let Some(key) = key else {
+                return Err(RezCoreError::PackageParse(
+                    "Unsupported dictionary unpacking".to_string(),
+                ));
+            };
+            let key_val = self.evaluate_expression(key)?;
+            let value_val = self.evaluate_expression(value)?;
 
-                if let PythonValue::String(key_str) = key_val {
-                    result.insert(key_str, value_val);
-                } else {
-                    return Err(RezCoreError::PackageParse(
-                        "Dictionary keys must be strings".to_string(),
-                    ));
-                }
+            if let PythonValue::String(key_str) = key_val {
+                result.insert(key_str, value_val);
+            } else {
+                return Err(RezCoreError::PackageParse(
+                    "Dictionary keys must be strings".to_string(),
+                ));
             }
         }
         Ok(PythonValue::Dict(result))
diff --git a/crates/rez-next-package/src/python_ast_parser/extract.rs b/crates/rez-next-package/src/python_ast_parser/extract.rs
index f46a868..6b54ceb 100644
--- a/crates/rez-next-package/src/python_ast_parser/extract.rs
+++ b/crates/rez-next-package/src/python_ast_parser/extract.rs
@@ -161,11 +161,14 @@ impl PythonAstParser {
                 Expr::Dict(dict) => {
                     let mut result = HashMap::new();
                     for (key, value) in dict.keys.iter().zip(dict.values.iter()) {
-                        if let Some(key) = key {
-                            let key_str = self.extract_string_value(key)?;
-                            let value_str = self.extract_string_value(value)?;
-                            result.insert(key_str, value_str);
-                        }
+                        let Some(key) = key else {
+                            return Err(RezCoreError::PackageParse(
+                                "Unsupported dictionary unpacking".to_string(),
+                            ));
+                        };
+                        let key_str = self.extract_string_value(key)?;
+                        let value_str = self.extract_string_value(value)?;
+                        result.insert(key_str, value_str);
                     }
                     Ok(result)
                 }
-- 
2.43.0


From c232259ecaf4d1fc16e1e32f63611d8e2eb5d415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:08 +0000
Subject: [PATCH 35/43] fix: keyword arguments of a call in package.py are an
 error

---
 crates/rez-next-package/src/python_ast_parser/commands.rs | 5 +++++
 crates/rez-next-package/src/python_ast_parser/eval.rs     | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/crates/rez-next-package/src/python_ast_parser/commands.rs b/crates/rez-next-package/src/python_ast_parser/commands.rs
index 1499727..f4347e3 100644
--- a/crates/rez-next-package/src/python_ast_parser/commands.rs
+++ b/crates/rez-next-package/src/python_ast_parser/commands.rs
@@ -122,6 +122,11 @@ impl PythonAstParser {
             // Handle function calls: env.method(...) and top-level Rex calls
             Stmt::Expr(expr_stmt) => {
                 if let Expr::Call(call) = &*expr_stmt.value {
+                    if !call.keywords.is_empty() {
+                        return Err(RezCoreError::PackageParse(format!(
+                            "Unsupported keyword arguments: {call:?}"
+                        )));
+                    }
                     if let Expr::Attribute(attr) = &*call.func {
                         // ─── env.method('VAR', ...) ───────────────────────────
                         if let Expr::Name(obj) = &*attr.value
diff --git a/crates/rez-next-package/src/python_ast_parser/eval.rs b/crates/rez-next-package/src/python_ast_parser/eval.rs
index 7cfe53c..950d767 100644
--- a/crates/rez-next-package/src/python_ast_parser/eval.rs
+++ b/crates/rez-next-package/src/python_ast_parser/eval.rs
@@ -246,6 +246,11 @@ impl PythonAstParser {
         &self,
         call: &rustpython_ast::ExprCall,
     ) -> Result<PythonValue, RezCoreError> {
+        if !call.keywords.is_empty() {
+            return Err(RezCoreError::PackageParse(format!(
+                "Unsupported keyword arguments: {call:?}"
+            )));
+        }
         if let Expr::Attribute(attribute) = &*call.func {
             if let Expr::Name(owner) = &*attribute.value
                 && owner.id.as_str() == "os"
-- 
2.43.0


From 5d8bc29d76be9335371494ac5e329a0049490685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:08 +0000
Subject: [PATCH 36/43] fix: a package.yaml or package.json is loaded with all
 its attributes

---
 .../src/serialization/load.rs                 | 138 ++++++++----------
 1 file changed, 60 insertions(+), 78 deletions(-)

diff --git a/crates/rez-next-package/src/serialization/load.rs b/crates/rez-next-package/src/serialization/load.rs
index b8f2251..39d8297 100644
--- a/crates/rez-next-package/src/serialization/load.rs
+++ b/crates/rez-next-package/src/serialization/load.rs
@@ -131,89 +131,71 @@ impl PackageLoader {
 
         let mut package = Package::new(name);
 
-        if let Some(version_value) = json_data.get("version")
-            && let Some(version_str) = version_value.as_str()
-        {
-            let version = Version::parse(version_str)
-                .map_err(|e| RezCoreError::PackageParse(format!("Invalid version: {}", e)))?;
-            package.version = Some(version);
-        }
-
-        if let Some(description_value) = json_data.get("description")
-            && let Some(description) = description_value.as_str()
-        {
-            package.description = Some(description.to_string());
-        }
-
-        if let Some(authors_value) = json_data.get("authors")
-            && let Some(authors_array) = authors_value.as_array()
-        {
-            package.authors = authors_array
-                .iter()
-                .filter_map(|v| v.as_str())
-                .map(|s| s.to_string())
-                .collect();
-        }
-
-        if let Some(requires_value) = json_data.get("requires")
-            && let Some(requires_array) = requires_value.as_array()
-        {
-            package.requires = requires_array
-                .iter()
-                .filter_map(|v| v.as_str())
-                .map(|s| s.to_string())
-                .collect();
-        }
-
-        if let Some(build_requires_value) = json_data.get("build_requires")
-            && let Some(build_requires_array) = build_requires_value.as_array()
-        {
-            package.build_requires = build_requires_array
-                .iter()
-                .filter_map(|v| v.as_str())
-                .map(|s| s.to_string())
-                .collect();
-        }
+        let data = &json_data;
+        package.version = Self::version_attribute(data, "version")?;
+        package.previous_version = Self::version_attribute(data, "previous_version")?;
+        package.description = Self::attribute(data, "description")?;
+        package.authors = Self::attribute(data, "authors")?;
+        package.requires = Self::attribute(data, "requires")?;
+        package.build_requires = Self::attribute(data, "build_requires")?;
+        package.private_build_requires = Self::attribute(data, "private_build_requires")?;
+        package.variants = Self::attribute(data, "variants")?;
+        package.tools = Self::attribute(data, "tools")?;
+        package.commands = Self::attribute(data, "commands")?;
+        package.build_command = Self::attribute(data, "build_command")?;
+        package.build_system = Self::attribute(data, "build_system")?;
+        package.pre_commands = Self::attribute(data, "pre_commands")?;
+        package.post_commands = Self::attribute(data, "post_commands")?;
+        package.pre_test_commands = Self::attribute(data, "pre_test_commands")?;
+        package.pre_build_commands = Self::attribute(data, "pre_build_commands")?;
+        package.tests = Self::attribute(data, "tests")?;
+        package.requires_rez_version = Self::attribute(data, "requires_rez_version")?;
+        package.uuid = Self::attribute(data, "uuid")?;
+        package.help = Self::attribute(data, "help")?;
+        package.relocatable = Self::attribute(data, "relocatable")?;
+        package.cachable = Self::attribute(data, "cachable")?;
+        package.timestamp = Self::attribute(data, "timestamp")?;
+        package.revision = Self::attribute(data, "revision")?;
+        package.changelog = Self::attribute(data, "changelog")?;
+        package.release_message = Self::attribute(data, "release_message")?;
+        package.previous_revision = Self::attribute(data, "previous_revision")?;
+        package.vcs = Self::attribute(data, "vcs")?;
+        package.format_version = Self::attribute(data, "format_version")?;
+        package.base = Self::attribute(data, "base")?;
+        package.has_plugins = Self::attribute(data, "has_plugins")?;
+        package.plugin_for = Self::attribute(data, "plugin_for")?;
+        package.hashed_variants = Self::attribute(data, "hashed_variants")?;
+        package.preprocess = Self::attribute(data, "preprocess")?;
+        package.commands_function = package.commands.clone();
 
-        if let Some(private_build_requires_value) = json_data.get("private_build_requires")
-            && let Some(arr) = private_build_requires_value.as_array()
-        {
-            package.private_build_requires = arr
-                .iter()
-                .filter_map(|v| v.as_str())
-                .map(|s| s.to_string())
-                .collect();
-        }
+        package.validate()?;
 
-        if let Some(variants_value) = json_data.get("variants")
-            && let Some(variants_array) = variants_value.as_array()
-        {
-            package.variants = variants_array
-                .iter()
-                .filter_map(|v| v.as_array())
-                .map(|variant_array| {
-                    variant_array
-                        .iter()
-                        .filter_map(|v| v.as_str())
-                        .map(|s| s.to_string())
-                        .collect()
-                })
-                .collect();
-        }
+        Ok(package)
+    }
 
-        if let Some(tools_value) = json_data.get("tools")
-            && let Some(tools_array) = tools_value.as_array()
-        {
-            package.tools = tools_array
-                .iter()
-                .filter_map(|v| v.as_str())
-                .map(|s| s.to_string())
-                .collect();
+    /// Read an attribute; absent is empty, and a value of another type is an error
+    fn attribute<T>(data: &HashMap<String, serde_json::Value>, key: &str) -> Result<T, RezCoreError>
+    where
+        T: serde::de::DeserializeOwned + Default,
+    {
+        match data.get(key) {
+            None | Some(serde_json::Value::Null) => Ok(T::default()),
+            Some(value) => serde_json::from_value(value.clone())
+                .map_err(|e| RezCoreError::PackageParse(format!("Invalid '{}': {}", key, e))),
         }
+    }
 
-        package.validate()?;
-
-        Ok(package)
+    /// Read a version attribute
+    fn version_attribute(
+        data: &HashMap<String, serde_json::Value>,
+        key: &str,
+    ) -> Result<Option<Version>, RezCoreError> {
+        let Some(version) = Self::attribute::<Option<String>>(data, key)? else {
+            return Ok(None);
+        };
+        Version::parse(&version)
+            .map(Some)
+            .map_err(|e| RezCoreError::PackageParse(format!("Invalid {}: {}", key, e)))
     }
 
     /// Load a package from base64-wrapped bincode content.
-- 
2.43.0


From 63a206198d6e1d41710e5f3fe4c4c33244776918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:10 +0000
Subject: [PATCH 37/43] fix: a package saved with metadata can be loaded again

---
 crates/rez-next-package/src/serialization/load.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/rez-next-package/src/serialization/load.rs b/crates/rez-next-package/src/serialization/load.rs
index 39d8297..2956bd0 100644
--- a/crates/rez-next-package/src/serialization/load.rs
+++ b/crates/rez-next-package/src/serialization/load.rs
@@ -121,6 +121,13 @@ impl PackageLoader {
     fn load_from_json_data(
         json_data: HashMap<String, serde_json::Value>,
     ) -> Result<Package, RezCoreError> {
+        // Saved with metadata, the package is wrapped in a container
+        if let (None, Some(serde_json::Value::Object(package))) =
+            (json_data.get("name"), json_data.get("package"))
+        {
+            return Self::load_from_json_data(package.clone().into_iter().collect());
+        }
+
         let name = json_data
             .get("name")
             .and_then(|v| v.as_str())
-- 
2.43.0


From 22f7be53c79c7f4edc2a9a5ae01371a7037725ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:10 +0000
Subject: [PATCH 38/43] fix: the binary form of a package can be loaded again

---
 crates/rez-next-package/src/package/serialize.rs  | 3 ++-
 crates/rez-next-package/src/serialization/load.rs | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-package/src/package/serialize.rs b/crates/rez-next-package/src/package/serialize.rs
index bc18cf5..99a2b55 100644
--- a/crates/rez-next-package/src/package/serialize.rs
+++ b/crates/rez-next-package/src/package/serialize.rs
@@ -6,7 +6,7 @@ use std::collections::HashMap;
 use super::types::Package;
 
 /// Number of fields serialized in the Package struct (excludes `config` and `commands_function`).
-const PACKAGE_SERIALIZED_FIELD_COUNT: usize = 35;
+const PACKAGE_SERIALIZED_FIELD_COUNT: usize = 36;
 
 impl Serialize for Package {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
@@ -51,6 +51,7 @@ impl Serialize for Package {
         state.serialize_field("plugin_for", &self.plugin_for)?;
         state.serialize_field("hashed_variants", &self.hashed_variants)?;
         state.serialize_field("preprocess", &self.preprocess)?;
+        state.serialize_field("is_dev_package", &self.is_dev_package)?;
         state.end()
     }
 }
diff --git a/crates/rez-next-package/src/serialization/load.rs b/crates/rez-next-package/src/serialization/load.rs
index 2956bd0..3fb5731 100644
--- a/crates/rez-next-package/src/serialization/load.rs
+++ b/crates/rez-next-package/src/serialization/load.rs
@@ -173,6 +173,7 @@ impl PackageLoader {
         package.plugin_for = Self::attribute(data, "plugin_for")?;
         package.hashed_variants = Self::attribute(data, "hashed_variants")?;
         package.preprocess = Self::attribute(data, "preprocess")?;
+        package.is_dev_package = Self::attribute(data, "is_dev_package")?;
         package.commands_function = package.commands.clone();
 
         package.validate()?;
-- 
2.43.0


From 000ce6f44048c9af8a619807b770948e99d1c440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:12 +0000
Subject: [PATCH 39/43] fix: a package saved as package.py keeps its attributes

---
 .../src/serialization/save.rs                 | 102 +++++++++++-------
 1 file changed, 62 insertions(+), 40 deletions(-)

diff --git a/crates/rez-next-package/src/serialization/save.rs b/crates/rez-next-package/src/serialization/save.rs
index b060c3f..9fb85d6 100644
--- a/crates/rez-next-package/src/serialization/save.rs
+++ b/crates/rez-next-package/src/serialization/save.rs
@@ -267,61 +267,83 @@ impl PackageSaver {
             content.push_str("# Do not edit manually\n\n");
         }
 
-        content.push_str(&format!("name = \"{}\"\n", package.name));
-
-        if let Some(ref version) = package.version {
-            content.push_str(&format!("version = \"{}\"\n", version.as_str()));
-        }
-
-        if let Some(ref description) = package.description {
-            content.push_str(&format!("description = \"{}\"\n", description));
+        let text = |value: &str| serde_json::Value::from(value).to_string();
+        let strings = [
+            ("name", Some(package.name.as_str())),
+            ("version", package.version.as_ref().map(|v| v.as_str())),
+            ("description", package.description.as_deref()),
+            ("build_command", package.build_command.as_deref()),
+            ("build_system", package.build_system.as_deref()),
+            ("commands", package.commands.as_deref()),
+            ("pre_commands", package.pre_commands.as_deref()),
+            ("post_commands", package.post_commands.as_deref()),
+            ("pre_test_commands", package.pre_test_commands.as_deref()),
+            ("pre_build_commands", package.pre_build_commands.as_deref()),
+            (
+                "requires_rez_version",
+                package.requires_rez_version.as_deref(),
+            ),
+            ("uuid", package.uuid.as_deref()),
+            ("help", package.help.as_deref()),
+            ("base", package.base.as_deref()),
+            ("preprocess", package.preprocess.as_deref()),
+        ];
+        for (attribute, value) in strings {
+            if let Some(value) = value {
+                content.push_str(&format!("{} = {}\n", attribute, text(value)));
+            }
         }
 
-        if !package.authors.is_empty() {
-            content.push_str("authors = [\n");
-            for author in &package.authors {
-                content.push_str(&format!("    \"{}\",\n", author));
+        let lists = [
+            ("authors", &package.authors),
+            ("requires", &package.requires),
+            ("build_requires", &package.build_requires),
+            ("private_build_requires", &package.private_build_requires),
+            ("tools", &package.tools),
+            ("plugin_for", &package.plugin_for),
+        ];
+        for (attribute, values) in lists {
+            if !values.is_empty() {
+                content.push_str(&format!("{} = [\n", attribute));
+                for value in values {
+                    content.push_str(&format!("    {},\n", text(value)));
+                }
+                content.push_str("]\n");
             }
-            content.push_str("]\n");
         }
 
-        if !package.requires.is_empty() {
-            content.push_str("requires = [\n");
-            for req in &package.requires {
-                content.push_str(&format!("    \"{}\",\n", req));
+        if !package.variants.is_empty() {
+            content.push_str("variants = [\n");
+            for variant in &package.variants {
+                let requirements: Vec<String> = variant.iter().map(|r| text(r)).collect();
+                content.push_str(&format!("    [{}],\n", requirements.join(", ")));
             }
             content.push_str("]\n");
         }
 
-        if !package.build_requires.is_empty() {
-            content.push_str("build_requires = [\n");
-            for req in &package.build_requires {
-                content.push_str(&format!("    \"{}\",\n", req));
+        if !package.tests.is_empty() {
+            content.push_str("tests = {\n");
+            for (name, command) in &package.tests {
+                content.push_str(&format!("    {}: {},\n", text(name), text(command)));
             }
-            content.push_str("]\n");
+            content.push_str("}\n");
         }
 
-        if !package.variants.is_empty() {
-            content.push_str("variants = [\n");
-            for variant in &package.variants {
-                content.push_str("    [");
-                for (i, req) in variant.iter().enumerate() {
-                    if i > 0 {
-                        content.push_str(", ");
-                    }
-                    content.push_str(&format!("\"{}\"", req));
-                }
-                content.push_str("],\n");
+        let flags = [
+            ("relocatable", package.relocatable),
+            ("cachable", package.cachable),
+            ("has_plugins", package.has_plugins),
+            ("hashed_variants", package.hashed_variants),
+        ];
+        for (attribute, value) in flags {
+            if let Some(value) = value {
+                let value = if value { "True" } else { "False" };
+                content.push_str(&format!("{} = {}\n", attribute, value));
             }
-            content.push_str("]\n");
         }
 
-        if !package.tools.is_empty() {
-            content.push_str("tools = [\n");
-            for tool in &package.tools {
-                content.push_str(&format!("    \"{}\",\n", tool));
-            }
-            content.push_str("]\n");
+        if let Some(format_version) = package.format_version {
+            content.push_str(&format!("format_version = {}\n", format_version));
         }
 
         Ok(content)
-- 
2.43.0


From 4747ecfb35468ac89895170fa7e20aeaec76732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:45 +0000
Subject: [PATCH 40/43] fix: a version range loaded again contains the same
 versions

---
 crates/rez-next-version/src/range/mod.rs   | 3 ---
 crates/rez-next-version/src/range/types.rs | 5 +++--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/rez-next-version/src/range/mod.rs b/crates/rez-next-version/src/range/mod.rs
index 3e7c139..ae05943 100644
--- a/crates/rez-next-version/src/range/mod.rs
+++ b/crates/rez-next-version/src/range/mod.rs
@@ -23,13 +23,10 @@ pub struct VersionRange {
     /// Cached string representation
     pub range_str: String,
     /// Parsed bound sets (disjunction - any must match)
-    #[serde(skip)]
     bound_sets: Vec<BoundSet>,
     /// Whether the range was successfully parsed
-    #[serde(skip)]
     is_parsed: bool,
     /// Ranges to subtract (for set difference operations)
-    #[serde(skip)]
     subtract_from: Vec<VersionRange>,
 }
 
diff --git a/crates/rez-next-version/src/range/types.rs b/crates/rez-next-version/src/range/types.rs
index 4423ba0..ba45bc3 100644
--- a/crates/rez-next-version/src/range/types.rs
+++ b/crates/rez-next-version/src/range/types.rs
@@ -1,9 +1,10 @@
 //! Core bound types for version range representation.
 
 use super::super::Version;
+use serde::{Deserialize, Serialize};
 
 /// A single bound in a version range
-#[derive(Clone, Debug, PartialEq, Eq)]
+#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
 pub(super) enum Bound {
     /// >= version
     Ge(Version),
@@ -26,7 +27,7 @@ pub(super) enum Bound {
 }
 
 /// A conjunction of bounds (all must be satisfied)
-#[derive(Clone, Debug, PartialEq, Eq)]
+#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
 pub(super) struct BoundSet {
     pub(super) bounds: Vec<Bound>,
 }
-- 
2.43.0


From 9f0d5a1861bc1b9397e8166303892569675ecbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:18 +0000
Subject: [PATCH 41/43] fix: a package filter saved without rules can be loaded
 again

---
 crates/rez-next-package-filter/src/filter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-package-filter/src/filter.rs b/crates/rez-next-package-filter/src/filter.rs
index 8530f1c..9ef6fb2 100644
--- a/crates/rez-next-package-filter/src/filter.rs
+++ b/crates/rez-next-package-filter/src/filter.rs
@@ -18,12 +18,12 @@ use super::RuleMatch;
 #[derive(Debug, Clone, Default, Serialize, Deserialize)]
 pub struct PackageFilter {
     /// Exclusion rules - packages matching any of these are excluded
-    #[serde(skip_serializing_if = "Vec::is_empty")]
+    #[serde(default, skip_serializing_if = "Vec::is_empty")]
     pub exclusions: Vec<RulePod>,
 
     /// Inclusion rules - packages matching any of these are included
     /// (overrides exclusion)
-    #[serde(skip_serializing_if = "Vec::is_empty")]
+    #[serde(default, skip_serializing_if = "Vec::is_empty")]
     pub inclusions: Vec<RulePod>,
 
     /// Cache for computed SHA1 (lazily computed)
-- 
2.43.0


From 3bd91275d2c5b01b80e669784cecfb6cffcac42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:37 +0000
Subject: [PATCH 42/43] fix: the Python build_package reports a variant whose
 build failed

---
 crates/rez-next-python/src/build_functions.rs | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/crates/rez-next-python/src/build_functions.rs b/crates/rez-next-python/src/build_functions.rs
index e1b16f9..8d09260 100644
--- a/crates/rez-next-python/src/build_functions.rs
+++ b/crates/rez-next-python/src/build_functions.rs
@@ -73,28 +73,26 @@ pub fn build_package(
         .block_on(build_manager.start_build(request))
         .map_err(|e| pyo3::exceptions::PyRuntimeError::new_err(e.to_string()))?;
 
-    // Wait for all builds to complete, use the first result
-    let mut final_result = None;
+    // Wait for all builds to complete; the first that failed decides
+    let mut failed = None;
     for build_id in &build_ids {
         let result = rt
             .block_on(build_manager.wait_for_build(build_id))
             .map_err(|e| pyo3::exceptions::PyRuntimeError::new_err(e.to_string()))?;
-        if final_result.is_none() {
-            final_result = Some(result);
+        if !result.success && failed.is_none() {
+            failed = Some(result);
         }
     }
-    let result = final_result.unwrap();
 
-    if result.success {
-        Ok(format!(
+    match failed {
+        None => Ok(format!(
             "Build succeeded: {} builds completed",
             build_ids.len()
-        ))
-    } else {
-        Err(pyo3::exceptions::PyRuntimeError::new_err(format!(
+        )),
+        Some(result) => Err(pyo3::exceptions::PyRuntimeError::new_err(format!(
             "Build failed: {}",
             result.errors
-        )))
+        ))),
     }
 }
 
-- 
2.43.0


From 980f44f3eb2ba6908d552885b864e313017b9055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:45 +0000
Subject: [PATCH 43/43] fix: rez pip does not overwrite an installed package
 without --force

---
 src/cli/commands/pip.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cli/commands/pip.rs b/src/cli/commands/pip.rs
index b7fc4ea..0f9bb16 100644
--- a/src/cli/commands/pip.rs
+++ b/src/cli/commands/pip.rs
@@ -128,6 +128,13 @@ pub fn execute(args: PipArgs) -> RezCoreResult<()> {
                 .join(info.name.to_lowercase().replace('-', "_"))
                 .join(&info.version);
 
+            if !args.force && rez_pkg_dir.exists() {
+                return Err(RezCoreError::ExecutionError(format!(
+                    "Package already exists: {}. Use --force to reinstall.",
+                    rez_pkg_dir.display()
+                )));
+            }
+
             create_rez_package(&info, &tmp_path, &rez_pkg_dir, &args)?;
 
             println!("  -> Rez package created: {}", rez_pkg_dir.display());
-- 
2.43.0

