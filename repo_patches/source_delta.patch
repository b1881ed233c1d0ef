From 178abb46f4f9965bf046ae472fde8c2d1d4c6f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 01/29] hook: let a simulator supply the S3 client (cfg
 artefacta_sim)

---
 src/lib.rs        |  6 ++++++
 src/sim_hooks.rs  | 22 ++++++++++++++++++++++
 src/storage/s3.rs |  5 +++++
 3 files changed, 33 insertions(+)
 create mode 100644 src/sim_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index ff2c321..cbe619e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,6 @@
+// `artefacta_sim` is a plain `--cfg` flag that no regular build sets
+#![allow(unknown_lints, unexpected_cfgs)]
+
 use std::{convert::TryFrom, fs, path::Path};
 
 use cli::AddBuild;
@@ -27,6 +30,9 @@ pub mod git;
 
 pub mod cli;
 
+#[cfg(artefacta_sim)]
+pub mod sim_hooks;
+
 #[cfg(test)]
 pub(crate) mod test_helpers;
 
diff --git a/src/sim_hooks.rs b/src/sim_hooks.rs
new file mode 100644
index 0000000..d3e5dc6
--- /dev/null
+++ b/src/sim_hooks.rs
@@ -0,0 +1,22 @@
+//! Seams used by the deterministic simulator.
+//!
+//! Only compiled with `RUSTFLAGS="--cfg artefacta_sim"`. Regular builds do not
+//! contain this module.
+
+use std::sync::RwLock;
+
+type S3ClientProvider = fn() -> Option<rusoto_core::Client>;
+
+static S3_CLIENT: RwLock<Option<S3ClientProvider>> = RwLock::new(None);
+
+/// Ask this function for the client (i.e. the credentials and the request
+/// dispatcher) to use whenever an S3 client is built. If it returns `None`, the
+/// regular client is used.
+pub fn set_s3_client_provider(provider: Option<S3ClientProvider>) {
+    *S3_CLIENT.write().unwrap() = provider;
+}
+
+pub(crate) fn s3_client() -> Option<rusoto_core::Client> {
+    let provider = *S3_CLIENT.read().unwrap();
+    provider.and_then(|provider| provider())
+}
diff --git a/src/storage/s3.rs b/src/storage/s3.rs
index de24a1d..ceed419 100644
--- a/src/storage/s3.rs
+++ b/src/storage/s3.rs
@@ -75,6 +75,11 @@ impl<'a> TryFrom<&'a Bucket> for S3Client {
             endpoint: bucket.endpoint.clone(),
         };
 
+        #[cfg(artefacta_sim)]
+        if let Some(client) = crate::sim_hooks::s3_client() {
+            return Ok(S3Client::new_with_client(client, region));
+        }
+
         Ok(S3Client::new(region))
     }
 }
-- 
2.43.0


From 1b8b0813518720d93d86c00e81992da1542baa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:23 +0000
Subject: [PATCH 02/29] fix: never share a temporary file between two processes

The name of a partial file only depended on the target and the current second,
and an existing file of that name was truncated. Two commands writing the same
artefact at the same time wrote into one file.
---
 src/partial_file.rs | 49 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/partial_file.rs b/src/partial_file.rs
index dd30cc2..ddb113f 100644
--- a/src/partial_file.rs
+++ b/src/partial_file.rs
@@ -1,8 +1,8 @@
 use erreur::{Context, Result};
 use std::{
     ffi::OsString,
-    fs::{self, File},
-    io::{BufWriter, Write},
+    fs::{self, File, OpenOptions},
+    io::{self, BufWriter, Write},
     path::{Path, PathBuf},
     time::SystemTime,
 };
@@ -20,13 +20,8 @@ pub struct PartialFile {
 impl PartialFile {
     pub fn create(target_path: impl Into<PathBuf>) -> Result<Self> {
         let target_path: PathBuf = target_path.into();
-        let partial_path = generate_partial_file_name(&target_path)
-            .context("could not generate name for partial/temporary file")?;
-        let partial_file = File::create(&partial_path).with_context(|| {
-            format!(
-                "could not create partial/temp file `{}`",
-                partial_path.display()
-            )
+        let (partial_path, partial_file) = create_unique(&target_path, |path| {
+            OpenOptions::new().write(true).create_new(true).open(path)
         })?;
         let partial_file = BufWriter::new(partial_file);
 
@@ -98,7 +93,39 @@ impl Drop for PartialFile {
     }
 }
 
-fn generate_partial_file_name(path: &Path) -> Result<PathBuf> {
+/// Create something under a temporary name next to `path`.
+///
+/// `create` has to fail if the name is already taken: It may be in use by
+/// another process that is working on the same file right now.
+fn create_unique<T>(
+    path: &Path,
+    create: impl Fn(&Path) -> io::Result<T>,
+) -> Result<(PathBuf, T)> {
+    let mut attempt = 0;
+    loop {
+        let partial_path = generate_partial_file_name(path, attempt)
+            .context("could not generate name for partial/temporary file")?;
+        match create(&partial_path) {
+            Ok(x) => return Ok((partial_path, x)),
+            Err(e) if e.kind() == io::ErrorKind::AlreadyExists && attempt < MAX_ATTEMPTS => {
+                attempt += 1;
+            }
+            Err(e) => {
+                return Err(e).with_context(|| {
+                    format!(
+                        "could not create partial/temp file `{}`",
+                        partial_path.display()
+                    )
+                });
+            }
+        }
+    }
+}
+
+/// How many names to try before giving up on finding one that is not in use
+const MAX_ATTEMPTS: u32 = 1000;
+
+fn generate_partial_file_name(path: &Path, attempt: u32) -> Result<PathBuf> {
     let target_file_name = path
         .file_name()
         .with_context(|| format!("cannot get file name from path `{}`", path.display()))?;
@@ -106,7 +133,7 @@ fn generate_partial_file_name(path: &Path) -> Result<PathBuf> {
         let timestamp = SystemTime::now()
             .duration_since(SystemTime::UNIX_EPOCH)
             .context("cannot get timestamp")?;
-        format!("artefacta-temp-{}", timestamp.as_secs())
+        format!("artefacta-temp-{}-{}-", timestamp.as_secs(), attempt)
     };
     let new_file_name = {
         let mut res = OsString::from("._");
-- 
2.43.0


From 2117c105fe0aef55b9f0287ba99818810dedd2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:23 +0000
Subject: [PATCH 03/29] fix: write finished files to disk before announcing
 them

A partial file was renamed without syncing its content, so that a power loss
could leave an empty or torn artefact under the final name.
---
 src/partial_file.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/partial_file.rs b/src/partial_file.rs
index ddb113f..43632e9 100644
--- a/src/partial_file.rs
+++ b/src/partial_file.rs
@@ -40,6 +40,10 @@ impl PartialFile {
                 self.partial_path.display()
             )
         })?;
+        // The content has to be on disk before the file shows up under its name
+        self.partial_file.get_ref().sync_all().with_context(|| {
+            format!("failed to write `{}` to disk", self.partial_path.display())
+        })?;
         fs::rename(&self.partial_path, &self.target_path).with_context(|| {
             format!(
                 "cannot finish partial file `{}`, renaming it to `{}` failed",
@@ -48,6 +52,7 @@ impl PartialFile {
             )
         })?;
         self.finished = true;
+        sync_parent_dir(&self.target_path)?;
         File::open(&self.target_path)
             .with_context(|| format!("cannot open finished file `{}`", self.target_path.display()))
     }
@@ -93,6 +98,23 @@ impl Drop for PartialFile {
     }
 }
 
+/// Make sure a rename in the directory of `path` has reached the disk
+pub(crate) fn sync_parent_dir(path: &Path) -> Result<()> {
+    #[cfg(unix)]
+    {
+        let dir = match path.parent() {
+            Some(dir) if dir != Path::new("") => dir,
+            _ => Path::new("."),
+        };
+        File::open(dir)
+            .and_then(|dir| dir.sync_all())
+            .with_context(|| format!("failed to write directory `{}` to disk", dir.display()))?;
+    }
+    #[cfg(not(unix))]
+    let _ = path;
+    Ok(())
+}
+
 /// Create something under a temporary name next to `path`.
 ///
 /// `create` has to fail if the name is already taken: It may be in use by
-- 
2.43.0


From 1b78bd8db32b45d8afd52b28e3eef67541aeb142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:23 +0000
Subject: [PATCH 04/29] fix: copy files into a store atomically

Adding a file that is on disk copied it straight to its final name. A command
that was killed or ran out of disk space meanwhile left a broken artefact
behind, and other commands could read the incomplete file.
---
 src/partial_file.rs | 22 ++++++++++++++++++++++
 src/storage/mod.rs  | 11 ++++++++---
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/partial_file.rs b/src/partial_file.rs
index 43632e9..18c6c4d 100644
--- a/src/partial_file.rs
+++ b/src/partial_file.rs
@@ -33,6 +33,28 @@ impl PartialFile {
         })
     }
 
+    /// Append the content of another file and take over its permissions
+    pub fn copy_from(&mut self, source: &Path) -> Result<()> {
+        let mut source_file =
+            File::open(source).with_context(|| format!("open file `{}`", source.display()))?;
+        self.partial_file.flush().context("flush partial file")?;
+        io::copy(&mut source_file, self.partial_file.get_mut())
+            .with_context(|| format!("copy content of `{}`", source.display()))?;
+        let permissions = source_file
+            .metadata()
+            .with_context(|| format!("read metadata of `{}`", source.display()))?
+            .permissions();
+        self.partial_file
+            .get_ref()
+            .set_permissions(permissions)
+            .with_context(|| {
+                format!(
+                    "set permissions of partial file `{}`",
+                    self.partial_path.display()
+                )
+            })
+    }
+
     pub fn finish(mut self) -> Result<File> {
         self.partial_file.flush().with_context(|| {
             format!(
diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 9cd5d80..7496cb4 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -302,9 +302,14 @@ impl Storage {
 
                 match file {
                     File::InFilesystem(entry) => {
-                        fs::copy(&entry.path, &new_path).with_context(|| {
-                            format!("copy `{}` to `{}`", entry.path, new_path.display())
-                        })?;
+                        let mut new_file = PartialFile::create(&new_path)
+                            .with_context(|| format!("create `{}`", new_path.display()))?;
+                        new_file
+                            .copy_from(Path::new(&entry.path))
+                            .with_context(|| {
+                                format!("copy `{}` to `{}`", entry.path, new_path.display())
+                            })?;
+                        new_file.finish().context("finish writing to new file")?;
                     }
                     File::Inline(_, content) => {
                         let mut new_file = PartialFile::create(&new_path)
-- 
2.43.0


From 129f999266dbf6043ef6ea55b0e5db104eb64659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:30 +0000
Subject: [PATCH 05/29] fix: replace the `current` link atomically

The old link was removed before the new one was made: A failure or crash in
between left no `current` at all, and so did a second install at the same time.
A dangling link was not removed, so that creating the new one failed.
---
 src/lib.rs          | 11 +----------
 src/partial_file.rs | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cbe619e..6746f98 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -73,16 +73,7 @@ pub async fn install(
         }
     };
 
-    #[cfg(unix)]
-    use std::os::unix::fs::symlink;
-    #[cfg(windows)]
-    use std::os::windows::fs::symlink_file as symlink;
-
-    if current.exists() {
-        fs::remove_file(&current).context("clear old `current` symlink")?;
-    }
-
-    symlink(&target_build.path, &current).with_context(|| {
+    partial_file::replace_symlink(Path::new(&target_build.path), current).with_context(|| {
         format!(
             "create symlink pointing at new build: {} to {}",
             target_build.path,
diff --git a/src/partial_file.rs b/src/partial_file.rs
index 18c6c4d..aeb1474 100644
--- a/src/partial_file.rs
+++ b/src/partial_file.rs
@@ -120,6 +120,23 @@ impl Drop for PartialFile {
     }
 }
 
+/// Atomically make `link` a symlink to `target`, whatever it was before
+pub(crate) fn replace_symlink(target: &Path, link: &Path) -> Result<()> {
+    #[cfg(unix)]
+    use std::os::unix::fs::symlink;
+    #[cfg(windows)]
+    use std::os::windows::fs::symlink_file as symlink;
+
+    let (partial_link, ()) = create_unique(link, |path| symlink(target, path))?;
+    fs::rename(&partial_link, link)
+        .map_err(|e| {
+            let _ = fs::remove_file(&partial_link);
+            e
+        })
+        .with_context(|| format!("cannot move new symlink to `{}`", link.display()))?;
+    sync_parent_dir(link)
+}
+
 /// Make sure a rename in the directory of `path` has reached the disk
 pub(crate) fn sync_parent_dir(path: &Path) -> Result<()> {
     #[cfg(unix)]
-- 
2.43.0


From 9cac1d642ccfad5d1be2136c5c317977e5ab0a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:30 +0000
Subject: [PATCH 06/29] fix: install over a `current` link that points to
 nothing

With a dangling `current`, installing the version it names reported "already
installed", and installing another one failed if the old build was unknown.
---
 src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6746f98..a716ea8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -45,8 +45,12 @@ pub async fn install(
     target_version: Version,
     current: &Path,
 ) -> Result<()> {
+    // A link to nothing (or to an empty file) doesn't tell us about any build
+    // that is actually installed
+    let is_installed = fs::metadata(&current).map_or(false, |build| build.len() > 0);
+
     let target_build = match fs::read_link(&current) {
-        Ok(curent_path) => {
+        Ok(curent_path) if is_installed => {
             let current_version = paths::build_version_from_path(&curent_path)?;
             log::debug!(
                 "identified version `{}` from path `{}`",
@@ -64,8 +68,8 @@ pub async fn install(
                 .await
                 .context("get build")?
         }
-        Err(e) => {
-            log::debug!("could not read `current` symlink: {}", e);
+        current_link => {
+            log::debug!("no usable `current` symlink: {:?}", current_link);
             index
                 .get_build(target_version.clone())
                 .await
-- 
2.43.0


From b8bfc352e680b0ef089f790f071449d0cc3d2a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:50 +0000
Subject: [PATCH 07/29] fix: do not report an install that a power loss would
 undo

An install killed right after replacing `current` may leave the new link in
memory only. Repeating it reported "already installed" without writing it out.
---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index a716ea8..7e19c91 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -60,6 +60,8 @@ pub async fn install(
 
             if current_version == target_version {
                 log::info!("version `{}` already installed", target_version);
+                // The command that installed it may not have got to this
+                partial_file::sync_parent_dir(current)?;
                 return Ok(());
             }
 
-- 
2.43.0


From 6aac63e6f6a9060cf8ba1f243f4fab415349fa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:50 +0000
Subject: [PATCH 08/29] fix: list a store that contains dangling links or is
 being changed

Every command failed if the store had a link to nothing (such as a `current`
whose build is gone), or if a temporary file of another command vanished while
the directory was read. Directories were taken for artefacts if named like one.
---
 src/storage/mod.rs | 46 +++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 7496cb4..be372a0 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -4,7 +4,7 @@ pub use std::{
     convert::{TryFrom, TryInto},
     fmt,
     fs::{self, read_dir},
-    io::{BufWriter, Write},
+    io::{ErrorKind, Write},
     path::{Path, PathBuf},
     str::FromStr,
     sync::Arc,
@@ -134,29 +134,37 @@ impl FromStr for Storage {
 impl Storage {
     pub async fn list_files(&self) -> Result<Vec<Entry>> {
         match self.inner.as_ref() {
-            InnerStorage::Filesystem(path) => Ok(read_dir(&path)
+            InnerStorage::Filesystem(path) => read_dir(&path)
                 .with_context(|| format!("could not read directory `{}`", path.display()))?
                 .map(|entry| -> Result<_> {
                     let entry = entry.context("could not read file entry")?;
                     let path = entry.path();
-                    let path = path.canonicalize().with_context(|| {
-                        format!("cannot canonicalize path `{}`", path.display())
-                    })?;
-                    let metadata = entry.metadata().with_context(|| {
-                        format!("could not read metadata of `{}`", path.display())
-                    })?;
-
-                    Ok((metadata, path_as_string(path)?))
-                })
-                .collect::<Result<Vec<_>>>()?
-                .into_iter()
-                .filter(|(metadata, _)| !metadata.file_type().is_symlink())
-                .map(|(metadata, path)| Entry {
-                    storage: self.clone(),
-                    path,
-                    size: metadata.len(),
+                    let metadata = match entry.metadata() {
+                        // removed or renamed since we started listing
+                        Err(e) if e.kind() == ErrorKind::NotFound => return Ok(None),
+                        res => res.with_context(|| {
+                            format!("could not read metadata of `{}`", path.display())
+                        })?,
+                    };
+                    // neither links nor directories are of any interest
+                    if !metadata.is_file() {
+                        return Ok(None);
+                    }
+                    let path = match path.canonicalize() {
+                        Err(e) if e.kind() == ErrorKind::NotFound => return Ok(None),
+                        res => res.with_context(|| {
+                            format!("cannot canonicalize path `{}`", path.display())
+                        })?,
+                    };
+
+                    Ok(Some(Entry {
+                        storage: self.clone(),
+                        path: path_as_string(path)?,
+                        size: metadata.len(),
+                    }))
                 })
-                .collect::<Vec<_>>()),
+                .filter_map(|entry| entry.transpose())
+                .collect(),
             InnerStorage::S3(bucket) => {
                 use rusoto_s3::{ListObjectsV2Request, S3Client, S3};
 
-- 
2.43.0


From ff6b30e4f929de7d67318fcb1938d20ec9dbf15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:59 +0000
Subject: [PATCH 09/29] fix: ignore files whose names make no version or patch

One such file in the local or remote store made every command fail.
---
 src/index/graph.rs | 16 ++++++++++++++--
 src/storage/mod.rs | 10 +++++++++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/index/graph.rs b/src/index/graph.rs
index 555877a..655125d 100644
--- a/src/index/graph.rs
+++ b/src/index/graph.rs
@@ -47,7 +47,13 @@ impl PatchGraph {
             if entry.path.ends_with('/') {
                 continue;
             }
-            let version = paths::build_version_from_path(&entry.path)?;
+            let version = match paths::build_version_from_path(&entry.path) {
+                Ok(version) => version,
+                Err(e) => {
+                    log::debug!("ignoring `{}`, it's not a build: {}", entry.path, e);
+                    continue;
+                }
+            };
             self.add_build(&version, entry.clone(), location)
                 .with_context(|| format!("add build `{}`", entry.path))?;
         }
@@ -57,7 +63,13 @@ impl PatchGraph {
             if entry.path.ends_with('/') {
                 continue;
             }
-            let Patch { from, to, .. } = Patch::from_path(&entry.path)?;
+            let Patch { from, to, .. } = match Patch::from_path(&entry.path) {
+                Ok(patch) => patch,
+                Err(e) => {
+                    log::debug!("ignoring `{}`, it's not a patch: {}", entry.path, e);
+                    continue;
+                }
+            };
             match self.add_patch(&from, &to, entry.clone(), location) {
                 Ok(_) => log::debug!("added patch `{}`", entry.path),
                 e => {
diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index be372a0..2cc7ccb 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -157,9 +157,17 @@ impl Storage {
                         })?,
                     };
 
+                    let path = match path_as_string(&path) {
+                        Ok(path) => path,
+                        Err(e) => {
+                            log::debug!("ignoring `{}`: {}", path.display(), e);
+                            return Ok(None);
+                        }
+                    };
+
                     Ok(Some(Entry {
                         storage: self.clone(),
-                        path: path_as_string(path)?,
+                        path,
                         size: metadata.len(),
                     }))
                 })
-- 
2.43.0


From 0a8ae7ec19dddad0491766c41405ebbe8602bb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:59 +0000
Subject: [PATCH 10/29] fix: neither use nor store empty files as builds or
 patches

The index ignores empty files, but looking up a local file by name did not: An
empty file was installed, and kept a command from fetching the real one. Adding
an empty file failed, but only after putting it into the store.
---
 src/index.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/index.rs b/src/index.rs
index 645752d..9f6ad0f 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -178,7 +178,10 @@ impl Index {
         let file = self.local.get_file(path).await.context("fetch local file");
 
         match file {
-            Ok(FileEntry::InFilesystem(local)) => Ok(local),
+            Ok(FileEntry::InFilesystem(local)) => {
+                ensure!(local.size > 0, "local file `{}` is empty", local.path);
+                Ok(local)
+            }
             Ok(_) => unreachable!("local storage always returns local files"),
             Err(e) => Err(e).context("get local build"),
         }
@@ -409,6 +412,16 @@ impl Index {
         let version: Version = file_name.parse()?;
         let new_path = local.join(format!("{}.tar.zst", version.as_str()));
 
+        let size = match file {
+            FileEntry::InFilesystem(entry) => entry.size,
+            FileEntry::Inline(_, content) => content.len() as u64,
+        };
+        ensure!(
+            size > 0,
+            "Refusing to add `{}` as it's empty (size 0). That's not gonna be useful.",
+            path.display()
+        );
+
         self.local
             .add_file(file, &new_path)
             .await
-- 
2.43.0


From dd943eefe82186e590cd9b8bca92ada4728e55cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:59 +0000
Subject: [PATCH 11/29] fix: list all pages of an S3 store

Only the first 1000 objects were seen: Builds beyond those could not be
installed, and were uploaded again with every sync.
---
 src/storage/mod.rs | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 2cc7ccb..05f7b62 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -177,21 +177,31 @@ impl Storage {
                 use rusoto_s3::{ListObjectsV2Request, S3Client, S3};
 
                 let client: S3Client = bucket.try_into().context("build S3 client")?;
-
-                let res = client
-                    .list_objects_v2(ListObjectsV2Request {
-                        bucket: bucket.bucket.to_owned(),
-                        prefix: Some(bucket.path.trim_start_matches('/').to_string()),
-                        ..Default::default()
-                    })
-                    .await
-                    .context("list files in bucket")?;
-                if res.is_truncated.unwrap_or_default() {
-                    log::debug!("didn't get all the files -- pagination not implemented!");
+                let prefix = bucket.path.trim_start_matches('/').to_string();
+
+                let mut objects = Vec::new();
+                let mut continuation_token = None;
+                loop {
+                    let res = client
+                        .list_objects_v2(ListObjectsV2Request {
+                            bucket: bucket.bucket.to_owned(),
+                            prefix: Some(prefix.clone()),
+                            continuation_token,
+                            ..Default::default()
+                        })
+                        .await
+                        .context("list files in bucket")?;
+                    objects.extend(res.contents.unwrap_or_default());
+                    if !res.is_truncated.unwrap_or_default() {
+                        break;
+                    }
+                    continuation_token = Some(
+                        res.next_continuation_token
+                            .context("list of files is truncated but can't be continued")?,
+                    );
                 }
 
-                res.contents
-                    .unwrap_or_default()
+                objects
                     .iter()
                     .map(|obj| {
                         Ok(Entry {
-- 
2.43.0


From 6a2b653e557ae4cb9cee3739da303e3c52485657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:59 +0000
Subject: [PATCH 12/29] fix: confine the S3 listing to the store itself

The prefix used was not terminated, so that a store `test` also listed what is
in `test2`, and objects further down the hierarchy: Such builds were believed to
be in the store, were thus not uploaded, and could not be fetched.
---
 src/storage/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 05f7b62..57711c8 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -174,10 +174,10 @@ impl Storage {
                 .filter_map(|entry| entry.transpose())
                 .collect(),
             InnerStorage::S3(bucket) => {
-                use rusoto_s3::{ListObjectsV2Request, S3Client, S3};
+                use rusoto_s3::{ListObjectsV2Request, Object, S3Client, S3};
 
                 let client: S3Client = bucket.try_into().context("build S3 client")?;
-                let prefix = bucket.path.trim_start_matches('/').to_string();
+                let prefix = bucket.key_for("");
 
                 let mut objects = Vec::new();
                 let mut continuation_token = None;
@@ -201,8 +201,16 @@ impl Storage {
                     );
                 }
 
+                let is_in_store = |obj: &&Object| match &obj.key {
+                    Some(key) => key
+                        .strip_prefix(&prefix)
+                        .map_or(false, |name| !name.contains('/')),
+                    None => true,
+                };
+
                 objects
                     .iter()
+                    .filter(is_in_store)
                     .map(|obj| {
                         Ok(Entry {
                             storage: self.clone(),
-- 
2.43.0


From d6c3470c47440a617396e8de82a63a2aa4e1b814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:11 +0000
Subject: [PATCH 13/29] fix: know a patch on the remote even if its builds are
 only local

Patches were only considered if both builds had been seen before. A patch that
is on the remote while one of its builds is not (say, because a sync was
interrupted) was thus taken for missing there, created and uploaded again.
---
 src/index/graph.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/index/graph.rs b/src/index/graph.rs
index 655125d..8337c79 100644
--- a/src/index/graph.rs
+++ b/src/index/graph.rs
@@ -17,6 +17,8 @@ pub struct PatchGraph {
     pub(crate) builds: HashMap<Version, NodeIndex<DefaultIx>>,
     /// helper for looking up edges in the graph
     patches: HashMap<(Version, Version), EdgeIndex<DefaultIx>>,
+    /// patches between builds of which at least one is not known (yet)
+    pending_patches: Vec<(Patch, Entry, Location)>,
 }
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -63,13 +65,20 @@ impl PatchGraph {
             if entry.path.ends_with('/') {
                 continue;
             }
-            let Patch { from, to, .. } = match Patch::from_path(&entry.path) {
+            let patch = match Patch::from_path(&entry.path) {
                 Ok(patch) => patch,
                 Err(e) => {
                     log::debug!("ignoring `{}`, it's not a patch: {}", entry.path, e);
                     continue;
                 }
             };
+            let Patch { from, to, .. } = patch.clone();
+            if !self.has_build(from.clone()) || !self.has_build(to.clone()) {
+                log::debug!("patch `{}` is for a build not known so far", entry.path);
+                self.pending_patches
+                    .push((patch, entry.clone(), location));
+                continue;
+            }
             match self.add_patch(&from, &to, entry.clone(), location) {
                 Ok(_) => log::debug!("added patch `{}`", entry.path),
                 e => {
@@ -114,6 +123,21 @@ impl PatchGraph {
             }
         }
 
+        self.add_pending_patches()
+    }
+
+    /// Add the patches that were found before the builds they belong to
+    fn add_pending_patches(&mut self) -> Result<()> {
+        let (known, pending) = std::mem::take(&mut self.pending_patches)
+            .into_iter()
+            .partition(|(patch, ..)| {
+                self.builds.contains_key(&patch.from) && self.builds.contains_key(&patch.to)
+            });
+        self.pending_patches = pending;
+        let known: Vec<(Patch, Entry, Location)> = known;
+        for (patch, entry, location) in known {
+            self.add_patch(&patch.from, &patch.to, entry, location)?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 2b71524dbec5e580f3c0d22c25b9c6509c9958b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:11 +0000
Subject: [PATCH 14/29] fix: apply patches in the order of the upgrade path

The patches of a path were sorted by the names of the versions, so that going
from 9 via 10 to 11 started with the wrong one and fell back to fetching the
whole build.
---
 src/index/graph.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/index/graph.rs b/src/index/graph.rs
index 8337c79..8bced77 100644
--- a/src/index/graph.rs
+++ b/src/index/graph.rs
@@ -230,7 +230,7 @@ impl PatchGraph {
             |_| 0,
         )
         .with_context(|| format!("no A& solution for patch from `{:?}` to `{:?}`", from, to))?;
-        let mut path: Vec<_> = steps
+        let path = steps
             .windows(2)
             .map(|x| {
                 let from = self.graph[x[0]].version.clone();
@@ -238,7 +238,6 @@ impl PatchGraph {
                 Patch::new(from, to)
             })
             .collect();
-        path.sort();
 
         Ok((cost, path))
     }
-- 
2.43.0


From b96fd4fa1d4dbbf2f500a6c9ae0fc5788592ca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:12 +0000
Subject: [PATCH 15/29] fix: do not fetch patches for builds that are already
 there

Only builds at the very start of the upgrade path were recognised as available:
With the target in the local store and one before it missing, the patches for
both were fetched and applied.
---
 src/index.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 9f6ad0f..b2d40d4 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -238,10 +238,12 @@ impl Index {
         {
             UpgradePath::ApplyPatches(patches) => {
                 log::debug!("found upgrade path via patches: {:?}", patches);
-                let needed_patches = patches
-                    .into_iter()
-                    .skip_while(|patch| self.patch_graph.has_local_build(patch.to.clone()))
-                    .collect::<Vec<Patch>>();
+                // start from the last build on the way that we already have
+                let local_steps = patches
+                    .iter()
+                    .rposition(|patch| self.patch_graph.has_local_build(patch.to.clone()))
+                    .map_or(0, |idx| idx + 1);
+                let needed_patches = &patches[local_steps..];
                 log::debug!(
                     "using already existing local builds, we need to fetch: {:?}",
                     needed_patches
@@ -257,7 +259,7 @@ impl Index {
                     Ok(())
                 }
 
-                match apply_patches(self, &needed_patches).await {
+                match apply_patches(self, needed_patches).await {
                     Ok(_) => log::debug!("successfully applied all patches to get to final build."),
                     e => {
                         log::warn!("failed to get build using patches, will use direct build.");
-- 
2.43.0


From 97193f7ff1e752f064d62e81ade8a4def529c5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:13 +0000
Subject: [PATCH 16/29] fix: reject truncated patches

The patch reader takes an error at the start of an instruction for the end of
the patch. A truncated patch file could thus result in a truncated build.
---
 src/apply_patch.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/apply_patch.rs b/src/apply_patch.rs
index 8571aed..df3aaa6 100644
--- a/src/apply_patch.rs
+++ b/src/apply_patch.rs
@@ -4,7 +4,6 @@ use std::{
     io::{BufReader, Cursor, Read},
     path::Path,
 };
-use zstd::stream::read::Decoder as ZstdDecoder;
 
 pub fn apply_patch(archive: impl AsRef<Path>, patch: impl AsRef<Path>) -> Result<impl Read> {
     let archive = archive.as_ref();
@@ -12,7 +11,9 @@ pub fn apply_patch(archive: impl AsRef<Path>, patch: impl AsRef<Path>) -> Result
 
     let patch_file =
         File::open(patch).with_context(|| format!("open file `{}`", patch.display()))?;
-    let patch_decompressed = ZstdDecoder::new(patch_file)
+    // The patch format has no end marker, so reading a truncated file looks
+    // like reaching its end when streaming it
+    let patch_decompressed = zstd::stream::decode_all(BufReader::new(patch_file))
         .with_context(|| format!("read zstd compressed file `{}`", patch.display()))?;
 
     let archive_file =
@@ -20,7 +21,7 @@ pub fn apply_patch(archive: impl AsRef<Path>, patch: impl AsRef<Path>) -> Result
     let archive_decompressed = zstd::stream::decode_all(BufReader::new(archive_file))
         .with_context(|| format!("read zstd compressed file `{}`", archive.display()))?;
 
-    bipatch::Reader::new(patch_decompressed, Cursor::new(archive_decompressed))
+    bipatch::Reader::new(Cursor::new(patch_decompressed), Cursor::new(archive_decompressed))
         .context("read patch")
 }
 
-- 
2.43.0


From 87f0a8e39d882bad21ec2c0c4fdaa768f4a0db17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:14 +0000
Subject: [PATCH 17/29] fix: never write a broken archive when a file changes
 size meanwhile

The size in the header of an entry is determined before the content is read. If
the file grew or shrank in between, all following entries were unreadable.
---
 src/packaging.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/packaging.rs b/src/packaging.rs
index 5e04761..55fcf50 100644
--- a/src/packaging.rs
+++ b/src/packaging.rs
@@ -1,9 +1,9 @@
 //! Package build using `tar` in the most deterministic way possible.
 
-use erreur::{Context, Result};
+use erreur::{ensure, Context, Result};
 use std::{
     fs,
-    io::{BufReader, Write},
+    io::{BufReader, Read, Write},
     path::Path,
 };
 use walkdir::WalkDir;
@@ -84,13 +84,20 @@ fn add_file<W: Write>(
         .set_device_minor(0)
         .context("set device minor header")?;
 
-    let file = BufReader::new(fs::File::open(file.path()).context("open file")?);
+    let file = fs::File::open(file.path()).context("open file")?;
+    // never more than announced in the header
+    let mut file = BufReader::new(file).take(metadata.len());
 
     // Note: This also sets the file path in the header, and then appends header
     // and payload to the archive.
     archive
-        .append_data(&mut header, path, file)
+        .append_data(&mut header, path, &mut file)
         .context("append file")?;
+    ensure!(
+        file.limit() == 0,
+        "file shrank while it was being read, {} bytes are missing",
+        file.limit()
+    );
     Ok(())
 }
 
-- 
2.43.0


From f1beca1dc0a71a607cc341e521c80358647d57d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:14 +0000
Subject: [PATCH 18/29] fix: pick the same build for a tag every time

If several builds match a tag (such as `v1.2` and `V1-2`), it was up to the
order of a hash map which one was used.
---
 src/index.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/index.rs b/src/index.rs
index b2d40d4..354be1d 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -377,7 +377,9 @@ impl Index {
         self.patch_graph
             .builds
             .keys()
-            .find(|build| crate::git::tag_to_slice(build.as_str()) == parsed_tag)
+            .filter(|build| crate::git::tag_to_slice(build.as_str()) == parsed_tag)
+            // always pick the same one, and preferably that with this very name
+            .min_by_key(|build| (build.as_str() != tag, build.as_str().to_owned()))
             .cloned()
             .with_context(|| format!("no build found matching tag `{}`", tag))
     }
-- 
2.43.0


From fd68355f6bc516425f1d5707f8ed9b0a71dc762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:04 +0000
Subject: [PATCH 19/29] fix: do not depend on the order a store is listed in

Of several upgrade paths that cost the same, which one was used depended
on the order in which the file system returned directory entries.
---
 src/storage/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 57711c8..95a4c24 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -132,7 +132,14 @@ impl FromStr for Storage {
 }
 
 impl Storage {
+    /// List all files in the storage, ordered by path
     pub async fn list_files(&self) -> Result<Vec<Entry>> {
+        let mut files = self.list_files_unordered().await?;
+        files.sort_by(|a, b| a.path.cmp(&b.path));
+        Ok(files)
+    }
+
+    async fn list_files_unordered(&self) -> Result<Vec<Entry>> {
         match self.inner.as_ref() {
             InnerStorage::Filesystem(path) => read_dir(&path)
                 .with_context(|| format!("could not read directory `{}`", path.display()))?
-- 
2.43.0


From 9b40dfeaee742874a7fafe7d0192b0ccfd75f759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:05 +0000
Subject: [PATCH 20/29] fix: do not panic if the remote path can't be looked at

structopt parses an argument once to validate it and a second time to get
its value, which panics if only the second attempt fails (e.g. with EIO).
---
 src/storage/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 95a4c24..2893669 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -119,7 +119,15 @@ impl FromStr for Storage {
             return Ok(InnerStorage::Filesystem(path).into());
         }
 
-        let url = Url::from_str(s).with_context(|| format!("invalid URL `{}`", s))?;
+        let url = match Url::from_str(s) {
+            // Arguments are parsed more than once and have to give the same
+            // result, so a path we can't look at (right now) is still a path.
+            // Using it will give a proper error.
+            Err(url::ParseError::RelativeUrlWithoutBase) if path.is_absolute() => {
+                return Ok(InnerStorage::Filesystem(path).into());
+            }
+            res => res.with_context(|| format!("invalid URL `{}`", s))?,
+        };
         match url.scheme() {
             "s3" => Ok(InnerStorage::S3(
                 s3::Bucket::try_from(&url)
-- 
2.43.0


From 5b7640dd61de2215aa7526efc1bb06cd9b6fa807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:05 +0000
Subject: [PATCH 21/29] fix: do not panic when creating a patch from an empty
 build

---
 src/index.rs | 47 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 354be1d..78d3ed1 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -121,23 +121,36 @@ impl Index {
         let mut patch_file =
             PartialFile::create(&patch_path).context("creating file to write patch to")?;
         let mut patch = crate::compress(&mut patch_file)?;
-        bidiff::simple_diff_with_params(&old_build, &new_build, &mut patch, &{
-            const MB: u64 = 1_000_000;
-            bidiff::DiffParams::new(
-                {
-                    if new_build_size > (100 * MB) {
-                        4
-                    } else {
-                        1
-                    }
-                },
-                Some(100 * MB as usize),
-            )
-            .map_err(|e| Report::msg(e.to_string()))
-            .context("valid diff params")
-            .note("this is a programming error, please open an issue")?
-        })
-        .context("calculating binary diff between builds")?;
+        if old_build.is_empty() {
+            // bidiff can't build an index of nothing
+            bidiff::enc::Writer::new(&mut patch)
+                .and_then(|mut w| {
+                    w.write(&bidiff::Control {
+                        add: &[],
+                        copy: &new_build,
+                        seek: 0,
+                    })
+                })
+                .context("writing patch for empty build")?;
+        } else {
+            bidiff::simple_diff_with_params(&old_build, &new_build, &mut patch, &{
+                const MB: u64 = 1_000_000;
+                bidiff::DiffParams::new(
+                    {
+                        if new_build_size > (100 * MB) {
+                            4
+                        } else {
+                            1
+                        }
+                    },
+                    Some(100 * MB as usize),
+                )
+                .map_err(|e| Report::msg(e.to_string()))
+                .context("valid diff params")
+                .note("this is a programming error, please open an issue")?
+            })
+            .context("calculating binary diff between builds")?;
+        }
         patch.finish().context("finishing zstd file")?;
         patch_file
             .finish()
-- 
2.43.0


From 928b2370e789c82981a6f1596e8ebd506ba3d3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 22/29] fix: install although the installed version is not in
 the index

Another command may have added and installed it since the index was built.
There is no upgrade path from a build nobody knows, but the requested one can
be installed directly.
---
 src/index.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 78d3ed1..34d20e6 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -233,11 +233,10 @@ impl Index {
     /// Upgrade from one version to the next
     pub async fn upgrade_to_build(&mut self, from: Version, to: Version) -> Result<Entry> {
         log::debug!("searching for upgrade path from `{}` to `{}`", from, to);
-        ensure!(
-            self.patch_graph.has_build(from.clone()),
-            "build `{:?}` unknown",
-            from
-        );
+        if !self.patch_graph.has_build(from.clone()) {
+            // e.g. added and installed by someone else just now
+            log::debug!("build `{:?}` unknown, there is no upgrade path from it", from);
+        }
         ensure!(
             self.patch_graph.has_build(to.clone()),
             "build `{:?}` unknown",
-- 
2.43.0


From d7aeb1621eca445b7ac63814aac6dcd8e4c65da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 23/29] fix: order tags by number whatever their separators,
 case and length

Tags whose components are separated differently (or written in another
case) were compared by those characters first, and long numbers overflowed,
so an older tag could be picked as the newest one.
---
 src/git.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/git.rs b/src/git.rs
index 2a93967..ede7a56 100644
--- a/src/git.rs
+++ b/src/git.rs
@@ -36,6 +36,34 @@ pub fn tag_to_slice(tag: &str) -> Vec<SmolStr> {
         .collect()
 }
 
+/// Order tags by their components, with digits compared as numbers (of any
+/// length), regardless of what the components are separated with
+fn numeric_key(tag: &str) -> Vec<Vec<(bool, usize, String)>> {
+    let is_digit = |c: char| c.is_ascii_digit();
+    tag_to_slice(tag)
+        .iter()
+        .map(|component| {
+            let mut runs = Vec::new();
+            let mut rest = component.as_str();
+            while let Some(first) = rest.chars().next() {
+                let is_text = !is_digit(first);
+                let end = rest
+                    .find(|c| is_digit(c) == is_text)
+                    .unwrap_or_else(|| rest.len());
+                let (run, tail) = rest.split_at(end);
+                rest = tail;
+                if is_text {
+                    runs.push((true, 0, run.to_owned()));
+                } else {
+                    let number = run.trim_start_matches('0');
+                    runs.push((false, number.len(), number.to_owned()));
+                }
+            }
+            runs
+        })
+        .collect()
+}
+
 /// assume versions are in format `….c.b.a` (or `…-c-b-a`)
 pub fn find_tags_to_patch(current: &str, tags: &[String]) -> Result<Vec<String>> {
     fn dec(x: &SmolStr) -> Option<SmolStr> {
@@ -46,7 +74,7 @@ pub fn find_tags_to_patch(current: &str, tags: &[String]) -> Result<Vec<String>>
 
     let tags = {
         let mut tags = tags.to_vec();
-        tags.sort_by(|a, b| human_sort::compare(a, b));
+        tags.sort_by_cached_key(|tag| (numeric_key(tag), tag.clone()));
         tags
     };
     let parsed_tags = tags.iter().map(|tag| tag_to_slice(tag)).collect::<Vec<_>>();
-- 
2.43.0


From 1929e29c35b0455aae98fa635b1db166af825ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:49 +0000
Subject: [PATCH 24/29] fix: keep versions apart whose names end in .tar or
 .patch

---
 src/paths.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/paths.rs b/src/paths.rs
index 71c7fc0..0b09068 100644
--- a/src/paths.rs
+++ b/src/paths.rs
@@ -18,10 +18,12 @@ pub fn file_name(path: impl AsRef<Path>) -> Result<String> {
         .with_context(|| format!("no file stem for `{:?}`", path))?;
     let name = path_as_string(file_name)?;
 
-    // get rid of pesky .tar suffixes
-    let name = name.trim_end_matches(".tar");
-    // get rid of pesky .patch suffixes
-    let name = name.trim_end_matches(".patch");
+    // get rid of the pesky .tar or .patch suffix (but only of that one: what is
+    // in front of it is part of the version)
+    let name = name
+        .strip_suffix(".tar")
+        .or_else(|| name.strip_suffix(".patch"))
+        .unwrap_or(&name);
 
     Ok(name.to_string())
 }
-- 
2.43.0


From eac8d6344b8c8f0d6c27b323a97a3907c6381636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:49 +0000
Subject: [PATCH 25/29] fix: refuse versions that lead out of a directory

---
 src/index/version.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/index/version.rs b/src/index/version.rs
index 28fdae8..f8c352b 100644
--- a/src/index/version.rs
+++ b/src/index/version.rs
@@ -28,6 +28,7 @@ impl fmt::Display for Version {
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum InvalidVersion {
     ThreeDashes,
+    Slash,
 }
 
 impl StdError for InvalidVersion {}
@@ -39,6 +40,10 @@ impl fmt::Display for InvalidVersion {
                 f,
                 "Invalid version format: `---` must not appear in version"
             ),
+            InvalidVersion::Slash => write!(
+                f,
+                "Invalid version format: `/` must not appear in version"
+            ),
         }
     }
 }
@@ -50,6 +55,10 @@ impl FromStr for Version {
         if s.contains("---") {
             return Err(InvalidVersion::ThreeDashes);
         }
+        // would be a file in another directory
+        if s.contains('/') {
+            return Err(InvalidVersion::Slash);
+        }
         Ok(Version { data: s.into() })
     }
 }
-- 
2.43.0


From a6d8238c00ad64c1ecc14e74d4517ba801dfbe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:49 +0000
Subject: [PATCH 26/29] fix: read names of patches from versions that end with
 dashes

---
 src/index/patch.rs   | 7 ++++---
 src/index/version.rs | 9 +++++++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/index/patch.rs b/src/index/patch.rs
index 81db513..dc95e1a 100644
--- a/src/index/patch.rs
+++ b/src/index/patch.rs
@@ -80,12 +80,13 @@ fn patch_versions_from_path(path: impl AsRef<Path>) -> Result<(Version, Version)
             .with_context(|| format!("parse name `{}` from path `{:?}` as version", name, path));
     }
 
-    let parts: Vec<&str> = name.split("---").collect();
+    // the first version may end with dashes, but the second can't start with one
+    let parts: Vec<&str> = name.rsplitn(2, "---").collect();
     if parts.len() == 2 {
         // patch file name pattern is assumed to be `<complex-name>---<complex-name>`
-        return Version::try_from(parts[0])
+        return Version::try_from(parts[1])
             .into_iter()
-            .zip(Version::try_from(parts[1]))
+            .zip(Version::try_from(parts[0]))
             .next()
             .with_context(|| format!("parse name `{}` from path `{:?}` as version", name, path));
     }
diff --git a/src/index/version.rs b/src/index/version.rs
index f8c352b..1c9d2ef 100644
--- a/src/index/version.rs
+++ b/src/index/version.rs
@@ -29,6 +29,7 @@ impl fmt::Display for Version {
 pub enum InvalidVersion {
     ThreeDashes,
     Slash,
+    LeadingDash,
 }
 
 impl StdError for InvalidVersion {}
@@ -44,6 +45,10 @@ impl fmt::Display for InvalidVersion {
                 f,
                 "Invalid version format: `/` must not appear in version"
             ),
+            InvalidVersion::LeadingDash => write!(
+                f,
+                "Invalid version format: version must not start with `-`"
+            ),
         }
     }
 }
@@ -59,6 +64,10 @@ impl FromStr for Version {
         if s.contains('/') {
             return Err(InvalidVersion::Slash);
         }
+        // could not be told from the end of the other version in a patch's name
+        if s.starts_with('-') {
+            return Err(InvalidVersion::LeadingDash);
+        }
         Ok(Version { data: s.into() })
     }
 }
-- 
2.43.0


From 944632dfbd98de7a5b25e9dba2a81ef45cab1e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:07 +0000
Subject: [PATCH 27/29] fix: select tags with numbers beyond 32 bits

A component like 202006291200 was not taken for a number, so no patch was
made from the version before it.
---
 src/git.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/git.rs b/src/git.rs
index ede7a56..3606e52 100644
--- a/src/git.rs
+++ b/src/git.rs
@@ -67,7 +67,7 @@ fn numeric_key(tag: &str) -> Vec<Vec<(bool, usize, String)>> {
 /// assume versions are in format `….c.b.a` (or `…-c-b-a`)
 pub fn find_tags_to_patch(current: &str, tags: &[String]) -> Result<Vec<String>> {
     fn dec(x: &SmolStr) -> Option<SmolStr> {
-        let num = x.parse::<u32>().ok()?;
+        let num = x.parse::<u64>().ok()?;
         let prev = num.checked_sub(1)?;
         Some(SmolStr::from(prev.to_string()))
     }
-- 
2.43.0


From f123620fdf461099f693c6e179ecb60b09263e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 28/29] fix: don't require a readable working directory

Every command aborted with a panic if its working directory had been
removed, because the default of auto-patch's --repo-root is computed for all
of them. The directory itself is as good a default.
---
 src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index 90165bb..e3872b8 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -118,7 +118,7 @@ pub struct WorkingDir(PathBuf);
 
 impl Default for WorkingDir {
     fn default() -> Self {
-        WorkingDir(std::env::current_dir().expect("cannot access current working directory"))
+        WorkingDir(PathBuf::from("."))
     }
 }
 
-- 
2.43.0


From a8dd0faa3ca7b358f76d99918e11971595b2750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 29/29] fix: report that the index can't be printed instead of
 aborting

dbg! panics if stderr can't be written.
---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index a956673..03dcb98 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -3,6 +3,7 @@ use artefacta::{
     ArtefactIndex,
 };
 use erreur::{Context, Help, Result};
+use std::io::Write;
 use structopt::StructOpt;
 
 #[tokio::main]
@@ -20,7 +21,7 @@ async fn main() -> Result<()> {
 
     match args.cmd {
         Command::Debug => {
-            dbg!(index);
+            writeln!(std::io::stderr(), "index = {:#?}", index).context("print index")?;
         }
         Command::Sync => {
             artefacta::sync(&index).await?;
-- 
2.43.0

