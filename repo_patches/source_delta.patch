From e13c62fa838f3f31f7a9318d661c62c7c3ef1520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 01/59] fix: never follow symlinks in the list of files to
 transfer

A symlink in the list was scanned as the directory it points to, so that a
link to a directory had the contents of its target copied and a broken link
failed the whole transfer.
---
 zielen/fstools.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index 65cee58..08cbfe7 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -67,8 +67,13 @@ def transfer_tree(
     else:
         rel_paths = set()
         for path in files:
+            full_path = os.path.join(source, path)
+            if os.path.islink(full_path):
+                # Symlinks are copied as they are and never followed.
+                rel_paths.add(path)
+                continue
             try:
-                for entry in scan_tree(os.path.join(source, path)):
+                for entry in scan_tree(full_path):
                     rel_paths.add(os.path.relpath(entry.path, source))
             except NotADirectoryError:
                 rel_paths.add(path)
@@ -86,7 +91,7 @@ def transfer_tree(
     dest_paths = [os.path.join(dest, path) for path in rel_paths]
 
     if use_bar:
-        source_sizes = {path: os.stat(path).st_size for path in source_paths}
+        source_sizes = {path: os.lstat(path).st_size for path in source_paths}
         total_source_size = sum(source_sizes.values())
         transferred_size = 0
         transfer_bar = ProgressBar(PROGRESS_BAR_LENGTH, message=message)
-- 
2.43.0


From c23406f0bab2ba92a4278484d335a6c2401dbd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 02/59] fix: replace transferred files atomically

An interrupted copy left a truncated file with a new modification time,
which the next sync took for a modification and propagated to the other
side. A destination that was a symlink was also followed, so that the file
it points to was overwritten instead of the link.
---
 zielen/filelogic.py |  6 ++++--
 zielen/fstools.py   | 52 +++++++++++++++++++++++++++++++++++++++------
 2 files changed, 49 insertions(+), 9 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index ea17f3a..68cac79 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -425,7 +425,8 @@ class FilesManager:
         try:
             transfer_tree(
                 self.local_dir.path, self.remote_dir.safe_path,
-                files=update_paths, message="Updating remote files...")
+                files=update_paths, message="Updating remote files...",
+                temp_suffix="-" + self.profile.id)
         except FileNotFoundError:
             if not os.path.isdir(self.remote_dir.util_dir):
                 raise RemoteError("the remote directory could not be found")
@@ -478,7 +479,8 @@ class FilesManager:
                 exclude=(
                     self.profile.all_exclude_matches(self.local_dir.path)
                     | unsafe_symlinks),
-                message="Moving files to remote...")
+                message="Moving files to remote...",
+                temp_suffix="-" + self.profile.id)
         except FileNotFoundError:
             if not os.path.isdir(self.remote_dir.util_dir):
                 raise RemoteError("the remote directory could not be found")
diff --git a/zielen/fstools.py b/zielen/fstools.py
index 08cbfe7..75cbd9e 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -29,10 +29,42 @@ from zielen.exceptions import FileTransferError
 
 PROGRESS_BAR_LENGTH = 0.35
 
+# Files are copied to a name with this prefix before they are moved into place.
+PARTIAL_PREFIX = ".zielen-partial"
+
+
+def copy_file(source_path: str, dest_path: str, temp_suffix="") -> None:
+    """Copy a file or symlink, replacing the destination atomically.
+
+    The destination is never followed if it is a symlink, and it holds either
+    its old or its new contents if the program is interrupted.
+
+    Args:
+        source_path: The path of the file to copy.
+        dest_path: The path to copy the file to.
+        temp_suffix: A suffix for the name of the temporary file.
+    """
+    temp_path = os.path.join(
+        os.path.dirname(dest_path), PARTIAL_PREFIX + temp_suffix)
+    try:
+        try:
+            # This could have been left behind by an interrupted transfer.
+            os.remove(temp_path)
+        except FileNotFoundError:
+            pass
+        shutil.copy2(source_path, temp_path, follow_symlinks=False)
+        os.replace(temp_path, dest_path)
+    except BaseException:
+        try:
+            os.remove(temp_path)
+        except OSError:
+            pass
+        raise
+
 
 def transfer_tree(
         source: str, dest: str, files=None, exclude=None,
-        message="", rm_source=False) -> None:
+        message="", rm_source=False, temp_suffix="") -> None:
     """Recursively copy files, preserving file metadata.
 
     Existing files in the destination are overwritten. A progress bar is
@@ -49,6 +81,9 @@ def transfer_tree(
         message: A message to display opposite the progress bar. If None, the
             progress bar won't appear.
         rm_source: Remove source files once they are copied to the destination.
+        temp_suffix: A suffix for the names of temporary files, which must be
+            unique if other processes could transfer files to the destination
+            at the same time.
 
     Raises:
         FileNotFoundError: The source or destination files couldn't be found.
@@ -99,12 +134,11 @@ def transfer_tree(
     for source_path, dest_path in zip(source_paths, dest_paths):
         os.makedirs(os.path.dirname(dest_path), exist_ok=True)
         try:
-            shutil.copy2(source_path, dest_path, follow_symlinks=False)
-        except (shutil.SameFileError, FileExistsError):
-            os.remove(dest_path)
-            shutil.copy2(source_path, dest_path, follow_symlinks=False)
-        except IsADirectoryError:
-            os.makedirs(dest_path, exist_ok=True)
+            if (os.path.isdir(source_path)
+                    and not os.path.islink(source_path)):
+                os.makedirs(dest_path, exist_ok=True)
+            else:
+                copy_file(source_path, dest_path, temp_suffix)
         except PermissionError:
             raise FileTransferError("permission denied: {0}".format(
                 os.path.relpath(source_path, source)))
@@ -187,6 +221,8 @@ def symlink_tree(
 def scan_tree(path: str):
     """Recursively scan a directory tree and yield an os.DirEntry object.
 
+    Files left behind by an interrupted transfer are skipped.
+
     Args:
         path: The path of the directory to scan.
 
@@ -194,6 +230,8 @@ def scan_tree(path: str):
         An os.DirEntry object for each file in the tree.
     """
     for entry in os.scandir(path):
+        if entry.name.startswith(PARTIAL_PREFIX):
+            continue
         yield entry
         if entry.is_dir(follow_symlinks=False):
             yield from scan_tree(entry.path)
-- 
2.43.0


From 2f1ba4bb07997c58b2a1ff1040a6a7dd5a0e0ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 03/59] fix: create empty directories in the remote and copy
 only synced files to it

Empty directories that were created locally never reached the remote
directory, which failed the sync. New directories were copied along with
the excluded files and unsafe symlinks in them.
---
 zielen/filelogic.py | 15 ++++++++++++---
 zielen/fstools.py   |  6 ++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 68cac79..60c1a75 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -421,12 +421,21 @@ class FilesManager:
         Raises:
             RemoteError: The remote directory is unmounted.
         """
-        # Copy modified local files to the remote directory.
+        # Find directories that are missing from the remote directory because
+        # there are no files in them to update.
+        missing_dirs = (
+            self.profile.get_paths(directory=True).keys()
+            - self.remote_dir.scan_paths(files=False, symlinks=False).keys())
+
+        # Copy modified local files to the remote directory. Directories
+        # aren't copied recursively because they could contain files that are
+        # not to be synced.
         try:
             transfer_tree(
                 self.local_dir.path, self.remote_dir.safe_path,
-                files=update_paths, message="Updating remote files...",
-                temp_suffix="-" + self.profile.id)
+                files=set(update_paths) | missing_dirs,
+                message="Updating remote files...",
+                temp_suffix="-" + self.profile.id, recursive=False)
         except FileNotFoundError:
             if not os.path.isdir(self.remote_dir.util_dir):
                 raise RemoteError("the remote directory could not be found")
diff --git a/zielen/fstools.py b/zielen/fstools.py
index 75cbd9e..7fb3c94 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -64,7 +64,8 @@ def copy_file(source_path: str, dest_path: str, temp_suffix="") -> None:
 
 def transfer_tree(
         source: str, dest: str, files=None, exclude=None,
-        message="", rm_source=False, temp_suffix="") -> None:
+        message="", rm_source=False, temp_suffix="",
+        recursive=True) -> None:
     """Recursively copy files, preserving file metadata.
 
     Existing files in the destination are overwritten. A progress bar is
@@ -84,6 +85,7 @@ def transfer_tree(
         temp_suffix: A suffix for the names of temporary files, which must be
             unique if other processes could transfer files to the destination
             at the same time.
+        recursive: Also copy everything under the directories in 'files'.
 
     Raises:
         FileNotFoundError: The source or destination files couldn't be found.
@@ -103,7 +105,7 @@ def transfer_tree(
         rel_paths = set()
         for path in files:
             full_path = os.path.join(source, path)
-            if os.path.islink(full_path):
+            if not recursive or os.path.islink(full_path):
                 # Symlinks are copied as they are and never followed.
                 rel_paths.add(path)
                 continue
-- 
2.43.0


From f3d743d4e3f378586a73dc4f8d8cdc6d7258d717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 04/59] fix: allow adding the first file to an empty profile

The highest priority in an empty database is NULL, so that syncing a new
local file failed until there was another file in the database.
---
 zielen/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 53d40f5..f7c0873 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -638,7 +638,7 @@ class ProfileDBFile(SyncDBFile):
             dirs: The paths of directories to add to the database.
         """
         self._cur.execute("""\
-            SELECT MAX(priority) FROM nodes
+            SELECT COALESCE(MAX(priority), 0) FROM nodes
             WHERE directory = 0;
             """)
         max_priority = self._cur.fetchone()[0]
-- 
2.43.0


From 454bb85a4722c6c3c1b3c6a289255bf4365b5b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 05/59] fix: select a profile by the path of its local
 directory

Passing a path to any command failed with an AttributeError.
---
 zielen/commandbase.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/zielen/commandbase.py b/zielen/commandbase.py
index 97c42a1..c25214a 100644
--- a/zielen/commandbase.py
+++ b/zielen/commandbase.py
@@ -28,7 +28,7 @@ import functools
 from zielen.paths import get_profiles_dir
 from zielen.userdata import LocalSyncDir, RemoteSyncDir
 from zielen.profile import Profile
-from zielen.exceptions import InputError, StatusError
+from zielen.exceptions import FileParseError, InputError, StatusError
 
 
 def unlock(func):
@@ -86,11 +86,14 @@ class Command(abc.ABC):
         input_path = os.path.abspath(input_str)
         if os.path.exists(input_path):
             for name, profile in self.profiles.items():
-                if not profile.cfg.raw_vals:
-                    profile.cfg.read()
-                if os.path.samefile(
-                        input_path, profile.cfg.vals["LocalDir"]):
-                    return profile
+                try:
+                    profile.read()
+                    if os.path.samefile(input_path, profile.local_path):
+                        return profile
+                except (FileNotFoundError, FileParseError):
+                    # The profile or its local directory is incomplete, so
+                    # this can't be the selected profile.
+                    continue
         raise InputError(
             "argument is not a profile name or local directory path")
 
-- 
2.43.0


From f33198293cfaa1b2c5a0f55b0956193a222440f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 06/59] fix: don't overwrite files in the trash with files of
 the same name

When multiple files with the same name were deleted between two syncs, all
but the last one to be moved to the trash were lost.
---
 zielen/filelogic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 60c1a75..eeee297 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -853,6 +853,7 @@ class FilesManager:
                 new_filename = "{0}({1}){2}".format(
                     name, filename_counter, extension)
             new_filenames.append(new_filename)
+            trash_filenames.add(new_filename)
 
         for old_path, new_filename in zip(old_paths, new_filenames):
             abs_old_path = os.path.join(self.remote_dir.safe_path, old_path)
-- 
2.43.0


From db8e383ee50a5d8ac4f79692ac55b866321c866b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 07/59] fix: don't follow symlinks in the trash

A symlink in the trash made every sync fail if it was broken or pointed to
a directory, and was cleaned up according to the age of its target.
---
 zielen/filelogic.py | 6 +++---
 zielen/fstools.py   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index eeee297..453b661 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -873,10 +873,10 @@ class FilesManager:
         """Delete old files from the remote trash directory."""
         cutoff_time = time.time() - self.profile.cleanup_period
         for entry in os.scandir(self.remote_dir.trash_dir):
-            if entry.stat().st_mtime <= cutoff_time:
-                try:
+            if entry.stat(follow_symlinks=False).st_mtime <= cutoff_time:
+                if entry.is_dir(follow_symlinks=False):
                     shutil.rmtree(entry.path)
-                except NotADirectoryError:
+                else:
                     os.remove(entry.path)
 
     def get_excluded_size(self) -> int:
diff --git a/zielen/fstools.py b/zielen/fstools.py
index 7fb3c94..045f453 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -274,9 +274,9 @@ def update_mtime(path) -> None:
     Args:
         path: The path of the file or directory.
     """
-    if os.path.isdir(path):
+    if os.path.isdir(path) and not os.path.islink(path):
         tempfile.NamedTemporaryFile(dir=path).close()
-    elif os.path.exists(path):
+    elif os.path.lexists(path):
         current = time.time()
         os.utime(path, times=(current, current), follow_symlinks=False)
 
-- 
2.43.0


From c66ee9f400f30851f771f8c308b60f62be120f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 08/59] fix: a trash cleanup period of zero doesn't mean never

Only a negative number of days disables cleaning up the trash.
---
 zielen/commands/sync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 61a0e55..0874bf9 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -131,7 +131,7 @@ class SyncCommand(Command):
         fm.rm_excluded_files(remote_excluded_files)
 
         # Clean up the remote trash directory.
-        if self.profile.cleanup_period:
+        if self.profile.cleanup_period is not None:
             fm.cleanup_trash()
 
         # The sync is now complete. Update the time of the last sync in the
-- 
2.43.0


From 390bb8f4b7a3cff5518ac0875f1344e1cb2254e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 09/59] fix: forget excluded files that have been removed from
 the remote

Excluded files that another client had removed from the remote directory
stayed in the databases, which made every following sync fail.
---
 zielen/filelogic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 453b661..344147e 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -792,8 +792,11 @@ class FilesManager:
             paths: The relative paths of files to remove.
         """
         paths = set(paths)
-        paths -= self.profile.all_exclude_matches(self.local_dir.path)
-        self._rm_files(paths, self.local_dir.path)
+        excluded_paths = paths & self.profile.all_exclude_matches(
+            self.local_dir.path)
+        self._rm_files(paths - excluded_paths, self.local_dir.path)
+        self.profile.rm_paths(excluded_paths)
+        self.remote_dir.rm_paths(excluded_paths)
 
     def rm_remote_files(self, paths: Iterable[str]) -> None:
         """Delete remote files and remove them from both databases.
-- 
2.43.0


From 695c16882a04d023359e751a4ad7c9bdd91c911c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 10/59] fix: sync deletions that another client has already
 synced

A file that was deleted by two clients is no longer in the remote database
when the second one syncs, which failed with a KeyError.
---
 zielen/filelogic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 344147e..5d98f71 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -686,11 +686,12 @@ class FilesManager:
         remote_del_paths = known_paths - local_paths
         for path in local_del_paths.copy():
             sub_paths = set(self.profile.get_paths(root=path).keys())
-            sub_paths.remove(path)
+            sub_paths.discard(path)
             local_del_paths -= sub_paths
         for path in remote_del_paths.copy():
+            # Another client could have already removed this path.
             sub_paths = set(self.remote_dir.get_paths(root=path).keys())
-            sub_paths.remove(path)
+            sub_paths.discard(path)
             remote_del_paths -= sub_paths
 
         # Compute files to be moved to the trash.
-- 
2.43.0


From 6efc738e6ab10ecceb8d9a8d046d67d081bbdbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 11/59] fix: don't delete files that have changed since the
 last sync

A file that was deleted in one directory and modified in the other was
deleted, and the sync failed. Deleting a directory also deleted files in
the other directory that were new, excluded or unsafe symlinks.
---
 zielen/filelogic.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 5d98f71..840507f 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -26,7 +26,7 @@ from typing import Iterable, Tuple, Set, NamedTuple
 from zielen.exceptions import RemoteError, AvailableSpaceError
 from zielen.profile import Profile, ProfileExcludeFile
 from zielen.userdata import LocalSyncDir, RemoteSyncDir
-from zielen.utils import timestamp_path
+from zielen.utils import get_path_ancestry, timestamp_path
 from zielen.fstools import (
     is_unsafe_symlink, symlink_tree, transfer_tree, update_mtime)
 
@@ -658,8 +658,10 @@ class FilesManager:
             path for path, mtime in remote_mtimes
             if mtime > last_sync and self.profile.get_path_info(path)}
 
-        remote_mod_paths |= self.remote_dir.get_paths(
-            directory=False, min_lastsync=last_sync).keys()
+        remote_mod_paths |= (
+            self.remote_dir.get_paths(
+                directory=False, min_lastsync=last_sync).keys()
+            & self.remote_dir.scan_paths(dirs=False).keys())
 
         return UpdatedPaths(local_mod_paths, remote_mod_paths)
 
@@ -671,6 +673,10 @@ class FilesManager:
         trash if it needs to be deleted from the remote directory but is not
         found in any of the local trash directories.
 
+        A file is not deleted if it has been modified in the directory that it
+        would be deleted from, and a directory is not deleted if it contains
+        such a file or a file that is new or is not being synced.
+
         Returns:
             A named tuple containing three sets of relative file paths: local
             files to be deleted, remote files to be deleted and remote files to
@@ -679,11 +685,22 @@ class FilesManager:
         local_paths = self.local_dir.scan_paths().keys()
         remote_paths = self.remote_dir.scan_paths().keys()
         known_paths = self.profile.get_paths().keys()
+        mod_paths = self.compute_modified()
+        excluded_paths = self.profile.all_exclude_matches(self.local_dir.path)
+
+        # Compute files that must be kept along with their parents.
+        local_kept_paths = set(get_path_ancestry(
+            mod_paths.local
+            | (local_paths - known_paths)
+            | {os.path.dirname(path) for path in excluded_paths}))
+        remote_kept_paths = set(get_path_ancestry(
+            mod_paths.remote
+            | (remote_paths - known_paths)))
 
         # Compute files that need to be deleted, not including the files
         # under selected directories.
-        local_del_paths = known_paths - remote_paths
-        remote_del_paths = known_paths - local_paths
+        local_del_paths = known_paths - remote_paths - local_kept_paths
+        remote_del_paths = known_paths - local_paths - remote_kept_paths
         for path in local_del_paths.copy():
             sub_paths = set(self.profile.get_paths(root=path).keys())
             sub_paths.discard(path)
-- 
2.43.0


From ebded7dc6e21c095f5bdea91df116e79c2edee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 12/59] fix: replace unneeded local files with symlinks
 atomically

Local files were removed before the symlinks that replace them were created,
so that a sync that was interrupted in between made the next one delete the
remote files. Files that were renamed by the same sync were not considered,
and the priority database didn't reflect which files were kept.
---
 zielen/filelogic.py | 36 ++++++++++++------------------------
 zielen/fstools.py   | 14 +++++++++++---
 2 files changed, 23 insertions(+), 27 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 840507f..4f6e8db 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -367,29 +367,17 @@ class FilesManager:
         """
         update_paths = set(update_paths)
 
-        # Sort the file paths so that a directory's contents always come
-        # before the directory itself.
-        stale_paths = list(self.compute_stale(update_paths))
-        stale_paths.sort(key=lambda x: x.count(os.sep), reverse=True)
-
-        # Remove old, unneeded files to make room for new ones.
-        for stale_path in stale_paths:
-            full_stale_path = os.path.join(self.local_dir.path, stale_path)
-            if os.path.islink(full_stale_path):
-                # The path will just be replaced with a symlink anyways.
-                continue
-            try:
-                os.remove(full_stale_path)
-            except IsADirectoryError:
-                try:
-                    os.rmdir(full_stale_path)
-                except OSError:
-                    # There are still files in the directory. This could
-                    # happen if there were symbolic links in the directory
-                    # that weren't deleted.
-                    pass
+        stale_paths = self.compute_stale(update_paths)
 
         try:
+            # Replace old, unneeded files with symlinks to make room for new
+            # ones. If a file were missing at any point and the sync was
+            # interrupted, then the next sync would consider it deleted.
+            symlink_tree(
+                self.remote_dir.safe_path, self.local_dir.path,
+                stale_paths & self.profile.get_paths(directory=False).keys(),
+                [], overwrite=True)
+
             nonlocal_paths = symlink_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
                 self.remote_dir.get_paths(directory=False),
@@ -407,10 +395,10 @@ class FilesManager:
 
         # Update the database with information about which paths are being
         # kept in the local directory.
+        self.profile.update_paths(nonlocal_paths | stale_paths, local=False)
         for update_path in update_paths:
             self.profile.update_paths(
                 self.profile.get_paths(root=update_path).keys(), local=True)
-        self.profile.update_paths(nonlocal_paths, local=False)
 
     def update_remote(self, update_paths: Iterable[str]) -> None:
         """Update the remote directory with local files.
@@ -587,8 +575,8 @@ class FilesManager:
         # Don't include excluded files or files not in the local database
         # (e.g. unsafe symlinks).
         all_paths = (self.local_dir.scan_paths(
-            exclude=self.profile.all_exclude_matches(self.local_dir.path)
-            ).keys() & self.profile.get_paths().keys())
+            exclude=self.profile.all_exclude_matches(self.local_dir.path),
+            memoize=False).keys() & self.profile.get_paths().keys())
 
         # Exclude the paths that are parents of paths in the input.
         stale_paths = set()
diff --git a/zielen/fstools.py b/zielen/fstools.py
index 045f453..822baf4 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -210,9 +210,17 @@ def symlink_tree(
             try:
                 os.symlink(full_src_path, full_dest_path)
             except FileExistsError:
-                if overwrite:
-                    os.remove(full_dest_path)
-                    os.symlink(full_src_path, full_dest_path)
+                if (overwrite and not (
+                        os.path.islink(full_dest_path)
+                        and os.readlink(full_dest_path) == full_src_path)):
+                    temp_path = os.path.join(
+                        os.path.dirname(full_dest_path), PARTIAL_PREFIX)
+                    try:
+                        os.remove(temp_path)
+                    except FileNotFoundError:
+                        pass
+                    os.symlink(full_src_path, temp_path)
+                    os.replace(temp_path, full_dest_path)
                     new_paths.add(src_path)
             else:
                 new_paths.add(src_path)
-- 
2.43.0


From 61e10569a7b0e9c83d27401dfcc88154b1aedb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 13/59] fix: don't create symlinks to files that aren't in the
 remote directory

The remote database can contain files of other clients that have since been
deleted from the remote directory. The resulting broken symlinks were never
removed.
---
 zielen/filelogic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 4f6e8db..a46cdc9 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -380,8 +380,8 @@ class FilesManager:
 
             nonlocal_paths = symlink_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
-                self.remote_dir.get_paths(directory=False),
-                self.remote_dir.get_paths(directory=True))
+                self.profile.get_paths(directory=False),
+                self.profile.get_paths(directory=True))
 
             transfer_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
-- 
2.43.0


From b088ec5e0fabfe07701071fde0fae4c947c617b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 14/59] fix: remove renamed files from the remote database

The generator was already exhausted when the paths were to be removed from
the remote database.
---
 zielen/filelogic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index a46cdc9..c5cfc76 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -724,7 +724,7 @@ class FilesManager:
                 os.path.join(parent_dir, old_path),
                 os.path.join(parent_dir, new_path))
 
-        old_paths = (old_path for old_path, new_path in path_pairs)
+        old_paths = [old_path for old_path, new_path in path_pairs]
 
         # Separate paths of directories from paths of regular files based on
         # whether the old paths are entered as directories in the database.
-- 
2.43.0


From 8c053a10d3fee09355f6e05e539445cdf44cddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 15/59] fix: keep both files in a conflict of files with the
 same mtime

The remote file was silently overwritten when both files were modified at
the same time.
---
 zielen/filelogic.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index c5cfc76..49a3e0c 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -21,6 +21,7 @@ import os
 import copy
 import time
 import shutil
+import filecmp
 from typing import Iterable, Tuple, Set, NamedTuple
 
 from zielen.exceptions import RemoteError, AvailableSpaceError
@@ -541,6 +542,8 @@ class FilesManager:
                 local_diff.rename([(path, new_path)])
             elif remote_mtimes[path] < local_mtimes[path]:
                 remote_diff.rename([(path, new_path)])
+            elif not self._same_contents(path):
+                remote_diff.rename([(path, new_path)])
 
         if local_diff.mod_paths:
             self.rename_local_files(local_diff.mod_paths)
@@ -549,6 +552,21 @@ class FilesManager:
 
         return UpdatedPaths(local_diff.res_paths, remote_diff.res_paths)
 
+    def _same_contents(self, path: str) -> bool:
+        """Return whether a local file is the same as the remote one.
+
+        Args:
+            path: The relative path of the file.
+        """
+        local_path = os.path.join(self.local_dir.path, path)
+        remote_path = os.path.join(self.remote_dir.safe_path, path)
+        if os.path.islink(local_path) or os.path.islink(remote_path):
+            return (
+                os.path.islink(local_path) and os.path.islink(remote_path)
+                and os.readlink(local_path) == os.readlink(remote_path))
+        else:
+            return filecmp.cmp(local_path, remote_path, shallow=False)
+
     def compute_stale(self, retained_paths: Iterable[str]) -> Set[str]:
         """Compute the paths of files that are unneeded.
 
-- 
2.43.0


From 65ecada66333ba89a158e6b12587809f5599fc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:06 +0000
Subject: [PATCH 16/59] fix: don't overwrite an earlier conflict file

The names of conflict files have a resolution of one second.
---
 zielen/filelogic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 49a3e0c..4611308 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -534,7 +534,13 @@ class FilesManager:
         remote_diff = PathsDiff(remote_paths)
 
         for path in conflict_paths:
+            # Don't overwrite the file of an earlier conflict.
             new_path = timestamp_path(path, keyword="conflict")
+            base, extension = os.path.splitext(new_path)
+            counter = 0
+            while new_path in local_mtimes or new_path in remote_mtimes:
+                counter += 1
+                new_path = "{0}({1}){2}".format(base, counter, extension)
             path_data = self.profile.get_path_info(path)
             if path_data and path_data.directory:
                 continue
-- 
2.43.0


From 84502ec71cbe6b7dea5603a424ee8a2bc075f9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 17/59] fix: sync files that have been replaced with
 directories and vice versa

Replacing a file with a directory or a directory with a file made every
following sync fail, and could delete the replacement. A path that is a file
on one side and a directory on the other is now handled like any other
conflict by renaming the file.
---
 zielen/commands/sync.py |  19 +++++--
 zielen/filelogic.py     | 110 +++++++++++++++++++++++++++++++---------
 2 files changed, 100 insertions(+), 29 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 0874bf9..0b1ee5c 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -63,6 +63,9 @@ class SyncCommand(Command):
         fm = FilesManager(self.local_dir, self.remote_dir, self.profile)
         self.remote_dir.add_exclude_file(self.profile.exclude_path, self.profile.id)
 
+        # Make sure that paths in both directories have the same type.
+        fm.handle_type_conflicts()
+
         # Scan the local and remote directories.
         file_paths = (
             self.local_dir.scan_paths(dirs=False).keys()
@@ -77,6 +80,17 @@ class SyncCommand(Command):
         del_paths = fm.compute_deleted()
         mod_paths = fm.compute_modified()
 
+        # Sync deletions between the local and remote directories.
+        fm.rm_local_files(del_paths.local)
+        fm.rm_remote_files(del_paths.remote)
+        fm.trash_files(del_paths.trash)
+
+        # Forget what paths used to be if they have been replaced with a file
+        # or directory in both the local and remote directory.
+        replaced_paths = new_paths.all & self.profile.get_paths().keys()
+        self.profile.rm_paths(replaced_paths)
+        self.remote_dir.rm_paths(replaced_paths)
+
         # Add new files to both databases, and inflate the priority of new
         # local files.
         new_local_files = (new_paths.local - dir_paths)
@@ -88,11 +102,6 @@ class SyncCommand(Command):
         self.remote_dir.add_paths(new_file_paths, new_dir_paths)
         self.profile.add_paths(new_file_paths, new_dir_paths)
 
-        # Sync deletions between the local and remote directories.
-        fm.rm_local_files(del_paths.local)
-        fm.rm_remote_files(del_paths.remote)
-        fm.trash_files(del_paths.trash)
-
         # Handle syncing conflicts.
         updated_paths = fm.handle_conflicts(
             mod_paths.local | new_paths.local,
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 4611308..9adb4ae 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -26,7 +26,7 @@ from typing import Iterable, Tuple, Set, NamedTuple
 
 from zielen.exceptions import RemoteError, AvailableSpaceError
 from zielen.profile import Profile, ProfileExcludeFile
-from zielen.userdata import LocalSyncDir, RemoteSyncDir
+from zielen.userdata import LocalSyncDir, RemoteSyncDir, SyncDir
 from zielen.utils import get_path_ancestry, timestamp_path
 from zielen.fstools import (
     is_unsafe_symlink, symlink_tree, transfer_tree, update_mtime)
@@ -534,13 +534,7 @@ class FilesManager:
         remote_diff = PathsDiff(remote_paths)
 
         for path in conflict_paths:
-            # Don't overwrite the file of an earlier conflict.
-            new_path = timestamp_path(path, keyword="conflict")
-            base, extension = os.path.splitext(new_path)
-            counter = 0
-            while new_path in local_mtimes or new_path in remote_mtimes:
-                counter += 1
-                new_path = "{0}({1}){2}".format(base, counter, extension)
+            new_path = self._conflict_path(path)
             path_data = self.profile.get_path_info(path)
             if path_data and path_data.directory:
                 continue
@@ -558,6 +552,51 @@ class FilesManager:
 
         return UpdatedPaths(local_diff.res_paths, remote_diff.res_paths)
 
+    def handle_type_conflicts(self) -> None:
+        """Handle conflicts between a file and a directory of the same name.
+
+        This happens if a path is that of a directory on one side and that of
+        something else on the other, and neither of them has been deleted on
+        the other side. The file is always the one to be renamed.
+        """
+        del_paths = self.compute_deleted()
+        ignore_paths = del_paths.local | del_paths.remote | del_paths.trash
+        sync_dirs = [self.local_dir, self.remote_dir]
+        for file_dir, other_dir in [sync_dirs, reversed(sync_dirs)]:
+            conflict_paths = (
+                file_dir.scan_paths(dirs=False).keys()
+                & other_dir.scan_paths(files=False, symlinks=False).keys()
+                ) - ignore_paths
+            for path in conflict_paths:
+                os.rename(
+                    os.path.join(file_dir.path, path),
+                    os.path.join(file_dir.path, self._conflict_path(path)))
+            if conflict_paths:
+                file_dir.scan_paths(memoize=False)
+
+    def _conflict_path(self, path: str) -> str:
+        """Get a new path for a file that is part of a sync conflict.
+
+        Args:
+            path: The relative path of the file.
+
+        Returns:
+            A relative path that exists in neither directory.
+        """
+        existing_paths = (
+            self.local_dir.scan_paths().keys()
+            | self.remote_dir.scan_paths().keys())
+        new_path = timestamp_path(path, keyword="conflict")
+        base, extension = os.path.splitext(new_path)
+
+        # Don't overwrite the file of an earlier conflict.
+        counter = 0
+        while new_path in existing_paths:
+            counter += 1
+            new_path = "{0}({1}){2}".format(base, counter, extension)
+
+        return new_path
+
     def _same_contents(self, path: str) -> bool:
         """Return whether a local file is the same as the remote one.
 
@@ -610,28 +649,46 @@ class FilesManager:
 
         return stale_paths
 
+    def _known_paths(self, sync_dir: SyncDir) -> Set[str]:
+        """Get the paths in a directory that are in the local database.
+
+        Args:
+            sync_dir: The local or remote directory.
+
+        Returns:
+            The relative paths of files that are in the local database as
+            what they are, that is, either as a directory or not.
+        """
+        known_dirs = self.profile.get_paths(directory=True).keys()
+        known_files = self.profile.get_paths(directory=False).keys()
+        dirs = sync_dir.scan_paths(files=False, symlinks=False).keys()
+        files = sync_dir.scan_paths(dirs=False).keys()
+        return (known_dirs & dirs) | (known_files & files)
+
     def compute_added(self) -> UpdatedPaths:
         """Compute paths of files that have been added since the last sync.
 
         This method excludes the paths of local symlinks that are absolute
         or point to files outside the local directory. A file is considered
-        to be new if it is not in the local database.
+        to be new if it is not in the local database, or if it is there as a
+        directory but isn't one anymore or vice versa.
 
         Returns:
             A named tuple containing two sets of relative paths of files
             that have been added since the last sync: local ones and
             remote ones.
         """
+        known_paths = self._known_paths(self.local_dir)
         new_local_paths = {
             path for path in self.local_dir.scan_paths().keys()
-            if not self.profile.get_path_info(path)
+            if path not in known_paths
             and not is_unsafe_symlink(
                 os.path.join(self.local_dir.path, path), self.local_dir.path)}
         new_local_paths -= self.profile.all_exclude_matches(
             self.local_dir.path)
-        new_remote_paths = {
-            path for path in self.remote_dir.scan_paths().keys()
-            if not self.profile.get_path_info(path)}
+        new_remote_paths = (
+            self.remote_dir.scan_paths().keys()
+            - self._known_paths(self.remote_dir))
 
         return UpdatedPaths(new_local_paths, new_remote_paths)
 
@@ -661,14 +718,16 @@ class FilesManager:
 
         # Only include file paths that are in the database to exclude files
         # that are new since the last sync.
+        known_local_paths = self._known_paths(self.local_dir)
+        known_remote_paths = self._known_paths(self.remote_dir)
         local_mod_paths = {
             path for path, mtime in local_mtimes
-            if mtime > last_sync and self.profile.get_path_info(path)
+            if mtime > last_sync and path in known_local_paths
             and not is_unsafe_symlink(
                 os.path.join(self.local_dir.path, path), self.local_dir.path)}
         remote_mod_paths = {
             path for path, mtime in remote_mtimes
-            if mtime > last_sync and self.profile.get_path_info(path)}
+            if mtime > last_sync and path in known_remote_paths}
 
         remote_mod_paths |= (
             self.remote_dir.get_paths(
@@ -681,7 +740,8 @@ class FilesManager:
         """Compute files that need to be deleted to sync the two directories.
 
         A file needs to be deleted if it is found in the local database but
-        not in either the local or remote directory. A file moved to the
+        not in either the local or remote directory. This includes directories
+        that have been replaced with a file and vice versa. A file moved to the
         trash if it needs to be deleted from the remote directory but is not
         found in any of the local trash directories.
 
@@ -694,8 +754,8 @@ class FilesManager:
             files to be deleted, remote files to be deleted and remote files to
             be moved to the trash.
         """
-        local_paths = self.local_dir.scan_paths().keys()
-        remote_paths = self.remote_dir.scan_paths().keys()
+        local_paths = self._known_paths(self.local_dir)
+        remote_paths = self._known_paths(self.remote_dir)
         known_paths = self.profile.get_paths().keys()
         mod_paths = self.compute_modified()
         excluded_paths = self.profile.all_exclude_matches(self.local_dir.path)
@@ -703,11 +763,11 @@ class FilesManager:
         # Compute files that must be kept along with their parents.
         local_kept_paths = set(get_path_ancestry(
             mod_paths.local
-            | (local_paths - known_paths)
+            | (self.local_dir.scan_paths().keys() - local_paths)
             | {os.path.dirname(path) for path in excluded_paths}))
         remote_kept_paths = set(get_path_ancestry(
             mod_paths.remote
-            | (remote_paths - known_paths)))
+            | (self.remote_dir.scan_paths().keys() - remote_paths)))
 
         # Compute files that need to be deleted, not including the files
         # under selected directories.
@@ -805,8 +865,9 @@ class FilesManager:
                 os.remove(full_path)
             except IsADirectoryError:
                 shutil.rmtree(full_path)
-            except FileNotFoundError:
-                # This could happen if a previous sync was interrupted.
+            except (FileNotFoundError, NotADirectoryError):
+                # This could happen if a previous sync was interrupted or if
+                # the parent directory has been replaced with a file.
                 pass
 
         self.profile.rm_paths(paths)
@@ -895,8 +956,9 @@ class FilesManager:
             try:
                 os.rename(abs_old_path, abs_new_path)
                 update_mtime(abs_new_path)
-            except FileNotFoundError:
-                # This could happen if a previous sync was interrupted.
+            except (FileNotFoundError, NotADirectoryError):
+                # This could happen if a previous sync was interrupted or if
+                # the parent directory has been replaced with a file.
                 pass
 
         self.profile.rm_paths(old_paths)
-- 
2.43.0


From 0d74b18d17ddac7f4b0fb579356513d65e57f001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 18/59] fix: write the profile info file atomically

An interruption while it was being written left a truncated file, after which
the profile could not be used or reset anymore. The daemon reading it at the
wrong time crashed.
---
 zielen/containerbase.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 2991cdd..1a4f1e3 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -105,9 +105,14 @@ class JSONFile:
             self.vals = json.load(file)
 
     def write(self) -> None:
-        """Write object to a file."""
-        with open(self.path, "w") as file:
+        """Write object to a file.
+
+        The file is replaced atomically so that it is never incomplete.
+        """
+        temp_path = self.path + ".tmp"
+        with open(temp_path, "w") as file:
             json.dump(self.vals, file, indent=4)
+        os.replace(temp_path, self.path)
 
 
 class SyncDBFile:
-- 
2.43.0


From 0fb314dd5517d781388d76ee10a868786e4f32f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 19/59] fix: don't lose metadata when the daemon and a sync
 update it at once

The daemon wrote back the info file every few seconds, which reset the time
of the last sync if a sync completed in the meantime. A sync in turn reset
the time of the last priority adjustment to what it was when the sync
started.
---
 zielen/commands/sync.py |  1 +
 zielen/daemon.py        | 15 ++++++++-------
 zielen/profile.py       | 12 ++++++++++++
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 0b1ee5c..8da8f33 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -146,5 +146,6 @@ class SyncCommand(Command):
         # The sync is now complete. Update the time of the last sync in the
         # info file.
         self.remote_dir.write()
+        self.profile.refresh()
         self.profile.last_sync = time.time()
         self.profile.write()
diff --git a/zielen/daemon.py b/zielen/daemon.py
index 766ba73..7049dda 100644
--- a/zielen/daemon.py
+++ b/zielen/daemon.py
@@ -143,8 +143,8 @@ class Daemon(Command):
                 self._adjust()
                 self.profile.increment(
                     deduplicated_paths, self.INCREMENT_AMOUNT)
+                self.profile.commit()
                 self.profile.read()
-                self.profile.write()
             except sqlite3.OperationalError:
                 continue
             else:
@@ -155,18 +155,19 @@ class Daemon(Command):
     def _adjust(self) -> None:
         """Adjust the priority values in the database at regular intervals."""
         if time.time() >= self.profile.last_adjust + self.ADJUST_INTERVAL:
-            # This is necessary because a sync may have occurred since
-            # the last adjustment, which updates a value in the info
-            # file. If we don't read the info file before writing to it,
-            # that value will get reset.
-            self.profile.read()
-
             # Use the formula for half-life to calculate the constant to
             # multiply each priority value by.
             half_life = self.profile.priority_half_life
             adjust_constant = 0.5 ** (self.ADJUST_INTERVAL / half_life)
 
             self.profile.adjust_all(adjust_constant)
+
+            # This is necessary because a sync may have occurred since
+            # the last adjustment, which updates a value in the info
+            # file. If we don't read the info file before writing to it,
+            # that value will get reset. The database is locked at this point,
+            # so there can't be a sync that is about to do so.
+            self.profile.refresh()
             self.profile.last_adjust = time.time()
             self.profile.write()
 
diff --git a/zielen/profile.py b/zielen/profile.py
index f7c0873..fbe57dd 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -122,6 +122,18 @@ class Profile:
             self._cfg_file.write(os.path.join(
                 sys.prefix, "share/zielen/config-template"))
 
+    def refresh(self) -> None:
+        """Reload metadata that another process could have updated.
+
+        This must be called before updating metadata that is not new. Holding
+        a write lock on the database prevents it from changing in the meantime.
+        """
+        self._info_file.read()
+
+    def commit(self) -> None:
+        """Write just the database to persistent storage."""
+        self._db_file.commit()
+
     def write(self) -> None:
         """Write data to persistent storage."""
         self._info_file.write()
-- 
2.43.0


From 3d85361147eda85e24a22728105bb12105c8a470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 20/59] fix: don't lose files if a reset is interrupted

Files were moved from the remote directory one by one, and symlinks were
removed from the local directory, while the profile still existed. A sync
after the interruption considered them to have been deleted by the user and
deleted the files that were already retrieved. Running the reset again failed
because files in the remote database were missing from the remote directory.
---
 zielen/commands/reset.py | 55 +++++++++++++++++++++++-----------------
 zielen/profile.py        |  8 ++++++
 2 files changed, 40 insertions(+), 23 deletions(-)

diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index 0725e17..b9ddb2b 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -57,13 +57,18 @@ class ResetCommand(Command):
                 raise AvailableSpaceError(
                     "not enough local space to accommodate remote files")
 
-            # Retrieve remote files.
+            # Retrieve remote files. They aren't removed from the remote
+            # directory until all of them have been retrieved and the profile
+            # has been deleted, because a sync would consider a file that is
+            # missing from the remote directory to have been deleted.
+            retrieved_paths = (
+                self.remote_dir.get_paths().keys()
+                & self.remote_dir.scan_paths(memoize=False).keys())
             try:
                 transfer_tree(
                     self.remote_dir.safe_path, self.local_dir.path,
-                    files=self.remote_dir.get_paths(),
-                    message="Retrieving files...",
-                    rm_source=not self.keep_remote)
+                    files=retrieved_paths,
+                    message="Retrieving files...", recursive=False)
             except FileNotFoundError:
                 if not os.path.isdir(self.remote_dir.util_dir):
                     raise RemoteError(
@@ -72,29 +77,22 @@ class ResetCommand(Command):
                     raise
 
             if not self.keep_remote:
-                # Check that the remote directory contains only empty
-                # directories and the util directory.
-                if self.remote_dir.scan_paths(dirs=False, memoize=False):
+                # Check that the remote directory contains only files that
+                # have been retrieved and the util directory.
+                remote_files = self.remote_dir.scan_paths(
+                    dirs=False, memoize=False).keys()
+                if remote_files - retrieved_paths:
                     raise FileTransferError("some files were not retrieved")
 
-                # Close the database connection, and then remove the
-                # contents of the remote directory. If the database
-                # connection is not closed, the util directory will not be
-                # able to be deleted.
-                self.remote_dir.close()
-                try:
-                    for entry in os.scandir(self.remote_dir.path):
-                        if entry.is_dir:
-                            shutil.rmtree(entry.path)
-                        else:
-                            os.remove(entry.path)
-                except FileNotFoundError:
-                    pass
+        # The profile must be deleted first. Otherwise, a sync would consider
+        # the files being removed to have been deleted by the user.
+        self.remote_dir.rm_exclude_file(self.profile.id)
+        self.profile.delete()
 
         # Remove non-user-created symlinks from the local directory. These
         # are symlinks that point to the remote directory.
         local_symlinks = self.local_dir.scan_paths(
-            files=False, dirs=False).keys()
+            files=False, dirs=False, memoize=False).keys()
         for rel_path in local_symlinks:
             full_path = os.path.join(self.local_dir.path, rel_path)
             link_dest = os.readlink(full_path)
@@ -105,5 +103,16 @@ class ResetCommand(Command):
                     self.remote_dir.safe_path]) == self.remote_dir.safe_path:
                 os.remove(full_path)
 
-        self.remote_dir.rm_exclude_file(self.profile.id)
-        shutil.rmtree(self.profile.path)
+        if not self.no_retrieve and not self.keep_remote:
+            # Close the database connection, and then remove the contents of
+            # the remote directory. If the database connection is not closed,
+            # the util directory will not be able to be deleted.
+            self.remote_dir.close()
+            try:
+                for entry in os.scandir(self.remote_dir.path):
+                    if entry.is_dir(follow_symlinks=False):
+                        shutil.rmtree(entry.path)
+                    else:
+                        os.remove(entry.path)
+            except FileNotFoundError:
+                pass
diff --git a/zielen/profile.py b/zielen/profile.py
index fbe57dd..6777967 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -21,6 +21,7 @@ import os
 import re
 import sys
 import glob
+import shutil
 import uuid
 import getpass
 import sqlite3
@@ -134,6 +135,13 @@ class Profile:
         """Write just the database to persistent storage."""
         self._db_file.commit()
 
+    def delete(self) -> None:
+        """Delete the profile directory."""
+        # Without the info file, the profile can't be used anymore, even if
+        # this is interrupted.
+        os.remove(self._info_file.path)
+        shutil.rmtree(self.path)
+
     def write(self) -> None:
         """Write data to persistent storage."""
         self._info_file.write()
-- 
2.43.0


From 269b3ec8c24783327a12d973c0e3f07e07dce4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 21/59] fix: don't overwrite files modified since the last sync
 in a reset

Retrieving files from the remote directory overwrote local files that had been
modified since the last sync.
---
 zielen/commands/reset.py |  9 ++++++++-
 zielen/filelogic.py      | 37 ++++++++++++++++++++++++++++++++++++-
 2 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index b9ddb2b..1a9f342 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -22,6 +22,7 @@ import shutil
 
 from zielen.exceptions import (
     RemoteError, AvailableSpaceError, FileTransferError)
+from zielen.filelogic import FilesManager
 from zielen.fstools import transfer_tree
 from zielen.commandbase import Command, unlock
 
@@ -64,10 +65,16 @@ class ResetCommand(Command):
             retrieved_paths = (
                 self.remote_dir.get_paths().keys()
                 & self.remote_dir.scan_paths(memoize=False).keys())
+
+            # Keep local files that have been modified since the last sync.
+            # If the remote file has been modified as well, then the older
+            # file is renamed.
+            fm = FilesManager(self.local_dir, self.remote_dir, self.profile)
             try:
+                kept_paths = fm.resolve_local() & retrieved_paths
                 transfer_tree(
                     self.remote_dir.safe_path, self.local_dir.path,
-                    files=retrieved_paths,
+                    files=retrieved_paths - kept_paths,
                     message="Retrieving files...", recursive=False)
             except FileNotFoundError:
                 if not os.path.isdir(self.remote_dir.util_dir):
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 9adb4ae..79c78dc 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -29,7 +29,7 @@ from zielen.profile import Profile, ProfileExcludeFile
 from zielen.userdata import LocalSyncDir, RemoteSyncDir, SyncDir
 from zielen.utils import get_path_ancestry, timestamp_path
 from zielen.fstools import (
-    is_unsafe_symlink, symlink_tree, transfer_tree, update_mtime)
+    copy_file, is_unsafe_symlink, symlink_tree, transfer_tree, update_mtime)
 
 DeletedPaths = NamedTuple(
     "DeletedPaths",
@@ -597,6 +597,41 @@ class FilesManager:
 
         return new_path
 
+    def resolve_local(self) -> Set[str]:
+        """Handle sync conflicts without changing the remote directory.
+
+        If both the local and remote file have been modified since the last
+        sync, then the one that was modified least recently is given a new
+        name in the local directory.
+
+        Returns:
+            The relative paths of local files that must not be overwritten with
+            remote files.
+        """
+        local_files = self.local_dir.scan_paths(dirs=False)
+        remote_files = self.remote_dir.scan_paths(dirs=False)
+        mod_paths = self.compute_modified()
+        new_paths = self.compute_added()
+        kept_paths = (
+            mod_paths.local | (new_paths.local & local_files.keys()))
+
+        for path in (
+                kept_paths & remote_files.keys()
+                & (mod_paths.remote | new_paths.remote)):
+            local_path = os.path.join(self.local_dir.path, path)
+            new_path = os.path.join(
+                self.local_dir.path, self._conflict_path(path))
+            if self._same_contents(path):
+                continue
+            elif local_files[path].st_mtime < remote_files[path].st_mtime:
+                os.rename(local_path, new_path)
+                kept_paths.discard(path)
+            else:
+                copy_file(
+                    os.path.join(self.remote_dir.safe_path, path), new_path)
+
+        return kept_paths
+
     def _same_contents(self, path: str) -> bool:
         """Return whether a local file is the same as the remote one.
 
-- 
2.43.0


From d8e9edc40be941f49712c387983200b29003606b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 22/59] fix: accept booleans in the config file regardless of
 case

Values such as 'Yes' pass validation but were silently treated as false.
---
 zielen/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 6777967..b2d519c 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -279,9 +279,9 @@ class Profile:
 
     def _convert_bool(self, value: str) -> bool:
         """Convert a string to a bool."""
-        if value in self._cfg_file.TRUE_VALS:
+        if value.lower() in self._cfg_file.TRUE_VALS:
             return True
-        elif value in self._cfg_file.FALSE_VALS:
+        elif value.lower() in self._cfg_file.FALSE_VALS:
             return False
 
     @property
-- 
2.43.0


From 492f63e572470dc42ccfa7091abc9e98bd9694a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 23/59] fix: accept units in the config file regardless of case

Storage limits such as '10gb' pass validation but failed with an
UnboundLocalError when syncing.
---
 zielen/profile.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index b2d519c..859afef 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -244,17 +244,13 @@ class Profile:
             r"^([0-9]+)\s*([KMG])(B|iB)?$",
             self._cfg_file.vals["StorageLimit"], re.IGNORECASE)[0]
 
-        if unit == "iB" or not unit:
-            base = 1024
-        elif unit == "B":
+        # The syntax check is case-insensitive.
+        if unit.lower() == "b":
             base = 1000
+        else:
+            base = 1024
 
-        if prefix in ["k", "K"]:
-            exponent = 1
-        elif prefix == "M":
-            exponent = 2
-        elif prefix == "G":
-            exponent = 3
+        exponent = "kmg".index(prefix.lower()) + 1
 
         return int(num) * base**exponent
 
-- 
2.43.0


From 920d3aac4a641d269578703e748072e58e27ae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 24/59] fix: forget options that were removed from the config
 file

The daemon re-reads the config file periodically. Options that were commented
out to return them to their defaults kept their old value until it was
restarted.
---
 zielen/containerbase.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 1a4f1e3..d0c8265 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -48,6 +48,7 @@ class ConfigFile:
 
     def read(self) -> None:
         """Parse file for key-value pairs and save in a dictionary."""
+        raw_vals = {}
         try:
             with open(self.path) as file:
                 for line in file:
@@ -55,10 +56,13 @@ class ConfigFile:
                     if (not self.COMMENT_REGEX.search(line)
                             and self.SEPARATOR in line):
                         key, value = line.partition(self.SEPARATOR)[::2]
-                        self.raw_vals[key.strip()] = value.strip()
+                        raw_vals[key.strip()] = value.strip()
         except OSError:
             raise FileParseError("could not open the configuration file")
 
+        # Forget options that aren't in the file anymore.
+        self.raw_vals = raw_vals
+
     def write(self, template_path: str) -> None:
         """Generate a new config file based on the input file."""
         try:
-- 
2.43.0


From bfc2774547765ebb202b69acccf36cbe9eb92731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 25/59] fix: reject a priority half-life of zero

The daemon failed with a ZeroDivisionError.
---
 zielen/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 859afef..be8300f 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -944,8 +944,8 @@ class ProfileConfigFile(ConfigFile):
             if not re.search("^[0-9]+$", value):
                 return "must be an integer"
         elif key == "PriorityHalfLife":
-            if not re.search("^[0-9]+$", value):
-                return "must be an integer"
+            if not re.search("^0*[1-9][0-9]*$", value):
+                return "must be a positive integer"
         elif key == "TrashCleanupPeriod":
             if not re.search(r"^-?[0-9]+$", value):
                 return "must be an integer"
-- 
2.43.0


From 08d5bb811f14360a85be2771c57a90a2cdddfb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 26/59] fix: don't let clients sync with the same remote
 directory at once

Each client resolved the differences between its local directory and a remote
directory that was being changed by the other one, so that modifications were
lost. The remote database is now locked for the duration of a sync.
---
 zielen/commands/init.py |  1 +
 zielen/commands/sync.py |  4 ++++
 zielen/containerbase.py | 17 ++++++++++++++++-
 zielen/userdata.py      |  4 ++++
 4 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index 3abb4ff..2a17224 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -153,6 +153,7 @@ class InitCommand(Command):
             atexit.unregister(delete_profile)
 
         self.remote_dir.generate()
+        self.remote_dir.lock()
 
         # Copy files and/or create symlinks.
         if self.add_remote:
diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 8da8f33..c8ad229 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -63,6 +63,10 @@ class SyncCommand(Command):
         fm = FilesManager(self.local_dir, self.remote_dir, self.profile)
         self.remote_dir.add_exclude_file(self.profile.exclude_path, self.profile.id)
 
+        # Other clients must not change the remote directory until the sync is
+        # complete.
+        self.remote_dir.lock()
+
         # Make sure that paths in both directories have the same type.
         fm.handle_type_conflicts()
 
diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index d0c8265..04f708f 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -25,7 +25,7 @@ import contextlib
 import hashlib
 from typing import List, Generator, Iterable
 
-from zielen.exceptions import FileParseError, RemoteError
+from zielen.exceptions import FileParseError, RemoteError, StatusError
 from zielen.utils import secure_string
 
 
@@ -223,6 +223,21 @@ class SyncDBFile:
         return int.from_bytes(
             path_hash.digest()[:8], byteorder="big", signed=True)
 
+    def lock(self) -> None:
+        """Start a transaction that locks the database for writing.
+
+        Raises:
+            RemoteError: The database file wasn't found.
+            StatusError: The database is already locked.
+        """
+        if self._conn is None:
+            raise RemoteError("could not connect to the database file")
+        try:
+            self._cur.execute("BEGIN IMMEDIATE;")
+        except sqlite3.OperationalError:
+            raise StatusError(
+                "another operation on this directory is already taking place")
+
     def commit(self) -> None:
         """Commit the database transaction."""
         self._conn.commit()
diff --git a/zielen/userdata.py b/zielen/userdata.py
index 5d06371..3e09de3 100644
--- a/zielen/userdata.py
+++ b/zielen/userdata.py
@@ -183,6 +183,10 @@ class RemoteSyncDir(SyncDir):
         """Close all database connections."""
         self._db_file.close()
 
+    def lock(self) -> None:
+        """Prevent other clients from syncing until data is written."""
+        self._db_file.lock()
+
     def add_exclude_file(self, filepath: str, profile_id: str) -> None:
         """Add a profile exclude file to the remote.
 
-- 
2.43.0


From 9ae13cdb2579e6f3d77b27477efa881b7fccc7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 27/59] fix: don't delete local files if the remote directory
 disappears

If the remote directory was unmounted after the start of a sync but before it
was scanned, then all files seemed to have been deleted from it, and they were
deleted from the local directory.
---
 zielen/commands/sync.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index c8ad229..04a741f 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -22,6 +22,7 @@ import shutil
 import time
 from typing import Iterable, Set, NamedTuple, Tuple, List
 
+from zielen.exceptions import RemoteError
 from zielen.commandbase import Command, unlock
 from zielen.filelogic import FilesManager
 
@@ -84,6 +85,11 @@ class SyncCommand(Command):
         del_paths = fm.compute_deleted()
         mod_paths = fm.compute_modified()
 
+        # If the remote directory was unmounted before it was scanned, then all
+        # of its files would be considered deleted.
+        if not os.path.isdir(self.remote_dir.util_dir):
+            raise RemoteError("the remote directory could not be found")
+
         # Sync deletions between the local and remote directories.
         fm.rm_local_files(del_paths.local)
         fm.rm_remote_files(del_paths.remote)
-- 
2.43.0


From eb279964f165b5533eef6f1025a4f17821af1694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 28/59] fix: account for the size of excluded files that are
 being retrieved

The size that an excluded file had in the local directory before it was copied
from the remote directory was used, so that the local directory exceeded the
storage limit until the next sync.
---
 zielen/commands/sync.py |  6 ++++--
 zielen/filelogic.py     | 12 ++++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 04a741f..b0bc31a 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -133,10 +133,12 @@ class SyncCommand(Command):
         # Calculate which excluded files are still in the remote directory.
         remote_excluded_files = (
             self.profile.all_exclude_matches(self.local_dir.path)
-            & self.remote_dir.scan_paths().keys())
+            & self.remote_dir.scan_paths(memoize=False).keys())
 
         # Decide which files and directories to keep in the local directory.
-        remaining_space = self.profile.storage_limit - fm.get_excluded_size()
+        remaining_space = (
+            self.profile.storage_limit
+            - fm.get_excluded_size(remote_excluded_files))
         remaining_space, selected_dirs = fm.prioritize_dirs(remaining_space)
         remaining_space, selected_files = fm.prioritize_files(
             remaining_space, exclude=selected_dirs)
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 79c78dc..8262fc9 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -1009,13 +1009,21 @@ class FilesManager:
                 else:
                     os.remove(entry.path)
 
-    def get_excluded_size(self) -> int:
+    def get_excluded_size(self, update_paths=None) -> int:
         """Get the disk usage of all excluded local files.
 
+        Args:
+            update_paths: The paths of excluded files that are about to be
+                replaced with the remote file.
+
         Returns:
             The disk usage as a number of bytes.
         """
+        local_stats = self.local_dir.scan_paths()
+        remote_stats = self.remote_dir.scan_paths()
+        update_paths = set() if update_paths is None else set(update_paths)
         total_excluded_size = sum(
-            self.local_dir.scan_paths()[path].st_blocks * 512
+            (remote_stats if path in update_paths else local_stats)[
+                path].st_blocks * 512
             for path in self.profile.all_exclude_matches(self.local_dir.path))
         return total_excluded_size
-- 
2.43.0


From 20bc1e3da4cd3d1e2255a82d87425f405b801e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 29/59] fix: don't overwrite excluded files with new remote
 files

Excluded files that are in the remote directory are copied to the local
directory. If there was an unrelated excluded file in the local directory, then
it was overwritten.
---
 zielen/filelogic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 8262fc9..82c37a8 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -719,12 +719,16 @@ class FilesManager:
             if path not in known_paths
             and not is_unsafe_symlink(
                 os.path.join(self.local_dir.path, path), self.local_dir.path)}
-        new_local_paths -= self.profile.all_exclude_matches(
-            self.local_dir.path)
         new_remote_paths = (
             self.remote_dir.scan_paths().keys()
             - self._known_paths(self.remote_dir))
 
+        # Excluded files are not synced, but they must not be overwritten
+        # with a new remote file either.
+        new_local_paths -= (
+            self.profile.all_exclude_matches(self.local_dir.path)
+            - new_remote_paths)
+
         return UpdatedPaths(new_local_paths, new_remote_paths)
 
     def compute_modified(self) -> UpdatedPaths:
-- 
2.43.0


From fa9273e92a752ef64ce77f79fdf16fa52c1b4279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 30/59] fix: exclude the files of conflicts that match an
 exclude pattern

A file that was renamed because of a conflict to a name that is excluded was
only treated as such in the next sync.
---
 zielen/commands/sync.py | 3 +++
 zielen/profile.py       | 1 +
 2 files changed, 4 insertions(+)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index b0bc31a..b652206 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -130,6 +130,9 @@ class SyncCommand(Command):
         # At this point, the differences between the two directories have been
         # resolved.
 
+        # Handling conflicts could have changed which local files are excluded.
+        self.profile.reset_exclude_matches()
+
         # Calculate which excluded files are still in the remote directory.
         remote_excluded_files = (
             self.profile.all_exclude_matches(self.local_dir.path)
diff --git a/zielen/profile.py b/zielen/profile.py
index be8300f..bcf4223 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -74,6 +74,7 @@ class Profile:
         self.exclude_path = self._exclude_file.path
         self.exclude_matches = self._exclude_file.matches
         self.all_exclude_matches = self._exclude_file.all_matches
+        self.reset_exclude_matches = self._exclude_file.reset
         self.add_paths = self._db_file.add_paths
         self.add_inflated = self._db_file.add_inflated
         self.update_paths = self._db_file.update_paths
-- 
2.43.0


From 9eeee9c3854ab0018e65b7a15faac7086140b82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 31/59] fix: don't mark remote files as modified when they
 haven't changed

Files were added to the remote database again, with the current time, if
another client had already synced their change of type or if a local file was
renamed to resolve a conflict. Other clients then saw them as modified, which
undid deletions and caused conflicts.
---
 zielen/commands/sync.py | 30 ++++++++++++++++++------------
 zielen/filelogic.py     | 13 +++++++++----
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index b652206..db74e06 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -71,13 +71,12 @@ class SyncCommand(Command):
         # Make sure that paths in both directories have the same type.
         fm.handle_type_conflicts()
 
-        # Scan the local and remote directories.
-        file_paths = (
-            self.local_dir.scan_paths(dirs=False).keys()
-            | self.remote_dir.scan_paths(dirs=False).keys())
-        dir_paths = (
-            self.local_dir.scan_paths(files=False, symlinks=False).keys()
-            | self.remote_dir.scan_paths(files=False, symlinks=False).keys())
+        # Scan the local and remote directories. A path could be that of a file
+        # in one and a directory in the other if it was replaced.
+        local_dirs = self.local_dir.scan_paths(
+            files=False, symlinks=False).keys()
+        remote_dirs = self.remote_dir.scan_paths(
+            files=False, symlinks=False).keys()
 
         # Get the paths of files that have been added, deleted or modified
         # since the last sync.
@@ -95,18 +94,25 @@ class SyncCommand(Command):
         fm.rm_remote_files(del_paths.remote)
         fm.trash_files(del_paths.trash)
 
+        new_local_dirs = new_paths.local & local_dirs
+        new_local_files = new_paths.local - new_local_dirs
+        new_dir_paths = new_local_dirs | (new_paths.remote & remote_dirs)
+        new_file_paths = new_paths.all - new_dir_paths
+
         # Forget what paths used to be if they have been replaced with a file
         # or directory in both the local and remote directory.
         replaced_paths = new_paths.all & self.profile.get_paths().keys()
         self.profile.rm_paths(replaced_paths)
-        self.remote_dir.rm_paths(replaced_paths)
+
+        # If another client has already synced this, then adding the paths to
+        # the remote database again would mark them as modified.
+        remote_paths = self.remote_dir.get_paths()
+        self.remote_dir.rm_paths({
+            path for path in new_paths.all & remote_paths.keys()
+            if remote_paths[path].directory != (path in new_dir_paths)})
 
         # Add new files to both databases, and inflate the priority of new
         # local files.
-        new_local_files = (new_paths.local - dir_paths)
-        new_local_dirs = (new_paths.local - file_paths)
-        new_file_paths = (new_paths.all - dir_paths)
-        new_dir_paths = (new_paths.all - file_paths)
         if self.profile.inflate_priority:
             self.profile.add_inflated(new_local_files, new_local_dirs)
         self.remote_dir.add_paths(new_file_paths, new_dir_paths)
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 82c37a8..355deff 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -861,7 +861,10 @@ class FilesManager:
                 new_file_paths.add(new_path)
 
         self.profile.rm_paths(old_paths)
-        self.remote_dir.rm_paths(old_paths)
+        # Other clients must not be told that a remote file has changed if only
+        # the local one has been renamed.
+        if parent_dir != self.local_dir.path:
+            self.remote_dir.rm_paths(old_paths)
         self.profile.add_paths(new_file_paths, new_dir_paths)
         self.remote_dir.add_paths(new_file_paths, new_dir_paths)
 
@@ -892,7 +895,7 @@ class FilesManager:
                 raise
 
     def _rm_files(self, paths: Iterable[str], parent_dir: str) -> None:
-        """Delete files and remove them from both databases.
+        """Delete files and remove them from the local database.
 
         Args:
             paths: The relative paths of files to remove.
@@ -910,7 +913,6 @@ class FilesManager:
                 pass
 
         self.profile.rm_paths(paths)
-        self.remote_dir.rm_paths(paths)
 
     def rm_local_files(self, paths: Iterable[str]) -> None:
         """Delete local files and remove them from both databases.
@@ -926,7 +928,9 @@ class FilesManager:
             self.local_dir.path)
         self._rm_files(paths - excluded_paths, self.local_dir.path)
         self.profile.rm_paths(excluded_paths)
-        self.remote_dir.rm_paths(excluded_paths)
+
+        # Another client could have already replaced these paths.
+        self.remote_dir.rm_paths(paths - self.remote_dir.scan_paths().keys())
 
     def rm_remote_files(self, paths: Iterable[str]) -> None:
         """Delete remote files and remove them from both databases.
@@ -935,6 +939,7 @@ class FilesManager:
             paths: The relative paths of files to remove.
         """
         self._rm_files(paths, self.remote_dir.path)
+        self.remote_dir.rm_paths(paths)
 
     def rm_excluded_files(self, excluded_paths: Iterable[str]) -> None:
         """Remove excluded files from the remote directory.
-- 
2.43.0


From cc54304e77593a47d47c95a3425a13001d49728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:00 +0000
Subject: [PATCH 32/59] fix: don't empty the trash or reset while another
 client is syncing

A sync failed if files in the remote directory disappeared while it was
scanning it, and a reset deleted remote files that were added in the meantime.
---
 zielen/commands/emptytrash.py | 3 +++
 zielen/commands/reset.py      | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/zielen/commands/emptytrash.py b/zielen/commands/emptytrash.py
index 89cf782..f3dafcb 100644
--- a/zielen/commands/emptytrash.py
+++ b/zielen/commands/emptytrash.py
@@ -38,6 +38,9 @@ class EmptyTrashCommand(Command):
         """Run the command."""
         self.setup_profile()
 
+        # Other clients must not be syncing while the trash is being emptied.
+        self.remote_dir.lock()
+
         files_deleted = 0
         for path in os.scandir(self.remote_dir.trash_dir):
             try:
diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index 1a9f342..737b2d5 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -52,6 +52,10 @@ class ResetCommand(Command):
         self.setup_profile()
 
         if not self.no_retrieve:
+            # Other clients must not change the remote directory until the
+            # reset is complete.
+            self.remote_dir.lock()
+
             # Check if there is enough space locally to accommodate remote
             # files.
             if self.remote_dir.disk_usage() > self.local_dir.space_avail():
-- 
2.43.0


From b451d1642b63d81abac2397b7282f2f35f3f49fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:00 +0000
Subject: [PATCH 33/59] fix: allow resuming an initialization interrupted
 before it could be resumed

If the initialization of a profile was killed before its config file was
written or while its databases were being created, it could neither be resumed
nor started again. Two clients also couldn't initialize a new remote directory
at the same time.
---
 zielen/commands/init.py |  8 ++++--
 zielen/profile.py       | 59 +++++++++++++++++++++--------------------
 zielen/userdata.py      | 46 ++++++++++++++++----------------
 3 files changed, 59 insertions(+), 54 deletions(-)

diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index 2a17224..760bd44 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -198,10 +198,14 @@ class InitCommand(Command):
 
         overlap_profiles = []
         for name, profile in self.profiles.items():
-            if profile is self.profile or not os.path.isfile(profile.cfg_path):
+            if name == self.profile.name:
                 continue
 
-            profile.read()
+            try:
+                profile.read()
+            except FileNotFoundError:
+                # The profile is incomplete.
+                continue
 
             common_path = os.path.commonpath([profile.local_path, dir_path])
             if common_path in [profile.local_path, dir_path]:
diff --git a/zielen/profile.py b/zielen/profile.py
index bcf4223..4a94269 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -101,12 +101,7 @@ class Profile:
         os.makedirs(self.path, exist_ok=True)
 
         self._exclude_file.generate(exclude_path)
-        self._info_file.generate(self.name, init_options)
-
-        try:
-            self._db_file.create()
-        except FileExistsError:
-            pass
+        self._db_file.create()
 
         if template_path:
             template_file = ProfileConfigFile(template_path)
@@ -124,6 +119,9 @@ class Profile:
             self._cfg_file.write(os.path.join(
                 sys.prefix, "share/zielen/config-template"))
 
+        # The initialization can be resumed once the info file exists.
+        self._info_file.generate(self.name, init_options)
+
     def refresh(self) -> None:
         """Reload metadata that another process could have updated.
 
@@ -464,29 +462,30 @@ class ProfileDBFile(SyncDBFile):
         _cur: The sqlite cursor object for the connection.
     """
     def create(self) -> None:
-        """Create a new empty database.
+        """Create a new empty database if it doesn't already exist.
 
         Raises:
-            FileExistsError: The database file already exists.
+            StatusError: The database is already locked.
         """
-        if os.path.isfile(self.path):
-            raise FileExistsError("the database file already exists")
-
-        self._conn = sqlite3.connect(
-            self.path,
-            detect_types=sqlite3.PARSE_DECLTYPES,
-            isolation_level="DEFERRED")
-        self._conn.create_function("gen_salt", 0, lambda: secure_string(8))
-
-        self._cur = self._conn.cursor()
-        self._cur.arraysize = 20
-
+        if self._conn is None:
+            self._conn = sqlite3.connect(
+                self.path,
+                detect_types=sqlite3.PARSE_DECLTYPES,
+                isolation_level="DEFERRED")
+            self._conn.create_function("gen_salt", 0, lambda: secure_string(8))
+
+            self._cur = self._conn.cursor()
+            self._cur.arraysize = 20
+
+        self._cur.execute("PRAGMA foreign_keys = ON;")
+        self._cur.execute("PRAGMA journal_mode = WAL;")
+
+        # The tables must be created in a single transaction so that a database
+        # never has just some of them.
+        self.lock()
         with self._transact():
-            self._cur.executescript("""\
-                PRAGMA foreign_keys = ON;
-                PRAGMA journal_mode = WAL;
-
-                CREATE TABLE nodes (
+            self._cur.execute("""\
+                CREATE TABLE IF NOT EXISTS nodes (
                     id          INTEGER NOT NULL,
                     path        TEXT    NOT NULL,
                     directory   BOOL    NOT NULL,
@@ -494,8 +493,9 @@ class ProfileDBFile(SyncDBFile):
                     local       BOOL    NOT NULL,
                     PRIMARY KEY (id) ON CONFLICT IGNORE
                 );
-
-                CREATE TABLE closure (
+                """)
+            self._cur.execute("""\
+                CREATE TABLE IF NOT EXISTS closure (
                     ancestor    INT     NOT NULL,
                     descendant  INT     NOT NULL,
                     depth       INT     DEFAULT 0,
@@ -505,8 +505,9 @@ class ProfileDBFile(SyncDBFile):
                     FOREIGN KEY (descendant)
                         REFERENCES nodes(id) ON DELETE CASCADE
                 ) WITHOUT ROWID;
-
-                CREATE TABLE collisions (
+                """)
+            self._cur.execute("""\
+                CREATE TABLE IF NOT EXISTS collisions (
                     path        TEXT    NOT NULL,
                     salt        TEXT    NOT NULL,
                     PRIMARY KEY (path) ON CONFLICT IGNORE
diff --git a/zielen/userdata.py b/zielen/userdata.py
index 3e09de3..89adfce 100644
--- a/zielen/userdata.py
+++ b/zielen/userdata.py
@@ -170,10 +170,7 @@ class RemoteSyncDir(SyncDir):
         os.makedirs(self._exclude_dir, exist_ok=True)
         os.makedirs(self.trash_dir, exist_ok=True)
 
-        try:
-            self._db_file.create()
-        except FileExistsError:
-            pass
+        self._db_file.create()
 
     def write(self) -> None:
         """Write data to persistent storage."""
@@ -265,36 +262,38 @@ class RemoteDBFile(SyncDBFile):
         _cur: The sqlite cursor object for the connection.
     """
     def create(self) -> None:
-        """Create a new empty database.
+        """Create a new empty database if it doesn't already exist.
 
         Raises:
-            FileExistsError: The database file already exists.
+            StatusError: The database is already locked.
         """
-        if os.path.isfile(self.path):
-            raise FileExistsError("the database file already exists")
+        if self._conn is None:
+            self._conn = sqlite3.connect(
+                self.path,
+                detect_types=sqlite3.PARSE_DECLTYPES,
+                isolation_level="DEFERRED")
+            self._conn.create_function("gen_salt", 0, lambda: secure_string(8))
 
-        self._conn = sqlite3.connect(
-            self.path,
-            detect_types=sqlite3.PARSE_DECLTYPES,
-            isolation_level="DEFERRED")
-        self._conn.create_function("gen_salt", 0, lambda: secure_string(8))
+            self._cur = self._conn.cursor()
+            self._cur.arraysize = 20
 
-        self._cur = self._conn.cursor()
-        self._cur.arraysize = 20
+        self._cur.execute("PRAGMA foreign_keys = ON;")
 
+        # The tables must be created in a single transaction so that a database
+        # never has just some of them.
+        self.lock()
         with self._transact():
-            self._cur.executescript("""\
-                PRAGMA foreign_keys = ON;
-
-                CREATE TABLE nodes (
+            self._cur.execute("""\
+                CREATE TABLE IF NOT EXISTS nodes (
                     id          INTEGER NOT NULL,
                     path        TEXT    NOT NULL,
                     directory   BOOL    NOT NULL,
                     lastsync    REAL    NOT NULL,
                     PRIMARY KEY (id) ON CONFLICT IGNORE
                 );
-
-                CREATE TABLE closure (
+                """)
+            self._cur.execute("""\
+                CREATE TABLE IF NOT EXISTS closure (
                     ancestor    INT     NOT NULL,
                     descendant  INT     NOT NULL,
                     depth       INT     DEFAULT 0,
@@ -304,8 +303,9 @@ class RemoteDBFile(SyncDBFile):
                     FOREIGN KEY (descendant)
                         REFERENCES nodes(id) ON DELETE CASCADE
                 ) WITHOUT ROWID;
-
-                CREATE TABLE collisions (
+                """)
+            self._cur.execute("""\
+                CREATE TABLE IF NOT EXISTS collisions (
                     path        TEXT    NOT NULL,
                     salt        TEXT    NOT NULL,
                     PRIMARY KEY (path) ON CONFLICT IGNORE
-- 
2.43.0


From e2534fe221e33bfe23bddd16cdea64d9f7ab9f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 34/59] fix: reset profiles in which files and directories have
 replaced each other

The reset failed if a path was that of a directory on one side and that of a
file on the other.
---
 zielen/filelogic.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 355deff..dc0d828 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -602,13 +602,24 @@ class FilesManager:
 
         If both the local and remote file have been modified since the last
         sync, then the one that was modified least recently is given a new
-        name in the local directory.
+        name in the local directory. If a path is that of a directory on one
+        side and that of something else on the other, then the file is given a
+        new name in the local directory.
 
         Returns:
             The relative paths of local files that must not be overwritten with
             remote files.
         """
-        local_files = self.local_dir.scan_paths(dirs=False)
+        remote_dirs = self.remote_dir.scan_paths(files=False, symlinks=False)
+        for path in (
+                self.local_dir.scan_paths(dirs=False).keys()
+                & remote_dirs.keys()):
+            os.rename(
+                os.path.join(self.local_dir.path, path),
+                os.path.join(self.local_dir.path, self._conflict_path(path)))
+
+        local_files = self.local_dir.scan_paths(dirs=False, memoize=False)
+        local_dirs = self.local_dir.scan_paths(files=False, symlinks=False)
         remote_files = self.remote_dir.scan_paths(dirs=False)
         mod_paths = self.compute_modified()
         new_paths = self.compute_added()
@@ -630,6 +641,12 @@ class FilesManager:
                 copy_file(
                     os.path.join(self.remote_dir.safe_path, path), new_path)
 
+        for path in local_dirs.keys() & remote_files.keys():
+            copy_file(
+                os.path.join(self.remote_dir.safe_path, path),
+                os.path.join(self.local_dir.path, self._conflict_path(path)))
+            kept_paths.add(path)
+
         return kept_paths
 
     def _same_contents(self, path: str) -> bool:
-- 
2.43.0


From 2ee78e8f24211da88b862e635f79576e202317ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 35/59] fix: don't lose changes made during a sync

The time of the last sync is now when the sync started, files that have been
modified since their directory was scanned are not replaced or deleted, and a
copy of a file that is modified while it is copied doesn't look up to date.
---
 zielen/commands/init.py |   3 +-
 zielen/commands/sync.py |  16 +++--
 zielen/filelogic.py     | 152 ++++++++++++++++++++++++++++++++++------
 zielen/fstools.py       |  42 +++++++++--
 zielen/userdata.py      |  53 ++++++++++----
 5 files changed, 218 insertions(+), 48 deletions(-)

diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index 760bd44..e3b8a03 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -154,6 +154,7 @@ class InitCommand(Command):
 
         self.remote_dir.generate()
         self.remote_dir.lock()
+        fm.start()
 
         # Copy files and/or create symlinks.
         if self.add_remote:
@@ -168,7 +169,7 @@ class InitCommand(Command):
         # The profile is now fully initialized. Update the profile.
         self.remote_dir.write()
         self.profile.status = "initialized"
-        self.profile.last_sync = time.time()
+        self.profile.last_sync = fm.sync_time
         self.profile.last_adjust = time.time()
         self.profile.write()
         atexit.unregister(self.print_interrupt_msg)
diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index db74e06..c12c54a 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -67,6 +67,7 @@ class SyncCommand(Command):
         # Other clients must not change the remote directory until the sync is
         # complete.
         self.remote_dir.lock()
+        fm.start()
 
         # Make sure that paths in both directories have the same type.
         fm.handle_type_conflicts()
@@ -115,7 +116,8 @@ class SyncCommand(Command):
         # local files.
         if self.profile.inflate_priority:
             self.profile.add_inflated(new_local_files, new_local_dirs)
-        self.remote_dir.add_paths(new_file_paths, new_dir_paths)
+        self.remote_dir.add_paths(
+            new_file_paths, new_dir_paths, lastsync=fm.sync_time)
         self.profile.add_paths(new_file_paths, new_dir_paths)
 
         # Handle syncing conflicts.
@@ -127,7 +129,8 @@ class SyncCommand(Command):
         # handling conflicts to both databases.
         if self.profile.inflate_priority:
             self.profile.add_inflated(updated_paths.local, [])
-        self.remote_dir.add_paths(updated_paths.all, [])
+        self.remote_dir.add_paths(
+            updated_paths.all, [], lastsync=fm.sync_time)
         self.profile.add_paths(updated_paths.all, [])
 
         # Update the remote directory with modified local files.
@@ -155,7 +158,9 @@ class SyncCommand(Command):
         # Copy the selected files as well as any excluded files still in the
         # remote directory to the local directory and replace all others
         # with symlinks.
-        fm.update_local(selected_dirs | selected_files | remote_excluded_files)
+        fm.update_local(
+            selected_dirs | selected_files | remote_excluded_files,
+            updated_paths.remote)
 
         # Remove excluded files that are still in the remote directory.
         fm.rm_excluded_files(remote_excluded_files)
@@ -165,8 +170,9 @@ class SyncCommand(Command):
             fm.cleanup_trash()
 
         # The sync is now complete. Update the time of the last sync in the
-        # info file.
+        # info file. Files that have been modified while it was running are
+        # synced the next time.
         self.remote_dir.write()
         self.profile.refresh()
-        self.profile.last_sync = time.time()
+        self.profile.last_sync = fm.sync_time
         self.profile.write()
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index dc0d828..c383397 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -20,16 +20,19 @@ along with zielen.  If not, see <http://www.gnu.org/licenses/>.
 import os
 import copy
 import time
+import errno
 import shutil
 import filecmp
 from typing import Iterable, Tuple, Set, NamedTuple
 
-from zielen.exceptions import RemoteError, AvailableSpaceError
+from zielen.exceptions import (
+    RemoteError, AvailableSpaceError, FileTransferError)
 from zielen.profile import Profile, ProfileExcludeFile
 from zielen.userdata import LocalSyncDir, RemoteSyncDir, SyncDir
 from zielen.utils import get_path_ancestry, timestamp_path
 from zielen.fstools import (
-    copy_file, is_unsafe_symlink, symlink_tree, transfer_tree, update_mtime)
+    PARTIAL_PREFIX, copy_file, is_unsafe_symlink, symlink_tree, transfer_tree,
+    update_mtime)
 
 DeletedPaths = NamedTuple(
     "DeletedPaths",
@@ -174,6 +177,10 @@ class FilesManager:
         local_dir: A LocalSyncDir object for the local directory.
         remote_dir: A RemoteSyncDir object for the remote directory.
         profile: A Profile object for the current profile.
+        sync_time: The time of the current sync. Files that are modified after
+            this are considered to be modified in the next sync.
+        _old_paths: A dict mapping the relative paths of local files that have
+            been renamed to what they were when the directory was scanned.
     """
     def __init__(
             self, local_dir: LocalSyncDir, remote_dir: RemoteSyncDir,
@@ -181,6 +188,17 @@ class FilesManager:
         self.local_dir = local_dir
         self.remote_dir = remote_dir
         self.profile = profile
+        self.sync_time = None
+        self._old_paths = {}
+        self.start()
+
+    def start(self) -> None:
+        """Set the time of the sync to the current time.
+
+        It's rounded to what can be stored in the info file so that it's not
+        earlier than the times stored in the remote database.
+        """
+        self.sync_time = round(time.time(), 6)
 
     def prioritize_files(
             self, space_limit: int, exclude=None) -> SelectedPaths:
@@ -358,15 +376,48 @@ class FilesManager:
 
         return SelectedPaths(remaining_space, selected_dirs)
 
-    def update_local(self, update_paths: Iterable[str]) -> None:
+    def _is_changed(self, path: str) -> bool:
+        """Check if a local file has changed since the sync started.
+
+        Args:
+            path: The relative path of the file.
+
+        Returns:
+            True if the file must not be replaced. A symlink to the remote file
+            can always be replaced.
+        """
+        try:
+            link_dest = os.readlink(os.path.join(self.local_dir.path, path))
+        except OSError:
+            pass
+        else:
+            if link_dest == os.path.join(self.remote_dir.safe_path, path):
+                return False
+        return self.local_dir.has_changed(
+            path, old_path=self._old_paths.get(path))
+
+    def update_local(
+            self, update_paths: Iterable[str], mod_paths=None) -> None:
         """Update the local directory with remote files.
 
+        Local files that have changed since the sync started are left as they
+        are. They are synced the next time.
+
         Args:
             update_paths: The paths of files and directories to copy from the
                 remote directory to the local one. All other files in the local
                 directory are replaced with symlinks.
+            mod_paths: The paths of remote files that have been modified since
+                the last sync.
         """
         update_paths = set(update_paths)
+        mod_paths = set() if mod_paths is None else set(mod_paths)
+        changed_paths = set()
+
+        def skip(path: str) -> bool:
+            if self._is_changed(path):
+                changed_paths.add(path)
+            return path in changed_paths
 
         stale_paths = self.compute_stale(update_paths)
 
@@ -377,17 +428,21 @@ class FilesManager:
             symlink_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
                 stale_paths & self.profile.get_paths(directory=False).keys(),
-                [], overwrite=True)
+                [], overwrite=True, skip=skip)
 
             nonlocal_paths = symlink_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
                 self.profile.get_paths(directory=False),
                 self.profile.get_paths(directory=True))
 
+            for path in mod_paths - self.profile.get_paths(
+                    directory=True).keys():
+                skip(path)
+
             transfer_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
                 files=update_paths,
-                message="Updating local files...")
+                message="Updating local files...", skip=skip)
         except FileNotFoundError:
             if not os.path.isdir(self.remote_dir.util_dir):
                 raise RemoteError("the remote directory could not be found")
@@ -396,11 +451,17 @@ class FilesManager:
 
         # Update the database with information about which paths are being
         # kept in the local directory.
-        self.profile.update_paths(nonlocal_paths | stale_paths, local=False)
+        self.profile.update_paths(
+            (nonlocal_paths | stale_paths) - changed_paths, local=False)
         for update_path in update_paths:
             self.profile.update_paths(
                 self.profile.get_paths(root=update_path).keys(), local=True)
 
+        # The modified remote files that were not copied must still be
+        # considered modified in the next sync.
+        self.remote_dir.update_paths(
+            mod_paths & changed_paths, lastsync=time.time())
+
     def update_remote(self, update_paths: Iterable[str]) -> None:
         """Update the remote directory with local files.
 
@@ -424,7 +485,8 @@ class FilesManager:
                 self.local_dir.path, self.remote_dir.safe_path,
                 files=set(update_paths) | missing_dirs,
                 message="Updating remote files...",
-                temp_suffix="-" + self.profile.id, recursive=False)
+                temp_suffix="-" + self.profile.id, recursive=False,
+                skip=self._check_remote)
         except FileNotFoundError:
             if not os.path.isdir(self.remote_dir.util_dir):
                 raise RemoteError("the remote directory could not be found")
@@ -432,7 +494,24 @@ class FilesManager:
                 raise
 
         # Update the time of the last sync for files that have been modified.
-        self.remote_dir.update_paths(update_paths, lastsync=time.time())
+        self.remote_dir.update_paths(update_paths, lastsync=self.sync_time)
+
+    def _check_remote(self, path: str) -> bool:
+        """Check that a remote file hasn't changed since the sync started.
+
+        Args:
+            path: The relative path of the file.
+
+        Returns:
+            False, meaning that the file can be replaced.
+
+        Raises:
+            FileTransferError: The file has changed.
+        """
+        if self.remote_dir.has_changed(path):
+            raise FileTransferError(
+                "remote file was modified during the sync: {}".format(path))
+        return False
 
     def _setup_dir(self, unsafe_symlinks: Set[str]) -> None:
         """Add file paths to both databases and overwrite with symlinks.
@@ -446,7 +525,8 @@ class FilesManager:
             files=False, symlinks=False).keys()
 
         self.profile.add_paths(remote_files, remote_dirs, local=False)
-        self.remote_dir.add_paths(remote_files, remote_dirs)
+        self.remote_dir.add_paths(
+            remote_files, remote_dirs, lastsync=self.sync_time)
 
         # Overwrite local files with symlinks to the corresponding files in the
         # remote dir.
@@ -454,7 +534,7 @@ class FilesManager:
             self.remote_dir.safe_path, self.local_dir.path,
             self.profile.get_paths(directory=False),
             self.profile.get_paths(directory=True),
-            overwrite=True)
+            overwrite=True, skip=self._is_changed)
 
     def setup_from_local(self) -> None:
         """Copy initial local files to remote directory and symlink back."""
@@ -688,10 +768,11 @@ class FilesManager:
             all_retained_paths |= self.profile.get_paths(root=path).keys()
 
         # Don't include excluded files or files not in the local database
-        # (e.g. unsafe symlinks).
-        all_paths = (self.local_dir.scan_paths(
-            exclude=self.profile.all_exclude_matches(self.local_dir.path),
-            memoize=False).keys() & self.profile.get_paths().keys())
+        # (e.g. unsafe symlinks). The local directory must be scanned again
+        # without forgetting what was in it when the sync started.
+        all_paths = (SyncDir(self.local_dir.path).scan_paths(
+            exclude=self.profile.all_exclude_matches(self.local_dir.path)
+            ).keys() & self.profile.get_paths().keys())
 
         # Exclude the paths that are parents of paths in the input.
         stale_paths = set()
@@ -863,6 +944,8 @@ class FilesManager:
             os.rename(
                 os.path.join(parent_dir, old_path),
                 os.path.join(parent_dir, new_path))
+            if parent_dir == self.local_dir.path:
+                self._old_paths[new_path] = old_path
 
         old_paths = [old_path for old_path, new_path in path_pairs]
 
@@ -883,7 +966,8 @@ class FilesManager:
         if parent_dir != self.local_dir.path:
             self.remote_dir.rm_paths(old_paths)
         self.profile.add_paths(new_file_paths, new_dir_paths)
-        self.remote_dir.add_paths(new_file_paths, new_dir_paths)
+        self.remote_dir.add_paths(
+            new_file_paths, new_dir_paths, lastsync=self.sync_time)
 
     def rename_local_files(
             self, path_pairs: Iterable[Tuple[str, str]]) -> None:
@@ -911,19 +995,39 @@ class FilesManager:
             else:
                 raise
 
-    def _rm_files(self, paths: Iterable[str], parent_dir: str) -> None:
+    def _rm_unchanged(self, path: str, sync_dir: SyncDir) -> None:
+        """Delete a file or directory tree.
+
+        Files that have changed since the sync started and the directories that
+        contain them are not deleted.
+
+        Args:
+            path: The relative path of the file or directory to remove.
+            sync_dir: The local or remote directory.
+        """
+        full_path = os.path.join(sync_dir.path, path)
+        if os.path.isdir(full_path) and not os.path.islink(full_path):
+            for name in os.listdir(full_path):
+                self._rm_unchanged(os.path.join(path, name), sync_dir)
+            try:
+                os.rmdir(full_path)
+            except OSError as e:
+                if e.errno != errno.ENOTEMPTY:
+                    raise
+        elif (os.path.basename(path).startswith(PARTIAL_PREFIX)
+                or not sync_dir.has_changed(path)):
+            os.remove(full_path)
+
+    def _rm_files(self, paths: Iterable[str], sync_dir: SyncDir) -> None:
         """Delete files and remove them from the local database.
 
         Args:
             paths: The relative paths of files to remove.
-            parent_dir: The directory in which the paths to be deleted reside.
+            sync_dir: The local or remote directory.
         """
         for path in paths:
-            full_path = os.path.join(parent_dir, path)
             try:
-                os.remove(full_path)
-            except IsADirectoryError:
-                shutil.rmtree(full_path)
+                self._rm_unchanged(path, sync_dir)
             except (FileNotFoundError, NotADirectoryError):
                 # This could happen if a previous sync was interrupted or if
                 # the parent directory has been replaced with a file.
@@ -943,7 +1047,7 @@ class FilesManager:
         paths = set(paths)
         excluded_paths = paths & self.profile.all_exclude_matches(
             self.local_dir.path)
-        self._rm_files(paths - excluded_paths, self.local_dir.path)
+        self._rm_files(paths - excluded_paths, self.local_dir)
         self.profile.rm_paths(excluded_paths)
 
         # Another client could have already replaced these paths.
@@ -955,7 +1059,7 @@ class FilesManager:
         Args:
             paths: The relative paths of files to remove.
         """
-        self._rm_files(paths, self.remote_dir.path)
+        self._rm_files(paths, self.remote_dir)
         self.remote_dir.rm_paths(paths)
 
     def rm_excluded_files(self, excluded_paths: Iterable[str]) -> None:
@@ -1015,6 +1119,8 @@ class FilesManager:
             abs_new_path = os.path.join(
                 self.remote_dir.trash_dir, new_filename)
             try:
+                if self.remote_dir.has_changed(old_path):
+                    continue
                 os.rename(abs_old_path, abs_new_path)
                 update_mtime(abs_new_path)
             except (FileNotFoundError, NotADirectoryError):
diff --git a/zielen/fstools.py b/zielen/fstools.py
index 822baf4..9ddc233 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -22,7 +22,8 @@ import sys
 import time
 import shutil
 import tempfile
-from typing import Iterable, Optional, Set
+import functools
+from typing import Callable, Iterable, Optional, Set
 
 from zielen.utils import shell_cmd, ProgressBar
 from zielen.exceptions import FileTransferError
@@ -33,7 +34,9 @@ PROGRESS_BAR_LENGTH = 0.35
 PARTIAL_PREFIX = ".zielen-partial"
 
 
-def copy_file(source_path: str, dest_path: str, temp_suffix="") -> None:
+def copy_file(
+        source_path: str, dest_path: str, temp_suffix="",
+        skip: Optional[Callable[[], bool]] = None) -> None:
     """Copy a file or symlink, replacing the destination atomically.
 
     The destination is never followed if it is a symlink, and it holds either
@@ -43,6 +46,8 @@ def copy_file(source_path: str, dest_path: str, temp_suffix="") -> None:
         source_path: The path of the file to copy.
         dest_path: The path to copy the file to.
         temp_suffix: A suffix for the name of the temporary file.
+        skip: This is called right before the destination is replaced. If it
+            returns True, the destination is left as it is.
     """
     temp_path = os.path.join(
         os.path.dirname(dest_path), PARTIAL_PREFIX + temp_suffix)
@@ -52,8 +57,17 @@ def copy_file(source_path: str, dest_path: str, temp_suffix="") -> None:
             os.remove(temp_path)
         except FileNotFoundError:
             pass
+        source_stat = os.lstat(source_path)
         shutil.copy2(source_path, temp_path, follow_symlinks=False)
-        os.replace(temp_path, dest_path)
+        # If the source has changed in the meantime, the copy must not look as
+        # if it were up to date.
+        os.utime(
+            temp_path, ns=(source_stat.st_atime_ns, source_stat.st_mtime_ns),
+            follow_symlinks=False)
+        if skip is not None and skip():
+            os.remove(temp_path)
+        else:
+            os.replace(temp_path, dest_path)
     except BaseException:
         try:
             os.remove(temp_path)
@@ -65,7 +79,8 @@ def copy_file(source_path: str, dest_path: str, temp_suffix="") -> None:
 def transfer_tree(
         source: str, dest: str, files=None, exclude=None,
         message="", rm_source=False, temp_suffix="",
-        recursive=True) -> None:
+        recursive=True, skip: Optional[Callable[[str], bool]] = None
+        ) -> None:
     """Recursively copy files, preserving file metadata.
 
     Existing files in the destination are overwritten. A progress bar is
@@ -86,6 +101,9 @@ def transfer_tree(
             unique if other processes could transfer files to the destination
             at the same time.
         recursive: Also copy everything under the directories in 'files'.
+        skip: This is called with the relative path of each file right before
+            it is put in the destination. If it returns True, the file in the
+            destination is left as it is.
 
     Raises:
         FileNotFoundError: The source or destination files couldn't be found.
@@ -133,14 +151,17 @@ def transfer_tree(
         transferred_size = 0
         transfer_bar = ProgressBar(PROGRESS_BAR_LENGTH, message=message)
 
-    for source_path, dest_path in zip(source_paths, dest_paths):
+    for rel_path, source_path, dest_path in zip(
+            rel_paths, source_paths, dest_paths):
         os.makedirs(os.path.dirname(dest_path), exist_ok=True)
         try:
             if (os.path.isdir(source_path)
                     and not os.path.islink(source_path)):
                 os.makedirs(dest_path, exist_ok=True)
             else:
-                copy_file(source_path, dest_path, temp_suffix)
+                copy_file(
+                    source_path, dest_path, temp_suffix,
+                    skip and functools.partial(skip, rel_path))
         except PermissionError:
             raise FileTransferError("permission denied: {0}".format(
                 os.path.relpath(source_path, source)))
@@ -164,7 +185,8 @@ def transfer_tree(
 
 def symlink_tree(
         src_dir: str, dest_dir: str, src_files: Iterable[str],
-        src_dirs: Iterable[str], overwrite=False) -> Set[str]:
+        src_dirs: Iterable[str], overwrite=False,
+        skip: Optional[Callable[[str], bool]] = None) -> Set[str]:
     """Recursively copy a directory as a tree of symlinks.
 
     This function does not look in the source directory. Instead, the caller
@@ -182,6 +204,9 @@ def symlink_tree(
             destination.
         overwrite: Overwrite existing files in the destination directory
             with symlinks.
+        skip: This is called with the relative path of each file right before
+            it is overwritten. If it returns True, the file in the destination
+            is left as it is.
 
     Returns:
         A set of relative paths of files and directories that have been created
@@ -220,6 +245,9 @@ def symlink_tree(
                     except FileNotFoundError:
                         pass
                     os.symlink(full_src_path, temp_path)
+                    if skip is not None and skip(src_path):
+                        os.remove(temp_path)
+                        continue
                     os.replace(temp_path, full_dest_path)
                     new_paths.add(src_path)
             else:
diff --git a/zielen/userdata.py b/zielen/userdata.py
index 89adfce..6121d76 100644
--- a/zielen/userdata.py
+++ b/zielen/userdata.py
@@ -20,6 +20,7 @@ along with zielen.  If not, see <http://www.gnu.org/licenses/>.
 import os
 import shutil
 import sqlite3
+import stat
 import time
 from typing import (
     Tuple, Iterable, List, Dict, NamedTuple, Generator, Union, Set)
@@ -42,7 +43,7 @@ class SyncDir:
 
     def __init__(self, path: str) -> None:
         self.path = path.rstrip(os.sep)
-        self._sub_entries = []
+        self._sub_entries = None
 
     def scan_paths(
             self, rel=True, files=True, symlinks=True, dirs=True, exclude=None,
@@ -72,7 +73,7 @@ class SyncDir:
         if lookup:
             def lookup_stat(path: str) -> os.stat_result:
                 full_path = os.path.join(self.path, path)
-                for entry, rel_path in self._sub_entries:
+                for entry in self._sub_entries.values():
                     if entry.path == full_path:
                         return entry.stat()
                 return os.stat(full_path, follow_symlinks=False)
@@ -81,14 +82,14 @@ class SyncDir:
         else:
             output = {}
 
-        if not memoize or not self._sub_entries:
-            self._sub_entries = []
+        if not memoize or self._sub_entries is None:
+            self._sub_entries = {}
             for entry in scan_tree(self.path):
                 # Computing the relative path is expensive to do each time.
                 rel_path = os.path.relpath(entry.path, self.path)
-                self._sub_entries.append((entry, rel_path))
+                self._sub_entries[rel_path] = entry
 
-        for entry, rel_path in self._sub_entries:
+        for rel_path, entry in self._sub_entries.items():
             if entry.is_file(follow_symlinks=False) and not files:
                 continue
             elif entry.is_dir(follow_symlinks=False) and not dirs:
@@ -105,6 +106,32 @@ class SyncDir:
 
         return output
 
+    def has_changed(self, path: str, old_path=None) -> bool:
+        """Check if a file has changed since the directory was scanned.
+
+        Args:
+            path: The relative path of the file.
+            old_path: The relative path that the file had back then. If None,
+                it hasn't been renamed.
+
+        Returns:
+            True if there is a file which wasn't there or has been modified
+            since. A directory is only considered changed if it's new.
+        """
+        try:
+            current = os.lstat(os.path.join(self.path, path))
+        except (FileNotFoundError, NotADirectoryError):
+            return False
+        entry = self._sub_entries.get(path if old_path is None else old_path)
+        if entry is None:
+            return True
+        entry_stat = entry.stat(follow_symlinks=False)
+        if stat.S_IFMT(current.st_mode) != stat.S_IFMT(entry_stat.st_mode):
+            return True
+        return not stat.S_ISDIR(current.st_mode) and (
+            current.st_mtime_ns != entry_stat.st_mtime_ns
+            or current.st_size != entry_stat.st_size)
+
     def disk_usage(self, memoize=True) -> int:
         """Get the total disk usage of the directory and all of its contents.
 
@@ -117,8 +144,8 @@ class SyncDir:
         paths = self.scan_paths(memoize=memoize)
 
         total_size = 0
-        for path, stat in paths.items():
-            total_size += stat.st_blocks * 512
+        for path, path_stat in paths.items():
+            total_size += path_stat.st_blocks * 512
         return total_size
 
     def space_avail(self) -> int:
@@ -312,18 +339,20 @@ class RemoteDBFile(SyncDBFile):
                 );
                 """)
 
-    def add_paths(self, files: Iterable[str], dirs: Iterable[str]) -> None:
+    def add_paths(
+            self, files: Iterable[str], dirs: Iterable[str],
+            lastsync=None) -> None:
         """Add new file paths to the database if not already there.
 
         A file path is automatically marked as a directory when sub-paths are
         added to the database. The purpose of the separate parameter for
         directory paths is to distinguish empty directories from files.
 
-        Set the 'lastsync' value for these files to the current time.
-
         Args:
             files: The paths of regular files to add to the database.
             dirs: The paths of directories to add to the database.
+            lastsync: The time that the paths were last updated by a sync. Use
+                None for the current time.
         """
         # Sort paths by depth. A file can't be added to the database until its
         # parent directory has been added.
@@ -331,7 +360,7 @@ class RemoteDBFile(SyncDBFile):
         dirs = set(dirs)
         paths = list(files | dirs)
         paths.sort(key=lambda x: x.count(os.sep))
-        timestamp = time.time()
+        timestamp = time.time() if lastsync is None else lastsync
 
         while True:
             parents = set()
-- 
2.43.0


From 5a7e798a46a25eab3d6f4f4027c835ac593ec995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 36/59] fix: don't crash or ignore exclude patterns because of
 symlinks or brackets

A dangling symlink or a symlink to a directory that matches a pattern made every
sync crash, and patterns didn't match anything in a local directory with
brackets in its path.
---
 zielen/profile.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 4a94269..cf6164c 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -371,22 +371,29 @@ class ProfileExcludeFile:
             line = line.strip()
             if not line:
                 continue
+            escaped_path = glob.escape(start_path)
             if line.startswith("/"):
-                glob_str = os.path.join(start_path, line.lstrip("/"))
+                glob_str = os.path.join(escaped_path, line.lstrip("/"))
             else:
                 # Glob patterns without a leading slash search the whole tree.
-                glob_str = os.path.join(start_path, "**", line)
+                glob_str = os.path.join(escaped_path, "**", line)
 
             for match_path in glob.glob(glob_str, recursive=True):
                 rel_match_path = os.path.relpath(match_path, start_path)
+                # Files that can also be accessed through a symlink to a
+                # directory aren't files in the tree.
+                if any(os.path.islink(os.path.join(start_path, parent))
+                        for parent in get_path_ancestry([rel_match_path])
+                        if parent != rel_match_path):
+                    continue
                 self._matches[start_path].add(rel_match_path)
                 self._all_matches[start_path].add(rel_match_path)
-                try:
-                    for entry in scan_tree(match_path):
+                full_match_path = os.path.join(start_path, rel_match_path)
+                if (os.path.isdir(full_match_path)
+                        and not os.path.islink(full_match_path)):
+                    for entry in scan_tree(full_match_path):
                         self._all_matches[start_path].add(
                             os.path.relpath(entry.path, start_path))
-                except NotADirectoryError:
-                    pass
 
     def matches(self, start_path: str) -> Set[str]:
         """Get the paths of files that match globbing patterns.
-- 
2.43.0


From ab2354596b38ac49e8520e0a556919e276572965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 37/59] fix: forget excluded directories that have been removed
 from the remote

They were made again in the remote directory and removed from it in turn by
each client. Symlinks to files that are not there anymore were kept.
---
 zielen/filelogic.py | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index c383397..dbe0b6a 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -376,6 +376,18 @@ class FilesManager:
 
         return SelectedPaths(remaining_space, selected_dirs)
 
+    def _is_placeholder(self, path: str) -> bool:
+        """Check if a local file is a symlink to the remote file.
+
+        Args:
+            path: The relative path of the file.
+        """
+        try:
+            link_dest = os.readlink(os.path.join(self.local_dir.path, path))
+        except OSError:
+            return False
+        return link_dest == os.path.join(self.remote_dir.safe_path, path)
+
     def _is_changed(self, path: str) -> bool:
         """Check if a local file has changed since the sync started.
 
@@ -386,13 +398,8 @@ class FilesManager:
             True if the file must not be replaced. A symlink to the remote file
             can always be replaced.
         """
-        try:
-            link_dest = os.readlink(os.path.join(self.local_dir.path, path))
-        except OSError:
-            pass
-        else:
-            if link_dest == os.path.join(self.remote_dir.safe_path, path):
-                return False
+        if self._is_placeholder(path):
+            return False
         return self.local_dir.has_changed(
             path, old_path=self._old_paths.get(path))
 
@@ -475,7 +482,8 @@ class FilesManager:
         # there are no files in them to update.
         missing_dirs = (
             self.profile.get_paths(directory=True).keys()
-            - self.remote_dir.scan_paths(files=False, symlinks=False).keys())
+            - self.remote_dir.scan_paths(files=False, symlinks=False).keys()
+            - self.profile.all_exclude_matches(self.local_dir.path))
 
         # Copy modified local files to the remote directory. Directories
         # aren't copied recursively because they could contain files that are
@@ -900,8 +908,10 @@ class FilesManager:
         # Compute files that must be kept along with their parents.
         local_kept_paths = set(get_path_ancestry(
             mod_paths.local
-            | (self.local_dir.scan_paths().keys() - local_paths)
-            | {os.path.dirname(path) for path in excluded_paths}))
+            | (self.local_dir.scan_paths().keys()
+               - local_paths - excluded_paths)
+            | ({os.path.dirname(path) for path in excluded_paths}
+               - excluded_paths)))
         remote_kept_paths = set(get_path_ancestry(
             mod_paths.remote
             | (self.remote_dir.scan_paths().keys() - remote_paths)))
@@ -1039,7 +1049,8 @@ class FilesManager:
         """Delete local files and remove them from both databases.
 
         If the files are excluded, don't delete them, but still remove them
-        from both databases.
+        from both databases. Symlinks to remote files are always deleted, as
+        there is nothing to keep.
 
         Args:
             paths: The relative paths of files to remove.
@@ -1047,7 +1058,11 @@ class FilesManager:
         paths = set(paths)
         excluded_paths = paths & self.profile.all_exclude_matches(
             self.local_dir.path)
-        self._rm_files(paths - excluded_paths, self.local_dir)
+        broken_paths = {
+            sub_path for path in excluded_paths
+            for sub_path in self.profile.get_paths(root=path)
+            if self._is_placeholder(sub_path)}
+        self._rm_files((paths - excluded_paths) | broken_paths, self.local_dir)
         self.profile.rm_paths(excluded_paths)
 
         # Another client could have already replaced these paths.
-- 
2.43.0


From de47471c8d4c04de542161e2b68dc6dd4f43c1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 38/59] fix: don't delete files from the trash at once if a
 sync is interrupted

Files were moved to the trash before their mtime was updated, so a sync that
was interrupted in between left them in the trash with their old mtime, and
the next sync considered them to have been there for longer than the cleanup
period. It could also leave temporary files behind in trashed directories.
---
 zielen/filelogic.py | 39 ++++++++++++++++++++++++++++++++-------
 zielen/fstools.py   |  5 +----
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index dbe0b6a..8cc4869 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -1110,10 +1110,24 @@ class FilesManager:
             else:
                 raise
 
+        # Files are moved here first so that they aren't given the name that
+        # they'll have in the trash until their mtime has been updated. There
+        # could be files in here already if a previous sync was interrupted.
+        partial_dir = os.path.join(self.remote_dir.trash_dir, PARTIAL_PREFIX)
+        try:
+            os.mkdir(partial_dir)
+        except FileExistsError:
+            pass
+        partial_paths = [entry.path for entry in os.scandir(partial_dir)]
+
         trash_filenames = {
             entry.name for entry in os.scandir(self.remote_dir.trash_dir)}
         old_paths = list(paths)
-        old_filenames = [os.path.basename(path) for path in old_paths]
+        abs_old_paths = [
+            os.path.join(self.remote_dir.safe_path, path)
+            for path in old_paths]
+        old_filenames = [
+            os.path.basename(path) for path in partial_paths + old_paths]
 
         # Come up with a new filename if the current one collides with the
         # name of an existing file in the trash.
@@ -1129,20 +1143,31 @@ class FilesManager:
             new_filenames.append(new_filename)
             trash_filenames.add(new_filename)
 
-        for old_path, new_filename in zip(old_paths, new_filenames):
-            abs_old_path = os.path.join(self.remote_dir.safe_path, old_path)
+        for old_path, abs_old_path, new_filename in zip(
+                [None] * len(partial_paths) + old_paths,
+                partial_paths + abs_old_paths, new_filenames):
+            partial_path = os.path.join(
+                partial_dir, os.path.basename(abs_old_path))
             abs_new_path = os.path.join(
                 self.remote_dir.trash_dir, new_filename)
             try:
-                if self.remote_dir.has_changed(old_path):
-                    continue
-                os.rename(abs_old_path, abs_new_path)
-                update_mtime(abs_new_path)
+                if old_path is not None:
+                    if self.remote_dir.has_changed(old_path):
+                        continue
+                    os.rename(abs_old_path, partial_path)
+                update_mtime(partial_path)
+                os.rename(partial_path, abs_new_path)
             except (FileNotFoundError, NotADirectoryError):
                 # This could happen if a previous sync was interrupted or if
                 # the parent directory has been replaced with a file.
                 pass
 
+        try:
+            os.rmdir(partial_dir)
+        except FileNotFoundError:
+            # The remote directory could have been unmounted.
+            pass
+
         self.profile.rm_paths(old_paths)
         self.remote_dir.rm_paths(old_paths)
 
diff --git a/zielen/fstools.py b/zielen/fstools.py
index 9ddc233..dc73d32 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -21,7 +21,6 @@ import os
 import sys
 import time
 import shutil
-import tempfile
 import functools
 from typing import Callable, Iterable, Optional, Set
 
@@ -310,9 +309,7 @@ def update_mtime(path) -> None:
     Args:
         path: The path of the file or directory.
     """
-    if os.path.isdir(path) and not os.path.islink(path):
-        tempfile.NamedTemporaryFile(dir=path).close()
-    elif os.path.lexists(path):
+    if os.path.lexists(path):
         current = time.time()
         os.utime(path, times=(current, current), follow_symlinks=False)
 
-- 
2.43.0


From 20946ab5fb1cd5001a76cc7ff156f966a9a5f79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 39/59] fix: don't fail if the new name of a file is too long

A conflict of a file with a long name, or moving it to the trash if there was
already one of that name, made every sync fail because the name with the
suffix was too long for the file system.
---
 zielen/filelogic.py | 13 ++++++-------
 zielen/utils.py     | 27 +++++++++++++++++++++++++--
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 8cc4869..84d5958 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -29,7 +29,7 @@ from zielen.exceptions import (
     RemoteError, AvailableSpaceError, FileTransferError)
 from zielen.profile import Profile, ProfileExcludeFile
 from zielen.userdata import LocalSyncDir, RemoteSyncDir, SyncDir
-from zielen.utils import get_path_ancestry, timestamp_path
+from zielen.utils import add_suffix, get_path_ancestry, timestamp_path
 from zielen.fstools import (
     PARTIAL_PREFIX, copy_file, is_unsafe_symlink, symlink_tree, transfer_tree,
     update_mtime)
@@ -674,14 +674,14 @@ class FilesManager:
         existing_paths = (
             self.local_dir.scan_paths().keys()
             | self.remote_dir.scan_paths().keys())
-        new_path = timestamp_path(path, keyword="conflict")
-        base, extension = os.path.splitext(new_path)
+        conflict_path = timestamp_path(path, keyword="conflict")
+        new_path = conflict_path
 
         # Don't overwrite the file of an earlier conflict.
         counter = 0
         while new_path in existing_paths:
             counter += 1
-            new_path = "{0}({1}){2}".format(base, counter, extension)
+            new_path = add_suffix(conflict_path, "({})".format(counter))
 
         return new_path
 
@@ -1135,11 +1135,10 @@ class FilesManager:
         for old_filename in old_filenames:
             new_filename = old_filename
             filename_counter = 0
-            name, extension = os.path.splitext(new_filename)
             while new_filename in trash_filenames:
                 filename_counter += 1
-                new_filename = "{0}({1}){2}".format(
-                    name, filename_counter, extension)
+                new_filename = add_suffix(
+                    old_filename, "({})".format(filename_counter))
             new_filenames.append(new_filename)
             trash_filenames.add(new_filename)
 
diff --git a/zielen/utils.py b/zielen/utils.py
index c494552..5049664 100644
--- a/zielen/utils.py
+++ b/zielen/utils.py
@@ -63,9 +63,32 @@ def timestamp_path(path: str, keyword="") -> str:
         The modified file path.
     """
     keyword += "-" if keyword else keyword
-    name, extension = os.path.splitext(path)
     timestamp = datetime.datetime.now().strftime("%Y%m%d-%H%M%S")
-    return "{0}_{1}{2}{3}".format(name, keyword, timestamp, extension)
+    return add_suffix(path, "_{0}{1}".format(keyword, timestamp))
+
+
+def add_suffix(path: str, suffix: str, max_length=255) -> str:
+    """Add a suffix to the name of a file, before its extension.
+
+    Args:
+        path: The file path on which to base the new file path.
+        suffix: The string to add.
+        max_length: The maximum length of a file name in bytes. The name is
+            truncated so that the new one doesn't exceed it.
+
+    Returns:
+        The modified file path.
+    """
+    parent, filename = os.path.split(path)
+    name, extension = os.path.splitext(filename)
+    suffix += extension
+    if len(os.fsencode(suffix)) >= max_length:
+        # The extension alone is too long.
+        name, suffix = filename, suffix[:len(suffix) - len(extension)]
+    space = max_length - len(os.fsencode(suffix))
+    if len(os.fsencode(name)) > space:
+        name = os.fsencode(name)[:space].decode(errors="ignore")
+    return os.path.join(parent, name + suffix)
 
 
 def get_path_ancestry(paths: Iterable[str]) -> List[str]:
-- 
2.43.0


From ccb3b8d4d53274fe8065e1a4013e27a6fc0c6259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 40/59] fix: sync files whose names aren't valid unicode

File names can be any sequence of bytes, but a single one that couldn't be
decoded made every sync and 'zielen init' fail. The same goes for exclude
pattern files.
---
 zielen/containerbase.py |  9 ++++++---
 zielen/profile.py       | 15 ++++++++-------
 zielen/userdata.py      |  9 +++++----
 3 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 04f708f..31b8457 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -168,6 +168,9 @@ class SyncDBFile:
         sqlite3.register_adapter(bool, int)
         sqlite3.register_converter("BOOL", lambda x: bool(int(x)))
 
+        # File names don't have to be valid unicode.
+        sqlite3.register_converter("TEXT", os.fsdecode)
+
     @contextlib.contextmanager
     def _transact(self) -> Generator[None, None, None]:
         """Check if database file exists and commit the transaction on exit.
@@ -210,8 +213,8 @@ class SyncDBFile:
         self._cur.execute("""\
             SELECT salt
             FROM collisions
-            WHERE path = :path;
-            """, {"path": path})
+            WHERE path = CAST(:path AS TEXT);
+            """, {"path": os.fsencode(path)})
 
         salt = self._cur.fetchone()
         hash_string = path
@@ -219,7 +222,7 @@ class SyncDBFile:
             hash_string += salt[0]
 
         path_hash = hashlib.sha256()
-        path_hash.update(hash_string.encode())
+        path_hash.update(os.fsencode(hash_string))
         return int.from_bytes(
             path_hash.digest()[:8], byteorder="big", signed=True)
 
diff --git a/zielen/profile.py b/zielen/profile.py
index cf6164c..1edf96f 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -328,7 +328,7 @@ class ProfileExcludeFile:
         Args:
             infile: If supplied, copy lines from this file into the new one.
         """
-        with open(self.path, "w") as outfile:
+        with open(self.path, "w", errors="surrogateescape") as outfile:
             outfile.write(textwrap.dedent("""\
                 # This file contains patterns representing files and directories to exclude
                 # from syncing.
@@ -339,7 +339,7 @@ class ProfileExcludeFile:
                 for line in sys.stdin.read():
                     outfile.write(line)
             elif infile:
-                with open(infile) as infile:
+                with open(infile, errors="surrogateescape") as infile:
                     for line in infile:
                         outfile.write(line)
 
@@ -349,7 +349,7 @@ class ProfileExcludeFile:
         Yields:
             Each line in the file that's not a comment.
         """
-        with open(self.path) as file:
+        with open(self.path, errors="surrogateescape") as file:
             for line in file:
                 if not self.comment_regex.search(line):
                     yield line
@@ -617,7 +617,7 @@ class ProfileDBFile(SyncDBFile):
                 rm_vals.append({
                     "path_id": path_id})
                 insert_nodes_vals.append({
-                    "path": path,
+                    "path": os.fsencode(path),
                     "path_id": path_id,
                     "directory": bool(path in dirs),
                     "priority": priority,
@@ -631,10 +631,10 @@ class ProfileDBFile(SyncDBFile):
             # the path IDs.
             self._cur.executemany("""\
                 INSERT INTO collisions (path, salt)
-                SELECT :path, gen_salt()
+                SELECT CAST(:path AS TEXT), gen_salt()
                 FROM nodes
                 WHERE id = :path_id
-                AND path != :path;
+                AND path != CAST(:path AS TEXT);
                 """, insert_nodes_vals)
             if self._cur.rowcount <= 0:
                 break
@@ -642,7 +642,8 @@ class ProfileDBFile(SyncDBFile):
         # Insert new values into both tables.
         self._cur.executemany("""\
             INSERT INTO nodes (id, path, directory, priority, local)
-            VALUES (:path_id, :path, :directory, :priority, :local);
+            VALUES (
+                :path_id, CAST(:path AS TEXT), :directory, :priority, :local);
             """, insert_nodes_vals)
         self._cur.executemany("""\
             INSERT INTO closure (ancestor, descendant, depth)
diff --git a/zielen/userdata.py b/zielen/userdata.py
index 6121d76..27eb3f6 100644
--- a/zielen/userdata.py
+++ b/zielen/userdata.py
@@ -379,7 +379,7 @@ class RemoteDBFile(SyncDBFile):
                 rm_vals.append({
                     "path_id": path_id})
                 insert_nodes_vals.append({
-                    "path": path,
+                    "path": os.fsencode(path),
                     "path_id": path_id,
                     "directory": bool(path in dirs),
                     "lastsync": timestamp})
@@ -392,10 +392,10 @@ class RemoteDBFile(SyncDBFile):
             # the path IDs.
             self._cur.executemany("""\
                 INSERT INTO collisions (path, salt)
-                SELECT :path, gen_salt()
+                SELECT CAST(:path AS TEXT), gen_salt()
                 FROM nodes
                 WHERE id = :path_id
-                AND path != :path;
+                AND path != CAST(:path AS TEXT);
                 """, insert_nodes_vals)
             if self._cur.rowcount <= 0:
                 break
@@ -403,7 +403,8 @@ class RemoteDBFile(SyncDBFile):
         # Insert new values into both tables.
         self._cur.executemany("""\
             INSERT INTO nodes (id, path, directory, lastsync)
-            VALUES (:path_id, :path, :directory, :lastsync);
+            VALUES (
+                :path_id, CAST(:path AS TEXT), :directory, :lastsync);
             """, insert_nodes_vals)
         self._cur.executemany("""\
             INSERT INTO closure (ancestor, descendant, depth)
-- 
2.43.0


From 3cac0190610740e796e0ba777f25e4ee7a639615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 41/59] fix: don't overwrite the remote database with local
 files

The local directory can contain something called '.zielen', such as when it's
a copy of a remote directory. Syncing that overwrote the files that the
program keeps in the remote directory, or made every sync fail.
---
 zielen/filelogic.py | 1 +
 zielen/userdata.py  | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 84d5958..4b803ba 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -562,6 +562,7 @@ class FilesManager:
         try:
             transfer_tree(
                 self.local_dir.path, self.remote_dir.safe_path,
+                files=self.local_dir.scan_paths().keys(), recursive=False,
                 exclude=(
                     self.profile.all_exclude_matches(self.local_dir.path)
                     | unsafe_symlinks),
diff --git a/zielen/userdata.py b/zielen/userdata.py
index 27eb3f6..937fee1 100644
--- a/zielen/userdata.py
+++ b/zielen/userdata.py
@@ -31,6 +31,9 @@ from zielen.fstools import scan_tree
 from zielen.profile import ProfileExcludeFile
 from zielen.utils import FactoryDict, secure_string
 
+# The name of the directory in the remote directory for special program files.
+UTIL_DIRNAME = ".zielen"
+
 PathData = NamedTuple("PathData", [("directory", bool), ("lastsync", float)])
 
 
@@ -87,6 +90,10 @@ class SyncDir:
             for entry in scan_tree(self.path):
                 # Computing the relative path is expensive to do each time.
                 rel_path = os.path.relpath(entry.path, self.path)
+                if rel_path.partition(os.sep)[0] == UTIL_DIRNAME:
+                    # Only the remote directory is supposed to have this, and
+                    # it must not be overwritten with local files.
+                    continue
                 self._sub_entries[rel_path] = entry
 
         for rel_path, entry in self._sub_entries.items():
@@ -179,7 +186,7 @@ class RemoteSyncDir(SyncDir):
     """
     def __init__(self, path: str) -> None:
         super().__init__(path)
-        self.util_dir = os.path.join(self.path, ".zielen")
+        self.util_dir = os.path.join(self.path, UTIL_DIRNAME)
         self.safe_path = os.path.normpath(os.path.join(self.util_dir, ".."))
         self.trash_dir = os.path.join(self.util_dir, "Trash")
         self._exclude_dir = os.path.join(self.util_dir, "exclude")
-- 
2.43.0


From 9ca5119c5f800d3260b4e91ddd6b3f860e9b068b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:11 +0000
Subject: [PATCH 42/59] fix: don't confuse files whose paths have the same hash

The ID of a path that isn't in a database could be that of another one, which
was then returned or removed instead, and of two such paths that were added at
once, only one was.
---
 zielen/containerbase.py | 58 +++++++++++++++++++++++++++++++++++++++--
 zielen/profile.py       | 18 ++++---------
 zielen/userdata.py      | 18 ++++---------
 3 files changed, 66 insertions(+), 28 deletions(-)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 31b8457..22ec1d9 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -23,7 +23,7 @@ import json
 import sqlite3
 import contextlib
 import hashlib
-from typing import List, Generator, Iterable
+from typing import Any, Dict, List, Generator, Iterable
 
 from zielen.exceptions import FileParseError, RemoteError, StatusError
 from zielen.utils import secure_string
@@ -198,7 +198,7 @@ class SyncDBFile:
             AND id = :path_id;
             """, nodes_values)
 
-    def _get_path_id(self, path: str) -> int:
+    def _hash_path(self, path: str) -> int:
         """Return a 64-bit integer derived from the given file path.
 
         If the file path is in the 'collisions' table, then the salt from that
@@ -226,6 +226,60 @@ class SyncDBFile:
         return int.from_bytes(
             path_hash.digest()[:8], byteorder="big", signed=True)
 
+    def _get_path_id(self, path: str) -> int:
+        """Return the ID of a file path.
+
+        Args:
+            path: The file path to get the ID of.
+
+        Returns:
+            A signed 64-bit integer. If the file path is not in the database,
+            then this is not the ID of another file path either.
+        """
+        path_id = self._hash_path(path)
+        self._cur.execute("""\
+            SELECT 1
+            FROM nodes
+            WHERE id = :path_id
+            AND path != CAST(:path AS TEXT);
+            """, {"path_id": path_id, "path": os.fsencode(path)})
+        if self._cur.fetchone():
+            path_id = self._hash_path(path + secure_string(8))
+        return path_id
+
+    def _salt_collisions(
+            self, nodes_values: Iterable[Dict[str, Any]]) -> bool:
+        """Generate salt for new file paths that have the ID of another one.
+
+        Args:
+            nodes_values: A dict for each new file path with the values of its
+                row in the 'nodes' table.
+
+        Returns:
+            True if there were any collisions, meaning that the IDs must be
+            generated again.
+        """
+        collisions = []
+        new_paths = {}
+        for values in nodes_values:
+            self._cur.execute("""\
+                SELECT 1
+                FROM nodes
+                WHERE id = :path_id
+                AND path != CAST(:path AS TEXT);
+                """, values)
+            if self._cur.fetchone():
+                collisions.append(values)
+            elif new_paths.setdefault(
+                    values["path_id"], values["path"]) != values["path"]:
+                collisions.append(values)
+
+        self._cur.executemany("""\
+            INSERT INTO collisions (path, salt)
+            VALUES (CAST(:path AS TEXT), gen_salt());
+            """, collisions)
+        return bool(collisions)
+
     def lock(self) -> None:
         """Start a transaction that locks the database for writing.
 
diff --git a/zielen/profile.py b/zielen/profile.py
index 1edf96f..629a6f2 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -606,11 +606,11 @@ class ProfileDBFile(SyncDBFile):
             insert_closure_vals = []
             rm_vals = []
             for path in paths:
-                path_id = self._get_path_id(path)
+                path_id = self._hash_path(path)
                 parent = os.path.dirname(path)
                 if parent:
                     parents.add(parent)
-                    parent_id = self._get_path_id(parent)
+                    parent_id = self._hash_path(parent)
                 else:
                     parent_id = path_id
 
@@ -626,17 +626,9 @@ class ProfileDBFile(SyncDBFile):
                     "path_id": path_id,
                     "parent_id": parent_id})
 
-            # If there are any hash collisions with paths already in the
-            # database, generate salt and continue the loop to regenerate
-            # the path IDs.
-            self._cur.executemany("""\
-                INSERT INTO collisions (path, salt)
-                SELECT CAST(:path AS TEXT), gen_salt()
-                FROM nodes
-                WHERE id = :path_id
-                AND path != CAST(:path AS TEXT);
-                """, insert_nodes_vals)
-            if self._cur.rowcount <= 0:
+            # If there are any hash collisions, generate salt and continue the
+            # loop to regenerate the path IDs.
+            if not self._salt_collisions(insert_nodes_vals):
                 break
 
         # Insert new values into both tables.
diff --git a/zielen/userdata.py b/zielen/userdata.py
index 937fee1..1039b5e 100644
--- a/zielen/userdata.py
+++ b/zielen/userdata.py
@@ -375,11 +375,11 @@ class RemoteDBFile(SyncDBFile):
             insert_closure_vals = []
             rm_vals = []
             for path in paths:
-                path_id = self._get_path_id(path)
+                path_id = self._hash_path(path)
                 parent = os.path.dirname(path)
                 if parent:
                     parents.add(parent)
-                    parent_id = self._get_path_id(parent)
+                    parent_id = self._hash_path(parent)
                 else:
                     parent_id = path_id
 
@@ -394,17 +394,9 @@ class RemoteDBFile(SyncDBFile):
                     "path_id": path_id,
                     "parent_id": parent_id})
 
-            # If there are any hash collisions with paths already in the
-            # database, generate salt and continue the loop to regenerate
-            # the path IDs.
-            self._cur.executemany("""\
-                INSERT INTO collisions (path, salt)
-                SELECT CAST(:path AS TEXT), gen_salt()
-                FROM nodes
-                WHERE id = :path_id
-                AND path != CAST(:path AS TEXT);
-                """, insert_nodes_vals)
-            if self._cur.rowcount <= 0:
+            # If there are any hash collisions, generate salt and continue the
+            # loop to regenerate the path IDs.
+            if not self._salt_collisions(insert_nodes_vals):
                 break
 
         # Insert new values into both tables.
-- 
2.43.0


From 7ffe90bd0020f4ea594fc05f6e7e97c5bb05787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 43/59] fix: register files already moved when resuming an
 initialization

---
 zielen/filelogic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 4b803ba..da23157 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -553,6 +553,11 @@ class FilesManager:
                 os.path.join(self.local_dir.path, link_path),
                 self.local_dir.path)}
 
+        # Files that have already been replaced with symlinks, if this is
+        # being resumed, are in the remote directory.
+        placeholders = {
+            path for path in unsafe_symlinks if self._is_placeholder(path)}
+
         # Check that there is enough remote space to accommodate local
         # files.
         if self.local_dir.disk_usage() > self.remote_dir.space_avail():
@@ -574,7 +579,7 @@ class FilesManager:
             else:
                 raise
 
-        self._setup_dir(unsafe_symlinks)
+        self._setup_dir(unsafe_symlinks - placeholders)
 
     def setup_from_remote(self) -> None:
         """Symlink initial remote files to the local directory."""
-- 
2.43.0


From aa0985af0a56ea48c7cf9b6272e0cd0c219f6039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 44/59] fix: don't overwrite new local files when resuming an
 initialization

---
 zielen/filelogic.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index da23157..e373eb3 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -590,7 +590,16 @@ class FilesManager:
                 os.path.join(self.remote_dir.path, link_path),
                 self.remote_dir.path)}
 
-        self._setup_dir(unsafe_symlinks)
+        # Files that have been created since the initialization was
+        # interrupted, if this is being resumed, must not be overwritten. They
+        # are synced like any other new file.
+        new_paths = {
+            path for path in self.local_dir.scan_paths().keys()
+            - self.remote_dir.scan_paths(files=False, symlinks=False).keys()
+            if not self._is_placeholder(path)}
+
+        self.profile.rm_paths(new_paths)
+        self._setup_dir(unsafe_symlinks | new_paths)
 
     def handle_conflicts(
             self, local_paths: Iterable[str], remote_paths: Iterable[str]
-- 
2.43.0


From c58ed6e8466c38bb5d4c7ddd53e425ff9ef719f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 45/59] fix: don't write through the symlink of a file that
 became a directory

---
 zielen/fstools.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index dc73d32..8b093c9 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -227,7 +227,13 @@ def symlink_tree(
             try:
                 os.mkdir(full_dest_path)
             except FileExistsError:
-                pass
+                # If a file has become a directory, then its symlink must not
+                # be followed.
+                if (os.path.islink(full_dest_path)
+                        and os.readlink(full_dest_path) == full_src_path):
+                    os.remove(full_dest_path)
+                    os.mkdir(full_dest_path)
+                    new_paths.add(src_path)
             else:
                 new_paths.add(src_path)
         elif src_path in src_files:
-- 
2.43.0


From 0e8325a67bd8cb661e4f7c36ba5a62b651ea1b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 46/59] fix: commit the databases before an initialization is
 considered complete

---
 zielen/commands/init.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index e3b8a03..f5db258 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -166,8 +166,12 @@ class InitCommand(Command):
         # is shared.
         self.remote_dir.add_exclude_file(self.profile.exclude_path, self.profile.id)
 
-        # The profile is now fully initialized. Update the profile.
+        # Write the databases first, as an initialization that is interrupted
+        # after the status has been written can't be resumed.
         self.remote_dir.write()
+        self.profile.commit()
+
+        # The profile is now fully initialized. Update the profile.
         self.profile.status = "initialized"
         self.profile.last_sync = fm.sync_time
         self.profile.last_adjust = time.time()
-- 
2.43.0


From c324ef0a81c61d626ae1c58d45736afd401e4308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 47/59] fix: don't crash if a profile is incomplete

---
 zielen/commandbase.py   | 7 ++++++-
 zielen/commands/list.py | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/zielen/commandbase.py b/zielen/commandbase.py
index c25214a..7e34d26 100644
--- a/zielen/commandbase.py
+++ b/zielen/commandbase.py
@@ -103,7 +103,12 @@ class Command(abc.ABC):
         Raises:
             InputError: The selected profile is only partially initialized.
         """
-        self.profile.read()
+        try:
+            self.profile.read()
+        except FileNotFoundError:
+            # An initialization was interrupted before it could be resumed, or
+            # a reset was interrupted.
+            raise InputError("this profile is incomplete")
         self.lock()
 
         # Warn if profile is only partially initialized.
diff --git a/zielen/commands/list.py b/zielen/commands/list.py
index c7bf200..8e7d076 100644
--- a/zielen/commands/list.py
+++ b/zielen/commands/list.py
@@ -37,7 +37,11 @@ class ListCommand(Command):
             # New ProfileConfigFile objects are created so that they syntax
             # of the config files isn't checked.
             config_file = ProfileConfigFile(profile.cfg_path)
-            config_file.read()
+            try:
+                config_file.read()
+            except FileNotFoundError:
+                # The profile is incomplete.
+                continue
             config_files.append((name, config_file))
 
         table_data = [(
-- 
2.43.0


From 6aa8f92db1e852046469f5337333da1f4097cf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:27 +0000
Subject: [PATCH 48/59] fix: lock a profile before reading it and until it is
 cleaned up

A command which read the profile before locking it, or which deleted a
profile after unlocking it, could delete, overwrite or use the half
written files of a profile another command was working on.
---
 zielen/commandbase.py   | 10 ++++++++-
 zielen/commands/init.py | 14 +++++++------
 zielen/containerbase.py | 45 +++++++++++++++++++++++++++--------------
 zielen/profile.py       |  4 ++++
 4 files changed, 51 insertions(+), 22 deletions(-)

diff --git a/zielen/commandbase.py b/zielen/commandbase.py
index 7e34d26..a2a43e7 100644
--- a/zielen/commandbase.py
+++ b/zielen/commandbase.py
@@ -24,6 +24,7 @@ import atexit
 import socket
 import textwrap
 import functools
+import contextlib
 
 from zielen.paths import get_profiles_dir
 from zielen.userdata import LocalSyncDir, RemoteSyncDir
@@ -38,6 +39,7 @@ def unlock(func):
         try:
             return func(self, *args, **kwargs)
         finally:
+            self.cleanup.close()
             try:
                 self.lock_socket.close()
             except AttributeError:
@@ -54,6 +56,7 @@ class Command(abc.ABC):
         local_dir: A LocalSyncDir object representing the local directory.
         remote_dir: A RemoteSyncDir object representing the remote directory.
         lock_socket: A unix domain socket used for locking a profile.
+        cleanup: A stack of functions to call before the profile is unlocked.
     """
     def __init__(self) -> None:
         os.makedirs(get_profiles_dir(), exist_ok=True)
@@ -65,6 +68,7 @@ class Command(abc.ABC):
         self.local_dir = None
         self.remote_dir = None
         self.lock_socket = None
+        self.cleanup = contextlib.ExitStack()
 
     @abc.abstractmethod
     def main(self) -> None:
@@ -103,13 +107,17 @@ class Command(abc.ABC):
         Raises:
             InputError: The selected profile is only partially initialized.
         """
+        self.lock()
+
+        # Another process could have changed, created or deleted the profile
+        # before it was locked.
+        self.profile.connect()
         try:
             self.profile.read()
         except FileNotFoundError:
             # An initialization was interrupted before it could be resumed, or
             # a reset was interrupted.
             raise InputError("this profile is incomplete")
-        self.lock()
 
         # Warn if profile is only partially initialized.
         if self.profile.status == "partial":
diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index f5db258..879aa2f 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -91,8 +91,13 @@ class InitCommand(Command):
                 raise InputError(
                     "argument for '--template' is not a valid file")
 
-        atexit.register(cleanup_profile)
+        # Lock profile if not already locked.
         self.profile = Profile(self.profile_input)
+        self.lock()
+
+        # Another process could have created the profile before it was locked.
+        self.profile.connect()
+        self.cleanup.callback(cleanup_profile)
         try:
             self.profile.read()
         except FileNotFoundError:
@@ -102,9 +107,6 @@ class InitCommand(Command):
         if self.profile.status == "initialized":
             raise InputError("this profile already exists")
 
-        # Lock profile if not already locked.
-        self.lock()
-
         # Check whether an interrupted initialization is being resumed.
         if self.profile.status == "partial":
             # Resume an interrupted initialization.
@@ -120,7 +122,7 @@ class InitCommand(Command):
             fm = FilesManager(self.local_dir, self.remote_dir, self.profile)
         else:
             # Start a new initialization.
-            atexit.register(delete_profile)
+            self.cleanup.callback(delete_profile)
 
             # Generate all files in the profile directory.
             init_options = {
@@ -150,7 +152,7 @@ class InitCommand(Command):
             # initialization is interrupted from this point, it can be
             # resumed.
             atexit.register(self.print_interrupt_msg)
-            atexit.unregister(delete_profile)
+            self.cleanup.pop_all()
 
         self.remote_dir.generate()
         self.remote_dir.lock()
diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 22ec1d9..01536f2 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -145,24 +145,12 @@ class SyncDBFile:
         path: The path of the database file.
         _conn: The sqlite connection object for the database.
         _cur: The sqlite cursor object for the connection.
+        _stat: The stat of the file that the connection is to.
     """
     def __init__(self, path: str) -> None:
         self.path = path
-        if os.path.isfile(self.path):
-            self._conn = sqlite3.connect(
-                self.path,
-                detect_types=sqlite3.PARSE_DECLTYPES,
-                isolation_level="DEFERRED")
-            self._conn.create_function("gen_salt", 0, lambda: secure_string(8))
-
-            self._cur = self._conn.cursor()
-            self._cur.arraysize = 20
-            self._cur.executescript("""\
-                PRAGMA foreign_keys = ON;
-                """)
-        else:
-            self._conn = None
-            self._cur = None
+        self._conn = self._cur = self._stat = None
+        self.connect()
 
         # Create adapter from python boolean to sqlite integer.
         sqlite3.register_adapter(bool, int)
@@ -171,6 +159,33 @@ class SyncDBFile:
         # File names don't have to be valid unicode.
         sqlite3.register_converter("TEXT", os.fsdecode)
 
+    def connect(self) -> None:
+        """Connect to the database file if it exists.
+
+        This does nothing if there is already a connection to the file, unless
+        the file has been replaced or deleted since.
+        """
+        try:
+            file_stat = os.stat(self.path)
+        except OSError:
+            self._conn = self._cur = self._stat = None
+            return
+        if self._stat and os.path.samestat(file_stat, self._stat):
+            return
+
+        self._conn = sqlite3.connect(
+            self.path,
+            detect_types=sqlite3.PARSE_DECLTYPES,
+            isolation_level="DEFERRED")
+        self._conn.create_function("gen_salt", 0, lambda: secure_string(8))
+
+        self._cur = self._conn.cursor()
+        self._cur.arraysize = 20
+        self._cur.executescript("""\
+            PRAGMA foreign_keys = ON;
+            """)
+        self._stat = file_stat
+
     @contextlib.contextmanager
     def _transact(self) -> Generator[None, None, None]:
         """Check if database file exists and commit the transaction on exit.
diff --git a/zielen/profile.py b/zielen/profile.py
index 629a6f2..187d2c9 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -122,6 +122,10 @@ class Profile:
         # The initialization can be resumed once the info file exists.
         self._info_file.generate(self.name, init_options)
 
+    def connect(self) -> None:
+        """Connect to the database if it was created or replaced."""
+        self._db_file.connect()
+
     def refresh(self) -> None:
         """Reload metadata that another process could have updated.
 
-- 
2.43.0


From 5f9f4d1a2e2ed8ae1a339a9e3a027d0fe5dd1cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:27 +0000
Subject: [PATCH 49/59] fix: list profiles that have incomplete config files

Reading the config file of a profile without one raises FileParseError,
and options without a value can't be printed in a table.
---
 zielen/commands/list.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/zielen/commands/list.py b/zielen/commands/list.py
index 8e7d076..2e5d5ab 100644
--- a/zielen/commands/list.py
+++ b/zielen/commands/list.py
@@ -20,6 +20,7 @@ along with zielen.  If not, see <http://www.gnu.org/licenses/>.
 from zielen.profile import ProfileConfigFile
 from zielen.utils import BoxTable
 from zielen.commandbase import Command
+from zielen.exceptions import FileParseError
 
 
 class ListCommand(Command):
@@ -39,15 +40,15 @@ class ListCommand(Command):
             config_file = ProfileConfigFile(profile.cfg_path)
             try:
                 config_file.read()
-            except FileNotFoundError:
+            except FileParseError:
                 # The profile is incomplete.
                 continue
             config_files.append((name, config_file))
 
         table_data = [(
-                name, config_file.vals["LocalDir"],
-                config_file.vals["RemoteDir"],
-                config_file.vals["StorageLimit"])
+                name, config_file.vals["LocalDir"] or "",
+                config_file.vals["RemoteDir"] or "",
+                config_file.vals["StorageLimit"] or "")
             for name, config_file in config_files]
         table_data.insert(0, (
             "Profile", "Local Directory", "Remote Directory", "Limit"))
-- 
2.43.0


From 39cc5e98bba0b4661ecb50351f66d7f8a224e359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:46 +0000
Subject: [PATCH 50/59] fix: refuse a local directory that overlaps with the
 remote directory

Such a profile moved the files of the remote directory and its database
into itself. Symlinks are resolved, as directories can also overlap if
their paths don't.
---
 zielen/commands/init.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index 879aa2f..ab45a88 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -186,11 +186,17 @@ class InitCommand(Command):
             'systemctl --user enable zielen@{0}.service'""".format(
                 self.profile.name)))
 
+    @staticmethod
+    def _is_overlapping(first_path: str, second_path: str) -> bool:
+        """Check if directories are the same or one contains the other."""
+        paths = [os.path.realpath(first_path), os.path.realpath(second_path)]
+        return os.path.commonpath(paths) in paths
+
     def _verify_local_dir(self, dir_path: str) -> Optional[str]:
         """Verity that local directory path doesn't overlap other profiles.
 
         Also verify that the local directory path doesn't overlap with the
-        program directory.
+        program directory or with the remote directory of this profile.
 
         Args:
             dir_path: The absolute path of the local directory.
@@ -199,10 +205,12 @@ class InitCommand(Command):
             An error message if the local directory is invalid and None
             otherwise.
         """
-        common_path = os.path.commonpath([dir_path, get_program_dir()])
-        if common_path in [dir_path, get_program_dir()]:
+        if self._is_overlapping(dir_path, get_program_dir()):
             return "local directory must not contain zielen config files"
 
+        if self._is_overlapping(dir_path, self.profile.remote_path):
+            return "local directory overlaps with the remote directory"
+
         overlap_profiles = []
         for name, profile in self.profiles.items():
             if name == self.profile.name:
@@ -214,8 +222,7 @@ class InitCommand(Command):
                 # The profile is incomplete.
                 continue
 
-            common_path = os.path.commonpath([profile.local_path, dir_path])
-            if common_path in [profile.local_path, dir_path]:
+            if self._is_overlapping(dir_path, profile.local_path):
                 overlap_profiles.append(name)
 
         if overlap_profiles:
-- 
2.43.0


From 0f6d3acf3c599de6990731f23e0e14fe9e30639e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:53 +0000
Subject: [PATCH 51/59] fix: expand the home directory before normalizing a
 path

The path '~/../name' became the relative path 'name'.
---
 zielen/profile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 187d2c9..73037b9 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -231,14 +231,14 @@ class Profile:
     @property
     def local_path(self) -> str:
         """The absolute path of the local directory."""
-        return os.path.expanduser(
-            os.path.normpath(self._cfg_file.vals["LocalDir"]))
+        return os.path.normpath(
+            os.path.expanduser(self._cfg_file.vals["LocalDir"]))
 
     @property
     def remote_path(self) -> str:
         """The absolute path of the remote directory."""
-        return os.path.expanduser(
-            os.path.normpath(self._cfg_file.vals["RemoteDir"]))
+        return os.path.normpath(
+            os.path.expanduser(self._cfg_file.vals["RemoteDir"]))
 
     @property
     def storage_limit(self) -> int:
-- 
2.43.0


From af584b7a73db773ca309dff77e95d76d95ec9822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:37 +0000
Subject: [PATCH 52/59] fix: use the default of a boolean option that is blank

A blank UseTrash silently disabled the trash.
---
 zielen/profile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 73037b9..d6aad95 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -993,10 +993,10 @@ class ProfileConfigFile(ConfigFile):
     @DictProperty
     def vals(self, key: str) -> Any:
         """Get defaults if corresponding raw values are unset."""
-        if key in self.raw_vals:
-            return self.raw_vals[key]
-        elif key in self._defaults:
+        if key in self._defaults and not self.raw_vals.get(key):
             return self._defaults[key]
+        elif key in self.raw_vals:
+            return self.raw_vals[key]
 
     @vals.setter
     def vals(self, key: str, value: str) -> None:
-- 
2.43.0


From 73bfabf33171a1d0ff7a419514b7a1e7d7f2f596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:49 +0000
Subject: [PATCH 53/59] fix: refuse a template in which an optional value is
 blank

It made a profile in which every command failed.
---
 zielen/profile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zielen/profile.py b/zielen/profile.py
index d6aad95..b506ec3 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -112,6 +112,8 @@ class Profile:
         self._cfg_file.prompt()
 
         if template_path:
+            # A value that is still empty makes the config file invalid.
+            self._cfg_file.check_all(context="template file")
             self._cfg_file.write(template_path)
         else:
             # TODO: Get the path of the master config template from
-- 
2.43.0


From 00588a1c210b079edead13923faaf72f6a705cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:24 +0000
Subject: [PATCH 54/59] fix: don't crash if a new directory can't be made
 because of a file

Making a directory below a file or in place of a dangling symlink made init
crash instead of refusing the directory.
---
 zielen/fstools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index 8b093c9..5b3393d 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -342,7 +342,7 @@ def check_dir(path: str, expect_empty: bool) -> Optional[str]:
         if expect_empty:
             try:
                 os.makedirs(path)
-            except PermissionError:
+            except (PermissionError, FileExistsError, NotADirectoryError):
                 return "must be in a directory with write access"
         else:
             return "must be an existing directory"
-- 
2.43.0


From c1606dad66093ab4181a7d3801b248040845b5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:01 +0000
Subject: [PATCH 55/59] fix: don't sync symlinks that leave the directory by
 its name

A symlink such as '../local/file' in a directory called 'local' leads
outside of the remote directory.
---
 zielen/fstools.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index 5b3393d..39c49a6 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -300,9 +300,12 @@ def is_unsafe_symlink(link_path: str, parent_path: str) -> bool:
         # The file is not a symlink.
         return False
     if not os.path.isabs(link_dest):
-        abs_link_dest = os.path.normpath(
-            os.path.join(os.path.dirname(link_path), link_dest))
-        if os.path.commonpath([abs_link_dest, parent_path]) == parent_path:
+        # A path that leaves the directory and comes back to it by its name
+        # leads somewhere else in a directory with another name.
+        rel_link_dest = os.path.normpath(os.path.join(
+            os.path.relpath(os.path.dirname(link_path), parent_path),
+            link_dest))
+        if rel_link_dest.split(os.sep)[0] != os.pardir:
             return False
     return True
 
-- 
2.43.0


From 8515017e28d8231d52ffb30cdd57cd5eeff4b212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:40 +0000
Subject: [PATCH 56/59] fix: allow directories whose paths aren't valid unicode

A config file with such a path made every command crash.
---
 zielen/commands/list.py |  8 +++++++-
 zielen/containerbase.py | 12 ++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/zielen/commands/list.py b/zielen/commands/list.py
index 2e5d5ab..5bbc56f 100644
--- a/zielen/commands/list.py
+++ b/zielen/commands/list.py
@@ -17,6 +17,8 @@ GNU General Public License for more details.
 You should have received a copy of the GNU General Public License
 along with zielen.  If not, see <http://www.gnu.org/licenses/>.
 """
+import os
+
 from zielen.profile import ProfileConfigFile
 from zielen.utils import BoxTable
 from zielen.commandbase import Command
@@ -52,5 +54,9 @@ class ListCommand(Command):
             for name, config_file in config_files]
         table_data.insert(0, (
             "Profile", "Local Directory", "Remote Directory", "Limit"))
-        table = BoxTable(table_data)
+
+        # Paths that aren't valid unicode can't be printed as they are.
+        table = BoxTable([
+            tuple(os.fsencode(value).decode(errors="replace") for value in row)
+            for row in table_data])
         print(table.format())
diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 01536f2..043a401 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -47,10 +47,13 @@ class ConfigFile:
         self.raw_vals = {}
 
     def read(self) -> None:
-        """Parse file for key-value pairs and save in a dictionary."""
+        """Parse file for key-value pairs and save in a dictionary.
+
+        The paths in the file don't have to be valid unicode.
+        """
         raw_vals = {}
         try:
-            with open(self.path) as file:
+            with open(self.path, errors="surrogateescape") as file:
                 for line in file:
                     # Skip line if it is a comment.
                     if (not self.COMMENT_REGEX.search(line)
@@ -66,8 +69,9 @@ class ConfigFile:
     def write(self, template_path: str) -> None:
         """Generate a new config file based on the input file."""
         try:
-            with open(template_path) as infile, open(
-                    self.path, "w") as outfile:
+            with open(
+                    template_path, errors="surrogateescape") as infile, open(
+                    self.path, "w", errors="surrogateescape") as outfile:
                 for line in infile:
                     # Skip line if it is a comment.
                     new_line = line
-- 
2.43.0


From 26b00d0386b8fa48250d98fe6bbe1480c981f170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:38 +0000
Subject: [PATCH 57/59] fix: don't write into an empty mount point in place of
 the remote directory

The path that is relative to the util directory was normalized, which removed
the util directory from it.
---
 zielen/commands/reset.py |  2 +-
 zielen/filelogic.py      |  8 ++++----
 zielen/fstools.py        | 30 ++++++++++++++++++++++++++++--
 zielen/userdata.py       |  2 +-
 4 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index 737b2d5..23e26f1 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -111,7 +111,7 @@ class ResetCommand(Command):
                 link_dest = os.path.join(os.path.dirname(full_path), link_dest)
             if os.path.commonpath([
                     link_dest,
-                    self.remote_dir.safe_path]) == self.remote_dir.safe_path:
+                    self.remote_dir.path]) == self.remote_dir.path:
                 os.remove(full_path)
 
         if not self.no_retrieve and not self.keep_remote:
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index e373eb3..e35e262 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -386,7 +386,7 @@ class FilesManager:
             link_dest = os.readlink(os.path.join(self.local_dir.path, path))
         except OSError:
             return False
-        return link_dest == os.path.join(self.remote_dir.safe_path, path)
+        return link_dest == os.path.join(self.remote_dir.path, path)
 
     def _is_changed(self, path: str) -> bool:
         """Check if a local file has changed since the sync started.
@@ -433,12 +433,12 @@ class FilesManager:
             # ones. If a file were missing at any point and the sync was
             # interrupted, then the next sync would consider it deleted.
             symlink_tree(
-                self.remote_dir.safe_path, self.local_dir.path,
+                self.remote_dir.path, self.local_dir.path,
                 stale_paths & self.profile.get_paths(directory=False).keys(),
                 [], overwrite=True, skip=skip)
 
             nonlocal_paths = symlink_tree(
-                self.remote_dir.safe_path, self.local_dir.path,
+                self.remote_dir.path, self.local_dir.path,
                 self.profile.get_paths(directory=False),
                 self.profile.get_paths(directory=True))
 
@@ -539,7 +539,7 @@ class FilesManager:
         # Overwrite local files with symlinks to the corresponding files in the
         # remote dir.
         symlink_tree(
-            self.remote_dir.safe_path, self.local_dir.path,
+            self.remote_dir.path, self.local_dir.path,
             self.profile.get_paths(directory=False),
             self.profile.get_paths(directory=True),
             overwrite=True, skip=self._is_changed)
diff --git a/zielen/fstools.py b/zielen/fstools.py
index 39c49a6..15a74f5 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -75,6 +75,32 @@ def copy_file(
         raise
 
 
+def make_dirs(path: str) -> None:
+    """Create a directory and its parents, unless they exist.
+
+    Unlike with os.makedirs(), a directory that is missing is not created if
+    the path leaves it again ("missing/../dir").
+
+    Args:
+        path: The path of the directory.
+
+    Raises:
+        FileNotFoundError: The path leaves a directory that is missing.
+    """
+    if os.path.isdir(path):
+        return
+    parent, name = os.path.split(path)
+    if name == os.pardir:
+        raise FileNotFoundError("{} not found".format(parent))
+    if parent:
+        make_dirs(parent)
+    try:
+        os.mkdir(path)
+    except FileExistsError:
+        if not os.path.isdir(path):
+            raise
+
+
 def transfer_tree(
         source: str, dest: str, files=None, exclude=None,
         message="", rm_source=False, temp_suffix="",
@@ -152,11 +178,11 @@ def transfer_tree(
 
     for rel_path, source_path, dest_path in zip(
             rel_paths, source_paths, dest_paths):
-        os.makedirs(os.path.dirname(dest_path), exist_ok=True)
+        make_dirs(os.path.dirname(dest_path))
         try:
             if (os.path.isdir(source_path)
                     and not os.path.islink(source_path)):
-                os.makedirs(dest_path, exist_ok=True)
+                make_dirs(dest_path)
             else:
                 copy_file(
                     source_path, dest_path, temp_suffix,
diff --git a/zielen/userdata.py b/zielen/userdata.py
index 1039b5e..a1cc9b9 100644
--- a/zielen/userdata.py
+++ b/zielen/userdata.py
@@ -187,7 +187,7 @@ class RemoteSyncDir(SyncDir):
     def __init__(self, path: str) -> None:
         super().__init__(path)
         self.util_dir = os.path.join(self.path, UTIL_DIRNAME)
-        self.safe_path = os.path.normpath(os.path.join(self.util_dir, ".."))
+        self.safe_path = os.path.join(self.util_dir, "..")
         self.trash_dir = os.path.join(self.util_dir, "Trash")
         self._exclude_dir = os.path.join(self.util_dir, "exclude")
         self._db_file = RemoteDBFile(os.path.join(self.util_dir, "remote.db"))
-- 
2.43.0


From 293a57d19608285a55704e9e413a8b26eae3ee5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:07 +0000
Subject: [PATCH 58/59] fix: keep the priority of files in a conflict and
 inflate that of new copies

A file that was changed in both the local and remote directory was removed from
the local database and added again, so that it lost its priority. The copy that
a local version is renamed to was already in the database with a priority of
zero by the time its priority should have been inflated.
---
 zielen/filelogic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index e35e262..a0ceebe 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -985,12 +985,12 @@ class FilesManager:
             else:
                 new_file_paths.add(new_path)
 
-        self.profile.rm_paths(old_paths)
+        # The other version of each file keeps the path and thus its priority.
         # Other clients must not be told that a remote file has changed if only
         # the local one has been renamed.
         if parent_dir != self.local_dir.path:
             self.remote_dir.rm_paths(old_paths)
-        self.profile.add_paths(new_file_paths, new_dir_paths)
+            self.profile.add_paths(new_file_paths, new_dir_paths)
         self.remote_dir.add_paths(
             new_file_paths, new_dir_paths, lastsync=self.sync_time)
 
-- 
2.43.0


From 03bfe774ac1ebc249f086c6dd7ede82d5c2244ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:43 +0000
Subject: [PATCH 59/59] fix: report a remote directory that disappears while a
 command runs

Depending on what a sync or reset was doing at the time, it ended with a
traceback of a FileNotFoundError, KeyError or sqlite3.OperationalError instead
of the error message.
---
 zielen/commandbase.py         | 19 ++++++++++++++++++-
 zielen/commands/emptytrash.py |  3 ++-
 zielen/commands/reset.py      |  3 ++-
 zielen/commands/sync.py       |  3 ++-
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/zielen/commandbase.py b/zielen/commandbase.py
index a2a43e7..26051ff 100644
--- a/zielen/commandbase.py
+++ b/zielen/commandbase.py
@@ -29,7 +29,8 @@ import contextlib
 from zielen.paths import get_profiles_dir
 from zielen.userdata import LocalSyncDir, RemoteSyncDir
 from zielen.profile import Profile
-from zielen.exceptions import FileParseError, InputError, StatusError
+from zielen.exceptions import (
+    FileParseError, InputError, ProgramError, RemoteError, StatusError)
 
 
 def unlock(func):
@@ -47,6 +48,22 @@ def unlock(func):
     return wrapper
 
 
+def check_remote(func):
+    """Report it if the remote directory disappears in the function."""
+    @functools.wraps(func)
+    def wrapper(self, *args, **kwargs):
+        try:
+            return func(self, *args, **kwargs)
+        except ProgramError:
+            raise
+        except Exception:
+            if self.remote_dir and not os.path.isdir(self.remote_dir.util_dir):
+                raise RemoteError("the remote directory could not be found")
+            else:
+                raise
+    return wrapper
+
+
 class Command(abc.ABC):
     """Base class for program commands.
 
diff --git a/zielen/commands/emptytrash.py b/zielen/commands/emptytrash.py
index f3dafcb..ff9a8ce 100644
--- a/zielen/commands/emptytrash.py
+++ b/zielen/commands/emptytrash.py
@@ -20,7 +20,7 @@ along with zielen.  If not, see <http://www.gnu.org/licenses/>.
 import os
 import shutil
 
-from zielen.commandbase import Command, unlock
+from zielen.commandbase import Command, check_remote, unlock
 
 
 class EmptyTrashCommand(Command):
@@ -34,6 +34,7 @@ class EmptyTrashCommand(Command):
         self.profile = self.select_profile(profile_input)
 
     @unlock
+    @check_remote
     def main(self) -> None:
         """Run the command."""
         self.setup_profile()
diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index 23e26f1..f5a1574 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -24,7 +24,7 @@ from zielen.exceptions import (
     RemoteError, AvailableSpaceError, FileTransferError)
 from zielen.filelogic import FilesManager
 from zielen.fstools import transfer_tree
-from zielen.commandbase import Command, unlock
+from zielen.commandbase import Command, check_remote, unlock
 
 
 class ResetCommand(Command):
@@ -43,6 +43,7 @@ class ResetCommand(Command):
         self.no_retrieve = no_retrieve
 
     @unlock
+    @check_remote
     def main(self) -> None:
         """Run the command.
 
diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index c12c54a..7259e28 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -23,7 +23,7 @@ import time
 from typing import Iterable, Set, NamedTuple, Tuple, List
 
 from zielen.exceptions import RemoteError
-from zielen.commandbase import Command, unlock
+from zielen.commandbase import Command, check_remote, unlock
 from zielen.filelogic import FilesManager
 
 DeletedPaths = NamedTuple(
@@ -58,6 +58,7 @@ class SyncCommand(Command):
         self.profile = self.select_profile(profile_input)
 
     @unlock
+    @check_remote
     def main(self) -> None:
         """Run the command."""
         self.setup_profile()
-- 
2.43.0

