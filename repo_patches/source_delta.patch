From 68fb50b1ad9cc6c4f2b87ad7e62466f34bea054b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:44 +0000
Subject: [PATCH 01/82] fix: compare prior inventory states by normalized
 digest (no spurious E066d/E066e)

---
 ocfl/inventory_validator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 08b3af5..34cb66f 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -589,8 +589,11 @@ class InventoryValidator():
         here provide more detailed diagnostics in the case that the digest
         algorithm is the same across versions being compared.
         """
-        self_state = self.inventory["versions"][version]["state"]
-        prior_state = prior.inventory["versions"][version]["state"]
+        # Compare normalized digests, the case used in each inventory may differ
+        self_state = {normalized_digest(digest, self.digest_algorithm): files
+                      for digest, files in self.inventory["versions"][version]["state"].items()}
+        prior_state = {normalized_digest(digest, prior.digest_algorithm): files
+                       for digest, files in prior.inventory["versions"][version]["state"].items()}
         for digest in set(self_state.keys()).union(prior_state.keys()):
             if digest not in prior_state:
                 self._error("E066d", version=version, prior_head=prior.head,
-- 
2.43.0


From ca08f82f65990559ed88e9a4d614f23168d498c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:44 +0000
Subject: [PATCH 02/82] fix: recognize registered extensions in an object's
 extensions directory (spurious W013)

---
 ocfl/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 2a70b58..312b68f 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -286,7 +286,7 @@ class Validator():
         extensions.
         """
         for entry in self.obj_fs.listdir("extensions", detail=True):
-            name = entry["name"]
+            name = os.path.basename(entry["name"].rstrip("/"))  # listing includes directory path
             if entry["type"] == "directory":
                 if name not in self.registered_extensions:
                     self.log.warning("W013", entry=name)
-- 
2.43.0


From 9ff325515392773f163e48b94ad190098b571dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:13 +0000
Subject: [PATCH 03/82] fix: detect file/directory path conflicts at any depth
 (E095b, E101b)

---
 ocfl/inventory_validator.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 34cb66f..daaf7ae 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -51,6 +51,16 @@ def _get_logical_path_map(inventory, version):
     return file_map
 
 
+def _with_ancestors(directories):
+    """Return sorted list of directories and all of their parent directories."""
+    expanded = set()
+    for directory in directories:
+        while directory not in expanded:
+            expanded.add(directory)
+            directory = directory.rpartition("/")[0]
+    return sorted(expanded)
+
+
 class InventoryValidator():
     """Class for OCFL Inventory Validator."""
 
@@ -294,7 +304,7 @@ class InventoryValidator():
                         if self._check_content_path(file, content_paths, content_directories):
                             manifest_files_correct_format.append(file)
             # Check for conflicting content paths
-            for path in content_directories:
+            for path in _with_ancestors(content_directories):
                 if path in content_paths:
                     self._error("E101b", path=path)
         return manifest_files, manifest_files_correct_format, unnormalized_digests
@@ -487,7 +497,7 @@ class InventoryValidator():
                     norm_digest = normalized_digest(digest, self.digest_algorithm)
                     digests.append(norm_digest)
             # Check for conflicting logical paths
-            for path in logical_directories:
+            for path in _with_ancestors(logical_directories):
                 if path in logical_paths:
                     self._error("E095b", version=version, path=path)
         return digests
-- 
2.43.0


From cb2b307ab5f9bc6fca40cd99ad3fde9af11e968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:36 +0000
Subject: [PATCH 04/82] fix: check root inventory type against declaration
 (E038a) and match the whole type URI

---
 ocfl/inventory_validator.py | 2 +-
 ocfl/validator.py           | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index daaf7ae..efad0a0 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -145,7 +145,7 @@ class InventoryValidator():
             self._error("E038a", expected="https://ocfl.io/" + force_spec_version + "/spec/#inventory", got=inventory["type"])
         else:
             # Extract specification version
-            m = re.match(r"""https://ocfl.io/(\d+.\d)/spec/#inventory""", inventory["type"])
+            m = re.fullmatch(r"""https://ocfl\.io/(\d+\.\d+)/spec/#inventory""", inventory["type"])
             if not m:
                 self._error("E038b", got=inventory["type"], assumed_spec_version=self.spec_version)
             elif m.group(1) in SPEC_VERSIONS_SUPPORTED:
diff --git a/ocfl/validator.py b/ocfl/validator.py
index 312b68f..2ccf24a 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -131,6 +131,7 @@ class Validator():
         # Object declaration, set spec version number. If there are multiple declarations,
         # look for the lastest object version then report any others as errors
         namastes = find_namastes(0, fsw=self.obj_fs)
+        declared_version = None
         if len(namastes) == 0:
             self.log.error("E003a", assumed_version=self.spec_version)
         else:
@@ -151,6 +152,7 @@ class Validator():
             if spec_version is None:
                 self.log.error("E003c", assumed_version=self.spec_version)
             else:
+                declared_version = spec_version
                 self.spec_version = spec_version
                 self.log.spec_version = self.spec_version
                 if len(namastes) > 1:
@@ -162,6 +164,10 @@ class Validator():
             return False
         try:
             inventory, inv_validator = self.validate_inventory(inv_file)
+            if declared_version is not None and inv_validator.spec_version != declared_version:
+                # Type in root inventory must match the object declaration
+                self.log.error("E038a", where="root", got=inventory["type"],
+                               expected="https://ocfl.io/" + declared_version + "/spec/#inventory")
             inventory_is_valid = self.log.num_errors == 0
             self.root_inv_validator = inv_validator
             all_versions = inv_validator.all_versions
-- 
2.43.0


From 3b2990ebf8c744ff145873cb837c3b3deb06d2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:20 +0000
Subject: [PATCH 05/82] fix: report malformed inventories and sidecars as
 validation errors instead of raising

---
 ocfl/data/validation-errors.json |  6 ++++++
 ocfl/inventory_validator.py      | 21 +++++++++++++++++----
 ocfl/validator.py                | 24 ++++++++++++++++--------
 3 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/ocfl/data/validation-errors.json b/ocfl/data/validation-errors.json
index 65fff9e..8a85145 100644
--- a/ocfl/data/validation-errors.json
+++ b/ocfl/data/validation-errors.json
@@ -286,6 +286,12 @@
        "en": "OCFL Object includes directory %s that looks like a version directory but isn't a valid version in the inventory"
     }
   },
+  "E047": {
+    "params": ["where", "version"],
+    "description": {
+       "en": "OCFL Object %s inventory %s version block is not a JSON object"
+    }
+  },
   "E048": {
     "params": ["where", "version"],
     "description": {
diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index efad0a0..20f10ad 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -120,6 +120,9 @@ class InventoryValidator():
         validation in instance variables and the log object.
         """
         start_errors = self.log.num_errors
+        if not isinstance(inventory, dict):
+            self._error("E033", explanation="not a JSON object")
+            return False
         # Basic structure
         self.inventory = inventory
         self.spec_version = self.default_spec_version if force_spec_version is None else force_spec_version
@@ -157,7 +160,7 @@ class InventoryValidator():
             self._error("E036c")
         elif inventory["digestAlgorithm"] == "sha512":
             pass
-        elif self.lax_digests:
+        elif self.lax_digests and isinstance(inventory["digestAlgorithm"], str):
             self.digest_algorithm = inventory["digestAlgorithm"]
         elif inventory["digestAlgorithm"] == "sha256":
             self._warning("W004")
@@ -300,6 +303,9 @@ class InventoryValidator():
                     else:
                         manifest_digests.add(norm_digest)
                     for file in manifest[digest]:
+                        if not isinstance(file, str):
+                            self._error("E042a", path=file)
+                            continue
                         manifest_files[file] = norm_digest
                         if self._check_content_path(file, content_paths, content_directories):
                             manifest_files_correct_format.append(file)
@@ -354,7 +360,9 @@ class InventoryValidator():
                             else:
                                 digests_seen.add(norm_digest)
                             for file in fixity_algoritm_block[digest]:
-                                if file not in manifest_files:
+                                if manifest_files is None:
+                                    continue  # missing manifest already reported
+                                if not isinstance(file, str) or file not in manifest_files:
                                     self._error("E057d", digest=norm_digest, algorithm=digest_algorithm, path=file)
 
     def _validate_version_sequence(self, versions):
@@ -427,6 +435,9 @@ class InventoryValidator():
         digests_used = []
         for v in all_versions:
             version = versions[v]
+            if not isinstance(version, dict):
+                self._error("E047", version=v)
+                continue
             if "created" not in version:
                 self._error("E048", version=v)  # No created
             elif not isinstance(versions[v]["created"], str):
@@ -487,11 +498,13 @@ class InventoryValidator():
                     self._error("E050e", version=version, digest=digest)
                 else:
                     for path in state[digest]:
-                        if path in logical_paths:
+                        if not isinstance(path, str):
+                            self._error("E052", version=version, path=path)
+                        elif path in logical_paths:
                             self._error("E095a", version=version, path=path)
                         else:
                             self._check_logical_path(path, version, logical_paths, logical_directories)
-                    if digest not in unnormalized_digests:
+                    if unnormalized_digests is not None and digest not in unnormalized_digests:
                         # Exact string value must match, not just normalized
                         self._error("E050f", version=version, digest=digest)
                     norm_digest = normalized_digest(digest, self.digest_algorithm)
diff --git a/ocfl/validator.py b/ocfl/validator.py
index 2ccf24a..a44ec3b 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -163,13 +163,15 @@ class Validator():
             self.log.error("E063")
             return False
         try:
+            start_errors = self.log.num_errors
             inventory, inv_validator = self.validate_inventory(inv_file)
+            if self.log.num_errors == start_errors:
+                self.root_inv_validator = inv_validator  # safe to compare prior versions with
             if declared_version is not None and inv_validator.spec_version != declared_version:
                 # Type in root inventory must match the object declaration
                 self.log.error("E038a", where="root", got=inventory["type"],
                                expected="https://ocfl.io/" + declared_version + "/spec/#inventory")
             inventory_is_valid = self.log.num_errors == 0
-            self.root_inv_validator = inv_validator
             all_versions = inv_validator.all_versions
             self.id = inv_validator.id
             self.content_directory = inv_validator.content_directory
@@ -206,14 +208,18 @@ class Validator():
         This method does not look at anything else in the object itself.
         """
         try:
-            with self.obj_fs.open(inv_file, "r") as fh:
+            with self.obj_fs.open(inv_file, "r", encoding="utf-8") as fh:
                 inventory = json.load(fh)
         except FileNotFoundError:
             self.log.error("E033", where=where, explanation="Inventory not present")
             raise ValidatorAbortException
-        except json.decoder.JSONDecodeError as e:
+        except (OSError, ValueError, RecursionError) as e:
+            # Not a readable file, not UTF-8, not JSON, or unreasonable JSON
             self.log.error("E033", where=where, explanation=str(e))
             raise ValidatorAbortException
+        if not isinstance(inventory, dict):
+            self.log.error("E033", where=where, explanation="not a JSON object")
+            raise ValidatorAbortException
         inv_validator = InventoryValidator(log=self.log, where=where,
                                            lax_digests=self.lax_digests,
                                            default_spec_version=self.spec_version)
@@ -236,7 +242,7 @@ class Validator():
         """
         if not self.check_digests:
             return
-        m = re.match(r""".*\.(\w+)$""", inv_digest_file)
+        m = re.match(r""".*\.([\w\-]+)$""", inv_digest_file)
         if m:
             digest_algorithm = m.group(1)
             try:
@@ -244,7 +250,7 @@ class Validator():
                 digest_actual = file_digest(inv_file, digest_algorithm, fs=self.obj_fs)
                 if digest_actual != digest_recorded:
                     self.log.error("E060", inv_file=inv_file, actual=digest_actual, recorded=digest_recorded, inv_digest_file=inv_digest_file)
-            except ValueError as e:  # pylint: disable=broad-except
+            except (OSError, ValueError) as e:
                 self.log.error("E061", description=str(e))
         else:
             self.log.error("E058b", inv_digest_file=inv_digest_file)
@@ -339,7 +345,9 @@ class Validator():
                 # Note that inventories in prior versions may use different digest
                 # algorithms from the current invenotory. Also, they may accord
                 # with the same or earlier versions of the specification
+                start_errors = self.log.num_errors
                 version_inventory, inv_validator = self.validate_inventory(inv_file, where=version_dir)
+                version_inventory_is_valid = self.log.num_errors == start_errors
                 this_spec_version = inv_validator.spec_version
                 digest_algorithm = inv_validator.digest_algorithm
                 self.validate_inventory_digest(inv_file, digest_algorithm, where=version_dir)
@@ -362,7 +370,7 @@ class Validator():
                     first_version_content_directory_set = False  # report E019 just once
                 if self.content_directory != inv_validator.content_directory:
                     self.log.error("E020", where=version_dir, root_content_directory=self.content_directory, version_content_directory=inv_validator.content_directory)
-                if "manifest" in version_inventory:
+                if version_inventory_is_valid:
                     # Check that all files listed in prior inventories are in manifest
                     not_seen = set(prior_manifest_digests.keys())
                     for digest in version_inventory["manifest"]:
@@ -384,11 +392,11 @@ class Validator():
                                 prior_manifest_digests[filepath][digest_algorithm][digest] = []
                             prior_manifest_digests[filepath][digest_algorithm][digest].append(version_dir)
                 # Is this inventory an appropriate prior version of the object root inventory?
-                if self.root_inv_validator is not None:
+                if self.root_inv_validator is not None and version_inventory_is_valid:
                     self.root_inv_validator.validate_as_prior_version(inv_validator)
                 # Fixity blocks are independent in each version. Record all values and the versions
                 # they occur in for later checks against content
-                if "fixity" in version_inventory:
+                if version_inventory_is_valid and "fixity" in version_inventory:
                     for digest_algorithm in version_inventory["fixity"]:
                         for unnormalized_digest in version_inventory["fixity"][digest_algorithm]:
                             digest = normalized_digest(unnormalized_digest, digest_type=digest_algorithm)
-- 
2.43.0


From b664bc73e05712561b5396cd301cb2fbf1218e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:20 +0000
Subject: [PATCH 06/82] fix: report E015 for a file in place of the content
 directory

---
 ocfl/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index a44ec3b..cd4bb9c 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -433,7 +433,7 @@ class Validator():
                     if ((entry == INVENTORY_FILENAME)
                             or (version_dir in self.inventory_digest_files and entry == self.inventory_digest_files[version_dir])):
                         pass
-                    elif entry == self.content_directory:
+                    elif entry == self.content_directory and self.obj_fs.isdir(entrypath):
                         # Check content_directory
                         content_path = os.path.join(version_dir, self.content_directory)
                         num_content_files_in_version = 0
-- 
2.43.0


From c2aefc9a1ab166b415a0e9c555c34a7668227e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:20 +0000
Subject: [PATCH 07/82] fix: require declaration content to be the declared
 value (E007), and cope with many 0= files

---
 ocfl/validator.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index cd4bb9c..db75c1a 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -12,6 +12,7 @@ should enable application beyond the operating system filesystem.
 import json
 import os.path
 import re
+import sys
 
 from .constants import INVENTORY_FILENAME, SPEC_VERSIONS_SUPPORTED, \
     DEFAULT_SPEC_VERSION, DEFAULT_CONTENT_DIRECTORY
@@ -130,7 +131,7 @@ class Validator():
             return False
         # Object declaration, set spec version number. If there are multiple declarations,
         # look for the lastest object version then report any others as errors
-        namastes = find_namastes(0, fsw=self.obj_fs)
+        namastes = find_namastes(0, fsw=self.obj_fs, limit=sys.maxsize)
         declared_version = None
         if len(namastes) == 0:
             self.log.error("E003a", assumed_version=self.spec_version)
@@ -147,7 +148,7 @@ class Validator():
                     self.log.error("E006", filename=namaste.filename)
                 elif spec_version is None or this_file_version > spec_version:
                     spec_version = this_file_version
-                    if not namaste.content_ok(fsw=self.obj_fs):
+                    if not self.declaration_content_ok(namaste):
                         self.log.error("E007", filename=namaste.filename)
             if spec_version is None:
                 self.log.error("E003c", assumed_version=self.spec_version)
@@ -189,6 +190,13 @@ class Validator():
             pass
         return self.log.num_errors == 0
 
+    def declaration_content_ok(self, namaste):
+        """Return True if content of declaration file is exactly the tvalue, ignoring surrounding whitespace."""
+        try:
+            return self.obj_fs.read_text(namaste.filename, encoding="utf-8").strip() == namaste.tvalue
+        except (OSError, ValueError):
+            return False
+
     def validate_inventory(self, inv_file, where="root", force_spec_version=None):
         """Validate a given inventory file, record errors with self.log.error().
 
-- 
2.43.0


From 48ec10d753a685c6e8615d68ded76018d6e6b2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:20 +0000
Subject: [PATCH 08/82] fix: check contentDirectory against the first version
 inventory only (E019)

---
 ocfl/validator.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index db75c1a..77ab3f8 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -326,8 +326,7 @@ class Validator():
         prior_fixity_digests = {}  # file -> algorithm -> digest -> [versions]
         if len(version_dirs) == 0:
             return prior_manifest_digests, prior_fixity_digests
-        first_version = version_dirs[0]
-        first_version_content_directory_set = False
+        first_version_content_directory_set = None  # not known until first inventory seen
         last_version = version_dirs[-1]
         prev_version_dir = "NONE"  # will be set for first directory with inventory
         prev_spec_version = "1.0"  # lowest version
@@ -363,11 +362,11 @@ class Validator():
                 if self.id and "id" in version_inventory:
                     if version_inventory["id"] != self.id:
                         self.log.error("E037b", where=version_dir, root_id=self.id, version_id=version_inventory["id"])
-                if first_version:
+                if first_version_content_directory_set is None:
                     first_version_content_directory_set = inv_validator.content_directory_set
                     if not first_version_content_directory_set and self.content_directory_set:
                         self.log.error("E019", where="root")
-                        first_version_content_directory_set = False  # report E019 just once
+                        first_version_content_directory_set = True  # report E019 just once
                 elif not first_version_content_directory_set and inv_validator.content_directory_set:
                     # E019 is a rather odd and specific error condition: that if
                     # the contentDirectory is set for any version it must be set
@@ -375,7 +374,7 @@ class Validator():
                     # different from E020 that picks up inconsistency between ant
                     # two versions.
                     self.log.error("E019", where=version_dir)
-                    first_version_content_directory_set = False  # report E019 just once
+                    first_version_content_directory_set = True  # report E019 just once
                 if self.content_directory != inv_validator.content_directory:
                     self.log.error("E020", where=version_dir, root_content_directory=self.content_directory, version_content_directory=inv_validator.content_directory)
                 if version_inventory_is_valid:
-- 
2.43.0


From 22e08850157a8f31f9f0949695ac8df4236958f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:20 +0000
Subject: [PATCH 09/82] fix: report digest algorithms that cannot be calculated
 instead of raising

---
 ocfl/validator.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 77ab3f8..4232ece 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -481,7 +481,12 @@ class Validator():
                         self.log.error("E092b", where="root", content_path=filepath)
                     else:
                         if self.check_digests:
-                            content_digest = file_digest(filepath, digest_type=self.digest_algorithm, fs=self.obj_fs)
+                            try:
+                                content_digest = file_digest(filepath, digest_type=self.digest_algorithm, fs=self.obj_fs)
+                            except ValueError:
+                                # Algorithm allowed by lax_digests but that we cannot calculate
+                                self.log.error("E026a", where="root", digest=self.digest_algorithm)
+                                return
                             if content_digest != normalized_digest(digest, digest_type=self.digest_algorithm):
                                 self.log.error("E092a", where="root", digest_algorithm=self.digest_algorithm, digest=digest, content_path=filepath, content_digest=content_digest)
                             known_digests = {self.digest_algorithm: content_digest}
@@ -515,7 +520,10 @@ class Validator():
                     # Don't recompute anything, just use it if we've seen it before
                     content_digest = known_digests[digest_algorithm]
                 else:
-                    content_digest = file_digest(filepath, digest_type=digest_algorithm, fs=self.obj_fs)
+                    try:
+                        content_digest = file_digest(filepath, digest_type=digest_algorithm, fs=self.obj_fs)
+                    except ValueError:
+                        continue  # unknown algorithm (reported already unless lax_digests), cannot check
                     known_digests[digest_algorithm] = content_digest
                 for digest in additional_digests[filepath][digest_algorithm]:
                     if content_digest != normalized_digest(digest, digest_type=digest_algorithm):
-- 
2.43.0


From 666a6f6c68d5529c406bc11cd197889f79780736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:46 +0000
Subject: [PATCH 10/82] fix: keep the object's specification version when
 adding versions

---
 ocfl/object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index e22a93b..dd8ba2a 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -305,6 +305,7 @@ class Object():  # pylint: disable=too-many-public-methods
             else:
                 nv = NewVersion.next_version(inventory=inventory,
                                              srcdir=os.path.join(srcdir, vdir),
+                                             spec_version=self.spec_version,
                                              metadata=metadata,
                                              content_path_normalization=self.content_path_normalization,
                                              forward_delta=self.forward_delta,
@@ -506,6 +507,7 @@ class Object():  # pylint: disable=too-many-public-methods
         inventory.manifest = manifest
         return NewVersion.next_version(inventory=inventory,
                                        srcdir=srcdir,
+                                       spec_version=inventory.spec_version,
                                        metadata=metadata,
                                        content_path_normalization=self.content_path_normalization,
                                        forward_delta=self.forward_delta,
-- 
2.43.0


From ad1229b6ca29cffc7501f1164f214c9b5feef426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:46 +0000
Subject: [PATCH 11/82] fix: copy every content file when one source file is
 added more than once

---
 ocfl/new_version.py | 4 ++--
 ocfl/object.py      | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 926fbff..b725917 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -45,7 +45,7 @@ class NewVersion():
         self.dedupe = None
         # Additional state needed for final commit
         self.old_digest_algorithm = None
-        self.files_to_copy = {}  # dict: src_path -> content_path
+        self.files_to_copy = {}  # dict: content_path -> src_path
         self.src_fs = fsw_openfs(self.srcdir)
 
     @classmethod
@@ -342,7 +342,7 @@ class NewVersion():
                 or (not in_current_version and not self.forward_delta)
                 or (in_current_version and not self.dedupe)):
             # Yes, we copy this file in...
-            self.files_to_copy[src_path] = content_path
+            self.files_to_copy[content_path] = src_path
             inventory.add_file_to_manifest(digest=digest, content_path=content_path)
 
     def delete(self, logical_path):
diff --git a/ocfl/object.py b/ocfl/object.py
index dd8ba2a..d117046 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -318,7 +318,7 @@ class Object():  # pylint: disable=too-many-public-methods
             if objdir is not None:
                 self.write_inventory_and_sidecar(inventory, vdir)
                 # Copy files into this version
-                for (srcpath, objpath) in nv.files_to_copy.items():
+                for (objpath, srcpath) in nv.files_to_copy.items():
                     self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
         # Finally populate the object root
         if objdir is not None:
@@ -368,7 +368,7 @@ class Object():  # pylint: disable=too-many-public-methods
         self.write_object_declaration()
         self.write_inventory_and_sidecar(inventory)
         # Write version files
-        for (srcpath, objpath) in nv.files_to_copy.items():
+        for (objpath, srcpath) in nv.files_to_copy.items():
             self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
         logging.info("Created OCFL object %s in %s", self.id, objdir)
         return inventory
@@ -533,7 +533,7 @@ class Object():  # pylint: disable=too-many-public-methods
         # Make new version directory
         self.obj_fs.makedir(inventory.head)
         # Copy files into this version
-        for (srcpath, objpath) in new_version.files_to_copy.items():
+        for (objpath, srcpath) in new_version.files_to_copy.items():
             self.copy_into_object(new_version.src_fs, srcpath, objpath, create_dirs=True)
         # Write inventory in both root and head version
         self.write_inventory_and_sidecar(inventory, inventory.head)
-- 
2.43.0


From f38d36bf9e20ac20c6f71d3faf66e79e94b640fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:46 +0000
Subject: [PATCH 12/82] fix: keep manifest, fixity and files to copy in step on
 delete and rename in a new version

---
 ocfl/inventory.py   | 21 +++++++++++++++++++--
 ocfl/new_version.py | 18 +++++++++++-------
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/ocfl/inventory.py b/ocfl/inventory.py
index c1cea26..3986c4f 100644
--- a/ocfl/inventory.py
+++ b/ocfl/inventory.py
@@ -536,6 +536,19 @@ class Inventory():  # pylint: disable=too-many-public-methods
         else:
             fixities[digest].append(filepath)
 
+    def remove_fixity_data(self, filepaths):
+        """Remove any fixity information for the given files.
+
+        Arguments:
+            filepaths: set of content paths that are no longer in the manifest
+        """
+        for fixities in self.fixity.values():
+            for digest in list(fixities):
+                if filepaths.intersection(fixities[digest]):
+                    fixities[digest] = [path for path in fixities[digest] if path not in filepaths]
+                    if not fixities[digest]:
+                        del fixities[digest]
+
     def normalize_digests(self, digest_algorithm=None):
         """Normalize the digests used in manifest and state.
 
@@ -792,7 +805,11 @@ class Version():
                         for cpath in self.inv.manifest[digest]:
                             if not cpath.startswith(self.vdir + "/"):
                                 cpaths.append(cpath)
-                        self.inv.manifest[digest] = cpaths
-                    # FIXME - Also adjust fixity!
+                        removed = set(self.inv.manifest[digest]).difference(cpaths)
+                        if cpaths:
+                            self.inv.manifest[digest] = cpaths
+                        else:
+                            del self.inv.manifest[digest]
+                        self.inv.remove_fixity_data(removed)
                 return digest
         raise InventoryException("Logical path to delete %s not found!" % (path))
diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index b725917..53cb121 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -364,6 +364,11 @@ class NewVersion():
             inventory.current_version.delete_logical_path(logical_path)
         except InventoryException:
             raise NewVersionException("Cannot delete logical path %s that does not exist in new version %s" % (logical_path, inventory.head))
+        # Do not copy in files that are no longer part of this version
+        remaining = set(inventory.content_paths)
+        for content_path in list(self.files_to_copy):
+            if content_path not in remaining:
+                del self.files_to_copy[content_path]
 
     def rename(self, old_logical_path, new_logical_path):
         """Rename content in the version state to a new logical_path.
@@ -379,14 +384,13 @@ class NewVersion():
         inventory = self.inventory
         if new_logical_path in inventory.current_version.logical_paths:
             raise NewVersionException("Cannot rename to logical path %s that already exists in new version %s" % (new_logical_path, inventory.head))
-        try:
-            digest = inventory.current_version.delete_logical_path(old_logical_path)
-            if digest in inventory.current_version.state:
-                inventory.current_version.state[digest].append(new_logical_path)
-            else:
-                inventory.current_version.state[digest] = [new_logical_path]
-        except InventoryException:
+        digest = inventory.current_version.digest_for_logical_path(old_logical_path)
+        if digest is None:
             raise NewVersionException("Cannot rename logical path %s that does not exist in new version %s" % (old_logical_path, inventory.head))
+        # Only the name changes, the content must remain referenced throughout
+        logical_paths = inventory.current_version.state[digest]
+        logical_paths.remove(old_logical_path)
+        logical_paths.append(new_logical_path)
 
     def add_from_srcdir(self):
         """Add all content from srcdir."""
-- 
2.43.0


From 86930c390a9bebdb33b047609c2e67e051435fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 13/82] fix: record created date and state for every new
 version, without aliasing caller metadata

---
 ocfl/inventory.py   | 2 +-
 ocfl/new_version.py | 2 +-
 ocfl/object.py      | 5 +++++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/ocfl/inventory.py b/ocfl/inventory.py
index 3986c4f..f25b756 100644
--- a/ocfl/inventory.py
+++ b/ocfl/inventory.py
@@ -411,7 +411,7 @@ class Inventory():  # pylint: disable=too-many-public-methods
         if metadata is None:
             self.data["versions"][vdir] = {}
         elif isinstance(metadata, dict):
-            self.data["versions"][vdir] = metadata
+            self.data["versions"][vdir] = copy.deepcopy(metadata)
         else:
             self.data["versions"][vdir] = metadata.as_dict()
         if state is not None:
diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 53cb121..2013391 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -140,7 +140,7 @@ class NewVersion():
             for fixity_type in fixity:
                 inventory.add_fixity_type(fixity_type)
         #
-        inventory.add_version(metadata=metadata)  # also sets head "v1"
+        inventory.add_version(metadata=metadata, state={})  # also sets head "v1"
         if digest_algorithm is None:
             digest_algorithm = DEFAULT_DIGEST_ALGORITHM
         inventory.digest_algorithm = digest_algorithm
diff --git a/ocfl/object.py b/ocfl/object.py
index d117046..3ff55e5 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -22,6 +22,7 @@ from .fsw import fsw_openfs, fsw_copyfile, fsw_listdir_names, fsw_opendir_as_fs,
 from .namaste import Namaste
 from .validator import Validator, ValidatorAbortException
 from .version_metadata import VersionMetadata
+from .w3c_datetime import datetime_to_str
 
 
 class Object():  # pylint: disable=too-many-public-methods
@@ -346,6 +347,8 @@ class Object():  # pylint: disable=too-many-public-methods
         """
         if self.id is None:
             raise ObjectException("Identifier is not set!")
+        if metadata is None:
+            metadata = VersionMetadata()
         nv = NewVersion.first_version(srcdir=srcdir,
                                       identifier=self.id,
                                       spec_version=self.spec_version,
@@ -526,6 +529,8 @@ class Object():  # pylint: disable=too-many-public-methods
             ocfl.Inventory: of the latest version just written
         """
         inventory = new_version.inventory
+        if not inventory.current_version.created:
+            inventory.current_version.created = datetime_to_str()
         # Delete old root inventory sidecar if we changed digest algorithm
         if (new_version.old_digest_algorithm is not None
                 and inventory.digest_algorithm != new_version.old_digest_algorithm):
-- 
2.43.0


From a2950d1902286a810efa0fbd770044cb4bba4f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 14/82] fix: write sidecar for the digest algorithm of the
 inventory it accompanies

---
 ocfl/object.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 3ff55e5..5d4fd76 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -248,11 +248,13 @@ class Object():  # pylint: disable=too-many-public-methods
         if not self.obj_fs.exists(vdir):
             self.obj_fs.makedir(vdir)
         invfile = os.path.join(vdir, INVENTORY_FILENAME)
+        digest_algorithm = self.digest_algorithm
         if inventory is not None:
+            digest_algorithm = inventory.digest_algorithm or digest_algorithm
             with self.obj_fs.open(invfile, "w") as fh:
                 inventory.write_json(fh)
-        digest = file_digest(invfile, self.digest_algorithm, fs=self.obj_fs)
-        sidecar = os.path.join(vdir, INVENTORY_FILENAME + "." + self.digest_algorithm)
+        digest = file_digest(invfile, digest_algorithm, fs=self.obj_fs)
+        sidecar = os.path.join(vdir, INVENTORY_FILENAME + "." + digest_algorithm)
         with self.obj_fs.open(sidecar, "w") as fh:
             fh.write(digest + " " + INVENTORY_FILENAME + "\n")
         return sidecar
-- 
2.43.0


From d9772a35a08c45ddbae89f99a6236dac7d0a1579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 15/82] fix: support update of the open object and metadata
 only updates as documented

---
 ocfl/object.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 5d4fd76..9117340 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -400,11 +400,11 @@ class Object():  # pylint: disable=too-many-public-methods
         between versions.
         """
         nv = self.start_new_version(objdir=objdir,
-                                    srcdir=srcdir,
+                                    srcdir="" if srcdir is None else srcdir,
                                     digest_algorithm=self.digest_algorithm,
                                     fixity=self.fixity,
                                     metadata=metadata,
-                                    carry_content_forward=False)
+                                    carry_content_forward=(srcdir is None))
         # Add files if srcdir is set
         if srcdir is not None:
             nv.add_from_srcdir()
@@ -447,9 +447,12 @@ class Object():  # pylint: disable=too-many-public-methods
             finally be added with write_new_version()
         """
         # Check the current object
-        self.open_obj_fs(objdir)
+        if objdir:
+            self.open_obj_fs(objdir)
+        elif self.obj_fs is None:
+            raise ObjectException("No object filesystem open and no object directory specified")
         validator = Validator(check_digests=False, lax_digests=self.lax_digests)
-        if not validator.validate_object(objdir):
+        if not validator.validate_object(self.obj_fs):
             raise ObjectException("Object at '%s' is not valid, aborting" % objdir)
         inventory = self.parse_inventory()
         # Object is valid, have inventory
-- 
2.43.0


From c0e4a1e8766fe942863fbcac9583af6065c2c90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 16/82] fix: keep old inventory sidecar until the new version
 has been written

---
 ocfl/object.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 9117340..28be376 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -536,10 +536,6 @@ class Object():  # pylint: disable=too-many-public-methods
         inventory = new_version.inventory
         if not inventory.current_version.created:
             inventory.current_version.created = datetime_to_str()
-        # Delete old root inventory sidecar if we changed digest algorithm
-        if (new_version.old_digest_algorithm is not None
-                and inventory.digest_algorithm != new_version.old_digest_algorithm):
-            self.obj_fs.rm(INVENTORY_FILENAME + "." + new_version.old_digest_algorithm)
         # Make new version directory
         self.obj_fs.makedir(inventory.head)
         # Copy files into this version
@@ -548,6 +544,10 @@ class Object():  # pylint: disable=too-many-public-methods
         # Write inventory in both root and head version
         self.write_inventory_and_sidecar(inventory, inventory.head)
         self.write_inventory_and_sidecar(inventory)
+        # Delete old root inventory sidecar if we changed digest algorithm
+        if (new_version.old_digest_algorithm is not None
+                and inventory.digest_algorithm != new_version.old_digest_algorithm):
+            self.obj_fs.rm(INVENTORY_FILENAME + "." + new_version.old_digest_algorithm)
         logging.info("Updated OCFL object %s by adding %s", inventory.id, inventory.head)
         return inventory
 
-- 
2.43.0


From 6c9fab24d27bfad27ee5900f25e777b43b34daa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 17/82] fix: raise ObjectException for inconsistent copies when
 changing digest algorithm

---
 ocfl/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 28be376..cf8210b 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -502,7 +502,7 @@ class Object():  # pylint: disable=too-many-public-methods
                     d = file_digest(file, digest_algorithm, fs=self.obj_fs)
                     if d != digest:
                         raise ObjectException("Failed sanity check - files %s and %s should have same %s digest but calculated %s and %s respectively" %
-                                              files[0], file, digest_algorithm, digest, d)
+                                              (files[0], file, digest_algorithm, digest, d))
                 new_manifest[digest] = manifest[old_digest]
             manifest = new_manifest
             # Now update all state blocks
-- 
2.43.0


From 4ef4e208e0b8351c98d250de7c440ffe6caecbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 18/82] fix: do not create or build an object over existing
 content

---
 ocfl/object.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index cf8210b..c2b7e59 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -142,6 +142,20 @@ class Object():  # pylint: disable=too-many-public-methods
         except FileNotFoundError as e:
             raise ObjectException("Failed to open object filesystem '%s' (%s)" % (objdir, e))
 
+    def _open_new_obj_fs(self, objdir):
+        """Open filesystem for a new object that must not already have any content.
+
+        Arguments:
+            objdir (str): path string as for open_obj_fs(...)
+
+        Raises:
+            ocfl.ObjectException: if the objdir exists and is not empty, or on
+                failure to open filesystem
+        """
+        self.open_obj_fs(objdir, create=True)
+        if len(fsw_listdir_names(self.obj_fs, "")) > 0:
+            raise ObjectException("Object directory %s already exists and is not empty, aborting!" % (objdir))
+
     def copy_into_object(self, src_fs, srcfile, filepath, create_dirs=False):
         """Copy from srcfile to filepath in object."""
         dstpath = os.path.dirname(filepath)
@@ -289,7 +303,7 @@ class Object():  # pylint: disable=too-many-public-methods
         if self.id is None:
             raise ObjectException("Can't build object, identifier is not set!")
         if objdir is not None:
-            self.open_obj_fs(objdir, create=True)
+            self._open_new_obj_fs(objdir)
         num_versions = 0
         src_fs = fsw_openfs(srcdir)
         inventory = None
@@ -367,7 +381,7 @@ class Object():  # pylint: disable=too-many-public-methods
         if objdir is None:
             return inventory
         # Write out v1 object
-        self.open_obj_fs(objdir, create=True)
+        self._open_new_obj_fs(objdir)
         self.write_inventory_and_sidecar(inventory, "v1")
         # Write object root with object declaration, inventory and sidecar
         self.write_object_declaration()
-- 
2.43.0


From 7bb4080fc40c89d0ae3774eb5736fdd7bf7c7a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 19/82] fix: refuse to build from zero-padded or missing
 version directories

---
 ocfl/object.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index c2b7e59..e16ec56 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -213,11 +213,15 @@ class Object():  # pylint: disable=too-many-public-methods
             try:
                 vdir = entry["name"]
                 vn = parse_version_directory(vdir)
-                versions[vn] = vdir
             except ObjectException:
                 # Ignore directories that are not valid version dirs
-                pass
+                continue
+            if vdir != "v%d" % vn:
+                raise ObjectException("Zero-padded version directory %s not supported" % (vdir))
+            versions[vn] = vdir
         # Do we have a valid sequence of versions?
+        if len(versions) == 0:
+            raise ObjectException("No version directories found")
         n = 1
         for vn in sorted(versions.keys()):
             if vn != n:
-- 
2.43.0


From 2d5ca21d9f0980614c88bbecaa8847d2559a8442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 20/82] fix: do not overwrite an existing file in extract_file

---
 ocfl/object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index e16ec56..177945f 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -796,6 +796,8 @@ class Object():  # pylint: disable=too-many-public-methods
             raise ObjectException("Destination parent directory does not exist or could not be opened (%s)" % (e))
         # Now extract...
         basename = os.path.basename(logical_path)
+        if dst_fs.exists(basename):
+            raise ObjectException("Target file %s already exists in %s, aborting!" % (basename, dstdir))
         manifest = inv.manifest
         state = inv.version(version).state
         # Extract the specified file
-- 
2.43.0


From 8e4de120b607ed236ad4b23062ea4af1b9e3acea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 21/82] fix: copy data supplied to Inventory as documented

---
 ocfl/inventory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/inventory.py b/ocfl/inventory.py
index f25b756..773055f 100644
--- a/ocfl/inventory.py
+++ b/ocfl/inventory.py
@@ -132,7 +132,7 @@ class Inventory():  # pylint: disable=too-many-public-methods
         elif isinstance(data, Inventory):
             self.data = copy.deepcopy(data.data)
         elif isinstance(data, dict):
-            self.data = data
+            self.data = copy.deepcopy(data)
         else:
             raise InventoryException("Bad data type supplied to Inventory() creator, " + str(type(data)))
 
-- 
2.43.0


From 6ba4e6dd1db6ae65adbec821376dfce34ab03f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 22/82] fix: honour lax_digests when parsing an object's
 inventory

---
 ocfl/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 177945f..afb6704 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -829,7 +829,7 @@ class Object():  # pylint: disable=too-many-public-methods
         with self.obj_fs.open(INVENTORY_FILENAME, "r") as fh:
             inventory = Inventory(json.load(fh))
         # Validate
-        iv = InventoryValidator()
+        iv = InventoryValidator(lax_digests=self.lax_digests)
         if not iv.validate(inventory=inventory.data):
             raise ObjectException("Root inventory is not valid (%d errors)" % iv.log.num_errors)
         self.spec_version = iv.spec_version
-- 
2.43.0


From f1f23b37370cc53b02503d74ecaef4050e9bacfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 23/82] fix: return failure value if inventory cannot be read
 to get id

---
 ocfl/object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index afb6704..ea26da4 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -14,7 +14,7 @@ import logging
 
 from .constants import INVENTORY_FILENAME, DEFAULT_SPEC_VERSION, DEFAULT_CONTENT_DIRECTORY
 from .digest import file_digest
-from .inventory import Inventory
+from .inventory import Inventory, InventoryException
 from .inventory_validator import InventoryValidator
 from .new_version import NewVersion
 from .object_utils import parse_version_directory, ObjectException
@@ -851,5 +851,5 @@ class Object():  # pylint: disable=too-many-public-methods
         try:
             inventory = self.parse_inventory()
             return inventory.id
-        except ObjectException:
+        except (ObjectException, InventoryException, OSError, ValueError):
             return failure_value
-- 
2.43.0


From 9bd8fb859983a43731ab43a5dc32496f5efa0530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:24 +0000
Subject: [PATCH 24/82] fix: populate fixity block for requested fixity types

---
 ocfl/inventory.py   |  5 +++++
 ocfl/new_version.py | 22 +++++++++++++++++++++-
 ocfl/object.py      | 12 +++++++++---
 3 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/ocfl/inventory.py b/ocfl/inventory.py
index 773055f..b9a15d3 100644
--- a/ocfl/inventory.py
+++ b/ocfl/inventory.py
@@ -531,6 +531,11 @@ class Inventory():  # pylint: disable=too-many-public-methods
         the specific digest_algorithm.
         """
         fixities = self.fixity[digest_algorithm]
+        # Existing data might use a different form of the same digest
+        for existing in fixities:
+            if normalized_digest(existing, digest_algorithm) == normalized_digest(digest, digest_algorithm):
+                digest = existing
+                break
         if digest not in fixities:
             fixities[digest] = [filepath]
         else:
diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 2013391..b07f6fe 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -11,7 +11,7 @@ import os.path
 from urllib.parse import quote as urlquote
 
 from .constants import DEFAULT_DIGEST_ALGORITHM, DEFAULT_CONTENT_DIRECTORY, DEFAULT_SPEC_VERSION
-from .digest import file_digest
+from .digest import file_digest, digest_regex
 from .inventory import Inventory, InventoryException
 from .object_utils import make_unused_filepath
 from .fsw import fsw_openfs, fsw_walk_files
@@ -138,6 +138,7 @@ class NewVersion():
         # Add fixity section if requested
         if fixity is not None and len(fixity) > 0:
             for fixity_type in fixity:
+                digest_regex(fixity_type)  # ValueError if not supported
                 inventory.add_fixity_type(fixity_type)
         #
         inventory.add_version(metadata=metadata, state={})  # also sets head "v1"
@@ -344,6 +345,25 @@ class NewVersion():
             # Yes, we copy this file in...
             self.files_to_copy[content_path] = src_path
             inventory.add_file_to_manifest(digest=digest, content_path=content_path)
+            self._add_fixity(src_path, content_path)
+
+    def _add_fixity(self, src_path, content_path):
+        """Add fixity information for a new content file.
+
+        Arguments:
+            src_path (str): path of the source file within src_fs
+            content_path (str): the full content path of the file in the object
+
+        Adds information for every fixity type in the inventory, except for
+        any that we don't know how to calculate (perhaps carried forward from
+        a previous version).
+        """
+        for fixity_type in self.inventory.fixity:
+            try:
+                digest = file_digest(src_path, fixity_type, fs=self.src_fs)
+            except ValueError:
+                continue
+            self.inventory.add_fixity_data(fixity_type, digest, content_path)
 
     def delete(self, logical_path):
         """Delete a logical path from this new version.
diff --git a/ocfl/object.py b/ocfl/object.py
index ea26da4..dcc557d 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -13,7 +13,7 @@ import re
 import logging
 
 from .constants import INVENTORY_FILENAME, DEFAULT_SPEC_VERSION, DEFAULT_CONTENT_DIRECTORY
-from .digest import file_digest
+from .digest import file_digest, digest_regex
 from .inventory import Inventory, InventoryException
 from .inventory_validator import InventoryValidator
 from .new_version import NewVersion
@@ -499,11 +499,17 @@ class Object():  # pylint: disable=too-many-public-methods
         else:
             # Fixity to be stored is explicit, may be a change
             fixity = set(fixity)
+            for digest_type in fixity.difference(old_fixity):
+                digest_regex(digest_type)  # ValueError if not supported
             if fixity != old_fixity:
                 for digest in old_fixity.difference(fixity):
                     inventory.fixity.pop(digest)
-                for digest in fixity.difference(old_fixity):
-                    logging.info("FIXME - need to add fixity with digest %s", digest)
+                for digest_type in sorted(fixity.difference(old_fixity)):
+                    inventory.add_fixity_type(digest_type)
+                    for content_path in inventory.content_paths:
+                        inventory.add_fixity_data(digest_type,
+                                                  file_digest(content_path, digest_type, fs=self.obj_fs),
+                                                  content_path)
         if fixity != old_fixity:
             logging.info("New version will have %s instead of %s fixity",
                          ",".join(sorted(fixity)), ",".join(sorted(old_fixity)))
-- 
2.43.0


From 871a10c3a36d21a20c5d8deaa054ba95cad210c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:24 +0000
Subject: [PATCH 25/82] fix: refuse invalid or conflicting logical and content
 paths in a new version

---
 ocfl/new_version.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index b07f6fe..f646b59 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -284,6 +284,23 @@ class NewVersion():
             vfilepath = make_unused_filepath(vfilepath, used)
         return vfilepath
 
+    @staticmethod
+    def _path_ok(path, existing):
+        """Check that a logical or content path is valid and may be used along with existing paths.
+
+        Arguments:
+            path (str): path to check
+            existing (list of str): paths already in use
+
+        Returns:
+            bool: False if any path element is empty, . or .., or if path or one
+                of the existing paths would have to be both a file and a
+                directory
+        """
+        if any(element in ("", ".", "..") for element in path.split("/")):
+            return False
+        return not any(other.startswith(path + "/") or path.startswith(other + "/") for other in existing)
+
     def add(self, src_path, logical_path, content_path=None, src_path_has_prefix=False):  # pylint: disable=unused-argument
         """Add a file to the new version.
 
@@ -316,10 +333,16 @@ class NewVersion():
         elif content_path in inventory.content_paths:
             raise NewVersionException("Bad content path %s, already exists!"
                                       % (content_path))
+        elif not self._path_ok(content_path, inventory.content_paths):
+            raise NewVersionException("Bad content path %s, includes invalid element or conflicts with an existing path"
+                                      % (content_path))
         logging.debug("add(%s %s %s)", src_path, content_path, logical_path)
         # Does this logical path already exist?
         if logical_path in inventory.current_version.logical_paths:
             raise NewVersionException("Logical path %s already exists in new version %s" % (logical_path, inventory.head))
+        if not self._path_ok(logical_path, inventory.current_version.logical_paths):
+            raise NewVersionException("Bad logical path %s, includes invalid element or conflicts with an existing path in new version %s"
+                                      % (logical_path, inventory.head))
         # Work out digest, add to state
         digest = file_digest(src_path, inventory.digest_algorithm, fs=self.src_fs)
         if digest in inventory.current_version.state_add_if_not_present():
@@ -407,6 +430,10 @@ class NewVersion():
         digest = inventory.current_version.digest_for_logical_path(old_logical_path)
         if digest is None:
             raise NewVersionException("Cannot rename logical path %s that does not exist in new version %s" % (old_logical_path, inventory.head))
+        others = [path for path in inventory.current_version.logical_paths if path != old_logical_path]
+        if not self._path_ok(new_logical_path, others):
+            raise NewVersionException("Cannot rename to logical path %s, includes invalid element or conflicts with an existing path in new version %s"
+                                      % (new_logical_path, inventory.head))
         # Only the name changes, the content must remain referenced throughout
         logical_paths = inventory.current_version.state[digest]
         logical_paths.remove(old_logical_path)
-- 
2.43.0


From 4ae111414b78a2715f41e1c24c9df4852437aba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:24 +0000
Subject: [PATCH 26/82] fix: avoid content paths that are both file and
 directory

---
 ocfl/new_version.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index f646b59..0bcef6a 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -279,10 +279,19 @@ class NewVersion():
         vfilepath = os.path.join(self.inventory.head, self.content_directory, filepath)  # path relative to root, inc v#/content
         # Check we don't already have this vfilepath from many to one
         # normalization, add suffix to distinguish if necessary
-        used = self.inventory.content_paths
-        if vfilepath in used:
-            vfilepath = make_unused_filepath(vfilepath, used)
-        return vfilepath
+        used = set(self.inventory.content_paths)
+        used_dirs = set()
+        for path in used:
+            while "/" in path:
+                path = os.path.dirname(path)
+                used_dirs.add(path)
+        # No directory may have the same path as a file we already have...
+        elements = vfilepath.split("/")
+        for i in range(3, len(elements)):
+            dirpath = "/".join(elements[:i])
+            elements[i - 1] = os.path.basename(make_unused_filepath(dirpath, used))
+        # ...and no file may have the same path as a file or directory we already have
+        return make_unused_filepath("/".join(elements), used | used_dirs)
 
     @staticmethod
     def _path_ok(path, existing):
-- 
2.43.0


From e4c5d92e66933cf399b6f485676d579bae707ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:37 +0000
Subject: [PATCH 27/82] fix: consider only files as Namaste declarations and do
 not raise for unreadable ones

---
 ocfl/namaste.py      | 16 ++++++++++------
 ocfl/object_utils.py |  3 ++-
 ocfl/storage_root.py |  3 ++-
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/ocfl/namaste.py b/ocfl/namaste.py
index 3731959..865cbe8 100644
--- a/ocfl/namaste.py
+++ b/ocfl/namaste.py
@@ -43,10 +43,11 @@ def find_namastes(d, dir="", fsw=None, limit=10):
     prefix = str(d) + "="
     if fsw is not None:
         # fsw.listdir include dir path in results
-        filenames = fsw_listdir_names(fsw, dir)
+        filenames = [f for f in fsw_listdir_names(fsw, dir)
+                     if f.startswith(prefix) and not fsw.isdir(os.path.join(dir, f))]
     else:
-        filenames = os.listdir(dir)
-    filenames = [f for f in filenames if f.startswith(prefix)]
+        filenames = [f for f in os.listdir(dir)
+                     if f.startswith(prefix) and not os.path.isdir(os.path.join(dir, f))]
     if len(filenames) > limit:
         raise NamasteException("Found too many Namaste files with tag %s in %s" % (d, dir))
     return [Namaste(d, tvalue=filename[len(prefix):]) for filename in sorted(filenames)]
@@ -122,13 +123,16 @@ class Namaste():
         if fsw is not None:
             try:
                 content = fsw.read_text(filepath)
-            except FileNotFoundError:
+            except (FileNotFoundError, UnicodeDecodeError):
                 raise NamasteException("Namaste file %s cannot be read!" % (filepath))
         else:
             if not os.path.isfile(filepath):
                 raise NamasteException("Namaste file %s does not exist!" % (filepath))
-            with open(filepath, "r", encoding="utf-8") as fh:
-                content = fh.read()
+            try:
+                with open(filepath, "r", encoding="utf-8") as fh:
+                    content = fh.read()
+            except UnicodeDecodeError:
+                raise NamasteException("Namaste file %s cannot be read!" % (filepath))
         if self.tvalue != self._tr_func(content):
             raise NamasteException("Content of Namaste file %s doesn't match tvalue %s" % (filepath, self.tvalue))
 
diff --git a/ocfl/object_utils.py b/ocfl/object_utils.py
index dfc98ed..4d9df94 100755
--- a/ocfl/object_utils.py
+++ b/ocfl/object_utils.py
@@ -2,6 +2,7 @@
 """Utility functions to support the OCFL Object library."""
 import os.path
 import re
+import sys
 
 from ._version import __version__
 from .namaste import find_namastes
@@ -144,7 +145,7 @@ def find_path_type(path):
         if fsw.isdir(filename):
             return "directory that could not be opened as a filesystem, this should not happen"  # pragma: no cover
         return "file"
-    namastes = find_namastes(0, fsw=fsw)
+    namastes = find_namastes(0, fsw=fsw, limit=sys.maxsize)
     if len(namastes) == 0:
         return "no 0= declaration file"
     # Look at the first 0= Namaste file that is of OCFL form to determine type, if there are
diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 1981318..bf86095 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -7,6 +7,7 @@ import json
 import logging
 import os.path
 import re
+import sys
 
 from .constants import DEFAULT_SPEC_VERSION, SPEC_VERSIONS_SUPPORTED
 from .namaste import find_namastes, Namaste
@@ -233,7 +234,7 @@ class StorageRoot():
         Assumes that self.root_fs filesystem is available to read from.
         """
         # Storage root declaration
-        namastes = find_namastes(0, fsw=self.root_fs)
+        namastes = find_namastes(0, fsw=self.root_fs, limit=sys.maxsize)
         if len(namastes) == 0:
             raise StorageRootException("E069a", root=self.root)
         if len(namastes) > 1:
-- 
2.43.0


From 6d6a46c301f93a958fc46e877ad5fe4b6638d44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 28/82] fix: register tuple tree layout under the name that it
 writes, use LayoutException

---
 ocfl/layout_registry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocfl/layout_registry.py b/ocfl/layout_registry.py
index 52b7ee6..9f1b58c 100644
--- a/ocfl/layout_registry.py
+++ b/ocfl/layout_registry.py
@@ -8,6 +8,7 @@ does not include information about which layouts are officially registered
 as OCFL Community Extensions https://ocfl.github.io/extensions/
 """
 
+from .layout import LayoutException
 from .layout_0002_flat_direct import Layout_0002_Flat_Direct
 from .layout_0003_hash_and_id_n_tuple import Layout_0003_Hash_And_Id_N_Tuple
 from .layout_nnnn_flat_quoted import Layout_NNNN_Flat_Quoted
@@ -38,10 +39,10 @@ def get_layout(name):
         instance of layout class
 
     Raises:
-        Exception: if layout is not supported
+        LayoutException: if layout is not supported
     """
     if name not in _layout_registry:
-        raise Exception("Unknown layout name (%s)" % (name))
+        raise LayoutException("Unknown layout name (%s)" % (name))
     return _layout_registry[name]()
 
 
@@ -65,5 +66,6 @@ add_layout("0003-hash-and-id-n-tuple-storage-layout", Layout_0003_Hash_And_Id_N_
 add_layout("0003", Layout_0003_Hash_And_Id_N_Tuple)
 add_layout("nnnn-flat-quoted-storage-layout", Layout_NNNN_Flat_Quoted)
 add_layout("flat-quoted", Layout_NNNN_Flat_Quoted)
+add_layout("nnnn-tuple-tree-layout", Layout_NNNN_Tuple_Tree)
 add_layout("nnnn-tuple-tree", Layout_NNNN_Tuple_Tree)
 add_layout("nnnn-uuid-quadtree", Layout_NNNN_UUID_Quadtree)
-- 
2.43.0


From e468e0b23944fa3b13169abc02da44d518af1bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 29/82] fix: match whole identifier and raise LayoutException
 in UUID quadtree layout

---
 ocfl/layout_nnnn_uuid_quadtree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/layout_nnnn_uuid_quadtree.py b/ocfl/layout_nnnn_uuid_quadtree.py
index 7139738..6f1e440 100644
--- a/ocfl/layout_nnnn_uuid_quadtree.py
+++ b/ocfl/layout_nnnn_uuid_quadtree.py
@@ -83,9 +83,9 @@ class Layout_NNNN_UUID_Quadtree(Layout):
         if identifier.startswith(self.prefix):
             identifier = identifier[len(self.prefix):]
         else:
-            raise Exception("UUIDQuadtree identifier %s does not start with prefix %s" % (identifier, self.prefix))
-        match = re.match(r"""([\da-f]{4})([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})([\da-f]{4})([\da-f]{4})$""", identifier)
+            raise LayoutException("UUIDQuadtree identifier %s does not start with prefix %s" % (identifier, self.prefix))
+        match = re.fullmatch(r"""([0-9a-f]{4})([0-9a-f]{4})\-([0-9a-f]{4})\-([0-9a-f]{4})\-([0-9a-f]{4})\-([0-9a-f]{4})([0-9a-f]{4})([0-9a-f]{4})""", identifier)
         if not match:
-            raise Exception("UUIDQuadtree identifier %s not valid" % (identifier))
+            raise LayoutException("UUIDQuadtree identifier %s not valid" % (identifier))
         return os.path.join(match.group(1), match.group(2), match.group(3), match.group(4),
                             match.group(5), match.group(6), match.group(7), match.group(8))
-- 
2.43.0


From 4bc3d38b4e41150e4bb3b0a06d629e270298dbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 30/82] fix: refuse identifiers without a safe directory name
 in flat quoted and 0003 layouts

---
 ocfl/layout_0003_hash_and_id_n_tuple.py | 6 ++++++
 ocfl/layout_nnnn_flat_quoted.py         | 5 +++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ocfl/layout_0003_hash_and_id_n_tuple.py b/ocfl/layout_0003_hash_and_id_n_tuple.py
index 8fdbd78..5c0211d 100644
--- a/ocfl/layout_0003_hash_and_id_n_tuple.py
+++ b/ocfl/layout_0003_hash_and_id_n_tuple.py
@@ -183,7 +183,13 @@ class Layout_0003_Hash_And_Id_N_Tuple(Layout):
             then it is tuncated at 100 characters and then "-" and the digest
             appended (so it would be 165 chars with sha256).
         6. The encapsulation directory name is joined to the end of the path.
+
+        Raises:
+            LayoutException: if the identifier is blank as then there would be no
+                encapsulation directory name
         """
+        if identifier == "":
+            raise LayoutException("Identifier '%s' unsafe for %s layout" % (identifier, self.NAME))
         return _id_to_path(identifier=identifier,
                            digest_algorithm=self.digest_algorithm,
                            tuple_size=self.tuple_size,
diff --git a/ocfl/layout_nnnn_flat_quoted.py b/ocfl/layout_nnnn_flat_quoted.py
index 3b1c92a..19cd580 100644
--- a/ocfl/layout_nnnn_flat_quoted.py
+++ b/ocfl/layout_nnnn_flat_quoted.py
@@ -23,12 +23,13 @@ class Layout_NNNN_Flat_Quoted(Layout):
 
         Raises:
             LayoutException: if the identifier cannot be converted to a valid
-            object path. Currently just a check for blank
+            object path. Identifiers that are blank, '.' or '..' have no
+            safe encoding
 
         Uses Layout.encode() to generate a safe directory name from any
         identifier. Length is not checked but could cause operating system
         errors.
         """
-        if identifier == "":
+        if identifier in ("", ".", ".."):
             raise LayoutException("Identifier '%s' unsafe for %s layout" % (identifier, self.NAME))
         return self.encode(identifier)
-- 
2.43.0


From 2cc078f5b545072b77f5df5a9ed50603b9cd4475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 31/82] fix: handle layouts without parameters and non-object
 config, and root name prefixes

---
 ocfl/layout.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocfl/layout.py b/ocfl/layout.py
index 28d5ab4..9d575ad 100644
--- a/ocfl/layout.py
+++ b/ocfl/layout.py
@@ -94,7 +94,7 @@ class Layout:
                 root cannot be stripped from it
         """
         root = root.rstrip(os.sep)  # ditch any trailing path separator
-        if os.path.commonprefix((path, root)) == root:
+        if root == "" or path == root or path.startswith(root + os.sep):
             return os.path.relpath(path, start=root)
         raise LayoutException("Path %s is not in root %s" % (path, root))
 
@@ -196,6 +196,8 @@ class Layout:
         Finally, the check_full_config method is called to check anything that
         might required all of the configuration to be known.
         """
+        if not isinstance(config, dict):
+            raise LayoutException("Storage root extension config is not a JSON object")
         # Check the extensionName if required and/or specified
         if "extensionName" not in config:
             if require_extension_name:
@@ -203,7 +205,7 @@ class Layout:
         elif config.get("extensionName") != self.NAME:
             raise LayoutException("Storage root extension config extensionName is %s, expected %s" % (config.get("extensionName"), self.NAME))
         # Read and check the parameters (ignore any extra params)
-        for key, method in self.PARAMS.items():
+        for key, method in (self.PARAMS or {}).items():
             method(config.get(key))
         # Finally, check full config
         self.check_full_config()
-- 
2.43.0


From 634914c3a44b0619969976189affd563a59a705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 32/82] fix: match whole object declaration name when
 traversing storage root, list roots with unregistered extensions

---
 ocfl/storage_root.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index bf86095..6ea1698 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -322,7 +322,7 @@ class StorageRoot():
                     self.traversal_error("E003d", path=dirpath)
                 elif len(zero_eqs) == 1:
                     declaration = zero_eqs[0]
-                    match = re.match(r"""0=ocfl_object_(\d+\.\d+)""", declaration)
+                    match = re.fullmatch(r"""0=ocfl_object_(\d+\.\d+)""", declaration)
                     if match and match.group(1) in SPEC_VERSIONS_SUPPORTED:
                         yield dirpath.lstrip("/")
                     elif match:
@@ -352,7 +352,10 @@ class StorageRoot():
             name = entry["name"]
             if entry["type"] == "directory":
                 if os.path.relpath(name, "extensions") not in self.registered_extensions:
-                    self.log.warning("W901", entry=name)  # FIXME - No good warning code in spec
+                    if self.log is None:  # Not in validator context
+                        logging.warning("Unregistered extension directory %s", name)
+                    else:
+                        self.log.warning("W901", entry=name)  # FIXME - No good warning code in spec
             else:
                 self.traversal_error("E086", entry=name)
 
-- 
2.43.0


From 3cc5d098d5fe3556d2f1d8c4c2e7ab9041562a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:06 +0000
Subject: [PATCH 33/82] fix: storage root with invalid objects is not valid,
 reset counts for each validation

---
 ocfl/storage_root.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 6ea1698..379b125 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -447,6 +447,7 @@ class StorageRoot():
             - self.log: ValidationLogger object with any traversal errors
         """
         valid = True
+        self.num_objects, self.good_objects, self.errors = 0, 0, []
         self.log = ValidationLogger(log_warnings=log_warnings, log_errors=log_errors, lang=lang)
         self.open_root_fs()
         try:
@@ -456,9 +457,12 @@ class StorageRoot():
             self.log.error(e.code, **e.kwargs)
             return False
         self.log.spec_version = self.spec_version
+        self.num_traversal_errors = 0
         self.num_objects, self.good_objects, self.errors = self.validate_hierarchy(validate_objects=validate_objects, check_digests=check_digests, log_warnings=log_warnings, max_errors=max_errors)
         if self.num_traversal_errors > 0:
             valid = False
+        if validate_objects and self.good_objects < self.num_objects:
+            valid = False
         return valid
 
     def add(self, object_path):
-- 
2.43.0


From 4c7b4941d04f15b49f503dee03368162fb0fd328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:42 +0000
Subject: [PATCH 34/82] fix: use the layout declared by the storage root and
 report layout errors as storage root errors

---
 ocfl/data/validation-errors.json |  6 ++++++
 ocfl/storage_root.py             | 31 +++++++++++++++++++++++++------
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/ocfl/data/validation-errors.json b/ocfl/data/validation-errors.json
index 8a85145..85c5a84 100644
--- a/ocfl/data/validation-errors.json
+++ b/ocfl/data/validation-errors.json
@@ -554,6 +554,12 @@
       "en": "OCFL Storage Root %s includes ocfl_layout.json with unknown layout %s"
     }
   },
+  "E071b": {
+    "params": ["root", "layout_name", "message"],
+    "description": {
+      "en": "OCFL Storage Root %s has bad configuration for layout %s (%s)"
+    }
+  },
   "E072": {
     "params": ["path"],
     "description": {
diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 379b125..86506ea 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -17,6 +17,7 @@ from .validator import Validator
 from .validation_logger import ValidationLogger
 
 # Specific layouts
+from .layout import LayoutException
 from .layout_registry import get_layout, layout_is_supported
 
 
@@ -134,9 +135,15 @@ class StorageRoot():
 
         Lazily initialized. Will return either a valid layout name or None
         if the layout is not set.
+
+        Raises:
+            StorageRootException: if the layout set is not supported
         """
         if not self._layout and self.layout_name is not None:
-            self._layout = get_layout(self.layout_name)
+            try:
+                self._layout = get_layout(self.layout_name)
+            except LayoutException as e:
+                raise StorageRootException(str(e))
         return self._layout
 
     def traversal_error(self, code, **kwargs):
@@ -173,7 +180,12 @@ class StorageRoot():
         if self.layout is None:
             self.open_root_fs()
             self.check_root_structure()
-        return self.layout.identifier_to_path(identifier)
+            if self.layout is None:
+                raise StorageRootException("No layout specified or declared for OCFL storage root %s" % (self.root))
+        try:
+            return self.layout.identifier_to_path(identifier)
+        except LayoutException as e:
+            raise StorageRootException(str(e))
 
     def initialize(self, spec_version=None, layout_params=None):
         """Create and initialize a new OCFL Storage Root.
@@ -192,13 +204,16 @@ class StorageRoot():
             # Parse as JSON
             try:
                 config = json.loads(layout_params)
+                self.layout.check_and_set_layout_params(config=config, require_extension_name=False)
             except Exception as e:
                 raise StorageRootException("Bad layout params supplied: %s" % (str(e)))
-            self.layout.check_and_set_layout_params(config=config, require_extension_name=False)
         self.check_spec_version(spec_version=spec_version)
         # Now create the storage root
         (parent, root_dir) = os.path.split(self.root)
-        parent_fs = fsw_openfs(parent)
+        try:
+            parent_fs = fsw_openfs(parent)
+        except FileNotFoundError as e:
+            raise StorageRootException("Failed to open parent of OCFL storage root %s (%s)" % (self.root, str(e)))
         if parent_fs.exists(root_dir):
             raise StorageRootException("OCFL storage root %s already exists, aborting!" % (self.root))
         parent_fs.makedir(root_dir)
@@ -248,7 +263,7 @@ class StorageRoot():
             raise StorageRootException("E069c", root=self.root,
                                        namaste_file=namastes[0].filename)
         if self.spec_version is not None and self.spec_version != spec_version:
-            raise StorageRootException("E069c", root=self.root,
+            raise StorageRootException("E069d", root=self.root,
                                        declared_spec_version=spec_version,
                                        expected_spec_version=self.spec_version)
         self.spec_version = spec_version
@@ -258,6 +273,7 @@ class StorageRoot():
         # Layout file (if present)
         if self.root_fs.exists(self.layout_file):
             self.layout_name, self.layout_description = self.parse_layout_file()
+            self._layout = None  # Layout file overrides any layout set before
             if not layout_is_supported(self.layout_name):
                 raise StorageRootException("E071", root=self.root, layout_name=self.layout_name)
             if self.layout.NAME == self.layout_name:
@@ -265,7 +281,10 @@ class StorageRoot():
             else:
                 logging.warning("Non-canonical layout name %s, should be %s", self.layout_name, self.layout.NAME)
             # Is there a corresponding extensions dir with params in config.json?
-            self.layout.read_layout_params(root_fs=self.root_fs)
+            try:
+                self.layout.read_layout_params(root_fs=self.root_fs)
+            except LayoutException as e:
+                raise StorageRootException("E071b", root=self.root, layout_name=self.layout_name, message=str(e))
         # Other files are allowed...
         return True
 
-- 
2.43.0


From 7931f6ba3ee1d9fd5f78e1d1f9d3934ab7398c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:39 +0000
Subject: [PATCH 35/82] fix: do not add objects where or at versions a storage
 root does not allow, honour lax_digests

---
 ocfl/storage_root.py | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 86506ea..8698ec7 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -11,7 +11,9 @@ import sys
 
 from .constants import DEFAULT_SPEC_VERSION, SPEC_VERSIONS_SUPPORTED
 from .namaste import find_namastes, Namaste
+from .inventory import InventoryException
 from .object import Object
+from .object_utils import ObjectException
 from .fsw import fsw_openfs, fsw_walk, fsw_opendir_as_fs, fsw_copydir
 from .validator import Validator
 from .validation_logger import ValidationLogger
@@ -21,6 +23,11 @@ from .layout import LayoutException
 from .layout_registry import get_layout, layout_is_supported
 
 
+def spec_version_key(spec_version):
+    """Key to order specification versions such as 1.0, 1.1."""
+    return [int(n) for n in spec_version.split(".")]
+
+
 class StorageRootException(Exception):
     """Exception class for OCFL Storage Root."""
 
@@ -394,7 +401,7 @@ class StorageRoot():
         for dirpath in self.object_paths():
             obj_fs = fsw_opendir_as_fs(fs=self.root_fs, path=dirpath)
             # Parse inventory to extract id
-            identifier = Object(obj_fs=obj_fs).id_from_inventory()
+            identifier = Object(obj_fs=obj_fs, lax_digests=self.lax_digests).id_from_inventory()
             self.num_objects += 1
             yield (dirpath, identifier)
             # FIXME - maybe do some more stuff in here
@@ -484,6 +491,24 @@ class StorageRoot():
             valid = False
         return valid
 
+    def check_object_location(self, path):
+        """Check that an object may be placed at path in this OCFL Storage Root.
+
+        Arguments:
+            path (str): path for the object, relative to the storage root
+
+        Raises:
+            StorageRootException: if the location is within the extensions
+                directory, or if it is inside another object
+        """
+        segments = path.split("/")
+        if segments[0] in ("extensions", self.layout_file):
+            raise StorageRootException("Add object failed because destination path %s is reserved" % (path))
+        for n in range(1, len(segments)):
+            parent = "/".join(segments[:n])
+            if self.root_fs.isfile(parent) or (self.root_fs.isdir(parent) and find_namastes(0, dir=parent, fsw=self.root_fs, limit=sys.maxsize)):
+                raise StorageRootException("Add object failed because destination path %s is inside existing object or file %s" % (path, parent))
+
     def add(self, object_path):
         """Add pre-constructed object from object_path.
 
@@ -499,11 +524,17 @@ class StorageRoot():
         self.open_root_fs()
         self.check_root_structure()
         # Sanity check
-        o = Object(path=object_path)
-        inventory = o.parse_inventory()
+        try:
+            o = Object(path=object_path, lax_digests=self.lax_digests)
+            inventory = o.parse_inventory()
+        except (ObjectException, InventoryException, OSError, ValueError) as e:
+            raise StorageRootException("Add object failed because no valid object could be read from %s (%s)" % (object_path, str(e)))
         identifier = inventory.id
+        if spec_version_key(o.spec_version) > spec_version_key(self.spec_version):
+            raise StorageRootException("Add object failed because object specification version %s is higher than %s of storage root" % (o.spec_version, self.spec_version))
         # Now copy
         path = self.object_path(identifier)
+        self.check_object_location(path)
         if self.root_fs.exists(path):
             raise StorageRootException("Add object failed because destination path %s already exists" % (path))
         logging.debug("Copying from %s to %s", object_path, os.path.join(self.root, path))
-- 
2.43.0


From c672e2798ba525c4e61da0793640d41f17c7b132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:16 +0000
Subject: [PATCH 36/82] fix: report objects with higher specification version
 than their storage root (E081)

---
 ocfl/data/validation-errors.json | 6 ++++++
 ocfl/storage_root.py             | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ocfl/data/validation-errors.json b/ocfl/data/validation-errors.json
index 85c5a84..c983bca 100644
--- a/ocfl/data/validation-errors.json
+++ b/ocfl/data/validation-errors.json
@@ -572,6 +572,12 @@
        "en": "OCFL storage root hierarchy contains an empty directory: %s"
     }
   },
+  "E081": {
+    "params": ["path", "object_version", "root_version"],
+    "description": {
+      "en": "OCFL Object at %s declares specification version %s which is higher than version %s of the OCFL Storage Root"
+    }
+  },
   "E086": {
     "params": ["entry"],
     "description": {
diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 8698ec7..97d0e2e 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -350,6 +350,8 @@ class StorageRoot():
                     declaration = zero_eqs[0]
                     match = re.fullmatch(r"""0=ocfl_object_(\d+\.\d+)""", declaration)
                     if match and match.group(1) in SPEC_VERSIONS_SUPPORTED:
+                        if self.spec_version is not None and spec_version_key(match.group(1)) > spec_version_key(self.spec_version):
+                            self.traversal_error("E081", path=dirpath, object_version=match.group(1), root_version=self.spec_version)
                         yield dirpath.lstrip("/")
                     elif match:
                         self.traversal_error("E004a", path=dirpath, version=match.group(1))
@@ -432,8 +434,6 @@ class StorageRoot():
                 validator = Validator(check_digests=check_digests,
                                       lax_digests=self.lax_digests,
                                       log_warnings=log_warnings)
-                # FIXME - Should check that all objest are not higher spec
-                # version that storage root https://ocfl.io/1.1/spec/#E081
                 if validator.validate_object(fsw_opendir_as_fs(fs=self.root_fs, path=dirpath)):
                     good_objects += 1
                 else:
-- 
2.43.0


From 26f259b2577d53c32f35a87c0f5016c2b1e6d45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:15 +0000
Subject: [PATCH 37/82] fix: ocfl-sidecar.py uses digest algorithm of inventory

---
 ocfl-sidecar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl-sidecar.py b/ocfl-sidecar.py
index 1d6e4ed..6327389 100755
--- a/ocfl-sidecar.py
+++ b/ocfl-sidecar.py
@@ -46,7 +46,7 @@ def create_sidecar(args, directory):
             obj.digest_algorithm = args.digest
         else:  # Read inventory in the hope of setting digest_algoritm
             try:
-                obj.parse_inventory()
+                obj.digest_algorithm = obj.parse_inventory().digest_algorithm
             except ocfl.ObjectException as e:
                 logging.warning("Failed to read inventory in directory %s (%s)", directory, e)
         sidecar = obj.write_inventory_sidecar()
-- 
2.43.0


From 4ec7e9828cc815c7856ecf43d4fadf75180a6d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:15 +0000
Subject: [PATCH 38/82] fix: ocfl-validate.py shows validation results for
 storage roots

---
 ocfl-validate.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ocfl-validate.py b/ocfl-validate.py
index cb055b9..4fb58c1 100755
--- a/ocfl-validate.py
+++ b/ocfl-validate.py
@@ -74,9 +74,17 @@ def do_validation(args):
             logging.debug("Validating OCFL Storage Root at %s", path)
             store = ocfl.StorageRoot(root=path,
                                      lax_digests=args.lax_digests)
-            if store.validate(log_warnings=log_warnings,
-                              log_errors=log_errors,
-                              check_digests=not args.no_check_digests):
+            passed = store.validate(log_warnings=log_warnings,
+                                    log_errors=log_errors,
+                                    check_digests=not args.no_check_digests)
+            if log_errors:
+                for (dirpath, messages) in store.errors:
+                    print(dirpath)
+                    print(messages)
+            if str(store.log) != "":
+                print(str(store.log))
+            print("OCFL Storage Root at %s is %s" % (path, "VALID" if passed else "INVALID"))
+            if passed:
                 num_good += 1
         elif path_type == "file":
             logging.debug("Validating separate OCFL Inventory at %s", path)
-- 
2.43.0


From c204c18f95ceeebc1e0b3b6b1d911fbc589dd3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:15 +0000
Subject: [PATCH 39/82] fix: ocfl-object.py validate exits with failure status
 for an invalid object

---
 ocfl-object.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ocfl-object.py b/ocfl-object.py
index 5fefeaf..d7f49b4 100755
--- a/ocfl-object.py
+++ b/ocfl-object.py
@@ -128,7 +128,10 @@ def print_inventory(inventory):
 
 
 def do_object_operation(args):
-    """Implement object operations in a way that can be reused by ocfl-root.py."""
+    """Implement object operations in a way that can be reused by ocfl-root.py.
+
+    Returns True on success, False if validation showed the object to be invalid.
+    """
     obj = ocfl.Object(identifier=args.id,
                       spec_version=args.spec_version,
                       digest_algorithm=args.digest,
@@ -191,7 +194,7 @@ def do_object_operation(args):
         print("Object tree" + (" for %s" % (obj.id) if obj.id is not None else ""))
         print(obj.tree(objdir=args.objdir))
     elif args.cmd == "validate":
-        validate_object(obj, objdir=args.objdir)
+        return validate_object(obj, objdir=args.objdir)
     elif args.cmd == "extract":
         if args.logical_path:
             if args.dstbag:
@@ -215,12 +218,15 @@ def do_object_operation(args):
                 print("Extracted content for %s saved as Bagit bag in %s" % (metadata.version, dst))
     else:
         logging.error("Unrecognized command!")
+    return True
 
 
 if __name__ == "__main__":
     try:
         aargs = parse_arguments()
-        do_object_operation(aargs)
+        ok = do_object_operation(aargs)
     except (FatalError, ocfl.ObjectException) as e:
         logging.error(str(e))
         sys.exit(1)
+    if not ok:
+        sys.exit(1)
-- 
2.43.0


From ef065cc584761049dd6a806e36d9593a0a5368e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:15 +0000
Subject: [PATCH 40/82] fix: ocfl-root.py show and validate-object use object
 in the root, exit status and max_errors

---
 ocfl-root.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/ocfl-root.py b/ocfl-root.py
index 810b33d..a34f843 100755
--- a/ocfl-root.py
+++ b/ocfl-root.py
@@ -7,7 +7,7 @@ import sys
 
 import ocfl  # pylint: disable=import-self; this isn"t actually self import
 from ocfl.command_line_utils import add_version_arg, add_verbosity_args, \
-    check_version_arg, check_verbosity_args
+    check_version_arg, check_verbosity_args, validate_object
 from ocfl.constants import DEFAULT_SPEC_VERSION
 
 
@@ -58,7 +58,7 @@ def parse_arguments():
                                  help="validate each object in the storage root (MAY TAKE TIME)")
     validate_parser.add_argument("--check-digests", action="store_true", default=False,
                                  help="if validating each object, also check all digest (MAY TAKE LOTS OF TIME)")
-    validate_parser.add_argument("--max_errors", default=100,
+    validate_parser.add_argument("--max_errors", type=int, default=100,
                                  help="maximum number of errors to record/show")
 
     add_parser = subparsers.add_parser("add", help="Add object at --src to the storage root")
@@ -88,6 +88,7 @@ def parse_arguments():
                              help="identifier of object")
 
     validate_object_parser = subparsers.add_parser("validate-object", help="Validate an OCFL object")
+    add_common_args(validate_object_parser)
     validate_object_parser.add_argument("--id", default=None,
                                         help="identifier of object")
 
@@ -107,6 +108,8 @@ def validate(store, args):
       validate_objects - True to validate each object in tree
       check_digests - True to check all digests for each object
       max_error - Maximum number of error to show
+
+    Returns True if everything checked is valid, False otherwise.
     """
     valid = store.validate(log_warnings=not args.quiet,
                            validate_objects=args.validate_objects,
@@ -128,6 +131,7 @@ def validate(store, args):
         print("Storage root %s is VALID" % (store.root))
     else:
         print("Storage root %s is INVALID" % (store.root))
+    return valid
 
 
 def get_storage_root(args):
@@ -145,7 +149,10 @@ def get_storage_root(args):
 
 
 def do_store_operation(args):
-    """Do operation on store based on args."""
+    """Do operation on store based on args.
+
+    Returns True on success, False if validation showed something invalid.
+    """
     store = ocfl.StorageRoot(root=get_storage_root(args),
                              layout_name=args.layout,
                              lax_digests=args.lax_digests)
@@ -157,15 +164,15 @@ def do_store_operation(args):
             print("%s -- id=%s" % (dirpath, identifier))
         print("Found %d OCFL Objects under root %s" % (store.num_objects, store.root))
     elif args.cmd == "validate":
-        validate(store, args)
+        return validate(store, args)
     elif args.cmd == "add":
         if not args.src:
             raise ocfl.StorageRootException("Must specify object path with --src")
         (identifier, path) = store.add(object_path=args.src)
         print("Added object %s at path %s" % (identifier, path))
     elif args.cmd == "purge":
-        logging.error("purge not implemented")
-    elif args.cmd in ("show", "path", "validate_object"):
+        raise ocfl.StorageRootException("purge not implemented")
+    elif args.cmd in ("show", "path", "validate-object"):
         if not args.id:
             raise ocfl.StorageRootException("Must specify id to act on an object in the store")
         objdir = store.object_path(args.id)
@@ -176,19 +183,23 @@ def do_store_operation(args):
             else:
                 print("Path to %s inside root %s is %s" % (args.id, store.root, objdir))
         else:
-            obj = ocfl.Object(identifier=args.id)
+            objdir = os.path.join(store.root, objdir)
+            obj = ocfl.Object(identifier=args.id, lax_digests=args.lax_digests)
             if args.cmd == "show":
                 logging.warning("Object tree\n%s", obj.tree(objdir=objdir))
             else:
-                logging.error("validate not implemented")
+                return validate_object(obj, objdir, log_warnings=not args.quiet)
     else:
         logging.error("Unrecognized command!")
+    return True
 
 
 if __name__ == "__main__":
     try:
         aargs = parse_arguments()
-        do_store_operation(aargs)
+        ok = do_store_operation(aargs)
     except (ocfl.StorageRootException, ocfl.ObjectException) as e:
         logging.error(str(e))
         sys.exit(1)
+    if not ok:
+        sys.exit(1)
-- 
2.43.0


From 098c5c4e277f91c6eef03e339885cc95383a80d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:52 +0000
Subject: [PATCH 41/82] fix: extract_file checks logical path before creating
 destination

---
 ocfl/object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index dcc557d..15ea0d6 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -795,6 +795,8 @@ class Object():  # pylint: disable=too-many-public-methods
         exist.
         """
         inv, version = self._extract_setup(objdir, version)
+        if logical_path not in inv.version(version).logical_paths:
+            raise ObjectException("Logical path %s not found in %s" % (logical_path, version))
         # Check the destination
         try:
             dst_fs = fsw_openfs(dstdir, create=True)
@@ -818,8 +820,6 @@ class Object():  # pylint: disable=too-many-public-methods
                     break
             if copied:
                 break
-        else:
-            raise ObjectException("Logical path %s not found in %s" % (logical_path, version))
         return VersionMetadata(inventory=inv, version=version)
 
     def parse_inventory(self):
-- 
2.43.0


From 947d9044a9ed0fffb9ec23046d5a7b14f3dce2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:10 +0000
Subject: [PATCH 42/82] fix: check digest algorithm and version directories
 before creating or updating object

---
 ocfl/object.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 15ea0d6..ee45abf 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -306,13 +306,15 @@ class Object():  # pylint: disable=too-many-public-methods
         """
         if self.id is None:
             raise ObjectException("Can't build object, identifier is not set!")
-        if objdir is not None:
-            self._open_new_obj_fs(objdir)
+        digest_regex(self.digest_algorithm)  # ValueError if not supported
         num_versions = 0
         src_fs = fsw_openfs(srcdir)
+        versions = list(self.version_dirs_and_metadata(src_fs, versions_metadata))
+        if objdir is not None:
+            self._open_new_obj_fs(objdir)
         inventory = None
         # Create each version of the object
-        for (vdir, metadata) in self.version_dirs_and_metadata(src_fs, versions_metadata):
+        for (vdir, metadata) in versions:
             if vdir == "v1":
                 nv = NewVersion.first_version(srcdir=os.path.join(srcdir, vdir),
                                               identifier=self.id,
@@ -367,6 +369,7 @@ class Object():  # pylint: disable=too-many-public-methods
         """
         if self.id is None:
             raise ObjectException("Identifier is not set!")
+        digest_regex(self.digest_algorithm)  # ValueError if not supported
         if metadata is None:
             metadata = VersionMetadata()
         nv = NewVersion.first_version(srcdir=srcdir,
@@ -484,6 +487,7 @@ class Object():  # pylint: disable=too-many-public-methods
         elif digest_algorithm != old_digest_algorithm:
             logging.info("New version with use %s instead of %s digestAlgorithm",
                          digest_algorithm, old_digest_algorithm)
+            digest_regex(digest_algorithm)  # ValueError if not supported
             inventory.digest_algorithm = digest_algorithm
         # Is this a request to change the set of fixity information?
         old_fixity = set(inventory.fixity.keys())
-- 
2.43.0


From 8004350868fbeaac536afd8b6dbf0f9d3685045f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:17 +0000
Subject: [PATCH 43/82] fix: check fixity algorithms before building object

---
 ocfl/object.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index ee45abf..0908133 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -306,7 +306,8 @@ class Object():  # pylint: disable=too-many-public-methods
         """
         if self.id is None:
             raise ObjectException("Can't build object, identifier is not set!")
-        digest_regex(self.digest_algorithm)  # ValueError if not supported
+        for digest_type in [self.digest_algorithm] + list(self.fixity or []):
+            digest_regex(digest_type)  # ValueError if not supported
         num_versions = 0
         src_fs = fsw_openfs(srcdir)
         versions = list(self.version_dirs_and_metadata(src_fs, versions_metadata))
-- 
2.43.0


From 5ec95644a632f4e8429ef66f3331b58ad90f88fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:32 +0000
Subject: [PATCH 44/82] fix: check all of a content path that includes a
 newline

---
 ocfl/inventory_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 20f10ad..550a65a 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -577,7 +577,7 @@ class InventoryValidator():
         if path.startswith("/") or path.endswith("/"):
             self._error("E100", path=path)
             return False
-        m = re.match(r"""^(v\d+)/([^/]+)/(.+)""", path)
+        m = re.match(r"""^(v\d+)/([^/]+)/(.+)""", path, re.DOTALL)
         if not m:
             self._error("E042a", path=path)
             return False
-- 
2.43.0


From c2b1ad3930e838e711d02c39400238e4c2b5159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:15 +0000
Subject: [PATCH 45/82] fix: check spec version of last version even if it has
 no inventory

---
 ocfl/validator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 4232ece..771f8ab 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -334,9 +334,12 @@ class Validator():
             inv_file = os.path.join(version_dir, INVENTORY_FILENAME)
             if not self.obj_fs.exists(inv_file):
                 self.log.warning("W010", where=version_dir)
-                continue
+                if version_dir != last_version:
+                    continue
+                # Specification version of the last version is known from the root inventory
+                this_spec_version = self.spec_version
             # There is an inventory file for this version directory, check it
-            if version_dir == last_version:
+            elif version_dir == last_version:
                 # Don't validate in this case. Per the spec the inventory in the last version
                 # MUST be identical to the copy in the object root, just check that
                 root_inv_file = INVENTORY_FILENAME
-- 
2.43.0


From f041eb85866cb135a3c96f3ce377a7343fc0b358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:34 +0000
Subject: [PATCH 46/82] fix: verdict on an object does not depend on objects
 validated before

---
 ocfl/validator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 771f8ab..f2d3655 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -120,6 +120,7 @@ class Validator():
         when validating a storage root, for example.
         """
         self.initialize()
+        initial_errors = self.log.num_errors  # log might include errors for other objects
         try:
             if isinstance(path, str):
                 self.obj_fs = fsw_openfs(path)
@@ -172,7 +173,7 @@ class Validator():
                 # Type in root inventory must match the object declaration
                 self.log.error("E038a", where="root", got=inventory["type"],
                                expected="https://ocfl.io/" + declared_version + "/spec/#inventory")
-            inventory_is_valid = self.log.num_errors == 0
+            inventory_is_valid = self.log.num_errors == initial_errors
             all_versions = inv_validator.all_versions
             self.id = inv_validator.id
             self.content_directory = inv_validator.content_directory
@@ -188,7 +189,7 @@ class Validator():
                 self.validate_content(inventory, all_versions, prior_manifest_digests, prior_fixity_digests)
         except ValidatorAbortException:
             pass
-        return self.log.num_errors == 0
+        return self.log.num_errors == initial_errors
 
     def declaration_content_ok(self, namaste):
         """Return True if content of declaration file is exactly the tvalue, ignoring surrounding whitespace."""
-- 
2.43.0


From 62e2707f82b5eb2c9e01f856ba48ac870ccee980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:34 +0000
Subject: [PATCH 47/82] fix: validate_inventory reports inventory in directory
 that does not exist

---
 ocfl/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 0908133..db59210 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -709,7 +709,7 @@ class Object():  # pylint: disable=too-many-public-methods
             (inv_dir, inv_file) = os.path.split(path)
             validator.obj_fs = fsw_openfs(inv_dir, create=False)
             validator.validate_inventory(inv_file, where="standalone", force_spec_version=force_spec_version)
-        except FswException:
+        except (FswException, FileNotFoundError):
             validator.log.error("E033", where="standalone", explanation="failed to open directory")
         except ValidatorAbortException:
             pass
-- 
2.43.0


From 667649e0055dc38c4b0ff1afca0f01c6e4c1a522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:18 +0000
Subject: [PATCH 48/82] fix: Namaste file that cannot be read fails content
 check

---
 ocfl/namaste.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/namaste.py b/ocfl/namaste.py
index 865cbe8..7296049 100644
--- a/ocfl/namaste.py
+++ b/ocfl/namaste.py
@@ -123,7 +123,7 @@ class Namaste():
         if fsw is not None:
             try:
                 content = fsw.read_text(filepath)
-            except (FileNotFoundError, UnicodeDecodeError):
+            except (OSError, UnicodeDecodeError):
                 raise NamasteException("Namaste file %s cannot be read!" % (filepath))
         else:
             if not os.path.isfile(filepath):
@@ -131,7 +131,7 @@ class Namaste():
             try:
                 with open(filepath, "r", encoding="utf-8") as fh:
                     content = fh.read()
-            except UnicodeDecodeError:
+            except (OSError, UnicodeDecodeError):
                 raise NamasteException("Namaste file %s cannot be read!" % (filepath))
         if self.tvalue != self._tr_func(content):
             raise NamasteException("Content of Namaste file %s doesn't match tvalue %s" % (filepath, self.tvalue))
-- 
2.43.0


From 9290b5349c9e4da839ad03b2f3ce47f712c8430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:18 +0000
Subject: [PATCH 49/82] fix: report content file that is listed but cannot be
 read

---
 ocfl/validator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index f2d3655..11e3bf3 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -491,6 +491,11 @@ class Validator():
                                 # Algorithm allowed by lax_digests but that we cannot calculate
                                 self.log.error("E026a", where="root", digest=self.digest_algorithm)
                                 return
+                            except OSError:
+                                # Listed but cannot be read, perhaps a broken link
+                                self.log.error("E092b", where="root", content_path=filepath)
+                                files_seen.discard(filepath)
+                                continue
                             if content_digest != normalized_digest(digest, digest_type=self.digest_algorithm):
                                 self.log.error("E092a", where="root", digest_algorithm=self.digest_algorithm, digest=digest, content_path=filepath, content_digest=content_digest)
                             known_digests = {self.digest_algorithm: content_digest}
-- 
2.43.0


From a04d400506f8b170da5dedcfb43b0638c9dc4f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:09 +0000
Subject: [PATCH 50/82] fix: do not add directory without object declaration to
 storage root

---
 ocfl/storage_root.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 97d0e2e..b521d67 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -529,6 +529,9 @@ class StorageRoot():
             inventory = o.parse_inventory()
         except (ObjectException, InventoryException, OSError, ValueError) as e:
             raise StorageRootException("Add object failed because no valid object could be read from %s (%s)" % (object_path, str(e)))
+        declarations = find_namastes(0, fsw=o.obj_fs, limit=sys.maxsize)
+        if [d.filename for d in declarations] != ["0=ocfl_object_" + o.spec_version]:
+            raise StorageRootException("Add object failed because %s does not have the declaration of an OCFL v%s object" % (object_path, o.spec_version))
         identifier = inventory.id
         if spec_version_key(o.spec_version) > spec_version_key(self.spec_version):
             raise StorageRootException("Add object failed because object specification version %s is higher than %s of storage root" % (o.spec_version, self.spec_version))
-- 
2.43.0


From d0ced16ea840f9a8a8601f9edf0e2da25533b3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:11 +0000
Subject: [PATCH 51/82] fix: local helper functions accept absolute and parent
 paths

---
 ocfl/fsw.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/ocfl/fsw.py b/ocfl/fsw.py
index 672f6ba..f5b5284 100644
--- a/ocfl/fsw.py
+++ b/ocfl/fsw.py
@@ -36,17 +36,22 @@ class FswException(Exception):
     """Superclass for all exceptions generated by this module."""
 
 
-def _fsw_or_local(fs):
-    """Open local filesytem if fs not set.
+def _fsw_or_local(fs, path):
+    """Use local filesytem if fs not set.
 
     Arguments:
         fs (AbstractFileSystem): a filesystem instance else None
+        path (str): path within fs, or an absolute or relative local path if
+            fs is None
 
-    Simply returns fs= if set, else if fs is None then we open a local
-    filesystem and return that.
+    Returns:
+        tuple: (fs, path) as supplied if fs is set, else a local filesystem and
+            the absolute form of path
     """
     logging.debug("fsw -- %s", str(fs))
-    return DirFileSystem(os.getcwd(), LocalFileSystem()) if fs is None else fs
+    if fs is None:
+        return LocalFileSystem(), os.path.join(os.getcwd(), path)
+    return fs, path
 
 
 def _fsw_s3_urlparse(url_path):
@@ -206,7 +211,8 @@ def fsw_opendir_as_fs(fs, path):
     Returns:
         AbstractFileSystem: a filesystem for the new directory within fsw.
     """
-    return DirFileSystem(path=path, fs=_fsw_or_local(fs))
+    fs, path = _fsw_or_local(fs, path)
+    return DirFileSystem(path=path, fs=fs)
 
 
 def fsw_walk(fs, dir="/"):
@@ -278,7 +284,8 @@ def fsw_listdir_names(fs, path=""):
     Returns:
         list: of filenames relative to path
     """
-    fs = _fsw_or_local(fs)
+    if fs is None:
+        fs, path = fsw_opendir_as_fs(fs, path), ""
     path = path.lstrip("/")
     names = []
     for lsname in fs.listdir(path, detail=False):
@@ -303,7 +310,7 @@ def fsw_openfile(filepath, mode="rb", fs=None, **kwargs):
 
     Returns open fs filehandle.
     """
-    fs = _fsw_or_local(fs)
+    fs, filepath = _fsw_or_local(fs, filepath)
     return fs.open(filepath, mode, **kwargs)
 
 
@@ -318,7 +325,7 @@ def fsw_readtext(filepath, fs=None):
     Returns:
         str: the text contents of the file.
     """
-    fs = _fsw_or_local(fs)
+    fs, filepath = _fsw_or_local(fs, filepath)
     with fs.open(filepath, "r") as fh:
         text = fh.read()
     return text
-- 
2.43.0


From d50b62b8654b652e47eee7e2dd6dc1fc8f0fed82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:53 +0000
Subject: [PATCH 52/82] fix: fsw_copydir copies directories given with leading
 slash on every filesystem

---
 ocfl/fsw.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocfl/fsw.py b/ocfl/fsw.py
index f5b5284..dc1f35f 100644
--- a/ocfl/fsw.py
+++ b/ocfl/fsw.py
@@ -404,6 +404,9 @@ def fsw_copydir(src_fs, src_path, dst_fs, dst_path):
     but empty directories are not recreated in the destination and thus this function
     may be used with filesystems that do not support directories.
     """
+    # Not every filesystem ignores extra slashes when paths are joined
+    src_path = src_path.strip("/")
+    dst_path = dst_path.strip("/")
     if not src_fs.isdir(src_path):
         raise FswException("Source directory (%s) for copydir does not exist or is not a directory!" % (src_path))
     if dst_fs.exists(dst_path):
-- 
2.43.0


From a7769fdf8f5aedd61d8f470b59100dcb22f7da07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:56 +0000
Subject: [PATCH 53/82] fix: extract to destination given as filesystem URL

---
 ocfl/object.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index db59210..03d654c 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -757,7 +757,8 @@ class Object():  # pylint: disable=too-many-public-methods
         """
         inv, version = self._extract_setup(objdir, version)
         # Check the destination
-        (parentdir, dir) = os.path.split(os.path.normpath(dstdir))
+        # Normalize local path only as doing so would damage the :// of a filesystem URL
+        (parentdir, dir) = os.path.split(dstdir.rstrip("/") if "://" in dstdir else os.path.normpath(dstdir))
         try:
             parent_fs = fsw_openfs(parentdir)
         except FileNotFoundError as e:
-- 
2.43.0


From 55f22efedca53f4c9685c3a17661e7d8cbe29fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:17 +0000
Subject: [PATCH 54/82] fix: use first value of tags repeated in source Bagit
 bag

---
 ocfl/bagger.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocfl/bagger.py b/ocfl/bagger.py
index 94b7bb6..032768e 100644
--- a/ocfl/bagger.py
+++ b/ocfl/bagger.py
@@ -49,6 +49,10 @@ def bag_as_source(srcbag, metadata):
     bag = bagit.Bag(srcbag)
     if not bag.is_valid():
         raise BaggerError("Source Bagit bag at %s is not valid" % (srcbag))
+    # Tags may be repeated in a valid bag, use the first value
+    for tag, value in bag.info.items():
+        if isinstance(value, list):
+            bag.info[tag] = value[0]
     # Local arguments override but otherwise take metadata from bag-info.txt
     if not metadata.id and "External-Identifier" in bag.info:
         metadata.id = bag.info["External-Identifier"]
-- 
2.43.0


From e2b731fd5bcad718928a156b754127a4cf463c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:27 +0000
Subject: [PATCH 55/82] fix: bag made from an empty version is a valid bag

---
 ocfl/bagger.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ocfl/bagger.py b/ocfl/bagger.py
index 032768e..ef9d1a3 100644
--- a/ocfl/bagger.py
+++ b/ocfl/bagger.py
@@ -94,4 +94,9 @@ def bag_extracted_version(dst, metadata, set_bagging_date=False):
         tags["Bagging-Date"] = metadata.created.split("T")[0]
     # Avoid default noisy output from bagit
     logging.getLogger('bagit').setLevel(logging.ERROR)
-    bagit.make_bag(dst, bag_info=tags, checksums=["sha512"])
+    bag = bagit.make_bag(dst, bag_info=tags, checksums=["sha512"])
+    if not list(bag.manifest_files()):
+        # No manifest is written for an empty version but a bag must have one
+        with open(os.path.join(dst, "manifest-sha512.txt"), "w", encoding="utf-8"):
+            pass
+        bag.save()
-- 
2.43.0


From 5ab0b685c51d89f5d3d95b74b4eb9cf8b43813a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:51 +0000
Subject: [PATCH 56/82] fix: do not use email address from Bagit bag that has
 no contact name

---
 ocfl/bagger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocfl/bagger.py b/ocfl/bagger.py
index ef9d1a3..3910f57 100644
--- a/ocfl/bagger.py
+++ b/ocfl/bagger.py
@@ -63,7 +63,9 @@ def bag_as_source(srcbag, metadata):
     if not metadata.name and "Contact-Name" in bag.info:
         metadata.name = bag.info["Contact-Name"]
     if not metadata.address and "Contact-Email" in bag.info:
-        metadata.address = "mailto:" + bag.info["Contact-Email"]
+        # An inventory must not have a user address without a name
+        if metadata.name:
+            metadata.address = "mailto:" + bag.info["Contact-Email"]
     return os.path.join(srcbag, "data")
 
 
-- 
2.43.0


From 8fa4bba321a099110b743e5492d615ab3948df61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:56 +0000
Subject: [PATCH 57/82] fix: refuse version metadata that no valid inventory
 can hold

---
 ocfl/object.py           | 12 ++++++++++++
 ocfl/version_metadata.py | 20 +++++++++++++++++++-
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 03d654c..bd211a5 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -187,6 +187,14 @@ class Object():  # pylint: disable=too-many-public-methods
             self.fixity = None
         return inventory
 
+    def _check_metadata(self, metadata):
+        """Raise ObjectException if metadata cannot be recorded in a valid inventory."""
+        if isinstance(metadata, VersionMetadata):
+            try:
+                metadata.check()
+            except ValueError as e:
+                raise ObjectException(str(e)) from e
+
     def version_dirs_and_metadata(self, src_fs, versions_metadata=None):
         """Generate an OCFL inventory from a set of source files.
 
@@ -311,6 +319,8 @@ class Object():  # pylint: disable=too-many-public-methods
         num_versions = 0
         src_fs = fsw_openfs(srcdir)
         versions = list(self.version_dirs_and_metadata(src_fs, versions_metadata))
+        for (vdir, metadata) in versions:
+            self._check_metadata(metadata)
         if objdir is not None:
             self._open_new_obj_fs(objdir)
         inventory = None
@@ -373,6 +383,7 @@ class Object():  # pylint: disable=too-many-public-methods
         digest_regex(self.digest_algorithm)  # ValueError if not supported
         if metadata is None:
             metadata = VersionMetadata()
+        self._check_metadata(metadata)
         nv = NewVersion.first_version(srcdir=srcdir,
                                       identifier=self.id,
                                       spec_version=self.spec_version,
@@ -468,6 +479,7 @@ class Object():  # pylint: disable=too-many-public-methods
             ocfl.NewVersion: object where the new version will be built before
             finally be added with write_new_version()
         """
+        self._check_metadata(metadata)
         # Check the current object
         if objdir:
             self.open_obj_fs(objdir)
diff --git a/ocfl/version_metadata.py b/ocfl/version_metadata.py
index 7e62197..96a355c 100644
--- a/ocfl/version_metadata.py
+++ b/ocfl/version_metadata.py
@@ -1,6 +1,8 @@
 """Metadata for a specific version of an OCFL Object's content."""
+import re
+
 from .inventory import Inventory, InventoryException
-from .w3c_datetime import datetime_to_str
+from .w3c_datetime import datetime_to_str, str_to_datetime
 
 
 class VersionMetadata():
@@ -77,6 +79,22 @@ class VersionMetadata():
             if "address" in inv_version["user"]:
                 self.address = inv_version["user"]["address"]
 
+    def check(self):
+        """Check that the metadata may be recorded in a valid inventory.
+
+        Raises:
+            ValueError: if it may not
+        """
+        for value in (self.created, self.message, self.name, self.address):
+            if value is not None and not isinstance(value, str):
+                raise ValueError("Bad version metadata, not a string (%s)" % (value,))
+        if self.created:
+            str_to_datetime(self.created)  # ValueError if bad
+            if not re.search(r"""T\d\d:\d\d:\d\d.*(Z|[+-]\d\d:\d\d)$""", self.created):
+                raise ValueError("Bad created date, must have time with seconds and timezone (%s)" % (self.created))
+        if self.address is not None and self.name is None:
+            raise ValueError("Bad version metadata, user address without a user name")
+
     def as_dict(self):
         """Return dictionary object with version metedata.
 
-- 
2.43.0


From 335ec9c36090c824bd462063de2784eaf483b201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:41 +0000
Subject: [PATCH 58/82] fix: refuse to create an object with an empty
 identifier

---
 ocfl/object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index bd211a5..e645bc3 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -312,7 +312,7 @@ class Object():  # pylint: disable=too-many-public-methods
 
         See also create(...) for creating a new object with one version.
         """
-        if self.id is None:
+        if self.id is None or self.id == "":
             raise ObjectException("Can't build object, identifier is not set!")
         for digest_type in [self.digest_algorithm] + list(self.fixity or []):
             digest_regex(digest_type)  # ValueError if not supported
@@ -378,7 +378,7 @@ class Object():  # pylint: disable=too-many-public-methods
 
         See also build(...) for building a new object with multiple versions.
         """
-        if self.id is None:
+        if self.id is None or self.id == "":
             raise ObjectException("Identifier is not set!")
         digest_regex(self.digest_algorithm)  # ValueError if not supported
         if metadata is None:
-- 
2.43.0


From 6beaa3d6c23746dc6e56ea291a8c6590088b02a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:49 +0000
Subject: [PATCH 59/82] fix: refuse timestamps with non-ASCII digits or a
 trailing newline

---
 ocfl/w3c_datetime.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocfl/w3c_datetime.py b/ocfl/w3c_datetime.py
index 9cd7e9e..58688e6 100644
--- a/ocfl/w3c_datetime.py
+++ b/ocfl/w3c_datetime.py
@@ -77,6 +77,9 @@ def str_to_datetime(s, context="datetime"):
         return t
     if s == "":
         raise ValueError("Attempt to set empty %s" % (context))
+    # Only ASCII digits are permitted, and no trailing newline
+    if not s.isascii() or s.endswith("\n"):
+        raise ValueError("Bad datetime format (%s)" % s)
     # Make a date into a full datetime
     m = re.match(r"\d\d\d\d(\-\d\d(\-\d\d)?)?$", s)
     if m is not None:
-- 
2.43.0


From a345a0663913664db4300e34a92c406efd336c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:41 +0000
Subject: [PATCH 60/82] fix: match the whole declaration when classifying a
 path

---
 ocfl/object_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/object_utils.py b/ocfl/object_utils.py
index 4d9df94..0cd8806 100755
--- a/ocfl/object_utils.py
+++ b/ocfl/object_utils.py
@@ -151,7 +151,7 @@ def find_path_type(path):
     # Look at the first 0= Namaste file that is of OCFL form to determine type, if there are
     # multiple declarations this will be caught later
     for namaste in namastes:
-        m = re.match(r"""ocfl(_object)?_(\d+\.\d+)$""", namaste.tvalue)
+        m = re.match(r"""ocfl(_object)?_(\d+\.\d+)\Z""", namaste.tvalue, re.ASCII)
         if m:
             return "root" if m.group(1) is None else "object"
     return "unrecognized 0= declaration file or files (first is %s)" % (namastes[0].tvalue)
-- 
2.43.0


From c79ecb0426f6d60fb0994d64a5223db43ec4db20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:27 +0000
Subject: [PATCH 61/82] fix: refuse to create object with content directory
 name that is not allowed

---
 ocfl/object.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index e645bc3..c3ca63b 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -195,6 +195,12 @@ class Object():  # pylint: disable=too-many-public-methods
             except ValueError as e:
                 raise ObjectException(str(e)) from e
 
+    def _check_content_directory(self):
+        """Raise ObjectException if the content directory name is not one that is allowed."""
+        name = self.content_directory
+        if name is not None and (name in ("", ".", "..") or "/" in name):
+            raise ObjectException("Bad content directory name '%s'" % (self.content_directory))
+
     def version_dirs_and_metadata(self, src_fs, versions_metadata=None):
         """Generate an OCFL inventory from a set of source files.
 
@@ -316,6 +322,7 @@ class Object():  # pylint: disable=too-many-public-methods
             raise ObjectException("Can't build object, identifier is not set!")
         for digest_type in [self.digest_algorithm] + list(self.fixity or []):
             digest_regex(digest_type)  # ValueError if not supported
+        self._check_content_directory()
         num_versions = 0
         src_fs = fsw_openfs(srcdir)
         versions = list(self.version_dirs_and_metadata(src_fs, versions_metadata))
@@ -381,6 +388,7 @@ class Object():  # pylint: disable=too-many-public-methods
         if self.id is None or self.id == "":
             raise ObjectException("Identifier is not set!")
         digest_regex(self.digest_algorithm)  # ValueError if not supported
+        self._check_content_directory()
         if metadata is None:
             metadata = VersionMetadata()
         self._check_metadata(metadata)
-- 
2.43.0


From e08b6ed745080cfcf6220f64aa3acd689a9d08c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:04 +0000
Subject: [PATCH 62/82] fix: verbosity options of command line tools take
 effect

---
 ocfl/layout_nnnn_tuple_tree.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ocfl/layout_nnnn_tuple_tree.py b/ocfl/layout_nnnn_tuple_tree.py
index 1b26994..e6798d0 100644
--- a/ocfl/layout_nnnn_tuple_tree.py
+++ b/ocfl/layout_nnnn_tuple_tree.py
@@ -12,12 +12,20 @@ Makes use of encoding and decoding functions from Ben O'Steen's
 implementation in the pairtree module
 (https://github.com/benosteen/pairtree).
 """
+import logging
 import os
 import os.path
-from pairtree import id_encode, id_decode
 
 from .layout import Layout, LayoutException
 
+# Importing pairtree configures the root logger. Put that back as it was so that
+# the logging configuration is still for the program using this module to set
+_root_logger = logging.getLogger()
+_root_level, _root_handlers = _root_logger.level, list(_root_logger.handlers)
+from pairtree import id_encode, id_decode  # noqa: E402 pylint: disable=wrong-import-position,wrong-import-order
+_root_logger.setLevel(_root_level)
+_root_logger.handlers[:] = _root_handlers
+
 
 class Layout_NNNN_Tuple_Tree(Layout):
     """Class to support pairtree and related layouts."""
-- 
2.43.0


From 0812ff77e9958dfe2ed0d0eff1120d20def96c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:04 +0000
Subject: [PATCH 63/82] fix: ocfl-sidecar.py exits with failure status if a
 path is ignored

---
 ocfl-sidecar.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/ocfl-sidecar.py b/ocfl-sidecar.py
index 6327389..544f23f 100755
--- a/ocfl-sidecar.py
+++ b/ocfl-sidecar.py
@@ -3,6 +3,7 @@
 import argparse
 import logging
 import os.path
+import sys
 
 import ocfl
 from ocfl.command_line_utils import add_version_arg, check_version_arg, add_verbosity_args, check_verbosity_args
@@ -36,10 +37,14 @@ def parse_arguments():
 
 
 def create_sidecar(args, directory):
-    """Create sidecar for inventory in dir."""
+    """Create sidecar for inventory in dir.
+
+    Returns True if the sidecar was written, else False.
+    """
     inventory_path = os.path.join(directory, ocfl.INVENTORY_FILENAME)
     if not os.path.isfile(inventory_path):
         logging.error("Ignoring path %s because there is no inventory file %s.", directory, inventory_path)
+        return False
     else:
         obj = ocfl.Object(path=directory)
         if args.digest is not None:
@@ -51,23 +56,31 @@ def create_sidecar(args, directory):
                 logging.warning("Failed to read inventory in directory %s (%s)", directory, e)
         sidecar = obj.write_inventory_sidecar()
         print("Written sidecar file %s" % (os.path.join(directory, sidecar)))
+        return True
 
 
 def main():
-    """Run from command line."""
+    """Run from command line.
+
+    Returns True if a sidecar was written for every path, else False.
+    """
     args = parse_arguments()
+    ok = True
     paths = ["."] if len(args.path) == 0 else args.path
     for path in paths:
         logging.debug("Looking at path %s", path)
         if os.path.isdir(path):
-            create_sidecar(args, path)
+            ok = create_sidecar(args, path) and ok
         else:
             (directory, filename) = os.path.split(path)
             if filename == ocfl.INVENTORY_FILENAME:
-                create_sidecar(args, directory)
+                ok = create_sidecar(args, directory) and ok
             else:
                 logging.error("Ignoring path %s with filename that is not inventory.json", filename)
+                ok = False
+    return ok
 
 
 if __name__ == "__main__":
-    main()
+    if not main():
+        sys.exit(1)
-- 
2.43.0


From 14569b05d839fff6ee395262e8d8f2809a0bf5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:27 +0000
Subject: [PATCH 64/82] fix: ocfl-root.py show prints tree whatever the
 verbosity

---
 ocfl-root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl-root.py b/ocfl-root.py
index a34f843..e9dfb89 100755
--- a/ocfl-root.py
+++ b/ocfl-root.py
@@ -186,7 +186,7 @@ def do_store_operation(args):
             objdir = os.path.join(store.root, objdir)
             obj = ocfl.Object(identifier=args.id, lax_digests=args.lax_digests)
             if args.cmd == "show":
-                logging.warning("Object tree\n%s", obj.tree(objdir=objdir))
+                print("Object tree\n%s" % (obj.tree(objdir=objdir)))
             else:
                 return validate_object(obj, objdir, log_warnings=not args.quiet)
     else:
-- 
2.43.0


From 439921c9a534e61e475c3f341f8b759d050ac3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:51 +0000
Subject: [PATCH 65/82] fix: object tree notes multiple sidecars in a version
 directory

---
 ocfl/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index c3ca63b..6c511cf 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -651,7 +651,7 @@ class Object():  # pylint: disable=too-many-public-methods
                     elif v_entry.startswith(INVENTORY_FILENAME + "."):
                         if seen_v_sidecar:
                             v_note += "<--- multiple inventory digests?"
-                            seen_v_sidecar = True
+                        seen_v_sidecar = True
                     elif v_entry == self.content_directory:
                         num_files = 0
                         for (v_dirpath, v_dirs, v_files) in self.obj_fs.walk(os.path.join(entry, v_entry)):  # pylint: disable=unused-variable
-- 
2.43.0


From a30066405363de25f40aff347db16d0ec0b02e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:01 +0000
Subject: [PATCH 66/82] fix: document codes E011 and E092 and complete messages
 E070a, E070b and E070c

---
 ocfl/data/validation-errors.json | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ocfl/data/validation-errors.json b/ocfl/data/validation-errors.json
index c983bca..273dade 100644
--- a/ocfl/data/validation-errors.json
+++ b/ocfl/data/validation-errors.json
@@ -94,6 +94,12 @@
        "en": "OCFL Object %s inventory versions block includes an out-of-sequence version"
     }
   },
+  "E011": {
+    "params": ["where"],
+    "description": {
+       "en": "OCFL Object %s inventory versions block includes more versions than its zero-padded version directory names allow for"
+    }
+  },
   "E015": {
     "params": ["where", "entry"],
     "description": {
@@ -533,19 +539,19 @@
   "E070a": {
     "params": ["root", "message"],
     "description": {
-      "en": "OCFL Storage Root %s includes ocfl_layout.json with unknown layout %s"
+      "en": "OCFL Storage Root %s has an ocfl_layout.json file that can't be read as JSON (%s)"
     }
   },
   "E070b": {
-    "params": ["root", "message"],
+    "params": ["root"],
     "description": {
       "en": "OCFL Storage Root %s has an ocfl_layout.json file that isn't a JSON object"
     }
   },
   "E070c": {
-    "params": ["root", "message"],
+    "params": ["root"],
     "description": {
-      "en": "OCFL Storage Root %s Storage root %s has layout file doesn't have required extension and description string entries"
+      "en": "OCFL Storage Root %s layout file doesn't have required extension and description string entries"
     }
   },
   "E071": {
@@ -599,7 +605,7 @@
        "en": "NOTE - E090 is a processing instruction and can't be tested for"
     }
   },
-  "E091": {
+  "E092": {
     "params": ["where", "digest"],
     "description": {
        "en": "OCFL Object %s inventory manifest file list for digest %s is not a JSON array"
-- 
2.43.0


From 4343faec73f628318618ce15d5246956c908284d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:01 +0000
Subject: [PATCH 67/82] fix: copy deepest files first so that an interrupted
 add can't leave a valid but incomplete object

---
 ocfl/fsw.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocfl/fsw.py b/ocfl/fsw.py
index dc1f35f..8206fcf 100644
--- a/ocfl/fsw.py
+++ b/ocfl/fsw.py
@@ -412,7 +412,9 @@ def fsw_copydir(src_fs, src_path, dst_fs, dst_path):
     if dst_fs.exists(dst_path):
         raise FswException("Destination directory (%s) for copydir already exists!" % (dst_path))
     dst_fs.makedirs(dst_path)
-    for filepath in fsw_walk_files(src_fs, src_path):
+    # Deepest files first so that an incomplete copy of an OCFL object lacks files
+    # from the object root and cannot be taken for the complete object
+    for filepath in sorted(fsw_walk_files(src_fs, src_path), key=lambda path: path.count("/"), reverse=True):
         src_filepath = os.path.join(src_path, filepath)
         dst_filepath = os.path.join(dst_path, filepath)
         dst_filedir = os.path.dirname(dst_filepath)
-- 
2.43.0


From 46aa9e87549539309c35416096316eb3f7468486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:01 +0000
Subject: [PATCH 68/82] fix: read layout parameters file as UTF-8 whatever the
 locale

---
 ocfl/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/layout.py b/ocfl/layout.py
index 9d575ad..bde76a2 100644
--- a/ocfl/layout.py
+++ b/ocfl/layout.py
@@ -167,7 +167,7 @@ class Layout:
         logging.debug("Reading extension config file %s", self.config_file)
         if root_fs.exists(self.config_file):
             try:
-                with root_fs.open(self.config_file) as fh:
+                with root_fs.open(self.config_file, "r", encoding="utf-8") as fh:
                     config = json.load(fh)
             except Exception as e:
                 raise LayoutException("Storage root extension config file %s exists but can't be read/parsed (%s)" % (self.config_file, str(e)))
-- 
2.43.0


From e07ec1cd1c775f3db8a4cdaae97c655bd3231c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:01 +0000
Subject: [PATCH 69/82] fix: read inventory as UTF-8 whatever the locale

---
 ocfl/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 6c511cf..84284b4 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -858,7 +858,7 @@ class Object():  # pylint: disable=too-many-public-methods
         Returns:
             ocfl.Inventory: new Inventory object for the parsed inventory.
         """
-        with self.obj_fs.open(INVENTORY_FILENAME, "r") as fh:
+        with self.obj_fs.open(INVENTORY_FILENAME, "r", encoding="utf-8") as fh:
             inventory = Inventory(json.load(fh))
         # Validate
         iv = InventoryValidator(lax_digests=self.lax_digests)
-- 
2.43.0


From 1ad263a4eeaa5024ce19ddf2f795f29dd5a2db81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:12 +0000
Subject: [PATCH 70/82] fix: read layout file as UTF-8 whatever the locale

---
 ocfl/storage_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index b521d67..77319e8 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -308,7 +308,7 @@ class StorageRoot():
             and error in the layout configuration
         """
         try:
-            with self.root_fs.open(self.layout_file) as fh:
+            with self.root_fs.open(self.layout_file, "r", encoding="utf-8") as fh:
                 layout = json.load(fh)
         except Exception as e:
             raise StorageRootException("E070a", root=self.root, message=str(e))
-- 
2.43.0


From b6fbff7cd4568ce01f06e94be8557c8fe1833cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:12 +0000
Subject: [PATCH 71/82] fix: write storage root declaration last so that an
 interrupted initialize doesn't pass for a complete one

---
 ocfl/storage_root.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 77319e8..120ecb3 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -226,8 +226,6 @@ class StorageRoot():
         parent_fs.makedir(root_dir)
         self.root_fs = fsw_openfs(self.root)
         logging.debug("Created OCFL storage root directory at %s", self.root)
-        # Create root declaration
-        self.write_root_declaration(self.root_fs)
         # Create a layout declaration if the layout ise set, it is valid to have
         # a storage root with no layout information
         if self.layout is not None:
@@ -239,6 +237,9 @@ class StorageRoot():
             self.layout.write_layout_params(root_fs=self.root_fs)
         else:
             logging.debug("No layout set so no %s file written", self.layout_file)
+        # Create root declaration, last so that nothing incomplete is taken for
+        # a storage root if there is a failure before this point
+        self.write_root_declaration(self.root_fs)
 
     def check_root_structure(self):
         """Check the OCFL Storage Root structure.
-- 
2.43.0


From 02d223b566a72e3d57a5f0cd06cc9353edbb94fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:12 +0000
Subject: [PATCH 72/82] fix: adding an object to a storage root keeps version
 directories that have no files

---
 ocfl/storage_root.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 120ecb3..edbd92f 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -545,6 +545,9 @@ class StorageRoot():
         try:
             # Recusive copy of object to path in self.root_fs
             fsw_copydir(o.obj_fs, "/", self.root_fs, path)
+            # Copying leaves out empty directories but all version directories are required
+            for vdir in inventory.version_directories:
+                self.root_fs.makedirs(os.path.join(path, vdir), exist_ok=True)
         except Exception as e:
             raise StorageRootException("Add object at path %s failed! (%s)" % (path, str(e)))
         return (identifier, path)
-- 
2.43.0


From ef24a28a5346883026f9104bce7835629d964c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:12 +0000
Subject: [PATCH 73/82] fix: force_spec_version of Validator has effect

---
 ocfl/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 11e3bf3..3dfabe3 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -166,7 +166,7 @@ class Validator():
             return False
         try:
             start_errors = self.log.num_errors
-            inventory, inv_validator = self.validate_inventory(inv_file)
+            inventory, inv_validator = self.validate_inventory(inv_file, force_spec_version=self.force_spec_version)
             if self.log.num_errors == start_errors:
                 self.root_inv_validator = inv_validator  # safe to compare prior versions with
             if declared_version is not None and inv_validator.spec_version != declared_version:
-- 
2.43.0


From 549ff4156e4a3e714eddd1e173948e366483a520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:21 +0000
Subject: [PATCH 74/82] fix: create and build objects on S3, where there are no
 empty directories

---
 ocfl/object.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 84284b4..1b71deb 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -153,7 +153,11 @@ class Object():  # pylint: disable=too-many-public-methods
                 failure to open filesystem
         """
         self.open_obj_fs(objdir, create=True)
-        if len(fsw_listdir_names(self.obj_fs, "")) > 0:
+        try:
+            names = fsw_listdir_names(self.obj_fs, "")
+        except FileNotFoundError:
+            names = []  # there is no empty directory on S3
+        if len(names) > 0:
             raise ObjectException("Object directory %s already exists and is not empty, aborting!" % (objdir))
 
     def copy_into_object(self, src_fs, srcfile, filepath, create_dirs=False):
-- 
2.43.0


From f0deb6e20cd82b76846e065bb1f6ef2f85109112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:21 +0000
Subject: [PATCH 75/82] fix: initialize storage root on S3

---
 ocfl/storage_root.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index edbd92f..06750c3 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -224,7 +224,8 @@ class StorageRoot():
         if parent_fs.exists(root_dir):
             raise StorageRootException("OCFL storage root %s already exists, aborting!" % (self.root))
         parent_fs.makedir(root_dir)
-        self.root_fs = fsw_openfs(self.root)
+        # Directory will not exist yet on S3, so can't use fsw_openfs(self.root)
+        self.root_fs = fsw_opendir_as_fs(parent_fs, root_dir)
         logging.debug("Created OCFL storage root directory at %s", self.root)
         # Create a layout declaration if the layout ise set, it is valid to have
         # a storage root with no layout information
-- 
2.43.0


From b3d8388e8ca7b8032f26ebfbf9e46fc9b4533fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:09 +0000
Subject: [PATCH 76/82] fix: do not accept digests followed by a line break

---
 ocfl/inventory_validator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 550a65a..d61d916 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -289,7 +289,7 @@ class InventoryValidator():
             content_paths = set()
             content_directories = set()
             for digest in manifest:
-                m = re.match(self._digest_regex(), digest)
+                m = re.fullmatch(self._digest_regex(), digest)
                 if not m:
                     self._error("E025b", digest=digest, algorithm=self.digest_algorithm)  # wrong form of digest
                 elif not isinstance(manifest[digest], list):
@@ -344,7 +344,7 @@ class InventoryValidator():
                 else:
                     digests_seen = set()
                     for digest in fixity_algoritm_block:
-                        m = re.match(regex, digest)
+                        m = re.fullmatch(regex, digest)
                         if not m:
                             self._error("E057b", digest=digest, algorithm=digest_algorithm)  # wrong form of digest
                         elif not isinstance(fixity_algoritm_block[digest], list):
@@ -492,7 +492,7 @@ class InventoryValidator():
         else:
             digest_re = re.compile(self._digest_regex())
             for digest in state:
-                if not digest_re.match(digest):
+                if not digest_re.fullmatch(digest):
                     self._error("E050d", version=version, digest=digest)
                 elif not isinstance(state[digest], list):
                     self._error("E050e", version=version, digest=digest)
-- 
2.43.0


From fe21be12ccb226b997f3124507c10ee644392d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:28 +0000
Subject: [PATCH 77/82] fix: accept zero-padded versions of any width

---
 ocfl/inventory_validator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index d61d916..38571bb 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -388,13 +388,13 @@ class InventoryValidator():
             zero_padded = False
             all_versions.append("v1")
         else:  # Find padding size
-            for n in range(2, 11):
-                fmt = "v%0" + str(n) + "d"
-                vkey = fmt % 1
-                if vkey in versions:
+            for vkey in sorted(versions, key=len):
+                if re.fullmatch(r"""v0+1""", vkey):
+                    n = len(vkey) - 1
+                    fmt = "v%0" + str(n) + "d"
                     all_versions.append(vkey)
                     zero_padded = n
-                    max_version_num = (10 ** (n - 1)) - 1
+                    max_version_num = (10 ** min(n - 1, 6)) - 1
                     break
             if not zero_padded:
                 self._error("E009")
-- 
2.43.0


From 3bfbed19f81ca5892520052f5367b29470195f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:45 +0000
Subject: [PATCH 78/82] fix: report inconsistent versions and differences in
 the same order every time

---
 ocfl/inventory_validator.py | 10 +++++-----
 ocfl/new_version.py         |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 38571bb..7ecc464 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -247,16 +247,16 @@ class InventoryValidator():
                 only_in_self = self_map.keys() - prior_map.keys()
                 if only_in_prior or only_in_self:
                     if only_in_prior:
-                        self._error("E066b", version=version, prior_head=prior.head, only_in=prior.head, logical_paths=",".join(only_in_prior))
+                        self._error("E066b", version=version, prior_head=prior.head, only_in=prior.head, logical_paths=",".join(sorted(only_in_prior)))
                     if only_in_self:
-                        self._error("E066b", version=version, prior_head=prior.head, only_in=self.where, logical_paths=",".join(only_in_self))
+                        self._error("E066b", version=version, prior_head=prior.head, only_in=self.where, logical_paths=",".join(sorted(only_in_self)))
                 else:
                     # Check them all in details - digests must match
                     for logical_path, this_map in prior_map.items():
                         if not this_map.issubset(self_map[logical_path]):
                             self._error("E066c", version=version, prior_head=prior.head,
-                                        logical_path=logical_path, prior_content=",".join(this_map),
-                                        current_content=",".join(self_map[logical_path]))
+                                        logical_path=logical_path, prior_content=",".join(sorted(this_map)),
+                                        current_content=",".join(sorted(self_map[logical_path])))
                 # Check metadata
                 prior_version = prior.inventory["versions"][version]
                 self_version = self.inventory["versions"][version]
@@ -617,7 +617,7 @@ class InventoryValidator():
                       for digest, files in self.inventory["versions"][version]["state"].items()}
         prior_state = {normalized_digest(digest, prior.digest_algorithm): files
                        for digest, files in prior.inventory["versions"][version]["state"].items()}
-        for digest in set(self_state.keys()).union(prior_state.keys()):
+        for digest in sorted(set(self_state.keys()).union(prior_state.keys())):
             if digest not in prior_state:
                 self._error("E066d", version=version, prior_head=prior.head,
                             digest=digest, logical_files=", ".join(self_state[digest]))
diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 0bcef6a..76a568b 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -535,8 +535,8 @@ class NewVersion():
         deletes = prev_paths - curr_paths
         # Compose result
         result = []
-        for (d, lp) in adds:
+        for (d, lp) in sorted(adds):
             result.append(("A", d, lp))
-        for (d, lp) in deletes:
+        for (d, lp) in sorted(deletes):
             result.append(("D", d, lp))
         return result
-- 
2.43.0


From ea92389c38123188cd726f95988a81358a673a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:39 +0000
Subject: [PATCH 79/82] fix: name the fixity algorithm that is at fault

Messages E056b and E057a named the digest algorithm of the inventory instead
of the key of the fixity block that is unknown or doesn't have an object.
---
 ocfl/inventory_validator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 7ecc464..0104e74 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -333,14 +333,14 @@ class InventoryValidator():
                     regex = digest_regex(digest_algorithm)
                 except ValueError:
                     if not self.lax_digests:
-                        self._error("E056b", algorithm=self.digest_algorithm)
+                        self._error("E056b", algorithm=digest_algorithm)
                         continue
                     # Match anything
                     regex = r"""^.*$"""
                     known_digest = False
                 fixity_algoritm_block = fixity[digest_algorithm]
                 if not isinstance(fixity_algoritm_block, dict):
-                    self._error("E057a", algorithm=self.digest_algorithm)
+                    self._error("E057a", algorithm=digest_algorithm)
                 else:
                     digests_seen = set()
                     for digest in fixity_algoritm_block:
-- 
2.43.0


From b86521aed09930eb7a9f2f1d372ad6241ea67034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:29 +0000
Subject: [PATCH 80/82] fix: do not report differences from a contentDirectory
 that was not read

When an inventory could not be parsed, or had a bad digestAlgorithm or
contentDirectory, messages E019 and E020 were given for other inventories as
if it had the default content directory.
---
 ocfl/inventory_validator.py |  4 ++++
 ocfl/validator.py           | 12 ++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 0104e74..b18034e 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -100,6 +100,7 @@ class InventoryValidator():
         self.digest_algorithm = "sha512"
         self.content_directory = DEFAULT_CONTENT_DIRECTORY
         self.content_directory_set = False
+        self.content_directory_known = False  # until read or seen to be absent
         self.all_versions = []
         self.manifest_files = None
         self.unnormalized_digests = None
@@ -168,13 +169,16 @@ class InventoryValidator():
         else:
             self._error("E025a", digest_algorithm=inventory["digestAlgorithm"])
             return False
+        self.content_directory_known = True
         if "contentDirectory" in inventory:
             # Careful only to set self.content_directory if value is safe
             cd = inventory["contentDirectory"]
             if not isinstance(cd, str) or "/" in cd:
                 self._error("E017")
+                self.content_directory_known = False
             elif cd in (".", ".."):
                 self._error("E018")
+                self.content_directory_known = False
             else:
                 self.content_directory = cd
                 self.content_directory_set = True
diff --git a/ocfl/validator.py b/ocfl/validator.py
index 3dfabe3..afb54d9 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -80,6 +80,7 @@ class Validator():
         self.digest_algorithm = None
         self.content_directory = None
         self.content_directory_set = None
+        self.content_directory_known = None
         self.inventory_digest_files = None
         self.root_inv_validator = None
         self.obj_fs = None
@@ -178,6 +179,7 @@ class Validator():
             self.id = inv_validator.id
             self.content_directory = inv_validator.content_directory
             self.content_directory_set = inv_validator.content_directory_set
+            self.content_directory_known = inv_validator.content_directory_known
             self.digest_algorithm = inv_validator.digest_algorithm
             self.validate_inventory_digest(inv_file, self.digest_algorithm)
             # Object root
@@ -366,7 +368,12 @@ class Validator():
                 if self.id and "id" in version_inventory:
                     if version_inventory["id"] != self.id:
                         self.log.error("E037b", where=version_dir, root_id=self.id, version_id=version_inventory["id"])
-                if first_version_content_directory_set is None:
+                if not (self.content_directory_known and inv_validator.content_directory_known):
+                    # Cannot compare with a value that could not be read, the error in
+                    # the inventory concerned has been reported already
+                    if first_version_content_directory_set is None:
+                        first_version_content_directory_set = True  # can't tell, do not report E019
+                elif first_version_content_directory_set is None:
                     first_version_content_directory_set = inv_validator.content_directory_set
                     if not first_version_content_directory_set and self.content_directory_set:
                         self.log.error("E019", where="root")
@@ -379,7 +386,8 @@ class Validator():
                     # two versions.
                     self.log.error("E019", where=version_dir)
                     first_version_content_directory_set = True  # report E019 just once
-                if self.content_directory != inv_validator.content_directory:
+                if (self.content_directory_known and inv_validator.content_directory_known
+                        and self.content_directory != inv_validator.content_directory):
                     self.log.error("E020", where=version_dir, root_content_directory=self.content_directory, version_content_directory=inv_validator.content_directory)
                 if version_inventory_is_valid:
                     # Check that all files listed in prior inventories are in manifest
-- 
2.43.0


From 8dc7b1d3468a3e6ea56831fe8854f004f7285208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:53 +0000
Subject: [PATCH 81/82] fix: forget S3 listings made before when opening a file
 system on S3

s3fs keeps instances and their directory listings for the life of the process, so that a
long running program got wrong verdicts for what other programs had changed since.
---
 ocfl/fsw.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocfl/fsw.py b/ocfl/fsw.py
index 8206fcf..16af01f 100644
--- a/ocfl/fsw.py
+++ b/ocfl/fsw.py
@@ -173,6 +173,8 @@ def fsw_openfs(fs_url, create=False, exists_ok=True):
         # https://github.com/boto/botocore)
         path, params = _fsw_s3_urlparse(path)
         fs = S3FileSystem(**params)
+        # The instance may have been used before, forget any listings made then
+        fs.invalidate_cache()
         # Check that we can access the specified bucket/path and give a helpful error on
         # faulire. Otherwise error will only be thrown from some later attempt to access
         # S3 in the OCFL code.
-- 
2.43.0


From dfa0805570c70917abfa113b667372ac978b7e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:43 +0000
Subject: [PATCH 82/82] fix: check for conflicting paths was slow for versions
 with many files

---
 ocfl/new_version.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 76a568b..9b2777e 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -280,18 +280,20 @@ class NewVersion():
         # Check we don't already have this vfilepath from many to one
         # normalization, add suffix to distinguish if necessary
         used = set(self.inventory.content_paths)
-        used_dirs = set()
-        for path in used:
-            while "/" in path:
-                path = os.path.dirname(path)
-                used_dirs.add(path)
         # No directory may have the same path as a file we already have...
         elements = vfilepath.split("/")
         for i in range(3, len(elements)):
             dirpath = "/".join(elements[:i])
             elements[i - 1] = os.path.basename(make_unused_filepath(dirpath, used))
-        # ...and no file may have the same path as a file or directory we already have
-        return make_unused_filepath("/".join(elements), used | used_dirs)
+        # ...and no file may have the same path as a file or directory we already have,
+        # of these only paths that start with the same characters can matter
+        vfilepath = "/".join(elements)
+        similar = {path for path in used if path.startswith(vfilepath)}
+        for path in list(similar):
+            while "/" in path:
+                path = os.path.dirname(path)
+                similar.add(path)
+        return make_unused_filepath(vfilepath, similar)
 
     @staticmethod
     def _path_ok(path, existing):
@@ -306,9 +308,12 @@ class NewVersion():
                 of the existing paths would have to be both a file and a
                 directory
         """
-        if any(element in ("", ".", "..") for element in path.split("/")):
+        elements = path.split("/")
+        if any(element in ("", ".", "..") for element in elements):
             return False
-        return not any(other.startswith(path + "/") or path.startswith(other + "/") for other in existing)
+        parents = {"/".join(elements[:n]) for n in range(1, len(elements))}
+        prefix = path + "/"
+        return not any(other in parents or other.startswith(prefix) for other in existing)
 
     def add(self, src_path, logical_path, content_path=None, src_path_has_prefix=False):  # pylint: disable=unused-argument
         """Add a file to the new version.
-- 
2.43.0

