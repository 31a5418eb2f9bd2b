From 6c4696fe854be94ee5909c38cb40ca3fb924315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:50 +0000
Subject: [PATCH 01/92] fix: honor lax_digests when parsing the root inventory

Objects created with lax_digests=True could never be extracted from or
updated because parse_inventory() validated without the setting.
---
 ocfl/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index e22a93b..96fce31 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -797,7 +797,7 @@ class Object():  # pylint: disable=too-many-public-methods
         with self.obj_fs.open(INVENTORY_FILENAME, "r") as fh:
             inventory = Inventory(json.load(fh))
         # Validate
-        iv = InventoryValidator()
+        iv = InventoryValidator(lax_digests=self.lax_digests)
         if not iv.validate(inventory=inventory.data):
             raise ObjectException("Root inventory is not valid (%d errors)" % iv.log.num_errors)
         self.spec_version = iv.spec_version
-- 
2.43.0


From 6a65441e63cdbe83a573316ec8c0932033c379d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:50 +0000
Subject: [PATCH 02/92] fix: include empty state block when first version has
 no content

The state block is required, without it the inventory written for a v1
with no files is not valid (E048c).
---
 ocfl/new_version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 926fbff..93029b2 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -140,7 +140,7 @@ class NewVersion():
             for fixity_type in fixity:
                 inventory.add_fixity_type(fixity_type)
         #
-        inventory.add_version(metadata=metadata)  # also sets head "v1"
+        inventory.add_version(metadata=metadata, state={})  # also sets head "v1"
         if digest_algorithm is None:
             digest_algorithm = DEFAULT_DIGEST_ALGORITHM
         inventory.digest_algorithm = digest_algorithm
-- 
2.43.0


From f9fa5888a7361b221599d9f5aeeedadfa55b48dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:29 +0000
Subject: [PATCH 03/92] fix: keep the object's specification version when
 adding versions

build() and start_new_version() let NewVersion.next_version() default to
the latest specification version, so a v1.0 object with two or more versions
ended up with a v1.1 inventory under a v1.0 object declaration, and could
not be updated a second time.
---
 ocfl/object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index 96fce31..4e1b7bf 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -305,6 +305,7 @@ class Object():  # pylint: disable=too-many-public-methods
             else:
                 nv = NewVersion.next_version(inventory=inventory,
                                              srcdir=os.path.join(srcdir, vdir),
+                                             spec_version=self.spec_version,
                                              metadata=metadata,
                                              content_path_normalization=self.content_path_normalization,
                                              forward_delta=self.forward_delta,
@@ -506,6 +507,7 @@ class Object():  # pylint: disable=too-many-public-methods
         inventory.manifest = manifest
         return NewVersion.next_version(inventory=inventory,
                                        srcdir=srcdir,
+                                       spec_version=inventory.spec_version,
                                        metadata=metadata,
                                        content_path_normalization=self.content_path_normalization,
                                        forward_delta=self.forward_delta,
-- 
2.43.0


From db29ea0360cf4a27cd963231539a64b17d030e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 04/92] fix: check whole of content paths that include newlines

Only the portion before the first newline was checked for illegal path
elements, and a path with a newline directly after the content directory
was reported as E042a.
---
 ocfl/inventory_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 08b3af5..9b05e48 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -554,7 +554,7 @@ class InventoryValidator():
         if path.startswith("/") or path.endswith("/"):
             self._error("E100", path=path)
             return False
-        m = re.match(r"""^(v\d+)/([^/]+)/(.+)""", path)
+        m = re.match(r"""^(v\d+)/([^/]+)/(.+)""", path, re.DOTALL)
         if not m:
             self._error("E042a", path=path)
             return False
-- 
2.43.0


From 2dbf34e62492c7a86636b3462d7d3bb6fa7993a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 05/92] fix: match whole of inventory type when extracting spec
 version

Any type value that started with a good one was accepted.
---
 ocfl/inventory_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 9b05e48..7f2c7c0 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -135,7 +135,7 @@ class InventoryValidator():
             self._error("E038a", expected="https://ocfl.io/" + force_spec_version + "/spec/#inventory", got=inventory["type"])
         else:
             # Extract specification version
-            m = re.match(r"""https://ocfl.io/(\d+.\d)/spec/#inventory""", inventory["type"])
+            m = re.fullmatch(r"""https://ocfl\.io/(\d+\.\d)/spec/#inventory""", inventory["type"])
             if not m:
                 self._error("E038b", got=inventory["type"], assumed_spec_version=self.spec_version)
             elif m.group(1) in SPEC_VERSIONS_SUPPORTED:
-- 
2.43.0


From d384faa3408067ab84391cca6eb0855bab70a3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:43 +0000
Subject: [PATCH 06/92] fix: detect path conflicts with any parent directory

Only the immediate parent directory of each path was considered, so that
conflicting paths such as a and a/b/c were not reported as E095b or E101b.
---
 ocfl/inventory_validator.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 7f2c7c0..99219af 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -51,6 +51,16 @@ def _get_logical_path_map(inventory, version):
     return file_map
 
 
+def _with_parent_directories(directories):
+    """Get set of the supplied directories along with all of their parents."""
+    all_directories = set(directories)
+    for directory in directories:
+        elements = directory.split("/")
+        for n in range(1, len(elements)):
+            all_directories.add("/".join(elements[:n]))
+    return all_directories
+
+
 class InventoryValidator():
     """Class for OCFL Inventory Validator."""
 
@@ -294,7 +304,7 @@ class InventoryValidator():
                         if self._check_content_path(file, content_paths, content_directories):
                             manifest_files_correct_format.append(file)
             # Check for conflicting content paths
-            for path in content_directories:
+            for path in _with_parent_directories(content_directories):
                 if path in content_paths:
                     self._error("E101b", path=path)
         return manifest_files, manifest_files_correct_format, unnormalized_digests
@@ -487,7 +497,7 @@ class InventoryValidator():
                     norm_digest = normalized_digest(digest, self.digest_algorithm)
                     digests.append(norm_digest)
             # Check for conflicting logical paths
-            for path in logical_directories:
+            for path in _with_parent_directories(logical_directories):
                 if path in logical_paths:
                     self._error("E095b", version=version, path=path)
         return digests
-- 
2.43.0


From 96a891bcb690b71f974022a783aa3553b1fce889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:39 +0000
Subject: [PATCH 07/92] fix: correct digest regex for sha512-spec-ex

file_digest() generates the first 15 characters of the digest for this
type, not 6, so no digest that it creates matched the regex.
---
 ocfl/digest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/digest.py b/ocfl/digest.py
index 2e99656..0c829a6 100755
--- a/ocfl/digest.py
+++ b/ocfl/digest.py
@@ -100,7 +100,7 @@ DIGEST_REGEXES = {
     "blake2b-384": r"""^[0-9a-fA-F]{96}$""",
     "blake2b-256": r"""^[0-9a-fA-F]{64}$""",
     "blake2b-160": r"""^[0-9a-fA-F]{40}$""",
-    "sha512-spec-ex": r"""^[0-9a-f]{6}\.\.\.[0-9a-f]{3}$""",
+    "sha512-spec-ex": r"""^[0-9a-f]{15}\.\.\.[0-9a-f]{3}$""",
     "sha256-spec-ex": r"""^[0-9a-f]{6}\.\.\.[0-9a-f]{3}$"""
 }
 
-- 
2.43.0


From f91759d7abdb39a1fc8c8c5479e589e148ea0c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:00 +0000
Subject: [PATCH 08/92] fix: allow hyphen in digest algorithm of inventory
 sidecar name

Objects using blake2b-512 and similar were reported as E058b.
---
 ocfl/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 2a70b58..9b5dd9b 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -230,7 +230,7 @@ class Validator():
         """
         if not self.check_digests:
             return
-        m = re.match(r""".*\.(\w+)$""", inv_digest_file)
+        m = re.match(r""".*\.([\w\-]+)$""", inv_digest_file)
         if m:
             digest_algorithm = m.group(1)
             try:
-- 
2.43.0


From ea018309a35f04c5de3ec396540a143b3678515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 09/92] fix: set created time when no version metadata is
 supplied

Objects written with create(), start_new_version() or add_version_with_content()
and the default of no metadata were not valid because created is required.
---
 ocfl/object.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index 4e1b7bf..dac63ac 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -346,6 +346,8 @@ class Object():  # pylint: disable=too-many-public-methods
         """
         if self.id is None:
             raise ObjectException("Identifier is not set!")
+        if metadata is None:
+            metadata = VersionMetadata()
         nv = NewVersion.first_version(srcdir=srcdir,
                                       identifier=self.id,
                                       spec_version=self.spec_version,
@@ -441,6 +443,8 @@ class Object():  # pylint: disable=too-many-public-methods
             ocfl.NewVersion: object where the new version will be built before
             finally be added with write_new_version()
         """
+        if metadata is None:
+            metadata = VersionMetadata()
         # Check the current object
         self.open_obj_fs(objdir)
         validator = Validator(check_digests=False, lax_digests=self.lax_digests)
-- 
2.43.0


From 044be0a0fd0187e281fea305740118d7755b9784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 10/92] fix: carry content forward in add_version_with_content
 with no srcdir

The documented metadata only update (srcdir=None) failed.
---
 ocfl/object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index dac63ac..d63ee07 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -397,11 +397,11 @@ class Object():  # pylint: disable=too-many-public-methods
         between versions.
         """
         nv = self.start_new_version(objdir=objdir,
-                                    srcdir=srcdir,
+                                    srcdir="" if srcdir is None else srcdir,
                                     digest_algorithm=self.digest_algorithm,
                                     fixity=self.fixity,
                                     metadata=metadata,
-                                    carry_content_forward=False)
+                                    carry_content_forward=(srcdir is None))
         # Add files if srcdir is set
         if srcdir is not None:
             nv.add_from_srcdir()
-- 
2.43.0


From 0f5617f3b6621d3d00f2f48c49cb65c9de30034f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 11/92] fix: use the open object filesystem when adding a
 version without objdir

start_new_version() with the default objdir=None failed, and
add_version_with_content() with the default objdir="" used the current
directory instead of the object filesystem that is open.
---
 ocfl/object.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index d63ee07..3de5451 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -446,9 +446,10 @@ class Object():  # pylint: disable=too-many-public-methods
         if metadata is None:
             metadata = VersionMetadata()
         # Check the current object
-        self.open_obj_fs(objdir)
+        if objdir or self.obj_fs is None:
+            self.open_obj_fs(objdir or "")
         validator = Validator(check_digests=False, lax_digests=self.lax_digests)
-        if not validator.validate_object(objdir):
+        if not validator.validate_object(self.obj_fs):
             raise ObjectException("Object at '%s' is not valid, aborting" % objdir)
         inventory = self.parse_inventory()
         # Object is valid, have inventory
-- 
2.43.0


From 39e2edb528148369847c883a2a4a434be9d280a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 12/92] fix: use digest algorithm of the inventory for its
 sidecar

Adding a version to an object with start_new_version() and no explicit
digest_algorithm wrote a sidecar for the default sha512 even if the object
uses a different digest algorithm, leaving an invalid object.
---
 ocfl/object.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 3de5451..b5eaa11 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -250,8 +250,11 @@ class Object():  # pylint: disable=too-many-public-methods
         if inventory is not None:
             with self.obj_fs.open(invfile, "w") as fh:
                 inventory.write_json(fh)
-        digest = file_digest(invfile, self.digest_algorithm, fs=self.obj_fs)
-        sidecar = os.path.join(vdir, INVENTORY_FILENAME + "." + self.digest_algorithm)
+        digest_algorithm = self.digest_algorithm
+        if inventory is not None and inventory.digest_algorithm is not None:
+            digest_algorithm = inventory.digest_algorithm
+        digest = file_digest(invfile, digest_algorithm, fs=self.obj_fs)
+        sidecar = os.path.join(vdir, INVENTORY_FILENAME + "." + digest_algorithm)
         with self.obj_fs.open(sidecar, "w") as fh:
             fh.write(digest + " " + INVENTORY_FILENAME + "\n")
         return sidecar
-- 
2.43.0


From 5f70982294e1c62679e24701e80936d5b9cc2e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 13/92] fix: delete old root inventory sidecar only after new
 version is written

When the digest algorithm was changed the old sidecar was deleted first, so
that any failure to write the new version left an invalid object.
---
 ocfl/object.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index b5eaa11..d4e3497 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -534,10 +534,6 @@ class Object():  # pylint: disable=too-many-public-methods
             ocfl.Inventory: of the latest version just written
         """
         inventory = new_version.inventory
-        # Delete old root inventory sidecar if we changed digest algorithm
-        if (new_version.old_digest_algorithm is not None
-                and inventory.digest_algorithm != new_version.old_digest_algorithm):
-            self.obj_fs.rm(INVENTORY_FILENAME + "." + new_version.old_digest_algorithm)
         # Make new version directory
         self.obj_fs.makedir(inventory.head)
         # Copy files into this version
@@ -546,6 +542,10 @@ class Object():  # pylint: disable=too-many-public-methods
         # Write inventory in both root and head version
         self.write_inventory_and_sidecar(inventory, inventory.head)
         self.write_inventory_and_sidecar(inventory)
+        # Delete old root inventory sidecar if we changed digest algorithm
+        if (new_version.old_digest_algorithm is not None
+                and inventory.digest_algorithm != new_version.old_digest_algorithm):
+            self.obj_fs.rm(INVENTORY_FILENAME + "." + new_version.old_digest_algorithm)
         logging.info("Updated OCFL object %s by adding %s", inventory.id, inventory.head)
         return inventory
 
-- 
2.43.0


From 2f6688ac3b497d1cc74ba5ef9eef4893ce69b00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:02 +0000
Subject: [PATCH 14/92] fix: copy source files that are added to a new version
 more than once

The set of files to copy was indexed by source path, so when one source file
was added with two content paths (dedupe=False) only the last was copied and
the manifest listed a content file that did not exist.
---
 ocfl/new_version.py | 4 ++--
 ocfl/object.py      | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 93029b2..e9faa50 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -45,7 +45,7 @@ class NewVersion():
         self.dedupe = None
         # Additional state needed for final commit
         self.old_digest_algorithm = None
-        self.files_to_copy = {}  # dict: src_path -> content_path
+        self.files_to_copy = {}  # dict: content_path -> src_path
         self.src_fs = fsw_openfs(self.srcdir)
 
     @classmethod
@@ -342,7 +342,7 @@ class NewVersion():
                 or (not in_current_version and not self.forward_delta)
                 or (in_current_version and not self.dedupe)):
             # Yes, we copy this file in...
-            self.files_to_copy[src_path] = content_path
+            self.files_to_copy[content_path] = src_path
             inventory.add_file_to_manifest(digest=digest, content_path=content_path)
 
     def delete(self, logical_path):
diff --git a/ocfl/object.py b/ocfl/object.py
index d4e3497..97de31a 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -321,7 +321,7 @@ class Object():  # pylint: disable=too-many-public-methods
             if objdir is not None:
                 self.write_inventory_and_sidecar(inventory, vdir)
                 # Copy files into this version
-                for (srcpath, objpath) in nv.files_to_copy.items():
+                for (objpath, srcpath) in nv.files_to_copy.items():
                     self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
         # Finally populate the object root
         if objdir is not None:
@@ -373,7 +373,7 @@ class Object():  # pylint: disable=too-many-public-methods
         self.write_object_declaration()
         self.write_inventory_and_sidecar(inventory)
         # Write version files
-        for (srcpath, objpath) in nv.files_to_copy.items():
+        for (objpath, srcpath) in nv.files_to_copy.items():
             self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
         logging.info("Created OCFL object %s in %s", self.id, objdir)
         return inventory
@@ -537,7 +537,7 @@ class Object():  # pylint: disable=too-many-public-methods
         # Make new version directory
         self.obj_fs.makedir(inventory.head)
         # Copy files into this version
-        for (srcpath, objpath) in new_version.files_to_copy.items():
+        for (objpath, srcpath) in new_version.files_to_copy.items():
             self.copy_into_object(new_version.src_fs, srcpath, objpath, create_dirs=True)
         # Write inventory in both root and head version
         self.write_inventory_and_sidecar(inventory, inventory.head)
-- 
2.43.0


From 2cee9037efc6b4aa0dc874458111005be1a43f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:02 +0000
Subject: [PATCH 15/92] fix: do not write files that were added and then
 deleted in a new version

The manifest was left with an empty list of content paths and the file was
still copied into the object, which was then not valid (E023a).
---
 ocfl/inventory.py   | 5 ++++-
 ocfl/new_version.py | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/ocfl/inventory.py b/ocfl/inventory.py
index c1cea26..7da7cdf 100644
--- a/ocfl/inventory.py
+++ b/ocfl/inventory.py
@@ -792,7 +792,10 @@ class Version():
                         for cpath in self.inv.manifest[digest]:
                             if not cpath.startswith(self.vdir + "/"):
                                 cpaths.append(cpath)
-                        self.inv.manifest[digest] = cpaths
+                        if cpaths:
+                            self.inv.manifest[digest] = cpaths
+                        else:
+                            del self.inv.manifest[digest]
                     # FIXME - Also adjust fixity!
                 return digest
         raise InventoryException("Logical path to delete %s not found!" % (path))
diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index e9faa50..251b264 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -364,6 +364,11 @@ class NewVersion():
             inventory.current_version.delete_logical_path(logical_path)
         except InventoryException:
             raise NewVersionException("Cannot delete logical path %s that does not exist in new version %s" % (logical_path, inventory.head))
+        # Do not copy any files that are no longer in the manifest
+        content_paths = set(inventory.content_paths)
+        for content_path in list(self.files_to_copy):
+            if content_path not in content_paths:
+                del self.files_to_copy[content_path]
 
     def rename(self, old_logical_path, new_logical_path):
         """Rename content in the version state to a new logical_path.
-- 
2.43.0


From 958bb7872f411d2e67234226fe7cc4b46d6e8708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:02 +0000
Subject: [PATCH 16/92] fix: keep content when renaming a file added in the
 same new version

rename() was done as a delete, which removed the content path of a newly added
file from the manifest.
---
 ocfl/new_version.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 251b264..ab78cfb 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -384,14 +384,12 @@ class NewVersion():
         inventory = self.inventory
         if new_logical_path in inventory.current_version.logical_paths:
             raise NewVersionException("Cannot rename to logical path %s that already exists in new version %s" % (new_logical_path, inventory.head))
-        try:
-            digest = inventory.current_version.delete_logical_path(old_logical_path)
-            if digest in inventory.current_version.state:
-                inventory.current_version.state[digest].append(new_logical_path)
-            else:
-                inventory.current_version.state[digest] = [new_logical_path]
-        except InventoryException:
+        digest = inventory.current_version.digest_for_logical_path(old_logical_path)
+        if digest is None:
             raise NewVersionException("Cannot rename logical path %s that does not exist in new version %s" % (old_logical_path, inventory.head))
+        # Change only the state, the content stays the same
+        paths = inventory.current_version.state[digest]
+        paths[paths.index(old_logical_path)] = new_logical_path
 
     def add_from_srcdir(self):
         """Add all content from srcdir."""
-- 
2.43.0


From 1af22c671fec3c2face255eb129c95db99768050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:38 +0000
Subject: [PATCH 17/92] fix: refuse illegal and conflicting paths in a new
 version

add() and rename() accepted logical and content paths with empty, . and ..
elements (and so could write outside of the object) and paths that use an
existing file as a directory, all of which give objects that are not valid.
---
 ocfl/new_version.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index ab78cfb..1027a8b 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -21,6 +21,30 @@ class NewVersionException(Exception):
     """Exception class for NewVersion objects."""
 
 
+def _check_path(path, existing_paths, description):
+    """Check path can be added alongside existing_paths.
+
+    Arguments:
+        path (str): logical or content path to be added
+        existing_paths (list): logical or content paths already present
+        description (str): description of path for error message
+
+    Raises:
+        NewVersionException: if path has empty, "." or ".." path elements, or
+            if a file in either path or existing_paths would have to also be a
+            directory in the other
+    """
+    elements = path.split("/")
+    if "" in elements or "." in elements or ".." in elements:
+        raise NewVersionException("Bad %s %s, must not have empty, . or .. path elements"
+                                  % (description, path))
+    parents = set("/".join(elements[:n]) for n in range(1, len(elements)))
+    for existing_path in existing_paths:
+        if existing_path in parents or existing_path.startswith(path + "/"):
+            raise NewVersionException("Bad %s %s, conflicts with %s"
+                                      % (description, path, existing_path))
+
+
 class NewVersion():
     """Class to represent a new version to be added to an Object."""
 
@@ -302,7 +326,8 @@ class NewVersion():
                 object
 
         Raises:
-            NewVersionException: if the specifies content path is not allowed
+            NewVersionException: if the specified logical path or content path
+                is not allowed
         """
         inventory = self.inventory
         prefix = inventory.head + "/" + self.content_directory + "/"
@@ -319,6 +344,8 @@ class NewVersion():
         # Does this logical path already exist?
         if logical_path in inventory.current_version.logical_paths:
             raise NewVersionException("Logical path %s already exists in new version %s" % (logical_path, inventory.head))
+        _check_path(logical_path, inventory.current_version.logical_paths, "logical path")
+        _check_path(content_path, inventory.content_paths, "content path")
         # Work out digest, add to state
         digest = file_digest(src_path, inventory.digest_algorithm, fs=self.src_fs)
         if digest in inventory.current_version.state_add_if_not_present():
@@ -387,6 +414,9 @@ class NewVersion():
         digest = inventory.current_version.digest_for_logical_path(old_logical_path)
         if digest is None:
             raise NewVersionException("Cannot rename logical path %s that does not exist in new version %s" % (old_logical_path, inventory.head))
+        _check_path(new_logical_path,
+                    [path for path in inventory.current_version.logical_paths if path != old_logical_path],
+                    "logical path")
         # Change only the state, the content stays the same
         paths = inventory.current_version.state[digest]
         paths[paths.index(old_logical_path)] = new_logical_path
-- 
2.43.0


From 64dcd9cc4ec7526472e306a9a622e7f54f62614e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 18/92] fix: do not create or build an object over existing
 content

The documentation says that objdir must not already exist, but an existing
object was overwritten in place leaving an invalid mixture of files.
---
 ocfl/object.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 97de31a..d835fd8 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -141,6 +141,20 @@ class Object():  # pylint: disable=too-many-public-methods
         except FileNotFoundError as e:
             raise ObjectException("Failed to open object filesystem '%s' (%s)" % (objdir, e))
 
+    def _open_new_obj_fs(self, objdir):
+        """Open an fs filesystem for a new object at objdir.
+
+        Arguments:
+            objdir (str): path string for the new object
+
+        Raises:
+            ocfl.ObjectException: on failure to open filesystem, or if there is
+                already something at objdir
+        """
+        self.open_obj_fs(objdir, create=True)
+        if len(fsw_listdir_names(self.obj_fs, "")) > 0:
+            raise ObjectException("Object directory '%s' already exists and is not empty" % (objdir))
+
     def copy_into_object(self, src_fs, srcfile, filepath, create_dirs=False):
         """Copy from srcfile to filepath in object."""
         dstpath = os.path.dirname(filepath)
@@ -289,7 +303,7 @@ class Object():  # pylint: disable=too-many-public-methods
         if self.id is None:
             raise ObjectException("Can't build object, identifier is not set!")
         if objdir is not None:
-            self.open_obj_fs(objdir, create=True)
+            self._open_new_obj_fs(objdir)
         num_versions = 0
         src_fs = fsw_openfs(srcdir)
         inventory = None
@@ -367,7 +381,7 @@ class Object():  # pylint: disable=too-many-public-methods
         if objdir is None:
             return inventory
         # Write out v1 object
-        self.open_obj_fs(objdir, create=True)
+        self._open_new_obj_fs(objdir)
         self.write_inventory_and_sidecar(inventory, "v1")
         # Write object root with object declaration, inventory and sidecar
         self.write_object_declaration()
-- 
2.43.0


From bec09608c6915d87b0543d546e5741a51b1aa981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:23 +0000
Subject: [PATCH 19/92] fix: do not overwrite an existing file in extract_file

The documentation says that a file of the same name must not exist.
---
 ocfl/object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index d835fd8..2ac5201 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -798,6 +798,8 @@ class Object():  # pylint: disable=too-many-public-methods
             existing_file = manifest[digest][0]  # First entry with the digest, there could be > 1
             for logical_file in logical_files:
                 if logical_file == logical_path:
+                    if dst_fs.exists(basename):
+                        raise ObjectException("Target file %s already exists in %s, aborting!" % (basename, dstdir))
                     logging.debug("Copying %s -> %s", digest, basename)
                     fsw_copyfile(self.obj_fs, existing_file, dst_fs, basename)
                     copied = True
-- 
2.43.0


From afd8578fd798c33c42323d2250ba778c59200368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:17 +0000
Subject: [PATCH 20/92] fix: compare inventory sidecar digest without regard to
 case

---
 ocfl/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 9b5dd9b..8adca19 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -236,7 +236,7 @@ class Validator():
             try:
                 digest_recorded = self.read_inventory_digest(inv_digest_file)
                 digest_actual = file_digest(inv_file, digest_algorithm, fs=self.obj_fs)
-                if digest_actual != digest_recorded:
+                if digest_actual != normalized_digest(digest_recorded, digest_type=digest_algorithm):
                     self.log.error("E060", inv_file=inv_file, actual=digest_actual, recorded=digest_recorded, inv_digest_file=inv_digest_file)
             except ValueError as e:  # pylint: disable=broad-except
                 self.log.error("E061", description=str(e))
-- 
2.43.0


From 33cbb2246e5c0e9dad50ba78004614f7216f4205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:17 +0000
Subject: [PATCH 21/92] fix: compare version states without regard to case of
 digests

---
 ocfl/inventory_validator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 99219af..74f46c7 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -599,8 +599,10 @@ class InventoryValidator():
         here provide more detailed diagnostics in the case that the digest
         algorithm is the same across versions being compared.
         """
-        self_state = self.inventory["versions"][version]["state"]
-        prior_state = prior.inventory["versions"][version]["state"]
+        self_state = {normalized_digest(digest, self.digest_algorithm): files
+                      for digest, files in self.inventory["versions"][version]["state"].items()}
+        prior_state = {normalized_digest(digest, prior.digest_algorithm): files
+                       for digest, files in prior.inventory["versions"][version]["state"].items()}
         for digest in set(self_state.keys()).union(prior_state.keys()):
             if digest not in prior_state:
                 self._error("E066d", version=version, prior_head=prior.head,
-- 
2.43.0


From fa25122b9b45923451bd85b4625cd638db1153bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:17 +0000
Subject: [PATCH 22/92] fix: recognize registered extensions in object
 extensions directory

---
 ocfl/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 8adca19..d6f4b74 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -286,7 +286,7 @@ class Validator():
         extensions.
         """
         for entry in self.obj_fs.listdir("extensions", detail=True):
-            name = entry["name"]
+            name = os.path.basename(entry["name"])
             if entry["type"] == "directory":
                 if name not in self.registered_extensions:
                     self.log.warning("W013", entry=name)
-- 
2.43.0


From 76f6095075f0459bbbc48ae28f675c558cecebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:17 +0000
Subject: [PATCH 23/92] fix: check contentDirectory against that in the first
 version inventory

---
 ocfl/validator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index d6f4b74..01dac19 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -307,7 +307,7 @@ class Validator():
         if len(version_dirs) == 0:
             return prior_manifest_digests, prior_fixity_digests
         first_version = version_dirs[0]
-        first_version_content_directory_set = False
+        first_version_content_directory_set = None  # unknown unless there is a first version inventory
         last_version = version_dirs[-1]
         prev_version_dir = "NONE"  # will be set for first directory with inventory
         prev_spec_version = "1.0"  # lowest version
@@ -341,12 +341,12 @@ class Validator():
                 if self.id and "id" in version_inventory:
                     if version_inventory["id"] != self.id:
                         self.log.error("E037b", where=version_dir, root_id=self.id, version_id=version_inventory["id"])
-                if first_version:
+                if version_dir == first_version:
                     first_version_content_directory_set = inv_validator.content_directory_set
                     if not first_version_content_directory_set and self.content_directory_set:
                         self.log.error("E019", where="root")
                         first_version_content_directory_set = False  # report E019 just once
-                elif not first_version_content_directory_set and inv_validator.content_directory_set:
+                elif first_version_content_directory_set is False and inv_validator.content_directory_set:
                     # E019 is a rather odd and specific error condition: that if
                     # the contentDirectory is set for any version it must be set
                     # the first version. It isn't clear that this is very usefully
-- 
2.43.0


From 8b402092a9ce61f94176f16b04e5ae9fbf3ca831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:50 +0000
Subject: [PATCH 24/92] fix: report inventory that cannot be decoded instead of
 raising an exception

---
 ocfl/validator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 01dac19..40bca25 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -205,7 +205,8 @@ class Validator():
         except FileNotFoundError:
             self.log.error("E033", where=where, explanation="Inventory not present")
             raise ValidatorAbortException
-        except json.decoder.JSONDecodeError as e:
+        except (ValueError, RecursionError) as e:
+            # JSON or UTF-8 decoding errors, or JSON too large or deep to parse
             self.log.error("E033", where=where, explanation=str(e))
             raise ValidatorAbortException
         inv_validator = InventoryValidator(log=self.log, where=where,
-- 
2.43.0


From e708b57c0262b74fd10d45d76bd3769e5608d981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 25/92] fix: treat unreadable Namaste file content as not
 matching

---
 ocfl/namaste.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ocfl/namaste.py b/ocfl/namaste.py
index 3731959..fc7e0c9 100644
--- a/ocfl/namaste.py
+++ b/ocfl/namaste.py
@@ -122,13 +122,16 @@ class Namaste():
         if fsw is not None:
             try:
                 content = fsw.read_text(filepath)
-            except FileNotFoundError:
+            except (FileNotFoundError, IsADirectoryError, UnicodeDecodeError):
                 raise NamasteException("Namaste file %s cannot be read!" % (filepath))
         else:
             if not os.path.isfile(filepath):
                 raise NamasteException("Namaste file %s does not exist!" % (filepath))
-            with open(filepath, "r", encoding="utf-8") as fh:
-                content = fh.read()
+            try:
+                with open(filepath, "r", encoding="utf-8") as fh:
+                    content = fh.read()
+            except UnicodeDecodeError:
+                raise NamasteException("Namaste file %s cannot be read!" % (filepath))
         if self.tvalue != self._tr_func(content):
             raise NamasteException("Content of Namaste file %s doesn't match tvalue %s" % (filepath, self.tvalue))
 
-- 
2.43.0


From 291182d2bff6e9d55a05d7b47bcb28e1a5372529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 26/92] fix: report directories in place of inventory files
 instead of raising an exception

---
 ocfl/validator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 40bca25..e6addfc 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -202,7 +202,7 @@ class Validator():
         try:
             with self.obj_fs.open(inv_file, "r") as fh:
                 inventory = json.load(fh)
-        except FileNotFoundError:
+        except (FileNotFoundError, IsADirectoryError):
             self.log.error("E033", where=where, explanation="Inventory not present")
             raise ValidatorAbortException
         except (ValueError, RecursionError) as e:
@@ -239,7 +239,7 @@ class Validator():
                 digest_actual = file_digest(inv_file, digest_algorithm, fs=self.obj_fs)
                 if digest_actual != normalized_digest(digest_recorded, digest_type=digest_algorithm):
                     self.log.error("E060", inv_file=inv_file, actual=digest_actual, recorded=digest_recorded, inv_digest_file=inv_digest_file)
-            except ValueError as e:  # pylint: disable=broad-except
+            except (ValueError, IsADirectoryError) as e:
                 self.log.error("E061", description=str(e))
         else:
             self.log.error("E058b", inv_digest_file=inv_digest_file)
-- 
2.43.0


From 5c732ba62494da86678fcad201a035e15a575135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:00 +0000
Subject: [PATCH 27/92] fix: validate objects with any number of declaration
 files

---
 ocfl/namaste.py   | 5 +++--
 ocfl/validator.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ocfl/namaste.py b/ocfl/namaste.py
index fc7e0c9..897d2d9 100644
--- a/ocfl/namaste.py
+++ b/ocfl/namaste.py
@@ -29,7 +29,8 @@ def find_namastes(d, dir="", fsw=None, limit=10):
         d (int): tag name, D in NAMASTE specification
         dir (str): directory to look in
         fsw (None or AbstractFileSystem): filesystem to use if not None
-        limit (int): limit sets a limit on the number of Namaste objects returned
+        limit (int or None): limit sets a limit on the number of Namaste objects
+            returned, None for no limit
 
     Returns:
         list: of Namaste object values sorted by filename to ensure consistent behaviour when
@@ -47,7 +48,7 @@ def find_namastes(d, dir="", fsw=None, limit=10):
     else:
         filenames = os.listdir(dir)
     filenames = [f for f in filenames if f.startswith(prefix)]
-    if len(filenames) > limit:
+    if limit is not None and len(filenames) > limit:
         raise NamasteException("Found too many Namaste files with tag %s in %s" % (d, dir))
     return [Namaste(d, tvalue=filename[len(prefix):]) for filename in sorted(filenames)]
 
diff --git a/ocfl/validator.py b/ocfl/validator.py
index e6addfc..a580152 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -130,7 +130,7 @@ class Validator():
             return False
         # Object declaration, set spec version number. If there are multiple declarations,
         # look for the lastest object version then report any others as errors
-        namastes = find_namastes(0, fsw=self.obj_fs)
+        namastes = find_namastes(0, fsw=self.obj_fs, limit=None)
         if len(namastes) == 0:
             self.log.error("E003a", assumed_version=self.spec_version)
         else:
-- 
2.43.0


From bf58e7bed336ed16bc5102dacad217234b712019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:27 +0000
Subject: [PATCH 28/92] fix: report file in place of content directory

---
 ocfl/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index a580152..9341820 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -420,7 +420,7 @@ class Validator():
                     if ((entry == INVENTORY_FILENAME)
                             or (version_dir in self.inventory_digest_files and entry == self.inventory_digest_files[version_dir])):
                         pass
-                    elif entry == self.content_directory:
+                    elif entry == self.content_directory and self.obj_fs.isdir(entrypath):
                         # Check content_directory
                         content_path = os.path.join(version_dir, self.content_directory)
                         num_content_files_in_version = 0
-- 
2.43.0


From 075358861b58808fbaa91823ecb8145a7b3e6414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:11 +0000
Subject: [PATCH 29/92] fix: report malformed inventory structures instead of
 raising an exception

---
 ocfl/inventory_validator.py | 21 ++++++++++++++++-----
 ocfl/validator.py           |  3 +++
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 74f46c7..2076a16 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -124,6 +124,9 @@ class InventoryValidator():
         self.inventory = inventory
         self.spec_version = self.default_spec_version if force_spec_version is None else force_spec_version
         self.log.spec_version = self.spec_version
+        if not isinstance(inventory, dict):
+            self._error("E033", explanation="not a JSON object")
+            return False
         if "id" in inventory:
             iid = inventory["id"]
             if not isinstance(iid, str) or iid == "":
@@ -157,7 +160,7 @@ class InventoryValidator():
             self._error("E036c")
         elif inventory["digestAlgorithm"] == "sha512":
             pass
-        elif self.lax_digests:
+        elif self.lax_digests and isinstance(inventory["digestAlgorithm"], str):
             self.digest_algorithm = inventory["digestAlgorithm"]
         elif inventory["digestAlgorithm"] == "sha256":
             self._warning("W004")
@@ -168,7 +171,7 @@ class InventoryValidator():
         if "contentDirectory" in inventory:
             # Careful only to set self.content_directory if value is safe
             cd = inventory["contentDirectory"]
-            if not isinstance(cd, str) or "/" in cd:
+            if not isinstance(cd, str) or cd == "" or "/" in cd:
                 self._error("E017")
             elif cd in (".", ".."):
                 self._error("E018")
@@ -300,6 +303,9 @@ class InventoryValidator():
                     else:
                         manifest_digests.add(norm_digest)
                     for file in manifest[digest]:
+                        if not isinstance(file, str):
+                            self._error("E042a", path=file)
+                            continue
                         manifest_files[file] = norm_digest
                         if self._check_content_path(file, content_paths, content_directories):
                             manifest_files_correct_format.append(file)
@@ -354,7 +360,7 @@ class InventoryValidator():
                             else:
                                 digests_seen.add(norm_digest)
                             for file in fixity_algoritm_block[digest]:
-                                if file not in manifest_files:
+                                if not isinstance(file, str) or manifest_files is None or file not in manifest_files:
                                     self._error("E057d", digest=norm_digest, algorithm=digest_algorithm, path=file)
 
     def _validate_version_sequence(self, versions):
@@ -427,6 +433,9 @@ class InventoryValidator():
         digests_used = []
         for v in all_versions:
             version = versions[v]
+            if not isinstance(version, dict):
+                self._error("E048", version=v)  # Not a version block
+                continue
             if "created" not in version:
                 self._error("E048", version=v)  # No created
             elif not isinstance(versions[v]["created"], str):
@@ -487,11 +496,13 @@ class InventoryValidator():
                     self._error("E050e", version=version, digest=digest)
                 else:
                     for path in state[digest]:
-                        if path in logical_paths:
+                        if not isinstance(path, str):
+                            self._error("E052", version=version, path=path)
+                        elif path in logical_paths:
                             self._error("E095a", version=version, path=path)
                         else:
                             self._check_logical_path(path, version, logical_paths, logical_directories)
-                    if digest not in unnormalized_digests:
+                    if unnormalized_digests is not None and digest not in unnormalized_digests:
                         # Exact string value must match, not just normalized
                         self._error("E050f", version=version, digest=digest)
                     norm_digest = normalized_digest(digest, self.digest_algorithm)
diff --git a/ocfl/validator.py b/ocfl/validator.py
index 9341820..4ce7793 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -213,6 +213,9 @@ class Validator():
                                            lax_digests=self.lax_digests,
                                            default_spec_version=self.spec_version)
         inv_validator.validate(inventory, force_spec_version=force_spec_version)
+        if not isinstance(inventory, dict):
+            # Nothing that we can do without a JSON object
+            raise ValidatorAbortException
         return inventory, inv_validator
 
     def validate_inventory_digest(self, inv_file, digest_algorithm, where="root"):
-- 
2.43.0


From f1a2050899de42044e4285db0465f710d1c13730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:49 +0000
Subject: [PATCH 30/92] fix: compare prior version inventories only when they
 are valid, count only errors of this validation

---
 ocfl/validator.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 4ce7793..f1dca8e 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -119,6 +119,7 @@ class Validator():
         when validating a storage root, for example.
         """
         self.initialize()
+        start_errors = self.log.num_errors  # log may be shared with prior validations
         try:
             if isinstance(path, str):
                 self.obj_fs = fsw_openfs(path)
@@ -162,8 +163,9 @@ class Validator():
             return False
         try:
             inventory, inv_validator = self.validate_inventory(inv_file)
-            inventory_is_valid = self.log.num_errors == 0
-            self.root_inv_validator = inv_validator
+            inventory_is_valid = self.log.num_errors == start_errors
+            if inventory_is_valid:
+                self.root_inv_validator = inv_validator
             all_versions = inv_validator.all_versions
             self.id = inv_validator.id
             self.content_directory = inv_validator.content_directory
@@ -179,7 +181,7 @@ class Validator():
                 self.validate_content(inventory, all_versions, prior_manifest_digests, prior_fixity_digests)
         except ValidatorAbortException:
             pass
-        return self.log.num_errors == 0
+        return self.log.num_errors == start_errors
 
     def validate_inventory(self, inv_file, where="root", force_spec_version=None):
         """Validate a given inventory file, record errors with self.log.error().
@@ -337,7 +339,9 @@ class Validator():
                 # Note that inventories in prior versions may use different digest
                 # algorithms from the current invenotory. Also, they may accord
                 # with the same or earlier versions of the specification
+                inv_start_errors = self.log.num_errors
                 version_inventory, inv_validator = self.validate_inventory(inv_file, where=version_dir)
+                version_inventory_is_valid = self.log.num_errors == inv_start_errors
                 this_spec_version = inv_validator.spec_version
                 digest_algorithm = inv_validator.digest_algorithm
                 self.validate_inventory_digest(inv_file, digest_algorithm, where=version_dir)
@@ -360,7 +364,7 @@ class Validator():
                     first_version_content_directory_set = False  # report E019 just once
                 if self.content_directory != inv_validator.content_directory:
                     self.log.error("E020", where=version_dir, root_content_directory=self.content_directory, version_content_directory=inv_validator.content_directory)
-                if "manifest" in version_inventory:
+                if version_inventory_is_valid:
                     # Check that all files listed in prior inventories are in manifest
                     not_seen = set(prior_manifest_digests.keys())
                     for digest in version_inventory["manifest"]:
@@ -382,11 +386,11 @@ class Validator():
                                 prior_manifest_digests[filepath][digest_algorithm][digest] = []
                             prior_manifest_digests[filepath][digest_algorithm][digest].append(version_dir)
                 # Is this inventory an appropriate prior version of the object root inventory?
-                if self.root_inv_validator is not None:
+                if self.root_inv_validator is not None and version_inventory_is_valid:
                     self.root_inv_validator.validate_as_prior_version(inv_validator)
                 # Fixity blocks are independent in each version. Record all values and the versions
                 # they occur in for later checks against content
-                if "fixity" in version_inventory:
+                if version_inventory_is_valid and "fixity" in version_inventory:
                     for digest_algorithm in version_inventory["fixity"]:
                         for unnormalized_digest in version_inventory["fixity"][digest_algorithm]:
                             digest = normalized_digest(unnormalized_digest, digest_type=digest_algorithm)
-- 
2.43.0


From 4c6f4f4aa2c278d375b85d7de0f8d2c5f25c0826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:21 +0000
Subject: [PATCH 31/92] fix: handle unknown digest algorithms when validating
 with lax digests

---
 ocfl/validator.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index f1dca8e..beac289 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -468,7 +468,12 @@ class Validator():
                         self.log.error("E092b", where="root", content_path=filepath)
                     else:
                         if self.check_digests:
-                            content_digest = file_digest(filepath, digest_type=self.digest_algorithm, fs=self.obj_fs)
+                            try:
+                                content_digest = file_digest(filepath, digest_type=self.digest_algorithm, fs=self.obj_fs)
+                            except ValueError:
+                                # Unknown algorithm permitted by lax_digests, cannot check content
+                                self.log.error("E026a", where="root", digest=self.digest_algorithm)
+                                return
                             if content_digest != normalized_digest(digest, digest_type=self.digest_algorithm):
                                 self.log.error("E092a", where="root", digest_algorithm=self.digest_algorithm, digest=digest, content_path=filepath, content_digest=content_digest)
                             known_digests = {self.digest_algorithm: content_digest}
@@ -502,7 +507,10 @@ class Validator():
                     # Don't recompute anything, just use it if we've seen it before
                     content_digest = known_digests[digest_algorithm]
                 else:
-                    content_digest = file_digest(filepath, digest_type=digest_algorithm, fs=self.obj_fs)
+                    try:
+                        content_digest = file_digest(filepath, digest_type=digest_algorithm, fs=self.obj_fs)
+                    except ValueError:
+                        continue  # unknown algorithm permitted by lax_digests, cannot check
                     known_digests[digest_algorithm] = content_digest
                 for digest in additional_digests[filepath][digest_algorithm]:
                     if content_digest != normalized_digest(digest, digest_type=digest_algorithm):
-- 
2.43.0


From 5243826aaedace14688de55da173088c1ee4f70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:55 +0000
Subject: [PATCH 32/92] fix: match whole of digests when checking their form

---
 ocfl/inventory_validator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 2076a16..46caeaf 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -289,7 +289,7 @@ class InventoryValidator():
             content_paths = set()
             content_directories = set()
             for digest in manifest:
-                m = re.match(self._digest_regex(), digest)
+                m = re.fullmatch(self._digest_regex(), digest)
                 if not m:
                     self._error("E025b", digest=digest, algorithm=self.digest_algorithm)  # wrong form of digest
                 elif not isinstance(manifest[digest], list):
@@ -344,7 +344,7 @@ class InventoryValidator():
                 else:
                     digests_seen = set()
                     for digest in fixity_algoritm_block:
-                        m = re.match(regex, digest)
+                        m = re.fullmatch(regex, digest)
                         if not m:
                             self._error("E057b", digest=digest, algorithm=digest_algorithm)  # wrong form of digest
                         elif not isinstance(fixity_algoritm_block[digest], list):
@@ -490,7 +490,7 @@ class InventoryValidator():
         else:
             digest_re = re.compile(self._digest_regex())
             for digest in state:
-                if not digest_re.match(digest):
+                if not digest_re.fullmatch(digest):
                     self._error("E050d", version=version, digest=digest)
                 elif not isinstance(state[digest], list):
                     self._error("E050e", version=version, digest=digest)
-- 
2.43.0


From 3af36beecd9d0234e5a2c6fab7f944d8a8d68678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:55 +0000
Subject: [PATCH 33/92] fix: report the fixity digest algorithm concerned

---
 ocfl/inventory_validator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 46caeaf..e1a87d9 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -333,14 +333,14 @@ class InventoryValidator():
                     regex = digest_regex(digest_algorithm)
                 except ValueError:
                     if not self.lax_digests:
-                        self._error("E056b", algorithm=self.digest_algorithm)
+                        self._error("E056b", algorithm=digest_algorithm)
                         continue
                     # Match anything
                     regex = r"""^.*$"""
                     known_digest = False
                 fixity_algoritm_block = fixity[digest_algorithm]
                 if not isinstance(fixity_algoritm_block, dict):
-                    self._error("E057a", algorithm=self.digest_algorithm)
+                    self._error("E057a", algorithm=digest_algorithm)
                 else:
                     digests_seen = set()
                     for digest in fixity_algoritm_block:
-- 
2.43.0


From 033c7ef84a546ccbc8dca608ac07786743173206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:31 +0000
Subject: [PATCH 34/92] fix: match whole of datetime strings

---
 ocfl/w3c_datetime.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ocfl/w3c_datetime.py b/ocfl/w3c_datetime.py
index 9cd7e9e..3fdf3fc 100644
--- a/ocfl/w3c_datetime.py
+++ b/ocfl/w3c_datetime.py
@@ -78,7 +78,7 @@ def str_to_datetime(s, context="datetime"):
     if s == "":
         raise ValueError("Attempt to set empty %s" % (context))
     # Make a date into a full datetime
-    m = re.match(r"\d\d\d\d(\-\d\d(\-\d\d)?)?$", s)
+    m = re.fullmatch(r"\d\d\d\d(\-\d\d(\-\d\d)?)?", s, re.ASCII)
     if m is not None:
         if m.group(1) is None:
             s += "-01-01"
@@ -86,7 +86,7 @@ def str_to_datetime(s, context="datetime"):
             s += "-01"
         s += "T00:00:00Z"
     # Now have datetime with timezone info
-    m = re.match(r"(.*\d{2}:\d{2}:\d{2})(\.\d+)([^\d].*)?$", s)
+    m = re.fullmatch(r"(.*\d{2}:\d{2}:\d{2})(\.\d+)([^\d].*)?", s, re.ASCII)
     # Chop out fractional seconds if present
     fractional_seconds = 0
     if m is not None:
@@ -101,8 +101,8 @@ def str_to_datetime(s, context="datetime"):
     # Seems that one should be able to handle timezone offset
     # with dt.tzinfo module but this has variation in behavior
     # between python 2.6 and 2.7... so do here for now
-    m = re.match(r"(\d\d\d\d\-\d\d\-\d\dT\d\d:\d\d(:\d\d)?)(Z|([+-])"
-                 r"(\d\d):(\d\d))?$", s)
+    m = re.fullmatch(r"(\d\d\d\d\-\d\d\-\d\dT\d\d:\d\d(:\d\d)?)(Z|([+-])"
+                     r"(\d\d):(\d\d))?", s, re.ASCII)
     if m is None:
         raise ValueError("Bad datetime format (%s)" % s)
     dt = dateutil_parser.parse(m.group(1) + "Z")
-- 
2.43.0


From c7ee082cad51538dd29db42f58e89db8473eb882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:03 +0000
Subject: [PATCH 35/92] fix: check that root inventory type matches the object
 declaration

---
 ocfl/validator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index beac289..53e8288 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -132,10 +132,10 @@ class Validator():
         # Object declaration, set spec version number. If there are multiple declarations,
         # look for the lastest object version then report any others as errors
         namastes = find_namastes(0, fsw=self.obj_fs, limit=None)
+        spec_version = None
         if len(namastes) == 0:
             self.log.error("E003a", assumed_version=self.spec_version)
         else:
-            spec_version = None
             for namaste in namastes:
                 # Extract and check spec version number
                 this_file_version = None
@@ -163,6 +163,9 @@ class Validator():
             return False
         try:
             inventory, inv_validator = self.validate_inventory(inv_file)
+            if len(namastes) == 1 and spec_version is not None and inv_validator.spec_version != spec_version:
+                self.log.error("E038a", where="root", got=inventory["type"],
+                               expected="https://ocfl.io/" + spec_version + "/spec/#inventory")
             inventory_is_valid = self.log.num_errors == start_errors
             if inventory_is_valid:
                 self.root_inv_validator = inv_validator
-- 
2.43.0


From b2ae9d86fca90805b3871812b42344c670e10c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:23 +0000
Subject: [PATCH 36/92] fix: apply force_spec_version when validating an object

---
 ocfl/validator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 53e8288..e485bca 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -156,6 +156,12 @@ class Validator():
                 self.log.spec_version = self.spec_version
                 if len(namastes) > 1:
                     self.log.error("E003b", files=len(namastes), using_version=self.spec_version)
+                elif self.force_spec_version is not None and spec_version != self.force_spec_version:
+                    self.log.error("E006", filename=namastes[0].filename)
+        if self.force_spec_version is not None:
+            spec_version = self.force_spec_version
+            self.spec_version = spec_version
+            self.log.spec_version = spec_version
         # Object root inventory file
         inv_file = INVENTORY_FILENAME
         if not self.obj_fs.exists(inv_file):
@@ -163,7 +169,7 @@ class Validator():
             return False
         try:
             inventory, inv_validator = self.validate_inventory(inv_file)
-            if len(namastes) == 1 and spec_version is not None and inv_validator.spec_version != spec_version:
+            if len(namastes) <= 1 and spec_version is not None and inv_validator.spec_version != spec_version:
                 self.log.error("E038a", where="root", got=inventory["type"],
                                expected="https://ocfl.io/" + spec_version + "/spec/#inventory")
             inventory_is_valid = self.log.num_errors == start_errors
-- 
2.43.0


From ec6827461d62e6531ec67131039ffd34f1967d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:27 +0000
Subject: [PATCH 37/92] fix: add missing descriptions of errors E011 and E092

---
 ocfl/data/validation-errors.json | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ocfl/data/validation-errors.json b/ocfl/data/validation-errors.json
index 65fff9e..063258c 100644
--- a/ocfl/data/validation-errors.json
+++ b/ocfl/data/validation-errors.json
@@ -94,6 +94,12 @@
        "en": "OCFL Object %s inventory versions block includes an out-of-sequence version"
     }
   },
+  "E011": {
+    "params": ["where"],
+    "description": {
+       "en": "OCFL Object %s inventory versions block includes versions that exceed or do not match the zero-padding of the version numbers"
+    }
+  },
   "E015": {
     "params": ["where", "entry"],
     "description": {
@@ -587,6 +593,12 @@
        "en": "OCFL Object %s inventory manifest file list for digest %s is not a JSON array"
     }
   },
+  "E092": {
+    "params": ["where", "digest"],
+    "description": {
+       "en": "OCFL Object %s inventory manifest entry for digest %s does not have an array value"
+    }
+  },
   "E092a": {
     "params": ["where", "digest_algorithm", "digest", "content_path", "content_digest"],
     "description": {
-- 
2.43.0


From 04fc9bfcc5390a0c79b66542dce33a7a010ba2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:08 +0000
Subject: [PATCH 38/92] fix: check specification version of prior inventories
 when head version has no inventory

---
 ocfl/validator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index e485bca..9e3b42c 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -330,6 +330,10 @@ class Validator():
             inv_file = os.path.join(version_dir, INVENTORY_FILENAME)
             if not self.obj_fs.exists(inv_file):
                 self.log.warning("W010", where=version_dir)
+                if version_dir == last_version and prev_spec_version > self.spec_version:
+                    # The root inventory is also that for the last version
+                    self.log.error("E103", where="root", this_spec_version=self.spec_version,
+                                   prev_version_dir=prev_version_dir, prev_spec_version=prev_spec_version)
                 continue
             # There is an inventory file for this version directory, check it
             if version_dir == last_version:
-- 
2.43.0


From d870ed9a0c892f66bafd1ea4dc09db954d4d0077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:32 +0000
Subject: [PATCH 39/92] fix: refuse settings that would create an invalid
 object

---
 ocfl/object.py | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 2ac5201..4dcf820 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -12,8 +12,8 @@ import os.path
 import re
 import logging
 
-from .constants import INVENTORY_FILENAME, DEFAULT_SPEC_VERSION, DEFAULT_CONTENT_DIRECTORY
-from .digest import file_digest
+from .constants import INVENTORY_FILENAME, SPEC_VERSIONS_SUPPORTED, DEFAULT_SPEC_VERSION, DEFAULT_CONTENT_DIRECTORY
+from .digest import file_digest, digest_regex
 from .inventory import Inventory
 from .inventory_validator import InventoryValidator
 from .new_version import NewVersion
@@ -141,6 +141,36 @@ class Object():  # pylint: disable=too-many-public-methods
         except FileNotFoundError as e:
             raise ObjectException("Failed to open object filesystem '%s' (%s)" % (objdir, e))
 
+    def _check_digest_algorithm(self, digest_algorithm):
+        """Check that digest_algorithm may be used for content addressing.
+
+        Arguments:
+            digest_algorithm (str): name of digest algorithm
+
+        Raises:
+            ocfl.ObjectException: if the digest algorithm is not known, or if
+                it is not one allowed without lax_digests being set
+        """
+        try:
+            digest_regex(digest_algorithm)
+        except ValueError as e:
+            raise ObjectException(str(e))
+        if not self.lax_digests and not digest_algorithm.startswith(("sha512", "sha256")):
+            raise ObjectException("Digest algorithm %s not allowed for content addressing" % (digest_algorithm))
+
+    def _check_new_object_settings(self):
+        """Check that current settings allow creation of a valid new object.
+
+        Raises:
+            ocfl.ObjectException: if the settings are not allowed
+        """
+        if self.spec_version not in SPEC_VERSIONS_SUPPORTED:
+            raise ObjectException("Unsupported specification version %s" % (self.spec_version))
+        if (self.content_directory is not None
+                and (self.content_directory in ("", ".", "..") or "/" in self.content_directory)):
+            raise ObjectException("Bad content directory name '%s'" % (self.content_directory))
+        self._check_digest_algorithm(self.digest_algorithm)
+
     def _open_new_obj_fs(self, objdir):
         """Open an fs filesystem for a new object at objdir.
 
@@ -302,6 +332,7 @@ class Object():  # pylint: disable=too-many-public-methods
         """
         if self.id is None:
             raise ObjectException("Can't build object, identifier is not set!")
+        self._check_new_object_settings()
         if objdir is not None:
             self._open_new_obj_fs(objdir)
         num_versions = 0
@@ -363,6 +394,7 @@ class Object():  # pylint: disable=too-many-public-methods
         """
         if self.id is None:
             raise ObjectException("Identifier is not set!")
+        self._check_new_object_settings()
         if metadata is None:
             metadata = VersionMetadata()
         nv = NewVersion.first_version(srcdir=srcdir,
@@ -478,6 +510,7 @@ class Object():  # pylint: disable=too-many-public-methods
         if digest_algorithm is None:
             digest_algorithm = old_digest_algorithm
         elif digest_algorithm != old_digest_algorithm:
+            self._check_digest_algorithm(digest_algorithm)
             logging.info("New version with use %s instead of %s digestAlgorithm",
                          digest_algorithm, old_digest_algorithm)
             inventory.digest_algorithm = digest_algorithm
@@ -516,7 +549,7 @@ class Object():  # pylint: disable=too-many-public-methods
                     d = file_digest(file, digest_algorithm, fs=self.obj_fs)
                     if d != digest:
                         raise ObjectException("Failed sanity check - files %s and %s should have same %s digest but calculated %s and %s respectively" %
-                                              files[0], file, digest_algorithm, digest, d)
+                                              (files[0], file, digest_algorithm, digest, d))
                 new_manifest[digest] = manifest[old_digest]
             manifest = new_manifest
             # Now update all state blocks
-- 
2.43.0


From d9127f4c81cb5eb12f63191f33e92acb1dffd843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:42 +0000
Subject: [PATCH 40/92] fix: build from zero-padded version directories, refuse
 to build without any

---
 ocfl/object.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 4dcf820..98fb63b 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -242,10 +242,12 @@ class Object():  # pylint: disable=too-many-public-methods
             try:
                 vdir = entry["name"]
                 vn = parse_version_directory(vdir)
-                versions[vn] = vdir
             except ObjectException:
                 # Ignore directories that are not valid version dirs
-                pass
+                continue
+            if vn in versions:
+                raise ObjectException("More than one directory for version %d (%s, %s)" % (vn, versions[vn], vdir))
+            versions[vn] = vdir
         # Do we have a valid sequence of versions?
         n = 1
         for vn in sorted(versions.keys()):
@@ -333,14 +335,17 @@ class Object():  # pylint: disable=too-many-public-methods
         if self.id is None:
             raise ObjectException("Can't build object, identifier is not set!")
         self._check_new_object_settings()
-        if objdir is not None:
-            self._open_new_obj_fs(objdir)
         num_versions = 0
         src_fs = fsw_openfs(srcdir)
+        versions = list(self.version_dirs_and_metadata(src_fs, versions_metadata))
+        if len(versions) == 0:
+            raise ObjectException("No version directories found in %s" % (srcdir))
+        if objdir is not None:
+            self._open_new_obj_fs(objdir)
         inventory = None
         # Create each version of the object
-        for (vdir, metadata) in self.version_dirs_and_metadata(src_fs, versions_metadata):
-            if vdir == "v1":
+        for (vdir, metadata) in versions:
+            if inventory is None:
                 nv = NewVersion.first_version(srcdir=os.path.join(srcdir, vdir),
                                               identifier=self.id,
                                               spec_version=self.spec_version,
@@ -364,7 +369,7 @@ class Object():  # pylint: disable=too-many-public-methods
             inventory = nv.inventory
             num_versions += 1
             if objdir is not None:
-                self.write_inventory_and_sidecar(inventory, vdir)
+                self.write_inventory_and_sidecar(inventory, inventory.head)
                 # Copy files into this version
                 for (objpath, srcpath) in nv.files_to_copy.items():
                     self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
-- 
2.43.0


From 545db11ae6f6f0b91697db7670fcf16fcec9831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:36 +0000
Subject: [PATCH 41/92] fix: refuse to create an object with an empty
 identifier

---
 ocfl/object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 98fb63b..156be49 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -332,7 +332,7 @@ class Object():  # pylint: disable=too-many-public-methods
 
         See also create(...) for creating a new object with one version.
         """
-        if self.id is None:
+        if not self.id:
             raise ObjectException("Can't build object, identifier is not set!")
         self._check_new_object_settings()
         num_versions = 0
@@ -397,7 +397,7 @@ class Object():  # pylint: disable=too-many-public-methods
 
         See also build(...) for building a new object with multiple versions.
         """
-        if self.id is None:
+        if not self.id:
             raise ObjectException("Identifier is not set!")
         self._check_new_object_settings()
         if metadata is None:
-- 
2.43.0


From 050f0ecf075213950f24fb03b550aa3b6679626f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:28 +0000
Subject: [PATCH 42/92] fix: storage root with invalid objects is not valid,
 count errors of each validation

---
 ocfl/storage_root.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 1981318..834ae70 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -443,6 +443,10 @@ class StorageRoot():
             - self.log: ValidationLogger object with any traversal errors
         """
         valid = True
+        self.num_traversal_errors = 0
+        self.num_objects = 0
+        self.good_objects = 0
+        self.errors = []
         self.log = ValidationLogger(log_warnings=log_warnings, log_errors=log_errors, lang=lang)
         self.open_root_fs()
         try:
@@ -455,6 +459,8 @@ class StorageRoot():
         self.num_objects, self.good_objects, self.errors = self.validate_hierarchy(validate_objects=validate_objects, check_digests=check_digests, log_warnings=log_warnings, max_errors=max_errors)
         if self.num_traversal_errors > 0:
             valid = False
+        if validate_objects and self.good_objects < self.num_objects:
+            valid = False
         return valid
 
     def add(self, object_path):
-- 
2.43.0


From 2b86aef569804e25d115ceb456e8f63aa1f8a724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:22 +0000
Subject: [PATCH 43/92] fix: accept configuration of layouts with no
 parameters, refuse one that isn't an object

---
 ocfl/layout.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocfl/layout.py b/ocfl/layout.py
index 28d5ab4..3d66e38 100644
--- a/ocfl/layout.py
+++ b/ocfl/layout.py
@@ -196,6 +196,8 @@ class Layout:
         Finally, the check_full_config method is called to check anything that
         might required all of the configuration to be known.
         """
+        if not isinstance(config, dict):
+            raise LayoutException("Storage root extension config is not a JSON object")
         # Check the extensionName if required and/or specified
         if "extensionName" not in config:
             if require_extension_name:
@@ -203,7 +205,7 @@ class Layout:
         elif config.get("extensionName") != self.NAME:
             raise LayoutException("Storage root extension config extensionName is %s, expected %s" % (config.get("extensionName"), self.NAME))
         # Read and check the parameters (ignore any extra params)
-        for key, method in self.PARAMS.items():
+        for key, method in (self.PARAMS or {}).items():
             method(config.get(key))
         # Finally, check full config
         self.check_full_config()
-- 
2.43.0


From d0ebe20716f07a6aeae282f91e774b6b3fb2f9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:52 +0000
Subject: [PATCH 44/92] fix: refuse identifiers . and .. in the flat quoted
 layout

---
 ocfl/layout_nnnn_flat_quoted.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocfl/layout_nnnn_flat_quoted.py b/ocfl/layout_nnnn_flat_quoted.py
index 3b1c92a..e1efff8 100644
--- a/ocfl/layout_nnnn_flat_quoted.py
+++ b/ocfl/layout_nnnn_flat_quoted.py
@@ -23,12 +23,13 @@ class Layout_NNNN_Flat_Quoted(Layout):
 
         Raises:
             LayoutException: if the identifier cannot be converted to a valid
-            object path. Currently just a check for blank
+            object path. Currently just a check for blank, '.' and '..' which
+            are not changed by quoting
 
         Uses Layout.encode() to generate a safe directory name from any
         identifier. Length is not checked but could cause operating system
         errors.
         """
-        if identifier == "":
+        if identifier in ("", ".", ".."):
             raise LayoutException("Identifier '%s' unsafe for %s layout" % (identifier, self.NAME))
         return self.encode(identifier)
-- 
2.43.0


From 553232f14e63a89c41144935ca0bdddd23b49f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:20 +0000
Subject: [PATCH 45/92] fix: match whole of identifier in the UUID quadtree
 layout, raise LayoutException

---
 ocfl/layout_nnnn_uuid_quadtree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/layout_nnnn_uuid_quadtree.py b/ocfl/layout_nnnn_uuid_quadtree.py
index 7139738..6f1e440 100644
--- a/ocfl/layout_nnnn_uuid_quadtree.py
+++ b/ocfl/layout_nnnn_uuid_quadtree.py
@@ -83,9 +83,9 @@ class Layout_NNNN_UUID_Quadtree(Layout):
         if identifier.startswith(self.prefix):
             identifier = identifier[len(self.prefix):]
         else:
-            raise Exception("UUIDQuadtree identifier %s does not start with prefix %s" % (identifier, self.prefix))
-        match = re.match(r"""([\da-f]{4})([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})([\da-f]{4})([\da-f]{4})$""", identifier)
+            raise LayoutException("UUIDQuadtree identifier %s does not start with prefix %s" % (identifier, self.prefix))
+        match = re.fullmatch(r"""([0-9a-f]{4})([0-9a-f]{4})\-([0-9a-f]{4})\-([0-9a-f]{4})\-([0-9a-f]{4})\-([0-9a-f]{4})([0-9a-f]{4})([0-9a-f]{4})""", identifier)
         if not match:
-            raise Exception("UUIDQuadtree identifier %s not valid" % (identifier))
+            raise LayoutException("UUIDQuadtree identifier %s not valid" % (identifier))
         return os.path.join(match.group(1), match.group(2), match.group(3), match.group(4),
                             match.group(5), match.group(6), match.group(7), match.group(8))
-- 
2.43.0


From b3f56f0f02571de2b698269cae4fcce871a1da9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:43 +0000
Subject: [PATCH 46/92] fix: register the tuple tree layout under the name
 written in storage roots

---
 ocfl/layout_registry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocfl/layout_registry.py b/ocfl/layout_registry.py
index 52b7ee6..ac75399 100644
--- a/ocfl/layout_registry.py
+++ b/ocfl/layout_registry.py
@@ -65,5 +65,6 @@ add_layout("0003-hash-and-id-n-tuple-storage-layout", Layout_0003_Hash_And_Id_N_
 add_layout("0003", Layout_0003_Hash_And_Id_N_Tuple)
 add_layout("nnnn-flat-quoted-storage-layout", Layout_NNNN_Flat_Quoted)
 add_layout("flat-quoted", Layout_NNNN_Flat_Quoted)
+add_layout("nnnn-tuple-tree-layout", Layout_NNNN_Tuple_Tree)
 add_layout("nnnn-tuple-tree", Layout_NNNN_Tuple_Tree)
 add_layout("nnnn-uuid-quadtree", Layout_NNNN_UUID_Quadtree)
-- 
2.43.0


From cc494d8a788abe984ab2ad14b851849d76668de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:36 +0000
Subject: [PATCH 47/92] fix: refuse booleans as numeric layout parameters

---
 ocfl/layout_0003_hash_and_id_n_tuple.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/layout_0003_hash_and_id_n_tuple.py b/ocfl/layout_0003_hash_and_id_n_tuple.py
index 8fdbd78..81b0e7e 100644
--- a/ocfl/layout_0003_hash_and_id_n_tuple.py
+++ b/ocfl/layout_0003_hash_and_id_n_tuple.py
@@ -110,7 +110,7 @@ class Layout_0003_Hash_And_Id_N_Tuple(Layout):
         """
         if value is None:
             raise LayoutException("tupleSize parameter must be specified")
-        if not isinstance(value, int) or value < 0 or value > 32:
+        if not isinstance(value, int) or isinstance(value, bool) or value < 0 or value > 32:
             raise LayoutException("tupleSize parameter must be aninteger between 0 and 32 inclusive")
         self.tuple_size = value
 
@@ -134,7 +134,7 @@ class Layout_0003_Hash_And_Id_N_Tuple(Layout):
         """
         if value is None:
             raise LayoutException("numberOfTuples parameter must be specified")
-        if not isinstance(value, int) or value < 0 or value > 32:
+        if not isinstance(value, int) or isinstance(value, bool) or value < 0 or value > 32:
             raise LayoutException("numberOfTuples parameter must be aninteger between 0 and 32 inclusive")
         self.number_of_tuples = value
 
-- 
2.43.0


From 961cca6181ce67ff18d73d6f9300e8d9111c4bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:03 +0000
Subject: [PATCH 48/92] fix: report any number of root declarations and
 unexpected root version properly

---
 ocfl/storage_root.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 834ae70..53e8075 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -233,7 +233,7 @@ class StorageRoot():
         Assumes that self.root_fs filesystem is available to read from.
         """
         # Storage root declaration
-        namastes = find_namastes(0, fsw=self.root_fs)
+        namastes = find_namastes(0, fsw=self.root_fs, limit=None)
         if len(namastes) == 0:
             raise StorageRootException("E069a", root=self.root)
         if len(namastes) > 1:
@@ -247,7 +247,7 @@ class StorageRoot():
             raise StorageRootException("E069c", root=self.root,
                                        namaste_file=namastes[0].filename)
         if self.spec_version is not None and self.spec_version != spec_version:
-            raise StorageRootException("E069c", root=self.root,
+            raise StorageRootException("E069d", root=self.root,
                                        declared_spec_version=spec_version,
                                        expected_spec_version=self.spec_version)
         self.spec_version = spec_version
-- 
2.43.0


From a09ad1965394d9bbf6c5b4ebe2362e036b128004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:30 +0000
Subject: [PATCH 49/92] fix: report bad layout configuration of a storage root,
 correct messages for layout file errors

---
 ocfl/data/validation-errors.json | 12 +++++++++---
 ocfl/storage_root.py             |  6 +++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/ocfl/data/validation-errors.json b/ocfl/data/validation-errors.json
index 063258c..bf37c8a 100644
--- a/ocfl/data/validation-errors.json
+++ b/ocfl/data/validation-errors.json
@@ -533,19 +533,25 @@
   "E070a": {
     "params": ["root", "message"],
     "description": {
-      "en": "OCFL Storage Root %s includes ocfl_layout.json with unknown layout %s"
+      "en": "OCFL Storage Root %s has an ocfl_layout.json file that can't be read as JSON (%s)"
     }
   },
   "E070b": {
-    "params": ["root", "message"],
+    "params": ["root"],
     "description": {
       "en": "OCFL Storage Root %s has an ocfl_layout.json file that isn't a JSON object"
     }
   },
   "E070c": {
+    "params": ["root"],
+    "description": {
+      "en": "OCFL Storage Root %s has an ocfl_layout.json file that doesn't have required extension and description string entries"
+    }
+  },
+  "E070d": {
     "params": ["root", "message"],
     "description": {
-      "en": "OCFL Storage Root %s Storage root %s has layout file doesn't have required extension and description string entries"
+      "en": "OCFL Storage Root %s has configuration for its layout that can't be used (%s)"
     }
   },
   "E071": {
diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 53e8075..8f35cd1 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -16,6 +16,7 @@ from .validator import Validator
 from .validation_logger import ValidationLogger
 
 # Specific layouts
+from .layout import LayoutException
 from .layout_registry import get_layout, layout_is_supported
 
 
@@ -264,7 +265,10 @@ class StorageRoot():
             else:
                 logging.warning("Non-canonical layout name %s, should be %s", self.layout_name, self.layout.NAME)
             # Is there a corresponding extensions dir with params in config.json?
-            self.layout.read_layout_params(root_fs=self.root_fs)
+            try:
+                self.layout.read_layout_params(root_fs=self.root_fs)
+            except LayoutException as e:
+                raise StorageRootException("E070d", root=self.root, message=str(e))
         # Other files are allowed...
         return True
 
-- 
2.43.0


From 08611a2fac01bdcca9f4414092c5ce57ba171a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:17 +0000
Subject: [PATCH 50/92] fix: list storage root with unregistered extension,
 recognize extensions on any filesystem

---
 ocfl/storage_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 8f35cd1..6876a71 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -354,7 +354,7 @@ class StorageRoot():
         for entry in self.root_fs.listdir("extensions", detail=True):
             name = entry["name"]
             if entry["type"] == "directory":
-                if os.path.relpath(name, "extensions") not in self.registered_extensions:
+                if os.path.basename(name.rstrip("/")) not in self.registered_extensions and self.log is not None:
                     self.log.warning("W901", entry=name)  # FIXME - No good warning code in spec
             else:
                 self.traversal_error("E086", entry=name)
-- 
2.43.0


From 98f93bf478337cfedc4134b73ceb924b394952eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:38 +0000
Subject: [PATCH 51/92] fix: match whole of object declaration when looking for
 objects in a storage root

---
 ocfl/storage_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 6876a71..43165bb 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -325,7 +325,7 @@ class StorageRoot():
                     self.traversal_error("E003d", path=dirpath)
                 elif len(zero_eqs) == 1:
                     declaration = zero_eqs[0]
-                    match = re.match(r"""0=ocfl_object_(\d+\.\d+)""", declaration)
+                    match = re.fullmatch(r"""0=ocfl_object_(\d+\.\d+)""", declaration)
                     if match and match.group(1) in SPEC_VERSIONS_SUPPORTED:
                         yield dirpath.lstrip("/")
                     elif match:
-- 
2.43.0


From b2148fb47f6ce7f70080a8aa609a2f48923c7e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:00 +0000
Subject: [PATCH 52/92] fix: list objects whose inventory can't be read, honor
 lax_digests in storage root operations

---
 ocfl/object.py       | 3 ++-
 ocfl/storage_root.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 156be49..3e48c2a 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -883,5 +883,6 @@ class Object():  # pylint: disable=too-many-public-methods
         try:
             inventory = self.parse_inventory()
             return inventory.id
-        except ObjectException:
+        except (ObjectException, OSError, ValueError):
+            # Inventory is not valid, can't be read, or can't be parsed
             return failure_value
diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 43165bb..3d2c4fa 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -375,7 +375,7 @@ class StorageRoot():
         for dirpath in self.object_paths():
             obj_fs = fsw_opendir_as_fs(fs=self.root_fs, path=dirpath)
             # Parse inventory to extract id
-            identifier = Object(obj_fs=obj_fs).id_from_inventory()
+            identifier = Object(obj_fs=obj_fs, lax_digests=self.lax_digests).id_from_inventory()
             self.num_objects += 1
             yield (dirpath, identifier)
             # FIXME - maybe do some more stuff in here
@@ -482,7 +482,7 @@ class StorageRoot():
         self.open_root_fs()
         self.check_root_structure()
         # Sanity check
-        o = Object(path=object_path)
+        o = Object(path=object_path, lax_digests=self.lax_digests)
         inventory = o.parse_inventory()
         identifier = inventory.id
         # Now copy
-- 
2.43.0


From 5e076bc86e57e9119a888bac80e7cd3a85f193dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:07 +0000
Subject: [PATCH 53/92] fix: raise StorageRootException when there is no layout
 or the identifier or object is unusable

---
 ocfl/object.py       |  2 +-
 ocfl/storage_root.py | 14 +++++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 3e48c2a..acd4a3f 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -883,6 +883,6 @@ class Object():  # pylint: disable=too-many-public-methods
         try:
             inventory = self.parse_inventory()
             return inventory.id
-        except (ObjectException, OSError, ValueError):
+        except (ObjectException, OSError, ValueError, RecursionError):
             # Inventory is not valid, can't be read, or can't be parsed
             return failure_value
diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 3d2c4fa..43e2da6 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -10,7 +10,7 @@ import re
 
 from .constants import DEFAULT_SPEC_VERSION, SPEC_VERSIONS_SUPPORTED
 from .namaste import find_namastes, Namaste
-from .object import Object
+from .object import Object, ObjectException
 from .fsw import fsw_openfs, fsw_walk, fsw_opendir_as_fs, fsw_copydir
 from .validator import Validator
 from .validation_logger import ValidationLogger
@@ -173,7 +173,12 @@ class StorageRoot():
         if self.layout is None:
             self.open_root_fs()
             self.check_root_structure()
-        return self.layout.identifier_to_path(identifier)
+        if self.layout is None:
+            raise StorageRootException("Storage root %s does not declare a layout and none was specified" % (self.root))
+        try:
+            return self.layout.identifier_to_path(identifier)
+        except LayoutException as e:
+            raise StorageRootException(str(e))
 
     def initialize(self, spec_version=None, layout_params=None):
         """Create and initialize a new OCFL Storage Root.
@@ -483,7 +488,10 @@ class StorageRoot():
         self.check_root_structure()
         # Sanity check
         o = Object(path=object_path, lax_digests=self.lax_digests)
-        inventory = o.parse_inventory()
+        try:
+            inventory = o.parse_inventory()
+        except (ObjectException, OSError, ValueError, RecursionError) as e:
+            raise StorageRootException("Failed to read object to add at %s (%s)" % (object_path, str(e)))
         identifier = inventory.id
         # Now copy
         path = self.object_path(identifier)
-- 
2.43.0


From b54e709933a85efb2d99d3b28495d1de0b3da0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:29 +0000
Subject: [PATCH 54/92] fix: do not add objects inside other objects or in
 place of storage root files

---
 ocfl/storage_root.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 43e2da6..03b6bcf 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -472,6 +472,25 @@ class StorageRoot():
             valid = False
         return valid
 
+    def check_new_object_path(self, path):
+        """Check that path is a place for an object in the storage root.
+
+        Arguments:
+            path (str): path for a new object, relative to the storage root
+
+        Raises:
+            StorageRootException: if path is one the storage root uses for
+                something else, or is inside an existing object
+        """
+        parts = path.split("/")
+        if parts[0] == "extensions" or parts[0].startswith("0="):
+            raise StorageRootException("Add object failed because destination path %s is reserved in the storage root" % (path))
+        for n in range(1, len(parts)):
+            parent = "/".join(parts[:n])
+            if self.root_fs.exists(parent) and (not self.root_fs.isdir(parent)
+                                                or len(find_namastes(0, dir=parent, fsw=self.root_fs, limit=None)) > 0):
+                raise StorageRootException("Add object failed because destination path %s is inside the existing object or file %s" % (path, parent))
+
     def add(self, object_path):
         """Add pre-constructed object from object_path.
 
@@ -497,6 +516,7 @@ class StorageRoot():
         path = self.object_path(identifier)
         if self.root_fs.exists(path):
             raise StorageRootException("Add object failed because destination path %s already exists" % (path))
+        self.check_new_object_path(path)
         logging.debug("Copying from %s to %s", object_path, os.path.join(self.root, path))
         try:
             # Recusive copy of object to path in self.root_fs
-- 
2.43.0


From 19f473d297b6becda25fed82d7aa6af8a2089eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:53 +0000
Subject: [PATCH 55/92] fix: use the layout that the storage root declares

---
 ocfl/storage_root.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 03b6bcf..f0941c7 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -263,6 +263,7 @@ class StorageRoot():
         # Layout file (if present)
         if self.root_fs.exists(self.layout_file):
             self.layout_name, self.layout_description = self.parse_layout_file()
+            self._layout = None  # Use the declared layout in place of any other
             if not layout_is_supported(self.layout_name):
                 raise StorageRootException("E071", root=self.root, layout_name=self.layout_name)
             if self.layout.NAME == self.layout_name:
-- 
2.43.0


From 27fb3bfc7426b3f8cc2a91311c59d4be3a9415a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:44 +0000
Subject: [PATCH 56/92] fix: check that objects do not have a higher
 specification version than the storage root

---
 ocfl/data/validation-errors.json | 6 ++++++
 ocfl/storage_root.py             | 7 +++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/ocfl/data/validation-errors.json b/ocfl/data/validation-errors.json
index bf37c8a..88a6c06 100644
--- a/ocfl/data/validation-errors.json
+++ b/ocfl/data/validation-errors.json
@@ -572,6 +572,12 @@
        "en": "OCFL storage root hierarchy contains an empty directory: %s"
     }
   },
+  "E081": {
+    "params": ["path", "version", "root_version"],
+    "description": {
+       "en": "OCFL Storage Root hierarchy includes an object at %s that conforms to specification version %s which is higher than the version %s of the storage root"
+    }
+  },
   "E086": {
     "params": ["entry"],
     "description": {
diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index f0941c7..1a5f3de 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -333,6 +333,9 @@ class StorageRoot():
                     declaration = zero_eqs[0]
                     match = re.fullmatch(r"""0=ocfl_object_(\d+\.\d+)""", declaration)
                     if match and match.group(1) in SPEC_VERSIONS_SUPPORTED:
+                        if self.spec_version is not None and match.group(1) > self.spec_version:
+                            self.traversal_error("E081", path=dirpath, version=match.group(1),
+                                                 root_version=self.spec_version)
                         yield dirpath.lstrip("/")
                     elif match:
                         self.traversal_error("E004a", path=dirpath, version=match.group(1))
@@ -412,8 +415,6 @@ class StorageRoot():
                 validator = Validator(check_digests=check_digests,
                                       lax_digests=self.lax_digests,
                                       log_warnings=log_warnings)
-                # FIXME - Should check that all objest are not higher spec
-                # version that storage root https://ocfl.io/1.1/spec/#E081
                 if validator.validate_object(fsw_opendir_as_fs(fs=self.root_fs, path=dirpath)):
                     good_objects += 1
                 else:
@@ -513,6 +514,8 @@ class StorageRoot():
         except (ObjectException, OSError, ValueError, RecursionError) as e:
             raise StorageRootException("Failed to read object to add at %s (%s)" % (object_path, str(e)))
         identifier = inventory.id
+        if o.spec_version > self.spec_version:
+            raise StorageRootException("Object at %s conforms to OCFL specification version %s which is higher than version %s of the storage root" % (object_path, o.spec_version, self.spec_version))
         # Now copy
         path = self.object_path(identifier)
         if self.root_fs.exists(path):
-- 
2.43.0


From 0f0cb548dfeb7f0d473bd4cf27162f5665898951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:32 +0000
Subject: [PATCH 57/92] fix: initialize storage root with the spec_version it
 was constructed with

---
 ocfl/storage_root.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 1a5f3de..cc3356d 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -98,10 +98,10 @@ class StorageRoot():
             StorageRootException: if spec_version is not supported
 
         Sets self.spec_version to spec_version if given and good,
-        otherwise to the default.
+        otherwise keeps any version already set, else the default.
         """
-        if spec_version is None and self.spec_version is None:
-            spec_version = default
+        if spec_version is None:
+            spec_version = self.spec_version or default
         if spec_version not in SPEC_VERSIONS_SUPPORTED:
             raise StorageRootException("Unsupported OCFL specification version %s requested" % (spec_version))
         self.spec_version = spec_version
-- 
2.43.0


From df4016b8c6d8c3cfde409075f1ed5e401b155a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:56 +0000
Subject: [PATCH 58/92] fix: raise StorageRootException when a storage root
 can't be initialized as asked

---
 ocfl/storage_root.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index cc3356d..730995c 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -136,6 +136,8 @@ class StorageRoot():
         if the layout is not set.
         """
         if not self._layout and self.layout_name is not None:
+            if not layout_is_supported(self.layout_name):
+                raise StorageRootException("Unknown layout name (%s)" % (self.layout_name))
             self._layout = get_layout(self.layout_name)
         return self._layout
 
@@ -199,11 +201,17 @@ class StorageRoot():
                 config = json.loads(layout_params)
             except Exception as e:
                 raise StorageRootException("Bad layout params supplied: %s" % (str(e)))
-            self.layout.check_and_set_layout_params(config=config, require_extension_name=False)
+            try:
+                self.layout.check_and_set_layout_params(config=config, require_extension_name=False)
+            except LayoutException as e:
+                raise StorageRootException("Bad layout params supplied: %s" % (str(e)))
         self.check_spec_version(spec_version=spec_version)
         # Now create the storage root
-        (parent, root_dir) = os.path.split(self.root)
-        parent_fs = fsw_openfs(parent)
+        (parent, root_dir) = os.path.split(self.root.rstrip("/"))
+        try:
+            parent_fs = fsw_openfs(parent)
+        except FileNotFoundError as e:
+            raise StorageRootException("Failed to open parent directory to create OCFL storage root %s (%s)" % (self.root, str(e)))
         if parent_fs.exists(root_dir):
             raise StorageRootException("OCFL storage root %s already exists, aborting!" % (self.root))
         parent_fs.makedir(root_dir)
-- 
2.43.0


From afe63363fb070971c288955dc217671fa470a827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:25 +0000
Subject: [PATCH 59/92] fix: leave nothing behind in the storage root when
 adding an object fails

---
 ocfl/storage_root.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 730995c..9e74633 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -501,6 +501,28 @@ class StorageRoot():
                                                 or len(find_namastes(0, dir=parent, fsw=self.root_fs, limit=None)) > 0):
                 raise StorageRootException("Add object failed because destination path %s is inside the existing object or file %s" % (path, parent))
 
+    def remove_partial_object(self, path):
+        """Remove what was written of an object that couldn't be added.
+
+        Arguments:
+            path (str): path of the object relative to the storage root
+
+        Also removes any directories above path that are left empty, because
+        empty directories are not allowed in a storage root.
+        """
+        try:
+            if self.root_fs.exists(path):
+                self.root_fs.rm(path, recursive=True)
+            path = os.path.dirname(path)
+            while path != "":
+                if self.root_fs.exists(path):
+                    if len(self.root_fs.listdir(path)) > 0:
+                        break
+                    self.root_fs.rmdir(path)
+                path = os.path.dirname(path)
+        except Exception as e:
+            logging.error("Failed to clean up after failure to add object at %s (%s)", path, str(e))
+
     def add(self, object_path):
         """Add pre-constructed object from object_path.
 
@@ -534,5 +556,6 @@ class StorageRoot():
             # Recusive copy of object to path in self.root_fs
             fsw_copydir(o.obj_fs, "/", self.root_fs, path)
         except Exception as e:
+            self.remove_partial_object(path)
             raise StorageRootException("Add object at path %s failed! (%s)" % (path, str(e)))
         return (identifier, path)
-- 
2.43.0


From 01e6ceefda571eb644fbfcb92d5c935f2875a1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:39 +0000
Subject: [PATCH 60/92] fix: raise ObjectException for root inventory that
 can't be parsed

---
 ocfl/object.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index acd4a3f..3f1b0f6 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -14,7 +14,7 @@ import logging
 
 from .constants import INVENTORY_FILENAME, SPEC_VERSIONS_SUPPORTED, DEFAULT_SPEC_VERSION, DEFAULT_CONTENT_DIRECTORY
 from .digest import file_digest, digest_regex
-from .inventory import Inventory
+from .inventory import Inventory, InventoryException
 from .inventory_validator import InventoryValidator
 from .new_version import NewVersion
 from .object_utils import parse_version_directory, ObjectException
@@ -857,9 +857,15 @@ class Object():  # pylint: disable=too-many-public-methods
 
         Returns:
             ocfl.Inventory: new Inventory object for the parsed inventory.
+
+        Raises:
+            ocfl.ObjectException: if the inventory can't be parsed or is not valid
         """
         with self.obj_fs.open(INVENTORY_FILENAME, "r") as fh:
-            inventory = Inventory(json.load(fh))
+            try:
+                inventory = Inventory(json.load(fh))
+            except (InventoryException, ValueError, RecursionError) as e:
+                raise ObjectException("Root inventory can't be parsed (%s)" % (str(e)))
         # Validate
         iv = InventoryValidator(lax_digests=self.lax_digests)
         if not iv.validate(inventory=inventory.data):
-- 
2.43.0


From 89fa565009abd9243faf868dffabff8183aaf324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:18 +0000
Subject: [PATCH 61/92] fix: replace object declaration when a new version has
 a higher specification version

---
 ocfl/object.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 3f1b0f6..951a4c1 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -19,7 +19,7 @@ from .inventory_validator import InventoryValidator
 from .new_version import NewVersion
 from .object_utils import parse_version_directory, ObjectException
 from .fsw import fsw_openfs, fsw_copyfile, fsw_listdir_names, fsw_opendir_as_fs, FswException
-from .namaste import Namaste
+from .namaste import Namaste, find_namastes
 from .validator import Validator, ValidatorAbortException
 from .version_metadata import VersionMetadata
 
@@ -598,6 +598,14 @@ class Object():  # pylint: disable=too-many-public-methods
         if (new_version.old_digest_algorithm is not None
                 and inventory.digest_algorithm != new_version.old_digest_algorithm):
             self.obj_fs.rm(INVENTORY_FILENAME + "." + new_version.old_digest_algorithm)
+        # Replace object declaration if the new version has a higher specification version
+        self.spec_version = inventory.spec_version
+        declaration = self.object_declaration_object().filename
+        if not self.obj_fs.exists(declaration):
+            self.write_object_declaration()
+            for namaste in find_namastes(0, fsw=self.obj_fs, limit=None):
+                if namaste.filename != declaration:
+                    self.obj_fs.rm(namaste.filename)
         logging.info("Updated OCFL object %s by adding %s", inventory.id, inventory.head)
         return inventory
 
-- 
2.43.0


From fce70674459b5c56ed1e8fae33357d72921363b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:00 +0000
Subject: [PATCH 62/92] fix: match whole of version directory names, ASCII
 digits only

---
 ocfl/object_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/object_utils.py b/ocfl/object_utils.py
index dfc98ed..91310c8 100755
--- a/ocfl/object_utils.py
+++ b/ocfl/object_utils.py
@@ -51,7 +51,7 @@ def next_version_directory(vdir):
     Raises an ObjectExtension if the format of version cannot be understood
     or if there is overflow of a zero-padded form.
     """
-    m = re.match(r"""v((\d)\d*)$""", vdir)
+    m = re.fullmatch(r"""v((\d)\d*)""", vdir, re.ASCII)
     if not m:
         raise ObjectException("Bad version directory '%s'" % vdir)
     next_n = int(m.group(1)) + 1
@@ -164,7 +164,7 @@ def parse_version_directory(dirname):
 
     Returns the integer version number from this version directory name.
     """
-    m = re.match(r"""v(\d{1,5})$""", dirname)
+    m = re.fullmatch(r"""v(\d{1,5})""", dirname, re.ASCII)
     if not m:
         raise ObjectException("Bad version directory name: %s" % (dirname))
     v = int(m.group(1))
-- 
2.43.0


From 0a3e52cafe789615c343b064954ddce3a18ff208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:26 +0000
Subject: [PATCH 63/92] fix: open local files given by absolute or parent
 directory path

---
 ocfl/fsw.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ocfl/fsw.py b/ocfl/fsw.py
index 672f6ba..bca1005 100644
--- a/ocfl/fsw.py
+++ b/ocfl/fsw.py
@@ -303,7 +303,9 @@ def fsw_openfile(filepath, mode="rb", fs=None, **kwargs):
 
     Returns open fs filehandle.
     """
-    fs = _fsw_or_local(fs)
+    if fs is None:
+        fs = LocalFileSystem()
+        filepath = os.path.abspath(filepath)
     return fs.open(filepath, mode, **kwargs)
 
 
@@ -318,8 +320,7 @@ def fsw_readtext(filepath, fs=None):
     Returns:
         str: the text contents of the file.
     """
-    fs = _fsw_or_local(fs)
-    with fs.open(filepath, "r") as fh:
+    with fsw_openfile(filepath, "r", fs=fs) as fh:
         text = fh.read()
     return text
 
-- 
2.43.0


From 7005426ebba9fbfed55d15867efcc423d9e40853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:48 +0000
Subject: [PATCH 64/92] fix: copy data, metadata and state supplied to an
 inventory

---
 ocfl/inventory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/inventory.py b/ocfl/inventory.py
index 7da7cdf..65c531d 100644
--- a/ocfl/inventory.py
+++ b/ocfl/inventory.py
@@ -132,7 +132,7 @@ class Inventory():  # pylint: disable=too-many-public-methods
         elif isinstance(data, Inventory):
             self.data = copy.deepcopy(data.data)
         elif isinstance(data, dict):
-            self.data = data
+            self.data = copy.deepcopy(data)
         else:
             raise InventoryException("Bad data type supplied to Inventory() creator, " + str(type(data)))
 
@@ -411,11 +411,11 @@ class Inventory():  # pylint: disable=too-many-public-methods
         if metadata is None:
             self.data["versions"][vdir] = {}
         elif isinstance(metadata, dict):
-            self.data["versions"][vdir] = metadata
+            self.data["versions"][vdir] = copy.deepcopy(metadata)
         else:
             self.data["versions"][vdir] = metadata.as_dict()
         if state is not None:
-            self.data["versions"][vdir]["state"] = state
+            self.data["versions"][vdir]["state"] = copy.deepcopy(state)
         # Update head to point to the newly added version
         self.head = vdir
         return self.version(vdir)
-- 
2.43.0


From 739e169c6b1038deb63c96c7dcad1bfc0b930bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:19 +0000
Subject: [PATCH 65/92] fix: match whole of inventory type when getting
 spec_version

---
 ocfl/inventory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/inventory.py b/ocfl/inventory.py
index 65c531d..1c6c150 100644
--- a/ocfl/inventory.py
+++ b/ocfl/inventory.py
@@ -140,7 +140,7 @@ class Inventory():  # pylint: disable=too-many-public-methods
     def spec_version(self):
         """Get specification version from the conformance declaration."""
         decl = self.data.get("type", "")
-        m = re.match(r"""https://ocfl.io/(\d+.\d)/spec/#inventory""", decl)
+        m = re.fullmatch(r"""https://ocfl\.io/(\d+\.\d)/spec/#inventory""", decl)
         if m:
             return m.group(1)
         return None
-- 
2.43.0


From 73a852f5834d9fb47aed387a4772c94a83a12898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:39 +0000
Subject: [PATCH 66/92] fix: require content of declarations to be exactly as
 specified

---
 ocfl/namaste.py      | 16 ++++++++++++++--
 ocfl/storage_root.py |  4 ++--
 ocfl/validator.py    |  4 ++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/ocfl/namaste.py b/ocfl/namaste.py
index 897d2d9..24c116f 100644
--- a/ocfl/namaste.py
+++ b/ocfl/namaste.py
@@ -22,7 +22,17 @@ def content_to_tvalue(content):
     return re.sub(r"""[^\w\.\-:]""", "_", content[:40])
 
 
-def find_namastes(d, dir="", fsw=None, limit=10):
+def declaration_to_tvalue(content):
+    """Tvalue from the content of an OCFL declaration, alternative to content_to_tvalue.
+
+    OCFL requires that the content of a declaration is exactly the tvalue
+    followed by a newline. Returns an empty string for content that does
+    not end with a newline.
+    """
+    return content[:-1] if content.endswith("\n") else ""
+
+
+def find_namastes(d, dir="", fsw=None, limit=10, tr_func=content_to_tvalue):
     """Find NAMASTE files with tag d in dir, return list of Namaste objects.
 
     Arguments:
@@ -31,6 +41,8 @@ def find_namastes(d, dir="", fsw=None, limit=10):
         fsw (None or AbstractFileSystem): filesystem to use if not None
         limit (int or None): limit sets a limit on the number of Namaste objects
             returned, None for no limit
+        tr_func (function): used to check the content of the files against
+            the tvalue, see Namaste
 
     Returns:
         list: of Namaste object values sorted by filename to ensure consistent behaviour when
@@ -50,7 +62,7 @@ def find_namastes(d, dir="", fsw=None, limit=10):
     filenames = [f for f in filenames if f.startswith(prefix)]
     if limit is not None and len(filenames) > limit:
         raise NamasteException("Found too many Namaste files with tag %s in %s" % (d, dir))
-    return [Namaste(d, tvalue=filename[len(prefix):]) for filename in sorted(filenames)]
+    return [Namaste(d, tvalue=filename[len(prefix):], tr_func=tr_func) for filename in sorted(filenames)]
 
 
 def get_namaste(d, dir):
diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 9e74633..e04c47c 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -9,7 +9,7 @@ import os.path
 import re
 
 from .constants import DEFAULT_SPEC_VERSION, SPEC_VERSIONS_SUPPORTED
-from .namaste import find_namastes, Namaste
+from .namaste import declaration_to_tvalue, find_namastes, Namaste
 from .object import Object, ObjectException
 from .fsw import fsw_openfs, fsw_walk, fsw_opendir_as_fs, fsw_copydir
 from .validator import Validator
@@ -247,7 +247,7 @@ class StorageRoot():
         Assumes that self.root_fs filesystem is available to read from.
         """
         # Storage root declaration
-        namastes = find_namastes(0, fsw=self.root_fs, limit=None)
+        namastes = find_namastes(0, fsw=self.root_fs, limit=None, tr_func=declaration_to_tvalue)
         if len(namastes) == 0:
             raise StorageRootException("E069a", root=self.root)
         if len(namastes) > 1:
diff --git a/ocfl/validator.py b/ocfl/validator.py
index 9e3b42c..7f3d402 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -17,7 +17,7 @@ from .constants import INVENTORY_FILENAME, SPEC_VERSIONS_SUPPORTED, \
     DEFAULT_SPEC_VERSION, DEFAULT_CONTENT_DIRECTORY
 from .digest import file_digest, normalized_digest
 from .inventory_validator import InventoryValidator
-from .namaste import find_namastes
+from .namaste import declaration_to_tvalue, find_namastes
 from .fsw import fsw_openfs, fsw_walk, fsw_openfile, fsw_files_identical
 from .validation_logger import ValidationLogger
 
@@ -131,7 +131,7 @@ class Validator():
             return False
         # Object declaration, set spec version number. If there are multiple declarations,
         # look for the lastest object version then report any others as errors
-        namastes = find_namastes(0, fsw=self.obj_fs, limit=None)
+        namastes = find_namastes(0, fsw=self.obj_fs, limit=None, tr_func=declaration_to_tvalue)
         spec_version = None
         if len(namastes) == 0:
             self.log.error("E003a", assumed_version=self.spec_version)
-- 
2.43.0


From e5501ad7036b1ba4a28e96567f7462f1df5b0eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:37 +0000
Subject: [PATCH 67/92] fix: report unusable zip files and filesystem types as
 not found

---
 ocfl/fsw.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ocfl/fsw.py b/ocfl/fsw.py
index bca1005..2ce6626 100644
--- a/ocfl/fsw.py
+++ b/ocfl/fsw.py
@@ -20,6 +20,7 @@ import logging
 import os.path
 import tempfile
 from urllib.parse import parse_qs
+from zipfile import BadZipFile
 
 import fsspec
 from fsspec.spec import AbstractFileSystem
@@ -177,10 +178,16 @@ def fsw_openfs(fs_url, create=False, exists_ok=True):
             raise FileNotFoundError("Failed to access S3 bucket/path (%s) (%s)" % (path, str(e)))
         fs = DirFileSystem(path, fs)
     elif method == "zip":
-        fs = ZipFileSystem(fo=path)
+        try:
+            fs = ZipFileSystem(fo=path)
+        except (OSError, BadZipFile) as e:
+            raise FileNotFoundError("Failed to open zip file %s (%s)" % (path, str(e)))
     else:
         # Not local, S3 or zip...
-        fs = fsspec.filesystem(method)
+        try:
+            fs = fsspec.filesystem(method)
+        except (ValueError, ImportError) as e:
+            raise FileNotFoundError("Failed to open filesystem %s (%s)" % (fs_url, str(e)))
         if path != "":
             fs = DirFileSystem(path=path, fs=fs)
 
-- 
2.43.0


From c4ab70b19845493a2a71878f6b6f7fa0bdb70c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:37 +0000
Subject: [PATCH 68/92] fix: report inventory in directory that does not exist
 as an error

---
 ocfl/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 951a4c1..408dea3 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -738,7 +738,7 @@ class Object():  # pylint: disable=too-many-public-methods
             (inv_dir, inv_file) = os.path.split(path)
             validator.obj_fs = fsw_openfs(inv_dir, create=False)
             validator.validate_inventory(inv_file, where="standalone", force_spec_version=force_spec_version)
-        except FswException:
+        except (FswException, FileNotFoundError):
             validator.log.error("E033", where="standalone", explanation="failed to open directory")
         except ValidatorAbortException:
             pass
-- 
2.43.0


From e90839d30d8ba781a630bd8b94126885b99d4636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:37 +0000
Subject: [PATCH 69/92] fix: read and write Namaste content without newline
 translation

---
 ocfl/namaste.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ocfl/namaste.py b/ocfl/namaste.py
index 24c116f..dadda19 100644
--- a/ocfl/namaste.py
+++ b/ocfl/namaste.py
@@ -122,9 +122,9 @@ class Namaste():
             Namaste(0, "ocfl_1.0").write(dir)
         """
         if fsw is not None:
-            fsw.write_text(os.path.join(dir, self.filename), self.content + "\n")
+            fsw.write_text(os.path.join(dir, self.filename), self.content + "\n", encoding="utf-8", newline="")
         else:
-            with open(os.path.join(dir, self.filename), "w", encoding="utf-8") as fh:
+            with open(os.path.join(dir, self.filename), "w", encoding="utf-8", newline="") as fh:
                 fh.write(self.content + "\n")
 
     def check_content(self, dir="", fsw=None):
@@ -134,14 +134,14 @@ class Namaste():
             raise NamasteException("Cannot check Namaste file %s without tvalue being set!" % (filepath))
         if fsw is not None:
             try:
-                content = fsw.read_text(filepath)
+                content = fsw.read_text(filepath, encoding="utf-8", newline="")
             except (FileNotFoundError, IsADirectoryError, UnicodeDecodeError):
                 raise NamasteException("Namaste file %s cannot be read!" % (filepath))
         else:
             if not os.path.isfile(filepath):
                 raise NamasteException("Namaste file %s does not exist!" % (filepath))
             try:
-                with open(filepath, "r", encoding="utf-8") as fh:
+                with open(filepath, "r", encoding="utf-8", newline="") as fh:
                     content = fh.read()
             except UnicodeDecodeError:
                 raise NamasteException("Namaste file %s cannot be read!" % (filepath))
-- 
2.43.0


From 1f0cadcb8902d7ab2ae6ab66f1d050de8f7eb01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:37 +0000
Subject: [PATCH 70/92] fix: find type of path with any number of declarations

---
 ocfl/object_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/object_utils.py b/ocfl/object_utils.py
index 91310c8..5c374db 100755
--- a/ocfl/object_utils.py
+++ b/ocfl/object_utils.py
@@ -144,13 +144,13 @@ def find_path_type(path):
         if fsw.isdir(filename):
             return "directory that could not be opened as a filesystem, this should not happen"  # pragma: no cover
         return "file"
-    namastes = find_namastes(0, fsw=fsw)
+    namastes = find_namastes(0, fsw=fsw, limit=None)
     if len(namastes) == 0:
         return "no 0= declaration file"
     # Look at the first 0= Namaste file that is of OCFL form to determine type, if there are
     # multiple declarations this will be caught later
     for namaste in namastes:
-        m = re.match(r"""ocfl(_object)?_(\d+\.\d+)$""", namaste.tvalue)
+        m = re.fullmatch(r"""ocfl(_object)?_(\d+\.\d+)""", namaste.tvalue)
         if m:
             return "root" if m.group(1) is None else "object"
     return "unrecognized 0= declaration file or files (first is %s)" % (namastes[0].tvalue)
-- 
2.43.0


From 8c6475cc1e3454c93db28cead747d27e1027cc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:11 +0000
Subject: [PATCH 71/92] fix: use first of repeated metadata elements in a bag

---
 ocfl/bagger.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/ocfl/bagger.py b/ocfl/bagger.py
index 94b7bb6..cecee47 100644
--- a/ocfl/bagger.py
+++ b/ocfl/bagger.py
@@ -49,17 +49,20 @@ def bag_as_source(srcbag, metadata):
     bag = bagit.Bag(srcbag)
     if not bag.is_valid():
         raise BaggerError("Source Bagit bag at %s is not valid" % (srcbag))
+    # Elements in bag-info.txt may be repeated, use the first of each
+    info = {key: value[0] if isinstance(value, list) else value
+            for key, value in bag.info.items()}
     # Local arguments override but otherwise take metadata from bag-info.txt
-    if not metadata.id and "External-Identifier" in bag.info:
-        metadata.id = bag.info["External-Identifier"]
-    if not metadata.created and "Bagging-Date" in bag.info:
-        metadata.created = bag.info["Bagging-Date"] + "T00:00:00Z"  # FIXME - timezone fudge
-    if not metadata.message and "External-Description" in bag.info:
-        metadata.message = bag.info["External-Description"]
-    if not metadata.name and "Contact-Name" in bag.info:
-        metadata.name = bag.info["Contact-Name"]
-    if not metadata.address and "Contact-Email" in bag.info:
-        metadata.address = "mailto:" + bag.info["Contact-Email"]
+    if not metadata.id and "External-Identifier" in info:
+        metadata.id = info["External-Identifier"]
+    if not metadata.created and "Bagging-Date" in info:
+        metadata.created = info["Bagging-Date"] + "T00:00:00Z"  # FIXME - timezone fudge
+    if not metadata.message and "External-Description" in info:
+        metadata.message = info["External-Description"]
+    if not metadata.name and "Contact-Name" in info:
+        metadata.name = info["Contact-Name"]
+    if not metadata.address and "Contact-Email" in info:
+        metadata.address = "mailto:" + info["Contact-Email"]
     return os.path.join(srcbag, "data")
 
 
-- 
2.43.0


From 6c5777b50f18eb47ae6ed3ac752bc42041e2492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:11 +0000
Subject: [PATCH 72/92] fix: ignore contact email of a bag when there is no
 name

---
 ocfl/bagger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocfl/bagger.py b/ocfl/bagger.py
index cecee47..ab8cdc5 100644
--- a/ocfl/bagger.py
+++ b/ocfl/bagger.py
@@ -61,7 +61,8 @@ def bag_as_source(srcbag, metadata):
         metadata.message = info["External-Description"]
     if not metadata.name and "Contact-Name" in info:
         metadata.name = info["Contact-Name"]
-    if not metadata.address and "Contact-Email" in info:
+    # In an OCFL inventory an address is allowed only with a name
+    if metadata.name and not metadata.address and "Contact-Email" in info:
         metadata.address = "mailto:" + info["Contact-Email"]
     return os.path.join(srcbag, "data")
 
-- 
2.43.0


From d4a5b1a8e9679b68259753fe192dd2ba37cc4c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:11 +0000
Subject: [PATCH 73/92] fix: ignore bad bagging date of a bag

---
 ocfl/bagger.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ocfl/bagger.py b/ocfl/bagger.py
index ab8cdc5..1ee636d 100644
--- a/ocfl/bagger.py
+++ b/ocfl/bagger.py
@@ -19,6 +19,8 @@ import os.path
 import logging
 import bagit
 
+from .w3c_datetime import str_to_datetime
+
 
 class BaggerError(Exception):
     """Exception class for conditions that should abort with message."""
@@ -56,7 +58,12 @@ def bag_as_source(srcbag, metadata):
     if not metadata.id and "External-Identifier" in info:
         metadata.id = info["External-Identifier"]
     if not metadata.created and "Bagging-Date" in info:
-        metadata.created = info["Bagging-Date"] + "T00:00:00Z"  # FIXME - timezone fudge
+        created = info["Bagging-Date"] + "T00:00:00Z"  # FIXME - timezone fudge
+        try:
+            str_to_datetime(created)
+            metadata.created = created
+        except ValueError:
+            logging.warning("Ignoring bad Bagging-Date '%s' in %s", info["Bagging-Date"], srcbag)
     if not metadata.message and "External-Description" in info:
         metadata.message = info["External-Description"]
     if not metadata.name and "Contact-Name" in info:
-- 
2.43.0


From 426e8fc2579e948ecb684bbd122f621bb2ab3451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:13 +0000
Subject: [PATCH 74/92] fix: write sidecar with digest algorithm of the
 inventory

---
 ocfl-sidecar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl-sidecar.py b/ocfl-sidecar.py
index 1d6e4ed..6327389 100755
--- a/ocfl-sidecar.py
+++ b/ocfl-sidecar.py
@@ -46,7 +46,7 @@ def create_sidecar(args, directory):
             obj.digest_algorithm = args.digest
         else:  # Read inventory in the hope of setting digest_algoritm
             try:
-                obj.parse_inventory()
+                obj.digest_algorithm = obj.parse_inventory().digest_algorithm
             except ocfl.ObjectException as e:
                 logging.warning("Failed to read inventory in directory %s (%s)", directory, e)
         sidecar = obj.write_inventory_sidecar()
-- 
2.43.0


From 48a2b7071bd6c201c2bf15f8815617a0c5fac94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:13 +0000
Subject: [PATCH 75/92] fix: show object in the storage root whatever the
 working directory

---
 ocfl-root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl-root.py b/ocfl-root.py
index 810b33d..7f10ab3 100755
--- a/ocfl-root.py
+++ b/ocfl-root.py
@@ -178,7 +178,7 @@ def do_store_operation(args):
         else:
             obj = ocfl.Object(identifier=args.id)
             if args.cmd == "show":
-                logging.warning("Object tree\n%s", obj.tree(objdir=objdir))
+                logging.warning("Object tree\n%s", obj.tree(objdir=os.path.join(store.root, objdir)))
             else:
                 logging.error("validate not implemented")
     else:
-- 
2.43.0


From 395059f747ca0fbf38b0e7d88f18fdeee7f40717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:13 +0000
Subject: [PATCH 76/92] fix: take max_errors as a number

---
 ocfl-root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl-root.py b/ocfl-root.py
index 7f10ab3..666867e 100755
--- a/ocfl-root.py
+++ b/ocfl-root.py
@@ -58,7 +58,7 @@ def parse_arguments():
                                  help="validate each object in the storage root (MAY TAKE TIME)")
     validate_parser.add_argument("--check-digests", action="store_true", default=False,
                                  help="if validating each object, also check all digest (MAY TAKE LOTS OF TIME)")
-    validate_parser.add_argument("--max_errors", default=100,
+    validate_parser.add_argument("--max_errors", type=int, default=100,
                                  help="maximum number of errors to record/show")
 
     add_parser = subparsers.add_parser("add", help="Add object at --src to the storage root")
-- 
2.43.0


From bffe741d769993628dc6c328092b4bef87ccbd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:13 +0000
Subject: [PATCH 77/92] fix: exit with error status when validation fails

---
 ocfl-object.py | 3 ++-
 ocfl-root.py   | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/ocfl-object.py b/ocfl-object.py
index 5fefeaf..9ad7160 100755
--- a/ocfl-object.py
+++ b/ocfl-object.py
@@ -191,7 +191,8 @@ def do_object_operation(args):
         print("Object tree" + (" for %s" % (obj.id) if obj.id is not None else ""))
         print(obj.tree(objdir=args.objdir))
     elif args.cmd == "validate":
-        validate_object(obj, objdir=args.objdir)
+        if not validate_object(obj, objdir=args.objdir):
+            sys.exit(1)
     elif args.cmd == "extract":
         if args.logical_path:
             if args.dstbag:
diff --git a/ocfl-root.py b/ocfl-root.py
index 666867e..1386b27 100755
--- a/ocfl-root.py
+++ b/ocfl-root.py
@@ -107,6 +107,8 @@ def validate(store, args):
       validate_objects - True to validate each object in tree
       check_digests - True to check all digests for each object
       max_error - Maximum number of error to show
+
+    Returns True if valid, False otherwise.
     """
     valid = store.validate(log_warnings=not args.quiet,
                            validate_objects=args.validate_objects,
@@ -128,6 +130,7 @@ def validate(store, args):
         print("Storage root %s is VALID" % (store.root))
     else:
         print("Storage root %s is INVALID" % (store.root))
+    return valid
 
 
 def get_storage_root(args):
@@ -157,7 +160,8 @@ def do_store_operation(args):
             print("%s -- id=%s" % (dirpath, identifier))
         print("Found %d OCFL Objects under root %s" % (store.num_objects, store.root))
     elif args.cmd == "validate":
-        validate(store, args)
+        if not validate(store, args):
+            sys.exit(1)
     elif args.cmd == "add":
         if not args.src:
             raise ocfl.StorageRootException("Must specify object path with --src")
-- 
2.43.0


From a5cd03eafb1f71458a846487abd38e34f662adb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:13 +0000
Subject: [PATCH 78/92] fix: show result of validation of a storage root

---
 ocfl-validate.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ocfl-validate.py b/ocfl-validate.py
index cb055b9..88d60dc 100755
--- a/ocfl-validate.py
+++ b/ocfl-validate.py
@@ -74,9 +74,18 @@ def do_validation(args):
             logging.debug("Validating OCFL Storage Root at %s", path)
             store = ocfl.StorageRoot(root=path,
                                      lax_digests=args.lax_digests)
-            if store.validate(log_warnings=log_warnings,
-                              log_errors=log_errors,
-                              check_digests=not args.no_check_digests):
+            passed = store.validate(log_warnings=log_warnings,
+                                    log_errors=log_errors,
+                                    check_digests=not args.no_check_digests)
+            if log_errors:
+                for (dirpath, messages) in store.errors:
+                    print(dirpath)
+                    print(messages)
+            if str(store.log) != "":
+                print(str(store.log))
+            print("OCFL v%s Storage Root at %s is %s" %
+                  (store.spec_version, path, "VALID" if passed else "INVALID"))
+            if passed:
                 num_good += 1
         elif path_type == "file":
             logging.debug("Validating separate OCFL Inventory at %s", path)
-- 
2.43.0


From b481904d266df6cbdd1c6faf1fd9bbc158260dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:13 +0000
Subject: [PATCH 79/92] fix: make validate-object command work

---
 ocfl-root.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ocfl-root.py b/ocfl-root.py
index 1386b27..e82a57b 100755
--- a/ocfl-root.py
+++ b/ocfl-root.py
@@ -7,7 +7,7 @@ import sys
 
 import ocfl  # pylint: disable=import-self; this isn"t actually self import
 from ocfl.command_line_utils import add_version_arg, add_verbosity_args, \
-    check_version_arg, check_verbosity_args
+    check_version_arg, check_verbosity_args, validate_object
 from ocfl.constants import DEFAULT_SPEC_VERSION
 
 
@@ -88,6 +88,7 @@ def parse_arguments():
                              help="identifier of object")
 
     validate_object_parser = subparsers.add_parser("validate-object", help="Validate an OCFL object")
+    add_common_args(validate_object_parser)
     validate_object_parser.add_argument("--id", default=None,
                                         help="identifier of object")
 
@@ -169,7 +170,7 @@ def do_store_operation(args):
         print("Added object %s at path %s" % (identifier, path))
     elif args.cmd == "purge":
         logging.error("purge not implemented")
-    elif args.cmd in ("show", "path", "validate_object"):
+    elif args.cmd in ("show", "path", "validate-object"):
         if not args.id:
             raise ocfl.StorageRootException("Must specify id to act on an object in the store")
         objdir = store.object_path(args.id)
@@ -180,11 +181,11 @@ def do_store_operation(args):
             else:
                 print("Path to %s inside root %s is %s" % (args.id, store.root, objdir))
         else:
-            obj = ocfl.Object(identifier=args.id)
+            obj = ocfl.Object(identifier=args.id, lax_digests=args.lax_digests)
             if args.cmd == "show":
                 logging.warning("Object tree\n%s", obj.tree(objdir=os.path.join(store.root, objdir)))
-            else:
-                logging.error("validate not implemented")
+            elif not validate_object(obj, objdir=os.path.join(store.root, objdir), log_warnings=not args.quiet):
+                sys.exit(1)
     else:
         logging.error("Unrecognized command!")
 
-- 
2.43.0


From 928b97ba101bf3e1f329bf512ab721c9b3ade28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:13 +0000
Subject: [PATCH 80/92] fix: exit with error status when asked to purge

---
 ocfl-root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl-root.py b/ocfl-root.py
index e82a57b..89973b1 100755
--- a/ocfl-root.py
+++ b/ocfl-root.py
@@ -169,7 +169,7 @@ def do_store_operation(args):
         (identifier, path) = store.add(object_path=args.src)
         print("Added object %s at path %s" % (identifier, path))
     elif args.cmd == "purge":
-        logging.error("purge not implemented")
+        raise ocfl.StorageRootException("purge not implemented")
     elif args.cmd in ("show", "path", "validate-object"):
         if not args.id:
             raise ocfl.StorageRootException("Must specify id to act on an object in the store")
-- 
2.43.0


From c3eb7fc4835cd3d2be24d6d885e79a850d44f95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:13 +0000
Subject: [PATCH 81/92] fix: note several inventory digests in a version
 directory

---
 ocfl/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 408dea3..b5a4775 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -660,7 +660,7 @@ class Object():  # pylint: disable=too-many-public-methods
                     elif v_entry.startswith(INVENTORY_FILENAME + "."):
                         if seen_v_sidecar:
                             v_note += "<--- multiple inventory digests?"
-                            seen_v_sidecar = True
+                        seen_v_sidecar = True
                     elif v_entry == self.content_directory:
                         num_files = 0
                         for (v_dirpath, v_dirs, v_files) in self.obj_fs.walk(os.path.join(entry, v_entry)):  # pylint: disable=unused-variable
-- 
2.43.0


From 50663293983e32d7c1824a3d1b70fd7fe068fe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:21 +0000
Subject: [PATCH 82/92] fix: take any URI as user address without warning

---
 ocfl/inventory_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index e1a87d9..30e716d 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -471,7 +471,7 @@ class InventoryValidator():
                         self._warning("W008", version=v)
                     elif not isinstance(user["address"], str):
                         self._error("E054c", version=v)
-                    elif not re.match(r"""\w{3,6}:""", user["address"]):
+                    elif not re.match(r"""[a-z][a-z\d\+\-\.]*:""", user["address"], re.IGNORECASE | re.ASCII):
                         self._warning("W009", version=v)
         return digests_used
 
-- 
2.43.0


From 81847498ce3e7606c020bdc547f1b075067c80a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:21 +0000
Subject: [PATCH 83/92] fix: allow only ASCII letters and digits in URI scheme
 of identifiers

---
 ocfl/inventory_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 30e716d..c928157 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -134,7 +134,7 @@ class InventoryValidator():
             else:
                 # URI syntax https://www.rfc-editor.org/rfc/rfc3986.html#section-3.1 :
                 # scheme = ALPHA *( ALPHA / DIGIT / "+" / "-" / "." )
-                if not re.match(r"""[a-z][a-z\d\+\-\.]*:.+""", iid, re.IGNORECASE):
+                if not re.match(r"""[a-z][a-z\d\+\-\.]*:.+""", iid, re.IGNORECASE | re.ASCII):
                     self._warning("W005", id=iid)
                 self.id = iid
         else:
-- 
2.43.0


From b7f895b214c0aba95374629a1baa4a3d1b2e9ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:57 +0000
Subject: [PATCH 84/92] fix: refuse to change digest algorithm if files that
 should differ are the same

---
 ocfl/object.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index b5a4775..0a340e2 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -555,6 +555,11 @@ class Object():  # pylint: disable=too-many-public-methods
                     if d != digest:
                         raise ObjectException("Failed sanity check - files %s and %s should have same %s digest but calculated %s and %s respectively" %
                                               (files[0], file, digest_algorithm, digest, d))
+                # Sanity check that files with different digests still differ, otherwise
+                # we would lose track of some of them
+                if digest in new_manifest:
+                    raise ObjectException("Failed sanity check - files %s and %s should have different %s digests but both have %s" %
+                                          (new_manifest[digest][0], files[0], digest_algorithm, digest))
                 new_manifest[digest] = manifest[old_digest]
             manifest = new_manifest
             # Now update all state blocks
-- 
2.43.0


From 4902bd0dd91a2647865d0d8fbba67dac22fb9985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:45 +0000
Subject: [PATCH 85/92] fix: report inventory in version directory that is not
 the one for that version

---
 ocfl/validator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 7f3d402..4ea3a12 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -362,6 +362,8 @@ class Validator():
                 if self.id and "id" in version_inventory:
                     if version_inventory["id"] != self.id:
                         self.log.error("E037b", where=version_dir, root_id=self.id, version_id=version_inventory["id"])
+                if version_inventory_is_valid and inv_validator.head != version_dir:
+                    self.log.error("E040", where=version_dir, got=inv_validator.head, expected=version_dir)
                 if version_dir == first_version:
                     first_version_content_directory_set = inv_validator.content_directory_set
                     if not first_version_content_directory_set and self.content_directory_set:
-- 
2.43.0


From d4a5f7b18b42b8f63477cb2206f0114ada50e873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:32 +0000
Subject: [PATCH 86/92] fix: showing the tree of what is not a valid object
 does not change settings of the Object

---
 ocfl/object.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 0a340e2..6f2685a 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -638,9 +638,9 @@ class Object():  # pylint: disable=too-many-public-methods
                               check_digests=False,
                               lax_digests=self.lax_digests)
         passed = validator.validate_object(objdir)
-        self.spec_version = validator.spec_version
-        self.content_directory = validator.content_directory
         if passed:
+            self.spec_version = validator.spec_version
+            self.content_directory = validator.content_directory
             logging.info("OCFL v%s Object at %s has VALID STRUCTURE (DIGESTS NOT CHECKED)",
                          validator.spec_version, objdir)
         else:
@@ -651,7 +651,7 @@ class Object():  # pylint: disable=too-many-public-methods
         entries = sorted(fsw_listdir_names(self.obj_fs, ""))
         n = 0
         seen_sidecar = False
-        object_declaration_filename = self.object_declaration_object().filename
+        object_declaration_filename = "0=ocfl_object_" + validator.spec_version
         for entry in entries:
             n += 1
             note = entry + " "
@@ -666,7 +666,7 @@ class Object():  # pylint: disable=too-many-public-methods
                         if seen_v_sidecar:
                             v_note += "<--- multiple inventory digests?"
                         seen_v_sidecar = True
-                    elif v_entry == self.content_directory:
+                    elif v_entry == validator.content_directory:
                         num_files = 0
                         for (v_dirpath, v_dirs, v_files) in self.obj_fs.walk(os.path.join(entry, v_entry)):  # pylint: disable=unused-variable
                             num_files += len(v_files)
-- 
2.43.0


From 832ef0dcf2155f9a8695dd1ffb5efc4a4d33624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:57 +0000
Subject: [PATCH 87/92] fix: build object from version directories in a zip
 file

---
 ocfl/object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 6f2685a..5c27440 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -346,7 +346,7 @@ class Object():  # pylint: disable=too-many-public-methods
         # Create each version of the object
         for (vdir, metadata) in versions:
             if inventory is None:
-                nv = NewVersion.first_version(srcdir=os.path.join(srcdir, vdir),
+                nv = NewVersion.first_version(srcdir=fsw_opendir_as_fs(src_fs, vdir),
                                               identifier=self.id,
                                               spec_version=self.spec_version,
                                               digest_algorithm=self.digest_algorithm,
@@ -357,7 +357,7 @@ class Object():  # pylint: disable=too-many-public-methods
                                               content_path_normalization=self.content_path_normalization)
             else:
                 nv = NewVersion.next_version(inventory=inventory,
-                                             srcdir=os.path.join(srcdir, vdir),
+                                             srcdir=fsw_opendir_as_fs(src_fs, vdir),
                                              spec_version=self.spec_version,
                                              metadata=metadata,
                                              content_path_normalization=self.content_path_normalization,
-- 
2.43.0


From c0afad9c9f894c46c91bf80d8390d91010e2a9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:22 +0000
Subject: [PATCH 88/92] fix: do not take the path of a file to be removed as a
 pattern

---
 ocfl/object.py       |  4 ++--
 ocfl/storage_root.py | 10 +++++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 5c27440..c23fd2e 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -602,7 +602,7 @@ class Object():  # pylint: disable=too-many-public-methods
         # Delete old root inventory sidecar if we changed digest algorithm
         if (new_version.old_digest_algorithm is not None
                 and inventory.digest_algorithm != new_version.old_digest_algorithm):
-            self.obj_fs.rm(INVENTORY_FILENAME + "." + new_version.old_digest_algorithm)
+            self.obj_fs.rm_file(INVENTORY_FILENAME + "." + new_version.old_digest_algorithm)
         # Replace object declaration if the new version has a higher specification version
         self.spec_version = inventory.spec_version
         declaration = self.object_declaration_object().filename
@@ -610,7 +610,7 @@ class Object():  # pylint: disable=too-many-public-methods
             self.write_object_declaration()
             for namaste in find_namastes(0, fsw=self.obj_fs, limit=None):
                 if namaste.filename != declaration:
-                    self.obj_fs.rm(namaste.filename)
+                    self.obj_fs.rm_file(namaste.filename)
         logging.info("Updated OCFL object %s by adding %s", inventory.id, inventory.head)
         return inventory
 
diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index e04c47c..a68650e 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -512,7 +512,15 @@ class StorageRoot():
         """
         try:
             if self.root_fs.exists(path):
-                self.root_fs.rm(path, recursive=True)
+                # Not rm(path, recursive=True) because that may take the path as a pattern
+                dirpaths = []
+                for (dirpath, dirs, files) in fsw_walk(self.root_fs, path):  # pylint: disable=unused-variable
+                    dirpaths.append(dirpath.lstrip("/"))
+                    for file in files:
+                        self.root_fs.rm_file(os.path.join(dirpaths[-1], file))
+                for dirpath in reversed(dirpaths):
+                    if self.root_fs.exists(dirpath):
+                        self.root_fs.rmdir(dirpath)
             path = os.path.dirname(path)
             while path != "":
                 if self.root_fs.exists(path):
-- 
2.43.0


From 638ccc29c909904d82d911a108a48bd7dc07622f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:23 +0000
Subject: [PATCH 89/92] fix: add object from a filesystem with exact keys
 (memory, S3) to a storage root

---
 ocfl/storage_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index a68650e..8afef60 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -562,7 +562,7 @@ class StorageRoot():
         logging.debug("Copying from %s to %s", object_path, os.path.join(self.root, path))
         try:
             # Recusive copy of object to path in self.root_fs
-            fsw_copydir(o.obj_fs, "/", self.root_fs, path)
+            fsw_copydir(o.obj_fs, "", self.root_fs, path)
         except Exception as e:
             self.remove_partial_object(path)
             raise StorageRootException("Add object at path %s failed! (%s)" % (path, str(e)))
-- 
2.43.0


From 20c06b752a924ede4caff88468ba7ea16203d7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:16 +0000
Subject: [PATCH 90/92] fix: show and validate objects of a storage root in a
 zip file

---
 ocfl-root.py               | 10 ++++++++--
 ocfl/command_line_utils.py |  6 ++++--
 ocfl/object.py             | 11 ++++++++---
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/ocfl-root.py b/ocfl-root.py
index 89973b1..b6bfa2a 100755
--- a/ocfl-root.py
+++ b/ocfl-root.py
@@ -9,6 +9,7 @@ import ocfl  # pylint: disable=import-self; this isn"t actually self import
 from ocfl.command_line_utils import add_version_arg, add_verbosity_args, \
     check_version_arg, check_verbosity_args, validate_object
 from ocfl.constants import DEFAULT_SPEC_VERSION
+from ocfl.fsw import fsw_opendir_as_fs
 
 
 def add_common_args(parser):
@@ -182,9 +183,14 @@ def do_store_operation(args):
                 print("Path to %s inside root %s is %s" % (args.id, store.root, objdir))
         else:
             obj = ocfl.Object(identifier=args.id, lax_digests=args.lax_digests)
+            # Use filesystem of root, its name and path need not make a name of the
+            # object, for example with the zip:// prefix
+            store.open_root_fs()
+            obj_fs = fsw_opendir_as_fs(store.root_fs, objdir) if store.root_fs.isdir(objdir) else None
+            objpath = os.path.join(store.root, objdir)
             if args.cmd == "show":
-                logging.warning("Object tree\n%s", obj.tree(objdir=os.path.join(store.root, objdir)))
-            elif not validate_object(obj, objdir=os.path.join(store.root, objdir), log_warnings=not args.quiet):
+                logging.warning("Object tree\n%s", obj.tree(objdir=objpath, obj_fs=obj_fs))
+            elif not validate_object(obj, objdir=objpath, log_warnings=not args.quiet, obj_fs=obj_fs):
                 sys.exit(1)
     else:
         logging.error("Unrecognized command!")
diff --git a/ocfl/command_line_utils.py b/ocfl/command_line_utils.py
index ef34b43..8118d1c 100755
--- a/ocfl/command_line_utils.py
+++ b/ocfl/command_line_utils.py
@@ -108,12 +108,14 @@ def check_verbosity_args(args):
 
 
 def validate_object(obj, objdir, log_warnings=True,
-                    log_errors=True, check_digests=True):
+                    log_errors=True, check_digests=True, obj_fs=None):
     """Validate object with control of console output.
 
     Arguments:
         obj: Object() instance
         path: Path to object
+        obj_fs: filesystem of the object if it is already open, in which case
+            the path is only shown
 
     Returns True if passed validation, False if failed.
 
@@ -122,7 +124,7 @@ def validate_object(obj, objdir, log_warnings=True,
     validation.
 
     """
-    passed, validator = obj.validate(objdir=objdir,
+    passed, validator = obj.validate(objdir=objdir if obj_fs is None else obj_fs,
                                      log_warnings=log_warnings,
                                      log_errors=log_errors,
                                      check_digests=check_digests)
diff --git a/ocfl/object.py b/ocfl/object.py
index c23fd2e..679a148 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -614,11 +614,13 @@ class Object():  # pylint: disable=too-many-public-methods
         logging.info("Updated OCFL object %s by adding %s", inventory.id, inventory.head)
         return inventory
 
-    def tree(self, objdir):
+    def tree(self, objdir, obj_fs=None):
         """Build human readable tree showing OCFL object at objdir.
 
         Arguments:
             objdir (str): object directory to examine
+            obj_fs (AbstractFileSystem or None): filesystem of the object if it
+                is already open, in which case objdir is only shown
 
         Returns:
             str: human readable string with tree of object structure
@@ -637,7 +639,7 @@ class Object():  # pylint: disable=too-many-public-methods
                               log_errors=True,
                               check_digests=False,
                               lax_digests=self.lax_digests)
-        passed = validator.validate_object(objdir)
+        passed = validator.validate_object(objdir if obj_fs is None else obj_fs)
         if passed:
             self.spec_version = validator.spec_version
             self.content_directory = validator.content_directory
@@ -647,7 +649,10 @@ class Object():  # pylint: disable=too-many-public-methods
             logging.warning("OCFL v%s Object at %s is INVALID",
                             validator.spec_version, objdir)
         tree = "[" + objdir + "]\n"
-        self.open_obj_fs(objdir)
+        if obj_fs is None:
+            self.open_obj_fs(objdir)
+        else:
+            self.obj_fs = obj_fs
         entries = sorted(fsw_listdir_names(self.obj_fs, ""))
         n = 0
         seen_sidecar = False
-- 
2.43.0


From a8fd2fc6214ed150192cfa2519cf00111643b3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:15 +0000
Subject: [PATCH 91/92] fix: refuse content directory name that is that of an
 inventory file

---
 ocfl/object.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 679a148..4823a92 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -167,7 +167,9 @@ class Object():  # pylint: disable=too-many-public-methods
         if self.spec_version not in SPEC_VERSIONS_SUPPORTED:
             raise ObjectException("Unsupported specification version %s" % (self.spec_version))
         if (self.content_directory is not None
-                and (self.content_directory in ("", ".", "..") or "/" in self.content_directory)):
+                and (self.content_directory in ("", ".", "..", INVENTORY_FILENAME)
+                     or "/" in self.content_directory
+                     or self.content_directory.startswith(INVENTORY_FILENAME + "."))):
             raise ObjectException("Bad content directory name '%s'" % (self.content_directory))
         self._check_digest_algorithm(self.digest_algorithm)
 
-- 
2.43.0


From a916f4316c187d37862bcba92cbe1ab3da5ec968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:07 +0000
Subject: [PATCH 92/92] fix: strip_root compares path elements, not characters

---
 ocfl/layout.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ocfl/layout.py b/ocfl/layout.py
index 3d66e38..150be94 100644
--- a/ocfl/layout.py
+++ b/ocfl/layout.py
@@ -93,9 +93,10 @@ class Layout:
             LayoutException: if the path is not within the given root and thus
                 root cannot be stripped from it
         """
-        root = root.rstrip(os.sep)  # ditch any trailing path separator
-        if os.path.commonprefix((path, root)) == root:
-            return os.path.relpath(path, start=root)
+        relpath = os.path.relpath(path or os.curdir, start=root or os.curdir)
+        if (os.path.isabs(path) == os.path.isabs(root)
+                and relpath.split(os.sep)[0] != os.pardir):
+            return relpath
         raise LayoutException("Path %s is not in root %s" % (path, root))
 
     def is_valid(self, identifier):  # pylint: disable=unused-argument
-- 
2.43.0

