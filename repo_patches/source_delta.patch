From f00b963cd22d0c5a60ecd08c23af2dd08144e9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:02 +0000
Subject: [PATCH 01/44] fix: recursive removal of links which loop or are
 inside what they point to

---
 src/spectrocrunch/io/h5fs.py    | 7 +++----
 src/spectrocrunch/io/localfs.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index ec2d9bf..8b3e399 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -603,11 +603,10 @@ class Path(fs.Path):
     def remove(self, recursive=False):
         with self.h5open() as f:
             if self.islink:
-                if recursive:
-                    node = self.linkdest()
-                    if node:
-                        node.remove(recursive=True)
+                node = self.linkdest()
                 del f[self.path]
+                if recursive and node:
+                    node.remove(recursive=True)
             elif self.exists:
                 if self.isdir:
                     if not recursive:
diff --git a/src/spectrocrunch/io/localfs.py b/src/spectrocrunch/io/localfs.py
index 99bb4a2..b90bcd4 100755
--- a/src/spectrocrunch/io/localfs.py
+++ b/src/spectrocrunch/io/localfs.py
@@ -183,11 +183,10 @@ class Path(fs.Path):
 
     def remove(self, recursive=False):
         if self.islink:
-            if recursive:
-                node = self.linkdest()
-                if node:
-                    node.remove(recursive=True)
+            node = self.linkdest()
             os.remove(self.path)
+            if recursive and node:
+                node.remove(recursive=True)
         elif self.isdir:
             if recursive:
                 shutil.rmtree(self.path)
-- 
2.43.0


From ff4aec8d496484de4d17804b5cdfb62046d7b5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:02 +0000
Subject: [PATCH 02/44] fix: making a local directory over a broken link was
 silently ignored

---
 src/spectrocrunch/io/localfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/localfs.py b/src/spectrocrunch/io/localfs.py
index b90bcd4..34bacc5 100755
--- a/src/spectrocrunch/io/localfs.py
+++ b/src/spectrocrunch/io/localfs.py
@@ -141,7 +141,7 @@ class Path(fs.Path):
             try:
                 os.makedirs(self.path)
             except OSError as err:
-                if err.errno != errno.EEXIST:
+                if err.errno != errno.EEXIST or not self.isdir:
                     raise
         else:
             parent = self.parent
-- 
2.43.0


From bb50a62a86f574cb699a45ee3c78719958b550cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:03 +0000
Subject: [PATCH 03/44] fix: find with a regular expression, and its depth

---
 src/spectrocrunch/io/fs.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/io/fs.py b/src/spectrocrunch/io/fs.py
index 42d3e0c..2c35b18 100755
--- a/src/spectrocrunch/io/fs.py
+++ b/src/spectrocrunch/io/fs.py
@@ -740,15 +740,23 @@ class Path(File):
             match(str|callable): regex when str
         """
         if instance.isstring(match):
-            match = re.compile(match).match
+            pattern = re.compile(match)
+
+            def match(path):
+                return pattern.match(path.name)
+
         for path in self:
             if path.isfile and not files:
                 continue
             if match(path):
                 yield path
-            if recursive and path.isdir and _level > depth:
+            if path.isdir and not path.islink and (recursive or _level < depth):
                 for sub in path.find(
-                    match, recursive=True, depth=depth, _level=_level + 1
+                    match,
+                    recursive=recursive,
+                    files=files,
+                    depth=depth,
+                    _level=_level + 1,
                 ):
                     yield sub
 
-- 
2.43.0


From 5170fee2dd85b0732f2ad5ecb8b09fba5d9ca8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:03 +0000
Subject: [PATCH 04/44] fix: endless recursion on links which loop and wrong
 state of broken links

---
 src/spectrocrunch/io/fs.py   | 16 ++++++++-------
 src/spectrocrunch/io/h5fs.py | 38 +++++++++++++++++++++++++-----------
 2 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/spectrocrunch/io/fs.py b/src/spectrocrunch/io/fs.py
index 2c35b18..4999f45 100755
--- a/src/spectrocrunch/io/fs.py
+++ b/src/spectrocrunch/io/fs.py
@@ -398,14 +398,16 @@ class Path(File):
                 return True
         return False
 
-    @staticmethod
-    def _link_follow(lnk):
-        while lnk:
-            dest = lnk.linkdest(follow=True)
-            if dest:
-                lnk = dest
-            else:
+    # Maximal number of links to follow
+    _MAXLINKS = 40
+
+    @classmethod
+    def _link_follow(cls, lnk):
+        for _ in range(cls._MAXLINKS):
+            dest = lnk.linkdest() if lnk else None
+            if not dest:
                 break
+            lnk = dest
         return lnk
 
     @abstractproperty
diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index 8b3e399..9176152 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -95,6 +95,22 @@ def prepare_h5data(data, **kwargs):
         return data
 
 
+def get_node(fileobj, path):
+    """Get a node or `None` when it does not exist or cannot be reached
+
+    Args:
+        fileobj(File)
+        path(str)
+    Returns:
+        h5py.Group, h5py.Dataset or None
+    """
+    try:
+        return fileobj.get(path, default=None)
+    except (KeyError, OSError, RuntimeError):
+        # e.g. below a broken link, too many links, missing external file
+        return None
+
+
 def is_link(fileobj, path):
     """Check whether node is h5py.SoftLink or h5py.ExternalLink
 
@@ -411,7 +427,7 @@ class Path(fs.Path):
         nodemode = createparams.pop("nodemode")
 
         with self.h5open(**openparams) as f:
-            node = f.get(self.path, default=None)
+            node = get_node(f, self.path)
             if node:
                 if nodemode == "w-" or nodemode == "x":
                     raise fs.AlreadyExists(self.location)
@@ -458,13 +474,13 @@ class Path(fs.Path):
         try:
             with self.h5open(mode="r") as f:
                 if self.islink:
-                    dest = self.linkdest()
-                    if dest is None:
+                    dest = self.linkdest(follow=True)
+                    if dest is None or dest.islink:
                         return False
                     else:
                         return dest.exists
                 else:
-                    return self.path in f
+                    return get_node(f, self.path) is not None
         except (IOError, fs.FileSystemException):
             return False
 
@@ -473,26 +489,26 @@ class Path(fs.Path):
         # For links: link exists
         try:
             with self.h5open(mode="r") as f:
-                return self.path in f
-        except IOError:
+                return is_link(f, self.path) or get_node(f, self.path) is not None
+        except (IOError, fs.FileSystemException):
             return False
 
     @property
     def isdir(self):
         try:
             with self.h5open(mode="r") as f:
-                node = f.get(self.path, default=None)
+                node = get_node(f, self.path)
                 return isinstance(node, h5py.Group)
-        except IOError:
+        except (IOError, fs.FileSystemException):
             return False
 
     @property
     def isfile(self):
         try:
             with self.h5open(mode="r") as f:
-                node = f.get(self.path, default=None)
+                node = get_node(f, self.path)
                 return isinstance(node, h5py.Dataset)
-        except IOError:
+        except (IOError, fs.FileSystemException):
             return False
 
     @property
@@ -521,7 +537,7 @@ class Path(fs.Path):
 
     def listdir(self, recursive=False, depth=0):
         with self.h5open() as f:
-            root = f.get(self.path, default=None)
+            root = get_node(f, self.path)
             if isinstance(root, h5py.Group):
                 for k in root.keys():
                     yield self[k]
-- 
2.43.0


From ed88f7232fc7cf0c552ecba3be38ddf087322ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:03 +0000
Subject: [PATCH 05/44] fix: writing or linking below an HDF5 dataset is
 refused with a file system error

---
 src/spectrocrunch/io/h5fs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index 9176152..8aaee85 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -451,9 +451,11 @@ class Path(fs.Path):
                 if nodemode.startswith("r"):
                     raise fs.Missing(self.location)
                 parent = self.parent
-                node = f.get(parent.path, default=None)
+                node = get_node(f, parent.path)
                 if not node:
                     raise fs.MissingParentDirectory(self.location)
+                if not isinstance(node, h5py.Group):
+                    raise fs.NotADirectory(parent.location)
                 node = node.create_dataset(self.name, **createparams)
             yield node
 
@@ -701,6 +703,8 @@ class Path(fs.Path):
                     dest = f[destpath.path]
             else:
                 dest = h5py.ExternalLink(str(destpath.device), destpath.path)
+            if base.exists and not base.isdir:
+                raise fs.NotADirectory(base.location)
             f[base.path][lnkname] = dest
             return self.factory(self)
 
-- 
2.43.0


From ce6e5e8727563f76aa42873e2cf0a1275db12bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:03 +0000
Subject: [PATCH 06/44] fix: copying an HDF5 group relinked through links and
 in the wrong file

---
 src/spectrocrunch/io/h5fs.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index 8aaee85..1d6b53c 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -585,17 +585,21 @@ class Path(fs.Path):
             return self.factory(dest)
 
     def _copymove_relink(self, source, dest):
-        # Softlink in HDF5 are absolute, so relink all links below self
-        # that point to a destination below self (including self)
-        if self.is_external_link:
-            return
-        for path in self.listdir():
-            path._copymove_relink(source, dest)
-        if self.islink:
-            linkdest = self.linkdest()
-            if source.common(linkdest) == source:
-                self.remove()
-                self.link(dest[source.relpath(linkdest.path)])
+        # Absolute softlinks in HDF5: relink all links below self
+        # that point to a destination below source (including source)
+        with self.h5open(mode="r") as f:
+            if is_internal_link(f, self.path):
+                path = f.get(self.path, getlink=True).path
+                linkdest = source[path] if source.isabs(path) else None
+            elif is_link(f, self.path):
+                linkdest = None
+            else:
+                for path in list(self.listdir()):
+                    path._copymove_relink(source, dest)
+                linkdest = None
+        if linkdest is not None and source.common(linkdest) == source:
+            self.remove()
+            self.link(dest[source.relpath(linkdest.path)])
 
     def copy(self, dest, force=False, follow=False, dereference=False):
         with self.h5open() as fsource:
-- 
2.43.0


From 02ff3c72761daf232239acdc25ead3af6f34564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:03 +0000
Subject: [PATCH 07/44] fix: copying a local link

---
 src/spectrocrunch/io/localfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/localfs.py b/src/spectrocrunch/io/localfs.py
index 34bacc5..102c7ab 100755
--- a/src/spectrocrunch/io/localfs.py
+++ b/src/spectrocrunch/io/localfs.py
@@ -171,7 +171,7 @@ class Path(fs.Path):
         dest = self._copy_move_prepare(dest, force=force)
         if self.islink and not follow:
             # just copy the link
-            dest.link(self.linkdest)
+            dest.link(self.linkdest())
         else:
             # TODO: missing option: expand softlinks when pointing outside
             #       the tree being copied.
-- 
2.43.0


From a4f6bd5ab3d11bebf2250e3ae518225b0536c13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:03 +0000
Subject: [PATCH 08/44] fix: refused copy or move removed the destination,
 forced copy on itself lost the data

---
 src/spectrocrunch/io/fs.py      | 42 ++++++++++++++++++++++++++++-----
 src/spectrocrunch/io/h5fs.py    |  6 +----
 src/spectrocrunch/io/localfs.py |  2 +-
 3 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/spectrocrunch/io/fs.py b/src/spectrocrunch/io/fs.py
index 4999f45..7f36636 100755
--- a/src/spectrocrunch/io/fs.py
+++ b/src/spectrocrunch/io/fs.py
@@ -365,17 +365,28 @@ class Path(File):
                 return ret
         return ret
 
-    def _copy_move_prepare(self, dest, force=False, rename=False):
+    def _copy_move_prepare(self, dest, force=False, rename=False, follow=False):
         """Called by `move` and `copy`"""
+        if not (self.exists if follow else self.lexists):
+            raise Missing(self.location)
         dest = self.sibling(dest)
         if dest.isdir and not rename:
             dest = dest[self.name]
-        if dest.exists:
-            if force:
-                dest.remove(recursive=True)
-            else:
-                raise AlreadyExists(dest.location)
+        if dest.lexists and not force:
+            raise AlreadyExists(dest.location)
+        # Do not copy/move something in itself or over one of its parents
+        nolinksdest = dest._nolinks(follow=False)
+        refuse = self.common(dest) == dest
+        for source in [self._nolinks(follow=False), self._nolinks(follow=follow)]:
+            refuse |= source.common(nolinksdest) in (source, nolinksdest)
+        if refuse:
+            raise FileSystemException("Cannot copy or move {} to {}".format(self, dest))
         d = dest.parent
+        if d and d.exists and not d.isdir:
+            raise NotADirectory(d.location)
+        if dest.lexists:
+            # Do not remove the destination of a link
+            dest.remove(recursive=not dest.islink)
         if d and not d.exists:
             d.mkdir()
         return dest
@@ -410,6 +421,25 @@ class Path(File):
             lnk = dest
         return lnk
 
+    def _nolinks(self, follow=True, _budget=None):
+        """Equivalent path without links
+
+        Args:
+            follow(bool): also when the path itself is a link
+        """
+        if _budget is None:
+            _budget = [self._MAXLINKS]
+        path = self
+        while True:
+            parent = path.parent
+            if parent != path:
+                path = parent._nolinks(_budget=_budget)[path.name]
+            dest = path.linkdest() if follow else None
+            if not dest or not _budget[0]:
+                return path
+            _budget[0] -= 1
+            path = dest
+
     @abstractproperty
     def exists(self):
         # For links: destination exists
diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index 1d6b53c..556bc43 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -570,8 +570,6 @@ class Path(fs.Path):
     def move(self, dest, force=False, rename=False):
         with self.h5open() as f:
             dest = self._copy_move_prepare(dest, force=force, rename=rename)
-            if dest.exists and force:
-                dest.remove(recursive=True)
             if self.device == dest.device:
                 try:
                     # h5py does not have a `rename` so use
@@ -603,9 +601,7 @@ class Path(fs.Path):
 
     def copy(self, dest, force=False, follow=False, dereference=False):
         with self.h5open() as fsource:
-            dest = self._copy_move_prepare(dest, force=force)
-            if dest.exists and force:
-                dest.remove(recursive=True)
+            dest = self._copy_move_prepare(dest, force=force, follow=follow)
             if self.islink and not follow:
                 # just copy the link itself
                 dest.link(self.linkdest())
diff --git a/src/spectrocrunch/io/localfs.py b/src/spectrocrunch/io/localfs.py
index 102c7ab..d67a1c1 100755
--- a/src/spectrocrunch/io/localfs.py
+++ b/src/spectrocrunch/io/localfs.py
@@ -168,7 +168,7 @@ class Path(fs.Path):
         return dest
 
     def copy(self, dest, force=False, follow=False, dereference=False):
-        dest = self._copy_move_prepare(dest, force=force)
+        dest = self._copy_move_prepare(dest, force=force, follow=follow)
         if self.islink and not follow:
             # just copy the link
             dest.link(self.linkdest())
-- 
2.43.0


From 6a433479905d4335b7439ea597d9e248f2916d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:08 +0000
Subject: [PATCH 09/44] fix: read-only version of a path was not returned

---
 src/spectrocrunch/io/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/fs.py b/src/spectrocrunch/io/fs.py
index 7f36636..ec5201c 100755
--- a/src/spectrocrunch/io/fs.py
+++ b/src/spectrocrunch/io/fs.py
@@ -256,7 +256,7 @@ class Path(File):
 
     def readonly(self, **kwargs):
         kwargs["mode"] = "r"
-        self.detach(**kwargs)
+        return self.detach(**kwargs)
 
     def sibling(self, path):
         if isinstance(path, Path):
-- 
2.43.0


From 26a64349c491a539c2f0e3231b3deb5dd9b8d6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:08 +0000
Subject: [PATCH 10/44] fix: HDF5 file mode w- is documented but was refused

---
 src/spectrocrunch/io/h5fs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index 556bc43..b3ea498 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -325,6 +325,8 @@ class h5Device(localfs.Path):
         """
         if mode not in ("r", "r+", "w", "x", "w-", "a"):
             raise ValueError("Invalid mode {}".format(repr(mode)))
+        if mode == "w-":
+            mode = "x"
         self.openparams = kwargs
         self.openparams["mode"] = mode
         super(h5Device, self).__init__(path, **kwargs)
-- 
2.43.0


From 9ce5def1d71b9cfa5a0775b07615943b49879e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:08 +0000
Subject: [PATCH 11/44] fix: default mode w truncated the HDF5 file for every
 item and reading with default mode x created it

---
 src/spectrocrunch/io/h5fs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index b3ea498..b4beec6 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -342,7 +342,8 @@ class h5Device(localfs.Path):
         #    logger.debug('Close '+msg)
 
     def _openparams_defaults(self, openparams):
-        super(h5Device, self)._openparams_defaults(openparams)
+        # Skip the restrictions of local files
+        super(localfs.Path, self)._openparams_defaults(openparams)
         defaultmode = self.openparams["mode"]
         mode = openparams["mode"]
 
-- 
2.43.0


From 5a75204986dd4b8f52695a7c03a0aafebaa29fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:08 +0000
Subject: [PATCH 12/44] fix: opening an HDF5 group with mode w removed it
 before failing

---
 src/spectrocrunch/io/h5fs.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index b4beec6..fbb6e84 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -435,12 +435,10 @@ class Path(fs.Path):
                 if nodemode == "w-" or nodemode == "x":
                     raise fs.AlreadyExists(self.location)
                 if nodemode == "w":
-                    if createparams:
-                        if isinstance(node, h5py.Group):
-                            raise fs.NotAFile(self.location)
-                    else:
-                        if isinstance(node, h5py.Dataset):
-                            raise fs.NotADirectory(self.location)
+                    if isinstance(node, h5py.Group):
+                        raise fs.NotAFile(self.location)
+                    if not createparams:
+                        raise fs.NotADirectory(self.location)
                     try:
                         del f[self.path]
                     except KeyError:
-- 
2.43.0


From cf1ccd19169f6c30d1f92570c04be6ab90fad52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:08 +0000
Subject: [PATCH 13/44] fix: requesting mode w on a local path with default
 mode x overwrote an existing file

---
 src/spectrocrunch/io/localfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/io/localfs.py b/src/spectrocrunch/io/localfs.py
index d67a1c1..93529f4 100755
--- a/src/spectrocrunch/io/localfs.py
+++ b/src/spectrocrunch/io/localfs.py
@@ -70,7 +70,7 @@ class Path(fs.Path):
         elif defaultmode == "r+" and mode not in ["r", "r+"]:
             # deny new files
             mode = defaultmode
-        elif defaultmode in ["x", "x+"] and mode not in ["w", "w+"]:
+        elif defaultmode in ["x", "x+"] and mode not in ["r", "x", "x+"]:
             # allow new files (error when existing)
             mode = defaultmode
         elif defaultmode in ["w", "w+"] and mode not in ["r", "w", "w+"]:
-- 
2.43.0


From 5a593769626e0aac19ea118d1f87f0d69de1dd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:05 +0000
Subject: [PATCH 14/44] fix: termination handling runs the teardown once,
 leaves the body, restores handlers after failing setup or teardown and
 delivers signals received meanwhile

---
 src/spectrocrunch/utils/signalhandling.py | 116 ++++++++++++++--------
 1 file changed, 76 insertions(+), 40 deletions(-)

diff --git a/src/spectrocrunch/utils/signalhandling.py b/src/spectrocrunch/utils/signalhandling.py
index 61ef022..da4be91 100755
--- a/src/spectrocrunch/utils/signalhandling.py
+++ b/src/spectrocrunch/utils/signalhandling.py
@@ -1,6 +1,7 @@
 import signal
 import logging
 import sys
+import contextlib
 
 logger = logging.getLogger(__name__)
 
@@ -29,23 +30,38 @@ def allhandlers():
     return gethandlers([name for name in dir(signal) if name.startswith("SIG")])
 
 
-def replace_handlers(newhandler, handlers=None):
+@contextlib.contextmanager
+def block_signals(signums):
+    """Postpone the delivery of signals (when supported)"""
+    if hasattr(signal, "pthread_sigmask"):
+        mask = signal.pthread_sigmask(signal.SIG_BLOCK, [])
+        try:
+            signal.pthread_sigmask(signal.SIG_BLOCK, signums)
+            yield
+        finally:
+            signal.pthread_sigmask(signal.SIG_SETMASK, mask)
+    else:
+        yield
+
+
+def replace_handlers(newhandler, handlers=None, oldhandlers=None):
     if handlers is None:
         handlers = allhandlers()
-    oldhandlers = {}
-    for signum, oldhander in handlers.items():
-        try:
-            oldhander = signal.signal(signum, newhandler)
-        except (OSError, RuntimeError, ValueError):
-            pass
-        else:
-            oldhandlers[signum] = oldhander
+    if oldhandlers is None:
+        oldhandlers = {}
+    with block_signals(handlers):
+        for signum in handlers:
+            try:
+                oldhandlers[signum] = signal.signal(signum, newhandler)
+            except (OSError, RuntimeError, ValueError):
+                pass
     return oldhandlers
 
 
 def restore_handlers(oldhandlers):
-    for signum, oldhandler in oldhandlers.items():
-        signal.signal(signum, oldhandler)
+    with block_signals(oldhandlers):
+        for signum, oldhandler in oldhandlers.items():
+            signal.signal(signum, oldhandler)
 
 
 def send_signals(signals, handlers=None):
@@ -53,17 +69,22 @@ def send_signals(signals, handlers=None):
         handlers = allhandlers()
     for sig, frame in signals:
         handler = handlers.get(sig, None)
-        if handler is not None:
-            try:
-                handler(sig, frame)
-            except TypeError:
-                pass
+        if callable(handler):
+            handler(sig, frame)
 
 
 def signalname(signum):
     return next(v for v, k in signal.__dict__.items() if k == signum)
 
 
+class Terminated(SystemExit):
+    """
+    Leaves the context that received a termination signal
+    """
+
+    pass
+
+
 class HandleTermination(object):
     """
     Context manager which allows for tear-down on
@@ -75,43 +96,58 @@ class HandleTermination(object):
         self._setup = setup
         self._teardown = teardown
         self.resend = resend
+        self._oldhandlers = {}
+        self._received = []
 
     def __enter__(self):
         """Overwrite signal handlers and call user setup"""
+        self._oldhandlers = {}
+        self._received = []
         self._needcleanup = True
-        self._oldhandlers = replace_handlers(self._newhandler, termination_handlers())
-        if self._setup is not None:
-            self._setup()
+        try:
+            try:
+                replace_handlers(
+                    self._newhandler, termination_handlers(), self._oldhandlers
+                )
+                if self._setup is not None:
+                    self._setup()
+            except BaseException:
+                self.__exit__(*sys.exc_info())
+                raise
+        except Terminated:
+            # Received before tearing down
+            self.__exit__(*sys.exc_info())
+            raise
 
     def _cleanup(self, exc_type, exc_value, exc_traceback):
-        """User tear-down and reset signal handlers"""
+        """User tear-down, reset signal handlers and resend received signals"""
         ret = 0
         if self._needcleanup:
-            if self._teardown is not None:
-                ret = self._teardown(exc_type, exc_value, exc_traceback)
-            restore_handlers(self._oldhandlers)
+            # Signals received from now on are only resent
             self._needcleanup = False
+            try:
+                if self._teardown is not None:
+                    ret = self._teardown(exc_type, exc_value, exc_traceback)
+            finally:
+                restore_handlers(self._oldhandlers)
+                if self.resend:
+                    send_signals(self._received, self._oldhandlers)
         return ret
 
     def _newhandler(self, signum, frame):
-        """Converts signal into exception and reset signals.
-        Optionally resends the signal after user tear-down.
+        """Converts the first signal into an exception in order to leave the context.
+        Optionally resends the signals after user tear-down.
         """
-        msg = "Signal {} received.".format(signalname(signum))
-        logger.debug(msg + " Cleanup and resend...")
-
-        # Convert signal to exception for user tear-down function
-        try:
-            raise RuntimeError(msg)
-        except RuntimeError:
-            exc_type, exc_value, exc_traceback = sys.exc_info()
-
-        # User tear-down and reset signal handlers
-        self._cleanup(exc_type, exc_value, exc_traceback)
-
-        # Resend the signal to the original handlers
-        if self.resend:
-            send_signals([(signum, frame)], self._oldhandlers)
+        self._received.append((signum, frame))
+        if self._needcleanup and len(self._received) == 1:
+            while frame is not None:
+                if frame.f_code is HandleTermination.__exit__.__code__:
+                    if frame.f_locals.get("self") is self:
+                        return  # already leaving the context
+                frame = frame.f_back
+            msg = "Signal {} received.".format(signalname(signum))
+            logger.debug(msg + " Cleanup and resend...")
+            raise Terminated(128 + signum)
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """User tear-down and reset signal handlers"""
-- 
2.43.0


From 33db4dc3471ac15113a6e3e3fff1353a00d014b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:19 +0000
Subject: [PATCH 15/44] fix: interrupted or failing tasks leave a temporary
 result or an incomplete result

---
 src/spectrocrunch/process/nxprocess.py | 57 +++++++++++++++++++-------
 src/spectrocrunch/process/nxutils.py   | 30 ++++++++++----
 2 files changed, 63 insertions(+), 24 deletions(-)

diff --git a/src/spectrocrunch/process/nxprocess.py b/src/spectrocrunch/process/nxprocess.py
index de9a00a..eea414f 100755
--- a/src/spectrocrunch/process/nxprocess.py
+++ b/src/spectrocrunch/process/nxprocess.py
@@ -24,18 +24,23 @@ class Task(basetask.Task):
 
     def _atomic_context_enter(self):
         self.temp_nxprocess = None
+        nxentry = self.outputparent.nxentry()
         while True:
+            name = randomstring()
+            if nxentry[name].lexists:
+                continue
+            # To be removed when the creation fails
+            self.temp_nxprocess = nxentry[name]
             try:
-                temp_nxprocess = self.outputparent.nxprocess(
-                    randomstring(),
+                self.temp_nxprocess = nxentry.nxprocess(
+                    name,
                     noincrement=True,
                     parameters=self.parameters,
                     dependencies=list(self.previous_outputs),
                 )
             except fs.AlreadyExists:
-                pass  # already exists
+                self.temp_nxprocess = None  # created by someone else
             else:
-                self.temp_nxprocess = temp_nxprocess
                 break
 
     @property
@@ -99,14 +104,29 @@ class Task(basetask.Task):
             )
             self._remove_temp_output()
         else:
-            self._rename_temp_output()
-            if "results" in self.output:
-                nxutils.set_default(self.output.results, self.default)
+            try:
+                nxdata = nxutils.select_default(
+                    self._results_path(self.temp_nxprocess), self.default
+                )
+                self._rename_temp_output()
+            except BaseException:
+                self._remove_temp_output()
+                raise
+            parent = self._results_path(self.output)
+            if nxdata is None:
+                nxutils.mark_default(parent)
             else:
-                nxutils.set_default(self.output, self.default)
+                nxutils.mark_default(parent, parent[nxdata.name])
         self.temp_nxprocess = None
         return 1  # Exception is handled (do not raise it)
 
+    @staticmethod
+    def _results_path(nxprocess):
+        if "results" in nxprocess:
+            return nxprocess.results
+        else:
+            return nxprocess
+
     def _remove_temp_output(self):
         if self.temp_nxprocess is None:
             return
@@ -116,19 +136,26 @@ class Task(basetask.Task):
     def _rename_temp_output(self):
         if self.temp_nxprocess is None:
             return
-        while self.temp_nxprocess.exists:
+        old, oldlocal = self.temp_nxprocess, self.temp_localpath
+        while True:
+            new, newlocal = self.output, self.output_localpath
             try:
-                old, new = self.temp_nxprocess, self.output
                 old.rename(new)
+                if oldlocal.exists:
+                    oldlocal.move(newlocal, force=True)
+                    logger.info("Renamed {} to {}".format(oldlocal, newlocal))
             except fs.AlreadyExists:
                 if self.output.exists:
                     # Already done by someone else
                     self._remove_temp_output()
+                    break
+            except BaseException:
+                if not old.exists:
+                    # Do not leave an incomplete output
+                    new.remove(recursive=True)
+                    newlocal.remove(recursive=True)
+                raise
             else:
                 logger.info("Renamed {} to {}".format(old, new))
                 self._lock_outputname()
-        old = self.temp_localpath
-        if old.exists:
-            new = self.output_localpath
-            old.move(new, force=True)
-            logger.info("Renamed {} to {}".format(old, new))
+                break
diff --git a/src/spectrocrunch/process/nxutils.py b/src/spectrocrunch/process/nxutils.py
index 24a2196..efd6ae9 100755
--- a/src/spectrocrunch/process/nxutils.py
+++ b/src/spectrocrunch/process/nxutils.py
@@ -1,17 +1,29 @@
-def set_default(parent, default):
-    it = parent.iter_is_nxclass("NXdata")
-    # Default signal
+def select_default(parent, default):
+    """Select the default signal of each NXdata
+
+    Returns:
+        Path or None: the NXdata to be plotted by default
+    """
     nxdataselect = None
-    for nxdata in it:
+    for nxdata in parent.iter_is_nxclass("NXdata"):
         if default is None:
-            default = nxdata.signal.name
-            nxdataselect = nxdata
+            if nxdata.signal is not None:
+                default = nxdata.signal.name
+                nxdataselect = nxdata
         else:
             if nxdata.default_signal(default):
                 nxdataselect = nxdata
-    # Default NXdata
-    if nxdataselect:
-        nxdataselect.mark_default()
+    return nxdataselect
+
+
+def mark_default(parent, nxdata=None):
+    """Mark an NXdata (or the parent when there is none) as default"""
+    if nxdata:
+        nxdata.mark_default()
     else:
         parent.mark_default()
     parent.updated()
+
+
+def set_default(parent, default):
+    mark_default(parent, select_default(parent, default))
-- 
2.43.0


From 73355b0010e9ffbf773477fd70c2f601a3189a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:19 +0000
Subject: [PATCH 16/44] fix: HDF5 file stays open when closing it is
 interrupted

---
 src/spectrocrunch/io/h5fs.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index fbb6e84..38e0312 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -269,8 +269,14 @@ class h5FileIO(object):
 
     def __exit__(self, *args):
         if self._handle:
-            self._handle.close()
-            self._handle = None
+            try:
+                self._handle.close()
+            except BaseException:
+                # e.g. interrupted by a signal handler
+                self._handle.close()
+                raise
+            finally:
+                self._handle = None
 
     def _open(self):
         # Open file which is locked by another process:
-- 
2.43.0


From 6c634433ce8268b2b80b048532a8a06d59b2f174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:19 +0000
Subject: [PATCH 17/44] fix: failing to read an HDF5 file was taken for a
 missing item or a different value

---
 src/spectrocrunch/io/h5fs.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index 38e0312..6a016fe 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -477,6 +477,10 @@ class Path(fs.Path):
     def h5remove(self):
         self.device.remove()
 
+    @property
+    def _h5exists(self):
+        return h5py.is_hdf5(self.device.path)
+
     @property
     def exists(self):
         # For links: destination exists
@@ -490,7 +494,11 @@ class Path(fs.Path):
                         return dest.exists
                 else:
                     return get_node(f, self.path) is not None
-        except (IOError, fs.FileSystemException):
+        except fs.FileSystemException:
+            return False
+        except IOError:
+            if self._h5exists:
+                raise  # does not mean that the path does not exist
             return False
 
     @property
@@ -499,7 +507,11 @@ class Path(fs.Path):
         try:
             with self.h5open(mode="r") as f:
                 return is_link(f, self.path) or get_node(f, self.path) is not None
-        except (IOError, fs.FileSystemException):
+        except fs.FileSystemException:
+            return False
+        except IOError:
+            if self._h5exists:
+                raise  # does not mean that the path does not exist
             return False
 
     @property
@@ -508,7 +520,11 @@ class Path(fs.Path):
             with self.h5open(mode="r") as f:
                 node = get_node(f, self.path)
                 return isinstance(node, h5py.Group)
-        except (IOError, fs.FileSystemException):
+        except fs.FileSystemException:
+            return False
+        except IOError:
+            if self._h5exists:
+                raise  # does not mean that the path does not exist
             return False
 
     @property
@@ -517,7 +533,11 @@ class Path(fs.Path):
             with self.h5open(mode="r") as f:
                 node = get_node(f, self.path)
                 return isinstance(node, h5py.Dataset)
-        except (IOError, fs.FileSystemException):
+        except fs.FileSystemException:
+            return False
+        except IOError:
+            if self._h5exists:
+                raise  # does not mean that the path does not exist
             return False
 
     @property
@@ -774,8 +794,8 @@ class Path(fs.Path):
         with self.open(mode="r") as node:
             try:
                 return node.asstr()[()]
-            except Exception:
-                return node[()]
+            except (TypeError, AttributeError, UnicodeError):
+                return node[()]  # not a (valid) string
 
     def write(self, **kwargs):
         return self.mkfile(**kwargs)
-- 
2.43.0


From fba2deec2d72a320a9758ef2b74c33b909739a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:25 +0000
Subject: [PATCH 18/44] fix: non-string dictionary keys of stored parameters
 became strings

---
 src/spectrocrunch/patch/jsonpickle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/patch/jsonpickle.py b/src/spectrocrunch/patch/jsonpickle.py
index 05194a3..cd6c0fb 100755
--- a/src/spectrocrunch/patch/jsonpickle.py
+++ b/src/spectrocrunch/patch/jsonpickle.py
@@ -17,12 +17,12 @@ except NameError:
 
 def dumps(data, **kwargs):
     jsonpickle.set_encoder_options("json", **kwargs)
-    return jsonpickle.encode(data, keys=False)
+    return jsonpickle.encode(data, keys=True)
 
 
 def loads(data, **kwargs):
     jsonpickle.set_decoder_options("json", **kwargs)
-    return jsonpickle.decode(data, keys=False)
+    return jsonpickle.decode(data, keys=True)
 
 
 def flatten(data, **kwargs):
-- 
2.43.0


From 1a3138e579e83339643b4758e266feedf72a7692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:43 +0000
Subject: [PATCH 19/44] fix: a task was skipped, overlooked or duplicated when
 a name is taken between looking it up and using it

---
 src/spectrocrunch/process/nxprocess.py | 41 +++++++++++++++-----------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/spectrocrunch/process/nxprocess.py b/src/spectrocrunch/process/nxprocess.py
index eea414f..1414990 100755
--- a/src/spectrocrunch/process/nxprocess.py
+++ b/src/spectrocrunch/process/nxprocess.py
@@ -57,19 +57,28 @@ class Task(basetask.Task):
         entry = self.outputparent
         if not entry.exists:
             return str(self._target)
-        process = entry.find_nxprocess(
-            name=str(self._target),
-            parameters=self.parameters,
-            dependencies=self.dependencies,
-            searchallentries=False,
-        )
-        if process is None:
-            while entry[str(self._target)].exists:
-                self._target += 1
-        else:
-            self._target = target.Name(process.name)
+        with entry.h5open():
+            process = entry.find_nxprocess(
+                name=str(self._target),
+                parameters=self.parameters,
+                dependencies=self.dependencies,
+                searchallentries=False,
+            )
+            if process is None:
+                while entry[str(self._target)].exists:
+                    self._target += 1
+            else:
+                self._target = target.Name(process.name)
         return str(self._target)
 
+    @property
+    def exists(self):
+        if not self.outputparent.exists:
+            return False
+        # Others cannot take the name while the file is open
+        with self.outputparent.h5open():
+            return super(Task, self).exists
+
     def _lock_outputname(self):
         self._target.lock()
 
@@ -137,7 +146,8 @@ class Task(basetask.Task):
         if self.temp_nxprocess is None:
             return
         old, oldlocal = self.temp_nxprocess, self.temp_localpath
-        while True:
+        # Others cannot take the name while the file is open
+        with self.outputparent.h5open():
             new, newlocal = self.output, self.output_localpath
             try:
                 old.rename(new)
@@ -145,10 +155,8 @@ class Task(basetask.Task):
                     oldlocal.move(newlocal, force=True)
                     logger.info("Renamed {} to {}".format(oldlocal, newlocal))
             except fs.AlreadyExists:
-                if self.output.exists:
-                    # Already done by someone else
-                    self._remove_temp_output()
-                    break
+                # Already done by someone else
+                self._remove_temp_output()
             except BaseException:
                 if not old.exists:
                     # Do not leave an incomplete output
@@ -158,4 +166,3 @@ class Task(basetask.Task):
             else:
                 logger.info("Renamed {} to {}".format(old, new))
                 self._lock_outputname()
-                break
-- 
2.43.0


From fb86d5e135bdda5a23172f2dc88148a29b5b5268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:05 +0000
Subject: [PATCH 20/44] fix: indexing of a stack: ellipsis with a full index,
 boolean lists, broadcasted values, empty lists and stack dimension of grid
 values

---
 src/spectrocrunch/process/h5regulargrid.py | 10 +++-
 src/spectrocrunch/process/regulargrid.py   | 14 +++--
 src/spectrocrunch/utils/indexing.py        | 60 ++++++++++++++++------
 3 files changed, 61 insertions(+), 23 deletions(-)

diff --git a/src/spectrocrunch/process/h5regulargrid.py b/src/spectrocrunch/process/h5regulargrid.py
index f37082a..6eda472 100755
--- a/src/spectrocrunch/process/h5regulargrid.py
+++ b/src/spectrocrunch/process/h5regulargrid.py
@@ -132,6 +132,7 @@ class NXRegularGrid(RegularGrid):
                 axis=self.stackdim,
                 method="add",
             )
+        return self
 
     def __isub__(self, value):
         with self.open() as group:
@@ -149,6 +150,7 @@ class NXRegularGrid(RegularGrid):
                 axis=self.stackdim,
                 method="sub",
             )
+        return self
 
     def __imul__(self, value):
         with self.open() as group:
@@ -166,8 +168,9 @@ class NXRegularGrid(RegularGrid):
                 axis=self.stackdim,
                 method="mul",
             )
+        return self
 
-    def __idiv__(self, value):
+    def __itruediv__(self, value):
         with self.open() as group:
 
             def selector(signal):
@@ -183,6 +186,7 @@ class NXRegularGrid(RegularGrid):
                 axis=self.stackdim,
                 method="div",
             )
+        return self
 
     @property
     def dtype(self):
@@ -194,7 +198,9 @@ class NXRegularGrid(RegularGrid):
         ret = np.empty(self.shape, dtype=self.dtype)
         for i, signal in enumerate(self.signals):
             with signal.open(mode="r") as dset:
-                ret[i] = dset[()]
+                index = [slice(None)] * self.ndim
+                index[self.stackdim] = i
+                ret[tuple(index)] = dset[()]
                 # No longer works in h5py 3.1:
                 # dset.read_direct(ret, dest_sel=(i, Ellipsis))
         return ret
diff --git a/src/spectrocrunch/process/regulargrid.py b/src/spectrocrunch/process/regulargrid.py
index a57517a..aa89d09 100755
--- a/src/spectrocrunch/process/regulargrid.py
+++ b/src/spectrocrunch/process/regulargrid.py
@@ -98,19 +98,23 @@ class RegularGrid(object):
 
     def __iadd__(self, value):
         with self.open() as data:
-            data += value
+            data[()] += value
+        return self
 
     def __isub__(self, value):
         with self.open() as data:
-            data -= value
+            data[()] -= value
+        return self
 
     def __imul__(self, value):
         with self.open() as data:
-            data *= value
+            data[()] *= value
+        return self
 
-    def __idiv__(self, value):
+    def __itruediv__(self, value):
         with self.open() as data:
-            data /= value
+            data[()] /= value
+        return self
 
     @property
     def dtype(self):
diff --git a/src/spectrocrunch/utils/indexing.py b/src/spectrocrunch/utils/indexing.py
index f5e290c..30b18a5 100755
--- a/src/spectrocrunch/utils/indexing.py
+++ b/src/spectrocrunch/utils/indexing.py
@@ -31,10 +31,11 @@ def lengthadvanced(index, shape):
     """
     if isinstance(index, tuple):
         tmp = [ind for ind in index if ind is not np.newaxis]
-        tmp = [lengthadvanced(ind, s) for ind, s in zip(tmp, shape)]
-        if not any(tmp):
+        tmp = [lengthadvanced(ind, s) for ind, s in zip(tmp, shape) if isadvanced(ind)]
+        if not tmp:
             return 0
-        tmp = [t for t in tmp if t != 0]
+        # lists of length one are broadcasted
+        tmp = [t for t in tmp if t != 1] or [1]
         if tmp.count(tmp[0]) != len(tmp):
             raise IndexError(
                 "shape mismatch: indexing arrays could not be broadcast together with shapes {}".format(
@@ -557,6 +558,9 @@ def nonchanging(index, shape=None):
         if shape is None:
             return all(nonchanging(i) for i in index)
         else:
+            if any(i is np.newaxis for i in index):
+                return False
+            index = expand(index, len(shape))
             return all(nonchanging(i, s) for i, s in zip(index, shape))
     elif isinstance(index, slice):
         return (
@@ -639,13 +643,13 @@ def expand(index, ndim):
         index
     """
     if isinstance(index, tuple):
-        nindex = sum([i is not np.newaxis for i in index])
+        nindex = sum([i is not np.newaxis and i is not Ellipsis for i in index])
         if nindex > ndim:
             raise IndexError("invalid index")
 
         if Ellipsis in index:
             i = index.index(Ellipsis)
-            index = index[:i] + (slice(None),) * (ndim - nindex + 1) + index[i + 1 :]
+            index = index[:i] + (slice(None),) * (ndim - nindex) + index[i + 1 :]
         elif nindex != ndim:
             index = index + (slice(None),) * (ndim - nindex)
 
@@ -655,7 +659,7 @@ def expand(index, ndim):
     elif index is np.newaxis:
         index = (np.newaxis,) + (slice(None),) * ndim
 
-    elif ndim > 1:
+    else:
         index = (index,) + (slice(None),) * (ndim - 1)
 
     return index
@@ -744,6 +748,12 @@ class op_index(object):
             data = data[self.index]
         return data
 
+    def inverse(self, data):
+        """Remove the new dimensions (only np.newaxis can be inverted)"""
+        if self.index is not None:
+            data = data[tuple(0 if i is np.newaxis else i for i in self.index)]
+        return data
+
     def __str__(self):
         return "indexing: {}".format(self.index)
 
@@ -758,6 +768,12 @@ class op_transpose(object):
 
         return data
 
+    def inverse(self, data):
+        if self.axes is not None:
+            data = np.transpose(data, np.argsort(self.axes))
+
+        return data
+
     def __str__(self):
         return "transpose: {}".format(self.axes)
 
@@ -792,6 +808,11 @@ class operators(object):
             data = o(data)
         return data
 
+    def inverse(self, data):
+        for o in reversed(self.ops):
+            data = o.inverse(data)
+        return data
+
 
 def move_axis(ndim, i1, i2):
     """Transpose axes to move axis i1 to i2
@@ -869,14 +890,14 @@ def decompose_listindexing(index, nlist):
     # Replace bool with int array
     index2 = list(index)
     for i, ind in enumerate(index2):
-        if instance.isboolsequence(index2):
-            index2[i] = np.where(index2)
+        if instance.isboolsequence(ind):
+            index2[i] = np.where(ind)[0].tolist()
 
     indexlist = [None] * nlist
-    nindex = len(index)
+    nindex = len(index2)
     tpl = [0] * nindex
     for j in range(nlist):
-        for i, ind in enumerate(index):
+        for i, ind in enumerate(index2):
             if instance.islistgen(ind):
                 tpl[i] = ind[j]
             else:
@@ -1017,16 +1038,23 @@ def setitem(
     # print 'indexrest:',indexrest
     # print 'axis:',axis
 
-    valueindex = not instance.isscalar(value) and axis is not None
-    if valueindex:
-        valueindex = [slice(None)] * len(shapeafter)
+    if instance.isscalar(value):
+        valueindex = None
+        valuesel = value
     else:
-        valuesel = ops(value)
+        # From the dimensions after indexing to the dimensions before stacking
+        value = np.asarray(value)
+        nextra = max(value.ndim - len(shapeafter), 0)
+        if all(n == 1 for n in value.shape[:nextra]):
+            value = value.reshape(value.shape[nextra:])
+        value = ops.inverse(np.broadcast_to(value, shapeafter))
+        valueindex = [slice(None)] * value.ndim
+        valuesel = value
 
     for i, (arg, ind) in enumerate(zip(arglist, indexlist)):
-        if valueindex:
+        if valueindex is not None and axis is not None:
             valueindex[axis] = i
-            valuesel = ops(value[tuple(valueindex)])
+            valuesel = value[tuple(valueindex)]
         if method == "set":
             selector(arg)[ind] = valuesel
         elif method == "add":
-- 
2.43.0


From 4f1faa5108ef1d6d663937be66b12f960750b2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:09 +0000
Subject: [PATCH 21/44] fix: parameter trees: nested sets, clearing inherited
 keys, import without overriding, inserting new nodes

---
 src/spectrocrunch/pipelines/parameters.py | 29 ++++++++++++++++-------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/spectrocrunch/pipelines/parameters.py b/src/spectrocrunch/pipelines/parameters.py
index f78d4c9..e4ef04d 100755
--- a/src/spectrocrunch/pipelines/parameters.py
+++ b/src/spectrocrunch/pipelines/parameters.py
@@ -21,7 +21,7 @@ class AnnotatedKey(object):
 
     @property
     def inherited(self):
-        return not self.local
+        return not self.localcontext
 
     def __repr__(self):
         if self.localcontext:
@@ -83,7 +83,7 @@ class BaseNode(collections.abc.MutableMapping):
 
     def fromdict(self, dic, override=True, recursive=False):
         if not override:
-            dic = {k: v for k, v in dic.items() if not self.inherited(k)}
+            dic = {k: v for k, v in dic.items() if not self.isinheritedkey(k)}
 
         if recursive:
             self.update_recursive(dic)
@@ -251,6 +251,11 @@ class BaseNode(collections.abc.MutableMapping):
         """Delete a key locally and in all _children"""
         self.delete_recursive(key)
 
+    def clear(self):
+        """Delete all keys locally and in all _children"""
+        for key in list(self):
+            del self[key]
+
     def __len__(self):
         return len(set(itertools.chain.from_iterable(self._maps())))
 
@@ -293,7 +298,7 @@ class BaseNode(collections.abc.MutableMapping):
         return any(key in m for m in self._maps())
 
     def isinheritedkey(self, key):
-        return any(key in m for m in self._maps()[1:])
+        return any(key in m for m in self._maps(withself=False))
 
     def islocalkey(self, key):
         return key in self._map()
@@ -457,10 +462,10 @@ class Node(BaseNode):
     def insert_before(self, node=None, single=False, **kwargs):
         """Insert a node before this one"""
         newparent = None
-        if node is self.parent or node is self:
-            return node, newparent
         if node is None:
             node = self.__class__(**kwargs)
+        if node is self.parent or node is self:
+            return node, newparent
         if single:
             newparent = node.remove(single=True)
         self.parent, keep = node, self.parent
@@ -471,10 +476,10 @@ class Node(BaseNode):
     def insert_after(self, node=None, single=False, **kwargs):
         """Insert a node after this one"""
         newparent = None
-        if self is node.parent or node is self:
-            return node, newparent
         if node is None:
             node = self.__class__(**kwargs)
+        if self is node.parent or node is self:
+            return node, newparent
         if single:
             newparent = node.remove(single=True)
         for child in list(self.children):
@@ -537,6 +542,10 @@ class SubNodeReference(BaseSubNode):
     def __init__(self):
         super(SubNodeReference, self).__init__()
 
+    @property
+    def name(self):
+        return self.subkeys[-1]
+
     @property
     def parent(self):
         if self.node is None:
@@ -587,7 +596,7 @@ class SubNodeReferenceUp(SubNodeReference):
             subkeys.append(node._key)
             node = node._direct_parent
         self._node = node
-        self._subkeys = reversed(subkeys)
+        self._subkeys = tuple(reversed(subkeys))
 
     @property
     def subnode(self):
@@ -614,7 +623,9 @@ class SubNodeReferenceDown(SubNodeReference):
             return None
         subnode = self.node
         for key in self.subkeys:
-            subnode = subnode._getitem_subnode(key)
+            subnode = subnode._map().get(key)
+            if not isinstance(subnode, BaseSubNode):
+                return None
         return subnode
 
     @property
-- 
2.43.0


From cbe83960413ffe52ecaa198767566631e9f604d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:51 +0000
Subject: [PATCH 22/44] fix: hash of numpy booleans, real complex numbers and
 objects with sets

---
 src/spectrocrunch/utils/hashing.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/utils/hashing.py b/src/spectrocrunch/utils/hashing.py
index 274d0be..7d87783 100755
--- a/src/spectrocrunch/utils/hashing.py
+++ b/src/spectrocrunch/utils/hashing.py
@@ -1,4 +1,6 @@
 import hashlib
+import numbers
+import numpy as np
 from ..patch import jsonpickle
 from ..utils import instance
 from ..utils import listtools
@@ -23,7 +25,18 @@ def any_repr_to_hash(x):
 
 
 def getstate(x):
-    return jsonpickle.flatten(x)
+    return sort_sets(jsonpickle.flatten(x))
+
+
+def sort_sets(state):
+    """Sets in the state of an object do not have an order"""
+    if isinstance(state, dict):
+        state = {k: sort_sets(v) for k, v in state.items()}
+        if list(state) == ["py/set"]:
+            state["py/set"] = sorted(state["py/set"], key=calchash)
+    elif isinstance(state, list):
+        state = [sort_sets(v) for v in state]
+    return state
 
 
 def calchash(x, _depth=0):
@@ -47,8 +60,10 @@ def calchash(x, _depth=0):
         x = [class_repr_to_hash(x)]
     elif instance.isstring(x):
         x = [classname_repr_to_hash("string"), string_repr_to_hash(x)]
-    elif instance.isnumber(x):
+    elif instance.isnumber(x) or isinstance(x, np.bool_):
         try:
+            if isinstance(x, numbers.Complex) and not x.imag:
+                x = x.real
             intx = int(x)
             if intx == x:
                 x = intx
-- 
2.43.0


From 5a63c51c8ce8f79a1b4a2140d16f60c58337a08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:11 +0000
Subject: [PATCH 23/44] fix: list helpers with empty lists, negative numbers in
 another base, cache left by an exception

---
 src/spectrocrunch/utils/cache.py       | 11 ++++++-----
 src/spectrocrunch/utils/instance.py    |  2 +-
 src/spectrocrunch/utils/integerbase.py |  2 ++
 src/spectrocrunch/utils/listtools.py   | 21 ++++++++-------------
 4 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/spectrocrunch/utils/cache.py b/src/spectrocrunch/utils/cache.py
index 6b9a100..cbdaa5c 100644
--- a/src/spectrocrunch/utils/cache.py
+++ b/src/spectrocrunch/utils/cache.py
@@ -50,11 +50,12 @@ class Cache(object):
             self._store[subject] = self._generate_cache(subject, *args, **kwargs)
 
         # Use cache
-        yield
-
-        # Keep cache?
-        if cache:
-            self._store.pop(subject, None)
+        try:
+            yield
+        finally:
+            # Keep cache?
+            if cache:
+                self._store.pop(subject, None)
 
     def getcache(self, subject):
         """Get cache belonging to a subject"""
diff --git a/src/spectrocrunch/utils/instance.py b/src/spectrocrunch/utils/instance.py
index c96feb5..2e21f97 100755
--- a/src/spectrocrunch/utils/instance.py
+++ b/src/spectrocrunch/utils/instance.py
@@ -297,7 +297,7 @@ class _toarray(object):
 
     def __call__(self, x):
 
-        if isinstance(x, (list, tuple)) and isquantity(x[0]):
+        if isinstance(x, (list, tuple)) and len(x) and isquantity(x[0]):
             x = pint.Quantity.from_list(x)
 
         if isquantity(x):
diff --git a/src/spectrocrunch/utils/integerbase.py b/src/spectrocrunch/utils/integerbase.py
index 84e15ee..8d6cee4 100755
--- a/src/spectrocrunch/utils/integerbase.py
+++ b/src/spectrocrunch/utils/integerbase.py
@@ -41,6 +41,8 @@ class integerbase:
         return "".join(digits)
 
     def base2int(self, x):
+        if x.startswith("-"):
+            return -self.base2int(x[1:])
         y = x[::-1]
         val = 0
         for i in range(len(y)):
diff --git a/src/spectrocrunch/utils/listtools.py b/src/spectrocrunch/utils/listtools.py
index 6f77c74..f163e21 100755
--- a/src/spectrocrunch/utils/listtools.py
+++ b/src/spectrocrunch/utils/listtools.py
@@ -93,9 +93,8 @@ def sort2lists(list1, list2):
     Returns:
         list,list
     """
-    return tuple(
-        list(t) for t in zip(*sorted(zip(list1, list2), key=operator.itemgetter(0)))
-    )
+    pairs = sorted(zip(list1, list2), key=operator.itemgetter(0))
+    return [x1 for x1, x2 in pairs], [x2 for x1, x2 in pairs]
 
 
 def unique2lists(list1, list2, add=False):
@@ -121,16 +120,12 @@ def unique2lists(list1, list2, add=False):
     else:
         seen = set()
         seen_add = seen.add
-        list1, list2 = tuple(
-            zip(
-                *[
-                    [x1, x2]
-                    for x1, x2 in zip(list1, list2)
-                    if not (x1 in seen or seen_add(x1))
-                ]
-            )
-        )
-        return list(list1), list(list2)
+        pairs = [
+            (x1, x2)
+            for x1, x2 in zip(list1, list2)
+            if not (x1 in seen or seen_add(x1))
+        ]
+        return [x1 for x1, x2 in pairs], [x2 for x1, x2 in pairs]
 
 
 def sumrepeats(labels, counts):
-- 
2.43.0


From d2c9b4e366b3366c749f1a8c57fd1a5423d81fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:51 +0000
Subject: [PATCH 24/44] fix: lazy functions: divmod, reflected logical
 operators and text of negative constants

---
 src/spectrocrunch/math/lazy.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/math/lazy.py b/src/spectrocrunch/math/lazy.py
index 0328d3e..86aaf92 100755
--- a/src/spectrocrunch/math/lazy.py
+++ b/src/spectrocrunch/math/lazy.py
@@ -19,6 +19,14 @@ class Function(object):
     def __call__(self, *args, **kwargs):
         return self._func(*args, **kwargs)
 
+    @classmethod
+    def _operand(cls, a):
+        """Text of an operand of a binary operator"""
+        name = str(a)
+        if not isinstance(a, cls) and name.startswith("-"):
+            name = "({})".format(name)
+        return name
+
     @classmethod
     def _binary_op(cls, a, b, op, symb1, symb2=None):
         lazya = isinstance(a, cls)
@@ -46,7 +54,9 @@ class Function(object):
         if symb2:
             return cls(f, name="{}{},{}{}".format(symb1, a, b, symb2))
         else:
-            return cls(f, name="({}{}{})".format(a, symb1, b))
+            return cls(
+                f, name="({}{}{})".format(cls._operand(a), symb1, cls._operand(b))
+            )
 
     @classmethod
     def _unitary_op(cls, a, op, symb1, symb2=None):
@@ -81,7 +91,7 @@ class Function(object):
         return self._binary_op(self, rother, operator.mod, "%")
 
     def __divmod__(self, rother):
-        return self._binary_op(self, rother, operator.divmod, "divmod(", ")")
+        return self._binary_op(self, rother, divmod, "divmod(", ")")
 
     def __add__(self, rother):
         return self._binary_op(self, rother, operator.add, "+")
@@ -108,7 +118,7 @@ class Function(object):
         return self._binary_op(lother, self, operator.mod, "%")
 
     def __rdivmod__(self, lother):
-        return self._binary_op(lother, self, operator.mod, "divmod(", ")")
+        return self._binary_op(lother, self, divmod, "divmod(", ")")
 
     def __radd__(self, lother):
         return self._binary_op(lother, self, operator.add, "+")
@@ -143,6 +153,12 @@ class Function(object):
     def __or__(self, rother):
         return self._binary_op(self, rother, operator.or_, " or ")
 
+    def __rand__(self, lother):
+        return self._binary_op(lother, self, operator.and_, " and ")
+
+    def __ror__(self, lother):
+        return self._binary_op(lother, self, operator.or_, " or ")
+
     def __not__(self):
         return self._unitary_op(self, operator.not_, "not ")
 
-- 
2.43.0


From aee2f69c21650a2834d090805b6b2040ec3c6fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:30 +0000
Subject: [PATCH 25/44] fix: linear operator powers, equality of operator
 products, clipping after a zero slope or with units

---
 src/spectrocrunch/math/linop.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/spectrocrunch/math/linop.py b/src/spectrocrunch/math/linop.py
index 4b7501b..d6ff8b4 100755
--- a/src/spectrocrunch/math/linop.py
+++ b/src/spectrocrunch/math/linop.py
@@ -88,7 +88,9 @@ class Operator(object):
     def __eq__(self, other):
         if not isinstance(other, self.__class__):
             return False
-        return self._op_name == other._op_name and self._attr_eq(other)
+        if self._op_name != other._op_name or not self._attr_eq(other):
+            return False
+        return self._opright == other._opright
 
     def _attr_eq(self, other):
         return True
@@ -129,6 +131,9 @@ class Lambda(Operator):
     def _op_name(self):
         return self.name
 
+    def _attr_eq(self, other):
+        return self.func == other.func and self.ifunc == other.ifunc
+
     def _eval(self, arg):
         return self.func(arg)
 
@@ -144,7 +149,7 @@ class CommutativeOperator(Operator):
 
     def __mul__(self, rother):
         if isinstance(rother, LinearOperator):
-            if self._opright is not None:
+            if self._opright is not None or np.any(self.tofloat(rother.m) == 0):
                 return super(CommutativeOperator, self).__mul__(rother)
             op = copy.copy(rother)
             op._opright = self._commute_linop(rother) * rother._opright
@@ -208,7 +213,7 @@ class ClipOperator(CommutativeOperator):
         vmax = self._valid_limit(cmax)
         if vmin and vmax:
             try:
-                v = self.cmin <= self.cmax
+                v = cmin <= cmax
             except TypeError:
                 v = False
         else:
@@ -355,14 +360,12 @@ class LinearOperator(Operator):
 
     def __pow__(self, p):
         if isinstance(p, numbers.Integral):
-            if p < 0:
-                raise NotImplementedError
-            elif p == 0:
-                ret = self.__class__(0, 1)
-            else:
-                ret = self.__class__(self.m, self.b)
-                for _ in range(1, p):
-                    ret *= self.__class__(self.m, self.b)
+            if p == 0:
+                return self.__class__(1, 0)
+            op = self if p > 0 else self.inverse
+            ret = op
+            for _ in range(1, abs(p)):
+                ret = ret * op
             return ret
         else:
             raise NotImplementedError
-- 
2.43.0


From 6f69f0572a7f87540528cf1bbdfc2a356b5acd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:24 +0000
Subject: [PATCH 26/44] fix: generated names: existing dangling links, braces,
 unlock, partial outputs, temporary file names

---
 src/spectrocrunch/align/alignDest.py   |  8 +++++---
 src/spectrocrunch/io/fs.py             | 14 +++++++++-----
 src/spectrocrunch/io/nxfs.py           |  6 +++---
 src/spectrocrunch/io/target.py         | 13 +++++++++----
 src/spectrocrunch/io/utils.py          |  9 +++++----
 src/spectrocrunch/process/nxprocess.py |  2 +-
 6 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/spectrocrunch/align/alignDest.py b/src/spectrocrunch/align/alignDest.py
index d16d9df..416b799 100755
--- a/src/spectrocrunch/align/alignDest.py
+++ b/src/spectrocrunch/align/alignDest.py
@@ -106,10 +106,12 @@ class alignDest(object):
         return self.h5_setnames(path)
 
     def h5_datasetscheck(self, shape, dtype):
+        setnames = self.h5_setnames(self.dir)
         return all(
-            self.handle[self.h5_composesetname(self.dir, name)].shape == shape
+            name in self.handle
+            and self.handle[name].shape == shape
             and self.handle[name].dtype == dtype
-            for name in self.names
+            for name in setnames
         )
 
     def h5_createdatasets(self, setnames, shape, dtype):
@@ -142,7 +144,7 @@ class alignDest(object):
         )
 
     def singlefile_datasetsexist(self, path):
-        return all(
+        return any(
             len(glob.glob(os.path.join(path, s) + "*" + self.ext)) != 0
             for s in self.names
         )
diff --git a/src/spectrocrunch/io/fs.py b/src/spectrocrunch/io/fs.py
index ec5201c..e8f6ef5 100755
--- a/src/spectrocrunch/io/fs.py
+++ b/src/spectrocrunch/io/fs.py
@@ -761,7 +761,7 @@ class Path(File):
     def randomnode(self, prefix="", suffix="", **kwargs):
         """Non-existing node with random name"""
         path = self[prefix + utils.randomstring(**kwargs) + suffix]
-        while path.exists:
+        while path.lexists:
             path = self[prefix + utils.randomstring(**kwargs) + suffix]
         return path
 
@@ -793,7 +793,8 @@ class Path(File):
                     yield sub
 
     def nonexisting_name(self, name):
-        if name not in self:
+        # A link with a missing destination has a name too
+        if not self[name].lexists:
             return name
         m = re.match(r"^(.+)\((\d+)\)$", name)
         if m:
@@ -801,10 +802,13 @@ class Path(File):
             i = int(m.groups()[1]) + 1
         else:
             i = 1
-        fmt = name + "({})"
-        while fmt.format(i) in self:
+
+        def fmt(i):
+            return "{}({})".format(name, i)
+
+        while self[fmt(i)].lexists:
             i += 1
-        return fmt.format(i)
+        return fmt(i)
 
     @property
     def checksum(self):
diff --git a/src/spectrocrunch/io/nxfs.py b/src/spectrocrunch/io/nxfs.py
index 29ca172..20450cf 100755
--- a/src/spectrocrunch/io/nxfs.py
+++ b/src/spectrocrunch/io/nxfs.py
@@ -333,7 +333,7 @@ class Path(h5fs.Path):
         else:
             name = target.Name(entry.name)
             parent = entry.parent
-            while parent[str(name)].exists:
+            while parent[str(name)].lexists:
                 name += 1
             name = str(name)
         return name
@@ -397,12 +397,12 @@ class Path(h5fs.Path):
 
         # New process path
         path = entry[name]
-        if path.exists:
+        if path.lexists:
             if noincrement or not path.is_nxclass("NXprocess"):
                 raise fs.AlreadyExists(path)
             name = target.Name(name)
             path = entry[str(name)]
-            while path.exists:
+            while path.lexists:
                 name += 1
                 path = entry[str(name)]
 
diff --git a/src/spectrocrunch/io/target.py b/src/spectrocrunch/io/target.py
index 64112b9..b040792 100755
--- a/src/spectrocrunch/io/target.py
+++ b/src/spectrocrunch/io/target.py
@@ -13,12 +13,17 @@ def locate_number(name):
     return start, end, int(num), start == end
 
 
+def _escape_format(s):
+    return s.replace("{", "{{").replace("}", "}}")
+
+
 def naming_format(name):
     start, end, num, nonumber = locate_number(name)
+    prefix, suffix = _escape_format(name[:start]), _escape_format(name[end:])
     if nonumber:
-        fmt = name + ".{:d}"
+        fmt = suffix + ".{:d}"
     else:
-        fmt = name[:start] + "{{:0{}d}}".format(end - start) + name[end:]
+        fmt = prefix + "{{:0{}d}}".format(end - start) + suffix
     return fmt, num, nonumber
 
 
@@ -75,7 +80,7 @@ class Name(object):
         self.locked = True
 
     def unlock(self):
-        self.locked = True
+        self.locked = False
 
     def __repr__(self):
         return repr(str(self))
@@ -97,7 +102,7 @@ class Name(object):
 
     @property
     def matchfunc(self):
-        return match(str(str))
+        return match(str(self))
 
 
 def calc_checksum(dependencies, parameters, alreadyhash=False):
diff --git a/src/spectrocrunch/io/utils.py b/src/spectrocrunch/io/utils.py
index 8f4ee35..72cd2cb 100755
--- a/src/spectrocrunch/io/utils.py
+++ b/src/spectrocrunch/io/utils.py
@@ -33,9 +33,7 @@ class TemporaryCopy(object):
         self.ext = ext
 
     def __enter__(self):
-        temp_dir = tempfile.gettempdir()
-        temp_name = next(tempfile._get_candidate_names())
-        self.tmpfilename = os.path.join(temp_dir, temp_name + self.ext)
+        self.tmpfilename = temporary_filename(None, suffix=self.ext)
         shutil.copy2(self.filename, self.tmpfilename)
         return self.tmpfilename
 
@@ -62,7 +60,10 @@ class TemporaryFilename(object):
 def temporary_filename(path, suffix=".tmp", prefix=""):
     if not path:
         path = tempfile.gettempdir()
-    return os.path.join(path, prefix + randomstring() + suffix)
+    while True:
+        filename = os.path.join(path, prefix + randomstring() + suffix)
+        if not os.path.lexists(filename):
+            return filename
 
 
 def mkdir(path):
diff --git a/src/spectrocrunch/process/nxprocess.py b/src/spectrocrunch/process/nxprocess.py
index 1414990..4ad865b 100755
--- a/src/spectrocrunch/process/nxprocess.py
+++ b/src/spectrocrunch/process/nxprocess.py
@@ -65,7 +65,7 @@ class Task(basetask.Task):
                 searchallentries=False,
             )
             if process is None:
-                while entry[str(self._target)].exists:
+                while entry[str(self._target)].lexists:
                     self._target += 1
             else:
                 self._target = target.Name(process.name)
-- 
2.43.0


From 709aab2e4e082ce285a4b583f879e48aebb85d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:08 +0000
Subject: [PATCH 27/44] fix: axis start/end/step/unit changes, limits,
 simplification, equality; neighbour interpolation of arrays

---
 src/spectrocrunch/math/interpolate.py |   6 +-
 src/spectrocrunch/process/axis.py     | 158 +++++++++++++++++---------
 2 files changed, 107 insertions(+), 57 deletions(-)

diff --git a/src/spectrocrunch/math/interpolate.py b/src/spectrocrunch/math/interpolate.py
index 59e7be8..e9920d2 100755
--- a/src/spectrocrunch/math/interpolate.py
+++ b/src/spectrocrunch/math/interpolate.py
@@ -19,7 +19,7 @@ def extrap1d(interpolator):
             return interpolator(x)
 
     def ufunclike(xs):
-        return array(map(pointwise, array(xs)))
+        return array(list(map(pointwise, array(xs))))
 
     return ufunclike
 
@@ -34,7 +34,7 @@ def interp1d_floor(xs, ys):
 
     def ufunclike(x):
         try:
-            return array(map(pointwise, array(x)))
+            return array(list(map(pointwise, array(x))))
         except TypeError:
             return pointwise(x)
 
@@ -51,7 +51,7 @@ def interp1d_ceil(xs, ys):
 
     def ufunclike(x):
         try:
-            return array(map(pointwise, array(x)))
+            return array(list(map(pointwise, array(x))))
         except TypeError:
             return pointwise(x)
 
diff --git a/src/spectrocrunch/process/axis.py b/src/spectrocrunch/process/axis.py
index dd7b2fa..ff56593 100755
--- a/src/spectrocrunch/process/axis.py
+++ b/src/spectrocrunch/process/axis.py
@@ -1,3 +1,4 @@
+import copy
 import difflib
 import numpy as np
 from ..utils import units
@@ -55,6 +56,7 @@ class Axis(object):
         if self.type == "quantitative":
             values = units.Quantity(values, units=self.units)
             self.values[index] = values
+            self._params = self.values
         else:
             self.values.iloc[index] = values
 
@@ -69,8 +71,8 @@ class Axis(object):
     def initkwargs(self):
         return {
             "type": self.type,
-            "name": self.name,
-            "title": self.title,
+            "name": self._name,
+            "title": self._title,
             "precision": self.precision,
         }
 
@@ -85,7 +87,11 @@ class Axis(object):
     def units(self, value):
         if self.type != "quantitative":
             raise RuntimeError("{} axis has no units".format(self.type))
-        self.values.ito(value)
+        self._set_units(value)
+
+    def _set_units(self, value):
+        # Not in-place: the data could be shared with other axes
+        self._values = self._params = self.values.to(value)
 
     @property
     def unit_suffix(self):
@@ -156,7 +162,8 @@ class Axis(object):
         self._params = params
         self._values = params
         if self.type == "quantitative":
-            self._values = units.asqarray(self._values)
+            # Do not share data with other axes
+            self._values = copy.copy(units.asqarray(self._values))
 
     @property
     def dtype(self):
@@ -207,8 +214,7 @@ class Axis(object):
             return False
         if self.type != "quantitative":
             return all(self.values == other.values)
-        # threshold = max(self.precision, other.precision.to(self.units)).magnitude
-        threshold = self.precision.magnitude
+        threshold = max(self.precision, other.precision.to(self.units)).magnitude
         values = self.magnitude
         uvalues = other.umagnitude(self.units)
 
@@ -295,7 +301,7 @@ class Axis(object):
         xold = self.magnitude
         xnew = self._extract_magnitude(values)
         if self.type == "quantitative":
-            if xold[1] < xold[0]:
+            if len(xold) > 1 and xold[1] < xold[0]:
                 # Reverse axis
                 m = np.nanmax(xold)
                 xold = m - xold
@@ -328,22 +334,34 @@ class Axis(object):
     def to(self, u):
         if self.type != "quantitative":
             raise RuntimeError("{} axis has no units".format(self.type))
-        ret = self.__class__(*self.initargs, **self.initkwargs)
+        ret = copy.copy(self)
         ret.units = u
         return ret
 
+    def __copy__(self):
+        ret = self.__class__.__new__(self.__class__)
+        ret.__dict__.update(self.__dict__)
+        ret._values = copy.copy(self._values)
+        if self._params is self._values:
+            ret._params = ret._values
+        return ret
+
     def simplify(self):
         if self.type == "quantitative":
             if self.size == 1:
                 return AxisNumber(self.start, **self.initkwargs)
             elif self.size == 2:
-                return AxisRegular(self.start, self.end, 1, **self.initkwargs)
+                axis = AxisRegular(self.start, self.end, 1, **self.initkwargs)
+                if self._is_simplification(axis):
+                    return axis
             else:
                 diff = abs(np.diff(np.diff(self.magnitude)))
                 if max(diff) <= self.precision.magnitude:
-                    return AxisRegular(
+                    axis = AxisRegular(
                         self.start, self.end, self.size - 1, **self.initkwargs
                     )
+                    if self._is_simplification(axis):
+                        return axis
                 else:
                     n = len(self)
                     ind = np.array(
@@ -356,10 +374,19 @@ class Axis(object):
                         # Limit the number of segments to 1/3 of the number of values
                         limits = self.values[ind]
                         nsteps = np.diff(ind)
-                        return AxisSegments(limits, nsteps, **self.initkwargs)
+                        axis = AxisSegments(limits, nsteps, **self.initkwargs)
+                        if self._is_simplification(axis):
+                            return axis
 
         return self
 
+    def _is_simplification(self, axis):
+        """Same values, apart from the precision and rounding"""
+        values = self.magnitude
+        diff = abs(axis.umagnitude(self.units) - values)
+        threshold = self.precision.magnitude + 1e-12 * abs(values)
+        return bool((diff <= threshold).all())
+
     @property
     def start_stepsize(self):
         return self[1] - self[0]
@@ -383,21 +410,7 @@ class Axis(object):
         Returns:
             Axis|None
         """
-        x = self.magnitude
-        stepsize = self.start_stepsize
-        newstart = units.Quantity(newstart, units=self.units)
-        oldstart = self.start
-        nstepsadd = (oldstart - newstart) / stepsize
-        nstepsadd = int(np.ceil(nstepsadd.to("dimensionless").magnitude))
-        if nstepsadd > 0:
-            add = oldstart - np.arange(1, nstepsadd + 1)[::-1] * stepsize
-            x = np.append(add.magnitude, x)
-        elif nstepsadd < 0:
-            x = x[-nstepsadd:]
-        if len(x):
-            return self.factory(units.Quantity(x, units=self.units))
-        else:
-            return None
+        return self._newlimits(newstart=newstart)
 
     def newend(self, newend):
         """Expand/crop from the start (make sure newend is included)
@@ -408,21 +421,7 @@ class Axis(object):
         Returns:
             Axis|None
         """
-        x = self.magnitude
-        stepsize = self.end_stepsize
-        newend = units.Quantity(newend, units=self.units)
-        oldend = self.end
-        nstepsadd = (newend - oldend) / stepsize
-        nstepsadd = int(np.ceil(nstepsadd.to("dimensionless").magnitude))
-        if nstepsadd > 0:
-            add = oldend + np.arange(1, nstepsadd + 1) * stepsize
-            x = np.append(x, add.magnitude)
-        elif nstepsadd < 0:
-            x = x[:nstepsadd]
-        if len(x):
-            return self.factory(units.Quantity(x, units=self.units))
-        else:
-            return None
+        return self._newlimits(newend=newend)
 
     def newlimits(self, newstart, newend):
         """Expand/crop from the start (make sure limits are included)
@@ -434,10 +433,39 @@ class Axis(object):
         Returns:
             Axis|None
         """
-        axis = self.newstart(newstart)
-        if axis is not None:
-            axis = axis.newend(newend)
-        return axis
+        return self._newlimits(newstart=newstart, newend=newend)
+
+    def _newlimits(self, newstart=None, newend=None):
+        x = self.magnitude
+        u = self.units
+        if newend is not None:
+            newend = units.Quantity(newend, units=u).to(u).magnitude
+            endstep = self.end_stepsize.to(u).magnitude
+        if newstart is not None:
+            newstart = units.Quantity(newstart, units=u).to(u).magnitude
+            startstep = self.start_stepsize.to(u).magnitude
+            # The start is the end in the other direction
+            x = self._expandcrop(x[::-1], newstart, -startstep)[::-1]
+        if newend is not None and len(x):
+            x = self._expandcrop(x, newend, endstep)
+        if not len(x):
+            return None
+        return self.factory(units.Quantity(x, units=u), **self.initkwargs)
+
+    @staticmethod
+    def _expandcrop(x, newend, stepsize):
+        """Add steps or remove values at the end (make sure newend is included)"""
+        if stepsize == 0:
+            if newend == x[-1]:
+                return x
+            raise ValueError("Cannot expand or crop an axis without step size")
+        # Number of steps to be added after each value (apart from rounding)
+        nstepsadd = np.ceil((newend - x) / stepsize - 1e-9).astype(int)
+        if nstepsadd[-1] > 0:
+            return np.append(x, x[-1] + np.arange(1, nstepsadd[-1] + 1) * stepsize)
+        if nstepsadd[0] < 0:
+            return x[:0]
+        return x[: np.argmax(nstepsadd <= 0) + 1]
 
 
 factory = Axis.factory
@@ -505,10 +533,17 @@ class _AxisRegular(Axis):
 
     @units.setter
     def units(self, value):
-        self.values.ito(value)
-        self.start.ito(value)
-        self.end.ito(value)
-        self.stepsize.ito(value)
+        self._set_units(value)
+
+    def _set_units(self, value):
+        self._values = self._values.to(value)
+        self._start = self._start.to(value)
+        self._end = self._end.to(value)
+        self._stepsize = self._stepsize.to(value)
+        self._params = self._current_params()
+
+    def _current_params(self):
+        raise NotImplementedError
 
     def __repr__(self):
         return "{}(start={:~},end={:~},step={:~},size={})".format(
@@ -519,13 +554,16 @@ class _AxisRegular(Axis):
 class AxisRegular(_AxisRegular):
     """start, end, nsteps"""
 
+    def _current_params(self):
+        return self.start, self.end, self.nsteps
+
     @_AxisRegular.start.setter
     def start(self, value):
-        self.values = value, self.end, self.size
+        self.values = value, self.end, self.nsteps
 
     @_AxisRegular.end.setter
     def end(self, value):
-        self.values = self.start, value, self.size
+        self.values = self.start, value, self.nsteps
 
     @_AxisRegular.size.setter
     def size(self, value):
@@ -554,13 +592,16 @@ class AxisRegular(_AxisRegular):
 class AxisRegularInc(_AxisRegular):
     """start, stepsize, nsteps"""
 
+    def _current_params(self):
+        return self.start, self.stepsize, self.nsteps
+
     @_AxisRegular.start.setter
     def start(self, value):
-        self.values = value, self.stepsize, self.size
+        self.values = value, self.stepsize, self.nsteps
 
     @_AxisRegular.stepsize.setter
     def stepsize(self, value):
-        self.values = self.start, value, self.size
+        self.values = self.start, value, self.nsteps
 
     @_AxisRegular.size.setter
     def size(self, value):
@@ -601,6 +642,9 @@ def ascan(start, end, intervals, unit=None, **kwargs):
 
 
 class AxisNumber(_AxisRegular):
+    def _current_params(self):
+        return (self.start,)
+
     @_AxisRegular.start.setter
     def start(self, value):
         self.values = (value,)
@@ -672,7 +716,13 @@ class AxisSegments(Axis):
 
     @property
     def end_stepsize(self):
-        return self.stepsizes[1]
+        return self.stepsizes[-1]
+
+    def _set_units(self, value):
+        self._values = self._values.to(value)
+        self._limits = self._limits.to(value)
+        self._stepsizes = self._stepsizes.to(value)
+        self._params = self._limits, self._nsteps
 
     @property
     def nsteps(self):
-- 
2.43.0


From 4a3fb9432fecaa1f08a44fa20437571d89b5e2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:42 +0000
Subject: [PATCH 28/44] fix: normalization of Fourier transforms on part of the
 frequencies

---
 src/spectrocrunch/math/ft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spectrocrunch/math/ft.py b/src/spectrocrunch/math/ft.py
index 85e45c3..3a02bd9 100755
--- a/src/spectrocrunch/math/ft.py
+++ b/src/spectrocrunch/math/ft.py
@@ -177,7 +177,7 @@ def _dft(
 
         # Normalization:
         if (normconvention == fftConvention.idl) ^ inverse:
-            ret /= len(u)
+            ret /= len(f)
 
     return ret
 
@@ -270,7 +270,7 @@ def _dft2(
 
         # Normalization:
         if (normconvention == fftConvention.idl) ^ inverse:
-            ret /= len(u) * len(v)
+            ret /= f.shape[0] * f.shape[1]
 
     return ret
 
-- 
2.43.0


From 97f7a90829b984d447ceceab79ec458ac2cf1e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:36 +0000
Subject: [PATCH 29/44] fix: polarization parameters with rounding, Mueller
 matrix of complex or asymmetric matrices, intensity of integer states

---
 src/spectrocrunch/sources/polarization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/sources/polarization.py b/src/spectrocrunch/sources/polarization.py
index a93c914..61e5e83 100755
--- a/src/spectrocrunch/sources/polarization.py
+++ b/src/spectrocrunch/sources/polarization.py
@@ -571,7 +571,7 @@ class Stokes(object):
 
     @intensity.setter
     def intensity(self, value):
-        self.S *= value / self.intensity
+        self.S = self.S * (value / self.intensity)
 
     @property
     def intensity_polarized(self):
@@ -697,7 +697,7 @@ class Stokes(object):
     def from_params(
         cls, intensity=None, dop=None, dolp=None, polangle=None, handedness=None
     ):
-        if dolp > dop:
+        if dolp > dop and not np.isclose(dolp, dop):
             raise RuntimeError(
                 "Degree of linear polarization must be smaller or equal to the degree of polarization."
             )
@@ -707,7 +707,7 @@ class Stokes(object):
         polangle2 = np.radians(2 * polangle)  # in [-180,180]
         S2S1 = np.tan(polangle2)  # S2S1 = S2/S1
 
-        S3 = np.sqrt(S123 - S12)
+        S3 = np.sqrt(max(S123 - S12, 0))  # could be negative due to rounding
         if handedness == "right":
             S3 = -S3
 
@@ -739,7 +739,7 @@ class Stokes(object):
         """
 
         return (
-            cls.pauli44.dot(np.kron(M, M.T.conjugate())).dot(cls.pauli44.T.conjugate())
+            cls.pauli44.dot(np.kron(M, np.conjugate(M))).dot(cls.pauli44.T.conjugate())
             / 2.0
         )
 
-- 
2.43.0


From f678b13228c415d0fad05d8c6858856e4ea60257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:56 +0000
Subject: [PATCH 30/44] fix: reading of saved MCA spectra: calibration in
 Python 3, no extra channel

---
 src/spectrocrunch/io/mca.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/spectrocrunch/io/mca.py b/src/spectrocrunch/io/mca.py
index c42fb82..46787d7 100755
--- a/src/spectrocrunch/io/mca.py
+++ b/src/spectrocrunch/io/mca.py
@@ -63,16 +63,15 @@ def read(filename):
     for s in h:
         if s.startswith("#@CALIB"):
             coeff = s.replace("#@CALIB", "").strip()
-            coeff = np.array(map(float, coeff.split(" ")))
+            coeff = np.array(list(map(float, coeff.split())))
         elif s.startswith("#@CHANN"):
             tmp = s.replace("#@CHANN", "").strip()
             _, ch0, ch1, _ = list(map(int, tmp.split(" ")))
-    if len(mca):
+    if ch1 <= ch0:
+        ch1 = ch0 + len(mca) - 1
+    elif len(mca) == ch1 - ch0:
         # Bug in MCA reading: last channel is not read
         mca = np.append(mca, 0)
-    if ch0 == ch1:
-        ch0 = 0
-        ch1 = len(mca) - 1
     channels = np.arange(ch0, ch1 + 1)
     energy = sum(c * channels**i for i, c in enumerate(coeff))
     return mca, channels, energy, coeff
-- 
2.43.0


From 25181a69af0ef60fe71e4817284c7c9897d967b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:56 +0000
Subject: [PATCH 31/44] fix: spec commands: all number formats, complete
 arguments, pixel sizes, dimensions and sub maps

---
 src/spectrocrunch/io/spec.py | 155 +++++++++++++++++------------------
 1 file changed, 77 insertions(+), 78 deletions(-)

diff --git a/src/spectrocrunch/io/spec.py b/src/spectrocrunch/io/spec.py
index f6d6a6d..f0a578c 100755
--- a/src/spectrocrunch/io/spec.py
+++ b/src/spectrocrunch/io/spec.py
@@ -29,7 +29,7 @@ def zapline_range(start, end, npixels):
 
 def zapline_pixelsize(start, end, npixels):
     """Pixel size"""
-    return (end - start) / float(npixels - 1)
+    return (end - start) / float(npixels)
 
 
 def zapline_scansize(start, end, npixels):
@@ -40,8 +40,7 @@ def zapline_scansize(start, end, npixels):
 
 def ascan_values(start, end, nsteps):
     """Values of the pixel centers"""
-    inc = (end - start) / float(nsteps)
-    return start + inc * np.arange(nsteps + 1)
+    return start + ascan_pixelsize(start, end, nsteps) * np.arange(nsteps + 1)
 
 
 def ascan_range(start, end, nsteps):
@@ -51,6 +50,8 @@ def ascan_range(start, end, nsteps):
 
 def ascan_pixelsize(start, end, nsteps):
     """Pixel size"""
+    if not nsteps:
+        return (end - start) * 0.0
     return (end - start) / float(nsteps)
 
 
@@ -99,6 +100,8 @@ def zapimage_submap(header, cmdlabel, scanrange, currentpos, microntounits):
         + scanrange * microntounits[result["motslow"]] / 2.0
     )
 
+    d = zapline_pixelsize(result["startfast"], result["endfast"], result["npixelsfast"])
+
     ifasta = (np.abs(fastvalues - pfasta)).argmin()
     ifastb = (np.abs(fastvalues - pfastb)).argmin()
     islowa = (np.abs(slowvalues - pslowa)).argmin()
@@ -116,33 +119,32 @@ def zapimage_submap(header, cmdlabel, scanrange, currentpos, microntounits):
     startpositions[result["motfast"]] = result["startfast"]
     startpositions[result["motslow"]] = result["startslow"]
 
-    d = (result["endfast"] - result["startfast"]) / (result["npixelsfast"] - 1.0)
+    if ifasta > ifastb:
+        ifast = -1
+    else:
+        ifast = 1
+    if islowa > islowb:
+        islow = -1
+    else:
+        islow = 1
+    d *= ifast
 
     scancmd = "zapimage {} {} {} {} {} {} {} {} {} 0".format(
         result["motfast"],
-        result["startfast"] + d / 2.0,
+        result["startfast"] - d / 2.0,
         result["endfast"] + d / 2.0,
         result["npixelsfast"],
         result["motslow"],
         result["startslow"],
         result["endslow"],
         result["nstepsslow"],
-        int(result["time"].to("ms").magitude),
+        "{:.15g}".format(result["time"].to("ms").magnitude),
     )
 
     mvcmd = "mv " + " ".join(
         "{} {}".format(mot, pos) for mot, pos in startpositions.items()
     )
 
-    if ifasta > ifastb:
-        ifast = -1
-    else:
-        ifast = 1
-    if islowa > islowb:
-        islow = -1
-    else:
-        islow = 1
-
     for k, v in currentpos.items():
         if k != result["motfast"] and k != result["motslow"]:
             if v != startpositions[k]:
@@ -152,22 +154,28 @@ def zapimage_submap(header, cmdlabel, scanrange, currentpos, microntounits):
                     )
                 )
 
-    return scancmd, mvcmd, [[ifasta, ifastb + 1, ifast], [islowa, islowb + 1, islow]]
+    # Python slices of the old map (start, stop, step)
+    fastslice, slowslice = [
+        [a, b + inc if b + inc >= 0 else None, inc]
+        for a, b, inc in [(ifasta, ifastb, ifast), (islowa, islowb, islow)]
+    ]
+    return scancmd, mvcmd, [fastslice, slowslice]
 
 
 class cmd_parser(object):
     def __init__(self):
-        self.fnumber = r"(?:[+-]?[0-9]*\.?[0-9]+)"
-        self.inumber = r"\d+"
+        self.fnumber = r"(?:[+-]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?)"
+        self.inumber = r"[0-9]+"
         self.blanks = r"\s+"
-        self.motor = r"[a-zA-Z]+"
-        self.motornum = r"[a-zA-Z0-9]+"
+        self.motor = r"[a-zA-Z_][a-zA-Z0-9_]*"
+        self.motornum = r"[a-zA-Z0-9_]+"
 
     def __call__(self, cmd):
         return self.parse(cmd)
 
     def parse(self, cmd):
-        scanname = cmd.split(" ")[0]
+        cmd = cmd.strip()
+        scanname = cmd.split()[0] if cmd else ""
         if scanname == "zapimage":
             return self.parsezapimage(cmd)
         elif scanname == "ascan":
@@ -185,7 +193,8 @@ class cmd_parser(object):
 
     def match(self, cmd, patterns):
         for pattern in patterns:
-            m = re.match(pattern, cmd)
+            # Extra arguments at the end are ignored
+            m = re.match(pattern + r"(?:\s|$)", cmd)
             if m:
                 return m
         return m
@@ -213,7 +222,7 @@ class cmd_parser(object):
             + ")"
             + self.blanks
             + "(?P<time>"
-            + self.inumber
+            + self.fnumber
             + ")"
             + self.blanks
             + "(?P<motslow>"
@@ -271,7 +280,7 @@ class cmd_parser(object):
             + ")"
             + self.blanks
             + "(?P<time>"
-            + self.inumber
+            + self.fnumber
             + ")"
         )
 
@@ -336,7 +345,7 @@ class cmd_parser(object):
             + ")"
             + self.blanks
             + "(?P<time>"
-            + self.inumber
+            + self.fnumber
             + ")"
         ]
 
@@ -615,21 +624,29 @@ class edfheader_parser(object):
 
         if self.fastlabel:
             try:
-                out["motfast"] = str(header[self.fastlabel + "_mot"])
-                out["startfast"] = float(header[self.fastlabel + "_start"])
-                out["endfast"] = float(header[self.fastlabel + "_end"])
-                out["npixelsfast"] = int(header[self.fastlabel + "_nbp"])
+                scan = {
+                    "motfast": str(header[self.fastlabel + "_mot"]),
+                    "startfast": float(header[self.fastlabel + "_start"]),
+                    "endfast": float(header[self.fastlabel + "_end"]),
+                    "npixelsfast": int(header[self.fastlabel + "_nbp"]),
+                }
             except KeyError:
                 pass
+            else:
+                out.update(scan)
 
         if self.slowlabel:
             try:
-                out["motslow"] = str(header[self.slowlabel + "_mot"])
-                out["startslow"] = float(header[self.slowlabel + "_start"])
-                out["endslow"] = float(header[self.slowlabel + "_end"])
-                out["nstepsslow"] = int(header[self.slowlabel + "_nbp"])
+                scan = {
+                    "motslow": str(header[self.slowlabel + "_mot"]),
+                    "startslow": float(header[self.slowlabel + "_start"]),
+                    "endslow": float(header[self.slowlabel + "_end"]),
+                    "nstepsslow": int(header[self.slowlabel + "_nbp"]),
+                }
             except KeyError:
                 pass
+            else:
+                out.update(scan)
 
         self._extract_floats(header, self.otherlabels, out)
         for k, labels in self.compensationmotors.items():
@@ -661,8 +678,8 @@ class edfheader_parser(object):
     def _extract_floats(self, header, labels, out):
         for k, label in labels.items():
             if label:
+                u = self.units.get(label, "dimensionless")
                 try:
-                    u = self.units.get(label, "dimensionless")
                     out[k] = units.Quantity(float(header[label]), u)
                 except KeyError:
                     if k not in out:
@@ -851,56 +868,38 @@ class spec(SpecFileDataSource.SpecFileDataSource):
     def getdimensions(self, scannumber, motors):
         """Get scan dimensions for the specified motors"""
         info = self._get_scan_info(scannumber)
-        motors = self._parse_labels(motors)
         names = self._parse_labels(info["MotorNames"])
         values = info["MotorValues"]
         cmd = info["Command"]
 
         # Parse motor positions
-        ret = {mot: values[names.index(mot)] for mot in motors}
+        ret = {mot: values[names.index(mot.lower())] for mot in motors}
 
         # Parse command
         result = self.parser.parse(cmd)
-        if result["name"] == "zapimage":
-            if result["motfast"] in motors:
-                ret[result["motfast"]] = np.array(
-                    zapline_range(
-                        result["startfast"], result["endfast"], result["npixelsfast"]
-                    )
-                )
-            if result["motslow"] in motors:
-                ret[result["motslow"]] = np.array(
-                    ascan_range(
-                        result["startslow"], result["endslow"], result["nstepsslow"]
-                    )
-                )
-        elif result["name"] == "ascan":
-            if result["motfast"] in motors:
-                ret[result["motfast"]] = np.array(
-                    ascan_range(
-                        result["startfast"], result["endsfast"], result["nstepsfast"]
-                    )
-                )
-        elif result["name"] == "mesh":
-            if result["motfast"] in motors:
-                ret[result["motfast"]] = np.array(
-                    ascan_range(
-                        result["startfast"], result["endfast"], result["npixelsfast"]
-                    )
-                )
-            if result["motslow"] in motors:
-                ret[result["motslow"]] = np.array(
-                    ascan_range(
-                        result["startslow"], result["endslow"], result["nstepsslow"]
-                    )
-                )
+        scanned = {}
+        if "npixelsfast" in result:
+            scanned[result["motfast"].lower()] = zapline_range(
+                result["startfast"], result["endfast"], result["npixelsfast"]
+            )
+        elif "nstepsfast" in result:
+            scanned[result["motfast"].lower()] = ascan_range(
+                result["startfast"], result["endfast"], result["nstepsfast"]
+            )
+        if "nstepsslow" in result:
+            scanned[result["motslow"].lower()] = ascan_range(
+                result["startslow"], result["endslow"], result["nstepsslow"]
+            )
+        for mot in motors:
+            if mot.lower() in scanned:
+                ret[mot] = np.array(scanned[mot.lower()])
 
         return ret
 
     @staticmethod
     def addunit(value, mot, units):
         u = units.get(mot, None)
-        if units is None:
+        if u is None:
             return value
         else:
             return ureg.Quantity(value, u)
@@ -948,11 +947,11 @@ class spec(SpecFileDataSource.SpecFileDataSource):
                 # uslow = units.get(result["motslow"], None)
 
                 add["scansize_units"] = "{} x {}".format(
-                    ffast(zapline_scansize), ffast(ascan_scansize)
+                    ffast(zapline_scansize), fslow(ascan_scansize)
                 )
 
                 add["pixelsize"] = "{} x {}".format(
-                    ffast(zapline_pixelsize), ffast(ascan_pixelsize)
+                    ffast(zapline_pixelsize), fslow(ascan_pixelsize)
                 )
 
                 add["puzzle"] = result["name"] == "puzzle"
@@ -970,13 +969,13 @@ class spec(SpecFileDataSource.SpecFileDataSource):
                     ]
 
                 if result["name"] != "mesh":
-                    h = info["Header"]
-                    h = [i.split(":")[1].strip() for i in h if "#C " in i]
-                    add["scandir"] = h[0]
-                    add["scanname"] = h[1]
-                    add["scannumber"] = h[2]
+                    loc = self._getxialoc(info["Header"])
+                    add["scandir"] = loc["DIRECTORY"]
+                    add["scanname"] = loc["RADIX"]
+                    add["scannumber"] = loc["ZAP SCAN NUMBER"]
 
-                    ret["{}_{}".format(h[1], int(h[2]))] = add
+                    name = "{}_{}".format(loc["RADIX"], int(loc["ZAP SCAN NUMBER"]))
+                    ret[name] = add
 
         return ret
 
-- 
2.43.0


From 31ee9c8ea2d96452588f2c3875c1586120f5df12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:20 +0000
Subject: [PATCH 32/44] fix: NeXus data groups: removing the only signal,
 adding a signal again, setting an axis with units again, marking groups below
 plain groups

---
 src/spectrocrunch/io/h5fs.py |  2 +-
 src/spectrocrunch/io/nxfs.py | 19 ++++++++++++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/spectrocrunch/io/h5fs.py b/src/spectrocrunch/io/h5fs.py
index 6a016fe..7ad2647 100755
--- a/src/spectrocrunch/io/h5fs.py
+++ b/src/spectrocrunch/io/h5fs.py
@@ -681,7 +681,7 @@ class Path(fs.Path):
         if not follow:
             raise ValueError("Hdf5 links do not have attributes themselves")
         try:
-            with self.open(mode="r") as node:
+            with self.open(mode="r+") as node:
                 return node.attrs.pop(instance.asunicode(key), default=default)
         except fs.Missing:
             return default
diff --git a/src/spectrocrunch/io/nxfs.py b/src/spectrocrunch/io/nxfs.py
index 20450cf..e37694c 100755
--- a/src/spectrocrunch/io/nxfs.py
+++ b/src/spectrocrunch/io/nxfs.py
@@ -6,6 +6,7 @@ import json
 import logging
 import dateutil.tz
 import dateutil.parser
+from pint.errors import DimensionalityError
 import traceback
 from importlib.metadata import version as get_version
 
@@ -539,13 +540,13 @@ class Path(h5fs.Path):
         for parent in self.parent.iterup:
             nxclass = path.nxclass
             parentnxclass = parent.nxclass
+            if nxclass == "NXdata":
+                nxdata = path
             if parentnxclass == "NXdata":
                 parent.default_signal(path.name)
             elif nxclass == "NXentry":
                 parent.update_stats(default=path.name)
             elif parentnxclass is not None:
-                if nxclass == "NXdata":
-                    nxdata = path
                 if nxdata:
                     # if parentnxclass == u'NXentry' and nxclass != u'NXdata':
                     #    default = parent[DEFAULT_PLOT_NAME]
@@ -872,6 +873,7 @@ class _NXdata(_NXPath):
                 add = self.get_stat("signal", None)
                 if add is not None:
                     signals.append(add)
+                signals = [signal for signal in signals if signal != name]
                 if signals:
                     self.update_stats(auxiliary_signals=signals)
                 self.update_stats(signal=name)
@@ -911,10 +913,15 @@ class _NXdata(_NXPath):
 
     def remove_signal(self, name):
         with self._verify():
+            if name in self.get_stat("axes", []):
+                raise NexusFormatException("{} is an axis".format(repr(name)))
             self[name].remove()
             with self.open():
                 signals = self.pop_stat("auxiliary_signals")
-                if signals is not None:
+                if signals is None:
+                    if self.get_stat("signal") == name:
+                        self.pop_stat("signal")
+                else:
                     if self.signal.name == name:
                         aux = signals[:-1]
                         if aux.size:
@@ -1089,6 +1096,12 @@ class _NXcollection(_NXPath):
     def _axis_equal(self, axis1, axis2):
         if isinstance(axis1, h5fs.Path):
             with axis1.open(mode="r") as node1:
+                if instance.isquantity(axis2):
+                    u = axis1.get_stat("units", "dimensionless")
+                    try:
+                        axis2 = axis2.to(u).magnitude
+                    except DimensionalityError:
+                        return False
                 if isinstance(axis2, h5fs.Path):
                     with axis2.open(mode="r") as node2:
                         return np.array_equal(node1, node2)
-- 
2.43.0


From a257e55d111fb611c4db008c08a97cce427a1647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:56 +0000
Subject: [PATCH 33/44] fix: expressions: evaluate expressions of the signal
 alone, precedence of signs, names of variables, array functions, unknown
 names refused

---
 src/spectrocrunch/process/nxexpression.py | 91 +++++++++++------------
 1 file changed, 42 insertions(+), 49 deletions(-)

diff --git a/src/spectrocrunch/process/nxexpression.py b/src/spectrocrunch/process/nxexpression.py
index 208d880..3d317e9 100755
--- a/src/spectrocrunch/process/nxexpression.py
+++ b/src/spectrocrunch/process/nxexpression.py
@@ -32,7 +32,7 @@ class Task(nxregulargrid.Task):
         logger.info("Expression: {}".format(parameters["expression"]))
 
     def _process_data(self, data):
-        if self.variables:
+        if self.calculate:
             variables = {"a": data}
             for name, path in self.variables.items():
                 with path.open(mode="r") as dset:
@@ -77,6 +77,7 @@ class Task(nxregulargrid.Task):
         self.vardefault = {k: vardefault[k] for k, v in varcount.items() if v == 1}
 
     def _prepare_signal(self, signal):
+        self.calculate = False
         if self._skip(signal):
             self.variables = {}
             logger.info("skip {}".format(signal.name))
@@ -87,6 +88,7 @@ class Task(nxregulargrid.Task):
             return True
         else:
             logger.info("calculate {}".format(signal.name))
+            self.calculate = True
             # For example: 'xmap_icr':'var_c' -> 'var_c':.../detector00/xmap_icr
             self.variables = {}
             for oldname, newname in self.namemap.items():
@@ -119,6 +121,9 @@ class MathParser(object):
     def pushFirst(self, strg, loc, toks):
         self.exprStack.append(toks[0])
 
+    def pushVariable(self, strg, loc, toks):
+        self.exprStack.append("var_" + toks[0])
+
     def pushUMinus(self, strg, loc, toks):
         if toks and toks[0] == "-":
             self.exprStack.append("unary -")
@@ -128,29 +133,18 @@ class MathParser(object):
         expop   :: '^'
         multop  :: '*' | '/'
         addop   :: '+' | '-'
-        integer :: ['+' | '-'] '0'..'9'+
-        atom    :: PI | E | real | fn '(' expr ')' | '(' expr ')'
-        factor  :: atom [ expop factor ]*
+        atom    :: PI | E | real | fn '(' expr ')' | var | '(' expr ')'
+        factor  :: [ '+' | '-' ] factor | atom [ expop factor ]*
         term    :: factor [ multop factor ]*
         expr    :: term [ addop term ]*
         """
         self.exprStack = []
         self.dtype = dtype
 
-        point = pyparsing.Literal(".")
-
-        e = pyparsing.CaselessLiteral("E")
-        pi = pyparsing.CaselessLiteral("PI")
+        e = pyparsing.CaselessKeyword("E")
+        pi = pyparsing.CaselessKeyword("PI")
 
-        fnumber = pyparsing.Combine(
-            pyparsing.Word("+-" + pyparsing.nums, pyparsing.nums)
-            + pyparsing.Optional(
-                point + pyparsing.Optional(pyparsing.Word(pyparsing.nums))
-            )
-            + pyparsing.Optional(
-                e + pyparsing.Word("+-" + pyparsing.nums, pyparsing.nums)
-            )
-        )
+        fnumber = pyparsing.Regex(r"([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?")
 
         ident = pyparsing.Word(
             pyparsing.alphas, pyparsing.alphas + pyparsing.nums + "_$"
@@ -169,22 +163,22 @@ class MathParser(object):
 
         expr = pyparsing.Forward()
         atom = (
-            (
-                pyparsing.Optional(pyparsing.oneOf("- +"))
-                + (pi | e | fnumber | ident + lpar + expr + rpar | var).setParseAction(
-                    self.pushFirst
-                )
-            )
-            | pyparsing.Optional(pyparsing.oneOf("- +"))
-            + pyparsing.Group(lpar + expr + rpar)
-        ).setParseAction(self.pushUMinus)
+            (pi | e | fnumber).setParseAction(self.pushFirst)
+            | var.setParseAction(self.pushVariable)
+            | (ident + lpar + expr + rpar).setParseAction(self.pushFirst)
+            | pyparsing.Group(lpar + expr + rpar)
+        )
 
         # by defining exponentiation as "atom [ ^ factor ]..." instead of
         # "atom [ ^ atom ]...", we get right-to-left exponents, instead of left-to-right
-        # that is, 2^3^2 = 2^(3^2), not (2^3)^2.
+        # that is, 2^3^2 = 2^(3^2), not (2^3)^2. A sign binds less tightly than
+        # the exponentiation, that is, -2^2 = -(2^2).
         factor = pyparsing.Forward()
-        factor << atom + pyparsing.ZeroOrMore(
-            (expop + factor).setParseAction(self.pushFirst)
+        signed = (pyparsing.oneOf("- +") + factor).setParseAction(self.pushUMinus)
+        factor << (
+            signed
+            | atom
+            + pyparsing.ZeroOrMore((expop + factor).setParseAction(self.pushFirst))
         )
 
         term = factor + pyparsing.ZeroOrMore(
@@ -214,10 +208,10 @@ class MathParser(object):
             "cos": np.cos,
             "tan": np.tan,
             "abs": abs,
-            "trunc": lambda a: int(a),
-            "round": round,
+            "trunc": np.trunc,
+            "round": np.round,
             # TODO: or 0?
-            "sgn": lambda a: (abs(a) > epsilon and (1 if a > 0 else -1)) or 0,
+            "sgn": lambda a: np.where(np.abs(a) > epsilon, np.sign(a), 0),
             "max": np.nanmax,
             "min": np.nanmin,
             "nanone": lambda a: self._fn_nan(a, 1),
@@ -234,8 +228,7 @@ class MathParser(object):
 
     @staticmethod
     def _fn_nan(a, v):
-        a[np.isnan(a)] = v
-        return a
+        return np.where(np.isnan(a), v, a)
 
     def evaluateStack(self, s):
         op = s.pop()
@@ -249,22 +242,22 @@ class MathParser(object):
             return np.pi  # 3.1415926535
         elif op.upper() == "E":
             return np.e  # 2.718281828
-        elif op in self.fn:
-            return self.fn[op](self.evaluateStack(s))
-        elif op[0].isalpha():
-            if op in self.variables:
-                var = self.variables[op]
-                if isinstance(var, nxfs.Path):
-                    if var.isfile:
-                        with open(var) as dset:
-                            return dset[:]
-                    else:
-                        raise ValueError("{} must be a file".format(var))
-                elif isinstance(var, h5py.Dataset):
-                    return var[:]
+        elif op.startswith("var_"):
+            var = self.variables[op[4:]]
+            if isinstance(var, nxfs.Path):
+                if var.isfile:
+                    with var.open(mode="r") as dset:
+                        return dset[()]
                 else:
-                    return var
-            return 0
+                    raise ValueError("{} must be a file".format(var))
+            elif isinstance(var, h5py.Dataset):
+                return var[()]
+            else:
+                return var
+        elif op[0].isalpha():
+            if op not in self.fn:
+                raise ValueError("Unknown function {}".format(repr(op)))
+            return self.fn[op](self.evaluateStack(s))
         else:
             return self.dtype(op)
 
-- 
2.43.0


From 4b9142fdb07c81ceb904517dc6f64aaf78b8cbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:56 +0000
Subject: [PATCH 34/44] fix: sliced grid tasks: signals keep their own data
 type

---
 src/spectrocrunch/process/nxregulargrid.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/spectrocrunch/process/nxregulargrid.py b/src/spectrocrunch/process/nxregulargrid.py
index b6c75bd..b16d4e0 100755
--- a/src/spectrocrunch/process/nxregulargrid.py
+++ b/src/spectrocrunch/process/nxregulargrid.py
@@ -91,17 +91,18 @@ class Task(nxprocess.Task):
             with signalin.open() as dsetin:
                 # Calculate new signal from old signal
                 if self.sliced:
+                    data = self._process_slice(dsetin, 0)
                     signalout = nxdata.add_signal(
                         signalin.name,
                         shape=self.signalout_shape,
-                        dtype=self.signalout_dtype,
+                        dtype=np.asarray(data).dtype,
                         chunks=True,
                     )
                     with signalout.open() as dsetout:
                         for i in range(self.signal_nslices):
-                            self.indexin[self.signal_stackdim] = i
+                            if i:
+                                data = self._process_slice(dsetin, i)
                             self.indexout[self.signal_stackdim] = i
-                            data = self._process_data(dsetin[tuple(self.indexin)])
                             dsetout[tuple(self.indexout)] = data
                 else:
                     data = self._process_data(dsetin[tuple(self.indexin)])
@@ -150,6 +151,10 @@ class Task(nxprocess.Task):
                 positioners.add_axis(ax.name, ax.values, title=ax.title)
         return [ax.name for ax in axes]
 
+    def _process_slice(self, dsetin, i):
+        self.indexin[self.signal_stackdim] = i
+        return self._process_data(dsetin[tuple(self.indexin)])
+
     def _process_data(self, data):
         return data
 
-- 
2.43.0


From 94f4e092bc514d52e2d813b8f2aeffd05dd7e735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:10 +0000
Subject: [PATCH 35/44] fix: crop regions, references by name, NaN values and
 one-dimensional data in replace, encoder offsets and data types in resample

---
 src/spectrocrunch/process/nxcrop.py        | 16 +++++++++++-----
 src/spectrocrunch/process/nxregulargrid.py |  8 ++------
 src/spectrocrunch/process/nxreplace.py     | 11 ++++++++---
 src/spectrocrunch/process/nxresample.py    | 11 +++++++----
 4 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/spectrocrunch/process/nxcrop.py b/src/spectrocrunch/process/nxcrop.py
index d3e8715..8193d86 100755
--- a/src/spectrocrunch/process/nxcrop.py
+++ b/src/spectrocrunch/process/nxcrop.py
@@ -25,7 +25,9 @@ class Task(nxregulargrid.Task):
             self.roi = self.calccroproi(self.reference_signal)
         elif "roi" in self.parameters:
             self.roi = self.convertuserroi(self.reference_signal)
-        if self.roi is not None:
+        if self.roi is None:
+            self.cropped_shape = self.signalin_shape
+        else:
             self.cropped_shape = tuple([b - a for a, b in self.roi])
             self.indexin = [slice(a, b) for a, b in self.roi]
             self.indexout = [slice(None)] * len(self.roi)
@@ -64,12 +66,12 @@ class Task(nxregulargrid.Task):
             mask = np.ones(shape, dtype=bool)
             for i in range(refgrid.shape[self.signal_stackdim]):
                 img = refgrid[indexgen(i)]
-                if nanval is np.nan:
+                if np.isnan(nanval):
                     mask &= np.logical_not(np.isnan(img))
                 else:
                     mask &= img != nanval
         else:
-            if nanval is np.nan:
+            if np.isnan(nanval):
                 mask = np.isnan(refgrid.values).sum(axis=self.signal_stackdim) == 0
             else:
                 mask = (refgrid.values == nanval).sum(axis=self.signal_stackdim) == 0
@@ -97,8 +99,7 @@ class Task(nxregulargrid.Task):
         return roi
 
     def convertuserroi(self, refgrid):
-        """Determine crop ROI to remove slices other than stackdim which contain
-        only nanval.
+        """Crop ROI given by the user (slice limits for each dimension except stackdim)
 
         Args:
             refgrid(RegularGrid):
@@ -109,4 +110,9 @@ class Task(nxregulargrid.Task):
         roi = list(self.parameters["roi"])
         stackdim = self.parameters["stackdim"]
         roi.insert(stackdim, (0, refgrid.shape[stackdim]))
+        roi = [slice(a, b).indices(n)[:2] for (a, b), n in zip(roi, refgrid.shape)]
+        if any(b <= a for a, b in roi):
+            raise basetask.ParameterError(
+                "Nothing left after cropping to {}".format(self.parameters["roi"])
+            )
         return roi
diff --git a/src/spectrocrunch/process/nxregulargrid.py b/src/spectrocrunch/process/nxregulargrid.py
index b16d4e0..4f384cc 100755
--- a/src/spectrocrunch/process/nxregulargrid.py
+++ b/src/spectrocrunch/process/nxregulargrid.py
@@ -48,7 +48,8 @@ class Task(nxprocess.Task):
         reference = self.parameters.get("reference", None)
         if reference:
             ax = self.grid.axes[self.grid.stackdim]
-            ind = np.array([s.path.endswith(reference) for s in ax])
+            suffix = "/" + reference.lstrip("/")
+            ind = np.array([s.path.endswith(suffix) for s in ax])
             if ind.any():
                 return np.nonzero(ind)[0][-1]
             else:
@@ -174,11 +175,6 @@ class Task(nxprocess.Task):
     def dtype_process(self):
         return np.float32(0)
 
-    @property
-    def signalout_dtype(self):
-        x = np.array(0, dtype=self.grid.dtype) * self.dtype_process
-        return x.dtype
-
     @property
     def signalin_shape(self):
         shape = list(self.grid.shape)
diff --git a/src/spectrocrunch/process/nxreplace.py b/src/spectrocrunch/process/nxreplace.py
index 5462d9e..8aa4bfe 100755
--- a/src/spectrocrunch/process/nxreplace.py
+++ b/src/spectrocrunch/process/nxreplace.py
@@ -10,8 +10,13 @@ class Task(nxregulargrid.Task):
     def _process_data(self, data):
         v1 = self.parameters["old"]
         v2 = self.parameters["new"]
-        if v1 is np.nan:
-            data[np.isnan(data)] = v2
+        if np.isnan(v1):
+            mask = np.isnan(data)
         else:
-            data[data == v1] = v2
+            mask = data == v1
+        if mask.any():
+            if np.ndim(data):
+                data[mask] = v2
+            else:
+                data = data.dtype.type(v2)
         return data
diff --git a/src/spectrocrunch/process/nxresample.py b/src/spectrocrunch/process/nxresample.py
index 835c0a5..80d91d3 100755
--- a/src/spectrocrunch/process/nxresample.py
+++ b/src/spectrocrunch/process/nxresample.py
@@ -70,6 +70,9 @@ class Task(nxregulargrid.Task):
                         encdict["resolution"],
                         offset=encdict.get("offset", None),
                     )
+                    if encoder is None:
+                        # nothing left after cropping: keep the axis as it is
+                        signal = None
             lst.append((ax, encoder, signal, offset))
         self.axes, self.encoders, self.encoder_signals, self.offsets = zip(*lst)
 
@@ -140,7 +143,7 @@ class Task(nxregulargrid.Task):
                     signalout = nxdata.add_signal(
                         signalin.name,
                         shape=self.signalout_shape,
-                        dtype=self.signalout_dtype,
+                        dtype=np.result_type(dsetin.dtype, self.dtype_process),
                         chunks=True,
                     )
                     with signalout.open() as dsetout:
@@ -190,7 +193,7 @@ class Task(nxregulargrid.Task):
         Returns:
             position(Axis): in motor units
             encoder(Axis): in encoder steps
-            offset(Optional(num)):
+            offset(num):
         """
 
         # Encoder(units) = axis(units)*resolution(steps/units) + offset(units)
@@ -198,6 +201,7 @@ class Task(nxregulargrid.Task):
         if offset is None:
             encoder = axis.factory(position.values * resolution)
         else:
+            offset = units.Quantity(offset, "dimensionless")
             encoder = axis.factory(position.values * resolution + offset)
 
         crop = self.parameters["crop"]
@@ -250,9 +254,8 @@ class Task(nxregulargrid.Task):
                         repr(position.name)
                     )
                 )
-                return position, None, offset
             else:
                 position = self._new_axis(
                     (encoder.values - offset) / resolution, position
                 )
-                return position, encoder, offset.to("dimensionless").magnitude
+            return position, encoder, offset.to("dimensionless").magnitude
-- 
2.43.0


From fc2810e3a9f73b9c17ccaffb70da0124c5edcd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:50 +0000
Subject: [PATCH 36/44] fix: merged datasets: incomplete scans, different data
 dimensions, byte strings and scalars; axis of stacks without positioner

---
 src/spectrocrunch/process/h5merge.py | 63 +++++++++++++++++-----------
 src/spectrocrunch/process/nxstack.py |  7 +++-
 2 files changed, 44 insertions(+), 26 deletions(-)

diff --git a/src/spectrocrunch/process/h5merge.py b/src/spectrocrunch/process/h5merge.py
index 753a068..1dadaa7 100644
--- a/src/spectrocrunch/process/h5merge.py
+++ b/src/spectrocrunch/process/h5merge.py
@@ -43,35 +43,50 @@ def match_shapes(shapes, keep_shapes_when_equal=True):
     n_chunks = max_size // chunk_size
     if n_chunks == 0:
         raise ValueError("Cannot match shapes {}".format(shapes))
-    n_last_new = n_chunks * chunk_size // chunk_sizes
+    n_last_new = (n_chunks * chunk_size // chunk_sizes).tolist()
     new_shapes = [shape[:-1] + (nlast,) for (shape, nlast) in zip(shapes, n_last_new)]
+    if keep_shapes_when_equal:
+        return new_shapes
     return [
         tuple() if shape == new_shape else new_shape
         for shape, new_shape in zip(shapes, new_shapes)
     ]
 
 
-def layout_slicing(source_shape, layout_shape):
-    return [
-        tuple(slice(0, n) for n in shape)
-        for shape in match_shapes(
-            [source_shape, layout_shape], keep_shapes_when_equal=False
-        )
-    ]
+def layout_slicing(source_shape, scan_shape, nscandim):
+    """Slice source and layout so that they have the same number of scan points
+
+    :param tuple source_shape: scan and data dimensions
+    :param tuple scan_shape: F-order (fast axis first)
+    :param int nscandim: start index of the data dimensions
+    :return tuple, tuple: empty source slices when all points are needed
+    """
+    data_idx = tuple(slice(0, n) for n in source_shape[nscandim:])
+    source_scan_shape, layout_scan_shape = match_shapes(
+        [source_shape[:nscandim], scan_shape]
+    )
+    source_idx = tuple()
+    if source_scan_shape != source_shape[:nscandim]:
+        source_idx = tuple(slice(0, n) for n in source_scan_shape) + data_idx
+    layout_idx = tuple(slice(0, n) for n in layout_scan_shape[::-1]) + data_idx
+    return source_idx, layout_idx
 
 
 def max_shape(shapes):
     return tuple(numpy.array([list(shape) for shape in shapes]).max(axis=0))
 
 
-def tile_indices(tile_shape, shapes, order="C"):
+def tile_indices(tile_shape, shapes, order="C", full_shapes=None):
     """
     :param tuple tile_shape:
     :param list(tuple) sources:
     :param str order: "C" or "F:
+    :param list(tuple) full_shapes: shapes of the complete sources
     :return tuple, list(slice):
     """
-    dset_max_shape = numpy.array(list(max_shape(shapes)))
+    if full_shapes is None:
+        full_shapes = shapes
+    dset_max_shape = numpy.array(list(max_shape(full_shapes)))
     layout_shape = dset_max_shape * numpy.array(tile_shape)
     layout_shape = tuple(layout_shape.tolist())
 
@@ -123,8 +138,9 @@ def stack_h5datasets(
                 shape=dset.shape,
                 dtype=dset.dtype,
             )
-            vsource_idx, layout_idx = layout_slicing(dset.shape, shape[::-1])
-            layout_idx = layout_idx[::-1]
+            vsource_idx, layout_idx = layout_slicing(
+                dset.shape, scan_shape[::-1], nscandim
+            )
             if vsource_idx:
                 vsource = vsource[vsource_idx]
             layout[layout_idx] = vsource
@@ -138,20 +154,17 @@ def stack_h5datasets(
                     shape=dset.shape,
                     dtype=dset.dtype,
                 )
-                vsource_idx, layout_idx = layout_slicing(dset.shape, shape[-1:0:-1])
-                layout_idx = layout_idx[::-1]
+                vsource_idx, layout_idx = layout_slicing(
+                    dset.shape, scan_shape[::-1], nscandim
+                )
                 if vsource_idx:
                     vsource = vsource[vsource_idx]
-                if layout_idx:
-                    layout_idx = (i,) + layout_idx
-                else:
-                    layout_idx = i
-                layout[layout_idx] = vsource
+                layout[(i,) + layout_idx] = vsource
         dest.create_virtual_dataset(name, layout, fillvalue=fillvalue)
     else:
         # Cannot make VDS of scalar datasets
         arr = [dset[()] for dset in sources]
-        if isinstance(arr[0], str):
+        if isinstance(arr[0], (str, bytes)):
             if name == "end_time":
                 arr = arr[-1]
             else:
@@ -177,6 +190,7 @@ def tile_h5datasets(dest, name, sources, shape_map, tile_shape, nscandim=1):
     ]  # F-order
     reshaped_scan_shapes = [s[::-1] for s in reshaped_scan_shapes]  # C-order
 
+    full_scan_shapes = reshaped_scan_shapes  # C-order
     reduced_scan_shapes, reshaped_scan_shapes = zip(
         *(
             match_shapes([shape1, shape2[::-1]])
@@ -187,7 +201,7 @@ def tile_h5datasets(dest, name, sources, shape_map, tile_shape, nscandim=1):
     tile_shape = tile_shape[::-1]  # C-order
 
     layout_scan_shape, indices = tile_indices(
-        tile_shape, reshaped_scan_shapes, order="C"
+        tile_shape, reshaped_scan_shapes, order="C", full_shapes=full_scan_shapes
     )
 
     layout_shape = layout_scan_shape + max_shape(det_shapes)
@@ -208,7 +222,6 @@ def tile_h5datasets(dest, name, sources, shape_map, tile_shape, nscandim=1):
         det_idx = tuple(slice(0, n) for n in det_shape)
         if reduced_source_shape != vsource.shape:
             vsource_idx = tuple(slice(0, n) for n in reduced_source_shape)
-            vsource_idx += det_idx
             vsource = vsource[vsource_idx]
         layout_idx += det_idx
         layout[layout_idx] = vsource
@@ -264,7 +277,7 @@ def merge_h5groups(
                 )
             else:
                 # Dataset
-                if tile_shape:
+                if tile_shape and source[k].shape:
                     tile_h5datasets(
                         dest,
                         k,
@@ -339,9 +352,11 @@ class MergedBlissMesh(MergedBlissScan):
         cmd = sources[0]["title"][()]
         for s in sources:
             assert cmd == s["title"][()]
+        if isinstance(cmd, bytes):
+            cmd = cmd.decode()
         parts = cmd.split(" ")
         shape = int(parts[4]), int(parts[8]) + 1
-        return {shape[0] * shape[1]: shape}
+        return {(shape[0] * shape[1],): shape}
 
 
 if __name__ == "__main__":
diff --git a/src/spectrocrunch/process/nxstack.py b/src/spectrocrunch/process/nxstack.py
index ff77ed6..abe6e31 100644
--- a/src/spectrocrunch/process/nxstack.py
+++ b/src/spectrocrunch/process/nxstack.py
@@ -26,7 +26,7 @@ class Task(nxmerge.Task):
             scan_shape = groups["parameters"][0].shape
 
         shape_map = {}
-        axes = collections.OrderedDict()
+        stack_axes = collections.OrderedDict()
 
         stack_axis_name = parameters["stack_positioner"]
         if stack_axis_name:
@@ -35,10 +35,13 @@ class Task(nxmerge.Task):
                 idx = numpy.argsort(stack_axis)
                 groups = {k: [lst[i] for i in idx] for k, lst in groups.items()}
                 stack_axis = numpy.array(stack_axis)[idx]
-            axes[stack_axis_name] = stack_axis
+            stack_axes[stack_axis_name] = stack_axis
 
         for name, sources in groups.items():
             no_stack_dimension = len(sources) == 1 and not stack_axis_name
+            axes = stack_axes.copy()
+            if not axes and not no_stack_dimension:
+                axes["dim0"] = numpy.arange(len(sources))
             for source in sources:
                 shape_map[source.shape] = scan_shape
             for i, n in enumerate(scan_shape[::-1], 1):
-- 
2.43.0


From a17bedd01ed15674dd646c50311a633daed4b0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:28 +0000
Subject: [PATCH 37/44] fix: Bliss spectra preparation: live time from rates,
 data types, detectors counted once, links, coexisting results

---
 src/spectrocrunch/process/nxblissmcapre.py | 54 +++++++++-------------
 1 file changed, 21 insertions(+), 33 deletions(-)

diff --git a/src/spectrocrunch/process/nxblissmcapre.py b/src/spectrocrunch/process/nxblissmcapre.py
index 6105ffe..9babd13 100644
--- a/src/spectrocrunch/process/nxblissmcapre.py
+++ b/src/spectrocrunch/process/nxblissmcapre.py
@@ -62,12 +62,14 @@ class Task(nxprocess.Task):
     def _matching_names(self, path, patterns):
         if not patterns:
             return
-        names = [f.name for f in path.listdir()]
-        for pattern in patterns:
-            pattern = re.compile(pattern)
-            for name in names:
-                if pattern.match(name):
-                    yield name
+        patterns = [re.compile(pattern) for pattern in patterns]
+        for f in path.listdir():
+            if any(pattern.match(f.name) for pattern in patterns):
+                yield f.name
+
+    @staticmethod
+    def _dtcor_dtype(livetimes):
+        return numpy.result_type(numpy.float32, *(lt.dtype for lt in livetimes))
 
     def _mca_add(self, nxinstrument, detectors, dsetname, outname=None):
         datasets = []
@@ -77,13 +79,12 @@ class Task(nxprocess.Task):
             det = nxinstrument[source_name]
             with det[dsetname].open() as dset:
                 shape = dset.shape
-                dtype = dset.dtype
                 datasets.append(dset)
 
             with self._open_livetime(det) as lt:
                 livetimes.append(lt)
-                dtype = (numpy.array(0, lt.dtype) * preset_time).dtype
 
+        dtype = self._dtcor_dtype(livetimes)
         mca = self._mca_nxdetector("mca" + self.parameters["detector_suffix"])
         it = slice_generator(shape[::-1], dtype)
         if not outname:
@@ -110,7 +111,7 @@ class Task(nxprocess.Task):
             with det["data"].open() as dset:
                 with self._open_livetime(det) as lt:
                     shape = dset.shape
-                    dtype = (numpy.array(0, dset.dtype) * preset_time).dtype
+                    dtype = self._dtcor_dtype([lt])
                     it = slice_generator(shape[::-1], dtype)
                     mca = self._mca_nxdetector(
                         source_name + self.parameters["detector_suffix"]
@@ -135,7 +136,7 @@ class Task(nxprocess.Task):
                 return
 
         events = det["events"]
-        trigger_count_rate = det["events"]
+        trigger_count_rate = det["trigger_count_rate"]
         if events.exists and trigger_count_rate.exists:
             with events.open() as ev:
                 with trigger_count_rate.open() as icr:
@@ -148,43 +149,30 @@ class Task(nxprocess.Task):
         preset_time = self.parameters["preset_time"]
         for source_name in detectors:
             det = nxinstrument[source_name]
-            mca = self._mca_nxdetector("mca" + self.parameters["detector_suffix"])
+            mca = self._mca_nxdetector(
+                source_name + self.parameters["detector_suffix"]
+            )
             mca["data"].link(det["data"])
             mca["preset_time"].write(data=preset_time)
 
     def _mca_nxdetector(self, name):
-        mca = self.temp_nxresults.nxdetector(name)
+        # In the results so that tasks with other parameters can be
+        # saved in the same entry and nothing is left behind on failure
+        mca = self.temp_nxresults[name].mkdir()
+        mca.update_stats(NX_class="NXdetector")
         mca["type"].write(data="mca")
-        self.temp_nxresults[name].link(mca)
         return mca
 
     def _add_counters(self, nxinstrument):
         # Note: softlink to external link cause problems later on
 
-        use_link = False
-        dest_nxinstrument = self.temp_nxresults.nxinstrument()
         for name in self.parameters["counters"]:
             source = nxinstrument[name]
             parts = name.split("/")
             if len(parts) == 1:
-                dest_nxinstrument[name].link(source)
-                if use_link:
-                    self.temp_nxresults[name].link(source)
-                else:
-                    source.copy(
-                        self.temp_nxresults[name], follow=True, dereference=True
-                    )
+                source.copy(self.temp_nxresults[name], follow=True, dereference=True)
             elif len(parts) == 2:
-                name = parts[1]
-                counter = dest_nxinstrument.nxdetector(name)
-                if use_link:
-                    counter["data"].link(source)
-                else:
-                    source.copy(counter["data"], follow=True, dereference=True)
-                counter = self.temp_nxresults[name].mkdir()
-                if use_link:
-                    counter["data"].link(source)
-                else:
-                    source.copy(counter["data"], follow=True, dereference=True)
+                counter = self.temp_nxresults[parts[1]].mkdir()
+                source.copy(counter["data"], follow=True, dereference=True)
             else:
                 raise ValueError(f"{name} contains more than one '/' character")
-- 
2.43.0


From 8a3d98370539e7694c48e8ea6eef2fac03934b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:47 +0000
Subject: [PATCH 38/44] fix: materials: setting fractions, mole fractions of
 mixtures, cross sections of nested mixtures, formulas with trailing
 characters, scatterers, names starting like an element

---
 src/spectrocrunch/materials/compound.py       |  2 +-
 .../materials/compoundfromformula.py          |  2 +-
 .../materials/compoundfromname.py             |  2 +-
 src/spectrocrunch/materials/mixture.py        | 26 +++++++------------
 .../materials/multielementbase.py             |  6 ++---
 src/spectrocrunch/materials/multilayer.py     |  6 ++---
 src/spectrocrunch/materials/utils.py          |  2 +-
 7 files changed, 19 insertions(+), 27 deletions(-)

diff --git a/src/spectrocrunch/materials/compound.py b/src/spectrocrunch/materials/compound.py
index 4bd50dd..8c360d7 100755
--- a/src/spectrocrunch/materials/compound.py
+++ b/src/spectrocrunch/materials/compound.py
@@ -130,7 +130,7 @@ class Compound(multielementbase.MultiElementBase):
             dfrac(dict): element fractions
             fractype(types.fraction): fraction type
         """
-        elements = list(dfrac.keys())
+        elements = [element.Element(e) for e in dfrac]
         fractions = np.asarray(list(dfrac.values()))
         # Element mole fractions
         if fractype == types.fraction.mole:
diff --git a/src/spectrocrunch/materials/compoundfromformula.py b/src/spectrocrunch/materials/compoundfromformula.py
index a6a01a6..21a1491 100755
--- a/src/spectrocrunch/materials/compoundfromformula.py
+++ b/src/spectrocrunch/materials/compoundfromformula.py
@@ -47,7 +47,7 @@ class FormulaParser(object):
 
     def eval(self, formula):
         self.elements = {}
-        result = self.formula.parseString(formula)
+        result = self.formula.parseString(formula, parseAll=True)
         self.parseresult(result, 1.0)
         return self.elements.keys(), self.elements.values()
 
diff --git a/src/spectrocrunch/materials/compoundfromname.py b/src/spectrocrunch/materials/compoundfromname.py
index 7ac729a..97f2c43 100755
--- a/src/spectrocrunch/materials/compoundfromname.py
+++ b/src/spectrocrunch/materials/compoundfromname.py
@@ -428,7 +428,7 @@ def search(name):
 
 
 def compoundfromname(name):
-    if re.match("[A-Z][a-z]?", name):
+    if re.match("[A-Z][a-z]?$", name):
         return element.Element(name)
     else:
         return factory(name)
diff --git a/src/spectrocrunch/materials/mixture.py b/src/spectrocrunch/materials/mixture.py
index a929c6f..a3b90bd 100755
--- a/src/spectrocrunch/materials/mixture.py
+++ b/src/spectrocrunch/materials/mixture.py
@@ -158,9 +158,8 @@ class Mixture(multielementbase.MultiElementBase):
 
     @property
     def Zeff(self):
-        # equivalent to using elemental_molefractions
-        nfrac = self.molefractions()
-        Z = np.asarray([c.Zeff for c in nfrac])
+        nfrac = self.elemental_molefractions()
+        Z = np.asarray([e.Z for e in nfrac])
         nfrac = np.asarray(list(nfrac.values()))
         return (Z * nfrac).sum()
 
@@ -197,7 +196,7 @@ class Mixture(multielementbase.MultiElementBase):
 
     @property
     def nelements(self):
-        return sum(c.nelements for c in self._compounds)
+        return len(self.elements)
 
     @property
     def density(self):
@@ -208,16 +207,9 @@ class Mixture(multielementbase.MultiElementBase):
         return stoichiometry.density_from_molefrac(nfrac, rho, MM)
 
     def elemental_molefractions(self):
-        ret = {}
-        c_nfrac = self.molefractions()
-        for c in c_nfrac:
-            e_nfrac = c.elemental_molefractions()
-            for e in e_nfrac:
-                if e in ret:
-                    ret[e] += c_nfrac[c] * e_nfrac[e]
-                else:
-                    ret[e] = c_nfrac[c] * e_nfrac[e]
-        return ret
+        ret = self.elemental_equivalents()
+        total = sum(ret.values())
+        return {e: n / total for e, n in ret.items()}
 
     def elemental_equivalents(self):
         ret = {}
@@ -246,11 +238,11 @@ class Mixture(multielementbase.MultiElementBase):
     def _crosssection(self, method, E, fine=False, decomposed=False, **kwargs):
         """Calculate mixture cross-sections"""
         bscat = self._cs_scattering(method)
-        if bscat and not self.hasscatterers:
+        if bscat and not self.hasscatterers():
             if decomposed:
                 return {}
             else:
-                return E * 0.0
+                return np.zeros_like(E, dtype=float)
         c_wfrac = self.massfractions()
         if decomposed:
             ret = {}
@@ -342,7 +334,7 @@ class Mixture(multielementbase.MultiElementBase):
             c.unmarkscatterer()
 
     def hasscatterers(self):
-        return any([c.isscatterer() for c in self._compounds])
+        return any([c.isscatterer for c in self._compounds])
 
     def get_energy(self, energyrange, defaultinc=1):
         """Get absolute energies (keV) from a relative energy range (eV)"""
diff --git a/src/spectrocrunch/materials/multielementbase.py b/src/spectrocrunch/materials/multielementbase.py
index 369c14e..79bdf69 100755
--- a/src/spectrocrunch/materials/multielementbase.py
+++ b/src/spectrocrunch/materials/multielementbase.py
@@ -17,7 +17,7 @@ class MultiElementBase(elementbase.ElementBase):
         return len(self.parts)
 
     def setfraction(self, parts, values, fractype):
-        if instance.isstring(parts):
+        if not instance.isarray(parts):
             parts = [parts]
         values = instance.asarray(values)
 
@@ -33,7 +33,7 @@ class MultiElementBase(elementbase.ElementBase):
 
         # update others
         if w2:
-            v2 = np.asarray(w2.values())
+            v2 = np.asarray(list(w2.values()))
             v2 *= (1 - values.sum()) / v2.sum()
             w.update((k, v) for k, v in zip(w2.keys(), v2))
 
@@ -176,7 +176,7 @@ class MultiElementBase(elementbase.ElementBase):
         elif t == 1:
             return cs["w"] * cs["cs"]
         else:
-            return sum(cls.cs_collapse(c) for c in cs.values())
+            return sum(c["w"] * cls.cs_collapse(c["cs"]) for c in cs.values())
 
     @classmethod
     def csdict_parse(cls, cs):
diff --git a/src/spectrocrunch/materials/multilayer.py b/src/spectrocrunch/materials/multilayer.py
index 4e5e039..9a143c0 100644
--- a/src/spectrocrunch/materials/multilayer.py
+++ b/src/spectrocrunch/materials/multilayer.py
@@ -199,9 +199,9 @@ class Multilayer(with_metaclass((Copyable, cache.Cache))):
         for layer in self:
             layer.markscatterer(name)
 
-    def ummarkscatterer(self):
+    def unmarkscatterer(self):
         for layer in self:
-            layer.ummarkscatterer()
+            layer.unmarkscatterer()
 
     @property
     def density(self):
@@ -217,7 +217,7 @@ class Multilayer(with_metaclass((Copyable, cache.Cache))):
 
     @property
     def xraythicknessout(self):
-        return np.vectorize(lambda layer: layer.xraythicknessin)(self)
+        return np.vectorize(lambda layer: layer.xraythicknessout)(self)
 
     def arealdensity(self):
         ret = collections.Counter()
diff --git a/src/spectrocrunch/materials/utils.py b/src/spectrocrunch/materials/utils.py
index a364023..5fcd9ea 100644
--- a/src/spectrocrunch/materials/utils.py
+++ b/src/spectrocrunch/materials/utils.py
@@ -7,7 +7,7 @@ def elemental_crosssections(dictin, dictout=None, w=1):
         dictout = {}
     for k, v in dictin.items():
         if isinstance(v["cs"], dict):
-            elemental_crosssections(v["cs"], w=v["w"], dictout=dictout)
+            elemental_crosssections(v["cs"], w=w * v["w"], dictout=dictout)
         else:
             if k in dictout:
                 dictout[k] += w * v["w"] * v["cs"]
-- 
2.43.0


From b8bcba8d536f2153f000688ce9039f968fc69c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:23 +0000
Subject: [PATCH 39/44] fix: transformations: copies independent, affine
 images, rigid and projective setters, rotation sign, homogeneous translation,
 frame change in place, rotation from points

---
 src/spectrocrunch/align/transform.py | 61 ++++++++++++++++------------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/src/spectrocrunch/align/transform.py b/src/spectrocrunch/align/transform.py
index 172efd4..f8c6a59 100755
--- a/src/spectrocrunch/align/transform.py
+++ b/src/spectrocrunch/align/transform.py
@@ -53,7 +53,7 @@ class LinearMapping(Mapping):
         m = LinearMapping(
             self.transfotype, dtype=self.dtype, cval=self.cval, **self.interpolationargs
         )
-        m.cof = self.cof
+        m.cof = self.cof.copy()
         return m
 
     def copy(self):
@@ -69,23 +69,24 @@ class LinearMapping(Mapping):
                 img, -self.cof[1::-1], cval=self.cval, **self.interpolationargs
             )
         else:
-            if self.islinearidentity():
+            if not self.isprojidentity():
+                raise NotImplementedError()
+            cof = self.cof / self.cof[2, 2]
+            if np.array_equal(cof[0:2, 0:2], np.identity(2)):
                 # shift: takes transformation vector for coordinates (y,x)
                 return shift(
-                    img, -self.cof[1::-1, 2], cval=self.cval, **self.interpolationargs
+                    img, -cof[1::-1, 2], cval=self.cval, **self.interpolationargs
                 )
-            elif self.isprojidentity():
+            else:
                 # affine_transform: takes change-of-frame matrix
                 #                   for coordinates (y,x)
                 return affine_transform(
                     img,
-                    self.cof[0:2, 0:2].T,
-                    offset=self.cof[1::-1, 2],
+                    cof[1::-1, 1::-1],
+                    offset=cof[1::-1, 2],
                     cval=self.cval,
                     **self.interpolationargs,
                 )
-            else:
-                raise NotImplementedError()
 
     def __repr__(self):
         if self.transfotype == transformationType.translation:
@@ -150,8 +151,7 @@ class LinearMapping(Mapping):
 
     def setrigid(self, theta, tx, ty):
         if self.transfotype == transformationType.translation:
-            # trn = self.gettranslation()
-            self.transfotype == transformationType.affine
+            self.transfotype = transformationType.rigid
             self.cof = self.getidentity()
         elif self.transfotype == transformationType.rigid:
             pass
@@ -173,7 +173,8 @@ class LinearMapping(Mapping):
         if self.transfotype == transformationType.translation:
             return 0, self.cof[0], self.cof[1]
         elif self.transfotype == transformationType.rigid:
-            return np.arccos(self.cof[0, 0]), self.cof[0, 2], self.cof[1, 2]
+            theta = np.arctan2(self.cof[1, 0], self.cof[0, 0])
+            return theta, self.cof[0, 2], self.cof[1, 2]
         else:
             raise ValueError(
                 "Transformation should be a translation or a rigid transformation"
@@ -235,13 +236,13 @@ class LinearMapping(Mapping):
                 [[1, 0, self.cof[0]], [0, 1, self.cof[1]]], dtype=self.dtype
             )
         elif self.transfotype == transformationType.rigid:
-            return self.cof[:, 0:2]
+            return self.cof[0:2, :]
         elif self.transfotype == transformationType.similarity:
-            return self.cof[:, 0:2]
+            return self.cof[0:2, :]
         elif self.transfotype == transformationType.affine:
-            return self.cof[:, 0:2]
+            return self.cof[0:2, :]
         elif self.transfotype == transformationType.projective:
-            return self.cof[:, 0:2]
+            return self.cof[0:2, :]
         else:
             raise ValueError("Transformation does not have an affine part")
 
@@ -252,11 +253,11 @@ class LinearMapping(Mapping):
             self.cof = self.getidentity()
             self.settranslation(trn)
         elif self.transfotype == transformationType.rigid:
-            self.transfotype == transformationType.projective
+            self.transfotype = transformationType.projective
         elif self.transfotype == transformationType.similarity:
-            self.transfotype == transformationType.projective
+            self.transfotype = transformationType.projective
         elif self.transfotype == transformationType.affine:
-            self.transfotype == transformationType.projective
+            self.transfotype = transformationType.projective
         elif self.transfotype == transformationType.projective:
             pass
         else:
@@ -360,7 +361,9 @@ class LinearMapping(Mapping):
 
     def _dot(self, C, right=True):
         cof, transfotype = self._combine(C, right=right)
-        ret = transform(transfotype, dtype=cof.dtype, cval=self.cval)
+        ret = transform(
+            transfotype, dtype=cof.dtype, cval=self.cval, **self.interpolationargs
+        )
         ret.cof[:] = cof
         return ret
 
@@ -391,11 +394,17 @@ class LinearMapping(Mapping):
         return C.inverse().before(self).before(C)
 
     def new_frame_inplace(self, C):
-        self.after_inplace(C.inverse())
+        Cinv = C.inverse()
         self.before_inplace(C)
+        self.after_inplace(Cinv)
 
     def inverse(self):
-        ret = transform(self.transfotype, dtype=self.cof.dtype, cval=self.cval)
+        ret = transform(
+            self.transfotype,
+            dtype=self.cof.dtype,
+            cval=self.cval,
+            **self.interpolationargs,
+        )
         if self.transfotype == transformationType.translation:
             ret.cof[:] = -self.cof
         else:
@@ -427,14 +436,14 @@ class LinearMapping(Mapping):
                 if xy.shape[0] == 2:
                     return xy + C
                 elif xy.shape[0] == 3:
-                    return np.append(xy[0:2] + C, xy[2])
+                    return np.append(xy[0:2] + C * xy[2], xy[2])
                 else:
                     raise ValueError("Shape of coordinates cannot be handled")
             else:
                 if xy.shape[0] == 2:
                     return xy + C[:, np.newaxis]
                 elif xy.shape[0] == 3:
-                    return np.vstack((xy[0:2, :] + C[:, np.newaxis], xy[2, :]))
+                    return np.vstack((xy[0:2, :] + C[:, np.newaxis] * xy[2, :], xy[2, :]))
                 else:
                     raise ValueError("Shape of coordinates cannot be handled")
         else:
@@ -444,7 +453,7 @@ class LinearMapping(Mapping):
         self.transfotype = transformobj.transfotype
         self.dtype = transformobj.dtype
         self.cval = transformobj.cval
-        self.cof[:] = transformobj.cof[:]
+        self.cof = transformobj.cof.copy()
 
     def _solvelinearsystem(self, A, b):
         sol = lstsq(A, b)
@@ -505,8 +514,8 @@ class LinearMapping(Mapping):
         S = np.dot(
             np.dot(X - censrc, np.identity(len(xdest))), np.transpose(Y - cendest)
         )
-        U, s, V = np.linalg.svd(S, full_matrices=False)
-        C = np.dot(V, np.transpose(U))
+        U, s, Vh = np.linalg.svd(S, full_matrices=False)
+        C = np.dot(np.transpose(Vh), np.transpose(U))
         self.setlinear(C)
 
         # self.settranslation(cendest - C.dot(censrc))
-- 
2.43.0


From 4577abedbb54c7d629ac91001bfa58fdd69b80e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:34 +0000
Subject: [PATCH 40/44] fix: saved objects: noise and escape of detectors,
 names of multilayers, calibrated diodes not fitted again, compounds by name
 not shared, all emission lines, restoring a state, empty quantities

---
 src/spectrocrunch/detectors/base.py             | 10 +++++++++-
 src/spectrocrunch/detectors/diode.py            |  6 +++---
 src/spectrocrunch/materials/compoundfromname.py |  4 ++--
 src/spectrocrunch/materials/multilayer.py       |  4 +++-
 src/spectrocrunch/materials/xrayspectrum.py     |  6 +++++-
 src/spectrocrunch/patch/jsonpickle.py           |  2 +-
 src/spectrocrunch/utils/units.py                |  2 +-
 7 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/spectrocrunch/detectors/base.py b/src/spectrocrunch/detectors/base.py
index 062e6b1..8dc635c 100644
--- a/src/spectrocrunch/detectors/base.py
+++ b/src/spectrocrunch/detectors/base.py
@@ -321,17 +321,25 @@ class SolidState(Material):
     def __getstate__(self):
         state = super(SolidState, self).__getstate__()
         state["ehole"] = self.ehole
+        state["escape"] = self.escape
+        state["pulse_processing_time"] = self.pulse_processing_time
         return state
 
     def __setstate__(self, state):
         super(SolidState, self).__setstate__(state)
         self.ehole = state["ehole"]
+        self.escape = state.get("escape", False)
+        self.pulse_processing_time = state.get("pulse_processing_time", 0)
 
     def __eq__(self, other):
         if isinstance(other, self.__class__):
             if not (super(SolidState, self).__eq__(other)):
                 return False
-            return self.ehole == other.ehole
+            return (
+                self.ehole == other.ehole
+                and self.escape == other.escape
+                and self.pulse_processing_time == other.pulse_processing_time
+            )
         else:
             return False
 
diff --git a/src/spectrocrunch/detectors/diode.py b/src/spectrocrunch/detectors/diode.py
index b5d24bd..7d2b580 100644
--- a/src/spectrocrunch/detectors/diode.py
+++ b/src/spectrocrunch/detectors/diode.py
@@ -1687,12 +1687,12 @@ class CalibratedPNdiode(PNdiode):
         self.menergy = energy
         self.mresponse = response
         self.fitresponse = fitresponse
-        self._init_response()
+        self._init_response(fit=fitresponse)
 
-    def _init_response(self):
+    def _init_response(self, fit=False):
         energy = self.menergy
         response = self.mresponse.to("A/W")  # or e/eV
-        if self.fitresponse:
+        if fit:
             self.fit_spectral_responsivity(energy, response)
         self.finterpol = scipy.interpolate.interp1d(
             energy, response, bounds_error=False, fill_value=np.nan
diff --git a/src/spectrocrunch/materials/compoundfromname.py b/src/spectrocrunch/materials/compoundfromname.py
index 97f2c43..86a21a5 100755
--- a/src/spectrocrunch/materials/compoundfromname.py
+++ b/src/spectrocrunch/materials/compoundfromname.py
@@ -1,6 +1,6 @@
 import warnings
 import re
-from copy import copy
+from copy import deepcopy
 from . import compound
 from . import compoundfromlist
 from . import compoundfromformula
@@ -420,7 +420,7 @@ def getnames():
 
 
 def factory(name):
-    return copy(compounddb[name])
+    return deepcopy(compounddb[name])
 
 
 def search(name):
diff --git a/src/spectrocrunch/materials/multilayer.py b/src/spectrocrunch/materials/multilayer.py
index 9a143c0..cff02e9 100644
--- a/src/spectrocrunch/materials/multilayer.py
+++ b/src/spectrocrunch/materials/multilayer.py
@@ -152,13 +152,15 @@ class Multilayer(with_metaclass((Copyable, cache.Cache))):
         super(Multilayer, self).__init__(force=True)
 
     def __getstate__(self):
-        return {"layers": self.layers, "geometry": self.geometry}
+        return {"layers": self.layers, "geometry": self.geometry, "name": self.name}
 
     def __setstate__(self, state):
         self.layers = state["layers"]
         for layer in self.layers:
             layer.parent = self
         self.geometry = state["geometry"]
+        self.name = state.get("name", "MULTILAYER")
+        super(Multilayer, self).__init__(force=True)
 
     def __eq__(self, other):
         if isinstance(other, self.__class__):
diff --git a/src/spectrocrunch/materials/xrayspectrum.py b/src/spectrocrunch/materials/xrayspectrum.py
index 79c711a..494aa89 100644
--- a/src/spectrocrunch/materials/xrayspectrum.py
+++ b/src/spectrocrunch/materials/xrayspectrum.py
@@ -382,6 +382,8 @@ class Shell(CompHashable, Copyable):
 
         return shells
 
+    _alllines = None
+
     def __init__(self, shell, fluolines=None):
         """
         Args:
@@ -410,7 +412,9 @@ class Shell(CompHashable, Copyable):
     def fluolines(self):
         if self._fluolines is None:
             # None means all lines, but I need them explicitely now
-            self._fluolines = FluoLine.factory(shells=[self])
+            if self._alllines is None:
+                self._alllines = FluoLine.factory(shells=[self])
+            return self._alllines
         return self._fluolines
 
     def markinfo(self):
diff --git a/src/spectrocrunch/patch/jsonpickle.py b/src/spectrocrunch/patch/jsonpickle.py
index cd6c0fb..0ae63d4 100755
--- a/src/spectrocrunch/patch/jsonpickle.py
+++ b/src/spectrocrunch/patch/jsonpickle.py
@@ -44,7 +44,7 @@ def restore(state, **kwargs):
     Returns:
         Any: data restored from state
     """
-    return jsonpickle.Unpickler.restore(state, reset=True, **kwargs)
+    return jsonpickle.Unpickler(**kwargs).restore(state, reset=True)
 
 
 class QuantityHandler(BaseHandler):
diff --git a/src/spectrocrunch/utils/units.py b/src/spectrocrunch/utils/units.py
index 542f8e8..c465d7f 100755
--- a/src/spectrocrunch/utils/units.py
+++ b/src/spectrocrunch/utils/units.py
@@ -97,7 +97,7 @@ def asqarray(x, forcequantity=True, **kwargs):
     Returns:
         x(Quantity|array):
     """
-    u = next(listtools.flatten(units(x)))
+    u = next(listtools.flatten(units(x)), None)
     if instance.isarraynot0(x):
         x = [magnitude(y, units=u) for y in x]
     else:
-- 
2.43.0


From 8017090471c1e85522a694634f322ba735e0ec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:30 +0000
Subject: [PATCH 41/44] fix: alignment: padded pixels next to missing data,
 images aligned pairwise, centroids along the right axis, cropping after
 shifts by fractions, padding before cropping, open-ended regions, HDF5 group
 as destination, last image as fraction

---
 src/spectrocrunch/align/align.py     | 45 +++++++++++++---------------
 src/spectrocrunch/align/alignDest.py |  4 +--
 src/spectrocrunch/align/transform.py | 24 ++++++++++-----
 src/spectrocrunch/math/center.py     |  4 +--
 src/spectrocrunch/process/nxalign.py |  3 +-
 5 files changed, 42 insertions(+), 38 deletions(-)

diff --git a/src/spectrocrunch/align/align.py b/src/spectrocrunch/align/align.py
index 67bc140..3cbf18f 100755
--- a/src/spectrocrunch/align/align.py
+++ b/src/spectrocrunch/align/align.py
@@ -283,7 +283,7 @@ class align(object):
         CroiInv = self.defaulttransform(ttype=transformationType.translation)
         if self.pre_align["roi"] is not None:
             # cof raw to pre-align
-            ty, tx = self.pre_align["roi"][:][0]
+            (ty, _), (tx, _) = self.pre_align["roi"]
             # cof pre-align to raw
             CroiInv.settranslation(-tx, -ty)
         for prealign_to_raw, prealign_to_pretransform, pretransfo in zip(
@@ -413,10 +413,7 @@ class align(object):
         return p
 
     def polygonempty(self, p):
-        if isinstance(p, Polygon):
-            return p.area == 0
-        else:
-            return p.length == 0
+        return p.is_empty
 
     def untransformedimagepolygon(self):
         add0 = 0.0
@@ -476,10 +473,21 @@ class align(object):
                 return ()
 
         xmin, ymin, xmax, ymax = p.bounds
-        xmin = int(np.floor(xmin))
-        ymin = int(np.floor(ymin))
-        xmax = int(np.ceil(xmax))
-        ymax = int(np.ceil(ymax))
+        if pad:
+            # All pixels that are (partially) covered
+            xmin = int(np.floor(xmin))
+            ymin = int(np.floor(ymin))
+            xmax = int(np.ceil(xmax))
+            ymax = int(np.ceil(ymax))
+        else:
+            # Only pixels that are completely covered
+            xmin = int(np.ceil(xmin))
+            ymin = int(np.ceil(ymin))
+            xmax = int(np.floor(xmax))
+            ymax = int(np.floor(ymax))
+            if xmax < xmin or ymax < ymin:
+                logger.warning("Cropping skipped because there would be nothing left.")
+                return ()
 
         return xmin, ymin, xmax, ymax
 
@@ -537,6 +545,7 @@ class align(object):
     def bextendfrommask(self, pairwise):
         return (
             self.post_transform_requested["crop"]
+            and not self.pre_transform_requested["pad"]
             and self.cval is np.nan
             and (
                 self.pre_align["roi"] is None
@@ -798,6 +807,7 @@ class align(object):
                 for j in range(self.source.nsets):
                     usealignedimage = (
                         aligntype != alignType.usetransfo
+                        and not (pairwise and self.alignonraw)
                         and j == refdatasetindex
                         and self.nopre_align()
                         and self.nopre_transform(i)
@@ -820,22 +830,7 @@ class align(object):
             self.pre_align["roi"] = None
         else:
 
-            def bdefault(a):
-                if a is None:
-                    return 0
-                else:
-                    return a
-
-            def edefault(a):
-                if a is None:
-                    return -1
-                else:
-                    return a
-
-            self.pre_align["roi"] = (
-                (bdefault(roi[0][0]), edefault(roi[0][1])),
-                (bdefault(roi[1][0]), edefault(roi[1][1])),
-            )
+            self.pre_align["roi"] = cliproi(self.source.imgsize, roi)
         self.calccof_prealign_to_raw()
 
     def align(
diff --git a/src/spectrocrunch/align/alignDest.py b/src/spectrocrunch/align/alignDest.py
index 416b799..1095d00 100755
--- a/src/spectrocrunch/align/alignDest.py
+++ b/src/spectrocrunch/align/alignDest.py
@@ -56,7 +56,7 @@ class alignDest(object):
         elif isinstance(dest, h5py.File) or isinstance(dest, h5py.Group):
             self.desttype = dataType.h5
             self.handle = dest
-            self.dir = "/"
+            self.dir = dest.name
             self.names = [s.strip(r"\/") for s in names]
             self.ext = extension
             # Datasets: self.dir+self.names[i]+self.ext
@@ -102,7 +102,7 @@ class alignDest(object):
             if self.dir == "/":
                 path = self.dir + "entry" + str(num)
             else:
-                path = self.dir + str(num)
+                path = self.dir + "/entry" + str(num)
         return self.h5_setnames(path)
 
     def h5_datasetscheck(self, shape, dtype):
diff --git a/src/spectrocrunch/align/transform.py b/src/spectrocrunch/align/transform.py
index f8c6a59..2a2f66c 100755
--- a/src/spectrocrunch/align/transform.py
+++ b/src/spectrocrunch/align/transform.py
@@ -59,24 +59,32 @@ class LinearMapping(Mapping):
     def copy(self):
         return self.__copy__()
 
+    def _shiftimage(self, img, yx):
+        """
+        :param np.ndarray img:
+        :param np.ndarray yx: change-of-frame translation vector
+                              for coordinates (y,x)
+        """
+        interpolationargs = self.interpolationargs
+        if np.array_equal(yx, np.round(yx)):
+            # No interpolation needed: neighbouring pixels should
+            # not contribute (they could be missing)
+            interpolationargs = dict(interpolationargs, order=0)
+        # shift: takes transformation vector for coordinates (y,x)
+        return shift(img, -yx, cval=self.cval, **interpolationargs)
+
     def transformimage(self, img):
         # self.cof: change-of-frame matrix for coordinates (x,y)
         if self.isidentity():
             return img
         if self.transfotype == transformationType.translation:
-            # shift: takes transformation vector for coordinates (y,x)
-            return shift(
-                img, -self.cof[1::-1], cval=self.cval, **self.interpolationargs
-            )
+            return self._shiftimage(img, self.cof[1::-1])
         else:
             if not self.isprojidentity():
                 raise NotImplementedError()
             cof = self.cof / self.cof[2, 2]
             if np.array_equal(cof[0:2, 0:2], np.identity(2)):
-                # shift: takes transformation vector for coordinates (y,x)
-                return shift(
-                    img, -cof[1::-1, 2], cval=self.cval, **self.interpolationargs
-                )
+                return self._shiftimage(img, cof[1::-1, 2])
             else:
                 # affine_transform: takes change-of-frame matrix
                 #                   for coordinates (y,x)
diff --git a/src/spectrocrunch/math/center.py b/src/spectrocrunch/math/center.py
index 5d24294..42d0e79 100755
--- a/src/spectrocrunch/math/center.py
+++ b/src/spectrocrunch/math/center.py
@@ -26,7 +26,7 @@ def _centroid(data):
         y, x = np.indices((ny, nx))
         cx = np.sum(x * data) / np.sum(data)
         cy = np.sum(y * data) / np.sum(data)
-        return np.array((cx, cy))
+        return np.array((cy, cx))
 
 
 def _fit(data):
@@ -39,7 +39,7 @@ def _fit(data):
         y, x = np.indices(data.shape)
         p, success = fitgaussian2d(x, y, data)
         if success:
-            ret = p[[0, 1]]
+            ret = p[[1, 0]]
     if success:
         return ret
     else:
diff --git a/src/spectrocrunch/process/nxalign.py b/src/spectrocrunch/process/nxalign.py
index f364151..62b299d 100755
--- a/src/spectrocrunch/process/nxalign.py
+++ b/src/spectrocrunch/process/nxalign.py
@@ -129,5 +129,6 @@ class Task(nxregulargrid.Task):
         elif refimageindex is None:  # pair-wise
             refimageindex = None
         else:  # fraction
-            refimageindex = int(round(refimageindex * refgrid.shape[refgrid.stackdim]))
+            nimages = refgrid.shape[refgrid.stackdim]
+            refimageindex = min(int(round(refimageindex * nimages)), nimages - 1)
         parameters["refimageindex"] = refimageindex
-- 
2.43.0


From f0528e303ce506b54730dd3bb1331471a37478d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:38 +0000
Subject: [PATCH 42/44] fix: XIA files: failing reads restored, cancelled maps
 and numbers as normalization, files of all lines grouped by detector, saving
 of counters and statistics, special characters in paths

---
 src/spectrocrunch/io/xiaedf.py | 154 ++++++++++++++++++++-------------
 1 file changed, 96 insertions(+), 58 deletions(-)

diff --git a/src/spectrocrunch/io/xiaedf.py b/src/spectrocrunch/io/xiaedf.py
index 56b1a69..7fe373c 100755
--- a/src/spectrocrunch/io/xiaedf.py
+++ b/src/spectrocrunch/io/xiaedf.py
@@ -1,5 +1,5 @@
 import os
-from glob import glob
+from glob import glob, escape
 import fabio
 import numpy as np
 import itertools
@@ -202,9 +202,12 @@ def xiasearch(
     onlyctrs=False,
 ):
     strict_radix = True
+    path = escape(path)
     if radix is None:
-        radix = "*"
+        radixmask = "*"
         strict_radix = False
+    else:
+        radixmask = escape(radix)
     if mapnum is None:
         mapnum = "[0-9][0-9][0-9][0-9]*"
     if instance.isnumber(mapnum):
@@ -217,7 +220,7 @@ def xiasearch(
             ctrlabel = "*"
 
         # Cannot be done unless using regex (or xianameparser.parse afterwards like done here)
-        mask = os.path.join(path, ctrformat().format(radix, ctrlabel, mapnum))
+        mask = os.path.join(path, ctrformat().format(radixmask, ctrlabel, mapnum))
         ctrfiles = glob(mask)
 
         def valid(f):
@@ -241,7 +244,7 @@ def xiasearch(
     if instance.isnumber(linenum):
         linenum = "{:04d}".format(linenum)
 
-    mask = os.path.join(path, xiaformat().format(radix, label, mapnum, linenum))
+    mask = os.path.join(path, xiaformat().format(radixmask, label, mapnum, linenum))
     files = glob(mask)
 
     def valid(f):
@@ -478,10 +481,10 @@ def xiagroupdetectors(files):
     files.sort(key=xiasortkey)
     keys = [xiagroupdetectorskey(f) for f in files]
     ret = collections.OrderedDict()
-    for detector, v0 in itertools.groupby(keys, operator.itemgetter(0)):
+    # Files of the same detector are not consecutive when there is more than one line or map
+    for detector, baselabel, filename in keys:
         xiagroupinit(ret, detector)
-        for baselabel, v1 in itertools.groupby(v0, operator.itemgetter(1)):
-            ret[detector][baselabel] = [v[-1] for v in v1]
+        ret[detector].setdefault(baselabel, []).append(filename)
     return ret
 
 
@@ -900,32 +903,40 @@ class xiadata(object):
         p = self._xiaconfig.keep_indexinginfo()
         self.onlydata()
         self._xiaconfig.freezeleveldatainfo(True)
-        yield
-        self._xiaconfig.restore_indexinginfo(p)
+        try:
+            yield
+        finally:
+            self._xiaconfig.restore_indexinginfo(p)
 
     @contextlib.contextmanager
     def env_indexing_onlystats(self):
         p = self._xiaconfig.keep_indexinginfo()
         self.onlystats()
         self._xiaconfig.freezeleveldatainfo(True)
-        yield
-        self._xiaconfig.restore_indexinginfo(p)
+        try:
+            yield
+        finally:
+            self._xiaconfig.restore_indexinginfo(p)
 
     @contextlib.contextmanager
     def env_indexing_onlycounters(self):
         p = self._xiaconfig.keep_indexinginfo()
         self.onlycounters()
         self._xiaconfig.freezeleveldatainfo(True)
-        yield
-        self._xiaconfig.restore_indexinginfo(p)
+        try:
+            yield
+        finally:
+            self._xiaconfig.restore_indexinginfo(p)
 
     @contextlib.contextmanager
     def env_indexing_allstats(self):
         p = self._xiaconfig.keep_indexinginfo()
         self.onlyicrocr(False)
         self._xiaconfig.freezeleveldatainfo(True)
-        yield
-        self._xiaconfig.restore_indexinginfo(p)
+        try:
+            yield
+        finally:
+            self._xiaconfig.restore_indexinginfo(p)
 
     @contextlib.contextmanager
     def env_cache(self):
@@ -1050,17 +1061,11 @@ class xiadata(object):
             axes = levelcache["index"]["axesdata"]
         if i < 0:
             i += self.ndim
-        if i not in axes:
-            j = listtools.where(axes, lambda x: isinstance(x, list))
-            if len(j) == 0:
-                axes = []
-            else:
-                axes = axes[j[0]]
-
-        if i in axes:
-            return axes.index(i)
-        else:
-            return None
+        for axis, dim in enumerate(axes):
+            # Dimensions which are indexed by lists have one axis
+            if dim == i or (isinstance(dim, list) and i in dim):
+                return axis
+        return None
 
     def _index_norm(self, norm, index):
         """Convert data indexing to norm indexing (i.e. remove channel and detector indexing) and apply to norm
@@ -1656,8 +1661,12 @@ class xiacompound(xiadata):
             nitems = data.dshape[0]
         else:
             nitems = data.shape[0]
+        if stats is False:
+            stats = None
+        if ctrs is False:
+            ctrs = None
         selfitems = self.getsaveitems(
-            nitems, copyctrs=ctrs is not None or ctrs is True, ctrnames=ctrnames
+            nitems, copyctrs=ctrs is not None, ctrnames=ctrnames
         )
 
         logger.debug("Saving {} ...".format(self))
@@ -1753,12 +1762,11 @@ class xiacompound(xiadata):
 
         if data.thislevelhasprocessing():
             # Items are not independent
-            if stats is not None or stats is True:
+            if stats is not None:
                 stats = data.allstats
-            if ctrs is not None or ctrs is True:
-                ctrs = data.counters[..., 0]
-                if not ctrnames:
-                    ctrnames = data.counterbasenames()
+            if ctrs is not None:
+                ctrnames, ind = data._selectcounters(ctrnames)
+                ctrs = data.counters[..., ind, 0]
             self._save_data(
                 selfitems,
                 data.data,
@@ -1788,28 +1796,43 @@ class xiacompound(xiadata):
                     )
                 else:
                     # selfitem: xiaimage, oitems[i]: xialine
-                    bctrsave = ctrs is not None or ctrs is True
+                    bctrsave = ctrs is not None
                     selfitem.save(oitems[i], xialabels=xialabels, stats=stats)
 
             if bctrsave:
                 ctrheaders = instance.asscalar(ctrheaders)
-                counters = data.counterbasenames()
-                if not ctrnames:
-                    ctrnames = counters
+                ctrnames, ind = data._selectcounters(ctrnames)
                 data = data.counters[..., 0]
-                # nctrs = data.shape[-1]
-                for k in ctrnames:
-                    try:
-                        i = counters.index(k)
-                    except ValueError:
-                        raise RuntimeError(
-                            "Counter {} is not in the list of available counters: {}".format(
-                                k, counters
-                            )
-                        )
+                for k, i in zip(ctrnames, ind):
                     img = fabio.edfimage.EdfImage(data=data[..., i], header=ctrheaders)
                     self._write(img, self._ctrformat.format(k))
 
+    def _selectcounters(self, ctrnames=None):
+        """
+        Args:
+            ctrnames(Optional(list(str))): counter names or base names
+
+        Returns:
+            tuple(list(str), list(int)): names and their index in the counters
+        """
+        counters = self.counternames_used()
+        if not ctrnames:
+            return counters, list(range(len(counters)))
+        basenames = [xianameparser.xiaparselabel(k)[0] for k in counters]
+        ind = []
+        for k in ctrnames:
+            if k in counters:
+                ind.append(counters.index(k))
+            elif k in basenames:
+                ind.append(basenames.index(k))
+            else:
+                raise RuntimeError(
+                    "Counter {} is not in the list of available counters: {}".format(
+                        k, counters
+                    )
+                )
+        return ctrnames, ind
+
     def datafilenames(self):
         """
         Args:
@@ -1886,6 +1909,13 @@ class xiacompound(xiadata):
         else:
             return []
 
+    def counternames_used(self):
+        items = self.getitems()
+        if items:
+            return items[0].counternames_used()
+        else:
+            return []
+
 
 class xialine(xiadata):
     def __init__(self, **kwargs):
@@ -2096,21 +2126,25 @@ class xialine(xiadata):
             img = fabio.edfimage.EdfImage(data=data[..., i], header=header)
             self._write(img, self._fileformat.format(xialabels[i]), makedir=i == 0)
 
-    def _save_stats(self, stats):
+    def _save_stats(self, stats, xialabels=None):
         """
         Args:
             stats(array): dimensions = nspec x nstats x ndet
+            xialabels(Optional(list)): len(xialabels) = ndet
 
         Returns:
             None
         """
         ndet = stats.shape[2]
         nstats = stats.shape[1] * ndet
+        detectors = [xiadetector_tonumber(label) for label in xialabels or []]
+        if len(detectors) != ndet or None in detectors:
+            detectors = range(ndet)
         header = {
             "xdata": 3,
             "xcorr": 0,
             "xnb": ndet,
-            "xdet": " ".join(str(i) for i in range(ndet)),
+            "xdet": " ".join(str(i) for i in detectors),
         }
 
         tmp = stats.reshape((stats.shape[0], nstats))
@@ -2141,13 +2175,13 @@ class xialine(xiadata):
             #    with data.env_indexing_onlydata():
             #        self._save_data(data,xialabels=xialabels)
 
-            if stats is not None or stats is True:
-                self._save_stats(data.allstats)
+            if stats is not None and stats is not False:
+                self._save_stats(data.allstats, xialabels=xialabels)
         else:
             self._save_data(data, xialabels=xialabels)
 
-            if stats is not None:
-                self._save_stats(stats)
+            if stats is not None and stats is not False:
+                self._save_stats(stats, xialabels=xialabels)
 
     def datafilenames(self):
         """
@@ -2283,6 +2317,9 @@ class xiaimage(xiacompound):
             self.search()
         return [xianameparser.parse(f).label for f in self._ctrfiles]
 
+    def counternames_used(self):
+        return [xianameparser.parse(f).label for f in self.ctrfilenames_used()]
+
     def headers(self, **kwargs):
         return [self.header(**kwargs)]
 
@@ -2327,18 +2364,19 @@ class xiaimage(xiacompound):
         if f is None:
             m = self._xiaconfig["norm"]["ctr"]
             try:
-                1 / m
-                # if instance.isnumber(m):
-                #    m = np.full(self.dshape[0:2],m)
+                1.0 / m
             except TypeError:
                 logger.warning(
                     'No "{}" counter for {} (set normalization counter = 1)'.format(
                         m, self
                     )
                 )
-                m = 1  # np.ones(self.dshape[0:2])
+                m = 1
+            m = np.full(self.dshape[:2], m)
         else:
-            m = self._getedfimage(f)
+            # Counters of a map which was cancelled have more pixels
+            nrow, ncol = self.dshape[:2]
+            m = self._getedfimage(f).data[:nrow, :ncol]
 
         return m
 
@@ -2396,7 +2434,7 @@ class xialine_number(xialine):
 
     def search(self):
         """Find data and statistics files"""
-        files = glob(self._fileformat.format("*"))
+        files = glob(escape(self._fileformat).format("*"))
         files.sort(key=xiasortkey)
 
         def valid(x):
-- 
2.43.0


From bbab5673401fddab9e378835c5d1f5822ce70196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:51 +0000
Subject: [PATCH 43/44] fix: alignment: existing results are found in
 directories with special characters

---
 src/spectrocrunch/align/alignDest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrocrunch/align/alignDest.py b/src/spectrocrunch/align/alignDest.py
index 1095d00..dc67046 100755
--- a/src/spectrocrunch/align/alignDest.py
+++ b/src/spectrocrunch/align/alignDest.py
@@ -145,7 +145,7 @@ class alignDest(object):
 
     def singlefile_datasetsexist(self, path):
         return any(
-            len(glob.glob(os.path.join(path, s) + "*" + self.ext)) != 0
+            len(glob.glob(glob.escape(os.path.join(path, s)) + "*" + self.ext)) != 0
             for s in self.names
         )
 
-- 
2.43.0


From 2e2da1537f71361ac45503d9581e5787acb4a931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:55 +0000
Subject: [PATCH 44/44] fix: full-field images: a single flat field, numbers
 compared as numbers, files in order, default dark of rebinned pixels, axes of
 regions

---
 src/spectrocrunch/fullfield/import_id21.py | 62 +++++++++-------------
 src/spectrocrunch/process/nxfullfield.py   |  5 +-
 2 files changed, 25 insertions(+), 42 deletions(-)

diff --git a/src/spectrocrunch/fullfield/import_id21.py b/src/spectrocrunch/fullfield/import_id21.py
index d044b28..760e720 100755
--- a/src/spectrocrunch/fullfield/import_id21.py
+++ b/src/spectrocrunch/fullfield/import_id21.py
@@ -53,20 +53,24 @@ def darklibrary(parameters):
 
     darkfiles = []
     for f in parameters["darklist"]:
-        darkfiles += glob.glob(f)
+        darkfiles += sorted(glob.glob(f))
 
     # Labels
     frametimelabel = parameters["frametimelabel"]
-    frametimedefault = str(parameters["frametimedefault"])
+    frametimedefault = float(parameters["frametimedefault"])
     dtype = eval(parameters["dtype"])
     nflabel = parameters["nbframeslabel"]
 
     # Library
     dark = defaultdict()
+    nrebin = parameters["rebin"][0] * parameters["rebin"][1]
     dark.setdefaultfactory(
         lambda frametime: {
-            "data": parameters["darkcurrentzero"]
-            + parameters["darkcurrentgain"] * float(frametime),
+            "data": (
+                parameters["darkcurrentzero"]
+                + parameters["darkcurrentgain"] * float(frametime)
+            )
+            * nrebin,
             "nframes": 1,
         }
     )
@@ -81,7 +85,7 @@ def darklibrary(parameters):
 
         # Frame time
         if frametimelabel in h:
-            frametime = h[frametimelabel]
+            frametime = float(h[frametimelabel])
         else:
             frametime = frametimedefault
 
@@ -137,31 +141,13 @@ def axesvalues(roi, parameters):
 
     # Sub region
     if parameters["roi"] is not None:
-        ax = parameters["roi"][1][0]
-        bx = parameters["roi"][1][1]
-        ay = parameters["roi"][0][0]
-        by = parameters["roi"][0][1]
-        if ax is None:
-            ax = 0
-        if bx is None:
-            bx = nx
-        if ay is None:
-            ay = 0
-        if by is None:
-            by = ny
-        if ax < 0:
-            ax += nx
-        if bx < 0:
-            bx += nx
-        if ay < 0:
-            ay += ny
-        if by < 0:
-            by += ny
+        ay, by, _ = slice(*parameters["roi"][0]).indices(ny)
+        ax, bx, _ = slice(*parameters["roi"][1]).indices(nx)
 
         x0 += ax
         y0 += ay
-        nx = bx - ax
-        ny = by - ay
+        nx = max(bx - ax, 0)
+        ny = max(by - ay, 0)
 
     # Rebin
     dx = parameters["rebin"][1]
@@ -201,11 +187,11 @@ def dataflatlibrary(parameters):
 
     datafiles = []
     for f in parameters["datalist"]:
-        datafiles += glob.glob(f)
+        datafiles += sorted(glob.glob(f))
 
     flatfiles = []
     for f in parameters["flatlist"]:
-        flatfiles += glob.glob(f)
+        flatfiles += sorted(glob.glob(f))
 
     # Labels
     stacklabel = parameters["stacklabel"]
@@ -237,9 +223,9 @@ def dataflatlibrary(parameters):
         if stackvalue is None:
             if stacklabel not in h:
                 continue
-            key = h[stacklabel]
+            key = float(h[stacklabel])
         else:
-            key = stackvalue
+            key = float(stackvalue)
 
         # ROI
         tmp = getroi(roilabel, h, fh)
@@ -264,9 +250,9 @@ def dataflatlibrary(parameters):
         if stackvalue is None:
             if stacklabel not in h:
                 continue
-            key = h[stacklabel]
+            key = float(h[stacklabel])
         else:
-            key = stackvalue
+            key = float(stackvalue)
 
         # ROI
         tmp = getroi(roilabel, h, fh)
@@ -302,7 +288,7 @@ def dataflatlibrary(parameters):
             n = len(files)
             if n == 1:
                 flat1[k] = files
-                flat2[k] = []
+                flat2[k] = files
             else:
                 flat1[k] = files[0 : n // 2]
                 flat2[k] = files[n // 2 :]
@@ -338,7 +324,7 @@ def getsingleimage(filename, darklib, parameters):
     """
     # Labels
     frametimelabel = parameters["frametimelabel"]
-    frametimedefault = str(parameters["frametimedefault"])
+    frametimedefault = float(parameters["frametimedefault"])
     dtype = eval(parameters["dtype"])
     nflabel = parameters["nbframeslabel"]
 
@@ -351,7 +337,7 @@ def getsingleimage(filename, darklib, parameters):
 
     # Frame time
     if frametimelabel in h:
-        frametime = h[frametimelabel]
+        frametime = float(h[frametimelabel])
     else:
         frametime = frametimedefault
 
@@ -374,7 +360,7 @@ def getnormalizedimage(fileslist, darklib, parameters):
 
     # Labels
     frametimelabel = parameters["frametimelabel"]
-    frametimedefault = str(parameters["frametimedefault"])
+    frametimedefault = float(parameters["frametimedefault"])
     dtype = eval(parameters["dtype"])
     nflabel = parameters["nbframeslabel"]
 
@@ -390,7 +376,7 @@ def getnormalizedimage(fileslist, darklib, parameters):
 
         # Frame time
         if frametimelabel in h:
-            frametime = h[frametimelabel]
+            frametime = float(h[frametimelabel])
         else:
             frametime = frametimedefault
 
diff --git a/src/spectrocrunch/process/nxfullfield.py b/src/spectrocrunch/process/nxfullfield.py
index 7801c5e..3ce3508 100755
--- a/src/spectrocrunch/process/nxfullfield.py
+++ b/src/spectrocrunch/process/nxfullfield.py
@@ -123,10 +123,7 @@ class Task(nxprocess.Task):
                 if signalflat1 is not None:
                     dsetflat1[index] = imgflat1
                     if signalflat2 is not None:
-                        if len(flat2[key]) == 0:
-                            dsetflat2[index] = dsetflat1[dsetslice]
-                        else:
-                            dsetflat2[index] = imgflat2
+                        dsetflat2[index] = imgflat2
 
             # Save additional processing info
             info = self.temp_nxresults.nxcollection("info")
-- 
2.43.0

