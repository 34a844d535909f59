From aaa93410ffb7b77c3125869dbf46387148d57df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:49 +0000
Subject: [PATCH 01/57] fix: rerun a call when one of its external sources
 disappeared

An external source that could not be read was skipped, so the call was treated
as up to date after the file had been deleted.
---
 lib/fbuild/db/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 099e6b4..2cb2cde 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -246,7 +246,8 @@ class Backend:
                 try:
                     d, file_id, file_digest = self.check_call_file(call_id, src)
                 except OSError:
-                    pass
+                    # We can't read the file anymore, so it changed.
+                    external_digests.append((None, src, None))
                 else:
                     if d:
                         external_digests.append((file_id, src, file_digest))
-- 
2.43.0


From 8c103138607f57a2615d5d23ccc6789b6e08060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:49 +0000
Subject: [PATCH 02/57] fix: sqlite forgot which calls use an external file
 when it changed

When a file changed, its ExternalSrc and ExternalDst rows were removed for all
of the calls, so every other call that had it as an external file (or the same
call, if it failed) was treated as up to date from then on.
---
 lib/fbuild/db/backend.py        |  7 ++-----
 lib/fbuild/db/sqlite_backend.py | 13 +++++--------
 2 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 2cb2cde..d3aa728 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -301,13 +301,10 @@ class Backend:
             return False, file_id, file_mtime, digest
 
         if file_id is not None:
-            # Since the function changed, all of the calls that used this
-            # function are dirty.
+            # Since the file changed, all of the calls that used this file are
+            # dirty.
             self.delete_file(file_name)
 
-            # The file_id is now invalid.
-            file_id = None
-
         # Now, add the file back to the database.
         file_id = self.save_file(file_id, file_name, file_mtime, digest)
 
diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 9e1a561..c0e3a98 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -513,17 +513,14 @@ class SqliteBackend(fbuild.db.backend.Backend):
 
         (file_id,), = rows
 
-        # And delete all of the related call files.
+        # Forget what we know about the contents of the file and delete all of
+        # the related call files. The row itself has to stay because it also
+        # tells us which calls have it as an external file: if that was lost,
+        # those calls would look like they don't depend on the file.
         self.cursor.execute(
             'DELETE FROM CallFile WHERE file_id=?',
             (file_id,))
 
         self.cursor.execute(
-            'DELETE FROM ExternalSrc WHERE file_id=?',
+            'UPDATE File SET file_mtime=NULL, file_digest=NULL WHERE file_id=?',
             (file_id,))
-
-        self.cursor.execute(
-            'DELETE FROM ExternalDst WHERE file_id=?',
-            (file_id,))
-
-        self.cursor.execute('DELETE FROM File WHERE file_name=?', (file_name,))
-- 
2.43.0


From 935a0bcd49e119d5de8f2145dd88a5f1d51d759b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:49 +0000
Subject: [PATCH 03/57] fix: sqlite dropped unchanged external dsts of a call

An external dst was only saved if its contents were new to the database, so a
call that wrote the same output again lost it, and did not run again after the
output was deleted.
---
 lib/fbuild/db/sqlite_backend.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index c0e3a98..f222274 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -441,17 +441,16 @@ class SqliteBackend(fbuild.db.backend.Backend):
         # ----------------------------------------------------------------------
 
         if dsts:
-            # We don't need to save a list here because we're only using it
-            # once.
-            # XXX: There's a python bug where you can't pass a generator that
-            # itself inserts into sqlite, so we need to force the generator.
-            dst_call_files = [self.check_call_file(call_id, dst)
-                for dst in dsts]
-
+            # We don't care about the contents of the dsts, so we only need
+            # their names.
             self.cursor.executemany(
-                'INSERT INTO ExternalDst (call_id,file_id) VALUES (?,?)',
-                ((call_id, file_id)
-                    for dirty, file_id, file_digest in dst_call_files if dirty))
+                'INSERT OR IGNORE INTO File (file_name) VALUES (?)',
+                ((dst,) for dst in dsts))
+
+            self.cursor.executemany('''
+                INSERT INTO ExternalDst (call_id,file_id)
+                SELECT ?, file_id FROM File WHERE file_name=?
+                ''', ((call_id, dst) for dst in dsts))
 
     # --------------------------------------------------------------------------
 
-- 
2.43.0


From f10052f23a705505c1fb88d3e4a744a372ccc3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:49 +0000
Subject: [PATCH 04/57] fix: do not save half of a call if an external source
 cannot be read

The call had already been stored when reading the file failed, so the next time
its result was returned from the cache even though the call had failed.
---
 lib/fbuild/db/backend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index d3aa728..e777e49 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -96,6 +96,11 @@ class Backend:
             external_dsts):
         """Saves the function call into the database."""
 
+        # Make sure we can read all of the external sources before we change
+        # anything, so that we don't end up with half of a call.
+        for src in external_srcs:
+            self.add_file(src)
+
         # Lock the db since we're updating data structures.
         if fun_dirty:
             # Since the function changed, delete out all the related data.
-- 
2.43.0


From e5cb8ac832abb75848666f9b94c5559846aa7107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:52 +0000
Subject: [PATCH 05/57] fix: track the active cached call per task instead of
 in a shared list

The list of running calls was shared by all of the threads and was not unwound
when a cached function raised an exception, so dependencies ended up with the
wrong function or were lost, and changes to a function that was called later
went unnoticed. The external files of a call that was made through the
scheduler were lost as well, since they were looked up in the frames of the
thread that happened to run it.
---
 lib/fbuild/db/database.py | 68 ++++++++++++++++++++++++---------------
 lib/fbuild/sched.py       |  7 +++-
 2 files changed, 48 insertions(+), 27 deletions(-)

diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index cf635b0..50073cd 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -1,7 +1,7 @@
+import contextvars
 import hashlib
 import itertools
 import pprint
-import threading
 
 import fbuild
 import fbuild.functools
@@ -16,6 +16,17 @@ import fbuild.db.sqlite_backend
 
 # ------------------------------------------------------------------------------
 
+class _ActiveCall:
+    """What we learn about a cached call while its function is running."""
+
+    def __init__(self, parent):
+        self.parent = parent
+        self.dependents = []
+        self.external_srcs = set()
+        self.external_dsts = set()
+
+# ------------------------------------------------------------------------------
+
 class Database:
     """L{Database} persistently stores the results of argument calls."""
 
@@ -26,7 +37,9 @@ class Database:
             return method(*args, **kwargs)
 
         self._ctx = ctx
-        self._callstack = []
+        # The innermost cached call that is running. The scheduler makes sure
+        # that a task inherits this from the code that created the task.
+        self._active_call = contextvars.ContextVar('active_call', default=None)
         self._explain = explain
         self._connected = False
 
@@ -94,10 +107,11 @@ class Database:
         else:
             outer_function = function
 
-        # If there is a call stack, then this function is a dependent of the
+        # If we're inside of a call, then this function is a dependent of the
         # parent.
-        if self._callstack:
-            self._callstack[-1].append(fun_name)
+        parent = self._active_call.get()
+        if parent is not None:
+            parent.dependents.append(fun_name)
 
         # Get the function digest.
         fun_digest = self.get_function_digest_from_map(fun_name)
@@ -173,16 +187,25 @@ class Database:
                 for dst in dirty_dsts:
                     self._ctx.logger.log('\t%s' % dst)
 
-        self._callstack.append([])
-
-        # Clear external srcs and dsts since they'll be recomputed inside
-        # the function.
-        external_srcs = set()
-        external_dsts = set()
+        # The external srcs and dsts will be recomputed inside the function.
+        active_call = _ActiveCall(parent)
+        token = self._active_call.set(active_call)
 
         # The call was dirty, so recompute it.
-        call_result = outer_function(*args, **kwargs)
-        fun_dependents = tuple(self._callstack.pop())
+        try:
+            call_result = outer_function(*args, **kwargs)
+        except BaseException:
+            # The parent might handle the error, but what it does then still
+            # depends on everything that we called.
+            if parent is not None:
+                parent.dependents.extend(active_call.dependents)
+            raise
+        finally:
+            self._active_call.reset(token)
+
+        fun_dependents = tuple(active_call.dependents)
+        external_srcs = active_call.external_srcs
+        external_dsts = active_call.external_dsts
 
         # Make sure the result is not a generator.
         assert not fbuild.inspect.isgenerator(call_result), \
@@ -316,17 +339,10 @@ class Database:
         a cached function and will error out if it is called from an
         uncached function."""
 
-        # Hack in additional dependencies
-        frame = fbuild.inspect.currentframe()
-
-        if frame is None:
-            return
-
-        frame = frame.f_back
-
-        while frame:
-            if frame.f_code == self.call.__code__:
-                frame.f_locals['external_srcs'].update(srcs)
-                frame.f_locals['external_dsts'].update(dsts)
+        # Add the dependencies to all of the calls that are running.
+        call = self._active_call.get()
 
-            frame = frame.f_back
+        while call is not None:
+            call.external_srcs.update(srcs)
+            call.external_dsts.update(dsts)
+            call = call.parent
diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index 35718c7..7f92a3d 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -1,5 +1,6 @@
 import collections
 import contextlib
+import contextvars
 import io
 import operator
 import queue
@@ -395,6 +396,10 @@ class Task:
         self.dependencies = []
         self.exc = None
 
+        # The function runs on behalf of the code that created the task, no
+        # matter which thread ends up running it.
+        self.context = contextvars.copy_context()
+
     def can_run(self):
         """Returns True if all of this task's dependencies are done. Otherwise
         return False."""
@@ -411,6 +416,6 @@ class Task:
         """Run the task's function."""
 
         try:
-            self.result = self.function(self.src)
+            self.result = self.context.run(self.function, self.src)
         except Exception as e:
             self.exc = e
-- 
2.43.0


From 1001785fa0e0679d08b861bd978411ea0c6024f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:32 +0000
Subject: [PATCH 06/57] fix: notice changes in called functions that were
 already rerun

A function only recorded the names of the cached functions called by its first
call, and it was only dirty as long as their own records were. If a changed
function was rerun before one of its callers was checked, or if it was first
called by a later call, the caller's results were never thrown away. Mutually
recursive functions made the check itself recurse forever.

Record the digest of everything a function called, directly or indirectly,
with the function itself. Look the function up again when saving, so that
calls running at the same time neither clash nor delete each other's results.
---
 lib/fbuild/db/backend.py        | 53 ++++++++++++++++++++++++++-------
 lib/fbuild/db/cache_backend.py  |  2 +-
 lib/fbuild/db/pickle_backend.py |  2 +-
 lib/fbuild/db/sqlite_backend.py | 13 ++++----
 4 files changed, 53 insertions(+), 17 deletions(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index e777e49..c775059 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -101,17 +101,34 @@ class Backend:
         for src in external_srcs:
             self.add_file(src)
 
+        # Another call of this function could have been saved since we were
+        # prepared.
+        fun_dirty, fun_id = self.check_function(fun_name)
+
+        fun_dependents = self.find_dependents(fun_name, fun_dependents)
+
         # Lock the db since we're updating data structures.
         if fun_dirty:
             # Since the function changed, delete out all the related data.
             if fun_id is not None:
                 self.delete_function(fun_name)
 
-                # The fun_id is now invalid.
+                # The fun_id and call_id are now invalid.
                 fun_id = None
+                call_id = None
 
             fun_id = self.save_function(fun_id, fun_name, fun_digest,
                                         fun_dependents)
+        else:
+            # This call may have called functions that the others didn't.
+            _, _, old_dependents = self.find_function(fun_name)
+            if not fun_dependents.items() <= old_dependents.items():
+                self.save_function(fun_id, fun_name, fun_digest,
+                                   dict(old_dependents, **fun_dependents))
+
+            # Someone could also have saved this very call already.
+            if call_id is None:
+                _, call_id, _ = self.find_call(fun_id, bound)
 
         # Get the real call_id to use in the call files.
         call_id = self.save_call(call_id, fun_id, bound, result)
@@ -121,33 +138,49 @@ class Backend:
 
     # --------------------------------------------------------------------------
 
-    def check_function(self, fun_name, already_checked=None):
+    def check_function(self, fun_name):
         """Returns whether or not the function is dirty. Returns True or false
         as well as the function's digest."""
 
         # Work around a circular import.
         from fbuild.db.database import Database
 
-        if already_checked is None:
-            already_checked = set()
-        already_checked.add(fun_name)
-
         fun_digest = Database.get_function_digest_from_map(fun_name)
         fun_id, old_digest, fun_dependents = self.find_function(fun_name)
 
         # Has the function changed?
         fun_dirty = old_digest is None or fun_digest != old_digest
         if not fun_dirty:
-            # Have any of it's dependents changed?
-            for dep in set(fun_dependents) - already_checked:
-                dep_dirty, _ = self.check_function(dep)
-                if dep_dirty:
+            # Have any of the functions it called changed, or been deleted?
+            for dep_name, dep_digest in fun_dependents.items():
+                if Database.get_function_digest_from_map(dep_name) != dep_digest or \
+                        self.find_function(dep_name)[0] is None:
                     fun_dirty = True
                     break
 
         return fun_dirty, fun_id
 
 
+    def find_dependents(self, fun_name, names):
+        """Returns the digests of the functions, and of all the functions that
+        they called. Since these are stored along with the function that is
+        calling them, it'll notice that one of them changed no matter if that
+        one was already rerun by someone else."""
+
+        # Work around a circular import.
+        from fbuild.db.database import Database
+
+        dependents = set(names)
+        for name in names:
+            fun_id, _, fun_dependents = self.find_function(name)
+            if fun_id is not None:
+                dependents.update(fun_dependents)
+        dependents.discard(fun_name)
+
+        return {name: Database.get_function_digest_from_map(name)
+            for name in dependents}
+
+
     def find_function(self, fun_name):
         """Returns the function record or None if it does not exist."""
         raise NotImplementedError
diff --git a/lib/fbuild/db/cache_backend.py b/lib/fbuild/db/cache_backend.py
index 6145abf..1294127 100644
--- a/lib/fbuild/db/cache_backend.py
+++ b/lib/fbuild/db/cache_backend.py
@@ -42,7 +42,7 @@ class CacheBackend(fbuild.db.backend.Backend):
             # This is the first time we've seen this function.
             fun_id = None
             fun_digest = None
-            fun_dependents = ()
+            fun_dependents = {}
         else:
             # The name is the id.
             fun_id = fun_name
diff --git a/lib/fbuild/db/pickle_backend.py b/lib/fbuild/db/pickle_backend.py
index a3af2a7..35da748 100644
--- a/lib/fbuild/db/pickle_backend.py
+++ b/lib/fbuild/db/pickle_backend.py
@@ -7,7 +7,7 @@ import fbuild.path
 # ------------------------------------------------------------------------------
 
 class PickleBackend(fbuild.db.cache_backend.CacheBackend):
-    _LATEST_VERSION = '2'
+    _LATEST_VERSION = '3'
 
     def _connect(self, filename):
         """Load the database from the file."""
diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index f222274..fc9738c 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -21,7 +21,7 @@ class SqliteBackend(fbuild.db.backend.Backend):
     A sqlite-based fbuild backend database.
     """
 
-    _LATEST_VERSION = '2'
+    _LATEST_VERSION = '3'
 
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
@@ -151,13 +151,15 @@ class SqliteBackend(fbuild.db.backend.Backend):
         rows = self.cursor.fetchall()
 
         if not rows:
-            return None, None, None
+            return None, None, {}
         else:
             (fun_id, fun_digest, fun_dependents), = rows
             if fun_dependents:
-                split_dependents = fun_dependents.split('\0')
+                # These are pairs of a name and a digest.
+                fields = iter(fun_dependents.split('\0'))
+                split_dependents = dict(zip(fields, fields))
             else:
-                split_dependents = []
+                split_dependents = {}
             return fun_id, fun_digest, split_dependents
 
 
@@ -169,7 +171,8 @@ class SqliteBackend(fbuild.db.backend.Backend):
         assert isinstance(fun_name, str), fun_name
         assert isinstance(fun_digest, str), fun_digest
 
-        joined_dependents = '\0'.join(fun_dependents)
+        joined_dependents = '\0'.join(
+            field for item in fun_dependents.items() for field in item)
 
         if fun_id is None:
             self.cursor.execute(
-- 
2.43.0


From 302e803c9012caa372d1cb192a3b7d5d569127ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:38 +0000
Subject: [PATCH 07/57] fix: do not crash on a called function whose module is
 not imported yet

If a function had called a cached function from a module that is imported on
demand, or that was removed since, looking up the digest raised a KeyError in
every build after the first.
---
 lib/fbuild/db/backend.py  |  6 +++++-
 lib/fbuild/db/database.py | 22 ++++++++++++++++++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index c775059..4c02b6a 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -177,9 +177,13 @@ class Backend:
                 dependents.update(fun_dependents)
         dependents.discard(fun_name)
 
-        return {name: Database.get_function_digest_from_map(name)
+        digests = {name: Database.get_function_digest_from_map(name)
             for name in dependents}
 
+        # Ignore the functions that don't exist anymore.
+        return {name: digest for name, digest in digests.items()
+            if digest is not None}
+
 
     def find_function(self, fun_name):
         """Returns the function record or None if it does not exist."""
diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index 50073cd..308a5fb 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -1,5 +1,6 @@
 import contextvars
 import hashlib
+import importlib
 import itertools
 import pprint
 
@@ -251,9 +252,26 @@ class Database:
             self._FUN_DIGESTS[fun_name] = lambda: self._digest_function(function)
 
     @classmethod
-    @fbuild.functools.cached
     def get_function_digest_from_map(self, fun_name):
-        """Get the function digest from the global function map."""
+        """Get the function digest from the global function map, or None if
+        there is no such function."""
+        if fun_name not in self._FUN_DIGESTS:
+            # The module could just not have been imported yet in this run.
+            parts = fun_name.split('.')
+            for i in range(1, len(parts)):
+                try:
+                    importlib.import_module('.'.join(parts[:i]))
+                except ImportError:
+                    break
+
+            if fun_name not in self._FUN_DIGESTS:
+                return None
+
+        return self._get_function_digest(fun_name)
+
+    @classmethod
+    @fbuild.functools.cached
+    def _get_function_digest(self, fun_name):
         return self._FUN_DIGESTS[fun_name]()
 
     @staticmethod
-- 
2.43.0


From 2138b07bfde89ca2b349acaf8ba196daa4829efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:23 +0000
Subject: [PATCH 08/57] fix: recreate a persistent object when its constructor
 changed

Creating an object was digested as the source of the metaclass method that all
of the classes share, so a change to a class's constructor never had an effect
on the objects in the database.
---
 lib/fbuild/db/database.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index 308a5fb..9a4bbbc 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -319,7 +319,21 @@ class Database:
     @staticmethod
     def _digest_function(function):
         """Compute the digest for a function or a function object."""
-        if fbuild.inspect.isroutine(function):
+        cls = getattr(function, '__self__', None)
+        if isinstance(cls, fbuild.db.PersistentMeta):
+            # We're creating a PersistentObject, so digest the source of all of
+            # the constructors it could go through.
+            src = ''
+            for base in cls.__mro__:
+                if '__init__' in base.__dict__:
+                    try:
+                        src += fbuild.inspect.getsource(
+                            base.__dict__['__init__'])
+                    except (TypeError, OSError):
+                        # The constructor is a builtin.
+                        pass
+            digest = hashlib.md5(src.encode()).hexdigest()
+        elif fbuild.inspect.isroutine(function):
             # The function is a function, method, or lambda, so digest
             # the source. If the function is a builtin, we will raise
             # an exception.
-- 
2.43.0


From 2c22aafeffba760122d545df1c169735986d6d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:23 +0000
Subject: [PATCH 09/57] fix: persistent objects with additional members are not
 equal

Only the members of the left object were compared, so a cached method could
return the result of another object that lacks some of the members.
---
 lib/fbuild/db/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/fbuild/db/__init__.py b/lib/fbuild/db/__init__.py
index be56d8c..e6e2fc0 100644
--- a/lib/fbuild/db/__init__.py
+++ b/lib/fbuild/db/__init__.py
@@ -141,6 +141,11 @@ class PersistentObject(metaclass=PersistentMeta):
         if not isinstance(other, type(self)):
             return False
 
+        # An object that has a member that we don't have is different.
+        if type(self) is type(other) and \
+                self.__dict__.keys() != other.__dict__.keys():
+            return False
+
         # Step through the members and exit if they aren't equal.
         try:
             for key in self.__dict__:
-- 
2.43.0


From 0b384f8954dde66a149355d1ddc071fe3cfcb9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:36 +0000
Subject: [PATCH 10/57] fix: sqlite always reported deleted functions and files
 as not cached

---
 lib/fbuild/db/sqlite_backend.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index fc9738c..1e78cb2 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -221,6 +221,8 @@ class SqliteBackend(fbuild.db.backend.Backend):
             'DELETE FROM Function WHERE fun_name=?',
             (fun_name,))
 
+        return self.cursor.rowcount > 0
+
     # --------------------------------------------------------------------------
 
     def _pickle_dumps(self, obj):
@@ -504,16 +506,16 @@ class SqliteBackend(fbuild.db.backend.Backend):
         """Remove the file from the database."""
 
         self.cursor.execute(
-            'SELECT file_id FROM File WHERE file_name=?',
+            'SELECT file_id, file_digest FROM File WHERE file_name=?',
             (file_name,))
 
         rows = self.cursor.fetchall()
 
         # Exit early if we got nothing returned.
         if not rows:
-            return
+            return False
 
-        (file_id,), = rows
+        (file_id, file_digest), = rows
 
         # Forget what we know about the contents of the file and delete all of
         # the related call files. The row itself has to stay because it also
@@ -526,3 +528,5 @@ class SqliteBackend(fbuild.db.backend.Backend):
         self.cursor.execute(
             'UPDATE File SET file_mtime=NULL, file_digest=NULL WHERE file_id=?',
             (file_id,))
+
+        return file_digest is not None
-- 
2.43.0


From 2cfaf0ec60157f540ec56b7d71143f02085678eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:36 +0000
Subject: [PATCH 11/57] fix: do not mark an outdated database as up to date
 before removing it

---
 lib/fbuild/db/backend.py        | 10 +++++++++-
 lib/fbuild/db/cache_backend.py  |  3 +++
 lib/fbuild/db/sqlite_backend.py |  4 ++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 4c02b6a..b417eeb 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -29,7 +29,9 @@ class Backend:
         self._connect(*args, **kwargs)
         if self._file_name is not None and self.version() != self.latest_version():
             # Database cache spec has been updated in the mean time, so re-create it.
-            self.close()
+            # Don't save it: that'd mark the old data as up to date, and someone
+            # might stop us before we removed it.
+            self._disconnect()
             self._file_name.remove()
             self._connect(*args, **kwargs)
 
@@ -38,6 +40,12 @@ class Backend:
         raise NotImplementedError
 
 
+    def _disconnect(self):
+        """Drop the connection to the database without saving it (backend
+        implementation)."""
+        raise NotImplementedError
+
+
     def close(self, *args, **kwargs):
         """Close the connection to the database backend."""
         raise NotImplementedError
diff --git a/lib/fbuild/db/cache_backend.py b/lib/fbuild/db/cache_backend.py
index 1294127..a601eae 100644
--- a/lib/fbuild/db/cache_backend.py
+++ b/lib/fbuild/db/cache_backend.py
@@ -18,6 +18,9 @@ class CacheBackend(fbuild.db.backend.Backend):
         self._external_srcs = {}
         self._external_dsts = {}
 
+    def _disconnect(self):
+        pass
+
     def close(self):
         """Clear the database cache."""
 
diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 1e78cb2..6a5db29 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -53,6 +53,10 @@ class SqliteBackend(fbuild.db.backend.Backend):
         self._version = rows[0][0] if rows else self._NULL_VERSION
 
 
+    def _disconnect(self):
+        self.conn.close()
+
+
     def close(self):
         # Update the version.
 
-- 
2.43.0


From 1de4cff4c54b1c51cf80bfae084c54009ac84fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:56 +0000
Subject: [PATCH 12/57] fix: do not lose the pickle database when stopped while
 saving it

---
 lib/fbuild/db/pickle_backend.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/lib/fbuild/db/pickle_backend.py b/lib/fbuild/db/pickle_backend.py
index 35da748..638f24d 100644
--- a/lib/fbuild/db/pickle_backend.py
+++ b/lib/fbuild/db/pickle_backend.py
@@ -1,5 +1,5 @@
 import io
-import pickle
+import os
 
 import fbuild.db.cache_backend
 import fbuild.path
@@ -53,21 +53,13 @@ class PickleBackend(fbuild.db.cache_backend.CacheBackend):
 
         s = f.getvalue()
 
-        # Try to save the state as atomically as possible. Unfortunately, if
-        # someone presses ctrl+c while we're saving, we might corrupt the db.
-        # So, we'll write to a temp file, then move the old state file out of
-        # the way, then rename the temp file to the filename.
+        # Save the state atomically: we'll write to a temp file, then replace
+        # the old state file with it. This way, no matter when we get stopped
+        # there always is a complete state.
         path = fbuild.path.Path(self._file_name)
         tmp = path + '.tmp'
-        old = path + '.old'
 
         with open(tmp, 'wb') as f:
             f.write(s)
 
-        if path.exists():
-            path.rename(old)
-
-        tmp.rename(path)
-
-        if old.exists():
-            old.remove()
+        os.replace(tmp, path)
-- 
2.43.0


From 6429a0d3cc2f92ab78f2e162deac27c8a8126835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:56 +0000
Subject: [PATCH 13/57] fix: start clean if the pickle database cannot be
 loaded

---
 lib/fbuild/db/pickle_backend.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/lib/fbuild/db/pickle_backend.py b/lib/fbuild/db/pickle_backend.py
index 638f24d..6b1dc40 100644
--- a/lib/fbuild/db/pickle_backend.py
+++ b/lib/fbuild/db/pickle_backend.py
@@ -19,19 +19,19 @@ class PickleBackend(fbuild.db.cache_backend.CacheBackend):
                 unpickler = fbuild.db.backend.Unpickler(self._ctx, f)
                 try:
                     data = unpickler.load()
-                except AttributeError:
-                    # Likely a moved member. Just start clean!
-                    super()._connect()
-                    return
-
-                if len(data) == 6:
-                    # This was created before DB versioning was introduced. Use
-                    # a fake version.
-                    data = (self._NULL_VERSION,) + data
 
-                self._version, self._functions, self._function_calls, \
-                    self._files, self._call_files, self._external_srcs, \
-                    self._external_dsts = data
+                    if len(data) == 6:
+                        # This was created before DB versioning was introduced.
+                        # Use a fake version.
+                        data = (self._NULL_VERSION,) + data
+
+                    self._version, self._functions, self._function_calls, \
+                        self._files, self._call_files, self._external_srcs, \
+                        self._external_dsts = data
+                except Exception:
+                    # Likely a moved member or module, an incomplete file, or a
+                    # different format. Just start clean!
+                    super()._connect()
         else:
             super()._connect()
 
-- 
2.43.0


From b6de6d7c012fdcefa603c653a26c260dac7aab45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:56 +0000
Subject: [PATCH 14/57] fix: sqlite ignores calls with values that do not exist
 anymore

---
 lib/fbuild/db/sqlite_backend.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 6a5db29..2086a68 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -294,12 +294,16 @@ class SqliteBackend(fbuild.db.backend.Backend):
                 FROM Call
                 WHERE fun_id=?
                 ''', (fun_id,)):
-            old_bound = self._pickle_loads(old_bound)
+            try:
+                old_bound = self._pickle_loads(old_bound)
 
-            if bound == old_bound:
-                old_result = self._pickle_loads(old_result)
+                if bound == old_bound:
+                    old_result = self._pickle_loads(old_result)
 
-                return False, call_id, old_result
+                    return False, call_id, old_result
+            except (AttributeError, ImportError):
+                # Likely a moved member or module, so we can't use this call.
+                pass
         else:
             return True, None, None
 
-- 
2.43.0


From 249dba17f62e8999c0f16c9bf1c6675d07b9de32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:56 +0000
Subject: [PATCH 15/57] fix: sqlite saved the database in spite of
 --do-not-save-database

---
 lib/fbuild/db/sqlite_backend.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 2086a68..7f333ba 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -137,6 +137,10 @@ class SqliteBackend(fbuild.db.backend.Backend):
     # --------------------------------------------------------------------------
 
     def cache(self, *args, **kwargs):
+        if self._ctx.options.do_not_save_database:
+            # Without a commit everything gets rolled back in the end.
+            return super().cache(*args, **kwargs)
+
         with self.conn:
             return super().cache(*args, **kwargs)
 
-- 
2.43.0


From c8697a7d0df5e0b5ceb689df4152e495484b3083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 16/57] fix: modifying the result or an argument of a call
 modified the cache

---
 lib/fbuild/db/backend.py       | 18 ++++++++++++++++++
 lib/fbuild/db/cache_backend.py | 10 ++++++++--
 lib/fbuild/db/database.py      |  5 +++++
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index b417eeb..5a6852d 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -1,3 +1,4 @@
+import copy
 import io
 import pickle
 import time
@@ -6,6 +7,23 @@ from fbuild.path import Path
 
 # ------------------------------------------------------------------------------
 
+def copy_containers(obj):
+    """Copy the object and all of the containers inside of it."""
+
+    if isinstance(obj, dict):
+        new = copy.copy(obj)
+        for key, value in obj.items():
+            new[key] = copy_containers(value)
+        return new
+    elif type(obj) in (list, tuple):
+        return type(obj)(copy_containers(value) for value in obj)
+    elif type(obj) is set:
+        return set(obj)
+    else:
+        return obj
+
+# ------------------------------------------------------------------------------
+
 class Backend:
     # Version used for databases created before db versioning was introduced.
     _NULL_VERSION = '0'
diff --git a/lib/fbuild/db/cache_backend.py b/lib/fbuild/db/cache_backend.py
index a601eae..b8cff3f 100644
--- a/lib/fbuild/db/cache_backend.py
+++ b/lib/fbuild/db/cache_backend.py
@@ -1,4 +1,5 @@
 import fbuild.db.backend
+from fbuild.db.backend import copy_containers
 
 # ------------------------------------------------------------------------------
 
@@ -153,8 +154,10 @@ class CacheBackend(fbuild.db.backend.Backend):
         # it with the same arguments.
         for call_index, (old_bound, old_result) in enumerate(datas):
             if bound == old_bound:
-                # We've found a matching call so just return the index.
-                return False, (fun_id, call_index), old_result
+                # We've found a matching call so just return the index. Since
+                # the caller might modify the result, give it its own copy.
+                return False, (fun_id, call_index), copy_containers(
+                    old_result)
 
         # Turns out we haven't called it with these args.
         return True, None, None
@@ -179,6 +182,9 @@ class CacheBackend(fbuild.db.backend.Backend):
             assert fun_id is fun_name, (fun_id, fun_name)
             assert isinstance(call_index, int), call_index
 
+        # The caller might modify it later on.
+        result = copy_containers(result)
+
         try:
             datas = self._function_calls[fun_name]
         except KeyError:
diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index 9a4bbbc..2d6b76c 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -11,6 +11,7 @@ import fbuild.path
 import fbuild.rpc
 
 import fbuild.db
+import fbuild.db.backend
 import fbuild.db.pickle_backend
 import fbuild.db.cache_backend
 import fbuild.db.sqlite_backend
@@ -132,6 +133,10 @@ class Database:
                     srcs,
                     dsts)
 
+        # The function could modify its arguments, but the result belongs to the
+        # ones that it was called with.
+        call_bound = fbuild.db.backend.copy_containers(call_bound)
+
         dirty_dsts = set()
 
         # Check if we have a result. If not, then we're dirty.
-- 
2.43.0


From 0693604f8daa8a4a8f718dfd209adcb90df040d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:02 +0000
Subject: [PATCH 17/57] fix: an overriding cached method got the result of the
 one it overrides

---
 lib/fbuild/db/database.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index 2d6b76c..5fa2454 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -304,6 +304,20 @@ class Database:
                 if hasattr(wrapped_function, '__self__'):
                     is_bound_method = True
                     cls = wrapped_function.__self__.__class__
+
+                    # If we're calling an overridden method through super(),
+                    # don't confuse it with the one that overrides it.
+                    overridden = False
+                    for base in cls.__mro__:
+                        member = base.__dict__.get(function.__name__)
+                        if getattr(member, 'method', None) is \
+                                wrapped_function.__func__:
+                            if overridden and \
+                                    isinstance(base, fbuild.db.PersistentMeta):
+                                cls = base
+                            break
+                        elif member is not None:
+                            overridden = True
                 else:
                     assert member_of, function
                     cls = member_of
-- 
2.43.0


From 606892c052128314882c6dc9aca945108e0982b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:56 +0000
Subject: [PATCH 18/57] fix: shutting down the scheduler could hang

A worker that waits for a nested map reads the queue too. If it took the
None that was meant for another worker, that one never woke up. This happened
if a task failed while other ones were still running.
---
 lib/fbuild/sched.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index 7f92a3d..1be0dca 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -306,12 +306,15 @@ class Scheduler:
     def shutdown(self):
         """Tell the worker threads to shut down."""
 
-        # make sure we wake the threads before we kill them.
+        # Tell all of the threads before we wake any of them, so that none of
+        # them goes back to sleep.
+        for thread in self.__threads:
+            thread.shutdown()
+
         for thread in self.__threads:
             self.__ready_queue.put(None)
 
         for thread in self.__threads:
-            thread.shutdown()
             thread.join()
 
         # Reset our thread list.
@@ -350,6 +353,11 @@ class WorkerThread(threading.Thread):
             # let the main thread know we got a SIGINT
             _thread.interrupt_main()
             raise
+        finally:
+            # One of the threads could've taken more than one wake up call, so
+            # pass it on to the next one.
+            if self.__finished:
+                self.__ready_queue.put(None)
 
     def read_task(self, *args, **kwargs):
         """
-- 
2.43.0


From 6f8cf745d737c90375fc93ed69084b3289790d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:56 +0000
Subject: [PATCH 19/57] fix: tasks that called sys.exit() killed their worker
 thread

The map failed with an AttributeError instead, and the next one never
returned if that was the last worker.
---
 lib/fbuild/sched.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index 1be0dca..b179fdf 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -425,5 +425,9 @@ class Task:
 
         try:
             self.result = self.context.run(self.function, self.src)
-        except Exception as e:
+        except KeyboardInterrupt as e:
+            # Let the worker thread know about it too.
+            self.exc = e
+            raise
+        except BaseException as e:
             self.exc = e
-- 
2.43.0


From dd3fe9d92c261343b1441032da78c3a8b21211fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:56 +0000
Subject: [PATCH 20/57] fix: do not run cancelled tasks

If a task failed, the ones that were still queued were run nevertheless,
while the caller was already handling the error and saving the database.
---
 lib/fbuild/sched.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index b179fdf..43c0020 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -379,6 +379,11 @@ class WorkerThread(threading.Thread):
                 return False
 
             done_queue, task = queue_task
+
+            # Don't run the tasks that were cancelled while they were queued.
+            if task.done:
+                return True
+
             try:
                 task.run()
             finally:
-- 
2.43.0


From facaa60ce2ffd65ad0311132919706c12257de00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:56 +0000
Subject: [PATCH 21/57] fix: name the files of dependency loops of three and
 more files

---
 lib/fbuild/sched.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index 43c0020..ca041af 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -295,6 +295,17 @@ class Scheduler:
                     if task in dep.dependencies and dep in task.dependencies:
                         recursive_srcs.add(frozenset((task.src, dep.src)))
 
+            if not recursive_srcs:
+                # There are more than two tasks in the loop. Each of the tasks
+                # left over waits for another one, so we'll run into it.
+                path = [next(task for task in tasks if not task.done)]
+                while path.count(path[-1]) == 1:
+                    path.append(next(
+                        dep for dep in path[-1].dependencies if not dep.done))
+
+                recursive_srcs.add(frozenset(
+                    task.src for task in path[path.index(path[-1]):]))
+
             raise DependencyLoop(recursive_srcs)
 
         return results
-- 
2.43.0


From c693bd11ec85b0fb70c2196bad141ea7d003870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:56 +0000
Subject: [PATCH 22/57] fix: interruptible() released the lock of another
 thread

If it was used outside of a task, or inside of another interruptible block, it
released the controlling lock whoever was holding it, and so let two tasks run
at the same time.
---
 lib/fbuild/sched.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index ca041af..1f6af6b 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -89,8 +89,9 @@ class Scheduler:
             import fbuild.console
             logger = fbuild.console.Log()
 
-        # Set up the controlling lock.
-        self.__controlling_lock = threading.Lock()
+        # Set up the controlling lock. This has to know its owner, so that
+        # nobody else can release it.
+        self.__controlling_lock = threading.RLock()
 
         # Spin up our threads!
         for i in range(threadcount):
-- 
2.43.0


From 211b4a1d278e3ed8a0fb160bb9404f3950829793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:56 +0000
Subject: [PATCH 23/57] fix: calls right after starting the rpc thread could
 fail

---
 lib/fbuild/rpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index e8f6b0e..fbbedde 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -77,8 +77,8 @@ class RPC(threading.Thread):
     def run(self):
         """Run the rpc thread."""
 
-        self._started.set()
         self._running = True
+        self._started.set()
 
         try:
             while True:
-- 
2.43.0


From 10d505e9c795659d1bf5a4e4054b596a87f1e3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:56 +0000
Subject: [PATCH 24/57] fix: do not wait forever for an rpc thread that ended

A fatal error in the handler ends the thread, but it left the callers waiting
whose calls were still queued. Joining the thread twice at the same time could
do so as well.
---
 lib/fbuild/rpc.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index fbbedde..4f055c1 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -102,7 +102,16 @@ class RPC(threading.Thread):
         except BaseException as err:
             raise
         finally:
-            self._running = False
+            # Don't keep those waiting who'll not get an answer anymore.
+            with self._lock:
+                self._running = False
+
+                while not self._queue.empty():
+                    msg = self._queue.get()
+                    if msg is not _NULL:
+                        event, result, args, kwargs = msg
+                        result.result = RPCNotRunning()
+                        event.set()
 
     def _process(self, msg):
         # Break up the message.
@@ -123,10 +132,12 @@ class RPC(threading.Thread):
     def join(self, *args, **kwargs):
         """Inform the thread to shut down."""
 
-        if self._running:
-            with self._lock:
-                # Shut down the queue first.
+        with self._lock:
+            if self._running:
+                # Shut down the queue first. It'll still finish the calls that
+                # were made before.
+                self._running = False
                 self._queue.put(_NULL)
-                self._queue.join()
 
-                super().join(*args, **kwargs)
+        if self._started.is_set():
+            super().join(*args, **kwargs)
-- 
2.43.0


From 52ed9503ef88a2632669ca92a6e135d5fb79dc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:56 +0000
Subject: [PATCH 25/57] fix: rpc calls raised results that are exceptions

---
 lib/fbuild/rpc.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index 4f055c1..6c1df1a 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -20,6 +20,7 @@ class _Result:
 
     def __init__(self):
         self.result = _NULL
+        self.exc = None
 
 # ------------------------------------------------------------------------------
 
@@ -61,13 +62,13 @@ class RPC(threading.Thread):
         # Wait for the message to be processed.
         event.wait()
 
+        # Raise any exceptions we've received.
+        if result.exc is not None:
+            raise result.exc
+
         assert result.result is not _NULL, "function failed to get called!"
 
-        # Raise any exceptions we've received.
-        if isinstance(result.result, BaseException):
-            raise result.result
-        else:
-            return result.result
+        return result.result
 
     def start(self, *args, **kwargs):
         super().start(*args, **kwargs)
@@ -110,7 +111,7 @@ class RPC(threading.Thread):
                     msg = self._queue.get()
                     if msg is not _NULL:
                         event, result, args, kwargs = msg
-                        result.result = RPCNotRunning()
+                        result.exc = RPCNotRunning()
                         event.set()
 
     def _process(self, msg):
@@ -120,10 +121,10 @@ class RPC(threading.Thread):
         try:
             result.result = self._handler(*args, **kwargs)
         except Exception as err:
-            result.result = err
+            result.exc = err
         except BaseException as err:
             # Let the client know that we had a fatal error.
-            result.result = err
+            result.exc = err
             raise
         finally:
             # Let the client know that we finished.
-- 
2.43.0


From fc58312415768543ee7c8750917457e690dfb928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:03 +0000
Subject: [PATCH 26/57] fix: an rpc call after an interrupted one could return
 too early

The event of the interrupted call was used for the next one, so the answer to
the former woke up the latter. So the state was not saved if the build was
interrupted while it was waiting for the database.
---
 lib/fbuild/rpc.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index 6c1df1a..697aec3 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -60,7 +60,13 @@ class RPC(threading.Thread):
             self._queue.put(msg)
 
         # Wait for the message to be processed.
-        event.wait()
+        try:
+            event.wait()
+        except BaseException:
+            # We've been interrupted, but the message will still be processed,
+            # so don't let it wake us up in the next call.
+            del self._events.event
+            raise
 
         # Raise any exceptions we've received.
         if result.exc is not None:
-- 
2.43.0


From adfb3d00e870080d9d16132b51f99b87a80c4208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:07 +0000
Subject: [PATCH 27/57] fix: start the rpc thread with its own event

threading.Thread has got a _started too, which it sets before it calls run(), so
that start() still could return before the thread accepted any calls.
---
 lib/fbuild/rpc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index 697aec3..de6b8a3 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -34,7 +34,8 @@ class RPC(threading.Thread):
         self._lock = threading.Lock()
         self._queue = queue.Queue()
         self._events = threading.local()
-        self._started = threading.Event()
+        # Not called `_started`, because the thread's got one of its own.
+        self._listening = threading.Event()
         self._running = False
 
     def call(self, *args, **kwargs):
@@ -79,13 +80,13 @@ class RPC(threading.Thread):
     def start(self, *args, **kwargs):
         super().start(*args, **kwargs)
 
-        self._started.wait()
+        self._listening.wait()
 
     def run(self):
         """Run the rpc thread."""
 
         self._running = True
-        self._started.set()
+        self._listening.set()
 
         try:
             while True:
@@ -146,5 +147,5 @@ class RPC(threading.Thread):
                 self._running = False
                 self._queue.put(_NULL)
 
-        if self._started.is_set():
+        if self._listening.is_set():
             super().join(*args, **kwargs)
-- 
2.43.0


From 0a710d4227ec47cbba991750808c18e89db2b5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:59 +0000
Subject: [PATCH 28/57] fix: don't wait for an rpc thread that just starts

join() could find that the thread doesn't run yet, so not tell it to end, but
then wait for it.
---
 lib/fbuild/rpc.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index de6b8a3..94fc7ad 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -85,8 +85,9 @@ class RPC(threading.Thread):
     def run(self):
         """Run the rpc thread."""
 
-        self._running = True
-        self._listening.set()
+        with self._lock:
+            self._running = True
+            self._listening.set()
 
         try:
             while True:
@@ -141,11 +142,13 @@ class RPC(threading.Thread):
         """Inform the thread to shut down."""
 
         with self._lock:
+            listening = self._listening.is_set()
+
             if self._running:
                 # Shut down the queue first. It'll still finish the calls that
                 # were made before.
                 self._running = False
                 self._queue.put(_NULL)
 
-        if self._listening.is_set():
+        if listening:
             super().join(*args, **kwargs)
-- 
2.43.0


From ea323705e615c115f4989eeed6f665191a043f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 29/57] fix: keep the pieces of log lines together

Threads that don't buffer their messages wrote to the console at any time, even
in between of the pieces of a line that another thread was writing.
---
 lib/fbuild/console.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/fbuild/console.py b/lib/fbuild/console.py
index e7c475d..d3a5d9a 100644
--- a/lib/fbuild/console.py
+++ b/lib/fbuild/console.py
@@ -137,7 +137,8 @@ class Log:
                 if msg.endswith('\n'):
                     self.flush()
             else:
-                self._write(msg, **kwargs)
+                with self._lock:
+                    self._write(msg, **kwargs)
 
     def _write(self, msg, color=None, verbose=0):
         # make sure message is a string
@@ -177,13 +178,14 @@ class Log:
 
         msg = msg.ljust(self.maxlen) + ': '
 
-        if result is None:
-            self.write(msg, color=color, verbose=verbose)
-            self.write('\n', verbose=verbose + 1)
-        else:
-            self.write(msg, verbose=verbose)
-            self.write(result, color=color, verbose=verbose)
-            self.write('\n', verbose=verbose)
+        with self._lock:
+            if result is None:
+                self.write(msg, color=color, verbose=verbose)
+                self.write('\n', verbose=verbose + 1)
+            else:
+                self.write(msg, verbose=verbose)
+                self.write(result, color=color, verbose=verbose)
+                self.write('\n', verbose=verbose)
 
     def passed(self, msg='ok', color='green', **kwargs):
         self.log(msg, color=color, **kwargs)
-- 
2.43.0


From 4a6a1c16fd3de52e12a3a2e54c5d21cafdb97a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:35 +0000
Subject: [PATCH 30/57] fix: log any object from a task

Messages were only made strings after looking for a newline at their end.
---
 lib/fbuild/console.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/console.py b/lib/fbuild/console.py
index d3a5d9a..04a8c4f 100644
--- a/lib/fbuild/console.py
+++ b/lib/fbuild/console.py
@@ -128,6 +128,9 @@ class Log:
             self.flush()
 
     def write(self, msg, *, buffer=True, **kwargs):
+        # make sure message is a string
+        msg = str(msg)
+
         if not buffer or self._threadcount == 1:
             with self._lock:
                 self._write(msg, **kwargs)
@@ -141,8 +144,6 @@ class Log:
                     self._write(msg, **kwargs)
 
     def _write(self, msg, color=None, verbose=0):
-        # make sure message is a string
-        msg = str(msg)
         if self.file:
             self.file.write(msg)
 
-- 
2.43.0


From d307b61296675439cf5fbb7ff86d9b3b8d770ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 31/57] fix: names with newlines matched file patterns wrongly

---
 lib/fbuild/fnmatch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/fnmatch.py b/lib/fbuild/fnmatch.py
index 1947bc4..1f25f62 100644
--- a/lib/fbuild/fnmatch.py
+++ b/lib/fbuild/fnmatch.py
@@ -85,7 +85,8 @@ def translate(pat):
     There is no way to quote meta-characters.
     """
 
-    return _translate(0, pat, '')[2] + '$'
+    # Names could have newlines in them.
+    return '(?s:%s)\\Z' % _translate(0, pat, '')[2]
 
 def _translate(i, pat, end):
     res = ''
-- 
2.43.0


From d09d12b794ec021a59329668e7bc0157f1de1432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 32/57] fix: '**' below anything but a directory found a file
 that does not exist

---
 lib/fbuild/glob.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/glob.py b/lib/fbuild/glob.py
index b0c8281..453bff6 100644
--- a/lib/fbuild/glob.py
+++ b/lib/fbuild/glob.py
@@ -108,7 +108,8 @@ def glob0(dirname, basename):
 
 def glob2(dirname, pattern):
     assert _isrecursive(pattern)
-    yield pattern[:0]
+    if not dirname or os.path.isdir(dirname):
+        yield pattern[:0]
     for item in _rlistdir(dirname):
         yield item
 
-- 
2.43.0


From a36f90be96ad0edc02eff1727f7b282c1df4c7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 33/57] fix: nested patterns ignored what to exclude

---
 lib/fbuild/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/path.py b/lib/fbuild/path.py
index 9fa5b12..ea8ce55 100644
--- a/lib/fbuild/path.py
+++ b/lib/fbuild/path.py
@@ -528,7 +528,7 @@ class Path(str):
             if \
                     not isinstance(pattern, str) and \
                     isinstance(pattern, collections.Iterable):
-                paths = Path.igloball(*pattern)
+                paths = Path.igloball(*pattern, **kwargs)
             else:
                 paths = Path.glob(pattern, **kwargs)
 
-- 
2.43.0


From e4aa6c1a05c65d791944053ddc139dfe0a61caf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:39 +0000
Subject: [PATCH 34/57] fix: '**/**' found an empty path

---
 lib/fbuild/glob.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lib/fbuild/glob.py b/lib/fbuild/glob.py
index 453bff6..a41f043 100644
--- a/lib/fbuild/glob.py
+++ b/lib/fbuild/glob.py
@@ -31,11 +31,8 @@ def iglob(pathname, *, recursive=True):
     zero or more directories and subdirectories.
     """
 
-    it = _iglob(pathname, recursive)
-    if recursive and _isrecursive(pathname):
-        s = next(it)  # skip empty string
-        assert not s
-    return it
+    # '**' also matches the current directory, which is an empty string.
+    return filter(None, _iglob(pathname, recursive))
 
 def _iglob(pathname, recursive):
     dirname, basename = os.path.split(pathname)
-- 
2.43.0


From c328c7469aa3205e8465a55785b52623f08b57c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 35/57] fix: cached calls accepted too many positional
 arguments

---
 lib/fbuild/functools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/fbuild/functools.py b/lib/fbuild/functools.py
index e22d64a..957622e 100644
--- a/lib/fbuild/functools.py
+++ b/lib/fbuild/functools.py
@@ -121,15 +121,15 @@ def normalize_args(function, args, kwargs):
     fn_totalargs = fn_argcount + fn_kwargcount
 
     # Error out if we specified too many arguments and we aren't taking varargs
-    if len(args) > fn_totalargs and not varargs:
+    if len(args) > fn_argcount and not varargs:
         raise TypeError(
             '%s.%s() takes %s %d %spositional argument%s (%d given)' % (
                 function.__module__,
                 function.__name__,
                 'at most' if defcount else 'exactly',
-                fn_totalargs,
-                '' if fn_kwargcount else 'non-keyword ',
-                '' if fn_totalargs == 1 else 's',
+                fn_argcount,
+                'non-keyword ' if fn_kwargcount else '',
+                '' if fn_argcount == 1 else 's',
                 len(args)))
 
     new_args = list(args)
-- 
2.43.0


From b14f9747ccd4148aa0bd8c89e0bc29c2f57d8ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 36/57] fix: positional-only arguments of cached calls

---
 lib/fbuild/functools.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/functools.py b/lib/fbuild/functools.py
index 957622e..375c5ab 100644
--- a/lib/fbuild/functools.py
+++ b/lib/fbuild/functools.py
@@ -92,6 +92,11 @@ def normalize_args(function, args, kwargs):
     varargs = spec.varargs is not None
     varkw = spec.varkw is not None
 
+    # Find the arguments that cannot be specified by their name.
+    posonly = {key for key, param in inspect.signature(
+            function, follow_wrapped=False).parameters.items()
+        if param.kind == param.POSITIONAL_ONLY}
+
     # If the function is a method, then we've already got the "self" argument
     # bundled up with it, so don't try to find it in our spec.
     if inspect.ismethod(function):
@@ -139,6 +144,8 @@ def normalize_args(function, args, kwargs):
     for i, key in enumerate(fn_args):
         # First, check if we provide a kwarg for it
         try:
+            if key in posonly:
+                raise KeyError(key)
             value = kwargs.pop(key)
         except KeyError:
             # No kwarg, so see if we specified an argument
@@ -199,9 +206,8 @@ def normalize_args(function, args, kwargs):
         bound_kwargs.update(kwargs)
     else:
         for key, value in kwargs.items():
-            # if the key isn't in the fn_args and isn't related to
-            # magic method decorators, it's unknown
-            if key not in fn_args and key != '__FBUILD_INNER':
+            # if the key isn't related to magic method decorators, it's unknown
+            if key != '__FBUILD_INNER':
                 raise TypeError(
                     '%s() got an unexpected keyword argument %r' %
                     (function.__name__, key))
-- 
2.43.0


From fb63bd7e818ff1e5f50be418cd805e80002a6b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 37/57] fix: parameters named kw or kwargs of cached functions

---
 lib/fbuild/functools.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/fbuild/functools.py b/lib/fbuild/functools.py
index 375c5ab..3a6a445 100644
--- a/lib/fbuild/functools.py
+++ b/lib/fbuild/functools.py
@@ -255,14 +255,12 @@ def bind_args(function, args, kwargs):
     for key in spec.kwonlyargs:
         bound[key] = kwargs.pop(key)
 
-    if spec.varkw is not None:
-        bound[spec.varkw] = kwargs
-
     # Remove __FBUILD_INNER, because it doesn't really matter here and will
     # only make the rest of the code more complicated.
-    for kind in 'kw', 'kwargs':
-        if kind in bound and '__FBUILD_INNER' in bound[kind]:
-            bound[kind].pop('__FBUILD_INNER', None)
+    kwargs.pop('__FBUILD_INNER', None)
+
+    if spec.varkw is not None:
+        bound[spec.varkw] = kwargs
 
     return bound
 
-- 
2.43.0


From 9f0b51084dd5bcc999a2dadc857fdf8c839ed25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 38/57] fix: parameters of cached functions named self or
 function

---
 lib/fbuild/db/__init__.py | 11 +++++++++--
 lib/fbuild/db/database.py |  6 +++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/db/__init__.py b/lib/fbuild/db/__init__.py
index e6e2fc0..b699a0c 100644
--- a/lib/fbuild/db/__init__.py
+++ b/lib/fbuild/db/__init__.py
@@ -181,11 +181,18 @@ class caches:
         functools.update_wrapper(self, function)
         self.function = function
 
-    def __call__(self, *args, **kwargs):
+    def __call__(*args, **kwargs):
+        # The function could have arguments that are named like ours.
+        self, *args = args
         result, srcs, dsts = self.call(*args, **kwargs)
         return result
 
-    def call(self, ctx, *args, **kwargs):
+    def call(*args, **kwargs):
+        self, *args = args
+        if args:
+            ctx, *args = args
+        else:
+            ctx = kwargs.pop('ctx', None)
         _check_ctx(ctx, self.function.__name__, 'caches.call')
         return ctx.db.call(self.function, ctx, *args, **kwargs)
 
diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index 5fa2454..92c3fdf 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -81,7 +81,7 @@ class Database:
         self._connected = False
         return result
 
-    def call(self, function, *args, **kwargs):
+    def call(*args, **kwargs):
         """Call the function and return the result, src dependencies, and dst
         dependencies. If the function has been previously called with the same
         arguments, return the cached results.  If we detect that the function
@@ -90,6 +90,10 @@ class Database:
         "srcs" are also modified.  Finally, if any of the filenames in "dsts"
         do not exist, re-run the function no matter what."""
 
+        # The function could have arguments that are named like ours.
+        self, function, *args = args
+        args = tuple(args)
+
         # Make sure none of the arguments are a generator.
         assert all(not fbuild.inspect.isgenerator(arg)
             for arg in itertools.chain(args, kwargs.values())), \
-- 
2.43.0


From db151e2541f648cf89ff600acac312fc40bc3eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 39/57] fix: platform options modified the values they add to

---
 lib/fbuild/builders/platform.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/platform.py b/lib/fbuild/builders/platform.py
index 41cff87..aca9b32 100644
--- a/lib/fbuild/builders/platform.py
+++ b/lib/fbuild/builders/platform.py
@@ -206,8 +206,14 @@ def parse_platform_options(ctx, platform, platform_options, kwargs):
                     if value is None:
                         value = type(modifier)()
 
+                    # Do not modify the value itself, as others use it, too.
                     if operation == '+':
-                        value += modifier
+                        if isinstance(value, list):
+                            value = value + list(modifier)
+                        elif isinstance(value, set):
+                            value = value | set(modifier)
+                        else:
+                            value = value + modifier
                     elif operation == '-':
                         filtered = (x for x in value if x not in modifier)
 
-- 
2.43.0


From 594e26da5608be1e0e9ea4fc5f1d27ad2e3b4c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 40/57] fix: installing changed the permissions of the source
 and failed over old files

---
 lib/fbuild/install.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/fbuild/install.py b/lib/fbuild/install.py
index 003c3dd..429740e 100644
--- a/lib/fbuild/install.py
+++ b/lib/fbuild/install.py
@@ -22,13 +22,25 @@ class LocalCommander:
 
         if file.islink():
             # Assume the user knows what they're doing, and just copy the link itself.
-            if target.exists():
+            link = file.readlink()
+            if target.lexists():
                 target.remove()
-            os.symlink(file.readlink(), target)
-        else:
+            os.symlink(link, target)
+            return
+
+        if target.isdir() and not target.islink():
+            target = target / file.basename()
+
+        # Replace an older file even if it's read-only, and an older link instead of
+        # the file it points to. But don't remove the file that we're installing.
+        if target.islink() or \
+                target.exists() and not os.path.samefile(file, target):
+            target.remove()
+
+        if not target.exists():
             file.copy(target)
         if perms is not None:
-            file.chmod(perms)
+            target.chmod(perms)
 
     def close(self): pass
 
-- 
2.43.0


From 986c696fda3d388ace592e0792fc1796c8a8a890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 41/57] fix: install paths with more than one leading slash
 left the destination

---
 lib/fbuild/context.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/context.py b/lib/fbuild/context.py
index 91b7615..4d44014 100644
--- a/lib/fbuild/context.py
+++ b/lib/fbuild/context.py
@@ -268,10 +268,9 @@ class Context:
         prefix = Path(self.install_prefix)
 
         if subdir.startswith('/'):
-            target_root = destdir / subdir[1:]
+            target_root = destdir / subdir.lstrip('/')
         else:
-            if prefix.startswith('/'):
-                prefix = prefix[1:]
+            prefix = prefix.lstrip('/')
             target_root = destdir / prefix / subdir
 
         # Generate the target path.
-- 
2.43.0


From deb60b133ddc3fdf230d2ddb55617447e5beb6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 42/57] fix: moving a file failed in every build but the first

---
 lib/fbuild/builders/file.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/builders/file.py b/lib/fbuild/builders/file.py
index 1e963ca..f89cb55 100644
--- a/lib/fbuild/builders/file.py
+++ b/lib/fbuild/builders/file.py
@@ -88,11 +88,20 @@ def copy_regex(ctx, *, srcdir, dstdir, src_pattern, dst_pattern,
 
 # ------------------------------------------------------------------------------
 
-@fbuild.db.caches
-def move(ctx, src:fbuild.db.SRC, dst) -> fbuild.db.DST:
+def move(ctx, src, dst):
     """
     Move a file to a different location. Creates the directory if it does not
-    exist.
+    exist. This cannot be cached because the file is gone afterwards, but if
+    it has already been moved, it's left where it is.
     """
 
+    src = Path(src)
+
+    if not src.lexists():
+        moved = Path(dst).addroot(ctx.buildroot)
+        if moved.endswith(os.sep) or moved.isdir():
+            moved = moved / src.name
+        if moved.exists():
+            return moved
+
     return _copy_or_move(ctx, src, dst, Path.move, 'move')
-- 
2.43.0


From dd3970e54c445a13f24d41a7208d083c2f06424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:36 +0000
Subject: [PATCH 43/57] fix: adding platform options to a list extends it in
 place again

---
 lib/fbuild/builders/platform.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/lib/fbuild/builders/platform.py b/lib/fbuild/builders/platform.py
index aca9b32..918a5e7 100644
--- a/lib/fbuild/builders/platform.py
+++ b/lib/fbuild/builders/platform.py
@@ -1,3 +1,4 @@
+import copy
 import platform
 import os
 
@@ -206,14 +207,11 @@ def parse_platform_options(ctx, platform, platform_options, kwargs):
                     if value is None:
                         value = type(modifier)()
 
-                    # Do not modify the value itself, as others use it, too.
                     if operation == '+':
-                        if isinstance(value, list):
-                            value = value + list(modifier)
-                        elif isinstance(value, set):
-                            value = value | set(modifier)
+                        if isinstance(value, set):
+                            value |= set(modifier)
                         else:
-                            value = value + modifier
+                            value += modifier
                     elif operation == '-':
                         filtered = (x for x in value if x not in modifier)
 
@@ -226,7 +224,12 @@ def parse_platform_options(ctx, platform, platform_options, kwargs):
 
                     kwargs[key] = value
                 else:
-                    kwargs[key] = modifier
+                    # Later operations must not modify the options themselves.
+                    kwargs[key] = _unshared(modifier)
+
+
+def _unshared(value):
+    return copy.copy(value) if isinstance(value, (list, set)) else value
 
 
 def auto_platform_options(pass_platform=False):
@@ -248,8 +251,12 @@ def auto_platform_options(pass_platform=False):
                 ctx = args[0]
 
             if ctx is not None:
+                platform_options = kw.pop('platform_options', [])
+                if platform_options:
+                    # The values still belong to the caller.
+                    kw = {k: _unshared(v) for k, v in kw.items()}
                 parse_platform_options(ctx, kw.get('platform', None),
-                                       kw.pop('platform_options', []), kw)
+                                       platform_options, kw)
             if not pass_platform:
                 kw.pop('platform', None)
             return inner(*args, **kw)
-- 
2.43.0


From 1512057c99d4d7cca48a30bd59797781bed690bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:36 +0000
Subject: [PATCH 44/57] fix: configure install built before it configured

---
 lib/fbuild/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/main.py b/lib/fbuild/main.py
index 2408145..d5fbeba 100644
--- a/lib/fbuild/main.py
+++ b/lib/fbuild/main.py
@@ -103,10 +103,10 @@ def build(ctx):
 
     # Installation stuff.
     if 'install' in targets:
-        if targets[-1] != 'install':
+        if 'install' in targets[:-1]:
             raise fbuild.Error('install must be last target')
         if not set(targets) - {'configure', 'install'}:
-            targets.insert(targets.index('install')-1, 'build')
+            targets.insert(targets.index('install'), 'build')
 
     # Step through each target and execute it.
     for target_name in targets:
-- 
2.43.0


From fd8e78c7e2bc1b6f4d493a9f4559d8b9d6ae4fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 45/57] fix: interrupts that were ignored ended the build with
 a TypeError

---
 lib/fbuild/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/main.py b/lib/fbuild/main.py
index d5fbeba..c1fc9a1 100644
--- a/lib/fbuild/main.py
+++ b/lib/fbuild/main.py
@@ -162,7 +162,10 @@ def main(argv=None):
         ctx.scheduler.shutdown()
         old_handler(signum, frame)
 
-    signal.signal(signal.SIGINT, handle_interrupt)
+    # There is nothing to call if interrupts are ignored, as they are for
+    # background jobs.
+    if callable(old_handler):
+        signal.signal(signal.SIGINT, handle_interrupt)
 
     # --------------------------------------------------------------------------
 
-- 
2.43.0


From 5f4c32d5d814b2df39fec9577c413e3ea7e686ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 46/57] fix: --rebuild --do-not-save-database removed the saved
 state

---
 lib/fbuild/context.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lib/fbuild/context.py b/lib/fbuild/context.py
index 4d44014..87b3a83 100644
--- a/lib/fbuild/context.py
+++ b/lib/fbuild/context.py
@@ -79,13 +79,17 @@ class Context:
         self.tmpdir.mkdir()
 
     def load_configuration(self):
+        state_file = self.options.state_file
+
         # Optionally do `not` load the old database by deleting the old state
-        # file.
-        if (self.options.force_rebuild or self.options.force_configuration) and \
-                self.options.state_file.exists():
-            self.options.state_file.remove()
+        # file, unless it has to stay as it is.
+        if self.options.force_rebuild or self.options.force_configuration:
+            if self.options.do_not_save_database:
+                state_file = self.__unsaved_state_file
+            if state_file.exists():
+                state_file.remove()
 
-        self.db.connect(self.options.state_file)
+        self.db.connect(state_file)
 
     def save_configuration(self):
         # Optionally do `not` save the database.
@@ -97,6 +101,12 @@ class Context:
                 self.db.close()
             finally:
                 signal.signal(signal.SIGINT, prev_handler)
+        elif self.__unsaved_state_file.exists():
+            self.__unsaved_state_file.remove()
+
+    @property
+    def __unsaved_state_file(self):
+        return Path(self.options.state_file + '.unsaved')
 
     def clear_temp_dir(self):
         self.tmpdir.rmtree(ignore_errors=True)
-- 
2.43.0


From 8faf5a32c3a1d4ec03428446674e7d6a05e9caf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 47/57] fix: an interrupt could hang the build

---
 lib/fbuild/main.py | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/lib/fbuild/main.py b/lib/fbuild/main.py
index c1fc9a1..a540585 100644
--- a/lib/fbuild/main.py
+++ b/lib/fbuild/main.py
@@ -1,6 +1,5 @@
 import os
 import sys
-import signal
 import warnings
 
 # Make sure the current working directory is in the search path so we can find
@@ -153,22 +152,6 @@ def main(argv=None):
     ctx = parse_args(sys.argv if argv is None else argv)
 
     # --------------------------------------------------------------------------
-    # Replace the ctrl-c signal handler with one that will shut down the
-    # scheduler before moving on.
-
-    old_handler = signal.getsignal(signal.SIGINT)
-
-    def handle_interrupt(signum, frame):
-        ctx.scheduler.shutdown()
-        old_handler(signum, frame)
-
-    # There is nothing to call if interrupts are ignored, as they are for
-    # background jobs.
-    if callable(old_handler):
-        signal.signal(signal.SIGINT, handle_interrupt)
-
-    # --------------------------------------------------------------------------
-
     # If we don't wrap this in a try...finally block to shutdown the scheduler
     # after all else finishes, fbuild will hang indefinitely.
     try:
@@ -204,6 +187,10 @@ def main(argv=None):
             # ourselves exiting functions with the lock still held.  This could
             # then cause deadlocks if that lock was ever acquired again.  Oiy.
             print('Interrupted, saving state...')
+
+            # Let the running tasks finish first. A signal handler can't do
+            # this, as the code it interrupts might hold the lock of a queue.
+            ctx.scheduler.shutdown()
             raise
         else:
             # Only delete the temporary directory if the build succeeded.
-- 
2.43.0


From 52321e2d111847994f471430178732812436e16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:08 +0000
Subject: [PATCH 48/57] fix: commands with a preexec_fn failed

---
 lib/fbuild/subprocess/killableprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/subprocess/killableprocess.py b/lib/fbuild/subprocess/killableprocess.py
index 0e03167..d77fe25 100644
--- a/lib/fbuild/subprocess/killableprocess.py
+++ b/lib/fbuild/subprocess/killableprocess.py
@@ -104,7 +104,7 @@ class Popen(subprocess.Popen):
             def setsid_preexec_fn():
                 os.setsid()
                 if real_preexec_fn:
-                    apply(real_preexec_fn)
+                    real_preexec_fn()
 
             kwargs['preexec_fn'] = setsid_preexec_fn
 
-- 
2.43.0


From 2716235007630f0f1552d29857392ea9cb900753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:08 +0000
Subject: [PATCH 49/57] fix: killed commands were left as zombies

---
 lib/fbuild/subprocess/killableprocess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/subprocess/killableprocess.py b/lib/fbuild/subprocess/killableprocess.py
index d77fe25..b09cc6f 100644
--- a/lib/fbuild/subprocess/killableprocess.py
+++ b/lib/fbuild/subprocess/killableprocess.py
@@ -203,7 +203,8 @@ class Popen(subprocess.Popen):
             except OSError as ex:
                 if ex.errno != errno.ESRCH:
                     raise
-            self.returncode = -9
+            # Whoever waits for the process sets the return code. It would
+            # never be waited for if we did this here.
 
     def _try_wait(self, wait_flags):
         if wait_flags == 0:
-- 
2.43.0


From 559ca3d79113dfcbe4fee8ba49d1a62bd21598bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:08 +0000
Subject: [PATCH 50/57] fix: commands that finished in time were reported as
 timed out

---
 lib/fbuild/context.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/context.py b/lib/fbuild/context.py
index 87b3a83..243fb7f 100644
--- a/lib/fbuild/context.py
+++ b/lib/fbuild/context.py
@@ -194,10 +194,14 @@ class Context:
         # raise an exception if the timeout occurs.
         if timeout:
             timed_out = False
+            finished = False
+            timeout_lock = threading.Lock()
             def timeout_function(p):
                 nonlocal timed_out
-                timed_out = True
-                p.kill(group=True)
+                with timeout_lock:
+                    if not finished:
+                        timed_out = True
+                        p.kill(group=True)
 
             # Set the timer to None for now to make sure it's defined.
             timer = None
@@ -219,6 +223,11 @@ class Context:
                 with self.scheduler.interruptible():
                     stdout, stderr = p.communicate(input)
                     returncode = p.wait()
+
+                    # It's in time even if we have to wait for our turn now.
+                    if timeout:
+                        with timeout_lock:
+                            finished = True
             except KeyboardInterrupt:
                 # Make sure if we get a keyboard interrupt to kill the process.
                 p.kill(group=True, sigint=True)
-- 
2.43.0


From 6cb9e0791565a03c8f44cbf0a0919f4b98cf2a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:31 +0000
Subject: [PATCH 51/57] fix: headers and sources with spaces or # in their
 names were misunderstood

The names that gcc writes for make are quoted. A header whose name has a
space, # or $ made every compilation fail, or not be cached.
---
 lib/fbuild/builders/c/gcc/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/builders/c/gcc/__init__.py b/lib/fbuild/builders/c/gcc/__init__.py
index 5638aab..6889fec 100644
--- a/lib/fbuild/builders/c/gcc/__init__.py
+++ b/lib/fbuild/builders/c/gcc/__init__.py
@@ -451,14 +451,17 @@ class Builder(fbuild.builders.c.Builder):
                 # Parse the output and return the module dependencies.
                 stdout = f.read().replace(b'\\\n', b'')
 
-        # Parse the output and return the module dependencies.
-        m = re.match(b'\s*\S+:(?: (.*))?$', stdout)
+        # Parse the output and return the module dependencies. The names are
+        # quoted for make: "\ " stands for a space, "\#" for "#", and "$$" for
+        # "$".
+        m = re.match(rb'\s*(?:\\[ \t]|\S)+:(?: (.*))?$', stdout)
         if not m:
             raise fbuild.ExecutionError('unable to understand %r' % stdout)
 
         s = m.group(1)
         if s is not None:
-            deps = s.decode().split()
+            deps = [re.sub(r'\\([ \t#])', r'\1', d).replace('$$', '$')
+                for d in re.findall(r'(?:\\[ \t]|\S)+', s.decode())]
             self.ctx.db.add_external_dependencies_to_call(srcs=deps)
 
         return obj
-- 
2.43.0


From 9539d01f6b1f16db4b87d8bcb8c1b9304c985ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 52/57] fix: programs were not linked again when libraries of
 their libraries changed

A static library does not contain the libraries it uses, so it does not
change with them, but the program that is linked with all of them does.
---
 lib/fbuild/builders/__init__.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/lib/fbuild/builders/__init__.py b/lib/fbuild/builders/__init__.py
index bec6bec..5643390 100644
--- a/lib/fbuild/builders/__init__.py
+++ b/lib/fbuild/builders/__init__.py
@@ -194,6 +194,21 @@ class AbstractCompiler(fbuild.db.PersistentObject):
 
 # ------------------------------------------------------------------------------
 
+def linked_libs(libs):
+    """Return the libraries I{libs}, and all the libraries that they were
+    linked with."""
+    result = []
+    def add(lib):
+        if lib not in result:
+            result.append(lib)
+            for l in getattr(lib, 'libs', ()):
+                add(l)
+
+    for lib in libs:
+        add(lib)
+
+    return result
+
 class AbstractLibLinker(AbstractCompiler):
     @fbuild.db.cachemethod
     @platform.auto_platform_options()
@@ -273,6 +288,10 @@ class AbstractExeLinker(AbstractCompiler, AbstractRunner):
             libs:fbuild.db.SRCS=(),
             **kwargs) -> fbuild.db.DST:
         """Link compiled files into an executable."""
+        # The libraries that our libraries use are linked in as well.
+        self.ctx.db.add_external_dependencies_to_call(
+            srcs=[l for l in linked_libs(libs) if fbuild.path.Path(l).exists()])
+
         return self.uncached_link_exe(dst, srcs, *args, libs=libs, **kwargs)
 
     @abc.abstractmethod
-- 
2.43.0


From f565bd04502ea1962019aed181415d427eee4e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 53/57] fix: programs did not find the shared libraries of
 their libraries

run() only searched the directories of the libraries that the program was
linked with directly.
---
 lib/fbuild/builders/c/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/c/__init__.py b/lib/fbuild/builders/c/__init__.py
index 8e56724..f527c84 100644
--- a/lib/fbuild/builders/c/__init__.py
+++ b/lib/fbuild/builders/c/__init__.py
@@ -171,8 +171,9 @@ class Builder(fbuild.builders.AbstractCompilerBuilder):
     def run(self, cmd, *args, runtime_libpaths=[], **kwargs):
         """Executes a c executable."""
         exe = cmd[0]
+        libs = fbuild.builders.linked_libs(exe.libs)
         return self.ctx.execute(cmd, *args,
-            runtime_libpaths=runtime_libpaths + [l.parent for l in exe.libs],
+            runtime_libpaths=runtime_libpaths + [Path(l).parent for l in libs],
             **kwargs)
 
 
-- 
2.43.0


From 66d3a48a31c0efec3623f2502f9940322d9a356c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 54/57] fix: static libraries kept objects that were taken out
 of them

---
 lib/fbuild/builders/c/gcc/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/fbuild/builders/c/gcc/__init__.py b/lib/fbuild/builders/c/gcc/__init__.py
index 6889fec..69dadbc 100644
--- a/lib/fbuild/builders/c/gcc/__init__.py
+++ b/lib/fbuild/builders/c/gcc/__init__.py
@@ -67,6 +67,10 @@ class Ar(fbuild.db.PersistentObject):
 
         srcs = list(Path.globall(srcs))
 
+        # ar adds to an archive that exists, so remove what we built before.
+        if dst.exists():
+            dst.remove()
+
         cmd = [self.exe]
         cmd.extend(self.flags)
         cmd.extend(flags)
-- 
2.43.0


From 9269801829a9779154811654f6ecc4970a29b193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:38 +0000
Subject: [PATCH 55/57] fix: objects with [, ?, * or { in their names were left
 out of static libraries

The names of the objects were taken for patterns, which they did not match.
---
 lib/fbuild/builders/c/gcc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/c/gcc/__init__.py b/lib/fbuild/builders/c/gcc/__init__.py
index 69dadbc..a9f48da 100644
--- a/lib/fbuild/builders/c/gcc/__init__.py
+++ b/lib/fbuild/builders/c/gcc/__init__.py
@@ -65,7 +65,7 @@ class Ar(fbuild.db.PersistentObject):
         dst = dst.parent / prefix + dst.name + suffix
         dst.parent.makedirs()
 
-        srcs = list(Path.globall(srcs))
+        srcs = [Path(src) for src in srcs]
 
         # ar adds to an archive that exists, so remove what we built before.
         if dst.exists():
-- 
2.43.0


From 02a50584a9413234993ed6fc6afcdbf4e8490e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 56/57] fix: static libraries could not be linked with libpaths

They are only kept for the programs that are linked with the library, and
were passed on to Popen.
---
 lib/fbuild/builders/c/gcc/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/fbuild/builders/c/gcc/__init__.py b/lib/fbuild/builders/c/gcc/__init__.py
index a9f48da..0f62e77 100644
--- a/lib/fbuild/builders/c/gcc/__init__.py
+++ b/lib/fbuild/builders/c/gcc/__init__.py
@@ -42,6 +42,7 @@ class Ar(fbuild.db.PersistentObject):
 
     @fbuild.db.cachemethod
     def __call__(self, dst, srcs:fbuild.db.SRCS, *,
+            libpaths=(),
             libs:fbuild.db.SRCS=(),
             ldlibs=(),
             external_libs=(),
-- 
2.43.0


From 749b1f08ac5393d60ff76b7f233a33ceea809a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 57/57] fix: linking took forever when libraries shared many
 libraries

The libraries that were already visited were compared to names without
"lib" and suffix, so every path to a library was followed.
---
 lib/fbuild/builders/c/gcc/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/c/gcc/__init__.py b/lib/fbuild/builders/c/gcc/__init__.py
index 0f62e77..fac7c0c 100644
--- a/lib/fbuild/builders/c/gcc/__init__.py
+++ b/lib/fbuild/builders/c/gcc/__init__.py
@@ -232,10 +232,13 @@ class Gcc(fbuild.db.PersistentObject):
         # libraries listed in a particular order.  Libraries must appear left
         # of their dependencies in order to optimize linking.
         new_libs = []
+        visited = []
         def f(lib):
-            if lib in new_libs:
+            if lib in visited:
                 return
 
+            visited.append(lib)
+
             if isinstance(lib, fbuild.builders.c.Library):
                 for libpath in lib.libpaths:
                     if libpath not in libpaths:
-- 
2.43.0

