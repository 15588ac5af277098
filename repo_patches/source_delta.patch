From afd130ff276c6bd1053ea66c744e48f8c2ebbbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 01/22] fix: wake up threads waiting for a lock when its owner
 stream gets closed

---
 src/rsfile/rsfile_registries.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index 890687a..a4bcc24 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -222,6 +222,9 @@ class IntraProcessLockRegistryClass(object):
 
             self._lock_registry[unique_id][1] = remaining_locks
 
+            if removed_locks:
+                self._lock_registry[unique_id][0].notify_all()  # we awake potential waiters - ALL of them
+
             return removed_locks
 
     def try_deleting_unique_id_entry(self, unique_id):
-- 
2.43.0


From 2c6ec71e3943f64c8a809e7bb89c9fc2836d8f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 02/22] fix: release the lock when the lock_file() context
 manager is left by an exception

---
 src/rsfile/rsfileio_abstract.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index dab493f..de4d001 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -527,9 +527,11 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
     @contextmanager
     def _lock_remover(self, length, offset, whence):
         # we do nothing on __enter__()
-        yield
-        # we unlock on __exit__()
-        self.unlock_file(length=length, offset=offset, whence=whence)
+        try:
+            yield
+        finally:
+            # we unlock on __exit__(), even if an exception occurred
+            self.unlock_file(length=length, offset=offset, whence=whence)
 
     def lock_file(self, timeout=None, length=None, offset=None, whence=os.SEEK_SET, shared=None):
 
-- 
2.43.0


From 47589430a95fc93708b77358887cfd8d5137f83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 03/22] fix: flush buffered data before the lock_file() context
 manager releases the lock

---
 src/rsfile/rsfile_streams.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 58b5881..1fc86ca 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -5,6 +5,7 @@ import functools
 import multiprocessing
 import os
 import threading
+from contextlib import contextmanager
 
 from . import rsfile_definitions as defs
 
@@ -30,6 +31,16 @@ def __rsfile_stream_repr__(self):
     else:
         return "<%s name=%r>" % (clsname, name)
 
+@contextmanager
+def _flushing_lock_remover(stream, lock_remover):
+    """Flushes *stream* on exit, before *lock_remover* actually releases the lock."""
+    with lock_remover:
+        try:
+            yield
+        finally:
+            stream.flush()
+
+
 class _buffer_forwarder_mixin(object):
     def _reset_buffers(self):
         self.seek(0, os.SEEK_CUR)  # we flush i/o buffers, didn't work on py26
@@ -50,7 +61,7 @@ class _buffer_forwarder_mixin(object):
 
     def lock_file(self, *args, **kwargs):
         self._reset_buffers()
-        return self.raw.lock_file(*args, **kwargs)
+        return _flushing_lock_remover(self, self.raw.lock_file(*args, **kwargs))
 
     def unlock_file(self, *args, **kwargs):
         self._reset_buffers()
@@ -94,7 +105,7 @@ class _text_forwarder_mixin(object):
 
     def lock_file(self, *args, **kwargs):
         self._reset_buffers()
-        return self.buffer.lock_file(*args, **kwargs)
+        return _flushing_lock_remover(self, self.buffer.lock_file(*args, **kwargs))
 
     def unlock_file(self, *args, **kwargs):
         self._reset_buffers()
-- 
2.43.0


From 0d1c0c5e89106d4aeefb5fd48d95a9bdb8f2a8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 04/22] fix: protect first method calls and iteration in the
 thread-safe wrapper

---
 src/rsfile/rsfile_streams.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 1fc86ca..78fac26 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -192,11 +192,16 @@ class RSThreadSafeWrapper(object):
                 return self._secure_call(name, *args, **kwargs)
             # IMPORTANT : cache the thread-safe caller in object, so that we bypass this __getattr__ next time
             setattr(self, name, _method_proxy)
+            return _method_proxy  # the very first call must be protected too
 
         return attr
 
     def __iter__(self):
-        return iter(self.wrapped_stream)
+        self._secure_call("__iter__")
+        return self
+
+    def __next__(self):
+        return self._secure_call("__next__")
 
     def __str__(self):
         return "Thread Safe Wrapper around %s" % self.wrapped_stream
-- 
2.43.0


From a5f4123010c02c2b1c834d519e271f98b5c878dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 05/22] fix: raw readinto() returns None when a nonblocking
 stream has no data

---
 src/rsfile/rsfileio_abstract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index de4d001..a61aa5f 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -400,8 +400,10 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
             buffer = memoryview(buffer).cast("B")
 
         mybytes = self._inner_read(len(buffer))
+        if mybytes is None:
+            return None  # nonblocking stream with no data available
         byteslen = len(mybytes)
-        assert mybytes is None or isinstance(mybytes, bytes), type(mybytes)
+        assert isinstance(mybytes, bytes), type(mybytes)
 
         if isinstance(buffer, array):
             typecode = b"b" if (sys.version_info[:2] < (3, 0)) else "b"  # typecode weirdness...
-- 
2.43.0


From 68544cd4ea7f75427ea898e1aa793bfc3c7ddc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 06/22] fix: accept descriptor 0, and do not truncate it when
 wrapping it

---
 src/rsfile/rsfile_factories.py  | 6 +++---
 src/rsfile/rsfileio_abstract.py | 2 +-
 src/rsfile/rsfileio_unix.py     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index f058fa4..4fda687 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -238,7 +238,7 @@ def rsopen(
     thread_safe_interface = functools.partial(RSThreadSafeWrapper, mutex=mutex, is_interprocess=is_interprocess)
 
     if opener:
-        if raw_kwargs["fileno"]:
+        if raw_kwargs["fileno"] is not None:
             raise defs.BadValueTypeError("can't provide both fileno and opener")
         raw_kwargs["fileno"] = opener(
             name, mode
@@ -250,7 +250,7 @@ def rsopen(
     if extended_kwargs["truncate"]:
         if not (raw_kwargs["write"] or raw_kwargs["append"]):
             raise defs.BadValueTypeError("can't truncate a non-writable file")
-        if raw_kwargs["fileno"] or raw_kwargs["handle"]:
+        if raw_kwargs["fileno"] is not None or raw_kwargs["handle"] is not None:
             # IMPORTANT: when wrapping an existing stream, we dont NOT truncate it, to respect with the stdlib behaviour
             extended_kwargs["truncate"] = False
 
@@ -298,7 +298,7 @@ def rsopen(
             buffering = defs.DEFAULT_BUFFER_SIZE
             # do not trigger the libc compatibility layer on windows,
             # since anyway it seems to have no st_blksize...
-            if raw._fileno:
+            if raw._fileno is not None:
                 try:
                     bs = os.fstat(raw._fileno).st_blksize
                 except (os.error, AttributeError):
diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index a61aa5f..f739a66 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -170,7 +170,7 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                 # we bypass Rsfile for file descriptors that are pipes, devices, directories, symlinks etc.
                 st_mode = os.fstat(self._fileno).st_mode  # might raise
                 if stat.S_ISDIR(st_mode):
-                    assert fileno or handle, (fileno, handle)  # it must NOT be a newly created file object, else bug
+                    assert fileno is not None or handle is not None, (fileno, handle)  # it must NOT be a newly created file object, else bug
                     self._closefd = False  # disown file descriptor
                     raise IOError(errno.EISDIR, "Can't wrap a directory in FileIO")
                 is_regular = stat.S_ISREG(st_mode)
diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 7e2f987..641c138 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -188,11 +188,11 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         # print("FSYNC_UNIX_DONE")
 
     def _inner_fileno(self):
-        assert self._fileno
+        assert self._fileno is not None
         return self._fileno
 
     def _inner_handle(self):
-        assert self._handle
+        assert self._handle is not None
         return self._handle
 
     @_unix_error_converter
-- 
2.43.0


From 7e5a461b600ac79bbff7a42fbaa0537c503378e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 07/22] fix: reject locks beginning before the start of file
 instead of retrying forever

---
 src/rsfile/rsfileio_abstract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index f739a66..1578fce 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -564,6 +564,9 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
             raise IOError("Can't obtain exclusive lock on non-writable stream, or shared lock on non-readable stream.")
 
         abs_offset = self._convert_relative_offset_to_absolute(offset, whence)
+        if abs_offset < 0:  # no lock attempt could ever succeed there
+            raise IOError(errno.EINVAL, "Invalid argument : can't lock bytes before the beginning of file")
+
         blocking = timeout is None  # here, it means "forever waiting for the lock"
         # we enforce spin-locking if a global timeout exists
         low_level_blocking = blocking if (self.enforced_locking_timeout_value is None) else False
-- 
2.43.0


From 1cc4cc453a5862a0a53e9ce6b61beef551a4d720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 08/22] fix: zero-filling truncation fails on multiples of the
 buffer size and ignores partial writes

---
 src/rsfile/rsfileio_abstract.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 1578fce..4b8ab03 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -486,14 +486,12 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                 old_pos = self._inner_tell()
                 self._inner_seek(current_size, os.SEEK_SET)
                 bytes_to_write = size - current_size
-                (q, r) = divmod(bytes_to_write, defs.DEFAULT_BUFFER_SIZE)
-
-                for _ in range(q):
-                    padding = b"\0" * defs.DEFAULT_BUFFER_SIZE
-                    self._inner_write(padding)
-                count = self._inner_write(b"\0" * r)
-                assert count == r, (count, r)  # no blocking writes for files, theoretically...
-                self._inner_seek(old_pos)  # important
+
+                while bytes_to_write:  # no empty write must be issued, backends might reject it
+                    count = self._inner_write(b"\0" * min(bytes_to_write, defs.DEFAULT_BUFFER_SIZE))
+                    assert count, count  # no blocking writes for files, theoretically...
+                    bytes_to_write -= count
+                self._inner_seek(old_pos, os.SEEK_SET)  # important
         return self.size()
 
     def flush(self):
-- 
2.43.0


From 8ddad1ded342e35e4baec8efd882be9a5a742bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 09/22] fix: write_to_file() and append_to_file() complete
 partial writes

---
 src/rsfile/rsfile_utilities.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index bcb6511..4569c86 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 
 
+import errno
+
 from .rsfile_definitions import *  # constants, base types and exceptions
 from .rsfile_factories import *
 
@@ -130,6 +132,21 @@ def read_from_file(
         return full_data
 
 
+def _write_all(myfile, data):
+    """
+    Unbuffered streams might do partial writes, so we have to "loop while".
+    """
+    if not isinstance(data, str):
+        data = memoryview(data).cast("B")
+    while True:
+        count = myfile.write(data)
+        if count is None:
+            raise IOError(errno.EAGAIN, "Nonblocking stream could not accept data")
+        if count >= len(data):
+            break
+        data = data[count:]
+
+
 def write_to_file(
     filename,
     data,
@@ -171,7 +188,7 @@ def write_to_file(
         thread_safe=False,
     ) as myfile:
 
-        myfile.write(data)
+        _write_all(myfile, data)
         myfile.flush()
         if sync:
             myfile.sync()
@@ -216,7 +233,7 @@ def append_to_file(
         thread_safe=False,
     ) as myfile:
 
-        myfile.write(data)
+        _write_all(myfile, data)
         myfile.flush()
         if sync:
             myfile.sync()
-- 
2.43.0


From 36ca31709a79662f70080ca9c42b7a3921df4024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 10/22] fix: close the new descriptor when opening fails (eg.
 on a directory)

---
 src/rsfile/rsfileio_unix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 641c138..ab748b5 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -151,6 +151,9 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
                     self._purge_pending_related_file_descriptors()
                     # we assume that there are chances for this to be the only handle pointing this precise file
                     IntraProcessLockRegistry.try_deleting_unique_id_entry(self._lock_registry_inode)
+            elif getattr(self, "_origin", None) == "path" and getattr(self, "_fileno", None) is not None:
+                # initialization failed before registration, the descriptor we opened must not be leaked
+                unix.close(self._fileno)
 
     @_unix_error_converter
     def _inner_reduce(self, size):
-- 
2.43.0


From 4106b16b33e0250ba8c85f28f095bb31350707ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 11/22] fix: do not leak the descriptor obtained from an opener
 when opening fails

---
 src/rsfile/rsfile_factories.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index 4fda687..bee923f 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -240,17 +240,11 @@ def rsopen(
     if opener:
         if raw_kwargs["fileno"] is not None:
             raise defs.BadValueTypeError("can't provide both fileno and opener")
-        raw_kwargs["fileno"] = opener(
-            name, mode
-        )  # we give it the original "name" as parameter, not the normalized path
-        if int(raw_kwargs["fileno"]) < 0:  # easrly catch, just to please the test suite...
-            raise defs.BadValueTypeError("opener returned %s" % raw_kwargs["fileno"])
-        raw_kwargs["path"] = None  # irrelevant in this case
 
     if extended_kwargs["truncate"]:
         if not (raw_kwargs["write"] or raw_kwargs["append"]):
             raise defs.BadValueTypeError("can't truncate a non-writable file")
-        if raw_kwargs["fileno"] is not None or raw_kwargs["handle"] is not None:
+        if opener or raw_kwargs["fileno"] is not None or raw_kwargs["handle"] is not None:
             # IMPORTANT: when wrapping an existing stream, we dont NOT truncate it, to respect with the stdlib behaviour
             extended_kwargs["truncate"] = False
 
@@ -271,9 +265,24 @@ def rsopen(
             2,
         )
 
+    if opener:
+        # called only once arguments have been checked, so that its descriptor is not leaked by their rejection
+        raw_kwargs["fileno"] = opener(
+            name, mode
+        )  # we give it the original "name" as parameter, not the normalized path
+        if int(raw_kwargs["fileno"]) < 0:  # easrly catch, just to please the test suite...
+            raise defs.BadValueTypeError("opener returned %s" % raw_kwargs["fileno"])
+        raw_kwargs["path"] = None  # irrelevant in this case
+
     raw_kwargs["permissions"] = permissions
     # print("We get RSFileIO", RSFileIO)
-    raw = RSFileIO(**raw_kwargs)
+    try:
+        raw = RSFileIO(**raw_kwargs)
+    except (defs.BadValueTypeError, IsADirectoryError):
+        # here the raw stream doesn't own the descriptor provided by the opener
+        if opener and closefd:
+            os.close(raw_kwargs["fileno"])
+        raise
     result = raw
     try:
 
-- 
2.43.0


From e36ffd053002c1f1dc26d28fdc5d727ce2d9ad78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 12/22] fix: closing a stream which owns descriptor 0 must not
 fail

---
 src/rsfile/rsfile_registries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index a4bcc24..549c4c5 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -250,7 +250,7 @@ class IntraProcessLockRegistryClass(object):
 
     def add_unique_id_data(self, unique_id, data):
         assert unique_id, unique_id
-        assert data, data
+        assert data is not None, data
         with self.mutex:
             self._check_forking()
 
-- 
2.43.0


From 20f1759705ac2d8cfde681adc9da2204d6dcdfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 13/22] fix: close the descriptor even if the release of a lock
 fails in close()

---
 src/rsfile/rsfileio_abstract.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 4b8ab03..a8d18da 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -214,17 +214,18 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
 
                 with IntraProcessLockRegistry.mutex:
 
-                    # We are careful, in case object initialization failed
-                    if hasattr(self, "_lock_registry_inode") and hasattr(self, "_lock_registry_descriptor"):
-                        for (handle, shared, start, end) in IntraProcessLockRegistry.remove_file_locks(
-                            self._lock_registry_inode, self._lock_registry_descriptor
-                        ):
-                            # print (">>>>>>>> ", (handle, shared, start, end))
-                            length = None if end is None else (end - start)
-                            self._inner_file_unlock(length, start)
-
-                    # Mark the raw stream as closed, even if some operations failed
-                    self._inner_close_streams()  # Might raise OverflowError
+                    try:
+                        # We are careful, in case object initialization failed
+                        if hasattr(self, "_lock_registry_inode") and hasattr(self, "_lock_registry_descriptor"):
+                            for (handle, shared, start, end) in IntraProcessLockRegistry.remove_file_locks(
+                                self._lock_registry_inode, self._lock_registry_descriptor
+                            ):
+                                # print (">>>>>>>> ", (handle, shared, start, end))
+                                length = None if end is None else (end - start)
+                                self._inner_file_unlock(length, start)
+                    finally:
+                        # Mark the raw stream as closed, even if some operations failed
+                        self._inner_close_streams()  # Might raise OverflowError
 
     '''
     def __del__(self):
-- 
2.43.0


From ca834f301e86f0101e66dbc451a6d550d802a1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:23 +0000
Subject: [PATCH 14/22] fix: forget a thread waiting for a lock when its wait
 is interrupted

---
 src/rsfile/rsfile_registries.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index 549c4c5..f55aeb3 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -186,8 +186,10 @@ class IntraProcessLockRegistryClass(object):
                 else:
                     # print ("THREAD %s WAITING REGISTRY %s" % (threading.current_thread().name, unique_id))
                     self._lock_registry[unique_id][3] += 1
-                    self._lock_registry[unique_id][0].wait(timeout)  # we wait on the condition until locks get removed
-                    self._lock_registry[unique_id][3] -= 1
+                    try:
+                        self._lock_registry[unique_id][0].wait(timeout)  # we wait on the condition until locks get removed
+                    finally:
+                        self._lock_registry[unique_id][3] -= 1  # even if the wait was interrupted (eg. KeyboardInterrupt)
                     # print ("THREAD %s LEAVING REGISTRY %s" % (threading.current_thread().name, unique_id))
 
             # print (">Thread %s handle %s RETURNING %s from register_file_lock" % (threading.current_thread().name,
-- 
2.43.0


From 37b56d8ab5e7dbd63536f0a614b7a81be7d4c4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:21 +0000
Subject: [PATCH 15/22] fix: close the descriptor owned by a stream whose
 identification fails

---
 src/rsfile/rsfileio_unix.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index ab748b5..8144adc 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -138,7 +138,12 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
                         unix.fcntl(self._fileno, unix.F_SETFD, old_flags | unix.FD_CLOEXEC)
 
         # WHATEVER the origin of the stream, we initialize these fields:
-        self._lock_registry_inode = self.unique_id()  # enforces caching of unique_id
+        try:
+            self._lock_registry_inode = self.unique_id()  # enforces caching of unique_id
+        except (OverflowError, EnvironmentError) as e:
+            if getattr(e, "errno", errno.EBADF) == errno.EBADF:
+                self._closefd = False  # this is not an open file descriptor, there is nothing to close
+            raise
         self._lock_registry_descriptor = self._fileno
 
     @_unix_error_converter
@@ -151,8 +156,8 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
                     self._purge_pending_related_file_descriptors()
                     # we assume that there are chances for this to be the only handle pointing this precise file
                     IntraProcessLockRegistry.try_deleting_unique_id_entry(self._lock_registry_inode)
-            elif getattr(self, "_origin", None) == "path" and getattr(self, "_fileno", None) is not None:
-                # initialization failed before registration, the descriptor we opened must not be leaked
+            elif getattr(self, "_fileno", None) is not None:
+                # initialization failed before registration, the descriptor we own must not be leaked
                 unix.close(self._fileno)
 
     @_unix_error_converter
-- 
2.43.0


From eaf1855d2b9ff7d3b3a5d379b3a86bdbadf617eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:17 +0000
Subject: [PATCH 16/22] fix: on Windows, writing no bytes returns 0, not the
 None of a full pipe

---
 src/rsfile/rsfileio_windows.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index 1748d62..1d474c9 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -414,7 +414,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         # Nothing special for to do with errCode, for files, it seems
         # see https://learn.microsoft.com/en-us/windows/win32/api/fileapi/nf-fileapi-writefile
         #print(">> WIN32 WRITE RETURNED", errCode, bytes_written)
-        if not bytes_written:
+        if not bytes_written and len(buffer):
             #print(">> WIN32 WRITE FALLBACK TO NONE")
             return None  # We mimick effects of EAGAIN on Unix
 
-- 
2.43.0


From 05f270281f8976551da61a0bc35a2580b17863d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:17 +0000
Subject: [PATCH 17/22] fix: ctypes backend silently wraps file offsets beyond
 64 bits (truncation to a huge size lost data)

---
 src/rsfile/rsbackend/windows_ctypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsfile/rsbackend/windows_ctypes.py b/src/rsfile/rsbackend/windows_ctypes.py
index 04f0063..a701b36 100644
--- a/src/rsfile/rsbackend/windows_ctypes.py
+++ b/src/rsfile/rsbackend/windows_ctypes.py
@@ -146,6 +146,9 @@ def GetFileSize(handle):
 
 def SetFilePointer(handle, offset, moveMethod):  # we match the naming of pywin32
 
+    if not -(2 ** 63) <= offset < 2 ** 63:
+        raise OverflowError("file offset too big: %s" % offset)  # ctypes would silently truncate it
+
     newPos = wintypes.LARGE_INTEGER(5)
 
     res = win32api.SetFilePointerEx(handle, offset, ctypes.byref(newPos), moveMethod)
-- 
2.43.0


From 78f8ea4f00c54b411734f1c5121bea9aaee4e329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:17 +0000
Subject: [PATCH 18/22] fix: on Windows, accept that descriptor number 0 is
 given to a stream

---
 src/rsfile/rsfileio_windows.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index 1d474c9..1422ee4 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -93,7 +93,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         permissions,
     ):
 
-        assert not (fileno and handle), fileno and handle
+        assert fileno is None or handle is None, (fileno, handle)
 
         # # # real opening of the file stream # # #
         if handle is not None:
@@ -298,7 +298,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             # NEVER use flag os.O_TEXT, we're in raw IO here !
             self._fileno = win32._open_osfhandle(self._handle, flags)
 
-        assert self._fileno
+        assert self._fileno is not None
         return self._fileno
 
     def _inner_handle(self):
@@ -402,7 +402,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             # Non-blocking pipes have horrendous behaviour on Windows
             # See https://github.com/python/cpython/issues/101881
             # So we rely on CPython hacks to force-write data into pipe
-            assert self._fileno, self._fileno
+            assert self._fileno is not None
             try:
                 bytes_written = os.write(self._fileno, buffer)
             except BlockingIOError:
-- 
2.43.0


From 62282192cd0c5bb1d609d6bbd935ef16c6ceaae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:27 +0000
Subject: [PATCH 19/22] fix: the FileIO replacement must not truncate a wrapped
 descriptor

io.FileIO(fd, 'w') leaves the file as it is; only a path is erased.
---
 src/rsfile/rsfile_utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index 4569c86..0885ff2 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -36,8 +36,8 @@ class RSFileIOWrapper(RSFileIO):
         if extended_kwargs["text"]:
             raise BadValueTypeError("Raw stream can't be created in text mode")
         RSFileIO.__init__(self, **raw_kwargs)
-        if self.seekable() and extended_kwargs["truncate"]:
-            self.truncate(0)  # this mimicks basic rawFileIO, without file locking
+        if self.seekable() and extended_kwargs["truncate"] and self.origin == "path":
+            self.truncate(0)  # this mimicks basic rawFileIO, without file locking (wrapped descriptors are not truncated)
 
 
 def monkey_patch_io_module(module=None):
-- 
2.43.0


From 3ef9bd63454391f9b13a7e6dcc7db7a4d459dfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:32 +0000
Subject: [PATCH 20/22] fix: a stream whose initialization fails must close its
 descriptor at once

It was left to the finalizer, hence stayed open as long as the exception (whose traceback refers to the stream) was kept.
---
 src/rsfile/rsfile_utilities.py  |  8 ++++++--
 src/rsfile/rsfileio_abstract.py | 16 ++++++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index 0885ff2..9ed2170 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -36,8 +36,12 @@ class RSFileIOWrapper(RSFileIO):
         if extended_kwargs["text"]:
             raise BadValueTypeError("Raw stream can't be created in text mode")
         RSFileIO.__init__(self, **raw_kwargs)
-        if self.seekable() and extended_kwargs["truncate"] and self.origin == "path":
-            self.truncate(0)  # this mimicks basic rawFileIO, without file locking (wrapped descriptors are not truncated)
+        try:
+            if self.seekable() and extended_kwargs["truncate"] and self.origin == "path":
+                self.truncate(0)  # this mimicks basic rawFileIO, without file locking (wrapped descriptors are not truncated)
+        except:
+            self.close()
+            raise
 
 
 def monkey_patch_io_module(module=None):
diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index a8d18da..2208ebf 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -185,16 +185,28 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
             assert self._lock_registry_descriptor is not None, self._lock_registry_descriptor
 
         except OverflowError as e:
+            self._abort_initialization()
             raise defs.BadValueTypeError(e)  # probably a too big filedescriptor number
+        except:
+            self._abort_initialization()
+            raise
 
         if append:
             try:
                 self.seek(0, os.SEEK_END)  # required by unit tests, might raise if non-seekable file...
-            except OSError as exc:
-                if exc.errno != errno.ESPIPE:
+            except BaseException as exc:
+                if getattr(exc, "errno", None) != errno.ESPIPE:
+                    self._abort_initialization()
                     raise
                 # Else it's an Illegal Seek, probably because of a Pipe stream, so we let go
 
+    def _abort_initialization(self):
+        """Closes the stream at once, else its descriptor would stay open as long as the pending exception is referenced."""
+        try:
+            self.close()
+        except Exception:
+            pass  # the original exception matters more
+
     def __repr__(self):
         return "<%s name=%r mode='%s' origin='%s' closefd=%s>" % (
             self.__class__.__name__,
-- 
2.43.0


From 5a3c0ff790cd57b45c544223f1465d63f5bbe977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:43 +0000
Subject: [PATCH 21/22] fix: an opening rejected after the opener was called
 released the POSIX locks of the process on that file

---
 src/rsfile/rsfile_factories.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index bee923f..a3e6b4c 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -240,6 +240,14 @@ def rsopen(
     if opener:
         if raw_kwargs["fileno"] is not None:
             raise defs.BadValueTypeError("can't provide both fileno and opener")
+        if raw_kwargs["handle"] is not None:
+            raise defs.BadValueTypeError("can't provide both handle and opener")
+        # checked before calling the opener, since closing the descriptor it provides
+        # would release the posix locks held by other streams of this process on that file
+        if not (raw_kwargs["read"] or raw_kwargs["write"] or raw_kwargs["append"]):
+            raise defs.BadValueTypeError("File can't be both non-writable and non-readable.")
+        if raw_kwargs["must_create"] and raw_kwargs["must_not_create"]:
+            raise defs.BadValueTypeError("File can't be wanted both as existing and unexisting.")
 
     if extended_kwargs["truncate"]:
         if not (raw_kwargs["write"] or raw_kwargs["append"]):
-- 
2.43.0


From 82212c429cc9619441b68376789300e0435c4fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:01 +0000
Subject: [PATCH 22/22] fix: on Windows, writable streams leaked a C
 descriptor, or left open the one they were given

The descriptor made to detect non-blocking pipes was dropped, or replaced the one
provided by the caller; it is now kept with the stream and closed with it.
---
 src/rsfile/rsfileio_windows.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index 1422ee4..f82651f 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -178,11 +178,11 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         self._use_nonblocking_pipe_write_hack = False
         #print(">>> Detecting _use_nonblocking_pipe_write_hack!", write, BLOCKING_MODES_ENABLED)
         if write and BLOCKING_MODES_ENABLED:
-            _fileno = win32._open_osfhandle(self._handle, (int(append) and os.O_APPEND))
+            if self._fileno is None:  # kept, so that this C descriptor is freed when the stream gets closed
+                self._fileno = win32._open_osfhandle(self._handle, (int(append) and os.O_APPEND))
             try:
-                if not os.get_blocking(_fileno):
+                if not os.get_blocking(self._fileno):
                     #print(">>> We want to use _use_nonblocking_pipe_write_hack!")
-                    self._fileno = _fileno
                     self._use_nonblocking_pipe_write_hack = True
             except OSError:
                 pass  # probably not a PIPE
-- 
2.43.0

